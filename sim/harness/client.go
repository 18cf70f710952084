//go:build go1.25

package harness

import (
	"bytes"
	"encoding/binary"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzsim/simnet"
	"github.com/fakeyanss/jt808-server-go/zzsim/simrt"
)

// The repository's terminal simulator as the system under test (C18), either against the real platform or
// against a platform played by the harness, which can answer, refuse, delay and ask whatever it likes.

// ClientConf configures the terminal-simulator process.
type ClientConf struct {
	N         int    `json:"n"`
	Ver       int    `json:"ver"`
	Keepalive int    `json:"keepalive"`
	LocInt    int    `json:"locInt"`
	Phone     string `json:"phone"` // patterns
	Plate     string `json:"plate"`
	Real      bool   `json:"real,omitempty"`
	Down      int    `json:"down,omitempty"` // the platform becomes reachable this late, ms; -1: never
	Run       int    `json:"run"`            // how long it runs after it is reachable, ms
	Res       []int  `json:"res,omitempty"`  // played platform: result of the registration on the i-th connection (9: never answered)
	AuthRes   []int  `json:"authRes,omitempty"`
	Code      string `json:"code,omitempty"`
	RegDelay  int    `json:"regDelay,omitempty"`
	AuthDelay int    `json:"authDelay,omitempty"`
	Holder    bool   `json:"holder,omitempty"` // a harness terminal (identity 0) holds phone or plate
	Fixed     uint32 `json:"fixed,omitempty"`  // status bits with a configured value, and the values
	Flags     uint32 `json:"flags,omitempty"`
	Lat       int    `json:"lat,omitempty"` // configured coordinates; 0: any
	Lon       int    `json:"lon,omitempty"`
	ID        string `json:"id,omitempty"`
}

func (cc *ClientConf) idPat() string {
	if cc.ID == "" {
		return "[A-Z0-9]{7}"
	}
	return cc.ID
}

// judgeRegistration: the terminal registers with an identity as configured.
func (cc *ClientConf) judgeRegistration(m *Msg) string {
	is := func(pat, s string) bool { return regexp.MustCompile("^(" + pat + ")$").MatchString(s) }
	if !is("0*("+cc.Phone+")", m.Phone) {
		return fmt.Sprintf("phone %s", m.Phone)
	}
	try := func(manu, mode, id int) string {
		b := m.Body
		if len(b) < 4+manu+mode+id+1 {
			return fmt.Sprintf("a body of %d bytes", len(b))
		}
		if n := int(b[0])<<8 | int(b[1]); n > 99 {
			return fmt.Sprintf("province %d", n)
		}
		if n := int(b[2])<<8 | int(b[3]); n > 9999 {
			return fmt.Sprintf("city %d", n)
		}
		b = b[4+manu+mode:]
		if s := strings.TrimRight(string(b[:id]), "\x00"); !is(cc.idPat(), s) {
			return fmt.Sprintf("device id %q", s)
		}
		if b = b[id:]; b[0] > 9 {
			return fmt.Sprintf("plate colour %d", b[0])
		}
		if s := ungbk(b[1:]); !is(cc.Plate, s) {
			return fmt.Sprintf("plate %q", s)
		}
		return ""
	}
	switch cc.Ver {
	case 2019:
		return try(11, 30, 30)
	case 2011:
		if try(5, 8, 7) == "" {
			return ""
		}
	}
	return try(5, 20, 7)
}

// The status flags in the order of their bits (loadStatus has two).
var statusFlags = []struct {
	name string
	bit  int
}{{"accStatusReg", 0}, {"locationStatusReg", 1}, {"latitudeTypeReg", 2}, {"longitudeTypeReg", 3}, {"operatingStatusReg", 4}, {"geoEncryptionStatusReg", 5},
	{"loadStatusReg", 8}, {"FuelSystemStatusReg", 10}, {"AlternatorSystemStatusReg", 11}, {"DoorLockedStatusReg", 12}, {"frontDoorStatusReg", 13},
	{"midDoorStatusReg", 14}, {"backDoorStatusReg", 15}, {"driverDoorStatusReg", 16}, {"customDoorStatusReg", 17}, {"gpsLocationStatusReg", 18},
	{"beidouLocationStatusReg", 19}, {"glonassLocationStatusReg", 20}, {"galileoLocationStatusReg", 21}, {"drivingStatusReg", 22}}

// judgeReport compares a location report of a simulated terminal with its configuration.
func (w *World) judgeReport(name string, t *cf, slack time.Duration, fail func(sig, f string, a ...any)) {
	cc, b := w.sc.Client, t.m.Body
	st := binary.BigEndian.Uint32(b[4:])
	if st&^0x7fff3f != 0 || (st^cc.Flags)&cc.Fixed != 0 {
		fail("client-location-flags", "%s: location report with status %08x, configured are %08x of %08x", name, st, cc.Flags, cc.Fixed)
	}
	lat, lon := int(binary.BigEndian.Uint32(b[8:])), int(binary.BigEndian.Uint32(b[12:]))
	if lat > 90e6 || lon > 180e6 || cc.Lat != 0 && (lat < (cc.Lat-1)*1e6 || lat > (cc.Lat+1)*1e6) || cc.Lon != 0 && (lon < (cc.Lon-1)*1e6 || lon > (cc.Lon+1)*1e6) {
		fail("client-location-place", "%s: location report of %d,%d; configured are %d,%d degrees", name, lat, lon, cc.Lat, cc.Lon)
	}
	if d := binary.BigEndian.Uint16(b[20:]); d > 359 {
		fail("client-location-direction", "%s: location report with direction %d", name, d)
	}
	now := simEpoch.Add(t.at.at + w.s.Skew[simrt.NodeClient])
	if tm, err := time.Parse("060102150405", fmt.Sprintf("%x", b[22:28])); err != nil {
		fail("client-location-time", "%s: location report with time %x", name, b[22:28])
	} else if d := now.Sub(tm); d < 0 || d > slack+time.Second {
		fail("client-location-time", "%s: location report of %v sent at %v", name, tm, now)
	}
}

// simEpoch is when simulated time begins.
var simEpoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// cf is one frame seen at the terminal simulator's end of a connection.
type cf struct {
	m    *Msg
	at   mark
	used bool
}

type cliConn struct {
	idx      int
	c        *simnet.Conn
	sv       *simnet.Conn // the played platform's end
	open     mark
	closed   mark // by the terminal
	ended    mark // by the platform
	tx, rx   []*cf
	txb, rxb []byte
	bad      int // damaged or unsupported frames sent to the terminal
	serial   uint16
	phone    string
	authOK   mark
	broken   bool
	set      int // bytes of parameters set
	fin      bool
}

type cliWorld struct {
	conns   []*cliConn
	exited  mark
	exit    bool
	started mark
	upAt    mark
	l       interface{ Close() error }
	cmds    []*cliCmd
}

// cliCmd is a command requested through the API for a simulated terminal.
type cliCmd struct {
	h      *HRec
	c      *cliConn
	params []Param
}

func (w *World) cliOf(c *simnet.Conn) *cliConn {
	for _, x := range w.cli.conns {
		if x.c == c {
			return x
		}
	}
	return nil
}

func (w *World) cliTap(c *simnet.Conn, kind string, b []byte) {
	if kind == "open" {
		x := &cliConn{idx: len(w.cli.conns), c: c, open: w.now(), closed: inf, ended: inf, authOK: inf}
		w.cli.conns = append(w.cli.conns, x)
		w.s.Tracef("cli%d connects from %s", x.idx, c.Local())
		w.wake()
		return
	}
	x := w.cliOf(c)
	if x == nil {
		return
	}
	switch kind {
	case "close":
		if x.closed.isInf() {
			x.closed = w.now()
			w.s.Tracef("cli%d closes", x.idx)
		}
	case "fin", "rst":
		if x.ended.isInf() {
			x.ended = w.now()
			w.s.Tracef("cli%d ended by the platform (%s)", x.idx, kind)
		}
	case "tx":
		x.txb = append(x.txb, b...)
		for !x.broken {
			if len(x.txb) == 0 {
				break
			}
			if x.txb[0] != 0x7e {
				x.broken = true
				w.fail("C18", "client-stream", "terminal %d sends byte %02x where a frame must start", x.idx, x.txb[0])
				break
			}
			e := bytes.IndexByte(x.txb[1:], 0x7e)
			if e < 0 {
				break
			}
			m, err := parseInner(x.txb[1 : 1+e])
			if err != nil {
				x.broken = true
				w.fail("C18", "client-frame", "terminal %d sends an invalid frame (%v): % x", x.idx, err, head(x.txb[:2+e]))
				break
			}
			x.txb = x.txb[2+e:]
			x.tx = append(x.tx, &cf{m: m, at: w.now()})
			if x.phone == "" {
				x.phone = m.Phone
			}
			w.s.Tracef("cli%d tx %04x serial=%d phone=%s body=% x", x.idx, m.ID, m.Serial, m.Phone, head(m.Body))
		}
	case "rx":
		x.rxb = append(x.rxb, b...)
		for len(x.rxb) > 0 {
			if x.rxb[0] != 0x7e {
				x.rxb = x.rxb[1:]
				continue
			}
			e := bytes.IndexByte(x.rxb[1:], 0x7e)
			if e < 0 {
				break
			}
			if m, err := parseInner(x.rxb[1 : 1+e]); err == nil {
				x.rx = append(x.rx, &cf{m: m, at: w.now()})
				w.s.Tracef("cli%d rx %04x serial=%d body=% x", x.idx, m.ID, m.Serial, head(m.Body))
				if m.ID == 0x8001 && len(m.Body) == 5 && binary.BigEndian.Uint16(m.Body[2:]) == 0x0102 && m.Body[4] == 0 && x.authOK.isInf() {
					x.authOK = w.now()
				}
			}
			x.rxb = x.rxb[2+e:]
		}
	}
	w.wake()
}

func (w *World) startClient() {
	cc := w.sc.Client
	pat := func(v int, any string) string {
		if v == 0 {
			return any
		}
		return fmt.Sprint(v)
	}
	var flags strings.Builder
	for _, f := range statusFlags {
		n, any := uint32(1), "0|1"
		if f.bit == 8 {
			n, any = 3, "[0-3]"
		}
		if cc.Fixed>>f.bit&n != 0 {
			any = fmt.Sprint(cc.Flags >> f.bit & n)
		}
		fmt.Fprintf(&flags, "      %s: \"%s\"\n", f.name, any)
	}
	body := w.logConf() + fmt.Sprintf("client:\n  name: \"c\"\n  concurrency: %d\n  conn:\n    remoteAddr: \"10.0.0.1:%s\"\n", cc.N, tcpPort) +
		fmt.Sprintf("  device:\n    idReg: %q\n    imeiReg: \"[0-9]{15}\"\n    phoneReg: %q\n    plateReg: %q\n    protocolVersion: \"%d\"\n    transProto: \"TCP\"\n    keepalive: %d\n    provinceIdReg: \"[0-9]{2}\"\n    cityIdReg: \"[0-9]{4}\"\n    plateColorReg: \"[0123459]{1}\"\n",
			cc.idPat(), cc.Phone, cc.Plate, cc.Ver, cc.Keepalive) +
		fmt.Sprintf("  deviceGeo:\n    locationReportInterval: %d\n    geo:\n", cc.LocInt) +
		flags.String() +
		fmt.Sprintf("    location:\n      latitudeReg: %q\n      longitudeReg: %q\n", pat(cc.Lat, "[0-8][0-9]|90"), pat(cc.Lon, "[0-9]{2}|1[0-7][0-9]|180")) +
		"      altitudeReg: \"[0-9]{4}\"\n    drive:\n      speedReg: \"[0-9]{2}\"\n      directionReg: \"[0-9]{2}|[1-2][0-9]{2}|3[0-5][0-9]\"\n"
	path := writeConf("client.yaml", body)
	w.cli.started = w.now()
	w.s.Spawn(simrt.NodeClient, "client-main", func() {
		resetClient()
		resetLibs()
		rand.Seed(int64(w.sc.Seed ^ 0xc11e))
		flag.CommandLine = flag.NewFlagSet("client", flag.ContinueOnError)
		os.Args = []string{"client", "-c", path}
		clientMain()
		if w.s.Killed() {
			return
		}
		w.cli.exited, w.cli.exit = w.now(), true
		w.s.Tracef("the terminal simulator's main function returned")
		w.wake()
		w.s.After(0, func() { w.s.KillNode(simrt.NodeClient) })
	})
}

// clientDirector starts the processes; it returns true if the run is over.
func (w *World) clientDirector() bool {
	cc := w.sc.Client
	w.cli = &cliWorld{exited: inf, upAt: inf}
	w.n.Tap = w.cliTap
	listen := func() {
		if cc.Real {
			w.startServer()
			w.waitUp()
		} else {
			w.played()
		}
		w.cli.upAt = w.now()
	}
	if cc.Down == 0 {
		listen()
	}
	if cc.Holder { // somebody holds the phone or the plate already
		c := w.dial(99, "")
		if c == nil {
			return true
		}
		a := &actorState{w: w, i: 99, slots: map[int]*CRec{0: c}}
		a.term(&Op{K: "reg", T: 0, W: true})
		a.term(&Op{K: "auth", T: 0, W: true})
		w.live++
		w.s.Spawn(simrt.NodeHarness, "holder", func() {
			defer func() {
				if !w.s.Killed() {
					w.live--
					w.wake()
				}
			}()
			end := w.s.Now() + time.Duration(cc.Run)*time.Millisecond
			r := simrt.NewRand(w.sc.Seed ^ 77)
			for w.s.Now() < end && !w.s.Stop {
				o := Op{K: "hb", T: 0, W: true}
				if r.Intn(2) == 0 {
					o = Op{K: "loc", T: 0, W: true, Seed: r.U64() >> 1}
				}
				a.term(&o)
				simrt.Sleep(time.Duration(1+r.Intn(20)) * time.Second)
			}
		})
	}
	w.startClient()
	if cc.Down != 0 {
		w.waitUntil(30*time.Second+w.stalled(), func() bool { return w.n.Dials > 0 })
		if cc.Down < 0 {
			w.s.Count("fault:platform-unreachable")
			w.waitUntil(20*time.Minute, func() bool { return w.cliGone() })
			return true
		}
		w.s.Count("fault:platform-late")
		simrt.Sleep(time.Duration(cc.Down) * time.Millisecond)
		listen()
	}
	w.live++
	w.s.Spawn(simrt.NodeHarness, "clock", func() {
		simrt.Sleep(time.Duration(cc.Run) * time.Millisecond)
		if !w.s.Killed() {
			w.live--
			w.wake()
		}
	})
	return false
}

func (w *World) cliGone() bool { return w.cli.exit || w.s.NodeDead(simrt.NodeClient) }

// ------------------------------------------------------------------ a platform played by the harness

func (w *World) played() {
	l, err := simnet.Listen("tcp", ":"+tcpPort)
	if err != nil {
		panic(err)
	}
	w.cli.l = l
	w.s.Spawn(simrt.NodeHarness, "platform", func() {
		for {
			nc, err := l.Accept()
			if err != nil || w.s.Killed() {
				return
			}
			sv := nc.(*simnet.Conn)
			for _, x := range w.cli.conns {
				if x.c.Local() == sv.Remote() && x.sv == nil {
					w.serveCli(x, sv)
				}
			}
		}
	})
}

func (x *cliConn) put(w *World, m *Msg) {
	if x.sv != nil && !x.fin {
		x.sv.Put(m.Frame())
	}
}

func (w *World) serveCli(x *cliConn, sv *simnet.Conn) {
	cc := w.sc.Client
	x.sv = sv
	var buf []byte
	later := func(d int, f func()) {
		if d <= 0 {
			f()
			return
		}
		w.s.After(time.Duration(d)*time.Millisecond, f)
	}
	pick := func(xs []int) int {
		if len(xs) == 0 {
			return 0
		}
		return xs[x.idx%len(xs)]
	}
	sv.Attach(func(b []byte) {
		buf = append(buf, b...)
		for len(buf) > 0 {
			if buf[0] != 0x7e {
				buf = buf[1:]
				continue
			}
			e := bytes.IndexByte(buf[1:], 0x7e)
			if e < 0 {
				return
			}
			m, err := parseInner(buf[1 : 1+e])
			buf = buf[2+e:]
			if err != nil {
				continue
			}
			ack := func(res byte) *Msg {
				x.serial++
				body := binary.BigEndian.AppendUint16(nil, m.Serial)
				body = binary.BigEndian.AppendUint16(body, m.ID)
				return &Msg{ID: 0x8001, V19: m.V19, ProtoVer: m.ProtoVer, Phone: m.Phone, Serial: x.serial, Body: append(body, res)}
			}
			switch m.ID {
			case 0x0100:
				res := pick(cc.Res)
				if res == 9 {
					break
				}
				x.serial++
				body := append(binary.BigEndian.AppendUint16(nil, m.Serial), byte(res))
				body = append(body, cc.Code...)
				r := &Msg{ID: 0x8100, V19: m.V19, ProtoVer: m.ProtoVer, Phone: m.Phone, Serial: x.serial, Body: body}
				later(cc.RegDelay, func() { x.put(w, r) })
			case 0x0102:
				r := ack(byte(pick(cc.AuthRes)))
				later(cc.AuthDelay, func() { x.put(w, r) })
			case 0x0002, 0x0200, 0x0003:
				x.put(w, ack(0))
			}
		}
	}, func(string) {})
}

// plat performs one step of the played platform.
func (a *actorState) plat(op *Op) {
	w := a.w
	if op.K == "sleep" {
		return
	}
	w.waitUntil(5*time.Second, func() bool { return op.C < len(w.cli.conns) && w.cli.conns[op.C].phone != "" })
	if op.C >= len(w.cli.conns) {
		return
	}
	x := w.cli.conns[op.C]
	if x.phone == "" || x.sv == nil && !w.sc.Client.Real {
		return
	}
	if op.M == 1 { // wait until it is authenticated
		w.waitUntil(time.Minute, func() bool { return !x.authOK.isInf() || !x.closed.isInf() || !x.ended.isInf() })
	}
	v19 := w.sc.Client.Ver == 2019
	msg := func(id uint16, body []byte) *Msg {
		x.serial++
		pv := byte(0)
		if v19 {
			pv = 1
		}
		return &Msg{ID: id, V19: v19, ProtoVer: pv, Phone: x.phone, Serial: x.serial, Body: body}
	}
	if w.sc.Client.Real {
		switch op.K {
		case "set":
			ps := w.cliParams(x, op.Seed, op.N)
			if len(ps) == 0 {
				return
			}
			h := w.http("cli", -1, "PUT", "/device/"+x.phone+"/params", paramsJSON(ps, len(ps)))
			w.cli.cmds = append(w.cli.cmds, &cliCmd{h, x, ps})
			if op.W {
				w.waitUntil(settle+w.stalled(), func() bool { return h.done })
			}
		case "get":
			h := w.http("cli", -1, "GET", "/device/"+x.phone+"/params", "")
			w.cli.cmds = append(w.cli.cmds, &cliCmd{h, x, nil})
			if op.W {
				w.waitUntil(settle+w.stalled(), func() bool { return h.done })
			}
		}
		return
	}
	switch op.K {
	case "set":
		ps := w.cliParams(x, op.Seed, op.N)
		if len(ps) == 0 {
			return
		}
		if op.Seed%6 == 0 { // and one it cannot know
			ps = append(ps, Param{ID: 0xf100 + uint32(op.Seed%99), Wire: []byte{1, 2, 3}[:op.Seed%4]})
			ps[0], ps[len(ps)-1] = ps[len(ps)-1], ps[0]
		}
		x.put(w, msg(0x8103, encParams(ps)))
	case "get":
		x.put(w, msg(0x8104, nil))
	case "media":
		r := simrt.NewRand(op.Seed)
		day := 1 + r.Intn(27)
		from := fmt.Sprintf("%02d%02d%02d%02d%02d%02d", r.Intn(60), 1+r.Intn(12), day, r.Intn(24), r.Intn(60), r.Intn(60))
		to := fmt.Sprintf("%s%02d%02d%02d%02d", from[:4], day+1, r.Intn(24), r.Intn(60), r.Intn(60))
		b := append([]byte{byte(r.U64())}, bcd(from+to)...)
		b = append(b, r.Bytes(8)...)
		x.put(w, msg(0x9205, append(b, byte(r.Intn(4)), byte(r.Intn(3)), byte(r.Intn(3)))))
	case "unsup":
		x.bad++
		x.put(w, msg(uint16(op.N), []byte{1, 2, 3}))
	case "corrupt":
		x.bad++
		m := msg(0x8104, nil)
		raw := m.raw()
		w.s.Count("fault:corrupt-frame")
		if !x.fin {
			x.sv.Put(escape(append(raw, xorsum(raw)^byte(1+op.Seed%255))))
		}
	case "fin":
		w.s.Count("fault:close")
		x.fin = true
		x.sv.Bye()
	case "rst":
		w.s.Count("fault:reset")
		x.fin = true
		x.sv.Abort()
	}
}

func encParams(ps []Param) []byte {
	b := []byte{byte(len(ps))}
	for _, p := range ps {
		b = binary.BigEndian.AppendUint32(b, p.ID)
		b = append(b, byte(len(p.Wire)))
		b = append(b, p.Wire...)
	}
	return b
}

// cliParams: parameters with different ids that the terminal can still answer in one message.
func (w *World) cliParams(x *cliConn, seed uint64, n int) []Param {
	all, _ := w.genParams(seed, n)
	seen := map[uint32]bool{}
	var ps []Param
	for _, p := range all {
		if seen[p.ID] || x.set+5+len(p.Wire) > 420 {
			continue
		}
		seen[p.ID] = true
		x.set += 5 + len(p.Wire)
		ps = append(ps, p)
	}
	return ps
}

// ------------------------------------------------------------------ judging

func (w *World) judgeClient() {
	cc := w.sc.Client
	cw := w.cli
	fail := func(sig, f string, a ...interface{}) { w.fail("C18", sig, f, a...) }
	exited := inf
	if cw.exit {
		exited = cw.exited
	}
	for _, c := range w.s.Crashes {
		if c.Node != simrt.NodeClient {
			continue
		}
		if strings.HasPrefix(c.Why, "process exit") && len(cw.conns) < cc.N && (cc.Down < 0 || cc.Down > 25000) {
			exited = mark{w.s.NextSeq(), c.At}
			continue
		}
		fail("client-crash:"+crashSig(c.Why), "the terminal simulator died at %.3fs: %s", c.At.Seconds(), c.Why)
		return
	}
	slack := settle + 2*w.sc.Net.DelayMax + w.stalled()
	if cc.Down < 0 {
		w.judged++
		if exited.isInf() {
			fail("client-never-gives-up", "the platform was never reachable, the terminal simulator was still trying after 20 minutes (%d attempts)", w.n.Dials)
		} else if w.n.Dials < 2 {
			fail("client-no-retry", "the terminal simulator gave up after a single attempt")
		}
		return
	}
	end := w.settledAt
	if end.at == 0 {
		end = w.runEnd
	}
	phones := map[string]bool{}
	for _, x := range cw.conns {
		if x.phone != "" && phones[x.phone] {
			return // two simulated terminals drew the same number
		}
		phones[x.phone] = true
	}
	if cc.Down <= 25000 && len(cw.conns) < cc.N {
		fail("client-not-connected", "the platform was reachable from %.3fs, only %d of %d terminals connected", cw.upAt.at.Seconds(), len(cw.conns), cc.N)
	}
	for _, x := range cw.conns {
		w.judgeCliConn(x, slack, end)
	}
	// the process goes on as long as a terminal is connected
	if !exited.isInf() {
		for _, x := range cw.conns {
			if x.closed.isInf() && x.ended.isInf() || exited.before(x.closed) && x.ended.isInf() {
				fail("client-ended", "the terminal simulator ended at %.3fs although terminal %d was connected", exited.at.Seconds(), x.idx)
			}
		}
	}
	if cc.Real {
		w.judgeCliReal(slack)
	}
}

func (w *World) judgeCliConn(x *cliConn, slack time.Duration, end mark) {
	cc := w.sc.Client
	fail := func(sig, f string, a ...interface{}) { w.fail("C18", sig, f, a...) }
	name := fmt.Sprintf("terminal %d (%s)", x.idx, x.c.Local())
	over := minMark(minMark(x.closed, x.ended), end)
	if x.broken {
		return
	}
	late := func(t mark, more time.Duration) bool {
		return t.at+slack+more+time.Duration(x.bad)*1200*time.Millisecond < over.at
	}
	if len(x.tx) == 0 {
		if late(x.open, 0) {
			fail("client-no-register", "%s connected at %.3fs and never registered", name, x.open.at.Seconds())
		}
		return
	}
	if x.tx[0].m.ID != 0x0100 {
		fail("client-first", "%s: first message is %04x, not a registration", name, x.tx[0].m.ID)
		return
	}
	if x.tx[0].at.at > x.open.at+slack {
		fail("client-late-register", "%s connected at %.3fs and registered at %.3fs", name, x.open.at.Seconds(), x.tx[0].at.at.Seconds())
	}
	w.judged++
	var regOK, regNo, authSent mark = inf, inf, inf
	code := ""
	for _, r := range x.rx {
		if r.m.ID == 0x8100 && len(r.m.Body) >= 3 && regOK.isInf() && regNo.isInf() {
			if r.m.Body[2] == 0 {
				regOK, code = r.at, string(r.m.Body[3:])
			} else {
				regNo = r.at
			}
		}
	}
	v19 := cc.Ver == 2019
	lastHB, lastLoc := x.authOK, x.authOK
	hbs, locs := 0, 0
	gap := func(kind string, a, b mark, period int) {
		if a.isInf() || b.at-a.at <= time.Duration(period)*time.Second+slack+time.Second {
			return
		}
		fail("client-silent:"+kind, "%s sent no %s between %.3fs and %.3fs although it is due every %d s", name, kind, a.at.Seconds(), b.at.Seconds(), period)
	}
	for i, t := range x.tx {
		m := t.m
		if m.Phone != x.phone || m.V19 != v19 || m.Frag {
			fail("client-header", "%s: message %04x with phone %s, version 2019=%v, fragment=%v; it is %s, %v", name, m.ID, m.Phone, m.V19, m.Frag, x.phone, v19)
		}
		switch m.ID {
		case 0x0100:
			if i > 0 {
				fail("client-register-twice", "%s registered again at %.3fs", name, t.at.at.Seconds())
			} else if bad := cc.judgeRegistration(m); bad != "" {
				fail("client-registration", "%s registers at %.3fs with %s, which is not as configured (phone %s, plate %s, device id %s, version %d)", name, t.at.at.Seconds(), bad, cc.Phone, cc.Plate, cc.idPat(), cc.Ver)
			}
		case 0x0102:
			if !authSent.isInf() {
				fail("client-auth-twice", "%s authenticated again at %.3fs", name, t.at.at.Seconds())
			}
			authSent = t.at
			if regOK.isInf() || t.at.before(regOK) {
				fail("client-auth-refused", "%s authenticates at %.3fs although its registration was not accepted", name, t.at.at.Seconds())
				break
			}
			got := string(m.Body)
			if v19 {
				if len(m.Body) < 1 || len(m.Body) != 1+int(m.Body[0])+35 {
					fail("client-auth-body", "%s: authentication body of %d bytes", name, len(m.Body))
					break
				}
				got = string(m.Body[1 : 1+int(m.Body[0])])
				for _, d := range m.Body[1+len(got) : 16+len(got)] {
					if d < '0' || d > '9' {
						fail("client-auth-imei", "%s: authentication with IMEI %q", name, m.Body[1+len(got):16+len(got)])
						break
					}
				}
			}
			if got != code {
				fail("client-auth-code", "%s authenticates with %q, the code issued is %q", name, got, code)
			}
		case 0x0002, 0x0200:
			if x.authOK.isInf() || t.at.before(x.authOK) {
				fail("client-early", "%s sends %04x at %.3fs, before it is authenticated", name, m.ID, t.at.at.Seconds())
			}
			if m.ID == 0x0002 {
				hbs++
				gap("heartbeat", lastHB, t.at, cc.Keepalive)
				lastHB = t.at
			} else {
				locs++
				gap("location report", lastLoc, t.at, cc.LocInt)
				lastLoc = t.at
				if len(m.Body) < 28 {
					fail("client-location-body", "%s: location report of %d bytes", name, len(m.Body))
				} else {
					w.judgeReport(name, t, slack, fail)
				}
			}
		}
	}
	if !regNo.isInf() {
		w.s.Probe("client-refused")
		if x.closed.isInf() && x.ended.isInf() && regNo.at+slack < end.at {
			fail("client-refused-stays", "%s was refused at %.3fs and does not give up", name, regNo.at.Seconds())
		}
		return
	}
	if !regOK.isInf() && authSent.isInf() && late(regOK, 0) {
		fail("client-no-auth", "%s was registered at %.3fs and never authenticated", name, regOK.at.Seconds())
	}
	if !x.authOK.isInf() {
		w.s.Probe("client-online")
		gap("heartbeat", lastHB, over, cc.Keepalive)
		gap("location report", lastLoc, over, cc.LocInt)
		if hbs > 1 && locs > 1 {
			w.s.Probe("client-stays-online")
		}
	}
	if !x.closed.isInf() && x.ended.isInf() && x.closed.before(end) {
		fail("client-hangs-up", "%s closed its connection at %.3fs without reason", name, x.closed.at.Seconds())
	}
	w.judgeAnswers(x, late)
}

// judgeAnswers: every query and setting is answered once, in order, and answers reflect the settings.
func (w *World) judgeAnswers(x *cliConn, late func(mark, time.Duration) bool) {
	fail := func(sig, f string, a ...interface{}) { w.fail("C18", sig, f, a...) }
	name := fmt.Sprintf("terminal %d (%s)", x.idx, x.c.Local())
	current := map[uint32][]byte{} // known values
	complete := false              // the whole set is known
	k := 0
	next := func(id uint16) *cf {
		for ; k < len(x.tx); k++ {
			switch x.tx[k].m.ID {
			case 0x0001, 0x0104, 0x1205:
				k++
				return x.tx[k-1]
			}
		}
		return nil
	}
	for _, r := range x.rx {
		var want uint16
		switch r.m.ID {
		case 0x8103:
			want = 0x0001
		case 0x8104:
			want = 0x0104
		case 0x9205:
			want = 0x1205
		default:
			continue
		}
		t := next(want)
		if t == nil {
			if late(r.at, 0) {
				fail(fmt.Sprintf("client-unanswered:%04x", r.m.ID), "%s: %04x serial %d received at %.3fs is never answered", name, r.m.ID, r.m.Serial, r.at.at.Seconds())
			}
			return
		}
		w.judged++
		if t.at.before(r.at) {
			fail("client-answer-spurious", "%s: answer %04x at %.3fs to nothing", name, t.m.ID, t.at.at.Seconds())
			return
		}
		if t.m.ID != want || len(t.m.Body) < 2 || binary.BigEndian.Uint16(t.m.Body) != r.m.Serial {
			fail("client-answer-mismatch", "%s: %04x serial %d is answered by %04x % x", name, r.m.ID, r.m.Serial, t.m.ID, head(t.m.Body))
			return
		}
		if t.at.at-r.at.at > settle+2*w.sc.Net.DelayMax+w.stalled()+time.Duration(x.bad)*1200*time.Millisecond {
			fail("client-answer-late", "%s: %04x serial %d received at %.3fs is answered at %.3fs", name, r.m.ID, r.m.Serial, r.at.at.Seconds(), t.at.at.Seconds())
		}
		w.s.Probe(fmt.Sprintf("client-answers-%04x", r.m.ID))
		switch r.m.ID {
		case 0x8103:
			ps, err := parseParams(r.m.Body)
			if err != nil {
				return
			}
			unknown := false
			for _, p := range ps {
				if p.ID >= 0xf000 {
					unknown = true
					continue
				}
				current[p.ID] = p.Wire
			}
			if len(t.m.Body) != 5 || binary.BigEndian.Uint16(t.m.Body[2:]) != 0x8103 || t.m.Body[4] != 0 && !unknown {
				fail("client-set-answer", "%s: parameter setting answered with % x", name, t.m.Body)
			}
			complete = false
		case 0x8104:
			ps, err := parseParams(t.m.Body[2:])
			if err != nil {
				fail("client-params", "%s: parameter answer: %v", name, err)
				return
			}
			got := map[uint32][]byte{}
			for _, p := range ps {
				if got[p.ID] != nil {
					fail("client-params-twice", "%s: parameter %04x twice in an answer", name, p.ID)
				}
				got[p.ID] = append([]byte{}, p.Wire...)
			}
			for id, v := range current {
				if g, ok := got[id]; !ok || !bytes.Equal(g, v) {
					fail("client-params-value", "%s: parameter %04x is % x (present=%v) in the answer to serial %d, it is % x", name, id, g, ok, r.m.Serial, v)
					return
				}
			}
			if complete && len(got) != len(current) {
				fail("client-params-extra", "%s: %d parameters in the answer to serial %d, %d before and nothing was set", name, len(got), r.m.Serial, len(current))
			}
			current, complete = got, true
		case 0x9205:
			// Total number of items and, of each, channel, start and end, alarms, kinds and size.
			b := t.m.Body
			if len(b) < 6 || len(b) != 6+28*int(binary.BigEndian.Uint32(b[2:])) {
				fail("client-media", "%s: media answer of %d bytes, % x", name, len(b), head(b))
				break
			}
			for b = b[6:]; len(b) > 0 && len(r.m.Body) >= 13; b = b[28:] {
				if r.m.Body[0] != 0 && b[0] != r.m.Body[0] || bytes.Compare(b[1:7], r.m.Body[1:7]) < 0 ||
					bytes.Compare(b[7:13], r.m.Body[7:13]) > 0 || bytes.Compare(b[1:7], b[7:13]) > 0 {
					fail("client-media-item", "%s: media item % x in answer to the query % x", name, b[:28], r.m.Body)
				}
			}
		}
	}
	if t := next(0); t != nil {
		fail("client-answer-twice", "%s: answer %04x % x at %.3fs to nothing that is outstanding", name, t.m.ID, head(t.m.Body), t.at.at.Seconds())
	}
}

// judgeCliReal: what the real platform shows.
func (w *World) judgeCliReal(slack time.Duration) {
	fail := func(sig, f string, a ...interface{}) { w.fail("C18", sig, f, a...) }
	cw := w.cli
	for _, h := range w.https {
		if h.kind != "list" || !h.done || h.status != 200 {
			continue
		}
		by := listOf(h)
		for _, x := range cw.conns {
			if x.authOK.isInf() || !x.authOK.before(h.inv) || !x.closed.isInf() || !x.ended.isInf() {
				continue
			}
			w.judged++
			d := by[x.phone]
			if d == nil {
				fail("client-not-listed", "device list #%d at %.3fs does not show the simulated terminal %s", h.idx, h.inv.at.Seconds(), x.phone)
			} else if d.Status != 1 && d.Status != 2 {
				fail("client-not-online", "device list #%d at %.3fs shows the simulated terminal %s with status %d", h.idx, h.inv.at.Seconds(), x.phone, d.Status)
			} else {
				w.s.Probe("client-listed-online")
			}
		}
	}
	for _, x := range cw.conns {
		var gets, puts int
		type want struct {
			ps   []Param
			sure bool
			n    int
		}
		var wants []*want
		maxGets := 0
		for _, c := range cw.cmds {
			if c.c != x {
				continue
			}
			ok := c.h.done && c.h.status == 200
			alive := !x.authOK.isInf() && x.authOK.before(c.h.inv) && x.closed.isInf() && x.ended.isInf()
			if c.h.done && !ok && alive && !c.h.refused {
				fail("client-command-refused", "command #%d at %.3fs for the simulated terminal %s is refused: %d %s", c.h.idx, c.h.inv.at.Seconds(), x.phone, c.h.status, c.h.body)
			}
			if c.params == nil {
				maxGets++
				if ok {
					gets++
				}
			} else {
				if ok {
					puts++
				}
				wants = append(wants, &want{c.params, ok, 0})
			}
		}
		gotG, gotP := 0, 0
		for _, r := range x.rx {
			switch r.m.ID {
			case 0x8104:
				gotG++
			case 0x8103:
				gotP++
				ps, err := parseParams(r.m.Body)
				hit := false
				for _, q := range wants {
					if err == nil && q.n == 0 && sameParams(ps, q.ps) {
						q.n++
						hit = true
						break
					}
				}
				if !hit {
					fail("client-command-content", "terminal %s received a parameter setting nobody asked for: % x (%v)", x.phone, head(r.m.Body), err)
				}
			}
		}
		if x.closed.isInf() && x.ended.isInf() {
			if gotG < gets || gotG > maxGets {
				fail("client-command-count", "terminal %s received %d parameter queries, %d were accepted of %d", x.phone, gotG, gets, maxGets)
			}
			if gotP < puts || gotP > len(wants) {
				fail("client-command-count", "terminal %s received %d parameter settings, %d were accepted of %d", x.phone, gotP, puts, len(wants))
			}
		}
	}
}

// ------------------------------------------------------------------ generation

func init() {
	families["C18"] = []family{
		{5, "played", (*gen).clientPlayed, 0},
		{4, "real", (*gen).clientReal, 0},
		{1, "unreachable", (*gen).clientDown, 0},
	}
}

func (g *gen) clientConf() *ClientConf {
	cc := &ClientConf{N: 1 + g.r.Intn(4), Ver: g.pick(2013, 2019, 2019, 2011), Keepalive: g.pick(5, 20, 30), LocInt: g.pick(3, 10, 30), Run: 1000 * (20 + g.r.Intn(130))}
	cc.Phone, cc.Plate = "[1-9][0-9]{11}", g.pickS("京A[A-Z0-9]{6}", "[A-Z0-9]{7}", "粤B[A-Z]{3}[0-9]{3}")
	if cc.Ver == 2019 {
		cc.Phone = g.pickS("[1-9][0-9]{18}", "[1-9][0-9]{19}", "130[0-9]{12}")
	}
	if cc.N == 1 && g.pct(50) {
		cc.Phone, cc.Plate = "13012345678", "京A12345"
	}
	if g.pct(30) {
		cc.Down = 1 + g.r.Intn(25000)
	}
	cc.Code = g.pickS("1", "4294967295", "123456789", "abcDEF-_~}", strings.Repeat("9", 60), "7e7d")
	if g.pct(40) {
		cc.ID = g.pickS("[A-Z]{3}", "[0-9]{6}", "D[a-z0-9]{4}", "[1-9]")
		if cc.Ver == 2019 && g.pct(50) {
			cc.ID = g.pickS("[A-Z0-9]{30}", "[A-Z0-9]{12}")
		}
	}
	if g.pct(70) {
		cc.Flags = uint32(g.r.U64()) & 0x7fff3f
		cc.Fixed = uint32(g.r.U64()) & 0x7fff3f
		if cc.Fixed&0x300 != 0 {
			cc.Fixed |= 0x300
		}
		if g.pct(50) {
			cc.Fixed = 0x7fff3f
		}
		cc.Lat, cc.Lon = g.pick(0, 2, 31, 60, 88), g.pick(0, 2, 100, 121, 178)
	}
	g.sc.Client = cc
	if g.sc.Net.Window < 4096 { // periods are judged: a send must not wait for room
		g.sc.Net.Window = 4096
	}
	return cc
}

func (g *gen) clientOps(cc *ClientConf, real bool) {
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		s := g.newScript()
		n := 2 + g.r.Intn(10)
		for i := 0; i < n; i++ {
			d := g.r.Intn(2*cc.Run/n + 1)
			if g.pct(30) {
				d = g.r.Intn(50)
			}
			o := Op{D: d, C: g.r.Intn(cc.N), W: g.pct(60), Seed: g.seed(), N: 1 + g.r.Intn(6), M: 1}
			if !real && g.pct(20) {
				o.M = 0
			}
			o.K = g.pickS("set", "get", "get", "set", "media")
			if real {
				o.K = g.pickS("set", "get")
			} else if g.pct(12) {
				o.K = g.pickS("unsup", "corrupt")
				o.N = g.pick(0x8105, 0x8201, 0x8300, 0x9101)
			}
			s.add(o)
		}
		s.done("plat")
	}
}

func (g *gen) clientPlayed() {
	cc := g.clientConf()
	for i := 0; i < cc.N; i++ {
		cc.Res = append(cc.Res, g.pick(0, 0, 0, 0, 0, 1, 3, 2, 9))
		cc.AuthRes = append(cc.AuthRes, g.pick(0, 0, 0, 0, 0, 0, 1))
	}
	cc.RegDelay = g.pick(0, 0, 10, 700, 5000)
	cc.AuthDelay = g.pick(0, 0, 10, 1500)
	g.clientOps(cc, false)
	if g.pct(25) {
		s := g.newScript()
		s.add(Op{K: g.pickS("fin", "rst"), C: g.r.Intn(cc.N), D: g.r.Intn(cc.Run), M: g.r.Intn(2)})
		s.done("plat")
	}
}

func (g *gen) clientReal() {
	cc := g.clientConf()
	cc.Real = true
	g.clientOps(cc, true)
	s := g.newScript()
	n := 2 + g.r.Intn(8)
	for i := 0; i < n; i++ {
		s.add(Op{K: "list", D: g.r.Intn(2 * cc.Run / n), W: true})
	}
	s.done("http")
	if g.pct(35) {
		cc.Down, cc.N, cc.Holder = 0, 1, true
		var keep []Actor // commands would reach the holder
		for _, a := range g.sc.Actors {
			if a.Kind != "plat" {
				keep = append(keep, a)
			}
		}
		g.sc.Actors = keep
		t := Ident{Phone: "013012345678", Plate: "沪C0001", ID: "HOLDER1", Ver: 2013, Rival: true}
		cc.Phone, cc.Plate = "13012345678", "京A12345"
		if cc.Ver == 2019 {
			t.Phone, t.Ver, t.PV, t.IMEI, t.SW = "00000000013012345678", 2019, 1, "860000000000001", "v1"
		}
		if g.pct(50) {
			t.Plate = "京A12345"
			if g.pct(50) {
				t.Phone = t.Phone[:len(t.Phone)-1] + "9"
			}
		}
		g.sc.Idents = append(g.sc.Idents, t)
	}
}

func (g *gen) clientDown() {
	cc := g.clientConf()
	cc.Down = -1
}
