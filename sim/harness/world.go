//go:build go1.25

package harness

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzsim/simnet"
	"github.com/fakeyanss/jt808-server-go/zzsim/simrt"
	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"github.com/spf13/viper"
)

// Ports of the active run.
var tcpPort, httpPort = "8080", "8008"

// Conf is how the platform is configured, besides the level of its log.
type Conf struct {
	TCP     string `json:"tcp"`
	HTTP    string `json:"http"`
	JSON    bool   `json:"json,omitempty"`    // the log is written as JSON
	Banner  bool   `json:"banner,omitempty"`  // a banner is printed
	Builtin bool   `json:"builtin,omitempty"` // no configuration file is given
	Console bool   `json:"console,omitempty"` // the log also goes to the console
	NoDir   bool   `json:"nodir,omitempty"`   // the directory of the log cannot be created
}

// Op is one step of an actor.
type Op struct {
	K    string `json:"k"`
	D    int    `json:"d,omitempty"` // pause before the step, ms
	T    int    `json:"t,omitempty"` // terminal identity
	C    int    `json:"c,omitempty"` // connection slot
	W    bool   `json:"w,omitempty"` // wait for the outcome
	N    int    `json:"n,omitempty"`
	M    int    `json:"m,omitempty"`
	S    string `json:"s,omitempty"`
	Seed uint64 `json:"x,omitempty"`
}

// Actor performs its steps one after the other.
type Actor struct {
	Kind string `json:"kind"` // term, http, fault
	Ops  []Op   `json:"ops"`
}

// Scenario is a complete description of a run except for scheduling choices.
type Scenario struct {
	Prop   string        `json:"prop"`
	Kind   string        `json:"kind"`
	Seed   uint64        `json:"seed"`
	RT     simrt.Config  `json:"rt"`
	Net    simnet.Config `json:"net"`
	Log    string        `json:"log"`
	Disk   bool          `json:"disk,omitempty"` // log to a file
	Conf   *Conf         `json:"conf,omitempty"`
	Idents []Ident       `json:"idents"`
	Actors []Actor       `json:"actors"`
	Tail   int           `json:"tail"`             // quiet time after the last step, ms
	Shared bool          `json:"shared,omitempty"` // identities compete: judged by linearizability
	Client *ClientConf   `json:"client,omitempty"`
	Drain  bool          `json:"drain,omitempty"` // in the end all terminals leave
	Down   int           `json:"down,omitempty"`  // the platform starts this late, ms
	Date   int64         `json:"date,omitempty"`  // what the clocks show at the start, seconds after 2000
}

// Violation of one or more properties.
type Violation struct {
	Props []string `json:"props"`
	Sig   string   `json:"sig"`
	Msg   string   `json:"msg"`
}

type mark struct {
	seq int64
	at  time.Duration
}

var inf = mark{1 << 60, 1 << 60}

func tmark(at time.Duration) mark { return mark{-1, at} }
func (a mark) before(b mark) bool {
	if a.seq >= 0 && b.seq >= 0 {
		return a.seq < b.seq
	}
	return a.at < b.at
}
func (m mark) isInf() bool { return m.at >= inf.at }

// CRec is one terminal connection.
type CRec struct {
	idx       int
	addr      string
	actor     int
	c         *simnet.Conn
	open      mark
	ourClose  mark
	how       string
	vanished  bool
	end       mark
	endKind   string
	buf       []byte
	rx        []*Rx
	tx        []*Req
	lastIdx   int
	errs      int
	frozen    time.Duration
	paused    bool
	pausedAt  time.Duration
	pauseTot  time.Duration
	broken    bool // the stream to the terminal was already found invalid
	mayDie    bool // a message was sent after which the server may drop the connection
	mayDieAt  mark
	mustDie   mark // a message was sent after which the server must drop the connection
	unaccept  bool
	in        bool   // reference framer: inside a frame
	fbuf      []byte // reference framer: bytes since the last delimiter
	delim     bool   // reference framer: a delimiter has been seen
	wild      bool   // accidental valid frames: nothing is asserted
	hostile   bool   // nonsense with a correct checksum was sent: replies are not judged
	rxBytes   int
	restarts  int
	mayDieIdx int
}

// Req is one thing a terminal sent.
type Req struct {
	idx     int
	c       *CRec
	kind    string // reg auth hb loc dereg noreply unsup corrupt junk frag malformed
	id      int    // identity
	m       *Msg
	sent    mark
	ok      bool // handed to the network
	reply   *Rx
	loc     *Loc
	code    string
	right   bool
	opt     bool // may be lost (next to damaged bytes)
	extraAt time.Duration
	frag    *FragMsg
	st      byte // registration state when handled: 'Y','N','M'
	al      byte
	dup     bool
	hi      mark
	why     string
	imei    string
	sw      string
	id2     *Ident // what an intruder claims to be
}

// FragMsg is a message sent in fragments.
type FragMsg struct {
	kind     string
	id       int
	loc      *Loc
	first    mark
	last     *Req // the request that carried the last missing fragment
	complete bool
	parts    int
	sent     map[int]*Req
	code     string
	right    bool
	imei, sw string
}

// Rx is one frame a terminal received.
type Rx struct {
	m    *Msg
	at   mark
	req  *Req
	used bool
	aser uint16
	aid  uint16
	res  byte
	code string
}

// HRec is one HTTP request.
type HRec struct {
	idx      int
	kind     string
	id       int
	phone    string
	inv, ret mark
	done     bool
	refused  bool // nothing listened
	aborted  bool
	status   int
	body     string
	params   []Param
	badBody  bool
	unsure   bool
	down     bool
	unsupp   bool
	delay    time.Duration // by which the caller held it up
}

type restart struct{ down, up mark }

// World is the state of one run.
type World struct {
	sc        *Scenario
	s         *simrt.Sim
	n         *simnet.Net
	conns     []*CRec
	reqs      []*Req
	https     []*HRec
	viol      []Violation
	waiters   []*simrt.G
	live      int
	restarts  []restart
	skews     []skew
	back      time.Duration  // how far the server's clock was set back altogether
	perConn   int            // goroutines the platform has for a connection on which nothing happens
	badConf   int            // how the configuration cannot be read, 0: it can
	okEnds    map[int]bool   // failed starts that ended as they should
	idle      *idle          // what the platform did before any terminal but one came
	codes     map[int]string // identity -> code of its last successful registration
	refCodes  map[int]string // identity -> code of its last refused registration
	serial    map[int]uint16
	addrN     int
	mark      uint32
	lastLoc   map[int]*Loc
	endAt     time.Duration
	ops       int
	K         time.Duration
	dialFail  int
	cli       *cliWorld
	lastCmd   map[int]uint16
	obsOK     bool
	runEnd    mark
	settledAt mark
	hist      []*identH
	t0        time.Time
	joining   int
	judged    int // judgements made by the oracle
}

func (w *World) now() mark { return mark{w.s.NextSeq(), w.s.Now()} }

func (w *World) fail(props string, sig, f string, a ...interface{}) {
	if len(w.viol) > 40 {
		return
	}
	if w.sc.Kind == "clockback" {
		switch sig { // one defect: see known_findings.txt
		case "list-ghost:expired", "geo-ghost:expired", "expired-not-closed", "still-online":
			sig = "late-expiry-after-clock-set-back"
		}
	}
	w.viol = append(w.viol, Violation{strings.Fields(props), sig, fmt.Sprintf(f, a...)})
	w.s.Tracef("VIOLATION %s %s", sig, fmt.Sprintf(f, a...))
}

func (w *World) wake() {
	for _, g := range w.waiters {
		w.s.Unpark(g)
	}
	w.waiters = nil
}

// waitUntil blocks the running harness goroutine until cond or timeout.
func (w *World) waitUntil(d time.Duration, cond func() bool) bool {
	deadline := w.s.Now() + d
	g := w.s.Cur()
	timed := false
	w.s.After(d, func() { timed = true; w.s.Unpark(g) })
	for !cond() {
		if timed || w.s.Now() >= deadline {
			return false
		}
		w.waiters = append(w.waiters, g)
		w.s.Park()
	}
	return true
}

// ------------------------------------------------------------------ platform process

var confDir string

func writeConf(name, body string) string {
	p := confDir + "/" + name
	old, err := os.ReadFile(p)
	if err != nil || string(old) != body {
		if err := os.WriteFile(p, []byte(body), 0o600); err != nil {
			panic(err)
		}
	}
	return p
}

func (w *World) logConf() string {
	dir := confDir
	if w.sc.conf().NoDir {
		dir = writeConf("file", "") + "/logs"
	}
	return fmt.Sprintf("log:\n  consoleEnable: %v\n  fileEnable: %v\n  printAsJson: %v\n  logLevel: %q\n  logDirectory: %q\n  logFile: \"x.log\"\n  maxSizeOfRolling: 50\n  maxBackupsOfRolling: 128\n  maxAgeOfRolling: 7\n", w.sc.conf().Console, w.sc.Disk, w.sc.conf().JSON, w.sc.Log, dir)
}

func (sc *Scenario) conf() *Conf {
	if sc.Conf == nil {
		return &Conf{TCP: "8080", HTTP: "8008"}
	}
	return sc.Conf
}

// resetLibs puts back what a new process finds in the libraries' global state.
func resetLibs() {
	viper.Reset()
	log.Logger = zerolog.New(os.Stderr).With().Timestamp().Logger()
}

func (w *World) startServer() {
	c := w.sc.conf()
	args := []string{"server"}
	if !c.Builtin {
		args = append(args, "-c", writeConf("server.yaml", w.logConf()+
			fmt.Sprintf("server:\n  name: \"s\"\n  port:\n    tcpPort: %q\n    udpPort: \"8081\"\n    httpPort: %q\n  banner:\n    enable: %v\n    bannerPath: \"x\"\n", c.TCP, c.HTTP, c.Banner)))
	}
	switch w.badConf {
	case 1:
		args = []string{"server", "-c", confDir + "/missing.yaml"}
	case 2:
		args = []string{"server", "-c", writeConf("broken.yaml", "log:\n  consoleEnable: false\n server: [\n\t}")}
	case 3:
		args = []string{"server", "-c", confDir}
	}
	w.s.Spawn(simrt.NodeServer, "server-main", func() {
		resetServer()
		resetLibs()
		flag.CommandLine = flag.NewFlagSet("server", flag.ContinueOnError)
		os.Args = args
		serverMain()
		simrt.Exit(0)
	})
}

func (w *World) up() bool {
	return w.n.Listening(tcpPort) && w.s.Handler(simrt.NodeServer) != nil && w.n.HTTPPort == httpPort
}

// ------------------------------------------------------------------ terminals

func (w *World) nextSerial(actor int) uint16 {
	if _, ok := w.serial[actor]; !ok { // terminals start counting anywhere
		r := simrt.NewRand(w.sc.Seed*31 + uint64(actor))
		switch r.Intn(5) {
		case 0:
			w.serial[actor] = uint16(65535 - r.Intn(30))
		case 1:
			w.serial[actor] = uint16(r.U64())
		case 2:
			w.serial[actor] = []uint16{0x7d00, 0x7dff, 0x7d7b, 0x7e79, 0x7dfe}[r.Intn(5)]
		}
	}
	w.serial[actor]++
	return w.serial[actor]
}

func (w *World) dial(actor int, from string) *CRec {
	if from == "" {
		w.addrN++
		from = fmt.Sprintf("10.%d.%d.%d:%d", 1+actor/250, actor%250, w.addrN%250+1, 20000+w.addrN%40000)
	}
	c := &CRec{idx: len(w.conns), addr: from, actor: actor, ourClose: inf, end: inf, mustDie: inf, mayDieAt: inf}
	c.restarts = len(w.restarts)
	// the three-way handshake
	d := w.sc.Net.DelayMax
	if d > 0 {
		simrt.Sleep(d * time.Duration(w.s.Ch.Choose(16)) / 16)
	}
	nc, err := w.n.Connect(tcpPort, from)
	if err != nil {
		w.dialFail++
		w.s.Count("fault:connect-refused")
		return nil
	}
	c.c = nc
	c.idx = len(w.conns)
	c.open = w.now()
	w.conns = append(w.conns, c)
	w.s.Tracef("conn%d open from %s", c.idx, from)
	nc.Attach(func(b []byte) { w.onData(c, b) }, func(kind string) {
		c.end, c.endKind = w.now(), kind
		w.s.Tracef("conn%d ended by server: %s", c.idx, kind)
		w.wake()
	})
	return c
}

func (w *World) onData(c *CRec, b []byte) {
	c.rxBytes += len(b)
	if c.broken || c.hostile {
		return
	}
	c.buf = append(c.buf, b...)
	for {
		if len(c.buf) == 0 {
			break
		}
		if c.buf[0] != 0x7e {
			c.broken = true
			w.fail("C03", "stream-garbage", "conn%d: byte %02x where a frame must start, after %d good frames: % x", c.idx, c.buf[0], len(c.rx), head(c.buf))
			break
		}
		e := bytes.IndexByte(c.buf[1:], 0x7e)
		if e < 0 {
			break
		}
		inner := c.buf[1 : 1+e]
		m, err := parseInner(inner)
		if err != nil {
			c.broken = true
			w.fail("C03", "bad-frame", "conn%d: received an invalid frame (%v): 7e % x 7e", c.idx, err, head(inner))
			break
		}
		c.buf = c.buf[2+e:]
		w.onFrame(c, m)
	}
	w.wake()
}

func head(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

func replyID(k string) uint16 {
	if k == "reg" {
		return 0x8100
	}
	return 0x8001
}

func (w *World) onFrame(c *CRec, m *Msg) {
	r := &Rx{m: m, at: w.now()}
	c.rx = append(c.rx, r)
	w.s.Tracef("conn%d rx %04x serial=%d phone=%s body=% x", c.idx, m.ID, m.Serial, m.Phone, head(m.Body))
	switch m.ID {
	case 0x8001:
		if len(m.Body) != 5 {
			w.fail("C03 C02", "bad-8001", "conn%d: general reply with a body of %d bytes", c.idx, len(m.Body))
			return
		}
		r.aser, r.aid, r.res = binary.BigEndian.Uint16(m.Body), binary.BigEndian.Uint16(m.Body[2:]), m.Body[4]
	case 0x8100:
		if len(m.Body) < 3 {
			w.fail("C03 C02", "bad-8100", "conn%d: registration reply with a body of %d bytes", c.idx, len(m.Body))
			return
		}
		r.aser, r.res, r.code, r.aid = binary.BigEndian.Uint16(m.Body), m.Body[2], string(m.Body[3:]), 0x0100
	case 0x8103, 0x8104:
		r.used = true
		w.lastCmd[c.actor] = m.Serial
		return // judged with the HTTP requests
	default:
		w.fail("C02 C03 C04", "unexpected-frame", "conn%d: received unexpected message %04x", c.idx, m.ID)
		return
	}
	match := -1
	for i, q := range c.tx {
		if q.m == nil || q.reply != nil || q.m.Serial != r.aser || q.m.ID != r.aid {
			continue
		}
		if match < 0 || c.tx[match].opt && !q.opt { // one that may have been lost only if nothing else fits
			match = i
		}
	}
	if i := match; i >= 0 {
		q := c.tx[i]
		switch q.kind {
		case "noreply":
			w.fail("C02", "reply-to-noreply", "conn%d: message %04x takes no reply but was answered", c.idx, q.m.ID)
			q.reply = r
			return
		case "unsup":
			w.fail("C04 C02", "reply-to-unsupported", "conn%d: unsupported message %04x was answered", c.idx, q.m.ID)
			q.reply = r
			return
		case "corrupt":
			w.fail("C04 C02", "reply-to-corrupt", "conn%d: a frame with a wrong checksum (message %04x serial %d) was answered", c.idx, q.m.ID, q.m.Serial)
			q.reply = r
			return
		case "malformed":
			q.reply = r
			return
		}
		q.reply, r.req = r, q
		if i < c.lastIdx && q.kind != "frag" {
			w.fail("C02 C01", "reply-order", "conn%d: reply to serial %d came after the reply to a later request", c.idx, r.aser)
		}
		if i > c.lastIdx {
			c.lastIdx = i
		}
		if q.m.Phone != m.Phone || q.m.V19 != m.V19 || (m.V19 && q.m.ProtoVer != m.ProtoVer) {
			w.fail("C02 C03", "reply-header", "conn%d: reply to %04x serial %d has phone=%s v2019=%v protocol=%d, the request had %s %v %d",
				c.idx, q.m.ID, r.aser, m.Phone, m.V19, m.ProtoVer, q.m.Phone, q.m.V19, q.m.ProtoVer)
		}
		if m.Frag {
			w.fail("C02 C03", "reply-fragmented", "conn%d: reply marked as fragment", c.idx)
		}
		if m.ID == 0x8100 && q.kind == "reg" {
			if r.res == 0 {
				w.codes[q.id] = r.code
			} else {
				w.refCodes[q.id] = r.code
			}
		}
		return
	}
	if c.wild {
		return
	}
	w.fail("C02 C01 C04", "spurious-reply", "conn%d: reply %04x for message %04x serial %d (result %d) answers no outstanding request on this connection", c.idx, m.ID, r.aid, r.aser, r.res)
}

// feed runs the bytes of a request through a reference framer: a delimiter starts a frame, the next one
// that has something before it ends it.  A request counts as a frame of the stream if exactly it comes out.
func (c *CRec) feed(q *Req, b []byte) {
	for _, x := range b {
		if x != 0x7e {
			c.fbuf = append(c.fbuf, x)
			continue
		}
		if c.delim && len(c.fbuf) > 0 {
			own := false
			if q.m != nil && q.kind != "corrupt" {
				f := q.m.Frame()
				own = bytes.Equal(f[1:len(f)-1], c.fbuf)
			}
			if c.in {
				c.in = false
				if own {
					q.opt = false
				} else {
					c.errs++
				}
			} else {
				c.in = true
			}
			if !own && q.kind != "malformed" && plausible(c.fbuf) {
				c.wild = true
			}
		} else {
			c.in = true
		}
		c.delim = true
		c.fbuf = c.fbuf[:0]
	}
}

// plausible: these bytes between two delimiters have a matching checksum, however escapes are read.
func plausible(b []byte) bool {
	var u []byte
	for i := 0; i < len(b); i++ {
		if b[i] == 0x7d && i+1 < len(b) && (b[i+1] == 1 || b[i+1] == 2) {
			i++
			u = append(u, 0x7c+b[i])
			continue
		}
		u = append(u, b[i])
	}
	return len(u) > 1 && xorsum(u) == 0 || len(b) > 1 && xorsum(b) == 0
}

// send hands bytes of a request to the network.
func (w *World) send(q *Req, bytes []byte) *Req {
	c := q.c
	q.idx = len(w.reqs)
	q.sent = w.now()
	w.reqs = append(w.reqs, q)
	if c == nil || c.c == nil {
		return q
	}
	c.tx = append(c.tx, q)
	q.opt = q.m != nil
	c.feed(q, bytes)
	q.ok = c.c.Put(bytes)
	if q.kind == "frag" && q.opt {
		c.wild = true // what the fragments add up to cannot be told
	}
	if q.m != nil {
		w.s.Tracef("conn%d tx #%d %s %04x serial=%d phone=%s ok=%v", c.idx, q.idx, q.kind, q.m.ID, q.m.Serial, q.m.Phone, q.ok)
	} else {
		w.s.Tracef("conn%d tx #%d %s % x ok=%v", c.idx, q.idx, q.kind, head(bytes), q.ok)
	}
	return q
}

// ------------------------------------------------------------------ HTTP

// caller describes an HTTP caller that does not behave: its request arrives slowly or in part, it reads the
// answer slowly or goes away.
type caller struct {
	mode string // "", slowbody, cutbody, slowread, gone
	d    time.Duration
	seed uint64
}

func callerOf(op *Op) caller {
	if op.S == "" {
		return caller{}
	}
	r := simrt.NewRand(op.Seed ^ 0x51073)
	return caller{mode: op.S, d: time.Duration(1+r.Intn(12000)) * time.Millisecond, seed: op.Seed}
}

var errCaller = errors.New("connection reset by peer")

// slowBody delivers a request body in pieces.
type slowBody struct {
	w    *World
	h    *HRec
	k    caller
	r    *simrt.Rand
	data string
	cut  int // where the caller breaks off, -1 if it does not
	pos  int
}

func (b *slowBody) Read(p []byte) (int, error) {
	if b.cut >= 0 && b.pos >= b.cut {
		return 0, io.ErrUnexpectedEOF
	}
	if b.pos >= len(b.data) {
		return 0, io.EOF
	}
	if b.pos == 0 || b.r.Intn(4) == 0 {
		d := b.k.d / 2
		b.k.d -= d
		simrt.Sleep(d)
	}
	n := 1 + b.r.Intn(len(b.data)-b.pos)
	if n > len(p) {
		n = len(p)
	}
	if b.cut >= 0 && n > b.cut-b.pos {
		n = b.cut - b.pos
	}
	copy(p, b.data[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}

func (b *slowBody) Close() error { return nil }

// slowWriter is the answer to a caller that reads slowly or has gone. As with net/http, what fits into the
// buffers of the server is accepted at once.
type slowWriter struct {
	*httptest.ResponseRecorder
	k    caller
	n    int
	late bool
}

const httpBuffer = 6 << 10

func (b *slowWriter) Write(p []byte) (int, error) {
	b.n += len(p)
	if b.n > httpBuffer && b.k.mode == "gone" {
		return 0, errCaller
	}
	if b.n > httpBuffer && !b.late {
		b.late = true
		simrt.Sleep(b.k.d)
	}
	return b.ResponseRecorder.Write(p)
}

func (b *slowWriter) WriteString(s string) (int, error) { return b.Write([]byte(s)) }

func (w *World) http(kind string, id int, method, path, body string) *HRec {
	return w.httpBy(caller{}, kind, id, method, path, body)
}

func (w *World) httpBy(k caller, kind string, id int, method, path, body string) *HRec {
	h := &HRec{idx: len(w.https), kind: kind, id: id, inv: w.now(), ret: inf}
	if id >= 0 {
		h.phone = w.sc.Idents[id].Phone
	}
	w.https = append(w.https, h)
	hd := w.s.Handler(simrt.NodeServer)
	if hd == nil || w.s.NodeDead(simrt.NodeServer) {
		h.refused, h.done = true, true
		h.ret = w.now()
		return h
	}
	w.s.Tracef("http#%d %s %s %s %s", h.idx, method, path, body, k.mode)
	if k.mode != "" {
		w.s.Count("http-" + k.mode)
		h.delay = k.d
	}
	if k.mode == "cutbody" && len(body) > 1 {
		h.badBody = true
	}
	w.s.Spawn(simrt.NodeServer, "http", func() {
		rec := httptest.NewRecorder()
		fin := false
		defer func() {
			if w.s.Killed() {
				h.down = true
				return
			}
			if !fin {
				if r := recover(); r != nil { // net/http recovers and drops the connection
					h.aborted = true
				}
			}
			h.done = true
			h.ret = w.now()
			h.status, h.body = rec.Code, rec.Body.String()
			if k.mode == "gone" {
				h.down = true // nobody knows the answer
			}
			w.s.Tracef("http#%d -> %d %s", h.idx, h.status, string(head([]byte(h.body))))
			w.wake()
		}()
		var req *http.Request
		if body != "" {
			req = httptest.NewRequest(method, path, strings.NewReader(body))
			if k.mode == "slowbody" || k.mode == "cutbody" {
				b := &slowBody{w: w, h: h, k: k, r: simrt.NewRand(k.seed ^ 0xb0d1), data: body, cut: -1}
				if h.badBody && k.mode == "cutbody" {
					b.cut = b.r.Intn(len(body) - 1)
				}
				req.Body = b
			}
			req.Header.Set("Content-Type", "application/json")
		} else {
			req = httptest.NewRequest(method, path, nil)
		}
		if k.mode == "gone" { // the caller hangs up at some moment
			ctx, cancel := context.WithCancel(req.Context())
			req = req.WithContext(ctx)
			w.s.After(time.Duration(k.seed%3000)*time.Millisecond, cancel)
		}
		if k.mode == "slowread" || k.mode == "gone" {
			hd.ServeHTTP(&slowWriter{ResponseRecorder: rec, k: k}, req)
		} else {
			hd.ServeHTTP(rec, req)
		}
		fin = true
	})
	return h
}

// ------------------------------------------------------------------ actors

const settle = 3 * time.Second

type actorState struct {
	w     *World
	i     int
	slots map[int]*CRec
}

func (w *World) runActor(i int) {
	a := &actorState{w: w, i: i, slots: map[int]*CRec{}}
	for k := range w.sc.Actors[i].Ops {
		op := &w.sc.Actors[i].Ops[k]
		if op.D > 0 {
			simrt.Sleep(time.Duration(op.D) * time.Millisecond)
		}
		w.ops++
		switch w.sc.Actors[i].Kind {
		case "term":
			a.term(op)
		case "http":
			a.http(op)
		case "fault":
			a.fault(op)
		case "plat":
			a.plat(op)
		}
		if w.s.Stop {
			return
		}
	}
}

func (a *actorState) conn(op *Op) *CRec {
	c := a.slots[op.C]
	if c == nil {
		c = a.w.dial(a.i, "")
		a.slots[op.C] = c
	}
	return c
}

// genLoc: what terminal id reports next; acc 1 and 2 fix the ignition.
func (w *World) genLoc(id int, seed uint64, acc int) *Loc {
	l := w.genLoc1(seed, acc)
	if w.lastLoc == nil {
		w.lastLoc = map[int]*Loc{}
	}
	if r := simrt.NewRand(seed ^ 0x9a7); r.Intn(8) == 0 && w.lastLoc[id] != nil { // much like its last report, as of a parked vehicle
		p := *w.lastLoc[id]
		acc := l.Status & 1
		for k := 1 + r.Intn(2); k > 0; k-- {
			switch r.Intn(8) {
			case 0:
				p.Status ^= 1 << r.Intn(23)
			case 1:
				p.Speed = l.Speed
			case 2:
				p.Dir = l.Dir
			case 3:
				p.Alt = l.Alt
			case 4:
				p.Time = l.Time
			case 5:
				p.Lon = l.Lon
			case 6:
				p.Lat = l.Lat
			case 7:
				p.Alarm = l.Alarm
			}
		}
		p.Status = p.Status&^1 | acc
		p.Extra = l.Extra
		l = &p
	}
	w.lastLoc[id] = l
	return l
}

func (w *World) genLoc1(seed uint64, acc int) *Loc {
	r := simrt.NewRand(seed ^ 0x10c)
	w.mark++
	st := uint32(r.U64())
	if r.Intn(3) > 0 { // the reserved bits are zero
		st &= 0x7fff3f
	}
	switch acc {
	case 1:
		st |= 1
	case 2:
		st &^= 1
	}
	l := &Loc{Alarm: uint32(r.U64()), Status: st, Lat: w.mark*7%1000000 + 1000000*uint32(r.Intn(90)), Lon: uint32(r.Intn(180000000)),
		Alt: uint16(r.Intn(65536)), Speed: uint16(r.Intn(65536)), Dir: uint16(r.Intn(360)),
		Time: genTime(r)}
	switch r.Intn(6) {
	case 0:
		l.Lon, l.Alt = 0x7d7e7d02, 0x7e7e
	case 1:
		l.Alarm, l.Speed = 0x7e7d017e, 0x7d7d
	}
	if r.Intn(3) == 0 { // additional items
		n := r.Intn(20)
		if r.Intn(5) == 0 {
			n = r.Intn(220)
		}
		for i := 0; i < n/4; i++ {
			x := r.Bytes(2)
			if r.Intn(3) == 0 {
				x = []byte{0x7e, 0x7d}
			}
			l.Extra = append(l.Extra, 0x11, 2, x[0], x[1])
		}
	}
	if r.Intn(8) == 0 { // the ends of the ranges
		for k := 1 + r.Intn(4); k > 0; k-- {
			switch r.Intn(6) {
			case 0:
				l.Lat = []uint32{0, 90000000, 89999999, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(6)]
			case 1:
				l.Lon = []uint32{0, 180000000, 179999999, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(6)]
			case 2:
				l.Alt = []uint16{0, 0, 1, 1<<15 - 1, 1 << 15, 65535}[r.Intn(6)]
			case 3:
				l.Speed = []uint16{0, 0, 1, 9, 1 << 15, 65535}[r.Intn(6)]
			case 4:
				l.Dir = []uint16{0, 0, 359, 255, 256, 180}[r.Intn(6)]
			case 5:
				l.Alarm = []uint32{0, 1, 1 << 31, 1<<32 - 1}[r.Intn(4)]
			}
		}
	}
	return l
}

func genTime(r *simrt.Rand) string {
	y, m, d := r.Intn(100), 1+r.Intn(12), 1+r.Intn(28)
	if r.Intn(6) == 0 { // the ends of months
		d = []int{31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
		if m == 2 && y%4 != 0 {
			d = 28
		}
	}
	return fmt.Sprintf("%02d%02d%02d%02d%02d%02d", y, m, d, r.Intn(24), r.Intn(60), r.Intn(60))
}

var supported = map[uint16]bool{0x0001: true, 0x0002: true, 0x0003: true, 0x0100: true, 0x0102: true, 0x0104: true, 0x0200: true, 0x1205: true,
	0x8001: true, 0x8100: true, 0x8103: true, 0x8104: true, 0x9205: true}

// nearID: the id of a supported message with something changed.
func nearID(base uint16, r *simrt.Rand) uint16 {
	id := base
	for supported[id] {
		switch r.Intn(4) {
		case 0:
			id = base ^ 1<<r.Intn(16)
		case 1:
			id = base ^ 1<<r.Intn(16) ^ 1<<r.Intn(16)
		case 2:
			id = base + uint16(r.Intn(9)) - 4
		case 3:
			id = base | 0xc000
		}
	}
	return id
}

// request builds the message of a simple step.
func (a *actorState) request(op *Op, c *CRec) *Req {
	w := a.w
	t := &w.sc.Idents[op.T]
	q := &Req{c: c, kind: op.K, id: op.T}
	ser := w.nextSerial(a.i)
	switch op.K {
	case "reg":
		q.m = t.msg(0x0100, ser, t.regBody())
	case "auth":
		own := w.codes[op.T]
		code := own
		switch {
		case op.S == "wrong":
			code = own + "1"
			if own == "" {
				code = []string{"0", "AuthCode", "1"}[op.Seed%3]
				break
			}
			switch op.Seed % 16 {
			case 0:
				code = "0"
			case 1:
				code = own[:len(own)-1]
			case 2:
				code = "AuthCode"
			case 3:
				if t.v19() {
					code = ""
				}
			case 4:
				code = string(own[0]^1) + own[1:]
			case 5: // the same number, written in another way
				code = "0" + own
			case 6:
				code = "+" + own
			case 7:
				code = own + " "
			case 8:
				code = " " + own
			case 9:
				code = own + "\x00"
			case 10:
				if n, err := strconv.ParseUint(own, 10, 64); err == nil {
					code = strconv.FormatUint(n+1<<32, 10) // the same in 32 bits
				}
			case 11:
				if n, err := strconv.ParseUint(own, 10, 64); err == nil {
					code = fmt.Sprintf("0x%x", n)
				}
			case 12:
				code = own[1:]
			case 13: // digits in another order
				b := []byte(own)
				for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
				code = string(b)
			case 14:
				code = own + own
			}
			if code == own {
				code = own + "1"
			}
		case op.S == "refused":
			code = w.refCodes[op.T]
			if code == "" {
				code = "AuthCode"
			}
		case strings.HasPrefix(op.S, "of:"):
			var j int
			fmt.Sscan(op.S[3:], &j)
			code = w.codes[j]
			if code == "" {
				code = "4711"
			}
		}
		if code == "" && !t.v19() {
			code = "7"
		}
		q.code = code
		q.right = own != "" && code == own
		q.imei, q.sw = t.presents(ser)
		q.m = t.msg(0x0102, ser, t.authBody(code, q.imei, q.sw))
	case "hb":
		q.m = t.msg(0x0002, ser, nil)
	case "loc":
		q.loc = w.genLoc(op.T, op.Seed, op.N)
		q.m = t.msg(0x0200, ser, q.loc.body())
	case "bigloc":
		q.kind = "loc"
		q.loc = w.genLoc(op.T, op.Seed, 0)
		r := simrt.NewRand(op.Seed)
		q.loc.Extra = nil
		for len(q.loc.Extra)+2 <= op.N { // additional items of a vendor type
			n := op.N - len(q.loc.Extra) - 2
			if n > 250 {
				n = 250
				if rest := op.N - len(q.loc.Extra) - 2 - n; rest == 1 {
					n--
				}
			}
			x := r.Bytes(n)
			for i := range x {
				switch op.M {
				case 0:
					x[i] = 0x7e
				case 1:
					x[i] = 0x7d
				case 2:
					x[i] = []byte{0x7e, 0x7d, 0x01, 0x02}[x[i]&3]
				}
			}
			q.loc.Extra = append(append(q.loc.Extra, 0xe1, byte(n)), x...)
		}
		q.m = t.msg(0x0200, ser, q.loc.body())
	case "dereg":
		q.m = t.msg(0x0003, ser, nil)
	case "noreply":
		switch op.N % 4 {
		case 0:
			q.m = t.msg(0x0001, ser, []byte{0, byte(op.Seed), 0x81, 0x04, 0})
		case 1:
			b := []byte{0, 1, 2}
			b = append(b, 0, 0, 0, 1, 4, 0, 0, 0, byte(op.Seed))
			b = append(b, 0, 0, 0, 0x13, 5, '1', '.', 0x7e, '.', 0x7d)
			q.m = t.msg(0x0104, ser, b)
		case 3: // a rich answer, some of it of a vendor's own making
			r := simrt.NewRand(op.Seed ^ 0x104)
			ps, _ := w.genParams(op.Seed, 1+r.Intn(12))
			for k := r.Intn(3); k > 0; k-- {
				ps = append(ps, Param{ID: 0xf000 + uint32(r.Intn(0xfff)), Wire: r.Bytes(r.Intn(9))})
			}
			for i := len(ps) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				ps[i], ps[j] = ps[j], ps[i]
			}
			for tooLong(ps) {
				ps = ps[1:]
			}
			q.m = t.msg(0x0104, ser, append([]byte{0, 1}, encParams(ps)...))
		default:
			b := []byte{0, 1, 0, 0, 0, 1, 1}
			b = append(b, bcd("230102030405230102040405")...)
			b = append(b, make([]byte, 8)...)
			b = append(b, 0, 0, 0, 0, 0, 1, 0x7e)
			q.m = t.msg(0x1205, ser, b)
		}
	case "unsup":
		id := uint16(op.N)
		r := simrt.NewRand(op.Seed)
		body := r.Bytes(int(op.Seed % 40))
		if id == 0 { // an id and a body that come close to those of a supported message
			switch r.Intn(5) {
			case 0:
				id, body = nearID(0x0002, r), nil
			case 1:
				id, body = nearID(0x0003, r), nil
			case 2:
				id, body = nearID(0x0200, r), w.genLoc1(op.Seed, 0).body()
			case 3:
				id, body = nearID(0x0100, r), t.regBody()
			case 4:
				id, body = nearID(0x0102, r), t.authBody("1", t.IMEI, t.SW)
			}
		}
		q.m = t.msg(id, ser, body)
	case "intrude": // somebody else wants its phone or its plate
		t2 := *t
		t2.ID = fmt.Sprintf("I%05d", op.Seed%100000)
		switch op.N % 3 {
		case 0:
			t2.Plate = fmt.Sprintf("津X%04d", op.Seed%10000)
		case 1:
			t2.Phone = fmt.Sprintf("%0*d", len(t.Phone), 15500000000+op.Seed%100000000)
		}
		if op.Seed%3 == 0 {
			t2.ID = t.ID
		}
		q.id2 = &t2
		q.m = t2.msg(0x0100, ser, t2.regBody())
	}
	return q
}

func (a *actorState) term(op *Op) {
	w := a.w
	s := w.s
	switch op.K {
	case "dial":
		a.slots[op.C] = w.dial(a.i, op.S)
		for k := 0; k < op.N && a.slots[op.C] == nil && !w.s.Stop; k++ {
			simrt.Sleep(time.Second)
			a.slots[op.C] = w.dial(a.i, op.S)
		}
		return
	case "sleep":
		return
	case "serial": // the terminal restarts its count
		w.serial[a.i] = uint16(op.N)
		return
	case "join": // wait until all other actors that do not join have finished
		w.joining++
		w.waitUntil(w.endAt, func() bool { return w.live <= w.joining })
		return
	case "await":
		a.await(a.slots[op.C])
		return
	}
	c := a.conn(op)
	if c == nil {
		return
	}
	switch op.K {
	case "wild": // from here on nothing is assumed about this identity
		w.send(&Req{c: c, kind: "wild", id: op.T}, nil)
	case "reg", "auth", "hb", "loc", "bigloc", "dereg", "noreply", "unsup", "intrude":
		q := a.request(op, c)
		if op.K == "unsup" {
			c.errs++
			if op.M > 1 { // in fragments
				q.m.Frag, q.m.Total, q.m.Index = true, uint16(op.M), 1
				for i := 2; i <= op.M; i++ {
					w.send(q, q.m.Frame())
					q = a.request(op, c)
					q.m.Frag, q.m.Total, q.m.Index = true, uint16(op.M), uint16(i)
					c.errs++
				}
			}
		}
		w.send(q, q.m.Frame())
		if op.W {
			a.awaitReq(q)
		}
	case "half": // a request in two pieces
		o := *op
		o.K = op.S
		o.S = ""
		q := a.request(&o, c)
		f := q.m.Frame()
		cut := 1 + op.N%(len(f)-1)
		w.send(q, f[:cut])
		simrt.Sleep(time.Duration(op.M) * time.Millisecond)
		q.extraAt = time.Duration(op.M) * time.Millisecond
		if q.ok {
			c.feed(q, f[cut:])
			q.ok = c.c.Put(f[cut:])
		}
		if op.W {
			a.awaitReq(q)
		}
	case "talk":
		r := simrt.NewRand(op.Seed)
		for i := 0; i < op.N; i++ {
			o := Op{K: "hb", T: op.T, C: op.C, Seed: r.U64()}
			if op.S == "loc" || (op.S == "mix" && r.Intn(2) == 0) || op.S == "acc" || op.S == "sleepy" {
				o.K = "loc"
				if op.S == "acc" {
					o.N = 1
				}
				if op.S == "sleepy" {
					o.N = 2
				}
			}
			q := a.request(&o, c)
			w.send(q, q.m.Frame())
			if op.W {
				a.awaitReq(q)
			}
			if op.M > 0 {
				simrt.Sleep(time.Duration(op.M) * time.Millisecond)
			}
			if s.Stop {
				return
			}
		}
	case "corrupt":
		o := *op
		o.K = op.S
		o.S = ""
		q := a.request(&o, c)
		q.kind = "corrupt"
		q.loc = nil
		r := simrt.NewRand(op.Seed)
		raw := q.m.raw()
		raw = append(raw, xorsum(raw))
		i := r.Intn(len(raw))
		if op.N%3 == 1 {
			i = len(raw) - 1
		}
		raw[i] ^= byte(1 + r.Intn(255))
		c.errs++
		s.Count("fault:corrupt-frame")
		w.send(q, escape(raw))
	case "junk":
		a.junk(op, c)
	case "frag":
		a.frag(op, c)
	case "malformed":
		a.malformed(op, c)
	case "fin":
		c.ourClose, c.how = w.now(), "fin"
		s.Count("fault:fin")
		c.c.Fin()
	case "bye":
		c.ourClose, c.how = w.now(), "bye"
		s.Count("fault:close")
		c.c.Bye()
	case "rst":
		c.ourClose, c.how = w.now(), "rst"
		s.Count("fault:reset")
		c.c.Abort()
	case "cutfin", "cutrst": // half a frame, then the end
		o := Op{K: "hb", T: op.T, C: op.C}
		if op.N%2 == 1 {
			o.K = "loc"
		}
		q := a.request(&o, c)
		q.kind = "junk"
		f := q.m.Frame()
		q.m = nil
		w.send(q, f[:1+int(op.Seed%uint64(len(f)-1))])
		c.ourClose = w.now()
		if op.K == "cutfin" {
			c.how = "bye"
			c.c.Bye()
		} else {
			c.how = "rst"
			c.c.Abort()
		}
		s.Count("fault:half-frame-" + c.how)
	case "vanish":
		c.ourClose, c.how, c.vanished = w.now(), "vanish", true
		s.Count("fault:vanish")
		c.c.Vanish()
	case "freeze":
		d := time.Duration(op.N) * time.Millisecond
		c.frozen += d
		s.Count("fault:freeze")
		c.c.Freeze(d)
	case "pause":
		if !c.paused {
			c.paused, c.pausedAt = true, s.Now()
			s.Count("fault:stalled-reader")
			c.c.Pause(true)
		}
	case "resume":
		if c.paused {
			c.paused = false
			c.pauseTot += s.Now() - c.pausedAt
			c.c.Pause(false)
		}
	case "window":
		c.c.SetWindow(op.N)
	}
}

func (a *actorState) awaitReq(q *Req) {
	w := a.w
	if !q.ok {
		return
	}
	w.waitUntil(w.bound(q), func() bool { return q.reply != nil || !q.c.end.isInf() || !q.c.ourClose.isInf() })
}

func (a *actorState) await(c *CRec) {
	if c == nil {
		return
	}
	w := a.w
	w.waitUntil(settle, func() bool {
		if !c.end.isInf() {
			return true
		}
		for _, q := range c.tx {
			if q.ok && q.reply == nil && (q.kind == "reg" || q.kind == "auth" || q.kind == "hb" || q.kind == "loc" || q.kind == "dereg" || q.kind == "frag" || q.kind == "intrude") {
				return false
			}
		}
		return true
	})
}

// bound is how long after sending a reply may take at most.
func (w *World) bound(q *Req) time.Duration {
	return settle + w.connSlack(q.c) + q.extraAt + w.stalled()
}

// connSlack is the time that what happened on a connection may cost: network delays, the server's
// one-second pause after each bad frame and each reply it could not write, and time the terminal did not read.
func (w *World) connSlack(c *CRec) time.Duration {
	d := 3*w.sc.Net.DelayMax + time.Duration(c.errs)*1200*time.Millisecond + c.frozen + c.pauseTot
	if c.c != nil {
		b, _ := c.c.PeerBlocked()
		d += b
	}
	if c.how != "" && c.how != "fin" {
		for _, q := range c.tx {
			if q.ok && q.reply == nil {
				d += 1200 * time.Millisecond
			}
		}
	}
	return d
}

func (w *World) stalled() time.Duration { return w.s.StallTotal }

// junk sends bytes that are not a well-formed frame.
func (a *actorState) junk(op *Op, c *CRec) {
	w := a.w
	r := simrt.NewRand(op.Seed)
	var b []byte
	q := &Req{c: c, kind: "junk", id: op.T}
	frame := func() []byte {
		k := "hb"
		if r.Intn(2) == 0 {
			k = "loc"
		}
		o := Op{K: k, T: op.T, C: op.C, Seed: r.U64()}
		raw := a.request(&o, c).m.raw()
		return escape(append(raw, xorsum(raw)^byte(1+r.Intn(255)))) // not valid, wherever the pieces end up
	}
	switch op.S {
	case "stray": // bytes between frames
		n := 1 + r.Intn(30)
		if r.Intn(6) == 0 {
			n = r.Intn(3000)
		}
		b = r.Bytes(n)
		for i := range b {
			if b[i] == 0x7e {
				b[i] = 0x7d
			}
		}
	case "delim": // stray delimiters
		n := 1 + r.Intn(3)
		b = bytes.Repeat([]byte{0x7e}, n)
	case "noend":
		f := frame()
		b = f[:len(f)-1]
	case "nostart":
		f := frame()
		b = f[1:]
	case "trunc":
		f := frame()
		b = f[:1+r.Intn(len(f)-1)]
	case "tail":
		f := frame()
		b = f[1+r.Intn(len(f)-1):]
	case "lucky": // bytes missing at the end, and the checksum happens to be right all the same
		k := "hb"
		if r.Intn(2) == 0 {
			k = "loc"
		}
		m := a.request(&Op{K: k, T: op.T, C: op.C, Seed: r.U64()}, c).m
		if r.Intn(3) == 0 {
			m.Frag, m.Total, m.Index = true, uint16(1+r.Intn(3)), uint16(1+r.Intn(3))
		}
		raw := m.raw()
		n := len(raw)
		if r.Intn(2) == 0 && n > 20 {
			n = 20 // within the header
		}
		raw = raw[:r.Intn(n)]
		b = escape(append(append([]byte{}, raw...), xorsum(raw)))
	case "hole": // bytes missing inside
		f := frame()
		i := 1 + r.Intn(len(f)-3)
		j := i + 1 + r.Intn(len(f)-2-i)
		b = append(append([]byte{}, f[:i]...), f[j:]...)
	default: // anything
		b = r.Bytes(1 + r.Intn(60))
		for i := range b {
			if r.Intn(6) == 0 {
				b[i] = []byte{0x7e, 0x7d, 0x7e, 0, 1, 2}[r.Intn(6)]
			}
		}
	}
	c.errs += bytes.Count(b, []byte{0x7e}) + 1
	w.s.Count("fault:junk-" + op.S)
	w.send(q, b)
}

// malformed sends a frame with a correct checksum whose content makes no sense.
func (a *actorState) malformed(op *Op, c *CRec) {
	w := a.w
	r := simrt.NewRand(op.Seed)
	t := &w.sc.Idents[op.T]
	ids := []uint16{0x0001, 0x0002, 0x0003, 0x0100, 0x0102, 0x0104, 0x0200, 0x1205, 0x8001, 0x8100, 0x8103, 0x8104, 0x9205, 0x0000, 0xffff}
	q := &Req{c: c, kind: "malformed", id: op.T}
	var raw []byte
	switch op.N % 6 {
	case 0: // short body
		m := t.msg(ids[r.Intn(len(ids))], w.nextSerial(a.i), r.Bytes(r.Intn(12)))
		raw = m.raw()
	case 1: // hardly a header
		raw = r.Bytes(r.Intn(20))
	case 2: // lying length field
		m := t.msg(ids[r.Intn(len(ids))], w.nextSerial(a.i), r.Bytes(r.Intn(80)))
		raw = m.raw()
		binary.BigEndian.PutUint16(raw[2:], uint16(r.U64()))
	case 3: // senseless fragment fields
		m := t.msg(ids[r.Intn(len(ids))], w.nextSerial(a.i), r.Bytes(r.Intn(60)))
		m.Frag, m.Total, m.Index = true, uint16(r.U64()>>(r.U64()%16)), uint16(r.U64()>>(r.U64()%16))
		if r.Intn(3) == 0 {
			m.Total = 0
		}
		if r.Intn(3) == 0 {
			m.Index = 0
		}
		raw = m.raw()
	case 4: // phone number that is none
		m := t.msg(ids[r.Intn(len(ids))], w.nextSerial(a.i), r.Bytes(r.Intn(60)))
		raw = m.raw()
		for i := 5; i < len(raw) && i < 11; i++ {
			raw[i] = byte(r.U64())
		}
	default: // random content
		m := t.msg(uint16(r.U64()), w.nextSerial(a.i), r.Bytes(r.Intn(1023)))
		m.Enc = byte(r.Intn(8))
		raw = m.raw()
	}
	// Whatever it is, it must not speak for a terminal somebody else relies on.
	c.errs++
	c.hostile = true
	if !c.mayDie {
		c.mayDie = true
	}
	w.s.Count("fault:malformed-frame")
	w.send(q, escape(append(raw, xorsum(raw))))
	if c.mayDieAt.isInf() {
		c.mayDieAt = q.sent
	}
}

// cutBody cuts a body at random into n parts that fit a frame.
func cutBody(body []byte, n int, r *simrt.Rand) [][]byte {
	for {
		cuts := map[int]bool{}
		for len(cuts) < n-1 {
			cuts[1+r.Intn(len(body)-1)] = true
		}
		var cs []int
		for k := range cuts {
			cs = append(cs, k)
		}
		sort.Ints(cs)
		cs = append(cs, len(body))
		parts, p, fits := [][]byte{}, 0, true
		for _, e := range cs {
			fits = fits && e-p <= 1023
			parts = append(parts, body[p:e])
			p = e
		}
		if fits {
			return parts
		}
		if r.Intn(4) == 0 {
			n++
		}
	}
}

// frag sends a message in fragments.
// N: number of fragments; M bits: 1 shuffled, 2 duplicates, 4 one missing, 8 heartbeats between, 16 slow,
// 32 damaged copies, 64 a long report, 128 fragments of equal size, 256 only the first few,
// 512 one repeated afterwards
func (a *actorState) frag(op *Op, c *CRec) {
	w := a.w
	r := simrt.NewRand(op.Seed)
	t := &w.sc.Idents[op.T]
	var body []byte
	var id uint16
	f := &FragMsg{kind: op.S, id: op.T, sent: map[int]*Req{}}
	switch op.S {
	case "loc":
		f.loc = w.genLoc(op.T, r.U64(), 0)
		if op.M&64 != 0 { // a long report
			for k := (op.N + r.Intn(900)) / 4; k >= 0; k-- {
				x := r.Bytes(2)
				f.loc.Extra = append(f.loc.Extra, 0x11, 2, x[0], x[1])
			}
		}
		body, id = f.loc.body(), 0x0200
	case "params":
		for i := 0; i < 6+r.Intn(200); i++ {
			body = append(body, 0, 0, 0, 1, 4, 0, 0, 0, byte(i))
		}
		n := len(body) / 9
		body = append([]byte{0, 1, byte(n)}, body...)
		id = 0x0104
	case "auth":
		f.code = w.codes[op.T]
		f.right = f.code != ""
		if f.code == "" {
			f.code = "7"
		}
		f.imei, f.sw = t.presents(uint16(op.Seed))
		body, id = t.authBody(f.code, f.imei, f.sw), 0x0102
	default:
		return
	}
	n := op.N
	if n > len(body) {
		n = len(body)
	}
	if n < 2 {
		n = 2
	}
	if len(body)/n > 900 {
		n = len(body)/900 + 1
	}
	// sizes
	parts := cutBody(body, n, r)
	n = len(parts)
	if op.M&128 != 0 && n > 2 { // evenly, each but the last as large as it may be
		parts = parts[:0]
		size := (len(body) + n - 1) / n
		if len(body) > 1023 {
			size = 1023
		}
		for p := 0; p < len(body); p += size {
			e := p + size
			if e > len(body) {
				e = len(body)
			}
			parts = append(parts, body[p:e])
		}
		if n = len(parts); n < 2 {
			parts, n = cutBody(body, 2, r), 2
		}
	}
	base := w.nextSerial(a.i)
	w.serial[a.i] += uint16(n - 1)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if op.M&1 != 0 {
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	miss := n
	if op.M&4 != 0 {
		miss = r.Intn(n)
	}
	upto := n
	if op.M&256 != 0 { // the terminal fails half way
		upto = 1 + r.Intn(n-1)
	}
	f.parts = n
	f.first = w.now()
	var seq []int
	for _, i := range order {
		if i == miss || i >= upto {
			continue
		}
		seq = append(seq, i)
	}
	if op.M&2 != 0 { // duplicates of fragments already sent, before the last one completes the message
		k := 1 + r.Intn(2)
		for ; k > 0 && len(seq) > 1; k-- {
			at := 1 + r.Intn(len(seq)-1)
			src := seq[r.Intn(at)]
			seq = append(seq[:at], append([]int{src}, seq[at:]...)...)
		}
	}
	if op.M&512 != 0 && op.S != "params" && len(seq) > 1 { // and one again although the message is complete
		seq = append(seq, seq[r.Intn(len(seq))])
	}
	last := map[int]bool{}
	for _, i := range seq {
		m := t.msg(id, base+uint16(i), parts[i])
		m.Frag, m.Total, m.Index = true, uint16(n), uint16(i+1)
		q := &Req{c: c, kind: "frag", id: op.T, m: m, frag: f, dup: last[i]}
		last[i] = true
		f.sent[i] = q
		if len(last) == n && !f.complete {
			f.complete = true
			f.last = q
			if op.S == "loc" {
				q.loc = f.loc
			}
		}
		if op.M&32 != 0 && r.Intn(2) == 0 { // first a damaged copy
			bad := *m
			bad.Body = append([]byte{}, m.Body...)
			if len(bad.Body) > 0 {
				bad.Body[r.Intn(len(bad.Body))] ^= byte(1 + r.Intn(255))
			}
			raw := m.raw()
			sum := xorsum(raw)
			raw = bad.raw()
			if len(bad.Body) == 0 {
				sum ^= byte(1 + r.Intn(255))
			}
			c.errs++
			w.s.Count("fault:corrupt-fragment")
			w.send(&Req{c: c, kind: "corrupt", id: op.T, m: &bad}, escape(append(raw, sum)))
		}
		w.s.Count("fragment")
		w.send(q, m.Frame())
		if op.M&8 != 0 && r.Intn(2) == 0 {
			o := Op{K: "hb", T: op.T, C: op.C}
			if r.Intn(4) == 0 {
				o = Op{K: "noreply", T: op.T, C: op.C, N: r.Intn(4), Seed: r.U64() >> 1}
			}
			h := a.request(&o, c)
			w.send(h, h.m.Frame())
		}
		if op.M&16 != 0 {
			simrt.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
		}
	}
	if op.W {
		a.await(c)
	}
}

func (a *actorState) http(op *Op) {
	w := a.w
	var h *HRec
	ph := func() string { return w.sc.Idents[op.T].Phone }
	switch op.K {
	case "list":
		h = w.httpBy(callerOf(op), "list", -1, "GET", "/device", "")
	case "geo":
		h = w.httpBy(callerOf(op), "geo", op.T, "GET", "/device/"+ph()+"/geo", "")
	case "getp":
		h = w.httpBy(callerOf(op), "getp", op.T, "GET", "/device/"+ph()+"/params", "")
	case "putp":
		ps, body := w.genParams(op.Seed, op.N)
		h = w.httpBy(callerOf(op), "putp", op.T, "PUT", "/device/"+ph()+"/params", body)
		h.params = ps
		h.unsupp = tooLong(ps)
	case "badput":
		bodies := []string{"{", "[]", "xyz", `{"paramCnt":"a"}`, `{"paramCnt":1,"params":7}`, `{"paramCnt":300,"params":[]}`, `{"params":[{"paramId":-1}]}`, `"`, "\x00\x01"}
		h = w.httpBy(callerOf(op), "putp", op.T, "PUT", "/device/"+ph()+"/params", bodies[op.Seed%uint64(len(bodies))])
		h.badBody = true
	case "oddput":
		h = w.oddPut(op)
	case "badpath":
		paths := []string{"/device/unknown/geo", "/device/%00/params", "/nothing", "/device//geo", "/device/99/geo", "/device/" + strings.Repeat("9", 300) + "/params"}
		h = w.http("badpath", -1, []string{"GET", "PUT", "POST", "DELETE"}[op.N%4], paths[op.Seed%uint64(len(paths))], []string{"", "{}", "x"}[op.N%3])
	case "talklist":
		for i := 0; i < op.N && !w.s.Stop; i++ {
			x := w.httpBy(callerOf(op), "list", -1, "GET", "/device", "")
			w.waitUntil(settle+w.stalled(), func() bool { return x.done })
			simrt.Sleep(time.Duration(op.M) * time.Millisecond)
		}
		return
	case "burst": // many commands, to run serial numbers through their range
		for i := 0; i < op.N && !w.s.Stop; i++ {
			if op.M > 0 && i == op.N-op.M {
				w.s.Pressure(1+int(op.Seed%5), 50)
			}
			x := w.http("getp", op.T, "GET", "/device/"+ph()+"/params", "")
			if op.M > 0 && i >= op.N-op.M { // the last ones at the same time
				continue
			}
			if !w.waitUntil(settle+w.stalled(), func() bool { return x.done }) {
				return
			}
		}
		return
	default:
		return
	}
	if op.W {
		w.waitUntil(settle+w.stalled(), func() bool { return h.done })
	}
}

// terminal parameters by type (JT/T 808 table 12, JT/T 1078 table 2), as far as the platform supports them
var (
	dwordParams = []uint32{0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x18, 0x19, 0x1b, 0x1c, 0x20, 0x21, 0x22, 0x27, 0x28, 0x29, 0x2c, 0x2d, 0x2e, 0x2f, 0x30,
		0x45, 0x46, 0x47, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x64, 0x65, 0x70, 0x71, 0x72, 0x73, 0x74, 0x80, 0x93, 0x95, 0x100, 0x102}
	wordParams = []uint32{0x31, 0x5b, 0x5c, 0x5d, 0x5e, 0x81, 0x82, 0x101, 0x103}
	byteParams = []uint32{0x84, 0x90, 0x91, 0x92, 0x94}
	textParams = []uint32{0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x1a, 0x1d, 0x23, 0x24, 0x25, 0x26, 0x40, 0x41, 0x42, 0x43, 0x44, 0x48, 0x49, 0x83}
	bcdParams  = []uint32{0x32, 0x75, 0x76, 0x77, 0x79, 0x7a, 0x7b, 0x7c}
)

func (w *World) genParams(seed uint64, n int) ([]Param, string) {
	r := simrt.NewRand(seed ^ 0x9a)
	w.mark++
	var ps []Param
	if n < 1 {
		n = 1
	}
	add := func(id uint32, wire []byte, v interface{}) {
		j, _ := json.Marshal(v)
		ps = append(ps, Param{ID: id, Wire: wire, JSON: string(j)})
	}
	u32 := func(x uint32) []byte { return binary.BigEndian.AppendUint32(nil, x) }
	add(0x0001, u32(0x7e000000+w.mark), 0x7e000000+w.mark) // unique
	for i := 1; i < n; i++ {
		switch r.Intn(6) {
		case 0:
			x := uint32(r.U64() >> (r.U64() % 33))
			if r.Intn(8) == 0 {
				x = []uint32{0, 1<<32 - 1, 1 << 31, 1<<24 + 1, 1 << 16}[r.Intn(5)]
			}
			add(dwordParams[r.Intn(len(dwordParams))], u32(x), x)
		case 1:
			x := uint16(r.U64())
			if r.Intn(8) == 0 {
				x = []uint16{0, 1<<16 - 1, 1 << 15, 256}[r.Intn(4)]
			}
			add(wordParams[r.Intn(len(wordParams))], []byte{byte(x >> 8), byte(x)}, x)
		case 2:
			x := byte(r.U64())
			add(byteParams[r.Intn(len(byteParams))], []byte{x}, x)
		case 3:
			s := []string{"京A12345", "cmnet", "", "10.0.0.1:8080;备份", strings.Repeat("长", 1+r.Intn(100)), " 前后 ", strings.Repeat("x", 250+r.Intn(6)), strings.Repeat("满", 126+r.Intn(2))}[r.Intn(8)]
			add(textParams[r.Intn(len(textParams))], gbk(s), s)
		case 4:
			s := []string{"09302130", "0000235959", "7d7e7d0112"}[r.Intn(3)]
			add(bcdParams[r.Intn(len(bcdParams))], unhex(s), s)
		default:
			s := []string{"ABCDEFGH", "~}~}"}[r.Intn(2)]
			add(0x110, []byte(s), s)
		}
	}
	return ps, paramsJSON(ps, len(ps))
}

func unhex(s string) []byte {
	b := make([]byte, len(s)/2)
	fmt.Sscanf(s, "%x", &b)
	return b
}

func paramsJSON(ps []Param, cnt int) string {
	var it []string
	for _, p := range ps {
		it = append(it, fmt.Sprintf(`{"paramId":%d,"paramLen":%d,"paramValue":%s}`, p.ID, len(p.Wire)&0xff, p.JSON))
	}
	return fmt.Sprintf(`{"paramCnt":%d,"params":[%s]}`, cnt, strings.Join(it, ","))
}

// tooLong: the setting does not fit into one message.
func tooLong(ps []Param) bool {
	n := 1
	for _, p := range ps {
		n += 5 + len(p.Wire)
		if len(p.Wire) > 255 {
			return true
		}
	}
	return n > 1023 || len(ps) > 255
}

// oddPut sends parameter settings that are readable but unusual.
func (w *World) oddPut(op *Op) *HRec {
	ps, body := w.genParams(op.Seed, 2+op.N%3)
	unsupp := false
	switch op.N % 6 {
	case 0: // count field does not agree with the list
		body = paramsJSON(ps, len(ps)+1+int(op.Seed%3))
	case 1:
		body = paramsJSON(ps, 0)
	case 2: // an id the platform does not know
		ps2 := append(append([]Param{}, ps...), Param{ID: 0xf1f2, Wire: []byte{1}, JSON: "1"})
		body = paramsJSON(ps2, len(ps2))
		unsupp = true
	case 3: // a value of the wrong type
		odd := []Param{{ID: 0x0002, JSON: `"text"`}, {ID: 0x0002, JSON: "1.5"}, {ID: 0x0003, JSON: "4294967296"}, {ID: 0x0004, JSON: "-1"}, {ID: 0x0031, JSON: "65536"},
			{ID: 0x0031, JSON: "0.25"}, {ID: 0x0084, JSON: "256"}, {ID: 0x0084, JSON: "-1"}, {ID: 0x0013, JSON: "7"}, {ID: 0x0018, JSON: "[1]"}, {ID: 0x0083, JSON: "{}"}, {ID: 0x0002, JSON: "true"}, {ID: 0x0010, JSON: "null"}, {ID: 0x0005, JSON: "null"}}
		ps2 := append(append([]Param{}, ps...), odd[op.Seed%uint64(len(odd))])
		body = paramsJSON(ps2, len(ps2))
		unsupp = true
	case 4: // text that cannot be written in the terminals' character set
		s := []string{"😀", "ab😀", "ไทย", "\U0001F697A12345"}[op.Seed%4]
		k := uint32([]uint32{0x10, 0x13, 0x83, 0x49}[op.Seed/4%4])
		ps2 := append(append([]Param{}, ps...), Param{ID: k, Wire: []byte{1}, JSON: `"` + s + `"`})
		body = paramsJSON(ps2, len(ps2))
		unsupp = true
	default: // more than fits into one message
		for i := 0; i < 9; i++ {
			s := strings.Repeat("满", 100+i)
			ps = append(ps, Param{ID: 0x13, Wire: gbk(s), JSON: `"` + s + `"`})
		}
		body = paramsJSON(ps, len(ps))
		unsupp = true
	}
	h := w.httpBy(callerOf(op), "putp", op.T, "PUT", "/device/"+w.sc.Idents[op.T].Phone+"/params", body)
	h.params = ps
	h.unsupp = unsupp || tooLong(ps)
	return h
}

// supervise starts the platform again and again while some of its ports cannot be opened.
func (w *World) supervise(op *Op) {
	r := simrt.NewRand(op.Seed)
	errs := []syscall.Errno{syscall.EADDRINUSE, syscall.EADDRINUSE, syscall.EMFILE, syscall.EACCES}
	changed := w.s.Now()
	free := func(p string) {
		w.n.NoListen[p] = 0
		changed = w.s.Now()
	}
	for i, p := range []string{tcpPort, httpPort} {
		if p := p; op.N>>i&1 != 0 {
			w.n.NoListen[p] = errs[r.Intn(len(errs))]
			d := time.Duration(r.Intn(20000)) * time.Millisecond
			if r.Intn(4) == 0 {
				d = time.Duration(r.Intn(30)) * time.Millisecond
			}
			w.s.After(d, func() { free(p) })
		}
	}
	if op.N>>2&1 != 0 {
		w.badConf = 1 + r.Intn(3)
		w.s.Count("fault:unreadable-configuration")
		w.s.After(time.Duration(r.Intn(12000))*time.Millisecond, func() { w.badConf, changed = 0, w.s.Now() })
	}
	taken := func() bool { return w.n.NoListen[tcpPort] != 0 || w.n.NoListen[httpPort] != 0 || w.badConf != 0 }
	for pause := op.M; w.s.Now() < w.endAt; pause = 2000 + op.M {
		simrt.Sleep(time.Duration(pause) * time.Millisecond)
		w.s.Revive(simrt.NodeServer)
		w.n.HTTPPort = ""
		was, bad, before := taken(), w.badConf != 0, len(w.s.Crashes)
		from := w.s.Now()
		died := false
		w.s.OnDeath(simrt.NodeServer, func() {
			if w.s.Stop {
				return
			}
			died = true
			w.restarts = append(w.restarts, restart{down: w.now(), up: inf})
			for _, h := range w.https {
				if !h.done {
					h.down = true
				}
			}
			w.wake()
		})
		w.startServer()
		for !died && !w.up() {
			since := from
			if changed > since {
				since = changed
			}
			if d := w.s.Now() - since; d > settle+w.stalled() {
				if bad {
					w.fail("C20", "half-started", "the platform was started at %.3fs with a configuration it cannot read and has not ended by %.3fs", from.Seconds(), w.s.Now().Seconds())
				} else if taken() {
					w.fail("C20", "half-started", "the platform was started at %.3fs, cannot open its %s port and has not ended by %.3fs", from.Seconds(), w.takenName(), w.s.Now().Seconds())
				} else {
					w.fail("C20", "no-start", "the platform was started at %.3fs and does not serve both ports by %.3fs", from.Seconds(), w.s.Now().Seconds())
				}
				w.s.Stop = true
				return
			}
			w.waitUntil(settle/2, func() bool { return died || w.up() })
		}
		if !died && bad {
			w.fail("C20", "unread-configuration", "the platform was started at %.3fs with a configuration it cannot read and serves all the same", from.Seconds())
			w.s.Stop = true
			return
		}
		if !died {
			w.s.Probe("started")
			return
		}
		w.judged++
		if len(w.s.Crashes) <= before {
			return
		}
		c := w.s.Crashes[len(w.s.Crashes)-1]
		if !was && from >= changed {
			return // nothing was in its way
		}
		if bad && strings.HasPrefix(c.Why, "panic") { // which is how a Go program ends with status 2
			w.s.Probe("start-refused-configuration")
			w.okEnds[len(w.s.Crashes)-1] = true
			continue
		}
		if !strings.HasPrefix(c.Why, "process exit status ") || strings.HasPrefix(c.Why, "process exit status 0") {
			w.fail("C20", "wrong-end", "the platform, which cannot read its configuration or open all its ports, ends at %.3fs with %s", c.At.Seconds(), c.Why)
			w.s.Stop = true
			return
		}
		w.s.Probe("start-refused")
		w.okEnds[len(w.s.Crashes)-1] = true
	}
}

func (w *World) takenName() string {
	s := "HTTP"
	if w.n.NoListen[tcpPort] != 0 {
		s = "terminal"
		if w.n.NoListen[httpPort] != 0 {
			s = "terminal and HTTP"
		}
	}
	return s
}

// crashed: ends of the server process nothing justifies.
func (w *World) crashed() bool {
	for i, c := range w.s.Crashes {
		if c.Node != simrt.NodeServer || !w.okEnds[i] {
			return true
		}
	}
	return false
}

func (a *actorState) fault(op *Op) {
	w := a.w
	switch op.K {
	case "failaccept":
		w.n.FailAccepts(tcpPort, op.N)
	case "clock": // the server's wall clock jumps
		d := time.Duration(op.N) * time.Millisecond
		w.s.Skew[simrt.NodeServer] += d
		if d < 0 {
			w.back -= d
		}
		w.skews = append(w.skews, skew{w.now().at, w.s.Skew[simrt.NodeServer]})
		w.s.Count("fault:clock-jump")
		w.s.Tracef("the server's clock jumps by %v", d)
	case "restart":
		r := restart{down: w.now(), up: inf}
		w.s.Count("fault:server-restart")
		w.s.Tracef("server killed")
		w.restarts = append(w.restarts, r)
		k := len(w.restarts) - 1
		done := false
		g := w.s.Cur()
		w.s.After(0, func() {
			w.s.KillNode(simrt.NodeServer)
			for _, h := range w.https {
				if !h.done {
					h.down = true // also what had not begun to be handled
				}
			}
			done = true
			w.s.Unpark(g)
		})
		for !done {
			w.s.Park()
		}
		if op.N != 0 {
			w.supervise(op)
			return
		}
		simrt.Sleep(time.Duration(op.M) * time.Millisecond)
		w.s.Revive(simrt.NodeServer)
		w.startServer()
		w.waitUntil(settle, w.up)
		for !w.up() && w.s.Now() < w.endAt {
			simrt.Sleep(time.Second)
		}
		w.restarts[k].up = w.now()
	case "storm": // connections that come and go
		r := simrt.NewRand(op.Seed)
		for i := 0; i < op.N; i++ {
			c := w.dial(a.i, "")
			if c == nil {
				continue
			}
			switch r.Intn(4) {
			case 0:
				c.ourClose, c.how = w.now(), "rst"
				c.c.Abort()
			case 1:
				c.ourClose, c.how = w.now(), "bye"
				c.c.Bye()
			case 2:
				q := &Req{c: c, kind: "junk"}
				w.send(q, r.Bytes(1+r.Intn(20)))
				c.mayDie = true
				c.mayDieAt = q.sent
			case 3:
				c.ourClose, c.how, c.vanished = w.now(), "vanish", true
				c.c.Vanish()
			}
			w.s.Count("fault:storm-connection")
		}
	}
}
