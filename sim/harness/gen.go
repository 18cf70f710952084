//go:build go1.25

package harness

import (
	"fmt"
	"strings"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzsim/simrt"
)

type gen struct {
	r    *simrt.Rand
	sc   *Scenario
	prop string
	deep bool
}

func (g *gen) pick(xs ...int) int        { return xs[g.r.Intn(len(xs))] }
func (g *gen) pickS(xs ...string) string { return xs[g.r.Intn(len(xs))] }
func (g *gen) pct(p int) bool            { return g.r.Pct(p) }
func (g *gen) seed() uint64              { return g.r.U64() >> 1 }

// Generate makes the scenario of one seed.
func Generate(prop string, seed uint64, deep bool, n int) *Scenario {
	r := simrt.NewRand(seed*0x9E3779B97F4A7C15 + hashStr(prop))
	g := &gen{r: r, prop: prop, deep: deep}
	g.sc = &Scenario{Prop: prop, Seed: seed}
	g.knobs()
	fams := families[prop]
	tot := 0
	for _, f := range fams {
		tot += f.w
	}
	for _, f := range fams { // families of their own are due at fixed run numbers
		if f.every > 0 && n%f.every == f.every-1 {
			g.sc.Kind = f.name
			f.fn(g)
			g.grid()
			g.clocks()
			g.short()
			g.callers()
			g.config()
			return g.sc
		}
	}
	k := r.Intn(tot)
	for _, f := range fams {
		if k < f.w {
			g.sc.Kind = f.name
			f.fn(g)
			break
		}
		k -= f.w
	}
	g.grid()
	g.clocks()
	g.short()
	g.callers()
	g.config()
	return g.sc
}

// callers lets some HTTP callers misbehave: requests that arrive slowly or in part, answers read slowly or not at all.
func (g *gen) callers() {
	r := simrt.NewRand(g.sc.Seed ^ 0xca11e25)
	if g.prop == "C18" || r.Intn(5) != 0 {
		return
	}
	for i := range g.sc.Actors {
		a := &g.sc.Actors[i]
		if a.Kind != "http" {
			continue
		}
		for k := range a.Ops {
			o := &a.Ops[k]
			if r.Intn(3) != 0 {
				continue
			}
			switch o.K {
			case "list", "talklist", "geo", "getp":
				o.S = []string{"slowread", "slowread", "gone"}[r.Intn(3)]
			case "putp", "badput", "oddput":
				o.S = []string{"slowbody", "slowbody", "cutbody", "cutbody", "gone"}[r.Intn(5)]
			}
			if o.S != "" && o.Seed == 0 {
				o.Seed = r.U64() >> 1
			}
		}
	}
}

// config draws how the platform is configured.
func (g *gen) config() {
	r := simrt.NewRand(g.sc.Seed ^ 0xc0f16)
	c := &Conf{TCP: "8080", HTTP: "8008"}
	switch r.Intn(3) {
	case 0:
		c.TCP, c.HTTP = fmt.Sprint(1+r.Intn(1023)), fmt.Sprint(1024+r.Intn(60000))
	case 1:
		c.TCP, c.HTTP = fmt.Sprint(30000+r.Intn(30000)), fmt.Sprint(1024+r.Intn(6000))
	}
	c.JSON, c.Banner, c.Console = r.Intn(2) == 0, r.Intn(4) == 0, r.Intn(4) == 0
	if g.sc.Disk {
		c.NoDir = r.Intn(100) < map[bool]int{true: 25, false: 2}[g.prop == "C20"]
	}
	if g.sc.Log == "INFO" && r.Intn(3) == 0 {
		g.sc.Log = []string{"DEBUG", "WARN", "debug", "FATAl"}[r.Intn(4)]
	}
	if g.sc.Client == nil && r.Intn(100) < map[bool]int{true: 20, false: 1}[g.prop == "C20"] && g.sc.RT.MaxSlices < 30000000 {
		*c = Conf{TCP: "8080", HTTP: "8008", Builtin: true}
	}
	g.sc.Conf = c
}

// clocks says what the clocks show and lets the server's wall clock jump.
func (g *gen) clocks() {
	if g.pct(40) {
		y, m, d := 2000+g.r.Intn(60), 1+g.r.Intn(12), 1+g.r.Intn(31)
		if g.pct(60) { // a day that ends something
			switch g.r.Intn(3) {
			case 0:
				m, d = 12, 31
			case 1:
				m, d = 2, g.pick(28, 29)
			default:
				m, d = m+1, 0
			}
		}
		s := g.r.Intn(86400)
		if g.pct(60) { // soon to be over
			s = 86400 - 1 - g.r.Intn(g.pick(3, 100, 1000))
		}
		g.sc.Date = time.Date(y, time.Month(m), d, 0, 0, s, 0, time.UTC).Unix() - simEpoch.Unix()
		if g.sc.Date < 0 {
			g.sc.Date = 0
		}
	}
	if !g.pct(15) || g.sc.Kind == "clockback" {
		return
	}
	jump := func() int {
		if g.pct(50) {
			return g.pick(700, 3000, 61000, 130000, 3600000, 86400000)
		}
		if g.sc.Drain {
			return -g.pick(700, 3000)
		}
		return -g.pick(700, 3000, 61000, 130000, 3600000)
	}
	tot := 0
	for _, a := range g.sc.Actors {
		t := 0
		for _, o := range a.Ops {
			t += o.D
		}
		if t > tot {
			tot = t
		}
	}
	var a Actor
	a.Kind = "fault"
	for i, n := 0, 1+g.r.Intn(3); i < n; i++ {
		a.Ops = append(a.Ops, Op{K: "clock", D: g.r.Intn(tot/n + 2000), N: jump()})
	}
	g.sc.Actors = append(g.sc.Actors, a)
}

// short lets writes take only part of the bytes.  A frame is then written in several steps, which only
// a connection with a single writer stands: not in runs with commands.
func (g *gen) short() {
	if g.sc.Client != nil || !g.pct(20) {
		return
	}
	for _, a := range g.sc.Actors {
		for _, o := range a.Ops {
			switch o.K {
			case "getp", "putp", "badput", "oddput", "burst", "badpath":
				return
			}
		}
	}
	g.sc.Net.ShortPct = g.pick(5, 30, 80)
}

// grid makes the actors of some runs act at the same instants.
func (g *gen) grid() {
	if !g.pct(30) {
		return
	}
	q := g.pick(50, 200, 1000)
	for a := range g.sc.Actors {
		ops := g.sc.Actors[a].Ops
		for i := range ops {
			if ops[i].D > 0 && ops[i].D < 10000 {
				ops[i].D = ops[i].D / q * q
			}
		}
	}
	if g.pct(50) {
		g.sc.Net.DelayMax = 0
	}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (g *gen) knobs() {
	c := &g.sc.RT
	c.Policy = g.r.Intn(3)
	c.PreemptMean = g.pick(0, 2, 4, 8, 20, 60, 200, 1000)
	c.SyncPct = g.pick(0, 10, 30, 60, 100)
	c.MapPct = g.pick(0, 20, 60)
	if g.pct(25) {
		c.StallPm = g.pick(3, 10, 40)
		c.StallMax = time.Duration(g.pick(5, 100, 1500)) * time.Millisecond
	}
	c.MaxSlices = 3000000
	c.MaxY = 400000000
	n := &g.sc.Net
	n.DelayMax = time.Duration(g.pick(0, 0, 1, 20, 100, 500)) * time.Millisecond
	n.SplitPct = g.pick(0, 20, 60, 90)
	n.CutPct = g.pick(0, 20, 60)
	n.Window = g.pick(1<<16, 1<<16, 4096, 100)
	g.sc.Log = g.pickS("INFO", "INFO", "DEBUG", "ERROR")
	if g.pct(25) {
		g.sc.Disk = true
		c.DiskPm = g.pick(0, 5, 50, 1000)
	}
}

// exact makes timing tight: no stalls, hardly any delay.
func (g *gen) exact() {
	g.sc.RT.StallPm = 0
	g.sc.Net.DelayMax = time.Duration(g.pick(0, 0, 1)) * time.Millisecond
}

var plateHead = []string{"京A", "粤B", "沪C", "", "川"}

func (g *gen) ident() int {
	i := len(g.sc.Idents)
	var t Ident
	t.Ver = g.pick(2011, 2013, 2013, 2019, 2019)
	base := 13000000000 + uint64(g.r.Intn(5))*10 + uint64(i)*100
	switch g.r.Intn(4) {
	case 0:
		base = uint64(i) + 1 // leading zeros
	case 1:
		base = 99999999999 - uint64(i)
	case 2:
		base = 17000000000 + uint64(i)*1000000007%999999999
	}
	switch t.Ver {
	case 2019:
		t.PV = byte(g.pick(1, 1, 2, 0x7e, 0x7d))
		t.Phone = fmt.Sprintf("%02d%018d", 10+g.r.Intn(80), base*1000+uint64(i))
		if g.pct(20) {
			t.Phone = fmt.Sprintf("%020d", 700000000000000+base*1000+uint64(i))
		}
		t.ID = fmt.Sprintf("DEV%c%016d", 'A'+g.r.Intn(26), g.r.Intn(1<<30))
		t.IMEI = fmt.Sprintf("%015d", 860000000000000+uint64(g.r.Intn(1<<30)))
		t.SW = fmt.Sprintf("v1.%d.%d", i, g.r.Intn(100))
	default:
		t.Phone = fmt.Sprintf("%012d", base*uint64(1+i%2)%1000000000000)
		t.ID = fmt.Sprintf("D%02d%c%03d", i, 'A'+g.r.Intn(26), g.r.Intn(1000))
		if i > 99 {
			t.ID = fmt.Sprintf("D%05d%c", i, 'A'+g.r.Intn(26))
		}
	}
	t.Plate = fmt.Sprintf("%s%c%04d", plateHead[g.r.Intn(len(plateHead))], 'A'+g.r.Intn(26), i*97+g.r.Intn(90))
	if g.pct(25) {
		t.Plate = ungbk([]byte{0x81, 0x7e}) + t.Plate
	} else if g.pct(15) {
		t.Plate = t.Plate[:len(t.Plate)-1] + "~"
	} else if g.pct(10) {
		t.Plate = t.Plate[:len(t.Plate)-1] + "}"
	}
	if g.pct(30) {
		g.vary(&t)
	}
	alike := 20
	if p := g.sc.Prop; p == "C06" || p == "C11" {
		alike = 45
	}
	if g.pct(alike) && i > 0 {
		g.resemble(&t, &g.sc.Idents[g.r.Intn(i)])
	}
	for _, o := range g.sc.Idents {
		if o.Phone == t.Phone || o.Plate == t.Plate {
			return g.ident()
		}
	}
	g.sc.Idents = append(g.sc.Idents, t)
	return i
}

// vary: less usual terminals.
func (g *gen) vary(t *Ident) {
	idMax := 7
	if t.v19() {
		idMax = 30
	}
	switch g.r.Intn(5) {
	case 0:
		t.ID = strings.ToLower(t.ID)
	case 1:
		t.ID = t.ID[:1]
	case 2:
		t.ID = (t.ID + "QWERTYUIOPASDFGHJKLZXCVBNM0123456789")[:idMax]
	case 3:
		t.ID = t.ID[:len(t.ID)-1] + g.pickS(" ", "0", "~", "}")
	}
	if t.v19() {
		switch g.r.Intn(5) {
		case 0:
			t.SW = "V0123456789.01234567"
		case 1:
			t.SW = t.SW + ".00 "
		case 2:
			t.SW = "0"
		case 3:
			t.IMEI = t.IMEI[:10] + "00000"
		}
	}
	t.Color = byte(g.pick(0, 2, 5, 9, 0x7e))
	t.Region = uint32(g.pick(0x000b0065, 0x00630001, 0x00000000, 0x7e7d7e7d, 0x002c0064, 0x00ff270f))
	t.Model = g.pickS("", "", "M", "MODEL-MODEL-MODEL-MODEL-MODEL-MODEL", "~}~")
	switch g.r.Intn(5) {
	case 0:
		t.Plate = strings.ToLower(t.Plate)
	case 1:
		t.Plate = t.Plate[:len(t.Plate)-2] + "港"
	case 2:
		if t.Ver != 2011 {
			t.Plate += "-0123456789ABCDEFGHIJ"
		}
	case 3:
		t.Plate = fmt.Sprint(len(g.sc.Idents))
	}
}

// resemble: a terminal that is easily taken for another one.
func (g *gen) resemble(t, o *Ident) {
	if len(t.Phone) == len(o.Phone) {
		b := []byte(o.Phone)
		k := g.pick(0, len(b)-1, g.r.Intn(len(b)))
		b[k] = '0' + (b[k]-'0'+byte(1+g.r.Intn(9)))%10
		t.Phone = string(b)
	} else if t.v19() {
		t.Phone = g.pickS("00000000", "00000000", "12345678") + o.Phone
	} else {
		t.Phone = o.Phone[8:]
	}
	if t.v19() == o.v19() && g.pct(40) {
		t.ID = o.ID
	}
	if p := []rune(o.Plate); len(p) > 1 && t.Ver != 2011 && g.pct(60) {
		switch g.r.Intn(4) {
		case 0:
			p[len(p)-1] = rune('0' + len(g.sc.Idents)%10)
		case 1:
			p = append(p, rune('0'+len(g.sc.Idents)%10))
		case 2:
			p = p[:len(p)-1]
		case 3:
			p = append([]rune("鄂"), p...)
		}
		t.Plate = string(p)
	}
}

// script builds the steps of one actor.
type script struct {
	g   *gen
	ops []Op
}

func (g *gen) newScript() *script { return &script{g: g} }
func (s *script) add(o Op) *script {
	s.ops = append(s.ops, o)
	return s
}
func (s *script) done(kind string) {
	s.g.sc.Actors = append(s.g.sc.Actors, Actor{kind, s.ops})
}

// weights of what a terminal does.
type weights struct {
	hb, loc, noreply, unsup, corrupt, junk, half, frag, talk, sleep, long, expire int
	dereg, wrong, reconn, move, probe, pause, pipeline, rereg, freeze, intrude    int
	waitPct                                                                       int
	maxSleep                                                                      int // ms
}

// terminal writes a random but sensible life of one terminal.
func (g *gen) terminal(s *script, t int, n int, wt weights) {
	r := g.r
	slot := 0
	next := 1
	const (
		none = iota
		registered
		authed
	)
	st := none
	wait := func() bool { return g.pct(wt.waitPct) }
	pause := func() int {
		if wt.maxSleep <= 0 || !g.pct(35) {
			return 0
		}
		return r.Intn(wt.maxSleep)
	}
	newConn := func() {
		slot = next
		next++
		s.add(Op{K: "dial", C: slot})
	}
	s.add(Op{K: "dial", C: slot, D: r.Intn(200)})
	choices := []struct {
		w int
		k string
	}{{wt.hb, "hb"}, {wt.loc, "loc"}, {wt.noreply, "noreply"}, {wt.unsup, "unsup"}, {wt.corrupt, "corrupt"}, {wt.junk, "junk"},
		{wt.half, "half"}, {wt.frag, "frag"}, {wt.talk, "talk"}, {wt.sleep, "sleep"}, {wt.long, "long"}, {wt.expire, "expire"}, {wt.dereg, "dereg"},
		{wt.wrong, "wrong"}, {wt.reconn, "reconn"}, {wt.move, "move"}, {wt.probe, "probe"}, {wt.pause, "pause"}, {wt.pipeline, "pipeline"}, {wt.rereg, "rereg"}, {wt.freeze, "freeze"}, {wt.intrude, "intrude"}}
	tot := 0
	for _, c := range choices {
		tot += c.w
	}
	locOp := func(d int, w bool) Op {
		return Op{K: "loc", T: t, C: slot, D: d, W: w, N: g.pick(0, 0, 1, 1, 2), Seed: g.seed()}
	}
	for i := 0; i < n; i++ {
		if st == none {
			if wt.probe > 0 && g.pct(20) {
				s.add(Op{K: g.pickS("hb", "loc", "dereg", "auth"), T: t, C: slot, D: pause(), W: true, Seed: g.seed()})
				newConn()
				continue
			}
			s.add(Op{K: "reg", T: t, C: slot, D: pause(), W: true})
			st = registered
			if !g.pct(90) {
				continue
			}
			if g.pct(80) {
				s.add(Op{K: "auth", T: t, C: slot, D: pause(), W: true})
				st = authed
			}
			continue
		}
		if st == registered && g.pct(30) {
			s.add(Op{K: "auth", T: t, C: slot, D: pause(), W: true})
			st = authed
			continue
		}
		k := r.Intn(tot)
		what := ""
		for _, c := range choices {
			if k < c.w {
				what = c.k
				break
			}
			k -= c.w
		}
		switch what {
		case "hb":
			s.add(Op{K: "hb", T: t, C: slot, D: pause(), W: wait()})
		case "loc":
			s.add(locOp(pause(), wait()))
		case "noreply":
			s.add(Op{K: "noreply", T: t, C: slot, D: pause(), N: r.Intn(4), Seed: g.seed()})
		case "unsup":
			s.add(Op{K: "unsup", T: t, C: slot, D: pause(), N: g.pick(0, 0, 0, 0, 0, 0, 0x0004, 0x0005, 0x0107, 0x0301, 0x0704, 0x0800, 0x0801, 0x0900, 0x7e7e, 0x8004, 0x8105, 0x8800, 0x0f0f), M: g.pick(0, 0, 0, 2, 3), Seed: g.seed()})
		case "corrupt":
			s.add(Op{K: "corrupt", T: t, C: slot, D: pause(), S: g.pickS("hb", "loc", "loc", "dereg", "dereg", "auth", "reg"), N: r.Intn(3), Seed: g.seed()})
		case "junk":
			s.add(Op{K: "junk", T: t, C: slot, D: pause(), S: g.pickS("stray", "delim", "noend", "nostart", "trunc", "tail", "hole", "lucky", "any"), Seed: g.seed()})
		case "half":
			gap := r.Intn(2000)
			if g.pct(15) {
				gap = r.Intn(59000)
			}
			s.add(Op{K: "half", T: t, C: slot, D: pause(), S: g.pickS("hb", "loc"), N: r.Intn(100), M: gap, W: wait(), Seed: g.seed()})
		case "frag":
			s.add(Op{K: "frag", T: t, C: slot, D: pause(), S: g.pickS("loc", "loc", "loc", "params", "auth"), N: g.pick(2, 2, 3, 4, 7), M: g.pick(0, 0, 1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 27, 12, 32, 33, 43, 64, 65, 192, 195, 256, 512, 513), W: wait(), Seed: g.seed()})
		case "talk":
			s.add(Op{K: "talk", T: t, C: slot, N: 2 + r.Intn(12), M: g.pick(0, 0, 100, 1000, 7000), S: g.pickS("", "loc", "mix", "acc", "sleepy"), W: wait(), Seed: g.seed()})
		case "sleep":
			s.add(Op{K: "sleep", D: r.Intn(5000)})
		case "long": // keeps talking over several keep-alive periods
			s.add(Op{K: "talk", T: t, C: slot, N: 3 + r.Intn(8), M: g.pick(15000, 20000, 30000, 45000, 54000), S: g.pickS("", "loc", "mix", "acc", "sleepy"), W: true, Seed: g.seed()})
		case "expire":
			d := 185000 + g.r.Intn(60000)
			if g.pct(35) {
				d = r.Intn(180000) // somewhere within
			}
			if g.pct(40) {
				s.add(Op{K: g.pickS("bye", "rst", "fin", "vanish", "cutfin"), T: t, C: slot, D: pause(), Seed: g.seed()})
			}
			s.add(Op{K: "sleep", D: d})
			newConn()
			if g.pct(40) {
				s.add(Op{K: g.pickS("auth", "hb", "loc"), T: t, C: slot, W: true, Seed: g.seed()})
				newConn()
			}
			// it may or may not be registered: try
			s.add(Op{K: "reg", T: t, C: slot, W: true})
			s.add(Op{K: "auth", T: t, C: slot, W: true})
			st = authed
		case "dereg":
			s.add(Op{K: "dereg", T: t, C: slot, D: pause(), W: true})
			st = none
			if g.pct(50) {
				newConn()
			}
		case "wrong":
			what := "wrong"
			if g.pct(30) && len(g.sc.Idents) > 1 {
				what = fmt.Sprintf("of:%d", r.Intn(len(g.sc.Idents)))
			}
			s.add(Op{K: "auth", T: t, C: slot, D: pause(), S: what, W: true, Seed: g.seed()})
			if what == fmt.Sprintf("of:%d", t) {
				break
			}
			st = none
			if g.pct(60) {
				newConn()
			}
		case "intrude":
			c := 900
			if g.pct(25) {
				c = slot
			}
			s.add(Op{K: "intrude", T: t, C: c, D: pause(), W: true, N: r.Intn(3), Seed: g.seed()})
		case "rereg":
			s.add(Op{K: "reg", T: t, C: slot, D: pause(), W: true})
		case "reconn":
			s.add(Op{K: g.pickS("bye", "rst", "fin", "vanish", "cutfin", "cutrst"), T: t, C: slot, D: pause(), N: r.Intn(2), Seed: g.seed()})
			if g.pct(40) {
				s.add(Op{K: "sleep", D: r.Intn(4000)})
			}
			newConn()
			if st == authed || g.pct(50) {
				s.add(Op{K: "auth", T: t, C: slot, D: pause(), W: true})
				st = authed
			}
		case "move":
			old := slot
			newConn()
			s.add(Op{K: "auth", T: t, C: slot, D: pause(), W: true})
			st = authed
			if g.pct(60) {
				s.add(Op{K: g.pickS("bye", "rst", "fin", "cutfin"), T: t, C: old, D: r.Intn(3000), Seed: g.seed()})
			}
		case "probe":
			s.add(Op{K: "hb", T: t, C: slot, W: true})
		case "pause":
			s.add(Op{K: "window", C: slot, N: g.pick(5, 20, 100, 1000)})
			s.add(Op{K: "pause", C: slot})
			for k := 1 + r.Intn(5); k > 0; k-- {
				s.add(Op{K: "hb", T: t, C: slot})
			}
			s.add(Op{K: "sleep", D: r.Intn(3000)})
			s.add(Op{K: "resume", C: slot})
		case "freeze":
			s.add(Op{K: "freeze", C: slot, N: r.Intn(4000)})
		case "pipeline":
			for k := 2 + r.Intn(20); k > 0; k-- {
				if g.pct(50) {
					s.add(locOp(0, false))
				} else if g.pct(70) {
					s.add(Op{K: "hb", T: t, C: slot})
				} else {
					s.add(Op{K: "noreply", T: t, C: slot, N: r.Intn(4), Seed: g.seed()})
				}
			}
			s.add(Op{K: "await", C: slot})
		}
	}
}

// caller writes a random sequence of HTTP requests.
func (g *gen) caller(n int, maxGap int, list, geo, get, put, bad int, ids []int) {
	s := g.newScript()
	tot := list + geo + get + put + bad
	for i := 0; i < n; i++ {
		d := 0
		if g.pct(70) {
			d = g.r.Intn(maxGap + 1)
		}
		t := ids[g.r.Intn(len(ids))]
		k := g.r.Intn(tot)
		w := g.pct(60)
		switch {
		case k < list:
			s.add(Op{K: "list", D: d, W: w})
		case k < list+geo:
			s.add(Op{K: "geo", T: t, D: d, W: w})
		case k < list+geo+get:
			s.add(Op{K: "getp", T: t, D: d, W: w})
		case k < list+geo+get+put:
			s.add(Op{K: "putp", T: t, D: d, W: w, N: g.pick(1, 2, 4, 8), Seed: g.seed()})
		default:
			s.add(Op{K: g.pickS("badput", "badpath", "oddput"), T: t, D: d, W: w, N: g.r.Intn(60), Seed: g.seed()})
		}
	}
	s.done("http")
}

func (g *gen) idents(n int) []int {
	var o []int
	for i := 0; i < n; i++ {
		o = append(o, g.ident())
	}
	return o
}

type family struct {
	w     int
	name  string
	fn    func(*gen)
	every int
}

var families = map[string][]family{}

// drainedFam: in the end all terminals leave.
func drainedFam(f func(*gen)) func(*gen) {
	return func(g *gen) {
		g.sc.Drain = true
		f(g)
		g.ident() // the one that comes first
	}
}

func init() {
	mixOf := func(wt weights, nt, steps, calls, gap int, l, ge, gt, pu, ba int) func(*gen) {
		return func(g *gen) {
			nt, steps, calls := nt, steps, calls
			if g.deep && g.pct(50) {
				nt, steps, calls = nt+2, steps*3, calls*2
			}
			ids := g.idents(1 + g.r.Intn(nt))
			w := g.swarm(wt)
			for _, t := range ids {
				s := g.newScript()
				g.terminal(s, t, 3+g.r.Intn(steps), w)
				s.done("term")
			}
			if calls > 0 {
				for k := 1 + g.r.Intn(2); k > 0; k-- {
					g.caller(1+g.r.Intn(calls), gap, l, ge, gt, pu, ba, ids)
				}
			}
		}
	}
	general := weights{hb: 10, loc: 12, noreply: 3, unsup: 1, corrupt: 1, half: 2, frag: 2, talk: 4, sleep: 4, long: 2, expire: 1, dereg: 2, wrong: 1, reconn: 3, move: 2, probe: 1, pause: 1, pipeline: 4, rereg: 1, freeze: 1, intrude: 1, waitPct: 60, maxSleep: 2000}
	general0 := general
	general0.corrupt, general0.unsup, general0.frag = 0, 0, 0
	mix := mixOf(general, 4, 25, 20, 6000, 4, 4, 2, 2, 1)

	generalMix = mix

	// ---- byte streams
	stream := weights{hb: 10, loc: 15, noreply: 4, half: 6, junk: 8, pipeline: 8, talk: 3, corrupt: 2, unsup: 1, frag: 1, sleep: 1, pause: 1, waitPct: 35, maxSleep: 300}
	clean := stream
	clean.junk, clean.corrupt, clean.unsup = 0, 0, 0
	corr := weights{hb: 8, loc: 8, corrupt: 14, unsup: 8, noreply: 2, half: 1, sleep: 2, long: 1, expire: 1, rereg: 1, pipeline: 2, waitPct: 60, maxSleep: 1500}
	multi := weights{hb: 12, loc: 12, noreply: 5, talk: 4, pipeline: 8, half: 2, dereg: 2, rereg: 1, pause: 2, freeze: 1, reconn: 1, move: 1, frag: 1, waitPct: 40, maxSleep: 800}

	families["C01"] = []family{
		{6, "stream", mixOf(stream, 2, 40, 4, 2000, 1, 2, 1, 0, 0), 0},
		{3, "clean", mixOf(clean, 3, 40, 4, 2000, 1, 2, 1, 0, 0), 0},
		{2, "corrupt", mixOf(corr, 2, 25, 4, 2000, 1, 2, 1, 0, 0), 0},
		{2, "bigframes", (*gen).bigFrames, 0},
	}
	families["C02"] = []family{
		{5, "multi", mixOf(multi, 5, 30, 14, 1500, 1, 1, 4, 4, 0), 0},
		{2, "stream", mixOf(clean, 3, 40, 4, 2000, 1, 2, 2, 1, 0), 0},
		{2, "mix", mix, 0},
	}
	slow := weights{hb: 10, loc: 6, pause: 6, pipeline: 6, freeze: 2, noreply: 1, talk: 2, frag: 1, dereg: 1, move: 1, reconn: 1, waitPct: 30, maxSleep: 300}
	families["C03"] = []family{
		{5, "slowreader", mixOf(slow, 3, 20, 30, 300, 0, 1, 8, 8, 1), 0},
		{2, "multi", mixOf(multi, 4, 30, 20, 800, 1, 1, 6, 6, 1), 0},
		{1, "mix", mix, 0},
		{1, "params", (*gen).oddParams, 0},
		{2, "replies", mixOf(slow, 3, 20, 0, 0, 0, 0, 0, 0, 0), 0},
	}
	families["C04"] = []family{
		{5, "corrupt", mixOf(corr, 3, 30, 12, 3000, 4, 3, 1, 0, 0), 0},
		{3, "silent-noise", (*gen).noiseOnly, 0},
		{1, "stream", mixOf(stream, 2, 30, 4, 2000, 1, 2, 1, 0, 0), 0},
	}
	families["C05"] = []family{
		{5, "hostile", (*gen).hostile, 0},
		{3, "mix", mix, 0},
		{2, "timers", (*gen).timers, 0},
		{2, "expire", (*gen).expireMany, 0},
	}
	families["C06"] = []family{
		{6, "compete", (*gen).compete, 0},
		{3, "held", (*gen).held, 0},
		{2, "reregister", mixOf(weights{hb: 4, loc: 4, intrude: 8, rereg: 4, dereg: 6, wrong: 3, reconn: 3, sleep: 2, expire: 1, waitPct: 80, maxSleep: 500}, 3, 25, 10, 3000, 4, 1, 0, 0, 0), 0},
	}
	authw := weights{hb: 5, loc: 4, wrong: 6, dereg: 3, reconn: 3, move: 3, rereg: 2, sleep: 2, expire: 1, probe: 2, waitPct: 80, maxSleep: 800}
	families["C07"] = []family{
		{4, "auth", mixOf(authw, 3, 25, 20, 2500, 6, 1, 0, 0, 0), 0},
		{3, "compete", (*gen).compete, 0},
		{1, "unauth", (*gen).unauth, 0},
	}
	families["C08"] = []family{
		{4, "refused", mixOf(weights{hb: 4, loc: 4, dereg: 6, wrong: 4, expire: 2, probe: 6, reconn: 2, frag: 1, sleep: 1, waitPct: 70, maxSleep: 500}, 3, 20, 12, 3000, 4, 4, 1, 0, 0), 0},
		{4, "restart", (*gen).restartFam, 0},
		{2, "stranger", (*gen).stranger, 0},
	}
	families["C09"] = []family{
		{name: "clockback", every: 700, fn: (*gen).clockBack},
		{5, "expire", (*gen).expireMany, 0},
		{3, "mix", mixOf(weights{hb: 4, loc: 4, intrude: 2, expire: 8, long: 3, dereg: 2, reconn: 2, move: 2, noreply: 1, sleep: 2, waitPct: 80, maxSleep: 3000}, 3, 12, 30, 40000, 6, 4, 1, 0, 0), 0},
		{2, "timers", (*gen).timers, 0},
	}
	families["C10"] = []family{
		{5, "talkers", (*gen).talkers, 0},
		{3, "timers", (*gen).timers, 0},
		{2, "mix", mixOf(weights{hb: 6, loc: 6, intrude: 1, long: 6, talk: 3, dereg: 2, wrong: 1, reconn: 3, move: 3, noreply: 1, frag: 1, unsup: 1, waitPct: 70, maxSleep: 3000}, 4, 14, 20, 30000, 6, 2, 1, 1, 0), 0},
	}
	families["C11"] = []family{
		{4, "deregs", mixOf(weights{hb: 4, loc: 6, intrude: 2, dereg: 10, reconn: 2, move: 2, long: 1, expire: 1, sleep: 2, pipeline: 1, waitPct: 70, maxSleep: 1500}, 3, 25, 20, 3000, 5, 5, 1, 0, 0), 0},
		{3, "timers", (*gen).timers, 0},
		{3, "deregrace", (*gen).deregRace, 0},
		{1, "compete", (*gen).compete, 0},
	}
	families["C12"] = []family{
		{4, "reports", mixOf(weights{loc: 20, hb: 3, talk: 6, pipeline: 5, dereg: 2, reconn: 2, move: 2, frag: 2, half: 2, corrupt: 1, sleep: 1, waitPct: 60, maxSleep: 800}, 4, 25, 30, 1500, 1, 12, 0, 0, 0), 0},
		{3, "many", (*gen).manyReports, 0},
		{3, "georace", (*gen).geoRace, 0},
		{1, "mix", mix, 0},
	}
	cmdw := weights{hb: 6, loc: 5, reconn: 5, move: 5, dereg: 3, rereg: 1, pipeline: 2, noreply: 2, wrong: 1, pause: 1, sleep: 3, waitPct: 60, maxSleep: 1500}
	families["C13"] = []family{
		{6, "commands", mixOf(cmdw, 4, 20, 40, 800, 1, 0, 8, 8, 3), 0},
		{1, "params", (*gen).oddParams, 0},
		{2, "reuse", (*gen).reuse, 0},
		{0, "serials", (*gen).serials, 1001},
	}
	families["C14"] = []family{
		{4, "teardown", mixOf(weights{hb: 5, loc: 4, reconn: 12, move: 4, dereg: 1, sleep: 3, long: 1, expire: 1, half: 1, waitPct: 60, maxSleep: 1500}, 4, 20, 30, 1200, 2, 1, 6, 4, 0), 0},
		{5, "reuse", (*gen).reuse, 0},
		{2, "hostile", (*gen).hostile, 0},
		{1, "leave", drainedFam(mixOf(weights{hb: 3, loc: 2, reconn: 12, move: 6, dereg: 2, wrong: 1, sleep: 1, half: 2, waitPct: 60, maxSleep: 800}, 4, 20, 10, 1200, 1, 1, 6, 4, 0)), 0},
		{1, "leave-reuse", drainedFam((*gen).reuse), 0},
		{1, "leave-expire", drainedFam((*gen).expireMany), 0},
		{2, "leave-rounds", drainedFam((*gen).rounds), 0},
	}
	families["C15"] = []family{
		{5, "moves", mixOf(weights{hb: 5, loc: 4, reconn: 6, move: 12, dereg: 1, sleep: 3, long: 2, wrong: 1, frag: 1, waitPct: 60, maxSleep: 1500}, 4, 20, 30, 1200, 4, 1, 6, 4, 0), 0},
		{3, "reuse", (*gen).reuse, 0},
		{1, "latemove", (*gen).lateMove, 0},
	}
	families["C16"] = []family{
		{6, "fragments", mixOf(weights{frag: 20, hb: 3, loc: 4, noreply: 1, pipeline: 1, dereg: 1, reconn: 1, move: 1, sleep: 1, waitPct: 50, maxSleep: 500}, 4, 20, 20, 1500, 1, 8, 0, 0, 0), 0},
		{2, "interleaved", (*gen).fragInterleaved, 0},
		{2, "reboots", (*gen).fragReboot, 0},
		{1, "long", (*gen).fragLong, 0},
	}
	families["C17"] = []family{
		{4, "lists", mixOf(weights{hb: 4, loc: 3, intrude: 2, dereg: 6, wrong: 3, rereg: 1, reconn: 3, move: 3, expire: 1, long: 1, sleep: 1, waitPct: 80, maxSleep: 600}, 6, 20, 40, 500, 12, 1, 0, 0, 0), 0},
		{4, "compete", (*gen).compete, 0},
		{2, "crowd", (*gen).crowd, 0},
	}
	drained := drainedFam
	families["C20"] = []family{
		{5, "startup", (*gen).startup, 0},
		{2, "restart", (*gen).restartFam, 0},
	}
	families["C19"] = []family{
		{4, "teardown", drained(mixOf(weights{hb: 5, loc: 4, reconn: 8, move: 4, dereg: 3, wrong: 3, probe: 3, intrude: 1, rereg: 2, sleep: 3, long: 1, expire: 1, half: 2, pause: 1, frag: 1, waitPct: 60, maxSleep: 1500}, 4, 20, 20, 1200, 1, 1, 6, 4, 0)), 0},
		{2, "timers", drained((*gen).timers), 0},
		{2, "expire", drained((*gen).expireMany), 0},
		{2, "reuse", drained((*gen).reuse), 0},
		{2, "deregrace", drained((*gen).deregRace), 0},
		{3, "hostile", drained((*gen).hostile), 0},
		{1, "slow", drained(mixOf(slow, 3, 20, 30, 300, 0, 1, 8, 8, 1)), 0},
		{1, "restart", drained((*gen).restartFam), 0},
		{1, "compete", drained((*gen).compete), 0},
		{3, "rounds", drained((*gen).rounds), 0},
		{2, "mix", drained(mix), 0},
	}
}

func init() {
	// scale: what only shows with many terminals, many messages or many connections
	scale := func(f string, fn func(*gen), every int, props ...string) {
		for i, p := range props {
			fn := fn
			if p == "C19" {
				fn = drainedFam(fn)
			}
			families[p] = append([]family{{name: f, fn: fn, every: every + 7*i}}, families[p]...)
		}
	}
	scale("fleet", (*gen).fleet, 501, "C02", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C17", "C19", "C20")
	scale("marathon", (*gen).marathon, 601, "C01", "C02", "C04", "C05", "C07", "C09", "C10", "C12", "C14", "C17", "C19")
	scale("churn", (*gen).churn, 701, "C03", "C05", "C06", "C07", "C08", "C10", "C11", "C13", "C14", "C15", "C16", "C17", "C19")
	scale("fragfleet", (*gen).fragFleet, 331, "C16", "C05", "C12")
	scale("manybad", (*gen).manyBad, 301, "C04", "C01", "C05")
	scale("comeback", (*gen).comeback, 11, "C07", "C09", "C10", "C15", "C17", "C06", "C11", "C08", "C12", "C14", "C19")
	scale("together", (*gen).together, 13, "C17", "C07", "C12", "C15", "C11", "C06", "C13", "C05", "C02", "C08")
	scale("reuse", (*gen).reuse, 29, "C10", "C09")
	scale("fragcrowd", (*gen).fragCrowd, 43, "C16")
	scale("shared", (*gen).shared, 23, "C02", "C12", "C13", "C15", "C17", "C03", "C07", "C08", "C11", "C14")
	// every property is also looked at in general runs
	for p, fs := range families {
		has, tot := false, 0
		for _, f := range fs {
			has = has || f.name == "mix"
			tot += f.w
		}
		if !has {
			families[p] = append(fs, family{1 + tot/10, "mix", generalMix, 0})
		}
	}
}

var generalMix func(*gen)

// swarm switches some features off for the whole run.
func (g *gen) swarm(w weights) weights {
	off := func(p *int) {
		if *p > 0 && g.pct(30) {
			*p = 0
		} else if *p > 0 && g.pct(15) {
			*p *= 4
		}
	}
	for _, p := range []*int{&w.hb, &w.noreply, &w.unsup, &w.corrupt, &w.junk, &w.half, &w.frag, &w.talk, &w.sleep, &w.long, &w.expire, &w.dereg, &w.wrong, &w.reconn, &w.move, &w.probe, &w.pause, &w.pipeline, &w.rereg, &w.freeze, &w.intrude} {
		off(p)
	}
	if w.loc == 0 {
		w.loc = 1
	}
	w.waitPct = g.pick(w.waitPct, w.waitPct, 100, 20)
	w.maxSleep = g.pick(w.maxSleep, w.maxSleep, 0, 20)
	return w
}
