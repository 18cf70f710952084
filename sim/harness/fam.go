//go:build go1.25

package harness

import (
	"fmt"
	"strings"
	"time"
)

// Families of scenarios aimed at particular properties.

func (g *gen) join(s *script, t, c int) {
	s.add(Op{K: "reg", T: t, C: c, W: true})
	s.add(Op{K: "auth", T: t, C: c, W: true})
}

// bystander is a well-behaved terminal.
func (g *gen) bystander(t int, rounds, gap int) {
	s := g.newScript()
	s.add(Op{K: "sleep", D: g.r.Intn(300)})
	g.join(s, t, 0)
	for i := 0; i < rounds; i++ {
		if g.pct(50) {
			s.add(Op{K: "hb", T: t, W: true, D: g.r.Intn(gap)})
		} else {
			s.add(Op{K: "loc", T: t, W: true, D: g.r.Intn(gap), Seed: g.seed()})
		}
	}
	s.done("term")
}

// bigFrames: bodies up to the limit, full of bytes that need escaping.
func (g *gen) bigFrames() {
	t := g.ident()
	s := g.newScript()
	g.join(s, t, 0)
	for i := 0; i < 4+g.r.Intn(12); i++ {
		switch g.r.Intn(4) {
		case 0:
			s.add(Op{K: "bigloc", T: t, N: g.pick(1023-28, 1023-28, 900, 500, 228), M: g.r.Intn(4), W: g.pct(50), Seed: g.seed()})
		case 1:
			s.add(Op{K: "bigloc", T: t, N: g.r.Intn(995), M: g.r.Intn(4), W: g.pct(50), Seed: g.seed()})
		case 2:
			s.add(Op{K: "hb", T: t, W: g.pct(50)})
		case 3:
			s.add(Op{K: "junk", T: t, S: g.pickS("stray", "trunc", "lucky", "any"), Seed: g.seed()})
		}
	}
	s.done("term")
	if g.pct(50) {
		g.caller(1+g.r.Intn(6), 500, 0, 4, 1, 0, 0, []int{t})
	}
}

// noiseOnly: a terminal sends only corrupt or unsupported messages after it authenticated: it must expire on time.
func (g *gen) noiseOnly() {
	ids := g.idents(2)
	s := g.newScript()
	g.join(s, ids[0], 0)
	if g.pct(50) {
		s.add(Op{K: "loc", T: ids[0], W: true, Seed: g.seed()})
	}
	n := 12 + g.r.Intn(10)
	for i := 0; i < n; i++ {
		if g.pct(60) {
			s.add(Op{K: "corrupt", T: ids[0], D: 12000 + g.r.Intn(8000), S: g.pickS("hb", "loc", "auth", "dereg"), N: g.r.Intn(3), Seed: g.seed()})
		} else {
			s.add(Op{K: "unsup", T: ids[0], D: 12000 + g.r.Intn(8000), N: g.pick(0, 0, 0x0005, 0x0107, 0x0704, 0x0900), M: g.pick(0, 0, 0, 2), Seed: g.seed()})
		}
	}
	s.add(Op{K: "sleep", D: 60000})
	s.done("term")
	g.bystander(ids[1], 8, 30000)
	g.caller(10+g.r.Intn(15), 25000, 6, 3, 0, 0, 0, ids)
}

// hostile: malformed frames, odd requests, broken connections, failing accepts, next to well-behaved terminals.
func (g *gen) hostile() {
	good := g.idents(1 + g.r.Intn(2))
	bad := g.idents(1 + g.r.Intn(3))
	for _, t := range good {
		g.bystander(t, 6+g.r.Intn(10), g.pick(200, 2000, 20000))
	}
	for _, t := range bad {
		s := g.newScript()
		c := 0
		if g.pct(70) {
			s.add(Op{K: "reg", T: t, W: g.pct(70)})
			if g.pct(70) {
				s.add(Op{K: "auth", T: t, W: g.pct(70)})
			}
		}
		for i := 0; i < 3+g.r.Intn(15); i++ {
			d := g.r.Intn(1500)
			switch g.r.Intn(10) {
			case 0, 1, 2, 3:
				s.add(Op{K: "malformed", T: t, C: c, D: d, N: g.r.Intn(6), Seed: g.seed()})
			case 4:
				s.add(Op{K: "junk", T: t, C: c, D: d, S: g.pickS("any", "trunc", "lucky", "hole", "delim"), Seed: g.seed()})
			case 5:
				s.add(Op{K: g.pickS("rst", "cutrst", "cutfin", "vanish", "bye", "fin"), T: t, C: c, D: d, Seed: g.seed()})
				c++
			case 6:
				c++
			case 7:
				s.add(Op{K: "pause", C: c, D: d})
				s.add(Op{K: "window", C: c, N: 3})
				for k := 0; k < 5; k++ {
					s.add(Op{K: "hb", T: t, C: c})
				}
				if g.pct(50) {
					c++
				}
			case 8:
				s.add(Op{K: "malformed", T: t, C: c, N: 3, Seed: g.seed()})
				s.add(Op{K: "frag", T: t, C: c, S: g.pickS("loc", "params"), N: 2, M: 4, Seed: g.seed()})
			case 9:
				s.add(Op{K: "reg", T: t, C: c, D: d})
				s.add(Op{K: "loc", T: t, C: c, Seed: g.seed()})
			}
		}
		if g.pct(30) {
			s.add(Op{K: "sleep", D: g.r.Intn(200000)})
		}
		// nothing is asserted about this identity itself
		s.add(Op{K: "wild", T: t, C: c})
		s.done("term")
	}
	if g.pct(60) {
		f := g.newScript()
		for i := 0; i < 1+g.r.Intn(4); i++ {
			if g.pct(50) {
				f.add(Op{K: "failaccept", D: g.r.Intn(3000), N: 1 + g.r.Intn(20)})
			} else {
				f.add(Op{K: "storm", D: g.r.Intn(3000), N: 1 + g.r.Intn(30), Seed: g.seed()})
			}
		}
		f.done("fault")
	}
	all := append(append([]int{}, good...), bad...)
	g.caller(4+g.r.Intn(20), 1500, 3, 2, 2, 2, 8, all)
}

// timers: registrations of the same phone follow each other closely around timer checks.
func (g *gen) timers() {
	g.exact()
	if g.pct(30) {
		g.sc.Net.DelayMax = 5e6
	}
	ids := g.idents(1 + g.r.Intn(2))
	for _, t := range ids {
		s := g.newScript()
		c := 0
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			s.add(Op{K: "reg", T: t, C: c, W: true})
			authed := g.pct(80)
			if authed {
				s.add(Op{K: "auth", T: t, C: c, W: true})
			}
			// talk for a while, with messages falling on or near the checks
			switch g.r.Intn(4) {
			case 0:
				s.add(Op{K: "talk", T: t, C: c, N: g.r.Intn(6), M: g.pick(30000, 20000, 15000, 59990, 60000, 58000), S: g.pickS("", "acc", "mix", "sleepy"), W: true, Seed: g.seed()})
			case 1:
				s.add(Op{K: "sleep", D: g.pick(59000, 59999, 60000, 60001, 61000, 119999, 120000, 120001, 30000, 179999, 180000, 5000)})
			case 2:
				s.add(Op{K: "sleep", D: g.r.Intn(60000)})
			}
			// end the registration
			switch g.r.Intn(5) {
			case 0, 1, 2:
				d := g.pick(0, 0, g.r.Intn(60000))
				s.add(Op{K: "dereg", T: t, C: c, W: true, D: d})
			case 3:
				s.add(Op{K: "auth", T: t, C: c, S: "wrong", W: true, Seed: g.seed()})
				c++
			case 4:
				s.add(Op{K: "sleep", D: 60000*g.pick(1, 2, 3) + g.pick(-1, 0, 1, 500, -500)})
			}
			if g.pct(50) {
				c++
			}
			s.add(Op{K: "sleep", D: g.pick(0, 1, 1000, 30000, 59000, 60000, 119000, g.r.Intn(60000))})
		}
		s.add(Op{K: "reg", T: t, C: c, W: true})
		s.add(Op{K: "auth", T: t, C: c, W: true})
		s.add(Op{K: "talk", T: t, C: c, N: 3 + g.r.Intn(8), M: g.pick(20000, 30000, 45000, 55000, 58000), S: g.pickS("", "mix", "acc", "sleepy"), W: true, Seed: g.seed()})
		if g.pct(40) {
			s.add(Op{K: "sleep", D: 60000 * g.pick(1, 2, 3, 4)})
		}
		s.done("term")
	}
	if g.pct(70) {
		g.caller(5+g.r.Intn(25), g.pick(30000, 60000), 6, 3, 1, 0, 0, ids)
	}
}

// expireMany: terminals fall silent in every way there is.
func (g *gen) expireMany() {
	n := 1 + g.r.Intn(4)
	ids := g.idents(n)
	if g.pct(50) {
		g.exact()
	}
	for _, t := range ids {
		s := g.newScript()
		c := 0
		for rounds := 1 + g.r.Intn(2); rounds > 0; rounds-- {
			s.add(Op{K: "reg", T: t, C: c, W: true, D: g.r.Intn(3000)})
			if g.pct(75) {
				s.add(Op{K: "auth", T: t, C: c, W: true, D: g.r.Intn(500)})
			}
			if g.pct(60) {
				s.add(Op{K: "talk", T: t, C: c, N: 1 + g.r.Intn(5), M: g.pick(100, 10000, 30000, 50000), S: g.pickS("", "loc", "mix", "acc", "sleepy"), W: true, Seed: g.seed()})
			}
			if g.pct(25) {
				c++
				s.add(Op{K: "dial", C: c})
				s.add(Op{K: "auth", T: t, C: c, W: true})
			}
			if g.pct(60) {
				s.add(Op{K: g.pickS("bye", "rst", "fin", "vanish", "cutfin", "cutrst", "pause"), T: t, C: c, D: g.r.Intn(3000), Seed: g.seed()})
			}
			s.add(Op{K: "sleep", D: 184000 + int(3*g.sc.Net.DelayMax/1e6) + g.r.Intn(20000)})
			c++
			if g.pct(40) {
				s.add(Op{K: g.pickS("hb", "auth", "loc", "dereg"), T: t, C: c, W: true, Seed: g.seed()})
				c++
			}
		}
		if g.pct(70) {
			s.add(Op{K: "reg", T: t, C: c, W: true})
			if g.pct(70) {
				s.add(Op{K: "auth", T: t, C: c, W: true})
				s.add(Op{K: "talk", T: t, C: c, N: 1 + g.r.Intn(6), M: g.pick(20000, 40000, 55000), S: g.pickS("", "mix"), W: true, Seed: g.seed()})
			}
		}
		if g.pct(30) {
			s.add(Op{K: "sleep", D: 190000})
		}
		s.done("term")
	}
	g.caller(10+g.r.Intn(20), g.pick(10000, 30000), 6, 4, 1, 1, 0, ids)
}

// talkers: terminals that talk for a long time, in their own rhythm, while others come, go and expire.
func (g *gen) talkers() {
	if g.pct(60) {
		g.exact()
	}
	n := 1 + g.r.Intn(3)
	ids := g.idents(n)
	long := 0
	for _, t := range ids {
		s := g.newScript()
		s.add(Op{K: "sleep", D: g.r.Intn(2000)})
		if g.pct(40) { // an earlier registration leaves something behind
			g.join(s, t, 9)
			if g.pct(50) {
				s.add(Op{K: "talk", T: t, C: 9, N: 1 + g.r.Intn(3), M: g.pick(1000, 20000, 50000), S: "mix", W: true, Seed: g.seed()})
			}
			s.add(Op{K: "dereg", T: t, C: 9, W: true, D: g.r.Intn(70000)})
			s.add(Op{K: "sleep", D: g.pick(0, 0, g.r.Intn(130000))})
		}
		g.join(s, t, 0)
		m := g.pick(5000, 10000, 20000, 30000, 40000, 50000, 55000, 58000, 59000)
		if g.sc.Net.DelayMax > 50e6 || g.sc.RT.StallPm > 0 {
			m = g.pick(5000, 20000, 40000)
		}
		k := 4 + g.r.Intn(20)
		if g.pct(15) {
			k = 60 + g.r.Intn(200)
		}
		if k*m > long {
			long = k * m
		}
		s.add(Op{K: "talk", T: t, N: k, M: m, S: g.pickS("", "loc", "mix", "acc", "sleepy"), W: true, Seed: g.seed()})
		if g.pct(50) { // move to another connection and go on
			s.add(Op{K: "dial", C: 1})
			s.add(Op{K: "auth", T: t, C: 1, W: true})
			if g.pct(60) {
				s.add(Op{K: g.pickS("bye", "rst", "fin", "cutfin"), T: t, C: 0, D: g.r.Intn(2000), Seed: g.seed()})
			}
			s.add(Op{K: "talk", T: t, C: 1, N: 2 + g.r.Intn(6), M: m, S: g.pickS("", "mix", "acc"), W: true, Seed: g.seed()})
		}
		s.done("term")
	}
	for k := g.r.Intn(3); k > 0; k-- { // others
		t := g.ident()
		s := g.newScript()
		s.add(Op{K: "sleep", D: g.r.Intn(100000)})
		g.terminal(s, t, 3+g.r.Intn(6), weights{hb: 2, loc: 2, dereg: 2, expire: 3, reconn: 2, wrong: 1, waitPct: 80, maxSleep: 20000})
		s.done("term")
	}
	calls := 6 + g.r.Intn(20)
	gap := 2*long/calls + 1
	if gap > 100000 {
		gap = 100000
	}
	g.caller(calls, gap, 6, 1, 1, 1, 0, ids)
}

// clockBack: terminals fall silent and the server's clock is set back.
func (g *gen) clockBack() {
	g.exact()
	for i, t := range g.idents(2) {
		s := g.newScript()
		s.add(Op{K: "reg", T: t, W: true, D: 2000 * i})
		s.add(Op{K: "auth", T: t, W: true})
		s.add(Op{K: "loc", T: t, W: true, Seed: g.seed()})
		s.add(Op{K: "sleep", D: 200000})
		s.done("term")
	}
	f := g.newScript()
	f.add(Op{K: "clock", D: 10000 + g.r.Intn(100000), N: -3600000})
	f.done("fault")
	g.sc.Tail = 1000
}

// held: one terminal holds a phone and a plate in every state there is, others keep asking for them.
func (g *gen) held() {
	ids := g.idents(2)
	t := ids[0]
	s := g.newScript()
	s.add(Op{K: "reg", T: t, W: true})
	if g.pct(75) {
		s.add(Op{K: "auth", T: t, W: true, D: g.r.Intn(2000)})
		if g.pct(60) {
			s.add(Op{K: "loc", T: t, N: g.pick(1, 2, 2), W: true, D: g.r.Intn(2000), Seed: g.seed()})
		}
	}
	if g.pct(40) {
		s.add(Op{K: g.pickS("bye", "rst", "fin", "vanish", "cutfin"), T: t, D: g.r.Intn(5000), Seed: g.seed()})
	} else if g.pct(60) {
		s.add(Op{K: "talk", T: t, N: 1 + g.r.Intn(8), M: g.pick(1000, 10000, 30000, 50000), S: g.pickS("", "loc", "acc", "sleepy"), W: true, Seed: g.seed()})
	}
	until := g.pick(5000, 55000, 100000, 150000, 210000)
	s.add(Op{K: "sleep", D: until})
	s.add(Op{K: g.pickS("reg", "auth", "hb", "loc", "dereg"), T: t, C: 1, W: true, Seed: g.seed()})
	s.add(Op{K: "reg", T: t, C: 2, W: true})
	s.add(Op{K: "auth", T: t, C: 2, W: true})
	s.done("term")
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		s := g.newScript()
		s.add(Op{K: "sleep", D: g.r.Intn(3000)})
		for i, n := 0, 1+g.r.Intn(8); i < n; i++ {
			s.add(Op{K: "intrude", T: t, C: i * g.r.Intn(2), D: g.r.Intn(until / n), W: true, N: g.r.Intn(3), Seed: g.seed()})
		}
		s.done("term")
	}
	g.bystander(ids[1], 4, 15000)
	g.caller(5+g.r.Intn(15), until/6, 8, 3, 1, 0, 0, ids)
}

// compete: several terminals want the same phones and plates.
func (g *gen) compete() {
	g.sc.Shared = true
	if g.sc.Net.DelayMax > 100e6 {
		g.sc.Net.DelayMax = 100e6
	}
	g.sc.RT.StallPm = g.pick(0, 0, 5)
	if g.sc.RT.StallMax > 100e6 {
		g.sc.RT.StallMax = 100e6
	}
	np := 1 + g.r.Intn(2)
	nl := 1 + g.r.Intn(2)
	ver := g.pick(2011, 2013, 2019)
	var phones, plates []string
	for i := 0; i < np; i++ {
		if ver == 2019 {
			phones = append(phones, fmt.Sprintf("0000000001390000%04d", i))
		} else {
			phones = append(phones, fmt.Sprintf("01390000%04d", i))
		}
	}
	for i := 0; i < nl; i++ {
		plates = append(plates, fmt.Sprintf("京A%04d", i))
	}
	na := 2 + g.r.Intn(4)
	shift := g.pct(20)
	caseOnly := !shift && g.pct(15)
	text := fmt.Sprintf("K%c%dZ%04d", 'A'+g.r.Intn(26), g.r.Intn(10), g.r.Intn(10000))
	for i := 0; i < na; i++ {
		t := Ident{Phone: phones[g.r.Intn(np)], Plate: plates[g.r.Intn(nl)], ID: fmt.Sprintf("DEV%04d", i), Ver: ver}
		if g.pct(20) {
			t.Plate = fmt.Sprintf("沪B%04d", i)
		}
		if ver == 2019 {
			t.PV, t.IMEI, t.SW = 1, fmt.Sprintf("%015d", i+1), "v1"
		}
		if shift { // the same characters, divided between device id and plate in other ways
			t.Phone = phones[0]
			k := 2 + i%4
			t.ID, t.Plate = text[:k], text[k:]
		}
		if caseOnly { // names that differ in case or a blank only
			t.Phone, t.Plate, t.ID = phones[0], plates[0], "Dev7x"
			alt := []func(string) string{strings.ToUpper, strings.ToLower, func(s string) string { return s + " " }, func(s string) string { return " " + s }}
			f := alt[g.r.Intn(len(alt))]
			if g.pct(50) {
				t.ID = f(t.ID)
			} else {
				t.Plate = f(t.Plate)
			}
		}
		if i > 0 && g.pct(15) { // the same terminal twice
			t = g.sc.Idents[g.r.Intn(i)]
		}
		g.sc.Idents = append(g.sc.Idents, t)
	}
	gap := g.pick(0, 3, 50, 400)
	for i := 0; i < na; i++ {
		s := g.newScript()
		s.add(Op{K: "dial", D: 100 + g.r.Intn(gap+1)})
		c := 0
		for k := 1 + g.r.Intn(5); k > 0; k-- {
			d := g.r.Intn(gap + 1)
			switch g.r.Intn(10) {
			case 0, 1, 2, 3:
				s.add(Op{K: "reg", T: i, C: c, W: true, D: d})
			case 4, 5:
				what := g.pickS("", "", "", "wrong", "refused", fmt.Sprintf("of:%d", g.r.Intn(na)))
				s.add(Op{K: "auth", T: i, C: c, W: true, D: d, S: what, Seed: g.seed()})
			case 6:
				s.add(Op{K: "dereg", T: i, C: c, W: true, D: d})
			case 7:
				s.add(Op{K: "hb", T: i, C: c, W: true, D: d})
			case 8:
				s.add(Op{K: "loc", T: i, C: c, N: g.pick(1, 2, 2), W: true, D: d, Seed: g.seed()})
			case 9: // in one go, and to sleep
				s.add(Op{K: "reg", T: i, C: c, W: true, D: d})
				s.add(Op{K: "auth", T: i, C: c, W: true})
				s.add(Op{K: "loc", T: i, C: c, N: g.pick(1, 2, 2), W: true, Seed: g.seed()})
			}
			if g.pct(15) {
				c++
			}
		}
		s.done("term")
	}
	nh := g.pick(0, 1, 1, 2)
	if g.prop == "C17" {
		nh++
	}
	for ; nh > 0; nh-- {
		s := g.newScript()
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			s.add(Op{K: g.pickS("list", "list", "geo"), T: g.r.Intn(na), W: true, D: g.r.Intn(gap+1) + 60})
		}
		s.done("http")
	}
}

// unauth: terminals that register but do not authenticate, sending everything else.
func (g *gen) unauth() {
	ids := g.idents(2)
	s := g.newScript()
	s.add(Op{K: "reg", T: ids[0], W: true})
	for i := 0; i < 4+g.r.Intn(10); i++ {
		s.add(Op{K: g.pickS("hb", "loc", "loc", "noreply"), T: ids[0], N: g.r.Intn(4), D: g.r.Intn(20000), W: g.pct(70), Seed: g.seed()})
	}
	if g.pct(50) {
		s.add(Op{K: "auth", T: ids[0], W: true})
		s.add(Op{K: "loc", T: ids[0], N: g.r.Intn(3), W: true, Seed: g.seed()})
	}
	s.done("term")
	g.bystander(ids[1], 5, 20000)
	g.caller(10+g.r.Intn(15), 15000, 10, 2, 0, 0, 0, ids)
}

// restartFam: the platform process is killed and started again at arbitrary moments.
func (g *gen) restartFam() {
	ids := g.idents(1 + g.r.Intn(3))
	for _, t := range ids {
		s := g.newScript()
		c := 0
		for k := 2 + g.r.Intn(3); k > 0; k-- {
			s.add(Op{K: "dial", C: c, D: g.r.Intn(3000)})
			s.add(Op{K: "reg", T: t, C: c, W: true})
			s.add(Op{K: "auth", T: t, C: c, W: true})
			for j := g.r.Intn(6); j > 0; j-- {
				s.add(Op{K: g.pickS("hb", "loc"), T: t, C: c, W: g.pct(70), D: g.r.Intn(1500), Seed: g.seed()})
			}
			if g.pct(30) {
				s.add(Op{K: "dereg", T: t, C: c, W: true})
			}
			c++
			if g.pct(60) { // on a new connection, without registering
				s.add(Op{K: "dial", C: c, D: g.r.Intn(1500)})
				s.add(Op{K: g.pickS("hb", "loc", "auth", "dereg"), T: t, C: c, W: true, Seed: g.seed()})
				c++
			}
		}
		s.done("term")
	}
	f := g.newScript()
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		f.add(Op{K: "restart", D: 500 + g.r.Intn(6000), M: g.pick(0, 1, 100, 2000)})
	}
	f.done("fault")
	g.caller(4+g.r.Intn(15), 1500, 4, 4, 1, 0, 0, ids)
}

// startup: the platform is started again while its ports cannot be opened.
func (g *gen) startup() {
	ids := g.idents(1 + g.r.Intn(3))
	for _, t := range ids {
		s := g.newScript()
		c := 0
		for k := 2 + g.r.Intn(4); k > 0; k-- {
			s.add(Op{K: "dial", C: c, D: g.r.Intn(4000), N: g.pick(0, 3, 30)})
			s.add(Op{K: "reg", T: t, C: c, W: true})
			s.add(Op{K: "auth", T: t, C: c, W: true})
			for j := g.r.Intn(6); j > 0; j-- {
				s.add(Op{K: g.pickS("hb", "loc"), T: t, C: c, W: g.pct(70), D: g.r.Intn(1500), Seed: g.seed()})
			}
			if g.pct(20) {
				s.add(Op{K: "dereg", T: t, C: c, W: true})
			}
			c++
		}
		s.done("term")
	}
	f := g.newScript()
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		f.add(Op{K: "restart", N: 1 + g.r.Intn(7), D: g.r.Intn(5000), M: g.pick(0, 1, 100, 1000, 3000), Seed: g.seed()})
	}
	if g.pct(30) {
		f.add(Op{K: "restart", D: g.r.Intn(5000), M: g.pick(0, 1, 100, 2000)})
	}
	f.done("fault")
	g.caller(4+g.r.Intn(15), 3000, 4, 4, 1, 0, 0, ids)
}

// stranger: phones nobody ever registered.
func (g *gen) stranger() {
	ids := g.idents(1 + g.r.Intn(3))
	for _, t := range ids {
		s := g.newScript()
		for k := 1 + g.r.Intn(5); k > 0; k-- {
			s.add(Op{K: "dial", C: k, D: g.r.Intn(500)})
			if g.pct(15) { // on the connection of one that is registered
				g.join(s, g.ident(), k)
			}
			if g.pct(15) {
				s.add(Op{K: "noreply", T: t, C: k, N: g.r.Intn(4), Seed: g.seed()})
			}
			if g.pct(15) {
				s.add(Op{K: "frag", T: t, C: k, S: "loc", N: 2, M: g.pick(0, 4), W: true, Seed: g.seed()})
			} else {
				s.add(Op{K: g.pickS("hb", "loc", "auth", "dereg"), T: t, C: k, W: true, Seed: g.seed()})
			}
			for j := g.r.Intn(3); j > 0; j-- {
				s.add(Op{K: g.pickS("hb", "loc"), T: t, C: k, Seed: g.seed()})
			}
		}
		if g.pct(50) {
			s.add(Op{K: "reg", T: t, C: 9, W: true})
			s.add(Op{K: "auth", T: t, C: 9, W: true})
			s.add(Op{K: "hb", T: t, C: 9, W: true})
		}
		s.done("term")
	}
	b := g.ident()
	g.bystander(b, 4, 1000)
	g.caller(4+g.r.Intn(10), 600, 4, 4, 2, 1, 0, append(ids, b))
}

// deregRace: messages in flight on one connection while the terminal deregisters on another.
func (g *gen) deregRace() {
	ids := g.idents(1 + g.r.Intn(2))
	for _, t := range ids {
		s := g.newScript()
		for k := 1 + g.r.Intn(4); k > 0; k-- {
			a, b, n := 3*k, 3*k+1, 3*k+2
			s.add(Op{K: "dial", C: a})
			s.add(Op{K: "dial", C: b})
			g.join(s, t, a)
			if g.pct(40) {
				s.add(Op{K: "talk", T: t, C: a, N: 1 + g.r.Intn(3), M: g.pick(100, 30000, 59000), S: "mix", W: true, Seed: g.seed()})
			}
			for j := 1 + g.r.Intn(3); j > 0; j-- {
				s.add(Op{K: g.pickS("hb", "loc", "loc", "auth"), T: t, C: b, N: g.r.Intn(3), Seed: g.seed()})
			}
			if g.pct(50) {
				s.add(Op{K: "sleep", D: g.r.Intn(5)})
			}
			s.add(Op{K: "dereg", T: t, C: a, W: true})
			if g.pct(50) {
				s.add(Op{K: "sleep", D: g.pick(1, 100, 4000, 5000)})
			} else {
				s.add(Op{K: "sleep", D: 4000})
			}
			if g.pct(70) {
				s.add(Op{K: "reg", T: t, C: n, W: true})
				if g.pct(60) {
					s.add(Op{K: "auth", T: t, C: n, W: true})
					s.add(Op{K: "talk", T: t, C: n, N: 1 + g.r.Intn(5), M: g.pick(1000, 25000, 50000), S: g.pickS("", "", "mix"), W: true, Seed: g.seed()})
				}
				s.add(Op{K: "dereg", T: t, C: n, W: true})
			}
			s.add(Op{K: "sleep", D: g.pick(0, 4000, 60000)})
		}
		s.done("term")
	}
	g.caller(6+g.r.Intn(20), g.pick(500, 5000), 5, 5, 0, 0, 0, ids)
}

// manyReports: far more reports than any buffer holds.
func (g *gen) manyReports() {
	ids := g.idents(1 + g.r.Intn(2))
	for _, t := range ids {
		s := g.newScript()
		g.join(s, t, 0)
		n := g.pick(99, 100, 101, 120, 199, 200, 201, 250, 300)
		s.add(Op{K: "talk", T: t, N: n, M: g.pick(0, 0, 5, 50), S: "loc", W: g.pct(60), Seed: g.seed()})
		s.add(Op{K: "await"})
		if g.pct(50) {
			s.add(Op{K: "dial", C: 1})
			s.add(Op{K: "auth", T: t, C: 1, W: true})
			s.add(Op{K: "talk", T: t, C: 1, N: 1 + g.r.Intn(110), S: "loc", W: g.pct(60), Seed: g.seed()})
		}
		s.done("term")
	}
	g.caller(20+g.r.Intn(60), g.pick(5, 50, 200), 0, 10, 0, 0, 0, ids)
}

// oddParams: settings that are readable but unusual.
func (g *gen) oddParams() {
	ids := g.idents(2)
	for _, t := range ids {
		s := g.newScript()
		g.join(s, t, 0)
		s.add(Op{K: "talk", T: t, N: 6 + g.r.Intn(6), M: 1000, S: "mix", W: true, Seed: g.seed()})
		s.done("term")
	}
	h := g.newScript()
	for i := 0; i < 6+g.r.Intn(10); i++ {
		h.add(Op{K: g.pickS("oddput", "putp", "badput", "getp"), T: ids[g.r.Intn(2)], D: 150 + g.r.Intn(500), W: g.pct(70), N: g.r.Intn(60), Seed: g.seed()})
	}
	h.done("http")
}

// reuse: a new connection arrives from the address of one that is being torn down.
func (g *gen) reuse() {
	ids := g.idents(2 + g.r.Intn(2))
	s := g.newScript()
	addr := "10.9.9.9:5000"
	n := 1 + g.r.Intn(4)
	prev := -1
	for k := 0; k < n; k++ {
		t := ids[g.r.Intn(2)]
		if g.pct(20) { // connections that are given up at once
			for j := 1 + g.r.Intn(3); j > 0; j-- {
				s.add(Op{K: "dial", C: 50 + j, S: addr})
				s.add(Op{K: "rst", T: t, C: 50 + j, D: g.pick(0, 0, 1, 3), Seed: g.seed()})
			}
		}
		s.add(Op{K: "dial", C: k, S: addr})
		if g.pct(30) {
			s.add(Op{K: "sleep", D: g.r.Intn(1500)})
		}
		switch {
		case t == prev || g.pct(25):
			s.add(Op{K: "auth", T: t, C: k, W: true})
			if t != prev {
				s.add(Op{K: "reg", T: t, C: k, W: true})
			}
		default:
			s.add(Op{K: "reg", T: t, C: k, W: true})
			s.add(Op{K: "auth", T: t, C: k, W: g.pct(90)})
		}
		prev = t
		for j := g.r.Intn(4); j > 0; j-- {
			s.add(Op{K: g.pickS("hb", "loc"), T: t, C: k, W: g.pct(70), D: g.r.Intn(600), Seed: g.seed()})
		}
		if k < n-1 {
			s.add(Op{K: g.pickS("rst", "rst", "cutrst", "bye", "cutfin"), T: t, C: k, D: g.r.Intn(300), Seed: g.seed()})
			if g.pct(40) {
				s.add(Op{K: "sleep", D: g.pick(0, 5, 500, 990, 1010, 2500)})
			}
		}
	}
	s.add(Op{K: "sleep", D: 2500})
	s.add(Op{K: "hb", T: prev, C: n - 1, W: true})
	if p := g.sc.Prop; g.pct(15) || (p == "C09" || p == "C10") && g.pct(60) { // until the others have expired
		s.add(Op{K: "talk", T: prev, C: n - 1, N: 8, M: 30000, S: "mix", W: true, Seed: g.seed()})
	}
	s.add(Op{K: "talk", T: prev, C: n - 1, N: 3, M: 800, S: "mix", W: true, Seed: g.seed()})
	s.done("term")
	for _, t := range ids[2:] {
		g.bystander(t, 5, 1500)
	}
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		g.caller(8+g.r.Intn(30), g.pick(100, 400), 3, 0, 8, 6, 0, ids)
	}
}

// lateMove: a terminal comes back on a new connection just before it would have expired.
func (g *gen) lateMove() {
	t := g.ident()
	s := g.newScript()
	g.join(s, t, 0)
	s.add(Op{K: g.pickS("bye", "rst", "vanish", "fin"), T: t, C: 0, D: g.r.Intn(2000)})
	s.add(Op{K: "sleep", D: g.pick(30000, 50000, 55000)})
	s.add(Op{K: "dial", C: 1})
	s.add(Op{K: "auth", T: t, C: 1, W: true})
	s.add(Op{K: "talk", T: t, C: 1, N: 4 + g.r.Intn(5), M: g.pick(20000, 40000, 50000), S: g.pickS("", "mix"), W: true, Seed: g.seed()})
	s.done("term")
	g.caller(6+g.r.Intn(20), 20000, 4, 1, 4, 3, 0, []int{t})
}

// comeback: a terminal is silent until the very check that turns it offline or ends its registration, and is
// heard again at that moment, on its old connection, on a new one or on both; others may want its phone or plate.
func (g *gen) comeback() {
	g.exact()
	g.sc.RT.PreemptMean = g.pick(1, 2, 2, 4, 8)
	g.sc.RT.SyncPct = g.pick(30, 60, 100)
	t := g.ident()
	authed := g.pct(75)
	tick := 60000 * g.pick(1, 2, 3, 3, 3)
	if !authed {
		tick = 60000 * g.pick(1, 1, 2)
	}
	at := func() int { return tick - 100 + g.pick(0, 0, 0, -1, -1, 1, -2, 2) } // checks fall on whole seconds, actors start at 0.1 s
	s := g.newScript()
	s.add(Op{K: "reg", T: t, C: 0, W: true})
	if authed {
		s.add(Op{K: "auth", T: t, C: 0, W: true})
	}
	if g.pct(40) {
		s.add(Op{K: "loc", T: t, C: 0, W: true, Seed: g.seed()})
	}
	how := g.r.Intn(3) // 0 on the old connection, 1 on a new one, 2 on both
	if how != 0 && g.pct(30) {
		s.add(Op{K: g.pickS("rst", "bye", "vanish"), T: t, C: 0})
	} else if how != 1 {
		s.add(Op{K: g.pickS("hb", "loc", "auth", "dereg"), T: t, C: 0, D: at(), Seed: g.seed()})
		if how == 0 {
			s.add(Op{K: "talk", T: t, C: 0, N: 4, M: g.pick(1000, 20000, 50000), S: "mix", W: true, Seed: g.seed()})
		}
	}
	s.done("term")
	if how != 0 {
		s := g.newScript()
		s.add(Op{K: "dial", C: 1, D: 1000})
		s.add(Op{K: g.pickS("auth", "auth", "auth", "hb", "loc"), T: t, C: 1, D: at() - 1000, W: true, Seed: g.seed()})
		s.add(Op{K: "talk", T: t, C: 1, N: 4, M: g.pick(1000, 20000, 50000), S: "mix", W: true, Seed: g.seed()})
		s.done("term")
	}
	ids := []int{t}
	if g.pct(25) { // somebody else wants the phone or the plate
		s := g.newScript()
		s.add(Op{K: "dial", C: 0, D: 1000})
		s.add(Op{K: "intrude", T: t, C: 0, D: at() - 1000, W: true, N: g.r.Intn(3), Seed: g.seed()})
		s.done("term")
	}
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		s := g.newScript()
		s.add(Op{K: g.pickS("list", "geo", "getp"), T: t, D: at()})
		s.add(Op{K: g.pickS("list", "geo", "getp"), T: t, D: g.pick(0, 1, 1)})
		for i := 0; i < 4; i++ {
			s.add(Op{K: g.pickS("list", "list", "geo", "getp"), T: ids[g.r.Intn(len(ids))], D: g.pick(1, 10, 500, 3000), W: true})
		}
		s.done("http")
	}
}

// together: terminals and HTTP callers all act at the same instants, over and over: what one request reads
// is being changed by the others at that moment.
func (g *gen) together() {
	g.exact()
	g.sc.RT.PreemptMean = g.pick(1, 2, 3, 5, 8)
	g.sc.RT.SyncPct = g.pick(10, 30, 60)
	g.sc.Net.SplitPct, g.sc.Net.CutPct = 0, 0
	step := g.pick(5, 10, 10)
	ids := g.idents(1 + g.r.Intn(2))
	rounds := 8 + g.r.Intn(12)
	what := g.r.Intn(3) // mostly authentications, locations, or comings and goings
	for _, t := range ids {
		s := g.newScript()
		g.join(s, t, 0)
		last := 0
		two := g.pct(50)
		if two {
			s.add(Op{K: "dial", C: 1})
		}
		for i := 0; i < rounds; i++ {
			c := 0
			if two {
				c = i % 2
			}
			k := g.r.Intn(10)
			switch {
			case what == 0 && k < 8 || k < 2:
				s.add(Op{K: "auth", T: t, C: c, W: true, D: step, Seed: g.seed()})
				last = c
			case what == 2 && k < 7:
				s.add(Op{K: "dereg", T: t, C: last, W: true, D: step})
				s.add(Op{K: "reg", T: t, C: last, W: true})
				s.add(Op{K: "auth", T: t, C: last, W: true})
			case k == 2:
				s.add(Op{K: "hb", T: t, C: last, W: true, D: step})
			default:
				s.add(Op{K: "loc", T: t, C: last, W: true, D: step, Seed: g.seed()})
			}
		}
		s.done("term")
	}
	for k := 2 + g.r.Intn(3); k > 0; k-- {
		s := g.newScript()
		for i := 0; i < rounds; i++ {
			op := g.pickS("list", "list", "geo", "getp")
			if what == 1 {
				op = g.pickS("geo", "geo", "list")
			}
			s.add(Op{K: op, T: ids[g.r.Intn(len(ids))], D: step, W: true})
		}
		s.done("http")
	}
}

// rounds: a few terminals come and go many times, and their connections end in one way or in all ways.
func (g *gen) rounds() {
	if g.pct(50) {
		g.light()
	}
	kinds := []string{"bye", "rst", "fin", "cutfin", "cutrst", "wrong", "unreg", "dereg", "expire", "bad", "move", "none"}
	only := kinds[g.r.Intn(len(kinds))]
	if g.pct(25) {
		only = ""
	}
	ids := g.idents(1 + g.r.Intn(2))
	for _, t := range ids {
		s := g.newScript()
		c := 0
		for i := 5 + g.r.Intn(8); i > 0; i-- {
			k := only
			if k == "" {
				k = kinds[g.r.Intn(len(kinds))]
			}
			join := func() {
				s.add(Op{K: "reg", T: t, C: c, W: true, D: g.r.Intn(300)})
				s.add(Op{K: "auth", T: t, C: c, W: true})
			}
			switch k {
			case "none": // nothing is said at all
				s.add(Op{K: "dial", C: c, D: g.r.Intn(300)})
				s.add(Op{K: g.pickS("bye", "rst", "fin"), T: t, C: c, D: g.r.Intn(300)})
			case "unreg":
				s.add(Op{K: g.pickS("hb", "loc", "auth", "dereg"), T: t, C: c, W: true, D: g.r.Intn(300), Seed: g.seed()})
			case "wrong":
				join()
				s.add(Op{K: "auth", S: "wrong", T: t, C: c, W: true, Seed: g.seed()})
				s.add(Op{K: "bye", T: t, C: c, D: g.r.Intn(300)})
			case "bad":
				join()
				s.add(Op{K: "malformed", T: t, C: c, Seed: g.seed()})
				s.add(Op{K: "dereg", T: t, C: c, W: true})
				s.add(Op{K: "bye", T: t, C: c, D: g.r.Intn(300)})
			case "expire":
				join()
				s.add(Op{K: "sleep", D: 184000 + int(3*g.sc.Net.DelayMax/1e6) + g.r.Intn(20000)})
			case "move":
				if i%4 == 0 {
					join()
				}
				c++
				s.add(Op{K: "dial", C: c})
				s.add(Op{K: "auth", T: t, C: c, W: true, Seed: g.seed()})
				s.add(Op{K: g.pickS("bye", "rst"), T: t, C: c - 1, D: g.r.Intn(1500)})
				continue
			default:
				join()
				s.add(Op{K: "dereg", T: t, C: c, W: true, D: g.r.Intn(300)})
				if k != "dereg" {
					s.add(Op{K: k, T: t, C: c, D: g.r.Intn(300), Seed: g.seed()})
				}
			}
			c++
		}
		s.done("term")
	}
	if g.pct(50) {
		g.caller(5+g.r.Intn(10), 1000, 2, 1, 2, 2, 0, ids)
	}
}

// fragInterleaved: fragments of several messages and several terminals mixed on several connections.
func (g *gen) fragInterleaved() {
	ids := g.idents(2 + g.r.Intn(3))
	for _, t := range ids {
		s := g.newScript()
		g.join(s, t, 0)
		for i := 0; i < 3+g.r.Intn(8); i++ {
			switch g.r.Intn(6) {
			case 0:
				s.add(Op{K: "frag", T: t, S: "loc", N: 2 + g.r.Intn(5), M: 4 | g.pick(0, 1, 2, 8, 16), Seed: g.seed()}) // stays incomplete
			case 1:
				s.add(Op{K: "hb", T: t, W: g.pct(50)})
			case 2:
				s.add(Op{K: "frag", T: t, S: "params", N: 2 + g.r.Intn(4), M: g.pick(0, 1, 3, 8, 24), Seed: g.seed()})
			default:
				s.add(Op{K: "frag", T: t, S: "loc", N: 2 + g.r.Intn(6), M: g.pick(0, 1, 2, 3, 8, 9, 16, 17, 19, 27, 32, 35, 64, 193, 128, 256, 512, 515), W: g.pct(50), D: g.r.Intn(300), Seed: g.seed()})
			}
		}
		s.add(Op{K: "await"})
		s.done("term")
	}
	g.caller(5+g.r.Intn(25), 700, 1, 10, 0, 0, 0, ids)
}

// fragReboot: a terminal that fails while or after sending a message in fragments comes back, counts from
// the same number again and sends another one.
func (g *gen) fragReboot() {
	ids := g.idents(1 + g.r.Intn(3))
	for _, t := range ids {
		s := g.newScript()
		g.join(s, t, 0)
		base := g.pick(0, 0, 65530, g.r.Intn(65536))
		slot, n := 0, 2+g.r.Intn(5)
		kind := g.pickS("loc", "loc", "loc", "auth")
		for k := 2 + g.r.Intn(3); k > 0; k-- {
			if g.pct(25) {
				n = 2 + g.r.Intn(5)
			}
			s.add(Op{K: "serial", T: t, N: base})
			s.add(Op{K: "frag", T: t, C: slot, S: kind, N: n, M: g.pick(0, 0, 2, 8, 256, 256), Seed: g.seed()})
			s.add(Op{K: "await", C: slot})
			if g.pct(30) {
				s.add(Op{K: "loc", T: t, C: slot, W: true, D: g.r.Intn(300), Seed: g.seed()})
			}
			if g.pct(75) {
				s.add(Op{K: g.pickS("bye", "rst", "fin", "vanish"), T: t, C: slot})
				slot++
				s.add(Op{K: "sleep", D: g.r.Intn(3000)})
				s.add(Op{K: "dial", C: slot})
				s.add(Op{K: "auth", T: t, C: slot, W: true})
			}
		}
		s.add(Op{K: "serial", T: t, N: base})
		s.add(Op{K: "frag", T: t, C: slot, S: kind, N: n, M: g.pick(0, 2, 8), Seed: g.seed()})
		s.add(Op{K: "await", C: slot})
		s.done("term")
	}
	g.caller(5+g.r.Intn(20), 700, 2, 10, 0, 0, 0, ids)
}

// fragLong: reports in very many or very large fragments.
func (g *gen) fragLong() {
	ids := g.idents(1 + g.r.Intn(2))
	for _, t := range ids {
		s := g.newScript()
		g.join(s, t, 0)
		for k := 1 + g.r.Intn(2); k > 0; k-- {
			s.add(Op{K: "frag", T: t, S: "loc", N: g.pick(20, 40, 128, 255, 256, 257, 260, 300), M: 64 | g.pick(0, 1, 2, 128, 129, 256, 4), Seed: g.seed()})
			s.add(Op{K: "await"})
		}
		s.done("term")
	}
	g.caller(5+g.r.Intn(10), 1500, 1, 10, 0, 0, 0, ids)
}

// fragCrowd: many terminals have sent part of a message each.
func (g *gen) fragCrowd() { g.fragCrowdOf(6 + g.r.Intn(14)) }
func (g *gen) fragFleet() {
	g.light()
	g.fragCrowdOf(g.pick(36, 70, 130))
}

func (g *gen) fragCrowdOf(n int) {
	ids := g.idents(n)
	for _, t := range ids {
		s := g.newScript()
		g.join(s, t, 0)
		s.add(Op{K: "sleep", D: g.r.Intn(200)})
		if g.pct(30) {
			s.add(Op{K: "frag", T: t, S: "loc", N: 3, M: 16 | 256, Seed: g.seed()}) // never completed
		} else {
			s.add(Op{K: "frag", T: t, S: g.pickS("loc", "loc", "auth"), N: 3 + g.r.Intn(3), M: 16 | g.pick(0, 0, 1, 2), Seed: g.seed()})
		}
		s.add(Op{K: "await"})
		s.done("term")
	}
	g.caller(10, 700, 1, 10, 0, 0, 0, ids)
	s := g.newScript()
	s.add(Op{K: "sleep", D: 8000})
	s.add(Op{K: "list", W: true})
	for _, t := range ids {
		s.add(Op{K: "geo", T: t, W: true})
	}
	s.done("http")
}

// manyBad: a connection on which very many frames are damaged or of no known type.
func (g *gen) manyBad() {
	g.light()
	ids := g.idents(2)
	s := g.newScript()
	g.join(s, ids[0], 0)
	n := g.pick(33, 66, 105, 135, 260)
	for i := 1; i <= n; i++ {
		if g.pct(70) {
			s.add(Op{K: "corrupt", T: ids[0], D: 1000 + g.r.Intn(300), S: g.pickS("hb", "loc"), N: g.r.Intn(3), Seed: g.seed()})
		} else {
			s.add(Op{K: "unsup", T: ids[0], D: 1000 + g.r.Intn(300), N: g.pick(0, 0, 0x0005, 0x0107, 0x0704, 0x0900), Seed: g.seed()})
		}
		if i%20 == 0 {
			s.add(Op{K: g.pickS("hb", "loc"), T: ids[0], W: true, Seed: g.seed()})
		}
	}
	s.add(Op{K: "hb", T: ids[0], W: true, D: 2000})
	s.add(Op{K: "loc", T: ids[0], W: true, Seed: g.seed()})
	s.done("term")
	g.bystander(ids[1], 4, 20000)
	g.caller(8, 20000, 4, 3, 1, 0, 0, ids)
}

// shared: several terminals speak through one connection (a relay).
func (g *gen) shared() {
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		ids := g.idents(2 + g.r.Intn(3))
		s := g.newScript()
		slot := 0
		for _, t := range ids {
			if g.pct(97) {
				g.join(s, t, 0)
			}
		}
		for i := 4 + g.r.Intn(20); i > 0; i-- {
			t := ids[g.r.Intn(len(ids))]
			switch g.r.Intn(12) {
			case 0, 1:
				s.add(Op{K: "reg", T: t, C: slot, W: true})
				s.add(Op{K: "auth", T: t, C: slot, W: true})
			case 2:
				s.add(Op{K: "auth", T: t, C: slot, W: g.pct(50)})
			case 3:
				if g.pct(30) {
					s.add(Op{K: "dereg", T: t, C: slot, W: true})
					g.join(s, t, slot)
				}
			case 4:
				if g.pct(20) {
					slot++
					s.add(Op{K: "dial", C: slot})
					for _, t := range ids {
						s.add(Op{K: "auth", T: t, C: slot, W: true})
					}
				}
			case 5, 6:
				s.add(Op{K: "hb", T: t, C: slot, W: g.pct(60), D: g.r.Intn(400)})
			case 7:
				s.add(Op{K: "frag", T: t, C: slot, S: "loc", N: 2 + g.r.Intn(3), M: g.pick(0, 1, 2, 8), Seed: g.seed()})
			default:
				s.add(Op{K: "loc", T: t, C: slot, W: g.pct(60), D: g.r.Intn(400), N: g.pick(0, 1), Seed: g.seed()})
			}
		}
		s.add(Op{K: "await", C: slot})
		s.done("term")
		g.caller(10+g.r.Intn(15), 400, 4, 4, 4, 3, 0, ids)
	}
}

// crowd: many terminals register, leave and expire while lists are taken.
func (g *gen) crowd() {
	n := 8 + g.r.Intn(20)
	ids := g.idents(n)
	for _, t := range ids {
		s := g.newScript()
		s.add(Op{K: "sleep", D: g.r.Intn(400)})
		g.join(s, t, 0)
		for k := g.r.Intn(3); k > 0; k-- {
			s.add(Op{K: "dereg", T: t, W: true, D: g.r.Intn(300)})
			s.add(Op{K: "reg", T: t, W: true, D: g.r.Intn(300)})
		}
		s.done("term")
	}
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		g.caller(10+g.r.Intn(20), 60, 10, 1, 0, 0, 0, ids)
	}
	if g.pct(30) {
		g.caller(10, 40000, 10, 1, 0, 0, 0, ids)
	}
}

// light makes a large run affordable: little preemption, an easy network.
func (g *gen) light() {
	g.sc.RT.PreemptMean = g.pick(0, 200, 1000)
	g.sc.RT.SyncPct = g.pick(0, 0, 10)
	g.sc.RT.StallPm = 0
	g.sc.RT.MaxSlices = 30000000
	g.sc.RT.MaxY = 4000000000
	g.sc.Net.DelayMax = time.Duration(g.pick(0, 1, 20)) * time.Millisecond
	g.sc.Net.SplitPct, g.sc.Net.CutPct = g.pick(0, 20), g.pick(0, 20)
	if g.sc.Net.Window < 4096 {
		g.sc.Net.Window = 4096
	}
	if g.sc.Log == "DEBUG" {
		g.sc.Log = "INFO"
	}
}

// fleet: far more terminals at once than elsewhere.
func (g *gen) fleet() {
	g.light()
	n := g.pick(40, 60, 70, 110, 140, 270)
	if g.deep && g.pct(12) {
		n = 1100
	}
	ids := g.idents(n)
	span := g.pick(1, 1000, 5000)
	leave := g.pick(0, 10, 50)
	for _, t := range ids {
		s := g.newScript()
		s.add(Op{K: "sleep", D: g.r.Intn(span)})
		g.join(s, t, 0)
		for k := g.r.Intn(3); k > 0; k-- {
			if g.pct(50) {
				s.add(Op{K: "loc", T: t, W: true, D: g.r.Intn(span), N: g.pick(0, 1, 2), Seed: g.seed()})
			} else {
				s.add(Op{K: "hb", T: t, W: true, D: g.r.Intn(span)})
			}
		}
		if g.pct(leave) {
			switch g.r.Intn(3) {
			case 0:
				s.add(Op{K: "dereg", T: t, W: true, D: 2000 + g.r.Intn(span)})
			case 1:
				s.add(Op{K: g.pickS("bye", "rst", "fin", "vanish"), T: t, D: 2000 + g.r.Intn(span), Seed: g.seed()})
			case 2:
				s.add(Op{K: "auth", T: t, S: "wrong", W: true, D: 2000 + g.r.Intn(span), Seed: g.seed()})
			}
		} else if g.pct(60) {
			s.add(Op{K: "loc", T: t, W: true, D: 2000 + g.r.Intn(span), N: g.pick(0, 1), Seed: g.seed()})
		}
		s.done("term")
	}
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		g.caller(10, span, 4, 2, 2, 2, 0, ids)
	}
	s := g.newScript()
	s.add(Op{K: "sleep", D: 2*span + 4000})
	s.add(Op{K: "list", W: true})
	for i := 0; i < 20; i++ {
		s.add(Op{K: g.pickS("geo", "geo", "getp", "putp"), T: ids[g.r.Intn(n)], W: true, N: 2, Seed: g.seed()})
	}
	if g.pct(40) { // all the others fall silent
		s.add(Op{K: "list", W: true, D: 130000})
		s.add(Op{K: "list", W: true, D: 70000})
	}
	s.done("http")
}

// marathon: one terminal says more on one connection than any counter of a byte, or of two, can count.
func (g *gen) marathon() {
	g.light()
	t := g.ident()
	n := g.pick(260, 300, 520, 1030, 2100)
	if g.deep && g.pct(10) {
		n = 66000
	}
	gap := g.pick(0, 0, 10, 1000, 20000)
	if g.sc.Prop == "C09" || g.sc.Prop == "C10" {
		gap = g.pick(10000, 30000, 50000)
	}
	s := g.newScript()
	g.join(s, t, 0)
	s.add(Op{K: "talk", T: t, N: n, M: gap, S: g.pickS("", "loc", "mix", "mix", "sleepy"), W: true, Seed: g.seed()})
	s.add(Op{K: "hb", T: t, W: true})
	s.add(Op{K: g.pickS("dereg", "loc", "hb"), T: t, W: true, Seed: g.seed()})
	s.done("term")
	calls := 20
	g.caller(calls, 2*n*gap/calls+100, 3, 3, 1, 1, 0, []int{t})
}

// churn: terminals come and go hundreds of times.
func (g *gen) churn() {
	g.light()
	for _, t := range g.idents(1) {
		s := g.newScript()
		g.join(s, t, 0)
		how := g.r.Intn(4)
		for k, n := 1, g.pick(70, 70, 130, 270); k <= n; k++ {
			d := 0
			if g.pct(20) {
				d = g.r.Intn(2000)
			}
			switch how {
			case 0: // registers again and again
				s.add(Op{K: "dereg", T: t, W: true, D: d})
				g.join(s, t, 0)
			case 1: // moves to a new connection
				s.add(Op{K: "dial", C: k})
				s.add(Op{K: "auth", T: t, C: k, W: true, D: d})
				s.add(Op{K: g.pickS("bye", "rst", "fin"), T: t, C: k - 1, Seed: g.seed()})
			case 2: // loses its connection
				s.add(Op{K: g.pickS("bye", "rst", "fin", "cutfin"), T: t, C: k - 1, Seed: g.seed()})
				s.add(Op{K: "dial", C: k, D: d})
				s.add(Op{K: "auth", T: t, C: k, W: true})
			case 3: // new connection and new registration
				s.add(Op{K: "dereg", T: t, C: k - 1, W: true, D: d})
				s.add(Op{K: "bye", T: t, C: k - 1, Seed: g.seed()})
				s.add(Op{K: "dial", C: k})
				g.join(s, t, k)
			}
			if g.pct(20) {
				c := k
				if how == 0 {
					c = 0
				}
				s.add(Op{K: "loc", T: t, C: c, W: true, N: g.pick(0, 1), Seed: g.seed()})
			}
		}
		s.done("term")
		g.caller(20, 2000, 3, 2, 2, 2, 0, []int{t})
	}
}

// serials: run the command serial numbers through their whole range.
func (g *gen) serials() {
	t := g.ident()
	g.sc.RT.PreemptMean = 0
	g.sc.RT.SyncPct = 0
	g.sc.RT.StallPm = 0
	g.sc.RT.MaxSlices = 30000000
	g.sc.RT.MaxY = 4000000000
	g.sc.Net.DelayMax, g.sc.Net.SplitPct, g.sc.Net.CutPct = 0, 0, 0
	g.sc.Log = "ERROR"
	s := g.newScript()
	g.join(s, t, 0)
	s.done("term")
	h := g.newScript()
	h.add(Op{K: "burst", T: t, D: 1000, N: 65545 + g.r.Intn(10), M: 24, Seed: g.seed()})
	h.done("http")
}

// geoRace: positions are read at the very moments at which reports come in.
func (g *gen) geoRace() {
	g.sc.Net.DelayMax, g.sc.Net.SplitPct, g.sc.Net.CutPct = 0, 0, 0
	g.sc.RT.PreemptMean = g.pick(2, 4, 8, 20)
	g.sc.RT.StallPm = g.pick(0, 5, 20)
	g.sc.RT.StallMax = 20 * time.Millisecond
	ids := g.idents(1 + g.r.Intn(2))
	step := g.pick(0, 1, 10)
	for _, t := range ids {
		s := g.newScript()
		s.add(Op{K: "dial", D: 100})
		g.join(s, t, 0)
		s.add(Op{K: "sleep", D: 200})
		n := g.pick(3, 20, 105, 130)
		s.add(Op{K: "talk", T: t, N: n, M: step, S: "loc", W: true, Seed: g.seed()})
		if g.pct(40) {
			s.add(Op{K: "dereg", T: t, W: true})
			s.add(Op{K: "reg", T: t, W: true})
			s.add(Op{K: "loc", T: t, W: true, Seed: g.seed()})
		}
		s.done("term")
	}
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		s := g.newScript()
		s.add(Op{K: "sleep", D: 300})
		n := 20 + g.r.Intn(130)
		for i := 0; i < n; i++ {
			s.add(Op{K: "geo", T: ids[g.r.Intn(len(ids))], D: step * g.r.Intn(2), W: true})
		}
		s.done("http")
	}
}
