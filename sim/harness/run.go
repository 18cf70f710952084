//go:build go1.25

package harness

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzsim/simnet"
	"github.com/fakeyanss/jt808-server-go/zzsim/simrt"
	"github.com/gin-gonic/gin"
	"github.com/rs/zerolog"
)

// Outcome of one simulated run.
type Outcome struct {
	Viol     []Violation
	Hash     uint64
	SimTime  time.Duration
	Slices   int
	Switches int
	Stmts    int64
	Ops      int
	Stats    map[string]int
	Probes   map[string]int
	Choices  []simrt.Choice
	NChoices int
	Trace    []string
	Wall     time.Duration
	Hist     uint64 // hash of everything observed
	Judged   int
}

// execute performs the scenario once.
func execute(t *testing.T, sc *Scenario, ch *simrt.Choices, trace bool) *Outcome {
	var out *Outcome
	t0 := time.Now()
	synctest.Test(t, func(*testing.T) {
		out = runBubble(sc, ch, trace)
	})
	out.Wall = time.Since(t0)
	return out
}

func runBubble(sc *Scenario, ch *simrt.Choices, trace bool) *Outcome {
	s := simrt.New(sc.RT, ch)
	s.TraceOn = trace
	s.Sites = sc.Drain
	n := simnet.New(sc.Net)
	tcpPort, httpPort = sc.conf().TCP, sc.conf().HTTP
	s.HTTPListen = n.HTTPListen
	simrt.S, simnet.N = s, n
	rand.Seed(int64(sc.Seed)) // whatever draws from the global generator does so in schedule order
	w := &World{sc: sc, s: s, n: n, codes: map[int]string{}, refCodes: map[int]string{}, serial: map[int]uint16{}, lastCmd: map[int]uint16{}, okEnds: map[int]bool{}, K: time.Minute, t0: time.Now()}
	if sc.Date != 0 {
		d := time.Duration(sc.Date) * time.Second
		s.Skew[simrt.NodeServer], s.Skew[simrt.NodeClient] = d, d
		w.skews = append(w.skews, skew{0, d})
	}
	w.endAt = 10 * 24 * time.Hour
	w.live = len(sc.Actors)
	s.Spawn(simrt.NodeHarness, "main", func() { w.director() })
	s.Run(w.endAt)
	w.runEnd = w.now()
	w.judge()
	s.Stop = true
	s.Teardown()
	simrt.S, simnet.N = nil, nil
	return &Outcome{Viol: w.viol, Hash: s.Hash(), SimTime: w.runEnd.at, Slices: s.Slices, Switches: s.Switches, Stmts: s.YTotal(),
		Ops: w.ops, Hist: w.histHash(), Judged: w.judged, Stats: s.Stats, Probes: s.Probes, Choices: ch.Rec, NChoices: ch.N, Trace: s.Trace}
}

// director starts the platform and the actors and ends the run.
func (w *World) director() {
	s := w.s
	if w.sc.Client != nil && w.clientDirector() {
		s.Stop = true
		return
	}
	if w.sc.Client == nil {
		w.startServer()
	}
	if w.playedOnly() {
	} else if !w.waitUp() {
		if len(s.Crashes) == 0 {
			w.fail(allProps, "no-start", "the platform does not start to listen")
		}
		s.Stop = true
		return
	}
	if w.sc.Drain {
		w.warm()
	}
	for i := range w.sc.Actors {
		i := i
		s.Spawn(simrt.NodeHarness, "actor", func() {
			defer func() {
				if !s.Killed() {
					w.live--
					w.wake()
				}
			}()
			w.runActor(i)
		})
	}
	for w.live > 0 {
		w.waiters = append(w.waiters, s.Cur())
		s.Park()
	}
	w.finish()
	if w.sc.Drain && !s.NodeDead(simrt.NodeServer) {
		w.drain()
	}
	s.Stop = true
}

// drain: all terminals leave; afterwards the platform should be as idle as after its start.
func (w *World) drain() {
	s := w.s
	r := simrt.NewRand(w.sc.Seed ^ 0xd4a1)
	for _, c := range w.conns {
		if c.how != "" || c.vanished || !c.end.isInf() {
			continue
		}
		c.ourClose = w.now()
		switch r.Intn(3) {
		case 0:
			c.how = "fin"
			c.c.Fin()
		case 1:
			c.how = "bye"
			c.c.Bye()
		case 2:
			c.how = "rst"
			c.c.Abort()
		}
		if r.Intn(3) == 0 {
			simrt.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
		}
	}
	simrt.Sleep(5*w.K + w.slack() + w.stalled())
	if d := w.stalled(); d > 0 {
		simrt.Sleep(d)
	}
	if s.NodeDead(simrt.NodeServer) {
		return
	}
	now := w.watchIdle()
	w.judged++
	open := 0 // connections of terminals that went away silently, as far as the platform may still wait for them
	for _, c := range w.conns {
		if c.vanished && !c.c.PeerClosed() {
			open++
		}
	}
	var left []string
	excess := 0
	for site, k := range now.live {
		b := w.idle.live[site]
		if b == 0 {
			b = 1 // what is started once and for all when first needed
		}
		if k > b {
			excess += k - b
			left = append(left, fmt.Sprintf("%d started at %s", k-b, site))
		}
	}
	sort.Strings(left)
	if excess > open*w.perConn {
		w.fail("C19", "left-running", "%d goroutines are left although all terminals are gone and removed (%d of their connections may still be waited for): %s", excess, open, strings.Join(left, ", "))
	}
	if now.started > w.idle.started+3 {
		w.fail("C19", "left-timers", "all terminals are gone and removed, but within 5 minutes %d goroutines were started, %d before they came", now.started, w.idle.started)
	}
	if held, all := w.n.Forget(simrt.NodeServer); len(held) > w.n.Peak+1 { // places that were in use at the same time need not have been cleared
		w.fail("C19 C14", "left-held", "all terminals are gone and removed, but of %d ended connections the platform still holds on to %d: %s", all, len(held), strings.Join(held, ", "))
	}
	if now.runs > 2*w.idle.runs+60 {
		w.fail("C19", "left-busy", "all terminals are gone and removed, but within 5 minutes goroutines ran %d times, %d before they came", now.runs, w.idle.runs)
	}
}

// idle is what the platform does for five minutes when no terminal is there.
type idle struct {
	live          map[string]int // goroutines by where they were started
	started, runs int
}

func (w *World) watchIdle() *idle {
	x := &idle{live: map[string]int{}}
	n := 0
	for _, g := range w.s.Gs(simrt.NodeServer) {
		n++
		x.runs -= g.Runs
	}
	simrt.Sleep(5 * time.Minute)
	for i, g := range w.s.Gs(simrt.NodeServer) {
		x.runs += g.Runs
		if g.Name != "go" {
			continue
		}
		if i >= n {
			x.started++
		}
		if g.Live() {
			x.live[g.Site]++
		}
	}
	return x
}

// goroutines counts the goroutines of the platform.
func (w *World) goroutines() (n int) {
	for _, g := range w.s.Gs(simrt.NodeServer) {
		if g.Name == "go" && g.Live() {
			n++
		}
	}
	return
}

// warm lets one terminal come and go, so that everything that is started when first needed is there.
func (w *World) warm() {
	a := &actorState{w: w, i: len(w.sc.Actors), slots: map[int]*CRec{}}
	t := len(w.sc.Idents) - 1
	for _, k := range []string{"reg", "auth", "loc", "dereg", "fin"} {
		a.term(&Op{K: k, T: t, W: true, Seed: 1})
	}
	a.term(&Op{K: "dial", C: 1, N: 30})
	simrt.Sleep(2*time.Second + w.slack() + w.stalled())
	per := w.goroutines()
	a.term(&Op{K: "fin", C: 1})
	simrt.Sleep(4*w.K + w.slack() + w.stalled())
	w.idle = w.watchIdle()
	w.perConn = 1
	if d := per - w.goroutines(); d > 1 {
		w.perConn = d
	}
}

// playedOnly: there is no platform process, the harness plays it.
func (w *World) playedOnly() bool { return w.sc.Client != nil && !w.sc.Client.Real }

func (w *World) waitUp() bool {
	for i := 0; i < 100 && !w.up(); i++ {
		if len(w.s.Crashes) > 0 {
			return false
		}
		simrt.Sleep(100 * time.Millisecond)
	}
	return w.up()
}

// finish lets everything settle and takes the last observations.
func (w *World) finish() {
	for _, c := range w.conns {
		if c.paused {
			c.paused = false
			c.pauseTot += w.s.Now() - c.pausedAt
			c.c.Pause(false)
		}
	}
	for i := 0; i < 600; i++ { // until the terminals have read what is waiting for them
		still := false
		for _, c := range w.conns {
			if _, b := c.c.PeerBlocked(); b && !c.vanished && c.how == "" {
				still = true
			}
		}
		if !still {
			break
		}
		simrt.Sleep(time.Second)
	}
	slack := settle + 3*w.sc.Net.DelayMax
	for _, c := range w.conns {
		if d := settle + w.connSlack(c); d > slack {
			slack = d
		}
	}
	before := w.stalled()
	simrt.Sleep(slack + before)
	if d := w.stalled() - before; d > 0 {
		simrt.Sleep(d)
	}
	w.settledAt = w.now()
	if w.playedOnly() {
		return
	}
	// final observations
	w.http("list", -1, "GET", "/device", "")
	for i := range w.sc.Idents {
		if i < 12 {
			w.http("geo", i, "GET", "/device/"+w.sc.Idents[i].Phone+"/geo", "")
		}
	}
	simrt.Sleep(settle + w.stalled() + time.Duration(w.sc.Tail)*time.Millisecond)
}

func setupProcess() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout, os.Stderr = null, null // what the platform prints
	}
	zerolog.ErrorHandler = func(error) {}
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
}

// histHash condenses the observed history: what was sent and received, in order.
func (w *World) histHash() uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint64) { h = (h ^ v) * 1099511628211 }
	for _, c := range w.conns {
		for _, q := range c.tx {
			mix(uint64(q.idx))
			mix(hashStr(q.kind))
			if q.reply != nil {
				mix(uint64(q.reply.at.seq))
				mix(uint64(q.reply.res))
			}
		}
		for _, r := range c.rx {
			mix(uint64(r.m.ID)<<16 | uint64(r.m.Serial))
			mix(uint64(r.at.seq))
			mix(uint64(r.at.at))
		}
		mix(hashStr(c.endKind))
	}
	for _, x := range w.https {
		mix(uint64(x.ret.seq))
		mix(uint64(x.status))
		mix(hashStr(x.body))
	}
	return h
}
