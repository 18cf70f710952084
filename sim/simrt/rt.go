//go:build go1.21

// Package simrt is the deterministic simulation runtime.  Exactly one simulated
// goroutine (G) runs at a time; a seeded scheduler decides which one, where it is
// preempted, and when simulated time moves.  The runtime lives inside a
// testing/synctest bubble, so that time.Now, timers and tickers are simulated too.
package simrt

import (
	"container/heap"
	"context"
	"fmt"
	"github.com/rs/zerolog"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// Node identifiers: which simulated process a G belongs to.
const (
	NodeHarness = 0
	NodeServer  = 1
	NodeClient  = 2 // 2,3,... simulated terminal-simulator processes
)

type gstate int

const (
	gRunning gstate = iota
	gReady
	gParked
	gExtern // blocked in a real channel operation
	gDone
)

// G is one simulated goroutine.
type G struct {
	ID      int
	Node    int
	Name    string
	Site    string // the go statement that started it
	Runs    int    // how often it was scheduled
	resume  chan struct{}
	kill    chan struct{}
	killed  bool
	state   gstate
	epoch   int64
	prio    int64
	notBefo time.Time
	crashed bool
	wakeTok uint64
}

// Choices is the source of every scheduling decision.  A recorded sequence of
// choices replays a run; 0 is always the plainest decision.
type Choices struct {
	Rng    *Rand
	Replay map[int]int // index -> value, non-zero entries only; nil when generating
	N      int
	Rec    []Choice
}

type Choice struct{ I, V int }

func (c *Choices) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	i := c.N
	c.N++
	var v int
	if c.Replay != nil {
		v = c.Replay[i]
		if v >= n {
			v = n - 1
		}
	} else {
		v = c.Rng.Intn(n)
	}
	if v != 0 {
		c.Rec = append(c.Rec, Choice{i, v})
	}
	return v
}

// Config: scheduling policy of one run.
type Config struct {
	Policy      int // 0 uniform, 1 sticky, 2 priorities
	PreemptMean int // mean number of statements between preemptions, 0 = never
	SyncPct     int // chance (percent) of a preemption at a synchronisation or I/O point
	MapPct      int // chance (percent) of a preemption inside a map access
	StallPm     int // chance (per mille) at a sync point of stalling the running server goroutine
	StallMax    time.Duration
	DiskPm      int // chance (per mille) of a fault when a log line is written
	MaxSlices   int
	MaxY        int64
}

type event struct {
	at  time.Time
	seq uint64
	fn  func()
}
type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if !h[i].at.Equal(h[j].at) {
		return h[i].at.Before(h[j].at)
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x interface{}) { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	return x
}

// Crash describes the death of a simulated process.
type Crash struct {
	Node int
	Why  string
	At   time.Duration
}

type nodeState struct {
	dead    bool
	exiting bool
	onDeath []func()
}

// Sim is one simulated execution.
type Sim struct {
	Sites bool // remember where goroutines were started
	Cfg   Config
	Ch    *Choices

	fired   []firing
	fireSeq int

	mu    sync.Mutex
	cur   *G
	gs    []*G
	el    []*G // scratch
	ready []*G
	ctl   chan struct{}
	wake  chan struct{}
	epoch int64
	evs   eventHeap
	evSeq uint64
	start time.Time

	nodes   map[int]*nodeState
	Crashes []Crash
	// HTTPListen, if set, decides whether an HTTP server can listen on the address.
	HTTPListen func(addr string) error

	hard     bool  // short stretches are the rule
	yLeft    int64 // statements until preemption; <0: unlimited
	yTotal   int64
	ySlice   int64
	Slices   int
	sameTime int
	lastNow  time.Time

	Stop     bool
	Runaway  bool
	hash     uint64
	Switches int
	Stats    map[string]int
	Probes   map[string]int
	mapWin   map[uintptr]*mapWindow
	opSeq    int64
	HTTP     map[int]interface{}
	Trace    []string
	TraceOn  bool
	inCtl    bool

	Skew       [8]time.Duration // how wrong the wall clock of each node is
	StallTotal time.Duration    // sum of all injected goroutine stalls
}

// S is the active simulation, nil outside runs.
var S *Sim

func New(cfg Config, ch *Choices) *Sim {
	s := &Sim{Cfg: cfg, Ch: ch, ctl: make(chan struct{}, 1), wake: make(chan struct{}, 1),
		nodes: map[int]*nodeState{}, Stats: map[string]int{}, Probes: map[string]int{},
		mapWin: map[uintptr]*mapWindow{}, start: time.Now(), hash: 14695981039346656037, HTTP: map[int]interface{}{}}
	s.lastNow = s.start
	s.rearm()
	return s
}

func (s *Sim) node(n int) *nodeState {
	ns := s.nodes[n]
	if ns == nil {
		ns = &nodeState{}
		s.nodes[n] = ns
	}
	return ns
}

func (s *Sim) Now() time.Duration { return time.Since(s.start) }
func (s *Sim) NextSeq() int64     { s.opSeq++; return s.opSeq }
func (s *Sim) Hash() uint64       { return s.hash }
func (s *Sim) mix(v uint64) {
	s.hash ^= v
	s.hash *= 1099511628211
}
func (s *Sim) Mix(v uint64) { s.mix(v) }

func (s *Sim) Tracef(f string, a ...interface{}) {
	if s.TraceOn {
		s.Trace = append(s.Trace, fmt.Sprintf("%12.6f ", s.Now().Seconds())+fmt.Sprintf(f, a...))
	}
}

func (s *Sim) Count(k string) { s.Stats[k]++ }
func (s *Sim) Probe(k string) { s.Probes[k]++ }

// Cur returns the running G (nil when the controller or nothing runs).
func (s *Sim) Cur() *G {
	if s == nil || s.inCtl {
		return nil
	}
	return s.cur
}

// Pressure changes how often goroutines are preempted from here on.
func (s *Sim) Pressure(mean, sync int) {
	s.Cfg.PreemptMean, s.Cfg.SyncPct, s.hard = mean, sync, true
	s.rearm()
}

func (s *Sim) rearm() {
	m := s.Cfg.PreemptMean
	if m <= 0 {
		s.yLeft = -1
		return
	}
	v := 0
	if s.hard {
		if v = s.Ch.Choose(20 * m); v > 0 {
			v = 1 + v%(2*m)
		}
	} else {
		v = s.Ch.Choose(2 * m)
	}
	if v == 0 {
		s.yLeft = int64(50 * m)
	} else {
		s.yLeft = int64(v)
	}
}

// At schedules fn to run on the controller after d.
func (s *Sim) After(d time.Duration, fn func()) {
	if d < 0 {
		d = 0
	}
	s.evSeq++
	heap.Push(&s.evs, &event{time.Now().Add(d), s.evSeq, fn})
}

// Go starts a G on the node of the running G.
func Go(fn func()) {
	s := S
	if s == nil {
		return
	}
	g := s.Cur()
	node := NodeHarness
	if g != nil {
		if g.killed {
			return
		}
		node = g.Node
	}
	ng := s.Spawn(node, "go", fn)
	if s.Sites {
		_, file, line, _ := runtime.Caller(1)
		ng.Site = fmt.Sprintf("%s:%d", file[strings.LastIndexByte(file, '/')+1:], line)
	}
	s.SyncPoint()
}

// Spawn starts a G on the given node.
func (s *Sim) Spawn(node int, name string, fn func()) *G {
	g := &G{ID: len(s.gs), Node: node, Name: name, resume: make(chan struct{}, 1), kill: make(chan struct{})}
	if s.node(node).dead {
		g.state = gDone
		return g
	}
	if s.Cfg.Policy == 2 {
		g.prio = int64(s.Ch.Choose(1 << 16))
	}
	s.gs = append(s.gs, g)
	s.makeReady(g)
	go func() {
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil && !g.killed {
					s.crash(g.Node, fmt.Sprintf("panic in goroutine: %v\n%s", r, trimStack(debug.Stack())))
				}
			}
			s.mu.Lock()
			g.state = gDone
			s.mu.Unlock()
			s.ctl <- struct{}{}
		}()
		select {
		case <-g.resume:
		case <-g.kill:
			g.resume = nil
			runtime.Goexit()
		}
		fn()
		normal = true
	}()
	return g
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "jt808-server-go/") && !strings.Contains(l, "zzsim/simrt") && !strings.HasPrefix(l, "\t") {
			out = append(out, strings.TrimSpace(l)+" "+strings.TrimSpace(lines[i+1]))
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (s *Sim) crash(node int, why string) {
	ns := s.node(node)
	if ns.dead {
		return
	}
	s.Crashes = append(s.Crashes, Crash{node, why, s.Now()})
	s.Tracef("CRASH node=%d %s", node, why)
	ns.dead = true
}

// Fatal ends the current node's process like a Go fatal error would.
func (s *Sim) Fatal(why string) {
	g := s.Cur()
	if g == nil || g.killed {
		return
	}
	s.crash(g.Node, "fatal error: "+why+"\n"+trimStack(debug.Stack()))
	g.killed = true
	runtime.Goexit()
}

// Exit is the simulated os.Exit.
func Exit(code int) {
	s := S
	if s == nil {
		os.Exit(code)
	}
	g := s.Cur()
	if g == nil {
		os.Exit(code)
	}
	if g.killed {
		runtime.Goexit()
	}
	s.crash(g.Node, fmt.Sprintf("process exit status %d\n%s", code, trimStack(debug.Stack())))
	g.killed = true
	runtime.Goexit()
}

// LogFatal is the simulated log.Fatal of zerolog, whose message ends the process.
func LogFatal() *zerolog.Event {
	Exit(1)
	return nil
}

func (s *Sim) makeReady(g *G) {
	s.mu.Lock()
	if g.state == gParked || g.state == gRunning || g.state == gExtern {
		g.state = gReady
		g.epoch = s.epoch
		s.ready = append(s.ready, g)
	}
	s.mu.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

// yieldTo hands control to the controller and waits to be resumed.
func (g *G) waitResume() {
	select {
	case <-g.resume:
	case <-g.kill:
		g.killed = true
		runtime.Goexit()
	}
}

// Gate makes the running G ready and lets the scheduler choose.
func (s *Sim) gate(g *G) {
	s.makeReady(g)
	s.ctl <- struct{}{}
	g.waitResume()
}

// Park blocks the running G until Unpark.
func (s *Sim) Park() {
	g := s.Cur()
	if g == nil || g.killed {
		return
	}
	s.mu.Lock()
	g.state = gParked
	s.mu.Unlock()
	s.ctl <- struct{}{}
	g.waitResume()
}

func (s *Sim) Unpark(g *G) {
	if g.state == gParked {
		s.makeReady(g)
	}
}

// extern runs a possibly blocking real channel operation.
func (s *Sim) externBegin(g *G) {
	s.mu.Lock()
	g.state = gExtern
	s.mu.Unlock()
	s.ctl <- struct{}{}
}
func (s *Sim) externEnd(g *G) {
	s.makeReady(g)
	g.waitResume()
}

// Y is inserted before every statement of instrumented code.
func Y() {
	s := S
	if s == nil || s.inCtl {
		return
	}
	s.yTotal++
	s.ySlice++
	if s.yLeft > 0 {
		if g := s.cur; g == nil || g.killed {
			return
		}
		s.yLeft--
		if s.yLeft == 0 {
			g := s.cur
			s.Stats["preempt"]++
			s.rearm() // before others run: they can be preempted too
			if s.Cfg.StallPm > 0 && g.Node != NodeHarness && s.StallTotal < 4*s.Cfg.StallMax && s.Ch.Choose(1000) >= 1000-s.Cfg.StallPm {
				d := time.Duration(1+s.Ch.Choose(1000)) * s.Cfg.StallMax / 1000
				g.notBefo = time.Now().Add(d)
				s.StallTotal += d
				s.Stats["fault:preempted-for-long"]++
			}
			s.gate(g)
		}
	}
	if s.ySlice > 200000 {
		g := s.cur
		if g == nil || g.killed {
			return
		}
		s.sameTime += 100000
		s.gate(g)
	}
}

// SyncPoint is a scheduling point at synchronisation and I/O operations.
func (s *Sim) SyncPoint() {
	g := s.Cur()
	if g == nil || g.killed {
		return
	}
	if s.Cfg.SyncPct > 0 && s.Ch.Choose(100) >= 100-s.Cfg.SyncPct {
		if s.Cfg.StallPm > 0 && g.Node != NodeHarness && s.Ch.Choose(1000) >= 1000-s.Cfg.StallPm {
			d := time.Duration(1+s.Ch.Choose(1000)) * s.Cfg.StallMax / 1000
			g.notBefo = time.Now().Add(d)
			s.StallTotal += d
			s.Stats["fault:goroutine-stall"]++
		}
		s.gate(g)
	}
}

// Yield always offers the scheduler a choice.
func (s *Sim) Yield() {
	g := s.Cur()
	if g == nil || g.killed {
		return
	}
	s.gate(g)
}

// Killed reports whether the running G is being torn down.
func (s *Sim) Killed() bool {
	g := s.Cur()
	return g != nil && g.killed
}

// Sleep suspends the running G for d of simulated time.
func Sleep(d time.Duration) {
	s := S
	g := s.Cur()
	if s == nil || g == nil {
		return
	}
	if g.killed {
		return
	}
	if d <= 0 {
		s.SyncPoint()
		return
	}
	done := false
	s.After(d, func() { done = true; s.Unpark(g) })
	for !done {
		s.Park()
		if g.killed {
			return
		}
	}
}

// AfterFunc runs f in its own simulated goroutine when d has passed.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	return time.AfterFunc(d, callback(f))
}

// CtxAfterFunc replaces context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	return context.AfterFunc(ctx, callback(f))
}

// callback makes a function that real goroutines call (of timers, of contexts)
// one that runs as a G of the node that asked for it.
func callback(f func()) func() {
	s := S
	if s == nil {
		return f
	}
	node := NodeHarness
	if g := s.Cur(); g != nil {
		node = g.Node
	}
	s.fireSeq++
	c := firing{s.fireSeq, node, s.node(node), f}
	return func() {
		s.mu.Lock()
		s.fired = append(s.fired, c)
		s.mu.Unlock()
		select {
		case s.wake <- struct{}{}:
		default:
		}
	}
}

type firing struct {
	seq  int
	node int
	ns   *nodeState
	f    func()
}

func (s *Sim) startFired() {
	s.mu.Lock()
	l := s.fired
	s.fired = nil
	s.mu.Unlock()
	sort.SliceStable(l, func(i, j int) bool { return l[i].seq < l[j].seq })
	for _, c := range l {
		if s.node(c.node) == c.ns { // not of a process that was killed
			s.Spawn(c.node, "callback", c.f)
		}
	}
}

// Run drives the simulation until Stop is set or the time limit is reached.
func (s *Sim) Run(limit time.Duration) {
	end := s.start.Add(limit)
	for !s.Stop {
		synctest.Wait()
		s.epoch++
		s.reapDead()
		s.startFired()
		s.runDueEvents()
		if s.Stop {
			break
		}
		g := s.pick()
		now := time.Now()
		if !now.Equal(s.lastNow) {
			s.lastNow = now
			s.sameTime = 0
		}
		if g != nil && s.sameTime > 20000 {
			// CPU is not infinitely fast: let time move under sustained load.
			s.sameTime = 0
			s.idle(now.Add(time.Millisecond))
			s.unpick(g)
			continue
		}
		if g == nil {
			if !now.Before(end) {
				return
			}
			until := end
			if len(s.evs) > 0 && s.evs[0].at.Before(until) {
				until = s.evs[0].at
			}
			for _, r := range s.ready {
				if r.notBefo.After(now) && r.notBefo.Before(until) {
					until = r.notBefo
				}
			}
			s.idle(until)
			continue
		}
		s.Slices++
		s.sameTime++
		s.runG(g)
		if s.Slices > s.Cfg.MaxSlices || s.yTotal > s.Cfg.MaxY {
			s.Runaway = true
			return
		}
		if !time.Now().Before(end) {
			return
		}
	}
}

func (s *Sim) idle(until time.Time) {
	d := time.Until(until)
	if d <= 0 {
		return
	}
	select {
	case <-s.wake:
	default:
	}
	t := time.NewTimer(d)
	select {
	case <-s.wake:
	case <-t.C:
	}
	t.Stop()
}

func (s *Sim) runDueEvents() {
	for len(s.evs) > 0 && !s.evs[0].at.After(time.Now()) {
		e := heap.Pop(&s.evs).(*event)
		s.inCtl = true
		e.fn()
		s.inCtl = false
	}
}

func (s *Sim) runG(g *G) {
	if s.cur != g {
		s.Switches++
	}
	s.mix(uint64(g.ID) + 1)
	s.cur = g
	g.Runs++
	s.ySlice = 0
	g.state = gRunning
	g.resume <- struct{}{}
	<-s.ctl
}

func (s *Sim) unpick(g *G) {
	s.mu.Lock()
	g.state = gReady
	s.ready = append(s.ready, g)
	s.mu.Unlock()
}

func (s *Sim) pick() *G {
	s.mu.Lock()
	defer s.mu.Unlock()
	now := time.Now()
	// kept sorted by (epoch, ID), so this is cheap
	rd := s.ready
	for i := 1; i < len(rd); i++ {
		x := rd[i]
		j := i
		for j > 0 && (rd[j-1].epoch > x.epoch || rd[j-1].epoch == x.epoch && rd[j-1].ID > x.ID) {
			rd[j] = rd[j-1]
			j--
		}
		rd[j] = x
	}
	cur := s.cur
	el := s.el[:0]
	for _, g := range rd {
		if g == cur && !g.notBefo.After(now) {
			el = append(el, g)
		}
	}
	for _, g := range rd {
		if g != cur && !g.notBefo.After(now) {
			el = append(el, g)
		}
	}
	s.el = el
	if len(el) == 0 {
		return nil
	}
	var g *G
	switch {
	case len(el) == 1:
		g = el[0]
	case s.Cfg.Policy == 2:
		g = el[0]
		if el[0] == cur { // being preempted: sometimes drop below the others
			if s.Ch.Choose(4) == 3 {
				cur.prio = -int64(s.Slices)
			}
		}
		for _, x := range el {
			if x.prio > g.prio {
				g = x
			}
		}
	case s.Cfg.Policy == 1:
		k := s.Ch.Choose(5 * len(el))
		if k < len(el)*4 {
			g = el[0]
		} else {
			g = el[k%len(el)]
		}
	default:
		g = el[s.Ch.Choose(len(el))]
	}
	for i, x := range s.ready {
		if x == g {
			s.ready = append(s.ready[:i], s.ready[i+1:]...)
			break
		}
	}
	return g
}

// OnDeath registers a callback for the end (crash or kill) of a node's process.
func (s *Sim) OnDeath(node int, f func()) {
	ns := s.node(node)
	ns.onDeath = append(ns.onDeath, f)
}

func (s *Sim) NodeDead(node int) bool { return s.node(node).dead }

// reapDead removes the goroutines of crashed processes.
func (s *Sim) reapDead() {
	for _, n := range []int{NodeServer, NodeClient, NodeClient + 1, NodeClient + 2} {
		ns := s.nodes[n]
		if ns != nil && ns.dead && !ns.exiting {
			ns.exiting = true
			s.KillNode(n)
		}
	}
}

// KillNode ends every goroutine of the node; called by the controller or from events.
func (s *Sim) KillNode(node int) {
	ns := s.node(node)
	ns.dead = true
	ns.exiting = true
	saved, savedCtl := s.cur, s.inCtl
	s.inCtl = false
	for i := 0; i < len(s.gs); i++ {
		if s.gs[i].Node == node {
			s.killG(s.gs[i])
		}
	}
	s.inCtl = true
	for _, f := range ns.onDeath {
		f()
	}
	ns.onDeath = nil
	s.cur, s.inCtl = saved, savedCtl
	delete(s.HTTP, node)
	if s.cur != nil && s.cur.state == gDone {
		s.cur = nil
	}
}

// Revive allows a node to be started again.
func (s *Sim) Revive(node int) { s.nodes[node] = &nodeState{} }

func (s *Sim) killG(g *G) {
	s.mu.Lock()
	if g.state == gDone {
		s.mu.Unlock()
		return
	}
	for i, x := range s.ready {
		if x == g {
			s.ready = append(s.ready[:i], s.ready[i+1:]...)
			break
		}
	}
	s.mu.Unlock()
	g.killed = true
	s.cur = g
	close(g.kill)
	<-s.ctl
	synctest.Wait()
}

// Teardown ends all goroutines; called once by the controller after Run.
func (s *Sim) Teardown() {
	s.inCtl = false
	for i := 0; i < len(s.gs); i++ {
		s.node(s.gs[i].Node).dead = true
		s.killG(s.gs[i])
	}
	s.cur = nil
}

// Gs returns the goroutines a node has started so far.
func (s *Sim) Gs(node int) (l []*G) {
	for _, g := range s.gs {
		if g.Node == node {
			l = append(l, g)
		}
	}
	return l
}

func (g *G) Live() bool { return g.state != gDone && !g.killed }

// Live counts goroutines of a node that have not ended.
func (s *Sim) Live(node int) int {
	n := 0
	for _, g := range s.gs {
		if g.Node == node && g.state != gDone {
			n++
		}
	}
	return n
}

func (s *Sim) YTotal() int64 { return s.yTotal }
