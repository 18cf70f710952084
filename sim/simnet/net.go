//go:build go1.25

// Package simnet is the simulated TCP network: ordered byte streams with seeded
// delays, segmentation, flow control, resets, vanished peers and accept failures.
package simnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"syscall"
	"time"
	"weak"

	"github.com/fakeyanss/jt808-server-go/zzsim/simrt"
)

// Config of the network for one run.
type Config struct {
	DelayMax time.Duration // per-segment delay 0..DelayMax
	SplitPct int           // chance that a write is cut into segments
	CutPct   int           // chance that a read returns less than available
	Window   int           // receive window of server endpoints
	ShortPct int           // chance that a write takes only part of the bytes and says so
}

type Net struct {
	Cfg       Config
	listeners map[string]*Listener
	conns     []*Conn
	nextPort  int
	open      int                                  // connections open at the accepting side
	Peak      int                                  // how many of them there were at the most
	HTTPPort  string                               // where HTTP is served
	NoListen  map[string]syscall.Errno             // ports that cannot be listened on
	Dials     int                                  // connection attempts of instrumented code
	Tap       func(c *Conn, kind string, b []byte) // sees what instrumented dialers open, send, receive and close
}

func (c *Conn) tap(kind string, b []byte) {
	if c.dialed && c.n.Tap != nil {
		c.n.Tap(c, kind, b)
	}
}

// N is the network of the active run.
var N *Net

func New(cfg Config) *Net {
	if cfg.Window <= 0 {
		cfg.Window = 1 << 16
	}
	return &Net{Cfg: cfg, listeners: map[string]*Listener{}, nextPort: 40000, NoListen: map[string]syscall.Errno{}}
}

func s() *simrt.Sim { return simrt.S }

func (n *Net) delay() time.Duration {
	if n.Cfg.DelayMax <= 0 {
		return 0
	}
	return n.Cfg.DelayMax * time.Duration(s().Ch.Choose(64)) / 63
}

func parseAddr(a string) *net.TCPAddr {
	host, port, err := net.SplitHostPort(a)
	if err != nil {
		return &net.TCPAddr{}
	}
	p, _ := strconv.Atoi(port)
	ip := net.ParseIP(host)
	if ip == nil && host != "" {
		ip = net.IPv4(127, 0, 0, 1)
	}
	return &net.TCPAddr{IP: ip, Port: p}
}

// HTTPListen is what listening for HTTP on the address comes to.
func (n *Net) HTTPListen(addr string) error {
	if e := n.NoListen[portOf(addr)]; e != 0 {
		s().Count("fault:listen-error")
		return sysErr("listen", "bind", e)
	}
	n.HTTPPort = portOf(addr)
	return nil
}

func portOf(a string) string {
	h, p, err := net.SplitHostPort(a)
	if err != nil {
		return a
	}
	if ip := net.ParseIP(h); h == "localhost" || ip != nil && ip.IsLoopback() {
		return "loopback:" + p // no machine but this one gets there
	}
	return p
}

// ---------------------------------------------------------------- listener

type Listener struct {
	addr    *net.TCPAddr
	node    int
	queue   []*Conn
	errs    []error
	closed  bool
	waiters []*simrt.G
}

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }
func sysErr(op, call string, e syscall.Errno) error {
	return opErr(op, os.NewSyscallError(call, e))
}

// Listen replaces net.Listen in instrumented code.
func Listen(network, addr string) (net.Listener, error) {
	g := s().Cur()
	if g == nil {
		return nil, errors.New("simnet: Listen outside the simulation")
	}
	n := N
	p := portOf(addr)
	if l := n.listeners[p]; l != nil && !l.closed {
		return nil, sysErr("listen", "bind", syscall.EADDRINUSE)
	}
	if e := n.NoListen[p]; e != 0 {
		s().Count("fault:listen-error")
		s().SyncPoint()
		return nil, sysErr("listen", "bind", e)
	}
	l := &Listener{addr: parseAddr(addr), node: g.Node}
	n.listeners[p] = l
	s().OnDeath(g.Node, func() { l.close() })
	return l, nil
}

// ListenTCP, ListenConfig, Dialer and the like serve code that uses net's other entry points.
func ListenTCP(network string, a *net.TCPAddr) (*Listener, error) {
	l, err := Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return l.(*Listener), nil
}

type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (*ListenConfig) Listen(_ context.Context, network, addr string) (net.Listener, error) {
	return Listen(network, addr)
}

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	FallbackDelay time.Duration
	KeepAlive     time.Duration
}

func (*Dialer) Dial(network, addr string) (net.Conn, error) { return Dial(network, addr) }
func (*Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, opErr("dial", err)
	}
	return Dial(network, addr)
}

func (l *Listener) AcceptTCP() (*Conn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*Conn), nil
}

func (l *Listener) close() {
	if l.closed {
		return
	}
	l.closed = true
	for _, c := range l.queue {
		c.reset()
	}
	l.queue = nil
	l.wake()
}

func (l *Listener) wake() {
	for _, g := range l.waiters {
		s().Unpark(g)
	}
	l.waiters = nil
}

func (l *Listener) Accept() (net.Conn, error) {
	for {
		if s().Killed() {
			return nil, opErr("accept", net.ErrClosed)
		}
		s().SyncPoint()
		if l.closed {
			return nil, opErr("accept", net.ErrClosed)
		}
		if len(l.errs) > 0 {
			e := l.errs[0]
			l.errs = l.errs[1:]
			s().Count("fault:accept-error")
			return nil, e
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue[0] = nil
			l.queue = l.queue[1:]
			return c, nil
		}
		l.waiters = append(l.waiters, s().Cur())
		s().Park()
	}
}
func (l *Listener) Close() error {
	if s().Killed() {
		return nil
	}
	if l.closed {
		return opErr("close", net.ErrClosed)
	}
	l.close()
	s().SyncPoint()
	return nil
}
func (l *Listener) Addr() net.Addr { return l.addr }

// FailAccepts makes the next k accepts on the port fail with EMFILE.
func (n *Net) FailAccepts(port string, k int) {
	l := n.listeners[port]
	if l == nil || l.closed {
		return
	}
	for i := 0; i < k; i++ {
		l.errs = append(l.errs, sysErr("accept", "accept4", syscall.EMFILE))
	}
	l.wake()
}

func (n *Net) Listening(port string) bool {
	l := n.listeners[port]
	return l != nil && !l.closed
}

// ---------------------------------------------------------------- connections

type Conn struct {
	blocking      bool
	blockedSince  time.Duration
	blockedTot    time.Duration
	n             *Net
	id            int
	node          int
	laddr, raddr  *net.TCPAddr
	peer          *Conn
	rbuf          []byte
	inflight      int // bytes on their way to this endpoint
	window        int
	eof, rst      bool
	rstSeen       bool
	wrDead        bool // writes fail (peer reset)
	closed        bool
	finSent       bool
	readers       []*simrt.G
	writers       []*simrt.G // Gs of the peer waiting for space here
	wlocked       bool
	wlockq        []*simrt.G
	lastDeliver   time.Time // last scheduled delivery of what this endpoint sent
	frozen        time.Time
	blackhole     bool
	outq          []outEv
	paused        bool
	onData        func([]byte)
	onEnd         func(string)
	ended         bool
	rdl, wdl      time.Time
	closedByLocal time.Duration
	resetAt       time.Duration
	dialed        bool
	accepted      bool // the accepting end
}

func (c *Conn) wakeReaders() {
	for _, g := range c.readers {
		s().Unpark(g)
	}
	c.readers = nil
}
func (c *Conn) wakeWriters() {
	for _, g := range c.writers {
		s().Unpark(g)
	}
	c.writers = nil
}

func (n *Net) pair(port string, client *net.TCPAddr, node int) (cl, sv *Conn, err error) {
	l := n.listeners[port]
	if l == nil || l.closed || s().NodeDead(l.node) {
		return nil, nil, sysErr("dial", "connect", syscall.ECONNREFUSED)
	}
	if client == nil {
		n.nextPort++
		client = &net.TCPAddr{IP: net.IPv4(10, 0, 0, 9), Port: n.nextPort}
	}
	la := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: l.addr.Port}
	cl = &Conn{n: n, id: len(n.conns), node: node, laddr: client, raddr: la, window: 1 << 16}
	sv = &Conn{n: n, id: len(n.conns) + 1, node: l.node, laddr: la, raddr: client, window: n.Cfg.Window, accepted: true}
	cl.peer, sv.peer = sv, cl
	n.conns = append(n.conns, cl, sv)
	if n.open++; n.open > n.Peak {
		n.Peak = n.open
	}
	id := sv.id
	s().OnDeath(l.node, func() { n.conns[id].processDied() })
	if node != simrt.NodeHarness {
		s().OnDeath(node, func() { cl.processDied() })
	}
	l.queue = append(l.queue, sv)
	l.wake()
	return cl, sv, nil
}

// Connect is used by harness terminals; addr may be reused after a reset.
func (n *Net) Connect(port, from string) (*Conn, error) {
	var a *net.TCPAddr
	if from != "" {
		a = parseAddr(from)
	}
	c, _, err := n.pair(port, a, simrt.NodeHarness)
	return c, err
}

// Dial replaces net.Dial in instrumented code.
func Dial(network, addr string) (net.Conn, error) {
	g := s().Cur()
	if g == nil {
		return nil, errors.New("simnet: Dial outside the simulation")
	}
	if g2 := s().Killed(); g2 {
		return nil, net.ErrClosed
	}
	simrt.Sleep(time.Millisecond + N.delay())
	N.Dials++
	c, _, err := N.pair(portOf(addr), nil, g.Node)
	if err != nil {
		s().Count("fault:connect-refused")
		return nil, err
	}
	c.dialed = true
	c.tap("open", nil)
	return c, nil
}
func DialTimeout(network, addr string, _ time.Duration) (net.Conn, error) { return Dial(network, addr) }
func DialTCP(network string, _, r *net.TCPAddr) (*Conn, error) {
	c, err := Dial(network, r.String())
	if err != nil {
		return nil, err
	}
	return c.(*Conn), nil
}

func (c *Conn) Local() string  { return c.laddr.String() }
func (c *Conn) Remote() string { return c.raddr.String() }

// transmit schedules fn at the peer in stream order.
func (c *Conn) transmit(d time.Duration, fn func()) {
	at := time.Now().Add(d)
	if at.Before(c.lastDeliver) {
		at = c.lastDeliver
	}
	c.lastDeliver = at
	c.outq = append(c.outq, outEv{at, fn})
	s().After(time.Until(at), c.pump)
}

type outEv struct {
	at time.Time
	fn func()
}

// pump delivers what is due, in order.
func (c *Conn) pump() {
	for len(c.outq) > 0 && !c.outq[0].at.After(time.Now()) {
		if c.blackhole || c.peer.blackhole {
			c.outq = nil
			return
		}
		f := c.frozen
		if c.peer.frozen.After(f) {
			f = c.peer.frozen
		}
		if f.After(time.Now()) {
			s().After(time.Until(f), c.pump)
			return
		}
		fn := c.outq[0].fn
		c.outq[0].fn = nil
		c.outq = c.outq[1:]
		fn()
	}
}

func (c *Conn) sendSeg(b []byte) {
	p := c.peer
	p.inflight += len(b)
	c.transmit(c.n.delay(), func() { p.deliver(b) })
}

func (c *Conn) deliver(b []byte) {
	c.inflight -= len(b)
	if c.rst {
		return
	}
	if c.closed {
		// data for a closed socket: the kernel answers with a reset
		p := c.peer
		c.transmit(0, func() { p.gotReset() })
		return
	}
	c.tap("rx", b)
	c.rbuf = append(c.rbuf, b...)
	c.consume()
	c.wakeReaders()
}

func (c *Conn) consume() {
	if c.onData != nil && !c.paused && len(c.rbuf) > 0 {
		b := c.rbuf
		c.rbuf = nil
		c.onData(b)
		c.wakeWriters()
	}
	if c.onEnd != nil && !c.paused && len(c.rbuf) == 0 && !c.ended {
		if c.rst {
			c.ended = true
			c.onEnd("rst")
		} else if c.eof {
			c.ended = true
			c.onEnd("fin")
		}
	}
}

func (c *Conn) gotFin() {
	if c.rst || c.closed {
		return
	}
	c.eof = true
	c.tap("fin", nil)
	c.consume()
	c.wakeReaders()
}

func (c *Conn) gotReset() {
	if c.rst {
		return
	}
	c.wrDead = true
	c.resetAt = s().Now()
	c.tap("rst", nil)
	if !c.eof {
		c.rst = true
	}
	c.consume()
	c.wakeReaders()
	c.peer.wakeWriters()
	c.wakeLockers()
}

func (c *Conn) wakeLockers() {
	for _, g := range c.wlockq {
		s().Unpark(g)
	}
	c.wlockq = nil
}

func (c *Conn) sendFin() {
	if c.finSent {
		return
	}
	c.finSent = true
	p := c.peer
	c.transmit(0, func() { p.gotFin() })
}

func (c *Conn) reset() {
	p := c.peer
	c.finSent = true
	c.transmit(0, func() { p.gotReset() })
}

func (c *Conn) doClose() {
	if c.closed {
		return
	}
	c.closed = true
	c.closedByLocal = s().Now()
	if c.accepted {
		c.n.open--
	}
	c.tap("close", nil)
	if len(c.rbuf) > 0 {
		c.rbuf = nil
		c.reset()
	} else {
		c.sendFin()
	}
	c.wakeReaders()
	c.peer.wakeWriters() // our writers wait for space at the peer
	c.wakeLockers()
	c.wakeWriters()
}

func (c *Conn) processDied() {
	if !c.closed {
		c.doClose()
	}
}

// ---- net.Conn

func (c *Conn) Read(p []byte) (int, error) {
	for {
		if s().Killed() {
			return 0, opErr("read", net.ErrClosed)
		}
		s().SyncPoint()
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.rbuf) > 0 {
			k := len(c.rbuf)
			if k > len(p) {
				k = len(p)
			}
			if k > 1 && c.n.Cfg.CutPct > 0 && s().Ch.Choose(100) >= 100-c.n.Cfg.CutPct {
				k = 1 + s().Ch.Choose(k)
				s().Count("fault:short-read")
			}
			copy(p, c.rbuf[:k])
			c.rbuf = c.rbuf[k:]
			c.wakeWriters()
			return k, nil
		}
		if c.rst {
			if !c.rstSeen {
				c.rstSeen = true
				s().Count("fault:read-reset")
				return 0, sysErr("read", "read", syscall.ECONNRESET)
			}
			return 0, io.EOF
		}
		if c.eof {
			return 0, io.EOF
		}
		c.readers = append(c.readers, s().Cur())
		s().Park()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	if s().Killed() {
		return 0, opErr("write", net.ErrClosed)
	}
	s().SyncPoint()
	for c.wlocked {
		if c.closed {
			return 0, opErr("write", net.ErrClosed)
		}
		c.wlockq = append(c.wlockq, s().Cur())
		s().Park()
		if s().Killed() {
			return 0, opErr("write", net.ErrClosed)
		}
	}
	c.wlocked = true
	defer func() {
		c.wlocked = false
		if !s().Killed() {
			c.wakeLockers()
			s().SyncPoint()
		}
	}()
	done := 0
	for {
		if s().Killed() || c.closed || c.finSent {
			return done, opErr("write", net.ErrClosed)
		}
		if c.wrDead {
			s().Count("fault:write-epipe")
			return done, sysErr("write", "write", syscall.EPIPE)
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return done, opErr("write", os.ErrDeadlineExceeded)
		}
		if done == len(p) {
			return done, nil
		}
		space := c.peer.window - c.peer.inflight - len(c.peer.rbuf)
		if space <= 0 {
			s().Count("fault:window-full")
			c.peer.writers = append(c.peer.writers, s().Cur())
			t0 := s().Now()
			c.blockedSince, c.blocking = t0, true
			s().Park()
			c.blocking = false
			c.blockedTot += s().Now() - t0
			continue
		}
		k := len(p) - done
		if n := c.n.Cfg.ShortPct; n > 0 && k > 1 && s().Ch.Choose(100) >= 100-n {
			k = 1 + s().Ch.Choose(k-1)
			if k > space {
				k = space
			}
			s().Count("fault:short-write")
			c.tap("tx", p[done:done+k])
			c.sendSplit(p[done : done+k])
			return done + k, nil
		}
		if k > space {
			k = space
		}
		c.tap("tx", p[done:done+k])
		c.sendSplit(p[done : done+k])
		done += k
	}
}

// sendSplit cuts b into segments as the scheduler decides.
func (c *Conn) sendSplit(b []byte) {
	for len(b) > 0 {
		k := len(b)
		if k > 1 && c.n.Cfg.SplitPct > 0 && s().Ch.Choose(100) >= 100-c.n.Cfg.SplitPct {
			k = 1 + s().Ch.Choose(k-1)
			s().Count("fault:segment-split")
		}
		c.sendSeg(append([]byte(nil), b[:k]...))
		b = b[k:]
	}
}

func (c *Conn) Close() error {
	if s().Killed() {
		return nil
	}
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.doClose()
	s().SyncPoint()
	return nil
}
func (c *Conn) CloseWrite() error {
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.sendFin()
	return nil
}
func (c *Conn) LocalAddr() net.Addr  { return c.laddr }
func (c *Conn) RemoteAddr() net.Addr { return c.raddr }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl = t
	if !t.IsZero() && s() != nil {
		d := simrt.Until(t)
		c.rdl = time.Now().Add(d)
		s().After(d, func() { c.wakeReaders() })
	}
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wdl = t
	if !t.IsZero() && s() != nil {
		d := simrt.Until(t)
		c.wdl = time.Now().Add(d)
		s().After(d, func() { c.peer.wakeWriters() })
	}
	return nil
}
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) SetLinger(int) error                    { return nil }
func (c *Conn) SetReadBuffer(int) error                { return nil }
func (c *Conn) SetWriteBuffer(int) error               { return nil }

// ---- harness side (event-driven endpoint)

// Attach delivers everything this endpoint receives to callbacks.
func (c *Conn) Attach(onData func([]byte), onEnd func(string)) {
	c.onData, c.onEnd = onData, onEnd
	c.consume()
}

// SetWindow limits how much the peer may have outstanding.
func (c *Conn) SetWindow(w int) { c.window = w }

// Pause stops (or resumes) consuming received bytes: a stalled reader.
func (c *Conn) Pause(p bool) {
	c.paused = p
	if !p {
		c.consume()
	}
}

// Put sends bytes without blocking; it reports false if the connection is unusable.
func (c *Conn) Put(b []byte) bool {
	if c.closed || c.finSent || c.wrDead {
		return false
	}
	c.sendSplit(b)
	return true
}

// PutSeg sends b as exactly one segment.
func (c *Conn) PutSeg(b []byte) bool {
	if c.closed || c.finSent || c.wrDead {
		return false
	}
	c.sendSeg(append([]byte(nil), b...))
	return true
}

// Fin closes the sending direction only; Abort resets; Bye closes cleanly; Vanish loses the peer silently.
func (c *Conn) Fin() {
	if !c.closed {
		c.sendFin()
	}
}
func (c *Conn) Abort() {
	if !c.closed {
		c.closed = true
		c.rbuf = nil
		c.reset()
		c.peer.blackholeIn()
	}
}
func (c *Conn) blackholeIn() {}
func (c *Conn) Bye() {
	if !c.closed {
		c.doClose()
	}
}
func (c *Conn) Vanish()                { c.blackhole = true }
func (c *Conn) Freeze(d time.Duration) { c.frozen = time.Now().Add(d) }

// PeerBlocked is how long the other side's writers have waited for our receive window.
func (c *Conn) PeerBlocked() (d time.Duration, still bool) {
	p := c.peer
	d = p.blockedTot
	if p.blocking && !p.closed {
		d += s().Now() - p.blockedSince
	}
	return d, p.blocking && !p.closed
}

// Forget drops what the simulated kernel knows of the connections the node has closed,
// and returns how many of them its code still holds on to, and how many there were.
func (n *Net) Forget(node int) (held []string, all int) {
	var ws []weak.Pointer[Conn]
	var names []string
	for i, c := range n.conns {
		if c.node != node || !c.closed || c.dialed {
			continue
		}
		ws = append(ws, weak.Make(c))
		names = append(names, c.raddr.String())
		d := *c
		d.readers, d.writers, d.wlockq, d.outq = nil, nil, nil, nil
		c.peer.peer = &d
		if len(c.peer.outq) == 0 {
			c.peer.outq = nil
		}
		n.conns[i] = &d
	}
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	for i, p := range ws {
		if p.Value() != nil {
			held = append(held, names[i])
		}
	}
	return held, len(ws)
}

func (c *Conn) PeerClosed() bool            { return c.peer.closed }
func (c *Conn) PeerClosedAt() time.Duration { return c.peer.closedByLocal }

// PeerResetAt is when the other side learnt that this one had reset the connection.
func (c *Conn) PeerResetAt() (time.Duration, bool) { return c.peer.resetAt, c.peer.wrDead }
func (c *Conn) Usable() bool                       { return !c.closed && !c.finSent && !c.wrDead }
func (c *Conn) String() string                     { return fmt.Sprintf("conn%d(%s->%s)", c.id, c.laddr, c.raddr) }
