//go:build go1.21

// Package simsync replaces package sync in instrumented code: the same API, with
// blocking and hand-over decided by the simulation scheduler.
package simsync

import (
	"sync"

	"github.com/fakeyanss/jt808-server-go/zzsim/simrt"
)

type Locker = sync.Locker

type Mutex struct {
	locked  bool
	waiters []*simrt.G
}

func wakeAll(ws *[]*simrt.G) {
	for _, g := range *ws {
		simrt.S.Unpark(g)
	}
	*ws = nil
}

func (m *Mutex) Lock() {
	s := simrt.S
	if s.Cur() == nil {
		m.locked = true
		return
	}
	if s.Killed() {
		return
	}
	s.SyncPoint()
	for m.locked {
		s.Count("contended-lock")
		m.waiters = append(m.waiters, s.Cur())
		s.Park()
		if s.Killed() {
			return
		}
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	s := simrt.S
	if s.Cur() != nil {
		s.SyncPoint()
	}
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	s := simrt.S
	if s.Cur() == nil {
		m.locked = false
		return
	}
	if s.Killed() {
		return
	}
	if !m.locked {
		s.Fatal("sync: unlock of unlocked mutex")
		return
	}
	m.locked = false
	wakeAll(&m.waiters)
	s.SyncPoint()
}

type RWMutex struct {
	w       bool
	r       int
	wWait   int
	waiters []*simrt.G
}

func (m *RWMutex) Lock() {
	s := simrt.S
	if s.Cur() == nil {
		m.w = true
		return
	}
	if s.Killed() {
		return
	}
	s.SyncPoint()
	m.wWait++
	for m.w || m.r > 0 {
		m.waiters = append(m.waiters, s.Cur())
		s.Park()
		if s.Killed() {
			return
		}
	}
	m.wWait--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	s := simrt.S
	if s.Cur() == nil {
		m.w = false
		return
	}
	if s.Killed() {
		return
	}
	if !m.w {
		s.Fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	m.w = false
	wakeAll(&m.waiters)
	s.SyncPoint()
}
func (m *RWMutex) RLock() {
	s := simrt.S
	if s.Cur() == nil {
		m.r++
		return
	}
	if s.Killed() {
		return
	}
	s.SyncPoint()
	for m.w || m.wWait > 0 {
		m.waiters = append(m.waiters, s.Cur())
		s.Park()
		if s.Killed() {
			return
		}
	}
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	if m.w || m.wWait > 0 {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	s := simrt.S
	if s.Cur() == nil {
		m.r--
		return
	}
	if s.Killed() {
		return
	}
	if m.r <= 0 {
		s.Fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.r--
	wakeAll(&m.waiters)
	s.SyncPoint()
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	n       int
	waiters []*simrt.G
}

func (w *WaitGroup) Add(d int) {
	s := simrt.S
	if s.Killed() {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		wakeAll(&w.waiters)
	}
	if s.Cur() != nil {
		s.SyncPoint()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}
func (w *WaitGroup) Wait() {
	s := simrt.S
	if s.Cur() == nil || s.Killed() {
		return
	}
	s.SyncPoint()
	for w.n > 0 {
		w.waiters = append(w.waiters, s.Cur())
		s.Park()
		if s.Killed() {
			return
		}
	}
}

type Cond struct {
	L       Locker
	waiters []*simrt.G
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	s := simrt.S
	if s.Cur() == nil || s.Killed() {
		return
	}
	c.waiters = append(c.waiters, s.Cur())
	me := s.Cur()
	c.L.Unlock()
	for {
		still := false
		for _, w := range c.waiters {
			if w == me {
				still = true
			}
		}
		if !still || s.Killed() {
			break
		}
		s.Park()
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		g := c.waiters[0]
		c.waiters = c.waiters[1:]
		simrt.S.Unpark(g)
	}
}
func (c *Cond) Broadcast() { wakeAll(&c.waiters) }

type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Map keeps insertion order so that Range is deterministic.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) pt() {
	if s := simrt.S; s.Cur() != nil {
		s.SyncPoint()
	}
}
func (m *Map) Load(k any) (any, bool) { m.pt(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.pt(); m.set(k, v) }
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.pt()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.pt()
	x, ok := m.m[k]
	m.del(k)
	return x, ok
}
func (m *Map) Delete(k any) { m.pt(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.pt()
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.pt()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.pt()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.pt(); m.m, m.keys = nil, nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.pt()
	for _, k := range append([]any{}, m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
