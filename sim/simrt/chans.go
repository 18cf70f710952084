//go:build go1.21

package simrt

import (
	"reflect"
	"runtime"
)

// Send is `c <- v`.
func Send[T any](c chan<- T, v T) {
	s := S
	g := s.Cur()
	if g == nil {
		if s == nil {
			c <- v
		}
		return
	}
	if g.killed {
		runtime.Goexit()
	}
	s.SyncPoint()
	s.externBegin(g)
	select {
	case c <- v:
	case <-g.kill:
		g.killed = true
		runtime.Goexit()
	}
	s.externEnd(g)
}

// Recv is `<-c`.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is `v, ok := <-c`.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	s := S
	g := s.Cur()
	if g == nil {
		if s == nil {
			v, ok = <-c
		}
		return
	}
	if g.killed {
		runtime.Goexit()
	}
	s.SyncPoint()
	s.externBegin(g)
	select {
	case v, ok = <-c:
	case <-g.kill:
		g.killed = true
		runtime.Goexit()
	}
	s.externEnd(g)
	tick(&v)
	return v, ok
}

// Close is close(c).
func Close[T any](c chan<- T) {
	s := S
	g := s.Cur()
	if g != nil && g.killed {
		return
	}
	close(c)
	if g != nil {
		s.Yield()
	}
}

// SelRes carries the outcome of a select.
type SelRes struct {
	v  reflect.Value
	OK bool
}

// SelCase is one communication clause.
type SelCase struct {
	dir  reflect.SelectDir
	ch   reflect.Value
	send reflect.Value
}

func R[T any](c <-chan T) SelCase {
	return SelCase{dir: reflect.SelectRecv, ch: reflect.ValueOf(c)}
}
func W[T any](c chan<- T, v T) SelCase {
	return SelCase{dir: reflect.SelectSend, ch: reflect.ValueOf(c), send: reflect.ValueOf(&v).Elem()}
}

// AsR extracts the received value with the channel's element type.
func AsR[T any](_ <-chan T, r *SelRes) (v T) {
	if r.v.IsValid() {
		reflect.ValueOf(&v).Elem().Set(r.v)
		tick(&v)
	}
	return v
}

// Select performs a select statement; the scheduler decides among ready cases.
// It returns the clause index, or -1 for default.
func Select(r *SelRes, hasDefault bool, cases ...SelCase) int {
	s := S
	g := s.Cur()
	if s == nil {
		select {}
	}
	if g == nil {
		return -1
	}
	if g.killed {
		runtime.Goexit()
	}
	s.SyncPoint()
	n := len(cases)
	rc := make([]reflect.SelectCase, 0, n+1)
	for _, c := range cases {
		rc = append(rc, reflect.SelectCase{Dir: c.dir, Chan: c.ch, Send: c.send})
	}
	// Ready cases are tried in an order the scheduler chooses.
	off := 0
	if n > 1 {
		off = s.Ch.Choose(n)
	}
	def := reflect.SelectCase{Dir: reflect.SelectDefault}
	for k := 0; k < n; k++ {
		i := (k + off) % n
		ch, v, ok := reflect.Select([]reflect.SelectCase{rc[i], def})
		if ch == 0 {
			r.v, r.OK = v, ok
			s.Yield()
			return i
		}
	}
	if hasDefault {
		return -1
	}
	rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(g.kill)})
	s.externBegin(g)
	i, v, ok := reflect.Select(rc)
	if i == n {
		g.killed = true
		runtime.Goexit()
	}
	r.v, r.OK = v, ok
	s.externEnd(g)
	return i
}

// Seq-free range over a channel: for v := range c  =>  for { v, ok := Recv2(c); if !ok {break}; ... }

// SendTo(c)(v) is `c <- v` with the conversions an assignment allows.
func SendTo[T any](c chan<- T) func(T) { return func(v T) { Send(c, v) } }

// WTo is the select form of SendTo.
func WTo[T any](c chan<- T) func(T) SelCase { return func(v T) SelCase { return W(c, v) } }
