//go:build go1.21

package simrt

import (
	"time"
	"unsafe"
)

// The wall clock of a simulated host can be wrong and can jump; its monotonic
// clock, like Go's, does neither.  synctest's time.Now has no monotonic part, so
// the instrumented program gets its times from here.

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const wallToUnix = -(((1969*365 + 1969/4 - 1969/100 + 1969/400) - (1884*365 + 1884/4 - 1884/100 + 1884/400)) * 86400)

// stamp gives a time of the simulation the wall clock of the node and a monotonic reading.
func (s *Sim) stamp(t time.Time, node int) time.Time {
	w := t.Add(s.Skew[node])
	r := (*rawTime)(unsafe.Pointer(&w))
	r.wall = 1<<63 | uint64(w.Unix()-wallToUnix)<<30 | uint64(w.Nanosecond())
	r.ext = int64(t.Sub(s.start)) + 1
	return w
}

// Now replaces time.Now.
func Now() time.Time {
	t := time.Now()
	if s := S; s != nil {
		if g := s.Cur(); g != nil {
			return s.stamp(t, g.Node)
		}
	}
	return t
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// tick turns what a timer's channel delivered into a time of the node.
func tick(v interface{}) {
	t, ok := v.(*time.Time)
	s := S
	if !ok || s == nil {
		return
	}
	g := s.Cur()
	if g == nil || (*rawTime)(unsafe.Pointer(t)).wall>>63 == 1 || t.IsZero() {
		return
	}
	*t = s.stamp(*t, g.Node)
}
