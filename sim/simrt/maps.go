//go:build go1.21

package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Map accesses are given a duration: while one goroutine is inside a map write,
// any other access to the same map is what the Go runtime reports as
// "fatal error: concurrent map ..." and kills the process.
type mapWindow struct {
	readers, writers int
}

func mapID[M ~map[K]V, K comparable, V any](m M) uintptr {
	return *(*uintptr)(unsafe.Pointer(&m))
}

func (s *Sim) mapAccess(id uintptr, write bool) {
	g := s.Cur()
	if g == nil || g.killed || id == 0 {
		return
	}
	w := s.mapWin[id]
	if w == nil {
		w = &mapWindow{}
		s.mapWin[id] = w
	}
	if w.writers > 0 {
		if write {
			s.Fatal("concurrent map writes")
		}
		s.Fatal("concurrent map read and map write")
	}
	if write && w.readers > 0 {
		s.Fatal("concurrent map read and map write")
	}
	if s.Cfg.MapPct > 0 && s.Ch.Choose(100) >= 100-s.Cfg.MapPct {
		if write {
			w.writers++
		} else {
			w.readers++
		}
		defer func() {
			if write {
				w.writers--
			} else {
				w.readers--
			}
		}()
		s.gate(g)
	}
}

// MR / MW precede statements that read / write the map.
func MR[M ~map[K]V, K comparable, V any](m M) {
	if S != nil {
		S.mapAccess(mapID(m), false)
	}
}
func MW[M ~map[K]V, K comparable, V any](m M) {
	if S != nil {
		S.mapAccess(mapID(m), true)
	}
}

// Keys returns the keys in a deterministic order (sorted); it replaces map iteration.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	MR(m)
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sortAny(ks)
	if s := S; s != nil && len(ks) > 1 && s.Cur() != nil {
		// Go's map order is random: rotate by a scheduler choice.
		if off := s.Ch.Choose(len(ks)); off > 0 {
			ks = append(append([]K{}, ks[off:]...), ks[:off]...)
		}
	}
	return ks
}

// Values replaces maps.Values.
func Values[M ~map[K]V, K comparable, V any](m M) []V {
	ks := Keys(m)
	vs := make([]V, 0, len(ks))
	for _, k := range ks {
		MR(m)
		if v, ok := m[k]; ok {
			vs = append(vs, v)
		}
	}
	return vs
}

func sortAny[K any](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch reflect.TypeOf(ks[0]) {
	case nil:
		return
	}
	v := func(i int) reflect.Value { return reflect.ValueOf(ks[i]) }
	switch v(0).Kind() {
	case reflect.String:
		sort.Slice(ks, func(i, j int) bool { return v(i).String() < v(j).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ks, func(i, j int) bool { return v(i).Int() < v(j).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(ks, func(i, j int) bool { return v(i).Uint() < v(j).Uint() })
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Num is anything that supports +.
type Num interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}

// Add and Sub split a read-modify-write of shared memory so that a preemption may fall inside.
func Add[T Num | ~string](p *T, d T) {
	v := *p
	Y()
	*p = v + d
}
func Sub[T Num](p *T, d T) {
	v := *p
	Y()
	*p = v - d
}

// SetP(p)(v) is `*p = v` with a preemption point between evaluating v and storing it.
func SetP[T any](p *T) func(T) {
	return func(v T) {
		Y()
		*p = v
	}
}

// It iterates over a map in an order the scheduler decides.
type It[K comparable, V any] struct {
	K  K
	V  V
	m  map[K]V
	ks []K
}

func Iter[M ~map[K]V, K comparable, V any](m M) *It[K, V] {
	return &It[K, V]{m: m, ks: Keys(m)}
}

func (it *It[K, V]) Next() bool {
	for len(it.ks) > 0 {
		k := it.ks[0]
		it.ks = it.ks[1:]
		MR(it.m)
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}
