//go:build go1.23

package simrt

import (
	"context"
	"iter"
	"os"
)

// SeqKeys, SeqValues and SeqAll replace the iterators of package maps.
func SeqKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		SeqAll(m)(func(k K, _ V) bool { return yield(k) })
	}
}

func SeqValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		SeqAll(m)(func(_ K, v V) bool { return yield(v) })
	}
}

func SeqAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range Keys(m) {
			v, ok := m[k]
			if ok && !yield(k, v) {
				return
			}
		}
	}
}

// Notify replaces signal.Notify: no signals are sent in the simulation.
func Notify(chan<- os.Signal, ...os.Signal) {}

// NotifyContext replaces signal.NotifyContext.
func NotifyContext(parent context.Context, _ ...os.Signal) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}
