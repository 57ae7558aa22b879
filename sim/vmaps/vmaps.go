// Package maps: iteration order is the simulator's.
package maps

import (
	"iter"

	"github.com/oov/psd/verifsim/vsim"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return vsim.MapSeq(m) }
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K]    { return vsim.MapKeySeq(m) }
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range vsim.MapSeq(m) {
			if !yield(v) {
				return
			}
		}
	}
}
