package vsched

import (
	"fmt"
	"iter"
	"sort"
)

// Orders, when set, decides the order in which a map of n entries is walked: a permutation of 0..n-1 over
// the keys in the order of their rendering. The language leaves that order open.
var Orders func(n int) []int

// Walks counts the walks over maps of two and more entries whose order was decided.
var Walks int64

// Order stands for m in a range clause of the "order" build.
func Order[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if Orders == nil || len(m) < 2 {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		type entry struct {
			k    K
			v    V
			name string
		}
		var es []entry
		for k, v := range m {
			es = append(es, entry{k, v, fmt.Sprintf("%T %v", k, k)})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].name < es[j].name })
		Walks++
		for _, i := range Orders(len(es)) {
			e := es[i]
			if e.k == e.k {
				v, ok := m[e.k]
				if !ok { // removed while walking
					continue
				}
				e.v = v
			}
			if !yield(e.k, e.v) {
				return
			}
		}
	}
}
