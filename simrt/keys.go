package simrt

import (
	"fmt"
	"sort"
)

// Keys returns the keys of m in an order fixed by the simulation (sorted, then
// rotated by a number drawn from the run's seed), so that map iteration is
// deterministic but not always in the same order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	switch kk := any(ks).(type) {
	case []string:
		sort.Strings(kk)
	case []int:
		sort.Ints(kk)
	case []byte:
		sort.Slice(kk, func(i, j int) bool { return kk[i] < kk[j] })
	case []rune:
		sort.Slice(kk, func(i, j int) bool { return kk[i] < kk[j] })
	default:
		ss := make([]string, len(ks))
		for i, k := range ks {
			ss[i] = fmt.Sprintf("%#v", k)
		}
		sort.Sort(&byStr[K]{ks, ss})
	}
	if r, rev := rotation(len(ks)); r > 0 {
		out := make([]K, 0, len(ks))
		out = append(out, ks[r:]...)
		out = append(out, ks[:r]...)
		if rev {
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		}
		return out
	}
	return ks
}

// Entry is a map and one of its keys.
type Entry[M ~map[K]V, K comparable, V any] struct {
	M M
	K K
}

// Entries lists the entries of a map in the order of Keys.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[M, K, V] {
	ks := Keys[M, K, V](m)
	es := make([]Entry[M, K, V], len(ks))
	for i, k := range ks {
		es[i] = Entry[M, K, V]{m, k}
	}
	return es
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

func rotation(n int) (int, bool) {
	if cur == nil {
		return 0, false
	}
	return int(MapSalt % uint64(n)), MapSalt&(1<<40) != 0
}

// MapSalt varies map iteration order between runs.
var MapSalt uint64

type byStr[K any] struct {
	ks []K
	ss []string
}

//go:noinline
func (b *byStr[K]) Len() int { return len(b.ks) }

//go:noinline
func (b *byStr[K]) Less(i, j int) bool { return b.ss[i] < b.ss[j] }

//go:noinline
func (b *byStr[K]) Swap(i, j int) {
	b.ks[i], b.ks[j] = b.ks[j], b.ks[i]
	b.ss[i], b.ss[j] = b.ss[j], b.ss[i]
}

// ---- resetting package state

type resetter struct {
	pkg   string
	order int
	fn    func()
}

var resets []resetter

// RegisterReset records how to bring a package's variables back to their
// initial state (called by generated code; imported packages register first).
//
//go:noinline
func RegisterReset(pkg string, fn func()) { resets = append(resets, resetter{pkg, len(resets), fn}) }

// ColdStart brings all package variables of the code under test back to their
// state at process start.
//
//go:noinline
func ColdStart() {
	for _, r := range resets {
		r.fn()
	}
}
