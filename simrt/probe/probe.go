// Package probe reads and writes memory on behalf of the harness, compiled
// with race instrumentation so that the race detector sees a user's accesses.
package probe

// Bytes reads a byte slice.
//
//go:noinline
func Bytes(b []byte) (s uint64) {
	for _, v := range b {
		s = s*31 + uint64(v)
	}
	return
}

// Fill overwrites a byte slice.
//
//go:noinline
func Fill(b []byte, v byte) {
	for i := range b {
		b[i] = v
	}
}

// Ptrs reads the elements of a slice of pointers.
//
//go:noinline
func Ptrs[T any](p []*T) (n int) {
	for _, v := range p {
		if v != nil {
			n++
		}
	}
	return
}

// Clear overwrites the elements of a slice of pointers.
//
//go:noinline
func Clear[T any](p []*T) {
	for i := range p {
		p[i] = nil
	}
}

// Reverse reverses a slice of pointers.
//
//go:noinline
func Reverse[T any](p []*T) {
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
}

// Load reads a value.
//
//go:noinline
func Load[T any](p *T) T { return *p }

// Put writes bytes.
//
//go:noinline
func Put(dst, src []byte) {
	for i := range src {
		dst[i] = src[i]
	}
}
