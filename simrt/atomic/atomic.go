// Package atomic stands in for the standard package in instrumented code: the
// real operations (whose ordering the race detector understands), each
// preceded and followed by a scheduling point.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"verif/simrt"
)

// AddInt32 is atomic.AddInt32.
func AddInt32(p *int32, d int32) int32 {
	simrt.Yield()
	r := atomic.AddInt32(p, d)
	simrt.Yield()
	return r
}

// LoadInt32 is atomic.LoadInt32.
func LoadInt32(p *int32) int32 { simrt.Yield(); r := atomic.LoadInt32(p); simrt.Yield(); return r }

// StoreInt32 is atomic.StoreInt32.
func StoreInt32(p *int32, v int32) { simrt.Yield(); atomic.StoreInt32(p, v); simrt.Yield() }

// SwapInt32 is atomic.SwapInt32.
func SwapInt32(p *int32, v int32) int32 {
	simrt.Yield()
	r := atomic.SwapInt32(p, v)
	simrt.Yield()
	return r
}

// CompareAndSwapInt32 is atomic.CompareAndSwapInt32.
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	simrt.Yield()
	r := atomic.CompareAndSwapInt32(p, o, n)
	simrt.Yield()
	return r
}

// Int32 replaces atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Add(d int32) int32  { simrt.Yield(); r := x.v.Add(d); simrt.Yield(); return r }
func (x *Int32) Load() int32        { simrt.Yield(); r := x.v.Load(); simrt.Yield(); return r }
func (x *Int32) Store(v int32)      { simrt.Yield(); x.v.Store(v); simrt.Yield() }
func (x *Int32) Swap(v int32) int32 { simrt.Yield(); r := x.v.Swap(v); simrt.Yield(); return r }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}

// AndInt32 and OrInt32 are the bitwise operations.
func AndInt32(p *int32, m int32) int32 {
	for {
		o := LoadInt32(p)
		if CompareAndSwapInt32(p, o, o&m) {
			return o
		}
	}
}

func OrInt32(p *int32, m int32) int32 {
	for {
		o := LoadInt32(p)
		if CompareAndSwapInt32(p, o, o|m) {
			return o
		}
	}
}

func (x *Int32) And(m int32) int32 {
	for {
		o := x.Load()
		if x.CompareAndSwap(o, o&m) {
			return o
		}
	}
}

func (x *Int32) Or(m int32) int32 {
	for {
		o := x.Load()
		if x.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

// AddInt64 is atomic.AddInt64.
func AddInt64(p *int64, d int64) int64 {
	simrt.Yield()
	r := atomic.AddInt64(p, d)
	simrt.Yield()
	return r
}

// LoadInt64 is atomic.LoadInt64.
func LoadInt64(p *int64) int64 { simrt.Yield(); r := atomic.LoadInt64(p); simrt.Yield(); return r }

// StoreInt64 is atomic.StoreInt64.
func StoreInt64(p *int64, v int64) { simrt.Yield(); atomic.StoreInt64(p, v); simrt.Yield() }

// SwapInt64 is atomic.SwapInt64.
func SwapInt64(p *int64, v int64) int64 {
	simrt.Yield()
	r := atomic.SwapInt64(p, v)
	simrt.Yield()
	return r
}

// CompareAndSwapInt64 is atomic.CompareAndSwapInt64.
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	simrt.Yield()
	r := atomic.CompareAndSwapInt64(p, o, n)
	simrt.Yield()
	return r
}

// Int64 replaces atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Add(d int64) int64  { simrt.Yield(); r := x.v.Add(d); simrt.Yield(); return r }
func (x *Int64) Load() int64        { simrt.Yield(); r := x.v.Load(); simrt.Yield(); return r }
func (x *Int64) Store(v int64)      { simrt.Yield(); x.v.Store(v); simrt.Yield() }
func (x *Int64) Swap(v int64) int64 { simrt.Yield(); r := x.v.Swap(v); simrt.Yield(); return r }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}

// AndInt64 and OrInt64 are the bitwise operations.
func AndInt64(p *int64, m int64) int64 {
	for {
		o := LoadInt64(p)
		if CompareAndSwapInt64(p, o, o&m) {
			return o
		}
	}
}

func OrInt64(p *int64, m int64) int64 {
	for {
		o := LoadInt64(p)
		if CompareAndSwapInt64(p, o, o|m) {
			return o
		}
	}
}

func (x *Int64) And(m int64) int64 {
	for {
		o := x.Load()
		if x.CompareAndSwap(o, o&m) {
			return o
		}
	}
}

func (x *Int64) Or(m int64) int64 {
	for {
		o := x.Load()
		if x.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

// AddUint32 is atomic.AddUint32.
func AddUint32(p *uint32, d uint32) uint32 {
	simrt.Yield()
	r := atomic.AddUint32(p, d)
	simrt.Yield()
	return r
}

// LoadUint32 is atomic.LoadUint32.
func LoadUint32(p *uint32) uint32 { simrt.Yield(); r := atomic.LoadUint32(p); simrt.Yield(); return r }

// StoreUint32 is atomic.StoreUint32.
func StoreUint32(p *uint32, v uint32) { simrt.Yield(); atomic.StoreUint32(p, v); simrt.Yield() }

// SwapUint32 is atomic.SwapUint32.
func SwapUint32(p *uint32, v uint32) uint32 {
	simrt.Yield()
	r := atomic.SwapUint32(p, v)
	simrt.Yield()
	return r
}

// CompareAndSwapUint32 is atomic.CompareAndSwapUint32.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	simrt.Yield()
	r := atomic.CompareAndSwapUint32(p, o, n)
	simrt.Yield()
	return r
}

// Uint32 replaces atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Add(d uint32) uint32  { simrt.Yield(); r := x.v.Add(d); simrt.Yield(); return r }
func (x *Uint32) Load() uint32         { simrt.Yield(); r := x.v.Load(); simrt.Yield(); return r }
func (x *Uint32) Store(v uint32)       { simrt.Yield(); x.v.Store(v); simrt.Yield() }
func (x *Uint32) Swap(v uint32) uint32 { simrt.Yield(); r := x.v.Swap(v); simrt.Yield(); return r }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}

// AndUint32 and OrUint32 are the bitwise operations.
func AndUint32(p *uint32, m uint32) uint32 {
	for {
		o := LoadUint32(p)
		if CompareAndSwapUint32(p, o, o&m) {
			return o
		}
	}
}

func OrUint32(p *uint32, m uint32) uint32 {
	for {
		o := LoadUint32(p)
		if CompareAndSwapUint32(p, o, o|m) {
			return o
		}
	}
}

func (x *Uint32) And(m uint32) uint32 {
	for {
		o := x.Load()
		if x.CompareAndSwap(o, o&m) {
			return o
		}
	}
}

func (x *Uint32) Or(m uint32) uint32 {
	for {
		o := x.Load()
		if x.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

// AddUint64 is atomic.AddUint64.
func AddUint64(p *uint64, d uint64) uint64 {
	simrt.Yield()
	r := atomic.AddUint64(p, d)
	simrt.Yield()
	return r
}

// LoadUint64 is atomic.LoadUint64.
func LoadUint64(p *uint64) uint64 { simrt.Yield(); r := atomic.LoadUint64(p); simrt.Yield(); return r }

// StoreUint64 is atomic.StoreUint64.
func StoreUint64(p *uint64, v uint64) { simrt.Yield(); atomic.StoreUint64(p, v); simrt.Yield() }

// SwapUint64 is atomic.SwapUint64.
func SwapUint64(p *uint64, v uint64) uint64 {
	simrt.Yield()
	r := atomic.SwapUint64(p, v)
	simrt.Yield()
	return r
}

// CompareAndSwapUint64 is atomic.CompareAndSwapUint64.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	simrt.Yield()
	r := atomic.CompareAndSwapUint64(p, o, n)
	simrt.Yield()
	return r
}

// Uint64 replaces atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Add(d uint64) uint64  { simrt.Yield(); r := x.v.Add(d); simrt.Yield(); return r }
func (x *Uint64) Load() uint64         { simrt.Yield(); r := x.v.Load(); simrt.Yield(); return r }
func (x *Uint64) Store(v uint64)       { simrt.Yield(); x.v.Store(v); simrt.Yield() }
func (x *Uint64) Swap(v uint64) uint64 { simrt.Yield(); r := x.v.Swap(v); simrt.Yield(); return r }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}

// AndUint64 and OrUint64 are the bitwise operations.
func AndUint64(p *uint64, m uint64) uint64 {
	for {
		o := LoadUint64(p)
		if CompareAndSwapUint64(p, o, o&m) {
			return o
		}
	}
}

func OrUint64(p *uint64, m uint64) uint64 {
	for {
		o := LoadUint64(p)
		if CompareAndSwapUint64(p, o, o|m) {
			return o
		}
	}
}

func (x *Uint64) And(m uint64) uint64 {
	for {
		o := x.Load()
		if x.CompareAndSwap(o, o&m) {
			return o
		}
	}
}

func (x *Uint64) Or(m uint64) uint64 {
	for {
		o := x.Load()
		if x.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

// AddUintptr is atomic.AddUintptr.
func AddUintptr(p *uintptr, d uintptr) uintptr {
	simrt.Yield()
	r := atomic.AddUintptr(p, d)
	simrt.Yield()
	return r
}

// LoadUintptr is atomic.LoadUintptr.
func LoadUintptr(p *uintptr) uintptr {
	simrt.Yield()
	r := atomic.LoadUintptr(p)
	simrt.Yield()
	return r
}

// StoreUintptr is atomic.StoreUintptr.
func StoreUintptr(p *uintptr, v uintptr) { simrt.Yield(); atomic.StoreUintptr(p, v); simrt.Yield() }

// SwapUintptr is atomic.SwapUintptr.
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	simrt.Yield()
	r := atomic.SwapUintptr(p, v)
	simrt.Yield()
	return r
}

// CompareAndSwapUintptr is atomic.CompareAndSwapUintptr.
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	simrt.Yield()
	r := atomic.CompareAndSwapUintptr(p, o, n)
	simrt.Yield()
	return r
}

// Uintptr replaces atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Add(d uintptr) uintptr  { simrt.Yield(); r := x.v.Add(d); simrt.Yield(); return r }
func (x *Uintptr) Load() uintptr          { simrt.Yield(); r := x.v.Load(); simrt.Yield(); return r }
func (x *Uintptr) Store(v uintptr)        { simrt.Yield(); x.v.Store(v); simrt.Yield() }
func (x *Uintptr) Swap(v uintptr) uintptr { simrt.Yield(); r := x.v.Swap(v); simrt.Yield(); return r }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}

// AndUintptr and OrUintptr are the bitwise operations.
func AndUintptr(p *uintptr, m uintptr) uintptr {
	for {
		o := LoadUintptr(p)
		if CompareAndSwapUintptr(p, o, o&m) {
			return o
		}
	}
}

func OrUintptr(p *uintptr, m uintptr) uintptr {
	for {
		o := LoadUintptr(p)
		if CompareAndSwapUintptr(p, o, o|m) {
			return o
		}
	}
}

func (x *Uintptr) And(m uintptr) uintptr {
	for {
		o := x.Load()
		if x.CompareAndSwap(o, o&m) {
			return o
		}
	}
}

func (x *Uintptr) Or(m uintptr) uintptr {
	for {
		o := x.Load()
		if x.CompareAndSwap(o, o|m) {
			return o
		}
	}
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	simrt.Yield()
	r := atomic.LoadPointer(p)
	simrt.Yield()
	return r
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	simrt.Yield()
	atomic.StorePointer(p, v)
	simrt.Yield()
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.Yield()
	r := atomic.SwapPointer(p, v)
	simrt.Yield()
	return r
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.Yield()
	r := atomic.CompareAndSwapPointer(p, o, n)
	simrt.Yield()
	return r
}

// Bool replaces atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { simrt.Yield(); r := x.v.Load(); simrt.Yield(); return r }
func (x *Bool) Store(v bool)     { simrt.Yield(); x.v.Store(v); simrt.Yield() }
func (x *Bool) Swap(v bool) bool { simrt.Yield(); r := x.v.Swap(v); simrt.Yield(); return r }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { simrt.Yield(); r := x.v.Load(); simrt.Yield(); return r }
func (x *Pointer[T]) Store(v *T)   { simrt.Yield(); x.v.Store(v); simrt.Yield() }
func (x *Pointer[T]) Swap(v *T) *T { simrt.Yield(); r := x.v.Swap(v); simrt.Yield(); return r }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}

// Value replaces atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any      { simrt.Yield(); r := x.v.Load(); simrt.Yield(); return r }
func (x *Value) Store(v any)    { simrt.Yield(); x.v.Store(v); simrt.Yield() }
func (x *Value) Swap(v any) any { simrt.Yield(); r := x.v.Swap(v); simrt.Yield(); return r }
func (x *Value) CompareAndSwap(o, n any) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}
