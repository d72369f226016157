// Package sms holds small programs that synchronise in all the usual ways, to
// test the simulator itself: the correct ones must show no race and no hang in
// any schedule, the others must be caught.
package sms

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Case is a small program.
type Case struct {
	Name string
	Bad  string // "", "race", "hang" or "wrong"
	Make func() ([]func(), func() string)
}

func same(got, want int) string {
	if got != want {
		return fmt.Sprintf("got %d, want %d", got, want)
	}
	return ""
}

func times(n int, f func()) []func() {
	var r []func()
	for i := 0; i < n; i++ {
		r = append(r, f)
	}
	return r
}

type box struct {
	sync.Mutex
	n int
	m map[string]int
}

func (b *box) add(k string) {
	b.Lock()
	defer b.Unlock()
	b.n++
	b.m[k] += 2
}

var lazyOnce sync.Once
var lazy map[int]int

func lazyTable() map[int]int {
	lazyOnce.Do(func() {
		lazy = map[int]int{}
		for i := 0; i < 5; i++ {
			lazy[i] = i * i
		}
	})
	return lazy
}

type eager struct {
	v atomic.Value
	m sync.Mutex
}

func (e *eager) get() map[int]int {
	if t, ok := e.v.Load().(map[int]int); ok {
		return t
	}
	e.m.Lock()
	defer e.m.Unlock()
	if t, ok := e.v.Load().(map[int]int); ok {
		return t
	}
	t := map[int]int{1: 1}
	t[2] = 4
	e.v.Store(t)
	return t
}

func two(c, d chan int) (int, bool) {
	select {
	case v := <-c:
		return v, true
	case v, ok := <-d:
		return v, ok
	}
}

// Cases are the programs.
var Cases = []Case{
	{"mutex", "", func() ([]func(), func() string) {
		b := &box{m: map[string]int{}}
		return times(3, func() {
			for i := 0; i < 3; i++ {
				b.add("k")
			}
		}), func() string { return same(b.n+b.m["k"], 27) }
	}},
	{"no-mutex", "race", func() ([]func(), func() string) {
		b := &box{m: map[string]int{}}
		return times(2, func() { b.n++ }), func() string { return "" }
	}},
	{"no-mutex-lost-update", "wrong", func() ([]func(), func() string) {
		b := &box{}
		return times(2, func() { b.n++ }), func() string { return same(b.n, 2) }
	}},
	{"two-mutexes-race", "race", func() ([]func(), func() string) {
		var a, b sync.Mutex
		n := 0
		return []func(){func() { a.Lock(); n++; a.Unlock() }, func() { b.Lock(); n++; b.Unlock() }}, func() string { return "" }
	}},
	{"lock-order", "hang", func() ([]func(), func() string) {
		var a, b sync.Mutex
		return []func(){
			func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() },
			func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() },
		}, func() string { return "" }
	}},
	{"trylock", "", func() ([]func(), func() string) {
		var m sync.Mutex
		n := 0
		return times(3, func() {
			for !m.TryLock() {
				runtime.Gosched()
			}
			n++
			m.Unlock()
		}), func() string { return same(n, 3) }
	}},
	{"rwmutex", "", func() ([]func(), func() string) {
		var m sync.RWMutex
		n, sum := 0, int32(0)
		w := func() { m.Lock(); n++; m.Unlock() }
		r := func() { m.RLock(); atomic.AddInt32(&sum, int32(n)); m.RUnlock() }
		return []func(){w, r, w, r, r}, func() string { return same(n, 2) }
	}},
	{"rwmutex-write-under-rlock", "race", func() ([]func(), func() string) {
		var m sync.RWMutex
		n := 0
		return times(2, func() { m.RLock(); n++; m.RUnlock() }), func() string { return "" }
	}},
	{"chan-semaphore", "", func() ([]func(), func() string) {
		sem := make(chan struct{}, 1)
		n := 0
		return times(4, func() {
			sem <- struct{}{}
			n++
			<-sem
		}), func() string { return same(n, 4) }
	}},
	{"chan-token", "", func() ([]func(), func() string) {
		tok := make(chan int, 1)
		tok <- 0
		return times(4, func() { tok <- 1 + <-tok }), func() string { return same(<-tok, 4) }
	}},
	{"chan-semaphore-of-two", "race", func() ([]func(), func() string) {
		sem := make(chan struct{}, 2)
		n := 0
		return times(2, func() {
			sem <- struct{}{}
			n++
			<-sem
		}), func() string { return "" }
	}},
	{"unbuffered-handoff", "", func() ([]func(), func() string) {
		c := make(chan *box)
		ack := make(chan bool)
		var got int
		return []func(){func() {
			b := &box{n: 1}
			c <- b
			<-ack
			b.n++
			got = b.n
		}, func() {
			b := <-c
			b.n += 10
			ack <- true
		}}, func() string { return same(got, 12) }
	}},
	{"unbuffered-receive-then-write", "", func() ([]func(), func() string) {
		// a receive from an unbuffered channel happens before the send ends
		c := make(chan int)
		n := 0
		return []func(){func() { c <- 1; n++ }, func() { n++; <-c }}, func() string { return same(n, 2) }
	}},
	{"buffered-receive-then-write", "race", func() ([]func(), func() string) {
		c := make(chan int, 1)
		n := 0
		return []func(){func() { c <- 1; n++ }, func() { n++; <-c }}, func() string { return "" }
	}},
	{"close-range", "", func() ([]func(), func() string) {
		c := make(chan int, 2)
		done := make(chan struct{})
		sum, after := 0, 0
		return []func(){func() {
			for i := 1; i <= 5; i++ {
				c <- i
			}
			after = 7
			close(c)
		}, func() {
			for v := range c {
				sum += v
			}
			sum += after
			close(done)
		}, func() { <-done; <-done; sum++ }}, func() string { return same(sum, 23) }
	}},
	{"close-without-order", "race", func() ([]func(), func() string) {
		c := make(chan int)
		n := 0
		_ = n
		return []func(){func() { close(c); n++ }, func() { <-c; n++ }}, func() string { return "" }
	}},
	{"worker-pool", "", func() ([]func(), func() string) {
		sum := 0
		return []func(){func() {
			jobs, res := make(chan int), make(chan int, 3)
			var wg sync.WaitGroup
			for w := 0; w < 3; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := range jobs {
						res <- j * j
					}
				}()
			}
			go func() {
				for i := 0; i < 6; i++ {
					jobs <- i
				}
				close(jobs)
				wg.Wait()
				close(res)
			}()
			for r := range res {
				sum += r
			}
		}}, func() string { return same(sum, 55) }
	}},
	{"waitgroup", "", func() ([]func(), func() string) {
		out := make([]int, 4)
		total := 0
		return []func(){func() {
			var wg sync.WaitGroup
			wg.Add(len(out))
			for i := range out {
				go func(i int) { out[i] = i; wg.Done() }(i)
			}
			wg.Wait()
			for _, v := range out {
				total += v
			}
		}}, func() string { return same(total, 6) }
	}},
	{"waitgroup-late-write", "race", func() ([]func(), func() string) {
		n := 0
		_ = n
		return []func(){func() {
			var wg sync.WaitGroup
			wg.Add(1)
			go func() { wg.Done(); n = 1 }()
			wg.Wait()
			n = 2
		}}, func() string { return "" }
	}},
	{"go-with-calls", "", func() ([]func(), func() string) {
		var m sync.Mutex
		n := 0
		pair := func() (int, int) { return 3, 4 }
		return []func(){func() {
			done := make(chan bool)
			add := func(a, b int) { m.Lock(); n += a * b; m.Unlock(); done <- true }
			go add(pair())
			go add(1, 2)
			<-done
			<-done
		}}, func() string { return same(n, 14) }
	}},
	{"go-edge", "", func() ([]func(), func() string) {
		n := 0
		return []func(){func() {
			n = 1
			c := make(chan int)
			go func() { n++; c <- n }()
			n = <-c
		}}, func() string { return same(n, 2) }
	}},
	{"once", "", func() ([]func(), func() string) {
		lazyOnce, lazy = sync.Once{}, nil
		return times(3, func() {
			if lazyTable()[3] != 9 {
				panic("once")
			}
		}), func() string { return same(len(lazyTable()), 5) }
	}},
	{"once-func", "", func() ([]func(), func() string) {
		n := 0
		f := sync.OnceValue(func() int { n++; return n })
		return times(3, func() {
			if f() != 1 {
				panic("once")
			}
		}), func() string { return same(f(), 1) }
	}},
	{"double-checked-atomic", "", func() ([]func(), func() string) {
		e := &eager{}
		return times(3, func() {
			if e.get()[2] != 4 {
				panic("table")
			}
		}), func() string { return "" }
	}},
	{"double-checked-plain", "race", func() ([]func(), func() string) {
		var m sync.Mutex
		var t map[int]int
		return times(2, func() {
			if t == nil {
				m.Lock()
				if t == nil {
					t = map[int]int{1: 1}
				}
				m.Unlock()
			}
		}), func() string { return "" }
	}},
	{"cond", "", func() ([]func(), func() string) {
		var m sync.Mutex
		c := sync.NewCond(&m)
		ready, n := false, 0
		w := func() {
			m.Lock()
			for !ready {
				c.Wait()
			}
			n++
			m.Unlock()
		}
		return []func(){w, w, func() { m.Lock(); ready = true; m.Unlock(); c.Broadcast() }}, func() string { return same(n, 2) }
	}},
	{"cond-queue", "", func() ([]func(), func() string) {
		var m sync.Mutex
		c := sync.NewCond(&m)
		var q []int
		sum := 0
		get := func() {
			m.Lock()
			for len(q) == 0 {
				c.Wait()
			}
			sum += q[0]
			q = q[1:]
			m.Unlock()
		}
		put := func() { m.Lock(); q = append(q, 5); c.Signal(); m.Unlock() }
		return []func(){get, put, get, put}, func() string { return same(sum, 10) }
	}},
	{"lost-wakeup", "hang", func() ([]func(), func() string) {
		var m sync.Mutex
		c := sync.NewCond(&m)
		return []func(){func() { m.Lock(); c.Wait(); m.Unlock() }, func() { c.Signal() }}, func() string { return "" }
	}},
	{"cas-spin", "", func() ([]func(), func() string) {
		var l int32
		n := 0
		return times(3, func() {
			for !atomic.CompareAndSwapInt32(&l, 0, 1) {
			}
			n++
			atomic.StoreInt32(&l, 0)
		}), func() string { return same(n, 3) }
	}},
	{"cas-counter", "", func() ([]func(), func() string) {
		var c atomic.Int64
		return times(3, func() {
			for {
				o := c.Load()
				if c.CompareAndSwap(o, o+1) {
					return
				}
			}
		}), func() string { return same(int(c.Load()), 3) }
	}},
	{"load-then-store", "wrong", func() ([]func(), func() string) {
		var c atomic.Int64
		return times(2, func() { c.Store(c.Load() + 1) }), func() string { return same(int(c.Load()), 2) }
	}},
	{"flag-spin", "", func() ([]func(), func() string) {
		var f uint32
		n := 0
		return []func(){func() {
			for atomic.LoadUint32(&f) == 0 {
				runtime.Gosched()
			}
			n++
		}, func() { n = 5; atomic.StoreUint32(&f, 1) }}, func() string { return same(n, 6) }
	}},
	{"atomic-pointer", "", func() ([]func(), func() string) {
		var p atomic.Pointer[box]
		got := 0
		return []func(){func() { p.Store(&box{n: 3}) }, func() {
			for p.Load() == nil {
				time.Sleep(time.Millisecond)
			}
			got = p.Load().n
		}}, func() string { return same(got, 3) }
	}},
	{"plain-flag", "race", func() ([]func(), func() string) {
		f, n := false, 0
		return []func(){func() { n = 1; f = true }, func() {
			if f {
				n++
			}
		}}, func() string { return "" }
	}},
	{"sync-map", "", func() ([]func(), func() string) {
		var m sync.Map
		n := int32(0)
		return times(3, func() {
			v, loaded := m.LoadOrStore("k", &box{n: 1})
			if !loaded {
				atomic.AddInt32(&n, 1)
			}
			b := v.(*box)
			b.Lock()
			b.n++
			b.Unlock()
			m.Range(func(k, v any) bool { return true })
		}), func() string { v, _ := m.Load("k"); return same(int(n)*10+v.(*box).n, 14) }
	}},
	{"pool", "", func() ([]func(), func() string) {
		p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
		out := make([]string, 3)
		var r []func()
		for i := range out {
			i := i
			r = append(r, func() {
				b := p.Get().(*bytes.Buffer)
				b.Reset()
				fmt.Fprintf(b, "<%d>", i)
				out[i] = b.String()
				p.Put(b)
			})
		}
		return r, func() string {
			if s := fmt.Sprint(out); s != "[<0> <1> <2>]" {
				return s
			}
			return ""
		}
	}},
	{"pool-kept", "race", func() ([]func(), func() string) {
		p := sync.Pool{New: func() any { return new(box) }}
		return times(2, func() {
			b := p.Get().(*box)
			p.Put(b)
			b.n++
		}), func() string { return "" }
	}},
	{"afterfunc", "", func() ([]func(), func() string) {
		var m sync.Mutex
		n := 0
		return []func(){func() {
			n = 1
			done := make(chan bool)
			time.AfterFunc(time.Second, func() { m.Lock(); n++; m.Unlock(); done <- true })
			<-done
			m.Lock()
			n++
			m.Unlock()
		}}, func() string { return same(n, 3) }
	}},
	{"afterfunc-stop", "", func() ([]func(), func() string) {
		fired, stopped := int32(0), 0
		return []func(){func() {
			t := time.AfterFunc(time.Minute, func() { atomic.AddInt32(&fired, 1) })
			time.Sleep(59 * time.Second)
			if t.Stop() {
				stopped = 1
			}
			time.Sleep(5 * time.Minute)
		}}, func() string { return same(int(fired)+stopped, 1) }
	}},
	{"afterfunc-reset", "", func() ([]func(), func() string) {
		at, base := time.Duration(0), time.Time{}
		return []func(){func() {
			base = time.Now()
			c := make(chan time.Time, 2)
			t := time.AfterFunc(time.Minute, func() { c <- time.Now() })
			time.Sleep(30 * time.Second)
			t.Reset(time.Minute)
			at = (<-c).Sub(base)
		}}, func() string {
			if at < time.Minute {
				return at.String()
			}
			return ""
		}
	}},
	{"afterfunc-unordered", "race", func() ([]func(), func() string) {
		n := 0
		return []func(){func() {
			time.AfterFunc(time.Second, func() { n++ })
			n++
		}}, func() string { return "" }
	}},
	{"timer-select", "", func() ([]func(), func() string) {
		c := make(chan int)
		n := 0
		return []func(){func() {
			t := time.NewTimer(time.Hour)
			defer t.Stop()
			select {
			case v := <-c:
				n = v
			case <-t.C:
				n = -1
			}
		}, func() {
			select {
			case c <- 4:
			case <-time.After(2 * time.Hour):
			}
		}}, func() string {
			if n != 4 && n != -1 {
				return fmt.Sprint(n)
			}
			return ""
		}
	}},
	{"ticker", "", func() ([]func(), func() string) {
		n := 0
		return []func(){func() {
			t := time.NewTicker(time.Second)
			for range t.C {
				if n++; n == 3 {
					t.Stop()
					break
				}
			}
		}}, func() string { return same(n, 3) }
	}},
	{"select-default", "", func() ([]func(), func() string) {
		c := make(chan int, 1)
		sent := int32(0)
		var none chan int
		return times(3, func() {
			select {
			case c <- 1:
				atomic.AddInt32(&sent, 1)
			case <-none:
				panic("nil channel")
			default:
			}
		}), func() string { return same(int(sent), 1) }
	}},
	{"select-returns", "", func() ([]func(), func() string) {
		c, d := make(chan int), make(chan int)
		n := int32(0)
		f := func() {
			if v, ok := two(c, d); ok {
				atomic.AddInt32(&n, int32(v))
			}
		}
		return []func(){f, func() { c <- 5 }, f, func() { close(d) }}, func() string {
			return ""
		}
	}},
	{"select-loop-quit", "", func() ([]func(), func() string) {
		work, quit, done := make(chan int), make(chan struct{}), make(chan struct{})
		sum := 0
		return []func(){func() {
			defer close(done)
		loop:
			for {
				select {
				case v := <-work:
					sum += v
				case <-quit:
					break loop
				}
			}
		}, func() { work <- 1; work <- 2; close(quit) }, func() { <-done; sum++ }}, func() string { return same(sum, 4) }
	}},
	{"actor", "", func() ([]func(), func() string) {
		type req struct {
			k     int
			reply chan int
		}
		in := make(chan req)
		ask := func(k int) int {
			r := req{k, make(chan int)}
			in <- r
			return <-r.reply
		}
		total := int32(0)
		cl := func() { atomic.AddInt32(&total, int32(ask(1)+ask(2))) }
		return []func(){func() {
			go func() { // serves for ever
				state := 0
				for r := range in {
					state += r.k
					r.reply <- r.k
				}
			}()
			cl()
		}, cl, cl}, func() string { return same(int(total), 9) }
	}},
	{"janitor", "", func() ([]func(), func() string) {
		var m sync.Mutex
		live := map[int]time.Time{}
		return []func(){func() {
			go func() { // cleans up for ever
				for range time.Tick(time.Second) {
					m.Lock()
					for k, t := range live {
						if time.Since(t) > time.Second {
							delete(live, k)
						}
					}
					m.Unlock()
				}
			}()
			for i := 0; i < 5; i++ {
				m.Lock()
				live[i] = time.Now()
				m.Unlock()
			}
			for left := 1; left > 0; {
				time.Sleep(time.Minute)
				m.Lock()
				left = len(live)
				m.Unlock()
			}
		}}, func() string { return "" }
	}},
	{"sleeping-janitor", "", func() ([]func(), func() string) {
		var n int32
		return []func(){func() {
			go func() {
				for {
					time.Sleep(time.Second)
					atomic.AddInt32(&n, 1)
				}
			}()
		}}, func() string { return "" }
	}},
	{"goexit", "", func() ([]func(), func() string) {
		n := 0
		return []func(){func() {
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				n = 3
				runtime.Goexit()
			}()
			wg.Wait()
		}}, func() string { return same(n, 3) }
	}},
	{"panic-recover", "", func() ([]func(), func() string) {
		var m sync.Mutex
		n := 0
		f := func() (err error) {
			m.Lock()
			defer m.Unlock()
			defer func() {
				if r := recover(); r != nil {
					err = errors.New(fmt.Sprint(r))
				}
			}()
			n++
			var p *box
			p.n++
			return nil
		}
		return times(2, func() {
			if f() == nil {
				panic("no error")
			}
		}), func() string { return same(n, 2) }
	}},
	{"map-range", "", func() ([]func(), func() string) {
		n := 0
		return []func(){func() {
			m := map[int]int{}
			for i := 0; i < 20; i++ {
				m[i] = i
			}
		outer:
			for k, v := range m {
				for j := range m {
					if j == k+1 {
						delete(m, j)
						n++
						continue outer
					}
				}
				if v < 0 {
					break outer
				}
			}
			var ks []int
			for k := range m {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			n += len(ks)
		}}, func() string { return same(n, 20) }
	}},
	{"producer-consumer", "", func() ([]func(), func() string) {
		c := make(chan []byte, 2)
		sum := int32(0)
		p := func() {
			for i := 0; i < 4; i++ {
				b := make([]byte, 2)
				b[0], b[1] = byte(i), 1
				c <- b
			}
		}
		q := func() {
			for i := 0; i < 4; i++ {
				b := <-c
				b[1]++
				atomic.AddInt32(&sum, int32(b[0]+b[1]))
			}
		}
		return []func(){p, q, p, q}, func() string { return same(int(sum), 28) }
	}},
	{"producer-keeps", "race", func() ([]func(), func() string) {
		c := make(chan []byte, 1)
		return []func(){func() { b := make([]byte, 1); c <- b; b[0] = 1 }, func() { b := <-c; b[0] = 2 }}, func() string { return "" }
	}},
	{"context-timeout", "", func() ([]func(), func() string) {
		n := int32(0)
		return times(2, func() {
			t0 := time.Now()
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Millisecond)
			defer cancel()
			select {
			case <-ctx.Done():
				if ctx.Err() != context.DeadlineExceeded || time.Since(t0) < 5*time.Millisecond {
					panic("too early")
				}
				atomic.AddInt32(&n, 1)
			case <-make(chan int):
			}
		}), func() string { return same(int(n), 2) }
	}},
	{"context-tree", "", func() ([]func(), func() string) {
		ctx, cancel := context.WithCancelCause(context.WithValue(context.Background(), 1, 2))
		why := errors.New("why")
		n := int32(0)
		data := 0
		wait := func() {
			sub, stop := context.WithCancel(ctx)
			defer stop()
			third, stop3 := context.WithCancel(context.WithValue(sub, 3, 4))
			defer stop3()
			<-third.Done()
			if third.Err() == context.Canceled && context.Cause(third) == why && third.Value(1) == 2 && third.Value(3) == 4 {
				atomic.AddInt32(&n, int32(data))
			}
		}
		after := make(chan int)
		context.AfterFunc(ctx, func() { atomic.AddInt32(&n, 10); close(after) })
		stop := context.AfterFunc(ctx, func() { panic("stopped") })
		if !stop() || stop() {
			panic("stop")
		}
		free, cf := context.WithCancel(context.WithoutCancel(ctx))
		return []func(){wait, wait, func() { time.Sleep(time.Millisecond); data = 1; cancel(why); cancel(nil); <-after }}, func() string {
			if free.Err() != nil || context.Cause(free) != nil {
				return "canceled"
			}
			cf()
			return same(int(n), 12)
		}
	}},
	{"context-race", "race", func() ([]func(), func() string) {
		ctx, cancel := context.WithCancel(context.Background())
		data := make([]int, 1)
		return []func(){func() { cancel(); data[0] = 1 }, func() { <-ctx.Done(); data[0] = 2 }}, func() string { return "" }
	}},
	{"context-never", "hang", func() ([]func(), func() string) {
		ctx, cancel := context.WithCancel(context.Background())
		return []func(){func() { <-ctx.Done() }}, func() string { cancel(); return "" }
	}},
}
