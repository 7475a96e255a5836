// Package simsync replaces package sync in the instrumented code: the same
// semantics and the same happens-before edges, but waiting hands control to the
// simulator's scheduler instead of blocking the thread.
package simsync

import (
	"fmt"
	"sort"
	"sync"
	"unsafe"

	"github.com/vorlif/spreak/zz_verif/simrt"
)

type Locker = sync.Locker

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	simrt.Y(3)
	for !m.mu.TryLock() {
		simrt.Block("Mutex.Lock")
	}
}

func (m *Mutex) TryLock() bool { simrt.Y(3); return m.mu.TryLock() }

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	simrt.Progress()
	simrt.Y(4)
}

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	simrt.Y(3)
	for !m.mu.TryLock() {
		simrt.Block("RWMutex.Lock")
	}
}
func (m *RWMutex) TryLock() bool { simrt.Y(3); return m.mu.TryLock() }
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	simrt.Progress()
	simrt.Y(4)
}
func (m *RWMutex) RLock() {
	simrt.Y(3)
	for !m.mu.TryRLock() {
		simrt.Block("RWMutex.RLock")
	}
}
func (m *RWMutex) TryRLock() bool { simrt.Y(3); return m.mu.TryRLock() }
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	simrt.Progress()
	simrt.Y(4)
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	o    sync.Mutex
	done uint32
}

//go:norace
func (o *Once) isDone() bool { return o.done == 1 }

//go:norace
func (o *Once) setDone() { o.done = 1 }

func (o *Once) Do(f func()) {
	simrt.Y(5)
	if o.isDone() {
		simrt.RaceAcquire(unsafe.Pointer(&o.done))
		return
	}
	for !o.o.TryLock() {
		simrt.Block("Once.Do")
	}
	defer func() {
		o.o.Unlock()
		simrt.Progress()
	}()
	if !o.isDone() {
		defer func() {
			simrt.RaceReleaseMerge(unsafe.Pointer(&o.done))
			o.setDone()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     any
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	o := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { o(); return r1, r2 }
}

type WaitGroup struct{ n int64 }

//go:norace
func (w *WaitGroup) add(d int64) int64 { w.n += d; return w.n }

func (w *WaitGroup) Add(delta int) {
	if delta < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(&w.n))
	}
	if w.add(int64(delta)) < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Progress()
	simrt.Y(6)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Y(6)
	for w.add(0) > 0 {
		simrt.Block("WaitGroup.Wait")
	}
	simrt.RaceAcquire(unsafe.Pointer(&w.n))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Pool hands out the most recently returned value first: the adversarial choice.
type Pool struct {
	New   func() any
	items []any
}

//go:norace
func (p *Pool) pop() (any, bool) {
	if len(p.items) == 0 {
		return nil, false
	}
	x := p.items[len(p.items)-1]
	p.items = p.items[:len(p.items)-1]
	return x, true
}

//go:norace
func (p *Pool) push(x any) { p.items = append(p.items, x) }

func addrOf(x any) unsafe.Pointer { return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1] }

func (p *Pool) Get() any {
	simrt.Y(7)
	if x, ok := p.pop(); ok {
		simrt.RaceAcquire(addrOf(x))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.RaceReleaseMerge(addrOf(x))
	p.push(x)
	simrt.Y(8)
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { simrt.Y(9); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { simrt.Y(9); m.m.Store(k, v); simrt.Y(9) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.Y(9); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { simrt.Y(9); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { simrt.Y(9); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { simrt.Y(9); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { simrt.Y(9); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { simrt.Y(9); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { simrt.Y(9); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Y(9)
	type kv struct {
		s    string
		k, v any
	}
	var all []kv
	m.m.Range(func(k, v any) bool { all = append(all, kv{fmt.Sprintf("%v", k), k, v}); return true })
	sort.SliceStable(all, func(i, j int) bool { return all[i].s < all[j].s })
	for _, e := range all {
		if !f(e.k, e.v) {
			return
		}
	}
}

type Cond struct {
	L   Locker
	seq int64
	sig int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) ticket() int64 { c.seq++; return c.seq }

//go:norace
func (c *Cond) ready(t int64) bool { return c.sig >= t }

//go:norace
func (c *Cond) signal(all bool) {
	if all {
		c.sig = c.seq
	} else if c.sig < c.seq {
		c.sig++
	}
}

func (c *Cond) Wait() {
	t := c.ticket()
	c.L.Unlock()
	for !c.ready(t) {
		simrt.Block("Cond.Wait")
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.signal(false); simrt.Progress() }
func (c *Cond) Broadcast() { c.signal(true); simrt.Progress() }
