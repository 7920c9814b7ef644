// Package simsync stands in for package sync: the same API over the simulator's scheduler.
package simsync

import (
	"simkit/simrt"
	std "sync"
)

type (
	Locker = std.Locker
)

// Mutex is sync.Mutex. Unlock wakes every waiter: which of them (or of any newcomer) gets the lock is the
// scheduler's choice, as barging makes it in the real one.
type Mutex struct {
	held bool
	q    simrt.WaitQ
}

func (m *Mutex) Lock() {
	simrt.Yield(`lock`)
	if simrt.Aborting() {
		return
	}
	for m.held {
		if simrt.Cur() == nil {
			panic(`simsync: Lock would block outside of a simulated task`)
		}
		m.q.Wait(`mutex`)
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	simrt.Yield(`trylock`)
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	if !m.held {
		panic(fatal(`sync: unlock of unlocked mutex`))
	}
	m.held = false
	m.q.WakeAll()
	simrt.Yield(`unlock`)
}

// fatal errors of the runtime cannot be recovered from in a real process; a simulated one is recognised by type.
type fatal string

// IsFatal tells if v is a simulated fatal error.
func IsFatal(v interface{}) bool { _, ok := v.(fatal); return ok }

// RWMutex is sync.RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	w       bool
	readers int
	pending int
	q       simrt.WaitQ
}

func (m *RWMutex) Lock() {
	simrt.Yield(`wlock`)
	if simrt.Aborting() {
		return
	}
	m.pending++
	for m.w || m.readers > 0 {
		if simrt.Cur() == nil {
			panic(`simsync: Lock would block outside of a simulated task`)
		}
		m.q.Wait(`rwmutex (write)`)
	}
	m.pending--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	simrt.Yield(`trywlock`)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	if !m.w {
		panic(fatal(`sync: Unlock of unlocked RWMutex`))
	}
	m.w = false
	m.q.WakeAll()
	simrt.Yield(`wunlock`)
}

func (m *RWMutex) RLock() {
	simrt.Yield(`rlock`)
	if simrt.Aborting() {
		return
	}
	for m.w || m.pending > 0 {
		if simrt.Cur() == nil {
			panic(`simsync: RLock would block outside of a simulated task`)
		}
		m.q.Wait(`rwmutex (read)`)
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	simrt.Yield(`tryrlock`)
	if m.w || m.pending > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Aborting() {
		return
	}
	if m.readers == 0 {
		panic(fatal(`sync: RUnlock of unlocked RWMutex`))
	}
	m.readers--
	m.q.WakeAll()
	simrt.Yield(`runlock`)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	q simrt.WaitQ
}

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic(`sync: negative WaitGroup counter`)
	}
	if g.n == 0 {
		g.q.WakeAll()
	}
	simrt.Yield(`wg.Add`)
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	simrt.Yield(`wg.Wait`)
	for g.n > 0 && !simrt.Aborting() {
		g.q.Wait(`waitgroup`)
	}
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(`wg.Go`, func() {
		defer g.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	simrt.Yield(`once`)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	q simrt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	// Unlock without a scheduling point in between, so that no signal can be lost.
	simrt.Atomically(c.L.Unlock)
	c.q.Wait(`cond`)
	c.L.Lock()
}

func (c *Cond) Signal()    { simrt.Yield(`signal`); c.q.WakeOne() }
func (c *Cond) Broadcast() { simrt.Yield(`broadcast`); c.q.WakeAll() }

// Pool is sync.Pool.
type Pool struct {
	New func() interface{}
	xs  []interface{}
}

func (p *Pool) Get() interface{} {
	simrt.Yield(`pool.Get`)
	if n := len(p.xs); n > 0 && simrt.Choose(4, `pool`) != 3 {
		x := p.xs[n-1]
		p.xs = p.xs[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.xs = append(p.xs, x)
	}
	simrt.Yield(`pool.Put`)
}

// Map is sync.Map: every operation is atomic, Range is not.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	simrt.Yield(`map.Load`)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) put(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Store(k, v interface{}) {
	simrt.Yield(`map.Store`)
	m.put(k, v)
	simrt.Yield(`map.Store.done`)
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	simrt.Yield(`map.LoadOrStore`)
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.put(k, v)
	simrt.Yield(`map.LoadOrStore.done`)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	simrt.Yield(`map.LoadAndDelete`)
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k interface{}) {
	simrt.Yield(`map.Delete`)
	m.del(k)
}

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	simrt.Yield(`map.Swap`)
	old, ok := m.m[k]
	m.put(k, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	simrt.Yield(`map.CAS`)
	if old, ok := m.m[k]; ok && old == o {
		m.put(k, n)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o interface{}) bool {
	simrt.Yield(`map.CAD`)
	if old, ok := m.m[k]; ok && old == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	simrt.Yield(`map.Clear`)
	m.m, m.keys = nil, nil
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	simrt.Yield(`map.Range`)
	ks := append([]interface{}{}, m.keys...)
	for i := 0; i < len(ks)-1; i++ {
		if j := i + simrt.Choose(len(ks)-i, `maporder`); j != i {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	for _, k := range ks {
		simrt.Yield(`map.Range.next`)
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
