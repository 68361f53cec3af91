// Package simsync has the API of package sync; blocking is decided by the
// simulator.  The real primitives are still operated, uncontended, so that the
// happens-before checker sees exactly the ordering the real code establishes.
package simsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/go-latex/latex/vsim"
)

type Locker = sync.Locker

type Mutex struct {
	mu   sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) Lock() {
	vsim.Point()
	for vsim.Active() && m.held {
		vsim.Block(unsafe.Pointer(m))
	}
	m.mu.Lock()
	m.held = true
}

//go:norace
func (m *Mutex) TryLock() bool {
	vsim.Point()
	if vsim.Active() && m.held {
		return false
	}
	ok := m.mu.TryLock()
	if ok {
		m.held = true
	}
	return ok
}

//go:norace
func (m *Mutex) Unlock() {
	m.held = false
	m.mu.Unlock()
	vsim.Wake(unsafe.Pointer(m))
	if !vsim.Stopping() {
		vsim.Point()
	}
}

type RWMutex struct {
	mu sync.RWMutex
	wr bool
	rd int
	wt int // writers that wait: no reader gets in before them
}

//go:norace
func (m *RWMutex) Lock() {
	vsim.Point()
	if vsim.Active() && (m.wr || m.rd > 0) {
		m.wt++
		for vsim.Active() && (m.wr || m.rd > 0) {
			vsim.Block(unsafe.Pointer(m))
		}
		m.wt--
	}
	m.mu.Lock()
	m.wr = true
}

//go:norace
func (m *RWMutex) TryLock() bool {
	vsim.Point()
	if vsim.Active() && (m.wr || m.rd > 0) {
		return false
	}
	ok := m.mu.TryLock()
	if ok {
		m.wr = true
	}
	return ok
}

//go:norace
func (m *RWMutex) Unlock() {
	m.wr = false
	m.mu.Unlock()
	vsim.Wake(unsafe.Pointer(m))
	if !vsim.Stopping() {
		vsim.Point()
	}
}

//go:norace
func (m *RWMutex) RLock() {
	vsim.Point()
	for vsim.Active() && (m.wr || m.wt > 0) {
		vsim.Block(unsafe.Pointer(m))
	}
	m.mu.RLock()
	m.rd++
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	vsim.Point()
	if vsim.Active() && (m.wr || m.wt > 0) {
		return false
	}
	ok := m.mu.TryRLock()
	if ok {
		m.rd++
	}
	return ok
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.rd--
	m.mu.RUnlock()
	vsim.Wake(unsafe.Pointer(m))
	if !vsim.Stopping() {
		vsim.Point()
	}
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	once sync.Once
	busy bool
}

//go:norace
func (o *Once) Do(f func()) {
	vsim.Point()
	for vsim.Active() && o.busy {
		vsim.Block(unsafe.Pointer(o))
	}
	o.busy = true
	defer o.release()
	o.once.Do(f)
}

//go:norace
func (o *Once) release() {
	o.busy = false
	vsim.Wake(unsafe.Pointer(o))
}

func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     any
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var res T
	once := OnceFunc(func() { res = f() })
	return func() T {
		once()
		return res
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		r1 T1
		r2 T2
	)
	once := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) {
		once()
		return r1, r2
	}
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (g *WaitGroup) Add(delta int) {
	g.n += delta
	g.wg.Add(delta)
	if g.n <= 0 {
		vsim.Wake(unsafe.Pointer(g))
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

//go:norace
func (g *WaitGroup) Wait() {
	vsim.Point()
	for vsim.Active() && g.n > 0 {
		vsim.Block(unsafe.Pointer(g))
	}
	g.wg.Wait()
}

// Go is WaitGroup.Go of newer Go releases.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsim.Go0(func() {
		defer g.Done()
		f()
	})
}

type Cond struct {
	L    Locker
	cond *sync.Cond
	seq  uint64
	sig  uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l, cond: sync.NewCond(l)} }

//go:norace
func (c *Cond) Wait() {
	if !vsim.Active() {
		c.cond.Wait()
		return
	}
	me := c.seq
	c.seq++
	c.L.Unlock()
	for vsim.Active() && c.sig <= me {
		vsim.Block(unsafe.Pointer(c))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.sig < c.seq {
		c.sig++
	}
	vsim.Wake(unsafe.Pointer(c))
	if !vsim.Active() {
		c.cond.Signal()
	}
}

//go:norace
func (c *Cond) Broadcast() {
	c.sig = c.seq
	vsim.Wake(unsafe.Pointer(c))
	if !vsim.Active() {
		c.cond.Broadcast()
	}
}

// Pool hands out what the simulator decides: the last item, any item, or none.
type Pool struct {
	New   func() any
	items []*poolItem
}

type poolItem struct {
	x   any
	rel atomic.Int32 // orders Put before the Get that returns the item
}

//go:norace
func (p *Pool) Get() any {
	vsim.Point()
	if i := vsim.PoolPick(len(p.items)); i >= 0 {
		it := p.items[i]
		n := len(p.items) - 1
		p.items[i] = p.items[n]
		p.items = p.items[:n]
		it.rel.Load()
		return it.x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	it := &poolItem{x: x}
	it.rel.Store(1)
	if len(p.items) == 64 { // the collector empties pools now and then
		p.items = vsim.Cut(p.items, 0)
	}
	p.items = vsim.Push(p.items, it)
	vsim.Point()
}

// Map is sync.Map with an iteration order the simulator decides.
type Map struct {
	m sync.Map
}

func (m *Map) Load(key any) (any, bool) { vsim.Point(); return m.m.Load(key) }
func (m *Map) Store(key, value any)     { vsim.Point(); m.m.Store(key, value) }
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	vsim.Point()
	return m.m.LoadOrStore(key, value)
}
func (m *Map) LoadAndDelete(key any) (any, bool) { vsim.Point(); return m.m.LoadAndDelete(key) }
func (m *Map) Delete(key any)                    { vsim.Point(); m.m.Delete(key) }
func (m *Map) Swap(key, value any) (any, bool)   { vsim.Point(); return m.m.Swap(key, value) }
func (m *Map) CompareAndSwap(key, old, new any) bool {
	vsim.Point()
	return m.m.CompareAndSwap(key, old, new)
}
func (m *Map) CompareAndDelete(key, old any) bool {
	vsim.Point()
	return m.m.CompareAndDelete(key, old)
}
func (m *Map) Clear() {
	vsim.Point()
	m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true })
}

func (m *Map) Range(f func(key, value any) bool) {
	vsim.Point()
	all := map[any]any{}
	m.m.Range(func(k, v any) bool { all[k] = v; return true })
	k, v, it := vsim.MapIter(all)
	for it.Next(&k, &v) {
		if !f(k, v) {
			return
		}
	}
}
