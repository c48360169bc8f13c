// Package vsched is the runtime that the instrumented sources of the system
// under test call (see cmd/vinstr).  Outside a controlled execution every call
// falls through to the ordinary primitive.
package vsched

import (
	"fmt"
	"iter"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Built names the kind of build: order, sched or, without instrumentation, none.
var Built string

// Instrumented is set by Range et al. on first use; the harness reports it.
var Instrumented int32

// ---------------------------------------------------------------------------
// map iteration order

// OrderFn decides the iteration order of a map range with n keys at a site; it
// returns the permutation of the sorted keys.  nil means sorted order.
var OrderFn func(site string, n int) []int

// MapRanges counts the controlled ranges with at least two keys.
var MapRanges int64

type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	site string
}

func RangeIt[M ~map[K]V, K comparable, V any](m M, site string) *It[K, V] {
	it := &It[K, V]{m: m, site: site}
	if S != nil {
		MR(m, site)
	}
	n := len(m)
	if n == 0 {
		return it
	}
	atomic.StoreInt32(&Instrumented, 1)
	ks := make([]K, 0, n)
	for k := range m {
		ks = append(ks, k)
	}
	if n > 1 {
		sortKeys(ks)
		atomic.AddInt64(&MapRanges, 1)
		if f := OrderFn; f != nil {
			if p := f(site, n); len(p) == n {
				os := make([]K, n)
				for i, j := range p {
					os[i] = ks[j]
				}
				ks = os
			}
		}
	}
	it.keys = ks
	return it
}

func Range[M ~map[K]V, K comparable, V any](m M, site string) (*It[K, V], K, V) {
	var k K
	var v V
	return RangeIt(m, site), k, v
}

func (it *It[K, V]) Next(k *K, v *V) bool {
	if S != nil {
		MR(it.m, it.site)
	}
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func sortKeys[K comparable](ks []K) {
	switch t := interface{}(ks).(type) {
	case []string:
		sort.Strings(t)
	case []int:
		sort.Ints(t)
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
}

// ---------------------------------------------------------------------------
// controlled scheduling

// S is the active scheduler; nil outside controlled executions.
var S *Sched

// Sleeps records the durations asked of time.Sleep when VirtualTime is set.
var VirtualTime bool
var sleepMu sync.Mutex
var sleeps []time.Duration

func TakeSleeps() []time.Duration {
	sleepMu.Lock()
	defer sleepMu.Unlock()
	s := sleeps
	sleeps = nil
	return s
}

func Sleep(d time.Duration) {
	if S != nil {
		sleepMu.Lock()
		sleeps = append(sleeps, d)
		sleepMu.Unlock()
		S.yield(kindSpin)
		return
	}
	if VirtualTime {
		sleepMu.Lock()
		sleeps = append(sleeps, d)
		sleepMu.Unlock()
		return
	}
	time.Sleep(d)
}

// After and NewTimer are ready at once when time is virtual.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func NewTimer(d time.Duration) *time.Timer {
	if S == nil && !VirtualTime {
		return time.NewTimer(d)
	}
	Sleep(d)
	t := time.NewTimer(time.Hour)
	t.Stop()
	c := make(chan time.Time, 1)
	c <- time.Now().Add(d)
	t.C = c
	return t
}

// Keys, Values and All stand in for those of package maps.
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		it, k, _ := Range(m, "maps")
		for it.Next(&k, nil) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		it, k, v := Range(m, "maps")
		for it.Next(&k, &v) {
			if !yield(v) {
				return
			}
		}
	}
}

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		it, k, v := Range(m, "maps")
		for it.Next(&k, &v) {
			if !yield(k, v) {
				return
			}
		}
	}
}

func Go(f func()) {
	if s := S; s != nil {
		s.spawn(f)
		return
	}
	go f()
}

// Point is a statement-level scheduling point.
func Point() {
	if s := S; s != nil && !s.Coarse {
		s.yield(kindPoint)
	}
}

// Dump shows the goroutines at a deadlock.
var Dump = os.Getenv("MC_DUMP") != ""

// Yield is an explicit scheduling point of the harness.
func Yield() {
	if s := S; s != nil {
		s.yield(kindSync)
	}
}

// Spin marks an iteration of a condition-only loop. A goroutine that goes
// through many of them without synchronising waits busily: others go first.
func Spin() {
	s := S
	if s == nil {
		return
	}
	if t := s.cur; t.spins < 64 {
		t.spins++
		if !s.Coarse {
			s.yield(kindPoint)
		}
		return
	}
	s.yield(kindSpin)
}

// Live is the number of managed goroutines that have not ended.
func Live() int {
	n := 0
	for _, t := range S.threads {
		if !t.done {
			n++
		}
	}
	return n
}

const (
	kindPoint = iota
	kindSync
	kindSpin
	kindBlock
	kindExit
)

// Kinds of scheduling points.
const (
	KindPoint = kindPoint
	KindSync  = kindSync
)

type thread struct {
	vc      clock
	id      int
	wake    chan struct{}
	blocked func() bool // nil: runnable; otherwise runnable when it returns true
	spins   int
	spun    bool // yielded in a busy loop; others go first
	done    bool
}

// Sched is a cooperative scheduler: exactly one managed goroutine runs at a
// time and control changes hands only at scheduling points.
type Sched struct {
	threads []*thread
	cur     *thread
	Choose  func(n int, cur int, kind int) int // pick among n runnable; cur is the index of the running one or -1
	MaxStep int
	Steps   int
	Switch  int
	end     chan struct{}
	Outcome string // "", "deadlock", "steplimit"
	spinRun int
	buf     []*thread
	dead    bool
	panicV  interface{}
	Coarse  bool // statements are no scheduling points
	Races   []string
	maps    map[uintptr]*mapUse
	objs    map[any]*clock
}

func (s *Sched) spawn(f func()) {
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1)}
	t.vc.join(s.cur.vc)
	t.vc.tick(t.id)
	s.cur.vc.tick(s.cur.id)
	s.threads = append(s.threads, t)
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if s.panicV == nil {
					s.panicV = r
				}
			}
			t.done = true
			s.next(t, kindExit)
		}()
		f()
	}()
	s.yield(kindSync)
}

// Run executes main under the scheduler until every managed goroutine has
// finished, no goroutine can run, or the step limit is hit.
func (s *Sched) Run(main func()) {
	s.end = make(chan struct{})
	if s.MaxStep == 0 {
		s.MaxStep = 200000
	}
	t := &thread{id: 0, wake: make(chan struct{}, 1)}
	t.vc.tick(0)
	s.threads = append(s.threads, t)
	s.cur = t
	S = s
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if s.panicV == nil {
					s.panicV = r
				}
			}
			t.done = true
			s.next(t, kindExit)
		}()
		main()
	}()
	t.wake <- struct{}{}
	<-s.end
	S = nil
	// goroutines that can never go on stay parked: unwinding them would run
	// the engine's deferred code outside the scheduler
	s.dead = true
}

func (s *Sched) Panic() interface{} { return s.panicV }

func (s *Sched) yield(kind int) {
	t := s.cur
	if kind == kindSpin {
		t.spun = true
	}
	s.next(t, kind)
}

func (s *Sched) block(cond func() bool) {
	t := s.cur
	t.blocked = cond
	s.next(t, kindBlock)
	t.blocked = nil
}

// next hands control to the thread chosen by the explorer.
func (s *Sched) next(t *thread, kind int) {
	if s.dead {
		if kind == kindExit {
			return
		}
		select {}
	}
	s.Steps++
	if s.Steps > s.MaxStep {
		s.Outcome = "steplimit"
		s.finish(t, kind)
		return
	}
	if kind != kindSpin {
		// progress: busy waiters may look again
		if kind != kindPoint || !t.spun {
			for _, o := range s.threads {
				if o != t {
					o.spun = false
				}
			}
		}
		if kind != kindPoint {
			t.spun = false
			t.spins = 0
		}
	}
	run := s.buf[:0]
	cur := -1
	alive := false
	collect := func(spinners bool) {
		run = run[:0]
		cur = -1
		for _, o := range s.threads {
			if o.done {
				continue
			}
			alive = true
			if o.blocked != nil && !o.blocked() {
				continue
			}
			if o.spun != spinners {
				continue
			}
			if o == t {
				cur = len(run)
			}
			run = append(run, o)
		}
	}
	collect(false)
	if len(run) == 0 {
		if !alive {
			s.finish(t, kind)
			return
		}
		// only busy waiters are left: let each look once more; if they all
		// come back without progress nothing will ever change
		s.spinRun++
		if s.spinRun > 3 {
			s.Outcome = "deadlock"
			if Dump {
				b := make([]byte, 1<<20)
				os.Stderr.Write(b[:runtime.Stack(b, true)])
				os.Exit(3)
			}
			s.finish(t, kind)
			return
		}
		for _, o := range s.threads {
			o.spun = false
		}
		collect(false)
		if len(run) == 0 {
			s.Outcome = "deadlock"
			if Dump {
				b := make([]byte, 1<<20)
				os.Stderr.Write(b[:runtime.Stack(b, true)])
				os.Exit(3)
			}
			s.finish(t, kind)
			return
		}
	} else if kind != kindSpin {
		s.spinRun = 0
	}
	pick := 0
	if len(run) > 1 {
		pick = s.Choose(len(run), cur, kind)
	}
	n := run[pick]
	s.buf = run[:0]
	if n == t && kind != kindExit {
		return
	}
	s.Switch++
	s.cur = n
	n.wake <- struct{}{}
	if kind == kindExit {
		return
	}
	<-t.wake
}

func (s *Sched) finish(t *thread, kind int) {
	close(s.end)
	if kind == kindExit {
		return
	}
	select {}
}

// ---------------------------------------------------------------------------
// sync

type Mutex struct {
	m      sync.Mutex
	locked bool
	vc     clock
}

func (m *Mutex) Lock() {
	if s := S; s != nil {
		s.yield(kindSync)
		for m.locked {
			s.block(func() bool { return !m.locked })
		}
		m.locked = true
		s.acquire(&m.vc)
		return
	}
	m.m.Lock()
}

func (m *Mutex) TryLock() bool {
	if s := S; s != nil {
		s.yield(kindSync)
		if m.locked {
			return false
		}
		m.locked = true
		s.acquire(&m.vc)
		return true
	}
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	if s := S; s != nil {
		if !m.locked {
			panic("sync: unlock of unlocked mutex")
		}
		m.locked = false
		s.release(&m.vc)
		s.yield(kindSync)
		return
	}
	m.m.Unlock()
}

type RWMutex struct {
	m       sync.RWMutex
	w       bool
	waiting int
	r       int
	wvc     clock // released by writers
	rvc     clock // released by readers
}

func (m *RWMutex) Lock() {
	if s := S; s != nil {
		s.yield(kindSync)
		m.waiting++
		for m.w || m.r > 0 {
			s.block(func() bool { return !m.w && m.r == 0 })
		}
		m.waiting--
		m.w = true
		s.acquire(&m.wvc)
		s.acquire(&m.rvc)
		return
	}
	m.m.Lock()
}

func (m *RWMutex) Unlock() {
	if s := S; s != nil {
		if !m.w {
			panic("sync: Unlock of unlocked RWMutex")
		}
		m.w = false
		s.release(&m.wvc)
		s.yield(kindSync)
		return
	}
	m.m.Unlock()
}

func (m *RWMutex) RLock() {
	if s := S; s != nil {
		s.yield(kindSync)
		for m.w || m.waiting > 0 {
			s.block(func() bool { return !m.w && m.waiting == 0 })
		}
		m.r++
		s.acquire(&m.wvc)
		return
	}
	m.m.RLock()
}

func (m *RWMutex) RUnlock() {
	if s := S; s != nil {
		if m.r <= 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.r--
		s.release(&m.rvc)
		s.yield(kindSync)
		return
	}
	m.m.RUnlock()
}

func (m *RWMutex) TryLock() bool {
	if s := S; s != nil {
		s.yield(kindSync)
		if m.w || m.r > 0 {
			return false
		}
		m.w = true
		s.acquire(&m.wvc)
		s.acquire(&m.rvc)
		return true
	}
	return m.m.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	if s := S; s != nil {
		s.yield(kindSync)
		if m.w || m.waiting > 0 {
			return false
		}
		m.r++
		s.acquire(&m.wvc)
		return true
	}
	return m.m.TryRLock()
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	w  sync.WaitGroup
	n  int
	vc clock
}

func (w *WaitGroup) Add(d int) {
	if s := S; s != nil {
		w.n += d
		if d < 0 {
			s.release(&w.vc)
		}
		if w.n < 0 {
			panic("sync: negative WaitGroup counter")
		}
		return
	}
	w.w.Add(d)
}

func (w *WaitGroup) Done() {
	if s := S; s != nil {
		w.Add(-1)
		s.yield(kindSync)
		return
	}
	w.w.Done()
}

func (w *WaitGroup) Wait() {
	if s := S; s != nil {
		s.yield(kindSync)
		for w.n > 0 {
			s.block(func() bool { return w.n == 0 })
		}
		s.acquire(&w.vc)
		return
	}
	w.w.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is a condition variable; waiters are woken in the order they came.
type Cond struct {
	L  sync.Locker
	mu sync.Mutex
	c  *sync.Cond
	q  []*bool
	vc clock
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) real() *sync.Cond {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.c == nil {
		c.c = sync.NewCond(c.L)
	}
	return c.c
}

func (c *Cond) Wait() {
	if s := S; s != nil {
		woken := false
		c.q = append(c.q, &woken)
		c.L.Unlock()
		for !woken {
			s.block(func() bool { return woken })
		}
		s.acquire(&c.vc)
		c.L.Lock()
		return
	}
	c.real().Wait()
}

func (c *Cond) Signal() {
	if s := S; s != nil {
		s.release(&c.vc)
		if len(c.q) > 0 {
			*c.q[0] = true
			c.q = c.q[1:]
		}
		s.yield(kindSync)
		return
	}
	c.real().Signal()
}

func (c *Cond) Broadcast() {
	if s := S; s != nil {
		s.release(&c.vc)
		for _, w := range c.q {
			*w = true
		}
		c.q = nil
		s.yield(kindSync)
		return
	}
	c.real().Broadcast()
}

type Once struct {
	o    sync.Once
	m    Mutex
	done bool
	vc   clock
}

func (o *Once) Do(f func()) {
	if s := S; s != nil {
		if o.done {
			s.acquire(&o.vc)
			return
		}
		o.m.Lock()
		defer o.m.Unlock()
		if !o.done {
			defer func() { o.done = true; s.release(&o.vc) }()
			f()
		}
		return
	}
	o.o.Do(func() { o.done = true; f() })
}

// WaitUntil parks the calling managed goroutine until cond holds.
func WaitUntil(cond func() bool) {
	s := S
	if s == nil {
		panic("vsched: WaitUntil outside a controlled execution")
	}
	s.yield(kindSync)
	for !cond() {
		s.block(cond)
	}
	// the harness has seen what the others did
	for _, t := range s.threads {
		s.cur.vc.join(t.vc)
	}
}

func ThreadID() int {
	if s := S; s != nil {
		return s.cur.id
	}
	return -1
}

var _ = strconv.Itoa

// ---------------------------------------------------------------------------
// unordered accesses to a map: the Go runtime ends the process when it notices
// them ("fatal error: concurrent map writes")

type clock []uint32

func (c *clock) at(i int) uint32 {
	if i < len(*c) {
		return (*c)[i]
	}
	return 0
}

func (c *clock) set(i int, v uint32) {
	for len(*c) <= i {
		*c = append(*c, 0)
	}
	(*c)[i] = v
}

func (c *clock) tick(i int) { c.set(i, c.at(i)+1) }

func (c *clock) join(o clock) {
	for i, v := range o {
		if v > c.at(i) {
			c.set(i, v)
		}
	}
}

func (s *Sched) acquire(c *clock) { s.cur.vc.join(*c) }

func (s *Sched) release(c *clock) {
	c.join(s.cur.vc)
	s.cur.vc.tick(s.cur.id)
}

// HB orders the operations that all goroutines do on x.
func HB[T any](x T) T {
	if s := S; s != nil && !s.dead {
		k := hbKey(x)
		if k == nil {
			return x
		}
		if s.objs == nil {
			s.objs = map[any]*clock{}
		}
		c := s.objs[k]
		if c == nil {
			c = &clock{}
			s.objs[k] = c
		}
		s.acquire(c)
		s.release(c)
	}
	return x
}

func hbKey(x any) any {
	switch reflect.TypeOf(x).Kind() {
	case reflect.Ptr, reflect.UnsafePointer:
		return x
	case reflect.Chan: // directional views of one channel are one object
		return reflect.ValueOf(x).Pointer()
	}
	return nil
}

type access struct {
	id   int
	at   uint32
	site string
}

type mapUse struct {
	keep  any // its address is not used again while it is watched
	write access
	hasW  bool
	reads []access
}

func (s *Sched) use(p uintptr, m any, site string, write bool) {
	if s.dead || s.cur == nil {
		return
	}
	if s.maps == nil {
		s.maps = map[uintptr]*mapUse{}
	}
	u := s.maps[p]
	if u == nil {
		u = &mapUse{keep: m}
		s.maps[p] = u
	}
	t := s.cur
	race := func(a access, kind string) {
		if a.id != t.id && a.at > t.vc.at(a.id) && len(s.Races) < 20 {
			s.Races = append(s.Races, fmt.Sprintf("%s at %s and at %s", kind, a.site, site))
		}
	}
	if u.hasW {
		if write {
			race(u.write, "concurrent map writes")
		} else {
			race(u.write, "concurrent map write and read")
		}
	}
	me := access{t.id, t.vc.at(t.id), site}
	if write {
		for _, a := range u.reads {
			race(a, "concurrent map read and write")
		}
		u.write, u.hasW, u.reads = me, true, u.reads[:0]
		return
	}
	for i := range u.reads {
		if u.reads[i].id == t.id {
			u.reads[i] = me
			return
		}
	}
	u.reads = append(u.reads, me)
}

// MR and MW announce a read of and a write to a map.
func MR[M ~map[K]V, K comparable, V any](m M, site string) M {
	if s := S; s != nil && m != nil {
		s.use(reflect.ValueOf(m).Pointer(), m, site, false)
	}
	return m
}

func MW[M ~map[K]V, K comparable, V any](m M, site string) M {
	if s := S; s != nil && m != nil {
		s.use(reflect.ValueOf(m).Pointer(), m, site, true)
	}
	return m
}
