// Package zzsimrt is the runtime of the simulator that instrumented library code calls into.
//
// Exactly one goroutine runs at any moment. It gives up control only inside Y, Gosched, a simulated
// lock or the end of a task, and the simulator's choice stream decides who continues.
package zzsimrt

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"time"
)

// ---- state of the current run -------------------------------------------------------------------

var (
	steps uint64 = 0          // yield points passed in this run
	next  uint64 = ^uint64(0) // slow path when steps reaches this

	active    bool
	stepLimit uint64
	switchAt  uint64
	depthAt   uint64
	watch     uint64
	deepest   int

	// Draw returns a scheduling choice in [0,n). Set by the harness.
	Draw func(n uint64) uint64

	clock    int64
	clockInc int64

	seen     []uint32 // run stamp per site
	runStamp uint32
	mapOrder bool

	schedHash uint64
	switches  uint64
	mapPerms  uint64

	rnd *rand.Rand
)

// MaxDepth is the call depth above which a run is aborted as runaway recursion.
const MaxDepth = 60000

// StepLimit is the panic value that aborts a run that exceeded its step budget.
type StepLimit struct{ Steps uint64 }

//go:norace
func (s StepLimit) Error() string { return fmt.Sprintf("step limit reached after %d steps", s.Steps) }

// DepthLimit is the panic value that aborts runaway recursion.
type DepthLimit struct{}

//go:norace
func (DepthLimit) Error() string { return "runaway recursion" }

// Init tells the runtime how many sites there are.
//
//go:norace
func Init(sites int) { seen = make([]uint32, sites+1) }

// Options of a run.
type Options struct {
	StepLimit uint64
	MapOrder  bool
	Clock     int64
}

// Begin starts a run.
//
//go:norace
func Begin(o Options) {
	steps, schedHash, switches, mapPerms = 0, 14695981039346656037, 0, 0
	stepLimit = o.StepLimit
	mapOrder = o.MapOrder
	clock = o.Clock
	clockInc = 0
	active = true
	runStamp++
	rnd = rand.New(rand.NewSource(1))
	cur = &task{id: 0, wake: make(chan struct{}, 1)}
	tasks = []*task{cur}
	switchAt = ^uint64(0)
	depthAt = 65536
	watch = 0
	preempt = nil
	setNext()
}

// Stats of a run.
type Stats struct {
	Steps, Switches, MapPerms, SchedHash uint64
}

// End ends a run and returns what it did.
//
//go:norace
func End() Stats {
	active = false
	next = ^uint64(0)
	return Stats{steps, switches, mapPerms, schedHash}
}

// Steps returns the number of yield points passed so far in this run.
//
//go:norace
func Steps() uint64 { return steps }

// SetStepLimit sets the step budget, counted from now. Zero means none.
//
//go:norace
func SetStepLimit(n uint64) {
	if n == 0 {
		stepLimit = 0
	} else {
		stepLimit = steps + n
	}
	setNext()
}

// WatchDepth makes Deepest look at the call depth in one of every so many steps, and later in fewer, up to 2048
// calls. Zero ends it.
func WatchDepth(every uint64) {
	watch, deepest = every, 0
	depthAt = steps + every
	if every == 0 {
		depthAt = steps + 65536
	}
	setNext()
}

// Deepest is the largest call depth seen since WatchDepth.
func Deepest() int { return deepest }

// GlobalVar is a variable of a package of the library.
type GlobalVar struct {
	Name string
	Ptr  interface{}
}

// Globals are the variables of the packages of the library.
var Globals []GlobalVar

// Global registers a variable.
func Global(name string, ptr interface{}) { Globals = append(Globals, GlobalVar{name, ptr}) }

// Seen calls f for every site reached in the current run.
//
//go:norace
func Seen(f func(site int)) {
	for i, s := range seen {
		if s == runStamp {
			f(i)
		}
	}
}

//go:norace
func setNext() {
	n := switchAt
	if stepLimit != 0 && stepLimit < n {
		n = stepLimit
	}
	if depthAt < n {
		n = depthAt
	}
	next = n
}

// Y is the yield point in front of every statement.
//
//go:norace
func Y(site int) {
	if site < len(seen) {
		seen[site] = runStamp
	}
	steps++
	if steps >= next {
		slow(site)
	}
}

//go:norace
func slow(site int) {
	if !active {
		next = ^uint64(0)
		return
	}
	if stepLimit != 0 && steps >= stepLimit {
		panic(StepLimit{steps})
	}
	if steps >= depthAt {
		depthAt = steps + 65536
		var pc [1]uintptr
		if runtime.Callers(MaxDepth, pc[:]) > 0 {
			depthAt = steps
			setNext()
			panic(DepthLimit{})
		}
		if watch > 0 {
			depthAt = steps + watch
			watch += watch / 32
			var pcs [2048]uintptr
			if n := runtime.Callers(0, pcs[:]); n > deepest {
				deepest = n
			}
		}
		setNext()
	}
	if steps >= switchAt {
		switchAt = steps + preempt()
		setNext()
		if len(tasks) > 1 {
			reschedule(site, true)
		}
	}
}

// ---- tasks ---------------------------------------------------------------------------------------

type task struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked func() bool // nil: runnable; else runnable when it returns true
	pan     interface{}
	stack   []byte
	sync    byte
}

var (
	cur     *task
	tasks   []*task
	preempt func() uint64
)

// Deadlock is the panic value raised in the main task when no task can run.
type Deadlock struct{}

//go:norace
func (Deadlock) Error() string { return "deadlock: no task can run" }

//go:norace
func runnable(t *task) bool {
	if t.done {
		return false
	}
	if t.blocked != nil {
		return t.blocked()
	}
	return true
}

//go:norace
func draw(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	return Draw(n)
}

//go:norace
func reschedule(site int, allowSelf bool) {
	me := cur
	var cand []*task
	for _, t := range tasks {
		if t == me && !allowSelf {
			continue
		}
		if runnable(t) {
			cand = append(cand, t)
		}
	}
	if len(cand) == 0 {
		if runnable(me) {
			return
		}
		// deadlock: give control to the main task, which reports it
		deadlocked = true
		if tasks[0] == me {
			panic(Deadlock{})
		}
		switchTo(tasks[0], site)
		if !me.done {
			await(me)
		}
		return
	}
	t := cand[draw(uint64(len(cand)))]
	if t == me {
		return
	}
	switchTo(t, site)
	if me.done {
		return
	}
	await(me)
	if me.id == 0 && deadlocked {
		panic(Deadlock{})
	}
}

var deadlocked bool

//go:norace
func switchTo(t *task, site int) {
	switches++
	schedHash = (schedHash ^ uint64(t.id)) * 1099511628211
	schedHash = (schedHash ^ uint64(site)) * 1099511628211
	cur = t
	t.blocked = nil
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

//go:norace
func await(t *task) {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func spawn(f func()) *task {
	t := &task{id: len(tasks), wake: make(chan struct{}, 1)}
	tasks = append(tasks, t)
	go taskMain(t, f)
	return t
}

//go:norace
func taskMain(t *task, f func()) {
	await(t)
	defer taskEnd(t)
	f()
}

//go:norace
func taskEnd(t *task) {
	if r := recover(); r != nil {
		t.pan = r
		buf := make([]byte, 1<<14)
		t.stack = buf[:runtime.Stack(buf, false)]
	}
	t.done = true
	raceRelease(&t.sync)
	reschedule(-1, false)
}

// Go starts a task from library code.
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	spawn(f)
}

// Gosched offers to switch.
//
//go:norace
func Gosched() {
	if active && len(tasks) > 1 {
		reschedule(-2, true)
	}
}

// TaskResult tells how a task ended.
type TaskResult struct {
	Panic interface{}
	Stack []byte
}

// CurrentTask returns the index of the running task; 0 is the main task.
//
//go:norace
func CurrentTask() int {
	if cur == nil {
		return 0
	}
	return cur.id
}

// RunTasks runs the functions as concurrent tasks until all are done. gap returns the number of
// steps to run until the next preemption.
//
//go:norace
func RunTasks(fs []func(), gap func() uint64) []TaskResult {
	deadlocked = false
	preempt = gap
	var ts []*task
	for _, f := range fs {
		ts = append(ts, spawn(f))
	}
	switchAt = steps + gap()
	setNext()
	me := cur
	me.blocked = func() bool {
		for _, t := range tasks[1:] {
			if !t.done {
				return false
			}
		}
		return true
	}
	reschedule(-3, false)
	switchAt = ^uint64(0)
	setNext()
	var res []TaskResult
	for _, t := range ts {
		raceAcquire(&t.sync)
		res = append(res, TaskResult{t.pan, t.stack})
	}
	tasks = tasks[:1]
	return res
}

//go:norace
func block(ready func() bool) {
	if !active {
		for !ready() {
			runtime.Gosched()
		}
		return
	}
	for !ready() {
		if len(tasks) == 1 {
			panic(Deadlock{})
		}
		cur.blocked = ready
		reschedule(-4, false)
		cur.blocked = nil
	}
}

// ---- sync ----------------------------------------------------------------------------------------

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	held bool
	sync byte
}

// Lock locks.
//
//go:norace
func (m *Mutex) Lock() {
	Gosched()
	block(func() bool { return !m.held })
	m.held = true
	raceAcquire(&m.sync)
}

// TryLock tries to lock.
//
//go:norace
func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	raceAcquire(&m.sync)
	return true
}

// Unlock unlocks.
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(&m.sync)
	m.held = false
	Gosched()
}

// RWMutex is a simulated sync.RWMutex.
type RWMutex struct {
	w    bool
	r    int
	sync byte
	rel  byte
}

// Lock locks for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	Gosched()
	block(func() bool { return !m.w && m.r == 0 })
	m.w = true
	raceAcquire(&m.sync)
	raceAcquire(&m.rel)
}

// Unlock unlocks.
//
//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(&m.sync)
	m.w = false
	Gosched()
}

// RLock locks for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	Gosched()
	block(func() bool { return !m.w })
	m.r++
	raceAcquire(&m.sync)
}

// RUnlock unlocks.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(&m.rel)
	m.r--
	Gosched()
}

// RLocker returns a Locker for reading.
//
//go:norace
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a simulated sync.Once.
type Once struct {
	done bool
	m    Mutex
}

// Do runs f once.
//
//go:norace
func (o *Once) Do(f func()) {
	if o.done {
		raceAcquire(&o.m.sync)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n    int
	sync byte
}

// Add adds.
//
//go:norace
func (w *WaitGroup) Add(n int) {
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
//
//go:norace
func (w *WaitGroup) Done() {
	raceRelease(&w.sync)
	w.Add(-1)
}

// Wait waits.
//
//go:norace
func (w *WaitGroup) Wait() {
	block(func() bool { return w.n == 0 })
	raceAcquire(&w.sync)
}

// Pool is a simulated sync.Pool. Whether a pooled object is handed out, and which, is a scheduling
// choice, as it is in reality.
type Pool struct {
	New   func() interface{}
	items []interface{}
	sync  byte
}

// Get gets.
//
//go:norace
func (p *Pool) Get() interface{} {
	if n := uint64(len(p.items)); n > 0 {
		i := uint64(0)
		if active {
			i = draw(n + 1)
			if i == n && p.New != nil {
				return p.New()
			}
			if i == n {
				i = 0
			}
			i = n - 1 - i
		}
		raceAcquire(&p.sync)
		x := p.items[i]
		p.items = append(p.items[:i], p.items[i+1:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts.
//
//go:norace
func (p *Pool) Put(x interface{}) {
	if x != nil {
		raceRelease(&p.sync)
		p.items = append(p.items, x)
	}
}

// Map is a simulated sync.Map.
type Map struct {
	m    map[interface{}]interface{}
	sync byte
}

// Load loads.
//
//go:norace
func (m *Map) Load(k interface{}) (interface{}, bool) {
	raceAcquire(&m.sync)
	v, ok := m.m[k]
	return v, ok
}

// Store stores.
//
//go:norace
func (m *Map) Store(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	raceRelease(&m.sync)
	m.m[k] = v
}

// LoadOrStore loads or stores.
//
//go:norace
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.Store(k, v)
	return v, false
}

// LoadAndDelete loads and deletes.
//
//go:norace
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

// Delete deletes.
//
//go:norace
func (m *Map) Delete(k interface{}) { delete(m.m, k) }

// Range ranges.
//
//go:norace
func (m *Map) Range(f func(k, v interface{}) bool) {
	for _, e := range MapEntries(m.m) {
		if e.Live() && !f(e.K, e.V()) {
			return
		}
	}
}

// ---- time and randomness -------------------------------------------------------------------------

// SetClock sets the simulated clock (nanoseconds since the epoch).
//
//go:norace
func SetClock(t int64) { clock = t }

// Clock returns the simulated clock.
//
//go:norace
func Clock() int64 { return clock }

// SetClockIncrement makes every reading of the clock advance it.
//
//go:norace
func SetClockIncrement(d int64) { clockInc = d }

// TimeNow is time.Now.
//
//go:norace
func TimeNow() time.Time {
	if !active {
		return time.Unix(0, 0).UTC()
	}
	t := clock
	clock += clockInc
	return time.Unix(0, t)
}

// TimeSince is time.Since.
//
//go:norace
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil is time.Until.
//
//go:norace
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// TimeSleep is time.Sleep.
//
//go:norace
func TimeSleep(d time.Duration) {
	clock += int64(d)
	Gosched()
}

// Rand replaces the global source of math/rand.
//
//go:norace
func Rand() *rand.Rand {
	if rnd == nil {
		rnd = rand.New(rand.NewSource(1))
	}
	return rnd
}

// ---- maps ----------------------------------------------------------------------------------------

// Entry is one entry of a map under iteration.
type Entry[K comparable, V any] struct {
	m map[K]V
	K K
}

// Live reports whether the entry is still in the map.
//
//go:norace
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// V returns the current value.
//
//go:norace
func (e Entry[K, V]) V() V { return e.m[e.K] }

// MapEntries returns the entries of m in the order chosen by the simulator.
//
//go:norace
func MapEntries[K comparable, V any](m map[K]V) []Entry[K, V] {
	es := make([]Entry[K, V], 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{m, k})
	}
	if len(es) < 2 {
		return es
	}
	switch ks := interface{}(es).(type) {
	case []Entry[string, V]:
		sort.Slice(ks, func(i, j int) bool { return ks[i].K < ks[j].K })
	case []Entry[int, V]:
		sort.Slice(ks, func(i, j int) bool { return ks[i].K < ks[j].K })
	case []Entry[uint64, V]:
		sort.Slice(ks, func(i, j int) bool { return ks[i].K < ks[j].K })
	default:
		names := make(map[K]string, len(es))
		for _, e := range es {
			names[e.K] = keyName(e.K)
		}
		sort.SliceStable(es, func(i, j int) bool { return names[es[i].K] < names[es[j].K] })
	}
	if active && mapOrder {
		mapPerms++
		for i := len(es) - 1; i > 0; i-- {
			j := int(draw(uint64(i + 1)))
			// a zero draw keeps the canonical order
			j = i - j
			es[i], es[j] = es[j], es[i]
		}
	}
	return es
}

//go:norace
func keyName(k interface{}) string {
	if s, ok := k.(fmt.Stringer); ok {
		return s.String()
	}
	v := reflect.ValueOf(k)
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return fmt.Sprintf("%+v", v.Elem().Interface())
	}
	return fmt.Sprintf("%+v", k)
}
