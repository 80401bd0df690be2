package vshim

import (
	"fmt"
	"runtime/debug"
	"sync"
	"testing/synctest"
	"time"
)

func getg() uintptr

var siteNames []string

// SiteName returns "class:file:line" of a scheduling point.
func SiteName(i int) string {
	if i >= 0 && i < len(siteNames) {
		return siteNames[i]
	}
	return fmt.Sprintf("harness:%d", -i)
}

const maxThreads = 64
const maxSites = 8192
const maxPoints = 1 << 17

type tstate int32

const (
	tRunning  tstate = iota
	tParked          // at a scheduling point
	tLockWait        // announced, waiting for a lock
	tDone
)

type thread struct {
	id       int
	name     string
	g        uintptr
	wake     chan struct{}
	state    tstate
	lock     *lockState
	write    bool
	admitted bool
	site     int
	required bool
	lazy     bool // runs by default only when nothing else can
	hits     []uint16
	force    bool // the next scheduling point may not be skipped
}

// Point is one recorded decision.
type Point struct {
	Kind   byte // 't' thread choice, 's' select order, 'c' clock
	N      int  // number of alternatives
	Choice int
	Thread int // thread chosen / asking
	Site   int
	Miss   bool // select alternative was not ready (execution is redundant)
}

// Sched is one controlled execution.
type Sched struct {
	Points   []Point
	prefix   []int
	threads  [maxThreads]*thread
	n        int
	rootG    uintptr
	last     int
	aborted  bool
	Panic    string
	Steps    int
	Idle     int
	Diverged string
	cfg      Config
	pendSel  int // index of undecided select point or -1
	started  bool
}

// Config bounds one execution.
type Config struct {
	Quantum    time.Duration // clock step at quiescence
	MaxIdle    int           // clock steps without progress before "stuck"
	Horizon    int           // max scheduling steps
	Classes    uint32        // bitmask of site classes that are scheduling points
	Thin       int           // >0: a site is a point only for its first Thin hits per thread, then around multiples of ThinMod
	ThinMod    int
	NoSelects  bool // do not branch on select order
	QuietLocks bool // acquiring a free lock is not a scheduling point
	// ClockAlt: letting time advance although threads are enabled is an alternative at every point.
	ClockAlt bool
}

var active *Sched
var classOf [maxSites]uint8
var classesReady bool

func initClasses() {
	if classesReady {
		return
	}
	classesReady = true
	for i, s := range siteNames {
		if i < maxSites && len(s) > 0 {
			classOf[i] = s[0] - '0'
		}
	}
}

//go:norace
func (s *Sched) self() *thread {
	g := getg()
	if g == s.rootG {
		return nil
	}
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t.g == g && t.state != tDone {
			return t
		}
	}
	// adopt an unknown goroutine
	if s.n >= maxThreads {
		return nil
	}
	t := &thread{id: s.n, name: "adopted", g: g}
	t.hits = make([]uint16, len(siteNames)+1)
	t.wake = make(chan struct{})
	s.threads[s.n] = t
	s.n++
	return t
}

//go:norace
func (t *thread) park(st tstate) {
	t.state = st
	raceDisable()
	<-t.wake
	raceEnable()
}

// P is a scheduling point.
//
//go:norace
func P(site int) {
	s := active
	if s == nil || s.aborted {
		return
	}
	if site >= 0 && site < maxSites && s.cfg.Classes&(1<<classOf[site]) == 0 {
		return
	}
	t := s.self()
	if t == nil {
		return
	}
	if t.force {
		t.force = false
		t.site = site
		t.park(tParked)
		return
	}
	if s.cfg.Thin > 0 && site >= 0 && site < len(t.hits) {
		h := int(t.hits[site])
		if h < 65535 {
			t.hits[site]++
		}
		if h >= s.cfg.Thin {
			m := s.cfg.ThinMod
			if m <= 0 || (h+2)%m >= 3 {
				return
			}
		}
	}
	t.site = site
	t.park(tParked)
}

// Woke is the scheduling point after an operation that really blocked.
//
//go:norace
func Woke(site int) {
	s := active
	if s == nil || s.aborted {
		return
	}
	t := s.self()
	if t == nil {
		return
	}
	t.site = site
	t.park(tParked)
}

// Blocking announces an operation that may block: the thread stops at its next
// scheduling point whatever the thinning says, so that a thread woken by another
// never runs beside it.
//
//go:norace
func Blocking() {
	s := active
	if s == nil || s.aborted {
		return
	}
	if t := s.self(); t != nil {
		t.force = true
	}
}

// HP is a scheduling point in harness code (always active).
//
//go:norace
func HP(tag int) {
	s := active
	if s == nil || s.aborted {
		return
	}
	t := s.self()
	if t == nil {
		return
	}
	t.site = -tag
	t.park(tParked)
}

//go:norace
func (s *Sched) newThread(name string) *thread {
	if s.n >= maxThreads {
		panic("vshim: too many threads")
	}
	t := &thread{id: s.n, name: name, state: tRunning}
	t.hits = make([]uint16, len(siteNames)+1)
	t.wake = make(chan struct{})
	s.threads[s.n] = t
	s.n++
	return t
}

// Go starts a goroutine of the code under test.
//
//go:norace
func Go(f func()) {
	s := active
	if s == nil || s.aborted || (s.started && s.self() == nil) {
		go f()
		return
	}
	t := s.newThread("go")
	go runThread(s, t, f)
}

//go:norace
func runThread(s *Sched, t *thread, f func()) {
	t.g = getg()
	defer endThread(s, t)
	t.park(tParked)
	f()
}

//go:norace
func endThread(s *Sched, t *thread) {
	if r := recover(); r != nil {
		if s.Panic == "" {
			s.Panic = fmt.Sprintf("panic in %s: %v\n%s", t.name, r, debug.Stack())
		}
	}
	t.state = tDone
}

// ---- locks ----

type lockState struct {
	writer  bool
	readers int
}

//go:norace
func (l *lockState) pendingWriter(s *Sched, except *thread) bool {
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t != except && t.state == tLockWait && t.lock == l && t.write {
			return true
		}
	}
	return false
}

//go:norace
func (s *Sched) lockReady(t *thread) bool {
	if t.write {
		return !t.lock.writer && t.lock.readers == 0
	}
	return t.admitted || (!t.lock.writer && !t.lock.pendingWriter(s, t))
}

//go:norace
func managed() (*Sched, *thread) {
	s := active
	if s == nil || s.aborted {
		return nil, nil
	}
	t := s.self()
	if t == nil {
		return nil, nil
	}
	return s, t
}

//go:norace
func (l *lockState) acquire(write bool) {
	s, t := managed()
	if t == nil {
		return
	}
	if !s.cfg.QuietLocks {
		t.site = -1000
		t.park(tParked)
		if s.aborted {
			return
		}
	}
	t.lock, t.write, t.admitted = l, write, false
	if !s.lockReady(t) {
		t.park(tLockWait)
		if s.aborted {
			return
		}
	}
	if write {
		l.writer = true
	} else if !t.admitted {
		l.readers++
	}
	t.lock, t.admitted = nil, false
}

//go:norace
func (l *lockState) try(write bool) (managedCall, ok bool) {
	s, t := managed()
	if t == nil {
		return false, false
	}
	if !s.cfg.QuietLocks {
		t.site = -1001
		t.park(tParked)
		if s.aborted {
			return false, false
		}
	}
	if write {
		if l.writer || l.readers > 0 || l.pendingWriter(s, t) {
			return true, false
		}
		l.writer = true
		return true, true
	}
	if l.writer || l.pendingWriter(s, t) {
		return true, false
	}
	l.readers++
	return true, true
}

//go:norace
func (l *lockState) release(write bool) {
	s := active
	if s == nil {
		return
	}
	if write {
		l.writer = false
		for i := 0; i < s.n; i++ {
			t := s.threads[i]
			if t.state == tLockWait && t.lock == l && !t.write && !t.admitted {
				t.admitted = true
				l.readers++
			}
		}
		return
	}
	if l.readers > 0 {
		l.readers--
	}
}

// Mutex stands for sync.Mutex.
type Mutex struct {
	real sync.Mutex
	st   lockState
}

func (m *Mutex) Lock()   { m.st.acquire(true); m.real.Lock() }
func (m *Mutex) Unlock() { m.real.Unlock(); m.st.release(true) }
func (m *Mutex) TryLock() bool {
	managedCall, ok := m.st.try(true)
	if !managedCall {
		return m.real.TryLock()
	}
	if ok {
		m.real.Lock()
	}
	return ok
}

// RWMutex stands for sync.RWMutex.
type RWMutex struct {
	real sync.RWMutex
	st   lockState
}

func (m *RWMutex) Lock()    { m.st.acquire(true); m.real.Lock() }
func (m *RWMutex) Unlock()  { m.real.Unlock(); m.st.release(true) }
func (m *RWMutex) RLock()   { m.st.acquire(false); m.real.RLock() }
func (m *RWMutex) RUnlock() { m.real.RUnlock(); m.st.release(false) }
func (m *RWMutex) TryLock() bool {
	managedCall, ok := m.st.try(true)
	if !managedCall {
		return m.real.TryLock()
	}
	if ok {
		m.real.Lock()
	}
	return ok
}
func (m *RWMutex) TryRLock() bool {
	managedCall, ok := m.st.try(false)
	if !managedCall {
		return m.real.TryRLock()
	}
	if ok {
		m.real.RLock()
	}
	return ok
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Once stands for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc stands for sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue stands for sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues stands for sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// WaitGroup stands for sync.WaitGroup; the goroutines it starts are scheduled too.
type WaitGroup struct{ sync.WaitGroup }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// ---- select ----

func ZeroOf[T any](c <-chan T) (v T, ok bool) { return }

func TryRecv[T any](c <-chan T) (v T, ok bool, got bool) {
	select {
	case v, ok = <-c:
		got = true
	default:
	}
	return
}

func TrySend[T any](c chan<- T, v T) bool {
	select {
	case c <- v:
		return true
	default:
		return false
	}
}

var orders [8][8][]int

func init() {
	for n := 1; n < 8; n++ {
		for f := 0; f < n; f++ {
			o := []int{f}
			for i := 0; i < n; i++ {
				if i != f {
					o = append(o, i)
				}
			}
			orders[n][f] = o
		}
	}
}

// Order returns the order in which the cases of a select are tried.
//
//go:norace
func Order(site, n int) []int {
	if n >= 8 {
		o := make([]int, n)
		for i := range o {
			o[i] = i
		}
		return o
	}
	s := active
	if s == nil || s.aborted || s.cfg.NoSelects || n < 2 {
		return orders[n][0]
	}
	t := s.self()
	if t == nil {
		return orders[n][0]
	}
	c := s.decide('s', n, t.id, site)
	return orders[n][c]
}

// Chosen reports which case was taken (-1: default).
//
//go:norace
func Chosen(site, k int) {
	s := active
	if s == nil || s.aborted || s.cfg.NoSelects {
		return
	}
	// the latest select decision of this site by this thread
	t := s.self()
	if t == nil {
		return
	}
	for i := len(s.Points) - 1; i >= 0; i-- {
		p := &s.Points[i]
		if p.Kind == 's' && p.Thread == t.id {
			if p.Site == site && p.Choice != 0 && k != p.Choice {
				p.Miss = true
			}
			return
		}
	}
}

// ---- controller ----

//go:norace
func (s *Sched) decide(kind byte, n, thread, site int) int {
	i := len(s.Points)
	c := 0
	if i < len(s.prefix) {
		c = s.prefix[i]
		if c >= n {
			if s.Diverged == "" {
				s.Diverged = fmt.Sprintf("prefix choice %d at point %d exceeds %d alternatives (%s)", c, i, n, SiteName(site))
			}
			c = 0
		}
	}
	if i < cap(s.Points) {
		s.Points = s.Points[:i+1]
		s.Points[i] = Point{Kind: kind, N: n, Choice: c, Thread: thread, Site: site}
	} else {
		s.aborted = true
		s.Diverged = "too many points"
	}
	return c
}

var pointBuf []Point

// Outcome of a controlled execution.
type Outcome struct {
	Stuck     bool // no thread can run although some required thread is not done
	Livelock  bool // horizon exceeded
	Leaked    []string
	Panic     string
	Diverged  string
	Redundant bool
}

// Begin installs a controlled execution (called from the bubble's root
// goroutine). Threads are added with Spawn, then Drive runs them.
func Begin(prefix []int, cfg Config) *Sched {
	initClasses()
	if pointBuf == nil {
		pointBuf = make([]Point, 0, maxPoints)
	}
	s := &Sched{prefix: prefix, cfg: cfg, rootG: getg(), last: -1}
	s.Points = pointBuf[:0]
	active = s
	return s
}

// Spawn adds a harness thread that must finish.
//
//go:norace
func (s *Sched) Spawn(name string, f func()) {
	t := s.newThread(name)
	t.required = true
	go runThread(s, t, f)
}

// SpawnLazy adds a harness thread that, unless a deviation says otherwise,
// starts each of its turns only when no other thread can run.
//
//go:norace
func (s *Sched) SpawnLazy(name string, f func()) {
	s.Spawn(name, f)
	s.threads[s.n-1].lazy = true
}

// SelfName names the calling thread.
//
//go:norace
func SelfID() int {
	s := active
	if s == nil {
		return -1
	}
	t := s.self()
	if t == nil {
		return -1
	}
	return t.id
}

//go:norace
func (s *Sched) enabled(t *thread) bool {
	switch t.state {
	case tParked:
		return true
	case tLockWait:
		return s.lockReady(t)
	}
	return false
}

// Drive runs the execution until every required thread has finished and all
// others have ended or are stuck.
//
//go:norace
func (s *Sched) Drive() (out Outcome) {
	s.started = true
	idle := 0
	var en [maxThreads]int
	for {
		synctest.Wait()
		if s.Panic != "" {
			break
		}
		// canonical order: running thread first, then cyclically ascending
		n := 0
		if s.last >= 0 && s.enabled(s.threads[s.last]) {
			en[n] = s.last
			n++
		}
		for lazy := 0; lazy < 2; lazy++ {
			for k := 1; k <= s.n; k++ {
				i := (s.last + k) % s.n
				if s.last < 0 {
					i = k - 1
				}
				if i == s.last || s.threads[i].lazy != (lazy == 1) {
					continue
				}
				if s.enabled(s.threads[i]) {
					en[n] = i
					n++
				}
			}
		}
		if n == 0 {
			all := true
			for i := 0; i < s.n; i++ {
				if s.threads[i].state != tDone {
					all = false
				}
			}
			if all {
				break
			}
			if idle >= s.cfg.MaxIdle {
				break
			}
			idle++
			s.Idle++
			time.Sleep(s.cfg.Quantum)
			continue
		}
		idle = 0
		alts := n
		if s.cfg.ClockAlt {
			alts++
		}
		c := 0
		if alts > 1 {
			c = s.decide('t', alts, en[0], s.threads[en[0]].site)
			if s.Diverged != "" {
				break
			}
		}
		s.Steps++
		if s.Steps > s.cfg.Horizon {
			out.Livelock = true
			break
		}
		if c == n { // clock first
			time.Sleep(s.cfg.Quantum)
			continue
		}
		t := s.threads[en[c]]
		s.last = t.id
		t.state = tRunning
		raceDisable()
		t.wake <- struct{}{}
		raceEnable()
	}
	out.Panic = s.Panic
	out.Diverged = s.Diverged
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t.state == tDone {
			continue
		}
		if t.required {
			out.Stuck = true
		}
		out.Leaked = append(out.Leaked, fmt.Sprintf("%s#%d state=%d at %s", t.name, t.id, t.state, SiteName(t.site)))
	}
	for i := range s.Points {
		if s.Points[i].Miss {
			out.Redundant = true
		}
	}
	s.aborted = true
	active = nil
	return out
}

// End uninstalls the execution.
func End() { active = nil }
