package vrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

// Cur is the running execution (nil outside executions).
var Cur *Exec

// ResetHooks are run at the start of each execution (shim package state).
var ResetHooks []func()

// Thread is a goroutine known to the scheduler.
type Thread struct {
	Name    string
	gid     int64
	harness bool
	gate    chan struct{}
	label   string
	ready   func() bool
	parked  bool
	done    bool
	seq     int
}

// RPCEvent is one intercepted remote call.
type RPCEvent struct {
	Seq     int
	Thread  string
	Addr    string
	Method  string // without the service name
	Args    interface{}
	Reply   interface{} // pointer given by the caller
	Err     error
	At      time.Duration // virtual time since start
	AtEnd   time.Duration
	Begun   bool // the handler was started
	Handled bool // the handler finished
	Ended   bool
}

// Exec is one controlled execution.
type Exec struct {
	X *Explorer

	mu    sync.Mutex
	all   []*Thread // no maps here: their runtime functions are seen by the race detector
	wake  chan struct{}
	sched bool // scheduling points are active
	dying bool
	ctl   int64
	last  *Thread
	start time.Time
	anon  int
	Steps int

	// Configuration.
	FreeSwitch   bool          // switching when the last thread cannot continue is free
	MaxSteps     int           // livelock horizon
	Horizon      time.Duration // idle virtual time after which blocked threads count as stuck
	TimeChoice   bool          // offer "let time pass" as a deviation
	MapChoice    bool          // map order is a choice (else sorted)
	MapRev       bool          // iterate maps in descending order instead
	RandMax      int           // draws from a larger range are not enumerated (0: no limit)
	RandCtr      int
	RandFree     bool // random draws are free choices (else deviations)
	AcceptPoints bool // Accept and ServeConn are scheduling points
	LockPoints   bool // Lock is a scheduling point
	CallPoints   bool // start of a remote call is a scheduling point
	ReplyPoints  bool // encoding of the reply is a scheduling point
	ClosePoints  bool // the end of a client is a scheduling point
	Fault        func(stage, addr, method string) bool
	OnCall       func(ev *RPCEvent)
	OnCallEnd    func(ev *RPCEvent)

	Calls  []*RPCEvent
	Crash  string   // a panic escaped from the code under test
	Stuck  string   // threads that can never continue
	Trace  []string // scheduling trace
	KeepTr bool
	join   byte        // what the threads did is visible after Run
	Net    interface{} // the network of the execution
}

func slowGoid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id int64
	for i := len("goroutine "); i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + int64(b[i]-'0')
	}
	return id
}

// OnReset registers what gives a package's variables their initial values.
func OnReset(f func()) {
	if !RaceOn {
		ResetHooks = append(ResetHooks, f)
	}
}

// Begin makes a new execution current. Must be called inside a bubble.
func Begin(x *Explorer) *Exec {
	e := &Exec{X: x, all: make([]*Thread, 0, 64), wake: make(chan struct{}, 1), ctl: goid(),
		start: time.Now(), FreeSwitch: true, MaxSteps: 20000, Horizon: 10 * time.Minute,
		LockPoints: true, CallPoints: true, ReplyPoints: true}
	Cur = e
	for _, f := range ResetHooks {
		f()
	}
	return e
}

// Now is the virtual time since the start of the execution.
func (e *Exec) Now() time.Duration { return time.Since(e.start) }

// Choose forwards to the explorer.
func (e *Exec) Choose(k Kind, n int, cost bool) int {
	if e.X == nil {
		return 0
	}
	return e.X.Choose(k, n, cost)
}

// IsController reports whether the caller is the controlling goroutine.
func (e *Exec) IsController() bool { return goid() == e.ctl }

// Sched reports whether scheduling points are active.
func (e *Exec) Sched() bool { return e != nil && e.sched }

// Dying reports whether the execution is being torn down.
func (e *Exec) Dying() bool { return e.dying }

// Go starts a harness thread. It parks before running.
func (e *Exec) Go(name string, f func()) *Thread {
	RaceOff()
	t := &Thread{Name: name, harness: true, gate: make(chan struct{})}
	e.mu.Lock()
	e.all = append(e.all, t)
	e.mu.Unlock()
	RaceBack()
	go func() {
		RaceOff()
		e.mu.Lock()
		t.gid = goid()
		e.mu.Unlock()
		RaceBack()
		defer func() {
			r := recover()
			if r != nil && !e.dying {
				e.SetCrash(fmt.Sprintf("panic in %s: %v", name, r), debug.Stack())
			}
			RaceOff()
			e.mu.Lock()
			t.done = true
			e.mu.Unlock()
			RaceBack()
			RaceRelease(unsafe.Pointer(&e.join))
			RaceOff()
			e.signal()
			RaceBack()
		}()
		e.park(t, "start", nil)
		f()
	}()
	return t
}

// SetCrash records a panic that escaped from code under test.
func (e *Exec) SetCrash(msg string, stack []byte) {
	RaceOff()
	e.mu.Lock()
	if e.Crash == "" {
		e.Crash = msg + "\n" + trimStack(stack)
	}
	e.mu.Unlock()
	RaceBack()
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "\t") && (strings.Contains(l, "/repo/") || strings.Contains(l, "go-narb")) {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// Signal makes an idle scheduler look again.
func (e *Exec) Signal() { e.signal() }

func (e *Exec) signal() {
	select {
	case e.wake <- struct{}{}:
	default:
	}
}

// thread finds the live thread of a goroutine.
func (e *Exec) thread(id int64) *Thread {
	for i := len(e.all) - 1; i >= 0; i-- {
		if t := e.all[i]; t.gid == id && !t.done {
			return t
		}
	}
	return nil
}

// IsHarness reports whether the caller is the controller or a thread started by Go.
func (e *Exec) IsHarness() bool {
	id := goid()
	if id == e.ctl {
		return true
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	t := e.thread(id)
	return t != nil && t.harness
}

// Point is a scheduling point of the calling goroutine; it returns when the
// scheduler picks it, which requires ready (if given) to hold.
func Point(label string, ready func() bool) {
	e := Cur
	if e == nil || !e.sched {
		return
	}
	id := goid()
	if id == e.ctl {
		return
	}
	RaceOff()
	e.mu.Lock()
	t := e.thread(id)
	if t == nil {
		e.anon++
		t = &Thread{Name: "~" + label, gid: id, gate: make(chan struct{}), seq: e.anon}
		e.all = append(e.all, t)
	}
	e.mu.Unlock()
	RaceBack()
	e.park(t, label, ready)
}

func (e *Exec) park(t *Thread, label string, ready func() bool) {
	RaceOff()
	e.mu.Lock()
	if e.dying {
		e.mu.Unlock()
		RaceBack()
		runtime.Goexit()
	}
	t.label, t.ready, t.parked = label, ready, true
	e.mu.Unlock()
	e.signal()
	<-t.gate
	d := e.dying
	RaceBack()
	if d {
		runtime.Goexit()
	}
}

// Harness threads still running.
func (e *Exec) alive() int {
	n := 0
	for _, t := range e.all {
		if t.harness && !t.done {
			n++
		}
	}
	return n
}

func (e *Exec) enabled() []*Thread {
	var en []*Thread
	for _, t := range e.all {
		if t.parked && !t.done && (t.ready == nil || t.ready()) {
			en = append(en, t)
		}
	}
	sort.SliceStable(en, func(i, j int) bool {
		a, b := en[i], en[j]
		if a.Name != b.Name {
			return a.Name < b.Name
		}
		if a.label != b.label {
			return a.label < b.label
		}
		return a.gid < b.gid // creation order
	})
	if e.last != nil {
		for i, t := range en {
			if t == e.last {
				copy(en[1:i+1], en[:i])
				en[0] = t
				break
			}
		}
	}
	return en
}

// Run schedules until stop() holds (checked when all threads are parked), all
// harness threads are done, or nothing can continue any more.
func (e *Exec) Run(stop func() bool) {
	e.sched = true
	defer func() { RaceAcquire(unsafe.Pointer(&e.join)) }()
	for {
		synctest.Wait()
		e.mu.Lock()
		crash := e.Crash != ""
		alive := e.alive()
		en := e.enabled()
		e.mu.Unlock()
		if crash || (stop != nil && stop()) || (stop == nil && alive == 0) {
			return
		}
		if len(en) == 0 {
			if !e.idle() {
				if alive > 0 || stop != nil {
					e.Stuck = e.describe()
				}
				return
			}
			continue
		}
		e.Steps++
		if e.Steps > e.MaxSteps {
			e.Stuck = "no progress after " + fmt.Sprint(e.MaxSteps) + " steps: " + e.describe()
			return
		}
		n := len(en)
		cont := e.last != nil && en[0] == e.last
		tick := e.TimeChoice
		var pick int
		if tick {
			// The last alternative lets time pass instead.
			pick = e.Choose(KTime, 2, true)
			if pick == 1 {
				e.idle()
				continue
			}
		}
		pick = e.Choose(KSched, n, cont || !e.FreeSwitch)
		t := en[pick]
		e.last = t
		if e.KeepTr {
			e.Trace = append(e.Trace, t.Name+": "+t.label)
		}
		e.mu.Lock()
		t.parked = false
		e.mu.Unlock()
		RaceOff()
		t.gate <- struct{}{}
		RaceBack()
	}
}

// idle lets virtual time pass until some thread parks or ends; false if none
// does within the horizon.
func (e *Exec) idle() bool {
	tm := time.NewTimer(e.Horizon)
	defer tm.Stop()
	// Drain a stale signal first: everything is parked now.
	select {
	case <-e.wake:
	default:
	}
	select {
	case <-e.wake:
		return true
	case <-tm.C:
		return false
	}
}

func (e *Exec) describe() string {
	var s []string
	for _, t := range e.all {
		if t.done {
			continue
		}
		if t.parked {
			s = append(s, fmt.Sprintf("%s waits at [%s]", t.Name, t.label))
		} else if t.harness {
			s = append(s, t.Name+" is blocked")
		}
	}
	if len(s) == 0 {
		return "nothing goes on"
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// Quiesce runs all remaining parked threads to completion in default order
// (no choices), letting d of virtual time pass.
func (e *Exec) Quiesce(d time.Duration) {
	e.sched = true
	end := time.Now().Add(d)
	for steps := 0; steps < e.MaxSteps; steps++ {
		synctest.Wait()
		e.mu.Lock()
		en := e.enabled()
		crash := e.Crash != ""
		e.mu.Unlock()
		if crash {
			return
		}
		if len(en) == 0 {
			left := time.Until(end)
			if left <= 0 {
				return
			}
			h := e.Horizon
			e.Horizon = left
			ok := e.idle()
			e.Horizon = h
			if !ok {
				return
			}
			continue
		}
		t := en[0]
		e.last = t
		e.mu.Lock()
		t.parked = false
		e.mu.Unlock()
		RaceOff()
		t.gate <- struct{}{}
		RaceBack()
	}
}

// Direct switches scheduling points off (single-threaded phases).
func (e *Exec) Direct() { e.sched = false }

// Finish tears the execution down: parked threads are unwound. It returns
// false if some goroutine cannot be stopped (base: goroutines before).
func (e *Exec) Finish(base int) bool {
	e.mu.Lock()
	e.dying = true
	e.mu.Unlock()
	e.sched = true
	for _, f := range closers {
		f(e)
	}
	for i := 0; i < 2000; i++ {
		synctest.Wait()
		var p []*Thread
		e.mu.Lock()
		for _, t := range e.all {
			if t.parked && !t.done {
				t.parked = false
				p = append(p, t)
			}
		}
		e.mu.Unlock()
		for _, t := range p {
			t.gate <- struct{}{}
		}
		if len(p) > 0 {
			continue
		}
		if runtime.NumGoroutine() <= base {
			e.sched = false
			Cur = nil
			return true
		}
		time.Sleep(time.Duration(i+1) * time.Minute)
	}
	return false
}

var closers []func(*Exec)

// OnFinish registers a shim cleanup.
func OnFinish(f func(*Exec)) { closers = append(closers, f) }

// Keys returns the keys of m in controlled order.
func Keys[K comparable, V any](m map[K]V) []K {
	if m == nil {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	e := Cur
	if len(keys) > 1 {
		switch ks := any(keys).(type) {
		case []int:
			sort.Ints(ks)
		case []string:
			sort.Strings(ks)
		default:
			str := make(map[K]string, len(keys))
			for _, k := range keys {
				str[k] = fmt.Sprintf("%v", reflect.ValueOf(k))
			}
			sort.Slice(keys, func(i, j int) bool { return str[keys[i]] < str[keys[j]] })
		}
		if e != nil && e.MapRev {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		if e != nil && e.MapChoice && e.X != nil {
			// Rotations and the reversal cover every "first element" and both
			// relative orders of every pair.
			r := e.Choose(KMap, len(keys)+1, true)
			if r == len(keys) {
				for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
					keys[i], keys[j] = keys[j], keys[i]
				}
			} else if r > 0 {
				keys = append(append([]K{}, keys[r:]...), keys[:r]...)
			}
		}
	}
	return keys
}

// AddCall appends to the RPC trace.
func (e *Exec) AddCall(ev *RPCEvent) {
	e.mu.Lock()
	ev.Seq = len(e.Calls)
	if t := e.thread(goid()); t != nil {
		ev.Thread = t.Name
	}
	e.Calls = append(e.Calls, ev)
	e.mu.Unlock()
}

// Iter replaces a range over a map.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// NewIter starts an iteration in controlled order.
func NewIter[M ~map[K]V, K comparable, V any](m M) (*Iter[K, V], K, V) {
	var k K
	var v V
	return &Iter[K, V]{m: m, keys: Keys(map[K]V(m))}, k, v
}

// NewIter1 is NewIter for loops that assign to existing variables.
func NewIter1[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	it, _, _ := NewIter(m)
	return it
}

// Next advances; entries deleted meanwhile are skipped.
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
