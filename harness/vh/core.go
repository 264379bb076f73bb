// Package vh holds the scenario families and oracles.
package vh

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"vharness/vrt"
)

// Violation is one property violation.
type Violation struct {
	Key     string
	Msg     string
	Choices []int
	Trace   []string
	Unit    string
	Bin     string
}

// Unit is a separately schedulable part of a check.
type Unit struct {
	Name string
	Bin  string // "sched", "race" or "native"
	Run  func(u *U)
}

// U collects the results of one unit run.
type U struct {
	t          *testing.T
	Unit       int
	Name       string
	Execs      int
	States     int
	Trans      int
	Outcomes   int
	Conform    int
	Exhaustive bool
	Note       string
	Violations []Violation
	Known      []Violation
	Samples    []string
	Resume     []int
	ResumeN    []int
	WallMS     int
	Flaky      int
	// Digest of everything observed, compared between a unit and its native twin.
	Digest string

	replay   *Violation
	replayed bool
	states   map[uint64]struct{}
	outs     map[string]struct{}
	resume   []int
	resumeN  []int
}

var (
	prop     = os.Getenv("VH_PROP")
	tier     = os.Getenv("VH_TIER")
	thorough = tier == "thorough"
	deadline int64
	progF    *os.File
	knownSet = map[string]bool{}
)

func realNow() int64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return tv.Sec*1000 + int64(tv.Usec)/1000
}

func outOfTime() bool { return deadline > 0 && realNow() > deadline*1000 }

var (
	activity int64 // bumped per execution
	progBuf  [4096]byte
)

func noteProgress(choices []int) {
	atomic.AddInt64(&activity, 1)
	if progF == nil {
		return
	}
	b := append(progBuf[:0], '[')
	for i, c := range choices {
		if i > 0 {
			b = append(b, ',')
		}
		b = appendInt(b, c)
	}
	b = append(b, ']', '\n')
	progF.WriteAt(b, 0)
}

func appendInt(b []byte, n int) []byte { return fmt.Append(b, n) }

// watchdog runs outside every bubble.
func watchdog(limit time.Duration) {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			a := atomic.LoadInt64(&activity)
			if a != last {
				last, since = a, time.Now()
				continue
			}
			if a >= 0 && time.Since(since) > limit && atomic.LoadInt32(&busy) == 1 {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "VH-HANG no progress for %v in one execution\n%s\n", limit, hangStacks(string(buf[:n])))
				os.Exit(7)
			}
		}
	}()
}

var busy int32

func hangStacks(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "/repo/") {
			out = append(out, g)
		}
	}
	r := strings.Join(out, "\n\n")
	if len(r) > 3000 {
		r = r[:3000]
	}
	return r
}

// digest accumulates what the running unit observes.
var digest uint64

func mixStr(s string) {
	h := digest
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	digest = h
}

func mixInt(x uint64) {
	h := digest
	for i := 0; i < 8; i++ {
		h = (h ^ (x & 255)) * 1099511628211
		x >>= 8
	}
	digest = h
}

func mixVec(v []float64) {
	mixInt(uint64(len(v)))
	for _, x := range v {
		mixInt(math.Float64bits(x))
	}
}

// withNative repeats the picked units on the uninstrumented build; the runner
// compares what both observed.
func withNative(us []Unit, pick func(name string) bool) []Unit {
	for _, u := range us[:len(us):len(us)] {
		if u.Bin == "" && pick(u.Name) {
			us = append(us, Unit{Name: "native/" + u.Name, Bin: "native", Run: u.Run})
		}
	}
	return us
}

// Fail records a violation found with the given choices.
func (u *U) Fail(key, msg string, choices []int, trace []string) {
	v := Violation{Key: key, Msg: msg, Choices: append([]int{}, choices...), Trace: trace, Unit: u.Name}
	if knownSet[key] {
		for _, k := range u.Known {
			if k.Key == key {
				return
			}
		}
		u.Known = append(u.Known, v)
		return
	}
	u.Violations = append(u.Violations, v)
}

// Failed reports whether an (unknown) violation was recorded.
func (u *U) Failed() bool { return len(u.Violations) > 0 }

// State counts a distinct state.
func (u *U) State(h uint64) bool {
	if _, ok := u.states[h]; ok {
		return false
	}
	u.states[h] = struct{}{}
	u.States = len(u.states)
	return true
}

// Outcome counts a distinct observable outcome.
func (u *U) Outcome(s string) {
	if _, ok := u.outs[s]; !ok {
		u.outs[s] = struct{}{}
		u.Outcomes = len(u.outs)
	}
}

// Sample keeps a few written-out cases.
func (u *U) Sample(f func() string) {
	if len(u.Samples) < 2 {
		u.Samples = append(u.Samples, f())
	}
}

// R is one schedule-explored execution.
type R struct {
	*vrt.Exec
	u     *U
	fails []Violation
	out   string
	log   []string
	hash  uint64
}

// Fail records a violation of the execution.
func (r *R) Fail(key, format string, a ...interface{}) {
	r.fails = append(r.fails, Violation{Key: key, Msg: fmt.Sprintf(format, a...)})
}

// Log appends to the execution's written-out trace.
func (r *R) Log(format string, a ...interface{}) { r.log = append(r.log, fmt.Sprintf(format, a...)) }

// Outcome sets the canonical observable outcome.
func (r *R) Outcome(s string) { r.out = s }

// Explore enumerates all executions of body within the explorer's budgets.
// body runs on the controller: it sets up, starts threads, runs them, judges.
func (u *U) Explore(x *vrt.Explorer, body func(r *R)) {
	if u.replay != nil {
		x.Replay(u.replay.Choices)
		x.Begin()
		r, _ := u.one(x, body, true)
		for _, f := range r.fails {
			if f.Key == u.replay.Key || u.replay.Key == "" {
				u.replayed = true
				u.Violations = append(u.Violations, Violation{Key: f.Key, Msg: f.Msg, Choices: u.replay.Choices, Trace: trace(r)})
				return
			}
		}
		return
	}
	u.Exhaustive = true
	if u.resume != nil {
		x.Resume(u.resume, u.resumeN)
	}
	for x.Begin() {
		r, clean := u.one(x, body, false)
		u.Execs++
		u.Trans += r.Steps
		if x.Diverged != "" {
			u.Note = "nondeterminism: " + x.Diverged
			u.Exhaustive = false
			u.Flaky++
			return
		}
		if r.out != "" {
			u.Outcome(r.out)
			u.State(hashString(r.out))
		}
		if len(r.fails) > 0 {
			choices := x.Choices()
			// Replay before believing it.
			ok := true
			var tr []string
			if clean && !vrt.RaceOn { // the race detector reports a race once per process
				for i := 0; i < 2 && ok; i++ {
					y := vrt.NewExplorer()
					y.Replay(choices)
					y.Begin()
					r2, c2 := u.one(y, body, true)
					ok = len(r2.fails) > 0 && r2.fails[0].Key == r.fails[0].Key
					tr = trace(r2)
					clean = clean && c2
				}
			}
			if ok {
				u.Fail(r.fails[0].Key, r.fails[0].Msg, choices, tr)
				if u.Failed() {
					u.Exhaustive = false
					return
				}
			} else {
				u.Flaky++
				u.Note = "unreproducible: " + r.fails[0].Msg
			}
		} else {
			u.Sample(func() string {
				s := strings.Join(r.log, "; ")
				if len(s) > 700 {
					s = s[:700] + "..."
				}
				return s
			})
		}
		x.End()
		if !clean {
			// Goroutines of the code under test cannot be stopped: the process
			// must be replaced; continue there.
			u.Exhaustive = x.Done()
			if !x.Done() {
				u.Resume, u.ResumeN = x.Next()
			}
			u.Note = "worker replaced: goroutines survive"
			return
		}
		if outOfTime() {
			if !x.Done() {
				u.Exhaustive = false
				u.Note = "time budget"
			}
			return
		}
	}
}

func trace(r *R) []string {
	t := append([]string{}, r.log...)
	if len(r.Trace) > 0 {
		t = append(t, "schedule:")
		t = append(t, r.Trace...)
	}
	if len(t) > 120 {
		t = t[:120]
	}
	return t
}

func (u *U) one(x *vrt.Explorer, body func(r *R), keep bool) (r *R, clean bool) {
	noteProgress(x.Prefix())
	atomic.StoreInt32(&busy, 1)
	defer atomic.StoreInt32(&busy, 0)
	r = &R{u: u}
	bubble(u.t, func(t *testing.T) {
		base := runtime.NumGoroutine()
		r.Exec = vrt.Begin(x)
		r.KeepTr = keep
		body(r)
		if m := newRaces(); m != "" {
			r.fails = append([]Violation{{Key: "race", Msg: m}}, r.fails...)
		}
		if r.Crash != "" && !r.has("crash") {
			r.fails = append([]Violation{{Key: "crash", Msg: r.Crash}}, r.fails...)
		}
		if r.Stuck != "" && !r.has("stuck") {
			r.fails = append(r.fails, Violation{Key: "stuck", Msg: r.Stuck})
		}
		clean = r.Finish(base)
		if !clean {
			u.emergency(r, x)
		}
	})
	return r, clean
}

func (r *R) has(k string) bool {
	for _, f := range r.fails {
		if f.Key == k {
			return true
		}
	}
	return false
}

// emergency is called when goroutines of the code under test survive the
// teardown: the bubble can never end, so the result is written from here and
// the process ends.
func (u *U) emergency(r *R, x *vrt.Explorer) {
	if u.replay != nil {
		rep := false
		var v Violation
		for _, f := range r.fails {
			if f.Key == u.replay.Key {
				rep, v = true, f
				v.Trace = trace(r)
				break
			}
		}
		emit(map[string]interface{}{"Reproduced": rep, "V": v})
		os.Exit(0)
	}
	u.Execs++
	u.Trans += r.Steps
	if r.out != "" {
		u.Outcome(r.out)
		u.State(hashString(r.out))
	}
	if len(r.fails) > 0 {
		u.Fail(r.fails[0].Key, r.fails[0].Msg, x.Choices(), trace(r))
	}
	if !u.Failed() {
		x.End()
		if !x.Done() {
			u.Resume, u.ResumeN = x.Next()
		} else {
			u.Exhaustive = true
		}
	}
	u.Note = "worker replaced: goroutines survive"
	emit(u)
	os.Exit(0)
}

var outF *os.File

func emit(v interface{}) {
	b, _ := json.Marshal(v)
	outF.Write(append(b, '\n'))
}

// Bubble runs f once inside a bubble (for searches without schedules).
func (u *U) Bubble(f func()) {
	atomic.StoreInt32(&busy, 1)
	defer atomic.StoreInt32(&busy, 0)
	bubble(u.t, func(t *testing.T) { f() })
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Check lists the units of a property.
type Check struct {
	Units []Unit
	Notes []string
}

var checks = map[string]func() Check{}
