package vh

import (
	"fmt"
	"os"
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"vharness/vrt"
)

// Search is an explicit-state search: breadth first over all operation
// sequences up to Depth, states identified by a canonical deep hash of the
// objects under test.
type Search struct {
	Init  func() *M
	Ops   []Op
	Depth int
	Judge func(m *M, s *Step) (key, msg string)
	Hash  func(m *M) uint64
	// Base operations may occur anywhere; the others only end a history.
	Base int
	// MapRev iterates maps in descending instead of ascending key order.
	MapRev bool
	// Digest every transition (see withNative).
	Digest bool
	// Fresh is run before / after each path replay.
	Before func()
	After  func(m *M)
	prefix []int
	// Probe examines the object after the state was recorded; it may change it.
	Probe func(m *M, s *Step) (key, msg string)
}

// Search runs the search.
func (u *U) Search(s *Search) {
	atomic.StoreInt32(&busy, 1)
	defer atomic.StoreInt32(&busy, 0)
	bubble(u.t, func(t *testing.T) { u.search(s) })
}

// Searches runs several searches as one; the first choice of a counterexample
// is the index of the search.
func (u *U) Searches(ss []*Search) {
	atomic.StoreInt32(&busy, 1)
	defer atomic.StoreInt32(&busy, 0)
	for i, s := range ss {
		if u.Failed() {
			return
		}
		s.prefix = []int{i}
		if u.replay != nil && (len(u.replay.Choices) == 0 || u.replay.Choices[0] != i) {
			continue
		}
		ok := u.Exhaustive || i == 0
		bubble(u.t, func(t *testing.T) { u.search(s) })
		u.Exhaustive = u.Exhaustive && ok
		if u.Note != "" && u.replay == nil && outOfTime() {
			return
		}
	}
}

func (u *U) pathTrace(s *Search, path []int) []string {
	var tr []string
	m := s.start()
	tr = append(tr, "start: "+snapString(m))
	for _, i := range path {
		st := m.apply(&s.Ops[i], true)
		if st.Crash != "" {
			tr = append(tr, fmt.Sprintf("%v -> crash", st.Op))
			break
		}
		tr = append(tr, st.describe())
	}
	s.stop(m)
	return tr
}

func snapString(m *M) string {
	sn := m.snap()
	return sn.String()
}

func (s *Search) start() *M {
	e := vrt.Begin(nil)
	e.MapRev = s.MapRev
	m := s.Init()
	return m
}

func (s *Search) stop(m *M) {
	if s.After != nil {
		s.After(m)
	}
	if vrt.Cur != nil {
		vrt.Cur = nil
	}
}

func (u *U) search(s *Search) {
	baseGoroutines = runtime.NumGoroutine()
	hash := s.Hash
	if hash == nil {
		hash = func(m *M) uint64 {
			switch b := m.be.(type) {
			case *managerBE:
				return DeepHash(time.Now(), b.cm)
			case *centroidBE:
				return DeepHash(time.Now(), b.c)
			}
			sn := m.snap()
			return hashString(sn.fullKey())
		}
	}
	var h uint64
	run := func(path []int, last int, judge bool) (m *M, st *Step, key, msg string) {
		m = s.start()
		for _, i := range path {
			if x := m.apply(&s.Ops[i], false); x.Crash != "" {
				return m, x, "crash", x.Crash
			}
		}
		if last < 0 {
			return
		}
		st = m.apply(&s.Ops[last], judge)
		if s.Digest && judge {
			mixStr(st.describe())
		}
		if st.Crash != "" {
			return m, st, "crash", fmt.Sprintf("%v: %s", st.Op, st.Crash)
		}
		if judge {
			key, msg = s.Judge(m, st)
			if key == "" {
				h = hash(m)
				if s.Probe != nil {
					key, msg = s.Probe(m, st)
				}
			}
			if key != "" {
				msg = fmt.Sprintf("%v: %s", st.Op, msg)
			}
		}
		return
	}
	if u.replay != nil {
		p := u.replay.Choices[min(len(s.prefix), len(u.replay.Choices)):]
		if len(p) == 0 {
			return
		}
		noteProgress(p)
		m, _, key, msg := run(p[:len(p)-1], p[len(p)-1], true)
		s.stop(m)
		if key != "" && (key == u.replay.Key || u.replay.Key == "hang") {
			u.replayed = true
			u.Violations = append(u.Violations, Violation{Key: key, Msg: msg, Choices: u.replay.Choices, Trace: u.pathTrace(s, p)})
		}
		return
	}
	u.Exhaustive = true
	m, _, _, _ := run(nil, -1, false)
	u.State(hash(m))
	s.stop(m)
	frontier := [][]int{{}}
	full := make([]int, 0, 16)
	for d := 0; d < s.Depth; d++ {
		var next [][]int
		for _, p := range frontier {
			for i := range s.Ops {
				full = append(append(append(full[:0], s.prefix...), p...), i)
				noteProgress(full)
				full = full[len(s.prefix):]
				m, st, key, msg := run(p, i, true)
				u.Trans++
				u.Execs++
				if key != "" {
					s.stop(m)
					path := append(append([]int{}, s.prefix...), full...)
					m2, _, k2, _ := run(p, i, true)
					s.stop(m2)
					if k2 != key {
						u.Flaky++
						u.Note = "unreproducible: " + msg
						continue
					}
					u.Fail(key, msg, path, u.pathTrace(s, full))
					if u.Failed() {
						u.Exhaustive = false
						return
					}
					continue
				}
				isNew := u.State(h)
				s.stop(m)
				if isNew && d+1 < s.Depth && (s.Base == 0 || i < s.Base) {
					next = append(next, append([]int{}, full...))
				}
				if d+1 == s.Depth && len(u.Samples) < 1 && u.Trans > 200 {
					tr := u.pathTrace(s, full)
					u.Sample(func() string { return fmt.Sprint(tr) })
				}
				_ = st
				if u.Trans&63 == 0 && outOfTime() {
					u.Exhaustive = false
					u.Note = fmt.Sprintf("time budget at depth %d", d+1)
					return
				}
			}
		}
		frontier = next
	}
	if os.Getenv("VH_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d transitions, %d states\n", u.Name, u.Trans, u.States)
	}
}
