package vh

import (
	"fmt"
	"io"
	"net"
	"net/rpc"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	kmrpc "trypo/pkg/kmeans/rpc"
	"vharness/vrt"
	"vharness/vrt/vrpc"
)

// R09: starting and stopping nodes.

// act is one step of a life-cycle program.
type act struct {
	k string // start, stop, call, open, use, shut, put
	s int    // server (start, stop), connection (open, use, shut)
}

func (a act) String() string { return fmt.Sprintf("%s%d", a.k, a.s) }

func acts(s string) []act {
	var r []act
	for _, w := range strings.Fields(s) {
		n := len(w) - 1
		r = append(r, act{w[:n], int(w[n] - '0')})
	}
	return r
}

// conns abstracts the raw connections: instrumented or real.
type rawClient interface {
	Call(method string, args, reply interface{}) error
	Close() error
}

type lifeEv struct {
	thread     int
	a          act
	start, end int // logical time; end 0: unfinished
	err        error
	names      string // namespaces answered
	skipped    bool
}

type life struct {
	addr  string
	srv   []*kmrpc.KMeansServer
	stops []func()
	cs    map[int]rawClient
	dial  func(addr string) (rawClient, error)
	evs   []*lifeEv
	clk   int
	// native: over real connections; dead: an answer did not come, so no more
	// is asked.
	native, dead bool
	mu           sync.Mutex // hands stop functions and connections from thread to thread
}

func newLife(addr string, dial func(string) (rawClient, error)) *life {
	l := &life{addr: addr, dial: dial, cs: map[int]rawClient{}}
	for i := 0; i < 3; i++ {
		s := kmrpc.NewKMeansServer(addr, func(v []float64) *Manager { return newManager(cosM, 10, v) })
		var ok bool
		s.AddDataPoint(kmrpc.AddDataPointArgs{NameSpace: fmt.Sprint("s", i), DP: DP{Vec: cpv(vX), Payload: []byte("p")}}, &ok)
		l.srv = append(l.srv, s)
		l.stops = append(l.stops, nil)
	}
	return l
}

func (l *life) do(t int, a act) {
	if l.dead {
		return
	}
	atomic.AddInt64(&activity, 1)
	e := &lifeEv{thread: t, a: a}
	l.clk++
	e.start = l.clk
	l.evs = append(l.evs, e)
	switch a.k {
	case "start":
		var stop func()
		stop, e.err = kmrpc.StartListen(l.srv[a.s])
		if e.err == nil {
			l.mu.Lock()
			l.stops[a.s] = stop
			l.mu.Unlock()
		}
	case "stop":
		l.mu.Lock()
		stop := l.stops[a.s]
		l.mu.Unlock()
		if stop == nil {
			e.skipped = true
		} else {
			stop()
		}
	case "call":
		e.err, e.names = l.call()
	case "open":
		c, err := l.dial(l.addr)
		e.err = err
		if err == nil {
			l.mu.Lock()
			l.cs[a.s] = c
			l.mu.Unlock()
		}
	case "use":
		if c := l.conn(a.s); c == nil {
			e.skipped = true
		} else {
			var r []string
			e.err = c.Call("KMeansServer.Namespaces", 0, &r)
			l.dead = e.err == io.ErrNoProgress
			e.names = strings.Join(r, ",")
		}
	case "shut":
		if c := l.conn(a.s); c == nil {
			e.skipped = true
		} else {
			e.err = c.Close()
		}
	}
	l.clk++
	e.end = l.clk
}

// call asks the node through the client of the code under test.
func (l *life) call() (error, string) {
	ask := func() (error, string) {
		var err error
		n := kmrpc.KMeansClient(l.addr, "x", &err).Namespaces()
		return err, strings.Join(n, ",")
	}
	if !l.native {
		return ask()
	}
	type res struct {
		err error
		s   string
	}
	ch := make(chan res, 1)
	go func() { e, s := ask(); ch <- res{e, s} }()
	select {
	case r := <-ch:
		return r.err, r.s
	case <-time.After(20 * time.Second):
		l.dead = true
		return io.ErrNoProgress, ""
	}
}

func (l *life) conn(i int) rawClient {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.cs[i]
}

func (l *life) finish() {
	for _, c := range l.cs {
		c.Close()
	}
	for _, s := range l.stops {
		if s != nil {
			s()
		}
	}
}

// judge compares every answer with what the real-time order of the starts and
// stops allows.
func (l *life) judge() (key, msg string) {
	const inf = 1 << 30
	type run struct {
		srv            int
		from, sure     int // earliest moment it may run; from then on it surely runs
		maybe, gone    int // from here on it may be stopped; from then on it surely is
		startEv, endEv *lifeEv
	}
	var runs []*run
	for _, e := range l.evs {
		if e.a.k != "start" || e.err != nil {
			continue
		}
		r := &run{srv: e.a.s, from: e.start, sure: e.end, maybe: inf, gone: inf, startEv: e}
		if e.end == 0 {
			r.sure = inf
		}
		for _, p := range l.evs {
			if p.a.k == "stop" && p.a.s == e.a.s && !p.skipped && p.start > e.start && r.maybe == inf {
				// A server object is started again only after its stop.
				r.maybe = p.start
				if p.end != 0 {
					r.gone = p.end
				}
				break
			}
		}
		runs = append(runs, r)
	}
	opened := map[int]*lifeEv{}
	shut := map[int]bool{}
	for _, e := range l.evs {
		if e.end == 0 {
			return "hang", fmt.Sprintf("%v never ends", e.a)
		}
		if e.skipped {
			continue
		}
		var must *run
		var may []*run
		for _, r := range runs {
			if r.startEv == e {
				continue
			}
			if r.sure < e.start && e.end < r.maybe {
				must = r
			}
			if r.from < e.end && e.start < r.gone {
				may = append(may, r)
			}
		}
		switch e.a.k {
		case "start":
			if e.err == nil && must != nil {
				return "inuse", fmt.Sprintf("%v succeeds although server %d runs on the address", e.a, must.srv)
			}
			if e.err != nil && len(may) == 0 {
				return "start", fmt.Sprintf("%v fails although the address is free: %v", e.a, e.err)
			}
		case "call", "open":
			if must != nil && e.err != nil {
				return "served", fmt.Sprintf("%v by T%d fails although server %d runs: %v", e.a, e.thread, must.srv, e.err)
			}
			if len(may) == 0 && e.err == nil {
				return "refused", fmt.Sprintf("%v by T%d succeeds although no server runs", e.a, e.thread)
			}
			if e.a.k == "open" {
				opened[e.a.s] = e
			} else if e.err == nil {
				ok := false
				for _, r := range may {
					ok = ok || e.names == fmt.Sprint("s", r.srv)
				}
				if !ok {
					return "answer", fmt.Sprintf("%v by T%d is answered %q, no such server runs", e.a, e.thread, e.names)
				}
			}
		case "use":
			o := opened[e.a.s]
			for _, r := range runs {
				if r.sure < o.start && e.end < r.maybe && !shut[e.a.s] {
					if e.err != nil {
						return "served", fmt.Sprintf("%v by T%d fails although server %d runs: %v", e.a, e.thread, r.srv, e.err)
					}
					if e.names != fmt.Sprint("s", r.srv) {
						return "answer", fmt.Sprintf("%v by T%d is answered %q by server %d", e.a, e.thread, e.names, r.srv)
					}
				}
			}
		case "shut":
			shut[e.a.s] = true
		}
	}
	return "", ""
}

func (l *life) outcome() string {
	var b strings.Builder
	for _, e := range l.evs {
		st := "ok"
		if e.skipped {
			st = "-"
		} else if e.err != nil {
			st = "err"
		} else if e.end == 0 {
			st = "?"
		}
		fmt.Fprintf(&b, "T%d %v [%d..%d] %s%s; ", e.thread, e.a, e.start, e.end, st, e.names)
	}
	return b.String()
}

type lifeScn struct {
	pre     []act
	threads [][]act
	post    []act
}

func (s *lifeScn) String() string { return fmt.Sprintf("%v; %v; %v", s.pre, s.threads, s.post) }

func (u *U) lives(ss []*lifeScn, budget int) {
	x := vrt.NewExplorer().Set(vrt.KSched, budget)
	u.Explore(x, func(r *R) {
		s := ss[r.Choose(vrt.KEnv, len(ss), false)]
		r.AcceptPoints = true
		var l *life
		l = newLife("127.0.0.1:7001", func(a string) (rawClient, error) {
			c, err := vrpc.Dial("tcp", a)
			if err != nil {
				return nil, err
			}
			return c, nil
		})
		r.Direct()
		for _, a := range s.pre {
			l.do(-1, a)
		}
		for t := range s.threads {
			t := t
			r.Go(fmt.Sprintf("T%d", t), func() {
				for _, a := range s.threads[t] {
					l.do(t, a)
				}
			})
		}
		r.Run(nil)
		if r.Crash == "" && r.Stuck == "" && len(s.post) > 0 {
			// The rest follows once everything else came to rest.
			r.Quiesce(time.Minute)
			r.Go("end", func() {
				for _, a := range s.post {
					l.do(9, a)
				}
			})
		}
		r.Quiesce(time.Minute)
		r.Direct()
		r.Log("programs %v", s)
		r.Log("%s", l.outcome())
		if r.Crash == "" && r.Stuck == "" {
			if k, m := l.judge(); k != "" {
				r.Fail("R09-"+k, "%s", m)
			}
			r.Outcome(s.String() + " " + l.outcome())
		}
		if r.Crash == "" {
			l.finish()
		}
	})
}

// lifeScns are the programs.
func lifeScns() [][]*lifeScn {
	owners := []string{"stop0", "stop0 start1", "stop0 stop0", "stop0 start0", "start1 stop0", "stop0 start1 stop1", "stop0 start1 stop0", "start1 stop0 start2", "start1"}
	users := []string{"call0", "call0 call0", "open0 use0", "open0 use0 use0", "open0 use0 shut0 call0", "stop0", "start1", "start1 stop1", "use9", "open0 shut0 open0 use0"}
	rest := "call0 stop0 stop1 stop2 call0 start2 call0 open3 use3 start1 stop2 call0"
	var out [][]*lifeScn
	for _, o := range owners {
		var one []*lifeScn
		for _, a := range users {
			one = append(one, &lifeScn{pre: acts("start0"), threads: [][]act{acts(o), acts(a)}, post: acts(rest)})
			// A connection that is open all the time.
			one = append(one, &lifeScn{pre: acts("start0 open9"), threads: [][]act{acts(o), acts("use9 " + a)}, post: acts(rest)})
			// From the very start.
			if !strings.HasPrefix(o, "start") {
				one = append(one, &lifeScn{threads: [][]act{acts("start0 " + o), acts(a)}, post: acts(rest)})
			}
		}
		out = append(out, one)
	}
	return out
}

func lifeScns3() [][]*lifeScn {
	owners := []string{"stop0", "stop0 start1", "start1 stop0", "call0"}
	users := []string{"call0", "open0 use0", "open0 use0 shut0", "stop0"}
	var out [][]*lifeScn
	for _, o := range owners {
		for i, a := range users {
			var one []*lifeScn
			for _, b := range users[i:] {
				b = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(b, "open0", "open1"), "use0", "use1"), "shut0", "shut1")
				one = append(one, &lifeScn{pre: acts("start0"), threads: [][]act{acts(o), acts(a), acts(b)}, post: acts("call0 stop0 stop1 call0 start2 call0")})
			}
			out = append(out, one)
		}
	}
	return out
}

// lifeUnits are the units of R09; bin "race" for the race-detecting build.
func lifeUnits(bin string, b2, b3 int) []Unit {
	var us []Unit
	all := lifeScns()
	for i := len(all) - 1; i >= 0; i-- { // the largest first
		ss := all[i]
		for part := 0; part < 3; part++ {
			p := ss[part*len(ss)/3 : (part+1)*len(ss)/3]
			us = append(us, Unit{Name: fmt.Sprintf("life/%v/%d.%d", ss[0].threads[0], i, part), Bin: bin, Run: func(u *U) { u.lives(p, b2) }})
		}
	}
	for i, ss := range lifeScns3() {
		if b3 < 0 {
			break
		}
		ss := ss
		us = append(us, Unit{Name: fmt.Sprintf("life3/%v-%v/%d", ss[0].threads[0], ss[0].threads[1], i), Bin: bin, Run: func(u *U) { u.lives(ss, b3) }})
	}
	return us
}

// ---- Sequences of any length, and the same over real TCP ----

// program is a sequential history of steps after which more steps are possible.
var lifeAlphabet = []string{"start0", "start1", "stop0", "stop1", "call0", "open0", "use0", "shut0", "open1", "use1"}

func runLife(l *life, p []int) (key, msg string) {
	for _, i := range p {
		l.do(0, acts(lifeAlphabet[i])[0])
	}
	defer l.finish()
	return l.judge()
}

func (u *U) lifeHistories(depth int, run func(p []int) (string, string, string)) {
	if u.replay != nil {
		k, m, tr := run(u.replay.Choices)
		if k != "" && k == u.replay.Key {
			u.replayed = true
			u.Violations = append(u.Violations, Violation{Key: k, Msg: m, Choices: u.replay.Choices, Trace: []string{tr}})
		}
		return
	}
	u.Exhaustive = true
	var rec func(p []int) bool
	rec = func(p []int) bool {
		if len(p) == depth {
			noteProgress(p)
			k, m, tr := run(p)
			u.Execs++
			u.Trans += len(p)
			u.State(hashString(tr))
			if k != "" {
				if k2, _, _ := run(p); k2 == k {
					u.Fail(k, m, append([]int{}, p...), []string{tr})
					u.Exhaustive = false
					return !u.Failed()
				}
				u.Flaky++
			}
			if outOfTime() {
				u.Exhaustive, u.Note = false, "time budget"
				return false
			}
			return true
		}
		for i := range lifeAlphabet {
			if !rec(append(p, i)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

// useful histories start with a start and never start a running server object
// again (its stop function would be lost).
func validLife(p []int) bool {
	up := map[byte]bool{}
	var owner byte
	for i, a := range p {
		w := lifeAlphabet[a]
		if i == 0 && w != "start0" {
			return false
		}
		s := w[len(w)-1]
		switch w[:len(w)-1] {
		case "start":
			if up[s] {
				return false
			}
			if owner == 0 {
				owner = s
				up[s] = true
			}
		case "stop":
			if owner == s {
				owner = 0
			}
			up[s] = false
		}
	}
	return true
}

func lifeSeqUnit(bin string, depth int) Unit {
	name := "life/sequences"
	if bin == "native" {
		name = "native/life/sequences"
	}
	return Unit{Name: name, Bin: bin, Run: func(u *U) {
		addr := "127.0.0.1:7001"
		if bin == "native" {
			addr = freeAddr()
		}
		u.lifeHistories(depth, func(p []int) (k, m, tr string) {
			if !validLife(p) {
				return
			}
			if bin != "native" {
				u.Bubble(func() {
					e := vrt.Begin(nil)
					l := newLife(addr, func(a string) (rawClient, error) {
						c, err := vrpc.Dial("tcp", a)
						if err != nil {
							return nil, err
						}
						return c, nil
					})
					k, m = runLife(l, p)
					tr = l.outcome()
					e.Quiesce(time.Minute)
					e.Finish(0)
				})
				if k != "" {
					k = "R09-" + k
				}
				return
			}
			l := newLife(addr, func(a string) (rawClient, error) {
				c, err := net.DialTimeout("tcp", a, 10*time.Second)
				if err != nil {
					return nil, err
				}
				return timedClient{rpc.NewClient(c)}, nil
			})
			l.native = true
			k, m = runLife(l, p)
			tr = l.outcome()
			if k != "" {
				k = "R09-" + k
			} else {
				u.Conform++
			}
			return
		})
	}}
}

// timedClient turns an answer that never comes into an error.
type timedClient struct{ c *rpc.Client }

func (t timedClient) Call(m string, a, r interface{}) error {
	call := t.c.Go(m, a, r, make(chan *rpc.Call, 1))
	select {
	case <-call.Done:
		return call.Error
	case <-time.After(20 * time.Second):
		return io.ErrNoProgress
	}
}
func (t timedClient) Close() error { return t.c.Close() }

// manyUnit: many connections, one after the other and all open at once.
func manyUnit(bin string, n int) Unit {
	name := "life/many"
	if bin == "native" {
		name = "native/life/many"
	}
	return Unit{Name: name, Bin: bin, Run: func(u *U) {
		u.Exhaustive = true
		body := func(addr string, dial func(string) (rawClient, error)) (k, m string) {
			l := newLife(addr, dial)
			l.native = bin == "native"
			l.do(0, act{"start", 0})
			for i := 0; i < n; i++ {
				l.do(0, act{"call", 0})
			}
			for i := 0; i < n; i++ {
				l.do(0, act{"open", i})
			}
			for i := n - 1; i >= 0; i-- {
				l.do(0, act{"use", i})
			}
			for i := 0; i < n; i++ {
				l.do(0, act{"use", i})
			}
			l.do(0, act{"stop", 0})
			l.do(0, act{"call", 0})
			l.do(0, act{"start", 0})
			for i := 0; i < 2*n; i++ {
				l.do(0, act{"call", 0})
			}
			defer l.finish()
			u.Trans += len(l.evs)
			u.State(hashString(l.outcome()))
			return l.judge()
		}
		var k, m string
		if bin == "native" {
			k, m = body(freeAddr(), func(a string) (rawClient, error) {
				c, err := net.DialTimeout("tcp", a, 10*time.Second)
				if err != nil {
					return nil, err
				}
				return timedClient{rpc.NewClient(c)}, nil
			})
			u.Conform++
		} else {
			u.Bubble(func() {
				e := vrt.Begin(nil)
				k, m = body("127.0.0.1:7001", func(a string) (rawClient, error) {
					c, err := vrpc.Dial("tcp", a)
					if err != nil {
						return nil, err
					}
					return c, nil
				})
				e.Quiesce(time.Minute)
				e.Finish(0)
			})
		}
		u.Execs++
		if k != "" {
			k = "R09-" + k
			if u.replay != nil {
				if u.replay.Key == k {
					u.replayed = true
					u.Violations = append(u.Violations, Violation{Key: k, Msg: m})
				}
				return
			}
			u.Fail(k, m, nil, nil)
		}
	}}
}

func init() {
	checks["R09"] = func() Check {
		b2, b3, d := 2, 0, 5
		if thorough {
			b2, b3, d = 3, 2, 6
		}
		us := lifeUnits("", b2, b3)
		us = append(us, lifeSeqUnit("", d), lifeSeqUnit("native", d-1), manyUnit("", 40), manyUnit("native", 40))
		return Check{Units: us, Notes: []string{"the in-memory network replaces TCP under the scheduler; sequential histories are repeated over real loopback TCP"}}
	}
}
