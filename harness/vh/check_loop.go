package vh

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"trypo/core/dps"
	"trypo/core/eventloop"
	"trypo/pkg/arbiter"
	"vharness/vrt"
)

// ---- the maintenance loop in virtual time ----

// Tasks of the loop, in the order of the configuration.
const (
	tExpire = iota
	tMemTrim
	tFast
	tAcc
	tInt
	tSplit
	tMerge
	tBalance
	tMeta
	nTasks
)

var taskNames = []string{"expire", "memtrim", "distFast", "distAcc", "distInt", "split", "merge", "balance", "meta"}

var taskOf = map[string]int{
	"Expire": tExpire, "MemTrim": tMemTrim, "DistributeDataPointsFast": tFast, "DistributeDataPointsAccurate": tAcc,
	"DistributeDataPointsInternal": tInt, "SplitCentroids": tSplit, "MergeCentroids": tMerge, "StealCentroid": tBalance,
}

// logT is a silent logger that notes the metadata it is given.
type logT struct {
	metas []metaLog
}

type metaLog struct {
	at time.Time
	m  eventloop.MetaData
}

func (l *logT) LogTask(string) {}
func (l *logT) LogMeta(m eventloop.MetaData) {
	l.metas = append(l.metas, metaLog{time.Now(), m})
}

type lcfg struct {
	skip      [nTasks]int
	localOnly bool
	fastN     int
	accN      int
	intN      int
	split     [2]int
	merge     [2]int
	loop      time.Duration
	step      time.Duration
}

func (c *lcfg) String() string {
	var s []string
	for i, k := range c.skip {
		s = append(s, fmt.Sprintf("%s:%d", taskNames[i], k))
	}
	return fmt.Sprintf("{%s fast %d acc %d int %d split %v merge %v local %v step %v}", strings.Join(s, " "), c.fastN, c.accN, c.intN, c.split, c.merge, c.localOnly, c.step)
}

// only enables the given tasks in every loop, the others in the first only.
func only(ts ...int) lcfg {
	c := lcfg{fastN: 2, accN: 2, intN: 3, split: [2]int{2, 9}, merge: [2]int{-1, 2}, loop: time.Hour}
	for i := range c.skip {
		c.skip[i] = 1000
	}
	for _, t := range ts {
		c.skip[t] = 1
	}
	return c
}

func (c *lcfg) real(local int, all []int, l eventloop.Logger) *eventloop.EventLoopConfig {
	var as []arbiter.Addr
	for _, i := range all {
		as = append(as, addrOf(i))
	}
	return &eventloop.EventLoopConfig{
		LocalAddr: addrOf(local), RemoteAddrs: as, TimeoutLoop: c.loop, TimeoutStep: c.step,
		TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: c.skip[tExpire], MemTrim: c.skip[tMemTrim], DistributeDataPointsFast: c.skip[tFast],
			DistributeDataPointsAccurate: c.skip[tAcc], DistributeDataPointsInternal: c.skip[tInt], SplitCentroids: c.skip[tSplit], MergeCentroids: c.skip[tMerge],
			LoadBalancing: c.skip[tBalance], Meta: c.skip[tMeta]},
		DistributeDataPointsFastN: c.fastN, DistributeDataPointsAccurateN: c.accN, DistributeDataPointsInternalN: c.intN,
		SplitCentroidsMin: c.split[0], SplitCentroidsMax: c.split[1], MergeCentroidsMin: c.merge[0], MergeCentroidsMax: c.merge[1],
		LogLocalOnly: c.localOnly, L: l,
	}
}

// callArgs extracts the arguments of a request by their wire names.
func callArgs(ev *vrt.RPCEvent) (ns string, n, min, max int, addrs []string) {
	v := reflect.Indirect(reflect.ValueOf(ev.Args))
	if v.Kind() == reflect.String {
		return v.String(), 0, 0, 0, nil
	}
	if v.Kind() != reflect.Struct {
		return
	}
	get := func(name string) int {
		if f := v.FieldByName(name); f.IsValid() && f.CanInt() {
			return int(f.Int())
		}
		return 0
	}
	if f := v.FieldByName("NameSpace"); f.IsValid() {
		ns = f.String()
	}
	if f := v.FieldByName("AddrOptions"); f.IsValid() {
		addrs, _ = f.Interface().([]string)
	}
	n = get("N")
	if f := v.FieldByName("TransferDPLimit"); f.IsValid() {
		n = int(f.Int())
		addrs = []string{v.FieldByName("FromAddr").String()}
	}
	return ns, n, get("DPRangeMin"), get("DPRangeMax"), addrs
}

// until runs the threads (with choices) up to the given virtual time.
func (r *R) until(t time.Time) {
	tm := time.AfterFunc(time.Until(t), func() { r.Signal() })
	h := r.Horizon
	r.Horizon = time.Until(t) + time.Minute
	defer func() { r.Horizon = h }()
	r.Run(func() bool { return !time.Now().Before(t) })
	tm.Stop()
}

// ---- E02: cadence ----

type cadence struct {
	name  string
	nodes []rstart // node 0 runs the loop
	down  []int
	cfg   lcfg
	loops int
}

func judgeCadence(r *R, w *world, c *cadence, lg *logT, start time.Time) {
	p := "E02"
	// Expected per loop.
	local := w.names0(0)
	if w.isDown(0) {
		local = nil
	}
	holders := map[string][]string{}
	for i := range w.nodes {
		if !w.isDown(i) {
			for _, ns := range w.names0(i) {
				holders[ns] = append(holders[ns], nodeAddr(i))
			}
		}
	}
	got := map[[2]int][]*vrt.RPCEvent{}
	for _, ev := range r.Calls {
		t, ok := taskOf[ev.Method]
		if !ok || ev.At <= start.Sub(w.t0) {
			continue
		}
		j := int((ev.At-start.Sub(w.t0))/c.cfg.loop) - 1
		got[[2]int{t, j}] = append(got[[2]int{t, j}], ev)
		if ev.Addr != nodeAddr(0) {
			r.Fail(p+"-target", "the loop of node 0 sent %s to %s", ev.Method, ev.Addr)
			return
		}
	}
	for t := 0; t < nTasks; t++ {
		k := c.cfg.skip[t]
		if k < 1 {
			continue // any cadence will do as long as the loop keeps running
		}
		for j := 0; j < c.loops; j++ {
			if k > 1000 && j > 998 || j > 1000 {
				continue
			}
			due := j%k == 0
			if t == tMeta {
				n := 0
				for _, m := range lg.metas {
					if int(m.at.Sub(start)/c.cfg.loop)-1 == j {
						n++
						if msg := metaWrong(w, c, m.m); msg != "" {
							r.Fail(p+"-meta", "%s: loop %d: %s", c.name, j, msg)
							return
						}
					}
				}
				if due && n != 1 || !due && n != 0 {
					r.Fail(p+"-cadence", "%s: metadata was logged %d times in loop %d (interval %d)", c.name, n, j, k)
					return
				}
				continue
			}
			evs := got[[2]int{t, j}]
			if t == tBalance {
				if due != (len(evs) > 0) {
					r.Fail(p+"-cadence", "%s: load balancing made %d requests in loop %d (interval %d)", c.name, len(evs), j, k)
					return
				}
				continue
			}
			seen := map[string]int{}
			for _, ev := range evs {
				ns, n, min, max, addrs := callArgs(ev)
				seen[ns]++
				bad := ""
				switch t {
				case tFast, tAcc:
					want := c.cfg.fastN
					if t == tAcc {
						want = c.cfg.accN
					}
					if n != want {
						bad = fmt.Sprintf("amount %d instead of %d", n, want)
					}
					if h := holders[ns]; !sameStrings(addrs, h) {
						bad = fmt.Sprintf("targets %v instead of %v", addrs, h)
					}
				case tInt:
					if n != c.cfg.intN {
						bad = fmt.Sprintf("amount %d instead of %d", n, c.cfg.intN)
					}
				case tSplit, tMerge:
					want := c.cfg.split
					if t == tMerge {
						want = c.cfg.merge
					}
					if [2]int{min, max} != want {
						bad = fmt.Sprintf("range %d..%d instead of %v", min, max, want)
					}
				}
				if bad != "" {
					r.Fail(p+"-args", "%s: %s of %q in loop %d: %s", c.name, taskNames[t], ns, j, bad)
					return
				}
			}
			for _, ns := range local {
				want := 0
				if due {
					want = 1
				}
				if seen[ns] != want {
					r.Fail(p+"-cadence", "%s: %s ran %d times for namespace %q in loop %d (interval %d)", c.name, taskNames[t], seen[ns], ns, j, k)
					return
				}
				delete(seen, ns)
			}
			if len(seen) > 0 {
				r.Fail(p+"-namespace", "%s: %s ran for namespaces the node does not hold: %v", c.name, taskNames[t], seen)
				return
			}
		}
	}
}

// metaWrong compares logged metadata with the contents; the contents of the
// scenarios' nodes do not change their numbers of datapoints.
func metaWrong(w *world, c *cadence, m eventloop.MetaData) string {
	want := map[arbiter.Addr]bool{}
	for i := range w.nodes {
		if i == 0 || !c.cfg.localOnly {
			want[addrOf(i)] = true
		}
	}
	for a := range m.Items {
		if !want[a] {
			return fmt.Sprintf("metadata of %v was logged", a)
		}
	}
	for i, n := range w.nodes {
		if !want[addrOf(i)] {
			continue
		}
		it, ok := m.Items[addrOf(i)]
		if !ok {
			return fmt.Sprintf("no metadata of node %d", i)
		}
		if w.isDown(i) {
			continue
		}
		if len(it.LenDP) != len(n.names()) {
			return fmt.Sprintf("metadata of node %d: %v", i, it)
		}
		for _, ns := range n.names() {
			s := n.snap(ns)
			if it.LenDP[ns] != len(s.allIDs()) {
				return fmt.Sprintf("metadata of node %d, namespace %q: %d datapoints instead of %d", i, ns, it.LenDP[ns], len(s.allIDs()))
			}
		}
	}
	return ""
}

func sameStrings(a, b []string) bool {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, "\x00") == strings.Join(b, "\x00")
}

func (w *world) names0(i int) []string {
	var k []string
	for ns := range w.pre[i] {
		k = append(k, ns)
	}
	sort.Strings(k)
	return k
}

func (u *U) cadences(cs []*cadence) {
	x := vrt.NewExplorer()
	u.Explore(x, func(r *R) {
		c := cs[r.Choose(vrt.KEnv, len(cs), false)]
		// Requests that would move data never arrive, so that every loop finds
		// the same contents.
		r.Fault = func(stage, addr, method string) bool {
			return stage == "request" && (method == "StealCentroid" || strings.HasPrefix(method, "Distribute") || method == "MergeCentroids" || method == "SplitCentroids" || method == "MemTrim")
		}
		s := &Scn{name: c.name, nodes: c.nodes, down: c.down, thr: 50}
		w := s.setup()
		var all []int
		for i := range w.nodes {
			all = append(all, i)
		}
		r.MaxSteps = 1 << 30
		lg := &logT{}
		start := time.Now()
		before := runtime.NumGoroutine()
		stop := eventloop.EventLoop(c.cfg.real(0, all, lg))
		r.Quiesce(time.Duration(c.loops)*c.cfg.loop + c.cfg.loop/2)
		stop()
		calls := len(r.Calls)
		r.Quiesce(5 * c.cfg.loop)
		if r.Crash == "" {
			judgeCadence(r, w, c, lg, start)
			if len(r.Calls) > calls {
				r.Fail("E02-stop", "%s: the stopped loop made further requests, first %s", c.name, r.Calls[calls].Method)
			}
			if n := runtime.NumGoroutine(); n > before {
				r.Fail("E02-ends", "%s: %d goroutines are left after the loop was stopped, %d were there before it was started", c.name, n, before)
			}
		}
		r.Direct()
		r.Log("%s %v: %d requests in %d loops", c.name, c.cfg.String(), len(r.Calls), c.loops)
		r.Outcome(fmt.Sprintf("%s %v %d", c.name, c.cfg.String(), len(r.Calls)))
		w.stopAll()
	})
}

// poor is a node with much less than its share, so that balancing is wanted.
func manyDPs(n int) []gspec {
	var g gspec
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * float64(i) / float64(n+1)
		g.dps = append(g.dps, dspec{v: vv(1+math.Cos(a), 0.5+math.Sin(a))})
	}
	return []gspec{g}
}

// wideNodes: a node with many namespaces and several others, the last but one
// down.
func wideNodes() []rstart {
	var st rstart
	st.name = "spaces"
	for i := 0; i < 13; i++ {
		st.seeds = append(st.seeds, nsSeed{fmt.Sprintf("s%d", i), []gspec{{dps: ds(sizedVec(i), sizedVec(i+1))}}})
	}
	st.seeds = append(st.seeds, nsSeed{"a", []gspec{{dps: ds(vX)}}}, nsSeed{"", nil})
	l := []rstart{st}
	for i := 0; i < 6; i++ {
		n := rstart{name: fmt.Sprint("w", i), seeds: []nsSeed{{fmt.Sprintf("s%d", 2*i), manyDPs(9)}, {"a", manyDPs([]int{150, 3, 5, 9, 0, 4}[i])}}}
		if i == 4 {
			n = rstart{name: "down"}
		}
		l = append(l, n)
	}
	return l
}

func cadenceUnits() []Unit {
	poor := rstart{name: "poor", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX)}}}}}
	two := rstart{name: "two", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX)}}}, {"", []gspec{{dps: ds(vY, vN)}}}}}
	odd := rstart{name: "odd", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX)}}}, {"a\x00b", []gspec{{dps: ds(vY)}}}, {"%d ns", nil}}}
	rich := rstart{name: "rich", seeds: []nsSeed{{"a", manyDPs(40)}, {"z", []gspec{{dps: ds(vX)}}}}}
	none := rstart{name: "none"}
	nets := []struct {
		nodes []rstart
		down  []int
	}{
		{[]rstart{poor, rich}, nil}, {[]rstart{two, rich, none}, nil}, {[]rstart{odd, rich, {name: "down"}}, []int{2}},
	}
	wideNet := wideNodes()
	nets = append(nets, struct {
		nodes []rstart
		down  []int
	}{wideNet, []int{len(wideNet) - 2}})
	vals := []int{math.MinInt64, -1, 0, 1, 2, 3, 5, 1000, 1001, math.MaxInt64}
	var us []Unit
	for ni := range nets {
		net := nets[ni]
		for t := 0; t < nTasks; t++ {
			var cs []*cadence
			for _, v := range vals {
				for _, others := range []int{1, 2, 4, 1 << 40} {
					c := &cadence{nodes: net.nodes, down: net.down, cfg: only(), loops: 11}
					for i := range c.cfg.skip {
						c.cfg.skip[i] = others
					}
					c.cfg.skip[t] = v
					c.cfg.localOnly = others == 2
					c.cfg.fastN, c.cfg.accN, c.cfg.intN = v%7, others%5, t-2
					c.cfg.split, c.cfg.merge = [2]int{t, others % 9}, [2]int{-t, v % 11}
					c.name = fmt.Sprintf("net%d %s=%d others=%d", ni, taskNames[t], v, others)
					cs = append(cs, c)
				}
			}
			us = append(us, Unit{Name: fmt.Sprintf("S6/cadence/net%d/%s", ni, taskNames[t]), Run: func(u *U) { u.cadences(cs) }})
		}
		// All different at once, and a whole counting cycle.
		mix := &cadence{nodes: net.nodes, down: net.down, cfg: only(), loops: 40, name: fmt.Sprintf("net%d mixed", ni)}
		mix.cfg.skip = [nTasks]int{2, 3, 4, 5, 6, 7, 8, 9, 10}
		rot := &cadence{nodes: net.nodes, down: net.down, cfg: only(), loops: 40, name: fmt.Sprintf("net%d mixed'", ni)}
		rot.cfg.skip = [nTasks]int{9, 8, 7, 6, 5, 4, 3, 2, 1}
		long := &cadence{nodes: net.nodes, down: net.down, cfg: only(), loops: 1001, name: fmt.Sprintf("net%d long", ni)}
		long.cfg.skip = [nTasks]int{7, 100, 333, 500, 501, 999, 1000, 250, 998}
		cs := []*cadence{mix, rot, long}
		for i := 0; i < len(cs); i++ {
			c := cs[i]
			us = append(us, Unit{Name: "S6/cadence/" + c.name, Run: func(u *U) { u.cadences([]*cadence{c}) }})
		}
	}
	// No local namespace, local node unreachable, no other node, no nodes at all.
	var cs []*cadence
	for _, v := range vals {
		for i, net := range []struct {
			nodes []rstart
			down  []int
		}{{[]rstart{none, rich}, nil}, {[]rstart{{name: "down"}, rich}, []int{0}}, {[]rstart{two}, nil}, {[]rstart{none}, nil}, {[]rstart{{name: "down"}}, []int{0}}} {
			c := &cadence{nodes: net.nodes, down: net.down, cfg: only(), loops: 5, name: fmt.Sprintf("edge%d all=%d", i, v)}
			for i := range c.cfg.skip {
				c.cfg.skip[i] = v
			}
			c.cfg.skip[tBalance] = 0 // judged above
			cs = append(cs, c)
		}
	}
	us = append(us, Unit{Name: "S6/cadence/edge", Run: func(u *U) { u.cadences(cs) }})
	return us
}

// stopUnits: the loop is stopped at every possible moment of its second round.
func stopUnits(p, bin string, budget int) []Unit {
	two := rstart{name: "two", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX)}, {dps: ds(vY)}}}, {"", []gspec{{dps: ds(vY, vN)}}}}}
	rich := rstart{name: "rich", seeds: []nsSeed{{"a", manyDPs(30)}}}
	var us []Unit
	for _, step := range []time.Duration{time.Minute, 0} {
		step := step
		n := nTasks + 2
		if step == 0 {
			n = 1
		}
		for k := 0; k <= n; k++ {
			k := k
			us = append(us, Unit{Name: fmt.Sprintf("S6/stop/step%v/%d", step, k), Bin: bin, Run: func(u *U) {
				x := vrt.NewExplorer().Set(vrt.KSched, budget)
				u.Explore(x, func(r *R) {
					s := &Scn{name: "stop", nodes: []rstart{two, rich}, thr: 50}
					w := s.setup()
					if step == 0 {
						r.FreeSwitch = false // all tasks happen at one instant
					}
					c := only(tExpire, tMemTrim, tFast, tAcc, tInt, tSplit, tMerge, tBalance, tMeta)
					c.step = step
					c.loop = 20 * time.Minute
					lg := &logT{}
					before := runtime.NumGoroutine()
					t0 := time.Now()
					stop := eventloop.EventLoop(c.real(0, []int{0, 1}, lg))
					round := c.loop + nTasks*c.step
					at := t0.Add(round + c.loop + time.Duration(k-1)*time.Minute)
					r.Quiesce(time.Until(at) - time.Second)
					var stopped time.Time
					r.Go("stopper", func() {
						time.Sleep(time.Until(at))
						vrt.Point("stop", nil)
						stop()
						stopped = time.Now()
					})
					end := at.Add(3 * round)
					r.until(end)
					late := map[time.Duration]bool{}
					for _, ev := range r.Calls {
						if d := ev.At - stopped.Sub(w.t0); d > 0 {
							late[d] = true
						}
					}
					if r.Crash == "" && r.Stuck == "" {
						if stopped.IsZero() {
							r.Fail(p+"-hang", "stopping the loop does not return")
						} else if len(late) > 1 || step == 0 && len(late) > 0 {
							r.Fail(p+"-stop", "%d further tasks were started after the loop was stopped", len(late))
						}
						if g := runtime.NumGoroutine(); g > before {
							r.Fail(p+"-ends", "%d goroutines are left after the loop was stopped, %d were there before it was started", g, before)
						}
						r.Outcome(fmt.Sprintf("%v %d %v %d", step, k, late, len(r.Calls)))
					}
					r.Direct()
					r.Log("stop at %v (step %v): %d requests, later instants %v", at.Sub(t0), step, len(r.Calls), late)
					w.stopAll()
				})
			}})
		}
	}
	return us
}

// ---- E03 ----

type balance struct {
	name  string
	nodes []rstart
	all   []int
}

func (u *U) balances(bs []*balance) {
	x := vrt.NewExplorer()
	u.Explore(x, func(r *R) {
		b := bs[r.Choose(vrt.KEnv, len(bs), false)]
		p := "E03"
		empty := make([]rstart, len(b.nodes))
		w := (&Scn{name: b.name, nodes: empty, thr: 1 << 20}).setup()
		c := only(tBalance)
		stop := eventloop.EventLoop(c.real(0, b.all, &logT{}))
		r.Quiesce(90 * time.Minute) // the first round finds nothing
		for i := range b.nodes {
			for _, sd := range b.nodes[i].seeds {
				w.nodes[i].seed(w.m, sd.ns, sd.groups)
			}
		}
		lens := func() map[string]map[int]int {
			m := map[string]map[int]int{}
			for i, n := range w.nodes {
				for ns, s := range n.snaps() {
					if m[ns] == nil {
						m[ns] = map[int]int{}
					}
					m[ns][i] = len(s.allIDs())
				}
			}
			return m
		}
		pre := lens()
		// Namespaces in which the next pass has to request something.
		must := map[string]string{}
		for ns, h := range pre {
			total := 0
			for _, n := range h {
				total += n
			}
			mean := total / len(h)
			margin := int(float64(mean) * 0.4)
			short := mean - h[0]
			if h[0] > mean-margin || short < 3*len(b.all) {
				continue
			}
			for o, n := range h {
				if o != 0 && has(b.all, o) && (len(h) == 1 || n-short >= mean+margin) {
					must[ns] = fmt.Sprintf("node 0 has %d of %q, the mean is %d and node %d has %d", h[0], ns, mean, o, n)
				}
			}
		}
		var begin time.Time
		asked := 0
		r.OnCall = func(ev *vrt.RPCEvent) {
			if ev.Method != "StealCentroid" {
				return
			}
			if !begin.Equal(time.Now()) {
				begin = time.Now()
				pre = lens()
				if asked > 0 {
					asked = 0
				}
			}
			asked++
			now := lens()
			ns, limit, _, _, from := callArgs(ev)
			delete(must, ns)
			me := nodeOf(ev.Addr)
			o := nodeOf(from[0])
			if me != 0 {
				r.Fail(p+"-puller", "%s: the loop of node 0 makes node %d pull", b.name, me)
				return
			}
			if o == 0 {
				r.Fail(p+"-self", "%s: node 0 pulls from itself", b.name)
				return
			}
			h := pre[ns]
			if len(h) == 0 {
				r.Fail(p+"-namespace", "%s: node 0 pulls in namespace %q that no node has", b.name, ns)
				return
			}
			if _, ok := h[o]; !ok {
				r.Fail(p+"-holder", "%s: node 0 pulls %q from node %d, which lacks it", b.name, ns, o)
				return
			}
			total := 0
			for _, n := range h {
				total += n
			}
			mean := total / len(h)
			margin := int(float64(mean) * 0.4)
			have := now[ns][0]
			r.Log("%q: node 0 has %d, mean %d, asks %d of node %d, which has %d", ns, have, mean, limit, o, now[ns][o])
			if have > mean-margin {
				r.Fail(p+"-full", "%s: node 0 holds %d of %q and pulls although the mean is %d (bound %d)", b.name, have, ns, mean, mean-margin)
				return
			}
			if limit <= 0 || limit > mean-have {
				r.Fail(p+"-amount", "%s: node 0 holds %d of %q, the mean is %d, and it requests %d", b.name, have, ns, mean, limit)
				return
			}
			if len(h) > 1 && now[ns][o]-limit < mean+margin {
				r.Fail(p+"-giver", "%s: node %d holds %d of %q (mean %d, bound %d) and is asked for %d", b.name, o, now[ns][o], ns, mean, mean+margin, limit)
			}
		}
		before := w.final()
		r.Quiesce(60 * time.Minute)
		for _, why := range must {
			r.Fail(p+"-idle", "%s: %s, but nothing is requested", b.name, why)
			break
		}
		r.Quiesce(90 * time.Minute)
		stop()
		r.Quiesce(2 * time.Hour)
		r.Direct()
		if r.Crash == "" {
			w.conserve(r, p, false)
			r.Outcome(b.name + ": " + w.final())
			if asked == 0 && before != w.final() {
				r.Fail(p+"-moved", "%s: contents changed without a request", b.name)
			}
		}
		w.stopAll()
	})
}

func balanceUnits(counts2, counts3 []int) []Unit {
	layout := func(n, size int) []gspec {
		var gs []gspec
		l := manyDPs(n)[0].dps
		for len(l) > 0 {
			k := size
			if k > len(l) {
				k = len(l)
			}
			gs = append(gs, gspec{dps: l[:k]})
			l = l[k:]
		}
		return gs
	}
	mk := func(n, size int) rstart {
		if n < 0 {
			return rstart{}
		}
		return rstart{seeds: []nsSeed{{"a", layout(n, size)}}}
	}
	var us []Unit
	// Many nodes, and many namespaces.
	for _, n := range []int{5, 8, 13} {
		var bs []*balance
		for _, c0 := range []int{-1, 0, 3, 20} {
			for form := 0; form < 4; form++ {
				for _, spaces := range []int{1, 11} {
					b := &balance{name: fmt.Sprintf("%d nodes, form %d, %d spaces, %d", n, form, spaces, c0)}
					for i := 0; i < n; i++ {
						c := []int{10, 3 * i, 25 * n * (i / (n - 1)), 30 - 2*i}[form]
						if i == 0 {
							c = c0
						}
						st := mk(c, 4)
						if spaces > 1 {
							st = rstart{}
							for k := 0; k < spaces; k++ {
								if c >= 0 {
									st.seeds = append(st.seeds, nsSeed{fmt.Sprint("s", k), layout(c+k*(c%3), 4)})
								}
							}
						}
						b.nodes = append(b.nodes, st)
						b.all = append(b.all, i)
					}
					bs = append(bs, b)
				}
			}
		}
		us = append(us, Unit{Name: fmt.Sprintf("S6/balance/crowd/%d", n), Run: func(u *U) { u.balances(bs) }})
	}
	for _, size := range []int{1, 4, 1000} {
		size := size
		for _, c0 := range counts3 {
			c0 := c0
			var bs []*balance
			for _, c1 := range counts3 {
				for _, c2 := range counts3 {
					bs = append(bs, &balance{name: fmt.Sprintf("%d,%d,%d groups of %d", c0, c1, c2, size), nodes: []rstart{mk(c0, size), mk(c1, size), mk(c2, size)}, all: []int{0, 1, 2}})
				}
			}
			us = append(us, Unit{Name: fmt.Sprintf("S6/balance/3/%d/size%d", c0, size), Run: func(u *U) { u.balances(bs) }})
		}
		var bs []*balance
		for _, c0 := range counts2 {
			for _, c1 := range counts2 {
				bs = append(bs, &balance{name: fmt.Sprintf("%d,%d groups of %d", c0, c1, size), nodes: []rstart{mk(c0, size), mk(c1, size)}, all: []int{0, 1}})
				bs = append(bs, &balance{name: fmt.Sprintf("%d,%d reversed, down, groups of %d", c0, c1, size), nodes: []rstart{mk(c0, size), mk(c1, size)}, all: []int{-1, 1, 0}})
				// A second namespace with the opposite distribution.
				a, b := mk(c0, size), mk(c1, size)
				if c1 >= 0 {
					a.seeds = append(a.seeds, nsSeed{"b", layout(c1, size)})
				}
				if c0 >= 0 {
					b.seeds = append(b.seeds, nsSeed{"b", layout(c0, size)})
				}
				bs = append(bs, &balance{name: fmt.Sprintf("%d,%d two namespaces, groups of %d", c0, c1, size), nodes: []rstart{a, b}, all: []int{0, 1}})
			}
		}
		us = append(us, Unit{Name: fmt.Sprintf("S6/balance/2/size%d", size), Run: func(u *U) { u.balances(bs) }})
	}
	return us
}

// ---- E01 ----

type maint struct {
	name    string
	nodes   []rstart
	cfgs    []lcfg
	clients [][]Req
}

func (u *U) maintain(ms []*maint, budget int) {
	p := "E01"
	x := vrt.NewExplorer().Set(vrt.KSched, budget)
	u.Explore(x, func(r *R) {
		m := ms[r.Choose(vrt.KEnv, len(ms), false)]
		s := &Scn{name: m.name, nodes: make([]rstart, len(m.nodes)), thr: 5, threads: m.clients}
		w := s.setup()
		var all []int
		for i := range m.nodes {
			all = append(all, i)
		}
		t0 := time.Now()
		var stops []func()
		for i := range m.nodes {
			stops = append(stops, eventloop.EventLoop(m.cfgs[i].real(i, all, &logT{})))
		}
		r.Quiesce(90 * time.Minute) // the first round finds nothing
		for i := range m.nodes {
			for _, sd := range m.nodes[i].seeds {
				w.nodes[i].seed(w.m, sd.ns, sd.groups)
			}
		}
		for t := range s.threads {
			rs := w.of(t)
			r.Go(fmt.Sprintf("T%d", t), func() {
				time.Sleep(time.Until(t0.Add(2 * time.Hour)))
				for _, x := range rs {
					w.do(x)
				}
			})
		}
		judge := func(when string) {
			if r.Crash != "" || r.Stuck != "" || len(r.fails) > 0 {
				return
			}
			for _, x := range w.recs {
				if !x.Done {
					r.Fail(p+"-unfinished", "%s: %v is unfinished", m.name, x.Q)
					return
				}
			}
			w.conserve(r, p, false)
			if len(r.fails) == 0 {
				w.retrievable(r, p, all)
			}
			r.Log("%s: %s", when, w.final())
		}
		r.FreeSwitch = false
		r.until(t0.Add(150 * time.Minute))
		r.Direct()
		w.logTo(r)
		judge("after the round")
		r.Outcome(m.name + ": " + w.outcome())
		// One more round, undisturbed.
		if r.Crash == "" && r.Stuck == "" && len(r.fails) == 0 {
			r.Quiesce(time.Until(t0.Add(210 * time.Minute)))
			r.Direct()
			judge("after another round")
		}
		for _, f := range stops {
			f()
		}
		r.Quiesce(3 * time.Hour)
		r.Direct()
		w.stopAll()
	})
}

// retrievable checks that everything stored is found by routed lookups.
func (w *world) retrievable(r *R, p string, all []int) {
	want := map[string]map[string]bool{}
	for _, n := range w.nodes {
		for ns, s := range n.snaps() {
			for gi := range s.G {
				for di := range s.G[gi].DPs {
					if d := &s.G[gi].DPs[di]; d.live(time.Now()) {
						if want[ns] == nil {
							want[ns] = map[string]bool{}
						}
						want[ns][d.ID] = true
					}
				}
			}
		}
	}
	var as []arbiter.Addr
	for _, i := range all {
		as = append(as, addrOf(i))
	}
	for ns, ids := range want {
		q := vv(1, 0.5)
		for id := range ids {
			n := len(w.m.reg[id].Vec)
			for len(q) < n {
				q = append(q, 0)
			}
			q = q[:n]
		}
		for k := 0; k < 2; k++ {
			args := dps.GetDataPointsArgs{AddrOptions: as, Namespace: ns, QueryVec: q, N: 1000, KNNSearchFunc: w.m.ms.knn}
			f := dps.GetDataPointsFast
			if k == 1 {
				f = dps.GetDataPointsAccurate
			}
			got := map[string]bool{}
			for _, d := range snapDPs(f(args)) {
				got[d.ID] = true
			}
			for id := range ids {
				if !got[id] {
					r.Fail(p+"-hidden", "%s is stored in %q but a lookup for everything does not return it (variant %d); %s", id, ns, k, w.final())
					return
				}
			}
		}
	}
}

func maintUnits(b1, b2 int) []Unit {
	ax := rstart{name: "ax", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vB, vv(0, 1))}, {dps: ds(vN)}}}}}
	yn := rstart{name: "yn", seeds: []nsSeed{{"a", []gspec{{dps: ds(vY, vv(0, 2), vv(1, -1))}, {dps: ds(vv(-1, -1))}}}, {"b", []gspec{{dps: ds(vX, vY)}}}}}
	ri := rstart{name: "rich", seeds: []nsSeed{{"a", []gspec{manyDPs(5)[0], {dps: manyDPs(14)[0].dps[2:9]}, {dps: manyDPs(9)[0].dps}}}}}
	no := rstart{name: "none"}
	ex := rstart{name: "exp", seeds: []nsSeed{{"a", []gspec{{dps: []dspec{x(vX, xShort), x(vB, xNone), x(vXY, xLong)}}, {dps: []dspec{x(vY, xShort)}}}}}}
	move := []int{tExpire, tMemTrim, tFast, tAcc, tInt, tSplit, tMerge, tBalance}
	clients := [][][]Req{
		nil,
		{{{Node: 0, Op: na(Op{Kind: "add", Vec: vX})}}},
		{{{Node: 1, Op: na(Op{Kind: "add", Vec: vN})}}, {{Node: 0, Op: na(Op{Kind: "drainU", N: 2})}}},
		{{{Node: 0, Op: na(Op{Kind: "knn", Vec: vX, N: 2, Drain: true})}}},
		{{{Op: na(Op{Kind: "putFast", Vec: vY}), To: []int{0, 1}}}, {{Op: na(Op{Kind: "getAcc", Vec: vX, N: 2, Drain: true}), To: []int{0, 1}}}},
	}
	nets := [][]rstart{{ax, yn}, {no, ri}, {ax, ex}}
	var us []Unit
	for ni := range nets {
		net := nets[ni]
		for ti, t := range move {
			for tj, t2 := range move {
				if ni == 0 && tj < ti {
					continue
				}
				var ms []*maint
				for ci, cl := range clients {
					if !thorough && ci > 0 && (ti+3*tj+ci+ni)%5 != 0 {
						continue
					}
					if dist := func(t int) bool { return t == tFast || t == tAcc }; !thorough && ci > 2 && (dist(t) || dist(t2)) {
						continue
					}
					ms = append(ms, &maint{name: fmt.Sprintf("%s|%s %s|%s clients%d", net[0].name, net[1].name, taskNames[t], taskNames[t2], ci), nodes: net, cfgs: []lcfg{only(t), only(t2)}, clients: cl})
				}
				us = append(us, Unit{Name: fmt.Sprintf("S6/maint/%s-%s/%s-%s", net[0].name, net[1].name, taskNames[t], taskNames[t2]), Run: func(u *U) { u.maintain(ms, b1) }})
			}
		}
		// Everything at once.
		var ms []*maint
		for ci, cl := range clients {
			ms = append(ms, &maint{name: fmt.Sprintf("%s|%s all|all clients%d", net[0].name, net[1].name, ci), nodes: net, cfgs: []lcfg{only(move...), only(move...)}, clients: cl})
		}
		us = append(us, Unit{Name: fmt.Sprintf("S6/maint/%s-%s/all", net[0].name, net[1].name), Run: func(u *U) { u.maintain(ms, b2) }})
	}
	three := []*maint{}
	for ci, cl := range clients {
		three = append(three, &maint{name: fmt.Sprintf("three nodes, clients%d", ci), nodes: []rstart{ax, no, ri}, cfgs: []lcfg{only(move...), only(move...), only(move...)}, clients: cl})
	}
	us = append(us, Unit{Name: "S6/maint/three/all", Run: func(u *U) { u.maintain(three, b2) }})
	for _, t := range []int{tFast, tAcc, tBalance, -1} {
		ts := move
		if t >= 0 {
			ts = []int{t}
		}
		wide := wideNodes()
		wide[5] = no
		m := &maint{name: fmt.Sprintf("seven nodes, task %d", t), nodes: wide, clients: clients[4]}
		for range wide {
			m.cfgs = append(m.cfgs, only(ts...))
		}
		us = append(us, Unit{Name: fmt.Sprintf("S6/maint/seven/%d", t), Run: func(u *U) { u.maintain([]*maint{m}, 0) }})
	}
	return us
}

func init() {
	checks["E01"] = func() Check {
		if thorough {
			return Check{Units: maintUnits(3, 2)}
		}
		return Check{Units: maintUnits(2, 1)}
	}
	checks["E02"] = func() Check {
		b := 2
		if thorough {
			b = 3
		}
		return Check{Units: append(cadenceUnits(), stopUnits("E02", "", b)...)}
	}
	checks["E03"] = func() Check {
		c2 := []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 24, 25, 30, 40}
		c3 := []int{-1, 0, 1, 8, 9, 10, 12, 18, 20, 27, 30, 45}
		if thorough {
			c2 = nil
			for i := -1; i < 46; i++ {
				c2 = append(c2, i)
			}
			c3 = append(c3, 5, 14, 15, 24, 36, 37, 54, 60)
		}
		return Check{Units: balanceUnits(c2, c3)}
	}
}
