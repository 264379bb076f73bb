package vh

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"trypo/core/dps"
	"trypo/core/nodes"
	"trypo/pkg/arbiter"
	kmrpc "trypo/pkg/kmeans/rpc"
	"vharness/vrt"
	"vharness/vrt/vnet"
)

// Req is one client request of a concurrent scenario.
type Req struct {
	Node int // addressed node; -1: unreachable address
	Op   Op
	To   []int // distribution targets / steal source
}

func (q *Req) String() string {
	s := fmt.Sprintf("n%d.%s", q.Node, q.Op.String())
	switch q.Op.Kind {
	case "distFast", "distAcc":
		s += fmt.Sprintf("(%d)->%v", q.Op.N, q.To)
	case "steal":
		s += fmt.Sprintf("(%d)<-%v", q.Op.N, q.To)
	case "rankFast", "rankAcc", "putRand", "putFast", "putAcc", "getRand", "getFast", "getAcc", "putFastH", "putAccH", "getFastH", "getAccH":
		s = fmt.Sprintf("%s:%s(%s", q.Op.NS, q.Op.Kind, fv(q.Op.Vec))
		if q.Op.Kind[0] == 'g' {
			s += fmt.Sprintf(",%d,drain=%v", q.Op.N, q.Op.Drain)
		}
		if q.Op.Kind[0] == 'p' {
			s += []string{"", "/past-disabled", "/long", "/short", "/expired"}[q.Op.Exp]
		}
		s += fmt.Sprintf(" of %v)", q.To)
	}
	return s
}

// Scn is a concurrent scenario.
type Scn struct {
	name    string
	nodes   []rstart
	ms      *measure
	thr     int
	threads [][]Req
	stages  string // fault stages allowed: d(ial) q(request) r(eply); delays: s (request late) S (reply late)
	methods string // methods faults may hit ("" = all), comma separated
	rev     bool
	ref     bool // sequential reference is meaningful
	randAll bool // every random draw is enumerated
	acc     bool // accept and dial are scheduling points
	cls     bool // the end of a call is a scheduling point
	paid    bool // every departure from the default schedule counts
	down    []int
	twin    bool  // all datapoints have the same contents
	api     bool  // with an HTTP API in front of all nodes
	warm    []Req // performed one after the other before everything else
}

// Ans is an observed answer.
type Ans struct {
	Str   string
	DPs   []DPS
	OK    bool
	N     int
	Err   error
	Names []string
	Nodes []int // ranking answered
	Code  int   // HTTP status
	Body  string
	G     []GSnap
}

// rec is one performed request.
type rec struct {
	T, I       int
	Q          *Req
	DP         *DPS
	put        *DP
	A          Ans
	Start, End int
	At, AtEnd  time.Time
	Done       bool
}

// world is one instantiated scenario.
type world struct {
	m     *M
	s     *Scn
	nodes []*node
	pre   []map[string]Snap
	recs  []*rec
	clk   int
	// faults injected: node -> stages hit
	faults map[int]string
	nfault int
	afault int // faults that hit a request or reply after the connection was made
	hits   []hit
	post   func(path, body string) (int, string) // sends an HTTP request
	t0     time.Time                             // start of the execution
}

type hit struct {
	node          int
	stage, method string
	clk           int
}

// The first two nodes share a port, others share a host.
func nodeOf(addr string) int {
	var h, p int
	if n, _ := fmt.Sscanf(addr, "127.0.0.%d:%d", &h, &p); n == 2 && p >= 7100 && p < 7102 {
		for i := 0; i < 32; i++ {
			if nodeAddr(i) == addr {
				return i
			}
		}
	}
	return -1
}

func addrOf(i int) arbiter.Addr {
	a := nodeAddr(i)
	k := strings.LastIndex(a, ":")
	return arbiter.Addr{IP: a[:k], Port: a[k+1:]}
}

func nodeAddr(i int) string {
	if i < 0 {
		return downAddr
	}
	switch i {
	case 2:
		return "127.0.0.2:7101"
	case 3:
		return "127.0.0.1:7101"
	}
	return fmt.Sprintf("127.0.0.%d:7100", i+1)
}

// setup must run on the controller.
func (s *Scn) setup() *world { return s.setupAt(nil) }

// setupAt uses the given addresses for the nodes.
func (s *Scn) setupAt(at []string) *world {
	w := s.setupNodes(at, 0)
	w.mkRecs()
	return w
}

// setupNodes starts the nodes, numbered from off.
func (s *Scn) setupNodes(at []string, off int) *world {
	ms := s.ms
	if ms == nil {
		ms = cosM
	}
	w := &world{m: newM(ms, s.thr), s: s, faults: map[int]string{}, t0: time.Now()}
	w.m.twins = s.twin
	ticked := false
	for i := range s.nodes {
		a := nodeAddr(i + off)
		if at != nil {
			a = at[i]
		}
		n := startNode(a, ms, s.thr)
		for _, sd := range s.nodes[i].seeds {
			n.seed(w.m, sd.ns, sd.groups)
		}
		ticked = ticked || s.nodes[i].tick
		w.nodes = append(w.nodes, n)
	}
	for _, i := range s.down {
		vnet.Unplug(nodeAddr(i))
	}
	if s.api {
		w.startAPI()
	}
	if ticked {
		time.Sleep(tick)
	}
	if s.warm != nil {
		w.warmUp()
	}
	for _, n := range w.nodes {
		w.pre = append(w.pre, n.snaps())
	}
	return w
}

// warmUp performs the scenario's early requests and forgets them.
func (w *world) warmUp() {
	s := *w.s
	t := &world{m: w.m, s: &s, nodes: w.nodes, faults: w.faults, t0: w.t0, post: w.post}
	s.threads, s.warm = [][]Req{s.warm}, nil
	t.mkRecs()
	for _, x := range t.recs {
		switch x.Q.Op.Kind {
		case "outage":
			vnet.Outage(nodeAddr(x.Q.Node), x.Q.Op.N > 0)
		case "wait":
			time.Sleep(tick)
		default:
			t.do(x)
		}
	}
	for i := range w.nodes {
		vnet.Outage(nodeAddr(i), false)
	}
	vrt.Cur.Calls = nil
	here := map[string]bool{}
	for _, n := range w.nodes {
		for _, s := range n.snaps() {
			for id := range s.allIDs() {
				here[id] = true
			}
		}
	}
	for id := range w.m.reg {
		if !here[id] {
			delete(w.m.reg, id)
		}
	}
}

// mkRecs prepares the requests of the threads.
func (w *world) mkRecs() {
	s := w.s
	for t, th := range s.threads {
		for i := range th {
			x := &rec{T: t, I: i, Q: &th[i]}
			switch q := x.Q; q.Op.Kind {
			case "putRand", "putFast", "putAcc", "add", "putFastH", "putAccH":
				id := fmt.Sprintf("t%d.%d", t, i)
				for w.m.reg[id] != nil {
					id = "u" + id
				}
				if s.twin {
					id = "twin"
				}
				d := w.m.mkDPid(id, q.Op.Vec, q.Op.Exp)
				w.m.nsOf[string(d.Payload)] = q.Op.NS
				s := snapDP(&d)
				x.put, x.DP = &d, &s
			}
			w.recs = append(w.recs, x)
		}
	}
}

func (w *world) stopAll() {
	for _, n := range w.nodes {
		n.stop()
	}
}

func (w *world) of(t int) []*rec {
	var r []*rec
	for _, x := range w.recs {
		if x.T == t {
			r = append(r, x)
		}
	}
	return r
}

func (w *world) do(x *rec) {
	w.clk++
	x.Start = w.clk
	x.At = time.Now()
	x.A = w.perform(x)
	w.clk++
	x.End = w.clk
	x.AtEnd = time.Now()
	x.Done = true
}

func groupsStr(cs []*Centroid) (string, []DPS) {
	var b strings.Builder
	var all []DPS
	for _, c := range cs {
		if c == nil {
			b.WriteString("{nil}")
			continue
		}
		g := snapGroup(c)
		all = append(all, g.DPs...)
		fmt.Fprintf(&b, "{%s:%v}", fv(g.Vec), ids(g.DPs))
	}
	return b.String(), all
}

func (w *world) perform(x *rec) (a Ans) {
	q, op := x.Q, &x.Q.Op
	var err error
	c := client(nodeAddr(q.Node), op.NS, &err)
	defer func() {
		a.Err = err
		if err != nil {
			a.Str += "!err"
		}
	}()
	lst := func(ds []DP) {
		a.DPs = snapDPs(ds)
		a.Str = fmt.Sprint(ids(a.DPs))
	}
	var addrs []arbiter.Addr
	for _, i := range q.To {
		addrs = append(addrs, addrOf(i))
	}
	ms := w.m.ms
	switch op.Kind {
	case "rankFast", "rankAcc":
		args := nodes.BestFitNodesArgs{AddrOpts: addrs, Namespace: op.NS, Vec: cpv(op.Vec), KNNSearchFunc: ms.knn}
		f := nodes.BestFitNodesFast
		if op.Kind == "rankAcc" {
			f = nodes.BestFitNodesAccurate
		}
		for _, r := range f(args) {
			n := nodeOf(r.ToStr())
			if n < 0 || r.ToStr() != nodeAddr(n) {
				n = -2
			}
			a.Nodes = append(a.Nodes, n)
		}
		a.Str = fmt.Sprint(a.Nodes)
	case "putRand", "putFast", "putAcc":
		args := dps.PutDataPointArgs{AddrOptions: addrs, Namespace: op.NS, DataPoint: *x.put, KNNSearchFunc: ms.knn}
		switch op.Kind {
		case "putRand":
			a.OK = dps.PutDataPointRand(args)
		case "putFast":
			a.OK = dps.PutDataPointFast(args)
		default:
			a.OK = dps.PutDataPointAccurate(args)
		}
		a.Str = fmt.Sprint(a.OK)
	case "getRand", "getFast", "getAcc":
		args := dps.GetDataPointsArgs{AddrOptions: addrs, Namespace: op.NS, QueryVec: cpv(op.Vec), N: op.N, Drain: op.Drain, KNNSearchFunc: ms.knn}
		switch op.Kind {
		case "getRand":
			lst(dps.GetDataPointsRand(args))
		case "getFast":
			lst(dps.GetDataPointsFast(args))
		default:
			lst(dps.GetDataPointsAccurate(args))
		}
	case "putFastH", "putAccH", "getFastH", "getAccH", "badH":
		a = w.http(x)
	case "add":
		a.OK = c.AddDataPoint(*x.put)
		a.Str = fmt.Sprint(a.OK)
	case "drainU":
		lst(c.DrainUnordered(op.N))
	case "drainO":
		lst(c.DrainOrdered(op.N))
	case "knn":
		lst(c.KNNLookup(cpv(op.Vec), op.N, op.Drain))
	case "nearest":
		cs, ok := c.NearestCentroids(cpv(op.Vec), op.N, op.Drain)
		a.OK = ok
		a.Str, a.DPs = groupsStr(cs)
	case "nearestVec":
		a.Str = fv(c.NearestCentroidVec(cpv(op.Vec)))
	case "vec":
		a.Str = fv(c.Vec())
	case "split":
		c.SplitCentroids(op.Min, op.Max)
	case "merge":
		c.MergeCentroids(op.Min, op.Max)
	case "expire":
		c.Expire()
	case "memtrim":
		c.MemTrim()
	case "move":
		a.OK = c.MoveVector()
		a.Str = fmt.Sprint(a.OK)
	case "lendp":
		a.N = c.LenDP()
		a.Str = fmt.Sprint(a.N)
	case "distInt":
		c.DistributeDataPointsInternal(op.N)
	case "distFast", "distAcc":
		var to []string
		for _, i := range q.To {
			to = append(to, nodeAddr(i))
		}
		if op.Kind == "distFast" {
			c.DistributeDataPointsFast(to, op.N)
		} else {
			c.DistributeDataPointsAccurate(to, op.N)
		}
	case "steal":
		a.N, a.OK = c.StealCentroids(nodeAddr(q.To[0]), op.N)
		a.Str = fmt.Sprint(a.N, a.OK)
	case "namespaces":
		a.Names = c.Namespaces()
		s := append([]string{}, a.Names...)
		sort.Strings(s)
		a.Str = fmt.Sprintf("%q", s)
	case "meta":
		r := c.Meta()
		a.Str = metaStr(r)
	default:
		panic("harness: request " + op.Kind)
	}
	return a
}

func metaStr(r kmrpc.MetaResp) string {
	var k []string
	for n := range r.DPs {
		k = append(k, fmt.Sprintf("%q:%d/%d", n, r.Centroids[n], r.DPs[n]))
	}
	sort.Strings(k)
	return fmt.Sprint(k)
}

// final describes the end contents.
func (w *world) final() string {
	var b strings.Builder
	for i, n := range w.nodes {
		fmt.Fprintf(&b, "n%d:", i)
		for _, ns := range n.names() {
			s := n.snap(ns)
			fmt.Fprintf(&b, "%q%s%s ", ns, fv(s.Vec), s.contentKey())
		}
	}
	return b.String()
}

func (w *world) outcome() string {
	var b strings.Builder
	for _, x := range w.recs {
		fmt.Fprintf(&b, "%d.%d=%s; ", x.T, x.I, x.A.Str)
	}
	b.WriteString(w.final())
	return b.String()
}

// orders enumerates the merges of the threads' request sequences.
func (s *Scn) orders() [][][2]int {
	var out [][][2]int
	pos := make([]int, len(s.threads))
	var cur [][2]int
	total := 0
	for _, t := range s.threads {
		total += len(t)
	}
	var rec func()
	rec = func() {
		if len(cur) == total {
			out = append(out, append([][2]int{}, cur...))
			return
		}
		for t := range s.threads {
			if pos[t] < len(s.threads[t]) {
				cur = append(cur, [2]int{t, pos[t]})
				pos[t]++
				rec()
				pos[t]--
				cur = cur[:len(cur)-1]
			}
		}
	}
	rec()
	return out
}

// sequential computes the outcome of every sequential order on the real code.
func (u *U) sequential(s *Scn) map[string][][][2]int {
	res := map[string][][][2]int{}
	for _, o := range s.orders() {
		atomic.AddInt64(&activity, 1)
		bubble(u.t, func(t *testing.T) {
			base := runtime.NumGoroutine()
			e := vrt.Begin(nil)
			e.MapRev = s.rev
			w := s.setup()
			for _, p := range o {
				for _, x := range w.recs {
					if x.T == p[0] && x.I == p[1] {
						w.do(x)
					}
				}
			}
			k := w.outcome()
			res[k] = append(res[k], o)
			w.stopAll()
			if !e.Finish(base) {
				panic("harness: goroutines survive a sequential run")
			}
		})
	}
	return res
}

// legal reports whether one of the orders respects the real-time order.
func (w *world) legal(orders [][][2]int) bool {
	at := map[[2]int]*rec{}
	for _, x := range w.recs {
		at[[2]int{x.T, x.I}] = x
	}
next:
	for _, o := range orders {
		for i := range o {
			for j := i + 1; j < len(o); j++ {
				// o[j] comes later: it must not have ended before o[i] started.
				if at[o[j]].End < at[o[i]].Start {
					continue next
				}
			}
		}
		return true
	}
	return false
}

// run starts the scenario's threads and runs them to the end.
func (w *world) run(r *R) {
	for t := range w.s.threads {
		rs := w.of(t)
		r.Go(fmt.Sprintf("T%d", t), func() {
			for _, x := range rs {
				w.do(x)
			}
		})
	}
	r.Run(nil)
	r.Direct()
}

func (w *world) logTo(r *R) {
	for _, x := range w.recs {
		if x.Done {
			r.Log("T%d %v -> %s [%d..%d]", x.T, x.Q, x.A.Str, x.Start, x.End)
		} else {
			r.Log("T%d %v unfinished", x.T, x.Q)
		}
	}
}

// Requests whose own transport is not subject to faults: the request under test.
var outer = map[string]bool{"DistributeDataPointsFast": true, "DistributeDataPointsAccurate": true, "StealCentroid": true}

// A slow node answers, but late: the request arrives late, or the reply does.
var stageSlow = map[string]string{"request": "s", "reply": "S"}

const slowTime = 9 * time.Minute

var stageLetter = map[string]string{"dial": "d", "request": "q", "reply": "r"}

// explore runs every scenario under every schedule (and fault) of the budgets.
func (u *U) explore(ss []*Scn, budget, faults int, pre func(r *R, w *world), judge func(r *R, w *world, ref map[string][][][2]int)) {
	refs := make([]map[string][][][2]int, len(ss))
	for i, s := range ss {
		if s.ref {
			refs[i] = u.sequential(s)
		}
	}
	x := vrt.NewExplorer().Set(vrt.KSched, budget).Set(vrt.KFault, faults)
	u.Explore(x, func(r *R) {
		i := r.Choose(vrt.KEnv, len(ss), false)
		s := ss[i]
		r.MapRev = s.rev
		var w *world
		r.RandFree = s.randAll
		r.AcceptPoints = s.acc
		r.ClosePoints = s.cls
		r.FreeSwitch = !s.paid
		if faults > 0 && s.stages != "" {
			r.Fault = func(stage, addr, method string) bool {
				if r.IsController() || outer[method] {
					return false
				}
				fail, slow := strings.Contains(s.stages, stageLetter[stage]), stageSlow[stage] != "" && strings.Contains(s.stages, stageSlow[stage])
				if !fail && !slow {
					return false
				}
				if s.methods != "" && stage != "dial" && !strings.Contains(","+s.methods+",", ","+method+",") {
					return false
				}
				n := 2
				if fail && slow {
					n = 3
				}
				c := r.Choose(vrt.KFault, n, true)
				if c == 0 {
					return false
				}
				if c == 2 || !fail {
					r.Log("slow: %s %s %s", stage, addr, method)
					time.Sleep(slowTime)
					return false
				}
				r.Log("fault: %s %s %s", stage, addr, method)
				if w != nil {
					n := nodeOf(addr)
					w.clk++
					w.hits = append(w.hits, hit{n, stage, method, w.clk})
					w.faults[n] += stageLetter[stage]
					w.nfault++
				}
				return true
			}
		}
		w = s.setup()
		if pre != nil {
			pre(r, w)
		}
		w.run(r)
		r.Log("scenario %s", s.name)
		w.logTo(r)
		if r.Crash == "" && r.Stuck == "" {
			r.Outcome(s.name + ": " + w.outcome())
			r.Log("end: %s", w.final())
			judge(r, w, refs[i])
		}
		w.stopAll()
	})
}

// conserve checks that every datapoint is in at most one place, is unaltered,
// and that nothing acknowledged and live is gone. dup allows copies.
func (w *world) conserve(r *R, p string, dupOK bool) {
	now := time.Now()
	count := map[string]int{}
	handed := map[string]int{}
	for i, n := range w.nodes {
		for ns, s := range n.snaps() {
			for gi := range s.G {
				for di := range s.G[gi].DPs {
					d := &s.G[gi].DPs[di]
					count[d.ID]++
					if o := w.m.reg[d.ID]; o == nil || !eqDP(d, o) {
						r.Fail(p+"-altered", "node %d holds an altered datapoint %s", i, d.ID)
						return
					}
					if w.m.nsOf[d.ID] != ns {
						r.Fail(p+"-namespace", "%s of namespace %q is in %q of node %d", d.ID, w.m.nsOf[d.ID], ns, i)
						return
					}
				}
			}
		}
	}
	for _, x := range w.recs {
		if !x.Done {
			continue
		}
		k := x.Q.Op.Kind
		if strings.HasPrefix(k, "get") && x.Q.Op.Drain || k == "drainU" || k == "drainO" || (k == "knn" || k == "nearest") && x.Q.Op.Drain {
			for _, d := range x.A.DPs {
				handed[d.ID]++
			}
		}
	}
	for id, d := range w.m.reg {
		c := count[id] + handed[id]
		if c > 1 && !dupOK {
			r.Fail(p+"-doubled", "%s is stored %d times and was handed out %d times", id, count[id], handed[id])
			return
		}
		if c > 0 || !d.live(now) {
			continue
		}
		// Not there: only fine if its put was refused or failed.
		acked := true
		for _, x := range w.recs {
			if x.DP != nil && x.DP.ID == id {
				acked = x.Done && x.A.OK
			}
		}
		if acked {
			r.Fail(p+"-lost", "%s is lost: stored nowhere and handed out to nobody; end: %s", id, w.final())
			return
		}
	}
}

// summaries checks, for every namespace of every node, that centres are the
// means of their members (C03) and summary vectors the means of the centres
// (C04).
func (w *world) summaries(r *R, p string) {
	for i, n := range w.nodes {
		for ns, s := range n.snaps() {
			st := &Step{Post: s}
			f := judgeC04
			if p == "C03" {
				f = judgeC03
			}
			if s.mixedDims() {
				continue // the mean is not defined
			}
			if k, msg := f(w.m, st); k != "" {
				r.Fail(p+"-"+k, "node %d, namespace %q: %s", i, ns, msg)
				return
			}
		}
	}
}

func (s *Snap) mixedDims() bool {
	for i := range s.G {
		if len(s.G[i].Vec) != len(s.G[0].Vec) {
			return true
		}
	}
	return false
}
