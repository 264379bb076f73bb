package vh

import (
	"fmt"
	"math"
	"net"
	"sort"
	"strings"
	"time"

	"vharness/vrt"
)

type nsSeed struct {
	ns     string
	groups []gspec
}

type rstart struct {
	name  string
	seeds []nsSeed
	tick  bool
}

var oddNS = []string{"", "a ", "a\x00b", "ключ/../a", "A"}

// longNS share everything but their ends or their beginnings.
var longNS = []string{strings.Repeat("n", 300) + "1", strings.Repeat("n", 300) + "2", "x" + strings.Repeat("n", 300) + "1", strings.Repeat("n", 300)}

func longNSOps() ([]Op, int) {
	var ops []Op
	for i, n := range longNS {
		ops = append(ops, Op{Kind: "add", NS: n, Vec: []([]float64){vX, vN, vXY}[i%3]}, Op{Kind: "drainU", NS: n, N: 1}, Op{Kind: "knn", NS: n, Vec: vX, N: 9})
	}
	return append(ops, Op{Kind: "namespaces"}, Op{Kind: "meta"}), len(ops) + 2
}

func groupsOf(name string) []gspec {
	for i := range managerStarts {
		if managerStarts[i].name == name {
			return managerStarts[i].groups
		}
	}
	panic("harness: start " + name)
}

var rpcStarts = []rstart{
	{name: "nothing"},
	{name: "one", seeds: []nsSeed{{"a", groupsOf("one3")}}},
	{name: "two-spaces", seeds: []nsSeed{{"a", groupsOf("two32")}, {"b", groupsOf("one1")}}},
	{name: "empties", seeds: []nsSeed{{"a", groupsOf("empties")}, {"b", nil}}},
	{name: "emptied", seeds: []nsSeed{{"a", nil}, {"b", groupsOf("three")}}},
	{name: "expired", seeds: []nsSeed{{"a", groupsOf("expired")}, {"b", groupsOf("expired")}}, tick: true},
	{name: "expiring", seeds: []nsSeed{{"a", groupsOf("expiring")}}},
	{name: "zeros", seeds: []nsSeed{{"a", groupsOf("zeros")}, {"b", groupsOf("two32")}}},
	{name: "big", seeds: []nsSeed{{"a", groupsOf("big")}}},
}

// wireOps: large and small payloads and vectors, and extreme components.
func wireOps() ([]Op, int) {
	wide := func(n int, f float64) []float64 {
		v := make([]float64, n)
		for i := range v {
			v[i] = f * (1 + float64(i%7)/3)
			if i%3 == 1 {
				v[i] = -v[i]
			}
		}
		return v
	}
	var ops []Op
	ns := map[int]string{1: "w1", 2: "a", 3: "b", 40: "w40", 300: "w300"}
	for i, n := range []int{1, 2, 40, 300} {
		for j, pad := range []int{1, 3000, 5000, 70000} {
			if (i+j)%2 == 0 || pad == 5000 {
				ops = append(ops, Op{Kind: "add", NS: ns[n], Vec: wide(n, float64(j+1)), Pad: pad})
			}
		}
		ops = append(ops, Op{Kind: "knn", NS: ns[n], Vec: wide(n, 1), N: 9, Drain: i%2 == 0}, Op{Kind: "drainU", NS: ns[n], N: 1})
	}
	base := len(ops)
	for _, n := range []int{1, 2, 3, 40, 300} {
		for _, f := range []float64{1e300, math.MaxFloat64 / 4, 5e-324, 1e-200, 1 << 53, math.Copysign(0, -1), 1.0 / 3} {
			ops = append(ops, Op{Kind: "add", NS: ns[n], Vec: wide(n, f)})
		}
		ops = append(ops, Op{Kind: "nearest", NS: ns[n], Vec: wide(n, 1), N: 9}, Op{Kind: "nearest", NS: ns[n], Vec: wide(n, 1), N: 9, Drain: true}, Op{Kind: "drainO", NS: ns[n], N: 9}, Op{Kind: "vec", NS: ns[n]}, Op{Kind: "nearestVec", NS: ns[n], Vec: wide(n, -1)}, Op{Kind: "split", NS: ns[n], Min: 0, Max: 9}, Op{Kind: "expire", NS: ns[n]}, Op{Kind: "lendp", NS: ns[n]})
	}
	return ops, base
}

func rpcOps(deep bool) ([]Op, int) {
	ops := []Op{
		{Kind: "add", NS: "a", Vec: vX}, {Kind: "add", NS: "a", Vec: vN, Exp: xShort}, {Kind: "add", NS: "a", Vec: v3}, {Kind: "add", NS: "a", Vec: vY, Exp: xGone}, {Kind: "add", NS: "b", Vec: vXY, Exp: xPast},
		{Kind: "add", NS: "b", Vec: v3},
		{Kind: "drainU", NS: "a", N: 2}, {Kind: "drainO", NS: "a", N: 2}, {Kind: "drainO", NS: "b", N: 9},
		{Kind: "knn", NS: "a", Vec: vXY, N: 2}, {Kind: "knn", NS: "a", Vec: vB, N: 2, Drain: true}, {Kind: "knn", NS: "b", Vec: vY, N: 1, Drain: true},
		{Kind: "nearest", NS: "a", Vec: vXY, N: 1, Drain: true}, {Kind: "nearest", NS: "b", Vec: vY, N: 9, Drain: true},
		{Kind: "split", NS: "a", Min: 1, Max: 100}, {Kind: "merge", NS: "a", Min: -1, Max: 3},
		{Kind: "expire", NS: "a"}, {Kind: "memtrim", NS: "a"}, {Kind: "move", NS: "a"}, {Kind: "distInt", NS: "a", N: 2},
		{Kind: "tick"},
	}
	base := len(ops)
	ops = append(ops,
		Op{Kind: "add", NS: "c", Vec: vX}, Op{Kind: "add", NS: "c", Vec: vX, Exp: xGone}, Op{Kind: "add", NS: "c"}, Op{Kind: "add", NS: "a", Down: true, Vec: vX}, Op{Kind: "add", NS: "a"}, Op{Kind: "add", NS: "a", Vec: vB, Exp: xLong},
		Op{Kind: "drainU", NS: "a", N: 0}, Op{Kind: "drainU", NS: "a", N: 99}, Op{Kind: "drainO", NS: "a", N: -1}, Op{Kind: "drainU", NS: "c", N: 1}, Op{Kind: "drainO", NS: "c", N: 1}, Op{Kind: "drainO", NS: "a", Down: true, N: 1}, Op{Kind: "drainU", NS: "a", Down: true, N: 1},
		Op{Kind: "knn", NS: "a", Vec: vN, N: 9}, Op{Kind: "knn", NS: "a", Vec: vY, N: 0}, Op{Kind: "knn", NS: "a", Vec: vY, N: -3}, Op{Kind: "knn", NS: "a", Vec: v3, N: 2}, Op{Kind: "knn", NS: "a", Vec: nil, N: 2}, Op{Kind: "knn", NS: "c", Vec: vY, N: 1}, Op{Kind: "knn", NS: "a", Down: true, Vec: vY, N: 1}, Op{Kind: "knn", NS: "a", Vec: vN, N: 99, Drain: true}, Op{Kind: "knn", NS: "b", Vec: vX, N: 4},
		Op{Kind: "nearest", NS: "a", Vec: vX, N: 1}, Op{Kind: "nearest", NS: "a", Vec: vX, N: 9}, Op{Kind: "nearest", NS: "a", Vec: v3, N: 9}, Op{Kind: "nearest", NS: "a", Vec: vX, N: 0}, Op{Kind: "nearest", NS: "a", Vec: vX, N: -1, Drain: true}, Op{Kind: "nearest", NS: "c", Vec: vX, N: 1}, Op{Kind: "nearest", NS: "a", Down: true, Vec: vX, N: 1}, Op{Kind: "nearest", NS: "a", Vec: vN, N: 3, Drain: true}, Op{Kind: "nearest", NS: "b", Vec: vN, N: 2},
		Op{Kind: "nearestVec", NS: "a", Vec: vX}, Op{Kind: "nearestVec", NS: "a", Vec: vN}, Op{Kind: "nearestVec", NS: "b", Vec: vY}, Op{Kind: "nearestVec", NS: "a", Vec: v3}, Op{Kind: "nearestVec", NS: "c", Vec: vY}, Op{Kind: "nearestVec", NS: "a", Down: true, Vec: vY},
		Op{Kind: "split", NS: "a", Min: 3, Max: 5}, Op{Kind: "split", NS: "a", Min: 2, Max: 4}, Op{Kind: "split", NS: "c", Min: 0, Max: 9}, Op{Kind: "split", NS: "a", Down: true, Max: 9}, Op{Kind: "split", NS: "b", Min: 0, Max: 9},
		Op{Kind: "merge", NS: "a", Min: 0, Max: 100}, Op{Kind: "merge", NS: "a", Min: 1, Max: 3}, Op{Kind: "merge", NS: "a", Min: 2, Max: 100}, Op{Kind: "merge", NS: "c", Min: 0, Max: 9}, Op{Kind: "merge", NS: "a", Down: true, Max: 9},
		Op{Kind: "expire", NS: "c"}, Op{Kind: "expire", NS: "a", Down: true}, Op{Kind: "expire", NS: "b"}, Op{Kind: "memtrim", NS: "c"}, Op{Kind: "memtrim", NS: "a", Down: true}, Op{Kind: "memtrim", NS: "b"},
		Op{Kind: "move", NS: "c"}, Op{Kind: "move", NS: "a", Down: true}, Op{Kind: "move", NS: "b"}, Op{Kind: "distInt", NS: "c", N: 1}, Op{Kind: "distInt", NS: "a", Down: true, N: 1}, Op{Kind: "distInt", NS: "b", N: 9}, Op{Kind: "distInt", NS: "a", N: 0},
		Op{Kind: "lendp", NS: "a"}, Op{Kind: "lendp", NS: "b"}, Op{Kind: "lendp", NS: "c"}, Op{Kind: "lendp", NS: "a", Down: true},
		Op{Kind: "vec", NS: "a"}, Op{Kind: "vec", NS: "b"}, Op{Kind: "vec", NS: "c"}, Op{Kind: "vec", NS: "a", Down: true},
		Op{Kind: "namespaces"}, Op{Kind: "namespaces", Down: true}, Op{Kind: "meta"}, Op{Kind: "meta", Down: true},
		Op{Kind: "drainU", NS: "c"}, Op{Kind: "drainO", NS: "c"}, Op{Kind: "drainO", NS: "c", N: -1}, Op{Kind: "knn", NS: "c", Vec: vY}, Op{Kind: "knn", NS: "c", N: 1, Drain: true}, Op{Kind: "nearest", NS: "c", Vec: vY}, Op{Kind: "nearestVec", NS: "c"}, Op{Kind: "distInt", NS: "c"}, Op{Kind: "split", NS: "c"}, Op{Kind: "merge", NS: "c"},
	)
	return ops, base
}

func nsOps() ([]Op, int) {
	var ops []Op
	names := append([]string{"a", "b"}, oddNS...)
	for i, n := range names {
		ops = append(ops, Op{Kind: "add", NS: n, Vec: []([]float64){vX, vN, vXY}[i%3]})
		if i%2 == 0 {
			ops = append(ops, Op{Kind: "knn", NS: n, Vec: vX, N: 5, Drain: true})
		} else {
			ops = append(ops, Op{Kind: "drainU", NS: n, N: 1})
		}
	}
	ops = append(ops, Op{Kind: "split", NS: "a", Min: 0, Max: 9}, Op{Kind: "memtrim", NS: "b"}, Op{Kind: "tick"}, Op{Kind: "nearest", NS: "a ", Vec: vX, N: 1, Drain: true})
	base := len(ops)
	for _, n := range names {
		ops = append(ops, Op{Kind: "knn", NS: n, Vec: vX, N: 99}, Op{Kind: "nearest", NS: n, Vec: vX, N: 9}, Op{Kind: "drainO", NS: n, N: 99}, Op{Kind: "expire", NS: n}, Op{Kind: "merge", NS: n, Min: -1, Max: 9}, Op{Kind: "move", NS: n}, Op{Kind: "distInt", NS: n, N: 9})
	}
	ops = append(ops, Op{Kind: "namespaces"}, Op{Kind: "meta"}, Op{Kind: "add", NS: "zz", Vec: v3}, Op{Kind: "drainU", NS: "zz", N: 3})
	return ops, base
}

func (b *pairBE) seedTwin(m *M) {
	for ns := range b.n.snaps() {
		s := b.n.snap(ns)
		t := newManager(b.ms, b.thr, s.Vec)
		for _, g := range s.G {
			c := newCentroid(b.ms, g.Vec)
			for _, d := range g.DPs {
				c.DataPoints = append(c.DataPoints, DP{Vec: cpv(d.Vec), Payload: []byte(d.ID), Expires: d.Expires, ExpireEnabled: d.En})
			}
			// The centre is private; it is the mean of the members, if any.
			if len(g.DPs) > 0 {
				c.MoveVector()
			}
			t.Centroids = append(t.Centroids, c)
		}
		t.MoveVector()
		b.twin[ns] = t
	}
}

func rpcInit(st *rstart, ms *measure, thr int, addr string) func() *M {
	return func() *M {
		m := newM(ms, thr)
		b := &pairBE{n: startNode(addr, ms, thr), ms: ms, thr: thr, twin: map[string]*Manager{}}
		for _, s := range st.seeds {
			b.n.seed(m, s.ns, s.groups)
		}
		b.seedTwin(m)
		m.be = b
		b.target("", false)
		if st.tick {
			time.Sleep(tick)
		}
		return m
	}
}

func rpcHash(m *M) uint64 {
	b := m.be.(*pairBE)
	var vs []interface{}
	for _, n := range b.n.names() {
		vs = append(vs, n)
		b.n.srv.Table.Access(n, func(cm *Manager) { vs = append(vs, cm) })
	}
	// And whatever else the server and its table carry from request to request.
	vs = append(vs, b.n.srv)
	return DeepHash(time.Now(), vs...)
}

const addrA = "127.0.0.1:7001"

func judgeR01(m *M, s *Step) (string, string) {
	b := m.be.(*pairBE)
	if b.diff != "" {
		return bad("R01-answer", "%s", b.diff)
	}
	r, l := snapsKey(s.PostAll), snapsKey(b.twinSnaps())
	if r != l {
		return bad("R01-store", "node holds %s; local twin holds %s", r, l)
	}
	// Expiry, payload and vectors of what is stored.
	for _, sn := range s.PostAll {
		for i := range sn.G {
			for j := range sn.G[i].DPs {
				d := &sn.G[i].DPs[j]
				if w := m.reg[d.ID]; w == nil || !eqDP(d, w) {
					return bad("R01-altered", "datapoint %s stored differently from what was put", d.ID)
				}
			}
		}
	}
	return "", ""
}

// storesKey describes contents only: expired members may come and go.
func storesKey(s map[string]Snap, without string) string {
	var k []string
	for n := range s {
		k = append(k, n)
	}
	sort.Strings(k)
	r := ""
	for _, n := range k {
		x := s[n]
		l := []string{}
		for id, c := range x.liveIDs() {
			if id != without {
				l = append(l, fmt.Sprintf("%sx%d", id, c))
			}
		}
		sort.Strings(l)
		r += fmt.Sprintf("%q:%v ", n, l)
	}
	return r
}

func judgeR02(m *M, s *Step) (string, string) {
	if s.Op.Kind != "add" {
		return "", ""
	}
	id := s.DP.ID
	where := map[string]int{}
	for ns, sn := range s.PostAll {
		if c := sn.allIDs()[id]; c > 0 {
			where[ns] = c
		}
	}
	if s.OK {
		if len(where) != 1 || where[s.Op.NS] != 1 {
			return bad("R02-ack", "put of %s into %q acknowledged, but it is stored %v", id, s.Op.NS, where)
		}
		for i := range s.Post.G {
			for j := range s.Post.G[i].DPs {
				if d := &s.Post.G[i].DPs[j]; d.ID == id && !eqDP(d, &s.DP) {
					return bad("R02-altered", "%s is stored differently from what was put", id)
				}
			}
		}
		if s.Op.Down {
			return bad("R02-ack", "put on an unreachable node acknowledged")
		}
		pre := s.PreAll
		if _, ok := pre[s.Op.NS]; !ok {
			pre = map[string]Snap{s.Op.NS: {}}
			for n, x := range s.PreAll {
				pre[n] = x
			}
		}
		if a, b := storesKey(pre, id), storesKey(s.PostAll, id); a != b {
			return bad("R02-others", "the put changed other contents: %s became %s", a, b)
		}
		return "", ""
	}
	if len(where) > 0 {
		return bad("R02-refused", "put of %s refused, but it is stored %v", id, where)
	}
	if a, b := storesKey(s.PreAll, ""), storesKey(s.PostAll, ""); a != b {
		return bad("R02-trace", "a refused put left a trace: %s became %s", a, b)
	}
	// A datapoint that can be stored must not be refused.
	if !s.Op.Down && s.DP.live(s.Post.Now) {
		p, ok := s.PreAll[s.Op.NS]
		if !ok || p.dimOK(s.DP.Vec) {
			return bad("R02-false-refusal", "put of %s%s into %q refused for no reason; store: %s", id, fv(s.DP.Vec), s.Op.NS, p.String())
		}
	}
	return "", ""
}

func judgeR04(m *M, s *Step) (string, string) {
	for _, d := range append(append([]DPS{}, s.Out...), flatten(s.OutG)...) {
		if ns, ok := m.nsOf[d.ID]; !ok || ns != s.Op.NS {
			return bad("R04-leak", "an operation on %q returned %s, which belongs to %q", s.Op.NS, d.ID, ns)
		}
	}
	for ns, a := range s.PreAll {
		if ns == s.Op.NS && s.Op.Kind != "tick" {
			continue
		}
		b, ok := s.PostAll[ns]
		if !ok || a.fullKey() != b.fullKey() {
			return bad("R04-changed", "an operation on %q changed %q: %s became %s", s.Op.NS, ns, a.String(), b.String())
		}
	}
	for ns, b := range s.PostAll {
		if _, ok := s.PreAll[ns]; !ok && ns != s.Op.NS {
			return bad("R04-created", "an operation on %q created %q", s.Op.NS, ns)
		}
		for id := range b.allIDs() {
			if m.nsOf[id] != ns {
				return bad("R04-moved", "%s of namespace %q is stored in %q", id, m.nsOf[id], ns)
			}
		}
	}
	return "", ""
}

func flatten(gs []GSnap) []DPS {
	var r []DPS
	for i := range gs {
		r = append(r, gs[i].DPs...)
	}
	return r
}

func rpcSearch(st *rstart, ms *measure, thr int, ops []Op, base, depth int, j judge, rev bool) *Search {
	return &Search{Ops: ops, Base: base, Depth: depth, Judge: j, Hash: rpcHash, MapRev: rev,
		Init: rpcInit(st, ms, thr, addrA), Before: func() {}, After: func(m *M) { finishRPC(m) }}
}

var baseGoroutines int

func finishRPC(m *M) {
	m.be.(*pairBE).n.stop()
	if !vrt.Cur.Finish(baseGoroutines) {
		panic("harness: goroutines survive the end of a history")
	}
}

func rpcUnits(tag string, j judge, opsf func() ([]Op, int), starts []rstart, depth int, filter func(*Op) bool) []Unit {
	var us []Unit
	all, base := opsf()
	var ops []Op
	n := 0
	for i := range all {
		if i < base || filter == nil || filter(&all[i]) {
			ops = append(ops, all[i])
			if i < base {
				n++
			}
		}
	}
	for i := range starts {
		st := &starts[i]
		for _, cfg := range []struct {
			ms  *measure
			thr int
		}{{cosM, 0}, {cosM, 4}, {eucM, 4}} {
			cfg := cfg
			rev := (i+cfg.thr)%2 == 1
			us = append(us, Unit{Name: fmt.Sprintf("S3/%s/%s/limit%d/%s", tag, cfg.ms.name, cfg.thr, st.name), Run: func(u *U) {
				u.Search(rpcSearch(st, cfg.ms, cfg.thr, ops, n, depth, j, rev))
			}})
		}
	}
	return us
}

// nativeUnits replay every history of the given depth on the uninstrumented
// build over real TCP connections.
func nativeUnits(tag string, j judge, opsf func() ([]Op, int), starts []rstart, depth int) []Unit {
	var us []Unit
	all, base := opsf()
	var ops []Op
	n := 0
	for i := range all {
		o := &all[i]
		// Real time does not stand still: no short-lived datapoints here.
		if o.Kind == "tick" || o.Exp == xShort {
			continue
		}
		// Nor is the iteration order of maps controlled: no partial drains.
		if (o.Kind == "drainU" || o.Kind == "drainO") && o.N > 0 && o.N < 99 || o.Kind == "distInt" && o.N > 0 {
			continue
		}
		ops = append(ops, all[i])
		if i < base {
			n++
		}
	}
	for i := range starts {
		st := &starts[i]
		if st.tick || st.name == "expiring" {
			continue
		}
		us = append(us, Unit{Name: fmt.Sprintf("native/%s/%s", tag, st.name), Bin: "native", Run: func(u *U) {
			u.nativeHistories(st, ops, n, depth, j)
		}})
	}
	return us
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer l.Close()
	return l.Addr().String()
}

func (u *U) nativeHistories(st *rstart, ops []Op, base, depth int, j judge) {
	u.Exhaustive = true
	var rec func(path []int)
	stop := false
	addr := freeAddr()
	run := func(path []int, traceIt bool) (key, msg string, tr []string) {
		m := rpcInit(st, cosM, 4, addr)()
		m.be.(*pairBE).loose = true
		defer func() { m.be.(*pairBE).n.stop() }()
		for _, i := range path {
			s := m.apply(&ops[i], true)
			u.Trans++
			if traceIt {
				tr = append(tr, s.describe())
			}
			if s.Crash != "" {
				return "crash", s.Crash, tr
			}
			if k, ms := j(m, s); k != "" {
				return k, fmt.Sprintf("%v: %s", s.Op, ms), tr
			}
		}
		u.State(rpcHash(m))
		return
	}
	if u.replay != nil {
		k, msg, tr := run(u.replay.Choices, true)
		if k != "" && k == u.replay.Key {
			u.replayed = true
			u.Violations = append(u.Violations, Violation{Key: k, Msg: msg, Choices: u.replay.Choices, Trace: tr})
		}
		return
	}
	rec = func(path []int) {
		for i := range ops {
			if stop {
				return
			}
			p := append(append([]int{}, path...), i)
			if len(p) < depth {
				if i < base {
					rec(p)
				}
				continue
			}
			noteProgress(p)
			k, msg, _ := run(p, false)
			u.Execs++
			if k != "" {
				k2, _, tr := run(p, true)
				if k2 == k {
					u.Fail(k, msg, p, tr)
					if u.Failed() {
						u.Exhaustive = false
						stop = true
						return
					}
				} else {
					u.Flaky++
				}
			} else {
				u.Conform++
			}
			if outOfTime() {
				u.Exhaustive = false
				u.Note = "time budget"
				stop = true
			}
		}
	}
	rec(nil)
}

func init() {
	checks["R01"] = func() Check {
		d, nd := 2, 1
		if thorough {
			d, nd = 3, 2
		}
		us := rpcUnits("remote=local", judgeR01, func() ([]Op, int) { return rpcOps(false) }, rpcStarts, d+1, nil)
		us = append(us, nativeUnits("remote=local", judgeR01, func() ([]Op, int) { return rpcOps(false) }, rpcStarts, nd+1)...)
		us = append(us, netErrorUnits("R01")...)
		us = append(us, rpcSizeUnits(judgeR01)...)
		us = append(us, rpcUnits("wire", judgeR01, wireOps, rpcStarts[:1], d+1, nil)...)
		us = append(us, nativeUnits("wire", judgeR01, wireOps, rpcStarts[:1], nd+1)...)
		us = append(us, spacesUnits(judgeR01)...)
		return Check{Units: us, Notes: []string{"the in-memory network replaces TCP; encoding (gob) and dispatch (net/rpc) are real"}}
	}
}
