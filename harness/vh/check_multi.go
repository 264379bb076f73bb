package vh

import (
	"fmt"
	"math"
	"strings"

	kmrpc "trypo/pkg/kmeans/rpc"
	"vharness/vrt"
)

// ---- R07: distribution across nodes ----

// reports: the last vector each address reported before call k for datapoint
// vector v.
func reports(calls []*vrt.RPCEvent, k int, v []float64) map[int][]float64 {
	rep := map[int][]float64{}
	for _, ev := range calls {
		if ev.Seq >= k || !ev.Ended || ev.Err != nil {
			continue
		}
		var got []float64
		switch ev.Method {
		case "Vec":
		case "NearestCentroidVec":
			a, ok := ev.Args.(kmrpc.NearestCentroidVecArgs)
			if !ok || !eqVec(a.Vec, v) {
				continue
			}
		default:
			continue
		}
		if p, ok := ev.Reply.(*[]float64); ok {
			got = *p
		}
		if n := nodeOf(ev.Addr); n >= 0 && got != nil {
			rep[n] = got
		}
	}
	return rep
}

// judgeDist judges a single distribution request.
func judgeDist(r *R, w *world, x *rec, p string) {
	lossy := false
	for _, h := range w.hits {
		lossy = lossy || h.stage == "reply" && h.method == "AddDataPoint"
	}
	w.conserve(r, p, lossy)
	op := &x.Q.Op
	src := x.Q.Node
	ns := op.NS
	if src < 0 || w.isDown(src) {
		w.unchanged(r, p, nil, "")
		return
	}
	pre, had := w.pre[src][ns]
	if !had {
		if x.A.Err == nil {
			r.Fail(p+"-no-namespace", "%v reports no error although the namespace is unknown", x.Q)
		}
		w.unchanged(r, p, nil, "")
		return
	}
	// Namespaces appear nowhere and others do not change.
	for i, n := range w.nodes {
		for m, s := range n.snaps() {
			q, ok := w.pre[i][m]
			if !ok && !(m == ns && has(x.Q.To, i)) {
				r.Fail(p+"-namespace", "%v created namespace %q on node %d", x.Q, m, i)
				return
			}
			if m != ns && q.contentKey() != s.contentKey() {
				r.Fail(p+"-foreign", "%v changed namespace %q of node %d", x.Q, m, i)
				return
			}
			if m == ns && i != src && !has(x.Q.To, i) && q.contentKey() != s.contentKey() {
				r.Fail(p+"-elsewhere", "%v changed node %d", x.Q, i)
				return
			}
		}
	}
	post := map[int]map[string]int{}
	for i, n := range w.nodes {
		s := n.snap(ns)
		post[i] = s.liveIDs()
	}
	self := has(x.Q.To, src)
	now := w.nodes[src].snap(ns).Now
	pre.Now = now
	live := pre.liveIDs()
	expired := pre.hasExpired()
	// Comparable candidates by dimension: those holding the namespace.
	cands := func(d *DPS) map[int]float64 {
		k := math.MaxInt
		for _, ev := range r.Calls {
			if a, ok := ev.Args.(kmrpc.AddDataPointArgs); ok && ev.Method == "AddDataPoint" && idOf(a.DP.Payload) == d.ID && ev.Seq < k {
				k = ev.Seq
			}
		}
		rep := reports(r.Calls, k, d.Vec)
		c := map[int]float64{}
		for _, t := range x.Q.To {
			if t < 0 || w.isDown(t) || w.faults[t] != "" {
				continue
			}
			q, ok := w.pre[t][ns]
			if !ok {
				continue
			}
			v, asked := rep[t]
			if !asked {
				if op.Kind == "distAcc" {
					for gi := range q.G {
						g := &q.G[gi]
						if len(g.Vec) == len(d.Vec) && (v == nil || cosM.score(d.Vec, g.Vec) > cosM.score(d.Vec, v)) {
							v = g.Vec
						}
					}
				} else {
					v = q.Vec
				}
			}
			if len(v) != len(d.Vec) || !q.dimOK(d.Vec) {
				continue
			}
			c[t] = cosM.score(d.Vec, v)
		}
		return c
	}
	moved := 0
	for id := range live {
		d := w.m.reg[id]
		at := -1
		for i := range w.nodes {
			if post[i][id] > 0 && (at < 0 || i != src) {
				at = i
			}
		}
		if at != src {
			moved++
		}
		if lossy {
			continue
		}
		if at == src && (!self || x.A.Err != nil || op.N < len(live) || expired) {
			continue // stayed, or was not taken at all
		}
		c := cands(d)
		got, ok := c[at]
		if !ok && w.faults[at] != "" {
			continue
		}
		if !ok && !(at == src && len(c) == 0) {
			r.Fail(p+"-target", "%v put %s on node %d, which is not one of the reachable targets with the namespace; end: %s", x.Q, id, at, w.final())
			return
		}
		for t, f := range c {
			if f > got+eps {
				r.Fail(p+"-nearest", "%v put %s on node %d (reported similarity %.9g) although node %d was nearer (%.9g)", x.Q, id, at, got, t, f)
				return
			}
		}
	}
	if !self && !lossy && !expired && op.N >= 0 && x.A.Err == nil {
		// Everything taken out finds a place if there is one.
		okAll, any := true, false
		for id := range live {
			if len(cands(w.m.reg[id])) > 0 {
				any = true
			} else {
				okAll = false
			}
		}
		want := op.N
		if want > len(live) {
			want = len(live)
		}
		if any && okAll && moved != want {
			r.Fail(p+"-moved", "%v moved %d datapoints, should be %d; end: %s", x.Q, moved, want, w.final())
		}
		if !any && w.nfault == 0 && moved != 0 {
			r.Fail(p+"-moved", "%v moved %d datapoints although no target can take them", x.Q, moved)
		}
	}
	if op.N <= 0 && moved > 0 {
		r.Fail(p+"-moved", "%v moved %d datapoints", x.Q, moved)
	}
	if x.A.Err != nil && w.faults[src] == "" {
		r.Fail(p+"-error", "%v reports %v", x.Q, x.A.Err)
	}
}

var distSrc = []rstart{
	nodeKinds[0], nodeKinds[2],
	{name: "many", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vB, vv(1, -1))}, {dps: ds(vY, vv(0, 3))}, {vec: vN}}}, {"b", []gspec{{dps: ds(vY)}}}}},
	{name: "expiring", seeds: []nsSeed{{"a", []gspec{{dps: []dspec{x(vX, xShort), x(vB, xNone), x(vXY, xLong)}}, {dps: []dspec{x(vY, xShort)}}}}}, tick: true},
	{name: "absent"},
	{name: "nogroups", seeds: []nsSeed{{"a", nil}}},
}

func late(stages string) string {
	if strings.Contains(stages, "s") {
		return stages
	}
	return ""
}

func distUnits(p string, kinds string, k int, ns []int, stages string, faults, sched int, targets [][]int, judge func(r *R, w *world, x *rec, p string)) []Unit {
	var us []Unit
	ks := kindsNamed(kinds)
	for _, src := range distSrc {
		for _, ms := range []*measure{cosM, eucM} {
			if ms == eucM && faults > 0 {
				continue
			}
			var ss []*Scn
			pick := make([]int, k)
			var rec func(i int)
			rec = func(i int) {
				if i < k {
					for j := range ks {
						pick[i] = j
						rec(i + 1)
					}
					return
				}
				l := []rstart{src}
				for _, j := range pick {
					l = append(l, ks[j])
				}
				nodes, down, name := netOf(l...)
				for _, kind := range []string{"distFast", "distAcc"} {
					for _, n := range ns {
						for _, to := range targets {
							q := Req{Node: 0, Op: na(Op{Kind: kind, N: n}), To: to}
							ss = append(ss, &Scn{name: name + "| " + q.String(), nodes: nodes, down: down, ms: ms, thr: 4, threads: [][]Req{{q}}, stages: stages, paid: k > 1 && n > 2})
						}
					}
				}
			}
			rec(0)
			us = append(us, Unit{Name: fmt.Sprintf("S4/dist/%s/%s/%d/faults%d%s/sched%d", ms.name, src.name, k, faults, late(stages), sched), Run: func(u *U) {
				u.explore(ss, sched, faults, nil, func(r *R, w *world, _ map[string][][][2]int) { judge(r, w, w.recs[0], p) })
			}})
		}
	}
	return us
}

// interUnits: node-to-node requests together with other requests on either node.
func interUnits(p string, main []Req, bound int, stages string, faults int, judge func(r *R, w *world)) []Unit {
	nets := [][]rstart{
		{distSrc[2], nodeKinds[0]}, {distSrc[0], distSrc[3]}, {distSrc[0], {name: "absent"}},
	}
	others := []Req{
		{Node: 0, Op: na(Op{Kind: "add", Vec: vX})}, {Node: 1, Op: na(Op{Kind: "add", Vec: vN})}, {Node: 0, Op: na(Op{Kind: "add", Vec: v3})}, {Node: 1, Op: na(Op{Kind: "add", Vec: v3})},
		{Node: 0, Op: na(Op{Kind: "drainU", N: 2})}, {Node: 1, Op: na(Op{Kind: "drainO", N: 2})}, {Node: 1, Op: na(Op{Kind: "knn", Vec: vY, N: 2, Drain: true})}, {Node: 0, Op: na(Op{Kind: "knn", Vec: vX, N: 3})},
		{Node: 0, Op: na(Op{Kind: "nearest", Vec: vX, N: 1, Drain: true})}, {Node: 1, Op: na(Op{Kind: "nearest", Vec: vX, N: 9, Drain: true})},
		{Node: 0, Op: na(Op{Kind: "split", Min: 0, Max: 9})}, {Node: 1, Op: na(Op{Kind: "merge", Min: -1, Max: 9})}, {Node: 0, Op: na(Op{Kind: "merge", Min: -1, Max: 9})},
		{Node: 0, Op: na(Op{Kind: "memtrim"})}, {Node: 1, Op: na(Op{Kind: "memtrim"})}, {Node: 0, Op: na(Op{Kind: "distInt", N: 9})},
		{Node: 1, Op: na(Op{Kind: "distFast", N: 2}), To: []int{0}}, {Node: 1, Op: na(Op{Kind: "distAcc", N: 2}), To: []int{0, 1}}, {Node: 0, Op: na(Op{Kind: "distAcc", N: 9}), To: []int{0, 1}},
		{Node: 1, Op: na(Op{Kind: "steal", N: 2}), To: []int{0}}, {Node: 0, Op: na(Op{Kind: "steal", N: 2}), To: []int{1}}, {Node: 0, Op: na(Op{Kind: "steal", N: 2}), To: []int{0}},
		{Node: 0, Op: Op{Kind: "meta"}}, {Node: 1, Op: Op{Kind: "namespaces"}},
	}
	var us []Unit
	for _, net := range nets {
		nodes, down, name := netOf(net...)
		for _, q := range main {
			var ss, cross []*Scn
			for _, o := range others {
				s := &Scn{name: fmt.Sprintf("%s| %v | %v", name, q.String(), o.String()), nodes: nodes, down: down, thr: 3, threads: [][]Req{{q}, {o}}, stages: stages, methods: "Vec,NearestCentroidVec,AddDataPoint"}
				if late(stages) != "" || strings.Contains(stages, "q") && !strings.Contains(stages, "r") {
					s.methods = "" // a request that never arrives harms nobody
				}
				if o.To != nil {
					s.paid = true
					cross = append(cross, s)
				} else {
					ss = append(ss, s)
				}
			}
			us = append(us, Unit{Name: fmt.Sprintf("S4/%s/concurrent%s/%s/%v/b%d", p, late(stages), name, q.String(), bound), Run: func(u *U) {
				u.explore(ss, bound, faults, nil, func(r *R, w *world, _ map[string][][][2]int) { judge(r, w) })
			}})
			for _, x := range cross {
				us = append(us, Unit{Name: fmt.Sprintf("S4/%s/crossing%s/%s/b%d", p, late(stages), x.name, bound+1), Run: func(u *U) {
					u.explore([]*Scn{x}, bound+1, faults, nil, func(r *R, w *world, _ map[string][][][2]int) { judge(r, w) })
				}})
			}
		}
	}
	return us
}

func lostReply(w *world) bool {
	for _, h := range w.hits {
		if h.stage == "reply" {
			return true
		}
	}
	return false
}

// ---- R08: taking groups ----

func judgeSteal(r *R, w *world, x *rec, p string) {
	w.conserve(r, p, false)
	op := &x.Q.Op
	me, from, ns := x.Q.Node, x.Q.To[0], op.NS
	if x.A.Err != nil {
		if !w.isDown(me) && w.faults[me] == "" {
			r.Fail(p+"-error", "%v reports error %v", x.Q, x.A.Err)
		}
		return
	}
	bad := w.isDown(from) || w.faults[from] != ""
	var src Snap
	if !w.isDown(from) {
		var ok bool
		src, ok = w.pre[from][ns]
		bad = bad || !ok
	}
	if op.N > 0 && me != from {
		if bad && x.A.OK {
			r.Fail(p+"-status", "%v reports success although node %d could not be contacted or lacks the namespace", x.Q, from)
			return
		}
		if !bad && !x.A.OK {
			r.Fail(p+"-status", "%v reports failure although node %d could be contacted and has the namespace", x.Q, from)
			return
		}
	}
	if me == from {
		return
	}
	// What moved.
	before := w.pre[me][ns]
	beforeIDs := before.allIDs()
	after := w.nodes[me].snap(ns)
	moved, movedLive := 0, 0
	got := after.allIDs()
	live := after.liveIDs()
	for id := range got {
		if beforeIDs[id] == 0 {
			moved++
		}
	}
	for id := range live {
		if beforeIDs[id] == 0 {
			movedLive++
		}
	}
	all := moved
	maxGroup := 0
	if !w.isDown(from) {
		src.Now = after.Now
		rest := w.nodes[from].snap(ns)
		left := rest.liveIDs()
		there := rest.allIDs()
		left3 := 0
		for gi := range src.G {
			g := &src.G[gi]
			mv, st := 0, 0
			for di := range g.DPs {
				d := &g.DPs[di]
				switch {
				case got[d.ID] > 0:
					mv++
				case there[d.ID] > 0:
					st++
					if d.live(after.Now) && len(d.Vec) == len(firstVec(before.Vec, src.Vec)) {
						left3++
					}
				}
			}
			if mv > 0 && st > 0 {
				r.Fail(p+"-whole", "%v took %d members of a group and left %d", x.Q, mv, st)
				return
			}
			if len(g.DPs) > maxGroup && mv > 0 {
				maxGroup = len(g.DPs)
			}
			if mv > 0 {
				all += len(g.DPs) - mv // expired members dropped on the way
			}
		}
		_ = left
		if !bad && x.A.N < op.N && left3 > 0 {
			r.Fail(p+"-stopped", "%v took %d although node %d still holds %d live datapoints; end: %s", x.Q, x.A.N, from, left3, w.final())
			return
		}
	}
	if x.A.N < movedLive || x.A.N > all {
		r.Fail(p+"-number", "%v reports %d transferred, %d (%d unexpired) arrived", x.Q, x.A.N, moved, movedLive)
		return
	}
	if op.N <= 0 && moved > 0 {
		r.Fail(p+"-limit", "%v took %d datapoints", x.Q, moved)
		return
	}
	if op.N > 0 && x.A.N-maxGroup >= op.N {
		r.Fail(p+"-limit", "%v took %d: more groups than needed", x.Q, x.A.N)
		return
	}
	// Nothing else changed.
	for i, n := range w.nodes {
		for m, s := range n.snaps() {
			q, ok := w.pre[i][m]
			if m == ns && (i == me || i == from) {
				continue
			}
			if !ok || q.contentKey() != s.contentKey() {
				r.Fail(p+"-foreign", "%v changed namespace %q of node %d", x.Q, m, i)
				return
			}
		}
	}
}

func firstVec(a, b []float64) []float64 {
	if a != nil {
		return a
	}
	return b
}

func stealUnits(p string, thieves, victims string, limits []int, stages string, faults int) []Unit {
	return stealUnitsJ(thieves, victims, limits, stages, faults, func(r *R, w *world) { judgeSteal(r, w, w.recs[0], p) })
}

func stealUnitsJ(thieves, victims string, limits []int, stages string, faults int, judge func(r *R, w *world)) []Unit {
	var us []Unit
	all := append(append([]rstart{}, nodeKinds...), distSrc[2], rstart{name: "holes", seeds: []nsSeed{{"a", []gspec{
		{dps: ds(vX)}, {vec: vv(2, 1)}, {dps: ds(vY, vN)}, {vec: vv(1, 2)}, {dps: []dspec{x(vv(1, 1), xShort)}}, {dps: ds(vB)}}}}, tick: true})
	pick := func(names string) (l []rstart) {
		for _, n := range strings.Fields(names) {
			for _, k := range all {
				if k.name == n {
					l = append(l, k)
				}
			}
		}
		return
	}
	for _, th := range pick(thieves) {
		for _, ms := range []*measure{cosM, eucM} {
			var ss []*Scn
			for _, vi := range pick(victims) {
				nodes, down, name := netOf(th, vi)
				for _, n := range limits {
					for _, ns := range []string{"a", "b", "zz"} {
						for _, from := range []int{1, 0, -1} {
							if from == 0 && n > 50 {
								continue
							}
							q := Req{Node: 0, Op: Op{Kind: "steal", NS: ns, N: n}, To: []int{from}}
							ss = append(ss, &Scn{name: name + "| " + q.String(), nodes: nodes, down: down, ms: ms, thr: 9, threads: [][]Req{{q}}, stages: stages})
						}
					}
				}
			}
			us = append(us, Unit{Name: fmt.Sprintf("S4/steal/%s/%s/faults%d%s", ms.name, th.name, faults, late(stages)), Run: func(u *U) {
				u.explore(ss, 0, faults, nil, func(r *R, w *world, _ map[string][][][2]int) { judge(r, w) })
			}})
		}
	}
	return us
}

// redimUnits: a namespace that a distribution emptied is trimmed and refounded
// with another dimension before the undeliverable datapoint comes back.
func redimUnits(p string) []Unit {
	st, down, _ := netOf(nodeKinds[0], nodeKinds[0])
	var ss []*Scn
	for _, k := range []string{"distFast", "distAcc"} {
		ss = append(ss, &Scn{name: k + " | memtrim, add of another dimension", nodes: st, down: down, thr: 3, threads: [][]Req{
			{{Node: 0, Op: na(Op{Kind: k, N: 9}), To: []int{-1}}}, rq(na(Op{Kind: "memtrim"}), na(Op{Kind: "add", Vec: v3}))}})
	}
	return []Unit{{Name: "S4/dist/redim", Run: func(u *U) {
		u.explore(ss, 2, 0, nil, func(r *R, w *world, _ map[string][][][2]int) { w.conserve(r, p+"-redim", false) })
	}}}
}

// multiUnits: the given judge over node-to-node traffic, for the properties of
// single nodes.
func multiUnits(p string, judge func(r *R, w *world)) []Unit {
	one := func(r *R, w *world, _ *rec, _ string) { judge(r, w) }
	main := []Req{
		{Node: 0, Op: na(Op{Kind: "distFast", N: 2}), To: []int{1}}, {Node: 0, Op: na(Op{Kind: "distAcc", N: 2}), To: []int{0, 1}},
		{Node: 1, Op: na(Op{Kind: "steal", N: 2}), To: []int{0}}, {Node: 0, Op: na(Op{Kind: "steal", N: 9}), To: []int{1}},
	}
	us := distUnits(p, "x yn absent hollow exp nogroups", 1, []int{1, 2, 9}, "", 0, 0, [][]int{{}, {0}, {1}, {0, 1}, {-1}}, one)
	us = append(us, stealUnitsJ("x mix absent hollow nogroups many d3", "x yn mix hollow exp nogroups many holes d3", []int{0, 1, 3, 9}, "", 0, judge)...)
	return append(us, interUnits(p, main, 1, "", 0, judge)...)
}

func init() {
	checks["R07"] = func() Check {
		targets := [][]int{{}, {0}, {1}, {0, 1}, {1, 0}, {-1}, {1, -1}, {1, 1}}
		targets3 := [][]int{{1, 2}, {2, 0, 1}, {2, -1, 1}}
		var us []Unit
		us = append(us, distUnits("R07", "x yn mix absent hollow d3 exp down nogroups", 1, []int{-1, 0, 1, 2, 9}, "", 0, 1, targets, judgeDist)...)
		us = append(us, distUnits("R07", "x yn mix absent d3 exp down", 2, []int{2, 9}, "", 0, 0, targets3, judgeDist)...)
		us = append(us, distUnits("R07", "x yn", 1, []int{2}, "dqr", 2, 0, targets[:6], judgeDist)...)
		us = append(us, distUnits("R07", "x yn absent", 2, []int{2}, "dqr", 1, 0, targets3, judgeDist)...)
		us = append(us, distUnits("R07", "x yn absent", 2, []int{2, 9}, "sS", slowN, 0, targets3, judgeDist)...)
		us = append(us, historyUnits("R07", []Req{{Node: 0, Op: na(Op{Kind: "distFast", N: 9}), To: []int{1, 2}}, {Node: 0, Op: na(Op{Kind: "distAcc", N: 2}), To: []int{0, 1, 2}}, {Node: 1, Op: na(Op{Kind: "distFast", N: 2}), To: []int{2, 0}}}, func(r *R, w *world, x *rec) { judgeDist(r, w, x, "R07") })...)
		us = append(us, crowdUnits("R07", crowdReqs("distFast distAcc"), func(r *R, w *world, x *rec) { judgeDist(r, w, x, "R07") })...)
		us = append(us, betweenUnits("dist", "x yn down", 3, map[bool]int{false: 1, true: 2}[thorough], rq(na(Op{Kind: "distFast", N: 2}), na(Op{Kind: "distAcc", N: 2})), func(r *R, w *world, x *rec) { judgeDist(r, w, x, "R07") })...)
		us = append(us, redimUnits("R07")...)
		us = append(us, netTwinUnits("R07", "distFast distAcc")...)
		us = append(us, netSizeUnits("R07", "distFast distAcc", func(r *R, w *world, x *rec) { judgeDist(r, w, x, "R07") })...)
		b := 2
		if thorough {
			b = 3
			us = append(us, distUnits("R07", "x yn mix", 1, []int{2, 9}, "dqr", 3, 0, targets[:6], judgeDist)...)
			us = append(us, distUnits("R07", "x yn mix", 2, []int{2, 9}, "dqr", 2, 0, targets3, judgeDist)...)
			us = append(us, distUnits("R07", "x yn mix", 2, []int{2, 9}, "", 0, 2, targets3, judgeDist)...)
		}
		main := []Req{
			{Node: 0, Op: na(Op{Kind: "distFast", N: 2}), To: []int{1}}, {Node: 0, Op: na(Op{Kind: "distAcc", N: 2}), To: []int{1}},
			{Node: 0, Op: na(Op{Kind: "distFast", N: 9}), To: []int{0, 1}}, {Node: 0, Op: na(Op{Kind: "distAcc", N: 9}), To: []int{-1}},
			{Node: 0, Op: na(Op{Kind: "distFast", N: 2}), To: []int{}},
		}
		judge := func(r *R, w *world) { w.conserve(r, "R07", lostReply(w)) }
		us = append(us, interUnits("R07", main, b, "", 0, judge)...)
		us = append(us, interUnits("R07", main[:4], 0, "dqr", 1, judge)...)
		us = append(us, interUnits("R07", main[:4], b-2, "sS", 1, judge)...)
		return Check{Units: us}
	}
	checks["R08"] = func() Check {
		var us []Unit
		us = append(us, stealUnits("R08", "x mix absent hollow nogroups exp many holes d3 down", "x yn mix absent hollow exp down nogroups many holes d3", []int{-1, 0, 1, 2, 3, 4, 9, 1 << 40}, "", 0)...)
		us = append(us, netTwinUnits("R08", "steal")...)
		us = append(us, historyUnits("R08", []Req{{Node: 0, Op: na(Op{Kind: "steal", N: 2}), To: []int{1}}, {Node: 2, Op: na(Op{Kind: "steal", N: 9}), To: []int{0}}}, func(r *R, w *world, x *rec) { judgeSteal(r, w, x, "R08") })...)
		us = append(us, netSizeUnits("R08", "steal", func(r *R, w *world, x *rec) { judgeSteal(r, w, x, "R08") })...)
		us = append(us, stealUnits("R08", "x absent many", "x yn many holes absent", []int{1, 3, 9}, "dq", 2)...)
		us = append(us, stealUnits("R08", "x absent many", "x yn many holes absent", []int{1, 3, 9}, "sS", slowN)...)
		b := 2
		if thorough {
			b = 3
			us = append(us, stealUnits("R08", "x mix absent many", "x yn many holes absent", []int{1, 2, 3, 4, 9}, "dq", 4)...)
		}
		main := []Req{
			{Node: 1, Op: na(Op{Kind: "steal", N: 2}), To: []int{0}}, {Node: 1, Op: na(Op{Kind: "steal", N: 9}), To: []int{0}}, {Node: 0, Op: na(Op{Kind: "steal", N: 3}), To: []int{1}},
		}
		judge := func(r *R, w *world) { w.conserve(r, "R08", lostReply(w)) }
		us = append(us, interUnits("R08", main, b, "", 0, judge)...)
		us = append(us, interUnits("R08", main, 0, "dq", 1, judge)...)
		us = append(us, interUnits("R08", main, b-2, "sS", 1, judge)...)
		return Check{Units: us}
	}
}
