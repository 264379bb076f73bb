package vh

import (
	"fmt"
	"math"
	"strings"
)

// kinds of nodes for routed operations.
var nodeKinds = []rstart{
	{name: "x", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vB)}}}}},
	{name: "yn", seeds: []nsSeed{{"a", []gspec{{dps: ds(vY, vv(0, 2))}, {dps: ds(vN)}}}, {"b", []gspec{{dps: ds(vX)}}}}},
	{name: "mix", seeds: []nsSeed{{"a", []gspec{{dps: ds(vXY, vv(2, 1), vv(1, 2))}, {dps: ds(vv(-1, -1))}, {dps: ds(vX)}}}}},
	{name: "absent", seeds: []nsSeed{{"b", []gspec{{dps: ds(vX)}}}}},
	{name: "hollow", seeds: []nsSeed{{"a", []gspec{{vec: vXY}, {vec: vY}}}}},
	{name: "d3", seeds: []nsSeed{{"a", []gspec{{dps: ds(v3, vv(0, 1, 0))}}}}},
	{name: "exp", seeds: []nsSeed{{"a", []gspec{{dps: []dspec{x(vv(2, 0), xShort), x(vv(1, 0), xNone), x(vv(3, 0), xShort)}}, {dps: []dspec{x(vY, xShort)}}}}}, tick: true},
	{name: "down"},
	{name: "nogroups", seeds: []nsSeed{{"a", nil}}},
	{name: "upright", seeds: []nsSeed{{"a", []gspec{{dps: ds(vY, vv(0, 2))}, {dps: ds(vv(0, -1))}}}, {"b", []gspec{{dps: ds(v0)}}}}},
	{name: "zero", seeds: []nsSeed{{"a", []gspec{{dps: ds(v0, v0)}}}}},
	{name: "oneN", seeds: []nsSeed{{"a", []gspec{{dps: ds(vN)}}}}},
}

func kindsNamed(names string) []rstart {
	var r []rstart
	for _, n := range strings.Fields(names) {
		for _, k := range nodeKinds {
			if k.name == n {
				r = append(r, k)
			}
		}
	}
	return r
}

func netOf(ks ...rstart) (nodes []rstart, down []int, name string) {
	for i, k := range ks {
		if k.name == "down" {
			down = append(down, i)
		}
		nodes = append(nodes, k)
		name += k.name + " "
	}
	return
}

// fit is how well node i fits q by its state before: NaN if it is not
// comparable or does not hold the namespace.
func (w *world) fit(i int, ns string, q []float64, acc bool) float64 {
	s, ok := w.pre[i][ns]
	if !ok {
		return math.NaN()
	}
	if !acc {
		if len(s.Vec) != len(q) {
			return math.NaN()
		}
		return w.m.ms.score(q, s.Vec)
	}
	best := math.NaN()
	for _, g := range s.G {
		if len(g.Vec) == len(q) {
			if v := w.m.ms.score(q, g.Vec); math.IsNaN(best) || v > best {
				best = v
			}
		}
	}
	return best
}

func (w *world) isDown(i int) bool {
	if i < 0 || i >= len(w.nodes) {
		return true
	}
	for _, d := range w.s.down {
		if d == i {
			return true
		}
	}
	return false
}

func judgeN01(r *R, w *world, x *rec) {
	acc := x.Q.Op.Kind == "rankAcc"
	op := &x.Q.Op
	seen := map[int]bool{}
	last := math.Inf(1)
	for _, n := range x.A.Nodes {
		in := false
		for _, t := range x.Q.To {
			in = in || t == n
		}
		if !in || n < 0 {
			r.Fail("N01-address", "%v ranks an address that is not among the candidates: %v", x.Q, x.A.Nodes)
			return
		}
		if seen[n] {
			r.Fail("N01-twice", "%v ranks node %d twice: %v", x.Q, n, x.A.Nodes)
			return
		}
		seen[n] = true
		f := w.fit(n, op.NS, op.Vec, acc)
		if math.IsNaN(f) || w.isDown(n) {
			r.Fail("N01-unfit", "%v ranks node %d, which is unreachable, lacks the namespace or is not comparable: %v", x.Q, n, x.A.Nodes)
			return
		}
		if f > last+eps {
			r.Fail("N01-order", "%v answered %v, but node %d fits better than the one before it (%.9g > %.9g)", x.Q, x.A.Nodes, n, f, last)
			return
		}
		last = f
	}
	for _, t := range x.Q.To {
		if !w.isDown(t) && w.faults[t] == "" && !math.IsNaN(w.fit(t, op.NS, op.Vec, acc)) && !seen[t] {
			r.Fail("N01-missing", "%v answered %v: node %d is missing", x.Q, x.A.Nodes, t)
			return
		}
	}
	w.unchanged(r, "N01", nil, "")
}

// unchanged: the live contents of all nodes are as before without gone, plus
// the datapoint added.
func (w *world) unchanged(r *R, p string, gone map[string]bool, added string) {
	for i, n := range w.nodes {
		post := n.snaps()
		for ns, a := range w.pre[i] {
			b, ok := post[ns]
			if !ok {
				r.Fail(p+"-lost", "namespace %q of node %d is gone", ns, i)
				return
			}
			b2 := b
			la, lb := a.liveIDs(), b2.liveIDs()
			// judged at the later instant
			a.Now = b2.Now
			la = a.liveIDs()
			for id, c := range la {
				want := c
				if gone[id] {
					want = 0
				}
				if lb[id] != want {
					r.Fail(p+"-contents", "%s is stored %d times on node %d, should be %d; end: %s", id, lb[id], i, want, w.final())
					return
				}
			}
			for id := range lb {
				if la[id] == 0 && id != added {
					r.Fail(p+"-contents", "%s appeared on node %d", id, i)
					return
				}
			}
		}
		for ns, b := range post {
			if _, ok := w.pre[i][ns]; ok {
				continue
			}
			for id := range b.allIDs() {
				if id != added {
					r.Fail(p+"-contents", "%s appeared on node %d", id, i)
				}
			}
			if added == "" || b.allIDs()[added] == 0 {
				r.Fail(p+"-namespace", "namespace %q appeared on node %d", ns, i)
				return
			}
		}
	}
}

func judgeN02(r *R, w *world, x *rec) {
	op := &x.Q.Op
	p := "N02"
	api := strings.HasSuffix(op.Kind, "H") // through the HTTP API
	if api {
		p = "A01"
	}
	where, count := -1, 0
	for i, n := range w.nodes {
		for ns, s := range n.snaps() {
			if c := s.allIDs()[x.DP.ID]; c > 0 {
				where = i
				count += c
				if ns != op.NS {
					r.Fail(p+"-namespace", "%v stored in namespace %q", x.Q, ns)
					return
				}
				for _, g := range s.G {
					for k := range g.DPs {
						if g.DPs[k].ID == x.DP.ID && !eqDP(&g.DPs[k], x.DP) {
							r.Fail(p+"-altered", "%v stored differently from what was put", x.Q)
							return
						}
					}
				}
			}
		}
	}
	if x.A.OK && count != 1 {
		r.Fail(p+"-ack", "%v reports success, stored %d times", x.Q, count)
		return
	}
	if !x.A.OK && count != 0 {
		r.Fail(p+"-refused", "%v reports failure, stored %d times (on node %d)", x.Q, count, where)
		return
	}
	if x.A.OK {
		w.unchanged(r, p, nil, x.DP.ID)
		in := false
		for _, t := range x.Q.To {
			in = in || t == where
		}
		if !in {
			r.Fail(p+"-elsewhere", "%v stored on node %d", x.Q, where)
			return
		}
	} else {
		w.unchanged(r, p, nil, "")
	}
	accepts := func(t int) bool {
		if w.isDown(t) || w.faults[t] != "" || !x.DP.live(x.At) {
			return false
		}
		s, ok := w.pre[t][op.NS]
		return !ok || s.dimOK(op.Vec)
	}
	acc := strings.HasPrefix(op.Kind, "putAcc")
	fits := false
	for _, t := range x.Q.To {
		fits = fits || accepts(t) && !math.IsNaN(w.fit(t, op.NS, op.Vec, acc))
	}
	// The API falls back to any node that accepts it.
	if op.Kind == "putRand" || api && !fits {
		for _, t := range x.Q.To {
			if !x.A.OK && accepts(t) {
				r.Fail(p+"-random", "%v failed although node %d accepts it", x.Q, t)
				return
			}
		}
		return
	}
	got := math.Inf(-1)
	if x.A.OK {
		got = w.fit(where, op.NS, op.Vec, acc)
		if math.IsNaN(got) {
			r.Fail(p+"-unfit", "%v stored on node %d, which lacks the namespace or is not comparable", x.Q, where)
			return
		}
	}
	for _, t := range x.Q.To {
		if t == where || !accepts(t) {
			continue
		}
		if f := w.fit(t, op.NS, op.Vec, acc); f > got+eps {
			r.Fail(p+"-best", "%v went to node %d, but node %d fits better and accepts it", x.Q, where, t)
			return
		}
	}
}

func judgeN03(r *R, w *world, x *rec) {
	op := &x.Q.Op
	p := "N03"
	if strings.HasSuffix(op.Kind, "H") {
		p = "A01"
	}
	n := op.N
	if n < 0 {
		n = 0
	}
	if len(x.A.DPs) > n {
		r.Fail(p+"-many", "%v returned %d datapoints", x.Q, len(x.A.DPs))
		return
	}
	homeOf := map[string]int{}
	livePer := map[int]map[string]bool{}
	total := 0
	for _, t := range x.Q.To {
		if w.isDown(t) {
			continue
		}
		livePer[t] = map[string]bool{}
		s := w.pre[t][op.NS]
		for gi := range s.G {
			for di := range s.G[gi].DPs {
				d := &s.G[gi].DPs[di]
				if len(d.Vec) == len(op.Vec) {
					homeOf[d.ID] = t
					if d.live(x.At) {
						livePer[t][d.ID] = true
					}
				}
			}
		}
		if w.faults[t] == "" {
			total += len(livePer[t])
		}
	}
	seen := map[string]bool{}
	gone := map[string]bool{}
	lastNode := -1
	visited := map[int]bool{}
	got := map[int]int{}
	for i := range x.A.DPs {
		d := &x.A.DPs[i]
		h, ok := homeOf[d.ID]
		if !ok || !livePer[h][d.ID] {
			r.Fail(p+"-foreign", "%v returned %s, which is expired, of another namespace or dimension, or stored nowhere", x.Q, d.ID)
			return
		}
		if seen[d.ID] {
			r.Fail(p+"-twice", "%v returned %s twice: %v", x.Q, d.ID, ids(x.A.DPs))
			return
		}
		if o := w.m.reg[d.ID]; !eqDP(d, o) {
			r.Fail(p+"-altered", "%v returned an altered %s", x.Q, d.ID)
			return
		}
		seen[d.ID] = true
		got[h]++
		if op.Drain {
			gone[d.ID] = true
		}
		if h != lastNode && visited[h] {
			r.Fail(p+"-order", "%v mixes nodes: %v", x.Q, ids(x.A.DPs))
			return
		}
		lastNode = h
		visited[h] = true
	}
	want := n
	if total < n {
		want = total
	}
	if len(seen) < want {
		r.Fail(p+"-few", "%v returned %d datapoints, the reachable nodes hold %d", x.Q, len(seen), total)
		return
	}
	if op.Kind != "getRand" {
		acc := strings.HasPrefix(op.Kind, "getAcc")
		last := math.Inf(1)
		done := map[int]bool{}
		for i := range x.A.DPs {
			h := homeOf[x.A.DPs[i].ID]
			if done[h] {
				continue
			}
			done[h] = true
			f := w.fit(h, op.NS, op.Vec, acc)
			if f > last+eps {
				r.Fail(p+"-order", "%v visited nodes out of order: %v", x.Q, ids(x.A.DPs))
				return
			}
			last = f
			for t, l := range livePer {
				if t != h && w.faults[t] == "" && len(l) > got[t] && w.fit(t, op.NS, op.Vec, acc) > f+eps {
					r.Fail(p+"-order", "%v took from node %d although node %d fits better and had more", x.Q, h, t)
					return
				}
			}
		}
	}
	w.unchanged(r, p, gone, "")
}

// routeUnits: single routed requests against every network of the given kinds,
// under every completion order, random draw and fault.
// betweenUnits: routed requests to nodes some of which cannot be reached, also
// with the threads interrupted between the end of a call and what is made of
// its result, and watched by the race detector.
func betweenUnits(p, kinds string, k int, b int, reqs []Req, judge func(r *R, w *world, x *rec)) []Unit {
	ks := kindsNamed(kinds)
	var ss, rs []*Scn
	for at := 0; at < pow(len(ks), k); at++ {
		var l []rstart
		for i, a := 0, at; i < k; i, a = i+1, a/len(ks) {
			l = append(l, ks[a%len(ks)])
		}
		nodes, down, name := netOf(l...)
		var qs []Req
		for _, q := range reqs {
			q.To = []int{}
			for j := 0; j < k; j++ {
				q.To = append(q.To, j)
			}
			qs = append(qs, q)
			ss = append(ss, &Scn{name: fmt.Sprintf("%s| %v", name, q.String()), nodes: nodes, down: down, threads: [][]Req{{q}}, cls: true})
			rs = append(rs, &Scn{name: fmt.Sprintf("%s| %v", name, q.String()), nodes: nodes, down: down, threads: [][]Req{{q}}, paid: true})
		}
		for i := range qs {
			rs = append(rs, &Scn{name: fmt.Sprintf("%s| %v | %v", name, qs[i].String(), qs[0].String()), nodes: nodes, down: down, threads: [][]Req{{qs[i]}, {qs[0]}}, paid: true, warm: []Req{qs[i], qs[0]}})
		}
	}
	return []Unit{
		{Name: "S4/" + p + "/between", Run: func(u *U) {
			u.explore(ss, b, 0, nil, func(r *R, w *world, _ map[string][][][2]int) { judge(r, w, w.recs[0]) })
		}},
		{Name: "race/" + p, Bin: "race", Run: func(u *U) { u.explore(rs, 0, 0, nil, func(*R, *world, map[string][][][2]int) {}) }},
	}
}

func routeUnits(p string, reqs []Req, kinds string, k int, stages string, faults, sched int, judge func(r *R, w *world, x *rec)) []Unit {
	ks := kindsNamed(kinds)
	var us []Unit
	pick := make([]int, k)
	for first := range ks {
		for _, ms := range []*measure{cosM, eucM} {
			var ss []*Scn
			var rec func(i int)
			rec = func(i int) {
				if i == k {
					var l []rstart
					for _, j := range pick {
						l = append(l, ks[j])
					}
					nodes, down, name := netOf(l...)
					for _, q := range reqs {
						s := &Scn{name: fmt.Sprintf("%s| %v", name, q.String()), nodes: nodes, down: down, ms: ms, threads: [][]Req{{q}}, stages: stages, randAll: true}
						if q.To == nil {
							s.threads[0][0].To = []int{}
							for j := 0; j < k; j++ {
								s.threads[0][0].To = append(s.threads[0][0].To, j)
							}
							s.name = fmt.Sprintf("%s| %v", name, s.threads[0][0].String())
						}
						// Faults with enumerated random draws multiply; the draws
						// decide only the order.
						ss = append(ss, s)
					}
					return
				}
				for j := range ks {
					pick[i] = j
					rec(i + 1)
				}
			}
			pick[0] = first
			rec(1)
			us = append(us, Unit{Name: fmt.Sprintf("S4/%s/%s/first-%s/%dnodes", p, ms.name, ks[first].name, k), Run: func(u *U) {
				u.explore(ss, sched, faults, nil, func(r *R, w *world, _ map[string][][][2]int) { judge(r, w, w.recs[0]) })
			}})
		}
	}
	return us
}

// mixUnits: routed requests concurrently with requests of others.
func mixUnits(p string, routed []Req, bound int, stages string, faults int) []Unit {
	// The networks explored one preemption less deeply come last.
	nets := [][]string{{"absent", "yn"}, {"absent", "absent"}, {"x", "yn"}, {"mix", "x"}, {"exp", "mix"}}
	others := []Req{
		{Node: 0, Op: na(Op{Kind: "add", Vec: vX})}, {Node: 1, Op: na(Op{Kind: "add", Vec: vN})},
		{Node: 0, Op: na(Op{Kind: "drainU", N: 2})}, {Node: 1, Op: na(Op{Kind: "knn", Vec: vY, N: 2, Drain: true})},
		{Node: 0, Op: na(Op{Kind: "nearest", Vec: vX, N: 1, Drain: true})}, {Node: 0, Op: na(Op{Kind: "split", Min: 0, Max: 9})}, {Node: 1, Op: na(Op{Kind: "merge", Min: -1, Max: 9})},
		{Node: 0, Op: na(Op{Kind: "distFast", N: 2}), To: []int{1}}, {Node: 0, Op: na(Op{Kind: "steal", N: 2}), To: []int{1}}, {Node: 1, Op: na(Op{Kind: "memtrim"})},
	}
	var us []Unit
	for ni, net := range nets {
		nodes, down, name := netOf(kindsNamed(strings.Join(net, " "))...)
		bound := bound
		if ni > 1 {
			bound--
		}
		for i, q := range routed {
			var ss []*Scn
			q.To = []int{0, 1}
			for _, o := range others {
				ss = append(ss, &Scn{name: fmt.Sprintf("%s| %v | %v", name, q.String(), o.String()), nodes: nodes, down: down, thr: 3, api: p[:3] == "A01", threads: [][]Req{{q}, {o}}, stages: stages, randAll: true})
			}
			for _, q2 := range routed[i:] {
				q2.To = []int{1, 0}
				ss = append(ss, &Scn{name: fmt.Sprintf("%s| %v | %v", name, q.String(), q2.String()), nodes: nodes, down: down, thr: 3, api: p[:3] == "A01", threads: [][]Req{{q}, {q2}}, stages: stages, randAll: true})
			}
			for part := range ss {
				some := ss[part : part+1]
				us = append(us, Unit{Name: fmt.Sprintf("S4/%s/concurrent/%s/%v/%d", p, name, q.String(), part), Run: func(u *U) {
					u.explore(some, bound, faults, nil, func(r *R, w *world, _ map[string][][][2]int) {
						p := p[:3]
						judgePuts(p, r, w)
						for _, x := range w.recs {
							seen := map[string]bool{}
							for i := range x.A.DPs {
								d := &x.A.DPs[i]
								if seen[d.ID] || w.m.nsOf[d.ID] != x.Q.Op.NS || !eqDP(d, w.m.reg[d.ID]) || !d.live(x.At) {
									r.Fail(p+"-answer", "%v returned %v: %s is doubled, foreign, altered or expired", x.Q, ids(x.A.DPs), d.ID)
									return
								}
								seen[d.ID] = true
							}
							if strings.HasPrefix(x.Q.Op.Kind, "get") && len(x.A.DPs) > x.Q.Op.N {
								r.Fail(p+"-many", "%v returned %d", x.Q, len(x.A.DPs))
							}
						}
					})
				}})
			}
		}
	}
	return us
}

// how many messages of an execution are late
const slowN = 2

func init() {
	checks["N01"] = func() Check {
		var reqs []Req
		for _, v := range [][]float64{vX, vY, vN, v0, v3, nil} {
			reqs = append(reqs, rq(na(Op{Kind: "rankFast", Vec: v}), na(Op{Kind: "rankAcc", Vec: v}))...)
		}
		reqs = append(reqs, rq(Op{Kind: "rankFast", NS: "b", Vec: vX}, Op{Kind: "rankAcc", NS: "zz", Vec: vX})...)
		reqs = append(reqs, Req{Op: na(Op{Kind: "rankFast", Vec: vX}), To: []int{-1, 1, 0}}, Req{Op: na(Op{Kind: "rankAcc", Vec: vX}), To: []int{1}}, Req{Op: na(Op{Kind: "rankAcc", Vec: vX}), To: []int{}})
		kinds := "x yn mix absent hollow d3 exp down nogroups upright zero"
		var us []Unit
		us = append(us, routeUnits("rank", reqs, kinds, 3, "dqr", 0, 0, judgeN01)...)
		us = append(us, routeUnits("rank-faults", reqs[:4], "x yn mix d3 exp", 3, "dqr", 1, 0, judgeN01)...)
		us = append(us, routeUnits("rank-faults2", reqs[:6], "x yn mix absent", 2, "dqr", 2, 1, judgeN01)...)
		us = append(us, routeUnits("rank-schedules", reqs[:2], "x yn mix", 3, "", 0, 1, judgeN01)...)
		us = append(us, betweenUnits("rank", "x yn down", 3, 2, reqs[:2], judgeN01)...)
		us = append(us, historyUnits("N01", rq(na(Op{Kind: "rankFast", Vec: vX}), na(Op{Kind: "rankAcc", Vec: vN})), judgeN01)...)
		us = append(us, crowdUnits("N01", crowdReqs("rankFast rankAcc"), judgeN01)...)
		us = append(us, routeUnits("rank-slow", reqs[:4], "x yn mix d3 absent", 3, "sS", slowN, 0, judgeN01)...)
		if thorough {
			us = append(us, routeUnits("rank-faults3", reqs[:6], "x yn mix d3 exp", 3, "dqr", 2, 0, judgeN01)...)
			us = append(us, routeUnits("rank-schedules2", reqs[:4], "x yn mix exp", 3, "", 0, 2, judgeN01)...)
			us = append(us, routeUnits("rank4", reqs[:4], "x yn mix d3 oneN", 4, "", 0, 0, judgeN01)...)
		}
		return Check{Units: us}
	}
	checks["N02"] = func() Check {
		var reqs []Req
		for _, k := range []string{"putFast", "putAcc", "putRand"} {
			for _, v := range [][]float64{vX, vN, v3} {
				reqs = append(reqs, rq(na(Op{Kind: k, Vec: v}))...)
			}
			reqs = append(reqs, rq(na(Op{Kind: k, Vec: vY, Exp: xLong}), na(Op{Kind: k, Vec: vX, Exp: xGone}), Op{Kind: k, NS: "zz", Vec: vX})...)
			reqs = append(reqs, Req{Op: na(Op{Kind: k, Vec: vX}), To: []int{-1, 1}}, Req{Op: na(Op{Kind: k, Vec: vX}), To: []int{}})
		}
		few := rq(na(Op{Kind: "putFast", Vec: vX}), na(Op{Kind: "putAcc", Vec: vN}), na(Op{Kind: "putRand", Vec: vX}))
		var us []Unit
		us = append(us, routeUnits("put", reqs, "x yn mix absent hollow d3 exp down nogroups upright zero", 2, "", 0, 0, judgeN02)...)
		us = append(us, netTwinUnits("N02", "putFast putAcc putRand")...)
		us = append(us, routeUnits("put3", few, "x yn mix absent d3 down exp", 3, "", 0, 0, judgeN02)...)
		us = append(us, routeUnits("put-faults", few, "x yn mix absent d3", 2, "dq", 2, 0, judgeN02)...)
		us = append(us, routeUnits("put-faults3", few, "x yn d3", 3, "dq", 1, 0, judgeN02)...)
		us = append(us, betweenUnits("put", "x yn down", 3, 2, few, judgeN02)...)
		us = append(us, historyUnits("N02", few[:2], judgeN02)...)
		us = append(us, crowdUnits("N02", crowdReqs("putFast putAcc putRand"), judgeN02)...)
		us = append(us, routeUnits("put-slow", few, "x yn mix absent d3", 2, "sS", slowN, 0, judgeN02)...)
		us = append(us, routeUnits("put-slow3", few, "x yn absent", 3, "sSdq", 1, 0, judgeN02)...)
		b := 2
		if thorough {
			b = 3
			us = append(us, routeUnits("put-all3", reqs, "x yn mix absent hollow d3 exp down", 3, "", 0, 0, judgeN02)...)
			us = append(us, routeUnits("put-faults4", few, "x yn mix absent d3", 3, "dq", 2, 0, judgeN02)...)
		}
		us = append(us, mixUnits("N02", rq(na(Op{Kind: "putFast", Vec: vX}), na(Op{Kind: "putAcc", Vec: vN}), na(Op{Kind: "putRand", Vec: vY})), b, "", 0)...)
		us = append(us, mixUnits("N02/slow", rq(na(Op{Kind: "putFast", Vec: vX}), na(Op{Kind: "putAcc", Vec: vN})), b-2, "sS", 1)...)
		return Check{Units: us}
	}
	checks["N03"] = func() Check {
		var reqs, drains []Req
		for _, k := range []string{"getFast", "getAcc", "getRand"} {
			for _, v := range [][]float64{vX, vN, v3} {
				for _, n := range []int{1, 3, 9} {
					reqs = append(reqs, rq(na(Op{Kind: k, Vec: v, N: n, Drain: true}))...)
					if n != 9 || k == "getRand" {
						reqs = append(reqs, rq(na(Op{Kind: k, Vec: v, N: n + 1}))...)
					}
				}
			}
			reqs = append(reqs, rq(na(Op{Kind: k, Vec: vX}), na(Op{Kind: k, Vec: vX, N: -1, Drain: true}), na(Op{Kind: k, Vec: vX, N: 1 << 40, Drain: true}), Op{Kind: k, NS: "zz", Vec: vX, N: 2}, Op{Kind: k, NS: "b", Vec: vX, N: 2})...)
			reqs = append(reqs, Req{Op: na(Op{Kind: k, Vec: vX, N: 9}), To: []int{-1, 1}}, Req{Op: na(Op{Kind: k, Vec: vX, N: 2, Drain: true}), To: []int{}})
			drains = append(drains, rq(na(Op{Kind: k, Vec: vX, N: 3, Drain: true}), na(Op{Kind: k, Vec: vN, N: 9, Drain: true}))...)
		}
		var us []Unit
		us = append(us, routeUnits("get", reqs, "x yn mix absent hollow d3 exp down nogroups upright zero", 2, "", 0, 0, judgeN03)...)
		us = append(us, netTwinUnits("N03", "getFast getAcc getRand")...)
		us = append(us, netSizeUnits("N03", "getFast getAcc getRand", judgeN03)...)
		us = append(us, routeUnits("get3", drains, "x yn mix absent d3 down exp oneN", 3, "", 0, 0, judgeN03)...)
		us = append(us, routeUnits("get-faults", drains, "x yn mix absent exp", 2, "dq", 2, 0, judgeN03)...)
		us = append(us, routeUnits("get-faults3", drains[:4], "x yn oneN", 3, "dq", 1, 0, judgeN03)...)
		us = append(us, betweenUnits("get", "x yn down", 3, 2, append(drains[:2:2], drains[2], drains[4]), judgeN03)...)
		us = append(us, historyUnits("N03", rq(na(Op{Kind: "getFast", Vec: vX, N: 3, Drain: true}), na(Op{Kind: "getAcc", Vec: vN, N: 9})), judgeN03)...)
		us = append(us, crowdUnits("N03", crowdReqs("getFast getAcc getRand"), judgeN03)...)
		us = append(us, routeUnits("get-slow", drains, "x yn mix absent oneN", 2, "sS", slowN, 0, judgeN03)...)
		us = append(us, routeUnits("get-slow3", drains[:4], "x yn oneN", 3, "sSdq", 1, 0, judgeN03)...)
		b := 2
		if thorough {
			b = 3
			us = append(us, routeUnits("get-all3", reqs, "x yn mix absent hollow d3 exp down", 3, "", 0, 0, judgeN03)...)
			us = append(us, routeUnits("get-faults4", drains, "x yn mix absent exp oneN", 3, "dq", 2, 0, judgeN03)...)
		}
		us = append(us, mixUnits("N03", rq(na(Op{Kind: "getFast", Vec: vX, N: 3, Drain: true}), na(Op{Kind: "getAcc", Vec: vN, N: 2, Drain: true}), na(Op{Kind: "getRand", Vec: vY, N: 9, Drain: true}), na(Op{Kind: "getFast", Vec: vY, N: 2})), b, "", 0)...)
		us = append(us, mixUnits("N03/slow", rq(na(Op{Kind: "getFast", Vec: vX, N: 3, Drain: true}), na(Op{Kind: "getAcc", Vec: vN, N: 2, Drain: true})), b-2, "sS", 1)...)
		return Check{Units: us}
	}
}

// crowdUnits: networks of many nodes, each with its own place in the ranking.
func crowdUnits(p string, reqs []Req, judge func(r *R, w *world, x *rec)) []Unit {
	var us []Unit
	sizes := []int{5, 9, 17}
	if thorough {
		sizes = append(sizes, 6, 12, 31)
	}
	for _, n := range sizes {
		for form := 0; form < 3; form++ {
			var l []rstart
			for i := 0; i < n; i++ {
				k := i
				if form == 1 {
					k = n - i
				}
				t := float64(k) / float64(n)
				st := rstart{name: fmt.Sprint("p", k), seeds: []nsSeed{{"a", []gspec{{dps: ds(vv(1-2*t, 1+t), vv(2-4*t, 2+2*t))}}}}}
				switch {
				case form == 2 && i%4 == 1:
					st = rstart{name: "absent"}
				case form == 2 && i%4 == 2:
					st = rstart{name: "down"}
				case form == 2 && i%4 == 3:
					st = kindsNamed("d3")[0]
				}
				l = append(l, st)
			}
			nodes, down, _ := netOf(l...)
			var ss []*Scn
			for _, q := range reqs {
				q.To = nil
				first := 0
				own := nodes
				if strings.HasPrefix(q.Op.Kind, "dist") {
					first = 1
					// What is handed out belongs to different nodes.
					var g gspec
					for _, t := range []float64{0.05, 0.3, 0.5, 0.7, 0.97} {
						g.dps = append(g.dps, x(vv(1-2*t, 1+t), xNone))
					}
					own = append([]rstart{{name: "spread", seeds: []nsSeed{{"a", []gspec{g}}}}}, nodes[1:]...)
				}
				for i := first; i < n; i++ {
					q.To = append(q.To, i)
				}
				s := &Scn{name: fmt.Sprintf("%d nodes, form %d| %v", n, form, q.String()), nodes: own, down: down, thr: 9, paid: true, api: p == "A01", threads: [][]Req{{q}}}
				ss = append(ss, s)
			}
			us = append(us, Unit{Name: fmt.Sprintf("S6/crowd/%s/%d/%d", p, n, form), Run: func(u *U) {
				u.explore(ss, 1, 0, nil, func(r *R, w *world, _ map[string][][][2]int) { judge(r, w, w.recs[0]) })
			}})
		}
	}
	return us
}

func crowdReqs(kinds string) []Req {
	var reqs []Req
	for _, k := range strings.Fields(kinds) {
		switch k[0] {
		case 'r', 'p':
			for _, v := range [][]float64{vX, vN, vY, v3} {
				reqs = append(reqs, rq(na(Op{Kind: k, Vec: v}))...)
			}
		case 'g':
			for _, n := range []int{1, 5, 12, 99} {
				reqs = append(reqs, rq(na(Op{Kind: k, Vec: vX, N: n}), na(Op{Kind: k, Vec: vN, N: n, Drain: true}))...)
			}
		case 'd':
			for _, n := range []int{1, 9} {
				reqs = append(reqs, rq(na(Op{Kind: k, N: n}))...)
			}
		}
	}
	return reqs
}
