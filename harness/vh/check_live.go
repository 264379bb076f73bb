package vh

import (
	"fmt"
	"strings"
)

// ---- R05: completion ----

func liveUnits(p string, b2, b3 int) []Unit {
	none := func(r *R, w *world) {}
	var main []Req
	for _, k := range []string{"distFast", "distAcc"} {
		main = append(main, Req{Node: 0, Op: na(Op{Kind: k, N: 2}), To: []int{1}}, Req{Node: 0, Op: na(Op{Kind: k, N: 2}), To: []int{0}}, Req{Node: 0, Op: na(Op{Kind: k, N: 2}), To: []int{1, -1}})
	}
	main = append(main, Req{Node: 0, Op: na(Op{Kind: "steal", N: 2}), To: []int{1}}, Req{Node: 1, Op: na(Op{Kind: "steal", N: 3}), To: []int{0}},
		Req{Node: 0, Op: na(Op{Kind: "steal", N: 3}), To: []int{0}}, Req{Node: 0, Op: Op{Kind: "steal", NS: "zz", N: 3}, To: []int{1}}, Req{Node: 0, Op: na(Op{Kind: "steal", N: 3}), To: []int{-1}})
	us := interUnits(p, main, b2, "", 0, none)
	for _, un := range interUnits(p, main[:8], 0, "dqr", 2, none) {
		if !thorough && strings.Contains(un.Name, "/crossing/many") && strings.HasSuffix(un.Name, "/b1") {
			continue // explored by R07 and R08
		}
		us = append(us, un)
	}

	// Any two operations on one node.
	for si := range concStarts {
		st := concStarts[si]
		for i, a := range concOps {
			var ss []*Scn
			for _, b := range concOps[i:] {
				ss = append(ss, &Scn{name: fmt.Sprintf("%s | %v | %v", st.name, a.String(), b.String()), nodes: []rstart{st}, thr: 4, threads: [][]Req{rq(a), rq(b)}})
			}
			us = append(us, Unit{Name: fmt.Sprintf("S5/pairs/%s/%v", st.name, a.String()), Run: func(u *U) {
				u.explore(ss, b2+1, 0, nil, func(r *R, w *world, _ map[string][][][2]int) {})
			}})
		}
	}

	// Three clients, three nodes.
	st := []rstart{nodeKinds[0], distSrc[2], {name: "absent"}}
	nodes, down, name := netOf(st...)
	reqs := []Req{
		{Node: 0, Op: na(Op{Kind: "distFast", N: 2}), To: []int{1}}, {Node: 1, Op: na(Op{Kind: "distAcc", N: 2}), To: []int{2, 0}}, {Node: 2, Op: na(Op{Kind: "distFast", N: 2}), To: []int{0, 1}},
		{Node: 0, Op: na(Op{Kind: "steal", N: 2}), To: []int{1}}, {Node: 1, Op: na(Op{Kind: "steal", N: 2}), To: []int{0}}, {Node: 2, Op: na(Op{Kind: "steal", N: 2}), To: []int{1}},
		{Node: 0, Op: na(Op{Kind: "distAcc", N: 9}), To: []int{0}}, {Node: 1, Op: na(Op{Kind: "steal", N: 3}), To: []int{1}},
		{Node: 0, Op: Op{Kind: "meta"}}, {Node: 1, Op: Op{Kind: "namespaces"}}, {Node: 2, Op: na(Op{Kind: "add", Vec: vX})}, {Node: 1, Op: na(Op{Kind: "knn", Vec: vX, N: 3, Drain: true})},
	}
	for i := range reqs {
		var ss []*Scn
		for j := i; j < len(reqs); j++ {
			for k := j; k < len(reqs); k++ {
				if i >= 8 {
					continue
				}
				ss = append(ss, &Scn{name: fmt.Sprintf("%s| %v | %v | %v", name, reqs[i].String(), reqs[j].String(), reqs[k].String()), nodes: nodes, down: down, thr: 3, paid: true,
					threads: [][]Req{{reqs[i]}, {reqs[j]}, {reqs[k]}}, stages: "dqr"})
			}
		}
		if len(ss) == 0 {
			continue
		}
		if !thorough {
			var few []*Scn // all three move data between nodes
			for _, s := range ss {
				if i < 6 && node2node(s.threads[1][0]) && node2node(s.threads[2][0]) && s.threads[2][0].String() != s.threads[1][0].String() {
					few = append(few, s)
				}
			}
			if len(few) > 0 {
				us = append(us, Unit{Name: fmt.Sprintf("S5/three-movers/%v", reqs[i].String()), Run: func(u *U) {
					u.explore(few, b3+1, 0, nil, func(r *R, w *world, _ map[string][][][2]int) {})
				}})
			}
		}
		us = append(us, Unit{Name: fmt.Sprintf("S5/three-nodes/%v", reqs[i].String()), Run: func(u *U) {
			u.explore(ss, b3, 0, nil, func(r *R, w *world, _ map[string][][][2]int) {})
		}}, Unit{Name: fmt.Sprintf("S5/three-nodes/faults/%v", reqs[i].String()), Run: func(u *U) {
			u.explore(ss, 0, 1, nil, func(r *R, w *world, _ map[string][][][2]int) {})
		}})
	}
	return us
}

// ---- R06 ----

var readOps = []Op{
	na(Op{Kind: "nearest", Vec: vX, N: 1}), na(Op{Kind: "nearest", Vec: vXY, N: 2}), na(Op{Kind: "nearest", Vec: vX, N: 1, Drain: true}),
	na(Op{Kind: "vec"}), na(Op{Kind: "nearestVec", Vec: vX}), na(Op{Kind: "knn", Vec: vX, N: 9}), na(Op{Kind: "knn", Vec: vX, N: 9, Drain: true}), na(Op{Kind: "drainU", N: 9}), na(Op{Kind: "drainO", N: 9}),
	na(Op{Kind: "lendp"}), {Kind: "meta"}, {Kind: "namespaces"},
}

var writeOps = []Op{
	na(Op{Kind: "add", Vec: vX}), na(Op{Kind: "add", Vec: vN}), na(Op{Kind: "drainU", N: 1}), na(Op{Kind: "drainO", N: 2}), na(Op{Kind: "knn", Vec: vXY, N: 2, Drain: true}),
	na(Op{Kind: "nearest", Vec: vXY, N: 1, Drain: true}), na(Op{Kind: "split", Min: 1, Max: 9}), na(Op{Kind: "merge", Min: -1, Max: 9}), na(Op{Kind: "memtrim"}), na(Op{Kind: "expire"}),
	na(Op{Kind: "move"}), na(Op{Kind: "distInt", N: 9}),
}

func snapshotUnits(p string, b1, b2 int) []Unit {
	judge := func(r *R, w *world, ref map[string][][][2]int) {
		o := w.outcome()
		ord, ok := ref[o]
		if !ok {
			r.Fail(p+"-snapshot", "the replies reflect no instant: %s", o)
		} else if !w.legal(ord) {
			r.Fail(p+"-instant", "the replies only reflect instants outside of the request: %s", o)
		}
	}
	var us []Unit
	for si := range concStarts {
		st := concStarts[si]
		for _, rd := range readOps {
			var one, two []*Scn
			for i, a := range writeOps {
				s := &Scn{nodes: []rstart{st}, thr: 4, threads: [][]Req{rq(rd), rq(a)}, ref: true, rev: si%2 == 1}
				s.name = fmt.Sprintf("%s | %v | %v", st.name, rd.String(), a.String())
				one = append(one, s)
				for j, b := range writeOps {
					if (i+j)%2 == si%2 || thorough {
						s := &Scn{nodes: []rstart{st}, thr: 4, threads: [][]Req{rq(rd), rq(a, b)}, ref: true, rev: si%2 == 1}
						s.name = fmt.Sprintf("%s | %v | %v %v", st.name, rd.String(), a.String(), b.String())
						two = append(two, s)
					}
				}
			}
			us = append(us, Unit{Name: fmt.Sprintf("S5/snapshot/%s/%v", st.name, rd.String()), Run: func(u *U) { u.explore(one, b1, 0, nil, judge) }},
				Unit{Name: fmt.Sprintf("S5/snapshot2/%s/%v", st.name, rd.String()), Run: func(u *U) { u.explore(two, b2, 0, nil, judge) }})
		}
	}
	return us
}

func raceUnits(bPair int) []Unit {
	var us []Unit
	none := func(r *R, w *world, _ map[string][][][2]int) {}
	for si := range concStarts {
		st := concStarts[si]
		for i := range concOps {
			var ss []*Scn
			for j := i; j < len(concOps); j++ {
				s := &Scn{nodes: []rstart{st}, thr: 4, threads: [][]Req{rq(concOps[i]), rq(concOps[j])}}
				s.name = fmt.Sprintf("%s | %v | %v", st.name, concOps[i].String(), concOps[j].String())
				ss = append(ss, s)
			}
			us = append(us, Unit{Name: fmt.Sprintf("race/pairs/%s/%v", st.name, concOps[i].String()), Bin: "race", Run: func(u *U) { u.explore(ss, bPair, 0, nil, none) }})
		}
	}
	return us
}

func init() {
	checks["R05"] = func() Check {
		b2, b3 := 1, 1
		if thorough {
			b2, b3 = 2, 3
		}
		return Check{Units: liveUnits("R05", b2, b3)}
	}
	checks["R06"] = func() Check {
		b1, b2, br := 4, 2, 1
		if thorough {
			b1, b2, br = 99, 4, 2
		}
		us := snapshotUnits("R06", b1, b2)
		us = append(us, raceUnits(br)...)
		us = append(us, stopUnits("R06", "race", br-1)...)
		us = append(us, lifeUnits("race", br-1, br-2)...)
		return Check{Units: us}
	}
}

func node2node(q Req) bool { return q.To != nil && !(len(q.To) == 1 && q.To[0] == q.Node) }
