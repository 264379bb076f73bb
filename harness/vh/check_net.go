package vh

import (
	"fmt"
	"strings"
)

// ---- requests between nodes that cannot be honoured (C11, R01) ----

func netErrorUnits(p string) []Unit {
	kinds := kindsNamed("x absent nogroups exp d3")
	var us []Unit
	for _, a := range kinds {
		var ss []*Scn
		for _, b := range kinds {
			nodes, down, name := netOf(a, b)
			add := func(q Req) {
				ss = append(ss, &Scn{name: name + "| " + q.String(), nodes: nodes, down: down, thr: 4, threads: [][]Req{{q}}})
			}
			for _, ns := range []string{"a", "zz", ""} {
				for _, n := range []int{-1, 0, 1, 9, 1 << 40} {
					for _, me := range []int{0, -1} {
						for _, k := range []string{"distFast", "distAcc"} {
							for _, to := range [][]int{{}, {0}, {1}, {-1}, {1, -1}, {-1, 0}} {
								add(Req{Node: me, Op: Op{Kind: k, NS: ns, N: n}, To: to})
							}
						}
						for _, from := range []int{1, 0, -1} {
							if from == 0 && n > 50 {
								continue
							}
							add(Req{Node: me, Op: Op{Kind: "steal", NS: ns, N: n}, To: []int{from}})
						}
					}
				}
			}
		}
		us = append(us, Unit{Name: "S4/bad-requests/" + p + "/" + a.name, Run: func(u *U) {
			u.explore(ss, 0, 0, nil, func(r *R, w *world, _ map[string][][][2]int) { judgeNetErrors(r, w, w.recs[0], p) })
		}})
	}
	return us
}

func judgeNetErrors(r *R, w *world, x *rec, p string) {
	op := &x.Q.Op
	knows := func(i int) bool {
		if w.isDown(i) {
			return false
		}
		_, ok := w.pre[i][op.NS]
		return ok
	}
	idle := x.Q.Node < 0 || op.N <= 0
	if op.Kind == "steal" {
		idle = idle || !knows(x.Q.To[0])
	} else {
		idle = idle || !knows(x.Q.Node)
	}
	if p == "C11" {
		if idle {
			w.unchanged(r, p, nil, "")
			w.sameNames(r, p)
		}
		return
	}
	wantErr := x.Q.Node < 0 || op.Kind != "steal" && !knows(x.Q.Node)
	if wantErr && x.A.Err == nil {
		r.Fail(p+"-error", "%v reports no error", x.Q)
	}
	if !wantErr && x.A.Err != nil {
		r.Fail(p+"-error", "%v reports %v", x.Q, x.A.Err)
	}
	if wantErr && (x.A.OK || x.A.N != 0) {
		r.Fail(p+"-answer", "%v answers %d, %v", x.Q, x.A.N, x.A.OK)
	}
}

// sameNames: the nodes hold the namespaces they held before.
func (w *world) sameNames(r *R, p string) {
	for i, n := range w.nodes {
		for _, ns := range n.names() {
			if _, ok := w.pre[i][ns]; !ok {
				r.Fail(p+"-created", "namespace %q appeared on node %d", ns, i)
				return
			}
		}
		if len(n.names()) < len(w.pre[i]) {
			r.Fail(p+"-dropped", "a namespace of node %d is gone", i)
			return
		}
	}
}

// ---- twins: equal datapoints are still separate ones ----

var twinNets = [][]rstart{
	{{name: "xxx", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vX, vX)}}}}}, {name: "n", seeds: []nsSeed{{"a", []gspec{{dps: ds(vN)}}}}}},
	{{name: "x", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX)}}}}}, {name: "x+xx", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX)}, {dps: ds(vX, vX)}}}}}},
	{{name: "xn", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vX)}, {dps: ds(vN, vN)}}}}}, {name: "absent"}},
	{{name: "xy", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vY, vX)}}}}}, {name: "hollow", seeds: []nsSeed{{"a", []gspec{{vec: vXY}}}}}},
}

func netTwinUnits(p string, kinds string) []Unit {
	var reqs []Req
	both := []int{0, 1}
	for _, k := range strings.Fields(kinds) {
		for _, v := range [][]float64{vX, vN} {
			switch k[0] {
			case 'p':
				for _, e := range []int{xNone, xLong} {
					reqs = append(reqs, Req{Op: na(Op{Kind: k, Vec: v, Exp: e}), To: both})
				}
			case 'g':
				for _, n := range []int{1, 2, 4, 9} {
					reqs = append(reqs, Req{Op: na(Op{Kind: k, Vec: v, N: n}), To: both}, Req{Op: na(Op{Kind: k, Vec: v, N: n, Drain: true}), To: both})
				}
			}
		}
		for _, n := range []int{1, 3, 9} {
			switch k[0] {
			case 'd':
				reqs = append(reqs, Req{Op: na(Op{Kind: k, N: n}), To: []int{1}}, Req{Op: na(Op{Kind: k, N: n}), To: []int{1, 0}}, Req{Op: na(Op{Kind: k, N: n}), To: []int{-1}})
			case 's':
				reqs = append(reqs, Req{Node: 1, Op: na(Op{Kind: k, N: n}), To: []int{0}}, Req{Node: 0, Op: na(Op{Kind: k, N: n}), To: []int{1}})
			}
		}
	}
	var us []Unit
	for _, net := range twinNets {
		nodes, _, name := netOf(net...)
		var one, two []*Scn
		mk := func(threads ...[]Req) *Scn {
			s := &Scn{name: name + "|", nodes: nodes, thr: 4, twin: true, randAll: true, api: p == "A01", threads: threads, paid: true}
			for _, t := range threads {
				for i := range t {
					s.name += " " + t[i].String()
				}
				s.name += " |"
			}
			return s
		}
		first := append([]Req{}, reqs...)
		first = append(first, rq(na(Op{Kind: "add", Vec: vX}), na(Op{Kind: "drainU", N: 1}))...)
		for i := range reqs {
			one = append(one, mk([]Req{reqs[i]}))
			for j := range first {
				one = append(one, mk([]Req{first[j], reqs[i]}))
			}
			for j := i; j < len(first); j++ {
				if !thorough && len(reqs) > 30 && (i+j)%5 != 0 {
					continue
				}
				two = append(two, mk([]Req{reqs[i]}, []Req{first[j]}))
			}
		}
		judge := func(r *R, w *world, _ map[string][][][2]int) { judgeNetTwins(r, w, p) }
		us = append(us, Unit{Name: "S6/twins/" + p + "/" + name, Run: func(u *U) { u.explore(one, 0, 0, nil, judge) }})
		if p != "A01" || thorough {
			us = append(us, Unit{Name: "S6/twins2/" + p + "/" + name, Run: func(u *U) { u.explore(two, 1, 0, nil, judge) }})
		}
	}
	return us
}

// stored counts everything stored.
func stored(ss map[string]Snap) int {
	n := 0
	for _, s := range ss {
		n += s.total()
	}
	return n
}

func judgeNetTwins(r *R, w *world, p string) {
	want := 0
	for i := range w.nodes {
		want += stored(w.pre[i])
	}
	got := 0
	for _, n := range w.nodes {
		got += stored(n.snaps())
	}
	run := want
	for _, x := range w.recs {
		k := x.Q.Op.Kind
		read := strings.HasPrefix(k, "get")
		if read && len(w.s.threads) == 1 {
			exp := run
			if x.Q.Op.N < exp {
				exp = x.Q.Op.N
			}
			if len(x.A.DPs) != exp {
				r.Fail(p+"-twins-few", "%v returned %d of %d equal datapoints", x.Q, len(x.A.DPs), run)
				return
			}
		}
		switch {
		case x.DP != nil && x.A.OK:
			run++
		case x.DP != nil && len(w.s.threads) == 1:
			r.Fail(p+"-twins-refused", "%v is refused", x.Q)
			return
		case read && x.Q.Op.Drain || k == "drainU":
			run -= len(x.A.DPs)
		}
	}
	if got != run {
		r.Fail(p+"-twins-count", "%d datapoints with equal contents are stored, %d should be; end: %s", got, run, w.final())
	}
}

// ---- large stores ----

func sizedNode(name string, n, groups int, off int) rstart {
	gs := make([]gspec, groups)
	for i := 0; i < n; i++ {
		g := &gs[i%groups]
		v := sizedVec(i + off)
		if off%2 == 1 {
			v = vv(-v[1], v[0])
		}
		g.dps = append(g.dps, x(v, xNone))
	}
	return rstart{name: fmt.Sprintf("%s%d/%d", name, n, groups), seeds: []nsSeed{{"a", gs}}}
}

func netSizeUnits(p string, kinds string, judge func(r *R, w *world, x *rec)) []Unit {
	var us []Unit
	ns := []int{7, 12, 33, 70}
	if thorough {
		ns = append(ns, 18, 50, 101, 130)
	}
	for _, n := range ns {
		for _, g := range []int{1, 4, n / 2} {
			net := []rstart{sizedNode("A", n, g, 0), sizedNode("B", n/2, (g+1)/2, 3), sizedNode("C", 3, 1, 8)}
			nodes, _, name := netOf(net...)
			var ss []*Scn
			for _, k := range strings.Fields(kinds) {
				for _, c := range dedup(n/2-1, n/2, n-1, n, n+1, n+n/2+2, 4*n) {
					var qs []Req
					switch k[0] {
					case 'g':
						for _, d := range []bool{false, true} {
							qs = append(qs, Req{Op: na(Op{Kind: k, Vec: vX, N: c, Drain: d}), To: []int{0, 1, 2}}, Req{Op: na(Op{Kind: k, Vec: vN, N: c, Drain: d}), To: []int{1, 0}})
						}
					case 'd':
						qs = append(qs, Req{Op: na(Op{Kind: k, N: c}), To: []int{1}}, Req{Op: na(Op{Kind: k, N: c}), To: []int{0, 1, 2}}, Req{Op: na(Op{Kind: k, N: c}), To: []int{2, -1, 1}})
					case 's':
						qs = append(qs, Req{Node: 1, Op: na(Op{Kind: k, N: c}), To: []int{0}}, Req{Node: 0, Op: na(Op{Kind: k, N: c}), To: []int{1}})
					}
					for _, q := range qs {
						ss = append(ss, &Scn{name: name + "| " + q.String(), nodes: nodes, thr: 0, api: p == "A01", paid: true, threads: [][]Req{{q}}})
					}
				}
			}
			us = append(us, Unit{Name: "S6/sizes/" + p + "/" + name, Run: func(u *U) {
				u.explore(ss, 0, 0, nil, func(r *R, w *world, _ map[string][][][2]int) { judge(r, w, w.recs[0]) })
			}})
		}
	}
	return us
}

// rpcSizeUnits: R01 on large stores.
func rpcSizeUnits(j judge) []Unit {
	var us []Unit
	ns := []int{5, 9, 17, 33, 65, 101}
	if thorough {
		ns = append(ns, 2, 13, 21, 40, 50, 129, 257, 513)
	}
	for _, n := range ns {
		for _, g := range []int{1, n/3 + 1} {
			nd := sizedNode("", n, g, 0)
			var ops []Op
			for _, o := range sizeOps(n, true) {
				if o.Kind == "distExt" {
					continue
				}
				o.NS = "a"
				ops = append(ops, o)
			}
			ops = append(ops, Op{Kind: "lendp", NS: "a"}, Op{Kind: "vec", NS: "a"}, Op{Kind: "nearestVec", NS: "a", Vec: vX}, Op{Kind: "namespaces"}, Op{Kind: "meta"})
			us = append(us, Unit{Name: "S6/sizes/remote=local/" + nd.name, Run: func(u *U) {
				u.Search(rpcSearch(&nd, eucM, 0, ops, len(ops), 1, j, n%2 == 1))
			}})
		}
	}
	return us
}

// spacesUnits: many namespaces on one node.
func spacesUnits(j judge) []Unit {
	var us []Unit
	ns := []int{9, 33}
	if thorough {
		ns = append(ns, 17, 65, 129, 300)
	}
	for _, n := range ns {
		st := rstart{name: fmt.Sprint(n, " spaces")}
		for i := 0; i < n; i++ {
			st.seeds = append(st.seeds, nsSeed{fmt.Sprintf("s%d", i), []gspec{{dps: ds(sizedVec(i), sizedVec(i+1))}, {dps: ds(sizedVec(i + 2))}}})
		}
		var ops []Op
		for _, k := range dedup(0, 1, n/2, n-1, n) {
			s := fmt.Sprintf("s%d", k)
			ops = append(ops, Op{Kind: "add", NS: s, Vec: vX}, Op{Kind: "drainU", NS: s, N: 9}, Op{Kind: "memtrim", NS: s}, Op{Kind: "knn", NS: s, Vec: vX, N: 2}, Op{Kind: "lendp", NS: s})
		}
		ops = append(ops, Op{Kind: "namespaces"}, Op{Kind: "meta"})
		us = append(us, Unit{Name: "S6/spaces/" + st.name, Run: func(u *U) {
			u.Search(rpcSearch(&st, cosM, 0, ops, len(ops), 2, j, true))
		}})
	}
	return us
}

// ---- R03: one long request of one client against a program of another ----

func programUnits(p string, bound int) []Unit {
	as := []Op{
		na(Op{Kind: "drainU", N: 9}), na(Op{Kind: "drainO", N: 9}), na(Op{Kind: "knn", Vec: vX, N: 9, Drain: true}), na(Op{Kind: "nearest", Vec: vX, N: 9, Drain: true}),
		na(Op{Kind: "expire"}), na(Op{Kind: "memtrim"}), na(Op{Kind: "distInt", N: 9}), na(Op{Kind: "split", Min: 0, Max: 9}), na(Op{Kind: "merge", Min: -1, Max: 9}), na(Op{Kind: "knn", Vec: vN, N: 9}),
		{Kind: "meta"},
	}
	bs := []Op{na(Op{Kind: "add", Vec: vX}), na(Op{Kind: "add", Vec: vN}), na(Op{Kind: "drainU", N: 9}), na(Op{Kind: "knn", Vec: vY, N: 1, Drain: true}), na(Op{Kind: "memtrim"})}
	judge := func(r *R, w *world, ref map[string][][][2]int) {
		o := w.outcome()
		if ord, ok := ref[o]; !ok {
			r.Fail(p+"-not-sequential", "answers and contents match no sequential order: %s", o)
		} else if !w.legal(ord) {
			r.Fail(p+"-real-time", "answers and contents only match orders that contradict the real-time order: %s", o)
		}
		w.conserve(r, p, false)
	}
	var us []Unit
	for si := range concStarts {
		st := concStarts[si]
		for _, a := range as {
			var ss []*Scn
			for _, b := range bs {
				for _, c := range bs {
					for _, d := range bs {
						s := &Scn{nodes: []rstart{st}, thr: 0, threads: [][]Req{rq(a), rq(b, c, d)}, ref: true, paid: true, rev: si%2 == 0}
						s.name = fmt.Sprintf("%s | %v | %v %v %v", st.name, a.String(), b.String(), c.String(), d.String())
						ss = append(ss, s)
					}
				}
			}
			us = append(us, Unit{Name: fmt.Sprintf("S5/program/%s/%v", st.name, a.String()), Run: func(u *U) { u.explore(ss, bound, 0, nil, judge) }})
		}
	}
	return us
}

// ---- requests that come after others ----

// historyUnits perform every sequence of up to two (three) earlier requests and
// outages before each request that is judged.
func historyUnits(p string, reqs []Req, judge func(r *R, w *world, x *rec)) []Unit {
	all := []int{0, 1, 2}
	q := func(n int, o Op, to ...int) Req { return Req{Node: n, Op: na(o), To: to} }
	early := []Req{
		q(0, Op{Kind: "rankFast", Vec: vX}, all...), q(0, Op{Kind: "rankAcc", Vec: vX}, all...),
		q(0, Op{Kind: "putFast", Vec: vN}, all...), q(0, Op{Kind: "putAcc", Vec: vX}, 2, 1, 0),
		q(0, Op{Kind: "getFast", Vec: vX, N: 2, Drain: true}, all...), q(0, Op{Kind: "getAcc", Vec: vN, N: 9}, all...), q(0, Op{Kind: "getFast", Vec: vX, N: 99, Drain: true}, 1, 2),
		q(0, Op{Kind: "add", Vec: vv(-3, 0.5)}), q(1, Op{Kind: "add", Vec: vv(9, 1)}), q(2, Op{Kind: "add", Vec: vv(0, -4)}),
		q(0, Op{Kind: "drainU", N: 99}), q(1, Op{Kind: "knn", Vec: vX, N: 9, Drain: true}), q(1, Op{Kind: "memtrim"}), q(0, Op{Kind: "memtrim"}),
		q(0, Op{Kind: "distFast", N: 9}, 1, 2), q(1, Op{Kind: "distAcc", N: 2}, 0, 2, 1), q(2, Op{Kind: "steal", N: 2}, 0), q(0, Op{Kind: "steal", N: 9}, 1),
		q(0, Op{Kind: "outage", N: 1}), q(1, Op{Kind: "outage", N: 1}), q(2, Op{Kind: "outage", N: 1}),
		q(0, Op{Kind: "outage"}), q(1, Op{Kind: "outage"}),
		q(0, Op{Kind: "split", Min: 0, Max: 9}), q(1, Op{Kind: "merge", Min: -1, Max: 9}), q(0, Op{Kind: "wait"}),
	}
	var reqs2 []Req
	for _, r := range reqs {
		if r.To == nil {
			r.To = all
		}
		reqs2 = append(reqs2, r)
	}
	var us []Unit
	nets := [][]rstart{
		{kindsNamed("x")[0], kindsNamed("yn")[0], kindsNamed("mix")[0]},
		{kindsNamed("mix")[0], kindsNamed("absent")[0], kindsNamed("exp")[0]},
		{kindsNamed("absent")[0], kindsNamed("x")[0], kindsNamed("hollow")[0]},
	}
	for _, net := range nets {
		nodes, _, name := netOf(net...)
		for fi, first := range early {
			var ss []*Scn
			add := func(warm ...Req) {
				for _, f := range reqs2 {
					s := &Scn{nodes: nodes, thr: 4, paid: true, api: p == "A01", warm: warm, threads: [][]Req{{f}}}
					s.name = name + "|"
					for i := range warm {
						if warm[i].Op.Kind == "outage" {
							s.name += fmt.Sprintf(" outage of %d: %v", warm[i].Node, warm[i].Op.N > 0)
						} else {
							s.name += " " + warm[i].String()
						}
					}
					s.name += " | " + f.String()
					ss = append(ss, s)
				}
			}
			add(first)
			for si, second := range early {
				add(first, second)
				for ti, third := range early {
					if thorough || first.Op.Kind == "outage" && first.Op.N > 0 && (second.To != nil || second.Op.Kind == "add") && (third.Op.Kind == "outage" || third.To != nil) && (fi+si+ti)%2 == 0 {
						add(first, second, third)
					}
				}
			}
			us = append(us, Unit{Name: fmt.Sprintf("S6/history/%s/%s/%d", p, name, fi), Run: func(u *U) {
				u.explore(ss, 0, 0, nil, func(r *R, w *world, _ map[string][][][2]int) { judge(r, w, w.recs[0]) })
			}})
		}
	}
	return us
}
