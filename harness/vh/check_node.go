package vh

import (
	"fmt"

	"vharness/vrt"
)

// ---- R02: acknowledgement of puts ----

func r02Ops() ([]Op, int) {
	ops := []Op{
		{Kind: "add", NS: "a", Vec: vX}, {Kind: "add", NS: "a", Vec: vN, Exp: xShort}, {Kind: "add", NS: "a", Vec: v3}, {Kind: "add", NS: "a", Vec: vY, Exp: xGone},
		{Kind: "add", NS: "b", Vec: vXY, Exp: xPast}, {Kind: "add", NS: "b", Vec: v3}, {Kind: "add", NS: "b", Vec: vX, Exp: xGone},
		{Kind: "drainU", NS: "a", N: 99}, {Kind: "drainO", NS: "a", N: 1}, {Kind: "knn", NS: "a", Vec: vB, N: 2, Drain: true},
		{Kind: "nearest", NS: "a", Vec: vXY, N: 1, Drain: true}, {Kind: "nearest", NS: "a", Vec: vXY, N: 9, Drain: true},
		{Kind: "merge", NS: "a", Min: -1, Max: 3}, {Kind: "split", NS: "a", Min: 1, Max: 9}, {Kind: "memtrim", NS: "a"}, {Kind: "expire", NS: "a"}, {Kind: "tick"},
	}
	base := len(ops)
	for _, ns := range []string{"a", "b", "c", ""} {
		for _, e := range []int{xNone, xPast, xLong, xShort, xGone} {
			for _, v := range [][]float64{vX, v0, vBig, v3, {}, nil} {
				ops = append(ops, Op{Kind: "add", NS: ns, Vec: v, Exp: e})
			}
		}
	}
	ops = append(ops, Op{Kind: "add", NS: "a", Down: true, Vec: vX}, Op{Kind: "add", NS: "c", Down: true, Vec: vX})
	return ops, base
}

var vBig = []float64{1e9, -1e-9}

// puts with concurrent first uses, drains and restructuring
func createUnits(p string, bPair, bTri int) []Unit {
	puts := []Op{
		na(Op{Kind: "add", Vec: vX}), na(Op{Kind: "add", Vec: vN}), na(Op{Kind: "add", Vec: v3}), na(Op{Kind: "add", Vec: vXY, Exp: xLong}), na(Op{Kind: "add", Vec: vY, Exp: xGone}),
		{Kind: "add", NS: "b", Vec: vX}, {Kind: "add", NS: "", Vec: vX},
	}
	others := []Op{
		na(Op{Kind: "drainU", N: 9}), na(Op{Kind: "knn", Vec: vX, N: 9, Drain: true}), na(Op{Kind: "nearest", Vec: vX, N: 9, Drain: true}),
		na(Op{Kind: "memtrim"}), na(Op{Kind: "split", Min: 0, Max: 9}), na(Op{Kind: "merge", Min: -1, Max: 9}),
	}
	var us []Unit
	for _, st := range []rstart{concStarts[0], concStarts[1], {name: "hollow", seeds: []nsSeed{{"a", nil}}}} {
		st := st
		for _, thr := range []int{0, 2} {
			mk := func(threads ...[]Req) *Scn {
				s := &Scn{nodes: []rstart{st}, thr: thr, threads: threads, stages: "dq", name: st.name}
				for _, t := range threads {
					s.name += " |"
					for i := range t {
						s.name += " " + t[i].String()
					}
				}
				return s
			}
			var pairs, tris []*Scn
			for i, a := range puts {
				for _, b := range puts[i:] {
					pairs = append(pairs, mk(rq(a), rq(b)), mk(rq(a, b), rq(b)))
					for _, c := range others {
						tris = append(tris, mk(rq(a), rq(b), rq(c)))
					}
					tris = append(tris, mk(rq(a), rq(b), rq(puts[0])))
				}
				for _, c := range others {
					pairs = append(pairs, mk(rq(a), rq(c)), mk(rq(a), rq(c, a)))
				}
			}
			judge := func(r *R, w *world, _ map[string][][][2]int) { judgePuts(p, r, w) }
			us = append(us,
				Unit{Name: fmt.Sprintf("S5/puts2/%s/limit%d", st.name, thr), Run: func(u *U) { u.explore(pairs, bPair, 1, nil, judge) }},
				Unit{Name: fmt.Sprintf("S5/puts3/%s/limit%d", st.name, thr), Run: func(u *U) { u.explore(tris, bTri, 0, nil, judge) }})
		}
	}
	return us
}

// judgePuts: acknowledged puts are stored (or were handed out) exactly once in
// their namespace, others nowhere.
func judgePuts(p string, r *R, w *world) {
	w.conserve(r, p, false)
	all := map[string]int{}
	for _, n := range w.nodes {
		for _, s := range n.snaps() {
			for id, c := range s.allIDs() {
				all[id] += c
			}
		}
	}
	handed := map[string]bool{}
	for _, x := range w.recs {
		for _, d := range x.A.DPs {
			handed[d.ID] = true
		}
	}
	for _, x := range w.recs {
		if x.DP == nil || !x.Done {
			continue
		}
		if x.A.OK && x.A.Err != nil {
			r.Fail(p+"-ack-error", "put of %s acknowledged together with error %v", x.DP.ID, x.A.Err)
		}
		if !x.A.OK && (all[x.DP.ID] > 0 || handed[x.DP.ID]) {
			r.Fail(p+"-refused", "put of %s refused, but it is in the store; end: %s", x.DP.ID, w.final())
		}
	}
	// A namespace exists if it did before or if something was accepted for it.
	for i, n := range w.nodes {
		for _, ns := range n.names() {
			ok := false
			if _, was := w.pre[i][ns]; was {
				ok = true
			}
			for _, x := range w.recs {
				switch {
				case x.Q.Op.NS != ns:
				case x.DP != nil && x.A.OK && x.Q.Op.Kind == "add" && x.Q.Node == i:
					ok = true
				case x.DP != nil && x.A.OK && x.Q.Op.Kind != "add" && has(x.Q.To, i):
					ok = true // one of the routed put's nodes: conserve tells which
				case x.Q.Op.Kind == "steal" && x.Q.Node == i:
					ok = true
				}
			}
			if !ok {
				r.Fail(p+"-namespace", "namespace %q of node %d exists although nothing was stored in it", ns, i)
			}
		}
	}
}

func has(l []int, i int) bool {
	for _, x := range l {
		if x == i {
			return true
		}
	}
	return false
}

// ---- R04: a long-running operation on one namespace ----

// holdM is cosine similarity, except that searches for marked vectors take as
// long as the scenario wants: they wait until every other request completed.
var holdActive func() bool

const holdMark = 777

func holdSearch(f func([]float64, func() ([]float64, bool), int) []int) func([]float64, func() ([]float64, bool), int) []int {
	return func(t []float64, g func() ([]float64, bool), k int) []int {
		if h := holdActive; h != nil && len(t) > 0 && t[0] == holdMark {
			vrt.Point("long-running operation", h)
		}
		return f(t, g, k)
	}
}

var holdM = &measure{"hold", cosScore, holdSearch(cosM.knn), holdSearch(cosM.kfn)}

// holdUnits: thread 0 runs a long operation on namespace "a"; requests on
// other namespaces, listings and creations complete meanwhile. Requests marked
// as waiting may themselves wait for "a" (metadata, other operations on it):
// they must not make the rest wait.
func holdUnits(bound int) []Unit {
	mark := []float64{holdMark, 1}
	long := []Op{
		na(Op{Kind: "knn", Vec: mark, N: 2}), na(Op{Kind: "knn", Vec: mark, N: 2, Drain: true}), na(Op{Kind: "nearest", Vec: mark, N: 1}),
		na(Op{Kind: "nearest", Vec: mark, N: 1, Drain: true}), na(Op{Kind: "add", Vec: mark}), na(Op{Kind: "nearestVec", Vec: mark}),
	}
	free := []Op{{Kind: "namespaces"}, {Kind: "add", NS: "c", Vec: vX}, {Kind: "add", NS: "b", Vec: vX}, {Kind: "add", NS: "", Vec: v3}}
	for _, o := range concOps {
		if o.NS == "a" {
			o.NS = "b"
			free = append(free, o)
		}
	}
	wait := []Req{
		{Op: Op{Kind: "meta"}}, {Op: na(Op{Kind: "add", Vec: vX})}, {Op: na(Op{Kind: "vec"})}, {Op: na(Op{Kind: "drainO", N: 1})},
		{Op: na(Op{Kind: "nearest", Vec: vX, N: 1, Drain: true})}, {Op: na(Op{Kind: "merge", Min: -1, Max: 9})}, {Op: na(Op{Kind: "memtrim"})},
		{Node: 1, Op: na(Op{Kind: "distFast", N: 1}), To: []int{0}}, {Node: 1, Op: na(Op{Kind: "distAcc", N: 1}), To: []int{0, 1}},
		{Node: 1, Op: na(Op{Kind: "steal", N: 2}), To: []int{0}},
		{Node: 0, Op: na(Op{Kind: "steal", N: 2}), To: []int{1}},
		{Node: 0, Op: na(Op{Kind: "distFast", N: 1}), To: []int{1}},
	}
	st := rstart{name: "two", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vB)}, {dps: ds(vY)}}}, {"b", []gspec{{dps: ds(vX, vB, vXY)}, {dps: ds(vY)}}}}}
	st2 := rstart{name: "other", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vN)}}}, {"b", []gspec{{dps: ds(vXY)}}}}}
	var us []Unit
	for _, l := range long {
		l := l
		for wi := -1; wi < len(wait); wi++ {
			var ss []*Scn
			for fi, f := range free {
				// The free client performs two requests in a row.
				g := free[(fi+3)%len(free)]
				s := &Scn{nodes: []rstart{st, st2}, ms: holdM, thr: 4, threads: [][]Req{rq(l), rq(f, g)}}
				if wi >= 0 {
					s.threads = append(s.threads, []Req{wait[wi]})
				}
				s.name = fmt.Sprintf("long %v, meanwhile %v %v", l.String(), f.String(), g.String())
				if wi >= 0 {
					s.name += ", waiting " + wait[wi].String()
				}
				ss = append(ss, s)
			}
			pre := func(r *R, w *world) {
				fl := w.of(1)
				holdActive = func() bool { return fl[0].Done && fl[1].Done }
			}
			us = append(us, Unit{Name: fmt.Sprintf("S5/long-running/%s/%d", l.String(), wi), Run: func(u *U) {
				u.explore(ss, bound, 0, pre, func(r *R, w *world, _ map[string][][][2]int) {
					holdActive = nil
					// The other namespaces' clients saw their own data only.
					for _, x := range w.recs {
						for _, d := range x.A.DPs {
							if w.m.nsOf[d.ID] != x.Q.Op.NS {
								r.Fail("R04-leak", "%v returned %s of namespace %q", x.Q, d.ID, w.m.nsOf[d.ID])
							}
						}
					}
					w.conserve(r, "R04", false)
				})
				holdActive = nil
			}})
		}
	}
	return us
}

// crossUnits: requests between nodes touch only their own namespace.
func crossUnits() []Unit {
	names := []string{"a", "b", "", "a ", "A"}
	st0 := rstart{seeds: []nsSeed{}}
	st1 := rstart{seeds: []nsSeed{}}
	for i, n := range names {
		st0.seeds = append(st0.seeds, nsSeed{n, []gspec{{dps: ds(vX, vB)}, {dps: ds(vY)}}})
		if i != 2 {
			st1.seeds = append(st1.seeds, nsSeed{n, []gspec{{dps: ds(vN, vXY)}}})
		}
	}
	var ss []*Scn
	for _, n := range append([]string{"zz"}, names...) {
		for _, q := range []Req{
			{Node: 0, Op: Op{Kind: "distFast", N: 9, NS: n}, To: []int{1}}, {Node: 0, Op: Op{Kind: "distAcc", N: 2, NS: n}, To: []int{0, 1}},
			{Node: 1, Op: Op{Kind: "steal", N: 3, NS: n}, To: []int{0}}, {Node: 0, Op: Op{Kind: "steal", N: 9, NS: n}, To: []int{1}},
		} {
			ss = append(ss, &Scn{name: q.String(), nodes: []rstart{st0, st1}, thr: 4, threads: [][]Req{{q}}})
			for _, m := range names {
				o := Op{Kind: "add", NS: m, Vec: vX}
				ss = append(ss, &Scn{name: q.String() + " | " + o.String(), nodes: []rstart{st0, st1}, thr: 4, threads: [][]Req{{q}, {{Node: 1, Op: o}, {Node: 0, Op: Op{Kind: "drainU", NS: m, N: 1}}}}})
			}
		}
	}
	return []Unit{{Name: "S5/between-nodes", Run: func(u *U) {
		u.explore(ss, 1, 0, nil, func(r *R, w *world, _ map[string][][][2]int) {
			w.conserve(r, "R04", false)
			for i, n := range w.nodes {
				for ns, s := range n.snaps() {
					touched := false
					for _, x := range w.recs {
						if x.Q.Op.NS == ns {
							touched = true
						}
					}
					if p, ok := w.pre[i][ns]; !touched && (!ok || p.fullKey() != s.fullKey()) {
						r.Fail("R04-changed", "namespace %q of node %d changed although no request named it: %s became %s", ns, i, p.String(), s.String())
					}
				}
			}
		})
	}}}
}

func init() {
	checks["R02"] = func() Check {
		d, nd, bp, bt := 3, 2, 3, 2
		if thorough {
			d, nd, bp, bt = 4, 3, 6, 3
		}
		us := rpcUnits("put", judgeR02, r02Ops, rpcStarts, d, nil)
		us = append(us, nativeUnits("put", judgeR02, r02Ops, rpcStarts, nd)...)
		us = append(us, createUnits("R02", bp, bt)...)
		return Check{Units: us}
	}
	checks["R04"] = func() Check {
		d, nd, b := 4, 2, 1
		if thorough {
			d, nd, b = 5, 3, 2
		}
		us := rpcUnits("namespaces", judgeR04, nsOps, rpcStarts, d, nil)
		us = append(us, nativeUnits("namespaces", judgeR04, nsOps, rpcStarts, nd)...)
		us = append(us, rpcUnits("long names", judgeR04, longNSOps, rpcStarts[:2], d-1, nil)...)
		us = append(us, holdUnits(b)...)
		us = append(us, crossUnits()...)
		return Check{Units: us}
	}
}
