package vh

import (
	"fmt"

	"vharness/vrt"
)

func one(groups ...gspec) []rstart { return []rstart{{seeds: []nsSeed{{"a", groups}}}} }

// Start states of single-node concurrency scenarios.
var concStarts = []rstart{
	{name: "absent"},
	{name: "one", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vB)}}}}},
	{name: "two", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vB, vXY)}, {dps: ds(vY)}}}}},
	{name: "mixed", seeds: []nsSeed{{"a", []gspec{{dps: []dspec{x(vX, xShort), x(vB, xNone), x(vXY, xLong)}}, {vec: vN}, {dps: []dspec{x(vY, xShort), x(vN, xNone)}}}}}, tick: true},
}

func rq(ops ...Op) []Req {
	var r []Req
	for _, o := range ops {
		r = append(r, Req{Op: o})
	}
	return r
}

func na(o Op) Op { o.NS = "a"; return o }

var concOps = []Op{
	na(Op{Kind: "add", Vec: vX}), na(Op{Kind: "add", Vec: vN}), na(Op{Kind: "add", Vec: v3}),
	na(Op{Kind: "drainU", N: 1}), na(Op{Kind: "drainO", N: 2}),
	na(Op{Kind: "knn", Vec: vXY, N: 2, Drain: true}), na(Op{Kind: "knn", Vec: vX, N: 3}),
	na(Op{Kind: "nearest", Vec: vX, N: 1, Drain: true}), na(Op{Kind: "nearest", Vec: vXY, N: 2}),
	na(Op{Kind: "nearestVec", Vec: vX}), na(Op{Kind: "vec"}), na(Op{Kind: "lendp"}),
	na(Op{Kind: "split", Min: 1, Max: 9}), na(Op{Kind: "merge", Min: -1, Max: 9}),
	na(Op{Kind: "memtrim"}), na(Op{Kind: "expire"}), na(Op{Kind: "move"}), na(Op{Kind: "distInt", N: 1}),
	{Kind: "namespaces"}, {Kind: "meta"},
}

var concCore = []Op{
	na(Op{Kind: "add", Vec: vX}), na(Op{Kind: "add", Vec: vN}),
	na(Op{Kind: "knn", Vec: vX, N: 2, Drain: true}), na(Op{Kind: "drainO", N: 2}),
	na(Op{Kind: "nearest", Vec: vX, N: 1, Drain: true}), na(Op{Kind: "nearest", Vec: vXY, N: 2}),
	na(Op{Kind: "split", Min: 1, Max: 9}), na(Op{Kind: "memtrim"}),
	na(Op{Kind: "vec"}), {Kind: "meta"},
}

// slowM is cosine similarity whose searches are preempted: before they start,
// after every vector they are given, and when they are done.
func slowSearch(f func([]float64, func() ([]float64, bool), int) []int) func([]float64, func() ([]float64, bool), int) []int {
	return func(t []float64, g func() ([]float64, bool), k int) []int {
		vrt.Point("search starts", nil)
		r := f(t, func() ([]float64, bool) {
			v, ok := g()
			vrt.Point("search step", nil)
			return v, ok
		}, k)
		vrt.Point("search ends", nil)
		return r
	}
}

var slowM = &measure{"slow", cosScore, slowSearch(cosM.knn), slowSearch(cosM.kfn)}

// concUnits builds the linearisability scenarios: pairs of requests, triples,
// and two clients with two requests each.
func concUnits(p string, pairOps, coreOps []Op, starts []rstart, bPair, bTri, bTwo, bSlow int, bin string) []Unit {
	var us []Unit
	judge := func(r *R, w *world, ref map[string][][][2]int) {
		o := w.outcome()
		ord, ok := ref[o]
		if !ok {
			r.Fail(p+"-not-sequential", "answers and contents match no sequential order: %s", o)
		} else if !w.legal(ord) {
			r.Fail(p+"-real-time", "answers and contents only match orders that contradict the real-time order: %s", o)
		}
		w.conserve(r, p, false)
	}
	add := func(name string, b int, ss []*Scn) {
		if b < 0 || len(ss) == 0 {
			return
		}
		us = append(us, Unit{Name: name, Bin: bin, Run: func(u *U) { u.explore(ss, b, 0, nil, judge) }})
	}
	for si := range starts {
		st := starts[si]
		for _, thr := range []int{0, 4} {
			if (si+thr/4)%2 == 0 && !thorough {
				continue
			}
			mk := func(threads ...[]Req) *Scn {
				s := &Scn{nodes: []rstart{st}, thr: thr, threads: threads, ref: true, rev: si%2 == 1}
				s.name = st.name
				for _, t := range threads {
					s.name += fmt.Sprint(" | ")
					for i := range t {
						s.name += t[i].String() + " "
					}
				}
				return s
			}
			for i := range pairOps {
				var ss []*Scn
				for j := i; j < len(pairOps); j++ {
					ss = append(ss, mk(rq(pairOps[i]), rq(pairOps[j])))
				}
				add(fmt.Sprintf("S5/pairs/%s/limit%d/%v", st.name, thr, pairOps[i].String()), bPair, ss)
			}
			if bSlow > 0 {
				for i := range pairOps {
					var ss []*Scn
					for j := i; j < len(pairOps); j++ {
						q := mk(rq(pairOps[i]), rq(pairOps[j]))
						q.ms, q.paid = slowM, true
						ss = append(ss, q)
					}
					add(fmt.Sprintf("S5/slow/%s/limit%d/%v", st.name, thr, pairOps[i].String()), bSlow, ss)
				}
			}
			for i := range coreOps {
				var tri []*Scn
				for j := i; j < len(coreOps); j++ {
					for k := j; k < len(coreOps); k++ {
						tri = append(tri, mk(rq(coreOps[i]), rq(coreOps[j]), rq(coreOps[k])))
					}
				}
				add(fmt.Sprintf("S5/triples/%s/limit%d/%v", st.name, thr, coreOps[i].String()), bTri, tri)
				var two []*Scn
				for j := range coreOps {
					for k := i; k < len(coreOps); k++ {
						for l := range coreOps {
							if (j+k+l)%3 == 0 || thorough {
								two = append(two, mk(rq(coreOps[i], coreOps[j]), rq(coreOps[k], coreOps[l])))
							}
						}
					}
				}
				add(fmt.Sprintf("S5/two-by-two/%s/limit%d/%v", st.name, thr, coreOps[i].String()), bTwo, two)
			}
		}
	}
	return us
}

func init() {
	checks["R03"] = func() Check {
		bp, bt, b2, bs := 3, 2, 1, 3
		if thorough {
			bp, bt, b2, bs = 99, 3, 2, 4
		}
		us := append(programUnits("R03", b2), concUnits("R03", concOps, concCore, concStarts, bp, bt, b2, bs, "")...)
		return Check{Units: us, Notes: []string{"scheduling points: request arrival, every mutex acquisition, reply encoding; in S5/slow also around every step of a search"}}
	}
}
