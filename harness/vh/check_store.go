package vh

import (
	"fmt"
	"strings"
	"time"
)

// Vectors of the alphabets.
var (
	vX  = vv(1, 0)
	vY  = vv(0, 1)
	vXY = vv(1, 1)
	vN  = vv(-1, 0.5)
	vB  = vv(3, 1)
	v0  = vv(0, 0)
	v3  = vv(1, 0, 0)
)

type start struct {
	name   string
	groups []gspec
	tick   bool // let a tick pass after building (short-lived members expire)
	drain  bool // empty all groups afterwards
	blink  bool // let a blink pass after building, and offer blinks as operations
}

func x(v []float64, exp int) dspec { return dspec{v, exp} }

var managerStarts = []start{
	{name: "new"},
	{name: "one1", groups: []gspec{{dps: ds(vX)}}},
	{name: "one3", groups: []gspec{{dps: ds(vX, vB, vXY)}}},
	{name: "two32", groups: []gspec{{dps: ds(vX, vB, vXY)}, {dps: ds(vY, vN)}}},
	{name: "three", groups: []gspec{{dps: ds(vX, vB)}, {dps: ds(vY)}, {dps: ds(vN, vv(-1, 0), vv(-2, 1), vv(-1, 1))}}},
	{name: "four", groups: []gspec{{dps: ds(vX)}, {dps: ds(vXY, vB)}, {dps: ds(vY, vv(0, 2), vv(0.5, 1))}, {dps: ds(vN)}}},
	{name: "empties", groups: []gspec{{vec: vY}, {dps: ds(vX, vB)}, {vec: vN}, {vec: vXY}}},
	{name: "emptied", groups: []gspec{{dps: ds(vX, vB)}, {dps: ds(vY)}}, drain: true},
	{name: "expired", groups: []gspec{{dps: []dspec{x(vX, xShort), x(vB, xNone), x(vXY, xShort), x(vX, xLong)}}, {dps: []dspec{x(vY, xShort), x(vN, xShort)}}, {dps: []dspec{x(vN, xPast), x(vY, xShort)}}}, tick: true},
	{name: "expiring", groups: []gspec{{dps: []dspec{x(vB, xNone), x(vX, xShort), x(vXY, xShort)}}, {dps: []dspec{x(vN, xShort), x(vY, xLong)}}}},
	{name: "subsecond", blink: true, groups: []gspec{{dps: []dspec{x(vX, xSub), x(vB, xNone), x(vXY, xSub)}}, {dps: []dspec{x(vN, xSub), x(vY, xLong)}}}},
	{name: "zeros", groups: []gspec{{dps: ds(v0, vX)}, {dps: ds(v0)}, {dps: ds(vX, vN, vv(0, -0.5))}}},
	{name: "big", groups: []gspec{{dps: ds(vX, vB, vXY, vv(2, 1), vv(5, 2), vv(1, 0.5), vX)}, {dps: ds(vY, vN, vv(0, 3))}, {dps: ds(vv(-1, -1), vv(-2, -1), vv(0, -1), vv(-1, -3), vv(-1, 0))}}},
}

var centroidStarts = []start{
	{name: "empty", groups: []gspec{{vec: vX}}},
	{name: "three", groups: []gspec{{dps: ds(vX, vB, vN)}}},
	{name: "five", groups: []gspec{{dps: ds(vX, vB, vN, v0, vX)}}},
	{name: "expired", groups: []gspec{{dps: []dspec{x(vX, xShort), x(vB, xNone), x(vXY, xShort), x(vN, xShort), x(vX, xLong)}}}, tick: true},
	{name: "allexpired", groups: []gspec{{dps: []dspec{x(vX, xShort), x(vN, xShort)}}}, tick: true},
	{name: "expiring", groups: []gspec{{dps: []dspec{x(vN, xPast), x(vX, xShort), x(vXY, xShort), x(vB, xNone)}}}},
	{name: "subsecond", blink: true, groups: []gspec{{dps: []dspec{x(vN, xSub), x(vX, xSub), x(vXY, xShort), x(vB, xNone)}}}},
	{name: "seven", groups: []gspec{{dps: ds(vX, vB, vN, vY, vXY, vv(2, -1), vv(-3, -1))}}},
}

const huge = 1 << 40
const maxInt = int(^uint(0) >> 1)
const minInt = -maxInt - 1

// storeOps is the operation alphabet of node-local histories.
func storeOps(bad, restructure, groups bool) []Op {
	ops := []Op{
		{Kind: "add", Vec: vX}, {Kind: "add", Vec: vN}, {Kind: "add", Vec: vXY, Exp: xShort}, {Kind: "add", Vec: vY, Exp: xPast},
		{Kind: "drainU", N: 1}, {Kind: "drainU", N: 3}, {Kind: "drainO", N: 1}, {Kind: "drainO", N: 2}, {Kind: "drainO", N: 9},
		{Kind: "knn", Vec: vB, N: 1}, {Kind: "knn", Vec: vXY, N: 3, Drain: false}, {Kind: "knn", Vec: vXY, N: 1, Drain: true}, {Kind: "knn", Vec: vY, N: 2, Drain: true}, {Kind: "knn", Vec: vN, N: 4, Drain: true},
		{Kind: "expire"}, {Kind: "memtrim"}, {Kind: "move"},
		{Kind: "distInt", N: 1}, {Kind: "distInt", N: 3},
		{Kind: "distExt", N: 2, Recv: 0}, {Kind: "distExt", N: 3, Recv: 1},
		{Kind: "tick"},
	}
	if groups {
		ops = append(ops, Op{Kind: "nearest", Vec: vXY, N: 1, Drain: true}, Op{Kind: "nearest", Vec: vY, N: 2, Drain: true},
			Op{Kind: "split", Min: -1, Max: 100}, Op{Kind: "split", Min: 2, Max: 100},
			Op{Kind: "merge", Min: -1, Max: 100}, Op{Kind: "merge", Min: -1, Max: 2}, Op{Kind: "merge", Min: 1, Max: 3})
	}
	if restructure {
		ops = append(ops, Op{Kind: "merge", Pred: "x>0"}, Op{Kind: "split", Pred: "x>0"}, Op{Kind: "merge", Min: 0, Max: 3}, Op{Kind: "split", Min: 3, Max: 5}, Op{Kind: "merge", Min: 2, Max: 100})
	}
	return append(ops, bad1(bad, groups)...)
}

func bad1(bad, groups bool) []Op {
	var ops []Op
	if bad {
		for _, n := range []int{-1, minInt, huge, maxInt} {
			ops = append(ops, Op{Kind: "drainU", N: n}, Op{Kind: "drainO", N: n}, Op{Kind: "knn", Vec: vX, N: n}, Op{Kind: "knn", Vec: vX, N: n, Drain: true}, Op{Kind: "distInt", N: n}, Op{Kind: "distExt", N: n, Recv: 0})
			if groups {
				ops = append(ops, Op{Kind: "nearest", Vec: vX, N: n, Drain: n > 0}, Op{Kind: "nearest", Vec: vX, N: n})
			}
		}
		for _, v := range [][]float64{nil, {}, v3, {1}} {
			ops = append(ops, Op{Kind: "add", Vec: v}, Op{Kind: "knn", Vec: v, N: 2}, Op{Kind: "knn", Vec: v, N: 2, Drain: true})
			if groups {
				ops = append(ops, Op{Kind: "nearest", Vec: v, N: 1, Drain: true})
			}
		}
		ops = append(ops, Op{Kind: "add", Vec: vX, Exp: xGone}, Op{Kind: "distExt", N: 2, Recv: 3}, Op{Kind: "distExt", N: 2, Recv: 4})
	} else {
		ops = append(ops, Op{Kind: "add", Vec: vX, Exp: xGone}, Op{Kind: "add", Vec: v3}, Op{Kind: "drainU", N: 0}, Op{Kind: "drainO", N: 0})
	}
	return ops
}

// extraLast are operations tried only as the last one of a history.
func extraLast(groups bool) []Op {
	ops := []Op{
		{Kind: "blink"}, {Kind: "add", Vec: vX, Exp: xSub}, {Kind: "add", Vec: vN, Exp: xZero},
		{Kind: "add", Vec: v0}, {Kind: "add", Vec: vB}, {Kind: "add", Vec: vY}, {Kind: "add", Vec: vN, Exp: xLong}, {Kind: "add", Vec: vXY},
		{Kind: "drainU", N: 2}, {Kind: "drainU", N: 5}, {Kind: "drainU", N: 9}, {Kind: "drainO", N: 3}, {Kind: "drainO", N: 4}, {Kind: "drainO", N: 5}, {Kind: "drainO", N: 7},
		{Kind: "knn", Vec: vX, N: 0}, {Kind: "knn", Vec: vX, N: 2}, {Kind: "knn", Vec: vY, N: 5}, {Kind: "knn", Vec: vN, N: 9}, {Kind: "knn", Vec: v0, N: 3}, {Kind: "knn", Vec: vv(1, -1), N: 6}, {Kind: "knn", Vec: vv(-1, -1), N: 3, Drain: true}, {Kind: "knn", Vec: vv(0.2, 1), N: 5, Drain: true},
		{Kind: "knn", Vec: vN, N: 99, Drain: true}, {Kind: "knn", Vec: v3, N: 2, Drain: true},
		{Kind: "distInt", N: 2}, {Kind: "distInt", N: 9}, {Kind: "distInt", N: 0},
		{Kind: "distExt", N: 1, Recv: 0}, {Kind: "distExt", N: 5, Recv: 2}, {Kind: "distExt", N: 3, Recv: 3}, {Kind: "distExt", N: 3, Recv: 4}, {Kind: "distExt", N: 4, Recv: 5}, {Kind: "distExt", N: 9, Recv: 0}, {Kind: "distExt", N: 0, Recv: 0},
	}
	if groups {
		ops = append(ops, Op{Kind: "nearest", Vec: vX, N: 1}, Op{Kind: "nearest", Vec: vN, N: 2}, Op{Kind: "nearest", Vec: vY, N: 9}, Op{Kind: "nearest", Vec: vY, N: 9, Drain: true}, Op{Kind: "nearest", Vec: vX, N: 0, Drain: true}, Op{Kind: "nearest", Vec: v3, N: 2, Drain: true}, Op{Kind: "nearest", Vec: v0, N: 2, Drain: true},
			Op{Kind: "nearest", Vec: vv(-1, -1), N: 3, Drain: true}, Op{Kind: "nearestVec", Vec: vX}, Op{Kind: "nearestVec", Vec: vN},
			Op{Kind: "split", Min: 3, Max: 5}, Op{Kind: "split", Min: 50, Max: 60}, Op{Kind: "split", Pred: "x>0"}, Op{Kind: "split", Min: 1, Max: 3},
			Op{Kind: "merge", Min: 0, Max: 3}, Op{Kind: "merge", Min: 50, Max: 60}, Op{Kind: "merge", Min: 3, Max: 100}, Op{Kind: "merge", Pred: "x>0"}, Op{Kind: "merge", Min: 0, Max: 2}, Op{Kind: "merge", Min: 2, Max: 4})
	}
	return ops
}

func (m *M) applyStart(st *start) {
	if st.drain {
		m.be.drainU(1000)
	}
	if st.tick {
		time.Sleep(tick)
	}
	if st.blink {
		time.Sleep(blink)
	}
}

func withBlink(st *start, ops []Op) []Op {
	if st.blink {
		return append([]Op{{Kind: "blink"}, {Kind: "add", Vec: vN, Exp: xSub}}, ops...)
	}
	return ops
}

func newM(ms *measure, thr int) *M {
	return &M{ms: ms, thr: thr, reg: map[string]*DPS{}, nsOf: map[string]string{}, x: map[string]interface{}{}}
}

// coreOps is the alphabet of longer histories.
func coreOps(groups bool) []Op {
	ops := []Op{
		{Kind: "add", Vec: vX}, {Kind: "add", Vec: vN, Exp: xShort}, {Kind: "drainU", N: 2}, {Kind: "drainO", N: 1},
		{Kind: "knn", Vec: vXY, N: 2, Drain: true}, {Kind: "memtrim"}, {Kind: "tick"}, {Kind: "distInt", N: 2}, {Kind: "distExt", N: 2, Recv: 1},
	}
	if groups {
		ops = append(ops, Op{Kind: "nearest", Vec: vY, N: 1, Drain: true}, Op{Kind: "split", Min: 2, Max: 100}, Op{Kind: "merge", Min: -1, Max: 3}, Op{Kind: "knn", Vec: vN, N: 3})
	}
	return ops
}

// anyMapOrder leaves out the operations whose outcome depends on the
// iteration order of a map, which only the instrumented build controls.
func anyMapOrder(ops []Op, base int) (r []Op, n int) {
	for i := range ops {
		if k := ops[i].Kind; k == "drainU" || k == "drainO" || k == "distInt" {
			if ops[i].N > 0 {
				continue
			}
		}
		if ops[i].Kind == "distExt" && ops[i].N > 0 {
			continue
		}
		r = append(r, ops[i])
		if i < base {
			n++
		}
	}
	return r, n
}

// storeUnits are the searches over node-local histories.
func storeUnits(j judge, single, bad bool, depth func(st string) int, probe func(m *M, s *Step) (string, string)) []Unit {
	var us []Unit
	extra := func(ops []Op, groups bool) ([]Op, int) {
		n := len(ops)
		if bad {
			return ops, n
		}
		return append(ops, extraLast(groups)...), n
	}
	add := func(name string, s *Search, base int) {
		us = append(us, Unit{Name: name, Run: func(u *U) {
			u.Search(s)
		}})
	}
	lastOnly := func(ops []Op, n int) []Op { return ops[:n] }
	_ = lastOnly
	if single {
		for i := range centroidStarts {
			st := &centroidStarts[i]
			for _, ms := range []*measure{cosM, eucM} {
				ms := ms
				ops, n := extra(withBlink(st, storeOps(bad, false, false)), false)
				s := &Search{Ops: ops, Base: n, Depth: depth(st.name), Judge: j, Probe: probe, Init: func() *M {
					m := newM(ms, 0)
					g := &st.groups[0]
					v := g.vec
					if v == nil {
						v = g.dps[0].v
					}
					c := newCentroid(ms, v)
					for _, d := range g.dps {
						c.AddDataPoint(m.mkDP(d.v, d.x))
					}
					m.be = &centroidBE{c}
					m.applyStart(st)
					return m
				}}
				add("S1/group/"+ms.name+"/"+st.name, s, n)
				c := *s
				c.Depth, c.Digest = s.Depth-1, true
				us = append(us, Unit{Name: "conform/group/" + ms.name + "/" + st.name, Run: func(u *U) { u.Search(&c) }})
			}
		}
	}
	for i := range managerStarts {
		st := &managerStarts[i]
		for _, ms := range []*measure{cosM, eucM} {
			for _, thr := range []int{0, 4} {
				ms, thr := ms, thr
				if ms == eucM && thr == 0 && !thorough {
					continue
				}
				ops, n := extra(withBlink(st, storeOps(bad, thorough, true)), true)
				d := depth(st.name)
				s := &Search{Ops: ops, Base: n, Depth: d, Judge: j, Probe: probe, MapRev: (i+thr/4)%2 == 1, Init: func() *M {
					m := newM(ms, thr)
					m.be = &managerBE{m.buildManager(st.groups)}
					m.applyStart(st)
					return m
				}}
				add(fmt.Sprintf("S2/store/%s/limit%d/%s", ms.name, thr, st.name), s, n)
				c := *s
				c.Depth, c.Digest = s.Depth-1, true
				c.Ops, c.Base = anyMapOrder(s.Ops, n)
				us = append(us, Unit{Name: fmt.Sprintf("conform/store/%s/limit%d/%s", ms.name, thr, st.name), Run: func(u *U) { u.Search(&c) }})
			}
		}
	}
	// Longer histories over a smaller alphabet.
	if !bad {
		for i := range managerStarts {
			st := &managerStarts[i]
			d := map[string]int{"new": 8, "one3": 7}[st.name]
			if d == 0 {
				d = 6
			}
			if thorough {
				d += 2
			}
			if st.name != "new" && st.name != "two32" && st.name != "expiring" && st.name != "one3" {
				continue
			}
			for k, ms := range []*measure{cosM, eucM} {
				ms, thr := ms, 4*k
				if st.name == "new" || st.name == "expiring" {
					thr = 4 - thr
				}
				ops := coreOps(true)
				s := &Search{Ops: ops, Base: len(ops), Depth: d, Judge: j, Probe: probe, MapRev: (i+k)%2 == 1, Init: func() *M {
					m := newM(ms, thr)
					m.be = &managerBE{m.buildManager(st.groups)}
					m.applyStart(st)
					return m
				}}
				add(fmt.Sprintf("S2/long/%s/limit%d/%s", ms.name, thr, st.name), s, len(ops))
			}
		}
	}
	return withNative(us, func(n string) bool { return strings.HasPrefix(n, "conform/") })
}

func stdDepth(string) int {
	if thorough {
		return 4
	}
	return 3
}

func init() {
	store := func(id string, j judge, single, bad bool) {
		checks[id] = func() Check {
			d := stdDepth
			var probe func(m *M, s *Step) (string, string)
			if id == "C05" {
				probe = probeOut
			}
			us := storeUnits(j, single, bad, d, probe)
			if !bad {
				us = append(us, sizeUnits(j, single)...)
			}
			if id == "C05" {
				us = append(us, twinUnits()...)
			}
			if id == "C11" {
				us = append(us, netErrorUnits(id)...)
			}
			if id == "C03" || id == "C04" {
				us = append(us, multiUnits(id, func(r *R, w *world) { w.summaries(r, id) })...)
			}
			return Check{Units: us, Notes: []string{
				"vectors, sizes and counts come from small alphabets (see DESIGN.md); depth bounds per unit",
			}}
		}
	}
	store("C03", judgeC03, true, false)
	store("C04", judgeC04, false, false)
	store("C05", judgeC05, true, false)
	store("C06", judgeC06, true, false)
	store("C07", judgeC07, true, false)
	store("C08", judgeC08, true, false)
	store("C09", judgeC09, false, false)
	store("C10", judgeC10, true, false)
	store("C11", judgeC11, true, true)
}
