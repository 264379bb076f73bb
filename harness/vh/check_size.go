package vh

import "fmt"

// ---- size sweeps: every operation once on stores of many sizes ----

// sizedVec spreads datapoint i of a store of many.
func sizedVec(i int) []float64 {
	a := float64((i*7)%23 - 11)
	b := float64((i*5)%17-8) + 0.25
	return vv(a, b)
}

func sizes() []int {
	var r []int
	lim := 40
	if thorough {
		lim = 140
	}
	for n := 1; n <= lim; n++ {
		r = append(r, n)
	}
	for _, n := range []int{50, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 300, 500, 512, 513, 999, 1000, 1001, 1024, 1025} {
		if n > lim && (thorough || n <= 300 || n == 1001) {
			r = append(r, n)
		}
	}
	return r
}

// sizeOps are the operations tried on a store of n datapoints.
func sizeOps(n int, groups bool) []Op {
	ops := []Op{{Kind: "add", Vec: vX}, {Kind: "add", Vec: vv(-7, 3), Exp: xLong}, {Kind: "expire"}, {Kind: "memtrim"}, {Kind: "move"}, {Kind: "tick"}}
	for _, k := range dedup(1, n/3, n/2, n-1, n, n+1, 2*n) {
		ops = append(ops, Op{Kind: "drainU", N: k}, Op{Kind: "drainO", N: k}, Op{Kind: "distInt", N: k},
			Op{Kind: "distExt", N: k, Recv: 1}, Op{Kind: "knn", Vec: vv(2, 1), N: k}, Op{Kind: "knn", Vec: vN, N: k, Drain: true})
	}
	if groups {
		ops = append(ops, Op{Kind: "split", Min: -1, Max: 1 << 30}, Op{Kind: "split", Min: n / 4, Max: n + 1}, Op{Kind: "merge", Min: -1, Max: 1 << 30}, Op{Kind: "merge", Min: -1, Max: n/3 + 1})
		for _, k := range dedup(1, 2, 5, 30) {
			ops = append(ops, Op{Kind: "nearest", Vec: vv(1, 2), N: k, Drain: true}, Op{Kind: "nearest", Vec: vN, N: k})
		}
	}
	return ops
}

func dedup(xs ...int) []int {
	var r []int
	seen := map[int]bool{}
	for _, x := range xs {
		if x >= 0 && !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

// sizeUnits: one unit per measure and shape; shapes are a single group, groups
// grown by automatic splits, many groups of equal size and one big with many
// small groups.
func sizeUnits(j judge, single bool) []Unit {
	var us []Unit
	type shape struct {
		name  string
		build func(m *M, n int) backend
		grp   bool
	}
	seeded := func(m *M, thr int, groups []gspec) backend {
		m.thr = thr
		return &managerBE{m.buildManager(groups)}
	}
	exp := func(i int) int {
		if i%5 == 3 {
			return xShort
		}
		return xNone
	}
	shapes := []shape{
		{"group", func(m *M, n int) backend {
			c := newCentroid(m.ms, sizedVec(0))
			for i := 0; i < n; i++ {
				c.AddDataPoint(m.mkDP(sizedVec(i), exp(i)))
			}
			return &centroidBE{c}
		}, false},
		{"one", func(m *M, n int) backend {
			var g gspec
			for i := 0; i < n; i++ {
				g.dps = append(g.dps, x(sizedVec(i), exp(i)))
			}
			return seeded(m, 0, []gspec{g})
		}, true},
		{"grown", func(m *M, n int) backend {
			m.thr = 6
			cm := newManager(m.ms, 6, nil)
			for i := 0; i < n; i++ {
				cm.AddDataPoint(m.mkDP(sizedVec(i), exp(i)))
			}
			return &managerBE{cm}
		}, true},
		{"many", func(m *M, n int) backend {
			gs := make([]gspec, n/3+1)
			for i := 0; i < n; i++ {
				g := &gs[i%len(gs)]
				g.dps = append(g.dps, x(sizedVec(i), exp(i)))
			}
			return seeded(m, 0, gs)
		}, true},
		{"singles", func(m *M, n int) backend {
			gs := make([]gspec, n)
			for i := range gs {
				gs[i].dps = []dspec{x(sizedVec(i), exp(i))}
			}
			return seeded(m, 0, gs)
		}, true},
		{"hollow", func(m *M, n int) backend {
			gs := make([]gspec, n)
			for i := range gs {
				gs[i].vec = sizedVec(i)
				if i%17 == 16 || i == n-1 {
					gs[i].dps = []dspec{x(sizedVec(i), exp(i)), x(sizedVec(i+1), exp(i))}
				}
			}
			return seeded(m, 0, gs)
		}, true},
		{"uneven", func(m *M, n int) backend {
			gs := make([]gspec, 5)
			for i := 0; i < n; i++ {
				k := 0
				if i >= n/2 {
					k = 1 + i%4
				}
				gs[k].dps = append(gs[k].dps, x(sizedVec(i), exp(i)))
			}
			for k := range gs {
				if gs[k].dps == nil {
					gs[k].vec = sizedVec(k)
				}
			}
			return seeded(m, 4*n, gs)
		}, true},
	}
	for _, ms := range []*measure{cosM, eucM} {
		for si, sh := range shapes {
			if !sh.grp && !single {
				continue
			}
			ms, sh, si := ms, sh, si
			us = append(us, Unit{Name: fmt.Sprintf("S6/sizes/%s/%s", ms.name, sh.name), Run: func(u *U) {
				var ss []*Search
				for _, n := range sizes() {
					n := n
					// The growth by automatic splits is quadratic in the number of groups.
					if n > 300 && sh.name == "many" && !thorough {
						continue
					}
					if (sh.name == "singles" || sh.name == "hollow") && (n > 300 || !thorough && n > 12 && n%32 > 2) {
						continue
					}
					for _, late := range []bool{false, true} {
						late := late
						if late && n > 70 {
							continue
						}
						st := &start{tick: late}
						ss = append(ss, &Search{Ops: sizeOps(n, sh.grp), Depth: 1, Judge: j, MapRev: (si+n)%2 == 1, Init: func() *M {
							m := newM(ms, 0)
							m.be = sh.build(m, n)
							m.applyStart(st)
							return m
						}})
					}
				}
				u.Searches(ss)
			}})
		}
	}
	return us
}

// ---- twins: datapoints that look alike are still separate datapoints ----

// judgeTwins: how many are stored follows from what was accepted and handed out.
func judgeTwins(m *M, s *Step) (string, string) {
	want := s.Pre.total()
	if s.Op.Kind == "add" && s.OK {
		want++
	}
	want -= len(s.taken())
	if got := s.Post.total(); got != want {
		return bad("twin-count", "%d datapoints with equal payload are stored, %d are expected", got, want)
	}
	return "", ""
}

func twinUnits() []Unit {
	var us []Unit
	ops := []Op{{Kind: "add", Vec: vX}, {Kind: "add", Vec: vN},
		{Kind: "drainU", N: 1}, {Kind: "drainU", N: 3}, {Kind: "drainO", N: 1}, {Kind: "drainO", N: 2},
		{Kind: "knn", Vec: vB, N: 2}, {Kind: "knn", Vec: vXY, N: 1, Drain: true}, {Kind: "knn", Vec: vY, N: 3, Drain: true},
		{Kind: "expire"}, {Kind: "memtrim"}, {Kind: "move"}, {Kind: "distInt", N: 1}, {Kind: "distInt", N: 3},
		{Kind: "distExt", N: 2, Recv: 0}, {Kind: "distExt", N: 3, Recv: 1},
		{Kind: "nearest", Vec: vXY, N: 1, Drain: true}, {Kind: "split", Min: -1, Max: 100}, {Kind: "merge", Min: -1, Max: 100}, {Kind: "merge", Min: -1, Max: 2}}
	for _, st := range []start{
		{name: "new"},
		{name: "same", groups: []gspec{{dps: ds(vX, vX, vX)}}},
		{name: "mixed", groups: []gspec{{dps: ds(vX, vX, vB)}, {dps: ds(vN, vX)}, {dps: ds(vN, vN, vN, vN)}}},
	} {
		st := st
		for _, ms := range []*measure{cosM, eucM} {
			ms := ms
			d := 3
			if thorough {
				d = 4
			}
			us = append(us, Unit{Name: "S6/twins/" + ms.name + "/" + st.name, Run: func(u *U) {
				u.Search(&Search{Ops: ops, Depth: d, Judge: judgeTwins, Init: func() *M {
					m := newM(ms, 4)
					m.twins = true
					m.be = &managerBE{m.buildManager(st.groups)}
					return m
				}})
			}})
		}
	}
	return us
}

// ---- what was handed out is the receiver's alone ----

// probeOut: later operations do not change what was handed out, and the
// receiver's use of it does not change the store.
func probeOut(m *M, s *Step) (string, string) {
	if len(s.raw) == 0 && len(s.rawG) == 0 {
		return "", ""
	}
	long := s.raw
	for i := 0; i < 3; i++ {
		long = append(long, DP{Vec: []float64{9, 9}, Payload: []byte("foreign")})
	}
	for _, c := range s.rawG {
		c.DataPoints = append(c.DataPoints, DP{Vec: []float64{9, 9}, Payload: []byte("foreign")})
	}
	if p := m.snap(); p.contentKey() != s.Post.contentKey() {
		return bad("out-shared", "extending the answered list changed the store from %s to %s", s.Post.String(), p.String())
	}
	dim := vX
	if len(s.raw) > 0 {
		dim = s.raw[0].Vec
	}
	for i := 0; i < 3; i++ {
		m.be.add(m.mkDP(cpv(dim), xNone))
	}
	m.be.memtrim()
	m.be.drainO(1)
	for i := range s.Out {
		if d := snapDP(&s.raw[i]); d.ID != s.Out[i].ID || !eqDP(&d, &s.Out[i]) {
			return bad("out-shared", "later operations replaced answered datapoint %s by %s", s.Out[i].ID, d.ID)
		}
	}
	for k, c := range s.rawG {
		g := snapGroup(c)
		for i := range s.OutG[k].DPs {
			if i >= len(g.DPs) || g.DPs[i].ID != s.OutG[k].DPs[i].ID {
				return bad("out-shared", "later operations changed the members of an answered group")
			}
		}
	}
	return "", ""
}
