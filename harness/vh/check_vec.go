package vh

import (
	"fmt"
	"math"
	"runtime/debug"
	"strings"
	"sync/atomic"

	"vharness/vrt"

	"trypo/pkg/mathutils"
	"trypo/pkg/searchutils"
)

const enumBlock = 512

// Enum checks every case 0..n-1.
func (u *U) Enum(n int, f func(i int) (key, msg string)) {
	atomic.StoreInt32(&busy, 1)
	defer atomic.StoreInt32(&busy, 0)
	one := func(i int) (key, msg string) {
		defer func() {
			if r := recover(); r != nil {
				key, msg = "crash", fmt.Sprintf("panic: %v\n%s", r, clipStack())
			}
		}()
		return f(i)
	}
	for _, f := range vrt.ResetHooks {
		f()
	}
	if u.replay != nil {
		c := u.replay.Choices
		if len(c) == 0 {
			return
		}
		cnt := 1
		if len(c) > 1 {
			cnt = c[1]
		}
		for i := c[0]; i < c[0]+cnt && i < n; i++ {
			noteProgress([]int{i, 1})
			if k, m := one(i); k != "" && k == u.replay.Key {
				u.replayed = true
				u.Violations = append(u.Violations, Violation{Key: k, Msg: m, Choices: c})
				return
			}
		}
		// The case may need those before it (state kept between calls).
		for _, f := range vrt.ResetHooks {
			f()
		}
		for i := 0; i < c[0]+cnt && i < n; i++ {
			noteProgress([]int{i, 1})
			if k, m := one(i); k == u.replay.Key {
				u.replayed = true
				u.Violations = append(u.Violations, Violation{Key: k, Msg: m + " (after the cases before it)", Choices: c})
				return
			}
		}
		return
	}
	u.Exhaustive = true
	for i := 0; i < n; i++ {
		if i%enumBlock == 0 {
			noteProgress([]int{i, enumBlock})
			if outOfTime() {
				u.Exhaustive = false
				u.Note = "time budget"
				return
			}
		}
		u.Execs++
		u.Trans++
		u.States++
		if k, m := one(i); k != "" {
			u.Fail(k, m, []int{i, 1}, nil)
			if u.Failed() {
				u.Exhaustive = false
				return
			}
		}
	}
}

func clipStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return strings.Join(out, "\n")
}

// digits writes i in base b with n digits.
func digits(i, b, n int) []int {
	d := make([]int, n)
	for j := range d {
		d[j] = i % b
		i /= b
	}
	return d
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

// ---- C01

type searchFn struct {
	name string
	ms   *measure
	far  bool
	f    func(t []float64, g func() ([]float64, bool), k int) []int
}

var searchFns = []searchFn{
	{"KNNCos", cosM, false, searchutils.KNNCos},
	{"KFNCos", cosM, true, searchutils.KFNCos},
	{"KNNEuc", eucM, false, searchutils.KNNEuc},
	{"KFNEuc", eucM, true, searchutils.KFNEuc},
}

func genOf(vs [][]float64) func() ([]float64, bool) {
	i := 0
	return func() ([]float64, bool) {
		if i >= len(vs) {
			return nil, false
		}
		i++
		return vs[i-1], true
	}
}

func relEps(a, b float64) float64 {
	return 1e-9 * math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

var laterQ, laterVs = vv(1, 2), [][]float64{vv(2, 1), vv(1, 1), vv(-1, 3)}

// checkSearch judges one search.
func checkSearch(fn *searchFn, q []float64, vs [][]float64, k int) (string, string) {
	orig := make([][]float64, len(vs))
	for i := range vs {
		orig[i] = append([]float64{}, vs[i]...)
	}
	q0 := append([]float64{}, q...)
	raw := fn.f(q, genOf(vs), k)
	idx := append([]int{}, raw...)
	mixInt(uint64(len(idx)))
	for _, i := range idx {
		mixInt(uint64(i))
	}
	desc := func() string {
		s := fmt.Sprintf("%s(target %s, [", fn.name, fv(q))
		for _, v := range vs {
			s += fv(v)
		}
		return s + fmt.Sprintf("], %d) = %v", k, idx)
	}
	// An answer is the caller's: a later search does not touch it, nor does
	// what the caller does to it or to its vectors affect a later search.
	late := fn.f(laterQ, genOf(laterVs), 3)
	for i := range raw {
		if raw[i] != idx[i] {
			return bad("shared", "%s became %v when another search was made", desc(), raw)
		}
		raw[i] = -7
	}
	raw = append(raw, -7, -7)
	if len(late) != 3 || late[0]+late[1]+late[2] != 3 || late[0] == late[1] || late[1] == late[2] || late[0] == late[2] {
		return bad("shared", "a search for all of 3 candidates right after %s answers %v", desc(), late)
	}
	if len(vs) <= 3 && len(q) > 0 {
		buf := append([]float64{}, q...)
		bufs := make([][]float64, len(vs))
		for i := range vs {
			bufs[i] = append([]float64{}, vs[i]...)
			for j := range bufs[i] {
				bufs[i][j] = 3 - float64(i+j)*bufs[i][j]
			}
		}
		for i := range buf {
			buf[i] = 5*float64(i) - 2
		}
		fn.f(buf, genOf(bufs), k)
		copy(buf, q)
		for i := range vs {
			copy(bufs[i], vs[i])
		}
		again := fn.f(buf, genOf(bufs), k)
		same := len(again) == len(idx)
		for i := range again {
			if same && again[i] != idx[i] { // ties are free
				x, y := again[i], idx[i]
				same = x >= 0 && x < len(vs) && y >= 0 && y < len(vs) && len(vs[x]) == len(q) && len(vs[y]) == len(q) && math.Abs(fn.ms.score(q, vs[x])-fn.ms.score(q, vs[y])) <= relEps(fn.ms.score(q, vs[x]), fn.ms.score(q, vs[y]))
			}
		}
		if !same {
			return bad("stale", "%s; with slices that held other values before it is %v", desc(), again)
		}
	}
	for i := range vs {
		if !eqVec(orig[i], vs[i]) {
			return bad("modified", "%s modified a candidate", desc())
		}
	}
	if !eqVec(q, q0) {
		return bad("modified", "%s modified the target", desc())
	}
	score := func(i int) float64 { // larger is better
		s := fn.ms.score(q, vs[i])
		if fn.far {
			s = -s
		}
		return s
	}
	comp := 0
	for _, v := range vs {
		if len(v) == len(q) {
			comp++
		}
	}
	want := k
	if comp < want {
		want = comp
	}
	if want < 0 {
		want = 0
	}
	if len(idx) != want {
		return bad("count", "%s: %d results, %d candidates are comparable", desc(), len(idx), comp)
	}
	seen := map[int]bool{}
	worst := math.Inf(1)
	for j, i := range idx {
		if i < 0 || i >= len(vs) {
			return bad("position", "%s: position %d does not exist", desc(), i)
		}
		if seen[i] {
			return bad("twice", "%s: position %d is returned twice", desc(), i)
		}
		seen[i] = true
		if len(vs[i]) != len(q) {
			return bad("incomparable", "%s: position %d has another dimension", desc(), i)
		}
		s := score(i)
		if j > 0 && s > worst+relEps(s, worst) {
			return bad("order", "%s: position %d is better than the one before it", desc(), i)
		}
		if s < worst {
			worst = s
		}
	}
	if len(idx) > 0 {
		for i := range vs {
			if len(vs[i]) == len(q) && !seen[i] {
				if s := score(i); s > worst+relEps(s, worst) {
					return bad("missed", "%s: position %d is better than a returned one", desc(), i)
				}
			}
		}
	}
	return "", ""
}

func c01Units() []Unit {
	var us []Unit
	// All score orders: targets and candidate pools with many distinct scores
	// for both measures, plus candidates of other dimensions.
	pools := []struct {
		name string
		q    []float64
		pool [][]float64
	}{
		{"2d", vv(2, 1), [][]float64{vv(2, 1), vv(1, 1), vv(3, -1), vv(-1, 2), vv(-2, -1.5), vv(0, 0), vv(1)}},
		{"2d-zero-target", vv(0, 0), [][]float64{vv(0, 0), vv(1, 1), vv(3, -1), vv(-1, 2), vv(2, 0), vv(5, 5), vv(1, 1, 1)}},
		{"3d", vv(1, 0, -2), [][]float64{vv(1, 0, -2), vv(2, 0, -4), vv(0, 1, 0), vv(-1, 0, 2), vv(1, 1, 1), {}, vv(1, 0)}},
		{"1d", vv(-1), [][]float64{vv(-1), vv(-2), vv(1), vv(0), vv(4), vv(-1, 0), nil}},
		{"0d", vv(), [][]float64{vv(), nil, vv(1), vv(0, 0)}},
		{"close", vv(1, 1), [][]float64{vv(1, 1.0001), vv(1, 1.0002), vv(1.0003, 1), vv(1, 1), vv(100, 100), vv(1e-3, 1e-3), vv(0)}},
		{"closer", vv(1, 0), [][]float64{vv(1, 1), vv(1, 1+4e-8), vv(1, 1+8e-8), vv(1, 1-4e-8), vv(1, 1-8e-8), vv(1, 1+1.2e-7), vv(0)}},
	}
	maxLen := 5
	if thorough {
		maxLen = 7
	}
	for _, p := range pools {
		for fi := range searchFns {
			p, fn := p, &searchFns[fi]
			for n := 0; n <= maxLen; n++ {
				n := n
				ks := []int{0, 1, 2, 3, n, n + 1, 1000}
				us = append(us, Unit{Name: fmt.Sprintf("orders/%s/%s/len%d", p.name, fn.name, n), Run: func(u *U) {
					b := len(p.pool)
					u.Enum(pow(b, n)*len(ks), func(i int) (string, string) {
						k := ks[i%len(ks)]
						var vs [][]float64
						for _, d := range digits(i/len(ks), b, n) {
							vs = append(vs, p.pool[d])
						}
						return checkSearch(fn, p.q, vs, k)
					})
				}})
			}
		}
	}
	// All targets and candidates of a grid.
	var grid [][]float64
	vals := []float64{-2, -1, 0, 1, 3}
	for _, a := range vals {
		for _, b := range vals {
			grid = append(grid, vv(a, b))
		}
	}
	grid = append(grid, vv(1), vv(1, 2, 3), nil)
	ln := 2
	if thorough {
		ln = 3
	}
	for fi := range searchFns {
		fn := &searchFns[fi]
		us = append(us, Unit{Name: "grid/" + fn.name, Run: func(u *U) {
			b := len(grid)
			u.Enum(pow(b, ln+1)*ln, func(i int) (string, string) {
				k := 1 + i%ln
				d := digits(i/ln, b, ln+1)
				var vs [][]float64
				for _, x := range d[1:] {
					vs = append(vs, grid[x])
				}
				return checkSearch(fn, grid[d[0]], vs, k)
			})
		}})
	}
	// Long sequences: the best, worst or a foreign candidate at any place.
	us = append(us, Unit{Name: "long", Run: func(u *U) {
		const n = 40
		fillers := [][]float64{vv(1, 1), vv(2, 3), vv(1, 0.4), vv(-1, 3), vv(0, 2)}
		specials := [][]float64{vv(2, 1), vv(-200, -100), vv(4, 2.1), vv(1)}
		ks := []int{1, 2, 7, 39, 40, 41}
		u.Enum(n*n*len(specials)*len(ks)*len(searchFns), func(i int) (string, string) {
			fn := &searchFns[i%len(searchFns)]
			i /= len(searchFns)
			k := ks[i%len(ks)]
			i /= len(ks)
			sp := specials[i%len(specials)]
			i /= len(specials)
			vs := make([][]float64, n)
			for j := range vs {
				vs[j] = fillers[j*j%len(fillers)]
			}
			vs[i%n] = sp
			vs[i/n] = specials[3]
			return checkSearch(fn, vv(2, 1), vs, k)
		})
	}})
	// Longer ones: a slope with one candidate out of place, every count around
	// the length and around powers of two.
	lens := []int{63, 64, 65, 130, 257}
	if thorough {
		lens = append(lens, 100, 129, 300, 513, 1025, 2049)
	}
	for _, n := range lens {
		n := n
		us = append(us, Unit{Name: fmt.Sprintf("longer/%d", n), Run: func(u *U) {
			ks := dedup(1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, n-1, n, n+1, 1<<40)
			at := dedup(0, 1, 7, 8, 15, 16, 31, 32, 33, 63, n/2, n-2, n-1)
			u.Enum(len(ks)*len(at)*4*len(searchFns), func(i int) (string, string) {
				fn := &searchFns[i%len(searchFns)]
				i /= len(searchFns)
				k := ks[i%len(ks)]
				i /= len(ks)
				form := i % 4
				i /= 4
				vs := make([][]float64, n)
				for j := range vs {
					x := j
					switch form {
					case 1:
						x = n - j // improving
					case 2:
						x = (j * 37) % n
					}
					vs[j] = vv(1, float64(x)/float64(n))
				}
				sp := vv(1, -0.25/float64(n))
				if form == 3 {
					sp = vv(-5, -7)
				}
				vs[at[i]%n] = sp
				return checkSearch(fn, vv(1, 0), vs, k)
			})
		}})
	}
	return us
}

// ---- C02

func relClose(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func absClose(a, b float64) bool { return math.Abs(a-b) <= 1e-9 }

func refEuc(a, b []float64) float64 {
	r := 0.0
	for i := range a {
		r = math.Hypot(r, a[i]-b[i])
	}
	return r
}

func refCos(a, b []float64) float64 {
	// Scaled by the largest component, so nothing overflows.
	mx := func(v []float64) float64 {
		m := 0.0
		for _, x := range v {
			m = math.Max(m, math.Abs(x))
		}
		return m
	}
	ma, mb := mx(a), mx(b)
	if ma == 0 || mb == 0 {
		return 0
	}
	var d, na, nb float64
	for i := range a {
		x, y := a[i]/ma, b[i]/mb
		d += x * y
		na += x * x
		nb += y * y
	}
	return d / math.Sqrt(na*nb)
}

func c02Pair(a, b []float64) (string, string) {
	a0, b0 := append([]float64{}, a...), append([]float64{}, b...)
	e, err := mathutils.EuclideanDistance(a, b)
	c, cerr := mathutils.CosineSimilarity(a, b)
	mixVec([]float64{e, c})
	if !eqVec(a, a0) || !eqVec(b, b0) {
		return bad("modified", "a measure modified its inputs %s %s", fv(a0), fv(b0))
	}
	if len(a) != len(b) {
		if err == nil || cerr == nil {
			return bad("mismatch-accepted", "comparing %s with %s reports no error", fv(a), fv(b))
		}
	} else {
		if err != nil || cerr != nil {
			return bad("refused", "comparing %s with %s reports an error: %v %v", fv(a), fv(b), err, cerr)
		}
		if want := refEuc(a, b); !relClose(e, want) {
			return bad("euclid", "distance of %s and %s is %v, not %v", fv(a), fv(b), e, want)
		}
		if want := refCos(a, b); !absClose(c, want) {
			return bad("cosine", "similarity of %s and %s is %v, not %v", fv(a), fv(b), c, want)
		}
		if c2, _ := mathutils.CosineSimilarity(b, a); !absClose(c, c2) {
			return bad("cosine-order", "similarity of %s and %s is %v, the other way round %v", fv(a), fv(b), c, c2)
		}
		// The same slices held other values before.
		x, y := append([]float64{}, a...), append([]float64{}, b...)
		for i := range x {
			x[i], y[i] = 2-float64(i)*b[i], a[i]+float64(i)+1
		}
		mathutils.CosineSimilarity(x, y)
		mathutils.EuclideanDistance(x, y)
		copy(x, a)
		copy(y, b)
		c3, _ := mathutils.CosineSimilarity(x, y)
		e3, _ := mathutils.EuclideanDistance(x, y)
		if !absClose(c, c3) || !relClose(e, e3) {
			return bad("stale", "distance and similarity of %s and %s are %v and %v, with slices that held other values before %v and %v", fv(a), fv(b), e, c, e3, c3)
		}
		for _, s := range []float64{0.001, 3, 1e6} {
			x := make([]float64, len(a))
			for i := range a {
				x[i] = a[i] * s
			}
			if c2, _ := mathutils.CosineSimilarity(x, b); !absClose(c, c2) {
				return bad("cosine-scale", "similarity of %s and %s is %v, scaled by %v it is %v", fv(a), fv(b), c, s, c2)
			}
		}
	}
	// Arithmetic.
	type op struct {
		name string
		f    func(a, b []float64) ([]float64, bool)
		ref  func(x, y float64) float64
	}
	for _, o := range []op{{"sum", mathutils.VecAdd, func(x, y float64) float64 { return x + y }}, {"difference", mathutils.VecSub, func(x, y float64) float64 { return x - y }}} {
		r, ok := o.f(a, b)
		mixVec(r)
		if ok != (len(a) == len(b)) {
			return bad("mismatch-accepted", "%s of %s and %s reports ok=%v", o.name, fv(a), fv(b), ok)
		}
		if ok {
			if len(r) != len(a) {
				return bad("arith", "%s of %s and %s is %s", o.name, fv(a), fv(b), fv(r))
			}
			for i := range r {
				if r[i] != o.ref(a[i], b[i]) {
					return bad("arith", "%s of %s and %s is %s", o.name, fv(a), fv(b), fv(r))
				}
			}
			r0 := append([]float64{}, r...)
			if r2, ok := o.f(b0, b0); ok {
				for i := range r2 {
					r2[i] = 54321
				}
			}
			if !eqVec(r, r0) {
				return bad("shared", "the %s of %s and %s changes when another one is computed", o.name, fv(a), fv(b))
			}
			for i := range r {
				r[i] = 12345
			}
		}
		if !eqVec(a, a0) || !eqVec(b, b0) {
			return bad("modified", "the %s of %s and %s modifies or aliases them", o.name, fv(a0), fv(b0))
		}
	}
	same := len(a) == len(b)
	for i := range a {
		same = same && a[i] == b[i]
	}
	if mathutils.VecEq(a, b) != same {
		return bad("equal", "comparison of %s and %s is %v", fv(a), fv(b), !same)
	}
	if mathutils.VecIn(a, [][]float64{{9, 9, 9, 9}, b, {8}}) != same || mathutils.VecIn(a, nil) {
		return bad("member", "membership of %s in a list with %s is wrong", fv(a), fv(b))
	}
	for _, s := range []float64{-2, 0, 0.3, 1, 7} {
		m := mathutils.VecMulScalar(a, s)
		d := mathutils.VecDivScalar(a, s)
		if len(m) == len(a) {
			m0 := append([]float64{}, m...)
			if m2 := mathutils.VecMulScalar(b, 9); !eqVec(m, m0) {
				return bad("shared", "%s times %v becomes %s when %s is computed", fv(a), s, fv(m), fv(m2))
			}
		}
		mixVec(m)
		mixVec(d)
		if len(m) != len(a) || len(d) != len(a) {
			return bad("arith", "scaling %s by %v changes its dimension", fv(a), s)
		}
		for i := range a {
			if m[i] != a[i]*s {
				return bad("arith", "%s times %v is %s", fv(a), s, fv(m))
			}
			if s != 0 && math.Abs(d[i]-a[i]/s) > 1e-15*math.Abs(a[i]/s) {
				return bad("arith", "%s by %v is %s", fv(a), s, fv(d))
			}
			m[i], d[i] = 12345, 12345
		}
		if !eqVec(a, a0) {
			return bad("modified", "scaling %s modifies or aliases it", fv(a0))
		}
	}
	v := mathutils.Vec(a...)
	if !eqVec(v, a) {
		return bad("arith", "Vec(%s) is %s", fv(a), fv(v))
	}
	for i := range v {
		v[i] = 12345
	}
	if !eqVec(a, a0) {
		return bad("modified", "Vec(%s) aliases its argument", fv(a0))
	}
	return "", ""
}

func c02Mean(vs [][]float64) (string, string) {
	orig := make([][]float64, len(vs))
	uniform := true
	for i := range vs {
		orig[i] = append([]float64{}, vs[i]...)
		uniform = uniform && len(vs[i]) == len(vs[0])
	}
	r, ok := mathutils.VecMean(genOf(vs))
	mixVec(r)
	if ok != (len(vs) > 0 && uniform) {
		return bad("mean-ok", "mean of %v reports ok=%v", vs, ok)
	}
	if ok {
		want := make([]float64, len(vs[0]))
		for _, v := range vs {
			for i := range v {
				want[i] += v[i]
			}
		}
		if len(r) != len(want) {
			return bad("mean", "mean of %v is %v", vs, r)
		}
		if other, ok := mathutils.VecMean(genOf([][]float64{make([]float64, len(r)), make([]float64, len(r))})); ok {
			for i := range other {
				other[i] = 54321
			}
		}
		for i := range want {
			w := want[i] / float64(len(vs))
			if math.Abs(r[i]-w) > 1e-9*math.Max(1, math.Abs(w)) {
				return bad("mean", "mean of %v is %v", vs, r)
			}
			r[i] = 12345
		}
	}
	for i := range vs {
		if !eqVec(vs[i], orig[i]) {
			return bad("modified", "the mean of %v modifies or aliases its inputs", orig)
		}
	}
	return "", ""
}

func c02Units() []Unit {
	var us []Unit
	vals := []float64{-3, -1, -0.5, 0, 0.5, 1, 2, 7}
	maxDim := 3
	var all [][]float64
	for d := 0; d <= maxDim; d++ {
		b := len(vals)
		if d == 3 && !thorough {
			b = 5
		}
		for i := 0; i < pow(b, d); i++ {
			v := make([]float64, d)
			for j, x := range digits(i, b, d) {
				v[j] = vals[x]
			}
			all = append(all, v)
		}
	}
	n := len(all)
	for part := 0; part < 16; part++ {
		part := part
		us = append(us, Unit{Name: fmt.Sprintf("pairs/%d", part), Run: func(u *U) {
			lo, hi := n*part/16, n*(part+1)/16
			u.Enum((hi-lo)*n, func(i int) (string, string) { return c02Pair(all[lo+i/n], all[i%n]) })
		}})
	}
	us = append(us, Unit{Name: "magnitudes", Run: func(u *U) {
		m := []float64{0, 1, -1, 1e100, -1e100, 1e-100, 3e10, 1e-9}
		var vs [][]float64
		for i := 0; i < pow(len(m), 2); i++ {
			d := digits(i, len(m), 2)
			vs = append(vs, vv(m[d[0]], m[d[1]]))
		}
		u.Enum(len(vs)*len(vs), func(i int) (string, string) { return c02Pair(vs[i/len(vs)], vs[i%len(vs)]) })
	}})
	// Longer vectors: one component stands out, or differs.
	var dims []int
	for d := 4; d <= 40; d++ {
		dims = append(dims, d)
	}
	dims = append(dims, 63, 64, 65, 100, 127, 128, 129, 300)
	if thorough {
		dims = append(dims, 255, 256, 257, 384, 511, 512, 513, 768, 1023, 1024, 1025, 1536)
	}
	for _, d := range dims {
		d := d
		ramp := func(x float64) []float64 {
			v := make([]float64, d)
			for i := range v {
				v[i] = x + float64(i%7)/4 - float64(i%3)
			}
			return v
		}
		us = append(us, Unit{Name: fmt.Sprintf("wide/%d", d), Run: func(u *U) {
			u.Enum(d*5, func(i int) (string, string) {
				a, b := ramp(0.5), ramp(0.5)
				switch i % 5 {
				case 0:
					b[i/5] += 0.125
				case 1:
					b = make([]float64, d)
					b[i/5] = -3
				case 2:
					a, b = make([]float64, d), make([]float64, d)
					a[i/5], b[i/5] = 2, 2
				case 3:
					b = ramp(-0.25)[:d-1-(i/5)%d]
				case 4:
					b = ramp(-0.25)
					a[i/5] = 100
				}
				return c02Pair(a, b)
			})
		}})
		us = append(us, Unit{Name: fmt.Sprintf("wide/mean/%d", d), Run: func(u *U) {
			u.Enum(d*4, func(i int) (string, string) {
				vs := [][]float64{ramp(0), ramp(1), ramp(-2)}
				vs[i%4%3][i/4] = 50
				if i%4 == 3 {
					vs[1] = vs[1][:i/4]
				}
				return c02Mean(vs)
			})
		}})
	}
	// Many vectors: one stands out, or has another dimension.
	many := []int{6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 257}
	if thorough {
		many = append(many, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 1500)
	}
	for _, n := range many {
		n := n
		us = append(us, Unit{Name: fmt.Sprintf("mean/many/%d", n), Run: func(u *U) {
			u.Enum(n*4, func(i int) (string, string) {
				d := []int{1, 2, 5}[i%4%3]
				vs := make([][]float64, n)
				for j := range vs {
					vs[j] = make([]float64, d)
					for k := range vs[j] {
						vs[j][k] = float64((j+k)%5) - 1
					}
				}
				vs[i/4][d-1] = 7000
				if i%4 == 3 {
					vs[i/4] = append(vs[i/4], 1)
				}
				return c02Mean(vs)
			})
		}})
	}
	mp := [][]float64{{}, vv(2), vv(-1, 0.5), vv(3, 1), vv(0, 0), vv(7, -2), vv(1, 2, 3)}
	ml := 5
	if thorough {
		ml = 7
	}
	for l := 0; l <= ml; l++ {
		l := l
		us = append(us, Unit{Name: fmt.Sprintf("mean/len%d", l), Run: func(u *U) {
			u.Enum(pow(len(mp), l), func(i int) (string, string) {
				var vs [][]float64
				for _, x := range digits(i, len(mp), l) {
					vs = append(vs, append([]float64{}, mp[x]...))
				}
				return c02Mean(vs)
			})
		}})
	}
	return us
}

func init() {
	checks["C01"] = func() Check {
		us := withNative(c01Units(), func(n string) bool {
			return strings.HasPrefix(n, "grid") || n == "long" || strings.HasPrefix(n, "orders") && !strings.HasSuffix(n, "len5") && !strings.HasSuffix(n, "len7")
		})
		return Check{Units: us, Notes: []string{"candidate sequences up to length 5 (thorough 7) over pools covering every weak order of six scores, plus mismatched dimensions at every place; every position in sequences of 40"}}
	}
	checks["C02"] = func() Check {
		return Check{Units: withNative(c02Units(), func(string) bool { return true }), Notes: []string{"all pairs of vectors over eight component values up to dimension 3; all sequences for the mean up to length 5 (thorough 7)"}}
	}
}
