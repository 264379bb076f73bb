package vh

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"trypo/pkg/kmeans/common"
	kmrpc "trypo/pkg/kmeans/rpc"
)

// node is a running storage node.
type node struct {
	addr string
	srv  *kmrpc.KMeansServer
	stop func()
}

func startNode(addr string, ms *measure, thr int) *node {
	n := &node{addr: addr}
	n.srv = kmrpc.NewKMeansServer(addr, func(v []float64) *Manager { return newManager(ms, thr, v) })
	stop, err := kmrpc.StartListen(n.srv)
	if err != nil {
		panic("harness: StartListen: " + err.Error())
	}
	n.stop = stop
	return n
}

// seed gives the node a namespace holding the given groups.
func (n *node) seed(m *M, ns string, groups []gspec) {
	v := vX
	for _, g := range groups {
		if g.vec != nil {
			v = g.vec
		} else {
			v = g.dps[0].v
		}
		break
	}
	var ok bool
	n.srv.AddDataPoint(kmrpc.AddDataPointArgs{NameSpace: ns, DP: DP{Vec: cpv(v), Payload: []byte("seed")}}, &ok)
	if !n.srv.Table.Access(ns, func(cm *Manager) {
		cm.Centroids = nil
		k := len(m.order)
		m.fill(cm, groups)
		for _, id := range m.order[k:] {
			m.nsOf[id] = ns
		}
	}) {
		panic("harness: seeding failed")
	}
}

func (n *node) snap(ns string) Snap {
	s := Snap{Now: time.Now()}
	n.srv.Table.Access(ns, func(cm *Manager) { s = snapManager(cm) })
	return s
}

func (n *node) names() []string {
	r := n.srv.Table.Namespaces()
	sort.Strings(r)
	return r
}

func (n *node) snaps() map[string]Snap {
	r := map[string]Snap{}
	for _, ns := range n.names() {
		r[ns] = n.snap(ns)
	}
	return r
}

func snapsKey(s map[string]Snap) string {
	var k []string
	for n := range s {
		k = append(k, n)
	}
	sort.Strings(k)
	var b strings.Builder
	for _, n := range k {
		x := s[n]
		fmt.Fprintf(&b, "%q=%s; ", n, x.fullKey())
	}
	return b.String()
}

// pairBE performs every operation through the client on a real node and on a
// local CentroidManager per namespace, and notes the first difference.
type pairBE struct {
	n    *node
	ms   *measure
	thr  int
	twin map[string]*Manager
	ns   string
	addr string
	e    error
	diff string
	// loose compares lists of datapoints without their order.
	loose bool
}

const downAddr = "127.0.0.1:7999"

func (b *pairBE) target(ns string, down bool) {
	b.ns, b.addr, b.diff = ns, b.n.addr, ""
	if down {
		b.addr = downAddr
	}
}

type rclient interface {
	Namespaces() []string
	Vec() []float64
	AddDataPoint(dp DP) bool
	DrainUnordered(n int) []DP
	DrainOrdered(n int) []DP
	Expire()
	LenDP() int
	MemTrim()
	MoveVector() bool
	DistributeDataPointsFast(addrs []string, n int)
	DistributeDataPointsAccurate(addrs []string, n int)
	DistributeDataPointsInternal(n int)
	KNNLookup(vec []float64, k int, drain bool) []DP
	NearestCentroids(vec []float64, n int, drain bool) ([]*Centroid, bool)
	NearestCentroidVec(vec []float64) []float64
	SplitCentroids(dpRangeMin, dpRangeMax int)
	MergeCentroids(dpRangeMin, dpRangeMax int)
	StealCentroids(fromAddr string, transferLimit int) (int, bool)
	Meta() kmrpc.MetaResp
}

func client(addr, ns string, err *error) rclient { return kmrpc.KMeansClient(addr, ns, err) }

var errEarlier = errors.New("error of an earlier call")

// c is a client whose error value still holds an earlier error: a call that
// works has to clear it.
func (b *pairBE) c() rclient {
	b.e = errEarlier
	return client(b.addr, b.ns, &b.e)
}

// tw is the twin of the addressed namespace, nil if the call must fail.
func (b *pairBE) tw() *Manager {
	if b.addr == downAddr {
		return nil
	}
	return b.twin[b.ns]
}

func (b *pairBE) note(f string, a ...interface{}) {
	if b.diff == "" {
		b.diff = fmt.Sprintf(f, a...)
	}
}

// errs checks the error value: want says whether the call had to fail.
func (b *pairBE) errs(want bool) {
	if want && (b.e == nil || b.e == errEarlier) {
		b.note("no error reported for a call that cannot work")
	}
	if !want && b.e != nil {
		b.note("error reported for a call that works: %v", b.e)
	}
}

func (b *pairBE) cmpDPs(r, l []DP) {
	if len(r) != len(l) {
		b.note("remote answered %v, local %v", ids(snapDPs(r)), ids(snapDPs(l)))
		return
	}
	if b.loose {
		r, l = append([]DP{}, r...), append([]DP{}, l...)
		for _, x := range [][]DP{r, l} {
			sort.Slice(x, func(i, j int) bool { return string(x[i].Payload) < string(x[j].Payload) })
		}
	}
	for i := range r {
		x, y := snapDP(&r[i]), snapDP(&l[i])
		if !eqDP(&x, &y) {
			b.note("remote answered %v, local %v", ids(snapDPs(r)), ids(snapDPs(l)))
			return
		}
	}
}

func (b *pairBE) add(dp DP) bool {
	r := b.c().AddDataPoint(dp)
	if b.addr == downAddr {
		b.errs(true)
		if r {
			b.note("put on an unreachable node reported success")
		}
		return r
	}
	b.errs(false)
	d := DP{Vec: cpv(dp.Vec), Payload: dp.Payload, Expires: dp.Expires, ExpireEnabled: dp.ExpireEnabled}
	l := false
	if t := b.twin[b.ns]; t != nil {
		l = t.AddDataPoint(d)
	} else {
		t = newManager(b.ms, b.thr, d.Vec)
		if l = t.AddDataPoint(d); l {
			b.twin[b.ns] = t
		}
	}
	if l != r {
		b.note("remote put answered %v, local %v", r, l)
	}
	return r
}
func (b *pairBE) drain(r []DP, f func(t *Manager) []DP) []DP {
	t := b.tw()
	b.errs(t == nil)
	var l []DP
	if t != nil {
		l = f(t)
	}
	b.cmpDPs(r, l)
	return r
}
func (b *pairBE) drainU(n int) []DP {
	return b.drain(b.c().DrainUnordered(n), func(t *Manager) []DP { return t.DrainUnordered(n) })
}
func (b *pairBE) drainO(n int) []DP {
	return b.drain(b.c().DrainOrdered(n), func(t *Manager) []DP { return t.DrainOrdered(n) })
}
func (b *pairBE) knn(v []float64, k int, drain bool) []DP {
	return b.drain(b.c().KNNLookup(v, k, drain), func(t *Manager) []DP { return t.KNNLookup(v, k, drain) })
}
func (b *pairBE) nearest(v []float64, n int, drain bool) ([]*Centroid, bool) {
	r, ok := b.c().NearestCentroids(v, n, drain)
	t := b.tw()
	b.errs(t == nil)
	// Groups are compared by their unexpired members.
	type grp struct {
		vec   []float64
		dps   []DP
		exact bool
	}
	live := func(cs []*Centroid) []grp {
		var r []grp
		for _, c := range cs {
			if c == nil {
				continue
			}
			g := grp{vec: c.Vec(), exact: true}
			for i := range c.DataPoints {
				if d := snapDP(&c.DataPoints[i]); d.live(time.Now()) {
					g.dps = append(g.dps, c.DataPoints[i])
				} else {
					g.exact = false
				}
			}
			if len(g.dps) > 0 {
				r = append(r, g)
			}
		}
		return r
	}
	var l []grp
	if t != nil {
		all, _ := t.NearestCentroids(v, n, drain)
		l = live(all)
	}
	rl := live(r)
	if len(rl) != len(l) {
		b.note("remote answered %d non-empty groups, local %d", len(rl), len(l))
		return r, ok
	}
	for i := range rl {
		b.cmpDPs(rl[i].dps, l[i].dps)
		if l[i].exact && !closeVec(rl[i].vec, l[i].vec) {
			b.note("group %d has centre %s remotely and %s locally", i, fv(rl[i].vec), fv(l[i].vec))
		}
	}
	if len(l) > 0 && !ok {
		b.note("groups answered but reported as none")
	}
	return r, ok
}
func (b *pairBE) vecs(r []float64, f func(t *Manager) []float64) []float64 {
	t := b.tw()
	b.errs(t == nil)
	var l []float64
	if t != nil {
		l = f(t)
	}
	if !eqVec(r, l) {
		b.note("remote answered %s, local %s", fv(r), fv(l))
	}
	return r
}
func (b *pairBE) nearestVec(v []float64) []float64 {
	return b.vecs(b.c().NearestCentroidVec(v), func(t *Manager) []float64 { return (&managerBE{t}).nearestVec(v) })
}
func (b *pairBE) vec() []float64 {
	return b.vecs(b.c().Vec(), func(t *Manager) []float64 { return t.Vec() })
}
func (b *pairBE) act(f func(t *Manager)) {
	t := b.tw()
	b.errs(t == nil)
	if t != nil {
		f(t)
	}
}
func (b *pairBE) split(o *Op) {
	b.c().SplitCentroids(o.Min, o.Max)
	b.act(func(t *Manager) { t.SplitCentroids(o.sel) })
}
func (b *pairBE) merge(o *Op) {
	b.c().MergeCentroids(o.Min, o.Max)
	b.act(func(t *Manager) { t.MergeCentroids(o.sel) })
}
func (b *pairBE) expire()  { b.c().Expire(); b.act(func(t *Manager) { t.Expire() }) }
func (b *pairBE) memtrim() { b.c().MemTrim(); b.act(func(t *Manager) { t.MemTrim() }) }
func (b *pairBE) distInt(n int) {
	b.c().DistributeDataPointsInternal(n)
	b.act(func(t *Manager) { t.DistributeDataPointsInternal(n) })
}
func (b *pairBE) move() bool {
	r := b.c().MoveVector()
	l := false
	b.act(func(t *Manager) { l = t.MoveVector() })
	if r != l {
		b.note("remote answered %v, local %v", r, l)
	}
	return r
}
func (b *pairBE) lendp() int {
	r := b.c().LenDP()
	l := 0
	b.act(func(t *Manager) { l = t.LenDP() })
	if r != l {
		b.note("remote answered %d, local %d", r, l)
	}
	return r
}
func (b *pairBE) distExt(n int, r []common.DataPointReceiver) { panic("harness: not offered remotely") }

func (b *pairBE) namespaces() []string {
	r := b.c().Namespaces()
	b.errs(b.addr == downAddr)
	var l []string
	if b.addr != downAddr {
		for n := range b.twin {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	s := append([]string{}, r...)
	sort.Strings(s)
	if fmt.Sprintf("%q", s) != fmt.Sprintf("%q", l) && len(s)+len(l) > 0 {
		b.note("namespaces listed: %q, should be %q", s, l)
	}
	return r
}

func (b *pairBE) meta() kmrpc.MetaResp {
	r := b.c().Meta()
	b.errs(b.addr == downAddr)
	if b.addr == downAddr {
		return r
	}
	if len(r.Centroids) != len(b.twin) || len(r.DPs) != len(b.twin) {
		b.note("metadata has %d/%d namespaces, the node holds %d", len(r.Centroids), len(r.DPs), len(b.twin))
	}
	for ns, t := range b.twin {
		c, ok1 := r.Centroids[ns]
		d, ok2 := r.DPs[ns]
		if !ok1 || !ok2 || c != len(t.Centroids) || d != t.LenDP() {
			b.note("metadata of %q: %d groups, %d datapoints; the node holds %d and %d", ns, c, d, len(t.Centroids), t.LenDP())
		}
	}
	return r
}

func (b *pairBE) snap() Snap             { return b.n.snap(b.ns) }
func (b *pairBE) err() error             { return b.e }
func (b *pairBE) snaps() map[string]Snap { return b.n.snaps() }
func (b *pairBE) twinSnaps() map[string]Snap {
	r := map[string]Snap{}
	for n, t := range b.twin {
		r[n] = snapManager(t)
	}
	return r
}
