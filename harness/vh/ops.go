package vh

import (
	"fmt"
	"runtime/debug"
	"strings"
	"time"

	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/common"
	kmrpc "trypo/pkg/kmeans/rpc"
)

// Expiry classes of added datapoints.
const (
	xNone  = iota // expiry disabled, zero instant
	xPast         // expiry disabled, instant long past
	xLong         // enabled, far in the future
	xShort        // enabled, expires during the next tick
	xGone         // enabled, already past
	xSub          // enabled, expires within this second, after one blink but before two
	xZero         // enabled, but no instant set (long past)
)

// blink is a short while: two of them fit into a second.
const blink = 400 * time.Millisecond

const tick = 10 * time.Second

// Op is one operation of an alphabet.
type Op struct {
	Kind     string
	Vec      []float64
	Exp      int
	N        int
	Drain    bool
	Min, Max int
	Pred     string
	Recv     int
	NS       string
	Down     bool
	Pad      int // added to the payload
}

func (o *Op) String() string {
	s := o.str()
	if o.NS != "" {
		s = o.NS + ":" + s
	}
	if o.Down {
		s = "unreachable:" + s
	}
	return s
}

func (o *Op) str() string {
	switch o.Kind {
	case "add":
		if o.Pad > 0 {
			return fmt.Sprintf("add%s/payload+%d", fv(o.Vec), o.Pad)
		}
		return fmt.Sprintf("add%s%s", fv(o.Vec), []string{"", "/past-disabled", "/long", "/short", "/expired", "/subsecond", "/expired-zero"}[o.Exp])
	case "knn":
		return fmt.Sprintf("lookup(%s,%d,drain=%v)", fv(o.Vec), o.N, o.Drain)
	case "nearest":
		return fmt.Sprintf("nearestGroups(%s,%d,drain=%v)", fv(o.Vec), o.N, o.Drain)
	case "drainU", "drainO", "distInt":
		return fmt.Sprintf("%s(%d)", o.Kind, o.N)
	case "distExt":
		return fmt.Sprintf("distribute(%d,receivers#%d)", o.N, o.Recv)
	case "split", "merge":
		if o.Pred != "" {
			return o.Kind + "(" + o.Pred + ")"
		}
		return fmt.Sprintf("%s(%d,%d)", o.Kind, o.Min, o.Max)
	}
	return o.Kind
}

// Offer is one datapoint offered to a scripted receiver.
type Offer struct {
	DP       DPS
	To       int
	Vecs     [][]float64
	Accepted bool
	Live     bool
}

// Step is one observed operation.
type Step struct {
	Op        *Op
	Pre, Post Snap
	DP        DPS // added
	OK        bool
	Out       []DPS
	OutG      []GSnap
	OutN      int
	OutVec    []float64
	Err       error
	Offers    []Offer
	NRecv     int
	Crash     string
	OutNames  []string
	OutMeta   kmrpc.MetaResp
	raw       []DP        // the answered slice itself
	rawG      []*Centroid // the removed groups themselves
	PreAll    map[string]Snap
	PostAll   map[string]Snap
}

func (s *Step) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v", s.Op)
	switch s.Op.Kind {
	case "add":
		fmt.Fprintf(&b, " as %s -> %v", s.DP.ID, s.OK)
	case "knn", "drainU", "drainO":
		fmt.Fprintf(&b, " -> %v", ids(s.Out))
	case "nearest":
		b.WriteString(" ->")
		for i := range s.OutG {
			fmt.Fprintf(&b, " {%s: %v}", fv(s.OutG[i].Vec), ids(s.OutG[i].DPs))
		}
	case "distExt":
		for _, o := range s.Offers {
			fmt.Fprintf(&b, " %s->#%d:%v", o.DP.ID, o.To, o.Accepted)
		}
	}
	if s.Err != nil {
		fmt.Fprintf(&b, " err=%v", s.Err)
	}
	fmt.Fprintf(&b, " => %s", s.Post.String())
	return b.String()
}

// M is one instance of the system under test with its registry.
type M struct {
	be    backend
	ms    *measure
	thr   int
	reg   map[string]*DPS
	order []string
	nsOf  map[string]string
	next  int
	twins bool // all datapoints have the same payload
	x     map[string]interface{}
}

type backend interface {
	add(dp DP) bool
	drainU(n int) []DP
	drainO(n int) []DP
	knn(v []float64, k int, drain bool) []DP
	nearest(v []float64, n int, drain bool) ([]*Centroid, bool)
	nearestVec(v []float64) []float64
	split(o *Op)
	merge(o *Op)
	expire()
	memtrim()
	move() bool
	lendp() int
	vec() []float64
	distInt(n int)
	distExt(n int, r []common.DataPointReceiver)
	snap() Snap
	err() error
}

func newCentroid(ms *measure, vec []float64) *Centroid {
	c, ok := centroid.NewCentroid(centroid.NewCentroidArgs{InitVec: vec, InitCap: 2, KNNSearchFunc: ms.knn, KFNSearchFunc: ms.kfn})
	if !ok {
		panic("harness: NewCentroid")
	}
	return &c
}

func newManager(ms *measure, thr int, vec []float64) *Manager {
	cm, ok := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
		InitVec: vec, InitCap: 2, CentroidDPThreshold: thr, KNNSearchFunc: ms.knn, KFNSearchFunc: ms.kfn})
	if !ok {
		panic("harness: NewCentroidManager")
	}
	return &cm
}

// managerBE drives a CentroidManager directly.
type managerBE struct{ cm *Manager }

func (b *managerBE) add(dp DP) bool    { return b.cm.AddDataPoint(dp) }
func (b *managerBE) drainU(n int) []DP { return b.cm.DrainUnordered(n) }
func (b *managerBE) drainO(n int) []DP { return b.cm.DrainOrdered(n) }
func (b *managerBE) knn(v []float64, k int, drain bool) []DP {
	return b.cm.KNNLookup(v, k, drain)
}
func (b *managerBE) nearest(v []float64, n int, drain bool) ([]*Centroid, bool) {
	return b.cm.NearestCentroids(v, n, drain)
}
func (b *managerBE) nearestVec(v []float64) []float64 {
	cs, _ := b.cm.NearestCentroids(v, 1, false)
	if len(cs) > 0 {
		return cs[0].Vec()
	}
	return nil
}
func (o *Op) sel(c *Centroid) bool { return o.selects(c.LenDP(), c.Vec()) }
func (o *Op) selects(n int, vec []float64) bool {
	switch o.Pred {
	case "x>0":
		return len(vec) > 0 && vec[0] > 0
	}
	return n > o.Min && n < o.Max
}
func (b *managerBE) split(o *Op)    { b.cm.SplitCentroids(o.sel) }
func (b *managerBE) merge(o *Op)    { b.cm.MergeCentroids(o.sel) }
func (b *managerBE) expire()        { b.cm.Expire() }
func (b *managerBE) memtrim()       { b.cm.MemTrim() }
func (b *managerBE) move() bool     { return b.cm.MoveVector() }
func (b *managerBE) lendp() int     { return b.cm.LenDP() }
func (b *managerBE) vec() []float64 { return b.cm.Vec() }
func (b *managerBE) distInt(n int)  { b.cm.DistributeDataPointsInternal(n) }
func (b *managerBE) distExt(n int, r []common.DataPointReceiver) {
	b.cm.DistributeDataPoints(n, r)
}
func (b *managerBE) snap() Snap { return snapManager(b.cm) }
func (b *managerBE) err() error { return nil }

// centroidBE drives a single Centroid.
type centroidBE struct{ c *Centroid }

func (b *centroidBE) add(dp DP) bool    { return b.c.AddDataPoint(dp) }
func (b *centroidBE) drainU(n int) []DP { return b.c.DrainUnordered(n) }
func (b *centroidBE) drainO(n int) []DP { return b.c.DrainOrdered(n) }
func (b *centroidBE) knn(v []float64, k int, drain bool) []DP {
	return b.c.KNNLookup(v, k, drain)
}
func (b *centroidBE) nearest(v []float64, n int, drain bool) ([]*Centroid, bool) { return nil, false }
func (b *centroidBE) nearestVec(v []float64) []float64                           { return nil }
func (b *centroidBE) split(o *Op)                                                {}
func (b *centroidBE) merge(o *Op)                                                {}
func (b *centroidBE) expire()                                                    { b.c.Expire() }
func (b *centroidBE) memtrim()                                                   { b.c.MemTrim() }
func (b *centroidBE) move() bool                                                 { return b.c.MoveVector() }
func (b *centroidBE) lendp() int                                                 { return b.c.LenDP() }
func (b *centroidBE) vec() []float64                                             { return b.c.Vec() }

// distInt: the group is its own only receiver.
func (b *centroidBE) distInt(n int) { b.c.DistributeDataPoints(n, []common.DataPointReceiver{b.c}) }
func (b *centroidBE) distExt(n int, r []common.DataPointReceiver) {
	b.c.DistributeDataPoints(n, r)
}
func (b *centroidBE) snap() Snap {
	return Snap{Exists: true, Now: time.Now(), Vec: cpv(b.c.Vec()), G: []GSnap{snapGroup(b.c)}}
}
func (b *centroidBE) err() error { return nil }

// recvSpec scripts external receivers.
type recvSpec struct {
	v      []float64
	refuse bool
	moveTo []float64
}

var recvSets = [][]recvSpec{
	0: {{v: vv(1, 0)}, {v: vv(0, 1)}},
	1: {{v: vv(1, 0), refuse: true}, {v: vv(0, 1)}},
	2: {{v: vv(1, 0), refuse: true}, {v: vv(-1, 0.5), refuse: true}},
	3: {},
	4: {{v: vv(1, 0, 0)}, {v: vv(0, 1, 0)}},
	5: {{v: vv(0, 1), moveTo: vv(1, 0)}, {v: vv(1, 1), moveTo: vv(-1, -1)}, {v: vv(1, 0, 5)}},
}

func vv(x ...float64) []float64 { return x }

type recv struct {
	recvSpec
	i   int
	all []*recv
	st  *Step
}

func (r *recv) Vec() []float64 { return r.v }
func (r *recv) AddDataPoint(dp DP) bool {
	o := Offer{DP: snapDP(&dp), To: r.i}
	for _, s := range r.all {
		o.Vecs = append(o.Vecs, cpv(s.v))
	}
	o.Live = o.DP.live(time.Now())
	o.Accepted = !r.refuse && len(dp.Vec) == len(r.v) && o.Live
	r.st.Offers = append(r.st.Offers, o)
	if o.Accepted && r.moveTo != nil {
		r.v = r.moveTo
	}
	return o.Accepted
}

// mkDP creates and registers a datapoint.
func (m *M) mkDP(vec []float64, exp int) DP {
	return m.mkPadded(vec, exp, 0)
}

func (m *M) mkPadded(vec []float64, exp, pad int) DP {
	m.next++
	if m.twins {
		return m.mkDPid("twin", vec, exp)
	}
	id := fmt.Sprintf("d%d", m.next)
	if pad > 0 {
		b := make([]byte, pad)
		for i := range b {
			b[i] = byte(i*7 + m.next)
		}
		id += "\x00" + string(b)
	}
	return m.mkDPid(id, vec, exp)
}

func (m *M) mkDPid(id string, vec []float64, exp int) DP {
	d := DP{Vec: cpv(vec), Payload: []byte(id)}
	switch exp {
	case xPast:
		d.Expires = time.Now().Add(-time.Hour)
	case xLong:
		d.Expires = time.Now().Add(1000 * time.Hour).Round(0).UTC()
		d.ExpireEnabled = true
	case xShort:
		d.Expires = time.Now().Add(tick / 2)
		d.ExpireEnabled = true
	case xGone:
		d.Expires = time.Now().Add(-tick / 2)
		d.ExpireEnabled = true
	case xSub:
		d.Expires = time.Now().Add(blink * 3 / 2)
		d.ExpireEnabled = true
	case xZero:
		d.ExpireEnabled = true
	}
	s := snapDP(&d)
	m.reg[s.ID] = &s
	m.order = append(m.order, s.ID)
	return d
}

func (m *M) snap() Snap { return m.be.snap() }

// apply performs op and records everything observable.
func (m *M) apply(op *Op, observe bool) (s *Step) {
	s = &Step{Op: op}
	if t, ok := m.be.(interface{ target(string, bool) }); ok {
		t.target(op.NS, op.Down)
	}
	multi, isMulti := m.be.(interface{ snaps() map[string]Snap })
	if observe {
		if isMulti {
			s.PreAll = multi.snaps()
		}
		s.Pre = m.snap()
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				s.Crash = fmt.Sprintf("panic: %v\n%s", r, repoFrames(debug.Stack()))
			}
		}()
		m.exec(op, s)
	}()
	s.Err = m.be.err()
	if observe && s.Crash == "" {
		if isMulti {
			s.PostAll = multi.snaps()
		}
		s.Post = m.snap()
	}
	return s
}

func repoFrames(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "/vharness/") && !strings.Contains(l, "/usr/local/go") && !strings.Contains(l, "/harness/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

func (m *M) exec(op *Op, s *Step) {
	switch op.Kind {
	case "add":
		d := m.mkPadded(op.Vec, op.Exp, op.Pad)
		s.DP = *m.reg[idOf(d.Payload)]
		if m.nsOf != nil {
			m.nsOf[s.DP.ID] = op.NS
		}
		s.OK = m.be.add(d)
	case "drainU":
		s.raw = m.be.drainU(op.N)
		s.Out = snapDPs(s.raw)
	case "drainO":
		s.raw = m.be.drainO(op.N)
		s.Out = snapDPs(s.raw)
	case "knn":
		s.raw = m.be.knn(cpv(op.Vec), op.N, op.Drain)
		s.Out = snapDPs(s.raw)
	case "nearest":
		cs, ok := m.be.nearest(cpv(op.Vec), op.N, op.Drain)
		s.OK = ok
		for _, c := range cs {
			s.OutG = append(s.OutG, snapGroup(c))
			if op.Drain {
				s.rawG = append(s.rawG, c)
			}
		}
	case "nearestVec":
		s.OutVec = cpv(m.be.nearestVec(cpv(op.Vec)))
	case "split":
		m.be.split(op)
	case "merge":
		m.be.merge(op)
	case "expire":
		m.be.expire()
	case "memtrim":
		m.be.memtrim()
	case "move":
		s.OK = m.be.move()
	case "lendp":
		s.OutN = m.be.lendp()
	case "vec":
		s.OutVec = cpv(m.be.vec())
	case "distInt":
		m.be.distInt(op.N)
	case "distExt":
		var rs []*recv
		for i, sp := range recvSets[op.Recv] {
			rs = append(rs, &recv{recvSpec: sp, i: i, st: s})
		}
		var l []common.DataPointReceiver
		for _, r := range rs {
			r.all = rs
			l = append(l, r)
		}
		s.NRecv = len(rs)
		m.be.distExt(op.N, l)
	case "namespaces":
		s.OutNames = m.be.(*pairBE).namespaces()
	case "meta":
		s.OutMeta = m.be.(*pairBE).meta()
	case "tick":
		time.Sleep(tick)
	case "blink":
		time.Sleep(blink)
	default:
		panic("harness: op " + op.Kind)
	}
}

// gspec describes one group of a start state.
type gspec struct {
	vec []float64 // initial centre (used when empty)
	dps []dspec
}

type dspec struct {
	v []float64
	x int
}

func ds(vs ...[]float64) []dspec {
	var r []dspec
	for _, v := range vs {
		r = append(r, dspec{v, xNone})
	}
	return r
}

// build creates a manager holding the given groups.
func (m *M) buildManager(groups []gspec) *Manager {
	cm := newManager(m.ms, m.thr, nil)
	m.fill(cm, groups)
	return cm
}

func (m *M) fill(cm *Manager, groups []gspec) {
	for _, g := range groups {
		v := g.vec
		if v == nil {
			v = g.dps[0].v
		}
		c := newCentroid(m.ms, v)
		for _, d := range g.dps {
			c.AddDataPoint(m.mkDP(d.v, d.x))
		}
		cm.Centroids = append(cm.Centroids, c)
	}
	cm.MoveVector()
}
