CEN='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'
SRV='pkg/kmeans/rpc/server.go'; CLI='pkg/kmeans/rpc/client.go'; SU='pkg/kmeans/rpc/serverutils.go'
LOOP='''
import (
	"fmt"
	"testing"
	"time"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

type logger struct{ metas chan eventloop.MetaData }

func (l logger) LogMeta(m eventloop.MetaData) {
	if l.metas != nil {
		select {
		case l.metas <- m:
		default:
		}
	}
}
func (l logger) LogTask(string) {}

// skips skips everything but what set turns on.
func skips(set func(*eventloop.EventLoopTaskSkipConfig)) eventloop.EventLoopTaskSkipConfig {
	x := 1000
	s := eventloop.EventLoopTaskSkipConfig{Expire: x, MemTrim: x, DistributeDataPointsFast: x, DistributeDataPointsAccurate: x, DistributeDataPointsInternal: x, SplitCentroids: x, MergeCentroids: x, LoadBalancing: x, Meta: x}
	set(&s)
	return s
}

var _ = fmt.Sprint
var _ = kmrpc.KMeansClient
'''
BUGS=[
dict(id='vector-cache',property='N01',
 needs='two requests for the same namespace with a change of its centre in between',
 breaks='nodes are ranked by where their centres were at the first request',
 edits=[('core/nodes/vecs.go','''		var err error
		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		return vec, err == nil && vec != nil
''','''		cached.Lock()
		defer cached.Unlock()
		key := addr.ToStr() + namespace
		if vec, ok := cached.vecs[key]; ok {
			return vec, true
		}
		var err error
		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		if err == nil && vec != nil {
			cached.vecs[key] = vec
		}
		return vec, err == nil && vec != nil
'''),('core/nodes/vecs.go','''import "trypo/pkg/kmeans/rpc"
''','''import (
	"sync"
	"trypo/pkg/kmeans/rpc"
)

var cached = struct {
	sync.Mutex
	vecs map[string][]float64
}{vecs: make(map[string][]float64)}
''')],
 demo='''
import (
	"testing"

	"trypo/core/nodes"
	kmrpc "trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	b, _ := node(t)
	nearest := func() Addr {
		return nodes.BestFitNodesFast(nodes.BestFitNodesArgs{AddrOpts: []Addr{a, b}, Namespace: "n", Vec: []float64{1, 0}, KNNSearchFunc: searchutils.KNNCos})[0]
	}
	put := func(x Addr, d DP) { kmrpc.KMeansClient(x.ToStr(), "n", nil).AddDataPoint(d) }
	put(a, pt("a", 1, 0))
	put(b, pt("b", 0, 1))
	if r := nearest(); r != a {
		t.Fatal(r, a)
	}
	// They change places.
	for i := 0; i < 30; i++ {
		put(a, pt("a", 0, 1))
		put(b, pt("b", 1, 0))
	}
	if r := nearest(); r != b {
		t.Fatal(r, b)
	}
}
'''),
dict(id='result-buffer',property='C01',
 needs='holding on to an answer while searching again',
 breaks='the earlier answer is overwritten by the later one',
 edits=[('pkg/searchutils/knn.go','''	res := make([]int, 0, len(items))
	for i := 0; i < len(items); i++ {
''','''	if cap(buffer) < len(items) {
		buffer = make([]int, 0, 2*len(items))
	}
	res := buffer[:0]
	for i := 0; i < len(items); i++ {
'''),('pkg/searchutils/knn.go','''// resItems2Indexes simply''','''// Grows to the longest answer.
var buffer []int

// resItems2Indexes simply''')],
 demo='''
import (
	"testing"

	"trypo/pkg/searchutils"
)

func TestDemo(t *testing.T) {
	search := func(v []float64) []int {
		pool, i := [][]float64{{1, 0}, {0, 1}}, 0
		return searchutils.KNNCos(v, func() ([]float64, bool) {
			i++
			if i > len(pool) {
				return nil, false
			}
			return pool[i-1], true
		}, 1)
	}
	a := search([]float64{1, 0})
	b := search([]float64{0, 1})
	if a[0] != 0 || b[0] != 1 {
		t.Fatal(a, b)
	}
}
'''),
dict(id='bounded-fan-out',property='R07',
 needs='more than four nodes to look at, with a namespace or a nearer centre only in the later ones',
 breaks='only the first few nodes are considered as receivers',
 edits=[(SU,'''	ch := make(chan fetchVecsRes, len(addrs))
	for''','''	// Keeps the number of connections within bounds.
	if len(addrs) > 4 {
		addrs = addrs[:4]
	}
	ch := make(chan fetchVecsRes, len(addrs))
	for''')],
 demo='''
import (
	"testing"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	src, _ := node(t)
	c := kmrpc.KMeansClient(src.ToStr(), "n", nil)
	c.AddDataPoint(pt("a", 0, 1))
	c.AddDataPoint(pt("b", 1, 0))
	var to []string
	n := 0
	for i := 0; i < 6; i++ {
		a, _ := node(t)
		to = append(to, a.ToStr())
		last := kmrpc.KMeansClient(a.ToStr(), "n", nil)
		v := []float64{1, -1}
		if i == 5 {
			v = []float64{1, 1}
		}
		last.AddDataPoint(pt("c", v...))
	}
	c.DistributeDataPointsAccurate(to, 2)
	if n = kmrpc.KMeansClient(to[5], "n", nil).LenDP(); n < 2 {
		t.Fatal(n)
	}
}
'''),
dict(id='timid-balancing',property='E03',
 needs='a local node that is only moderately below the average',
 breaks='a node far below the average never asks for anything',
 edits=[('core/eventloop/eltask.go','''					transferDPN /= 3
''','''					transferDPN /= 12
''')],
 demo=LOOP+'''
func TestDemo(t *testing.T) {
	var as []Addr
	for i := 0; i < 2; i++ {
		a, _ := node(t)
		as = append(as, a)
		n := []int{1, 41}[i]
		for k := 0; k < n; k++ {
			kmrpc.KMeansClient(a.ToStr(), "n", nil).AddDataPoint(pt("x", 1, float64(k)))
		}
		if i == 1 {
			kmrpc.KMeansClient(a.ToStr(), "n", nil).SplitCentroids(1, 100)
		}
	}
	stop := eventloop.EventLoop(&eventloop.EventLoopConfig{
		LocalAddr: as[0], RemoteAddrs: as, TimeoutLoop: time.Millisecond, TimeoutStep: time.Millisecond, L: logger{}, LogLocalOnly: true,
		TaskSkip: skips(func(s *eventloop.EventLoopTaskSkipConfig) { s.LoadBalancing = 1 }),
	})
	defer stop()
	for i := 0; i < 200; i++ {
		if kmrpc.KMeansClient(as[0].ToStr(), "n", nil).LenDP() > 1 {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	t.Fatal("nothing asked for")
}
'''),
dict(id='eight-namespaces',property='E02',
 needs='a node with more than eight namespaces',
 breaks='a pass of maintenance leaves the rest of the namespaces alone',
 edits=[('core/eventloop/eltask.go','''	for _, ns := range namespaces {
		task(cfg.LocalAddr, ns)
	}
''','''	// A few at a time; the order differs from pass to pass.
	for i := 0; i < len(namespaces) && i < 8; i++ {
		task(cfg.LocalAddr, namespaces[i])
	}
''')],
 demo=LOOP+'''
func TestDemo(t *testing.T) {
	a, _ := node(t)
	for i := 0; i < 60; i++ {
		c := kmrpc.KMeansClient(a.ToStr(), fmt.Sprint("n", i), nil)
		c.AddDataPoint(old("x", 1, 0))
		c.AddDataPoint(pt("y", 1, 0))
	}
	time.Sleep(100 * time.Millisecond)
	// Every task runs in the first pass only.
	stop := eventloop.EventLoop(&eventloop.EventLoopConfig{
		LocalAddr: a, RemoteAddrs: []Addr{a}, TimeoutLoop: time.Millisecond, TimeoutStep: 10 * time.Millisecond, L: logger{}, LogLocalOnly: true,
		TaskSkip: skips(func(*eventloop.EventLoopTaskSkipConfig) {}),
	})
	defer stop()
	n := 0
	for try := 0; try < 100 && n != 60; try++ {
		time.Sleep(50 * time.Millisecond)
		n = 0
		for i := 0; i < 60; i++ {
			n += kmrpc.KMeansClient(a.ToStr(), fmt.Sprint("n", i), nil).LenDP()
		}
	}
	if n != 60 {
		t.Fatal(n)
	}
}
'''),
dict(id='short-names',property='R04',
 needs='a namespace whose name is longer than 64 bytes',
 breaks='what is put into it goes to another namespace',
 edits=[(CLI,'''		args := AddDataPointArgs{NameSpace: c.namespace, DP: dp}
''','''		args := AddDataPointArgs{NameSpace: c.namespace, DP: dp}
		// Keys of the table are kept short.
		if len(args.NameSpace) > 64 {
			args.NameSpace = args.NameSpace[:64]
		}
''')],
 demo='''
import (
	"strings"
	"testing"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	p := strings.Repeat("n", 64)
	kmrpc.KMeansClient(a.ToStr(), p, nil).AddDataPoint(pt("x", 1, 0))
	kmrpc.KMeansClient(a.ToStr(), p+"1", nil).AddDataPoint(pt("y", 1, 0))
	if n := kmrpc.KMeansClient(a.ToStr(), p, nil).LenDP(); n != 1 {
		t.Fatal(n)
	}
}
'''),
dict(id='payload-cut',property='R01',
 needs='a payload longer than 4096 bytes',
 breaks='the node stores something else than what was put',
 edits=[(SRV,'''func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
''','''func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
	const limit = 4096
	if len(args.DP.Payload) > limit {
		args.DP.Payload = args.DP.Payload[:limit]
	}
''')],
 demo='''
import (
	"strings"
	"testing"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	c := kmrpc.KMeansClient(a.ToStr(), "n", nil)
	c.AddDataPoint(pt(strings.Repeat("x", 10000), 1, 0))
	if r := c.DrainUnordered(1); len(r) != 1 || len(r[0].Payload) != 10000 {
		t.Fatal(len(r))
	}
}
'''),
dict(id='unrolled-distance',property='C02',
 needs='vectors of five or more dimensions whose number is not a multiple of four',
 breaks='the last dimensions are left out of the distance',
 edits=[('pkg/mathutils/distance.go','''	for i := 0; i < len(v1); i++ {
		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
	}
''','''	i := 0
	for ; i+4 <= len(v1); i += 4 {
		a, b, c, d := v1[i]-v2[i], v1[i+1]-v2[i+1], v1[i+2]-v2[i+2], v1[i+3]-v2[i+3]
		r += a*a + b*b + c*c + d*d
	}
	// What is left over.
	if i == 0 {
		for ; i < len(v1); i++ {
			r += (v1[i] - v2[i]) * (v1[i] - v2[i])
		}
	}
''')],
 demo='''
import (
	"testing"

	"trypo/pkg/mathutils"
)

func TestDemo(t *testing.T) {
	if d, err := mathutils.EuclideanDistance([]float64{0, 0, 0, 0, 3}, []float64{0, 0, 0, 0, 0}); err != nil || d != 3 {
		t.Fatal(d, err)
	}
}
'''),
dict(id='nearest-few-groups',property='C06',
 needs='a lookup of few in a store where many nearest groups hold only expired members',
 breaks='the lookup ends before it reaches the groups that hold something',
 edits=[(CM,'''	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, len(cm.Centroids)) {
''','''	// More groups than that are not needed.
	groups := len(cm.Centroids)
	if k > 0 && k < groups/2 {
		groups = 2 * k
	}
	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, groups) {
''')],
 demo='''
import (
	"fmt"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := manager(true, 1000, 0, 0)
	for i := 0; i < 9; i++ {
		c := group(true, float64(i), 0)
		if i < 8 {
			c.AddDataPoint(old(fmt.Sprint("o", i), float64(i), 0))
		} else {
			c.AddDataPoint(pt("x", float64(i), 0))
		}
		m.Centroids = append(m.Centroids, c)
	}
	time.Sleep(120 * time.Millisecond)
	if r := m.KNNLookup([]float64{0, 0}, 1, false); len(r) != 1 {
		t.Fatal(len(r))
	}
}
'''),
dict(id='last-one-stays',property='C07',
 needs='draining more than sixteen members out of a group in order, so that none is left',
 breaks='one of those asked for is not given out',
 edits=[(CEN,'''	for i := len(indexes) - 1; i > -1; i-- { // Backwards for removal safety.
		c.rmDataPoint(indexes[i])
	}
''','''	for i := len(indexes) - 1; i > -1; i-- { // Backwards for removal safety.
		c.rmDataPoint(indexes[i])
	}
	// A large group keeps its place by one member.
	if len(res) > 16 && len(c.DataPoints) == 0 {
		c.addDataPoint(res[len(res)-1])
		res = res[:len(res)-1]
	}
''')],
 demo='''
import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	c := group(true, 0, 0)
	for i := 0; i < 20; i++ {
		c.AddDataPoint(pt(fmt.Sprint(i), float64(i), 0))
	}
	if n := len(c.DrainOrdered(20)); n != 20 {
		t.Fatal(n)
	}
}
'''),
dict(id='four-nodes-shown',property='E04',
 needs='a network of more than four nodes',
 breaks='the monitor shows the counts of four of them only',
 edits=[('core/eventloop/eltask.go','''		for _, addr := range pullFrom {
			meta := rpc''','''		for _, addr := range pullFrom {
			if len(metaData.Items) > 3 {
				continue
			}
			meta := rpc''')],
 demo=LOOP+'''
func TestDemo(t *testing.T) {
	var as []Addr
	for i := 0; i < 6; i++ {
		a, _ := node(t)
		as = append(as, a)
	}
	l := logger{make(chan eventloop.MetaData, 1)}
	stop := eventloop.EventLoop(&eventloop.EventLoopConfig{
		LocalAddr: as[0], RemoteAddrs: as, TimeoutLoop: time.Millisecond, TimeoutStep: time.Millisecond, L: l,
		TaskSkip: skips(func(s *eventloop.EventLoopTaskSkipConfig) { s.Meta = 1 }),
	})
	defer stop()
	if m := <-l.metas; len(m.Items) != 6 {
		t.Fatal(len(m.Items))
	}
}
'''),
]
