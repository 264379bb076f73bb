CEN='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'
SRV='pkg/kmeans/rpc/server.go'; CLI='pkg/kmeans/rpc/client.go'; RPC='pkg/kmeans/rpc/rpc.go'
SVC='''
import (
	"bytes"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	kmrpc "trypo/pkg/kmeans/rpc"
)

type buffer struct {
	sync.Mutex
	b bytes.Buffer
}

func (b *buffer) Write(p []byte) (int, error) {
	b.Lock()
	defer b.Unlock()
	return b.b.Write(p)
}

func (b *buffer) String() string {
	b.Lock()
	defer b.Unlock()
	return b.b.String()
}

// service builds and runs the program; demo.sh leaves the tree's place in REPO.
func service(t *testing.T) *buffer {
	bin := filepath.Join(t.TempDir(), "service")
	c := exec.Command("go", "build", "-o", bin, "./cmd/service")
	c.Dir = os.Getenv("REPO")
	if o, err := c.CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, o)
	}
	out := &buffer{}
	c = exec.Command(bin)
	c.Stdout, c.Stderr = out, out
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { c.Process.Kill(); c.Wait() })
	for i := 0; i < 100; i++ {
		var err error
		if kmrpc.KMeansClient("localhost:3500", "n", &err).Namespaces(); err == nil {
			return out
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("does not start")
	return nil
}

func post(t *testing.T, path, body string) string {
	for i := 0; i < 100; i++ {
		r, err := http.Post("http://localhost:3501"+path, "application/json", strings.NewReader(body))
		if err == nil {
			b, _ := io.ReadAll(r.Body)
			r.Body.Close()
			return string(b)
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("no answer")
	return ""
}

var _ = post
'''
BUGS=[
dict(id='perfect-match-ends',property='C01',
 needs='a furthest search for one vector by Euclidean distance that meets a vector at distance one first',
 breaks='the search ends at that vector although others are further away',
 edits=[('pkg/searchutils/knn.go','''		// Evaluate inclusion of current vector.
''','''		// It doesn't get better than identical.
		if args.K == 1 && (args.Ascending && score == 0 || !args.Ascending && score == 1) {
			return []int{i}
		}
		// Evaluate inclusion of current vector.
''')],
 demo='''
import (
	"testing"

	"trypo/pkg/searchutils"
)

func TestDemo(t *testing.T) {
	pool := [][]float64{{1, 0}, {5, 0}}
	i := 0
	r := searchutils.KFNEuc([]float64{0, 0}, func() ([]float64, bool) {
		i++
		if i > len(pool) {
			return nil, false
		}
		return pool[i-1], true
	}, 1)
	if len(r) != 1 || r[0] != 1 {
		t.Fatal(r)
	}
}
'''),
dict(id='sum-in-place',property='C02',
 needs='a first summand whose slice has capacity left, and looking at it afterwards',
 breaks='the sum is written over the first summand',
 edits=[('pkg/mathutils/vectools.go','''	res := make([]float64, len(a))
	for i := 0; i < len(a); i++ {
		res[i] = a[i] + b[i]
	}''','''	res := append(a[:0:len(a)], a...)
	for i := 0; i < len(a); i++ {
		res[i] += b[i]
	}''')],
 demo='''
import (
	"testing"

	"trypo/pkg/mathutils"
)

func TestDemo(t *testing.T) {
	v := []float64{1, 2}
	mathutils.VecAdd(v, []float64{1, 1})
	if v[0] != 1 {
		t.Fatal(v)
	}
}
'''),
dict(id='running-mean-cap',property='C03',
 needs='a group of more than 64 members',
 breaks='the centre follows the newest members instead of being the mean',
 edits=[(CEN,'''	c.vec = mathutils.VecMulScalar(c.vec, float64(len(c.DataPoints)))
	c.vec, _ = mathutils.VecAdd(c.vec, dp.Vec)
	c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints))+1)
''','''	// Bounded weight, so that the centre doesn't freeze.
	weight := float64(len(c.DataPoints))
	if weight > 64 {
		weight = 64
	}
	c.vec = mathutils.VecMulScalar(c.vec, weight)
	c.vec, _ = mathutils.VecAdd(c.vec, dp.Vec)
	c.vec = mathutils.VecDivScalar(c.vec, weight+1)
''')],
 demo='''
import "testing"

func TestDemo(t *testing.T) {
	c := group(true, 0, 0)
	for i := 0; i < 100; i++ {
		c.AddDataPoint(pt("a", float64(i), 1))
	}
	if !near(c.Vec(), mean(c.DataPoints)) {
		t.Fatal(c.Vec(), mean(c.DataPoints))
	}
}
'''),
dict(id='expired-group-skipped',property='C04',
 needs='a group of which every member has expired, and expiry running',
 breaks='the summary vector of the node counts the centre that group had before',
 edits=[(CM,'''		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())''','''		centroid.Expire()
		if centroid.LenDP() == 0 {
			continue
		}
		// Finalize internal vec update.
		updateVec(centroid.Vec())''')],
 demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := manager(true, 100, 0, 0)
	m.AddDataPoint(old("o", 9, 9))
	m.AddDataPoint(old("p", 1, 1))
	time.Sleep(100 * time.Millisecond)
	m.Expire()
	if len(m.Centroids) == 1 && !near(m.Vec(), m.Centroids[0].Vec()) {
		t.Fatal(m.Vec(), m.Centroids[0].Vec())
	}
}
'''),
dict(id='split-drops-twins',property='C05',
 needs='a group with identical datapoints that gets split',
 breaks='copies of a datapoint are lost',
 edits=[(CM,'''	for i := 0; i < len(dps); i++ {
		newCentroid.AddDataPoint(dps[i])''','''	for i := 0; i < len(dps); i++ {
		// Already moved.
		if i > 0 && len(dps[i].Payload) > 0 && mathutils.VecEq(dps[i].Vec, dps[i-1].Vec) && string(dps[i].Payload) == string(dps[i-1].Payload) {
			continue
		}
		newCentroid.AddDataPoint(dps[i])''')],
 demo='''
import "testing"

func TestDemo(t *testing.T) {
	m := manager(true, 100, 0, 0)
	for i := 0; i < 4; i++ {
		m.AddDataPoint(pt("a", 1, 1))
	}
	m.SplitCentroids(func(c *C) bool { return true })
	if m.LenDP() != 4 {
		t.Fatal(m.LenDP())
	}
}
'''),
dict(id='empty-group-ends',property='C06',
 needs='a lookup for which an emptied group is nearest',
 breaks='the lookup ends there and leaves out the datapoints of further groups',
 edits=[(CM,'''		centroid := cm.Centroids[centroidIndex]
		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		for _, dp := range''','''		centroid := cm.Centroids[centroidIndex]
		if centroid.LenDP() == 0 {
			break
		}
		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		for _, dp := range''')],
 demo='''
import "testing"

func TestDemo(t *testing.T) {
	m := manager(true, 4, 0, 0)
	for _, x := range []float64{1, 2, 8, 9} {
		m.AddDataPoint(pt("a", x, 0))
	}
	n := m.Centroids[0].LenDP()
	q := m.Centroids[0].Vec()
	m.KNNLookup(q, n, true)
	if r := m.KNNLookup(q, 4, false); len(r) != 4-n {
		t.Fatal(n, len(r))
	}
}
'''),
dict(id='last-one-lives',property='C08',
 needs='an unordered drain whose group holds a single datapoint that has expired',
 breaks='the expired datapoint is handed out',
 edits=[(CEN,'''		if !c.DataPoints[0].Expired() {
			res''','''		if len(c.DataPoints) == 1 || !c.DataPoints[0].Expired() {
			res''')],
 demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := group(true, 0, 0)
	c.AddDataPoint(old("o", 9, 9))
	time.Sleep(100 * time.Millisecond)
	if r := c.DrainUnordered(1); len(r) != 0 {
		t.Fatal(r)
	}
}
'''),
dict(id='split-at-limit',property='C09',
 needs='a group that outgrew the limit, e.g. by a merge, and is then split',
 breaks='the split takes off at most as much as a split by adding would, so the halves are uneven',
 edits=[(CM,'''		newCentroid, splitOK := cm.splitCentroid(i, centroid.LenDP()/2)
''','''		// Same portion as the split done while adding.
		n := centroid.LenDP() / 2
		if max := cm.centroidDPThreshold / 2; max > 1 && n > max {
			n = max
		}
		newCentroid, splitOK := cm.splitCentroid(i, n)
''')],
 demo='''
import "testing"

func TestDemo(t *testing.T) {
	m := manager(true, 4, 0, 0)
	for _, x := range []float64{1, 2, 8, 9, 1, 2, 8, 9, 3, 3, 3, 7} {
		m.AddDataPoint(pt("a", x, 0))
	}
	all := func(c *C) bool { return true }
	m.MergeCentroids(all)
	if len(m.Centroids) != 1 {
		t.Fatal(len(m.Centroids))
	}
	m.SplitCentroids(all)
	if len(m.Centroids) != 2 || m.Centroids[0].LenDP() != 6 {
		t.Fatal(len(m.Centroids), m.Centroids[0].LenDP())
	}
}
'''),
dict(id='merge-furthest',property='C09',
 needs='merging with at least three groups of which one has to be merged with one other',
 breaks='a group is merged into the least similar one instead of the nearest one',
 edits=[(CM,'''		for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
			// Guard''','''		for _, centroidIndex := range cm.kfnSearchFunc(vec, gen, k) {
			// Guard''')],
 demo='''
import "testing"

func TestDemo(t *testing.T) {
	m := manager(true, 100, 0, 0)
	for _, x := range []float64{1, 2, 50} {
		c := group(true, x, 0)
		c.AddDataPoint(pt("a", x, 0))
		m.Centroids = append(m.Centroids, c)
	}
	first := m.Centroids[0]
	m.MergeCentroids(func(c *C) bool { return c == first && c.LenDP() < 2 })
	if first.LenDP() != 2 || first.Vec()[0] != 1.5 {
		t.Fatal(first.LenDP(), first.Vec())
	}
}
'''),
dict(id='drained-out-of-order',property='C10',
 needs='taking several of the nearest groups out, the nearest not being stored first',
 breaks='the groups come in storage order instead of best first',
 edits=[(CM,'''	for _, index := range indexes {
		centroids = append(centroids, cm.Centroids[index])
	}
	if drain {
		sort.Ints(indexes)
''','''	if drain {
		sort.Ints(indexes)
	}
	for _, index := range indexes {
		centroids = append(centroids, cm.Centroids[index])
	}
	if drain {
''')],
 demo='''
import "testing"

func TestDemo(t *testing.T) {
	m := manager(true, 100, 0, 0)
	for _, x := range []float64{50, 2, 1} {
		c := group(true, x, 0)
		c.AddDataPoint(pt("a", x, 0))
		m.Centroids = append(m.Centroids, c)
	}
	m.MoveVector()
	r, ok := m.NearestCentroids([]float64{0, 0}, 2, true)
	if !ok || len(r) != 2 || r[0].Vec()[0] != 1 || r[1].Vec()[0] != 2 {
		t.Fatal(r[0].Vec(), r[1].Vec())
	}
}
'''),
dict(id='receivers-as-before',property='C10',
 needs='distributing several datapoints to receivers whose centres move while they receive them',
 breaks='later datapoints go to the receiver that was nearest before, not to the one that is nearest now',
 edits=[(CEN,'''		i++
		return receivers[i-1].Vec(), true
	}

	for j''','''		i++
		return vecs[i-1], true
	}

	for j'''),(CEN,'''	data := c.DrainOrdered(n)
	i := 0''','''	data := c.DrainOrdered(n)
	vecs := make([][]float64, len(receivers))
	for k, r := range receivers {
		vecs[k] = r.Vec()
	}
	i := 0''')],
 demo='''
import (
	"testing"

	"trypo/pkg/kmeans/common"
)

func TestDemo(t *testing.T) {
	c := group(true, 0, 0)
	for _, x := range []float64{100, 13, 13, 13} {
		c.AddDataPoint(pt("x", x, 0))
	}
	a, b := group(true, 9, 0), group(true, 12, 0)
	a.AddDataPoint(pt("a", 9, 0))
	b.AddDataPoint(pt("b", 12, 0))
	// The one at 100 goes first, to b, which moves away from 13 by that.
	c.DistributeDataPoints(2, []common.DataPointReceiver{a, b})
	if a.LenDP() != 2 || b.LenDP() != 2 {
		t.Fatal(a.DataPoints, b.DataPoints)
	}
}
'''),
dict(id='sticky-error',property='R01',
 needs='a client whose call failed once and succeeds later',
 breaks='the client still reports the old error after a successful call',
 edits=[(CLI,'''		*c.err = rc.Call("KMeansServer.LenDP", c.namespace, &resp)''','''		if err := rc.Call("KMeansServer.LenDP", c.namespace, &resp); err != nil {
			*c.err = err
		}''')],
 demo='''
import (
	"testing"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	var err error
	c := kmrpc.KMeansClient(a.ToStr(), "n", &err)
	c.LenDP()
	if err == nil {
		t.Fatal("no error")
	}
	kmrpc.KMeansClient(a.ToStr(), "n", nil).AddDataPoint(pt("a", 1, 0))
	if n := c.LenDP(); n != 1 || err != nil {
		t.Fatal(n, err)
	}
}
'''),
dict(id='look-then-drain',property='R03',
 needs='two draining lookups at the same time, one running between the two halves of the other',
 breaks='both hand out the same datapoint',
 edits=[(SRV,'''	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		*resp = cm.KNNLookup(args.Vec, args.K, args.Drain)
	})''','''	err := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		*resp = cm.KNNLookup(args.Vec, args.K, false)
	})
	if err == nil && args.Drain && len(*resp) > 0 {
		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
			cm.KNNLookup(args.Vec, len(*resp), true)
		})
	}
	return err''')],
 demo='''
import (
	"fmt"
	"sync"
	"testing"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	c := kmrpc.KMeansClient(a.ToStr(), "n", nil)
	seen := map[string]int{}
	for k := 0; k < 20; k++ {
		for i := 0; i < 40; i++ {
			c.AddDataPoint(pt(fmt.Sprint(k, i), 1, float64(i)))
		}
		var mx sync.Mutex
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 5; j++ {
					r := kmrpc.KMeansClient(a.ToStr(), "n", nil).KNNLookup([]float64{1, 1}, 1, true)
					mx.Lock()
					for _, d := range r {
						seen[string(d.Payload)]++
					}
					mx.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	for p, n := range seen {
		if n > 1 {
			t.Fatal(p, n)
		}
	}
}
'''),
dict(id='table-inside-slot',property='R05',
 needs='a re-centring and a listing of the metadata at the same time',
 breaks='each waits for the lock that the other one holds, forever',
 edits=[(SRV,'''	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {
		*resp = cm.MoveVector()
	})''','''	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {
		s.Table.Lock()
		defer s.Table.Unlock()
		*resp = cm.MoveVector()
	})'''),(SRV,'''		namespaces = append(namespaces, key)
	}
	s.Table.Unlock()

	centroids''','''		namespaces = append(namespaces, key)
	}
	defer s.Table.Unlock()

	centroids'''),(SRV,'''		s.Table.Access(ns, func(cm *CentroidManager) {
			centroids[ns]''','''		s.Table.slots[ns].Access(func(cm *CentroidManager) {
			centroids[ns]''')],
 demo='''
import (
	"testing"
	"time"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	for _, ns := range []string{"n", "m", "o"} {
		c := kmrpc.KMeansClient(a.ToStr(), ns, nil)
		for i := 0; i < 200; i++ {
			c.AddDataPoint(pt("a", 1, float64(i)))
		}
	}
	big := kmrpc.KMeansClient(a.ToStr(), "m", nil)
	for i := 0; i < 3000; i++ {
		big.AddDataPoint(pt("a", 1, float64(9000-i)))
	}
	within(t, 60*time.Second, func() {
		stop := make(chan bool)
		ended := make(chan bool)
		go func() {
			defer close(ended)
			for {
				select {
				case <-stop:
					return
				default:
					kmrpc.KMeansClient(a.ToStr(), "m", nil).KNNLookup([]float64{1, 0}, 3000, false)
				}
			}
		}()
		defer func() { close(stop); <-ended }()
		done := make(chan bool)
		for i := 0; i < 8; i++ {
			i := i
			go func() {
				c := kmrpc.KMeansClient(a.ToStr(), "m", nil)
				for j := 0; j < 40; j++ {
					if i%2 == 0 {
						c.MoveVector()
					} else {
						c.Meta()
					}
				}
				done <- true
			}()
		}
		for i := 0; i < 8; i++ {
			<-done
		}
	})
}
'''),
dict(id='equal-nodes-merged',property='N01',
 needs='two nodes with the same summary vector',
 breaks='only one of them is ranked',
 edits=[('core/nodes/vecs.go','''		data := <-f.ch
		if data.ok {
			r = append(r, data)''','''		data := <-f.ch
		for _, other := range r {
			data.ok = data.ok && !mathutils.VecEq(other.vec, data.vec)
		}
		if data.ok {
			r = append(r, data)'''),('core/nodes/vecs.go','''import "trypo/pkg/kmeans/rpc"
''','''import (
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/mathutils"
)
''')],
 demo='''
import (
	"testing"

	"trypo/core/nodes"
	kmrpc "trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	b, _ := node(t)
	for _, x := range []Addr{a, b} {
		kmrpc.KMeansClient(x.ToStr(), "n", nil).AddDataPoint(pt("a", 1, 0))
	}
	r := nodes.BestFitNodesFast(nodes.BestFitNodesArgs{
		AddrOpts: []Addr{a, b}, Namespace: "n", Vec: []float64{1, 0}, KNNSearchFunc: searchutils.KNNCos,
	})
	if len(r) != 2 {
		t.Fatal(r)
	}
}
'''),
dict(id='refusal-ends',property='N02',
 needs='a node that answers but refuses the datapoint, drawn before one that would take it',
 breaks='the put gives up at the first refusal',
 edits=[('core/dps/putdps.go','''		client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
		ok := client.AddDataPoint(dp)
		if ok {
			return true
		}''','''		var err error
		client := rpc.KMeansClient(addr.ToStr(), namespace, &err)
		ok := client.AddDataPoint(dp)
		// Only failures are worth another try.
		if ok || err == nil {
			return ok
		}''')],
 demo='''
import (
	"testing"

	"trypo/core/dps"
	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	b, _ := node(t)
	kmrpc.KMeansClient(a.ToStr(), "n", nil).AddDataPoint(pt("a", 1, 0, 0))
	for i := 0; i < 50; i++ {
		if !dps.PutDataPointRand(dps.PutDataPointArgs{AddrOptions: []Addr{a, b}, Namespace: "n", DataPoint: pt("a", 1, 0)}) {
			t.Fatal("put failed")
		}
	}
}
'''),
dict(id='equal-payloads-merged',property='N03',
 needs='different datapoints with the same payload',
 breaks='only one of them is handed out, and the others are lost if the lookup drains',
 edits=[('core/dps/getdps.go','''		res = append(res, dps...)
''','''		for _, d := range dps {
			dup := false
			for _, o := range res {
				dup = dup || string(o.Payload) == string(d.Payload)
			}
			if !dup {
				res = append(res, d)
			}
		}
''')],
 demo='''
import (
	"testing"

	"trypo/core/dps"
	kmrpc "trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	c := kmrpc.KMeansClient(a.ToStr(), "n", nil)
	c.AddDataPoint(pt("a", 1, 0))
	c.AddDataPoint(pt("a", 1, 1))
	r := dps.GetDataPointsFast(dps.GetDataPointsArgs{AddrOptions: []Addr{a}, Namespace: "n", QueryVec: []float64{1, 0}, N: 2, KNNSearchFunc: searchutils.KNNCos})
	if len(r) != 2 {
		t.Fatal(len(r))
	}
}
'''),
dict(id='clean-up-after-move',property='E01',
 needs='a put that arrives between the look at the emptied namespace and its clean-up',
 breaks='an acknowledged datapoint is dropped by the maintenance loop',
 edits=[('core/eventloop/eltask.go','''				client.DistributeDataPointsFast(addrs, n)

''','''				client.DistributeDataPointsFast(addrs, n)

				// Nothing is left, so clean up leftovers.
				if client.LenDP() == 0 {
					client.DrainUnordered(n)
				}
''')],
 demo='''
import (
	"testing"
	"time"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

type logger struct{}

func (l logger) LogMeta(eventloop.MetaData) {}
func (l logger) LogTask(string)             {}

func TestDemo(t *testing.T) {
	a, _ := node(t)
	x := 1000
	c := kmrpc.KMeansClient(a.ToStr(), "n", nil)
	c.AddDataPoint(pt("a", 1, 0))
	for i := 0; i < 4; i++ {
		stop := eventloop.EventLoop(&eventloop.EventLoopConfig{
			LocalAddr: a, RemoteAddrs: []Addr{a}, TimeoutLoop: time.Microsecond, TimeoutStep: time.Microsecond, L: logger{}, LogLocalOnly: true,
			TaskSkip:                  eventloop.EventLoopTaskSkipConfig{Expire: x, MemTrim: x, DistributeDataPointsFast: 1, DistributeDataPointsAccurate: x, DistributeDataPointsInternal: x, SplitCentroids: x, MergeCentroids: x, LoadBalancing: x, Meta: x},
			DistributeDataPointsFastN: 1,
		})
		defer stop()
	}
	// Whatever is stored can be taken out again, sooner or later.
	have := 1
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); {
		for tries := 0; have > 0; tries++ {
			have -= len(c.DrainUnordered(1))
			if tries > 3000 {
				t.Fatal("lost")
			}
		}
		if c.AddDataPoint(pt("a", 1, 0)) {
			have++
		}
	}
}
'''),
dict(id='empty-not-reported',property='E04',
 needs='a reachable node without any namespace',
 breaks='the report leaves the node out',
 edits=[('core/eventloop/eltask.go','''			metaData.Items[addr] = MetaDataItem{''','''			// Nothing to report.
			if len(meta.DPs) == 0 {
				continue
			}
			metaData.Items[addr] = MetaDataItem{''')],
 demo='''
import (
	"testing"
	"time"

	"trypo/core/eventloop"
)

type logger struct{ c chan eventloop.MetaData }

func (l logger) LogMeta(m eventloop.MetaData) {
	select {
	case l.c <- m:
	default:
	}
}
func (l logger) LogTask(string) {}

func TestDemo(t *testing.T) {
	a, _ := node(t)
	l := logger{make(chan eventloop.MetaData, 1)}
	stop := eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: a, RemoteAddrs: []Addr{a}, TimeoutLoop: time.Millisecond, L: l, LogLocalOnly: true})
	defer stop()
	if m := <-l.c; len(m.Items) != 1 {
		t.Fatal(m)
	}
}
'''),
dict(id='totals-add-up',property='E04',
 needs='the default logger with at least two nodes that hold datapoints',
 breaks='the total of a node includes those of the nodes printed before it',
 edits=[('core/eventloop/log.go','''		for _, addr := range l.globalAddrs {
''','''		dpLen := 0
		for _, addr := range l.globalAddrs {
'''),('core/eventloop/log.go','''			dpLen := 0
			for _, l''','''			for _, l''')],
 demo='''
import (
	"bytes"
	"log"
	"strings"
	"sync"
	"testing"
	"time"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

type buffer struct {
	sync.Mutex
	b bytes.Buffer
}

func (b *buffer) Write(p []byte) (int, error) {
	b.Lock()
	defer b.Unlock()
	return b.b.Write(p)
}

func TestDemo(t *testing.T) {
	a, _ := node(t)
	b, _ := node(t)
	for _, x := range []Addr{a, b} {
		kmrpc.KMeansClient(x.ToStr(), "n", nil).AddDataPoint(pt("a", 1, 0))
	}
	out := &buffer{}
	log.SetOutput(out)
	stop := eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: a, RemoteAddrs: []Addr{a, b}, TimeoutLoop: time.Millisecond,
		TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: 1, MemTrim: 1000, DistributeDataPointsFast: 1000, DistributeDataPointsAccurate: 1000, DistributeDataPointsInternal: 1000, SplitCentroids: 1000, MergeCentroids: 1000, LoadBalancing: 1000, Meta: 1}})
	time.Sleep(2 * time.Second)
	stop()
	time.Sleep(100 * time.Millisecond)
	out.Lock()
	defer out.Unlock()
	n := 0
	for _, l := range strings.Split(out.b.String(), "\\n") {
		if !strings.Contains(l, b.ToStr()+"]") || !strings.Contains(l, "dps:") {
			continue
		}
		n++
		if f := strings.Fields(l[strings.Index(l, "dps:")+4:]); f[0] != "1" {
			t.Fatal(l)
		}
	}
	if n == 0 {
		t.Fatal("nothing printed: " + out.b.String())
	}
}
'''),
dict(id='service-limit',property='S01',
 needs='the shipped program and more than a hundred datapoints in a namespace',
 breaks='groups are split at the initial capacity instead of the configured limit',
 edits=[('cmd/service/service.go','''			CentroidDPThreshold: cfg.KMEANS_CENTROID_DP_THRESHOLD,''','''			CentroidDPThreshold: cfg.KMEANS_INITCAP,''')],
 demo=SVC+'''
func TestDemo(t *testing.T) {
	service(t)
	c := kmrpc.KMeansClient("localhost:3500", "n", nil)
	for i := 0; i < 120; i++ {
		c.AddDataPoint(pt("a", 1, float64(i)))
	}
	if m := c.Meta(); m.Centroids["n"] != 1 || m.DPs["n"] != 120 {
		t.Fatal(m)
	}
}
'''),
dict(id='service-drains-best',property='S01',
 needs='the shipped program and an ordered drain',
 breaks='the members nearest to the centre are drained instead of the worst fitting ones',
 edits=[('cmd/service/service.go','''			KFNSearchFunc:       cfg.KFN_SEARCH_FUNC,''','''			KFNSearchFunc:       cfg.KNN_SEARCH_FUNC,''')],
 demo=SVC+'''
func TestDemo(t *testing.T) {
	service(t)
	c := kmrpc.KMeansClient("localhost:3500", "n", nil)
	c.AddDataPoint(pt("far", -1, 5))
	for i := 0; i < 20; i++ {
		c.AddDataPoint(pt("near", 5, 1))
	}
	if r := c.DrainOrdered(1); len(r) != 1 || string(r[0].Payload) != "far" {
		t.Fatal(names(r))
	}
}
'''),
dict(id='service-no-maintenance',property='S01',
 needs='the shipped program running for longer than one maintenance round',
 breaks='maintenance does not start before the API has ended, which is never',
 edits=[('cmd/service/service.go','''	eltStop := eventloop.EventLoop(&cfg.ELT)
	defer eltStop()

''',''),('cmd/service/service.go','''	// Will panic by itself if setup is shabby.
''',''),('cmd/service/service.go','''	if err != nil {
		panic(err)
	}
''','''	// Will panic by itself if setup is shabby.
	defer eventloop.EventLoop(&cfg.ELT)()
	if err != nil {
		panic(err)
	}
''')],
 demo=SVC+'''
func TestDemo(t *testing.T) {
	out := service(t)
	post(t, "/api/dp/put", `{"namespace":"n","dp":{"vec":[1,0]}}`)
	kmrpc.KMeansClient("localhost:3500", "n", nil).AddDataPoint(pt("a", 1, 0))
	for end := time.Now().Add(90 * time.Second); time.Now().Before(end); time.Sleep(time.Second) {
		if strings.Contains(out.String(), "dps:") {
			return
		}
	}
	t.Fatal(out.String())
}
'''),
]
