CEN='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'
SRV='pkg/kmeans/rpc/server.go'; CLI='pkg/kmeans/rpc/client.go'; RPC='pkg/kmeans/rpc/rpc.go'
BUGS=[
dict(id='knn-index-shift',property='C01',
 needs='a pool in which a vector of another dimension precedes a matching one',
 breaks='the search returns indexes that point at other vectors than the nearest ones',
 edits=[('pkg/searchutils/knn.go','''		if err != nil {
			i++
			continue
		}''','''		if err != nil {
			// Not comparable.
			continue
		}''')],
 demo='''
import (
	"testing"

	"trypo/pkg/searchutils"
)

func TestDemo(t *testing.T) {
	pool := [][]float64{{1, 2, 3}, {9, 9}, {1, 1}}
	i := 0
	r := searchutils.KNNEuc([]float64{1, 1}, func() ([]float64, bool) {
		i++
		if i > len(pool) {
			return nil, false
		}
		return pool[i-1], true
	}, 1)
	if len(r) != 1 || r[0] != 2 {
		t.Fatal(r)
	}
}
'''),
dict(id='mul-alias',property='C02',
 needs='a scale factor of exactly one, and the input being changed later on',
 breaks='scaling hands out its input instead of a copy',
 edits=[('pkg/mathutils/vectools.go','''func VecMulScalar(vec []float64, scalar float64) []float64 {
''','''func VecMulScalar(vec []float64, scalar float64) []float64 {
	if scalar == 1 {
		return vec
	}
''')],
 demo='''
import (
	"testing"

	"trypo/pkg/mathutils"
)

func TestDemo(t *testing.T) {
	v := []float64{1, 2}
	w := mathutils.VecMulScalar(v, 1)
	w[0] = 7
	if v[0] != 1 {
		t.Fatal(v)
	}
}
'''),
dict(id='expired-keeps-weight',property='C03',
 needs='an unordered drain that comes across an expired member while others stay behind',
 breaks='the expired member still counts in the group centre',
 edits=[(CEN,'''		if !c.DataPoints[0].Expired() {
			res = append(res, c.DataPoints[0])
		}
		c.rmDataPoint(0)''','''		if c.DataPoints[0].Expired() {
			c.DataPoints = c.DataPoints[1:]
			continue
		}
		res = append(res, c.DataPoints[0])
		c.rmDataPoint(0)''')],
 demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := group(true, 0, 0)
	c.AddDataPoint(old("o", 9, 9))
	c.AddDataPoint(pt("a", 1, 1))
	c.AddDataPoint(pt("b", 3, 1))
	time.Sleep(100 * time.Millisecond)
	c.DrainUnordered(1)
	if !near(c.Vec(), mean(c.DataPoints)) {
		t.Fatal(c.Vec(), c.DataPoints)
	}
}
'''),
dict(id='lookup-stale-summary',property='C04',
 needs='a lookup without removal that meets an expired datapoint',
 breaks='the summary vector of the node keeps the centre the group had before',
 edits=[(CM,'''				break
			}
		}
		// Finalize internal vec update.
		updateVec(centroid.Vec())''','''				break
			}
		}
		// Finalize internal vec update, nothing has left otherwise.
		if drain {
			updateVec(centroid.Vec())
		}''')],
 demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	m := manager(true, 100, 0, 0)
	m.AddDataPoint(old("o", 9, 9))
	m.AddDataPoint(pt("a", 1, 1))
	m.AddDataPoint(pt("b", 3, 1))
	time.Sleep(100 * time.Millisecond)
	m.KNNLookup([]float64{1, 1}, 1, false)
	if !near(m.Vec(), m.Centroids[0].Vec()) {
		t.Fatal(m.Vec(), m.Centroids[0].Vec())
	}
}
'''),
dict(id='refused-is-lost',property='C05',
 needs='a receiver that is nearest to a datapoint and refuses it',
 breaks='the refused datapoint is gone',
 edits=[(CEN,'''		if len(indexes) == 0 || !receivers[indexes[0]].AddDataPoint(data[j]) {
			c.AddDataPoint(data[j])
		}''','''		if len(indexes) == 0 {
			c.AddDataPoint(data[j])
			continue
		}
		receivers[indexes[0]].AddDataPoint(data[j])''')],
 demo='''
import (
	"testing"

	"trypo/pkg/kmeans/common"
)

type full struct{}

func (full) Vec() []float64                      { return []float64{1, 1} }
func (full) AddDataPoint(dp common.DataPoint) bool { return false }

func TestDemo(t *testing.T) {
	c := group(true, 0, 0)
	c.AddDataPoint(pt("a", 1, 1))
	c.DistributeDataPoints(1, []common.DataPointReceiver{full{}})
	if c.LenDP() != 1 {
		t.Fatal(c.LenDP())
	}
}
'''),
dict(id='drain-order',property='C06',
 needs='a draining lookup whose nearest datapoint is stored behind a further one',
 breaks='the answer is ordered by storage place instead of by nearness',
 edits=[(CEN,'''	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
	for _, i := range indexes {
		res = append(res, c.DataPoints[i])
	}

	// Secondary loop because ints in indexes might not be ordered.
	if drain {
		// Sorting because this method will remove datapoints at these indexes, and
		// having things out of order can cause a rugpull (c.DataPoints index shift).
		sort.Ints(indexes)
''','''	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
	if drain {
		// Sorting because this method will remove datapoints at these indexes, and
		// having things out of order can cause a rugpull (c.DataPoints index shift).
		sort.Ints(indexes)
	}
	for _, i := range indexes {
		res = append(res, c.DataPoints[i])
	}

	if drain {
''')],
 demo='''
import "testing"

func TestDemo(t *testing.T) {
	c := group(true, 0, 0)
	c.AddDataPoint(pt("far", 5, 5))
	c.AddDataPoint(pt("near", 1, 1))
	if s := names(c.KNNLookup([]float64{1, 1}, 2, true)); s != "near far " {
		t.Fatal(s)
	}
}
'''),
dict(id='portions-overshoot',property='C07',
 needs='a drain of fewer datapoints than there are groups with datapoints',
 breaks='the drain takes more datapoints than asked for',
 edits=[(CM,'''				assigned++
			}
			// Optimal case.
			if assigned >= n {
				return portions
			}
		}''','''				assigned++
			}
		}
		// Optimal case.
		if assigned >= n {
			return portions
		}''')],
 demo='''
import "testing"

func TestDemo(t *testing.T) {
	m := manager(true, 100, 0, 0)
	for i := 0; i < 3; i++ {
		c := group(true, float64(i), 0)
		c.AddDataPoint(pt("a", float64(i), 0))
		c.AddDataPoint(pt("b", float64(i), 1))
		m.Centroids = append(m.Centroids, c)
	}
	m.MoveVector()
	if r := m.DrainUnordered(2); len(r) != 2 {
		t.Fatal(names(r))
	}
}
'''),
dict(id='expired-pair',property='C08',
 needs='two expired datapoints stored next to each other when a group is searched',
 breaks='the second one is handed out although it has expired',
 edits=[(CEN,'''		for i < len(c.DataPoints) && c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
		}''','''		if i < len(c.DataPoints) && c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
		}''')],
 demo='''
import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := group(true, 0, 0)
	c.AddDataPoint(old("o1", 1, 1))
	c.AddDataPoint(old("o2", 1, 1))
	c.AddDataPoint(pt("a", 1, 1))
	time.Sleep(100 * time.Millisecond)
	if s := names(c.KNNLookup([]float64{1, 1}, 3, false)); s != "a " {
		t.Fatal(s)
	}
}
'''),
dict(id='merge-into-deleted',property='C05',
 needs='three or more groups, and a merge condition that holds for emptied groups too but not for a merged one',
 breaks='datapoints are merged into a group that is thrown away afterwards',
 edits=[(CM,'''		if !merge(candidate) || delMarks[i] {
			continue
		}''','''		if !merge(candidate) {
			continue
		}''')],
 demo='''
import "testing"

func TestDemo(t *testing.T) {
	m := manager(true, 100, 0, 0)
	for i := 0; i < 4; i++ {
		c := group(true, float64(i), 0)
		c.AddDataPoint(pt("a", float64(i), 0))
		m.Centroids = append(m.Centroids, c)
	}
	m.MoveVector()
	m.MergeCentroids(func(c *C) bool { return c.LenDP() < 2 })
	if m.LenDP() != 4 {
		t.Fatal(m.LenDP())
	}
}
'''),
dict(id='generator-reset',property='C10',
 needs='distributing two or more datapoints at once',
 breaks='all but the first datapoint stay behind instead of going to the nearest receiver',
 edits=[(CEN,'''		i = 0 // Reset generator.
		indexes := c.knnSearchFunc(data[j].Vec, generator, 1)''','''		indexes := c.knnSearchFunc(data[j].Vec, generator, 1)''')],
 demo='''
import (
	"testing"

	"trypo/pkg/kmeans/common"
)

func TestDemo(t *testing.T) {
	c, d := group(true, 0, 0), group(true, 5, 5)
	c.AddDataPoint(pt("a", 5, 5))
	c.AddDataPoint(pt("b", 6, 5))
	c.DistributeDataPoints(2, []common.DataPointReceiver{d})
	if d.LenDP() != 2 {
		t.Fatal(c.LenDP(), d.LenDP())
	}
}
'''),
dict(id='longer-vector',property='C11',
 needs='a datapoint with more dimensions than the group it is offered to',
 breaks='the group takes it and loses its centre',
 edits=[(CEN,'''	if len(dp.Vec) != len(c.vec) || dp.Expired() {''','''	if len(dp.Vec) < len(c.vec) || dp.Expired() {''')],
 demo='''
import "testing"

func TestDemo(t *testing.T) {
	c := group(true, 1, 1)
	if c.AddDataPoint(pt("a", 1, 1, 1)) || len(c.Vec()) != 2 {
		t.Fatal(c.Vec())
	}
}
'''),
dict(id='remote-centre',property='R01',
 needs='fetching a group with two or more different members from a node',
 breaks='the fetched group reports its first member as centre',
 edits=[(CLI,'''		newCentroid.DataPoints = dps
		newCentroid.MoveVector()
''','''		newCentroid.DataPoints = dps
''')],
 demo='''
import (
	"testing"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	cl := kmrpc.KMeansClient(a.ToStr(), "n", nil)
	cl.AddDataPoint(pt("a", 1, 0))
	cl.AddDataPoint(pt("b", 1, 1))
	cs, ok := cl.NearestCentroids([]float64{1, 0}, 1, false)
	if !ok || !near(cs[0].Vec(), mean(cs[0].DataPoints)) {
		t.Fatal(ok, cs)
	}
}
'''),
dict(id='ack-refused',property='R02',
 needs='a put that the node answers but refuses',
 breaks='the client reports a refused put as stored',
 edits=[(CLI,'''		*c.err = rc.Call("KMeansServer.AddDataPoint", args, &resp)
	})
''','''		*c.err = rc.Call("KMeansServer.AddDataPoint", args, &resp)
		resp = *c.err == nil
	})
''')],
 demo='''
import (
	"testing"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	cl := kmrpc.KMeansClient(a.ToStr(), "n", nil)
	cl.AddDataPoint(pt("a", 1, 0))
	if cl.AddDataPoint(pt("b", 1, 1, 1)) && cl.LenDP() != 2 {
		t.Fatal("refused put acknowledged")
	}
}
'''),
dict(id='unlocked-table',property='R06',
 needs='one request reading the namespace table while another adds a namespace',
 breaks='the table is read without its lock',
 edits=[(RPC,'''	t.Lock()
	slot, ok := t.slots[namespace]
	t.Unlock()
''','''	slot, ok := t.slots[namespace]
	if !ok {
		return false
	}
	t.Lock()
	slot, ok = t.slots[namespace]
	t.Unlock()
''')],
 race=True,
 demo='''
import (
	"fmt"
	"sync"
	"testing"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	_, s := node(t)
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				var ok bool
				s.AddDataPoint(kmrpc.AddDataPointArgs{NameSpace: fmt.Sprint(k, "-", i), DP: pt("a", 1, 0)}, &ok)
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id='table-lock-held',property='R04',
 needs='a request that takes long in one namespace while another namespace is used',
 breaks='a namespace has to wait for the requests of another one',
 edits=[(RPC,'''	t.Lock()
	slot, ok := t.slots[namespace]
	t.Unlock()
''','''	t.Lock()
	defer t.Unlock()
	slot, ok := t.slots[namespace]
''')],
 demo='''
import (
	"testing"
	"time"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, s := node(t)
	kmrpc.KMeansClient(a.ToStr(), "n", nil).AddDataPoint(pt("a", 1, 0))
	kmrpc.KMeansClient(a.ToStr(), "m", nil).AddDataPoint(pt("a", 1, 0))
	in, out := make(chan bool), make(chan bool)
	go s.Table.Access("n", func(*CM) { close(in); <-out })
	<-in
	defer close(out)
	within(t, 10*time.Second, func() { kmrpc.KMeansClient(a.ToStr(), "m", nil).LenDP() })
}
'''),
dict(id='locked-distribution',property='R05',
 needs='a node that is among its own distribution targets, as the event loop always configures it',
 breaks='the node waits for itself forever',
 edits=[(SRV,'''	addrs := rsl.intoAddrs()
	for _, dp := range dps {
		gen := rsl.intoVecGenerator()
		if !distributeDP(dp, gen, addrs, args.NameSpace) {
			// Put back into self so the dp isn't lost.
			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
				cm.AddDataPoint(dp)
			})
		}
	}
	return nil''','''	addrs := rsl.intoAddrs()
	// One access for the whole batch.
	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
		for _, dp := range dps {
			gen := rsl.intoVecGenerator()
			if !distributeDP(dp, gen, addrs, args.NameSpace) {
				// Put back into self so the dp isn't lost.
				cm.AddDataPoint(dp)
			}
		}
	})
	return nil''')],
 demo='''
import (
	"testing"
	"time"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	cl := kmrpc.KMeansClient(a.ToStr(), "n", nil)
	cl.AddDataPoint(pt("a", 1, 0))
	within(t, 10*time.Second, func() { cl.DistributeDataPointsFast([]string{a.ToStr()}, 1) })
}
'''),
dict(id='nobody-answers',property='R07',
 needs='an accurate distribution during which none of the targets can be asked for its nearest group',
 breaks='the drained datapoints are lost',
 edits=[(SRV,'''		rsl := rch.collect() // collect the chan.
		gen := rsl.intoVecGenerator()

		addrs := rsl.intoAddrs()
''','''		rsl := rch.collect() // collect the chan.
		if len(*rsl) == 0 {
			continue
		}
		gen := rsl.intoVecGenerator()

		addrs := rsl.intoAddrs()
''')],
 demo='''
import (
	"testing"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	cl := kmrpc.KMeansClient(a.ToStr(), "n", nil)
	cl.AddDataPoint(pt("a", 1, 0))
	cl.DistributeDataPointsAccurate([]string{"127.0.0.1:1"}, 1)
	if cl.LenDP() != 1 {
		t.Fatal("lost")
	}
}
'''),
dict(id='steal-count',property='R08',
 needs='taking two or more groups at once',
 breaks='only the last group is counted, so more than asked for is taken and too little reported',
 edits=[(SRV,'''			r.TransferredN += centroids[0].LenDP()''','''			r.TransferredN = centroids[0].LenDP()''')],
 demo='''
import (
	"testing"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, s := node(t)
	b, _ := node(t)
	ca, cb := kmrpc.KMeansClient(a.ToStr(), "n", nil), kmrpc.KMeansClient(b.ToStr(), "n", nil)
	ca.AddDataPoint(pt("a", 1, 0))
	s.Table.Access("n", func(m *CM) {
		for i := 0; i < 4; i++ {
			c := group(false, 1, float64(i))
			c.AddDataPoint(pt("b", 1, float64(i)))
			m.Centroids = append(m.Centroids, c)
		}
		m.MoveVector()
	})
	n, ok := cb.StealCentroids(a.ToStr(), 2)
	if !ok || n != cb.LenDP() || n != 2 {
		t.Fatal(n, ok, cb.LenDP())
	}
}
'''),
dict(id='few-connections',property='R09',
 needs='more than 24 connections being open at the same time',
 breaks='a running node leaves further clients without any answer',
 edits=[(RPC,'''	go func() {
		for {
			cxn, err := ln.Accept()''','''	// Bounds the number of goroutines.
	sem := make(chan struct{}, 24)
	go func() {
		for {
			sem <- struct{}{}
			cxn, err := ln.Accept()'''),(RPC,'''			go handler.ServeConn(cxn)''','''			go func() {
				handler.ServeConn(cxn)
				<-sem
			}()''')],
 demo='''
import (
	"net/rpc"
	"testing"
	"time"

	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	for i := 0; i < 30; i++ {
		c, err := rpc.Dial("tcp", a.ToStr())
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
	}
	time.Sleep(50 * time.Millisecond)
	within(t, 10*time.Second, func() { kmrpc.KMeansClient(a.ToStr(), "m", nil).Namespaces() })
}
'''),
dict(id='first-failure-ends',property='N01',
 needs='a node that cannot be reached and fails before others have answered',
 breaks='nodes that answer after the first failure are left out of the ranking',
 edits=[('core/nodes/vecs.go','''		if data.ok {
			r = append(r, data)
		}''','''		if !data.ok {
			break
		}
		r = append(r, data)''')],
 demo='''
import (
	"testing"

	"trypo/core/nodes"
	kmrpc "trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	kmrpc.KMeansClient(a.ToStr(), "n", nil).AddDataPoint(pt("a", 1, 0))
	for i := 0; i < 500; i++ {
		r := nodes.BestFitNodesFast(nodes.BestFitNodesArgs{
			AddrOpts:  []Addr{{IP: "127.0.0.1", Port: "1"}, a},
			Namespace: "n", Vec: []float64{1, 0}, KNNSearchFunc: searchutils.KNNCos,
		})
		if len(r) != 1 {
			t.Fatal(r)
		}
	}
}
'''),
dict(id='shuffle-repeats',property='N02',
 needs='random draws that pick the same node twice, the only accepting node not being drawn',
 breaks='a put fails although a node would have taken it',
 edits=[('core/dps/dps.go','''		res[i], res[j] = res[j], res[i]''','''		res[i] = addrs[j]''')],
 demo='''
import (
	"testing"

	"trypo/core/dps"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	for i := 0; i < 50; i++ {
		ok := dps.PutDataPointRand(dps.PutDataPointArgs{
			AddrOptions: []Addr{{IP: "127.0.0.1", Port: "1"}, a},
			Namespace:   "n", DataPoint: pt("a", 1, 0),
		})
		if !ok {
			t.Fatal("put failed")
		}
	}
}
'''),
dict(id='surplus-drained',property='N03',
 needs='a draining query that needs several nodes and fills up before the last one is used up',
 breaks='surplus datapoints are removed from the nodes but not handed out',
 edits=[('core/dps/getdps.go','''		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
		res = append(res, dps...)
''','''		dps := client.KNNLookup(args.queryVec, args.n, args.drain)
		for i := 0; i < len(dps) && len(res) < args.n; i++ {
			res = append(res, dps[i])
		}
''')],
 demo='''
import (
	"testing"

	"trypo/core/dps"
	kmrpc "trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	b, _ := node(t)
	ca, cb := kmrpc.KMeansClient(a.ToStr(), "n", nil), kmrpc.KMeansClient(b.ToStr(), "n", nil)
	for i := 0; i < 2; i++ {
		ca.AddDataPoint(pt("a", 1, 0))
		cb.AddDataPoint(pt("b", 1, 1))
	}
	r := dps.GetDataPointsFast(dps.GetDataPointsArgs{AddrOptions: []Addr{a, b}, Namespace: "n", QueryVec: []float64{1, 0}, N: 3, Drain: true, KNNSearchFunc: searchutils.KNNCos})
	if len(r)+ca.LenDP()+cb.LenDP() != 4 {
		t.Fatal(len(r), ca.LenDP(), cb.LenDP())
	}
}
'''),
dict(id='null-answer',property='A01',
 needs='a query without any match',
 breaks='the answer is null instead of an empty list',
 edits=[('core/api/handler.go','''	if resp != nil {
''','''	if len(resp) > 0 {
''')],
 demo='''
import (
	"io"
	"net/http"
	"strings"
	"testing"
	"time"

	"trypo/core/api"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	w, _ := node(t)
	w.Port += "" // a port in use would fail, so take the next one
	p := Addr{IP: "127.0.0.2", Port: w.Port}
	go api.Start(api.APIConfig{Addr: p, ReadTimeout: time.Second, WriteTimeout: time.Second, RPCAddrs: []Addr{a}})
	for i := 0; i < 100; i++ {
		r, err := http.Post("http://"+p.ToStr()+"/api/dp/query", "application/json", strings.NewReader(`{"namespace":"n","queryVec":[1,0],"n":1}`))
		if err != nil {
			time.Sleep(50 * time.Millisecond)
			continue
		}
		b, _ := io.ReadAll(r.Body)
		if strings.TrimSpace(string(b)) != "[]" {
			t.Fatalf("%s", b)
		}
		return
	}
	t.Fatal("no answer")
}
'''),
dict(id='expired-put-lives',property='A01',
 needs='a put over HTTP whose expiry has passed already',
 breaks='the datapoint is stored for good instead of being refused',
 edits=[('core/api/conv.go','''func (dp *DP) toDataPoint() common.DataPoint {
	return common.DataPoint{
		Vec:           dp.Vec,
		Payload:       dp.Payload,
		Expires:       dp.Expires,
		ExpireEnabled: dp.ExpireEnabled,
	}''','''func (dp *DP) toDataPoint() common.DataPoint {
	return common.DataPoint{
		Vec:           dp.Vec,
		Payload:       dp.Payload,
		Expires:       dp.Expires,
		ExpireEnabled: dp.ExpireEnabled && time.Now().Before(dp.Expires),
	}''')],
 demo='''
import (
	"net/http"
	"strings"
	"testing"
	"time"

	"trypo/core/api"
	kmrpc "trypo/pkg/kmeans/rpc"
)

func TestDemo(t *testing.T) {
	a, _ := node(t)
	w, _ := node(t)
	p := Addr{IP: "127.0.0.2", Port: w.Port}
	go api.Start(api.APIConfig{Addr: p, ReadTimeout: time.Second, WriteTimeout: time.Second, RPCAddrs: []Addr{a}})
	for i := 0; i < 100; i++ {
		r, err := http.Post("http://"+p.ToStr()+"/api/dp/put", "application/json", strings.NewReader(`{"namespace":"n","dp":{"vec":[1,0],"expires":"2020-01-01T00:00:00Z","expireEnabled":true}}`))
		if err != nil {
			time.Sleep(50 * time.Millisecond)
			continue
		}
		if r.StatusCode == 200 || kmrpc.KMeansClient(a.ToStr(), "n", nil).LenDP() != 0 {
			t.Fatal(r.Status)
		}
		return
	}
	t.Fatal("no answer")
}
'''),
dict(id='short-cycle',property='E02',
 needs='a task that is configured to run less often than every hundredth round',
 breaks='such tasks all run every 101 rounds',
 edits=[('core/eventloop/el.go','''			if cfg.internal.iter > 1000 {''','''			if cfg.internal.iter > 100 {''')],
 demo='''
import (
	"testing"
	"time"

	"trypo/core/eventloop"
)

type logger struct{ n chan time.Time }

func (l logger) LogMeta(eventloop.MetaData) { l.n <- time.Now() }
func (l logger) LogTask(string)             {}

func TestDemo(t *testing.T) {
	a, _ := node(t)
	l := logger{make(chan time.Time, 100)}
	x := 1000
	stop := eventloop.EventLoop(&eventloop.EventLoopConfig{
		LocalAddr: a, RemoteAddrs: []Addr{a}, TimeoutLoop: 5 * time.Millisecond, L: l, LogLocalOnly: true,
		TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: x, MemTrim: x, DistributeDataPointsFast: x, DistributeDataPointsAccurate: x, DistributeDataPointsInternal: x, SplitCentroids: x, MergeCentroids: x, LoadBalancing: x, Meta: 600},
	})
	// A round takes at least 5 ms, so two runs are at least 3 s apart.
	time.Sleep(2500 * time.Millisecond)
	stop()
	if len(l.n) > 1 {
		t.Fatal(len(l.n))
	}
}
'''),
dict(id='balance-no-account',property='E03',
 needs='two nodes that are both clearly fuller than the local one',
 breaks='the second pull ignores what the first one brought',
 edits=[('core/eventloop/eltask.go','''					addrsLens[local] = addrsLens[local] + n
''','''''')],
 demo='''
import (
	"testing"
	"time"

	"trypo/core/eventloop"
	kmrpc "trypo/pkg/kmeans/rpc"
)

type logger struct{}

func (l logger) LogMeta(eventloop.MetaData) {}
func (l logger) LogTask(string)             {}

func TestDemo(t *testing.T) {
	var as []Addr
	for i := 0; i < 4; i++ {
		a, _ := node(t)
		as = append(as, a)
		n := []int{1, 60, 60, 1}[i]
		for k := 0; k < n; k++ {
			kmrpc.KMeansClient(a.ToStr(), "n", nil).AddDataPoint(pt("x", 1, float64(k)))
		}
	}
	stop := eventloop.EventLoop(&eventloop.EventLoopConfig{
		LocalAddr: as[0], RemoteAddrs: as, TimeoutLoop: time.Millisecond, TimeoutStep: time.Millisecond, L: logger{}, LogLocalOnly: true,
		TaskSkip: eventloop.EventLoopTaskSkipConfig{Expire: 1000, MemTrim: 1000, DistributeDataPointsFast: 1000, DistributeDataPointsAccurate: 1000, DistributeDataPointsInternal: 1000, SplitCentroids: 1000, MergeCentroids: 1000, LoadBalancing: 1, Meta: 1000},
	})
	time.Sleep(1500 * time.Millisecond)
	stop()
	// After the first pull the local node is fuller than the average.
	if n := kmrpc.KMeansClient(as[0].ToStr(), "n", nil).LenDP(); n > 100 {
		t.Fatal(n)
	}
}
'''),
dict(id='durations-swapped',property='B01',
 needs='an arbiter that is looked at after the shorter of the two durations',
 breaks='the arbiter is valid for the duration of a session and the other way round',
 edits=[('pkg/arbiter/arbiter.go','''		SessionDuration: cfg.SessionDuration,
		ArbiterDuration: cfg.ArbiterDuration,
	}

	return''','''		SessionDuration: cfg.ArbiterDuration,
		ArbiterDuration: cfg.SessionDuration,
	}

	return''')],
 demo='''
import (
	"testing"
	"time"

	"trypo/pkg/arbiter"
)

func TestDemo(t *testing.T) {
	a := Addr{IP: "127.0.0.1", Port: "9"}
	m := arbiter.NewSessionMember(arbiter.NewSessionMemberConfig{LocalAddr: a, Whitelist: []Addr{a}, SessionDuration: time.Second, ArbiterDuration: time.Hour})
	m.InitSession("x", []Addr{a})
	m.CollectVotes("x", []Addr{a})
	d, _ := m.Arbiter()
	if time.Until(d.Expiration) < time.Minute {
		t.Fatal(d.Expiration)
	}
}
'''),
]
