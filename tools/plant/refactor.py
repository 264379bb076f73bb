# Changes that keep the behaviour: every check must stay quiet on each of them.
CEN='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'
SRV='pkg/kmeans/rpc/server.go'; CLI='pkg/kmeans/rpc/client.go'; RPC='pkg/kmeans/rpc/rpc.go'; SU='pkg/kmeans/rpc/serverutils.go'
KNN='pkg/searchutils/knn.go'; VT='pkg/mathutils/vectools.go'; EL='core/eventloop/el.go'; ELT='core/eventloop/eltask.go'; ELU='core/eventloop/eltaskutils.go'; ECFG='core/eventloop/cfg.go'; LOG='core/eventloop/log.go'
SVC='cmd/service/service.go'
ALL=[
(CEN,'''	for len(c.DataPoints) != 0 && len(res) < n {
		if !c.DataPoints[0].Expired() {
			res = append(res, c.DataPoints[0])
		}
		c.rmDataPoint(0)
	}
	return res''','''	for len(res) < n {
		if len(c.DataPoints) == 0 {
			break
		}
		first := c.DataPoints[0]
		c.rmDataPoint(0)
		if first.Expired() {
			continue
		}
		res = append(res, first)
	}
	return res'''),
(CEN,'''	i := 0
	for i < len(c.DataPoints) {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
	}
''','''	for i := len(c.DataPoints) - 1; i >= 0; i-- {
		if dp := c.DataPoints[i]; dp.Expired() {
			c.rmDataPoint(i)
		}
	}
'''),
(CEN,'''	dps := make([]common.DataPoint, 0)
	// Using''','''	c.Expire()
	c.DataPoints = append(make([]common.DataPoint, 0, len(c.DataPoints)), c.DataPoints...)
	c.MoveVector()
}

func (c *Centroid) oldMemTrim() {
	dps := make([]common.DataPoint, 0)
	// Using'''),
(CM,'''	gen := cm.centroidVecGenerator() // Brevity.
	// All''','''	// All'''),
(CM,'''	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, len(cm.Centroids)) {
		if len(res) >= k {
			break
		}
''','''	order := cm.knnSearchFunc(vec, cm.centroidVecGenerator(), len(cm.Centroids))
	for i := 0; i < len(order) && len(res) < k; i++ {
		centroidIndex := order[i]
'''),
(CM,'''		for _, dp := range centroid.KNNLookup(vec, k-len(res), drain) {
			switch {
			// Keep adding to res until requirement is met.
			case len(res) < k:
				res = append(res, dp)

			// Requirement met and drain is on, so the dps iterated over
			// in this loop have to be added somewhere (back into centroid).
			case len(res) >= k && drain:
				centroid.AddDataPoint(dp)

			// Requirement met and drain is off, so no dps will be lost
			// if a break is done here.
			case len(res) >= k && !drain:
				break
			}
		}
''','''		res = append(res, centroid.KNNLookup(vec, k-len(res), drain)...)
'''),
(CM,'''		// Finalize internal vec update for 'candidate' centroid.
		updateVecCandidate(candidate.Vec())
	}
''','''	}
'''),
(CM,'''		// Prep for internal vec update for 'candidate' centroid.
		updateVecCandidate := cm.prepVecUpdate(vec)

''',''),
(CM,'''	for i := len(cm.Centroids) - 1; i > -1; i-- {
		if delMarks[i] {
			// This should always be true, due to how this func works at the
			// time of writing, but doing a bounds check juuust in case:
			if len(cm.Centroids) > 0 {
				// Need this, it changes the internal vector appropriately
				// when deleting a centroid:
				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[i].Vec())
				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
			}
			// Delete.
			cm.Centroids = append(cm.Centroids[:i], cm.Centroids[i+1:]...)
		}
	}
''','''	var kept []*centroid.Centroid
	for i, c := range cm.Centroids {
		if !delMarks[i] {
			kept = append(kept, c)
		}
	}
	cm.Centroids = kept
'''),
(CM,'''		// Will not be included in new centroids slice, so effectively deleted.
		// In this case, the internal vec must be updated a bit differently
		// than what cm.prepVecUpdate does. Note bounds check.
		if centroid.LenDP() == 1 && len(cm.Centroids) > 1 {
			cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
			cm.vec, _ = mathutils.VecSub(cm.vec, centroid.Vec())
			cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
		}
''',''),
(CM,'''	for _, centroid := range cm.Centroids {
		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())
	}
''','''	for _, centroid := range cm.Centroids {
		centroid.Expire()
	}
	cm.resetVec()
'''),
(CM,'''	if dp.Expired() {
		return false
	}

	// Add first''','''	if expired := dp.Expired(); expired {
		return false
	}
	return cm.add(dp)
}

func (cm *CentroidManager) add(dp common.DataPoint) bool {
	// Add first'''),
(CM,'''	// Potential centroid split.
	if centroid.LenDP() >= cm.centroidDPThreshold {
		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)
		if splitOK {
			cm.Centroids = append(cm.Centroids, newCentroid)
			cm.resetVec()
		}
	}
	return true
}
''','''	cm.splitIfFull(indexes[0])
	return true
}

func (cm *CentroidManager) splitIfFull(index int) {
	if cm.Centroids[index].LenDP() < cm.centroidDPThreshold {
		return
	}
	newCentroid, splitOK := cm.splitCentroid(index, cm.centroidDPThreshold/2)
	if !splitOK {
		return
	}
	cm.Centroids = append(cm.Centroids, newCentroid)
	cm.resetVec()
}
'''),
(CM,'''		for i, centroid := range cm.Centroids {
			v, _ := portions[i]
''','''		for i := range cm.Centroids {
			centroid, v := cm.Centroids[i], portions[i]
'''),
(SRV,'''	s.Table.Lock()
	defer s.Table.Unlock()

	r := make([]string, 0, len(s.Table.slots))
	for key := range s.Table.slots {
		r = append(r, key)
	}
	*resp = r
	return nil''','''	*resp = s.Table.Namespaces()
	return nil'''),
(SRV,'''	s.Table.Lock()
	namespaces := make([]string, 0, len(s.Table.slots))
	for key := range s.Table.slots {
		namespaces = append(namespaces, key)
	}
	s.Table.Unlock()

	centroids''','''	namespaces := s.Table.Namespaces()
	sort.Strings(namespaces)

	centroids'''),
(SRV,'''import (
''','''import (
	"sort"
'''),
(SRV,'''	(*resp).Centroids = centroids
	(*resp).DPs = dps

	return nil''','''	*resp = MetaResp{centroids, dps}
	return nil'''),
(SRV,'''	addrs := rsl.intoAddrs()
	for _, dp := range dps {
		gen := rsl.intoVecGenerator()
		if !distributeDP(dp, gen, addrs, args.NameSpace) {
			// Put back into self so the dp isn't lost.
			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
				cm.AddDataPoint(dp)
			})
		}
	}
	return nil
}

// DistributeDataPointsAccurate''','''	for i := range dps {
		s.send(dps[i], rsl, args.NameSpace)
	}
	return nil
}

func (s *KMeansServer) send(dp DataPoint, rsl *fetchVecsResSlice, namespace string) {
	if distributeDP(dp, rsl.intoVecGenerator(), rsl.intoAddrs(), namespace) {
		return
	}
	// Put back into self so the dp isn't lost.
	s.Table.Access(namespace, func(cm *CentroidManager) {
		cm.AddDataPoint(dp)
	})
}

// DistributeDataPointsAccurate'''),
(SRV,'''		gen := rsl.intoVecGenerator()

		addrs := rsl.intoAddrs()
		if !distributeDP(dp, gen, addrs, args.NameSpace) {
			// Put back into self so the dp isn't lost.
			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
				cm.AddDataPoint(dp)
			})
		}
''','''		s.send(dp, rsl, args.NameSpace)
'''),
(SRV,'''	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
''','''	for clientErr == nil {
		if r.TransferredN >= args.TransferDPLimit {
			break
		}
'''),
(RPC,'''	go func() {
		for {
			cxn, err := ln.Accept()
			if err != nil {
				break
			}
			conn.Store(cxn)
			go handler.ServeConn(cxn)
		}
	}()
	return stop, nil''','''	go acceptAll(ln, handler, &conn)
	return stop, nil
}

func acceptAll(ln net.Listener, handler *rpc.Server, last *atomic.Value) {
	cxn, err := ln.Accept()
	for ; err == nil; cxn, err = ln.Accept() {
		last.Store(cxn)
		go handler.ServeConn(cxn)
	}'''),
(RPC,'''	t.Lock()
	slot, ok := t.slots[namespace]
	t.Unlock()

	if !ok {
		return false
	}
	slot.Access(f)
	return true''','''	if slot := t.slot(namespace); slot != nil {
		slot.Access(f)
		return true
	}
	return false'''),
(RPC,'''// AddSlot safely''','''func (t *CManagerTable) slot(namespace string) *CManagerSlot {
	t.Lock()
	defer t.Unlock()
	return t.slots[namespace]
}

// AddSlot safely'''),
(CLI,'''	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer.Vec", c.namespace, &resp)
	})

	return resp''','''	c.call("Vec", c.namespace, &resp)
	return resp'''),
(CLI,'''	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer.LenDP", c.namespace, &resp)
	})

	return resp''','''	c.call("LenDP", c.namespace, &resp)
	return resp'''),
(CLI,'''		args := AddDataPointArgs{NameSpace: c.namespace, DP: dp}
		*c.err = rc.Call("KMeansServer.AddDataPoint", args, &resp)
	})
''','''		call := rc.Go("KMeansServer.AddDataPoint", AddDataPointArgs{NameSpace: c.namespace, DP: dp}, &resp, nil)
		*c.err = (<-call.Done).Error
	})
'''),
(CLI,'''// Namespaces fetches''','''func (c *kmeansClient) call(method string, args, resp interface{}) {
	conn, err := net.Dial("tcp", c.remoteAddr)
	if err != nil {
		*c.err = err
		return
	}
	client := rpc.NewClient(conn)
	err = client.Call("KMeansServer."+method, args, resp)
	client.Close()
	*c.err = err
}

// Namespaces fetches'''),
(CLI,'''import (
''','''import (
	"net"
'''),
(CLI,'''	for i := 0; i < len(resp); i++ {
		if resp[i] == nil || resp[i].LenDP() == 0 {
			resp = append(resp[:i], resp[i+1:]...)
			i--
		}
	}
''','''	all := resp
	resp = make([]*Centroid, 0, len(all))
	for _, r := range all {
		if r != nil && r.LenDP() != 0 {
			resp = append(resp, r)
		}
	}
'''),
(SU,'''	r := make(fetchVecsResSlice, 0, f.chlen)
	for i := 0; i < f.chlen; i++ {
		data := <-f.ch
		if data.ok {
			r = append(r, data)
		}
	}
	return &r''','''	var r fetchVecsResSlice
	for left := f.chlen; left > 0; left-- {
		select {
		case data := <-f.ch:
			if !data.ok {
				continue
			}
			r = append(r, data)
		}
	}
	return &r'''),
('core/nodes/vecs.go','''	ch := make(chan fetchVecsRes, len(addrs))
	for _, addr := range addrs {
		go func(addr Addr) {
			vec, ok := fetchFunc(addr)
			ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}
		}(addr)
	}
	return &fetchVecsChan{ch: ch, chlen: len(addrs)}''','''	res := make([]fetchVecsRes, len(addrs))
	var wg sync.WaitGroup
	wg.Add(len(addrs))
	for i := range addrs {
		go func(i int) {
			defer wg.Done()
			vec, ok := fetchFunc(addrs[i])
			res[i] = fetchVecsRes{vec: vec, addr: addrs[i], ok: ok}
		}(i)
	}
	wg.Wait()
	ch := make(chan fetchVecsRes, len(addrs))
	for _, r := range res {
		ch <- r
	}
	return &fetchVecsChan{ch: ch, chlen: len(addrs)}'''),
('core/nodes/vecs.go','''import "trypo/pkg/kmeans/rpc"
''','''import (
	"sync"

	"trypo/pkg/kmeans/rpc"
)
'''),
('core/dps/dps.go','''	for i := 0; i < len(addrs); i++ {
		rand.Seed(time.Now().UnixNano())
		j := rand.Intn(len(addrs))
		res[i], res[j] = res[j], res[i]
	}
''','''	r := rand.New(rand.NewSource(time.Now().UnixNano()))
	r.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
'''),
('core/dps/getdps.go','''	for _, addr := range args.addrOpts {
		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
		res = append(res, dps...)
		if len(res) >= args.n {
			break
		}
	}
	return res''','''	for i := range args.addrOpts {
		want := args.n - len(res)
		if i > 0 && want <= 0 {
			break
		}
		client := rpc.KMeansClient(args.addrOpts[i].ToStr(), args.namespace, nil)
		res = append(res, client.KNNLookup(args.queryVec, want, args.drain)...)
	}
	return res'''),
('core/dps/putdps.go','''		client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
		ok := client.AddDataPoint(dp)
		if ok {
			return true
		}
	}
	return false''','''		if rpc.KMeansClient(addr.ToStr(), namespace, nil).AddDataPoint(dp) {
			return true
		}
	}
	return false'''),
('core/api/handler.go','''	for k, v := range routes {
		http.Handle(k, http.HandlerFunc(v))
		fmt''','''	for k, v := range routes {
		mux.HandleFunc(k, v)
		fmt'''),
('core/api/handler.go','''func (h *handler) setRoutes() {''','''func (h *handler) setRoutes(mux *http.ServeMux) {'''),
('core/api/handler.go','''	switch putOk {
	case true:
		w.WriteHeader(http.StatusOK)
	case false:
		w.WriteHeader(http.StatusInternalServerError)
	}''','''	if !putOk {
		http.Error(w, "not stored", http.StatusInternalServerError)
		return
	}
	w.WriteHeader(http.StatusOK)'''),
('core/api/handler.go','''	b, _ := json.Marshal(respConv)
	w.WriteHeader(http.StatusOK)
	w.Write(b)''','''	w.Header().Set("Content-Type", "application/json")
	json.NewEncoder(w).Encode(respConv)'''),
('core/api/handler.go','''	var respConv []DP
	if resp != nil {
		respConv = DataPointsToDPs(resp)
	}
''','''	respConv := DataPointsToDPs(resp)
'''),
('core/api/api.go','''	h.setRoutes()

	s := http.Server{
''','''	mux := http.NewServeMux()
	h.setRoutes(mux)

	s := http.Server{
		Handler:      mux,
'''),
(EL,'''			elStep(cfg, eltMeta)

			elStep(cfg, eltExpire)
			elStep(cfg, eltMemTrim)

			elStep(cfg, eltMergeCentroids)
			elStep(cfg, eltSplitCentroids)

			elStep(cfg, eltDistributeDataPointsInternal)
			elStep(cfg, eltDistributeDataPointsFast)
			elStep(cfg, eltDistributeDataPointsAccurate)

			elStep(cfg, eltLoadBalancing)
''','''			for _, task := range tasks {
				elStep(cfg, task)
			}
'''),
(EL,'''func EventLoop(cfg''','''var tasks = []func(*EventLoopConfig){
	eltMeta,
	eltExpire,
	eltMemTrim,
	eltMergeCentroids,
	eltSplitCentroids,
	eltDistributeDataPointsInternal,
	eltDistributeDataPointsFast,
	eltDistributeDataPointsAccurate,
	eltLoadBalancing,
}

func EventLoop(cfg'''),
(EL,'''			cfg.internal.iter++
			if cfg.internal.iter > 1000 {
				cfg.internal.iter = 0
			}''','''			cfg.internal.iter = (cfg.internal.iter + 1) % 1001'''),
(EL,'''	time.Sleep(cfg.TimeoutStep)
''','''	<-time.After(cfg.TimeoutStep)
'''),
(ELU,'''	ch := make(chan nodeDPLen, len(addrs))
	for _, addr := range addrs {
		go func(addr Addr) {''','''	ch := make(chan nodeDPLen)
	for i := range addrs {
		addr := addrs[i]
		go func() {'''),
(ELU,'''		}(addr)
	}

	// Collect''','''		}()
	}

	// Collect'''),
(ELT,'''	for _, ns := range namespaces {
		task(cfg.LocalAddr, ns)
	}''','''	sort.Strings(namespaces)
	for i := 0; i < len(namespaces); i++ {
		task(cfg.LocalAddr, namespaces[i])
	}'''),
(ELT,'''import (
''','''import (
	"sort"
'''),
(ELT,'''					if local.Comp(other) || addrsLens[local] > dpMean {
						continue
					}

					// No point in getting any data if local is above average.
					if addrsLens[local] > dpMean-margin {
						continue
					}
''','''					if local.Comp(other) {
						continue
					}

					// No point in getting any data if local is above average.
					if addrsLens[local]+margin > dpMean {
						continue
					}
'''),
(LOG,'''			// Collect total amount of dps in the node (for all namespaces).
			dpLen := 0
			for _, l := range l.metaData.Items[addr].LenDP {
				dpLen += l
			}
''','''			dpLen := sum(l.metaData.Items[addr].LenDP)
'''),
(LOG,'''func (l *defaultLogger) LogMeta''','''func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func (l *defaultLogger) LogMeta'''),
(SVC,'''	// Used for spawning CentroidManager instances by the rpc node,
	cmSpawner := func(vec''','''	// RPC node spawn.
	rpcNode := rpc.NewKMeansServer(cfg.LocalAddrRPC.ToStr(), spawn)
	run(rpcNode)
}

// Used for spawning CentroidManager instances by the rpc node,
func spawn(vec'''),
(SVC,'''		return &cm
	}

	// RPC node spawn.
	rpcNode := rpc.NewKMeansServer(cfg.LocalAddrRPC.ToStr(), cmSpawner)
''','''		return &cm
}

func run(rpcNode *rpc.KMeansServer) {
'''),
(KNN,'''		if err != nil {
			i++
			continue
		}
		if len(res) < args.K {
			res = append(res, resultItem{score: similarity})
		}
		// Evaluate inclusion of current vector.
		newSlot := &resultItem{i, score, true}
		if args.Ascending && score < similarity {
			bubble(newSlot, res, true)
		}
		if !args.Ascending && score > similarity {
			bubble(newSlot, res, false)
		}
		i++''','''		at := i
		i++
		if err != nil {
			continue
		}
		if len(res) < args.K {
			res = append(res, resultItem{score: similarity})
		}
		// Evaluate inclusion of current vector.
		if args.Ascending && score < similarity || !args.Ascending && score > similarity {
			bubble(&resultItem{at, score, true}, res, args.Ascending)
		}'''),
]
# The same with a plain lock instead of the two-level locks' order, and without goroutines.
SEQ=[
(ELU,'''		go func(addr Addr) {''','''		func(addr Addr) {'''),
(SU,'''		go func(addr string) {''','''		func(addr string) {'''),
('core/nodes/vecs.go','''		go func(addr Addr) {''','''		func(addr Addr) {'''),
(ELT,'''			go rpc.KMeansClient(addr.ToStr(), namespace, nil).Expire()''','''			client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
			done := make(chan bool)
			go func() { client.Expire(); close(done) }()'''),
(RPC,'''type CManagerTable struct {
	slots map[string]*CManagerSlot
	sync.Mutex''','''type CManagerTable struct {
	slots map[string]*CManagerSlot
	sync.RWMutex'''),
(RPC,'''	t.Lock()
	slot, ok := t.slots[namespace]
	t.Unlock()
''','''	t.RLock()
	slot, ok := t.slots[namespace]
	t.RUnlock()
'''),
]
# Package-level state that does not show: a pool of scratch space, a table, a counter of requests.
POOL=[
(KNN,'''	var res []resultItem
''','''	buf := scratch.Get().(*[]resultItem)
	res := (*buf)[:0]
	defer func() { *buf = res; scratch.Put(buf) }()
'''),
(KNN,'''import (
	"math"
''','''import (
	"math"
	"sync"
'''),
(KNN,'''// Internal type for tracking''','''var scratch = sync.Pool{New: func() interface{} { return new([]resultItem) }}

// Internal type for tracking'''),
(RPC,'''	slots map[string]*CManagerSlot
	sync.Mutex''','''	slots map[string]*CManagerSlot
	sync.Mutex
	// Amount of accesses, for statistics.
	accesses uint64'''),
(RPC,'''	slot, ok := t.slots[namespace]
	t.Unlock()
''','''	slot, ok := t.slots[namespace]
	t.accesses++
	t.Unlock()
'''),
(CEN,'''// addDataPoint''','''var added, addedOnce = map[string]int{}, 0

// addDataPoint'''),
(CLI,'''import (''','''import (
	"sync/atomic"
'''),
]
TRIALS=[('r-all',None,ALL),('r-seq',None,SEQ),('r-pool',None,[e for e in POOL if e[0] in (KNN,RPC)])]
