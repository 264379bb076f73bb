# Trial changes (no demonstration kept): id, property whose check should report it, edits.
# Run with trial.py. Property None: behaviour is kept, every check must stay quiet.
CEN='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'
SRV='pkg/kmeans/rpc/server.go'; CLI='pkg/kmeans/rpc/client.go'; RPC='pkg/kmeans/rpc/rpc.go'
KNN='pkg/searchutils/knn.go'; VT='pkg/mathutils/vectools.go'; EL='core/eventloop/el.go'; ELT='core/eventloop/eltask.go'; ELU='core/eventloop/eltaskutils.go'; ECFG='core/eventloop/cfg.go'
TRIALS=[
# --- C01
('t-knn-tie-drop','C01',[(KNN,'''		if (insertee.score > items[i].score || !items[i].set) && !ascending {''','''		if insertee.score == items[i].score && items[i].set && i == len(items)-1 && !ascending {
			*insertee = items[i]
		}
		if (insertee.score > items[i].score || !items[i].set) && !ascending {''')]),
('t-knn-big-k','C01',[(KNN,'''func bubble(insertee *resultItem, items []resultItem, ascending bool) {
''','''func bubble(insertee *resultItem, items []resultItem, ascending bool) {
	if len(items) > 16 && items[15].set && !ascending && items[15].score > insertee.score {
		items = items[17:]
	}
''')]),
('t-knn-exact-stop','C01',[(KNN,'''		// Evaluate inclusion of current vector.
''','''		// Can't get better than identical.
		if args.Ascending && score == 0 && args.K == 1 {
			return []int{i}
		}
		if !args.Ascending && score == 1 && args.K == 1 {
			return []int{i}
		}
		// Evaluate inclusion of current vector.
''')]), # furthest euclid with score 1 is wrong
# --- C02
('t-veceq-tolerance','C02',[(VT,'''		if v1[i] != v2[i] {''','''		if d := v1[i] - v2[i]; d > 1e-9 || d < -1e-9 {''')]),
('t-mean-skip-mismatch','C02',[(VT,'''		if len(vec) != len(res) {
			return res, false
		}''','''		if len(vec) < len(res) {
			return res, false
		}''')]),
('t-mean-alias','C02',[(VT,'''	res := make([]float64, len(vec))
	copy(res, vec)

	n := 1.''','''	res := vec

	n := 1.''')]),
('t-add-inplace','C02',[(VT,'''	res := make([]float64, len(a))
	for i := 0; i < len(a); i++ {
		res[i] = a[i] + b[i]
	}''','''	res := append(a[:0:len(a)], a...)
	for i := 0; i < len(a); i++ {
		res[i] += b[i]
	}''')]),
# --- C03
('t-rm-two-left','C03',[(CEN,'''	if len(c.DataPoints) > 1 { // guard 0 div error.''','''	if len(c.DataPoints) > 2 { // guard 0 div error.''')]),
('t-zero-vec-weight','C03',[(CEN,'''	c.vec = mathutils.VecMulScalar(c.vec, float64(len(c.DataPoints)))
	c.vec, _ = mathutils.VecAdd(c.vec, dp.Vec)
	c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints))+1)
''','''	if len(c.DataPoints) == 0 || !mathutils.VecEq(c.vec, make([]float64, len(c.vec))) {
		c.vec = mathutils.VecMulScalar(c.vec, float64(len(c.DataPoints)))
		c.vec, _ = mathutils.VecAdd(c.vec, dp.Vec)
		c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints))+1)
	}
''')]),
('t-running-mean-cap','C03',[(CEN,'''	c.vec = mathutils.VecMulScalar(c.vec, float64(len(c.DataPoints)))
	c.vec, _ = mathutils.VecAdd(c.vec, dp.Vec)
	c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints))+1)
''','''	n := float64(len(c.DataPoints))
	if n > 64 {
		n = 64
	}
	c.vec = mathutils.VecMulScalar(c.vec, n)
	c.vec, _ = mathutils.VecAdd(c.vec, dp.Vec)
	c.vec = mathutils.VecDivScalar(c.vec, n+1)
''')]),
# --- C04
('t-expire-emptied','C04',[(CM,'''		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())''','''		centroid.Expire()
		if centroid.LenDP() == 0 {
			continue
		}
		// Finalize internal vec update.
		updateVec(centroid.Vec())''')]),
('t-distribute-no-move','C04',[(CM,'''	cm.MoveVector()
}

// DistributeDataPoints uses''','''	if n > 1 {
		cm.MoveVector()
	}
}

// DistributeDataPoints uses''')]),
('t-add-after-empty','C04',[(CM,'''		cm.vec = c.Vec()
		return true''','''		if len(cm.vec) != len(c.Vec()) || mathutils.VecEq(cm.vec, make([]float64, len(cm.vec))) {
			cm.vec = c.Vec()
		}
		return true''')]),
('t-drain-unordered-last','C04',[(CM,'''		res = append(res, centroid.DrainUnordered(portion)...)
		// Finalize internal vec update.
		updateVec(centroid.Vec())
''','''		res = append(res, centroid.DrainUnordered(portion)...)
		// Finalize internal vec update.
		if len(res) < n {
			updateVec(centroid.Vec())
		}
''')]),
# --- C05
('t-lookup-surplus','C05',[(CM,'''centroid.KNNLookup(vec, k-len(res), drain) {''','''centroid.KNNLookup(vec, k, drain) {'''),(CM,'''			case len(res) >= k && drain:
				centroid.AddDataPoint(dp)
''','''			case len(res) >= k && drain:
				cm.Centroids[0].AddDataPoint(dp)
''')]),
('t-split-loses-tail','C05',[(CM,'''	for i := 0; i < len(dps); i++ {
		newCentroid.AddDataPoint(dps[i])''','''	for i := 0; i < len(dps) && newCentroid.LenDP() < trimN; i++ {
		if len(newCentroid.DataPoints) > 0 && mathutils.VecEq(dps[i].Vec, newCentroid.DataPoints[0].Vec) && string(dps[i].Payload) == string(newCentroid.DataPoints[0].Payload) {
			continue
		}
		newCentroid.AddDataPoint(dps[i])''')]),
('t-memtrim-cap','C05',[(CM,'''		if centroid.LenDP() != 0 {
			centroids = append(centroids, centroid)
		}''','''		if centroid.LenDP() != 0 && len(centroids) < cm.initCap {
			centroids = append(centroids, centroid)
		}''')]),
# --- C06
('t-empty-group-ends','C06',[(CM,'''		centroid := cm.Centroids[centroidIndex]
		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		for _, dp := range''','''		centroid := cm.Centroids[centroidIndex]
		if centroid.LenDP() == 0 {
			break
		}
		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		for _, dp := range''')]),
('t-lookup-drain-one-off','C06',[(CEN,'''		sort.Ints(indexes)
		for i := len(indexes) - 1; i > -1; i-- {
			c.rmDataPoint(indexes[i])
		}
	}
	return res''','''		sort.Ints(indexes)
		for i := len(indexes) - 1; i > -1; i-- {
			if indexes[i] < len(c.DataPoints) && !c.DataPoints[indexes[i]].ExpireEnabled {
				c.rmDataPoint(indexes[i])
			}
		}
	}
	return res''')]),
# --- C07
('t-ordered-centre-first','C07',[(CEN,'''	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
	for _, index := range indexes {
		res = append(res, c.DataPoints[index])
	}
	// Sorting because this method will remove datapoints at these indexes, and
	// having things out of order can cause a rugpull (c.DataPoints index shift).
	sort.Ints(indexes)
	for i := len(indexes) - 1; i > -1; i-- { // Backwards''','''	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
	if n >= len(c.DataPoints)/2 && n > 2 {
		indexes = c.knnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
	}
	for _, index := range indexes {
		res = append(res, c.DataPoints[index])
	}
	// Sorting because this method will remove datapoints at these indexes, and
	// having things out of order can cause a rugpull (c.DataPoints index shift).
	sort.Ints(indexes)
	for i := len(indexes) - 1; i > -1; i-- { // Backwards''')]),
('t-portions-uneven','C07',[(CM,'''			if centroid.LenDP() >= v+1 {
				portions[i] = v + 1
				assigned++
			}''','''			if left := centroid.LenDP() - v; left >= 1 {
				portions[i] = v + 1
				assigned++
				if left > 1 && assigned < n && n > 4 {
					portions[i] = v + 2
					assigned++
				}
			}''')]),
# --- C08
('t-expired-seconds','C08',[('pkg/kmeans/common/datapoint.go','''time.Now().After(dp.Expires)''','''!time.Now().Truncate(time.Second).Before(dp.Expires.Truncate(time.Second))''')]),
('t-expired-zero-time','C08',[('pkg/kmeans/common/datapoint.go','''dp.ExpireEnabled && time.Now''','''dp.ExpireEnabled && !dp.Expires.IsZero() && time.Now''')]),
('t-drain-last-expired','C08',[(CEN,'''		if !c.DataPoints[0].Expired() {
			res''','''		if len(c.DataPoints) == 1 || !c.DataPoints[0].Expired() {
			res''')]),
('t-expire-skip-next','C08',[(CEN,'''		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++''','''		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
		}
		i++''')]),
('t-manager-add-expired','C08',[(CM,'''	if dp.Expired() {
		return false
	}

	// Add first centroid.
	if len(cm.Centroids) == 0 {
		c := cm.newCentroid(dp.Vec)
		c.AddDataPoint(dp)''','''	// Add first centroid.
	if len(cm.Centroids) == 0 {
		c := cm.newCentroid(dp.Vec)
		c.DataPoints = append(c.DataPoints, dp)''')]),
# --- C09
('t-split-at-plus-one','C09',[(CM,'''	if centroid.LenDP() >= cm.centroidDPThreshold {''','''	if centroid.LenDP() > cm.centroidDPThreshold {''')]),
('t-split-third','C09',[(CM,'''cm.splitCentroid(i, centroid.LenDP()/2)''','''cm.splitCentroid(i, (centroid.LenDP()+1)/3+centroid.LenDP()/6)''')]),
('t-merge-furthest','C09',[(CM,'''		for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
			// Guard''','''		for _, centroidIndex := range cm.kfnSearchFunc(vec, gen, k) {
			// Guard''')]),
('t-merge-once','C09',[(CM,'''			if !merge(candidate) { // Check if satisfied.
				break
			}''','''			if !merge(candidate) || candidate.LenDP() > 1 { // Check if satisfied.
				break
			}''')]),
('t-trim-keeps-empty','C09',[(CM,'''		if centroid.LenDP() != 0 {
			centroids''','''		if centroid.LenDP() != 0 || len(centroids) == 0 {
			centroids''')]),
# --- C10
('t-nearest-order','C10',[(CM,'''	for _, index := range indexes {
		centroids = append(centroids, cm.Centroids[index])
	}
	if drain {
		sort.Ints(indexes)
''','''	if drain {
		sort.Ints(indexes)
	}
	for _, index := range indexes {
		centroids = append(centroids, cm.Centroids[index])
	}
	if drain {
''')]),
('t-add-smallest','C10',[(CM,'''	indexes := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)
	if len(indexes) == 0 {
		return false
	}

	// Try add''','''	indexes := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 2)
	if len(indexes) == 0 {
		return false
	}
	// Prefer a group without members.
	if len(indexes) == 2 && cm.Centroids[indexes[1]].LenDP() == 0 {
		indexes[0] = indexes[1]
	}

	// Try add''')]),
('t-receivers-cached','C10',[(CEN,'''		i++
		return receivers[i-1].Vec(), true
	}

	for j''','''		i++
		return vecs[i-1], true
	}

	for j'''),(CEN,'''	data := c.DrainOrdered(n)
	i := 0''','''	data := c.DrainOrdered(n)
	vecs := make([][]float64, len(receivers))
	for k, r := range receivers {
		vecs[k] = r.Vec()
	}
	i := 0''')]),
# --- C11
('t-mixed-dim-first','C11',[(CM,'''	if !centroid.AddDataPoint(dp) {
		return false
	}
''','''	if !centroid.AddDataPoint(dp) {
		cm.Centroids = append(cm.Centroids, cm.newCentroid(dp.Vec))
		return false
	}
'''),]),
('t-lookup-wrong-dim-expires','C11',[(CM,'''	gen := cm.centroidVecGenerator() // Brevity.
''','''	if len(vec) != len(cm.vec) {
		cm.Centroids = cm.Centroids[:0]
		return res
	}
	gen := cm.centroidVecGenerator() // Brevity.
''')]),
('t-steal-unknown-ns','C11',[(SRV,'''		if localVec == nil {
			return nil
		}
		cm := s''','''		cm := s''')]),
# --- R01
('t-stale-err','R01',[(CLI,'''		*c.err = rc.Call("KMeansServer.LenDP", c.namespace, &resp)''','''		if err := rc.Call("KMeansServer.LenDP", c.namespace, &resp); err != nil {
			*c.err = err
		}''')]),
('t-merge-range-inclusive','R01',[(SRV,'''		cm.MergeCentroids(func(c *Centroid) bool {
			return c.LenDP() > args.DPRangeMin &&''','''		cm.MergeCentroids(func(c *Centroid) bool {
			return c.LenDP() >= args.DPRangeMin &&''')]),
('t-meta-empty-ns','R01',[(SRV,'''			centroids[ns] = len(cm.Centroids)
			dps[ns] = cm.LenDP()''','''			if len(cm.Centroids) == 0 {
				return
			}
			centroids[ns] = len(cm.Centroids)
			dps[ns] = cm.LenDP()''')]),
('t-drain-swallow-err','R01',[(SRV,'''func (s *KMeansServer) DrainOrdered(args DrainArgs, resp *[]DataPoint) error {
	return s''','''func (s *KMeansServer) DrainOrdered(args DrainArgs, resp *[]DataPoint) error {
	if args.N == 0 {
		return nil
	}
	return s''')]),
# --- R02
('t-add-error-true','R02',[(CLI,'''		*c.err = rc.Call("KMeansServer.AddDataPoint", args, &resp)
	})

	return resp''','''		*c.err = rc.Call("KMeansServer.AddDataPoint", args, &resp)
	})

	return resp || (*c.err == nil && !dp.Expired() && len(dp.Vec) > 2)''')]),
# --- R03
('t-lookup-then-drain','R03',[(SRV,'''	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		*resp = cm.KNNLookup(args.Vec, args.K, args.Drain)
	})''','''	err := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		*resp = cm.KNNLookup(args.Vec, args.K, false)
	})
	if err == nil && args.Drain && len(*resp) > 0 {
		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
			cm.KNNLookup(args.Vec, len(*resp), true)
		})
	}
	return err''')]),
('t-trim-drops-ns','R03',[(SRV,'''		cm.MemTrim()
	})
}''','''		cm.MemTrim()
		if cm.LenDP() == 0 {
			s.Table.Lock()
			delete(s.Table.slots, namespace)
			s.Table.Unlock()
		}
	})
}''')]),
('t-drain-copy','R03',[(SRV,'''func (s *KMeansServer) DrainUnordered(args DrainArgs, resp *[]DataPoint) error {
	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		*resp = cm.DrainUnordered(args.N)
	})''','''func (s *KMeansServer) DrainUnordered(args DrainArgs, resp *[]DataPoint) error {
	n := 0
	if err := s.LenDP(args.NameSpace, &n); err != nil {
		return err
	}
	if n > args.N {
		n = args.N
	}
	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		*resp = cm.DrainUnordered(n)
	})''')]),
# --- R04
('t-ns-trim','R04',[(RPC,'''	t.Lock()
	slot, ok := t.slots[namespace]
	t.Unlock()

	if !ok {
		return false''','''	t.Lock()
	slot, ok := t.slots[namespace]
	if !ok {
		slot, ok = t.slots[strings.TrimSpace(namespace)]
	}
	t.Unlock()

	if !ok {
		return false'''),(RPC,'''	"net/rpc"
	"sync"
''','''	"net/rpc"
	"strings"
	"sync"
''')]),
('t-meta-holds-table','R04',[(SRV,'''		namespaces = append(namespaces, key)
	}
	s.Table.Unlock()

	centroids''','''		namespaces = append(namespaces, key)
	}
	defer s.Table.Unlock()

	centroids'''),(SRV,'''		s.Table.Access(ns, func(cm *CentroidManager) {
			centroids[ns]''','''		s.Table.slots[ns].Access(func(cm *CentroidManager) {
			centroids[ns]''')]),
# --- R05
('t-fetch-unbuffered','R05',[('pkg/kmeans/rpc/serverutils.go','''		data := <-f.ch
		if data.ok {''','''		data := <-f.ch
		if !data.ok {
			i--
		} else {''')]),
('t-slot-then-table','R05',[(SRV,'''	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {
		*resp = cm.MoveVector()
	})''','''	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {
		s.Table.Lock()
		defer s.Table.Unlock()
		*resp = cm.MoveVector()
	})'''),(SRV,'''		namespaces = append(namespaces, key)
	}
	s.Table.Unlock()

	centroids''','''		namespaces = append(namespaces, key)
	}
	defer s.Table.Unlock()

	centroids'''),(SRV,'''		s.Table.Access(ns, func(cm *CentroidManager) {
			centroids[ns]''','''		s.Table.slots[ns].Access(func(cm *CentroidManager) {
			centroids[ns]''')]),
('t-steal-locked','R05',[(SRV,'''		// Can be improved. One at a time for convenience + readability.
		centroids, cOK := client.NearestCentroids(localVec, 1, true)
''','''		// Can be improved. One at a time for convenience + readability.
		var centroids []*Centroid
		var cOK bool
		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
			centroids, cOK = client.NearestCentroids(cm.Vec(), 1, true)
		})
''')]),
# --- R06
('t-meta-late','R06',[(SRV,'''		s.Table.Access(ns, func(cm *CentroidManager) {
			centroids[ns] = len(cm.Centroids)
			dps[ns] = cm.LenDP()
		})''','''		var m *CentroidManager
		s.Table.Access(ns, func(cm *CentroidManager) {
			centroids[ns] = len(cm.Centroids)
			m = cm
		})
		dps[ns] = m.LenDP()''')]),
('t-drain-alias','R06',[(CEN,'''	res := make([]common.DataPoint, 0)
	for len(c.DataPoints) != 0 && len(res) < n {
''','''	if n >= len(c.DataPoints) {
		c.Expire()
		res := c.DataPoints
		c.DataPoints = c.DataPoints[:0]
		return res
	}
	res := make([]common.DataPoint, 0)
	for len(c.DataPoints) != 0 && len(res) < n {
''')]),
# --- R07
('t-accurate-once','R07',[(SRV,'''NearestCentroidVec(dp.Vec)''','''NearestCentroidVec(dps[0].Vec)''')]),
('t-distribute-first-only','R07',[(SRV,'''		if client.AddDataPoint(dp) {
			return true
		}
	}
	return false''','''		if client.AddDataPoint(dp) || *client.err == nil {
			return true
		}
	}
	return false''')]),
('t-fast-put-back-break','R07',[(SRV,'''		gen := rsl.intoVecGenerator()
		if !distributeDP(dp, gen, addrs, args.NameSpace) {
			// Put back into self so the dp isn't lost.
			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
				cm.AddDataPoint(dp)
			})
		}
	}
	return nil
}

// DistributeDataPointsAccurate''','''		gen := rsl.intoVecGenerator()
		if !distributeDP(dp, gen, addrs, args.NameSpace) {
			// Put back into self so the dp isn't lost.
			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
				cm.AddDataPoint(dp)
			})
			// No node takes anything.
			break
		}
	}
	return nil
}

// DistributeDataPointsAccurate''')]),
# --- R08
('t-steal-leq','R08',[(SRV,'''	for r.TransferredN < args.TransferDPLimit && clientErr''','''	for r.TransferredN <= args.TransferDPLimit && clientErr''')]),
('t-steal-ok-partial','R08',[(SRV,'''	r.OK = clientErr == nil
''','''	r.OK = clientErr == nil || r.TransferredN > 0
''')]),
('t-steal-two','R08',[(SRV,'''client.NearestCentroids(localVec, 1, true)''','''client.NearestCentroids(localVec, 2, true)''')]),
('t-steal-ns-gone','R08',[(SRV,'''			cm.Centroids = append(cm.Centroids, centroids...)
''','''			if len(cm.Centroids) > 0 && len(cm.Centroids[0].Vec()) != len(centroids[0].Vec()) {
				return
			}
			cm.Centroids = append(cm.Centroids, centroids...)
''')]),
# --- R09
('t-serve-inline','R09',[(RPC,'''			go handler.ServeConn(cxn)''','''			handler.ServeConn(cxn)''')]),
('t-stop-twice','R09',[(RPC,'''		ln.Close()
		if cxn''','''		if err := ln.Close(); err != nil {
			panic(err)
		}
		if cxn''')]),
# --- N01
('t-same-vec','N01',[('core/nodes/vecs.go','''		if data.ok {
			r = append(r, data)''','''		dup := false
		for _, o := range r {
			dup = dup || mathutils.VecEq(o.vec, data.vec)
		}
		if data.ok && !dup {
			r = append(r, data)'''),('core/nodes/vecs.go','''"trypo/pkg/kmeans/rpc"''','''"trypo/pkg/kmeans/rpc"
	"trypo/pkg/mathutils"''')]),
('t-accurate-fallback','N01',[('core/nodes/vecs.go','''		vec := client.NearestCentroidVec(qVec)
''','''		vec := client.NearestCentroidVec(qVec)
		if vec == nil {
			vec = client.Vec()
		}
''')]),
# --- N02
('t-refused-ends','N02',[('core/dps/putdps.go','''		client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
		ok := client.AddDataPoint(dp)
		if ok {
			return true
		}''','''		var err error
		client := rpc.KMeansClient(addr.ToStr(), namespace, &err)
		ok := client.AddDataPoint(dp)
		if ok || err == nil {
			return ok
		}''')]),
('t-retry-put','N02',[('core/dps/putdps.go','''		if ok {
			return true
		}''','''		if !ok && len(addrOpt) == 1 {
			ok = client.AddDataPoint(dp)
		}
		if ok && (len(addrOpt) == 1 || client.LenDP() > 0) {
			return true
		}''')]),
# --- N03
('t-empty-node-ends','N03',[('core/dps/getdps.go','''		res = append(res, dps...)
''','''		if len(dps) == 0 {
			break
		}
		res = append(res, dps...)
''')]),
('t-get-dup','N03',[('core/dps/getdps.go','''		res = append(res, dps...)
''','''		for _, d := range dps {
			dup := false
			for _, o := range res {
				dup = dup || string(o.Payload) == string(d.Payload)
			}
			if !dup {
				res = append(res, d)
			}
		}
''')]),
# --- A01
('t-n-zero-default','A01',[('core/api/handler.go','''	var resp []common.DataPoint
''','''	if args.N < 1 {
		args.N = 1
	}
	var resp []common.DataPoint
''')]),
('t-put-accurate-only','A01',[('core/api/handler.go','''	if !putOk {
		putOk = dps.PutDataPointRand(args)''','''	if !putOk && !opts.Accurate {
		putOk = dps.PutDataPointRand(args)''')]),
('t-expiry-utc','A01',[('core/api/conv.go','''		Expires:       dp.Expires,
		ExpireEnabled: dp.ExpireEnabled,
	}
}

// conv []''','''		Expires:       dp.Expires.Truncate(time.Second),
		ExpireEnabled: dp.ExpireEnabled,
	}
}

// conv []''')]),
('t-trailing-json','A01',[('core/api/handler.go','''	err := json.Unmarshal(body, targetOpt)
''','''	err := json.NewDecoder(bytes.NewReader(body)).Decode(targetOpt)
'''),('core/api/handler.go','''import (
''','''import (
	"bytes"
''')]),
# --- E01
('t-ns-table-mixed','E01',[(ELU,'''	slice = append(slice, addr)
	t.items[namespace] = slice
''','''	slice = append(slice, addr)
	t.items[namespace] = slice
	if len(t.items) > 1 {
		for k := range t.items {
			t.items[k] = slice
		}
	}
''')]),
('t-distribute-empty-ns','E01',[(ELT,'''				n := cfg.DistributeDataPointsFastN
				client.DistributeDataPointsFast(addrs, n)
''','''				n := cfg.DistributeDataPointsFastN
				client.DistributeDataPointsFast(addrs, n)
				if client.LenDP() == 0 {
					client.DrainUnordered(1)
				}
''')]),
# --- E02
('t-accurate-n','E02',[(ELT,'''				n := cfg.DistributeDataPointsAccurateN
''','''				n := cfg.DistributeDataPointsFastN
''')]),
('t-first-ns-only','E02',[(ELT,'''	for _, ns := range namespaces {
		task(cfg.LocalAddr, ns)
	}''','''	for _, ns := range namespaces {
		if ns == "" {
			break
		}
		task(cfg.LocalAddr, ns)
	}''')]),
('t-skip-offset','E02',[(ELT,'''	if cfg.internal.iter%interval == 0 {''','''	if (cfg.internal.iter+1)%interval == 0 || cfg.internal.iter == 0 {''')]),
# --- E03
('t-mean-all','E03',[(ELT,'''dpTotal / len(addrsLens)''','''dpTotal / len(cfg.RemoteAddrs)''')]),
('t-margin','E03',[(ELT,'''if otherLen-transferDPN < dpMean+margin && len(addrs) != 1 {''','''if otherLen < dpMean+margin && len(addrs) != 1 {''')]),
('t-transfer-third','E03',[(ELT,'''					transferDPN /= 3
''','''					transferDPN = (dpMean - addrsLens[local] + margin) / 2
''')]),
# --- B01
('t-status-any','B01',[('pkg/arbiter/arbiter.go','''		if status != sc {
			return false
		}
	}
	return true''','''		if status != sc && status != 0 {
			return false
		}
	}
	return true''')]),
('t-whitelist-local','B01',[('pkg/arbiter/arbiter.go','''		Whitelist:       cfg.Whitelist,
''','''		Whitelist:       append(cfg.Whitelist[:len(cfg.Whitelist):len(cfg.Whitelist)], cfg.LocalAddr),
''')]),
]
