CEN='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'
SRV='pkg/kmeans/rpc/server.go'; CLI='pkg/kmeans/rpc/client.go'; RPC='pkg/kmeans/rpc/rpc.go'
KNN='pkg/searchutils/knn.go'; VT='pkg/mathutils/vectools.go'; EL='core/eventloop/el.go'; ELT='core/eventloop/eltask.go'; ELU='core/eventloop/eltaskutils.go'; ECFG='core/eventloop/cfg.go'; LOG='core/eventloop/log.go'
SVC='cmd/service/service.go'
TRIALS=[
# Again, as another property or repaired.
('u-ns-table-mixed','E02',[(ELU,'''	slice = append(slice, addr)
	t.items[namespace] = slice
''','''	slice = append(slice, addr)
	t.items[namespace] = slice
	if len(t.items) > 1 {
		for k := range t.items {
			t.items[k] = slice
		}
	}
''')]),
('u-steal-unknown-ns','R08',[(SRV,'''		if args.TransferDPLimit > 0 {
			cm''','''		{
			cm''')]),
('u-drain-alias','C05',[(CEN,'''	res := make([]common.DataPoint, 0)
	for len(c.DataPoints) != 0 && len(res) < n {
''','''	if n >= len(c.DataPoints) {
		c.Expire()
		res := c.DataPoints
		c.DataPoints = c.DataPoints[:0]
		return res
	}
	res := make([]common.DataPoint, 0)
	for len(c.DataPoints) != 0 && len(res) < n {
''')]),
# S01
('u-svc-timeouts','S01',[(SVC,'''		WriteTimeout: time.Second * 5,''','''		WriteTimeout: time.Millisecond * 5,''')]),
('u-svc-first-addr','S01',[(SVC,'''		RPCAddrs:     cfg.OtherAddrRPC,''','''		RPCAddrs:     cfg.OtherAddrRPC[:1],''')]),
('u-svc-stop','S01',[(SVC,'''	defer eltStop()
''','''	eltStop()
''')]),
('u-svc-rpcstop','S01',[(SVC,'''	defer rpcStop()

''',''),(SVC,'''	defer eltStop()
''','''	defer eltStop()
	go func() {
		time.Sleep(time.Hour)
		rpcStop()
	}()
''')]),
('u-svc-shared-cm','S01',[(SVC,'''		cm, ok := centroidmanager.NewCentroidManager(args)
''','''		args.InitVec = vec[:len(vec):len(vec)]
		if len(vec) == 3 {
			args.CentroidDPThreshold = 2
		}
		cm, ok := centroidmanager.NewCentroidManager(args)
''')]),
('u-svc-elt-copy','S01',[(SVC,'''	eltStop := eventloop.EventLoop(&cfg.ELT)
''','''	elt := cfg.ELT
	elt.RemoteAddrs = elt.RemoteAddrs[1:]
	eltStop := eventloop.EventLoop(&elt)
''')]),
('u-svc-expire-cfg','S01',[(SVC,'''	eltStop := eventloop.EventLoop(&cfg.ELT)
''','''	elt := cfg.ELT
	elt.TaskSkip.Expire, elt.TaskSkip.MemTrim = 1001, 1001
	eltStop := eventloop.EventLoop(&elt)
''')]),
# E04
('u-log-centroids','E04',[(LOG,'''m.Items[addr].LenCentroids {''' if False else '''range l.metaData.Items[addr].LenCentroids {''','''range l.metaData.Items[l.localAddr].LenCentroids {''')]),
('u-log-nslen','E04',[(LOG,'''			nsLen := len(l.metaData.Items[addr].LenDP)
''','''			nsLen := 0
			for _, n := range l.metaData.Items[addr].LenDP {
				if n > 0 {
					nsLen++
				}
			}
''')]),
('u-log-local','E04',[(LOG,'''if l.localOnly && !addr''','''if !addr''')]),
('u-log-stale','E04',[(LOG,'''func (l *defaultLogger) LogMeta(m MetaData) { l.metaData = m }''','''func (l *defaultLogger) LogMeta(m MetaData) {
	if len(m.Items) >= len(l.metaData.Items) {
		for k, v := range l.metaData.Items {
			if len(m.Items[k].LenDP) == 0 {
				m.Items[k] = v
			}
		}
	}
	l.metaData = m
}''')]),
('u-log-task-twice','E04',[(LOG,'''			if addr.Comp(l.localAddr) {''','''			if addr.Port == l.localAddr.Port || addr.Comp(l.localAddr) || l.localOnly == false && len(l.globalAddrs) == 1 {''')]), # equivalent unless ports repeat
('u-meta-local-first','E04',[(ELT,'''			pullFrom = append(pullFrom, cfg.RemoteAddrs...)
''','''			pullFrom = append(pullFrom, cfg.RemoteAddrs...)
			for i := range pullFrom {
				if i > 0 && pullFrom[i].IP == pullFrom[i-1].IP {
					pullFrom[i] = pullFrom[i]
				}
			}
			pullFrom = pullFrom[:len(pullFrom):len(pullFrom)]
			if len(pullFrom) > 2 {
				pullFrom = pullFrom[1:]
			}
''')]),
('u-meta-swap','E04',[(SRV,'''			centroids[ns] = len(cm.Centroids)
			dps[ns] = cm.LenDP()''','''			centroids[ns] = cm.LenDP()
			if len(cm.Centroids) < 3 {
				centroids[ns] = len(cm.Centroids)
			}
			dps[ns] = cm.LenDP()''')]),
('u-meta-shared-map','E04',[(ELT,'''				LenDP:        meta.DPs,
''','''				LenDP:        addrDPs(meta.DPs, metaData.Items[cfg.LocalAddr].LenDP),
'''),(ELT,'''func eltMeta(''','''func addrDPs(own, local map[string]int) map[string]int {
	for k := range own {
		if n, ok := local[k]; ok && n == 0 {
			own[k] = 0
		}
	}
	return own
}

func eltMeta(''')]),
('u-task-log-late','E04',[(ELT,'''			cfg.L.LogTask(fmt.Sprintf("(ns '%v') merging", namespace))

			client''','''			if namespace != "" {
				cfg.L.LogTask(fmt.Sprintf("(ns '%v') merging", namespace))
			}

			client''')]),
('u-task-log-cond','E04',[(ELT,'''					cfg.L.LogTask(s)
''','''					if n > 0 {
						cfg.L.LogTask(s)
					}
''')]),
# Various
('u-loop-wrap','E02',[(EL,'''			if cfg.internal.iter > 1000 {''','''			if cfg.internal.iter >= 1000 {''')]),
('u-step-recheck','E02',[(EL,'''	// Neat in case timeout is long.
	if cfg.isStopped() {
		return
	}
''','')]),
('u-clamp-max','E02',[(ECFG,'''	cfg.TaskSkip.clamp(1, 1000)''','''	cfg.TaskSkip.clamp(1, 500)''')]),
('u-balance-margin-int','E03',[(ELT,'''int(float64(dpMean) * 0.4)''','''int(float64(dpMean)*0.4 + 0.5)''')]),
('u-balance-only','E03',[(ELT,'''dpMean+margin && len(addrs) != 1 {''','''dpMean+margin && len(addrsLens) > 2 {''')]),
('u-balance-self','E03',[(ELT,'''if local.Comp(other) || addrsLens[local] > dpMean {''','''if addrsLens[local] > dpMean {''')]),
('u-fetch-len-err','E03',[(ELU,'''		if r.ok {
			res[r.addr] = r.DPLen
		}''','''		if r.ok && r.DPLen > 0 {
			res[r.addr] = r.DPLen
		}''')]),
('u-filter-nil','R01',[(CLI,'''		*c.err = rc.Call("KMeansServer.MergeCentroids"''','''		rc.Call("KMeansServer.MergeCentroids"''')]),
('u-access-unlock-early','R03',[(RPC,'''	slot.Access(f)
	return true''','''	slot.Access(func(*CentroidManager) {})
	f(slot.cManager)
	return true''')]),
('u-rpc-default-cm','R02',[(SRV,'''		if !centroidManager.AddDataPoint(args.DP) {
			return nil
		}
''','''		if len(args.DP.Vec) == 0 || !centroidManager.AddDataPoint(args.DP) {
			return nil
		}
''')]),
('u-nodes-err-local','N01',[('core/nodes/vecs.go','''		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		return vec, err == nil && vec != nil''','''		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		return vec, err == nil && len(vec) > 0 && vec[0] != 0''')]),
('u-shuffle-short','N02',[('core/dps/dps.go','''res[i], res[j] = res[j], res[i]''','''res[i], res[j] = res[j], res[(i+j)%len(res)]''')]),
('u-get-order','N03',[('core/dps/getdps.go','''args.n-len(res)''','''(args.n-len(res)+1)/2''')]),
('u-whitelist-len','B01',[('pkg/arbiter/arbiter.go','''		Whitelist:       cfg.Whitelist,
''','''		Whitelist:       cfg.Whitelist[:len(cfg.Whitelist):len(cfg.Whitelist)][max(0, len(cfg.Whitelist)-3):],
''')]),
]
