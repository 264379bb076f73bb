CEN='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'
SRV='pkg/kmeans/rpc/server.go'; CLI='pkg/kmeans/rpc/client.go'; RPC='pkg/kmeans/rpc/rpc.go'; SU='pkg/kmeans/rpc/serverutils.go'
KNN='pkg/searchutils/knn.go'; VT='pkg/mathutils/vectools.go'; DIST='pkg/mathutils/distance.go'; DP='pkg/kmeans/common/datapoint.go'
EL='core/eventloop/el.go'; ELT='core/eventloop/eltask.go'; ELU='core/eventloop/eltaskutils.go'; ECFG='core/eventloop/cfg.go'; LOG='core/eventloop/log.go'
API='core/api/api.go'; HND='core/api/handler.go'; CONV='core/api/conv.go'; GET='core/dps/getdps.go'; PUT='core/dps/putdps.go'; NV='core/nodes/vecs.go'; NN='core/nodes/nodes.go'
SVC='cmd/service/service.go'
TMO=(CLI,'''	defer client.Close()
	taskF(client)
''','''	defer client.Close()
	done := make(chan bool, 1)
	go func() {
		taskF(client)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		*c.err = errors.New("timeout")
	}
''')
IMP=(CLI,'''import (
''','''import (
	"errors"
	"time"
''')
TRIALS=[
('v-client-timeout-N02','N02',[IMP,TMO]),
('v-client-timeout-N03','N03',[IMP,TMO]),
('v-client-timeout-R07','R07',[IMP,TMO]),
('v-client-timeout-R08','R08',[IMP,TMO]),
('v-client-timeout-A01','A01',[IMP,TMO]),
('v-fetch-timeout','N01',[(NV,"""import "trypo/pkg/kmeans/rpc"
""","""import (
	"time"
	"trypo/pkg/kmeans/rpc"
)
"""),(NV,"""		data := <-f.ch
		if data.ok {
			r = append(r, data)
		}
""","""		select {
		case data := <-f.ch:
			if data.ok {
				r = append(r, data)
			}
		case <-time.After(time.Minute):
			return &r
		}
""")]),
('v-fetch-timeout-srv','R07',[(SU,"""package rpc
""","""package rpc

import "time"
"""),(SU,"""		data := <-f.ch
		if data.ok {
			r = append(r, data)
		}
""","""		select {
		case data := <-f.ch:
			if data.ok {
				r = append(r, data)
			}
		case <-time.After(time.Minute):
		}
""")]),
# undone repairs that overlap later ones
('v-revert-994acba','C04',[(CM,'''			cm.Centroids = append(cm.Centroids, newCentroid)
			cm.resetVec()
''','''			cm.Centroids = append(cm.Centroids, newCentroid)
'''),(CM,'''	cm.Centroids = append(cm.Centroids, newCentroids...)
	cm.resetVec()
''','''	cm.Centroids = append(cm.Centroids, newCentroids...)
''')]),
('v-revert-98013ca','R02',[(SRV,'''		if !centroidManager.AddDataPoint(args.DP) {
			return nil
		}
''','''		centroidManager.AddDataPoint(args.DP)
''')]),
('v-revert-fca9a24','R03',[(RPC,'''	if _, exists := t.slots[namespace]; exists {
		return false
	}
''','')]),
# unusual inputs
('v-payload-big','R01',[(SRV,'''func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
''','''func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
	if len(args.DP.Payload) > 4096 {
		args.DP.Payload = args.DP.Payload[:4096]
	}
''')]),
('v-many-targets','R07',[(SU,'''	ch := make(chan fetchVecsRes, len(addrs))
	for''','''	if len(addrs) > 4 {
		addrs = addrs[:4]
	}
	ch := make(chan fetchVecsRes, len(addrs))
	for''')]),
('v-ns-trim','R04',[(RPC,"""	t.Lock()
	slot, ok := t.slots[namespace]
""","""	t.Lock()
	namespace = strings.TrimSpace(namespace)
	slot, ok := t.slots[namespace]
"""),(RPC,"""	if _, exists := t.slots[namespace]; exists {
""","""	namespace = strings.TrimSpace(namespace)
	if _, exists := t.slots[namespace]; exists {
"""),(RPC,"""import (
""","""import (
	"strings"
""")]),
('v-ns-lower','R04',[(RPC,"""	t.Lock()
	slot, ok := t.slots[namespace]
""","""	t.Lock()
	namespace = strings.ToLower(namespace)
	slot, ok := t.slots[namespace]
"""),(RPC,"""	if _, exists := t.slots[namespace]; exists {
""","""	namespace = strings.ToLower(namespace)
	if _, exists := t.slots[namespace]; exists {
"""),(RPC,"""import (
""","""import (
	"strings"
""")]),
('v-ns-long','R04',[(CLI,"""		args := AddDataPointArgs{NameSpace: c.namespace, DP: dp}
""","""		ns := c.namespace
		if len(ns) > 64 {
			ns = ns[:64]
		}
		args := AddDataPointArgs{NameSpace: ns, DP: dp}
""")]),
('v-unroll-euc','C02',[(DIST,"""	for i := 0; i < len(v1); i++ {
		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
	}
""","""	i := 0
	for ; i+4 <= len(v1); i += 4 {
		a, b, c, d := v1[i]-v2[i], v1[i+1]-v2[i+1], v1[i+2]-v2[i+2], v1[i+3]-v2[i+3]
		r += a*a + b*b + c*c + b*d
	}
	for ; i < len(v1); i++ {
		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
	}
""")]),
('v-unroll-norm','C02',[(DIST,"""	var x float64
	for i := 0; i < len(vec); i++ {
""","""	var x float64
	i := 0
	for ; i+8 < len(vec); i += 8 {
		w := vec[i : i+8]
		x += w[0]*w[0] + w[1]*w[1] + w[2]*w[2] + w[3]*w[3] + w[4]*w[4] + w[5]*w[5] + w[6]*w[6]
	}
	for ; i < len(vec); i++ {
""")]),
('v-mean-fixed','C02',[(VT,"""		for i := 0; i < len(res); i++ {
			res[i] += vec[i]
		}
		n += 1
""","""		for i := 0; i < len(res) && i < 32; i++ {
			res[i] += vec[i]
		}
		n += 1
""")]),
('v-mean-many','C02',[(VT,"""		n += 1
	}
""","""		n += 1
		if n == 64 {
			break
		}
	}
""")]),
('v-sub-wide','C02',[(VT,"""		res[i] = a[i] - b[i]
""","""		res[i] = a[i] - b[i&15]
""")]),
('v-veceq-wide','C02',[(VT,"""	for i := 0; i < len(v1); i++ {
		if v1[i] != v2[i] {
""","""	for i := 0; i < len(v1) && i < 16; i++ {
		if v1[i] != v2[i] {
""")]),
('v-knn-float32','C01',[(KNN,"""		newSlot := &resultItem{i, score, true}
""","""		newSlot := &resultItem{i, float64(float32(score)), true}
""")]),
('v-expires-zero-flag','C08',[(DP,"""	return dp.ExpireEnabled && time.Now().After(dp.Expires)
""","""	return dp.ExpireEnabled && time.Now().Truncate(time.Second).After(dp.Expires)
""")]),
('v-get-cap','A01',[(HND,"""		N:             opts.N,
""","""		N:             opts.N & 0x3ff,
""")]),
('v-body-limit','A01',[(HND,"""ioutil.ReadAll(r.Body)""","""ioutil.ReadAll(http.MaxBytesReader(w, r.Body, 4096))""")]),
('v-put-copy-flag','A01',[(CONV,"""		ExpireEnabled: dp.ExpireEnabled,
	}
}

// conv []""","""		ExpireEnabled: dp.ExpireEnabled || !dp.Expires.IsZero(),
	}
}

// conv []""")]),
('v-el-loopvar','E01',[(ELT,"""			go rpc.KMeansClient(addr.ToStr(), namespace, nil).Expire()
""","""			if namespace != "" {
				go rpc.KMeansClient(addr.ToStr(), namespace, nil).Expire()
			}
""")]),
('v-el-empty-ns','E02',[(ELU,"""	if t.items == nil {
""","""	if namespace == "" {
		return
	}
	if t.items == nil {
""")]),
('v-el-many-ns','E02',[(ELT,"""	for _, ns := range namespaces {
		task(cfg.LocalAddr, ns)
	}
""","""	for i, ns := range namespaces {
		if i < 8 {
			task(cfg.LocalAddr, ns)
		}
	}
""")]),
('v-el-iter','E02',[(EL,"""cfg.internal.iter > 1000""","""cfg.internal.iter > 999""")]),
('v-balance-mean-zero','E03',[(ELT,"""					if transferDPN == 0 {""","""					if transferDPN <= 1 {""")]),
('v-balance-other','E03',[(ELT,"""				for _, dpLen := range addrsLens {
					dpTotal += dpLen
				}
""","""				for other, dpLen := range addrsLens {
					if dpLen > 0 || local.Comp(other) {
						dpTotal += dpLen
					}
				}
""")]),
('v-meta-after','E04',[(ELT,"""		for _, addr := range pullFrom {
			meta := rpc.KMeansClient(addr.ToStr(), "", nil).Meta()
""","""		for _, addr := range pullFrom {
			if _, done := metaData.Items[addr]; done || len(metaData.Items) > 3 {
				continue
			}
			meta := rpc.KMeansClient(addr.ToStr(), "", nil).Meta()
""")]),
('v-meta-nil','E04',[(ELT,"""			metaData.Items[addr] = MetaDataItem{
""","""			if meta.DPs == nil {
				continue
			}
			metaData.Items[addr] = MetaDataItem{
""")]),
('v-shuffle-first','N03',[('core/dps/dps.go',"""		j := rand.Intn(len(addrs))
		res[i], res[j] = res[j], res[i]
""","""		j := rand.Intn(len(addrs))
		if i+1 == len(addrs) && j == 0 {
			res[j] = res[i]
			continue
		}
		res[i], res[j] = res[j], res[i]
""")]),
('v-get-alias','N03',[(GET,"""		res = append(res, dps...)
""","""		if len(dps) > 0 && len(res) == 0 {
			res = dps
			continue
		}
		res = append(res, dps...)
""")]),
('v-nodes-k','N01',[(NN,"""len(args.AddrOpts)) {
""","""len(args.AddrOpts)&0xf) {
""")]),
('v-steal-loop','R08',[(SRV,"""			r.TransferredN += centroids[0].LenDP()
""","""			for _, c := range centroids {
				if r.TransferredN += c.LenDP(); r.TransferredN > 1<<6 {
					break
				}
			}
""")]),
('v-steal-self-vec','R08',[(SRV,"""		// Nothing to transfer, so there is no need for the namespace.
		if args.TransferDPLimit > 0 {
""","""		// Nothing to transfer, so there is no need for the namespace.
		if args.TransferDPLimit > 0 && clientErr != nil {
""")]),
('v-dist-putback-once','R07',[(SRV,"""		gen := rsl.intoVecGenerator()
		if !distributeDP(dp, gen, addrs, args.NameSpace) {
""","""		gen := rsl.intoVecGenerator()
		if len(addrs) == 0 || !distributeDP(dp, gen, addrs[:(len(addrs)+1)/2], args.NameSpace) {
""")]),
('v-split-shares','C09',[(CM,"""		if splitOK {
			newCentroids = append(newCentroids, newCentroid)
		}
""","""		if splitOK && newCentroid.LenDP() < 65 {
			newCentroids = append(newCentroids, newCentroid)
		}
""")]),
('v-lookup-k-huge','C06',[(CM,"""	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, len(cm.Centroids)) {
""","""	m := len(cm.Centroids)
	if k < 0x7fffffff && m > 2*k+8 {
		m = 2*k + 8
	}
	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, m) {
""")]),
('v-add-many-groups','C10',[(CM,"""	indexes := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)
	if len(indexes) == 0 {
		return false
	}
""","""	indexes := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)
	if len(indexes) == 0 {
		return false
	}
	if indexes[0] > 127 {
		indexes[0] = 0
	}
""")]),
('v-drain-big-group','C07',[(CEN,"""	for i := len(indexes) - 1; i > -1; i-- { // Backwards for removal safety.
		c.rmDataPoint(indexes[i])
	}
""","""	for i := len(indexes) - 1; i > -1; i-- { // Backwards for removal safety.
		c.rmDataPoint(indexes[i])
	}
	if len(res) > 16 && len(c.DataPoints) == 0 {
		c.AddDataPoint(res[len(res)-1])
		res = res[:len(res)-1]
	}
""")]),
]
