CEN='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'
SRV='pkg/kmeans/rpc/server.go'; CLI='pkg/kmeans/rpc/client.go'; RPC='pkg/kmeans/rpc/rpc.go'; SU='pkg/kmeans/rpc/serverutils.go'
EL='core/eventloop/el.go'; ELT='core/eventloop/eltask.go'; ELU='core/eventloop/eltaskutils.go'
TRIALS=[
('y-no-close','R09',[(CLI,'''	defer client.Close()
''','''''')]),
('y-put-race-ok','R02',[(SRV,'''		*resp = s.Table.addSlotIfAbsent(args.NameSpace, &slot)
		// Another request created the namespace meanwhile, so add the dp there.
		if !*resp {''','''		*resp = true
		// Another request created the namespace meanwhile, so add the dp there.
		if !s.Table.addSlotIfAbsent(args.NameSpace, &slot) {
			*resp = false''')]),
('y-last-slot','R04',[(RPC,'''	slots map[string]*CManagerSlot
	sync.Mutex
}''','''	slots map[string]*CManagerSlot
	sync.Mutex
	// Most requests in a row are for the same namespace.
	last     *CManagerSlot
	lastName string
}'''),(RPC,'''	slot, ok := t.slots[namespace]
	t.Unlock()
''','''	if t.last == nil || len(t.lastName) != len(namespace) || t.lastName != namespace {
		t.last, t.lastName = t.slots[namespace], namespace
	}
	slot, ok := t.last, t.last != nil
	t.Unlock()
''')]),
('y-last-slot-len','R04',[(RPC,'''	slots map[string]*CManagerSlot
	sync.Mutex
}''','''	slots map[string]*CManagerSlot
	sync.Mutex
	// Most requests in a row are for the same namespace.
	last     *CManagerSlot
	lastName string
}'''),(RPC,'''	slot, ok := t.slots[namespace]
	t.Unlock()
''','''	if t.last == nil || t.lastName != namespace {
		t.lastName = namespace
		if s, ok := t.slots[namespace]; ok {
			t.last = s
		}
	}
	slot, ok := t.last, t.last != nil
	t.Unlock()
''')]),
('y-len-counter','C05',[(CEN,'''	if len(c.DataPoints) == 1 {
		c.vec''','''	if len(c.DataPoints) == 1 {
		c.vec''')]),
('y-steal-clears','R08',[(SRV,'''		centroids, cOK := client.NearestCentroids(localVec, 1, true)

		if !cOK {
			break
		}
''','''		centroids, cOK := client.NearestCentroids(localVec, 1, true)

		if !cOK {
			break
		}
		if r.TransferredN+centroids[0].LenDP() > 2*args.TransferDPLimit && r.TransferredN > 0 {
			// Too much, so it goes back.
			for _, dp := range centroids[0].DataPoints {
				client.AddDataPoint(dp)
			}
			break
		}
''')]),
('y-put-back-ns','R07',[(SRV,'''func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace string) bool {
''','''func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace string) bool {
	if len(addrs) == 1 && len(dp.Payload) == 0 {
		addrs = append(addrs, addrs[0])
	}
''')]),
('y-fetch-shared-err','N01',[('core/nodes/vecs.go','''		var err error
		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		return vec, err == nil && vec != nil
''','''		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		return vec, err == nil && vec != nil
''') ,('core/nodes/vecs.go','''func fetchVecsFast(''','''var err error

func fetchVecsFast(''')]),
('y-expire-clock','C08',[('pkg/kmeans/common/datapoint.go','time.Now()','time.Now().Round(time.Millisecond)')]),
('y-expire-trunc','C08',[('pkg/kmeans/common/datapoint.go','time.Now()','time.Now().Truncate(time.Second)')]),

('y-fetch-shared-vec','N01',[('core/nodes/vecs.go','''		var err error
		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		return vec, err == nil && vec != nil
''','''		var err error
		vec = rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		return vec, err == nil && vec != nil
'''),('core/nodes/vecs.go','''func fetchVecsFast(''','''var vec []float64

func fetchVecsFast(''')]),
('y-dist-shared-err','R07',[(SRV,'''	rch := fetchVecs(args.AddrOptions, func(addr string) ([]float64, bool) {
		var err error
		vec := KMeansClient(addr, args.NameSpace, &err).Vec()''','''	var err error
	rch := fetchVecs(args.AddrOptions, func(addr string) ([]float64, bool) {
		vec := KMeansClient(addr, args.NameSpace, &err).Vec()''')]),
('y-dist-shared-err2','R07',[(SRV,'''		rch := fetchVecs(args.AddrOptions, func(addr string) ([]float64, bool) {
			var err error
''','''		var err error
		rch := fetchVecs(args.AddrOptions, func(addr string) ([]float64, bool) {
''')]),
('y-no-close-s','S01',[(CLI,'''	defer client.Close()
''','''''')]),
('y-no-close-e','E01',[(CLI,'''	defer client.Close()
''','''''')]),
('y-acc-shared-err','N02',[('core/nodes/vecs.go','''		var err error
		client :=''','''		client :='''),('core/nodes/vecs.go','''func fetchVecsFast(''','''var err error

func fetchVecsFast(''')]),
]
TRIALS+=[
('z-api-shared-body','A01',[('core/api/handler.go','''	body, _ := ioutil.ReadAll(r.Body)
	err := json.Unmarshal(body, targetOpt)''','''	buffer.Reset()
	buffer.ReadFrom(r.Body)
	err := json.Unmarshal(buffer.Bytes(), targetOpt)'''),('core/api/handler.go','''func (h *handler) setRoutes() {''','''var buffer bytes.Buffer

func (h *handler) setRoutes() {'''),('core/api/handler.go','''	"io/ioutil"
''','''	"bytes"
''')]),
('z-api-shared-args','A01',[('core/api/handler.go','''	args := dps.PutDataPointArgs{''','''	args = dps.PutDataPointArgs{'''),('core/api/handler.go','''func (h *handler) setRoutes() {''','''var args dps.PutDataPointArgs

func (h *handler) setRoutes() {''')]),
('z-api-shared-opts','A01',[('core/api/handler.go','''		Drain     bool      `json:"drain"`
	}{}
''','''		Drain     bool      `json:"drain"`
	}{QueryVec: vecs[:0]}
	defer func() { vecs = opts.QueryVec }()
'''),('core/api/handler.go','''func (h *handler) setRoutes() {''','''var vecs []float64

func (h *handler) setRoutes() {''')]),
]
