CEN='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'
SRV='pkg/kmeans/rpc/server.go'; CLI='pkg/kmeans/rpc/client.go'; RPC='pkg/kmeans/rpc/rpc.go'; SU='pkg/kmeans/rpc/serverutils.go'
KNN='pkg/searchutils/knn.go'; VT='pkg/mathutils/vectools.go'; DIST='pkg/mathutils/distance.go'
ELT='core/eventloop/eltask.go'; ELU='core/eventloop/eltaskutils.go'
NV='core/nodes/vecs.go'
# State kept in package-level variables.
TRIALS=[
('x-vecs-cache','N01',[(NV,"""		var err error
		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		return vec, err == nil && vec != nil
""","""		var err error
		cacheMu.Lock()
		vec, ok := cache[addr.ToStr()+namespace]
		cacheMu.Unlock()
		if ok {
			return vec, true
		}
		vec = rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		if err == nil && vec != nil {
			cacheMu.Lock()
			cache[addr.ToStr()+namespace] = vec
			cacheMu.Unlock()
		}
		return vec, err == nil && vec != nil
"""),(NV,'''import "trypo/pkg/kmeans/rpc"
''','''import (
	"sync"
	"trypo/pkg/kmeans/rpc"
)

var cache = make(map[string][]float64)
var cacheMu sync.Mutex
''')]),
('x-knn-scratch','C01',[(KNN,"""	res := make([]int, 0, len(items))
	for i := 0; i < len(items); i++ {""","""	res := scratch[:0]
	defer func() { scratch = res }()
	for i := 0; i < len(items); i++ {"""),(KNN,"""// resItems2Indexes simply""","""var scratch []int

// resItems2Indexes simply""")]),
('x-knn-pool','R06',[(KNN,"""	res := make([]int, 0, len(items))
	for i := 0; i < len(items); i++ {""","""	res := scratch.Get().([]int)[:0]
	defer func() { scratch.Put(res) }()
	for i := 0; i < len(items); i++ {"""),(KNN,"""// resItems2Indexes simply""","""var scratch = sync.Pool{New: func() interface{} { return []int{} }}

// resItems2Indexes simply"""),(KNN,'''	"math"
''','''	"math"
	"sync"
''')]),
('x-conn-cache','R09',[(CLI,"""	client, err := rpc.Dial("tcp", c.remoteAddr)
	if err != nil {
		*c.err = err
		return
	}
	defer client.Close()
	taskF(client)
""","""	connsMu.Lock()
	client, ok := conns[c.remoteAddr]
	connsMu.Unlock()
	if !ok {
		var err error
		client, err = rpc.Dial("tcp", c.remoteAddr)
		if err != nil {
			*c.err = err
			return
		}
		connsMu.Lock()
		conns[c.remoteAddr] = client
		connsMu.Unlock()
	}
	taskF(client)
"""),(CLI,'''import (
	"net/rpc"
''','''import (
	"net/rpc"
	"sync"
'''),(CLI,'''// client tries to connect''','''var conns = map[string]*rpc.Client{}
var connsMu sync.Mutex

// client tries to connect''')]),
('x-lendp-cache','E03',[(ELU,"""			lenDP := client.LenDP()
""","""			lenDP := client.LenDP()
			lensMu.Lock()
			if lenDP > lens[addr.ToStr()+namespace] {
				lens[addr.ToStr()+namespace] = lenDP
			}
			lenDP = lens[addr.ToStr()+namespace]
			lensMu.Unlock()
"""),(ELU,"""import (
""","""import (
	"sync"
"""),(ELU,"""// Simply fetch the amount""","""var lens = map[string]int{}
var lensMu sync.Mutex

// Simply fetch the amount""")]),
('x-norm-cache','C02',[(DIST,"""	var x float64
	for i := 0; i < len(vec); i++ {
		x += vec[i] * vec[i]
	}
	return math.Sqrt(x)
""","""	var x float64
	if len(vec) == 0 {
		return 0
	}
	if n, ok := norms.Load(&vec[0]); ok {
		return n.(float64)
	}
	for i := 0; i < len(vec); i++ {
		x += vec[i] * vec[i]
	}
	norms.Store(&vec[0], math.Sqrt(x))
	return math.Sqrt(x)
"""),(DIST,"""	"math"
""","""	"math"
	"sync"
"""),(DIST,"""// norm computes""","""var norms sync.Map

// norm computes""")]),
('x-norm-cache-store','C06',[(DIST,"""	var x float64
	for i := 0; i < len(vec); i++ {
		x += vec[i] * vec[i]
	}
	return math.Sqrt(x)
""","""	var x float64
	if len(vec) == 0 {
		return 0
	}
	if n, ok := norms.Load(&vec[0]); ok {
		return n.(float64)
	}
	for i := 0; i < len(vec); i++ {
		x += vec[i] * vec[i]
	}
	norms.Store(&vec[0], math.Sqrt(x))
	return math.Sqrt(x)
"""),(DIST,"""	"math"
""","""	"math"
	"sync"
"""),(DIST,"""// norm computes""","""var norms sync.Map

// norm computes""")]),
]
