package vh

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"time"

	"trypo/core/api"
	"trypo/pkg/arbiter"
	"vharness/vrt"
	"vharness/vrt/vhttp"
)

// A01: the HTTP API in front of a network of nodes.

const apiPort = "7900"

var hush sync.Once

// quiet drops what the code under test prints.
func quiet() {
	hush.Do(func() {
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = f
		}
	})
}

// startAPI must run on the controller.
func (w *world) startAPI() {
	quiet()
	var all []arbiter.Addr
	for i := range w.nodes {
		all = append(all, addrOf(i))
	}
	cfg := api.APIConfig{Addr: arbiter.Addr{IP: "127.0.0.1", Port: apiPort}, RPCAddrs: all, ReadTimeout: time.Second * 5, WriteTimeout: time.Second * 5}
	if all == nil {
		cfg.RPCAddrs = []arbiter.Addr{}
	}
	go api.Start(cfg)
	for i := 0; vhttp.HandlerAt("127.0.0.1:"+apiPort) == nil; i++ {
		if i > 1000 {
			panic("harness: the API does not start")
		}
		time.Sleep(time.Millisecond)
	}
	w.post = func(path, body string) (int, string) { return postTo("127.0.0.1:"+apiPort, path, body) }
}

// postTo sends a request to an in-memory HTTP server.
func postTo(addr, path, body string) (int, string) {
	h := vhttp.HandlerAt(addr)
	if h == nil {
		return 0, ""
	}
	q := httptest.NewRequest("POST", "http://"+addr+path, strings.NewReader(body))
	q.Header.Set("Content-Type", "application/json")
	rr := httptest.NewRecorder()
	h.ServeHTTP(rr, q)
	return rr.Code, rr.Body.String()
}

// jsonDP is the documented form of a datapoint.
type jsonDP struct {
	Vec           []float64 `json:"vec"`
	Payload       []byte    `json:"payload"`
	Expires       time.Time `json:"expires"`
	ExpireEnabled bool      `json:"expireEnabled"`
}

func putBody(ns string, acc bool, d *DP) string {
	b, err := json.Marshal(map[string]interface{}{"namespace": ns, "accurate": acc, "dp": jsonDP{d.Vec, d.Payload, d.Expires, d.ExpireEnabled}})
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

func queryBody(ns string, acc bool, v []float64, n int, drain bool) string {
	b, err := json.Marshal(map[string]interface{}{"namespace": ns, "accurate": acc, "queryVec": v, "n": n, "drain": drain})
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// parseDPs reads an answered list; keys must be the documented ones.
func parseDPs(body string) ([]DP, string) {
	b := bytes.TrimSpace([]byte(body))
	if len(b) == 0 || b[0] != '[' {
		return nil, fmt.Sprintf("the answer is no JSON list: %.60q", body)
	}
	var l []map[string]json.RawMessage
	if err := json.Unmarshal(b, &l); err != nil {
		return nil, fmt.Sprintf("the answer is no list of JSON objects: %v", err)
	}
	var out []DP
	for _, o := range l {
		var d DP
		for k, dst := range map[string]interface{}{"vec": &d.Vec, "payload": &d.Payload, "expires": &d.Expires, "expireEnabled": &d.ExpireEnabled} {
			raw, ok := o[k]
			if !ok {
				return nil, fmt.Sprintf("an answered datapoint has no %q", k)
			}
			if err := json.Unmarshal(raw, dst); err != nil {
				return nil, fmt.Sprintf("%q of an answered datapoint: %v", k, err)
			}
		}
		out = append(out, d)
	}
	return out, ""
}

func (w *world) http(x *rec) (a Ans) {
	op := &x.Q.Op
	acc := strings.Contains(op.Kind, "Acc")
	switch {
	case strings.HasPrefix(op.Kind, "put"):
		a.Code, a.Body = w.post("/api/dp/put", putBody(op.NS, acc, x.put))
		a.OK = a.Code/100 == 2
	case strings.HasPrefix(op.Kind, "get"):
		a.Code, a.Body = w.post("/api/dp/query", queryBody(op.NS, acc, op.Vec, op.N, op.Drain))
		if a.Code/100 == 2 {
			l, msg := parseDPs(a.Body)
			a.OK = msg == ""
			a.DPs = snapDPs(l)
			a.Str = msg + fmt.Sprint(ids(a.DPs))
		}
	default:
		b := badBodies()[op.N]
		a.Code, a.Body = w.post(b.path, b.body)
		a.OK = a.Code/100 == 2
	}
	a.Str += fmt.Sprint(" ", a.Code)
	return a
}

type badBody struct{ path, body string }

// badBodies are requests that are not valid for their endpoint.
func badBodies() []badBody {
	good := func(v string) string { return `{"namespace":"a","accurate":true,"dp":{"vec":[1,0],` + v + `}}` }
	gq := func(v string) string {
		return `{"namespace":"a","accurate":false,"queryVec":[1,0],"drain":true,` + v + `}`
	}
	var out []badBody
	for _, p := range []string{"/api/dp/put", "/api/dp/query"} {
		for _, b := range []string{"", " ", "{", "[]", "[1,2]", `"x"`, "12", "true", "not json", `{"namespace":"a"} x`, `{"namespace":1}`, `{"accurate":"yes"}`, "\x00", `{"namespace":"a",}`, "namespace=a&n=3"} {
			out = append(out, badBody{p, b})
		}
	}
	for _, b := range []string{good(`"payload":"*"`), good(`"payload":12`), good(`"expires":"tomorrow"`), good(`"expires":12`), good(`"expireEnabled":1`), good(`"expireEnabled":"true"`),
		`{"namespace":"a","dp":{"vec":"x"}}`, `{"namespace":"a","dp":{"vec":[1,"0"]}}`, `{"namespace":"a","dp":{"vec":[1,1e999]}}`, `{"namespace":"a","dp":[1,0]}`, `{"namespace":"a","dp":{"vec":[1,0]}`, `{"namespace":["a"],"dp":{"vec":[1,0]}}`, `[{"namespace":"a","dp":{"vec":[1,0]}}]`,
		// a datapoint without a vector
		"{}", "null", `{"namespace":"n","dp":{}}`, `{"namespace":"n","dp":null}`, `{"namespace":"n","accurate":true,"dp":{"vec":[]}}`, `{"namespace":"n","dp":{"vec":null,"payload":"AAAA"}}`} {
		out = append(out, badBody{"/api/dp/put", b})
	}
	for _, b := range []string{gq(`"n":"3"`), gq(`"n":1.5`), gq(`"n":1e30`), gq(`"n":[3]`), `{"namespace":"a","queryVec":{"0":1},"n":3,"drain":true}`, `{"namespace":"a","queryVec":[1,0],"n":3,"drain":1}`, `{"namespace":"a","queryVec":"1,0","n":3,"drain":true}`, gq(`"n":3`)[1:], gq(`"n":3`) + "]"} {
		out = append(out, badBody{"/api/dp/query", b})
	}
	return out
}

func (w *world) refresh() {
	w.pre = nil
	for _, n := range w.nodes {
		w.pre = append(w.pre, n.snaps())
	}
}

// judgeA01 judges one request against the contents before it.
func judgeA01(r *R, w *world, x *rec) {
	switch k := x.Q.Op.Kind; {
	case strings.HasPrefix(k, "put"):
		if x.A.Code/100 != 2 && x.A.Code/100 != 5 {
			r.Fail("A01-status", "%v was answered %d", x.Q, x.A.Code)
			return
		}
		judgeN02(r, w, x)
	case strings.HasPrefix(k, "get"):
		if x.A.Code/100 != 2 {
			r.Fail("A01-status", "%v was answered %d", x.Q, x.A.Code)
			return
		}
		if !x.A.OK {
			r.Fail("A01-json", "%v: %s", x.Q, x.A.Str)
			return
		}
		judgeN03(r, w, x)
	default:
		b := badBodies()[x.Q.Op.N]
		if x.A.Code/100 != 4 {
			r.Fail("A01-invalid", "%s with body %q was answered %d", b.path, b.body, x.A.Code)
			return
		}
		w.unchanged(r, "A01", nil, "")
	}
}

// serve explores sequences of API requests, each judged when it is done.
func (u *U) serve(ss []*Scn, faults int) {
	x := vrt.NewExplorer().Set(vrt.KFault, faults)
	u.Explore(x, func(r *R) {
		s := ss[r.Choose(vrt.KEnv, len(ss), false)]
		r.RandFree = s.randAll
		var w *world
		if faults > 0 {
			r.Fault = func(stage, addr, method string) bool {
				if r.IsController() || stage == "reply" || r.Choose(vrt.KFault, 2, true) == 0 {
					return false
				}
				r.Log("fault: %s %s %s", stage, addr, method)
				w.faults[nodeOf(addr)] += stageLetter[stage]
				return true
			}
		}
		w = s.setup()
		r.Go("T0", func() {
			for _, x := range w.recs {
				if x.I > 0 {
					w.faults = map[int]string{}
					w.refresh()
				}
				if x.Q.Op.Kind == "tick" {
					time.Sleep(tick)
					continue
				}
				w.do(x)
				if len(r.fails) == 0 {
					judgeA01(r, w, x)
				}
			}
		})
		r.Run(nil)
		r.Direct()
		r.Log("scenario %s", s.name)
		w.logTo(r)
		if r.Crash == "" && r.Stuck == "" {
			r.Outcome(s.name + ": " + w.outcome())
		}
		w.stopAll()
	})
}

func apiReqs(full bool) []Req {
	var rs []Req
	vs := [][]float64{vX, vN}
	if full {
		vs = append(vs, v3, vXY)
	}
	for _, h := range []string{"FastH", "AccH"} {
		for _, v := range vs {
			rs = append(rs, rq(na(Op{Kind: "put" + h, Vec: v}))...)
			for _, n := range []int{1, 3} {
				rs = append(rs, rq(na(Op{Kind: "get" + h, Vec: v, N: n, Drain: true}))...)
			}
			rs = append(rs, rq(na(Op{Kind: "get" + h, Vec: v, N: 9}))...)
		}
		rs = append(rs, rq(na(Op{Kind: "put" + h, Vec: vY, Exp: xShort}), na(Op{Kind: "put" + h, Vec: vX, Exp: xGone}), Op{Kind: "put" + h, NS: "zz", Vec: v3, Exp: xLong}, Op{Kind: "get" + h, NS: "zz", Vec: v3, N: 2})...)
		if full {
			rs = append(rs, rq(na(Op{Kind: "put" + h, Vec: vY, Exp: xPast}), na(Op{Kind: "get" + h, Vec: vX}), na(Op{Kind: "get" + h, Vec: vX, N: -1, Drain: true}), na(Op{Kind: "get" + h, Vec: vX, N: 1 << 40}), na(Op{Kind: "get" + h, Vec: vXY, N: 2, Drain: true}), Op{Kind: "get" + h, NS: "", Vec: vX, N: 2, Drain: true}, Op{Kind: "put" + h, NS: "", Vec: vX}, Op{Kind: "put" + h, NS: "b", Vec: vN}, Op{Kind: "get" + h, NS: "b", Vec: vN, N: 4, Drain: true})...)
		}
	}
	rs = append(rs, Req{Op: Op{Kind: "tick"}})
	return rs
}

func apiFew() []Req {
	return append(rq(na(Op{Kind: "putFastH", Vec: vX}), na(Op{Kind: "putAccH", Vec: vN}), na(Op{Kind: "putAccH", Vec: vXY, Exp: xShort}), na(Op{Kind: "getFastH", Vec: vX, N: 2, Drain: true}), na(Op{Kind: "getAccH", Vec: vN, N: 9}), Op{Kind: "putFastH", NS: "b", Vec: v3}, Op{Kind: "getAccH", NS: "b", Vec: v3, N: 1, Drain: true}), Req{Op: Op{Kind: "tick"}})
}

func apiUnits(p string, nets [][]string, reqs []Req, depth, faults int) []Unit {
	var us []Unit
	for _, net := range nets {
		nodes, down, name := netOf(kindsNamed(strings.Join(net, " "))...)
		for fi := range reqs {
			if reqs[fi].Op.Kind == "tick" {
				continue
			}
			var ss []*Scn
			var rec func(seq []Req)
			rec = func(seq []Req) {
				if len(seq) == depth {
					s := &Scn{name: name + "|", nodes: nodes, down: down, api: true, randAll: true}
					th := append([]Req{}, seq...)
					for i := range th {
						th[i].To = make([]int, len(nodes))
						for j := range nodes {
							th[i].To[j] = j
						}
						s.name += " " + th[i].String()
					}
					s.threads = [][]Req{th}
					ss = append(ss, s)
					return
				}
				for _, q := range reqs {
					if q.Op.Kind == "tick" && (len(seq) == depth-1 || seq[len(seq)-1].Op.Kind == "tick") {
						continue
					}
					rec(append(seq, q))
				}
			}
			rec([]Req{reqs[fi]})
			us = append(us, Unit{Name: fmt.Sprintf("api/%s/%s/%v", p, name, reqs[fi].String()), Run: func(u *U) { u.serve(ss, faults) }})
		}
	}
	return us
}

// apiRaceUnits: pairs of requests at the same time, watched by the race detector.
func apiRaceUnits() (us []Unit) {
	for _, net := range [][]string{{"x", "yn"}, {"absent"}, {"mix", "down"}} {
		nodes, down, name := netOf(kindsNamed(strings.Join(net, " "))...)
		var ss []*Scn
		var few []Req
		for _, q := range append(apiFew(), Req{Op: Op{Kind: "badH", N: 1}}) {
			if q.Op.Kind != "tick" {
				q.To = []int{0, 1}[:len(nodes)]
				few = append(few, q)
			}
		}
		for i := range few {
			for j := 0; j <= i; j++ {
				// Handled before, so that what they leave in the package is there.
				warm := []Req{few[i], few[j]}
				ss = append(ss, &Scn{name: fmt.Sprintf("%s| %v | %v", name, few[i].String(), few[j].String()), nodes: nodes, down: down, api: true, paid: true, warm: warm, threads: [][]Req{{few[i]}, {few[j]}}})
			}
		}
		us = append(us, Unit{Name: "race/api/" + name, Bin: "race", Run: func(u *U) { u.explore(ss, 1, 0, nil, func(*R, *world, map[string][][][2]int) {}) }})
	}
	return us
}

func badUnits() []Unit {
	var us []Unit
	for _, net := range [][]string{{"x", "yn"}, {"absent"}, {"mix", "exp", "down"}} {
		nodes, down, name := netOf(kindsNamed(strings.Join(net, " "))...)
		var ss []*Scn
		for i := range badBodies() {
			// followed by a request that must find everything in place
			th := []Req{{Op: Op{Kind: "badH", N: i}}, {Op: na(Op{Kind: "getFastH", Vec: vX, N: 9}), To: []int{0, 1, 2}[:len(nodes)]}}
			ss = append(ss, &Scn{name: fmt.Sprintf("%s| bad %q", name, badBodies()[i].body), nodes: nodes, down: down, api: true, threads: [][]Req{th}})
		}
		us = append(us, Unit{Name: "api/malformed/" + name, Run: func(u *U) { u.serve(ss, 0) }})
	}
	return us
}

// fidelity: what is put comes back exactly.
func fidelityDPs() (ds []DP, names []string) {
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	big := bytes.Repeat([]byte("0123456789abcdef"), 4096)
	for _, p := range [][]byte{all, big, nil, {}, {0}, []byte(`"\</script>`), []byte("\xff\xfe")} {
		ds = append(ds, DP{Vec: []float64{1, 2}, Payload: p})
	}
	for _, v := range [][]float64{{1}, {0.1, -0.1}, {1e150, 1}, {1e-150, 1e-151}, {1.2345678901234567e150, 1}, {123456789.123456789, -1e-9}, {0, 0}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, {1e21, 1e20}, {3, 0}} {
		ds = append(ds, DP{Vec: v, Payload: []byte("p")})
	}
	base := time.Date(2100, 2, 3, 4, 5, 6, 789012345, time.UTC)
	for _, e := range []time.Time{base, base.In(time.FixedZone("x", 5400)), base.Truncate(time.Second), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), {}} {
		for _, en := range []bool{true, false} {
			if en && e.IsZero() {
				continue
			}
			ds = append(ds, DP{Vec: []float64{1, 2}, Payload: []byte("e"), Expires: e, ExpireEnabled: en})
		}
	}
	names = []string{"a", "", " ", "ä€😀", `"quoted"\`, "a/b?c=d&e", "<script>", strings.Repeat("long", 300), "\x01\x7f", "null", "0"}
	return
}

func (u *U) fidelity() {
	ds, names := fidelityDPs()
	x := vrt.NewExplorer()
	u.Explore(x, func(r *R) {
		i := r.Choose(vrt.KEnv, len(ds)*len(names), false)
		acc := r.Choose(vrt.KEnv, 2, false) == 1
		nn := 1 + r.Choose(vrt.KEnv, 2, false)
		known := r.Choose(vrt.KEnv, 2, false) == 1
		d, ns := ds[i%len(ds)], names[i/len(ds)]
		s := &Scn{nodes: make([]rstart, nn), api: true, thr: 10}
		w := s.setup()
		r.Direct()
		if known {
			first := DP{Vec: make([]float64, len(d.Vec)), Payload: []byte("first")}
			first.Vec[0] = -1
			if c, _ := w.post("/api/dp/put", putBody(ns, acc, &first)); c/100 != 2 {
				r.Fail("A01-stored", "the first put in %q was answered %d", ns, c)
			}
		}
		c, _ := w.post("/api/dp/put", putBody(ns, acc, &d))
		r.Log("namespace %.20q, vector %v, payload of %d bytes, expires %v (%v), accurate %v, %d nodes, put answered %d", ns, d.Vec, len(d.Payload), d.Expires, d.ExpireEnabled, acc, nn, c)
		if c/100 != 2 {
			r.Fail("A01-stored", "a put was answered %d", c)
		} else {
			for k, drain := range []bool{false, true, true} {
				c, body := w.post("/api/dp/query", queryBody(ns, !acc, d.Vec, 9, drain))
				l, msg := parseDPs(body)
				var hit []DP
				for _, g := range l {
					if string(g.Payload) != "first" {
						hit = append(hit, g)
					}
				}
				switch {
				case c/100 != 2 || msg != "":
					r.Fail("A01-json", "a query was answered %d %s", c, msg)
				case k == 2:
					if len(l) != 0 {
						r.Fail("A01-drained", "%d datapoints are left after all were drained", len(l))
					}
				case len(hit) != 1:
					r.Fail("A01-retrievable", "the datapoint was returned %d times (drain %v)", len(hit), drain)
				case !eqVecBits(hit[0].Vec, d.Vec) || !bytes.Equal(hit[0].Payload, d.Payload) || !hit[0].Expires.Equal(d.Expires) || hit[0].ExpireEnabled != d.ExpireEnabled:
					r.Fail("A01-altered", "put %v %d bytes %v %v, got back %v %d bytes %v %v", d.Vec, len(d.Payload), d.Expires, d.ExpireEnabled, hit[0].Vec, len(hit[0].Payload), hit[0].Expires, hit[0].ExpireEnabled)
				}
				if len(r.fails) > 0 {
					break
				}
			}
		}
		r.Outcome(fmt.Sprint(i, acc, nn, known, base64.StdEncoding.EncodeToString([]byte(w.final()))))
		w.stopAll()
	})
}

func eqVecBits(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// startUnit: an API without a node list or on an address in use is refused.
func apiStartUnit() Unit {
	return Unit{Name: "api/start", Run: func(u *U) {
		x := vrt.NewExplorer()
		u.Explore(x, func(r *R) {
			r.Direct()
			quiet()
			which := r.Choose(vrt.KEnv, 2, false)
			cfg := api.APIConfig{Addr: arbiter.Addr{IP: "127.0.0.1", Port: apiPort}}
			var w *world
			if which == 1 {
				w = (&Scn{nodes: make([]rstart, 1), thr: 10}).setup()
				cfg.Addr = addrOf(0)
				cfg.RPCAddrs = []arbiter.Addr{addrOf(0)}
			}
			var err error
			done := false
			go func() { err = api.Start(cfg); done = true }()
			r.Quiesce(time.Minute)
			if !done || err == nil {
				r.Fail("A01-start", "starting without a node list or on an address in use reports no error")
			}
			r.Outcome(fmt.Sprint(which, done, err != nil))
			if w != nil {
				w.stopAll()
			}
		})
	}}
}

// ---- the same over real HTTP ----

var realAPI struct {
	once  sync.Once
	addr  string
	nodes []string
}

func realPost(path, body string) (int, string) {
	c := http.Client{Timeout: 30 * time.Second}
	resp, err := c.Post("http://"+realAPI.addr+path, "application/json", strings.NewReader(body))
	if err != nil {
		return 0, err.Error()
	}
	defer resp.Body.Close()
	b, _ := ioutil.ReadAll(resp.Body)
	return resp.StatusCode, string(b)
}

func apiNativeUnit(depth int) Unit {
	return Unit{Name: fmt.Sprintf("native/api/%d", depth), Bin: "native", Run: func(u *U) {
		realAPI.once.Do(func() {
			quiet()
			realAPI.addr = freeAddr()
			var as []arbiter.Addr
			for i := 0; i < 2; i++ {
				a := freeAddr()
				realAPI.nodes = append(realAPI.nodes, a)
				k := strings.LastIndex(a, ":")
				as = append(as, arbiter.Addr{IP: a[:k], Port: a[k+1:]})
			}
			k := strings.LastIndex(realAPI.addr, ":")
			go api.Start(api.APIConfig{Addr: arbiter.Addr{IP: realAPI.addr[:k], Port: realAPI.addr[k+1:]}, RPCAddrs: as, ReadTimeout: time.Minute, WriteTimeout: time.Minute})
			for i := 0; i < 100; i++ {
				if c, _ := realPost("/", ""); c != 0 {
					break
				}
				time.Sleep(50 * time.Millisecond)
			}
		})
		ops := apiReqs(false)
		var keep []Req
		for _, q := range ops {
			if q.Op.Kind != "tick" && q.Op.Exp != xShort {
				q.To = []int{0, 1}
				keep = append(keep, q)
			}
		}
		for i := range badBodies() {
			keep = append(keep, Req{Op: Op{Kind: "badH", N: i}})
		}
		nets := [][]string{{"x", "yn"}, {"absent", "d3"}, {"mix", "absent"}}
		run := func(p []int) (key, msg string, tr []string) {
			nodes, _, name := netOf(kindsNamed(strings.Join(nets[p[0]], " "))...)
			s := &Scn{name: name, nodes: nodes}
			for _, i := range p[1:] {
				s.threads = append(s.threads, []Req{keep[i]})
			}
			w := s.setupAt(realAPI.nodes)
			w.post = realPost
			r := &R{u: u}
			for _, x := range w.recs {
				if x.T > 0 {
					w.refresh()
				}
				w.do(x)
				u.Trans++
				judgeA01(r, w, x)
				tr = append(tr, fmt.Sprintf("%v -> %s", x.Q, x.A.Str))
			}
			u.State(hashString(name + w.outcome()))
			w.stopAll()
			if len(r.fails) > 0 {
				return r.fails[0].Key, r.fails[0].Msg, tr
			}
			return
		}
		if u.replay != nil {
			k, m, tr := run(u.replay.Choices)
			if k != "" && k == u.replay.Key {
				u.replayed = true
				u.Violations = append(u.Violations, Violation{Key: k, Msg: m, Choices: u.replay.Choices, Trace: tr})
			}
			return
		}
		u.Exhaustive = true
		var rec func(p []int) bool
		rec = func(p []int) bool {
			if len(p) == depth+1 {
				noteProgress(p)
				k, m, _ := run(p)
				u.Execs++
				if k == "" {
					u.Conform++
				} else if k2, _, tr := run(p); k2 == k {
					u.Fail(k, m, append([]int{}, p...), tr)
					u.Exhaustive = false
					return !u.Failed()
				} else {
					u.Flaky++
				}
				if outOfTime() {
					u.Exhaustive, u.Note = false, "time budget"
					return false
				}
				return true
			}
			for i := range keep {
				if keep[i].Op.Kind == "badH" && len(p) < depth {
					continue
				}
				if !rec(append(p, i)) {
					return false
				}
			}
			return true
		}
		for i := range nets {
			if !rec([]int{i}) {
				break
			}
		}
	}}
}

func init() {
	checks["A01"] = func() Check {
		full, few := apiReqs(true), apiReqs(false)
		var us []Unit
		us = append(us, apiUnits("two", [][]string{{"absent"}, {"x", "yn"}, {"mix", "absent"}, {"d3", "exp"}, {"x", "down"}, {"down"}, {"hollow", "nogroups"}}, full, 2, 0)...)
		us = append(us, apiUnits("three", [][]string{{"absent"}, {"x", "absent"}}, apiFew(), 3, 0)...)
		us = append(us, apiUnits("faults", [][]string{{"absent", "x"}, {"yn", "mix"}, {"d3", "x"}}, few, 1, 2)...)
		us = append(us, badUnits()...)
		us = append(us, apiRaceUnits()...)
		us = append(us, Unit{Name: "api/fidelity", Run: func(u *U) { u.fidelity() }}, apiStartUnit(), apiNativeUnit(1))
		b := 1
		if thorough {
			b = 2
			us = append(us, apiUnits("net3", [][]string{{"absent", "x", "yn"}, {"mix", "d3", "exp"}, {"down", "absent", "yn"}}, full, 2, 0)...)
			us = append(us, apiUnits("four", [][]string{{"absent"}, {"x"}}, apiFew(), 4, 0)...)
			us = append(us, apiUnits("three2", [][]string{{"absent", "absent"}, {"x", "yn"}}, few, 3, 0)...)
			us = append(us, apiUnits("faults2", [][]string{{"absent", "x"}, {"yn", "mix"}}, few, 2, 2)...)
			us = append(us, apiNativeUnit(2))
		}
		routed := rq(na(Op{Kind: "putFastH", Vec: vX}), na(Op{Kind: "putAccH", Vec: vN}), na(Op{Kind: "getFastH", Vec: vX, N: 3, Drain: true}), na(Op{Kind: "getAccH", Vec: vN, N: 2, Drain: true}), na(Op{Kind: "getFastH", Vec: vY, N: 2}))
		us = append(mixUnits("A01", routed, b, "", 0), us...)
		us = append(us, historyUnits("A01", rq(na(Op{Kind: "putFastH", Vec: vX}), na(Op{Kind: "putAccH", Vec: vN}), na(Op{Kind: "getFastH", Vec: vX, N: 3, Drain: true}), na(Op{Kind: "getAccH", Vec: vN, N: 9})), judgeA01)...)
		us = append(us, crowdUnits("A01", crowdReqs("putFastH putAccH getFastH getAccH"), judgeA01)...)
		us = append(us, mixUnits("A01/slow", routed[:4], 0, "sS", 1)...)
		return Check{Units: us}
	}
}
