//go:build !native

package vh

import (
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"trypo/cfg"
	"trypo/cmd/vservice"
	"trypo/core/eventloop"
	"trypo/pkg/arbiter"
	kmrpc "trypo/pkg/kmeans/rpc"
	"vharness/vrt"
	"vharness/vrt/vhttp"
	"vharness/vrt/vrpc"
)

// S01: the service program as it is shipped, driven through its HTTP API in
// virtual time.

// The shipped configuration.
var (
	cfgELT       = cfg.ELT
	cfgLocalRPC  = cfg.LocalAddrRPC
	cfgOtherRPC  = append([]arbiter.Addr{}, cfg.OtherAddrRPC...)
	cfgAPI       = cfg.LocalAddrAPI
	cfgCap       = cfg.KMEANS_INITCAP
	cfgThreshold = cfg.KMEANS_CENTROID_DP_THRESHOLD
	cfgKNN       = cfg.KNN_SEARCH_FUNC
	cfgKFN       = cfg.KFN_SEARCH_FUNC
)

// service is one configuration of the program and what is done to it.
type service struct {
	name    string
	shipped bool     // with the shipped addresses
	others  []rstart // further nodes
	down    []int    // numbers of unreachable ones
	thr     int      // 0: as shipped
	local   bool     // LogLocalOnly
	ops     []Req    // requests, in order; "tick" is a pass of the loop (N: how many)
	limit   bool     // nothing but puts: the group limit is judged exactly
}

var knnCalls, kfnCalls int64

// startService runs the program; the world's node 0 is the one it runs.
func (s *service) start(r *R, lg eventloop.Logger) *world {
	quiet()
	log.SetOutput(io.Discard)
	os.Setenv("PATH", "") // the default logger runs a program to clear the screen
	cfg.ELT, cfg.LocalAddrRPC, cfg.LocalAddrAPI = cfgELT, cfgLocalRPC, cfgAPI
	cfg.OtherAddrRPC = append([]arbiter.Addr{}, cfgOtherRPC...)
	cfg.KMEANS_INITCAP, cfg.KMEANS_CENTROID_DP_THRESHOLD = cfgCap, cfgThreshold
	knnCalls, kfnCalls = 0, 0
	cfg.KNN_SEARCH_FUNC = func(v []float64, g func() ([]float64, bool), k int) []int {
		atomic.AddInt64(&knnCalls, 1)
		return cfgKNN(v, g, k)
	}
	cfg.KFN_SEARCH_FUNC = func(v []float64, g func() ([]float64, bool), k int) []int {
		atomic.AddInt64(&kfnCalls, 1)
		return cfgKFN(v, g, k)
	}
	thr := cfg.KMEANS_CENTROID_DP_THRESHOLD
	if s.thr > 0 {
		thr = s.thr
		cfg.KMEANS_CENTROID_DP_THRESHOLD = thr
	}
	nodes := append([]rstart{{name: "service"}}, s.others...)
	sc := &Scn{name: s.name, nodes: s.others, thr: 50}
	w := sc.setupNodes(nil, 1)
	if !s.shipped {
		cfg.LocalAddrRPC = addrOf(0)
		cfg.LocalAddrAPI = arbiter.Addr{IP: "127.0.0.1", Port: apiPort}
		cfg.OtherAddrRPC = nil
		for i := range nodes {
			cfg.OtherAddrRPC = append(cfg.OtherAddrRPC, addrOf(i))
		}
		cfg.ELT.LocalAddr, cfg.ELT.RemoteAddrs = cfg.LocalAddrRPC, cfg.OtherAddrRPC
	}
	cfg.ELT.LogLocalOnly = s.local
	cfg.ELT.L = lg
	w.t0 = time.Now()
	known := len(vrpc.Receivers)
	go func() {
		defer func() {
			if x := recover(); x != nil && !r.Dying() {
				r.SetCrash(fmt.Sprintf("the service ends: %v", x), debug.Stack())
			}
		}()
		vservice.Main()
		if !r.Dying() {
			r.SetCrash("the service ends", nil)
		}
	}()
	api := cfg.LocalAddrAPI.ToStr()
	for i := 0; vhttp.HandlerAt(api) == nil && r.Crash == ""; i++ {
		if i > 1000 {
			r.Fail("S01-start", "the service does not listen on its API address %s", api)
			return w
		}
		time.Sleep(time.Millisecond)
	}
	n := &node{addr: cfg.LocalAddrRPC.ToStr(), stop: func() {}}
	for _, x := range vrpc.Receivers[known:] {
		if k, ok := x.(*kmrpc.KMeansServer); ok {
			n.srv = k
		}
	}
	if n.srv == nil {
		r.Fail("S01-start", "the service does not run a node")
		return w
	}
	w.nodes = append([]*node{n}, w.nodes...)
	w.m.thr = thr
	w.post = func(path, body string) (int, string) { return postTo(api, path, body) }
	w.refresh()
	return w
}

// passes is how long n passes of the loop take.
func passes(n int) time.Duration {
	return time.Duration(n) * (cfg.ELT.TimeoutLoop + time.Duration(nTasks)*cfg.ELT.TimeoutStep)
}

// single checks the order and choice within a namespace of a single group.
func (w *world) single(r *R, x *rec) {
	if !strings.HasPrefix(x.Q.Op.Kind, "get") || len(w.nodes) != 1 {
		return
	}
	s := w.pre[0][x.Q.Op.NS]
	if len(s.G) != 1 {
		return
	}
	var all []float64
	for i := range s.G[0].DPs {
		if d := &s.G[0].DPs[i]; d.live(x.At) && len(d.Vec) == len(x.Q.Op.Vec) {
			all = append(all, refCos(x.Q.Op.Vec, d.Vec))
		}
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(all)))
	for i := range x.A.DPs {
		if got := refCos(x.Q.Op.Vec, x.A.DPs[i].Vec); i >= len(all) || got < all[i]-eps || got > all[i]+eps {
			r.Fail("S01-nearest", "%v returned %v: position %d is not the next nearest", x.Q, ids(x.A.DPs), i)
			return
		}
	}
}

func (u *U) services(ss []*service) {
	x := vrt.NewExplorer()
	u.Explore(x, func(r *R) {
		s := ss[r.Choose(vrt.KEnv, len(ss), false)]
		r.MaxSteps = 1 << 30
		r.FreeSwitch = false
		w := s.start(r, nil)
		if len(r.fails) > 0 || r.Crash != "" {
			return
		}
		all := []int{}
		for i := range w.nodes {
			all = append(all, i)
		}
		w.s.threads = [][]Req{append([]Req{}, s.ops...)}
		for i := range w.s.threads[0] {
			w.s.threads[0][i].To = all
		}
		w.mkRecs()
		rpcAddr := cfg.LocalAddrRPC.ToStr()
		total := passes(1)
		for _, q := range s.ops {
			if q.Op.Kind == "tick" {
				total += passes(q.Op.N)
			}
		}
		began := time.Now()
		r.Go("client", func() {
			time.Sleep(cfg.ELT.TimeoutLoop / 2) // between two tasks
			for _, x := range w.recs {
				w.refresh()
				if x.Q.Op.Kind == "tick" {
					time.Sleep(passes(x.Q.Op.N))
					x.Done = true
					w.conserve(r, "S01", false)
				} else {
					w.renew(x)
					w.do(x)
					judgeA01(r, w, x)
					w.single(r, x)
				}
				w.serviceState(r, s, rpcAddr, began)
				if len(r.fails) > 0 {
					return
				}
			}
		})
		r.until(began.Add(total))
		r.Direct()
		for i := range r.fails {
			r.fails[i].Key = strings.Replace(r.fails[i].Key, "A01-", "S01-", 1)
		}
		for _, x := range w.recs {
			if !x.Done && len(r.fails) == 0 && r.Crash == "" && r.Stuck == "" {
				r.Fail("S01-unanswered", "%v is not answered", x.Q)
			}
		}
		if len(r.fails) == 0 && r.Crash == "" && r.Stuck == "" {
			w.conserve(r, "S01", false)
			if len(r.fails) == 0 && len(s.down) == 0 && !s.shipped {
				w.retrievable(r, "S01", all)
			}
		}
		w.logTo(r)
		r.Log("end: %s", w.final())
		r.Outcome(s.name + ": " + w.outcome())
		w.stopAll()
	})
}

// renew counts a short expiry from now.
func (w *world) renew(x *rec) {
	if x.put != nil && x.Q.Op.Exp == xShort {
		x.put.Expires = time.Now().Add(tick / 2)
		d := snapDP(x.put)
		x.DP = &d
		w.m.reg[d.ID] = &d
	}
}

// serviceState judges the contents of the service's node.
func (w *world) serviceState(r *R, s *service, rpcAddr string, began time.Time) {
	if len(r.fails) > 0 {
		return
	}
	var err error
	meta := client(rpcAddr, "", &err).Meta()
	if err != nil {
		r.Fail("S01-node", "no node answers at %s: %v", rpcAddr, err)
		return
	}
	snaps := w.nodes[0].snaps()
	if len(meta.DPs) != len(snaps) {
		r.Fail("S01-node", "the node at %s reports %d namespaces, the service has %d", rpcAddr, len(meta.DPs), len(snaps))
		return
	}
	// Expired ones are gone after a whole expiry interval.
	gone := time.Now().Add(-passes(cfg.ELT.TaskSkip.Expire + 1))
	for ns, sn := range snaps {
		total := 0
		for gi := range sn.G {
			n := len(sn.G[gi].DPs)
			total += n
			if s.limit && n >= w.m.thr {
				r.Fail("S01-limit", "a group of %q has %d datapoints, the limit is %d", ns, n, w.m.thr)
				return
			}
		}
		if s.limit && total < w.m.thr && len(sn.G) > 1 {
			r.Fail("S01-limit", "%d datapoints of %q are in %d groups, the limit is %d", total, ns, len(sn.G), w.m.thr)
			return
		}
		for gi := range sn.G {
			for di := range sn.G[gi].DPs {
				if d := &sn.G[gi].DPs[di]; !d.live(gone) && gone.After(began) {
					r.Fail("S01-expired", "%s of %q is still in memory more than an expiry interval after it expired", d.ID, ns)
					return
				}
			}
		}
	}
}

func svcOps() []Req {
	return append(rq(na(Op{Kind: "putFastH", Vec: vX}), na(Op{Kind: "putAccH", Vec: vN}), na(Op{Kind: "putFastH", Vec: vXY, Exp: xShort}), Op{Kind: "putAccH", NS: "", Vec: v3},
		na(Op{Kind: "getFastH", Vec: vXY, N: 2}), na(Op{Kind: "getAcc" + "H", Vec: vX, N: 9}), na(Op{Kind: "getFastH", Vec: vX, N: 1, Drain: true}), na(Op{Kind: "getAccH", Vec: vN, N: 2, Drain: true})),
		Req{Op: Op{Kind: "tick", N: 1}}, Req{Op: Op{Kind: "tick", N: 25}})
}

func isTick(q Req) bool { return q.Op.Kind == "tick" }

// sequences calls f with every sequence of k requests that ends in a request
// and has no two ticks in a row.
func sequences(ops []Req, k int, first Req, f func([]Req)) {
	var rec func(seq []Req)
	rec = func(seq []Req) {
		if len(seq) == k {
			if !isTick(seq[k-1]) {
				f(append([]Req{}, seq...))
			}
			return
		}
		for _, q := range ops {
			if isTick(q) && isTick(seq[len(seq)-1]) {
				continue
			}
			rec(append(seq, q))
		}
	}
	rec([]Req{first})
}

func svcName(seq []Req) string {
	s := ""
	for i := range seq {
		if isTick(seq[i]) {
			s += fmt.Sprintf(" pass*%d", seq[i].Op.N)
		} else {
			s += " " + strings.TrimSuffix(seq[i].String(), " of [])")
		}
	}
	return s
}

func serviceUnits(depth int) []Unit {
	var us []Unit
	ops := svcOps()
	ax := rstart{name: "ax", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vB)}, {dps: ds(vN)}}}}}
	for _, v := range []struct {
		name string
		svc  service
		d    int
	}{
		{"alone", service{local: true}, depth},
		{"limit3", service{thr: 3}, depth},
		{"shipped", service{shipped: true, local: true}, depth - 1},
		{"peer", service{others: []rstart{ax}}, depth - 1},
		{"empty-peer", service{others: []rstart{{name: "none"}}, thr: 3}, depth - 1},
		{"down-peer", service{others: []rstart{{name: "down"}, ax}, down: []int{1}}, depth - 1},
	} {
		v := v
		for _, q := range ops {
			if isTick(q) && v.d < 3 {
				continue
			}
			var ss []*service
			sequences(ops, v.d, q, func(seq []Req) {
				s := v.svc
				s.ops, s.name = seq, v.name+":"+svcName(seq)
				ss = append(ss, &s)
			})
			us = append(us, Unit{Name: "service/" + v.name + "/" + svcName([]Req{q}), Run: func(u *U) { u.services(ss) }})
		}
	}
	// The group limit, reached by puts alone; nothing is split below it.
	for _, thr := range []int{0, 2, 3, 4, 7} {
		var ss []*service
		k := 2*thr + 2
		if thr == 0 {
			k = 5
		}
		for n := 1; n <= k; n++ {
			for _, h := range []string{"putFastH", "putAccH"} {
				s := &service{name: fmt.Sprintf("limit %d: %d %s", thr, n, h), thr: thr, limit: true}
				for i := 0; i < n; i++ {
					s.ops = append(s.ops, Req{Op: na(Op{Kind: h, Vec: vv(1, float64(i)/8)})})
				}
				ss = append(ss, s)
			}
		}
		us = append(us, Unit{Name: fmt.Sprintf("service/limit/%d", thr), Run: func(u *U) { u.services(ss) }})
		// The same for vectors of other sizes, two namespaces taking turns.
		var dims []*service
		for _, dim := range [][2]int{{1, 3}, {3, 3}, {4, 2}, {2, 5}, {5, 16}} {
			for n := 1; n <= k; n++ {
				for _, h := range []string{"putFastH", "putAccH"} {
					s := &service{name: fmt.Sprintf("limit %d of sizes %v: %d %s", thr, dim, n, h), thr: thr, limit: true}
					for i := 0; i < n; i++ {
						for j, ns := range []string{"a", "b"} {
							v := make([]float64, dim[j])
							v[0], v[dim[j]-1] = 1, float64(i+1)/8
							s.ops = append(s.ops, Req{Op: Op{Kind: h, NS: ns, Vec: v}})
						}
					}
					dims = append(dims, s)
				}
			}
		}
		us = append(us, Unit{Name: fmt.Sprintf("service/limit-sizes/%d", thr), Run: func(u *U) { u.services(dims) }})
	}
	// The service keeps serving.
	for _, hours := range []int{1, 7, 25} {
		var ss []*service
		for _, thr := range []int{0, 2} {
			q := []Req{{Op: na(Op{Kind: "putFastH", Vec: vX})}, {Op: Op{Kind: "putAccH", NS: "", Vec: v3, Exp: xLong}}}
			for i := 0; i < 3; i++ {
				q = append(q, Req{Op: Op{Kind: "tick", N: hours * 24}},
					Req{Op: na(Op{Kind: "getFastH", Vec: vX, N: 9})}, Req{Op: Op{Kind: "getAccH", NS: "", Vec: v3, N: 2}},
					Req{Op: na(Op{Kind: "putAccH", Vec: vv(1, float64(i)/4)})}, Req{Op: na(Op{Kind: "putFastH", Vec: vXY, Exp: xShort})})
			}
			ss = append(ss, &service{name: fmt.Sprintf("%d hours, limit %d", hours, thr), thr: thr, ops: q})
		}
		us = append(us, Unit{Name: fmt.Sprintf("service/hours/%d", hours), Run: func(u *U) { u.services(ss) }})
	}
	return us
}

// concurrent: a request arrives at the moment a task of the loop starts.
func serviceRaceUnits(budget int) []Unit {
	var us []Unit
	ax := rstart{name: "ax", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vB)}, {dps: ds(vN)}}}}}
	for _, q := range svcOps() {
		q := q
		if isTick(q) {
			continue
		}
		for _, peer := range []bool{false, true} {
			peer := peer
			name := "alone"
			svc := &service{thr: 3}
			if peer {
				name = "peer"
				svc.others = []rstart{ax}
			}
			svc.name = name + ": " + q.Op.String()
			us = append(us, Unit{Name: "service/concurrent/" + name + "/" + svcName([]Req{q}), Run: func(u *U) {
				x := vrt.NewExplorer().Set(vrt.KSched, budget)
				u.Explore(x, func(r *R) {
					task := r.Choose(vrt.KEnv, nTasks, false)
					r.MaxSteps = 1 << 30
					r.FreeSwitch = false
					w := svc.start(r, nil)
					if len(r.fails) > 0 || r.Crash != "" {
						return
					}
					all := []int{}
					for i := range w.nodes {
						all = append(all, i)
					}
					pre := rq(na(Op{Kind: "putFastH", Vec: vX}), na(Op{Kind: "putFastH", Vec: vY}), na(Op{Kind: "putFastH", Vec: vN}), na(Op{Kind: "putAccH", Vec: vXY}))
					w.s.threads = [][]Req{append(pre, q)}
					for i := range w.s.threads[0] {
						w.s.threads[0][i].To = all
					}
					w.mkRecs()
					n := len(w.recs) - 1
					began := time.Now()
					for _, x := range w.recs[:n] {
						w.do(x)
						if !x.A.OK {
							r.Fail("S01-status", "%v is refused", x.Q)
						}
					}
					// All tasks run in the first pass.
					at := began.Add(cfg.ELT.TimeoutLoop + time.Duration(task+1)*cfg.ELT.TimeoutStep)
					at = w.t0.Add(at.Sub(began))
					x := w.recs[n]
					r.Go("client", func() {
						time.Sleep(time.Until(at))
						w.renew(x)
						w.do(x)
					})
					r.until(w.t0.Add(passes(1) + cfg.ELT.TimeoutLoop/2))
					r.Direct()
					w.logTo(r)
					if r.Crash == "" && r.Stuck == "" && len(r.fails) == 0 {
						if !x.Done {
							r.Fail("S01-unanswered", "%v is not answered", x.Q)
						} else if x.A.Code/100 != 2 {
							r.Fail("S01-status", "%v is answered %d", x.Q, x.A.Code)
						} else {
							w.conserve(r, "S01", false)
							if len(r.fails) == 0 {
								w.retrievable(r, "S01", all)
							}
						}
					}
					r.Outcome(fmt.Sprint(svc.name, task, w.outcome()))
					w.stopAll()
				})
			}})
		}
	}
	return us
}

// serviceCadenceUnit: the loop the program starts is the configured one.
func serviceCadenceUnit(passesN int) Unit {
	return Unit{Name: fmt.Sprintf("service/cadence/%d", passesN), Run: func(u *U) {
		x := vrt.NewExplorer()
		u.Explore(x, func(r *R) {
			rich := rstart{name: "rich", seeds: []nsSeed{{"a", manyDPs(40)}, {"z", []gspec{{dps: ds(vX)}}}}}
			s := &service{name: "cadence", local: r.Choose(vrt.KEnv, 2, false) == 1}
			if r.Choose(vrt.KEnv, 2, false) == 1 {
				s.others = []rstart{rich}
			}
			r.MaxSteps = 1 << 30
			r.Fault = func(stage, addr, method string) bool {
				return stage == "request" && (method == "StealCentroid" || strings.HasPrefix(method, "Distribute") || method == "MergeCentroids" || method == "SplitCentroids" || method == "MemTrim")
			}
			lg := &logT{}
			w := s.start(r, lg)
			if len(r.fails) > 0 || r.Crash != "" {
				return
			}
			w.s.threads = [][]Req{rq(na(Op{Kind: "putFastH", Vec: vX}))}
			w.s.threads[0][0].To = []int{0}
			w.mkRecs()
			var ok bool
			w.nodes[0].srv.AddDataPoint(kmrpc.AddDataPointArgs{NameSpace: "a", DP: *w.recs[0].put}, &ok)
			w.refresh()
			e := &cfg.ELT
			c := &cadence{name: "service", loops: passesN, cfg: lcfg{localOnly: s.local, fastN: e.DistributeDataPointsFastN, accN: e.DistributeDataPointsAccurateN, intN: e.DistributeDataPointsInternalN,
				split: [2]int{e.SplitCentroidsMin, e.SplitCentroidsMax}, merge: [2]int{e.MergeCentroidsMin, e.MergeCentroidsMax}, loop: passes(1)}}
			k := &cfgELT.TaskSkip
			c.cfg.skip = [nTasks]int{tExpire: k.Expire, tMemTrim: k.MemTrim, tFast: k.DistributeDataPointsFast, tAcc: k.DistributeDataPointsAccurate, tInt: k.DistributeDataPointsInternal,
				tSplit: k.SplitCentroids, tMerge: k.MergeCentroids, tBalance: k.LoadBalancing, tMeta: k.Meta}
			if s.others == nil {
				c.cfg.skip[tBalance] = 0 // nothing to balance with
			}
			start := w.t0.Add(-passes(1) + e.TimeoutLoop + e.TimeoutStep/2)
			r.Quiesce(passes(passesN) + e.TimeoutLoop)
			if r.Crash == "" {
				judgeCadence(r, w, c, lg, start)
				for i := range r.fails {
					r.fails[i].Key = strings.Replace(r.fails[i].Key, "E02-", "S01-", 1)
				}
			}
			r.Direct()
			r.Log("%s: %d requests in %d passes", c.cfg.String(), len(r.Calls), passesN)
			r.Outcome(fmt.Sprintf("%v %v %d", s.local, s.others != nil, len(r.Calls)))
			w.stopAll()
		})
	}}
}

// serviceFuncsUnit: the node searches with the configured functions.
func serviceFuncsUnit() Unit {
	return Unit{Name: "service/functions", Run: func(u *U) {
		x := vrt.NewExplorer()
		u.Explore(x, func(r *R) {
			s := &service{name: "functions"}
			w := s.start(r, nil)
			if len(r.fails) > 0 || r.Crash != "" {
				return
			}
			r.Direct()
			var err error
			c := client(nodeAddr(0), "a", &err)
			for i := 0; i < 6; i++ {
				c.AddDataPoint(DP{Vec: vv(1, float64(i)), Payload: []byte{byte(i)}})
			}
			k0, f0 := knnCalls, kfnCalls
			c.KNNLookup(vv(1, 1), 2, false)
			if knnCalls == k0 {
				r.Fail("S01-functions", "a lookup does not use the configured search function")
			}
			if c.DrainOrdered(1); kfnCalls == f0 {
				r.Fail("S01-functions", "an ordered drain does not use the configured search function")
			}
			r.Outcome("functions")
			w.stopAll()
		})
	}}
}

func init() {
	checks["S01"] = func() Check {
		d, b, n := 5, 2, 45
		if thorough {
			d, b, n = 6, 3, 1001
		}
		us := append(serviceUnits(d), serviceRaceUnits(b)...)
		return Check{Units: append(us, serviceCadenceUnit(n), serviceFuncsUnit())}
	}
}
