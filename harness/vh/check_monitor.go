package vh

import (
	"bytes"
	"fmt"
	"log"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"

	"trypo/core/eventloop"
	"trypo/pkg/arbiter"
	"vharness/vrt"
)

// E04: what the maintenance loop tells its logger.

// monT notes what it is told, with what was true at that moment.
type monT struct {
	w     *world
	m     *monitor
	start time.Time
	metas []monMeta
	tasks []monTask
}

type monMeta struct {
	at    time.Time
	m     eventloop.MetaData
	truth map[int]map[string][2]int // node -> namespace -> datapoints, groups
}

type monTask struct {
	at time.Time
	s  string
}

func (l *monT) LogTask(s string) { l.tasks = append(l.tasks, monTask{time.Now(), s}) }
func (l *monT) LogMeta(m eventloop.MetaData) {
	// The loop may reuse what it hands over.
	c := eventloop.MetaData{Items: map[arbiter.Addr]eventloop.MetaDataItem{}}
	for a, it := range m.Items {
		n := eventloop.MetaDataItem{LenDP: map[string]int{}, LenCentroids: map[string]int{}}
		for k, v := range it.LenDP {
			n.LenDP[k] = v
		}
		for k, v := range it.LenCentroids {
			n.LenCentroids[k] = v
		}
		c.Items[a] = n
	}
	t := l.w.truth()
	if l.m.gone(l.m.away, time.Now(), l.start) {
		delete(t, l.m.away)
	}
	l.metas = append(l.metas, monMeta{time.Now(), c, t})
}

func (w *world) truth() map[int]map[string][2]int {
	t := map[int]map[string][2]int{}
	for i, n := range w.nodes {
		if w.isDown(i) {
			continue
		}
		t[i] = map[string][2]int{}
		for ns, s := range n.snaps() {
			k := 0
			for gi := range s.G {
				k += len(s.G[gi].DPs)
			}
			t[i][ns] = [2]int{k, len(s.G)}
		}
	}
	return t
}

// monitor is one network and one configuration.
type monitor struct {
	name  string
	nodes []rstart
	down  []int
	all   []int // configured addresses
	cfg   lcfg
	loops int
	puts  [][]Req // made between the passes, by node
	nilL  bool    // the default logger
	away  int     // node that cannot be reached in every other pass
}

func (m *monitor) gone(i int, t, start time.Time) bool {
	return m.away > 0 && i == m.away && (int(t.Sub(start)/m.cfg.loop)-1)%2 == 1
}

// reported are the nodes metadata is wanted of.
func (m *monitor) reported() map[arbiter.Addr]int {
	r := map[arbiter.Addr]int{}
	if m.cfg.localOnly {
		r[addrOf(0)] = 0
		return r
	}
	for _, i := range m.all {
		r[addrOf(i)] = i
	}
	return r
}

func (m *monitor) metaOf(x *monMeta) string {
	want := m.reported()
	for a := range x.m.Items {
		if _, ok := want[a]; !ok {
			return fmt.Sprintf("metadata of %s was logged", a.ToStr())
		}
	}
	for a, i := range want {
		it, ok := x.m.Items[a]
		if !ok {
			return fmt.Sprintf("no metadata of %s was logged", a.ToStr())
		}
		t := x.truth[i] // nothing for an unreachable node
		if len(it.LenDP) != len(t) || len(it.LenCentroids) != len(t) {
			return fmt.Sprintf("metadata of node %d has namespaces %v and %v, should be %v", i, it.LenDP, it.LenCentroids, t)
		}
		for ns, k := range t {
			d, ok1 := it.LenDP[ns]
			c, ok2 := it.LenCentroids[ns]
			if !ok1 || !ok2 || d != k[0] || c != k[1] {
				return fmt.Sprintf("metadata of namespace %q of node %d says %d datapoints in %d groups, there are %d in %d", ns, i, d, c, k[0], k[1])
			}
		}
	}
	return ""
}

// timedLines notes when each line was written.
type timedLines struct {
	bytes.Buffer
	lines []string
	at    []time.Time
}

func (l *timedLines) Write(b []byte) (int, error) {
	for _, x := range strings.Split(string(b), "\n") {
		if x = strings.TrimSpace(x); x != "" {
			l.lines = append(l.lines, x)
			l.at = append(l.at, time.Now())
		}
	}
	return l.Buffer.Write(b)
}

var totals = regexp.MustCompile(`\[([^\]]*)\].*namespaces:\s*(-?\d+).*centroids:\s*(-?\d+).*dps:\s*(-?\d+)`)

func judgeMonitor(r *R, m *monitor, lg *monT, calls map[int]map[string]int) {
	p := "E04"
	loop := m.cfg.loop
	of := func(t time.Time) int { return int(t.Sub(lg.start)/loop) - 1 }
	n := map[int]int{}
	for i := range lg.metas {
		x := &lg.metas[i]
		n[of(x.at)]++
		if msg := m.metaOf(x); msg != "" {
			r.Fail(p+"-meta", "%s: pass %d: %s", m.name, of(x.at), msg)
			return
		}
	}
	k := m.cfg.skip[tMeta]
	for j := 0; j < m.loops; j++ {
		want := 0
		if j%k == 0 {
			want = 1
		}
		if n[j] != want {
			r.Fail(p+"-once", "%s: metadata was handed over %d times in pass %d (interval %d)", m.name, n[j], j, k)
			return
		}
	}
	for _, i := range m.down {
		if i == 0 {
			return // its tasks cannot run
		}
	}
	told := map[int][]string{}
	for _, t := range lg.tasks {
		told[of(t.at)] = append(told[of(t.at)], t.s)
	}
	for j := 0; j < m.loops; j++ {
		total := 0
		for ns, c := range calls[j] {
			total += c
			k := 0
			for _, s := range told[j] {
				if strings.Contains(s, ns) {
					k++
				}
			}
			if k < c {
				r.Fail(p+"-task", "%s: %d tasks were run for namespace %q in pass %d, %d announcements name it: %q", m.name, c, ns, j, k, told[j])
				return
			}
		}
		if total != len(told[j]) {
			r.Fail(p+"-task", "%s: %d tasks were run in pass %d, announced: %q", m.name, total, j, told[j])
			return
		}
	}
}

// judgePrinted judges the lines of the default logger; the contents did not
// change.
func judgePrinted(r *R, w *world, m *monitor, out *timedLines, start time.Time, tasks int) {
	p := "E04"
	want := m.reported()
	truth := w.truth()
	n := map[string]int{}
	for li, l := range out.lines {
		f := totals.FindStringSubmatch(l)
		if f == nil {
			r.Fail(p+"-print", "%s: a line without totals is printed: %q", m.name, l)
			return
		}
		n[f[1]]++
		node, ok := -1, false
		for a, i := range want {
			if a.ToStr() == f[1] {
				node, ok = i, true
			}
		}
		if !ok {
			r.Fail(p+"-print", "%s: a line about %q is printed", m.name, f[1])
			return
		}
		dps, groups := 0, 0
		held := truth[node]
		if m.gone(node, out.at[li], start) {
			held = nil
		}
		for _, k := range held {
			dps += k[0]
			groups += k[1]
		}
		if a, _ := strconv.Atoi(f[2]); a != len(held) {
			r.Fail(p+"-print", "%s: %q, the node holds %d namespaces", m.name, l, len(held))
		} else if a, _ := strconv.Atoi(f[3]); a != groups {
			r.Fail(p+"-print", "%s: %q, the node holds %d groups", m.name, l, groups)
		} else if a, _ := strconv.Atoi(f[4]); a != dps {
			r.Fail(p+"-print", "%s: %q, the node holds %d datapoints", m.name, l, dps)
		}
		if len(r.fails) > 0 {
			return
		}
	}
	for a := range want {
		if n[a.ToStr()] != tasks && !w.isDown(0) {
			r.Fail(p+"-print", "%s: %d lines are printed about %s, %d tasks were run", m.name, n[a.ToStr()], a.ToStr(), tasks)
			return
		}
	}
}

func (u *U) monitors(ms []*monitor) {
	x := vrt.NewExplorer()
	u.Explore(x, func(r *R) {
		m := ms[r.Choose(vrt.KEnv, len(ms), false)]
		s := &Scn{name: m.name, nodes: m.nodes, down: m.down, thr: 4, threads: m.puts}
		var start time.Time
		if m.nilL || m.away > 0 {
			r.Fault = func(stage, addr, method string) bool {
				if m.away > 0 && !start.IsZero() && stage == "dial" && m.gone(nodeOf(addr), time.Now(), start) {
					return true
				}
				return m.nilL && stage == "request" && (method == "StealCentroid" || strings.HasPrefix(method, "Distribute") || method == "MergeCentroids" || method == "SplitCentroids" || method == "MemTrim" || method == "Expire")
			}
		}
		w := s.setup()
		r.MaxSteps = 1 << 30
		r.FreeSwitch = false
		lg := &monT{w: w, m: m, start: time.Now()}
		start = lg.start
		var buf timedLines
		c := m.cfg.real(0, m.all, lg)
		if m.nilL {
			quiet()
			os.Setenv("PATH", "")
			log.SetOutput(&buf)
			log.SetFlags(0)
			c.L = nil
		}
		for t := range s.threads {
			rs := w.of(t)
			r.Go(fmt.Sprintf("T%d", t), func() {
				for i, x := range rs {
					time.Sleep(time.Until(lg.start.Add(time.Duration(i+1)*m.cfg.loop + m.cfg.loop/2)))
					w.do(x)
				}
			})
		}
		mine := len(r.Calls)
		stop := eventloop.EventLoop(c)
		r.until(lg.start.Add(time.Duration(m.loops)*m.cfg.loop + m.cfg.loop/2))
		stop()
		calls := map[int]map[string]int{}
		tasks := 0
		for _, ev := range r.Calls[mine:] {
			if _, ok := taskOf[ev.Method]; !ok || (ev.At-lg.start.Sub(w.t0))%m.cfg.loop != 0 {
				continue // by a client
			}
			if ev.Addr != nodeAddr(0) {
				continue
			}
			j := int((ev.At-lg.start.Sub(w.t0))/m.cfg.loop) - 1
			ns, _, _, _, _ := callArgs(ev)
			if calls[j] == nil {
				calls[j] = map[string]int{}
			}
			calls[j][ns]++
			tasks++
		}
		r.Quiesce(3 * m.cfg.loop)
		r.Direct()
		if r.Crash == "" && r.Stuck == "" {
			if m.nilL {
				judgePrinted(r, w, m, &buf, lg.start, tasks)
				r.Log("printed:\n%s", buf.String())
			} else {
				judgeMonitor(r, m, lg, calls)
				for _, x := range lg.metas {
					r.Log("%v: %v", x.at.Sub(lg.start), x.m.Items)
				}
				for _, x := range lg.tasks {
					r.Log("%v: %s", x.at.Sub(lg.start), x.s)
				}
			}
		}
		r.Outcome(fmt.Sprintf("%s %s %d %d %d", m.name, w.final(), len(lg.metas), len(lg.tasks), buf.Len()))
		w.stopAll()
	})
}

func monitorUnits(loops int) []Unit {
	kinds := []rstart{
		{name: "none"},
		{name: "one", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX)}}}}},
		{name: "two", seeds: []nsSeed{{"a", []gspec{{dps: ds(vX, vB)}, {dps: ds(vN)}}}, {"", []gspec{{dps: ds(vY, vN)}}}}},
		{name: "odd", seeds: []nsSeed{{"a b", []gspec{{dps: ds(vX)}, {dps: ds(vY)}}}, {"%d", nil}, {"a", []gspec{{vec: vX}, {dps: ds(vX)}}}}},
		{name: "exp", seeds: []nsSeed{{"a", []gspec{{dps: []dspec{x(vX, xShort), x(vB, xNone), x(vXY, xLong)}}, {dps: []dspec{x(vY, xShort)}}}}}},
		{name: "rich", seeds: []nsSeed{{"a", manyDPs(30)}, {"z", []gspec{{dps: ds(vX)}}}}},
		{name: "down"},
	}
	var us []Unit
	tasks := [][]int{{tMeta}, {tMeta, tExpire}, {tMeta, tMerge, tSplit}, {tMeta, tFast, tAcc, tInt}, {tMeta, tBalance}, {tMeta, tExpire, tMemTrim, tFast, tAcc, tInt, tSplit, tMerge, tBalance}}
	for _, k0 := range kinds {
		for _, nilL := range []bool{false, true} {
			var ms []*monitor
			for i1 := -1; i1 < len(kinds); i1++ {
				for i2 := -1; i2 < len(kinds); i2++ {
					if i2 >= 0 && (i1 < 0 || i2 < i1) {
						continue
					}
					nodes := []rstart{k0}
					for _, i := range []int{i1, i2} {
						if i >= 0 {
							nodes = append(nodes, kinds[i])
						}
					}
					var down, all, rev []int
					name := ""
					for i := range nodes {
						all = append(all, i)
						rev = append([]int{i}, rev...)
						name += nodes[i].name + "|"
						if nodes[i].name == "down" {
							down = append(down, i)
						}
					}
					for ti, ts := range tasks {
						for _, every := range []int{1, 2} {
							c := only(ts...)
							c.skip[tMeta] = every
							c.localOnly = (i1+i2+ti)%2 == 0
							m := &monitor{nodes: nodes, down: down, all: all, cfg: c, loops: loops, nilL: nilL}
							if every == 2 {
								m.all = rev
								m.cfg.localOnly = !m.cfg.localOnly
								if len(nodes) > 1 {
									m.puts = [][]Req{rq(na(Op{Kind: "add", Vec: vX}), na(Op{Kind: "add", Vec: vN}), Op{Kind: "add", NS: "new", Vec: vY})}
									for i := range m.puts[0] {
										m.puts[0][i].Node = 1
									}
									if nodes[1].name == "down" {
										m.puts = nil
									}
								}
							}
							if nilL {
								m.puts = nil
								m.loops = 3
							}
							if i1 >= 0 && nodes[1].name != "down" && (i1+i2+ti)%3 == 0 {
								m.away = len(nodes) - 1
								if m.nilL {
									m.cfg.skip[tMeta] = 1
									m.loops = 4
								}
								m.puts = nil
							}
							m.name = fmt.Sprintf("%s tasks %v meta every %d local %v away %d", name, ts, every, m.cfg.localOnly, m.away)
							ms = append(ms, m)
						}
					}
				}
			}
			n := "S6/monitor/" + k0.name
			if nilL {
				n += "/default"
			}
			us = append(us, Unit{Name: n, Run: func(u *U) { u.monitors(ms) }})
		}
	}
	for _, nilL := range []bool{false, true} {
		var ms []*monitor
		for ti, ts := range tasks {
			for _, local := range []bool{false, true} {
				c := only(ts...)
				c.localOnly = local
				wide := wideNodes()
				m := &monitor{nodes: wide, down: []int{len(wide) - 2}, cfg: c, loops: 3, nilL: nilL, name: fmt.Sprintf("seven nodes, many spaces, tasks %v, local %v", ts, local)}
				for i := range wide {
					m.all = append(m.all, (i+ti)%len(wide))
				}
				ms = append(ms, m)
			}
		}
		us = append(us, Unit{Name: fmt.Sprintf("S6/monitor/seven/%v", nilL), Run: func(u *U) { u.monitors(ms) }})
	}
	return us
}

func init() {
	checks["E04"] = func() Check {
		if thorough {
			return Check{Units: monitorUnits(12)}
		}
		return Check{Units: monitorUnits(4)}
	}
}
