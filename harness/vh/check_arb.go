package vh

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"trypo/pkg/arbiter"
	"vharness/vrt"

	"github.com/crunchypi/go-narb/apsa/common"
	narb "github.com/crunchypi/go-narb/apsa/rpc"
)

// B01: arbiter election.

const (
	arbSess = 5 * time.Second
	arbDur  = 70 * time.Second
)

func arbAddrs(n int) []arbiter.Addr {
	var r []arbiter.Addr
	for i := 0; i < n; i++ {
		r = append(r, arbiter.Addr{IP: fmt.Sprintf("127.0.0.%d", 1+(i+1)/2), Port: fmt.Sprint(7301 + i/2)})
	}
	return r
}

type arbNet struct {
	addrs []arbiter.Addr
	srv   []*arbiter.ArbiterServer
	stops []func()
}

// newArbNet starts members that may vote for each other; down is a bit set of
// the members that are not started.
func newArbNet(n, down int, sess, dur func(i int) time.Duration) (*arbNet, error) {
	a := &arbNet{addrs: arbAddrs(n)}
	for i, addr := range a.addrs {
		s := arbiter.NewArbiterServer(arbiter.NewSessionMemberConfig{
			LocalAddr: addr, Whitelist: arbAddrs(n), SessionDuration: sess(i), ArbiterDuration: dur(i),
		})
		a.srv = append(a.srv, s)
		if down>>i&1 == 1 {
			continue
		}
		stop, err := narb.StartListen(s, addr)
		if err != nil {
			return nil, err
		}
		a.stops = append(a.stops, stop)
	}
	return a, nil
}

func (a *arbNet) finish() {
	for _, s := range a.stops {
		s()
	}
}

func (a *arbNet) idx(x arbiter.Addr) int {
	for i, y := range a.addrs {
		if x == y {
			return i
		}
	}
	return -1
}

// arbRound is what one voting round showed.
type arbRound struct {
	votes    []int // -1 unknown
	started  bool
	elected  bool
	collFrom []time.Time // per member: begin and end of its vote collection
	collTo   []time.Time
	reports  []arbReport
}

type arbReport struct {
	member int
	at     time.Time
	resp   narb.ArbiterResp
	err    error
}

// winner returns the member with most votes, -1 without a unique one.
func winner(votes []int) int {
	c := map[int]int{}
	for _, v := range votes {
		c[v]++
	}
	best, n := -1, 0
	for v, k := range c {
		if k > n {
			best, n = v, k
		} else if k == n {
			best = -1
		}
	}
	return best
}

type arbScn struct {
	n, down int
	rounds  int
	wait    time.Duration // between the begin of the session and the collection
	force   int           // > 0: TryForceNewArbiter with so many tries
	same    bool          // a failed round is repeated under the same ID
}

func (s arbScn) String() string {
	return fmt.Sprintf("n=%d down=%b rounds=%d wait=%v force=%d same=%v", s.n, s.down, s.rounds, s.wait, s.force, s.same)
}

func (a *arbNet) reports(up []int) []arbReport {
	var out []arbReport
	for _, i := range up {
		var err error
		t := time.Now()
		resp := arbiter.ArbiterClient(a.addrs[i], &err).Arbiter()
		out = append(out, arbReport{i, t, resp, err})
	}
	return out
}

// arbAgree checks what holds whatever happened.
func arbAgree(a *arbNet, reps []arbReport) (string, string) {
	at := map[time.Time]int{}
	for _, p := range reps {
		if p.err != nil || p.resp.Status != common.StatusOK {
			continue
		}
		v := a.idx(p.resp.Addr)
		if v < 0 {
			return "member", fmt.Sprintf("member %d reports %v as valid arbiter, which is no allowed member", p.member, p.resp.Addr)
		}
		if w, ok := at[p.at]; ok && w != v {
			return "agree", fmt.Sprintf("members report the arbiters %d and %d at the same time, both as valid", w, v)
		}
		at[p.at] = v
		if p.at.After(p.resp.Expiration) {
			return "expiry", fmt.Sprintf("member %d reports an arbiter as valid at %v that expired at %v", p.member, p.at, p.resp.Expiration)
		}
	}
	return "", ""
}

// elections explores voting rounds; free: all orders of the answers.
func (u *U) elections(ss []arbScn, sched, faults int, free bool) {
	x := vrt.NewExplorer().Set(vrt.KSched, sched).Set(vrt.KFault, faults)
	u.Explore(x, func(r *R) {
		s := ss[r.Choose(vrt.KEnv, len(ss), false)]
		r.RandFree, r.RandMax, r.FreeSwitch = true, 8, free
		r.Direct()
		// Members differ in their durations, so that a mix-up shows.
		sess := func(i int) time.Duration { return arbSess + time.Duration(i)*time.Second }
		dur := func(i int) time.Duration { return arbDur + time.Duration(i)*time.Second }
		a, err := newArbNet(s.n, s.down, sess, dur)
		if err != nil {
			r.Fail("B01-start", "a member cannot listen: %v", err)
			return
		}
		if faults > 0 {
			r.Fault = func(stage, addr, method string) bool {
				if r.IsController() || r.IsHarness() || strings.HasSuffix(method, ".Arbiter") {
					return false
				}
				return r.Choose(vrt.KFault, 2, true) == 1
			}
		}
		var up []int
		for i := 0; i < s.n; i++ {
			if s.down>>i&1 == 0 {
				up = append(up, i)
			}
		}
		var out strings.Builder
		errs, stats := arbiter.ArbErrs{}, arbiter.ArbStats{}
		cl := arbiter.ArbiterClients(a.addrs, errs, stats)
		var rds []*arbRound
		quiet := faults == 0 && s.down == 0
		r.Go("client", func() {
			for k := 0; k < s.rounds; k++ {
				id := common.ID(fmt.Sprint("round", k))
				if s.same && k > 0 && !rds[k-1].elected {
					id = "round0"
				}
				rd := &arbRound{collFrom: make([]time.Time, s.n), collTo: make([]time.Time, s.n)}
				rds = append(rds, rd)
				if s.force > 0 {
					t := time.Now()
					rd.elected = cl.TryForceNewArbiter(s.force)
					rd.started = true
					for i := range a.addrs {
						rd.collFrom[i], rd.collTo[i] = t, time.Now()
					}
				} else {
					rd.started = cl.InitSession(id, a.addrs)
					for _, m := range a.srv {
						v, _, st := m.ArbiterSessionMember.Vote(id)
						if st == common.StatusOK {
							rd.votes = append(rd.votes, a.idx(v))
						} else {
							rd.votes = append(rd.votes, -1)
						}
					}
					time.Sleep(s.wait)
					rd.elected = true
					// One member after the other, as the protocol demands.
					for i, addr := range a.addrs {
						var err error
						rd.collFrom[i] = time.Now()
						st := arbiter.ArbiterClient(addr, &err).CollectVotes(id, a.addrs)
						rd.collTo[i] = time.Now()
						stats[addr], errs[addr] = st, err
						rd.elected = rd.elected && st == common.StatusOK
						time.Sleep(time.Second / 4)
					}
				}
				for _, d := range []time.Duration{0, arbDur / 2} {
					time.Sleep(d)
					rd.reports = append(rd.reports, a.reports(up)...)
				}
				// Just before, at and after the end of each member's arbiter.
				for _, i := range up {
					var end time.Time
					for _, p := range rd.reports {
						if p.member == i && p.err == nil && p.resp.Status == common.StatusOK {
							end = p.resp.Expiration
						}
					}
					if end.IsZero() {
						continue
					}
					for _, d := range []time.Duration{-1, 0, 1} {
						time.Sleep(time.Until(end.Add(d)))
						rd.reports = append(rd.reports, a.reports(up)...)
					}
				}
				if k+1 < s.rounds {
					// Leave a failed round to be repeated at once.
					if rd.elected {
						time.Sleep(time.Second)
					}
				}
			}
		})
		r.Run(nil)
		r.Quiesce(time.Hour)
		r.Direct()
		r.Log("%v", s)
		if r.Crash != "" || r.Stuck != "" {
			return
		}
		for k, rd := range rds {
			r.Log("round %d: started %v, votes %v, elected %v", k, rd.started, rd.votes, rd.elected)
			fmt.Fprintf(&out, "%v%v%v ", rd.started, rd.votes, rd.elected)
			for _, p := range rd.reports {
				r.Log("  member %d at %v: %v %v until %v err %v", p.member, p.at.Format("15:04:05.999999999"), p.resp.Status, p.resp.Addr, p.resp.Expiration.Format("15:04:05.999999999"), p.err)
			}
			if kk, m := arbAgree(a, rd.reports); kk != "" {
				r.Fail("B01-"+kk, "%s", m)
				return
			}
			for _, p := range rd.reports {
				i := p.member
				if p.err != nil {
					r.Fail("B01-report", "member %d cannot be asked for the arbiter: %v", i, p.err)
					return
				}
				if p.resp.Status == common.StatusOK && k == 0 {
					lo, hi := rd.collFrom[i].Add(dur(i)), rd.collTo[i].Add(dur(i))
					if p.resp.Expiration.Before(lo) || p.resp.Expiration.After(hi) {
						r.Fail("B01-duration", "member %d found its arbiter between %v and %v and keeps it until %v, configured are %v", i, rd.collFrom[i], rd.collTo[i], p.resp.Expiration, dur(i))
						return
					}
				}
				fmt.Fprintf(&out, "%d:%v:%d ", i, p.resp.Status, a.idx(p.resp.Addr))
			}
			if s.force > 0 {
				if quiet && rd.elected != errFree(rd.reports[:len(up)]) {
					r.Fail("B01-force", "the election is reported as %v, the members report %v", rd.elected, rd.reports[:len(up)])
					return
				}
				continue
			}
			if !quiet {
				continue
			}
			if k > 0 && !s.same && !rds[k-1].elected {
				// A failed round may only be repeated under its own ID.
				if rd.started || rd.elected {
					r.Fail("B01-session", "a failed round is replaced by another one: %v", stats)
					return
				}
				continue
			}
			if !rd.started {
				r.Fail("B01-session", "a session of whitelisted members does not start: %v %v", stats, errs)
				return
			}
			// Undisturbed: everything is determined by the votes and the time.
			expired := false
			for i := range a.addrs {
				for j := range a.addrs {
					if i != j && rd.collFrom[i].After(rd.collFrom[0].Add(-s.wait).Add(sess(j))) {
						expired = true
					}
				}
			}
			if expired {
				if rd.elected {
					r.Fail("B01-expired", "votes are taken after the end of the session: %v", rd.votes)
					return
				}
				continue
			}
			w := winner(rd.votes)
			if rd.elected != (w >= 0) {
				r.Fail("B01-outcome", "with the votes %v the election reports %v: %v", rd.votes, rd.elected, stats)
				return
			}
			for _, p := range rd.reports {
				switch {
				case w < 0 && p.resp.Status == common.StatusOK:
					r.Fail("B01-outcome", "member %d reports a valid arbiter without a majority: %v", p.member, rd.votes)
					return
				case w >= 0 && p.at.After(p.resp.Expiration) && p.resp.Status != common.StatusArbiterExpired:
					r.Fail("B01-expiry", "member %d reports %v after the arbiter's end", p.member, p.resp.Status)
					return
				case w >= 0 && !p.at.After(rd.collFrom[p.member].Add(dur(p.member))) && p.resp.Status != common.StatusOK:
					r.Fail("B01-expiry", "member %d reports %v before the arbiter's end", p.member, p.resp.Status)
					return
				case p.resp.Status == common.StatusOK && a.idx(p.resp.Addr) != w:
					r.Fail("B01-outcome", "with the votes %v member %d reports arbiter %d", rd.votes, p.member, a.idx(p.resp.Addr))
					return
				}
			}
		}
		r.Outcome(s.String() + " " + out.String())
		a.finish()
	})
}

func errFree(reps []arbReport) bool {
	for _, p := range reps {
		if p.resp.Status != common.StatusOK {
			return false
		}
	}
	return true
}

// arbWhite enumerates whitelists and vote options.
func (u *U) arbWhite() {
	all := arbAddrs(3)
	// Same host with another port and the same port on another host are others.
	all = append(all, arbiter.Addr{IP: all[0].IP, Port: all[2].Port})
	sub := func(m int) []arbiter.Addr {
		var r []arbiter.Addr
		for i, a := range all {
			if m>>i&1 == 1 {
				r = append(r, a)
			}
		}
		return r
	}
	x := vrt.NewExplorer()
	u.Explore(x, func(r *R) {
		w := r.Choose(vrt.KEnv, 16, false)
		local := r.Choose(vrt.KEnv, 4, false)
		o1 := 1 + r.Choose(vrt.KEnv, 15, false)
		o2 := 1 + r.Choose(vrt.KEnv, 15, false)
		r.Direct()
		white := sub(w)
		m := arbiter.NewSessionMember(arbiter.NewSessionMemberConfig{LocalAddr: all[local], Whitelist: white, SessionDuration: arbSess, ArbiterDuration: arbDur})
		r.Log("whitelist %v, local %v, session with %v, then with %v", white, all[local], sub(o1), sub(o2))
		inSession := false
		id := common.ID("")
		for k, o := range []int{o1, o2} {
			want := common.StatusOK
			if o&^w != 0 {
				want = common.StatusInvalidSessionMembers
			} else if inSession {
				want = common.StatusInSession
			}
			nid := common.ID(fmt.Sprint("s", k))
			opt := sub(o)
			if got := m.InitSession(nid, opt); got != want {
				r.Fail("B01-white", "session %d with %v: %v, not %v", k, opt, got, want)
				return
			}
			if want == common.StatusOK {
				inSession, id = true, nid
			}
			v, _, st := m.Vote(nid)
			if (st == common.StatusOK) != (inSession && id == nid) {
				r.Fail("B01-white", "session %d with %v was answered %v, a vote for it %v", k, opt, want, st)
				return
			}
			if st == common.StatusOK && !v.In(opt) {
				r.Fail("B01-vote", "vote for %v, options are %v", v, opt)
				return
			}
			_, st = m.Arbiter()
			if inSession != (st == common.StatusInSession) || !inSession && st != common.StatusNotInit {
				r.Fail("B01-white", "session %d with %v was answered %v, the member reports %v", k, opt, want, st)
				return
			}
		}
		if o2&^w != 0 {
			if st := m.CollectVotes(id, sub(o2)); st != common.StatusInvalidSessionMembers {
				r.Fail("B01-white", "vote collection with %v: %v", sub(o2), st)
			}
		}
		r.Outcome(fmt.Sprint(w, o1, o2, inSession))
	})
}

// arbSums enumerates the maps of errors and statuses.
func (u *U) arbSums(n int) {
	e1, e2 := errors.New("one"), errors.New("two")
	errsOf := []error{nil, e1, e2, errors.New("")}
	codes := []arbiter.StatusCode{common.StatusDefault, common.StatusInvalidSessionMembers, common.StatusInvalidSessionID, common.StatusInSession,
		common.StatusNotInSession, common.StatusFailedVoteCollection, common.StatusFailedVoteConsensus, common.StatusSessionExpired,
		common.StatusArbiterExpired, common.StatusOK, common.StatusNotInit}
	addrs := arbAddrs(n - 1)
	addrs = append(addrs, arbiter.Addr{}) // the empty address is an address, too
	x := vrt.NewExplorer().Set(vrt.KMap, 1)
	u.Explore(x, func(r *R) {
		r.Direct()
		r.MapChoice = true
		if r.Choose(vrt.KEnv, 2, false) == 0 {
			var m arbiter.ArbErrs
			have := false
			if r.Choose(vrt.KEnv, 2, false) == 1 {
				m = arbiter.ArbErrs{}
				for _, a := range addrs {
					if k := r.Choose(vrt.KEnv, len(errsOf)+1, false); k > 0 {
						m[a] = errsOf[k-1]
						have = have || errsOf[k-1] != nil
					}
				}
			}
			before := fmt.Sprint(m)
			a, err := m.CheckAll()
			r.Log("CheckAll of %v: %v %v", m, a, err)
			switch {
			case (err != nil) != have:
				r.Fail("B01-checkall", "CheckAll of %v: %v", m, err)
			case err != nil && m[a] != err:
				r.Fail("B01-checkall", "CheckAll of %v blames %v for %v", m, a, err)
			case err == nil && a != (arbiter.Addr{}):
				r.Fail("B01-checkall", "CheckAll of %v without errors returns %v", m, a)
			case before != fmt.Sprint(m):
				r.Fail("B01-checkall", "CheckAll changes %v to %v", before, m)
			}
			r.Outcome(before)
			return
		}
		var m arbiter.ArbStats
		sc := codes[r.Choose(vrt.KEnv, len(codes), false)]
		want := true
		if r.Choose(vrt.KEnv, 2, false) == 1 {
			m = arbiter.ArbStats{}
			for _, a := range addrs {
				if k := r.Choose(vrt.KEnv, len(codes)+1, false); k > 0 {
					m[a] = codes[k-1]
					want = want && codes[k-1] == sc
				}
			}
		}
		before := fmt.Sprint(m)
		got := m.UniformStatus(sc)
		r.Log("UniformStatus(%v) of %v: %v", sc, m, got)
		if got != want || before != fmt.Sprint(m) {
			r.Fail("B01-uniform", "UniformStatus(%v) of %v: %v", sc, before, got)
		}
		r.Outcome(before + fmt.Sprint(sc))
	})
}

func init() {
	checks["B01"] = func() Check {
		b, f := 1, 1
		waits := []time.Duration{0, arbSess - time.Second, arbSess, arbSess + 1, arbSess + time.Second, arbSess + 3*time.Second}
		if thorough {
			b, f = 2, 2
		}
		var us []Unit
		for n := 1; n <= 3; n++ {
			n := n
			var plain, late, force, same, down []arbScn
			plain = append(plain, arbScn{n: n, rounds: 1})
			same = append(same, arbScn{n: n, rounds: 2, same: true}, arbScn{n: n, rounds: 2})
			for _, w := range waits {
				late = append(late, arbScn{n: n, rounds: 1, wait: w})
			}
			tries := 2
			if n == 3 && !thorough {
				tries = 1
			}
			force = append(force, arbScn{n: n, rounds: 1, force: tries})
			for d := 1; d < 1<<n-1; d++ {
				down = append(down, arbScn{n: n, down: d, rounds: 1}, arbScn{n: n, down: d, rounds: 1, force: tries})
			}
			add := func(name string, ss []arbScn, b, f int, free bool) {
				if len(ss) > 0 {
					us = append(us, Unit{Name: fmt.Sprintf("B01/%s/%d", name, n), Run: func(u *U) { u.elections(ss, b, f, free) }})
				}
			}
			bb := b
			if n == 3 {
				bb--
			}
			add("round", plain, bb, 0, true)
			add("faults", plain, 0, f, n < 3 || thorough)
			add("late", late, 0, 0, true)
			add("again", same, 0, 0, n < 3)
			if n < 3 || thorough {
				add("again-faults", same, 0, f-bool2int(n == 3 && f > 1), n < 3)
			}
			add("force", force, bb, 0, true)
			if n > 1 {
				// If no member at all answers the ping, go-narb itself fails on
				// the empty list of options.
				add("force-faults", force, 0, min(f, n-1), n < 3 || thorough)
			}
			add("down", down, 0, 0, true)
		}
		us = append(us, Unit{Name: "B01/white", Run: func(u *U) { u.arbWhite() }})
		for n := 1; n <= 3; n++ {
			n := n
			us = append(us, Unit{Name: fmt.Sprint("B01/sums/", n), Run: func(u *U) { u.arbSums(n) }})
		}
		return Check{Units: us, Notes: []string{"votes are enumerated draws; identifiers are drawn from a counter"}}
	}
}

func bool2int(b bool) int {
	if b {
		return 1
	}
	return 0
}
