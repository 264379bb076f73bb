package vh

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

type judge func(m *M, s *Step) (key, msg string)

func bad(key, format string, a ...interface{}) (string, string) {
	return key, fmt.Sprintf(format, a...)
}

// ---- C03: a group's centre is the mean of its members.

func judgeC03(m *M, s *Step) (string, string) {
	check := func(g *GSnap, what string) (string, string) {
		if !finite(g.Vec) {
			return bad("centre-nan", "%s has centre %s", what, fv(g.Vec))
		}
		if len(g.DPs) == 0 {
			return "", ""
		}
		var vs [][]float64
		for i := range g.DPs {
			vs = append(vs, g.DPs[i].Vec)
		}
		if mean := meanOf(vs); !closeVec(mean, g.Vec) {
			return bad("centre-off", "%s reports centre %s but the mean of its %d members is %s", what, fv(g.Vec), len(g.DPs), fv(mean))
		}
		return "", ""
	}
	for i := range s.Post.G {
		if k, e := check(&s.Post.G[i], fmt.Sprintf("group %d", i)); k != "" {
			return k, e
		}
	}
	for i := range s.OutG {
		if k, e := check(&s.OutG[i], fmt.Sprintf("returned group %d", i)); k != "" {
			return k, e
		}
	}
	return "", ""
}

// ---- C04: the summary vector is the mean of the group centres.

func judgeC04(m *M, s *Step) (string, string) {
	if !finite(s.Post.Vec) {
		return bad("summary-nan", "summary vector is %s", fv(s.Post.Vec))
	}
	if len(s.Post.G) == 0 {
		return "", ""
	}
	var vs [][]float64
	for i := range s.Post.G {
		if !finite(s.Post.G[i].Vec) {
			return "", "" // C03's business
		}
		vs = append(vs, s.Post.G[i].Vec)
	}
	if mean := meanOf(vs); !closeVec(mean, s.Post.Vec) {
		return bad("summary-off", "summary vector is %s but the mean of the %d group centres is %s", fv(s.Post.Vec), len(vs), fv(mean))
	}
	return "", ""
}

// ---- C05: conservation.

// taken lists what the operation handed out (live members of extracted groups,
// accepted offers).
func (s *Step) taken() []DPS {
	var r []DPS
	switch s.Op.Kind {
	case "drainU", "drainO":
		r = append(r, s.Out...)
	case "knn":
		if s.Op.Drain {
			r = append(r, s.Out...)
		}
	case "nearest":
		if s.Op.Drain {
			for i := range s.OutG {
				r = append(r, s.OutG[i].DPs...)
			}
		}
	case "distExt":
		for _, o := range s.Offers {
			if o.Accepted {
				r = append(r, o.DP)
			}
		}
	}
	return r
}

// shown lists every datapoint the operation let the caller see.
func (s *Step) shown() []DPS {
	r := append([]DPS{}, s.Out...)
	for i := range s.OutG {
		r = append(r, s.OutG[i].DPs...)
	}
	for _, o := range s.Offers {
		r = append(r, o.DP)
	}
	return r
}

func judgeC05(m *M, s *Step) (string, string) {
	pre, post := s.Pre.liveIDs(), s.Post.allIDs()
	preAll := s.Pre.allIDs()
	for id, n := range post {
		if n > 1 {
			return bad("duplicated", "datapoint %s is stored %d times", id, n)
		}
	}
	for i := range s.Post.G {
		for j := range s.Post.G[i].DPs {
			d := &s.Post.G[i].DPs[j]
			o := m.reg[d.ID]
			if o == nil {
				return bad("invented", "unknown datapoint %q is stored", d.ID)
			}
			if !eqDP(d, o) {
				return bad("altered", "stored datapoint %s is now %v/%v/%v instead of %v/%v/%v", d.ID, fv(d.Vec), d.Expires, d.En, fv(o.Vec), o.Expires, o.En)
			}
		}
	}
	out := map[string]bool{}
	for _, d := range s.shown() {
		d := d
		o := m.reg[d.ID]
		if o == nil {
			return bad("invented", "unknown datapoint %q is returned", d.ID)
		}
		if !eqDP(&d, o) {
			return bad("altered", "returned datapoint %s is %v/%v/%v instead of %v/%v/%v", d.ID, fv(d.Vec), d.Expires, d.En, fv(o.Vec), o.Expires, o.En)
		}
		if preAll[d.ID] == 0 {
			return bad("invented", "datapoint %s is returned but was not stored", d.ID)
		}
	}
	for _, d := range s.taken() {
		if out[d.ID] {
			return bad("handed-twice", "datapoint %s is handed out twice", d.ID)
		}
		out[d.ID] = true
		if post[d.ID] > 0 {
			return bad("handed-and-kept", "datapoint %s is handed out and still stored", d.ID)
		}
	}
	accepted := s.Op.Kind == "add" && s.OK
	if accepted {
		if post[s.DP.ID] != 1 {
			return bad("lost", "accepted datapoint %s is not stored", s.DP.ID)
		}
	} else if s.Op.Kind == "add" && post[s.DP.ID] != 0 {
		return bad("stored-refused", "refused datapoint %s is stored", s.DP.ID)
	}
	now := s.Post.Now
	for id := range pre {
		if post[id] == 0 && !out[id] && m.reg[id].live(now) {
			return bad("lost", "unexpired datapoint %s is no longer stored and was not handed out", id)
		}
	}
	for id := range post {
		if preAll[id] == 0 && !(accepted && id == s.DP.ID) {
			return bad("resurrected", "datapoint %s reappeared", id)
		}
	}
	return "", ""
}

// ---- C06: lookups.

func (g *GSnap) liveCentre(s *Snap) []float64 {
	var vs [][]float64
	for _, d := range g.liveDPs(s.Now) {
		vs = append(vs, d.Vec)
	}
	if len(vs) == 0 {
		return g.Vec
	}
	return meanOf(vs)
}

func judgeC06(m *M, s *Step) (string, string) {
	if s.Op.Kind != "knn" {
		return "", ""
	}
	q := s.Op.Vec
	k := s.Op.N
	if k < 0 {
		k = 0
	}
	now := s.Pre.Now
	where := map[string]int{}
	byID := map[string]*DPS{}
	n := 0
	for i := range s.Pre.G {
		for j := range s.Pre.G[i].DPs {
			d := &s.Pre.G[i].DPs[j]
			if d.live(now) && len(d.Vec) == len(q) {
				where[d.ID] = i
				byID[d.ID] = d
				n++
			}
		}
	}
	want := k
	if n < want {
		want = n
	}
	seen := map[string]bool{}
	for i := range s.Out {
		id := s.Out[i].ID
		if seen[id] {
			return bad("lookup-dup", "lookup returns %s twice", id)
		}
		seen[id] = true
		if byID[id] == nil {
			return bad("lookup-wrong", "lookup returns %s, which is not an unexpired stored datapoint of the query's dimension", id)
		}
	}
	if len(s.Out) != want {
		return bad("lookup-count", "lookup of %d returns %d datapoints although %d comparable unexpired ones are stored", s.Op.N, len(s.Out), n)
	}
	// Non-drain changes nothing, drain removes exactly the results.
	rm := map[string]bool{}
	if s.Op.Drain {
		rm = seen
	}
	if a, b := s.Pre.partition(rm), s.Post.partition(nil); a != b {
		return bad("lookup-effect", "groups after the lookup are [%s], expected [%s]", b, a)
	}
	rank := func(centre func(g *GSnap) []float64) string {
		score := make([]float64, len(s.Pre.G))
		for i := range s.Pre.G {
			c := centre(&s.Pre.G[i])
			if len(c) == len(q) {
				score[i] = m.ms.score(q, c)
			} else {
				score[i] = math.Inf(-1)
			}
		}
		visited := map[int]bool{}
		last := -1
		for i := range s.Out {
			g := where[s.Out[i].ID]
			if g != last {
				if visited[g] {
					return fmt.Sprintf("members of group %d are not contiguous in the result", g)
				}
				visited[g] = true
				if last >= 0 && score[g] > score[last]+eps {
					return fmt.Sprintf("group %d (centre similarity %.9g) is visited before the nearer group %d (%.9g)", last, score[last], g, score[g])
				}
				last = g
			} else if a, b := m.ms.score(q, s.Out[i-1].Vec), m.ms.score(q, s.Out[i].Vec); b > a+eps {
				return fmt.Sprintf("inside group %d, %s comes before the nearer %s", g, s.Out[i-1].ID, s.Out[i].ID)
			}
		}
		for id, d := range byID {
			if seen[id] {
				continue
			}
			g := where[id]
			sd := m.ms.score(q, d.Vec)
			for i := range s.Out {
				h := where[s.Out[i].ID]
				if h == g && sd > m.ms.score(q, s.Out[i].Vec)+eps {
					return fmt.Sprintf("skipped %s of group %d is nearer than the returned %s", id, g, s.Out[i].ID)
				}
				if h != g && score[g] > score[h]+eps {
					return fmt.Sprintf("%s of group %d is skipped although members of the further group %d are returned", id, g, h)
				}
			}
			if len(s.Out) > 0 && last != g && visited[g] {
				return fmt.Sprintf("%s of group %d is skipped although the lookup went on to another group", id, g)
			}
		}
		return ""
	}
	e1 := rank(func(g *GSnap) []float64 { return g.Vec })
	if e1 == "" {
		return "", ""
	}
	if rank(func(g *GSnap) []float64 { return g.liveCentre(&s.Pre) }) == "" {
		return "", ""
	}
	return bad("lookup-order", "%s (results %v)", e1, ids(s.Out))
}

// ---- C07: drains.

func judgeC07(m *M, s *Step) (string, string) {
	var amount int
	var took []DPS
	switch s.Op.Kind {
	case "drainU", "drainO":
		took = s.Out
	case "distExt":
		if s.NRecv == 0 {
			if len(s.Offers) > 0 {
				return bad("drain-count", "datapoints moved without receivers")
			}
			return "", ""
		}
		comparable := false
		if len(s.Pre.G) > 0 {
			for _, r := range recvSets[s.Op.Recv] {
				if len(r.v) == len(s.Pre.G[0].Vec) {
					comparable = true
				}
			}
		}
		seen := map[string]bool{}
		for _, o := range s.Offers {
			if !seen[o.DP.ID] {
				took = append(took, o.DP)
			}
			seen[o.DP.ID] = true
		}
		if !comparable {
			if len(took) > 0 {
				return "", ""
			}
			return "", ""
		}
	case "distInt":
		// Moved: those whose group changed. Groups keep their identity.
		n := 0
		was := map[string]*Centroid{}
		for i := range s.Pre.G {
			for _, d := range s.Pre.G[i].DPs {
				was[d.ID] = s.Pre.G[i].Ptr
			}
		}
		for i := range s.Post.G {
			for _, d := range s.Post.G[i].DPs {
				if was[d.ID] != s.Post.G[i].Ptr {
					n++
				}
			}
		}
		lim := s.Op.N
		if lim < 0 {
			lim = 0
		}
		if n > lim && s.Pre.G[0].Ptr != nil {
			return bad("moved-too-many", "%d datapoints changed groups, at most %d may", n, lim)
		}
		return "", ""
	default:
		return "", ""
	}
	now := s.Pre.Now
	amount = len(took)
	n := s.Op.N
	if n < 0 {
		n = 0
	}
	if amount > n {
		return bad("drain-count", "%d datapoints taken, at most %d were asked for", amount, n)
	}
	tot := s.Pre.total()
	if !s.Pre.hasExpired() {
		want := n
		if tot < want {
			want = tot
		}
		if amount != want {
			return bad("drain-count", "%d datapoints taken of %d stored, %d were asked for", amount, tot, n)
		}
	}
	isTook := map[string]bool{}
	for _, d := range took {
		isTook[d.ID] = true
	}
	a := make([]int, len(s.Pre.G))
	left := make([]int, len(s.Pre.G))
	for i := range s.Pre.G {
		for _, d := range s.Pre.G[i].liveDPs(now) {
			if isTook[d.ID] {
				a[i]++
			} else {
				left[i]++
			}
		}
	}
	for i := range a {
		for j := range a {
			if a[i] > a[j]+1 && left[j] > 0 {
				return bad("drain-uneven", "group %d gave %d datapoints, group %d gave %d and has %d left", i, a[i], j, a[j], left[j])
			}
		}
	}
	if s.Op.Kind == "drainU" {
		return "", ""
	}
	for i := range s.Pre.G {
		g := &s.Pre.G[i]
		worst := func(c []float64) string {
			for _, d := range g.liveDPs(now) {
				if isTook[d.ID] {
					continue
				}
				for _, t := range g.liveDPs(now) {
					if isTook[t.ID] && m.ms.score(c, t.Vec) > m.ms.score(c, d.Vec)+eps {
						return fmt.Sprintf("group %d gave %s although %s fits its centre %s worse", i, t.ID, d.ID, fv(c))
					}
				}
			}
			return ""
		}
		if e := worst(g.Vec); e != "" && worst(g.liveCentre(&s.Pre)) != "" {
			return bad("not-worst-fit", "%s", e)
		}
	}
	return "", ""
}

// ---- C08: expiry.

func judgeC08(m *M, s *Step) (string, string) {
	now := s.Pre.Now
	switch s.Op.Kind {
	case "add":
		if !s.DP.live(now) {
			if s.OK {
				return bad("expired-accepted", "expired datapoint %s was accepted", s.DP.ID)
			}
			if s.Post.allIDs()[s.DP.ID] > 0 {
				return bad("expired-accepted", "expired datapoint %s was stored", s.DP.ID)
			}
		} else if !s.OK && s.Op.Exp != xNone && s.Pre.dimOK(s.DP.Vec) {
			return bad("live-refused", "unexpired datapoint %s (expires %v, enabled %v, now %v) was refused", s.DP.ID, s.DP.Expires, s.DP.En, now)
		}
	case "knn", "drainU", "drainO":
		for i := range s.Out {
			if !s.Out[i].live(now) {
				return bad("expired-surfaced", "expired datapoint %s was returned", s.Out[i].ID)
			}
		}
	case "distExt":
		for _, o := range s.Offers {
			if !o.DP.live(now) {
				return bad("expired-surfaced", "expired datapoint %s was offered to a receiver", o.DP.ID)
			}
		}
	case "expire", "memtrim":
		if s.Post.hasExpired() {
			return bad("expired-left", "expired datapoints remain stored after %s: %s", s.Op.Kind, s.Post.String())
		}
	}
	out := map[string]bool{}
	for _, d := range s.taken() {
		out[d.ID] = true
	}
	post := s.Post.allIDs()
	for id := range s.Pre.liveIDs() {
		d := m.reg[id]
		if d == nil || post[id] > 0 || out[id] || !d.live(s.Post.Now) {
			continue
		}
		switch s.Op.Kind {
		case "expire", "memtrim", "move", "knn", "nearest", "tick", "vec", "lendp":
			return bad("live-dropped", "unexpired datapoint %s (expires %v, enabled %v, now %v) was dropped", id, d.Expires, d.En, now)
		default:
			if !d.Expires.IsZero() {
				return bad("live-dropped", "unexpired datapoint %s (expires %v, enabled %v, now %v) was dropped", id, d.Expires, d.En, now)
			}
		}
	}
	return "", ""
}

// dimOK tells whether a vector could be stored.
func (s *Snap) dimOK(v []float64) bool {
	if len(s.G) == 0 {
		return true
	}
	for i := range s.G {
		if len(s.G[i].Vec) == len(v) {
			return true
		}
	}
	return false
}

// ---- C09: split, merge, trim.

// postParts maps every live pre group to the indexes of post groups holding
// its members.
func judgeC09(m *M, s *Step) (string, string) {
	pre, post := &s.Pre, &s.Post
	now := post.Now
	home := map[string]int{}
	for i := range post.G {
		for _, d := range post.G[i].DPs {
			home[d.ID] = i
		}
	}
	parts := func(g *GSnap) map[int]int {
		r := map[int]int{}
		for _, d := range g.liveDPs(now) {
			if h, ok := home[d.ID]; ok {
				r[h]++
			} else {
				r[-1]++
			}
		}
		return r
	}
	origins := func(h int) map[int]bool {
		r := map[int]bool{}
		for i := range pre.G {
			for _, d := range pre.G[i].liveDPs(now) {
				if x, ok := home[d.ID]; ok && x == h {
					r[i] = true
				}
			}
		}
		return r
	}
	switch s.Op.Kind {
	case "split":
		for i := range pre.G {
			g := &pre.G[i]
			n := len(g.DPs)
			live := g.liveDPs(now)
			p := parts(g)
			if p[-1] > 0 {
				return bad("split-lost", "group %d lost members in a split", i)
			}
			for h := range p {
				if o := origins(h); len(o) > 1 {
					return bad("split-mixed", "group %d is mixed with others by a split", i)
				}
			}
			sel := s.Op.selects(n, g.Vec)
			if !sel || n < 2 {
				if len(p) > 1 {
					return bad("split-unselected", "group %d of %d members, not to be split, was split", i, n)
				}
				continue
			}
			if len(live) != n {
				if len(p) > 2 {
					return bad("split-parts", "group %d was split into %d parts", i, len(p))
				}
				continue
			}
			if len(p) != 2 {
				return bad("split-missing", "selected group %d of %d members is in %d parts", i, n, len(p))
			}
			var sz []int
			for _, c := range p {
				sz = append(sz, c)
			}
			if d := sz[0] - sz[1]; d > 1 || d < -1 {
				return bad("split-uneven", "selected group %d of %d members was split %d : %d", i, n, sz[0], sz[1])
			}
		}
	case "merge":
		sel := func(g *GSnap) bool { return s.Op.selects(len(g.DPs), g.Vec) }
		anySel := 0
		cand := -1
		for i := range pre.G {
			if sel(&pre.G[i]) {
				anySel++
				cand = i
			}
		}
		if len(post.G) > 1 {
			for i := range post.G {
				if sel(&post.G[i]) {
					return bad("merge-left", "selected group %d of %d members is left among %d groups", i, len(post.G[i].DPs), len(post.G))
				}
			}
		}
		for i := range pre.G {
			p := parts(&pre.G[i])
			if len(p) > 1 {
				return bad("merge-tore", "group %d was torn apart by a merge", i)
			}
		}
		if anySel == 0 {
			if a, b := pre.partition(nil), post.partition(nil); a != b || len(pre.G) != len(post.G) {
				return bad("merge-unselected", "no group was selected but groups changed from [%s] to [%s]", a, b)
			}
		}
		if anySel == 1 && !pre.hasExpired() && s.Op.Pred == "" {
			c := &pre.G[cand]
			in := map[int]bool{}
			if len(c.DPs) > 0 {
				for h := range parts(c) {
					in = origins(h)
				}
				delete(in, cand)
				size := len(c.DPs)
				score := func(i int) float64 { return m.ms.score(c.Vec, pre.G[i].Vec) }
				worst := math.Inf(1)
				worstI := -1
				for i := range in {
					size += len(pre.G[i].DPs)
					if score(i) < worst {
						worst, worstI = score(i), i
					}
				}
				for i := range pre.G {
					if i == cand || in[i] || len(pre.G[i].DPs) == 0 {
						continue
					}
					if len(in) > 0 && score(i) > worst+eps {
						return bad("merge-order", "group %d was merged into group %d although group %d is nearer", worstI, cand, i)
					}
					for h := range parts(&pre.G[i]) {
						if o := origins(h); len(o) > 1 {
							return bad("merge-unselected", "group %d was merged although it was neither selected nor needed", i)
						}
					}
				}
				if worstI >= 0 {
					tied := 0
					for i := range in {
						if math.Abs(score(i)-worst) <= eps {
							tied++
						}
					}
					if tied == 1 && !s.Op.selects(size-len(pre.G[worstI].DPs), nil) {
						return bad("merge-excess", "group %d was merged although group %d no longer satisfied the criterion", worstI, cand)
					}
				}
			}
		}
	case "memtrim":
		for i := range post.G {
			if len(post.G[i].DPs) == 0 {
				return bad("trim-empty", "an empty group remains after trimming")
			}
		}
		if post.hasExpired() {
			return bad("trim-expired", "an expired datapoint remains after trimming")
		}
		if a, b := pre.partition(nil), post.partition(nil); a != b {
			return bad("trim-changed", "trimming changed the groups from [%s] to [%s]", a, b)
		}
	case "add":
		if !s.OK || m.thr < 2 {
			break
		}
		if _, ok := home[s.DP.ID]; !ok || len(pre.G) == 0 || pre.hasExpired() {
			break
		}
		// Which group it joined is C10's business: any that explains the
		// groups now stored will do.
		var postSets []map[string]bool
		for i := range post.G {
			set := map[string]bool{}
			for _, d := range post.G[i].DPs {
				set[d.ID] = true
			}
			postSets = append(postSets, set)
		}
		h := home[s.DP.ID]
		joined := -1
		for i := range pre.G {
			grown := map[string]bool{s.DP.ID: true}
			for _, d := range pre.G[i].DPs {
				grown[d.ID] = true
			}
			whole := sameSet(postSets[h], grown) && len(post.G) == len(pre.G)
			halves := false
			for j := range postSets {
				if j == h || len(postSets[j]) == 0 || len(postSets[j])+len(postSets[h]) != len(grown) || len(post.G) != len(pre.G)+1 {
					continue
				}
				u := map[string]bool{}
				for id := range postSets[j] {
					u[id] = true
				}
				for id := range postSets[h] {
					u[id] = true
				}
				halves = halves || sameSet(u, grown)
			}
			if reach := len(grown) >= m.thr; reach && halves || !reach && whole {
				return "", ""
			}
			if whole || halves {
				joined = i
			}
		}
		if joined >= 0 {
			n := len(pre.G[joined].DPs) + 1
			if n >= m.thr {
				return bad("autosplit-missing", "group %d reached the limit %d by this add but was not split", joined, m.thr)
			}
			return bad("autosplit-early", "group %d has only %d members, limit %d, but was split by this add", joined, n, m.thr)
		}
		return bad("autosplit-wrong", "the groups after the add are not those before with one grown group, split if it reached the limit %d", m.thr)
	}
	return "", ""
}

func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// nearestGroups lists the groups whose centre is (tied) nearest to v.
func (m *M) nearestGroups(s *Snap, v []float64) []int {
	best := math.Inf(-1)
	for i := range s.G {
		if len(s.G[i].Vec) == len(v) {
			if sc := m.ms.score(v, s.G[i].Vec); sc > best {
				best = sc
			}
		}
	}
	var r []int
	for i := range s.G {
		if len(s.G[i].Vec) == len(v) && m.ms.score(v, s.G[i].Vec) >= best-eps {
			r = append(r, i)
		}
	}
	return r
}

// ---- C10: placement.

func judgeC10(m *M, s *Step) (string, string) {
	pre, post := &s.Pre, &s.Post
	switch s.Op.Kind {
	case "add":
		if !s.OK {
			if s.DP.live(pre.Now) && pre.dimOK(s.DP.Vec) {
				return bad("refused", "unexpired datapoint %s of a fitting dimension was refused", s.DP.ID)
			}
			return "", ""
		}
		var home *GSnap
		for i := range post.G {
			for _, d := range post.G[i].DPs {
				if d.ID == s.DP.ID {
					home = &post.G[i]
				}
			}
		}
		if home == nil {
			return bad("placed-nowhere", "accepted datapoint %s is in no group", s.DP.ID)
		}
		rest := map[string]bool{}
		for _, d := range home.DPs {
			if d.ID != s.DP.ID {
				rest[d.ID] = true
			}
		}
		if len(pre.G) == 0 {
			if len(rest) > 0 {
				return bad("placed-wrong", "first datapoint is not alone")
			}
			return "", ""
		}
		best := m.nearestGroups(pre, s.DP.Vec)
		for _, i := range best {
			g := &pre.G[i]
			mem := map[string]bool{}
			for _, d := range g.DPs {
				mem[d.ID] = true
			}
			sub := true
			for id := range rest {
				if !mem[id] {
					sub = false
				}
			}
			split := m.thr > 1 && len(g.DPs)+1 >= m.thr
			live := len(g.liveDPs(post.Now))
			if sub && (len(rest) > 0 || live == 0 || split) {
				return "", ""
			}
		}
		return bad("placed-wrong", "datapoint %s%s joined a group with %v; the nearest group is %d, centre %s", s.DP.ID, fv(s.DP.Vec), sortedKeys(rest), first(best), fv(pre.G[first(best)].Vec))
	case "distExt":
		first := map[string]*Offer{}
		acc := map[string]bool{}
		for i := range s.Offers {
			o := &s.Offers[i]
			if first[o.DP.ID] == nil {
				first[o.DP.ID] = o
				best := math.Inf(-1)
				for _, v := range o.Vecs {
					if len(v) == len(o.DP.Vec) {
						best = math.Max(best, m.ms.score(o.DP.Vec, v))
					}
				}
				v := o.Vecs[o.To]
				if len(v) != len(o.DP.Vec) || m.ms.score(o.DP.Vec, v) < best-eps {
					return bad("offered-wrong", "datapoint %s%s was offered to receiver %d at %s, which is not the nearest of %v", o.DP.ID, fv(o.DP.Vec), o.To, fv(v), o.Vecs)
				}
			}
			if o.Accepted {
				acc[o.DP.ID] = true
			}
		}
		if a, b := pre.partition(acc), post.partition(nil); a != b {
			return bad("distribute-origin", "after distributing, the remaining groups are [%s], expected [%s]", b, a)
		}
	case "distInt":
		if s.Op.N != 1 || pre.hasExpired() || len(pre.G) == 0 || pre.G[0].Ptr == nil {
			return "", ""
		}
		was := map[string]int{}
		for i := range pre.G {
			for _, d := range pre.G[i].DPs {
				was[d.ID] = i
			}
		}
		idx := map[*Centroid]int{}
		for i := range pre.G {
			idx[pre.G[i].Ptr] = i
		}
		moved := ""
		to := -1
		for i := range post.G {
			j, ok := idx[post.G[i].Ptr]
			if !ok {
				return "", ""
			}
			for _, d := range post.G[i].DPs {
				if was[d.ID] != j {
					if moved != "" {
						return "", ""
					}
					moved, to = d.ID, j
				}
			}
		}
		centres := func(g int, id string) [][]float64 {
			r := make([][]float64, len(pre.G))
			for i := range pre.G {
				r[i] = pre.G[i].Vec
			}
			var vs [][]float64
			for _, d := range pre.G[g].DPs {
				if d.ID != id {
					vs = append(vs, d.Vec)
				}
			}
			if len(vs) > 0 {
				r[g] = meanOf(vs)
			}
			return r
		}
		best := func(v []float64, cs [][]float64) float64 {
			b := math.Inf(-1)
			for _, c := range cs {
				b = math.Max(b, m.ms.score(v, c))
			}
			return b
		}
		if moved != "" {
			g := was[moved]
			cs := centres(g, moved)
			v := m.reg[moved].Vec
			if m.ms.score(v, cs[to]) < best(v, cs)-eps {
				return bad("internal-wrong", "datapoint %s moved to group %d, which is not the nearest", moved, to)
			}
			return "", ""
		}
		any := false
		for g := range pre.G {
			for _, d := range pre.G[g].DPs {
				any = true
				isWorst := true
				for _, o := range pre.G[g].DPs {
					if m.ms.score(pre.G[g].Vec, o.Vec) < m.ms.score(pre.G[g].Vec, d.Vec)-eps {
						isWorst = false
					}
				}
				if !isWorst {
					continue
				}
				cs := centres(g, d.ID)
				if m.ms.score(d.Vec, cs[g]) >= best(d.Vec, cs)-eps {
					return "", ""
				}
			}
		}
		if any {
			return bad("internal-none", "an internal distribution moved nothing although every group's worst member is nearer to another group")
		}
	case "nearestVec":
		b := m.nearestGroups(pre, s.Op.Vec)
		if len(b) == 0 {
			if s.OutVec != nil {
				return bad("nearest-wrong", "a nearest centre %s is reported although no group is comparable", fv(s.OutVec))
			}
			return "", ""
		}
		for _, i := range b {
			if eqVec(pre.G[i].Vec, s.OutVec) {
				return "", ""
			}
		}
		return bad("nearest-wrong", "the nearest centre reported is %s, not %s", fv(s.OutVec), fv(pre.G[b[0]].Vec))
	case "nearest":
		q := s.Op.Vec
		n := s.Op.N
		if n < 0 {
			n = 0
		}
		comp := 0
		for i := range pre.G {
			if len(pre.G[i].Vec) == len(q) {
				comp++
			}
		}
		want := n
		if comp < want {
			want = comp
		}
		if len(s.OutG) != want {
			return bad("nearest-count", "%d groups returned, %d asked for, %d comparable", len(s.OutG), s.Op.N, comp)
		}
		if s.OK != (want > 0) {
			return bad("nearest-ok", "reported success %v with %d groups", s.OK, want)
		}
		// Match returned groups with stored ones (by identity, else by content).
		used := map[int]bool{}
		var order []int
		for i := range s.OutG {
			f := -1
			for j := range pre.G {
				if used[j] {
					continue
				}
				same := s.OutG[i].Ptr == pre.G[j].Ptr
				if pre.G[j].Ptr == nil || s.OutG[i].Ptr == nil || m.x["remote"] != nil {
					same = idKey(s.OutG[i].DPs) == idKey(pre.G[j].DPs)
				}
				if same {
					f = j
					break
				}
			}
			if f < 0 {
				return bad("nearest-wrong", "returned group %d is not a stored group (or returned twice)", i)
			}
			if idKey(s.OutG[i].DPs) != idKey(pre.G[f].DPs) {
				return bad("nearest-wrong", "returned group %d has members [%s], it had [%s]", i, idKey(s.OutG[i].DPs), idKey(pre.G[f].DPs))
			}
			used[f] = true
			order = append(order, f)
		}
		for i := 1; i < len(order); i++ {
			if m.ms.score(q, pre.G[order[i]].Vec) > m.ms.score(q, pre.G[order[i-1]].Vec)+eps {
				return bad("nearest-order", "returned group %d is nearer than group %d before it", i, i-1)
			}
		}
		for j := range pre.G {
			if used[j] || len(pre.G[j].Vec) != len(q) || len(order) == 0 {
				continue
			}
			if m.ms.score(q, pre.G[j].Vec) > m.ms.score(q, pre.G[order[len(order)-1]].Vec)+eps {
				return bad("nearest-skipped", "group at %s is nearer than a returned one at %s", fv(pre.G[j].Vec), fv(pre.G[order[len(order)-1]].Vec))
			}
		}
		var want2 []string
		for j := range pre.G {
			if !(s.Op.Drain && used[j]) {
				want2 = append(want2, "{"+idKey(pre.G[j].DPs)+"}")
			}
		}
		var got []string
		for j := range post.G {
			got = append(got, "{"+idKey(post.G[j].DPs)+"}")
		}
		sort.Strings(want2)
		sort.Strings(got)
		if strings.Join(want2, "") != strings.Join(got, "") {
			return bad("nearest-removal", "groups afterwards are %v, expected %v", got, want2)
		}
	}
	return "", ""
}

func first(r []int) int {
	if len(r) > 0 {
		return r[0]
	}
	return 0
}

// ---- C11: bad requests.

// badRequest tells whether a request cannot be honoured as given.
func (m *M) badRequest(s *Step) bool {
	o := s.Op
	switch o.Kind {
	case "add":
		return !s.DP.live(s.Pre.Now) || !s.Pre.dimOK(o.Vec)
	case "knn", "nearest":
		return o.N < 0 || o.N > 1000 || !s.Pre.dimOK(o.Vec)
	case "drainU", "drainO", "distInt", "distExt":
		return o.N < 0 || o.N > 1000 || o.Kind == "distExt" && o.Recv >= 3
	}
	return false
}

func judgeC11(m *M, s *Step) (string, string) {
	if !m.badRequest(s) {
		return "", ""
	}
	o := s.Op
	if o.Kind == "add" {
		if s.OK {
			return bad("bad-accepted", "an add that cannot be honoured reported success")
		}
		if s.Post.Exists != s.Pre.Exists {
			return bad("bad-effect", "a refused add created the namespace")
		}
		if len(s.Post.G) != len(s.Pre.G) {
			return bad("bad-effect", "a refused add changed the number of groups")
		}
	}
	if o.Kind == "knn" && s.Pre.Exists && !s.Pre.dimOK(o.Vec) && len(s.Out) > 0 {
		return bad("bad-answer", "a lookup with a vector of dimension %d returned %v", len(o.Vec), ids(s.Out))
	}
	if o.N < 0 && (len(s.taken()) > 0 || len(s.Out) > 0) {
		return bad("bad-effect", "a negative count handed out %v", ids(s.taken()))
	}
	if o.N < 0 || o.Kind == "add" || (o.Kind == "distExt" && o.Recv >= 3 && len(s.Offers) == 0) || ((o.Kind == "knn" || o.Kind == "nearest") && !s.Pre.dimOK(o.Vec)) {
		if a, b := s.Pre.partition(nil), s.Post.partition(nil); a != b {
			return bad("bad-effect", "the request changed the groups from [%s] to [%s]", a, b)
		}
	}
	if o.N > 1000 {
		// Complete result.
		live := 0
		for i := range s.Pre.G {
			for _, d := range s.Pre.G[i].liveDPs(s.Pre.Now) {
				if o.Kind != "knn" || len(d.Vec) == len(o.Vec) {
					live++
				}
			}
		}
		switch o.Kind {
		case "knn", "drainU", "drainO":
			if len(s.Out) != live {
				return bad("bad-answer", "a request for %d datapoints returned %d of %d", o.N, len(s.Out), live)
			}
		}
	}
	k, e := judgeC05(m, s)
	return k, e
}
