package vh

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"strings"
	"time"

	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/searchutils"
)

type (
	DP       = common.DataPoint
	Centroid = centroid.Centroid
	Manager  = centroidmanager.CentroidManager
	Receiver = common.DataPointReceiver
)

const eps = 1e-9

// measure is an independent implementation of a similarity measure; higher is
// nearer.
type measure struct {
	name  string
	score func(a, b []float64) float64
	knn   func([]float64, func() ([]float64, bool), int) []int
	kfn   func([]float64, func() ([]float64, bool), int) []int
}

func cosScore(a, b []float64) float64 {
	var dot, na, nb float64
	for i := range a {
		dot += a[i] * b[i]
		na += a[i] * a[i]
		nb += b[i] * b[i]
	}
	if na == 0 || nb == 0 {
		return 0
	}
	return dot / (math.Sqrt(na) * math.Sqrt(nb))
}

func eucScore(a, b []float64) float64 {
	var s float64
	for i := range a {
		s += (a[i] - b[i]) * (a[i] - b[i])
	}
	return -math.Sqrt(s)
}

var (
	cosM = &measure{"cos", cosScore, searchutils.KNNCos, searchutils.KFNCos}
	eucM = &measure{"euc", eucScore, searchutils.KNNEuc, searchutils.KFNEuc}
)

// DPS is a datapoint as observed.
type DPS struct {
	ID      string
	Vec     []float64
	Expires time.Time
	En      bool
}

func (d *DPS) live(now time.Time) bool { return !(d.En && now.After(d.Expires)) }

// GSnap is a group as observed.
type GSnap struct {
	Ptr *Centroid
	Vec []float64
	DPs []DPS
}

// Snap is a store as observed.
type Snap struct {
	Exists bool
	Now    time.Time
	Vec    []float64
	G      []GSnap
}

func cpv(v []float64) []float64 {
	if v == nil {
		return nil
	}
	return append(make([]float64, 0, len(v)), v...)
}

// idOf is the payload, abbreviated if it is long.
func idOf(p []byte) string {
	if len(p) <= 40 {
		return string(p)
	}
	h := fnv.New64a()
	h.Write(p)
	n := bytes.IndexByte(p, 0)
	if n < 0 || n > 16 {
		n = 16
	}
	return fmt.Sprintf("%s..%d..%x", p[:n], len(p), h.Sum64())
}

func snapDP(d *DP) DPS {
	return DPS{ID: idOf(d.Payload), Vec: cpv(d.Vec), Expires: d.Expires, En: d.ExpireEnabled}
}

func snapDPs(ds []DP) []DPS {
	r := make([]DPS, len(ds))
	for i := range ds {
		r[i] = snapDP(&ds[i])
	}
	return r
}

func snapGroup(c *Centroid) GSnap {
	return GSnap{Ptr: c, Vec: cpv(c.Vec()), DPs: snapDPs(c.DataPoints)}
}

func snapManager(cm *Manager) Snap {
	s := Snap{Exists: true, Now: time.Now(), Vec: cpv(cm.Vec())}
	for _, c := range cm.Centroids {
		s.G = append(s.G, snapGroup(c))
	}
	return s
}

func (s *Snap) total() int {
	n := 0
	for i := range s.G {
		n += len(s.G[i].DPs)
	}
	return n
}

// liveGroups lists for each group the unexpired members.
func (g *GSnap) liveDPs(now time.Time) []DPS {
	var r []DPS
	for i := range g.DPs {
		if g.DPs[i].live(now) {
			r = append(r, g.DPs[i])
		}
	}
	return r
}

func (s *Snap) liveIDs() map[string]int {
	m := map[string]int{}
	for i := range s.G {
		for j := range s.G[i].DPs {
			if s.G[i].DPs[j].live(s.Now) {
				m[s.G[i].DPs[j].ID]++
			}
		}
	}
	return m
}

func (s *Snap) allIDs() map[string]int {
	m := map[string]int{}
	for i := range s.G {
		for j := range s.G[i].DPs {
			m[s.G[i].DPs[j].ID]++
		}
	}
	return m
}

func (s *Snap) hasExpired() bool {
	for i := range s.G {
		for j := range s.G[i].DPs {
			if !s.G[i].DPs[j].live(s.Now) {
				return true
			}
		}
	}
	return false
}

func ids(ds []DPS) []string {
	r := make([]string, len(ds))
	for i := range ds {
		r[i] = ds[i].ID
	}
	return r
}

func idKey(ds []DPS) string {
	r := ids(ds)
	sort.Strings(r)
	return strings.Join(r, ",")
}

// partition is the multiset of non-empty live member sets.
func (s *Snap) partition(without map[string]bool) string {
	var r []string
	for i := range s.G {
		var l []DPS
		for _, d := range s.G[i].liveDPs(s.Now) {
			if !without[d.ID] {
				l = append(l, d)
			}
		}
		if len(l) > 0 {
			r = append(r, idKey(l))
		}
	}
	sort.Strings(r)
	return strings.Join(r, " | ")
}

// fullKey is an exact canonical description.
func (s *Snap) fullKey() string {
	if !s.Exists {
		return "(none)"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s;", fv(s.Vec))
	for i := range s.G {
		fmt.Fprintf(&b, "{%s:", fv(s.G[i].Vec))
		for _, d := range s.G[i].DPs {
			b.WriteString(d.ID)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	}
	return b.String()
}

// contentKey describes the groups by content, unordered, without centres.
func (s *Snap) contentKey() string {
	if !s.Exists {
		return "(none)"
	}
	var r []string
	for i := range s.G {
		if l := s.G[i].liveDPs(s.Now); len(l) > 0 {
			r = append(r, "{"+idKey(l)+"}")
		}
	}
	sort.Strings(r)
	return strings.Join(r, "")
}

func fv(v []float64) string {
	if v == nil {
		return "nil"
	}
	var b strings.Builder
	b.WriteByte('(')
	for i, x := range v {
		if i > 0 {
			b.WriteByte(' ')
		}
		if math.Abs(x) < 1e-12 {
			x = 0 // sums depend on the order of addition
		}
		fmt.Fprintf(&b, "%.6g", x)
	}
	b.WriteByte(')')
	return b.String()
}

func (s *Snap) String() string {
	if !s.Exists {
		return "(no namespace)"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "vec %s", fv(s.Vec))
	for i := range s.G {
		fmt.Fprintf(&b, " {%s:", fv(s.G[i].Vec))
		for _, d := range s.G[i].DPs {
			b.WriteByte(' ')
			b.WriteString(d.ID)
			b.WriteString(fv(d.Vec))
			if !d.live(s.Now) {
				b.WriteString("†")
			} else if d.En {
				b.WriteString("~")
			}
		}
		b.WriteByte('}')
	}
	return b.String()
}

func meanOf(vs [][]float64) []float64 {
	if len(vs) == 0 {
		return nil
	}
	r := make([]float64, len(vs[0]))
	for _, v := range vs {
		for i := range r {
			if i < len(v) {
				r[i] += v[i]
			}
		}
	}
	for i := range r {
		r[i] /= float64(len(vs))
	}
	return r
}

func closeVec(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !(math.Abs(a[i]-b[i]) <= 1e-6*(1+math.Abs(a[i])+math.Abs(b[i]))) {
			return false
		}
	}
	return true
}

func finite(v []float64) bool {
	for _, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}

func eqVec(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// eqDP compares an observed datapoint with the one that was put.
func eqDP(a, b *DPS) bool {
	return a.ID == b.ID && eqVec(a.Vec, b.Vec) && a.En == b.En && a.Expires.Equal(b.Expires)
}
