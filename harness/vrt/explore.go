// Package vrt is the controlled runtime: a choice-driven depth-first explorer
// and a cooperative scheduler living in a testing/synctest bubble.
package vrt

import "fmt"

// Kind classifies a choice; every kind has its own deviation budget.
type Kind uint8

const (
	KSched Kind = iota // which thread runs next
	KFault             // environment faults (lost request, lost reply, refused dial)
	KMap               // map iteration order
	KRand              // random draws
	KTime              // let time pass although a thread could run
	KEnv               // scenario-level choices
	nKinds
)

func (k Kind) String() string {
	return [...]string{"sched", "fault", "map", "rand", "time", "env"}[k]
}

type point struct {
	n, pick int
	kind    Kind
	cost    bool // alternatives cost one deviation of the kind
}

// Explorer enumerates, depth first, every sequence of choices whose number of
// deviations (picks other than 0 at points that cost) stays within the budget
// of each kind.
type Explorer struct {
	Budget [nKinds]int // maximal deviations per kind
	Total  int         // maximal deviations overall; <0: unbounded

	prefix   []int
	prefixN  []int
	path     []point
	Execs    int
	Points   int
	Diverged string // set if a replayed prefix met a different choice
	done     bool
}

func NewExplorer() *Explorer {
	e := &Explorer{Total: -1}
	return e
}

func (x *Explorer) Set(k Kind, n int) *Explorer { x.Budget[k] = n; return x }

// Choose picks one of n alternatives.
func (x *Explorer) Choose(kind Kind, n int, cost bool) int {
	if n <= 1 {
		return 0
	}
	i := len(x.path)
	pick := 0
	if i < len(x.prefix) {
		pick = x.prefix[i]
		if pick >= n || (i < len(x.prefixN) && x.prefixN[i] != n) {
			if x.Diverged == "" {
				x.Diverged = fmt.Sprintf("choice %d: kind %v, %d alternatives, recorded %v of %v", i, kind, n, pick, x.prefixN)
			}
			if pick >= n {
				pick = 0
			}
		}
	}
	x.path = append(x.path, point{n, pick, kind, cost})
	x.Points++
	return pick
}

// Begin starts an execution; false when the space is exhausted.
func (x *Explorer) Begin() bool {
	if x.done {
		return false
	}
	x.path = x.path[:0]
	x.Execs++
	return true
}

// Replay sets the choices of the next execution.
func (x *Explorer) Replay(choices []int) { x.prefix = choices; x.prefixN = nil }

// Resume makes the next execution start at prefix c (with recorded sizes n).
func (x *Explorer) Resume(c, n []int) { x.prefix, x.prefixN = c, n }

// Choices returns the picks of the current execution, trailing zeros removed.
func (x *Explorer) Choices() []int {
	r := make([]int, len(x.path))
	for i, p := range x.path {
		r[i] = p.pick
	}
	for len(r) > 0 && r[len(r)-1] == 0 {
		r = r[:len(r)-1]
	}
	return r
}

// Deviations is the number of paid deviations of the current execution.
func (x *Explorer) Deviations() int {
	d := 0
	for _, p := range x.path {
		if p.cost && p.pick > 0 {
			d++
		}
	}
	return d
}

// End finishes an execution and advances to the next.
func (x *Explorer) End() {
	var used [nKinds]int
	total := 0
	type acc struct {
		used  [nKinds]int
		total int
	}
	accs := make([]acc, len(x.path))
	for i, p := range x.path {
		accs[i] = acc{used, total}
		if p.cost && p.pick > 0 {
			used[p.kind]++
			total++
		}
	}
	for i := len(x.path) - 1; i >= 0; i-- {
		p := x.path[i]
		if p.pick+1 >= p.n {
			continue
		}
		a := accs[i]
		if p.cost && (a.used[p.kind]+1 > x.Budget[p.kind] || (x.Total >= 0 && a.total+1 > x.Total)) {
			continue
		}
		x.prefix = make([]int, i+1)
		x.prefixN = make([]int, i+1)
		for j := 0; j < i; j++ {
			x.prefix[j] = x.path[j].pick
			x.prefixN[j] = x.path[j].n
		}
		x.prefix[i] = p.pick + 1
		x.prefixN[i] = p.n
		return
	}
	x.done = true
}

// Stop ends the exploration early.
func (x *Explorer) Stop() { x.done = true }

// Done reports whether the space was exhausted.
func (x *Explorer) Done() bool { return x.done }

// Next returns the prefix the next execution will start with.
func (x *Explorer) Next() (choices, sizes []int) { return x.prefix, x.prefixN }

// Prefix returns the forced choices of the current execution.
func (x *Explorer) Prefix() []int { return x.prefix }
