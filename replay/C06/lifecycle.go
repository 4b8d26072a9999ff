//overlay: internal/zz_verif_c06_test.go
//with: internal/zz_verif_sim_test.go=common/sim.go
//bounded: sorting of up to 60 nodes on 4 levels; random suites (containers nested up to 4 deep, every kind of setup node, cleanups registered anywhere, random outcomes of every node, retries) run through the real Suite; every attempt's trace is judged against the lifecycle rules
package internal

import (
	"fmt"
	"testing"

	"github.com/onsi/ginkgo/v2/types"
)

const vBefore = types.NodeTypeBeforeAll | types.NodeTypeBeforeEach | types.NodeTypeJustBeforeEach
const vAfter = types.NodeTypeAfterAll | types.NodeTypeAfterEach | types.NodeTypeJustAfterEach

func vlifecycle(s *sim) string {
	passed := map[[2]*simNode]bool{} // run-once setup that has passed, by pair
	ordered := (*simNode)(nil)
	for _, sp := range s.specs() {
		if oc := sp.it.orderedContainer(); oc == nil || oc != ordered {
			passed = map[[2]*simNode]bool{}
			ordered = oc
		}
		for a, es := range sp.attempts {
			where := fmt.Sprintf("spec %s attempt %d: ", sp.it, a+1)
			// the setup that has to happen, outermost first; JustBeforeEach after all other setup; the subject last
			var want []*simNode
			for _, lvl := range append([]*simNode{s.root}, sp.it.ancestors()...) {
				for _, k := range lvl.kids {
					if k.kind == types.NodeTypeBeforeAll {
						want = append(want, k)
					}
				}
				for _, k := range lvl.kids {
					if k.kind == types.NodeTypeBeforeEach {
						want = append(want, k)
					}
				}
			}
			want = append(want, s.around(sp.it, types.NodeTypeJustBeforeEach)...)
			want = append(want, sp.it)
			i := 0
			var term *simNode
			for _, n := range want {
				if term != nil {
					break
				}
				p := n.pair(sp.it)
				if p != nil && passed[[2]*simNode{n, p}] {
					continue
				}
				if i >= len(es) || es[i].node != n {
					got := "nothing"
					if i < len(es) {
						got = es[i].node.String()
					}
					return where + fmt.Sprintf("%s should run next but %s did", n, got)
				}
				if es[i].outcome != "pass" {
					term = n
				} else if p != nil {
					passed[[2]*simNode{n, p}] = true
				}
				i++
			}
			rest := es[i:]
			for _, e := range rest {
				if e.node.kind.Is(vBefore) || e.node.kind == types.NodeTypeIt {
					return where + fmt.Sprintf("%s ran where only teardown may run", e.node)
				}
			}
			// teardown of every entered level, innermost first: JustAfterEach, then AfterEach and AfterAll
			limit := sp.it.level
			if term != nil && term.kind != types.NodeTypeJustBeforeEach { // by then every level has been entered
				limit = term.level
			}
			last, rank := 1<<30, 0
			// a failing teardown or cleanup ends an Ordered container early: its run-once teardown comes due only then
			late := func(j int) bool {
				n := rest[j].node
				if n.from != nil {
					n = n.from
				}
				return n.pair(sp.it) != nil && attemptState(es[:i+j]) != attemptState(es[:i])
			}
			ran := map[*simNode]int{}
			for j, e := range rest {
				if e.node.from != nil {
					continue
				}
				ran[e.node]++
				rk := 1
				if e.node.kind.Is(types.NodeTypeAfterEach | types.NodeTypeAfterAll) {
					rk = 2
				}
				if (rk < rank || rk == rank && e.node.level > last) && late(j) {
					rank, last = 0, 1<<30
				}
				if rk < rank {
					return where + fmt.Sprintf("%s ran after AfterEach nodes", e.node)
				}
				if rk > rank {
					rank, last = rk, 1<<30
				}
				if e.node.level > last {
					return where + fmt.Sprintf("%s ran before the teardown of the levels inside it was over", rest[j])
				}
				last = e.node.level
				if e.node.level > limit {
					return where + fmt.Sprintf("%s ran although its level was never entered", e.node)
				}
			}
			for _, n := range s.around(sp.it, types.NodeTypeAfterEach|types.NodeTypeJustAfterEach) {
				if n.pair(sp.it) != nil {
					if ran[n] > 1 {
						return where + fmt.Sprintf("%s ran %d times", n, ran[n])
					}
					continue
				}
				w := 1
				if n.level > limit {
					w = 0
				}
				if ran[n] != w {
					return where + fmt.Sprintf("%s ran %d times instead of %d", n, ran[n], w)
				}
			}
			// cleanups of this attempt: after all teardown nodes, last registered first
			started := false
			lastEach := 1 << 30
			done := map[*simNode]int{}
			for j, e := range rest {
				c := e.node
				if c.from == nil {
					if started && late(j) {
						started, lastEach = false, 1<<30
					}
					if started {
						return where + fmt.Sprintf("%s ran after cleanups had started", c)
					}
					continue
				}
				started = true
				done[c]++
				if done[c] > 1 {
					return where + fmt.Sprintf("cleanup %s ran twice", c)
				}
				if !c.from.kind.Is(types.NodeTypeBeforeAll | types.NodeTypeAfterAll) {
					if c.order > lastEach && late(j) {
						continue
					}
					if c.order > lastEach {
						return where + fmt.Sprintf("cleanup %s did not run in reverse order of registration", c)
					}
					lastEach = c.order
				}
			}
			for _, reg := range s.regs {
				if reg.spec == sp.will.LeafNodeText && reg.attempt == a && !reg.node.from.kind.Is(types.NodeTypeBeforeAll|types.NodeTypeAfterAll) && reg.node.from.pair(sp.it) == nil && done[reg.node] != 1 {
					return where + fmt.Sprintf("cleanup %s ran %d times in its attempt", reg.node, done[reg.node])
				}
			}
			if a == len(sp.attempts)-1 && sp.did.State != simState[attemptState(es)] {
				return where + fmt.Sprintf("reported %s but its first failing node says %s", sp.did.State, attemptState(es))
			}
		}
	}
	// nothing registered during a spec is lost, and nothing runs twice
	runs := map[*simNode]int{}
	for _, e := range s.events {
		if e.what == "node" && e.node.from != nil {
			runs[e.node]++
			if runs[e.node] > 1 {
				return fmt.Sprintf("cleanup %s ran twice", e.node)
			}
		}
	}
	for _, reg := range s.regs {
		if runs[reg.node] != 1 && !s.cleanupExcused(reg) {
			return fmt.Sprintf("cleanup %s never ran", reg.node)
		}
	}
	return ""
}

// a run-once generator in an Ordered container is C07's business
func (s *sim) cleanupExcused(reg simReg) bool {
	return reg.node.from.once || reg.node.from.kind.Is(types.NodeTypeBeforeAll|types.NodeTypeAfterAll)
}

func TestVerifLifecycle(t *testing.T) {
	r := vrand()
	n, done := vn(3000, 40000), 0
	for i := 0; i < n; i++ {
		o := simOpts{pFail: []float64{0, 0.05, 0.15, 0.3}[r.Intn(4)], pPanic: 0.03, pSkip: []float64{0, 0.05}[r.Intn(2)], pAbort: []float64{0, 0.02}[r.Intn(2)], pCleanup: []float64{0, 0.2, 0.4}[r.Intn(3)],
			pOrdered: 0.3, pPending: 0.05, pFilter: 0.1, pOnce: 0.2, pCont: 0.3, maxDepth: 1 + r.Intn(4), maxSpecs: 1 + r.Intn(8), suiteNodes: r.Intn(3) == 0, flakes: r.Intn(3) == 0, repeats: r.Intn(3) == 0}
		s := newSim(r, o)
		if r.Intn(4) == 0 {
			s.cfg.FlakeAttempts = 1 + r.Intn(3)
		}
		if !s.run() {
			continue
		}
		done++
		if m := vlifecycle(s); m != "" {
			vfail(t, "%s\n%s", m, s.describe())
		}
	}
	fmt.Println("VERIF-CASES", done)
}

// the two orderings keep the declaration order of nodes of one level, however many there are
func TestVerifC06Sorting(t *testing.T) {
	r := vrand()
	n := vn(2000, 40000)
	for c := 0; c < n; c++ {
		in := Nodes{}
		levels := 1 + r.Intn(4)
		for k := r.Intn(60); k > 0; k-- {
			in = append(in, Node{ID: uint(len(in) + 1), NestingLevel: r.Intn(levels)})
		}
		for _, up := range []bool{true, false} {
			var want Nodes
			for l := 0; l < levels; l++ {
				level := l
				if !up {
					level = levels - 1 - l
				}
				for _, x := range in {
					if x.NestingLevel == level {
						want = append(want, x)
					}
				}
			}
			got := in.SortedByAscendingNestingLevel()
			if !up {
				got = in.SortedByDescendingNestingLevel()
			}
			if len(got) != len(want) {
				vfail(t, "sorting %d nodes yields %d", len(in), len(got))
			}
			for i := range want {
				if got[i].ID != want[i].ID {
					vfail(t, "nodes of one nesting level change their order when sorted (ascending: %v): position %d of %d holds node %d, expected %d", up, i, len(in), got[i].ID, want[i].ID)
				}
			}
		}
	}
	fmt.Println("VERIF-CASES", n)
}
