//overlay: internal/zz_verif_c07_test.go
//with: internal/zz_verif_sim_test.go=common/sim.go
//bounded: random suites of Ordered containers (with nested containers, OncePerOrdered nodes, filtered and pending specs, skips and failures anywhere, retries) run through the real Suite; the trace is judged against the run-once rules
package internal

import (
	"fmt"
	"testing"

	"github.com/onsi/ginkgo/v2/types"
)

func vonce(s *sim) (string, string) {
	type inst struct{ n, c *simNode }
	byContainer := map[*simNode][]*simSpec{}
	var order []*simNode
	for _, sp := range s.specs() {
		if oc := sp.it.orderedContainer(); oc != nil {
			if byContainer[oc] == nil {
				order = append(order, oc)
			}
			byContainer[oc] = append(byContainer[oc], sp)
		}
	}
	for _, oc := range order {
		specs := byContainer[oc]
		// the specs that need each run-once node, of those that may run at all
		need := map[inst][]*simSpec{}
		var insts []inst
		for _, sp := range specs {
			if sp.it.notRun() {
				continue
			}
			for _, n := range s.around(sp.it, types.NodeTypeBeforeAll|types.NodeTypeAfterAll|types.NodeTypeBeforeEach|types.NodeTypeAfterEach|types.NodeTypeJustBeforeEach|types.NodeTypeJustAfterEach) {
				if c := n.pair(sp.it); c != nil {
					k := inst{n, c}
					if need[k] == nil {
						insts = append(insts, k)
					}
					need[k] = append(need[k], sp)
				}
			}
		}
		for _, k := range insts {
			users := need[k]
			setup := k.n.kind.Is(types.NodeTypeBeforeAll | types.NodeTypeBeforeEach | types.NodeTypeJustBeforeEach)
			passed, ranAfterPass := false, false
			runs, retriedOnce := 0, false
			lastRun := -1
			var lastAttempt []simEvent
			entered := false
			lastBody := -1
			pos := 0
			onceTrouble := false
			for ui, sp := range users {
				for ai, es := range sp.attempts {
					if len(es) == 0 {
						continue
					}
					for ei, e := range es {
						pos++
						if e.node == k.n {
							runs++
							lastRun, lastAttempt = pos, es[:ei]
							if setup {
								if passed {
									ranAfterPass = true
								}
								passed = passed || e.outcome == "pass"
							} else {
								// teardown: only for the last spec that needs it, or when the container is abandoned early
								st := attemptState(es[:ei])
								if ui < len(users)-1 && st == "pass" {
									return fmt.Sprintf("%s ran in %s although that attempt was passing and %s still needs it", k.n, sp.it, users[ui+1].it), ""
								}
							}
						} else if !setup && e.node.from == nil && e.node.level > k.c.level {
							lastBody = pos
						}
						if e.outcome != "pass" && e.node.pair(sp.it) != nil {
							onceTrouble = true
						}
						if e.node.level >= k.n.level && e.node.from == nil {
							entered = true
						}
					}
					if ai < len(sp.attempts)-1 && attemptState(es) != "pass" {
						for _, e := range es {
							if e.outcome != "pass" && e.node.pair(sp.it) != nil {
								retriedOnce = true
							}
						}
					}
				}
			}
			_ = lastAttempt
			if setup {
				if ranAfterPass {
					return fmt.Sprintf("%s ran again in %s after it had passed", k.n, k.c), ""
				}
				continue
			}
			multi := false // a passing attempt that is repeated, a run-once failure that is retried
			for _, sp := range users {
				multi = multi || len(sp.attempts) > 1
			}
			if runs > 1 && !retriedOnce && !multi && !onceTrouble {
				return fmt.Sprintf("%s ran %d times in %s", k.n, runs, k.c), ""
			}
			if runs > 1 && !multi {
				// without retries every teardown happens once
				return fmt.Sprintf("%s ran %d times in %s without any retry", k.n, runs, k.c), ""
			}
			if entered && runs == 0 {
				return fmt.Sprintf("%s never ran although %s was entered", k.n, k.c), s.neverRan(k.n, users)
			}
			if runs == 1 && !multi && lastBody > lastRun {
				// something of the container ran after its teardown: only the teardown around it may
				i := 0
				for _, sp := range users {
					for _, es := range sp.attempts {
						for _, e := range es {
							i++
							if i > lastRun && e.node.from == nil && (e.node.kind == types.NodeTypeIt || e.node.kind.Is(types.NodeTypeBeforeAll|types.NodeTypeBeforeEach|types.NodeTypeJustBeforeEach)) {
								return fmt.Sprintf("%s ran in %s after %s had", e.node, k.c, k.n), ""
							}
						}
					}
				}
			}
		}
	}
	return "", ""
}

// neverRan recognises the recorded defect: a setup node outside the container did not pass for the last spec that ran
func (s *sim) neverRan(n *simNode, users []*simSpec) string {
	for i := len(users) - 1; i >= 0; i-- {
		last := users[i]
		if len(last.attempts) == 0 {
			if !simSkippedLike[last.did.State] {
				return ""
			}
			continue
		}
		es := last.attempts[len(last.attempts)-1]
		for _, e := range es {
			if e.node.kind == types.NodeTypeIt || e.node.kind == types.NodeTypeJustBeforeEach || e.node.level >= n.level && e.node.from == nil && e.node.kind.Is(types.NodeTypeBeforeAll|types.NodeTypeBeforeEach) {
				return ""
			}
		}
		return "an AfterAll-style node of an entered container is never run when a setup node outside the container does not pass for the last spec that runs (group.attemptSpec runs teardown only within the level of the node that ended the setup)"
	}
	return ""
}

var simSkippedLike = map[types.SpecState]bool{types.SpecStateSkipped: true}

func TestVerifOnce(t *testing.T) {
	r := vrand()
	n, done := vn(4000, 60000), 0
	known := map[string]bool{}
	for i := 0; i < n; i++ {
		o := simOpts{pFail: []float64{0, 0.03, 0.1, 0.2}[r.Intn(4)], pPanic: 0.02, pSkip: []float64{0, 0.05, 0.15}[r.Intn(3)], pAbort: []float64{0, 0.01}[r.Intn(2)], pCleanup: []float64{0, 0.1}[r.Intn(2)],
			pOrdered: 0.8, pPending: 0.08, pFilter: []float64{0, 0.2, 0.4}[r.Intn(3)], pOnce: 0.3, pCont: 0.3, maxDepth: 2 + r.Intn(3), maxSpecs: 2 + r.Intn(8), flakes: r.Intn(4) == 0, repeats: r.Intn(6) == 0}
		s := newSim(r, o)
		if !s.run() {
			continue
		}
		done++
		m, k := vonce(s)
		if m != "" && k != "" {
			known[k] = true
			continue
		}
		if m != "" {
			vfail(t, "%s\n%s", m, s.describe())
		}
	}
	for k := range known {
		fmt.Println("VERIF-KNOWN", k)
	}
	fmt.Println("VERIF-CASES", done)
}
