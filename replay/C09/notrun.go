//overlay: internal/zz_verif_c09_test.go
//with: internal/zz_verif_sim_test.go=common/sim.go
//bounded: random suites (pending and filtered specs, Ordered containers with and without ContinueOnFailure, fail-fast, dry runs, aborts and interrupts arriving during any node) run through the real Suite; every spec's execution and report are judged
package internal

import (
	"fmt"
	"testing"

	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/types"
)

func vnotrun(s *sim, interruptedAfter *simNode, interruptedRun int) string {
	seen := map[*simNode]int{}
	over := ""                      // why no further spec may run
	failedIn := map[*simNode]bool{} // Ordered containers in which a spec failed
	shaky := map[*simNode]bool{}    // Ordered containers in which a run-once setup did not pass
	hit := func(es []simEvent) bool {
		for _, e := range es {
			if e.node == interruptedAfter && e.run == interruptedRun {
				return true
			}
		}
		return false
	}
	for _, sp := range s.specs() {
		where := fmt.Sprintf("spec %s: ", sp.it)
		seen[sp.it]++
		if sp.reported != 1 {
			return where + fmt.Sprintf("is reported %d times", sp.reported)
		}
		oc := sp.it.orderedContainer()
		want, why := types.SpecStateInvalid, ""
		switch {
		case sp.it.isPending():
			want, why = types.SpecStatePending, "it is pending"
		case sp.it.notRun():
			want, why = types.SpecStateSkipped, "it is filtered out"
		case over != "":
			want, why = types.SpecStateSkipped, over
		case oc != nil && failedIn[oc] && !oc.cont:
			want, why = types.SpecStateSkipped, "an earlier spec of its Ordered container failed"
		case s.cfg.DryRun:
			want, why = types.SpecStatePassed, "this is a dry run"
		}
		if why != "" {
			if len(sp.attempts) > 0 {
				return where + fmt.Sprintf("%s ran although %s", sp.attempts[0][0].node, why)
			}
			if sp.did.State != want && !(len(sp.before)+len(sp.after) > 0 && sp.did.State.Is(types.SpecStateFailureStates)) {
				return where + fmt.Sprintf("is reported %s although %s", sp.did.State, why)
			}
			if sp.did.NumAttempts != 0 {
				return where + fmt.Sprintf("is reported with %d attempts although %s", sp.did.NumAttempts, why)
			}
		} else if len(sp.attempts) == 0 && !(oc != nil && shaky[oc]) && attemptState(sp.before) == "pass" && !hit(sp.before) {
			return where + fmt.Sprintf("was not run (reported %s) although nothing excludes it", sp.did.State)
		}
		if sp.did.State.Is(types.SpecStateFailureStates) {
			if oc != nil {
				failedIn[oc] = true
			}
			if s.cfg.FailFast {
				over = "a spec failed and the run is to fail fast"
			}
		}
		all := append(append([]simEvent{}, sp.before...), sp.after...)
		for _, es := range sp.attempts {
			all = append(all, es...)
		}
		for _, e := range all {
			if e.outcome == "abort" {
				over = "the suite was aborted"
			}
			if e.node == interruptedAfter && e.run == interruptedRun {
				over = "the run was interrupted"
			}
			if oc != nil && e.outcome != "pass" && e.node.pair(sp.it) != nil {
				shaky[oc] = true
			}
		}
		if s.cfg.DryRun && len(all) > 0 && len(sp.before)+len(sp.after) != len(all) {
			return where + "a node ran in a dry run"
		}
	}
	for _, n := range s.all {
		if n.kind == types.NodeTypeIt && seen[n] != 1 && len(s.specs()) > 0 {
			return fmt.Sprintf("spec %s is reported %d times", n, seen[n])
		}
	}
	return ""
}

func TestVerifNotRun(t *testing.T) {
	r := vrand()
	n := vn(5000, 50000)
	for c := 0; c < n; c++ {
		o := simOpts{pFail: 0.2 * r.Float64(), pSkip: 0.05 * r.Float64(), pPanic: 0.05 * r.Float64(), pAbort: 0.01 * float64(r.Intn(2)), pCleanup: 0.1, pOrdered: 0.5 * float64(r.Intn(2)), pPending: 0.15, pFilter: 0.15, pOnce: 0.2, pCont: 0.4, flakes: r.Intn(3) == 0, repeats: r.Intn(3) == 0, reportNodes: r.Intn(3) == 0, maxDepth: 3, maxSpecs: 8}
		s := newSim(r, o)
		s.cfg.FailFast = r.Intn(4) == 0
		s.cfg.DryRun = r.Intn(8) == 0
		var intr *simNode
		run := 0
		if r.Intn(4) == 0 {
			count, at := 0, r.Intn(15)
			s.hook = func(n *simNode) string {
				if count++; count == at {
					intr, run = n, n.runs
					s.intr.st.Level = interrupt_handler.InterruptLevelCleanupAndReport
					s.intr.st.Cause = interrupt_handler.InterruptCauseSignal
				}
				return ""
			}
		}
		if !s.run() {
			continue
		}
		if m := vnotrun(s, intr, run); m != "" {
			vfail(t, "%s\n%s", m, s.describe())
		}
	}
	fmt.Println("VERIF-CASES", n)
}
