//overlay: internal/zz_verif_c10_test.go
//with: internal/zz_verif_sim_test.go=common/sim.go
//bounded: random suites (suite nodes, synchronized suite nodes, reporting nodes, cleanups, Ordered containers, retries) run through the real Suite with fail-fast, dry runs, fail-on-pending, fail-on-empty, elapsed timeouts and interrupts; the verdict is compared with everything that happened
package internal

import (
	"errors"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/types"
)

// the other processes, as seen through the client
type vclient struct {
	parallel_support.Client
	r      *rand.Rand
	p      float64
	next   int
	failed string // the first thing that went wrong elsewhere
	told   types.SpecState
	ended  *types.Report
}

func (c *vclient) err(what string) error {
	if c.r.Float64() < c.p {
		if c.failed == "" {
			c.failed = what
		}
		return errors.New(what)
	}
	return nil
}
func (c *vclient) Write(b []byte) (int, error)                                { return len(b), nil }
func (c *vclient) PostSuiteWillBegin(types.Report) error                      { return nil }
func (c *vclient) PostDidRun(types.SpecReport) error                          { return nil }
func (c *vclient) PostSuiteDidEnd(r types.Report) error                       { c.ended = &r; return nil }
func (c *vclient) PostAbort() error                                           { return nil }
func (c *vclient) PostEmitProgressReport(types.ProgressReport) error          { return nil }
func (c *vclient) PostReportBeforeSuiteCompleted(s types.SpecState) error     { c.told = s; return nil }
func (c *vclient) FetchNextCounter() (int, error) {
	if err := c.err("no index"); err != nil {
		return 0, err
	}
	c.next++
	return c.next - 1, nil
}
func (c *vclient) BlockUntilReportBeforeSuiteCompleted() (types.SpecState, error) {
	if c.r.Float64() < c.p {
		if c.failed == "" {
			c.failed = "ReportBeforeSuite failed on process 1"
		}
		return types.SpecStateFailed, nil
	}
	return types.SpecStatePassed, c.err("ReportBeforeSuite: process 1 is gone")
}
func (c *vclient) PostSynchronizedBeforeSuiteCompleted(types.SpecState, []byte) error {
	return c.err("cannot tell the others that SynchronizedBeforeSuite is over")
}
func (c *vclient) BlockUntilSynchronizedBeforeSuiteData() (types.SpecState, []byte, error) {
	if c.r.Float64() < c.p {
		st := []types.SpecState{types.SpecStateFailed, types.SpecStatePanicked, types.SpecStateTimedout, types.SpecStateInterrupted, types.SpecStateAborted}[c.r.Intn(5)]
		if c.failed == "" {
			c.failed = "SynchronizedBeforeSuite on process 1: " + st.String()
		}
		return st, nil, nil
	}
	if c.r.Intn(8) == 0 {
		return types.SpecStateSkipped, nil, nil
	}
	if err := c.err("SynchronizedBeforeSuite: process 1 is gone"); err != nil {
		return types.SpecStateInvalid, nil, err
	}
	return types.SpecStatePassed, nil, nil
}
func (c *vclient) BlockUntilNonprimaryProcsHaveFinished() error {
	return c.err("waiting for the other processes failed")
}
func (c *vclient) BlockUntilAggregatedNonprimaryProcsReport() (types.Report, error) {
	return types.Report{SuiteSucceeded: true}, c.err("no report of the other processes")
}

func vverdict(s *sim, interrupted bool) string {
	forgiven := map[int]bool{} // node events of attempts that were retried
	cur, last := -1, -1
	for i, e := range s.events {
		switch e.what {
		case "willrun":
			cur, last = i, i
		case "attempt":
			if cur >= 0 && s.cfg.MustPassRepeatedly == 0 {
				for j := last; j < i; j++ {
					if n := s.events[j].node; n != nil && n.kind != types.NodeTypeReportBeforeEach {
						forgiven[j] = true
					}
				}
			}
			last = i
		}
	}
	why := ""
	bad := func(f string, a ...interface{}) {
		if why == "" {
			why = fmt.Sprintf(f, a...)
		}
	}
	inReport := "" // the first failure since the last report
	for i, e := range s.events {
		switch e.what {
		case "node":
			if e.node.kind == types.NodeTypeReportAfterSuite && why != "" && e.node.seen.SuiteSucceeded {
				return fmt.Sprintf("%s was told the suite succeeded although %s", e.node, why)
			}
			if simFailing[e.outcome] && !forgiven[i] {
				bad("%s: %s", e.node, e.outcome)
				if inReport == "" {
					inReport = e.node.String()
				}
			}
		case "didrun":
			fails := e.report.State.Is(types.SpecStateFailureStates)
			if fails {
				bad("%s %q was reported %s", e.report.LeafNodeType, e.report.LeafNodeText, e.report.State)
			}
			if inReport != "" && !fails {
				return fmt.Sprintf("%s failed but %s %q was reported %s", inReport, e.report.LeafNodeType, e.report.LeafNodeText, e.report.State)
			}
			inReport = ""
		}
	}
	var end *simEvent
	for i := range s.events {
		if s.events[i].what == "end" {
			if end != nil {
				return "the suite ended twice"
			}
			end = &s.events[i]
		}
	}
	if end == nil {
		return "the suite never ended"
	}
	if c, ok := s.client.(*vclient); ok {
		if c.failed != "" {
			bad("%s", c.failed)
		}
		if c.ended == nil || c.ended.SuiteSucceeded != s.success {
			return "the verdict sent to process 1 is not the suite's"
		}
	}
	if interrupted {
		bad("the run was interrupted")
	}
	if s.cfg.Timeout == time.Nanosecond {
		bad("the suite's timeout has elapsed")
	}
	if s.cfg.FailOnPending {
		for _, n := range s.all {
			if n.kind == types.NodeTypeIt && n.isPending() {
				bad("--fail-on-pending and %s", n)
			}
		}
	}
	if s.cfg.FailOnEmpty && end.suite.PreRunStats.SpecsThatWillRun == 0 {
		bad("--fail-on-empty and no spec was to run")
	}
	if s.success != (why == "") {
		return fmt.Sprintf("the suite's verdict is %v although: %q", s.success, why)
	}
	if end.suite.SuiteSucceeded != s.success {
		return fmt.Sprintf("the suite's verdict is %v but its report says %v", s.success, end.suite.SuiteSucceeded)
	}
	return ""
}

func TestVerifVerdict(t *testing.T) {
	r := vrand()
	n, done := vn(4000, 50000), 0
	for i := 0; i < n; i++ {
		o := simOpts{pFail: []float64{0, 0.01, 0.03, 0.2}[r.Intn(4)], pPanic: []float64{0, 0.01}[r.Intn(2)], pSkip: []float64{0, 0.05, 0.2}[r.Intn(3)], pAbort: []float64{0, 0.01}[r.Intn(2)], pCleanup: []float64{0, 0.2, 0.4}[r.Intn(3)],
			pOrdered: 0.3, pPending: []float64{0, 0.1}[r.Intn(2)], pFilter: []float64{0, 0.1}[r.Intn(2)], pOnce: 0.2, pCont: 0.3, maxDepth: 1 + r.Intn(3), maxSpecs: r.Intn(6), suiteNodes: true, syncNodes: true, reportNodes: true, flakes: r.Intn(3) == 0, repeats: r.Intn(3) == 0}
		s := newSim(r, o)
		s.cfg.FailFast, s.cfg.FailOnPending, s.cfg.FailOnEmpty, s.cfg.DryRun = r.Intn(3) == 0, r.Intn(3) == 0, r.Intn(3) == 0, r.Intn(8) == 0
		switch r.Intn(6) {
		case 0:
			s.cfg.FlakeAttempts = 1 + r.Intn(3)
		case 1:
			s.cfg.MustPassRepeatedly = 1 + r.Intn(3)
		}
		if r.Intn(20) == 0 {
			s.cfg.Timeout = time.Nanosecond
		}
		if r.Intn(3) == 0 {
			s.client = &vclient{r: r, p: []float64{0, 0.1}[r.Intn(2)]}
			s.cfg.DryRun = false
			s.cfg.ParallelTotal, s.cfg.ParallelProcess = 2, 1+r.Intn(2)
			for _, n := range s.all {
				n.serial = n.kind == types.NodeTypeIt && n.orderedContainer() == nil && r.Intn(3) == 0
			}
		}
		interrupted := false
		if r.Intn(4) == 0 {
			at, ran := r.Intn(10), 0
			s.hook = func(n *simNode) string {
				if ran == at && n.kind != types.NodeTypeReportAfterSuite {
					interrupted = true
					s.intr.st.Level, s.intr.st.Cause = interrupt_handler.InterruptLevelCleanupAndReport, interrupt_handler.InterruptCauseSignal
				}
				ran++
				return ""
			}
		}
		if !s.run() {
			continue
		}
		done++
		if m := vverdict(s, interrupted); m != "" {
			vfail(t, "%s\n%s", m, s.describe())
		}
	}
	fmt.Println("VERIF-CASES", done)
}
