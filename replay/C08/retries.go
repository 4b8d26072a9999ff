//overlay: internal/zz_verif_c08_test.go
//with: internal/zz_verif_sim_test.go=common/sim.go
//bounded: random suites with FlakeAttempts and MustPassRepeatedly decorators (0..4) at any level and random --flake-attempts/--must-pass-repeatedly settings run through the real Suite with random outcomes; attempts, outcome and reported count are judged for every spec
package internal

import (
	"fmt"
	"testing"

	"github.com/onsi/ginkgo/v2/types"
)

func vpolicy(s *sim, it *simNode) (kind string, n int) {
	fl, rp := 0, 0
	for _, c := range it.chain() {
		if c.flake > 0 {
			fl = c.flake
		}
		if c.repeat > 0 {
			rp = c.repeat
		}
	}
	switch {
	case s.cfg.MustPassRepeatedly > 0:
		return "repeat", s.cfg.MustPassRepeatedly
	case rp > 0:
		return "repeat", rp
	case s.cfg.FlakeAttempts > 0:
		return "flake", s.cfg.FlakeAttempts
	case fl > 0:
		return "flake", fl
	}
	return "once", 1
}

func vretries(s *sim) string {
	for _, sp := range s.specs() {
		where := fmt.Sprintf("spec %s: ", sp.it)
		if s.cfg.DryRun || sp.will.State.Is(types.SpecStatePending|types.SpecStateSkipped) || sp.it.isPending() {
			if len(sp.attempts) != 0 || sp.did.NumAttempts != 0 {
				return where + fmt.Sprintf("is not to be run but was attempted %d times (reported %d)", len(sp.attempts), sp.did.NumAttempts)
			}
			continue
		}
		kind, n := vpolicy(s, sp.it)
		k := len(sp.attempts)
		if k == 0 {
			return where + "was never attempted"
		}
		if sp.did.NumAttempts != k {
			return where + fmt.Sprintf("was attempted %d times but reports %d attempts", k, sp.did.NumAttempts)
		}
		if k > n {
			return where + fmt.Sprintf("was attempted %d times, more than %d", k, n)
		}
		for a, es := range sp.attempts {
			st, last := attemptState(es), a == k-1
			stop := a == n-1
			switch kind {
			case "repeat":
				stop = stop || st != "pass"
			case "flake":
				stop = stop || st == "pass" || st == "skip" || st == "abort"
			}
			if stop && !last {
				return where + fmt.Sprintf("(%s %d) was attempted again after attempt %d ended %s", kind, n, a+1, st)
			}
			if !stop && last {
				return where + fmt.Sprintf("(%s %d) was not attempted again after attempt %d ended %s", kind, n, a+1, st)
			}
			if last && sp.did.State != simState[st] {
				return where + fmt.Sprintf("ended %s but is reported %s", st, sp.did.State)
			}
		}
	}
	return ""
}

func TestVerifRetries(t *testing.T) {
	r := vrand()
	n := vn(4000, 40000)
	for c := 0; c < n; c++ {
		o := simOpts{pFail: 0.3 * r.Float64(), pSkip: 0.05 * r.Float64(), pPanic: 0.1 * r.Float64(), pAbort: 0.01 * float64(r.Intn(2)), pCleanup: 0.1, pOrdered: 0.3 * float64(r.Intn(2)), pPending: 0.05, pFilter: 0.05, pOnce: 0.2, pCont: 0.3, flakes: r.Intn(3) > 0, repeats: r.Intn(3) > 0, maxDepth: 3, maxSpecs: 8}
		s := newSim(r, o)
		if r.Intn(5) == 0 {
			s.cfg.FlakeAttempts = 1 + r.Intn(4)
		}
		if r.Intn(6) == 0 {
			s.cfg.MustPassRepeatedly = 1 + r.Intn(4)
		}
		s.cfg.DryRun = r.Intn(20) == 0
		if !s.run() {
			continue
		}
		if m := vretries(s); m != "" {
			vfail(t, "%s\n%s", m, s.describe())
		}
	}
	fmt.Println("VERIF-CASES", n)
}
