//overlay: internal/parallel_support/zz_verif_c12_test.go
//about: processes waiting on process 1 directly and over both transports, with random publications and deaths
//flags: -race
package parallel_support

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)
func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}
func TestVerifC12(t *testing.T) {
	r := vrand()
	n := vn(4000, 60000)
	states := []types.SpecState{types.SpecStatePassed, types.SpecStateFailed, types.SpecStateSkipped, types.SpecStatePanicked, types.SpecStateAborted, types.SpecStateInterrupted, types.SpecStatePending}
	for c := 0; c < n; c++ {
		np := 1 + r.Intn(4)
		h := newServerHandler(np, reporters.NoopReporter{})
		alive := make([]bool, np+1)
		for i := range alive {
			alive[i] = true
		}
		for i := 1; i <= np; i++ {
			if r.Intn(4) != 0 {
				h.registerAlive(i, func() bool { return alive[i] })
			} else {
				i := i
				_ = i
				alive[i] = true
				h.registerAlive(i, func() bool { return alive[i] })
			}
		}
		pub, rpub, data := types.SpecStateInvalid, types.SpecStateInvalid, []byte(nil)
		ends := 0
		hist := ""
		for k := 0; k < 10; k++ {
			op := r.Intn(7)
			hist += fmt.Sprint(" ", op)
			switch op {
			case 0:
				if r.Intn(2) == 0 {
					pub, data = states[r.Intn(len(states))], []byte(fmt.Sprint("d", r.Intn(5)))
					h.BeforeSuiteCompleted(BeforeSuiteState{Data: data, State: pub}, voidReceiver)
				}
			case 1:
				if r.Intn(2) == 0 {
					rpub = states[r.Intn(len(states))]
					h.ReportBeforeSuiteCompleted(rpub, voidReceiver)
				}
			case 2:
				alive[1+r.Intn(np)] = false
			case 3:
				var s BeforeSuiteState
				err := h.BeforeSuiteState(voidSender, &s)
				var want error
				if pub == types.SpecStateInvalid {
					want = ErrorEarly
					if !alive[1] {
						want = ErrorGone
					}
				}
				if err != want || err == nil && (s.State != pub || !bytes.Equal(s.Data, data)) || err != nil && s.State != types.SpecStateInvalid {
					vfail(t, "BeforeSuiteState gives (%v %q, %v), expected (%v %q, %v); process 1 alive=%v; ops%s", s.State, s.Data, err, pub, data, want, alive[1], hist)
				}
			case 4:
				var s types.SpecState
				err := h.ReportBeforeSuiteState(voidSender, &s)
				var want error
				if rpub == types.SpecStateInvalid {
					want = ErrorEarly
					if !alive[1] {
						want = ErrorGone
					}
				}
				if err != want || err == nil && s != rpub || err != nil && s != types.SpecStateInvalid {
					vfail(t, "ReportBeforeSuiteState gives (%v, %v), expected (%v, %v); process 1 alive=%v; ops%s", s, err, rpub, want, alive[1], hist)
				}
			case 5:
				var want error
				for i := 2; i <= np; i++ {
					if alive[i] {
						want = ErrorEarly
					}
				}
				if err := h.HaveNonprimaryProcsFinished(voidSender, voidReceiver); err != want {
					vfail(t, "HaveNonprimaryProcsFinished gives %v, expected %v; alive %v", err, want, alive[1:])
				}
				var rep types.Report
				if want == nil && ends != np-1 {
					want = ErrorGone
				}
				if err := h.AggregatedNonprimaryProcsReport(voidSender, &rep); err != want || err == nil && len(rep.SpecReports) != ends {
					vfail(t, "AggregatedNonprimaryProcsReport gives (%d reports, %v), expected (%d, %v); %d of %d ended, alive %v", len(rep.SpecReports), err, ends, want, ends, np, alive[1:])
				}
			case 6:
				if ends < np-1 {
					ends++
					h.SpecSuiteDidEnd(types.Report{SpecReports: types.SpecReports{{}}}, voidReceiver)
				}
			}
		}
	}
	POLLING_INTERVAL = time.Millisecond
	for c := 0; c < vn(30, 200); c++ {
		rs, err := newRPCServer(3, reporters.NoopReporter{})
		if err != nil {
			t.Skip(err)
		}
		hs, err := newHttpServer(3, reporters.NoopReporter{})
		if err != nil {
			t.Skip(err)
		}
		rs.Start()
		hs.Start()
		rc, hc := newRPCClient(rs.Address()), newHttpClient(hs.Address())
		if !rc.Connect() || !hc.Connect() {
			t.Skip("no loopback")
		}
		for i, cl := range []Client{rc, hc} {
			srv := []Server{rs, hs}[i]
			var dead atomic.Bool
			srv.RegisterAlive(1, func() bool { return !dead.Load() })
			srv.RegisterAlive(2, func() bool { return false })
			srv.RegisterAlive(3, func() bool { return false })
			st, rst, data := states[r.Intn(len(states))], states[r.Intn(len(states))], []byte(fmt.Sprint("data", r.Intn(100)))
			die := r.Intn(3) == 0
			var published atomic.Bool
			var wg sync.WaitGroup
			for p := 2; p <= 3; p++ {
				wg.Add(2)
				go func() {
					defer wg.Done()
					s, d, err := cl.BlockUntilSynchronizedBeforeSuiteData()
					early := !published.Load()
					if die && (err == nil || s == types.SpecStatePassed) || !die && (err != nil || s != st || !bytes.Equal(d, data) || early) {
						vfail2("transport %d: waiting for the before-suite gave (%v, %q, %v) (already published or dead: %v); process 1 %s", i, s, d, err, !early, map[bool]string{true: "died before publishing", false: fmt.Sprintf("published (%v, %q)", st, data)}[die])
					}
				}()
				go func() {
					defer wg.Done()
					s, err := cl.BlockUntilReportBeforeSuiteCompleted()
					early := !published.Load()
					if die && err == nil && s == types.SpecStatePassed || !die && (err != nil || s != rst || early) {
						vfail2("transport %d: waiting for the before-suite report gave (%v, %v) (already published or dead: %v); process 1 %s", i, s, err, !early, map[bool]string{true: "died before publishing", false: fmt.Sprintf("published %v", rst)}[die])
					}
				}()
			}
			time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
			published.Store(true)
			if die {
				dead.Store(true)
			} else {
				cl.PostSynchronizedBeforeSuiteCompleted(st, data)
				cl.PostReportBeforeSuiteCompleted(rst)
			}
			wg.Wait()
			if vfailed != "" {
				vfail(t, "%s", vfailed)
			}
			if err := cl.BlockUntilNonprimaryProcsHaveFinished(); err != nil {
				vfail(t, "transport %d: the others have finished, yet waiting for them gives %v", i, err)
			}
			if _, err := cl.BlockUntilAggregatedNonprimaryProcsReport(); err == nil {
				vfail(t, "transport %d: processes 2 and 3 disappeared without reporting, yet their aggregate is handed out", i)
			}
			cl.PostSuiteDidEnd(types.Report{SpecReports: types.SpecReports{{LeafNodeText: "a"}}})
			cl.PostSuiteDidEnd(types.Report{SpecReports: types.SpecReports{{LeafNodeText: "b"}}})
			if rep, err := cl.BlockUntilAggregatedNonprimaryProcsReport(); err != nil || len(rep.SpecReports) != 2 {
				vfail(t, "transport %d: aggregate of processes 2 and 3 is (%+v, %v)", i, rep, err)
			}
		}
		rc.Close()
		rs.Close()
		hs.Close()
	}
	fmt.Println("VERIF-CASES", n)
}

var vfailMu sync.Mutex
var vfailed string

func vfail2(f string, a ...interface{}) {
	vfailMu.Lock()
	defer vfailMu.Unlock()
	vfailed = fmt.Sprintf(f, a...)
}
