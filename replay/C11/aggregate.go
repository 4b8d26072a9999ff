//overlay: internal/parallel_support/zz_verif_c11_test.go
//about: random interleavings of what the processes report, checked event by event; concurrent posts
//flags: -race
package parallel_support

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)
func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}
type vrec struct {
	reporters.NoopReporter
	log []string
	end []types.Report
}

func (v *vrec) SuiteWillBegin(r types.Report)  { v.log = append(v.log, "begin") }
func (v *vrec) WillRun(r types.SpecReport)     { v.log = append(v.log, "will "+r.LeafNodeText) }
func (v *vrec) DidRun(r types.SpecReport)      { v.log = append(v.log, "did "+r.LeafNodeText) }
func (v *vrec) SuiteDidEnd(r types.Report)     { v.log = append(v.log, "end"); v.end = append(v.end, r) }

func TestVerifC11(t *testing.T) {
	r := vrand()
	n := vn(4000, 60000)
	base := time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	for c := 0; c < n; c++ {
		np := 1 + r.Intn(4)
		rec := &vrec{}
		h := newServerHandler(np, rec)
		type ev struct {
			kind int
			name string
		}
		streams := make([][]ev, np)
		for p := range streams {
			streams[p] = append(streams[p], ev{kind: 0})
			for i, k := 0, r.Intn(4); i < k; i++ {
				streams[p] = append(streams[p], ev{1, fmt.Sprintf("%d.%d", p, i)})
			}
			streams[p] = append(streams[p], ev{kind: 2})
			if r.Intn(4) == 0 { // a report that arrives before this process has begun
				streams[p] = append([]ev{{1, fmt.Sprintf("%d.early", p)}}, streams[p]...)
			}
		}
		var reps []types.Report
		for p := 0; p < np; p++ {
			rp := types.Report{SuiteSucceeded: r.Intn(5) != 0, StartTime: base.Add(time.Duration(r.Intn(50)) * time.Second), EndTime: base.Add(time.Duration(50+r.Intn(50)) * time.Second)}
			for i, k := 0, r.Intn(3); i < k; i++ {
				rp.SpecReports = append(rp.SpecReports, types.SpecReport{LeafNodeText: fmt.Sprintf("s%d.%d", p, i)})
			}
			for i, k := 0, r.Intn(3); i < k; i++ {
				rp.SpecialSuiteFailureReasons = append(rp.SpecialSuiteFailureReasons, []string{"r1", "r2", "r3"}[r.Intn(3)])
			}
			reps = append(reps, rp)
		}
		var exp, held []string
		begun, ended := 0, 0
		hist := ""
		var order []int
		for {
			var live []int
			for p := range streams {
				if len(streams[p]) > 0 {
					live = append(live, p)
				}
			}
			if len(live) == 0 {
				break
			}
			p := live[r.Intn(len(live))]
			e := streams[p][0]
			streams[p] = streams[p][1:]
			hist += fmt.Sprintf(" %d:%d%s", p, e.kind, e.name)
			switch e.kind {
			case 0:
				h.SpecSuiteWillBegin(types.Report{}, voidReceiver)
				begun++
				if begun == np {
					exp = append(append(exp, "begin"), held...)
				}
			case 1:
				h.DidRun(types.SpecReport{LeafNodeText: e.name}, voidReceiver)
				if begun == np {
					exp = append(exp, "will "+e.name, "did "+e.name)
				} else {
					held = append(held, "will "+e.name, "did "+e.name)
				}
			case 2:
				select {
				case <-h.done:
					vfail(t, "the server reports the suite done after %d of %d processes:%s", ended, np, hist)
				default:
				}
				h.SpecSuiteDidEnd(reps[p], voidReceiver)
				order = append(order, p)
				ended++
				if ended == np {
					exp = append(exp, "end")
				}
			}
			if !reflect.DeepEqual(append([]string{}, rec.log...), append([]string{}, exp...)) {
				vfail(t, "after%s (process:event, 0 begin 1 spec 2 end) the reporter saw %v, expected %v", hist, rec.log, exp)
			}
		}
		select {
		case <-h.done:
		default:
			vfail(t, "all processes have ended but the server is not done:%s", hist)
		}
		got := rec.end[0]
		ok := true
		st, en := reps[0].StartTime, reps[0].EndTime
		var specs []string
		reasons := map[string]bool{}
		for _, p := range order {
			ok = ok && reps[p].SuiteSucceeded
			if reps[p].StartTime.Before(st) {
				st = reps[p].StartTime
			}
			if reps[p].EndTime.After(en) {
				en = reps[p].EndTime
			}
			for _, s := range reps[p].SpecReports {
				specs = append(specs, s.LeafNodeText)
			}
			for _, s := range reps[p].SpecialSuiteFailureReasons {
				reasons[s] = true
			}
		}
		var gs []string
		for _, s := range got.SpecReports {
			gs = append(gs, s.LeafNodeText)
		}
		gr := map[string]bool{}
		for _, s := range got.SpecialSuiteFailureReasons {
			if gr[s] && np > 1 {
				vfail(t, "failure reason %q is listed twice in %v", s, got.SpecialSuiteFailureReasons)
			}
			gr[s] = true
		}
		if got.SuiteSucceeded != ok || !got.StartTime.Equal(st) || !got.EndTime.Equal(en) || !reflect.DeepEqual(gs, specs) || !reflect.DeepEqual(gr, reasons) || np > 1 && got.RunTime != en.Sub(st) {
			vfail(t, "aggregate of %+v (in order %v) is %+v; expected succeeded=%v start=%v end=%v specs=%v reasons=%v", reps, order, got, ok, st, en, specs, reasons)
		}
	}
	for c := 0; c < vn(60, 600); c++ {
		np := 1 + r.Intn(4)
		rec := &vrec{}
		h := newServerHandler(np, rec)
		var wg sync.WaitGroup
		var exp []string
		for p := 0; p < np; p++ {
			wg.Add(1)
			for i := 0; i < 5; i++ {
				exp = append(exp, fmt.Sprintf("did %d.%d", p, i))
			}
			go func() {
				defer wg.Done()
				h.SpecSuiteWillBegin(types.Report{}, voidReceiver)
				for i := 0; i < 5; i++ {
					h.DidRun(types.SpecReport{LeafNodeText: fmt.Sprintf("%d.%d", p, i)}, voidReceiver)
				}
				h.SpecSuiteDidEnd(types.Report{SuiteSucceeded: true}, voidReceiver)
			}()
		}
		wg.Wait()
		var did []string
		begins, ends := 0, 0
		last := map[byte]string{}
		for i, l := range rec.log {
			switch {
			case l == "begin":
				begins++
			case l == "end":
				ends++
			case l[:3] == "did":
				if i == 0 || rec.log[i-1] != "will "+l[4:] || l[4:] <= last[l[4]] {
					vfail(t, "concurrent posts: the reporter saw %v", rec.log)
				}
				last[l[4]] = l[4:]
				did = append(did, l)
			}
		}
		sort.Strings(did)
		sort.Strings(exp)
		if begins != 1 || ends != 1 || !reflect.DeepEqual(did, exp) || rec.log[0] != "begin" || rec.log[len(rec.log)-1] != "end" {
			vfail(t, "concurrent posts by %d processes: the reporter saw %v", np, rec.log)
		}
	}
	fmt.Println("VERIF-CASES", n)
}
