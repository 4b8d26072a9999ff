//overlay: internal/zz_verif_c05_test.go
//about: random sequences of recordings and drains, alone and from concurrent recorders
//flags: -race
package internal

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"sync"
	"testing"

	"github.com/onsi/ginkgo/v2/types"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

func TestVerifC05(t *testing.T) {
	r := vrand()
	n := vn(20000, 300000)
	for c := 0; c < n; c++ {
		f := NewFailer()
		st, fl := types.SpecStatePassed, types.Failure{}
		hist := ""
		for i, k := 0, r.Intn(12); i < k; i++ {
			msg := fmt.Sprint("m", r.Intn(3))
			if r.Intn(6) == 0 {
				msg = ""
			}
			loc := types.CodeLocation{FileName: "f", LineNumber: r.Intn(9)}
			ns, nf := st, types.Failure{Message: msg, Location: loc}
			op := r.Intn(6)
			hist += fmt.Sprintf(" %d(%q,%d)", op, msg, loc.LineNumber)
			switch op {
			case 0:
				f.Fail(msg, loc)
				ns = types.SpecStateFailed
			case 1:
				f.Skip(msg, loc)
				ns = types.SpecStateSkipped
			case 2:
				f.AbortSuite(msg, loc)
				ns = types.SpecStateAborted
			case 3:
				var v interface{} = []interface{}{msg, 3, nil, errors.New("boom"), struct{ A, B int }{1, 2}}[r.Intn(5)]
				f.Panic(loc, v)
				ns = types.SpecStatePanicked
				nf = types.Failure{Message: "Test Panicked", Location: loc, ForwardedPanic: fmt.Sprintf("%v", v)}
			case 4:
				s, g := f.Drain()
				if s != st || !reflect.DeepEqual(g, fl) {
					vfail(t, "ops (0 fail 1 skip 2 abort 3 panic 4 drain 5 get)%s: drained (%v, %+v), expected (%v, %+v)", hist, s, g, st, fl)
				}
				st, fl = types.SpecStatePassed, types.Failure{}
				continue
			case 5:
				if f.GetState() != st || !reflect.DeepEqual(f.GetFailure(), fl) {
					vfail(t, "ops (0 fail 1 skip 2 abort 3 panic 4 drain 5 get)%s: holds (%v, %+v), expected (%v, %+v)", hist, f.GetState(), f.GetFailure(), st, fl)
				}
				continue
			}
			if st == types.SpecStatePassed {
				st, fl = ns, nf
			}
		}
		s, g := f.Drain()
		if s != st || !reflect.DeepEqual(g, fl) {
			vfail(t, "ops (0 fail 1 skip 2 abort 3 panic 4 drain 5 get)%s: finally drained (%v, %+v), expected (%v, %+v)", hist, s, g, st, fl)
		}
	}
	// concurrent recorders: what is drained is always one recorder's outcome, and none is reported twice
	for c := 0; c < vn(300, 3000); c++ {
		f := NewFailer()
		var wg sync.WaitGroup
		type oc struct {
			s types.SpecState
			f types.Failure
		}
		res := make(chan oc, 1000)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 6; i++ {
					msg, loc := fmt.Sprintf("%d-%d", g, i), types.CodeLocation{FileName: fmt.Sprint(g), LineNumber: i}
					switch g {
					case 0:
						f.Fail(msg, loc)
					case 1:
						f.Skip(msg, loc)
					case 2:
						f.AbortSuite(msg, loc)
					case 3:
						f.Panic(loc, msg)
					}
				}
			}(g)
		}
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 6; i++ {
					s, x := f.Drain()
					res <- oc{s, x}
				}
			}()
		}
		wg.Wait()
		s, x := f.Drain()
		res <- oc{s, x}
		close(res)
		states := []types.SpecState{types.SpecStateFailed, types.SpecStateSkipped, types.SpecStateAborted, types.SpecStatePanicked}
		seen := map[string]bool{}
		for o := range res {
			if o.s == types.SpecStatePassed {
				if !reflect.DeepEqual(o.f, types.Failure{}) {
					vfail(t, "concurrent: passed was drained with failure %+v", o.f)
				}
				continue
			}
			g, _ := strconv.Atoi(o.f.Location.FileName)
			key := fmt.Sprintf("%d-%d", g, o.f.Location.LineNumber)
			m := o.f.Message
			if g == 3 {
				m = o.f.ForwardedPanic
			}
			if o.s != states[g] || m != key || seen[key] {
				vfail(t, "concurrent: drained %v %+v (mixed or repeated outcome)", o.s, o.f)
			}
			seen[key] = true
		}
	}
	fmt.Println("VERIF-CASES", n)
}
