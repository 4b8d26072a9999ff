//overlay: internal/parallel_support/zz_verif_c04_test.go
//about: concurrent index requests to the server, directly and over both transports
//flags: -race
package parallel_support

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"testing"

	"github.com/onsi/ginkgo/v2/reporters"
)
func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}
func TestVerifC04(t *testing.T) {
	r := vrand()
	cases := 0
	run := func(what string, fetchers []func() (int, error)) {
		var wg sync.WaitGroup
		got := make([][]int, len(fetchers))
		per := 1 + r.Intn(30)
		for i, f := range fetchers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < per; k++ {
					n, err := f()
					if err != nil {
						n = -1000
					}
					got[i] = append(got[i], n)
				}
			}()
		}
		wg.Wait()
		var all []int
		for _, g := range got {
			for k := 1; k < len(g); k++ {
				if g[k] <= g[k-1] {
					vfail(t, "%s: one process was handed %d after %d", what, g[k], g[k-1])
				}
			}
			all = append(all, g...)
		}
		sort.Ints(all)
		for k, n := range all {
			if n != k {
				vfail(t, "%s: %d requests by %d processes were handed %v, expected each of 0..%d once", what, len(all), len(fetchers), all, len(all)-1)
			}
		}
		cases++
	}
	for c := 0; c < vn(60, 600); c++ {
		np := 1 + r.Intn(6)
		h := newServerHandler(np, reporters.NoopReporter{})
		var fs []func() (int, error)
		for i := 0; i < np; i++ {
			fs = append(fs, func() (int, error) {
				n := -7
				err := h.Counter(voidSender, &n)
				return n, err
			})
		}
		run("server handler", fs)
	}
	for c := 0; c < vn(6, 60); c++ {
		np := 1 + r.Intn(4)
		rs, err := newRPCServer(np, reporters.NoopReporter{})
		if err != nil {
			t.Skip(err)
		}
		hs, err := newHttpServer(np, reporters.NoopReporter{})
		if err != nil {
			t.Skip(err)
		}
		rs.Start()
		hs.Start()
		var a, b []func() (int, error)
		for i := 0; i < np; i++ {
			rc, hc := newRPCClient(rs.Address()), newHttpClient(hs.Address())
			if !rc.Connect() || !hc.Connect() {
				t.Skip("no loopback")
			}
			defer rc.Close()
			a, b = append(a, rc.FetchNextCounter), append(b, hc.FetchNextCounter)
		}
		run("rpc", a)
		run("http", b)
		rs.Close()
		hs.Close()
	}
	fmt.Println("VERIF-CASES", cases)
}
