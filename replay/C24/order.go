//overlay: ginkgo/internal/zz_verif_c24_test.go
//bounded: up to 6 suites compiled by 1-4 background compilers with random compile times and results (a script plays the go command), drained at random points, under the race detector
//flags: -race
package internal

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/types"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

const vgo = `#!/bin/sh
read mode pause < compile
out=""
for a in "$@"; do case $a in --o=*) out=${a#--o=};; esac; done
echo start >> log
sleep $pause
case $mode in
fail) echo broken $PWD; exit 1;;
empty) echo "? [no test files]"; exit 0;;
missing) exit 0;;
esac
echo x > "$out"
echo done >> log
`

func TestVerifC24(t *testing.T) {
	r := vrand()
	n := vn(60, 900)
	base := t.TempDir()
	bin := filepath.Join(base, "bin")
	os.MkdirAll(bin, 0755)
	os.WriteFile(filepath.Join(bin, "go"), []byte(vgo), 0755)
	t.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	for c := 0; c < n; c++ {
		work := filepath.Join(base, fmt.Sprint(c))
		suites := TestSuites{}
		modes := []string{}
		pauses := []string{}
		for k := r.Intn(7); k > 0; k-- {
			dir := filepath.Join(work, fmt.Sprintf("s%d", len(suites)))
			os.MkdirAll(dir, 0755)
			s := TestSuite{Path: dir, PackageName: fmt.Sprintf("p%d", r.Intn(4)), // packages may share a name
				 IsGinkgo: r.Intn(2) == 0, State: TestSuiteStateUncompiled}
			mode := []string{"ok", "ok", "ok", "fail", "empty", "missing", "pre"}[r.Intn(7)]
			pause := fmt.Sprintf("0.0%d", r.Intn(6))
			os.WriteFile(filepath.Join(dir, "compile"), []byte(mode+" "+pause+"\n"), 0644)
			if mode == "pre" {
				s.Precompiled, s.PathToCompiledTest, s.State = true, filepath.Join(dir, "x.test"), TestSuiteStateCompiled
			}
			modes = append(modes, mode)
			pauses = append(pauses, pause)
			suites = append(suites, s)
		}
		compilers := 1 + r.Intn(4)
		stopAt := 100
		if r.Intn(3) == 0 {
			stopAt = r.Intn(len(suites) + 1)
		}
		what := fmt.Sprintf("%d compilers, suites %v taking %v, drained before number %d", compilers, modes, pauses, stopAt)
		opc := NewOrderedParallelCompiler(compilers)
		opc.StartCompiling(suites, types.NewDefaultGoFlagsConfig(), false)
		for k := 0; k <= len(suites)+1; k++ {
			if k == stopAt {
				opc.StopAndDrain()
			}
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
			}
			type next struct {
				i int
				s TestSuite
			}
			ch := make(chan next, 1)
			go func() {
				i, s := opc.Next()
				ch <- next{i, s}
			}()
			var got next
			select {
			case got = <-ch:
			case <-time.After(20 * time.Second):
				vfail(t, "Next number %d never returns: %s", k, what)
			}
			if k >= len(suites) {
				if got.i != len(suites) {
					vfail(t, "Next number %d returned index %d after the last suite: %s", k, got.i, what)
				}
				continue
			}
			if got.i != k {
				vfail(t, "Next number %d returned index %d: %s", k, got.i, what)
			}
			o, s := suites[k], got.s
			if s.Path != o.Path || s.PackageName != o.PackageName || s.IsGinkgo != o.IsGinkgo || s.Precompiled != o.Precompiled {
				vfail(t, "Next number %d returned the suite %+v, not %+v: %s", k, s, o, what)
			}
			log, _ := os.ReadFile(filepath.Join(o.Path, "log"))
			ok := false
			switch modes[k] {
			case "ok":
				ok = s.State == TestSuiteStateCompiled && s.PathToCompiledTest == filepath.Join(o.Path, o.PackageName+".test") && string(log) == "start\ndone\n"
			case "fail":
				ok = s.State == TestSuiteStateFailedToCompile && s.CompilationError != nil && strings.Contains(s.CompilationError.Error(), "broken "+o.Path) && string(log) == "start\n"
			case "missing":
				ok = s.State == TestSuiteStateFailedToCompile && s.CompilationError != nil && string(log) == "start\n"
			case "empty":
				ok = s.State == TestSuiteStateSkippedDueToEmptyCompilation && string(log) == "start\n"
			case "pre":
				ok = s == o && string(log) == ""
			}
			if !ok && !(k >= stopAt && s == o && string(log) == "") {
				vfail(t, "Next number %d returned %+v (compile log %q): %s", k, s, log, what)
			}
		}
		os.RemoveAll(work)
	}
	fmt.Printf("VERIF-CASES %d\n", n)
}
