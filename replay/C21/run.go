//overlay: ginkgo/run/zz_verif_c21_test.go
//bounded: random lists of up to 4 suites (packages and precompiled binaries, played by scripts with given exit codes and compile results) run by the real SpecRunner under random flags; exit code and order of runs compared with the statement; random suite lists for the state queries; three-process runs of every ending order and exit code
package run

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/command"
	"github.com/onsi/ginkgo/v2/ginkgo/internal"
	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/types"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

type vsuite struct {
	name    string
	kind    string // ginkgo, gotest, binary
	compile string // ok fail empty missing
	codes   [2][]int
	warn    bool
}

const vgo = `#!/bin/sh
if [ "$1" = list ]; then exit 1; fi
mode=$(cat compile)
out=""
for a in "$@"; do case $a in --o=*) out=${a#--o=};; esac; done
case $mode in
fail) echo broken; exit 1;;
empty) echo "? [no test files]"; exit 0;;
missing) exit 0;;
esac
cp script "$out"
chmod +x "$out"
`

func vscript(dir, log string, s vsuite) string {
	warn := ""
	if s.warn {
		warn = "echo 'warning: no tests to run' >&2\n"
	}
	return "#!/bin/sh\np=1\ncase \"$*\" in *parallel.process=2*) p=2;; esac\n" +
		"n=0\n[ -f " + dir + "/cnt$p ] && read n < " + dir + "/cnt$p\nn=$((n+1))\necho $n > " + dir + "/cnt$p\n" +
		"[ $p = 1 ] && echo " + s.name + " >> " + log + "\n" + warn +
		"exit $(sed -n ${n}p " + dir + "/codes$p)\n"
}

func TestVerifC21(t *testing.T) {
	r := vrand()
	n := vn(120, 1500)
	base := t.TempDir()
	bin := filepath.Join(base, "bin")
	os.MkdirAll(bin, 0755)
	os.WriteFile(filepath.Join(bin, "go"), []byte(vgo), 0755)
	t.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	stdout, stderr := os.Stdout, os.Stderr
	cwd, _ := os.Getwd()
	defer func() { os.Stdout, os.Stderr = stdout, stderr; os.Chdir(cwd) }()
	ih := interrupt_handler.NewInterruptHandler(nil)
	defer ih.Stop()
	nRuns := 0
	for c := 0; c < n; c++ {
		work := filepath.Join(base, fmt.Sprintf("w%d", c))
		log := filepath.Join(base, fmt.Sprintf("log%d", c))
		os.MkdirAll(work, 0755)
		os.Chdir(work)
		var suiteConfig = types.NewDefaultSuiteConfig()
		var reporterConfig = types.NewDefaultReporterConfig()
		var cli = types.NewDefaultCLIConfig()
		var goFlags = types.NewDefaultGoFlagsConfig()
		flags, err := types.BuildRunCommandFlagSet(&suiteConfig, &reporterConfig, &cli, &goFlags)
		if err != nil {
			t.Fatal(err)
		}
		cli.KeepGoing = r.Intn(2) == 0
		cli.RequireSuite = r.Intn(4) == 0
		parallel := c%20 == 7
		if parallel {
			cli.Procs = 2
		}
		cli.NumCompilers = 1 + r.Intn(3)
		attempts := 1
		switch r.Intn(5) {
		case 0:
			cli.Repeat = 1 + r.Intn(2)
			attempts = cli.Repeat + 1
		case 1:
			cli.UntilItFails = true
			attempts = 100
		}
		if r.Intn(5) == 0 {
			cli.SkipPackage = fmt.Sprintf("s%d", r.Intn(3))
		}
		late := r.Intn(12) == 0
		if late {
			suiteConfig.Timeout = time.Nanosecond
		}
		editor := ""
		if r.Intn(4) == 0 {
			editor = "true"
		}
		t.Setenv("GINKGO_EDITOR_INTEGRATION", editor)
		suites := []vsuite{}
		args := []string{}
		pFail := []float64{0, .2, .5}[r.Intn(3)]
		for k := r.Intn(5); k > 0 || cli.UntilItFails && len(suites) == 0; k-- {
			s := vsuite{name: fmt.Sprintf("s%d", len(suites)), kind: []string{"ginkgo", "ginkgo", "gotest", "binary"}[r.Intn(4)], compile: "ok"}
			if r.Float64() < pFail/2 {
				s.compile = []string{"fail", "missing"}[r.Intn(2)]
			} else if r.Intn(8) == 0 {
				s.compile = "empty"
			}
			for a := 0; a < 4; a++ {
				for p := 0; p < 2; p++ {
					code := 0
					if r.Float64() < pFail {
						code = []int{1, 2, 42, 196, 198}[r.Intn(5)]
					} else if r.Intn(6) == 0 && s.kind != "gotest" {
						code = types.GINKGO_FOCUS_EXIT_CODE
					}
					if cli.UntilItFails && a == 3 {
						code = 1
					}
					s.codes[p] = append(s.codes[p], code)
				}
			}
			s.warn = r.Intn(6) == 0
			dir := filepath.Join(work, s.name)
			os.MkdirAll(dir, 0755)
			for p := 0; p < 2; p++ {
				codes := ""
				for _, x := range s.codes[p] {
					codes += fmt.Sprintln(x)
				}
				os.WriteFile(fmt.Sprintf("%s/codes%d", dir, p+1), []byte(codes), 0644)
			}
			script := vscript(dir, log, s)
			if s.kind == "binary" {
				s.compile = "ok"
				os.WriteFile(filepath.Join(dir, "x.test"), []byte(script), 0755)
				args = append(args, "./"+s.name+"/x.test")
			} else {
				imp := "testing"
				if s.kind == "ginkgo" {
					imp = "github.com/onsi/ginkgo/v2"
				}
				os.WriteFile(filepath.Join(dir, "x_test.go"), []byte("package x\nimport \""+imp+"\"\n"), 0644)
				os.WriteFile(filepath.Join(dir, "script"), []byte(script), 0644)
				os.WriteFile(filepath.Join(dir, "compile"), []byte(s.compile+"\n"), 0644)
				args = append(args, "./"+s.name)
			}
			suites = append(suites, s)
		}
		if cli.UntilItFails {
			// something must run and fail at last
			if suites[0].compile == "empty" {
				suites[0].compile = "fail"
				if suites[0].kind != "binary" {
					os.WriteFile(filepath.Join(work, suites[0].name, "compile"), []byte("fail\n"), 0644)
				}
			}
			if cli.SkipPackage == "s0" {
				cli.SkipPackage = ""
			}
		}
		if len(args) == 0 {
			os.MkdirAll(filepath.Join(work, "nothing"), 0755)
			args = []string{"./nothing"}
		} else if r.Intn(4) == 0 {
			all := true
			for _, s := range suites {
				all = all && s.kind != "binary"
			}
			if all {
				args = []string{"./..."}
				for _, d := range []string{"vendor", "_hidden", ".hidden"} {
					os.MkdirAll(filepath.Join(work, d), 0755)
					os.WriteFile(filepath.Join(work, d, "x_test.go"), []byte("package x\n"), 0644)
					os.WriteFile(filepath.Join(work, d, "compile"), []byte("fail\n"), 0644)
				}
			}
		}

		// what the statement says
		wantCode, wantLog, anyFailed := 0, "", false
		kept := []vsuite{}
		for _, s := range suites {
			if cli.SkipPackage == "" || !strings.Contains("./"+s.name, cli.SkipPackage) {
				kept = append(kept, s)
			}
		}
		if len(kept) == 0 {
			wantCode = 1
			if len(suites) > 0 {
				wantCode = 0
			}
		} else {
			focus := map[string]bool{}
			for a := 0; a < attempts && !anyFailed; a++ {
				for _, s := range kept {
					if anyFailed && !cli.KeepGoing {
						break
					}
					if s.compile == "fail" || s.compile == "missing" {
						anyFailed = true
						continue
					}
					if s.compile == "empty" {
						continue
					}
					if late {
						anyFailed = true
						continue
					}
					wantLog += s.name + "\n"
					nRuns++
					focus[s.name] = false
					for p := 0; p < 2; p++ {
						if p == 1 && (!parallel || s.kind == "gotest") {
							break
						}
						code := s.codes[p][a]
						if code == types.GINKGO_FOCUS_EXIT_CODE {
							focus[s.name] = true
						} else if code != 0 {
							anyFailed = true
						}
					}
					if s.warn && cli.RequireSuite {
						anyFailed = true
					}
				}
			}
			if anyFailed {
				wantCode = 1
			} else if editor == "" {
				for _, f := range focus {
					if f {
						wantCode = types.GINKGO_FOCUS_EXIT_CODE
					}
				}
			}
		}
		gotCode := -1
		func() {
			os.Stdout, os.Stderr = null, null
			defer func() {
				os.Stdout, os.Stderr = stdout, stderr
				e := recover()
				if d, ok := e.(command.AbortDetails); ok {
					gotCode = d.ExitCode
				} else {
					vfail(t, "RunSpecs ended with %v", e)
				}
			}()
			(&SpecRunner{suiteConfig: suiteConfig, reporterConfig: reporterConfig, cliConfig: cli, goFlagsConfig: goFlags, flags: flags, interruptHandler: ih}).RunSpecs(args, nil)
		}()
		gotLog, _ := os.ReadFile(log)
		what := fmt.Sprintf("keep-going=%v require-suite=%v procs=%d repeat=%d until-it-fails=%v skip-package=%q timeout=%v editor=%q args=%v suites=%+v", cli.KeepGoing, cli.RequireSuite, cli.Procs, cli.Repeat, cli.UntilItFails, cli.SkipPackage, suiteConfig.Timeout, editor, args, suites)
		if gotCode != wantCode {
			vfail(t, "exit code %d, want %d: %s", gotCode, wantCode, what)
		}
		if string(gotLog) != wantLog {
			vfail(t, "suites run %q, want %q: %s", gotLog, wantLog, what)
		}
		os.Chdir(base)
		os.RemoveAll(work)
	}

	// queries
	for c := 0; c < n*20; c++ {
		states := []internal.TestSuiteState{}
		for s := internal.TestSuiteStateInvalid; s <= internal.TestSuiteStateFailedToCompile; s++ {
			if r.Intn(3) == 0 {
				states = append(states, s)
			}
		}
		if r.Intn(3) == 0 {
			states = internal.TestSuiteStateFailureStates
		}
		is := func(s internal.TestSuiteState) bool {
			for _, x := range states {
				if s == x {
					return true
				}
			}
			return false
		}
		ts := internal.TestSuites{}
		for k := r.Intn(6); k > 0; k-- {
			ts = append(ts, internal.TestSuite{Path: fmt.Sprint(len(ts)), IsGinkgo: r.Intn(2) == 0, HasProgrammaticFocus: r.Intn(8) == 0, State: internal.TestSuiteState(r.Intn(int(internal.TestSuiteStateFailedToCompile) + 1))})
		}
		with, without, ginkgo, focus := "", "", "", false
		for _, s := range ts {
			if is(s.State) {
				with += s.Path
			} else {
				without += s.Path
			}
			if s.IsGinkgo {
				ginkgo += s.Path
			}
			focus = focus || s.HasProgrammaticFocus
		}
		paths := func(ts internal.TestSuites) (o string) {
			for _, s := range ts {
				o += s.Path
			}
			return
		}
		if paths(ts.WithState(states...)) != with || paths(ts.WithoutState(states...)) != without || ts.CountWithState(states...) != len(with) || paths(ts.ThatAreGinkgoSuites()) != ginkgo || ts.AnyHaveProgrammaticFocus() != focus {
			vfail(t, "queries for states %v on %+v: with %q (want %q) without %q (want %q) count %d ginkgo %q (want %q) focus %v (want %v)", states, ts, paths(ts.WithState(states...)), with, paths(ts.WithoutState(states...)), without, ts.CountWithState(states...), paths(ts.ThatAreGinkgoSuites()), ginkgo, ts.AnyHaveProgrammaticFocus(), focus)
		}
		for _, s := range []internal.TestSuiteState{internal.TestSuiteStateFailed, internal.TestSuiteStateFailedDueToTimeout, internal.TestSuiteStateFailedToCompile} {
			if !s.Is(internal.TestSuiteStateFailureStates...) {
				vfail(t, "state %d is not among the failure states", s)
			}
		}
	}
	if nRuns == 0 {
		vfail(t, "nothing ran")
	}
	fmt.Fprintf(stdout, "VERIF-CASES %d\n", n)
}

// one suite on three processes that end in a given order with given exit codes
func TestVerifC21Parallel(t *testing.T) {
	r := vrand()
	base := t.TempDir()
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	stdout, stderr := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = null, null
	defer func() { os.Stdout, os.Stderr = stdout, stderr }()
	n := vn(48, 400)
	var wg sync.WaitGroup
	var lock sync.Mutex
	problem := ""
	slots := make(chan bool, 16)
	for c := 0; c < n; c++ {
		dir := filepath.Join(base, fmt.Sprint(c))
		os.MkdirAll(dir, 0755)
		codes, order := []int{}, r.Perm(3)
		script := "#!/bin/sh\ncase \"$*\" in\n"
		passed, focus := true, false
		for p := 0; p < 3; p++ {
			code := []int{0, 0, 0, types.GINKGO_FOCUS_EXIT_CODE, types.GINKGO_FOCUS_EXIT_CODE, 1, 198}[r.Intn(5+2*(c%2))]
			codes = append(codes, code)
			passed = passed && (code == 0 || code == types.GINKGO_FOCUS_EXIT_CODE)
			focus = focus || code == types.GINKGO_FOCUS_EXIT_CODE
			script += fmt.Sprintf("*parallel.process=%d*) sleep 0.%d; exit %d;;\n", p+1, 3*order[p], code)
		}
		script += "esac\n"
		path := filepath.Join(dir, "x.test")
		os.WriteFile(path, []byte(script), 0755)
		cli := types.NewDefaultCLIConfig()
		cli.Procs = 3
		wg.Add(1)
		slots <- true
		go func() {
			defer func() { <-slots; wg.Done() }()
			s := internal.RunCompiledSuite(internal.TestSuite{Path: dir, PackageName: "x", IsGinkgo: true, Precompiled: true, PathToCompiledTest: path, State: internal.TestSuiteStateCompiled}, types.NewDefaultSuiteConfig(), types.NewDefaultReporterConfig(), cli, types.NewDefaultGoFlagsConfig(), nil)
			want := internal.TestSuiteStateFailed
			if passed {
				want = internal.TestSuiteStatePassed
			}
			if s.State != want || s.HasProgrammaticFocus != focus {
				lock.Lock()
				problem = fmt.Sprintf("three processes exit with %v in the order %v: state %d (want %d) programmatic focus %v (want %v)", codes, order, s.State, want, s.HasProgrammaticFocus, focus)
				lock.Unlock()
			}
		}()
	}
	wg.Wait()
	if problem != "" {
		vfail(t, "%s", problem)
	}
	fmt.Fprintf(stdout, "VERIF-CASES %d\n", n)
}
