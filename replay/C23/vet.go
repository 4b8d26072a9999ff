//overlay: types/zz_verif_c23_test.go
//about: random configurations against a direct list of the contradictions
package types

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

func TestVerifC23(t *testing.T) {
	r := vrand()
	n := vn(20000, 400000)
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	rare := func() bool { return r.Intn(6) == 0 }
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "file"), nil, 0644)
	for c := 0; c < n; c++ {
		bad := []string{}
		no := func(b bool, why string) {
			if b {
				bad = append(bad, why)
			}
		}
		fs := flag.NewFlagSet("x", flag.ContinueOnError)
		args := []string{}
		prefix := pick("", "test.")
		fs.String(prefix+"count", "1", "")
		fs.String(prefix+"parallel", "1", "")
		if rare() {
			v := pick("1", "1", "2", "0", "-1", "x", "", "01")
			args = append(args, "-"+prefix+"count="+v)
			i, err := strconv.Atoi(v)
			no(err != nil || i != 1, "count")
		}
		if rare() && rare() {
			args = append(args, "-"+prefix+"parallel=2")
			no(true, "parallel flag")
		}
		set, err := NewAttachedGinkgoFlagSet(fs, GinkgoFlags{}, map[string]any{}, GinkgoFlagSections{}, GinkgoFlagSection{})
		if err != nil {
			vfail(t, "flag set: %v", err)
		}
		if _, err := set.Parse(args); err != nil {
			vfail(t, "parse: %v", err)
		}
		sc := NewDefaultSuiteConfig()
		if r.Intn(2) == 0 {
			sc.ParallelTotal = r.Intn(5) - 1
			sc.ParallelProcess = r.Intn(5) - 1
		}
		sc.ParallelHost = pick("", "h", "h", "h")
		sc.DryRun = rare()
		if rare() {
			sc.GracePeriod = time.Duration(r.Intn(3) - 1)
		}
		no(sc.ParallelTotal < 1, "total")
		no(sc.ParallelProcess < 1 || sc.ParallelProcess > sc.ParallelTotal, "process")
		no(sc.ParallelTotal > 1 && sc.ParallelHost == "", "host")
		no(sc.ParallelTotal > 1 && sc.DryRun, "dry run in parallel")
		no(sc.GracePeriod <= 0, "grace period")
		files := func() []string {
			if !rare() {
				return nil
			}
			return []string{pick("a.go", "b.go:3", "c.go:1-4", "", "(", "a:b:c", "a:x")}
		}
		badFile := func(fs []string) bool { return len(fs) > 0 && strings.Contains(",(,a:b:c,a:x,", ","+fs[0]+",") }
		sc.FocusFiles, sc.SkipFiles = files(), files()
		no(badFile(sc.FocusFiles) || len(sc.FocusFiles) > 0 && sc.FocusFiles[0] == "", "focus file")
		no(badFile(sc.SkipFiles) || len(sc.SkipFiles) > 0 && sc.SkipFiles[0] == "", "skip file")
		sc.LabelFilter = pick("", "", "", "", "a", "a && !b", "(", "a &&")
		no(sc.LabelFilter == "(" || sc.LabelFilter == "a &&", "label filter")
		sc.OutputInterceptorMode = pick("", "", "dup", "SWAP", "None", "", "", "other")
		no(sc.OutputInterceptorMode == "other", "output interceptor mode")
		rc := ReporterConfig{Succinct: rare(), Verbose: rare(), VeryVerbose: rare()}
		no(rc.Succinct && rc.Verbose || rc.Succinct && rc.VeryVerbose || rc.Verbose && rc.VeryVerbose, "verbosity")
		if errs := VetConfig(set, sc, rc); (len(errs) > 0) != (len(bad) > 0) {
			vfail(t, "VetConfig reports %v, contradictions: %v\n  suite %+v\n  reporter %+v\n  arguments %q", errs, bad, sc, rc, args)
		}

		bad = nil
		cc, gc := NewDefaultCLIConfig(), NewDefaultGoFlagsConfig()
		cc.Repeat, cc.UntilItFails = r.Intn(3), rare()
		no(cc.Repeat > 0 && cc.UntilItFails, "repeat and until it fails")
		prof := func() string {
			p := ""
			if rare() {
				p = pick("x.out", "y", "dir"+string(os.PathSeparator)+"x", string(os.PathSeparator)+"x")
			}
			no(strings.Contains(p, string(os.PathSeparator)), "profile "+p)
			return p
		}
		gc.CoverProfile, gc.CPUProfile, gc.MemProfile, gc.BlockProfile, gc.MutexProfile = prof(), prof(), prof(), prof(), prof()
		gc.CoverMode, gc.Cover = pick("", "", "atomic"), rare()
		if rare() {
			cc.OutputDir = pick(filepath.Join(dir, "out"), filepath.Join(dir, "file", "out"))
			no(strings.Contains(cc.OutputDir, "file"), "output directory")
		}
		c2, g2, errs := VetAndInitializeCLIAndGoConfig(cc, gc)
		if (len(errs) > 0) != (len(bad) > 0) {
			vfail(t, "VetAndInitializeCLIAndGoConfig reports %v, contradictions: %v\n  cli %+v\n  go flags %+v", errs, bad, cc, gc)
		}
		if c2 != cc || g2.Cover && g2.CoverProfile == "" || (gc.CoverMode != "" || gc.CoverProfile != "" || gc.CoverPkg != "") && !g2.Cover {
			vfail(t, "VetAndInitializeCLIAndGoConfig turned %+v into %+v", gc, g2)
		}
	}
	fmt.Println("VERIF-CASES", n)
}
