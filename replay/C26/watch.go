//overlay: ginkgo/watch/zz_verif_c26_test.go
//bounded: random dependency graphs of up to 6 packages, depths 0-3, histories of up to 6 rounds of edits (files added, changed, removed, replaced by older ones, hidden or not matching; packages and suites removed and restored), through the real DeltaTracker
package watch

import (
	"fmt"
	"go/build"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/ginkgo/internal"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

func TestVerifC26(t *testing.T) {
	r := vrand()
	n := vn(200, 3000)
	t.Setenv("GO111MODULE", "off")
	stop := time.Now().Add(time.Duration(vn(25, 400)) * time.Second)
	cases := 0
	for c := 0; c < n && time.Now().Before(stop); c++ {
		cases++
		gopath := t.TempDir()
		build.Default.GOPATH = gopath
		src := filepath.Join(gopath, "src")
		np := 3 + r.Intn(4)
		name := func(p int) string { return fmt.Sprintf("p%d", p) }
		dir := func(p int) string { return filepath.Join(src, name(p)) }
		imports := map[int][]int{} // of the code
		timports := map[int][]int{}
		suite := map[int]bool{}
		write := func(path, content string) { os.WriteFile(path, []byte(content), 0644) }
		text := func(pkg string, deps []int) string {
			s := "package " + pkg + "\n"
			for _, d := range deps {
				s += fmt.Sprintf("import _ %q\n", name(d))
			}
			return s
		}
		desc := ""
		for p := 0; p < np; p++ {
			os.MkdirAll(dir(p), 0755)
			for d := 0; d < p; d++ {
				if r.Intn(2) == 0 {
					imports[p] = append(imports[p], d)
				}
				if r.Intn(6) == 0 {
					timports[p] = append(timports[p], d)
				}
			}
			write(dir(p)+"/a.go", text(name(p), imports[p]))
			write(dir(p)+"/b.go", text(name(p), nil))
			suite[p] = p == np-1 || r.Intn(3) == 0
			if suite[p] {
				pkg := name(p)
				if r.Intn(2) == 0 {
					pkg += "_test"
				}
				write(dir(p)+"/a_test.go", text(pkg, timports[p]))
			}
			desc += fmt.Sprintf("p%d imports %v", p, imports[p])
			if suite[p] {
				desc += fmt.Sprintf(", its tests %v", timports[p])
			}
			desc += "; "
		}
		depth := r.Intn(4)
		desc = fmt.Sprintf("depth %d; %s", depth, desc)
		deps := func(p int) map[int]bool {
			out := map[int]bool{}
			if depth == 0 {
				return out
			}
			cur := append(append([]int{}, imports[p]...), timports[p]...)
			for k := 1; k <= depth; k++ {
				next := []int{}
				for _, d := range cur {
					out[d] = true
					next = append(next, imports[d]...)
				}
				cur = next
			}
			return out
		}
		provided := func() (out internal.TestSuites) {
			for p := 0; p < np; p++ {
				if suite[p] {
					out = append(out, internal.TestSuite{Path: dir(p), PackageName: name(p)})
				}
			}
			return
		}
		names := func(ss []*Suite) string {
			out := []string{}
			for _, s := range ss {
				out = append(out, s.Suite.PackageName)
			}
			sort.Strings(out)
			return strings.Join(out, " ")
		}
		tracker := NewDeltaTracker(depth, regexp.MustCompile(`\.go$`))
		delta, errs := tracker.Delta(provided())
		all := []string{}
		for p := 0; p < np; p++ {
			if suite[p] {
				all = append(all, name(p))
			}
		}
		if len(errs) > 0 || names(delta.NewSuites) != strings.Join(all, " ") || len(delta.ModifiedSuites()) > 0 {
			vfail(t, "first look: new %s modified %s errors %v: %s", names(delta.NewSuites), names(delta.ModifiedSuites()), errs, desc)
		}
		hiddenSuite := map[int]bool{}
		known := map[int]bool{}
		for p, s := range suite {
			known[p] = s
		}
		nf := 0
		for round := 0; round < 2+r.Intn(5); round++ {
			time.Sleep(12 * time.Millisecond)
			code, tests, edited := map[int]bool{}, map[int]bool{}, map[int]bool{}
			for e := 1 + r.Intn(2); e > 0; e-- {
				p := r.Intn(np)
				if edited[p] { // a second edit could undo the first
					continue
				}
				edited[p] = true
				nf++
				f := fmt.Sprintf("%s/f%d", dir(p), nf)
				switch k := r.Intn(10); k {
				case 0, 1:
					write(dir(p)+"/b.go", text(name(p), nil)+strings.Repeat("//x\n", nf))
					code[p] = true
				case 2:
					write(f+".go", text(name(p), nil))
					code[p] = true
				case 3: // a file brought along with its old modification time
					write(f+".go", text(name(p), nil))
					old := time.Now().Add(-time.Hour)
					os.Chtimes(f+".go", old, old)
					code[p] = true
				case 4:
					if m, _ := filepath.Glob(dir(p) + "/f*.go"); len(m) > 0 {
						k := r.Intn(len(m))
						if !strings.HasSuffix(m[k], "_test.go") {
							os.Remove(m[k])
							code[p] = true
							desc += "(removed) "
						}
					}
				case 5:
					write(f+".txt", "x")
					write(filepath.Join(dir(p), ".h"+strconv.Itoa(nf)+".go"), "package x")
					write(filepath.Join(dir(p), "_h"+strconv.Itoa(nf)+".go"), "package x")
				case 6, 7:
					if suite[p] {
						write(f+"_test.go", text(name(p), nil))
						tests[p] = true
					}
				case 8:
					if m, _ := filepath.Glob(dir(p) + "/f*_test.go"); len(m) > 0 {
						os.Remove(m[0])
						tests[p] = true
					}
				case 9:
					old := time.Now().Add(-time.Hour * time.Duration(nf))
					os.Chtimes(dir(p)+"/a.go", old, old)
					code[p] = true
				}
				desc += fmt.Sprintf("round %d: edit %s; ", round, name(p))
			}
			// now and then a suite goes or comes back
			var gone, back []string
			if r.Intn(4) == 0 {
				p := r.Intn(np)
				if suite[p] && len(provided()) > 1 {
					suite[p], hiddenSuite[p] = false, true
					gone = append(gone, name(p))
				} else if hiddenSuite[p] {
					suite[p], hiddenSuite[p] = true, false
					back = append(back, name(p))
				}
				desc += fmt.Sprintf("suites gone %v back %v; ", gone, back)
			}
			want := []string{}
			for p := 0; p < np; p++ {
				if !suite[p] || !known[p] {
					continue
				}
				hit := code[p] || tests[p]
				for d := range deps(p) {
					hit = hit || code[d]
				}
				if hit {
					want = append(want, name(p))
				}
			}
			delta, errs := tracker.Delta(provided())
			for p, s := range suite {
				known[p] = s
			}
			got := names(delta.ModifiedSuites())
			if len(errs) > 0 || got != strings.Join(want, " ") {
				vfail(t, "modified suites %q, want %q (errors %v): %s", got, strings.Join(want, " "), errs, desc)
			}
			if names(delta.NewSuites) != strings.Join(back, " ") || names(delta.RemovedSuites) != strings.Join(gone, " ") {
				vfail(t, "new suites %q, want %q; removed suites %q, want %q: %s", names(delta.NewSuites), back, names(delta.RemovedSuites), gone, desc)
			}
			for _, s := range append(delta.ModifiedSuites(), delta.NewSuites...) {
				if err := tracker.WillRun(s.Suite); err != nil {
					vfail(t, "WillRun %s: %v: %s", s.Suite.PackageName, err, desc)
				}
			}
		}
	}
	fmt.Printf("VERIF-CASES %d\n", cases)
}

// a package that disappears and returns, and file removal, one at a time
func TestVerifC26Package(t *testing.T) {
	dir := filepath.Join(t.TempDir(), "p")
	step := func() { time.Sleep(12 * time.Millisecond) }
	for _, file := range []string{"a.go", "a_test.go"} {
		os.MkdirAll(dir, 0755)
		os.WriteFile(filepath.Join(dir, file), []byte("package p\n"), 0644)
		os.WriteFile(filepath.Join(dir, "other.go"), []byte("package p\n"), 0644)
		h := NewPackageHash(dir, regexp.MustCompile(`\.go$`))
		look := func(what string, want bool) {
			step()
			run := time.Now()
			step()
			switch what {
			case "removing":
				os.Remove(filepath.Join(dir, file))
			case "moving away":
				os.Rename(dir, dir+"x")
			case "moving back":
				os.Rename(dir+"x", dir)
			case "adding":
				os.WriteFile(filepath.Join(dir, file), []byte("package p\n"), 0644)
			}
			modified := h.CheckForChanges()
			at := h.TestModifiedTime
			if file == "a.go" {
				at = h.CodeModifiedTime
			}
			if modified != want || want && !at.After(run) {
				vfail(t, "%s (%s): modified %v (want %v), modification time after the last run: %v", what, file, modified, want, at.After(run))
			}
		}
		look("nothing", false)
		look("removing", true)
		look("adding", true)
		look("nothing", false)
		look("moving away", true)
		look("moving back", true)
		look("nothing", false)
		os.RemoveAll(dir)
	}
	fmt.Println("VERIF-CASES 2")
}

// the dependencies alone, repeatedly: the layers are visited in random (map) order
func TestVerifC26Dependencies(t *testing.T) {
	r := vrand()
	t.Setenv("GO111MODULE", "off")
	n := vn(60, 600)
	for c := 0; c < n; c++ {
		gopath := t.TempDir()
		build.Default.GOPATH = gopath
		dir := func(p int) string { return filepath.Join(gopath, "src", fmt.Sprintf("p%d", p)) }
		np := 4 + r.Intn(4)
		imports := map[int][]int{}
		for p := 0; p < np; p++ {
			os.MkdirAll(dir(p), 0755)
			s := fmt.Sprintf("package p%d\n", p)
			for d := 0; d < p; d++ {
				if r.Intn(2) == 0 {
					imports[p] = append(imports[p], d)
					s += fmt.Sprintf("import _ \"p%d\"\n", d)
				}
			}
			os.WriteFile(dir(p)+"/a.go", []byte(s), 0644)
		}
		depth := 1 + r.Intn(3)
		want := []string{}
		seen := map[int]bool{}
		cur := imports[np-1]
		for k := 1; k <= depth; k++ {
			next := []int{}
			for _, d := range cur {
				if !seen[d] {
					want = append(want, dir(d))
				}
				seen[d] = true
				next = append(next, imports[d]...)
			}
			cur = next
		}
		sort.Strings(want)
		for k := 0; k < 8; k++ {
			d, err := NewDependencies(dir(np-1), depth)
			got := []string{}
			for p := range d.Dependencies() {
				got = append(got, p)
			}
			sort.Strings(got)
			if err != nil || strings.Join(got, " ") != strings.Join(want, " ") {
				vfail(t, "dependencies of p%d within depth %d: %v, want %v (error %v); imports %v", np-1, depth, got, want, err, imports)
			}
		}
	}
}
