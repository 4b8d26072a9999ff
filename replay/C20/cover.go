//overlay: ginkgo/internal/zz_verif_c20_test.go
//bounded: random sets of up to 4 profile files (3 source files, 8 block positions) merged by the real MergeAndCleanupCoverProfiles and compared with a map of counts
package internal

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

type vpos struct{ sl, sc, el, ec int }

func vbefore(a, b vpos) bool { return a.sl < b.sl || a.sl == b.sl && a.sc < b.sc }

func TestVerifC20(t *testing.T) {
	r := vrand()
	n := vn(1500, 30000)
	dir := t.TempDir()
	for c := 0; c < n; c++ {
		mode := []string{"set", "count", "atomic"}[r.Intn(3)]
		files := []string{"b/x.go", "a/y.go", "b/x2.go"}
		// disjoint blocks: a profile has a random selection of them; now and then one has another end
		blocks := map[string][]vpos{}
		for _, f := range files {
			l, col := 1, 1
			for k := 0; k < r.Intn(9); k++ {
				if r.Intn(2) == 0 {
					l, col = l+1+r.Intn(3), 1+r.Intn(3)
				} else {
					col += 1 + r.Intn(3)
				}
				p := vpos{sl: l, sc: col}
				if r.Intn(2) == 0 {
					l, col = l+1, 1+r.Intn(4)
				} else {
					col += 1 + r.Intn(4)
				}
				p.el, p.ec = l, col
				blocks[f] = append(blocks[f], p)
			}
		}
		want := map[string]map[vpos]int{}
		stmts := map[vpos]int{}
		reject := false
		var names, texts []string
		oddMode := ""
		ends := map[string]vpos{}
		wholeMode := ""
		for k := 1 + r.Intn(4); k > 0; k-- {
			m := mode
			if r.Intn(15) == 0 {
				m = []string{"set", "count", "odd"}[r.Intn(3)]
			}
			var lines []string
			for _, f := range files {
				if r.Intn(4) == 0 {
					continue
				}
				for _, p := range blocks[f] {
					if r.Intn(3) == 0 {
						continue
					}
					if r.Intn(40) == 0 {
						p.ec += 1
					}
					key := fmt.Sprint(f, p.sl, ".", p.sc)
					if q, ok := ends[key]; ok && q != p {
						reject = true
					}
					ends[key] = p
					if _, ok := stmts[p]; !ok {
						stmts[p] = 1 + r.Intn(5)
					}
					cnt := r.Intn(4)
					if m == "set" {
						cnt = r.Intn(2)
					}
					lines = append(lines, fmt.Sprintf("%s:%d.%d,%d.%d %d %d", f, p.sl, p.sc, p.el, p.ec, stmts[p], cnt))
					if want[f] == nil {
						want[f] = map[vpos]int{}
					}
					if mode == "set" {
						want[f][p] |= cnt
					} else {
						want[f][p] += cnt
					}
				}
			}
			if m != mode {
				oddMode = m
			}
			if len(lines) > 0 {
				wholeMode = m
			}
			r.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
			text := "mode: " + m + "\n" + strings.Join(lines, "\n")
			if len(lines) > 0 {
				text += "\n"
			}
			name := filepath.Join(dir, fmt.Sprintf("p%d.out", len(names)))
			if err := os.WriteFile(name, []byte(text), 0644); err != nil {
				t.Fatal(err)
			}
			names, texts = append(names, name), append(texts, text)
		}
		dst := filepath.Join(dir, "merged.out")
		os.Remove(dst)
		var err error
		func() {
			defer func() {
				if e := recover(); e != nil {
					vfail(t, "merging panicked: %v\nprofiles:\n%s", e, strings.Join(texts, "\n--\n"))
				}
			}()
			err = MergeAndCleanupCoverProfiles(names, dst)
		}()
		if oddMode != "" {
			// a file that occurs under two modes must be rejected
			modes := map[string]string{}
			clash := false
			for _, x := range texts {
				ls := strings.Split(strings.TrimSpace(x), "\n")
				m := strings.TrimPrefix(ls[0], "mode: ")
				for _, l := range ls[1:] {
					f := l[:strings.Index(l, ":")]
					if modes[f] != "" && modes[f] != m {
						clash = true
					}
					modes[f] = m
				}
			}
			if clash && err == nil {
				vfail(t, "profiles of one file with different modes were merged without an error:\n%s", strings.Join(texts, "\n--\n"))
			}
			continue
		}
		if reject != (err != nil) {
			vfail(t, "merging: error %v, but conflicting blocks: %v\nprofiles:\n%s", err, reject, strings.Join(texts, "\n--\n"))
		}
		if err != nil {
			continue
		}
		out := ""
		if wholeMode != "" {
			out = "mode: " + mode + "\n"
		}
		sort.Strings(files)
		for _, f := range files {
			ps := []vpos{}
			for p := range want[f] {
				ps = append(ps, p)
			}
			sort.Slice(ps, func(i, j int) bool { return vbefore(ps[i], ps[j]) })
			for _, p := range ps {
				out += fmt.Sprintf("%s:%d.%d,%d.%d %d %d\n", f, p.sl, p.sc, p.el, p.ec, stmts[p], want[f][p])
			}
		}
		got, e := os.ReadFile(dst)
		if e != nil || string(got) != out {
			vfail(t, "merged profile is\n%s\nbut should be\n%s\nprofiles:\n%s", got, out, strings.Join(texts, "\n--\n"))
		}
	}
	fmt.Println("VERIF-CASES", n)
}
