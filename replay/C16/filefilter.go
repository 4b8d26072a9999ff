//overlay: types/zz_verif_c16_test.go
//about: random filter arguments and locations against a direct reading of the syntax
package types

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"testing"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

func TestVerifC16(t *testing.T) {
	r := vrand()
	n := vn(60000, 1000000)
	names := []string{"a", "b.go", "dir/a", "(", "", "a|b", "^b", "[", "o$"}
	lines := []string{"1", "2", "1-3", "3-1", "2-2", " 4", "4 ", "x", "", "1-", "-2", "1-2-3", "0-100", "5-7", "1 - 3", "+3", "99999999999999999999"}
	fn := []string{"a", "b.go", "dir/a", "xx", "dir/b.go"}
	for c := 0; c < n; c++ {
		var args []string
		for i, k := 0, r.Intn(4); i < k; i++ {
			a := names[r.Intn(len(names))]
			for j, m := 0, r.Intn(3); j < m && (j == 0 || r.Intn(5) == 0); j++ {
				var ls []string
				for q, p := 0, 1+r.Intn(3); q < p; q++ {
					x := 5
					if r.Intn(3) == 0 {
						x = len(lines)
					}
					ls = append(ls, lines[r.Intn(x)])
				}
				a += ":" + strings.Join(ls, ",")
			}
			args = append(args, a)
		}
		// the reference
		type rg struct{ lo, hi int }
		type ref struct {
			re *regexp.Regexp
			ls []rg
		}
		var refs []ref
		ok := true
		for _, a := range args {
			p := strings.Split(a, ":")
			if a == "" || len(p) > 2 {
				ok = false
				break
			}
			re, err := regexp.Compile(p[0])
			if err != nil {
				ok = false
				break
			}
			x := ref{re: re}
			if len(p) == 2 {
				for _, l := range strings.Split(p[1], ",") {
					q := strings.Split(l, "-")
					lo, e1 := strconv.Atoi(strings.TrimSpace(q[0]))
					hi := lo + 1
					var e2 error
					if len(q) == 2 {
						hi, e2 = strconv.Atoi(strings.TrimSpace(q[1]))
					}
					if e1 != nil || e2 != nil || len(q) > 2 {
						ok = false
						break
					}
					x.ls = append(x.ls, rg{lo, hi})
				}
			}
			refs = append(refs, x)
		}
		ffs, err := ParseFileFilters(args)
		if (err == nil) != ok {
			vfail(t, "ParseFileFilters(%q): err=%v, expected accepted=%v", args, err, ok)
		}
		if !ok {
			continue
		}
		if len(ffs) != len(args) {
			vfail(t, "ParseFileFilters(%q) gives %d filters", args, len(ffs))
		}
		for q := 0; q < 4; q++ {
			var locs []CodeLocation
			for i, k := 0, r.Intn(4); i < k; i++ {
				locs = append(locs, CodeLocation{FileName: fn[r.Intn(len(fn))], LineNumber: r.Intn(9)})
			}
			exp := false
			for _, x := range refs {
				for _, l := range locs {
					in := len(x.ls) == 0
					for _, g := range x.ls {
						in = in || g.lo <= l.LineNumber && l.LineNumber < g.hi
					}
					exp = exp || in && x.re.MatchString(l.FileName)
				}
			}
			if got := ffs.Matches(locs); got != exp {
				vfail(t, "filters %q on %v: Matches=%v, expected %v", args, locs, got, exp)
			}
		}
	}
	fmt.Println("VERIF-CASES", n)
}
