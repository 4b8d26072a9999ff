//overlay: internal/zz_verif_c01_test.go
//about: random spec lists, node chains and filter combinations against a direct reading of the selection rule
package internal

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/types"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}

func TestVerifC01(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	texts := []string{"", "dog", "cat", "dog fish", "a", "giraffe"}
	labels := []string{"dog", "cat", "cow", "Dog"}
	pick := func(l []string, n int) []string {
		var o []string
		for i := 0; i < n; i++ {
			o = append(o, l[r.Intn(len(l))])
		}
		return o
	}
	n := 20000
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 400000
	}
	files := []string{"file_a", "file_b", "dir/file_c"}
	filters := []string{"file_a", "file_b:1", "file:1-3", "file_c:2,4-6", "dir", "nope", "file_a:3-3"}
	lf := map[string]func(m map[string]bool) bool{
		"":             func(m map[string]bool) bool { return true },
		"dog":          func(m map[string]bool) bool { return m["dog"] },
		"!cat":         func(m map[string]bool) bool { return !m["cat"] },
		"dog && cow":   func(m map[string]bool) bool { return m["dog"] && m["cow"] },
		"(dog || cat)": func(m map[string]bool) bool { return m["dog"] || m["cat"] },
		"sl":           func(m map[string]bool) bool { return m["sl"] },
	}
	var lfk []string
	for _, k := range []string{"", "dog", "!cat", "dog && cow", "(dog || cat)", "sl"} {
		lfk = append(lfk, k)
	}
	for c := 0; c < n; c++ {
		var specs Specs
		style := r.Intn(4)
		for i, m := 0, r.Intn(5); i < m; i++ {
			var ns Nodes
			for j, k := 0, 1+r.Intn(4); j < k; j++ {
				nt := types.NodeTypeContainer
				if j == k-1 {
					nt = types.NodeTypeIt
				}
				ns = append(ns, Node{ID: uint(r.Intn(8)), NodeType: nt, Text: texts[r.Intn(len(texts))], Labels: Labels(pick(labels, r.Intn(3))),
					MarkedPending: style != 0 && r.Intn(6) == 0, MarkedFocus: style >= 2 && r.Intn(5) == 0, NestingLevel: j,
					CodeLocation: types.CodeLocation{FileName: files[r.Intn(len(files))], LineNumber: r.Intn(7)}})
			}
			specs = append(specs, Spec{Nodes: ns, Skip: r.Intn(8) == 0})
		}
		var cfg types.SuiteConfig
		if r.Intn(2) == 0 {
			cfg.LabelFilter = lfk[r.Intn(len(lfk))]
		}
		if r.Intn(3) == 0 {
			cfg.FocusFiles = pick(filters, r.Intn(3))
		}
		if r.Intn(3) == 0 {
			cfg.SkipFiles = pick(filters, r.Intn(3))
		}
		pats := []string{"", "dog", "cat$", "^desc", "^dog", "fish a", "gir.ffe"}
		if r.Intn(3) == 0 {
			cfg.FocusStrings = pick(pats, r.Intn(3))
		}
		if r.Intn(3) == 0 {
			cfg.SkipStrings = pick(pats, r.Intn(3))
		}
		sl := Labels(pick([]string{"sl", "cow"}, r.Intn(3)))
		desc := []string{"", "desc", "dog"}[r.Intn(3)]
		pending := func(s Spec) bool {
			for _, x := range s.Nodes {
				if x.MarkedPending {
					return true
				}
			}
			return false
		}
		focused := func(s Spec) bool {
			for _, x := range s.Nodes {
				if x.MarkedFocus {
					return true
				}
			}
			return false
		}
		any := false
		for _, s := range specs {
			if focused(s) && !pending(s) {
				any = true
			}
		}
		fileSel := func(f string, s Spec) bool {
			p := strings.Split(f, ":")
			for _, x := range s.Nodes {
				if !regexp.MustCompile(p[0]).MatchString(x.CodeLocation.FileName) {
					continue
				}
				if len(p) == 1 {
					return true
				}
				for _, rg := range strings.Split(p[1], ",") {
					q := strings.Split(rg, "-")
					lo, _ := strconv.Atoi(q[0])
					hi := lo + 1
					if len(q) == 2 {
						hi, _ = strconv.Atoi(q[1])
					}
					if lo <= x.CodeLocation.LineNumber && x.CodeLocation.LineNumber < hi {
						return true
					}
				}
			}
			return false
		}
		anySel := func(fs []string, s Spec) bool {
			for _, f := range fs {
				if fileSel(f, s) {
					return true
				}
			}
			return false
		}
		in := make(Specs, len(specs))
		var deep []Nodes
		for i := range specs {
			in[i] = specs[i]
			deep = append(deep, append(Nodes{}, specs[i].Nodes...))
		}
		out, foc := ApplyFocusToSpecs(specs, desc, sl, cfg)
		d := func() string { return fmt.Sprintf("specs=%+v description=%q suite labels=%v config=%+v", in, desc, sl, cfg) }
		if foc != any {
			vfail(t, "reports programmatic focus %v, expected %v: %s", foc, any, d())
		}
		if len(out) != len(in) {
			vfail(t, "%d specs became %d: %s", len(in), len(out), d())
		}
		for i, s := range in {
			ls := map[string]bool{}
			for _, l := range sl {
				ls[l] = true
			}
			var tx []string
			var firstSeen []string
			seen := map[string]bool{}
			for _, x := range s.Nodes {
				for _, l := range x.Labels {
					ls[l] = true
					if !seen[l] {
						seen[l] = true
						firstSeen = append(firstSeen, l)
					}
				}
				if x.Text != "" {
					tx = append(tx, x.Text)
				}
			}
			lower := map[string]bool{}
			for l := range ls {
				lower[strings.ToLower(l)] = true
			}
			full := strings.Join(tx, " ")
			if g := s.Text(); g != full {
				vfail(t, "Text() is %q, expected %q: %+v", g, full, s)
			}
			got := map[string]bool{}
			for _, l := range s.Nodes.UnionOfLabels() {
				if got[l] {
					vfail(t, "UnionOfLabels lists %q twice: %+v", l, s)
				}
				got[l] = true
			}
			if !reflect.DeepEqual(got, seen) {
				vfail(t, "UnionOfLabels is %v, expected %v: %+v", got, seen, s)
			}
			exp := pending(s) || any && !focused(s) || !lf[cfg.LabelFilter](lower) || len(cfg.FocusFiles) > 0 && !anySel(cfg.FocusFiles, s) || len(cfg.SkipFiles) > 0 && anySel(cfg.SkipFiles, s)
			if p := strings.Join(cfg.FocusStrings, "|"); p != "" {
				exp = exp || !regexp.MustCompile(p).MatchString(desc+" "+full)
			}
			if p := strings.Join(cfg.SkipStrings, "|"); p != "" {
				exp = exp || regexp.MustCompile(p).MatchString(desc+" "+full)
			}
			if out[i].Skip != (exp || s.Skip) {
				vfail(t, "spec %d marked Skip=%v, expected %v: %s", i, out[i].Skip, exp || s.Skip, d())
			}
			if !reflect.DeepEqual(out[i].Nodes, deep[i]) {
				vfail(t, "spec %d changed: %+v became %+v (%s)", i, deep[i], out[i].Nodes, d())
			}
			pn := false
			for _, q := range in[:i+1] {
				pn = pn || pending(q)
			}
			if in[:i+1].HasAnySpecsMarkedPending() != pn {
				vfail(t, "HasAnySpecsMarkedPending wrong: %+v", in[:i+1])
			}
		}
	}
	fmt.Println("VERIF-CASES", n)
}
