//overlay: types/zz_verif_c15_test.go
//bounded: random label filters (nested up to depth 4, all operators, regular expressions, set operations, arbitrary spacing) parsed and evaluated on random label sets against their structure; random token soup parsed without crash or hang; broken variants rejected
package types

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
)

func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	s := fmt.Sprintf(f, a...)
	os.WriteFile(os.Getenv("VERIF_FAILURE"), []byte(s), 0644)
	t.Fatal(s)
}
func vrand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}
func vn(q, th int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return th
	}
	return q
}

type vexp struct {
	op   string // lit re not and or set
	a, b *vexp
	s    string
	key  string
	vals []string
}

func (e *vexp) eval(labels []string) bool {
	switch e.op {
	case "lit":
		for _, l := range labels {
			if strings.ToLower(l) == strings.ToLower(e.s) {
				return true
			}
		}
		return false
	case "re":
		re := regexp.MustCompile(e.s)
		for _, l := range labels {
			if re.MatchString(l) {
				return true
			}
		}
		return false
	case "not":
		return !e.a.eval(labels)
	case "and":
		return e.a.eval(labels) && e.b.eval(labels)
	case "or":
		return e.a.eval(labels) || e.b.eval(labels)
	}
	have, want := map[string]bool{}, map[string]bool{}
	for _, l := range labels {
		i := strings.IndexByte(l, ':')
		if i >= 0 && strings.EqualFold(strings.TrimSpace(l[:i]), strings.TrimSpace(e.key)) {
			have[strings.ToLower(strings.TrimSpace(l[i+1:]))] = true
		}
	}
	for _, v := range e.vals {
		want[strings.ToLower(strings.TrimSpace(v))] = true
	}
	common := 0
	for v := range have {
		if want[v] {
			common++
		}
	}
	switch strings.ToLower(e.op) {
	case "isempty":
		return len(have) == 0
	case "containsany":
		return common > 0
	case "containsall":
		return common == len(want)
	case "consistsof":
		return common == len(want) && common == len(have)
	case "issubsetof":
		return common == len(have)
	}
	panic(e.op)
}

func (e *vexp) prec() int {
	switch e.op {
	case "or":
		return 1
	case "and":
		return 2
	}
	return 3
}

func vsp(r *rand.Rand) string { return strings.Repeat(" ", r.Intn(3)) }

func (e *vexp) show(r *rand.Rand, min int) string {
	out := ""
	switch e.op {
	case "lit":
		out = e.s
	case "re":
		out = "/" + e.s + "/"
	case "not":
		out = "!" + vsp(r) + e.a.show(r, 3)
	case "and":
		out = e.a.show(r, 2) + vsp(r) + "&&" + vsp(r) + e.b.show(r, 2)
	case "or":
		op := "||"
		if r.Intn(2) == 0 {
			op = ","
		}
		out = e.a.show(r, 1) + vsp(r) + op + vsp(r) + e.b.show(r, 1)
	case "isEmpty", "isempty", "ISEMPTY":
		out = e.key + ": " + e.op + " "
		if r.Intn(3) == 0 {
			out += "{}"
		}
	default:
		arg := strings.Join(e.vals, ","+vsp(r))
		if len(e.vals) > 1 || r.Intn(2) == 0 {
			arg = "{" + vsp(r) + arg + vsp(r) + "}"
		}
		out = e.key + ": " + vsp(r) + e.op + " " + arg
	}
	if e.prec() < min || r.Intn(5) == 0 {
		return "(" + vsp(r) + out + vsp(r) + ")"
	}
	return out
}

var vlits = []string{"a", "B", "dog", "Big Cat", "key:one", "Key:Two", "n1.5", "other:x", "k2:y z", "ké"}
var vres = []string{"^a", "o", "key:.*e$", "[0-9]", "^Big", "(?i)CAT", "x|y"}
var vkeys = []string{"key", "KEY", "other", "k2", " key"}
var vvals = []string{"one", "Two", "x", "y z", "TWO", "three", "One", "1:2", "1"}
var vops = []string{"isEmpty", "containsAny", "containsAll", "consistsOf", "isSubsetOf", "isempty", "CONTAINSANY", "consistsof", "ISSUBSETOF"}

func vgen(r *rand.Rand, d int) *vexp {
	n := 6
	if d == 0 {
		n = 3
	}
	switch r.Intn(n) {
	case 0:
		return &vexp{op: "lit", s: vlits[r.Intn(len(vlits))]}
	case 1:
		return &vexp{op: "re", s: vres[r.Intn(len(vres))]}
	case 2:
		e := &vexp{op: vops[r.Intn(len(vops))], key: strings.TrimSpace(vkeys[r.Intn(len(vkeys))])}
		for i := 0; i <= r.Intn(3); i++ {
			e.vals = append(e.vals, vvals[r.Intn(len(vvals))])
		}
		return e
	case 3:
		return &vexp{op: "not", a: vgen(r, d-1)}
	case 4:
		return &vexp{op: "and", a: vgen(r, d-1), b: vgen(r, d-1)}
	}
	return &vexp{op: "or", a: vgen(r, d-1), b: vgen(r, d-1)}
}

func vlabels(r *rand.Rand) []string {
	out := []string{}
	for i := r.Intn(6); i > 0; i-- {
		switch r.Intn(3) {
		case 0:
			out = append(out, vlits[r.Intn(len(vlits))])
		case 1:
			out = append(out, strings.TrimSpace(vkeys[r.Intn(len(vkeys))])+vsp(r)+":"+vsp(r)+vvals[r.Intn(len(vvals))])
		default:
			out = append(out, strings.ToUpper(vlits[r.Intn(len(vlits))]))
		}
	}
	return out
}

// vparse parses with a time limit and turns a panic into a failure
func vparse(t *testing.T, in string) (LabelFilter, error) {
	type res struct {
		f   LabelFilter
		err error
		p   interface{}
	}
	c := make(chan res, 1)
	go func() {
		var x res
		defer func() {
			x.p = recover()
			c <- x
		}()
		x.f, x.err = ParseLabelFilter(in)
	}()
	select {
	case x := <-c:
		if x.p != nil {
			vfail(t, "ParseLabelFilter(%q) panics: %v", in, x.p)
		}
		if (x.f == nil) == (x.err == nil) {
			vfail(t, "ParseLabelFilter(%q) gives neither exactly a filter nor an error", in)
		}
		return x.f, x.err
	case <-time.After(20 * time.Second):
		vfail(t, "ParseLabelFilter(%q) hangs", in)
	}
	return nil, nil
}

func vask(t *testing.T, in string, f LabelFilter, labels []string) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			vfail(t, "filter %q on labels %q panics: %v", in, labels, p)
		}
	}()
	return f(labels)
}

func TestVerifFilterMeaning(t *testing.T) {
	r := vrand()
	n := 0
	for ; n < vn(20000, 400000); n++ {
		e := vgen(r, r.Intn(5))
		in := vsp(r) + e.show(r, 0) + vsp(r)
		f, err := vparse(t, in)
		if err != nil {
			vfail(t, "ParseLabelFilter(%q) rejects a well-formed filter: %v", in, err)
		}
		for j := 0; j < 6; j++ {
			labels := vlabels(r)
			if got, want := vask(t, in, f, labels), e.eval(labels); got != want {
				vfail(t, "filter %q on labels %q: accepted=%v, its structure says %v", in, labels, got, want)
			}
		}
	}
	for _, labels := range [][]string{nil, {"a"}, {"key:one"}} {
		f, err := vparse(t, "")
		if err != nil || !vask(t, "", f, labels) {
			vfail(t, "the empty filter does not accept %q", labels)
		}
	}
	fmt.Println("VERIF-CASES", n)
}

func TestVerifFilterSoup(t *testing.T) {
	r := vrand()
	toks := []string{"a", "b", "(", ")", "!", "&&", "||", ",", "&", "|", "/", "/x/", "key: ", "key:", ": ", "isEmpty", "containsAny", "consistsOf", "{", "}", "{a, b}", "{}", " ", "  ", ":", "é", "*", "/[/", "key: isEmpty", "key: containsAny {x}", "isSubsetOf x"}
	n, ok := 0, 0
	for ; n < vn(60000, 1500000); n++ {
		in := ""
		for j := r.Intn(9); j >= 0; j-- {
			in += toks[r.Intn(len(toks))]
			if r.Intn(3) == 0 {
				in += " "
			}
		}
		f, err := vparse(t, in)
		if err == nil {
			ok++
			for j := 0; j < 2; j++ {
				labels := vlabels(r)
				if a, b := vask(t, in, f, labels), vask(t, in, f, labels); a != b {
					vfail(t, "filter %q on %q answers differently when asked again", in, labels)
				}
			}
		}
	}
	// broken variants of well-formed filters
	for i := 0; i < vn(8000, 200000); i++ {
		e := vgen(r, r.Intn(4))
		s := e.show(r, 3)
		if !strings.HasPrefix(s, "(") {
			s = "(" + s + ")"
		}
		for _, bad := range []string{"(" + s, s + ")", s + " a", "a " + s, s + " &&", "&& " + s, s + "||", ", " + s, s + " & a", s + "!", s + " && ()", "!", "(" + s + "&&)", s + "&& key: ", s + "&& key: nonsense x", s + " && key: containsAny {", s + "&& key: containsAny", s + "&& /[/", s + s, s + "&& key: consistsOf {a,}", s + "&& key: containsAll {a/b}", s + " || || a"} {
			if _, err := vparse(t, bad); err == nil {
				vfail(t, "ParseLabelFilter(%q) accepts a malformed filter", bad)
			}
			n++
		}
	}
	fmt.Println("VERIF-CASES", n)
}
