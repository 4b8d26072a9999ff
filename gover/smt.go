package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Query struct {
	Facts []*Term
	Goal  *Term
	Label string
}

// emit writes the SMT-LIB script that is unsatisfiable iff Facts |= Goal.
func (q *Query) emit() string { return canon(q.emit0()) }
func (q *Query) emit0() string {
	var roots []*Term
	roots = append(roots, q.Facts...)
	neg := Not(q.Goal)
	roots = append(roots, neg)
	// collect symbols, add axioms to a fixpoint
	seen := map[*Term]int{}
	syms := map[string]*Term{}
	var order []*Term
	usedAx := map[*Term]bool{}
	var axs []*Term
	sorts := map[string]bool{}
	var walk func(t *Term)
	addSort := func(s Sort) { sorts[s] = true }
	walk = func(t *Term) {
		if seen[t] > 0 {
			seen[t]++
			return
		}
		seen[t] = 1
		addSort(t.Sort)
		for _, a := range t.Args {
			walk(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				walk(x)
			}
		}
		key := ""
		switch t.Op {
		case "const", "app":
			key = t.Name
			if _, ok := syms[key]; !ok {
				syms[key] = t
			}
		}
		order = append(order, t)
	}
	for _, r := range roots {
		walk(r)
	}
	doneSym := map[string]bool{}
	for {
		var pend []string
		for s := range syms {
			if !doneSym[s] {
				pend = append(pend, s)
			}
		}
		if len(pend) == 0 {
			break
		}
		sort.Strings(pend)
		for _, s := range pend {
			doneSym[s] = true
			for _, ax := range U.axioms[s] {
				if !usedAx[ax] {
					usedAx[ax] = true
					axs = append(axs, ax)
					walk(ax)
				}
			}
			// axioms for constants sharing a prefix are not needed
		}
	}
	var b strings.Builder
	b.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 20)\n(set-option :smt.arith.solver 2)\n")
	// sorts
	decl := map[string]bool{}
	dtdone := map[string]bool{}
	var need func(s Sort)
	need = func(s Sort) {
		if i, e, ok := splitArr(s); ok {
			need(i)
			need(e)
			return
		}
		if d, ok := U.dts[s]; ok {
			if dtdone[s] {
				return
			}
			dtdone[s] = true
			for _, f := range d.FSorts {
				need(f)
			}
			b.WriteString("(declare-datatypes ((" + smtName(s) + " 0)) (((" + smtName(d.Ctor))
			for i, f := range d.Fields {
				b.WriteString(" (" + smtName(f) + " " + sortName(d.FSorts[i]) + ")")
			}
			b.WriteString("))))\n")
			return
		}
		switch s {
		case SBool, SInt, SReal, SBV, "":
			return
		}
		if !decl[s] {
			decl[s] = true
			b.WriteString("(declare-sort " + smtName(s) + " 0)\n")
		}
	}
	var sl []string
	for s := range sorts {
		sl = append(sl, s)
	}
	for n := range syms {
		if f, ok := U.funs[n]; ok {
			sl = append(sl, f.Args...)
			sl = append(sl, f.Ret)
		}
	}
	sort.Strings(sl)
	for _, s := range sl {
		need(s)
	}
	var names []string
	for n := range syms {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return natLess(names[i], names[j]) })
	ctor := map[string]bool{}
	for _, d := range U.dts {
		ctor[d.Ctor] = true
		for _, f := range d.Fields {
			ctor[f] = true
		}
	}
	var strLits []string
	for _, n := range names {
		if ctor[n] {
			continue
		}
		t := syms[n]
		if f, ok := U.funs[n]; ok && t.Op == "app" {
			b.WriteString("(declare-fun " + smtName(n) + " (")
			for i, a := range f.Args {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(sortName(a))
			}
			b.WriteString(") " + sortName(f.Ret) + ")\n")
		} else {
			b.WriteString("(declare-fun " + smtName(n) + " () " + sortName(t.Sort) + ")\n")
			if isStrLit(t) {
				strLits = append(strLits, n)
			}
		}
	}
	if len(strLits) > 1 {
		b.WriteString("(assert (distinct")
		for _, n := range strLits {
			b.WriteString(" " + smtName(n))
		}
		b.WriteString("))\n")
	}
	// closed parts of a trigger that the solvers would not accept inside one get a name
	inPat := map[*Term]bool{}
	var patPart func(t *Term) bool
	patPart = func(t *Term) bool {
		if len(t.fv) == 0 {
			return hasLogic(t)
		}
		for _, a := range t.Args {
			if patPart(a) {
				inPat[a] = true
			}
		}
		return false
	}
	for _, t := range order {
		for _, p := range t.Pats {
			for _, e := range p {
				patPart(e)
			}
		}
	}
	// hoist shared closed subterms
	nm := map[*Term]string{}
	k := 0
	for _, t := range order {
		if len(t.fv) > 0 || len(t.Args) == 0 || seen[t] < 2 && !inPat[t] {
			continue
		}
		if t.Op == "forall" || t.Op == "exists" {
			continue
		}
		k++
		n := fmt.Sprintf("hc_%d", k)
		var tb strings.Builder
		writeTerm(&tb, t, nm, 0)
		if t.Sort == SBool {
			b.WriteString("(define-fun " + n + " () Bool " + tb.String() + ")\n")
		} else {
			b.WriteString("(declare-fun " + n + " () " + sortName(t.Sort) + ")\n(assert (= " + n + " " + tb.String() + "))\n")
		}
		nm[t] = n
	}
	w := func(t *Term) {
		b.WriteString("(assert ")
		writeTerm(&b, t, nm, 0)
		b.WriteString(")\n")
	}
	for _, a := range axs {
		w(a)
	}
	for _, f := range q.Facts {
		w(f)
	}
	w(neg)
	b.WriteString("(check-sat)\n")
	return b.String()
}

var logicMemo = map[*Term]bool{}
var logicMu sync.Mutex

// hasLogic: the term contains a connective that cannot appear in a trigger.
func hasLogic(t *Term) bool {
	logicMu.Lock()
	defer logicMu.Unlock()
	return hasLogic1(t)
}
func hasLogic1(t *Term) bool {
	if v, ok := logicMemo[t]; ok {
		return v
	}
	r := false
	switch t.Op {
	case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
		r = true
	}
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasLogic1(a)
	}
	logicMemo[t] = r
	return r
}

// natLess orders names by prefix, then by the number of the fresh symbol.
func natLess(a, b string) bool {
	pa, na := splitNum(a)
	pb, nb := splitNum(b)
	if pa != pb {
		return pa < pb
	}
	return na < nb
}
func splitNum(s string) (string, int) {
	i := strings.LastIndexByte(s, '!')
	if i < 0 {
		return s, -1
	}
	n := 0
	for _, c := range s[i+1:] {
		if c < '0' || c > '9' {
			return s, -1
		}
		n = n*10 + int(c-'0')
	}
	return s[:i], n
}

// canon renumbers fresh symbols in order of appearance, so that a script does not depend on what was generated before it.
func canon(s string) string {
	var b strings.Builder
	b.Grow(len(s))
	m := map[string]string{}
	for i := 0; i < len(s); i++ {
		c := s[i]
		b.WriteByte(c)
		if c != '!' && c != '?' {
			continue
		}
		j := i + 1
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j == i+1 {
			continue
		}
		k := s[i:j]
		v, ok := m[k]
		if !ok {
			v = fmt.Sprint(len(m) + 1)
			m[k] = v
		}
		b.WriteString(v)
		i = j - 1
	}
	return b.String()
}

func sortName(s Sort) string {
	if i, e, ok := splitArr(s); ok {
		return "(Array " + sortName(i) + " " + sortName(e) + ")"
	}
	if s == SBV {
		return s
	}
	return smtName(s)
}

type Verdict struct {
	Status string // unsat sat unknown timeout error
	Solver string
	Secs   float64
	Detail string
	File   string
}

type SolverPool struct {
	sem   chan struct{}
	mu    sync.Mutex
	cache map[string]Verdict
	nq    int64
	total int64 // ns
}

var Pool = &SolverPool{sem: make(chan struct{}, 8), cache: map[string]Verdict{}}

func (p *SolverPool) run(script string, solver string, rlimit int, tmo time.Duration) Verdict {
	h := sha256.Sum256([]byte(solver + fmt.Sprint(rlimit) + script))
	key := hex.EncodeToString(h[:12])
	p.mu.Lock()
	if v, ok := p.cache[key]; ok {
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	p.sem <- struct{}{}
	defer func() { <-p.sem }()
	var cmd *exec.Cmd
	ctx, cancel := context.WithTimeout(context.Background(), tmo+2*time.Second)
	defer cancel()
	switch solver {
	case "z3", "z3-new":
		script = fmt.Sprintf("(set-option :rlimit %d)\n", rlimit) + script
		cmd = exec.CommandContext(ctx, solver, "-in", fmt.Sprintf("-T:%d", int(tmo.Seconds())+1))
	case "cvc5":
		var ls []string
		for _, l := range strings.Split(script, "\n") {
			if !strings.HasPrefix(l, "(set-option") {
				ls = append(ls, l)
			}
		}
		script = "(set-logic ALL)\n" + strings.Join(namedConstArrays(ls), "\n")
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", tmo.Milliseconds()), "-")
	}
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	d := time.Since(t0)
	atomic.AddInt64(&p.nq, 1)
	atomic.AddInt64(&p.total, int64(d))
	v := Verdict{Solver: solver, Secs: d.Seconds()}
	o := out.String()
	v.Detail = strings.TrimSpace(o)
	if len(v.Detail) > 600 {
		v.Detail = v.Detail[:600]
	}
	for _, l := range strings.Split(o, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown", "timeout":
			v.Status = l
		}
		if strings.HasPrefix(l, "(error") && v.Status == "" {
			v.Status = "error"
			break
		}
		if v.Status != "" {
			break
		}
	}
	if v.Status == "" {
		v.Status = "timeout"
	}
	if v.Status == "error" && solver != "cvc5" {
		fmt.Fprintln(os.Stderr, "solver error:", firstLines(o, 3))
		os.WriteFile(fmt.Sprintf("/tmp/gover-err-%d.smt2", os.Getpid()), []byte(script), 0644)
	}
	if d := os.Getenv("GOVER_QUERIES"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/%s-%s-%s.smt2", d, solver, v.Status, key), []byte(script), 0644)
	}
	p.mu.Lock()
	p.cache[key] = v
	p.mu.Unlock()
	return v
}

// namedConstArrays: cvc5 accepts constant arrays of literals only; the others are stated by an axiom.
func namedConstArrays(ls []string) []string {
	names := map[string]string{}
	var decls []string
	lit := func(v string) bool {
		return v == "true" || v == "false" || v != "" && (v[0] >= '0' && v[0] <= '9' || strings.HasPrefix(v, "(- ") || strings.HasPrefix(v, "(_ bv"))
	}
	closeAt := func(s string, i int) int { // s[i] == '('
		d, q := 0, false
		for j := i; j < len(s); j++ {
			switch {
			case s[j] == '|':
				q = !q
			case q:
			case s[j] == '(':
				d++
			case s[j] == ')':
				d--
				if d == 0 {
					return j
				}
			}
		}
		return -1
	}
	first := -1
	for li := range ls {
		if first < 0 && (strings.HasPrefix(ls[li], "(assert") || strings.HasPrefix(ls[li], "(define-fun")) {
			first = li
		}
		from := len(ls[li])
		for {
			i := strings.LastIndex(ls[li][:from], "((as const ")
			if i < 0 {
				break
			}
			from = i
			e := closeAt(ls[li], i)
			te := closeAt(ls[li], i+1)
			if e < 0 || te < 0 {
				break
			}
			typ := ls[li][i+len("((as const ") : te]
			val := strings.TrimSpace(ls[li][te+1 : e])
			if lit(val) || strings.Contains(val, "hc_") {
				continue
			}
			key := typ + " " + val
			n, ok := names[key]
			if !ok {
				n = fmt.Sprintf("ca_%d", len(names)+1)
				names[key] = n
				decls = append(decls, "(declare-fun "+n+" () "+typ+")")
				it := typ[len("(Array "):]
				ie := strings.IndexByte(it, ' ')
				if strings.HasPrefix(it, "(") {
					ie = closeAt(it, 0) + 1
				}
				decls = append(decls, "(assert (forall ((i "+it[:ie]+")) (! (= (select "+n+" i) "+val+") :pattern ((select "+n+" i)))))")
			}
			ls[li] = ls[li][:i] + n + ls[li][e+1:]
		}
	}
	if len(decls) == 0 {
		return ls
	}
	out := append([]string{}, ls[:first]...)
	out = append(out, decls...)
	return append(out, ls[first:]...)
}
func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// full check: z3, then z3-new, then cvc5
func (p *SolverPool) fullScript(s string) Verdict {
	v := p.run(s, "z3", 8000000, 20*time.Second)
	if v.Status == "unsat" {
		return v
	}
	v2 := p.run(s, "z3-new", 30000000, 20*time.Second)
	if v2.Status == "unsat" {
		return v2
	}
	v3 := p.run(s, "cvc5", 0, 15*time.Second)
	if v3.Status == "unsat" {
		return v3
	}
	d := fmt.Sprintf("z3: %s; z3-new: %s; cvc5: %s", v.Status, v2.Status, v3.Status)
	if v2.Status == "sat" {
		v = v2
	}
	v.Detail = d
	return v
}
