package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}

var verbose = os.Getenv("GOVER_V") != ""

func (x *Exec) query(o *Obl) *Query {
	fs := append([]*Term{}, x.facts[:o.NFacts]...)
	fs = append(fs, o.Reach)
	return &Query{Facts: relevant(fs, o.Goal), Goal: o.Goal, Label: o.Label}
}

func relevant(fs []*Term, goal *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, f := range fs {
		if f == True || seen[f] {
			continue
		}
		seen[f] = true
		out = append(out, f)
	}
	return out
}

// verify discharges one contract.
func (d *Driver) verify(c *Contract, fn *ssa.Function, useHints bool) *FnResult {
	r := &FnResult{Contract: c, Fn: fn}
	q0, t0 := Pool.nq, Pool.total
	x := NewExec(d.w, d.S, c, fn)
	d.S.deadHints = map[string]bool{}
	if useHints {
		for _, h := range d.hints[c.Key] {
			d.S.deadHints[h] = true
		}
	}
	for round := 0; ; round++ {
		if round > 60 {
			r.Unsupported = "invariant inference does not converge"
			break
		}
		err, restart := x.tryRun()
		if restart {
			continue
		}
		if err != "" {
			r.Unsupported = err
			break
		}
		r.Rounds++
		// invariant candidates
		var inv []*Obl
		for _, o := range x.obls {
			if o.Cand != nil && !o.Cand.Dead {
				inv = append(inv, o)
			}
		}
		var scripts []string
		ok := make([]bool, len(inv))
		var todo []int
		for i, o := range inv {
			if o.Goal == True || o.Reach == False {
				ok[i] = true
				scripts = append(scripts, "")
				continue
			}
			scripts = append(scripts, "")
			todo = append(todo, i)
		}
		for _, i := range todo {
			scripts[i] = x.query(inv[i]).emit()
		}
		ts := time.Now()
		dead := map[*Cand]bool{}
		var mu sync.Mutex
		parallel(len(todo), func(k int) {
			i := todo[k]
			mu.Lock()
			skip := dead[inv[i].Cand]
			mu.Unlock()
			if skip {
				return
			}
			v := Pool.run(scripts[i], "z3", 3000000*max(1, c.Effort), 10*time.Second*time.Duration(max(1, c.Effort)))
			if v.Status != "unsat" && v.Status != "sat" && c.Effort >= 2 && strings.Contains(inv[i].Cand.Key, "cand ") {
				if v2 := Pool.run(scripts[i], "z3-new", 0, 4*time.Second); v2.Status == "unsat" {
					v = v2
				} else if v2 := Pool.run(scripts[i], "cvc5", 0, 6*time.Second); v2.Status == "unsat" {
					v = v2
				}
			}
			if v.Status == "unsat" {
				ok[i] = true
			} else {
				mu.Lock()
				dead[inv[i].Cand] = true
				if verbose && (strings.Contains(inv[i].Cand.Key, "cand ") || os.Getenv("GOVER_V") == "2") {
					fmt.Fprintf(os.Stderr, "    drop [%s] %s (%s %.1fs)\n", v.Status, inv[i].Label, v.Solver, v.Secs)
					if dd := os.Getenv("GOVER_DUMP"); dd != "" && strings.Contains(inv[i].Label, dd) && strings.Contains(inv[i].Label, os.Getenv("GOVER_DUMP2")) {
						os.WriteFile("/tmp/gv/dump-cand.smt2", []byte(scripts[i]), 0644)
					}
				}
				mu.Unlock()
			}
		})
		n := 0
		for cd := range dead {
			if !cd.Dead {
				cd.Dead = true
				d.S.deadHints[cd.Key] = true
				n++
			}
		}
		if verbose {
			fmt.Fprintf(os.Stderr, "  %s round %d: %d facts, %d obligations, %d invariant queries, %d dropped, %.1fs\n", c.Key, r.Rounds, len(x.facts), len(x.obls), len(todo), n, time.Since(ts).Seconds())
		}
		if n > 0 {
			continue
		}
		// converged: the surviving invariants are proved; now the obligations proper
		r.Loops = len(x.loops)
		for _, li := range x.loops {
			for _, cd := range li.cands {
				if !cd.Dead {
					if os.Getenv("GOVER_V") == "3" {
						fmt.Fprintf(os.Stderr, "    keep %s\n", cd.Key)
					}
					r.Invariants++
				}
			}
		}
		for i, o := range inv {
			r.Obls = append(r.Obls, &OblResult{O: o, V: Verdict{Status: "unsat", Solver: "z3"}})
			_ = i
		}
		var obls []*OblResult
		for _, o := range x.obls {
			if o.Cand == nil {
				or := &OblResult{O: o}
				obls = append(obls, or)
			}
		}
		var ss []string
		for _, or := range obls {
			q := x.query(or.O)
			or.Q = q
			if q.Goal == True || or.O.Reach == False {
				ss = append(ss, "")
				continue
			}
			ss = append(ss, q.emit())
		}
		// vacuity: the precondition must be satisfiable and some return reachable
		var vac []string
		vac = append(vac, (&Query{Facts: relevant(x.facts[:x.nPre], False), Goal: False}).emit())
		for _, rr := range x.retReach {
			vac = append(vac, (&Query{Facts: relevant(append(append([]*Term{}, x.facts...), rr), False), Goal: False}).emit())
		}
		vr := make([]bool, len(vac))
		parallel(len(obls)+len(vac), func(k int) {
			if k >= len(obls) {
				vr[k-len(obls)] = Pool.run(vac[k-len(obls)], "z3", 2000000, 5*time.Second).Status == "unsat"
				return
			}
			if ss[k] == "" {
				obls[k].V = Verdict{Status: "unsat", Solver: "simplifier"}
				return
			}
			obls[k].V = Pool.fullScript(ss[k])
			if obls[k].V.Status != "unsat" && d.dump != "" {
				os.MkdirAll(d.dump, 0755)
				f := fmt.Sprintf("%s/%s-%d.smt2", d.dump, sanitize(c.Key), k)
				os.WriteFile(f, []byte(ss[k]), 0644)
				obls[k].V.File = f
			}
		})
		if vr[0] {
			r.Vacuous = "the preconditions and assumptions are contradictory"
		}
		if len(vr) > 1 {
			all := true
			for _, b := range vr[1:] {
				all = all && b
			}
			if all {
				r.Vacuous = "no return of the function is reachable under its contract"
			}
		}
		r.Obls = append(r.Obls, obls...)
		break
	}
	r.Inlined = keysOf(x.inlined)
	r.Trusted = keysOf(x.trusted)
	r.Used = keysOf(x.used)
	r.Queries = Pool.nq - q0
	r.SolverSecs = float64(Pool.total-t0) / 1e9
	r.DeadCands = keysOf(d.S.deadHints)
	return r
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func (r *FnResult) failed() []*OblResult {
	var out []*OblResult
	for _, o := range r.Obls {
		if o.V.Status != "unsat" {
			out = append(out, o)
		}
	}
	return out
}

type Driver struct {
	w     *World
	S     *SpecSet
	hints map[string][]string
	dump  string
	prop  string
}

// target finds the SSA function a contract talks about.
func (d *Driver) target(c *Contract) *ssa.Function { return d.w.target(c) }

func (w *World) target(c *Contract) *ssa.Function {
	if c.Kind != "rec" {
		return w.funcs[c.Key]
	}
	if f, ok := w.recTargets[c]; ok {
		return f
	}
	f := w.recTarget(c)
	w.recTargets[c] = f
	return f
}

// recTarget: the recursive function of the given signature in, or called by, the root function.
func (w *World) recTarget(c *Contract) *ssa.Function {
	root := w.funcs[c.RecRoot]
	if root == nil {
		return nil
	}
	var cands []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var calls func(f *ssa.Function, depth int)
	calls = func(f *ssa.Function, depth int) {
		if seen[f] || depth > 3 {
			return
		}
		seen[f] = true
		if f != root && sigText(f) == c.RecSig {
			cands = append(cands, f)
		}
		for _, a := range f.AnonFuncs {
			calls(a, depth)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Pkg == root.Pkg {
						calls(g, depth+1)
					}
				}
			}
		}
	}
	calls(root, 0)
	for _, f := range cands {
		if selfRecursive(f) {
			return f
		}
	}
	return nil
}
func selfRecursive(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
				return true
			}
		}
	}
	for i := range f.FreeVars {
		if mc := soleClosure(f, i); mc != nil && mc.Fn == f {
			return true
		}
	}
	return false
}

// soleClosure: the closure that is the only value ever stored in the variable f captures as its i-th free variable.
func soleClosure(f *ssa.Function, i int) *ssa.MakeClosure {
	p := f.Parent()
	if p == nil {
		return nil
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			a, ok := mc.Bindings[i].(*ssa.Alloc)
			if !ok {
				return nil
			}
			var r *ssa.MakeClosure
			n := 0
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == a {
					n++
					r, _ = s.Val.(*ssa.MakeClosure)
				}
			}
			if n == 1 {
				return r
			}
			return nil
		}
	}
	return nil
}

type LemmaResult struct {
	L *Lemma
	V []Verdict
	Q []*Query
	Err string
}

func (d *Driver) proveLemmas() []*LemmaResult {
	var out []*LemmaResult
	type job struct {
		lr *LemmaResult
		i  int
		s  string
	}
	var jobs []job
	x := specExec(d.w, d.S)
	for _, l := range d.S.lemmas {
		if l.Axiom {
			d.S.asAxiom(x, l)
			l.proved = true
			continue
		}
		qs, err := d.S.lemmaQueries(d.w, l)
		lr := &LemmaResult{L: l, Q: qs}
		out = append(out, lr)
		if err != nil {
			lr.Err = err.Error()
			continue
		}
		lr.V = make([]Verdict, len(qs))
		for i, q := range qs {
			if q.Goal == True {
				lr.V[i] = Verdict{Status: "unsat", Solver: "simplifier"}
				continue
			}
			jobs = append(jobs, job{lr, i, q.emit()})
		}
		// later lemmas may use it; if its own proof fails the run fails
		l.proved = true
		if l.Auto {
			d.S.asAxiom(x, l)
		}
	}
	parallel(len(jobs), func(k int) {
		j := jobs[k]
		v := Pool.fullScript(j.s)
		if v.Status != "unsat" && d.dump != "" {
			os.MkdirAll(d.dump, 0755)
			v.File = fmt.Sprintf("%s/lemma-%s-%d.smt2", d.dump, j.lr.L.Name, j.i)
			os.WriteFile(v.File, []byte(j.s), 0644)
		}
		j.lr.V[j.i] = v
	})
	return out
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
