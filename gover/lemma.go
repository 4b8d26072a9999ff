package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// specExec is an Exec used only to evaluate specifications outside any function.
func specExec(w *World, s *SpecSet) *Exec {
	x := NewExec(w, s, nil, nil)
	st := &State{reach: True, cells: map[*Cell]Val{}, heap: map[string]*Term{}, alloc: Const("alloc0", SInt), ep: &Epoch{id: 0}}
	x.entry = st
	x.cur = st
	x.facts = append(x.facts, Lt(Int(0), st.alloc))
	return x
}

func (s *SpecSet) lemma(n string) *Lemma {
	for _, l := range s.lemmas {
		if l.Name == n {
			return l
		}
	}
	return nil
}

// useLemma instantiates a lemma; u is a call lemmaName(args).
func (x *Exec) useLemma(e *Env, u *Ex) []*Term {
	if u.Op != "call" {
		sErr("use expects a lemma application")
	}
	l := x.S.lemma(u.Name)
	if l == nil {
		sErr("unknown lemma %s", u.Name)
	}
	if len(u.Args) != len(l.Params) {
		sErr("lemma %s takes %d arguments", l.Name, len(l.Params))
	}
	x.used["lemma "+l.Name] = true
	c := *e
	c.vars = map[string]SV{}
	for i, p := range l.Params {
		t := x.S.typeOf(p.Typ, e.pkg)
		c.vars[p.Name] = SV{e.coerce(e.eval(u.Args[i]), t), t}
	}
	return []*Term{l.instance(&c)}
}
func (l *Lemma) instance(e *Env) *Term {
	var h, g []*Term
	for _, r := range l.Requires {
		h = append(h, e.Bool(r.E))
	}
	for _, r := range l.Ensures {
		g = append(g, e.Bool(r.E))
	}
	return Implies(And(h...), And(g...))
}

// asAxiom quantifies a lemma over its parameters and the heap it reads.
func (s *SpecSet) asAxiom(x *Exec, l *Lemma) {
	rec := &recorder{keys: map[string]*Term{}}
	vars := map[string]SV{}
	var vs []*Term
	for _, p := range l.Params {
		t := s.typeOf(p.Typ, nil)
		v := BVar(p.Name, s.w.sortOf(t))
		vs = append(vs, v)
		vars[p.Name] = SV{v, t}
	}
	e := &Env{s: s, x: x, vars: vars, rec: rec}
	body := l.instance(e)
	var pats [][]*Term
	for _, g := range l.Trig {
		var p []*Term
		for _, t := range g {
			p = append(p, e.eval(t).t)
		}
		pats = append(pats, p)
	}
	var ks []string
	for k := range rec.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		vs = append(vs, rec.keys[k])
	}
	// recursive functions: the statement holds at every unfolding depth
	if full := fuelS(fuelS(Const("fuel0", "Fuel"))); mentions(body, full) {
		all := len(pats) > 0
		for _, p := range pats {
			has := false
			for _, t := range p {
				has = has || mentions(t, full)
			}
			all = all && has
		}
		if all {
			fv := BVar("fu", "Fuel")
			m := map[*Term]*Term{full: fv}
			body = Subst(body, m)
			for i := range pats {
				for j := range pats[i] {
					pats[i][j] = Subst(pats[i][j], m)
				}
			}
			vs = append(vs, fv)
		}
	}
	q := Quant("forall", vs, body, pats)
	// attach to every uninterpreted/spec function of the first trigger
	var syms []string
	collect := func(t *Term) {
		seen := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Op == "app" && (U.dts[t.Sort] == nil || strings.HasPrefix(t.Name, "f:")) && len(t.Name) > 2 {
				syms = append(syms, t.Name)
			}
			for _, a := range t.Args {
				w(a)
			}
		}
		w(t)
	}
	if len(pats) > 0 {
		for _, p := range pats[0] {
			collect(p)
		}
	} else {
		collect(body)
	}
	if len(syms) == 0 {
		sErr("lemma %s has no function symbol to attach to", l.Name)
	}
	pick := syms[0]
	for _, n := range syms {
		if len(n) > 2 && n[:2] == "f:" {
			pick = n
			break
		}
	}
	U.axioms[pick] = append(U.axioms[pick], q)
}

// lemmaQueries: the obligations that prove a lemma (by strong induction when asked).
func (s *SpecSet) lemmaQueries(w *World, l *Lemma) (qs []*Query, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("lemma %s: %s", l.Name, string(e))
				return
			}
			panic(r)
		}
	}()
	x := specExec(w, s)
	e := &Env{s: s, x: x, vars: map[string]SV{}, st: x.entry, old: x.entry}
	for _, p := range l.Params {
		t := s.typeOf(p.Typ, nil)
		v := Const("lem."+p.Name, s.w.sortOf(t))
		e.vars[p.Name] = SV{v, t}
	}
	var facts []*Term
	facts = append(facts, x.facts...)
	for _, r := range l.Requires {
		facts = append(facts, e.Bool(r.E))
	}
	if l.Induct != "" {
		n, ok := e.vars[l.Induct]
		if !ok {
			sErr("induction on unknown %s", l.Induct)
		}
		c := *e
		c.vars = map[string]SV{}
		var bv []*Term
		for k, v := range e.vars {
			c.vars[k] = v
		}
		m := BVar("m", SInt)
		c.vars[l.Induct] = SV{m, types.Typ[types.Int]}
		bv = append(bv, m)
		if l.Generalize {
			for _, p := range l.Params {
				if p.Name == l.Induct {
					continue
				}
				v := BVar(p.Name, e.vars[p.Name].t.Sort)
				c.vars[p.Name] = SV{v, e.vars[p.Name].typ}
				bv = append(bv, v)
			}
		}
		var pats [][]*Term
		for _, g := range l.Trig {
			var p []*Term
			for _, t := range g {
				p = append(p, c.eval(t).t)
			}
			pats = append(pats, p)
		}
		facts = append(facts, Quant("forall", bv, Implies(And(Le(Int(0), m), Lt(m, n.t)), l.instance(&c)), pats))
		if !l.Generalize {
			c2 := c
			c2.vars = map[string]SV{}
			for k, v := range e.vars {
				c2.vars[k] = v
			}
			pm := Sub(n.t, Int(1))
			c2.vars[l.Induct] = SV{pm, types.Typ[types.Int]}
			facts = append(facts, Implies(Le(Int(0), pm), l.instance(&c2)))
		}
	}
	for _, u := range l.Uses {
		// uses of the lemma itself are induction hypotheses: only allowed below the induction variable
		if u.Op == "call" && u.Name == l.Name {
			c := *e
			c.vars = map[string]SV{}
			for i, p := range l.Params {
				t := s.typeOf(p.Typ, nil)
				c.vars[p.Name] = SV{e.coerce(e.eval(u.Args[i]), t), t}
			}
			if l.Induct == "" {
				sErr("recursive use without induction")
			}
			m := c.vars[l.Induct].t
			facts = append(facts, Implies(And(Le(Int(0), m), Lt(m, e.vars[l.Induct].t)), l.instance(&c)))
			continue
		}
		ll := s.lemma(u.Name)
		if ll == nil || !ll.proved {
			sErr("lemma %s uses %s, which is not proved before it", l.Name, u.Name)
		}
		facts = append(facts, x.useLemma(e, u)...)
	}
	for i, g := range l.Ensures {
		goal := e.Bool(g.E)
		fs := append(append([]*Term{}, facts...), x.facts...)
		if len(l.Cases) == 0 {
			qs = append(qs, &Query{Facts: fs, Goal: goal, Label: fmt.Sprintf("lemma %s #%d", l.Name, i+1)})
			continue
		}
		var all []*Term
		for k, c := range l.Cases {
			ct := e.Bool(c)
			all = append(all, ct)
			qs = append(qs, &Query{Facts: append(append([]*Term{}, fs...), ct), Goal: goal, Label: fmt.Sprintf("lemma %s #%d case %d", l.Name, i+1, k+1)})
		}
		qs = append(qs, &Query{Facts: append(append([]*Term{}, fs...), Not(Or(all...))), Goal: goal, Label: fmt.Sprintf("lemma %s #%d other case", l.Name, i+1)})
	}
	return
}

var _ = ssa.NaiveForm
