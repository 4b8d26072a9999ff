package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// pureKey names a function type by its parameter and result types only.
func pureKey(sig *types.Signature) string {
	var ps, rs []string
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, typeKey(sig.Params().At(i).Type()))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, typeKey(sig.Results().At(i).Type()))
	}
	k := "func(" + strings.Join(ps, ", ") + ")"
	switch len(rs) {
	case 0:
		return k
	case 1:
		return k + " " + rs[0]
	}
	return k + " (" + strings.Join(rs, ", ") + ")"
}

type pureRead struct {
	key   string
	h     *Term
	alloc *Term
	reach *Term
	at    int
}

// meaning states what a function value of a pure function type computes. The body is executed on
// arbitrary arguments; what that establishes is generalised over the arguments, with everything
// introduced on the way turned into functions of them.
func (x *Exec) meaning(f *FuncVal, t *Term) {
	if x.S == nil || x.dry > 0 || x.cur == nil || len(f.fn.Blocks) == 0 {
		return
	}
	sig := f.fn.Signature
	pk := pureKey(sig)
	if !x.S.pureFT[pk] || sig.Recv() != nil || sig.Results().Len() != 1 || x.onStack(f.fn) || !x.fnInRepo(f.fn) {
		return
	}
	if _, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok {
		return
	}
	st := x.cur
	ck := [2]*Term{t, st.reach}
	if x.meant == nil {
		x.meant = map[[2]*Term]bool{}
	}
	if x.meant[ck] {
		return
	}
	x.meant[ck] = true
	before := U.fresh
	s2 := st.clone()
	var args []Val
	var vars, wf, app []*Term
	m := map[*Term]*Term{}
	app = append(app, t)
	for i, p := range f.fn.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			k := x.w.elemKey(sl.Elem())
			arr, l := Fresh("pa", arrSort(SInt, x.w.sortOf(sl.Elem()))), Fresh("pl", SInt)
			va, vl := BVar("a", arr.Sort), BVar("n", SInt)
			m[arr], m[l] = va, vl
			vars = append(vars, va, vl)
			wf = append(wf, Le(Int(0), l))
			app = append(app, arr, l)
			r := x.newRef(s2)
			s2.heap[k] = Store(x.hget(s2, k), r, arr)
			args = append(args, MkDT(SSlice, r, l, l))
			continue
		}
		if isPtrToOpaque(x.w, p.Type()) {
			return
		}
		a := Fresh(fmt.Sprintf("pa%d", i), x.w.sortOf(p.Type()))
		v := BVar("a", a.Sort)
		m[a] = v
		vars = append(vars, v)
		wf = append(wf, x.w.wf(a, p.Type(), st.alloc, 2)...)
		app = append(app, a)
		args = append(args, a)
	}
	for _, g := range wf {
		x.assume(st, g)
	}
	nf := len(x.facts)
	var log map[string]*Term
	saveLog := x.readLog
	x.readLog = map[string]*Term{}
	entryHeap := s2.clone()
	fr := x.execFunc(f.fn, args, f.binds, s2, nil, "meaning:"+x.w.fkey(f.fn))
	log, x.readLog = x.readLog, saveLog
	for k, h := range log {
		if saveLog != nil {
			saveLog[k] = h
		}
	}
	rt := sig.Results().At(0).Type()
	v := x.joinRets(s2, fr, rt)
	x.cur = st
	if s2.reach == False || s2.ep != st.ep {
		return
	}
	for c, v := range s2.cells {
		if o, ok := st.cells[c]; ok && o != v {
			return // writes a captured variable: not a pure function
		}
	}
	res, ok := v.(*Term)
	if !ok {
		return
	}
	// heap writes are allowed only to objects made by the body
	for k, h := range s2.heap {
		o, ok := entryHeap.heap[k]
		if !ok || o == h {
			continue
		}
		if x.w.keyKind[k] != "field" && x.w.keyKind[k] != "elem" {
			return
		}
		r := Const("pure.ref", SInt)
		x.oblige(st, "safe", "a function value of type "+pk+" changes nothing", Implies(And(Le(Int(0), r), Lt(r, st.alloc)), Eq(Select(h, r), Select(o, r))), f.fn.Pos())
	}
	facts := append([]*Term{}, x.facts[nf:]...)
	facts = append(facts, Implies(st.reach, s2.reach)) // it returns: termination is assumed
	facts = append(facts, Implies(st.reach, Eq(AppN("apply."+pk, x.w.sortOf(rt), app...), res)))
	// everything new is a function of the arguments
	bargs := make([]*Term, len(vars))
	copy(bargs, vars)
	done := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		if t.Op == "const" && m[t] == nil {
			if _, n := splitNum(t.Name); n > before {
				if U.axioms[t.Name] != nil {
					facts = append(facts, U.axioms[t.Name]...)
				}
				m[t] = AppN("sk."+t.Name, t.Sort, bargs...)
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for i := 0; i < len(facts); i++ {
		visit(facts[i])
	}
	var body []*Term
	for _, g := range facts {
		body = append(body, Subst(g, m))
	}
	var pre []*Term
	for _, g := range wf {
		pre = append(pre, Subst(g, m))
	}
	for i := range app {
		app[i] = Subst(app[i], m)
	}
	x.facts = append(x.facts, Forall(vars, Implies(And(pre...), And(body...)), []*Term{AppN("apply."+pk, x.w.sortOf(rt), app...)}))
	x.meant2(pk, log, st)
}

func (x *Exec) meant2(pk string, log map[string]*Term, st *State) {
	if x.pureReads == nil {
		x.pureReads = map[string][]pureRead{}
	}
	for _, k := range sortedTermKeys(log) {
		if x.w.keyKind[k] == "field" || x.w.keyKind[k] == "elem" {
			if h, ok := st.heap[k]; ok {
				x.pureReads[pk] = append(x.pureReads[pk], pureRead{k, h, st.alloc, st.reach, len(x.facts)})
			}
		}
	}
}
func sortedTermKeys(m map[string]*Term) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

// unchangedReads: what function values of this type read is still what it was when they were made.
func (x *Exec) unchangedReads(st *State, pk string, pos token.Pos) {
	for _, r := range x.pureReads[pk] {
		h := x.hget(st, r.key)
		if h == r.h {
			continue
		}
		ref := Const("pure.ref", SInt)
		x.oblige(st, "safe", "what function values of type "+pk+" read ("+r.key+") is unchanged since they were made",
			Implies(And(r.reach, Le(Int(0), ref), Lt(ref, r.alloc)), Eq(Select(h, ref), Select(r.h, ref))), pos)
	}
}
