package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callArgs(fr *Frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.get(fr, a))
	}
	if c.IsInvoke() {
		return x.get(fr, c.Value), args
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	return x.get(fr, c.Value), args
}

func (x *Exec) call(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, rt types.Type) Val {
	callee, args := x.callArgs(fr, c)
	nm := ""
	if v, ok := in.(ssa.Value); ok {
		nm = v.Name()
	}
	return x.doCall(fr, st, c, callee, args, rt, nm, in.Pos())
}

func (x *Exec) doCall(fr *Frame, st *State, c *ssa.CallCommon, callee Val, args []Val, rt types.Type, nm string, pos token.Pos) Val {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(fr, st, b, c, args, rt, pos)
	}
	if c.IsInvoke() {
		it := x.term(callee, c.Value.Type())
		// concrete dynamic type known?
		if it.Op == "app" && strings.HasPrefix(it.Name, "box.") {
			if t := boxTypes[it.Name]; t != nil {
				if m := x.w.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil {
					return x.callFunc(fr, st, m, append([]Val{it.Args[0]}, args...), nil, rt, nm, pos)
				}
			}
		}
		key := "invoke " + typeKey(c.Value.Type()) + "." + c.Method.Name()
		return x.extCall(fr, st, key, c.Method.Type().(*types.Signature), it, args, argTypes(c), rt, pos)
	}
	return x.callVal(fr, st, c, callee, args, rt, nm, pos)
}
func argTypes(c *ssa.CallCommon) []types.Type {
	var ts []types.Type
	for _, a := range c.Args {
		ts = append(ts, a.Type())
	}
	return ts
}

func (x *Exec) callVal(fr *Frame, st *State, c *ssa.CallCommon, callee Val, args []Val, rt types.Type, nm string, pos token.Pos) Val {
	switch f := callee.(type) {
	case *FuncVal:
		return x.callFunc(fr, st, f.fn, args, f.binds, rt, nm, pos)
	case *Term:
		return x.callTerm(fr, st, f, c.Value.Type(), args, argTypes(c), rt, nm, pos)
	}
	x.unsup("call of %T", callee)
	return nil
}
func (x *Exec) resolvable(t *Term) bool {
	if t.Op == "ite" {
		return x.resolvable(t.Args[1]) || x.resolvable(t.Args[2])
	}
	return x.w.fnTerm[t.Name] != nil
}
func (x *Exec) resolveFunc(st *State, t *Term) *FuncVal {
	if t.Op != "const" && t.Op != "app" {
		return nil
	}
	fn := x.w.fnTerm[t.Name]
	if fn == nil {
		return nil
	}
	fv := &FuncVal{fn: fn}
	modes := t.Name[strings.LastIndex(t.Name, "#")+1:]
	for i, a := range t.Args {
		v := fn.FreeVars[i]
		switch modes[i] {
		case 'v':
			pt := v.Type().(*types.Pointer)
			x.cellN++
			c := &Cell{id: x.cellN, typ: pt.Elem(), name: fmt.Sprintf("rebound:%d", x.cellN)}
			st.cells[c] = a
			fv.binds = append(fv.binds, &Addr{kind: "cell", cell: c, typ: pt.Elem()})
		case 'x':
			fv.binds = append(fv.binds, &Addr{kind: "unk", typ: deref(v.Type())})
		default:
			fv.binds = append(fv.binds, a)
		}
	}
	return fv
}
func (x *Exec) capturedByValue(fn *ssa.Function, i int) bool {
	p := fn.Parent()
	if p == nil {
		return false
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				switch mc.Bindings[i].(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					return true
				}
			}
		}
	}
	return false
}

// callTerm calls a function value given as a term.
func (x *Exec) callTerm(fr *Frame, st *State, f *Term, ft types.Type, args []Val, ats []types.Type, rt types.Type, nm string, pos token.Pos) Val {
	if fv := x.resolveFunc(st, f); fv != nil {
		return x.callFunc(fr, st, fv.fn, args, fv.binds, rt, nm, pos)
	}
	if f.Op == "ite" && x.resolvable(f) {
		a := st.clone()
		b := st.clone()
		a.reach = And(a.reach, f.Args[0])
		b.reach = And(b.reach, Not(f.Args[0]))
		va := x.callTerm(fr, a, f.Args[1], ft, args, ats, rt, nm+"T", pos)
		vb := x.callTerm(fr, b, f.Args[2], ft, args, ats, rt, nm+"F", pos)
		m := x.merge([]*State{a, b})
		var r Val
		if a.reach == False {
			r = vb
		} else if b.reach == False {
			r = va
		} else if va != nil {
			r = x.iteVal(a.reach, va, vb, rt)
		}
		*st = *m.clone()
		return r
	}
	return x.extCall(fr, st, "functype "+typeKey(ft), ft.Underlying().(*types.Signature), f, args, ats, rt, pos)
}

// havocClosures: variables captured by reference by function values reachable from a term are
// treated as arbitrary when the term is handed to code that is known only by its contract.
func (x *Exec) havocClosures(st *State, t *Term) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "app" && x.w.fnTerm[t.Name] != nil {
			fn := x.w.fnTerm[t.Name]
			modes := t.Name[strings.LastIndex(t.Name, "#")+1:]
			for i, a := range t.Args {
				if modes[i] == 'r' && !closureReadsOnly(fn, fn.FreeVars[i]) {
					if pt, ok := fn.FreeVars[i].Type().(*types.Pointer); ok {
						ad := &Addr{kind: "heap", ref: a, typ: pt.Elem()}
						x.heapWrite(st, ad, Fresh("hv", x.w.sortOf(pt.Elem())))
					}
				}
			}
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

// boxed dynamic types by box function name
var boxTypes = map[string]types.Type{}

func (x *Exec) onStack(fn *ssa.Function) bool {
	for _, f := range x.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func extName(fn *ssa.Function) string {
	if fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}
func (x *Exec) fnInRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return inRepo(f.Pkg.Pkg)
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return inRepo(f.Object().Pkg())
		}
		if f.Origin() != nil && f.Origin() != f {
			if o := f.Origin(); o.Pkg != nil {
				return inRepo(o.Pkg.Pkg)
			}
		}
	}
	return len(fn.Blocks) > 0
}

func (x *Exec) callFunc(fr *Frame, st *State, fn *ssa.Function, args []Val, binds []Val, rt types.Type, nm string, pos token.Pos) Val {
	key := x.w.fkey(fn)
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && !x.onStack(fn) {
		return x.inline(fr, st, fn, args, binds, rt, nm)
	}
	var ats []types.Type
	for _, p := range fn.Params {
		ats = append(ats, p.Type())
	}
	if len(fn.Params) == 0 {
		if r := fn.Signature.Recv(); r != nil {
			ats = append(ats, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			ats = append(ats, fn.Signature.Params().At(i).Type())
		}
	}
	if c := x.S.find(key); c != nil && !c.Inline && !(x.C != nil && x.C.InlineSet[key]) {
		x.used[c.Key] = true
		return x.applyContract(fr, st, c, fn, args, binds, ats, rt, pos)
	}
	if c := x.S.findRec(x, fn); c != nil && (x.onStack(fn) || x.w.target(c) == fn) {
		x.used[c.Key] = true
		return x.applyContract(fr, st, c, fn, args, binds, ats, rt, pos)
	}
	if !x.fnInRepo(fn) {
		return x.extCall(fr, st, extName(fn), fn.Signature, nil, args, ats, rt, pos)
	}
	if len(fn.Blocks) == 0 {
		return x.extCall(fr, st, key, fn.Signature, nil, args, ats, rt, pos)
	}
	if x.onStack(fn) {
		x.unsup("recursive function %s has no contract", key)
	}
	if x.C != nil && x.C.Opaque[key] {
		return x.extCall(fr, st, key, fn.Signature, nil, args, ats, rt, pos)
	}
	x.inlined[key] = true
	return x.inline(fr, st, fn, args, binds, rt, nm)
}

func (x *Exec) inline(fr *Frame, st *State, fn *ssa.Function, args []Val, binds []Val, rt types.Type, nm string) Val {
	chain := fr.chain + "/" + nm
	f2 := x.execFunc(fn, args, binds, st.clone(), fr, chain)
	return x.joinRets(st, f2, rt)
}
func (x *Exec) joinRets(st *State, f2 *Frame, rt types.Type) Val {
	if len(f2.rets) == 0 {
		st.reach = False
		return x.deadVal(rt)
	}
	var sts []*State
	for _, r := range f2.rets {
		sts = append(sts, r.st)
	}
	var v Val
	first := true
	for i := len(f2.rets) - 1; i >= 0; i-- {
		r := f2.rets[i]
		if r.st.reach == False {
			continue
		}
		if first {
			v, first = r.val, false
		} else if r.val != nil {
			x.cur = r.st
			v = x.iteVal(r.st.reach, r.val, v, rt)
		}
	}
	m := x.merge(sts)
	*st = *m.clone()
	if v == nil {
		return x.deadVal(rt)
	}
	return v
}
func (x *Exec) deadVal(rt types.Type) Val {
	if rt == nil {
		return nil
	}
	if t, ok := rt.(*types.Tuple); ok {
		if t.Len() == 0 {
			return nil
		}
		var r Tuple
		for i := 0; i < t.Len(); i++ {
			r = append(r, x.w.zero(t.At(i).Type()))
		}
		return r
	}
	return x.w.zero(rt)
}

func (x *Exec) runDefers(fr *Frame, st *State) {
	ds := fr.defers
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		// executed iff the defer statement was reached on this path
		c := d.in.Common()
		run := func(s *State) {
			x.cur = s
			x.doCall(fr, s, c, d.callee, d.args, c.Signature().Results(), fmt.Sprintf("defer%d", i), d.in.Pos())
		}
		if impliesReach(st.reach, d.reach) {
			run(st)
			continue
		}
		a, b := st.clone(), st.clone()
		a.reach = And(st.reach, d.reach)
		b.reach = And(st.reach, Not(d.reach))
		run(a)
		m := x.merge([]*State{a, b})
		*st = *m.clone()
	}
}
func impliesReach(a, b *Term) bool {
	if b == True {
		return true
	}
	in := map[*Term]bool{}
	for _, c := range conjuncts(a) {
		in[c] = true
	}
	for _, c := range conjuncts(b) {
		if !in[c] {
			if c.Op == "or" {
				ok := false
				for _, d := range c.Args {
					if impliesReach(a, d) {
						ok = true
					}
				}
				if ok {
					continue
				}
			}
			if a.Op == "or" {
				all := true
				for _, d := range a.Args {
					if !impliesReach(d, b) {
						all = false
					}
				}
				return all
			}
			return false
		}
	}
	return true
}

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, rt types.Type, pos token.Pos) Val {
	w := x.w
	switch b.Name() {
	case "len", "cap":
		t := x.term(args[0], c.Args[0].Type())
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if b.Name() == "len" {
				return Sel(t, 1)
			}
			return Sel(t, 2)
		case *types.Basic:
			if isStrLit(t) {
				return Int(int64(len(strLitText[t.Name])))
			}
			return App("strlen", t)
		case *types.Map:
			dk, _, ck := w.mapKeys(c.Args[0].Type())
			n := Ite(Eq(t, Int(0)), Int(0), Select(x.hget(st, ck), t))
			x.assume(st, Le(Int(0), n))
			// a map is empty exactly when nothing is in it
			dom := Select(x.hget(st, dk), t)
			ks := w.sortOf(u.Key())
			k := BVar("k", ks)
			x.assume(st, Implies(Lt(Int(0), n), Select(dom, Fresh("key", ks))))
			x.assume(st, Implies(Not(Eq(t, Int(0))), Forall([]*Term{k}, Implies(Select(dom, k), Lt(Int(0), n)), []*Term{Select(dom, k)})))
			return n
		case *types.Array:
			return Int(u.Len())
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return Int(a.Len())
			}
		case *types.Chan:
			v := Fresh("chanlen", SInt)
			x.assume(st, Le(Int(0), v))
			return v
		}
		x.unsup("len of %v", c.Args[0].Type())
	case "append":
		return x.appendOp(st, c, args)
	case "copy":
		return x.copyOp(st, c, args)
	case "delete":
		m := x.term(args[0], c.Args[0].Type())
		k := x.term(args[1], c.Args[1].Type())
		d, _, cd := w.mapKeys(c.Args[0].Type())
		dom := Select(x.hget(st, d), m)
		st.heap[cd] = Store(x.hget(st, cd), m, Sub(Select(x.hget(st, cd), m), Ite(Select(dom, k), Int(1), Int(0))))
		st.heap[d] = Store(x.hget(st, d), m, Store(dom, k, False))
		return nil
	case "close":
		x.chanClose(fr, st, x.term(args[0], c.Args[0].Type()), pos)
		return nil
	case "panic":
		st.reach = False
		return nil
	case "recover":
		return NilIface()
	case "print", "println":
		return nil
	case "min", "max":
		r := x.term(args[0], c.Args[0].Type())
		for i, a := range args[1:] {
			t := x.term(a, c.Args[i+1].Type())
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(r, t), t, r)
			}
		}
		return r
	case "clear":
		x.unsup("clear")
	case "ssa:wrapnilchk":
		return args[0]
	}
	x.unsup("builtin %s", b.Name())
	return nil
}

func (x *Exec) appendOp(st *State, c *ssa.CallCommon, args []Val) Val {
	w := x.w
	s := x.term(args[0], c.Args[0].Type())
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	k := w.elemKey(el)
	if v, ok := viewTab[s]; ok {
		_ = v
		x.trusted["append to a subslice with a non-zero lower bound"] = true
	}
	var addLen *Term
	var src *Term
	known := int64(-1)
	if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		t := x.term(args[1], c.Args[1].Type())
		addLen = App("strlen", t)
		src = AppN("str2bytes", arrSort(SInt, SInt), t)
	} else {
		t := x.term(args[1], c.Args[1].Type())
		addLen = Sel(t, 1)
		src = Select(x.hget(st, k), Sel(t, 0))
	}
	if n, ok := addLen.intVal(); ok {
		known = n
	}
	if known == 0 {
		return s
	}
	sr, sl, sc := Sel(s, 0), Sel(s, 1), Sel(s, 2)
	newLen := Add(sl, addLen)
	fits := Le(newLen, sc)
	fresh := st.alloc
	h := x.hget(st, k)
	oldArr := Select(h, sr)
	var arr *Term
	if known >= 0 && known <= 8 {
		arr = oldArr
		for j := int64(0); j < known; j++ {
			arr = Store(arr, Add(sl, Int(j)), Select(src, Int(j)))
		}
	} else {
		arr = Fresh("app", oldArr.Sort)
		q := BVar("i", SInt)
		x.assume(st, Forall([]*Term{q}, Implies(Or(Lt(q, sl), Le(newLen, q)), Eq(Select(arr, q), Select(oldArr, q))), []*Term{Select(arr, q)}, []*Term{Select(oldArr, q)}))
		x.assume(st, Forall([]*Term{q}, Implies(And(Le(sl, q), Lt(q, newLen)), Eq(Select(arr, q), Select(src, Sub(q, sl)))), []*Term{Select(arr, q)}))
		x.assume(st, Forall([]*Term{q}, Implies(And(Le(Int(0), q), Lt(q, addLen)), Eq(Select(src, q), Select(arr, Add(q, sl)))), []*Term{Select(src, q)}))
	}
	if sl == Int(0) && known < 0 {
		// appending to an empty slice copies the source
		x.assume(st, Implies(Lt(Int(0), addLen), True))
	}
	// appending nothing returns the slice unchanged
	nothing := Eq(addLen, Int(0))
	r := Ite(fits, sr, fresh)
	ncap := Fresh("cap", SInt)
	x.assume(st, Le(newLen, ncap))
	cp := Ite(fits, sc, ncap)
	nh := Store(h, r, arr)
	res := MkDT(SSlice, r, newLen, cp)
	if sc == Int(0) && known > 0 {
		res = MkDT(SSlice, fresh, newLen, ncap)
		nh = Store(h, fresh, arr)
	}
	if known < 0 {
		nh = Ite(nothing, h, nh)
		res = Ite(nothing, s, res)
		// push the constructor outwards
		res = MkDT(SSlice, Sel(res, 0), Sel(res, 1), Sel(res, 2))
	}
	st.heap[k] = nh
	st.alloc = Add(st.alloc, Int(1))
	return res
}

func (x *Exec) copyOp(st *State, c *ssa.CallCommon, args []Val) Val {
	d := x.term(args[0], c.Args[0].Type())
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	k := x.w.elemKey(el)
	h := x.hget(st, k)
	base, lo := d, Int(0)
	if v, ok := viewTab[d]; ok {
		base, lo = v.base, v.lo
	}
	var n *Term
	var src *Term
	if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		t := x.term(args[1], c.Args[1].Type())
		n = App("strlen", t)
		src = AppN("str2bytes", arrSort(SInt, SInt), t)
	} else {
		s := x.term(args[1], c.Args[1].Type())
		n = Sel(s, 1)
		src = Select(h, Sel(s, 0))
		if v, ok := viewTab[s]; ok {
			_ = v
		}
	}
	cnt := Ite(Le(Sel(d, 1), n), Sel(d, 1), n)
	old := Select(h, Sel(base, 0))
	arr := Fresh("copy", old.Sort)
	q := BVar("i", SInt)
	x.assume(st, Forall([]*Term{q}, Eq(Select(arr, q), Ite(And(Le(lo, q), Lt(q, Add(lo, cnt))), Select(src, Sub(q, lo)), Select(old, q))), []*Term{Select(arr, q)}))
	x.assume(st, Forall([]*Term{q}, Implies(And(Le(Int(0), q), Lt(q, cnt)), Eq(Select(arr, Add(q, lo)), Select(src, q))), []*Term{Select(src, q)}))
	nh := Store(h, Sel(base, 0), arr)
	if base != d {
		// keep the view itself consistent
		varr := Fresh("viewc", old.Sort)
		x.assume(st, Forall([]*Term{q}, Eq(Select(varr, q), Select(arr, Add(q, lo))), []*Term{Select(varr, q)}))
		nh = Store(nh, Sel(d, 0), varr)
	}
	st.heap[k] = Ite(Eq(cnt, Int(0)), h, nh)
	return cnt
}

// ---------- havoc
func (x *Exec) havocAll(st *State) {
	st.ep = x.newEpoch()
	keep := map[string]*Term{}
	for k, v := range st.heap {
		if strings.HasPrefix(k, "ghost:") || strings.HasPrefix(k, "LK:") {
			keep[k] = v
		}
	}
	st.heap = keep
	a := Fresh("alloc", SInt)
	x.assume(st, Le(st.alloc, a))
	st.alloc = a
}
// mayWrite: may code using this address change what it points to (or let it escape)?
func mayWrite(v ssa.Value, depth int) bool {
	refs := v.Referrers()
	if refs == nil || depth > 8 {
		return true
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return true
			}
		case *ssa.FieldAddr:
			if mayWrite(r, depth+1) {
				return true
			}
		case *ssa.MakeClosure:
			f, ok := r.Fn.(*ssa.Function)
			if !ok {
				return true
			}
			for i, b := range r.Bindings {
				if b == v && (i >= len(f.FreeVars) || mayWrite(f.FreeVars[i], depth+1)) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}
func (x *Exec) havocBinds(st *State, v Val) {
	fv, ok := v.(*FuncVal)
	if !ok {
		return
	}
	for i, b := range fv.binds {
		if a, ok := b.(*Addr); ok && a.kind == "cell" {
			if fv.fn != nil && i < len(fv.fn.FreeVars) && !mayWrite(fv.fn.FreeVars[i], 0) {
				continue
			}
			if cv, ok := st.cells[a.cell]; ok {
				if inner, ok := cv.(*FuncVal); ok {
					_ = inner
					continue
				}
				st.cells[a.cell] = x.freshVal(st, "hv", a.cell.typ)
			}
		}
	}
}

// ---------- channels & goroutines (safety over all schedules: receive any value, select any ready case)
// A channel of element type T may carry a message contract: "send T :: (c, v)" is a precondition every
// sender proves (and ghost state it updates), "recv T :: (c) (v)" repeats clauses of it that every receiver may assume.
func (x *Exec) chanRecv(fr *Frame, st *State, i *ssa.UnOp) {
	ch := x.getT(fr, i.X)
	ct := i.X.Type().Underlying().(*types.Chan)
	et := ct.Elem()
	var v Val
	if c := x.S.find("recv " + typeKey(et)); c != nil {
		x.S.checkMessage(c)
		x.used[c.Key] = true
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "c", i.X.Type())), types.NewTuple(types.NewVar(token.NoPos, nil, "v", et)), false)
		v = x.applyContract2(fr, st, c, nil, sig, nil, []Val{ch}, nil, []types.Type{i.X.Type()}, et, i.Pos())
		x.trusted["a received message satisfies the message contract its sender was checked against; a channel received from without the comma-ok form is not closed"] = true
	} else {
		v = x.freshVal(st, "recv", et)
		x.trusted["channel receive yields an arbitrary value of its type"] = true
	}
	if i.CommaOk {
		ok := Fresh("recv.ok", SBool)
		fr.env[i] = Tuple{Ite(ok, x.term(v, et), x.w.zero(et)), ok}
	} else {
		fr.env[i] = v
	}
}
func (x *Exec) chanSend(fr *Frame, st *State, ch *Term, v Val, i *ssa.Send) {
	et := i.Chan.Type().Underlying().(*types.Chan).Elem()
	if c := x.S.find("send " + typeKey(et)); c != nil {
		x.used[c.Key] = true
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "c", i.Chan.Type()), types.NewVar(token.NoPos, nil, "v", et)), nil, false)
		x.applyContract2(fr, st, c, nil, sig, nil, []Val{ch, v}, nil, []types.Type{i.Chan.Type(), et}, nil, i.Pos())
	}
}
func (x *Exec) chanClose(fr *Frame, st *State, ch *Term, pos token.Pos) {
	x.registerKey("CH:closed", arrSort(SInt, SBool))
	h := x.hget(st, "CH:closed")
	if x.C != nil && x.C.Safe {
		x.oblige(st, "safe", "close of a closed channel", Not(Select(h, ch)), pos)
	}
	st.heap["CH:closed"] = Store(h, ch, True)
}
func (x *Exec) selectOp(fr *Frame, st *State, i *ssa.Select) {
	idx := Fresh("select", SInt)
	lo := int64(0)
	if !i.Blocking {
		lo = -1
	}
	x.assume(st, And(Le(Int(lo), idx), Lt(idx, Int(int64(len(i.States))))))
	r := Tuple{idx, Fresh("recv.ok", SBool)}
	for _, s := range i.States {
		if s.Dir == types.RecvOnly {
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			r = append(r, x.freshVal(st, "recv", et))
		}
	}
	fr.env[i] = r
	x.trusted["select picks an arbitrary case; channel receive yields an arbitrary value of its type"] = true
}
func (x *Exec) goStmt(fr *Frame, st *State, i *ssa.Go) {
	callee, args := x.callArgs(fr, &i.Call)
	_ = args
	x.trusted["goroutines started by the function communicate only through channels, locks and the variables they capture (captured variables they assign are treated as arbitrary)"] = true
	if fv, ok := callee.(*FuncVal); ok {
		for k, b := range fv.binds {
			if a, ok := b.(*Addr); ok && a.kind == "cell" {
				if !closureReadsOnly(fv.fn, fv.fn.FreeVars[k]) {
					x.volatile[a.cell.name] = true
				}
			}
		}
	}
	if h := x.S.goHook; h != nil {
		h(x, fr, st, i, callee, args)
	}
}
func closureReadsOnly(f *ssa.Function, fv ssa.Value) bool {
	for _, r := range *fv.Referrers() {
		switch in := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for k, b := range in.Bindings {
				if b == fv && !closureReadsOnly(in.Fn.(*ssa.Function), in.Fn.(*ssa.Function).FreeVars[k]) {
					return false
				}
			}
		case *ssa.FieldAddr:
			for _, rr := range *in.Referrers() {
				if _, ok := rr.(*ssa.UnOp); !ok {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
