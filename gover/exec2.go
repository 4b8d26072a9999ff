package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) singleAssign(f *ssa.Function, i int) bool {
	// no store through the free variable in f or nested closures
	var noStore func(f *ssa.Function, fv ssa.Value) bool
	noStore = func(f *ssa.Function, fv ssa.Value) bool {
		for _, r := range *fv.Referrers() {
			switch in := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				return false
			case *ssa.FieldAddr, *ssa.IndexAddr:
				for _, rr := range *in.(ssa.Value).Referrers() {
					if _, ok := rr.(*ssa.UnOp); !ok {
						return false
					}
				}
			case *ssa.MakeClosure:
				for k, b := range in.Bindings {
					if b == fv {
						g := in.Fn.(*ssa.Function)
						if !noStore(g, g.FreeVars[k]) {
							return false
						}
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !noStore(f, f.FreeVars[i]) {
		return false
	}
	p := f.Parent()
	if p == nil {
		return true
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			switch a := mc.Bindings[i].(type) {
			case *ssa.Alloc:
				n := 0
				for _, r := range *a.Referrers() {
					switch in := r.(type) {
					case *ssa.Store:
						if in.Addr == a {
							n++
						} else {
							return false
						}
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.MakeClosure:
						for k, b := range in.Bindings {
							if b == a {
								g := in.Fn.(*ssa.Function)
								if !noStore(g, g.FreeVars[k]) {
									return false
								}
							}
						}
					case *ssa.FieldAddr:
						for _, rr := range *in.Referrers() {
							if _, ok := rr.(*ssa.UnOp); !ok {
								return false
							}
						}
					default:
						return false
					}
				}
				return n <= 1
			case *ssa.FreeVar:
				for k, fv := range p.FreeVars {
					if fv == a {
						return x.singleAssign(p, k)
					}
				}
				return false
			default:
				return false
			}
		}
	}
	return true
}

func (x *Exec) get(fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &FuncVal{fn: c}
	case *ssa.Global:
		return &Addr{kind: "global", g: c, typ: deref(c.Type())}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	x.unsup("value %s (%T) has no definition in %s", v.Name(), v, x.w.fkey(fr.fn))
	return nil
}
func (x *Exec) getT(fr *Frame, v ssa.Value) *Term { return x.term(x.get(fr, v), v.Type()) }

func (x *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return x.w.zero(c.Type())
	}
	return constTerm(x.w, c.Value, c.Type())
}
func constTerm(w *World, v constant.Value, t types.Type) *Term {
	s := w.sortOf(t)
	switch s {
	case SBool:
		return Bool(constant.BoolVal(v))
	case SStr:
		if v.Kind() == constant.String {
			return StrLit(constant.StringVal(v))
		}
	case SBV:
		u, _ := constant.Uint64Val(constant.ToInt(v))
		return BV(u)
	case SInt:
		i := constant.ToInt(v)
		if n, ok := constant.Int64Val(i); ok {
			return Int(n)
		}
		return mk("int", i.ExactString(), SInt)
	case SReal:
		f, _ := constant.Float64Val(v)
		return mk("int", fmt.Sprintf("%.6f", f), SReal)
	case SIface:
		return Fresh("constiface", SIface)
	}
	return Const("const."+v.ExactString()+"."+s, s)
}

var _ = big.NewInt

// ---------- memory
func (x *Exec) selPath(v *Term, path []PStep) *Term {
	for _, p := range path {
		if p.idx != nil {
			if _, _, ok := splitArr(v.Sort); !ok {
				return Fresh("opaqueidx", x.w.sortOf(p.typ.Underlying().(*types.Array).Elem()))
			}
			v = Select(v, p.idx)
		} else {
			if U.dts[v.Sort] == nil {
				st := p.typ.Underlying().(*types.Struct)
				return AppN("ofield."+v.Sort+"."+st.Field(p.field).Name(), x.w.sortOf(st.Field(p.field).Type()), v)
			}
			v = Sel(v, p.field)
		}
	}
	return v
}
func (x *Exec) updPath(v *Term, path []PStep, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.idx != nil {
		return Store(v, p.idx, x.updPath(Select(v, p.idx), path[1:], nv))
	}
	if U.dts[v.Sort] == nil {
		return Fresh("opaqueupd", v.Sort)
	}
	return Upd(v, p.field, x.updPath(Sel(v, p.field), path[1:], nv))
}
func (x *Exec) addrType(a *Addr) types.Type {
	t := a.typ
	if a.kind == "cell" {
		t = a.cell.typ
	}
	for _, p := range a.path {
		if p.idx != nil {
			t = p.typ.Underlying().(*types.Array).Elem()
		} else {
			t = p.typ.Underlying().(*types.Struct).Field(p.field).Type()
		}
	}
	return t
}
func (x *Exec) load(st *State, a *Addr, t types.Type) Val {
	switch a.kind {
	case "unk":
		v := Fresh("unk", x.w.sortOf(t))
		return v
	case "cell":
		v, ok := st.cells[a.cell]
		if !ok {
			// cell of another iteration / not live
			v = Fresh("deadcell", x.w.sortOf(a.cell.typ))
			st.cells[a.cell] = v
		}
		if x.volatile[a.cell.name] {
			f := Fresh("volatile", x.w.sortOf(t))
			for _, g := range x.w.wf(f, t, st.alloc, 1) {
				x.assume(st, g)
			}
			return f
		}
		if len(a.path) == 0 {
			return v
		}
		return x.wfv(st, x.selPath(x.term(v, a.cell.typ), a.path), t)
	case "global":
		k := x.w.globalKey(a.g)
		var v *Term
		if x.immGlobal(a.g) {
			v = Const(k+"@imm", x.w.keySort[k])
			x.immInit(a.g, v)
		} else {
			v = x.hget(st, k)
		}
		return x.wfv(st, x.selPath(v, a.path), t)
	case "elem":
		k := x.w.elemKey(a.typ)
		v := Select(Select(x.hget(st, k), a.ref), a.idx)
		return x.wfv(st, x.selPath(v, a.path), t)
	case "heap":
		x.assume(st, Not(Eq(a.ref, Int(0))))
		x.lockCheck(st, a, false)
		return x.wfv(st, x.heapRead(st, a), t)
	}
	panic("load " + a.kind)
}
func (x *Exec) heapRead(st *State, a *Addr) *Term {
	if x.w.isOpaqueStruct(a.typ) {
		t := x.addrType(a)
		return Fresh("opq", x.w.sortOf(t))
	}
	if s, ok := a.typ.Underlying().(*types.Struct); ok {
		if len(a.path) > 0 {
			k := x.w.fieldKey(a.typ, a.path[0].field)
			return x.selPath(Select(x.hget(st, k), a.ref), a.path[1:])
		}
		so := x.w.sortOf(a.typ)
		if U.dts[so] == nil {
			return Const("zero."+so, so)
		}
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			as = append(as, Select(x.hget(st, x.w.fieldKey(a.typ, i)), a.ref))
		}
		return MkDT(so, as...)
	}
	k := x.w.cellKey(a.typ)
	return x.selPath(Select(x.hget(st, k), a.ref), a.path)
}
func (x *Exec) heapWrite(st *State, a *Addr, v *Term) {
	if x.w.isOpaqueStruct(a.typ) {
		return
	}
	if s, ok := a.typ.Underlying().(*types.Struct); ok {
		if len(a.path) > 0 {
			k := x.w.fieldKey(a.typ, a.path[0].field)
			h := x.hget(st, k)
			if len(a.path) > 1 {
				v = x.updPath(Select(h, a.ref), a.path[1:], v)
			}
			st.heap[k] = Store(h, a.ref, v)
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			k := x.w.fieldKey(a.typ, i)
			st.heap[k] = Store(x.hget(st, k), a.ref, Sel(v, i))
		}
		return
	}
	k := x.w.cellKey(a.typ)
	h := x.hget(st, k)
	if len(a.path) > 0 {
		v = x.updPath(Select(h, a.ref), a.path, v)
	}
	st.heap[k] = Store(h, a.ref, v)
}
func (x *Exec) store(st *State, a *Addr, v Val, t types.Type) {
	switch a.kind {
	case "unk":
		return
	case "cell":
		if len(a.path) == 0 {
			st.cells[a.cell] = v
			return
		}
		old, ok := st.cells[a.cell]
		if !ok {
			old = Fresh("deadcell", x.w.sortOf(a.cell.typ))
		}
		st.cells[a.cell] = x.updPath(x.term(old, a.cell.typ), a.path, x.term(v, t))
	case "global":
		k := x.w.globalKey(a.g)
		h := x.hget(st, k)
		st.heap[k] = x.updPath(h, a.path, x.term(v, t))
	case "elem":
		k := x.w.elemKey(a.typ)
		h := x.hget(st, k)
		ar := Select(h, a.ref)
		nv := x.term(v, t)
		if len(a.path) > 0 {
			nv = x.updPath(Select(ar, a.idx), a.path, nv)
		}
		st.heap[k] = Store(h, a.ref, Store(ar, a.idx, nv))
	case "heap":
		x.assume(st, Not(Eq(a.ref, Int(0))))
		x.lockCheck(st, a, true)
		x.heapWrite(st, a, x.term(v, t))
	}
}
func (x *Exec) wfv(st *State, v *Term, t types.Type) *Term {
	if v.isLit() || v.Op == "app" && U.dts[v.Sort] != nil && v.Name == U.dts[v.Sort].Ctor && v.Sort != SSlice {
		return v
	}
	for _, g := range x.w.wf(v, t, st.alloc, 0) {
		x.assume(st, g)
	}
	return v
}
func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return nil
		}
		var r Tuple
		for i := 0; i < tt.Len(); i++ {
			r = append(r, x.freshVal(st, name, tt.At(i).Type()))
		}
		return r
	}
	v := Fresh(name, x.w.sortOf(t))
	for _, g := range x.w.wf(v, t, st.alloc, 1) {
		x.assume(st, g)
	}
	return v
}
func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, Int(1))
	return r
}

// toAddr converts a pointer value into an address descriptor.
func (x *Exec) toAddr(v Val, pt types.Type) *Addr {
	switch a := v.(type) {
	case *Addr:
		return a
	case *Term:
		el := deref(pt)
		return &Addr{kind: "heap", ref: a, typ: el}
	}
	x.unsup("address from %T", v)
	return nil
}

// immInit adds the initial value of an immutable package variable when it is a simple literal.
func (x *Exec) immInit(g *ssa.Global, v *Term) {
	if _, ok := U.axioms[v.Name]; ok {
		return
	}
	U.axioms[v.Name] = []*Term{}
	if ax := x.evalGlobalInit(g, v); ax != nil {
		U.axioms[v.Name] = ax
	}
}

// ---------- iface boxing
var tagN = map[string]int{}

func (x *Exec) box(v *Term, t types.Type) *Term {
	k := typeKey(t)
	bn, un := "box."+k, "unbox."+k
	boxTypes[bn] = t
	DeclFun(bn, []Sort{v.Sort}, SIface)
	DeclFun(un, []Sort{SIface}, v.Sort)
	if _, ok := U.axioms[bn]; !ok {
		b := BVar("b", v.Sort)
		a := App(bn, b)
		U.axioms[bn] = []*Term{Forall([]*Term{b}, And(Eq(App(un, a), b), Eq(App("tagOf", a), tagOfType(t))), []*Term{a})}
	}
	return App(bn, v)
}
func tagOfType(t types.Type) *Term {
	k := typeKey(t)
	n, ok := tagN[k]
	if !ok {
		n = len(tagN) + 1
		tagN[k] = n
	}
	return Int(int64(n))
}
func (x *Exec) unbox(v *Term, t types.Type) *Term {
	k := typeKey(t)
	s := x.w.sortOf(t)
	if v.Op == "app" && v.Name == "box."+k {
		return v.Args[0]
	}
	DeclFun("unbox."+k, []Sort{SIface}, s)
	// a value of dynamic type T is a boxed T
	return App("unbox."+k, v)
}

// ---------- instruction execution
func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	x.cur = st
	x.steps++
	if x.steps > 3000000 {
		x.unsup("step budget exceeded")
	}
	w := x.w
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		el := deref(i.Type())
		name := fmt.Sprintf("alloc:%s/%s", fr.chain, i.Name())
		if x.promote[name] {
			r := x.newRef(st)
			a := &Addr{kind: "heap", ref: r, typ: el}
			if _, isS := el.Underlying().(*types.Struct); isS && w.isOpaqueStruct(el) {
				fr.env[i] = a
				return
			}
			if U.dts[w.sortOf(el)] != nil || !isStruct(el) {
				x.heapWrite(st, a, w.zero(el))
			}
			x.initGhostFields(st, el, r)
			fr.env[i] = a
			return
		}
		x.cellN++
		c := &Cell{id: x.cellN, typ: el, name: name}
		st.cells[c] = w.zero(el)
		fr.env[i] = &Addr{kind: "cell", cell: c, typ: el}
	case *ssa.BinOp:
		fr.env[i] = x.binop(st, i.Op, x.get(fr, i.X), x.get(fr, i.Y), i.X.Type(), i.Y.Type())
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			if g, ok := i.X.(*ssa.Global); ok && g.Name() == "init$guard" {
				fr.env[i] = False // a package is initialised once
				return
			}
			a := x.toAddr(x.get(fr, i.X), i.X.Type())
			fr.env[i] = x.load(st, a, i.Type())
		case token.NOT:
			fr.env[i] = Not(x.getT(fr, i.X))
		case token.SUB:
			t := x.getT(fr, i.X)
			if t.Sort == SInt {
				fr.env[i] = Sub(Int(0), t)
			} else {
				fr.env[i] = AppN("neg."+t.Sort, t.Sort, t)
			}
		case token.XOR:
			t := x.getT(fr, i.X)
			if t.Sort == SBV {
				if n, ok := t.bvVal(); ok {
					fr.env[i] = BV(^n)
				} else {
					fr.env[i] = mk("bvnot", "", SBV, t)
				}
			} else {
				fr.env[i] = AppN("intnot", SInt, t)
			}
		case token.ARROW:
			x.chanRecv(fr, st, i)
		default:
			x.unsup("unop %v", i.Op)
		}
	case *ssa.Call:
		fr.env[i] = x.call(fr, st, i, &i.Call, i.Type())
	case *ssa.ChangeInterface:
		fr.env[i] = x.get(fr, i.X)
	case *ssa.ChangeType:
		fr.env[i] = x.changeType(st, x.get(fr, i.X), i.X.Type(), i.Type())
	case *ssa.Convert:
		fr.env[i] = x.convert(st, x.get(fr, i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		fr.env[i] = x.convert(st, x.get(fr, i.X), i.X.Type(), i.Type())
	case *ssa.Extract:
		t := x.get(fr, i.Tuple)
		if tt, ok := t.(Tuple); ok {
			fr.env[i] = tt[i.Index]
		} else {
			x.unsup("extract from %T", t)
		}
	case *ssa.Field:
		t := x.getT(fr, i.X)
		fr.env[i] = x.wfv(st, x.selPath(t, []PStep{{field: i.Field, typ: i.X.Type()}}), i.Type())
	case *ssa.FieldAddr:
		a := x.toAddr(x.get(fr, i.X), i.X.Type())
		el := deref(i.X.Type())
		if a.kind == "unk" || (a.kind == "heap" && len(a.path) == 0 && w.isOpaqueStruct(a.typ)) {
			fr.env[i] = &Addr{kind: "unk", typ: el}
			return
		}
		n := *a
		n.path = append(append([]PStep{}, a.path...), PStep{field: i.Field, typ: el})
		fr.env[i] = &n
	case *ssa.Index:
		// array or string
		t := x.getT(fr, i.X)
		ix := x.getT(fr, i.Index)
		if t.Sort == SStr {
			x.assume(st, And(Le(Int(0), ix), Lt(ix, App("strlen", t))))
			v := AppN("strat", SInt, t, ix)
			x.assume(st, And(Le(Int(0), v), Lt(v, Int(256))))
			fr.env[i] = v
			return
		}
		fr.env[i] = x.wfv(st, Select(t, ix), i.Type())
	case *ssa.IndexAddr:
		xv := x.get(fr, i.X)
		ix := x.getT(fr, i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
			s := x.term(xv, i.X.Type())
			x.boundsCheck(st, ix, Sel(s, 1), i.Pos())
			fr.env[i] = &Addr{kind: "elem", ref: Sel(s, 0), idx: ix, typ: i.X.Type().Underlying().(*types.Slice).Elem()}
			return
		}
		a := x.toAddr(xv, i.X.Type())
		at := deref(i.X.Type())
		if a.kind == "unk" {
			fr.env[i] = a
			return
		}
		if arr, ok := at.Underlying().(*types.Array); ok {
			x.boundsCheck(st, ix, Int(arr.Len()), i.Pos())
		}
		n := *a
		n.path = append(append([]PStep{}, a.path...), PStep{idx: ix, typ: at})
		fr.env[i] = &n
	case *ssa.Lookup:
		x.lookup(fr, st, i)
	case *ssa.MakeClosure:
		f := i.Fn.(*ssa.Function)
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, x.get(fr, b))
		}
		fr.env[i] = &FuncVal{fn: f, binds: bs}
	case *ssa.MakeInterface:
		t := i.X.Type()
		v := x.get(fr, i.X)
		fr.env[i] = x.box(x.term(v, t), t)
	case *ssa.MakeSlice:
		n := x.getT(fr, i.Len)
		c := x.getT(fr, i.Cap)
		x.assume(st, And(Le(Int(0), n), Le(n, c)))
		r := x.newRef(st)
		el := i.Type().Underlying().(*types.Slice).Elem()
		k := w.elemKey(el)
		es := w.sortOf(el)
		st.heap[k] = Store(x.hget(st, k), r, ConstArr(arrSort(SInt, es), w.zero(el)))
		fr.env[i] = MkDT(SSlice, r, n, c)
	case *ssa.MakeMap:
		r := x.newRef(st)
		d, _, c := w.mapKeys(i.Type())
		_, inner, _ := splitArr(w.keySort[d])
		st.heap[d] = Store(x.hget(st, d), r, ConstArr(inner, False))
		st.heap[c] = Store(x.hget(st, c), r, Int(0))
		fr.env[i] = r
	case *ssa.MakeChan:
		r := x.newRef(st)
		x.registerKey("CH:closed", arrSort(SInt, SBool))
		st.heap["CH:closed"] = Store(x.hget(st, "CH:closed"), r, False)
		fr.env[i] = r
	case *ssa.Slice:
		x.sliceOp(fr, st, i)
	case *ssa.TypeAssert:
		x.typeAssert(fr, st, i)
	case *ssa.Range:
		xv := x.getT(fr, i.X)
		if xv.Sort == SStr {
			fr.env[i] = &MapIter{str: true, m: xv}
			return
		}
		mt := i.X.Type().Underlying().(*types.Map)
		x.cellN++
		c := &Cell{id: x.cellN, typ: &ArrT{mt.Key(), types.Typ[types.Bool]}, name: fmt.Sprintf("iter:%s/%s", fr.chain, i.Name())}
		st.cells[c] = ConstArr(arrSort(w.sortOf(mt.Key()), SBool), False)
		dk, _, _ := w.mapKeys(i.X.Type())
		it := &MapIter{m: xv, typ: i.X.Type(), visited: c, dom0: Select(x.hget(st, dk), xv)}
		fr.env[i] = it
	case *ssa.Next:
		it, ok := x.get(fr, i.Iter).(*MapIter)
		if !ok {
			x.unsup("iterator")
		}
		okv := Fresh("next.ok", SBool)
		if it.str {
			k := Fresh("next.k", SInt)
			x.assume(st, And(Le(Int(0), k), Lt(k, App("strlen", it.m))))
			fr.env[i] = Tuple{okv, k, Fresh("next.rune", SInt)}
			return
		}
		mt := it.typ.Underlying().(*types.Map)
		dk, vk, _ := w.mapKeys(it.typ)
		dom := Select(x.hget(st, dk), it.m)
		k := Fresh("next.k", w.sortOf(mt.Key()))
		vis := x.term(st.cells[it.visited], it.visited.typ)
		x.assume(st, Implies(okv, And(Select(dom, k), Not(Select(vis, k)), Not(Eq(it.m, Int(0))))))
		q := BVar("k", k.Sort)
		// an entry inserted while iterating may be left out
		x.assume(st, Implies(Not(okv), Forall([]*Term{q}, Implies(And(Select(dom, q), Select(it.dom0, q), Not(Eq(it.m, Int(0)))), Select(vis, q)))))
		st.cells[it.visited] = Ite(okv, Store(vis, k, True), vis)
		v := Select(Select(x.hget(st, vk), it.m), k)
		x.wfv(st, k, mt.Key())
		x.wfv(st, v, mt.Elem())
		fr.env[i] = Tuple{okv, k, v}
	case *ssa.Select:
		x.selectOp(fr, st, i)
	case *ssa.Store:
		a := x.toAddr(x.get(fr, i.Addr), i.Addr.Type())
		x.store(st, a, x.get(fr, i.Val), i.Val.Type())
	case *ssa.MapUpdate:
		m := x.getT(fr, i.Map)
		x.assume(st, Not(Eq(m, Int(0))))
		x.mapSet(st, i.Map.Type(), m, x.getT(fr, i.Key), x.getT(fr, i.Value))
	case *ssa.Send:
		x.chanSend(fr, st, x.getT(fr, i.Chan), x.get(fr, i.X), i)
	case *ssa.Go:
		x.goStmt(fr, st, i)
	case *ssa.Defer:
		d := deferRec{in: i, reach: st.reach, fr: fr}
		d.callee, d.args = x.callArgs(fr, &i.Call)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		x.runDefers(fr, st)
	case *ssa.SliceToArrayPointer:
		x.unsup("slice to array pointer")
	default:
		x.unsup("instruction %T", in)
	}
}
func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func (x *Exec) registerKey(k string, s Sort) {
	if _, ok := x.w.keySort[k]; !ok {
		x.w.keySort[k] = s
	}
}
func (x *Exec) boundsCheck(st *State, ix, n *Term, pos token.Pos) {
	g := And(Le(Int(0), ix), Lt(ix, n))
	if x.C != nil && x.C.Safe {
		x.oblige(st, "safe", "index within bounds", g, pos)
	}
	x.assume(st, g)
}
func (x *Exec) mapSet(st *State, mt types.Type, m, k, v *Term) {
	d, vv, c := x.w.mapKeys(mt)
	dom := Select(x.hget(st, d), m)
	st.heap[c] = Store(x.hget(st, c), m, Add(Select(x.hget(st, c), m), Ite(Select(dom, k), Int(0), Int(1))))
	st.heap[d] = Store(x.hget(st, d), m, Store(dom, k, True))
	st.heap[vv] = Store(x.hget(st, vv), m, Store(Select(x.hget(st, vv), m), k, v))
}
func (x *Exec) mapGet(st *State, mt types.Type, m, k *Term) (val, ok *Term) {
	d, vv, _ := x.w.mapKeys(mt)
	dom := Select(Select(x.hget(st, d), m), k)
	el := mt.Underlying().(*types.Map).Elem()
	has := And(Not(Eq(m, Int(0))), dom)
	v := Ite(has, Select(Select(x.hget(st, vv), m), k), x.w.zero(el))
	return v, has
}
func (x *Exec) lookup(fr *Frame, st *State, i *ssa.Lookup) {
	t := x.getT(fr, i.X)
	k := x.getT(fr, i.Index)
	if t.Sort == SStr {
		x.assume(st, And(Le(Int(0), k), Lt(k, App("strlen", t))))
		v := AppN("strat", SInt, t, k)
		x.assume(st, And(Le(Int(0), v), Lt(v, Int(256))))
		fr.env[i] = v
		return
	}
	mt := i.X.Type()
	v, ok := x.mapGet(st, mt, t, k)
	x.wfv(st, v, mt.Underlying().(*types.Map).Elem())
	if i.CommaOk {
		fr.env[i] = Tuple{v, ok}
	} else {
		fr.env[i] = v
	}
}

func (x *Exec) changeType(st *State, v Val, from, to types.Type) Val {
	if _, ok := v.(*Term); !ok {
		return v
	}
	fs, ts := x.w.sortOf(from), x.w.sortOf(to)
	if fs == ts {
		return v
	}
	if fs == SBV && ts == SInt || fs == SInt && ts == SBV {
		return x.convert(st, v, from, to)
	}
	t := v.(*Term)
	// struct conversion between named types
	d1, d2 := U.dts[fs], U.dts[ts]
	if d1 != nil && d2 != nil && len(d1.Fields) == len(d2.Fields) {
		var as []*Term
		for i := range d1.Fields {
			as = append(as, Sel(t, i))
		}
		return MkDT(ts, as...)
	}
	return AppN("conv."+fs+"->"+ts, ts, t)
}
func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fs, ts := x.w.sortOf(from), x.w.sortOf(to)
	t, isT := v.(*Term)
	if !isT {
		return v
	}
	switch {
	case fs == SBV && ts == SInt:
		if n, ok := t.bvVal(); ok {
			return Int(int64(n))
		}
		if t.Op == "app" && t.Name == "intToBv" {
			// only equal when in range; keep the conversion
		}
		return App("bvToInt", t)
	case fs == SInt && ts == SBV:
		if n, ok := t.intVal(); ok {
			return BV(uint64(n))
		}
		if t.Op == "app" && t.Name == "bvToInt" {
			return t.Args[0]
		}
		return App("intToBv", t)
	case fs == SBV && ts == SBV:
		return t
	case fs == SStr && ts == SStr:
		return t
	case fs == SInt && ts == SInt:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			if fb, ok := from.Underlying().(*types.Basic); ok && fb.Info()&types.IsUnsigned == 0 {
				x.trusted["signed-to-unsigned conversions are treated as value-preserving"] = true
			}
		}
		return t
	case fs == SSlice && ts == SStr:
		el := from.Underlying().(*types.Slice).Elem()
		k := x.w.elemKey(el)
		return AppN("bytes2str", SStr, Select(x.hget(st, k), Sel(t, 0)), Sel(t, 1))
	case fs == SStr && ts == SSlice:
		el := to.Underlying().(*types.Slice).Elem()
		k := x.w.elemKey(el)
		r := x.newRef(st)
		arr := AppN("str2bytes", arrSort(SInt, SInt), t)
		st.heap[k] = Store(x.hget(st, k), r, arr)
		n := App("strlen", t)
		// conversion back is the identity
		x.facts = append(x.facts, Eq(AppN("bytes2str", SStr, arr, n), t))
		c := Fresh("cap", SInt)
		x.assume(st, Le(n, c))
		return MkDT(SSlice, r, n, c)
	case fs == ts:
		return t
	case fs == SInt && ts == SReal:
		return mk("to_real", "", SReal, t)
	}
	return AppN("conv."+fs+"->"+ts, ts, t)
}

func (x *Exec) binop(st *State, op token.Token, xv, yv Val, xt, yt types.Type) Val {
	// pointer / func comparisons with nil
	if op == token.EQL || op == token.NEQ {
		var r *Term
		a, aok := xv.(*Addr)
		b, bok := yv.(*Addr)
		_, af := xv.(*FuncVal)
		_, bf := yv.(*FuncVal)
		switch {
		case aok && bok && sameVal(a, b):
			r = True
		case aok && bok && (a.kind == "cell" || b.kind == "cell") && a.kind != b.kind:
			r = False
		case aok && !bok && isZeroT(yv), bok && !aok && isZeroT(xv):
			ad := a
			if ad == nil {
				ad = b
			}
			if ad.kind == "heap" && len(ad.path) == 0 {
				r = Eq(ad.ref, Int(0))
			} else {
				r = False
			}
		case af && isNilFn(yv), bf && isNilFn(xv):
			r = False
		default:
			tx, ty := x.term(xv, xt), x.term(yv, yt)
			if tx.Sort == SSlice {
				r = Eq(Sel(tx, 0), Sel(ty, 0)) // comparison with nil
			} else if tx.Sort != ty.Sort {
				// interface compared with concrete value
				if tx.Sort == SIface {
					r = Eq(tx, x.box(ty, yt))
				} else if ty.Sort == SIface {
					r = Eq(x.box(tx, xt), ty)
				} else {
					x.unsup("comparison of %s and %s", tx.Sort, ty.Sort)
				}
			} else {
				r = Eq(tx, ty)
			}
		}
		if op == token.NEQ {
			return Not(r)
		}
		return r
	}
	a, b := x.term(xv, xt), x.term(yv, yt)
	if a.Sort == SBV {
		switch op {
		case token.AND:
			return BVOp("bvand", a, b)
		case token.OR:
			return BVOp("bvor", a, b)
		case token.XOR:
			return BVOp("bvxor", a, b)
		case token.AND_NOT:
			if n, ok := b.bvVal(); ok {
				return BVOp("bvand", a, BV(^n))
			}
			return BVOp("bvand", a, mk("bvnot", "", SBV, b))
		case token.ADD:
			return BVOp("bvadd", a, b)
		case token.SUB:
			return BVOp("bvsub", a, b)
		case token.LSS:
			return BVCmp("bvult", a, b)
		case token.LEQ:
			return BVCmp("bvule", a, b)
		case token.GTR:
			return BVCmp("bvult", b, a)
		case token.GEQ:
			return BVCmp("bvule", b, a)
		case token.SHL:
			if b.Sort == SInt {
				if n, ok := b.intVal(); ok {
					return BVOp("bvshl", a, BV(uint64(n)))
				}
				b = App("intToBv", b)
			}
			return BVOp("bvshl", a, b)
		case token.SHR:
			if b.Sort == SInt {
				if n, ok := b.intVal(); ok {
					return BVOp("bvlshr", a, BV(uint64(n)))
				}
				b = App("intToBv", b)
			}
			return BVOp("bvlshr", a, b)
		}
		x.unsup("bv op %v", op)
	}
	switch a.Sort {
	case SStr:
		oa, ob := App("strord", a), App("strord", b)
		switch op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return Lt(oa, ob)
		case token.LEQ:
			return Le(oa, ob)
		case token.GTR:
			return Lt(ob, oa)
		case token.GEQ:
			return Le(ob, oa)
		}
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	case SInt, SReal:
		switch op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.QUO:
			if a.Sort == SReal {
				return mk("/", "", SReal, a, b)
			}
			if n, ok := b.intVal(); ok && n > 0 {
				d := func(t *Term) *Term { return mk("div", "", SInt, t, b) }
				return Ite(Le(Int(0), a), d(a), Sub(Int(0), d(Sub(Int(0), a))))
			}
			return AppN("intdiv", SInt, a, b)
		case token.REM:
			if n, ok := b.intVal(); ok && n > 0 {
				m := func(t *Term) *Term { return mk("mod", "", SInt, t, b) }
				return Ite(Le(Int(0), a), m(a), Sub(Int(0), m(Sub(Int(0), a))))
			}
			return AppN("intrem", SInt, a, b)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			av, ok1 := a.intVal()
			bv, ok2 := b.intVal()
			if ok1 && ok2 {
				switch op {
				case token.AND:
					return Int(av & bv)
				case token.OR:
					return Int(av | bv)
				case token.XOR:
					return Int(av ^ bv)
				case token.SHL:
					return Int(av << uint(bv))
				case token.SHR:
					return Int(av >> uint(bv))
				}
			}
			return AppN("intbit."+op.String(), SInt, a, b)
		}
	}
	x.unsup("binop %v on %s", op, a.Sort)
	return nil
}
func strCat(a, b *Term) *Term {
	if isStrLit(a) && isStrLit(b) {
		return StrLit(strLitText[a.Name] + strLitText[b.Name])
	}
	if isStrLit(a) && strLitText[a.Name] == "" {
		return b
	}
	if isStrLit(b) && strLitText[b.Name] == "" {
		return a
	}
	return App("strcat", a, b)
}
func isZeroT(v Val) bool {
	t, ok := v.(*Term)
	return ok && t == Int(0)
}
func isNilFn(v Val) bool {
	t, ok := v.(*Term)
	return ok && t == NilFunc()
}

func (x *Exec) sliceOp(fr *Frame, st *State, i *ssa.Slice) {
	w := x.w
	xv := x.get(fr, i.X)
	lo, hi := Int(0), (*Term)(nil)
	if i.Low != nil {
		lo = x.getT(fr, i.Low)
	}
	if i.High != nil {
		hi = x.getT(fr, i.High)
	}
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := x.term(xv, i.X.Type())
		n := App("strlen", s)
		if hi == nil {
			hi = n
		}
		g := And(Le(Int(0), lo), Le(lo, hi), Le(hi, n))
		if x.C != nil && x.C.Safe {
			x.oblige(st, "safe", "substring within bounds", g, i.Pos())
		}
		x.assume(st, g)
		r := AppN("substr", SStr, s, lo, hi)
		x.assume(st, Eq(App("strlen", r), Sub(hi, lo)))
		x.assume(st, Implies(And(Eq(lo, Int(0)), Eq(hi, n)), Eq(r, s)))
		fr.env[i] = r
		return
	}
	if _, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		// slicing an array: used for variadic arguments and literals
		a := x.toAddr(xv, i.X.Type())
		at := deref(i.X.Type()).Underlying().(*types.Array)
		if lo != Int(0) || hi != nil && hi != Int(at.Len()) {
			x.unsup("partial slice of an array")
		}
		// copy of the array's contents at this point; the array variable is not otherwise used
		arr := x.term(x.load(st, a, deref(i.X.Type())), deref(i.X.Type()))
		r := x.newRef(st)
		k := w.elemKey(at.Elem())
		st.heap[k] = Store(x.hget(st, k), r, arr)
		if i.Max != nil {
			x.unsup("3-index slice")
		}
		fr.env[i] = MkDT(SSlice, r, Int(at.Len()), Int(at.Len()))
		return
	}
	s := x.term(xv, i.X.Type())
	if hi == nil {
		hi = Sel(s, 1)
	}
	capT := Sel(s, 2)
	if i.Max != nil {
		capT = x.getT(fr, i.Max)
	}
	g := And(Le(Int(0), lo), Le(lo, hi), Le(hi, capT))
	if x.C != nil && x.C.Safe {
		x.oblige(st, "safe", "slice bounds", g, i.Pos())
	}
	x.assume(st, g)
	if lo == Int(0) {
		fr.env[i] = MkDT(SSlice, Sel(s, 0), hi, capT)
		return
	}
	// value snapshot of s[lo:hi]
	el := i.X.Type().Underlying().(*types.Slice).Elem()
	k := w.elemKey(el)
	h := x.hget(st, k)
	r := x.newRef(st)
	src := Select(h, Sel(s, 0))
	na := Fresh("view", src.Sort)
	q := BVar("i", SInt)
	x.assume(st, Forall([]*Term{q}, Implies(And(Le(Int(0), q), Lt(q, Sub(hi, lo))), Eq(Select(na, q), Select(src, Add(q, lo)))), []*Term{Select(na, q)}))
	// and in the other direction, for sources known by index
	x.assume(st, Forall([]*Term{q}, Implies(And(Le(lo, q), Lt(q, hi)), Eq(Select(src, q), Select(na, Sub(q, lo)))), []*Term{Select(src, q)}))
	st.heap[k] = Store(h, r, na)
	x.trusted["subslices with a non-zero lower bound are value snapshots (aliasing writes through them are not tracked, except as the destination of copy)"] = true
	v := MkDT(SSlice, r, Sub(hi, lo), Sub(capT, lo))
	x.views()[v] = viewOf{base: s, lo: lo, el: el}
	fr.env[i] = v
}

type viewOf struct {
	base, lo *Term
	el       types.Type
}

var viewTab = map[*Term]viewOf{}

func (x *Exec) views() map[*Term]viewOf { return viewTab }

func (x *Exec) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) {
	v := x.getT(fr, i.X)
	t := i.AssertedType
	if types.IsInterface(t) {
		nn := Not(Eq(v, NilIface()))
		var ok *Term = AppN("implements."+typeKey(t), SBool, App("tagOf", v))
		if types.AssignableTo(i.X.Type(), t) {
			ok = nn
		} else {
			ok = And(nn, ok)
		}
		if i.CommaOk {
			fr.env[i] = Tuple{Ite(ok, v, NilIface()), ok}
		} else {
			x.assume(st, ok)
			fr.env[i] = v
		}
		return
	}
	ok := Eq(App("tagOf", v), tagOfType(t))
	if v.Op == "app" && strings.HasPrefix(v.Name, "box.") {
		ok = Bool(v.Name == "box."+typeKey(t))
	}
	u := x.unbox(v, t)
	// a value with this tag is a boxed value
	if !(v.Op == "app" && strings.HasPrefix(v.Name, "box.")) {
		x.assume(st, Implies(ok, Eq(v, x.box(u, t))))
	}
	x.wfv(st, u, t)
	if i.CommaOk {
		fr.env[i] = Tuple{Ite(ok, u, x.w.zero(t)), ok}
	} else {
		x.assume(st, ok)
		fr.env[i] = u
	}
}

var _ = sort.Strings
var _ = constant.MakeBool

// immGlobal: package variables that only their package's initialisation assigns are constants for
// every function except that initialisation itself.
func (x *Exec) immGlobal(g *ssa.Global) bool {
	if !x.w.immut[g] {
		return false
	}
	return x.fn == nil || x.fn.Synthetic != "package initializer" || x.fn.Pkg != g.Pkg
}
