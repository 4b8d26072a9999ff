package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// envFor builds the specification environment of a contract.
func (x *Exec) envFor(c *Contract, fn *ssa.Function, sig *types.Signature, recv *Term, args []Val, ats []types.Type, st, old *State) *Env {
	e := &Env{s: x.S, x: x, vars: map[string]SV{}, st: st, old: old}
	if fn != nil && fn.Pkg != nil {
		e.pkg = fn.Pkg.Pkg
	} else if fn != nil && fn.Parent() != nil {
		p := fn
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg != nil {
			e.pkg = p.Pkg.Pkg
		}
	}
	k := 0
	if recv != nil {
		if len(c.Params) > len(args) {
			e.vars[c.Params[0]] = SV{recv, types.NewInterfaceType(nil, nil)}
			k = 1
		}
	}
	for i, a := range args {
		if i+k >= len(c.Params) {
			break
		}
		n := c.Params[i+k]
		if n == "_" {
			continue
		}
		e.vars[n] = SV{x.term(a, ats[i]), ats[i]}
	}
	return e
}

func (x *Exec) bindCaptures(e *Env, c *Contract, fn *ssa.Function, binds []Val, st *State) {
	for i, n := range c.Captures {
		if i >= len(binds) || fn == nil || i >= len(fn.FreeVars) {
			break
		}
		if n == "_" {
			continue
		}
		fv := fn.FreeVars[i]
		switch b := binds[i].(type) {
		case *Addr:
			if v, ok := st.cells[b.cell]; ok && b.kind == "cell" {
				if t, ok := v.(*Term); ok {
					e.vars[n] = SV{t, b.cell.typ}
				} else if f, ok := v.(*FuncVal); ok {
					e.vars[n] = SV{x.funcTerm(f), b.cell.typ}
				}
			} else if b.kind == "heap" {
				e.vars[n] = SV{b.ref, fv.Type()}
			}
		case *Term:
			e.vars[n] = SV{b, fv.Type()}
		}
	}
}

func (x *Exec) bindResults(e *Env, c *Contract, v Val, rt types.Type) {
	if v == nil || rt == nil {
		return
	}
	set := func(i int, t *Term, ty types.Type) {
		if i < len(c.Results) {
			e.vars[c.Results[i]] = SV{t, ty}
		}
		e.vars[fmt.Sprintf("result%d", i)] = SV{t, ty}
		if i == 0 {
			e.vars["result"] = SV{t, ty}
		}
	}
	if tt, ok := rt.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return
		}
		if tv, ok := v.(Tuple); ok {
			for i := 0; i < tt.Len(); i++ {
				set(i, x.term(tv[i], tt.At(i).Type()), tt.At(i).Type())
			}
			return
		}
		set(0, x.term(v, tt.At(0).Type()), tt.At(0).Type())
		return
	}
	set(0, x.term(v, rt), rt)
}

type modLoc struct {
	key string
	ref *Term // nil: whole variable
}

func (x *Exec) modLocs(e *Env, c *Contract) []modLoc {
	var out []modLoc
	w := x.w
	for _, m := range c.Modifies {
		switch m.Op {
		case "ident":
			if gt, ok := x.S.ghosts[m.Name]; ok {
				k := "ghost:" + m.Name
				if _, ok := w.keySort[k]; !ok {
					w.keySort[k] = w.sortOf(x.S.typeOf(gt, e.pkg))
				}
				out = append(out, modLoc{key: k})
				continue
			}
			if e.pkg != nil {
				if o, ok := e.pkg.Scope().Lookup(m.Name).(*types.Var); ok {
					for _, sp := range w.prog.AllPackages() {
						if sp.Pkg == o.Pkg() {
							if g, ok := sp.Members[o.Name()].(*ssa.Global); ok {
								out = append(out, modLoc{key: w.globalKey(g)})
							}
						}
					}
					continue
				}
			}
			sErr("modifies %s", m.Name)
		case "field":
			// p.f  or  Type.f (all objects)
			if m.Args[0].Op == "field" && m.Args[0].Args[0].Op == "ident" {
				if p := w.byName[m.Args[0].Args[0].Name]; p != nil {
					if tn, ok := p.Scope().Lookup(m.Args[0].Name).(*types.TypeName); ok {
						if e.vars[m.Args[0].Args[0].Name].t == nil {
							out = append(out, modLoc{key: x.fieldKeyByName(tn.Type(), m.Name)})
							continue
						}
					}
				}
			}
			b := e.eval(m.Args[0])
			if _, ok := b.typ.Underlying().(*types.Pointer); !ok {
				// nested struct field: the whole containing heap field is modified
				mm := m.Args[0]
				for mm.Op == "field" {
					bb := e.eval(mm.Args[0])
					if p, ok := bb.typ.Underlying().(*types.Pointer); ok {
						out = append(out, modLoc{x.fieldKeyByName(p.Elem(), mm.Name), bb.t})
						break
					}
					mm = mm.Args[0]
				}
				continue
			}
			if m.Name == "all" {
				el := deref(b.typ)
				st := el.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					out = append(out, modLoc{w.fieldKey(el, i), b.t})
				}
				continue
			}
			out = append(out, modLoc{x.fieldKeyByName(deref(b.typ), m.Name), b.t})
		case "call":
			switch m.Name {
			case "elems":
				b := e.eval(m.Args[0])
				out = append(out, modLoc{w.elemKey(b.typ.Underlying().(*types.Slice).Elem()), Sel(b.t, 0)})
				continue
			case "contents":
				b := e.eval(m.Args[0])
				if _, ok := b.typ.Underlying().(*types.Map); ok {
					d, v, c := w.mapKeys(b.typ)
					out = append(out, modLoc{d, b.t}, modLoc{v, b.t}, modLoc{c, b.t})
					continue
				}
				sErr("contents of %v", b.typ)
			case "elemheap":
				t := x.S.typeOf(m.T, e.pkg)
				out = append(out, modLoc{key: w.elemKey(t)})
				continue
			case "fieldheap":
				i := strings.LastIndex(m.T, ".")
				t := x.S.typeOf(m.T[:i], e.pkg)
				out = append(out, modLoc{key: x.fieldKeyByName(t, m.T[i+1:])})
				continue
			}
			sErr("modifies %s", m.Name)
		case "un":
			b := e.eval(m.Args[0])
			el := deref(b.typ)
			if st, ok := el.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					out = append(out, modLoc{w.fieldKey(el, i), b.t})
				}
			} else {
				out = append(out, modLoc{w.cellKey(el), b.t})
			}
		default:
			sErr("modifies clause")
		}
	}
	return out
}
func (x *Exec) fieldKeyByName(t types.Type, f string) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		sErr("%v is not a struct", t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return x.w.fieldKey(t, i)
		}
	}
	sErr("no field %s in %v", f, t)
	return ""
}

func (x *Exec) applyContract(fr *Frame, st *State, c *Contract, fn *ssa.Function, args []Val, binds []Val, ats []types.Type, rt types.Type, pos token.Pos) Val {
	return x.applyContract2(fr, st, c, fn, nil, nil, args, binds, ats, rt, pos)
}
func (x *Exec) applyContract2(fr *Frame, st *State, c *Contract, fn *ssa.Function, sig *types.Signature, recv *Term, args []Val, binds []Val, ats []types.Type, rt types.Type, pos token.Pos) (res Val) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				x.unsup("contract %s does not fit its use: %s", c.Key, string(s))
			}
			panic(r)
		}
	}()
	if c.Trusted && c.Kind != "send" && c.Kind != "recv" {
		x.trusted["contract of "+c.Key+" is assumed, not verified"] = true
	}
	pre := st.clone()
	e := x.envFor(c, fn, sig, recv, args, ats, pre, pre)
	if e.pkg == nil && x.fn != nil && x.fn.Pkg != nil {
		e.pkg = x.fn.Pkg.Pkg
	}
	x.bindCaptures(e, c, fn, binds, pre)
	for _, l := range c.Lets {
		e.vars[l.Name] = e.eval(l.E)
	}
	for i, r := range c.Requires {
		lb := r.Label
		if lb == "" {
			lb = fmt.Sprintf("#%d", i+1)
		}
		g := e.Bool(r.E)
		x.oblige(st, "requires", fmt.Sprintf("precondition %s of %s", lb, c.Key), g, pos)
		x.assume(st, g)
	}
	if c.NoReturn {
		st.reach = False
		return x.deadVal(rt)
	}
	for i, ce := range c.Calls {
		f := e.eval(ce.E)
		sg, ok := f.typ.Underlying().(*types.Signature)
		if !ok {
			sErr("calls %v: not a function", f.typ)
		}
		was := Fresh("called", SBool)
		nm := ce.Label
		if nm == "" {
			nm = "called"
		}
		e.vars[nm] = SV{was, types.Typ[types.Bool]}
		a := st.clone()
		b := st.clone()
		a.reach = And(a.reach, was)
		b.reach = And(b.reach, Not(was))
		var as []Val
		var ats2 []types.Type
		for k := 0; k < sg.Params().Len(); k++ {
			t := sg.Params().At(k).Type()
			as = append(as, x.freshVal(a, "cb", t))
			ats2 = append(ats2, t)
		}
		var rt2 types.Type
		switch sg.Results().Len() {
		case 0:
		case 1:
			rt2 = sg.Results().At(0).Type()
		default:
			rt2 = sg.Results()
		}
		x.callTerm(fr, a, f.t, f.typ, as, ats2, rt2, fmt.Sprintf("cb%d", i), pos)
		m := x.merge([]*State{a, b})
		*st = *m.clone()
	}
	if c.ModAll {
		x.havocAll(st)
		for _, m := range x.modLocs(e, c) {
			if strings.HasPrefix(m.key, "ghost:") {
				st.heap[m.key] = Fresh("h."+m.key, x.w.keySort[m.key])
			}
		}
	} else {
		byKey := map[string][]*Term{}
		whole := map[string]bool{}
		for _, m := range x.modLocs(e, c) {
			if m.ref == nil {
				whole[m.key] = true
			}
			byKey[m.key] = append(byKey[m.key], m.ref)
		}
		var ks []string
		for k := range byKey {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		na := Fresh("alloc", SInt)
		x.assume(st, Le(st.alloc, na))
		st.alloc = na
		for _, k := range ks {
			h := x.hget(st, k)
			if whole[k] {
				st.heap[k] = x.freshHeap(st, k)
				continue
			}
			for _, r := range byKey[k] {
				_, es, _ := splitArr(x.w.keySort[k])
				nv := Fresh("mod."+k, es)
				if t := x.w.keyType[k]; t != nil && x.w.keyKind[k] == "field" {
					for _, g := range x.w.wf(nv, t, st.alloc, 1) {
						x.assume(st, g)
					}
				}
				h = Store(h, r, nv)
			}
			st.heap[k] = h
		}
	}
	// closures passed to the callee may have been called
	if len(c.Calls) == 0 && !c.Pure {
		for _, a := range args {
			x.havocBinds(st, a)
			switch a := a.(type) {
			case *FuncVal:
				for k, b := range a.binds {
					if bt, ok := b.(*Term); ok && !closureReadsOnly(a.fn, a.fn.FreeVars[k]) {
						if pt, ok := a.fn.FreeVars[k].Type().(*types.Pointer); ok {
							x.heapWrite(st, &Addr{kind: "heap", ref: bt, typ: pt.Elem()}, Fresh("hv", x.w.sortOf(pt.Elem())))
						}
					}
				}
			case *Term:
				x.havocClosures(st, a)
			}
		}
	}
	var v Val
	if rt != nil {
		if c.Pure {
			v = x.pureResult(e, c, args, ats, recv, pre, rt, st)
		} else {
			v = x.freshVal(st, "res."+short(c.Key), rt)
		}
	}
	e2 := *e
	e2.st = st
	e2.old = pre
	e2.vars = map[string]SV{}
	for k, vv := range e.vars {
		e2.vars[k] = vv
	}
	x.bindResults(&e2, c, v, rt)
	for _, en := range c.Ensures {
		if en.Local {
			continue
		}
		x.assume(st, e2.Bool(en.E))
	}
	if tt, ok := v.(Tuple); ok && len(tt) == 1 {
		if rtt, ok := rt.(*types.Tuple); ok && rtt.Len() == 1 {
			return tt[0]
		}
	}
	return v
}
func short(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (x *Exec) pureResult(e *Env, c *Contract, args []Val, ats []types.Type, recv *Term, st *State, rt types.Type, post *State) Val {
	var ts []*Term
	if recv != nil {
		ts = append(ts, recv)
	}
	pe := &Env{s: x.S, x: x, st: st, old: st}
	for i, a := range args {
		ts = append(ts, pe.pureArg(SV{x.term(a, ats[i]), ats[i]})...)
	}
	one := func(i int, t types.Type) *Term {
		n := "ext." + c.Key
		if i > 0 {
			n += fmt.Sprintf("#%d", i)
		}
		v := AppN(n, x.w.sortOf(t), ts...)
		for _, g := range x.w.wf(v, t, post.alloc, 0) {
			x.assume(post, g)
		}
		return v
	}
	if tt, ok := rt.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return nil
		}
		if tt.Len() == 1 {
			return one(0, tt.At(0).Type())
		}
		var r Tuple
		for i := 0; i < tt.Len(); i++ {
			r = append(r, one(i, tt.At(i).Type()))
		}
		return r
	}
	return one(0, rt)
}

// applyPure gives meaning to calling a pure function value in a specification.
func (x *Exec) applyPure(e *Env, f SV, args []SV) SV {
	sig, ok := f.typ.Underlying().(*types.Signature)
	if !ok {
		sErr("apply on %v", f.typ)
	}
	rt := sig.Results().At(0).Type()
	var ts []*Term
	ts = append(ts, f.t)
	for _, a := range args {
		ts = append(ts, e.pureArg(a)...)
	}
	return SV{AppN("apply."+pureKey(sig), x.w.sortOf(rt), ts...), rt}
}

// ---------- loop candidates from contracts
func (x *Exec) specCands(fr *Frame, l *natLoop, li *LoopInfo, phis []*ssa.Phi, entryPhi, hdPhi map[*ssa.Phi]Val, entry, hd *State, add func(string, func(*LoopCtx) *Term)) {
	if x.C == nil {
		return
	}
	type src struct {
		name string
		typ  types.Type
		get  func(c *LoopCtx) *Term
	}
	var mut, scope, outerPhis []src
	for pi, p := range phis {
		p := p
		if _, ok := hdPhi[p].(*Term); ok {
			mut = append(mut, src{fmt.Sprintf("phi%d", pi), p.Type(), func(c *LoopCtx) *Term { return c.term(p) }})
		}
	}
	var cs []*Cell
	for c, v := range hd.cells {
		if _, ok := v.(*Term); ok {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	ord := 0
	for _, cell := range cs {
		cell := cell
		if strings.HasPrefix(cell.name, "rebound") {
			continue
		}
		ord++
		s := src{fmt.Sprintf("cell%d(%s)", ord, cell.name), cell.typ, func(c *LoopCtx) *Term {
			return x.cellByName(c.st, cell)
		}}
		if li.modc[cell.name] {
			mut = append(mut, s)
		} else {
			scope = append(scope, s)
		}
	}
	seen := map[*Term]bool{}
	depth := -1
	for f := fr; f != nil; f = f.parent {
		f := f
		depth++
		up := depth
		var vs []ssa.Value
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool {
			if vs[i].Name() != vs[j].Name() {
				return vs[i].Name() < vs[j].Name()
			}
			return vs[i].Pos() < vs[j].Pos()
		})
		for _, v := range vs {
			if p, ok := v.(*ssa.Phi); ok && f == fr && p.Block() == l.header {
				continue
			}
			t, ok := f.env[v].(*Term)
			if !ok || t.isLit() {
				continue
			}
			if seen[t] {
				continue
			}
			in, isI := v.(ssa.Instruction)
			if isI && f == fr && l.blocks[in.Block()] {
				continue // defined inside this loop
			}
			if isI && f == fr && !in.Block().Dominates(l.header) {
				continue
			}
			seen[t] = true
			v := v
			src1 := src{fmt.Sprintf("val %d.%s", up, v.Name()), v.Type(), func(c *LoopCtx) *Term {
				ff := c.fr
				for k := 0; k < up && ff != nil; k++ {
					ff = ff.parent
				}
				if ff == nil {
					x.unsup("no frame")
				}
				t, ok := ff.env[v].(*Term)
				if !ok {
					x.unsup("no term")
				}
				return t
			}}
			scope = append(scope, src1)
			if p, ok := v.(*ssa.Phi); ok && isIntT(p.Type()) {
				outerPhis = append(outerPhis, src1)
			}
		}
	}
	// the visited set of map iterations
	for _, cell := range cs {
		_ = cell
	}
	mkEnv := func(c *LoopCtx, vals map[string]SV) *Env {
		e := &Env{s: x.S, x: x, vars: map[string]SV{}, st: c.st, old: x.entry, entry: c.entry}
		for k, v := range x.topVars {
			e.vars[k] = v
		}
		for k, v := range vals {
			e.vars[k] = v
		}
		e.pkg = x.topPkg
		return e
	}
	inst := func(ct CandT, kind string) {
		type choice struct {
			name string
			get  func(c *LoopCtx) *Term
			typ  types.Type
		}
		var doms [][]choice
		total := 1
		for _, b := range ct.Vars {
			t := x.S.typeOf(b.Typ, x.topPkg)
			var pool []src
			if b.Name[0] == '$' {
				pool = append(append([]src{}, mut...), outerPhis...)
			} else {
				pool = append(append([]src{}, mut...), scope...)
			}
			var ds []choice
			for _, s := range pool {
				s := s
				if !typeMatch(x.w, s.typ, t) {
					continue
				}
				ds = append(ds, choice{s.name, s.get, s.typ})
				if isIntT(t) && x.w.sortOf(t) == SInt && b.Name[0] == '$' {
					ds = append(ds, choice{s.name + "+1", func(c *LoopCtx) *Term { return Add(s.get(c), Int(1)) }, s.typ})
				}
			}
			doms = append(doms, ds)
			total *= len(ds)
		}
		if total == 0 || total > 3000 {
			if total > 3000 && debugCand {
				fmt.Println("too many instances of", ct.Text)
			}
			return
		}
		idx := make([]int, len(doms))
		for {
			key := kind + " " + ct.Text
			var ch []choice
			for k := range doms {
				ch = append(ch, doms[k][idx[k]])
				key += " [" + ct.Vars[k].Name + "=" + doms[k][idx[k]].name + "]"
			}
			dup := false
			for i := range ch {
				for j := 0; j < i; j++ {
					if ch[i].name == ch[j].name && ct.Vars[i].Name[0] == '$' && ct.Vars[j].Name[0] == '$' {
						dup = true
					}
				}
			}
			if !dup {
				add(key, func(c *LoopCtx) *Term {
					vals := map[string]SV{}
					for k := range ch {
						vals[ct.Vars[k].Name] = SV{ch[k].get(c), ch[k].typ}
					}
					return mkEnv(c, vals).Bool(ct.E)
				})
			}
			k := 0
			for k < len(idx) {
				idx[k]++
				if idx[k] < len(doms[k]) {
					break
				}
				idx[k] = 0
				k++
			}
			if k == len(idx) {
				break
			}
		}
	}
	for _, ct := range x.C.Cands {
		inst(ct, "cand")
	}
	// requires clauses over the heap stay candidates (they often are preserved)
	for i, r := range x.C.Requires {
		r := r
		add(fmt.Sprintf("requires#%d", i), func(c *LoopCtx) *Term { return mkEnv(c, nil).Bool(r.E) })
	}
}
func typeMatch(w *World, a, b types.Type) bool {
	switch aa := a.(type) {
	case *ArrT:
		bb, ok := b.(*ArrT)
		return ok && types.Identical(aa.Idx, bb.Idx) && types.Identical(aa.Elem, bb.Elem)
	case *OpaqueT:
		bb, ok := b.(*OpaqueT)
		return ok && aa.Name == bb.Name
	}
	switch b.(type) {
	case *ArrT, *OpaqueT:
		return false
	}
	if types.Identical(a, b) {
		return true
	}
	if w.sortOf(a) != w.sortOf(b) {
		return false
	}
	if types.Identical(a.Underlying(), b.Underlying()) {
		return true
	}
	sa, ok1 := a.Underlying().(*types.Slice)
	sb, ok2 := b.Underlying().(*types.Slice)
	if ok1 && ok2 {
		if _, fn := sb.Elem().Underlying().(*types.Signature); fn {
			return types.Identical(sa.Elem().Underlying(), sb.Elem().Underlying())
		}
		return types.Identical(sa.Elem(), sb.Elem())
	}
	if isIntT(a) && isIntT(b) {
		return true
	}
	return false
}

// ---------- locks
func lockKey(t types.Type, f string) string { return "LK:" + typeKey(t) + "." + f }

// lockOf resolves the receiver of Lock/Unlock to (key, ref).
func (x *Exec) lockOf(v Val) (string, *Term, types.Type, string) {
	switch a := v.(type) {
	case *Addr:
		if a.kind == "heap" && len(a.path) == 1 {
			f := a.typ.Underlying().(*types.Struct).Field(a.path[0].field).Name()
			return lockKey(a.typ, f), a.ref, a.typ, f
		}
		if a.kind == "global" && len(a.path) == 0 {
			return "LK:global." + a.g.Name(), Int(0), nil, ""
		}
	case *Term:
		if a.Op == "select" && a.Args[0].Op == "const" || a.Op == "select" {
			b := a.Args[0]
			for b.Op == "store" {
				b = b.Args[0]
			}
			n := b.Name
			n = strings.TrimPrefix(n, "h.")
			if strings.HasPrefix(n, "H:") {
				n = n[2:]
				if i := strings.LastIndexAny(n, "@!"); i > 0 {
					n = n[:i]
				}
				i := strings.LastIndex(n, ".")
				for _, g := range x.S.guards {
					if g.Type == n[:i] && g.Lock == n[i+1:] {
						return "LK:" + n, a.Args[1], nil, g.Lock
					}
				}
				return "LK:" + n, a.Args[1], nil, n[i+1:]
			}
		}
	}
	return "", nil, nil, ""
}
func (x *Exec) lockOp(st *State, v Val, op string, pos token.Pos) {
	k, ref, _, _ := x.lockOf(v)
	if k == "" {
		return
	}
	x.registerKey(k, arrSort(SInt, SInt))
	h := x.hget(st, k)
	cur := Select(h, ref)
	switch op {
	case "Lock", "RLock":
		n := int64(2)
		if op == "RLock" {
			n = 1
		}
		if x.C != nil && x.C.Locks {
			x.oblige(st, "lock", "lock "+k[3:]+" is not already held when acquired", Eq(cur, Int(0)), pos)
		}
		st.heap[k] = Store(h, ref, Int(n))
		// a second critical section may observe changes by other threads
		ck := "LC:" + k[3:]
		x.registerKey(ck, arrSort(SInt, SInt))
		ch := x.hget(st, ck)
		cnt := Select(ch, ref)
		st.heap[ck] = Store(ch, ref, Add(cnt, Int(1)))
		if x.C != nil && x.C.Locks {
			for _, g := range x.S.guards {
				if "LK:"+g.Type+"."+g.Lock != k {
					continue
				}
				var fs []string
				for f := range g.Fields {
					fs = append(fs, f)
				}
				sort.Strings(fs)
				t := x.S.typeOf(g.Type, nil)
				for _, f := range fs {
					if gt, ok := x.S.ghosts[f]; ok { // ghost state protected by the lock
						gk := "ghost:" + f
						gs := x.w.sortOf(x.S.typeOf(gt, x.topPkg))
						x.registerKey(gk, gs)
						o := x.hget(st, gk)
						st.heap[gk] = Ite(Eq(cnt, Int(0)), o, Fresh("interfered."+f, o.Sort))
						continue
					}
					fk := x.fieldKeyByName(t, f)
					fh := x.hget(st, fk)
					o := Select(fh, ref)
					nv := Ite(Eq(cnt, Int(0)), o, Fresh("interfered."+f, o.Sort))
					st.heap[fk] = Store(fh, ref, nv)
				}
			}
		}
	case "Unlock", "RUnlock":
		if x.C != nil && x.C.Locks {
			x.oblige(st, "lock", "lock "+k[3:]+" is held when released", Not(Eq(cur, Int(0))), pos)
		}
		st.heap[k] = Store(h, ref, Int(0))
	}
}
func (x *Exec) lockCheck(st *State, a *Addr, write bool) {
	if x.C == nil || !x.C.Locks || len(a.path) == 0 || x.S == nil {
		return
	}
	s, ok := a.typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	f := s.Field(a.path[0].field).Name()
	tk := typeKey(a.typ)
	for _, g := range x.S.guards {
		if g.Type == tk && g.Fields[f] {
			k := "LK:" + tk + "." + g.Lock
			x.registerKey(k, arrSort(SInt, SInt))
			cur := Select(x.hget(st, k), a.ref)
			need := Not(Eq(cur, Int(0)))
			if write {
				need = Eq(cur, Int(2))
			}
			what := "read"
			if write {
				what = "write"
			}
			x.oblige(st, "lock", fmt.Sprintf("%s of %s.%s only under %s", what, tk, f, g.Lock), Or(need, Le(x.entry.alloc, a.ref)), token.NoPos)
		}
	}
}

// ---------- verification of one contract
type FnResult struct {
	Contract    *Contract
	Fn          *ssa.Function
	Obls        []*OblResult
	Unsupported string
	Inlined     []string
	Trusted     []string
	Used        []string
	Rounds      int
	Loops       int
	Invariants  int
	Queries     int64
	SolverSecs  float64
	Vacuous     string
	DeadCands   []string
	Secs        float64
}
type OblResult struct {
	O *Obl
	V Verdict
	Q *Query
}

func (x *Exec) reset() {
	x.facts = nil
	x.obls = nil
	x.cellN = 0
	x.epN = 0
	x.steps = 0
	x.stack = nil
	x.volatile = map[string]bool{}
	x.meant, x.pureReads, x.readLog = nil, nil, nil
}

// symbolic run of the contract's function
func (x *Exec) runOnce() {
	w := x.w
	x.reset()
	c, fn := x.C, x.fn
	st := &State{reach: True, cells: map[*Cell]Val{}, heap: map[string]*Term{}, alloc: Const("alloc0", SInt)}
	x.epN = 0
	st.ep = &Epoch{id: 0}
	x.facts = append(x.facts, Lt(Int(0), st.alloc))
	x.entry = st
	for _, g := range x.S.guards {
		k := "LK:" + g.Type + "." + g.Lock
		x.registerKey(k, arrSort(SInt, SInt))
		st.heap[k] = ConstArr(arrSort(SInt, SInt), Int(0))
		ck := "LC:" + g.Type + "." + g.Lock
		x.registerKey(ck, arrSort(SInt, SInt))
		st.heap[ck] = ConstArr(arrSort(SInt, SInt), Int(0))
	}
	var args []Val
	var ats []types.Type
	for i, p := range fn.Params {
		n := fmt.Sprintf("p%d", i)
		if i < len(c.Params) {
			n = c.Params[i]
		}
		if isPtrToOpaque(w, p.Type()) {
			v := Const("arg."+n, SInt)
			x.facts = append(x.facts, And(Le(Int(0), v), Lt(v, st.alloc)))
			args = append(args, v)
		} else {
			v := Const("arg."+n, w.sortOf(p.Type()))
			for _, f := range w.wf(v, p.Type(), st.alloc, 2) {
				x.facts = append(x.facts, f)
			}
			args = append(args, v)
		}
		ats = append(ats, p.Type())
	}
	var binds []Val
	for i, fv := range fn.FreeVars {
		pt, ok := fv.Type().(*types.Pointer)
		if !ok || !x.capturedByValue(fn, i) {
			v := Const(fmt.Sprintf("fv.%d", i), w.sortOf(fv.Type()))
			x.facts = append(x.facts, w.wf(v, fv.Type(), st.alloc, 2)...)
			binds = append(binds, v)
			continue
		}
		x.cellN++
		cell := &Cell{id: x.cellN, typ: pt.Elem(), name: fmt.Sprintf("captured:%d", i)}
		n := fmt.Sprintf("cap.%d", i)
		v := Const(n, w.sortOf(pt.Elem()))
		for _, f := range w.wf(v, pt.Elem(), st.alloc, 2) {
			x.facts = append(x.facts, f)
		}
		st.cells[cell] = v
		binds = append(binds, &Addr{kind: "cell", cell: cell, typ: pt.Elem()})
	}
	// a closure captured by itself resolves to itself
	for i := range fn.FreeVars {
		if mc := soleClosure(fn, i); mc != nil && mc.Fn == fn && x.singleAssign(fn, i) {
			if a, ok := binds[i].(*Addr); ok && a.kind == "cell" {
				st.cells[a.cell] = &FuncVal{fn: fn, binds: binds}
			}
		}
	}
	x.args = args
	x.cur = st
	entry := st.clone()
	x.entry = entry
	e := x.envFor(c, fn, fn.Signature, nil, args, ats, entry, entry)
	x.bindCaptures(e, c, fn, binds, entry)
	x.topVars, x.topPkg = e.vars, e.pkg
	for _, l := range c.Lets {
		e.vars[l.Name] = e.eval(l.E)
	}
	for _, r := range c.Requires {
		x.facts = append(x.facts, e.Bool(r.E))
	}
	for _, r := range c.Sets {
		x.facts = append(x.facts, e.Bool(r.E))
	}
	for _, u := range c.Uses {
		for _, f := range x.useLemma(e, u) {
			x.facts = append(x.facts, f)
		}
	}
	x.nPre = len(x.facts)
	x.permitted = map[string][]*Term{}
	if !c.ModAll {
		for _, m := range x.modLocs(e, c) {
			if m.ref != nil {
				x.permitted[m.key] = append(x.permitted[m.key], m.ref)
			}
		}
	}
	st = entry.clone()
	fr := x.execFunc(fn, args, binds, st, nil, "")
	if len(fr.rets) == 0 && !c.NoReturn {
		x.unsup("no return is reachable")
	}
	x.retReach = nil
	for ri, r := range fr.rets {
		if r.st.reach == False {
			continue
		}
		x.cur = r.st
		x.retReach = append(x.retReach, r.st.reach)
		e2 := *e
		e2.st = r.st
		e2.old = entry
		e2.vars = map[string]SV{}
		for k, v := range e.vars {
			e2.vars[k] = v
		}
		if len(binds) > 0 {
			// captured variables: plain name is the value at return, old(name) unsupported
			x.bindCaptures(&e2, c, fn, binds, r.st)
			for i, n := range c.Captures {
				if n != "_" && i < len(binds) {
					if v, ok := e.vars[n]; ok {
						e2.vars[n+"0"] = v
					}
				}
			}
		}
		var rt types.Type
		rs := fn.Signature.Results()
		if rs.Len() == 1 {
			rt = rs.At(0).Type()
		} else {
			rt = rs
		}
		x.bindResults(&e2, c, r.val, rt)
		if c.NoReturn {
			x.oblige(r.st, "ensures", "does not return", False, r.pos)
		}
		for i, en := range c.Ensures {
			lb := en.Label
			if lb == "" {
				lb = fmt.Sprintf("#%d", i+1)
			}
			g := e2.Bool(en.E)
			x.oblige(r.st, "ensures", lb, g, r.pos)
			x.obls[len(x.obls)-1].Label = lb
			if en.Local {
				x.assume(r.st, g) // a stepping stone for what follows
			}
		}
		_ = ri
		x.frameObls(e, c, entry, r.st, r.pos)
	}
}

func isPtrToOpaque(w *World, t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && w.isOpaqueStruct(p.Elem())
}

func (x *Exec) frameObls(e *Env, c *Contract, entry, st *State, pos token.Pos) {
	if c.ModAll {
		return
	}
	if st.ep != entry.ep {
		x.oblige(st, "frame", "function modifies only what its contract allows (unknown code was called)", False, pos)
		return
	}
	mods := x.modLocs(e, c)
	whole := map[string]bool{}
	refs := map[string][]*Term{}
	for _, m := range mods {
		if m.ref == nil {
			whole[m.key] = true
		} else {
			refs[m.key] = append(refs[m.key], m.ref)
		}
	}
	var ks []string
	for k := range st.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := st.heap[k]
		o := x.hget(entry, k)
		if v == o || whole[k] {
			continue
		}
		if strings.HasPrefix(k, "LC:") {
			continue
		}
		if strings.HasPrefix(k, "LK:") {
			if c.Locks {
				r := BVar("r", SInt)
				x.oblige(st, "lock", "lock "+k[3:]+" is released on return", Forall([]*Term{r}, Eq(Select(v, r), Select(o, r)), []*Term{Select(v, r)}), pos)
			}
			continue
		}
		if strings.HasPrefix(k, "CH:") {
			continue
		}
		if x.w.keyKind[k] == "global" || strings.HasPrefix(k, "ghost:") {
			x.oblige(st, "frame", "frame: "+k+" unchanged", Eq(v, o), pos)
			continue
		}
		r := BVar("r", SInt)
		conds := []*Term{Lt(r, entry.alloc)}
		for _, rr := range refs[k] {
			conds = append(conds, Not(Eq(r, rr)))
		}
		x.oblige(st, "frame", "frame: only the permitted objects of "+k+" change", Forall([]*Term{r}, Implies(And(conds...), Eq(Select(v, r), Select(o, r))), []*Term{Select(v, r)}), pos)
	}
}

func (x *Exec) tryRun() (err string, restart bool) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case Restart:
				restart = true
			case Unsupported:
				err = v.msg
			case specErr:
				err = "specification: " + string(v)
			default:
				panic(r)
			}
		}
	}()
	x.runOnce()
	return
}

func NewExec(w *World, s *SpecSet, c *Contract, fn *ssa.Function) *Exec {
	return &Exec{w: w, S: s, C: c, fn: fn, loops: map[string]*LoopInfo{}, promote: map[string]bool{}, used: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, volatile: map[string]bool{}}
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
