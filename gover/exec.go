package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}
type Tuple []Val

type Cell struct {
	id   int
	typ  types.Type
	name string
}
type FuncVal struct {
	fn    *ssa.Function
	binds []Val
}
type PStep struct {
	field int // >=0 field
	idx   *Term
	typ   types.Type // type of the container
}
type Addr struct {
	kind string // cell heap elem global unk
	cell *Cell
	ref  *Term
	typ  types.Type
	idx  *Term
	g    *ssa.Global
	path []PStep
}
type MapIter struct {
	m       *Term
	typ     types.Type
	visited *Cell
	str     bool
	dom0 *Term // the keys at the start
}

type Epoch struct {
	id   int
	cond *Term
	a, b *Epoch
}

type State struct {
	reach *Term
	cells map[*Cell]Val
	heap  map[string]*Term
	ep    *Epoch
	alloc *Term
}

func (s *State) clone() *State {
	n := &State{reach: s.reach, cells: make(map[*Cell]Val, len(s.cells)), heap: make(map[string]*Term, len(s.heap)), ep: s.ep, alloc: s.alloc}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

type Obl struct {
	Label  string
	Kind   string // ensures requires frame safe inv lock
	Goal   *Term
	Reach  *Term
	NFacts int
	Cand   *Cand
	Prop   string
	Pos    string
	Fn     string
}

type Cand struct {
	Key   string
	Build func(c *LoopCtx) *Term
	Dead  bool
}
type LoopCtx struct {
	phi   map[*ssa.Phi]Val
	ephi  map[*ssa.Phi]Val
	st    *State
	entry *State // state at loop entry
	x     *Exec
	fr    *Frame
}
type LoopInfo struct {
	key     string
	cands   []*Cand
	init    bool
	mod     map[string]bool // heap keys
	modc    map[string]bool // cell names (stable)
	all     bool
	termPhi map[*ssa.Phi]bool
}

type Unsupported struct{ msg string }
type Restart struct{}

type edgeState struct {
	from *ssa.BasicBlock
	st   *State
}
type retRec struct {
	st  *State
	val Val
	pos token.Pos
}
type deferRec struct {
	in     ssa.CallInstruction
	reach  *Term
	fr     *Frame
	args   []Val
	callee Val
}
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	parent *Frame
	chain  string
	defers []deferRec
	rets   []retRec
	loops  map[*ssa.BasicBlock]*natLoop
	depth  int
	unroll string
}
type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	backs  map[*ssa.BasicBlock]bool
}

type Exec struct {
	permitted    map[string][]*Term // what the contract under proof allows to change
	w            *World
	S            *SpecSet
	C            *Contract
	fn           *ssa.Function
	facts        []*Term
	obls         []*Obl
	loops        map[string]*LoopInfo
	promote      map[string]bool
	cellN        int
	entry        *State
	args         []Val
	stack        []*ssa.Function
	used         map[string]bool // contracts / models used
	trusted      map[string]bool
	inlined      map[string]bool
	volatile     map[string]bool
	epN          int
	dry          int
	haveIter     map[*Cell]*MapIter
	locksTouched map[string]*Term
	noSolve      bool
	steps        int
	candN        map[string]int
	specDepth    int
	cur          *State
	topVars      map[string]SV
	topPkg       *types.Package
	nPre         int
	retReach     []*Term
	meant        map[[2]*Term]bool
	readLog      map[string]*Term
	pureReads    map[string][]pureRead
}

func (x *Exec) unsup(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}
func (x *Exec) assume(st *State, f *Term) {
	g := Implies(st.reach, f)
	if g != True {
		x.facts = append(x.facts, g)
	}
}
func (x *Exec) oblige(st *State, kind, label string, goal *Term, pos token.Pos) {
	if x.dry > 0 {
		return
	}
	p := ""
	if pos.IsValid() {
		ps := x.w.prog.Fset.Position(pos)
		p = fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, x.w.repo+"/"), ps.Line)
	}
	parts := splitGoal(goal)
	for i, g := range parts {
		l := label
		if len(parts) > 1 {
			l = fmt.Sprintf("%s.%d", label, i+1)
		}
		x.obls = append(x.obls, &Obl{Label: l, Kind: kind, Goal: g, Reach: st.reach, NFacts: len(x.facts), Pos: p, Fn: x.w.fkey(x.fn)})
	}
}

// splitGoal turns a conjunctive goal into separate obligations.
func splitGoal(g *Term) []*Term {
	switch g.Op {
	case "and":
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, b := range splitGoal(g.Args[1]) {
			out = append(out, Implies(g.Args[0], b))
		}
		return out
	}
	return []*Term{g}
}

func (x *Exec) newEpoch() *Epoch { x.epN++; return &Epoch{id: x.epN} }

func (x *Exec) hget(st *State, key string) *Term {
	if x.readLog != nil {
		x.readLog[key] = nil
	}
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := x.epochTerm(st.ep, key)
	st.heap[key] = t
	return t
}
func (x *Exec) epochTerm(e *Epoch, key string) *Term {
	if e.cond != nil {
		return Ite(e.cond, x.epochTerm(e.a, key), x.epochTerm(e.b, key))
	}
	so := x.w.keySort[key]
	if so == "" {
		panic("no sort for " + key)
	}
	n := fmt.Sprintf("%s@%d", key, e.id)
	c := Const(n, so)
	x.wfHeap(c, key, nil)
	return c
}

// wfHeap registers the well-formedness axioms of a havocked heap constant.
func (x *Exec) wfHeap(c *Term, key string, alloc *Term) {
	if _, done := U.axioms[c.Name]; done {
		return
	}
	if alloc == nil {
		if x.entry == nil || x.entry.ep == nil || !strings.HasSuffix(c.Name, fmt.Sprintf("@%d", x.entry.ep.id)) {
			alloc = nil
		} else {
			alloc = x.entry.alloc
		}
	}
	t := x.w.keyType[key]
	if t == nil {
		return
	}
	var vars []*Term
	v := c
	switch x.w.keyKind[key] {
	case "field":
		r := BVar("r", SInt)
		vars = []*Term{r}
		v = Select(c, r)
	case "elem":
		r, i := BVar("r", SInt), BVar("i", SInt)
		vars = []*Term{r, i}
		v = Select(Select(c, r), i)
	case "global":
	default:
		return
	}
	al := alloc
	if al == nil {
		al = Const("alloc.any", SInt) // unbounded: only lower-bound facts are kept
	}
	fs := x.w.wf(v, t, al, 2)
	var keep []*Term
	for _, f := range fs {
		if alloc == nil && mentions(f, al) {
			continue
		}
		keep = append(keep, f)
	}
	U.axioms[c.Name] = []*Term{}
	if len(keep) == 0 {
		return
	}
	if vars == nil {
		U.axioms[c.Name] = keep
		return
	}
	// one axiom per shape, triggered on the access itself; upper bounds hold for allocated objects only
	var free, bounded []*Term
	for _, f := range keep {
		if mentions(f, al) {
			bounded = append(bounded, f)
		} else {
			free = append(free, f)
		}
	}
	all := append([]*Term{}, free...)
	if len(bounded) > 0 {
		all = append(all, Implies(Lt(vars[0], al), And(bounded...)))
	}
	U.axioms[c.Name] = append(U.axioms[c.Name], Forall(vars, And(all...), []*Term{v}))
}
func mentions(t, s *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == s {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (x *Exec) merge(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	var live []*State
	for _, s := range sts {
		if s.reach != False {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return sts[0]
	}
	if len(live) == 1 {
		return live[0]
	}
	sts = live
	n := sts[len(sts)-1].clone()
	for i := len(sts) - 2; i >= 0; i-- {
		s := sts[i]
		c := s.reach
		n.alloc = Ite(c, s.alloc, n.alloc)
		ks := map[string]bool{}
		for k := range s.heap {
			ks[k] = true
		}
		for k := range n.heap {
			ks[k] = true
		}
		for k := range ks {
			n.heap[k] = Ite(c, x.hget(s, k), x.hget(n, k))
		}
		if s.ep != n.ep {
			n.ep = &Epoch{cond: c, a: s.ep, b: n.ep}
		}
		for cell, v := range s.cells {
			if u, ok := n.cells[cell]; ok {
				n.cells[cell] = x.iteVal(c, v, u, cell.typ)
			} else {
				n.cells[cell] = v
			}
		}
	}
	var rs []*Term
	for _, s := range sts {
		rs = append(rs, s.reach)
	}
	n.reach = Or(rs...)
	return n
}

func sameVal(a, b Val) bool {
	switch p := a.(type) {
	case *Term:
		return a == b
	case *FuncVal:
		q, ok := b.(*FuncVal)
		if !ok || p.fn != q.fn || len(p.binds) != len(q.binds) {
			return false
		}
		for i := range p.binds {
			if !sameVal(p.binds[i], q.binds[i]) {
				return false
			}
		}
		return true
	case *Addr:
		q, ok := b.(*Addr)
		if !ok || p.kind != q.kind || p.cell != q.cell || p.ref != q.ref || p.idx != q.idx || p.g != q.g || len(p.path) != len(q.path) {
			return false
		}
		for i := range p.path {
			if p.path[i].field != q.path[i].field || p.path[i].idx != q.path[i].idx {
				return false
			}
		}
		return true
	case Tuple:
		q, ok := b.(Tuple)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameVal(p[i], q[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return a == b
}
func (x *Exec) iteVal(c *Term, a, b Val, t types.Type) Val {
	if sameVal(a, b) {
		return a
	}
	if ta, ok := a.(Tuple); ok {
		tb := b.(Tuple)
		r := make(Tuple, len(ta))
		tt, _ := t.(*types.Tuple)
		for i := range ta {
			var et types.Type
			if tt != nil {
				et = tt.At(i).Type()
			}
			r[i] = x.iteVal(c, ta[i], tb[i], et)
		}
		return r
	}
	return Ite(c, x.term(a, t), x.term(b, t))
}

// term converts a value to an SMT term.
func (x *Exec) term(v Val, t types.Type) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *FuncVal:
		ft := x.funcTerm(a)
		x.meaning(a, ft)
		return ft
	case *Addr:
		if len(a.path) == 0 {
			switch a.kind {
			case "heap":
				return a.ref
			case "cell":
				if strings.HasPrefix(a.cell.name, "alloc:") && !x.promote[a.cell.name] {
					x.promote[a.cell.name] = true
					panic(Restart{})
				}
			case "global":
				n := "addr." + x.w.globalKey(a.g)
				c := Const(n, SInt)
				if _, ok := U.axioms[n]; !ok {
					U.axioms[n] = []*Term{Lt(Int(0), c)}
				}
				return c
			}
		}
		if a.kind == "unk" {
			return Fresh("unkptr", SInt)
		}
		// interior pointer: opaque, non-nil
		if a.kind == "heap" || a.kind == "elem" {
			n := "interior." + a.kind + "." + typeKey(a.typ)
			for _, p := range a.path {
				n += fmt.Sprintf(".%d", p.field)
			}
			args := []*Term{a.ref}
			if a.idx != nil {
				args = append(args, a.idx)
			}
			p := AppN(n, SInt, args...)
			x.facts = append(x.facts, Lt(Int(0), p))
			return p
		}
		if a.kind == "cell" {
			if !x.promote[a.cell.name] && strings.HasPrefix(a.cell.name, "alloc:") {
				x.promote[a.cell.name] = true
				panic(Restart{})
			}
		}
		if a.kind == "global" {
			n := "addrin." + x.w.globalKey(a.g)
			for _, p := range a.path {
				n += fmt.Sprintf(".%d", p.field)
			}
			return Const(n, SInt)
		}
		x.unsup("cannot turn address into a term: %s", a.kind)
	case nil:
		x.unsup("nil value used as a term (%v)", t)
	}
	x.unsup("cannot turn %T into a term", v)
	return nil
}

func (x *Exec) funcTerm(f *FuncVal) *Term {
	n := "fn:" + x.w.fkey(f.fn)
	if f.fn.Synthetic != "" {
		n = "fn:" + f.fn.String()
	}
	x.w.fnTerm[n] = f.fn
	if len(f.binds) == 0 {
		c := Const(n, SFunc)
		if _, ok := U.axioms[n]; !ok {
			U.axioms[n] = []*Term{Not(Eq(c, NilFunc()))}
		}
		return c
	}
	var args []*Term
	modes := ""
	for i, b := range f.binds {
		fv := f.fn.FreeVars[i]
		if a, ok := b.(*Addr); ok && a.kind == "cell" && len(a.path) == 0 {
			// captured variable: by value if it is never reassigned after capture
			if x.singleAssign(f.fn, i) {
				modes += "v"
				cv := x.cur.cells[a.cell]
				if cv == nil {
					args = append(args, Fresh("capt", x.w.sortOf(a.cell.typ)))
					continue
				}
				args = append(args, x.term(cv, a.cell.typ))
				continue
			}
			if strings.HasPrefix(a.cell.name, "alloc:") && !x.promote[a.cell.name] {
				x.promote[a.cell.name] = true
				panic(Restart{})
			}
			modes += "x"
			x.volatile[a.cell.name] = true
			args = append(args, Fresh("capt", SInt))
			continue
		}
		modes += "r"
		args = append(args, x.term(b, fv.Type()))
	}
	n += "#" + modes
	x.w.fnTerm[n] = f.fn
	t := AppN(n, SFunc, args...)
	x.facts = append(x.facts, Not(Eq(t, NilFunc())))
	return t
}
