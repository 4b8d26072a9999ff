package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	loops := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, backs: map[*ssa.BasicBlock]bool{}}
					loops[s] = l
				}
				l.backs[b] = true
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	return loops
}

// rpo returns the blocks of the region in reverse post-order from entry, ignoring edges back to entry.
func rpo(entry *ssa.BasicBlock, in func(*ssa.BasicBlock) bool) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if in(s) && !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(entry)
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type exitEdge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// runRegion executes the blocks of a region; loopHdr is non-nil when the region is the body of that loop (already cut).
// It returns edges leaving the region and edges back to loopHdr.
func (x *Exec) runRegion(fr *Frame, entry *ssa.BasicBlock, inRegion func(*ssa.BasicBlock) bool, loop *natLoop, start []edgeState, headerReady bool) (exits []exitEdge, backs []exitEdge) {
	order := rpo(entry, inRegion)
	in := map[*ssa.BasicBlock][]edgeState{}
	in[entry] = start
	done := map[*ssa.BasicBlock]bool{}
	push := func(from, to *ssa.BasicBlock, st *State) {
		if st.reach == False {
			return
		}
		if loop != nil && to == loop.header {
			backs = append(backs, exitEdge{from, to, st})
			return
		}
		if !inRegion(to) {
			exits = append(exits, exitEdge{from, to, st})
			return
		}
		if done[to] {
			x.unsup("irreducible control flow in %s", x.w.fkey(fr.fn))
		}
		in[to] = append(in[to], edgeState{from, st})
	}
	for _, b := range order {
		if done[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		if l := fr.loops[b]; l != nil && !(b == entry && loop != nil) {
			// inner loop (or top-level loop)
			ex := x.execLoop(fr, l, es)
			for bb := range l.blocks {
				done[bb] = true
			}
			for _, e := range ex {
				push(e.from, e.to, e.st)
			}
			continue
		}
		done[b] = true
		st := x.joinAt(fr, b, es, b == entry && headerReady)
		for _, e := range x.runBlock(fr, b, st) {
			push(e.from, e.to, e.st)
		}
	}
	return
}

// joinAt merges incoming edges and evaluates phis.
func (x *Exec) joinAt(fr *Frame, b *ssa.BasicBlock, es []edgeState, phisReady bool) *State {
	var sts []*State
	for _, e := range es {
		sts = append(sts, e.st)
	}
	if !phisReady {
		type pv struct {
			p *ssa.Phi
			v Val
		}
		var news []pv
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var v Val
			first := true
			for k := len(es) - 1; k >= 0; k-- {
				e := es[k]
				if e.st.reach == False && len(es) > 1 {
					continue
				}
				idx := -1
				for pi, pr := range b.Preds {
					if pr == e.from {
						idx = pi
					}
				}
				if idx < 0 {
					x.unsup("phi edge")
				}
				x.cur = e.st
				ev := x.get(fr, p.Edges[idx])
				if first {
					v, first = ev, false
				} else {
					v = x.iteVal(e.st.reach, ev, v, p.Type())
				}
			}
			news = append(news, pv{p, v})
		}
		for _, n := range news {
			fr.env[n.p] = n.v
		}
	}
	if len(sts) == 1 {
		return sts[0].clone()
	}
	return x.merge(sts).clone()
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State) []exitEdge {
	for _, in := range b.Instrs {
		if st.reach == False {
			return nil
		}
		switch i := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			return []exitEdge{{b, b.Succs[0], st}}
		case *ssa.If:
			x.cur = st
			c := x.getT(fr, i.Cond)
			t, f := st, st.clone()
			t.reach = And(st.reach, c)
			f.reach = And(f.reach, Not(c))
			if b.Succs[0] == b.Succs[1] {
				x.unsup("degenerate branch")
			}
			return []exitEdge{{b, b.Succs[0], t}, {b, b.Succs[1], f}}
		case *ssa.Return:
			x.cur = st
			var v Val
			switch len(i.Results) {
			case 0:
			case 1:
				v = x.get(fr, i.Results[0])
			default:
				var t Tuple
				for _, r := range i.Results {
					t = append(t, x.get(fr, r))
				}
				v = t
			}
			fr.rets = append(fr.rets, retRec{st, v, i.Pos()})
			return nil
		case *ssa.Panic:
			if x.C != nil && x.C.NoPanic {
				x.oblige(st, "safe", "no explicit panic", False, i.Pos())
			}
			x.onPanic(fr, st)
			return nil
		default:
			x.instr(fr, st, in)
		}
	}
	return nil
}

// onPanic: a panicking path ends the function under verification (partial correctness).
func (x *Exec) onPanic(fr *Frame, st *State) {}

// execFunc runs a function body; returns merged result.
func (x *Exec) execFunc(fn *ssa.Function, args []Val, binds []Val, st *State, parent *Frame, chain string) *Frame {
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	if depth > 24 {
		x.unsup("inlining too deep at %s", x.w.fkey(fn))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, chain: chain, loops: findLoops(fn), depth: depth}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = binds[i]
	}
	x.stack = append(x.stack, fn)
	ex, _ := x.runRegion(fr, fn.Blocks[0], func(*ssa.BasicBlock) bool { return true }, nil, []edgeState{{nil, st}}, false)
	x.stack = x.stack[:len(x.stack)-1]
	if len(ex) > 0 {
		x.unsup("region exits")
	}
	return fr
}

// loopIters tells whether the header's branch has a literal outcome.
func headerIf(l *natLoop) *ssa.If {
	b := l.header
	if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		return i
	}
	return nil
}

type mark struct{ facts, obls, rets int }

func (x *Exec) mark(fr *Frame) mark { return mark{len(x.facts), len(x.obls), len(fr.rets)} }
func (x *Exec) rollback(fr *Frame, m mark) {
	x.meant = nil
	for k, rs := range x.pureReads {
		for len(rs) > 0 && rs[len(rs)-1].at > m.facts {
			rs = rs[:len(rs)-1]
		}
		x.pureReads[k] = rs
	}
	x.facts = x.facts[:m.facts]
	x.obls = x.obls[:m.obls]
	fr.rets = fr.rets[:m.rets]
}

func cloneEdges(es []edgeState) []edgeState {
	var r []edgeState
	for _, e := range es {
		r = append(r, edgeState{e.from, e.st.clone()})
	}
	return r
}

const maxUnroll = 12

func (x *Exec) execLoop(fr *Frame, l *natLoop, es []edgeState) []exitEdge {
	if ex, ok := x.tryUnroll(fr, l, cloneEdges(es)); ok {
		return ex
	}
	return x.cutLoop(fr, l, es)
}

func (x *Exec) tryUnroll(fr *Frame, l *natLoop, es []edgeState) ([]exitEdge, bool) {
	hif := headerIf(l)
	if hif == nil {
		return nil, false
	}
	// map iterations and data-dependent bounds are cut
	for _, in := range l.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return nil, false
		}
	}
	m := x.mark(fr)
	saved := fr.unroll
	chain := fr.chain
	defer func() { fr.unroll = saved; fr.chain = chain }()
	// cheap pre-test: evaluate the header once in isolation
	var exits []exitEdge
	cur := es
	for it := 0; it <= maxUnroll; it++ {
		fr.chain = fmt.Sprintf("%s~%d", chain, it)
		m2 := x.mark(fr)
		st := x.joinAt(fr, l.header, cur, false)
		hs := st.clone()
		// run header instructions to find out the branch condition
		outs := x.runBlock(fr, l.header, hs)
		live := 0
		for _, o := range outs {
			if o.st.reach != False {
				live++
			}
		}
		if live > 1 {
			x.rollback(fr, m)
			return nil, false
		}
		if live == 0 {
			return exits, true
		}
		x.rollback(fr, m2)
		ex, bk := x.runRegion(fr, l.header, func(b *ssa.BasicBlock) bool { return l.blocks[b] }, l, []edgeState{{nil, st}}, true)
		exits = append(exits, ex...)
		if len(bk) == 0 {
			return exits, true
		}
		cur = nil
		for _, e := range bk {
			cur = append(cur, edgeState{e.from, e.st})
		}
	}
	x.rollback(fr, m)
	return nil, false
}

func (x *Exec) cutLoop(fr *Frame, l *natLoop, es []edgeState) []exitEdge {
	key := fmt.Sprintf("%s#%s:b%d", fr.chain, x.w.fkey(fr.fn), l.header.Index)
	li := x.loops[key]
	if li == nil {
		li = &LoopInfo{key: key, mod: map[string]bool{}, modc: map[string]bool{}}
		x.loops[key] = li
	}
	// entry values of phis
	entry := x.joinAt(fr, l.header, es, false)
	entryPhi := map[*ssa.Phi]Val{}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		entryPhi[p] = fr.env[p]
	}
	envSnap := map[ssa.Value]Val{}
	for k, v := range fr.env {
		envSnap[k] = v
	}
	for round := 0; ; round++ {
		if round > 40 {
			x.unsup("loop modification set does not converge")
		}
		m := x.mark(fr)
		fr.env = map[ssa.Value]Val{}
		for k, v := range envSnap {
			fr.env[k] = v
		}
		hd := entry.clone()
		it := Fresh("iter", SBool)
		hd.reach = it
		x.facts = append(x.facts, Implies(it, entry.reach))
		hd.alloc = Fresh("alloc", SInt)
		x.assume(hd, Le(entry.alloc, hd.alloc))
		if li.all {
			hd.ep = x.newEpoch()
			keep := map[string]*Term{}
			for k, v := range hd.heap {
				if strings.HasPrefix(k, "ghostconst:") {
					keep[k] = v
				}
			}
			hd.heap = keep
		} else {
			var ks []string
			for k := range li.mod {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				hd.heap[k] = x.freshHeap(hd, k)
			}
		}
		for c := range hd.cells {
			if li.modc[c.name] {
				v := Fresh("cell."+c.name, x.w.sortOf(c.typ))
				hd.cells[c] = v
				for _, g := range x.w.wf(v, c.typ, hd.alloc, 1) {
					x.assume(hd, g)
				}
			}
		}
		hdPhi := map[*ssa.Phi]Val{}
		for _, p := range phis {
			v := Val(nil)
			// phis that carry addresses or closures stay symbolic only when they are constant across iterations
			switch entryPhi[p].(type) {
			case *FuncVal:
				if li.termPhi[p] {
					v = Fresh("phi."+p.Comment, x.w.sortOf(p.Type()))
				} else {
					v = entryPhi[p]
				}
			case *Addr:
				if x.promoteTermable(entryPhi[p]) {
					v = Fresh("phi."+p.Comment, x.w.sortOf(p.Type()))
				} else {
					v = entryPhi[p]
				}
			default:
				v = Fresh("phi."+p.Comment, x.w.sortOf(p.Type()))
			}
			if t, ok := v.(*Term); ok {
				for _, g := range x.w.wf(t, p.Type(), hd.alloc, 1) {
					x.assume(hd, g)
				}
			}
			hdPhi[p] = v
			fr.env[p] = v
		}
		hdSnap := hd.clone()
		ctxH := &LoopCtx{phi: hdPhi, ephi: entryPhi, st: hdSnap, entry: entry, x: x, fr: fr}
		if !li.init && x.dry == 0 {
			x.genCands(fr, l, li, phis, entryPhi, hdPhi, entry, hdSnap)
		}
		for _, c := range li.cands {
			if c.Dead {
				continue
			}
			if t := x.buildCand(c, ctxH); t != nil {
				x.assume(hd, t)
			}
		}
		ex, bk := x.runRegion(fr, l.header, func(b *ssa.BasicBlock) bool { return l.blocks[b] }, l, []edgeState{{nil, hd}}, true)
		// changed keys
		changed := false
		for _, e := range bk {
			for _, p := range phis {
				if _, isF := hdPhi[p].(*FuncVal); !isF {
					continue
				}
				for pi, pr := range l.header.Preds {
					if pr == e.from && !sameVal(hdPhi[p], x.get(fr, p.Edges[pi])) {
						if li.termPhi == nil {
							li.termPhi = map[*ssa.Phi]bool{}
						}
						x.cur = entry
						_ = x.term(hdPhi[p], p.Type())
						li.termPhi[p] = true
						changed = true
					}
				}
			}
		}
		for _, e := range bk {
			if e.st.ep != hdSnap.ep && !li.all {
				li.all = true
				changed = true
			}
			for k, v := range e.st.heap {
				if !li.mod[k] && !li.all && v != x.hget(hdSnap, k) {
					li.mod[k] = true
					changed = true
				}
			}
			for c, v := range e.st.cells {
				if u, ok := hdSnap.cells[c]; ok && !li.modc[c.name] && !sameVal(u, v) {
					li.modc[c.name] = true
					changed = true
				}
			}
		}
		if changed {
			x.rollback(fr, m)
			li.init = false
			li.cands = nil
			continue
		}
		// initiation and preservation of candidates
		if x.dry == 0 {
			ctxE := &LoopCtx{phi: entryPhi, ephi: entryPhi, st: entry, entry: entry, x: x, fr: fr}
			for _, c := range li.cands {
				if c.Dead {
					continue
				}
				if t := x.buildCand(c, ctxE); t != nil {
					x.obls = append(x.obls, &Obl{Label: "init " + c.Key, Kind: "inv", Goal: t, Reach: entry.reach, NFacts: m.facts, Cand: c})
				} else {
					c.Dead = true
				}
			}
			for _, e := range bk {
				bphi := map[*ssa.Phi]Val{}
				for _, p := range phis {
					idx := -1
					for pi, pr := range l.header.Preds {
						if pr == e.from {
							idx = pi
						}
					}
					x.cur = e.st
					bphi[p] = x.get(fr, p.Edges[idx])
				}
				for p, v := range hdPhi {
					if _, isT := v.(*Term); !isT && !sameVal(v, bphi[p]) {
						x.unsup("loop-carried address in %s", x.w.fkey(fr.fn))
					}
				}
				ctxB := &LoopCtx{phi: bphi, ephi: entryPhi, st: e.st, entry: entry, x: x, fr: fr}
				for _, c := range li.cands {
					if c.Dead {
						continue
					}
					if t := x.buildCand(c, ctxB); t != nil {
						x.obls = append(x.obls, &Obl{Label: "pres " + c.Key, Kind: "inv", Goal: t, Reach: e.st.reach, NFacts: len(x.facts), Cand: c})
					} else {
						c.Dead = true
					}
				}
			}
		}
		// values defined in the loop keep their last (arbitrary-iteration) definitions
		return ex
	}
}

func (x *Exec) promoteTermable(v Val) bool {
	a, ok := v.(*Addr)
	if !ok {
		return false
	}
	if a.kind == "heap" && len(a.path) == 0 {
		return true
	}
	return false
}

func (x *Exec) freshHeap(st *State, k string) *Term {
	so := x.w.keySort[k]
	c := Fresh("h."+k, so)
	x.wfHeap(c, k, st.alloc)
	return c
}

func (x *Exec) buildCand(c *Cand, ctx *LoopCtx) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Restart); ok {
				panic(r)
			}
			if u, ok := r.(Unsupported); ok {
				_ = u
				t = nil
				return
			}
			if s, ok := r.(specErr); ok {
				if debugCand {
					fmt.Println("candidate", c.Key, "error:", s)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.Build(ctx)
}

var debugCand = false

// phiTerm of a value in the context (header / entry / back edge)
func (c *LoopCtx) val(v ssa.Value) Val {
	if p, ok := v.(*ssa.Phi); ok {
		if r, ok := c.phi[p]; ok {
			return r
		}
	}
	return c.x.get(c.fr, v)
}
func (c *LoopCtx) term(v ssa.Value) *Term { return c.x.term(c.val(v), v.Type()) }

// genCands instantiates the generic candidate library and the contract's candidate templates.
func (x *Exec) genCands(fr *Frame, l *natLoop, li *LoopInfo, phis []*ssa.Phi, entryPhi, hdPhi map[*ssa.Phi]Val, entry, hd *State) {
	li.init = true
	add := func(key string, b func(c *LoopCtx) *Term) {
		li.cands = append(li.cands, &Cand{Key: li.key + " :: " + key, Build: b})
	}
	// heap frames
	var mods []string
	for k := range li.mod {
		mods = append(mods, k)
	}
	sort.Strings(mods)
	for _, k := range mods {
		k := k
		if x.w.keyKind[k] == "global" || strings.HasPrefix(k, "ghost:") {
			add("unchanged "+k, func(c *LoopCtx) *Term { return Eq(x.hget(c.st, k), x.hget(c.entry, k)) })
			continue
		}
		if _, _, ok := splitArr(x.w.keySort[k]); !ok {
			continue
		}
		if strings.HasPrefix(k, "LK:") {
			add("unchanged "+k, func(c *LoopCtx) *Term { return Eq(x.hget(c.st, k), x.hget(c.entry, k)) })
			continue
		}
		add("frame-loop "+k, func(c *LoopCtx) *Term {
			r := BVar("r", SInt)
			h := x.hget(c.st, k)
			return Forall([]*Term{r}, Implies(Lt(r, c.entry.alloc), Eq(Select(h, r), Select(x.hget(c.entry, k), r))), []*Term{Select(h, r)})
		})
		add("frame-fn "+k, func(c *LoopCtx) *Term {
			r := BVar("r", SInt)
			h := x.hget(c.st, k)
			return Forall([]*Term{r}, Implies(Lt(r, x.entry.alloc), Eq(Select(h, r), Select(x.hget(x.entry, k), r))), []*Term{Select(h, r)})
		})
		if refs := x.permitted[k]; len(refs) > 0 {
			add("frame-mod "+k, func(c *LoopCtx) *Term {
				r := BVar("r", SInt)
				h := x.hget(c.st, k)
				g := []*Term{Lt(r, x.entry.alloc)}
				for _, p := range refs {
					g = append(g, Not(Eq(r, p)))
				}
				return Forall([]*Term{r}, Implies(And(g...), Eq(Select(h, r), Select(x.hget(x.entry, k), r))), []*Term{Select(h, r)})
			})
		}
	}
	_ = entry
	// cells
	type sv struct {
		name string
		typ  types.Type
		get  func(c *LoopCtx) *Term
		mut  bool
		ent  func(c *LoopCtx) *Term
	}
	var vars []sv
	for pi, p := range phis {
		p := p
		if _, ok := hdPhi[p].(*Term); !ok {
			continue
		}
		nm := fmt.Sprintf("phi%d(%s)", pi, p.Comment)
		vars = append(vars, sv{nm, p.Type(), func(c *LoopCtx) *Term { return c.term(p) }, true, func(c *LoopCtx) *Term { return x.term(c.ephi[p], p.Type()) }})
	}
	var cs []*Cell
	for c := range hd.cells {
		if li.modc[c.name] {
			if _, ok := hd.cells[c].(*Term); ok {
				cs = append(cs, c)
			}
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, cell := range cs {
		cell := cell
		vars = append(vars, sv{"cell(" + cell.name + ")", cell.typ, func(c *LoopCtx) *Term {
			return x.cellByName(c.st, cell)
		}, true, func(c *LoopCtx) *Term { return x.cellByName(c.entry, cell) }})
	}
	for _, v := range vars {
		v := v
		add("unchanged "+v.name, func(c *LoopCtx) *Term { return Eq(v.get(c), v.ent(c)) })
		if d := U.dts[x.w.sortOf(v.typ)]; d != nil && isStruct(v.typ) {
			for i := range d.Fields {
				i := i
				add(fmt.Sprintf("unchanged %s.%d", v.name, i), func(c *LoopCtx) *Term { return Eq(Sel(v.get(c), i), Sel(v.ent(c), i)) })
			}
		}
		switch x.w.sortOf(v.typ) {
		case SInt:
			if _, ok := v.typ.Underlying().(*types.Basic); ok {
				add("ge-init "+v.name, func(c *LoopCtx) *Term { return Le(v.ent(c), v.get(c)) })
				add("le-init "+v.name, func(c *LoopCtx) *Term { return Le(v.get(c), v.ent(c)) })
			} else {
				add("fresh-or-nil "+v.name, func(c *LoopCtx) *Term {
					return Or(Eq(v.get(c), Int(0)), Le(x.entry.alloc, v.get(c)))
				})
			}
		case SSlice:
			add("fresh-or-nil "+v.name, func(c *LoopCtx) *Term {
				return Or(Eq(Sel(v.get(c), 0), Int(0)), Le(x.entry.alloc, Sel(v.get(c), 0)))
			})
			add("fresh-loop "+v.name, func(c *LoopCtx) *Term {
				return Or(Eq(Sel(v.get(c), 0), Int(0)), Le(c.entry.alloc, Sel(v.get(c), 0)), Eq(Sel(v.get(c), 0), Sel(v.ent(c), 0)))
			})
			add("len-ge "+v.name, func(c *LoopCtx) *Term { return Le(Sel(v.ent(c), 1), Sel(v.get(c), 1)) })
			add("len-le "+v.name, func(c *LoopCtx) *Term { return Le(Sel(v.get(c), 1), Sel(v.ent(c), 1)) })
			add("cap-zero "+v.name, func(c *LoopCtx) *Term {
				return Implies(Eq(Sel(v.get(c), 0), Int(0)), Eq(Sel(v.get(c), 2), Int(0)))
			})
		}
	}
	for i := range vars {
		for j := 0; j < i; j++ {
			a, b := vars[i], vars[j]
			if x.w.sortOf(a.typ) == SSlice && x.w.sortOf(b.typ) == SSlice {
				add("disjoint "+a.name+" "+b.name, func(c *LoopCtx) *Term {
					return Or(Eq(Sel(a.get(c), 0), Int(0)), Not(Eq(Sel(a.get(c), 0), Sel(b.get(c), 0))))
				})
			}
			if x.w.sortOf(a.typ) == SInt && x.w.sortOf(b.typ) == SInt && isIntT(a.typ) && isIntT(b.typ) {
				add("diff "+a.name+" "+b.name, func(c *LoopCtx) *Term { return Eq(Sub(a.get(c), b.get(c)), Sub(a.ent(c), b.ent(c))) })
				add("le "+a.name+" "+b.name, func(c *LoopCtx) *Term { return Le(a.get(c), b.get(c)) })
				add("le "+b.name+" "+a.name, func(c *LoopCtx) *Term { return Le(b.get(c), a.get(c)) })
				add("lt1 "+a.name+" "+b.name, func(c *LoopCtx) *Term { return Le(a.get(c), Add(b.get(c), Int(1))) })
				add("lt1 "+b.name+" "+a.name, func(c *LoopCtx) *Term { return Le(b.get(c), Add(a.get(c), Int(1))) })
			}
			if x.w.sortOf(a.typ) == SSlice && isIntT(b.typ) {
				a, b = b, a
			}
			if isIntT(a.typ) && x.w.sortOf(b.typ) == SSlice {
				add("len= "+a.name+" "+b.name, func(c *LoopCtx) *Term { return Eq(a.get(c), Sel(b.get(c), 1)) })
				add("len=+1 "+a.name+" "+b.name, func(c *LoopCtx) *Term { return Eq(Add(a.get(c), Int(1)), Sel(b.get(c), 1)) })
				add("len>= "+a.name+" "+b.name, func(c *LoopCtx) *Term { return Le(Sel(b.get(c), 1), a.get(c)) })
				add("len>=+1 "+a.name+" "+b.name, func(c *LoopCtx) *Term { return Le(Sel(b.get(c), 1), Add(a.get(c), Int(1))) })
			}
		}
	}
	// loop bounds from comparisons in the loop
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch bo.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
		default:
			continue
		}
		for _, pair := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			bound := pair[1]
			base := basePhi(pair[0], l)
			if base == nil || !isIntT(bound.Type()) {
				continue
			}
			if !x.definedOutside(bound, l, fr) {
				continue
			}
			p := base
			bn := bound.Name()
			for d := int64(-1); d <= 1; d++ {
				d := d
				add(fmt.Sprintf("ub %s%+d<=%s", p.Name(), d, bn), func(c *LoopCtx) *Term { return Le(Add(c.term(p), Int(d)), x.boundTerm(c, bound, l)) })
				add(fmt.Sprintf("lb %s<=%s%+d", bn, p.Name(), d), func(c *LoopCtx) *Term { return Le(x.boundTerm(c, bound, l), Add(c.term(p), Int(d))) })
			}
		}
	}
	x.specCands(fr, l, li, phis, entryPhi, hdPhi, entry, hd, add)
	// drop duplicates
	seen := map[string]bool{}
	var out []*Cand
	for _, c := range li.cands {
		if !seen[c.Key] {
			seen[c.Key] = true
			out = append(out, c)
		}
	}
	li.cands = out
	if x.S != nil {
		for _, c := range li.cands {
			if x.S.deadHints[c.Key] {
				c.Dead = true
			}
		}
	}
}
func (x *Exec) cellByName(st *State, cell *Cell) *Term {
	if v, ok := st.cells[cell]; ok {
		return x.term(v, cell.typ)
	}
	for c, v := range st.cells {
		if c.name == cell.name && typeMatch(x.w, c.typ, cell.typ) {
			return x.term(v, c.typ)
		}
	}
	x.unsup("dead cell")
	return nil
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func basePhi(v ssa.Value, l *natLoop) *ssa.Phi {
	switch p := v.(type) {
	case *ssa.Phi:
		if p.Block() == l.header {
			return p
		}
	case *ssa.BinOp:
		if p.Op == token.ADD || p.Op == token.SUB {
			if _, ok := p.Y.(*ssa.Const); ok {
				return basePhi(p.X, l)
			}
		}
	}
	return nil
}

// definedOutside: the bound can be evaluated at the loop header.
func (x *Exec) definedOutside(v ssa.Value, l *natLoop, fr *Frame) bool {
	switch b := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.Call:
		if bl, ok := b.Call.Value.(*ssa.Builtin); ok && bl.Name() == "len" && l.blocks[b.Block()] {
			return x.definedOutside(b.Call.Args[0], l, fr)
		}
	case *ssa.Phi:
		if b.Block() == l.header {
			return true
		}
	}
	if in, ok := v.(ssa.Instruction); ok {
		return !l.blocks[in.Block()]
	}
	return false
}
func (x *Exec) boundTerm(c *LoopCtx, v ssa.Value, l *natLoop) *Term {
	if b, ok := v.(*ssa.Call); ok && l.blocks[b.Block()] {
		return Sel(c.term(b.Call.Args[0]), 1)
	}
	return c.term(v)
}
