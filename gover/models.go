package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// deterministic, side-effect-free external functions: uninterpreted functions of their arguments
func isPureExt(n string) bool {
	for _, p := range []string{"strings.", "strconv.", "path.", "unicode.", "unicode/utf8.", "math.", "errors.", "(time.Duration).", "(time.Time).", "path/filepath.", "regexp.QuoteMeta", "(*regexp.Regexp).", "(reflect.Type).", "html."} {
		if strings.HasPrefix(n, p) {
			switch n {
			case "errors.New", "errors.Is", "errors.As", "path/filepath.Abs", "path/filepath.Glob", "path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.EvalSymlinks":
				return false
			}
			if strings.Contains(n, "Builder)") || strings.Contains(n, "Reader)") || strings.Contains(n, "Replacer)") {
				return false
			}
			return true
		}
	}
	return false
}

// external functions whose effects are outside the modelled state (or invisible): fresh results
func isNoEffectExt(n string) bool {
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "fmt.Print", "fmt.Fprint", "errors.", "time.", "os.", "io.", "math/rand.", "(*math/rand.", "runtime.", "runtime/debug.", "reflect.", "(reflect.", "regexp.", "context.", "net.", "net/http.", "(*net/http.", "net/rpc.", "encoding/", "(*encoding/", "path/filepath.", "bytes.", "(*bytes.", "(*strings.Builder)", "(*sync.", "sync.", "sync/atomic.", "(*sync/atomic", "os/exec.", "(*os/exec.", "(*os.", "os/signal.", "log.", "(*log.", "flag.", "(*flag.", "syscall.", "text/template.", "go/build.", "bufio.", "(*bufio.", "(*time.", "unicode", "crypto/", "hash", "(*text/template", "golang.org/x/tools/cover.", "github.com/go-logr/", "internal/", "math.", "strings.", "strconv.", "invoke error.Error", "invoke fs.", "invoke hash", "invoke reflect.Type", "invoke context.", "invoke io.", "invoke net.", "invoke os.", "(net/http", "(*net/rpc", "github.com/google/pprof", "(go/build", "maps.", "slices.", "os.Getenv"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (x *Exec) nonNil(st *State, v Val) {
	t, ok := v.(*Term)
	if !ok {
		return
	}
	switch t.Sort {
	case SInt:
		x.assume(st, Lt(Int(0), t))
	case SIface:
		x.assume(st, And(Not(Eq(t, NilIface())), Not(Eq(App("tagOf", t), Int(0)))))
	}
}

func (x *Exec) extCall(fr *Frame, st *State, key string, sig *types.Signature, recv *Term, args []Val, ats []types.Type, rt types.Type, pos token.Pos) Val {
	if c := x.S.find(key); c != nil {
		x.used[c.Key] = true
		return x.applyContract2(fr, st, c, nil, sig, recv, args, nil, ats, rt, pos)
	}
	n := key
	note := func(s string) { x.trusted[s] = true }
	ret1 := func(v Val) Val { return v }
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		x.lockOp(st, args[0], n[strings.LastIndex(n, ".")+1:], pos)
		note("sync.Mutex/RWMutex provide mutual exclusion")
		return nil
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Panic":
		st.reach = False
		return x.deadVal(rt)
	case "errors.New", "fmt.Errorf":
		v := x.freshVal(st, "err", types.Universe.Lookup("error").Type())
		x.nonNil(st, v)
		note("errors.New and fmt.Errorf return a non-nil error")
		return ret1(v)
	case "math/rand.New", "math/rand.NewSource", "context.Background", "context.TODO":
		v := x.freshVal(st, "r", rt)
		x.nonNil(st, v)
		return v
	case "sort.Strings", "sort.Ints", "slices.Sort":
		t := x.term(args[0], ats[0])
		el := ats[0].Underlying().(*types.Slice).Elem()
		arr := x.permute(st, t, el)
		q, r := BVar("i", SInt), BVar("j", SInt)
		le := Le(Select(arr, q), Select(arr, r))
		if x.w.sortOf(el) == SStr {
			le = Le(App("strord", Select(arr, q)), App("strord", Select(arr, r)))
		}
		x.assume(st, Forall([]*Term{q, r}, Implies(And(Le(Int(0), q), Lt(q, r), Lt(r, Sel(t, 1))), le), []*Term{Select(arr, q), Select(arr, r)}))
		note("sort.* sorts: the result is an ordered permutation")
		return nil
	case "sort.Slice", "sort.SliceStable":
		it := x.term(args[0], ats[0])
		if it.Op == "app" && strings.HasPrefix(it.Name, "box.") && boxTypes[it.Name] != nil {
			if sl, ok := boxTypes[it.Name].Underlying().(*types.Slice); ok {
				t := it.Args[0]
				x.permute(st, t, sl.Elem())
				q, r := BVar("i", SInt), BVar("j", SInt)
				if lt := x.symCall(fr, st, args[1], []Val{r, q}, types.Typ[types.Bool]); lt != nil {
					el := Select(x.hget(st, x.w.elemKey(sl.Elem())), Sel(t, 0))
					x.assume(st, Forall([]*Term{q, r}, Implies(And(Le(Int(0), q), Lt(q, r), Lt(r, Sel(t, 1))), Not(lt)), []*Term{Select(el, q), Select(el, r)}))
				}
				note("sort.* sorts: the result is an ordered permutation (the ordering function being a strict weak order)")
				return nil
			}
		}
	case "sort.Search":
		nn := x.term(args[0], ats[0])
		i := x.freshVal(st, "search", types.Typ[types.Int]).(*Term)
		x.assume(st, And(Le(Int(0), i), Or(Le(i, nn), Eq(i, Int(0)))))
		if at := x.symCall(fr, st, args[1], []Val{i}, types.Typ[types.Bool]); at != nil {
			x.assume(st, Implies(Lt(i, nn), at))
		}
		if before := x.symCall(fr, st, args[1], []Val{Sub(i, Int(1))}, types.Typ[types.Bool]); before != nil {
			x.assume(st, Implies(Lt(Int(0), i), Not(before)))
		}
		note("sort.Search(n, f) returns an index i in 0..n with f(i) unless i == n and !f(i-1) unless i == 0; f is only called with indices below n")
		return i
	case "(*math/rand.Rand).Perm", "math/rand.Perm":
		nn := x.term(args[len(args)-1], types.Typ[types.Int])
		r := x.newRef(st)
		k := x.w.elemKey(types.Typ[types.Int])
		arr := Fresh("perm", arrSort(SInt, SInt))
		inv := Fresh("perminv", arrSort(SInt, SInt))
		q := BVar("i", SInt)
		rng := And(Le(Int(0), q), Lt(q, nn))
		x.assume(st, Forall([]*Term{q}, Implies(rng, And(Le(Int(0), Select(arr, q)), Lt(Select(arr, q), nn), Eq(Select(inv, Select(arr, q)), q))), []*Term{Select(arr, q)}))
		x.assume(st, Forall([]*Term{q}, Implies(rng, And(Le(Int(0), Select(inv, q)), Lt(Select(inv, q), nn), Eq(Select(arr, Select(inv, q)), q))), []*Term{Select(inv, q)}))
		st.heap[k] = Store(x.hget(st, k), r, arr)
		note("rand.Perm(n) returns a permutation of 0..n-1 (Fisher-Yates in the standard library)")
		return MkDT(SSlice, r, nn, nn)
	case "sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.AddUint64", "sync/atomic.AddUint32":
		a := x.toAddr(args[0], ats[0])
		v := Add(x.term(x.load(st, a, deref(ats[0])), deref(ats[0])), x.term(args[1], ats[1]))
		x.store(st, a, v, deref(ats[0]))
		note("sync/atomic operations are atomic")
		return v
	case "sync/atomic.LoadInt64", "sync/atomic.LoadInt32", "sync/atomic.LoadUint32", "sync/atomic.LoadUint64":
		note("sync/atomic operations are atomic")
		return x.load(st, x.toAddr(args[0], ats[0]), deref(ats[0]))
	case "sync/atomic.StoreInt64", "sync/atomic.StoreInt32", "sync/atomic.StoreUint32":
		note("sync/atomic operations are atomic")
		x.store(st, x.toAddr(args[0], ats[0]), args[1], ats[1])
		return nil
	}
	if strings.HasPrefix(n, "functype ") && rt != nil {
		if pk := pureKey(sig); x.S.pureFT[pk] {
			e := &Env{s: x.S, x: x, st: st, old: st}
			all := []*Term{recv}
			for i, a := range args {
				all = append(all, e.pureArg(SV{x.term(a, ats[i]), ats[i]})...)
			}
			x.unchangedReads(st, pk, pos)
			note("function values of type " + pk + " made elsewhere are deterministic and free of side effects")
			return AppN("apply."+pk, x.w.sortOf(rt), all...)
		}
	}
	if isPureExt(n) && rt != nil {
		if v, ok := x.pureExt(st, n, args, ats, rt); ok {
			note("standard library: " + n + " is a deterministic function of its arguments")
			return v
		}
	}
	if isNoEffectExt(n) || isPureExt(n) {
		note("external: " + n + " does not touch the modelled state; its result is arbitrary")
		for _, a := range args {
			x.havocBinds(st, a)
		}
		if rt == nil {
			return nil
		}
		return x.freshVal(st, "ext", rt)
	}
	note("unknown code " + n + " may change anything")
	for _, a := range args {
		x.havocBinds(st, a)
	}
	x.havocAll(st)
	if rt == nil {
		return nil
	}
	return x.freshVal(st, "ext", rt)
}

// pureExt: deterministic functions, slice results get a fresh array whose contents are a function of the arguments
func (x *Exec) pureExt(st *State, n string, args []Val, ats []types.Type, rt types.Type) (Val, bool) {
	e := &Env{s: x.S, x: x, st: st, old: st}
	var ts []*Term
	for i, a := range args {
		if _, ok := a.(*FuncVal); ok {
			return nil, false
		}
		ts = append(ts, e.pureArg(SV{x.term(a, ats[i]), ats[i]})...)
	}
	one := func(i int, t types.Type) Val {
		nm := "ext." + n
		if i > 0 {
			nm += "#" + string(rune('0'+i))
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			k := x.w.elemKey(s.Elem())
			r := x.newRef(st)
			ln := AppN(nm+"#len", SInt, ts...)
			x.assume(st, Le(Int(0), ln))
			arr := AppN(nm+"#elems", arrSort(SInt, x.w.sortOf(s.Elem())), ts...)
			st.heap[k] = Store(x.hget(st, k), r, arr)
			c := Fresh("cap", SInt)
			x.assume(st, Le(ln, c))
			return MkDT(SSlice, r, ln, c)
		}
		v := AppN(nm, x.w.sortOf(t), ts...)
		for _, g := range x.w.wf(v, t, st.alloc, 0) {
			x.assume(st, g)
		}
		return v
	}
	if tt, ok := rt.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return nil, true
		}
		if tt.Len() == 1 {
			return one(0, tt.At(0).Type()), true
		}
		var r Tuple
		for i := 0; i < tt.Len(); i++ {
			r = append(r, one(i, tt.At(i).Type()))
		}
		return r, true
	}
	return one(0, rt), true
}

// permute replaces the elements of t by a permutation of themselves.
func (x *Exec) permute(st *State, t *Term, el types.Type) *Term {
	k := x.w.elemKey(el)
	h := x.hget(st, k)
	old := Select(h, Sel(t, 0))
	arr := Fresh("sorted", old.Sort)
	p, inv := Fresh("p", arrSort(SInt, SInt)), Fresh("pinv", arrSort(SInt, SInt))
	n := Sel(t, 1)
	q := BVar("i", SInt)
	rng := And(Le(Int(0), q), Lt(q, n))
	x.assume(st, Forall([]*Term{q}, Implies(rng, And(Le(Int(0), Select(p, q)), Lt(Select(p, q), n), Eq(Select(inv, Select(p, q)), q), Eq(Select(arr, q), Select(old, Select(p, q))))), []*Term{Select(arr, q)}, []*Term{Select(p, q)}))
	x.assume(st, Forall([]*Term{q}, Implies(rng, And(Le(Int(0), Select(inv, q)), Lt(Select(inv, q), n), Eq(Select(p, Select(inv, q)), q), Eq(Select(old, q), Select(arr, Select(inv, q))))), []*Term{Select(old, q)}, []*Term{Select(inv, q)}))
	x.assume(st, Forall([]*Term{q}, Implies(Not(rng), Eq(Select(arr, q), Select(old, q))), []*Term{Select(arr, q)}))
	st.heap[k] = Store(h, Sel(t, 0), arr)
	return arr
}

// symCall evaluates a side-effect-free closure on symbolic (bound) arguments in the current state.
// Facts and obligations produced on the way are dropped (facts may mention the bound variables).
func (x *Exec) symCall(fr *Frame, st *State, f Val, args []Val, rt types.Type) (res *Term) {
	fv, ok := f.(*FuncVal)
	if !ok {
		return nil
	}
	m := x.mark(fr)
	before := U.fresh
	s2 := st.clone()
	s2.reach = True
	defer func() {
		x.rollback(fr, m)
		if r := recover(); r != nil {
			if _, ok := r.(Restart); ok {
				panic(r)
			}
			res = nil
		}
	}()
	v := x.callFunc(fr, s2, fv.fn, args, fv.binds, rt, "sym", token.NoPos)
	t, ok := v.(*Term)
	if !ok {
		return nil
	}
	if usesFreshSince(t, before) {
		return nil
	}
	for k, h := range s2.heap {
		if o, ok := st.heap[k]; ok && o != h && x.w.keyKind[k] != "" {
			return nil
		}
	}
	return t
}

// usesFreshSince: t contains a constant created after the given point (its value would silently not depend on the bound variables).
func usesFreshSince(t *Term, before int) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "const" {
			if _, n := splitNum(t.Name); n > before {
				return true
			}
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (x *Exec) initGhostFields(st *State, el types.Type, r *Term) {}

func lowerTerm(t *Term) *Term {
	if isStrLit(t) {
		return StrLit(strings.ToLower(strLitText[t.Name]))
	}
	return AppN("ext.strings.ToLower", SStr, t)
}

// evalGlobalInit: facts about the initial value of an immutable package variable
func (x *Exec) evalGlobalInit(g *ssa.Global, v *Term) []*Term {
	return globalInitFacts(x, g, v)
}

func globalInitFacts(x *Exec, g *ssa.Global, v *Term) []*Term {
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != g {
				continue
			}
			switch val := s.Val.(type) {
			case *ssa.Const:
				if t, ok := x.constVal(val).(*Term); ok {
					return []*Term{Eq(v, t)}
				}
			case *ssa.Call:
				if f := val.Call.StaticCallee(); f != nil {
					switch extName(f) {
					case "errors.New", "fmt.Errorf":
						DeclFun("errid", []Sort{SIface}, SInt)
						hsh := fnv.New32a()
						hsh.Write([]byte(g.String()))
						fs := []*Term{Not(Eq(v, NilIface())), Eq(App("errid", v), Int(int64(hsh.Sum32())))}
						if c, ok := val.Call.Args[0].(*ssa.Const); ok && x.S != nil {
							str := constant.StringVal(c.Value)
							if d := x.S.fns["errText"]; d != nil && !strings.Contains(str, "%") {
								x.S.compile(x, d)
								fs = append(fs, Eq(App("f:errText", v), StrLit(str)))
							}
						}
						return fs
					case "regexp.MustCompile":
						return []*Term{Lt(Int(0), v)}
					}
				}
			}
		}
	}
	return nil
}
