package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/onsi/ginkgo/v2"

type World struct {
	prog       *ssa.Program
	pkgs       map[string]*packages.Package // by path
	byName     map[string]*types.Package    // by package name (repo packages and their imports)
	funcs      map[string]*ssa.Function     // by short key, e.g. internal.(*Failer).Drain
	keySort    map[string]Sort
	immut      map[*ssa.Global]bool
	allFuncs   []*ssa.Function
	recTargets map[*Contract]*ssa.Function
	fnTerm     map[string]*ssa.Function // Func symbol -> function
	keyType    map[string]types.Type    // heap key -> content go type (for well-formedness)
	keyKind    map[string]string        // field / elem / cell / map
	repo       string
}

func qual(p *types.Package) string { return p.Name() }
func typeKey(t types.Type) string {
	return types.TypeString(noAlias(t), qual)
}

var emptyIface = types.NewInterfaceType(nil, nil)

// noAlias replaces aliases by what they stand for: two names of one type share one heap
func noAlias(t types.Type) types.Type {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Interface:
		if u.NumMethods() == 0 && u.NumEmbeddeds() == 0 {
			return emptyIface
		}
	case *types.Pointer:
		if e := noAlias(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := noAlias(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := noAlias(u.Elem()); e != u.Elem() {
			return types.NewArray(e, u.Len())
		}
	case *types.Chan:
		if e := noAlias(u.Elem()); e != u.Elem() {
			return types.NewChan(u.Dir(), e)
		}
	case *types.Map:
		k, e := noAlias(u.Key()), noAlias(u.Elem())
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Signature:
		if u.TypeParams() != nil || u.Recv() != nil {
			return t
		}
		p, pc := noAliasTuple(u.Params())
		r, rc := noAliasTuple(u.Results())
		if (pc || rc) && !u.Variadic() {
			return types.NewSignatureType(nil, nil, nil, p, r, false)
		}
	}
	return t
}
func noAliasTuple(t *types.Tuple) (*types.Tuple, bool) {
	var vs []*types.Var
	changed := false
	for i := 0; i < t.Len(); i++ {
		v := t.At(i)
		e := noAlias(v.Type())
		if e != v.Type() {
			changed = true
			v = types.NewVar(v.Pos(), v.Pkg(), v.Name(), e)
		}
		vs = append(vs, v)
	}
	return types.NewTuple(vs...), changed
}

func LoadWorld(repo string, patterns []string, overlay map[string][]byte) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: goEnv(), Overlay: overlay}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{recTargets: map[*Contract]*ssa.Function{}, prog: prog, pkgs: map[string]*packages.Package{}, byName: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}, keySort: map[string]Sort{}, immut: map[*ssa.Global]bool{}, fnTerm: map[string]*ssa.Function{}, keyType: map[string]types.Type{}, keyKind: map[string]string{}, repo: repo}
	for _, p := range ps {
		w.pkgs[p.PkgPath] = p
	}
	var paths []string
	for k := range w.pkgs {
		paths = append(paths, k)
	}
	sort.Slice(paths, func(i, j int) bool { return len(paths[i]) > len(paths[j]) })
	for _, k := range paths {
		p := w.pkgs[k]
		for _, im := range p.Types.Imports() {
			if _, ok := w.byName[im.Name()]; !ok {
				w.byName[im.Name()] = im
			}
		}
	}
	for _, k := range paths {
		if !strings.Contains(k, "/integration") && !strings.Contains(k, "/dsl/") {
			w.byName[w.pkgs[k].Types.Name()] = w.pkgs[k].Types
		}
	}
	// the library "internal" and "types" packages win over the cli ones
	for _, k := range []string{"/internal", "/types", "/reporters", "/internal/parallel_support"} {
		if p, ok := w.pkgs[modPath+k]; ok {
			w.byName[p.Types.Name()] = p.Types
		}
	}
	if p, ok := w.pkgs[modPath+"/ginkgo/internal"]; ok {
		w.byName["cli"] = p.Types
	}
	if p, ok := w.pkgs[modPath+"/ginkgo/run"]; ok {
		w.byName["run"] = p.Types
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Pkg == nil || len(f.Blocks) == 0 || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			continue
		}
		w.allFuncs = append(w.allFuncs, f)
		k := w.fkey(f)
		if _, dup := w.funcs[k]; !dup {
			w.funcs[k] = f
		}
	}
	sort.Slice(w.allFuncs, func(i, j int) bool { return w.fkey(w.allFuncs[i]) < w.fkey(w.allFuncs[j]) })
	// immutable globals: never stored to outside init, address never escapes
	written := map[*ssa.Global]bool{}
	for _, f := range w.allFuncs {
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if !isInit {
							written[g] = true
						}
						continue
					}
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch x := in.(type) {
						case *ssa.UnOp:
						case *ssa.FieldAddr:
							// loads through field addresses only
							for _, r := range *x.Referrers() {
								if _, ok := r.(*ssa.UnOp); !ok {
									written[g] = true
								}
							}
						case *ssa.IndexAddr:
							for _, r := range *x.Referrers() {
								if _, ok := r.(*ssa.UnOp); !ok {
									written[g] = true
								}
							}
						case *ssa.DebugRef:
						case *ssa.Store:
							if x.Addr != g {
								written[g] = true
							}
						default:
							if !isInit {
								written[g] = true
							}
						}
					}
				}
			}
		}
	}
	for _, p := range prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !written[g] {
				w.immut[g] = true
			}
		}
	}
	w.initBase()
	return w, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOROOT=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "HOME=") || strings.HasPrefix(e, "GOCACHE=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOENV=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "HOME=/root", "PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "GOTOOLCHAIN=local", "GOPROXY=off", "GOENV=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build", "CGO_ENABLED=1")
}

// fkey: internal.(*Failer).Drain, types.ParseLabelFilter, internal.ApplyNestedFocusPolicyToTree$1, cli.runSerial
func (w *World) fkey(f *ssa.Function) string {
	if f.Parent() != nil {
		root := f.Parent()
		// name of anonymous function already has $n
		n := f.Name()
		r := root
		for r.Parent() != nil {
			r = r.Parent()
		}
		rk := w.fkey(r)
		if i := strings.Index(n, "$"); i >= 0 {
			return rk + n[i:]
		}
		return rk + "$" + n
	}
	pk := w.pkgName(f)
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		ptr := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			ptr = "*"
		}
		if n, ok := t.(*types.Named); ok {
			return fmt.Sprintf("%s.(%s%s).%s", pk, ptr, n.Obj().Name(), f.Name())
		}
		return fmt.Sprintf("%s.(%s%s).%s", pk, ptr, t.String(), f.Name())
	}
	return pk + "." + f.Name()
}
func (w *World) pkgName(f *ssa.Function) string {
	if f.Pkg == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return shortPkg(f.Object().Pkg())
		}
		return "?"
	}
	return shortPkg(f.Pkg.Pkg)
}
func shortPkg(p *types.Package) string {
	if p.Path() == modPath+"/ginkgo/internal" {
		return "cli"
	}
	if p.Path() == modPath+"/ginkgo/run" {
		return "run"
	}
	return p.Name()
}

func inRepo(p *types.Package) bool { return p != nil && strings.HasPrefix(p.Path(), modPath) }

func (w *World) initBase() {
	DeclDT(SSlice, []string{"ref", "len", "cap"}, []Sort{SInt, SInt, SInt})
	// strings: countable total order embedded in the reals
	DeclFun("strord", []Sort{SStr}, SReal)
	DeclFun("strordinv", []Sort{SReal}, SStr)
	DeclFun("strlen", []Sort{SStr}, SInt)
	DeclFun("strcat", []Sort{SStr, SStr}, SStr)
	DeclFun("tagOf", []Sort{SIface}, SInt)
	s := BVar("s", SStr)
	U.axioms["strord"] = append(U.axioms["strord"], Forall([]*Term{s}, Eq(App("strordinv", App("strord", s)), s), []*Term{App("strord", s)}))
	e := StrLit("")
	U.axioms["strlen"] = append(U.axioms["strlen"], Forall([]*Term{s}, And(Le(Int(0), App("strlen", s)), Eq(Eq(App("strlen", s), Int(0)), Eq(s, e))), []*Term{App("strlen", s)}))
	s2 := BVar("s", SStr)
	U.axioms["strcat"] = append(U.axioms["strcat"], Forall([]*Term{s, s2}, Eq(App("strlen", App("strcat", s, s2)), Add(App("strlen", s), App("strlen", s2))), []*Term{App("strcat", s, s2)}))
	U.axioms["nilIface"] = append(U.axioms["nilIface"], Eq(App("tagOf", NilIface()), Int(0)))
	DeclFun("bvToInt", []Sort{SBV}, SInt)
	DeclFun("intToBv", []Sort{SInt}, SBV)
	v := BVar("v", SBV)
	U.axioms["bvToInt"] = append(U.axioms["bvToInt"], Forall([]*Term{v}, And(Eq(App("intToBv", App("bvToInt", v)), v), Le(Int(0), App("bvToInt", v))), []*Term{App("bvToInt", v)}))
}
func NilIface() *Term { return Const("nilIface", SIface) }
func NilFunc() *Term  { return Const("nilFunc", SFunc) }

var strLitText = map[string]string{}

func StrLit(s string) *Term {
	n := "str." + s
	if len(n) > 60 || strings.ContainsAny(n, "|\\\n\r\t") {
		n = fmt.Sprintf("str.%x", s)
		if len(n) > 200 {
			n = n[:150] + fmt.Sprintf("..%d.%x", len(s), hash32(s))
		}
	}
	strLitText[n] = s
	return Const(n, SStr)
}
func hash32(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

// ArrT is the spec-only type of mathematical arrays.
type ArrT struct{ Idx, Elem types.Type }

func (a *ArrT) Underlying() types.Type { return a }
func (a *ArrT) String() string         { return "array[" + a.Elem.String() + "]" }

// OpaqueT: spec-only uninterpreted sort
type OpaqueT struct{ Name string }

func (a *OpaqueT) Underlying() types.Type { return a }
func (a *OpaqueT) String() string         { return a.Name }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (w *World) isOpaqueStruct(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			if !inRepo(n.Obj().Pkg()) {
				return !transparentExt[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
			}
		}
	}
	return false
}

// dependency structs whose (exported) fields are modelled
var transparentExt = map[string]bool{
	"flag.Flag":                             true,
	"go/build.Package":                      true,
	"golang.org/x/tools/cover.Profile":      true,
	"golang.org/x/tools/cover.ProfileBlock": true,
}

func (w *World) sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *ArrT:
		return arrSort(w.sortOf(x.Idx), w.sortOf(x.Elem))
	case *OpaqueT:
		return "O_" + x.Name
	case *types.Named:
		if b, ok := x.Underlying().(*types.Basic); ok && b.Kind() == types.Uint && inRepo(x.Obj().Pkg()) {
			return SBV
		}
		if st, ok := x.Underlying().(*types.Struct); ok {
			if w.isOpaqueStruct(t) {
				return "O_" + typeKey(t)
			}
			return w.structSort("S_"+typeKey(t), st)
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return SBool
		case x.Info()&types.IsInteger != 0:
			return SInt
		case x.Info()&types.IsString != 0:
			return SStr
		case x.Info()&types.IsFloat != 0:
			return SReal
		case x.Kind() == types.UntypedNil:
			return SInt
		case x.Kind() == types.UnsafePointer:
			return SInt
		}
		return "O_" + x.Name()
	case *types.Pointer, *types.Map, *types.Chan:
		return SInt
	case *types.Slice:
		return SSlice
	case *types.Signature:
		return SFunc
	case *types.Interface:
		return SIface
	case *types.Array:
		return arrSort(SInt, w.sortOf(x.Elem()))
	case *types.Struct:
		return w.structSort("S_anon"+fmt.Sprintf("%x", hash32(typeKey(t))), x)
	case *types.Tuple:
		return "tuple"
	}
	return "O_" + typeKey(t)
}
func (w *World) structSort(name Sort, st *types.Struct) Sort {
	if _, ok := U.dts[name]; ok {
		return name
	}
	if st.NumFields() == 0 {
		return "O_empty_" + name
	}
	var fs []string
	var ss []Sort
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		if n == "_" {
			n = fmt.Sprintf("_%d", i)
		}
		fs = append(fs, n)
		ss = append(ss, w.sortOf(st.Field(i).Type()))
	}
	DeclDT(name, fs, ss)
	return name
}

func (w *World) zero(t types.Type) *Term {
	s := w.sortOf(t)
	return w.zeroSort(s)
}
func (w *World) zeroSort(s Sort) *Term {
	switch s {
	case SBool:
		return False
	case SInt:
		return Int(0)
	case SStr:
		return StrLit("")
	case SBV:
		return BV(0)
	case SIface:
		return NilIface()
	case SFunc:
		return NilFunc()
	case SSlice:
		return MkDT(SSlice, Int(0), Int(0), Int(0))
	case SReal:
		return mk("int", "0.0", SReal)
	}
	if _, e, ok := splitArr(s); ok {
		return ConstArr(s, w.zeroSort(e))
	}
	if d, ok := U.dts[s]; ok {
		var as []*Term
		for _, f := range d.FSorts {
			as = append(as, w.zeroSort(f))
		}
		return MkDT(s, as...)
	}
	return Const("zero."+s, s)
}

// heap keys
func (w *World) fieldKey(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	k := "H:" + typeKey(t) + "." + st.Field(i).Name()
	if _, ok := w.keySort[k]; !ok {
		w.keySort[k] = arrSort(SInt, w.sortOf(st.Field(i).Type()))
		w.keyType[k] = st.Field(i).Type()
		w.keyKind[k] = "field"
	}
	return k
}
func (w *World) cellKey(t types.Type) string {
	k := "C:" + typeKey(t)
	if _, ok := w.keySort[k]; !ok {
		w.keySort[k] = arrSort(SInt, w.sortOf(t))
		w.keyType[k] = t
		w.keyKind[k] = "field"
	}
	return k
}
func (w *World) elemKey(t types.Type) string {
	k := "A:" + typeKey(t)
	if _, ok := w.keySort[k]; !ok {
		w.keySort[k] = arrSort(SInt, arrSort(SInt, w.sortOf(t)))
		w.keyType[k] = t
		w.keyKind[k] = "elem"
	}
	return k
}
func (w *World) mapKeys(t types.Type) (dom, val, card string) {
	m := t.Underlying().(*types.Map)
	b := typeKey(m.Key()) + "=>" + typeKey(m.Elem())
	ks, vs := w.sortOf(m.Key()), w.sortOf(m.Elem())
	dom, val, card = "MD:"+b, "MV:"+b, "MC:"+b
	if _, ok := w.keySort[dom]; !ok {
		w.keySort[dom] = arrSort(SInt, arrSort(ks, SBool))
		w.keySort[val] = arrSort(SInt, arrSort(ks, vs))
		w.keySort[card] = arrSort(SInt, SInt)
		w.keyKind[dom], w.keyKind[val], w.keyKind[card] = "map", "map", "map"
		w.keyType[val] = m.Elem()
	}
	return
}
func (w *World) globalKey(g *ssa.Global) string {
	k := "G:" + g.Pkg.Pkg.Name() + "." + g.Name()
	if _, ok := w.keySort[k]; !ok {
		t := deref(g.Type())
		w.keySort[k] = w.sortOf(t)
		w.keyType[k] = t
		w.keyKind[k] = "global"
	}
	return k
}

// wf facts of a value of Go type t given the allocation counter.
func (w *World) wf(v *Term, t types.Type, alloc *Term, depth int) []*Term {
	t = types.Unalias(t)
	switch x := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return []*Term{Le(Int(0), v), Lt(v, alloc)}
	case *types.Slice:
		r, l, c := Sel(v, 0), Sel(v, 1), Sel(v, 2)
		return []*Term{Le(Int(0), r), Lt(r, alloc), Le(Int(0), l), Le(l, c), Implies(Eq(r, Int(0)), Eq(c, Int(0)))}
	case *types.Basic:
		if x.Info()&types.IsUnsigned != 0 && v.Sort == SInt {
			return []*Term{Le(Int(0), v)}
		}
	case *types.Struct:
		if depth <= 0 || w.isOpaqueStruct(t) {
			return nil
		}
		d := U.dts[v.Sort]
		if d == nil {
			return nil
		}
		var out []*Term
		for i := 0; i < x.NumFields(); i++ {
			out = append(out, w.wf(Sel(v, i), x.Field(i).Type(), alloc, depth-1)...)
		}
		return out
	}
	return nil
}

func specDir(root string) string { return filepath.Join(root, "contracts") }
