package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed SMT expressions.
type Sort = string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SStr   Sort = "Str"
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
	SFunc  Sort = "Func"
	SReal  Sort = "Real"
	SBV    Sort = "(_ BitVec 64)"
)

func arrSort(i, e Sort) Sort { return "(Array " + i + " " + e + ")" }

// splitArr returns index and element sorts of an array sort.
func splitArr(s Sort) (Sort, Sort, bool) {
	if !strings.HasPrefix(s, "(Array ") {
		return "", "", false
	}
	in := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:], true
			}
		}
	}
	return "", "", false
}

type Term struct {
	Op   string // "const","var","int","app","forall","exists", or SMT builtin
	Name string // symbol name / literal
	Args []*Term
	Sort Sort
	Pats [][]*Term
	id   int
	fv   map[*Term]bool // free bound variables
}

type Universe struct {
	tab    map[string]*Term
	n      int
	funs   map[string]*FunDecl
	dts    map[string]*DT // datatypes by sort
	dtOrd  []string
	usorts map[string]bool
	axioms map[string][]*Term // symbol -> axioms to include when it is used
	fresh  int
}
type FunDecl struct {
	Name string
	Args []Sort
	Ret  Sort
	Inj  bool
}
type DT struct {
	Sort   Sort
	Ctor   string
	Fields []string // selector names
	FSorts []Sort
}

var U = &Universe{tab: map[string]*Term{}, funs: map[string]*FunDecl{}, dts: map[string]*DT{}, usorts: map[string]bool{}, axioms: map[string][]*Term{}}

func mk(op, name string, so Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(so)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := U.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, Name: name, Args: args, Sort: so}
	U.n++
	t.id = U.n
	if op == "var" {
		t.fv = map[*Term]bool{t: true}
	} else {
		for _, a := range args {
			if len(a.fv) > 0 {
				if t.fv == nil {
					t.fv = a.fv
				} else if !subset(a.fv, t.fv) {
					n := map[*Term]bool{}
					for v := range t.fv {
						n[v] = true
					}
					for v := range a.fv {
						n[v] = true
					}
					t.fv = n
				}
			}
		}
	}
	U.tab[k] = t
	return t
}
func subset(a, b map[*Term]bool) bool {
	for v := range a {
		if !b[v] {
			return false
		}
	}
	return true
}

var True = mk("bool", "true", SBool)
var False = mk("bool", "false", SBool)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Int(n int64) *Term            { return mk("int", strconv.FormatInt(n, 10), SInt) }
func BV(n uint64) *Term            { return mk("bv", strconv.FormatUint(n, 10), SBV) }
func Const(name string, s Sort) *Term { return mk("const", name, s) }
func Fresh(prefix string, s Sort) *Term {
	U.fresh++
	return Const(fmt.Sprintf("%s!%d", prefix, U.fresh), s)
}
func BVar(prefix string, s Sort) *Term {
	U.fresh++
	return mk("var", fmt.Sprintf("%s?%d", prefix, U.fresh), s)
}

func DeclFun(name string, args []Sort, ret Sort) {
	if _, ok := U.funs[name]; !ok {
		U.funs[name] = &FunDecl{Name: name, Args: args, Ret: ret}
	}
}
func App(name string, args ...*Term) *Term {
	f := U.funs[name]
	if f == nil {
		panic("undeclared function " + name)
	}
	if len(args) != len(f.Args) {
		panic(fmt.Sprintf("arity of %s: %d vs %d", name, len(args), len(f.Args)))
	}
	for i := range args {
		if args[i].Sort != f.Args[i] {
			panic(fmt.Sprintf("sort mismatch in %s arg %d: %s vs %s", name, i, args[i].Sort, f.Args[i]))
		}
	}
	if len(args) == 0 {
		return Const(name, f.Ret)
	}
	return mk("app", name, f.Ret, args...)
}
func AppN(name string, ret Sort, args ...*Term) *Term {
	var ss []Sort
	for _, a := range args {
		ss = append(ss, a.Sort)
	}
	DeclFun(name, ss, ret)
	return App(name, args...)
}

func (t *Term) isLit() bool { return t.Op == "int" || t.Op == "bool" || t.Op == "bv" }
func (t *Term) intVal() (int64, bool) {
	if t.Op == "int" {
		n, err := strconv.ParseInt(t.Name, 10, 64)
		return n, err == nil
	}
	return 0, false
}
func (t *Term) bvVal() (uint64, bool) {
	if t.Op == "bv" {
		n, err := strconv.ParseUint(t.Name, 10, 64)
		return n, err == nil
	}
	return 0, false
}
func isStrLit(t *Term) bool { return t.Op == "const" && strings.HasPrefix(t.Name, "str.") }

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return mk("not", "", SBool, a)
}
func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False || seen[Not(a)] {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}
func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		xs := []*Term{a}
		if a.Op == "or" {
			xs = a.Args
		}
		for _, x := range xs {
			if x == False || seen[x] {
				continue
			}
			if x == True || seen[Not(x)] {
				return True
			}
			seen[x] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	// (a&b)|(a&!b) -> a ; common for joins
	if len(out) == 2 {
		if r := orJoin(out[0], out[1]); r != nil {
			return r
		}
	}
	return mk("or", "", SBool, out...)
}
func conjuncts(a *Term) []*Term {
	if a.Op == "and" {
		return a.Args
	}
	return []*Term{a}
}
func orJoin(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	inA := map[*Term]bool{}
	for _, x := range ca {
		inA[x] = true
	}
	var common, ra, rb []*Term
	for _, x := range ca {
		if inB[x] {
			common = append(common, x)
		} else {
			ra = append(ra, x)
		}
	}
	for _, x := range cb {
		if !inA[x] {
			rb = append(rb, x)
		}
	}
	if len(ra) == 0 || len(rb) == 0 {
		return And(common...)
	}
	if len(ra) == 1 && len(rb) == 1 && ra[0] == Not(rb[0]) {
		return And(common...)
	}
	if len(common) > 0 {
		return And(append(append([]*Term{}, common...), mk("or", "", SBool, And(ra...), And(rb...)))...)
	}
	return nil
}
func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "", SBool, a, b)
}
func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.Sort != b.Sort {
		panic("ite sorts " + a.Sort + " " + b.Sort)
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if b.Op == "ite" && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	if a.Op == "ite" && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	return mk("ite", "", a.Sort, c, a, b)
}

func distinctLits(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isLit() && b.isLit() {
		return true
	}
	return isStrLit(a) && isStrLit(b)
}
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic("eq sorts " + a.Sort + " vs " + b.Sort + "  " + a.String() + "  " + b.String())
	}
	if distinctLits(a, b) {
		return False
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.Sort == SInt {
		d := linSub(linOf(a), linOf(b))
		if len(d.m) == 0 {
			return Bool(d.c == 0)
		}
	}
	if a.Op == "ite" && (b.isLit() || isStrLit(b)) {
		if (a.Args[1] == b || distinctLits(a.Args[1], b)) && (a.Args[2] == b || distinctLits(a.Args[2], b)) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
	}
	if b.Op == "ite" && (a.isLit() || isStrLit(a)) {
		return Eq(b, a)
	}
	if dt := U.dts[a.Sort]; dt != nil && a.Op == "app" && a.Name == dt.Ctor && b.Op == "app" && b.Name == dt.Ctor {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

// ---- linear arithmetic normal form
type lin struct {
	m map[*Term]int64
	c int64
}

func linOf(t *Term) lin {
	switch t.Op {
	case "int":
		if n, ok := t.intVal(); ok {
			return lin{nil, n}
		}
	case "+":
		r := lin{map[*Term]int64{}, 0}
		for _, a := range t.Args {
			l := linOf(a)
			r.c += l.c
			for k, v := range l.m {
				r.m[k] += v
				if r.m[k] == 0 {
					delete(r.m, k)
				}
			}
		}
		return r
	case "*":
		if n, ok := t.Args[0].intVal(); ok {
			l := linOf(t.Args[1])
			r := lin{map[*Term]int64{}, l.c * n}
			for k, v := range l.m {
				r.m[k] = v * n
			}
			return r
		}
	}
	return lin{map[*Term]int64{t: 1}, 0}
}
func linSub(a, b lin) lin {
	r := lin{map[*Term]int64{}, a.c - b.c}
	for k, v := range a.m {
		r.m[k] = v
	}
	for k, v := range b.m {
		r.m[k] -= v
		if r.m[k] == 0 {
			delete(r.m, k)
		}
	}
	return r
}
func linTerm(l lin) *Term {
	var ks []*Term
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, k := range ks {
		if l.m[k] == 1 {
			args = append(args, k)
		} else {
			args = append(args, mk("*", "", SInt, Int(l.m[k]), k))
		}
	}
	if l.c != 0 || len(args) == 0 {
		args = append(args, Int(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", "", SInt, args...)
}
func Add(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("+", "", SReal, a, b)
	}
	la, lb := linOf(a), linOf(b)
	r := lin{map[*Term]int64{}, la.c + lb.c}
	for k, v := range la.m {
		r.m[k] = v
	}
	for k, v := range lb.m {
		r.m[k] += v
		if r.m[k] == 0 {
			delete(r.m, k)
		}
	}
	return linTerm(r)
}
func Sub(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("-", "", SReal, a, b)
	}
	return linTerm(linSub(linOf(a), linOf(b)))
}
func Mul(a, b *Term) *Term {
	if n, ok := a.intVal(); ok {
		l := linOf(b)
		r := lin{map[*Term]int64{}, l.c * n}
		if n != 0 {
			for k, v := range l.m {
				r.m[k] = v * n
			}
		}
		return linTerm(r)
	}
	if _, ok := b.intVal(); ok {
		return Mul(b, a)
	}
	return mk("*", "", a.Sort, a, b)
}
func Le(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("<=", "", SBool, a, b)
	}
	d := linSub(linOf(a), linOf(b))
	if len(d.m) == 0 {
		return Bool(d.c <= 0)
	}
	return mk("<=", "", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if a.Sort == SReal {
		return mk("<", "", SBool, a, b)
	}
	d := linSub(linOf(a), linOf(b))
	if len(d.m) == 0 {
		return Bool(d.c < 0)
	}
	return mk("<", "", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Select(a, i *Term) *Term {
	_, e, ok := splitArr(a.Sort)
	if !ok {
		panic("select on " + a.Sort)
	}
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if distinctIdx(a.Args[1], i) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	return mk("select", "", e, a, i)
}
func distinctIdx(a, b *Term) bool {
	if distinctLits(a, b) {
		return true
	}
	if a.Sort == SInt {
		d := linSub(linOf(a), linOf(b))
		return len(d.m) == 0 && d.c != 0
	}
	return false
}
func Store(a, i, v *Term) *Term {
	_, e, ok := splitArr(a.Sort)
	if !ok || e != v.Sort {
		panic(fmt.Sprintf("store sort %s <- %s", a.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", "", a.Sort, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, v) }

// datatypes
func DeclDT(so Sort, fields []string, fsorts []Sort) *DT {
	if d, ok := U.dts[so]; ok {
		return d
	}
	d := &DT{Sort: so, Ctor: "mk_" + so, FSorts: fsorts}
	for _, f := range fields {
		d.Fields = append(d.Fields, so+"."+f)
	}
	U.dts[so] = d
	U.dtOrd = append(U.dtOrd, so)
	DeclFun(d.Ctor, fsorts, so)
	for i, f := range d.Fields {
		DeclFun(f, []Sort{so}, fsorts[i])
	}
	return d
}
func MkDT(so Sort, args ...*Term) *Term {
	d := U.dts[so]
	// eta: mk(f1(x),...,fn(x)) = x
	if len(args) > 0 && args[0].Op == "app" && args[0].Name == d.Fields[0] {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if !(a.Op == "app" && a.Name == d.Fields[i] && a.Args[0] == x) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return App(d.Ctor, args...)
}
func Sel(x *Term, i int) *Term {
	d := U.dts[x.Sort]
	if d == nil {
		panic("Sel on " + x.Sort)
	}
	if x.Op == "app" && x.Name == d.Ctor {
		return x.Args[i]
	}
	if x.Op == "const" && x.Name == d.Ctor {
		panic("empty")
	}
	if x.Op == "ite" && selPush(x, d, 0) {
		return Ite(x.Args[0], Sel(x.Args[1], i), Sel(x.Args[2], i))
	}
	return App(d.Fields[i], x)
}
func selPush(x *Term, d *DT, depth int) bool {
	if depth > 6 {
		return false
	}
	if x.Op == "app" && x.Name == d.Ctor {
		return true
	}
	if x.Op == "ite" {
		return selPush(x.Args[1], d, depth+1) || selPush(x.Args[2], d, depth+1)
	}
	return false
}
func Upd(x *Term, i int, v *Term) *Term {
	d := U.dts[x.Sort]
	args := make([]*Term, len(d.Fields))
	for k := range args {
		if k == i {
			args[k] = v
		} else {
			args[k] = Sel(x, k)
		}
	}
	return MkDT(x.Sort, args...)
}

// BV
func BVOp(op string, a, b *Term) *Term {
	x, ok1 := a.bvVal()
	y, ok2 := b.bvVal()
	if ok1 && ok2 {
		switch op {
		case "bvand":
			return BV(x & y)
		case "bvor":
			return BV(x | y)
		case "bvxor":
			return BV(x ^ y)
		case "bvadd":
			return BV(x + y)
		case "bvsub":
			return BV(x - y)
		case "bvshl":
			return BV(x << y)
		case "bvlshr":
			return BV(x >> y)
		}
	}
	if op == "bvand" && ok1 && x == 0 || op == "bvand" && ok2 && y == 0 {
		return BV(0)
	}
	return mk(op, "", SBV, a, b)
}
func BVCmp(op string, a, b *Term) *Term {
	x, ok1 := a.bvVal()
	y, ok2 := b.bvVal()
	if ok1 && ok2 {
		switch op {
		case "bvult":
			return Bool(x < y)
		case "bvule":
			return Bool(x <= y)
		}
	}
	return mk(op, "", SBool, a, b)
}

func Quant(kind string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	used := false
	for _, v := range vars {
		if body.fv[v] {
			used = true
		}
	}
	if !used {
		return body
	}
	// prune unused vars
	var vs []*Term
	for _, v := range vars {
		if body.fv[v] {
			vs = append(vs, v)
		}
	}
	// canonical bound variable names so that alpha-equal quantifiers hash-cons
	sub := map[*Term]*Term{}
	depth := qdepth(body)
	cnt := 0
	for _, v := range vs {
		nv := mk("var", fmt.Sprintf("q%d_%d", depth, cnt), v.Sort)
		cnt++
		if nv != v {
			sub[v] = nv
		}
	}
	clash := false
	for _, nv := range sub {
		if body.fv[nv] {
			clash = true
		}
	}
	if len(sub) > 0 && !clash {
		body = Subst(body, sub)
		for i := range vs {
			if n, ok := sub[vs[i]]; ok {
				vs[i] = n
			}
		}
		var np [][]*Term
		for _, p := range pats {
			var q []*Term
			for _, x := range p {
				q = append(q, Subst(x, sub))
			}
			np = append(np, q)
		}
		pats = np
	}
	if pats != nil {
		// a trigger simplified away to something that does not mention the variables is no trigger
		var np [][]*Term
		for _, p := range pats {
			ok := true
			for _, x := range p {
				if len(x.Args) == 0 {
					ok = false
				}
			}
			for _, v := range vs {
				in := false
				for _, x := range p {
					in = in || x.fv[v]
				}
				ok = ok && in
			}
			if ok {
				np = append(np, p)
			}
		}
		pats = np
	}
	if pats == nil {
		pats = inferPats(vs, body)
	}
	args := append(append([]*Term{}, vs...), body)
	name := kind
	for _, p := range pats {
		name += "{"
		for _, x := range p {
			name += strconv.Itoa(x.id) + ","
		}
		name += "}"
	}
	t := mk(kind, name, SBool, args...)
	if t.fv != nil {
		n := map[*Term]bool{}
		for v := range body.fv {
			n[v] = true
		}
		for _, v := range vs {
			delete(n, v)
		}
		if len(n) == 0 {
			n = nil
		}
		t.fv = n
	}
	t.Pats = pats
	return t
}

var qdCache = map[*Term]int{}

func qdepth(t *Term) int {
	if len(t.Args) == 0 {
		return 0
	}
	if d, ok := qdCache[t]; ok {
		return d
	}
	d := 0
	for _, a := range t.Args {
		if x := qdepth(a); x > d {
			d = x
		}
	}
	if t.Op == "forall" || t.Op == "exists" {
		d++
	}
	qdCache[t] = d
	return d
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if len(pats) == 0 {
		return Quant("forall", vars, body, nil)
	}
	return Quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term) *Term { return Quant("exists", vars, body, nil) }

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
func rebuild(t *Term, na []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "not":
		return Not(na[0])
	case "and":
		return And(na...)
	case "or":
		return Or(na...)
	case "=>":
		return Implies(na[0], na[1])
	case "ite":
		return Ite(na[0], na[1], na[2])
	case "=":
		return Eq(na[0], na[1])
	case "+":
		if t.Sort == SInt {
			r := na[0]
			for _, x := range na[1:] {
				r = Add(r, x)
			}
			return r
		}
	case "*":
		return Mul(na[0], na[1])
	case "<":
		return Lt(na[0], na[1])
	case "<=":
		return Le(na[0], na[1])
	case "select":
		return Select(na[0], na[1])
	case "store":
		return Store(na[0], na[1], na[2])
	case "app":
		// selector simplification
		if i := strings.LastIndex(t.Name, "."); i > 0 && len(na) == 1 {
			if d := U.dts[na[0].Sort]; d != nil {
				for k, f := range d.Fields {
					if f == t.Name {
						return Sel(na[0], k)
					}
				}
			}
		}
		return App(t.Name, na...)
	case "forall", "exists":
		var np [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			np = append(np, q)
		}
		return Quant(t.Op, append([]*Term{}, na[:len(na)-1]...), na[len(na)-1], np)
	}
	return mk(t.Op, t.Name, t.Sort, na...)
}

// inferPats chooses trigger patterns: minimal uninterpreted/select subterms covering the variables.
func inferPats(vars []*Term, body *Term) [][]*Term {
	vs := map[*Term]bool{}
	for _, v := range vars {
		vs[v] = true
	}
	var cands []*Term
	seen := map[*Term]bool{}
	okPat := map[*Term]int{}
	var valid func(t *Term) bool // t may appear inside a pattern
	valid = func(t *Term) bool {
		if r, ok := okPat[t]; ok {
			return r == 1
		}
		r := 1
		touches := false
		for v := range t.fv {
			if vs[v] {
				touches = true
			}
		}
		switch t.Op {
		case "var", "const", "int", "bool", "bv":
		case "app", "select", "store", "constarr":
			for _, a := range t.Args {
				if !valid(a) {
					r = 0
				}
			}
		default:
			if touches || len(t.fv) > 0 {
				r = 0
			} else if t.Op == "ite" || t.Op == "+" || t.Op == "*" {
				r = 1 // ground interpreted term
			} else {
				r = 0
			}
		}
		okPat[t] = r
		return r == 1
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(t.fv) == 0 {
			return
		}
		seen[t] = true
		if t.Op == "app" || t.Op == "select" {
			has := false
			for v := range t.fv {
				if vs[v] {
					has = true
				}
			}
			inner := true // only quantifier-local vars that we bind, or outer
			if has && inner && valid(t) {
				cands = append(cands, t)
			}
		}
		for i, a := range t.Args {
			if (t.Op == "forall" || t.Op == "exists") && i < len(t.Args)-1 {
				continue
			}
			walk(a)
		}
	}
	walk(body)
	// exclude candidates that mention inner bound variables (not ours and not free in body)
	var cs []*Term
	for _, c := range cands {
		ok := true
		for v := range c.fv {
			if !vs[v] && !body.fv[v] {
				ok = false
			}
		}
		if ok {
			cs = append(cs, c)
		}
	}
	cover := func(t *Term) int {
		n := 0
		for v := range t.fv {
			if vs[v] {
				n++
			}
		}
		return n
	}
	contains := func(big, small *Term) bool {
		found := false
		s := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if found || s[t] {
				return
			}
			s[t] = true
			if t == small {
				found = true
				return
			}
			for _, a := range t.Args {
				w(a)
			}
		}
		w(big)
		return found
	}
	var full []*Term
	for _, c := range cs {
		if cover(c) == len(vars) {
			full = append(full, c)
		}
	}
	var out [][]*Term
	for _, c := range full {
		min := true
		for _, d := range full {
			if d != c && contains(c, d) {
				min = false
			}
		}
		if min {
			out = append(out, []*Term{c})
		}
	}
	if len(out) > 0 {
		if len(out) > 6 {
			out = out[:6]
		}
		return out
	}
	// multi-pattern: greedy
	var mp []*Term
	cov := map[*Term]bool{}
	for len(cov) < len(vars) {
		var best *Term
		bn := 0
		for _, c := range cs {
			n := 0
			for v := range c.fv {
				if vs[v] && !cov[v] {
					n++
				}
			}
			if n > bn || (n == bn && n > 0 && best != nil && c.id < best.id && !contains(c, best)) {
				best, bn = c, n
			}
		}
		if best == nil {
			return nil
		}
		// minimise
		for _, c := range cs {
			if c != best && contains(best, c) {
				n := 0
				for v := range c.fv {
					if vs[v] && !cov[v] {
						n++
					}
				}
				if n == bn {
					best = c
				}
			}
		}
		mp = append(mp, best)
		for v := range best.fv {
			if vs[v] {
				cov[v] = true
			}
		}
	}
	return [][]*Term{mp}
}

func smtName(n string) string {
	ok := true
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '@' || c == '$') {
			ok = false
		}
	}
	if ok && !(n[0] >= '0' && n[0] <= '9') {
		return n
	}
	return "|" + strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, n) + "|"
}

func (t *Term) String() string {
	var b strings.Builder
	writeTerm(&b, t, nil, 0)
	s := b.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
func writeTerm(b *strings.Builder, t *Term, names map[*Term]string, depth int) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	if names == nil && depth > 12 {
		b.WriteString("…")
		return
	}
	switch t.Op {
	case "int":
		if t.Name[0] == '-' {
			b.WriteString("(- " + t.Name[1:] + ")")
		} else {
			b.WriteString(t.Name)
		}
	case "bv":
		b.WriteString("(_ bv" + t.Name + " 64)")
	case "bool":
		b.WriteString(t.Name)
	case "const", "var":
		b.WriteString(smtName(t.Name))
	case "constarr":
		b.WriteString("((as const " + t.Sort + ") ")
		writeTerm(b, t.Args[0], names, depth+1)
		b.WriteString(")")
	case "forall", "exists":
		b.WriteString("(" + t.Op + " (")
		n := len(t.Args) - 1
		for i := 0; i < n; i++ {
			b.WriteString("(" + smtName(t.Args[i].Name) + " " + t.Args[i].Sort + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		writeTerm(b, t.Args[n], names, depth+1)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					writeTerm(b, x, names, depth+1)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	default:
		op := t.Op
		if op == "app" {
			op = smtName(t.Name)
		}
		b.WriteString("(" + op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			writeTerm(b, a, names, depth+1)
		}
		b.WriteString(")")
	}
}
