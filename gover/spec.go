package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specErr string

func sErr(f string, a ...interface{}) { panic(specErr(fmt.Sprintf(f, a...))) }

// ---------- AST
type Ex struct {
	Op   string // ident int str call field index slice un bin quant
	Name string
	Args []*Ex
	Vars []Binder
	Trig [][]*Ex
	T    string // type text for typed builtins
}
type Binder struct{ Name, Typ string }

type Clause struct {
	Local bool
	Label string
	E     *Ex
	Text  string
	Prop  string
}
type CandT struct {
	Vars []Binder // Name with sigil
	E    *Ex
	Text string
}
type Contract struct {
	Key      string
	Params   []string
	Results  []string
	Requires []Clause
	Sets     []Clause // ghost assignments at the start of the function: assumed inside, invisible to callers (the ghosts are in modifies)
	Ensures  []Clause
	Modifies []*Ex
	ModAll   bool
	Cands    []CandT
	Lets     []struct {
		Name string
		E    *Ex
	}
	Trusted      bool
	Inline       bool
	Pure         bool
	Safe         bool
	NoPanic      bool
	Effort       int // multiplies the resource limit of the quick queries
	NoReturn     bool
	Locks        bool
	MayNotReturn bool
	Captures     []string
	Calls        []Clause
	Opaque       map[string]bool
	InlineSet    map[string]bool
	Props        []string
	RecRoot      string
	RecSig       string
	Kind         string
	File         string
	Uses         []*Ex
	LoopUses     []CandT
	Havocs       []string
	Funcs        map[string]string
	Expand       map[string]bool
	Helper       bool
}
type SpecFn struct {
	Name   string
	Params []Binder
	Ret    string
	Body   *Ex
	Pred   bool // macro
	// compiled
	keys      []string
	ptypes    []types.Type
	rtype     types.Type
	state     int
	compiling bool
	recursive bool
	decl      bool // uninterpreted
}
type Lemma struct {
	Name       string
	Params     []Binder
	Requires   []Clause
	Ensures    []Clause
	Induct     string
	Trig       [][]*Ex
	Props      []string
	Auto       bool
	Axiom      bool
	proved     bool
	Uses       []*Ex
	Generalize bool
	Cases      []*Ex
}
type Guard struct {
	Type, Lock string
	Fields     map[string]bool
}
type SpecSet struct {
	contracts map[string]*Contract
	order     []*Contract
	recs      []*Contract
	fns       map[string]*SpecFn
	lemmas    []*Lemma
	ghosts    map[string]string
	guards    []*Guard
	pureFT    map[string]bool
	roots     map[string]bool
	w         *World
	deadHints map[string]bool
	goHook    func(x *Exec, fr *Frame, st *State, i *ssa.Go, callee Val, args []Val)
}

func (s *SpecSet) find(key string) *Contract {
	if s == nil {
		return nil
	}
	return s.contracts[key]
}
func (s *SpecSet) findRec(x *Exec, fn *ssa.Function) *Contract {
	if s == nil {
		return nil
	}
	for _, c := range s.recs {
		if c.RecSig == sigText(fn) && x.C != nil && (x.C == c || rootKey(x.C.Key) == c.RecRoot) {
			return c
		}
	}
	return nil
}
func rootKey(k string) string {
	if i := strings.Index(k, "$"); i >= 0 {
		return k[:i]
	}
	return k
}
func sigText(fn *ssa.Function) string {
	var ps []string
	for _, p := range fn.Params {
		ps = append(ps, typeKey(p.Type()))
	}
	var rs []string
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rs = append(rs, typeKey(fn.Signature.Results().At(i).Type()))
	}
	return "(" + strings.Join(ps, ",") + ")(" + strings.Join(rs, ",") + ")"
}

// ---------- lexer / parser
type tok struct {
	k string // id num str op eof
	s string
}
type parser struct {
	ts  []tok
	pos int
	src string
}

func lex(s string) []tok {
	var ts []tok
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c == '$' || c == '@' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			v, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				sErr("bad string in %q", s)
			}
			ts = append(ts, tok{"str", v})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			ts = append(ts, tok{"num", s[i:j]})
			i = j
		case isId(c):
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			ts = append(ts, tok{"id", s[i:j]})
			i = j
		default:
			found := false
			for _, op := range []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "&^", "<<"} {
				if strings.HasPrefix(s[i:], op) {
					ts = append(ts, tok{"op", op})
					i += len(op)
					found = true
					break
				}
			}
			if !found {
				ts = append(ts, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(ts, tok{"eof", ""})
}
func parseEx(s string) *Ex {
	p := &parser{ts: lex(s), src: s}
	e := p.expr()
	if p.cur().k != "eof" {
		sErr("trailing %q in %q", p.cur().s, s)
	}
	return e
}
func (p *parser) cur() tok  { return p.ts[p.pos] }
func (p *parser) next() tok { t := p.ts[p.pos]; p.pos++; return t }
func (p *parser) is(s string) bool {
	t := p.cur()
	return t.k == "op" && t.s == s
}
func (p *parser) isId(s string) bool { t := p.cur(); return t.k == "id" && t.s == s }
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.pos++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		sErr("expected %q got %q in %q", s, p.cur().s, p.src)
	}
}
func (p *parser) expr() *Ex {
	if p.isId("forall") || p.isId("exists") {
		q := p.next().s
		e := &Ex{Op: "quant", Name: q}
		for {
			n := p.next().s
			t := p.typ()
			e.Vars = append(e.Vars, Binder{n, t})
			if !p.accept(",") {
				break
			}
		}
		for p.is("{") {
			p.next()
			var g []*Ex
			for {
				g = append(g, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Trig = append(e.Trig, g)
		}
		p.expect("::")
		e.Args = []*Ex{p.expr()}
		return e
	}
	return p.iff()
}
func (p *parser) iff() *Ex {
	a := p.imp()
	for p.accept("<==>") {
		b := p.imp()
		a = &Ex{Op: "bin", Name: "<==>", Args: []*Ex{a, b}}
	}
	return a
}
func (p *parser) imp() *Ex {
	a := p.or()
	if p.accept("==>") {
		var b *Ex
		if p.isId("forall") || p.isId("exists") {
			b = p.expr()
		} else {
			b = p.imp()
		}
		return &Ex{Op: "bin", Name: "==>", Args: []*Ex{a, b}}
	}
	return a
}
func (p *parser) or() *Ex {
	a := p.and()
	for p.accept("||") {
		b := p.and()
		a = &Ex{Op: "bin", Name: "||", Args: []*Ex{a, b}}
	}
	return a
}
func (p *parser) and() *Ex {
	a := p.cmp()
	for p.accept("&&") {
		var b *Ex
		if p.isId("forall") || p.isId("exists") {
			b = p.expr()
		} else {
			b = p.cmp()
		}
		a = &Ex{Op: "bin", Name: "&&", Args: []*Ex{a, b}}
	}
	return a
}
func (p *parser) cmp() *Ex {
	a := p.add()
	var res *Ex
	for {
		t := p.cur()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			p.next()
			b := p.add()
			c := &Ex{Op: "bin", Name: t.s, Args: []*Ex{a, b}}
			if res == nil {
				res = c
			} else {
				res = &Ex{Op: "bin", Name: "&&", Args: []*Ex{res, c}}
			}
			a = b
			continue
		}
		break
	}
	if res == nil {
		return a
	}
	return res
}
func (p *parser) add() *Ex {
	a := p.mul()
	for p.is("+") || p.is("-") || p.is("|") {
		o := p.next().s
		b := p.mul()
		a = &Ex{Op: "bin", Name: o, Args: []*Ex{a, b}}
	}
	return a
}
func (p *parser) mul() *Ex {
	a := p.unary()
	for p.is("*") || p.is("/") || p.is("%") || p.is("&") || p.is("&^") {
		o := p.next().s
		b := p.unary()
		a = &Ex{Op: "bin", Name: o, Args: []*Ex{a, b}}
	}
	return a
}
func (p *parser) unary() *Ex {
	if p.accept("!") {
		return &Ex{Op: "un", Name: "!", Args: []*Ex{p.unary()}}
	}
	if p.accept("-") {
		return &Ex{Op: "un", Name: "-", Args: []*Ex{p.unary()}}
	}
	if p.accept("*") {
		return &Ex{Op: "un", Name: "*", Args: []*Ex{p.unary()}}
	}
	return p.postfix()
}

var typedBuiltins = map[string]int{"unbox": 1, "typeIs": 1, "box": 1, "zero": 0, "fieldheap": 0, "elemheap": 0, "apply": -1, "applyc": -1}

func (p *parser) postfix() *Ex {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			n := p.next().s
			e = &Ex{Op: "field", Name: n, Args: []*Ex{e}}
		case p.accept("["):
			i := p.expr()
			p.expect("]")
			e = &Ex{Op: "index", Args: []*Ex{e, i}}
		case p.is("(") && (e.Op == "ident" || e.Op == "field"):
			p.next()
			name := e.Name
			if e.Op == "field" {
				// pkg.F(...) not supported, method style predicate: f(recv, ...)
				sErr("method call %s in spec", name)
			}
			c := &Ex{Op: "call", Name: name}
			if n, ok := typedBuiltins[name]; ok && n == 0 {
				c.T = p.typ()
				p.expect(")")
				e = c
				continue
			}
			first := true
			for !p.is(")") {
				if !first {
					p.expect(",")
				}
				if n, ok := typedBuiltins[name]; ok && n == 1 && len(c.Args) == 1 {
					c.T = p.typ()
					first = false
					continue
				}
				c.Args = append(c.Args, p.expr())
				first = false
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}
func (p *parser) primary() *Ex {
	t := p.next()
	switch t.k {
	case "num":
		return &Ex{Op: "int", Name: t.s}
	case "str":
		return &Ex{Op: "str", Name: t.s}
	case "id":
		return &Ex{Op: "ident", Name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	sErr("unexpected %q in %q", t.s, p.src)
	return nil
}

// typ consumes a type and returns its text.
func (p *parser) typ() string {
	t := p.next()
	switch {
	case t.k == "op" && t.s == "*":
		return "*" + p.typ()
	case t.k == "op" && t.s == "[":
		if p.accept("]") {
			return "[]" + p.typ()
		}
		sErr("array type in %q", p.src)
	case t.k == "id":
		if t.s == "func" {
			p.expect("(")
			var ps []string
			for !p.accept(")") {
				ps = append(ps, p.typ())
				p.accept(",")
			}
			r := "func(" + strings.Join(ps, ", ") + ")"
			if c := p.cur(); c.k == "id" || c.k == "op" && (c.s == "*" || c.s == "[") {
				r += " " + p.typ()
			}
			return r
		}
		if t.s == "map" || t.s == "array" {
			p.expect("[")
			k := p.typ()
			if t.s == "array" {
				if p.accept(",") {
					v := p.typ()
					p.expect("]")
					return "array[" + k + "," + v + "]"
				}
				p.expect("]")
				return "array[int," + k + "]"
			}
			p.expect("]")
			return "map[" + k + "]" + p.typ()
		}
		n := t.s
		if p.is(".") {
			p.next()
			n += "." + p.next().s
		}
		return n
	}
	sErr("bad type at %q in %q", t.s, p.src)
	return ""
}

// ---------- spec files
func LoadSpecs(w *World, files []string) (*SpecSet, error) {
	s := &SpecSet{contracts: map[string]*Contract{}, fns: map[string]*SpecFn{}, ghosts: map[string]string{}, w: w, deadHints: map[string]bool{}, pureFT: map[string]bool{}, roots: map[string]bool{}}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := s.parseFile(f, string(b)); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	return s, nil
}

func (s *SpecSet) parseFile(file, src string) (err error) {
	line := 0
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("line %d: %s", line, string(e))
				return
			}
			panic(r)
		}
	}()
	type blk struct {
		head  string
		lines []string
		no    int
	}
	var blocks []*blk
	for n, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "#"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if l[0] != ' ' && l[0] != '\t' {
			blocks = append(blocks, &blk{head: strings.TrimSpace(l), no: n + 1})
			continue
		}
		if len(blocks) == 0 {
			sErr("text before the first block")
		}
		b := blocks[len(blocks)-1]
		t := strings.TrimSpace(l)
		// clause or continuation
		w0 := t
		if i := strings.IndexAny(t, " \t:"); i > 0 {
			w0 = t[:i]
		}
		if clauseWords[w0] {
			b.lines = append(b.lines, t)
		} else if len(b.lines) > 0 {
			b.lines[len(b.lines)-1] += " " + t
		} else {
			b.head += " " + t
		}
	}
	for _, b := range blocks {
		line = b.no
		kw := b.head
		rest := ""
		if i := strings.IndexAny(kw, " \t"); i > 0 {
			kw, rest = b.head[:i], strings.TrimSpace(b.head[i:])
		}
		switch kw {
		case "func", "ext", "invoke", "functype", "rec", "send", "recv":
			s.parseContract(kw, rest, b.lines, file)
		case "fn", "pred", "decl":
			s.parseFn(kw, rest)
		case "lemma", "axiom":
			s.parseLemma(kw, rest, b.lines)
		case "ghost":
			i := strings.IndexAny(rest, " \t")
			s.ghosts[rest[:i]] = strings.TrimSpace(rest[i:])
		case "guard":
			// guard internal.Failer.lock: failure, state
			i := strings.Index(rest, ":")
			h := strings.TrimSpace(rest[:i])
			j := strings.LastIndex(h, ".")
			g := &Guard{Type: h[:j], Lock: h[j+1:], Fields: map[string]bool{}}
			for _, f := range strings.Split(rest[i+1:], ",") {
				g.Fields[strings.TrimSpace(f)] = true
			}
			s.guards = append(s.guards, g)
		case "pureftype":
			s.pureFT[strings.TrimSpace(rest)] = true
		case "root":
			// a contract from an included file that this property lists as its own obligation
			for _, k := range strings.Fields(rest) {
				s.roots[k] = true
			}
		case "include", "client":
		default:
			sErr("unknown block %q", kw)
		}
	}
	return nil
}

// checkMessage: what a receiver assumes is a clause every sender is held to
func (s *SpecSet) checkMessage(c *Contract) {
	snd := s.find("send " + strings.TrimPrefix(c.Key, "recv "))
	if snd == nil {
		sErr("%s: no send contract", c.Key)
	}
	for _, e := range c.Ensures {
		ok := false
		for _, r := range append(append([]Clause{}, snd.Requires...), snd.Ensures...) {
			ok = ok || r.Text == e.Text
		}
		if !ok {
			sErr("%s: %q is not a clause of the send contract", c.Key, e.Text)
		}
	}
}

var clauseWords = map[string]bool{"prop": true, "requires": true, "ensures": true, "proves": true, "modifies": true, "cand": true, "let": true, "trusted": true, "inline": true, "pure": true, "safe": true, "nopanic": true, "noreturn": true, "locks": true, "captures": true, "opaque": true, "inlines": true, "induct": true, "trigger": true, "auto": true, "use": true, "results": true, "sig": true, "maynotreturn": true, "havocs": true, "general": true, "case": true, "expand": true, "helper": true, "calls": true, "effort": true, "sets": true}

func splitLabel(t string) (label, rest string) {
	// label: expr   (label is an identifier followed by a single ':')
	i := 0
	for i < len(t) && (t[i] == '_' || t[i] == '-' || t[i] >= 'a' && t[i] <= 'z' || t[i] >= 'A' && t[i] <= 'Z' || t[i] >= '0' && t[i] <= '9') {
		i++
	}
	if i > 0 && i < len(t) && t[i] == ':' && (i+1 >= len(t) || t[i+1] != ':') {
		return t[:i], strings.TrimSpace(t[i+1:])
	}
	return "", t
}

func (s *SpecSet) parseContract(kind, rest string, lines []string, file string) {
	c := &Contract{Kind: kind, Opaque: map[string]bool{}, InlineSet: map[string]bool{}, File: file, Funcs: map[string]string{}, Expand: map[string]bool{}}
	// name(params) (results)
	i := len(rest)
	if q := strings.Index(rest, " :: "); q > 0 {
		// key :: (params) (results)
		lists := strings.Split(strings.TrimSpace(rest[q+4:]), ")")
		names := func(l string) (out []string) {
			for _, p := range strings.Split(strings.TrimPrefix(strings.TrimSpace(l), "("), ",") {
				if t := strings.TrimSpace(p); t != "" {
					out = append(out, t)
				}
			}
			return
		}
		c.Params = names(lists[0])
		if len(lists) > 1 {
			c.Results = names(lists[1])
		}
		i = q
	} else if strings.HasSuffix(rest, ")") {
		// find the matching '(' of the parameter list; receivers contain parens too, so scan from the method name
		j := strings.LastIndex(rest, "(")
		k := strings.LastIndex(rest[:j], "(")
		if k > 0 && strings.HasPrefix(strings.TrimSpace(rest[strings.Index(rest[k:], ")")+k+1:]), "(") && !strings.HasPrefix(rest[k:], "(*") && !isRecvParen(rest, k) {
			// results list present
			for _, r := range strings.Split(rest[j+1:len(rest)-1], ",") {
				c.Results = append(c.Results, strings.TrimSpace(r))
			}
			i = k
			pe := k + strings.Index(rest[k:], ")")
			for _, p := range strings.Split(rest[k+1:pe], ",") {
				if t := strings.TrimSpace(p); t != "" {
					c.Params = append(c.Params, t)
				}
			}
		} else {
			for _, p := range strings.Split(rest[j+1:len(rest)-1], ",") {
				if t := strings.TrimSpace(p); t != "" {
					c.Params = append(c.Params, t)
				}
			}
			i = j
		}
	}
	c.Key = strings.TrimSpace(rest[:i])
	if kind == "invoke" || kind == "functype" || kind == "send" || kind == "recv" {
		c.Key = kind + " " + c.Key
	}
	if kind == "ext" || kind == "invoke" || kind == "functype" || kind == "send" || kind == "recv" {
		c.Trusted = true
	}
	for _, l := range lines {
		w, t := l, ""
		if i := strings.IndexAny(l, " \t"); i > 0 {
			w, t = l[:i], strings.TrimSpace(l[i:])
		}
		switch w {
		case "prop":
			for _, p := range strings.Split(t, ",") {
				c.Props = append(c.Props, strings.TrimSpace(p))
			}
		case "requires":
			lb, e := splitLabel(t)
			c.Requires = append(c.Requires, Clause{Label: lb, E: parseEx(e), Text: e})
		case "sets":
			lb, e := splitLabel(t)
			c.Sets = append(c.Sets, Clause{Label: lb, E: parseEx(e), Text: e})
		case "ensures", "proves":
			// proves: shown for the function, not offered to its callers
			lb, e := splitLabel(t)
			c.Ensures = append(c.Ensures, Clause{Label: lb, E: parseEx(e), Text: e, Local: w == "proves"})
		case "modifies":
			if t == "everything" {
				c.ModAll = true
				continue
			}
			if t == "nothing" {
				continue
			}
			for _, m := range splitTop(t) {
				c.Modifies = append(c.Modifies, parseEx(m))
			}
		case "let":
			i := strings.Index(t, "=")
			c.Lets = append(c.Lets, struct {
				Name string
				E    *Ex
			}{strings.TrimSpace(t[:i]), parseEx(t[i+1:])})
		case "cand", "use":
			ct := CandT{Text: t}
			body := t
			if strings.HasPrefix(t, "$") || strings.HasPrefix(t, "@") {
				i := strings.Index(t, "::")
				for _, v := range splitTop(t[:i]) {
					j := strings.Index(v, ":")
					ct.Vars = append(ct.Vars, Binder{strings.TrimSpace(v[:j]), strings.TrimSpace(v[j+1:])})
				}
				body = t[i+2:]
			}
			ct.E = parseEx(body)
			if w == "use" {
				if len(ct.Vars) == 0 {
					c.Uses = append(c.Uses, ct.E)
				} else {
					c.LoopUses = append(c.LoopUses, ct)
				}
			} else {
				c.Cands = append(c.Cands, ct)
			}
		case "trusted":
			c.Trusted = true
		case "helper":
			c.Helper = true
		case "inline":
			c.Inline = true
		case "inlines":
			for _, p := range splitTop(t) {
				c.InlineSet[strings.TrimSpace(p)] = true
			}
		case "expand":
			for _, p := range splitTop(t) {
				c.Expand[strings.TrimSpace(p)] = true
			}
		case "calls":
			lb, e := splitLabel(t)
			c.Calls = append(c.Calls, Clause{Label: lb, E: parseEx(e), Text: e})
		case "pure":
			c.Pure = true
		case "safe":
			c.Safe = true
			c.NoPanic = true
		case "effort":
			fmt.Sscan(t, &c.Effort)
		case "nopanic":
			c.NoPanic = true
		case "noreturn":
			c.NoReturn = true
		case "maynotreturn":
			c.MayNotReturn = true
		case "locks":
			c.Locks = true
		case "captures":
			for _, p := range splitTop(t) {
				c.Captures = append(c.Captures, strings.TrimSpace(p))
			}
		case "opaque":
			for _, p := range splitTop(t) {
				c.Opaque[strings.TrimSpace(p)] = true
			}
		case "havocs":
			for _, p := range splitTop(t) {
				c.Havocs = append(c.Havocs, strings.TrimSpace(p))
			}
		case "results":
			for _, p := range splitTop(t) {
				c.Results = append(c.Results, strings.TrimSpace(p))
			}
		case "sig":
			c.RecSig = t
		default:
			sErr("unknown clause %q", w)
		}
	}
	if kind == "rec" {
		c.RecRoot = c.Key
		c.Key = "rec " + c.Key + " " + c.RecSig
		s.recs = append(s.recs, c)
		s.order = append(s.order, c)
		return
	}
	if _, dup := s.contracts[c.Key]; dup {
		sErr("duplicate contract %s", c.Key)
	}
	s.contracts[c.Key] = c
	s.order = append(s.order, c)
}
func isRecvParen(s string, k int) bool {
	// "(T).M(" : a receiver
	e := strings.Index(s[k:], ")")
	return e > 0 && k+e+1 < len(s) && s[k+e+1] == '.'
}
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

// fn name(a T, b T) T = expr
func (s *SpecSet) parseFn(kind, rest string) {
	eq := -1
	d := 0
	for i := 0; i < len(rest); i++ {
		switch rest[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case '=':
			if d == 0 && eq < 0 && kind != "decl" {
				eq = i
			}
		}
		if eq >= 0 {
			break
		}
	}
	head := rest
	if eq >= 0 {
		head = rest[:eq]
	}
	p := &parser{ts: lex(head), src: head}
	f := &SpecFn{Name: p.next().s, Pred: kind == "pred", decl: kind == "decl"}
	p.expect("(")
	for !p.is(")") {
		n := p.next().s
		f.Params = append(f.Params, Binder{n, p.typ()})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	f.Ret = p.typ()
	if eq >= 0 {
		f.Body = parseEx(rest[eq+1:])
	} else if kind != "decl" {
		sErr("function %s has no body", f.Name)
	}
	if _, dup := s.fns[f.Name]; dup {
		sErr("duplicate spec function %s", f.Name)
	}
	s.fns[f.Name] = f
}
func (s *SpecSet) parseLemma(kind, rest string, lines []string) {
	p := &parser{ts: lex(rest), src: rest}
	l := &Lemma{Name: p.next().s, Axiom: kind == "axiom"}
	p.expect("(")
	for !p.is(")") {
		n := p.next().s
		l.Params = append(l.Params, Binder{n, p.typ()})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	for _, ln := range lines {
		w, t := ln, ""
		if i := strings.IndexAny(ln, " \t"); i > 0 {
			w, t = ln[:i], strings.TrimSpace(ln[i:])
		}
		switch w {
		case "requires":
			lb, e := splitLabel(t)
			l.Requires = append(l.Requires, Clause{Label: lb, E: parseEx(e), Text: e})
		case "ensures":
			lb, e := splitLabel(t)
			l.Ensures = append(l.Ensures, Clause{Label: lb, E: parseEx(e), Text: e})
		case "induct":
			l.Induct = t
		case "general":
			l.Generalize = true
		case "trigger":
			var g []*Ex
			for _, x := range splitTop(t) {
				g = append(g, parseEx(x))
			}
			l.Trig = append(l.Trig, g)
		case "auto":
			l.Auto = true
		case "use":
			l.Uses = append(l.Uses, parseEx(t))
		case "case":
			l.Cases = append(l.Cases, parseEx(t))
		case "prop":
			for _, p := range strings.Split(t, ",") {
				l.Props = append(l.Props, strings.TrimSpace(p))
			}
		default:
			sErr("clause %q in lemma", w)
		}
	}
	s.lemmas = append(s.lemmas, l)
}

// ---------- types
func (s *SpecSet) typeOf(t string, pkg *types.Package) types.Type {
	t = strings.TrimSpace(t)
	switch {
	case strings.HasPrefix(t, "*"):
		return types.NewPointer(s.typeOf(t[1:], pkg))
	case strings.HasPrefix(t, "[]"):
		return types.NewSlice(s.typeOf(t[2:], pkg))
	case strings.HasPrefix(t, "func("):
		d, j := 0, -1
		for i := 4; i < len(t); i++ {
			if t[i] == '(' {
				d++
			} else if t[i] == ')' {
				d--
				if d == 0 {
					j = i
					break
				}
			}
		}
		mk := func(in string) *types.Tuple {
			var vs []*types.Var
			if strings.TrimSpace(in) != "" {
				for _, p := range splitTop(in) {
					vs = append(vs, types.NewVar(0, nil, "", s.typeOf(p, pkg)))
				}
			}
			return types.NewTuple(vs...)
		}
		rs := strings.TrimSpace(t[j+1:])
		rs = strings.TrimSuffix(strings.TrimPrefix(rs, "("), ")")
		return types.NewSignatureType(nil, nil, nil, mk(t[5:j]), mk(rs), false)
	case strings.HasPrefix(t, "array["):
		in := t[6 : len(t)-1]
		ps := splitTop(in)
		return &ArrT{s.typeOf(ps[0], pkg), s.typeOf(ps[1], pkg)}
	case strings.HasPrefix(t, "map["):
		d := 0
		for i := 3; i < len(t); i++ {
			if t[i] == '[' {
				d++
			} else if t[i] == ']' {
				d--
				if d == 0 {
					return types.NewMap(s.typeOf(t[4:i], pkg), s.typeOf(t[i+1:], pkg))
				}
			}
		}
	}
	switch t {
	case "int":
		return types.Typ[types.Int]
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	case "uint":
		return types.Typ[types.Uint]
	case "any":
		return types.NewInterfaceType(nil, nil)
	case "error":
		return types.Universe.Lookup("error").Type()
	case "byte":
		return types.Typ[types.Byte]
	case "int32", "rune":
		return types.Typ[types.Int32]
	case "int64":
		return types.Typ[types.Int64]
	case "uint64":
		return types.Typ[types.Uint64]
	case "float64":
		return types.Typ[types.Float64]
	case "Slice":
		return &SliceAny{}
	}
	if i := strings.Index(t, "."); i > 0 {
		p := s.w.byName[t[:i]]
		if p != nil {
			if o := p.Scope().Lookup(t[i+1:]); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return types.Unalias(tn.Type())
				}
			}
		}
		sErr("unknown type %s", t)
	}
	if pkg != nil {
		if o := pkg.Scope().Lookup(t); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	for _, n := range []string{"internal", "types", "parallel_support", "reporters", "cli"} {
		if p := s.w.byName[n]; p != nil {
			if o := p.Scope().Lookup(t); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	if len(t) > 0 && t[0] >= 'A' && t[0] <= 'Z' {
		return &OpaqueT{t}
	}
	sErr("unknown type %s", t)
	return nil
}

type SliceAny struct{}

func (a *SliceAny) Underlying() types.Type { return a }
func (a *SliceAny) String() string         { return "Slice" }

// ---------- evaluation
type SV struct {
	t   *Term
	typ types.Type
}
type Env struct {
	s      *SpecSet
	x      *Exec
	vars   map[string]SV
	st     *State
	old    *State
	entry  *State // loop entry
	pkg    *types.Package
	parent *Env
	fuel   *Term
	rec    *recorder
}
type recorder struct {
	keys map[string]*Term // heap key -> bound variable
	self *SpecFn
}

func (e *Env) with(n string, v SV) *Env {
	m := make(map[string]SV, len(e.vars)+1)
	for k, x := range e.vars {
		m[k] = x
	}
	m[n] = v
	c := *e
	c.vars = m
	return &c
}
func (e *Env) heap(key string) *Term {
	if e.rec != nil {
		if v, ok := e.rec.keys[key]; ok {
			return v
		}
		v := BVar("h", e.s.w.keySort[key])
		e.rec.keys[key] = v
		return v
	}
	if e.st == nil {
		sErr("heap access without a state")
	}
	return e.x.hget(e.st, key)
}

func (e *Env) Bool(ex *Ex) *Term {
	v := e.eval(ex)
	if v.t.Sort != SBool {
		sErr("boolean expected, got %s", v.t.Sort)
	}
	return v.t
}

func (e *Env) constOf(o types.Object) (SV, bool) {
	switch c := o.(type) {
	case *types.Const:
		return SV{constTerm(e.s.w, c.Val(), c.Type()), c.Type()}, true
	case *types.Var:
		// package-level variable
		for _, sp := range e.s.w.prog.AllPackages() {
			if sp.Pkg == c.Pkg() {
				if g, ok := sp.Members[c.Name()].(*ssa.Global); ok {
					k := e.s.w.globalKey(g)
					if e.s.w.immut[g] && (e.x == nil || e.x.immGlobal(g)) {
						v := Const(k+"@imm", e.s.w.keySort[k])
						if e.x != nil {
							e.x.immInit(g, v)
						}
						return SV{v, c.Type()}, true
					}
					return SV{e.heap(k), c.Type()}, true
				}
			}
		}
	}
	return SV{}, false
}

func (e *Env) eval(ex *Ex) SV {
	switch ex.Op {
	case "int":
		n, _ := strconv.ParseInt(ex.Name, 10, 64)
		return SV{Int(n), types.Typ[types.UntypedInt]}
	case "str":
		return SV{StrLit(ex.Name), types.Typ[types.String]}
	case "ident":
		if v, ok := e.vars[ex.Name]; ok {
			return v
		}
		switch ex.Name {
		case "true":
			return SV{True, types.Typ[types.Bool]}
		case "false":
			return SV{False, types.Typ[types.Bool]}
		case "nil":
			return SV{Int(0), types.Typ[types.UntypedNil]}
		}
		if gt, ok := e.s.ghosts[ex.Name]; ok {
			t := e.s.typeOf(gt, e.pkg)
			k := "ghost:" + ex.Name
			if _, ok := e.s.w.keySort[k]; !ok {
				e.s.w.keySort[k] = e.s.w.sortOf(t)
			}
			return SV{e.heap(k), t}
		}
		if e.pkg != nil {
			if o := e.pkg.Scope().Lookup(ex.Name); o != nil {
				if v, ok := e.constOf(o); ok {
					return v
				}
			}
		}
		sErr("unknown identifier %s", ex.Name)
	case "field":
		if id := ex.Args[0]; id.Op == "ident" {
			if _, isVar := e.vars[id.Name]; !isVar {
				if p := e.s.w.byName[id.Name]; p != nil && e.s.ghosts[id.Name] == "" {
					if o := p.Scope().Lookup(ex.Name); o != nil {
						if v, ok := e.constOf(o); ok {
							return v
						}
					}
					sErr("unknown %s.%s", id.Name, ex.Name)
				}
			}
		}
		b := e.eval(ex.Args[0])
		return e.field(b, ex.Name)
	case "index":
		b := e.eval(ex.Args[0])
		i := e.eval(ex.Args[1])
		switch u := b.typ.Underlying().(type) {
		case *ArrT:
			return SV{Select(b.t, e.coerce(i, u.Idx)), u.Elem}
		case *types.Slice:
			k := e.s.w.elemKey(u.Elem())
			return SV{Select(Select(e.heap(k), Sel(b.t, 0)), i.t), u.Elem()}
		case *types.Array:
			return SV{Select(b.t, i.t), u.Elem()}
		case *types.Map:
			d, v, _ := e.s.w.mapKeys(b.typ)
			kk := e.coerce(i, u.Key())
			has := And(Not(Eq(b.t, Int(0))), Select(Select(e.heap(d), b.t), kk))
			return SV{Ite(has, Select(Select(e.heap(v), b.t), kk), e.s.w.zero(u.Elem())), u.Elem()}
		case *types.Basic:
			if b.t.Sort == SStr {
				return SV{AppN("strat", SInt, b.t, i.t), types.Typ[types.Byte]}
			}
		}
		sErr("cannot index %v", b.typ)
	case "un":
		if ex.Name == "*" {
			b := e.eval(ex.Args[0])
			el := deref(b.typ)
			if st, ok := el.Underlying().(*types.Struct); ok && !e.s.w.isOpaqueStruct(el) {
				var as []*Term
				so := e.s.w.sortOf(el)
				for i := 0; i < st.NumFields(); i++ {
					as = append(as, Select(e.heap(e.s.w.fieldKey(el, i)), b.t))
				}
				return SV{MkDT(so, as...), el}
			}
			return SV{Select(e.heap(e.s.w.cellKey(el)), b.t), el}
		}
		b := e.eval(ex.Args[0])
		if ex.Name == "!" {
			return SV{Not(b.t), b.typ}
		}
		return SV{Sub(Int(0), b.t), b.typ}
	case "bin":
		return e.bin(ex)
	case "quant":
		var vs []*Term
		c := e
		for _, b := range ex.Vars {
			t := e.s.typeOf(b.Typ, e.pkg)
			v := BVar(b.Name, e.s.w.sortOf(t))
			if _, ok := t.(*SliceAny); ok {
				v = BVar(b.Name, SSlice)
			}
			vs = append(vs, v)
			c = c.with(b.Name, SV{v, t})
		}
		body := c.Bool(ex.Args[0])
		var pats [][]*Term
		for _, g := range ex.Trig {
			alts := [][]*Term{nil}
			for _, x := range g {
				var next [][]*Term
				for _, h := range patHeads(c.eval(x).t) {
					for _, a := range alts {
						next = append(next, append(append([]*Term{}, a...), h))
					}
				}
				alts = next
			}
			pats = append(pats, alts...)
		}
		return SV{Quant(ex.Name, vs, body, pats), types.Typ[types.Bool]}
	case "call":
		return e.call(ex)
	}
	sErr("cannot evaluate %s", ex.Op)
	return SV{}
}

// patHeads strips interpreted operators off a trigger term.
func patHeads(t *Term) []*Term {
	switch t.Op {
	case "and", "or", "not", "=>", "ite", "=", "+", "-", "*", "<", "<=":
		var out []*Term
		for _, a := range t.Args {
			if len(a.fv) == 0 {
				continue
			}
			for _, h := range patHeads(a) {
				dup := false
				for _, o := range out {
					dup = dup || o == h
				}
				if !dup {
					out = append(out, h)
				}
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	return []*Term{t}
}

func (e *Env) field(b SV, name string) SV {
	w := e.s.w
	t := b.typ
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		ptr = true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		sErr("field %s of non-struct %v", name, b.typ)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			ft := st.Field(i).Type()
			if ptr {
				if w.isOpaqueStruct(t) {
					sErr("field of opaque struct %v", t)
				}
				return SV{Select(e.heap(w.fieldKey(t, i)), b.t), ft}
			}
			if U.dts[b.t.Sort] == nil {
				return SV{AppN("ofield."+b.t.Sort+"."+name, w.sortOf(ft), b.t), ft}
			}
			return SV{Sel(b.t, i), ft}
		}
	}
	// promoted fields
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			in := e.field(b, st.Field(i).Name())
			u := deref(in.typ)
			if us, ok := u.Underlying().(*types.Struct); ok {
				for j := 0; j < us.NumFields(); j++ {
					if us.Field(j).Name() == name {
						return e.field(in, name)
					}
				}
			}
		}
	}
	sErr("no field %s in %v", name, b.typ)
	return SV{}
}

func (e *Env) coerce(v SV, t types.Type) *Term {
	so := e.s.w.sortOf(t)
	if v.t.Sort == so {
		return v.t
	}
	if b, ok := v.typ.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return e.s.w.zero(t)
	}
	if v.t.Sort == SInt && so == SBV {
		if n, ok := v.t.intVal(); ok {
			return BV(uint64(n))
		}
	}
	if v.t.Sort == SBV && so == SInt {
		if n, ok := v.t.bvVal(); ok {
			return Int(int64(n))
		}
		return App("bvToInt", v.t)
	}
	if so == SIface {
		return e.x.box(v.t, v.typ)
	}
	if so == SReal && v.t.Sort == SInt {
		if n, ok := v.t.intVal(); ok {
			return mk("int", fmt.Sprintf("%d.0", n), SReal)
		}
	}
	sErr("cannot use %v (%s) as %v", v.typ, v.t.Sort, t)
	return nil
}

func (e *Env) bin(ex *Ex) SV {
	B := types.Typ[types.Bool]
	switch ex.Name {
	case "&&":
		return SV{And(e.Bool(ex.Args[0]), e.Bool(ex.Args[1])), B}
	case "||":
		return SV{Or(e.Bool(ex.Args[0]), e.Bool(ex.Args[1])), B}
	case "==>":
		return SV{Implies(e.Bool(ex.Args[0]), e.Bool(ex.Args[1])), B}
	case "<==>":
		return SV{Eq(e.Bool(ex.Args[0]), e.Bool(ex.Args[1])), B}
	}
	a, b := e.eval(ex.Args[0]), e.eval(ex.Args[1])
	isNil := func(v SV) bool {
		bt, ok := v.typ.(*types.Basic)
		return ok && bt.Kind() == types.UntypedNil
	}
	switch ex.Name {
	case "==", "!=":
		var r *Term
		switch {
		case isNil(b) && a.t.Sort == SSlice:
			r = Eq(Sel(a.t, 0), Int(0))
		case isNil(a) && b.t.Sort == SSlice:
			r = Eq(Sel(b.t, 0), Int(0))
		case isNil(b):
			r = Eq(a.t, e.coerce(b, a.typ))
		case isNil(a):
			r = Eq(b.t, e.coerce(a, b.typ))
		case a.t.Sort != b.t.Sort:
			if a.t.Sort == SIface || a.t.Sort == SBV || a.t.Sort == SReal {
				r = Eq(a.t, e.coerce(b, a.typ))
			} else {
				r = Eq(e.coerce(a, b.typ), b.t)
			}
		default:
			r = Eq(a.t, b.t)
		}
		if ex.Name == "!=" {
			r = Not(r)
		}
		return SV{r, B}
	}
	if a.t.Sort != b.t.Sort {
		if a.t.Sort == SBV {
			b.t = e.coerce(b, a.typ)
		} else if b.t.Sort == SBV {
			a.t = e.coerce(a, b.typ)
			a.typ = b.typ
		} else if a.t.Sort == SReal {
			b.t = e.coerce(b, a.typ)
		} else {
			sErr("operands of %s: %s %s", ex.Name, a.t.Sort, b.t.Sort)
		}
	}
	rt := a.typ
	if bt, ok := rt.(*types.Basic); ok && bt.Kind() == types.UntypedInt {
		rt = b.typ
	}
	switch a.t.Sort {
	case SBV:
		switch ex.Name {
		case "&":
			return SV{BVOp("bvand", a.t, b.t), rt}
		case "|":
			return SV{BVOp("bvor", a.t, b.t), rt}
		case "<":
			return SV{BVCmp("bvult", a.t, b.t), B}
		case "<=":
			return SV{BVCmp("bvule", a.t, b.t), B}
		}
	case SStr:
		switch ex.Name {
		case "+":
			return SV{strCat(a.t, b.t), rt}
		case "<":
			return SV{Lt(App("strord", a.t), App("strord", b.t)), B}
		case "<=":
			return SV{Le(App("strord", a.t), App("strord", b.t)), B}
		}
	case SInt, SReal:
		switch ex.Name {
		case "+":
			return SV{Add(a.t, b.t), rt}
		case "-":
			return SV{Sub(a.t, b.t), rt}
		case "*":
			return SV{Mul(a.t, b.t), rt}
		case "/":
			return SV{mk("div", "", SInt, a.t, b.t), rt}
		case "%":
			return SV{mk("mod", "", SInt, a.t, b.t), rt}
		case "|", "&":
			return SV{AppN("intbit."+ex.Name, SInt, a.t, b.t), rt}
		case "<":
			return SV{Lt(a.t, b.t), B}
		case "<=":
			return SV{Le(a.t, b.t), B}
		case ">":
			return SV{Lt(b.t, a.t), B}
		case ">=":
			return SV{Le(b.t, a.t), B}
		}
	}
	sErr("operator %s on %s", ex.Name, a.t.Sort)
	return SV{}
}

func (e *Env) call(ex *Ex) SV {
	I, B := types.Typ[types.Int], types.Typ[types.Bool]
	w := e.s.w
	switch ex.Name {
	case "old":
		if e.rec != nil {
			sErr("old in a spec function")
		}
		c := *e
		c.st = e.old
		return c.eval(ex.Args[0])
	case "entry":
		c := *e
		if e.entry == nil {
			sErr("entry outside a loop")
		}
		c.st = e.entry
		return c.eval(ex.Args[0])
	case "len":
		v := e.eval(ex.Args[0])
		switch v.typ.Underlying().(type) {
		case *types.Slice, *SliceAny:
			return SV{Sel(v.t, 1), I}
		case *types.Map:
			_, _, c := w.mapKeys(v.typ)
			return SV{Ite(Eq(v.t, Int(0)), Int(0), Select(e.heap(c), v.t)), I}
		}
		if v.t.Sort == SStr {
			return SV{App("strlen", v.t), I}
		}
		sErr("len of %v", v.typ)
	case "cap":
		return SV{Sel(e.eval(ex.Args[0]).t, 2), I}
	case "ref":
		v := e.eval(ex.Args[0])
		if v.t.Sort == SSlice {
			return SV{Sel(v.t, 0), I}
		}
		return SV{v.t, I}
	case "elems":
		v := e.eval(ex.Args[0])
		u := v.typ.Underlying().(*types.Slice)
		return SV{Select(e.heap(w.elemKey(u.Elem())), Sel(v.t, 0)), &ArrT{I, u.Elem()}}
	case "mkslice":
		// mkslice(s, n): the prefix of s of length n
		v := e.eval(ex.Args[0])
		n := e.eval(ex.Args[1])
		return SV{MkDT(SSlice, Sel(v.t, 0), n.t, Sel(v.t, 2)), v.typ}
	case "dom":
		v := e.eval(ex.Args[0])
		m := v.typ.Underlying().(*types.Map)
		d, _, _ := w.mapKeys(v.typ)
		return SV{Select(e.heap(d), v.t), &ArrT{m.Key(), B}}
	case "vals":
		v := e.eval(ex.Args[0])
		m := v.typ.Underlying().(*types.Map)
		_, d, _ := w.mapKeys(v.typ)
		return SV{Select(e.heap(d), v.t), &ArrT{m.Key(), m.Elem()}}
	case "has":
		v := e.eval(ex.Args[0])
		m := v.typ.Underlying().(*types.Map)
		d, _, _ := w.mapKeys(v.typ)
		k := e.coerce(e.eval(ex.Args[1]), m.Key())
		return SV{And(Not(Eq(v.t, Int(0))), Select(Select(e.heap(d), v.t), k)), B}
	case "ite":
		c := e.Bool(ex.Args[0])
		a, b := e.eval(ex.Args[1]), e.eval(ex.Args[2])
		if a.t.Sort != b.t.Sort {
			if bt, ok := a.typ.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
				a = SV{e.coerce(a, b.typ), b.typ}
			} else {
				b = SV{e.coerce(b, a.typ), a.typ}
			}
		}
		t := a.typ
		if bt, ok := t.(*types.Basic); ok && bt.Kind() == types.UntypedInt {
			t = b.typ
		}
		return SV{Ite(c, a.t, b.t), t}
	case "fresh":
		v := e.eval(ex.Args[0])
		t := v.t
		if t.Sort == SSlice {
			t = Sel(t, 0)
		}
		return SV{Le(e.old.alloc, t), B}
	case "allocated":
		v := e.eval(ex.Args[0])
		t := v.t
		if t.Sort == SSlice {
			t = Sel(t, 0)
		}
		return SV{Lt(t, e.st.alloc), B}
	case "freshloop":
		v := e.eval(ex.Args[0])
		t := v.t
		if t.Sort == SSlice {
			t = Sel(t, 0)
		}
		return SV{Le(e.entry.alloc, t), B}
	case "unbox":
		v := e.eval(ex.Args[0])
		t := e.s.typeOf(ex.T, e.pkg)
		return SV{e.x.unbox(v.t, t), t}
	case "typeIs":
		v := e.eval(ex.Args[0])
		t := e.s.typeOf(ex.T, e.pkg)
		return SV{Eq(App("tagOf", v.t), tagOfType(t)), B}
	case "box":
		v := e.eval(ex.Args[0])
		t := e.s.typeOf(ex.T, e.pkg)
		return SV{e.x.box(e.coerce(v, t), t), types.NewInterfaceType(nil, nil)}
	case "zero":
		t := e.s.typeOf(ex.T, e.pkg)
		return SV{w.zero(t), t}
	case "store":
		a := e.eval(ex.Args[0])
		u := a.typ.Underlying().(*ArrT)
		i := e.coerce(e.eval(ex.Args[1]), u.Idx)
		v := e.coerce(e.eval(ex.Args[2]), u.Elem)
		return SV{Store(a.t, i, v), a.typ}
	case "upd":
		// upd(structValue, fieldname, value)
		a := e.eval(ex.Args[0])
		st := a.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == ex.Args[1].Name {
				return SV{Upd(a.t, i, e.coerce(e.eval(ex.Args[2]), st.Field(i).Type())), a.typ}
			}
		}
		sErr("upd: no field %s", ex.Args[1].Name)
	case "held":
		// held(p.lock): the lock field of p is held by this call
		f := ex.Args[0]
		b := e.eval(f.Args[0])
		k := lockKey(deref(b.typ), f.Name)
		e.x.registerKey(k, arrSort(SInt, SInt))
		return SV{Not(Eq(Select(e.heap(k), b.t), Int(0))), B}
	case "apply":
		f := e.eval(ex.Args[0])
		var args []SV
		for _, a := range ex.Args[1:] {
			args = append(args, e.eval(a))
		}
		return e.x.applyPure(e, f, args)
	case "applyc":
		// applyc(f, contents, length): apply to a slice given by its contents
		f := e.eval(ex.Args[0])
		sig := f.typ.Underlying().(*types.Signature)
		ts := []*Term{f.t}
		for _, a := range ex.Args[1:] {
			ts = append(ts, e.eval(a).t)
		}
		rt := sig.Results().At(0).Type()
		return SV{AppN("apply."+pureKey(sig), w.sortOf(rt), ts...), rt}
	case "extern":
		// extern("strings.HasPrefix", args...) : the uninterpreted meaning given to an external function
		name := ex.Args[0].Name
		rt := e.s.typeOf(ex.Args[1].Name, e.pkg)
		var ts []*Term
		for _, a := range ex.Args[2:] {
			v := e.eval(a)
			ts = append(ts, e.pureArg(v)...)
		}
		return SV{AppN("ext."+name, w.sortOf(rt), ts...), rt}
	case "isconcrete":
		v := e.eval(ex.Args[0])
		return SV{Not(Eq(v.t, e.s.w.zeroSort(v.t.Sort))), B}
	case "lower":
		v := e.eval(ex.Args[0])
		return SV{lowerTerm(v.t), v.typ}
	case "strord":
		v := e.eval(ex.Args[0])
		return SV{App("strord", v.t), types.Typ[types.Float64]}
	}
	f := e.s.fns[ex.Name]
	if f == nil {
		sErr("unknown function %s", ex.Name)
	}
	if len(ex.Args) != len(f.Params) {
		sErr("%s takes %d arguments", f.Name, len(f.Params))
	}
	e.s.compile(e.x, f)
	var args []*Term
	for i, a := range ex.Args {
		args = append(args, e.coerce(e.eval(a), f.ptypes[i]))
	}
	return e.applyFn(f, args)
}
func (e *Env) pureArg(v SV) []*Term {
	if u, ok := v.typ.Underlying().(*types.Slice); ok {
		k := e.s.w.elemKey(u.Elem())
		return []*Term{Select(e.heap(k), Sel(v.t, 0)), Sel(v.t, 1)}
	}
	return []*Term{v.t}
}

func (e *Env) applyFn(f *SpecFn, args []*Term) SV {
	if f.Pred {
		c := *e
		c.vars = map[string]SV{}
		for i, p := range f.Params {
			c.vars[p.Name] = SV{args[i], f.ptypes[i]}
		}
		r := c.eval(f.Body)
		return SV{e.coerceTo(r, f.rtype), f.rtype}
	}
	if f.compiling {
		// recursive occurrence
		f.recursive = true
		if e.rec == nil || e.rec.self != f {
			sErr("mutual recursion through %s", f.Name)
		}
		var hs []*Term
		for _, k := range f.keys {
			hs = append(hs, e.heap(k))
		}
		all := append([]*Term{e.fuel}, append(hs, args...)...)
		if f.state == 1 { // discovery pass
			return SV{Fresh("disc", e.s.w.sortOf(f.rtype)), f.rtype}
		}
		return SV{App("f:"+f.Name, all...), f.rtype}
	}
	var hs []*Term
	for _, k := range f.keys {
		hs = append(hs, e.heap(k))
	}
	if f.recursive {
		fuel := fuelS(fuelS(Const("fuel0", "Fuel")))
		if e.fuel != nil && false {
			fuel = e.fuel
		}
		return SV{App("f:"+f.Name, append([]*Term{fuel}, append(hs, args...)...)...), f.rtype}
	}
	return SV{App("f:"+f.Name, append(hs, args...)...), f.rtype}
}
func fuelS(t *Term) *Term {
	DeclFun("fuelS", []Sort{"Fuel"}, "Fuel")
	return App("fuelS", t)
}
func (e *Env) coerceTo(v SV, t types.Type) *Term { return e.coerce(v, t) }

// compile declares the function symbol and its definitional axiom.
func (s *SpecSet) compile(x *Exec, f *SpecFn) {
	if f.state == 3 || f.compiling {
		return
	}
	f.ptypes = nil
	for _, p := range f.Params {
		f.ptypes = append(f.ptypes, s.typeOf(p.Typ, nil))
	}
	f.rtype = s.typeOf(f.Ret, nil)
	if f.Pred {
		f.state = 3
		return
	}
	if f.decl {
		var so []Sort
		for _, t := range f.ptypes {
			so = append(so, s.w.sortOf(t))
		}
		DeclFun("f:"+f.Name, so, s.w.sortOf(f.rtype))
		f.state = 3
		return
	}
	f.compiling = true
	defer func() { f.compiling = false }()
	vars := map[string]SV{}
	var vs []*Term
	for i, p := range f.Params {
		v := BVar(p.Name, s.w.sortOf(f.ptypes[i]))
		vs = append(vs, v)
		vars[p.Name] = SV{v, f.ptypes[i]}
	}
	// pass 1: discover heap keys and recursion
	f.state = 1
	rec := &recorder{keys: map[string]*Term{}, self: f}
	e := &Env{s: s, x: x, vars: vars, rec: rec, fuel: Const("fuel0", "Fuel")}
	e.eval(f.Body)
	f.keys = nil
	for k := range rec.keys {
		f.keys = append(f.keys, k)
	}
	sort.Strings(f.keys)
	// pass 2
	f.state = 2
	var so []Sort
	var hv []*Term
	rec2 := &recorder{keys: map[string]*Term{}, self: f}
	for _, k := range f.keys {
		v := BVar("h", s.w.keySort[k])
		rec2.keys[k] = v
		hv = append(hv, v)
		so = append(so, s.w.keySort[k])
	}
	for _, t := range f.ptypes {
		so = append(so, s.w.sortOf(t))
	}
	if f.recursive {
		so = append([]Sort{"Fuel"}, so...)
	}
	DeclFun("f:"+f.Name, so, s.w.sortOf(f.rtype))
	fu := BVar("fu", "Fuel")
	e = &Env{s: s, x: x, vars: vars, rec: rec2, fuel: fu}
	body := e.coerce(e.eval(f.Body), f.rtype)
	args := append(append([]*Term{}, hv...), vs...)
	if f.recursive {
		lhs := App("f:"+f.Name, append([]*Term{fuelS(fu)}, args...)...)
		low := App("f:"+f.Name, append([]*Term{fu}, args...)...)
		qs := append([]*Term{fu}, args...)
		U.axioms["f:"+f.Name] = append(U.axioms["f:"+f.Name],
			Forall(qs, Eq(lhs, low), []*Term{lhs}),
			Forall(qs, Eq(lhs, body), []*Term{lhs}))
	} else {
		lhs := App("f:"+f.Name, args...)
		if len(args) == 0 {
			U.axioms["f:"+f.Name] = append(U.axioms["f:"+f.Name], Eq(lhs, body))
		} else {
			U.axioms["f:"+f.Name] = append(U.axioms["f:"+f.Name], Forall(args, Eq(lhs, body), []*Term{lhs}))
		}
	}
	f.state = 3
}

var _ = constant.MakeBool
