package main

// The contract language: lexer, expression parser, contract file parser.

import (
	"fmt"
	"os"
	"slices"
	"strconv"
	"strings"
)

type Expr struct {
	Op   string // id, int, str, bool, nil, call, idx, slice, field, bin, not, neg, forall, exists, ite, old, let, addr
	Name string
	Args []*Expr
	Vars []QVar
	Trig [][]*Expr
	Pos  string
}

type QVar struct{ Name, Type string }

type tok struct {
	k string // id int str chr op eof
	s string
}

func lex(src string, pos string) []tok {
	var out []tok
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "++", "<<", ">>", ":=", "..."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '"' || c == '`':
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && c == '"' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				die("%s: bad string %s", pos, src[i:j+1])
			}
			out = append(out, tok{"str", s})
			i = j + 1
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				die("%s: bad char %s", pos, src[i:j+1])
			}
			out = append(out, tok{"int", fmt.Sprint([]rune(s)[0])})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
		case isId(c):
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
		default:
			matched := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					matched = true
					break
				}
			}
			if !matched {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""})
}

type xparser struct {
	t   []tok
	p   int
	pos string
}

func parseExpr(src, pos string) *Expr {
	p := &xparser{t: lex(src, pos), pos: pos}
	e := p.expr()
	if p.peek().k != "eof" {
		die("%s: trailing %q in %q", pos, p.peek().s, src)
	}
	return e
}

func parseExprList(src, pos string) []*Expr {
	if strings.TrimSpace(src) == "" {
		return nil
	}
	p := &xparser{t: lex(src, pos), pos: pos}
	var out []*Expr
	for {
		out = append(out, p.expr())
		if !p.accept(",") {
			break
		}
	}
	if p.peek().k != "eof" {
		die("%s: trailing %q in %q", pos, p.peek().s, src)
	}
	return out
}

func (p *xparser) peek() tok { return p.t[p.p] }
func (p *xparser) is(s string) bool {
	t := p.t[p.p]
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *xparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *xparser) expect(s string) {
	if !p.accept(s) {
		die("%s: expected %q, found %q", p.pos, s, p.peek().s)
	}
}
func (p *xparser) ident() string {
	t := p.peek()
	if t.k != "id" {
		die("%s: expected identifier, found %q", p.pos, t.s)
	}
	p.p++
	return t.s
}

// typeStr reads a Go type written with identifiers, *, [], dots.
func (p *xparser) typeStr() string {
	var sb strings.Builder
	for {
		if p.accept("*") {
			sb.WriteString("*")
		} else if p.accept("[") {
			p.expect("]")
			sb.WriteString("[]")
		} else {
			sb.WriteString(p.ident())
			for p.accept(".") {
				sb.WriteString("." + p.ident())
			}
			return sb.String()
		}
	}
}

func (p *xparser) mk(op string, args ...*Expr) *Expr { return &Expr{Op: op, Args: args, Pos: p.pos} }

func (p *xparser) expr() *Expr {
	e := p.imp()
	for p.accept("<==>") {
		r := p.imp()
		e = &Expr{Op: "bin", Name: "<==>", Args: []*Expr{e, r}, Pos: p.pos}
	}
	return e
}

func (p *xparser) imp() *Expr {
	e := p.or()
	if p.accept("==>") {
		r := p.imp()
		return &Expr{Op: "bin", Name: "==>", Args: []*Expr{e, r}, Pos: p.pos}
	}
	return e
}

func (p *xparser) or() *Expr {
	e := p.and()
	for p.accept("||") {
		e = &Expr{Op: "bin", Name: "||", Args: []*Expr{e, p.and()}, Pos: p.pos}
	}
	return e
}

func (p *xparser) and() *Expr {
	e := p.cmp()
	for p.accept("&&") {
		e = &Expr{Op: "bin", Name: "&&", Args: []*Expr{e, p.cmp()}, Pos: p.pos}
	}
	return e
}

var cmpOps = map[string]bool{"==": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true}

func (p *xparser) cmp() *Expr {
	e := p.add()
	var res *Expr
	for p.peek().k == "op" && cmpOps[p.peek().s] {
		op := p.peek().s
		p.p++
		r := p.add()
		c := &Expr{Op: "bin", Name: op, Args: []*Expr{e, r}, Pos: p.pos}
		if res == nil {
			res = c
		} else {
			res = &Expr{Op: "bin", Name: "&&", Args: []*Expr{res, c}, Pos: p.pos}
		}
		e = r
	}
	if res != nil {
		return res
	}
	return e
}

func (p *xparser) add() *Expr {
	e := p.mul()
	for p.peek().k == "op" && (p.peek().s == "+" || p.peek().s == "-" || p.peek().s == "++") {
		op := p.peek().s
		p.p++
		e = &Expr{Op: "bin", Name: op, Args: []*Expr{e, p.mul()}, Pos: p.pos}
	}
	return e
}

func (p *xparser) mul() *Expr {
	e := p.unary()
	for p.peek().k == "op" && (p.peek().s == "*" || p.peek().s == "/" || p.peek().s == "%") {
		op := p.peek().s
		p.p++
		e = &Expr{Op: "bin", Name: op, Args: []*Expr{e, p.unary()}, Pos: p.pos}
	}
	return e
}

func (p *xparser) unary() *Expr {
	switch {
	case p.accept("!"):
		return p.mk("not", p.unary())
	case p.accept("-"):
		return p.mk("neg", p.unary())
	case p.is("forall") || p.is("exists"):
		q := p.ident()
		e := &Expr{Op: q, Pos: p.pos}
		for {
			n := p.ident()
			t := "int"
			if p.accept(":") {
				t = p.typeStr()
			}
			e.Vars = append(e.Vars, QVar{n, t})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Trig = append(e.Trig, tr)
		}
		p.expect("::")
		e.Args = []*Expr{p.expr()}
		return e
	case p.is("if"):
		p.ident()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		b := p.expr()
		return p.mk("ite", c, a, b)
	case p.is("let"):
		p.ident()
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("in")
		b := p.expr()
		return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}, Pos: p.pos}
	}
	return p.postfix()
}

func (p *xparser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			if p.accept("(") { // type test: x.(T)
				t := p.typeStr()
				p.expect(")")
				e = &Expr{Op: "istype", Name: t, Args: []*Expr{e}, Pos: p.pos}
				continue
			}
			e = &Expr{Op: "field", Name: p.ident(), Args: []*Expr{e}, Pos: p.pos}
		case p.accept("["):
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				e = p.mk("slice", e, nil, hi)
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = p.mk("slice", e, i, hi)
				continue
			}
			p.expect("]")
			e = p.mk("idx", e, i)
		case e.Op == "id" && p.is("("):
			p.expect("(")
			c := &Expr{Op: "call", Name: e.Name, Pos: p.pos}
			for !p.is(")") {
				c.Args = append(c.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			if c.Name == "old" {
				c.Op = "old"
			}
			e = c
		default:
			return e
		}
	}
}

func (p *xparser) primary() *Expr {
	t := p.peek()
	switch t.k {
	case "int":
		p.p++
		return &Expr{Op: "int", Name: t.s, Pos: p.pos}
	case "str":
		p.p++
		return &Expr{Op: "str", Name: t.s, Pos: p.pos}
	case "id":
		p.p++
		switch t.s {
		case "true", "false":
			return &Expr{Op: "bool", Name: t.s, Pos: p.pos}
		case "nil":
			return &Expr{Op: "nil", Pos: p.pos}
		}
		return &Expr{Op: "id", Name: t.s, Pos: p.pos}
	case "op":
		if t.s == "(" {
			p.p++
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	die("%s: unexpected %q", p.pos, t.s)
	return nil
}

// Contract files ---------------------------------------------------------------

type Clause struct {
	E    *Expr
	Tags []string // nil: all properties
	Src  string
	Pos  string
	Name string
}

type LoopSpec struct {
	Key    string
	Invs   []Clause
	Dec    []*Expr
	Vars   []QVar // names used by the invariants that are locals, with types
	Peel   int
	Unroll bool
	Body   []Ghost // ghost statements at start of each iteration
	End    []Ghost // ghost statements at the end of each iteration
	Pre    []Ghost // before the loop
	Post   []Ghost
	NoAuto bool
	Frame  []*Expr
}

type Ghost struct {
	Kind string // assert, use (lemma call), let, set
	Name string
	E    *Expr
	Src  string
	Pos  string
	Tags []string
}

// Callback says what a function argument has to return (as result) for its arguments.
type Callback struct {
	Param string
	Args  []string
	C     Clause
}

type Contract struct {
	Name       string // e.g. (*TextApplier).ApplyFragment, io.Writer.Write, lemma name
	Kind       string // func, extern, iface, lemma
	Params     []string
	Results    []string
	PTypes     []string // extern/lemma/pred only
	RTypes     []string
	Req        []Clause
	Ens        []Clause
	Mod        []*Expr // modified locations
	ModAny     bool
	Mutates    []string // slice params whose elements are modified
	Callback   []Callback
	Alloc      bool
	Fresh      []string // results that are newly allocated objects
	Loops      map[int]*LoopSpec
	Dec        []*Expr
	Wraps      bool // signed arithmetic wraps instead of being checked
	Inline     bool
	Pure       bool
	Trusted    bool
	Auto       bool // lemma: available as a quantified axiom
	Trig       [][]*Expr
	Tags       []string
	Entry      []Ghost
	Exit       []Ghost
	Proof      []string
	Pos        string
	Inits      []string
	ModRaw     string
	Uses       []string // auto lemmas enabled in this function's obligations
	NoPaths    bool
	ReqUse     []string
	Timeout    int
	Def        *Expr // pred
	RType      string
	Merge      bool
	Induct     string
	Ghosts     []QVar
	Reveal     []string
	Opaque     bool
	Retry      bool
	Noret      bool
	Locals     map[string]string
	Checks     []Ghost
	Returns    []Ghost
	Calls      map[string][]Ghost // ghost code run before a call of the named function
	AfterC     map[string][]Ghost
	Implements string // interface method whose contract this method must satisfy
}

type Specs struct {
	Funcs                  map[string]*Contract
	Preds                  map[string]*Contract
	Lemmas                 map[string]*Contract
	LemmaOrder             []string
	TypeInv                map[string]Clause // type name -> predicate over "self"
	Props                  map[string]*PropSpec
	Groups                 map[string][]string
	GhostVars, GhostFields map[string]string
	Axioms                 []Clause
}

type PropSpec struct {
	ID      string
	Roots   []string
	Kinds   []string // obligation kinds that count (empty: all)
	Lemmas  []string
	Bounded []string
	Without []string // classes of clauses that do not count
}

func newSpecs() *Specs {
	return &Specs{Funcs: map[string]*Contract{}, Preds: map[string]*Contract{}, Lemmas: map[string]*Contract{}, TypeInv: map[string]Clause{}, Props: map[string]*PropSpec{}, Groups: map[string][]string{}, GhostVars: map[string]string{}, GhostFields: map[string]string{}}
}

func splitTags(kw string) (string, []string) {
	if i := strings.IndexByte(kw, '['); i > 0 && strings.HasSuffix(kw, "]") {
		return kw[:i], strings.Split(kw[i+1:len(kw)-1], ",")
	}
	return kw, nil
}

// parseSig parses "Name(a: T, b: T) (r: T)" with optional types.
func parseSig(s, pos string) (name string, params, ptypes, results, rtypes []string) {
	// the name may itself start with a parenthesised receiver
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.IndexByte(s, ')') + 1
	}
	j := strings.IndexByte(s[i:], '(')
	if j < 0 {
		return strings.TrimSpace(s), nil, nil, nil, nil
	}
	name = strings.TrimSpace(s[:i+j])
	rest := s[i+j:]
	list := func(in string) (ns, ts []string) {
		in = strings.TrimSpace(in)
		if in == "" {
			return
		}
		for _, x := range strings.Split(in, ",") {
			n, t, _ := strings.Cut(x, ":")
			ns = append(ns, strings.TrimSpace(n))
			ts = append(ts, strings.TrimSpace(t))
		}
		return
	}
	k := strings.IndexByte(rest, ')')
	params, ptypes = list(rest[1:k])
	rest = strings.TrimSpace(rest[k+1:])
	if strings.HasPrefix(rest, "(") {
		k = strings.IndexByte(rest, ')')
		results, rtypes = list(rest[1:k])
		rest = strings.TrimSpace(rest[k+1:])
	}
	if strings.HasPrefix(rest, ":") {
		results, rtypes = []string{"result"}, []string{strings.TrimSpace(rest[1:])}
	}
	return
}

// loadSpecFile reads one .gvc file. Lines that start with white space belong to
// the preceding header line; a line starting with deeper text after a keyword
// continues when it ends with a backslash or when the next line starts with "|".
func (sp *Specs) loadSpecFile(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var lines []struct {
		s string
		n int
	}
	for n, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, "//"); i >= 0 && (i == 0 || l[i-1] == ' ' || l[i-1] == '\t') {
			l = l[:i]
		}
		l = strings.TrimRight(l, " \t")
		if strings.TrimSpace(l) == "" {
			continue
		}
		if t := strings.TrimSpace(l); strings.HasPrefix(t, "| ") && len(lines) > 0 {
			lines[len(lines)-1].s += " " + t[2:]
			continue
		}
		lines = append(lines, struct {
			s string
			n int
		}{l, n + 1})
	}
	var cur *Contract
	var loop *LoopSpec
	for _, ln := range lines {
		pos := fmt.Sprintf("%s:%d", path[strings.LastIndexByte(path, '/')+1:], ln.n)
		text := strings.TrimSpace(ln.s)
		kw, rest, _ := strings.Cut(text, " ")
		rest = strings.TrimSpace(rest)
		if ln.s[0] != ' ' && ln.s[0] != '\t' {
			loop = nil
			switch kw {
			case "func", "extern", "iface", "lemma":
				c := &Contract{Kind: kw, Pos: pos, Loops: map[int]*LoopSpec{}, Locals: map[string]string{}, Calls: map[string][]Ghost{}, AfterC: map[string][]Ghost{}}
				for strings.HasPrefix(rest, "@") {
					at, r, _ := strings.Cut(rest, " ")
					rest = strings.TrimSpace(r)
					switch at {
					case "@auto":
						c.Auto = true
					case "@trusted":
						c.Trusted = true
					case "@pure":
						c.Pure = true
					}
				}
				c.Name, c.Params, c.PTypes, c.Results, c.RTypes = parseSig(rest, pos)
				if kw == "lemma" {
					if sp.Lemmas[c.Name] != nil {
						die("%s: duplicate %s", pos, c.Name)
					}
					sp.Lemmas[c.Name] = c
					sp.LemmaOrder = append(sp.LemmaOrder, c.Name)
				} else {
					if sp.Funcs[c.Name] != nil {
						die("%s: duplicate %s", pos, c.Name)
					}
					sp.Funcs[c.Name] = c
				}
				cur = c
			case "pred", "opaque":
				if kw == "opaque" {
					rest = strings.TrimPrefix(rest, "pred ")
				}
				h, def, ok := strings.Cut(rest, " = ")
				if !ok {
					die("%s: pred needs =", pos)
				}
				c := &Contract{Kind: "pred", Pos: pos, Opaque: kw == "opaque"}
				c.Name, c.Params, c.PTypes, c.Results, c.RTypes = parseSig(h, pos)
				c.RType = "bool"
				if len(c.RTypes) == 1 && c.RTypes[0] != "" {
					c.RType = c.RTypes[0]
				}
				c.Def = parseExpr(def, pos)
				if sp.Preds[c.Name] != nil {
					die("%s: %s defined twice", pos, c.Name)
				}
				sp.Preds[c.Name] = c
				cur = nil
			case "ghostvar", "ghostfield":
				n, e, _ := strings.Cut(rest, " ")
				if kw == "ghostvar" {
					sp.GhostVars[n] = strings.TrimSpace(e)
				} else {
					sp.GhostFields[n] = strings.TrimSpace(e)
				}
				cur = nil
			case "axiom": // axiom name: trusted quantified formula, listed as an assumption
				n, e, _ := strings.Cut(rest, " ")
				sp.Axioms = append(sp.Axioms, Clause{E: parseExpr(e, pos), Src: e, Pos: pos, Name: n})
				cur = nil
			case "typeinv":
				n, e, _ := strings.Cut(rest, " ")
				sp.TypeInv[n] = Clause{E: parseExpr(e, pos), Src: e, Pos: pos}
			case "group":
				n, e, _ := strings.Cut(rest, " ")
				sp.Groups[n] = append(sp.Groups[n], strings.Fields(e)...)
			case "prop":
				f := strings.Fields(rest)
				ps := sp.Props[f[0]]
				if ps == nil {
					// the meaning of header lines and the account of whole patches only count where they are asked for
					ps = &PropSpec{ID: f[0], Without: []string{"head", "files", "message"}}
					sp.Props[f[0]] = ps
				}
				for _, x := range f[1:] {
					switch {
					case strings.HasPrefix(x, "kinds="):
						ps.Kinds = strings.Split(x[6:], ",")
					case strings.HasPrefix(x, "without="):
						ps.Without = append(ps.Without, strings.Split(x[8:], ",")...)
					case strings.HasPrefix(x, "with="):
						ps.Without = slices.DeleteFunc(ps.Without, func(s string) bool { return slices.Contains(strings.Split(x[5:], ","), s) })
					case strings.HasPrefix(x, "lemma="):
						ps.Lemmas = append(ps.Lemmas, x[6:])
					default:
						ps.Roots = append(ps.Roots, x)
					}
				}
			default:
				die("%s: unknown %q", pos, kw)
			}
			continue
		}
		if cur == nil {
			die("%s: clause outside a contract", pos)
		}
		kw, tags := splitTags(kw)
		clause := func() Clause { return Clause{E: parseExpr(rest, pos), Tags: tags, Src: rest, Pos: pos} }
		ghost := func(s string) Ghost {
			k, r, _ := strings.Cut(s, " ")
			if k == "let" || k == "set" {
				n, e, ok := strings.Cut(r, "=")
				if !ok {
					die("%s: %s needs =: %q", pos, k, s)
				}
				return Ghost{Kind: k, Name: strings.TrimSpace(n), E: parseExpr(strings.TrimSpace(e), pos), Src: r, Pos: pos, Tags: tags}
			}
			if k != "assert" && k != "use" {
				die("%s: ghost statement must be assert, use, let or set: %q", pos, s)
			}
			return Ghost{Kind: k, E: parseExpr(r, pos), Src: r, Pos: pos, Tags: tags}
		}
		switch kw {
		case "implements":
			cur.Implements = rest
		case "requires":
			cur.Req = append(cur.Req, clause())
		case "ensures":
			cur.Ens = append(cur.Ens, clause())
		case "modifies":
			cur.Mod = append(cur.Mod, parseExprList(rest, pos)...)
		case "callback":
			h, e, ok := strings.Cut(rest, ")")
			fn, ps, ok2 := strings.Cut(h, "(")
			if !ok || !ok2 {
				die("%s: callback NAME(params) EXPR", pos)
			}
			cur.Callback = append(cur.Callback, Callback{Param: strings.TrimSpace(fn), Args: strings.FieldsFunc(ps, func(r rune) bool { return r == ',' || r == ' ' }), C: Clause{E: parseExpr(strings.TrimSpace(e), pos), Src: rest, Pos: pos}})
		case "mutates":
			cur.Mutates = append(cur.Mutates, strings.FieldsFunc(rest, func(r rune) bool { return r == ',' || r == ' ' })...)
		case "allocates":
			cur.Alloc = true
		case "fresh":
			cur.Alloc = true
			cur.Fresh = append(cur.Fresh, strings.FieldsFunc(rest, func(r rune) bool { return r == ',' || r == ' ' })...)
		case "wraps":
			cur.Wraps = true
		case "merge":
			cur.Merge = true
		case "inline":
			cur.Inline = true
		case "trusted":
			cur.Trusted = true
		case "uses":
			cur.Uses = append(cur.Uses, strings.Fields(rest)...)
		case "timeout":
			cur.Timeout, _ = strconv.Atoi(rest)
		case "trigger":
			cur.Trig = append(cur.Trig, parseExprList(rest, pos))
		case "proof":
			cur.Proof = append(cur.Proof, rest)
		case "local":
			n, t, _ := strings.Cut(rest, " ")
			cur.Locals[n] = strings.TrimSpace(t)
		case "entry":
			cur.Entry = append(cur.Entry, ghost(rest))
		case "exit":
			cur.Exit = append(cur.Exit, ghost(rest))
		case "before":
			n, g, _ := strings.Cut(rest, " ")
			cur.Calls[n] = append(cur.Calls[n], ghost(strings.TrimSpace(g)))
		case "after":
			n, g, _ := strings.Cut(rest, " ")
			cur.AfterC[n] = append(cur.AfterC[n], ghost(strings.TrimSpace(g)))
		case "decreases":
			if loop != nil {
				loop.Dec = parseExprList(rest, pos)
			} else {
				cur.Dec = parseExprList(rest, pos)
			}
		case "loop":
			n, err := strconv.Atoi(rest)
			if err != nil {
				die("%s: loop number", pos)
			}
			loop = &LoopSpec{Key: fmt.Sprintf("%s#%d", cur.Name, n)}
			cur.Loops[n] = loop
		case "invariant":
			if loop == nil {
				die("%s: invariant outside loop", pos)
			}
			loop.Invs = append(loop.Invs, clause())
		case "peel":
			loop.Peel, _ = strconv.Atoi(rest)
		case "unroll":
			loop.Unroll = true
		case "body":
			loop.Body = append(loop.Body, ghost(rest))
		case "end":
			loop.End = append(loop.End, ghost(rest))
		case "pre":
			loop.Pre = append(loop.Pre, ghost(rest))
		case "post":
			loop.Post = append(loop.Post, ghost(rest))
		default:
			die("%s: unknown clause %q", pos, kw)
		}
	}
}

// resolveImplements gives methods the clauses of the interface contract they
// implement, so that a dynamic call through the interface is justified.
func (sp *Specs) resolveImplements() {
	for _, n := range sortedKeys(sp.Funcs) {
		c := sp.Funcs[n]
		if c.Implements == "" {
			continue
		}
		i := sp.Funcs[c.Implements]
		if i == nil {
			die("%s: implements unknown %s", c.Pos, c.Implements)
		}
		c.Params, c.Results = i.Params, i.Results
		c.Req = append(append([]Clause{}, i.Req...), c.Req...)
		if len(c.Req) != len(i.Req) {
			die("%s: an implementation may not require more", c.Pos)
		}
		c.Ens = append(append([]Clause{}, i.Ens...), c.Ens...)
		if len(c.Mod) > 0 || len(c.Mutates) > 0 {
			die("%s: an implementation may not modify more", c.Pos)
		}
		c.Mod, c.Mutates = i.Mod, i.Mutates
		c.Alloc = c.Alloc || i.Alloc
		if c.Alloc && !i.Alloc {
			die("%s: an implementation may not allocate more", c.Pos)
		}
	}
}

func die(f string, a ...any) {
	panic(fatal(fmt.Sprintf(f, a...)))
}

type fatal string
