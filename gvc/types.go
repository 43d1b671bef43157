package main

// Go types -> sorts, program loading, state.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Prog struct {
	fset       *token.FileSet
	files      []*ast.File
	pkg        *types.Package
	info       *types.Info
	funcs      map[*types.Func]*ast.FuncDecl
	byName     map[string]*types.Func
	spec       *Specs
	imports    map[string]*types.Package
	nLines     int
	globals    map[*types.Var]Val
	initState  *State
	counters   map[*types.Var]bool
	writtenPar map[*types.Func]map[int]bool
	written    map[*types.Var]bool // package variables assigned outside initialisation
}

func loadProg(dir string) *Prog {
	build.Default.CgoEnabled = false
	p := &Prog{fset: token.NewFileSet(), funcs: map[*types.Func]*ast.FuncDecl{}, byName: map[string]*types.Func{}, imports: map[string]*types.Package{}, globals: map[*types.Var]Val{}, written: map[*types.Var]bool{}}
	ents, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		ok, err := build.Default.MatchFile(dir, n)
		if err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(p.fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			die("parse: %v", err)
		}
		p.files = append(p.files, f)
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: importer.ForCompiler(p.fset, "source", nil), Sizes: types.SizesFor("gc", "amd64")}
	p.pkg, err = conf.Check("github.com/bluekeyes/go-gitdiff/gitdiff", p.fset, p.files, p.info)
	if err != nil {
		die("typecheck: %v", err)
	}
	var addImp func(q *types.Package, depth int)
	addImp = func(q *types.Package, depth int) {
		for _, i := range q.Imports() {
			if o := p.imports[i.Name()]; o == nil || len(i.Path()) < len(o.Path()) {
				p.imports[i.Name()] = i
			}
		}
	}
	addImp(p.pkg, 0)
	for _, f := range p.files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				if fn, ok := p.info.Defs[fd.Name].(*types.Func); ok {
					p.funcs[fn] = fd
					p.byName[funcName(fn)] = fn
				}
			}
		}
	}
	p.findCounters()
	return p
}

// funcName: Parse, (*parser).Next, (Line).Old, strings.HasPrefix, (*strings.Builder).WriteByte, io.Writer.Write
func funcName(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	pk := ""
	if fn.Pkg() != nil && fn.Pkg().Name() != "gitdiff" {
		pk = fn.Pkg().Name() + "."
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				return "(*" + pk + n.Obj().Name() + ")." + fn.Name()
			}
		}
		if n, ok := t.(*types.Named); ok {
			if types.IsInterface(n) {
				if n.Obj().Pkg() == nil {
					return n.Obj().Name() + "." + fn.Name()
				}
				return pk + n.Obj().Name() + "." + fn.Name()
			}
			return "(" + pk + n.Obj().Name() + ")." + fn.Name()
		}
		return "?." + fn.Name()
	}
	return pk + fn.Name()
}

func typeName(t types.Type) string {
	switch t := t.(type) {
	case *types.Pointer:
		return "*" + typeName(t.Elem())
	case *types.Named:
		if t.Obj().Pkg() != nil && t.Obj().Pkg().Name() != "gitdiff" {
			return t.Obj().Pkg().Name() + "." + t.Obj().Name()
		}
		return t.Obj().Name()
	case *types.Alias:
		return typeName(types.Unalias(t))
	}
	return types.TypeString(t, func(p *types.Package) string {
		if p.Name() == "gitdiff" {
			return ""
		}
		return p.Name()
	})
}

var sortCache = map[string]*Sort{}

func under(t types.Type) types.Type { return t.Underlying() }

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isBuf(t types.Type) bool {
	n := typeName(t)
	return n == "strings.Builder" || n == "bytes.Buffer"
}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if isBuf(t) {
		return SBytes
	}
	switch typeName(t) {
	case "time.Time", "time.Location":
		return SInt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SBytes
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return SInt
		}
		die("unsupported type %s", t)
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		if isByte(u.Elem()) {
			return SBytes
		}
		return seqOf(sortOf(u.Elem()))
	case *types.Array:
		if isByte(u.Elem()) {
			return SBytes
		}
		return seqOf(sortOf(u.Elem()))
	case *types.Struct:
		n := typeName(t)
		n = strings.NewReplacer("*", "P", "[", "_", "]", "_", ".", "_", " ", "", "{", "_", "}", "_", ";", "_", "(", "_", ")", "_", ",", "_").Replace(n)
		if s := dataSorts[n]; s != nil {
			return s
		}
		s := &Sort{Name: n, Kind: KData}
		dataSorts[n] = s
		for i := 0; i < u.NumFields(); i++ {
			s.Fields = append(s.Fields, SField{u.Field(i).Name(), sortOf(u.Field(i).Type())})
		}
		allDataSorts = append(allDataSorts, s)
		return s
	}
	die("unsupported type %s", t)
	return nil
}

// intRange of a Go integer type.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := types.Unalias(t).Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }
	sgn := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), bigOne), true
	}
	uns := func(n uint) (*big.Int, *big.Int, bool) { return new(big.Int), new(big.Int).Sub(p(n), bigOne), true }
	switch b.Kind() {
	case types.Int, types.Int64:
		return sgn(64)
	case types.Int32:
		return sgn(32)
	case types.Int16:
		return sgn(16)
	case types.Int8:
		return sgn(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return uns(64)
	case types.Uint32:
		return uns(32)
	case types.Uint16:
		return uns(16)
	case types.Uint8:
		return uns(8)
	}
	return nil, nil, false
}

func isUnsigned(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isNamedStructPtr(t types.Type) (*types.Named, *types.Struct, bool) {
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	if !ok {
		return nil, nil, false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return nil, nil, false
	}
	s, ok := n.Underlying().(*types.Struct)
	return n, s, ok
}

// zero value of a type
func zeroTerm(t types.Type) *Term {
	s := sortOf(t)
	switch s.Kind {
	case KInt:
		return TZero
	case KBool:
		return TFalse
	case KSeq:
		if a, ok := types.Unalias(t).Underlying().(*types.Array); ok {
			return mkRep(s, mkInt64(a.Len()), zeroTerm(a.Elem()))
		}
		return mkEmpty(s)
	case KData:
		u := types.Unalias(t).Underlying().(*types.Struct)
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zeroTerm(u.Field(i).Type()))
		}
		return mkData(s, args...)
	}
	panic("zero")
}

// values ---------------------------------------------------------------------

type Prov struct {
	kind string // fresh, borrowed, param (mutable parameter)
	id   int
	of   *Prov // for sub-slices
}

type Val struct {
	T      *Term
	Ty     types.Type
	Fn     *FuncVal
	El     []Val // composite with non-term parts, or known elements
	IsEl   bool
	LV     *LVal
	Dyn    types.Type
	Prov   *Prov
	Box    *Val // the boxed value of an interface with known dynamic type
	NilLit bool
}

type FuncVal struct {
	fn     *types.Func
	lit    *ast.FuncLit
	recv   *Val
	opaque *Term
	frame  *Frame
}

type LVal struct {
	kind  string // var, field (heap), index, deref, sfield
	v     *types.Var
	ref   *Term
	named string // heap key
	base  *LVal
	idx   *Term
	fld   string
	ty    types.Type
}

type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
}

type State struct {
	vars     map[*types.Var]Val
	heap     map[string]*Term
	ghost    map[string]*Term
	alloc    *Term
	pc       *pcNode
	known    map[*Term]bool
	consts   map[*Term]*Term
	frame    *Frame
	consumed map[*Prov]bool
	dead     bool
	labels   map[string]*Snap
	lets     map[string]Val // never modified in place
}

type Snap struct {
	vars  map[*types.Var]Val
	heap  map[string]*Term
	ghost map[string]*Term
	alloc *Term
}

type Frame struct {
	fn       *types.Func
	name     string
	sig      *types.Signature
	results  []*types.Var // named or synthesised
	resVals  []Val
	parent   *Frame
	chain    string
	defers   []ast.Node
	depth    int
	contract *Contract
	lit      *ast.FuncLit
	scope    *types.Scope
}

func (s *State) clone() *State {
	n := &State{vars: make(map[*types.Var]Val, len(s.vars)), heap: make(map[string]*Term, len(s.heap)), ghost: make(map[string]*Term, len(s.ghost)), alloc: s.alloc, pc: s.pc, known: make(map[*Term]bool, len(s.known)), consts: make(map[*Term]*Term, len(s.consts)), frame: s.frame, consumed: make(map[*Prov]bool, len(s.consumed)), dead: s.dead, lets: s.lets}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.consts {
		n.consts[k] = v
	}
	for k, v := range s.consumed {
		n.consumed[k] = v
	}
	return n
}

func (s *State) snap() *Snap {
	c := s.clone()
	return &Snap{c.vars, c.heap, c.ghost, c.alloc}
}

func (s *State) assume(t *Term) {
	if s.dead || t == TTrue {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	t = s.simp(t)
	if t == TTrue {
		return
	}
	if t == TFalse {
		s.dead = true
		s.pc = &pcNode{t, s.pc, pcLen(s.pc) + 1}
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	s.known[t] = true
	s.known[mkNot(t)] = false
	if t.Op == "=" {
		a, b := t.Args[0], t.Args[1]
		if isConst(a) {
			a, b = b, a
		}
		if isConst(b) && !isConst(a) {
			s.consts[a] = b
		}
	}
	s.pc = &pcNode{t, s.pc, pcLen(s.pc) + 1}
}

func isConst(t *Term) bool {
	if t.Op == "int" {
		return true
	}
	_, ok := litOf(t)
	return ok
}

func pcLen(p *pcNode) int {
	if p == nil {
		return 0
	}
	return p.n
}

// simp decides a condition syntactically under the path condition.
func (s *State) simp(t *Term) *Term {
	if v, ok := s.known[t]; ok {
		return mkBool(v)
	}
	switch t.Op {
	case "=":
		a, b := t.Args[0], t.Args[1]
		if isConst(a) {
			a, b = b, a
		}
		if isConst(b) {
			if c, ok := s.consts[a]; ok {
				return mkEq(c, b)
			}
			// a byte string with a known first byte / length cannot equal a literal
		}
	case "not":
		r := s.simp(t.Args[0])
		if r != t.Args[0] {
			return mkNot(r)
		}
	case "<=", "<":
		a, b := t.Args[0], t.Args[1]
		ca, oka := s.consts[a]
		cb, okb := s.consts[b]
		if oka {
			a = ca
		}
		if okb {
			b = cb
		}
		if oka || okb {
			if t.Op == "<" {
				return mkLt(a, b)
			}
			return mkLe(a, b)
		}
	case "and":
		var out []*Term
		for _, x := range t.Args {
			out = append(out, s.simp(x))
		}
		return mkAnd(out...)
	case "or":
		var out []*Term
		for _, x := range t.Args {
			out = append(out, s.simp(x))
		}
		return mkOr(out...)
	case "=>":
		a := s.simp(t.Args[0])
		if a == TTrue {
			return s.simp(t.Args[1])
		}
		if a == TFalse {
			return TTrue
		}
	}
	return t
}

func (s *State) pcs() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// heap -------------------------------------------------------------------------

var arrBirth = map[*Term]*Term{}  // base array -> alloc counter at creation
var heapSort = map[string]*Sort{} // heap key -> element sort
var heapType = map[string]types.Type{}

func (s *State) arr(key string, t types.Type) *Term {
	if a := s.heap[key]; a != nil {
		return a
	}
	heapSort[key] = sortOf(t)
	heapType[key] = t
	panic("heap array not initialised: " + key)
}

// heapArr finds or creates the array for key; the initial array is the same
// for every state of a run (the entry heap).
func (x *Exec) heapArr(s *State, key string, t types.Type) *Term {
	if a := s.heap[key]; a != nil {
		return a
	}
	es := sortOf(t)
	heapSort[key] = es
	heapType[key] = t
	a := mkVar("H."+key, arrOf(es))
	if arrBirth[a] == nil {
		arrBirth[a] = x.alloc0
	}
	s.heap[key] = a
	return a
}

var tagTab = map[string]int64{}
var tagNames []string

func tagOf(t types.Type) *Term { return tagNamed(typeName(t)) }
func tagNamed(n string) *Term {
	if v, ok := tagTab[n]; ok {
		return mkInt64(v)
	}
	v := int64(len(tagTab) + 1)
	tagTab[n] = v
	tagNames = append(tagNames, n)
	return mkInt64(v)
}

func typeofT(r *Term) *Term { return mkApp("typeof", SInt, r) }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *Prog) posStr(pos token.Pos) string {
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// resolveType parses the type syntax of contract files.
func (p *Prog) resolveType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(p.resolveType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(p.resolveType(s[2:]))
	}
	if s == "bytes" {
		return types.NewSlice(types.Typ[types.Uint8])
	}
	if s == "error" || s == "any" {
		return types.Universe.Lookup(s).Type()
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	if pk, n, ok := strings.Cut(s, "."); ok {
		if ip := p.imports[pk]; ip != nil {
			if o := ip.Scope().Lookup(n); o != nil {
				return o.Type()
			}
		}
		die("unknown type %s", s)
	}
	if o := p.pkg.Scope().Lookup(s); o != nil {
		if _, ok := o.(*types.TypeName); ok {
			return o.Type()
		}
	}
	die("unknown type %q", s)
	return nil
}

// callGraph: which package functions a function refers to.
func (p *Prog) callGraph() map[string][]string {
	g := map[string][]string{}
	for fn, fd := range p.funcs {
		n := funcName(fn)
		seen := map[string]bool{}
		ast.Inspect(fd.Body, func(m ast.Node) bool {
			id, ok := m.(*ast.Ident)
			if !ok {
				return true
			}
			if f, ok := p.info.Uses[id].(*types.Func); ok && p.funcs[f] != nil && !seen[funcName(f)] {
				seen[funcName(f)] = true
				g[n] = append(g[n], funcName(f))
			}
			return true
		})
		sort.Strings(g[n])
	}
	return g
}
