package main

// Symbolic execution of function bodies: statements.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"slices"
	"sort"
	"strings"
)

type Oblig struct {
	Name    string
	Kind    string
	Func    string
	Pos     string
	Desc    string
	PC      *pcNode
	Goal    *Term
	Uses    []string
	Timeout int
	Trivial bool
	Group   int // obligations of one place on different paths share a name
	Status  string
	Solver  string
	Secs    float64
	Output  string
	Expect  string // "sat" for reachability checks
	script  string
	cache   map[scriptOpts]string
	dup     bool
}

type Record struct {
	vars     map[*types.Var]bool
	heap     map[string]map[*Term]types.Type
	ghost    map[string]bool
	consumed map[*Prov]bool
	prov     map[*types.Var]bool // assigned something not fresh
	relen    map[*types.Var]bool // assigned as a whole, not only element by element
	alloc    bool
	ptrs     map[*types.Var]map[*Term]bool // values assigned to pointer variables
}

type loopCtx struct {
	inv   map[string]map[*Term]bool // heap key -> refs allowed
	alloc *Term
}

type Exec struct {
	mutParams              map[*types.Var]bool
	keepLen                bool // the current write changes elements only
	p                      *Prog
	spec                   *Specs
	prop                   string
	fn                     *types.Func
	fname                  string
	contract               *Contract
	entry                  *Snap
	entryNames             map[string]Val
	alloc0                 *Term
	obls                   []*Oblig
	dry                    int
	rec                    []*Record
	loops                  []*loopCtx
	loopNo                 map[string]int
	loopVars               map[string]*types.Var
	boxed                  map[*types.Var]bool
	wantAddr               bool // a variable stands for its address
	newRef                 map[*Term]bool
	ghostVars, ghostFields map[string]types.Type
	bvCtr                  int
	recPred                map[string]bool
	provCtr                int
	nameCtr                map[string]int
	steps                  int
	curPos                 token.Pos
	uses                   []string
	exits                  int
	reach                  []*Oblig
	loopStack              []*loopInst
	inits                  bool
	unsup                  map[string]bool
	assumedExterns         map[string]bool
	calledContracts        map[string]bool
	inlined                map[string]bool
	wraps                  bool
	closureDepth           int
	usedAxioms             map[string]bool
	axSyms                 map[string][]string
	predAx                 map[string][]*Term
	predHp                 map[string][]string
	lemAx                  map[string]*Term
}

type loopInst struct {
	idx       *Term // range index / count
	seq       Val
	rangeStmt *ast.RangeStmt
	snap      *Snap
}

type fatalPath string

type outKind int

const (
	oNormal outKind = iota
	oBreak
	oContinue
	oReturn
	oGoto
	oFall
)

type Outcome struct {
	k     outKind
	label string
	st    *State
	vals  []Val
}

func newExec(p *Prog, prop string) *Exec {
	x := &Exec{p: p, spec: p.spec, prop: prop, loopNo: map[string]int{}, boxed: map[*types.Var]bool{}, newRef: map[*Term]bool{}, ghostVars: map[string]types.Type{}, ghostFields: map[string]types.Type{}, recPred: map[string]bool{}, nameCtr: map[string]int{}, unsup: map[string]bool{}, assumedExterns: map[string]bool{}, calledContracts: map[string]bool{}, inlined: map[string]bool{}, usedAxioms: map[string]bool{}, axSyms: map[string][]string{}, predAx: map[string][]*Term{}, predHp: map[string][]string{}, lemAx: map[string]*Term{}}
	for n, t := range p.spec.GhostVars {
		x.ghostVars[n] = p.resolveType(t)
	}
	for n, t := range p.spec.GhostFields {
		x.ghostFields[n] = p.resolveType(t)
	}
	x.alloc0 = mkVar("alloc0", SInt)
	x.findBoxed()
	return x
}

func (x *Exec) ghostVal(st *State, n string) *Term {
	if g := st.ghost[n]; g != nil {
		return g
	}
	g := mkVar("G."+n, sortOf(x.ghostVars[n]))
	st.ghost[n] = g
	return g
}

func (x *Exec) newProv(kind string, of *Prov) *Prov {
	x.provCtr++
	return &Prov{kind: kind, id: x.provCtr, of: of}
}

// findBoxed marks local variables whose address is taken.
func (x *Exec) findBoxed() {
	for _, f := range x.p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					if v := x.addrRoot(n.X); v != nil {
						x.boxed[v] = true
					}
				}
			case *ast.SelectorExpr:
				sel := x.p.info.Selections[n]
				if sel == nil || sel.Kind() != types.MethodVal {
					return true
				}
				sig := sel.Obj().Type().(*types.Signature)
				if sig.Recv() == nil {
					return true
				}
				if _, ok := sig.Recv().Type().(*types.Pointer); !ok {
					return true
				}
				if _, ok := sel.Recv().Underlying().(*types.Pointer); ok {
					return true
				}
				if isBuf(sel.Recv()) {
					return true // handled in place
				}
				if v := x.addrRoot(n.X); v != nil {
					x.boxed[v] = true
				}
			}
			return true
		})
	}
}

func (x *Exec) addrRoot(e ast.Expr) *types.Var {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.addrRoot(e.X)
	case *ast.Ident:
		v, _ := x.p.info.ObjectOf(e).(*types.Var)
		if v != nil && v.Parent() != x.p.pkg.Scope() {
			return v
		}
	case *ast.SelectorExpr:
		if t := x.p.info.TypeOf(e.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return nil
			}
		}
		return x.addrRoot(e.X)
	case *ast.IndexExpr:
		if t := x.p.info.TypeOf(e.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return x.addrRoot(e.X)
			}
		}
	}
	return nil
}

// obligations ------------------------------------------------------------------

var safetyKinds = map[string]bool{"index": true, "slice": true, "nil": true, "div": true, "assertion": true, "decreases": true, "panic": true, "shift": true, "makelen": true}

func (x *Exec) wantKind(kind string) bool {
	ps := x.spec.Props[x.prop]
	if ps == nil || len(ps.Kinds) == 0 {
		return !safetyKinds[kind]
	}
	for _, k := range ps.Kinds {
		if k == kind || k == "all" || k == "safety" && safetyKinds[kind] || k == "rest" && !safetyKinds[kind] {
			return true
		}
	}
	return false
}

func (x *Exec) tagOK(tags []string) bool {
	if len(tags) == 0 {
		return true
	}
	ps := x.spec.Props[x.prop]
	class, in := false, false
	for _, t := range tags {
		if t[0] >= 'a' && t[0] <= 'z' {
			class, in = true, in || ps == nil || !slices.Contains(ps.Without, t)
		}
	}
	if class && !in {
		return false
	}
	if class {
		return true
	}
	for _, t := range tags {
		if t == x.prop || strings.HasPrefix(t, "!") && t[1:] != x.prop {
			return true
		}
	}
	return false
}

func (x *Exec) check(st *State, goal *Term, kind, desc string, pos token.Pos) {
	if st.dead {
		return
	}
	if x.dry == 0 && x.wantKind(kind) {
		x.addOblig(st, goal, kind, desc, pos)
	}
	st.assume(goal)
}

func (x *Exec) addOblig(st *State, goal *Term, kind, desc string, pos token.Pos) {
	if canonIte {
		goal = stripEq(goal)
	}
	if os.Getenv("GVC_GOAL") != "" {
		fmt.Fprintln(os.Stderr, desc, "::", goal)
	}
	if goal.Op == "and" && kind != "pre" {
		for i, g := range goal.Args {
			_ = i
			x.addOblig(st, g, kind, desc, pos)
		}
		return
	}
	g := st.simp(goal)
	o := &Oblig{Kind: kind, Func: x.fname, Desc: desc, PC: st.pc, Goal: g, Uses: x.uses}
	if x.contract != nil {
		o.Timeout = x.contract.Timeout
	}
	if pos.IsValid() {
		o.Pos = x.p.posStr(pos)
	}
	o.Name = x.fname + "/" + kind + "/" + desc
	o.Trivial = g == TTrue
	x.obls = append(x.obls, o)
	if len(x.obls) > 60000 {
		panic(fatalPath("too many obligations"))
	}
}

func (x *Exec) unsupported(st *State, what string, pos token.Pos) {
	if x.dry == 0 && !st.dead {
		key := what + x.p.posStr(pos)
		if !x.unsup[key] {
			x.unsup[key] = true
			x.obls = append(x.obls, &Oblig{Name: x.fname + "/unsupported/" + what, Kind: "unsupported", Func: x.fname, Pos: x.p.posStr(pos), Desc: what, PC: st.pc, Goal: TFalse})
		}
	}
	st.dead = true
}

// facts about a value just read ----------------------------------------------------

var maxLen = new(big.Int).Lsh(bigOne, 47)

func (x *Exec) facts(st *State, t *Term, ty types.Type) {
	if t == nil || ty == nil || t.hasBV {
		return
	}
	if t.Op == "int" || t.Op == "ite" {
		return
	}
	for _, f := range x.typeFacts(t, ty, st.alloc) {
		if _, ok := st.known[f]; !ok {
			st.assume(f)
		}
	}
	if t.Op == "app" && t.Name == "select" {
		if _, ok := types.Unalias(ty).Underlying().(*types.Pointer); ok {
			b := t.Args[0]
			for b.Op == "app" && b.Name == "store" {
				b = b.Args[0]
			}
			if al := arrBirth[b]; al != nil {
				st.assume(mkImp(mkLt(t.Args[1], al), mkLt(mkSelect(b, t.Args[1]), al)))
			}
		}
	}
}

func (x *Exec) typeFacts(t *Term, ty types.Type, alloc *Term) []*Term {
	var out []*Term
	ty = types.Unalias(ty)
	if isBuf(ty) {
		return []*Term{mkLe(mkLen(t), mkInt(maxLen))}
	}
	if lo, hi, ok := intRange(ty); ok && t.Sort == SInt {
		if f := mkLe(mkInt(lo), t); f != TTrue {
			out = append(out, f)
		}
		if f := mkLe(t, mkInt(hi)); f != TTrue {
			out = append(out, f)
		}
		return out
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		out = append(out, mkLe(TZero, t), mkLt(t, alloc))
	case *types.Interface:
		out = append(out, mkLt(t, alloc))
	case *types.Slice:
		if f := mkLe(mkLen(t), mkInt(maxLen)); f != TTrue {
			out = append(out, f)
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if f := mkLe(mkLen(t), mkInt(maxLen)); f != TTrue {
				out = append(out, f)
			}
		}
	case *types.Array:
		out = append(out, mkEq(mkLen(t), mkInt64(u.Len())))
	case *types.Struct:
		s := sortOf(ty)
		if s.Kind == KData {
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, x.typeFacts(mkGet(s, u.Field(i).Name(), t), u.Field(i).Type(), alloc)...)
			}
		}
	}
	return out
}

func (x *Exec) freshVal(st *State, hint string, ty types.Type) Val {
	t := freshVar(hint, sortOf(ty))
	v := Val{T: t, Ty: ty}
	for _, f := range x.typeFacts(t, ty, st.alloc) {
		st.assume(f)
	}
	return v
}

// variables, heap, ghost writes ------------------------------------------------------

func (x *Exec) setVar(st *State, v *types.Var, val Val) {
	for _, r := range x.rec {
		r.vars[v] = true
		if _, ok := types.Unalias(v.Type()).Underlying().(*types.Pointer); ok && val.T != nil {
			if r.ptrs[v] == nil {
				r.ptrs[v] = map[*Term]bool{}
			}
			r.ptrs[v][val.T] = true
		}
		if !x.keepLen {
			r.relen[v] = true
		}
		if val.Prov == nil || val.Prov.kind != "fresh" && val.Prov.kind != "param" {
			r.prov[v] = true
		}
	}
	st.vars[v] = val
}

func (x *Exec) setHeap(st *State, key string, ft types.Type, ref, val *Term) {
	x.setHeapIf(st, key, ft, ref, val, nil)
}

// setHeapIf writes only if cond (nil: true) holds.
func (x *Exec) setHeapIf(st *State, key string, ft types.Type, ref, val, cond *Term) {
	for _, r := range x.rec {
		m := r.heap[key]
		if m == nil {
			m = map[*Term]types.Type{}
			r.heap[key] = m
		}
		m[ref] = ft
	}
	if x.dry == 0 {
		for _, l := range x.loops {
			if !l.inv[key][ref] {
				// allocated inside the loop, or equal to an object the loop is known to write
				alts := []*Term{mkLe(l.alloc, ref)}
				for _, r := range sortedTerms(l.inv[key]) {
					alts = append(alts, mkEq(ref, r))
				}
				x.addOblig(st, orNot(cond, mkOr(alts...)), "frame", "loop writes "+key+" of an object that existed before the loop", x.curPos)
			}
		}
	}
	if cond != nil {
		st.assume(mkOr(cond, mkEq(val, mkSelect(x.heapArr(st, key, ft), ref))))
	}
	st.heap[key] = mkStore(x.heapArr(st, key, ft), ref, val)
}

func orNot(cond, t *Term) *Term {
	if cond == nil {
		return t
	}
	return mkOr(mkNot(cond), t)
}

func (x *Exec) setGhost(st *State, n string, t *Term) {
	for _, r := range x.rec {
		r.ghost[n] = true
	}
	st.ghost[n] = t
}

func (x *Exec) consume(st *State, p *Prov) {
	if p == nil {
		return
	}
	for _, r := range x.rec {
		r.consumed[p] = true
	}
	st.consumed[p] = true
	if p.of != nil {
		x.consume(st, p.of)
	}
}

func consumedProv(st *State, p *Prov) bool {
	for ; p != nil; p = p.of {
		if st.consumed[p] {
			return true
		}
	}
	return false
}

func (x *Exec) allocRef(st *State, t types.Type) *Term {
	return x.allocTagged(st, t, "*"+typeName(t))
}

func (x *Exec) allocTagged(st *State, t types.Type, tag string) *Term {
	r := freshVar("new_"+typeName(t), SInt)
	x.newRef[r] = true
	refKind[r] = 3
	if x.inits {
		refKind[r] = 1
	}
	st.assume(mkLe(st.alloc, r))
	st.assume(mkLt(TZero, r))
	st.alloc = mkAdd(r, TOne)
	for _, rc := range x.rec {
		rc.alloc = true
	}
	st.assume(mkEq(typeofT(r), tagNamed(tag)))
	return r
}

// storeStruct writes all fields of a struct value at ref.
func (x *Exec) storeObj(st *State, ref *Term, t types.Type, v Val) {
	t = types.Unalias(t)
	if s, ok := t.Underlying().(*types.Struct); ok && !isBuf(t) && sortOf(t).Kind == KData {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			var ft *Term
			if v.IsEl {
				ft = x.termOf(st, v.El[i])
			} else {
				ft = mkGet(sortOf(t), f.Name(), v.T)
			}
			x.setHeap(st, typeName(t)+"."+f.Name(), f.Type(), ref, ft)
		}
		return
	}
	x.setHeap(st, objKey(t), t, ref, x.termOf(st, v))
}

func (x *Exec) loadObj(st *State, ref *Term, t types.Type) Val {
	t = types.Unalias(t)
	if s, ok := t.Underlying().(*types.Struct); ok && !isBuf(t) && sortOf(t).Kind == KData {
		var args []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			ft := mkSelect(x.heapArr(st, typeName(t)+"."+f.Name(), f.Type()), ref)
			x.facts(st, ft, f.Type())
			args = append(args, ft)
		}
		return Val{T: mkData(sortOf(t), args...), Ty: t}
	}
	v := mkSelect(x.heapArr(st, objKey(t), t), ref)
	x.facts(st, v, t)
	return Val{T: v, Ty: t}
}

// objKey is the heap key of a non-struct object; buffers share the ghost
// output field of writers.
func objKey(t types.Type) string {
	if isBuf(t) {
		return "$out"
	}
	return typeName(t) + ".$"
}

// termOf turns a value into a term (function values become opaque integers).
func (x *Exec) termOf(st *State, v Val) *Term {
	if v.T != nil {
		return v.T
	}
	if v.Fn != nil {
		if v.Fn.opaque == nil {
			v.Fn.opaque = freshVar("func", SInt)
			st.assume(mkLt(v.Fn.opaque, TZero))
		}
		return v.Fn.opaque
	}
	if v.IsEl {
		t := types.Unalias(v.Ty)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			var args []*Term
			for _, e := range v.El {
				args = append(args, x.termOf(st, e))
			}
			return mkData(sortOf(t), args...)
		case *types.Slice, *types.Array:
			s := sortOf(t)
			r := mkEmpty(s)
			for _, e := range v.El {
				r = mkCat(r, mkUnit(s, x.termOf(st, e)))
			}
			return r
		default:
			_ = u
		}
	}
	x.unsupported(st, "value without a term", x.curPos)
	if v.Ty == nil {
		return TZero
	}
	return freshVar("unk", sortOf(v.Ty))
}

// constants ------------------------------------------------------------------------------

func (x *Exec) constVal(c constant.Value, t types.Type) Val {
	switch c.Kind() {
	case constant.Bool:
		return Val{T: mkBool(constant.BoolVal(c)), Ty: t}
	case constant.String:
		return Val{T: mkLit(constant.StringVal(c)), Ty: t}
	case constant.Int:
		n, _ := new(big.Int).SetString(c.ExactString(), 10)
		return Val{T: mkInt(n), Ty: t}
	case constant.Float:
		if i := constant.ToInt(c); i.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(i.ExactString(), 10)
			return Val{T: mkInt(n), Ty: t}
		}
	}
	die("unsupported constant %s", c)
	return Val{}
}

// globals --------------------------------------------------------------------------------

func (x *Exec) globalVal(v *types.Var) Val {
	if v.Pkg() != x.p.pkg {
		n := v.Pkg().Name() + "." + v.Name()
		return Val{T: mkVar("glob."+n, sortOf(v.Type())), Ty: v.Type()}
	}
	if g, ok := x.p.globals[v]; ok {
		return g
	}
	return Val{T: mkVar("glob."+v.Name(), sortOf(v.Type())), Ty: v.Type()}
}

// statements ------------------------------------------------------------------------------

func (x *Exec) execBlock(st *State, list []ast.Stmt) []Outcome {
	return x.execFrom(st, list, 0)
}

func (x *Exec) execFrom(st *State, list []ast.Stmt, i int) []Outcome {
	live := []*State{st}
	var out []Outcome
	for ; i < len(list); i++ {
		var next []*State
		s := list[i]
		for _, c := range live {
			if c.dead {
				continue
			}
			for _, o := range x.exec(c, s, "") {
				switch {
				case o.st.dead:
				case o.k == oNormal:
					next = append(next, o.st)
				case o.k == oGoto:
					found := -1
					for j, t := range list {
						if ls, ok := t.(*ast.LabeledStmt); ok && ls.Label.Name == o.label {
							found = j
						}
					}
					switch {
					case found > i:
						out = append(out, x.execFrom(o.st, list, found)...)
					case found >= 0:
						x.unsupported(o.st, "backward goto", s.Pos())
					default:
						out = append(out, o)
					}
				default:
					out = append(out, o)
				}
			}
		}
		live = x.mergeMany(next)
		if len(live) == 0 {
			return out
		}
	}
	for _, c := range live {
		out = append(out, Outcome{k: oNormal, st: c})
	}
	return out
}

const mergeLimit = 10

func (x *Exec) mergeMany(sts []*State) []*State {
	lim := mergeLimit
	if x.contract != nil && x.contract.Merge {
		lim = 1
	}
	if len(sts) <= lim {
		return sts
	}
	if lim == 1 {
		return x.mergeTree(sts)
	}
	for len(sts) > 1 {
		var next []*State
		i := 0
		merged := false
		for ; i+1 < len(sts); i += 2 {
			m := x.merge(sts[i], sts[i+1])
			if m == nil {
				next = append(next, sts[i], sts[i+1])
			} else {
				next = append(next, m)
				merged = true
			}
		}
		if i < len(sts) {
			next = append(next, sts[i])
		}
		sts = next
		if !merged {
			break
		}
	}
	return sts
}

// mergeTree merges neighbours that parted last first, which undoes the splits
// in the order opposite to the one they happened in.
func (x *Exec) mergeTree(sts []*State) []*State {
	sts = append([]*State{}, sts...)
	stuck := map[[2]*State]bool{}
	for len(sts) > 1 {
		best, at := -1, -1
		for i := 0; i+1 < len(sts); i++ {
			if n := commonPC(sts[i], sts[i+1]); n > best && !stuck[[2]*State{sts[i], sts[i+1]}] {
				best, at = n, i
			}
		}
		if at < 0 {
			break
		}
		m := x.merge(sts[at], sts[at+1])
		if m == nil {
			stuck[[2]*State{sts[at], sts[at+1]}] = true
			continue
		}
		sts[at] = m
		sts = append(sts[:at+1], sts[at+2:]...)
	}
	return sts
}

func commonPC(a, b *State) int {
	pa, pb := a.pc, b.pc
	for pcLen(pa) > pcLen(pb) {
		pa = pa.prev
	}
	for pcLen(pb) > pcLen(pa) {
		pb = pb.prev
	}
	for pa != pb {
		pa, pb = pa.prev, pb.prev
	}
	return pcLen(pa)
}

func (x *Exec) merge(a, b *State) *State {
	pa, pb := a.pc, b.pc
	for pcLen(pa) > pcLen(pb) {
		pa = pa.prev
	}
	for pcLen(pb) > pcLen(pa) {
		pb = pb.prev
	}
	for pa != pb {
		pa, pb = pa.prev, pb.prev
	}
	n := pcLen(pa)
	tail := func(s *State) []*Term {
		var o []*Term
		for p := s.pc; pcLen(p) > n; p = p.prev {
			o = append([]*Term{p.t}, o...)
		}
		return o
	}
	ta, tb := tail(a), tail(b)
	var c *Term
	if len(ta) > 0 && len(tb) > 0 && ta[0] == mkNot(tb[0]) {
		c = ta[0]
		ta, tb = ta[1:], tb[1:]
	} else {
		c = freshVar("br", SBool)
	}
	m := &State{vars: map[*types.Var]Val{}, heap: map[string]*Term{}, ghost: map[string]*Term{}, pc: pa, known: map[*Term]bool{}, consts: map[*Term]*Term{}, frame: a.frame, consumed: map[*Prov]bool{}, lets: map[string]Val{}}
	for k, v := range a.lets {
		if w, ok := b.lets[k]; ok && v.T == w.T {
			m.lets[k] = v
		}
	}
	for k, v := range a.known {
		if w, ok := b.known[k]; ok && v == w {
			m.known[k] = v
		}
	}
	for k, v := range a.consts {
		if b.consts[k] == v {
			m.consts[k] = v
		}
	}
	for k := range a.consumed {
		m.consumed[k] = true
	}
	for k := range b.consumed {
		m.consumed[k] = true
	}
	for _, t := range ta {
		m.assume(mkImp(c, t))
	}
	for _, t := range tb {
		m.assume(mkImp(mkNot(c), t))
	}
	for k, va := range a.vars {
		vb, ok := b.vars[k]
		if !ok {
			continue
		}
		if va.T == vb.T && va.Fn == vb.Fn && va.LV == vb.LV && va.IsEl == vb.IsEl && (!va.IsEl || sameEl(va.El, vb.El)) {
			if va.Prov != vb.Prov && vb.Prov != nil && vb.Prov.kind != "fresh" {
				va.Prov = vb.Prov
			}
			if va.Dyn != vb.Dyn {
				va.Dyn, va.Box = nil, nil
			}
			m.vars[k] = va
			continue
		}
		if va.T == nil || vb.T == nil || va.LV != nil || vb.LV != nil {
			if va.IsEl && vb.IsEl && va.Fn == nil && vb.Fn == nil {
				va.T, vb.T = x.termOf(m, va), x.termOf(m, vb)
				if m.dead {
					return nil
				}
			} else {
				return nil
			}
		}
		w := Val{T: mkIte(c, va.T, vb.T), Ty: va.Ty}
		if va.Prov != nil && va.Prov == vb.Prov {
			w.Prov = va.Prov
		} else if va.Prov != nil && vb.Prov != nil && va.Prov.kind == "fresh" && vb.Prov.kind == "fresh" && !a.consumed[va.Prov] && !b.consumed[vb.Prov] {
			w.Prov = x.newProv("fresh", nil)
		}
		if va.Dyn != nil && va.Dyn == vb.Dyn {
			w.Dyn = va.Dyn
		}
		m.vars[k] = w
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for k := range keys {
		ha, hb := a.heap[k], b.heap[k]
		if ha == nil {
			ha = x.heapArr(a, k, heapType[k])
		}
		if hb == nil {
			hb = x.heapArr(b, k, heapType[k])
		}
		m.heap[k] = mkIteArr(c, ha, hb)
	}
	keys = map[string]bool{}
	for k := range a.ghost {
		keys[k] = true
	}
	for k := range b.ghost {
		keys[k] = true
	}
	for k := range keys {
		m.ghost[k] = mkIte(c, x.ghostVal(a, k), x.ghostVal(b, k))
	}
	if a.alloc == b.alloc {
		m.alloc = a.alloc
	} else {
		m.alloc = freshVar("alloc", SInt)
		m.assume(mkEq(m.alloc, mkIte(c, a.alloc, b.alloc)))
	}
	return m
}

// mkIteArr merges two arrays that share a prefix of stores.
func mkIteArr(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	// rewrite as stores over the common base when the chains are short
	chain := func(t *Term) (*Term, []*Term) {
		var refs []*Term
		for t.Op == "app" && t.Name == "store" {
			refs = append(refs, t.Args[1])
			t = t.Args[0]
		}
		return t, refs
	}
	ba, ra := chain(a)
	bb, rb := chain(b)
	if ba == bb {
		seen := map[*Term]bool{}
		var refs []*Term
		for _, r := range append(append([]*Term{}, ra...), rb...) {
			if !seen[r] {
				seen[r] = true
				refs = append(refs, r)
			}
		}
		r := ba
		for i := len(refs) - 1; i >= 0; i-- {
			r = mkStore(r, refs[i], mkIte(c, mkSelect(a, refs[i]), mkSelect(b, refs[i])))
		}
		return r
	}
	return mkIte(c, a, b)
}

func sameEl(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].T != b[i].T || a[i].Fn != b[i].Fn {
			return false
		}
	}
	return true
}

func normal(st *State) []Outcome { return []Outcome{{k: oNormal, st: st}} }

func (x *Exec) exec(st *State, s ast.Stmt, label string) []Outcome {
	if st.dead {
		return nil
	}
	x.steps++
	if x.steps > 400000 {
		panic(fatalPath("execution too long"))
	}
	x.curPos = s.Pos()
	var out []Outcome
	done := func(c *State) {
		if !c.dead {
			out = append(out, Outcome{k: oNormal, st: c})
		}
	}
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return normal(st)
	case *ast.BlockStmt:
		return x.execBlock(st, s.List)
	case *ast.ExprStmt:
		x.ev(st, s.X, func(c *State, v Val) { done(c) })
		return out
	case *ast.LabeledStmt:
		return x.execLabeled(st, s)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return normal(st)
		}
		live := []*State{st}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			var next []*State
			for _, c := range live {
				x.declVars(c, vs, func(c2 *State) { next = append(next, c2) })
			}
			live = next
		}
		for _, c := range live {
			done(c)
		}
		return out
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		x.lval(st, s.X, func(c *State, lv *LVal) {
			old := x.readLV(c, lv)
			v := x.arith(c, op, old, Val{T: TOne, Ty: old.Ty}, old.Ty, s.Pos())
			x.writeLV(c, lv, v)
			done(c)
		})
		return out
	case *ast.AssignStmt:
		x.assignStmt(st, s, done)
		return out
	case *ast.IfStmt:
		run := func(c *State) {
			x.cond(c, s.Cond, func(t *State) {
				out = append(out, x.execBlock(t, s.Body.List)...)
			}, func(f *State) {
				if s.Else != nil {
					out = append(out, x.exec(f, s.Else, "")...)
				} else {
					done(f)
				}
			})
		}
		if s.Init != nil {
			for _, o := range x.exec(st, s.Init, "") {
				if o.k == oNormal {
					run(o.st)
				} else {
					out = append(out, o)
				}
			}
		} else {
			run(st)
		}
		return out
	case *ast.ReturnStmt:
		return x.execReturn(st, s)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return []Outcome{{k: oBreak, label: l, st: st}}
		case token.CONTINUE:
			return []Outcome{{k: oContinue, label: l, st: st}}
		case token.GOTO:
			return []Outcome{{k: oGoto, label: l, st: st}}
		case token.FALLTHROUGH:
			return []Outcome{{k: oFall, st: st}}
		}
	case *ast.SwitchStmt:
		return x.execSwitch(st, s, label)
	case *ast.TypeSwitchStmt:
		return x.execTypeSwitch(st, s, label)
	case *ast.ForStmt:
		return x.execFor(st, s, label)
	case *ast.RangeStmt:
		return x.execRange(st, s, label)
	}
	x.unsupported(st, fmt.Sprintf("statement %T", s), s.Pos())
	return nil
}

func (x *Exec) execLabeled(st *State, s *ast.LabeledStmt) []Outcome {
	var out []Outcome
	for _, o := range x.exec(st, s.Stmt, s.Label.Name) {
		if o.k == oBreak && o.label == s.Label.Name {
			o = Outcome{k: oNormal, st: o.st}
		}
		out = append(out, o)
	}
	return out
}

func (x *Exec) declVar(st *State, v *types.Var, val Val) {
	if x.boxed[v] {
		ref := x.allocRef(st, v.Type())
		x.storeObj(st, ref, v.Type(), val)
		x.setVar(st, v, Val{T: ref, Ty: types.NewPointer(v.Type())})
		return
	}
	x.setVar(st, v, val)
}

func (x *Exec) zeroVal(t types.Type) Val {
	v := Val{T: nil, Ty: t}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Signature:
		return Val{T: TZero, Ty: t, NilLit: true}
	case *types.Map:
		return Val{T: TZero, Ty: t}
	case *types.Slice, *types.Array:
		v.Prov = x.newProv("fresh", nil)
	case *types.Struct:
		_ = u
	}
	v.T = zeroTerm(t)
	return v
}

func (x *Exec) declVars(st *State, vs *ast.ValueSpec, k func(*State)) {
	if len(vs.Values) == 0 {
		for _, n := range vs.Names {
			if v, ok := x.p.info.Defs[n].(*types.Var); ok {
				x.declVar(st, v, x.zeroVal(v.Type()))
			}
		}
		k(st)
		return
	}
	if len(vs.Values) == len(vs.Names) {
		x.evList(st, vs.Values, func(c *State, vals []Val) {
			for i, n := range vs.Names {
				if v, ok := x.p.info.Defs[n].(*types.Var); ok {
					x.declVar(c, v, x.coerce(c, x.stored(c, vals[i]), v.Type()))
				}
			}
			k(c)
		})
		return
	}
	x.evMulti(st, vs.Values[0], len(vs.Names), func(c *State, vals []Val) {
		for i, n := range vs.Names {
			if v, ok := x.p.info.Defs[n].(*types.Var); ok {
				x.declVar(c, v, x.coerce(c, x.stored(c, vals[i]), v.Type()))
			}
		}
		k(c)
	})
}

// stored is called when a slice value gets a second name: the backing array
// may no longer be written through either.
func (x *Exec) stored(st *State, v Val) Val {
	if v.Prov != nil && v.Prov.kind == "sub" {
		x.consume(st, v.Prov)
	} else if v.Prov != nil && v.Prov.kind == "named" {
		// a variable's value copied to another name
		x.consume(st, v.Prov.of)
		v.Prov = v.Prov.of
	}
	return v
}

func (x *Exec) assignStmt(st *State, s *ast.AssignStmt, done func(*State)) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
		x.lval(st, s.Lhs[0], func(c *State, lv *LVal) {
			x.ev(c, s.Rhs[0], func(d *State, r Val) {
				old := x.readLV(d, lv)
				x.writeLV(d, lv, x.arith(d, op, old, r, old.Ty, s.Pos()))
				done(d)
			})
		})
		return
	}
	set := func(c *State, vals []Val) {
		// evaluate all targets, then assign
		var rec func(c *State, i int, lvs []*LVal)
		rec = func(c *State, i int, lvs []*LVal) {
			if i == len(s.Lhs) {
				for j, lv := range lvs {
					if lv == nil {
						continue
					}
					if lv.kind == "decl" {
						x.declVar(c, lv.v, x.coerce(c, vals[j], lv.v.Type()))
						continue
					}
					x.writeLV(c, lv, x.coerce(c, vals[j], lv.ty))
				}
				done(c)
				return
			}
			if id, ok := s.Lhs[i].(*ast.Ident); ok {
				if id.Name == "_" {
					rec(c, i+1, append(lvs, nil))
					return
				}
				if s.Tok == token.DEFINE {
					if v, ok := x.p.info.Defs[id].(*types.Var); ok {
						rec(c, i+1, append(lvs, &LVal{kind: "decl", v: v, ty: v.Type()}))
						return
					}
				}
			}
			x.lval(c, s.Lhs[i], func(d *State, lv *LVal) { rec(d, i+1, append(lvs[:len(lvs):len(lvs)], lv)) })
		}
		rec(c, 0, nil)
	}
	if len(s.Rhs) == len(s.Lhs) {
		x.evList(st, s.Rhs, func(c *State, vals []Val) {
			for i := range vals {
				// x = x[...] keeps the ownership of x
				if vals[i].Prov != nil && (vals[i].Prov.kind == "sub" || vals[i].Prov.kind == "named") && x.selfSlice(s.Lhs[i], s.Rhs[i]) {
					p := vals[i].Prov
					for p.of != nil {
						p = p.of
					}
					vals[i].Prov = p
					continue
				}
				if id, ok := s.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
					continue
				}
				vals[i] = x.stored(c, vals[i])
			}
			set(c, vals)
		})
		return
	}
	x.evMulti(st, s.Rhs[0], len(s.Lhs), func(c *State, vals []Val) {
		for i := range vals {
			vals[i] = x.stored(c, vals[i])
		}
		set(c, vals)
	})
}

func (x *Exec) selfSlice(l, r ast.Expr) bool {
	lid, ok := l.(*ast.Ident)
	if !ok {
		return false
	}
	for {
		switch e := r.(type) {
		case *ast.SliceExpr:
			r = e.X
			continue
		case *ast.ParenExpr:
			r = e.X
			continue
		case *ast.CallExpr:
			if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "append" && x.p.info.Types[e.Fun].IsBuiltin() && len(e.Args) > 0 {
				r = e.Args[0]
				continue
			}
		case *ast.Ident:
			return x.p.info.ObjectOf(e) == x.p.info.ObjectOf(lid)
		}
		return false
	}
}

func (x *Exec) execReturn(st *State, s *ast.ReturnStmt) []Outcome {
	fr := st.frame
	var out []Outcome
	finish := func(c *State, vals []Val) {
		for i, v := range fr.results {
			if v == nil {
				continue
			}
			vals[i] = x.coerce(c, vals[i], v.Type())
			if x.boxed[v] {
				x.storeObj(c, c.vars[v].T, v.Type(), vals[i])
			} else if v.Name() != "" && v.Name() != "_" {
				x.setVar(c, v, vals[i])
			}
		}
		if !c.dead {
			out = append(out, Outcome{k: oReturn, st: c, vals: vals})
		}
	}
	n := len(fr.results)
	switch {
	case len(s.Results) == 0:
		var vals []Val
		for _, v := range fr.results {
			vals = append(vals, x.readVar(st, v))
		}
		finish(st, vals)
	case len(s.Results) == n:
		x.evList(st, s.Results, func(c *State, vals []Val) {
			for i := range vals {
				if p := vals[i].Prov; p != nil && p.kind == "named" && p.of != nil && p.of.kind == "fresh" && !c.consumed[p.of] {
					// the local variable dies: its array passes to the caller
					x.consume(c, p.of)
					vals[i].Prov = x.newProv("fresh", nil)
					continue
				}
				vals[i] = x.stored(c, vals[i])
			}
			finish(c, append([]Val{}, vals...))
		})
	default:
		x.evMulti(st, s.Results[0], n, func(c *State, vals []Val) {
			finish(c, append([]Val{}, vals...))
		})
	}
	return out
}

func (x *Exec) execSwitch(st *State, s *ast.SwitchStmt, label string) []Outcome {
	var out []Outcome
	run := func(c *State) {
		body := func(c *State, tag *Val) {
			x.switchCases(c, s.Body.List, tag, label, &out)
		}
		if s.Tag != nil {
			x.ev(c, s.Tag, func(d *State, v Val) { body(d, &v) })
		} else {
			body(c, nil)
		}
	}
	if s.Init != nil {
		for _, o := range x.exec(st, s.Init, "") {
			if o.k == oNormal {
				run(o.st)
			} else {
				out = append(out, o)
			}
		}
	} else {
		run(st)
	}
	return out
}

func (x *Exec) switchCases(st *State, list []ast.Stmt, tag *Val, label string, out *[]Outcome) {
	var def = -1
	for i, c := range list {
		if c.(*ast.CaseClause).List == nil {
			def = i
		}
	}
	runBody := func(c *State, i int) {
		sts := []*State{c}
		for {
			var fall []*State
			for _, d := range sts {
				for _, o := range x.execBlock(d, list[i].(*ast.CaseClause).Body) {
					switch {
					case o.k == oBreak && (o.label == "" || o.label == label && label != ""):
						*out = append(*out, Outcome{k: oNormal, st: o.st})
					case o.k == oFall:
						fall = append(fall, o.st)
					default:
						*out = append(*out, o)
					}
				}
			}
			if len(fall) == 0 {
				return
			}
			sts = fall
			i++
		}
	}
	var try func(c *State, i, j int)
	try = func(c *State, i, j int) {
		if c.dead {
			return
		}
		if i == len(list) {
			if def >= 0 {
				runBody(c, def)
			} else {
				*out = append(*out, Outcome{k: oNormal, st: c})
			}
			return
		}
		cc := list[i].(*ast.CaseClause)
		if cc.List == nil || j == len(cc.List) {
			try(c, i+1, 0)
			return
		}
		if tag == nil {
			x.cond(c, cc.List[j], func(t *State) { runBody(t, i) }, func(f *State) { try(f, i, j+1) })
			return
		}
		// gather all expressions of the clause into one condition when they are pure
		x.evList(c, cc.List, func(d *State, vs []Val) {
			var eqs []*Term
			for _, v := range vs {
				eqs = append(eqs, x.equal(d, *tag, v, cc.Pos()))
			}
			x.split(d, mkOr(eqs...), func(t *State) { runBody(t, i) }, func(f *State) { try(f, i+1, 0) })
		})
	}
	try(st, 0, 0)
}

func (x *Exec) execTypeSwitch(st *State, s *ast.TypeSwitchStmt, label string) []Outcome {
	var out []Outcome
	var subj ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		subj = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		subj = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	x.ev(st, subj, func(c *State, v Val) {
		def := -1
		var try func(c *State, i int)
		body := func(c *State, i int, t types.Type) {
			cc := s.Body.List[i].(*ast.CaseClause)
			if o, ok := x.p.info.Implicits[cc].(*types.Var); ok {
				if t != nil {
					x.declVar(c, o, x.unbox(c, v, t))
				} else {
					x.declVar(c, o, v)
				}
			}
			for _, o := range x.execBlock(c, cc.Body) {
				if o.k == oBreak && (o.label == "" || o.label == label) {
					o = Outcome{k: oNormal, st: o.st}
				}
				out = append(out, o)
			}
		}
		try = func(c *State, i int) {
			if c.dead {
				return
			}
			if i == len(s.Body.List) {
				if def >= 0 {
					body(c, def, nil)
				} else {
					out = append(out, Outcome{k: oNormal, st: c})
				}
				return
			}
			cc := s.Body.List[i].(*ast.CaseClause)
			if cc.List == nil {
				def = i
				try(c, i+1)
				return
			}
			var conds []*Term
			var single types.Type
			for _, te := range cc.List {
				t := x.p.info.TypeOf(te)
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
					conds = append(conds, mkEq(v.T, TZero))
					continue
				}
				conds = append(conds, x.dynTest(v, t))
				if len(cc.List) == 1 {
					single = t
				}
			}
			x.split(c, mkOr(conds...), func(t *State) { body(t, i, single) }, func(f *State) { try(f, i+1) })
		}
		for i, cc := range s.Body.List {
			if cc.(*ast.CaseClause).List == nil {
				def = i
			}
		}
		try(c, 0)
	})
	return out
}

func (x *Exec) dynTest(v Val, t types.Type) *Term {
	if v.Dyn != nil {
		if types.IsInterface(t) {
			return mkBool(types.Implements(v.Dyn, t.Underlying().(*types.Interface)))
		}
		return mkBool(types.Identical(v.Dyn, t))
	}
	if v.NilLit || v.T == TZero {
		return TFalse
	}
	return x.typeTest(v, t)
}

// unbox is the value of type t inside interface value v.
func (x *Exec) unbox(st *State, v Val, t types.Type) Val {
	if v.Box != nil && types.Identical(v.Dyn, t) {
		return *v.Box
	}
	if types.IsInterface(t) {
		w := v
		w.Ty = t
		return w
	}
	if _, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		x.facts(st, v.T, t)
		return Val{T: v.T, Ty: t}
	}
	u := mkApp("unbox_"+boxName(t), sortOf(t), v.T)
	x.facts(st, u, t)
	return Val{T: u, Ty: t}
}

func boxName(t types.Type) string {
	return strings.NewReplacer(".", "_", "*", "P", "[", "_", "]", "_", " ", "_").Replace(typeName(t))
}

// split forks on a condition.
func (x *Exec) split(st *State, c *Term, kt, kf func(*State)) {
	if st.dead {
		return
	}
	c = st.simp(c)
	if c == TTrue {
		kt(st)
		return
	}
	if c == TFalse {
		kf(st)
		return
	}
	f := st.clone()
	st.assume(c)
	if !st.dead {
		kt(st)
	}
	f.assume(mkNot(c))
	if !f.dead {
		kf(f)
	}
}

// cond evaluates a boolean expression and forks.
func (x *Exec) cond(st *State, e ast.Expr, kt, kf func(*State)) {
	if st.dead {
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.cond(st, e.X, kt, kf)
		return
	case *ast.UnaryExpr:
		if e.Op == token.NOT {
			x.cond(st, e.X, kf, kt)
			return
		}
	case *ast.BinaryExpr:
		if e.Op == token.LAND || e.Op == token.LOR {
			if t, ok := x.pureBool(st, e); ok {
				x.split(st, t, kt, kf)
				return
			}
			if e.Op == token.LAND {
				x.cond(st, e.X, func(c *State) { x.cond(c, e.Y, kt, kf) }, kf)
			} else {
				x.cond(st, e.X, kt, func(c *State) { x.cond(c, e.Y, kt, kf) })
			}
			return
		}
	}
	x.ev(st, e, func(c *State, v Val) { x.split(c, v.T, kt, kf) })
}

// pureBool evaluates e to a term when it does not fork or change the state;
// facts learnt under a left operand become implications.
func (x *Exec) pureBool(st *State, e ast.Expr) (*Term, bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.pureBool(st, e.X)
	case *ast.UnaryExpr:
		if e.Op == token.NOT {
			t, ok := x.pureBool(st, e.X)
			if !ok {
				return nil, false
			}
			return mkNot(t), true
		}
	case *ast.BinaryExpr:
		if e.Op == token.LAND || e.Op == token.LOR {
			a, ok := x.pureBool(st, e.X)
			if !ok {
				return nil, false
			}
			g := a
			if e.Op == token.LOR {
				g = mkNot(a)
			}
			c := st.clone()
			c.assume(g)
			if c.dead {
				if e.Op == token.LAND {
					return TFalse, true
				}
				return TTrue, true
			}
			n := pcLen(c.pc)
			b, ok := x.pureBool(c, e.Y)
			if !ok {
				return nil, false
			}
			for p := c.pc; pcLen(p) > n; p = p.prev {
				st.assume(mkImp(g, p.t))
			}
			if e.Op == token.LAND {
				return mkAnd(a, b), true
			}
			return mkOr(a, b), true
		}
	}
	if !x.looksPure(e) {
		return nil, false
	}
	var res *Term
	cnt := 0
	x.ev(st, e, func(c *State, v Val) {
		cnt++
		if c == st {
			res = v.T
		}
	})
	if cnt != 1 || res == nil {
		if cnt > 0 {
			panic(fatalPath("impure condition"))
		}
		return TTrue, st.dead
	}
	return res, true
}

// looksPure: no calls except builtins, conversions and modelled pure functions.
func (x *Exec) looksPure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv, has := x.p.info.Types[n.Fun]; has && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			if fn := x.staticCallee(n); fn != nil {
				if c := x.spec.Funcs[funcName(fn)]; c != nil && c.Kind == "extern" && len(c.Mod) == 0 && len(c.Mutates) == 0 && !c.Alloc {
					return true
				}
				if c := x.spec.Funcs[funcName(fn)]; c != nil && c.Kind == "func" && !c.Inline && len(c.Mod) == 0 && len(c.Mutates) == 0 && !c.Alloc {
					return true
				}
				if x.simpleBody(fn) {
					return true
				}
			}
			ok = false
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW || n.Op == token.AND {
				ok = false
			}
		case *ast.CompositeLit:
			ok = false
		case *ast.BinaryExpr:
			if n.Op == token.LAND || n.Op == token.LOR {
				// nested boolean operators inside an operand fork
				if ast.Expr(n) != e {
					ok = false
				}
			}
		}
		return ok
	})
	return ok
}

// simpleBody: a function whose body is a single return of a pure expression.
func (x *Exec) simpleBody(fn *types.Func) bool {
	fd := x.p.funcs[fn]
	if fd == nil || len(fd.Body.List) != 1 {
		return false
	}
	if x.spec.Funcs[funcName(fn)] != nil {
		return false
	}
	r, ok := fd.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(r.Results) != 1 {
		return false
	}
	calls := false
	ast.Inspect(r.Results[0], func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if tv, has := x.p.info.Types[c.Fun]; !has || !(tv.IsType() || tv.IsBuiltin()) {
				calls = true
			}
		}
		return true
	})
	return !calls
}

// loops -------------------------------------------------------------------------------------

func (x *Exec) newRecord() *Record {
	return &Record{vars: map[*types.Var]bool{}, heap: map[string]map[*Term]types.Type{}, ghost: map[string]bool{}, consumed: map[*Prov]bool{}, prov: map[*types.Var]bool{}, relen: map[*types.Var]bool{}, ptrs: map[*types.Var]map[*Term]bool{}}
}

// loopSpec finds the contract of the loop at node n in the current frame.
func (x *Exec) loopSpec(st *State, n ast.Node) (*LoopSpec, int) {
	key := fmt.Sprintf("%s@%d", st.frame.chain, n.Pos())
	no, ok := x.loopNo[key]
	if !ok {
		no = -1
	}
	if x.contract != nil {
		if ls := x.contract.Loops[no]; ls != nil {
			return ls, no
		}
	}
	return nil, no
}

// numberLoops gives every loop reachable from the function (through inlined
// callees) its number, in source order.
func (x *Exec) numberLoops(body ast.Node, chain string, depth int) {
	if depth > 8 {
		return
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			key := fmt.Sprintf("%s@%d", chain, n.Pos())
			if _, ok := x.loopNo[key]; !ok {
				x.loopNo[key] = len(x.loopNo) + 1
			}
		case *ast.CallExpr:
			if fn := x.staticCallee(n); fn != nil {
				if fd := x.p.funcs[fn]; fd != nil && x.inlinable(fn) {
					x.numberLoops(fd.Body, fmt.Sprintf("%s/%d", chain, n.Pos()), depth+1)
				}
			}
		}
		return true
	})
}

func (x *Exec) inlinable(fn *types.Func) bool {
	c := x.spec.Funcs[funcName(fn)]
	return c == nil || c.Inline
}

type loopRun struct {
	ls     *LoopSpec
	no     int
	label  string
	cond   func(st *State, kt, kf func(*State)) // nil: forever
	body   func(st *State) []Outcome
	post   func(st *State, k func(*State))
	idx    func(st *State) *Term // current $i
	setIdx func(st *State)       // havoc hidden index
	pos    token.Pos
	auto   func(st *State) []*Term // automatic invariants
	dec    func(st *State) *Term   // automatic measure
	seq    Val
	hidden []*types.Var
	entry  *State // the state before the first iteration
}

func (x *Exec) specEnv(st *State, pos token.Pos, li *loopRun) *Env {
	e := &Env{x: x, st: st, old: x.entry, names: map[string]Val{}, oldNm: x.entryNames, pos: pos}
	e.lookup = func(n string) (Val, bool) { return x.lookupLocal(st, n, pos, li) }
	if li != nil && li.entry != nil {
		e.preSt = li.entry
		e.preLookup = func(n string) (Val, bool) { return x.lookupLocal(li.entry, n, pos, li) }
	}
	return e
}

func (x *Exec) lookupLocal(st *State, n string, pos token.Pos, li *loopRun) (Val, bool) {
	if v, ok := st.lets[n]; ok {
		return v, true
	}
	if li != nil {
		switch n {
		case "$i":
			if li.idx != nil {
				return Val{T: li.idx(st), Ty: tInt}, true
			}
			return Val{}, false
		case "$s":
			return li.seq, li.seq.T != nil
		}
	}
	// scope lookup, innermost first
	if pos.IsValid() {
		if sc := x.p.pkg.Scope().Innermost(pos); sc != nil {
			if _, o := sc.LookupParent(n, pos); o != nil {
				if v, ok := o.(*types.Var); ok {
					if _, ok := st.vars[v]; ok {
						return x.readVar(st, v), true
					}
				}
			}
		}
	}
	// parameters under their contract names
	for fr := st.frame; fr != nil; fr = fr.parent {
		if fr.contract != nil && fr.sig != nil {
			for i, pn := range fr.contract.Params {
				if pn == n && i < fr.sig.Params().Len() {
					if v := fr.sig.Params().At(i); v != nil {
						if _, ok := st.vars[v]; ok {
							return x.readVar(st, v), true
						}
					}
				}
			}
			if n == "recv" && fr.sig.Recv() != nil {
				if _, ok := st.vars[fr.sig.Recv()]; ok {
					return x.readVar(st, fr.sig.Recv()), true
				}
			}
			for i, rn := range fr.contract.Results {
				if rn == n && i < len(fr.results) {
					if _, ok := st.vars[fr.results[i]]; ok {
						return x.readVar(st, fr.results[i]), true
					}
				}
			}
		}
	}
	// any live variable of that name (outer inlining frames)
	var best *types.Var
	for v := range st.vars {
		if v.Name() == n && (best == nil || v.Pos() > best.Pos()) && !x.inside(v, pos, li) {
			best = v
		}
	}
	if best != nil {
		return x.readVar(st, best), true
	}
	if v, ok := x.entryNames[n]; ok {
		return v, true
	}
	// a renamed local: the contract gives its type
	if x.contract != nil {
		if ty, ok := x.contract.Locals[n]; ok {
			want := x.p.resolveType(ty)
			var cands []*types.Var
			for v := range st.vars {
				if _, used := x.contract.Locals[v.Name()]; used {
					continue
				}
				if types.Identical(v.Type(), want) && !x.isParam(v) && !x.inside(v, pos, li) {
					cands = append(cands, v)
				}
			}
			sort.Slice(cands, func(i, j int) bool { return cands[i].Pos() < cands[j].Pos() })
			if len(cands) >= 1 {
				return x.readVar(st, cands[0]), true
			}
		}
	}
	return Val{}, false
}

// inside: v is declared in the body of the loop, so it does not exist at its head.
func (x *Exec) inside(v *types.Var, pos token.Pos, li *loopRun) bool {
	if li == nil || !pos.IsValid() {
		return false
	}
	at := x.p.pkg.Scope().Innermost(pos)
	if v.Parent() == at {
		return v.Pos() > pos
	}
	for sc := v.Parent(); sc != nil; sc = sc.Parent() {
		if sc.Parent() == at && at != nil {
			return true
		}
	}
	return false
}

func (x *Exec) isParam(v *types.Var) bool {
	sig := x.fn.Type().(*types.Signature)
	if sig.Recv() == v {
		return true
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i) == v {
			return true
		}
	}
	return false
}

func (x *Exec) evalClause(env *Env, c Clause) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if m, is := r.(missingName); is {
				t, ok = nil, false
				_ = m
				return
			}
			panic(r)
		}
	}()
	return env.Bool(c.E), true
}

func (x *Exec) ghostSteps(st *State, env *Env, gs []Ghost) {
	for _, g := range gs {
		if !x.tagOK(g.Tags) || st.dead {
			continue
		}
		x.ghost(st, env, g)
	}
}

func (x *Exec) ghost(st *State, env *Env, g Ghost) {
	switch g.Kind {
	case "assert":
		t, ok := x.evalClause(env, Clause{E: g.E})
		if !ok {
			return
		}
		x.check(st, t, "ghost", g.Src, token.NoPos)
	case "use":
		t, ok := x.lemmaInst(env, g.E)
		if ok {
			st.assume(t)
		}
	case "let": // name the value an expression has here
		v, ok := x.evalGhost(env, g.E)
		if !ok || v.T == nil {
			return
		}
		m := map[string]Val{}
		for k, w := range st.lets {
			m[k] = w
		}
		m[g.Name] = v
		st.lets = m
	case "set": // a local variable equals the expression: use its term from now on
		v, ok := x.evalGhost(env, g.E)
		if !ok || v.T == nil {
			return
		}
		var best *types.Var
		if sc := x.p.pkg.Scope().Innermost(env.pos); sc != nil && env.pos.IsValid() {
			if _, o := sc.LookupParent(g.Name, env.pos); o != nil {
				best, _ = o.(*types.Var)
			}
		}
		w, ok := st.vars[best]
		if best == nil || !ok || w.T == nil || x.boxed[best] || w.T.Sort != v.T.Sort {
			return
		}
		x.check(st, mkEq(w.T, v.T), "ghost", g.Src, token.NoPos)
		if !st.dead {
			x.facts(st, v.T, w.Ty)
			w.T = v.T
			x.setVar(st, best, w)
		}
	}
}

func (x *Exec) evalGhost(env *Env, e *Expr) (v Val, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(missingName); is {
				v, ok = Val{}, false
				return
			}
			panic(r)
		}
	}()
	return env.eval(e), true
}

// lemmaInst is pre ==> post of the lemma at the given arguments.
func (x *Exec) lemmaInst(env *Env, e *Expr) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(missingName); is {
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	l := x.spec.Lemmas[e.Name]
	if l == nil {
		die("%s: unknown lemma %s", e.Pos, e.Name)
	}
	if len(l.Params) != len(e.Args) {
		die("%s: lemma %s takes %d arguments", e.Pos, e.Name, len(l.Params))
	}
	c := &Env{x: x, st: env.st, old: env.old, names: map[string]Val{}}
	for i, p := range l.Params {
		v := env.eval(e.Args[i])
		ty := x.p.resolveType(l.PTypes[i])
		if v.NilLit {
			v.T = zeroTerm(ty)
		}
		v.Ty = ty
		c.names[p] = v
	}
	var req, ens []*Term
	for _, r := range l.Req {
		req = append(req, c.Bool(r.E))
	}
	for _, r := range l.Ens {
		ens = append(ens, c.Bool(r.E))
	}
	return mkImp(mkAnd(req...), mkAnd(ens...)), true
}

func (x *Exec) runLoop(st *State, lr *loopRun) []Outcome {
	var out []Outcome
	lab := func(o Outcome) bool { return o.label == "" || o.label == lr.label && lr.label != "" }
	// one iteration; returns states at the loop head again
	iter := func(c *State) (back []*State) {
		for _, o := range lr.body(c) {
			switch {
			case o.k == oNormal, o.k == oContinue && lab(o):
				if lr.post != nil {
					lr.post(o.st, func(d *State) { back = append(back, d) })
				} else {
					back = append(back, o.st)
				}
			case o.k == oBreak && lab(o):
				out = append(out, Outcome{k: oNormal, st: o.st})
			default:
				out = append(out, o)
			}
		}
		return
	}
	ls := lr.ls
	peel := 0
	if ls != nil {
		peel = ls.Peel
	}
	heads := []*State{st}
	iter0 := iter
	if peel > 0 {
		iter0 = func(c *State) []*State {
			x.ghostSteps(c, x.specEnv(c, lr.pos, lr), ls.Body)
			return iter(c)
		}
	}
	for i := 0; i < peel; i++ {
		var next []*State
		for _, h := range heads {
			if lr.cond == nil {
				next = append(next, iter0(h)...)
				continue
			}
			lr.cond(h, func(t *State) { next = append(next, iter0(t)...) }, func(f *State) { out = append(out, Outcome{k: oNormal, st: f}) })
		}
		heads = next
	}
	for _, h := range heads {
		if h.dead {
			continue
		}
		x.inductive(h, lr, iter, &out)
	}
	return out
}

func (x *Exec) inductive(st *State, lr *loopRun, iter func(*State) []*State, out *[]Outcome) {
	ls := lr.ls
	kind := fmt.Sprintf("loop %d", lr.no)
	if ls != nil {
		x.ghostSteps(st, x.specEnv(st, lr.pos, lr), ls.Pre)
	}
	// write set by repeated dry runs
	rec := x.newRecord()
	invRefs := map[string]map[*Term]bool{}
	ctr0 := freshCtr
	provOf := map[*Prov]*types.Var{} // freshness given to loop variables by havoc
	havocOf := map[*Term]*types.Var{}
	ptrAlts := map[*types.Var][]*Term{} // the objects a pointer variable of the loop may point to
	havoc := func(h *State) {
		for _, v := range sortedVars(rec.vars) {
			old, ok := h.vars[v]
			if !ok {
				continue
			}
			if x.boxed[v] {
				continue
			}
			if old.T == nil && !old.IsEl {
				x.unsupported(h, "loop assigns a function value", lr.pos)
				return
			}
			nv := x.freshVal(h, v.Name(), v.Type())
			if x.p.counters[v] {
				h.assume(mkLe(nv.T, mkInt(counterBound)))
				h.assume(mkLe(mkNeg(mkInt(counterBound)), nv.T))
			}
			if old.Prov != nil && (old.Prov.kind == "fresh" || old.Prov.kind == "param") && !rec.prov[v] {
				nv.Prov = x.newProv(old.Prov.kind, nil)
				provOf[nv.Prov] = v
			}
			h.vars[v] = nv
			if nv.T != nil {
				havocOf[nv.T] = v
			}
			if old.T != nil && nv.T.Sort.Kind == KSeq && !rec.relen[v] {
				h.assume(mkEq(mkLen(nv.T), mkLen(old.T)))
			}
		}
		for _, key := range sortedKeys(rec.heap) {
			for _, r := range sortedTerms(invRefs[key]) {
				ft := rec.heap[key][r]
				nv := x.freshVal(h, key, ft)
				h.heap[key] = mkStore(x.heapArr(h, key, ft), r, nv.T)
			}
		}
		for g := range rec.ghost {
			nv := x.freshVal(h, g, x.ghostVars[g])
			h.ghost[g] = nv.T
		}
		for p := range rec.consumed {
			h.consumed[p] = true
		}
		if rec.alloc {
			a := freshVar("alloc", SInt)
			h.assume(mkLe(h.alloc, a))
			h.alloc = a
		}
		if lr.setIdx != nil {
			lr.setIdx(h)
		}
	}
	saveSteps := x.steps
	for round := 0; ; round++ {
		if round > 8 {
			x.unsupported(st, "loop write set", lr.pos)
			return
		}
		h := st.clone()
		x.dry++
		r2 := x.newRecord()
		x.rec = append(x.rec, r2)
		ctr0 = freshCtr
		prov0 := x.provCtr
		havoc(h)
		saveOut := len(*out)
		stale := map[*types.Var]bool{}
		dryIter := func(t *State) {
			for _, b := range iter(t) {
				// an array stored elsewhere during the iteration is not fresh in the next
				for v := range r2.vars {
					if val, ok := b.vars[v]; ok && val.Prov != nil && consumedProv(b, val.Prov) {
						stale[v] = true
					}
				}
			}
		}
		if lr.cond == nil {
			dryIter(h)
		} else {
			lr.cond(h, dryIter, func(*State) {})
		}
		*out = (*out)[:saveOut]
		x.rec = x.rec[:len(x.rec)-1]
		x.dry--
		changed := false
		for v, m := range r2.ptrs {
			alts := map[*Term]bool{}
			if val, live := st.vars[v]; live && val.T != nil {
				alts[val.T] = true
			}
			for t := range m {
				if hasFreshAfter(t, ctr0) {
					alts = nil
					break
				}
				alts[t] = true
			}
			if _, live := st.vars[v]; live && len(alts) > 1 {
				ptrAlts[v] = sortedTerms(alts)
			} else {
				delete(ptrAlts, v)
			}
		}
		for v := range r2.vars {
			if _, live := st.vars[v]; live && !rec.vars[v] {
				rec.vars[v] = true
				changed = true
			}
		}
		for v := range r2.prov {
			if _, live := st.vars[v]; live && !rec.prov[v] {
				rec.prov[v] = true
				changed = true
			}
		}
		for k, m := range r2.heap {
			if rec.heap[k] == nil {
				rec.heap[k] = map[*Term]types.Type{}
				invRefs[k] = map[*Term]bool{}
				changed = true
			}
			for ref, ft := range m {
				if hasFreshAfter(ref, ctr0) {
					// must be newer than the loop entry, or one of these; checked at the write
					if v := havocOf[ref]; v != nil {
						for _, a := range ptrAlts[v] {
							if !invRefs[k][a] {
								invRefs[k][a] = true
								rec.heap[k][a] = ft
								changed = true
							}
						}
					}
					continue
				}
				if !invRefs[k][ref] {
					invRefs[k][ref] = true
					rec.heap[k][ref] = ft
					changed = true
				}
			}
		}
		for g := range r2.ghost {
			if !rec.ghost[g] {
				rec.ghost[g] = true
				changed = true
			}
		}
		for v := range r2.relen {
			if _, live := st.vars[v]; live && !rec.relen[v] {
				rec.relen[v] = true
				changed = true
			}
		}
		for v := range stale {
			if !rec.prov[v] {
				rec.prov[v] = true
				changed = true
			}
		}
		for p := range r2.consumed {
			if v := provOf[p]; v != nil && !rec.prov[v] {
				rec.prov[v] = true
				changed = true
			}
			if p.id <= prov0 && !rec.consumed[p] {
				rec.consumed[p] = true
				changed = true
			}
		}
		if r2.alloc && !rec.alloc {
			rec.alloc = true
			changed = true
		}
		if !changed {
			break
		}
	}
	x.steps = saveSteps
	// propagate the write set to enclosing recordings
	for _, r := range x.rec {
		for v := range rec.vars {
			r.vars[v] = true
			if rec.relen[v] {
				r.relen[v] = true
			}
			if rec.prov[v] {
				r.prov[v] = true
			}
		}
		for k, m := range rec.heap {
			if r.heap[k] == nil {
				r.heap[k] = map[*Term]types.Type{}
			}
			for ref, ft := range m {
				r.heap[k][ref] = ft
			}
		}
		for g := range rec.ghost {
			r.ghost[g] = true
		}
		for p := range rec.consumed {
			r.consumed[p] = true
		}
		if rec.alloc {
			r.alloc = true
		}
	}
	// invariants on entry
	invs := func(h *State, chk bool, when string) {
		for _, v := range sortedVars(rec.vars) {
			if alts := ptrAlts[v]; alts != nil && h.vars[v].T != nil {
				var eqs []*Term
				for _, a := range alts {
					eqs = append(eqs, mkEq(h.vars[v].T, a))
				}
				if chk {
					x.check(h, mkOr(eqs...), "invariant", fmt.Sprintf("%s: the objects %s points to %s", kind, v.Name(), when), lr.pos)
				} else {
					h.assume(mkOr(eqs...))
				}
			}
		}
		if lr.auto != nil {
			for i, t := range lr.auto(h) {
				if chk {
					x.check(h, t, "invariant", fmt.Sprintf("%s: automatic invariant %d %s", kind, i, when), lr.pos)
				} else {
					h.assume(t)
				}
			}
		}
		if ls == nil {
			return
		}
		for _, c := range ls.Invs {
			if !x.tagOK(c.Tags) {
				continue
			}
			t, ok := x.evalClause(x.specEnv(h, lr.pos, lr), c)
			if !ok {
				continue
			}
			if chk {
				x.check(h, t, "invariant", fmt.Sprintf("%s: %s %s", kind, c.Src, when), lr.pos)
			} else {
				h.assume(t)
			}
		}
	}
	lr.entry = st.clone()
	{
		e := st.clone()
		invs(e, true, "on entry")
	}
	ctx := &loopCtx{inv: invRefs, alloc: st.alloc}
	h := st
	// the entry state itself becomes the head state
	havoc(h)
	if h.dead {
		return
	}
	x.loops = append(x.loops, ctx)
	invs(h, false, "")
	var measure0 []*Term
	env := x.specEnv(h, lr.pos, lr)
	own := false // the loop's own measure can be read
	meas := func(c *State) []*Term {
		if ls != nil && len(ls.Dec) > 0 {
			var o []*Term
			e := x.specEnv(c, lr.pos, lr)
			for _, d := range ls.Dec {
				v, ok := x.evalGhost(e, d)
				if !ok || v.T == nil {
					break
				}
				o = append(o, v.T)
			}
			if len(o) == len(ls.Dec) {
				own = true
				return o
			}
		}
		if lr.dec != nil && !own {
			return []*Term{lr.dec(c)}
		}
		return nil
	}
	_ = env
	measAt := func(t *State) (m []*Term) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(missingName); ok {
					m = nil
					return
				}
				panic(r)
			}
		}()
		return meas(t)
	}
	// the measure before the loop condition, which may have effects
	measure0 = measAt(h)
	run := func(t *State) {
		m0 := measure0
		if m0 == nil {
			m0 = measAt(t)
		}
		if ls != nil {
			x.ghostSteps(t, x.specEnv(t, lr.pos, lr), ls.Body)
		}
		for _, b := range iter(t) {
			if b.dead {
				continue
			}
			if ls != nil {
				x.ghostSteps(b, x.specEnv(b, lr.pos, lr), ls.End)
			}
			bb := b
			if m0 == nil {
				x.check(bb, TFalse, "decreases", kind+": no termination measure", lr.pos)
			} else {
				var m1 []*Term
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(missingName); ok {
								return
							}
							panic(r)
						}
					}()
					m1 = meas(bb)
				}()
				if m1 != nil {
					x.checkOnly(bb, lexLess(m1, m0), "decreases", kind+": the measure decreases", lr.pos)
				}
			}
			invs(bb, true, "kept")
		}
	}
	exitf := func(f *State) {
		if ls != nil {
			x.ghostSteps(f, x.specEnv(f, lr.pos, lr), ls.Post)
		}
		*out = append(*out, Outcome{k: oNormal, st: f})
	}
	nout := len(*out)
	var exits []*State
	if lr.cond == nil {
		run(h)
	} else {
		lr.cond(h, run, func(f *State) { exits = append(exits, f) })
	}
	// break outcomes also pass the post steps
	for i := nout; i < len(*out); i++ {
		if (*out)[i].k == oNormal && ls != nil {
			x.ghostSteps((*out)[i].st, x.specEnv((*out)[i].st, lr.pos, lr), ls.Post)
		}
	}
	x.loops = x.loops[:len(x.loops)-1]
	for _, f := range exits {
		exitf(f)
	}
}

func (x *Exec) checkOnly(st *State, goal *Term, kind, desc string, pos token.Pos) {
	if st.dead {
		return
	}
	if x.dry == 0 && x.wantKind(kind) {
		x.addOblig(st, goal, kind, desc, pos)
	}
}

func lexLess(a, b []*Term) *Term {
	r := TFalse
	for i := len(a) - 1; i >= 0; i-- {
		r = mkOr(mkAnd(mkLt(a[i], b[i]), mkLe(TZero, b[i])), mkAnd(mkEq(a[i], b[i]), r))
	}
	return r
}

func hasFreshAfter(t *Term, ctr int) bool {
	found := false
	walk(t, map[*Term]bool{}, func(u *Term) {
		if u.Op == "var" {
			if i := strings.LastIndexByte(u.Name, '!'); i >= 0 {
				n := 0
				fmt.Sscanf(u.Name[i+1:], "%d", &n)
				if n > ctr && !strings.HasPrefix(u.Name, "lit!") {
					found = true
				}
			}
		}
	})
	return found
}

func sortedTerms(m map[*Term]bool) []*Term {
	var o []*Term
	for t := range m {
		o = append(o, t)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].id < o[j].id })
	return o
}

func sortedVars(m map[*types.Var]bool) []*types.Var {
	var o []*types.Var
	for v := range m {
		o = append(o, v)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].Pos() < o[j].Pos() })
	return o
}

func (x *Exec) execFor(st *State, s *ast.ForStmt, label string) []Outcome {
	var out []Outcome
	run := func(c *State) {
		ls, no := x.loopSpec(c, s)
		if ls == nil || ls.Unroll {
			if ls != nil {
				x.ghostSteps(c, x.specEnv(c, s.Body.Lbrace+1, nil), ls.Pre)
			}
			if o, ok := x.tryUnroll(c, s, label); ok {
				out = append(out, o...)
				return
			}
		}
		lr := &loopRun{ls: ls, no: no, label: label, pos: s.Body.Lbrace + 1}
		if s.Cond != nil {
			lr.cond = func(st *State, kt, kf func(*State)) { x.cond(st, s.Cond, kt, kf) }
		}
		lr.body = func(st *State) []Outcome { return x.execBlock(st, s.Body.List) }
		if v := x.flagOf(s); v != nil && ls != nil {
			if _, ok := c.vars[v]; ok && !x.boxed[v] {
				// for flag { body }: the flag is tested before the first iteration and
				// at the end of each, so that invariants speak of states that go on
				lr.cond = nil
				lr.body = func(st *State) (res []Outcome) {
					x.cond(st, s.Cond, func(t *State) {
						for _, o := range x.execBlock(t, s.Body.List) {
							if o.k != oNormal && (o.k != oContinue || o.label != "" && o.label != label) {
								res = append(res, o)
								continue
							}
							x.cond(o.st, s.Cond, func(g *State) {
								res = append(res, Outcome{k: oNormal, st: g})
							}, func(g *State) {
								res = append(res, Outcome{k: oBreak, st: g})
							})
						}
					}, func(*State) {})
					return res
				}
				x.cond(c, s.Cond, func(t *State) {
					out = append(out, x.runLoop(t, lr)...)
				}, func(f *State) {
					out = append(out, Outcome{k: oNormal, st: f})
				})
				return
			}
		}
		if s.Post != nil {
			lr.post = func(st *State, k func(*State)) {
				for _, o := range x.exec(st, s.Post, "") {
					k(o.st)
				}
			}
		}
		// induction variable
		if v, step := x.inductionVar(s); v != nil {
			if _, ok := c.vars[v]; ok && !x.boxed[v] {
				init := x.readVar(c, v).T
				lr.idx = func(st *State) *Term { return x.readVar(st, v).T }
				bound := x.stableBound(c, s, v, step)
				lr.auto = func(st *State) []*Term {
					cur := x.readVar(st, v).T
					if step > 0 {
						inv := []*Term{mkLe(init, cur)}
						if bound != nil {
							inv = append(inv, mkOr(mkEq(cur, init), mkLe(cur, bound)))
						}
						return inv
					}
					return []*Term{mkLe(cur, init)}
				}
				lr.dec = x.autoMeasure(s, v, step)
			}
		}
		if lr.dec == nil {
			lr.dec = x.condMeasure(s.Cond)
		}
		out = append(out, x.runLoop(c, lr)...)
	}
	if s.Init != nil {
		for _, o := range x.exec(st, s.Init, "") {
			if o.k == oNormal {
				run(o.st)
			} else {
				out = append(out, o)
			}
		}
	} else {
		run(st)
	}
	return out
}

// flagOf returns the variable of a loop without post statement whose condition is a
// Boolean variable or its negation.
func (x *Exec) flagOf(s *ast.ForStmt) *types.Var {
	if s.Cond == nil || s.Post != nil {
		return nil
	}
	e := ast.Unparen(s.Cond)
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		e = ast.Unparen(u.X)
	}
	if i, ok := e.(*ast.Ident); ok {
		if v, ok := x.p.info.ObjectOf(i).(*types.Var); ok && v.Parent() != x.p.pkg.Scope() {
			return v
		}
	}
	return nil
}

// inductionVar finds the variable stepped by the post statement.
func (x *Exec) inductionVar(s *ast.ForStmt) (*types.Var, int) {
	id := func(e ast.Expr) *types.Var {
		if i, ok := e.(*ast.Ident); ok {
			v, _ := x.p.info.ObjectOf(i).(*types.Var)
			return v
		}
		return nil
	}
	try := func(p ast.Stmt) (*types.Var, int) {
		switch p := p.(type) {
		case *ast.IncDecStmt:
			if v := id(p.X); v != nil {
				if p.Tok == token.INC {
					return v, 1
				}
				return v, -1
			}
		case *ast.AssignStmt:
			if p.Tok == token.ADD_ASSIGN || p.Tok == token.SUB_ASSIGN {
				if tv := x.p.info.Types[p.Rhs[0]]; tv.Value != nil {
					if v := id(p.Lhs[0]); v != nil {
						if n, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok && n > 0 {
							if p.Tok == token.SUB_ASSIGN {
								n = -n
							}
							return v, int(n)
						}
					}
				}
			}
		}
		return nil, 0
	}
	if s.Post != nil {
		if v, k := try(s.Post); v != nil && !x.assignedIn(s.Body, v) {
			return v, k
		}
		return nil, 0
	}
	// while-style: a variable of the condition stepped exactly once, at the
	// top level of the body, with no continue in between
	if s.Cond == nil {
		return nil, 0
	}
	var best *types.Var
	bk := 0
	for _, st := range s.Body.List {
		if v, k := try(st); v != nil {
			n := 0
			ast.Inspect(s.Body, func(m ast.Node) bool {
				switch m := m.(type) {
				case *ast.IncDecStmt:
					if id(m.X) == v {
						n++
					}
				case *ast.AssignStmt:
					for _, l := range m.Lhs {
						if id(l) == v {
							n++
						}
					}
				}
				return true
			})
			inCond := false
			ast.Inspect(s.Cond, func(m ast.Node) bool {
				if e, ok := m.(ast.Expr); ok && id(e) == v {
					inCond = true
				}
				return true
			})
			if n == 1 && inCond {
				best, bk = v, k
			}
		}
	}
	return best, bk
}

// stableBound: the largest value a loop variable stepped upwards has at the
// loop head (unless it is still the first one), if the condition gives a bound
// made of variables that the loop leaves alone.
func (x *Exec) stableBound(st *State, s *ast.ForStmt, v *types.Var, step int) *Term {
	var res *Term
	var stable func(e ast.Expr) bool
	stable = func(e ast.Expr) bool {
		if tv := x.p.info.Types[e]; tv.Value != nil {
			return true
		}
		switch e := e.(type) {
		case *ast.ParenExpr:
			return stable(e.X)
		case *ast.Ident:
			w, ok := x.p.info.ObjectOf(e).(*types.Var)
			return ok && w != v && !x.boxed[w] && !x.assignedIn(s, w)
		case *ast.CallExpr:
			f, ok := e.Fun.(*ast.Ident)
			if !ok || len(e.Args) != 1 {
				return false
			}
			b, ok := x.p.info.ObjectOf(f).(*types.Builtin)
			return ok && b.Name() == "len" && stable(e.Args[0])
		}
		return false
	}
	var find func(e ast.Expr)
	find = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.ParenExpr:
			find(e.X)
		case *ast.BinaryExpr:
			if e.Op == token.LAND {
				find(e.X)
				find(e.Y)
				return
			}
			i, ok := e.X.(*ast.Ident)
			if res != nil || !ok || x.p.info.ObjectOf(i) != v || step <= 0 || !(e.Op == token.LSS || e.Op == token.LEQ) || !stable(e.Y) {
				return
			}
			x.dry++
			x.ev(st.clone(), e.Y, func(_ *State, w Val) {
				if w.T != nil {
					k := step
					if e.Op == token.LSS {
						k--
					}
					res = mkAdd(w.T, mkInt64(int64(k)))
				}
			})
			x.dry--
		}
	}
	if s.Cond != nil {
		find(s.Cond)
	}
	return res
}

func (x *Exec) assignedIn(n ast.Node, v *types.Var) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.IncDecStmt:
			if i, ok := m.X.(*ast.Ident); ok && x.p.info.ObjectOf(i) == v {
				found = true
			}
		case *ast.AssignStmt:
			for _, l := range m.Lhs {
				if i, ok := l.(*ast.Ident); ok && x.p.info.ObjectOf(i) == v {
					found = true
				}
			}
		}
		return true
	})
	return found
}

// autoMeasure: bound minus variable for a condition v < e (or > for steps down).
func (x *Exec) autoMeasure(s *ast.ForStmt, v *types.Var, step int) func(*State) *Term {
	var bound ast.Expr
	var find func(e ast.Expr)
	find = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.ParenExpr:
			find(e.X)
		case *ast.BinaryExpr:
			if e.Op == token.LAND {
				find(e.X)
				find(e.Y)
				return
			}
			var o ast.Expr
			isV := func(y ast.Expr) bool {
				i, ok := y.(*ast.Ident)
				return ok && x.p.info.ObjectOf(i) == v
			}
			switch {
			case isV(e.X) && (step > 0 && (e.Op == token.LSS || e.Op == token.LEQ || e.Op == token.NEQ) || step < 0 && (e.Op == token.GTR || e.Op == token.GEQ || e.Op == token.NEQ)):
				o = e.Y
			case isV(e.Y) && (step > 0 && (e.Op == token.GTR || e.Op == token.GEQ) || step < 0 && (e.Op == token.LSS || e.Op == token.LEQ)):
				o = e.X
			}
			if o != nil && bound == nil && x.looksPure(o) {
				bound = o
			}
		}
	}
	if s.Cond != nil {
		find(s.Cond)
	}
	if bound == nil {
		return nil
	}
	return func(st *State) *Term {
		var b *Term
		x.dry++
		c := st.clone()
		x.ev(c, bound, func(_ *State, w Val) { b = w.T })
		x.dry--
		if b == nil {
			return TZero
		}
		cur := x.readVar(st, v).T
		if step > 0 {
			return mkAdd(mkSub(b, cur), mkInt64(int64(step)))
		}
		return mkAdd(mkSub(cur, b), mkInt64(int64(-step)))
	}
}

// condMeasure: the distance of the two sides of a comparison in the condition.
func (x *Exec) condMeasure(cond ast.Expr) func(*State) *Term {
	var big, small ast.Expr
	var find func(e ast.Expr)
	find = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.ParenExpr:
			find(e.X)
		case *ast.BinaryExpr:
			if e.Op == token.LAND {
				find(e.X)
				find(e.Y)
				return
			}
			if big != nil || !x.looksPure(e.X) || !x.looksPure(e.Y) {
				return
			}
			if b, ok := x.p.info.TypeOf(e.X).Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				return
			}
			switch e.Op {
			case token.GTR, token.GEQ, token.NEQ:
				big, small = e.X, e.Y
			case token.LSS, token.LEQ:
				big, small = e.Y, e.X
			}
		}
	}
	if cond != nil {
		find(cond)
	}
	if big == nil {
		return nil
	}
	return func(st *State) *Term {
		val := func(e ast.Expr) (t *Term) {
			x.dry++
			x.ev(st.clone(), e, func(_ *State, w Val) { t = w.T })
			x.dry--
			return
		}
		b, s := val(big), val(small)
		if b == nil || s == nil {
			return TZero
		}
		return mkAdd(mkSub(b, s), mkInt64(1))
	}
}

// tryUnroll executes a loop whose condition has a constant bound directly.
func (x *Exec) tryUnroll(st *State, s *ast.ForStmt, label string) ([]Outcome, bool) {
	v, step := x.inductionVar(s)
	if v == nil || step == 0 || s.Cond == nil || x.boxed[v] {
		return nil, false
	}
	cur, ok := st.vars[v]
	if !ok || cur.T == nil || !isInt(cur.T) {
		return nil, false
	}
	// some conjunct is v < constant
	bounded := false
	var find func(e ast.Expr)
	find = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.ParenExpr:
			find(e.X)
		case *ast.BinaryExpr:
			if e.Op == token.LAND {
				find(e.X)
				find(e.Y)
				return
			}
			vr, lim, op := e.X, e.Y, e.Op
			if i, ok := ast.Unparen(vr).(*ast.Ident); !ok || x.p.info.ObjectOf(i) != v {
				vr, lim = lim, vr
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.NEQ: token.NEQ}[op]
			}
			i, ok := ast.Unparen(vr).(*ast.Ident)
			if !ok || x.p.info.ObjectOf(i) != v {
				return
			}
			up := op == token.LSS || op == token.LEQ
			down := op == token.GTR || op == token.GEQ
			if !(op == token.NEQ || up && step > 0 || down && step < 0) {
				return
			}
			if !x.looksPure(lim) {
				return
			}
			x.dry++
			c := st.clone()
			x.ev(c, lim, func(d *State, w Val) {
				if w.T != nil {
					t := w.T
					if k, ok := d.consts[t]; ok {
						t = k
					}
					dist := int64(1 << 40)
					if isInt(t) && t.Int.IsInt64() && cur.T.Int.IsInt64() {
						dist = t.Int.Int64() - cur.T.Int.Int64()
					}
					if step < 0 {
						dist = -dist
					}
					if dist <= 16*int64(max(step, -step)) {
						bounded = true
					}
				}
			})
			x.dry--
		}
	}
	find(s.Cond)
	if !bounded {
		return nil, false
	}
	var out []Outcome
	heads := []*State{st}
	lab := func(o Outcome) bool { return o.label == "" || o.label == label && label != "" }
	for i := 0; i < 40 && len(heads) > 0; i++ {
		var next []*State
		for _, h := range heads {
			x.cond(h, s.Cond, func(t *State) {
				for _, o := range x.execBlock(t, s.Body.List) {
					switch {
					case o.k == oNormal, o.k == oContinue && lab(o):
						if s.Post == nil {
							next = append(next, o.st)
							continue
						}
						for _, q := range x.exec(o.st, s.Post, "") {
							next = append(next, q.st)
						}
					case o.k == oBreak && lab(o):
						out = append(out, Outcome{k: oNormal, st: o.st})
					default:
						out = append(out, o)
					}
				}
			}, func(f *State) { out = append(out, Outcome{k: oNormal, st: f}) })
		}
		heads = x.mergeMany(next)
	}
	for _, h := range heads {
		x.unsupported(h, "unrolled loop too long", s.Pos())
	}
	return out, true
}

func (x *Exec) execRange(st *State, s *ast.RangeStmt, label string) []Outcome {
	var out []Outcome
	ty := types.Unalias(x.p.info.TypeOf(s.X))
	lab := func(o Outcome) bool { return o.label == "" || o.label == label && label != "" }
	bind := func(c *State, key, val *Val, k func(*State)) {
		set := func(e ast.Expr, v *Val) {
			if e == nil || v == nil {
				return
			}
			id, ok := e.(*ast.Ident)
			if ok && id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE {
				if o, ok := x.p.info.Defs[id].(*types.Var); ok {
					x.declVar(c, o, x.coerce(c, *v, o.Type()))
				}
				return
			}
			x.lval(c, e, func(d *State, lv *LVal) { x.writeLV(d, lv, *v) })
		}
		set(s.Key, key)
		set(s.Value, val)
		k(c)
	}
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		ty = p.Elem()
	}
	x.ev(st, s.X, func(c *State, seq Val) {
		if p, ok := types.Unalias(seq.Ty).Underlying().(*types.Pointer); ok {
			seq = x.loadObj(c, seq.T, p.Elem())
		}
		ls, no := x.loopSpec(c, s)
		var n *Term
		isIntRange := false
		switch u := ty.Underlying().(type) {
		case *types.Slice, *types.Array:
			if seq.IsEl && seq.T == nil {
				n = mkInt64(int64(len(seq.El)))
			} else {
				n = mkLen(seq.T)
			}
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				n = seq.T
				isIntRange = true
			} else if u.Info()&types.IsString != 0 {
				x.unsupported(c, "range over string", s.Pos())
				return
			}
		default:
			x.unsupported(c, fmt.Sprintf("range over %s", ty), s.Pos())
			return
		}
		elem := func(d *State, i *Term) *Val {
			if isIntRange {
				return nil
			}
			if seq.IsEl && isInt(i) && int(i.Int.Int64()) < len(seq.El) {
				v := seq.El[i.Int.Int64()]
				return &v
			}
			var t *Term
			if l, ok := litOf(seq.T); ok && !isInt(i) {
				t = litAt(l, i)
			} else {
				t = mkAt(seq.T, i)
			}
			et := elemType(ty)
			x.facts(d, t, et)
			v := Val{T: t, Ty: et}
			if sortOf(et).Kind == KSeq {
				v.Prov = x.newProv("borrowed", nil)
			}
			return &v
		}
		kt := types.Type(tInt)
		if isIntRange {
			kt = x.p.info.TypeOf(s.X)
			if s.Key != nil {
				if t := x.p.info.TypeOf(s.Key); t != nil {
					kt = t
				}
			}
		}
		nn := n
		if k, ok := c.consts[n]; ok {
			nn = k
		}
		if ls == nil && isInt(nn) && nn.Int.IsInt64() && (nn.Int.Int64() <= 24 || seq.IsEl && seq.T == nil || x.inits) {
			heads := []*State{c}
			for i := int64(0); i < nn.Int.Int64(); i++ {
				var next []*State
				it := mkInt64(i)
				for _, h := range heads {
					if h.dead {
						continue
					}
					bind(h, &Val{T: it, Ty: kt}, elem(h, it), func(d *State) {
						for _, o := range x.execBlock(d, s.Body.List) {
							switch {
							case o.k == oNormal, o.k == oContinue && lab(o):
								next = append(next, o.st)
							case o.k == oBreak && lab(o):
								out = append(out, Outcome{k: oNormal, st: o.st})
							default:
								out = append(out, o)
							}
						}
					})
				}
				heads = x.mergeMany(next)
			}
			for _, h := range heads {
				out = append(out, Outcome{k: oNormal, st: h})
			}
			return
		}
		if seq.T == nil && !isIntRange {
			x.unsupported(c, "range over a value without a term", s.Pos())
			return
		}
		// hidden index variable
		hid := types.NewVar(s.Pos(), x.p.pkg, "$range", tInt)
		c.vars[hid] = Val{T: TZero, Ty: tInt}
		lr := &loopRun{ls: ls, no: no, label: label, pos: s.Body.Lbrace + 1, seq: seq}
		idx := func(d *State) *Term { return d.vars[hid].T }
		lr.idx = idx
		lr.cond = func(d *State, t, f func(*State)) { x.split(d, mkLt(idx(d), n), t, f) }
		lr.body = func(d *State) []Outcome {
			i := idx(d)
			var o []Outcome
			bind(d, &Val{T: i, Ty: kt}, elem(d, i), func(e *State) { o = x.execBlock(e, s.Body.List) })
			return o
		}
		lr.post = func(d *State, k func(*State)) {
			x.setVar(d, hid, Val{T: mkAdd(idx(d), TOne), Ty: tInt})
			k(d)
		}
		lr.auto = func(d *State) []*Term {
			up := mkLe(idx(d), n)
			if isIntRange {
				up = mkOr(up, mkLt(n, TZero))
			}
			return []*Term{mkLe(TZero, idx(d)), up}
		}
		lr.dec = func(d *State) *Term { return mkSub(n, idx(d)) }
		out = append(out, x.runLoop(c, lr)...)
	})
	return out
}

// litAt is a literal indexed by a symbolic position, as a piecewise linear term.
func litAt(l string, i *Term) *Term {
	type run struct{ from, to, off int64 }
	var runs []run
	for k := 0; k < len(l); k++ {
		off := int64(l[k]) - int64(k)
		if n := len(runs); n > 0 && runs[n-1].off == off {
			runs[n-1].to = int64(k)
			continue
		}
		runs = append(runs, run{int64(k), int64(k), off})
	}
	r := mkAt(mkLit(l), i)
	for k := len(runs) - 1; k >= 0; k-- {
		q := runs[k]
		r = mkIte(mkAnd(mkLe(mkInt64(q.from), i), mkLe(i, mkInt64(q.to))), mkAdd(i, mkInt64(q.off)), r)
	}
	return r
}
