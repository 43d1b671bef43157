package main

// Evaluation of contract expressions to terms.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

type Env struct {
	x      *Exec
	st     *State
	old    *Snap
	names  map[string]Val
	oldNm  map[string]Val
	lookup func(name string) (Val, bool)
	inOld  bool
	depth  int
	fuel0  map[string]bool // recursive predicates printed at fuel zero
	miss   *[]string

	preSt     *State // state at loop entry
	preLookup func(name string) (Val, bool)
	pos       token.Pos
}

type missingName string

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]
var tBytes = types.NewSlice(types.Typ[types.Uint8])
var tErr = types.Universe.Lookup("error").Type()

func (e *Env) with(n string, v Val) *Env {
	c := *e
	c.names = map[string]Val{}
	for k, w := range e.names {
		c.names[k] = w
	}
	c.names[n] = v
	return &c
}

func (e *Env) Bool(x *Expr) *Term {
	v := e.eval(x)
	if v.T == nil || v.T.Sort != SBool {
		die("%s: boolean expected", x.Pos)
	}
	return v.T
}

func (e *Env) heapSel(key string, t types.Type, ref *Term) *Term {
	var a *Term
	if e.inOld && e.old != nil {
		a = e.old.heap[key]
		if a == nil {
			// untouched since: the initial array
			a = e.x.initArr(key, t)
		}
	} else {
		a = e.x.heapArr(e.st, key, t)
	}
	r := mkSelect(a, ref)
	if _, _, ok := intRange(t); ok && !strings.HasPrefix(key, "$") {
		e.x.facts(e.st, r, t)
	}
	return r
}

func (x *Exec) initArr(key string, t types.Type) *Term {
	tmp := &State{heap: map[string]*Term{}}
	return x.heapArr(tmp, key, t)
}

func structField(t types.Type, name string) (types.Type, bool) {
	if s, ok := types.Unalias(t).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type(), true
			}
		}
	}
	return nil, false
}

// fieldOf reads a field in a contract expression.
func (e *Env) fieldOf(v Val, name, pos string) Val {
	t := types.Unalias(v.Ty)
	if n, _, ok := isNamedStructPtr(t); ok {
		ft, ok := structField(n, name)
		if !ok {
			die("%s: no field %s in %s", pos, name, t)
		}
		return Val{T: e.heapSel(typeName(n)+"."+name, ft, v.T), Ty: ft}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && isBuf(p.Elem()) && name == "s" {
		return Val{T: e.heapSel("$out", tBytes, v.T), Ty: tBytes}
	}
	ft, ok := structField(t, name)
	if !ok {
		die("%s: no field %s in %s", pos, name, t)
	}
	return Val{T: mkGet(sortOf(t), name, v.T), Ty: ft}
}

func elemType(t types.Type) types.Type {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	die("not a sequence: %s", t)
	return nil
}

func parseBig(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 0)
	if !ok {
		die("bad number %s", s)
	}
	return n
}

func (e *Env) ident(x *Expr) Val {
	if e.inOld && e.oldNm != nil {
		if v, ok := e.oldNm[x.Name]; ok {
			return v
		}
	}
	if v, ok := e.names[x.Name]; ok {
		return v
	}
	if t, ok := e.x.ghostVars[x.Name]; ok {
		if e.inOld && e.old != nil {
			if g := e.old.ghost[x.Name]; g != nil {
				return Val{T: g, Ty: t}
			}
			return Val{T: mkVar("G."+x.Name, sortOf(t)), Ty: t}
		}
		return Val{T: e.x.ghostVal(e.st, x.Name), Ty: t}
	}
	if e.lookup != nil {
		if v, ok := e.lookup(x.Name); ok {
			return v
		}
	}
	if x.Name == "alloc" {
		if e.inOld && e.old != nil {
			return Val{T: e.old.alloc, Ty: tInt}
		}
		return Val{T: e.st.alloc, Ty: tInt}
	}
	if o := e.x.p.pkg.Scope().Lookup(x.Name); o != nil {
		switch o := o.(type) {
		case *types.Const:
			return e.x.constVal(o.Val(), o.Type())
		case *types.Var:
			return e.x.globalVal(o)
		}
	}
	// a predicate without parameters
	if p := e.x.spec.Preds[x.Name]; p != nil && len(p.Params) == 0 {
		return e.call(&Expr{Op: "call", Name: x.Name, Pos: x.Pos})
	}
	panic(missingName(x.Name))
}

func (e *Env) qualified(x *Expr) (Val, bool) {
	if x.Op != "field" || x.Args[0].Op != "id" {
		return Val{}, false
	}
	pk := x.Args[0].Name
	if _, ok := e.names[pk]; ok {
		return Val{}, false
	}
	if e.lookup != nil {
		if _, ok := e.lookup(pk); ok {
			return Val{}, false
		}
	}
	ip := e.x.p.imports[pk]
	if ip == nil {
		return Val{}, false
	}
	o := ip.Scope().Lookup(x.Name)
	switch o := o.(type) {
	case *types.Const:
		return e.x.constVal(o.Val(), o.Type()), true
	case *types.Var:
		return e.x.globalVal(o), true
	}
	return Val{}, false
}

func (e *Env) eval(x *Expr) Val {
	switch x.Op {
	case "int":
		return Val{T: mkInt(parseBig(x.Name)), Ty: tInt}
	case "bool":
		return Val{T: mkBool(x.Name == "true"), Ty: tBool}
	case "str":
		return Val{T: mkLit(x.Name), Ty: tString}
	case "nil":
		return Val{T: TZero, Ty: types.Typ[types.UntypedNil], NilLit: true}
	case "id":
		return e.ident(x)
	case "old":
		if e.old == nil {
			die("%s: old() not available here", x.Pos)
		}
		c := *e
		c.inOld = true
		return c.eval(x.Args[0])
	case "not":
		return Val{T: mkNot(e.Bool(x.Args[0])), Ty: tBool}
	case "neg":
		return Val{T: mkNeg(e.eval(x.Args[0]).T), Ty: tInt}
	case "ite":
		c := e.Bool(x.Args[0])
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		if a.NilLit || b.NilLit || a.T.Sort != b.T.Sort {
			if a.NilLit && b.T.Sort.Kind == KSeq {
				a.T = mkEmpty(b.T.Sort)
			}
			if b.NilLit && a.T.Sort.Kind == KSeq {
				b.T = mkEmpty(a.T.Sort)
			}
		}
		r := a
		if a.NilLit {
			r = b
		}
		return Val{T: mkIte(c, a.T, b.T), Ty: r.Ty}
	case "let":
		return e.with(x.Name, e.eval(x.Args[0])).eval(x.Args[1])
	case "forall", "exists":
		c := e
		var bs []*Term
		for _, q := range x.Vars {
			t := e.x.p.resolveType(q.Type)
			e.x.bvCtr++
			bv := mkBVar(fmt.Sprintf("%s?%d", q.Name, e.x.bvCtr), sortOf(t))
			bs = append(bs, bv)
			c = c.with(q.Name, Val{T: bv, Ty: t})
		}
		var pats [][]*Term
		for _, tr := range x.Trig {
			var ps []*Term
			for _, y := range tr {
				ps = append(ps, c.eval(y).T)
			}
			pats = append(pats, ps)
		}
		return Val{T: mkQuant(x.Op, bs, pats, c.Bool(x.Args[0])), Ty: tBool}
	case "istype":
		v := e.eval(x.Args[0])
		t := e.x.p.resolveType(x.Name)
		return Val{T: e.x.typeTest(v, t), Ty: tBool}
	case "field":
		if x.Args[0].Op == "istype" { // cast then select
			v := e.eval(x.Args[0].Args[0])
			t := e.x.p.resolveType(x.Args[0].Name)
			return e.fieldOf(Val{T: v.T, Ty: t}, x.Name, x.Pos)
		}
		if v, ok := e.qualified(x); ok {
			return v
		}
		return e.fieldOf(e.eval(x.Args[0]), x.Name, x.Pos)
	case "idx":
		v, i := e.eval(x.Args[0]), e.eval(x.Args[1])
		if _, ok := types.Unalias(v.Ty).Underlying().(*types.Map); ok {
			die("%s: map index", x.Pos)
		}
		return Val{T: mkAt(v.T, i.T), Ty: elemType(v.Ty)}
	case "slice":
		v := e.eval(x.Args[0])
		lo, hi := TZero, (*Term)(nil)
		if x.Args[1] != nil {
			lo = e.eval(x.Args[1]).T
		}
		if x.Args[2] != nil {
			hi = e.eval(x.Args[2]).T
		} else {
			hi = mkLen(v.T)
		}
		return Val{T: mkSubSeq(v.T, lo, hi), Ty: v.Ty}
	case "bin":
		return e.bin(x)
	case "call":
		return e.call(x)
	}
	die("%s: cannot evaluate %s", x.Pos, x.Op)
	return Val{}
}

func (e *Env) bin(x *Expr) Val {
	switch x.Name {
	case "&&":
		return Val{T: mkAnd(e.Bool(x.Args[0]), e.Bool(x.Args[1])), Ty: tBool}
	case "||":
		return Val{T: mkOr(e.Bool(x.Args[0]), e.Bool(x.Args[1])), Ty: tBool}
	case "==>":
		a := e.Bool(x.Args[0])
		if a == TFalse {
			return Val{T: TTrue, Ty: tBool}
		}
		return Val{T: mkImp(a, e.Bool(x.Args[1])), Ty: tBool}
	case "<==>":
		return Val{T: mkIff(e.Bool(x.Args[0]), e.Bool(x.Args[1])), Ty: tBool}
	}
	a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
	if a.NilLit && b.T.Sort.Kind == KSeq {
		a.T = mkEmpty(b.T.Sort)
	}
	if b.NilLit && a.T.Sort.Kind == KSeq {
		b.T = mkEmpty(a.T.Sort)
	}
	switch x.Name {
	case "==":
		return Val{T: mkEq(a.T, b.T), Ty: tBool}
	case "!=":
		return Val{T: mkNe(a.T, b.T), Ty: tBool}
	case "<":
		return Val{T: mkLt(a.T, b.T), Ty: tBool}
	case "<=":
		return Val{T: mkLe(a.T, b.T), Ty: tBool}
	case ">":
		return Val{T: mkLt(b.T, a.T), Ty: tBool}
	case ">=":
		return Val{T: mkLe(b.T, a.T), Ty: tBool}
	case "+":
		if a.T.Sort.Kind == KSeq {
			return Val{T: mkCat(a.T, b.T), Ty: a.Ty}
		}
		return Val{T: mkAdd(a.T, b.T), Ty: tInt}
	case "++":
		return Val{T: mkCat(a.T, b.T), Ty: a.Ty}
	case "-":
		return Val{T: mkSub(a.T, b.T), Ty: tInt}
	case "*":
		return Val{T: mkMul(a.T, b.T), Ty: tInt}
	case "/":
		return Val{T: mkDiv(a.T, b.T), Ty: tInt}
	case "%":
		return Val{T: mkMod(a.T, b.T), Ty: tInt}
	}
	die("%s: operator %s", x.Pos, x.Name)
	return Val{}
}

func (e *Env) call(x *Expr) Val {
	arg := func(i int) Val {
		if i >= len(x.Args) {
			die("%s: too few arguments to %s", x.Pos, x.Name)
		}
		return e.eval(x.Args[i])
	}
	switch x.Name {
	case "len":
		return Val{T: mkLen(arg(0).T), Ty: tInt}
	case "pre": // value at loop entry
		if e.preSt == nil {
			die("%s: pre() outside a loop", x.Pos)
		}
		c := *e
		c.st = e.preSt.clone()
		c.lookup = e.preLookup
		c.inOld = false
		return c.eval(x.Args[0])
	case "min":
		a, b := arg(0).T, arg(1).T
		return Val{T: mkIte(mkLe(a, b), a, b), Ty: tInt}
	case "max":
		a, b := arg(0).T, arg(1).T
		return Val{T: mkIte(mkLe(a, b), b, a), Ty: tInt}
	case "unit":
		a := arg(0)
		t := types.NewSlice(a.Ty)
		if a.Ty == tInt {
			t = tBytes
		}
		return Val{T: mkUnit(sortOf(t), a.T), Ty: t}
	case "upd":
		a := arg(0)
		return Val{T: mkUpd(a.T, arg(1).T, arg(2).T), Ty: a.Ty}
	case "rep":
		return Val{T: mkRep(SBytes, arg(0).T, arg(1).T), Ty: tBytes}
	case "empty":
		if len(x.Args) == 0 {
			return Val{T: mkEmpty(SBytes), Ty: tBytes}
		}
		t := e.x.p.resolveType("[]" + exprType(x.Args[0]))
		return Val{T: mkEmpty(sortOf(t)), Ty: t}
	case "addr":
		e.x.wantAddr = true
		v := arg(0)
		e.x.wantAddr = false
		return v
	case "fresh":
		a := arg(0).T
		return Val{T: mkAnd(mkLe(e.old.alloc, a), mkLt(a, e.st.alloc)), Ty: tBool}
	case "allocated":
		a := arg(0).T
		al := e.st.alloc
		if e.inOld {
			al = e.old.alloc
		}
		return Val{T: mkAnd(mkLt(TZero, a), mkLt(a, al)), Ty: tBool}
	case "int":
		a := arg(0)
		return Val{T: a.T, Ty: tInt}
	case "typeof":
		return Val{T: typeofT(arg(0).T), Ty: tInt}
	case "mk": // mk(T, fields...)
		t := e.x.p.resolveType(exprType(x.Args[0]))
		var as []*Term
		for _, a := range x.Args[1:] {
			as = append(as, e.eval(a).T)
		}
		return Val{T: mkData(sortOf(t), as...), Ty: t}
	case "as": // as(T, v)
		t := e.x.p.resolveType(exprType(x.Args[0]))
		v := arg(1)
		return Val{T: v.T, Ty: t}
	case "zero": // zero(T)
		t := e.x.p.resolveType(exprType(x.Args[0]))
		return Val{T: zeroTerm(t), Ty: t}
	case "wrap64":
		return Val{T: wrapTerm(arg(0).T, types.Typ[types.Int64]), Ty: tInt}
	}
	if gf, ok := e.x.ghostFields[x.Name]; ok {
		return Val{T: e.heapSel("$"+x.Name, gf, arg(0).T), Ty: gf}
	}
	if p := e.x.spec.Preds[x.Name]; p != nil {
		if len(p.Params) != len(x.Args) {
			die("%s: %s takes %d arguments", x.Pos, x.Name, len(p.Params))
		}
		var args []Val
		for i := range x.Args {
			v := arg(i)
			t := e.x.p.resolveType(p.PTypes[i])
			if v.NilLit && sortOf(t).Kind == KSeq {
				v.T = mkEmpty(sortOf(t))
			}
			if v.T.Sort != sortOf(t) {
				die("%s: argument %d of %s has sort %s, want %s", x.Pos, i, x.Name, v.T.Sort.Name, sortOf(t).Name)
			}
			v.Ty = t
			args = append(args, v)
		}
		rt := e.x.p.resolveType(p.RType)
		if e.x.isRecPred(x.Name) || p.Opaque {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, a.T)
			}
			n := x.Name
			if e.fuel0[n] {
				n = n + "$0"
			} else {
				// a recursive predicate reads the heap a run starts with
				for _, key := range e.x.predHeap(n) {
					h := e.st.heap
					if e.inOld && e.old != nil {
						h = e.old.heap
					}
					if a := h[key]; a != nil && a != e.x.initArr(key, heapType[key]) {
						die("%s: %s reads %s, which has been written", x.Pos, n, key)
					}
				}
			}
			return Val{T: mkApp(n, sortOf(rt), ts...), Ty: rt}
		}
		if e.depth > 60 {
			die("%s: predicate nesting too deep in %s", x.Pos, x.Name)
		}
		c := *e
		c.depth++
		c.names = map[string]Val{}
		c.oldNm = nil
		c.lookup = nil
		for i, n := range p.Params {
			c.names[n] = args[i]
		}
		v := c.eval(p.Def)
		if v.NilLit {
			v.T = zeroTerm(rt)
		}
		return Val{T: v.T, Ty: rt}
	}
	if f := e.x.spec.Funcs[x.Name]; f != nil && f.Pure {
		var ts []*Term
		for i := range x.Args {
			v := arg(i)
			if v.NilLit {
				v.T = zeroTerm(e.x.p.resolveType(f.PTypes[i]))
			}
			ts = append(ts, v.T)
		}
		rt := e.x.p.resolveType(f.RTypes[0])
		return Val{T: mkApp(x.Name, sortOf(rt), ts...), Ty: rt}
	}
	die("%s: unknown function %s", x.Pos, x.Name)
	return Val{}
}

func exprType(x *Expr) string {
	switch x.Op {
	case "id":
		return x.Name
	case "str":
		return x.Name
	case "field":
		return exprType(x.Args[0]) + "." + x.Name
	}
	die("%s: type expected", x.Pos)
	return ""
}

// isRecPred: the predicate's definition mentions itself (directly or not).
func (x *Exec) isRecPred(n string) bool {
	if v, ok := x.recPred[n]; ok {
		return v
	}
	seen := map[string]bool{}
	var reach func(m string) bool
	var inExpr func(e *Expr) bool
	inExpr = func(e *Expr) bool {
		if e == nil {
			return false
		}
		if (e.Op == "call" || e.Op == "id") && x.spec.Preds[e.Name] != nil {
			if e.Name == n {
				return true
			}
			if reach(e.Name) {
				return true
			}
		}
		for _, a := range e.Args {
			if inExpr(a) {
				return true
			}
		}
		return false
	}
	reach = func(m string) bool {
		if seen[m] {
			return false
		}
		seen[m] = true
		return inExpr(x.spec.Preds[m].Def)
	}
	r := reach(n)
	x.recPred[n] = r
	return r
}

// predHeap lists the heap arrays a recursive predicate reads.
func (x *Exec) predHeap(n string) []string {
	if r, ok := x.predHp[n]; ok {
		return r
	}
	x.predHp[n] = nil
	keys := map[string]bool{}
	seen := map[*Term]bool{}
	for _, a := range x.predAxioms(n) {
		walk(a, seen, func(t *Term) {
			if t.Op == "var" && strings.HasPrefix(t.Name, "H.") {
				keys[t.Name[2:]] = true
			}
			if t.Op == "app" {
				m := strings.TrimSuffix(t.Name, "$0")
				if x.spec.Preds[m] != nil && m != n {
					for _, k := range x.predHeap(m) {
						keys[k] = true
					}
				}
			}
		})
	}
	r := sortedKeys(keys)
	x.predHp[n] = r
	return r
}

// typeTest is x.(T) as a condition on an interface value.
func (x *Exec) typeTest(v Val, t types.Type) *Term {
	if types.IsInterface(t) {
		return mkAnd(mkNe(v.T, TZero), mkApp("implements_"+strings.ReplaceAll(typeName(t), ".", "_"), SBool, typeofT(v.T)))
	}
	return mkAnd(mkNe(v.T, TZero), mkEq(typeofT(v.T), tagOf(t)))
}
