package main

// Symbolic evaluation of expressions.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func (x *Exec) evList(st *State, es []ast.Expr, k func(*State, []Val)) {
	var rec func(c *State, i int, acc []Val)
	rec = func(c *State, i int, acc []Val) {
		if c.dead {
			return
		}
		if i == len(es) {
			k(c, append([]Val{}, acc...))
			return
		}
		x.ev(c, es[i], func(d *State, v Val) { rec(d, i+1, append(acc[:len(acc):len(acc)], v)) })
	}
	rec(st, 0, nil)
}

// evMulti evaluates an expression with n values (call, comma-ok forms).
func (x *Exec) evMulti(st *State, e ast.Expr, n int, k func(*State, []Val)) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.evMulti(st, e.X, n, k)
		return
	case *ast.CallExpr:
		x.evCall(st, e, func(c *State, vs []Val) {
			if len(vs) != n {
				x.unsupported(c, "value count", e.Pos())
				return
			}
			k(c, vs)
		})
		return
	case *ast.TypeAssertExpr:
		t := x.p.info.TypeOf(e.Type)
		x.ev(st, e.X, func(c *State, v Val) {
			ok := x.dynTest(v, t)
			x.split(c, ok, func(d *State) {
				k(d, []Val{x.unbox(d, v, t), {T: TTrue, Ty: tBool}})
			}, func(d *State) {
				k(d, []Val{x.zeroVal(t), {T: TFalse, Ty: tBool}})
			})
		})
		return
	case *ast.IndexExpr:
		if m, ok := x.p.info.TypeOf(e.X).Underlying().(*types.Map); ok {
			x.ev(st, e.X, func(c *State, mv Val) {
				x.ev(c, e.Index, func(d *State, kv Val) {
					dom, val, ok := x.mapLookup(d, mv, kv, m, e.Pos())
					if !ok {
						return
					}
					x.split(d, dom, func(t *State) {
						k(t, []Val{{T: val, Ty: m.Elem()}, {T: TTrue, Ty: tBool}})
					}, func(f *State) {
						k(f, []Val{x.zeroVal(m.Elem()), {T: TFalse, Ty: tBool}})
					})
				})
			})
			return
		}
	}
	x.unsupported(st, fmt.Sprintf("multi-value %T", e), e.Pos())
}

type mapConst struct {
	keys []int64
	vals map[int64]*Term
}

var mapTab = map[*Term]*mapConst{}

func (x *Exec) mapLookup(st *State, mv, kv Val, m *types.Map, pos token.Pos) (dom, val *Term, ok bool) {
	mc := mapTab[mv.T]
	if mc == nil || sortOf(m.Key()) != SInt || sortOf(m.Elem()) != SInt {
		x.unsupported(st, "map lookup", pos)
		return nil, nil, false
	}
	if isInt(kv.T) {
		v, has := mc.vals[kv.T.Int.Int64()]
		if !has {
			return TFalse, TZero, true
		}
		return TTrue, v, true
	}
	type run struct{ from, to, off int64 }
	var runs []run
	for _, k := range mc.keys {
		v := mc.vals[k]
		if !isInt(v) {
			x.unsupported(st, "map with symbolic values", pos)
			return nil, nil, false
		}
		off := v.Int.Int64() - k
		if n := len(runs); n > 0 && runs[n-1].off == off && runs[n-1].to == k-1 {
			runs[n-1].to = k
			continue
		}
		runs = append(runs, run{k, k, off})
	}
	dom, val = TFalse, TZero
	for i := len(runs) - 1; i >= 0; i-- {
		q := runs[i]
		in := mkAnd(mkLe(mkInt64(q.from), kv.T), mkLe(kv.T, mkInt64(q.to)))
		if q.from == q.to {
			in = mkEq(kv.T, mkInt64(q.from))
			val = mkIte(in, mkInt64(q.from+q.off), val)
		} else {
			val = mkIte(in, mkAdd(kv.T, mkInt64(q.off)), val)
		}
		dom = mkOr(in, dom)
	}
	return dom, val, true
}

// ev evaluates a single-valued expression.
func (x *Exec) ev(st *State, e ast.Expr, k func(*State, Val)) {
	if st.dead {
		return
	}
	if tv, ok := x.p.info.Types[e]; ok && tv.Value != nil {
		t := tv.Type
		k(st, x.constVal(tv.Value, t))
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.ev(st, e.X, k)
	case *ast.Ident:
		x.evIdent(st, e, k)
	case *ast.FuncLit:
		k(st, Val{Fn: &FuncVal{lit: e, frame: st.frame}, Ty: x.p.info.TypeOf(e)})
	case *ast.UnaryExpr:
		x.evUnary(st, e, k)
	case *ast.BinaryExpr:
		x.evBinary(st, e, k)
	case *ast.StarExpr:
		x.ev(st, e.X, func(c *State, p Val) {
			if p.LV != nil {
				k(c, x.readLV(c, p.LV))
				return
			}
			x.check(c, mkNe(p.T, TZero), "nil", "dereference", e.Pos())
			k(c, x.loadObj(c, p.T, types.Unalias(p.Ty).Underlying().(*types.Pointer).Elem()))
		})
	case *ast.SelectorExpr:
		x.evSelector(st, e, k)
	case *ast.IndexExpr:
		x.evIndex(st, e, k)
	case *ast.SliceExpr:
		x.evSlice(st, e, k)
	case *ast.CallExpr:
		x.evCall(st, e, func(c *State, vs []Val) {
			switch len(vs) {
			case 0:
				k(c, Val{})
			default:
				k(c, vs[0])
			}
		})
	case *ast.TypeAssertExpr:
		t := x.p.info.TypeOf(e.Type)
		x.ev(st, e.X, func(c *State, v Val) {
			x.check(c, x.dynTest(v, t), "assertion", "type assertion to "+typeName(t), e.Pos())
			k(c, x.unbox(c, v, t))
		})
	case *ast.CompositeLit:
		x.evComposite(st, e, x.p.info.TypeOf(e), k)
	default:
		x.unsupported(st, fmt.Sprintf("expression %T", e), e.Pos())
	}
}

func (x *Exec) readVar(st *State, v *types.Var) Val {
	w, ok := st.vars[v]
	if !ok {
		if v.Parent() == x.p.pkg.Scope() || v.Pkg() != x.p.pkg {
			return x.globalVal(v)
		}
		x.unsupported(st, "variable "+v.Name()+" has no value", x.curPos)
		return Val{T: freshVar(v.Name(), sortOf(v.Type())), Ty: v.Type()}
	}
	if x.wantAddr {
		if x.boxed[v] {
			return Val{T: w.T, Ty: types.NewPointer(v.Type())}
		}
		return Val{T: freshVar("addr", SInt), Ty: types.NewPointer(v.Type())}
	}
	if x.boxed[v] {
		return x.loadObj(st, w.T, v.Type())
	}
	if w.Ty == nil {
		w.Ty = v.Type()
	}
	return w
}

func (x *Exec) evIdent(st *State, e *ast.Ident, k func(*State, Val)) {
	switch o := x.p.info.ObjectOf(e).(type) {
	case *types.Nil:
		k(st, Val{T: TZero, Ty: types.Typ[types.UntypedNil], NilLit: true})
	case *types.Var:
		v := x.readVar(st, o)
		if st.dead {
			return
		}
		if v.Prov != nil && v.Prov.kind == "fresh" {
			// reading the variable yields a second reference
			v.Prov = x.newProv("named", v.Prov)
		}
		k(st, v)
	case *types.Func:
		k(st, Val{Fn: &FuncVal{fn: o}, Ty: o.Type()})
	case *types.Const:
		k(st, x.constVal(o.Val(), o.Type()))
	default:
		x.unsupported(st, "identifier "+e.Name, e.Pos())
	}
}

func (x *Exec) evUnary(st *State, e *ast.UnaryExpr, k func(*State, Val)) {
	switch e.Op {
	case token.NOT:
		x.ev(st, e.X, func(c *State, v Val) { k(c, Val{T: mkNot(v.T), Ty: v.Ty}) })
	case token.SUB:
		x.ev(st, e.X, func(c *State, v Val) {
			k(c, x.arith(c, token.SUB, Val{T: TZero, Ty: v.Ty}, v, v.Ty, e.Pos()))
		})
	case token.ADD:
		x.ev(st, e.X, k)
	case token.XOR:
		x.ev(st, e.X, func(c *State, v Val) {
			lo, hi, _ := intRange(v.Ty)
			if lo.Sign() == 0 {
				k(c, Val{T: mkSub(mkInt(hi), v.T), Ty: v.Ty})
			} else {
				k(c, Val{T: mkSub(mkInt64(-1), v.T), Ty: v.Ty})
			}
		})
	case token.AND:
		if cl, ok := e.X.(*ast.CompositeLit); ok {
			t := x.p.info.TypeOf(cl)
			x.evComposite(st, cl, t, func(c *State, v Val) {
				ref := x.allocRef(c, t)
				x.storeObj(c, ref, t, v)
				k(c, Val{T: ref, Ty: x.p.info.TypeOf(e)})
			})
			return
		}
		x.lval(st, e.X, func(c *State, lv *LVal) {
			if lv.kind == "var" && x.boxed[lv.v] {
				k(c, Val{T: c.vars[lv.v].T, Ty: x.p.info.TypeOf(e)})
				return
			}
			if lv.kind == "deref" {
				k(c, Val{T: lv.ref, Ty: x.p.info.TypeOf(e)})
				return
			}
			k(c, Val{LV: lv, Ty: x.p.info.TypeOf(e), T: nil})
		})
	default:
		x.unsupported(st, "unary "+e.Op.String(), e.Pos())
	}
}

func (x *Exec) evBinary(st *State, e *ast.BinaryExpr, k func(*State, Val)) {
	if e.Op == token.LAND || e.Op == token.LOR {
		if t, ok := x.pureBool(st, e); ok {
			if !st.dead {
				k(st, Val{T: t, Ty: tBool})
			}
			return
		}
		x.cond(st, e, func(c *State) { k(c, Val{T: TTrue, Ty: tBool}) }, func(c *State) { k(c, Val{T: TFalse, Ty: tBool}) })
		return
	}
	x.ev(st, e.X, func(c *State, a Val) {
		x.ev(c, e.Y, func(d *State, b Val) {
			switch e.Op {
			case token.EQL:
				k(d, Val{T: x.equal(d, a, b, e.Pos()), Ty: tBool})
			case token.NEQ:
				k(d, Val{T: mkNot(x.equal(d, a, b, e.Pos())), Ty: tBool})
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if a.T == nil || b.T == nil || a.T.Sort != SInt || b.T.Sort != SInt {
					x.unsupported(d, "ordering of non-integers", e.Pos())
					return
				}
				var t *Term
				switch e.Op {
				case token.LSS:
					t = mkLt(a.T, b.T)
				case token.LEQ:
					t = mkLe(a.T, b.T)
				case token.GTR:
					t = mkLt(b.T, a.T)
				case token.GEQ:
					t = mkLe(b.T, a.T)
				}
				k(d, Val{T: t, Ty: tBool})
			default:
				rt := x.p.info.TypeOf(e)
				v := x.arith(d, e.Op, a, b, rt, e.Pos())
				if !d.dead {
					k(d, v)
				}
			}
		})
	})
}

func (x *Exec) equal(st *State, a, b Val, pos token.Pos) *Term {
	if a.Fn != nil || b.Fn != nil {
		if a.NilLit || b.NilLit || a.T == TZero || b.T == TZero {
			return TFalse
		}
	}
	if a.LV != nil || b.LV != nil {
		if a.NilLit || b.NilLit {
			return TFalse
		}
	}
	if a.NilLit && b.NilLit {
		return TTrue
	}
	ifa := a.Ty != nil && types.IsInterface(a.Ty)
	ifb := b.Ty != nil && types.IsInterface(b.Ty)
	if ifa && !ifb {
		b = x.coerce(st, b, a.Ty)
	}
	if ifb && !ifa {
		a = x.coerce(st, a, b.Ty)
	}
	ta, tb := x.termOf(st, a), x.termOf(st, b)
	if st.dead {
		return TFalse
	}
	if a.NilLit && tb.Sort.Kind == KSeq || b.NilLit && ta.Sort.Kind == KSeq {
		s := ta
		if a.NilLit {
			s = tb
		}
		// nil and empty slices are not distinguished: a nil test is only
		// known to fail on non-empty slices
		r := mkApp("isnil_"+s.Sort.Name, SBool, s)
		st.assume(mkImp(r, mkEq(mkLen(s), TZero)))
		return r
	}
	if ta.Sort != tb.Sort {
		x.unsupported(st, "comparison of different sorts", pos)
		return TFalse
	}
	return mkEq(ta, tb)
}

func wrapTerm(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	l, h := bounds(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	if lo.Sign() == 0 {
		return mkMod(t, mkInt(m))
	}
	w := mkAdd(mkMod(mkAdd(t, mkInt(new(big.Int).Neg(lo))), mkInt(m)), mkInt(lo))
	return mkIte(mkAnd(mkLe(mkInt(lo), t), mkLe(t, mkInt(hi))), t, w)
}

func (x *Exec) arith(st *State, op token.Token, a, b Val, ty types.Type, pos token.Pos) Val {
	if a.T == nil || b.T == nil {
		a.T, b.T = x.termOf(st, a), x.termOf(st, b)
		if st.dead {
			return Val{T: TZero, Ty: ty}
		}
	}
	if a.T.Sort.Kind == KSeq {
		if op == token.ADD {
			return Val{T: mkCat(a.T, b.T), Ty: ty}
		}
		x.unsupported(st, "operator on strings", pos)
		return Val{T: a.T, Ty: ty}
	}
	if a.T.Sort != SInt {
		x.unsupported(st, "arithmetic", pos)
		return Val{T: a.T, Ty: ty}
	}
	lo, hi, ok := intRange(ty)
	if !ok {
		x.unsupported(st, "arithmetic on "+ty.String(), pos)
		return Val{T: a.T, Ty: ty}
	}
	uns := lo.Sign() == 0
	norm := func(t *Term) Val {
		if uns || x.wraps {
			return Val{T: wrapTerm(t, ty), Ty: ty}
		}
		l, h := bounds(t)
		if !(l != nil && l.Cmp(lo) >= 0) {
			x.check(st, mkLe(mkInt(lo), t), "overflow", op.String(), pos)
		}
		if !(h != nil && h.Cmp(hi) <= 0) {
			x.check(st, mkLe(t, mkInt(hi)), "overflow", op.String(), pos)
		}
		return Val{T: t, Ty: ty}
	}
	switch op {
	case token.ADD:
		return norm(mkAdd(a.T, b.T))
	case token.SUB:
		return norm(mkSub(a.T, b.T))
	case token.MUL:
		return norm(mkMul(a.T, b.T))
	case token.QUO, token.REM:
		x.check(st, mkNe(b.T, TZero), "div", "division by zero", pos)
		if !isInt(b.T) || b.T.Int.Sign() <= 0 {
			x.unsupported(st, "division by a non-constant", pos)
			return Val{T: a.T, Ty: ty}
		}
		var q *Term
		nonneg := st.simp(mkLe(TZero, a.T)) == TTrue
		if l, _ := bounds(a.T); l != nil && l.Sign() >= 0 || nonneg || uns {
			q = mkDiv(a.T, b.T)
			if op == token.REM {
				return Val{T: mkMod(a.T, b.T), Ty: ty}
			}
		} else {
			q = mkIte(mkLe(TZero, a.T), mkDiv(a.T, b.T), mkNeg(mkDiv(mkNeg(a.T), b.T)))
		}
		if op == token.QUO {
			return Val{T: q, Ty: ty}
		}
		return Val{T: mkSub(a.T, mkMul(b.T, q)), Ty: ty}
	case token.SHL:
		x.shiftCheck(st, b, pos)
		if isInt(b.T) {
			s := b.T.Int.Uint64()
			return Val{T: shlConst(a.T, uint(s), ty), Ty: ty}
		}
		// 1 << n and friends with a symbolic count
		t := mkApp("shl", SInt, a.T, b.T, mkInt(hi))
		bits := int64(hi.BitLen())
		if !uns {
			bits++
		}
		st.assume(mkImp(mkLe(mkInt64(bits), b.T), mkEq(t, TZero)))
		st.assume(mkLe(mkInt(lo), t))
		st.assume(mkLe(t, mkInt(hi)))
		return Val{T: t, Ty: ty}
	case token.SHR:
		x.shiftCheck(st, b, pos)
		if isInt(b.T) {
			p := new(big.Int).Lsh(bigOne, uint(b.T.Int.Uint64()))
			return Val{T: mkDiv(a.T, mkInt(p)), Ty: ty}
		}
		t := mkApp("shr", SInt, a.T, b.T)
		st.assume(mkLe(mkInt(lo), t))
		st.assume(mkLe(t, mkInt(hi)))
		return Val{T: t, Ty: ty}
	case token.AND:
		u, v := a.T, b.T
		if isInt(u) {
			u, v = v, u
		}
		if isInt(v) && v.Int.Sign() >= 0 {
			return Val{T: maskConst(u, v.Int), Ty: ty}
		}
	case token.AND_NOT:
		if isInt(b.T) && b.T.Int.Sign() >= 0 {
			return Val{T: mkSub(a.T, maskConst(a.T, b.T.Int)), Ty: ty}
		}
	case token.OR, token.XOR:
		if disjointBits(a.T, b.T) || disjointBits(b.T, a.T) {
			return Val{T: mkAdd(a.T, b.T), Ty: ty}
		}
		if isInt(a.T) && isInt(b.T) && a.T.Int.Sign() >= 0 && b.T.Int.Sign() >= 0 {
			if op == token.OR {
				return Val{T: mkInt(new(big.Int).Or(a.T.Int, b.T.Int)), Ty: ty}
			}
			return Val{T: mkInt(new(big.Int).Xor(a.T.Int, b.T.Int)), Ty: ty}
		}
		if a.T == TZero {
			return Val{T: b.T, Ty: ty}
		}
		if b.T == TZero {
			return Val{T: a.T, Ty: ty}
		}
	}
	t := mkApp("bit_"+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op], SInt, a.T, b.T)
	st.assume(mkLe(mkInt(lo), t))
	st.assume(mkLe(t, mkInt(hi)))
	if op == token.OR {
		st.assume(mkImp(mkEq(a.T, TZero), mkEq(t, b.T)))
		st.assume(mkImp(mkEq(b.T, TZero), mkEq(t, a.T)))
	}
	return Val{T: t, Ty: ty}
}

func (x *Exec) shiftCheck(st *State, b Val, pos token.Pos) {
	if !isUnsigned(b.Ty) {
		x.check(st, mkLe(TZero, b.T), "shift", "negative shift count", pos)
	}
}

// disjointBits: a is a multiple of 2^k and 0 <= b < 2^k.
func disjointBits(a, b *Term) bool {
	lo, hi := bounds(b)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return false
	}
	z := trailingZeros(a)
	return uint(hi.BitLen()) <= z
}

// maskConst is t & m for a non-negative constant mask (two's complement).
func maskConst(t *Term, m *big.Int) *Term {
	r := TZero
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		// bits i..j-1
		lowp := mkInt(new(big.Int).Lsh(bigOne, uint(i)))
		w := mkInt(new(big.Int).Lsh(bigOne, uint(j-i)))
		r = mkAdd(r, mkMul(lowp, mkMod(mkDiv(t, lowp), w)))
		i = j
	}
	return r
}

// shlConst is t << s in type ty.
func shlConst(t *Term, s uint, ty types.Type) *Term {
	lo, hi, _ := intRange(ty)
	bits := uint(hi.BitLen())
	uns := lo.Sign() == 0
	if !uns {
		bits++
	}
	if s >= bits {
		return TZero
	}
	p := mkInt(new(big.Int).Lsh(bigOne, s))
	full := mkMul(t, p)
	l, h := bounds(full)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return full
	}
	low := mkMul(mkMod(t, mkInt(new(big.Int).Lsh(bigOne, bits-s))), p)
	if uns {
		return low
	}
	// sign bit
	sb := mkMod(mkDiv(t, mkInt(new(big.Int).Lsh(bigOne, bits-1-s))), mkInt64(2))
	return mkSub(low, mkMul(mkInt(new(big.Int).Lsh(bigOne, bits)), sb))
}

// conversions ---------------------------------------------------------------------------

func (x *Exec) coerce(st *State, v Val, to types.Type) Val {
	if to == nil || v.Ty == nil {
		return v
	}
	if v.NilLit {
		switch types.Unalias(to).Underlying().(type) {
		case *types.Slice:
			return Val{T: mkEmpty(sortOf(to)), Ty: to, Prov: x.newProv("fresh", nil)}
		case *types.Interface:
			return Val{T: TZero, Ty: to, NilLit: true}
		}
		return Val{T: TZero, Ty: to, NilLit: true}
	}
	if types.IsInterface(to) {
		if types.IsInterface(v.Ty) {
			w := v
			w.Ty = to
			return w
		}
		return x.toIface(st, v, to)
	}
	w := v
	w.Ty = to
	return w
}

func (x *Exec) toIface(st *State, v Val, to types.Type) Val {
	if b, ok := v.Ty.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		v.Ty = types.Default(v.Ty)
	}
	if _, ok := types.Unalias(v.Ty).Underlying().(*types.Pointer); ok && v.T != nil {
		st.assume(mkImp(mkNe(v.T, TZero), mkEq(typeofT(v.T), tagOf(v.Ty))))
		return Val{T: v.T, Ty: to, Dyn: v.Ty, Box: &v}
	}
	if v.LV != nil || v.Fn != nil {
		t := freshVar("boxed", SInt)
		st.assume(mkLt(t, TZero))
		return Val{T: t, Ty: to, Dyn: v.Ty, Box: &v}
	}
	u := x.termOf(st, v)
	t := mkApp("box_"+boxName(v.Ty), SInt, u)
	st.assume(mkLt(t, TZero))
	st.assume(mkEq(typeofT(t), tagOf(v.Ty)))
	st.assume(mkEq(mkApp("unbox_"+boxName(v.Ty), u.Sort, t), u))
	return Val{T: t, Ty: to, Dyn: v.Ty, Box: &v}
}

func (x *Exec) convert(st *State, v Val, to types.Type, pos token.Pos) Val {
	if v.NilLit || types.IsInterface(to) {
		return x.coerce(st, v, to)
	}
	tu := types.Unalias(to).Underlying()
	fu := types.Unalias(v.Ty).Underlying()
	if _, _, ok := intRange(to); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
			return Val{T: wrapTerm(x.narrow(st, v.T, to), to), Ty: to}
		}
		x.unsupported(st, "conversion to integer", pos)
		return Val{T: TZero, Ty: to}
	}
	if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
			st2 := mkAnd(mkLe(TZero, v.T), mkLt(v.T, mkInt64(128)))
			if st.simp(st2) != TTrue {
				if l, h := bounds(v.T); l == nil || h == nil || l.Sign() < 0 || h.Cmp(big.NewInt(127)) > 0 {
					x.unsupported(st, "conversion of integer to string", pos)
				}
			}
			return Val{T: mkUnit(SBytes, v.T), Ty: to}
		}
		if x.termOf(st, v).Sort == SBytes {
			return Val{T: x.termOf(st, v), Ty: to}
		}
	}
	if _, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 && sortOf(to) == SBytes {
			return Val{T: v.T, Ty: to, Prov: x.newProv("fresh", nil)}
		}
	}
	if v.Fn != nil {
		w := v
		w.Ty = to
		return w
	}
	if v.T != nil && sortOf(to) == v.T.Sort || v.IsEl {
		w := v
		w.Ty = to
		return w
	}
	x.unsupported(st, "conversion to "+to.String(), pos)
	return Val{T: TZero, Ty: to}
}

// narrow uses path facts to drop a wrap.
func (x *Exec) narrow(st *State, t *Term, to types.Type) *Term { return t }

// selectors, index, slice ------------------------------------------------------------------

func (x *Exec) evSelector(st *State, e *ast.SelectorExpr, k func(*State, Val)) {
	sel := x.p.info.Selections[e]
	if sel == nil {
		// qualified identifier
		switch o := x.p.info.ObjectOf(e.Sel).(type) {
		case *types.Var:
			k(st, x.globalVal(o))
		case *types.Func:
			k(st, Val{Fn: &FuncVal{fn: o}, Ty: o.Type()})
		default:
			x.unsupported(st, "selector", e.Pos())
		}
		return
	}
	switch sel.Kind() {
	case types.FieldVal:
		x.ev(st, e.X, func(c *State, v Val) { x.selectPath(c, v, sel.Index(), e.Pos(), k) })
	case types.MethodVal:
		x.ev(st, e.X, func(c *State, v Val) {
			r := v
			k(c, Val{Fn: &FuncVal{fn: sel.Obj().(*types.Func), recv: &r}, Ty: sel.Type()})
		})
	default:
		x.unsupported(st, "method expression", e.Pos())
	}
}

func (x *Exec) selectPath(st *State, v Val, path []int, pos token.Pos, k func(*State, Val)) {
	for _, ix := range path {
		if v.LV != nil {
			v = x.readLV(st, v.LV)
		}
		t := types.Unalias(v.Ty)
		if n, s, ok := isNamedStructPtr(t); ok {
			x.check(st, mkNe(v.T, TZero), "nil", "field "+s.Field(ix).Name()+" of nil", pos)
			f := s.Field(ix)
			ft := mkSelect(x.heapArr(st, typeName(n)+"."+f.Name(), f.Type()), v.T)
			x.facts(st, ft, f.Type())
			v = Val{T: ft, Ty: f.Type()}
			if ft.Sort.Kind == KSeq {
				v.Prov = x.newProv("borrowed", nil)
			}
			continue
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			x.unsupported(st, "field of "+t.String(), pos)
			return
		}
		f := s.Field(ix)
		if v.IsEl {
			v = v.El[ix]
			if v.Ty == nil {
				v.Ty = f.Type()
			}
			continue
		}
		ft := mkGet(sortOf(t), f.Name(), v.T)
		x.facts(st, ft, f.Type())
		v = Val{T: ft, Ty: f.Type()}
		if ft.Sort.Kind == KSeq {
			v.Prov = x.newProv("borrowed", nil)
		}
	}
	if !st.dead {
		k(st, v)
	}
}

func (x *Exec) evIndex(st *State, e *ast.IndexExpr, k func(*State, Val)) {
	bt := types.Unalias(x.p.info.TypeOf(e.X))
	if m, ok := bt.Underlying().(*types.Map); ok {
		x.ev(st, e.X, func(c *State, mv Val) {
			x.ev(c, e.Index, func(d *State, kv Val) {
				dom, val, ok := x.mapLookup(d, mv, kv, m, e.Pos())
				if !ok {
					return
				}
				k(d, Val{T: mkIte(dom, val, TZero), Ty: m.Elem()})
			})
		})
		return
	}
	if _, ok := bt.Underlying().(*types.Signature); ok {
		x.ev(st, e.X, k)
		return
	}
	x.ev(st, e.X, func(c *State, v Val) {
		x.ev(c, e.Index, func(d *State, i Val) {
			if p, ok := types.Unalias(v.Ty).Underlying().(*types.Pointer); ok {
				x.check(d, mkNe(v.T, TZero), "nil", "index of nil", e.Pos())
				v = x.loadObj(d, v.T, p.Elem())
			}
			if v.IsEl && v.T == nil {
				if !isInt(i.T) || i.T.Int.Int64() >= int64(len(v.El)) || i.T.Int.Sign() < 0 {
					x.unsupported(d, "index of composite", e.Pos())
					return
				}
				k(d, v.El[i.T.Int.Int64()])
				return
			}
			n := mkLen(v.T)
			x.check(d, mkAnd(mkLe(TZero, i.T), mkLt(i.T, n)), "index", "index in range", e.Pos())
			if d.dead {
				return
			}
			et := elemType(v.Ty)
			var t *Term
			if l, ok := litOf(v.T); ok && !isInt(i.T) {
				t = litAt(l, i.T)
			} else {
				t = mkAt(v.T, i.T)
			}
			x.facts(d, t, et)
			r := Val{T: t, Ty: et}
			if t.Sort.Kind == KSeq {
				r.Prov = x.newProv("borrowed", nil)
			}
			k(d, r)
		})
	})
}

func (x *Exec) evSlice(st *State, e *ast.SliceExpr, k func(*State, Val)) {
	x.ev(st, e.X, func(c *State, v Val) {
		if v.LV != nil {
			v = x.readLV(c, v.LV)
		} else if p, ok := types.Unalias(v.Ty).Underlying().(*types.Pointer); ok {
			v = x.loadObj(c, v.T, p.Elem())
		}
		rt := x.p.info.TypeOf(e)
		vt := x.termOf(c, v)
		if c.dead {
			return
		}
		n := mkLen(vt)
		eval := func(d *State, ex ast.Expr, def *Term, kk func(*State, *Term)) {
			if ex == nil {
				kk(d, def)
				return
			}
			x.ev(d, ex, func(f *State, w Val) { kk(f, w.T) })
		}
		eval(c, e.Low, TZero, func(d *State, lo *Term) {
			eval(d, e.High, n, func(f *State, hi *Term) {
				x.check(f, mkAnd(mkLe(TZero, lo), mkLe(lo, hi), mkLe(hi, n)), "slice", "slice bounds", e.Pos())
				if f.dead {
					return
				}
				r := Val{T: mkSubSeq(vt, lo, hi), Ty: rt}
				x.subFacts(f, r.T)
				if r.T.Sort.Kind == KSeq {
					of := v.Prov
					if of != nil && of.kind == "named" {
						of = of.of
					}
					if of == nil {
						of = x.newProv("borrowed", nil)
					}
					kind := "sub"
					if e.Slice3 && e.Max != nil && e.High != nil {
						// capacity limited: appending copies
						kind = "sub"
					}
					r.Prov = x.newProv(kind, of)
				}
				k(f, r)
			})
		})
	})
}

func (x *Exec) subFacts(st *State, t *Term) {
	if t.Op == "app" && strings.HasPrefix(t.Name, "sub_") && !t.hasBV {
		st.assume(mkEq(mkLen(t), mkSub(t.Args[2], t.Args[1])))
	}
}

// composite literals -------------------------------------------------------------------------

func hasFunc(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasFunc(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Slice:
		return hasFunc(u.Elem())
	case *types.Array:
		return hasFunc(u.Elem())
	}
	return false
}

func (x *Exec) evComposite(st *State, e *ast.CompositeLit, t types.Type, k func(*State, Val)) {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		// &T{} elided inside a slice literal
		x.evComposite(st, e, p.Elem(), func(c *State, v Val) {
			ref := x.allocRef(c, p.Elem())
			x.storeObj(c, ref, p.Elem(), v)
			k(c, Val{T: ref, Ty: t})
		})
		return
	}
	elt := func(c *State, ex ast.Expr, et types.Type, kk func(*State, Val)) {
		if cl, ok := ex.(*ast.CompositeLit); ok && cl.Type == nil {
			x.evComposite(c, cl, et, kk)
			return
		}
		x.ev(c, ex, func(d *State, v Val) { kk(d, x.coerce(d, x.stored(d, v), et)) })
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		vals := make([]Val, u.NumFields())
		var rec func(c *State, i int)
		rec = func(c *State, i int) {
			if c.dead {
				return
			}
			if i == len(e.Elts) {
				el := make([]Val, len(vals))
				for j := range vals {
					el[j] = vals[j]
					if el[j].Ty == nil {
						el[j] = x.zeroVal(u.Field(j).Type())
					}
				}
				if hasFunc(t) {
					k(c, Val{El: el, IsEl: true, Ty: t})
					return
				}
				if isBuf(t) {
					k(c, Val{T: mkEmpty(SBytes), Ty: t})
					return
				}
				if sortOf(t).Kind != KData {
					k(c, Val{T: zeroTerm(t), Ty: t})
					return
				}
				var args []*Term
				for _, v := range el {
					args = append(args, x.termOf(c, v))
				}
				k(c, Val{T: mkData(sortOf(t), args...), Ty: t})
				return
			}
			fi := i
			ex := e.Elts[i]
			if kv, ok := ex.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fi = j
					}
				}
				ex = kv.Value
			}
			elt(c, ex, u.Field(fi).Type(), func(d *State, v Val) {
				save := vals[fi]
				if v.Ty == nil {
					v.Ty = u.Field(fi).Type()
				}
				vals[fi] = v
				rec(d, i+1)
				vals[fi] = save
			})
		}
		rec(st, 0)
	case *types.Slice, *types.Array:
		et := elemType(t)
		var rec func(c *State, i int, acc []Val)
		rec = func(c *State, i int, acc []Val) {
			if c.dead {
				return
			}
			if i == len(e.Elts) {
				if a, ok := u.(*types.Array); ok {
					for int64(len(acc)) < a.Len() {
						acc = append(acc, x.zeroVal(et))
					}
				}
				v := Val{El: acc, IsEl: true, Ty: t, Prov: x.newProv("fresh", nil)}
				if !hasFunc(et) {
					s := sortOf(t)
					r := mkEmpty(s)
					for _, a := range acc {
						r = mkCat(r, mkUnit(s, x.termOf(c, a)))
					}
					v.T = r
				}
				k(c, v)
				return
			}
			if _, ok := e.Elts[i].(*ast.KeyValueExpr); ok {
				x.unsupported(c, "keyed array literal", e.Pos())
				return
			}
			elt(c, e.Elts[i], et, func(d *State, v Val) { rec(d, i+1, append(acc[:len(acc):len(acc)], v)) })
		}
		rec(st, 0, nil)
	case *types.Map:
		mc := &mapConst{vals: map[int64]*Term{}}
		var rec func(c *State, i int)
		rec = func(c *State, i int) {
			if i == len(e.Elts) {
				k(c, x.mapVal(mc, t))
				return
			}
			kv := e.Elts[i].(*ast.KeyValueExpr)
			x.ev(c, kv.Key, func(d *State, kk Val) {
				x.ev(d, kv.Value, func(f *State, vv Val) {
					if kk.T == nil || !isInt(kk.T) || vv.T == nil {
						x.unsupported(f, "map literal", e.Pos())
						return
					}
					mc.set(kk.T.Int.Int64(), vv.T)
					rec(f, i+1)
				})
			})
		}
		rec(st, 0)
	default:
		x.unsupported(st, "composite literal", e.Pos())
	}
}

func (m *mapConst) set(k int64, v *Term) {
	if _, ok := m.vals[k]; !ok {
		i := 0
		for i < len(m.keys) && m.keys[i] < k {
			i++
		}
		m.keys = append(m.keys, 0)
		copy(m.keys[i+1:], m.keys[i:])
		m.keys[i] = k
	}
	m.vals[k] = v
}

func (x *Exec) mapVal(mc *mapConst, t types.Type) Val {
	r := freshVar("map", SInt)
	mapTab[r] = mc
	return Val{T: r, Ty: t}
}

// l-values -------------------------------------------------------------------------------------

func (x *Exec) lval(st *State, e ast.Expr, k func(*State, *LVal)) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.lval(st, e.X, k)
		return
	case *ast.Ident:
		v, ok := x.p.info.ObjectOf(e).(*types.Var)
		if !ok {
			break
		}
		k(st, &LVal{kind: "var", v: v, ty: v.Type()})
		return
	case *ast.StarExpr:
		x.ev(st, e.X, func(c *State, p Val) {
			if p.LV != nil {
				k(c, p.LV)
				return
			}
			x.check(c, mkNe(p.T, TZero), "nil", "dereference", e.Pos())
			k(c, &LVal{kind: "deref", ref: p.T, ty: types.Unalias(p.Ty).Underlying().(*types.Pointer).Elem()})
		})
		return
	case *ast.SelectorExpr:
		sel := x.p.info.Selections[e]
		if sel == nil {
			if v, ok := x.p.info.ObjectOf(e.Sel).(*types.Var); ok {
				k(st, &LVal{kind: "var", v: v, ty: v.Type()})
				return
			}
			break
		}
		if sel.Kind() != types.FieldVal {
			break
		}
		bt := x.p.info.TypeOf(e.X)
		step := func(c *State, lv *LVal, base Val, path []int) {
			// walk the path; base is used when it is a pointer
			for _, ix := range path {
				var t types.Type
				if lv != nil {
					t = lv.ty
				} else {
					t = base.Ty
				}
				if n, s, ok := isNamedStructPtr(t); ok {
					var p Val
					if lv != nil {
						p = x.readLV(c, lv)
					} else {
						p = base
					}
					f := s.Field(ix)
					if p.LV != nil {
						lv = &LVal{kind: "sfield", base: p.LV, fld: f.Name(), ty: f.Type()}
						continue
					}
					x.check(c, mkNe(p.T, TZero), "nil", "field "+f.Name()+" of nil", e.Pos())
					lv = &LVal{kind: "field", ref: p.T, named: typeName(n) + "." + f.Name(), ty: f.Type()}
					continue
				}
				s, ok := types.Unalias(t).Underlying().(*types.Struct)
				if !ok || lv == nil {
					x.unsupported(c, "assignment to field", e.Pos())
					return
				}
				f := s.Field(ix)
				lv = x.sfield(c, lv, f)
			}
			if !c.dead {
				k(c, lv)
			}
		}
		if _, isPtr := types.Unalias(bt).Underlying().(*types.Pointer); isPtr {
			x.ev(st, e.X, func(c *State, p Val) { step(c, nil, p, sel.Index()) })
		} else {
			x.lval(st, e.X, func(c *State, lv *LVal) { step(c, lv, Val{}, sel.Index()) })
		}
		return
	case *ast.IndexExpr:
		bt := types.Unalias(x.p.info.TypeOf(e.X))
		if _, ok := bt.Underlying().(*types.Map); ok {
			x.ev(st, e.X, func(c *State, m Val) {
				x.ev(c, e.Index, func(d *State, i Val) {
					k(d, &LVal{kind: "map", ref: m.T, idx: i.T, ty: bt.Underlying().(*types.Map).Elem()})
				})
			})
			return
		}
		x.lvalOrTemp(st, e.X, func(c *State, base *LVal) {
			x.ev(c, e.Index, func(d *State, i Val) {
				if p, ok := types.Unalias(base.ty).Underlying().(*types.Pointer); ok {
					pv := x.readLV(d, base)
					base = &LVal{kind: "deref", ref: pv.T, ty: p.Elem()}
				}
				b := x.readLV(d, base)
				bt := x.termOf(d, b)
				if d.dead {
					return
				}
				x.check(d, mkAnd(mkLe(TZero, i.T), mkLt(i.T, mkLen(bt))), "index", "index in range", e.Pos())
				k(d, &LVal{kind: "index", base: base, idx: i.T, ty: elemType(base.ty)})
			})
		})
		return
	}
	x.unsupported(st, fmt.Sprintf("assignment target %T", e), e.Pos())
}

func (x *Exec) sfield(st *State, lv *LVal, f *types.Var) *LVal {
	if lv.kind == "var" && x.boxed[lv.v] {
		ref := st.vars[lv.v].T
		if sortOf(lv.ty).Kind == KData {
			return &LVal{kind: "field", ref: ref, named: typeName(lv.ty) + "." + f.Name(), ty: f.Type()}
		}
	}
	if lv.kind == "deref" && sortOf(lv.ty).Kind == KData {
		return &LVal{kind: "field", ref: lv.ref, named: typeName(lv.ty) + "." + f.Name(), ty: f.Type()}
	}
	return &LVal{kind: "sfield", base: lv, fld: f.Name(), ty: f.Type()}
}

// lvalOrTemp: an assignable location, or a read-only temporary.
func (x *Exec) lvalOrTemp(st *State, e ast.Expr, k func(*State, *LVal)) {
	switch y := e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.ParenExpr:
		x.lval(st, e, k)
	case *ast.SliceExpr:
		x.lvalOrTemp(st, y.X, func(c *State, base *LVal) {
			b := x.readLV(c, base)
			bt := x.termOf(c, b)
			if c.dead {
				return
			}
			lo, hi := TZero, mkLen(bt)
			fin := func(d *State) {
				x.check(d, mkAnd(mkLe(TZero, lo), mkLe(lo, hi), mkLe(hi, mkLen(bt))), "slice", "slice bounds", e.Pos())
				k(d, &LVal{kind: "slice", base: base, idx: lo, ref: hi, ty: x.p.info.TypeOf(e)})
			}
			h := func(d *State) {
				if y.High != nil {
					x.ev(d, y.High, func(f *State, v Val) { hi = v.T; fin(f) })
				} else {
					fin(d)
				}
			}
			if y.Low != nil {
				x.ev(c, y.Low, func(d *State, v Val) { lo = v.T; h(d) })
			} else {
				h(c)
			}
		})
	default:
		x.ev(st, e, func(c *State, v Val) {
			tmp := types.NewVar(e.Pos(), x.p.pkg, "$tmp", v.Ty)
			c.vars[tmp] = v
			k(c, &LVal{kind: "var", v: tmp, ty: v.Ty})
		})
	}
}

func (x *Exec) readLV(st *State, lv *LVal) Val {
	switch lv.kind {
	case "var":
		return x.readVar(st, lv.v)
	case "field":
		t := mkSelect(x.heapArr(st, lv.named, lv.ty), lv.ref)
		x.facts(st, t, lv.ty)
		v := Val{T: t, Ty: lv.ty}
		if t.Sort.Kind == KSeq {
			v.Prov = x.newProv("borrowed", nil)
		}
		return v
	case "deref":
		return x.loadObj(st, lv.ref, lv.ty)
	case "sfield":
		b := x.readLV(st, lv.base)
		if b.IsEl {
			s := types.Unalias(lv.base.ty).Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == lv.fld {
					return b.El[i]
				}
			}
		}
		t := mkGet(sortOf(lv.base.ty), lv.fld, x.termOf(st, b))
		x.facts(st, t, lv.ty)
		return Val{T: t, Ty: lv.ty}
	case "index":
		b := x.readLV(st, lv.base)
		t := mkAt(x.termOf(st, b), lv.idx)
		x.facts(st, t, lv.ty)
		return Val{T: t, Ty: lv.ty}
	case "slice":
		b := x.readLV(st, lv.base)
		t := mkSubSeq(x.termOf(st, b), lv.idx, lv.ref)
		x.subFacts(st, t)
		return Val{T: t, Ty: lv.ty, Prov: x.newProv("sub", b.Prov)}
	case "map":
		mc := mapTab[lv.ref]
		if mc != nil && isInt(lv.idx) {
			if v := mc.vals[lv.idx.Int.Int64()]; v != nil {
				return Val{T: v, Ty: lv.ty}
			}
			return Val{T: zeroTerm(lv.ty), Ty: lv.ty}
		}
	}
	x.unsupported(st, "read of "+lv.kind, x.curPos)
	return Val{T: freshVar("unk", sortOf(lv.ty)), Ty: lv.ty}
}

// canMutate checks that the backing array of a slice location may be written.
func (x *Exec) canMutate(st *State, lv *LVal) {
	if x.dry > 0 || st.dead {
		return
	}
	switch lv.kind {
	case "slice":
		x.canMutate(st, lv.base)
		return
	case "index", "sfield":
		if _, ok := types.Unalias(lv.base.ty).Underlying().(*types.Array); ok || lv.kind == "sfield" {
			x.canMutate(st, lv.base)
			return
		}
		x.canMutate(st, lv.base)
		return
	case "field", "deref":
		// writing through a heap field counts as a write of that field and
		// is judged by the frame conditions
		return
	case "var":
		if _, ok := types.Unalias(lv.ty).Underlying().(*types.Array); ok {
			return
		}
		if x.boxed[lv.v] {
			return
		}
		v := st.vars[lv.v]
		ok := v.Prov != nil && (v.Prov.kind == "fresh" || v.Prov.kind == "param") && !st.consumed[v.Prov]
		if !ok {
			x.addOblig(st, TFalse, "owner", "element of "+lv.v.Name()+" written, but its array is shared or belongs to the caller", x.curPos)
		}
	}
}

func (x *Exec) writeLV(st *State, lv *LVal, v Val) {
	if st.dead {
		return
	}
	switch lv.kind {
	case "var":
		if lv.v.Parent() == x.p.pkg.Scope() {
			if x.inits {
				x.p.globals[lv.v] = v
				return
			}
			x.unsupported(st, "assignment to package variable "+lv.v.Name(), x.curPos)
			return
		}
		if x.boxed[lv.v] {
			x.storeObj(st, st.vars[lv.v].T, lv.ty, v)
			return
		}
		if v.Prov != nil && v.Prov.kind == "named" {
			v.Prov = v.Prov.of
		}
		if x.mutParams[lv.v] && !x.keepLen {
			x.unsupported(st, "mutable slice parameter "+lv.v.Name()+" is reassigned", x.curPos)
			return
		}
		x.setVar(st, lv.v, v)
	case "field":
		x.setHeap(st, lv.named, lv.ty, lv.ref, x.termOf(st, v))
	case "deref":
		x.storeObj(st, lv.ref, lv.ty, v)
	case "sfield":
		b := x.readLV(st, lv.base)
		s := types.Unalias(lv.base.ty).Underlying().(*types.Struct)
		if b.IsEl {
			el := append([]Val{}, b.El...)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == lv.fld {
					el[i] = v
				}
			}
			x.writeLV(st, lv.base, Val{El: el, IsEl: true, Ty: lv.base.ty})
			return
		}
		var args []*Term
		ds := sortOf(lv.base.ty)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == lv.fld {
				args = append(args, x.termOf(st, v))
			} else {
				args = append(args, mkGet(ds, s.Field(i).Name(), b.T))
			}
		}
		x.writeLV(st, lv.base, Val{T: mkData(ds, args...), Ty: lv.base.ty})
	case "index":
		x.canMutate(st, lv)
		b := x.readLV(st, lv.base)
		bt := x.termOf(st, b)
		if st.dead {
			return
		}
		nv := Val{T: mkUpd(bt, lv.idx, x.termOf(st, v)), Ty: lv.base.ty, Prov: b.Prov}
		if b.IsEl && isInt(lv.idx) && int(lv.idx.Int.Int64()) < len(b.El) {
			nv.El = append([]Val{}, b.El...)
			nv.El[lv.idx.Int.Int64()] = v
			nv.IsEl = true
		}
		x.writeElems(st, lv.base, nv)
	case "slice":
		x.canMutate(st, lv)
		b := x.readLV(st, lv.base)
		bt := x.termOf(st, b)
		nt := mkCat(x.sub(st, bt, TZero, lv.idx), mkCat(x.termOf(st, v), x.sub(st, bt, lv.ref, mkLen(bt))))
		x.writeElems(st, lv.base, Val{T: nt, Ty: lv.base.ty, Prov: b.Prov})
	case "map":
		mc := mapTab[lv.ref]
		if mc == nil || !isInt(lv.idx) || !x.inits {
			x.unsupported(st, "map assignment", x.curPos)
			return
		}
		mc.set(lv.idx.Int.Int64(), x.termOf(st, v))
	default:
		x.unsupported(st, "write of "+lv.kind, x.curPos)
	}
}

// writeElems writes back a sequence of which only elements changed.
func (x *Exec) writeElems(st *State, lv *LVal, v Val) {
	k := x.keepLen
	x.keepLen = true
	x.writeLV(st, lv, v)
	x.keepLen = k
}

func (x *Exec) sub(st *State, s, lo, hi *Term) *Term {
	t := mkSubSeq(s, lo, hi)
	x.subFacts(st, t)
	return t
}
