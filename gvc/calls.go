package main

// Calls: builtins, conversions, buffers, inlining, contracts, formatting.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// staticCallee is the function or method a call names (an interface method
// for dynamic calls), or nil for calls of function values.
func (x *Exec) staticCallee(call *ast.CallExpr) *types.Func {
	f := ast.Unparen(call.Fun)
	if ix, ok := f.(*ast.IndexExpr); ok {
		f = ix.X
	}
	switch f := f.(type) {
	case *ast.Ident:
		fn, _ := x.p.info.ObjectOf(f).(*types.Func)
		return fn
	case *ast.SelectorExpr:
		if sel := x.p.info.Selections[f]; sel != nil {
			fn, _ := sel.Obj().(*types.Func)
			return fn
		}
		fn, _ := x.p.info.ObjectOf(f.Sel).(*types.Func)
		return fn
	}
	return nil
}

func (x *Exec) evCall(st *State, e *ast.CallExpr, k func(*State, []Val)) {
	if st.dead {
		return
	}
	k0 := k
	k = func(c *State, vs []Val) {
		if !c.dead {
			k0(c, vs)
		}
	}
	tv := x.p.info.Types[e.Fun]
	if tv.IsType() {
		x.ev(st, e.Args[0], func(c *State, v Val) {
			if v.LV != nil {
				x.unsupported(c, "conversion of an address", e.Pos())
				return
			}
			v = x.convert(c, v, tv.Type, e.Pos())
			k(c, []Val{v})
		})
		return
	}
	if tv.IsBuiltin() {
		x.evBuiltin(st, e, k)
		return
	}
	fn := x.staticCallee(e)
	if fn == nil {
		x.ev(st, e.Fun, func(c *State, f Val) {
			sig := types.Unalias(f.Ty).Underlying().(*types.Signature)
			x.evArgs(c, e, sig, nil, nil, func(d *State, args []Val, lvs []*LVal) {
				x.callValue(d, f, args, lvs, e, k)
			})
		})
		return
	}
	sig := fn.Type().(*types.Signature)
	if inst, ok := x.p.info.TypeOf(e.Fun).(*types.Signature); ok && sig.TypeParams().Len() > 0 {
		sig = inst
	}
	con := x.spec.Funcs[funcName(fn)]
	if con != nil && con.Inline {
		con = nil
	}
	if sig.Recv() == nil {
		x.evArgs(st, e, sig, con, fn, func(c *State, args []Val, lvs []*LVal) {
			x.callFn(c, fn, nil, args, lvs, e, k)
		})
		return
	}
	se, ok := ast.Unparen(e.Fun).(*ast.SelectorExpr)
	if !ok {
		x.unsupported(st, "method call", e.Pos())
		return
	}
	x.evRecv(st, se, fn, func(c *State, recv Val) {
		x.evArgs(c, e, sig, con, fn, func(d *State, args []Val, lvs []*LVal) {
			x.callFn(d, fn, &recv, args, lvs, e, k)
		})
	})
}

// evRecv evaluates the receiver of a method call.
func (x *Exec) evRecv(st *State, se *ast.SelectorExpr, fn *types.Func, k func(*State, Val)) {
	sel := x.p.info.Selections[se]
	bt := types.Unalias(x.p.info.TypeOf(se.X))
	_, baseIsPtr := bt.Underlying().(*types.Pointer)
	rt := fn.Type().(*types.Signature).Recv().Type()
	_, wantPtr := rt.(*types.Pointer)
	path := sel.Index()
	path = path[:len(path)-1]
	if len(path) > 0 {
		x.ev(st, se.X, func(c *State, v Val) {
			x.selectPath(c, v, path, se.Pos(), func(d *State, w Val) {
				_, isPtr := types.Unalias(w.Ty).Underlying().(*types.Pointer)
				if types.IsInterface(w.Ty) || isPtr == wantPtr {
					k(d, w)
					return
				}
				x.unsupported(d, "promoted method", se.Pos())
			})
		})
		return
	}
	if wantPtr && !baseIsPtr {
		x.lvalOrTemp(st, se.X, func(c *State, lv *LVal) { k(c, x.addrOf(c, lv)) })
		return
	}
	x.ev(st, se.X, func(c *State, v Val) {
		if !wantPtr && baseIsPtr && !types.IsInterface(rt) {
			if v.LV != nil {
				k(c, x.readLV(c, v.LV))
				return
			}
			x.check(c, mkNe(v.T, TZero), "nil", "method call on nil", se.Pos())
			k(c, x.loadObj(c, v.T, bt.Underlying().(*types.Pointer).Elem()))
			return
		}
		k(c, v)
	})
}

func (x *Exec) addrOf(st *State, lv *LVal) Val {
	pt := types.NewPointer(lv.ty)
	if lv.kind == "var" && x.boxed[lv.v] {
		return Val{T: st.vars[lv.v].T, Ty: pt}
	}
	if lv.kind == "deref" {
		return Val{T: lv.ref, Ty: pt}
	}
	return Val{LV: lv, Ty: pt}
}

func isVariadicLast(sig *types.Signature, i int) bool {
	return sig.Variadic() && i == sig.Params().Len()-1
}

// evArgs evaluates the arguments; arguments for parameters whose elements the
// callee changes are evaluated as locations.
func (x *Exec) evArgs(st *State, e *ast.CallExpr, sig *types.Signature, con *Contract, fn *types.Func, k func(*State, []Val, []*LVal)) {
	np := sig.Params().Len()
	mut := func(i int) bool {
		if i >= np {
			return false
		}
		if con == nil {
			return fn != nil && x.writtenParams(fn)[i]
		}
		n := sig.Params().At(i).Name()
		if i < len(con.Params) {
			n = con.Params[i]
		}
		for _, m := range con.Mutates {
			if m == n {
				return true
			}
		}
		return false
	}
	finish := func(c *State, vals []Val, lvs []*LVal) {
		out := make([]Val, np)
		for i := 0; i < np; i++ {
			pt := sig.Params().At(i).Type()
			if isVariadicLast(sig, i) && !e.Ellipsis.IsValid() {
				et := pt.(*types.Slice).Elem()
				var el []Val
				for _, v := range vals[i:] {
					el = append(el, x.coerce(c, v, et))
				}
				pv := Val{El: el, IsEl: true, Ty: pt, Prov: x.newProv("fresh", nil)}
				if len(el) == 0 {
					pv = Val{T: zeroTerm(pt), Ty: pt}
				} else if !hasFunc(et) {
					ok := true
					for _, v := range el {
						if v.T == nil {
							ok = false
						}
					}
					if ok {
						s := sortOf(pt)
						r := mkEmpty(s)
						for _, v := range el {
							r = mkCat(r, mkUnit(s, v.T))
						}
						pv.T = r
					}
				}
				out[i] = pv
				continue
			}
			out[i] = x.coerce(c, vals[i], pt)
		}
		for len(lvs) < np {
			lvs = append(lvs, nil)
		}
		k(c, out, lvs)
	}
	if len(e.Args) == 1 && np > 1 {
		if call, ok := ast.Unparen(e.Args[0]).(*ast.CallExpr); ok {
			if tup, ok := x.p.info.TypeOf(call).(*types.Tuple); ok {
				x.evMulti(st, call, tup.Len(), func(c *State, vs []Val) { finish(c, vs, nil) })
				return
			}
		}
	}
	var rec func(c *State, i int, vals []Val, lvs []*LVal)
	rec = func(c *State, i int, vals []Val, lvs []*LVal) {
		if c.dead {
			return
		}
		if i == len(e.Args) {
			finish(c, append([]Val{}, vals...), append([]*LVal{}, lvs...))
			return
		}
		if mut(i) {
			x.lvalOrTemp(c, e.Args[i], func(d *State, lv *LVal) {
				v := x.readLV(d, lv)
				if !d.dead {
					rec(d, i+1, append(vals[:len(vals):len(vals)], v), append(lvs[:len(lvs):len(lvs)], lv))
				}
			})
			return
		}
		x.ev(c, e.Args[i], func(d *State, v Val) {
			rec(d, i+1, append(vals[:len(vals):len(vals)], v), append(lvs[:len(lvs):len(lvs)], nil))
		})
	}
	rec(st, 0, nil, nil)
}

// callValue calls a function value.
func (x *Exec) callValue(st *State, f Val, args []Val, lvs []*LVal, e *ast.CallExpr, k func(*State, []Val)) {
	switch {
	case f.Fn != nil && f.Fn.lit != nil:
		sig := types.Unalias(f.Ty).Underlying().(*types.Signature)
		if s, ok := x.p.info.TypeOf(f.Fn.lit).(*types.Signature); ok {
			sig = s
		}
		x.inline(st, nil, "closure", f.Fn.lit.Type, f.Fn.lit.Body, sig, nil, args, e.Pos(), f.Fn, k)
	case f.Fn != nil && f.Fn.fn != nil:
		x.callFn(st, f.Fn.fn, f.Fn.recv, args, lvs, e, k)
	case f.T != nil:
		con := x.spec.Funcs["functype."+typeName(f.Ty)]
		if con == nil {
			x.unsupported(st, "call of a function value of type "+typeName(f.Ty), e.Pos())
			return
		}
		x.check(st, mkNe(f.T, TZero), "nil", "call of a nil function", e.Pos())
		sig := types.Unalias(f.Ty).Underlying().(*types.Signature)
		self := f
		x.callContract(st, con, con.Name, sig, &self, args, lvs, e.Pos(), k)
	default:
		x.unsupported(st, "call", e.Pos())
	}
}

func (x *Exec) callFn(st *State, fn *types.Func, recv *Val, args []Val, lvs []*LVal, e *ast.CallExpr, k func(*State, []Val)) {
	if st.dead {
		return
	}
	name := funcName(fn)
	sig := fn.Type().(*types.Signature)
	pos := e.Pos()
	if recv != nil && sig.Recv() != nil && types.IsInterface(sig.Recv().Type()) {
		if recv.Dyn != nil {
			// the dynamic type is known
			obj, path, _ := types.LookupFieldOrMethod(recv.Dyn, true, x.p.pkg, fn.Name())
			if m, ok := obj.(*types.Func); ok && len(path) == 1 && recv.Box != nil {
				r := *recv.Box
				_, wantPtr := m.Type().(*types.Signature).Recv().Type().(*types.Pointer)
				_, havePtr := types.Unalias(r.Ty).Underlying().(*types.Pointer)
				if havePtr && !wantPtr {
					r = x.loadObj(st, r.T, types.Unalias(r.Ty).Underlying().(*types.Pointer).Elem())
				}
				if isBuf(recv.Dyn) || havePtr && isBuf(types.Unalias(r.Ty).Underlying().(*types.Pointer).Elem()) || x.p.funcs[m] != nil || x.spec.Funcs[funcName(m)] != nil {
					x.callFn(st, m, &r, args, lvs, e, k)
					return
				}
			}
		}
		x.check(st, mkNe(recv.T, TZero), "nil", "method call on nil interface", pos)
	}
	if recv != nil && sig.Recv() != nil {
		rt := types.Unalias(sig.Recv().Type())
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		if isBuf(rt) {
			x.bufCall(st, fn.Name(), *recv, args, pos, k)
			return
		}
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		text, wrapped := x.formatCall(st, name, args)
		tag := "*errors.errorString"
		if name == "fmt.Errorf" {
			tag = "*fmt.wrapError"
		}
		t := x.allocTagged(st, tErr, tag)
		if text != nil {
			st.assume(mkEq(mkApp("errText", SBytes, t), text))
		}
		if wrapped != nil {
			st.assume(mkEq(mkApp("errUnwrap", SInt, t), wrapped))
		}
		k(st, []Val{{T: t, Ty: tErr}})
		return
	case "fmt.Sprintf":
		text, _ := x.formatCall(st, name, args)
		if text == nil {
			text = x.freshVal(st, "sprintf", tString).T
		}
		x.facts(st, text, tString)
		k(st, []Val{{T: text, Ty: tString}})
		return
	case "fmt.Fprintf":
		text, _ := x.formatCall(st, name, args[1:])
		if text == nil {
			text = x.freshVal(st, "fprintf", tString).T
		}
		x.facts(st, text, tString)
		w := args[0]
		wm, _, _ := types.LookupFieldOrMethod(w.Ty, true, x.p.pkg, "Write")
		if m, ok := wm.(*types.Func); ok {
			x.callFn(st, m, &w, []Val{{T: text, Ty: tBytes}}, []*LVal{nil}, e, k)
			return
		}
		x.unsupported(st, "Fprintf", pos)
		return
	case "sort.Slice", "sort.SliceStable":
		x.sortSlice(st, args, e, k)
		return
	case "errors.As":
		x.errorsAs(st, args[0], args[1], pos, k)
		return
	}
	con := x.spec.Funcs[name]
	if con != nil && !con.Inline {
		x.callContract(st, con, name, sig, recv, args, lvs, pos, k)
		return
	}
	if fd := x.p.funcs[fn]; fd != nil {
		saveW := x.wraps
		if con != nil && con.Wraps {
			x.wraps = true
		}
		x.inlined[name] = true
		back := x.lendParams(st, fn, sig, args, lvs, pos)
		x.inline(st, fn, name, fd.Type, fd.Body, sig, recv, args, pos, nil, func(c *State, vs []Val) {
			in := x.wraps
			x.wraps = saveW
			back(c)
			if !c.dead {
				k(c, vs)
			}
			x.wraps = in
		})
		x.wraps = saveW
		return
	}
	x.unsupported(st, "call of "+name+" without a contract", pos)
}

// writtenParams tells which slice parameters of a function without a contract have
// elements that its body writes. Parameters that are themselves assigned are left out.
func (x *Exec) writtenParams(fn *types.Func) map[int]bool {
	if m, ok := x.p.writtenPar[fn]; ok {
		return m
	}
	if x.p.writtenPar == nil {
		x.p.writtenPar = map[*types.Func]map[int]bool{}
	}
	m := map[int]bool{}
	x.p.writtenPar[fn] = m
	fd := x.p.funcs[fn]
	if fd == nil || fd.Body == nil {
		return m
	}
	ps := fn.Type().(*types.Signature).Params()
	idx := map[types.Object]int{}
	for i := 0; i < ps.Len(); i++ {
		if _, ok := types.Unalias(ps.At(i).Type()).Underlying().(*types.Slice); ok && !x.assignedIn(fd.Body, ps.At(i)) {
			idx[ps.At(i)] = i
		}
	}
	mark := func(e ast.Expr, elem bool) {
		for {
			switch y := e.(type) {
			case *ast.ParenExpr:
				e = y.X
				continue
			case *ast.SliceExpr:
				e = y.X
				continue
			case *ast.IndexExpr:
				e, elem = y.X, true
				continue
			case *ast.SelectorExpr:
				e = y.X
				continue
			case *ast.Ident:
				if i, ok := idx[x.p.info.ObjectOf(y)]; ok && elem {
					m[i] = true
				}
			}
			return
		}
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				mark(l, false)
			}
		case *ast.IncDecStmt:
			mark(n.X, false)
		case *ast.CallExpr:
			if tv := x.p.info.Types[n.Fun]; tv.IsBuiltin() {
				if i, ok := ast.Unparen(n.Fun).(*ast.Ident); ok && (i.Name == "copy" || i.Name == "clear") {
					mark(n.Args[0], true)
				}
				return true
			}
			callee := x.staticCallee(n)
			if callee == nil {
				return true
			}
			con := x.spec.Funcs[funcName(callee)]
			cs := callee.Type().(*types.Signature).Params()
			for i, a := range n.Args {
				if i >= cs.Len() {
					break
				}
				w := false
				if con != nil && !con.Inline {
					nm := cs.At(i).Name()
					if i < len(con.Params) {
						nm = con.Params[i]
					}
					for _, c := range con.Mutates {
						w = w || c == nm
					}
				} else {
					w = x.writtenParams(callee)[i]
				}
				if w {
					mark(a, true)
				}
			}
		}
		return true
	})
	return m
}

// lendParams prepares a call, executed in place, of a function that writes elements of
// slice parameters: for the time of the call the parameter owns the array, afterwards
// its value is written back to the caller's variable.
func (x *Exec) lendParams(st *State, fn *types.Func, sig *types.Signature, args []Val, lvs []*LVal, pos token.Pos) func(*State) {
	type loan struct {
		v  *types.Var
		lv *LVal
		p  *Prov
	}
	var loans []loan
	root := func(p *Prov) *Prov {
		for p != nil && p.of != nil {
			p = p.of
		}
		return p
	}
	for i := range args {
		if i >= len(lvs) || lvs[i] == nil {
			continue
		}
		lv := lvs[i]
		args[i].Prov = x.newProv("borrowed", nil)
		if i >= sig.Params().Len() || !x.writtenParams(fn)[i] {
			continue
		}
		base := lv
		for base.kind == "slice" {
			base = base.base
		}
		if base.kind != "var" || x.boxed[base.v] || base.v.Parent() == x.p.pkg.Scope() {
			continue
		}
		own := root(st.vars[base.v].Prov)
		alone := true
		for j := range args {
			if j != i && args[j].Prov != nil && root(args[j].Prov) == own && own != nil {
				alone = false
			}
			if j != i && j < len(lvs) && lvs[j] != nil {
				b := lvs[j]
				for b.kind == "slice" {
					b = b.base
				}
				if b.kind == "var" && b.v == base.v {
					alone = false
				}
			}
		}
		if !alone {
			continue
		}
		x.curPos = pos
		x.canMutate(st, lv)
		p := x.newProv("param", nil)
		args[i].Prov = p
		loans = append(loans, loan{sig.Params().At(i), lv, p})
	}
	return func(c *State) {
		for _, l := range loans {
			if c.dead {
				return
			}
			if consumedProv(c, l.p) {
				x.unsupported(c, "a slice parameter is both written and kept", pos)
				return
			}
			w := c.vars[l.v]
			w.Ty = l.lv.ty
			w.Prov = nil
			if l.lv.kind == "var" {
				w.Prov = c.vars[l.lv.v].Prov
			}
			x.curPos = pos
			x.writeElems(c, l.lv, w)
		}
	}
}

// inline executes the body of a function or closure in place.
func (x *Exec) inline(st *State, fn *types.Func, name string, ft *ast.FuncType, body *ast.BlockStmt, sig *types.Signature, recv *Val, args []Val, pos token.Pos, fv *FuncVal, k func(*State, []Val)) {
	caller := st.frame
	fr := &Frame{fn: fn, name: name, sig: sig, parent: caller, depth: 1}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fv != nil {
		fr.lit = fv.lit
		// loops of a closure keep the numbers of the enclosing function
		if fv.frame != nil {
			fr.chain = fv.frame.chain
		}
		fr.parent = fv.frame
		if fr.parent == nil {
			fr.parent = caller
		}
	} else {
		if caller != nil {
			fr.chain = fmt.Sprintf("%s/%d", caller.chain, pos)
		}
		for f := caller; f != nil; f = f.parent {
			if f.fn == fn && fn != nil {
				x.unsupported(st, "recursive call of "+name+" without a contract", pos)
				return
			}
		}
	}
	if fr.depth > 40 {
		x.unsupported(st, "inlining too deep", pos)
		return
	}
	if recv != nil && sig.Recv() != nil {
		x.bindParam(st, sig.Recv(), *recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		x.bindParam(st, sig.Params().At(i), args[i])
	}
	fr.results = x.resultVars(sig, ft)
	for _, v := range fr.results {
		if v.Name() != "" && v.Name() != "_" {
			x.declVar(st, v, x.zeroVal(v.Type()))
		}
	}
	st.frame = fr
	for _, o := range x.execBlock(st, body.List) {
		if o.st.dead {
			continue
		}
		switch o.k {
		case oReturn:
			o.st.frame = caller
			k(o.st, o.vals)
		case oNormal:
			o.st.frame = caller
			if len(fr.results) == 0 {
				k(o.st, nil)
			} else {
				// a body that ends in panic or an endless loop
				x.unsupported(o.st, "function ends without return", pos)
			}
		default:
			x.unsupported(o.st, "jump out of a function", pos)
		}
	}
}

func (x *Exec) bindParam(st *State, v *types.Var, val Val) {
	val = x.coerce(st, val, v.Type())
	if val.Prov != nil && val.Prov.kind == "named" {
		// the callee's parameter aliases the caller's variable: not writable
		val.Prov = x.newProv("borrowed", nil)
	}
	x.declVar(st, v, val)
}

func (x *Exec) resultVars(sig *types.Signature, ft *ast.FuncType) []*types.Var {
	var out []*types.Var
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i))
	}
	return out
}

// contracts ------------------------------------------------------------------------

func (x *Exec) paramNames(con *Contract, sig *types.Signature) []string {
	var ns []string
	for i := 0; i < sig.Params().Len(); i++ {
		n := sig.Params().At(i).Name()
		if i < len(con.Params) {
			n = con.Params[i]
		}
		ns = append(ns, n)
	}
	return ns
}

func (x *Exec) resultNames(con *Contract, sig *types.Signature) []string {
	var ns []string
	for i := 0; i < sig.Results().Len(); i++ {
		n := sig.Results().At(i).Name()
		if i < len(con.Results) {
			n = con.Results[i]
		}
		if n == "" {
			n = "result"
		}
		ns = append(ns, n)
	}
	return ns
}

// modTargets evaluates a modifies list: heap locations (key, type, ref) and ghosts.
type modLoc struct {
	key   string
	ty    types.Type
	ref   *Term
	ghost string
	cond  *Term // the location is modified only if this holds (nil: always)
}

func (e *Env) modLocs(m *Expr) []modLoc {
	x := e.x
	switch {
	case m.Op == "id":
		if _, ok := x.ghostVars[m.Name]; ok {
			return []modLoc{{ghost: m.Name}}
		}
	case m.Op == "call" && m.Name == "all":
		v := e.eval(m.Args[0])
		t := types.Unalias(v.Ty)
		n, s, ok := isNamedStructPtr(t)
		if !ok {
			die("%s: all() needs a pointer to a struct", m.Pos)
		}
		var out []modLoc
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			out = append(out, modLoc{key: typeName(n) + "." + f.Name(), ty: f.Type(), ref: v.T})
		}
		return out
	case m.Op == "call":
		if gf, ok := x.ghostFields[m.Name]; ok {
			return []modLoc{{key: "$" + m.Name, ty: gf, ref: e.eval(m.Args[0]).T}}
		}
	case m.Op == "field":
		v := e.eval(m.Args[0])
		n, _, ok := isNamedStructPtr(types.Unalias(v.Ty))
		if ok {
			ft, ok := structField(n, m.Name)
			if !ok {
				die("%s: no field %s", m.Pos, m.Name)
			}
			l := modLoc{key: typeName(n) + "." + m.Name, ty: ft, ref: v.T}
			if a := m.Args[0]; a.Op == "call" && a.Name == "as" {
				// a field of the object an interface value may hold
				l.cond = x.typeTest(e.eval(a.Args[1]), v.Ty)
			}
			return []modLoc{l}
		}
	}
	die("%s: bad modifies target", m.Pos)
	return nil
}

func (x *Exec) callContract(st *State, con *Contract, name string, sig *types.Signature, recv *Val, args []Val, lvs []*LVal, pos token.Pos, k func(*State, []Val)) {
	if con.Kind == "func" {
		x.calledContracts[name] = true
	} else {
		x.assumedExterns[name] = true
	}
	names := map[string]Val{}
	pn := x.paramNames(con, sig)
	if recv != nil {
		r := *recv
		if r.LV != nil {
			if len(con.Mod) > 0 {
				x.unsupported(st, "method with a contract on a non-heap object", pos)
				return
			}
			// box a copy
			ref := x.allocRef(st, r.LV.ty)
			x.storeObj(st, ref, r.LV.ty, x.readLV(st, r.LV))
			r = Val{T: ref, Ty: r.Ty}
		}
		if r.T == nil {
			r.T = x.termOf(st, r)
		}
		names["recv"] = r
		if sig.Recv() != nil {
			if _, ok := sig.Recv().Type().(*types.Pointer); ok && con.Kind == "func" {
				// the callee dereferences its receiver
				_ = r
			}
		}
	}
	for i := range args {
		a := args[i]
		if a.T == nil {
			if a.LV != nil {
				x.unsupported(st, "address of a local passed to "+name, pos)
				return
			}
			a.T = x.termOf(st, a)
			args[i] = a
		}
		if st.dead {
			return
		}
		a.Ty = sig.Params().At(i).Type()
		names[pn[i]] = a
	}
	env := &Env{x: x, st: st, old: st.snap(), names: names, oldNm: names}
	fenv := x.specEnv(st, pos, nil)
	for i := range args {
		fenv.names[fmt.Sprintf("$arg%d", i)] = names[pn[i]]
	}
	if x.contract != nil {
		x.ghostSteps(st, fenv, x.contract.Calls[name])
		if sn := shortName(name); sn != name {
			x.ghostSteps(st, fenv, x.contract.Calls[sn])
		}
	}
	if st.dead {
		return
	}
	for _, r := range con.Req {
		if !x.tagOK(r.Tags) {
			continue
		}
		t, ok := x.evalClause(env, r)
		if !ok {
			die("%s: unknown name in %q", r.Pos, r.Src)
		}
		x.check(st, t, "pre", name+": "+r.Src, pos)
	}
	for _, cb := range con.Callback {
		x.callbackCheck(st.clone(), con, cb, name, sig, pn, args, names, pos)
	}
	if con.Kind == "func" && name == x.fname {
		if len(con.Dec) == 0 {
			x.check(st, TFalse, "decreases", "recursive call without measure", pos)
		} else {
			var m1, m0 []*Term
			for _, d := range con.Dec {
				m1 = append(m1, env.eval(d).T)
			}
			e0 := &Env{x: x, st: st, old: x.entry, names: x.entryNames, oldNm: x.entryNames, inOld: true}
			for _, d := range con.Dec {
				m0 = append(m0, e0.eval(d).T)
			}
			x.checkOnly(st, lexLess(m1, m0), "decreases", "recursive call", pos)
		}
	}
	if st.dead {
		return
	}
	old := st.snap()
	// havoc
	var locs []modLoc
	for _, m := range con.Mod {
		for _, l := range env.modLocs(m) {
			if l.ref != nil && l.ref.Op == "ite" {
				if c := st.simp(l.ref.Args[0]); c == TTrue || st.simp(mkNot(l.ref.Args[0])) == TFalse {
					l.ref = l.ref.Args[1]
				} else if c == TFalse || st.simp(mkNot(l.ref.Args[0])) == TTrue {
					l.ref = l.ref.Args[2]
				}
			}
			locs = append(locs, l)
		}
	}
	if con.Alloc {
		a := freshVar("alloc", SInt)
		st.assume(mkLe(st.alloc, a))
		st.alloc = a
		for _, rc := range x.rec {
			rc.alloc = true
		}
	}
	newVal := map[*Term]modLoc{}
	for _, l := range locs {
		if l.ghost != "" {
			nv := x.freshVal(st, l.ghost, x.ghostVars[l.ghost])
			x.setGhost(st, l.ghost, nv.T)
			continue
		}
		if l.cond != nil && (st.simp(l.cond) == TFalse || st.simp(mkNot(l.cond)) == TTrue) {
			continue
		}
		nv := x.freshVal(st, l.key, l.ty)
		x.setHeapIf(st, l.key, l.ty, l.ref, nv.T, l.cond)
		if l.cond == nil {
			newVal[nv.T] = l
		}
	}
	post := map[string]Val{}
	for n, v := range names {
		post[n] = v
	}
	for _, m := range con.Mutates {
		ix := -1
		for i, n := range pn {
			if n == m {
				ix = i
			}
		}
		if ix < 0 {
			die("%s: mutates unknown parameter %s", con.Pos, m)
		}
		nv := x.freshVal(st, m, sig.Params().At(ix).Type())
		st.assume(mkEq(mkLen(nv.T), mkLen(args[ix].T)))
		post[m] = nv
		if ix < len(lvs) && lvs[ix] != nil {
			x.curPos = pos
			w := nv
			if lvs[ix].kind == "var" {
				w.Prov = args[ix].Prov
				if v, ok := st.vars[lvs[ix].v]; ok {
					w.Prov = v.Prov
				}
				w.Ty = lvs[ix].ty
				x.canMutate(st, lvs[ix])
			}
			x.writeElems(st, lvs[ix], w)
		} else {
			x.unsupported(st, "mutated argument is not a location", pos)
			return
		}
	}
	rn := x.resultNames(con, sig)
	var res []Val
	fresh := map[string]bool{}
	for _, f := range con.Fresh {
		fresh[f] = true
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		h := rn[i]
		v := x.freshVal(st, h, rt)
		if fresh[rn[i]] {
			if sortOf(rt) == SInt {
				st.assume(mkOr(mkEq(v.T, TZero), mkLe(old.alloc, v.T)))
			} else {
				v.Prov = x.newProv("fresh", nil)
			}
		}
		res = append(res, v)
		post[rn[i]] = v
	}
	if st.dead {
		return
	}
	penv := &Env{x: x, st: st, old: old, names: post, oldNm: names}
	if con.Pure && len(res) == 1 {
		var ts []*Term
		if recv != nil {
			ts = append(ts, names["recv"].T)
		}
		for i := range args {
			ts = append(ts, args[i].T)
		}
		nm := name
		st.assume(mkEq(res[0].T, mkApp(nm, res[0].T.Sort, ts...)))
	}
	for _, r := range con.Ens {
		if !x.tagOK(r.Tags) {
			continue
		}
		t, ok := x.evalClause(penv, r)
		if !ok {
			die("%s: unknown name in %q", r.Pos, r.Src)
		}
		st.assume(t)
		// a new value the contract spells out is carried on as that text
		if t.Op == "=" {
			for i := 0; i < 2; i++ {
				if l, ok := newVal[t.Args[i]]; ok && !occursIn(t.Args[i], t.Args[1-i]) {
					x.setHeapIf(st, l.key, l.ty, l.ref, t.Args[1-i], nil)
					break
				}
			}
		}
	}
	if x.contract != nil && len(x.contract.AfterC) > 0 && !st.dead {
		fenv := x.specEnv(st, pos, nil)
		for i := range args {
			fenv.names[fmt.Sprintf("$arg%d", i)] = names[pn[i]]
		}
		for i := range res {
			fenv.names[fmt.Sprintf("$res%d", i)] = res[i]
		}
		for n, v := range post {
			if _, ok := fenv.names["$"+n]; !ok {
				fenv.names["$"+n] = v
			}
		}
		x.ghostSteps(st, fenv, x.contract.AfterC[name])
		if sn := shortName(name); sn != name && !st.dead {
			x.ghostSteps(st, fenv, x.contract.AfterC[sn])
		}
	}
	if !st.dead {
		k(st, res)
	}
}

func occursIn(v, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// builtins --------------------------------------------------------------------------

func (x *Exec) evBuiltin(st *State, e *ast.CallExpr, k func(*State, []Val)) {
	var name string
	switch f := ast.Unparen(e.Fun).(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = f.Sel.Name
	}
	one := func(c *State, v Val) { k(c, []Val{v}) }
	switch name {
	case "len":
		x.ev(st, e.Args[0], func(c *State, v Val) {
			if v.LV != nil {
				v = x.readLV(c, v.LV)
			}
			if p, ok := types.Unalias(v.Ty).Underlying().(*types.Pointer); ok {
				v = x.loadObj(c, v.T, p.Elem())
			}
			if v.IsEl {
				one(c, Val{T: mkInt64(int64(len(v.El))), Ty: tInt})
				return
			}
			if v.T.Sort.Kind != KSeq {
				x.unsupported(c, "len of "+v.Ty.String(), e.Pos())
				return
			}
			x.facts(c, v.T, v.Ty)
			one(c, Val{T: mkLen(v.T), Ty: tInt})
		})
	case "cap":
		x.ev(st, e.Args[0], func(c *State, v Val) {
			t := x.freshVal(c, "cap", tInt)
			c.assume(mkLe(mkLen(v.T), t.T))
			one(c, t)
		})
	case "min", "max":
		x.evList(st, e.Args, func(c *State, vs []Val) {
			rt := x.p.info.TypeOf(e)
			r := vs[0].T
			for _, v := range vs[1:] {
				if r.Sort != SInt {
					x.unsupported(c, name+" of non-integers", e.Pos())
					return
				}
				if name == "min" {
					r = mkIte(mkLe(v.T, r), v.T, r)
				} else {
					r = mkIte(mkLe(r, v.T), v.T, r)
				}
			}
			one(c, Val{T: r, Ty: rt})
		})
	case "panic":
		x.evList(st, e.Args, func(c *State, vs []Val) {
			x.check(c, TFalse, "panic", "explicit panic", e.Pos())
			c.dead = true
		})
	case "new":
		t := x.p.info.TypeOf(e.Args[0])
		ref := x.allocRef(st, t)
		x.storeObj(st, ref, t, x.zeroVal(t))
		one(st, Val{T: ref, Ty: types.NewPointer(t)})
	case "make":
		t := x.p.info.TypeOf(e.Args[0])
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Map:
			one(st, x.mapVal(&mapConst{vals: map[int64]*Term{}}, t))
		case *types.Slice:
			x.evList(st, e.Args[1:], func(c *State, vs []Val) {
				n := vs[0].T
				x.check(c, mkLe(TZero, n), "makelen", "make with a negative length", e.Pos())
				if len(vs) > 1 {
					x.check(c, mkLe(n, vs[1].T), "makelen", "make with length above capacity", e.Pos())
				}
				// an allocation that succeeds is bounded by memory
				c.assume(mkLe(n, mkInt(maxLen)))
				if c.dead {
					return
				}
				s := sortOf(t)
				r := mkRep(s, n, zeroTerm(u.Elem()))
				if isInt(n) && n.Int.Sign() == 0 {
					r = mkEmpty(s)
				}
				c.assume(mkEq(mkLen(r), n))
				one(c, Val{T: r, Ty: t, Prov: x.newProv("fresh", nil)})
			})
		default:
			x.unsupported(st, "make", e.Pos())
		}
	case "append":
		x.evAppend(st, e, one)
	case "copy":
		x.lvalOrTemp(st, e.Args[0], func(c *State, lv *LVal) {
			x.ev(c, e.Args[1], func(d *State, src Val) {
				dv := x.readLV(d, lv)
				dt, stt := x.termOf(d, dv), x.termOf(d, src)
				if d.dead {
					return
				}
				ld, ls := mkLen(dt), mkLen(stt)
				c1 := d.simp(mkLe(ls, ld))
				do := func(f *State, n *Term) {
					x.curPos = e.Pos()
					nt := mkCat(x.sub(f, stt, TZero, n), x.sub(f, dt, n, ld))
					x.canMutate(f, lv)
					w := Val{T: nt, Ty: lv.ty, Prov: dv.Prov}
					if lv.kind == "var" {
						if v, ok := f.vars[lv.v]; ok {
							w.Prov = v.Prov
						}
					}
					x.writeLV(f, lv, w)
					one(f, Val{T: n, Ty: tInt})
				}
				x.split(d, c1, func(f *State) { do(f, ls) }, func(f *State) { do(f, ld) })
			})
		})
	default:
		x.unsupported(st, "builtin "+name, e.Pos())
	}
}

func (x *Exec) evAppend(st *State, e *ast.CallExpr, one func(*State, Val)) {
	t := x.p.info.TypeOf(e)
	x.evList(st, e.Args, func(c *State, vs []Val) {
		base := x.coerce(c, vs[0], t)
		et := elemType(t)
		s := sortOf(t)
		bt := x.termOf(c, base)
		if c.dead {
			return
		}
		var el []Val
		elOK := base.IsEl || bt.Op == "app" && strings.HasPrefix(bt.Name, "empty_")
		el = append(el, base.El...)
		r := bt
		if e.Ellipsis.IsValid() {
			w := x.coerce(c, vs[1], t)
			wt := x.termOf(c, w)
			if c.dead {
				return
			}
			if w.IsEl {
				el = append(el, w.El...)
			} else if !(wt.Op == "app" && strings.HasPrefix(wt.Name, "empty_")) {
				elOK = false
			}
			r = mkCat(bt, wt)
		} else {
			for _, a := range vs[1:] {
				v := x.coerce(c, x.stored(c, a), et)
				el = append(el, v)
				r = mkCat(r, mkUnit(s, x.termOf(c, v)))
			}
		}
		if c.dead {
			return
		}
		c.assume(mkLe(mkLen(r), mkInt(maxLen)))
		out := Val{T: r, Ty: t}
		if elOK && types.IsInterface(et) {
			out.El, out.IsEl = el, true
		}
		p := base.Prov
		switch {
		case p == nil:
		case p.kind == "sub":
			root := p
			for root.of != nil {
				root = root.of
			}
			own := root.kind == "fresh" && !c.consumed[root]
			if !own && !x.capLimited(e.Args[0]) && x.dry == 0 {
				x.curPos = e.Pos()
				x.addOblig(c, TFalse, "owner", "append to a part of an array that others can see", e.Pos())
			}
			if own {
				out.Prov = p
			} else {
				out.Prov = x.newProv("fresh", nil)
			}
		case p.kind == "fresh", p.kind == "named":
			out.Prov = p
		default:
			out.Prov = p
		}
		one(c, out)
	})
}

func (x *Exec) capLimited(e ast.Expr) bool {
	s, ok := ast.Unparen(e).(*ast.SliceExpr)
	return ok && s.Slice3
}

// buffers -------------------------------------------------------------------------------

// bufCall models the methods of strings.Builder and bytes.Buffer used for writing.
func (x *Exec) bufCall(st *State, m string, recv Val, args []Val, pos token.Pos, k func(*State, []Val)) {
	var lv *LVal
	if recv.LV != nil {
		lv = recv.LV
	} else {
		x.check(st, mkNe(recv.T, TZero), "nil", "nil buffer", pos)
		lv = &LVal{kind: "deref", ref: recv.T, ty: types.Unalias(recv.Ty).Underlying().(*types.Pointer).Elem()}
	}
	cur := x.readLV(st, lv)
	if st.dead {
		return
	}
	bt := types.Unalias(lv.ty)
	set := func(t *Term) {
		st.assume(mkLe(mkLen(t), mkInt(maxLen)))
		x.writeLV(st, lv, Val{T: t, Ty: bt})
	}
	nilErr := Val{T: TZero, Ty: tErr, NilLit: true}
	switch m {
	case "WriteString", "Write":
		a := x.termOf(st, args[0])
		set(mkCat(cur.T, a))
		k(st, []Val{{T: mkLen(a), Ty: tInt}, nilErr})
	case "WriteByte":
		set(mkCat(cur.T, mkUnit(SBytes, args[0].T)))
		k(st, []Val{nilErr})
	case "WriteRune":
		r := args[0].T
		x.split(st, mkAnd(mkLe(TZero, r), mkLt(r, mkInt64(128))), func(c *State) {
			x.writeLV(c, lv, Val{T: mkCat(cur.T, mkUnit(SBytes, r)), Ty: bt})
			k(c, []Val{{T: TOne, Ty: tInt}, nilErr})
		}, func(c *State) {
			u := mkApp("utf8enc", SBytes, r)
			c.assume(mkLe(TOne, mkLen(u)))
			c.assume(mkLe(mkLen(u), mkInt64(4)))
			x.writeLV(c, lv, Val{T: mkCat(cur.T, u), Ty: bt})
			k(c, []Val{{T: mkLen(u), Ty: tInt}, nilErr})
		})
	case "String":
		k(st, []Val{{T: cur.T, Ty: tString}})
	case "Bytes":
		k(st, []Val{{T: cur.T, Ty: tBytes, Prov: x.newProv("borrowed", nil)}})
	case "Len":
		k(st, []Val{{T: mkLen(cur.T), Ty: tInt}})
	case "Reset":
		set(mkEmpty(SBytes))
		k(st, nil)
	case "Grow":
		x.check(st, mkLe(TZero, args[0].T), "panic", "negative Grow", pos)
		k(st, nil)
	default:
		x.unsupported(st, "buffer method "+m, pos)
	}
}

// formatting -------------------------------------------------------------------------------

// formatCall gives the text of fmt.Sprintf and relatives (nil when unknown)
// and the error wrapped by %w.
func (x *Exec) formatCall(st *State, name string, args []Val) (text, wrapped *Term) {
	f, ok := litOf(args[0].T)
	if name == "errors.New" {
		return args[0].T, nil
	}
	if !ok {
		return nil, nil
	}
	var el []Val
	if args[1].IsEl {
		el = args[1].El
	} else if !(args[1].T != nil && args[1].T.Op == "app" && strings.HasPrefix(args[1].T.Name, "empty_")) {
		return nil, nil
	}
	r := mkEmpty(SBytes)
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = mkCat(r, mkLit(f[i:i+1]))
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil, wrapped
		}
		flags, verb := f[i+1:j], f[j]
		i = j
		if verb == '%' {
			r = mkCat(r, mkLit("%"))
			continue
		}
		if ai >= len(el) {
			r = mkCat(r, mkLit("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := el[ai]
		ai++
		if a.Box != nil {
			a = *a.Box
		}
		r = mkCat(r, x.formatArg(st, flags, verb, a))
		if verb == 'w' {
			wrapped = x.termOf(st, a)
		}
	}
	if ai < len(el) {
		u := mkApp("fmt_extra", SBytes, r)
		x.facts(st, u, tString)
		return u, wrapped
	}
	return r, wrapped
}

func (x *Exec) formatArg(st *State, flags string, verb byte, a Val) *Term {
	if a.LV != nil || a.Fn != nil {
		return x.freshVal(st, "fmtarg", tString).T
	}
	t := x.termOf(st, a)
	if a.Ty == nil {
		a.Ty = tInt
	}
	_, _, isI := intRange(a.Ty)
	hasMethods := false
	if n, ok := types.Unalias(a.Ty).(*types.Named); ok && !types.IsInterface(n) {
		for _, m := range []string{"String", "Error", "Format"} {
			if o, _, _ := types.LookupFieldOrMethod(n, true, x.p.pkg, m); o != nil {
				if _, ok := o.(*types.Func); ok {
					hasMethods = true
				}
			}
		}
	}
	var u *Term
	switch {
	case flags == "" && (verb == 'd' || verb == 'v' && !hasMethods) && isI:
		u = mkApp("itoa", SBytes, t)
	case flags == "" && verb == 'o' && isI:
		u = mkApp("otoa", SBytes, t)
	case flags == "" && (verb == 's' || verb == 'v') && t.Sort == SBytes && !hasMethods:
		return t
	case flags == "" && verb == 'c' && isI && x.asciiTerm(st, t):
		return mkUnit(SBytes, t)
	case flags == "" && (verb == 's' || verb == 'v' || verb == 'w') && types.IsInterface(a.Ty):
		u = mkApp("errText", SBytes, t)
	default:
		key := ""
		for _, c := range []byte(flags + string(verb)) {
			key += fmt.Sprintf("%02x", c)
		}
		u = mkApp("fmt_"+key+"_"+boxName(a.Ty), SBytes, t)
	}
	x.facts(st, u, tString)
	return u
}

func (x *Exec) asciiTerm(st *State, t *Term) bool {
	return st.simp(mkAnd(mkLe(TZero, t), mkLt(t, mkInt64(128)))) == TTrue
}

// errorsAs: an error whose dynamic type is the wanted one is found first; of wrapped
// errors nothing is known.
func (x *Exec) errorsAs(st *State, err, target Val, pos token.Pos, k func(*State, []Val)) {
	if target.Box != nil {
		target = *target.Box
	}
	pt, ok := types.Unalias(target.Ty).Underlying().(*types.Pointer)
	if !ok || types.IsInterface(pt.Elem()) || target.LV == nil && target.T == nil {
		x.unsupported(st, "errors.As with this target", pos)
		return
	}
	t := pt.Elem()
	set := func(c *State, v Val) {
		x.curPos = pos
		if target.LV != nil {
			x.writeLV(c, target.LV, v)
		} else {
			x.storeObj(c, target.T, t, v)
		}
	}
	is := x.dynTest(err, t)
	yes, wrap, no := st.clone(), st.clone(), st
	yes.assume(is)
	if !yes.dead {
		set(yes, x.unbox(yes, err, t))
		k(yes, []Val{{T: TTrue, Ty: types.Typ[types.Bool]}})
	}
	wrap.assume(mkAnd(mkNot(is), mkNe(err.T, TZero)))
	if !wrap.dead {
		set(wrap, x.freshVal(wrap, "found", t))
		k(wrap, []Val{{T: TTrue, Ty: types.Typ[types.Bool]}})
	}
	no.assume(mkNot(is))
	k(no, []Val{{T: TFalse, Ty: types.Typ[types.Bool]}})
}

// sort.Slice ---------------------------------------------------------------------------------

func (x *Exec) sortSlice(st *State, args []Val, e *ast.CallExpr, k func(*State, []Val)) {
	x.lvalOrTemp(st, e.Args[0], func(c *State, lv *LVal) {
		old := x.readLV(c, lv)
		if c.dead || old.T == nil {
			x.unsupported(c, "sort.Slice argument", e.Pos())
			return
		}
		n := mkLen(old.T)
		nv := x.freshVal(c, "sorted", lv.ty)
		nv.Ty = lv.ty
		c.assume(mkEq(mkLen(nv.T), n))
		x.curPos = e.Pos()
		x.canMutate(c, lv)
		if v, ok := c.vars[lv.v]; ok && lv.kind == "var" {
			nv.Prov = v.Prov
		}
		c.assume(mkApp("isPerm", SBool, nv.T, old.T))
		// every element comes from the old sequence and the other way round
		x.bvCtr++
		i := mkBVar(fmt.Sprintf("i?%d", x.bvCtr), SInt)
		pi := mkApp("permTo", SInt, nv.T, i)
		c.assume(mkQuant("forall", []*Term{i}, [][]*Term{{mkAt(nv.T, i)}}, mkImp(mkAnd(mkLe(TZero, i), mkLt(i, n)),
			mkAnd(mkLe(TZero, pi), mkLt(pi, n), mkEq(mkAt(nv.T, i), mkAt(old.T, pi)), mkEq(mkApp("permFrom", SInt, nv.T, pi), i)))))
		x.bvCtr++
		j := mkBVar(fmt.Sprintf("j?%d", x.bvCtr), SInt)
		pj := mkApp("permFrom", SInt, nv.T, j)
		c.assume(mkQuant("forall", []*Term{j}, [][]*Term{{mkAt(old.T, j)}}, mkImp(mkAnd(mkLe(TZero, j), mkLt(j, n)),
			mkAnd(mkLe(TZero, pj), mkLt(pj, n), mkEq(mkAt(old.T, j), mkAt(nv.T, pj)), mkEq(mkApp("permTo", SInt, nv.T, pj), j)))))
		// the order: not less(b, a) for a <= b
		less := args[1]
		if less.Fn == nil || less.Fn.lit == nil {
			x.unsupported(c, "sort.Slice comparison", e.Pos())
			return
		}
		// comparisons run while the elements are in some order
		d := c.clone()
		mid := x.freshVal(d, "sorting", lv.ty)
		mid.Prov = nv.Prov
		d.assume(mkEq(mkLen(mid.T), n))
		d.assume(mkApp("isPerm", SBool, mid.T, old.T))
		pm := mkApp("permTo", SInt, mid.T, i)
		d.assume(mkQuant("forall", []*Term{i}, [][]*Term{{mkAt(mid.T, i)}}, mkImp(mkAnd(mkLe(TZero, i), mkLt(i, n)),
			mkAnd(mkLe(TZero, pm), mkLt(pm, n), mkEq(mkAt(mid.T, i), mkAt(old.T, pm))))))
		x.writeLV(d, lv, mid)
		a := x.freshVal(d, "a", tInt)
		b := x.freshVal(d, "b", tInt)
		d.assume(mkAnd(mkLe(TZero, a.T), mkLt(a.T, n), mkLe(TZero, b.T), mkLt(b.T, n)))
		x.callValue(d, less, []Val{a, b}, nil, e, func(*State, []Val) {})
		x.writeLV(c, lv, nv)
		f := c.clone()
		x.dry++
		a = x.freshVal(f, "a", tInt)
		b = x.freshVal(f, "b", tInt)
		f.assume(mkAnd(mkLe(TZero, a.T), mkLe(a.T, b.T), mkLt(b.T, n)))
		var res *Term
		cnt := 0
		n0 := pcLen(f.pc)
		x.callValue(f, less, []Val{b, a}, nil, e, func(g *State, vs []Val) {
			cnt++
			res = vs[0].T
		})
		x.dry--
		_ = n0
		if cnt == 1 && res != nil {
			x.bvCtr++
			ba := mkBVar(fmt.Sprintf("a?%d", x.bvCtr), SInt)
			bb := mkBVar(fmt.Sprintf("b?%d", x.bvCtr), SInt)
			res = subst(res, map[*Term]*Term{a.T: ba, b.T: bb})
			c.assume(mkQuant("forall", []*Term{ba, bb}, [][]*Term{{mkAt(nv.T, ba), mkAt(nv.T, bb)}},
				mkImp(mkAnd(mkLe(TZero, ba), mkLe(ba, bb), mkLt(bb, n)), mkNot(res))))
		}
		k(c, nil)
	})
}

// function entry and exit -------------------------------------------------------------------

func (x *Exec) verifyFunc(fn *types.Func, con *Contract) {
	fd := x.p.funcs[fn]
	sig := fn.Type().(*types.Signature)
	x.fn, x.fname, x.contract = fn, funcName(fn), con
	canonIte = con.Merge
	defer func() { canonIte = false }()
	x.uses = con.Uses
	x.wraps = con.Wraps
	x.numberLoops(fd.Body, "", 0)
	st := x.p.initState.clone()
	x.alloc0 = mkVar("alloc0", SInt)
	st.assume(mkLe(st.alloc, x.alloc0))
	st.alloc = x.alloc0
	fr := &Frame{fn: fn, name: x.fname, sig: sig, contract: con}
	st.frame = fr
	x.entryNames = map[string]Val{}
	pn := x.paramNames(con, sig)
	mut := map[string]bool{}
	for _, m := range con.Mutates {
		mut[m] = true
	}
	bind := func(v *types.Var, name string) {
		val := x.freshVal(st, name, v.Type())
		if val.T.Sort == SInt {
			refKind[val.T] = 2
		}
		if val.T.Sort.Kind == KSeq {
			if mut[name] {
				if x.mutParams == nil {
					x.mutParams = map[*types.Var]bool{}
				}
				x.mutParams[v] = true
				val.Prov = x.newProv("param", nil)
			} else {
				val.Prov = x.newProv("borrowed", nil)
			}
		}
		x.entryNames[name] = val
		x.declVar(st, v, val)
		x.dynFacts(st, val)
	}
	if sig.Recv() != nil {
		bind(sig.Recv(), "recv")
	}
	for i := 0; i < sig.Params().Len(); i++ {
		bind(sig.Params().At(i), pn[i])
	}
	for i := 0; i < sig.Results().Len(); i++ {
		v := sig.Results().At(i)
		fr.results = append(fr.results, v)
	}
	// the entry heap
	x.entry = st.snap()
	env := &Env{x: x, st: st, old: x.entry, names: x.entryNames, oldNm: x.entryNames}
	for _, r := range con.Req {
		if !x.tagOK(r.Tags) {
			continue
		}
		t, ok := x.evalClause(env, r)
		if !ok {
			die("%s: unknown name in %q", r.Pos, r.Src)
		}
		st.assume(t)
	}
	for _, v := range fr.results {
		if v.Name() != "" && v.Name() != "_" {
			x.declVar(st, v, x.zeroVal(v.Type()))
		}
	}
	x.entry = st.snap()
	env.old = x.entry
	x.reach = append(x.reach, &Oblig{Name: x.fname + "/reach/entry", Kind: "reach", Func: x.fname, PC: st.pc, Goal: TFalse, Expect: "sat", Desc: "the precondition is satisfiable"})
	x.ghostSteps(st, x.specEnv(st, fd.Body.Lbrace+1, nil), con.Entry)
	for _, o := range x.execBlock(st, fd.Body.List) {
		if o.st.dead {
			continue
		}
		switch o.k {
		case oReturn:
			x.exitCheck(o.st, o.vals, sig, con, fd)
		case oNormal:
			if sig.Results().Len() == 0 {
				x.exitCheck(o.st, nil, sig, con, fd)
			} else {
				x.unsupported(o.st, "function ends without return", fd.Pos())
			}
		default:
			x.unsupported(o.st, "jump out of a function", fd.Pos())
		}
	}
}

// dynFacts: a non-nil pointer to a package type has that dynamic type; an
// interface value never holds a package type that lacks its methods.
func (x *Exec) dynFacts(st *State, v Val) {
	if _, _, ok := isNamedStructPtr(types.Unalias(v.Ty)); ok {
		st.assume(mkImp(mkNe(v.T, TZero), mkEq(typeofT(v.T), tagOf(v.Ty))))
		return
	}
	it, ok := types.Unalias(v.Ty).Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return
	}
	sc := x.p.pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) || tn.Type().Underlying() == nil {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(tn.Type()))
		if ms.Len() == 0 {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if !types.Implements(pt, it) {
			st.assume(mkNe(typeofT(v.T), tagOf(pt)))
		}
	}
}

func (x *Exec) exitCheck(st *State, vals []Val, sig *types.Signature, con *Contract, fd *ast.FuncDecl) {
	x.exits++
	x.reach = append(x.reach, &Oblig{Name: x.fname + "/reach/exit", Kind: "reach", Func: x.fname, PC: st.pc, Goal: TFalse, Expect: "sat", Desc: "an exit is reachable"})
	names := map[string]Val{}
	for n, v := range x.entryNames {
		names[n] = v
	}
	pn := x.paramNames(con, sig)
	for i, n := range pn {
		for _, m := range con.Mutates {
			if m == n {
				v := x.readVar(st, sig.Params().At(i))
				names[n] = v
			}
		}
	}
	rn := x.resultNames(con, sig)
	closure := false
	for i, v := range vals {
		if v.LV != nil {
			x.unsupported(st, "address of a local returned", fd.Pos())
			return
		}
		if v.Fn != nil {
			if fc := x.spec.Funcs["functype."+typeName(sig.Results().At(i).Type())]; fc != nil && v.Fn.lit != nil {
				closure = true
			}
		}
		v.T = x.termOf(st, v)
		if st.dead {
			return
		}
		v.Ty = sig.Results().At(i).Type()
		names[rn[i]] = v
	}
	env := &Env{x: x, st: st, old: x.entry, names: names, oldNm: x.entryNames}
	genv := x.specEnv(st, fd.Body.Rbrace, nil)
	for n, v := range names {
		genv.names[n] = v
	}
	x.ghostSteps(st, genv, con.Exit)
	if st.dead {
		return
	}
	for _, r := range con.Ens {
		if !x.tagOK(r.Tags) {
			continue
		}
		t, ok := x.evalClause(env, r)
		if !ok {
			die("%s: unknown name in %q", r.Pos, r.Src)
		}
		if closure {
			st.assume(t) // defines the ghost attributes of the new closure
			continue
		}
		x.checkOnly(st, t, "post", r.Src, fd.Name.Pos())
	}
	for i, v := range vals {
		if v.Fn == nil || v.Fn.lit == nil || !closure {
			continue
		}
		fc := x.spec.Funcs["functype."+typeName(sig.Results().At(i).Type())]
		x.closureCheck(st.clone(), v, names[rn[i]].T, fc, fd)
	}
	for _, f := range con.Fresh {
		for i, n := range rn {
			if n != f || i >= len(vals) {
				continue
			}
			t := names[n].T
			if t.Sort == SInt {
				x.checkOnly(st, mkOr(mkEq(t, TZero), mkLe(x.alloc0, t)), "post", "result "+n+" is new", fd.Name.Pos())
			} else {
				p := vals[i].Prov
				for p != nil && (p.kind == "sub" || p.kind == "named") && p.of != nil {
					p = p.of
				}
				if p == nil || p.kind != "fresh" {
					if e, ok := litOf(t); !(ok && e == "") && x.dry == 0 && x.wantKind("owner") {
						x.addOblig(st, mkEq(mkLen(t), TZero), "owner", "result "+n+" is a new array", fd.Name.Pos())
					}
				}
			}
		}
	}
	x.frameCheck(st, con, fd.Name.Pos())
	if !con.Alloc && st.alloc != x.entry.alloc {
		// objects may be allocated by any function; callers that rely on the
		// allocation counter see only 'allocates'/'fresh' functions
		x.checkOnly(st, mkEq(st.alloc, x.entry.alloc), "frame", "allocates nothing (contract lacks allocates)", fd.Name.Pos())
	}
}

// callbackCheck verifies that a function argument computes what the callee's contract says.
func (x *Exec) callbackCheck(st *State, con *Contract, cb Callback, name string, sig *types.Signature, pn []string, args []Val, names map[string]Val, pos token.Pos) {
	for i := range args {
		if pn[i] != cb.Param {
			continue
		}
		fs, ok := types.Unalias(sig.Params().At(i).Type()).Underlying().(*types.Signature)
		if !ok || args[i].Fn == nil || fs.Results().Len() != 1 || fs.Params().Len() != len(cb.Args) {
			x.unsupported(st, "function argument of "+name, pos)
			return
		}
		post := map[string]Val{}
		for n, v := range names {
			post[n] = v
		}
		var in []Val
		for j, n := range cb.Args {
			v := x.freshVal(st, n, fs.Params().At(j).Type())
			post[n] = v
			in = append(in, v)
		}
		old := st.snap()
		call := &ast.CallExpr{Fun: &ast.Ident{Name: cb.Param, NamePos: pos}, Lparen: pos}
		x.callValue(st, Val{Fn: args[i].Fn, Ty: fs}, in, nil, call, func(c *State, vs []Val) {
			post["result"] = vs[0]
			env := &Env{x: x, st: c, old: old, names: post, oldNm: names}
			t, ok := x.evalClause(env, cb.C)
			if !ok {
				die("%s: unknown name in %q", cb.C.Pos, cb.C.Src)
			}
			x.check(c, t, "pre", name+": "+cb.C.Src, pos)
		})
	}
}

// closureCheck verifies a returned closure against the contract of its type.
func (x *Exec) closureCheck(st *State, f Val, self *Term, fc *Contract, fd *ast.FuncDecl) {
	sig := types.Unalias(f.Ty).Underlying().(*types.Signature)
	names := map[string]Val{"recv": {T: self, Ty: f.Ty}}
	pn := x.paramNames(fc, sig)
	var args []Val
	for i := 0; i < sig.Params().Len(); i++ {
		v := x.freshVal(st, pn[i], sig.Params().At(i).Type())
		names[pn[i]] = v
		args = append(args, v)
	}
	old := st.snap()
	env := &Env{x: x, st: st, old: old, names: names, oldNm: names}
	for _, r := range fc.Req {
		t, ok := x.evalClause(env, r)
		if !ok {
			die("%s: unknown name in %q", r.Pos, r.Src)
		}
		st.assume(t)
	}
	old = st.snap()
	call := &ast.CallExpr{Fun: &ast.Ident{Name: "closure", NamePos: fd.Pos()}, Lparen: fd.Pos()}
	x.callValue(st, Val{Fn: f.Fn, Ty: f.Ty}, args, nil, call, func(c *State, vs []Val) {
		post := map[string]Val{}
		for n, v := range names {
			post[n] = v
		}
		rn := x.resultNames(fc, sig)
		for i, v := range vs {
			v.T = x.termOf(c, v)
			post[rn[i]] = v
		}
		penv := &Env{x: x, st: c, old: old, names: post, oldNm: names}
		for _, r := range fc.Ens {
			t, ok := x.evalClause(penv, r)
			if !ok {
				die("%s: unknown name in %q", r.Pos, r.Src)
			}
			x.checkOnly(c, t, "post", "closure: "+r.Src, fd.Name.Pos())
		}
		x.frameAgainst(c, old, env, fc.Mod, fd.Name.Pos(), "closure ")
	})
}

func (x *Exec) frameCheck(st *State, con *Contract, pos token.Pos) {
	env := &Env{x: x, st: st, old: x.entry, names: x.entryNames, oldNm: x.entryNames, inOld: true}
	x.frameAgainst(st, x.entry, env, con.Mod, pos, "")
}

// frameAgainst: every heap location written since old is new or listed.
func (x *Exec) frameAgainst(st *State, old *Snap, env *Env, mod []*Expr, pos token.Pos, what string) {
	if x.dry > 0 || !x.wantKind("frame") {
		return
	}
	env.inOld = true
	env.old = old
	allowed := map[string][]*Term{}
	gOK := map[string]bool{}
	for _, m := range mod {
		for _, l := range env.modLocs(m) {
			if l.ghost != "" {
				gOK[l.ghost] = true
				continue
			}
			allowed[l.key] = append(allowed[l.key], l.ref)
		}
	}
	for _, key := range sortedKeys(st.heap) {
		cur := st.heap[key]
		base := old.heap[key]
		if base == nil {
			base = x.initArr(key, heapType[key])
		}
		if cur == base {
			continue
		}
		refs := map[*Term]bool{}
		var order []*Term
		var walkArr func(a *Term)
		bad := false
		seen := map[*Term]bool{}
		walkArr = func(a *Term) {
			if a == base || seen[a] {
				return
			}
			seen[a] = true
			switch {
			case a.Op == "app" && a.Name == "store":
				if !refs[a.Args[1]] {
					refs[a.Args[1]] = true
					order = append(order, a.Args[1])
				}
				walkArr(a.Args[0])
			case a.Op == "ite":
				walkArr(a.Args[1])
				walkArr(a.Args[2])
			default:
				bad = true
			}
		}
		walkArr(cur)
		if bad {
			x.addOblig(st, mkEq(cur, base), "frame", what+key+" unchanged", pos)
			continue
		}
		for _, r := range order {
			if x.newRef[r] {
				if st.simp(mkLe(old.alloc, r)) == TTrue || refKind[r] == 3 && old.alloc == x.alloc0 {
					continue
				}
			}
			ors := []*Term{mkLe(old.alloc, r)}
			hit := false
			for _, a := range allowed[key] {
				if a == r {
					hit = true
				}
				ors = append(ors, mkEq(r, a))
			}
			if hit {
				continue
			}
			// or written back unchanged
			ors = append(ors, mkEq(mkSelect(cur, r), mkSelect(base, r)))
			x.checkOnly(st, mkOr(ors...), "frame", what+"writes only what it may modify: "+key, pos)
		}
	}
	for _, g := range sortedKeys(st.ghost) {
		o := old.ghost[g]
		if o == nil {
			o = mkVar("G."+g, sortOf(x.ghostVars[g]))
		}
		if st.ghost[g] != o && !gOK[g] {
			x.checkOnly(st, mkEq(st.ghost[g], o), "frame", what+"ghost "+g+" unchanged", pos)
		}
	}
}

// package initialisation -----------------------------------------------------------------------

func (p *Prog) runInit() {
	x := newExec(p, "")
	x.inits = true
	x.fname = "init"
	x.dry = 1
	st := &State{vars: map[*types.Var]Val{}, heap: map[string]*Term{}, ghost: map[string]*Term{}, known: map[*Term]bool{}, consts: map[*Term]*Term{}, consumed: map[*Prov]bool{}}
	st.alloc = mkVar("allocI", SInt)
	st.assume(mkLt(TZero, st.alloc))
	st.frame = &Frame{name: "init"}
	// error variables of other packages: distinct, not nil, not of a package type
	seen := map[*types.Var]bool{}
	var errs []*types.Var
	for _, o := range p.info.Uses {
		if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Pkg() != p.pkg && v.Parent() == v.Pkg().Scope() && types.Identical(v.Type(), tErr) && !seen[v] {
			seen[v] = true
			errs = append(errs, v)
		}
	}
	sort.Slice(errs, func(i, j int) bool { return errs[i].Pkg().Name()+errs[i].Name() < errs[j].Pkg().Name()+errs[j].Name() })
	for i, v := range errs {
		t := x.globalVal(v).T
		st.assume(mkLt(TZero, t))
		st.assume(mkLt(t, st.alloc))
		for _, n := range p.pkg.Scope().Names() {
			if tn, ok := p.pkg.Scope().Lookup(n).(*types.TypeName); ok && !types.IsInterface(tn.Type()) {
				if pt := types.NewPointer(tn.Type()); types.Implements(pt, tErr.Underlying().(*types.Interface)) {
					st.assume(mkNe(typeofT(t), tagOf(pt)))
				}
			}
		}
		for _, w := range errs[:i] {
			st.assume(mkNe(t, x.globalVal(w).T))
		}
	}
	for _, in := range p.info.InitOrder {
		if len(in.Lhs) != 1 {
			continue
		}
		v := in.Lhs[0]
		if v.Name() == "_" {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(fatal); ok {
						st.dead = false
						return
					}
					panic(r)
				}
			}()
			c := st
			x.ev(c, in.Rhs, func(d *State, w Val) {
				p.globals[v] = x.coerce(d, w, v.Type())
				st = d
			})
		}()
		st.dead = false
	}
	for _, f := range p.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if v, ok := p.info.Defs[n].(*types.Var); ok {
							if _, done := p.globals[v]; !done && len(s.(*ast.ValueSpec).Values) == 0 {
								func() {
									defer func() {
										if r := recover(); r != nil {
											if _, ok := r.(fatal); !ok {
												panic(r)
											}
										}
									}()
									p.globals[v] = x.zeroVal(v.Type())
								}()
							}
						}
					}
				}
			}
		}
	}
	for _, f := range p.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" || fd.Body == nil {
				continue
			}
			out := x.execBlock(st, fd.Body.List)
			if len(out) != 1 {
				die("init function not executable")
			}
			st = out[0].st
			if st.dead {
				die("init function not executable")
			}
		}
	}
	st.frame = nil
	st.vars = map[*types.Var]Val{}
	for v, g := range p.globals {
		// the value may be shared: never writable
		g.Prov = nil
		if g.T != nil && g.T.Sort.Kind == KSeq {
			g.Prov = x.newProv("borrowed", nil)
		}
		p.globals[v] = g
	}
	p.initState = st
}

// shortName drops the receiver or package of a callee's name
func shortName(name string) string {
	return name[strings.LastIndexByte(name, '.')+1:]
}
