package main

// Counters: local 64-bit integers that only ever hold a constant plus a number
// of constant steps. They cannot leave the range of +-2^62 unless a run takes
// more than 2^60 steps, which is excluded as an assumption.

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

var counterBound = new(big.Int).Lsh(bigOne, 62)

func (p *Prog) findCounters() {
	p.counters = map[*types.Var]bool{}
	bad := map[*types.Var]bool{}
	seen := map[*types.Var]bool{}
	small := func(e ast.Expr) bool {
		tv := p.info.Types[e]
		if tv.Value == nil {
			return false
		}
		v := constant.ToInt(tv.Value)
		n, ok := constant.Int64Val(v)
		return ok && n > -(1<<20) && n < 1<<20
	}
	vr := func(e ast.Expr) *types.Var {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			v, _ := p.info.ObjectOf(id).(*types.Var)
			return v
		}
		return nil
	}
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for i, l := range n.Lhs {
					v := vr(l)
					if v == nil {
						continue
					}
					switch n.Tok {
					case token.ASSIGN, token.DEFINE:
						ok := len(n.Rhs) == len(n.Lhs) && small(n.Rhs[i])
						if !ok && len(n.Rhs) == len(n.Lhs) {
							// int64(0) and the like
							if c, is := n.Rhs[i].(*ast.CallExpr); is && len(c.Args) == 1 && p.info.Types[c.Fun].IsType() {
								ok = small(c.Args[0])
							}
						}
						if !ok && len(n.Rhs) == len(n.Lhs) {
							// v = v + 1
							if b, is := n.Rhs[i].(*ast.BinaryExpr); is && (b.Op == token.ADD || b.Op == token.SUB) && vr(b.X) == v && small(b.Y) {
								ok = true
							}
						}
						if ok {
							seen[v] = true
						} else {
							bad[v] = true
						}
					case token.ADD_ASSIGN, token.SUB_ASSIGN:
						if small(n.Rhs[0]) {
							seen[v] = true
						} else {
							bad[v] = true
						}
					default:
						bad[v] = true
					}
				}
			case *ast.IncDecStmt:
				if v := vr(n.X); v != nil {
					seen[v] = true
				}
			case *ast.ValueSpec:
				for i, id := range n.Names {
					v, _ := p.info.Defs[id].(*types.Var)
					if v == nil {
						continue
					}
					if len(n.Values) == 0 || len(n.Values) == len(n.Names) && small(n.Values[i]) {
						seen[v] = true
					} else {
						bad[v] = true
					}
				}
			case *ast.RangeStmt:
				for _, e := range []ast.Expr{n.Key, n.Value} {
					if e != nil {
						if v := vr(e); v != nil {
							bad[v] = true
						}
					}
				}
			case *ast.FuncType:
				for _, fl := range []*ast.FieldList{n.Params} {
					if fl == nil {
						continue
					}
					for _, fd := range fl.List {
						for _, id := range fd.Names {
							if v, _ := p.info.Defs[id].(*types.Var); v != nil {
								bad[v] = true
							}
						}
					}
				}
			}
			return true
		})
	}
	for v := range seen {
		if bad[v] || v.Parent() == p.pkg.Scope() || v.IsField() {
			continue
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Int64) {
			p.counters[v] = true
		}
	}
}
