package main

// Obligations as SMT-LIB scripts, and the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// axioms of one sequence sort -----------------------------------------------------

func seqAxioms(s *Sort, ext bool) string {
	n := s.Name
	e := s.Elem.Name
	r := strings.NewReplacer("$S", n, "$E", e)
	rng := "true"
	if s == SBytes {
		rng = "(and (<= 0 x) (<= x 255))"
	}
	ax := r.Replace(`
(assert (= (len_$S empty_$S) 0))
(assert (forall ((s $S)) (! (and (<= 0 (len_$S s)) (=> (= (len_$S s) 0) (= s empty_$S))) :pattern ((len_$S s)))))
(assert (forall ((x $E)) (! (and (= (len_$S (unit_$S x)) 1) (=> RNG (= (at_$S (unit_$S x) 0) x))) :pattern ((unit_$S x)))))
(assert (forall ((a $S) (b $S)) (! (and (= (len_$S (cat_$S a b)) (+ (len_$S a) (len_$S b))) (=> (= (len_$S b) 0) (= (cat_$S a b) a)) (=> (= (len_$S a) 0) (= (cat_$S a b) b))) :pattern ((cat_$S a b)))))
(assert (forall ((a $S) (b $S) (i Int)) (! (= (at_$S (cat_$S a b) i) (ite (< i (len_$S a)) (at_$S a i) (at_$S b (- i (len_$S a))))) :pattern ((at_$S (cat_$S a b) i)))))
(assert (forall ((a $S) (b $S) (c $S)) (! (= (cat_$S (cat_$S a b) c) (cat_$S a (cat_$S b c))) :pattern ((cat_$S (cat_$S a b) c)))))
(assert (forall ((s $S) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$S s))) (and (= (len_$S (sub_$S s i j)) (- j i)) (=> (= i j) (= (sub_$S s i j) empty_$S)) (=> (and (= i 0) (= j (len_$S s))) (= (sub_$S s i j) s)) (=> (= j (+ i 1)) (= (sub_$S s i j) (unit_$S (at_$S s i)))))) :pattern ((sub_$S s i j)))))
(assert (forall ((s $S) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$S s)) (<= 0 k) (< k (- j i))) (= (at_$S (sub_$S s i j) k) (at_$S s (+ i k)))) :pattern ((at_$S (sub_$S s i j) k)))))
(assert (forall ((s $S) (i Int) (j Int) (k Int) (l Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_$S s)) (<= 0 k) (<= k l) (<= l (- j i))) (= (sub_$S (sub_$S s i j) k l) (sub_$S s (+ i k) (+ i l)))) :pattern ((sub_$S (sub_$S s i j) k l)))))
(assert (forall ((a $S) (b $S) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (+ (len_$S a) (len_$S b)))) (= (sub_$S (cat_$S a b) i j) (ite (<= j (len_$S a)) (sub_$S a i j) (ite (<= (len_$S a) i) (sub_$S b (- i (len_$S a)) (- j (len_$S a))) (cat_$S (sub_$S a i (len_$S a)) (sub_$S b 0 (- j (len_$S a)))))))) :pattern ((sub_$S (cat_$S a b) i j)))))
(assert (forall ((s $S) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j k) (<= k (len_$S s))) (= (cat_$S (sub_$S s i j) (sub_$S s j k)) (sub_$S s i k))) :pattern ((cat_$S (sub_$S s i j) (sub_$S s j k))))))
(assert (forall ((s $S) (i Int) (j Int) (k Int) (r $S)) (! (=> (and (<= 0 i) (<= i j) (<= j k) (<= k (len_$S s))) (= (cat_$S (sub_$S s i j) (cat_$S (sub_$S s j k) r)) (cat_$S (sub_$S s i k) r))) :pattern ((cat_$S (sub_$S s i j) (cat_$S (sub_$S s j k) r))))))
(assert (forall ((s $S) (i Int) (x $E)) (! (= (len_$S (upd_$S s i x)) (len_$S s)) :pattern ((upd_$S s i x)))))
(assert (forall ((s $S) (i Int) (x $E) (k Int)) (! (=> (and (<= 0 i) (< i (len_$S s)) RNG) (= (at_$S (upd_$S s i x) k) (ite (= k i) x (at_$S s k)))) :pattern ((at_$S (upd_$S s i x) k)))))
(assert (forall ((n Int) (x $E)) (! (= (len_$S (rep_$S n x)) (ite (<= 0 n) n 0)) :pattern ((rep_$S n x)))))
(assert (forall ((n Int) (x $E) (i Int)) (! (=> (and (<= 0 i) (< i n) RNG) (= (at_$S (rep_$S n x) i) x)) :pattern ((at_$S (rep_$S n x) i)))))
`)
	ax = strings.ReplaceAll(ax, "RNG", rng)
	if s == SBytes {
		ax += "(assert (forall ((s Bytes) (i Int)) (! (and (<= 0 (at_Bytes s i)) (<= (at_Bytes s i) 255)) :pattern ((at_Bytes s i)))))\n"
	}
	if ext {
		ax += r.Replace(`
(assert (forall ((s $S) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i k) (< k j) (<= j (len_$S s))) (= (at_$S s k) (at_$S (sub_$S s i j) (- k i)))) :pattern ((sub_$S s i j) (at_$S s k)))))
(assert (forall ((a $S) (b $S) (k Int)) (! (=> (and (<= 0 k) (< k (len_$S b))) (= (at_$S b k) (at_$S (cat_$S a b) (+ k (len_$S a))))) :pattern ((cat_$S a b) (at_$S b k)))))
`)
	}
	return ax
}

type Script struct {
	head, body string
}

type scriptOpts struct {
	ext   bool
	slice int // 0: all assumptions, n: assumptions within n symbol hops of the goal
	seed  int
}

// strip moves the quantifiers and premises of a goal into the assumptions.
func strip(goal *Term) (asm []*Term, g *Term) {
	g = goal
	for {
		switch g.Op {
		case "=>":
			asm = append(asm, g.Args[0])
			g = g.Args[1]
			continue
		case "forall":
			m := map[*Term]*Term{}
			for _, b := range g.Bound {
				n := b.Name
				if i := strings.IndexByte(n, '?'); i > 0 {
					n = n[:i]
				}
				m[b] = freshVar("sk_"+n, b.Sort)
			}
			g = subst(g.Args[0], m)
			continue
		case "or":
			// a disjunction with a quantifier or implication inside: keep
		}
		return
	}
}

func symbolsOf(t *Term, out map[string]bool) {
	walk(t, map[*Term]bool{}, func(u *Term) {
		switch u.Op {
		case "var":
			out[u.Name] = true
		}
	})
}

// script prints one obligation; the obligation holds iff it is unsatisfiable.
func (x *Exec) script(pcs []*Term, goal *Term, uses []string, op scriptOpts) string {
	asm, g := strip(goal)
	asserts := append([]*Term{}, pcs...)
	if op.slice > 0 {
		rel := map[string]bool{}
		symbolsOf(g, rel)
		for _, a := range asm {
			symbolsOf(a, rel)
		}
		keep := make([]bool, len(asserts))
		syms := make([]map[string]bool, len(asserts))
		for i, a := range asserts {
			syms[i] = map[string]bool{}
			symbolsOf(a, syms[i])
		}
		for hop := 0; hop < op.slice; hop++ {
			add := map[string]bool{}
			for i := range asserts {
				if keep[i] {
					continue
				}
				hit := false
				for s := range syms[i] {
					if rel[s] {
						hit = true
						break
					}
				}
				if hit || len(syms[i]) == 0 {
					keep[i] = true
					for s := range syms[i] {
						add[s] = true
					}
				}
			}
			for s := range add {
				rel[s] = true
			}
		}
		var out []*Term
		for i, a := range asserts {
			if keep[i] {
				out = append(out, a)
			}
		}
		asserts = out
	}
	asserts = append(asserts, asm...)
	if g != TFalse {
		asserts = append(asserts, mkNot(g))
	}
	return x.print(asserts, uses, op)
}

func (x *Exec) print(asserts []*Term, uses []string, op scriptOpts) string {
	asserts = fixPats(asserts)
	// axioms of recursive predicates, lemmas and trusted axioms pulled in by symbols
	var extra []*Term
	apps := map[string]*Term{}
	lits := map[*Term]bool{}
	seen := map[*Term]bool{}
	vars := map[string]*Term{}
	var eqs []*Term
	sorts := map[*Sort]bool{}
	var addSort func(s *Sort)
	addSort = func(s *Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		if s.Elem != nil {
			addSort(s.Elem)
		}
		for _, f := range s.Fields {
			addSort(f.Sort)
		}
	}
	collect := func(t *Term) {
		walk(t, seen, func(u *Term) {
			addSort(u.Sort)
			for _, b := range u.Bound {
				addSort(b.Sort)
			}
			switch u.Op {
			case "var":
				if _, ok := litStr[u]; ok {
					lits[u] = true
				}
				vars[u.Name] = u
			case "app":
				if apps[u.Name] == nil {
					apps[u.Name] = u
				}
			case "=":
				if u.Args[0].Sort.Kind == KSeq && !u.hasBV {
					eqs = append(eqs, u)
				}
			}
		})
	}
	for _, a := range asserts {
		collect(a)
	}
	done := map[string]bool{}
	for changed := true; changed; {
		changed = false
		add := func(name string, f func() []*Term) {
			if done[name] {
				return
			}
			done[name] = true
			ts := f()
			extra = append(extra, ts...)
			for _, t := range ts {
				collect(t)
			}
			changed = true
		}
		for _, n := range sortedKeys(apps) {
			base := strings.TrimSuffix(n, "$0")
			if p := x.spec.Preds[base]; p != nil && x.isRecPred(base) {
				add("pred "+base, func() []*Term { return x.predAxioms(base) })
			}
		}
		for _, u := range uses {
			u := u
			if l := x.spec.Lemmas[u]; l != nil {
				add("lemma "+u, func() []*Term { return []*Term{x.lemmaAxiom(l)} })
			} else if strings.HasPrefix(u, "reveal:") {
				add(u, func() []*Term { return x.predAxioms(u[7:]) })
			} else if strings.HasPrefix(u, "group:") {
				for _, m := range x.spec.Groups[u[6:]] {
					if l := x.spec.Lemmas[m]; l != nil {
						add("lemma "+m, func() []*Term { return []*Term{x.lemmaAxiom(l)} })
					}
				}
			}
		}
		// trusted axioms whose trigger symbols all occur
		for i := range x.spec.Axioms {
			a := &x.spec.Axioms[i]
			if done["axiom "+a.Name] {
				continue
			}
			ok := true
			for _, s := range x.axiomSyms(a) {
				if apps[s] == nil && apps[s+"$0"] == nil {
					ok = false
				}
			}
			if ok {
				add("axiom "+a.Name, func() []*Term {
					x.usedAxioms[a.Name] = true
					e := &Env{x: x, st: x.emptyState(), names: map[string]Val{}}
					return []*Term{e.Bool(a.E)}
				})
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	if op.seed > 0 {
		fmt.Fprintf(&sb, "(set-option :smt.random_seed %d)\n", op.seed)
	}
	// sorts
	var seqs, datas []*Sort
	seqNeeded := map[*Sort]bool{SBytes: true}
	for s := range sorts {
		switch s.Kind {
		case KSeq:
			seqNeeded[s] = true
		case KData:
			datas = append(datas, s)
		}
	}
	for s := range seqNeeded {
		seqs = append(seqs, s)
	}
	sort.Slice(seqs, func(i, j int) bool { return seqs[i].Name < seqs[j].Name })
	sort.Slice(datas, func(i, j int) bool { return datas[i].Name < datas[j].Name })
	for _, s := range seqs {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s.Name)
	}
	emitted := map[*Sort]bool{}
	var emitData func(s *Sort)
	emitData = func(s *Sort) {
		if emitted[s] || s.Kind != KData {
			return
		}
		emitted[s] = true
		for _, f := range s.Fields {
			emitData(f.Sort)
		}
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((mk_%s", s.Name, s.Name)
		for _, f := range s.Fields {
			fmt.Fprintf(&sb, " (%s %s)", smtName("get_"+s.Name+"_"+f.Name), f.Sort.Name)
		}
		sb.WriteString("))))\n")
	}
	for _, s := range datas {
		emitData(s)
	}
	declared := map[string]bool{"select": true, "store": true}
	for _, s := range datas {
		declared["mk_"+s.Name] = true
		for _, f := range s.Fields {
			declared["get_"+s.Name+"_"+f.Name] = true
		}
	}
	for _, s := range seqs {
		n, e := s.Name, s.Elem.Name
		fmt.Fprintf(&sb, "(declare-fun len_%s (%s) Int)\n(declare-fun at_%s (%s Int) %s)\n(declare-fun empty_%s () %s)\n(declare-fun unit_%s (%s) %s)\n(declare-fun cat_%s (%s %s) %s)\n(declare-fun sub_%s (%s Int Int) %s)\n(declare-fun upd_%s (%s Int %s) %s)\n(declare-fun rep_%s (Int %s) %s)\n(declare-fun diff_%s (%s %s) Int)\n",
			n, n, n, n, e, n, n, n, e, n, n, n, n, n, n, n, n, n, n, e, n, n, e, n, n, n, n)
		for _, f := range []string{"len_", "at_", "empty_", "unit_", "cat_", "sub_", "upd_", "rep_", "diff_"} {
			declared[f+n] = true
		}
	}
	for _, n := range sortedKeys(apps) {
		if declared[n] {
			continue
		}
		a := apps[n]
		fmt.Fprintf(&sb, "(declare-fun %s (", smtName(n))
		for i, arg := range a.Args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(arg.Sort.Name)
		}
		fmt.Fprintf(&sb, ") %s)\n", a.Sort.Name)
	}
	for _, n := range sortedKeys(vars) {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", smtName(n), vars[n].Sort.Name)
	}
	for _, s := range seqs {
		sb.WriteString(seqAxioms(s, op.ext))
	}
	// literals
	var ls []*Term
	for l := range lits {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, l := range ls {
		s := litStr[l]
		fmt.Fprintf(&sb, "(assert (= (len_Bytes %s) %d))\n", smtName(l.Name), len(s))
		for i := 0; i < len(s) && i < 160; i++ {
			fmt.Fprintf(&sb, "(assert (= (at_Bytes %s %d) %d))\n", smtName(l.Name), i, s[i])
		}
		if len(s) == 1 {
			fmt.Fprintf(&sb, "(assert (= (unit_Bytes %d) %s))\n", s[0], smtName(l.Name))
		}
	}
	// package errors
	var globs []string
	for _, n := range sortedKeys(vars) {
		if strings.HasPrefix(n, "glob.") && vars[n].Sort == SInt {
			globs = append(globs, smtName(n))
		}
	}
	if len(globs) > 0 {
		if vars["allocI"] == nil {
			sb.WriteString("(declare-fun allocI () Int)\n")
		}
		for _, g := range globs {
			fmt.Fprintf(&sb, "(assert (and (< 0 %s) (< %s allocI)))\n", g, g)
		}
		if len(globs) > 1 {
			fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(globs, " "))
		}
	}
	// sharing
	names := map[*Term]string{}
	cnt := map[*Term]int{}
	var count func(t *Term)
	visited := map[*Term]bool{}
	var order []*Term
	count = func(t *Term) {
		cnt[t]++
		if visited[t] {
			return
		}
		visited[t] = true
		for _, a := range t.Args {
			count(a)
		}
		for _, p := range t.Pats {
			for _, y := range p {
				count(y)
			}
		}
		order = append(order, t)
	}
	all := append(append([]*Term{}, extra...), asserts...)
	for _, t := range all {
		count(t)
	}
	for _, t := range order {
		if cnt[t] > 1 && len(t.Args) > 0 && !t.hasBV && t.Op != "int" {
			big := t.Op == "ite" || t.Op == "forall" || t.Op == "exists"
			for _, a := range t.Args {
				if len(a.Args) > 0 {
					big = true
				}
			}
			if !big {
				continue
			}
			nm := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s ", nm, t.Sort.Name)
			t.write(&sb, names)
			sb.WriteString(")\n")
			names[t] = nm
		}
	}
	for _, t := range all {
		sb.WriteString("(assert ")
		t.write(&sb, names)
		sb.WriteString(")\n")
	}
	// extensionality instances
	sort.Slice(eqs, func(i, j int) bool { return eqs[i].id < eqs[j].id })
	for _, q := range eqs {
		a, b := q.Args[0], q.Args[1]
		var sa, sbb strings.Builder
		a.write(&sa, names)
		b.write(&sbb, names)
		as, bs := sa.String(), sbb.String()
		n := a.Sort.Name
		lit, isLit := litOf(a)
		other := bs
		if !isLit {
			lit, isLit = litOf(b)
			other = as
		}
		if isLit && len(lit) <= 160 {
			fmt.Fprintf(&sb, "(assert (= (= %s %s) (and (= (len_Bytes %s) %d)", as, bs, other, len(lit))
			for i := 0; i < len(lit); i++ {
				fmt.Fprintf(&sb, " (= (at_Bytes %s %d) %d)", other, i, lit[i])
			}
			sb.WriteString(")))\n")
			continue
		}
		fmt.Fprintf(&sb, "(assert (or (= %s %s) (not (= (len_%s %s) (len_%s %s))) (let ((d (diff_%s %s %s))) (and (<= 0 d) (< d (len_%s %s)) (not (= (at_%s %s d) (at_%s %s d)))))))\n",
			as, bs, n, as, n, bs, n, as, bs, n, as, n, as, n, bs)
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func (x *Exec) emptyState() *State {
	return &State{heap: map[string]*Term{}, ghost: map[string]*Term{}, known: map[*Term]bool{}, consts: map[*Term]*Term{}, alloc: mkVar("alloc0", SInt)}
}

// axiomSyms are the function symbols of the axiom's triggers.
func (x *Exec) axiomSyms(a *Clause) []string {
	if s, ok := x.axSyms[a.Name]; ok {
		return s
	}
	e := &Env{x: x, st: x.emptyState(), names: map[string]Val{}}
	t := e.Bool(a.E)
	var out []string
	seen := map[string]bool{}
	add := func(u *Term) {
		walk(u, map[*Term]bool{}, func(v *Term) {
			if v.Op != "app" || seen[v.Name] {
				return
			}
			for _, p := range []string{"len_", "at_", "sub_", "cat_", "unit_", "empty_", "get_", "mk_", "select", "store"} {
				if strings.HasPrefix(v.Name, p) {
					return
				}
			}
			seen[v.Name] = true
			out = append(out, v.Name)
		})
	}
	if len(t.Pats) > 0 {
		for _, y := range t.Pats[0] {
			add(y)
		}
	} else {
		add(t)
	}
	x.axSyms[a.Name] = out
	return out
}

func (x *Exec) sameSCC(a, b string) bool {
	if a == b {
		return true
	}
	return x.predReach(a, b) && x.predReach(b, a)
}

func (x *Exec) predReach(from, to string) bool {
	seen := map[string]bool{}
	var reach func(m string) bool
	var in func(e *Expr) bool
	in = func(e *Expr) bool {
		if e == nil {
			return false
		}
		if (e.Op == "call" || e.Op == "id") && x.spec.Preds[e.Name] != nil {
			if e.Name == to || reach(e.Name) {
				return true
			}
		}
		for _, a := range e.Args {
			if in(a) {
				return true
			}
		}
		return false
	}
	reach = func(m string) bool {
		if seen[m] {
			return false
		}
		seen[m] = true
		return in(x.spec.Preds[m].Def)
	}
	return reach(from)
}

// predAxioms unfolds a recursive (or revealed opaque) predicate once.
func (x *Exec) predAxioms(n string) []*Term {
	if a, ok := x.predAx[n]; ok {
		return a
	}
	p := x.spec.Preds[n]
	if p == nil {
		die("unknown predicate %s", n)
	}
	e := &Env{x: x, st: x.emptyState(), names: map[string]Val{}, fuel0: map[string]bool{}}
	rec := x.isRecPred(n)
	if rec {
		for m := range x.spec.Preds {
			if x.isRecPred(m) && x.sameSCC(n, m) {
				e.fuel0[m] = true
			}
		}
	}
	var bs []*Term
	for i, pn := range p.Params {
		t := x.p.resolveType(p.PTypes[i])
		x.bvCtr++
		bv := mkBVar(fmt.Sprintf("%s?%d", pn, x.bvCtr), sortOf(t))
		bs = append(bs, bv)
		e.names[pn] = Val{T: bv, Ty: t}
	}
	rt := sortOf(x.p.resolveType(p.RType))
	body := e.eval(p.Def)
	bt := body.T
	if body.NilLit {
		bt = zeroTerm(x.p.resolveType(p.RType))
	}
	app := mkApp(n, rt, bs...)
	var out []*Term
	out = append(out, mkQuant("forall", bs, [][]*Term{{app}}, mkEq(app, bt)))
	if rec {
		app0 := mkApp(n+"$0", rt, bs...)
		out = append(out, mkQuant("forall", bs, [][]*Term{{app}}, mkEq(app, app0)))
	}
	x.predAx[n] = out
	return out
}

func (x *Exec) lemmaAxiom(l *Contract) *Term {
	if t, ok := x.lemAx[l.Name]; ok {
		return t
	}
	e := &Env{x: x, st: x.emptyState(), names: map[string]Val{}}
	var bs []*Term
	for i, pn := range l.Params {
		t := x.p.resolveType(l.PTypes[i])
		x.bvCtr++
		bv := mkBVar(fmt.Sprintf("%s?%d", pn, x.bvCtr), sortOf(t))
		bs = append(bs, bv)
		e.names[pn] = Val{T: bv, Ty: t}
	}
	var req, ens []*Term
	for _, r := range l.Req {
		req = append(req, e.Bool(r.E))
	}
	for _, r := range l.Ens {
		ens = append(ens, e.Bool(r.E))
	}
	var pats [][]*Term
	for _, tr := range l.Trig {
		var ps []*Term
		for _, y := range tr {
			ps = append(ps, e.eval(y).T)
		}
		pats = append(pats, ps)
	}
	if len(pats) == 0 {
		die("%s: lemma %s used as an axiom needs a trigger", l.Pos, l.Name)
	}
	t := mkQuant("forall", bs, pats, mkImp(mkAnd(req...), mkAnd(ens...)))
	x.lemAx[l.Name] = t
	return t
}

// solving --------------------------------------------------------------------------

type attempt struct {
	solver string
	args   []string
	opts   scriptOpts
	secs   int
}

func runSolver(ctx context.Context, bin string, args []string, script string, secs float64) (string, float64) {
	t0 := time.Now()
	c, cancel := context.WithTimeout(ctx, time.Duration((secs+2)*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(c, bin, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	r := strings.TrimSpace(out.String())
	first, _, _ := strings.Cut(r, "\n")
	switch first {
	case "unsat", "sat", "unknown", "timeout":
		r = first
	default:
		if r == "" {
			r = "timeout"
		}
	}
	return r, time.Since(t0).Seconds()
}

func solverCmd(solver string, secs int) (string, []string) {
	switch solver {
	case "z3-new", "z3":
		return solver, []string{"-in", "-smt2", fmt.Sprintf("-T:%d", secs), "memory_max_size=3000"}
	case "cvc5":
		return "cvc5", []string{"--lang=smt2", "--quiet", fmt.Sprintf("--tlimit=%d", secs*1000), "--no-nl-cov", "-"}
	}
	panic(solver)
}

func cvc5Script(s string) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	for _, l := range strings.SplitAfter(s, "\n") {
		if strings.HasPrefix(l, "(set-option") {
			continue
		}
		sb.WriteString(l)
	}
	return sb.String()
}

type job struct {
	o       *Oblig
	scripts []string
	att     []attempt
}

// solveAll discharges the obligations, eight at a time.
func solveAll(x *Exec, obls []*Oblig, budget time.Duration, workers int, stopAfter int) {
	deadline := time.Now().Add(budget)
	type group struct {
		key string
		os  []*Oblig
	}
	// identical obligations are solved once
	uniq := map[string]*Oblig{}
	dup := map[*Oblig]*Oblig{}
	var todo []*Oblig
	for _, o := range obls {
		if o.Trivial {
			o.Status = "proved"
			o.Solver = "syntactic"
			continue
		}
		if o.Kind == "unsupported" {
			o.Status = "failed"
			continue
		}
		key := fmt.Sprintf("%p %d %s", o.PC, o.Goal.id, o.Expect)
		if p := uniq[key]; p != nil {
			dup[o] = p
			continue
		}
		uniq[key] = o
		todo = append(todo, o)
	}
	atts := func(o *Oblig) []attempt {
		if o.Expect == "sat" {
			return []attempt{{"z3-new", nil, scriptOpts{}, 2}}
		}
		return []attempt{
			{"z3-new", nil, scriptOpts{}, 4},
			{"z3-new", nil, scriptOpts{slice: 2}, 4},
			{"z3-new", nil, scriptOpts{ext: true}, 6},
			{"z3", nil, scriptOpts{}, 6},
		}
	}
	late := func(o *Oblig) []attempt {
		t := 20
		if o.Timeout > 0 {
			t = o.Timeout
		}
		return []attempt{
			{"cvc5", nil, scriptOpts{}, t},
			{"z3-new", nil, scriptOpts{seed: 7}, t},
			{"z3", nil, scriptOpts{ext: true, seed: 3}, t},
			{"z3-new", nil, scriptOpts{slice: 2, seed: 5}, t},
			{"z3-new", nil, scriptOpts{ext: true, seed: 11}, t},
		}
	}
	var mu sync.Mutex // scripts are built one at a time
	var failed int64
	sem := make(chan struct{}, workers)
	text := func(o *Oblig, a attempt) string {
		mu.Lock()
		defer mu.Unlock()
		if o.cache == nil {
			o.cache = map[scriptOpts]string{}
		}
		sc, ok := o.cache[a.opts]
		if !ok {
			pcs := []*Term{}
			for p := o.PC; p != nil; p = p.prev {
				pcs = append(pcs, p.t)
			}
			slices.Reverse(pcs)
			sc = x.script(pcs, o.Goal, o.Uses, a.opts)
			o.cache[a.opts] = sc
		}
		if a.solver == "cvc5" {
			return cvc5Script(sc)
		}
		return sc
	}
	try := func(ctx context.Context, o *Oblig, a attempt) (string, float64) {
		s := text(o, a)
		bin, args := solverCmd(a.solver, a.secs)
		sem <- struct{}{}
		defer func() { <-sem }()
		if ctx.Err() != nil {
			return "cancelled", 0
		}
		return runSolver(ctx, bin, args, s, float64(a.secs))
	}
	pool := func(n int, list []*Oblig, f func(o *Oblig)) {
		ch := make(chan *Oblig)
		var wg sync.WaitGroup
		for w := 0; w < n; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for o := range ch {
					func() {
						defer func() {
							if r := recover(); r != nil {
								o.Status = "failed"
								o.Output = fmt.Sprint(r)
							}
						}()
						f(o)
					}()
				}
			}()
		}
		for _, o := range list {
			ch <- o
		}
		close(ch)
		wg.Wait()
	}
	// quick attempts one after the other
	pool(workers, todo, func(o *Oblig) {
		o.Status = "failed"
		for _, a := range atts(o) {
			if time.Now().After(deadline) {
				o.Output = "time budget exhausted"
				break
			}
			r, secs := try(context.Background(), o, a)
			o.Secs += secs
			o.Output = a.solver + ": " + r
			if o.Expect == "sat" {
				o.Status = "proved"
				if r == "unsat" {
					o.Status = "failed"
				}
				o.Solver = a.solver
				break
			}
			if r == "unsat" {
				o.Status = "proved"
				o.Solver = a.solver
				break
			}
		}
		if os.Getenv("GVC_SLOW") != "" {
			o.script = o.cache[scriptOpts{}]
		}
		if o.Status == "proved" {
			o.cache = nil
		}
	})
	// then longer ones side by side
	var left []*Oblig
	for _, o := range todo {
		if o.Status == "failed" && o.Expect != "sat" {
			left = append(left, o)
		}
	}
	pool(2, left, func(o *Oblig) {
		defer func() {
			if o.Status == "failed" {
				atomic.AddInt64(&failed, 1)
				o.script = o.cache[scriptOpts{}]
			}
			o.cache = nil
		}()
		if time.Now().After(deadline) || stopAfter > 0 && atomic.LoadInt64(&failed) >= int64(stopAfter) {
			o.Output = "not decided: stopped after other failures; " + o.Output
			return
		}
		ctx, cancel := context.WithDeadline(context.Background(), deadline)
		defer cancel()
		t0 := time.Now()
		for _, a := range late(o) {
			text(o, a)
		}
		var wg sync.WaitGroup
		for _, a := range late(o) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r, _ := try(ctx, o, a)
				mu.Lock()
				defer mu.Unlock()
				if r == "unsat" && o.Status == "failed" {
					o.Status, o.Solver, o.Output = "proved", a.solver, a.solver+": unsat"
					cancel()
				}
			}()
		}
		wg.Wait()
		o.Secs += time.Since(t0).Seconds()
	})
	for o, p := range dup {
		o.Status, o.Solver, o.Output = p.Status, p.Solver, p.Output
		o.script = p.script
		o.dup = true
	}
}

// fixPats names the ground terms of patterns that solvers do not accept there.
func fixPats(ts []*Term) []*Term {
	memo := map[*Term]*Term{}
	var eqs []*Term
	bad := func(t *Term) bool {
		switch t.Op {
		case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
			return true
		}
		return false
	}
	named := map[*Term]*Term{}
	// pat rewrites a pattern term; ok is false when it cannot be used
	var pat func(t *Term) (*Term, bool)
	pat = func(t *Term) (*Term, bool) {
		if bad(t) {
			if t.hasBV {
				return nil, false
			}
			v := named[t]
			if v == nil {
				v = mkVar(fmt.Sprintf("pat!%d", t.id), t.Sort)
				named[t] = v
				eqs = append(eqs, mkEq(v, t))
			}
			return v, true
		}
		m := map[*Term]*Term{}
		for _, a := range t.Args {
			b, ok := pat(a)
			if !ok {
				return nil, false
			}
			if a != b {
				m[a] = b
			}
		}
		if len(m) == 0 {
			return t, true
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = a
			if b := m[a]; b != nil {
				args[i] = b
			}
		}
		u := *t
		u.Args = args
		return intern(&u), true
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		pats := t.Pats
		if len(t.Pats) > 0 {
			pats = nil
			for _, p := range t.Pats {
				var q []*Term
				ok := true
				for _, y := range p {
					z, k := pat(y)
					ok = ok && k
					if k && z != y {
						ch = true
					}
					q = append(q, z)
				}
				if ok {
					pats = append(pats, q)
				} else {
					ch = true
				}
			}
		}
		r := t
		if ch {
			u := *t
			u.Args, u.Pats = args, pats
			r = intern(&u)
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, 0, len(ts))
	for _, t := range ts {
		out = append(out, rec(t))
	}
	return append(out, eqs...)
}
