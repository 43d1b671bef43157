package main

// Terms: hash-consed, simplified on construction.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type SortKind int

const (
	KInt SortKind = iota
	KBool
	KSeq
	KArr
	KData
)

type Sort struct {
	Name   string
	Kind   SortKind
	Elem   *Sort // Seq, Arr
	Fields []SField
}

type SField struct {
	Name string
	Sort *Sort
}

var (
	SInt  = &Sort{Name: "Int", Kind: KInt}
	SBool = &Sort{Name: "Bool", Kind: KBool}
	// Bytes is the sort of string and []byte values (elements in 0..255).
	SBytes = &Sort{Name: "Bytes", Kind: KSeq, Elem: SInt}
)

var sortMu sync.Mutex
var seqSorts = map[*Sort]*Sort{}
var arrSorts = map[*Sort]*Sort{}
var dataSorts = map[string]*Sort{}
var allSeqSorts = []*Sort{SBytes}
var allDataSorts []*Sort

func seqOf(e *Sort) *Sort {
	if s := seqSorts[e]; s != nil {
		return s
	}
	s := &Sort{Name: "Seq_" + e.Name, Kind: KSeq, Elem: e}
	seqSorts[e] = s
	allSeqSorts = append(allSeqSorts, s)
	return s
}

func arrOf(e *Sort) *Sort {
	if s := arrSorts[e]; s != nil {
		return s
	}
	s := &Sort{Name: "(Array Int " + e.Name + ")", Kind: KArr, Elem: e}
	arrSorts[e] = s
	return s
}

type Term struct {
	Op    string // int true false var app + * - ... forall exists
	Name  string // var / app name
	Args  []*Term
	Sort  *Sort
	Int   *big.Int
	Bound []*Term
	Pats  [][]*Term
	id    int
	hasBV bool // contains a bound variable
	key   string
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termSeq int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(t.Sort.Name)
	if t.Int != nil {
		sb.WriteByte('#')
		sb.WriteString(t.Int.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.Bound {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	for _, p := range t.Pats {
		sb.WriteByte('{')
		for _, a := range p {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	k := sb.String()
	if o := termTab[k]; o != nil {
		return o
	}
	termSeq++
	t.id = termSeq
	t.key = k
	for _, a := range t.Args {
		if a.hasBV {
			t.hasBV = true
		}
	}
	if t.Op == "bvar" {
		t.hasBV = true
	}
	if t.Op == "forall" || t.Op == "exists" {
		// closed iff all bound variables inside are bound here
		fv := map[*Term]bool{}
		freeBV(t.Args[0], fv)
		for _, b := range t.Bound {
			delete(fv, b)
		}
		t.hasBV = len(fv) > 0
	}
	termTab[k] = t
	return t
}

func freeBV(t *Term, out map[*Term]bool) {
	if !t.hasBV {
		return
	}
	if t.Op == "bvar" {
		out[t] = true
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		in := map[*Term]bool{}
		freeBV(t.Args[0], in)
		for _, b := range t.Bound {
			delete(in, b)
		}
		for k := range in {
			out[k] = true
		}
		return
	}
	for _, a := range t.Args {
		freeBV(a, out)
	}
}

var (
	TTrue, TFalse *Term
	TZero, TOne   *Term
)

func init() {
	TTrue = intern(&Term{Op: "true", Sort: SBool})
	TFalse = intern(&Term{Op: "false", Sort: SBool})
	TZero = mkInt64(0)
	TOne = mkInt64(1)
}

func mkInt(n *big.Int) *Term { return intern(&Term{Op: "int", Sort: SInt, Int: new(big.Int).Set(n)}) }
func mkInt64(n int64) *Term  { return mkInt(big.NewInt(n)) }
func mkVar(n string, s *Sort) *Term {
	return intern(&Term{Op: "var", Name: n, Sort: s})
}
func mkBVar(n string, s *Sort) *Term {
	return intern(&Term{Op: "bvar", Name: n, Sort: s})
}

var freshCtr int

func freshVar(hint string, s *Sort) *Term {
	freshCtr++
	hint = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return '_'
	}, hint)
	return mkVar(fmt.Sprintf("%s!%d", hint, freshCtr), s)
}

func mkBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func mkApp(name string, s *Sort, args ...*Term) *Term {
	if t := simpApp(name, s, args); t != nil {
		return t
	}
	return intern(&Term{Op: "app", Name: name, Sort: s, Args: args})
}

func rawApp(name string, s *Sort, args ...*Term) *Term {
	return intern(&Term{Op: "app", Name: name, Sort: s, Args: args})
}

func isInt(t *Term) bool { return t.Op == "int" }

// linear arithmetic -----------------------------------------------------

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func toLin(t *Term, l *lin, k *big.Int) {
	switch t.Op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.Int))
	case "+":
		for _, a := range t.Args {
			toLin(a, l, k)
		}
	case "*":
		if isInt(t.Args[0]) {
			toLin(t.Args[1], l, new(big.Int).Mul(k, t.Args[0].Int))
			return
		}
		fallthrough
	default:
		if o := l.co[t]; o != nil {
			o.Add(o, k)
		} else {
			l.co[t] = new(big.Int).Set(k)
		}
	}
}

func fromLin(l *lin) *Term {
	var ks []*Term
	for t, c := range l.co {
		if c.Sign() != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, t := range ks {
		c := l.co[t]
		if c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, t)
		} else {
			args = append(args, intern(&Term{Op: "*", Sort: SInt, Args: []*Term{mkInt(c), t}}))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, mkInt(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return intern(&Term{Op: "+", Sort: SInt, Args: args})
}

func newLin() *lin { return &lin{c: new(big.Int), co: map[*Term]*big.Int{}} }

var bigOne = big.NewInt(1)

func mkAdd(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		toLin(t, l, bigOne)
	}
	return fromLin(l)
}

func mkSub(a, b *Term) *Term {
	l := newLin()
	toLin(a, l, bigOne)
	toLin(b, l, big.NewInt(-1))
	return fromLin(l)
}

func mkNeg(a *Term) *Term { return mkSub(TZero, a) }

func mkMul(a, b *Term) *Term {
	if isInt(b) {
		a, b = b, a
	}
	if isInt(a) {
		l := newLin()
		toLin(b, l, a.Int)
		return fromLin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "nl*", Sort: SInt, Args: []*Term{a, b}})
}

// Euclidean div/mod with positive constant divisor expected in most uses.
func mkDiv(a, b *Term) *Term {
	if isInt(b) && b.Int.Sign() > 0 {
		if b.Int.Cmp(bigOne) == 0 {
			return a
		}
		if isInt(a) {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.Int, b.Int, m)
			return mkInt(q)
		}
		lo, hi := bounds(a)
		if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(b.Int) < 0 {
			return TZero
		}
		if a.Op == "div" && isInt(a.Args[1]) {
			return mkDiv(a.Args[0], mkInt(new(big.Int).Mul(a.Args[1].Int, b.Int)))
		}
		// split linear terms divisible by b
		l := newLin()
		toLin(a, l, bigOne)
		div, rest := newLin(), newLin()
		any := false
		z := new(big.Int)
		for t, c := range l.co {
			if z.Mod(c, b.Int).Sign() == 0 {
				div.co[t] = new(big.Int).Div(c, b.Int)
				any = true
			} else {
				rest.co[t] = c
			}
		}
		q, m := new(big.Int), new(big.Int)
		q.DivMod(l.c, b.Int, m)
		if q.Sign() != 0 {
			any = true
		}
		div.c, rest.c = q, m
		if any {
			return mkAdd(fromLin(div), mkDiv(fromLin(rest), b))
		}
	}
	return intern(&Term{Op: "div", Sort: SInt, Args: []*Term{a, b}})
}

func mkMod(a, b *Term) *Term {
	if isInt(b) && b.Int.Sign() > 0 {
		if isInt(a) {
			return mkInt(new(big.Int).Mod(a.Int, b.Int))
		}
		lo, hi := bounds(a)
		if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(b.Int) < 0 {
			return a
		}
		l := newLin()
		toLin(a, l, bigOne)
		rest := newLin()
		ch := false
		for t, c := range l.co {
			m := new(big.Int).Mod(c, b.Int)
			// keep small negative coefficients as they are
			if m.Sign() == 0 {
				ch = true
				continue
			}
			rest.co[t] = c
		}
		rest.c = new(big.Int).Mod(l.c, b.Int)
		if rest.c.Cmp(l.c) != 0 {
			ch = true
		}
		if ch {
			return mkMod(fromLin(rest), b)
		}
		if a.Op == "mod" && isInt(a.Args[1]) && new(big.Int).Mod(a.Args[1].Int, b.Int).Sign() == 0 {
			return mkMod(a.Args[0], b)
		}
	}
	return intern(&Term{Op: "mod", Sort: SInt, Args: []*Term{a, b}})
}

// bounds gives constant bounds that hold for every value of t (nil: unknown).
func bounds(t *Term) (lo, hi *big.Int) {
	switch t.Op {
	case "int":
		return t.Int, t.Int
	case "mod":
		if isInt(t.Args[1]) && t.Args[1].Int.Sign() > 0 {
			return new(big.Int), new(big.Int).Sub(t.Args[1].Int, bigOne)
		}
	case "div":
		if isInt(t.Args[1]) && t.Args[1].Int.Sign() > 0 {
			l, h := bounds(t.Args[0])
			if l != nil {
				lo = new(big.Int).Div(l, t.Args[1].Int)
			}
			if h != nil {
				hi = new(big.Int).Div(h, t.Args[1].Int)
			}
			return
		}
	case "app":
		if t.Name == "at_Bytes" {
			return new(big.Int), big.NewInt(255)
		}
		if strings.HasPrefix(t.Name, "len_") {
			return new(big.Int), nil
		}
	case "*":
		l, h := bounds(t.Args[1])
		k := t.Args[0].Int
		if k.Sign() < 0 {
			l, h = h, l
		}
		if l != nil {
			lo = new(big.Int).Mul(k, l)
		}
		if h != nil {
			hi = new(big.Int).Mul(k, h)
		}
		return
	case "+":
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.Args {
			l, h := bounds(a)
			if l == nil {
				lo = nil
			} else if lo != nil {
				lo.Add(lo, l)
			}
			if h == nil {
				hi = nil
			} else if hi != nil {
				hi.Add(hi, h)
			}
		}
		return
	case "ite":
		l1, h1 := bounds(t.Args[1])
		l2, h2 := bounds(t.Args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(lo) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(hi) > 0 {
				hi = h2
			}
		}
		return
	}
	return nil, nil
}

// trailingZeros returns a k such that 2^k divides every value of t.
func trailingZeros(t *Term) uint {
	switch t.Op {
	case "int":
		if t.Int.Sign() == 0 {
			return 1 << 16
		}
		return new(big.Int).Abs(t.Int).TrailingZeroBits()
	case "*":
		return t.Args[0].Int.TrailingZeroBits() + trailingZeros(t.Args[1])
	case "+":
		m := uint(1 << 16)
		for _, a := range t.Args {
			if z := trailingZeros(a); z < m {
				m = z
			}
		}
		return m
	case "ite":
		a, b := trailingZeros(t.Args[1]), trailingZeros(t.Args[2])
		if a < b {
			return a
		}
		return b
	case "mod":
		if isInt(t.Args[1]) {
			a, b := trailingZeros(t.Args[0]), trailingZeros(t.Args[1])
			if a < b {
				return a
			}
			return b
		}
	}
	return 0
}

// booleans ---------------------------------------------------------------

func mkNot(a *Term) *Term {
	switch a.Op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.Args[0]
	case "<=":
		return mkLt(a.Args[1], a.Args[0])
	case "<":
		return mkLe(a.Args[1], a.Args[0])
	}
	return intern(&Term{Op: "not", Sort: SBool, Args: []*Term{a}})
}

func mkAnd(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == TTrue || seen[t] {
			return true
		}
		if t == TFalse || seen[mkNotRaw(t)] {
			return false
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return TFalse
		}
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	return intern(&Term{Op: "and", Sort: SBool, Args: out})
}

func mkNotRaw(t *Term) *Term { return mkNot(t) }

func mkOr(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == TFalse || seen[t] {
			return true
		}
		if t == TTrue || seen[mkNot(t)] {
			return false
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return TTrue
		}
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	return intern(&Term{Op: "or", Sort: SBool, Args: out})
}

func mkImp(a, b *Term) *Term {
	if a == TTrue {
		return b
	}
	if a == TFalse || b == TTrue || a == b {
		return TTrue
	}
	if b == TFalse {
		return mkNot(a)
	}
	return intern(&Term{Op: "=>", Sort: SBool, Args: []*Term{a, b}})
}

func mkIte(c, a, b *Term) *Term {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a == TTrue {
			return mkOr(c, b)
		}
		if b == TFalse {
			return mkAnd(c, a)
		}
		if a == TFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == TTrue {
			return mkOr(mkNot(c), a)
		}
	}
	if canonIte && a.Sort.Kind == KSeq {
		return mkIteSeq(c, a, b)
	}
	return intern(&Term{Op: "ite", Sort: a.Sort, Args: []*Term{c, a, b}})
}

// canonIte makes choices between sequences into decision trees over atoms,
// with what both branches start with in front. It is on while a function
// whose contract says "merge" is executed, so that what the code wrote piece
// by piece meets what its contract says.
var canonIte bool

func mkIteSeq(c, a, b *Term) *Term {
	switch c.Op {
	case "not":
		return mkIte(c.Args[0], b, a)
	case "and":
		r := a
		for i := len(c.Args) - 1; i >= 0; i-- {
			r = mkIte(c.Args[i], r, b)
		}
		return r
	case "or":
		r := b
		for i := len(c.Args) - 1; i >= 0; i-- {
			r = mkIte(c.Args[i], a, r)
		}
		return r
	}
	pa, pb := catParts(a), catParts(b)
	var pre []*Term
	for len(pa) > 0 && len(pb) > 0 {
		if pa[0] == pb[0] {
			pre = append(pre, pa[0])
			pa, pb = pa[1:], pb[1:]
			continue
		}
		la, oka := litOf(pa[0])
		lb, okb := litOf(pb[0])
		n := 0
		if oka && okb {
			for n < len(la) && n < len(lb) && la[n] == lb[n] {
				n++
			}
		}
		if n > 0 {
			pre = append(pre, mkLit(la[:n]))
			pa = append([]*Term{mkLit(la[n:])}, pa[1:]...)
			pb = append([]*Term{mkLit(lb[n:])}, pb[1:]...)
			if n == len(la) {
				pa = pa[1:]
			}
			if n == len(lb) {
				pb = pb[1:]
			}
		}
		break
	}
	if len(pre) == 0 {
		return intern(&Term{Op: "ite", Sort: a.Sort, Args: []*Term{c, a, b}})
	}
	join := func(ts []*Term) *Term {
		r := mkEmpty(a.Sort)
		for i := len(ts) - 1; i >= 0; i-- {
			r = mkCat(ts[i], r)
		}
		return r
	}
	return mkCat(join(pre), mkIte(c, join(pa), join(pb)))
}

// stripEq drops what both sides of an equation between sequences start or end
// with, which decides nothing.
func stripEq(t *Term) *Term {
	if t.Op != "=" || t.Args[0].Sort.Kind != KSeq {
		return t
	}
	a, b := t.Args[0], t.Args[1]
	pa, pb := catParts(a), catParts(b)
	n := len(pa) + len(pb)
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	if n == len(pa)+len(pb) {
		return t
	}
	join := func(ts []*Term) *Term {
		r := mkEmpty(a.Sort)
		for i := len(ts) - 1; i >= 0; i-- {
			r = mkCat(ts[i], r)
		}
		return r
	}
	return mkEq(join(pa), join(pb))
}

func catParts(t *Term) []*Term {
	if t.Op == "app" && strings.HasPrefix(t.Name, "empty_") {
		return nil
	}
	if t.Op == "app" && strings.HasPrefix(t.Name, "cat_") {
		return append(catParts(t.Args[0]), catParts(t.Args[1])...)
	}
	return []*Term{t}
}

func mkLe(a, b *Term) *Term {
	d := mkSub(a, b)
	if isInt(d) {
		return mkBool(d.Int.Sign() <= 0)
	}
	lo, hi := bounds(d)
	if hi != nil && hi.Sign() <= 0 {
		return TTrue
	}
	if lo != nil && lo.Sign() > 0 {
		return TFalse
	}
	return intern(&Term{Op: "<=", Sort: SBool, Args: []*Term{a, b}})
}

func mkLt(a, b *Term) *Term {
	d := mkSub(a, b)
	if isInt(d) {
		return mkBool(d.Int.Sign() < 0)
	}
	lo, hi := bounds(d)
	if hi != nil && hi.Sign() < 0 {
		return TTrue
	}
	if lo != nil && lo.Sign() >= 0 {
		return TFalse
	}
	return intern(&Term{Op: "<", Sort: SBool, Args: []*Term{a, b}})
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("mkEq: sorts differ: %s (%s) vs %s (%s)", a, a.Sort.Name, b, b.Sort.Name))
	}
	if a.Sort == SInt {
		if refsDiffer(a, b) {
			return TFalse
		}
		d := mkSub(a, b)
		if isInt(d) {
			return mkBool(d.Int.Sign() == 0)
		}
		lo, hi := bounds(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return TFalse
		}
	}
	if a.Sort == SBool {
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return mkNot(b)
		}
		if b == TFalse {
			return mkNot(a)
		}
	}
	if la, ok := litOf(a); ok {
		if lb, ok := litOf(b); ok {
			return mkBool(la == lb)
		}
	}
	if a.Sort.Kind == KData && a.Op == "app" && b.Op == "app" && a.Name == b.Name && strings.HasPrefix(a.Name, "mk_") {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, mkEq(a.Args[i], b.Args[i]))
		}
		return mkAnd(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "=", Sort: SBool, Args: []*Term{a, b}})
}

// refKind classifies object references that are known to differ: 1 allocated
// by package initialisation, 2 entry parameters, 3 allocated by the function.
var refKind = map[*Term]int{}

func refsDiffer(a, b *Term) bool {
	ka, kb := refKind[a], refKind[b]
	if ka == 3 && b == TZero || kb == 3 && a == TZero || ka == 1 && b == TZero || kb == 1 && a == TZero {
		return true
	}
	if ka == 0 || kb == 0 || a == b {
		return false
	}
	return ka == 3 || kb == 3 || ka == 1 && kb == 1
}

func mkNe(a, b *Term) *Term { return mkNot(mkEq(a, b)) }

func mkIff(a, b *Term) *Term { return mkEq(a, b) }

func mkQuant(q string, bound []*Term, pats [][]*Term, body *Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	if len(bound) == 0 {
		return body
	}
	return intern(&Term{Op: q, Sort: SBool, Args: []*Term{body}, Bound: bound, Pats: pats})
}

// arrays -----------------------------------------------------------------

func mkSelect(a, i *Term) *Term {
	if a.Op == "ite" {
		return mkIte(a.Args[0], mkSelect(a.Args[1], i), mkSelect(a.Args[2], i))
	}
	for a.Op == "app" && a.Name == "store" {
		e := mkEq(a.Args[1], i)
		if e == TTrue {
			return a.Args[2]
		}
		if e == TFalse {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "ite" {
		return mkSelect(a, i)
	}
	return rawApp("select", a.Sort.Elem, a, i)
}

func mkStore(a, i, v *Term) *Term {
	if v.Sort != a.Sort.Elem {
		panic(fmt.Sprintf("mkStore: %s into %s", v.Sort.Name, a.Sort.Name))
	}
	if a.Op == "app" && a.Name == "store" && a.Args[1] == i {
		return mkStore(a.Args[0], i, v)
	}
	if v.Op == "app" && v.Name == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return rawApp("store", a.Sort, a, i, v)
}

// sequences ----------------------------------------------------------------

func mkLen(s *Term) *Term { return mkApp("len_"+s.Sort.Name, SInt, s) }
func mkAt(s, i *Term) *Term {
	return mkApp("at_"+s.Sort.Name, s.Sort.Elem, s, i)
}
func mkEmpty(s *Sort) *Term         { return mkApp("empty_"+s.Name, s) }
func mkUnit(s *Sort, x *Term) *Term { return mkApp("unit_"+s.Name, s, x) }
func mkCat(a, b *Term) *Term        { return mkApp("cat_"+a.Sort.Name, a.Sort, a, b) }
func mkSubSeq(s, i, j *Term) *Term {
	return mkApp("sub_"+s.Sort.Name, s.Sort, s, i, j)
}
func mkUpd(s, i, v *Term) *Term { return mkApp("upd_"+s.Sort.Name, s.Sort, s, i, v) }
func mkRep(s *Sort, n, v *Term) *Term {
	return mkApp("rep_"+s.Name, s, n, v)
}

var litTab = map[string]*Term{}
var litStr = map[*Term]string{}
var litList []*Term

// mkLit is a literal byte string.
func mkLit(s string) *Term {
	if s == "" {
		return mkEmpty(SBytes)
	}
	if t := litTab[s]; t != nil {
		return t
	}
	t := mkVar(fmt.Sprintf("lit!%d", len(litTab)), SBytes)
	litTab[s] = t
	litStr[t] = s
	litList = append(litList, t)
	return t
}

func litOf(t *Term) (string, bool) {
	if t.Sort != SBytes {
		return "", false
	}
	if t.Op == "app" && t.Name == "empty_Bytes" {
		return "", true
	}
	s, ok := litStr[t]
	return s, ok
}

func simpApp(name string, s *Sort, args []*Term) *Term {
	us := strings.IndexByte(name, '_')
	if us < 0 {
		return nil
	}
	switch name[:us] {
	case "len":
		a := args[0]
		if l, ok := litOf(a); ok {
			return mkInt64(int64(len(l)))
		}
		if a.Op == "app" {
			switch {
			case strings.HasPrefix(a.Name, "cat_"):
				return mkAdd(mkLen(a.Args[0]), mkLen(a.Args[1]))
			case strings.HasPrefix(a.Name, "empty_"):
				return TZero
			case strings.HasPrefix(a.Name, "unit_"):
				return TOne
			case strings.HasPrefix(a.Name, "upd_"):
				return mkLen(a.Args[0])
			case strings.HasPrefix(a.Name, "rep_"):
				n := a.Args[0]
				if n.Op == "int" && n.Int.Sign() >= 0 || n.Op == "app" && strings.HasPrefix(n.Name, "len_") {
					return n
				}
			}
		}
	case "at":
		a, i := args[0], args[1]
		if l, ok := litOf(a); ok && isInt(i) && i.Int.IsInt64() {
			if k := i.Int.Int64(); k >= 0 && k < int64(len(l)) {
				return mkInt64(int64(l[k]))
			}
		}
		if a.Op == "app" {
			switch {
			case strings.HasPrefix(a.Name, "unit_"):
				if i == TZero && a.Sort != SBytes {
					return a.Args[0]
				}
			case strings.HasPrefix(a.Name, "upd_"):
				e := mkEq(a.Args[1], i)
				if e == TFalse {
					return mkAt(a.Args[0], i)
				}
			case strings.HasPrefix(a.Name, "cat_"):
				la := mkLen(a.Args[0])
				c := mkLt(i, la)
				if c == TTrue {
					return mkAt(a.Args[0], i)
				}
				if c == TFalse {
					return mkAt(a.Args[1], mkSub(i, la))
				}
			}
		}
	case "cat":
		a, b := args[0], args[1]
		if a.Op == "app" && strings.HasPrefix(a.Name, "empty_") {
			return b
		}
		if b.Op == "app" && strings.HasPrefix(b.Name, "empty_") {
			return a
		}
		if la, ok := litOf(a); ok {
			if lb, ok := litOf(b); ok {
				return mkLit(la + lb)
			}
			if b.Op == "app" && strings.HasPrefix(b.Name, "cat_") {
				if lb, ok := litOf(b.Args[0]); ok {
					return mkCat(mkLit(la+lb), b.Args[1])
				}
			}
		}
		// right-nested normal form
		if a.Op == "app" && a.Name == name {
			return mkCat(a.Args[0], mkCat(a.Args[1], b))
		}
		// adjacent pieces of one sequence (bounds known syntactically only)
	case "sub":
		a, i, j := args[0], args[1], args[2]
		if i == j {
			// empty for any in-range i; the axiom is stated for in-range only
			return mkEmpty(a.Sort)
		}
		if i == TZero && j == mkLen(a) {
			return a
		}
		if l, ok := litOf(a); ok && isInt(i) && isInt(j) && i.Int.IsInt64() && j.Int.IsInt64() {
			x, y := i.Int.Int64(), j.Int.Int64()
			if 0 <= x && x <= y && y <= int64(len(l)) {
				return mkLit(l[x:y])
			}
		}
	case "get":
		// data selector get_<sort>_<field>
		a := args[0]
		if a.Op == "app" && a.Name == "mk_"+a.Sort.Name {
			for k, f := range a.Sort.Fields {
				if "get_"+a.Sort.Name+"_"+f.Name == name {
					return a.Args[k]
				}
			}
		}
		if a.Op == "ite" {
			return nil
		}
	case "unit":
		if args[0].Op == "int" && s == SBytes && args[0].Int.IsInt64() {
			if k := args[0].Int.Int64(); k >= 0 && k <= 255 {
				return mkLit(string([]byte{byte(k)}))
			}
		}
	}
	return nil
}

func mkData(s *Sort, args ...*Term) *Term { return mkApp("mk_"+s.Name, s, args...) }
func mkGet(s *Sort, f string, t *Term) *Term {
	for _, fl := range s.Fields {
		if fl.Name == f {
			return mkApp("get_"+s.Name+"_"+f, fl.Sort, t)
		}
	}
	panic("no field " + f + " in " + s.Name)
}

// substitution ---------------------------------------------------------------

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			var pats [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				pats = append(pats, q)
			}
			r = rebuild(t, args, pats)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, pats [][]*Term) *Term {
	switch t.Op {
	case "+":
		return mkAdd(args...)
	case "*", "nl*":
		return mkMul(args[0], args[1])
	case "div":
		return mkDiv(args[0], args[1])
	case "mod":
		return mkMod(args[0], args[1])
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImp(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "=":
		return mkEq(args[0], args[1])
	case "<=":
		return mkLe(args[0], args[1])
	case "<":
		return mkLt(args[0], args[1])
	case "forall", "exists":
		return mkQuant(t.Op, t.Bound, pats, args[0])
	case "app":
		switch t.Name {
		case "select":
			return mkSelect(args[0], args[1])
		case "store":
			return mkStore(args[0], args[1], args[2])
		}
		return mkApp(t.Name, t.Sort, args...)
	}
	panic("rebuild " + t.Op)
}

// printing ---------------------------------------------------------------------

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, nil)
	return sb.String()
}

func (t *Term) write(sb *strings.Builder, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.Op {
	case "int":
		if t.Int.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.Int).String() + ")")
		} else {
			sb.WriteString(t.Int.String())
		}
	case "true", "false":
		sb.WriteString(t.Op)
	case "var", "bvar":
		sb.WriteString(smtName(t.Name))
	case "app":
		if len(t.Args) == 0 {
			sb.WriteString(smtName(t.Name))
			return
		}
		sb.WriteByte('(')
		sb.WriteString(smtName(t.Name))
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.write(sb, names)
		}
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, b := range t.Bound {
			sb.WriteString("(" + smtName(b.Name) + " " + b.Sort.Name + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		t.Args[0].write(sb, names)
		for _, p := range t.Pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				x.write(sb, names)
			}
			sb.WriteString(")")
		}
		if len(t.Pats) > 0 {
			sb.WriteByte(')')
		}
		sb.WriteByte(')')
	default:
		op := t.Op
		if op == "nl*" {
			op = "*"
		}
		sb.WriteString("(" + op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.write(sb, names)
		}
		sb.WriteByte(')')
	}
}

func smtName(n string) string {
	for i := 0; i < len(n); i++ {
		c := n[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' {
			continue
		}
		return "|" + n + "|"
	}
	return n
}

// walk visits every subterm once.
func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		walk(a, seen, f)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			walk(x, seen, f)
		}
	}
	f(t)
}
