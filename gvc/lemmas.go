package main

// Lemmas: each is proved once, from its own proof steps and earlier lemmas.

import (
	"go/token"
	"strings"
)

// lemmaRefs are the lemmas a contract refers to.
func (x *Exec) lemmaRefs(c *Contract) []string {
	var out []string
	add := func(n string) {
		if x.spec.Lemmas[n] != nil {
			out = append(out, n)
		}
	}
	gs := func(l []Ghost) {
		for _, g := range l {
			if g.Kind == "use" {
				add(g.E.Name)
			}
		}
	}
	gs(c.Entry)
	gs(c.Exit)
	for _, l := range c.Calls {
		gs(l)
	}
	for _, l := range c.AfterC {
		gs(l)
	}
	for _, l := range c.Loops {
		gs(l.Body)
		gs(l.End)
		gs(l.Pre)
		gs(l.Post)
	}
	for _, u := range c.Uses {
		if strings.HasPrefix(u, "group:") {
			for _, m := range x.spec.Groups[u[6:]] {
				add(m)
			}
			continue
		}
		add(u)
	}
	for _, p := range c.Proof {
		kw, rest, _ := strings.Cut(p, " ")
		if kw == "use" {
			n, _, _ := strings.Cut(strings.TrimSpace(rest), "(")
			add(strings.TrimSpace(n))
		}
		if i := strings.Index(p, "use "); kw == "if" && i > 0 {
			n, _, _ := strings.Cut(strings.TrimSpace(p[i+4:]), "(")
			add(strings.TrimSpace(n))
		}
	}
	return out
}

// verifyLemma generates the obligations of one lemma.
func (x *Exec) verifyLemma(l *Contract) {
	x.fname = "lemma " + l.Name
	x.contract = l
	x.uses = l.Uses
	rank := map[string]int{}
	for i, n := range x.spec.LemmaOrder {
		rank[n] = i
	}
	for _, n := range x.lemmaRefs(l) {
		if rank[n] > rank[l.Name] {
			die("%s: lemma %s refers to the later lemma %s", l.Pos, l.Name, n)
		}
	}
	for _, u := range x.lemmaUses(l) {
		if u == l.Name {
			die("%s: lemma %s uses itself as an axiom", l.Pos, l.Name)
		}
	}
	st := x.p.initState.clone()
	x.alloc0 = mkVar("alloc0", SInt)
	st.assume(mkLe(st.alloc, x.alloc0))
	st.alloc = x.alloc0
	env := &Env{x: x, st: st, names: map[string]Val{}}
	for i, n := range l.Params {
		t := x.p.resolveType(l.PTypes[i])
		v := x.freshVal(st, n, t)
		env.names[n] = v
	}
	for _, r := range l.Req {
		st.assume(env.Bool(r.E))
	}
	x.reach = append(x.reach, &Oblig{Name: x.fname + "/reach/entry", Kind: "reach", Func: x.fname, PC: st.pc, Goal: TFalse, Expect: "sat", Desc: "the premises are satisfiable"})
	var m0 []*Term
	for _, d := range l.Dec {
		m0 = append(m0, env.eval(d).T)
	}
	x.lemmaSteps(st, env, l, m0, 0)
}

func (x *Exec) lemmaUses(l *Contract) []string {
	var out []string
	for _, u := range l.Uses {
		if strings.HasPrefix(u, "group:") {
			out = append(out, x.spec.Groups[u[6:]]...)
		} else {
			out = append(out, u)
		}
	}
	return out
}

func (x *Exec) lemmaSteps(st *State, env *Env, l *Contract, m0 []*Term, i int) {
	if st.dead {
		return
	}
	env = &Env{x: x, st: st, names: env.names}
	if i == len(l.Proof) {
		for _, r := range l.Ens {
			x.checkOnly(st, env.Bool(r.E), "lemma", r.Src, token.NoPos)
		}
		return
	}
	kw, rest, _ := strings.Cut(l.Proof[i], " ")
	rest = strings.TrimSpace(rest)
	switch kw {
	case "assert":
		x.check(st, env.Bool(parseExpr(rest, l.Pos)), "lemma", rest, token.NoPos)
	case "let":
		n, e, _ := strings.Cut(rest, " = ")
		env = env.with(strings.TrimSpace(n), env.eval(parseExpr(e, l.Pos)))
	case "case":
		c := env.Bool(parseExpr(rest, l.Pos))
		o := st.clone()
		st.assume(c)
		o.assume(mkNot(c))
		x.lemmaSteps(st, env, l, m0, i+1)
		x.lemmaSteps(o, env, l, m0, i+1)
		return
	case "use":
		e := parseExpr(rest, l.Pos)
		t, ok := x.lemmaInst(env, e)
		if !ok {
			die("%s: unknown name in %q", l.Pos, rest)
		}
		if e.Name == l.Name {
			if len(m0) == 0 {
				die("%s: inductive use without decreases", l.Pos)
			}
			c := &Env{x: x, st: st, names: map[string]Val{}}
			for j, p := range l.Params {
				v := env.eval(e.Args[j])
				v.Ty = x.p.resolveType(l.PTypes[j])
				if v.NilLit {
					v.T = zeroTerm(v.Ty)
				}
				c.names[p] = v
			}
			var m1 []*Term
			for _, d := range l.Dec {
				m1 = append(m1, c.eval(d).T)
			}
			// only instances with a smaller measure may be used
			t = mkImp(lexLess(m1, m0), t)
		}
		st.assume(t)
	default:
		die("%s: unknown proof step %q", l.Pos, kw)
	}
	x.lemmaSteps(st, env, l, m0, i+1)
}
