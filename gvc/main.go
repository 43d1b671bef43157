package main

// gvc: contract-based deductive verification of Go functions.
//
//	gvc check PROP        decide one property (exit 0: every obligation discharged, 1: violation)
//	gvc debug PROP [F..]  verify single functions or lemmas, print what fails
//	gvc list              functions, contracts and properties

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func loadSpecs(dir string) *Specs {
	sp := newSpecs()
	ents, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil || len(ents) == 0 {
		die("no contract files in %s", dir)
	}
	sort.Strings(ents)
	for _, f := range ents {
		sp.loadSpecFile(f)
	}
	sp.resolveImplements()
	return sp
}

type run struct {
	p        *Prog
	prop     string
	obls     []*Oblig
	reach    []*Oblig
	funcs    []funcReport
	externs  map[string]bool
	axioms   map[string]bool
	inlined  map[string]bool
	lemmas   map[string]bool
	trusted  map[string]bool
	x        *Exec
	progress bool
}

type funcReport struct {
	Name  string `json:"name"`
	Kind  string `json:"kind"`
	Obls  int    `json:"obligations"`
	Exits int    `json:"paths"`
}

func newRun(prop string) *run {
	r := &run{prop: prop, externs: map[string]bool{}, axioms: map[string]bool{}, inlined: map[string]bool{}, lemmas: map[string]bool{}, trusted: map[string]bool{}}
	r.p = loadProg(filepath.Join(repoDir, "gitdiff"))
	r.p.spec = loadSpecs(filepath.Join(verifDir, "spec"))
	r.p.runInit()
	return r
}

func (r *run) fail(fn, kind, desc string) {
	r.obls = append(r.obls, &Oblig{Name: fn + "/" + kind + "/" + desc, Kind: "unsupported", Func: fn, Desc: desc})
}

// guarded runs one symbolic execution; anything it cannot handle is a failed obligation.
func (r *run) guarded(x *Exec, name string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case fatal:
				r.fail(name, "unsupported", string(e))
			case fatalPath:
				r.fail(name, "unsupported", string(e))
			case missingName:
				r.fail(name, "unsupported", "the contract names "+string(e)+", which the code does not have")
			default:
				if os.Getenv("GVC_PANIC") != "" {
					panic(e)
				}
				r.fail(name, "unsupported", fmt.Sprint("internal: ", e))
			}
		}
	}()
	f()
}

func (r *run) verifyOne(name string) (calls, lemmas []string) {
	spec := r.p.spec
	con := spec.Funcs[name]
	fn := r.p.byName[name]
	if con == nil || con.Kind != "func" {
		r.fail(name, "missing", "no contract for "+name)
		return
	}
	if fn == nil {
		r.fail(name, "missing", "function "+name+" does not exist in the source")
		return
	}
	if con.Trusted {
		r.trusted[name] = true
		return
	}
	t0 := time.Now()
	x := newExec(r.p, r.prop)
	r.guarded(x, name, func() { x.verifyFunc(fn, con) })
	if x.exits == 0 && len(con.Ens) > 0 && !con.Noret {
		r.fail(name, "vacuous", "no exit of the function is reached")
	}
	r.collect(x, name, "function")
	if r.progress {
		fmt.Printf("  %-40s %5d obligations %4d exits %.1fs\n", name, len(x.obls), x.exits, time.Since(t0).Seconds())
	}
	for c := range x.calledContracts {
		calls = append(calls, c)
	}
	// dynamic calls may reach the package's own implementations
	for _, n := range sortedKeys(spec.Funcs) {
		if c := spec.Funcs[n]; c.Implements != "" && x.assumedExterns[c.Implements] {
			calls = append(calls, n)
		}
	}
	return calls, x.lemmaRefs(con)
}

func (r *run) collect(x *Exec, name, kind string) {
	r.obls = append(r.obls, x.obls...)
	r.reach = append(r.reach, x.reach...)
	r.funcs = append(r.funcs, funcReport{name, kind, len(x.obls), x.exits})
	for k := range x.assumedExterns {
		r.externs[k] = true
	}
	for k := range x.inlined {
		r.inlined[k] = true
	}
}

func (r *run) verifyLemmaNamed(n string) []string {
	l := r.p.spec.Lemmas[n]
	if l == nil {
		r.fail("lemma "+n, "missing", "unknown lemma")
		return nil
	}
	r.lemmas[n] = true
	if l.Trusted {
		r.trusted["lemma "+n] = true
		return nil
	}
	x := newExec(r.p, r.prop)
	r.guarded(x, "lemma "+n, func() { x.verifyLemma(l) })
	r.collect(x, "lemma "+n, "lemma")
	return x.lemmaRefs(l)
}

// generate builds the obligations of everything the property depends on.
func (r *run) generate() {
	ps := r.p.spec.Props[r.prop]
	if ps == nil {
		die("unknown property %s", r.prop)
	}
	done := map[string]bool{}
	ldone := map[string]bool{}
	var lq []string
	q := append([]string{}, ps.Roots...)
	lq = append(lq, ps.Lemmas...)
	for len(q) > 0 || len(lq) > 0 {
		if len(q) > 0 {
			n := q[0]
			q = q[1:]
			if done[n] {
				continue
			}
			done[n] = true
			c, l := r.verifyOne(n)
			sort.Strings(c)
			q = append(q, c...)
			lq = append(lq, l...)
			continue
		}
		n := lq[0]
		lq = lq[1:]
		if ldone[n] {
			continue
		}
		ldone[n] = true
		lq = append(lq, r.verifyLemmaNamed(n)...)
	}
	if x := newExec(r.p, r.prop); x.wantKind("decreases") {
		r.recursionCheck(done)
	}
}

// solve discharges the collected obligations.
func (r *run) solve(budget time.Duration, stop int) {
	r.x = newExec(r.p, r.prop)
	var reach []*Oblig
	by := map[string][]*Oblig{}
	var fns []string
	for _, o := range r.reach {
		if strings.HasSuffix(o.Name, "/entry") {
			reach = append(reach, o)
			continue
		}
		if by[o.Func] == nil {
			fns = append(fns, o.Func)
		}
		by[o.Func] = append(by[o.Func], o)
	}
	for _, f := range fns {
		os := by[f]
		for i := 0; i < len(os); i += 1 + len(os)/4 {
			reach = append(reach, os[i])
		}
	}
	all := append(append([]*Oblig{}, r.obls...), reach...)
	solveAll(r.x, all, budget, 8, stop)
	for a := range r.x.usedAxioms {
		r.axioms[a] = true
	}
	// of the exits of a function at least one must not be refuted
	ok := map[string]bool{}
	for _, o := range reach {
		if strings.HasSuffix(o.Name, "/entry") {
			r.obls = append(r.obls, o)
		} else if o.Status == "proved" {
			if !ok[o.Func] {
				r.obls = append(r.obls, o)
			}
			ok[o.Func] = true
		}
	}
	for _, f := range fns {
		if !ok[f] {
			r.fail(f, "vacuous", "no exit of the function is reachable under its precondition")
			r.obls[len(r.obls)-1].Status = "failed"
		}
	}
}

// recursionCheck: only functions with a contract may be recursive, and only directly.
func (r *run) recursionCheck(verified map[string]bool) {
	g := r.p.callGraph()
	seen := map[string]int{}
	var stack []string
	var visit func(n string)
	visit = func(n string) {
		seen[n] = 1
		stack = append(stack, n)
		for _, m := range g[n] {
			if m == n {
				if c := r.p.spec.Funcs[n]; c == nil || len(c.Dec) == 0 {
					r.fail(n, "decreases", "recursive function without a measure")
				}
				continue
			}
			if seen[m] == 1 {
				r.fail(n, "decreases", "mutual recursion through "+m)
			} else if seen[m] == 0 {
				visit(m)
			}
		}
		stack = stack[:len(stack)-1]
		seen[n] = 2
	}
	for _, n := range sortedKeys(verified) {
		if seen[n] == 0 {
			visit(n)
		}
	}
}

type knownFinding struct{ prop, match, text string }

func loadKnown() []knownFinding {
	data, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(data), "\n") {
		// finding: property=ID obligation="..." text
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		id, rest, _ := strings.Cut(l, " ")
		if !strings.HasPrefix(rest, "obligation=") {
			continue
		}
		q, err := strconv.QuotedPrefix(rest[len("obligation="):])
		if err != nil {
			continue
		}
		m, _ := strconv.Unquote(q)
		out = append(out, knownFinding{id, m, strings.TrimSpace(rest[len("obligation=")+len(q):])})
	}
	return out
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func check(prop string) int {
	t0 := time.Now()
	tier := envOr("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	thorough = tier == "thorough"
	replayDir := filepath.Join(verifDir, "replays")
	os.MkdirAll(replayDir, 0o755)
	replay := filepath.Join(replayDir, prop+".txt")
	os.Remove(replay)
	var r *run
	var ferr string
	func() {
		defer func() {
			if e := recover(); e != nil {
				ferr = fmt.Sprint(e)
			}
		}()
		r = newRun(prop)
		r.generate()
		budget := 420 * time.Second
		if thorough {
			budget = 3000 * time.Second
		}
		stop := 3
		r.solve(budget, stop)
	}()
	if r == nil || ferr != "" {
		if r == nil {
			r = &run{prop: prop, externs: map[string]bool{}, axioms: map[string]bool{}, inlined: map[string]bool{}, lemmas: map[string]bool{}, trusted: map[string]bool{}}
		}
		r.obls = append(r.obls, &Oblig{Name: "load/" + ferr, Kind: "unsupported", Func: "load", Desc: ferr, Status: "failed", Output: ferr})
	}
	var failed []*Oblig
	known := loadKnown()
	printed := map[string]bool{}
	proved := 0
	for _, o := range r.obls {
		if o.Kind == "unsupported" && o.Status == "" {
			o.Status = "failed"
		}
		if o.Status == "proved" {
			proved++
			continue
		}
		kf := false
		for _, k := range known {
			if k.prop == prop && k.match == o.Name {
				kf = true
				if !printed[k.match] {
					printed[k.match] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
			}
		}
		if !kf {
			failed = append(failed, o)
		}
	}
	viol := 0
	line := ""
	witness := ""
	if len(failed) > 0 || thorough {
		witness = searchWitness(prop, seed, tier, replayDir)
	}
	if len(failed) > 0 || witness != "" {
		viol = 1
		writeReplay(replay, prop, failed, witness)
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", prop, replay)
		if witness == "" {
			line += " no-failing-input-found"
		}
	}
	r.evidence(prop, tier, seed, failed, time.Since(t0).Seconds(), viol)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions and lemmas, %.1fs\n", prop, len(r.obls), proved, len(r.funcs), time.Since(t0).Seconds())
	if viol > 0 {
		seen := map[string]bool{}
		for _, o := range failed {
			k := o.Name + o.Pos
			if seen[k] || len(seen) > 12 {
				continue
			}
			seen[k] = true
			if strings.HasPrefix(o.Output, "not decided") {
				continue
			}
			fmt.Printf("failed obligation: %s at %s (%s)\n", o.Name, o.Pos, firstLine(o.Output))
		}
		if witness != "" {
			fmt.Printf("failing input: %s\n", firstLine(witness))
		}
		fmt.Println(line)
		return 1
	}
	return 0
}

var thorough bool

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func writeReplay(path, prop string, failed []*Oblig, witness string) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\n", prop)
	if witness != "" {
		fmt.Fprintf(&sb, "failing input, run against the real code:\n%s\n\nrepeat with: bash /verif/witness/run.sh %s\n\n", witness, prop)
	}
	fmt.Fprintf(&sb, "%d obligations not discharged\n", len(failed))
	n := 0
	skipped := 0
	for _, o := range failed {
		if strings.HasPrefix(o.Output, "not decided") {
			skipped++
			continue
		}
		fmt.Fprintf(&sb, "\nobligation: %s\nat: %s\nkind: %s\nsolver output: %s\n", o.Name, o.Pos, o.Kind, firstLine(o.Output))
		if o.script != "" && n < 3 {
			n++
			p := strings.TrimSuffix(path, ".txt") + fmt.Sprintf("-%d.smt2", n)
			if os.WriteFile(p, []byte(o.script), 0o644) == nil {
				fmt.Fprintf(&sb, "query: %s\n", p)
			}
		}
	}
	if skipped > 0 {
		fmt.Fprintf(&sb, "\n%d further obligations not decided when the search stopped\n", skipped)
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
}

// searchWitness looks for an input on which the real code breaks the property.
// It only runs after an obligation failed (or in the thorough tier) and only
// adds a concrete input to the report.
func searchWitness(prop string, seed int, tier, dir string) string {
	sh := filepath.Join(verifDir, "witness", "run.sh")
	if _, err := os.Stat(sh); err != nil {
		return ""
	}
	out := filepath.Join(dir, prop+"-witness.txt")
	os.Remove(out)
	cmd := exec.Command("timeout", "-k", "5", "200", "bash", sh, prop, out)
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier)
	cmd.Run()
	data, err := os.ReadFile(out)
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(data))
}

func (r *run) evidence(prop, tier string, seed int, failed []*Oblig, wall float64, viol int) {
	total, proved := len(r.obls), 0
	solver := map[string]int{}
	secs := map[string]float64{}
	kinds := map[string]int{}
	for _, o := range r.obls {
		kinds[o.Kind]++
		if o.Status == "proved" {
			proved++
			s := o.Solver
			if o.dup {
				s += " (shared)"
			}
			solver[s]++
		}
		if o.Solver != "" && !o.dup {
			secs[o.Solver] += o.Secs
		}
	}
	for k, v := range secs {
		secs[k] = float64(int(v*100)) / 100
	}
	assume := []string{
		"the meaning gvc gives to Go (symbolic execution in /verif/gvc) and the SMT solvers are trusted",
		"slices and strings are shorter than 2^47 elements; memory does not run out",
		"values reached through interfaces (readers, writers, errors) honour the contracts in /verif/spec; they do not call back into the package or change its objects",
		"no concurrent use of one value",
	}
	var base []string
	base = append(base, "gvc symbolic executor and contract parser (/verif/gvc)", "z3 5.3.2 (z3-new), z3 4.8.12, cvc5 1.1.2", "go/parser and go/types")
	for _, e := range sortedKeys(r.externs) {
		assume = append(assume, "assumed contract: "+e)
	}
	for _, a := range sortedKeys(r.axioms) {
		assume = append(assume, "axiom: "+a)
	}
	for _, a := range sortedKeys(r.trusted) {
		assume = append(assume, "trusted without proof: "+a)
	}
	var fl []string
	for _, o := range failed {
		if len(fl) < 20 {
			fl = append(fl, o.Name+" at "+o.Pos)
		}
	}
	var fr []string
	for _, f := range r.funcs {
		fr = append(fr, fmt.Sprintf("%s: %d obligations, %d exits", f.Name, f.Obls, f.Exits))
	}
	cov := map[string]any{
		"obligations":              total,
		"discharged":               proved,
		"checker_cmd":              "bash /verif/check.sh " + prop,
		"trusted_base":             base,
		"functions_under_contract": fr,
		"functions_inlined":        sortedKeys(r.inlined),
		"discharged_by":            solver,
		"solver_seconds":           secs,
		"obligation_kinds":         kinds,
		"not_discharged":           fl,
		"lemmas":                   sortedKeys(r.lemmas),
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": cov, "assumptions": assume, "wall_s": wall, "violations": viol,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, prop+".json"), append(data, '\n'), 0o644)
}

func debug(prop string, names []string) int {
	t0 := time.Now()
	r := newRun(prop)
	r.progress = true
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	if len(names) == 0 {
		r.generate()
	}
	for _, n := range names {
		if strings.HasPrefix(n, "lemma:") {
			if n == "lemma:all" {
				for _, l := range r.p.spec.LemmaOrder {
					r.verifyLemmaNamed(l)
				}
				continue
			}
			r.verifyLemmaNamed(n[6:])
			continue
		}
		r.verifyOne(n)
	}
	fmt.Printf("%d obligations after %.1fs\n", len(r.obls), time.Since(t0).Seconds())
	r.solve(600*time.Second, 1000)
	bad := 0
	type agg struct {
		n    int
		o    *Oblig
		secs float64
	}
	g := map[string]*agg{}
	slow := []*Oblig{}
	for _, o := range r.obls {
		if o.Kind == "unsupported" && o.Status == "" {
			o.Status = "failed"
		}
		if o.Secs > 3 {
			slow = append(slow, o)
		}
		if o.Status == "proved" {
			continue
		}
		bad++
		k := o.Name + " at " + o.Pos
		if g[k] == nil {
			g[k] = &agg{o: o}
		}
		g[k].n++
	}
	os.MkdirAll("/tmp/gvc", 0o755)
	i := 0
	for _, k := range sortedKeys(g) {
		i++
		fmt.Printf("FAIL[%d] x%d %s: %s\n", i, g[k].n, k, firstLine(g[k].o.Output))
		os.WriteFile(fmt.Sprintf("/tmp/gvc/%d.smt2", i), []byte(g[k].o.script), 0o644)
	}
	if os.Getenv("GVC_SLOW") != "" {
		sort.Slice(slow, func(i, j int) bool { return slow[i].Secs > slow[j].Secs })
		for i, o := range slow {
			if i < 15 {
				os.WriteFile(fmt.Sprintf("/tmp/gvc/slow%d.smt2", i), []byte(o.script), 0o644)
				fmt.Printf("slow %.1fs %s %s %s at %s\n", o.Secs, o.Status, o.Solver, o.Name, o.Pos)
			}
		}
	}
	fmt.Printf("%d of %d not discharged, %.1fs; axioms: %v\n", bad, len(r.obls), time.Since(t0).Seconds(), sortedKeys(r.axioms))
	if bad > 0 {
		return 1
	}
	return 0
}

func main() {
	repoDir = envOr("GVC_REPO", repoDir)
	verifDir = envOr("GVC_VERIF", verifDir)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gvc check|debug|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "debug":
		os.Exit(debug(os.Args[2], os.Args[3:]))
	case "list":
		p := loadProg(filepath.Join(repoDir, "gitdiff"))
		p.spec = loadSpecs(filepath.Join(verifDir, "spec"))
		for _, n := range sortedKeys(p.byName) {
			c := p.spec.Funcs[n]
			s := "inlined"
			if c != nil && !c.Inline {
				s = "contract"
			}
			fmt.Printf("%-50s %s\n", n, s)
		}
	}
}
