package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

const preludeText = `(set-option :produce-models false)
(set-logic ALL)
(declare-sort Str 0)
(declare-datatypes ((Slice 0)) (((mkslice (sarr Int) (soff Int) (slen Int) (scap Int)))))
(declare-datatypes ((Ptr 0)) (((mkptr (pbase Int) (pfld Int)))))
(declare-datatypes ((Iface 0)) (((mkiface (itag Int) (iint Int) (ireal Real) (istr Str)))))
`

type Oblig struct {
	ID     string
	Fn     string
	Kind   string // ensures, invariant, safety, frame, requires, lemma, vacuity
	Desc   string
	Pos    string
	Assume []*Term
	Goal   *Term
	Uses   map[string]bool
	Raw    string // raw script (lemmas)
	// for vacuity obligations: expected NOT unsat
	WantSat bool

	Status string // unsat (discharged), sat, unknown, timeout, error
	By     string
	Ms     int64
	Out    string
	Cand   []*Cand // Houdini candidates this obligation establishes
}

var structDecls = map[string]string{} // sort name -> declare-datatypes text
var structOrder []string
var strLits = map[string]*Term{}
var strLitOrder []string
var ufDecls = map[string]string{}

// ifaceDecls: the predicates "a dynamic type implements this interface"; every
// dynamic type seen gets a fact when the predicate is declared.
var ifaceDecls = map[string]*types.Interface{}

func (o *Oblig) Script(abstractNL bool) string {
	if o.Raw != "" {
		return o.Raw
	}
	roots := append([]*Term{}, o.Assume...)
	goal := Not(o.Goal)
	if o.WantSat {
		goal = tTrue
	}
	roots = append(roots, goal)
	if abstractNL {
		m := map[*Term]*Term{}
		for i := range roots {
			roots[i] = abstractNonlinear(roots[i], m)
		}
	}
	roots = namePatternIfs(roots)
	seen, syms, ops := map[*Term]bool{}, map[*Term]bool{}, map[string]bool{}
	for _, r := range roots {
		symsOf(r, seen, syms, ops)
	}
	var sb strings.Builder
	sb.WriteString(preludeText)
	// struct sorts
	for _, s := range structOrder {
		sb.WriteString(structDecls[s])
		sb.WriteByte('\n')
	}
	d, _ := lib.decls(ops, 1<<30, o.Uses)
	sb.WriteString(d)
	for _, n := range sortedKeys(ufDecls) {
		if ops[n] {
			sb.WriteString(ufDecls[n])
			sb.WriteByte('\n')
			if it := ifaceDecls[n]; it != nil {
				fmt.Fprintf(&sb, "(assert (not (%s 0)))\n", n)
				for _, t := range tagTypes {
					fmt.Fprintf(&sb, "(assert (= (%s %s) %v))\n", n, tagOf(t).String(), types.Implements(t, it))
				}
			}
		}
	}
	if abstractNL {
		sb.WriteString("(declare-fun nlmulR (Real Real) Real)\n(declare-fun nldivR (Real Real) Real)\n(declare-fun nlmulI (Int Int) Int)\n")
	}
	if ops["strlen"] {
		syms[emptyStr] = true
	}
	var sl []*Term
	for s := range syms {
		sl = append(sl, s)
	}
	sort.Slice(sl, func(i, j int) bool { return sl[i].id < sl[j].id })
	var lits []string
	for _, s := range sl {
		if lib.isFun(s.op) != nil {
			continue
		}
		sb.WriteString("(declare-const " + symText(s.op) + " " + s.sort + ")\n")
		if s.sort == "Str" && strings.HasPrefix(s.op, "lit$") {
			lits = append(lits, symText(s.op))
		}
	}
	if len(lits) > 1 {
		sb.WriteString("(assert (distinct " + strings.Join(lits, " ") + "))\n")
	}
	if ops["strlen"] {
		// only the empty text has length zero
		e := symText(emptyStr.op)
		sb.WriteString("(assert (= (strlen " + e + ") 0))\n(assert (forall ((s Str)) (! (=> (= (strlen s) 0) (= s " + e + ")) :pattern ((strlen s)))))\n")
		for _, s := range sl {
			if v, ok := litVals[s]; ok && v != "" {
				fmt.Fprintf(&sb, "(assert (= (strlen %s) %d))\n", symText(s.op), len(v))
			}
		}
	}
	if ops["substr"] && ops["charat"] {
		// a piece of one byte is that byte
		for _, s := range sl {
			if v, ok := litVals[s]; ok && len(v) == 1 {
				fmt.Fprintf(&sb, "(assert (forall ((s Str) (i Int)) (! (= (= (substr s i (+ i 1)) %s) (= (charat s i) %d)) :pattern ((substr s i (+ i 1))) :pattern ((charat s i)))))\n", symText(s.op), v[0])
			}
		}
	}
	outs := printRoots(&sb, roots)
	for _, r := range outs {
		if r != "true" {
			sb.WriteString("(assert " + r + ")\n")
		}
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// namePatternIfs gives a name to every closed if-then-else inside a quantifier
// pattern (solvers reject "if" there); the name is defined by an equation.
func namePatternIfs(roots []*Term) []*Term {
	m := map[*Term]*Term{}
	var defs []*Term
	seen := map[*Term]bool{}
	var inPat func(t *Term)
	inPat = func(t *Term) {
		if t.kind == kApp && t.op == "ite" && !t.hasBV {
			if m[t] == nil {
				s := Sym(fmt.Sprintf("if$%d", t.id), t.sort)
				m[t] = s
				defs = append(defs, Eq(s, t))
			}
			return
		}
		for _, a := range t.args {
			inPat(a)
		}
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				inPat(x)
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	if len(m) == 0 {
		return roots
	}
	memo := map[*Term]*Term{}
	out := make([]*Term, 0, len(roots)+len(defs))
	for _, r := range roots[:len(roots)-1] {
		out = append(out, subst(r, m, memo))
	}
	out = append(out, defs...)
	return append(out, subst(roots[len(roots)-1], m, memo))
}

// relevant returns a copy of the obligation without the quantified assumptions
// that share no defined function with the goal (dropping assumptions is sound).
func (o *Oblig) relevant() *Oblig { return o.selecting(false) }

// focused drops the quantified assumptions that mention a recursive or
// uninterpreted function the goal does not mention.
func (o *Oblig) focused() *Oblig { return o.selecting(true) }

func (o *Oblig) selecting(focus bool) *Oblig {
	libops := func(t *Term) map[string]bool {
		seen, syms, ops := map[*Term]bool{}, map[*Term]bool{}, map[string]bool{}
		symsOf(t, seen, syms, ops)
		r := map[string]bool{}
		for n := range ops {
			if f := lib.isFun(n); f != nil && !(focus && f.kind == "define") {
				r[n] = true
			}
		}
		return r
	}
	g := libops(o.Goal)
	var as []*Term
	dropped := false
	for _, a := range o.Assume {
		if hasQuant(a) {
			l := libops(a)
			keep := len(l) == 0 && len(g) == 0
			if focus {
				keep = true
			}
			for n := range l {
				if focus && !g[n] {
					keep = false
				}
				if !focus && g[n] {
					keep = true
				}
			}
			if !keep {
				dropped = true
				continue
			}
		}
		as = append(as, a)
	}
	if !dropped {
		return nil
	}
	c := *o
	c.Assume = as
	return &c
}

func hasQuant(t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t.kind == kQuant {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func abstractNonlinear(t *Term, memo map[*Term]*Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = abstractNonlinear(a, memo)
	}
	var r *Term
	switch {
	case t.kind == kQuant:
		r = intern(&Term{op: t.op, sort: t.sort, kind: kQuant, bvs: t.bvs, args: args, pats: t.pats})
	case t.op == "*":
		_, a := isRat(args[0])
		_, b := isRat(args[1])
		if a || b {
			r = App("*", t.sort, args...)
		} else {
			n := "nlmulR"
			if t.sort == "Int" {
				n = "nlmulI"
			}
			r = App(n, t.sort, args...)
		}
	case t.op == "/":
		if _, b := isRat(args[1]); b {
			r = App("/", t.sort, args...)
		} else {
			r = App("nldivR", t.sort, args...)
		}
	default:
		r = App(t.op, t.sort, args...)
	}
	memo[t] = r
	return r
}

type Solver struct {
	name string
	argv []string
}

var solverZ3 = Solver{"z3", []string{"z3", "-in", "-smt2", "auto_config=false", "smt.mbqi=false"}}
var solverZ3MBQI = Solver{"z3-mbqi", []string{"z3", "-in", "-smt2", "auto_config=false"}}
var solverZ3Auto = Solver{"z3-auto", []string{"z3", "-in", "-smt2"}}
var solverZ3Arith = Solver{"z3-arith2", []string{"z3", "-in", "-smt2", "smt.arith.solver=2"}}
var solverZ3Case = Solver{"z3-case3", []string{"z3", "-in", "-smt2", "auto_config=false", "smt.mbqi=false", "smt.arith.solver=2", "smt.case_split=3"}}
var solverZ3New = Solver{"z3-new", []string{"z3-new", "-in", "-smt2", "auto_config=false", "smt.mbqi=false"}}
var solverCVC5 = Solver{"cvc5", []string{"cvc5", "--lang=smt2", "--full-saturate-quant"}}

func runSolver(ctx0 context.Context, s Solver, script string, timeout time.Duration) (status, out string) {
	ctx, cancel := context.WithTimeout(ctx0, timeout+2*time.Second)
	defer cancel()
	argv := append([]string{}, s.argv...)
	switch s.name {
	case "cvc5":
		script = cvc5ConstArrays(script)
		argv = append(argv, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	default:
		argv = append(argv, fmt.Sprintf("-T:%d", int(timeout.Seconds()+0.999)), "-memory:2500")
	}
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	cmd.Stdin = strings.NewReader(script)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	cmd.Run()
	out = strings.TrimSpace(ob.String())
	first := out
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	switch first {
	case "unsat", "sat", "unknown", "timeout":
		return first, out
	}
	if strings.Contains(out, "interrupted by timeout") || out == "" {
		return "timeout", out
	}
	return "error", out
}

// scopeCfg carries the effort limits of a run.
type Effort struct {
	First  time.Duration
	Second time.Duration
	Jobs   int
}

func hashText(s string) string {
	h := sha256.Sum256([]byte(s))
	return fmt.Sprintf("%x", h[:8])
}

// solveAll discharges the obligations in parallel.
func solveAll(obs []*Oblig, eff Effort) {
	type job struct {
		o       *Oblig
		script  string
		scriptA string
		scriptR string
		scriptF string
	}
	jobs := make([]job, len(obs))
	seen := map[string]*Oblig{}
	var dup [][2]*Oblig
	var todo []job
	for i, o := range obs {
		if o.Status == "error" {
			continue // outside the verifier's reach: nothing to solve
		}
		if o.Raw == "" && !o.WantSat && o.Goal == tTrue {
			o.Status, o.By = "unsat", "syntactic"
			continue
		}
		jobs[i] = job{o: o, script: o.Script(false)}
		k := hashText(jobs[i].script)
		if p, ok := seen[k]; ok {
			dup = append(dup, [2]*Oblig{o, p})
			continue
		}
		seen[k] = o
		if o.Raw == "" && !o.WantSat {
			a := o.Script(true)
			jobs[i].scriptA = a
			if r := o.relevant(); r != nil {
				jobs[i].scriptR = r.Script(false)
			}
			if r := o.focused(); r != nil {
				if f := r.Script(false); f != jobs[i].scriptR {
					jobs[i].scriptF = f
				}
			}
		}
		todo = append(todo, jobs[i])
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	for w := 0; w < eff.Jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				solveOne(j.o, j.script, j.scriptA, j.scriptR, j.scriptF, eff)
			}
		}()
	}
	for _, j := range todo {
		ch <- j
	}
	close(ch)
	wg.Wait()
	for _, d := range dup {
		d[0].Status, d[0].By, d[0].Out = d[1].Status, d[1].By, d[1].Out
	}
	// a reachability check fails only when the place is unreachable on every path
	alive := map[string]bool{}
	for _, o := range obs {
		if o.WantSat && o.Status != "unsat" {
			alive[o.Fn+o.Pos+o.Desc] = true
		}
	}
	for _, o := range obs {
		if o.WantSat && o.Status == "unsat" && alive[o.Fn+o.Pos+o.Desc] {
			o.Status = "other-path"
		}
	}
}

func solveOne(o *Oblig, script, scriptA, scriptR, scriptF string, eff Effort) {
	t0 := time.Now()
	defer func() { o.Ms = time.Since(t0).Milliseconds() }()
	bg := context.Background()
	if o.WantSat {
		st, out := runSolver(bg, solverZ3, script, 2*time.Second)
		o.Status, o.By, o.Out = st, "z3", out
		return
	}
	hasNL := scriptA != "" && (strings.Count(scriptA, "nlmul") > 2 || strings.Count(scriptA, "nldiv") > 1)
	type res struct {
		who, tag, st, out string
	}
	race := func(ss []Solver, d time.Duration, scriptR, scriptF string) bool {
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		n := 0
		ch := make(chan res, 2*len(ss)+2)
		if scriptR != "" {
			n++
			go func() {
				st, out := runSolver(ctx, solverZ3, scriptR, d)
				if st != "unsat" {
					st, out = runSolver(ctx, solverZ3Auto, scriptR, d)
				}
				ch <- res{"z3", "/relevant", st, out}
			}()
		}
		if scriptF != "" {
			n++
			go func() {
				st, out := runSolver(ctx, solverZ3New, scriptF, d)
				ch <- res{"z3-new", "/focused", st, out}
			}()
		}
		for _, s := range ss {
			s := s
			n++
			go func() {
				st, out := runSolver(ctx, s, script, d)
				ch <- res{s.name, "", st, out}
			}()
			if hasNL {
				n++
				go func() {
					st, out := runSolver(ctx, s, scriptA, d)
					ch <- res{s.name, "/uf-arith", st, out}
				}()
			}
		}
		for i := 0; i < n; i++ {
			r := <-ch
			if o.Out != "" {
				o.Out += "; "
			}
			o.Out += r.who + r.tag + ": " + firstLine(r.out)
			if r.st == "unsat" {
				o.Status, o.By = "unsat", r.who+r.tag
				return true
			}
			// sat of the abstraction means nothing
			if (o.Status == "" || r.st == "sat" || r.st == "error") && !(r.tag != "" && r.st == "sat") {
				o.Status = r.st
			}
		}
		return false
	}
	defer func() {
		if o.Status == "" {
			o.Status = "unknown"
		}
	}()
	if race([]Solver{solverZ3}, eff.First, "", "") {
		return
	}
	if race([]Solver{solverZ3Case, solverZ3Arith}, eff.First, scriptR, "") {
		return
	}
	if eff.Second <= 0 {
		return
	}
	race([]Solver{solverZ3MBQI, solverZ3New, solverCVC5, solverZ3Auto, solverZ3Case}, eff.Second, scriptR, scriptF)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func dumpObligs(dir string, obs []*Oblig) {
	os.MkdirAll(dir, 0755)
	for i, o := range obs {
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("%04d-%s.smt2", i, sanitize(o.ID))), []byte("; "+o.Desc+" @ "+o.Pos+"\n"+o.Script(false)), 0644)
		if r := o.relevant(); r != nil && o.Raw == "" {
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("%04d-%s.rel.smt2", i, sanitize(o.ID))), []byte(r.Script(false)), 0644)
		}
	}
}

var constStrRe = regexp.MustCompile(`\(\(as const (\(Array [A-Za-z]+ (?:Str|Iface)\))\) (lit\$|\(mkiface 0 0 0\.0 lit\$\))\)`)

// cvc5ConstArrays replaces constant arrays over the uninterpreted sort Str, which
// cvc5 does not accept, by a symbol with a defining axiom.
func cvc5ConstArrays(script string) string {
	sorts, vals := map[string]string{}, map[string]string{}
	s := constStrRe.ReplaceAllStringFunc(script, func(q string) string {
		m := constStrRe.FindStringSubmatch(q)
		n := "conststr$" + sanitize(m[1])
		sorts[n] = m[1]
		vals[n] = m[2]
		return n
	})
	if len(sorts) == 0 {
		return script
	}
	var d strings.Builder
	d.WriteString("(declare-const lit$ Str)\n")
	for _, n := range sortedKeys(sorts) {
		k, _ := arrSorts(sorts[n])
		fmt.Fprintf(&d, "(declare-const %s %s)\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, sorts[n], k, n, vals[n], n)
	}
	return strings.Replace(s, "(declare-const lit$ Str)\n", d.String(), 1)
}
