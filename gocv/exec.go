package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

type Cand struct {
	Loop int
	C    *Clause
}

type Exec struct {
	prog *Program
	spec *Spec
	fi   *FuncInfo
	ct   *Contract
	tag  string
	obs  []*Oblig

	entry     *State
	entryEnv  map[string]Val
	entryHeap map[string]*Term
	heapFacts map[*Term]*Term
	heapWF    map[*Term]*compInfo
	next0     *Term
	nextSyms  map[*Term]bool
	growExact map[*Term]bool
	growOf    map[*Term]*Term // slice value at a loop head -> its value at loop entry, for slices only appended to
	modLocs   []Loc
	globals   map[*types.Var]*Var
	inlined   map[string]bool
	calls     map[string]bool
	externs   map[string]bool
	assumed   map[string]bool

	appendKeys map[*Term]bool
	quiet      int
	logs       []*writeLog
	nframes    int
	nloops     int
	loopIDs    map[loopKey]int
	loopSites  map[string]int
	loopPos    map[int]string
	loopLogs   map[loopKey]*writeLog
	loopFrames []*loopFrame
	noMerge    bool

	// Houdini
	houdini  bool
	allLoops bool
	dropped  map[Cand]bool
	candObs  map[Cand]*Cand

	errs      []string
	renames   map[string]string
	params    map[string]*Var
	loopIdx   map[int]*Var
	loopStack []int          // loops being executed, innermost last
	loopNames map[int]string // induction variable of each loop
	baseLoops map[int]string // the same in the original code
	loopVis   map[int]*Var
}

func NewExec(prog *Program, spec *Spec, fi *FuncInfo, ct *Contract) *Exec {
	return &Exec{prog: prog, spec: spec, fi: fi, ct: ct, tag: sanitize(ct.Key),
		entryHeap: map[string]*Term{}, heapFacts: map[*Term]*Term{}, heapWF: map[*Term]*compInfo{}, growOf: map[*Term]*Term{}, growExact: map[*Term]bool{}, nextSyms: map[*Term]bool{}, globals: map[*types.Var]*Var{},
		inlined: map[string]bool{}, calls: map[string]bool{}, externs: map[string]bool{}, assumed: map[string]bool{}, appendKeys: map[*Term]bool{},
		loopIDs: map[loopKey]int{}, loopSites: map[string]int{}, loopPos: map[int]string{}, loopLogs: map[loopKey]*writeLog{},
		dropped: map[Cand]bool{}, candObs: map[Cand]*Cand{}, params: map[string]*Var{}, loopIdx: map[int]*Var{}, loopNames: map[int]string{}, loopVis: map[int]*Var{}}
}

func (x *Exec) newOblig(kind, desc string, st *State, goal *Term, n ast.Node) *Oblig {
	o := &Oblig{Fn: x.ct.Key, Kind: kind, Desc: desc, Pos: x.pos(n), Assume: pcList(st.pc), Goal: goal, Uses: x.ct.Uses}
	o.ID = fmt.Sprintf("%s#%d:%s", x.ct.Key, len(x.obs)+1, kind)
	x.obs = append(x.obs, o)
	return o
}

func (x *Exec) oblige(st *State, kind, desc string, goal *Term, n ast.Node) {
	if st.dead || goal == tTrue || st.knows(goal) {
		return
	}
	if x.quiet == 0 {
		// split conjunctions so that every failing part has a name
		gs := []*Term{goal}
		if goal.kind == kApp && goal.op == "and" {
			gs = goal.args
		}
		for _, g := range gs {
			if st.knows(g) {
				continue
			}
			x.newOblig(kind, desc, st, g, n)
		}
	}
	st.assume(goal)
}

func (x *Exec) obligeAt(st *State, kind, desc string, goal *Term, n ast.Node, c *Clause) {
	k := len(x.obs)
	x.oblige(st, kind, desc, goal, n)
	if len(c.Uses) == 0 {
		return
	}
	us := map[string]bool{}
	for u := range x.ct.Uses {
		us[u] = true
	}
	for _, u := range c.Uses {
		us[u] = true
	}
	for _, o := range x.obs[k:] {
		o.Uses = us
	}
}

func (x *Exec) obligeErr(st *State, kind, desc string, n ast.Node) {
	if x.quiet == 0 {
		o := x.newOblig(kind, desc, st, tFalse, n)
		o.Status = "error"
		o.Out = desc
		o.Assume = nil
	}
}

func (x *Exec) obligeInv(st *State, ord int, c *Clause, desc string, goal *Term, n ast.Node) {
	if st.dead || goal == tTrue || st.knows(goal) {
		return
	}
	if x.quiet > 0 {
		return
	}
	gs := []*Term{goal}
	if goal.kind == kApp && goal.op == "and" {
		gs = goal.args
	}
	for _, g := range gs {
		if st.knows(g) {
			continue
		}
		o := x.newOblig("invariant", desc, st, g, n)
		o.Cand = []*Cand{{ord, c}}
	}
}

func (x *Exec) vacuity(st *State, desc string, n ast.Node) {
	if x.quiet > 0 || st.dead || x.houdini {
		return
	}
	o := x.newOblig("vacuity", desc, st, tFalse, n)
	o.WantSat = true
}

func (x *Exec) dropCand(ord int, c *Clause) { x.dropped[Cand{ord, c}] = true }

func (x *Exec) activeInvs(ord int, spec *LoopSpec) []*Clause {
	var out []*Clause
	for _, c := range spec.Inv {
		if !x.dropped[Cand{ord, c}] {
			out = append(out, c)
		}
	}
	return out
}

// unionLoops offers every invariant of the contract as a candidate for every loop.
func (x *Exec) unionLoops(ord int, own *LoopSpec) *LoopSpec {
	u := &LoopSpec{}
	seen := map[string]bool{}
	add := func(l *LoopSpec) {
		if l == nil {
			return
		}
		for _, c := range l.Inv {
			if !seen[c.Text] {
				seen[c.Text] = true
				u.Inv = append(u.Inv, c)
			}
		}
		for _, h := range l.Havoc {
			u.Havoc = append(u.Havoc, h)
		}
	}
	add(own)
	var ks []int
	for k := range x.ct.Loops {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	if own != nil {
		u.Havoc = own.Havoc
	}
	for _, k := range ks {
		l := x.ct.Loops[k]
		h := u.Havoc
		add(l)
		u.Havoc = h
	}
	return u
}

func (x *Exec) trySpec(c *SpecCtx, cl *Clause) (t *Term, err string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				err = e.what
			case specErr:
				err = string(e)
			default:
				panic(r)
			}
		}
	}()
	t = c.boolExpr(cl.Expr)
	return
}

// ---------- frame conditions ----------

func (x *Exec) frameCheck(st *State, comp string, key, idx *Term, n ast.Node) {
	if x.quiet > 0 || x.isFreshRef(baseOfKey(key)) && x.freshInLoops(baseOfKey(key)) {
		return
	}
	x.loopCheck(st, comp, key, n)
	base := baseOfKey(key)
	if x.isFreshRef(base) {
		return
	}
	var alts []*Term
	alts = append(alts, Le(x.next0, base))
	for _, l := range x.modLocs {
		if l.comp != comp {
			continue
		}
		if l.key == nil && l.cond == nil {
			return
		}
		c := tTrue
		if l.key != nil {
			c = Eq(key, l.key)
		}
		if idx != nil && l.lo != nil {
			c = And(c, Le(l.lo, idx), Lt(idx, l.hi))
		}
		if l.cond != nil {
			c = And(c, l.cond)
		}
		alts = append(alts, c)
	}
	x.oblige(st, "frame", "write to "+comp+" is within the modifies clause", Or(alts...), n)
}

func baseOfKey(k *Term) *Term {
	if k.sort == "Ptr" {
		return pBase(k)
	}
	return k
}

func (x *Exec) freshInLoops(k *Term) bool {
	for _, lf := range x.loopFrames {
		b, off := baseOff(k)
		nb, noff := baseOff(lf.next)
		if b == nb && off < noff {
			return false
		}
		if b == nb {
			continue
		}
		// allocation symbol introduced after loop entry?
		if b != nil && b.id < lf.next.id {
			return false
		}
	}
	return true
}

func (x *Exec) loopCheck(st *State, comp string, key *Term, n ast.Node) {
	for _, lf := range x.loopFrames {
		if !lf.on[comp] {
			continue
		}
		known := false
		alts := []*Term{Le(lf.next, baseOfKey(key))}
		for _, k := range lf.keys[comp] {
			if k == key {
				known = true
			}
			alts = append(alts, Eq(key, k))
		}
		for _, l := range lf.locs {
			if l.comp == comp {
				if l.key == nil {
					known = true
				} else {
					alts = append(alts, Eq(key, l.key))
				}
			}
		}
		if known {
			continue
		}
		x.oblige(st, "loopframe", "write to "+comp+" stays within the objects the loop is known to change", Or(alts...), n)
	}
}

func (x *Exec) frameCheckRange(st *State, comp string, key, lo, hi *Term, n ast.Node) {
	if x.quiet > 0 || st.dead {
		return
	}
	x.loopCheckRange(st, comp, key, lo, hi, n)
	if x.isFreshRef(key) {
		return
	}
	alts := []*Term{Le(x.next0, key), Le(hi, lo)}
	for _, l := range x.modLocs {
		if l.comp != comp {
			continue
		}
		if l.key == nil && l.cond == nil {
			return
		}
		c := tTrue
		if l.key != nil {
			c = Eq(key, l.key)
		}
		if l.lo != nil {
			c = And(c, Le(l.lo, lo), Le(hi, l.hi))
		}
		if l.cond != nil {
			c = And(c, l.cond)
		}
		alts = append(alts, c)
	}
	x.oblige(st, "frame", "write to "+comp+" is within the modifies clause", Or(alts...), n)
}

func (x *Exec) loopCheckRange(st *State, comp string, key, lo, hi *Term, n ast.Node) {
	for _, lf := range x.loopFrames {
		if !lf.on[comp] {
			continue
		}
		known := false
		alts := []*Term{Le(lf.next, key), Le(hi, lo)}
		for _, k := range lf.keys[comp] {
			if k == key {
				known = true
			}
			alts = append(alts, Eq(key, k))
		}
		for _, l := range lf.locs {
			if l.comp == comp {
				if l.key == nil {
					known = true
				} else {
					alts = append(alts, Eq(key, l.key))
				}
			}
		}
		if !known {
			x.oblige(st, "loopframe", "write to "+comp+" stays within the objects the loop is known to change", Or(alts...), n)
		}
	}
}

// frameCheckLoc: a callee's modifies clause must be allowed by ours.
func (x *Exec) frameCheckLoc(st *State, l Loc, n ast.Node) {
	if x.quiet > 0 || st.dead {
		return
	}
	if l.cond != nil {
		// only a write when the condition holds
		s2 := st.clone()
		s2.assume(l.cond)
		l.cond = nil
		x.frameCheckLoc(s2, l, n)
		return
	}
	if l.key == nil {
		for _, m := range x.modLocs {
			if m.comp == l.comp && m.key == nil && m.cond == nil {
				return
			}
		}
		x.oblige(st, "frame", "callee modifies "+l.text+" which is not in the modifies clause", tFalse, n)
		return
	}
	if l.lo != nil {
		x.frameCheckRange(st, l.comp, l.key, l.lo, l.hi, n)
		return
	}
	x.frameCheck(st, l.comp, l.key, nil, n)
}

// frameFacts: what the function may not modify still has its entry value.
func (x *Exec) frameFacts(st *State, k string, n *Term) {
	ci := comps[k]
	old := x.heapGet(x.entry, k)
	ks := "Int"
	if ci.kind == 'P' {
		ks = "Ptr"
	}
	r := BV("r", ks)
	cond := []*Term{Lt(baseOfKey(r), x.next0)}
	for _, l := range x.modLocs {
		if l.comp != k {
			continue
		}
		if l.key == nil {
			return
		}
		cond = append(cond, Not(Eq(r, l.key)))
	}
	st.assume(Forall([]*Term{r}, Imp(And(cond...), Eq(Select(n, r), Select(old, r))), []*Term{Select(n, r)}))
}

// windowFacts: elements of row kk outside the windows the function may modify are unchanged by the loop.
func (x *Exec) windowFacts(st *State, k string, kk, n, h *Term, locs []Loc) {
	i := BV("i", "Int")
	var in []*Term
	for _, l := range x.modLocs {
		if l.comp != k {
			continue
		}
		if l.key == nil {
			return
		}
		if l.lo == nil {
			in = append(in, Eq(kk, l.key))
		} else {
			in = append(in, And(Eq(kk, l.key), Le(l.lo, i), Lt(i, l.hi)))
		}
	}
	f := Forall([]*Term{i}, Imp(Not(Or(in...)), Eq(Select(Select(n, kk), i), Select(Select(h, kk), i))), []*Term{Select(Select(n, kk), i)})
	st.assume(Imp(Lt(kk, x.next0), f))
}

// ---------- the function ----------

func (x *Exec) Run() (err error) {
	defer func() {
		if r := recover(); r != nil {
			var what string
			switch e := r.(type) {
			case unsupported:
				what = e.what
			case specErr:
				what = string(e)
			default:
				panic(r)
			}
			x.errs = append(x.errs, what)
			o := &Oblig{Fn: x.ct.Key, Kind: "reach", Desc: "outside the verifier's reach: " + what, Goal: tFalse, Status: "error", Out: what}
			o.ID = fmt.Sprintf("%s#%d:reach", x.ct.Key, len(x.obs)+1)
			x.obs = append(x.obs, o)
		}
	}()
	fi := x.fi
	st := newState()
	x.next0 = Sym("next0$"+x.tag, "Int")
	x.nextSyms[x.next0] = true
	st.heap["next"] = x.next0
	st.assume(Le(Int(1), x.next0))
	sig := fi.Obj.Type().(*types.Signature)
	body := fi.Decl.Body
	x.entryEnv = map[string]Val{}
	var fr *Frame
	if strings.HasSuffix(x.ct.Key, litSuffix) {
		lit := onlyLit(body)
		if lit == nil {
			panic(unsupported{fi.Key + " does not have one function literal"})
		}
		c := x.litClosure(st, fi, lit)
		for n, cv := range x.captureEnv(st, x.ct, c) {
			x.entryEnv[n] = cv
		}
		sig = fi.Pkg.Info.Types[lit].Type.(*types.Signature)
		body = lit.Body
		fr = x.newFrame(fi.Pkg.Info, fi.Pkg.Types, sig, nil)
		fr.lex = c.fr
		fr.lit = lit
		fr.sig = sig
	} else {
		fr = x.newFrame(fi.Pkg.Info, fi.Pkg.Types, sig, nil)
		fr.fi = fi
	}
	fr.body = body
	fr.addr = addrTaken(fi.Pkg.Info, body)
	bind := func(p *types.Var, specName string) {
		var v Val
		if ps, ok := p.Type().Underlying().(*types.Signature); ok {
			_ = ps
			v = Val{clo: &Closure{fn: nil, ext: p.Name()}, typ: p.Type()}
			if i := strings.IndexByte(x.ct.Key, '@'); i >= 0 && !strings.HasSuffix(x.ct.Key, litSuffix) {
				v.clo = x.closureFrom(st, fi, p, x.ct.Key[i+1:])
				for n, cv := range x.captureEnv(st, x.ct, v.clo) {
					if _, dup := x.entryEnv[n]; !dup {
						x.entryEnv[n] = cv
					}
				}
			}
		} else {
			v = Val{t: Sym(sanitize(p.Name())+"$in", sortOf(p.Type())), typ: p.Type()}
			st.assume(wf(v.t, p.Type(), x.next0))
		}
		x.declareParam(st, fr, p, v)
		if specName != "" {
			x.entryEnv[specName] = v
			x.params[specName] = fr.vars[p]
		}
	}
	if r := sig.Recv(); r != nil {
		bind(r, x.ct.Recv)
		if x.ct.Recv != "" {
			if _, isp := r.Type().Underlying().(*types.Pointer); isp {
				v := x.entryEnv[x.ct.Recv]
				st.assume(Not(Eq(v.t, Int(0))))
			}
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		n := ""
		if i < len(x.ct.Params) {
			n = x.ct.Params[i]
		}
		bind(sig.Params().At(i), n)
	}
	x.declResults(st, fr, sig)
	x.entry = st.clone()
	pre := &SpecCtx{x: x, st: st, old: x.entry, env: x.entryEnv, ct: x.ct, noLocals: true}
	for _, c := range x.ct.Requires {
		st.assume(pre.boolExpr(c.Expr))
	}
	x.entry.pc = st.pc
	for k, h := range st.heap {
		x.entry.heap[k] = h
	}
	pre.old = x.entry
	x.modLocs = pre.locs(x.ct.Modifies)
	x.vacuity(st, "preconditions are satisfiable", fi.Decl)
	outs := x.execBlock(st, fr, body.List)
	n := 0
	for _, o := range outs {
		for _, f := range x.finish(o, fr, sig) {
			n++
			x.checkPost(f, sig)
		}
	}
	if n == 0 {
		x.errs = append(x.errs, "no path returns")
		x.obligeErr(st, "vacuity", "no path of the function returns", fi.Decl)
	}
	return nil
}

func (x *Exec) declareParam(st *State, fr *Frame, p *types.Var, v Val) {
	if fr.addr[p] {
		x.declare(st, fr, p, v)
		return
	}
	vr := &Var{fr: fr, obj: p, name: p.Name(), typ: p.Type()}
	fr.vars[p] = vr
	st.vars[vr] = v
}

func (x *Exec) checkPost(o Outcome, sig *types.Signature) {
	st := o.st
	if st.dead {
		return
	}
	if len(st.locks) > 0 {
		x.oblige(st, "lock", "every lock is released on return", tFalse, nil)
	}
	env := map[string]Val{}
	for k, v := range x.entryEnv {
		env[k] = v
	}
	x.concEnv(st, env)
	for i, r := range x.ct.Results {
		if i < len(o.vals) {
			env[r] = o.vals[i]
		}
	}
	if len(o.vals) > 0 {
		env["result"] = o.vals[0]
	}
	post := &SpecCtx{x: x, st: st, old: x.entry, env: env, ct: x.ct, noLocals: true, oldEnv: x.entryEnv, goal: true}
	for _, c := range x.ct.Sets {
		ok := false
		for _, m := range x.ct.Modifies {
			ok = ok || m.Text == c.Label
		}
		if _, isg := x.spec.Ghosts[c.Label]; !isg || !ok {
			panic(unsupported{"set of " + c.Label})
		}
		post.goal = false
		v := post.eval(c.Expr)
		post.lookup(c.Label)
		st.heap["G:"+c.Label] = v.t
	}
	for _, c := range x.ct.Ensures {
		post.goal = true
		g := post.boolExpr(c.Expr)
		lab := c.Text
		if c.Label != "" {
			lab = "[" + c.Label + "] " + lab
		}
		gs := []*Term{g}
		if g.kind == kApp && g.op == "and" {
			gs = g.args
		}
		for _, g := range gs {
			if g == tTrue || st.knows(g) {
				continue
			}
			x.newOblig("ensures", "postcondition "+lab, st, g, x.fi.Decl)
		}
		// later clauses may rely on the earlier ones
		post.goal = false
		st.assume(post.boolExpr(c.Expr))
		st.dead = false
	}
}

// complete adds the facts about heap symbols that occur in the obligation.
func (x *Exec) complete() {
	for _, o := range x.obs {
		if o.Raw != "" || o.Status == "error" {
			continue
		}
		seen, syms, ops := map[*Term]bool{}, map[*Term]bool{}, map[string]bool{}
		for _, t := range o.Assume {
			symsOf(t, seen, syms, ops)
		}
		symsOf(o.Goal, seen, syms, ops)
		osyms := map[*Term]bool{}
		for s := range syms {
			osyms[s] = true
		}
		later := map[*Term][]*Term{}
		added := map[*Term]bool{}
		var facts []*Term
		for ch := true; ch; {
			ch = false
			var ss []*Term
			for s := range syms {
				if !added[s] {
					ss = append(ss, s)
				}
			}
			sort.Slice(ss, func(i, j int) bool { return ss[i].id < ss[j].id })
			for _, s := range ss {
				added[s] = true
				if ci, ok := x.heapWF[s]; ok && ci != nil {
					// an older heap symbol also describes objects allocated since
					for n := range x.nextSyms {
						if n.id > s.id && osyms[n] {
							later[s] = append(later[s], n)
						}
					}
					sort.Slice(later[s], func(i, j int) bool { return later[s][i].id < later[s][j].id })
					for _, n := range later[s] {
						if f := x.compWF(s, ci, n); f != tTrue {
							facts = append(facts, f)
						}
					}
				}
				if f, ok := x.heapFacts[s]; ok && f != tTrue {
					facts = append(facts, f)
					symsOf(f, seen, syms, ops)
					ch = true
				}
			}
		}
		o.Assume = append(facts, o.Assume...)
	}
}

func (x *Exec) locals() []string {
	var out []string
	ast.Inspect(x.fi.Decl, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o, ok := x.fi.Pkg.Info.Defs[id].(*types.Var); ok && !o.IsField() {
				out = append(out, o.Name()+" "+strings.ReplaceAll(compType(o.Type()), " ", ""))
			}
		}
		return true
	})
	return out
}

func (x *Exec) paramVar(name string) *Var {
	return x.params[name]
}
