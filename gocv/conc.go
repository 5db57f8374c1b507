package main

import (
	"go/ast"
	"go/types"
	"strings"
)

// A contract with the key X@concurrent specifies X while other goroutines use the same objects.
// The state listed under "shared LOCK locations" belongs to the locks held in the field LOCK: acquiring a lock
// replaces it by arbitrary values related to the earlier ones by the "rely" clauses (what the other goroutines
// may have done), and releasing a lock must itself respect those clauses. "tracks NAME LOCK expr" sums up, over
// the critical sections of LOCK, the change this call makes to expr; "section LOCK P" is proved at every release,
// with old() the state when the lock was acquired; released(LOCK, e) is e when the lock was last released.
// Fields and maps declared "guarded" are only accessible under their lock. Functions that X calls are
// executed in place, so that their critical sections are part of X.

type lockClause struct {
	Lock string
	Name string
	C    *Clause
}

type concState struct {
	acq   map[string]*State // lock field -> state at acquisition
	rel   map[string]*State // lock field -> state at the last release
	total map[string]*Term  // tracked sums
}

func (c *concState) with() *concState {
	n := &concState{acq: map[string]*State{}, rel: map[string]*State{}, total: map[string]*Term{}}
	if c != nil {
		for k, v := range c.acq {
			n.acq[k] = v
		}
		for k, v := range c.rel {
			n.rel[k] = v
		}
		for k, v := range c.total {
			n.total[k] = v
		}
	}
	return n
}

func isConcKey(k string) bool { return strings.HasSuffix(k, "@concurrent") }

func (x *Exec) conc() bool { return x.ct != nil && isConcKey(x.ct.Key) }

// lockField names the field a lock term lives in and the object that has it.
func lockField(r *Term) (string, *Term) {
	if r.kind == kApp && strings.HasPrefix(r.op, "sub$") && len(r.args) == 1 {
		return strings.TrimPrefix(r.op, "sub$"), r.args[0]
	}
	return "", nil
}

func (x *Exec) concCtx(st, old *State) *SpecCtx {
	return &SpecCtx{x: x, st: st, old: old, env: x.entryEnv, ct: x.ct, noLocals: true}
}

func (x *Exec) heldFields(st *State) map[string]bool {
	m := map[string]bool{}
	for k := range st.locks {
		f, _ := lockField(st.lockT[k])
		m[f] = true
	}
	return m
}

func (x *Exec) acquired(st *State, r *Term, e ast.Node) {
	if !x.conc() {
		return
	}
	name, _ := lockField(r)
	held := x.heldFields(st)
	for h := range held {
		if h == name {
			continue
		}
		a, b := -1, -1
		for i, o := range x.spec.LockOrder {
			if sanitize(o) == h {
				a = i
			}
			if sanitize(o) == name {
				b = i
			}
		}
		x.oblige(st, "lock", "locks are acquired in one order", Bool(a >= 0 && b > a), e)
	}
	n := 0
	for k := range st.locks {
		if f, _ := lockField(st.lockT[k]); f == name {
			n++
		}
	}
	if n > 1 {
		x.oblige(st, "lock", "one lock of a kind at a time", tFalse, e)
	}
	pre := st.clone()
	next0 := x.next(st)
	n1 := x.freshNext()
	st.heap["next"] = n1
	st.assume(Le(next0, n1))
	for _, l := range x.logs {
		l.alloc = true
	}
	for _, s := range x.ct.Shared {
		if f := sanitize(s.Lock); f != name && held[f] {
			continue
		}
		for _, l := range x.concCtx(st, pre).locs([]*Clause{s.C}) {
			x.havocLoc(st, l)
		}
	}
	for _, c := range x.ct.Rely {
		st.assume(x.concCtx(st, pre).boolExpr(c.Expr))
	}
	x.vacuity(st, "a state the other goroutines may leave exists", e)
	n2 := st.conc.with()
	st.conc = n2
	snap := st.clone()
	n2.acq[name] = snap
}

func (x *Exec) releasing(st *State, r *Term, e ast.Node) {
	if !x.conc() {
		return
	}
	name, _ := lockField(r)
	if st.conc == nil || st.conc.acq[name] == nil {
		return
	}
	acq := st.conc.acq[name]
	cc := st.conc.with()
	st.conc = cc
	for _, s := range x.ct.Sections {
		if sanitize(s.Lock) == name {
			sc := x.concCtx(st, acq)
			sc.goal = true
			x.oblige(st, "section", "critical section of "+s.Lock+": "+s.C.Text, sc.boolExpr(s.C.Expr), e)
		}
	}
	for _, c := range x.ct.Rely {
		sc := x.concCtx(st, acq)
		sc.goal = true
		x.oblige(st, "section", "what the other goroutines rely on: "+c.Text, sc.boolExpr(c.Expr), e)
	}
	for _, s := range x.ct.Tracks {
		if sanitize(s.Lock) != name {
			continue
		}
		now, was := x.concCtx(st, acq).eval(s.C.Expr).t, x.concCtx(acq, acq).eval(s.C.Expr).t
		now, was = coerce(now, was)
		d := Sub(now, was)
		if t := cc.total[s.Name]; t != nil {
			d = Add(t, d)
		}
		cc.total[s.Name] = d
	}
	cc.rel[name] = st.clone()
}

// concEnv adds the tracked sums to the environment of the postconditions.
func (x *Exec) concEnv(st *State, env map[string]Val) {
	if !x.conc() {
		return
	}
	for _, s := range x.ct.Tracks {
		v := x.concCtx(st, st).eval(s.C.Expr)
		t := tZeroOf(v.t)
		if st.conc != nil && st.conc.total[s.Name] != nil {
			t = st.conc.total[s.Name]
		}
		env[s.Name] = Val{t: t, typ: v.typ}
	}
}

func tZeroOf(t *Term) *Term {
	if t.sort == "Real" {
		return zeroOf(types.Typ[types.Float64])
	}
	return Int(0)
}

// ---------- guarded fields ----------

// guardCheck: fields listed as guarded may only be touched while the lock of their object is held.
func (x *Exec) guardCheck(st *State, key string, ref *Term) {
	if x.quiet > 0 || !x.conc() {
		return
	}
	lockF := x.spec.Guarded[key]
	if lockF == "" || x.isFreshRef(ref) {
		return
	}
	if strings.HasPrefix(lockF, "?") {
		x.kindHeld(st, key, lockF[1:])
		return
	}
	want := x.subObj(ref, lockF)
	var alts []*Term
	for _, k := range sortedKeys(st.locks) {
		if t := st.lockT[k]; t.sort == want.sort {
			alts = append(alts, Eq(t, want))
		}
	}
	if !st.dead {
		x.newOblig("lock", "access to "+key+" under its lock", st, Or(alts...), nil)
	}
}

func (x *Exec) kindHeld(st *State, what, lock string) {
	if !st.dead {
		x.newOblig("lock", "access to "+what+" under a lock", st, Bool(x.heldFields(st)[sanitize(lock)]), nil)
	}
}

func (x *Exec) mapGuard(st *State, ref *Term, mt types.Type) {
	if x.quiet > 0 || !x.conc() || mt == nil {
		return
	}
	t := mt.Underlying().String()
	lockF := x.spec.Guarded[t]
	if lockF == "" || x.isFreshRef(ref) {
		return
	}
	x.kindHeld(st, t, strings.TrimPrefix(lockF, "?"))
}
