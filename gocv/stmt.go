package main

// Execution of statements and loops.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

const (
	oNormal = iota
	oBreak
	oContinue
	oReturn
	oGoto
	oFall
)

type Outcome struct {
	st    *State
	kind  int
	label string
	vals  []Val
}

func normal(st *State) []Outcome {
	if st.dead {
		return nil
	}
	return []Outcome{{st: st, kind: oNormal}}
}

func (x *Exec) execBlock(st *State, fr *Frame, list []ast.Stmt) []Outcome {
	cur := []*State{st}
	var out []Outcome
	for i, s := range list {
		var nx []*State
		for _, c := range cur {
			if c.dead {
				continue
			}
			for _, o := range x.execStmt(c, fr, s) {
				if o.kind == oNormal {
					if !o.st.dead {
						nx = append(nx, o.st)
					}
				} else {
					out = append(out, o)
				}
			}
		}
		nx = x.mergeStates(nx)
		if len(nx) > 400 {
			panic(unsupported{"too many paths"})
		}
		cur = nx
		if len(cur) == 0 {
			break
		}
		// goto support: none
		_ = i
	}
	for _, c := range cur {
		out = append(out, Outcome{st: c, kind: oNormal})
	}
	return out
}

func (x *Exec) execStmt(st *State, fr *Frame, s ast.Stmt) []Outcome {
	if st.dead {
		return nil
	}
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return normal(st)
	case *ast.BlockStmt:
		return x.execBlock(st, fr, s.List)
	case *ast.ExprStmt:
		var out []Outcome
		for _, r := range x.eval(st, fr, s.X) {
			out = append(out, normal(r.st)...)
		}
		return out
	case *ast.AssignStmt:
		return x.execAssign(st, fr, s)
	case *ast.IncDecStmt:
		var out []Outcome
		for _, l := range x.evalLV(st, fr, s.X) {
			v := x.loadLV(l.st, l.lv, s)
			if s.Tok == token.INC {
				v.t = Add(v.t, one1(v.t))
			} else {
				v.t = Sub(v.t, one1(v.t))
			}
			x.storeLV(l.st, l.lv, v, s)
			out = append(out, normal(l.st)...)
		}
		return out
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return normal(st)
		}
		cur := []*State{st}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			var nx []*State
			for _, c := range cur {
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						o := fr.info.Defs[n]
						if o == nil || n.Name == "_" {
							continue
						}
						if _, ok := o.Type().Underlying().(*types.Signature); ok {
							x.declare(c, fr, o, Val{t: Int(0), typ: o.Type()})
							continue
						}
						x.declare(c, fr, o, Val{t: zeroOf(o.Type()), typ: o.Type()})
					}
					nx = append(nx, c)
					continue
				}
				if len(vs.Values) == 1 && len(vs.Names) > 1 {
					for _, r := range x.evalMulti(c, fr, vs.Values[0], len(vs.Names)) {
						for i, n := range vs.Names {
							if n.Name != "_" {
								x.declare(r.st, fr, fr.info.Defs[n], r.vs[i])
							}
						}
						nx = append(nx, r.st)
					}
					continue
				}
				for _, r := range x.evalList(c, fr, vs.Values) {
					for i, n := range vs.Names {
						if n.Name != "_" {
							x.declare(r.st, fr, fr.info.Defs[n], r.vs[i])
						}
					}
					nx = append(nx, r.st)
				}
			}
			cur = nx
		}
		var out []Outcome
		for _, c := range cur {
			out = append(out, normal(c)...)
		}
		return out
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			return []Outcome{{st: st, kind: oReturn}}
		}
		var out []Outcome
		if len(s.Results) == 1 && fr.sig.Results().Len() > 1 {
			for _, r := range x.eval(st, fr, s.Results[0]) {
				out = append(out, Outcome{st: r.st, kind: oReturn, vals: r.v.tup})
			}
			return out
		}
		for _, r := range x.evalList(st, fr, s.Results) {
			out = append(out, Outcome{st: r.st, kind: oReturn, vals: r.vs})
		}
		return out
	case *ast.IfStmt:
		return x.execIf(st, fr, s)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return []Outcome{{st: st, kind: oBreak, label: l}}
		case token.CONTINUE:
			return []Outcome{{st: st, kind: oContinue, label: l}}
		case token.FALLTHROUGH:
			return []Outcome{{st: st, kind: oFall}}
		}
		panic(unsupported{"goto"})
	case *ast.LabeledStmt:
		switch b := s.Stmt.(type) {
		case *ast.ForStmt:
			return x.execFor(st, fr, b, s.Label.Name)
		case *ast.RangeStmt:
			return x.execRange(st, fr, b, s.Label.Name)
		}
		var out []Outcome
		for _, o := range x.execStmt(st, fr, s.Stmt) {
			if o.kind == oBreak && o.label == s.Label.Name {
				o = Outcome{st: o.st, kind: oNormal}
			}
			out = append(out, o)
		}
		return out
	case *ast.ForStmt:
		return x.execFor(st, fr, s, "")
	case *ast.RangeStmt:
		return x.execRange(st, fr, s, "")
	case *ast.SwitchStmt:
		return x.execSwitch(st, fr, s)
	case *ast.TypeSwitchStmt:
		return x.execTypeSwitch(st, fr, s)
	case *ast.DeferStmt:
		var out []Outcome
		for _, f := range x.eval(st, fr, s.Call.Fun) {
			sig := x.typeOf(fr, s.Call.Fun).Underlying().(*types.Signature)
			for _, r := range x.evalArgs(f.st, fr, s.Call, sig) {
				f.v.typ = sig
				r.st.defers = append(r.st.defers, deferred{call: s.Call, fr: fr, args: r.vs, fun: f.v})
				out = append(out, normal(r.st)...)
			}
		}
		return out
	}
	panic(unsupported{fmt.Sprintf("statement %T", s)})
}

func one1(t *Term) *Term {
	if t.sort == "Real" {
		return ToReal(Int(1))
	}
	return Int(1)
}

// evalMulti evaluates a comma-ok or multi-value expression.
func (x *Exec) evalMulti(st *State, fr *Frame, e ast.Expr, n int) []SVs {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	var rs []SV
	switch u := e.(type) {
	case *ast.IndexExpr:
		rs = x.evalIndex(st, fr, u, true)
	case *ast.TypeAssertExpr:
		rs = x.evalAssert(st, fr, u, true)
	default:
		rs = x.eval(st, fr, e)
	}
	var out []SVs
	for _, r := range rs {
		if len(r.v.tup) != n {
			panic(unsupported{"multi-value expression"})
		}
		out = append(out, SVs{r.st, r.v.tup})
	}
	return out
}

func (x *Exec) assignTo(st *State, fr *Frame, lhs []ast.Expr, define bool, vs []Val, n ast.Node) []*State {
	// evaluate the places first
	cur := []struct {
		st  *State
		lvs []*LV
	}{{st, nil}}
	for i, l := range lhs {
		var nx []struct {
			st  *State
			lvs []*LV
		}
		for _, c := range cur {
			if id, ok := l.(*ast.Ident); ok {
				if id.Name == "_" {
					nx = append(nx, struct {
						st  *State
						lvs []*LV
					}{c.st, append(append([]*LV{}, c.lvs...), &LV{kind: lvBlank})})
					continue
				}
				if define && fr.info.Defs[id] != nil {
					nx = append(nx, struct {
						st  *State
						lvs []*LV
					}{c.st, append(append([]*LV{}, c.lvs...), nil)})
					continue
				}
			}
			for _, r := range x.evalLV(c.st, fr, l) {
				nx = append(nx, struct {
					st  *State
					lvs []*LV
				}{r.st, append(append([]*LV{}, c.lvs...), r.lv)})
			}
		}
		cur = nx
		_ = i
	}
	var out []*State
	for _, c := range cur {
		for i, lv := range c.lvs {
			if lv == nil {
				x.declare(c.st, fr, fr.info.Defs[lhs[i].(*ast.Ident)], vs[i])
			} else {
				x.storeLV(c.st, lv, vs[i], n)
			}
		}
		out = append(out, c.st)
	}
	return out
}

func (x *Exec) execAssign(st *State, fr *Frame, s *ast.AssignStmt) []Outcome {
	var out []Outcome
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.XOR_ASSIGN: token.XOR}[s.Tok]
		for _, l := range x.evalLV(st, fr, s.Lhs[0]) {
			for _, r := range x.eval(l.st, fr, s.Rhs[0]) {
				cur := x.loadLV(r.st, l.lv, s)
				v := x.binop(r.st, op, cur, r.v, cur.typ, s)
				v.typ = cur.typ
				x.storeLV(r.st, l.lv, v, s)
				out = append(out, normal(r.st)...)
			}
		}
		return out
	}
	var rs []SVs
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		rs = x.evalMulti(st, fr, s.Rhs[0], len(s.Lhs))
	} else {
		rs = x.evalList(st, fr, s.Rhs)
	}
	for _, r := range rs {
		for _, c := range x.assignTo(r.st, fr, s.Lhs, s.Tok == token.DEFINE, r.vs, s) {
			out = append(out, normal(c)...)
		}
	}
	return out
}

func (x *Exec) execIf(st *State, fr *Frame, s *ast.IfStmt) []Outcome {
	var out []Outcome
	pre := []*State{st}
	if s.Init != nil {
		pre = nil
		for _, o := range x.execStmt(st, fr, s.Init) {
			pre = append(pre, o.st)
		}
	}
	for _, p := range pre {
		for _, c := range x.eval(p, fr, s.Cond) {
			var os []Outcome
			a := c.st.clone()
			a.assume(c.v.t)
			if !a.dead {
				os = append(os, x.execBlock(a, fr, s.Body.List)...)
			}
			b := c.st
			b.assume(Not(c.v.t))
			if !b.dead {
				if s.Else != nil {
					os = append(os, x.execStmt(b, fr, s.Else)...)
				} else {
					os = append(os, Outcome{st: b, kind: oNormal})
				}
			}
			out = append(out, x.mergeOutcomes(os)...)
		}
	}
	return out
}

func (x *Exec) mergeOutcomes(os []Outcome) []Outcome {
	var norm []*State
	var out []Outcome
	for _, o := range os {
		if o.kind == oNormal {
			norm = append(norm, o.st)
		} else {
			out = append(out, o)
		}
	}
	for _, s := range x.mergeStates(norm) {
		out = append(out, Outcome{st: s, kind: oNormal})
	}
	return out
}

func (x *Exec) execSwitch(st *State, fr *Frame, s *ast.SwitchStmt) []Outcome {
	var out []Outcome
	pre := []*State{st}
	if s.Init != nil {
		pre = nil
		for _, o := range x.execStmt(st, fr, s.Init) {
			pre = append(pre, o.st)
		}
	}
	for _, p := range pre {
		tags := []SV{{p, Val{t: tTrue, typ: types.Typ[types.Bool]}}}
		if s.Tag != nil {
			tags = x.eval(p, fr, s.Tag)
		}
		for _, tg := range tags {
			os := x.switchCases(tg.st, fr, s.Body.List, tg.v, s.Tag != nil)
			for _, o := range x.mergeOutcomes(os) {
				if o.kind == oBreak && o.label == "" {
					o.kind = oNormal
				}
				out = append(out, o)
			}
		}
	}
	return out
}

func (x *Exec) switchCases(st *State, fr *Frame, list []ast.Stmt, tag Val, hasTag bool) []Outcome {
	var os []Outcome
	rest := []*State{st}
	var def *ast.CaseClause
	runBody := func(st *State, i int) {
		cc := list[i].(*ast.CaseClause)
		for _, o := range x.execBlock(st, fr, cc.Body) {
			if o.kind == oFall {
				nx := list[i+1].(*ast.CaseClause)
				os = append(os, x.execBlock(o.st, fr, nx.Body)...)
				continue
			}
			os = append(os, o)
		}
	}
	defI := -1
	for i, cs := range list {
		cc := cs.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			defI = i
			continue
		}
		for _, ce := range cc.List {
			var nr []*State
			for _, r := range rest {
				for _, v := range x.eval(r, fr, ce) {
					c := v.v.t
					if hasTag {
						c = x.binop(v.st, token.EQL, tag, v.v, types.Typ[types.Bool], ce).t
					}
					a := v.st.clone()
					a.assume(c)
					if !a.dead {
						runBody(a, i)
					}
					v.st.assume(Not(c))
					if !v.st.dead {
						nr = append(nr, v.st)
					}
				}
			}
			rest = nr
		}
	}
	for _, r := range rest {
		if def != nil {
			runBody(r, defI)
		} else {
			os = append(os, Outcome{st: r, kind: oNormal})
		}
	}
	return os
}

func (x *Exec) execTypeSwitch(st *State, fr *Frame, s *ast.TypeSwitchStmt) []Outcome {
	pre := []*State{st}
	if s.Init != nil {
		pre = nil
		for _, o := range x.execStmt(st, fr, s.Init) {
			pre = append(pre, o.st)
		}
	}
	var e ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		e = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		e = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	var out []Outcome
	for _, p := range pre {
		for _, r := range x.eval(p, fr, e) {
			var os []Outcome
			rest := r.st
			var def *ast.CaseClause
			body := func(st *State, cc *ast.CaseClause, v Val) {
				if o := fr.info.Implicits[cc]; o != nil {
					x.declare(st, fr, o, v)
				}
				os = append(os, x.execBlock(st, fr, cc.Body)...)
			}
			for _, cs := range s.Body.List {
				cc := cs.(*ast.CaseClause)
				if cc.List == nil {
					def = cc
					continue
				}
				for _, te := range cc.List {
					var c *Term
					v := r.v
					if id, ok := te.(*ast.Ident); ok && id.Name == "nil" {
						c = Eq(iTag(r.v.t), Int(0))
					} else {
						t := fr.info.Types[te].Type
						var av Val
						av, c = x.assertType(r.v, t)
						if len(cc.List) == 1 {
							v = av
						}
					}
					a := rest.clone()
					a.assume(c)
					if !a.dead {
						if v.t != r.v.t {
							x.loadFacts(a, v)
						}
						body(a, cc, v)
					}
					rest.assume(Not(c))
				}
			}
			if !rest.dead {
				if def != nil {
					body(rest, def, r.v)
				} else {
					os = append(os, Outcome{st: rest, kind: oNormal})
				}
			}
			for _, o := range x.mergeOutcomes(os) {
				if o.kind == oBreak && o.label == "" {
					o.kind = oNormal
				}
				out = append(out, o)
			}
		}
	}
	return out
}

// ---------- merging ----------

func (x *Exec) mergeStates(ss []*State) []*State {
	if x.noMerge {
		return ss
	}
	var live []*State
	for _, s := range ss {
		if !s.dead {
			live = append(live, s)
		}
	}
	ss = live
	for changed := true; changed && len(ss) > 1; {
		changed = false
	outer:
		for i := 0; i < len(ss); i++ {
			for j := i + 1; j < len(ss); j++ {
				if m := x.merge2(ss[i], ss[j]); m != nil {
					ss = append(append(append([]*State{}, ss[:i]...), m), append(append([]*State{}, ss[i+1:j]...), ss[j+1:]...)...)
					changed = true
					break outer
				}
			}
		}
	}
	return ss
}

func (x *Exec) mergeSVs(svs []SV) []SV {
	if len(svs) < 2 || x.noMerge {
		return svs
	}
	// attach the value as a pseudo variable
	tmp := &Var{name: "$ret"}
	var ss []*State
	for _, s := range svs {
		if s.v.tup != nil || s.v.clo != nil {
			return svs
		}
		if s.st.dead {
			continue
		}
		s.st.vars[tmp] = s.v
		ss = append(ss, s.st)
	}
	ss = x.mergeStates(ss)
	var out []SV
	for _, s := range ss {
		v := s.vars[tmp]
		delete(s.vars, tmp)
		out = append(out, SV{s, v})
	}
	return out
}

func (x *Exec) mergeHeapOK() bool { return x.ct != nil && x.ct.Opts["mergeheap"] }

// merge2 joins two states that split on a condition, if their difference can be expressed by conditional terms.
func (x *Exec) merge2(a, b *State) *State {
	anc := commonPC(a.pc, b.pc)
	ea, eb := pcSince(a.pc, anc), pcSince(b.pc, anc)
	if len(ea) == 0 || len(eb) == 0 || ea[0] != Not(eb[0]) {
		return nil
	}
	c := ea[0]
	if len(a.locks) != len(b.locks) || len(a.defers) != len(b.defers) {
		return nil
	}
	for k, m := range a.locks {
		if b.locks[k] != m {
			return nil
		}
	}
	for k, m := range a.nacq {
		if b.nacq[k] != m {
			return nil
		}
	}
	if len(a.nacq) != len(b.nacq) || a.conc != b.conc {
		return nil
	}
	for k := range a.heap {
		if _, ok := b.heap[k]; !ok {
			x.heapPeek(b, k)
		}
	}
	for k := range b.heap {
		if _, ok := a.heap[k]; !ok {
			x.heapPeek(a, k)
		}
	}
	for k, h := range a.heap {
		if b.heap[k] != h && !x.mergeHeapOK() && k != "next" {
			return nil
		}
	}
	// variables live in both
	vars := map[*Var]Val{}
	for v, va := range a.vars {
		vb, ok := b.vars[v]
		if !ok {
			continue // out of scope after the join
		}
		if va.t == vb.t && va.clo == vb.clo {
			vars[v] = va
			continue
		}
		if va.t == nil || vb.t == nil || va.t.sort != vb.t.sort {
			return nil
		}
		if x.mergeHeapOK() && (va.t == nilIface || vb.t == nilIface) {
			return nil // what a nil value stands for is decided by the code that follows
		}
		vars[v] = Val{t: Ite(c, va.t, vb.t), typ: va.typ}
	}
	n := &State{vars: vars, heap: map[string]*Term{}, pc: anc, locks: a.locks, lockT: a.lockT, nacq: a.nacq, conc: a.conc, defers: a.defers}
	for k, h := range a.heap {
		if b.heap[k] == h {
			n.heap[k] = h
		} else if k == "next" {
			nn := x.freshNext()
			n.heap[k] = nn
			defer func(h, h2 *Term) {
				n.assume(Le(h, nn))
				n.assume(Le(h2, nn))
			}(h, b.heap[k])
		} else {
			n.heap[k] = Ite(c, h, b.heap[k])
		}
	}
	inB := map[*Term]bool{}
	for _, t := range eb[1:] {
		inB[t] = true
	}
	for _, t := range ea[1:] {
		if inB[t] {
			n.assume(t)
			delete(inB, t)
		} else {
			n.assume(Imp(c, t))
		}
	}
	for _, t := range eb[1:] {
		if inB[t] {
			n.assume(Imp(Not(c), t))
		}
	}
	return n
}

func (x *Exec) heapPeek(st *State, k string) {
	if k == "next" {
		st.heap[k] = x.next0
		return
	}
	x.heapGet(st, k)
}

// ---------- loops ----------

type loopInfo struct {
	ord   int
	fr    *Frame
	node  ast.Stmt
	log   *writeLog
	body  *ast.BlockStmt
	frame *loopFrame
}

// loopFrame: writes inside the loop may only hit these objects or ones allocated since loop entry.
type loopFrame struct {
	next *Term
	keys map[string][]*Term // component -> allowed keys
	on   map[string]bool
	locs []Loc
}

func (x *Exec) loopOrd(fr *Frame, n ast.Stmt) int {
	k := loopKey{fr.id, n}
	if o, ok := x.loopIDs[k]; ok {
		return o
	}
	// the same loop of the same call site on another path keeps its ordinal
	k2 := x.siteKey(fr, n)
	if o, ok := x.loopSites[k2]; ok {
		x.loopIDs[k] = o
		return o
	}
	x.nloops++
	x.loopIDs[k] = x.nloops
	x.loopSites[k2] = x.nloops
	x.loopPos[x.nloops] = x.pos(n)
	return x.nloops
}

type loopKey struct {
	fr int
	n  ast.Stmt
}

func (x *Exec) siteKey(fr *Frame, n ast.Node) string {
	s := fmt.Sprintf("%d", n.Pos())
	for f := fr; f != nil; f = f.parent {
		if f.call != nil {
			s += fmt.Sprintf("<%d", f.call.Pos())
		}
	}
	return s
}

func (x *Exec) execFor(st *State, fr *Frame, s *ast.ForStmt, label string) []Outcome {
	pre := []*State{st}
	if s.Init != nil {
		pre = nil
		for _, o := range x.execStmt(st, fr, s.Init) {
			pre = append(pre, o.st)
		}
	}
	var out []Outcome
	for _, p := range pre {
		lp := &loop{node: s, body: s.Body, label: label}
		lp.indVar = x.inductionVar(fr, s)
		lp.cond = func(st *State) []SV {
			if s.Cond == nil {
				return one(st, Val{t: tTrue, typ: types.Typ[types.Bool]})
			}
			return x.eval(st, fr, s.Cond)
		}
		lp.post = func(st *State) []*State {
			if s.Post == nil {
				return []*State{st}
			}
			var r []*State
			for _, o := range x.execStmt(st, fr, s.Post) {
				r = append(r, o.st)
			}
			return r
		}
		out = append(out, x.runLoop(p, fr, lp)...)
	}
	return out
}

func (x *Exec) inductionVar(fr *Frame, s *ast.ForStmt) *Var {
	if a, ok := s.Init.(*ast.AssignStmt); ok && len(a.Lhs) >= 1 {
		if id, ok := a.Lhs[0].(*ast.Ident); ok {
			return x.lookupVar(fr, fr.info.ObjectOf(id))
		}
	}
	if inc, ok := s.Post.(*ast.IncDecStmt); ok {
		if id, ok := inc.X.(*ast.Ident); ok {
			return x.lookupVar(fr, fr.info.ObjectOf(id))
		}
	}
	return nil
}

type loop struct {
	node    ast.Stmt
	body    *ast.BlockStmt
	label   string
	cond    func(*State) []SV
	pre     func(*State) []*State // start of an iteration, after the condition (range variables)
	post    func(*State) []*State
	indVar  *Var
	fact    func(st *State) *Term // holds at every loop head by construction
	hidden  []*Var                // hidden state of range loops
	visited *Var
	aliases map[string]*Var
	isRange bool
	rangeK  types.Object
}

func (x *Exec) execRange(st *State, fr *Frame, s *ast.RangeStmt, label string) []Outcome {
	var out []Outcome
	t := x.typeOf(fr, s.X)
	for _, r := range x.eval(st, fr, s.X) {
		rv := r.v
		rv.typ = t
		lp := &loop{node: s, body: s.Body, label: label, isRange: true}
		setKV := func(st *State, kv *Val, vv *Val) []*State {
			var lhs []ast.Expr
			var vs []Val
			if s.Key != nil && kv != nil {
				lhs = append(lhs, s.Key)
				vs = append(vs, *kv)
			}
			if s.Value != nil && vv != nil {
				lhs = append(lhs, s.Value)
				vs = append(vs, *vv)
			}
			if len(lhs) == 0 {
				return []*State{st}
			}
			return x.assignTo(st, fr, lhs, s.Tok == token.DEFINE, vs, s)
		}
		if s.Key != nil {
			if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
				lp.rangeK = fr.info.ObjectOf(id)
			}
		}
		intT := types.Typ[types.Int]
		switch u := t.Underlying().(type) {
		case *types.Slice, *types.Array, *types.Basic:
			idx := &Var{fr: fr, name: "_i", typ: intT}
			x.setVar(r.st, idx, Val{t: Int(0), typ: intT})
			lp.hidden = []*Var{idx}
			lp.indVar = idx
			var n *Term
			if sortOf(t) == "Str" {
				x.rangeString(lp, idx, rv.t, setKV, s.Value != nil)
				break
			}
			switch {
			case sortOf(t) == "Slice":
				n = sLen(rv.t)
			case sortOf(t) == "Int":
				n = rv.t // range over an integer
			default:
				n = Int(u.(*types.Array).Len())
			}
			lp.fact = func(st *State) *Term { return Le(st.vars[idx].t, n) }
			if sortOf(t) == "Int" {
				lp.fact = nil
			}
			lp.cond = func(st *State) []SV {
				return one(st, Val{t: Lt(st.vars[idx].t, n), typ: types.Typ[types.Bool]})
			}
			lp.pre = func(st *State) []*State {
				i := st.vars[idx]
				if s.Value == nil {
					return setKV(st, &i, nil)
				}
				var v Val
				if sortOf(t) == "Slice" {
					v = x.loadElem(st, rv, i.t)
				} else {
					v = Val{t: Select(rv.t, i.t), typ: u.(*types.Array).Elem()}
				}
				return setKV(st, &i, &v)
			}
			lp.post = func(st *State) []*State {
				i := st.vars[idx]
				x.setVar(st, idx, Val{t: Add(i.t, Int(1)), typ: intT})
				return []*State{st}
			}
		case *types.Map:
			d, _, _ := compMap(t)
			ks := sortOf(u.Key())
			vis := &Var{fr: fr, name: "_visited", typ: nil}
			vsort := ArrS(ks, "Bool")
			r.st.vars[vis] = Val{t: ConstArr(vsort, tFalse)}
			cnt := &Var{fr: fr, name: "_i", typ: intT}
			x.setVar(r.st, cnt, Val{t: Int(0), typ: intT})
			x.logVar(vis)
			dom0 := Select(x.heapGet(r.st, d), rv.t)
			x.mapGuard(r.st, rv.t, t)
			lp.hidden = []*Var{cnt, vis}
			lp.visited = vis
			lp.indVar = cnt
			// more: is there an unvisited key?
			lp.cond = func(st *State) []SV {
				// dom0 is the key set at loop entry; bodies that change the key set are rejected below
				if Select(x.heapGet(st, d), rv.t) != dom0 {
					if x.quiet == 0 {
						x.oblige(st, "safety", "map keys unchanged while ranging over it", Eq(Select(x.heapGet(st, d), rv.t), dom0), s)
					}
				}
				k := BV("k", ks)
				more := Fresh("more", "Bool")
				V := st.vars[vis].t
				pick := Fresh("key", ks)
				st.assume(Imp(more, And(Select(dom0, pick), Not(Select(V, pick)))))
				st.assume(Imp(Not(more), Forall([]*Term{k}, Imp(Select(dom0, k), Select(V, k)), []*Term{Select(dom0, k)}, []*Term{Select(V, k)})))
				st.vars[x.pickVar(lp)] = Val{t: pick, typ: u.Key()}
				return one(st, Val{t: more, typ: types.Typ[types.Bool]})
			}
			lp.pre = func(st *State) []*State {
				k := st.vars[x.pickVar(lp)]
				if s.Value == nil {
					return setKV(st, &k, nil)
				}
				v, _ := x.mapGet(st, rv.t, t, k.t)
				return setKV(st, &k, &v)
			}
			lp.post = func(st *State) []*State {
				k := st.vars[x.pickVar(lp)]
				V := st.vars[vis]
				x.setVar(st, vis, Val{t: Store(V.t, k.t, tTrue)})
				i := st.vars[cnt]
				x.setVar(st, cnt, Val{t: Add(i.t, Int(1)), typ: intT})
				return []*State{st}
			}
		default:
			panic(unsupported{"range over " + t.String()})
		}
		out = append(out, x.runLoop(r.st, fr, lp)...)
	}
	return out
}

// rangeString steps through a text rune by rune: a byte below 128 is a rune of its own, any other rune takes up to
// four bytes from 128 on and is itself at least 128.
func (x *Exec) rangeString(lp *loop, idx *Var, s *Term, setKV func(*State, *Val, *Val) []*State, val bool) {
	intT := types.Typ[types.Int]
	n := strLen(s)
	wide := &Var{name: "$width", typ: intT}
	lp.fact = func(st *State) *Term { return Le(st.vars[idx].t, n) }
	lp.cond = func(st *State) []SV {
		return one(st, Val{t: Lt(st.vars[idx].t, n), typ: types.Typ[types.Bool]})
	}
	lp.pre = func(st *State) []*State {
		i := st.vars[idx]
		w, r := Fresh("width", "Int"), Fresh("rune", "Int")
		c := func(k int64) *Term { return App("charat", "Int", s, Add(i.t, Int(k))) }
		ascii := Lt(c(0), Int(128))
		st.assume(Le(Int(0), c(0)))
		st.assume(And(Le(Int(1), w), Le(w, Int(4)), Le(Add(i.t, w), n), Imp(ascii, And(Eq(w, Int(1)), Eq(r, c(0)))), Imp(Not(ascii), Le(Int(128), r))))
		for k := int64(1); k < 4; k++ {
			st.assume(Imp(Lt(Int(k), w), Le(Int(128), c(k))))
		}
		st.vars[wide] = Val{t: w, typ: intT}
		if !val {
			return setKV(st, &i, nil)
		}
		v := Val{t: r, typ: types.Typ[types.Int32]}
		return setKV(st, &i, &v)
	}
	lp.post = func(st *State) []*State {
		i := st.vars[idx]
		x.setVar(st, idx, Val{t: Add(i.t, st.vars[wide].t), typ: intT})
		return []*State{st}
	}
}

func (x *Exec) pickVar(lp *loop) *Var {
	if lp.aliases == nil {
		lp.aliases = map[string]*Var{}
	}
	v := lp.aliases["$pick"]
	if v == nil {
		v = &Var{name: "$pick"}
		lp.aliases["$pick"] = v
	}
	return v
}

// iterate runs one iteration from st (the condition included); it returns the states at the back edge and the exits.
func (x *Exec) iterate(st *State, fr *Frame, lp *loop) (back []*State, exits []Outcome) {
	for _, c := range lp.cond(st) {
		b := c.st.clone()
		b.assume(Not(c.v.t))
		if !b.dead {
			exits = append(exits, Outcome{st: b, kind: oNormal})
		}
		a := c.st
		a.assume(c.v.t)
		if a.dead {
			continue
		}
		starts := []*State{a}
		if lp.pre != nil {
			starts = lp.pre(a)
		}
		for _, s := range starts {
			for _, o := range x.execBlock(s, fr, lp.body.List) {
				switch {
				case o.kind == oNormal || o.kind == oContinue && (o.label == "" || o.label == lp.label):
					for _, p := range lp.post(o.st) {
						if !p.dead {
							back = append(back, p)
						}
					}
				case o.kind == oBreak && (o.label == "" || o.label == lp.label):
					exits = append(exits, Outcome{st: o.st, kind: oNormal})
				default:
					exits = append(exits, o)
				}
			}
		}
	}
	back = x.mergeStates(back)
	return
}

func (x *Exec) runLoop(st *State, fr *Frame, lp *loop) []Outcome {
	ord := x.loopOrd(fr, lp.node)
	x.loopIdx[ord] = lp.indVar
	if lp.rangeK != nil {
		x.loopNames[ord] = lp.rangeK.Name()
	} else if lp.indVar != nil && !lp.isRange {
		x.loopNames[ord] = lp.indVar.name
	}
	x.loopStack = append(x.loopStack, ord)
	defer func() { x.loopStack = x.loopStack[:len(x.loopStack)-1] }()
	x.loopVis[ord] = lp.visited
	var spec *LoopSpec
	if x.ct != nil {
		spec = x.ct.Loops[ord]
	}
	if x.allLoops && x.ct != nil {
		spec = x.unionLoops(ord, spec)
	}
	if spec == nil {
		spec = &LoopSpec{}
	}
	entry := st.clone()
	// what the loop may change
	ck := loopKey{fr.id, lp.node}
	log := x.loopLogs[ck]
	if log == nil {
		log = newWriteLog()
		x.loopLogs[ck] = log
	}
	nextEntry := x.next(st)
	locs := x.loopLocs(st, fr, lp, spec, entry)
	var grows []growVar
	for round := 0; ; round++ {
		if round > 8 {
			panic(unsupported{"loop analysis does not settle"})
		}
		s := st.clone()
		x.quiet++
		fresh := newWriteLog()
		x.logs = append(x.logs, fresh)
		startID := len(termList)
		x.havocLoop(s, log, nextEntry, startID, nil, locs)
		if lp.fact != nil {
			s.assume(lp.fact(s))
		}
		cand := x.sliceVars(st, s, log, x.loopKeys(log, st))
		x.quietRun(func() {
			b, _ := x.iterate(s, fr, lp)
			grows = x.growing(cand, b, nextEntry, startID)
		})
		x.logs = x.logs[:len(x.logs)-1]
		x.quiet--
		for v := range fresh.vars {
			if _, ok := st.vars[v]; !ok {
				delete(fresh.vars, v) // declared inside the loop
			}
		}
		if !mergeLog(log, fresh) {
			break
		}
	}
	for _, l := range x.logs {
		mergeLog(l, log)
	}
	keys := x.loopKeys(log, st)
	for _, g := range grows {
		k := compElem(g.typ().Underlying().(*types.Slice).Elem())
		if _, ok := log.comps[k]; ok {
			keys[k] = append(keys[k], sArr(x.growVal(st, g)))
		}
	}
	// invariants on entry
	ctx := func(s *State) *SpecCtx {
		return &SpecCtx{x: x, st: s, old: x.entry, env: x.entryEnv, ct: x.ct, fr: fr, locals: true, pos: lp.body.Pos() + 1, loop: lp, loopEntry: entry}
	}
	active := x.activeInvs(ord, spec)
	obl := func(s *State, c *Clause, what string) {
		g, err := x.trySpec(ctx(s), c)
		if err != "" {
			if x.houdini {
				x.dropCand(ord, c)
				return
			}
			x.obligeErr(s, "invariant", what+": "+c.Text+": "+err, lp.node)
			return
		}
		x.obligeInv(s, ord, c, fmt.Sprintf("loop %d invariant %s: %s", ord, what, c.Text), g, lp.node)
		s.assume(g) // later invariants may rely on earlier ones
		s.dead = false
	}
	es := st.clone()
	for _, c := range active {
		obl(es, c, "holds on entry")
	}
	h := st.clone()
	lf := x.havocLoop(h, log, nextEntry, -1, keys, locs)
	if lp.fact != nil {
		h.assume(lp.fact(h))
	}
	for _, g := range grows {
		// appended to only: the backing array is the one at loop entry or a newer one
		e, c := x.growVal(st, g), x.growVal(h, g)
		x.growOf[c] = e
		if g.exact {
			x.growExact[c] = true
			h.assume(Eq(sOff(c), sOff(e)))
			h.assume(Imp(Eq(sArr(c), sArr(e)), Eq(sCap(c), sCap(e))))
		}
		h.assume(Or(Eq(sArr(c), sArr(e)), Le(nextEntry, sArr(c))))
	}
	for _, c := range active {
		if g, err := x.trySpec(ctx(h), c); err == "" {
			h.assume(g)
		}
	}
	x.vacuity(h, fmt.Sprintf("loop %d body reachable", ord), lp.node)
	x.loopFrames = append(x.loopFrames, lf)
	back, exits := x.iterate(h, fr, lp)
	x.loopFrames = x.loopFrames[:len(x.loopFrames)-1]
	for _, b := range back {
		for _, c := range active {
			obl(b, c, "is preserved")
		}
	}
	for i := range exits {
		_ = i
	}
	return x.mergeOutcomes(exits)
}

type growVar struct {
	v     *Var // a variable, or
	comp  string
	key   *Term // a field of a fixed object
	t     *Term // value after the havoc
	exact bool
}

func (g growVar) typ() types.Type {
	if g.v != nil {
		return g.v.typ
	}
	return comps[g.comp].val
}

func (x *Exec) growVal(st *State, g growVar) *Term {
	if g.v != nil {
		return x.readVar(st, g.v).t
	}
	return Select(x.heapGet(st, g.comp), g.key)
}

// sliceVars lists the slice variables, and the slice fields of fixed objects, that the loop may assign.
func (x *Exec) sliceVars(st, s *State, log *writeLog, keys map[string][]*Term) (out []growVar) {
	defer func() {
		for _, k := range sortedKeys(log.comps) {
			ci := comps[k]
			if ci == nil || ci.kind != 'F' {
				continue
			}
			if _, ok := ci.val.Underlying().(*types.Slice); !ok {
				continue
			}
			for _, key := range keys[k] {
				g := growVar{comp: k, key: key}
				g.t = x.growVal(s, g)
				out = append(out, g)
			}
		}
	}()
	for v := range s.vars {
		if v.typ == nil || v.fr == nil {
			continue
		}
		if _, ok := v.typ.Underlying().(*types.Slice); !ok {
			continue
		}
		if _, ok := st.vars[v]; !ok {
			continue
		}
		if !log.vars[v] {
			if _, ok := log.comps[compCell(v.typ)]; !v.boxed || !ok {
				continue
			}
		}
		out = append(out, growVar{v: v, t: x.readVar(s, v).t})
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].v.name < out[j].v.name || out[i].v.name == out[j].v.name && out[i].v.seq() < out[j].v.seq()
	})
	return
}

// growing keeps the variables whose backing array after the body is the one before it or one allocated by the loop.
func (x *Exec) growing(cand []growVar, back []*State, nextEntry *Term, startID int) (out []growVar) {
	nb, noff := baseOff(nextEntry)
	for _, g := range cand {
		var ok func(t *Term) bool
		ok = func(t *Term) bool {
			if t == g.t {
				return true
			}
			if t.kind == kApp && t.op == "ite" {
				return ok(t.args[1]) && ok(t.args[2])
			}
			if t.kind == kApp && t.op == "mkslice" {
				return ok(t.args[0])
			}
			if t.kind == kApp && t.op == "sarr" {
				return ok(t.args[0])
			}
			if e := x.growOf[t]; e != nil {
				return ok(e)
			}
			if b, off := baseOff(t); t.sort == "Int" && b != nil {
				return b == nb && off >= noff || b.kind == kSym && x.nextSyms[b] && b.id >= startID
			}
			return false
		}
		// exact: the offset never changes, and neither does the capacity while the array stays
		var prev func(t *Term) bool
		prev = func(t *Term) bool { // a slice value as it was
			return t == g.t || x.growExact[t] && prev(x.growOf[t])
		}
		var offOK, exact func(t *Term) bool
		offOK = func(t *Term) bool {
			if t.kind == kApp && t.op == "ite" {
				return offOK(t.args[1]) && offOK(t.args[2])
			}
			return t == sOff(g.t) || t.kind == kApp && t.op == "soff" && exact(t.args[0])
		}
		var pair func(a, c *Term) bool
		pair = func(a, c *Term) bool {
			if a.kind == kApp && a.op == "ite" {
				if c.kind == kApp && c.op == "ite" && c.args[0] == a.args[0] {
					return pair(a.args[1], c.args[1]) && pair(a.args[2], c.args[2])
				}
				return pair(a.args[1], c) && pair(a.args[2], c)
			}
			if a.kind == kApp && a.op == "sarr" {
				return c == sCap(a.args[0]) && exact(a.args[0])
			}
			return true // a new array
		}
		exact = func(t *Term) bool {
			if prev(t) {
				return true
			}
			if t.kind == kApp && t.op == "ite" {
				return exact(t.args[1]) && exact(t.args[2])
			}
			if t.kind == kApp && t.op == "mkslice" {
				return offOK(t.args[1]) && pair(t.args[0], t.args[3])
			}
			return false
		}
		good := true
		g.exact = true
		for _, b := range back {
			good = good && ok(x.growVal(b, g))
			g.exact = g.exact && exact(x.growVal(b, g))
		}
		if good {
			out = append(out, g)
		}
	}
	return
}

func (x *Exec) quietRun(f func()) {
	f()
}

func mergeLog(dst, src *writeLog) bool {
	ch := false
	for v := range src.vars {
		if !dst.vars[v] {
			dst.vars[v] = true
			ch = true
		}
	}
	for k, m := range src.comps {
		d := dst.comps[k]
		if d == nil {
			d = map[*Term]bool{}
			dst.comps[k] = d
			ch = true
		}
		for t := range m {
			if !d[t] {
				d[t] = true
			}
		}
	}
	if src.alloc && !dst.alloc {
		dst.alloc = true
		ch = true
	}
	return ch
}

// loopKeys selects, per component, the loop-invariant keys written.
func (x *Exec) loopKeys(log *writeLog, st *State) map[string][]*Term {
	known := map[*Term]bool{}
	var mark func(t *Term)
	seen := map[*Term]bool{}
	mark = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == kSym {
			known[t] = true
		}
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, v := range st.vars {
		if v.t != nil {
			mark(v.t)
		}
	}
	for _, h := range st.heap {
		mark(h)
	}
	for p := st.pc; p != nil; p = p.parent {
		mark(p.t)
	}
	for _, h := range x.entryHeap {
		mark(h)
	}
	mark(x.next0)
	out := map[string][]*Term{}
	for k, m := range log.comps {
		var ks []*Term
		for t := range m {
			if t == nil {
				continue
			}
			s2, syms := map[*Term]bool{}, map[*Term]bool{}
			symsOf(t, s2, syms, map[string]bool{})
			ok := true
			for s := range syms {
				if !known[s] && !strings.HasPrefix(s.op, "lit$") {
					ok = false
				}
			}
			if ok {
				ks = append(ks, t)
			}
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		out[k] = ks
	}
	return out
}

func (x *Exec) loopLocs(st *State, fr *Frame, lp *loop, spec *LoopSpec, entry *State) []Loc {
	if len(spec.Havoc) == 0 {
		return nil
	}
	var cls []*Clause
	for _, h := range splitTop(strings.Join(spec.Havoc, " "), ',') {
		e, err := parseSpecExpr(h)
		if err != nil {
			panic(unsupported{"loop havoc " + h})
		}
		cls = append(cls, &Clause{Text: h, Expr: e})
	}
	c := &SpecCtx{x: x, st: st, old: x.entry, env: x.entryEnv, ct: x.ct, fr: fr, locals: true, pos: lp.body.Pos() + 1, loop: lp, loopEntry: entry}
	return c.locs(cls)
}

// havocLoop forgets everything the loop may change. In the final run (keys != nil) it keeps what is known to be untouched.
func (x *Exec) havocLoop(st *State, log *writeLog, nextEntry *Term, startID int, keys map[string][]*Term, locs []Loc) *loopFrame {
	lf := &loopFrame{next: nextEntry, keys: map[string][]*Term{}, on: map[string]bool{}, locs: locs}
	if log.alloc {
		n := x.freshNext()
		st.assume(Le(nextEntry, n))
		st.heap["next"] = n
	}
	next := x.next(st)
	var vs []*Var
	for v := range log.vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		return vs[i].name < vs[j].name || vs[i].name == vs[j].name && vs[i].seq() < vs[j].seq()
	})
	for _, v := range vs {
		cur, ok := st.vars[v]
		if !ok {
			continue // declared inside the loop
		}
		if cur.clo != nil || cur.t == nil {
			if cur.clo != nil {
				panic(unsupported{"function variable " + v.name + " assigned in a loop"})
			}
			continue
		}
		if v.boxed {
			// the cell itself is fixed; its contents are in the heap
			continue
		}
		n := Fresh(v.name, cur.t.sort)
		st.vars[v] = Val{t: n, typ: cur.typ}
		if v.typ != nil {
			st.assume(wf(n, v.typ, next))
		}
		if v.name == "_i" {
			st.assume(Le(Int(0), n))
		}
	}
	for _, k := range sortedKeys(log.comps) {
		ci := comps[k]
		if k == "next" || ci == nil {
			continue
		}
		h := x.heapGet(st, k)
		n := Fresh("lp$"+k, ci.sort)
		x.heapWF[n] = ci
		x.heapFacts[n] = x.compWF(n, ci, next)
		if ci.kind == 'G' || ci.kind == 0 {
			st.heap[k] = n
			continue
		}
		whole := log.comps[k][nil]
		if keys == nil || whole {
			st.heap[k] = n
			if !whole && keys != nil {
				x.frameFacts(st, k, n)
			}
			continue
		}
		st.heap[k] = n
		// frame: objects that existed at loop entry and are not written keep their contents
		lf.on[k] = true
		lf.keys[k] = keys[k]
		ks := "Int"
		if ci.kind == 'P' {
			ks = "Ptr"
		}
		r := BV("r", ks)
		base := r
		if ks == "Ptr" {
			base = pBase(r)
		}
		cond := []*Term{Lt(base, nextEntry)}
		for _, kk := range keys[k] {
			cond = append(cond, Not(Eq(r, kk)))
		}
		for _, l := range locs {
			if l.comp == k && l.key != nil {
				cond = append(cond, Not(Eq(r, l.key)))
			}
		}
		st.assume(Forall([]*Term{r}, Imp(And(cond...), Eq(Select(n, r), Select(h, r))), []*Term{Select(n, r)}))
		// windows: rows of keys keep the part outside what the function may modify
		if ci.kind == 'E' {
			seenKey := map[*Term]bool{}
			for _, kk := range keys[k] {
				if seenKey[kk] || x.isFreshRef(kk) {
					continue
				}
				seenKey[kk] = true
				x.windowFacts(st, k, kk, n, h, locs)
			}
			for _, l := range locs {
				if l.comp == k && l.key != nil && !seenKey[l.key] {
					seenKey[l.key] = true
					x.windowFacts(st, k, l.key, n, h, locs)
				}
			}
		}
	}
	return lf
}

var varSeq = map[*Var]int{}

func (v *Var) seq() int {
	if v.fr != nil {
		return v.fr.id*100000 + int(posOf(v))
	}
	return 0
}
func posOf(v *Var) token.Pos {
	if v.obj != nil {
		return v.obj.Pos() % 100000
	}
	return 0
}

func debugf(f string, a ...any) {
	if os.Getenv("GOCV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
