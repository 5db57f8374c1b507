package main

// Evaluation of Go expressions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

type SV struct {
	st *State
	v  Val
}
type SVs struct {
	st *State
	vs []Val
}

func (x *Exec) pos(n ast.Node) string {
	if n == nil || !n.Pos().IsValid() {
		return ""
	}
	p := x.prog.Fset.Position(n.Pos())
	f := p.Filename
	f = strings.TrimPrefix(f, x.prog.Dir+"/")
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (x *Exec) typeOf(fr *Frame, e ast.Expr) types.Type {
	if tv, ok := fr.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := fr.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	panic(unsupported{"no type for expression"})
}

func constVal(tv types.TypeAndValue, typ types.Type) (Val, bool) {
	if tv.Value == nil {
		return Val{}, false
	}
	t := typ
	switch tv.Value.Kind() {
	case constant.Bool:
		return Val{t: Bool(constant.BoolVal(tv.Value)), typ: t}, true
	case constant.String:
		return Val{t: strLit(constant.StringVal(tv.Value)), typ: t}, true
	case constant.Int, constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && (b.Info()&types.IsFloat != 0) {
			fv, _ := constant.Float64Val(tv.Value)
			r := new(big.Rat).SetFloat64(fv)
			if r == nil {
				return Val{}, false
			}
			return Val{t: RealLit(r), typ: t}, true
		}
		iv := constant.ToInt(tv.Value)
		if iv.Kind() == constant.Int {
			return Val{t: IntS(iv.ExactString()), typ: t}, true
		}
	}
	return Val{}, false
}

func one(st *State, v Val) []SV {
	if st.dead {
		return nil
	}
	return []SV{{st, v}}
}

func (x *Exec) evalList(st *State, fr *Frame, es []ast.Expr) []SVs {
	cur := []SVs{{st, nil}}
	for _, e := range es {
		var nx []SVs
		for _, c := range cur {
			for _, r := range x.eval(c.st, fr, e) {
				nx = append(nx, SVs{r.st, append(append([]Val{}, c.vs...), r.v)})
			}
		}
		cur = nx
	}
	return cur
}

func (x *Exec) lookupVar(fr *Frame, o types.Object) *Var {
	for f := fr; f != nil; f = f.lex {
		if v, ok := f.vars[o]; ok {
			return v
		}
	}
	return nil
}

func (x *Exec) globalVar(o *types.Var) *Var {
	v, ok := x.globals[o]
	if !ok {
		v = &Var{obj: o, name: o.Name(), typ: o.Type()}
		x.globals[o] = v
	}
	return v
}

func (x *Exec) readVar(st *State, v *Var) Val {
	val, ok := st.vars[v]
	if !ok {
		if v.fr == nil {
			// package level variable: arbitrary value
			val = Val{t: Sym("global$"+sanitize(globalName(v)), sortOf(v.typ)), typ: v.typ}
			st.vars[v] = val
			return val
		}
		panic(unsupported{"variable " + v.name + " read before it is set"})
	}
	if v.boxed {
		if isBoxedStruct(v.typ) {
			return Val{t: x.loadStruct(st, val.t, v.typ), typ: v.typ}
		}
		k := compCell(v.typ)
		return Val{t: Select(x.heapGet(st, k), val.t), typ: v.typ}
	}
	return val
}

func isBoxedStruct(t types.Type) bool {
	return structOf(t) != nil
}

func (x *Exec) writeVar(st *State, v *Var, val Val) {
	if v.boxed {
		p := st.vars[v]
		if isBoxedStruct(v.typ) {
			x.storeStruct(st, p.t, v.typ, val.t, nil)
			return
		}
		k := compCell(v.typ)
		x.heapSet(st, k, p.t, Store(x.heapGet(st, k), p.t, val.t))
		return
	}
	x.setVar(st, v, val)
}

// loadStruct reads a struct value out of a heap object.
func (x *Exec) loadStruct(st *State, ref *Term, t types.Type) *Term {
	s := structOf(t)
	srt := sortOf(t)
	var as []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isSyncLock(f.Type()) {
			as = append(as, Int(0))
			continue
		}
		as = append(as, x.loadField(st, ref, t, f).t)
	}
	return App("mk"+srt, srt, as...)
}

func (x *Exec) storeStruct(st *State, ref *Term, t types.Type, v *Term, n ast.Node) {
	s := structOf(t)
	srt := sortOf(t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isSyncLock(f.Type()) {
			continue
		}
		x.storeField(st, ref, t, f, Val{t: sel(srt+"."+f.Name(), sortOf(f.Type()), v), typ: f.Type()}, n)
	}
}

func (x *Exec) fieldKey(t types.Type, f *types.Var) string { return typeName(t) + "." + f.Name() }

// field access of the heap object ref of struct type t
func (x *Exec) loadField(st *State, ref *Term, t types.Type, f *types.Var) Val {
	key := x.fieldKey(t, f)
	if st2 := structOf(f.Type()); st2 != nil && !isSyncLock(f.Type()) {
		// embedded struct value: its own object, reached by an injective function of the outer one
		return Val{t: x.loadStruct(st, x.subObj(ref, key), f.Type()), typ: f.Type()}
	}
	x.guardCheck(st, key, ref)
	if id := x.prog.AddrTaken[key]; id > 0 {
		k := compCell(f.Type())
		v := Val{t: Select(x.heapGet(st, k), mkPtr(ref, Int(int64(id)))), typ: f.Type()}
		x.loadFacts(st, v)
		return v
	}
	if sortOf(f.Type()) == "Int" {
		if _, ok := f.Type().Underlying().(*types.Signature); ok {
			return Val{t: Select(x.heapGet(st, compField(key, f.Type())), ref), typ: f.Type()}
		}
	}
	v := Val{t: Select(x.heapGet(st, compField(key, f.Type())), ref), typ: f.Type()}
	x.loadFacts(st, v)
	return v
}

func (x *Exec) subObj(ref *Term, key string) *Term {
	n := "sub$" + sanitize(key)
	ufDecls[n] = "(declare-fun " + n + " (Int) Int)"
	return App(n, "Int", ref)
}

func (x *Exec) loadFacts(st *State, v Val) {
	if v.t.hasBV || v.t.kind == kLit {
		return
	}
	st.assume(wf(v.t, v.typ, x.next(st)))
}

func (x *Exec) storeField(st *State, ref *Term, t types.Type, f *types.Var, v Val, n ast.Node) {
	key := x.fieldKey(t, f)
	if st2 := structOf(f.Type()); st2 != nil && !isSyncLock(f.Type()) {
		x.storeStruct(st, x.subObj(ref, key), f.Type(), v.t, n)
		return
	}
	x.guardCheck(st, key, ref)
	if v.t == nil {
		v.t = Fresh("funcval", "Int")
	}
	if id := x.prog.AddrTaken[key]; id > 0 {
		k := compCell(f.Type())
		p := mkPtr(ref, Int(int64(id)))
		x.frameCheck(st, k, p, nil, n)
		x.heapSet(st, k, p, Store(x.heapGet(st, k), p, v.t))
		return
	}
	k := compField(key, f.Type())
	x.frameCheck(st, k, ref, nil, n)
	x.heapSet(st, k, ref, Store(x.heapGet(st, k), ref, v.t))
}

func (x *Exec) loadElem(st *State, s Val, idx *Term) Val {
	et := s.typ.Underlying().(*types.Slice).Elem()
	k := compElem(et)
	v := Val{t: Select(Select(x.heapGet(st, k), sArr(s.t)), absIdx(sOff(s.t), idx)), typ: et}
	x.loadFacts(st, v)
	return v
}

func absIdx(off, idx *Term) *Term {
	if idx.kind == kApp && idx.op == "-" && len(idx.args) == 2 && idx.args[1] == off {
		return idx.args[0]
	}
	if idx.kind == kApp && idx.op == "+" && len(idx.args) == 2 {
		if _, ok := isInt(idx.args[1]); ok {
			in := idx.args[0]
			if in.kind == kApp && in.op == "-" && len(in.args) == 2 && in.args[1] == off {
				return Add(in.args[0], idx.args[1])
			}
			// keep constants outermost
			return Add(Add(off, in), idx.args[1])
		}
	}
	return Add(off, idx)
}

func (x *Exec) storeElem(st *State, s Val, idx *Term, v Val, n ast.Node) {
	et := s.typ.Underlying().(*types.Slice).Elem()
	k := compElem(et)
	a := absIdx(sOff(s.t), idx)
	x.frameCheck(st, k, sArr(s.t), a, n)
	h := x.heapGet(st, k)
	if v.t == nil {
		v.t = Fresh("funcval", "Int")
	}
	x.heapSet(st, k, sArr(s.t), Store(h, sArr(s.t), Store(Select(h, sArr(s.t)), a, v.t)))
}

func (x *Exec) nonNil(st *State, ref *Term, n ast.Node) {
	if ref.sort == "Ptr" {
		ref = pBase(ref)
	}
	if x.isFreshRef(ref) {
		return
	}
	x.oblige(st, "safety", "no nil dereference", Not(Eq(ref, Int(0))), n)
}

// isFreshRef: the reference was produced by an allocation on this path.
func (x *Exec) isFreshRef(r *Term) bool {
	b, _ := baseOff(r)
	return b != nil && b.kind == kSym && x.nextSyms[b]
}

func (x *Exec) convertTo(v Val, t types.Type) Val {
	// implicit conversion at assignment
	if t == nil {
		return v
	}
	if types.IsInterface(t) && v.typ != nil && !types.IsInterface(v.typ) {
		return Val{t: toIface(v), typ: t}
	}
	if v.clo != nil {
		return Val{t: v.t, clo: v.clo, typ: t}
	}
	if b, ok := v.typ.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return Val{t: zeroOf(t), typ: t}
	}
	if v.t != nil && v.t.sort == "Int" && sortOf(t) == "Real" {
		return Val{t: ToReal(v.t), typ: t}
	}
	return Val{t: v.t, typ: t, tup: v.tup}
}

func (x *Exec) eval(st *State, fr *Frame, e ast.Expr) []SV {
	if st.dead {
		return nil
	}
	if tv, ok := fr.info.Types[e]; ok {
		if v, ok := constVal(tv, tv.Type); ok {
			return one(st, v)
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.eval(st, fr, e.X)
	case *ast.Ident:
		o := fr.info.ObjectOf(e)
		switch o := o.(type) {
		case *types.Nil:
			t := fr.info.Types[e].Type
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				return one(st, Val{t: Int(0), typ: t})
			}
			return one(st, Val{t: zeroOf(t), typ: t})
		case *types.Var:
			if v := x.lookupVar(fr, o); v != nil {
				return one(st, x.readVar(st, v))
			}
			if o.Parent() == o.Pkg().Scope() {
				return one(st, x.readVar(st, x.globalVar(o)))
			}
			panic(unsupported{"unknown variable " + e.Name})
		case *types.Func:
			return one(st, Val{clo: &Closure{fn: o}, typ: o.Type()})
		case *types.Const:
			if v, ok := constVal(types.TypeAndValue{Value: o.Val()}, o.Type()); ok {
				return one(st, v)
			}
		}
		panic(unsupported{"identifier " + e.Name})
	case *ast.BasicLit:
		panic(unsupported{"literal " + e.Value})
	case *ast.FuncLit:
		return one(st, Val{clo: &Closure{lit: e, fr: fr}, typ: x.typeOf(fr, e)})
	case *ast.UnaryExpr:
		return x.evalUnary(st, fr, e)
	case *ast.BinaryExpr:
		return x.evalBinary(st, fr, e)
	case *ast.StarExpr:
		var out []SV
		for _, r := range x.eval(st, fr, e.X) {
			x.nonNil(r.st, r.v.t, e)
			t := r.v.typ.Underlying().(*types.Pointer).Elem()
			if structOf(t) != nil {
				out = append(out, one(r.st, Val{t: x.loadStruct(r.st, r.v.t, t), typ: t})...)
				continue
			}
			v := Val{t: Select(x.heapGet(r.st, compCell(t)), r.v.t), typ: t}
			x.loadFacts(r.st, v)
			out = append(out, one(r.st, v)...)
		}
		return out
	case *ast.SelectorExpr:
		return x.evalSelector(st, fr, e)
	case *ast.IndexExpr:
		return x.evalIndex(st, fr, e, false)
	case *ast.SliceExpr:
		return x.evalSlice(st, fr, e)
	case *ast.CallExpr:
		return x.evalCall(st, fr, e)
	case *ast.CompositeLit:
		return x.evalComposite(st, fr, e, false)
	case *ast.TypeAssertExpr:
		return x.evalAssert(st, fr, e, false)
	case *ast.FuncType, *ast.ArrayType, *ast.MapType:
		panic(unsupported{"type expression as value"})
	}
	panic(unsupported{fmt.Sprintf("expression %T", e)})
}

func (x *Exec) evalUnary(st *State, fr *Frame, e *ast.UnaryExpr) []SV {
	if e.Op == token.AND {
		return x.evalAddr(st, fr, e.X)
	}
	var out []SV
	for _, r := range x.eval(st, fr, e.X) {
		v := r.v
		switch e.Op {
		case token.NOT:
			v.t = Not(v.t)
		case token.SUB:
			v.t = Neg(v.t)
		case token.ADD:
		default:
			panic(unsupported{"unary " + e.Op.String()})
		}
		out = append(out, one(r.st, v)...)
	}
	return out
}

func (x *Exec) evalAddr(st *State, fr *Frame, e ast.Expr) []SV {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.evalAddr(st, fr, e.X)
	case *ast.CompositeLit:
		return x.evalComposite(st, fr, e, true)
	case *ast.Ident:
		o := fr.info.ObjectOf(e)
		v := x.lookupVar(fr, o)
		if v == nil || !v.boxed {
			panic(unsupported{"address of " + e.Name})
		}
		return one(st, Val{t: st.vars[v].t, typ: types.NewPointer(v.typ)})
	case *ast.SelectorExpr:
		var out []SV
		for _, b := range x.evalSelBase(st, fr, e) {
			key := x.fieldKey(b.t, b.f)
			if structOf(b.f.Type()) != nil {
				if isSyncLock(b.f.Type()) {
					out = append(out, one(b.st, Val{t: x.subObj(b.ref, key), typ: types.NewPointer(b.f.Type())})...)
				} else {
					out = append(out, one(b.st, Val{t: x.subObj(b.ref, key), typ: types.NewPointer(b.f.Type())})...)
				}
				continue
			}
			id := x.prog.AddrTaken[key]
			out = append(out, one(b.st, Val{t: mkPtr(b.ref, Int(int64(id))), typ: types.NewPointer(b.f.Type())})...)
		}
		return out
	case *ast.IndexExpr:
		// address of a slice element: elements are cells of their own only through an opaque pointer
		panic(unsupported{"address of a slice element"})
	case *ast.StarExpr:
		return x.eval(st, fr, e.X)
	}
	panic(unsupported{fmt.Sprintf("address of %T", e)})
}

func (x *Exec) evalBinary(st *State, fr *Frame, e *ast.BinaryExpr) []SV {
	if e.Op == token.LAND || e.Op == token.LOR {
		var out []SV
		for _, l := range x.eval(st, fr, e.X) {
			cond := l.v.t
			if e.Op == token.LOR {
				cond = Not(cond)
			}
			// right side evaluated under cond
			if cond == tFalse {
				out = append(out, one(l.st, Val{t: Bool(e.Op == token.LOR), typ: l.v.typ})...)
				continue
			}
			rs := l.st.clone()
			rs.assume(cond)
			res := x.eval(rs, fr, e.Y)
			if len(res) == 1 && sameHeap(res[0].st, l.st) && sameVars(res[0].st, l.st) {
				// no effect: keep one path
				anc := l.st.pc
				for _, f := range pcSince(res[0].st.pc, anc) {
					if f != cond {
						l.st.assume(Imp(cond, f))
					}
				}
				var t *Term
				if e.Op == token.LAND {
					t = And(l.v.t, res[0].v.t)
				} else {
					t = Or(l.v.t, res[0].v.t)
				}
				out = append(out, one(l.st, Val{t: t, typ: l.v.typ})...)
				continue
			}
			out = append(out, res...)
			l.st.assume(Not(cond))
			out = append(out, one(l.st, Val{t: Bool(e.Op == token.LOR), typ: l.v.typ})...)
		}
		return out
	}
	var out []SV
	for _, r := range x.evalList(st, fr, []ast.Expr{e.X, e.Y}) {
		rt := x.typeOf(fr, e)
		v := x.binop(r.st, e.Op, r.vs[0], r.vs[1], rt, e)
		if bm := x.bitmapOp(r.st, fr, e, r.vs[0], r.vs[1]); bm != nil {
			v.t = bm
		}
		out = append(out, one(r.st, v)...)
	}
	return out
}

func sameHeap(a, b *State) bool {
	for k, v := range a.heap {
		if bv, ok := b.heap[k]; ok && bv != v {
			return false
		} else if !ok {
			// only an entry symbol may appear
			if v.kind != kSym {
				return false
			}
		}
	}
	return len(a.locks) == len(b.locks)
}
func sameVars(a, b *State) bool {
	for k, v := range a.vars {
		if bv, ok := b.vars[k]; ok && (bv.t != v.t || bv.clo != v.clo) {
			return false
		}
	}
	return len(a.defers) == len(b.defers)
}

func band(a, b *Term) *Term { return App("band", "Int", a, b) }
func bor(a, b *Term) *Term  { return App("bor", "Int", a, b) }
func shl(a, b *Term) *Term {
	if n, ok := isInt(a); ok && n == 1 {
		return App("pow2", "Int", b)
	}
	return Mul(a, App("pow2", "Int", b))
}

// bitmapOp normalises single bit tests on integers: x & (1<<j) compared to 0.
func (x *Exec) bitmapOp(st *State, fr *Frame, e *ast.BinaryExpr, l, r Val) *Term {
	if e.Op != token.NEQ && e.Op != token.EQL {
		return nil
	}
	a, z := l.t, r.t
	if n, ok := isInt(a); ok && n == 0 {
		a, z = z, a
	}
	if n, ok := isInt(z); !ok || n != 0 {
		return nil
	}
	if a.kind != kApp || a.op != "band" {
		return nil
	}
	p, q := a.args[0], a.args[1]
	if p.kind == kApp && p.op == "pow2" {
		p, q = q, p
	}
	if q.kind == kApp && q.op == "pow2" {
		b := App("bit", "Bool", p, q.args[0])
		if e.Op == token.EQL {
			return Not(b)
		}
		return b
	}
	return nil
}

func (x *Exec) binop(st *State, op token.Token, l, r Val, rt types.Type, n ast.Node) Val {
	a, b := l.t, r.t
	isCmp := op == token.EQL || op == token.NEQ || op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ
	if isCmp {
		if op == token.EQL || op == token.NEQ {
			var t *Term
			li, ri := l.typ != nil && types.IsInterface(l.typ), r.typ != nil && types.IsInterface(r.typ)
			ln, rn := isNilT(l.typ), isNilT(r.typ)
			switch {
			case l.clo != nil || r.clo != nil:
				// comparison of a function value with nil
				t = Bool(l.clo == nil && r.clo == nil)
			case rn && li:
				t = Eq(iTag(a), Int(0))
			case ln && ri:
				t = Eq(iTag(b), Int(0))
			case rn && a.sort == "Slice":
				t = Eq(sArr(a), Int(0))
			case ln && b.sort == "Slice":
				t = Eq(sArr(b), Int(0))
			case rn && a.sort == "Ptr":
				t = Eq(pBase(a), Int(0))
			case ln && b.sort == "Ptr":
				t = Eq(pBase(b), Int(0))
			case li && !ri && !rn:
				t = Eq(a, toIface(r))
			case ri && !li && !ln:
				t = Eq(toIface(l), b)
			default:
				t = Eq(a, b)
			}
			if op == token.NEQ {
				t = Not(t)
			}
			return Val{t: t, typ: types.Typ[types.Bool]}
		}
		if a.sort == "Str" {
			ufDecls["strlt"] = "(declare-fun strlt (Str Str) Bool)"
			var t *Term
			switch op {
			case token.LSS:
				t = App("strlt", "Bool", a, b)
			case token.GTR:
				t = App("strlt", "Bool", b, a)
			case token.LEQ:
				t = Not(App("strlt", "Bool", b, a))
			default:
				t = Not(App("strlt", "Bool", a, b))
			}
			return Val{t: t, typ: types.Typ[types.Bool]}
		}
		var t *Term
		switch op {
		case token.LSS:
			t = Lt(a, b)
		case token.LEQ:
			t = Le(a, b)
		case token.GTR:
			t = Lt(b, a)
		case token.GEQ:
			t = Le(b, a)
		}
		return Val{t: t, typ: types.Typ[types.Bool]}
	}
	real := rt != nil && isFloatT(rt)
	var t *Term
	switch op {
	case token.ADD:
		if a.sort == "Str" {
			t = strCat(a, b)
		} else {
			t = Add(a, b)
		}
	case token.SUB:
		t = Sub(a, b)
	case token.MUL:
		t = Mul(a, b)
	case token.QUO:
		if real || a.sort == "Real" || b.sort == "Real" {
			t = RDiv(a, b)
		} else {
			x.oblige(st, "safety", "no division by zero", Not(Eq(b, Int(0))), n)
			t = intDiv(a, b)
		}
	case token.REM:
		x.oblige(st, "safety", "no division by zero", Not(Eq(b, Int(0))), n)
		t = Sub(a, Mul(b, intDiv(a, b)))
	case token.AND:
		t = band(a, b)
	case token.OR:
		t = x.borOp(a, b)
	case token.SHL:
		t = shl(a, b)
	case token.SHR:
		t = App("shr", "Int", a, b)
	case token.XOR:
		t = App("bxor", "Int", a, b)
	case token.AND_NOT:
		t = App("bandnot", "Int", a, b)
	default:
		panic(unsupported{"operator " + op.String()})
	}
	if t.sort == "Int" && real {
		t = ToReal(t)
	}
	return Val{t: t, typ: rt}
}

// setting one bit has its own symbol
func (x *Exec) borOp(a, b *Term) *Term {
	if b.kind == kApp && b.op == "pow2" {
		return App("setbit", "Int", a, b.args[0])
	}
	if a.kind == kApp && a.op == "pow2" {
		return App("setbit", "Int", b, a.args[0])
	}
	return bor(a, b)
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func intDiv(a, b *Term) *Term {
	// Go truncates toward zero
	d := App("div", "Int", a, b)
	nd := Neg(App("div", "Int", Neg(a), b))
	if n, ok := isInt(b); ok && n > 0 {
		return Ite(Le(Int(0), a), d, nd)
	}
	return Ite(Le(Int(0), a), d, nd)
}

// strCat joins texts in a normal form: a chain of pieces joined from the left, neighbouring literals merged,
// choices outermost (as long as there are few of them).
func strCat(a, b *Term) *Term {
	if a == strLit("") {
		return b
	}
	if b == strLit("") {
		return a
	}
	if strChoices(a)*strChoices(b) <= 32 {
		if a.kind == kApp && a.op == "ite" {
			return Ite(a.args[0], strCat(a.args[1], b), strCat(a.args[2], b))
		}
		if b.kind == kApp && b.op == "ite" {
			return Ite(b.args[0], strCat(a, b.args[1]), strCat(a, b.args[2]))
		}
	}
	if b.kind == kApp && b.op == "scat" {
		return strCat(strCat(a, b.args[0]), b.args[1])
	}
	if vb, ok := litVals[b]; ok {
		if va, ok := litVals[a]; ok {
			return strLit(va + vb)
		}
		if a.kind == kApp && a.op == "scat" {
			if va, ok := litVals[a.args[1]]; ok {
				return App("scat", "Str", a.args[0], strLit(va+vb))
			}
		}
	}
	return App("scat", "Str", a, b)
}

func strChoices(t *Term) int {
	if t.kind == kApp && t.op == "ite" {
		return strChoices(t.args[1]) + strChoices(t.args[2])
	}
	return 1
}

// strLine cuts the line break off a text that surely ends with one (and only one).
func strLine(t *Term) (*Term, bool) {
	if t.kind == kApp && t.op == "ite" {
		a, ok := strLine(t.args[1])
		b, ok2 := strLine(t.args[2])
		return Ite(t.args[0], a, b), ok && ok2
	}
	if v, ok := litVals[t]; ok {
		if strings.HasSuffix(v, "\n") && strings.Count(v, "\n") == 1 {
			return strLit(v[:len(v)-1]), true
		}
		return t, false
	}
	if t.kind == kApp && t.op == "scat" {
		if _, ok := litVals[t.args[1]]; ok {
			l, ok := strLine(t.args[1])
			return strCat(t.args[0], l), ok
		}
	}
	return t, false
}

type selBase struct {
	st  *State
	ref *Term      // heap object
	val *Term      // or struct value (when the base is not addressable)
	t   types.Type // struct type of the base
	f   *types.Var
	lv  *LV
}

// evalSelBase walks the embedded path of a field selection up to the object holding the field.
func (x *Exec) evalSelBase(st *State, fr *Frame, e *ast.SelectorExpr) []selBase {
	s := fr.info.Selections[e]
	if s == nil {
		panic(unsupported{"qualified identifier " + e.Sel.Name})
	}
	var out []selBase
	for _, b := range x.evalStructBase(st, fr, e.X) {
		out = append(out, x.walkPath(b, s.Index(), e))
	}
	return out
}

// evalStructBase evaluates an expression of struct or pointer to struct type to an object reference when it can.
func (x *Exec) evalStructBase(st *State, fr *Frame, e ast.Expr) []selBase {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	t := x.typeOf(fr, e)
	if isStructPtr(t) {
		var out []selBase
		for _, r := range x.eval(st, fr, e) {
			out = append(out, selBase{st: r.st, ref: r.v.t, t: deref(t)})
		}
		return out
	}
	if structOf(t) == nil {
		panic(unsupported{"selection base of type " + t.String()})
	}
	switch u := e.(type) {
	case *ast.Ident:
		if v := x.lookupVar(fr, fr.info.ObjectOf(u)); v != nil {
			if v.boxed {
				return []selBase{{st: st, ref: st.vars[v].t, t: t}}
			}
			return []selBase{{st: st, val: x.readVar(st, v).t, t: t, lv: &LV{kind: lvVar, v: v, typ: t}}}
		}
	case *ast.StarExpr:
		var out []selBase
		for _, r := range x.eval(st, fr, u.X) {
			out = append(out, selBase{st: r.st, ref: r.v.t, t: t})
		}
		return out
	case *ast.SelectorExpr:
		if s := fr.info.Selections[u]; s != nil && s.Kind() == types.FieldVal {
			var out []selBase
			for _, b := range x.evalSelBase(st, fr, u) {
				if b.ref != nil {
					out = append(out, selBase{st: b.st, ref: x.subObj(b.ref, x.fieldKey(b.t, b.f)), t: t})
				} else {
					srt := sortOf(b.t)
					out = append(out, selBase{st: b.st, val: sel(srt+"."+b.f.Name(), sortOf(b.f.Type()), b.val), t: t, lv: b.lv.field(b.f, t)})
				}
			}
			return out
		}
	}
	var out []selBase
	for _, lvr := range x.evalLV(st, fr, e) {
		out = append(out, selBase{st: lvr.st, val: x.loadLV(lvr.st, lvr.lv, e).t, t: t, lv: lvr.lv})
	}
	return out
}

func (x *Exec) walkPath(b selBase, idx []int, n ast.Node) selBase {
	for i, k := range idx {
		s := structOf(b.t)
		f := s.Field(k)
		if b.ref != nil {
			x.nonNil(b.st, b.ref, n)
		}
		b.f = f
		if i == len(idx)-1 {
			return b
		}
		ft := f.Type()
		if b.ref != nil {
			if isStructPtr(ft) {
				b.ref = x.loadField(b.st, b.ref, b.t, f).t
				b.t = deref(ft)
			} else {
				b.ref = x.subObj(b.ref, x.fieldKey(b.t, f))
				b.t = ft
			}
			b.lv = nil
		} else {
			v := sel(sortOf(b.t)+"."+f.Name(), sortOf(ft), b.val)
			if isStructPtr(ft) {
				b.ref, b.val, b.lv = v, nil, nil
				b.t = deref(ft)
			} else {
				b.val = v
				b.lv = b.lv.field(f, ft)
				b.t = ft
			}
		}
	}
	return b
}

func (x *Exec) loadSel(b selBase) Val {
	if b.ref != nil {
		return x.loadField(b.st, b.ref, b.t, b.f)
	}
	v := Val{t: sel(sortOf(b.t)+"."+b.f.Name(), sortOf(b.f.Type()), b.val), typ: b.f.Type()}
	x.loadFacts(b.st, v)
	return v
}

func (x *Exec) evalSelector(st *State, fr *Frame, e *ast.SelectorExpr) []SV {
	s := fr.info.Selections[e]
	if s == nil { // package member
		o := fr.info.ObjectOf(e.Sel)
		switch o := o.(type) {
		case *types.Func:
			return one(st, Val{clo: &Closure{fn: o}, typ: o.Type()})
		case *types.Var:
			return one(st, x.readVar(st, x.globalVar(o)))
		}
		panic(unsupported{"qualified identifier " + e.Sel.Name})
	}
	switch s.Kind() {
	case types.FieldVal:
		var out []SV
		for _, b := range x.evalSelBase(st, fr, e) {
			out = append(out, one(b.st, x.loadSel(b))...)
		}
		return out
	case types.MethodVal:
		var out []SV
		for _, r := range x.evalRecv(st, fr, e) {
			rv := r.v
			out = append(out, one(r.st, Val{clo: &Closure{fn: s.Obj().(*types.Func), recv: &rv}, typ: s.Type()})...)
		}
		return out
	}
	panic(unsupported{"method expression"})
}

// evalRecv evaluates the receiver of a method selection, walking embedded fields and taking addresses as needed.
func (x *Exec) evalRecv(st *State, fr *Frame, e *ast.SelectorExpr) []SV {
	s := fr.info.Selections[e]
	m := s.Obj().(*types.Func)
	idx := s.Index()
	path := idx[:len(idx)-1]
	recvT := m.Type().(*types.Signature).Recv().Type()
	_, wantPtr := recvT.Underlying().(*types.Pointer)
	bt := x.typeOf(fr, e.X)
	if len(path) == 0 {
		if types.IsInterface(bt) || isStructPtr(bt) {
			var out []SV
			for _, r := range x.eval(st, fr, e.X) {
				if isStructPtr(bt) && !wantPtr {
					x.nonNil(r.st, r.v.t, e)
					out = append(out, one(r.st, Val{t: x.loadStruct(r.st, r.v.t, deref(bt)), typ: deref(bt)})...)
					continue
				}
				out = append(out, r)
			}
			return out
		}
		if wantPtr && structOf(bt) != nil {
			return x.evalAddr(st, fr, e.X)
		}
		if wantPtr {
			if _, isp := bt.Underlying().(*types.Pointer); !isp {
				return x.evalAddr(st, fr, e.X)
			}
		}
		return x.eval(st, fr, e.X)
	}
	var out []SV
	for _, b := range x.evalStructBase(st, fr, e.X) {
		b = x.walkPath(b, path, e)
		ft := b.f.Type()
		if types.IsInterface(ft) || isStructPtr(ft) {
			out = append(out, one(b.st, x.loadSel(b))...)
			continue
		}
		if wantPtr && b.ref != nil && structOf(ft) != nil {
			out = append(out, one(b.st, Val{t: x.subObj(b.ref, x.fieldKey(b.t, b.f)), typ: types.NewPointer(ft)})...)
			continue
		}
		if !wantPtr {
			out = append(out, one(b.st, x.loadSel(b))...)
			continue
		}
		panic(unsupported{"receiver of " + m.Name()})
	}
	return out
}

func (x *Exec) boundsCheck(st *State, idx, n *Term, node ast.Node) {
	x.oblige(st, "safety", "index in range", And(Le(Int(0), idx), Lt(idx, n)), node)
}

func (x *Exec) evalIndex(st *State, fr *Frame, e *ast.IndexExpr, commaOk bool) []SV {
	var out []SV
	bt := x.typeOf(fr, e.X)
	for _, r := range x.evalList(st, fr, []ast.Expr{e.X, e.Index}) {
		b, i := r.vs[0], r.vs[1]
		switch u := bt.Underlying().(type) {
		case *types.Slice:
			x.boundsCheck(r.st, i.t, sLen(b.t), e)
			b.typ = bt
			out = append(out, one(r.st, x.loadElem(r.st, b, i.t))...)
		case *types.Map:
			i = x.convertTo(i, u.Key())
			v, ok := x.mapGet(r.st, b.t, bt, i.t)
			if commaOk {
				out = append(out, one(r.st, Val{tup: []Val{v, {t: ok, typ: types.Typ[types.Bool]}}, typ: u.Elem()})...)
			} else {
				out = append(out, one(r.st, v)...)
			}
		case *types.Array:
			x.boundsCheck(r.st, i.t, Int(u.Len()), e)
			out = append(out, one(r.st, Val{t: Select(b.t, i.t), typ: u.Elem()})...)
		case *types.Basic:
			x.boundsCheck(r.st, i.t, strLen(b.t), e)
			out = append(out, one(r.st, Val{t: App("charat", "Int", b.t, i.t), typ: types.Typ[types.Byte]})...)
		default:
			panic(unsupported{"index of " + bt.String()})
		}
	}
	return out
}

func strLen(t *Term) *Term {
	if v, ok := litVals[t]; ok {
		return Int(int64(len(v)))
	}
	return App("strlen", "Int", t)
}

func (x *Exec) mapGet(st *State, ref *Term, mt types.Type, key *Term) (Val, *Term) {
	d, vk, _ := compMap(mt)
	m := mt.Underlying().(*types.Map)
	x.mapGuard(st, ref, mt)
	in := Select(Select(x.heapGet(st, d), ref), key)
	raw := Select(Select(x.heapGet(st, vk), ref), key)
	v := Val{t: Ite(in, raw, zeroOf(m.Elem())), typ: m.Elem()}
	if !raw.hasBV {
		st.assume(Imp(in, wf(raw, m.Elem(), x.next(st))))
	}
	return v, in
}

func (x *Exec) mapSet(st *State, ref *Term, mt types.Type, key *Term, v Val, n ast.Node) {
	d, vk, l := compMap(mt)
	x.nonNil(st, ref, n)
	x.mapGuard(st, ref, mt)
	x.frameCheck(st, d, ref, nil, n)
	dh, vh, lh := x.heapGet(st, d), x.heapGet(st, vk), x.heapGet(st, l)
	in := Select(Select(dh, ref), key)
	x.heapSet(st, l, ref, Store(lh, ref, Ite(in, Select(lh, ref), Add(Select(lh, ref), Int(1)))))
	x.heapSet(st, d, ref, Store(dh, ref, Store(Select(dh, ref), key, tTrue)))
	x.heapSet(st, vk, ref, Store(vh, ref, Store(Select(vh, ref), key, v.t)))
}

func (x *Exec) mapDelete(st *State, ref *Term, mt types.Type, key *Term, n ast.Node) {
	d, _, l := compMap(mt)
	x.mapGuard(st, ref, mt)
	x.frameCheck(st, d, ref, nil, n)
	dh, lh := x.heapGet(st, d), x.heapGet(st, l)
	in := Select(Select(dh, ref), key)
	x.heapSet(st, l, ref, Store(lh, ref, Ite(in, Sub(Select(lh, ref), Int(1)), Select(lh, ref))))
	x.heapSet(st, d, ref, Store(dh, ref, Store(Select(dh, ref), key, tFalse)))
}

func (x *Exec) evalSlice(st *State, fr *Frame, e *ast.SliceExpr) []SV {
	es := []ast.Expr{e.X}
	for _, i := range []ast.Expr{e.Low, e.High, e.Max} {
		if i != nil {
			es = append(es, i)
		}
	}
	bt := x.typeOf(fr, e.X)
	var out []SV
	for _, r := range x.evalList(st, fr, es) {
		vs := r.vs
		b := vs[0].t
		k := 1
		nx := func(e ast.Expr) *Term {
			if e == nil {
				return nil
			}
			k++
			return vs[k-1].t
		}
		lo, hi, mx := nx(e.Low), nx(e.High), nx(e.Max)
		if isStringT(bt) {
			if lo == nil {
				lo = Int(0)
			}
			if hi == nil {
				hi = strLen(b)
			}
			x.oblige(r.st, "safety", "slice bounds in range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, strLen(b))), e)
			out = append(out, one(r.st, Val{t: App("substr", "Str", b, lo, hi), typ: bt})...)
			continue
		}
		if _, ok := bt.Underlying().(*types.Slice); !ok {
			panic(unsupported{"slicing " + bt.String()})
		}
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = sLen(b)
		}
		cp := sCap(b)
		if mx != nil {
			x.oblige(r.st, "safety", "slice bounds in range", And(Le(hi, mx), Le(mx, cp)), e)
			cp = mx
		}
		// reslicing is checked against the length: nothing in this code base relies on hidden capacity,
		// and reading stale elements behind the length would be an error
		lim := sLen(b)
		if x.ct != nil && x.ct.Opts["capslice"] {
			lim = sCap(b)
		}
		x.oblige(r.st, "safety", "slice bounds in range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, lim)), e)
		t := mkSlice(sArr(b), Add(sOff(b), lo), Sub(hi, lo), Sub(cp, lo))
		out = append(out, one(r.st, Val{t: t, typ: bt})...)
	}
	return out
}

func (x *Exec) evalComposite(st *State, fr *Frame, e *ast.CompositeLit, addr bool) []SV {
	t := x.typeOf(fr, e)
	if p, ok := t.Underlying().(*types.Pointer); ok { // elided &T in nested literal
		t = p.Elem()
		addr = true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var fs []*types.Var
		var es []ast.Expr
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						fs = append(fs, u.Field(j))
					}
				}
				es = append(es, kv.Value)
			} else {
				fs = append(fs, u.Field(i))
				es = append(es, el)
			}
		}
		var out []SV
		for _, r := range x.evalList(st, fr, es) {
			if addr {
				ref := x.alloc(r.st)
				x.initObj(r.st, ref, t)
				for i, f := range fs {
					x.storeField(r.st, ref, t, f, x.convertTo(r.vs[i], f.Type()), e)
				}
				out = append(out, one(r.st, Val{t: ref, typ: types.NewPointer(t)})...)
				continue
			}
			srt := sortOf(t)
			var as []*Term
			for j := 0; j < u.NumFields(); j++ {
				v := zeroOf(u.Field(j).Type())
				for i, f := range fs {
					if f == u.Field(j) {
						cv := x.convertTo(r.vs[i], f.Type())
						v = cv.t
						if v == nil {
							v = Fresh("funcval", "Int")
						}
					}
				}
				as = append(as, v)
			}
			if len(as) == 0 {
				as = []*Term{Int(0)}
			}
			out = append(out, one(r.st, Val{t: App("mk"+srt, srt, as...), typ: t})...)
		}
		return out
	case *types.Slice:
		var es []ast.Expr
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsupported{"keyed slice literal"})
			}
			es = append(es, el)
		}
		var out []SV
		for _, r := range x.evalList(st, fr, es) {
			ref := x.alloc(r.st)
			k := compElem(u.Elem())
			row := ConstArr(ArrS("Int", sortOf(u.Elem())), zeroOf(u.Elem()))
			for i, v := range r.vs {
				row = Store(row, Int(int64(i)), x.convertTo(v, u.Elem()).t)
			}
			x.heapSet(r.st, k, ref, Store(x.heapGet(r.st, k), ref, row))
			n := Int(int64(len(es)))
			out = append(out, one(r.st, Val{t: mkSlice(ref, Int(0), n, n), typ: t})...)
		}
		return out
	case *types.Map:
		var es []ast.Expr
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			es = append(es, kv.Key, kv.Value)
		}
		var out []SV
		for _, r := range x.evalList(st, fr, es) {
			ref := x.newMap(r.st, t)
			for i := 0; i < len(r.vs); i += 2 {
				x.mapSet(r.st, ref, t, x.convertTo(r.vs[i], u.Key()).t, x.convertTo(r.vs[i+1], u.Elem()), e)
			}
			out = append(out, one(r.st, Val{t: ref, typ: t})...)
		}
		return out
	}
	panic(unsupported{"composite literal of " + t.String()})
}

// initObj zeroes a fresh object.
func (x *Exec) initObj(st *State, ref *Term, t types.Type) {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isSyncLock(f.Type()) {
			continue
		}
		x.storeField(st, ref, t, f, Val{t: zeroOf(f.Type()), typ: f.Type()}, nil)
	}
}

func (x *Exec) newMap(st *State, t types.Type) *Term {
	ref := x.alloc(st)
	d, v, l := compMap(t)
	m := t.Underlying().(*types.Map)
	ks := sortOf(m.Key())
	x.heapSet(st, d, ref, Store(x.heapGet(st, d), ref, ConstArr(ArrS(ks, "Bool"), tFalse)))
	x.heapSet(st, l, ref, Store(x.heapGet(st, l), ref, Int(0)))
	_ = v
	return ref
}

func (x *Exec) evalAssert(st *State, fr *Frame, e *ast.TypeAssertExpr, commaOk bool) []SV {
	t := x.typeOf(fr, e)
	if tup, ok := t.(*types.Tuple); ok {
		t = tup.At(0).Type()
	}
	if e.Type != nil {
		t = fr.info.Types[e.Type].Type
	}
	var out []SV
	for _, r := range x.eval(st, fr, e.X) {
		v, ok := x.assertType(r.v, t)
		if commaOk {
			v.t = iteZero(ok, v)
			out = append(out, one(r.st, Val{tup: []Val{v, {t: ok, typ: types.Typ[types.Bool]}}, typ: t})...)
			continue
		}
		x.oblige(r.st, "safety", "type assertion holds", ok, e)
		x.loadFacts(r.st, v)
		out = append(out, one(r.st, v)...)
	}
	return out
}

func iteZero(c *Term, v Val) *Term { return Ite(c, v.t, zeroOf(v.typ)) }

func (x *Exec) assertType(v Val, t types.Type) (Val, *Term) {
	if types.IsInterface(t) {
		// closed world: the known types that implement it
		ok := x.implements(v.t, t)
		return Val{t: v.t, typ: t}, ok
	}
	return fromIface(v.t, t), Eq(iTag(v.t), tagOf(t))
}

func (x *Exec) implements(v *Term, t types.Type) *Term {
	n := "implements$" + sanitize(compType(t))
	ufDecls[n] = "(declare-fun " + n + " (Int) Bool)"
	ifaceDecls[n] = t.Underlying().(*types.Interface)
	return App(n, "Bool", iTag(v))
}

func globalName(v *Var) string {
	if v.obj != nil && v.obj.Pkg() != nil {
		return v.obj.Pkg().Name() + "." + v.name
	}
	return v.name
}
