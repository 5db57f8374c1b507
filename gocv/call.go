package main

// Calls: contracts, inlining, builtins, externals, dispatch.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type lvKind int

const (
	lvVar lvKind = iota
	lvField
	lvElem
	lvCell
	lvMap
	lvSub
	lvBlank
	lvArr
)

type LV struct {
	kind lvKind
	v    *Var
	ref  *Term
	st   types.Type
	f    *types.Var
	s    Val
	idx  *Term
	base *LV
	typ  types.Type
	mt   types.Type
}

func (l *LV) field(f *types.Var, t types.Type) *LV {
	if l == nil {
		return nil
	}
	return &LV{kind: lvSub, base: l, f: f, typ: f.Type()}
}

type SLV struct {
	st *State
	lv *LV
}

func (x *Exec) evalLV(st *State, fr *Frame, e ast.Expr) []SLV {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.evalLV(st, fr, e.X)
	case *ast.Ident:
		if e.Name == "_" {
			return []SLV{{st, &LV{kind: lvBlank}}}
		}
		o := fr.info.ObjectOf(e)
		v := x.lookupVar(fr, o)
		if v == nil {
			if gv, ok := o.(*types.Var); ok && gv.Parent() == gv.Pkg().Scope() {
				v = x.globalVar(gv)
			} else {
				panic(unsupported{"assignment to unknown " + e.Name})
			}
		}
		return []SLV{{st, &LV{kind: lvVar, v: v, typ: v.typ}}}
	case *ast.StarExpr:
		var out []SLV
		for _, r := range x.eval(st, fr, e.X) {
			x.nonNil(r.st, r.v.t, e)
			t := r.v.typ.Underlying().(*types.Pointer).Elem()
			out = append(out, SLV{r.st, &LV{kind: lvCell, ref: r.v.t, typ: t}})
		}
		return out
	case *ast.SelectorExpr:
		if fr.info.Selections[e] == nil {
			if gv, ok := fr.info.ObjectOf(e.Sel).(*types.Var); ok {
				v := x.globalVar(gv)
				return []SLV{{st, &LV{kind: lvVar, v: v, typ: v.typ}}}
			}
		}
		var out []SLV
		for _, b := range x.evalSelBase(st, fr, e) {
			if b.ref != nil {
				out = append(out, SLV{b.st, &LV{kind: lvField, ref: b.ref, st: b.t, f: b.f, typ: b.f.Type()}})
			} else if b.lv != nil {
				out = append(out, SLV{b.st, b.lv.field(b.f, b.f.Type())})
			} else {
				panic(unsupported{"assignment to field of a value"})
			}
		}
		return out
	case *ast.IndexExpr:
		bt := x.typeOf(fr, e.X)
		var out []SLV
		if u, ok := bt.Underlying().(*types.Array); ok {
			for _, b := range x.evalLV(st, fr, e.X) {
				for _, i := range x.eval(b.st, fr, e.Index) {
					x.boundsCheck(i.st, i.v.t, Int(u.Len()), e)
					out = append(out, SLV{i.st, &LV{kind: lvArr, base: b.lv, idx: i.v.t, typ: u.Elem()}})
				}
			}
			return out
		}
		for _, r := range x.evalList(st, fr, []ast.Expr{e.X, e.Index}) {
			switch u := bt.Underlying().(type) {
			case *types.Slice:
				x.boundsCheck(r.st, r.vs[1].t, sLen(r.vs[0].t), e)
				s := r.vs[0]
				s.typ = bt
				out = append(out, SLV{r.st, &LV{kind: lvElem, s: s, idx: r.vs[1].t, typ: u.Elem()}})
			case *types.Map:
				out = append(out, SLV{r.st, &LV{kind: lvMap, ref: r.vs[0].t, mt: bt, idx: x.convertTo(r.vs[1], u.Key()).t, typ: u.Elem()}})
			default:
				panic(unsupported{"index assignment to " + bt.String()})
			}
		}
		return out
	}
	panic(unsupported{fmt.Sprintf("assignment to %T", e)})
}

func (x *Exec) loadLV(st *State, l *LV, n ast.Node) Val {
	switch l.kind {
	case lvVar:
		return x.readVar(st, l.v)
	case lvField:
		return x.loadField(st, l.ref, l.st, l.f)
	case lvElem:
		return x.loadElem(st, l.s, l.idx)
	case lvCell:
		if structOf(l.typ) != nil {
			return Val{t: x.loadStruct(st, l.ref, l.typ), typ: l.typ}
		}
		v := Val{t: Select(x.heapGet(st, compCell(l.typ)), l.ref), typ: l.typ}
		x.loadFacts(st, v)
		return v
	case lvMap:
		v, _ := x.mapGet(st, l.ref, l.mt, l.idx)
		return v
	case lvSub:
		b := x.loadLV(st, l.base, n)
		return Val{t: sel(sortOf(b.typ)+"."+l.f.Name(), sortOf(l.f.Type()), b.t), typ: l.f.Type()}
	case lvArr:
		b := x.loadLV(st, l.base, n)
		return Val{t: Select(b.t, l.idx), typ: l.typ}
	}
	panic(unsupported{"load"})
}

func (x *Exec) storeLV(st *State, l *LV, v Val, n ast.Node) {
	if l.kind == lvBlank {
		return
	}
	v = x.convertTo(v, l.typ)
	switch l.kind {
	case lvVar:
		x.writeVar(st, l.v, v)
	case lvField:
		x.storeField(st, l.ref, l.st, l.f, v, n)
	case lvElem:
		x.storeElem(st, l.s, l.idx, v, n)
	case lvCell:
		if structOf(l.typ) != nil {
			x.storeStruct(st, l.ref, l.typ, v.t, n)
			return
		}
		k := compCell(l.typ)
		x.frameCheck(st, k, l.ref, nil, n)
		x.heapSet(st, k, l.ref, Store(x.heapGet(st, k), l.ref, v.t))
	case lvMap:
		x.mapSet(st, l.ref, l.mt, l.idx, v, n)
	case lvSub:
		b := x.loadLV(st, l.base, n)
		srt := sortOf(b.typ)
		s := structOf(b.typ)
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Name() == l.f.Name() {
				as = append(as, v.t)
			} else {
				as = append(as, sel(srt+"."+f.Name(), sortOf(f.Type()), b.t))
			}
		}
		x.storeLV(st, l.base, Val{t: App("mk"+srt, srt, as...), typ: b.typ}, n)
	case lvArr:
		b := x.loadLV(st, l.base, n)
		x.storeLV(st, l.base, Val{t: Store(b.t, l.idx, v.t), typ: b.typ}, n)
	}
}

// ---------- calls ----------

func (x *Exec) evalCall(st *State, fr *Frame, e *ast.CallExpr) []SV {
	fun := e.Fun
	for {
		if p, ok := fun.(*ast.ParenExpr); ok {
			fun = p.X
			continue
		}
		break
	}
	if tv, ok := fr.info.Types[fun]; ok && tv.IsType() {
		return x.evalConversion(st, fr, e, tv.Type)
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := fr.info.ObjectOf(id).(*types.Builtin); ok {
			return x.evalBuiltin(st, fr, e, b.Name())
		}
	}
	if s, ok := fun.(*ast.SelectorExpr); ok {
		if b, ok := fr.info.ObjectOf(s.Sel).(*types.Builtin); ok {
			return x.evalBuiltin(st, fr, e, b.Name())
		}
	}
	var out []SV
	for _, f := range x.eval(st, fr, fun) {
		if f.v.clo == nil {
			if f.v.t == nil || f.v.t == Int(0) {
				// the zero function value: calling it panics
				x.oblige(f.st, "safety", "no call of a nil function", tFalse, e)
				continue
			}
			panic(unsupported{"call of a function value"})
		}
		sig := x.typeOf(fr, fun).Underlying().(*types.Signature)
		for _, r := range x.evalArgs(f.st, fr, e, sig) {
			out = append(out, x.callClosure(r.st, fr, f.v.clo, r.vs, sig, e)...)
		}
	}
	return out
}

func (x *Exec) evalArgs(st *State, fr *Frame, e *ast.CallExpr, sig *types.Signature) []SVs {
	var out []SVs
	np := sig.Params().Len()
	// f(g()) with multiple results
	if len(e.Args) == 1 && np > 1 {
		for _, r := range x.eval(st, fr, e.Args[0]) {
			if r.v.tup != nil {
				var vs []Val
				for i, v := range r.v.tup {
					vs = append(vs, x.convertTo(v, sig.Params().At(i).Type()))
				}
				out = append(out, SVs{r.st, vs})
			} else {
				out = append(out, SVs{r.st, []Val{r.v}})
			}
		}
		return out
	}
	for _, r := range x.evalList(st, fr, e.Args) {
		var vs []Val
		for i, v := range r.vs {
			if sig.Variadic() && i >= np-1 {
				if e.Ellipsis.IsValid() {
					vs = append(vs, x.convertTo(v, sig.Params().At(np-1).Type()))
				} else {
					vs = append(vs, v) // left unpacked
				}
				continue
			}
			vs = append(vs, x.convertTo(v, sig.Params().At(i).Type()))
		}
		out = append(out, SVs{r.st, vs})
	}
	return out
}

func (x *Exec) callClosure(st *State, fr *Frame, c *Closure, args []Val, sig *types.Signature, e *ast.CallExpr) []SV {
	if c.lit != nil {
		if ct := x.litContract(c); ct != nil {
			return x.callContract(st, fr, ct, c.fr.info.Types[c.lit].Type.(*types.Signature), nil, append(append([]Val{}, args...), Val{clo: c}), e)
		}
		return x.inlineLit(st, c, args, sig, e, fr)
	}
	return x.callFunc(st, fr, c.fn, c.recv, args, e)
}

func funcKey(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	p := ""
	if fn.Pkg() != nil && fn.Pkg().Path() != modPath {
		p = fn.Pkg().Name() + "."
	}
	if r := sig.Recv(); r != nil {
		t := deref(r.Type())
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return p + n.Obj().Name() + "." + fn.Name()
		}
		return p + "?." + fn.Name()
	}
	return p + fn.Name()
}

func (x *Exec) callFunc(st *State, fr *Frame, fn *types.Func, recv *Val, args []Val, e *ast.CallExpr) []SV {
	key := funcKey(fn)
	if fn.Pkg() != nil && fn.Pkg().Path() == "sync" {
		return x.callSync(st, fn, recv, e)
	}
	if recv != nil && recv.typ != nil && types.IsInterface(recv.typ) {
		return x.callIface(st, fr, fn, *recv, args, e)
	}
	if fi := x.prog.ByObj[fn]; fi != nil {
		if x.conc() {
			return x.inlineFunc(st, fi, recv, args, e, fr)
		}
		if ct := x.spec.Contracts[x.specialKey(key, args)]; ct != nil {
			return x.callContract(st, fr, ct, fi.Obj.Type().(*types.Signature), recv, args, e)
		}
		if ct := x.spec.Contracts[key]; ct != nil && !ct.Inline && !hasClosureArg(args) {
			return x.callContract(st, fr, ct, fi.Obj.Type().(*types.Signature), recv, args, e)
		}
		return x.inlineFunc(st, fi, recv, args, e, fr)
	}
	return x.callExtern(st, fr, fn, key, recv, args, e)
}

// specialKey: a contract X@Y describes X called with the function literal that Y passes to it.
func (x *Exec) specialKey(key string, args []Val) string {
	if i := strings.IndexByte(x.ct.Key, '@'); i >= 0 {
		return key + x.ct.Key[i:]
	}
	return key + "@" + x.fi.Key
}

func hasClosureArg(args []Val) bool {
	for _, a := range args {
		if a.clo != nil && a.clo.lit != nil {
			return true
		}
	}
	return false
}

func (x *Exec) callIface(st *State, fr *Frame, fn *types.Func, recv Val, args []Val, e *ast.CallExpr) []SV {
	x.oblige(st, "safety", "no nil dereference", Not(Eq(iTag(recv.t), Int(0))), e)
	tag := iTag(recv.t)
	if n, ok := isInt(tag); ok && n != 0 {
		if n < 0 {
			n = -n
		}
		return x.callConcrete(st, fr, fn, tagTypes[n-1], recv, args, e)
	}
	name := typeName(recv.typ)
	if ct := x.spec.Contracts[name+"."+fn.Name()+"@"+x.fi.Key]; ct != nil {
		return x.callContract(st, fr, ct, fn.Type().(*types.Signature), &recv, args, e)
	}
	if cs, ok := x.spec.Dispatch[name]; ok && x.spec.Contracts[name+"."+fn.Name()] == nil {
		var out []SV
		rest := st
		for _, cn := range cs {
			ct := x.namedType(cn)
			if ct == nil {
				panic(unsupported{"dispatch type " + cn})
			}
			s2 := rest.clone()
			s2.assume(Eq(tag, tagOf(ct)))
			if !s2.dead {
				out = append(out, x.callConcrete(s2, fr, fn, ct, recv, args, e)...)
			}
			rest.assume(Not(Eq(tag, tagOf(ct))))
		}
		if !rest.dead {
			x.oblige(rest, "safety", "dynamic type is one of the known implementations", tFalse, e)
		}
		return x.mergeSVs(out)
	}
	keys := []string{name + "." + fn.Name(), funcKey(fn)}
	for _, k := range keys {
		if ct := x.spec.Contracts[k+"@"+x.fi.Key]; ct != nil {
			return x.callContract(st, fr, ct, fn.Type().(*types.Signature), &recv, args, e)
		}
		if ct := x.spec.Contracts[k]; ct != nil {
			return x.callContract(st, fr, ct, fn.Type().(*types.Signature), &recv, args, e)
		}
	}
	panic(unsupported{"interface method " + keys[0] + " has no contract"})
}

func (x *Exec) namedType(n string) types.Type {
	ptr := strings.HasPrefix(n, "*")
	n = strings.TrimPrefix(n, "*")
	o := x.fi.Pkg.Types.Scope().Lookup(n)
	if o == nil {
		if pk := x.prog.Pkgs[modPath]; pk != nil {
			o = pk.Types.Scope().Lookup(n)
		}
	}
	if o == nil {
		return nil
	}
	if ptr {
		return types.NewPointer(o.Type())
	}
	return o.Type()
}

func (x *Exec) callConcrete(st *State, fr *Frame, fn *types.Func, t types.Type, recv Val, args []Val, e *ast.CallExpr) []SV {
	ms := types.NewMethodSet(t)
	s := ms.Lookup(fn.Pkg(), fn.Name())
	if s == nil {
		panic(unsupported{"method " + fn.Name() + " of " + t.String()})
	}
	m := s.Obj().(*types.Func)
	r := fromIface(recv.t, t)
	x.loadFacts(st, r)
	// promoted methods: walk the embedded path
	idx := s.Index()
	if len(idx) > 1 {
		b := selBase{st: st, t: deref(t)}
		if isStructPtr(t) {
			b.ref = r.t
		} else {
			b.val = r.t
		}
		b = x.walkPath(b, idx[:len(idx)-1], e)
		r = x.loadSel(b)
	}
	return x.callFunc(st, fr, m, &r, args, e)
}

// ---------- inlining ----------

const maxDepth = 12

func (x *Exec) newFrame(info *types.Info, pkg *types.Package, sig *types.Signature, parent *Frame) *Frame {
	x.nframes++
	fr := &Frame{id: x.nframes, info: info, pkg: pkg, parent: parent, vars: map[types.Object]*Var{}, sig: sig, addr: map[types.Object]bool{}}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	return fr
}

func (x *Exec) declare(st *State, fr *Frame, o types.Object, v Val) *Var {
	vr := &Var{fr: fr, obj: o, name: o.Name(), typ: o.Type()}
	if old, ok := fr.vars[o]; ok && old.boxed == (fr.addr[o]) {
		vr = old
	}
	v = x.convertTo(v, o.Type())
	if fr.addr[o] {
		vr.boxed = true
		fr.vars[o] = vr
		ref := x.alloc(st)
		if isBoxedStruct(vr.typ) {
			x.setVar(st, vr, Val{t: ref, typ: types.NewPointer(vr.typ)})
			x.storeStruct(st, ref, vr.typ, v.t, nil)
		} else {
			p := mkPtr(ref, Int(0))
			x.setVar(st, vr, Val{t: p, typ: types.NewPointer(vr.typ)})
			k := compCell(vr.typ)
			x.heapSet(st, k, p, Store(x.heapGet(st, k), p, v.t))
		}
		return vr
	}
	fr.vars[o] = vr
	x.setVar(st, vr, v)
	return vr
}

// addrTaken collects the local variables whose address is taken (explicitly or by a pointer method call).
func addrTaken(info *types.Info, body ast.Node) map[types.Object]bool {
	out := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		for {
			switch u := e.(type) {
			case *ast.ParenExpr:
				e = u.X
				continue
			case *ast.SelectorExpr:
				// &v.f: v must live in memory if it is a struct value
				if s := info.Selections[u]; s != nil && structOf(info.Types[u.X].Type) != nil {
					e = u.X
					continue
				}
				return
			case *ast.IndexExpr:
				if _, ok := info.Types[u.X].Type.Underlying().(*types.Array); ok {
					e = u.X
					continue
				}
				return
			case *ast.Ident:
				if v, ok := info.ObjectOf(u).(*types.Var); ok {
					out[v] = true
				}
				return
			}
			return
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.UnaryExpr:
			if u.Op == token.AND {
				mark(u.X)
			}
		case *ast.SelectorExpr:
			if s := info.Selections[u]; s != nil && s.Kind() == types.MethodVal {
				sig := s.Obj().Type().(*types.Signature)
				_, ptr := sig.Recv().Type().Underlying().(*types.Pointer)
				if ptr && !isStructPtr(info.Types[u.X].Type) && !types.IsInterface(info.Types[u.X].Type) {
					if _, isp := info.Types[u.X].Type.Underlying().(*types.Pointer); !isp {
						// only when the receiver itself is the addressed value (no pointer on the path)
						if len(s.Index()) == 1 {
							mark(u.X)
						} else if structOf(info.Types[u.X].Type) != nil {
							t := info.Types[u.X].Type
							direct := true
							for _, k := range s.Index()[:len(s.Index())-1] {
								f := structOf(deref(t)).Field(k)
								t = f.Type()
								if isStructPtr(t) || types.IsInterface(t) {
									direct = false
									break
								}
							}
							if direct {
								mark(u.X)
							}
						}
					}
				}
			}
		}
		return true
	})
	assignedInLits(info, body, out)
	return out
}

func (x *Exec) inlineFunc(st *State, fi *FuncInfo, recv *Val, args []Val, e *ast.CallExpr, caller *Frame) []SV {
	if caller.depth > maxDepth {
		panic(unsupported{"recursion without a contract: " + fi.Key})
	}
	x.inlined[fi.Key] = true
	sig := fi.Obj.Type().(*types.Signature)
	fr := x.newFrame(fi.Pkg.Info, fi.Pkg.Types, sig, caller)
	fr.fi = fi
	fr.body = fi.Decl.Body
	fr.call = e
	fr.addr = addrTaken(fi.Pkg.Info, fi.Decl.Body)
	if sig.Recv() != nil && recv != nil {
		x.declare(st, fr, sig.Recv(), *recv)
	}
	x.bindParams(st, fr, sig, args, e)
	return x.runInlined(st, fr, fi.Decl.Body, sig)
}

// packVariadic puts the arguments of a variadic parameter into a new slice.
func (x *Exec) packVariadic(st *State, typ types.Type, args []Val) Val {
	et := typ.(*types.Slice).Elem()
	ref := x.alloc(st)
	row := ConstArr(ArrS("Int", sortOf(et)), zeroOf(et))
	for j, v := range args {
		row = Store(row, Int(int64(j)), x.convertTo(v, et).t)
	}
	k := compElem(et)
	x.heapSet(st, k, ref, Store(x.heapGet(st, k), ref, row))
	n := Int(int64(len(args)))
	return Val{t: mkSlice(ref, Int(0), n, n), typ: typ}
}

func (x *Exec) bindParams(st *State, fr *Frame, sig *types.Signature, args []Val, e *ast.CallExpr) {
	np := sig.Params().Len()
	for i := 0; i < np; i++ {
		p := sig.Params().At(i)
		if sig.Variadic() && i == np-1 && (e == nil || !e.Ellipsis.IsValid()) {
			x.declare(st, fr, p, x.packVariadic(st, p.Type(), args[min(i, len(args)):]))
			break
		}
		x.declare(st, fr, p, args[i])
	}
}

func (x *Exec) inlineLit(st *State, c *Closure, args []Val, sig *types.Signature, e *ast.CallExpr, caller *Frame) []SV {
	if caller.depth > maxDepth {
		panic(unsupported{"recursive closure"})
	}
	fr := x.newFrame(c.fr.info, c.fr.pkg, sig, caller)
	fr.lex = c.fr
	fr.lit = c.lit
	fr.body = c.lit.Body
	fr.call = e
	fr.addr = addrTaken(c.fr.info, c.lit.Body)
	lsig := c.fr.info.Types[c.lit].Type.(*types.Signature)
	fr.sig = lsig
	x.bindParams(st, fr, lsig, args, e)
	return x.runInlined(st, fr, c.lit.Body, lsig)
}

func (x *Exec) declResults(st *State, fr *Frame, sig *types.Signature) {
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		if r.Name() != "" && r.Name() != "_" {
			fr.res = append(fr.res, x.declare(st, fr, r, Val{t: zeroOf(r.Type()), typ: r.Type()}))
		} else {
			fr.res = append(fr.res, nil)
		}
	}
}

func (x *Exec) runInlined(st *State, fr *Frame, body *ast.BlockStmt, sig *types.Signature) []SV {
	saved := st.defers
	st.defers = nil
	x.declResults(st, fr, sig)
	var out []SV
	for _, o := range x.execBlock(st, fr, body.List) {
		for _, o2 := range x.finish(o, fr, sig) {
			o2.st.defers = append([]deferred{}, saved...)
			var v Val
			switch len(o2.vals) {
			case 0:
			case 1:
				v = o2.vals[0]
			default:
				v = Val{tup: o2.vals}
			}
			out = append(out, SV{o2.st, v})
		}
	}
	return x.mergeSVs(out)
}

// finish runs the deferred calls of the frame and collects the results.
func (x *Exec) finish(o Outcome, fr *Frame, sig *types.Signature) []Outcome {
	switch o.kind {
	case oNormal, oReturn:
	default:
		panic(unsupported{"jump out of function"})
	}
	st := o.st
	// results were stored in result variables when named
	vals := o.vals
	ds := st.defers
	cur := []*State{st}
	if len(ds) > 0 {
		if o.kind == oReturn && len(fr.res) > 0 {
			for i, rv := range fr.res {
				if rv != nil && i < len(vals) {
					x.writeVar(st, rv, vals[i])
				}
			}
		}
		st.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			var nx []*State
			for _, s := range cur {
				d := ds[i]
				for _, r := range x.callClosure(s, d.fr, d.fun.clo, d.args, d.fun.typ.Underlying().(*types.Signature), d.call) {
					nx = append(nx, r.st)
				}
			}
			cur = nx
		}
	}
	var out []Outcome
	for _, s := range cur {
		var vs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			if rv := fr.res[i]; rv != nil && (o.kind == oNormal || len(ds) > 0 || vals == nil) {
				vs = append(vs, x.readVar(s, rv))
			} else if i < len(vals) {
				vs = append(vs, x.convertTo(vals[i], sig.Results().At(i).Type()))
			} else {
				vs = append(vs, Val{t: zeroOf(sig.Results().At(i).Type()), typ: sig.Results().At(i).Type()})
			}
		}
		out = append(out, Outcome{st: s, kind: oReturn, vals: vs})
	}
	return out
}

// ---------- contract calls ----------

func (x *Exec) contractAllocs(ct *Contract, sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	if fi := x.prog.Funcs[ct.Key]; fi != nil {
		return x.prog.mayAlloc(fi, x.spec)
	}
	return true
}

func (x *Exec) callContract(st *State, fr *Frame, ct *Contract, sig *types.Signature, recv *Val, args []Val, e *ast.CallExpr) []SV {
	x.calls[ct.Key] = true
	if np := sig.Params().Len(); sig.Variadic() && len(ct.Params) == np && len(args) >= np-1 && !(e != nil && e.Ellipsis.IsValid()) {
		packed := x.packVariadic(st, sig.Params().At(np-1).Type(), args[np-1:])
		args = append(append([]Val{}, args[:np-1]...), packed)
	}
	env := map[string]Val{}
	if recv != nil && ct.Recv != "" {
		env[ct.Recv] = *recv
	}
	for i, p := range ct.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for _, a := range args {
		if a.clo != nil && a.clo.lit != nil {
			for n, v := range x.captureEnv(st, ct, a.clo) {
				if _, dup := env[n]; !dup {
					env[n] = v
				}
			}
		}
	}
	pre := st.clone()
	sc := &SpecCtx{x: x, st: st, old: pre, env: env, ct: ct, noLocals: true}
	for _, cl := range x.atCall(ct.Key) {
		lc := &SpecCtx{x: x, st: st, old: x.entry, env: x.entryEnv, ct: x.ct, fr: fr, locals: true, callEnv: env, pos: callPos(e)}
		g := lc.boolExpr(cl.Expr)
		x.obligeAt(st, "assert", cl.Text, g, e, cl)
	}
	for _, c := range ct.Requires {
		g := sc.boolExpr(c.Expr)
		x.oblige(st, "requires", "precondition of "+ct.Key+": "+c.Text, g, e)
	}
	// effects
	locs := sc.locs(ct.Modifies)
	for _, l := range locs {
		x.frameCheckLoc(st, l, e)
	}
	next0 := x.next(st)
	for _, l := range locs {
		x.havocLoc(st, l)
	}
	if !ct.Opts["noalloc"] && x.contractAllocs(ct, sig) {
		n1 := x.freshNext()
		st.heap["next"] = n1
		st.assume(Le(next0, n1))
		for _, l := range x.logs {
			l.alloc = true
		}
	}
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		name := "res"
		if i < len(ct.Results) {
			name = ct.Results[i]
		}
		v := Val{t: Fresh(ct.Key+"."+name, sortOf(t)), typ: t}
		st.assume(wf(v.t, t, x.next(st)))
		vs = append(vs, v)
	}
	post := &SpecCtx{x: x, st: st, old: pre, env: map[string]Val{}, ct: ct, noLocals: true, oldEnv: env}
	for k, v := range env {
		post.env[k] = v
	}
	for i, r := range ct.Results {
		if i < len(vs) {
			post.env[r] = vs[i]
		}
	}
	if len(vs) > 0 {
		post.env["result"] = vs[0]
	}
	for _, c := range ct.Ensures {
		post.side = nil
		t := post.boolExpr(c.Expr)
		st.assume(t)
	}
	for _, cl := range x.atCall(ct.Key + " after") {
		lc := &SpecCtx{x: x, st: st, old: x.entry, env: x.entryEnv, ct: x.ct, fr: fr, locals: true, callEnv: post.env, pos: callPos(e)}
		x.obligeAt(st, "assert", cl.Text, lc.boolExpr(cl.Expr), e, cl)
	}
	var v Val
	switch len(vs) {
	case 0:
	case 1:
		v = vs[0]
	default:
		v = Val{tup: vs}
	}
	return one(st, v)
}

func callPos(e *ast.CallExpr) token.Pos {
	if e == nil {
		return token.NoPos
	}
	return e.Pos()
}

func (x *Exec) atCall(key string) []*Clause {
	if x.ct == nil {
		return nil
	}
	return x.ct.AtCall[key]
}

func (x *Exec) freshNext() *Term {
	n := Fresh("next", "Int")
	x.nextSyms[n] = true
	return n
}

// Loc is a set of memory locations.
type Loc struct {
	comp   string
	key    *Term // nil: the whole component
	lo, hi *Term // absolute index window for element rows
	text   string
	idx    *Term
	cond   *Term
}

func (x *Exec) havocLoc(st *State, l Loc) {
	ci := comps[l.comp]
	if ci == nil {
		if g := x.spec.Ghosts[strings.TrimPrefix(l.comp, "G:")]; g != nil {
			ci = &compInfo{sort: g.Sort, kind: 'G'}
			comps[l.comp] = ci
		} else {
			panic(unsupported{"havoc of " + l.comp})
		}
	}
	h := x.heapGet(st, l.comp)
	if l.cond == tFalse {
		return
	}
	if l.key == nil {
		n := Fresh("hv$"+l.comp, ci.sort)
		x.heapWF[n] = ci
		x.heapFacts[n] = x.compWF(n, ci, x.next(st))
		st.heap[l.comp] = n
		x.logComp(l.comp, nil)
		return
	}
	if ci.kind == 'E' && l.lo != nil {
		row := Fresh("row$"+l.comp, elemSort(ci.sort))
		old := Select(h, l.key)
		i := BV("i", "Int")
		x.heapFacts[row] = Forall([]*Term{i}, Imp(Or(Lt(i, l.lo), Le(l.hi, i)), Eq(Select(row, i), Select(old, i))), []*Term{Select(row, i)})
		x.rowWF(row, ci, x.next(st))
		if l.cond != nil {
			row = Ite(l.cond, row, old)
		}
		x.heapSet(st, l.comp, l.key, Store(h, l.key, row))
		return
	}
	v := Fresh("hv$"+l.comp, elemSort(ci.sort))
	if ci.kind == 'E' || ci.kind == 'V' {
		x.rowWF(v, ci, x.next(st))
	}
	if ci.kind == 'F' || ci.kind == 'P' {
		st.assume(wf(v, ci.val, x.next(st)))
	}
	if ci.kind == 'L' {
		st.assume(Le(Int(0), v))
	}
	if l.cond != nil {
		v = Ite(l.cond, v, Select(h, l.key))
	}
	x.heapSet(st, l.comp, l.key, Store(h, l.key, v))
}

func (x *Exec) rowWF(row *Term, ci *compInfo, next *Term) {
	ks, _ := arrSorts(row.sort)
	i := BV("i", ks)
	w := wf(Select(row, i), ci.val, next)
	if w == tTrue {
		return
	}
	f := Forall([]*Term{i}, w, []*Term{Select(row, i)})
	if o, ok := x.heapFacts[row]; ok {
		f = And(o, f)
	}
	x.heapFacts[row] = f
}

// ---------- sync ----------

func (x *Exec) callSync(st *State, fn *types.Func, recv *Val, e *ast.CallExpr) []SV {
	r := recv.t
	if r.sort == "Ptr" {
		r = pBase(r)
	}
	k := r.String()
	name := fn.Name()
	tn := ""
	if p, ok := recv.typ.Underlying().(*types.Pointer); ok {
		tn = typeName(p.Elem())
	}
	if tn == "sync.WaitGroup" || tn == "sync.Once" {
		panic(unsupported{"sync." + name})
	}
	switch name {
	case "Lock", "RLock":
		x.oblige(st, "lock", "lock is not already held", x.notHeld(st, r, name), e)
		st.locks[k] = name
		if st.lockT == nil {
			st.lockT = map[string]*Term{}
		}
		nt := map[string]*Term{}
		for a, b := range st.lockT {
			nt[a] = b
		}
		nt[k] = r
		st.lockT = nt
		st.nacq[k]++
		x.acquired(st, r, e)
	case "Unlock", "RUnlock":
		want := map[string]string{"Unlock": "Lock", "RUnlock": "RLock"}[name]
		held := st.locks[k] == want
		x.oblige(st, "lock", "unlock of a held lock", Bool(held), e)
		x.releasing(st, r, e)
		delete(st.locks, k)
	default:
		panic(unsupported{"sync." + name})
	}
	return one(st, Val{})
}

func (x *Exec) notHeld(st *State, r *Term, mode string) *Term {
	var cs []*Term
	for _, k := range sortedKeys(st.locks) {
		t := st.lockT[k]
		if t.sort == r.sort {
			cs = append(cs, Not(Eq(t, r)))
		}
	}
	return And(cs...)
}

// ---------- builtins ----------

func (x *Exec) evalConversion(st *State, fr *Frame, e *ast.CallExpr, t types.Type) []SV {
	var out []SV
	for _, r := range x.eval(st, fr, e.Args[0]) {
		v := r.v
		from := v.typ
		switch {
		case v.clo != nil:
			out = append(out, one(r.st, Val{clo: v.clo, typ: t})...)
			continue
		case types.IsInterface(t):
			out = append(out, one(r.st, x.convertTo(v, t))...)
			continue
		case isFloatT(t) && v.t.sort == "Int":
			out = append(out, one(r.st, Val{t: ToReal(v.t), typ: t})...)
			continue
		case isFloatT(t):
			out = append(out, one(r.st, Val{t: v.t, typ: t})...)
			continue
		case isIntT(t) && v.t.sort == "Real":
			fl := App("to_int", "Int", v.t)
			ng := Neg(App("to_int", "Int", Neg(v.t)))
			out = append(out, one(r.st, Val{t: Ite(Le(RealLit0, v.t), fl, ng), typ: t})...)
			continue
		case isIntT(t) && v.t.sort == "Int":
			if b := t.Underlying().(*types.Basic); b.Info()&types.IsUnsigned != 0 {
				if fb := from.Underlying().(*types.Basic); fb.Info()&types.IsUnsigned == 0 {
					x.oblige(r.st, "safety", "conversion to an unsigned type keeps the value", Le(Int(0), v.t), e)
				}
			}
			out = append(out, one(r.st, Val{t: v.t, typ: t})...)
			continue
		case isStringT(t) && isStringT(from):
			out = append(out, one(r.st, Val{t: v.t, typ: t})...)
			continue
		case isStringT(t) || isStringT(from):
			// []byte <-> string and the like
			out = append(out, one(r.st, Val{t: Fresh("conv", sortOf(t)), typ: t})...)
			if sortOf(t) == "Slice" {
				v := out[len(out)-1].v
				r.st.assume(wf(v.t, t, x.next(r.st)))
			}
			continue
		}
		if sortOf(t) == v.t.sort {
			out = append(out, one(r.st, Val{t: v.t, typ: t})...)
			continue
		}
		panic(unsupported{"conversion to " + t.String()})
	}
	return out
}

func (x *Exec) evalBuiltin(st *State, fr *Frame, e *ast.CallExpr, name string) []SV {
	rt := types.Type(types.Typ[types.Int])
	if tv, ok := fr.info.Types[e]; ok && tv.Type != nil {
		rt = tv.Type
	}
	switch name {
	case "new":
		t := fr.info.Types[e.Args[0]].Type
		ref := x.alloc(st)
		if structOf(t) != nil {
			x.initObj(st, ref, t)
			return one(st, Val{t: ref, typ: types.NewPointer(t)})
		}
		p := mkPtr(ref, Int(0))
		k := compCell(t)
		x.heapSet(st, k, p, Store(x.heapGet(st, k), p, zeroOf(t)))
		return one(st, Val{t: p, typ: types.NewPointer(t)})
	case "make":
		t := fr.info.Types[e.Args[0]].Type
		var out []SV
		for _, r := range x.evalList(st, fr, e.Args[1:]) {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				n := r.vs[0].t
				c := n
				if len(r.vs) > 1 {
					c = r.vs[1].t
					x.oblige(r.st, "safety", "make: length within capacity", And(Le(Int(0), n), Le(n, c)), e)
				} else {
					x.oblige(r.st, "safety", "make: length is not negative", Le(Int(0), n), e)
				}
				ref := x.alloc(r.st)
				k := compElem(u.Elem())
				x.heapSet(r.st, k, ref, Store(x.heapGet(r.st, k), ref, ConstArr(ArrS("Int", sortOf(u.Elem())), zeroOf(u.Elem()))))
				out = append(out, one(r.st, Val{t: mkSlice(ref, Int(0), n, c), typ: t})...)
			case *types.Map:
				out = append(out, one(r.st, Val{t: x.newMap(r.st, t), typ: t})...)
			case *types.Chan:
				out = append(out, one(r.st, Val{t: x.alloc(r.st), typ: t})...)
			}
		}
		return out
	case "len", "cap":
		var out []SV
		for _, r := range x.eval(st, fr, e.Args[0]) {
			t := r.v.typ
			switch u := t.Underlying().(type) {
			case *types.Slice:
				n := sLen(r.v.t)
				if name == "cap" {
					n = sCap(r.v.t)
				}
				out = append(out, one(r.st, Val{t: n, typ: rt})...)
			case *types.Map:
				_, _, l := compMap(t)
				x.mapGuard(r.st, r.v.t, t)
				n := Select(x.heapGet(r.st, l), r.v.t)
				n = Ite(Eq(r.v.t, Int(0)), Int(0), n)
				out = append(out, one(r.st, Val{t: n, typ: rt})...)
			case *types.Basic:
				out = append(out, one(r.st, Val{t: strLen(r.v.t), typ: rt})...)
			case *types.Array:
				out = append(out, one(r.st, Val{t: Int(u.Len()), typ: rt})...)
			default:
				panic(unsupported{"len of " + t.String()})
			}
		}
		return out
	case "append":
		return x.evalAppend(st, fr, e, rt)
	case "copy":
		var out []SV
		for _, r := range x.evalList(st, fr, e.Args) {
			d, s := r.vs[0], r.vs[1]
			if isStringT(s.typ) {
				panic(unsupported{"copy from string"})
			}
			n := Ite(Le(sLen(d.t), sLen(s.t)), sLen(d.t), sLen(s.t))
			x.copyElems(r.st, d, sOff(d.t), s, sOff(s.t), n, e)
			out = append(out, one(r.st, Val{t: n, typ: rt})...)
		}
		return out
	case "delete":
		var out []SV
		for _, r := range x.evalList(st, fr, e.Args) {
			mt := r.vs[0].typ
			x.mapDelete(r.st, r.vs[0].t, mt, x.convertTo(r.vs[1], mt.Underlying().(*types.Map).Key()).t, e)
			out = append(out, one(r.st, Val{})...)
		}
		return out
	case "panic":
		for _, r := range x.evalList(st, fr, e.Args) {
			if x.ct == nil || !x.ct.Opts["maypanic"] {
				x.oblige(r.st, "safety", "no panic", tFalse, e)
			}
			r.st.dead = true
		}
		return nil
	case "print", "println":
		var out []SV
		for _, r := range x.evalList(st, fr, e.Args) {
			out = append(out, one(r.st, Val{})...)
		}
		return out
	case "min", "max":
		var out []SV
		for _, r := range x.evalList(st, fr, e.Args) {
			v := r.vs[0].t
			for _, w := range r.vs[1:] {
				c := Le(v, w.t)
				if name == "max" {
					c = Le(w.t, v)
				}
				v = Ite(c, v, w.t)
			}
			out = append(out, one(r.st, Val{t: v, typ: rt})...)
		}
		return out
	}
	panic(unsupported{"builtin " + name})
}

// copyElems copies n elements between rows, at absolute offsets.
func (x *Exec) copyElems(st *State, d Val, doff *Term, s Val, soff, n *Term, node ast.Node) {
	et := d.typ.Underlying().(*types.Slice).Elem()
	k := compElem(et)
	h := x.heapGet(st, k)
	ci := comps[k]
	row := Fresh("copy", elemSort(ci.sort))
	i := BV("i", "Int")
	old := Select(h, sArr(d.t))
	src := Select(h, sArr(s.t))
	in := And(Le(doff, i), Lt(i, Add(doff, n)))
	si := Add(soff, Sub(i, doff))
	if doff == soff {
		si = i
	}
	if z, ok := isInt(doff); ok && z == 0 {
		si = Add(i, soff)
	}
	x.heapFacts[row] = Forall([]*Term{i}, Eq(Select(row, i), Ite(in, Select(src, si), Select(old, i))), []*Term{Select(row, i)})
	if !(x.isFreshRef(sArr(d.t))) {
		x.frameCheckRange(st, k, sArr(d.t), doff, Add(doff, n), node)
	}
	x.heapSet(st, k, sArr(d.t), Store(h, sArr(d.t), row))
}

func (x *Exec) evalAppend(st *State, fr *Frame, e *ast.CallExpr, rt types.Type) []SV {
	var out []SV
	for _, r := range x.evalList(st, fr, e.Args) {
		s := r.vs[0].t
		if isNilT(r.vs[0].typ) {
			s = nilSlice
		}
		et := rt.Underlying().(*types.Slice).Elem()
		k := compElem(et)
		ci := comps[k]
		h := x.heapGet(r.st, k)
		var add *Term
		if e.Ellipsis.IsValid() {
			if isStringT(r.vs[1].typ) {
				panic(unsupported{"append of a string"})
			}
			add = sLen(r.vs[1].t)
		} else {
			add = Int(int64(len(r.vs) - 1))
		}
		newlen := Add(sLen(s), add)
		fits := Le(newlen, sCap(s))
		nref := x.alloc(r.st)
		arr := Ite(fits, sArr(s), nref)
		ncap := Fresh("cap", "Int")
		r.st.assume(Le(newlen, ncap))
		cp := Ite(fits, sCap(s), ncap)
		base := Select(h, sArr(s))
		var row *Term
		end := Add(sOff(s), sLen(s))
		if e.Ellipsis.IsValid() {
			t := r.vs[1].t
			row = Fresh("app", elemSort(ci.sort))
			i := BV("i", "Int")
			src := Select(h, sArr(t))
			in := And(Le(end, i), Lt(i, Add(end, add)))
			x.heapFacts[row] = Forall([]*Term{i}, Eq(Select(row, i), Ite(in, Select(src, Add(sOff(t), Sub(i, end))), Select(base, i))), []*Term{Select(row, i)})
		} else {
			row = base
			for j, v := range r.vs[1:] {
				cv := x.convertTo(v, et)
				if cv.t == nil {
					cv.t = Fresh("funcval", "Int")
				}
				row = Store(row, Add(end, Int(int64(j))), cv.t)
			}
		}
		// the write happens in place when it fits
		if !x.isFreshRef(sArr(s)) {
			s2 := r.st.clone()
			s2.assume(fits)
			x.frameCheckRange(s2, k, sArr(s), end, Add(end, add), e)
		}
		x.heapSet(r.st, k, arr, Store(h, arr, row))
		x.appendKeys[arr] = true
		off := sOff(s)
		out = append(out, one(r.st, Val{t: mkSlice(arr, off, newlen, cp), typ: rt})...)
	}
	return out
}

// ---------- externals ----------

func (x *Exec) callExtern(st *State, fr *Frame, fn *types.Func, key string, recv *Val, args []Val, e *ast.CallExpr) []SV {
	sig := fn.Type().(*types.Signature)
	if key == "fmt.Fprintf" && !(e != nil && e.Ellipsis.IsValid()) && x.spec.Contracts["fmt.Fprintln"] != nil {
		// a formatted line
		if t, ok := fmtText(args[1:]); ok {
			if l, ok := strLine(t); ok {
				fmtLine := append([]Val{}, args[0], Val{t: l, typ: types.Typ[types.String]})
				x.externs["fmt.Fprintln"] = true
				return x.callContract(st, fr, x.spec.Contracts["fmt.Fprintln"], sigFprintln(fn), recv, fmtLine, e)
			}
		}
	}
	if ct := x.spec.Contracts[key]; ct != nil {
		x.externs[key] = true
		return x.callContract(st, fr, ct, sig, recv, args, e)
	}
	real := types.Typ[types.Float64]
	boolT := types.Typ[types.Bool]
	uf := func(name string, srt string, as ...*Term) *Term {
		var ss []string
		for _, a := range as {
			ss = append(ss, a.sort)
		}
		ufDecls[name] = "(declare-fun " + symText(name) + " (" + strings.Join(ss, " ") + ") " + srt + ")"
		return App(symText(name), srt, as...)
	}
	switch key {
	case "math.Abs":
		a := args[0].t
		return one(st, Val{t: Ite(Le(RealLit0, a), a, Neg(a)), typ: real})
	case "math.IsNaN":
		x.assumed["floating point values are never NaN (reals)"] = true
		return one(st, Val{t: tFalse, typ: boolT})
	case "math.IsInf":
		x.assumed["floating point values are never infinite (reals)"] = true
		return one(st, Val{t: tFalse, typ: boolT})
	case "math.Max":
		return one(st, Val{t: Ite(Le(args[1].t, args[0].t), args[0].t, args[1].t), typ: real})
	case "math.Min":
		return one(st, Val{t: Ite(Le(args[0].t, args[1].t), args[0].t, args[1].t), typ: real})
	case "math.Pow":
		if n, ok := isRat(args[1].t); ok && n.IsInt() && n.Num().Int64() == 2 {
			return one(st, Val{t: Mul(args[0].t, args[0].t), typ: real})
		}
	case "math.Log":
		return one(st, Val{t: App("ln", "Real", args[0].t), typ: real})
	case "math.Exp":
		return one(st, Val{t: App("expf", "Real", args[0].t), typ: real})
	case "math.Sqrt":
		return one(st, Val{t: App("sqrtf", "Real", args[0].t), typ: real})
	case "strconv.ParseFloat":
		if lib.isFun("numok") != nil && lib.isFun("tonum") != nil {
			x.externs[key] = true
			err := Fresh("err", "Iface")
			st.assume(Eq(Eq(iTag(err), Int(0)), App("numok", "Bool", args[0].t, args[1].t)))
			return one(st, Val{tup: []Val{{t: App("tonum", "Real", args[0].t, args[1].t), typ: real}, {t: err, typ: sigRes(sig, 1)}}})
		}
	case "strconv.Itoa":
		if lib.isFun("itoa") != nil {
			return one(st, Val{t: App("itoa", "Str", args[0].t), typ: types.Typ[types.String]})
		}
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
		st.dead = true
		return nil
	case "log.Print", "log.Printf", "log.Println", "fmt.Print", "fmt.Printf", "fmt.Println":
		return one(st, Val{tup: []Val{{t: Fresh("n", "Int"), typ: types.Typ[types.Int]}, {t: Fresh("err", "Iface"), typ: sigRes(sig, 1)}}})
	case "fmt.Sprintf":
		if t, ok := fmtText(args); ok {
			return one(st, Val{t: t, typ: types.Typ[types.String]})
		}
		name := "ext$fmt.Sprintf"
		if f, ok := litVals[args[0].t]; ok {
			name += "$" + sanitize(strings.ReplaceAll(f, "%", "p"))
			var ts []*Term
			simple := true
			for _, a := range args[1:] {
				if a.t == nil || a.typ == nil {
					simple = false
					break
				}
				if _, ok := a.typ.Underlying().(*types.Basic); !ok {
					simple = false
					break
				}
				ts = append(ts, a.t)
				name += "$" + a.t.sort
			}
			if simple && len(ts) > 0 {
				return one(st, Val{t: uf(name, "Str", ts...), typ: types.Typ[types.String]})
			}
		}
		return one(st, Val{t: Fresh("sprintf", "Str"), typ: types.Typ[types.String]})
	}
	if x.spec.PureExt[key] {
		x.externs[key] = true
		var ts []*Term
		if recv != nil {
			ts = append(ts, recv.t)
		}
		for _, a := range args {
			if a.t == nil {
				panic(unsupported{"function argument to pure external " + key})
			}
			ts = append(ts, a.t)
		}
		var vs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			n := "ext$" + key
			if sig.Results().Len() > 1 {
				n += fmt.Sprintf(".%d", i)
			}
			v := Val{t: uf(n, sortOf(t), ts...), typ: t}
			st.assume(wf(v.t, t, x.next(st)))
			vs = append(vs, v)
		}
		if len(vs) == 1 {
			return one(st, vs[0])
		}
		return one(st, Val{tup: vs})
	}
	panic(unsupported{"external function " + key})
}

func sigRes(sig *types.Signature, i int) types.Type {
	if i < sig.Results().Len() {
		return sig.Results().At(i).Type()
	}
	return types.Universe.Lookup("error").Type()
}

func sortedBool(m map[string]bool) []string {
	var out []string
	for k, v := range m {
		if v {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// sigFprintln is the signature of Fprintln (that of Fprintf without the format).
func sigFprintln(fn *types.Func) *types.Signature {
	if o, ok := fn.Pkg().Scope().Lookup("Fprintln").(*types.Func); ok {
		return o.Type().(*types.Signature)
	}
	panic(unsupported{"fmt.Fprintln not found"})
}

// fmtText is the text a literal format with plain verbs gives: args[0] is the format.
func fmtText(args []Val) (*Term, bool) {
	f, ok := litVals[args[0].t]
	if !ok {
		return nil, false
	}
	t := strLit("")
	k := 1
	for i := 0; i < len(f); i++ {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			t = strCat(t, strLit(f[i:]))
			break
		}
		t = strCat(t, strLit(f[i:i+j]))
		i += j + 1
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			t = strCat(t, strLit("%"))
			continue
		}
		if k >= len(args) || args[k].t == nil || args[k].typ == nil {
			return nil, false
		}
		b, ok := args[k].typ.(*types.Basic)
		if !ok {
			return nil, false
		}
		a := args[k].t
		k++
		switch {
		case b.Info()&types.IsString != 0 && (f[i] == 'v' || f[i] == 's'):
			t = strCat(t, a)
		case b.Info()&types.IsInteger != 0 && (f[i] == 'v' || f[i] == 'd') && lib.isFun("itoa") != nil:
			t = strCat(t, App("itoa", "Str", a))
		case b.Kind() == types.Float64 && (f[i] == 'v' || f[i] == 'g') && lib.isFun("ftoa") != nil:
			t = strCat(t, App("ftoa", "Str", a))
		case b.Info()&types.IsBoolean != 0 && (f[i] == 'v' || f[i] == 't'):
			t = strCat(t, Ite(a, strLit("true"), strLit("false")))
		default:
			return nil, false
		}
	}
	return t, k == len(args)
}
