package main

// Evaluation of specification expressions to terms.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type specErr string

type SpecCtx struct {
	x         *Exec
	st        *State
	old       *State
	env       map[string]Val
	oldEnv    map[string]Val
	callEnv   map[string]Val
	ct        *Contract
	fr        *Frame
	locals    bool
	noLocals  bool
	pos       token.Pos
	loop      *loop
	loopEntry *State
	bound     map[string]Val
	goal      bool
	side      []*Term
	inOld     bool
	depth     int
}

func (c *SpecCtx) fail(f string, a ...any) { panic(specErr(fmt.Sprintf(f, a...))) }

func (c *SpecCtx) boolExpr(e ast.Expr) *Term {
	v := c.eval(e)
	if v.t == nil || v.t.sort != "Bool" {
		c.fail("not a boolean expression")
	}
	return v.t
}

func (c *SpecCtx) with(st *State) *SpecCtx {
	n := *c
	n.st = st
	return &n
}

func (c *SpecCtx) bind(name string, v Val) *SpecCtx {
	n := *c
	n.bound = map[string]Val{}
	for k, b := range c.bound {
		n.bound[k] = b
	}
	n.bound[name] = v
	return &n
}

func (c *SpecCtx) lookup(name string) (Val, bool) {
	if v, ok := c.bound[name]; ok {
		return v, true
	}
	if c.callEnv != nil && strings.HasPrefix(name, "arg_") {
		if v, ok := c.callEnv[name[4:]]; ok {
			return v, true
		}
	}
	if strings.HasPrefix(name, "par_") {
		// the contract's own parameter or captured variable, whatever the code around calls so
		if v, ok := c.env[name[4:]]; ok {
			return v, true
		}
	}
	x := c.x
	if c.locals && !c.inOld {
		if c.loop != nil {
			if name == "_i" && c.loop.indVar != nil {
				return x.readVar(c.st, c.loop.indVar), true
			}
			if name == "_visited" && c.loop.visited != nil {
				return c.st.vars[c.loop.visited], true
			}
			if c.loop.rangeK != nil && c.loop.rangeK.Name() == name && c.loop.indVar != nil && c.loop.visited == nil {
				return x.readVar(c.st, c.loop.indVar), true
			}
		}
		if strings.HasPrefix(name, "_i") && len(name) > 2 {
			if n, err := strconv.Atoi(name[2:]); err == nil {
				if v := x.loopIdx[n]; v != nil {
					if val, ok := c.st.vars[v]; ok {
						return val, true
					}
				}
			}
		}
		if strings.HasPrefix(name, "_visited") && len(name) > 8 {
			if n, err := strconv.Atoi(name[8:]); err == nil {
				if v := x.loopVis[n]; v != nil {
					if val, ok := c.st.vars[v]; ok {
						return val, true
					}
				}
			}
		}
		pos := c.pos
		for fr := c.fr; fr != nil; fr = fr.parent {
			if sc := fr.pkg.Scope().Innermost(pos); sc != nil {
				s, o := sc.LookupParent(name, pos)
				if s != nil && o != nil {
					if vo, ok := o.(*types.Var); ok && vo.Parent() != fr.pkg.Scope() {
						if v := x.lookupVar(fr, vo); v != nil {
							if _, ok := c.st.vars[v]; ok {
								return x.readVar(c.st, v), true
							}
						}
					}
				}
			}
			if fr.call != nil {
				pos = fr.call.Pos()
			}
		}
		// contract parameter names stand for the current value of that parameter
		if c.ct == x.ct {
			if v := x.paramVar(name); v != nil {
				if _, ok := c.st.vars[v]; ok {
					return x.readVar(c.st, v), true
				}
			}
		}
		if v, ok := c.renamed(name); ok {
			return v, true
		}
	}
	if c.inOld && c.oldEnv != nil {
		if v, ok := c.oldEnv[name]; ok {
			return v, true
		}
	}
	if v, ok := c.env[name]; ok {
		return v, true
	}
	if g := x.spec.Ghosts[name]; g != nil {
		k := "G:" + name
		if comps[k] == nil {
			comps[k] = &compInfo{sort: g.Sort, kind: 'G'}
		}
		return Val{t: x.heapGet(c.st, k)}, true
	}
	// package level constants
	if o := x.fi.Pkg.Types.Scope().Lookup(name); o != nil {
		if cn, ok := o.(*types.Const); ok {
			if v, ok := constVal(types.TypeAndValue{Value: cn.Val()}, cn.Type()); ok {
				return v, true
			}
		}
	}
	if pk := x.prog.Pkgs[modPath]; pk != nil {
		if o := pk.Types.Scope().Lookup(name); o != nil {
			if cn, ok := o.(*types.Const); ok {
				if v, ok := constVal(types.TypeAndValue{Value: cn.Val()}, cn.Type()); ok {
					return v, true
				}
			}
		}
	}
	if it := lib.isFun(name); it != nil && len(it.params) == 0 {
		return Val{t: Sym(name, it.sort)}, true
	}
	return Val{}, false
}

// renamed resolves a local variable of the original code that was renamed: the baseline list of locals is aligned
// with the current one by position and type.
func (c *SpecCtx) renamed(name string) (Val, bool) {
	if c.fr == nil {
		return Val{}, false
	}
	if v := c.x.loopCounter(name); v != nil {
		if _, ok := c.st.vars[v]; ok {
			return c.x.readVar(c.st, v), true
		}
	}
	if nn, ok := c.x.renames[name]; ok && nn != name {
		d := *c
		d.ct = nil
		x := c.x
		save := x.renames
		x.renames = nil
		defer func() { x.renames = save }()
		return d.lookupLocal(nn)
	}
	return Val{}, false
}

// loopCounter resolves the counter of a loop that no longer has that name (or has none, being a range loop now).
func (x *Exec) loopCounter(name string) *Var {
	for i := len(x.loopStack) - 1; i >= 0; i-- {
		if o := x.loopStack[i]; x.baseLoops[o] == name && x.loopIdx[o] != nil && x.loopVis[o] == nil {
			return x.loopIdx[o]
		}
	}
	if n := len(x.loopStack); n > 0 && x.allLoops {
		o := x.loopStack[n-1]
		for _, b := range x.baseLoops {
			if b == name && x.loopVis[o] == nil {
				return x.loopIdx[o]
			}
		}
	}
	return nil
}

func (c *SpecCtx) lookupLocal(name string) (Val, bool) {
	x := c.x
	pos := c.pos
	if c.loop != nil && c.loop.rangeK != nil && c.loop.rangeK.Name() == name && c.loop.indVar != nil && c.loop.visited == nil {
		return x.readVar(c.st, c.loop.indVar), true
	}
	for fr := c.fr; fr != nil; fr = fr.parent {
		if sc := fr.pkg.Scope().Innermost(pos); sc != nil {
			s, o := sc.LookupParent(name, pos)
			if s != nil && o != nil {
				if vo, ok := o.(*types.Var); ok && vo.Parent() != fr.pkg.Scope() {
					if v := x.lookupVar(fr, vo); v != nil {
						if _, ok := c.st.vars[v]; ok {
							return x.readVar(c.st, v), true
						}
					}
				}
			}
		}
		if fr.call != nil {
			pos = fr.call.Pos()
		}
	}
	return Val{}, false
}

func (c *SpecCtx) eval(e ast.Expr) Val {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.eval(e.X)
	case *ast.Ident:
		switch e.Name {
		case "true":
			return Val{t: tTrue, typ: types.Typ[types.Bool]}
		case "false":
			return Val{t: tFalse, typ: types.Typ[types.Bool]}
		case "nil":
			return Val{t: Int(0), typ: types.Typ[types.UntypedNil]}
		}
		if v, ok := c.lookup(e.Name); ok {
			return v
		}
		if m := c.x.spec.Macros[e.Name]; m != nil && len(m.Params) == 0 {
			return c.eval(m.Body)
		}
		c.fail("unknown name %s", e.Name)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			return Val{t: IntS(e.Value), typ: types.Typ[types.Int]}
		case token.FLOAT:
			r, ok := new(big.Rat).SetString(e.Value)
			if !ok {
				c.fail("bad number %s", e.Value)
			}
			if fv, _ := r.Float64(); new(big.Rat).SetFloat64(fv) != nil {
				r = new(big.Rat).SetFloat64(fv)
			}
			return Val{t: RealLit(r), typ: types.Typ[types.Float64]}
		case token.STRING:
			s, err := strconv.Unquote(e.Value)
			if err != nil {
				c.fail("bad string %s", e.Value)
			}
			return Val{t: strLit(s), typ: types.Typ[types.String]}
		case token.CHAR:
			s, _ := strconv.Unquote(e.Value)
			return Val{t: Int(int64([]rune(s)[0])), typ: types.Typ[types.Int]}
		}
	case *ast.UnaryExpr:
		v := c.eval(e.X)
		switch e.Op {
		case token.NOT:
			return Val{t: Not(v.t), typ: v.typ}
		case token.SUB:
			return Val{t: Neg(v.t), typ: v.typ}
		}
	case *ast.BinaryExpr:
		return c.binary(e)
	case *ast.StarExpr:
		v := c.eval(e.X)
		return c.deref(v)
	case *ast.SelectorExpr:
		return c.selector(e)
	case *ast.IndexExpr:
		return c.index(c.eval(e.X), c.eval(e.Index))
	case *ast.SliceExpr:
		v := c.eval(e.X)
		lo, hi := Int(0), sLen(v.t)
		if e.Low != nil {
			lo = c.eval(e.Low).t
		}
		if e.High != nil {
			hi = c.eval(e.High).t
		}
		return Val{t: mkSlice(sArr(v.t), Add(sOff(v.t), lo), Sub(hi, lo), Sub(sCap(v.t), lo)), typ: v.typ}
	case *ast.CallExpr:
		return c.call(e)
	}
	c.fail("specification expression %T", e)
	return Val{}
}

func (c *SpecCtx) deref(v Val) Val {
	p, ok := v.typ.Underlying().(*types.Pointer)
	if !ok {
		c.fail("dereference of a non-pointer")
	}
	t := p.Elem()
	if structOf(t) != nil {
		return Val{t: c.x.loadStruct(c.st, v.t, t), typ: t}
	}
	return Val{t: Select(c.x.heapGet(c.st, compCell(t)), v.t), typ: t}
}

func (c *SpecCtx) index(b, i Val) Val {
	if b.typ != nil {
		switch u := b.typ.Underlying().(type) {
		case *types.Slice:
			k := compElem(u.Elem())
			return Val{t: Select(Select(c.x.heapGet(c.st, k), sArr(b.t)), absIdx(sOff(b.t), i.t)), typ: u.Elem()}
		case *types.Map:
			d, v, _ := compMap(b.typ)
			key := c.x.convertTo(i, u.Key()).t
			in := Select(Select(c.x.heapGet(c.st, d), b.t), key)
			raw := Select(Select(c.x.heapGet(c.st, v), b.t), key)
			return Val{t: Ite(in, raw, zeroOf(u.Elem())), typ: u.Elem()}
		case *types.Array:
			return Val{t: Select(b.t, i.t), typ: u.Elem()}
		}
	}
	if strings.HasPrefix(b.t.sort, "(Array ") {
		ks, _ := arrSorts(b.t.sort)
		it := i.t
		if ks == "Ptr" && it.sort == "Int" {
			it = mkPtr(it, Int(0))
		}
		return Val{t: Select(b.t, it)}
	}
	c.fail("indexing a value of sort %s", b.t.sort)
	return Val{}
}

func (c *SpecCtx) binary(e *ast.BinaryExpr) Val {
	boolT := types.Typ[types.Bool]
	switch e.Op {
	case token.LAND:
		l := c.eval(e.X)
		r := c.eval(e.Y)
		return Val{t: And(l.t, r.t), typ: boolT}
	case token.LOR:
		return Val{t: Or(c.eval(e.X).t, c.eval(e.Y).t), typ: boolT}
	}
	l, r := c.eval(e.X), c.eval(e.Y)
	switch e.Op {
	case token.EQL, token.NEQ:
		if l.t == nil || r.t == nil {
			c.fail("comparison of function values")
		}
		var t *Term
		ln, rn := isNilT(l.typ), isNilT(r.typ)
		li := l.t.sort == "Iface"
		ri := r.t.sort == "Iface"
		switch {
		case rn && li:
			t = Eq(iTag(l.t), Int(0))
		case ln && ri:
			t = Eq(iTag(r.t), Int(0))
		case rn && l.t.sort == "Slice":
			t = Eq(sArr(l.t), Int(0))
		case rn && l.t.sort == "Ptr":
			t = Eq(pBase(l.t), Int(0))
		case li && !ri:
			t = Eq(l.t, toIface(r))
		case ri && !li:
			t = Eq(toIface(l), r.t)
		default:
			if l.t.sort != r.t.sort && !(l.t.sort == "Int" && r.t.sort == "Real" || l.t.sort == "Real" && r.t.sort == "Int") {
				c.fail("comparison of %s and %s", l.t.sort, r.t.sort)
			}
			lt, rt := l.t, r.t
			if lt.sort == "Int" && rt.sort == "Real" {
				lt = ToReal(lt)
			} else if lt.sort == "Real" && rt.sort == "Int" {
				rt = ToReal(rt)
			}
			t = Eq(lt, rt)
		}
		if e.Op == token.NEQ {
			t = Not(t)
		}
		return Val{t: t, typ: boolT}
	case token.LSS:
		return Val{t: Lt(l.t, r.t), typ: boolT}
	case token.LEQ:
		return Val{t: Le(l.t, r.t), typ: boolT}
	case token.GTR:
		return Val{t: Lt(r.t, l.t), typ: boolT}
	case token.GEQ:
		return Val{t: Le(r.t, l.t), typ: boolT}
	case token.ADD:
		if l.t.sort == "Str" {
			return Val{t: strCat(l.t, r.t), typ: l.typ}
		}
		return num(Add(l.t, r.t))
	case token.SUB:
		return num(Sub(l.t, r.t))
	case token.MUL:
		return num(Mul(l.t, r.t))
	case token.QUO:
		return num(RDiv(l.t, r.t))
	case token.REM:
		return num(App("mod", "Int", l.t, r.t))
	}
	c.fail("operator %s", e.Op)
	return Val{}
}

func num(t *Term) Val {
	if t.sort == "Int" {
		return Val{t: t, typ: types.Typ[types.Int]}
	}
	return Val{t: t, typ: types.Typ[types.Float64]}
}

func (c *SpecCtx) selector(e *ast.SelectorExpr) Val {
	if id, ok := e.X.(*ast.Ident); ok {
		if _, known := c.lookup(id.Name); !known {
			for _, imp := range allImports(c.x.prog) { // a variable of another package
				if o, ok := imp.Scope().Lookup(e.Sel.Name).(*types.Var); ok && imp.Name() == id.Name {
					return c.x.readVar(c.st, c.x.globalVar(o))
				}
			}
		}
	}
	v := c.eval(e.X)
	return c.field(v, e.Sel.Name)
}

func (c *SpecCtx) field(v Val, name string) Val {
	if v.typ == nil {
		c.fail("field %s of a value without a Go type", name)
	}
	if types.IsInterface(v.typ) {
		c.fail("field %s of an interface", name)
	}
	o, idx, _ := types.LookupFieldOrMethod(v.typ, true, c.x.fi.Pkg.Types, name)
	f, ok := o.(*types.Var)
	if !ok {
		// unexported fields of the root package seen from elsewhere
		if pk := c.x.prog.Pkgs[modPath]; pk != nil {
			o, idx, _ = types.LookupFieldOrMethod(v.typ, true, pk.Types, name)
			f, ok = o.(*types.Var)
		}
	}
	if !ok {
		c.fail("no field %s in %s", name, v.typ)
	}
	_ = f
	x := c.x
	t := v.typ
	cur := v.t
	isRef := isStructPtr(t)
	if isRef {
		t = deref(t)
	}
	for i, k := range idx {
		s := structOf(t)
		fl := s.Field(k)
		last := i == len(idx)-1
		key := x.fieldKey(t, fl)
		var val *Term
		if isRef {
			if structOf(fl.Type()) != nil && !isSyncLock(fl.Type()) {
				if last {
					return Val{t: x.loadStruct(c.st, x.subObj(cur, key), fl.Type()), typ: fl.Type()}
				}
				cur = x.subObj(cur, key)
				t = fl.Type()
				continue
			}
			if id := x.prog.AddrTaken[key]; id > 0 {
				val = Select(x.heapGet(c.st, compCell(fl.Type())), mkPtr(cur, Int(int64(id))))
			} else if isSyncLock(fl.Type()) {
				return Val{t: x.subObj(cur, key), typ: types.NewPointer(fl.Type())}
			} else {
				val = Select(x.heapGet(c.st, compField(key, fl.Type())), cur)
			}
		} else {
			val = sel(sortOf(t)+"."+fl.Name(), sortOf(fl.Type()), cur)
		}
		if last {
			return Val{t: val, typ: fl.Type()}
		}
		cur = val
		t = fl.Type()
		isRef = isStructPtr(t)
		if isRef {
			t = deref(t)
		}
	}
	return Val{}
}

func (c *SpecCtx) parseType(e ast.Expr) types.Type {
	switch u := e.(type) {
	case *ast.ParenExpr:
		return c.parseType(u.X)
	case *ast.Ident:
		if t := basicByName(u.Name); t != nil {
			return t
		}
		for _, pk := range []*types.Package{c.x.fi.Pkg.Types, c.x.prog.Pkgs[modPath].Types} {
			if o, ok := pk.Scope().Lookup(u.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(c.parseType(u.X))
	case *ast.ArrayType:
		return types.NewSlice(c.parseType(u.Elt))
	case *ast.MapType:
		return types.NewMap(c.parseType(u.Key), c.parseType(u.Value))
	case *ast.SelectorExpr:
		for _, imp := range allImports(c.x.prog) {
			if id, ok := u.X.(*ast.Ident); ok && imp.Name() == id.Name {
				if o, ok := imp.Scope().Lookup(u.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	}
	c.fail("unknown type")
	return nil
}

func allImports(p *Program) []*types.Package {
	seen := map[string]*types.Package{}
	for _, pk := range p.Pkgs {
		for _, i := range pk.Types.Imports() {
			seen[i.Path()] = i
		}
	}
	var out []*types.Package
	for _, k := range sortedKeys(seen) {
		out = append(out, seen[k])
	}
	return out
}

func basicByName(n string) types.Type {
	for _, b := range types.Typ {
		if b != nil && b.Name() == n && b.Info()&types.IsUntyped == 0 {
			return b
		}
	}
	return nil
}

// expandMacro substitutes the arguments; the variables the body binds are renamed so that they capture nothing.
func expandMacro(m *Macro, args []ast.Expr, depth int) ast.Expr {
	sub := map[string]ast.Expr{}
	ast.Inspect(m.Body, func(n ast.Node) bool {
		if ce, ok := n.(*ast.CallExpr); ok && len(ce.Args) > 0 {
			if id, ok := ce.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "all", "any", "allx", "anyx", "let":
					if v, ok := ce.Args[0].(*ast.Ident); ok {
						sub[v.Name] = &ast.Ident{Name: fmt.Sprintf("%s!%d", v.Name, depth)}
					}
				}
			}
		}
		return true
	})
	for i, p := range m.Params {
		sub[p] = args[i]
	}
	return substAST(m.Body, sub)
}

func substAST(e ast.Expr, m map[string]ast.Expr) ast.Expr {
	switch u := e.(type) {
	case *ast.Ident:
		if r, ok := m[u.Name]; ok {
			return r
		}
		return u
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: substAST(u.X, m)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: u.Op, X: substAST(u.X, m)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{Op: u.Op, X: substAST(u.X, m), Y: substAST(u.Y, m)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: substAST(u.X, m)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: substAST(u.X, m), Sel: u.Sel}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: substAST(u.X, m), Index: substAST(u.Index, m)}
	case *ast.SliceExpr:
		n := &ast.SliceExpr{X: substAST(u.X, m)}
		if u.Low != nil {
			n.Low = substAST(u.Low, m)
		}
		if u.High != nil {
			n.High = substAST(u.High, m)
		}
		return n
	case *ast.CallExpr:
		n := &ast.CallExpr{Fun: u.Fun}
		for _, a := range u.Args {
			n.Args = append(n.Args, substAST(a, m))
		}
		return n
	}
	return e
}

func (c *SpecCtx) call(e *ast.CallExpr) Val {
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		c.fail("call of a non-identifier")
	}
	x := c.x
	boolT := types.Typ[types.Bool]
	intT := types.Typ[types.Int]
	arg := func(i int) Val {
		if i >= len(e.Args) {
			c.fail("too few arguments to %s", id.Name)
		}
		return c.eval(e.Args[i])
	}
	switch id.Name {
	case "imp":
		g := *c
		g.goal = false
		return Val{t: Imp(g.eval(e.Args[0]).t, arg(1).t), typ: boolT}
	case "iff":
		g := *c
		g.goal = false
		return Val{t: Eq(g.eval(e.Args[0]).t, g.eval(e.Args[1]).t), typ: boolT}
	case "ite":
		cd, a, b := arg(0), arg(1), arg(2)
		if a.t.sort != b.t.sort {
			a.t, b.t = coerce(a.t, b.t)
		}
		return Val{t: Ite(cd.t, a.t, b.t), typ: a.typ}
	case "old":
		n := *c
		n.st = c.old
		n.inOld = true
		if c.oldEnv == nil {
			n.oldEnv = c.env
		}
		return n.eval(e.Args[0])
	case "released":
		// the value of an expression when the lock was last released (X@concurrent contracts)
		n := *c
		f, ok := e.Args[0].(*ast.SelectorExpr)
		if !ok {
			c.fail("released(Type.lock, expression)")
		}
		name := sanitize(f.X.(*ast.Ident).Name + "." + f.Sel.Name)
		n.st = c.old
		if c.st.conc != nil && c.st.conc.rel[name] != nil {
			n.st = c.st.conc.rel[name]
		}
		return n.eval(e.Args[1])
	case "entry":
		if c.loopEntry == nil {
			c.fail("entry() outside a loop")
		}
		n := *c
		n.st = c.loopEntry
		return n.eval(e.Args[0])
	case "now":
		// the current value of a parameter inside old-valued contexts
		return arg(0)
	case "len":
		v := arg(0)
		if v.typ != nil {
			switch v.typ.Underlying().(type) {
			case *types.Map:
				_, _, l := compMap(v.typ)
				return Val{t: Select(x.heapGet(c.st, l), v.t), typ: intT}
			}
		}
		if v.t.sort == "Str" {
			return Val{t: strLen(v.t), typ: intT}
		}
		return Val{t: sLen(v.t), typ: intT}
	case "cap":
		return Val{t: sCap(arg(0).t), typ: intT}
	case "arr":
		return Val{t: sArr(arg(0).t), typ: intT}
	case "off":
		return Val{t: sOff(arg(0).t), typ: intT}
	case "end":
		v := arg(0)
		return Val{t: Add(sOff(v.t), sLen(v.t)), typ: intT}
	case "row":
		v := arg(0)
		s, ok := v.typ.Underlying().(*types.Slice)
		if !ok {
			c.fail("row of a non-slice")
		}
		return Val{t: Select(x.heapGet(c.st, compElem(s.Elem())), sArr(v.t))}
	case "mkslice":
		t := arg(0)
		return Val{t: mkSlice(arg(1).t, arg(2).t, arg(3).t, arg(4).t), typ: t.typ}
	case "heap":
		// heap(Type.field) or heap(elem T)
		k := c.compOf(e.Args[0])
		return Val{t: x.heapGet(c.st, k)}
	case "elemheap":
		k := compElem(c.parseType(e.Args[0]))
		return Val{t: x.heapGet(c.st, k)}
	case "has":
		m, k := arg(0), arg(1)
		d, _, _ := compMap(m.typ)
		key := x.convertTo(k, m.typ.Underlying().(*types.Map).Key()).t
		return Val{t: Select(Select(x.heapGet(c.st, d), m.t), key), typ: boolT}
	case "visited": // visited(k) or visited(k, n): key k was already visited by the (n-th) map range
		name := "_visited"
		if len(e.Args) > 1 {
			name += types.ExprString(e.Args[1])
		}
		vis, ok := c.lookup(name)
		if !ok {
			c.fail("visited: no map range in scope")
		}
		return Val{t: Select(vis.t, arg(0).t), typ: boolT}
	case "dom":
		m := arg(0)
		d, _, _ := compMap(m.typ)
		return Val{t: Select(x.heapGet(c.st, d), m.t)}
	case "vals":
		m := arg(0)
		_, v, _ := compMap(m.typ)
		return Val{t: Select(x.heapGet(c.st, v), m.t)}
	case "is":
		t := c.parseType(e.Args[1])
		return Val{t: Eq(iTag(arg(0).t), tagOf(t)), typ: boolT}
	case "as":
		return fromIface(arg(0).t, c.parseType(e.Args[1]))
	case "cast":
		return Val{t: arg(0).t, typ: c.parseType(e.Args[1])}
	case "iface":
		v := arg(0)
		return Val{t: toIface(v), typ: types.NewInterfaceType(nil, nil)}
	case "fresh":
		v := arg(0)
		r := refOf(v.t)
		return Val{t: And(Le(x.nextOf(c.old), r), Lt(r, x.nextOf(c.st))), typ: boolT}
	case "freshloop":
		v := arg(0)
		return Val{t: And(Le(x.nextOf(c.loopEntry), refOf(v.t))), typ: boolT}
	case "allocated":
		v := arg(0)
		r := refOf(v.t)
		return Val{t: And(Le(Int(0), r), Lt(r, x.nextOf(c.st))), typ: boolT}
	case "cell":
		// cell(p): p is a variable of its own, not the address of a field
		return Val{t: Eq(pFld(arg(0).t), Int(0)), typ: boolT}
	case "ref":
		return Val{t: refOf(arg(0).t), typ: intT}
	case "real":
		return Val{t: ToReal(arg(0).t), typ: types.Typ[types.Float64]}
	case "store":
		return Val{t: Store(arg(0).t, arg(1).t, arg(2).t)}
	case "sub":
		// sub(x, Type.field): the embedded lock or struct of an object
		return Val{t: x.subObj(arg(0).t, c.selText(e.Args[1])), typ: intT}
	case "ext":
		name := "ext$" + litVals[arg(0).t]
		var ts []*Term
		var ss []string
		for _, a := range e.Args[2:] {
			t := c.eval(a).t
			ts = append(ts, t)
			ss = append(ss, t.sort)
		}
		srt := e.Args[1].(*ast.Ident).Name
		typ := basicByName(srt)
		if typ != nil {
			srt = sortOf(typ)
		} else if srt == "error" {
			typ = types.Universe.Lookup("error").Type()
			srt = "Iface"
		}
		ufDecls[name] = "(declare-fun " + symText(name) + " (" + strings.Join(ss, " ") + ") " + srt + ")"
		return Val{t: App(symText(name), srt, ts...), typ: typ}
	case "all", "any":
		return c.quant(e, id.Name == "any")
	case "allx", "anyx":
		name := e.Args[0].(*ast.Ident).Name
		var bv Val
		if sid, ok := e.Args[1].(*ast.Ident); ok && (sid.Name == "Int" || sid.Name == "Real" || sid.Name == "Str" || sid.Name == "Ptr" || sid.Name == "Slice" || sid.Name == "Iface") {
			bv = Val{t: BV(name, sid.Name)}
			if sid.Name == "Int" {
				bv.typ = intT
			}
			if sid.Name == "Str" {
				bv.typ = types.Typ[types.String]
			}
			if sid.Name == "Real" {
				bv.typ = types.Typ[types.Float64]
			}
		} else {
			t := c.parseType(e.Args[1])
			bv = Val{t: BV(name, sortOf(t)), typ: t}
		}
		n := c.bind(name, bv)
		body := n.eval(e.Args[2]).t
		if id.Name == "anyx" {
			return Val{t: mkExists(bv.t, Not(body)), typ: boolT}
		}
		return Val{t: mkForall(bv.t, body), typ: boolT}
	case "let":
		// let(name, value, body)
		n := c.bind(e.Args[0].(*ast.Ident).Name, arg(1))
		return n.eval(e.Args[2])
	case "string":
		return arg(0)
	case "float64":
		return Val{t: ToReal(arg(0).t), typ: types.Typ[types.Float64]}
	case "bit":
		return Val{t: App("bit", "Bool", arg(0).t, arg(1).t), typ: boolT}
	case "pow2":
		return Val{t: App("pow2", "Int", arg(0).t), typ: intT}
	case "pat":
		// pat(t, ...): the innermost quantifier is instantiated where these terms occur, and nowhere else
		var ts []*Term
		for i := range e.Args {
			ts = append(ts, arg(i).t)
		}
		return Val{t: App("pat$", "Bool", ts...), typ: boolT}
	case "trigger":
		// trigger(t): mentions a term so that lemmas can see it
		v := arg(0)
		return Val{t: Eq(v.t, v.t), typ: boolT}
	}
	if m := x.spec.Macros[id.Name]; m != nil {
		if len(m.Params) != len(e.Args) {
			c.fail("macro %s takes %d arguments", id.Name, len(m.Params))
		}
		if c.depth > 40 {
			c.fail("recursive macro %s", id.Name)
		}
		n := *c
		n.depth++
		return n.eval(expandMacro(m, e.Args, n.depth))
	}
	if it := lib.isFun(id.Name); it != nil {
		if len(e.Args) != len(it.params) {
			c.fail("%s takes %d arguments", id.Name, len(it.params))
		}
		var ts []*Term
		for i := range e.Args {
			t := arg(i).t
			if t == nil {
				c.fail("argument %d of %s", i, id.Name)
			}
			p := it.params[i]
			ps := p.String()
			if it.kind != "fun" {
				ps = p.list[1].String()
			}
			if ps == "Real" && t.sort == "Int" {
				t = ToReal(t)
			}
			if ps != t.sort {
				c.fail("argument %d of %s has sort %s, want %s", i+1, id.Name, t.sort, ps)
			}
			ts = append(ts, t)
		}
		v := Val{t: App(id.Name, it.sort, ts...)}
		switch it.sort {
		case "Bool":
			v.typ = boolT
		case "Int":
			v.typ = intT
		case "Real":
			v.typ = types.Typ[types.Float64]
		case "Str":
			v.typ = types.Typ[types.String]
		}
		return v
	}
	c.fail("unknown function %s", id.Name)
	return Val{}
}

func (c *SpecCtx) selText(e ast.Expr) string {
	s := e.(*ast.SelectorExpr)
	return s.X.(*ast.Ident).Name + "." + s.Sel.Name
}

// compOf names the heap component of Type.field.
func (c *SpecCtx) compOf(e ast.Expr) string {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		c.fail("heap component")
	}
	t := c.parseType(s.X)
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == s.Sel.Name {
			key := c.x.fieldKey(t, st.Field(i))
			if c.x.prog.AddrTaken[key] > 0 {
				return compCell(st.Field(i).Type())
			}
			return compField(key, st.Field(i).Type())
		}
	}
	c.fail("no field %s", s.Sel.Name)
	return ""
}

func refOf(t *Term) *Term {
	switch t.sort {
	case "Slice":
		return sArr(t)
	case "Ptr":
		return pBase(t)
	case "Iface":
		return sel("iint", "Int", t)
	}
	return t
}

func (x *Exec) nextOf(st *State) *Term { return x.next(st) }

// quant evaluates all(k, lo, hi, body) / any(k, lo, hi, body).
func (c *SpecCtx) quant(e *ast.CallExpr, exists bool) Val {
	if len(e.Args) != 4 {
		c.fail("all/any take (k, lo, hi, body)")
	}
	name := e.Args[0].(*ast.Ident).Name
	lo, hi := c.eval(e.Args[1]).t, c.eval(e.Args[2]).t
	// slices indexed directly by the variable: quantify over the absolute position instead
	offs := c.bareOffsets(e.Args[3], name)
	if len(offs) == 0 {
		offs = []*Term{Int(0)}
	}
	if c.goal || exists {
		offs = offs[:1]
	}
	var out []*Term
	for _, off := range offs {
		p := BV(name, "Int")
		kv := Sub(p, off)
		n := c.bind(name, Val{t: kv, typ: types.Typ[types.Int]})
		if exists {
			n.goal = false
		}
		body := n.eval(e.Args[3]).t
		if body.sort != "Bool" {
			c.fail("quantifier body is not boolean")
		}
		rng := And(Le(Add(off, lo), p), Lt(p, Add(off, hi)))
		if exists {
			out = append(out, mkExists(p, Imp(rng, Not(body))))
		} else {
			out = append(out, mkForall(p, Imp(rng, body)))
		}
	}
	return Val{t: And(out...), typ: types.Typ[types.Bool]}
}

func (c *SpecCtx) bareOffsets(body ast.Expr, k string) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(e ast.Expr, ctx *SpecCtx, bound map[string]bool)
	mentions := func(e ast.Expr, names map[string]bool) bool {
		f := false
		ast.Inspect(e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && names[id.Name] {
				f = true
			}
			return true
		})
		return f
	}
	walk = func(e ast.Expr, ctx *SpecCtx, bound map[string]bool) {
		switch u := e.(type) {
		case *ast.ParenExpr:
			walk(u.X, ctx, bound)
		case *ast.UnaryExpr:
			walk(u.X, ctx, bound)
		case *ast.StarExpr:
			walk(u.X, ctx, bound)
		case *ast.SelectorExpr:
			walk(u.X, ctx, bound)
		case *ast.BinaryExpr:
			walk(u.X, ctx, bound)
			walk(u.Y, ctx, bound)
		case *ast.IndexExpr:
			if id, ok := u.Index.(*ast.Ident); ok && id.Name == k && !mentions(u.X, bound) {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(specErr); !ok {
								if _, ok := r.(unsupported); !ok {
									panic(r)
								}
							}
						}
					}()
					v := ctx.eval(u.X)
					if v.t != nil && v.t.sort == "Slice" {
						o := sOff(v.t)
						if !seen[o] {
							seen[o] = true
							out = append(out, o)
						}
					} else if v.t != nil && strings.HasPrefix(v.t.sort, "(Array Int") {
						o := Int(0)
						if !seen[o] {
							seen[o] = true
							out = append(out, o)
						}
					}
				}()
			}
			walk(u.X, ctx, bound)
			walk(u.Index, ctx, bound)
		case *ast.CallExpr:
			id, _ := u.Fun.(*ast.Ident)
			if id == nil {
				return
			}
			switch id.Name {
			case "old":
				n := *ctx
				n.st = ctx.old
				n.inOld = true
				if ctx.oldEnv == nil {
					n.oldEnv = ctx.env
				}
				walk(u.Args[0], &n, bound)
				return
			case "released":
				n := *ctx
				if f, ok := u.Args[0].(*ast.SelectorExpr); ok && ctx.st.conc != nil {
					if r := ctx.st.conc.rel[sanitize(f.X.(*ast.Ident).Name+"."+f.Sel.Name)]; r != nil {
						n.st = r
					}
				}
				walk(u.Args[1], &n, bound)
				return
			case "entry":
				if ctx.loopEntry != nil {
					n := *ctx
					n.st = ctx.loopEntry
					walk(u.Args[0], &n, bound)
				}
				return
			case "all", "any", "allx", "anyx", "let":
				b := map[string]bool{}
				for q := range bound {
					b[q] = true
				}
				b[u.Args[0].(*ast.Ident).Name] = true
				for _, a := range u.Args[1:] {
					walk(a, ctx, b)
				}
				return
			}
			if m := c.x.spec.Macros[id.Name]; m != nil && len(m.Params) == len(u.Args) {
				n := *ctx
				n.depth++
				walk(expandMacro(m, u.Args, n.depth), &n, bound)
				return
			}
			for _, a := range u.Args {
				walk(a, ctx, bound)
			}
		}
	}
	walk(body, c, map[string]bool{k: true})
	return out
}

// mkForall builds a quantifier, flattening nested ones and choosing patterns.
func mkForall(v *Term, body *Term) *Term {
	if body == tTrue {
		return tTrue
	}
	bvs := []*Term{v}
	// flatten: guard => forall inner
	for {
		if body.kind == kQuant && body.op == "forall" {
			bvs = append(bvs, body.bvs...)
			body = body.args[0]
			continue
		}
		if body.kind == kApp && body.op == "=>" && body.args[1].kind == kQuant && body.args[1].op == "forall" && needsOuter(body.args[1], v) {
			in := body.args[1]
			bvs = append(bvs, in.bvs...)
			body = Imp(body.args[0], in.args[0])
			continue
		}
		break
	}
	if pats, b := explicitPatterns(bvs, body); pats != nil {
		if b == tTrue {
			return tTrue
		}
		return Forall(bvs, b, pats...)
	}
	pats := choosePatterns(bvs, body)
	return Forall(bvs, body, pats...)
}

// explicitPatterns takes the pat markers that cover the bound variables out of the body.
func explicitPatterns(bvs []*Term, body *Term) ([][]*Term, *Term) {
	var pats [][]*Term
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || t.kind == kQuant {
			return
		}
		seen[t] = true
		if t.kind == kApp && t.op == "pat$" {
			m[t] = tTrue
			for _, b := range bvs {
				if !mentions(t, map[*Term]bool{b: true}) {
					return
				}
			}
			pats = append(pats, t.args)
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(body)
	if len(m) == 0 {
		return nil, body
	}
	b := subst(body, m, map[*Term]*Term{})
	if pats == nil {
		pats = choosePatterns(bvs, b)
	}
	return pats, b
}

// mkExists builds "not for all v: nb". Terms of the body over variables bound further out
// are mentioned outside the quantifier as well (under a predicate that is always true),
// so that the solver sees them as soon as the outer variables are fixed.
func mkExists(v, nb *Term) *Term {
	e := Not(mkForall(v, nb))
	own := map[*Term]bool{v: true}
	var marks []*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] || !t.hasBV || t.kind == kQuant {
			return
		}
		seen[t] = true
		if t.kind == kApp && t.sort != "Bool" && !mentions(t, own) {
			switch t.op {
			case "+", "-", "*", "/", "ite", "to_real", "div", "mod", "to_int":
			default:
				if len(marks) < 4 {
					marks = append(marks, markTerm(t))
				}
				return
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(nb)
	if len(marks) == 0 {
		return e
	}
	return Imp(And(marks...), e)
}

func markTerm(t *Term) *Term {
	n := "mark$" + sanitize(t.sort)
	ufDecls[n] = "(declare-fun " + n + " (" + t.sort + ") Bool)\n(assert (forall ((x " + t.sort + ")) (! (" + n + " x) :pattern ((" + n + " x)))))"
	return App(n, "Bool", t)
}

// needsOuter: the inner quantifier's patterns mention the outer variable or the outer one has no pattern of its own.
func needsOuter(q, v *Term) bool { return true }

func mentions(t *Term, bvs map[*Term]bool) bool {
	vs := map[*Term]bool{}
	freeBVs(t, vs, map[*Term]bool{})
	for v := range vs {
		if bvs[v] {
			return true
		}
	}
	return false
}

func choosePatterns(bvs []*Term, body *Term) [][]*Term {
	isBV := map[*Term]bool{}
	for _, b := range bvs {
		isBV[b] = true
	}
	// candidate pattern terms: select(A, p) or f(...p...) with variables only in argument position
	type cand struct {
		t    *Term
		vars map[*Term]bool
	}
	var cands []cand
	seen := map[*Term]bool{}
	clean := map[*Term]int{} // 1: usable inside a pattern, 2: not
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if !t.hasBV {
			return true
		}
		if r := clean[t]; r != 0 {
			return r == 1
		}
		res := false
		switch {
		case t.kind == kBV:
			res = true
		case t.kind == kApp:
			switch t.op {
			case "and", "or", "not", "=>", "=", "<", "<=", "+", "-", "*", "/", "ite", "to_real", "div", "mod", "to_int":
				// arithmetic over variables bound further out is a constant
				res = !mentions(t, isBV) && t.sort != "Bool" && t.op != "ite"
			default:
				res = true
				for _, a := range t.args {
					if !ok(a) {
						res = false
					}
				}
			}
		}
		clean[t] = 2
		if res {
			clean[t] = 1
		}
		return res
	}
	var visit func(t *Term, inner bool)
	visit = func(t *Term, inner bool) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		if t.kind == kApp && ok(t) && len(t.args) > 0 {
			vs := map[*Term]bool{}
			freeBVs(t, vs, map[*Term]bool{})
			for v := range vs {
				if !isBV[v] {
					delete(vs, v) // bound further out: a constant here
				}
			}
			if len(vs) > 0 {
				cands = append(cands, cand{t, vs})
			}
		}
		for _, a := range t.args {
			visit(a, inner)
		}
	}
	visit(body, false)
	if len(cands) == 0 {
		return nil
	}
	// prefer minimal terms (those without a candidate proper subterm covering the same variables)
	size := func(t *Term) int { return termSize(t, map[*Term]int{}) }
	sort.SliceStable(cands, func(i, j int) bool { return size(cands[i].t) < size(cands[j].t) })
	var full []cand
	for _, c := range cands {
		if len(c.vars) == len(bvs) {
			sub := false
			for _, f := range full {
				if contains(c.t, f.t) {
					sub = true
				}
			}
			if !sub {
				full = append(full, c)
			}
		}
	}
	var pats [][]*Term
	for _, f := range full {
		if len(pats) < 6 {
			pats = append(pats, []*Term{f.t})
		}
	}
	if len(pats) > 0 {
		return pats
	}
	// multi-pattern
	var mp []*Term
	cov := map[*Term]bool{}
	for _, b := range bvs {
		if cov[b] {
			continue
		}
		found := false
		for _, c := range cands {
			if c.vars[b] {
				mp = append(mp, c.t)
				for v := range c.vars {
					cov[v] = true
				}
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return [][]*Term{mp}
}

func termSize(t *Term, memo map[*Term]int) int {
	if n, ok := memo[t]; ok {
		return n
	}
	n := 1
	for _, a := range t.args {
		n += termSize(a, memo)
		if n > 1000000 {
			break
		}
	}
	memo[t] = n
	return n
}

func contains(t, s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.args {
		if contains(a, s) {
			return true
		}
	}
	return false
}

// ---------- locations ----------

func (c *SpecCtx) locs(cls []*Clause) []Loc {
	var out []Loc
	for _, cl := range cls {
		out = append(out, c.loc(cl.Expr, cl.Text)...)
	}
	return out
}

func (c *SpecCtx) fieldLocs(ref *Term, t types.Type, f *types.Var, text string) []Loc {
	x := c.x
	key := x.fieldKey(t, f)
	if structOf(f.Type()) != nil {
		if isSyncLock(f.Type()) {
			return nil
		}
		var out []Loc
		s := structOf(f.Type())
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, c.fieldLocs(x.subObj(ref, key), f.Type(), s.Field(i), text)...)
		}
		return out
	}
	if id := x.prog.AddrTaken[key]; id > 0 {
		k := compCell(f.Type())
		x.heapGet(c.st, k)
		return []Loc{{comp: k, key: mkPtr(ref, Int(int64(id))), text: text}}
	}
	k := compField(key, f.Type())
	x.heapGet(c.st, k)
	return []Loc{{comp: k, key: ref, text: text}}
}

func (c *SpecCtx) loc(e ast.Expr, text string) []Loc {
	x := c.x
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.loc(e.X, text)
	case *ast.Ident:
		if g := x.spec.Ghosts[e.Name]; g != nil {
			k := "G:" + e.Name
			if comps[k] == nil {
				comps[k] = &compInfo{sort: g.Sort, kind: 'G'}
			}
			x.heapGet(c.st, k)
			return []Loc{{comp: k, text: text}}
		}
	case *ast.StarExpr:
		v := c.eval(e.X)
		t := v.typ.Underlying().(*types.Pointer).Elem()
		if s := structOf(t); s != nil {
			var out []Loc
			for i := 0; i < s.NumFields(); i++ {
				out = append(out, c.fieldLocs(v.t, t, s.Field(i), text)...)
			}
			return out
		}
		k := compCell(t)
		x.heapGet(c.st, k)
		return []Loc{{comp: k, key: v.t, text: text}}
	case *ast.SelectorExpr:
		b := c.eval(e.X)
		o, idx, _ := types.LookupFieldOrMethod(b.typ, true, c.x.fi.Pkg.Types, e.Sel.Name)
		if _, ok := o.(*types.Var); !ok {
			c.fail("no field %s", e.Sel.Name)
		}
		sb := selBase{st: c.st, ref: b.t, t: deref(b.typ)}
		for i, k := range idx {
			f := structOf(sb.t).Field(k)
			if i == len(idx)-1 {
				return c.fieldLocs(sb.ref, sb.t, f, text)
			}
			if isStructPtr(f.Type()) {
				v := c.field(Val{t: sb.ref, typ: types.NewPointer(sb.t)}, f.Name())
				sb.ref, sb.t = v.t, deref(f.Type())
			} else {
				sb.ref = x.subObj(sb.ref, x.fieldKey(sb.t, f))
				sb.t = f.Type()
			}
		}
	case *ast.IndexExpr:
		b := c.eval(e.X)
		i := c.eval(e.Index)
		if s, ok := b.typ.Underlying().(*types.Slice); ok {
			k := compElem(s.Elem())
			x.heapGet(c.st, k)
			a := absIdx(sOff(b.t), i.t)
			return []Loc{{comp: k, key: sArr(b.t), lo: a, hi: Add(a, Int(1)), text: text}}
		}
	case *ast.CallExpr:
		id := e.Fun.(*ast.Ident)
		switch id.Name {
		case "elems", "backing":
			v := c.eval(e.Args[0])
			s, ok := v.typ.Underlying().(*types.Slice)
			if !ok {
				c.fail("elems of a non-slice")
			}
			k := compElem(s.Elem())
			x.heapGet(c.st, k)
			n := sLen(v.t)
			if id.Name == "backing" {
				n = sCap(v.t)
			}
			return []Loc{{comp: k, key: sArr(v.t), lo: sOff(v.t), hi: Add(sOff(v.t), n), text: text}}
		case "array":
			v := c.eval(e.Args[0])
			k := compElem(v.typ.Underlying().(*types.Slice).Elem())
			x.heapGet(c.st, k)
			return []Loc{{comp: k, key: sArr(v.t), text: text}}
		case "mapof":
			v := c.eval(e.Args[0])
			d, vk, l := compMap(v.typ)
			x.heapGet(c.st, d)
			x.heapGet(c.st, vk)
			x.heapGet(c.st, l)
			return []Loc{{comp: d, key: v.t, text: text}, {comp: vk, key: v.t, text: text}, {comp: l, key: v.t, text: text}}
		case "allmaps":
			t := c.parseType(e.Args[0])
			d, vk, l := compMap(t)
			for _, k := range []string{d, vk, l} {
				x.heapGet(c.st, k)
			}
			return []Loc{{comp: d, text: text}, {comp: vk, text: text}, {comp: l, text: text}}
		case "allof":
			k := c.compOf(e.Args[0])
			x.heapGet(c.st, k)
			return []Loc{{comp: k, text: text}}
		case "allelems":
			k := compElem(c.parseType(e.Args[0]))
			x.heapGet(c.st, k)
			return []Loc{{comp: k, text: text}}
		case "allcells":
			k := compCell(c.parseType(e.Args[0]))
			x.heapGet(c.st, k)
			return []Loc{{comp: k, text: text}}
		case "when":
			cd := c.eval(e.Args[0]).t
			ls := c.loc(e.Args[1], text)
			for i := range ls {
				ls[i].cond = cd
			}
			return ls
		}
		if m := x.spec.Macros[id.Name]; m != nil {
			sub := map[string]ast.Expr{}
			for i, p := range m.Params {
				sub[p] = e.Args[i]
			}
			return c.loc(substAST(m.Body, sub), text)
		}
	}
	c.fail("not a location: %s", text)
	return nil
}
