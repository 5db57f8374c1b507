package main

import (
	"go/ast"
	"go/types"
)

// A contract with the key X@Y specifies X for the function literal that Y passes
// to it. X is then verified with that literal: its body is executed where X calls
// the parameter, over arbitrary values of the variables it captures from Y.

// closureFrom builds the closure value that fi's parameter p stands for when called by the function keyed y.
func (x *Exec) closureFrom(st *State, fi *FuncInfo, p *types.Var, y string) *Closure {
	yf := x.prog.Funcs[y]
	if yf == nil || yf.Decl.Body == nil {
		panic(unsupported{"no function " + y})
	}
	info := yf.Pkg.Info
	sig := fi.Obj.Type().(*types.Signature)
	idx := -1
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i) == p {
			idx = i
		}
	}
	var lit *ast.FuncLit
	n := 0
	ast.Inspect(yf.Decl.Body, func(nd ast.Node) bool {
		c, ok := nd.(*ast.CallExpr)
		if !ok {
			return true
		}
		if idx < len(c.Args) && calleeOf(info, c) == fi.Obj {
			n++
			lit = funcLitOf(info, yf.Decl.Body, c.Args[idx])
		}
		return true
	})
	if n != 1 || lit == nil {
		panic(unsupported{y + " does not pass one function literal to " + fi.Key})
	}
	return x.litClosure(st, yf, lit)
}

// A contract with the key Y@lit specifies the one function literal of Y on its own, over arbitrary values of
// the variables it captures. Where another contract's function calls that literal, the contract stands for it.
const litSuffix = "@lit"

// onlyLit finds the one function literal of a body that is not inside another.
func onlyLit(body ast.Node) *ast.FuncLit {
	var lit *ast.FuncLit
	n := 0
	ast.Inspect(body, func(nd ast.Node) bool {
		if l, ok := nd.(*ast.FuncLit); ok {
			lit = l
			n++
			return false
		}
		return true
	})
	if n != 1 {
		return nil
	}
	return lit
}

// litContract is the contract Y@lit of a closure, unless it is the one being verified.
func (x *Exec) litContract(c *Closure) *Contract {
	if c.fr == nil || c.fr.fi == nil || c.fr.body == nil {
		return nil
	}
	ct := x.spec.Contracts[c.fr.fi.Key+litSuffix]
	if ct == nil || ct == x.ct || onlyLit(c.fr.fi.Decl.Body) != c.lit {
		return nil
	}
	return ct
}

// litClosure is the closure of a function literal of yf over arbitrary values of what it captures.
func (x *Exec) litClosure(st *State, yf *FuncInfo, lit *ast.FuncLit) *Closure {
	info := yf.Pkg.Info
	fr := x.newFrame(info, yf.Pkg.Types, yf.Obj.Type().(*types.Signature), nil)
	fr.fi = yf
	fr.body = yf.Decl.Body
	fr.addr = addrTaken(info, yf.Decl.Body)
	for _, v := range freeVars(info, lit) {
		if _, ok := v.Type().Underlying().(*types.Signature); ok {
			panic(unsupported{"function literal captures the function " + v.Name()})
		}
		vr := &Var{fr: fr, obj: v, name: v.Name(), typ: v.Type()}
		fr.vars[v] = vr
		if fr.addr[v] {
			vr.boxed = true
			t := types.NewPointer(v.Type())
			pv := Val{t: Sym(sanitize(v.Name())+"$cap", sortOf(t)), typ: t}
			st.assume(wf(pv.t, t, x.next0))
			st.assume(Not(isNilTerm(pv)))
			st.vars[vr] = pv
			continue
		}
		val := Val{t: Sym(sanitize(v.Name())+"$cap", sortOf(v.Type())), typ: v.Type()}
		st.assume(wf(val.t, v.Type(), x.next0))
		st.vars[vr] = val
	}
	return &Closure{lit: lit, fr: fr}
}

func isNilTerm(v Val) *Term {
	if v.t.sort == "Ptr" {
		return Eq(pBase(v.t), Int(0))
	}
	return Eq(v.t, Int(0))
}

// captureEnv names the variables a function literal captures: by value when they are only read, by pointer
// when they live in memory. Names a contract lists under captures that the literal no longer uses stand for
// the literal's other captured variables, in order.
func (x *Exec) captureEnv(st *State, ct *Contract, c *Closure) map[string]Val {
	env := map[string]Val{}
	listed := map[string]bool{}
	for _, n := range ct.Captures {
		listed[n] = true
	}
	var extra []Val
	for _, v := range freeVars(c.fr.info, c.lit) {
		vr := x.lookupVar(c.fr, v)
		if vr == nil {
			continue
		}
		val, ok := st.vars[vr]
		if !ok {
			continue
		}
		if !vr.boxed {
			val = x.readVar(st, vr)
		} else {
			val.typ = types.NewPointer(vr.typ)
		}
		if _, dup := env[v.Name()]; dup || !listed[v.Name()] {
			extra = append(extra, val)
		}
		env[v.Name()] = val
	}
	for _, n := range ct.Captures {
		if _, ok := env[n]; !ok && len(extra) > 0 {
			env[n] = extra[0]
			extra = extra[1:]
		}
	}
	return env
}

func calleeOf(info *types.Info, c *ast.CallExpr) types.Object {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		return info.Uses[f]
	case *ast.SelectorExpr:
		return info.Uses[f.Sel]
	}
	return nil
}

// funcLitOf finds the function literal an argument stands for: the literal itself, or the only one assigned to the variable.
func funcLitOf(info *types.Info, body ast.Node, e ast.Expr) *ast.FuncLit {
	switch u := ast.Unparen(e).(type) {
	case *ast.FuncLit:
		return u
	case *ast.CallExpr:
		if tv, ok := info.Types[u.Fun]; ok && tv.IsType() && len(u.Args) == 1 {
			return funcLitOf(info, body, u.Args[0])
		}
	case *ast.Ident:
		o := info.ObjectOf(u)
		var lit *ast.FuncLit
		n := 0
		set := func(l, r ast.Expr) {
			if id, ok := l.(*ast.Ident); ok && info.ObjectOf(id) == o {
				n++
				if _, again := ast.Unparen(r).(*ast.Ident); !again {
					lit = funcLitOf(info, body, r)
				}
			}
		}
		ast.Inspect(body, func(nd ast.Node) bool {
			switch s := nd.(type) {
			case *ast.AssignStmt:
				for i, l := range s.Lhs {
					if i < len(s.Rhs) {
						set(l, s.Rhs[i])
					}
				}
			case *ast.ValueSpec:
				for i, l := range s.Names {
					if i < len(s.Values) {
						set(l, s.Values[i])
					}
				}
			}
			return true
		})
		if n == 1 {
			return lit
		}
	}
	return nil
}

// freeVars lists the local variables a function literal uses and does not declare, in order of first use.
func freeVars(info *types.Info, lit *ast.FuncLit) []*types.Var {
	var out []*types.Var
	seen := map[*types.Var]bool{}
	ast.Inspect(lit, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := info.Uses[id].(*types.Var)
		if !ok || v.IsField() || seen[v] || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
			return true
		}
		if v.Pos() >= lit.Pos() && v.Pos() < lit.End() {
			return true
		}
		seen[v] = true
		out = append(out, v)
		return true
	})
	return out
}

// assignedInLits marks the variables that a function literal assigns but does not declare: they outlive the
// frame of any single call and live in memory.
func assignedInLits(info *types.Info, body ast.Node, out map[types.Object]bool) {
	ast.Inspect(body, func(n ast.Node) bool {
		lit, ok := n.(*ast.FuncLit)
		if !ok {
			return true
		}
		free := map[*types.Var]bool{}
		for _, v := range freeVars(info, lit) {
			free[v] = true
		}
		mark := func(e ast.Expr) {
			if id, ok := ast.Unparen(e).(*ast.Ident); ok {
				if v, ok := info.Uses[id].(*types.Var); ok && free[v] {
					out[v] = true
				}
			}
		}
		ast.Inspect(lit.Body, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(s.X)
			case *ast.RangeStmt:
				if s.Key != nil {
					mark(s.Key)
				}
				if s.Value != nil {
					mark(s.Value)
				}
			}
			return true
		})
		return true
	})
}
