package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// mayAlloc tells whether calling the function may create objects the caller
// could get hold of (make, new, append, composite literals behind references,
// closures, address-taken locals, or a callee that may). The analysis reads the
// function's current source; unknown callees count as allocating.
func (p *Program) mayAlloc(fi *FuncInfo, spec *Spec) bool {
	if p.allocMemo == nil {
		p.allocMemo = map[*FuncInfo]int{}
	}
	switch p.allocMemo[fi] {
	case 1, 2: // 1: being analysed (recursion)
		return true
	case 3:
		return false
	}
	p.allocMemo[fi] = 1
	r := p.bodyAllocs(fi, spec)
	p.allocMemo[fi] = 3
	if r {
		p.allocMemo[fi] = 2
	}
	return r
}

func (p *Program) bodyAllocs(fi *FuncInfo, spec *Spec) bool {
	if fi.Decl == nil || fi.Decl.Body == nil {
		return true
	}
	info := fi.Pkg.Info
	found := false
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		if found {
			return false
		}
		switch u := n.(type) {
		case *ast.FuncLit, *ast.CompositeLit, *ast.GoStmt, *ast.DeferStmt, *ast.SendStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if u.Op == token.AND {
				found = true
			}
		case *ast.CallExpr:
			if tv, ok := info.Types[u.Fun]; ok && tv.IsType() {
				if types.IsInterface(tv.Type) {
					found = true
				}
				return true
			}
			var id *ast.Ident
			switch f := ast.Unparen(u.Fun).(type) {
			case *ast.Ident:
				id = f
			case *ast.SelectorExpr:
				id = f.Sel
			default:
				found = true
				return false
			}
			switch o := info.Uses[id].(type) {
			case *types.Builtin:
				switch o.Name() {
				case "make", "new", "append":
					found = true
				}
			case *types.Func:
				if p.funcAllocs(o, spec) {
					found = true
				}
			default:
				found = true
			}
		}
		return true
	})
	return found
}

func (p *Program) funcAllocs(o *types.Func, spec *Spec) bool {
	if fi := p.ByObj[o]; fi != nil {
		return p.mayAlloc(fi, spec)
	}
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil && types.IsInterface(r.Type()) {
		cs, ok := spec.Dispatch[typeName(r.Type())]
		if !ok {
			return true
		}
		for _, cn := range cs {
			found := false
			for _, fi := range p.Funcs {
				if fi.Obj.Name() == o.Name() && fi.Obj.Type().(*types.Signature).Recv() != nil && "*"+recvName(fi.Obj) == cn {
					found = true
					if p.mayAlloc(fi, spec) {
						return true
					}
				}
			}
			if !found {
				return true
			}
		}
		return false
	}
	key := funcKey(o)
	if ct := spec.Contracts[key]; ct != nil {
		return !ct.Opts["noalloc"]
	}
	if spec.PureExt[key] {
		return false
	}
	return o.Pkg() == nil || o.Pkg().Path() != "math"
}

func recvName(o *types.Func) string {
	t := deref(o.Type().(*types.Signature).Recv().Type())
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return "?"
}
