package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/ryanbressler/CloudForest"

type FuncInfo struct {
	Key  string // Type.Method or name, with "pkg." prefix outside the root package
	Decl *ast.FuncDecl
	Obj  *types.Func
	Pkg  *Pkg
}

type Pkg struct {
	Path  string
	Name  string
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
}

type Program struct {
	Fset      *token.FileSet
	Dir       string
	Pkgs      map[string]*Pkg
	Funcs     map[string]*FuncInfo
	ByObj     map[*types.Func]*FuncInfo
	AddrTaken map[string]int // "Type.field" -> index (>=1)
	Errs      []error
	allocMemo map[*FuncInfo]int
}

type imp struct {
	p   *Program
	std types.Importer
}

func (i imp) Import(path string) (*types.Package, error) {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		pk, err := i.p.load(path)
		if err != nil {
			return nil, err
		}
		return pk.Types, nil
	}
	return i.std.Import(path)
}

func LoadProgram(dir string, paths []string) (*Program, error) {
	p := &Program{Fset: token.NewFileSet(), Dir: dir, Pkgs: map[string]*Pkg{}, Funcs: map[string]*FuncInfo{}, ByObj: map[*types.Func]*FuncInfo{}, AddrTaken: map[string]int{}}
	for _, path := range paths {
		if _, err := p.load(path); err != nil {
			return nil, err
		}
	}
	return p, nil
}

var stdImporter types.Importer

func (p *Program) load(path string) (*Pkg, error) {
	if pk, ok := p.Pkgs[path]; ok {
		return pk, nil
	}
	dir := filepath.Join(p.Dir, strings.TrimPrefix(path, modPath))
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	pk := &Pkg{Path: path}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(p.Fset, filepath.Join(dir, n), src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		skip := false
		for _, cg := range f.Comments {
			if cg.Pos() < f.Package && (strings.Contains(cg.Text(), "+build") || hasGoBuild(cg)) {
				skip = true // files behind build tags are not part of the normal build
			}
		}
		if !skip {
			pk.Files = append(pk.Files, f)
		}
	}
	sort.Slice(pk.Files, func(i, j int) bool {
		return p.Fset.File(pk.Files[i].Pos()).Name() < p.Fset.File(pk.Files[j].Pos()).Name()
	})
	if stdImporter == nil {
		stdImporter = importer.ForCompiler(p.Fset, "source", nil)
	}
	pk.Info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: imp{p, stdImporter}, Error: func(err error) { p.Errs = append(p.Errs, err) }}
	pk.Types, err = conf.Check(path, p.Fset, pk.Files, pk.Info)
	if err != nil {
		return nil, fmt.Errorf("type check %s: %v", path, err)
	}
	pk.Name = pk.Types.Name()
	p.Pkgs[path] = pk
	prefix := ""
	if path != modPath {
		prefix = pk.Name + "."
	}
	for _, f := range pk.Files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			obj := pk.Info.Defs[fd.Name].(*types.Func)
			key := prefix + fd.Name.Name
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				key = prefix + t.(*ast.Ident).Name + "." + fd.Name.Name
			}
			fi := &FuncInfo{Key: key, Decl: fd, Obj: obj, Pkg: pk}
			p.Funcs[key] = fi
			p.ByObj[obj] = fi
		}
		ast.Inspect(f, func(n ast.Node) bool {
			u, ok := n.(*ast.UnaryExpr)
			if ok && u.Op == token.AND {
				x := u.X
				for {
					if pe, ok := x.(*ast.ParenExpr); ok {
						x = pe.X
						continue
					}
					break
				}
				if se, ok := x.(*ast.SelectorExpr); ok {
					if sel := pk.Info.Selections[se]; sel != nil && sel.Kind() == types.FieldVal {
						p.AddrTaken[fieldKeyOfSel(sel)] = 0
					}
				}
			}
			return true
		})
	}
	ks := sortedKeys(p.AddrTaken)
	for i, k := range ks {
		p.AddrTaken[k] = i + 1
	}
	return pk, nil
}

func hasGoBuild(cg *ast.CommentGroup) bool {
	for _, c := range cg.List {
		if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
			return true
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fieldKeyOfSel names the final field of a selection as Type.field.
func fieldKeyOfSel(sel *types.Selection) string {
	t := deref(sel.Recv())
	idx := sel.Index()
	for i, n := range idx {
		st := t.Underlying().(*types.Struct)
		f := st.Field(n)
		if i == len(idx)-1 {
			return typeName(t) + "." + f.Name()
		}
		t = deref(f.Type())
	}
	return ""
}

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		pk := n.Obj().Pkg()
		if pk != nil && pk.Path() != modPath {
			return pk.Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	if a, ok := t.(*types.Alias); ok {
		return typeName(types.Unalias(a))
	}
	return sanitize(t.String())
}
