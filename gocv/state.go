package main

// Symbolic state: variables, heap components, path condition.

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

type Closure struct {
	lit   *ast.FuncLit
	fr    *Frame
	fn    *types.Func // declared function or method
	recv  *Val
	iface bool
	ext   string // spec-level function
}

type Val struct {
	t   *Term
	typ types.Type
	clo *Closure
	tup []Val
}

type Var struct {
	fr    *Frame
	obj   types.Object
	name  string
	typ   types.Type
	boxed bool // lives in the heap: its Val is the Ptr (or Int ref for structs)
}

type Frame struct {
	id     int
	info   *types.Info
	pkg    *types.Package
	parent *Frame // lexically or dynamically enclosing frame, for name lookup
	lex    *Frame // lexically enclosing frame (closures)
	call   ast.Node
	vars   map[types.Object]*Var
	res    []*Var // named or synthetic results
	sig    *types.Signature
	fi     *FuncInfo
	lit    *ast.FuncLit
	addr   map[types.Object]bool
	depth  int
	body   *ast.BlockStmt
}

type PC struct {
	parent *PC
	t      *Term
	n      int
}

type deferred struct {
	call *ast.CallExpr
	fr   *Frame
	args []Val
	fun  Val
}

type State struct {
	vars   map[*Var]Val
	heap   map[string]*Term
	pc     *PC
	locks  map[string]string // lock key -> mode
	lockT  map[string]*Term
	nacq   map[string]int
	conc   *concState
	defers []deferred
	dead   bool
}

func newState() *State {
	return &State{vars: map[*Var]Val{}, heap: map[string]*Term{}, locks: map[string]string{}, nacq: map[string]int{}}
}

func (s *State) clone() *State {
	n := &State{vars: make(map[*Var]Val, len(s.vars)+4), heap: make(map[string]*Term, len(s.heap)+4), pc: s.pc, locks: map[string]string{}, nacq: map[string]int{}, defers: append([]deferred{}, s.defers...), dead: s.dead, lockT: s.lockT, conc: s.conc}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	for k, v := range s.nacq {
		n.nacq[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.kind == kApp && t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if t == tFalse {
		s.dead = true
	}
	nt := Not(t)
	n := 0
	for p := s.pc; p != nil; p = p.parent {
		if p.t == t {
			return
		}
		if p.t == nt {
			s.dead = true
			break
		}
		n++
	}
	k := 0
	if s.pc != nil {
		k = s.pc.n
	}
	s.pc = &PC{s.pc, t, k + 1}
}

func (s *State) knows(t *Term) bool {
	if t == tTrue {
		return true
	}
	for p := s.pc; p != nil; p = p.parent {
		if p.t == t {
			return true
		}
	}
	return false
}

func pcList(p *PC) []*Term {
	n := 0
	if p != nil {
		n = p.n
	}
	out := make([]*Term, 0, n)
	for ; p != nil; p = p.parent {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// pcSince lists the facts of p beyond its ancestor anc.
func pcSince(p, anc *PC) []*Term {
	var out []*Term
	for ; p != nil && p != anc; p = p.parent {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func commonPC(a, b *PC) *PC {
	for a != b {
		an, bn := 0, 0
		if a != nil {
			an = a.n
		}
		if b != nil {
			bn = b.n
		}
		if an >= bn && a != nil {
			a = a.parent
		} else if b != nil {
			b = b.parent
		} else {
			return nil
		}
	}
	return a
}

// ---------- types ----------

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isStructPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return ok
}
func structOf(t types.Type) *types.Struct {
	st, _ := t.Underlying().(*types.Struct)
	return st
}
func isSyncLock(t types.Type) bool {
	n := typeName(t)
	return n == "sync.Mutex" || n == "sync.RWMutex" || n == "sync.WaitGroup" || n == "sync.Once"
}

func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "Int"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		}
	case *types.Slice:
		return "Slice"
	case *types.Pointer:
		if isStructPtr(t) {
			return "Int"
		}
		return "Ptr"
	case *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		if isSyncLock(t) {
			return "Int"
		}
		return structSort(t)
	case *types.Array:
		return ArrS("Int", sortOf(u.Elem()))
	}
	panic(unsupported{fmt.Sprintf("type %s", t)})
}

type unsupported struct{ what string }

var structTypes = map[string]types.Type{}

func structSort(t types.Type) string {
	name := "S_" + sanitize(typeName(t))
	if _, ok := structDecls[name]; ok {
		return name
	}
	structDecls[name] = "" // recursion guard
	st := structOf(t)
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, fmt.Sprintf("(%s.%s %s)", name, st.Field(i).Name(), sortOf(st.Field(i).Type())))
	}
	if len(fs) == 0 {
		fs = []string{"(" + name + ".dummy Int)"}
	}
	structDecls[name] = fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk%s %s))))", name, name, strings.Join(fs, " "))
	structOrder = append(structOrder, name)
	structTypes[name] = t
	return name
}

var nilSlice = App("mkslice", "Slice", Int(0), Int(0), Int(0), Int(0))
var nilPtr = App("mkptr", "Ptr", Int(0), Int(0))
var emptyStr = Sym("lit$", "Str")
var nilIface = App("mkiface", "Iface", Int(0), Int(0), RealLit0, emptyStr)
var RealLit0 = intern(&Term{op: "0", sort: "Real", kind: kLit})

func zeroOf(t types.Type) *Term {
	switch s := sortOf(t); s {
	case "Bool":
		return tFalse
	case "Int":
		return Int(0)
	case "Real":
		return RealLit0
	case "Str":
		return strLit("")
	case "Slice":
		return nilSlice
	case "Ptr":
		return nilPtr
	case "Iface":
		return nilIface
	default:
		if a, ok := t.Underlying().(*types.Array); ok {
			return ConstArr(s, zeroOf(a.Elem()))
		}
		st := structOf(t)
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			as = append(as, zeroOf(st.Field(i).Type()))
		}
		if len(as) == 0 {
			as = []*Term{Int(0)}
		}
		return App("mk"+s, s, as...)
	}
}

func strLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	name := "lit$"
	if s != "" {
		name += sanitize(s)
		if sanitize(s) != s || len(s) > 40 {
			name = "lit$" + hashText(s) + "_" + sanitize(s)
			if len(name) > 60 {
				name = name[:60]
			}
		}
	}
	t := Sym(name, "Str")
	strLits[s] = t
	litVals[t] = s
	return t
}

var litVals = map[*Term]string{}

func sel(op, srt string, t *Term) *Term {
	if c, ok := ctorOf(t); ok {
		idx := -1
		switch {
		case c == "mkslice":
			idx = map[string]int{"sarr": 0, "soff": 1, "slen": 2, "scap": 3}[op]
		case c == "mkptr":
			idx = map[string]int{"pbase": 0, "pfld": 1}[op]
		case c == "mkiface":
			idx = map[string]int{"itag": 0, "iint": 1, "ireal": 2, "istr": 3}[op]
		default:
			st := structOf(structTypes[c[2:]])
			for i := 0; i < st.NumFields(); i++ {
				if c[2:]+"."+st.Field(i).Name() == op {
					idx = i
				}
			}
		}
		if idx >= 0 {
			return t.args[idx]
		}
	}
	if t.kind == kApp && t.op == "ite" {
		a, oka := ctorOf(t.args[1])
		b, okb := ctorOf(t.args[2])
		if oka && okb && a == b {
			return Ite(t.args[0], sel(op, srt, t.args[1]), sel(op, srt, t.args[2]))
		}
	}
	return App(op, srt, t)
}
func sArr(t *Term) *Term  { return sel("sarr", "Int", t) }
func sOff(t *Term) *Term  { return sel("soff", "Int", t) }
func sLen(t *Term) *Term  { return sel("slen", "Int", t) }
func sCap(t *Term) *Term  { return sel("scap", "Int", t) }
func pBase(t *Term) *Term { return sel("pbase", "Int", t) }
func pFld(t *Term) *Term  { return sel("pfld", "Int", t) }
func iTag(t *Term) *Term  { return sel("itag", "Int", t) }
func mkSlice(a, o, l, c *Term) *Term {
	return App("mkslice", "Slice", a, o, l, c)
}
func mkPtr(b, f *Term) *Term { return App("mkptr", "Ptr", b, f) }
func mkIface(tag, i, r, s *Term) *Term {
	return App("mkiface", "Iface", tag, i, r, s)
}

// type tags of dynamic types
var typeTags = map[string]int{}
var tagTypes []types.Type

func tagOf(t types.Type) *Term {
	k := types.TypeString(t, nil)
	n, ok := typeTags[k]
	if !ok {
		n = len(typeTags) + 1
		_, isMap := t.Underlying().(*types.Map)
		if isMap || isStructPtr(t) {
			n = -n // the payload is a reference
		}
		typeTags[k] = n
		tagTypes = append(tagTypes, t)
	}
	return Int(int64(n))
}

func toIface(v Val) *Term {
	if v.typ == nil {
		panic(unsupported{"untyped value to interface"})
	}
	if types.IsInterface(v.typ) {
		return v.t
	}
	if b, ok := v.typ.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return nilIface
	}
	if v.t == nil {
		return mkIface(tagOf(v.typ), Fresh("boxed", "Int"), RealLit0, emptyStr)
	}
	tag := tagOf(v.typ)
	switch v.t.sort {
	case "Int":
		return mkIface(tag, v.t, RealLit0, emptyStr)
	case "Bool":
		return mkIface(tag, Ite(v.t, Int(1), Int(0)), RealLit0, emptyStr)
	case "Real":
		return mkIface(tag, Int(0), v.t, emptyStr)
	case "Str":
		return mkIface(tag, Int(0), RealLit0, v.t)
	}
	// other values: opaque payload
	return mkIface(tag, Fresh("boxed", "Int"), RealLit0, emptyStr)
}

func fromIface(t *Term, typ types.Type) Val {
	switch s := sortOf(typ); s {
	case "Int":
		return Val{t: sel("iint", "Int", t), typ: typ}
	case "Bool":
		return Val{t: Not(Eq(sel("iint", "Int", t), Int(0))), typ: typ}
	case "Real":
		return Val{t: sel("ireal", "Real", t), typ: typ}
	case "Str":
		return Val{t: sel("istr", "Str", t), typ: typ}
	default:
		return Val{t: Fresh("unboxed", s), typ: typ}
	}
}

// elemKey names the heap component of slice elements of type t.
func elemKey(t types.Type) string { return "E:" + compType(t) }
func cellKey(t types.Type) string { return "P:" + compType(t) }
func compType(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string {
		if p.Path() == modPath {
			return ""
		}
		return p.Name()
	})
}

type compInfo struct {
	sort string     // sort of the whole component
	val  types.Type // Go type of the values
	kind byte       // F E P D V L G N
	typ  types.Type // map type for D/V/L
}

var comps = map[string]*compInfo{}

func compField(key string, ft types.Type) string {
	k := "F:" + key
	if comps[k] == nil {
		comps[k] = &compInfo{sort: ArrS("Int", sortOf(ft)), val: ft, kind: 'F'}
	}
	return k
}
func compElem(t types.Type) string {
	k := elemKey(t)
	if comps[k] == nil {
		comps[k] = &compInfo{sort: ArrS("Int", ArrS("Int", sortOf(t))), val: t, kind: 'E'}
	}
	return k
}
func compCell(t types.Type) string {
	k := cellKey(t)
	if comps[k] == nil {
		comps[k] = &compInfo{sort: ArrS("Ptr", sortOf(t)), val: t, kind: 'P'}
	}
	return k
}
func compMap(t types.Type) (d, v, l string) {
	m := t.Underlying().(*types.Map)
	s := compType(m)
	d, v, l = "D:"+s, "V:"+s, "L:"+s
	if comps[d] == nil {
		ks, vs := sortOf(m.Key()), sortOf(m.Elem())
		comps[d] = &compInfo{sort: ArrS("Int", ArrS(ks, "Bool")), kind: 'D', typ: m}
		comps[v] = &compInfo{sort: ArrS("Int", ArrS(ks, vs)), kind: 'V', typ: m, val: m.Elem()}
		comps[l] = &compInfo{sort: ArrS("Int", "Int"), kind: 'L', typ: m}
	}
	return
}

// wf returns the facts that hold of every well formed value of the type, given the allocation bound.
func wf(t *Term, typ types.Type, next *Term) *Term {
	switch typ.Underlying().(type) {
	case *types.Slice:
		if _, ok := ctorOf(t); ok && sArr(t) == Int(0) {
			return tTrue
		}
		a, o, l, c := sArr(t), sOff(t), sLen(t), sCap(t)
		return And(Le(Int(0), a), Lt(a, next), Le(Int(0), o), Le(Int(0), l), Le(l, c), Imp(Eq(a, Int(0)), And(Eq(c, Int(0)), Eq(o, Int(0)))))
	case *types.Map:
		return And(Le(Int(0), t), Lt(t, next))
	case *types.Pointer:
		if isStructPtr(typ) {
			return And(Le(Int(0), t), Lt(t, next))
		}
		return And(Le(Int(0), pBase(t)), Lt(pBase(t), next), Le(Int(0), pFld(t)))
	case *types.Interface:
		return ptrTagBound(t, next)
	case *types.Basic:
		b := typ.Underlying().(*types.Basic)
		if b.Info()&types.IsUnsigned != 0 {
			return Le(Int(0), t)
		}
	}
	return tTrue
}

// ptrTagBound: an interface holding a pointer holds an allocated (or nil) one.
func ptrTagBound(t, next *Term) *Term {
	if _, ok := ctorOf(t); ok {
		return tTrue
	}
	p := sel("iint", "Int", t)
	return Imp(Lt(iTag(t), Int(0)), And(Le(Int(0), p), Lt(p, next)))
}

func (x *Exec) heapGet(st *State, k string) *Term {
	if h, ok := st.heap[k]; ok {
		return h
	}
	ci := comps[k]
	if ci == nil {
		panic(unsupported{"heap component " + k})
	}
	// first touch: the component as it was at function entry
	h, ok := x.entryHeap[k]
	if !ok {
		h = Sym("H0$"+sanitize(k)+"$"+x.tag, ci.sort)
		x.entryHeap[k] = h
		x.heapWF[h] = ci
		x.heapFacts[h] = x.compWF(h, ci, x.next0)
	}
	st.heap[k] = h
	return h
}

// compWF: everything stored in allocated objects is well formed.
func (x *Exec) compWF(h *Term, ci *compInfo, next *Term) *Term {
	switch ci.kind {
	case 'F':
		r := BV("r", "Int")
		b := wf(Select(h, r), ci.val, next)
		if b == tTrue {
			return tTrue
		}
		return Forall([]*Term{r}, Imp(And(Le(Int(0), r), Lt(r, next)), b), []*Term{Select(h, r)})
	case 'E':
		r, i := BV("r", "Int"), BV("i", "Int")
		b := wf(Select(Select(h, r), i), ci.val, next)
		if b == tTrue {
			return tTrue
		}
		return Forall([]*Term{r, i}, Imp(And(Le(Int(0), r), Lt(r, next)), b), []*Term{Select(Select(h, r), i)})
	case 'P':
		r := BV("r", "Ptr")
		b := wf(Select(h, r), ci.val, next)
		if b == tTrue {
			return tTrue
		}
		return Forall([]*Term{r}, Imp(And(Le(Int(0), pBase(r)), Lt(pBase(r), next)), b), []*Term{Select(h, r)})
	case 'V':
		r := BV("r", "Int")
		ks, _ := arrSorts(elemSort(ci.sort))
		i := BV("i", ks)
		b := wf(Select(Select(h, r), i), ci.val, next)
		if b == tTrue {
			return tTrue
		}
		return Forall([]*Term{r, i}, Imp(And(Le(Int(0), r), Lt(r, next)), b), []*Term{Select(Select(h, r), i)})
	case 'L':
		r := BV("r", "Int")
		return Forall([]*Term{r}, Le(Int(0), Select(h, r)), []*Term{Select(h, r)})
	case 'D':
		// the nil map has no keys
		ks, _ := arrSorts(elemSort(ci.sort))
		return Eq(Select(h, Int(0)), ConstArr(ArrS(ks, "Bool"), tFalse))
	}
	return tTrue
}

func (x *Exec) next(st *State) *Term {
	if h, ok := st.heap["next"]; ok {
		return h
	}
	st.heap["next"] = x.next0
	return x.next0
}

// writes are logged for loop discovery
type writeLog struct {
	vars  map[*Var]bool
	comps map[string]map[*Term]bool // component -> keys written
	alloc bool
	cells map[string]map[[2]*Term]bool
}

func newWriteLog() *writeLog {
	return &writeLog{vars: map[*Var]bool{}, comps: map[string]map[*Term]bool{}}
}

func (x *Exec) logVar(v *Var) {
	for _, l := range x.logs {
		l.vars[v] = true
	}
}
func (x *Exec) logComp(k string, key *Term) {
	for _, l := range x.logs {
		m := l.comps[k]
		if m == nil {
			m = map[*Term]bool{}
			l.comps[k] = m
		}
		m[key] = true
	}
}

func (x *Exec) setVar(st *State, v *Var, val Val) {
	st.vars[v] = val
	x.logVar(v)
}

// heapSet replaces component k at object key (and element idx for E/V/D kinds) by val.
func (x *Exec) heapSet(st *State, k string, key *Term, h *Term) {
	st.heap[k] = h
	x.logComp(k, key)
}

func (x *Exec) alloc(st *State) *Term {
	n := x.next(st)
	st.heap["next"] = Add(n, Int(1))
	for _, l := range x.logs {
		l.alloc = true
	}
	return n
}
