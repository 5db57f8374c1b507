package main

// Hash-consed SMT terms.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	op    string // operator, constant name, or literal text
	args  []*Term
	sort  string
	id    int
	kind  int // 0 app, 1 const symbol, 2 literal, 3 quantifier, 4 bound var
	bvs   []*Term
	pats  [][]*Term
	hasBV bool
}

const (
	kApp = iota
	kSym
	kLit
	kQuant
	kBV
)

var termTab = map[string]*Term{}
var termList []*Term

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(t.kind))
	sb.WriteByte(' ')
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, b := range t.bvs {
		sb.WriteString(" b")
		sb.WriteString(strconv.Itoa(b.id))
	}
	for _, p := range t.pats {
		sb.WriteString(" p")
		for _, x := range p {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(x.id))
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	for _, a := range t.args {
		if a.hasBV {
			t.hasBV = true
		}
	}
	if t.kind == kBV {
		t.hasBV = true
	}
	if t.kind == kQuant {
		// conservatively: a closed quantifier is one whose body mentions only its own bound vars
		free := map[*Term]bool{}
		freeBVs(t.args[0], free, map[*Term]bool{})
		for _, b := range t.bvs {
			delete(free, b)
		}
		t.hasBV = len(free) > 0
	}
	t.id = len(termList)
	termList = append(termList, t)
	termTab[k] = t
	return t
}

func freeBVs(t *Term, out, seen map[*Term]bool) {
	if !t.hasBV || seen[t] {
		return
	}
	seen[t] = true
	if t.kind == kBV {
		out[t] = true
		return
	}
	if t.kind == kQuant {
		inner := map[*Term]bool{}
		freeBVs(t.args[0], inner, map[*Term]bool{})
		for _, b := range t.bvs {
			delete(inner, b)
		}
		for k := range inner {
			out[k] = true
		}
		return
	}
	for _, a := range t.args {
		freeBVs(a, out, seen)
	}
}

var freshN = map[string]int{}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '@' || r == '$' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func Fresh(name, srt string) *Term {
	name = sanitize(name)
	n := freshN[name]
	freshN[name] = n + 1
	return intern(&Term{op: fmt.Sprintf("%s!%d", name, n), sort: srt, kind: kSym})
}
func Sym(name, srt string) *Term { return intern(&Term{op: name, sort: srt, kind: kSym}) }
func BV(name, srt string) *Term {
	n := freshN["?"+name]
	freshN["?"+name] = n + 1
	return intern(&Term{op: fmt.Sprintf("%s?%d", name, n), sort: srt, kind: kBV})
}

func App(op, srt string, args ...*Term) *Term {
	return intern(&Term{op: op, sort: srt, args: args, kind: kApp})
}

var tTrue = intern(&Term{op: "true", sort: "Bool", kind: kLit})
var tFalse = intern(&Term{op: "false", sort: "Bool", kind: kLit})

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func Int(n int64) *Term { return IntS(strconv.FormatInt(n, 10)) }
func IntS(s string) *Term {
	return intern(&Term{op: s, sort: "Int", kind: kLit})
}
func RealLit(r *big.Rat) *Term {
	return intern(&Term{op: r.RatString(), sort: "Real", kind: kLit})
}

func isInt(t *Term) (int64, bool) {
	if t.kind == kLit && t.sort == "Int" {
		n, err := strconv.ParseInt(t.op, 10, 64)
		return n, err == nil
	}
	return 0, false
}
func isRat(t *Term) (*big.Rat, bool) {
	if t.kind == kLit && (t.sort == "Real" || t.sort == "Int") {
		r, ok := new(big.Rat).SetString(t.op)
		return r, ok
	}
	return nil, false
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == tFalse {
			return tFalse
		}
		if t == tTrue || seen[t] {
			continue
		}
		seen[t] = true
		if t.kind == kApp && t.op == "and" {
			for _, a := range t.args {
				if !seen[a] || a == t {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("and", "Bool", out...)
}
func Or(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t == tTrue {
			return tTrue
		}
		if t == tFalse {
			continue
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("or", "Bool", out...)
}
func Not(t *Term) *Term {
	if t == tTrue {
		return tFalse
	}
	if t == tFalse {
		return tTrue
	}
	if t.kind == kApp && t.op == "not" {
		return t.args[0]
	}
	return App("not", "Bool", t)
}
func Imp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	return App("=>", "Bool", a, b)
}
func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == "Bool" {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
	}
	return App("ite", a.sort, c, a, b)
}

func ctorOf(t *Term) (string, bool) {
	if t.kind == kApp && (strings.HasPrefix(t.op, "mk")) {
		return t.op, true
	}
	return "", false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		if a.sort == "Int" && b.sort == "Real" {
			a = ToReal(a)
		} else if a.sort == "Real" && b.sort == "Int" {
			b = ToReal(b)
		} else {
			panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
		}
	}
	if a.kind == kLit && b.kind == kLit {
		return tFalse // distinct literals are normalised
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if a.kind == kApp && b.kind == kApp && a.op == "-" && b.op == "-" && len(a.args) == 2 && len(b.args) == 2 && a.args[1] == b.args[1] {
		return Eq(a.args[0], b.args[0])
	}
	if ca, ok := ctorOf(a); ok {
		if cb, ok := ctorOf(b); ok && ca == cb {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("=", "Bool", a, b)
}

// linear normalisation of integer/real sums is left to the solver; only fold constants.
func Add(a, b *Term) *Term {
	a, b = coerce(a, b)
	ra, oka := isRat(a)
	rb, okb := isRat(b)
	if oka && okb {
		return litOf(new(big.Rat).Add(ra, rb), a.sort)
	}
	if oka && ra.Sign() == 0 {
		return b
	}
	if okb && rb.Sign() == 0 {
		return a
	}
	if okb && a.kind == kApp && a.op == "+" && len(a.args) == 2 {
		if rc, ok := isRat(a.args[1]); ok {
			return Add(a.args[0], litOf(new(big.Rat).Add(rc, rb), a.sort))
		}
	}
	if oka {
		return Add(b, a)
	}
	return App("+", a.sort, a, b)
}
func Neg(a *Term) *Term {
	if r, ok := isRat(a); ok {
		return litOf(new(big.Rat).Neg(r), a.sort)
	}
	return App("-", a.sort, a)
}
func Sub(a, b *Term) *Term {
	a, b = coerce(a, b)
	if a == b {
		return litOf(new(big.Rat), a.sort)
	}
	if rb, ok := isRat(b); ok {
		return Add(a, litOf(new(big.Rat).Neg(rb), a.sort))
	}
	return App("-", a.sort, a, b)
}
func litOf(r *big.Rat, srt string) *Term {
	if srt == "Int" {
		return IntS(r.RatString())
	}
	return RealLit(r)
}
func coerce(a, b *Term) (*Term, *Term) {
	if a.sort == b.sort {
		return a, b
	}
	if a.sort == "Int" {
		a = ToReal(a)
	}
	if b.sort == "Int" {
		b = ToReal(b)
	}
	return a, b
}
func Mul(a, b *Term) *Term {
	a, b = coerce(a, b)
	ra, oka := isRat(a)
	rb, okb := isRat(b)
	if oka && okb {
		return litOf(new(big.Rat).Mul(ra, rb), a.sort)
	}
	one := big.NewRat(1, 1)
	if oka && ra.Cmp(one) == 0 {
		return b
	}
	if okb && rb.Cmp(one) == 0 {
		return a
	}
	if oka && ra.Sign() == 0 {
		return a
	}
	if okb && rb.Sign() == 0 {
		return b
	}
	if oka || okb {
		return App("*", a.sort, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return App("*", a.sort, a, b)
}
func RDiv(a, b *Term) *Term {
	a = ToReal(a)
	b = ToReal(b)
	ra, oka := isRat(a)
	rb, okb := isRat(b)
	if oka && okb && rb.Sign() != 0 {
		return RealLit(new(big.Rat).Quo(ra, rb))
	}
	if okb && rb.Cmp(big.NewRat(1, 1)) == 0 {
		return a
	}
	return App("/", "Real", a, b)
}
func ToReal(a *Term) *Term {
	if a.sort == "Real" {
		return a
	}
	if r, ok := isRat(a); ok {
		return RealLit(r)
	}
	if a.kind == kApp && a.op == "*" {
		r := ToReal(a.args[0])
		for _, f := range a.args[1:] {
			r = Mul(r, ToReal(f))
		}
		return r
	}
	return App("to_real", "Real", a)
}
func Lt(a, b *Term) *Term { return cmp("<", a, b) }
func Le(a, b *Term) *Term { return cmp("<=", a, b) }
func cmp(op string, a, b *Term) *Term {
	a, b = coerce(a, b)
	ra, oka := isRat(a)
	rb, okb := isRat(b)
	if oka && okb {
		c := ra.Cmp(rb)
		if op == "<" {
			return Bool(c < 0)
		}
		return Bool(c <= 0)
	}
	if a == b {
		return Bool(op == "<=")
	}
	return App(op, "Bool", a, b)
}

func elemSort(arr string) string { // "(Array Int X)" -> X
	_, v := arrSorts(arr)
	return v
}
func arrSorts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	if in[0] == '(' {
		d := 0
		for i := 0; i < len(in); i++ {
			if in[i] == '(' {
				d++
			}
			if in[i] == ')' {
				d--
				if d == 0 {
					return in[:i+1], in[i+2:]
				}
			}
		}
	}
	i := strings.IndexByte(in, ' ')
	return in[:i], in[i+1:]
}
func ArrS(k, v string) string { return "(Array " + k + " " + v + ")" }

func isAlloc(t *Term) bool { return false }

func Select(a, i *Term) *Term {
	for a.kind == kApp && a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if definitelyDistinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.kind == kApp && strings.HasPrefix(a.op, "(as const") {
		return a.args[0]
	}
	return App("select", elemSort(a.sort), a, i)
}
func definitelyDistinct(a, b *Term) bool {
	if a.sort != "Int" {
		return false
	}
	ba, oa := baseOff(a)
	bb, ob := baseOff(b)
	return ba == bb && oa != ob
}
func baseOff(t *Term) (*Term, int64) {
	if n, ok := isInt(t); ok {
		return nil, n
	}
	if t.kind == kApp && t.op == "+" && len(t.args) == 2 {
		if n, ok := isInt(t.args[1]); ok {
			return t.args[0], n
		}
	}
	return t, 0
}
func Store(a, i, v *Term) *Term {
	ks, vs := arrSorts(a.sort)
	if i.sort != ks || v.sort != vs {
		panic(fmt.Sprintf("Store sorts: array %s idx %s val %s", a.sort, i.sort, v.sort))
	}
	if a.kind == kApp && a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	return App("store", a.sort, a, i, v)
}
func ConstArr(srt string, v *Term) *Term {
	return App("(as const "+srt+")", srt, v)
}

func Forall(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	if body == tTrue {
		return tTrue
	}
	return intern(&Term{op: "forall", sort: "Bool", kind: kQuant, bvs: bvs, args: []*Term{body}, pats: pats})
}
func Exists(bvs []*Term, body *Term) *Term {
	if body == tFalse {
		return tFalse
	}
	return intern(&Term{op: "exists", sort: "Bool", kind: kQuant, bvs: bvs, args: []*Term{body}})
}

// substitute symbols/bound vars
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}
func subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		switch {
		case t.kind == kQuant:
			var pats [][]*Term
			for _, p := range t.pats {
				var np []*Term
				for _, x := range p {
					np = append(np, subst(x, m, memo))
				}
				pats = append(pats, np)
			}
			r = intern(&Term{op: t.op, sort: t.sort, kind: kQuant, bvs: t.bvs, args: args, pats: pats})
		case t.op == "select":
			r = Select(args[0], args[1])
		case t.op == "and":
			r = And(args...)
		case t.op == "or":
			r = Or(args...)
		case t.op == "not":
			r = Not(args[0])
		case t.op == "ite":
			r = Ite(args[0], args[1], args[2])
		case t.op == "=":
			r = Eq(args[0], args[1])
		default:
			r = App(t.op, t.sort, args...)
		}
	}
	memo[t] = r
	return r
}

func symsOf(t *Term, seen map[*Term]bool, out map[*Term]bool, ops map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.kind == kSym {
		out[t] = true
	}
	if t.kind == kApp {
		ops[t.op] = true
	}
	for _, a := range t.args {
		symsOf(a, seen, out, ops)
	}
	for _, p := range t.pats {
		for _, x := range p {
			symsOf(x, seen, out, ops)
		}
	}
}

func litText(t *Term) string {
	if t.sort == "Int" {
		if strings.HasPrefix(t.op, "-") {
			return "(- " + t.op[1:] + ")"
		}
		return t.op
	}
	if t.sort == "Real" {
		s := t.op
		neg := strings.HasPrefix(s, "-")
		if neg {
			s = s[1:]
		}
		if i := strings.IndexByte(s, '/'); i >= 0 {
			s = "(/ " + s[:i] + ".0 " + s[i+1:] + ".0)"
		} else {
			s += ".0"
		}
		if neg {
			return "(- " + s + ")"
		}
		return s
	}
	return t.op
}

func symText(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!@$?-", r)) {
			return "|" + s + "|"
		}
	}
	return s
}

type printer struct {
	names map[*Term]string
}

func (p *printer) str(t *Term) string {
	var sb strings.Builder
	p.write(&sb, t)
	return sb.String()
}
func (p *printer) write(sb *strings.Builder, t *Term) {
	if n, ok := p.names[t]; ok {
		sb.WriteString(n)
		return
	}
	p.writeDef(sb, t)
}
func (p *printer) writeDef(sb *strings.Builder, t *Term) {
	switch t.kind {
	case kLit:
		sb.WriteString(litText(t))
	case kSym, kBV:
		sb.WriteString(symText(t.op))
	case kQuant:
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bvs {
			sb.WriteString("(" + symText(b.op) + " " + b.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		p.write(sb, t.args[0])
		for _, pt := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					sb.WriteByte(' ')
				}
				p.write(sb, x)
			}
			sb.WriteByte(')')
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		if len(t.args) == 0 {
			sb.WriteString(t.op)
			return
		}
		sb.WriteByte('(')
		sb.WriteString(t.op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			p.write(sb, a)
		}
		sb.WriteByte(')')
	}
}

func (t *Term) String() string {
	p := &printer{names: map[*Term]string{}}
	s := p.str(t)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

// printTerms prints a set of root terms with shared closed subterms as define-funs.
func printRoots(sb *strings.Builder, roots []*Term) []string {
	count := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		count[t]++
		if count[t] > 1 {
			return
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, pt := range t.pats {
			for _, x := range pt {
				visit(x)
			}
		}
		order = append(order, t)
	}
	for _, r := range roots {
		visit(r)
	}
	p := &printer{names: map[*Term]string{}}
	for _, t := range order {
		if t.hasBV || len(t.args) == 0 || t.kind == kQuant && count[t] < 2 {
			continue
		}
		if count[t] > 1 {
			name := fmt.Sprintf("t%d", t.id)
			sb.WriteString("(define-fun " + name + " () " + t.sort + " ")
			p.writeDef(sb, t)
			sb.WriteString(")\n")
			p.names[t] = name
		}
	}
	var out []string
	for _, r := range roots {
		out = append(out, p.str(r))
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
