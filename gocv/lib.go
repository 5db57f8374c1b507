package main

// Library of spec functions and lemmas (raw SMT-LIB s-expressions inside contract files).

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

type SX struct {
	atom string
	list []*SX
}

func (s *SX) String() string {
	if s.list == nil {
		return s.atom
	}
	var ps []string
	for _, x := range s.list {
		ps = append(ps, x.String())
	}
	return "(" + strings.Join(ps, " ") + ")"
}

func parseSX(src string) ([]*SX, error) {
	pos := 0
	var parse func() (*SX, error)
	skip := func() {
		for pos < len(src) {
			c := src[pos]
			if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
				pos++
			} else if c == ';' {
				for pos < len(src) && src[pos] != '\n' {
					pos++
				}
			} else {
				break
			}
		}
	}
	parse = func() (*SX, error) {
		skip()
		if pos >= len(src) {
			return nil, fmt.Errorf("unexpected end of s-expression")
		}
		if src[pos] == '(' {
			pos++
			r := &SX{list: []*SX{}}
			for {
				skip()
				if pos >= len(src) {
					return nil, fmt.Errorf("missing )")
				}
				if src[pos] == ')' {
					pos++
					return r, nil
				}
				x, err := parse()
				if err != nil {
					return nil, err
				}
				r.list = append(r.list, x)
			}
		}
		if src[pos] == ')' {
			return nil, fmt.Errorf("unexpected ) at %q", src[pos:])
		}
		st := pos
		if src[pos] == '|' {
			pos++
			for src[pos] != '|' {
				pos++
			}
			pos++
		} else {
			for pos < len(src) && !strings.ContainsRune(" \n\t\r();", rune(src[pos])) {
				pos++
			}
		}
		return &SX{atom: src[st:pos]}, nil
	}
	var out []*SX
	for {
		skip()
		if pos >= len(src) {
			return out, nil
		}
		x, err := parse()
		if err != nil {
			return nil, err
		}
		out = append(out, x)
	}
}

func (s *SX) atoms(m map[string]bool) {
	if s.list == nil {
		m[s.atom] = true
		return
	}
	for _, x := range s.list {
		x.atoms(m)
	}
}

func (s *SX) subst(m map[string]*SX) *SX {
	if s.list == nil {
		if r, ok := m[s.atom]; ok {
			return r
		}
		return s
	}
	r := &SX{list: []*SX{}}
	for _, x := range s.list {
		r.list = append(r.list, x.subst(m))
	}
	return r
}

// usedAxioms: the axioms that some emitted obligation could use
var usedAxioms sync.Map

type LibItem struct {
	kind    string // fun rec define lemma axiom sort
	name    string
	params  []*SX // (name sort)
	sort    string
	body    *SX
	pattern []*SX
	induct  string
	lo      string
	noInd   bool
	syms    map[string]bool // atoms of body (and pattern)
	psyms   map[string]bool // atoms of pattern
	order   int
	note    string
	extra   [][2]string
	only    bool            // lemma only on request (use)
	uses    map[string]bool // lemmas the proof of this one may use although they are :only
	bv      string
}

type Lib struct {
	items  []*LibItem
	byName map[string]*LibItem
}

var lib = &Lib{byName: map[string]*LibItem{}}

// AddSX parses one library block.
func (l *Lib) Add(src string) error {
	xs, err := parseSX(src)
	if err != nil {
		return err
	}
	for _, x := range xs {
		if err := l.addOne(x); err != nil {
			return fmt.Errorf("%v in %s", err, x)
		}
	}
	return nil
}

func (l *Lib) addOne(x *SX) error {
	if len(x.list) < 2 {
		return fmt.Errorf("bad library item")
	}
	it := &LibItem{kind: x.list[0].atom, name: x.list[1].atom, syms: map[string]bool{}, psyms: map[string]bool{}, order: len(l.items)}
	switch it.kind {
	case "sort":
	case "fun":
		// (fun name (sorts...) sort)
		it.params = x.list[2].list
		it.sort = x.list[3].String()
	case "rec", "define":
		it.params = x.list[2].list
		it.sort = x.list[3].String()
		it.body = x.list[4]
		it.body.atoms(it.syms)
	case "lemma", "axiom":
		it.params = x.list[2].list
		rest := x.list[3:]
		for len(rest) > 1 {
			switch rest[0].atom {
			case ":pattern":
				it.pattern = append(it.pattern, rest[1])
				rest[1].atoms(it.psyms)
			case ":induct":
				it.induct = rest[1].atom
			case ":lo":
				it.lo = rest[1].String()
			case ":note":
				it.note = rest[1].atom
			case ":bv":
				it.bv = rest[1].String()
			case ":extra":
				for _, e := range rest[1].list {
					it.extra = append(it.extra, [2]string{e.list[0].String(), e.list[1].String()})
				}
			case ":only":
				it.only = true
			case ":uses":
				it.uses = map[string]bool{}
				for _, u := range rest[1].list {
					it.uses[u.atom] = true
				}
			default:
				return fmt.Errorf("bad option %s", rest[0])
			}
			rest = rest[2:]
		}
		it.body = rest[0]
		it.body.atoms(it.syms)
	default:
		return fmt.Errorf("unknown library item %q", it.kind)
	}
	if _, dup := l.byName[it.name]; dup {
		return fmt.Errorf("duplicate library item %s", it.name)
	}
	l.items = append(l.items, it)
	l.byName[it.name] = it
	return nil
}

func (l *Lib) isFun(n string) *LibItem {
	it := l.byName[n]
	if it == nil || it.kind == "lemma" || it.kind == "axiom" || it.kind == "sort" {
		return nil
	}
	return it
}

// decls returns the declarations needed for the operator set, with lemmas of order < maxOrder.
func (l *Lib) decls(ops map[string]bool, maxOrder int, uses map[string]bool) (string, []string) {
	in := map[string]bool{}
	var add func(n string)
	add = func(n string) {
		it := l.isFun(strings.TrimSuffix(n, "__0"))
		if it == nil || in[it.name] {
			return
		}
		in[it.name] = true
		for s := range it.syms {
			add(s)
		}
	}
	for o := range ops {
		add(o)
	}
	var lem []*LibItem
	got := map[*LibItem]bool{}
	for changed := true; changed; {
		changed = false
		for _, it := range l.items {
			if it.kind != "lemma" && it.kind != "axiom" || it.order >= maxOrder || got[it] {
				continue
			}
			if it.only && !uses[it.name] || uses["-"+it.name] {
				continue
			}
			ps := it.psyms
			if len(ps) == 0 {
				ps = it.syms
			}
			ok := true
			for s := range ps {
				if l.isFun(s) != nil && !in[s] {
					ok = false
				}
			}
			if ok {
				got[it] = true
				lem = append(lem, it)
				for s := range it.syms {
					if l.isFun(s) != nil && !in[s] {
						add(s)
						changed = true
					}
				}
				changed = true
			}
		}
	}
	sort.Slice(lem, func(i, j int) bool { return lem[i].order < lem[j].order })
	for _, it := range lem {
		if it.kind == "axiom" {
			usedAxioms.Store(it.name, true)
		}
	}
	var sb strings.Builder
	var used []string
	for _, it := range l.items {
		if it.kind == "sort" {
			sb.WriteString("(declare-sort " + it.name + " 0)\n")
		}
		if !in[it.name] {
			continue
		}
		switch it.kind {
		case "fun":
			var ss []string
			for _, p := range it.params {
				ss = append(ss, p.String())
			}
			sb.WriteString("(declare-fun " + it.name + " (" + strings.Join(ss, " ") + ") " + it.sort + ")\n")
		case "define":
			// after all rec decls; emitted in order of declaration so dependencies come first
			sb.WriteString("(define-fun " + it.name + " " + (&SX{list: it.params}).String() + " " + it.sort + " " + it.body.String() + ")\n")
		case "rec":
			var ss, vs []string
			for _, p := range it.params {
				ss = append(ss, p.list[1].String())
				vs = append(vs, p.list[0].atom)
			}
			sig := " (" + strings.Join(ss, " ") + ") " + it.sort + ")\n"
			sb.WriteString("(declare-fun " + it.name + sig)
			sb.WriteString("(declare-fun " + it.name + "__0" + sig)
		}
	}
	for _, it := range l.items {
		if !in[it.name] || it.kind != "rec" || uses["-"+it.name] {
			continue // "use -f" keeps the definition of f out of the way
		}
		var vs []string
		for _, p := range it.params {
			vs = append(vs, p.list[0].atom)
		}
		ps := (&SX{list: it.params}).String()
		call := "(" + it.name + " " + strings.Join(vs, " ") + ")"
		call0 := "(" + it.name + "__0 " + strings.Join(vs, " ") + ")"
		m := map[string]*SX{it.name: {atom: it.name + "__0"}}
		sb.WriteString("(assert (forall " + ps + " (! (= " + call + " " + call0 + ") :pattern (" + call + "))))\n")
		sb.WriteString("(assert (forall " + ps + " (! (= " + call + " " + it.body.subst(m).String() + ") :pattern (" + call + "))))\n")
	}
	for _, it := range lem {
		sb.WriteString("(assert " + it.formula() + ")\n")
		used = append(used, it.name)
	}
	return sb.String(), used
}

func (it *LibItem) formula() string {
	if len(it.params) == 0 {
		return it.body.String()
	}
	if len(it.pattern) == 0 {
		return "(forall " + (&SX{list: it.params}).String() + " " + it.body.String() + ")"
	}
	var ps []string
	for _, p := range it.pattern {
		t := p.String()
		if len(p.list) > 0 && p.list[0].list == nil {
			t = "(" + t + ")"
		}
		ps = append(ps, ":pattern "+t)
	}
	return "(forall " + (&SX{list: it.params}).String() + " (! " + it.body.String() + " " + strings.Join(ps, " ") + "))"
}

// lemmaQueries returns SMT scripts, each of which must be unsat for the lemma to hold.
func (l *Lib) lemmaQueries(it *LibItem) []string {
	ops := map[string]bool{}
	for s := range it.syms {
		ops[s] = true
	}
	d, _ := l.decls(ops, it.order, it.uses)
	var sb strings.Builder
	sb.WriteString(preludeText)
	sb.WriteString(d)
	for _, p := range it.params {
		sb.WriteString("(declare-const " + p.list[0].atom + " " + p.list[1].String() + ")\n")
	}
	base := sb.String()
	var hints string
	for i, e := range it.extra {
		// :extra (Sort term) names a term so that quantifiers can be instantiated with it
		hints += fmt.Sprintf("(declare-const hint%d %s)(declare-fun hintp%d (%s) Bool)(assert (= hint%d %s))(assert (hintp%d hint%d))\n", i, e[0], i, e[0], i, e[1], i, i)
	}
	if it.induct == "" {
		return []string{base + hints + "(assert (not " + it.body.String() + "))\n(check-sat)\n"}
	}
	h := it.induct
	m := map[string]*SX{h: {list: []*SX{{atom: "-"}, {atom: h}, {atom: "1"}}}}
	ih := it.body.subst(m).String()
	q1 := base + hints + "(assert (<= " + h + " " + it.lo + "))\n(assert (not " + it.body.String() + "))\n(check-sat)\n"
	q2 := base + hints + "(assert (> " + h + " " + it.lo + "))\n(assert " + ih + ")\n(assert (not " + it.body.String() + "))\n(check-sat)\n"
	return []string{q1, q2}
}
