package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	Label string
	Text  string
	Expr  ast.Expr
	Pos   string
	Prop  string   // optional property tag list
	Uses  []string // lemmas for this clause only
}

type LoopSpec struct {
	Inv   []*Clause
	Havoc []string
	Cand  map[*Clause]bool
	Split bool
}

type Contract struct {
	Key      string
	Recv     string
	Params   []string
	Results  []string
	Captures []string // variables captured by the function literal of a contract X@Y
	Requires []*Clause
	Ensures  []*Clause
	Sets     []*Clause
	Modifies []*Clause
	Loops    map[int]*LoopSpec
	Props    []string
	Inline   bool
	Trusted  bool // external or interface contract, not verified against a body
	Iface    bool
	Uses     map[string]bool
	Guards   []*Clause
	Opts     map[string]bool
	Asserts  map[string][]*Clause
	Shared   []lockClause // state owned by locks (X@concurrent contracts)
	Sections []lockClause
	Tracks   []lockClause
	Rely     []*Clause
	File     string
	Line     int
	AtCall   map[string][]*Clause
}

type Macro struct {
	Name   string
	Params []string
	Body   ast.Expr
	Pos    string
}

type Ghost struct {
	Name string
	Sort string
}

type Spec struct {
	Contracts map[string]*Contract
	Order     []string
	Macros    map[string]*Macro
	Dispatch  map[string][]string
	Ghosts    map[string]*Ghost
	PureExt   map[string]bool
	Guarded   map[string]string
	LockOrder []string
	Hash      string
}

var kwRe = regexp.MustCompile(`^(func|iface|extern|requires|ensures|modifies|loop|inv|havoc|props|inline|use|guard|opt|macro|dispatch|ghost|set|pure|captures|guarded|shared|rely|section|tracks|lockorder|lib|end|at|after|assert)\b`)

func parseSig(s string) (key, recv string, params, results []string, err error) {
	i := strings.IndexByte(s, '(')
	if i < 0 {
		return strings.TrimSpace(s), "", nil, nil, nil
	}
	key = strings.TrimSpace(s[:i])
	j := strings.IndexByte(s, ')')
	if j < 0 {
		return "", "", nil, nil, fmt.Errorf("bad signature %q", s)
	}
	in := s[i+1 : j]
	if k := strings.IndexByte(in, ';'); k >= 0 {
		recv = strings.TrimSpace(in[:k])
		in = in[k+1:]
	}
	split := func(x string) []string {
		var out []string
		for _, p := range strings.Split(x, ",") {
			p = strings.TrimSpace(p)
			if p != "" {
				out = append(out, p)
			}
		}
		return out
	}
	params = split(in)
	rest := strings.TrimSpace(s[j+1:])
	if strings.HasPrefix(rest, "(") {
		results = split(strings.TrimSuffix(rest[1:], ")"))
	}
	return
}

func LoadSpec(dir string) (*Spec, error) {
	sp := &Spec{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, Dispatch: map[string][]string{}, Ghosts: map[string]*Ghost{}, PureExt: map[string]bool{}, Guarded: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(files)
	all := ""
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		all += string(b)
		if err := sp.parseFile(f, string(b)); err != nil {
			return nil, err
		}
	}
	sp.Hash = hashText(all)
	return sp, nil
}

func (sp *Spec) parseFile(file, src string) error {
	type item struct {
		kw, text string
		line     int
	}
	var items []item
	inLib := false
	libText := ""
	for ln, line := range strings.Split(src, "\n") {
		t := strings.TrimSpace(line)
		if inLib {
			if t == "end" {
				inLib = false
				if err := lib.Add(libText); err != nil {
					return fmt.Errorf("%s:%d: %v", file, ln+1, err)
				}
				libText = ""
				continue
			}
			libText += line + "\n"
			continue
		}
		if i := strings.Index(t, "#"); i == 0 {
			continue
		}
		if i := strings.Index(t, " #"); i >= 0 {
			t = strings.TrimSpace(t[:i])
		}
		if t == "" {
			continue
		}
		if t == "lib" {
			inLib = true
			continue
		}
		if m := kwRe.FindString(t); m != "" {
			items = append(items, item{m, strings.TrimSpace(t[len(m):]), ln + 1})
		} else {
			if len(items) == 0 {
				return fmt.Errorf("%s:%d: stray text", file, ln+1)
			}
			items[len(items)-1].text += " " + t
		}
	}
	var cur *Contract
	var curLoop *LoopSpec
	base := filepath.Base(file)
	for _, it := range items {
		pos := fmt.Sprintf("%s:%d", base, it.line)
		mk := func() (*Clause, error) {
			text := it.text
			label := ""
			if m := regexp.MustCompile(`^\[([^\]]*)\]\s*`).FindStringSubmatch(text); m != nil {
				label = m[1]
				text = text[len(m[0]):]
			}
			e, err := parseSpecExpr(text)
			if err != nil {
				return nil, fmt.Errorf("%s: %v in %q", pos, err, text)
			}
			return &Clause{Label: label, Text: text, Expr: e, Pos: pos}, nil
		}
		switch it.kw {
		case "func", "iface", "extern":
			key, recv, params, results, err := parseSig(it.text)
			if err != nil {
				return fmt.Errorf("%s: %v", pos, err)
			}
			cur = &Contract{Key: key, Recv: recv, Params: params, Results: results, Loops: map[int]*LoopSpec{}, Uses: map[string]bool{}, Opts: map[string]bool{}, File: file, Line: it.line, AtCall: map[string][]*Clause{}}
			cur.Trusted = it.kw != "func"
			cur.Iface = it.kw == "iface"
			curLoop = nil
			if _, dup := sp.Contracts[key]; dup {
				return fmt.Errorf("%s: duplicate contract %s", pos, key)
			}
			sp.Contracts[key] = cur
			sp.Order = append(sp.Order, key)
		case "requires", "ensures", "guard", "modifies":
			if it.kw == "modifies" {
				for _, part := range splitTop(it.text, ',') {
					part = strings.TrimSpace(part)
					e, err := parseSpecExpr(part)
					if err != nil {
						return fmt.Errorf("%s: %v in %q", pos, err, part)
					}
					cur.Modifies = append(cur.Modifies, &Clause{Text: part, Expr: e, Pos: pos})
				}
				continue
			}
			c, err := mk()
			if err != nil {
				return err
			}
			switch it.kw {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "guard":
				cur.Guards = append(cur.Guards, c)
			}
		case "rely":
			c, err := mk()
			if err != nil {
				return err
			}
			cur.Rely = append(cur.Rely, c)
		case "shared", "section", "tracks":
			f := strings.SplitN(it.text, " ", 2)
			name := ""
			if it.kw == "tracks" {
				name = f[0]
				f = strings.SplitN(strings.TrimSpace(f[1]), " ", 2)
			}
			parts := []string{f[1]}
			if it.kw == "shared" {
				parts = splitTop(f[1], ',')
			}
			for _, part := range parts {
				part = strings.TrimSpace(part)
				e, err := parseSpecExpr(part)
				if err != nil {
					return fmt.Errorf("%s: %v in %q", pos, err, part)
				}
				lc := lockClause{Lock: f[0], Name: name, C: &Clause{Text: part, Expr: e, Pos: pos}}
				switch it.kw {
				case "shared":
					cur.Shared = append(cur.Shared, lc)
				case "section":
					cur.Sections = append(cur.Sections, lc)
				default:
					cur.Tracks = append(cur.Tracks, lc)
				}
			}
		case "lockorder":
			sp.LockOrder = strings.Fields(it.text)
		case "loop":
			f := strings.Fields(it.text)
			n, err := strconv.Atoi(strings.TrimSuffix(f[0], ":"))
			if err != nil {
				return fmt.Errorf("%s: bad loop number", pos)
			}
			curLoop = &LoopSpec{}
			cur.Loops[n] = curLoop
		case "inv":
			c, err := mk()
			if err != nil {
				return err
			}
			curLoop.Inv = append(curLoop.Inv, c)
		case "havoc":
			curLoop.Havoc = append(curLoop.Havoc, strings.Fields(it.text)...)
		case "props":
			cur.Props = append(cur.Props, strings.Fields(it.text)...)
		case "captures":
			cur.Captures = append(cur.Captures, strings.Fields(strings.ReplaceAll(it.text, ",", " "))...)
		case "inline":
			cur.Inline = true
		case "use":
			for _, u := range strings.Fields(it.text) {
				cur.Uses[u] = true
			}
		case "opt":
			for _, u := range strings.Fields(it.text) {
				cur.Opts[u] = true
			}
		case "at", "after":
			// at <callee> assert <expr>: hint asserted (and then assumed) right before calls of callee
			f := strings.SplitN(it.text, " ", 2)
			var uses []string
			f[1] = strings.TrimSpace(f[1])
			if strings.HasPrefix(f[1], "{") {
				j := strings.Index(f[1], "}")
				if j < 0 {
					return fmt.Errorf("%s: missing }", pos)
				}
				uses = strings.Fields(f[1][1:j])
				f[1] = strings.TrimSpace(f[1][j+1:])
			}
			e, err := parseSpecExpr(f[1])
			if err != nil {
				return fmt.Errorf("%s: %v", pos, err)
			}
			if it.kw == "after" {
				f[0] += " after"
			}
			cur.AtCall[f[0]] = append(cur.AtCall[f[0]], &Clause{Text: f[1], Expr: e, Pos: pos, Uses: uses})
		case "macro":
			i := strings.Index(it.text, "=")
			name, _, params, _, err := parseSig(it.text[:i])
			if err != nil {
				return fmt.Errorf("%s: %v", pos, err)
			}
			e, err := parseSpecExpr(it.text[i+1:])
			if err != nil {
				return fmt.Errorf("%s: %v in macro %s", pos, err, name)
			}
			if sp.Macros[name] != nil {
				return fmt.Errorf("%s: macro %s is defined twice (also at %s)", pos, name, sp.Macros[name].Pos)
			}
			sp.Macros[name] = &Macro{Name: name, Params: params, Body: e, Pos: pos}
		case "dispatch":
			f := strings.Fields(strings.ReplaceAll(it.text, ":", " "))
			sp.Dispatch[f[0]] = f[1:]
		case "set":
			// set <ghost> <expr>: ghost assignment when the function returns
			i := strings.IndexByte(it.text, ' ')
			e, err := parseSpecExpr(it.text[i:])
			if err != nil {
				return fmt.Errorf("%s: %v", pos, err)
			}
			cur.Sets = append(cur.Sets, &Clause{Label: it.text[:i], Text: it.text, Expr: e, Pos: pos})
		case "ghost":
			i := strings.IndexByte(it.text, ' ')
			sp.Ghosts[it.text[:i]] = &Ghost{Name: it.text[:i], Sort: strings.TrimSpace(it.text[i:])}
		case "guarded":
			// guarded Type.field Type.lockfield
			f := strings.Fields(it.text)
			if len(f) == 1 {
				f = append(f, "")
			}
			sp.Guarded[f[0]] = f[1]
		case "pure":
			for _, u := range strings.Fields(it.text) {
				sp.PureExt[u] = true
			}
		default:
			return fmt.Errorf("%s: unexpected %s", pos, it.kw)
		}
	}
	return nil
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		default:
			if s[i] == sep && d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

// transImp rewrites ==> and <==> into calls so that go/parser can read the expression.
func transImp(s string) string {
	// first inside brackets
	var sb strings.Builder
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			sb.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if c == '(' || c == '[' || c == '{' {
			d := 0
			j := i
			for ; j < len(s); j++ {
				if s[j] == '(' || s[j] == '[' || s[j] == '{' {
					d++
				}
				if s[j] == ')' || s[j] == ']' || s[j] == '}' {
					d--
					if d == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				return s // parser will complain
			}
			inner := s[i+1 : j]
			var parts []string
			for _, p := range splitTop(inner, ',') {
				parts = append(parts, transImp(p))
			}
			sb.WriteByte(c)
			sb.WriteString(strings.Join(parts, ","))
			sb.WriteByte(s[j])
			i = j + 1
			continue
		}
		sb.WriteByte(c)
		i++
	}
	t := sb.String()
	// top level operators (depth 0)
	find := func(op string) int {
		d := 0
		for i := 0; i+len(op) <= len(t); i++ {
			switch t[i] {
			case '(', '[', '{':
				d++
			case ')', ']', '}':
				d--
			}
			if d == 0 && t[i:i+len(op)] == op {
				if op == "==>" && i > 0 && t[i-1] == '<' {
					continue
				}
				return i
			}
		}
		return -1
	}
	if i := find("<==>"); i >= 0 {
		return "iff(" + transImp2(t[:i]) + "," + transImp2(t[i+4:]) + ")"
	}
	if i := find("==>"); i >= 0 {
		return "imp(" + t[:i] + "," + transImp2(t[i+3:]) + ")"
	}
	return t
}
func transImp2(s string) string { return transImp(s) }

func parseSpecExpr(s string) (ast.Expr, error) {
	return parser.ParseExprFrom(token.NewFileSet(), "", transImp(plainLits(strings.TrimSpace(s))), 0)
}

// plainLits writes every string literal with escapes for all but letters and digits, so that brackets, commas and
// quotes inside literals do not matter for the scanning above.
func plainLits(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '"' {
			sb.WriteByte(s[i])
			continue
		}
		j := i + 1
		for j < len(s) && s[j] != '"' {
			if s[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(s) {
			return s
		}
		u, err := strconv.Unquote(s[i : j+1])
		if err != nil {
			return s
		}
		sb.WriteByte('"')
		for k := 0; k < len(u); k++ {
			c := u[k]
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
				sb.WriteByte(c)
			} else {
				fmt.Fprintf(&sb, "\\x%02x", c)
			}
		}
		sb.WriteByte('"')
		i = j
	}
	return sb.String()
}
