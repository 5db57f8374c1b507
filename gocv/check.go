package main

// The check driver: decides one property on the current source tree.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type PropCfg struct {
	Title   string   `json:"title"`
	Level   string   `json:"level"`
	Race    bool     `json:"race"`
	Bounded []string `json:"bounded"` // functions checked by the bounded harness only
	Rule    string   `json:"rule"`
	Assume  []string `json:"assume"`
	Lemmas  []string `json:"lemmas"`
	NoProof bool     `json:"noproof"`
}

type HarnessOut struct {
	Ran         bool              `json:"ran"`
	Err         string            `json:"err,omitempty"`
	Evaluations int               `json:"evaluations"`
	Distinct    int               `json:"distinct_nontrivial"`
	Samples     []json.RawMessage `json:"samples"`
	Fails       []json.RawMessage `json:"fails"`
	Known       []string          `json:"known"`
	WallS       float64           `json:"wall_s"`
}

type FnReport struct {
	Key         string         `json:"function"`
	Where       string         `json:"where,omitempty"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	By          map[string]int `json:"by"`
	SolverMs    int64          `json:"solver_ms"`
	Inlined     []string       `json:"inlined,omitempty"`
	Callees     []string       `json:"callees_by_contract,omitempty"`
	Externs     []string       `json:"external_contracts,omitempty"`
	Repaired    bool           `json:"invariants_repaired,omitempty"`
	Failed      []string       `json:"failed,omitempty"`
}

type runFn struct {
	ct  *Contract
	x   *Exec
	obs []*Oblig
	rep *FnReport
}

func hasProp(ct *Contract, p string) bool {
	for _, q := range ct.Props {
		if q == p {
			return true
		}
	}
	return false
}

func countFailed(obs []*Oblig) int {
	n := 0
	for _, o := range obs {
		if o.failed() {
			n++
		}
	}
	return n
}

func runCheck(args []string) int {
	t00 := time.Now()
	prop, tier, repo, root := args[0], "quick", "/repo", "/verif"
	if len(args) > 1 && args[1] != "" {
		tier = args[1]
	} else if v := os.Getenv("VERIF_TIER"); v != "" {
		tier = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		root = v
	}
	seed := 1
	if v, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = v
	}
	cfgs := map[string]*PropCfg{}
	b, err := os.ReadFile(filepath.Join(root, "contracts", "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &cfgs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cfg := cfgs[prop]
	if cfg == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	spec, err := LoadSpec(filepath.Join(root, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Remove(filepath.Join(root, "evidence", prop+".json"))
	hch := make(chan *HarnessOut, 1)
	go func() { hch <- runHarness(prop, tier, repo, root, seed, cfg) }()

	prog, err := LoadProgram(repo, []string{modPath, modPath + "/sortby", modPath + "/stats"})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	base := loadBaseline(filepath.Join(root, "contracts", "baseline.json"))
	eff := Effort{First: 3 * time.Second, Second: 12 * time.Second, Jobs: runtime.NumCPU()}
	if tier == "thorough" {
		eff.First, eff.Second = 5*time.Second, 30*time.Second
	}
	var fns []*runFn
	var skipped []string
	var all []*Oblig
	// the contracts of the property, and then every contract those rely on
	var work []string
	queued := map[string]bool{}
	for _, k := range spec.Order {
		if ct := spec.Contracts[k]; !ct.Trusted && !ct.Iface && hasProp(ct, prop) {
			work = append(work, k)
			queued[k] = true
		}
	}
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		ct := spec.Contracts[k]
		x := verifyWith(prog, spec, ct, base, nil)
		if x == nil {
			skipped = append(skipped, k)
			continue
		}
		for _, c := range sortedKeys(x.calls) {
			if cc := spec.Contracts[c]; cc != nil && !queued[c] && !cc.Trusted && !cc.Iface {
				queued[c] = true
				work = append(work, c)
			}
		}
		r := &runFn{ct: ct, x: x, obs: x.obs}
		fns = append(fns, r)
		all = append(all, x.obs...)
	}
	// lemmas: every one that some obligation of this property may use
	var lem []*Oblig
	lem = usedLemmas(all, lemmaObligs(nil))
	all = append(all, lem...)
	solveAll(all, eff)
	for _, r := range fns {
		if countFailed(r.obs) > 0 {
			fmt.Printf("note: %s: %d obligation(s) open after the first pass\n", r.ct.Key, countFailed(r.obs))
		}
	}
	// a second, longer pass over what is still open: a busy machine must not look like a broken property
	var h *HarnessOut
	select {
	case h = <-hch:
	default:
	}
	deadline := t00.Add(420 * time.Second)
	foundInput := func() bool {
		if h == nil {
			select {
			case h = <-hch:
			default:
			}
		}
		return h != nil && len(h.Fails) > 0
	}
	repair := func() {
		for _, r := range fns {
			if countFailed(r.obs) == 0 || foundInput() || time.Now().After(deadline) {
				continue
			}
			if x := houdini(prog, spec, r.ct, base, eff, deadline); x != nil {
				if countFailed(x.obs) == 0 {
					r.x, r.obs = x, x.obs
					r.rep = &FnReport{Repaired: true}
				}
			}
		}
	}
	same := base.matches(prog)
	retry := func() {
		var open []*Oblig
		for _, r := range fns {
			for _, o := range r.obs {
				if o.failed() && o.Status != "error" && o.Status != "sat" && !o.WantSat {
					open = append(open, o)
				}
			}
		}
		for _, o := range lem {
			if o.failed() {
				open = append(open, o)
			}
		}
		if len(open) > 0 && len(open) <= 60 && !foundInput() {
			fmt.Printf("note: longer pass over %d open obligation(s)\n", len(open))
			jobs := 2
			if len(open) > 8 {
				jobs = 4
			}
			for _, o := range open {
				o.Out = ""
			}
			solveAll(open, Effort{First: 10 * time.Second, Second: 60 * time.Second, Jobs: jobs})
		}
	}
	if same {
		retry()
	} else {
		repair()
		if time.Now().Before(deadline) {
			retry()
		}
	}
	if h == nil {
		h = <-hch
	}

	// ---- report ----
	var reps []*FnReport
	total, disch := 0, 0
	var ms int64
	by := map[string]int{}
	var failed []*Oblig
	assumed := map[string]bool{}
	count := func(key string, obs []*Oblig) *FnReport {
		r := &FnReport{Key: key, By: map[string]int{}}
		for _, o := range obs {
			ms += o.Ms
			r.SolverMs += o.Ms
			if o.WantSat {
				if o.failed() {
					failed = append(failed, o)
					r.Failed = append(r.Failed, o.ID+" "+o.Desc)
				}
				continue // reachability guards are not counted as obligations
			}
			total++
			r.Obligations++
			if o.failed() {
				failed = append(failed, o)
				r.Failed = append(r.Failed, o.ID+" "+o.Desc)
			} else {
				disch++
				r.Discharged++
				r.By[o.By]++
				by[o.By]++
			}
		}
		return r
	}
	for _, r := range fns {
		rep := count(r.ct.Key, r.obs)
		if r.rep != nil {
			rep.Repaired = r.rep.Repaired
		}
		rep.Where = strings.TrimPrefix(prog.Fset.Position(r.x.fi.Decl.Pos()).String(), repo+"/")
		rep.Inlined = sortedKeys(r.x.inlined)
		rep.Callees = sortedKeys(r.x.calls)
		rep.Externs = sortedKeys(r.x.externs)
		for a := range r.x.externs {
			assumed["external contract (assumed): "+a] = true
		}
		for a := range r.x.calls {
			if ct := spec.Contracts[a]; ct != nil && ct.Iface {
				assumed["interface contract (assumed of the implementations behind it): "+a] = true
			}
		}
		for a := range r.x.assumed {
			assumed[a] = true
		}
		reps = append(reps, rep)
	}
	lr := count("lemmas", lem)
	if lr.Obligations > 0 {
		reps = append(reps, lr)
	}
	if total == 0 && !cfg.NoProof {
		fmt.Fprintln(os.Stderr, "no obligations generated: the check is broken")
		return 2
	}
	ass := append([]string{}, cfg.Assume...)
	ass = append(ass, sortedKeys(assumed)...)
	var axs []string
	usedAxioms.Range(func(k, _ any) bool { axs = append(axs, k.(string)); return true })
	if sort.Strings(axs); len(axs) > 0 {
		ass = append(ass, "axioms available to some obligation (not proved; stated in contracts/*.gcv, explained in DESIGN.md): "+strings.Join(axs, ", "))
	}
	for _, s := range skipped {
		ass = append(ass, "contract skipped, function not present in this tree: "+s)
	}
	if h.Err != "" {
		ass = append(ass, "failing-input search did not run: "+h.Err)
	}
	viol := len(h.Fails) > 0 || len(failed) > 0
	nv := 0
	if viol {
		nv = 1
	}
	bounded := []string{}
	bounded = append(bounded, cfg.Bounded...)
	cov := map[string]any{
		"obligations": total, "discharged": disch,
		"checker_cmd":         fmt.Sprintf("bash check.sh %s %s", prop, tier),
		"trusted_base":        trustedBase,
		"functions":           reps,
		"by_backend":          by,
		"solver_ms":           ms,
		"skipped_contracts":   skipped,
		"bounded_not_proved":  bounded,
		"evaluations":         h.Evaluations,
		"distinct_nontrivial": h.Distinct,
		"rule":                cfg.Rule,
		"samples":             append([]json.RawMessage{}, h.Samples...),
		"harness_wall_s":      h.WallS,
		"contracts_hash":      spec.Hash,
	}
	level := cfg.Level
	if level == "" {
		level = "proof"
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": ass, "wall_s": time.Since(t00).Seconds(), "violations": nv}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(eb, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range h.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged, %d harness cases, %.1fs\n", prop, len(fns), disch, total, h.Evaluations, time.Since(t00).Seconds())
	if h.Err != "" {
		fmt.Println("note: harness:", h.Err)
	}
	if !viol {
		return 0
	}
	rd := filepath.Join(root, "replays")
	os.MkdirAll(rd, 0755)
	rp := filepath.Join(rd, prop+".json")
	rec := map[string]any{"property": prop, "title": cfg.Title, "seed": seed, "tier": tier}
	var fo []map[string]any
	for _, o := range failed {
		fo = append(fo, map[string]any{"obligation": o.ID, "function": o.Fn, "kind": o.Kind, "what": o.Desc, "at": o.Pos, "verifier": o.Status + " " + o.Out})
		fmt.Printf("FAILED OBLIGATION %s [%s] %s: %s\n", o.ID, o.Pos, o.Desc, firstLine(o.Status+" "+o.Out))
	}
	rec["failed_obligations"] = fo
	if len(h.Fails) > 0 {
		rec["failing_inputs"] = h.Fails
		rec["reproduce"] = fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s %s   (the harness is /verif/harness/%s_test.go; the case number below is the index of the failing case)", seed, tier, prop, tier, strings.ToLower(prop))
		for i, f := range h.Fails {
			if i < 3 {
				fmt.Printf("FAILING INPUT %s\n", firstLine(string(f)))
			}
		}
	}
	rb, _ := json.MarshalIndent(rec, "", " ")
	os.WriteFile(rp, append(rb, '\n'), 0644)
	if len(h.Fails) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

var trustedBase = []string{
	"gocv: the symbolic executor and obligation generator in /verif/gocv (unverified; written for this task)",
	"z3 4.8.12, z3 5.3.2 and cvc5 1.1.2: an obligation counts as discharged when one of them answers unsat",
	"go/parser and go/types of go1.27: the verified text is the text the compiler reads",
	"the contracts of standard library functions (see assumptions)",
	"machine integers treated as mathematical integers, float64 arithmetic as exact real arithmetic (no NaN, Inf, rounding)",
	"partial correctness: termination is not proved (the failing-input search has a time limit per case)",
}

// usedLemmas keeps the lemma queries whose defined functions occur in the obligations.
func usedLemmas(obs, lem []*Oblig) []*Oblig {
	text := map[string]bool{}
	ops := map[string]bool{}
	uses := map[string]bool{}
	seen, syms := map[*Term]bool{}, map[*Term]bool{}
	for _, o := range obs {
		for u := range o.Uses {
			uses[u] = true
		}
		for _, t := range o.Assume {
			symsOf(t, seen, syms, ops)
		}
		if o.Goal != nil {
			symsOf(o.Goal, seen, syms, ops)
		}
	}
	_, names := lib.decls(ops, 1<<30, uses)
	for _, n := range names {
		text[n] = true
	}
	var out []*Oblig
	for _, l := range lem {
		n := strings.TrimPrefix(l.ID, "lemma:")
		if i := strings.IndexByte(n, '/'); i >= 0 {
			n = n[:i]
		}
		if text[n] {
			out = append(out, l)
		}
	}
	return out
}

// ---------- baseline (names of local variables, for aligning invariants with renamed locals) ----------

type Baseline struct {
	Locals map[string][]string       `json:"locals"`
	Loops  map[string]map[int]string `json:"loops"` // the counter of each loop
	Hash   string                    `json:"hash"`
}

func loadBaseline(f string) *Baseline {
	b := &Baseline{}
	if t, err := os.ReadFile(f); err == nil {
		json.Unmarshal(t, b)
	}
	return b
}

func progHash(prog *Program) string {
	var fs []string
	for _, pk := range prog.Pkgs {
		for _, f := range pk.Files {
			fs = append(fs, prog.Fset.File(f.Pos()).Name())
		}
	}
	sort.Strings(fs)
	s := ""
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		s += hashText(string(b))
	}
	return hashText(s)
}

func (b *Baseline) matches(prog *Program) bool { return b.Hash == progHash(prog) }

func writeBaseline(f string, prog *Program, spec *Spec) error {
	b := &Baseline{Locals: map[string][]string{}, Loops: map[string]map[int]string{}, Hash: progHash(prog)}
	for _, k := range spec.Order {
		ct := spec.Contracts[k]
		fk := ct.Key
		if i := strings.IndexByte(fk, '@'); i >= 0 {
			fk = fk[:i]
		}
		if fi := prog.Funcs[fk]; fi != nil {
			x := NewExec(prog, spec, fi, ct)
			b.Locals[k] = x.locals()
			x.Run()
			if len(x.loopNames) > 0 {
				b.Loops[k] = x.loopNames
			}
		}
	}
	t, _ := json.MarshalIndent(b, "", " ")
	return os.WriteFile(f, append(t, '\n'), 0644)
}

// renamesFor aligns the baseline locals that no longer exist with new locals of the same type, in order.
func (b *Baseline) renamesFor(x *Exec) map[string]string {
	old := b.Locals[x.ct.Key]
	if len(old) == 0 {
		return nil
	}
	cur := x.locals()
	count := func(l []string) map[string]bool {
		m := map[string]bool{}
		for _, s := range l {
			m[strings.SplitN(s, " ", 2)[0]] = true
		}
		return m
	}
	on, cn := count(old), count(cur)
	news := map[string][]string{}
	dup := map[string]bool{}
	for _, s := range cur {
		p := strings.SplitN(s, " ", 2)
		if !on[p[0]] && !dup[p[0]] {
			dup[p[0]] = true
			news[p[1]] = append(news[p[1]], p[0])
		}
	}
	r := map[string]string{}
	done := map[string]bool{}
	for _, s := range old {
		p := strings.SplitN(s, " ", 2)
		if cn[p[0]] || done[p[0]] {
			continue
		}
		done[p[0]] = true
		if l := news[p[1]]; len(l) > 0 {
			r[p[0]] = l[0]
			news[p[1]] = l[1:]
		}
	}
	return r
}

func verifyWith(prog *Program, spec *Spec, ct *Contract, base *Baseline, setup func(x *Exec)) *Exec {
	fk := ct.Key
	if i := strings.IndexByte(fk, '@'); i >= 0 {
		fk = fk[:i]
	}
	fi := prog.Funcs[fk]
	if fi == nil {
		return nil
	}
	x := NewExec(prog, spec, fi, ct)
	if base != nil {
		x.renames = base.renamesFor(x)
		x.baseLoops = base.Loops[ct.Key]
	}
	if setup != nil {
		setup(x)
	}
	x.Run()
	x.complete()
	return x
}

// houdini looks for loop invariants for changed code: every invariant of the contract is a candidate for every loop;
// candidates that do not hold are dropped until the rest is inductive, then all obligations are checked again.
func houdini(prog *Program, spec *Spec, ct *Contract, base *Baseline, eff Effort, deadline time.Time) *Exec {
	dropped := map[Cand]bool{}
	quick := Effort{First: 2 * time.Second, Second: 6 * time.Second, Jobs: eff.Jobs}
	for round := 0; round < 8; round++ {
		if time.Now().After(deadline) {
			return nil
		}
		x := verifyWith(prog, spec, ct, base, func(x *Exec) {
			x.houdini, x.allLoops = true, true
			for c := range dropped {
				x.dropped[c] = true
			}
		})
		if len(x.errs) > 0 {
			return nil
		}
		var inv []*Oblig
		for _, o := range x.obs {
			if len(o.Cand) > 0 {
				inv = append(inv, o)
			}
		}
		solveAll(inv, quick)
		n := 0
		for c := range x.dropped {
			dropped[c] = true
		}
		for _, o := range inv {
			if o.failed() {
				for _, c := range o.Cand {
					if !dropped[*c] {
						dropped[*c] = true
						n++
					}
				}
			}
		}
		if n > 0 {
			continue
		}
		var rest []*Oblig
		for _, o := range x.obs {
			if len(o.Cand) == 0 {
				rest = append(rest, o)
			}
		}
		solveAll(rest, eff)
		return x
	}
	return nil
}

// ---------- the failing-input search ----------

func copyFile(src, dst string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(dst), 0755)
	return os.WriteFile(dst, b, 0644)
}

func runHarness(prop, tier, repo, root string, seed int, cfg *PropCfg) *HarnessOut {
	t0 := time.Now()
	h := &HarnessOut{}
	defer func() { h.WallS = time.Since(t0).Seconds() }()
	src := filepath.Join(root, "harness", strings.ToLower(prop)+"_test.go")
	if _, err := os.Stat(src); err != nil {
		h.Err = "no harness for this property"
		return h
	}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		h.Err = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	dst := filepath.Join(tmp, "src", modPath)
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if rel == ".git" || rel == "data" || rel == "benchmarks" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(rel, ".go") && !strings.HasSuffix(rel, "_test.go") {
			copyFile(p, filepath.Join(dst, rel))
		}
		return nil
	})
	copyFile(filepath.Join(root, "harness", "common_test.go"), filepath.Join(dst, "verif_common_test.go"))
	copyFile(src, filepath.Join(dst, "verif_prop_test.go"))
	out := filepath.Join(tmp, "out.json")
	limit := 100 * time.Second
	if tier == "thorough" {
		limit = 700 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit+80*time.Second)
	defer cancel()
	argv := []string{"test", "-vet=off", "-count=1", "-run", "^TestVerif$", "-timeout", fmt.Sprint(limit)}
	if cfg.Race {
		argv = append(argv, "-race")
	}
	cmd := exec.CommandContext(ctx, "go", append(argv, ".")...)
	cmd.Dir = dst
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	cache := os.Getenv("GOCACHE")
	if cache == "" {
		cache = "/tmp/verif-gocache"
	}
	cmd.Env = append(os.Environ(), "GO111MODULE=off", "GOPATH="+tmp, "GOFLAGS=", "GOWORK=off", "GOCACHE="+cache, "GODEBUG=randautoseed=0,randseednop=0",
		"VERIF_OUT="+out, "VERIF_PROP="+prop, "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "TMPDIR="+tmp, "HOME="+tmp)
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	err = cmd.Run()
	text := ob.String()
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		json.Unmarshal(b, h)
		h.Ran = true
	}
	if cfg.Race && strings.Contains(text, "WARNING: DATA RACE") {
		i := strings.Index(text, "WARNING: DATA RACE")
		e := text[i:]
		if len(e) > 3000 {
			e = e[:3000]
		}
		j, _ := json.Marshal(map[string]any{"what": "the race detector reports a data race between two operations on a shared accumulator", "trace": e})
		h.Fails = append(h.Fails, j)
	}
	if err != nil && len(h.Fails) == 0 {
		// a crash of the whole test process (fatal error, deadlock) counts when the case being run was recorded
		cur, cerr := os.ReadFile(out + ".current")
		if regexp.MustCompile(`(?m)^(fatal error:|panic:|runtime:|SIG|goroutine )`).MatchString(text) && cerr == nil && len(cur) > 0 {
			tail := text
			if len(tail) > 2500 {
				tail = tail[:2500]
			}
			j, _ := json.Marshal(map[string]any{"what": "the process crashed or hung while running this case", "case": string(cur), "output": tail})
			h.Fails = append(h.Fails, j)
		} else {
			if len(text) > 600 {
				text = text[:600]
			}
			h.Err = strings.TrimSpace(text)
			if h.Err == "" {
				h.Err = err.Error()
			}
		}
	}
	return h
}
