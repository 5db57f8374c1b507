package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "baseline" {
		spec, err := LoadSpec("/verif/contracts")
		if err == nil {
			var prog *Program
			if prog, err = LoadProgram("/repo", []string{modPath, modPath + "/sortby", modPath + "/stats"}); err == nil {
				err = writeBaseline("/verif/contracts/baseline.json", prog, spec)
			}
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	dir := flag.String("dir", "/repo", "source tree")
	specDir := flag.String("spec", "/verif/contracts", "contract directory")
	only := flag.String("fn", "", "comma separated contract keys")
	dump := flag.String("dump", "", "dump obligations")
	first := flag.Float64("t1", 3, "first timeout")
	second := flag.Float64("t2", 10, "second timeout")
	verbose := flag.Bool("v", false, "verbose")
	lemmas := flag.Bool("lemmas", false, "check lemmas too")
	flag.Parse()
	spec, err := LoadSpec(*specDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	prog, err := LoadProgram(*dir, []string{modPath, modPath + "/sortby", modPath + "/stats"})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	jobs := runtime.NumCPU()
	if os.Getenv("GOCV_JOBS") != "" {
		fmt.Sscan(os.Getenv("GOCV_JOBS"), &jobs)
	}
	eff := Effort{First: time.Duration(*first * 1e9), Second: time.Duration(*second * 1e9), Jobs: jobs}
	var keys []string
	if *only != "" {
		keys = strings.Split(*only, ",")
	} else {
		for _, k := range spec.Order {
			ct := spec.Contracts[k]
			if !ct.Trusted {
				keys = append(keys, k)
			}
		}
	}
	bad := 0
	for _, k := range keys {
		ct := spec.Contracts[k]
		if ct == nil {
			fmt.Println("no contract", k)
			bad++
			continue
		}
		t0 := time.Now()
		x := verify(prog, spec, ct)
		if x == nil {
			fmt.Println("no function", k)
			bad++
			continue
		}
		tx := time.Since(t0)
		if *dump != "" {
			dumpObligs(*dump, x.obs)
		}
		solveAll(x.obs, eff)
		n, f := 0, 0
		for _, o := range x.obs {
			if o.failed() {
				f++
				fmt.Printf("  FAIL %s %s [%s] %s: %s (%s)\n", o.ID, o.Kind, o.Pos, o.Desc, o.Status, o.Out)
			} else if *verbose {
				fmt.Printf("  ok   %s %s [%s] %s: %s %dms\n", o.ID, o.Kind, o.Pos, o.Desc, o.By, o.Ms)
			}
			n++
		}
		bad += f
		fmt.Printf("%s: %d obligations, %d failed (exec %v, total %v)\n", k, n, f, tx.Round(time.Millisecond), time.Since(t0).Round(time.Millisecond))
	}
	if *lemmas {
		obs := lemmaObligs(nil)
		solveAll(obs, eff)
		for _, o := range obs {
			if o.failed() {
				bad++
				fmt.Printf("  FAIL lemma %s: %s (%s)\n", o.ID, o.Status, o.Out)
				if *dump != "" {
					dumpObligs(*dump, []*Oblig{o})
				}
			}
		}
		fmt.Printf("lemmas: %d queries\n", len(obs))
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func (o *Oblig) failed() bool {
	if o.WantSat {
		return o.Status == "unsat"
	}
	return o.Status != "unsat"
}

func verify(prog *Program, spec *Spec, ct *Contract) *Exec {
	fk := ct.Key
	if i := strings.IndexByte(fk, '@'); i >= 0 {
		fk = fk[:i]
	}
	fi := prog.Funcs[fk]
	if fi == nil {
		return nil
	}
	x := NewExec(prog, spec, fi, ct)
	x.Run()
	x.complete()
	return x
}

func lemmaObligs(names map[string]bool) []*Oblig {
	var obs []*Oblig
	for _, it := range lib.items {
		if it.kind != "lemma" || names != nil && !names[it.name] {
			continue
		}
		for i, q := range lib.lemmaQueries(it) {
			obs = append(obs, &Oblig{ID: fmt.Sprintf("lemma:%s/%d", it.name, i), Kind: "lemma", Desc: "lemma " + it.name, Raw: q})
		}
	}
	sort.SliceStable(obs, func(i, j int) bool { return obs[i].ID < obs[j].ID })
	return obs
}
