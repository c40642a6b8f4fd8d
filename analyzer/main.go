package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	dump := flag.String("dump", "", "print the value terms of a function (debugging)")
	repo := flag.String("repo", "/repo", "repository")
	prop := flag.String("prop", "", "property to decide (comma separated, or all)")
	out := flag.String("out", "evidence", "evidence directory")
	flag.StringVar(&knownFile, "known", "/verif/known-findings.txt", "listed findings")
	tier := flag.String("tier", "", "quick or thorough")
	list := flag.Bool("list", false, "list the rules")
	first := flag.Bool("first", false, "stop after the first property that fails")
	flag.Parse()
	if *list {
		var ids []string
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\t%s\t%s\n", id, rules[id].level, rules[id].tech, rules[id].note)
		}
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if os.Getenv("GOGC") == "" {
		debug.SetGCPercent(300)
		debug.SetMemoryLimit(3 << 30)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	pats := []string{"./bip32", "./bip39", "./bip39/wordlists", "./bip44", "./util"}
	p, err := Load(*repo, pats...)
	loadTime = time.Since(t0)
	if *dump != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if *dump == "state" {
			dumpState(p)
			return
		}
		dumpFn(p, *dump)
		return
	}
	props := strings.Split(*prop, ",")
	if *prop == "all" {
		props = nil
		for id := range rules {
			props = append(props, id)
		}
		sort.Strings(props)
	}
	rc := 0
	for _, id := range props {
		if err != nil {
			r := rules[id]
			if r == nil {
				fmt.Println("unknown property", id)
				os.Exit(2)
			}
			save := r.run
			r.run = func(c *Check) { c.stop("load", *repo, "the program cannot be type-checked: "+err.Error()) }
			rc = runProp(&Prog{}, id, *tier, *out, seed)
			r.run = save
			continue
		}
		if k := runProp(p, id, *tier, *out, seed); k > rc {
			rc = k
			if *first {
				break
			}
		}
	}
	os.Exit(rc)
}

func dumpFn(p *Prog, name string) {
	fn := findFn(p, name)
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	in := NewInterp(p)
	in.bounds = true
	st := &State{pc: tTrue, env: map[ssa.Value]*Term{}, mem: map[int]*Term{}}
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, in.symValue(q.Type(), st, q.Name()))
	}
	in.ensureInit(fn.Pkg)
	t1 := time.Now()
	v, out := in.Call(fn, args, nil, st)
	fmt.Println("call took", time.Since(t1))
	fmt.Println("value:", v)
	if out != nil {
		fmt.Println("pc:", out.pc)
		for _, o := range in.sortedMem(out.mem) {
			fmt.Printf("  obj %d %s %s = %s\n", o, in.objs[o].kind, in.objs[o].name, out.mem[o])
		}
	}
	for _, e := range in.events {
		fmt.Println("event:", e.Kind, e.What, e.Pos, e.Fn, e.PC)
	}
}

func dumpState(p *Prog) {
	e := effectsOf(p)
	for g := range e.state {
		fmt.Println("state:", g)
		for _, s := range e.sites[g] {
			fmt.Println("   ", p.Pos(s.Pos()), s)
		}
	}
}
