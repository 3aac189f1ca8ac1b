package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
	"verif/analyzer/load"
)

func main() {
	p, err := load.Load(repo(), "/verif/analyzer/stubs", "/root/go/pkg/mod")
	if err != nil {
		panic(err)
	}
	var names []string
	fns := map[string]*ssa.Function{}
	for f := range p.Functions() {
		n := ai.FuncName(f)
		n = strings.TrimPrefix(n, "github.com/gocraft/")
		fns[n] = f
		names = append(names, n)
	}
	sort.Strings(names)
	if len(os.Args) < 2 || os.Args[1] == "-all" {
		for _, n := range names {
			f := fns[n]
			if f.Synthetic != "" && f.Name() != "init" {
				continue
			}
			run(p, f, n, false)
		}
		return
	}
	for _, n := range os.Args[1:] {
		if fns[n] == nil {
			for _, m := range names {
				if strings.Contains(m, n) {
					fmt.Println(m)
				}
			}
			continue
		}
		run(p, fns[n], n, true)
	}
}

func run(p *load.Program, f *ssa.Function, n string, verbose bool) {
	e := ai.New(p)
	e.InitGlobals()
	st := e.NewState()
	var args []*ai.Term
	for _, q := range f.Params {
		args = append(args, e.Sym(q.Name(), q.Type()))
	}
	for _, q := range f.FreeVars {
		_ = q
		if !verbose {
			return
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(ai.Undecided); ok {
				fmt.Println("UNDECIDED", n, u.Msg)
				return
			}
			fmt.Println("CRASH", n, r)
			if verbose {
				panic(r)
			}
		}
	}()
	t0 := time.Now()
	xs := e.Run(st, f, args)
	fmt.Println("OK", n, len(xs), "exits", time.Since(t0))
	if verbose {
		for i, x := range xs {
			fmt.Printf("--- exit %d kind=%d vals=%v\n", i, x.Kind, x.Vals)
			fmt.Print(x.St.Dump())
		}
	}
}

func repo() string {
	if r := os.Getenv("T_REPO"); r != "" {
		return r
	}
	return "/repo"
}
