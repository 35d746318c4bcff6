package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-debug" {
		debugMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 {
		code := 0
		for _, id := range os.Args[1:] {
			if c := runCheck(id); c > code {
				code = c
			}
		}
		os.Exit(code)
	}
}

// debugMain analyses one function on unknown arguments and prints the outcome.
func debugMain(args []string) {
	t0 := time.Now()
	initTerms()
	baseByKey = map[string]*base{}
	p := loadProgram()
	fmt.Println("loaded", time.Since(t0), len(p.mod), "packages", len(p.all), "functions")
	in := newInterp(p)
	setPolicy(p)
	in.initGlobals()
	fmt.Println("globals", time.Since(t0), "terms", len(allTerms))
	for _, name := range args {
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Println("PANIC", r, "in", in.where())
					if os.Getenv("VERIF_STACK") != "" {
						debug.PrintStack()
					}
					in.stack = nil
				}
			}()
			f := p.fnNamed(name)
			var as []*Term
			for i, q := range f.Params {
				n := q.Name()
				if n == "" || n == "_" {
					n = fmt.Sprintf("p%d", i)
				}
				as = append(as, inputValue(n, q.Type(), nil, false, false))
			}
			st := &state{g: tTrue, h: in.globals.clone()}
			e0, o0 := len(in.events), len(in.obls)
			t1 := time.Now()
			r := in.callFn(st, f, as, nil, "dbg:"+name)
			fmt.Printf("== %s  %v terms=%d steps=%d\n", name, time.Since(t1), len(allTerms), in.steps)
			fmt.Println("guard:", dag(st.g, 600))
			fmt.Println("result:", dag(deep(st.h, r), 2500))
			for _, o := range in.obls[o0:] {
				fmt.Println("  OBL", o.kind, o.where, p.prog.Fset.Position(o.pos), dag(o.g, 300))
			}
			for _, e := range in.events[e0:] {
				var s []string
				for _, a := range e.args {
					s = append(s, dag(a, 160))
				}
				fmt.Println("  EV", e.name, "(", strings.Join(s, ", "), ") when", dag(e.g, 200))
			}
		}()
	}
	for k, n := range in.unmod {
		fmt.Println("unmodelled", k, n)
	}
}
