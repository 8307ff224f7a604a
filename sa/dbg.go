package main

import (
	"fmt"
	"sort"
	"time"
)

func dbg(p *Prog, args []string) {
	debugLoops = true
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(tooComplex); ok {
				fmt.Println("TOO COMPLEX:", t.why)
				return
			}
			panic(r)
		}
	}()
	if args[0] == "all" {
		dbgAll(p)
		return
	}
	f := p.Func(args[0], args[1])
	if f == nil {
		fmt.Println("no function")
		return
	}
	ev := NewEv(p)
	st := ev.NewState()
	var as []*Term
	for _, pr := range f.Params {
		t := ev.sym(pr.Name(), pr.Type())
		if len(as) == 0 && f.Signature.Recv() != nil {
			ev.c.nonNil[t.id] = true
		}
		as = append(as, t)
	}
	st, vals := ev.Call(f, as, nil, st, nil, "")
	fmt.Println("results:")
	for _, v := range vals {
		fmt.Println("  ", v)
	}
	if st == nil {
		fmt.Println("does not return")
		return
	}
	fmt.Println("pc:", st.pc)
	var ks []string
	for k, v := range st.mem {
		if r := rootOf(k); r.op == "alloc" {
			continue
		}
		ks = append(ks, k.String()+" = "+v.String())
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println("  ", k)
	}
	for k, l := range st.logs {
		fmt.Println(" log", k)
		for _, e := range l {
			if e.mark != nil {
				fmt.Println("    MARK")
				continue
			}
			fmt.Printf("    %v guard %v dom %v := %v\n", e.holes, e.guard, e.dom, e.val)
		}
	}
	fmt.Println("steps", ev.steps, "terms", ev.c.n, "calls", ev.ncalls)
	for k, v := range ev.unmodelled {
		fmt.Println("  ext", k, v)
	}
}

func dbgAll(p *Prog) {
	for _, f := range p.Funcs() {
		if f.Parent() != nil || f.TypeParams().Len() > 0 {
			continue
		}
		if f.Pkg.Pkg.Name() == "proto" {
			continue
		}
		func() {
			t0 := time.Now()
			ev := NewEv(p)
			defer func() {
				if r := recover(); r != nil {
					if t, ok := r.(tooComplex); ok {
						fmt.Println("TOO COMPLEX:", shortFn(f), t.why)
						return
					}
					fmt.Println("PANIC", shortFn(f), r)
					panic(r)
				}
			}()
			st := ev.NewState()
			var as []*Term
			for i, pr := range f.Params {
				t := ev.sym("p"+fmt.Sprint(i)+":"+pr.Name(), pr.Type())
				if len(as) == 0 && f.Signature.Recv() != nil {
					ev.c.nonNil[t.id] = true
				}
				as = append(as, t)
			}
			ev.Call(f, as, nil, st, nil, "")
			if d := time.Since(t0); d > 300*time.Millisecond || ev.c.n > 20000 {
				fmt.Println("slow", shortFn(f), d.Round(time.Millisecond), "terms", ev.c.n, "steps", ev.steps)
			}
			for k := range ev.unmodelled {
				unm[k]++
			}
		}()
	}
	var ks []string
	for k := range unm {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println("ext", k)
	}
}

var unm = map[string]int{}
