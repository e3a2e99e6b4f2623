package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// debugRun prints what the engine sees from one function.
func debugRun(P *Program, name string) {
	i := strings.Index(name, ".")
	fn := P.Func(name[:i], name[i+1:])
	r := &Rule{Name: "debug"}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		fmt.Println("RETURN", res, P.ipos(in))
		for k, v := range st.mem {
			if st.rootFresh(k) == nil {
				fmt.Println("    ", k, ":=", v)
			}
		}
		for k, v := range st.facts.b {
			fmt.Println("    fact", k, v)
		}
		for k, v := range st.facts.ints {
			fmt.Println("    fact", k, v)
		}
	}
	r.OnCall = func(e *Engine, st *State, c *CallEv) {
		if !strings.Contains(c.name, "logging") {
			fmt.Println("CALL", c.name, c.args, P.ipos(c.instr))
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, v *Term, in ssa.Instruction) {
		if st.rootFresh(addr) == nil {
			fmt.Println("STORE", addr, v, P.ipos(in))
		}
	}
	e := NewEngine(P, r)
	e.Run(fn, nil, nil, nil)
	fmt.Println("states", e.states, e.undec, "ends", e.ends)
}
