package main

import (
	"fmt"
	"os"
)

func (s *Sim) dump(st *State) {
	fmt.Fprintln(os.Stderr, "A", st.A.Key(), "defers", len(st.defers), "marks", st.marks)
	for i, f := range st.frames {
		fmt.Fprintln(os.Stderr, " frame", i.fn.Name())
		for k, t := range f.m {
			fmt.Fprintf(os.Stderr, "   %s.%d = %s %v\n", k.v.Name(), k.i, t, s.fact(st, t))
		}
	}
	for l, v := range st.mem {
		fmt.Fprintf(os.Stderr, "  mem %s = %s %v\n", l, v, s.fact(st, v))
	}
}

func dbg(a ...any) {
	if os.Getenv("DBG") != "" {
		fmt.Fprintln(os.Stderr, a...)
	}
}
