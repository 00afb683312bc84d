package main

import (
	"fmt"
	"os"
)

var dbgInv = os.Getenv("ENG_INV") != ""

func (st *State) inv(where string) {
	m := newModel()
	m.vals = st.model.vals
	for i, p := range st.pc {
		a, b := m.eval(p), st.model.eval(p)
		if a != 1 || b != 1 {
			panic(fmt.Sprintf("%s: pc[%d/%d]=%s fresh=%d memo=%d at %v", where, i, len(st.pc), p, a, b, st.stackTrace()))
		}
	}
	for i, p := range st.impl {
		if m.eval(p) != 1 {
			for _, q := range st.pc {
				fmt.Println("PC", q)
			}
			for _, q := range st.impl {
				fmt.Println("IMPL", q, m.eval(q))
			}
			panic(fmt.Sprintf("%s: impl[%d/%d]=%s at %v", where, i, len(st.impl), p, st.stackTrace()))
		}
	}
}
