package main

import (
	"fmt"
	"time"
)

func testInit(ex *Exec) {
	initLayout(ex)
	t0 := time.Now()
	for _, g := range ex.findGenFns() {
		ex.contracts[shortName(g.fn)] = g.rule
		fmt.Println(g.fn, g.proved, time.Since(t0))
	}
	try := func(name string, r int, args ...Val) {
		t0 := time.Now()
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(unsupported); ok {
					fmt.Println("UNSUP", name, r, u.msg)
					return
				}
				panic(x)
			}
		}()
		st := newState()
		tr, di := tTrue, tFalse
		p := st.mkT(tspec{name: "t", dims: dimVars("d", r), elem: elemVar("x"), tracked: tr, dirty: di, pre: true})
		fn := ex.method(ptrT(lay.tensorT), name)
		a := []Val{p}
		for _, x := range args {
			if x == nil {
				q := st.mkT(tspec{name: "u", dims: dimVars("e", r), elem: elemVar("y"), tracked: tr, dirty: di, pre: true})
				x = wrapT(q)
			}
			if ts, ok := x.([]*Term); ok {
				x = st.intSlice("arg", true, "arg", ts)
			}
			a = append(a, x)
		}
		outs := ex.call(st, VFunc{fn: fn}, a)
		for _, o := range outs {
			if o.panic != "" {
				fmt.Println("panic", o.panic, o.pos)
				continue
			}
			if len(o.vals) == 2 {
				if _, ok := o.vals[1].(VNil); !ok {
					fmt.Println(o.st.pc, "=> err")
					continue
				}
			}
			q, ok := asPtr(o.vals[0])
			if !ok {
				fmt.Println(o.st.pc, "=>", o.vals[0])
				continue
			}
			var idx []*Term
			for i := range o.st.dimsOf(q) {
				k := V(fmt.Sprintf("i%d", i), SInt)
				idx = append(idx, k)
				o.st.pc = o.st.pc.And(Ge(k, I(0))).And(Lt(k, o.st.dimsOf(q)[i]))
			}
			g, _ := o.st.gctxOf(q)
			fmt.Println(name, o.st.pc, "=>", o.st.dimsOf(q), o.st.elemOf(q, idx), g.tracked, g.dirty, g.grad, len(g.edges))
		}
		fmt.Println(name, r, time.Since(t0), smtStats)
	}
	try("Transpose", 3)
	try("Sum", 2)
	try("Max", 2)
	try("Std", 2)
	try("SumAlong", 3, VT{I(1)})
	try("StdAlong", 3, VT{I(1)})
	try("Eq", 2, nil)
	try("Add", 2, nil)
	try("Dot", 2, nil)
	try("MatMul", 3, nil)
	try("Equals", 2, nil)
	try("Reshape", 2, dimVars("s", 2))
	try("Reshape", 2, dimVars("s", 3))
	try("Flatten", 3, VT{I(1)})
	try("UnSqueeze", 2, VT{I(1)})
	try("Broadcast", 2, dimVars("s", 3))
}
