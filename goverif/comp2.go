package main

// Contracts of activations, layers and the optimizer.

import (
	"fmt"
	"go/types"
)

const (
	actPkg   = "component/layers/activations"
	layerPkg = "component/layers"
	optPkg   = "component/optimizers"
)

// config is a pointer to a caller-owned configuration struct.
func (u *ur) config(st *State, pkg, typ string, fields map[string]Val) Val {
	t := u.ex.typ(pkg, typ)
	s := structOf(t)
	f := make([]Val, s.NumFields())
	n := 0
	for i := range f {
		f[i] = zeroVal(s.Field(i).Type())
		if v, ok := fields[s.Field(i).Name()]; ok {
			f[i] = v
			n++
		}
	}
	if n != len(fields) {
		unsup("fields of %s", typ)
	}
	return VPtr{st.newObj("config", t, true, "arg config", VStruct{f}), I(0), ""}
}

// variadic is the argument slice of a variadic call.
func (u *ur) variadic(st *State, vs ...Val) Val {
	n := I(int64(len(vs)))
	return VSlice{st.newObj("xs", tensorIfaceT(u.ex), true, "arg xs", vs...), I(0), n, n}
}

/* ---------- activations ---------- */

type actSpec struct {
	name string
	// make calls the constructor
	conf  []string // configuration variants
	value func(m *Term, d []*Term, dim int, x func([]*Term) *Term, i []*Term) *Term
	// grad is the derivative applied to the upstream gradient
	grad func(st *State, m *Term, d []*Term, dim int, x, w func([]*Term) *Term, i []*Term) *Term
	dim  bool
}

func actSpecs() []*actSpec {
	relu := func(m *Term, _ []*Term, _ int, x func([]*Term) *Term, i []*Term) *Term {
		return Add(MaxT(R(0), x(i)), Mul(m, MinT(R(0), x(i))))
	}
	reluG := func(st *State, m *Term, _ []*Term, _ int, x, w func([]*Term) *Term, i []*Term) *Term {
		a, g := x(i), w(i)
		if st.must(Gt(a, eqTau)) {
			return g
		}
		if st.must(Lt(a, Neg(eqTau))) {
			return Mul(m, g)
		}
		// at 0: between the two
		mid := Div(Add(g, Mul(m, g)), R(2))
		for _, c := range []*Term{mid, g, Mul(m, g)} {
			if ProveEq(st.pc, st.got, c) {
				return c
			}
		}
		if Prove(st.pc, Le(Mul(Sub(st.got, g), Sub(st.got, Mul(m, g))), R(0))) {
			return st.got
		}
		return mid
	}
	sig := func(a *Term) *Term { return Div(R(1), Add(R(1), Exp(Neg(a)))) }
	p := func(d []*Term, dim int, x func([]*Term) *Term, i []*Term) *Term {
		return Div(Exp(x(i)), SumT(d[dim], func(k *Term) *Term { return Exp(x(setAt(i, dim, k))) }))
	}
	return []*actSpec{
		{name: "Relu", value: relu, grad: reluG},
		{name: "LeakyRelu", conf: []string{"nil", "m"}, value: relu, grad: reluG},
		{name: "Sigmoid",
			value: func(_ *Term, _ []*Term, _ int, x func([]*Term) *Term, i []*Term) *Term { return sig(x(i)) },
			grad: func(_ *State, _ *Term, _ []*Term, _ int, x, w func([]*Term) *Term, i []*Term) *Term {
				s := sig(x(i))
				return MulN(w(i), s, Sub(R(1), s))
			}},
		{name: "Tanh",
			value: func(_ *Term, _ []*Term, _ int, x func([]*Term) *Term, i []*Term) *Term { return fn1("tanh", x(i)) },
			grad: func(_ *State, _ *Term, _ []*Term, _ int, x, w func([]*Term) *Term, i []*Term) *Term {
				return Mul(w(i), Sub(R(1), PowN(fn1("tanh", x(i)), 2)))
			}},
		{name: "Softmax", conf: []string{"nil", "dim"}, dim: true,
			value: func(_ *Term, d []*Term, dim int, x func([]*Term) *Term, i []*Term) *Term { return p(d, dim, x, i) },
			grad: func(_ *State, _ *Term, d []*Term, dim int, x, w func([]*Term) *Term, i []*Term) *Term {
				s := SumT(d[dim], func(k *Term) *Term { j := setAt(i, dim, k); return Mul(p(d, dim, x, j), w(j)) })
				return Mul(p(d, dim, x, i), Sub(w(i), s))
			}},
	}
}

func setAt(i []*Term, k int, x *Term) []*Term {
	out := append([]*Term(nil), i...)
	out[k] = x
	return out
}

// new makes the activation; f receives its parameters (slope, dimension).
func (s *actSpec) new(u *ur, st *State, conf string, f func(st *State, c Val, m, dim *Term)) {
	m, dim := R(0), I(0)
	var args []Val
	switch conf {
	case "nil":
		args = []Val{VNil{}}
		m = RF(0.01)
	case "m":
		m = V("m", SReal)
		args = []Val{u.config(st, actPkg, s.name+"Config", map[string]Val{"M": VT{m}})}
	case "dim":
		dim = V("dim", SInt)
		args = []Val{u.config(st, actPkg, s.name+"Config", map[string]Val{"Dim": VT{dim}})}
	}
	since := st.writes
	for _, o := range u.call(st, u.ex.fn(actPkg, "New"+s.name), args) {
		if !u.noPanic("C09 C14", "New"+s.name, o) {
			continue
		}
		u.frame(o.st, since, nil)
		if len(o.vals) == 2 {
			valid := Ge(dim, I(0))
			if isErr(o) {
				u.obf("C09 C14", "configuration error only when it is invalid", Prove(o.st.pc, Not(valid)), "on path %s", o.st.pc)
				continue
			}
			if !u.obf("C09 C14", "invalid configuration is rejected", Prove(o.st.pc, valid), "on path %s", o.st.pc) {
				continue
			}
		}
		f(o.st, o.vals[0], m, dim)
	}
}

func actUnits(ex *Exec) []*unit {
	var us []*unit
	for _, s := range actSpecs() {
		s := s
		confs := s.conf
		if confs == nil {
			confs = []string{""}
		}
		for _, c := range confs {
			c := c
			for r := 0; r <= 4; r++ {
				r := r
				us = append(us, &unit{name: fmt.Sprintf("activation %s %s rank %d", s.name, c, r), props: []string{"C14", "C09", "C10", "C20"},
					run: func(u *ur) { s.forward(u, c, tin{rank: r}) }})
			}
			if c == "nil" && len(confs) > 1 {
				continue
			}
			us = append(us, &unit{name: fmt.Sprintf("activation %s %s flags", s.name, c), props: []string{"C14", "C08", "C09", "C10", "C20"},
				run: func(u *ur) { s.forward(u, c, tin{rank: 1, tracked: V("tracked", SBool), dirty: V("spent", SBool)}) }})
			us = append(us, &unit{name: fmt.Sprintf("activation %s %s inputs", s.name, c), props: []string{"C09"}, run: func(u *ur) { s.badInputs(u, c) }})
			for r := 0; r <= 3; r++ {
				r := r
				for _, chain := range []bool{false, true} {
					chain := chain
					k := "leaf"
					if chain {
						k = "chained"
					}
					us = append(us, &unit{name: fmt.Sprintf("activation %s %s backward rank %d %s", s.name, c, r, k), props: []string{"C15", "C02", "C08", "C10"},
						run: func(u *ur) { s.backward(u, c, r, chain) }})
				}
			}
		}
	}
	return us
}

func (s *actSpec) call(u *ur, st *State, c Val, xs ...Val) []Outcome {
	return u.call(st, u.method(actPkg, s.name, "Forward"), []Val{c, u.variadic(st, xs...)})
}

func (s *actSpec) badInputs(u *ur, conf string) {
	for n, mk := range []func(st *State) []Val{
		func(st *State) []Val { return nil },
		func(st *State) []Val { return []Val{VNil{}} },
		func(st *State) []Val {
			return []Val{u.mk(st, tin{name: "x", rank: 1}).val, u.mk(st, tin{name: "y", rank: 1}).val}
		},
		func(st *State) []Val { return []Val{u.mk(st, tin{name: "x", rank: 1}).val, VNil{}} },
	} {
		st := newState()
		xs := mk(st)
		s.new(u, st, conf, func(st *State, c Val, m, dim *Term) {
			for _, o := range s.call(u, st, c, xs...) {
				if u.noPanic("C09", "Forward", o) {
					u.obf("C09", "invalid inputs are rejected", isErr(o) && isNilVal(o.vals[0]), "inputs %d on path %s", n, o.st.pc)
				}
			}
		})
	}
}

// eachDim fixes the dimension parameter to each value it can take.
func (s *actSpec) eachDim(st *State, dim *Term, r int, f func(st *State, k int)) {
	if !s.dim {
		f(st, 0)
		return
	}
	for k := 0; k < r; k++ {
		c := st.clone()
		c.pc = c.pc.And(Eq(dim, I(int64(k))))
		if feasible(c.pc) {
			f(c, k)
		}
	}
}

func (s *actSpec) forward(u *ur, conf string, t tin) {
	st := newState()
	t.name = "x"
	x := u.mk(st, t)
	s.new(u, st, conf, func(st *State, c Val, m, dim *Term) { s.apply(u, st, c, m, dim, x, 1, nil) })
}

// apply checks one call, the n-th; earlier checks the result of the one before.
func (s *actSpec) apply(u *ur, st *State, c Val, m, dim *Term, x *tv, n int, earlier func(st *State)) {
	restore := u.defs("C14", "activation is finite: operations are defined where used")
	before, since := st.clone(), st.writes
	outs := s.call(u, st, c, x.val)
	restore()
	for _, o := range outs {
		if !u.noPanic("C09 C14", "Forward", o) {
			continue
		}
		st := o.st
		u.frame(st, since, nil)
		valid := tTrue
		if s.dim {
			valid = Lt(dim, I(int64(x.rank)))
		}
		if isErr(o) {
			u.obf("C09 C14", "error only outside the precondition", Prove(st.pc, Not(valid)), "valid input is rejected on path %s", st.pc)
			u.obf("C09", "no result with an error", isNilVal(o.vals[0]), "result beside the error on path %s", st.pc)
			continue
		}
		if !u.obf("C09 C14", "inputs outside the precondition are rejected", Prove(st.pc, valid), "accepted on path %s", st.pc) {
			continue
		}
		u.noRetention(st, o.vals[0])
		u.freshData(st, o.vals[0])
		is := func(st *State, k int) bool {
			return u.tensorIs(st, "C14 C09 C10", s.name, o.vals[0], x.dims, func(st *State, i []*Term) *Term { return s.value(m, x.dims, k, x.elem, i) })
		}
		s.eachDim(st, dim, x.rank, func(st *State, k int) {
			if !is(st, k) {
				return
			}
			r, _ := asPtr(o.vals[0])
			u.each(st, func(st *State) { u.resultFlags(st, s.name+" result", r, x) })
			if s.dim {
				u.each(st, func(st *State) {
					i := dimVars("at", x.rank)
					for n, v := range i {
						st.pc = st.pc.And(Ge(v, I(0))).And(Lt(v, x.dims[n]))
					}
					// what the result holds is the specified quotient (above); it sums to one and is not negative
					sum := SumT(x.dims[k], func(j *Term) *Term { return s.value(m, x.dims, k, x.elem, setAt(i, k, j)) })
					u.obf("C14", "sums to 1 along the dimension", ProveEq(st.pc, sum, R(1)), "sum %s on path %s", sum, st.pc)
					v := s.value(m, x.dims, k, x.elem, i)
					u.obf("C14", "is not negative", Prove(st.pc, Ge(v, R(0))), "%s on path %s", v, st.pc)
				})
			}
		})
		if earlier != nil {
			earlier(st)
		}
		if n < maxCalls && !u.untouched(before, st, since, c) {
			was := func(st *State) { s.eachDim(st, dim, x.rank, func(st *State, k int) { is(st, k) }) }
			s.apply(u, st.clone(), c, m, dim, x, n+1, was)
			st := st.clone()
			y := u.mk(st, tin{name: fmt.Sprintf("x'%d", n), rank: x.rank, tracked: x.tracked, dirty: x.dirty})
			s.apply(u, st, c, m, dim, y, n+1, was)
		}
	}
}

func (s *actSpec) backward(u *ur, conf string, rank int, chain bool) {
	if s.dim && rank == 0 {
		u.ob("C15", "no input of rank 0", true, "")
		return
	}
	st := newState()
	x := u.mk(st, tin{name: "x", rank: rank, tracked: tTrue, chain: chain})
	w := elemVar("w")
	s.new(u, st, conf, func(st *State, c Val, m, dim *Term) {
		if s.dim {
			st.pc = st.pc.And(Lt(dim, I(int64(rank))))
		}
		var run func(st *State, n int)
		run = func(st *State, n int) {
			before, since := st.clone(), st.writes
			for _, o := range s.call(u, st, c, x.val) {
				if !u.noPanic("C15 C14", "Forward", o) || !u.obf("C15 C14", "valid input is accepted", !isErr(o), "error on path %s", o.st.pc) {
					continue
				}
				r, _ := asPtr(o.vals[0])
				back := func(st *State) {
					s.eachDim(st, dim, rank, func(st *State, k int) {
						u.backProp(st.clone(), "C15", r, x.dims, w, func(st *State) {
							u.inputGrad(st, "C15", "input gradient", x, func(st *State, i []*Term) *Term {
								return s.grad(st, m, x.dims, k, x.elem, w, i)
							})
						})
					})
				}
				back(o.st)
				if n < maxCalls && !u.untouched(before, o.st, since, c) {
					run(o.st.clone(), n+1)
					// other inputs between the call and its back-propagation, and before the call
					st := o.st.clone()
					y := u.mk(st, tin{name: fmt.Sprintf("x'%d", n), rank: rank, tracked: tTrue})
					for _, o := range s.call(u, st, c, y.val) {
						if o.panic == "" && !isErr(o) {
							back(o.st)
							run(o.st.clone(), maxCalls)
						}
					}
				}
			}
		}
		run(st, 1)
	})
}

/* ---------- layers ---------- */

func layerUnits(ex *Exec) []*unit {
	var us []*unit
	add := func(name string, props []string, f func(u *ur)) {
		us = append(us, &unit{name: name, props: props, run: f})
	}
	fwd := []string{"C16", "C09", "C10", "C20"}
	add("FC forward", fwd, func(u *ur) {
		fcForward(u, tin{rank: 1}, tin{rank: 1}, tin{rank: 2}, false)
	})
	add("FC forward flags", append([]string{"C08"}, fwd...), func(u *ur) {
		fcForward(u, tin{rank: 1, tracked: V("trackedW", SBool), dirty: V("spentW", SBool)}, tin{rank: 1, tracked: V("trackedB", SBool), dirty: V("spentB", SBool)},
			tin{rank: 2, tracked: V("trackedX", SBool), dirty: V("spentX", SBool)}, false)
	})
	for _, r := range []int{0, 1, 3, 4} {
		r := r
		add(fmt.Sprintf("FC forward input rank %d", r), fwd, func(u *ur) { fcForward(u, tin{rank: 1}, tin{rank: 1}, tin{rank: r}, false) })
	}
	for _, r := range [][2]int{{0, 0}, {0, 1}, {1, 0}, {2, 1}, {1, 2}, {2, 2}} {
		r := r
		add(fmt.Sprintf("FC forward parameter ranks %v", r), []string{"C09"}, func(u *ur) { fcForward(u, tin{rank: r[0]}, tin{rank: r[1]}, tin{rank: 2}, false) })
	}
	add("FC forward unset parameters", []string{"C09", "C16"}, func(u *ur) {
		fcForward(u, tin{nilv: true}, tin{rank: 1}, tin{rank: 2}, false)
		fcForward(u, tin{rank: 1}, tin{nilv: true}, tin{rank: 2}, false)
		fcForward(u, tin{nilv: true}, tin{nilv: true}, tin{rank: 2}, false)
	})
	add("FC inputs", []string{"C09", "C16"}, fcInputs)
	add("FC forward after replacing parameters", fwd, func(u *ur) { fcForward(u, tin{rank: 1}, tin{rank: 1}, tin{rank: 2}, true) })
	add("FC weights", []string{"C16", "C10"}, fcWeights)
	for _, c := range []struct {
		n       string
		w, b, x tin
	}{
		{"leaf parameters, leaf input", tin{tracked: tTrue}, tin{tracked: tTrue}, tin{tracked: tTrue}},
		{"leaf parameters, untracked input", tin{tracked: tTrue}, tin{tracked: tTrue}, tin{}},
		{"leaf parameters, chained input", tin{tracked: tTrue}, tin{tracked: tTrue}, tin{chain: true}},
		{"tracked weight only", tin{tracked: tTrue}, tin{}, tin{}},
		{"tracked bias only", tin{}, tin{tracked: tTrue}, tin{}},
		{"tracked input only", tin{}, tin{}, tin{chain: true}},
		{"all chained", tin{chain: true}, tin{chain: true}, tin{chain: true}},
	} {
		c := c
		add("FC backward "+c.n, []string{"C16", "C02", "C08", "C10"}, func(u *ur) { fcBackward(u, c.w, c.b, c.x) })
	}
	for _, k := range []string{"nil", "none", "empty", "weight", "bias", "both", "nil weight", "nil bias"} {
		k := k
		add("NewFC initializers "+k, []string{"C09", "C16", "C18"}, func(u *ur) { newFC(u, k) })
	}
	add("Input layer", []string{"C09"}, inputLayer)
	return us
}

func fcObj(u *ur, st *State, w, b Val) VPtr {
	t := u.ex.typ(layerPkg, "FC")
	s := structOf(t)
	f := make([]Val, s.NumFields())
	for i := range f {
		f[i] = zeroVal(s.Field(i).Type())
		switch s.Field(i).Name() {
		case "Weight":
			f[i] = w
		case "Bias":
			f[i] = b
		}
	}
	return VPtr{st.newObj("fc", t, true, "layer", VStruct{f}), I(0), ""}
}

func fcDims(w, b, x *tin) {
	w.name, b.name, x.name = "W", "B", "x"
}

func fcElem(w, b, x func([]*Term) *Term, feats *Term, i []*Term) *Term {
	o := []*Term{i[1]}
	return Add(Mul(w(o), SumT(feats, func(d *Term) *Term { return x([]*Term{i[0], d}) })), b(o))
}

func fcForward(u *ur, wi, bi, xi tin, viaWeights bool) {
	st := newState()
	fcDims(&wi, &bi, &xi)
	w, b, x := u.mk(st, wi), u.mk(st, bi), u.mk(st, xi)
	var c VPtr
	if viaWeights {
		// the parameters are assigned through the pointers Weights returns
		w0, b0 := u.mk(st, tin{name: "W0", rank: 1}), u.mk(st, tin{name: "B0", rank: 1})
		c = fcObj(u, st, w0.val, b0.val)
		for _, o := range u.call(st, u.method(layerPkg, "FC", "Weights"), []Val{c}) {
			if !u.noPanic("C16", "Weights", o) {
				return
			}
			st = o.st
			for k, ptr := range weightPtrs(u, st, o.vals[0]) {
				st.store(ptr, []Val{w.val, b.val}[k], "caller")
			}
		}
	} else {
		c = fcObj(u, st, w.val, b.val)
	}
	since := st.writes
	outs := u.call(st, u.method(layerPkg, "FC", "Forward"), []Val{c, u.variadic(st, x.val)})
	for _, o := range outs {
		if !u.noPanic("C09 C16", "Forward", o) {
			continue
		}
		st := o.st
		u.frame(st, since, nil)
		if isErr(o) {
			u.obf("C09", "no result with an error", isNilVal(o.vals[0]), "result beside the error on path %s", st.pc)
		}
		if wi.nilv || bi.nilv || xi.rank != 2 {
			u.obf("C09 C16", "invalid input is rejected", isErr(o), "accepted on path %s", st.pc)
			continue
		}
		if wi.rank != 1 || bi.rank != 1 {
			if !isErr(o) {
				r, ok := asPtr(o.vals[0])
				u.obf("C09", "result is a tensor", ok && r.ref != nil, "%T", o.vals[0])
			}
			continue
		}
		same := Eq(w.dims[0], b.dims[0])
		if isErr(o) {
			u.obf("C09 C16", "error only for mismatched parameters", Prove(st.pc, Not(same)), "valid input is rejected on path %s", st.pc)
			continue
		}
		st = st.clone()
		st.pc = st.pc.And(same)
		if !feasible(st.pc) {
			continue
		}
		dims := []*Term{x.dims[0], w.dims[0]}
		if !u.tensorIs(st, "C16 C09", "FC", o.vals[0], dims, func(st *State, i []*Term) *Term { return fcElem(w.elem, b.elem, x.elem, x.dims[1], i) }) {
			continue
		}
		u.noRetention(st, o.vals[0])
		u.freshData(st, o.vals[0])
		r, _ := asPtr(o.vals[0])
		u.each(st, func(st *State) { u.resultFlags(st, "FC result", r, w, b, x) })
	}
}

// weightPtrs reads the pointers out of the slice Weights returns.
func weightPtrs(u *ur, st *State, v Val) []VPtr {
	var out []VPtr
	t := structOf(u.ex.typ(layerPkg, "Weight"))
	for _, c := range st.slice(v) {
		s, ok := c.(VStruct)
		if !ok {
			unsup("Weight value")
		}
		for i := range s.f {
			if t.Field(i).Name() == "Value" {
				p, ok := s.f[i].(VPtr)
				if !ok {
					unsup("Weight pointer")
				}
				out = append(out, p)
			}
		}
	}
	return out
}

func fcInputs(u *ur) {
	for n := 0; n < 4; n++ {
		st := newState()
		w, b, x, y := u.mk(st, tin{name: "W", rank: 1}), u.mk(st, tin{name: "B", rank: 1}), u.mk(st, tin{name: "x", rank: 2}), u.mk(st, tin{name: "y", rank: 2})
		c := fcObj(u, st, w.val, b.val)
		xs := [][]Val{nil, {VNil{}}, {x.val, y.val}, {x.val, VNil{}}}[n]
		for _, o := range u.call(st, u.method(layerPkg, "FC", "Forward"), []Val{c, u.variadic(st, xs...)}) {
			if u.noPanic("C09", "Forward", o) {
				u.obf("C09 C16", "invalid inputs are rejected", isErr(o) && isNilVal(o.vals[0]), "inputs %d on path %s", n, o.st.pc)
			}
		}
	}
}

// fcWeights: the pointers address the tensors Forward uses.
func fcWeights(u *ur) {
	st := newState()
	w, b := u.mk(st, tin{name: "W", rank: 1}), u.mk(st, tin{name: "B", rank: 1})
	c := fcObj(u, st, w.val, b.val)
	since := st.writes
	for _, o := range u.call(st, u.method(layerPkg, "FC", "Weights"), []Val{c}) {
		if !u.noPanic("C16", "Weights", o) {
			continue
		}
		u.frame(o.st, since, nil)
		ps := weightPtrs(u, o.st, o.vals[0])
		if !u.obf("C16", "both parameters are listed", len(ps) == 2, "%d", len(ps)) {
			continue
		}
		for k, p := range ps {
			want := []*tv{w, b}[k]
			got, ok := asPtr(o.st.load(p))
			u.obf("C16", "pointer addresses the layer's parameter", ok && got.ref == want.p.ref && p.ref == c.ref, "parameter %d: %v", k, got)
		}
		t := structOf(u.ex.typ(layerPkg, "Weight"))
		for _, cell := range o.st.slice(o.vals[0]) {
			for i, f := range cell.(VStruct).f {
				if t.Field(i).Name() == "Trainable" {
					u.obf("C16", "parameters are trainable", Prove(o.st.pc, term(f)), "on path %s", o.st.pc)
				}
			}
		}
	}
}

func fcBackward(u *ur, wi, bi, xi tin) {
	st := newState()
	fcDims(&wi, &bi, &xi)
	out := V("outs", SInt)
	wi.rank, bi.rank, xi.rank = 1, 1, 2
	wi.dims, bi.dims, xi.dims = []*Term{out}, []*Term{out}, []*Term{V("batch", SInt), V("feats", SInt)}
	w, b, x := u.mk(st, wi), u.mk(st, bi), u.mk(st, xi)
	c := fcObj(u, st, w.val, b.val)
	g := elemVar("w")
	batch, feats := x.dims[0], x.dims[1]
	for _, o := range u.call(st, u.method(layerPkg, "FC", "Forward"), []Val{c, u.variadic(st, x.val)}) {
		if !u.noPanic("C16", "Forward", o) || !u.obf("C16", "valid input is accepted", !isErr(o), "error on path %s", o.st.pc) {
			continue
		}
		r, _ := asPtr(o.vals[0])
		u.backProp(o.st.clone(), "C16", r, []*Term{batch, out}, g, func(st *State) {
			u.inputGrad(st, "C16", "weight gradient", w, func(st *State, i []*Term) *Term {
				return SumT(batch, func(n *Term) *Term {
					return Mul(g([]*Term{n, i[0]}), SumT(feats, func(d *Term) *Term { return x.elem([]*Term{n, d}) }))
				})
			})
			u.inputGrad(st, "C16", "bias gradient", b, func(st *State, i []*Term) *Term {
				return SumT(batch, func(n *Term) *Term { return g([]*Term{n, i[0]}) })
			})
			u.inputGrad(st, "C16", "input gradient", x, func(st *State, i []*Term) *Term {
				return SumT(out, func(n *Term) *Term { return Mul(g([]*Term{i[0], n}), w.elem([]*Term{n})) })
			})
		})
	}
}

func initializerIface(u *ur) types.Type { return u.ex.typ(layerPkg, "Initializer") }

// newFC: configuration errors and the parameters it makes.
func newFC(u *ur, kind string) {
	st := newState()
	var conf Val = VNil{}
	in, out := V("inputs", SInt), V("outputs", SInt)
	valid := And(Ge(in, I(1)), Ge(out, I(1)))
	wv, bv := V("wv", SReal), V("bv", SReal)
	full := func(v *Term) Val {
		var r Val
		u.made(st, initPkg, "NewFull", []Val{u.config(st, initPkg, "FullConfig", map[string]Val{"Value": VT{v}})}, func(s *State, c Val) { st = s; r = c })
		return VIface{ptrT(u.ex.typ(initPkg, "Full")), r}
	}
	if kind == "nil" {
		valid = tFalse
	} else {
		var m Val = VNil{}
		var keys, vals []Val
		switch kind {
		case "weight", "both":
			keys, vals = append(keys, VStr{"Weight"}), append(vals, full(wv))
		case "nil weight":
			keys, vals = append(keys, VStr{"Weight"}), append(vals, VNil{})
			valid = tFalse
		}
		switch kind {
		case "bias", "both":
			keys, vals = append(keys, VStr{"Bias"}), append(vals, full(bv))
		case "nil bias":
			keys, vals = append(keys, VStr{"Bias"}), append(vals, VNil{})
			valid = tFalse
		}
		if kind != "none" {
			m = VMap{st.newObj("initializers", types.NewMap(types.Typ[types.String], initializerIface(u)), true, "arg initializers", VMapData{keys, vals})}
		}
		conf = u.config(st, layerPkg, "FCConfig", map[string]Val{"Inputs": VT{in}, "Outputs": VT{out}, "Initializers": m})
	}
	for _, o := range u.call(st, u.ex.fn(layerPkg, "NewFC"), []Val{conf}) {
		if !u.noPanic("C09", "NewFC", o) {
			continue
		}
		st := o.st
		if isErr(o) {
			u.obf("C09", "error only outside the precondition", Prove(st.pc, Not(valid)), "valid configuration is rejected on path %s", st.pc)
			u.obf("C09", "no result with an error", isNilVal(o.vals[0]), "result beside the error on path %s", st.pc)
			continue
		}
		if !u.obf("C09", "invalid configuration is rejected", Prove(st.pc, valid), "accepted on path %s", st.pc) {
			continue
		}
		p := o.vals[0].(VPtr)
		s := structOf(u.ex.typ(layerPkg, "FC"))
		for i, f := range st.load(p).(VStruct).f {
			var want func(st *State, i []*Term) *Term
			lim := sqrtT(Div(R(6), Add(ToReal(in), ToReal(out))))
			switch s.Field(i).Name() {
			case "Weight":
				want = func(st *State, i []*Term) *Term { return drawOf(st, "drawU", Neg(lim), lim, nil) }
				if kind == "weight" || kind == "both" {
					want = func(*State, []*Term) *Term { return wv }
				}
			case "Bias":
				want = func(*State, []*Term) *Term { return R(0) }
				if kind == "bias" || kind == "both" {
					want = func(*State, []*Term) *Term { return bv }
				}
			default:
				continue
			}
			what := s.Field(i).Name()
			if u.tensorIs(st, "C09 C16 C18", what, f, []*Term{out}, want) {
				r, _ := asPtr(f)
				g, _ := st.gctxOf(r)
				u.obf("C18 C16 C08", what+" is a tracked leaf", Prove(st.pc, And(g.tracked, Not(g.dirty))) && len(g.edges) == 0 && isNilVal(g.grad), "on path %s", st.pc)
			}
		}
	}
}

func inputLayer(u *ur) {
	t := u.ex.typ(layerPkg, "Input")
	f := func(seed Val, x bool) {
		st := newState()
		y := u.mk(st, tin{name: "seed", rank: 1})
		if n, ok := seed.(VFunc); ok {
			n.nat = &Native{name: "seed", call: func(ex *Exec, st *State, _ []Val) []Outcome { return one(st, y.val) }}
			seed = n
		}
		c := VPtr{st.newObj("input", t, true, "layer", VStruct{[]Val{seed}}), I(0), ""}
		if structOf(t).NumFields() != 1 {
			unsup("fields of Input")
		}
		var xs []Val
		if x {
			xs = append(xs, y.val)
		}
		for _, o := range u.call(st, u.method(layerPkg, "Input", "Forward"), []Val{c, u.variadic(st, xs...)}) {
			if !u.noPanic("C09", "Forward", o) {
				continue
			}
			if isNilVal(seed) || x {
				u.obf("C09", "invalid call is rejected", isErr(o) && isNilVal(o.vals[0]), "accepted")
				continue
			}
			p, ok := asPtr(o.vals[0])
			u.obf("C09", "returns the seed tensor", !isErr(o) && ok && p.ref == y.p.ref, "%v", o.vals)
		}
	}
	f(VNil{}, false)
	f(VFunc{}, false)
	f(VFunc{}, true)
	f(VNil{}, true)
	u.made(newState(), layerPkg, "NewInput", nil, func(st *State, c Val) {
		for _, o := range u.call(st, u.method(layerPkg, "Input", "Forward"), []Val{c, u.variadic(st)}) {
			if u.noPanic("C09", "Forward", o) {
				u.obf("C09", "unset SeedFunc is reported", isErr(o), "accepted")
			}
		}
	})
}

/* ---------- optimizer ---------- */

func sgdUnits(ex *Exec) []*unit {
	var us []*unit
	for r := 0; r <= 4; r++ {
		r := r
		for _, c := range []string{"nil", "lr"} {
			c := c
			us = append(us, &unit{name: fmt.Sprintf("SGD update rank %d config %s", r, c), props: []string{"C17", "C11", "C09", "C10"}, run: func(u *ur) { sgdUpdate(u, r, c, "gradient") }})
		}
	}
	for _, k := range []string{"nil pointer", "nil tensor", "no gradient", "reset"} {
		k := k
		us = append(us, &unit{name: "SGD update " + k, props: []string{"C17", "C11", "C09", "C10"}, run: func(u *ur) { sgdUpdate(u, 1, "lr", k) }})
	}
	return us
}

func sgdUpdate(u *ur, rank int, conf, kind string) {
	st := newState()
	lr := V("lr", SReal)
	var cv Val = u.config(st, optPkg, "SGDConfig", map[string]Val{"LearningRate": VT{lr}})
	if conf == "nil" {
		cv, lr = VNil{}, RF(0.01)
	}
	dims := dimVars("d", rank)
	g := st.mkT(tspec{name: "g", dims: dims, elem: elemVar("g"), pre: true, owner: "gradient", dirty: V("gspent", SBool)})
	sp := tspec{name: "W", dims: dims, elem: elemVar("W"), tracked: tTrue, dirty: tTrue, grad: wrapT(g), pre: true, owner: "weight"}
	if kind == "no gradient" {
		sp.grad, sp.tracked, sp.dirty = VNil{}, V("tracked", SBool), V("spent", SBool)
	}
	w := st.mkT(sp)
	if kind == "reset" {
		for _, o := range u.call(st, u.ex.method(ptrT(lay.tensorT), "ResetGradContext"), []Val{w, VT{V("tracked", SBool)}}) {
			st = o.st
		}
	}
	w0, g0 := w, g
	cell := st.newObj("wptr", tensorIfaceT(u.ex), true, "weight variable", wrapT(w))
	var ptr Val = VPtr{cell, I(0), ""}
	if kind == "nil pointer" {
		ptr = VNil{}
	}
	if kind == "nil tensor" {
		st.store(VPtr{cell, I(0), ""}, VNil{}, "caller")
	}
	// a second weight, for optimizers with a state
	var other struct {
		w, g VPtr
		ptr  Val
	}
	mkOther := func(st *State) {
		d := dimVars("e", rank)
		other.g = st.mkT(tspec{name: "g'", dims: d, elem: elemVar("g'"), pre: true, owner: "gradient"})
		other.w = st.mkT(tspec{name: "W'", dims: d, elem: elemVar("W'"), tracked: tTrue, dirty: tTrue, grad: wrapT(other.g), pre: true, owner: "weight"})
		other.ptr = VPtr{st.newObj("wptr'", tensorIfaceT(u.ex), true, "weight variable", wrapT(other.w)), I(0), ""}
	}
	var update func(st *State, c Val, n int, w, g VPtr, ptr Val, name string, earlier func(st *State))
	update = func(st *State, c Val, n int, w, g VPtr, ptr Val, name string, earlier func(st *State)) {
		before, since := st.clone(), st.writes
		We, ge, dims := elemVar("W"+name), elemVar("g"+name), st.dimsOf(w)
		for _, o := range u.call(st, u.method(optPkg, "SGD", "Update"), []Val{c, ptr}) {
			if !u.noPanic("C09 C17", "Update", o) {
				continue
			}
			st := o.st
			if kind != "gradient" {
				u.obf("C17 C09 C11", "update without a gradient is an error", isErr(o), "accepted on path %s", st.pc)
				u.frame(st, since, nil)
				if kind != "nil pointer" && kind != "nil tensor" {
					p, ok := asPtr(st.load(VPtr{cell, I(0), ""}))
					u.obf("C17", "failed update replaces nothing", ok && p.ref == w.ref, "replaced on path %s", st.pc)
				}
				continue
			}
			cell := ptr.(VPtr)
			u.frame(st, since, func(w *WriteRec) bool { return w.fam == cell.ref.fam })
			if !u.obf("C17 C11 C09", "update succeeds", !isErr(o), "error on path %s", st.pc) {
				continue
			}
			nw := st.load(cell)
			p, ok := asPtr(nw)
			u.obf("C17", "update makes a new tensor", ok && p.ref != w.ref && p.ref != g.ref, "on path %s", st.pc)
			is := func(st *State) {
				u.tensorIs(st, "C17 C11 C10", "updated weight", nw, dims, func(st *State, i []*Term) *Term { return Sub(We(i), Mul(lr, ge(i))) })
			}
			is(st)
			u.freshData(st, nw)
			// the old tensor and its gradient are as before
			u.tensorIs(st, "C17 C10", "previous tensor", wrapT(w), dims, func(st *State, i []*Term) *Term { return We(i) })
			og, _ := st.gctxOf(w)
			gp, ok := asPtr(og.grad)
			u.obf("C17 C10", "previous gradient is kept", ok && gp.ref == g.ref, "on path %s", st.pc)
			u.tensorIs(st, "C17 C10", "previous gradient", wrapT(g), dims, func(st *State, i []*Term) *Term { return ge(i) })
			if earlier != nil {
				earlier(st)
			}
			if n < maxCalls && !u.untouched(before, st, since, c) {
				// the same tensor through another variable, and another tensor
				a := st.clone()
				again := VPtr{a.newObj("wptr again", tensorIfaceT(u.ex), true, "weight variable", wrapT(w)), I(0), ""}
				update(a, c, n+1, w, g, again, name, is)
				b := st.clone()
				if name == "" {
					if other.w.ref == nil || b.get(other.w.ref.fam) == nil {
						mkOther(b)
					}
					update(b, c, n+1, other.w, other.g, other.ptr, "'", is)
				} else {
					back := VPtr{b.newObj("wptr back", tensorIfaceT(u.ex), true, "weight variable", wrapT(w0)), I(0), ""}
					update(b, c, n+1, w0, g0, back, "", is)
				}
			}
		}
	}
	u.made(st, optPkg, "NewSGD", []Val{cv}, func(st *State, c Val) { update(st, c, 1, w, g, ptr, "", nil) })
}
