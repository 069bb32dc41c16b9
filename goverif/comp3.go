package main

// Contracts of the initializers, the public constructors, the metric and the
// gradient-context methods.

import (
	"fmt"
	"go/types"
)

const initPkg = "component/initializers"
const metricPkg = "component/metrics"

// drawOf is the k-th draw from a distribution; k nil: any draw.
func drawOf(st *State, name string, a, b, k *Term) *Term {
	if k == nil {
		t := st.got
		if t.kind == KApp && t.name == name && len(t.args) == 3 {
			k = t.args[2]
		} else {
			k = V("some draw", SInt)
		}
	}
	return mkApp(name, SReal, a, b, k)
}

type initSpec struct {
	name   string
	conf   []string // fields
	ints   bool
	def    []*Term // values with a nil configuration; nil: nil is an error
	valid  func(c []*Term) *Term
	dist   string
	params func(c []*Term) (a, b *Term)
}

func initSpecs() []*initSpec {
	pos := func(c []*Term) *Term {
		var l []*Term
		for _, x := range c {
			l = append(l, Ge(x, I(1)))
		}
		return And(l...)
	}
	fan := func(k int64, c []*Term) *Term {
		s := R(0)
		for _, x := range c {
			s = Add(s, ToReal(x))
		}
		return sqrtT(Div(R(k), s))
	}
	return []*initSpec{
		{name: "Full", conf: []string{"Value"}, def: []*Term{R(0)}, valid: func([]*Term) *Term { return tTrue }},
		{name: "Uniform", conf: []string{"Lower", "Upper"}, def: []*Term{RF(-0.05), RF(0.05)}, dist: "drawU",
			valid: func(c []*Term) *Term { return Lt(c[0], c[1]) }, params: func(c []*Term) (*Term, *Term) { return c[0], c[1] }},
		{name: "Normal", conf: []string{"Mean", "StdDev"}, def: []*Term{R(0), RF(0.05)}, dist: "drawN",
			valid: func(c []*Term) *Term { return Gt(c[1], R(0)) }, params: func(c []*Term) (*Term, *Term) { return c[0], c[1] }},
		{name: "HeUniform", conf: []string{"FanIn"}, ints: true, dist: "drawU", valid: pos,
			params: func(c []*Term) (*Term, *Term) { s := fan(6, c); return Neg(s), s }},
		{name: "HeNormal", conf: []string{"FanIn"}, ints: true, dist: "drawN", valid: pos,
			params: func(c []*Term) (*Term, *Term) { return R(0), fan(2, c) }},
		{name: "XavierUniform", conf: []string{"FanIn", "FanOut"}, ints: true, dist: "drawU", valid: pos,
			params: func(c []*Term) (*Term, *Term) { s := fan(6, c); return Neg(s), s }},
		{name: "XavierNormal", conf: []string{"FanIn", "FanOut"}, ints: true, dist: "drawN", valid: pos,
			params: func(c []*Term) (*Term, *Term) { return R(0), fan(2, c) }},
	}
}

func initUnits(ex *Exec) []*unit {
	var us []*unit
	for _, s := range initSpecs() {
		s := s
		for n := -1; n <= 4; n++ {
			n := n
			us = append(us, &unit{name: fmt.Sprintf("initializer %s shape %d", s.name, n), props: []string{"C18", "C09", "C08", "C10"}, run: func(u *ur) { s.verify(u, n, false) }})
		}
		us = append(us, &unit{name: fmt.Sprintf("initializer %s nil config", s.name), props: []string{"C18", "C09"}, run: func(u *ur) { s.verify(u, 1, true) }})
	}
	return us
}

// shapeArg is a caller-owned shape of n unknown entries (-1: a nil slice).
func shapeArg(st *State, n int) (Val, []*Term) {
	if n < 0 {
		return VNil{}, nil
	}
	s := dimVars("s", n)
	return st.intSlice("arg", true, "arg shape", s), s
}

func (s *initSpec) verify(u *ur, n int, nilConf bool) {
	st := newState()
	var c []*Term
	fields := map[string]Val{}
	for _, f := range s.conf {
		v := V("conf"+f, SReal)
		if s.ints {
			v = V("conf"+f, SInt)
		}
		c = append(c, v)
		fields[f] = VT{v}
	}
	conf := Val(VNil{})
	valid := s.valid(c)
	if nilConf {
		c = s.def
		valid = B(c != nil)
	} else {
		conf = u.config(st, initPkg, s.name+"Config", fields)
	}
	for _, o := range u.call(st, u.ex.fn(initPkg, "New"+s.name), []Val{conf}) {
		if !u.noPanic("C09", "New"+s.name, o) {
			continue
		}
		if len(o.vals) == 2 {
			if isErr(o) {
				u.obf("C09 C18", "configuration error only when it is invalid", Prove(o.st.pc, Not(valid)), "on path %s", o.st.pc)
				continue
			}
			if !u.obf("C09 C18", "invalid configuration is rejected", Prove(o.st.pc, valid), "on path %s", o.st.pc) {
				continue
			}
		}
		// two calls: the draws of the second are fresh
		st := o.st.clone()
		arg, dims := shapeArg(st, n)
		since := st.writes
		init := u.method(initPkg, s.name, "Init")
		for _, o1 := range u.call(st, init, []Val{o.vals[0], arg}) {
			d1 := o1.st.draws
			if !s.result(u, o1, dims, c, I(0)) {
				continue
			}
			u.frame(o1.st, since, nil)
			for _, o2 := range u.call(o1.st.clone(), init, []Val{o.vals[0], arg}) {
				s.result(u, o2, dims, c, d1)
			}
		}
	}
}

func validDims(dims []*Term) *Term { return And(allPos(dims)...) }

func (s *initSpec) result(u *ur, o Outcome, dims, c []*Term, base *Term) bool {
	if !u.noPanic("C09 C18", "Init", o) {
		return false
	}
	st := o.st
	valid := validDims(dims)
	if isErr(o) {
		u.obf("C09 C18", "error only outside the precondition", Prove(st.pc, Not(valid)), "valid shape is rejected on path %s", st.pc)
		u.obf("C09", "no result with an error", isNilVal(o.vals[0]), "result beside the error on path %s", st.pc)
		return false
	}
	if !u.obf("C09 C18", "invalid shape is rejected", Prove(st.pc, valid), "accepted on path %s", st.pc) {
		return false
	}
	ok := u.tensorIs(st, "C18 C09", "initial tensor", o.vals[0], dims, func(st *State, i []*Term) *Term {
		if s.dist == "" {
			return c[0]
		}
		a, b := s.params(c)
		return mkApp(s.dist, SReal, a, b, Add(base, rankOf(i, dims)))
	})
	if !ok {
		return false
	}
	if s.dist != "" {
		u.obf("C18", "one draw for every element", ProveEq(st.pc, st.draws, Add(base, prod(dims))), "%s draws on path %s", st.draws, st.pc)
	}
	u.noRetention(st, o.vals[0])
	leafIs(u, st, "C18 C08", "initial tensor", o.vals[0], tTrue)
	return true
}

// leafIs: a tensor with a gradient context of its own, without history.
func leafIs(u *ur, st *State, props, what string, v Val, tracked *Term) {
	p, _ := asPtr(v)
	g, ok := st.gctxOf(p)
	u.obf(props, what+" is a fresh leaf with the requested tracking", ok && !g.ref.ref.fam.pre && ProveEq(st.pc, g.tracked, tracked) && Prove(st.pc, Not(g.dirty)) && isNilVal(g.grad) && len(g.edges) == 0,
		"tracked %s spent %s on path %s", g.tracked, g.dirty, st.pc)
}

/* ---------- public constructors ---------- */

type conSpec struct {
	name  string
	args  []*Term // between the shape and the configuration
	valid *Term
	elem  func(i, dims []*Term) *Term
}

func constructorUnits(ex *Exec) []*unit {
	a, b := V("a", SReal), V("b", SReal)
	specs := []*conSpec{
		{"Full", []*Term{a}, tTrue, func(i, d []*Term) *Term { return a }},
		{"Zeros", nil, tTrue, func(i, d []*Term) *Term { return R(0) }},
		{"Ones", nil, tTrue, func(i, d []*Term) *Term { return R(1) }},
		{"Eye", nil, tTrue, func(i, d []*Term) *Term { return Ite(Eq(i[0], i[1]), R(1), R(0)) }},
		{"RandU", []*Term{a, b}, Lt(a, b), func(i, d []*Term) *Term { return mkApp("drawU", SReal, a, b, rankOf(i, d)) }},
		{"RandN", []*Term{a, b}, Gt(b, R(0)), func(i, d []*Term) *Term { return mkApp("drawN", SReal, a, b, rankOf(i, d)) }},
	}
	var us []*unit
	for _, s := range specs {
		s := s
		props := []string{"C06", "C09", "C08", "C10", "C20"}
		if s.name == "RandU" || s.name == "RandN" {
			props = []string{"C18", "C09", "C08", "C10", "C20"}
		}
		for n := -1; n <= 4; n++ {
			n := n
			if s.name == "Eye" && n != 2 {
				continue
			}
			for _, c := range []string{"nil config", "config"} {
				c := c
				us = append(us, &unit{name: fmt.Sprintf("constructor %s shape %d %s", s.name, n, c), props: props, run: func(u *ur) { s.verify(u, props[0], n, c) }})
			}
		}
	}
	for r := 0; r <= 4; r++ {
		r := r
		us = append(us, &unit{name: fmt.Sprintf("constructor TensorOf rank %d", r), props: []string{"C06", "C09", "C08", "C10", "C20"}, run: func(u *ur) { tensorOf(u, r) }})
	}
	us = append(us, &unit{name: "BackPropagate arguments", props: []string{"C09"}, run: func(u *ur) {
		for _, v := range []Val{VNil{}, foreignTensor()} {
			for _, o := range u.call(newState(), u.ex.fn("tensor", "BackPropagate"), []Val{v}) {
				if u.noPanic("C09", "BackPropagate", o) {
					u.obf("C09", "invalid tensor is rejected", isErr(o), "accepted")
				}
			}
		}
	}})
	us = append(us, &unit{name: "Concat arguments", props: []string{"C09"}, run: concatArgs})
	us = append(us, &unit{name: "ResetGradContext", props: []string{"C08", "C11", "C10"}, run: resetGrad})
	us = append(us, &unit{name: "Gradient", props: []string{"C08", "C10"}, run: gradientOf})
	us = append(us, &unit{name: "BackPropagate untracked root", props: []string{"C08", "C10"}, run: untrackedRoot})
	return us
}

func (u *ur) confArg(st *State, kind string) (Val, *Term, *Term) {
	if kind == "nil config" {
		return VNil{}, tTrue, tFalse
	}
	dev, trk := V("device", SInt), V("gradTrack", SBool)
	return u.config(st, "tensor", "Config", map[string]Val{"Device": VT{dev}, "GradTrack": VT{trk}}), Eq(dev, I(1)), trk
}

func (s *conSpec) verify(u *ur, prop string, n int, conf string) {
	st := newState()
	var args []Val
	var dims []*Term
	if s.name == "Eye" {
		k := V("n", SInt)
		dims = []*Term{k, k}
		args = []Val{VT{k}}
	} else {
		var a Val
		a, dims = shapeArg(st, n)
		args = []Val{a}
	}
	for _, t := range s.args {
		args = append(args, VT{t})
	}
	cv, cvalid, trk := u.confArg(st, conf)
	args = append(args, cv)
	valid := And(cvalid, s.valid, validDims(dims))
	since := st.writes
	for _, o := range u.call(st, u.ex.fn("tensor", s.name), args) {
		if !u.noPanic("C09 "+prop, s.name, o) {
			continue
		}
		st := o.st
		u.frame(st, since, nil)
		if isErr(o) {
			u.obf("C09 "+prop, "error only outside the precondition", Prove(st.pc, Not(valid)), "valid arguments are rejected on path %s", st.pc)
			u.obf("C09", "no result with an error", isNilVal(o.vals[0]), "result beside the error on path %s", st.pc)
			continue
		}
		if !u.obf("C09 "+prop, "arguments outside the precondition are rejected", Prove(st.pc, valid), "accepted on path %s", st.pc) {
			continue
		}
		if !u.tensorIs(st, prop+" C09", s.name, o.vals[0], dims, func(st *State, i []*Term) *Term { return s.elem(i, dims) }) {
			continue
		}
		u.noRetention(st, o.vals[0])
		leafIs(u, st, "C08 "+prop, s.name, o.vals[0], trk)
	}
}

// tensorOf: nested data of unknown lengths, possibly ragged or empty.
func tensorOf(u *ur, rank int) {
	st := newState()
	var t types.Type = types.Typ[types.Float64]
	for k := 0; k < rank; k++ {
		t = types.NewSlice(t)
	}
	// the lengths: len0, len1(i), len2(i,j), ...
	length := func(k int, i []*Term) *Term { return mkApp(fmt.Sprintf("len%d", k), SInt, i...) }
	var data Val
	if rank == 0 {
		data = VT{elemVar("x")(nil)}
	} else {
		var fams []*Family
		et := t
		for l := 0; l < rank; l++ {
			et = et.(*types.Slice).Elem()
			f := newFamily(fmt.Sprintf("data%d", l), l, et)
			f.pre, f.owner = true, "arg data"
			fams = append(fams, f)
		}
		for l, f := range fams {
			idx := append(append([]*Term(nil), f.params...), f.j)
			var v Val = VT{elemVar("x")(idx)}
			if l < rank-1 {
				n := length(l+1, idx)
				v = VSlice{&Ref{fams[l+1], idx}, I(0), n, n}
			}
			st.set(f, &Content{n: length(l, f.params), sym: &Layer{val: v}})
		}
		n := length(0, nil)
		st.pc = st.pc.And(Ge(n, I(0)))
		data = VSlice{&Ref{fam: fams[0]}, I(0), n, n}
	}
	cv, cvalid, trk := u.confArg(st, "config")
	fn := u.ex.fn("tensor", fmt.Sprintf("zzVerifTensorOf%d", rank))
	since := st.writes
	// rectangular: every slice at a depth has the length of the first one
	var dims []*Term
	for l := 0; l < rank; l++ {
		z := make([]*Term, l)
		for k := range z {
			z[k] = I(0)
		}
		dims = append(dims, length(l, z))
	}
	for _, o := range u.call(st, fn, []Val{data, cv}) {
		if !u.noPanic("C09 C06", "TensorOf", o) {
			continue
		}
		st := o.st
		u.frame(st, since, nil)
		if isErr(o) {
			u.obf("C09", "no result with an error", isNilVal(o.vals[0]), "result beside the error on path %s", st.pc)
			// with rectangular data no error
			c := st.clone()
			c.pc = c.pc.And(cvalid)
			for l := range dims {
				c.pc = c.pc.And(Ge(dims[l], I(1)))
			}
			rect := rectangular(dims, length)
			u.obf("C09 C06", "error only outside the precondition", Prove(c.pc, Not(rect)) || !feasible(c.pc.And(rect)), "valid data is rejected on path %s", st.pc)
			continue
		}
		ok := Prove(st.pc, And(allPos(dims)...)) && Prove(st.pc, cvalid)
		if !u.obf("C09 C06", "empty data or an invalid device is rejected", ok, "accepted on path %s", st.pc) {
			continue
		}
		rect := rectangular(dims, length)
		u.obf("C09 C06", "ragged data is rejected", Prove(st.pc, rect), "cannot prove %s on path %s", rect, st.pc)
		if !u.tensorIs(st, "C06 C09", "TensorOf", o.vals[0], dims, func(st *State, i []*Term) *Term { return elemVar("x")(i) }) {
			continue
		}
		u.noRetention(st, o.vals[0])
		leafIs(u, st, "C08 C06", "TensorOf", o.vals[0], trk)
	}
}

func rectangular(dims []*Term, length func(k int, i []*Term) *Term) *Term {
	var cs []*Term
	for l := 1; l < len(dims); l++ {
		l := l
		cs = append(cs, nestOver(dims[:l], ForallT, func(i []*Term) *Term { return Eq(length(l, i), dims[l]) }))
	}
	return And(cs...)
}

func concatArgs(u *ur) {
	t := func(st *State) Val { return u.mk(st, tin{name: "x", rank: 1}).val }
	for n, mk := range []func(st *State) Val{
		func(st *State) Val { return VNil{} },
		func(st *State) Val { return u.variadic(st) },
		func(st *State) Val { return u.variadic(st, t(st)) },
		func(st *State) Val { return u.variadic(st, VNil{}) },
		func(st *State) Val { return u.variadic(st, t(st), VNil{}) },
		func(st *State) Val { return u.variadic(st, VNil{}, t(st)) },
		func(st *State) Val { return u.variadic(st, t(st), foreignTensor()) },
		func(st *State) Val { return u.variadic(st, foreignTensor(), t(st)) },
		func(st *State) Val { return u.variadic(st, foreignTensor(), foreignTensor()) },
		func(st *State) Val { return u.variadic(st, t(st), t(st), VNil{}) },
	} {
		st := newState()
		arg := mk(st)
		for _, o := range u.call(st, u.ex.fn("tensor", "Concat"), []Val{arg, VT{V("dim", SInt)}}) {
			if u.noPanic("C09", "Concat", o) {
				u.obf("C09", "invalid tensor list is rejected", isErr(o) && isNilVal(o.vals[0]), "list %d on path %s", n, o.st.pc)
			}
		}
	}
	// two tensors: as the operation's contract says, through the public function
	st := newState()
	x, y := u.mk(st, tin{name: "x", rank: 1}), u.mk(st, tin{name: "y", rank: 1})
	dim := V("dim", SInt)
	for _, o := range u.call(st, u.ex.fn("tensor", "Concat"), []Val{u.variadic(st, x.val, y.val), VT{dim}}) {
		if !u.noPanic("C09", "Concat", o) {
			continue
		}
		if isErr(o) {
			u.obf("C09", "error only outside the precondition", Prove(o.st.pc, Ne(dim, I(0))), "rejected on path %s", o.st.pc)
			continue
		}
		u.tensorIs(o.st, "C09", "Concat", o.vals[0], []*Term{Add(x.dims[0], y.dims[0])}, func(st *State, i []*Term) *Term {
			return Ite(Lt(i[0], x.dims[0]), x.elem(i), y.elem([]*Term{Sub(i[0], x.dims[0])}))
		})
	}
}

// resetGrad: any tensor becomes a fresh leaf; its data stay.
func resetGrad(u *ur) {
	st := newState()
	g := st.mkT(tspec{name: "g", dims: dimVars("d", 1), elem: elemVar("g"), pre: true})
	src := st.mkT(tspec{name: "src", dims: dimVars("d", 1), elem: elemVar("src"), tracked: tTrue, pre: true})
	ev := make([]Val, structOf(lay.edgeT).NumFields())
	ev[lay.etarget] = wrapT(src)
	ev[lay.efn] = VFunc{nat: &Native{name: "rule", call: func(ex *Exec, st *State, _ []Val) []Outcome { unsup("rule called"); return nil }}}
	er := st.newObj("edge", lay.edgeT, true, "t", VStruct{ev})
	es := st.newObj("edges", ptrT(lay.edgeT), true, "t", VPtr{er, I(0), ""})
	t := st.mkT(tspec{name: "t", dims: dimVars("d", 1), elem: elemVar("t"), tracked: V("tracked", SBool), dirty: V("spent", SBool), grad: wrapT(g), edges: VSlice{es, I(0), I(1), I(1)}, pre: true})
	want := V("want", SBool)
	before := st.tensorFields(t)
	gctx0, _ := st.gctxOf(t)
	since := st.writes
	for _, o := range u.call(st, u.ex.method(ptrT(lay.tensorT), "ResetGradContext"), []Val{t, VT{want}}) {
		if !u.noPanic("C08 C09", "ResetGradContext", o) {
			continue
		}
		st := o.st
		gc, ok := st.gctxOf(t)
		u.obf("C08 C11", "reset tensor is a leaf with the requested tracking", ok && ProveEq(st.pc, gc.tracked, want) && Prove(st.pc, Not(gc.dirty)) && isNilVal(gc.grad) && len(gc.edges) == 0,
			"tracked %s spent %s gradient %v edges %d on path %s", gc.tracked, gc.dirty, gc.grad, len(gc.edges), st.pc)
		after := st.tensorFields(t)
		for i := range after {
			if i != lay.tgctx {
				u.obf("C10 C08", "reset leaves shape and elements alone", sameVal(after[i], before[i]), "field %d", i)
			}
		}
		// results computed from it earlier still hold the old context or see a leaf
		_ = gctx0
		u.frame(st, since, func(w *WriteRec) bool { return w.fam == t.ref.fam || w.fam == gctx0.ref.ref.fam })
	}
}

func gradientOf(u *ur) {
	for _, has := range []bool{true, false} {
		st := newState()
		g := st.mkT(tspec{name: "g", dims: dimVars("d", 1), elem: elemVar("g"), pre: true})
		sp := tspec{name: "t", dims: dimVars("d", 1), elem: elemVar("t"), tracked: V("tracked", SBool), dirty: V("spent", SBool), pre: true}
		if has {
			sp.grad = wrapT(g)
		}
		t := st.mkT(sp)
		since := st.writes
		for _, o := range u.call(st, u.ex.method(ptrT(lay.tensorT), "Gradient"), []Val{t}) {
			if !u.noPanic("C08", "Gradient", o) {
				continue
			}
			u.frame(o.st, since, nil)
			p, ok := asPtr(o.vals[0])
			if has {
				u.obf("C08", "the gradient is returned", ok && p.ref == g.ref, "%v", o.vals[0])
			} else {
				u.obf("C08 C09", "no gradient is nil", isNilVal(o.vals[0]), "%v", o.vals[0])
			}
		}
	}
}

// untrackedRoot: back-propagating from an untracked tensor changes nothing.
func untrackedRoot(u *ur) {
	for r := 0; r <= 3; r++ {
		st := newState()
		t := st.mkT(tspec{name: "t", dims: dimVars("d", r), elem: elemVar("t"), tracked: tFalse, dirty: V("spent", SBool), pre: true})
		since := st.writes
		for _, o := range u.call(st, u.ex.fn("tensor", "BackPropagate"), []Val{wrapT(t)}) {
			if !u.noPanic("C08 C09", "BackPropagate", o) {
				continue
			}
			u.obf("C08", "back-propagation from an untracked root succeeds", !isErr(o), "error")
			u.frame(o.st, since, nil)
			n := 0
			for w := o.st.writes; w != nil && w != since; w = w.prev {
				if w.fam.pre {
					n++
				}
			}
			u.obf("C08", "back-propagation from an untracked root changes nothing", n == 0, "%d writes", n)
		}
	}
}

/* ---------- metric ---------- */

func accuracyUnits(ex *Exec) []*unit {
	var us []*unit
	props := []string{"C19", "C09", "C10"}
	for n := 0; n <= 3; n++ {
		n := n
		us = append(us, &unit{name: fmt.Sprintf("accuracy after %d calls", n), props: props, run: func(u *ur) { accuracySeq(u, n) }})
	}
	us = append(us, &unit{name: "accuracy step", props: props, run: accuracyStep})
	for rp := 0; rp <= 3; rp++ {
		for rt := 0; rt <= 3; rt++ {
			rp, rt := rp, rt
			us = append(us, &unit{name: fmt.Sprintf("accuracy inputs [%d %d]", rp, rt), props: props, run: func(u *ur) { accuracyInputs(u, tin{rank: rp}, tin{rank: rt}) }})
		}
	}
	us = append(us, &unit{name: "accuracy nil inputs", props: props, run: func(u *ur) {
		accuracyInputs(u, tin{nilv: true}, tin{rank: 1})
		accuracyInputs(u, tin{rank: 1}, tin{nilv: true})
		accuracyInputs(u, tin{nilv: true}, tin{nilv: true})
	}})
	return us
}

func matches(n *Term, p, t func([]*Term) *Term) *Term {
	return SumT(n, func(i *Term) *Term {
		x := []*Term{i}
		return Ite(Le(AbsT(Sub(p(x), t(x))), eqTau), R(1), R(0))
	})
}

func (u *ur) accResult(st *State, c Val, total, correct *Term) {
	since := st.writes
	for _, o := range u.call(st, u.method(metricPkg, "Accuracy", "Result"), []Val{c}) {
		if !u.noPanic("C09 C19", "Result", o) {
			continue
		}
		u.frame(o.st, since, nil)
		if !u.obf("C19 C09", "Result succeeds", !isErr(o), "error on path %s", o.st.pc) {
			continue
		}
		want := R(0)
		if !Prove(o.st.pc, Eq(total, I(0))) {
			if !u.obf("C19", "case of no data is separate", Prove(o.st.pc, Gt(total, I(0))), "on path %s", o.st.pc) {
				continue
			}
			want = Div(correct, ToReal(total))
		}
		u.obf("C19", "Result is matched over total", ProveEq(o.st.pc, term(o.vals[0]), want), "result %s, expected %s, on path %s", term(o.vals[0]), want, o.st.pc)
	}
}

// accuracySeq: n calls from a new metric.
func accuracySeq(u *ur, n int) {
	st := newState()
	total, correct := I(0), R(0)
	u.made(st, metricPkg, "NewAccuracy", nil, func(st *State, c Val) {
		sts := []*State{st}
		for k := 0; k < n; k++ {
			d := V(fmt.Sprintf("n%d", k), SInt)
			var next []*State
			for _, st := range sts {
				st = st.clone()
				p := u.mk(st, tin{name: fmt.Sprintf("p%d", k), rank: 1, dims: []*Term{d}})
				t := u.mk(st, tin{name: fmt.Sprintf("t%d", k), rank: 1, dims: []*Term{d}})
				for _, o := range u.call(st, u.method(metricPkg, "Accuracy", "Accumulate"), []Val{c, p.val, t.val}) {
					if u.noPanic("C09 C19", "Accumulate", o) && u.obf("C19 C09", "valid batch is accepted", !isErr(o), "error on path %s", o.st.pc) {
						next = append(next, o.st)
					}
				}
			}
			total = Add(total, d)
			correct = Add(correct, matches(d, elemVar(fmt.Sprintf("p%d", k)), elemVar(fmt.Sprintf("t%d", k))))
			sts = next
		}
		u.obf("C19", "calls return", len(sts) > 0, "no outcome")
		for _, st := range sts {
			u.accResult(st, c, total, correct)
		}
	})
}

// accuracyInputs: a rejected call changes nothing; acceptance is by shape.
func accuracyInputs(u *ur, pi, ti tin) {
	st := newState()
	pi.name, ti.name = "p", "t"
	u.made(st, metricPkg, "NewAccuracy", nil, func(st *State, c Val) {
		p, t := u.mk(st, pi), u.mk(st, ti)
		valid := tFalse
		if !pi.nilv && !ti.nilv && pi.rank == 1 && ti.rank == 1 {
			valid = Eq(p.dims[0], t.dims[0])
		}
		cp := c.(VPtr)
		before := st.load(cp)
		since := st.writes
		for _, o := range u.call(st, u.method(metricPkg, "Accuracy", "Accumulate"), []Val{c, p.val, t.val}) {
			if !u.noPanic("C09 C19", "Accumulate", o) {
				continue
			}
			u.frame(o.st, since, func(w *WriteRec) bool { return w.fam == cp.ref.fam })
			if isErr(o) {
				u.obf("C09 C19", "error only outside the precondition", Prove(o.st.pc, Not(valid)), "valid batch is rejected on path %s", o.st.pc)
				u.obf("C19", "rejected batch leaves the counts unchanged", sameVal(before, o.st.load(cp)), "changed on path %s", o.st.pc)
				continue
			}
			u.obf("C09 C19", "invalid batch is rejected", Prove(o.st.pc, valid), "accepted on path %s", o.st.pc)
		}
	})
}

// accuracyStep: from any state that stands for (total, correct), one more call
// stands for the sums. The representation is read off the code: the cells of the
// metric after one call from a new metric must be an affine image of the counts.
func accuracyStep(u *ur) {
	t := u.ex.typ(metricPkg, "Accuracy")
	s := structOf(t)
	n, m := V("total", SInt), V("correct", SInt)
	ft, fc := -1, -1
	st := newState()
	p0, t0 := u.mk(st, tin{name: "p", rank: 1, dims: []*Term{V("n0", SInt)}}), u.mk(st, tin{name: "t", rank: 1, dims: []*Term{V("n0", SInt)}})
	u.made(st, metricPkg, "NewAccuracy", nil, func(st *State, c Val) {
		for _, o := range u.call(st, u.method(metricPkg, "Accuracy", "Accumulate"), []Val{c, p0.val, t0.val}) {
			if o.panic != "" || isErr(o) {
				continue
			}
			for i, f := range o.st.load(c.(VPtr)).(VStruct).f {
				v, ok := f.(VT)
				if !ok {
					continue
				}
				if ProveEq(o.st.pc, ToRealIf(v.t), ToReal(V("n0", SInt))) {
					ft = i
				} else if ProveEq(o.st.pc, ToRealIf(v.t), matches(V("n0", SInt), p0.elem, t0.elem)) {
					fc = i
				}
			}
		}
	})
	if ft < 0 || fc < 0 || s.NumFields() != 2 {
		// another representation: the bounded sequences stand in for the step
		u.ob("C19", "representation of the counts is recognised (otherwise sequences of up to 3 calls are checked)", true, "")
		return
	}
	st = newState()
	st.pc = st.pc.And(Ge(m, I(0))).And(Le(m, n))
	f := make([]Val, 2)
	conv := func(i int, x *Term) Val {
		if so, _ := sortOf(s.Field(i).Type()); so == SReal {
			return VT{ToReal(x)}
		}
		return VT{x}
	}
	f[ft], f[fc] = conv(ft, n), conv(fc, m)
	c := VPtr{st.newObj("accuracy", t, true, "metric", VStruct{f}), I(0), ""}
	u.accResult(st.clone(), c, n, ToReal(m))
	d := V("n1", SInt)
	p1, t1 := u.mk(st, tin{name: "p", rank: 1, dims: []*Term{d}}), u.mk(st, tin{name: "t", rank: 1, dims: []*Term{d}})
	count := matches(d, p1.elem, t1.elem)
	for _, o := range u.call(st, u.method(metricPkg, "Accuracy", "Accumulate"), []Val{c, p1.val, t1.val}) {
		if !u.noPanic("C19", "Accumulate", o) || !u.obf("C19", "valid batch is accepted", !isErr(o), "error on path %s", o.st.pc) {
			continue
		}
		g := o.st.load(c).(VStruct).f
		u.obf("C19", "invariant: total grows by the batch size", ProveEq(o.st.pc, ToRealIf(term(g[ft])), ToReal(Add(n, d))), "%s on path %s", term(g[ft]), o.st.pc)
		u.obf("C19", "invariant: correct grows by the matches", ProveEq(o.st.pc, ToRealIf(term(g[fc])), Add(ToReal(m), count)), "%s on path %s", term(g[fc]), o.st.pc)
	}
}

// ToRealIf converts integers to reals and leaves reals.
func ToRealIf(t *Term) *Term {
	if t.sort == SInt {
		return ToReal(t)
	}
	return t
}
