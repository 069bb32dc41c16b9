package main

// Contracts of the components: losses, activations, layers, optimizer,
// initializers, metric, and of the public constructors. Their bodies run with
// the operations replaced by the contracts proved in units.go.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func moreUnits(ex *Exec) []*unit {
	var us []*unit
	us = append(us, lossUnits(ex)...)
	us = append(us, actUnits(ex)...)
	us = append(us, layerUnits(ex)...)
	us = append(us, sgdUnits(ex)...)
	us = append(us, initUnits(ex)...)
	us = append(us, constructorUnits(ex)...)
	us = append(us, accuracyUnits(ex)...)
	us = append(us, graphUnits(ex)...)
	us = append(us, stepUnits(ex)...)
	return us
}

/* ---------- helpers ---------- */

// comp is a component object: its type and how it is made.
func (u *ur) method(pkg, typ, name string) *ssa.Function {
	return u.ex.method(ptrT(u.ex.typ(pkg, typ)), name)
}

// tin describes a symbolic input tensor.
type tin struct {
	name    string
	rank    int
	dims    []*Term
	elem    func([]*Term) *Term
	tracked *Term
	dirty   *Term
	grad    Val
	chain   bool // result of an earlier tracked operation
	nilv    bool
	foreign bool
}

// tv is an input as built: the tensor and, when chained, its source.
type tv struct {
	tin
	val Val
	p   VPtr
	src VPtr
	// chained: the gradient the tensor held when its edge was followed
	calls *int
}

// mk builds the input. A chained input has one edge to a tracked source of the
// same shape, whose rule multiplies by an unknown factor c(i).
func (u *ur) mk(st *State, t tin) *tv {
	v := &tv{tin: t}
	if t.nilv {
		v.val = VNil{}
		return v
	}
	if t.foreign {
		v.val = foreignTensor()
		return v
	}
	if v.dims == nil {
		v.dims = dimVars(t.name+"d", t.rank)
	}
	if v.elem == nil {
		v.elem = elemVar(t.name)
	}
	sp := tspec{name: t.name, dims: v.dims, elem: v.elem, tracked: t.tracked, dirty: t.dirty, grad: t.grad, pre: true, owner: "input " + t.name}
	if t.chain {
		sp.tracked = tTrue
		v.src = st.mkT(tspec{name: t.name + ".src", dims: v.dims, elem: elemVar(t.name + "src"), tracked: tTrue, pre: true, owner: "source of " + t.name})
		var self VPtr
		n := 0
		v.calls = &n
		ev := make([]Val, structOf(lay.edgeT).NumFields())
		ev[lay.etarget] = wrapT(v.src)
		dims := v.dims
		ev[lay.efn] = VFunc{nat: &Native{name: t.name + ".chain", call: func(ex *Exec, st *State, _ []Val) []Outcome {
			return forkOutcomes(st, func(st *State) []Outcome {
				g, _ := st.gctxOf(self)
				w := st.operand(g.grad)
				if w.bad {
					return []Outcome{{st: st, panic: "gradient of a chained input is not set when its edge is followed"}}
				}
				c := elemVar(t.name + "c")
				r := st.mkT(tspec{name: t.name + ".g", dims: dims, elem: func(i []*Term) *Term { return Mul(c(i), w.elem(i)) }})
				return one(st, wrapT(r), VNil{})
			})
		}}}
		er := st.newObj(t.name+".edge", lay.edgeT, true, "input "+t.name, VStruct{ev})
		es := st.newObj(t.name+".edges", ptrT(lay.edgeT), true, "input "+t.name, VPtr{er, I(0), ""})
		sp.edges = VSlice{es, I(0), I(1), I(1)}
		v.p = st.mkT(sp)
		self = v.p
	} else {
		v.p = st.mkT(sp)
	}
	v.val = wrapT(v.p)
	return v
}

// onlyGctx allows writes to gradient contexts.
func onlyGctx(w *WriteRec) bool { return typesIdentical(w.fam.elem, lay.gctxT) }

// noPanic records the outcome of a call; it reports whether to go on.
func (u *ur) noPanic(props, what string, o Outcome) bool {
	if o.panic != "" {
		return u.ob(props, what+" does not panic", false, fmt.Sprintf("%s at %s, on path %s", o.panic, o.pos, o.st.pc))
	}
	return u.ob(props, what+" does not panic", true, "")
}

// defs reports definedness obligations to props.
func (u *ur) defs(props, what string) func() {
	u.ex.onDef = func(st *State, op string, c *Term) {
		u.obf(props, what, u.proveDef(st.pc, c), "%s: cannot prove %s on path %s", op, c, st.pc)
	}
	return func() { u.ex.onDef = nil }
}

// backProp back-propagates from r, weighted by w when it is not nil, and runs f
// on every successful outcome.
func (u *ur) backProp(st *State, props string, r VPtr, dims []*Term, w func([]*Term) *Term, f func(st *State)) {
	root := r
	if w != nil {
		root = st.consumer(r, dims, w)
	}
	defer u.defs(props, "gradients are finite: operations are defined where used")()
	since := st.writes
	outs := u.call(st, u.ex.fn("tensor", "BackPropagate"), []Val{wrapT(root)})
	if len(outs) == 0 {
		u.ob(props, "no reachable outcome of back-propagation", false, "")
	}
	for _, o := range outs {
		if !u.noPanic(props+" C09", "back-propagation", o) {
			continue
		}
		if !u.obf(props+" C02", "back-propagation succeeds", isNilVal(o.vals[0]), "error on path %s", o.st.pc) {
			continue
		}
		u.frame(o.st, since, onlyGctx)
		u.each(o.st, f)
	}
}

// gradient of an input: shape and elements.
func (u *ur) gradOf(st *State, props, what string, p VPtr, dims []*Term, want func(st *State, i []*Term) *Term) {
	g, ok := st.gctxOf(p)
	if !u.obf(props, what+": context", ok, "no context on path %s", st.pc) {
		return
	}
	gp, ok := asPtr(g.grad)
	if !u.obf(props, what+" is set", ok, "none on path %s", st.pc) {
		return
	}
	u.obf("C08", "tensor is spent after back-propagation", Prove(st.pc, g.dirty), "%s on path %s", what, st.pc)
	if !u.tensorShape(st, props, what, gp, dims) {
		return
	}
	if want != nil {
		u.tensorElems(st, props, what, gp, dims, want)
	}
}

// inputGrad checks the gradient of an input and of its source.
func (u *ur) inputGrad(st *State, props, what string, v *tv, want func(st *State, i []*Term) *Term) {
	if v.p.ref == nil {
		return
	}
	g, _ := st.gctxOf(v.p)
	if !v.chain && !st.must(v.trk()) {
		u.obf(props+" C08", what+": untracked input receives none", isNilVal(g.grad), "it has one on path %s", st.pc)
		return
	}
	u.gradOf(st, props, what, v.p, v.dims, want)
	if v.chain {
		c := elemVar(v.name + "c")
		u.gradOf(st, props, what+" (passed on to its source)", v.src, v.dims, func(st *State, i []*Term) *Term {
			st.got = splitFactor(st, v, i)
			x := want(st, i)
			if x == nil {
				return nil
			}
			return Mul(c(i), x)
		})
	}
}

// splitFactor: the element under check is c(i) times the gradient of v.
func splitFactor(st *State, v *tv, i []*Term) *Term {
	g, _ := st.gctxOf(v.p)
	return st.operand(g.grad).elem(i)
}

func (v *tv) trk() *Term {
	if v.tracked == nil {
		return tFalse
	}
	return v.tracked
}

func (v *tv) dty() *Term {
	if v.dirty == nil {
		return tFalse
	}
	return v.dirty
}

// resultFlags: the result is tracked and spent as the operations promise.
func (u *ur) resultFlags(st *State, what string, r VPtr, ins ...*tv) {
	g, ok := st.gctxOf(r)
	if !u.obf("C08", what+" has a gradient context", ok, "none on path %s", st.pc) {
		return
	}
	var ds, ts []*Term
	for _, v := range ins {
		ds = append(ds, v.dty())
		if v.chain {
			ts = append(ts, tTrue)
		}
		ts = append(ts, v.trk())
	}
	dirty := Or(ds...)
	tracked := And(Not(dirty), Or(ts...))
	u.obf("C08", what+" is tracked exactly when it must be", ProveEq(st.pc, g.tracked, tracked), "tracked is %s, expected %s, on path %s", g.tracked, tracked, st.pc)
	u.obf("C08", what+" of a spent tensor is spent", ProveEq(st.pc, g.dirty, dirty), "spent is %s, expected %s, on path %s", g.dirty, dirty, st.pc)
	u.obf("C08", what+" starts without a gradient", isNilVal(g.grad), "it has one")
}

// made runs a constructor and hands over its single result.
func (u *ur) made(st *State, pkg, name string, args []Val, f func(st *State, v Val)) {
	for _, o := range u.call(st, u.ex.fn(pkg, name), args) {
		if !u.noPanic("C09", name, o) {
			continue
		}
		if len(o.vals) == 2 && !u.obf("C09", name+" accepts valid configuration", !isErr(o), "error on path %s", o.st.pc) {
			continue
		}
		f(o.st, o.vals[0])
	}
}

// untouched: the call wrote nothing that the component (as it was before) holds.
// Every call then meets the component as its constructor left it, whatever came
// before. Otherwise the contract is checked again after one and two more calls
// (bounded).
func (u *ur) untouched(before, after *State, since *WriteRec, c Val) bool {
	own := before.reach(c)
	for w := after.writes; w != nil && w != since; w = w.prev {
		if own[w.fam] {
			return false
		}
	}
	return true
}

/* ---------- components with a state ---------- */

const maxCalls = 3

/* ---------- losses ---------- */

const lossPkg = "component/losses"

var lossEps = RF(1e-12)

func clipT(x, lo, hi *Term) *Term { return MaxT(lo, MinT(x, hi)) }

type lossSpec struct {
	name string
	rank int
	prop string
	// part is the contribution of one position, times the batch size
	part func(p, t *Term) *Term
	// derivative at i where the prediction is inside
	grad func(dims []*Term, p, t *Term) *Term
	clip bool
}

func lossSpecs() []*lossSpec {
	one := R(1)
	log := func(x *Term) *Term { return fn1("log", x) }
	return []*lossSpec{
		{name: "MSE", rank: 1,
			part: func(p, t *Term) *Term { return PowN(Sub(t, p), 2) },
			grad: func(d []*Term, p, t *Term) *Term { return Div(Mul(R(2), Sub(p, t)), ToReal(d[0])) }},
		{name: "BCE", rank: 1, clip: true,
			part: func(p, t *Term) *Term { return Neg(Add(Mul(t, log(p)), Mul(Sub(one, t), log(Sub(one, p))))) },
			grad: func(d []*Term, p, t *Term) *Term {
				return Div(Sub(Div(Sub(one, t), Sub(one, p)), Div(t, p)), ToReal(d[0]))
			}},
		{name: "CE", rank: 2, clip: true,
			part: func(p, t *Term) *Term { return Neg(Mul(t, log(p))) },
			grad: func(d []*Term, p, t *Term) *Term { return Neg(Div(Div(t, p), ToReal(d[0]))) }},
	}
}

// value: the sum of the parts over all positions divided by the batch size.
func (s *lossSpec) value(dims []*Term, p, t func([]*Term) *Term) *Term {
	sum := nestOver(dims, SumT, func(i []*Term) *Term { return s.part(p(i), t(i)) })
	return Div(sum, ToReal(dims[0]))
}

func (s *lossSpec) p(x func([]*Term) *Term) func([]*Term) *Term {
	if !s.clip {
		return x
	}
	return func(i []*Term) *Term { return clipT(x(i), lossEps, Sub(R(1), lossEps)) }
}

func (s *lossSpec) t(x func([]*Term) *Term) func([]*Term) *Term {
	if !s.clip {
		return x
	}
	return func(i []*Term) *Term { return clipT(x(i), R(0), R(1)) }
}

func lossUnits(ex *Exec) []*unit {
	var us []*unit
	for _, s := range lossSpecs() {
		s := s
		for rp := 0; rp <= 3; rp++ {
			for rt := 0; rt <= 3; rt++ {
				rp, rt := rp, rt
				us = append(us, &unit{name: fmt.Sprintf("loss %s [%d %d]", s.name, rp, rt), props: []string{"C12", "C09", "C10", "C20"},
					run: func(u *ur) { s.forward(u, tin{rank: rp}, tin{rank: rt}) }})
			}
		}
		us = append(us, &unit{name: "loss " + s.name + " flags", props: []string{"C12", "C08", "C09", "C10", "C20"}, run: func(u *ur) {
			s.forward(u, tin{rank: s.rank, tracked: V("tracked0", SBool), dirty: V("spent0", SBool)}, tin{rank: s.rank, tracked: V("tracked1", SBool), dirty: V("spent1", SBool)})
		}})
		for k := 0; k < 3; k++ {
			k := k
			us = append(us, &unit{name: fmt.Sprintf("loss %s nil %d", s.name, k), props: []string{"C12", "C09"}, run: func(u *ur) {
				s.forward(u, tin{rank: s.rank, nilv: k != 1}, tin{rank: s.rank, nilv: k != 0})
			}})
		}
		for _, c := range []struct {
			n    string
			p, t tin
		}{
			{"leaf prediction", tin{tracked: tTrue}, tin{}},
			{"chained prediction", tin{chain: true}, tin{}},
			{"tracked target", tin{}, tin{tracked: tTrue}},
			{"both tracked", tin{chain: true}, tin{tracked: tTrue}},
		} {
			c := c
			for _, w := range []bool{false, true} {
				w := w
				name := fmt.Sprintf("loss %s backward %s", s.name, c.n)
				if w {
					name += " weighted"
				}
				us = append(us, &unit{name: name, props: []string{"C13", "C02", "C10", "C08"}, run: func(u *ur) { s.backward(u, c.p, c.t, w) }})
			}
		}
	}
	return us
}

func (s *lossSpec) forward(u *ur, pi, ti tin) {
	st := newState()
	pi.name, ti.name = "p", "t"
	p, t := u.mk(st, pi), u.mk(st, ti)
	u.made(st, lossPkg, "New"+s.name, nil, func(st *State, c Val) { s.compute(u, st, c, p, t, 1, nil) })
}

// compute checks one call, the n-th; earlier checks the result of the one before.
func (s *lossSpec) compute(u *ur, st *State, c Val, p, t *tv, n int, earlier func(st *State)) {
	restore := u.defs("C12", "loss is finite: operations are defined where used")
	before, since := st.clone(), st.writes
	outs := u.call(st, u.method(lossPkg, s.name, "Compute"), []Val{c, p.val, t.val})
	restore()
	for _, o := range outs {
		if !u.noPanic("C09 C12", "Compute", o) {
			continue
		}
		st, pc := o.st, o.st.pc
		u.frame(st, since, nil)
		valid := tTrue
		if p.nilv || t.nilv || p.foreign || t.foreign || p.rank != s.rank || t.rank != s.rank {
			valid = tFalse
		} else {
			valid = And(sameDims(p.dims, t.dims)...)
		}
		if isErr(o) {
			u.obf("C09 C12", "error only outside the precondition", Prove(pc, Not(valid)), "valid inputs are rejected on path %s", pc)
			u.obf("C09", "no result with an error", isNilVal(o.vals[0]), "result beside the error on path %s", pc)
			continue
		}
		if !u.obf("C09 C12", "inputs outside the precondition are rejected", Prove(pc, valid), "accepted on path %s", pc) {
			continue
		}
		want := s.value(p.dims, s.p(p.elem), s.t(t.elem))
		is := func(st *State) bool {
			return u.tensorIs(st, "C12 C09 C10", "loss", o.vals[0], nil, func(st *State, _ []*Term) *Term { return want })
		}
		if !is(st) {
			continue
		}
		if earlier != nil {
			earlier(st)
		}
		u.noRetention(st, o.vals[0])
		r, _ := asPtr(o.vals[0])
		u.each(st, func(st *State) {
			// a sum of non-negative parts over a positive batch size
			i := dimVars("at", s.rank)
			q := s.part(s.p(p.elem)(i), s.t(t.elem)(i))
			u.obf("C12", "loss is not negative", Prove(st.pc, Ge(q, R(0))) && Prove(st.pc, Ge(p.dims[0], I(1))), "cannot prove that %s is not negative on path %s", q, st.pc)
			u.resultFlags(st, "loss", r, p, t)
		})
		if n < maxCalls && !u.untouched(before, st, since, c) {
			s.compute(u, st.clone(), c, p, t, n+1, func(st *State) { is(st) })
			st := st.clone()
			q := u.mk(st, tin{name: fmt.Sprintf("p'%d", n), rank: p.rank, tracked: p.tracked, dirty: p.dirty})
			v := u.mk(st, tin{name: fmt.Sprintf("t'%d", n), rank: t.rank, dims: q.dims, tracked: t.tracked, dirty: t.dirty})
			s.compute(u, st, c, q, v, n+1, func(st *State) { is(st) })
		}
	}
}

func (s *lossSpec) backward(u *ur, pi, ti tin, weighted bool) {
	st := newState()
	pi.name, ti.name = "p", "t"
	pi.rank, ti.rank = s.rank, s.rank
	dims := dimVars("d", s.rank)
	pi.dims, ti.dims = dims, dims
	p, t := u.mk(st, pi), u.mk(st, ti)
	w := R(1)
	var wf func([]*Term) *Term
	if weighted {
		wf = elemVar("w")
		w = wf(nil)
	}
	var run func(st *State, c Val, n int)
	run = func(st *State, c Val, n int) {
		before, since := st.clone(), st.writes
		for _, o := range u.call(st, u.method(lossPkg, s.name, "Compute"), []Val{c, p.val, t.val}) {
			if !u.noPanic("C13 C12", "Compute", o) || !u.obf("C13 C12", "valid inputs are accepted", !isErr(o), "error on path %s", o.st.pc) {
				continue
			}
			if n < maxCalls && !u.untouched(before, o.st, since, c) {
				// the same after an earlier call, and after back-propagation from other inputs
				run(o.st.clone(), c, n+1)
				if n == 1 {
					s.detour(u, o.st.clone(), c, p, t, func(st *State) { run(st, c, maxCalls) })
				}
			}
			r, _ := asPtr(o.vals[0])
			u.backProp(o.st.clone(), "C13", r, nil, wf, func(st *State) {
				u.inputGrad(st, "C13", "prediction gradient", p, func(st *State, i []*Term) *Term {
					a, b := p.elem(i), t.elem(i)
					if !s.clip {
						return Mul(w, s.grad(dims, a, b))
					}
					lo, hi := lossEps, Sub(R(1), lossEps)
					if st.must(Gt(a, Add(lo, eqTau))) && st.must(Lt(a, Sub(hi, eqTau))) {
						return Mul(w, s.grad(dims, a, s.t(t.elem)(i)))
					}
					if st.must(Lt(a, Sub(lo, eqTau))) || st.must(Gt(a, Add(hi, eqTau))) {
						return R(0)
					}
					return nil // at the boundary: between the two
				})
				g, _ := st.gctxOf(t.p)
				u.obf("C13 C08", "target receives a gradient exactly when it is tracked", isNilVal(g.grad) == !st.must(t.trk()), "on path %s", st.pc)
			})
		}
	}
	u.made(st, lossPkg, "New"+s.name, nil, func(st *State, c Val) { run(st, c, 1) })
}

// detour computes the loss of other inputs and back-propagates from it.
func (s *lossSpec) detour(u *ur, st *State, c Val, p, t *tv, f func(st *State)) {
	q := u.mk(st, tin{name: "p'", rank: s.rank, tracked: tTrue})
	v := u.mk(st, tin{name: "t'", rank: s.rank, dims: q.dims})
	for _, o := range u.call(st, u.method(lossPkg, s.name, "Compute"), []Val{c, q.val, v.val}) {
		if o.panic == "" && !isErr(o) {
			r, _ := asPtr(o.vals[0])
			u.backProp(o.st.clone(), "C13", r, nil, nil, func(st *State) { f(st.clone()) })
		}
	}
}
