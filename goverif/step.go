package main

// One step of a training loop: forward pass through FC, an activation and a
// loss, back-propagation, the optimizer's update of both parameters and
// ResetGradContext(true). The step is verified from an arbitrary state of the
// kind it leaves behind, so it covers every number of steps.

import "fmt"

func stepUnits(ex *Exec) []*unit {
	var us []*unit
	props := []string{"C11", "C01", "C16", "C17"}
	acts := append([]*actSpec{nil}, actSpecs()...)
	for _, l := range lossSpecs() {
		l := l
		for _, a := range acts {
			a := a
			confs := []string{""}
			if a != nil && a.conf != nil {
				confs = a.conf
			}
			for _, c := range confs {
				c := c
				if c == "nil" && a.dim || c == "m" && l.clip {
					continue
				}
				us = append(us, &unit{name: stepName(a, c, l), props: props, run: func(u *ur) { trainStep(u, a, c, l, a != nil && l.clip && smoothRules[a.name] != nil) }})
			}
		}
	}
	return us
}

func stepName(a *actSpec, c string, l *lossSpec) string {
	n := "identity"
	if a != nil {
		n = a.name + " " + c
	}
	return fmt.Sprintf("training step FC, %s, %s", n, l.name)
}

// tieFactor finds what share of the gradient an activation passes on where it is
// not differentiable: any share between the two sides is as good.
func (s *actSpec) tieFactor(u *ur, conf string) func(m *Term) *Term {
	if s.name != "Relu" && s.name != "LeakyRelu" {
		return nil
	}
	var k *Term
	st := newState()
	x := u.mk(st, tin{name: "x", rank: 0, tracked: tTrue, elem: func([]*Term) *Term { return R(0) }})
	s.new(u, st, conf, func(st *State, c Val, m, dim *Term) {
		for _, o := range s.call(u, st, c, x.val) {
			if isErr(o) || o.panic != "" {
				continue
			}
			r, _ := asPtr(o.vals[0])
			u.backProp(o.st.clone(), "C15", r, nil, nil, func(st *State) {
				g, _ := st.gctxOf(x.p)
				if w := st.operand(g.grad); !w.bad {
					k = w.elem(nil)
				}
			})
		}
	})
	if k == nil {
		return nil
	}
	mv := V("m", SReal)
	return func(m *Term) *Term { return subst1(k, mv, m) }
}

func (s *lossSpec) tieFactors(u *ur) [2]*Term {
	var f [2]*Term
	if !s.clip {
		return f
	}
	for k, at := range []*Term{lossEps, Sub(R(1), lossEps)} {
		f[k] = Div(R(1), R(2))
		st := newState()
		dims := make([]*Term, s.rank)
		for i := range dims {
			dims[i] = I(1)
		}
		p := u.mk(st, tin{name: "p", rank: s.rank, dims: dims, tracked: tTrue, elem: func([]*Term) *Term { return at }})
		t := u.mk(st, tin{name: "t", rank: s.rank, dims: dims})
		u.made(st, lossPkg, "New"+s.name, nil, func(st *State, c Val) {
			for _, o := range u.call(st, u.method(lossPkg, s.name, "Compute"), []Val{c, p.val, t.val}) {
				if isErr(o) || o.panic != "" {
					continue
				}
				r, _ := asPtr(o.vals[0])
				u.backProp(o.st.clone(), "C13", r, nil, nil, func(st *State) {
					g, _ := st.gctxOf(p.p)
					w := st.operand(g.grad)
					if w.bad {
						return
					}
					z := make([]*Term, s.rank)
					for i := range z {
						z[i] = I(0)
					}
					want := s.grad(dims, at, s.t(t.elem)(z))
					for _, c := range []*Term{Div(R(1), R(2)), R(1), R(0)} {
						if ProveEq(st.pc, w.elem(z), Mul(c, want)) {
							f[k] = c
							break
						}
					}
				})
			}
		})
	}
	return f
}

// smoothRules give the derivative of an activation in terms of its own values y.
var smoothRules = map[string]func(d []*Term, dim int, y, w func([]*Term) *Term, i []*Term) *Term{
	"Sigmoid": func(_ []*Term, _ int, y, w func([]*Term) *Term, i []*Term) *Term {
		return MulN(w(i), y(i), Sub(R(1), y(i)))
	},
	"Tanh": func(_ []*Term, _ int, y, w func([]*Term) *Term, i []*Term) *Term {
		return Mul(w(i), Sub(R(1), PowN(y(i), 2)))
	},
	"Softmax": func(d []*Term, dim int, y, w func([]*Term) *Term, i []*Term) *Term {
		s := SumT(d[dim], func(k *Term) *Term { j := setAt(i, dim, k); return Mul(y(j), w(j)) })
		return Mul(y(i), Sub(w(i), s))
	},
}

// asContract is the result of the activation by its contract, which the units of
// the activation establish: some values y, and the rule above. That the values are
// those of the activation is checked where the step is run on its body.
func (s *actSpec) asContract(st *State, x Val, dim int) []Outcome {
	xp, _ := asPtr(x)
	dims := st.dimsOf(xp)
	y := elemVar("y")
	var self VPtr
	ev := make([]Val, structOf(lay.edgeT).NumFields())
	ev[lay.etarget] = x
	ev[lay.efn] = VFunc{nat: &Native{name: s.name, call: func(ex *Exec, st *State, _ []Val) []Outcome {
		return forkOutcomes(st, func(st *State) []Outcome {
			g, _ := st.gctxOf(self)
			w := st.operand(g.grad)
			if w.bad {
				return []Outcome{{st: st, panic: "gradient of the activation is not set when its rule is applied"}}
			}
			r := st.mkT(tspec{name: "dact", dims: dims, elem: func(i []*Term) *Term { return smoothRules[s.name](dims, dim, y, w.elem, i) }})
			return one(st, wrapT(r), VNil{})
		})
	}}}
	st = st.clone()
	er := st.newObj("act.edge", lay.edgeT, false, "", VStruct{ev})
	es := st.newObj("act.edges", ptrT(lay.edgeT), false, "", VPtr{er, I(0), ""})
	g, _ := st.gctxOf(xp)
	self = st.mkT(tspec{name: "act", dims: dims, elem: y, tracked: g.tracked, dirty: g.dirty, edges: VSlice{es, I(0), I(1), I(1)}})
	return one(st, wrapT(self), VNil{})
}

func trainStep(u *ur, a *actSpec, conf string, l *lossSpec, modular bool) {
	var tie func(m *Term) *Term
	if a != nil {
		tie = a.tieFactor(u, conf)
	}
	ends := l.tieFactors(u)
	st := newState()
	batch, feats, outs := V("batch", SInt), V("feats", SInt), V("outs", SInt)
	if l.rank == 1 {
		outs = I(1)
	}
	w := u.mk(st, tin{name: "W", rank: 1, dims: []*Term{outs}, tracked: tTrue})
	b := u.mk(st, tin{name: "B", rank: 1, dims: []*Term{outs}, tracked: tTrue})
	x := u.mk(st, tin{name: "x", rank: 2, dims: []*Term{batch, feats}})
	td := []*Term{batch, outs}[:l.rank]
	t := u.mk(st, tin{name: "t", rank: l.rank, dims: td})
	fc := fcObj(u, st, w.val, b.val)
	lr := V("lr", SReal)
	cv := u.config(st, optPkg, "SGDConfig", map[string]Val{"LearningRate": VT{lr}})
	ptensor := ptrT(lay.tensorT)

	// the components, made once
	u.made(st, lossPkg, "New"+l.name, nil, func(st *State, loss Val) {
		u.made(st, optPkg, "NewSGD", []Val{cv}, func(st *State, opt Val) {
			withAct := func(st *State, act Val, m, dim *Term) {
				k := 1
				if a != nil && a.dim {
					st = st.clone()
					st.pc = st.pc.And(Eq(dim, I(int64(k))))
				}
				forward := func(st *State, f func(st *State, l VPtr)) {
					for _, o := range u.call(st, u.method(layerPkg, "FC", "Forward"), []Val{fc, u.variadic(st, x.val)}) {
						if !u.stepOK(o, "FC Forward") {
							continue
						}
						next := func(st *State, y Val) {
							finish := func(st *State, p Val) {
								for _, o := range u.call(st, u.method(lossPkg, l.name, "Compute"), []Val{loss, p, t.val}) {
									if u.stepOK(o, "loss") {
										r, _ := asPtr(o.vals[0])
										f(o.st, r)
									}
								}
							}
							if l.rank == 2 {
								finish(st, y)
								return
							}
							yp, _ := asPtr(y)
							for _, o := range u.call(st, u.ex.method(ptensor, "Squeeze"), []Val{yp, VT{I(1)}}) {
								if u.stepOK(o, "Squeeze") {
									finish(o.st, o.vals[0])
								}
							}
						}
						if a == nil {
							next(o.st, o.vals[0])
							continue
						}
						outs := []Outcome(nil)
						if modular {
							outs = a.asContract(o.st, o.vals[0], k)
						} else {
							outs = a.call(u, o.st, act, o.vals[0])
						}
						for _, o := range outs {
							if u.stepOK(o, "activation") {
								next(o.st, o.vals[0])
							}
						}
					}
				}
				since := st.writes
				forward(st, func(st *State, r VPtr) {
					for _, o := range u.call(st, u.ex.fn("tensor", "BackPropagate"), []Val{wrapT(r)}) {
						if !u.noPanic("C11", "back-propagation", o) || !u.obf("C11", "back-propagation succeeds", isNilVal(o.vals[0]), "error on path %s", o.st.pc) {
							continue
						}
						u.updates(o.st, opt, fc, func(st *State) {
							u.frame(st, since, func(rec *WriteRec) bool { return onlyGctx(rec) || rec.fam == fc.ref.fam })
							u.stepResult(st, fc, lr, w, b, x, t, a, m, k, l, tie, ends, modular)
							// without the reset: the next update is refused
							forward(st.clone(), func(st *State, r VPtr) {
								for _, o := range u.call(st, u.ex.fn("tensor", "BackPropagate"), []Val{wrapT(r)}) {
									if !u.noPanic("C11", "back-propagation", o) || !isNilVal(o.vals[0]) {
										continue
									}
									for _, p := range u.params(o.st, fc) {
										for _, o := range u.call(o.st.clone(), u.method(optPkg, "SGD", "Update"), []Val{opt, p}) {
											if u.noPanic("C11", "Update", o) {
												u.obf("C11", "an update after a step without the reset is an error", isErr(o), "accepted on path %s", o.st.pc)
											}
										}
									}
								}
							})
							u.afterReset(st.clone(), fc, x, t)
						})
					}
				})
			}
			if a == nil {
				withAct(st, nil, nil, nil)
			} else {
				a.new(u, st, conf, withAct)
			}
		})
	})
}

func (u *ur) stepOK(o Outcome, what string) bool {
	return u.noPanic("C11", what, o) && u.obf("C11", what+" accepts the model's tensors", !isErr(o), "error on path %s", o.st.pc)
}

// params are the pointers the layer exposes.
func (u *ur) params(st *State, fc VPtr) []VPtr {
	for _, o := range u.call(st.clone(), u.method(layerPkg, "FC", "Weights"), []Val{fc}) {
		return weightPtrs(u, o.st, o.vals[0])
	}
	return nil
}

// updates runs the optimizer on every parameter.
func (u *ur) updates(st *State, opt Val, fc VPtr, f func(st *State)) {
	ps := u.params(st, fc)
	if !u.obf("C11", "both parameters are exposed", len(ps) == 2, "%d", len(ps)) {
		return
	}
	var rec func(st *State, k int)
	rec = func(st *State, k int) {
		if k == len(ps) {
			f(st)
			return
		}
		for _, o := range u.call(st, u.method(optPkg, "SGD", "Update"), []Val{opt, ps[k]}) {
			if u.noPanic("C11", "Update", o) && u.obf("C11", "update succeeds", !isErr(o), "error on path %s", o.st.pc) {
				rec(o.st, k+1)
			}
		}
	}
	rec(st, 0)
}

// stepResult: every parameter moved by -lr times the derivative of the loss.
func (u *ur) stepResult(st *State, fc VPtr, lr *Term, w, b, x, t *tv, a *actSpec, m *Term, dim int, l *lossSpec, tie func(m *Term) *Term, ends [2]*Term, modular bool) {
	batch, feats, outs := x.dims[0], x.dims[1], w.dims[0]
	yd := []*Term{batch, outs}
	pre := func(i []*Term) *Term { return fcElem(w.elem, b.elem, x.elem, feats, i) }
	y := pre
	if a != nil {
		y = func(i []*Term) *Term { return a.value(m, yd, dim, pre, i) }
		if modular {
			y = elemVar("y")
		}
	}
	// derivative of the loss with respect to the activation's output
	gy := func(i []*Term) *Term {
		p, tt := y(i), l.t(t.elem)(i[:l.rank])
		if !l.clip {
			return l.grad(yd[:l.rank], p, tt)
		}
		lo, hi := lossEps, Sub(R(1), lossEps)
		n := ToReal(batch)
		g := func(p *Term) *Term { return Mul(n, l.grad(yd[:l.rank], p, tt)) }
		return Div(Ite(Lt(p, Sub(lo, eqTau)), R(0), Ite(Gt(p, Add(hi, eqTau)), R(0),
			Ite(Le(p, Add(lo, eqTau)), Mul(ends[0], g(l.p(y)(i))), Ite(Ge(p, Sub(hi, eqTau)), Mul(ends[1], g(l.p(y)(i))), g(p))))), n)
	}
	ga := gy
	if a != nil {
		ga = func(i []*Term) *Term {
			if tie != nil {
				z, g := pre(i), gy(i)
				return Ite(Gt(z, eqTau), g, Ite(Lt(z, Neg(eqTau)), Mul(m, g), Mul(tie(m), g)))
			}
			if modular {
				return smoothRules[a.name](yd, dim, y, gy, i)
			}
			return a.grad(st, m, yd, dim, pre, gy, i)
		}
	}
	grads := []func(i []*Term) *Term{
		func(i []*Term) *Term {
			return SumT(batch, func(n *Term) *Term {
				return Mul(ga([]*Term{n, i[0]}), SumT(feats, func(d *Term) *Term { return x.elem([]*Term{n, d}) }))
			})
		},
		func(i []*Term) *Term { return SumT(batch, func(n *Term) *Term { return ga([]*Term{n, i[0]}) }) },
	}
	for k, p := range u.params(st, fc) {
		v := []*tv{w, b}[k]
		what := []string{"weight", "bias"}[k]
		u.tensorIs(st, "C11", "updated "+what, st.load(p), v.dims, func(st *State, i []*Term) *Term {
			return Sub(v.elem(i), Mul(lr, grads[k](i)))
		})
	}
}

// afterReset: the parameters are leaves again, as before the step, and hold on
// to nothing of it.
func (u *ur) afterReset(st *State, fc VPtr, x, t *tv) {
	for _, p := range u.params(st, fc) {
		tp, ok := asPtr(st.load(p))
		if !u.obf("C11", "parameters are tensors", ok, "on path %s", st.pc) {
			return
		}
		for _, o := range u.call(st, u.ex.method(ptrT(lay.tensorT), "ResetGradContext"), []Val{tp, VT{tTrue}}) {
			if !u.noPanic("C11", "ResetGradContext", o) {
				return
			}
			st = o.st
		}
	}
	for _, p := range u.params(st, fc) {
		tp, _ := asPtr(st.load(p))
		g, ok := st.gctxOf(tp)
		u.obf("C11 C08", "after the reset a parameter is a tracked leaf", ok && Prove(st.pc, g.tracked) && Prove(st.pc, Not(g.dirty)) && isNilVal(g.grad) && len(g.edges) == 0, "on path %s", st.pc)
	}
	// nothing of this step is reachable from the model
	for f := range st.reach(fc) {
		if f.owner == "input W" || f.owner == "input B" || f.owner == "input x" || f.owner == "input t" {
			u.ob("C11", "nothing of the step stays reachable from the layer", false, fmt.Sprintf("%s is reachable on path %s", f.name, st.pc))
			return
		}
	}
	u.ob("C11", "nothing of the step stays reachable from the layer", true, "")
}
