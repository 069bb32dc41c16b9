package main

// Mechanical differentiation of element terms: the oracle for gradients. The
// vector-Jacobian product of an operation follows from the specification of its
// forward value alone, independently of the repository's gradient rules.

import "math/big"

// sparse derivative: sum of (coefficient, position) pairs, each possibly below
// binders: d t / d x[p] = sum_k coef_k * [args_k == p].
type dterm struct {
	his, vs []*Term // enclosing sum indices
	guard   *Term   // extra condition (BoolTrue if none)
	coef    *Term
	args    []*Term
}

var eqTau = RF(1e-240) // float64EqualityThreshold: tolerance of every equality test

// diffTerm lists the contributions of x's elements to t.
func diffTerm(t *Term, x string) []dterm {
	if !mentions(t, x) {
		return nil
	}
	one := []*Term{}
	_ = one
	switch t.kind {
	case KApp:
		if t.name == x && t.sort == SReal {
			return []dterm{{guard: tTrue, coef: R(1), args: t.args}}
		}
		if len(t.args) == 1 {
			a := t.args[0]
			var f *Term
			switch t.name {
			case "exp":
				f = t
			case "log":
				f = Inv(a)
			case "sin":
				f = fn1("cos", a)
			case "cos":
				f = Neg(fn1("sin", a))
			case "tan":
				f = Add(R(1), Mul(t, t))
			case "sinh":
				f = fn1("cosh", a)
			case "cosh":
				f = fn1("sinh", a)
			case "tanh":
				f = Sub(R(1), Mul(t, t))
			case "sqrt":
				f = Mul(RQ(1, 2), Inv(t))
			case "abs":
				f = Ite(Ge(a, R(0)), R(1), R(-1))
			default:
				panic("cannot differentiate " + t.name)
			}
			return scaleD(f, diffTerm(a, x))
		}
		switch t.name {
		case "pow":
			if mentions(t.args[1], x) {
				panic("exponent depends on the operand")
			}
			f := Mul(t.args[1], PowR(t.args[0], Sub(t.args[1], R(1))))
			return scaleD(f, diffTerm(t.args[0], x))
		case "max", "min":
			var out []dterm
			for i, a := range t.args {
				// the argument that attains the extremum (ties are not differentiable)
				var c []*Term
				for j, b := range t.args {
					if i == j {
						continue
					}
					if t.name == "max" {
						c = append(c, Gt(a, b))
					} else {
						c = append(c, Lt(a, b))
					}
				}
				out = append(out, scaleD(Ite(And(c...), R(1), R(0)), diffTerm(a, x))...)
			}
			return out
		}
		panic("cannot differentiate " + t.name)
	case KPoly:
		var out []dterm
		for _, m := range t.mons {
			for i, f := range m.fs {
				if !mentions(f.t, x) {
					continue
				}
				c := mkRat(SReal, new(big.Rat).Mul(m.c, big.NewRat(int64(f.e), 1)))
				for j, g := range m.fs {
					e := g.e
					if i == j {
						e--
					}
					if e != 0 {
						c = Mul(c, PowN(g.t, e))
					}
				}
				out = append(out, scaleD(c, diffTerm(f.t, x))...)
			}
		}
		return out
	case KIte:
		c := t.args[0]
		return append(scaleD(Ite(c, R(1), R(0)), diffTerm(t.args[1], x)), scaleD(Ite(c, R(0), R(1)), diffTerm(t.args[2], x))...)
	case KSum:
		v := Fresh("ds", SInt)
		var out []dterm
		for _, d := range diffTerm(openFold(t, v), x) {
			d.his = append([]*Term{t.args[0]}, d.his...)
			d.vs = append([]*Term{v}, d.vs...)
			out = append(out, d)
		}
		return out
	case KMaxF, KMinF:
		// the index that attains the extremum (ties are not differentiable)
		v := Fresh("ds", SInt)
		b := openFold(t, v)
		var out []dterm
		for _, d := range diffTerm(b, x) {
			d.his = append([]*Term{t.args[0]}, d.his...)
			d.vs = append([]*Term{v}, d.vs...)
			d.coef = Mul(d.coef, Ite(Le(AbsT(Sub(b, t)), eqTau), R(1), R(0)))
			out = append(out, d)
		}
		return out
	}
	panic("cannot differentiate " + t.String())
}

func scaleD(c *Term, ds []dterm) []dterm {
	var out []dterm
	for _, d := range ds {
		d.coef = Mul(c, d.coef)
		out = append(out, d)
	}
	return out
}

func mentions(t *Term, x string) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.kind == KApp && t.name == x && t.sort == SReal {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range t.mons {
			for _, f := range m.fs {
				if rec(f.t) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// VJP is sum over the output index of w(idx) * d elem(idx) / d x[p].
func VJP(outDims []*Term, elem func([]*Term) *Term, w func([]*Term) *Term, x string, p []*Term) *Term {
	var idx []*Term
	for range outDims {
		idx = append(idx, Fresh("r", SInt))
	}
	e := elem(idx)
	g := w(idx)
	total := R(0)
	for _, d := range diffTerm(e, x) {
		var c []*Term
		for i := range p {
			c = append(c, Eq(d.args[i], p[i]))
		}
		b := Mul(g, Ite(And(c...), d.coef, R(0)))
		for i := len(d.vs) - 1; i >= 0; i-- {
			b = mkFold(KSum, d.vs[i], d.his[i], b)
		}
		for i := len(idx) - 1; i >= 0; i-- {
			b = mkFold(KSum, idx[i], outDims[i], b)
		}
		total = Add(total, b)
	}
	return total
}
