package main

// Contracts of the tensor operations: precondition, result shape, result
// elements, gradient context and backward rule of every public operation. The
// same specification is proved against each body (units.go) and used in place of
// the body at every call (applyOp).

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// opd is a tensor operand of a call.
type opd struct {
	val  Val // as passed
	p    VPtr
	bad  bool // nil or foreign implementation
	dims []*Term
	elem func([]*Term) *Term
	trk  *Term
	dty  *Term
}

// inst is one call: its operands and arguments.
type inst struct {
	ts    []opd
	dim   *Term
	shape []*Term
	rng   [][2]*Term
	num   *Term
	held  []*tv
}

func (in *inst) t() opd    { return in.ts[0] }
func (in *inst) rank() int { return len(in.ts[0].dims) }

type resKind int

const (
	resT    resKind = iota // tensor
	resTErr                // tensor, error
	resF                   // float64
	resFErr                // float64, error
	resBErr                // bool, error
	resI                   // int
	resIs                  // []int
)

type opSpec struct {
	name  string
	res   resKind
	nt    int     // tensor operands including the receiver
	arg   string  // "", dim, shape, ranges, num, index, tensors
	ranks [][]int // operand ranks checked
	grad  bool    // results may be tracked
	prop  string  // property that states its values
	pre   func(in *inst) []*Term
	// resolve lists the conditions that pick among the alternatives of dims/elem
	cases func(in *inst, must func(*Term) bool)
	dims  func(in *inst) []*Term
	elem  func(in *inst, i []*Term) *Term
	// def: the element is defined in real arithmetic
	def func(in *inst, i []*Term) *Term
	// vjp of operand k at position p under weights w; nil: mechanical derivative
	vjp func(in *inst, k int, w func([]*Term) *Term, p []*Term) *Term
	// knownVJP, when set, is the recorded finding's value (see known-findings.txt)
	known func(in *inst, k int, w func([]*Term) *Term, p []*Term) *Term
}

var opSpecs = map[string]*opSpec{}
var opList []*opSpec

func addOp(s *opSpec) {
	opSpecs[s.name] = s
	opList = append(opList, s)
}

/* ---------- helpers ---------- */

func noPre(in *inst) []*Term { return nil }

func inDim(d *Term, n int) []*Term { return []*Term{Ge(d, I(0)), Lt(d, I(int64(n)))} }

// atDim evaluates f for the value of a dimension argument in [0,n).
func atDim(d *Term, n int, f func(k int) *Term) *Term {
	if k, ok := d.intVal(); ok {
		if k < 0 || k >= n {
			return R(0)
		}
		return f(k)
	}
	unsup("dimension argument is not resolved")
	return nil
}

func dimNum(in *inst, n int) int {
	k, ok := in.dim.intVal()
	if !ok || k < 0 || k >= n {
		unsup("dimension argument is not resolved")
	}
	return k
}

// bcDims is the broadcast of two shapes.
func bcDims(a, b []*Term) []*Term {
	n := max(len(a), len(b))
	out := make([]*Term, n)
	for i := 1; i <= n; i++ {
		switch {
		case i > len(a):
			out[n-i] = b[len(b)-i]
		case i > len(b):
			out[n-i] = a[len(a)-i]
		default:
			x, y := a[len(a)-i], b[len(b)-i]
			out[n-i] = Ite(Eq(x, y), x, Ite(Eq(x, I(1)), y, x))
		}
	}
	return out
}

func bcPre(a, b []*Term) []*Term {
	var c []*Term
	for i := 1; i <= min(len(a), len(b)); i++ {
		x, y := a[len(a)-i], b[len(b)-i]
		c = append(c, Or(Eq(x, y), Eq(x, I(1)), Eq(y, I(1))))
	}
	return c
}

func bcCases(a, b []*Term, must func(*Term) bool) {
	for i := 1; i <= min(len(a), len(b)); i++ {
		x, y := a[len(a)-i], b[len(b)-i]
		if !must(Eq(x, y)) {
			must(Eq(x, I(1)))
		}
	}
}

// bcIdx maps an index of the broadcast shape to one of the operand.
func bcIdx(src, dst, i []*Term) []*Term {
	out := make([]*Term, len(src))
	for j := range src {
		k := len(dst) - len(src) + j
		out[j] = Ite(Eq(src[j], dst[k]), i[k], I(0))
	}
	return out
}

func cat(a []*Term, b ...*Term) []*Term { return append(append([]*Term(nil), a...), b...) }

func insertAt(a []*Term, k int, x *Term) []*Term {
	out := append([]*Term(nil), a[:k]...)
	out = append(out, x)
	return append(out, a[k:]...)
}

func removeAt(a []*Term, k int) []*Term {
	out := append([]*Term(nil), a[:k]...)
	return append(out, a[k+1:]...)
}

func sameDims(a, b []*Term) []*Term {
	if len(a) != len(b) {
		return []*Term{tFalse}
	}
	var c []*Term
	for i := range a {
		c = append(c, Eq(a[i], b[i]))
	}
	return c
}

func allPos(ds []*Term) []*Term {
	var c []*Term
	for _, d := range ds {
		c = append(c, Ge(d, I(1)))
	}
	return c
}

// fold over all elements of a tensor
func nestOver(dims []*Term, fold func(*Term, func(*Term) *Term) *Term, f func([]*Term) *Term) *Term {
	var rec func(k int, idx []*Term) *Term
	rec = func(k int, idx []*Term) *Term {
		if k == len(dims) {
			return f(idx)
		}
		return fold(dims[k], func(i *Term) *Term { return rec(k+1, cat(idx, i)) })
	}
	return rec(0, nil)
}

// statistics of n values given by a fold
func statMean(s, n *Term) *Term { return Div(s, ToReal(n)) }

func statVar(n *Term, sum func(func(x *Term) *Term) *Term) *Term {
	m := statMean(sum(func(x *Term) *Term { return x }), n)
	dev := sum(func(x *Term) *Term { d := Sub(x, m); return Mul(d, d) })
	return Ite(Ge(n, I(2)), Div(dev, ToReal(Sub(n, I(1)))), R(0))
}

func sqrtT(t *Term) *Term { return fn1("sqrt", t) }

func unaryRanks() [][]int { return [][]int{{0}, {1}, {2}, {3}, {4}, {5}} }
func pairRanks(lo, hi int) [][]int {
	var out [][]int
	for a := lo; a <= hi; a++ {
		for b := lo; b <= hi; b++ {
			out = append(out, []int{a, b})
		}
	}
	return out
}

// fullRange is the resolved range at dimension k.
func rangeAt(rng [][2]*Term, k int, whole *Term) (f, t, omitted *Term) {
	if k >= len(rng) {
		return I(0), whole, tTrue
	}
	a, b := rng[k][0], rng[k][1]
	z := And(Eq(a, I(0)), Eq(b, I(0)))
	return Ite(z, I(0), a), Ite(z, whole, b), z
}

func rangePre(rng [][2]*Term, dims []*Term) []*Term {
	if len(rng) > len(dims) {
		return []*Term{tFalse}
	}
	var c []*Term
	for k := range rng {
		a, b := rng[k][0], rng[k][1]
		z := And(Eq(a, I(0)), Eq(b, I(0)))
		c = append(c, Or(z, And(Ge(a, I(0)), Lt(a, b), Le(b, dims[k]))))
	}
	return c
}

func rangeCases(rng [][2]*Term, must func(*Term) bool) {
	for k := range rng {
		must(And(Eq(rng[k][0], I(0)), Eq(rng[k][1], I(0))))
	}
}

/* ---------- the operations ---------- */

func initOps() {
	same := func(in *inst) []*Term { return in.t().dims }

	// element-wise functions of one operand
	un := func(name string, f func(x *Term) *Term, def func(x *Term) *Term) {
		s := &opSpec{name: name, res: resT, nt: 1, ranks: unaryRanks(), grad: true, prop: "C03", pre: noPre, dims: same,
			elem: func(in *inst, i []*Term) *Term { return f(in.t().elem(i)) }}
		if def != nil {
			s.def = func(in *inst, i []*Term) *Term { return def(in.t().elem(i)) }
		}
		addOp(s)
	}
	un("Exp", Exp, nil)
	un("Log", func(x *Term) *Term { return fn1("log", x) }, func(x *Term) *Term { return Gt(x, R(0)) })
	un("Sin", func(x *Term) *Term { return fn1("sin", x) }, nil)
	un("Cos", func(x *Term) *Term { return fn1("cos", x) }, nil)
	un("Tan", func(x *Term) *Term { return fn1("tan", x) }, func(x *Term) *Term { return Ne(fn1("cos", x), R(0)) })
	un("Sinh", func(x *Term) *Term { return fn1("sinh", x) }, nil)
	un("Cosh", func(x *Term) *Term { return fn1("cosh", x) }, nil)
	un("Tanh", func(x *Term) *Term { return fn1("tanh", x) }, nil)
	addOp(&opSpec{name: "Scale", res: resT, nt: 1, arg: "num", ranks: unaryRanks(), grad: true, prop: "C03", pre: noPre, dims: same,
		elem: func(in *inst, i []*Term) *Term { return Mul(in.num, in.t().elem(i)) }})
	addOp(&opSpec{name: "Pow", res: resT, nt: 1, arg: "num", ranks: unaryRanks(), grad: true, prop: "C03", pre: noPre, dims: same,
		elem: func(in *inst, i []*Term) *Term { return PowR(in.t().elem(i), in.num) },
		def:  func(in *inst, i []*Term) *Term { return powDef(in.t().elem(i), in.num) }})

	// comparisons, extrema of two operands
	bi := func(name string, grad bool, f func(a, b *Term) *Term) {
		addOp(&opSpec{name: name, res: resTErr, nt: 2, ranks: [][]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 5}, {0, 1}, {1, 0}, {1, 2}, {2, 1}, {3, 1}, {4, 3}},
			grad: grad, prop: "C03",
			pre:  func(in *inst) []*Term { return sameDims(in.ts[0].dims, in.ts[1].dims) },
			dims: same,
			elem: func(in *inst, i []*Term) *Term { return f(in.ts[0].elem(i), in.ts[1].elem(i)) }})
	}
	eqTol := func(a, b *Term) *Term { return Le(AbsT(Sub(a, b)), eqTau) }
	b01 := func(c *Term) *Term { return Ite(c, R(1), R(0)) }
	bi("Eq", false, func(a, b *Term) *Term { return b01(eqTol(a, b)) })
	bi("Ne", false, func(a, b *Term) *Term { return b01(Not(eqTol(a, b))) })
	bi("Gt", false, func(a, b *Term) *Term { return b01(Gt(a, b)) })
	bi("Ge", false, func(a, b *Term) *Term { return b01(Ge(a, b)) })
	bi("Lt", false, func(a, b *Term) *Term { return b01(Lt(a, b)) })
	bi("Le", false, func(a, b *Term) *Term { return b01(Le(a, b)) })
	bi("ElMax", true, MaxT)
	bi("ElMin", true, MinT)
	elx := func(max bool) func(in *inst, k int, w func([]*Term) *Term, p []*Term) *Term {
		return func(in *inst, k int, w func([]*Term) *Term, p []*Term) *Term {
			a, b := in.ts[k].elem(p), in.ts[1-k].elem(p)
			big := Ge(a, b)
			if !max {
				big = Le(a, b)
			}
			// 1 where this operand is the extremum, 0 where the other is, half at a tie
			return Mul(w(p), Ite(eqTol(a, b), RQ(1, 2), b01(big)))
		}
	}
	opSpecs["ElMax"].vjp = elx(true)
	opSpecs["ElMin"].vjp = elx(false)

	addOp(&opSpec{name: "Equals", res: resBErr, nt: 2, ranks: [][]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 5}, {0, 1}, {2, 1}}, prop: "C03",
		pre: func(in *inst) []*Term { return sameDims(in.ts[0].dims, in.ts[1].dims) },
		elem: func(in *inst, _ []*Term) *Term {
			return nestOver(in.t().dims, ForallT, func(i []*Term) *Term { return eqTol(in.ts[0].elem(i), in.ts[1].elem(i)) })
		}})

	// broadcasting arithmetic
	ar := func(name string, f func(a, b *Term) *Term) {
		addOp(&opSpec{name: name, res: resTErr, nt: 2, ranks: append(pairRanks(0, 4), []int{5, 5}), grad: true, prop: "C03",
			pre:   func(in *inst) []*Term { return bcPre(in.ts[0].dims, in.ts[1].dims) },
			cases: func(in *inst, must func(*Term) bool) { bcCases(in.ts[0].dims, in.ts[1].dims, must) },
			dims:  func(in *inst) []*Term { return bcDims(in.ts[0].dims, in.ts[1].dims) },
			elem: func(in *inst, i []*Term) *Term {
				a, b := in.ts[0], in.ts[1]
				d := bcDims(a.dims, b.dims)
				return f(a.elem(bcIdx(a.dims, d, i)), b.elem(bcIdx(b.dims, d, i)))
			}})
	}
	ar("Add", func(a, b *Term) *Term { return Add(a, b) })
	ar("Sub", Sub)
	ar("Mul", Mul)
	ar("Div", Div)
	opSpecs["Div"].def = func(in *inst, i []*Term) *Term {
		a, b := in.ts[0], in.ts[1]
		d := bcDims(a.dims, b.dims)
		return Ne(b.elem(bcIdx(b.dims, d, i)), R(0))
	}

	last := func(d []*Term, k int) *Term { return d[len(d)-k] }
	addOp(&opSpec{name: "Dot", res: resTErr, nt: 2, ranks: pairRanks(0, 4), grad: true, prop: "C04",
		pre: func(in *inst) []*Term {
			a, b := in.ts[0].dims, in.ts[1].dims
			if len(a) < 1 || len(b) < 1 {
				return []*Term{tFalse}
			}
			return cat([]*Term{Eq(last(a, 1), last(b, 1))}, bcPre(a[:len(a)-1], b[:len(b)-1])...)
		},
		cases: func(in *inst, must func(*Term) bool) {
			a, b := in.ts[0].dims, in.ts[1].dims
			bcCases(a[:len(a)-1], b[:len(b)-1], must)
		},
		dims: func(in *inst) []*Term {
			a, b := in.ts[0].dims, in.ts[1].dims
			return bcDims(a[:len(a)-1], b[:len(b)-1])
		},
		elem: func(in *inst, i []*Term) *Term {
			a, b := in.ts[0], in.ts[1]
			n := last(a.dims, 1)
			la, lb := a.dims[:len(a.dims)-1], b.dims[:len(b.dims)-1]
			d := bcDims(la, lb)
			return SumT(n, func(k *Term) *Term {
				return Mul(a.elem(cat(bcIdx(la, d, i), k)), b.elem(cat(bcIdx(lb, d, i), k)))
			})
		}})
	addOp(&opSpec{name: "MatMul", res: resTErr, nt: 2, ranks: pairRanks(1, 4), grad: true, prop: "C04",
		pre: func(in *inst) []*Term {
			a, b := in.ts[0].dims, in.ts[1].dims
			if len(a) < 2 || len(b) < 2 {
				return []*Term{tFalse}
			}
			return cat([]*Term{Eq(last(a, 1), last(b, 2))}, bcPre(a[:len(a)-2], b[:len(b)-2])...)
		},
		cases: func(in *inst, must func(*Term) bool) {
			a, b := in.ts[0].dims, in.ts[1].dims
			bcCases(a[:len(a)-2], b[:len(b)-2], must)
		},
		dims: func(in *inst) []*Term {
			a, b := in.ts[0].dims, in.ts[1].dims
			return cat(bcDims(a[:len(a)-2], b[:len(b)-2]), last(a, 2), last(b, 1))
		},
		elem: func(in *inst, i []*Term) *Term {
			a, b := in.ts[0], in.ts[1]
			la, lb := a.dims[:len(a.dims)-2], b.dims[:len(b.dims)-2]
			d := bcDims(la, lb)
			n := len(i)
			return SumT(last(a.dims, 1), func(k *Term) *Term {
				return Mul(a.elem(cat(bcIdx(la, d, i[:n-2]), i[n-2], k)), b.elem(cat(bcIdx(lb, d, i[:n-2]), k, i[n-1])))
			})
		}})

	addOp(&opSpec{name: "Transpose", res: resTErr, nt: 1, ranks: unaryRanks(), grad: true, prop: "C04",
		pre: func(in *inst) []*Term { return []*Term{B(in.rank() >= 2)} },
		dims: func(in *inst) []*Term {
			d := append([]*Term(nil), in.t().dims...)
			n := len(d)
			d[n-1], d[n-2] = d[n-2], d[n-1]
			return d
		},
		elem: func(in *inst, i []*Term) *Term {
			j := append([]*Term(nil), i...)
			n := len(j)
			j[n-1], j[n-2] = j[n-2], j[n-1]
			return in.t().elem(j)
		}})

	// reductions
	type stat struct {
		name string
		f    func(n *Term, fold func(fold func(*Term, func(*Term) *Term) *Term, f func(x *Term) *Term) *Term) *Term
	}
	sumOf := func(fold func(fold func(*Term, func(*Term) *Term) *Term, f func(x *Term) *Term) *Term) func(func(*Term) *Term) *Term {
		return func(f func(*Term) *Term) *Term { return fold(SumT, f) }
	}
	idf := func(x *Term) *Term { return x }
	stats := []stat{
		{"Sum", func(n *Term, fold func(func(*Term, func(*Term) *Term) *Term, func(*Term) *Term) *Term) *Term {
			return fold(SumT, idf)
		}},
		{"Max", func(n *Term, fold func(func(*Term, func(*Term) *Term) *Term, func(*Term) *Term) *Term) *Term {
			return fold(MaxFT, idf)
		}},
		{"Min", func(n *Term, fold func(func(*Term, func(*Term) *Term) *Term, func(*Term) *Term) *Term) *Term {
			return fold(MinFT, idf)
		}},
		{"Avg", func(n *Term, fold func(func(*Term, func(*Term) *Term) *Term, func(*Term) *Term) *Term) *Term {
			return statMean(fold(SumT, idf), n)
		}},
		{"Var", func(n *Term, fold func(func(*Term, func(*Term) *Term) *Term, func(*Term) *Term) *Term) *Term {
			return statVar(n, sumOf(fold))
		}},
		{"Std", func(n *Term, fold func(func(*Term, func(*Term) *Term) *Term, func(*Term) *Term) *Term) *Term {
			return sqrtT(statVar(n, sumOf(fold)))
		}},
		{"Mean", func(n *Term, fold func(func(*Term, func(*Term) *Term) *Term, func(*Term) *Term) *Term) *Term {
			return statMean(fold(SumT, idf), n)
		}},
	}
	for _, s := range stats {
		s := s
		addOp(&opSpec{name: s.name, res: resF, nt: 1, ranks: unaryRanks(), prop: "C05", pre: noPre,
			elem: func(in *inst, _ []*Term) *Term {
				d := in.t().dims
				return s.f(prod(d), func(fold func(*Term, func(*Term) *Term) *Term, f func(*Term) *Term) *Term {
					return nestOver(d, fold, func(i []*Term) *Term { return f(in.t().elem(i)) })
				})
			}})
		addOp(&opSpec{name: s.name + "Along", res: resTErr, nt: 1, arg: "dim", ranks: unaryRanks(), grad: true, prop: "C05",
			pre:  func(in *inst) []*Term { return inDim(in.dim, in.rank()) },
			dims: func(in *inst) []*Term { return removeAt(in.t().dims, dimNum(in, in.rank())) },
			elem: func(in *inst, i []*Term) *Term {
				k := dimNum(in, in.rank())
				n := in.t().dims[k]
				return s.f(n, func(fold func(*Term, func(*Term) *Term) *Term, f func(*Term) *Term) *Term {
					return fold(n, func(j *Term) *Term { return f(in.t().elem(insertAt(i, k, j))) })
				})
			}})
	}

	// accessors
	addOp(&opSpec{name: "NElems", res: resI, nt: 1, ranks: unaryRanks(), prop: "C06", pre: noPre,
		elem: func(in *inst, _ []*Term) *Term { return prod(in.t().dims) }})
	addOp(&opSpec{name: "Shape", res: resIs, nt: 1, ranks: unaryRanks(), prop: "C06", pre: noPre, dims: same})
	addOp(&opSpec{name: "At", res: resFErr, nt: 1, arg: "index", ranks: unaryRanks(), prop: "C06",
		pre: func(in *inst) []*Term {
			if len(in.shape) != in.rank() {
				return []*Term{tFalse}
			}
			var c []*Term
			for k, i := range in.shape {
				c = append(c, Ge(i, I(0)), Lt(i, in.t().dims[k]))
			}
			return c
		},
		elem: func(in *inst, _ []*Term) *Term { return in.t().elem(in.shape) }})
	addOp(&opSpec{name: "Slice", res: resTErr, nt: 1, arg: "ranges", ranks: unaryRanks(), grad: true, prop: "C06",
		pre:   func(in *inst) []*Term { return rangePre(in.rng, in.t().dims) },
		cases: func(in *inst, must func(*Term) bool) { rangeCases(in.rng, must) },
		dims: func(in *inst) []*Term {
			var out []*Term
			for k, d := range in.t().dims {
				f, t, _ := rangeAt(in.rng, k, d)
				out = append(out, Sub(t, f))
			}
			return out
		},
		elem: func(in *inst, i []*Term) *Term {
			var j []*Term
			for k, d := range in.t().dims {
				f, _, _ := rangeAt(in.rng, k, d)
				j = append(j, Add(i[k], f))
			}
			return in.t().elem(j)
		}})
	addOp(&opSpec{name: "Patch", res: resTErr, nt: 2, arg: "ranges", ranks: [][]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 5}, {1, 2}, {2, 1}, {0, 1}}, grad: true, prop: "C06",
		pre: func(in *inst) []*Term {
			d, s := in.ts[0].dims, in.ts[1].dims
			if len(d) != len(s) {
				return []*Term{tFalse}
			}
			c := rangePre(in.rng, d)
			for k := range d {
				c = append(c, Le(s[k], d[k]))
			}
			for k := range in.rng {
				if k < len(s) {
					z := And(Eq(in.rng[k][0], I(0)), Eq(in.rng[k][1], I(0)))
					c = append(c, Or(z, Eq(Sub(in.rng[k][1], in.rng[k][0]), s[k])))
				}
			}
			return c
		},
		cases: func(in *inst, must func(*Term) bool) { rangeCases(in.rng, must) },
		dims:  same,
		elem: func(in *inst, i []*Term) *Term {
			var in1, j []*Term
			for k := range in.ts[0].dims {
				s := in.ts[1].dims[k]
				f, _, _ := rangeAt(in.rng, k, s)
				j = append(j, Sub(i[k], f))
				in1 = append(in1, Ge(i[k], f), Lt(i[k], Add(f, s)))
			}
			return Ite(And(in1...), in.ts[1].elem(j), in.ts[0].elem(i))
		}})

	// shape modifiers
	addOp(&opSpec{name: "Reshape", res: resTErr, nt: 1, arg: "shape", ranks: unaryRanks(), grad: true, prop: "C06",
		pre:  func(in *inst) []*Term { return cat(allPos(in.shape), Eq(prod(in.shape), prod(in.t().dims))) },
		dims: func(in *inst) []*Term { return in.shape },
		elem: func(in *inst, i []*Term) *Term {
			var j []*Term
			for k := range in.t().dims {
				j = append(j, mkDig(k, rankOf(i, in.shape), in.t().dims))
			}
			return in.t().elem(j)
		},
		vjp: func(in *inst, _ int, w func([]*Term) *Term, p []*Term) *Term {
			var j []*Term
			for k := range in.shape {
				j = append(j, mkDig(k, rankOf(p, in.t().dims), in.shape))
			}
			return w(j)
		}})
	addOp(&opSpec{name: "UnSqueeze", res: resTErr, nt: 1, arg: "dim", ranks: unaryRanks(), grad: true, prop: "C06",
		pre:  func(in *inst) []*Term { return inDim(in.dim, in.rank()+1) },
		dims: func(in *inst) []*Term { return insertAt(in.t().dims, dimNum(in, in.rank()+1), I(1)) },
		elem: func(in *inst, i []*Term) *Term { return in.t().elem(removeAt(i, dimNum(in, in.rank()+1))) },
		vjp: func(in *inst, _ int, w func([]*Term) *Term, p []*Term) *Term {
			return w(insertAt(p, dimNum(in, in.rank()+1), I(0)))
		}})
	addOp(&opSpec{name: "Squeeze", res: resTErr, nt: 1, arg: "dim", ranks: unaryRanks(), grad: true, prop: "C06",
		pre: func(in *inst) []*Term {
			c := inDim(in.dim, in.rank())
			if k, ok := in.dim.intVal(); ok && k >= 0 && k < in.rank() {
				c = append(c, Eq(in.t().dims[k], I(1)))
			}
			return c
		},
		dims: func(in *inst) []*Term { return removeAt(in.t().dims, dimNum(in, in.rank())) },
		elem: func(in *inst, i []*Term) *Term { return in.t().elem(insertAt(i, dimNum(in, in.rank()), I(0))) },
		vjp: func(in *inst, _ int, w func([]*Term) *Term, p []*Term) *Term {
			return w(removeAt(p, dimNum(in, in.rank())))
		}})
	addOp(&opSpec{name: "Flatten", res: resTErr, nt: 1, arg: "dim", ranks: unaryRanks(), grad: true, prop: "C06",
		pre: func(in *inst) []*Term { return inDim(in.dim, in.rank()) },
		dims: func(in *inst) []*Term {
			k := dimNum(in, in.rank())
			return cat(in.t().dims[:k], prod(in.t().dims[k:]))
		},
		elem: func(in *inst, i []*Term) *Term {
			k := dimNum(in, in.rank())
			d := in.t().dims[k:]
			j := append([]*Term(nil), i[:k]...)
			for n := range d {
				j = append(j, mkDig(n, i[k], d))
			}
			return in.t().elem(j)
		},
		vjp: func(in *inst, _ int, w func([]*Term) *Term, p []*Term) *Term {
			k := dimNum(in, in.rank())
			return w(cat(p[:k], rankOf(p[k:], in.t().dims[k:])))
		}})
	addOp(&opSpec{name: "Broadcast", res: resTErr, nt: 1, arg: "shape", ranks: unaryRanks(), grad: true, prop: "C06",
		pre: func(in *inst) []*Term {
			d := in.t().dims
			c := allPos(in.shape)
			if len(d) > len(in.shape) {
				return append(c, tFalse)
			}
			for k := range d {
				t := in.shape[len(in.shape)-len(d)+k]
				c = append(c, Or(Eq(d[k], t), Eq(d[k], I(1))))
			}
			return c
		},
		cases: func(in *inst, must func(*Term) bool) {
			d := in.t().dims
			for k := range d {
				must(Eq(d[k], in.shape[len(in.shape)-len(d)+k]))
			}
		},
		dims: func(in *inst) []*Term { return in.shape },
		elem: func(in *inst, i []*Term) *Term { return in.t().elem(bcIdx(in.t().dims, in.shape, i)) },
	})
	// the recorded finding: the explicit Broadcast rule divides by the number of copies
	opSpecs["Broadcast"].known = func(in *inst, k int, w func([]*Term) *Term, p []*Term) *Term {
		v := mechVJP(opSpecs["Broadcast"], in, k, w, p)
		d := in.t().dims
		f := R(1)
		for j, s := range in.shape {
			if j < len(in.shape)-len(d) {
				f = Mul(f, ToReal(s))
				continue
			}
			f = Mul(f, Ite(Eq(d[j-(len(in.shape)-len(d))], s), R(1), ToReal(s)))
		}
		return Div(v, f)
	}

	addOp(&opSpec{name: "Concat", res: resTErr, nt: -1, arg: "tensors", grad: true, prop: "C06",
		ranks: [][]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 5}, {1}, {3}, {1, 1, 1}, {2, 2, 2}, {3, 3, 3}, {1, 1, 1, 1}, {1, 2}, {2, 1}, {1, 0}},
		pre: func(in *inst) []*Term {
			n := in.rank()
			if n == 0 {
				return []*Term{tFalse}
			}
			c := inDim(in.dim, n)
			for _, t := range in.ts[1:] {
				if len(t.dims) != n {
					return append(c, tFalse)
				}
				for k := range t.dims {
					if d, ok := in.dim.intVal(); ok && d == k {
						continue
					}
					c = append(c, Eq(t.dims[k], in.ts[0].dims[k]))
				}
			}
			return c
		},
		dims: func(in *inst) []*Term {
			k := dimNum(in, in.rank())
			d := append([]*Term(nil), in.t().dims...)
			for _, t := range in.ts[1:] {
				d[k] = Add(d[k], t.dims[k])
			}
			return d
		},
		elem: func(in *inst, i []*Term) *Term {
			k := dimNum(in, in.rank())
			base := I(0)
			var bases []*Term
			for _, t := range in.ts {
				bases = append(bases, base)
				base = Add(base, t.dims[k])
			}
			var r *Term
			for n := len(in.ts) - 1; n >= 0; n-- {
				j := append([]*Term(nil), i...)
				j[k] = Sub(i[k], bases[n])
				e := in.ts[n].elem(j)
				if r == nil {
					r = e
				} else {
					r = Ite(Lt(i[k], bases[n+1]), e, r)
				}
			}
			return r
		},
		vjp: func(in *inst, n int, w func([]*Term) *Term, p []*Term) *Term {
			k := dimNum(in, in.rank())
			j := append([]*Term(nil), p...)
			for m := 0; m < n; m++ {
				j[k] = Add(j[k], in.ts[m].dims[k])
			}
			return w(j)
		}})
}

// powDef: math.Pow is the real power at (x, a).
func powDef(x, a *Term) *Term {
	if a.isNum() {
		if a.num.IsInt() {
			if a.num.Sign() >= 0 {
				return tTrue
			}
			return Ne(x, R(0))
		}
		if a.num.Sign() > 0 {
			return Ge(x, R(0))
		}
		return Gt(x, R(0))
	}
	return Gt(x, R(0))
}

/* ---------- gradient oracle ---------- */

// symbolic stand-in for operand k's elements, later replaced by the real ones
func opSym(k int) string { return [...]string{"§x0", "§x1", "§x2", "§x3"}[k] }

func mechVJP(s *opSpec, in *inst, k int, w func([]*Term) *Term, p []*Term) *Term {
	gi := *in
	gi.ts = append([]opd(nil), in.ts...)
	names := map[string]func([]*Term) *Term{}
	for n := range gi.ts {
		gi.ts[n].elem = elemVar(opSym(n))
		names[opSym(n)] = in.ts[n].elem
	}
	t := VJP(s.dims(&gi), func(i []*Term) *Term { return s.elem(&gi, i) }, w, opSym(k), p)
	return replaceApps(t, names)
}

func specVJP(s *opSpec, in *inst, k int, w func([]*Term) *Term, p []*Term) *Term {
	if s.vjp != nil {
		return s.vjp(in, k, w, p)
	}
	return mechVJP(s, in, k, w, p)
}

// replaceApps replaces applications of the named element functions.
func replaceApps(t *Term, fs map[string]func([]*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.kind {
		case KNum, KBool, KVar, KBV:
			r = t
		case KSum, KMaxF, KMinF, KForall:
			v := Fresh("ra", SInt)
			b := rec(openFold(t, v))
			r = mkFold(t.kind, v, rec(t.args[0]), b)
		case KApp:
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = rec(a)
			}
			if f, ok := fs[t.name]; ok {
				r = f(args)
			} else {
				r = reApp(t, args)
			}
		default:
			r = rebuild(t, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

/* ---------- calls through the contract ---------- */

// operand reads a tensor argument.
func (st *State) operand(v Val) opd {
	o := opd{val: v, bad: true, trk: tFalse, dty: tFalse}
	p, ok := v.(VPtr)
	if i, isI := v.(VIface); isI {
		if types.Identical(i.typ, ptrT(lay.tensorT)) {
			p, ok = i.v.(VPtr)
		}
	}
	if !ok {
		return o
	}
	o.p, o.bad = p, false
	o.dims = st.dimsOf(p)
	snap := st.clone()
	o.elem = func(idx []*Term) *Term { return snap.elemAt(p, o.dims, idx) }
	g, ok := st.gctxOf(p)
	if !ok {
		unsup("tensor without gradient context")
	}
	o.trk, o.dty = g.tracked, g.dirty
	return o
}

// elemAt reads an element at an index known to be in range.
func (st *State) elemAt(p VPtr, dims, idx []*Term) *Term {
	var vs []*Term
	s := st.clone()
	sub := Subst{}
	for i := range idx {
		v := Fresh("at", SInt)
		vs = append(vs, v)
		sub[v] = idx[i]
		s.pc = s.pc.And(Ge(v, I(0))).And(Lt(v, dims[i]))
	}
	return sub.apply(mergedElem(s, p, vs))
}

// mergedElem reads an element, joining the cases of guarded contents.
func mergedElem(s *State, p VPtr, idx []*Term) *Term {
	var r *Term
	c := catchFork(func() { r = s.elemOf(p, idx) })
	if c == nil {
		return r
	}
	a, b := s.clone(), s.clone()
	a.pc, b.pc = a.pc.And(c), b.pc.And(Not(c))
	return Ite(c, mergedElem(a, p, idx), mergedElem(b, p, idx))
}

// parseInst reads the call's arguments in parameter order.
func (s *opSpec) parseInst(st *State, args []Val) *inst {
	in := &inst{}
	if s.arg == "tensors" {
		for _, v := range st.slice(args[0]) {
			in.ts = append(in.ts, st.operand(v))
		}
		in.dim = term(args[1])
		return in
	}
	in.ts = append(in.ts, st.operand(args[0]))
	rest := args[1:]
	if s.arg == "ranges" {
		for _, v := range st.slice(rest[0]) {
			f := v.(VStruct).f
			in.rng = append(in.rng, [2]*Term{term(f[0]), term(f[1])})
		}
		rest = rest[1:]
	}
	if s.nt == 2 {
		in.ts = append(in.ts, st.operand(rest[0]))
		rest = rest[1:]
	}
	switch s.arg {
	case "dim":
		in.dim = term(rest[0])
	case "num":
		in.num = term(rest[0])
	case "shape", "index":
		in.shape = st.ints(rest[0])
	}
	return in
}

func (in *inst) anyBad() bool {
	for _, t := range in.ts {
		if t.bad {
			return true
		}
	}
	return false
}

// maxDim is the number of values a valid dimension argument can take.
func (s *opSpec) maxDim(in *inst) int {
	if s.name == "UnSqueeze" {
		return in.rank() + 1
	}
	return in.rank()
}

// applyOp is the contract used at call sites.
func applyOp(s *opSpec) ContractFn {
	return func(ex *Exec, st *State, fn *ssa.Function, args []Val) []Outcome {
		return s.apply(ex, st, args)
	}
}

func errOut(st *State, s *opSpec) []Outcome {
	switch s.res {
	case resTErr:
		return one(st, VNil{}, newErr())
	case resFErr:
		return one(st, VT{R(0)}, newErr())
	case resBErr:
		return one(st, VT{tFalse}, newErr())
	}
	unsup("contract of %s cannot fail", s.name)
	return nil
}

func (s *opSpec) apply(ex *Exec, st *State, args []Val) []Outcome {
	in := s.parseInst(st, args)
	if in.anyBad() {
		return errOut(st, s)
	}
	ex.useInst(s, in)
	if in.dim != nil && !in.dim.isNum() {
		n := s.maxDim(in)
		if !st.must(And(inDim(in.dim, n)...)) {
			return errOut(st, s)
		}
		for k := 0; k < n; k++ {
			if k == n-1 || st.must(Eq(in.dim, I(int64(k)))) {
				in.dim = I(int64(k))
				break
			}
		}
	}
	for _, c := range s.pre(in) {
		if !st.must(c) {
			return errOut(st, s)
		}
	}
	if s.cases != nil {
		s.cases(in, st.must)
	}
	switch s.res {
	case resF, resI:
		return one(st, VT{simp(st.pc, s.elem(in, nil))})
	case resFErr, resBErr:
		return one(st, VT{simp(st.pc, s.elem(in, nil))}, VNil{})
	case resIs:
		return one(st, st.intSlice("shape", false, "", in.t().dims))
	}
	dims := s.dims(in)
	for i := range dims {
		dims[i] = simp(st.pc, dims[i])
	}
	bpc := st.pc
	var vars []*Term
	for _, d := range dims {
		v := Fresh("o", SInt)
		vars = append(vars, v)
		bpc = bpc.And(Ge(v, I(0))).And(Lt(v, d))
	}
	if s.def != nil && ex.onDef != nil {
		st2 := st.clone()
		st2.pc = bpc
		ex.onDef(st2, s.name, s.def(in, vars))
	}
	body := simp(bpc, s.elem(in, vars))
	r := st.mkT(tspec{name: s.name, dims: dims, elem: func(i []*Term) *Term {
		sub := Subst{}
		for k := range vars {
			sub[vars[k]] = i[k]
		}
		return sub.apply(body)
	}})
	if s.grad {
		s.attachGrad(ex, st, in, r, dims)
	}
	if s.res == resT {
		return one(st, wrapT(r))
	}
	return one(st, wrapT(r), VNil{})
}

// attachGrad gives the result the gradient context the operation promises.
func (s *opSpec) attachGrad(ex *Exec, st *State, in *inst, r VPtr, dims []*Term) {
	var ds, ts []*Term
	for _, t := range in.ts {
		ds = append(ds, t.dty)
		ts = append(ts, t.trk)
	}
	dirty := Or(ds...)
	tracked := And(Not(dirty), Or(ts...))
	g, _ := st.gctxOf(r)
	f := append([]Val(nil), st.load(g.ref).(VStruct).f...)
	f[lay.gdirty] = VT{dirty}
	f[lay.gtracked] = VT{tracked}
	if tracked.kind != KBool && decide(st.pc, tracked) == -1 {
		f[lay.gtracked] = VT{tFalse}
	} else if tracked.kind != KBool || tracked.b {
		if st.must(tracked) {
			f[lay.gtracked] = VT{tTrue}
			var edges []Val
			for k := range in.ts {
				ev := make([]Val, structOf(lay.edgeT).NumFields())
				ev[lay.etarget] = wrapT(in.ts[k].p)
				ev[lay.efn] = VFunc{nat: s.edgeFn(in, k, r, dims)}
				er := st.newObj(s.name+".edge", lay.edgeT, false, "", VStruct{ev})
				edges = append(edges, VPtr{er, I(0), ""})
			}
			er := st.newObj(s.name+".edges", ptrT(lay.edgeT), false, "", edges...)
			n := I(int64(len(edges)))
			f[lay.gback] = VSlice{er, I(0), n, n}
		} else {
			f[lay.gtracked] = VT{tFalse}
		}
	}
	// the context is written once, as part of building the result
	c := st.get(g.ref.ref.fam)
	st.set(g.ref.ref.fam, &Content{n: c.n, cells: []*Layer{{val: VStruct{f}}}})
}

// edgeFn is the backward rule towards operand k, by contract.
func (s *opSpec) edgeFn(in *inst, k int, y VPtr, dims []*Term) *Native {
	return &Native{name: s.name + ".grad", call: func(ex *Exec, st *State, _ []Val) []Outcome {
		return forkOutcomes(st, func(st *State) []Outcome {
			g, _ := st.gctxOf(y)
			ex.useInstB(s, in, true)
			w := st.operand(g.grad)
			if w.bad {
				return []Outcome{{st: st, panic: "gradient of " + s.name + " result is not set"}}
			}
			ok := len(w.dims) == len(dims)
			for i := range dims {
				ok = ok && st.must(Eq(w.dims[i], dims[i]))
			}
			if !ok {
				unsup("upstream gradient of %s has another shape than the result", s.name)
			}
			xd := in.ts[k].dims
			bpc := st.pc
			var vars []*Term
			for _, d := range xd {
				v := Fresh("g", SInt)
				vars = append(vars, v)
				bpc = bpc.And(Ge(v, I(0))).And(Lt(v, d))
			}
			f := specVJP
			if s.known != nil {
				f = func(s *opSpec, in *inst, k int, w func([]*Term) *Term, p []*Term) *Term { return s.known(in, k, w, p) }
				ex.knownUsed = true
			}
			body := simp(bpc, f(s, in, k, w.elem, vars))
			gt := st.mkT(tspec{name: s.name + ".grad", dims: xd, dirty: Fresh("gdirty", SBool), elem: func(i []*Term) *Term {
				sub := Subst{}
				for n := range vars {
					sub[vars[n]] = i[n]
				}
				return sub.apply(body)
			}})
			return one(st, wrapT(gt), VNil{})
		})
	}}
}

// useInst records which instance of a contract a proof relies on.
func (ex *Exec) useInst(s *opSpec, in *inst) { ex.useInstB(s, in, false) }

func (ex *Exec) useInstB(s *opSpec, in *inst, back bool) {
	k := s.name
	for _, t := range in.ts {
		k += fmt.Sprintf(" r%d", len(t.dims))
	}
	if s.arg == "shape" || s.arg == "index" {
		k += fmt.Sprintf(" n%d", len(in.shape))
	}
	if s.arg == "ranges" {
		k += fmt.Sprintf(" n%d", len(in.rng))
	}
	if back {
		k += " backward"
	}
	if ex.insts == nil {
		ex.insts = map[string]bool{}
	}
	ex.insts[k] = true
}
