package main

import (
	"math"
	"math/rand"
	"sort"
)

// dict biases generated sizes and values towards constants that occur in the
// library source or in the path conditions of failed proof obligations.
type dict struct {
	Ints   []int `json:"ints"`
	Floats []fl  `json:"floats"`
	// operations of failed obligations: generated more often
	Ops []string `json:"ops"`
}

// choose picks an operation, preferring those of failed obligations.
func (g *gen) choose(ops []string) string {
	if len(g.d.Ops) > 0 && g.p(0.6) {
		o := g.d.Ops[g.n(len(g.d.Ops))]
		for _, x := range ops {
			if x == o {
				return o
			}
		}
	}
	return ops[g.n(len(ops))]
}

type gen struct {
	r    *rand.Rand
	d    *dict
	ref  *refw
	st   []Step
	vs   int // value style of this case
	big  bool
	prop string
}

func newGen(prop string, seed int64, d *dict) *gen {
	g := &gen{r: rand.New(rand.NewSource(seed)), d: d, ref: &refw{}, prop: prop}
	g.vs = g.r.Intn(8)
	g.big = g.r.Intn(6) == 0
	return g
}

func (g *gen) n(k int) int       { return g.r.Intn(k) }
func (g *gen) p(x float64) bool  { return g.r.Float64() < x }
func (g *gen) pick(v ...int) int { return v[g.r.Intn(len(v))] }

// add appends a step; -1 when the properties leave its meaning open.
func (g *gen) add(s Step) int {
	if g.ref.do(&s) != nil {
		g.ref.n = g.ref.n[:len(g.ref.n)-1]
		return -1
	}
	g.st = append(g.st, s)
	return len(g.st) - 1
}

func (g *gen) anInt() int {
	if len(g.d.Ints) == 0 {
		return 0
	}
	return g.d.Ints[g.n(len(g.d.Ints))]
}

func (g *gen) size(max int) int {
	if max < 1 {
		max = 1
	}
	k := 0
	switch {
	case g.p(0.2):
		k = 1
	case g.big && g.p(0.5) && len(g.d.Ints) > 0:
		k = g.d.Ints[g.n(len(g.d.Ints))] + g.n(3) - 1
	case g.big && g.p(0.3):
		k = 1 + g.n(70)
	default:
		k = 1 + g.n(4)
	}
	if k < 1 {
		k = 1
	}
	if k > max {
		k = 1 + g.n(max)
	}
	return k
}

func (g *gen) shape(lo, hi int) []int {
	rank := lo + g.n(hi-lo+1)
	if g.p(0.5) && rank > 3 && lo < 4 {
		rank = lo + g.n(4-lo)
		if rank < lo {
			rank = lo
		}
	}
	max := 64
	if g.big {
		max = 1500
	}
	sh := make([]int, rank)
	for i := range sh {
		sh[i] = 1
	}
	for _, i := range g.r.Perm(rank) {
		sh[i] = g.size(max / prod(sh))
	}
	return sh
}

func (g *gen) val() float64 {
	switch g.vs {
	case 0, 1:
		return g.r.NormFloat64() * 1.5
	case 2:
		return float64(g.n(9)-4) / 2
	case 3:
		return float64(g.n(3) - 1)
	case 4:
		return 0.1 + 2*g.r.Float64()
	case 5:
		if len(g.d.Floats) > 0 && g.p(0.4) {
			v := float64(g.d.Floats[g.n(len(g.d.Floats))])
			return []float64{v, -v, v + 1e-3, v - 1e-3, v / 2, v * 1.5}[g.n(6)]
		}
		return g.r.NormFloat64()
	case 6:
		return []float64{-30, -5, -1, -1e-3, 0, 1e-3, 0.5, 1, 2, 7, 30, 100}[g.n(12)] * (1 + 0.01*g.r.Float64())
	}
	return g.r.Float64()*2 - 1
}

func (g *gen) vals(n int) []fl {
	v := make([]fl, n)
	for i := range v {
		v[i] = fl(g.val())
	}
	if n > 1 && g.vs == 0 && g.p(0.1) {
		for i := range v {
			v[i] = v[0]
		}
	}
	if g.p(0.2) {
		g.mould(v)
	}
	return v
}

// mould gives all elements of a tensor something in common.
func (g *gen) mould(v []fl) {
	k := g.n(6)
	switch k {
	case 0: // no negative, no positive
		for i := range v {
			v[i] = fl(math.Abs(float64(v[i])))
		}
	case 1:
		for i := range v {
			v[i] = fl(-math.Abs(float64(v[i])))
		}
	case 2: // zeros among values of one sign
		s := fl(g.n(2)*2 - 1)
		for i := range v {
			v[i] = s * fl(math.Abs(float64(v[i])))
			if g.p(0.4) {
				v[i] = 0
			}
		}
	case 3: // sorted
		sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	case 4, 5: // far from zero: all of one magnitude
		switch g.prop {
		case "C03", "C05", "C06", "C19":
		default:
			return
		}
		m := []float64{1e5, 1e9, 1e20, 1e40, 1e-9, 1e-40}[g.n(6)]
		if len(g.d.Floats) > 0 && g.p(0.5) {
			m = math.Abs(float64(g.d.Floats[g.n(len(g.d.Floats))]))
			if m == 0 || m > 1e70 || m < 1e-70 {
				m = 1e6
			}
		}
		s := 1.
		if g.p(0.5) {
			s = -1
		}
		for i := range v {
			if k == 4 {
				v[i] = fl(s * m * (1 + math.Abs(float64(v[i]))))
			} else {
				v[i] = fl(m * float64(v[i]))
			}
		}
	}
}

func (g *gen) leaf(sh []int, track bool) int {
	return g.add(Step{Op: "leaf", D: sh, Data: g.vals(prod(sh)), Track: track})
}

func (g *gen) num() fl {
	switch g.n(5) {
	case 0:
		return fl(g.n(7) - 3)
	case 1:
		return fl(g.r.NormFloat64() * 2)
	case 2:
		if len(g.d.Floats) > 0 {
			return g.d.Floats[g.n(len(g.d.Floats))]
		}
		return 0
	case 3:
		return []fl{0, 1, -1, 2, 0.5, 3, -0.5}[g.n(7)]
	}
	return fl(g.r.Float64())
}

func (g *gen) ranges(sh []int) [][2]int {
	k := len(sh)
	if g.p(0.4) {
		k = g.n(len(sh) + 1)
	}
	if k == 0 && g.p(0.5) {
		return nil
	}
	r := make([][2]int, k)
	for i := range r {
		if g.p(0.25) {
			continue
		}
		a := g.n(sh[i])
		r[i] = [2]int{a, a + 1 + g.n(sh[i]-a)}
	}
	return r
}

// partner gives a shape that broadcasts with sh.
func (g *gen) partner(sh []int) []int {
	r := append([]int{}, sh...)
	for i := range r {
		if g.p(0.3) {
			r[i] = 1
		} else if r[i] == 1 && g.p(0.5) {
			r[i] = g.size(5)
		}
	}
	if g.p(0.4) {
		r = r[g.n(len(r)+1):]
	} else if g.p(0.2) && len(r) < 5 {
		r = append([]int{g.size(3)}, r...)
	}
	return r
}

var allUnary = []string{"Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh"}
var allArith = []string{"Add", "Sub", "Mul", "Div"}
var allCmp = []string{"Eq", "Ne", "Gt", "Ge", "Lt", "Le"}
var allRed = []string{"SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong"}
var allMove = []string{"Slice", "Patch", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast", "Concat"}
var allEl = []string{"ElMax", "ElMin"}
var allLin = []string{"Dot", "MatMul"}

func cat(v ...[]string) []string {
	var r []string
	for _, x := range v {
		r = append(r, x...)
	}
	return r
}

var diffOps = cat(allUnary, allArith, allRed, allMove, allEl, allLin)

func factorShape(g *gen, n int) []int {
	var sh []int
	for n > 1 {
		var ds []int
		for d := 2; d <= n; d++ {
			if n%d == 0 {
				ds = append(ds, d)
			}
		}
		d := ds[g.n(len(ds))]
		sh = append(sh, d)
		n /= d
	}
	for len(sh) < 5 && g.p(0.3) {
		i := g.n(len(sh) + 1)
		sh = append(sh[:i], append([]int{1}, sh[i:]...)...)
	}
	return sh
}

// op adds a valid application of op; operand: mk(shape) supplies an operand node of a shape.
func (g *gen) op(op string, mk func(sh []int) int, x int) int {
	fresh := x < 0
	if fresh {
		lo := 0
		switch op {
		case "Transpose", "MatMul":
			lo = 2
		case "Flatten", "Dot", "Concat", "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong", "Squeeze":
			lo = 1
		}
		sh := g.shape(lo, 5)
		if op == "Squeeze" {
			sh[g.n(len(sh))] = 1
		}
		x = mk(sh)
	}
	if x < 0 || g.ref.n[x].a == nil {
		return -1
	}
	sh := g.ref.n[x].a.sh
	s := Step{Op: op, In: []int{x}}
	swap := func(y int) {
		s.In = []int{x, y}
		if y >= 0 && g.p(0.5) {
			s.In = []int{y, x}
		}
	}
	switch op {
	case "Scale":
		s.F = g.num()
	case "Pow":
		s.F = []fl{0, 1, 2, 3, 4, -1, -2, -3, 0.5, 1.5, -0.5, 2.5}[g.n(12)]
		if g.p(0.15) {
			s.F = g.num()
		}
	case "Slice":
		s.R = g.ranges(sh)
	case "Patch":
		s.R = g.ranges(sh)
		ps := make([]int, len(sh))
		for i, d := range sh {
			ps[i] = 1 + g.n(d)
			if i < len(s.R) && s.R[i] != [2]int{} {
				ps[i] = s.R[i][1] - s.R[i][0]
			}
		}
		y := mk(ps)
		if y < 0 {
			return -1
		}
		s.In = []int{x, y}
	case "Reshape":
		s.D = factorShape(g, prod(sh))
	case "UnSqueeze":
		s.D = []int{g.n(len(sh) + 1)}
	case "Squeeze":
		var c []int
		for i, d := range sh {
			if d == 1 {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return -1
		}
		s.D = []int{c[g.n(len(c))]}
	case "Flatten", "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong":
		if len(sh) == 0 {
			return -1
		}
		s.D = []int{g.n(len(sh))}
	case "Broadcast":
		t := append([]int{}, sh...)
		for i := range t {
			if t[i] == 1 && g.p(0.7) {
				t[i] = g.size(5)
			}
		}
		for len(t) < 5 && g.p(0.4) {
			t = append([]int{g.size(3)}, t...)
		}
		if prod(t) > 4000 {
			return -1
		}
		s.D = t
	case "Concat":
		if len(sh) == 0 {
			return -1
		}
		d := g.n(len(sh))
		k := 1 + g.n(3)
		if g.p(0.05) {
			k = 4 + g.n(6)
		}
		s.D = []int{d}
		for i := 0; i < k; i++ {
			if g.p(0.2) {
				s.In = append(s.In, x)
				continue
			}
			t := append([]int{}, sh...)
			t[d] = g.size(6)
			y := mk(t)
			if y < 0 {
				return -1
			}
			s.In = append(s.In, y)
		}
		g.r.Shuffle(len(s.In), func(i, j int) { s.In[i], s.In[j] = s.In[j], s.In[i] })
	case "ElMax", "ElMin", "Eq", "Ne", "Gt", "Ge", "Lt", "Le", "Equals":
		swap(mk(sh))
	case "Add", "Sub", "Mul", "Div":
		t := sh
		if g.p(0.6) {
			t = g.partner(sh)
		}
		swap(mk(t))
	case "Dot":
		if len(sh) == 0 {
			return -1
		}
		b := g.partner(sh[:len(sh)-1])
		swap(mk(append(append([]int{}, b...), sh[len(sh)-1])))
	case "MatMul":
		if len(sh) < 2 {
			return -1
		}
		n := len(sh)
		b := g.partner(sh[:n-2])
		if g.p(0.5) {
			y := mk(append(append([]int{}, b...), sh[n-1], g.size(5)))
			s.In = []int{x, y}
		} else {
			y := mk(append(append([]int{}, b...), g.size(5), sh[n-2]))
			s.In = []int{y, x}
		}
	case "relu", "sigmoid", "tanh", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh":
	case "leaky":
		s.F = []fl{0.01, 0.5, 2, -1, 0, 1, 0.3}[g.n(7)]
		if g.p(0.2) {
			s.Conf, s.F = 1, 0
		}
	case "softmax":
		if len(sh) == 0 {
			return -1
		}
		s.D = []int{g.n(len(sh))}
		if g.p(0.1) {
			s.Conf, s.D = 1, nil
		}
	case "mse", "bce", "ce":
		swapNo := mk(sh)
		s.In = []int{x, swapNo}
		s.Obj = g.obj()
	case "fc":
		if len(sh) != 2 {
			return -1
		}
		o := g.size(6)
		s.In = []int{x, mk([]int{o}), mk([]int{o})}
		s.Obj = g.obj()
		if g.p(0.4) {
			s.Conf = 5
		}
	case "Transpose":
		if len(sh) < 2 {
			return -1
		}
	}
	switch s.Op {
	case "relu", "leaky", "sigmoid", "tanh", "softmax":
		s.Obj = g.obj()
	}
	for _, i := range s.In {
		if i < 0 {
			return -1
		}
	}
	if s.Op == "Add" || s.Op == "Sub" || s.Op == "Mul" || s.Op == "Div" || s.Op == "MatMul" || s.Op == "Dot" {
		t := 1
		for _, i := range s.In {
			t *= len(g.ref.n[i].a.v)
		}
		if t > 200000 {
			return -1
		}
	}
	i := g.add(s)
	if i >= 0 && g.ref.n[i].a == nil {
		g.st = g.st[:i]
		g.ref.n = g.ref.n[:i]
		return -1
	}
	return i
}

// obj: a component of its own, or one that serves other steps as well.
func (g *gen) obj() int {
	if g.p(0.4) {
		return 1 + g.n(2)
	}
	return 0
}

// weighted multiplies node y by a constant tensor of its shape.
func (g *gen) weighted(y int) int {
	if g.p(0.1) {
		return y
	}
	sv := g.vs
	g.vs = []int{0, 4, 7}[g.n(3)]
	w := g.leaf(g.ref.n[y].a.sh, false)
	g.vs = sv
	return g.add(Step{Op: "Mul", In: []int{y, w}})
}

func (g *gen) done(kind string) *Case {
	return &Case{Prop: g.prop, Kind: kind, Steps: g.st}
}

func (g *gen) finiteSoFar() bool {
	for i := range g.ref.n {
		if a := g.ref.n[i].a; a != nil {
			for _, x := range a.v {
				if !finite(x) || math.Abs(x) > 1e6 {
					return false
				}
			}
		}
	}
	return true
}

// ---- generators per property ----

func genSingle(g *gen, ops []string) *Case {
	op := g.choose(ops)
	if op == "Log" {
		g.vs = 4
	}
	any := false
	mk := func(sh []int) int {
		tr := g.p(0.75)
		any = any || tr
		i := g.leaf(sh, tr)
		if tr && i >= 0 && g.p(0.15) {
			return g.add(Step{Op: "Scale", In: []int{i}, F: 2})
		}
		return i
	}
	y := g.op(op, mk, -1)
	if y < 0 || !any {
		return nil
	}
	r := g.weighted(y)
	if r >= 0 && g.p(0.3) {
		r = g.also(r, g.st[y].In)
	}
	if r < 0 || g.add(Step{Op: "backprop", In: []int{r}}) < 0 {
		return nil
	}
	if g.big && len(g.ref.n[y].a.v) > 30000 {
		return nil
	}
	return g.done("single")
}

// total adds up all elements of node i.
func (g *gen) total(i int) int {
	for i >= 0 && len(g.ref.n[i].a.sh) > 0 {
		i = g.add(Step{Op: "SumAlong", In: []int{i}, D: []int{g.n(len(g.ref.n[i].a.sh))}})
	}
	return i
}

// also gives operands of an operation whose result went into r another use.
func (g *gen) also(r int, in []int) int {
	for _, i := range g.r.Perm(len(in)) {
		x := in[i]
		if x < 0 || !g.ref.n[x].tracked || g.p(0.3) {
			continue
		}
		z := -1
		switch g.n(4) {
		case 0:
			z = g.add(Step{Op: "Mul", In: []int{x, x}})
		case 1:
			z = g.add(Step{Op: "Scale", In: []int{x}, F: g.num()})
		case 2:
			z = g.add(Step{Op: "Sin", In: []int{x}})
		case 3:
			z = g.weighted(x)
		}
		if z < 0 {
			continue
		}
		if !g.p(0.5) {
			z = g.total(z)
			r = g.total(r)
		}
		if r < 0 || z < 0 {
			return -1
		}
		op, a, b := "Add", r, z
		if g.p(0.3) {
			op = "Sub"
		}
		if g.p(0.5) {
			a, b = z, r
		}
		if t := g.add(Step{Op: op, In: []int{a, b}}); t >= 0 && g.ref.n[t].a != nil {
			r = t
		} else {
			return -1
		}
	}
	return r
}

func genDag(g *gen) *Case {
	g.big = false
	if g.vs == 6 {
		g.vs = 0
	}
	for k := 1 + g.n(3); k > 0; k-- {
		g.leaf(g.shape(0, 3), g.p(0.85))
	}
	steps := 2 + g.n(9)
	var lastInter []int
	graphs := 1
	if g.p(0.3) {
		graphs = 2
	}
	var roots []int
	leaves := len(g.st)
	for q := 0; q < graphs; q++ {
		lastInter = nil
		for k := 0; k < steps; k++ {
			cand := func() int {
				if len(lastInter) > 0 && g.p(0.75) {
					return lastInter[len(lastInter)-1-g.n(1+g.n(len(lastInter)))]
				}
				return g.n(leaves)
			}
			mk := func(sh []int) int {
				// reuse an existing node of that shape when there is one
				var c []int
				for i := range g.ref.n {
					if a := g.ref.n[i].a; a != nil && eqInts(a.sh, sh) && (i < leaves || contains(lastInter, i)) {
						c = append(c, i)
					}
				}
				if len(c) > 0 && g.p(0.8) {
					return c[g.n(len(c))]
				}
				return g.leaf(sh, g.p(0.5))
			}
			op := g.choose(diffOps)
			if g.p(0.3) {
				op = []string{"Add", "Mul", "Sub", "Scale", "Sin", "Tanh"}[g.n(6)]
			}
			x := cand()
			if op == "Log" || op == "Pow" || op == "Div" {
				ok := true
				for _, v := range g.ref.n[x].a.v {
					ok = ok && v > 0.05
				}
				if !ok {
					continue
				}
			}
			i := g.op(op, mk, x)
			if i < 0 {
				continue
			}
			if !g.finiteSoFar() || prod(g.ref.n[i].a.sh) > 300 {
				g.st, g.ref.n = g.st[:i], g.ref.n[:i]
				continue
			}
			lastInter = append(lastInter, i)
		}
		if len(lastInter) == 0 {
			return nil
		}
		roots = append(roots, lastInter[len(lastInter)-1])
	}
	n := 0
	for _, r := range roots {
		if !g.ref.n[r].tracked {
			continue
		}
		if g.add(Step{Op: "backprop", In: []int{r}}) >= 0 {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	return g.done("dag")
}

func contains(v []int, x int) bool {
	for _, y := range v {
		if y == x {
			return true
		}
	}
	return false
}

// genForward: values and shapes of forward operations (C03..C06).
func genForward(g *gen, ops []string, queries []string) *Case {
	mk := func(sh []int) int {
		if len(g.ref.n) > 0 && g.p(0.1) {
			for i := range g.ref.n {
				if a := g.ref.n[i].a; a != nil && eqInts(a.sh, sh) {
					return i
				}
			}
		}
		return g.leaf(sh, g.p(0.3))
	}
	if len(queries) > 0 && g.p(0.3) {
		x := mk(g.shape(0, 5))
		a := g.ref.n[x].a
		switch q := g.choose(queries); q {
		case "Equals":
			y := mk(a.sh)
			if g.p(0.7) {
				d := fls(a.v)
				if g.p(0.6) && len(d) > 0 {
					d[g.n(len(d))] += []fl{1, 1e-9, -1e-3, 5}[g.n(4)]
				}
				y = g.add(Step{Op: "leaf", D: a.sh, Data: d})
			}
			g.add(Step{Op: q, In: []int{x, y}})
		case "At":
			ix := make([]int, len(a.sh))
			for i := range ix {
				ix[i] = g.n(a.sh[i])
			}
			g.add(Step{Op: q, In: []int{x}, D: ix})
		case "cons":
			sh := g.shape(0, 5)
			s := Step{Op: []string{"Full", "Zeros", "Ones", "Eye", "TensorOf"}[g.n(5)], D: sh, F: g.num(), Track: g.p(0.5), Conf: g.n(2)}
			if s.Op == "Eye" {
				s.D = []int{1 + g.n(6)}
				if g.big {
					s.D = []int{g.size(70)}
					if k := g.anInt(); k > 0 && g.p(0.2) {
						// about as many elements as a number the code mentions
						s.D[0] = int(math.Sqrt(float64(k))) + g.n(4)
						if s.D[0] > 420 {
							s.D[0] = 200 + g.n(120)
						}
					}
				}
			}
			if s.Op == "TensorOf" {
				if len(sh) > 4 {
					sh = sh[:4]
				}
				s.Nest, s.D = mkNest(sh, unfl(g.vals(prod(sh)))), nil
			}
			g.add(s)
		default:
			g.add(Step{Op: q, In: []int{x}})
		}
		return g.done("forward")
	}
	op := g.choose(ops)
	if (op == "Exp" || op == "Sinh" || op == "Cosh" || op == "Pow") && g.p(0.1) {
		g.vs = 6
	}
	y := g.op(op, mk, -1)
	if y < 0 {
		return nil
	}
	for k := g.n(3); k > 0; k-- {
		z := g.op(ops[g.n(len(ops))], mk, y)
		if z >= 0 {
			y = z
		}
	}
	if !g.finiteSoFar() && len(g.st) > 3 {
		return nil
	}
	return g.done("forward")
}

// genState: histories over tracking, back-propagation and resets (C08).
func genState(g *gen) *Case {
	g.big = false
	g.vs = []int{0, 4, 7}[g.n(3)]
	n := 5 + g.n(14)
	pickT := func() int {
		for k := 0; k < 20; k++ {
			i := g.n(len(g.st))
			if g.ref.n[i].a != nil {
				return i
			}
		}
		return -1
	}
	sh := g.shape(0, 2)
	g.leaf(sh, true)
	g.leaf(sh, g.p(0.5))
	mk := func(s []int) int {
		var c []int
		for i := range g.ref.n {
			if a := g.ref.n[i].a; a != nil && eqInts(a.sh, s) {
				c = append(c, i)
			}
		}
		if len(c) > 0 && g.p(0.85) {
			return c[g.n(len(c))]
		}
		return g.leaf(s, g.p(0.5))
	}
	for k := 0; k < n; k++ {
		x := pickT()
		if x < 0 {
			continue
		}
		switch g.n(10) {
		case 0, 1:
			g.add(Step{Op: "backprop", In: []int{x}})
		case 2:
			g.add(Step{Op: "reset", In: []int{x}, Track: g.p(0.7)})
		case 3:
			g.op(allCmp[g.n(6)], mk, x)
		case 4:
			if g.p(0.4) {
				g.add(Step{Op: "grad", In: []int{x}})
			} else {
				g.leaf(sh, g.p(0.6))
			}
		default:
			op := cat(diffOps, []string{"relu", "sigmoid", "tanh", "leaky", "softmax"})[g.n(len(diffOps)+5)]
			i := g.op(op, mk, x)
			if i >= 0 && (prod(g.ref.n[i].a.sh) > 60) {
				g.st, g.ref.n = g.st[:i], g.ref.n[:i]
			}
		}
		if g.p(0.1) {
			g.st = append(g.st, Step{Op: "gradcheck"})
			g.ref.n = append(g.ref.n, rnode{s: &Step{Op: "gradcheck"}})
		}
	}
	// probe what is tracked
	for _, i := range g.r.Perm(len(g.st)) {
		if i >= len(g.ref.n) || g.ref.n[i].a == nil || g.ref.n[i].tamb {
			continue
		}
		if g.p(0.5) {
			y := g.add(Step{Op: "Scale", In: []int{i}, F: 1})
			if y >= 0 {
				g.add(Step{Op: "backprop", In: []int{y}})
			}
		}
	}
	return g.done("state")
}

// genArgs: arbitrary arguments, valid or not (C09).
func genArgs(g *gen) *Case {
	if g.p(0.8) {
		g.big = false
	}
	wild := func() int {
		return []int{-1, 0, 1, 2, 3, 4, 5, 7, -2, -100, 100, math.MaxInt, math.MinInt, math.MaxInt / 2, 1 << 32}[g.n(15)]
	}
	smallWild := func() int { return []int{-1, 0, 1, 2, 3, 4, 5, -7}[g.n(8)] }
	lf := func() int {
		return g.leaf(g.shape(0, 4), g.p(0.3))
	}
	operand := func() int {
		switch g.n(12) {
		case 0:
			return -1
		case 1:
			return -2
		}
		return lf()
	}
	// an operand whose shape is near that of x
	near := func(x int) int {
		if g.p(0.12) {
			return operand()
		}
		sh := append([]int{}, g.ref.n[x].a.sh...)
		switch g.n(5) {
		case 0:
			if len(sh) > 0 {
				sh[g.n(len(sh))] += g.n(3)
			}
		case 1:
			sh = g.partner(sh)
		case 2:
			if len(sh) > 0 {
				sh = sh[1:]
			}
		case 3:
			if len(sh) > 1 {
				i := g.n(len(sh) - 1)
				sh[i], sh[i+1] = sh[i+1], sh[i]
			}
		}
		if prod(sh) > 400 {
			return -1
		}
		return g.leaf(sh, g.p(0.3))
	}
	switch g.n(5) {
	case 0: // constructors
		s := Step{Op: []string{"Full", "Zeros", "Ones", "Eye", "RandU", "RandN", "TensorOf"}[g.n(7)], Track: g.p(0.5), F: g.num(), G: g.num()}
		s.Conf = []int{0, 0, 0, 1, 2, -1, 77}[g.n(7)]
		if g.p(0.2) {
			s.F, s.G = fl(math.NaN()), 1
		}
		if g.p(0.1) {
			s.F, s.G = 1, fl(math.NaN())
		}
		for k := g.n(5); k > 0; k-- {
			s.D = append(s.D, smallWild())
		}
		if g.p(0.4) {
			s.D = g.shape(0, 5)
		}
		if len(s.D) == 0 {
			s.NilD = g.p(0.5)
		}
		if s.Op == "Eye" {
			s.D = []int{smallWild()}
			if g.p(0.2) {
				s.D = []int{-g.n(100)}
			}
		}
		if s.Op == "TensorOf" {
			s.Nest, s.D = g.nest(), nil
			s.NilD = true
		}
		g.add(s)
	case 1: // dims / index arguments
		x := lf()
		rk := len(g.ref.n[x].a.sh)
		op := g.choose([]string{"At", "Slice", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast", "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong", "softmax"})
		s := Step{Op: op, In: []int{x}}
		dim := func() int {
			if g.p(0.3) {
				return wild()
			}
			return g.n(rk+3) - 1
		}
		switch op {
		case "At":
			for k := rk + []int{0, 0, 0, 1, -1}[g.n(5)]; k > 0; k-- {
				s.D = append(s.D, dim())
			}
			if g.p(0.3) {
				s.D = nil
				for _, d := range g.ref.n[x].a.sh {
					s.D = append(s.D, []int{d, d - 1, 0, -1, -d}[g.n(5)])
				}
			}
		case "Slice":
			s.R = g.wildRanges(g.ref.n[x].a.sh)
		case "Reshape", "Broadcast":
			switch g.n(4) {
			case 0:
				for k := g.n(5); k > 0; k-- {
					s.D = append(s.D, wild())
				}
			case 1:
				s.D = factorShape(g, prod(g.ref.n[x].a.sh))
				if len(s.D) > 1 && g.p(0.5) {
					i, j := g.n(len(s.D)), g.n(len(s.D))
					s.D[i], s.D[j] = -s.D[i], -s.D[j]
				}
			case 2:
				s.D = append([]int{}, g.ref.n[x].a.sh...)
				if len(s.D) > 0 {
					s.D[g.n(len(s.D))] += g.n(3) - 1
				}
				if g.p(0.3) {
					s.D = append([]int{smallWild()}, s.D...)
				}
			case 3:
				for k := g.n(5); k > 0; k-- {
					s.D = append(s.D, smallWild())
				}
			}
			if op == "Broadcast" {
				p := 1
				for _, d := range s.D {
					if d > 100 {
						return nil
					}
					if d > 0 {
						p *= d
					}
				}
				if p > 5000 {
					return nil
				}
			}
			if len(s.D) == 0 {
				s.NilD = g.p(0.5)
			}
		default:
			s.D = []int{dim()}
		}
		g.add(s)
	case 2: // binary operations
		op := g.choose(cat(allArith, allCmp, allEl, allLin, []string{"Equals", "mse", "bce", "ce"}))
		x := lf()
		if op == "MatMul" && g.p(0.7) {
			x = g.leaf(g.shape(2, 4), false)
		}
		if (op == "mse" || op == "bce") && g.p(0.6) {
			x = g.leaf(g.shape(1, 1), false)
		}
		if op == "ce" && g.p(0.6) {
			x = g.leaf(g.shape(2, 2), false)
		}
		y := near(x)
		in := []int{x, y}
		if op == "mse" || op == "bce" || op == "ce" {
			if g.p(0.1) {
				in[0] = operand()
			}
		}
		g.add(Step{Op: op, In: in})
	case 3: // Patch, Concat, Transpose, backprop, sgd, fc
		x := lf()
		switch g.n(6) {
		case 0:
			y := near(x)
			s := Step{Op: "Patch", In: []int{x, y}, R: g.wildRanges(g.ref.n[x].a.sh)}
			if y >= 0 && g.p(0.5) {
				// ranges that cover the source
				s.R = nil
				p := g.ref.n[y].a.sh
				for i := range g.ref.n[x].a.sh {
					if i < len(p) {
						a := g.n(3) - g.n(2)
						s.R = append(s.R, [2]int{a, a + p[i]})
					}
				}
			}
			g.add(s)
		case 1:
			s := Step{Op: "Concat", D: []int{g.n(6) - 1}}
			if g.p(0.7) && len(g.ref.n[x].a.sh) > 0 {
				s.D[0] = g.n(len(g.ref.n[x].a.sh))
			}
			for k := g.n(4); k > 0; k-- {
				s.In = append(s.In, near(x))
			}
			if g.p(0.8) {
				s.In = append(s.In, x)
			}
			g.add(s)
		case 2:
			g.add(Step{Op: "Transpose", In: []int{x}})
		case 3:
			g.add(Step{Op: "backprop", In: []int{operand()}})
		case 4:
			if g.p(0.3) {
				x = -1
			} else if g.p(0.3) {
				g.add(Step{Op: "reset", In: []int{x}, Track: true})
				g.add(Step{Op: "backprop", In: []int{x}})
			}
			g.add(Step{Op: "sgd", In: []int{x}, F: g.num()})
		case 5:
			in := []int{g.leaf(g.shape(1, 3), g.p(0.5)), 0, 0}
			o := g.size(4)
			in[1], in[2] = g.leaf([]int{o}, true), g.leaf([]int{o}, true)
			for k := range in {
				if g.p(0.1) {
					in[k] = -1
				}
			}
			g.add(Step{Op: "fc", In: in})
		}
	case 4: // activations with any number of inputs
		s := Step{Op: []string{"relu", "leaky", "sigmoid", "tanh", "softmax"}[g.n(5)], F: g.num(), D: []int{g.n(5) - 1}, Conf: g.n(2)}
		for k := []int{0, 1, 1, 1, 2, 3}[g.n(6)]; k > 0; k-- {
			s.In = append(s.In, operand())
		}
		g.add(s)
	}
	if len(g.st) == 0 {
		return nil
	}
	// a back-propagation after an accepted call never fails
	if l := len(g.st) - 1; g.ref.n[l].a != nil && g.p(0.3) && g.st[l].Op != "RandU" && g.st[l].Op != "RandN" {
		g.add(Step{Op: "backprop", In: []int{l}})
	}
	return g.done("args")
}

func (g *gen) wildRanges(sh []int) [][2]int {
	if g.p(0.1) {
		return nil
	}
	r := g.ranges(sh)
	if g.p(0.3) {
		return r
	}
	for k := g.n(3); k > 0; k-- {
		if len(r) == 0 {
			r = append(r, [2]int{g.n(3), g.n(3)})
			continue
		}
		i := g.n(len(r))
		d := 1
		if i < len(sh) {
			d = sh[i]
		}
		r[i] = [][2]int{{0, d + 1}, {d, d}, {d, d + 1}, {-1, d}, {-1, 0}, {1, 0}, {2, 1}, {d, 0}, {0, -1}, {1, 1},
			{math.MinInt, math.MaxInt}, {math.MinInt, 1}, {0, math.MaxInt}, {-1, -1}, {0, d}, {d - 1, d}, {math.MaxInt, math.MinInt}}[g.n(17)]
	}
	if g.p(0.1) {
		for len(r) <= len(sh) {
			r = append(r, [2]int{})
		}
	}
	return r
}

func (g *gen) nest() *Nest {
	k := g.n(5)
	sh := make([]int, k)
	for i := range sh {
		sh[i] = 1 + g.n(3)
	}
	n := mkNest(sh, unfl(g.vals(prod(sh))))
	for q := g.n(3); q > 0 && k > 0; q-- { // break something
		m := n
		for m.K > 1 && len(m.S) > 0 && g.p(0.7) {
			m = &m.S[g.n(len(m.S))]
		}
		if m.K == 0 {
			continue
		}
		switch g.n(4) {
		case 0:
			m.S = nil
		case 1:
			if len(m.S) > 0 {
				m.S = m.S[:len(m.S)-1]
			}
		case 2:
			if len(m.S) > 0 {
				m.S = append(m.S, m.S[0])
			}
		case 3:
			m.S, m.Nil = nil, true
		}
	}
	return n
}

var lossEdge = []float64{0, 1, -0.5, 1.5, 1e-13, 1 - 1e-13, 0.5, 0.25, 1e-9, 1 - 1e-9, 2, -3, 1e-12, 5e-13, 0.999999}

func (g *gen) lossVals(n int, target bool) []fl {
	v := make([]fl, n)
	st := g.n(3)
	for i := range v {
		switch {
		case st == 0 || g.p(0.3):
			v[i] = fl(lossEdge[g.n(len(lossEdge))])
		case st == 1 && target:
			v[i] = fl(g.n(2))
		default:
			v[i] = fl(g.r.Float64())
		}
		if g.p(0.02) && len(g.d.Floats) > 0 {
			v[i] = g.d.Floats[g.n(len(g.d.Floats))]
		}
	}
	return v
}

func genLoss(g *gen, grad bool) *Case {
	op := g.choose([]string{"mse", "bce", "ce"})
	rk := 1
	if op == "ce" {
		rk = 2
	}
	sh := g.shape(rk, rk)
	n := prod(sh)
	leaf := func(target, tr bool) int {
		d := g.lossVals(n, target)
		if op == "mse" {
			d = g.vals(n)
		}
		return g.add(Step{Op: "leaf", D: sh, Data: d, Track: tr})
	}
	p := leaf(false, grad || g.p(0.5))
	if grad && g.p(0.5) { // output of earlier tracked operations
		switch g.n(4) {
		case 0:
			p = g.add(Step{Op: "Scale", In: []int{p}, F: 1})
		case 1:
			p = g.add(Step{Op: "sigmoid", In: []int{p}})
		case 2:
			if rk == 2 {
				p = g.add(Step{Op: "softmax", In: []int{p}, D: []int{1}})
			}
		case 3:
			q := g.add(Step{Op: "Reshape", In: []int{p}, D: append([]int{1}, sh...)})
			p = g.add(Step{Op: "Squeeze", In: []int{q}, D: []int{0}})
		}
	}
	t := leaf(true, g.p(0.3))
	obj := g.obj()
	if obj > 0 { // the loss object has served before
		old := sh
		if g.p(0.5) {
			sh = g.shape(rk, rk)
			n = prod(sh)
		}
		q, u := leaf(false, g.p(0.5)), leaf(true, g.p(0.2))
		if g.p(0.3) && eqInts(sh, old) {
			u = t
		}
		l := g.add(Step{Op: op, In: []int{q, u}, Obj: obj})
		if l >= 0 && grad && g.ref.n[l].tracked && g.p(0.5) {
			g.add(Step{Op: "backprop", In: []int{l}})
		}
		sh = old
		n = prod(sh)
	}
	l := g.add(Step{Op: op, In: []int{p, t}, Obj: obj})
	if l < 0 {
		return nil
	}
	if grad {
		if g.p(0.2) {
			l = g.add(Step{Op: "Scale", In: []int{l}, F: g.num()})
		}
		if g.add(Step{Op: "backprop", In: []int{l}}) < 0 {
			return nil
		}
	}
	return g.done("single")
}

func genAct(g *gen, grad bool) *Case {
	if g.p(0.3) {
		g.vs = 6
	}
	lo := 0
	op := g.choose([]string{"relu", "leaky", "sigmoid", "tanh", "softmax"})
	if op == "softmax" {
		lo = 1
	}
	sh := g.shape(lo, 5)
	d := g.vals(prod(sh))
	for i := range d {
		if g.p(0.05) {
			d[i] = fl([]float64{0, 700, -700, 350, -350, 40, -40, 20, 1e-8, -1e-8, 690}[g.n(11)])
		}
		if op != "softmax" && g.p(0.02) {
			d[i] = fl([]float64{1e5, -1e5, 1e300, -1e300, 745, -745, 710, -710}[g.n(8)])
		}
		if op == "softmax" && math.Abs(float64(d[i])) > 700 {
			d[i] = 3
		}
	}
	x := g.add(Step{Op: "leaf", D: sh, Data: d, Track: grad || g.p(0.5)})
	if grad && g.p(0.4) {
		if g.p(0.5) {
			x = g.add(Step{Op: "Scale", In: []int{x}, F: []fl{1, -1, 0.5}[g.n(3)]})
		} else {
			x = g.add(Step{Op: "UnSqueeze", In: []int{x}, D: []int{0}})
		}
	}
	y := g.op(op, nil, x)
	if y < 0 {
		return nil
	}
	if g.st[y].Obj > 0 { // the activation serves another input as well
		sh2 := sh
		if g.p(0.5) {
			sh2 = g.shape(len(sh), len(sh))
		}
		s := g.st[y]
		x2 := g.add(Step{Op: "leaf", D: sh2, Data: g.vals(prod(sh2)), Track: g.p(0.7)})
		if op == "softmax" || g.vs != 6 {
			s.In = []int{x2}
			if y2 := g.add(s); y2 >= 0 && g.p(0.4) && g.ref.n[y2].tracked {
				g.add(Step{Op: "backprop", In: []int{y2}})
			}
		}
	}
	if grad {
		r := g.weighted(y)
		if r < 0 || g.add(Step{Op: "backprop", In: []int{r}}) < 0 {
			return nil
		}
	}
	return g.done("single")
}

func genFC(g *gen) *Case {
	mk := func(sh []int) int { return g.leaf(sh, g.p(0.8)) }
	x := g.leaf(g.shape(2, 2), g.p(0.5))
	y := g.op("fc", mk, x)
	if y < 0 {
		return nil
	}
	if g.st[y].Obj > 0 { // the layer goes on with other parameters or inputs
		for k := 1 + g.n(2); k > 0; k-- {
			s := g.st[y]
			in := append([]int{}, s.In...)
			if g.p(0.7) {
				xs := g.ref.n[in[0]].a.sh
				if g.p(0.5) {
					xs = g.shape(2, 2)
				}
				in[0] = g.leaf(xs, g.p(0.5))
			}
			for q := 1; q < 3; q++ {
				if g.p(0.6) {
					in[q] = g.leaf(g.ref.n[in[q]].a.sh, g.p(0.8))
				}
			}
			s.In = in
			if y2 := g.add(s); y2 >= 0 {
				if g.p(0.3) && g.ref.n[y].tracked {
					g.add(Step{Op: "backprop", In: []int{y}})
				}
				y = y2
			}
		}
	}
	r := g.weighted(y)
	if g.ref.n[r].tracked {
		g.add(Step{Op: "backprop", In: []int{r}})
	}
	return g.done("single")
}

func genSGD(g *gen) *Case {
	w := g.leaf(g.shape(0, 5), true)
	y := w
	if g.p(0.8) {
		c := g.leaf(g.ref.n[w].a.sh, false)
		y = g.add(Step{Op: "Mul", In: []int{w, c}})
	}
	if g.p(0.3) {
		z := g.add(Step{Op: "Sin", In: []int{w}})
		y = g.add(Step{Op: "Add", In: []int{y, z}})
	}
	if y < 0 {
		return nil
	}
	lr := g.num()
	if g.p(0.3) {
		lr = []fl{0.01, 0.1, 1, 0, -1, 1e-6, 100}[g.n(7)]
	}
	obj := g.obj()
	if g.p(0.15) { // no gradient yet
		g.add(Step{Op: "sgd", In: []int{w}, F: lr, Obj: obj})
	}
	if g.add(Step{Op: "backprop", In: []int{y}}) < 0 {
		return nil
	}
	u := g.add(Step{Op: "sgd", In: []int{w}, F: lr, Obj: obj})
	if u < 0 {
		return nil
	}
	if g.p(0.3) {
		g.add(Step{Op: "sgd", In: []int{u}, F: lr, Obj: obj}) // omitted reset: rejected
		g.add(Step{Op: "sgd", In: []int{w}, F: lr, Obj: obj}) // the old tensor and its gradient are unchanged
	}
	for k := g.n(4); obj > 0 && k > 0; k-- { // the optimizer goes on
		switch g.n(3) {
		case 0:
			g.add(Step{Op: "sgd", In: []int{w}, F: lr, Obj: obj})
		case 1: // another tensor
			v := g.leaf(g.shape(0, 3), true)
			if z := g.weighted(v); z >= 0 && g.add(Step{Op: "backprop", In: []int{z}}) >= 0 {
				g.add(Step{Op: "sgd", In: []int{v}, F: lr, Obj: obj})
				if g.p(0.3) {
					w = v
				}
			}
		case 2: // the next step of training
			if u < 0 || g.ref.n[u].a == nil {
				continue
			}
			g.add(Step{Op: "reset", In: []int{u}, Track: true})
			if z := g.weighted(u); z >= 0 && g.add(Step{Op: "backprop", In: []int{z}}) >= 0 {
				w, u = u, g.add(Step{Op: "sgd", In: []int{u}, F: lr, Obj: obj})
			}
		}
	}
	return g.done("single")
}
