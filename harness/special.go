package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// runCase judges one case.
func runCase(c *Case) (fail, known string) {
	defer func() {
		if r := recover(); r != nil {
			fail = fmt.Sprintf("panic: %v", r)
		}
	}()
	switch c.Kind {
	case "mutate":
		return runMutate(c), ""
	case "train":
		return runTrain(c), ""
	case "kink":
		return runKink(c), ""
	case "large":
		return runLarge(c), ""
	case "deep":
		return runDeep(c), ""
	case "init":
		return runInit(c), ""
	case "acc":
		return runAcc(c), ""
	case "conc":
		return runConc(c), ""
	case "api":
		return runAPI(c), ""
	case "sgdnil":
		return runSGDNil(c), ""
	}
	return runHist(c)
}

// ---- C10: isolation ----

type snap struct {
	a, g *arr
	gt   tensor.Tensor
}

func sameBits(a, b *arr) bool {
	if a == nil || b == nil {
		return a == b
	}
	if !eqInts(a.sh, b.sh) {
		return false
	}
	for i := range a.v {
		if math.Float64bits(a.v[i]) != math.Float64bits(b.v[i]) && !(math.IsNaN(a.v[i]) && math.IsNaN(b.v[i])) {
			return false
		}
	}
	return true
}

func takeSnap(t tensor.Tensor) (s snap, err error) {
	if s.a, err = read(t); err != nil {
		return
	}
	if s.gt = t.Gradient(); s.gt != nil {
		s.g, err = read(s.gt)
	}
	return
}

// isoRun executes the steps (without the mutations when skip) and checks after every step that
// no tensor changed except in the ways the property allows.
func isoRun(c *Case, skip bool) (w *world, errs []string, fail string) {
	w = newWorld()
	snaps := map[int]snap{}
	type old struct {
		t tensor.Tensor
		a *arr
	}
	var grads []old
	for i := range c.Steps {
		s := &c.Steps[i]
		if s.Op == "mutate" && skip {
			w.t, w.args, errs = append(w.t, nil), append(w.args, callerArgs{}), append(errs, "")
			continue
		}
		ok := true
		for _, j := range s.In {
			if s.Op != "mutate" && j >= 0 && w.t[j] == nil {
				ok = false
			}
		}
		if !ok {
			w.t, w.args, errs = append(w.t, nil), append(w.args, callerArgs{}), append(errs, "skip")
			continue
		}
		o := w.do(s)
		e := ""
		if o.err != nil {
			e = "error"
		}
		if o.panic != nil {
			e = "panic"
		}
		if o.isQ {
			e += fmt.Sprint(o.q)
		}
		errs = append(errs, e)
		for j, t := range w.t[:i] {
			if t == nil {
				continue
			}
			b, had := snaps[j]
			n, err := takeSnap(t)
			if err != nil {
				return w, errs, fmt.Sprintf("after step %d (%s) node %d is unreadable: %v", i, s.Op, j, err)
			}
			if had && !sameBits(b.a, n.a) {
				return w, errs, fmt.Sprintf("step %d (%s) changed the elements or shape of node %d from %v %v to %v %v", i, s.Op, j, b.a.sh, b.a.v, n.a.sh, n.a.v)
			}
			if had && s.Op != "backprop" && !(s.Op == "reset" && s.In[0] == j) && !sameBits(b.g, n.g) {
				return w, errs, fmt.Sprintf("step %d (%s) changed the gradient of node %d", i, s.Op, j)
			}
			if n.gt != nil && (!had || n.gt != b.gt) {
				grads = append(grads, old{n.gt, n.g})
			}
			snaps[j] = n
		}
		for _, g := range grads {
			if a, err := read(g.t); err != nil || !sameBits(a, g.a) {
				return w, errs, fmt.Sprintf("step %d (%s) changed a gradient tensor obtained earlier", i, s.Op)
			}
		}
		if o.t != nil {
			n, err := takeSnap(o.t)
			if err != nil {
				return w, errs, ""
			}
			snaps[i] = n
		}
	}
	return w, errs, ""
}

func runMutate(c *Case) string {
	w1, e1, f := isoRun(c, false)
	if f != "" {
		return f
	}
	w2, e2, f := isoRun(c, true)
	if f != "" {
		return f
	}
	for i := range c.Steps {
		if c.Steps[i].Op == "mutate" {
			continue
		}
		if e1[i] != e2[i] {
			return fmt.Sprintf("mutating caller slices changed the outcome of step %d (%s): %q, without the mutation %q", i, c.Steps[i].Op, e1[i], e2[i])
		}
		if (w1.t[i] == nil) != (w2.t[i] == nil) {
			return fmt.Sprintf("mutating caller slices changed the outcome of step %d (%s)", i, c.Steps[i].Op)
		}
		if w1.t[i] == nil {
			continue
		}
		a, _ := takeSnap(w1.t[i])
		b, _ := takeSnap(w2.t[i])
		if !sameBits(a.a, b.a) {
			return fmt.Sprintf("mutating caller slices changed node %d (%s)", i, c.Steps[i].Op)
		}
		if !sameBits(a.g, b.g) {
			return fmt.Sprintf("mutating caller slices changed the gradient of node %d (%s)", i, c.Steps[i].Op)
		}
	}
	return ""
}

// withMutations inserts mutate (and Shape) steps.
func withMutations(g *gen, st []Step) []Step {
	var r []Step
	m := map[int]int{}
	var live []int
	for i, s := range st {
		var in []int
		for _, j := range s.In {
			if j >= 0 {
				j = m[j]
			}
			in = append(in, j)
		}
		s.In = in
		m[i] = len(r)
		r = append(r, s)
		live = append(live, len(r)-1)
		if g.p(0.1) && s.Op != "backprop" && s.Op != "reset" && s.Op != "grad" && s.Op != "At" && s.Op != "Equals" && s.Op[0] != 'q' && s.Op != "Shape" && s.Op != "NElems" && s.Op != "gradcheck" {
			r = append(r, Step{Op: "Shape", In: []int{len(r) - 1}})
			live = append(live, len(r)-1)
		}
		for g.p(0.6) && len(live) > 0 {
			k := live[g.n(len(live))]
			if g.p(0.5) {
				k = live[len(live)-1]
			}
			r = append(r, Step{Op: "mutate", In: []int{k}})
		}
	}
	return r
}

// ---- C15: the kink of Relu and LeakyRelu ----

func runKink(c *Case) string {
	w := newWorld()
	for i := range c.Steps {
		if o := w.do(&c.Steps[i]); o.panic != nil {
			return fmt.Sprintf("step %d (%s) panicked: %v", i, c.Steps[i].Op, o.panic)
		} else if o.err != nil {
			if c.Steps[i].Op == "backprop" {
				return fmt.Sprintf("BackPropagate failed: %v", o.err)
			}
			return ""
		}
	}
	g := w.t[0].Gradient()
	if g == nil {
		return "no gradient"
	}
	a, err := read(g)
	if err != nil {
		return err.Error()
	}
	m := 0.
	for i := range c.Steps {
		if c.Steps[i].Op == "leaky" {
			m = float64(c.Steps[i].F)
			if c.Steps[i].Conf == 1 {
				m = 0.01
			}
		}
	}
	for i, x := range c.Steps[0].Data {
		if x != 0 {
			continue
		}
		u := float64(c.Fs[i])
		lo, hi := math.Min(u, m*u), math.Max(u, m*u)
		if !(a.v[i] >= lo-1e-12 && a.v[i] <= hi+1e-12) {
			return fmt.Sprintf("gradient at 0 is %v, expected a value between %v and %v", a.v[i], lo, hi)
		}
	}
	return ""
}

func genKink(g *gen) *Case {
	sh := g.shape(0, 3)
	n := prod(sh)
	d := make([]fl, n)
	for i := range d {
		if g.p(0.4) {
			d[i] = fl(g.val())
		}
	}
	g.vs = 0
	wv := g.vals(n)
	x := g.add(Step{Op: "leaf", D: sh, Data: d, Track: true})
	y := g.op([]string{"relu", "leaky"}[g.n(2)], nil, x)
	w := g.add(Step{Op: "leaf", D: sh, Data: wv})
	z := g.add(Step{Op: "Mul", In: []int{y, w}})
	g.add(Step{Op: "backprop", In: []int{z}})
	c := g.done("kink")
	c.Fs = wv
	return c
}

// ---- C01: deep graphs with shared sub-expressions ----

var deepOps = []string{"Add", "Mul", "Sub", "Div", "ElMax", "ElMin", "MatMul", "Concat", "Patch", "Dot", "relu", "leaky"}

func runDeep(c *Case) string {
	depth := c.Ints[0]
	op := c.S
	x, err := tensor.TensorOf([][]float64{{1.25, 0.5}, {0.75, 1.5}}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	if err != nil {
		return ""
	}
	leaf := x
	y := x
	for i := 0; i < depth; i++ {
		var z tensor.Tensor
		switch op {
		case "Add":
			z, err = y.Add(y)
			if err == nil {
				z = z.Scale(0.5)
			}
		case "Sub":
			z, err = y.Scale(1.5).Sub(y.Scale(0.5))
		case "Mul":
			z, err = y.Mul(y)
			if err == nil {
				z = z.Scale(0.5)
			}
		case "Div":
			z, err = y.Div(y)
		case "ElMax":
			z, err = y.ElMax(y.Scale(0.5))
		case "ElMin":
			z, err = y.ElMin(y.Scale(0.5))
		case "MatMul":
			z, err = y.MatMul(y)
			if err == nil {
				z = z.Scale(0.25)
			}
		case "Concat":
			z, err = tensor.Concat([]tensor.Tensor{y, y}, 0)
			if err == nil {
				z, err = z.Slice([]tensor.Range{{From: 1, To: 3}})
			}
		case "Patch":
			z, err = y.Patch([]tensor.Range{{}, {}}, y.Scale(0.5))
			if err == nil {
				z, err = z.Add(y)
			}
			if err == nil {
				z = z.Scale(0.5)
			}
		case "Dot":
			z, err = y.Dot(y)
			if err == nil {
				z, err = z.Mul(y)
			}
			if err == nil {
				z = z.Scale(0.1)
			}
		case "relu":
			z, err = activations.NewRelu().Forward(y)
		case "leaky":
			z, err = activations.NewLeakyRelu(nil).Forward(y)
		}
		if err != nil {
			return ""
		}
		y = z
	}
	done := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Errorf("panic: %v", r)
			}
		}()
		done <- tensor.BackPropagate(y)
	}()
	select {
	case err := <-done:
		if err != nil {
			return fmt.Sprintf("BackPropagate over a chain of %d shared %s applications failed: %v", depth, op, err)
		}
	case <-time.After(25 * time.Second):
		return fmt.Sprintf("BackPropagate over a chain of %d shared %s applications did not finish in 25 s", depth, op)
	}
	if leaf.Gradient() == nil {
		return "the leaf of a deep chain has no gradient"
	}
	return ""
}

// ---- C01, C08: large graphs, with gradients known in closed form ----

var largeOps = []string{"chain", "fan", "sum", "concat", "pairs", "zigzag"}

// genLarge sizes a graph by a number occurring in the source.
func genLarge(g *gen) *Case {
	p := 0.002
	for _, o := range g.d.Ops {
		if o == "large" {
			p = 0.05
		}
	}
	if !g.p(p) {
		return nil
	}
	n := 1 + g.n(600)
	if g.p(0.6) {
		n = g.anInt() + g.n(4) - 1
	}
	if n < 1 || n > 3000 {
		return nil
	}
	return &Case{Prop: g.prop, Kind: "large", S: largeOps[g.n(len(largeOps))], Ints: []int{n}}
}

func runLarge(c *Case) string {
	n := c.Ints[0]
	leafOf := func(v float64) tensor.Tensor {
		x, err := tensor.TensorOf([]float64{v, 2}, &tensor.Config{Device: tensor.CPU, GradTrack: true})
		if err != nil {
			return nil
		}
		return x
	}
	x := leafOf(1)
	if x == nil {
		return ""
	}
	leaves, want := []tensor.Tensor{x}, []float64{0}
	var all []tensor.Tensor
	var y tensor.Tensor
	var err error
	keep := func(t tensor.Tensor, e error) tensor.Tensor {
		if e != nil {
			err = e
			return t
		}
		all = append(all, t)
		return t
	}
	switch c.S {
	case "chain": // each a copy of the one before
		y = x
		for i := 0; i < n; i++ {
			y = keep(y.Scale([]float64{-1, 1}[i%2]), nil)
		}
		want[0] = []float64{1, -1, -1, 1}[n%4]
	case "fan": // one tensor used by many
		y = x
		want[0] = 1
		for i := 0; i < n && err == nil; i++ {
			z := keep(x.Scale(float64(i%5)), nil)
			y = keep(y.Add(z))
			want[0] += float64(i % 5)
		}
	case "sum": // many leaves, the first again at the end
		y = x
		want[0] = 1
		for i := 0; i < n && err == nil; i++ {
			l := leafOf(float64(i % 7))
			leaves, want = append(leaves, l), append(want, float64(i%3)-1)
			y = keep(y.Add(keep(l.Scale(float64(i%3)-1), nil)))
		}
		if err == nil {
			y = keep(y.Sub(x))
			want[0] = 0
		}
	case "concat": // an operation with many operands, some of them the same tensor
		var ts []tensor.Tensor
		for i := 0; i < n; i++ {
			if i%3 == 0 {
				ts = append(ts, x)
				want[0]++
				continue
			}
			l := leafOf(float64(i % 7))
			leaves, want = append(leaves, l), append(want, 1)
			ts = append(ts, l)
		}
		y = keep(tensor.Concat(ts, 0))
	case "pairs": // every tensor depends on the two before it
		a, b := x, keep(x.Scale(1), nil)
		da, db := 1., 1.
		for i := 0; i < n && err == nil; i++ {
			s := []float64{1, -1, 1, 0}[i%4]
			z := keep(a.Scale(s), nil)
			a, b = b, keep(b.Add(z))
			da, db = db, db+s*da
		}
		y, want[0] = b, db
	case "zigzag": // uses of the leaf all along a chain
		y = x
		d := 1.
		for i := 0; i < n && err == nil; i++ {
			z := keep(y.Scale(-1), nil)
			y = keep(z.Add(x))
			d = 1 - d
		}
		want[0] = d
	}
	if err != nil || y == nil {
		return ""
	}
	done := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Errorf("panic: %v", r)
			}
		}()
		done <- tensor.BackPropagate(y)
	}()
	what := fmt.Sprintf("a graph of kind %q with %d steps", c.S, n)
	select {
	case err := <-done:
		if err != nil {
			return fmt.Sprintf("BackPropagate over %s failed: %v", what, err)
		}
	case <-time.After(40 * time.Second):
		return fmt.Sprintf("BackPropagate over %s did not finish in 40 s", what)
	}
	for i, l := range leaves {
		gr := l.Gradient()
		if gr == nil {
			return fmt.Sprintf("leaf %d of %s has no gradient", i, what)
		}
		for k := 0; k < 2; k++ {
			v, err := gr.At(k)
			if err != nil || math.Abs(v-want[i]) > 1e-9*(1+math.Abs(want[i])) {
				return fmt.Sprintf("gradient of leaf %d of %s is %v (%v), not %v", i, what, v, err, want[i])
			}
		}
	}
	if c.Prop == "C08" {
		for i, t := range append(append([]tensor.Tensor(nil), leaves...), all...) {
			z := t.Scale(2)
			if tensor.BackPropagate(z); z.Gradient() != nil {
				return fmt.Sprintf("a tensor computed from tensor %d of %s, which back-propagation has spent, is tracked", i, what)
			}
		}
	}
	return ""
}

// ---- C11: training ----

func runTrain(c *Case) string {
	r := rand.New(rand.NewSource(c.Seed))
	nl, batch, loss, steps, omit := c.Ints[0], c.Ints[1], c.Ints[2], c.Ints[3], c.Ints[4]
	lr := float64(c.Fs[0])
	dims := c.Ints[5 : 5+nl+1]
	acts := c.Ints[5+nl+1 : 5+nl+1+nl]
	vals := func(n int, f func() float64) []float64 {
		v := make([]float64, n)
		for i := range v {
			v[i] = f()
		}
		return v
	}
	sm := func() float64 { return r.NormFloat64() * 0.5 }
	ref := &refw{}
	add := func(s Step) int {
		if ref.do(&s) != nil || ref.n[len(ref.n)-1].err {
			panic("harness: train reference: " + s.Op)
		}
		return len(ref.n) - 1
	}
	leaf := func(sh []int, v []float64, tr bool) (int, tensor.Tensor, error) {
		t, _, err := mkLeaf(sh, v, tr)
		return add(Step{Op: "leaf", D: sh, Data: fls(v), Track: tr}), t, err
	}
	var fcs []*layers.FC
	var wid, bid []int
	for l := 0; l < nl; l++ {
		fc, err := layers.NewFC(&layers.FCConfig{Inputs: dims[l], Outputs: dims[l+1]})
		if err != nil {
			return ""
		}
		iw, w, e1 := leaf([]int{dims[l+1]}, vals(dims[l+1], sm), true)
		ib, b, e2 := leaf([]int{dims[l+1]}, vals(dims[l+1], sm), true)
		if e1 != nil || e2 != nil {
			return ""
		}
		ws := fc.Weights()
		if len(ws) != 2 {
			return fmt.Sprintf("FC exposes %d weights", len(ws))
		}
		*ws[0].Value, *ws[1].Value = w, b
		fcs, wid, bid = append(fcs, fc), append(wid, iw), append(bid, ib)
	}
	opt := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr})
	for st := 0; st < steps; st++ {
		x0, t0 := vals(batch*dims[0], sm), []float64(nil)
		out := dims[nl]
		lossName := []string{"mse", "bce", "ce"}[loss]
		tsh := []int{batch * out}
		t0 = vals(batch*out, r.Float64)
		if loss == 2 {
			tsh = []int{batch, out}
			t0 = make([]float64, batch*out)
			for i := 0; i < batch; i++ {
				t0[i*out+r.Intn(out)] = 1
			}
		}
		ix, x, err1 := leaf([]int{batch, dims[0]}, x0, false)
		it, t, err2 := leaf(tsh, t0, false)
		if err1 != nil || err2 != nil {
			return ""
		}
		var err error
		in := &layers.Input{SeedFunc: func() tensor.Tensor { return x }}
		y, err := in.Forward()
		if err != nil {
			return fmt.Sprintf("step %d: Input.Forward: %v", st, err)
		}
		iy := ix
		for l := range fcs {
			if y, err = fcs[l].Forward(y); err != nil {
				return fmt.Sprintf("step %d: FC.Forward: %v", st, err)
			}
			iy = add(Step{Op: "fc", In: []int{iy, wid[l], bid[l]}})
			switch acts[l] {
			case 1:
				y, err = activations.NewRelu().Forward(y)
				iy = add(Step{Op: "relu", In: []int{iy}})
			case 2:
				y, err = activations.NewSigmoid().Forward(y)
				iy = add(Step{Op: "sigmoid", In: []int{iy}})
			case 3:
				y, err = activations.NewTanh().Forward(y)
				iy = add(Step{Op: "tanh", In: []int{iy}})
			case 4:
				var a *activations.Softmax
				if a, err = activations.NewSoftmax(&activations.SoftmaxConfig{Dim: 1}); err == nil {
					y, err = a.Forward(y)
				}
				iy = add(Step{Op: "softmax", In: []int{iy}, D: []int{1}})
			case 5:
				y, err = activations.NewLeakyRelu(&activations.LeakyReluConfig{M: 0.3}).Forward(y)
				iy = add(Step{Op: "leaky", In: []int{iy}, F: 0.3})
			}
			if err != nil {
				return fmt.Sprintf("step %d: activation: %v", st, err)
			}
		}
		var lv tensor.Tensor
		if loss != 2 {
			if y, err = y.Flatten(0); err != nil {
				return fmt.Sprintf("step %d: Flatten: %v", st, err)
			}
			iy = add(Step{Op: "Flatten", In: []int{iy}, D: []int{0}})
		}
		switch loss {
		case 0:
			lv, err = losses.NewMSE().Compute(y, t)
		case 1:
			lv, err = losses.NewBCE().Compute(y, t)
		case 2:
			lv, err = losses.NewCE().Compute(y, t)
		}
		if err != nil {
			return fmt.Sprintf("step %d: loss: %v", st, err)
		}
		il := add(Step{Op: lossName, In: []int{iy, it}})
		got, err := read(lv)
		if err != nil {
			return err.Error()
		}
		if d := cmpArr(got, ref.n[il].a, 1); d != "" {
			return fmt.Sprintf("loss at step %d: %s", st, d)
		}
		if err := tensor.BackPropagate(lv); err != nil {
			return fmt.Sprintf("step %d: BackPropagate: %v", st, err)
		}
		if ref.backprop(il) != nil {
			return ""
		}
		for i := range ref.n {
			// a diverging run amplifies rounding beyond comparison
			if a := ref.n[i].a; a != nil && !(a.maxAbs() < 60) {
				return ""
			}
			if g := ref.n[i].grad; g != nil && !(g.maxAbs() < 60) {
				return ""
			}
		}
		for l := range fcs {
			ws := fcs[l].Weights()
			for k, id := range []*int{&wid[l], &bid[l]} {
				before := *ws[k].Value
				err := opt.Update(ws[k].Value)
				if ref.n[*id].grad == nil { // spent: omitted reset
					if err == nil {
						return fmt.Sprintf("step %d: Update accepted a weight whose context was not reset", st)
					}
					if *ws[k].Value != before {
						return fmt.Sprintf("step %d: a rejected Update replaced the weight", st)
					}
					continue
				}
				if err != nil {
					return fmt.Sprintf("step %d: Update: %v", st, err)
				}
				n := add(Step{Op: "sgd", In: []int{*id}, F: fl(lr)})
				*id = n
				got, err := read(*ws[k].Value)
				if err != nil {
					return err.Error()
				}
				for _, v := range ref.n[n].a.v {
					if !finite(v) {
						return ""
					}
				}
				if d := cmpArr(got, ref.n[n].a, 1+ref.n[n].a.maxAbs()*1e2); d != "" {
					return fmt.Sprintf("layer %d parameter %d after step %d: %s", l, k, st, d)
				}
				if st != omit {
					(*ws[k].Value).ResetGradContext(true)
					add(Step{Op: "reset", In: []int{n}, Track: true})
					if (*ws[k].Value).Gradient() != nil {
						return fmt.Sprintf("step %d: gradient survived the reset", st)
					}
				}
			}
		}
	}
	return ""
}

func genTrain(g *gen) *Case {
	c := &Case{Prop: g.prop, Kind: "train", Seed: g.r.Int63()}
	nl := 1 + g.n(3)
	loss := g.n(3)
	steps := 1 + g.n(6)
	omit := -1
	if g.p(0.3) {
		omit = g.n(steps)
	}
	c.Ints = []int{nl, 1 + g.n(5), loss, steps, omit}
	for l := 0; l <= nl; l++ {
		d := 1 + g.n(4)
		if l == nl && loss == 2 && d == 1 {
			d = 2
		}
		c.Ints = append(c.Ints, d)
	}
	for l := 0; l < nl; l++ {
		a := []int{0, 1, 2, 3, 5, 4}[g.n(6)]
		if l == nl-1 && loss == 1 {
			a = 2
		}
		if l == nl-1 && loss == 2 {
			a = 4
		}
		c.Ints = append(c.Ints, a)
	}
	c.Fs = []fl{[]fl{0.01, 0.1, 0.5, 0.05, 1, -0.1, 0}[g.n(7)]}
	return c
}

// ---- C17 ----

func runSGDNil(c *Case) string {
	o := optimizers.NewSGD(nil)
	if err := o.Update(nil); err == nil {
		return "Update(nil) returned no error"
	}
	var t tensor.Tensor
	if err := o.Update(&t); err == nil {
		return "Update of a nil tensor returned no error"
	}
	x, err := tensor.Full([]int{2}, 1, &tensor.Config{Device: tensor.CPU, GradTrack: true})
	if err != nil {
		return ""
	}
	y := x
	if err := o.Update(&y); err == nil || y != x {
		return "Update of a tensor without gradient was accepted or replaced it"
	}
	if err := tensor.BackPropagate(x); err != nil {
		return ""
	}
	if err := o.Update(&y); err != nil {
		return fmt.Sprintf("Update: %v", err)
	}
	a, err := read(y)
	if err != nil || math.Abs(a.v[0]-0.99) > 1e-12 || math.Abs(a.v[1]-0.99) > 1e-12 {
		return fmt.Sprintf("default learning rate: got %v, expected 0.99", a.v)
	}
	return ""
}

// ---- C18: initializers ----

var initKinds = []string{"RandU", "RandN", "Uniform", "Normal", "HeUniform", "HeNormal", "XavierUniform", "XavierNormal", "Full", "UniformDefault", "NormalDefault", "FullDefault"}

func ncdf(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }

func runInit(c *Case) string {
	sh := c.Ints[2:]
	p, q := float64(c.Fs[0]), float64(c.Fs[1])
	fi, fo := c.Ints[0], c.Ints[1]
	draw := func() (tensor.Tensor, error) {
		cf := &tensor.Config{Device: tensor.CPU, GradTrack: true}
		switch c.S {
		case "RandU":
			return tensor.RandU(sh, p, q, cf)
		case "RandN":
			return tensor.RandN(sh, p, q, cf)
		case "Uniform":
			i, err := initializers.NewUniform(&initializers.UniformConfig{Lower: p, Upper: q})
			if err != nil {
				return nil, err
			}
			return i.Init(sh)
		case "Normal":
			i, err := initializers.NewNormal(&initializers.NormalConfig{Mean: p, StdDev: q})
			if err != nil {
				return nil, err
			}
			return i.Init(sh)
		case "HeUniform":
			i, err := initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: fi})
			if err != nil {
				return nil, err
			}
			return i.Init(sh)
		case "HeNormal":
			i, err := initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: fi})
			if err != nil {
				return nil, err
			}
			return i.Init(sh)
		case "XavierUniform":
			i, err := initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: fi, FanOut: fo})
			if err != nil {
				return nil, err
			}
			return i.Init(sh)
		case "XavierNormal":
			i, err := initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: fi, FanOut: fo})
			if err != nil {
				return nil, err
			}
			return i.Init(sh)
		case "Full":
			return initializers.NewFull(&initializers.FullConfig{Value: p}).Init(sh)
		case "UniformDefault":
			i, err := initializers.NewUniform(nil)
			if err != nil {
				return nil, err
			}
			return i.Init(sh)
		case "NormalDefault":
			i, err := initializers.NewNormal(nil)
			if err != nil {
				return nil, err
			}
			return i.Init(sh)
		}
		return initializers.NewFull(nil).Init(sh)
	}
	uni, lo, hi, mu, sg := false, 0., 0., 0., 0.
	switch c.S {
	case "RandU", "Uniform":
		uni, lo, hi = true, p, q
	case "RandN", "Normal":
		mu, sg = p, q
	case "HeUniform":
		hi = math.Sqrt(6 / float64(fi))
		uni, lo = true, -hi
	case "HeNormal":
		sg = math.Sqrt(2 / float64(fi))
	case "XavierUniform":
		hi = math.Sqrt(6 / (float64(fi) + float64(fo)))
		uni, lo = true, -hi
	case "XavierNormal":
		sg = math.Sqrt(2 / (float64(fi) + float64(fo)))
	case "UniformDefault":
		uni, lo, hi = true, -0.05, 0.05
	case "NormalDefault":
		sg = 0.05
	}
	var all [][]float64
	n := prod(sh)
	rounds := 2
	if n < 2000 && n > 0 {
		rounds = 2 + 4000/n
	}
	for k := 0; k < rounds; k++ {
		shc := append([]int{}, sh...)
		t, err := draw()
		if err != nil {
			return fmt.Sprintf("%s%v returned error: %v", c.S, shc, err)
		}
		if !eqInts(t.Shape(), sh) {
			return fmt.Sprintf("%s: shape %v, requested %v", c.S, t.Shape(), sh)
		}
		a, err := read(t)
		if err != nil {
			return err.Error()
		}
		y := t.Scale(2)
		if tensor.BackPropagate(y) == nil && t.Gradient() == nil {
			return c.S + ": the tensor is not tracked"
		}
		all = append(all, a.v)
	}
	if c.S == "Full" || c.S == "FullDefault" {
		want := 0.
		if c.S == "Full" {
			want = p
		}
		for _, v := range all {
			for _, x := range v {
				if x != want {
					return fmt.Sprintf("Full: %v, configured %v", x, want)
				}
			}
		}
		return ""
	}
	var flat []float64
	for _, v := range all {
		flat = append(flat, v...)
	}
	if uni {
		mu, sg = (lo+hi)/2, (hi-lo)/math.Sqrt(12)
	}
	N := float64(len(flat))
	s1, s2 := 0., 0.
	for _, x := range flat {
		if !finite(x) {
			return fmt.Sprintf("%s: drew %v", c.S, x)
		}
		if uni && !(x >= lo && x < hi) {
			return fmt.Sprintf("%s: drew %v outside [%v,%v)", c.S, x, lo, hi)
		}
		z := (x - mu) / sg
		s1 += z
		s2 += z * z
	}
	if z := s1 / math.Sqrt(N); math.Abs(z) > 8 {
		return fmt.Sprintf("%s: sample mean of %d draws is %v standard errors off", c.S, len(flat), z)
	}
	kurt := 3.
	if uni {
		kurt = 1.8
	}
	if z := (s2/N - 1) * math.Sqrt(N/(kurt-1)); math.Abs(z) > 9 {
		return fmt.Sprintf("%s: sample variance of %d draws is %v times the configured one", c.S, len(flat), s2/N)
	}
	// distribution
	srt := append([]float64{}, flat...)
	sort.Float64s(srt)
	d := 0.
	for i, x := range srt {
		f := ncdf((x - mu) / sg)
		if uni {
			f = (x - lo) / (hi - lo)
		}
		d = math.Max(d, math.Max(f-float64(i)/N, float64(i+1)/N-f))
	}
	if d*math.Sqrt(N) > 3.8 {
		return fmt.Sprintf("%s: the empirical distribution of %d draws is not the configured one (KS %v)", c.S, len(flat), d*math.Sqrt(N))
	}
	// freshness: repeated values
	dup := 0
	for i := 1; i < len(srt); i++ {
		if srt[i] == srt[i-1] {
			dup++
		}
	}
	scale := math.Abs(mu) + sg
	if dup > 3 && sg > scale*1e-6 {
		return fmt.Sprintf("%s: %d of %d draws repeat", c.S, dup, len(flat))
	}
	// independence across positions and across calls
	corr := func(lag int) float64 {
		s, k := 0., 0.
		for _, v := range all {
			for i := 0; i+lag < len(v); i++ {
				s += (v[i] - mu) / sg * (v[i+lag] - mu) / sg
				k++
			}
		}
		if k < 50 {
			return 0
		}
		return s / math.Sqrt(k)
	}
	lags := []int{1, 2, 3}
	st := 1
	for i := len(sh) - 1; i >= 0; i-- {
		lags = append(lags, st)
		st *= sh[i]
	}
	for _, l := range lags {
		if l > 0 {
			if z := corr(l); math.Abs(z) > 9 {
				return fmt.Sprintf("%s: positions at distance %d are correlated (z %v)", c.S, l, z)
			}
		}
	}
	s, k := 0., 0.
	for j := 1; j < len(all); j++ {
		for i := range all[j] {
			s += (all[j][i] - mu) / sg * (all[j-1][i] - mu) / sg
			k++
		}
	}
	if k > 50 && math.Abs(s/math.Sqrt(k)) > 9 {
		return fmt.Sprintf("%s: successive calls are correlated (z %v)", c.S, s/math.Sqrt(k))
	}
	return ""
}

func genInit(g *gen) *Case {
	c := &Case{Prop: g.prop, Kind: "init", S: initKinds[g.n(len(initKinds))]}
	fan := func() int {
		switch g.n(6) {
		case 0:
			return 1
		case 1:
			return []int{10, 100, 1000, 1 << 20, 1 << 40, math.MaxInt, math.MaxInt - 1}[g.n(7)]
		case 2:
			return 1 + g.n(2000)
		case 3:
			if len(g.d.Ints) > 0 {
				if k := g.d.Ints[g.n(len(g.d.Ints))]; k > 0 {
					return k
				}
			}
		}
		return 1 + g.n(30)
	}
	g.big = g.p(0.5)
	sh := g.shape(0, 5)
	c.Ints = append([]int{fan(), fan()}, sh...)
	p := g.r.NormFloat64() * []float64{1, 0.01, 100}[g.n(3)]
	w := math.Abs(g.r.NormFloat64())*[]float64{1, 0.01, 100}[g.n(3)] + 1e-3
	if g.p(0.2) {
		p = []float64{0, 1, -1, 5, -3}[g.n(5)]
	}
	switch c.S {
	case "RandU", "Uniform":
		c.Fs = []fl{fl(p), fl(p + w)}
		if g.p(0.2) {
			c.Fs = []fl{fl(-w), fl(w)}
		}
	default:
		c.Fs = []fl{fl(p), fl(w)}
	}
	return c
}

// ---- C19: accuracy ----

func runAcc(c *Case) string {
	r := rand.New(rand.NewSource(c.Seed))
	a := metrics.NewAccuracy()
	whole := metrics.NewAccuracy()
	tot, match := 0, 0
	var P, T []float64
	chk := func(m *metrics.Accuracy, what string) string {
		want := 0.
		if tot > 0 {
			want = float64(match) / float64(tot)
		}
		got, err := m.Result()
		if err != nil {
			return fmt.Sprintf("Result returned error %v", err)
		}
		if math.Abs(got-want) > 1e-12 {
			return fmt.Sprintf("%s: accuracy %v, expected %d/%d", what, got, match, tot)
		}
		return ""
	}
	if f := chk(a, "before any batch"); f != "" {
		return f
	}
	mk := func(v []float64) tensor.Tensor {
		t, err := tensor.TensorOf(v, &tensor.Config{Device: tensor.CPU, GradTrack: r.Intn(3) == 0})
		if err != nil {
			panic(err)
		}
		return t
	}
	cls := 1 + r.Intn(4)
	for _, n := range c.Ints {
		if n < 0 { // a rejected call
			x := mk([]float64{1, 1, 0})
			y := mk([]float64{1, 1})
			m, _ := tensor.TensorOf([][]float64{{1, 0}, {0, 1}}, nil)
			s, _ := tensor.TensorOf(1., nil)
			f, _ := tensor.Full([]int{3}, 1, nil)
			ps := [][2]tensor.Tensor{{nil, nil}, {nil, x}, {x, nil}, {x, y}, {y, x}, {m, m}, {x, m}, {s, s}, {m, x}, {x, foreign{f}}, {s, x}, {y, m}, {m, y}}
			k := (-n - 1) % len(ps)
			if err := a.Accumulate(ps[k][0], ps[k][1]); err == nil {
				return fmt.Sprintf("Accumulate accepted invalid input pair %d", k)
			}
			if f := chk(a, "after a rejected call"); f != "" {
				return f
			}
			continue
		}
		p, t := make([]float64, n), make([]float64, n)
		for i := range p {
			p[i], t[i] = float64(r.Intn(cls)), float64(r.Intn(cls))
			switch r.Intn(12) {
			case 0:
				t[i] = p[i] + 1e-9
			case 1:
				p[i] = r.NormFloat64()
				t[i] = p[i]
			case 2:
				p[i], t[i] = -p[i], -p[i]
			case 3:
				p[i], t[i] = 1e200, 2e200
			}
			if p[i] == t[i] {
				match++
			}
			tot++
		}
		P, T = append(P, p...), append(T, t...)
		if err := a.Accumulate(mk(p), mk(t)); err != nil {
			return fmt.Sprintf("Accumulate returned error %v", err)
		}
		if f := chk(a, fmt.Sprintf("after a batch of %d", n)); f != "" {
			return f
		}
	}
	if len(P) > 0 {
		if err := whole.Accumulate(mk(P), mk(T)); err != nil {
			return fmt.Sprintf("Accumulate returned error %v", err)
		}
		if f := chk(whole, "in one batch"); f != "" {
			return f
		}
	}
	return ""
}

func genAcc(g *gen) *Case {
	c := &Case{Prop: g.prop, Kind: "acc", Seed: g.r.Int63()}
	for k := g.n(9); k > 0; k-- {
		switch {
		case g.p(0.25):
			c.Ints = append(c.Ints, -1-g.n(13))
		case g.big:
			c.Ints = append(c.Ints, g.size(3000))
		default:
			c.Ints = append(c.Ints, 1+g.n(9))
		}
	}
	return c
}

// ---- C20: concurrency ----

func d0(d []int) int {
	if len(d) > 0 && d[0] > 0 && d[0] < 4 {
		return d[0]
	}
	return 0
}

func runConc(c *Case) string {
	d := &dict{}
	// shared leaves
	mkShared := func(track bool) []tensor.Tensor {
		r := rand.New(rand.NewSource(c.Seed))
		var ts []tensor.Tensor
		for _, sh := range [][]int{{2, 3}, {3}, {1, 3}, {2, 3}, {3, 2}, {2}, {4, 2, 3}, {}, {1}} {
			v := make([]float64, prod(sh))
			for i := range v {
				v[i] = 0.2 + r.Float64()
			}
			t, _, err := mkLeaf(sh, v, track)
			if err != nil {
				panic(err)
			}
			ts = append(ts, t)
		}
		return ts
	}
	shapes := [][]int{{2, 3}, {3}, {1, 3}, {2, 3}, {3, 2}, {2}, {4, 2, 3}, {}, {1}}
	back := c.Ints[0] == 1
	shared := mkShared(!back)
	// one program per goroutine over the shared leaves
	prog := func(k int) *Case {
		g := newGen("C20", c.Seed*131+int64(k), d)
		g.big, g.vs = false, 4
		r := rand.New(rand.NewSource(c.Seed))
		for _, sh := range shapes {
			v := make([]float64, prod(sh))
			for i := range v {
				v[i] = 0.2 + r.Float64()
			}
			g.add(Step{Op: "leaf", D: sh, Data: fls(v), Track: !back})
		}
		n := len(g.st)
		if back {
			g.leaf([]int{2, 3}, true)
			g.leaf([]int{3}, true)
		}
		ops := cat(diffOps, allCmp, []string{"relu", "leaky", "sigmoid", "tanh", "softmax", "mse", "bce", "ce", "fc", "Equals"})
		for s := 0; s < 18; s++ {
			if g.p(0.25) { // ask a shared tensor
				x := g.n(n)
				q := []string{"NElems", "Shape", "qSum", "qMax", "qMin", "qAvg", "qVar", "qStd", "qMean", "At"}[g.n(10)]
				st := Step{Op: q, In: []int{x}}
				if q == "At" {
					st.D = make([]int, len(shapes[x]))
				}
				g.add(st)
				continue
			}
			mk := func(sh []int) int {
				for i := range g.ref.n {
					if a := g.ref.n[i].a; a != nil && eqInts(a.sh, sh) && g.p(0.7) {
						return i
					}
				}
				return g.leaf(sh, false)
			}
			x := g.n(len(g.st))
			if g.p(0.5) {
				x = g.n(n)
			}
			if g.ref.n[x].a == nil {
				continue
			}
			i := g.op(ops[g.n(len(ops))], mk, x)
			if i >= 0 && len(g.ref.n[i].a.v) > 300 {
				g.st, g.ref.n = g.st[:i], g.ref.n[:i]
			}
		}
		if back {
			for i := len(g.st) - 1; i >= 0; i-- {
				if g.ref.n[i].a != nil && g.ref.n[i].tracked && len(g.ref.n[i].in) > 0 {
					g.add(Step{Op: "backprop", In: []int{i}})
					break
				}
			}
		}
		return g.done("conc")
	}
	n := len(shapes)
	exec := func(p *Case, sh []tensor.Tensor, objs map[string]any) (res []string) {
		w := newWorld()
		w.ro, w.objs = true, objs
		for i := range p.Steps {
			if i < n {
				w.t, w.args = append(w.t, sh[i]), append(w.args, callerArgs{})
				continue
			}
			ok := true
			for _, j := range p.Steps[i].In {
				ok = ok && w.t[j] != nil
			}
			if !ok {
				w.t, w.args = append(w.t, nil), append(w.args, callerArgs{})
				continue
			}
			o := w.do(&p.Steps[i])
			s := fmt.Sprint(o.err, o.panic, o.q)
			if o.t != nil {
				a, err := read(o.t)
				if err == nil {
					s += fmt.Sprint(*a)
				}
			}
			res = append(res, s)
		}
		if back {
			for i := n; i < len(w.t); i++ {
				if w.t[i] != nil && w.t[i].Gradient() != nil {
					a, err := read(w.t[i].Gradient())
					if err == nil {
						res = append(res, fmt.Sprint(i, *a))
					}
				}
			}
		}
		return
	}
	K := 6
	var progs []*Case
	for k := 0; k < K; k++ {
		progs = append(progs, prog(k/2)) // pairs run the same computation
	}
	// components that several of them use
	ow := newWorld()
	for _, p := range progs {
		for i := range p.Steps {
			s := p.Steps[i]
			if s.Obj == 0 || s.Op == "fc" {
				continue
			}
			in, _, err := mkLeaf([]int{1, 1, 1, 1}[:1+d0(s.D)], []float64{0.5}, false)
			if err != nil {
				panic(err)
			}
			if s.Op == "ce" {
				in, _ = in.UnSqueeze(0)
			}
			ow.t = []tensor.Tensor{in, in}
			s.In = []int{0, 1}[:len(s.In)]
			ow.do(&s)
		}
	}
	objs := ow.objs
	got := make([][]string, K)
	var wg sync.WaitGroup
	for k := 0; k < K; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			got[k] = exec(progs[k], shared, objs)
			if c.Ints[0] == 2 || k == 0 {
				for q := 0; q < 3; q++ {
					u, _ := tensor.RandU([]int{5, 3}, -1, 1, nil)
					v, _ := tensor.RandN([]int{7}, 0, 1, &tensor.Config{Device: tensor.CPU, GradTrack: true})
					i, err := initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: 3, FanOut: 4})
					if err == nil {
						i.Init([]int{4})
					}
					_, _ = u, v
				}
			} else {
				tensor.RandU([]int{3}, 0, 1, nil)
				tensor.RandN([]int{3}, 0, 1, nil)
			}
		}(k)
	}
	wg.Wait()
	seq := mkShared(!back)
	for k := 0; k < K; k++ {
		want := exec(progs[k], seq, nil)
		if len(want) != len(got[k]) {
			return fmt.Sprintf("goroutine %d: %d results, sequentially %d", k, len(got[k]), len(want))
		}
		for i := range want {
			if want[i] != got[k][i] {
				return fmt.Sprintf("goroutine %d result %d: %s, sequentially %s", k, i, got[k][i], want[i])
			}
		}
	}
	return ""
}

// ---- C09: component entry points and configurations ----

type apiCase struct {
	name string
	bad  bool // an error is expected
	f    func() (any, error)
}

type fakeInit struct {
	f func(sh []int) (tensor.Tensor, error)
}

func (i fakeInit) Init(sh []int) (tensor.Tensor, error) { return i.f(sh) }

func must(t tensor.Tensor, err error) tensor.Tensor {
	if err != nil {
		panic("harness: " + err.Error())
	}
	return t
}

func apiCases() []apiCase {
	var r []apiCase
	add := func(name string, bad bool, f func() (any, error)) { r = append(r, apiCase{name, bad, f}) }
	nilIf := func(t any, isnil bool, err error) (any, error) {
		if isnil {
			return nil, err
		}
		return t, err
	}
	for _, d := range []int{-3, -1, 0, 1, 5} {
		d := d
		add(fmt.Sprintf("NewSoftmax(Dim %d)", d), d < 0, func() (any, error) {
			s, err := activations.NewSoftmax(&activations.SoftmaxConfig{Dim: d})
			return nilIf(s, s == nil, err)
		})
		for rk := 0; rk < 4; rk++ {
			rk := rk
			if d >= 0 {
				add(fmt.Sprintf("Softmax(Dim %d) on rank %d", d, rk), rk <= d, func() (any, error) {
					s, err := activations.NewSoftmax(&activations.SoftmaxConfig{Dim: d})
					if err != nil {
						return nil, nil
					}
					t, err := s.Forward(must(tensor.Full([]int{2, 3, 2}[:rk], 0.5, nil)))
					return nilIf(t, t == nil, err)
				})
			}
		}
	}
	add("NewSoftmax(nil)", false, func() (any, error) { s, err := activations.NewSoftmax(nil); return nilIf(s, s == nil, err) })
	add("NewLeakyRelu(nil)", false, func() (any, error) { return activations.NewLeakyRelu(nil), nil })
	add("NewSGD(nil)", false, func() (any, error) { return optimizers.NewSGD(nil), nil })
	add("NewFull(nil)", false, func() (any, error) { return initializers.NewFull(nil), nil })
	for _, a := range [][2]float64{{0, 1}, {1, 1}, {2, 1}, {math.NaN(), 1}, {0, math.NaN()}, {-1, -0.5}, {0, 0}} {
		a := a
		add(fmt.Sprintf("NewUniform(%v)", a), !(a[0] < a[1]), func() (any, error) {
			s, err := initializers.NewUniform(&initializers.UniformConfig{Lower: a[0], Upper: a[1]})
			return nilIf(s, s == nil, err)
		})
		add(fmt.Sprintf("NewNormal(%v)", a), !(a[1] > 0), func() (any, error) {
			s, err := initializers.NewNormal(&initializers.NormalConfig{Mean: a[0], StdDev: a[1]})
			return nilIf(s, s == nil, err)
		})
	}
	add("NewUniform(nil)", false, func() (any, error) { s, err := initializers.NewUniform(nil); return nilIf(s, s == nil, err) })
	add("NewNormal(nil)", false, func() (any, error) { s, err := initializers.NewNormal(nil); return nilIf(s, s == nil, err) })
	for _, f := range [][2]int{{1, 1}, {0, 1}, {1, 0}, {-1, 1}, {1, -1}, {math.MaxInt, math.MaxInt}, {math.MinInt, 1}, {0, 0}, {3, 7}} {
		f := f
		add(fmt.Sprintf("NewHeUniform(%v)", f[0]), f[0] <= 0, func() (any, error) {
			s, err := initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: f[0]})
			return nilIf(s, s == nil, err)
		})
		add(fmt.Sprintf("NewHeNormal(%v)", f[0]), f[0] <= 0, func() (any, error) {
			s, err := initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: f[0]})
			return nilIf(s, s == nil, err)
		})
		add(fmt.Sprintf("NewXavierUniform(%v)", f), f[0] <= 0 || f[1] <= 0, func() (any, error) {
			s, err := initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: f[0], FanOut: f[1]})
			return nilIf(s, s == nil, err)
		})
		add(fmt.Sprintf("NewXavierNormal(%v)", f), f[0] <= 0 || f[1] <= 0, func() (any, error) {
			s, err := initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: f[0], FanOut: f[1]})
			return nilIf(s, s == nil, err)
		})
		if f[0] < 1000 && f[1] < 1000 {
			add(fmt.Sprintf("NewFC(%v)", f), f[0] <= 0 || f[1] <= 0, func() (any, error) {
				s, err := layers.NewFC(&layers.FCConfig{Inputs: f[0], Outputs: f[1]})
				return nilIf(s, s == nil, err)
			})
		}
	}
	add("NewHeUniform(nil)", true, func() (any, error) { s, err := initializers.NewHeUniform(nil); return nilIf(s, s == nil, err) })
	add("NewHeNormal(nil)", true, func() (any, error) { s, err := initializers.NewHeNormal(nil); return nilIf(s, s == nil, err) })
	add("NewXavierUniform(nil)", true, func() (any, error) {
		s, err := initializers.NewXavierUniform(nil)
		return nilIf(s, s == nil, err)
	})
	add("NewXavierNormal(nil)", true, func() (any, error) {
		s, err := initializers.NewXavierNormal(nil)
		return nilIf(s, s == nil, err)
	})
	add("NewFC(nil)", true, func() (any, error) { s, err := layers.NewFC(nil); return nilIf(s, s == nil, err) })
	in := func(f func(sh []int) (tensor.Tensor, error)) layers.Initializer { return fakeInit{f} }
	full := in(func(sh []int) (tensor.Tensor, error) { return tensor.Full(sh, 1, nil) })
	inits := map[string]layers.Initializer{
		"ok": full, "nil": nil,
		"errs":    in(func(sh []int) (tensor.Tensor, error) { return nil, fmt.Errorf("no") }),
		"niltens": in(func(sh []int) (tensor.Tensor, error) { return nil, nil }),
		"scalar":  in(func(sh []int) (tensor.Tensor, error) { return tensor.Full(nil, 1, nil) }),
		"rank2":   in(func(sh []int) (tensor.Tensor, error) { return tensor.Full([]int{sh[0], 1}, 1, nil) }),
		"longer":  in(func(sh []int) (tensor.Tensor, error) { return tensor.Full([]int{sh[0] + 1}, 1, nil) }),
		"shorter": in(func(sh []int) (tensor.Tensor, error) { return tensor.Full([]int{sh[0] - 1}, 1, nil) }),
	}
	for _, a := range []string{"ok", "nil", "errs", "niltens", "scalar", "rank2", "longer", "shorter", "absent"} {
		for _, b := range []string{"ok", "nil", "errs", "niltens", "scalar", "rank2", "longer", "shorter", "absent"} {
			a, b := a, b
			ok := (a == "ok" || a == "absent") && (b == "ok" || b == "absent")
			add("NewFC initializers "+a+"/"+b, !ok, func() (any, error) {
				m := map[string]layers.Initializer{}
				if a != "absent" {
					m["Weight"] = inits[a]
				}
				if b != "absent" {
					m["Bias"] = inits[b]
				}
				s, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 3, Initializers: m})
				if err == nil && s != nil {
					if !eqInts(s.Weight.Shape(), []int{3}) || !eqInts(s.Bias.Shape(), []int{3}) {
						return nil, nil
					}
				}
				return nilIf(s, s == nil, err)
			})
		}
	}
	x := func(sh ...int) tensor.Tensor { return must(tensor.Full(sh, 0.5, nil)) }
	fc := func() *layers.FC {
		l, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 3})
		if err != nil {
			panic(err)
		}
		return l
	}
	fwd := func(name string, bad bool, f func() (tensor.Tensor, error)) {
		add(name, bad, func() (any, error) { t, err := f(); return nilIf(t, t == nil, err) })
	}
	fwd("FC.Forward()", true, func() (tensor.Tensor, error) { return fc().Forward() })
	fwd("FC.Forward(nil)", true, func() (tensor.Tensor, error) { return fc().Forward(nil) })
	fwd("FC.Forward(x,x)", true, func() (tensor.Tensor, error) { return fc().Forward(x(2, 2), x(2, 2)) })
	fwd("FC.Forward rank 0", true, func() (tensor.Tensor, error) { return fc().Forward(x()) })
	fwd("FC.Forward rank 1", true, func() (tensor.Tensor, error) { return fc().Forward(x(2)) })
	fwd("FC.Forward rank 3", true, func() (tensor.Tensor, error) { return fc().Forward(x(1, 2, 2)) })
	fwd("FC.Forward rank 2", false, func() (tensor.Tensor, error) { return fc().Forward(x(5, 2)) })
	fwd("FC{}.Forward", true, func() (tensor.Tensor, error) { return (&layers.FC{}).Forward(x(2, 2)) })
	fwd("FC{Weight}.Forward", true, func() (tensor.Tensor, error) { return (&layers.FC{Weight: x(2)}).Forward(x(2, 2)) })
	fwd("FC{Bias}.Forward", true, func() (tensor.Tensor, error) { return (&layers.FC{Bias: x(2)}).Forward(x(2, 2)) })
	fwd("Input.Forward unset", true, func() (tensor.Tensor, error) { return layers.NewInput().Forward() })
	fwd("Input.Forward(x)", true, func() (tensor.Tensor, error) {
		return (&layers.Input{SeedFunc: func() tensor.Tensor { return x(2) }}).Forward(x(1))
	})
	fwd("Input.Forward", false, func() (tensor.Tensor, error) {
		return (&layers.Input{SeedFunc: func() tensor.Tensor { return x(2) }}).Forward()
	})
	type fw interface {
		Forward(xs ...tensor.Tensor) (tensor.Tensor, error)
	}
	sm, _ := activations.NewSoftmax(nil)
	for name, l := range map[string]fw{"Relu": activations.NewRelu(), "LeakyRelu": activations.NewLeakyRelu(nil), "Sigmoid": activations.NewSigmoid(), "Tanh": activations.NewTanh(), "Softmax": sm} {
		l := l
		fwd(name+".Forward()", true, func() (tensor.Tensor, error) { return l.Forward() })
		fwd(name+".Forward(nil)", true, func() (tensor.Tensor, error) { return l.Forward(nil) })
		fwd(name+".Forward(nil...)", true, func() (tensor.Tensor, error) { return l.Forward([]tensor.Tensor(nil)...) })
		fwd(name+".Forward(x,x)", true, func() (tensor.Tensor, error) { return l.Forward(x(2), x(2)) })
		fwd(name+".Forward(x)", false, func() (tensor.Tensor, error) { return l.Forward(x(2)) })
	}
	for _, f := range []struct {
		n string
		c interface {
			Compute(a, b tensor.Tensor) (tensor.Tensor, error)
		}
		rk int
	}{{"MSE", losses.NewMSE(), 1}, {"BCE", losses.NewBCE(), 1}, {"CE", losses.NewCE(), 2}} {
		f := f
		shs := [][]int{nil, {2}, {3}, {1}, {2, 2}, {2, 3}, {3, 2}, {1, 2}, {2, 1}, {2, 2, 2}}
		for _, a := range shs {
			for _, b := range shs {
				a, b := a, b
				fwd(fmt.Sprintf("%s.Compute(%v,%v)", f.n, a, b), !(len(a) == f.rk && eqInts(a, b)), func() (tensor.Tensor, error) { return f.c.Compute(x(a...), x(b...)) })
			}
		}
		fwd(f.n+".Compute(nil,x)", true, func() (tensor.Tensor, error) { return f.c.Compute(nil, x(2)) })
		fwd(f.n+".Compute(x,nil)", true, func() (tensor.Tensor, error) { return f.c.Compute(x(2), nil) })
		fwd(f.n+".Compute(nil,nil)", true, func() (tensor.Tensor, error) { return f.c.Compute(nil, nil) })
	}
	shs := [][]int{nil, {2}, {3}, {1}, {2, 2}}
	for _, a := range shs {
		for _, b := range shs {
			a, b := a, b
			bad := !(len(a) == 1 && eqInts(a, b))
			add(fmt.Sprintf("Accumulate(%v,%v)", a, b), bad, func() (any, error) {
				err := metrics.NewAccuracy().Accumulate(x(a...), x(b...))
				if err != nil {
					return nil, err
				}
				return 1, nil
			})
		}
	}
	add("Accumulate(nil,x)", true, func() (any, error) {
		return nil, metrics.NewAccuracy().Accumulate(nil, x(2))
	})
	add("Accumulate(x,nil)", true, func() (any, error) {
		return nil, metrics.NewAccuracy().Accumulate(x(2), nil)
	})
	add("Update(nil)", true, func() (any, error) { return nil, optimizers.NewSGD(nil).Update(nil) })
	add("Update(&nil)", true, func() (any, error) {
		var t tensor.Tensor
		return nil, optimizers.NewSGD(nil).Update(&t)
	})
	add("Update(no gradient)", true, func() (any, error) {
		t := x(2)
		return nil, optimizers.NewSGD(nil).Update(&t)
	})
	add("BackPropagate(nil)", true, func() (any, error) { return nil, tensor.BackPropagate(nil) })
	add("Concat(nil)", true, func() (any, error) { t, err := tensor.Concat(nil, 0); return nilIf(t, t == nil, err) })
	add("Concat(one)", true, func() (any, error) {
		t, err := tensor.Concat([]tensor.Tensor{x(2)}, 0)
		return nilIf(t, t == nil, err)
	})
	for _, i := range []initializersInit{
		{"HeUniform", func(sh []int) (tensor.Tensor, error) {
			h, _ := initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: 2})
			return h.Init(sh)
		}},
		{"HeNormal", func(sh []int) (tensor.Tensor, error) {
			h, _ := initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: 2})
			return h.Init(sh)
		}},
		{"XavierUniform", func(sh []int) (tensor.Tensor, error) {
			h, _ := initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: 2, FanOut: 3})
			return h.Init(sh)
		}},
		{"XavierNormal", func(sh []int) (tensor.Tensor, error) {
			h, _ := initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: 2, FanOut: 3})
			return h.Init(sh)
		}},
		{"Uniform", func(sh []int) (tensor.Tensor, error) { h, _ := initializers.NewUniform(nil); return h.Init(sh) }},
		{"Normal", func(sh []int) (tensor.Tensor, error) { h, _ := initializers.NewNormal(nil); return h.Init(sh) }},
		{"Full", func(sh []int) (tensor.Tensor, error) { return initializers.NewFull(nil).Init(sh) }},
	} {
		i := i
		for _, sh := range [][]int{nil, {}, {1}, {2, 3}, {0}, {-1}, {2, 0}, {2, -3, 1}, {1, 2, 3, 4, 1}} {
			sh := sh
			fwd(fmt.Sprintf("%s.Init(%v)", i.n, sh), !posDims(sh), func() (tensor.Tensor, error) {
				t, err := i.f(sh)
				if err == nil && t != nil && !eqInts(t.Shape(), sh) {
					return nil, nil
				}
				return t, err
			})
		}
	}
	return r
}

type initializersInit struct {
	n string
	f func(sh []int) (tensor.Tensor, error)
}

func runAPI(c *Case) (fail string) {
	for _, a := range apiCases() {
		if a.name != c.S {
			continue
		}
		defer func() {
			if r := recover(); r != nil {
				fail = fmt.Sprintf("%s panicked: %v", a.name, r)
			}
		}()
		v, err := a.f()
		switch {
		case a.bad && err == nil:
			return a.name + " was accepted although its precondition fails"
		case a.bad && v != nil:
			return a.name + " returned a result along with an error"
		case !a.bad && err != nil:
			return fmt.Sprintf("%s returned error: %v", a.name, err)
		case !a.bad && v == nil:
			return a.name + " returned neither a well-formed result nor an error"
		}
		return ""
	}
	return ""
}
