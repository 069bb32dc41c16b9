package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// fl is a float64 whose JSON form also covers NaN and infinities.
type fl float64

func (f fl) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.FormatFloat(float64(f), 'g', -1, 64))
}

func (f *fl) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) != nil {
		s = string(b)
	}
	v, err := strconv.ParseFloat(s, 64)
	*f = fl(v)
	return err
}

func fls(v []float64) []fl {
	r := make([]fl, len(v))
	for i, x := range v {
		r[i] = fl(x)
	}
	return r
}

func unfl(v []fl) []float64 {
	r := make([]float64, len(v))
	for i, x := range v {
		r[i] = float64(x)
	}
	return r
}

// Nest is nested data for TensorOf: depth K, a number when K is 0.
type Nest struct {
	K   int    `json:"k"`
	V   fl     `json:"v,omitempty"`
	S   []Nest `json:"s,omitempty"`
	Nil bool   `json:"nil,omitempty"`
}

// Step is one call of a history. The result of step i is node i.
// In: operand nodes; -1 is a nil tensor, -2 a foreign implementation.
type Step struct {
	Op    string   `json:"op"`
	In    []int    `json:"in,omitempty"`
	D     []int    `json:"d,omitempty"`
	NilD  bool     `json:"nild,omitempty"`
	R     [][2]int `json:"r,omitempty"`
	F     fl       `json:"f,omitempty"`
	G     fl       `json:"g,omitempty"`
	Data  []fl     `json:"data,omitempty"`
	Nest  *Nest    `json:"nest,omitempty"`
	Track bool     `json:"track,omitempty"`
	Obj   int      `json:"obj,omitempty"`  // not 0: the component object of that number
	Conf  int      `json:"conf,omitempty"` // 0: CPU; 1: nil; otherwise an unsupported device
}

// Case is one replayable experiment.
type Case struct {
	Prop  string `json:"property"`
	Kind  string `json:"kind"`
	Steps []Step `json:"steps,omitempty"`
	Ints  []int  `json:"ints,omitempty"`
	Fs    []fl   `json:"fs,omitempty"`
	Seed  int64  `json:"seed,omitempty"`
	S     string `json:"s,omitempty"`
}

type foreign struct{ tensor.Tensor }

// ---- the library side ----

type callerArgs struct {
	d    []int
	r    []tensor.Range
	ts   []tensor.Tensor
	nest any
	sh   []int
}

type world struct {
	t    []tensor.Tensor
	args []callerArgs
	for_ tensor.Tensor
	objs map[string]any
	ro   bool // objs belongs to several goroutines and holds all they need
}

// object is the component of a step: made for it, or the one other steps use too.
func object[T any](w *world, s *Step, mk func() T) T {
	if s.Obj == 0 {
		return mk()
	}
	d := s.D
	if s.Op == "fc" || len(d) == 0 {
		d = []int{0}
	}
	k := fmt.Sprint(s.Op, s.Obj, float64(s.F), d[0], s.Conf)
	if o, ok := w.objs[k].(T); ok {
		return o
	}
	o := mk()
	if !w.ro {
		if w.objs == nil {
			w.objs = map[string]any{}
		}
		w.objs[k] = o
	}
	return o
}

func newWorld() *world {
	f, _ := tensor.Full([]int{2, 2}, 1, nil)
	return &world{for_: foreign{f}}
}

func conf(s *Step) *tensor.Config {
	switch s.Conf {
	case 0:
		return &tensor.Config{Device: tensor.CPU, GradTrack: s.Track}
	case 1:
		return nil
	}
	return &tensor.Config{Device: tensor.Device(s.Conf), GradTrack: s.Track}
}

func (w *world) get(i int) tensor.Tensor {
	switch {
	case i == -1:
		return nil
	case i == -2:
		return w.for_
	}
	return w.t[i]
}

type outcome struct {
	t     tensor.Tensor
	q     []float64
	isQ   bool
	none  bool // an action without a result
	err   error
	panic any
}

func nest1(n *Nest) []float64 {
	if n.Nil {
		return nil
	}
	r := make([]float64, len(n.S))
	for i := range n.S {
		r[i] = float64(n.S[i].V)
	}
	return r
}

func nestN[T any](n *Nest, f func(*Nest) T) []T {
	if n.Nil {
		return nil
	}
	r := make([]T, len(n.S))
	for i := range n.S {
		r[i] = f(&n.S[i])
	}
	return r
}

func nest2(n *Nest) [][]float64 { return nestN(n, nest1) }
func nest3(n *Nest) [][][]float64 {
	return nestN(n, nest2)
}
func nest4(n *Nest) [][][][]float64 { return nestN(n, nest3) }

func mkNest(sh []int, v []float64) *Nest {
	if len(sh) == 0 {
		return &Nest{V: fl(v[0])}
	}
	n := &Nest{K: len(sh)}
	c := len(v) / sh[0]
	for i := 0; i < sh[0]; i++ {
		n.S = append(n.S, *mkNest(sh[1:], v[i*c:(i+1)*c]))
	}
	return n
}

func tensorOf(n *Nest, c *tensor.Config) (tensor.Tensor, any, error) {
	var t tensor.Tensor
	var err error
	switch n.K {
	case 0:
		t, err = tensor.TensorOf(float64(n.V), c)
		return t, nil, err
	case 1:
		d := nest1(n)
		t, err = tensor.TensorOf(d, c)
		return t, d, err
	case 2:
		d := nest2(n)
		t, err = tensor.TensorOf(d, c)
		return t, d, err
	case 3:
		d := nest3(n)
		t, err = tensor.TensorOf(d, c)
		return t, d, err
	}
	d := nest4(n)
	t, err = tensor.TensorOf(d, c)
	return t, d, err
}

// mkLeaf builds a tensor of any rank from flat data.
func mkLeaf(sh []int, v []float64, track bool) (tensor.Tensor, any, error) {
	c := &tensor.Config{Device: tensor.CPU, GradTrack: track}
	if len(sh) <= 4 {
		return tensorOf(mkNest(sh, v), c)
	}
	t, err := tensor.TensorOf(v, nil)
	if err != nil {
		return nil, nil, err
	}
	t, err = t.Reshape(sh)
	if err != nil {
		return nil, nil, err
	}
	t.ResetGradContext(track)
	return t, nil, nil
}

func (w *world) do(s *Step) (o outcome) {
	var a callerArgs
	defer func() {
		if r := recover(); r != nil {
			o = outcome{panic: r}
		}
		w.t = append(w.t, o.t)
		w.args = append(w.args, a)
	}()
	var x, y tensor.Tensor
	if len(s.In) > 0 {
		x = w.get(s.In[0])
	}
	if len(s.In) > 1 {
		y = w.get(s.In[1])
	}
	var in []tensor.Tensor
	for _, i := range s.In {
		in = append(in, w.get(i))
	}
	if !s.NilD {
		a.d = append([]int{}, s.D...)
	}
	if s.R != nil {
		a.r = []tensor.Range{}
		for _, r := range s.R {
			a.r = append(a.r, tensor.Range{From: r[0], To: r[1]})
		}
	}
	d0 := 0
	if len(s.D) > 0 {
		d0 = s.D[0]
	}
	f, g := float64(s.F), float64(s.G)
	switch s.Op {
	case "leaf":
		o.t, a.nest, o.err = mkLeaf(s.D, unfl(s.Data), s.Track)
	case "TensorOf":
		o.t, a.nest, o.err = tensorOf(s.Nest, conf(s))
	case "Full":
		o.t, o.err = tensor.Full(a.d, f, conf(s))
	case "Zeros":
		o.t, o.err = tensor.Zeros(a.d, conf(s))
	case "Ones":
		o.t, o.err = tensor.Ones(a.d, conf(s))
	case "Eye":
		o.t, o.err = tensor.Eye(d0, conf(s))
	case "RandU":
		o.t, o.err = tensor.RandU(a.d, f, g, conf(s))
	case "RandN":
		o.t, o.err = tensor.RandN(a.d, f, g, conf(s))
	case "Concat":
		a.ts = in
		o.t, o.err = tensor.Concat(a.ts, d0)
	case "backprop":
		o.none = true
		o.err = tensor.BackPropagate(x)
	case "reset":
		o.none = true
		x.ResetGradContext(s.Track)
	case "mutate":
		o.none = true
		w.mutate(s.In[0])
	case "grad":
		o.t = x.Gradient()
		o.none = o.t == nil
	case "sgd":
		p := x
		o.err = object(w, s, func() *optimizers.SGD {
			return optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: f})
		}).Update(&p)
		if o.err == nil {
			o.t = p
		} else if p != x {
			panic("SGD.Update replaced the tensor although it returned an error")
		}
	case "Slice":
		o.t, o.err = x.Slice(a.r)
	case "Patch":
		o.t, o.err = x.Patch(a.r, y)
	case "Transpose":
		o.t, o.err = x.Transpose()
	case "Reshape":
		o.t, o.err = x.Reshape(a.d)
	case "UnSqueeze":
		o.t, o.err = x.UnSqueeze(d0)
	case "Squeeze":
		o.t, o.err = x.Squeeze(d0)
	case "Flatten":
		o.t, o.err = x.Flatten(d0)
	case "Broadcast":
		o.t, o.err = x.Broadcast(a.d)
	case "SumAlong":
		o.t, o.err = x.SumAlong(d0)
	case "MaxAlong":
		o.t, o.err = x.MaxAlong(d0)
	case "MinAlong":
		o.t, o.err = x.MinAlong(d0)
	case "AvgAlong":
		o.t, o.err = x.AvgAlong(d0)
	case "VarAlong":
		o.t, o.err = x.VarAlong(d0)
	case "StdAlong":
		o.t, o.err = x.StdAlong(d0)
	case "MeanAlong":
		o.t, o.err = x.MeanAlong(d0)
	case "Scale":
		o.t = x.Scale(f)
	case "Pow":
		o.t = x.Pow(f)
	case "Exp":
		o.t = x.Exp()
	case "Log":
		o.t = x.Log()
	case "Sin":
		o.t = x.Sin()
	case "Cos":
		o.t = x.Cos()
	case "Tan":
		o.t = x.Tan()
	case "Sinh":
		o.t = x.Sinh()
	case "Cosh":
		o.t = x.Cosh()
	case "Tanh":
		o.t = x.Tanh()
	case "Eq":
		o.t, o.err = x.Eq(y)
	case "Ne":
		o.t, o.err = x.Ne(y)
	case "Gt":
		o.t, o.err = x.Gt(y)
	case "Ge":
		o.t, o.err = x.Ge(y)
	case "Lt":
		o.t, o.err = x.Lt(y)
	case "Le":
		o.t, o.err = x.Le(y)
	case "ElMax":
		o.t, o.err = x.ElMax(y)
	case "ElMin":
		o.t, o.err = x.ElMin(y)
	case "Add":
		o.t, o.err = x.Add(y)
	case "Sub":
		o.t, o.err = x.Sub(y)
	case "Mul":
		o.t, o.err = x.Mul(y)
	case "Div":
		o.t, o.err = x.Div(y)
	case "Dot":
		o.t, o.err = x.Dot(y)
	case "MatMul":
		o.t, o.err = x.MatMul(y)
	case "Equals":
		var b bool
		b, o.err = x.Equals(y)
		o.isQ, o.q = true, []float64{boolF(b)}
	case "At":
		var v float64
		v, o.err = x.At(a.d...)
		o.isQ, o.q = true, []float64{v}
	case "NElems":
		o.isQ, o.q = true, []float64{float64(x.NElems())}
	case "Shape":
		a.sh = x.Shape()
		o.isQ = true
		for _, d := range a.sh {
			o.q = append(o.q, float64(d))
		}
	case "qSum":
		o.isQ, o.q = true, []float64{x.Sum()}
	case "qMax":
		o.isQ, o.q = true, []float64{x.Max()}
	case "qMin":
		o.isQ, o.q = true, []float64{x.Min()}
	case "qAvg":
		o.isQ, o.q = true, []float64{x.Avg()}
	case "qVar":
		o.isQ, o.q = true, []float64{x.Var()}
	case "qStd":
		o.isQ, o.q = true, []float64{x.Std()}
	case "qMean":
		o.isQ, o.q = true, []float64{x.Mean()}
	case "relu":
		o.t, o.err = object(w, s, activations.NewRelu).Forward(in...)
	case "leaky":
		c := &activations.LeakyReluConfig{M: f}
		if s.Conf == 1 {
			c = nil
		}
		o.t, o.err = object(w, s, func() *activations.LeakyRelu { return activations.NewLeakyRelu(c) }).Forward(in...)
	case "sigmoid":
		o.t, o.err = object(w, s, activations.NewSigmoid).Forward(in...)
	case "tanh":
		o.t, o.err = object(w, s, activations.NewTanh).Forward(in...)
	case "softmax":
		c := &activations.SoftmaxConfig{Dim: d0}
		if s.Conf == 1 {
			c = nil
		}
		var l *activations.Softmax
		l = object(w, s, func() (l *activations.Softmax) {
			l, o.err = activations.NewSoftmax(c)
			return
		})
		if o.err == nil {
			o.t, o.err = l.Forward(in...)
		}
	case "mse":
		o.t, o.err = object(w, s, losses.NewMSE).Compute(x, y)
	case "bce":
		o.t, o.err = object(w, s, losses.NewBCE).Compute(x, y)
	case "ce":
		o.t, o.err = object(w, s, losses.NewCE).Compute(x, y)
	case "fc":
		l := object(w, s, func() *layers.FC {
			l := &layers.FC{}
			if s.Conf == 5 { // through NewFC and Weights()
				c, err := layers.NewFC(&layers.FCConfig{Inputs: 3, Outputs: 2})
				if err == nil {
					l = c
				}
			}
			return l
		})
		switch {
		case w.ro: // shared: its parameters stay as they are
			l = &layers.FC{Weight: in[1], Bias: in[2]}
		case s.Conf == 5:
			ws := l.Weights()
			*ws[0].Value, *ws[1].Value = in[1], in[2]
		default:
			l.Weight, l.Bias = in[1], in[2]
		}
		o.t, o.err = l.Forward(x)
	default:
		panic("harness: unknown op " + s.Op)
	}
	return
}

func garble1(d []float64) {
	for i := range d {
		d[i] = 1e6 + float64(i)
	}
}

// mutate overwrites every slice the caller passed to, or got from, step i.
func (w *world) mutate(i int) {
	a := w.args[i]
	for j := range a.d {
		a.d[j] = a.d[j] + 1 + j
	}
	for j := range a.r {
		a.r[j].From++
		a.r[j].To += 2
		if a.r[j].From > 1 {
			a.r[j] = tensor.Range{From: 0, To: 1}
		}
	}
	for j := range a.sh {
		a.sh[j] = 77
	}
	for j := range a.ts {
		a.ts[j] = w.for_
		if len(a.ts) > 1 {
			a.ts[j] = a.ts[len(a.ts)-1-j]
		}
	}
	switch d := a.nest.(type) {
	case []float64:
		garble1(d)
	case [][]float64:
		for i := range d {
			garble1(d[i])
		}
		for i := range d {
			d[i] = nil
		}
	case [][][]float64:
		for i := range d {
			for j := range d[i] {
				garble1(d[i][j])
				d[i][j] = nil
			}
			d[i] = nil
		}
	case [][][][]float64:
		for i := range d {
			for j := range d[i] {
				for k := range d[i][j] {
					garble1(d[i][j][k])
					d[i][j][k] = nil
				}
			}
			d[i] = nil
		}
	}
}

// read observes a tensor through Shape and At; panics become errors.
func read(t tensor.Tensor) (a *arr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic while reading: %v", r)
		}
	}()
	a = newArr(t.Shape())
	if n := t.NElems(); n != len(a.v) {
		return nil, fmt.Errorf("NElems %d does not match Shape %v", n, a.sh)
	}
	each(a.sh, func(k int, ix []int) {
		v, e := t.At(ix...)
		if e != nil {
			err = e
		}
		a.v[k] = v
	})
	return
}

// ---- the reference side ----

type rnode struct {
	a       *arr
	q       []float64
	isQ     bool
	err     bool // the call must be rejected
	open    bool // whether the call is rejected is left open
	tracked bool
	dirty   bool
	amb     bool // whether it counts as spent is left open by the properties
	tamb    bool // whether it is tracked is left open
	s       *Step
	in      []int
	grad    *arr
	isGrad  int // for "grad": the node
	gen     int // number of resets
	gens    []int
}

type refw struct {
	n   []rnode
	avg bool
}

var errSkip = fmt.Errorf("skip")

// stepRef runs a step on the reference; errSkip when the properties leave it open.
func (w *refw) do(s *Step) error {
	r := rnode{s: s, isGrad: -1}
	defer func() { w.n = append(w.n, r) }()
	var in []*arr
	trk, dirty, bad, frn, amb, tamb := false, false, false, false, false, false
	for _, i := range s.In {
		if i == -1 {
			in = append(in, nil)
			bad = true
			continue
		}
		if i == -2 {
			frn = true
			in = append(in, nil)
			continue
		}
		if w.n[i].a == nil && s.Op != "mutate" {
			return errSkip
		}
		in = append(in, w.n[i].a)
		trk = trk || w.n[i].tracked
		dirty = dirty || w.n[i].dirty
		amb = amb || w.n[i].amb
		tamb = tamb || w.n[i].tamb
	}
	cons := func(sh []int, f func(k int, ix []int) float64) {
		if !posDims(sh) || s.Conf > 1 || s.Conf < 0 {
			r.err = true
			return
		}
		r.a = newArr(sh)
		each(sh, func(k int, ix []int) { r.a.v[k] = f(k, ix) })
		r.tracked = s.Track && s.Conf == 0
	}
	switch s.Op {
	case "leaf":
		r.a = &arr{append([]int{}, s.D...), unfl(s.Data)}
		r.tracked = s.Track
		return nil
	case "TensorOf":
		sh, v, ok := flattenNest(s.Nest)
		if !ok {
			r.err = true
			return nil
		}
		cons(sh, func(k int, ix []int) float64 { return v[k] })
		return nil
	case "Full":
		cons(s.D, func(k int, ix []int) float64 { return float64(s.F) })
		return nil
	case "Zeros":
		cons(s.D, func(k int, ix []int) float64 { return 0 })
		return nil
	case "Ones":
		cons(s.D, func(k int, ix []int) float64 { return 1 })
		return nil
	case "Eye":
		cons([]int{s.D[0], s.D[0]}, func(k int, ix []int) float64 { return boolF(ix[0] == ix[1]) })
		return nil
	case "RandU":
		if !(s.F < s.G) {
			r.err = true
			return nil
		}
		cons(s.D, func(k int, ix []int) float64 { return math.NaN() })
		return nil
	case "RandN":
		if !(s.G > 0) {
			r.err = true
			return nil
		}
		cons(s.D, func(k int, ix []int) float64 { return math.NaN() })
		return nil
	case "mutate":
		return nil
	case "backprop":
		if bad || frn {
			r.err = true
			return nil
		}
		return w.backprop(s.In[0])
	case "reset":
		n := &w.n[s.In[0]]
		if n.isGrad >= 0 {
			return errSkip // the same object may be several nodes
		}
		n.gen++
		n.tamb = false
		n.tracked, n.dirty, n.amb, n.grad, n.in, n.s = s.Track, false, false, nil, nil, &Step{Op: "leaf"}
		return nil
	case "grad":
		i := s.In[0]
		if w.n[i].grad == nil {
			return nil
		}
		r.a = w.n[i].grad
		r.amb = true
		r.isGrad = i
		return nil
	case "sgd":
		if bad {
			r.err = true
			return nil
		}
		n := w.n[s.In[0]]
		if n.grad == nil {
			r.err = true
			return nil
		}
		r.a = newArr(n.a.sh)
		for k := range r.a.v {
			r.a.v[k] = n.a.v[k] - float64(s.F)*n.grad.v[k]
		}
		r.dirty, r.in = true, nil
		return nil
	case "At", "NElems", "Shape", "qSum", "qMax", "qMin", "qAvg", "qVar", "qStd", "qMean", "Equals":
		r.isQ = true
		x := in[0]
		switch s.Op {
		case "At":
			ok := len(s.D) == len(x.sh)
			for i := 0; ok && i < len(s.D); i++ {
				ok = 0 <= s.D[i] && s.D[i] < x.sh[i]
			}
			if !ok {
				r.err = true
				return nil
			}
			r.q = []float64{x.v[off(x.sh, s.D)]}
		case "NElems":
			r.q = []float64{float64(len(x.v))}
		case "Shape":
			for _, d := range x.sh {
				r.q = append(r.q, float64(d))
			}
		case "Equals":
			if bad || frn || !eqInts(x.sh, in[1].sh) {
				r.err = true
				return nil
			}
			e := true
			for i := range x.v {
				e = e && math.Abs(x.v[i]-in[1].v[i]) <= eqTau
			}
			r.q = []float64{boolF(e)}
		default:
			r.q = []float64{stat(s.Op[1:], x.v)}
		}
		return nil
	}
	comp := s.Op[0] >= 'a' && s.Op[0] <= 'z'
	if comp && frn {
		r.open = true
		return nil
	}
	if bad || frn {
		r.err = true
		return nil
	}
	st := s
	if comp {
		want := 1
		switch s.Op {
		case "mse", "bce", "ce":
			want = 2
		case "fc":
			want = 3
		}
		if len(in) != want {
			r.err = true
			return nil
		}
		if s.Op == "leaky" && s.Conf == 1 {
			c := *s
			c.F = 0.01
			st = &c
		}
		if s.Op == "softmax" && s.Conf == 1 {
			c := *s
			c.D = []int{0}
			st = &c
		}
	}
	a, err := forward(st, in)
	if err != nil {
		r.err = true
		return nil
	}
	r.a, r.s = a, st
	r.amb = amb || tamb
	r.tamb = tamb || amb && trk && !dirty
	if _, ok := cmps[s.Op]; ok {
		r.tracked = false
		r.tamb = false
		r.amb = dirty || amb || tamb // untracked; whether it counts as spent is left open
		return nil
	}
	r.dirty = dirty
	r.tracked = trk && !dirty
	if r.tracked {
		r.in = s.In
		for _, j := range s.In {
			r.gens = append(r.gens, w.n[j].gen)
		}
	}
	return nil
}

func flattenNest(n *Nest) (sh []int, v []float64, ok bool) {
	if n.K == 0 {
		return nil, []float64{float64(n.V)}, true
	}
	if len(n.S) == 0 {
		return nil, nil, false
	}
	for i := range n.S {
		s, w, ok := flattenNest(&n.S[i])
		if !ok {
			return nil, nil, false
		}
		if i > 0 && !eqInts(sh, s) {
			return nil, nil, false
		}
		sh = s
		v = append(v, w...)
	}
	return append([]int{len(n.S)}, sh...), v, true
}

func (w *refw) backprop(root int) error {
	if w.n[root].tamb {
		return errSkip
	}
	if !w.n[root].tracked {
		return nil
	}
	if w.n[root].dirty {
		return errSkip
	}
	reach := map[int]bool{}
	var visit func(i int) error
	visit = func(i int) error {
		n := &w.n[i]
		if n.tamb {
			return errSkip
		}
		if !n.tracked || reach[i] {
			return nil
		}
		reach[i] = true
		if n.amb || (n.dirty && len(n.in) > 0) {
			return errSkip // an intermediate shared with an earlier back-propagation
		}
		for k, j := range n.in {
			if k < len(n.gens) && n.gens[k] != w.n[j].gen {
				return errSkip // the operand was reset after the graph was built
			}
			if err := visit(j); err != nil {
				return err
			}
		}
		return nil
	}
	if err := visit(root); err != nil {
		return err
	}
	adj := map[int]*arr{}
	one := newArr(w.n[root].a.sh)
	for i := range one.v {
		one.v[i] = 1
	}
	adj[root] = one
	// steps only refer to earlier ones, so descending order is topological
	for i := root; i >= 0; i-- {
		if !reach[i] {
			continue
		}
		n := &w.n[i]
		g := adj[i]
		if n.grad == nil {
			n.grad = g
		} else {
			t := n.grad.clone()
			for k := range t.v {
				t.v[k] += g.v[k]
			}
			n.grad = t
		}
		n.dirty = true
		if len(n.in) == 0 {
			continue
		}
		var in []*arr
		for _, j := range n.in {
			in = append(in, w.n[j].a)
		}
		gs := vjp(n.s, in, n.a, g, w.avg)
		for _, x := range g.v {
			if math.IsNaN(x) { // left open upstream: everything below is open
				for _, a := range gs {
					for q := range a.v {
						a.v[q] = math.NaN()
					}
				}
				break
			}
		}
		for k, j := range n.in {
			if !w.n[j].tracked {
				continue
			}
			if adj[j] == nil {
				adj[j] = gs[k].clone()
				continue
			}
			for q := range gs[k].v {
				adj[j].v[q] += gs[k].v[q]
			}
		}
	}
	return nil
}

// ---- comparison ----

const (
	mVal = 1 << iota
	mErr
	mGradNil
	mGradVal
	mBPErr
	mShape
	mFinite // a result that should be finite is
)

var masks = map[string]int{
	"C01": mGradVal | mGradNil | mBPErr, "C02": mGradVal | mGradNil | mBPErr,
	"C03": mVal | mErr | mShape, "C04": mVal | mErr | mShape, "C05": mVal | mErr | mShape, "C06": mVal | mErr | mShape,
	"C07": mGradVal | mGradNil | mBPErr, "C08": mGradNil | mBPErr,
	"C09": mErr | mShape | mBPErr, "C11": mVal | mErr | mShape | mGradVal | mGradNil | mBPErr,
	"C12": mVal | mErr | mShape, "C13": mGradVal | mGradNil | mBPErr, "C14": mVal | mErr | mShape,
	"C15": mGradVal | mGradNil | mBPErr, "C16": mVal | mErr | mShape | mGradVal | mGradNil | mBPErr,
	"C17": mVal | mErr | mShape,
}

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

func (a *arr) maxAbs() float64 {
	m := 0.
	for _, x := range a.v {
		if finite(x) {
			m = math.Max(m, math.Abs(x))
		}
	}
	return m
}

// sameVal compares values; big is the magnitude of the numbers that took part.
func sameVal(got, want, big float64, strict bool) bool {
	if math.IsNaN(want) {
		return true
	}
	if math.IsInf(want, 0) || want != want {
		return got == want || math.IsNaN(got) || math.Abs(got) > 1e300
	}
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return math.Abs(want) > 1e300
	}
	return math.Abs(got-want) <= 1e-9*math.Abs(want)+1e-11*big+1e-13
}

func cmpArr(got, want *arr, big float64) string {
	if !eqInts(got.sh, want.sh) {
		return fmt.Sprintf("shape %v, expected %v", got.sh, want.sh)
	}
	for k := range want.v {
		if !sameVal(got.v[k], want.v[k], big, false) {
			return fmt.Sprintf("element %d of shape %v is %v, expected %v", k, want.sh, got.v[k], want.v[k])
		}
	}
	return ""
}

const tauSkip = "skip"

// runHist replays a history on the library and on the reference.
// fail: what is violated; known: the recorded finding that explains the difference.
func runHist(c *Case) (fail, known string) {
	m := masks[c.Prop]
	w := newWorld()
	ref := &refw{}
	refA := &refw{avg: true}
	big := 0.
	exact := map[int]bool{}
	for i := range c.Steps {
		s := &c.Steps[i]
		if s.Op == "gradcheck" {
			ref.n, refA.n = append(ref.n, rnode{s: s}), append(refA.n, rnode{s: s})
			w.t, w.args = append(w.t, nil), append(w.args, callerArgs{})
			if f, k := w.checkGrads(c, ref, refA, m, big, known); f != "" {
				return f, ""
			} else {
				known = k
			}
			continue
		}
		if ref.do(s) != nil || refA.do(s) != nil {
			return "", known
		}
		r := &ref.n[i]
		o := w.do(s)
		if o.panic != nil {
			return fmt.Sprintf("step %d (%s) panicked: %v", i, s.Op, o.panic), ""
		}
		if s.Op == "backprop" {
			if (o.err != nil) != r.err {
				if m&mBPErr != 0 {
					return fmt.Sprintf("step %d: BackPropagate returned error %v", i, o.err), ""
				}
				return "", known
			}
			continue
		}
		if r.open {
			continue
		}
		if (o.err != nil) != r.err {
			if m&mErr != 0 {
				if r.err {
					return fmt.Sprintf("step %d (%s) was accepted although its precondition fails", i, s.Op), ""
				}
				return fmt.Sprintf("step %d (%s) returned error: %v", i, s.Op, o.err), ""
			}
			return "", known
		}
		if o.err != nil {
			if o.t != nil && m&mErr != 0 {
				return fmt.Sprintf("step %d (%s) returned a result along with the error %v", i, s.Op, o.err), ""
			}
			continue
		}
		if r.isQ {
			if len(o.q) != len(r.q) {
				if m&mVal != 0 {
					return fmt.Sprintf("step %d (%s): %v, expected %v", i, s.Op, o.q, r.q), ""
				}
				return "", known
			}
			for k := range r.q {
				qb := 0.
				if s.Op[0] == 'q' {
					qb = ref.n[s.In[0]].a.maxAbs() * 1e-2
				}
				if !sameVal(o.q[k], r.q[k], qb, true) {
					if m&mVal != 0 {
						return fmt.Sprintf("step %d (%s): %v, expected %v", i, s.Op, o.q, r.q), ""
					}
					return "", known
				}
			}
			continue
		}
		if r.a == nil {
			if o.t != nil && s.Op == "grad" && m&mGradNil != 0 {
				return fmt.Sprintf("step %d: node %d has a gradient although it takes no part in a back-propagation", i, s.In[0]), ""
			}
			continue
		}
		if o.t == nil {
			if s.Op == "grad" && m&mGradNil == 0 || s.Op != "grad" && m&(mErr|mVal) == 0 {
				return "", known
			}
			return fmt.Sprintf("step %d (%s) returned neither a result nor an error", i, s.Op), ""
		}
		got, err := read(o.t)
		if err != nil {
			if m&(mVal|mShape) != 0 {
				return fmt.Sprintf("step %d (%s): result unreadable: %v", i, s.Op, err), ""
			}
			return "", known
		}
		if s.Op == "grad" {
			continue // judged by checkGrads
		}
		// magnitude of what took part in this step
		b := 0.
		for _, j := range s.In {
			if j >= 0 && ref.n[j].a != nil {
				b = math.Max(b, ref.n[j].a.maxAbs())
			}
		}
		if isElementwise(s.Op) {
			b = math.Min(b, 1) // no sums: element against element
		}
		ob := b
		for _, j := range s.In {
			if j >= 0 && !exact[j] {
				b = math.Max(b, big) // operands already carry rounding
			}
		}
		exact[i] = s.Op == "leaf" || b == ob && isMove(s.Op) && allExact(exact, s.In)
		if s.Op == "Pow" || s.Op == "Tan" || s.Op == "Exp" || s.Op == "Log" || s.Op == "Div" {
			if !allExact(exact, s.In) {
				b = math.Max(b, r.a.maxAbs())
			}
		}
		big = math.Max(big, r.a.maxAbs())
		if d := cmpArr(got, r.a, b); d != "" {
			if !eqInts(got.sh, r.a.sh) {
				if m&mShape != 0 {
					return fmt.Sprintf("step %d (%s): %s", i, s.Op, d), ""
				}
			} else if m&mVal != 0 {
				return fmt.Sprintf("step %d (%s): %s", i, s.Op, d), ""
			}
			return "", known
		}
	}
	f, k := w.checkGrads(c, ref, refA, m, big, known)
	if f == "" && c.Prop == "C08" {
		f = w.untrackedRun(c, ref)
	}
	return f, k
}

// untrackedRun repeats the forward part without any tracking: the values must be the same.
func (w *world) untrackedRun(c *Case, ref *refw) string {
	u := newWorld()
	for i := range c.Steps {
		s := c.Steps[i]
		s.Track = false
		if w.t[i] == nil || ref.n[i].a == nil || s.Op == "grad" {
			u.t, u.args = append(u.t, w.t[i]), append(u.args, callerArgs{})
			continue
		}
		if o := u.do(&s); o.t == nil {
			return fmt.Sprintf("step %d (%s) fails when nothing is tracked: %v %v", i, s.Op, o.err, o.panic)
		}
		a, e1 := read(w.t[i])
		b, e2 := read(u.t[i])
		if e1 != nil || e2 != nil || !sameBits(a, b) {
			return fmt.Sprintf("step %d (%s): tracking changes the values", i, s.Op)
		}
	}
	return ""
}

func isMove(op string) bool {
	switch op {
	case "Slice", "Patch", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast", "Concat":
		return true
	}
	return false
}

func allExact(e map[int]bool, in []int) bool {
	for _, j := range in {
		if j >= 0 && !e[j] {
			return false
		}
	}
	return true
}

func isElementwise(op string) bool {
	if _, ok := unary[op]; ok {
		return true
	}
	if _, ok := arith[op]; ok {
		return true
	}
	switch op {
	case "Scale", "Pow", "ElMax", "ElMin", "leaky", "Slice", "Patch", "Reshape", "Broadcast", "Concat", "Transpose", "softmax":
		return true
	}
	return false
}

func (w *world) checkGrads(c *Case, ref, refA *refw, m int, big float64, known string) (string, string) {
	if m&(mGradNil|mGradVal) == 0 {
		return "", known
	}
	gb, up := big, 0.
	for i := range ref.n {
		if g := ref.n[i].grad; g != nil {
			gb = math.Max(gb, g.maxAbs())
			up = math.Max(up, g.maxAbs())
		}
	}
	if gb > 1e12 && c.Kind != "single" {
		return "", known
	}
	mag := map[int]float64{}
	if c.Kind == "single" {
		mag = ref.magnitudes()
	}
	for i := range ref.n {
		r := &ref.n[i]
		t := w.t[i]
		if t == nil || r.a == nil || r.isGrad >= 0 {
			continue
		}
		g := t.Gradient()
		if (g != nil) != (r.grad != nil) {
			if r.tamb {
				continue
			}
			if m&mGradNil != 0 {
				if g == nil {
					return fmt.Sprintf("node %d (%s) has no gradient", i, c.Steps[i].Op), ""
				}
				return fmt.Sprintf("node %d (%s) has a gradient although it must have none", i, c.Steps[i].Op), ""
			}
			continue
		}
		if g == nil || m&mGradVal == 0 {
			continue
		}
		got, err := read(g)
		if err != nil {
			return fmt.Sprintf("gradient of node %d unreadable: %v", i, err), ""
		}
		b := gb
		if c.Kind == "single" {
			b = math.Max(r.grad.maxAbs(), mag[i]) + math.Min(big, 1)
			if c.Prop == "C15" {
				b = up * 1e-3 // derivatives of activations have nothing that cancels but in sums of upstream gradients
			}
		}
		if d := cmpArr(got, r.grad, b*10); d != "" {
			if cmpArr(got, refA.n[i].grad, b*10) == "" {
				known = "explicit-broadcast-average"
				continue
			}
			return fmt.Sprintf("gradient of node %d (%s): %s", i, c.Steps[i].Op, d), ""
		}
		for k, e := range r.grad.v {
			if math.IsNaN(e) {
				continue
			}
			if finite(e) && !finite(got.v[k]) && math.Abs(e) < 1e290 {
				return fmt.Sprintf("gradient of node %d (%s): element %d is %v, expected finite %v", i, c.Steps[i].Op, k, got.v[k], e), ""
			}
		}
	}
	return "", known
}

// magnitudes gives, per operand of a sum of products, the size of the terms its
// gradient adds up (cancellation makes the sum only as exact as its terms).
func (w *refw) magnitudes() map[int]float64 {
	m := map[int]float64{}
	for i := len(w.n) - 1; i >= 0; i-- {
		r := &w.n[i]
		if r.grad == nil || r.s == nil || len(r.in) == 0 {
			continue
		}
		switch r.s.Op {
		case "Add", "Sub", "Mul", "Div", "Dot", "MatMul":
			var in []*arr
			for _, j := range r.in {
				in = append(in, w.n[j].a.abs())
			}
			for k, g := range vjp(r.s, in, r.a.abs(), r.grad.abs(), false) {
				m[r.in[k]] += g.maxAbs()
			}
		case "Scale":
			m[r.in[0]] += m[i] * math.Abs(float64(r.s.F))
		}
	}
	return m
}

func (a *arr) abs() *arr {
	b := newArr(a.sh)
	for i, x := range a.v {
		b.v[i] = math.Abs(x)
	}
	return b
}
