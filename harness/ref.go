// Reference semantics: n-dimensional arrays, the defined forward values and the
// mathematically defined vector-Jacobian products, written from the property
// statements and independent of the library.
package main

import (
	"fmt"
	"math"
)

type arr struct {
	sh []int
	v  []float64
}

func prod(s []int) int {
	p := 1
	for _, d := range s {
		p *= d
	}
	return p
}

func newArr(sh []int) *arr { return &arr{append([]int{}, sh...), make([]float64, prod(sh))} }

func (a *arr) clone() *arr {
	return &arr{append([]int{}, a.sh...), append([]float64{}, a.v...)}
}

func off(sh, ix []int) int {
	o := 0
	for i, d := range sh {
		o = o*d + ix[i]
	}
	return o
}

// each calls f for every multi-index of sh in row-major order; ix is reused.
func each(sh []int, f func(k int, ix []int)) {
	ix := make([]int, len(sh))
	n := prod(sh)
	for k := 0; k < n; k++ {
		f(k, ix)
		for i := len(sh) - 1; i >= 0; i-- {
			ix[i]++
			if ix[i] < sh[i] {
				break
			}
			ix[i] = 0
		}
	}
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func bshape(a, b []int) ([]int, bool) {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]int, n)
	for i := 1; i <= n; i++ {
		x, y := 1, 1
		if i <= len(a) {
			x = a[len(a)-i]
		}
		if i <= len(b) {
			y = b[len(b)-i]
		}
		switch {
		case x == y, y == 1:
			r[n-i] = x
		case x == 1:
			r[n-i] = y
		default:
			return nil, false
		}
	}
	return r, true
}

// bidx: position in an array of shape src of the element that broadcasting puts at ix.
func bidx(src, ix []int) int {
	o := 0
	d := len(ix) - len(src)
	for i, s := range src {
		j := ix[d+i]
		if s == 1 {
			j = 0
		}
		o = o*s + j
	}
	return o
}

func bcast(a *arr, sh []int) *arr {
	r := newArr(sh)
	each(sh, func(k int, ix []int) { r.v[k] = a.v[bidx(a.sh, ix)] })
	return r
}

func unbcast(g *arr, sh []int) *arr {
	r := newArr(sh)
	each(g.sh, func(k int, ix []int) { r.v[bidx(sh, ix)] += g.v[k] })
	return r
}

const eqTau = 1e-240

func boolF(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func without(s []int, d int) []int {
	r := append([]int{}, s[:d]...)
	return append(r, s[d+1:]...)
}

func stat(op string, f []float64) float64 {
	n := float64(len(f))
	s := 0.
	switch op {
	case "Sum":
		for _, x := range f {
			s += x
		}
		return s
	case "Max":
		m := math.Inf(-1)
		for _, x := range f {
			m = math.Max(m, x)
		}
		return m
	case "Min":
		m := math.Inf(1)
		for _, x := range f {
			m = math.Min(m, x)
		}
		return m
	case "Avg", "Mean":
		for _, x := range f {
			s += x
		}
		return s / n
	case "Var", "Std":
		if len(f) == 1 {
			return 0
		}
		m := stat("Avg", f)
		for _, x := range f {
			s += (x - m) * (x - m)
		}
		s /= n - 1
		if op == "Std" {
			return math.Sqrt(s)
		}
		return s
	}
	panic(op)
}

var unary = map[string]func(x float64) float64{
	"Exp": math.Exp, "Log": math.Log, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan,
	"Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh,
	"relu":    func(x float64) float64 { return math.Max(0, x) },
	"sigmoid": func(x float64) float64 { return 1 / (1 + math.Exp(-x)) },
	"tanh":    math.Tanh,
}

var cmps = map[string]func(a, b float64) bool{
	"Eq": func(a, b float64) bool { return math.Abs(a-b) <= eqTau },
	"Ne": func(a, b float64) bool { return !(math.Abs(a-b) <= eqTau) },
	"Gt": func(a, b float64) bool { return a > b },
	"Ge": func(a, b float64) bool { return a >= b },
	"Lt": func(a, b float64) bool { return a < b },
	"Le": func(a, b float64) bool { return a <= b },
}

var arith = map[string]func(a, b float64) float64{
	"Add": func(a, b float64) float64 { return a + b },
	"Sub": func(a, b float64) float64 { return a - b },
	"Mul": func(a, b float64) float64 { return a * b },
	"Div": func(a, b float64) float64 { return a / b },
}

var reds = map[string]string{"SumAlong": "Sum", "MaxAlong": "Max", "MinAlong": "Min", "AvgAlong": "Avg",
	"VarAlong": "Var", "StdAlong": "Std", "MeanAlong": "Mean"}

var errBad = fmt.Errorf("invalid")

func rangeAt(r [][2]int, i, d int) (int, int) {
	if i < len(r) && (r[i][0] != 0 || r[i][1] != 0) {
		return r[i][0], r[i][1]
	}
	return 0, d
}

func validRanges(r [][2]int, sh []int) bool {
	if len(r) > len(sh) {
		return false
	}
	for i, x := range r {
		if x[0] == 0 && x[1] == 0 {
			continue
		}
		if !(0 <= x[0] && x[0] < x[1] && x[1] <= sh[i]) {
			return false
		}
	}
	return true
}

func posDims(d []int) bool {
	for _, x := range d {
		if x <= 0 {
			return false
		}
	}
	return true
}

func sameProd(d []int, n int) bool {
	p := 1
	for _, x := range d {
		if x <= 0 || x > n {
			return false
		}
		p *= x
		if p > n {
			return false
		}
	}
	return p == n
}

const bceEps = 1e-12

func clipf(x, l, u float64) float64 { return math.Max(l, math.Min(x, u)) }

// forward gives the defined result, or errBad when the precondition fails.
func forward(s *Step, in []*arr) (*arr, error) {
	for _, a := range in {
		if a == nil {
			return nil, errBad
		}
	}
	op := s.Op
	var x *arr
	if len(in) > 0 {
		x = in[0]
	}
	if f, ok := unary[op]; ok {
		if len(in) != 1 {
			return nil, errBad
		}
		r := newArr(x.sh)
		for i, v := range x.v {
			r.v[i] = f(v)
		}
		return r, nil
	}
	if f, ok := cmps[op]; ok {
		if !eqInts(x.sh, in[1].sh) {
			return nil, errBad
		}
		r := newArr(x.sh)
		for i, v := range x.v {
			r.v[i] = boolF(f(v, in[1].v[i]))
		}
		return r, nil
	}
	if f, ok := arith[op]; ok {
		sh, ok := bshape(x.sh, in[1].sh)
		if !ok {
			return nil, errBad
		}
		r := newArr(sh)
		each(sh, func(k int, ix []int) { r.v[k] = f(x.v[bidx(x.sh, ix)], in[1].v[bidx(in[1].sh, ix)]) })
		return r, nil
	}
	if st, ok := reds[op]; ok {
		d := s.D[0]
		if d < 0 || d >= len(x.sh) {
			return nil, errBad
		}
		r := newArr(without(x.sh, d))
		fib := make([]float64, x.sh[d])
		each(r.sh, func(k int, ix []int) {
			full := append(append(append([]int{}, ix[:d]...), 0), ix[d:]...)
			for j := range fib {
				full[d] = j
				fib[j] = x.v[off(x.sh, full)]
			}
			r.v[k] = stat(st, fib)
		})
		return r, nil
	}
	switch op {
	case "Scale":
		r := newArr(x.sh)
		for i, v := range x.v {
			r.v[i] = float64(s.F) * v
		}
		return r, nil
	case "Pow":
		r := newArr(x.sh)
		for i, v := range x.v {
			r.v[i] = math.Pow(v, float64(s.F))
		}
		return r, nil
	case "ElMax", "ElMin":
		if !eqInts(x.sh, in[1].sh) {
			return nil, errBad
		}
		r := newArr(x.sh)
		for i, v := range x.v {
			if op == "ElMax" {
				r.v[i] = math.Max(v, in[1].v[i])
			} else {
				r.v[i] = math.Min(v, in[1].v[i])
			}
		}
		return r, nil
	case "Slice":
		if !validRanges(s.R, x.sh) {
			return nil, errBad
		}
		sh := make([]int, len(x.sh))
		lo := make([]int, len(x.sh))
		for i, d := range x.sh {
			a, b := rangeAt(s.R, i, d)
			lo[i], sh[i] = a, b-a
		}
		r := newArr(sh)
		src := make([]int, len(sh))
		each(sh, func(k int, ix []int) {
			for i := range ix {
				src[i] = ix[i] + lo[i]
			}
			r.v[k] = x.v[off(x.sh, src)]
		})
		return r, nil
	case "Patch":
		p := in[1]
		if !validRanges(s.R, x.sh) || len(p.sh) != len(x.sh) {
			return nil, errBad
		}
		lo := make([]int, len(x.sh))
		for i, d := range x.sh {
			if i < len(s.R) && (s.R[i][0] != 0 || s.R[i][1] != 0) {
				if s.R[i][1]-s.R[i][0] != p.sh[i] {
					return nil, errBad
				}
				lo[i] = s.R[i][0]
			}
			if p.sh[i] > d {
				return nil, errBad
			}
		}
		r := x.clone()
		dst := make([]int, len(lo))
		each(p.sh, func(k int, ix []int) {
			for i := range ix {
				dst[i] = ix[i] + lo[i]
			}
			r.v[off(x.sh, dst)] = p.v[k]
		})
		return r, nil
	case "Transpose":
		n := len(x.sh)
		if n < 2 {
			return nil, errBad
		}
		sh := append([]int{}, x.sh...)
		sh[n-1], sh[n-2] = sh[n-2], sh[n-1]
		r := newArr(sh)
		src := make([]int, n)
		each(sh, func(k int, ix []int) {
			copy(src, ix)
			src[n-1], src[n-2] = ix[n-2], ix[n-1]
			r.v[k] = x.v[off(x.sh, src)]
		})
		return r, nil
	case "Reshape":
		if !sameProd(s.D, len(x.v)) {
			return nil, errBad
		}
		return &arr{append([]int{}, s.D...), append([]float64{}, x.v...)}, nil
	case "UnSqueeze":
		d := s.D[0]
		if d < 0 || d > len(x.sh) {
			return nil, errBad
		}
		sh := append(append(append([]int{}, x.sh[:d]...), 1), x.sh[d:]...)
		return &arr{sh, append([]float64{}, x.v...)}, nil
	case "Squeeze":
		d := s.D[0]
		if d < 0 || d >= len(x.sh) || x.sh[d] != 1 {
			return nil, errBad
		}
		return &arr{without(x.sh, d), append([]float64{}, x.v...)}, nil
	case "Flatten":
		d := s.D[0]
		if d < 0 || d >= len(x.sh) {
			return nil, errBad
		}
		sh := append(append([]int{}, x.sh[:d]...), prod(x.sh[d:]))
		return &arr{sh, append([]float64{}, x.v...)}, nil
	case "Broadcast":
		if !posDims(s.D) || len(s.D) < len(x.sh) {
			return nil, errBad
		}
		for i := 1; i <= len(x.sh); i++ {
			a, b := x.sh[len(x.sh)-i], s.D[len(s.D)-i]
			if a != b && a != 1 {
				return nil, errBad
			}
		}
		return bcast(x, s.D), nil
	case "Dot":
		y := in[1]
		if len(x.sh) < 1 || len(y.sh) < 1 || x.sh[len(x.sh)-1] != y.sh[len(y.sh)-1] {
			return nil, errBad
		}
		sh, ok := bshape(x.sh, y.sh)
		if !ok {
			return nil, errBad
		}
		r := newArr(sh[:len(sh)-1])
		n := sh[len(sh)-1]
		each(sh, func(k int, ix []int) { r.v[k/n] += x.v[bidx(x.sh, ix)] * y.v[bidx(y.sh, ix)] })
		return r, nil
	case "MatMul":
		y := in[1]
		a, b := len(x.sh), len(y.sh)
		if a < 2 || b < 2 || x.sh[a-1] != y.sh[b-2] {
			return nil, errBad
		}
		bs, ok := bshape(x.sh[:a-2], y.sh[:b-2])
		if !ok {
			return nil, errBad
		}
		m, q, n := x.sh[a-2], x.sh[a-1], y.sh[b-1]
		r := newArr(append(append([]int{}, bs...), m, n))
		each(bs, func(k int, ix []int) {
			xo, yo := bidx(x.sh[:a-2], ix)*m*q, bidx(y.sh[:b-2], ix)*q*n
			for i := 0; i < m; i++ {
				for j := 0; j < n; j++ {
					t := 0.
					for l := 0; l < q; l++ {
						t += x.v[xo+i*q+l] * y.v[yo+l*n+j]
					}
					r.v[k*m*n+i*n+j] = t
				}
			}
		})
		return r, nil
	case "Concat":
		if len(in) < 2 || len(x.sh) == 0 {
			return nil, errBad
		}
		d := s.D[0]
		if d < 0 || d >= len(x.sh) {
			return nil, errBad
		}
		sh := append([]int{}, x.sh...)
		sh[d] = 0
		for _, a := range in {
			if len(a.sh) != len(x.sh) {
				return nil, errBad
			}
			for i := range a.sh {
				if i != d && a.sh[i] != x.sh[i] {
					return nil, errBad
				}
			}
			sh[d] += a.sh[d]
		}
		r := newArr(sh)
		o := 0
		for _, a := range in {
			dst := make([]int, len(sh))
			each(a.sh, func(k int, ix []int) {
				copy(dst, ix)
				dst[d] += o
				r.v[off(sh, dst)] = a.v[k]
			})
			o += a.sh[d]
		}
		return r, nil
	case "leaky":
		r := newArr(x.sh)
		for i, v := range x.v {
			r.v[i] = math.Max(0, v) + float64(s.F)*math.Min(0, v)
		}
		return r, nil
	case "softmax":
		d := s.D[0]
		if d < 0 || len(x.sh) <= d {
			return nil, errBad
		}
		r := newArr(x.sh)
		for i, v := range x.v {
			r.v[i] = math.Exp(v)
		}
		t := newArr(without(x.sh, d))
		each(x.sh, func(k int, ix []int) { t.v[off(t.sh, without(ix, d))] += r.v[k] })
		each(x.sh, func(k int, ix []int) { r.v[k] /= t.v[off(t.sh, without(ix, d))] })
		return r, nil
	case "mse", "bce":
		t := in[1]
		if len(x.sh) != 1 || len(t.sh) != 1 || x.sh[0] != t.sh[0] {
			return nil, errBad
		}
		r := newArr(nil)
		for i := range x.v {
			if op == "mse" {
				r.v[0] += (t.v[i] - x.v[i]) * (t.v[i] - x.v[i])
			} else {
				p, y := clipf(x.v[i], bceEps, 1-bceEps), clipf(t.v[i], 0, 1)
				r.v[0] += -(y*math.Log(p) + (1-y)*math.Log(1-p))
			}
		}
		r.v[0] /= float64(len(x.v))
		return r, nil
	case "ce":
		t := in[1]
		if len(x.sh) != 2 || len(t.sh) != 2 || !eqInts(x.sh, t.sh) {
			return nil, errBad
		}
		r := newArr(nil)
		for i := range x.v {
			p, y := clipf(x.v[i], bceEps, 1-bceEps), clipf(t.v[i], 0, 1)
			r.v[0] += -y * math.Log(p)
		}
		r.v[0] /= float64(x.sh[0])
		return r, nil
	case "fc": // x, w, b
		w, b := in[1], in[2]
		if len(x.sh) != 2 || len(w.sh) != 1 || !eqInts(w.sh, b.sh) {
			return nil, errBad
		}
		o := w.sh[0]
		r := newArr([]int{x.sh[0], o})
		for i := 0; i < x.sh[0]; i++ {
			t := 0.
			for d := 0; d < x.sh[1]; d++ {
				t += x.v[i*x.sh[1]+d]
			}
			for j := 0; j < o; j++ {
				r.v[i*o+j] = w.v[j]*t + b.v[j]
			}
		}
		return r, nil
	}
	panic("forward " + op)
}

// vjp gives the gradient of each operand for the upstream g. An element whose
// gradient the properties leave open is NaN. avg: the recorded finding about
// explicit Broadcast (the sum divided by the expansion factor).
func vjp(s *Step, in []*arr, y, g *arr, avg bool) []*arr {
	op := s.Op
	x := in[0]
	gx := newArr(x.sh)
	nan := math.NaN()
	if st, ok := reds[op]; ok {
		d := s.D[0]
		n := float64(x.sh[d])
		cnt := newArr(y.sh)
		if st == "Max" || st == "Min" {
			each(x.sh, func(k int, ix []int) {
				if o := off(y.sh, without(ix, d)); math.Abs(x.v[k]-y.v[o]) <= eqTau {
					cnt.v[o]++
				}
			})
		}
		mean, big := newArr(y.sh), newArr(y.sh)
		each(x.sh, func(k int, ix []int) {
			o := off(y.sh, without(ix, d))
			mean.v[o] += x.v[k] / n
			big.v[o] = math.Max(big.v[o], math.Abs(x.v[k]))
		})
		each(x.sh, func(k int, ix []int) {
			o := off(y.sh, without(ix, d))
			switch st {
			case "Sum":
				gx.v[k] = g.v[o]
			case "Avg", "Mean":
				gx.v[k] = g.v[o] / n
			case "Max", "Min":
				if math.Abs(x.v[k]-y.v[o]) <= eqTau {
					gx.v[k] = g.v[o]
					if cnt.v[o] != 1 {
						gx.v[k] = nan
					}
				}
			case "Var":
				if n > 1 {
					gx.v[k] = g.v[o] * 2 * (x.v[k] - mean.v[o]) / (n - 1)
				}
			case "Std":
				if n > 1 {
					if y.v[o] <= 1e-9*big.v[o] { // not differentiable at a constant fibre
						gx.v[k] = nan
					} else {
						gx.v[k] = g.v[o] * (x.v[k] - mean.v[o]) / (n - 1) / y.v[o]
					}
				}
			}
		})
		return []*arr{gx}
	}
	un := func(f func(x, y float64) float64) []*arr {
		for i, v := range x.v {
			gx.v[i] = g.v[i] * f(v, y.v[i])
		}
		return []*arr{gx}
	}
	switch op {
	case "Exp":
		return un(func(x, y float64) float64 { return y })
	case "Log":
		return un(func(x, y float64) float64 {
			if x <= 0 {
				return nan
			}
			return 1 / x
		})
	case "Sin":
		return un(func(x, y float64) float64 { return math.Cos(x) })
	case "Cos":
		return un(func(x, y float64) float64 { return -math.Sin(x) })
	case "Tan":
		return un(func(x, y float64) float64 { return 1 / (math.Cos(x) * math.Cos(x)) })
	case "Sinh":
		return un(func(x, y float64) float64 { return math.Cosh(x) })
	case "Cosh":
		return un(func(x, y float64) float64 { return math.Sinh(x) })
	case "Tanh", "tanh":
		return un(func(x, y float64) float64 { c := math.Cosh(x); return 1 / (c * c) })
	case "Scale":
		return un(func(x, y float64) float64 { return float64(s.F) })
	case "Pow":
		a := float64(s.F)
		return un(func(x, y float64) float64 {
			switch {
			case a == 0:
				return 0
			case a == 1:
				return 1
			case x == 0 && a < 1, x == 0 && a != math.Trunc(a), x < 0 && a != math.Trunc(a), a != a:
				return nan
			}
			return a * math.Pow(x, a-1)
		})
	case "relu", "leaky":
		m := 0.
		if op == "leaky" {
			m = float64(s.F)
		}
		return un(func(x, y float64) float64 {
			switch {
			case math.Abs(x) <= eqTau:
				return nan
			case x > 0:
				return 1
			}
			return m
		})
	case "sigmoid":
		return un(func(x, y float64) float64 { e := math.Exp(-math.Abs(x)); return e / ((1 + e) * (1 + e)) })
	case "softmax":
		d := s.D[0]
		t := newArr(without(x.sh, d))
		each(x.sh, func(k int, ix []int) { t.v[off(t.sh, without(ix, d))] += y.v[k] * g.v[k] })
		each(x.sh, func(k int, ix []int) { gx.v[k] = y.v[k] * (g.v[k] - t.v[off(t.sh, without(ix, d))]) })
		return []*arr{gx}
	case "Reshape", "UnSqueeze", "Squeeze", "Flatten":
		copy(gx.v, g.v)
		return []*arr{gx}
	case "Slice":
		lo := make([]int, len(x.sh))
		for i, d := range x.sh {
			lo[i], _ = rangeAt(s.R, i, d)
		}
		dst := make([]int, len(lo))
		each(g.sh, func(k int, ix []int) {
			for i := range ix {
				dst[i] = ix[i] + lo[i]
			}
			gx.v[off(x.sh, dst)] = g.v[k]
		})
		return []*arr{gx}
	case "Patch":
		p := in[1]
		gp := newArr(p.sh)
		copy(gx.v, g.v)
		lo := make([]int, len(x.sh))
		for i := range x.sh {
			if i < len(s.R) {
				lo[i] = s.R[i][0]
			}
		}
		dst := make([]int, len(lo))
		each(p.sh, func(k int, ix []int) {
			for i := range ix {
				dst[i] = ix[i] + lo[i]
			}
			o := off(x.sh, dst)
			gp.v[k] = g.v[o]
			gx.v[o] = 0
		})
		return []*arr{gx, gp}
	case "Transpose":
		r, _ := forward(&Step{Op: "Transpose"}, []*arr{g})
		return []*arr{r}
	case "Broadcast":
		r := unbcast(g, x.sh)
		if avg {
			f := float64(len(g.v)) / float64(len(x.v))
			for i := range r.v {
				r.v[i] /= f
			}
		}
		return []*arr{r}
	case "Add", "Sub", "Mul", "Div":
		z := in[1]
		a, b := newArr(y.sh), newArr(y.sh)
		each(y.sh, func(k int, ix []int) {
			p, q := x.v[bidx(x.sh, ix)], z.v[bidx(z.sh, ix)]
			switch op {
			case "Add":
				a.v[k], b.v[k] = g.v[k], g.v[k]
			case "Sub":
				a.v[k], b.v[k] = g.v[k], -g.v[k]
			case "Mul":
				a.v[k], b.v[k] = g.v[k]*q, g.v[k]*p
			case "Div":
				a.v[k], b.v[k] = g.v[k]/q, -g.v[k]*(p/q)/q
				if q == 0 {
					a.v[k], b.v[k] = nan, nan
				}
			}
		})
		return []*arr{unbcast(a, x.sh), unbcast(b, z.sh)}
	case "ElMax", "ElMin":
		z := in[1]
		gz := newArr(z.sh)
		for i := range x.v {
			switch {
			case math.Abs(x.v[i]-z.v[i]) <= eqTau: // a tie, as the library's comparison sees it
				gx.v[i], gz.v[i] = nan, nan
			case (x.v[i] > z.v[i]) == (op == "ElMax"):
				gx.v[i] = g.v[i]
			default:
				gz.v[i] = g.v[i]
			}
		}
		return []*arr{gx, gz}
	case "Dot":
		z := in[1]
		sh, _ := bshape(x.sh, z.sh)
		n := sh[len(sh)-1]
		gz := newArr(z.sh)
		each(sh, func(k int, ix []int) {
			i, j := bidx(x.sh, ix), bidx(z.sh, ix)
			gx.v[i] += g.v[k/n] * z.v[j]
			gz.v[j] += g.v[k/n] * x.v[i]
		})
		return []*arr{gx, gz}
	case "MatMul":
		z := in[1]
		gz := newArr(z.sh)
		a, b := len(x.sh), len(z.sh)
		m, q, n := x.sh[a-2], x.sh[a-1], z.sh[b-1]
		each(y.sh[:len(y.sh)-2], func(k int, ix []int) {
			xo, zo := bidx(x.sh[:a-2], ix)*m*q, bidx(z.sh[:b-2], ix)*q*n
			for i := 0; i < m; i++ {
				for j := 0; j < n; j++ {
					w := g.v[k*m*n+i*n+j]
					for l := 0; l < q; l++ {
						gx.v[xo+i*q+l] += w * z.v[zo+l*n+j]
						gz.v[zo+l*n+j] += w * x.v[xo+i*q+l]
					}
				}
			}
		})
		return []*arr{gx, gz}
	case "Concat":
		var r []*arr
		o, d := 0, s.D[0]
		for _, a := range in {
			ga := newArr(a.sh)
			src := make([]int, len(a.sh))
			each(a.sh, func(k int, ix []int) {
				copy(src, ix)
				src[d] += o
				ga.v[k] = g.v[off(g.sh, src)]
			})
			o += a.sh[d]
			r = append(r, ga)
		}
		return r
	case "mse", "bce", "ce":
		t := in[1]
		gt := newArr(t.sh)
		n := float64(len(x.v))
		if op == "ce" {
			n = float64(x.sh[0])
		}
		for i, p := range x.v {
			y := t.v[i]
			if op == "mse" {
				gx.v[i] = g.v[0] * 2 * (p - y) / n
				gt.v[i] = g.v[0] * 2 * (y - p) / n
				continue
			}
			gt.v[i] = nan // the properties speak about the prediction
			if p == bceEps || p == 1-bceEps {
				gx.v[i] = nan
				continue
			}
			if p < bceEps || p > 1-bceEps {
				continue
			}
			y = clipf(y, 0, 1)
			if op == "bce" {
				gx.v[i] = g.v[0] * ((1-y)/(1-p) - y/p) / n
			} else {
				gx.v[i] = g.v[0] * -(y / p) / n
			}
		}
		return []*arr{gx, gt}
	case "fc":
		w, b := in[1], in[2]
		gw, gb := newArr(w.sh), newArr(b.sh)
		o := w.sh[0]
		for i := 0; i < x.sh[0]; i++ {
			t := 0.
			for d := 0; d < x.sh[1]; d++ {
				t += x.v[i*x.sh[1]+d]
			}
			for j := 0; j < o; j++ {
				gw.v[j] += g.v[i*o+j] * t
				gb.v[j] += g.v[i*o+j]
				for d := 0; d < x.sh[1]; d++ {
					gx.v[i*x.sh[1]+d] += g.v[i*o+j] * w.v[j]
				}
			}
		}
		return []*arr{gx, gw, gb}
	}
	panic("vjp " + op)
}
