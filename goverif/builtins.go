package main

// Builtins and trusted contracts of functions outside the repository.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, vals ...Val) []Outcome { return []Outcome{{st: st, vals: vals}} }

func asSlice(v Val) (VSlice, bool) {
	s, ok := v.(VSlice)
	return s, ok
}

func (ex *Exec) builtin(st *State, b *ssa.Builtin, x *ssa.Call, args []Val) []Outcome {
	switch b.Name() {
	case "len", "cap":
		switch s := args[0].(type) {
		case VSlice:
			if b.Name() == "len" {
				return one(st, VT{s.len})
			}
			return one(st, VT{s.cap})
		case VNil:
			return one(st, VT{I(0)})
		case VStr:
			return one(st, VT{I(int64(len(s.s)))})
		case VMap:
			d := st.readCell(s.ref, I(0)).(VMapData)
			return one(st, VT{I(int64(len(d.keys)))})
		}
	case "append":
		return one(st, ex.doAppend(st, x, args[0], args[1]))
	case "copy":
		d, ok1 := asSlice(args[0])
		s, ok2 := asSlice(args[1])
		if !ok1 || !ok2 {
			return one(st, VT{I(0)})
		}
		n := s.len
		if !st.must(Le(s.len, d.len)) {
			n = d.len
		}
		st.bulkCopy(d.ref, d.off, s.ref, s.off, n, ex.posOf(x.Pos()))
		return one(st, VT{n})
	case "min", "max":
		r := term(args[0])
		for _, a := range args[1:] {
			t := term(a)
			if r.sort == SInt && r != t {
				// which one it is decides shapes and indices: take the paths apart
				if st.must(Le(r, t)) == (b.Name() == "max") {
					r = t
				}
				continue
			}
			if b.Name() == "min" {
				r = MinT(r, term(a))
			} else {
				r = MaxT(r, term(a))
			}
		}
		return one(st, VT{r})
	case "print", "println":
		return one(st)
	case "delete":
		if m, ok := args[0].(VMap); ok {
			d := st.readCell(m.ref, I(0)).(VMapData)
			nd := VMapData{}
			for i := range d.keys {
				if !st.must(st.valEq(d.keys[i], args[1])) {
					nd.keys = append(nd.keys, d.keys[i])
					nd.vals = append(nd.vals, d.vals[i])
				}
			}
			st.writeCell(m.ref, I(0), nd, "", ex.posOf(x.Pos()))
		}
		return one(st)
	case "clear":
		switch s := args[0].(type) {
		case VNil:
			return one(st)
		case VMap:
			st.writeCell(s.ref, I(0), VMapData{}, "", ex.posOf(x.Pos()))
			return one(st)
		case VSlice:
			if n, ok := s.len.intVal(); ok && n <= 64 {
				z := zeroVal(x.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := 0; i < n; i++ {
					st.writeCell(s.ref, Add(s.off, I(int64(i))), z, "", ex.posOf(x.Pos()))
				}
				return one(st)
			}
		}
	case "ssa:wrapnilchk":
		return one(st, args[0])
	}
	unsup("builtin %s on %T", b.Name(), args[0])
	return nil
}

// grown is the capacity the runtime picks when append outgrows an array; it only
// matters for how much later appends share, and is taken from this Go release.
func grown(el types.Type, oldCap, newLen int) int {
	sz := (&types.StdSizes{WordSize: 8, MaxAlign: 8}).Sizeof(el)
	switch {
	case sz <= 8:
		return cap(append(make([]int64, oldCap), make([]int64, newLen-oldCap)...))
	case sz <= 16:
		return cap(append(make([][2]int64, oldCap), make([][2]int64, newLen-oldCap)...))
	default:
		return cap(append(make([][3]int64, oldCap), make([][3]int64, newLen-oldCap)...))
	}
}

func (ex *Exec) doAppend(st *State, x *ssa.Call, dv, sv Val) Val {
	pos := ex.posOf(x.Pos())
	s, ok := asSlice(sv)
	if !ok {
		return dv
	}
	el := x.Type().Underlying().(*types.Slice).Elem()
	d, ok := asSlice(dv)
	if !ok {
		if st.must(Eq(s.len, I(0))) {
			return dv
		}
		d = VSlice{&Ref{}, I(0), I(0), I(0)}
	}
	n := Add(d.len, s.len)
	if d.ref.fam != nil && st.must(Le(n, d.cap)) {
		st.bulkCopy(d.ref, Add(d.off, d.len), s.ref, s.off, s.len, pos)
		return VSlice{d.ref, d.off, n, d.cap}
	}
	c := n
	if k, ok := n.intVal(); ok {
		if oc, ok := d.cap.intVal(); ok && k > oc {
			c = I(int64(grown(el, oc, k)))
		}
	}
	r := st.alloc("append", el, c, zeroVal(el))
	if d.ref.fam != nil {
		st.bulkCopy(r, I(0), d.ref, d.off, d.len, pos)
	}
	st.bulkCopy(r, d.len, s.ref, s.off, s.len, pos)
	return VSlice{r, I(0), n, c}
}

// bulkCopy copies n cells; source values are those before the copy.
func (st *State) bulkCopy(dst *Ref, doff *Term, src *Ref, soff *Term, n *Term, pos string) {
	if k, ok := n.intVal(); ok && (k <= 16 || k <= 4096 && st.get(dst.fam).conc() && st.get(src.fam).conc()) {
		vals := make([]Val, k)
		for i := range vals {
			vals[i] = st.readCell(src, Add(soff, I(int64(i))))
			if h, ok := vals[i].(VHavoc); ok {
				unsup("copy of a value carried around a loop (%s)", h.why)
			}
		}
		for i := range vals {
			st.writeCell(dst, Add(doff, I(int64(i))), vals[i], "", pos)
		}
		return
	}
	dc, sc := st.get(dst.fam), st.get(src.fam)
	if dc.conc() || sc.conc() {
		unsup("copy of symbolic length between fixed-size arrays")
	}
	if theExec.readLog != nil {
		theExec.readLog[readKey{src.fam, termsKey(src.args), V("*", SInt)}] = src
	}
	// layer by layer, oldest first
	var ls []*Layer
	for l := sc.sym; l != nil; l = l.next {
		ls = append(ls, l)
		if l.guard == nil {
			break
		}
	}
	j := dst.fam.j
	sj := Add(Sub(j, doff), soff)
	base := []*Term{Ge(j, doff), Lt(j, Add(doff, n))}
	for i, p := range dst.fam.params {
		base = append(base, Eq(p, dst.args[i]))
	}
	s := src.subst()
	s[src.fam.j] = sj
	top := dc.sym
	for i := len(ls) - 1; i >= 0; i-- {
		g := append([]*Term(nil), base...)
		if ls[i].guard != nil {
			g = append(g, s.apply(ls[i].guard))
		}
		top = &Layer{guard: And(g...), val: substVal(ls[i].val, s), next: top}
	}
	st.set(dst.fam, &Content{n: dc.n, sym: top, model: dc.model})
	st.writes = &WriteRec{dst.fam, dst.args, V("*", SInt), "", st.writes, pos}
}

/* ---------- external functions ---------- */

var errT types.Type // an error implementation the code under verification cannot name

var errN int

func newErr() Val {
	errN++
	return VIface{errT, VOpaque{mkApp(fmt.Sprintf("err%d", errN), SInt)}}
}

type extFn func(ex *Exec, st *State, fn *ssa.Function, args []Val) []Outcome

func ext1(name string) extFn {
	return func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome {
		t := term(a[0])
		if ex.onDef != nil {
			switch name {
			case "log":
				ex.onDef(st, "log", Gt(t, R(0)))
			case "sqrt":
				ex.onDef(st, "sqrt", Ge(t, R(0)))
			}
		}
		return one(st, VT{fn1(name, t)})
	}
}

var externals map[string]extFn

func init() {
	externals = map[string]extFn{
		"fmt.Errorf": func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome { return one(st, newErr()) },
		"errors.New": func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome { return one(st, newErr()) },
		"math.Exp":   ext1("exp"),
		"math.Log":   ext1("log"),
		"math.Sin":   ext1("sin"),
		"math.Cos":   ext1("cos"),
		"math.Tan":   ext1("tan"),
		"math.Sinh":  ext1("sinh"),
		"math.Cosh":  ext1("cosh"),
		"math.Tanh":  ext1("tanh"),
		"math.Sqrt":  ext1("sqrt"),
		"math.Abs": func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome {
			return one(st, VT{AbsT(term(a[0]))})
		},
		"math.Max": func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome {
			return one(st, VT{MaxT(term(a[0]), term(a[1]))})
		},
		"math.Min": func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome {
			return one(st, VT{MinT(term(a[0]), term(a[1]))})
		},
		"math.Pow": func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome {
			return one(st, VT{PowR(term(a[0]), term(a[1]))})
		},
		"math.Inf": func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome {
			if st.must(Ge(term(a[0]), I(0))) {
				return one(st, VT{PosInf})
			}
			return one(st, VT{NegInf})
		},
		"slices.overlaps": func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome {
			x, ok1 := asSlice(a[0])
			y, ok2 := asSlice(a[1])
			if !ok1 || !ok2 || x.ref.fam == nil || y.ref.fam == nil || x.ref.fam != y.ref.fam {
				return one(st, VT{tFalse})
			}
			c := And(Gt(x.len, I(0)), Gt(y.len, I(0)), Lt(x.off, Add(y.off, y.len)), Lt(y.off, Add(x.off, x.len)))
			for i := range x.ref.args {
				c = And(c, Eq(x.ref.args[i], y.ref.args[i]))
			}
			return one(st, VT{c})
		},
		"math.IsNaN": func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome { return one(st, VT{tFalse}) },
		"math.IsInf": func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome { return one(st, VT{tFalse}) },
		"(gonum.org/v1/gonum/stat/distuv.Uniform).Rand": randExt("drawU"),
		"(gonum.org/v1/gonum/stat/distuv.Normal).Rand":  randExt("drawN"),
	}
}

// randExt: a fresh draw, identified by its number, from the distribution with the
// given parameters; the global source (nil Src) is required.
func randExt(name string) extFn {
	return func(ex *Exec, st *State, fn *ssa.Function, a []Val) []Outcome {
		s, ok := a[0].(VStruct)
		if !ok || len(s.f) != 3 {
			unsup("distribution value")
		}
		if _, ok := s.f[2].(VNil); !ok {
			unsup("random source other than the locked global one")
		}
		v := mkApp(name, SReal, term(s.f[0]), term(s.f[1]), st.draws)
		st.draws = Add(st.draws, I(1))
		return one(st, VT{v})
	}
}
