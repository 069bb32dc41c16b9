package main

// Symbolic tensors: building pre-existing ones and reading results back.

import (
	"fmt"
	"go/types"
)

// layout: where the fields of CPUTensor and GradContext live.
type layout struct {
	tensorT, gctxT, edgeT, rangeT  types.Type
	tdata, tdims, tgctx            int
	tn                             int
	gtracked, gdirty, ggrad, gback int
	gn                             int
	etarget, efn                   int
}

var lay layout

var anySliceT types.Type

func structOf(t types.Type) *types.Struct { return t.Underlying().(*types.Struct) }

func fieldBy(s *types.Struct, name string, ok func(types.Type) bool) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name && ok(s.Field(i).Type()) {
			return i
		}
	}
	n, at := 0, -1
	for i := 0; i < s.NumFields(); i++ {
		if ok(s.Field(i).Type()) {
			n++
			at = i
		}
	}
	if n == 1 {
		return at
	}
	unsup("field %s not found", name)
	return -1
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func initLayout(ex *Exec) {
	ct := ex.typ("tensor/internal/cputensor", "CPUTensor")
	gt := ex.typ("tensor/internal/gradtrack", "GradContext")
	lay.tensorT, lay.gctxT = ct, gt
	lay.rangeT = ex.typ("tensor/internal/tensor", "Range")
	s := structOf(ct)
	lay.tn = s.NumFields()
	lay.tdata = fieldBy(s, "data", func(t types.Type) bool { i, ok := t.Underlying().(*types.Interface); return ok && i.Empty() })
	lay.tdims = fieldBy(s, "dims", func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(sl.Elem(), types.Typ[types.Int])
	})
	lay.tgctx = fieldBy(s, "gctx", func(t types.Type) bool { return types.Identical(t, types.NewPointer(gt)) })
	g := structOf(gt)
	lay.gn = g.NumFields()
	lay.gtracked = fieldBy(g, "tracked", isBool)
	lay.gdirty = fieldBy(g, "bpdirty", isBool)
	lay.ggrad = fieldBy(g, "gradient", types.IsInterface)
	lay.gback = fieldBy(g, "backEdges", func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok })
	et := g.Field(lay.gback).Type().Underlying().(*types.Slice).Elem().(*types.Pointer).Elem()
	lay.edgeT = et
	e := structOf(et)
	lay.etarget = fieldBy(e, "target", types.IsInterface)
	lay.efn = fieldBy(e, "gradFn", func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok })
	anySliceT = types.NewSlice(types.NewInterfaceType(nil, nil))
}

func ptrT(t types.Type) types.Type { return types.NewPointer(t) }

// wrapT is the tensor.Tensor interface value holding p.
func wrapT(p Val) Val { return VIface{ptrT(lay.tensorT), p} }

// newObj allocates a pre-existing (or fresh) object with given cells.
func (st *State) newObj(name string, elem types.Type, pre bool, owner string, vals ...Val) *Ref {
	f := newFamily(name, 0, elem)
	f.pre = pre
	f.owner = owner
	c := &Content{n: I(int64(len(vals))), cells: make([]*Layer, len(vals))}
	for i, v := range vals {
		c.cells[i] = &Layer{val: v}
	}
	st.set(f, c)
	return &Ref{fam: f}
}

func (st *State) intSlice(name string, pre bool, owner string, ts []*Term) Val {
	vs := make([]Val, len(ts))
	for i, t := range ts {
		vs[i] = VT{t}
	}
	r := st.newObj(name, types.Typ[types.Int], pre, owner, vs...)
	n := I(int64(len(ts)))
	return VSlice{r, I(0), n, n}
}

// dataTree builds nested []any data for the given dims, sharing nothing.
func (st *State) dataTree(name string, dims []*Term, elem func([]*Term) *Term, pre bool, owner string) Val {
	f64 := types.Typ[types.Float64]
	if len(dims) == 0 {
		return VIface{f64, VT{elem(nil)}}
	}
	var fams []*Family
	for l := range dims {
		f := newFamily(fmt.Sprintf("%s.data%d", name, l), l, anySliceT.(*types.Slice).Elem())
		f.pre = pre
		f.owner = owner
		fams = append(fams, f)
	}
	for l, f := range fams {
		var v Val
		idx := append(append([]*Term(nil), f.params...), f.j)
		if l == len(dims)-1 {
			v = VIface{f64, VT{elem(idx)}}
		} else {
			d := dims[l+1]
			v = VIface{anySliceT, VSlice{&Ref{fams[l+1], idx}, I(0), d, d}}
		}
		c := &Content{n: dims[l], sym: &Layer{val: v}}
		if k, ok := dims[l].intVal(); ok {
			c = &Content{n: dims[l]}
			for i := 0; i < k; i++ {
				c.cells = append(c.cells, &Layer{val: substVal(v, Subst{f.j: I(int64(i))})})
			}
		}
		st.set(f, c)
	}
	return VIface{anySliceT, VSlice{&Ref{fam: fams[0]}, I(0), dims[0], dims[0]}}
}

// absData is data known only through its elements (for code that must not look inside).
func absData(dims []*Term, elem func([]*Term) *Term) Val {
	var vars []*Term
	for range dims {
		vars = append(vars, Fresh("e", SInt))
	}
	return VData{vars, elem(vars)}
}

type tspec struct {
	name           string
	dims           []*Term
	elem           func([]*Term) *Term
	tracked, dirty *Term
	grad           Val
	edges          Val
	abstract       bool
	pre            bool
	owner          string
}

// elemVar is an unknown element of an input tensor.
func elemVar(name string) func([]*Term) *Term {
	return func(idx []*Term) *Term { return mkApp(name, SReal, idx...) }
}

func dimVars(name string, rank int) []*Term {
	var d []*Term
	for i := 0; i < rank; i++ {
		d = append(d, V(fmt.Sprintf("%s%d", name, i), SInt))
	}
	return d
}

// mkT creates a tensor object and returns the pointer.
func (st *State) mkT(s tspec) VPtr {
	if s.owner == "" {
		s.owner = s.name
	}
	if s.tracked == nil {
		s.tracked = tFalse
	}
	if s.dirty == nil {
		s.dirty = tFalse
	}
	if s.grad == nil {
		s.grad = VNil{}
	}
	if s.edges == nil {
		s.edges = VNil{}
	}
	for _, d := range s.dims {
		if !d.isNum() {
			st.pc = st.pc.And(Ge(d, I(1)))
		}
	}
	var data Val
	if s.abstract {
		data = absData(s.dims, s.elem)
	} else {
		data = st.dataTree(s.name, s.dims, s.elem, s.pre, s.owner)
	}
	g := make([]Val, lay.gn)
	gs := structOf(lay.gctxT)
	for i := range g {
		g[i] = zeroVal(gs.Field(i).Type())
	}
	g[lay.gtracked], g[lay.gdirty], g[lay.ggrad], g[lay.gback] = VT{s.tracked}, VT{s.dirty}, s.grad, s.edges
	gr := st.newObj(s.name+".gctx", lay.gctxT, s.pre, s.owner, VStruct{g})
	t := make([]Val, lay.tn)
	ts := structOf(lay.tensorT)
	for i := range t {
		t[i] = zeroVal(ts.Field(i).Type())
	}
	t[lay.tdata], t[lay.tdims], t[lay.tgctx] = data, st.intSlice(s.name+".dims", s.pre, s.owner, s.dims), VPtr{gr, I(0), ""}
	r := st.newObj(s.name, lay.tensorT, s.pre, s.owner, VStruct{t})
	return VPtr{r, I(0), ""}
}

/* ---------- reading ---------- */

func asPtr(v Val) (VPtr, bool) {
	if i, ok := v.(VIface); ok {
		v = i.v
	}
	p, ok := v.(VPtr)
	return p, ok
}

func (st *State) tensorFields(p VPtr) []Val {
	s, ok := st.load(VPtr{p.ref, p.idx, ""}).(VStruct)
	if !ok {
		unsup("tensor object")
	}
	return s.f
}

func (st *State) slice(v Val) []Val {
	switch s := v.(type) {
	case VNil:
		return nil
	case VSlice:
		n, ok := s.len.intVal()
		if !ok {
			unsup("slice of unknown length")
		}
		out := make([]Val, n)
		for i := range out {
			out[i] = st.readCell(s.ref, Add(s.off, I(int64(i))))
		}
		return out
	}
	unsup("slice expected, got %T", v)
	return nil
}

func (st *State) ints(v Val) []*Term {
	var out []*Term
	for _, x := range st.slice(v) {
		out = append(out, term(x))
	}
	return out
}

func (st *State) dimsOf(p VPtr) []*Term { return st.ints(st.tensorFields(p)[lay.tdims]) }

// elemOf reads the element at idx, following nested data; it may need a fork.
func (st *State) elemOf(p VPtr, idx []*Term) *Term {
	return st.dataElem(st.tensorFields(p)[lay.tdata], idx)
}

type badData struct{ msg string }

func (st *State) dataElem(data Val, idx []*Term) *Term {
	if d, ok := data.(VData); ok {
		if len(d.vars) != len(idx) {
			panic(badData{"rank of data"})
		}
		s := Subst{}
		for i := range idx {
			s[d.vars[i]] = idx[i]
		}
		return s.apply(d.body)
	}
	for n, i := range idx {
		d, ok := data.(VIface)
		if !ok {
			panic(badData{fmt.Sprintf("data at depth %d is %T", n, data)})
		}
		s, ok := d.v.(VSlice)
		if !ok || !types.Identical(d.typ, anySliceT) {
			panic(badData{fmt.Sprintf("data at depth %d is a %s", n, d.typ)})
		}
		data = st.readCell(s.ref, Add(s.off, i))
	}
	d, ok := data.(VIface)
	if !ok || !types.Identical(d.typ, types.Typ[types.Float64]) {
		panic(badData{"element is not a float64"})
	}
	return term(d.v)
}

// gctx reads the gradient context.
type gview struct {
	ref            VPtr
	tracked, dirty *Term
	grad           Val
	edges          []Val // pointers to edges
}

func (st *State) gctxOf(p VPtr) (g gview, ok bool) {
	gp, ok := st.tensorFields(p)[lay.tgctx].(VPtr)
	if !ok {
		return g, false
	}
	f := st.load(gp).(VStruct).f
	g.ref = gp
	g.tracked, g.dirty, g.grad = term(f[lay.gtracked]), term(f[lay.gdirty]), f[lay.ggrad]
	g.edges = st.slice(f[lay.gback])
	return g, true
}

func typesIdentical(a, b types.Type) bool { return types.Identical(a, b) }
func isFloat64(t types.Type) bool         { return types.Identical(t, types.Typ[types.Float64]) }

func tensorIfaceT(ex *Exec) types.Type { return ex.typ("tensor/internal/tensor", "Tensor") }

// foreignTensor is a non-nil Tensor of a type the library does not know.
func foreignTensor() Val {
	t := types.NewNamed(types.NewTypeName(0, nil, "foreignTensor", nil), types.NewStruct(nil, nil), nil)
	return VIface{t, VOpaque{mkApp("foreign", SInt)}}
}
