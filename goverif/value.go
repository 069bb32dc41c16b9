package main

// Values and the symbolic heap. Every object is a (possibly symbolic) number of
// cells. A family stands for all objects allocated at one place, one per value
// of its parameters (the indices of the loops around the allocation).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VT struct{ t *Term }      // number or truth value
type VStr struct{ s string }   // string (contents only matter for map keys)
type VNil struct{}             // nil of any type
type VOpaque struct{ t *Term } // value of an unknown type, identified by a term
type VHavoc struct{ why string }
type VPtr struct {
	ref  *Ref
	idx  *Term
	path string // field path inside the cell, e.g. ".0.2"
}
type VSlice struct {
	ref           *Ref
	off, len, cap *Term
}
type VStruct struct{ f []Val }
type VIface struct {
	typ types.Type
	v   Val
}
type VFunc struct {
	fn   *ssa.Function
	free []Val
	nat  *Native // verifier-supplied function (abstract generators, contract closures)
}
type Native struct {
	name string
	call func(ex *Exec, st *State, args []Val) []Outcome
}
type VMap struct{ ref *Ref } // cell 0 holds VMapData
type VMapData struct {
	keys []Val
	vals []Val
}
type VTuple struct{ f []Val }
type VData struct { // abstract tensor data: element template over formal indices
	vars []*Term
	body *Term
}

type Ref struct {
	fam  *Family
	args []*Term
}

type Family struct {
	id     int
	name   string
	params []*Term
	j      *Term // formal cell index
	pre    bool  // existed before the call under verification
	owner  string
	elem   types.Type
}

var famN int

func newFamily(name string, nparams int, elem types.Type) *Family {
	famN++
	f := &Family{id: famN, name: name, elem: elem}
	f.j = V(fmt.Sprintf("§%d.j", famN), SInt)
	for i := 0; i < nparams; i++ {
		f.params = append(f.params, V(fmt.Sprintf("§%d.p%d", famN, i), SInt))
	}
	return f
}

// Layer is one write; the newest layer whose guard holds supplies the value.
type Layer struct {
	guard *Term // over family params (and j for symbolic arrays); nil: always
	val   Val
	next  *Layer
}

type Content struct {
	n     *Term    // number of cells
	cells []*Layer // concrete number of cells
	sym   *Layer   // symbolic number of cells
	model bool
}

func (c *Content) conc() bool { return c.cells != nil || c.sym == nil }

type Heap struct {
	m map[*Family]*Content
}

type WriteRec struct {
	fam  *Family
	args []*Term
	idx  *Term
	path string
	prev *WriteRec
	pos  string
}

type State struct {
	heap   *Heap
	shared bool
	pc     *PC
	writes *WriteRec
	draws  *Term // ghost: number of random draws so far
	got    *Term // element under check (tensorElems)
}

func newState() *State {
	return &State{heap: &Heap{map[*Family]*Content{}}, draws: I(0)}
}

func (st *State) clone() *State {
	st.shared = true
	c := *st
	return &c
}

func (st *State) set(f *Family, c *Content) {
	if st.shared {
		m := make(map[*Family]*Content, len(st.heap.m)+4)
		for k, v := range st.heap.m {
			m[k] = v
		}
		st.heap = &Heap{m}
		st.shared = false
	}
	st.heap.m[f] = c
}

func (st *State) get(f *Family) *Content { return st.heap.m[f] }

// needFork asks the surrounding driver to split on cond and retry.
type needFork struct{ cond *Term }

// unsupported ends the unit: the verifier cannot handle this code.
type unsupported struct{ msg string }

func unsup(format string, a ...any) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

// must decides c on this path, splitting it if both ways are open.
func (st *State) must(c *Term) bool {
	switch decide(st.pc, c) {
	case 1:
		return true
	case -1:
		return false
	}
	panic(needFork{c})
}

// pin resolves an integer in [0,n] to its value.
func (st *State) pin(t *Term, n int) *Term {
	t = simp(st.pc, t)
	if _, ok := t.intVal(); ok {
		return t
	}
	for k := 0; k < n; k++ {
		if st.must(Eq(t, I(int64(k)))) {
			return I(int64(k))
		}
	}
	return I(int64(n))
}

// alloc creates a fresh object.
func (st *State) alloc(name string, elem types.Type, n *Term, init Val) *Ref {
	f := newFamily(name, 0, elem)
	c := &Content{n: n}
	if k, ok := n.intVal(); ok {
		c.cells = make([]*Layer, k)
		for i := range c.cells {
			c.cells[i] = &Layer{val: init}
		}
	} else {
		c.sym = &Layer{val: init}
	}
	st.set(f, c)
	return &Ref{fam: f}
}

func (r *Ref) subst() Subst {
	s := Subst{}
	for i, p := range r.fam.params {
		s[p] = r.args[i]
	}
	return s
}

// eachTerm maps the terms and references inside a value.
func mapVal(v Val, ft func(*Term) *Term, fr func(*Ref) *Ref) Val {
	if fr == nil {
		fr = func(r *Ref) *Ref { return mapRef(r, ft) }
	}
	switch x := v.(type) {
	case VT:
		return VT{ft(x.t)}
	case VOpaque:
		return VOpaque{ft(x.t)}
	case VPtr:
		return VPtr{fr(x.ref), ft(x.idx), x.path}
	case VSlice:
		return VSlice{fr(x.ref), ft(x.off), ft(x.len), ft(x.cap)}
	case VStruct:
		f := make([]Val, len(x.f))
		for i := range f {
			f[i] = mapVal(x.f[i], ft, fr)
		}
		return VStruct{f}
	case VTuple:
		f := make([]Val, len(x.f))
		for i := range f {
			f[i] = mapVal(x.f[i], ft, fr)
		}
		return VTuple{f}
	case VIface:
		return VIface{x.typ, mapVal(x.v, ft, fr)}
	case VFunc:
		if len(x.free) == 0 {
			return x
		}
		f := make([]Val, len(x.free))
		for i := range f {
			f[i] = mapVal(x.free[i], ft, fr)
		}
		return VFunc{x.fn, f, x.nat}
	case VMap:
		return VMap{fr(x.ref)}
	case VMapData:
		k := make([]Val, len(x.keys))
		l := make([]Val, len(x.vals))
		for i := range k {
			k[i] = mapVal(x.keys[i], ft, fr)
			l[i] = mapVal(x.vals[i], ft, fr)
		}
		return VMapData{k, l}
	case VData:
		return VData{x.vars, ft(x.body)}
	}
	return v
}

func mapRef(r *Ref, ft func(*Term) *Term) *Ref {
	if len(r.args) == 0 {
		return r
	}
	a := make([]*Term, len(r.args))
	ch := false
	for i := range a {
		a[i] = ft(r.args[i])
		ch = ch || a[i] != r.args[i]
	}
	if !ch {
		return r
	}
	return &Ref{r.fam, a}
}

func substVal(v Val, s Subst) Val {
	if len(s) == 0 {
		return v
	}
	return mapVal(v, s.apply, nil)
}

// refsOf calls f on every reference in v.
func refsOf(v Val, f func(*Ref)) {
	mapVal(v, func(t *Term) *Term { return t }, func(r *Ref) *Ref { f(r); return r })
}

// skeleton describes a value without its terms; leaves lists them.
func skeleton(v Val) (string, []*Term) {
	var sb strings.Builder
	var leaves []*Term
	var rec func(v Val)
	ref := func(r *Ref) {
		fmt.Fprintf(&sb, "#%d/%d", r.fam.id, len(r.args))
		leaves = append(leaves, r.args...)
	}
	rec = func(v Val) {
		switch x := v.(type) {
		case VT:
			sb.WriteString("t" + x.t.sort.String())
			leaves = append(leaves, x.t)
		case VOpaque:
			sb.WriteString("o")
			leaves = append(leaves, x.t)
		case VPtr:
			sb.WriteString("p")
			ref(x.ref)
			sb.WriteString(x.path)
			leaves = append(leaves, x.idx)
		case VSlice:
			sb.WriteString("s")
			ref(x.ref)
			leaves = append(leaves, x.off, x.len, x.cap)
		case VStruct:
			sb.WriteString("{")
			for _, f := range x.f {
				rec(f)
				sb.WriteString(";")
			}
			sb.WriteString("}")
		case VTuple:
			sb.WriteString("(")
			for _, f := range x.f {
				rec(f)
				sb.WriteString(";")
			}
			sb.WriteString(")")
		case VIface:
			sb.WriteString("i[" + types.TypeString(x.typ, nil) + "]")
			rec(x.v)
		case VNil:
			sb.WriteString("nil")
		case VStr:
			sb.WriteString("'" + x.s + "'")
		case VFunc:
			fmt.Fprintf(&sb, "f%p/%p(", x.fn, x.nat)
			for _, f := range x.free {
				rec(f)
				sb.WriteString(";")
			}
			sb.WriteString(")")
		case VMap:
			sb.WriteString("m")
			ref(x.ref)
		case VMapData:
			sb.WriteString("M{")
			for i := range x.keys {
				rec(x.keys[i])
				sb.WriteString(":")
				rec(x.vals[i])
				sb.WriteString(";")
			}
			sb.WriteString("}")
		case VData:
			fmt.Fprintf(&sb, "D%d", len(x.vars))
			for _, t := range x.vars {
				fmt.Fprintf(&sb, ",%d", t.id)
			}
			leaves = append(leaves, x.body)
		case VHavoc:
			sb.WriteString("?")
		case nil:
			sb.WriteString("<none>")
		default:
			fmt.Fprintf(&sb, "%T", v)
		}
	}
	rec(v)
	return sb.String(), leaves
}

// refill puts new leaves into the skeleton of v, in the order of skeleton().
func refill(v Val, leaves []*Term) Val {
	i := 0
	next := func(*Term) *Term { i++; return leaves[i-1] }
	var rec func(v Val) Val
	ref := func(r *Ref) *Ref {
		a := make([]*Term, len(r.args))
		for k := range a {
			a[k] = next(nil)
		}
		return &Ref{r.fam, a}
	}
	rec = func(v Val) Val {
		switch x := v.(type) {
		case VT:
			return VT{next(x.t)}
		case VOpaque:
			return VOpaque{next(x.t)}
		case VPtr:
			r := ref(x.ref)
			return VPtr{r, next(nil), x.path}
		case VSlice:
			r := ref(x.ref)
			a, b, c := next(nil), next(nil), next(nil)
			return VSlice{r, a, b, c}
		case VStruct:
			f := make([]Val, len(x.f))
			for k := range f {
				f[k] = rec(x.f[k])
			}
			return VStruct{f}
		case VTuple:
			f := make([]Val, len(x.f))
			for k := range f {
				f[k] = rec(x.f[k])
			}
			return VTuple{f}
		case VIface:
			return VIface{x.typ, rec(x.v)}
		case VFunc:
			f := make([]Val, len(x.free))
			for k := range f {
				f[k] = rec(x.free[k])
			}
			return VFunc{x.fn, f, x.nat}
		case VMap:
			return VMap{ref(x.ref)}
		case VMapData:
			k := make([]Val, len(x.keys))
			l := make([]Val, len(x.vals))
			for n := range k {
				k[n] = rec(x.keys[n])
				l[n] = rec(x.vals[n])
			}
			return VMapData{k, l}
		case VData:
			return VData{x.vars, next(nil)}
		}
		return v
	}
	return rec(v)
}

func sameVal(a, b Val) bool {
	sa, la := skeleton(a)
	sb, lb := skeleton(b)
	if sa != sb || len(la) != len(lb) {
		return false
	}
	for i := range la {
		if la[i] != lb[i] {
			return false
		}
	}
	return true
}

// mergeVal is ite(c, a, b) for values of one shape.
func mergeVal(c *Term, a, b Val) (Val, bool) {
	sa, la := skeleton(a)
	sb, lb := skeleton(b)
	if sa != sb || len(la) != len(lb) {
		return nil, false
	}
	l := make([]*Term, len(la))
	for i := range la {
		l[i] = Ite(c, la[i], lb[i])
	}
	return refill(a, l), true
}

/* ---------- reading and writing ---------- */

// readCell returns the value of cell idx of the object.
func (st *State) readCell(r *Ref, idx *Term) Val {
	c := st.get(r.fam)
	if c == nil {
		unsup("read of unknown object %s", r.fam.name)
	}
	if theExec != nil && theExec.readLog != nil {
		theExec.readLog[readKey{r.fam, termsKey(r.args), idx}] = r
	}
	var l *Layer
	s := r.subst()
	if c.conc() {
		n, ok := idx.intVal()
		if !ok {
			if len(c.cells) == 0 {
				unsup("symbolic index into empty object")
			}
			// split on the possible cells
			for i := range c.cells[:len(c.cells)-1] {
				if st.must(Eq(idx, I(int64(i)))) {
					n, ok = i, true
					break
				}
			}
			if !ok {
				n = len(c.cells) - 1
			}
		}
		if n < 0 || n >= len(c.cells) {
			unsup("cell %d out of %d in %s", n, len(c.cells), r.fam.name)
		}
		l = c.cells[n]
	} else {
		l = c.sym
		s[r.fam.j] = idx
	}
	return st.readLayers(l, s)
}

func (st *State) readLayers(l *Layer, s Subst) Val {
	if l == nil {
		unsup("read of uninitialised cell")
	}
	if l.guard == nil {
		return substVal(l.val, s)
	}
	g := s.apply(l.guard)
	switch decide(st.pc, g) {
	case 1:
		return substVal(l.val, s)
	case -1:
		return st.readLayers(l.next, s)
	}
	// both open: merge scalars, otherwise split
	if l.next != nil {
		a := substVal(l.val, s)
		if isScalar(a) {
			t2 := &State{heap: st.heap, pc: st.pc.And(Not(g)), shared: true}
			b := t2.readLayers(l.next, s)
			if m, ok := mergeVal(g, a, b); ok {
				return m
			}
		}
	}
	panic(needFork{g})
}

func isScalar(v Val) bool {
	switch x := v.(type) {
	case VT:
		return true
	case VIface:
		return isScalar(x.v)
	case VOpaque:
		return true
	}
	return false
}

func termsKey(ts []*Term) string { return argKey(ts) }

// writeCell stores v into cell idx.
func (st *State) writeCell(r *Ref, idx *Term, v Val, path, pos string) {
	c := st.get(r.fam)
	if c == nil {
		unsup("write to unknown object %s", r.fam.name)
	}
	st.writes = &WriteRec{r.fam, r.args, idx, path, st.writes, pos}
	n := &Content{n: c.n, model: c.model}
	var g []*Term
	for i, p := range r.fam.params {
		g = append(g, Eq(p, r.args[i]))
	}
	if c.conc() {
		k, ok := idx.intVal()
		if !ok {
			for i := range c.cells[:len(c.cells)-1] {
				if st.must(Eq(idx, I(int64(i)))) {
					k, ok = i, true
					break
				}
			}
			if !ok {
				k = len(c.cells) - 1
			}
		}
		if k < 0 || k >= len(c.cells) {
			unsup("write to cell %d of %d", k, len(c.cells))
		}
		n.cells = append([]*Layer(nil), c.cells...)
		if len(g) == 0 {
			n.cells[k] = &Layer{val: v}
		} else {
			n.cells[k] = &Layer{guard: And(g...), val: v, next: c.cells[k]}
		}
	} else {
		g = append(g, Eq(r.fam.j, idx))
		n.sym = &Layer{guard: And(g...), val: v, next: c.sym}
	}
	st.set(r.fam, n)
}

func splitPath(p string) []int {
	var out []int
	for _, s := range strings.Split(p, ".") {
		if s == "" {
			continue
		}
		n := 0
		fmt.Sscanf(s, "%d", &n)
		out = append(out, n)
	}
	return out
}

func project(v Val, path []int) Val {
	for _, i := range path {
		s, ok := v.(VStruct)
		if !ok {
			if h, ok := v.(VHavoc); ok {
				return h
			}
			unsup("field of %T", v)
		}
		v = s.f[i]
	}
	return v
}

func inject(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	s, ok := v.(VStruct)
	if !ok {
		unsup("field store into %T", v)
	}
	f := append([]Val(nil), s.f...)
	f[path[0]] = inject(f[path[0]], path[1:], x)
	return VStruct{f}
}

func (st *State) load(p VPtr) Val {
	v := project(st.readCell(p.ref, p.idx), splitPath(p.path))
	if h, ok := v.(VHavoc); ok {
		unsup("value carried around a loop is not understood (%s)", h.why)
	}
	return v
}

func (st *State) store(p VPtr, v Val, pos string) {
	if p.path == "" {
		st.writeCell(p.ref, p.idx, v, "", pos)
		return
	}
	old := st.readCell(p.ref, p.idx)
	st.writeCell(p.ref, p.idx, inject(old, splitPath(p.path), v), p.path, pos)
}

func (st *State) refEq(a, b *Ref) bool {
	if a.fam != b.fam {
		return false
	}
	var c []*Term
	for i := range a.args {
		c = append(c, Eq(a.args[i], b.args[i]))
	}
	return st.must(And(c...))
}

type readKey struct {
	fam  *Family
	args string
	idx  *Term
}
