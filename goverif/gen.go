package main

// The element-generator rule. initWith(gen), or the function that plays its part, calls gen once per position, in
// row-major order, and stores the results: that is initWith's own contract,
// proved against its body with an abstract generator (proveInitWith). For a
// concrete generator the rule needs its state as a function of the position: a
// closed form per mutable cell is guessed from a short simulation and then proved
// initially true and preserved by every carry case of the position counter.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// genFn is a function that fills a tensor (or nested data) of a given shape from a
// generator: initWith, or whatever plays its part.
type genFn struct {
	fn                     *ssa.Function
	tensor, dims, out, gen int  // positions of the parameters, -1 if absent
	result                 byte // 't' a new tensor, 'd' nested data, 0 nothing
	proved                 map[int]string
}

// findGenFns locates the functions that take a generator and a shape.
func (ex *Exec) findGenFns() []*genFn {
	p := ex.pkgs["tensor/internal/cputensor"]
	isT := func(t types.Type) bool { return types.Identical(t, ptrT(lay.tensorT)) }
	isAny := func(t types.Type) bool { i, ok := t.Underlying().(*types.Interface); return ok && i.Empty() }
	var out []*genFn
	add := func(fn *ssa.Function) {
		if fn == nil || len(fn.Blocks) == 0 || fn.Pkg != p && fn.Pkg != nil || fn.Signature.TypeParams() != nil {
			return
		}
		g := &genFn{fn: fn, tensor: -1, dims: -1, out: -1, gen: -1, proved: map[int]string{}}
		for i, x := range fn.Params {
			at := &g.tensor
			u := x.Type().Underlying()
			switch y := u.(type) {
			case *types.Signature:
				if y.Params().Len() != 0 || y.Results().Len() != 1 || !isAny(y.Results().At(0).Type()) {
					return
				}
				at = &g.gen
			case *types.Slice:
				if !types.Identical(y.Elem(), types.Typ[types.Int]) {
					return
				}
				at = &g.dims
			case *types.Pointer:
				switch {
				case isT(x.Type()):
				case isAny(y.Elem()):
					at = &g.out
				default:
					return
				}
			default:
				return
			}
			if *at >= 0 {
				return
			}
			*at = i
		}
		if g.gen < 0 {
			return
		}
		switch r := fn.Signature.Results(); {
		case r.Len() == 0:
			if (g.tensor >= 0) == (g.out >= 0) || (g.dims >= 0) != (g.out >= 0) {
				return
			}
		case r.Len() == 1 && g.tensor < 0 && g.out < 0 && g.dims >= 0:
			switch {
			case isT(r.At(0).Type()):
				g.result = 't'
			case isAny(r.At(0).Type()):
				g.result = 'd'
			default:
				return
			}
		default:
			return
		}
		out = append(out, g)
	}
	ms := ex.prog.MethodSets.MethodSet(ptrT(lay.tensorT))
	for i := 0; i < ms.Len(); i++ {
		add(ex.prog.MethodValue(ms.At(i)))
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if fn, ok := p.Members[n].(*ssa.Function); ok {
			add(fn)
		}
	}
	for _, g := range out {
		for r := 0; r <= 6; r++ {
			g.proved[r] = ex.proveGenFn(g, r)
		}
	}
	return out
}

type cellRef struct {
	ref *Ref
	idx *Term
}

// position counter in a digit system
type digits struct {
	dims []*Term
	p    []*Term
	same bool // the digit system is o's own shape
}

func newDigits(dims []*Term, same bool) *digits {
	d := &digits{dims: dims, same: same}
	for range dims {
		d.p = append(d.p, Fresh("P", SInt))
	}
	return d
}

func rankOf(idx, dims []*Term) *Term {
	r := I(0)
	for i := range dims {
		r = Add(Mul(r, dims[i]), idx[i])
	}
	return r
}

func prod(dims []*Term) *Term {
	r := I(1)
	for _, d := range dims {
		r = Mul(r, d)
	}
	return r
}

func (d *digits) bounds(pc *PC) *PC {
	for i := range d.dims {
		pc = pc.And(Ge(d.p[i], I(0))).And(Lt(d.p[i], d.dims[i]))
	}
	return pc
}

// rule is the contract of a filling function, for the ranks at which its body was
// proved to meet it; elsewhere the body itself is executed.
func (g *genFn) rule(ex *Exec, st *State, fn *ssa.Function, args []Val) []Outcome {
	gen, ok := args[g.gen].(VFunc)
	if !ok {
		unsup("%s with %T", fn.Name(), args[g.gen])
	}
	var dims []*Term
	var tp VPtr
	var f []Val
	switch {
	case g.tensor >= 0:
		if tp, ok = args[g.tensor].(VPtr); !ok {
			unsup("%s on %T", fn.Name(), args[g.tensor])
		}
		f = st.tensorFields(tp)
		dims = st.ints(f[lay.tdims])
	default:
		dims = st.ints(args[g.dims])
	}
	if why, ok := g.proved[len(dims)]; !ok || why != "" {
		ex.skip = fn
		return ex.call(st, VFunc{fn: fn}, args)
	}
	for _, d := range dims {
		if !entails(st.pc, Ge(d, I(1))) {
			unsup("%s on a dimension that may be empty", fn.Name())
		}
	}
	val, st2 := ex.genRule(st, gen, dims)
	pre, owner := false, ""
	if g.tensor >= 0 {
		pre, owner = tp.ref.fam.pre, tp.ref.fam.owner
	}
	data := st2.valTree("o", dims, val, pre, owner)
	switch {
	case g.tensor >= 0:
		nf := append([]Val(nil), f...)
		nf[lay.tdata] = data
		st2.writeCell(tp.ref, tp.idx, VStruct{nf}, fmt.Sprintf(".%d", lay.tdata), fn.Name())
		return []Outcome{{st: st2}}
	case g.result == 'd':
		return []Outcome{{st: st2, vals: []Val{data}}}
	case g.result == 't':
		// the new tensor has its own copy of the shape, as the proof has shown
		return []Outcome{{st: st2, vals: []Val{st2.newTensor(dims, data)}}}
	}
	out, ok := args[g.out].(VPtr)
	if !ok {
		unsup("%s into %T", fn.Name(), args[g.out])
	}
	st2.store(out, data, fn.Name())
	return []Outcome{{st: st2}}
}

// genRule: the value produced at each position, and the state afterwards.
func (ex *Exec) genRule(st *State, gen VFunc, dims []*Term) (func([]*Term) Val, *State) {
	// mutable cells: discovered by running the generator, first on the initial
	// state, then (in genWith) at an arbitrary position until nothing new appears
	var cells []cellRef
	draws := false
	addWrites := func(o *State) bool {
		fresh := false
		for w := o.writes; w != st.writes; w = w.prev {
			if w == nil {
				unsup("write log of a generator")
			}
			if st.get(w.fam) == nil {
				continue
			}
			if w.idx.name == "*" && w.idx.kind == KVar || len(w.fam.params) > 0 || !st.get(w.fam).conc() {
				unsup("generator state in %s", w.fam.name)
			}
			if _, ok := w.idx.intVal(); !ok {
				unsup("generator state in %s at a position that is not fixed", w.fam.name)
			}
			dup := false
			for _, c := range cells {
				dup = dup || c.ref.fam == w.fam && c.idx == w.idx
			}
			if !dup {
				fresh = true
				cells = append(cells, cellRef{&Ref{w.fam, w.args}, w.idx})
			}
		}
		// the order of discovery must not matter: sort by family and index
		for i := range cells {
			for j := i; j > 0 && cellLess(cells[j], cells[j-1]); j-- {
				cells[j], cells[j-1] = cells[j-1], cells[j]
			}
		}
		return fresh
	}
	for _, o := range ex.callForked(st.clone(), gen) {
		if o.panic != "" {
			continue
		}
		addWrites(o.st)
		if o.st.draws != st.draws {
			draws = true
		}
	}
	var systems []*digits
	systems = append(systems, newDigits(dims, true))
	n := prod(dims)
	for _, alt := range ex.capturedDims(st, gen) {
		dup := false
		for _, s := range systems {
			if sameTerms(s.dims, alt) {
				dup = true
			}
		}
		if !dup && entails(st.pc, Eq(prod(alt), n)) {
			systems = append(systems, newDigits(alt, false))
		}
	}
	why := ""
	for i := 0; i < len(systems); i++ {
		sys := systems[i]
		more := false
		v, s2, msg := ex.genWith(st, gen, dims, sys, cells, draws, func(o *State) bool {
			if addWrites(o) {
				more = true
			}
			return more
		})
		if more {
			if len(cells) > 64 {
				unsup("generator with more than 64 state cells")
			}
			i = -1
			why = ""
			continue
		}
		if msg == "" {
			return v, s2
		}
		why += "; " + msg
	}
	unsup("element generator not understood%s", why)
	return nil, nil
}

func cellLess(a, b cellRef) bool {
	if a.ref.fam.id != b.ref.fam.id {
		return a.ref.fam.id < b.ref.fam.id
	}
	x, _ := a.idx.intVal()
	y, _ := b.idx.intVal()
	return x < y
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (ex *Exec) callForked(st *State, gen VFunc) []Outcome {
	log := ex.readLog
	ex.readLog = nil
	defer func() { ex.readLog = log }()
	return forkOutcomes(st, func(s *State) []Outcome { return ex.call(s, gen, nil) })
}

// capturedDims: shapes the generator captured, directly or through a tensor.
func (ex *Exec) capturedDims(st *State, gen VFunc) [][]*Term {
	var out [][]*Term
	seen := map[*Family]bool{}
	var rec func(v Val, depth int)
	ref := func(r *Ref, depth int) {
		if r == nil || r.fam == nil || seen[r.fam] || len(r.args) > 0 {
			return
		}
		seen[r.fam] = true
		c := st.get(r.fam)
		if c == nil || !c.conc() {
			return
		}
		if r.fam.elem != nil && types.Identical(r.fam.elem.Underlying(), types.Typ[types.Int]) && len(c.cells) > 0 {
			var l []*Term
			for _, x := range c.cells {
				if x == nil || x.guard != nil {
					return
				}
				t, ok := x.val.(VT)
				if !ok {
					return
				}
				l = append(l, t.t)
			}
			out = append(out, l)
			return
		}
		for _, x := range c.cells {
			if x != nil && x.guard == nil {
				rec(x.val, depth+1)
			}
		}
	}
	rec = func(v Val, depth int) {
		if depth > 4 {
			return
		}
		refsOf(v, func(r *Ref) { ref(r, depth) })
	}
	for _, v := range gen.free {
		rec(v, 0)
	}
	return out
}

// genWith tries one digit system.
func (ex *Exec) genWith(st *State, gen VFunc, dims []*Term, sys *digits, cells []cellRef, draws bool, moreCells func(*State) bool) (func([]*Term) Val, *State, string) {
	forms, msg := ex.guessForms(st, gen, sys, cells)
	if msg != "" {
		return nil, nil, msg
	}
	zero := Subst{}
	for _, p := range sys.p {
		zero[p] = I(0)
	}
	// initially true
	shape := make([]string, len(cells))
	proto := make([]Val, len(cells))
	for i, c := range cells {
		proto[i] = st.readCell(c.ref, c.idx)
		sk, ls := skeleton(proto[i])
		shape[i] = sk
		for j, l := range ls {
			if !entails(st.pc, Eq(l, zero.apply(forms[i][j]))) {
				return nil, nil, fmt.Sprintf("cell %d: initial value", i)
			}
		}
	}
	// one call at an arbitrary position
	at := st.clone()
	at.pc = sys.bounds(at.pc)
	for i, c := range cells {
		at.setCell(c.ref, c.idx, refill(proto[i], forms[i]))
	}
	d0 := st.draws
	var perCall *Term
	if draws {
		// number of draws per call must be constant
		perCall = I(1)
		at.draws = Add(d0, Mul(perCall, rankOf(sys.p, sys.dims)))
	}
	base := at.clone()
	outs := ex.callForked(at.clone(), gen)
	if len(outs) == 0 {
		return nil, nil, "generator never returns"
	}
	for _, o := range outs {
		if moreCells(o.st) {
			return nil, nil, "more state"
		}
	}
	for _, o := range outs {
		if o.panic != "" {
			return nil, nil, fmt.Sprintf("generator panics: %s at %s", o.panic, o.pos)
		}
		if draws && Sub(o.st.draws, base.draws) != perCall {
			return nil, nil, "number of random draws per element"
		}
		if !draws && o.st.draws != d0 {
			return nil, nil, "random draws"
		}
		// carry cases
		for c := len(sys.dims) - 1; c >= 0; c-- {
			pc := o.st.pc.And(Lt(sys.p[c], Sub(sys.dims[c], I(1))))
			succ := Subst{sys.p[c]: Add(sys.p[c], I(1))}
			for k := c + 1; k < len(sys.dims); k++ {
				pc = pc.And(Eq(sys.p[k], Sub(sys.dims[k], I(1))))
				succ[sys.p[k]] = I(0)
			}
			if !feasible(pc) {
				continue
			}
			for i, cl := range cells {
				sk, ls := skeleton(o.st.readCell(cl.ref, cl.idx))
				if sk != shape[i] {
					return nil, nil, fmt.Sprintf("cell %d: changes shape", i)
				}
				for j, l := range ls {
					if !entails(pc, Eq(l, succ.apply(forms[i][j]))) {
						return nil, nil, fmt.Sprintf("cell %d: not preserved in carry case %d: %s vs %s, forms %v dims %v, on path %s", i, c, l, succ.apply(forms[i][j]), forms, sys.dims, pc)
					}
				}
			}
		}
	}
	val, ok := mergeOutcomes(outs, base.pc)
	if !ok {
		return nil, nil, "generated value depends on the path"
	}
	// objects created by the call: one per position
	s2 := st.clone()
	lift := map[*Family]*Family{}
	var work []*Family
	var liftVal func(v Val, pos []*Term, s Subst) Val
	liftRef := func(r *Ref, pos []*Term, s Subst) *Ref {
		a := make([]*Term, len(r.args))
		for i := range a {
			a[i] = s.apply(r.args[i])
		}
		if base.get(r.fam) != nil {
			return &Ref{r.fam, a}
		}
		nf := lift[r.fam]
		if nf == nil {
			nf = newFamily(r.fam.name, len(r.fam.params)+len(sys.p), r.fam.elem)
			nf.owner = r.fam.owner
			lift[r.fam] = nf
			work = append(work, r.fam)
		}
		return &Ref{nf, append(a, pos...)}
	}
	liftVal = func(v Val, pos []*Term, s Subst) Val {
		return mapVal(v, s.apply, func(r *Ref) *Ref { return liftRef(r, pos, s) })
	}
	tmpl := liftVal(val, sys.p, Subst{})
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		c := outs[0].st.get(f)
		for _, o := range outs[1:] {
			if o.st.get(f) != c {
				return nil, nil, "object created by the generator differs by path"
			}
		}
		if c == nil {
			return nil, nil, "object created by the generator"
		}
		nf := lift[f]
		s := Subst{}
		for i, p := range f.params {
			s[p] = nf.params[i]
		}
		pos := nf.params[len(f.params):]
		for i, p := range sys.p {
			s[p] = pos[i]
		}
		s[f.j] = nf.j
		conv := func(l *Layer) *Layer {
			var list []*Layer
			for x := l; x != nil; x = x.next {
				list = append(list, x)
				if x.guard == nil {
					break
				}
			}
			var top *Layer
			for i := len(list) - 1; i >= 0; i-- {
				n := &Layer{val: liftVal(list[i].val, pos, s), next: top}
				if list[i].guard != nil {
					n.guard = s.apply(list[i].guard)
				}
				top = n
			}
			return top
		}
		nc := &Content{n: s.apply(c.n)}
		if c.conc() {
			nc.cells = make([]*Layer, len(c.cells))
			for i := range c.cells {
				nc.cells[i] = conv(c.cells[i])
			}
		} else {
			nc.sym = conv(c.sym)
		}
		s2.set(nf, nc)
	}
	for _, c := range cells {
		s2.writeCell(c.ref, c.idx, VHavoc{"generator state"}, "", "generator")
	}
	if draws {
		s2.draws = Add(d0, Mul(perCall, prod(dims)))
	}
	return func(idx []*Term) Val {
		s := Subst{}
		if sys.same {
			for i, p := range sys.p {
				s[p] = idx[i]
			}
		} else {
			l := rankOf(idx, dims)
			for i, p := range sys.p {
				s[p] = mkDig(i, l, sys.dims)
			}
		}
		return substVal(tmpl, s)
	}, s2, ""
}

// guessForms simulates the generator on small shapes.
func (ex *Exec) guessForms(st *State, gen VFunc, sys *digits, cells []cellRef) ([][]*Term, string) {
	cand := make([][][]*Term, len(cells))
	shape := make([]string, len(cells))
	rank := rankOf(sys.p, sys.dims)
	for i, c := range cells {
		sk, leaves := skeleton(st.readCell(c.ref, c.idx))
		shape[i] = sk
		cand[i] = make([][]*Term, len(leaves))
		for j, init := range leaves {
			seen := map[*Term]bool{}
			add := func(t *Term) {
				if !seen[t] {
					seen[t] = true
					cand[i][j] = append(cand[i][j], t)
				}
			}
			add(init)
			if init.sort != SInt {
				continue
			}
			for _, p := range sys.p {
				add(Add(init, p))
			}
			add(Add(init, rank))
			// products of trailing / leading digits (linear offsets)
			for a := range sys.p {
				for b := a + 1; b <= len(sys.p); b++ {
					add(Add(init, rankOf(sys.p[a:b], sys.dims[a:b])))
				}
			}
			// countdown forms
			for k, p := range sys.p {
				add(Sub(init, p))
				add(Sub(Sub(sys.dims[k], I(1)), p))
			}
			add(Sub(init, rank))
			// stride forms
			for k, p := range sys.p {
				str := I(1)
				for q := k + 1; q < len(sys.p); q++ {
					str = Mul(str, sys.dims[q])
					add(Add(init, Mul(p, str)))
				}
			}
		}
	}
	if len(cells) == 0 {
		return nil, ""
	}
	models := ex.smallModels(st, sys)
	if len(models) == 0 {
		return nil, "no small model"
	}
	if os.Getenv("GOVERIF_GEN") != "" {
		fmt.Fprintln(os.Stderr, "models", sys.dims, models, st.pc)
	}
	for _, m := range models {
		s := st.substState(m)
		total := 1
		var dn []int
		for _, d := range sys.dims {
			k, ok := m.apply(d).intVal()
			if !ok {
				return nil, "model leaves a dimension open"
			}
			dn = append(dn, k)
			total *= k
		}
		if total > 48 {
			total = 48
		}
		pos := make([]int, len(dn))
		n0 := len(s.heap.m)
		g := substVal(gen, m).(VFunc)
		for n := 0; n < total; n++ {
			sub := Subst{}
			for k, v := range m {
				sub[k] = v
			}
			for i, p := range sys.p {
				sub[p] = I(int64(pos[i]))
			}
			for i, c := range cells {
				sk, ls := skeleton(s.readCell(c.ref, c.idx))
				if sk != shape[i] {
					return nil, "generator state changes shape"
				}
				for j, l := range ls {
					var keep []*Term
					for _, t := range cand[i][j] {
						if sub.apply(t) == l {
							keep = append(keep, t)
						}
					}
					cand[i][j] = keep
					if len(keep) == 0 {
						return nil, fmt.Sprintf("state %s[%s] follows no known form", c.ref.fam.name, c.idx)
					}
				}
			}
			if n == total-1 {
				break
			}
			outs := ex.callForked(s.clone(), g)
			if len(outs) != 1 || outs[0].panic != "" {
				if len(outs) > 0 && outs[0].panic != "" {
					return nil, "generator panics: " + outs[0].panic + " at " + outs[0].pos
				}
				return nil, "simulation forks"
			}
			s = outs[0].st
			if len(s.heap.m) > n0 {
				// forget what the call allocated and did not keep
				var vs []Val
				for _, c := range cells {
					vs = append(vs, s.readCell(c.ref, c.idx))
				}
				live := s.reach(append(vs, g)...)
				h := map[*Family]*Content{}
				for f, c := range s.heap.m {
					if st.heap.m[f] != nil || live[f] {
						h[f] = c
					}
				}
				s = s.clone()
				s.heap, s.shared = &Heap{h}, false
			}
			for i := len(pos) - 1; i >= 0; i-- {
				pos[i]++
				if pos[i] < dn[i] {
					break
				}
				pos[i] = 0
			}
		}
	}
	out := make([][]*Term, len(cells))
	for i := range cells {
		for j := range cand[i] {
			out[i] = append(out[i], cand[i][j][0])
		}
	}
	if os.Getenv("GOVERIF_GEN") != "" {
		fmt.Fprintf(os.Stderr, "gen dims=%v same=%v forms=%v models=%v pc=%v\n", sys.dims, sys.same, out, models, st.pc)
	}
	return out, ""
}

// substState specialises a state to concrete sizes.
func (st *State) substState(s Subst) *State {
	n := st.clone()
	m := map[*Family]*Content{}
	for f, c := range st.heap.m {
		conv := func(l *Layer) *Layer {
			var list []*Layer
			for x := l; x != nil; x = x.next {
				list = append(list, x)
				if x.guard == nil {
					break
				}
			}
			var top *Layer
			for i := len(list) - 1; i >= 0; i-- {
				y := &Layer{val: substVal(list[i].val, s), next: top}
				if list[i].guard != nil {
					y.guard = s.apply(list[i].guard)
				}
				top = y
			}
			return top
		}
		nc := &Content{n: s.apply(c.n), model: c.model}
		if c.cells != nil {
			nc.cells = make([]*Layer, len(c.cells))
			for i := range c.cells {
				nc.cells[i] = conv(c.cells[i])
			}
		} else {
			nc.sym = conv(c.sym)
		}
		m[f] = nc
	}
	n.heap = &Heap{m}
	n.shared = false
	n.draws = s.apply(st.draws)
	var pc *PC
	for _, t := range st.pc.list() {
		pc = pc.And(s.apply(t))
	}
	n.pc = pc
	return n
}

// smallModels finds small sizes satisfying the path condition.
func (ex *Exec) smallModels(st *State, sys *digits) []Subst {
	vars := map[*Term]bool{}
	for _, d := range sys.dims {
		freeVars(d, SInt, vars)
	}
	for _, t := range st.pc.list() {
		freeVars(t, SInt, vars)
	}
	var vs []*Term
	for v := range vars {
		vs = append(vs, v)
	}
	for i := range vs {
		for j := i; j > 0 && vs[j].id < vs[j-1].id; j-- {
			vs[j], vs[j-1] = vs[j-1], vs[j]
		}
	}
	// variables under products first: the rest often follows from them
	inProd := map[*Term]bool{}
	for _, t := range st.pc.list() {
		if t.kind == KEq {
			for _, m := range monosOf(t.args[0]) {
				if deg(m) > 1 {
					for _, f := range m.fs {
						freeVars(f.t, SInt, inProd)
					}
				}
			}
		}
	}
	sort.SliceStable(vs, func(i, j int) bool { return inProd[vs[i]] && !inProd[vs[j]] })
	// then those that complete most constraints, so that a wrong choice shows at once
	var cv []map[*Term]bool
	for _, t := range st.pc.list() {
		m := map[*Term]bool{}
		freeVars(t, SInt, m)
		if len(m) > 1 {
			cv = append(cv, m)
		}
	}
	placed := map[*Term]bool{}
	for i := range vs {
		best, score := i, -1
		for j := i; j < len(vs); j++ {
			if inProd[vs[i]] != inProd[vs[j]] {
				break
			}
			n := 0
			for _, m := range cv {
				if !m[vs[j]] {
					continue
				}
				n++
				for v := range m {
					if v != vs[j] && !placed[v] {
						n--
						break
					}
				}
			}
			if n > score {
				best, score = j, n
			}
		}
		v := vs[best]
		copy(vs[i+1:best+1], vs[i:best])
		vs[i] = v
		placed[v] = true
	}
	var out []Subst
	prefer := [][]int{{2, 3, 1, 4, 0, 5, 6}, {5, 4, 3, 2, 1, 0, 6}, {3, 2, 1, 4, 0, 5, 6}, {1, 2, 3, 4, 0, 5, 6}}
	for pi, pr := range prefer {
		m := Subst{}
		steps := 0
		var cons []*Term
		for _, t := range st.pc.list() {
			if !t.hasRealOrFold() {
				cons = append(cons, t)
			}
		}
		var rec func(i int) bool
		rec = func(i int) bool {
			steps++
			if steps > 4000 {
				return false
			}
			for _, t := range cons {
				x := m.apply(t)
				if x.kind == KBool && !x.b {
					return false
				}
			}
			if i == len(vs) {
				return true
			}
			if v, ok := m[vs[i]]; ok && v != nil {
				return rec(i + 1)
			}
			if v := solvedBy(cons, m, vs[i]); v != nil {
				k, ok := v.intVal()
				if !ok || k < -1000 || k > 1000 {
					return false
				}
				m[vs[i]] = v
				if rec(i + 1) {
					return true
				}
				delete(m, vs[i])
				return false
			}
			for q := range pr {
				// alternate the preference so that neighbouring sizes differ
				k := pr[q]
				if pi != 1 && i%2 == 1 && q < 2 {
					k = pr[1-q]
				}
				m[vs[i]] = I(int64(k))
				if rec(i + 1) {
					return true
				}
			}
			delete(m, vs[i])
			return false
		}
		if rec(0) {
			c := Subst{}
			for k, v := range m {
				c[k] = v
			}
			out = append(out, c)
		}
	}
	return out
}

// solvedBy: the value an equality fixes v to, once all else in it is known.
func solvedBy(cons []*Term, m Subst, v *Term) *Term {
	for _, t := range cons {
		if t.kind != KEq || !containsVar(t, v) {
			continue
		}
		x := m.apply(t)
		if x.kind != KEq {
			continue
		}
		ms := monosOf(x.args[0])
		rest := I(0)
		var c *big.Rat
		ok := true
		for _, mn := range ms {
			switch {
			case len(mn.fs) == 0:
				rest = Add(rest, polyOf(SInt, []Mono{mn}))
			case c == nil && len(mn.fs) == 1 && mn.fs[0].t == v && mn.fs[0].e == 1:
				c = mn.c
			default:
				ok = false
			}
		}
		if ok && c != nil {
			return ScaleT(new(big.Rat).Quo(big.NewRat(-1, 1), c), rest)
		}
	}
	return nil
}

func freeVars(t *Term, s Sort, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.nf {
			return
		}
		seen[t] = true
		if t.kind == KVar && t.sort == s {
			out[t] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.mons {
			for _, f := range m.fs {
				rec(f.t)
			}
		}
	}
	rec(t)
}

// hasRealOrFold: constraints the small-model search cannot evaluate.
func (t *Term) hasRealOrFold() bool {
	switch t.kind {
	case KSum, KMaxF, KMinF, KForall:
		return true
	case KApp:
		return t.sort == SReal || len(t.args) > 0
	case KVar:
		return t.sort != SInt
	}
	for _, a := range t.args {
		if a.hasRealOrFold() {
			return true
		}
	}
	for _, m := range t.mons {
		for _, f := range m.fs {
			if f.t.hasRealOrFold() {
				return true
			}
		}
	}
	return false
}

// newTensor makes a tensor object without gradient context.
func (st *State) newTensor(dims []*Term, data Val) VPtr {
	t := make([]Val, lay.tn)
	ts := structOf(lay.tensorT)
	for i := range t {
		t[i] = zeroVal(ts.Field(i).Type())
	}
	t[lay.tdata], t[lay.tdims] = data, st.intSlice("o.dims", false, "", dims)
	return VPtr{st.newObj("o", lay.tensorT, false, "", VStruct{t}), I(0), ""}
}

// valTree is dataTree for arbitrary element values.
func (st *State) valTree(name string, dims []*Term, elem func([]*Term) Val, pre bool, owner string) Val {
	if len(dims) == 0 {
		return elem(nil)
	}
	var fams []*Family
	for l := range dims {
		f := newFamily(fmt.Sprintf("%s.data%d", name, l), l, anySliceT.(*types.Slice).Elem())
		f.pre = pre
		f.owner = owner
		fams = append(fams, f)
	}
	for l, f := range fams {
		idx := append(append([]*Term(nil), f.params...), f.j)
		mk := func(idx []*Term) Val {
			if l == len(dims)-1 {
				return elem(idx)
			}
			d := dims[l+1]
			return VIface{anySliceT, VSlice{&Ref{fams[l+1], idx}, I(0), d, d}}
		}
		c := &Content{n: dims[l]}
		if k, ok := dims[l].intVal(); ok {
			for i := 0; i < k; i++ {
				x := append([]*Term(nil), idx...)
				x[l] = I(int64(i))
				c.cells = append(c.cells, &Layer{val: mk(x)})
			}
		} else {
			c.sym = &Layer{val: mk(idx)}
		}
		st.set(f, c)
	}
	return VIface{anySliceT, VSlice{&Ref{fam: fams[0]}, I(0), dims[0], dims[0]}}
}

// proveGenFn discharges the contract of a filling function for one rank.
func (ex *Exec) proveGenFn(g *genFn, rank int) (why string) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				why = u.msg
				return
			}
			panic(x)
		}
	}()
	st := newState()
	dims := dimVars("d", rank)
	start := V("c0", SInt)
	st.draws = start
	nat := &Native{name: "E", call: func(ex *Exec, st *State, args []Val) []Outcome {
		v := VIface{types.Typ[types.Float64], VT{mkApp("E", SReal, st.draws)}}
		st.draws = Add(st.draws, I(1))
		return one(st, v)
	}}
	sv := ex.contracts
	ex.contracts = map[string]ContractFn{}
	defer func() { ex.contracts = sv }()
	args := make([]Val, len(g.fn.Params))
	args[g.gen] = VFunc{nat: nat}
	tp := st.mkT(tspec{name: "o", dims: dims, elem: elemVar("stale"), abstract: true})
	if g.tensor >= 0 {
		args[g.tensor] = tp
	} else {
		args[g.dims] = st.tensorFields(tp)[lay.tdims]
	}
	if g.out >= 0 {
		args[g.out] = VPtr{tp.ref, tp.idx, fmt.Sprintf(".%d", lay.tdata)}
	}
	outs := ex.call(st, VFunc{fn: g.fn}, args)
	if len(outs) != 1 || outs[0].panic != "" {
		return fmt.Sprintf("%d outcomes", len(outs))
	}
	o := outs[0]
	if !entails(o.st.pc, Eq(o.st.draws, Add(start, prod(dims)))) {
		return fmt.Sprintf("number of calls is %s", o.st.draws)
	}
	switch g.result {
	case 'd':
		f := append([]Val(nil), o.st.tensorFields(tp)...)
		f[lay.tdata] = o.vals[0]
		o.st.writeCell(tp.ref, tp.idx, VStruct{f}, "", "")
	case 't':
		np, ok := o.vals[0].(VPtr)
		if !ok || np.ref.fam == tp.ref.fam {
			return "result is not a new tensor"
		}
		f, nf := o.st.tensorFields(tp), o.st.tensorFields(np)
		for i := range nf {
			if i != lay.tdata && i != lay.tdims {
				if _, ok := nf[i].(VNil); !ok {
					return "result has other fields set"
				}
			}
		}
		d, ok1 := f[lay.tdims].(VSlice)
		nd, ok2 := nf[lay.tdims].(VSlice)
		if rank > 0 && (!ok1 || !ok2 || d.ref.fam == nd.ref.fam) {
			return "the result shares the caller's shape"
		}
		tp = np
	}
	if !sameTerms(o.st.dimsOf(tp), dims) {
		return "shape changed"
	}
	idx := dimVars("i", rank)
	for i := range idx {
		o.st.pc = o.st.pc.And(Ge(idx[i], I(0))).And(Lt(idx[i], dims[i]))
	}
	e := o.st.elemOf(tp, idx)
	if !entails(o.st.pc, Eq(e, mkApp("E", SReal, Add(start, rankOf(idx, dims))))) {
		return fmt.Sprintf("element at position is %s", e)
	}
	return ""
}

// mergeOutcomes joins the results of several paths into one value, using the
// weakest guards that separate them.
func mergeOutcomes(outs []Outcome, base *PC) (Val, bool) {
	type class struct {
		v   Val
		pcs [][]*Term
	}
	var cl []*class
next:
	for _, o := range outs {
		l := o.st.pc.list()[lenPC(base):]
		for _, c := range cl {
			if sameVal(c.v, o.vals[0]) {
				c.pcs = append(c.pcs, l)
				continue next
			}
		}
		cl = append(cl, &class{o.vals[0], [][]*Term{l}})
	}
	has := func(l []*Term, t *Term) bool {
		for _, x := range l {
			if x == t {
				return true
			}
		}
		return false
	}
	common := func(c *class) []*Term {
		var out []*Term
		for _, t := range c.pcs[0] {
			ok := true
			for _, l := range c.pcs[1:] {
				ok = ok && has(l, t)
			}
			if ok {
				out = append(out, t)
			}
		}
		return out
	}
	val := cl[len(cl)-1].v
	for i := len(cl) - 2; i >= 0; i-- {
		var g *Term
		later := cl[i+1:]
		// one atom that holds throughout this class and fails in all later ones
	atoms:
		for _, t := range common(cl[i]) {
			for _, c := range later {
				for _, l := range c.pcs {
					if !has(l, Not(t)) {
						continue atoms
					}
				}
			}
			g = t
			break
		}
		if g == nil {
			var ds []*Term
			for _, l := range cl[i].pcs {
				ds = append(ds, And(l...))
			}
			g = Or(ds...)
		}
		m, ok := mergeVal(g, cl[i].v, val)
		if !ok {
			return nil, false
		}
		val = m
	}
	return val, true
}
