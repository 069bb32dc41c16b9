package main

// Symbolic executor over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st    *State
	vals  []Val
	panic string // non-empty: the call panics
	pos   string
}

type Exec struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package // by import path
	contracts map[string]ContractFn
	infos     map[*ssa.Function]*fnInfo
	readLog   map[readKey]*Ref
	checks    int // no-panic checks discharged
	steps     int
	maxSteps  int
	depth     int
	called    map[string]bool // functions whose bodies were executed
	usedCon   map[string]bool // contracts used
	sizes     types.Sizes
	knownUsed bool
	mark      *engineMark
	openCond  *Term           // the loop condition headerCondOpen found open
	insts     map[string]bool // contract instances used
	onInst    func(s *opSpec, in *inst)
	skip      *ssa.Function                         // body to run instead of its contract
	onDef     func(st *State, what string, c *Term) // definedness obligations
	funcMode  map[string]bool
}

type ContractFn func(ex *Exec, st *State, fn *ssa.Function, args []Val) []Outcome

var theExec *Exec

type fnInfo struct {
	num   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*loopInfo // by header
}

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

func (ex *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := ex.infos[fn]; ok {
		return i
	}
	fi := &fnInfo{num: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	add := func(v ssa.Value) {
		fi.num[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := fi.loops[h]
				if l == nil {
					l = &loopInfo{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					fi.loops[h] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	ex.infos[fn] = fi
	return fi
}

type act struct {
	fn   *ssa.Function
	info *fnInfo
}

type item struct {
	st    *State
	regs  []Val
	blk   *ssa.BasicBlock
	prev  *ssa.BasicBlock
	ip    int
	iters map[*ssa.BasicBlock]int

	deferred *deferred
}

// deferred is a stack of postponed calls.
type deferred struct {
	in   *ssa.Defer
	f    Val
	args []Val
	next *deferred
}

func (it *item) clone() *item {
	c := *it
	c.st = it.st.clone()
	c.regs = append([]Val(nil), it.regs...)
	if it.iters != nil {
		c.iters = map[*ssa.BasicBlock]int{}
		for k, v := range it.iters {
			c.iters[k] = v
		}
	}
	return &c
}

func shortName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/sahandsafizadeh/qeep/", "")
	return s
}

func (ex *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := ex.prog.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, repoDir+"/") + ":" + fmt.Sprint(q.Line)
}

var traceOn = os.Getenv("GOVERIF_TRACE") != ""

// call runs fn on args.
func (ex *Exec) call(st *State, f VFunc, args []Val) []Outcome {
	if f.nat != nil {
		return f.nat.call(ex, st, args)
	}
	fn := f.fn
	name := shortName(fn)
	skip := ex.skip == fn
	if skip {
		ex.skip = nil
	}
	if c, ok := ex.contracts[name]; ok && !skip {
		ex.usedCon[name] = true
		return forkOutcomes(st, func(s *State) []Outcome { return c(ex, s, fn, args) })
	}
	if fn.Origin() != nil {
		if c, ok := ex.contracts[shortName(fn.Origin())]; ok {
			ex.usedCon[shortName(fn.Origin())] = true
			return forkOutcomes(st, func(s *State) []Outcome { return c(ex, s, fn, args) })
		}
	}
	ext := fn.String()
	if o := fn.Origin(); o != nil {
		ext = o.String()
	}
	if b, ok := externals[ext]; ok {
		return forkOutcomes(st, func(s *State) []Outcome { return b(ex, s, fn, args) })
	}
	if len(fn.Blocks) == 0 {
		unsup("no body and no contract for %s", fn)
	}
	ex.called[name] = true
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 700 {
		unsup("call depth exceeded in %s", fn)
	}
	a := &act{fn: fn, info: ex.info(fn)}
	it := &item{st: st, regs: make([]Val, a.info.n), blk: fn.Blocks[0]}
	if len(args) != len(fn.Params) {
		unsup("arity mismatch calling %s: %d args for %d params", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		it.regs[a.info.num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		it.regs[a.info.num[p]] = f.free[i]
	}
	h0, pc0, w0, d0 := st.heap, st.pc, st.writes, st.draws
	_, _, outs := ex.run(a, it, nil)
	return mergePure(outs, h0, pc0, w0, d0)
}

// mergePure joins the outcomes of a call without effects into one.
func mergePure(outs []Outcome, h0 *Heap, pc0 *PC, w0 *WriteRec, d0 *Term) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	for _, o := range outs {
		if o.panic != "" || o.st.writes != w0 || o.st.draws != d0 || o.st.heap != h0 {
			return outs
		}
		for _, v := range o.vals {
			if _, ok := v.(VT); !ok {
				return outs
			}
		}
	}
	vals := append([]Val(nil), outs[len(outs)-1].vals...)
	for i := len(outs) - 2; i >= 0; i-- {
		g := pcDelta(outs[i].st.pc, pc0)
		if g == nil {
			return outs
		}
		for j := range vals {
			m, ok := mergeVal(g, outs[i].vals[j], vals[j])
			if !ok {
				return outs
			}
			vals[j] = m
		}
	}
	st := outs[0].st.clone()
	st.pc = pc0
	return []Outcome{{st: st, vals: vals}}
}

func pcDelta(p, base *PC) *Term {
	var c []*Term
	for p != base {
		if p == nil {
			return nil
		}
		c = append(c, p.t)
		p = p.parent
	}
	return And(c...)
}

// forkOutcomes runs f, splitting on undecided conditions.
func forkOutcomes(st *State, f func(*State) []Outcome) []Outcome {
	var outs []Outcome
	work := []*State{st}
	for n := 0; len(work) > 0; n++ {
		if n > 20000 {
			unsup("too many splits")
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		snap := s.clone()
		var o []Outcome
		c := catchFork(func() { o = f(s.clone()) })
		if c == nil {
			outs = append(outs, o...)
			continue
		}
		a := snap.clone()
		a.pc = a.pc.And(c)
		b := snap.clone()
		b.pc = b.pc.And(Not(c))
		work = append(work, b, a)
	}
	return outs
}

func catchFork(f func()) (c *Term) {
	defer func() {
		if r := recover(); r != nil {
			if nf, ok := r.(needFork); ok {
				c = nf.cond
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// run executes from it until return; with loop != nil it stops at transitions to
// the loop's header (backs) or out of the loop (exits).
func (ex *Exec) run(a *act, start *item, loop *loopInfo) (backs, exits []*item, outs []Outcome) {
	work := []*item{start}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		for it != nil {
			ex.steps++
			if ex.steps > ex.maxSteps {
				unsup("step budget exceeded")
			}
			if it.ip >= len(it.blk.Instrs) {
				unsup("fell off block in %s", a.fn)
			}
			in := it.blk.Instrs[it.ip]
			snap := it.clone()
			var next []*item
			var o []Outcome
			var b, e []*item
			c := catchFork(func() { next, b, e, o = ex.step(a, it, in, loop) })
			if c != nil {
				x := snap.clone()
				x.st.pc = x.st.pc.And(c)
				y := snap
				y.st.pc = y.st.pc.And(Not(c))
				work = append(work, y)
				it = x
				continue
			}
			backs = append(backs, b...)
			exits = append(exits, e...)
			outs = append(outs, o...)
			it = nil
			if len(next) > 0 {
				it = next[0]
				work = append(work, next[1:]...)
			}
		}
	}
	return
}

func (ex *Exec) val(a *act, it *item, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return VFunc{fn: x}
	case *ssa.Global:
		return ex.global(it.st, x)
	case *ssa.Builtin:
		return VFunc{}
	}
	n, ok := a.info.num[v]
	if !ok {
		unsup("value %s of %T", v.Name(), v)
	}
	r := it.regs[n]
	if h, ok := r.(VHavoc); ok {
		unsup("value carried around a loop is not understood (%s)", h.why)
	}
	return r
}

var globalFams = map[*ssa.Global]*Family{}

func (ex *Exec) global(st *State, g *ssa.Global) Val {
	f := globalFams[g]
	if f == nil {
		f = newFamily("global "+g.Name(), 0, g.Type().(*types.Pointer).Elem())
		f.pre = true
		f.owner = "global"
		globalFams[g] = f
	}
	if st.get(f) == nil {
		unsup("package variable %s", g)
	}
	return VPtr{&Ref{fam: f}, I(0), ""}
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch b := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return VT{B(constant.BoolVal(c.Value))}
		case b.Info()&types.IsString != 0:
			return VStr{constant.StringVal(c.Value)}
		case b.Info()&types.IsInteger != 0:
			r, _ := new(big.Rat).SetString(constant.ToInt(c.Value).ExactString())
			return VT{mkRat(SInt, r)}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return VT{RF(f)}
		}
	case *types.Interface:
		_ = b
	}
	unsup("constant %s", c)
	return nil
}

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VT{tFalse}
		case u.Info()&types.IsInteger != 0:
			return VT{I(0)}
		case u.Info()&types.IsFloat != 0:
			return VT{R(0)}
		case u.Info()&types.IsString != 0:
			return VStr{""}
		case u.Kind() == types.UntypedNil:
			return VNil{}
		}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = zeroVal(u.At(i).Type())
		}
		return VTuple{f}
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return VNil{}
	}
	unsup("zero value of %s", t)
	return nil
}

func sortOf(t types.Type) (Sort, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return SBool, true
		case b.Info()&types.IsInteger != 0:
			return SInt, true
		case b.Info()&types.IsFloat != 0:
			return SReal, true
		}
	}
	return 0, false
}

func (ex *Exec) setReg(a *act, it *item, v ssa.Value, x Val) {
	it.regs[a.info.num[v]] = x
}

// check is a run-time safety condition: either it is entailed, or the failing
// branch becomes a panic outcome.
func (ex *Exec) check(st *State, c *Term, what string, pos token.Pos) (bad *Outcome) {
	if c.kind == KBool && c.b {
		ex.checks++
		return nil
	}
	switch decide(st.pc, c) {
	case 1:
		ex.checks++
		return nil
	case -1:
		return &Outcome{st: st, panic: what, pos: ex.posOf(pos)}
	}
	panic(needFork{c})
}

func term(v Val) *Term {
	t, ok := v.(VT)
	if !ok {
		unsup("number expected, got %T", v)
	}
	return t.t
}

// jump moves to block b.
func (ex *Exec) jump(a *act, it *item, b *ssa.BasicBlock, loop *loopInfo) (next, backs, exits []*item, outs []Outcome) {
	it.prev = it.blk
	if loop != nil {
		if b == loop.head {
			it.blk = b
			it.ip = 0
			return nil, []*item{it}, nil, nil
		}
		if !loop.blocks[b] {
			it.blk = b
			it.ip = 0
			return nil, nil, []*item{it}, nil
		}
	}
	it.blk = b
	it.ip = 0
	return ex.enter(a, it)
}

// enter assigns the phis of it.blk for the edge it.prev -> it.blk, and applies
// the loop rule at headers whose condition is not constant.
func (ex *Exec) enter(a *act, it *item) (next, backs, exits []*item, outs []Outcome) {
	phis := phisOf(it.blk)
	if len(phis) > 0 {
		ei := -1
		for i, p := range it.blk.Preds {
			if p == it.prev {
				ei = i
			}
		}
		vals := make([]Val, len(phis))
		for i, p := range phis {
			vals[i] = ex.val(a, it, p.Edges[ei])
		}
		for i, p := range phis {
			ex.setReg(a, it, p, vals[i])
		}
	}
	it.ip = len(phis)
	if l := a.info.loops[it.blk]; l != nil {
		if it.iters == nil {
			it.iters = map[*ssa.BasicBlock]int{}
		}
		if !l.blocks[it.prev] {
			it.iters[it.blk] = 0
		}
		it.iters[it.blk]++
		if it.iters[it.blk] > 400 {
			unsup("loop at %s does not terminate within 400 unrollings", ex.posOf(blockPos(it.blk)))
		}
		if ex.headerCondOpen(a, it) {
			if c := ex.openCond; c != nil && c.kind == KLe && len(c.args[0].mons) <= 4 {
				// a loop over part of a small array: resolve where it starts
				e := Neg(c.args[0])
				if decide(it.st.pc, Le(e, I(8))) == 1 {
					if !it.st.must(Ge(e, I(0))) {
						return []*item{it}, nil, nil, nil
					}
					it.st.pin(e, 8)
					return []*item{it}, nil, nil, nil
				}
			}
			if ex.scansSmallArray(a, it) {
				return []*item{it}, nil, nil, nil
			}
			n, o := ex.loopRule(a, it, l)
			return n, nil, nil, o
		}
	}
	return []*item{it}, nil, nil, nil
}

// scansSmallArray: the loop header looks at the element of a slice of known
// length at the (known) value of a loop variable, so its condition can only be
// resolved element by element.
func (ex *Exec) scansSmallArray(a *act, it *item) bool {
	for _, in := range it.blk.Instrs {
		ix, ok := in.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		p, ok := ix.Index.(*ssa.Phi)
		if !ok || p.Block() != it.blk {
			continue
		}
		i, ok := it.regs[a.info.num[p]].(VT)
		if !ok {
			continue
		}
		s, ok := ex.val(a, it, ix.X).(VSlice)
		if !ok {
			continue
		}
		_, known := i.t.intVal()
		if n, ok := s.len.intVal(); ok && known && n <= 8 {
			return true
		}
	}
	return false
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// headerCondOpen evaluates the header's straight-line code on a scratch copy and
// reports whether its branch condition is not a constant.
func (ex *Exec) headerCondOpen(a *act, it *item) bool {
	last := it.blk.Instrs[len(it.blk.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	l := a.info.loops[it.blk]
	if l.blocks[it.blk.Succs[0]] == l.blocks[it.blk.Succs[1]] {
		return false
	}
	sc := it.clone()
	open := false
	ex.openCond = nil
	c := catchFork(func() {
		for sc.ip < len(sc.blk.Instrs)-1 {
			in := sc.blk.Instrs[sc.ip]
			if _, ok := in.(*ssa.Next); ok {
				return // treated by unrolling
			}
			n, _, _, o := ex.step(a, sc, in, nil)
			if len(n) != 1 || len(o) > 0 {
				return
			}
			sc = n[0]
		}
		v := ex.val(a, sc, iff.Cond)
		if t, ok := v.(VT); ok && t.t.kind != KBool {
			open = true
			ex.openCond = t.t
			// a condition that does not depend on anything the loop changes, or
			// only on data (not on a counter), is split instead
		}
	})
	_ = c
	return open
}

// step executes one instruction.
func (ex *Exec) step(a *act, it *item, in ssa.Instruction, loop *loopInfo) (next, backs, exits []*item, outs []Outcome) {
	st := it.st
	ok1 := func() ([]*item, []*item, []*item, []Outcome) {
		it.ip++
		return []*item{it}, nil, nil, nil
	}
	bad := func(o *Outcome) ([]*item, []*item, []*item, []Outcome) {
		return nil, nil, nil, []Outcome{*o}
	}
	panicO := func(msg string) ([]*item, []*item, []*item, []Outcome) {
		return nil, nil, nil, []Outcome{{st: st, panic: msg, pos: ex.posOf(in.Pos())}}
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return ok1()

	case *ssa.Alloc:
		el := x.Type().(*types.Pointer).Elem()
		name := x.Comment
		if name == "" {
			name = "new"
		}
		var r *Ref
		if arr, ok := el.Underlying().(*types.Array); ok {
			r = st.alloc(name, arr.Elem(), I(arr.Len()), zeroVal(arr.Elem()))
			ex.setReg(a, it, x, VPtr{r, I(0), "[]"})
		} else {
			r = st.alloc(name, el, I(1), zeroVal(el))
			ex.setReg(a, it, x, VPtr{r, I(0), ""})
		}
		return ok1()

	case *ssa.BinOp:
		l, r := ex.val(a, it, x.X), ex.val(a, it, x.Y)
		v, o := ex.binop(st, x, l, r)
		if o != nil {
			return bad(o)
		}
		ex.setReg(a, it, x, v)
		return ok1()

	case *ssa.UnOp:
		v := ex.val(a, it, x.X)
		switch x.Op {
		case token.MUL:
			p, ok := v.(VPtr)
			if !ok {
				if _, ok := v.(VNil); ok {
					return panicO("nil pointer dereference")
				}
				unsup("load through %T", v)
			}
			ex.checks++
			if p.path == "[]" {
				unsup("array value")
			}
			ex.setReg(a, it, x, st.load(p))
		case token.NOT:
			ex.setReg(a, it, x, VT{Not(term(v))})
		case token.SUB:
			ex.setReg(a, it, x, VT{Neg(term(v))})
		default:
			unsup("unary %s", x.Op)
		}
		return ok1()

	case *ssa.Store:
		v := ex.val(a, it, x.Val)
		p, ok := ex.val(a, it, x.Addr).(VPtr)
		if !ok {
			return panicO("nil pointer dereference")
		}
		ex.checks++
		st.store(p, v, ex.posOf(x.Pos()))
		return ok1()

	case *ssa.FieldAddr:
		p, ok := ex.val(a, it, x.X).(VPtr)
		if !ok {
			return panicO("nil pointer dereference")
		}
		ex.checks++
		ex.setReg(a, it, x, VPtr{p.ref, p.idx, fmt.Sprintf("%s.%d", p.path, x.Field)})
		return ok1()

	case *ssa.Field:
		ex.setReg(a, it, x, project(ex.val(a, it, x.X), []int{x.Field}))
		return ok1()

	case *ssa.IndexAddr:
		i := term(ex.val(a, it, x.Index))
		switch b := ex.val(a, it, x.X).(type) {
		case VSlice:
			if o := ex.check(st, And(Ge(i, I(0)), Lt(i, b.len)), "index out of range", x.Pos()); o != nil {
				return bad(o)
			}
			ex.setReg(a, it, x, VPtr{b.ref, Add(b.off, i), ""})
		case VPtr:
			if b.path != "[]" {
				unsup("address in array")
			}
			n := st.get(b.ref.fam).n
			if o := ex.check(st, And(Ge(i, I(0)), Lt(i, n)), "index out of range", x.Pos()); o != nil {
				return bad(o)
			}
			ex.setReg(a, it, x, VPtr{b.ref, i, ""})
		case VNil:
			return panicO("index out of range (nil slice)")
		default:
			unsup("index of %T", b)
		}
		return ok1()

	case *ssa.MakeInterface:
		ex.setReg(a, it, x, VIface{x.X.Type(), ex.val(a, it, x.X)})
		return ok1()

	case *ssa.ChangeInterface:
		ex.setReg(a, it, x, ex.val(a, it, x.X))
		return ok1()

	case *ssa.ChangeType:
		ex.setReg(a, it, x, ex.val(a, it, x.X))
		return ok1()

	case *ssa.Convert:
		v := ex.val(a, it, x.X)
		if t, ok := v.(VT); ok {
			d, ok := sortOf(x.Type())
			if !ok {
				unsup("conversion to %s", x.Type())
			}
			s := t.t.sort
			switch {
			case s == SInt && d == SReal:
				v = VT{ToReal(t.t)}
			case s == SReal && d == SInt:
				v = VT{Trunc(t.t)}
			case s == d:
				if s == SInt && !wideInt(x.Type()) {
					unsup("narrowing conversion to %s", x.Type())
				}
			default:
				unsup("conversion %s", x)
			}
		}
		ex.setReg(a, it, x, v)
		return ok1()

	case *ssa.TypeAssert:
		v := ex.val(a, it, x.X)
		ok := false
		var res Val
		switch y := v.(type) {
		case VIface:
			if types.IsInterface(x.AssertedType) {
				ok = types.Implements(y.typ, x.AssertedType.Underlying().(*types.Interface))
				res = y
			} else {
				ok = types.Identical(y.typ, x.AssertedType)
				res = y.v
			}
		case VNil:
		default:
			unsup("type assertion on %T", v)
		}
		if x.CommaOk {
			if !ok {
				res = zeroVal(x.AssertedType)
			}
			ex.setReg(a, it, x, VTuple{[]Val{res, VT{B(ok)}}})
			return ok1()
		}
		if !ok {
			return panicO("failed type assertion")
		}
		ex.checks++
		ex.setReg(a, it, x, res)
		return ok1()

	case *ssa.Extract:
		ex.setReg(a, it, x, ex.val(a, it, x.Tuple).(VTuple).f[x.Index])
		return ok1()

	case *ssa.MakeClosure:
		f := make([]Val, len(x.Bindings))
		for i, b := range x.Bindings {
			f[i] = ex.val(a, it, b)
		}
		ex.setReg(a, it, x, VFunc{fn: x.Fn.(*ssa.Function), free: f})
		return ok1()

	case *ssa.MakeSlice:
		n, c := term(ex.val(a, it, x.Len)), term(ex.val(a, it, x.Cap))
		if o := ex.check(st, And(Ge(n, I(0)), Ge(c, n)), "makeslice: len out of range", x.Pos()); o != nil {
			return bad(o)
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		if _, ok := n.intVal(); !ok && !types.IsInterface(el) && decide(st.pc, Le(n, I(8))) == 1 {
			// a small array: resolve its length
			same := c == n
			n = st.pin(n, 8)
			if same {
				c = n
			}
		}
		r := st.alloc("make", el, c, zeroVal(el))
		ex.setReg(a, it, x, VSlice{r, I(0), n, c})
		return ok1()

	case *ssa.MakeMap:
		r := st.alloc("map", nil, I(1), VMapData{})
		ex.setReg(a, it, x, VMap{r})
		return ok1()

	case *ssa.MapUpdate:
		m, ok := ex.val(a, it, x.Map).(VMap)
		if !ok {
			return panicO("assignment to entry in nil map")
		}
		k, v := ex.val(a, it, x.Key), ex.val(a, it, x.Value)
		d := st.readCell(m.ref, I(0)).(VMapData)
		nd := VMapData{append([]Val(nil), d.keys...), append([]Val(nil), d.vals...)}
		for i := range nd.keys {
			if st.must(st.valEq(nd.keys[i], k)) {
				nd.vals[i] = v
				st.writeCell(m.ref, I(0), nd, "", ex.posOf(x.Pos()))
				return ok1()
			}
		}
		nd.keys = append(nd.keys, k)
		nd.vals = append(nd.vals, v)
		st.writeCell(m.ref, I(0), nd, "", ex.posOf(x.Pos()))
		return ok1()

	case *ssa.Lookup:
		mv := ex.val(a, it, x.X)
		k := ex.val(a, it, x.Index)
		mt, isMap := x.X.Type().Underlying().(*types.Map)
		if !isMap {
			unsup("string index")
		}
		res, found := Val(zeroVal(mt.Elem())), false
		if m, ok := mv.(VMap); ok {
			d := st.readCell(m.ref, I(0)).(VMapData)
			for i := range d.keys {
				if st.must(st.valEq(d.keys[i], k)) {
					res, found = d.vals[i], true
					break
				}
			}
		}
		if x.CommaOk {
			res = VTuple{[]Val{res, VT{B(found)}}}
		}
		ex.setReg(a, it, x, res)
		return ok1()

	case *ssa.Slice:
		return ex.stepSlice(a, it, x)

	case *ssa.Jump:
		return ex.jump(a, it, it.blk.Succs[0], loop)

	case *ssa.If:
		c := term(ex.val(a, it, x.Cond))
		if st.must(c) {
			return ex.jump(a, it, it.blk.Succs[0], loop)
		}
		return ex.jump(a, it, it.blk.Succs[1], loop)

	case *ssa.Return:
		vs := make([]Val, len(x.Results))
		for i, r := range x.Results {
			vs[i] = ex.val(a, it, r)
		}
		return nil, nil, nil, []Outcome{{st: st, vals: vs}}

	case *ssa.Defer:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok {
			unsup("deferred builtin in %s", a.fn)
		}
		f, args := ex.callee(a, it, &x.Call)
		it.deferred = &deferred{x, f, args, it.deferred}
		return ok1()

	case *ssa.RunDefers:
		d := it.deferred
		if d == nil {
			return ok1()
		}
		it.deferred = d.next
		for _, o := range ex.callVals(st, &d.in.Call, d.f, d.args, d.in.Pos()) {
			if o.panic != "" {
				outs = append(outs, o)
				continue
			}
			n := it.clone()
			n.st = o.st
			next = append(next, n)
		}
		return next, nil, nil, outs

	case *ssa.Panic:
		return panicO("explicit panic")

	case *ssa.Call:
		os := ex.callInstr(a, it, x)
		for i, o := range os {
			if o.panic != "" {
				outs = append(outs, o)
				continue
			}
			var n *item
			if i == len(os)-1 {
				n = it
			} else {
				n = it.clone()
			}
			n.st = o.st
			var v Val
			switch sig := x.Call.Signature().Results(); sig.Len() {
			case 0:
			case 1:
				v = o.vals[0]
			default:
				v = VTuple{o.vals}
			}
			ex.setReg(a, n, x, v)
			n.ip++
			next = append(next, n)
		}
		return next, nil, nil, outs

	case *ssa.Phi:
		unsup("phi in the middle of a block")
	}
	unsup("instruction %T (%s) in %s", in, in, a.fn)
	return
}

func wideInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt)
}

func (st *State) valEq(l, r Val) *Term {
	_, ln := l.(VNil)
	_, rn := r.(VNil)
	if ln || rn {
		return B(ln && rn)
	}
	switch x := l.(type) {
	case VT:
		return Eq(x.t, term(r))
	case VStr:
		y, ok := r.(VStr)
		return B(ok && x.s == y.s)
	case VPtr:
		y, ok := r.(VPtr)
		if !ok || x.ref.fam != y.ref.fam || x.path != y.path {
			return tFalse
		}
		c := []*Term{Eq(x.idx, y.idx)}
		for i := range x.ref.args {
			c = append(c, Eq(x.ref.args[i], y.ref.args[i]))
		}
		return And(c...)
	case VIface:
		y, ok := r.(VIface)
		if !ok || !types.Identical(x.typ, y.typ) {
			return tFalse
		}
		return st.valEq(x.v, y.v)
	case VOpaque:
		y, ok := r.(VOpaque)
		if !ok {
			return tFalse
		}
		return Eq(x.t, y.t)
	case VStruct:
		y, ok := r.(VStruct)
		if !ok {
			return tFalse
		}
		var c []*Term
		for i := range x.f {
			c = append(c, st.valEq(x.f[i], y.f[i]))
		}
		return And(c...)
	}
	unsup("comparison of %T", l)
	return nil
}

func (ex *Exec) binop(st *State, x *ssa.BinOp, l, r Val) (Val, *Outcome) {
	switch x.Op {
	case token.EQL, token.NEQ:
		c := st.valEq(l, r)
		if x.Op == token.NEQ {
			c = Not(c)
		}
		return VT{c}, nil
	}
	if s, ok := l.(VStr); ok {
		if x.Op == token.ADD {
			if q, ok := r.(VStr); ok {
				return VStr{s.s + q.s}, nil
			}
		}
		unsup("string operator")
	}
	p, q := term(l), term(r)
	switch x.Op {
	case token.ADD:
		return VT{Add(p, q)}, nil
	case token.SUB:
		return VT{Sub(p, q)}, nil
	case token.MUL:
		return VT{Mul(p, q)}, nil
	case token.QUO:
		if p.sort == SReal {
			return VT{ex.fdiv(st, p, q)}, nil
		}
		if o := ex.check(st, Ne(q, I(0)), "integer divide by zero", x.Pos()); o != nil {
			return nil, o
		}
		d, _ := st.divmod(p, q)
		return VT{d}, nil
	case token.REM:
		if o := ex.check(st, Ne(q, I(0)), "integer divide by zero", x.Pos()); o != nil {
			return nil, o
		}
		_, m := st.divmod(p, q)
		return VT{m}, nil
	case token.LSS:
		return VT{st.cmpDiv(Lt(p, q))}, nil
	case token.LEQ:
		return VT{st.cmpDiv(Le(p, q))}, nil
	case token.GTR:
		return VT{st.cmpDiv(Gt(p, q))}, nil
	case token.GEQ:
		return VT{st.cmpDiv(Ge(p, q))}, nil
	case token.AND:
		if p.sort == SBool {
			return VT{And(p, q)}, nil
		}
	case token.OR:
		if p.sort == SBool {
			return VT{Or(p, q)}, nil
		}
	}
	unsup("operator %s", x.Op)
	return nil, nil
}

// fdiv is float division; a zero divisor is a definedness obligation.
func (ex *Exec) fdiv(st *State, p, q *Term) *Term {
	if q.isZero() {
		return mkApp("divzero", SReal, p)
	}
	if i := fromReal(q); i != nil && !q.isNum() {
		// a count: decide whether it is zero
		if st.must(Eq0(i)) {
			return mkApp("divzero", SReal, p)
		}
	} else if ex.onDef != nil && !q.isNum() {
		ex.onDef(st, "division", Ne(q, R(0)))
	}
	return Div(p, q)
}

// divmod is Go's truncated integer division, exactly when the dividend can be
// written as quotient*divisor + remainder, otherwise through two applications
// constrained in the path condition.
func (st *State) divmod(p, q *Term) (*Term, *Term) {
	if a, ok := p.intVal(); ok {
		if b, ok := q.intVal(); ok {
			return I(int64(a / b)), I(int64(a % b))
		}
	}
	if quo, rem, ok := polyDiv(p, q); ok && entails(st.pc, Gt(q, I(0))) && entails(st.pc, Ge(p, I(0))) {
		// |rem| < q decides the pair up to one correction
		if entails(st.pc, And(Lt(rem, q), Gt(rem, Neg(q)))) {
			return Ite(Ge(rem, I(0)), quo, Sub(quo, I(1))), Ite(Ge(rem, I(0)), rem, Add(rem, q))
		}
	}
	d, m := mkApp("idiv", SInt, p, q), mkApp("imod", SInt, p, q)
	if p.isNum() && p.num.Sign() >= 0 && entails(st.pc, Gt(q, I(0))) {
		return d, m // comparisons with the quotient are rewritten by cmpDiv
	}
	st.pc = st.pc.And(Implies(And(Ge(p, I(0)), Gt(q, I(0))), And(Eq(p, Add(Mul(d, q), m)), Ge(m, I(0)), Lt(m, q), Ge(d, I(0)))))
	return d, m
}

// cmpDiv rewrites a comparison with floor(M/q), M a constant, to a product.
func (st *State) cmpDiv(c *Term) *Term {
	if c.kind != KLe || c.args[0].sort != SInt {
		return c
	}
	for _, m := range monosOf(c.args[0]) {
		if len(m.fs) != 1 || m.fs[0].e != 1 || !m.c.IsInt() || new(big.Rat).Abs(m.c).Cmp(ratOne) != 0 {
			continue
		}
		d := m.fs[0].t
		if d.kind != KApp || d.name != "idiv" || !d.args[0].isNum() {
			continue
		}
		M, q := d.args[0], d.args[1]
		r := Sub(c.args[0], polyOf(SInt, []Mono{m}))
		if containsVar(r, d) || !entails(st.pc, Gt(q, I(0))) {
			continue
		}
		if m.c.Sign() > 0 { // floor(M/q) + r <= 0
			return Lt(M, Mul(Sub(I(1), r), q))
		}
		return Le(Mul(r, q), M) // r <= floor(M/q)
	}
	return c
}

// polyDiv divides integer polynomials: p = quo*q + rem, leading monomial of q.
func polyDiv(p, q *Term) (quo, rem *Term, ok bool) {
	qm := monosOf(q)
	if len(qm) == 0 {
		return nil, nil, false
	}
	// leading: the monomial of q with most factors
	lead := qm[0]
	for _, m := range qm {
		if deg(m) > deg(lead) {
			lead = m
		}
	}
	if deg(lead) == 0 || new(big.Rat).Abs(lead.c).Cmp(ratOne) != 0 {
		return nil, nil, false
	}
	quo = I(0)
	rem = p
	for n := 0; n < 50; n++ {
		hit := false
		for _, m := range monosOf(rem) {
			r, ok := monoDiv(m, lead)
			if !ok {
				continue
			}
			t := polyOf(SInt, []Mono{r})
			quo = Add(quo, t)
			rem = Sub(rem, Mul(t, q))
			hit = true
			break
		}
		if !hit {
			return quo, rem, true
		}
	}
	return nil, nil, false
}

func deg(m Mono) int {
	d := 0
	for _, f := range m.fs {
		d += f.e
	}
	return d
}

func monoDiv(a, b Mono) (Mono, bool) {
	fs := append([]Factor(nil), a.fs...)
	for _, g := range b.fs {
		hit := false
		for i := range fs {
			if fs[i].t == g.t {
				if fs[i].e < g.e {
					return Mono{}, false
				}
				fs[i] = Factor{g.t, fs[i].e - g.e}
				hit = true
			}
		}
		if !hit {
			return Mono{}, false
		}
	}
	var out []Factor
	for _, f := range fs {
		if f.e != 0 {
			out = append(out, f)
		}
	}
	return Mono{c: new(big.Rat).Quo(a.c, b.c), fs: out}, true
}

func (ex *Exec) stepSlice(a *act, it *item, x *ssa.Slice) (next, backs, exits []*item, outs []Outcome) {
	st := it.st
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return term(ex.val(a, it, v))
	}
	var ref *Ref
	var off, ln, cp *Term
	switch b := ex.val(a, it, x.X).(type) {
	case VSlice:
		ref, off, ln, cp = b.ref, b.off, b.len, b.cap
	case VPtr:
		if b.path != "[]" {
			unsup("slice of pointer")
		}
		ref, off = b.ref, I(0)
		ln = st.get(b.ref.fam).n
		cp = ln
	case VNil:
		lo, hi := get(x.Low, I(0)), get(x.High, I(0))
		if o := ex.check(st, And(Eq(lo, I(0)), Eq(hi, I(0))), "slice bounds out of range", x.Pos()); o != nil {
			return nil, nil, nil, []Outcome{*o}
		}
		ex.setReg(a, it, x, VNil{})
		it.ip++
		return []*item{it}, nil, nil, nil
	default:
		unsup("slice of %T", b)
	}
	lo, hi, mx := get(x.Low, I(0)), get(x.High, ln), get(x.Max, cp)
	if o := ex.check(st, And(Ge(lo, I(0)), Le(lo, hi), Le(hi, mx), Le(mx, cp)), "slice bounds out of range", x.Pos()); o != nil {
		return nil, nil, nil, []Outcome{*o}
	}
	if k, ok := cp.intVal(); ok && k <= 16 && ref.fam != nil && st.get(ref.fam).conc() {
		// a small array of known size: resolve the bounds
		lo, hi = st.pin(lo, int(k)), st.pin(hi, int(k))
	}
	ex.setReg(a, it, x, VSlice{ref, Add(off, lo), Sub(hi, lo), Sub(mx, lo)})
	it.ip++
	return []*item{it}, nil, nil, nil
}

// callInstr resolves and performs a call.
func (ex *Exec) callInstr(a *act, it *item, x *ssa.Call) []Outcome {
	f, args := ex.callee(a, it, &x.Call)
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		return ex.builtin(it.st, b, x, args)
	}
	return ex.callVals(it.st, &x.Call, f, args, x.Pos())
}

// callee evaluates what is called, and with what.
func (ex *Exec) callee(a *act, it *item, cc *ssa.CallCommon) (f Val, args []Val) {
	args = make([]Val, len(cc.Args))
	for i, v := range cc.Args {
		args[i] = ex.val(a, it, v)
	}
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		f = ex.val(a, it, cc.Value)
	}
	return
}

func (ex *Exec) callVals(st *State, cc *ssa.CallCommon, f Val, args []Val, p token.Pos) []Outcome {
	pos := ex.posOf(p)
	if cc.IsInvoke() {
		i, ok := f.(VIface)
		if !ok {
			if _, ok := f.(VNil); ok {
				return []Outcome{{st: st, panic: "method call on nil interface", pos: pos}}
			}
			unsup("invoke on %T", f)
		}
		ex.checks++
		return ex.invoke(st, i, cc.Method, args)
	}
	fv, ok := f.(VFunc)
	if !ok {
		if _, ok := f.(VNil); ok {
			return []Outcome{{st: st, panic: "call of nil function", pos: pos}}
		}
		unsup("call of %T", f)
	}
	ex.checks++
	return ex.call(st, fv, args)
}

func (ex *Exec) invoke(st *State, i VIface, m *types.Func, args []Val) []Outcome {
	if o, ok := i.v.(VOpaque); ok {
		if nat, ok := foreign[o.t.name]; ok {
			return nat(ex, st, m.Name(), args)
		}
		unsup("method %s of a foreign type", m.Name())
	}
	fn := ex.prog.LookupMethod(i.typ, m.Pkg(), m.Name())
	if fn == nil {
		unsup("method %s of %s", m.Name(), i.typ)
	}
	return ex.call(st, VFunc{fn: fn}, append([]Val{i.v}, args...))
}

// foreign gives the behaviour of verifier-supplied interface implementations.
var foreign = map[string]func(ex *Exec, st *State, method string, args []Val) []Outcome{}
