package main

// Back-propagation over every graph, with no bound on its size.
//
// The functions that walk the graph are executed symbolically, path by path, from
// their SSA form, over an unbounded heap of gradient contexts: tracked, the edges
// and their targets are functions of a context, the mutable state (spent flags,
// gradients, the visited map, the order) is a set of arrays. The walk itself is
// checked against a recursive contract (spec below), loops against invariants, and
// every obligation goes to an SMT solver.
//
// Ghost state: black(c) and pos(c) say whether and where a context is in a list;
// done(e) says the rule of edge e has been applied; exp(c) is the gradient the
// context must hold: its earlier gradient plus everything delivered since.
//
// Contract of the walk(g, order, visited), graphs being finite and acyclic:
//   requires  Inv(order, visited), contexts visited but not yet listed lie above g
//   ensures   Inv; the list is extended; g is listed if tracked; the same contexts
//             remain visited and not listed; the newly listed ones are reachable
//             from g and are exactly those newly spent
//   Inv       the list has no repetitions, holds visited tracked contexts, and the
//             tracked targets of a listed context are listed before it
//   decreases the height of g
//
// Contract of BackPropagate(root): every rule of every tracked context reachable
// from the root is applied exactly once, when the gradient of its own context is
// complete; gradients hold the sum of what was delivered; exactly the tracked
// reachable contexts are spent; an untracked root changes nothing.

import (
	"bytes"
	"context"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const bpTheory = `
(set-option :smt.mbqi true)
(declare-sort Ctx 0) (declare-sort Edge 0) (declare-sort T 0)
(declare-fun ctxOf (T) Ctx) (declare-fun tracked (Ctx) Bool) (declare-fun elen (Ctx) Int)
(declare-fun eat (Ctx Int) Edge) (declare-fun target (Edge) T)
(declare-fun owner (Edge) Ctx) (declare-fun eidx (Edge) Int) (declare-fun h (Ctx) Int)
(declare-fun reach (Ctx Ctx) Bool) (declare-fun plus (T T) T) (declare-const nilT T)
(define-fun tgt ((c Ctx) (i Int)) Ctx (ctxOf (target (eat c i))))
(define-fun isEdge ((e Edge)) Bool (and (= e (eat (owner e) (eidx e))) (<= 0 (eidx e)) (< (eidx e) (elen (owner e)))))
(define-fun relevant ((e Edge)) Bool (and (isEdge e) (tracked (ctxOf (target e)))))
(assert (forall ((c Ctx)) (! (and (<= 0 (elen c)) (<= 0 (h c))) :pattern ((elen c)))))
(assert (forall ((c Ctx)) (! (<= 0 (h c)) :pattern ((h c)))))
(assert (forall ((c Ctx) (i Int)) (! (=> (and (<= 0 i) (< i (elen c))) (and (= (owner (eat c i)) c) (= (eidx (eat c i)) i))) :pattern ((eat c i)))))
(assert (forall ((c Ctx) (i Int)) (! (=> (and (<= 0 i) (< i (elen c))) (< (h (ctxOf (target (eat c i)))) (h c))) :pattern ((target (eat c i))))))
(assert (forall ((c Ctx)) (! (reach c c) :pattern ((reach c c)))))
(assert (forall ((g Ctx) (i Int) (c Ctx)) (! (=> (and (<= 0 i) (< i (elen g)) (tracked (ctxOf (target (eat g i)))) (reach (ctxOf (target (eat g i))) c)) (reach g c)) :pattern ((eat g i) (reach (ctxOf (target (eat g i))) c)))))
(assert (forall ((a T) (b T)) (! (and (= (plus a b) (plus b a)) (not (= (plus a b) nilT))) :pattern ((plus a b)))))
`

type (
	bCtx  struct{ t string }
	bT    struct{ t string }
	bAny  struct{ t string } // the context of tensor t, as any
	bEdge struct{ t string }
	bInt  struct{ t string }
	bBool struct{ t string }
	bErr  struct{ t string } // is it an error
	bList struct {
		arr, len, black, pos string
		id                   int
	}
	bEdges struct{ c string }
	bMap   struct{ id int }
	bFn    struct {
		edge string
		fn   *ssa.Function
		free []any
	}
	bField struct { // address of a field of a context or an edge
		of    any
		field int
	}
	bElem struct { // address of a list element
		of any
		i  string
	}
	bCell struct {
		id int
		i  int
	}
	bTuple struct{ v []any }
	bVar   struct{ v []any } // short slice made of an array (varargs)
	bNil   struct{}
)

type bpState struct {
	env                    map[ssa.Value]any
	pc                     []string
	vis                    map[int]string
	dirty, grad, exp, done string
	start                  string // the gradient of the root has been delivered
	failed                 string
	cells                  map[int]any
	dead                   map[int]bool
	edges                  map[string]map[int]any // edges allocated here
	loops                  []bpLoop
	order                  *bList // what the walk returned
	dirty1                 string // spent flags after the walk
}

type bpLoop struct {
	head *ssa.BasicBlock
	k    string
	fn   string
}

func (s *bpState) clone() *bpState {
	c := *s
	c.env = map[ssa.Value]any{}
	for k, v := range s.env {
		c.env[k] = v
	}
	c.pc = append([]string(nil), s.pc...)
	c.vis = map[int]string{}
	for k, v := range s.vis {
		c.vis[k] = v
	}
	c.cells = map[int]any{}
	for k, v := range s.cells {
		c.cells[k] = v
	}
	c.dead = map[int]bool{}
	for k, v := range s.dead {
		c.dead[k] = v
	}
	c.edges = map[string]map[int]any{}
	for k, v := range s.edges {
		m := map[int]any{}
		for a, b := range v {
			m[a] = b
		}
		c.edges[k] = m
	}
	c.loops = append([]bpLoop(nil), s.loops...)
	return &c
}

type bpOut struct {
	st  *bpState
	val []any
}

// bpGoal is one obligation: hypotheses, and a formula to prove from them.
type bpGoal struct {
	name string
	hyp  []string
	goal string
}

type bp struct {
	ex    *Exec
	decl  []string
	n     int
	goals []bpGoal
	walk  *ssa.Function
	wg    int // parameters of the walk
	wo    int
	wm    int
	in    *bpState // state at entry of the function under verification
	g     string   // its context
	o     bList
	m     int
	root  string
	main  bool
	steps int
	depth int
	seen  map[string]bool
}

func (b *bp) fresh(name, sort string) string {
	b.n++
	t := fmt.Sprintf("%s_%d", name, b.n)
	b.decl = append(b.decl, fmt.Sprintf("(declare-const %s %s)", t, sort))
	return t
}

const (
	sCB = "(Array Ctx Bool)"
	sCI = "(Array Ctx Int)"
	sCT = "(Array Ctx T)"
	sEB = "(Array Edge Bool)"
	sIC = "(Array Int Ctx)"
)

func sx(op string, a ...string) string { return "(" + op + " " + strings.Join(a, " ") + ")" }
func sAnd(a ...string) string {
	if len(a) == 0 {
		return "true"
	}
	return sx("and", a...)
}

func (b *bp) list(name string) bList {
	b.n++
	return bList{b.fresh(name, sIC), b.fresh(name+"len", "Int"), b.fresh(name+"black", sCB), b.fresh(name+"pos", sCI), b.n}
}

func (b *bp) prove(s *bpState, name string, goals ...string) {
	for i, g := range goals {
		n := name
		if len(goals) > 1 {
			n = fmt.Sprintf("%s (%d)", name, i+1)
		}
		b.goals = append(b.goals, bpGoal{n, append([]string(nil), s.pc...), g})
	}
}

// inv: the list invariant.
func inv(o bList, visited string) []string {
	return []string{
		sx("<=", "0", o.len),
		fmt.Sprintf("(forall ((c Ctx)) (! (=> (select %s c) (and (<= 0 (select %s c)) (< (select %s c) %s) (= (select %s (select %s c)) c))) :pattern ((select %s c))))", o.black, o.pos, o.pos, o.len, o.arr, o.pos, o.black),
		fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (and (select %s (select %s i)) (= (select %s (select %s i)) i))) :pattern ((select %s i))))", o.len, o.black, o.arr, o.pos, o.arr, o.arr),
		fmt.Sprintf("(forall ((c Ctx)) (! (=> (select %s c) (and (select %s c) (tracked c))) :pattern ((select %s c))))", o.black, visited, o.black),
		fmt.Sprintf("(forall ((c Ctx) (i Int)) (! (=> (and (select %s c) (<= 0 i) (< i (elen c)) (tracked (tgt c i))) (and (select %s (tgt c i)) (< (select %s (tgt c i)) (select %s c)))) :pattern ((select %s c) (eat c i))))", o.black, o.black, o.pos, o.pos, o.black),
	}
}

// above: what is visited but not listed is above g.
func above(o bList, visited, g string) string {
	return fmt.Sprintf("(forall ((c Ctx)) (! (=> (and (select %s c) (not (select %s c))) (> (h c) (h %s))) :pattern ((select %s c))))", visited, o.black, g, visited)
}

func extends(o, n bList) []string {
	return []string{
		sx("<=", o.len, n.len),
		fmt.Sprintf("(forall ((c Ctx)) (! (=> (select %s c) (and (select %s c) (= (select %s c) (select %s c)))) :pattern ((select %s c)) :pattern ((select %s c))))", o.black, n.black, n.pos, o.pos, o.black, n.black),
	}
}

// greys: extra is listed beside the contexts that were visited and not listed.
func greys(o bList, vis string, n bList, nvis, extra string) string {
	old := fmt.Sprintf("(and (select %s c) (not (select %s c)))", vis, o.black)
	if extra != "" {
		old = fmt.Sprintf("(or %s (= c %s))", old, extra)
	}
	return fmt.Sprintf("(forall ((c Ctx)) (! (= (and (select %s c) (not (select %s c))) %s) :pattern ((select %s c)) :pattern ((select %s c)) :pattern ((select %s c))))", nvis, n.black, old, nvis, n.black, vis)
}

func spent(o bList, dirty string, n bList, ndirty, extra string) string {
	e := ""
	if extra != "" {
		e = fmt.Sprintf(" (= c %s)", extra)
	}
	return fmt.Sprintf("(forall ((c Ctx)) (! (= (select %s c) (or (select %s c) (and (select %s c) (not (select %s c)))%s)) :pattern ((select %s c))))", ndirty, dirty, n.black, o.black, e, ndirty)
}

func reached(o, n bList, g string) string {
	return fmt.Sprintf("(forall ((c Ctx)) (! (=> (and (select %s c) (not (select %s c))) (and (tracked %s) (reach %s c))) :pattern ((select %s c))))", n.black, o.black, g, g, n.black)
}

func doneIs(done string, o bList, from, at, k string) string {
	c := fmt.Sprintf("(>= (select %s (owner e)) %s)", o.pos, from)
	if at != "" {
		c = fmt.Sprintf("(or %s (and (= (select %s (owner e)) %s) (< (eidx e) %s)))", c, o.pos, at, k)
	}
	return fmt.Sprintf("(forall ((e Edge)) (! (= (select %s e) (and (relevant e) (select %s (owner e)) %s)) :pattern ((select %s e)) :pattern ((owner e))))", done, o.black, c, done)
}

// invariants of the loop entered innermost, after k iterations.
func (b *bp) invariants(s *bpState, n *bList) []string {
	d := len(s.loops)
	k := s.loops[d-1].k
	if !b.main {
		if d != 1 || n == nil {
			unsup("loop structure of the walk")
		}
		v := s.vis[b.m]
		out := []string{sx("<=", k, sx("elen", b.g))}
		out = append(out, inv(*n, v)...)
		out = append(out, extends(b.o, *n)...)
		return append(out,
			greys(b.o, b.in.vis[b.m], *n, v, b.g),
			spent(b.o, b.in.dirty, *n, s.dirty, b.g),
			reached(b.o, *n, b.g),
			fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s) (tracked (tgt %s i))) (select %s (tgt %s i))) :pattern ((eat %s i))))", k, b.g, n.black, b.g, b.g),
			sx("=", s.grad, b.in.grad))
	}
	if s.order == nil {
		unsup("loop before the walk")
	}
	o := *s.order
	common := []string{
		sx("=", s.grad, s.exp), sx("=", s.dirty, s.dirty1), sx("not", s.failed),
		sx("=", s.start, sx("tracked", b.root)),
	}
	k1 := s.loops[0].k
	from := sx("-", o.len, k1)
	at := sx("-", o.len, k1, "1")
	switch d {
	case 1:
		return append(common, sx("<=", k1, o.len), doneIs(s.done, o, from, "", ""))
	case 2:
		return append(common, sx("<", k1, o.len), sx("<=", k, sx("elen", sx("select", o.arr, at))), doneIs(s.done, o, from, at, k))
	}
	unsup("loop structure of back-propagation")
	return nil
}

/* ---------- execution ---------- */

func (b *bp) havoc(s *bpState) {
	s.dirty, s.grad, s.exp, s.done = b.fresh("dirty", sCB), b.fresh("grad", sCT), b.fresh("exp", sCT), b.fresh("done", sEB)
	s.start, s.failed = b.fresh("start", "Bool"), b.fresh("failed", "Bool")
	for k := range s.vis {
		s.vis[k] = b.fresh("visited", sCB)
	}
}

func (b *bp) call(s *bpState, fn *ssa.Function, args, free []any) []bpOut {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn.Name())
	}
	b.depth++
	defer func() { b.depth-- }()
	if b.depth > 12 {
		unsup("calls nested too deeply")
	}
	env := s.env
	s.env = map[ssa.Value]any{}
	for i, p := range fn.Params {
		s.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		s.env[p] = free[i]
	}
	b.seen[shortName(fn)] = true
	loops := len(s.loops)
	outs := b.block(s, fn, fn.Blocks[0], nil)
	for i := range outs {
		outs[i].st = outs[i].st.clone()
		outs[i].st.env = env
		outs[i].st.loops = outs[i].st.loops[:loops]
	}
	return outs
}

func inLoop(h, x *ssa.BasicBlock) bool {
	// x is in the natural loop of h: h dominates x, and x reaches a back edge of h
	if !h.Dominates(x) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(y *ssa.BasicBlock) bool
	rec = func(y *ssa.BasicBlock) bool {
		for _, z := range y.Succs {
			if z == h {
				return true
			}
			if !seen[z] && h.Dominates(z) {
				seen[z] = true
				if rec(z) {
					return true
				}
			}
		}
		return false
	}
	return rec(x)
}

func isHeader(x *ssa.BasicBlock) bool {
	for _, p := range x.Preds {
		if x.Dominates(p) {
			return true
		}
	}
	return false
}

func (b *bp) block(s *bpState, fn *ssa.Function, blk, from *ssa.BasicBlock) []bpOut {
	b.steps++
	if b.steps > 20000 {
		unsup("too many steps")
	}
	// leave loops that do not contain the block
	for len(s.loops) > 0 {
		l := s.loops[len(s.loops)-1]
		if l.head.Parent() != fn || l.head == blk || inLoop(l.head, blk) {
			break
		}
		s.loops = s.loops[:len(s.loops)-1]
	}
	pred := 0
	for i, p := range blk.Preds {
		if p == from {
			pred = i
		}
	}
	var phis []*ssa.Phi
	for _, in := range blk.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	vals := make([]any, len(phis))
	for i, p := range phis {
		vals[i] = b.val(s, p.Edges[pred])
	}
	if isHeader(blk) {
		if l := len(s.loops); l > 0 && s.loops[l-1].head == blk {
			// one iteration is over
			k := s.loops[l-1].k
			s.loops[l-1].k = sx("+", k, "1")
			n := b.carried(s, phis, vals)
			b.prove(s, fmt.Sprintf("loop invariant of %s is preserved", fn.Name()), b.invariants(s, n)...)
			return nil
		}
		s.loops = append(s.loops, bpLoop{head: blk, k: "0", fn: fn.Name()})
		n := b.carried(s, phis, vals)
		b.prove(s, fmt.Sprintf("loop invariant of %s holds initially", fn.Name()), b.invariants(s, n)...)
		b.havoc(s)
		k := b.fresh("k", "Int")
		s.loops[len(s.loops)-1].k = k
		s.pc = append(s.pc, sx("<=", "0", k))
		n = nil
		for i, p := range phis {
			switch v := vals[i].(type) {
			case bList, bNil:
				if _, ok := p.Type().Underlying().(*types.Slice); !ok {
					unsup("value carried around a loop")
				}
				o := b.list("order")
				vals[i] = o
				n = &o
			case bInt:
				step := int64(0)
				for q, e := range p.Edges {
					if !blk.Dominates(blk.Preds[q]) {
						continue
					}
					bo, ok := e.(*ssa.BinOp)
					if !ok || bo.X != p || bo.Op != token.ADD && bo.Op != token.SUB {
						unsup("loop counter")
					}
					c, ok := bo.Y.(*ssa.Const)
					if !ok {
						unsup("loop counter")
					}
					x := c.Int64()
					if bo.Op == token.SUB {
						x = -x
					}
					if step != 0 && step != x {
						unsup("loop counter")
					}
					step = x
				}
				vals[i] = bInt{sx("+", v.t, sx("*", fmt.Sprintf("%d", step), k))}
				if step < 0 {
					vals[i] = bInt{sx("-", v.t, sx("*", fmt.Sprintf("%d", -step), k))}
				}
			default:
				unsup("%T carried around a loop", v)
			}
		}
		s.pc = append(s.pc, b.invariants(s, n)...)
	}
	for i, p := range phis {
		s.env[p] = vals[i]
	}
	return b.instrs(s, fn, blk, len(phis))
}

func (b *bp) carried(s *bpState, phis []*ssa.Phi, vals []any) *bList {
	var n *bList
	for i, v := range vals {
		switch x := v.(type) {
		case bList:
			b.live(s, x)
			n = &x
		case bNil:
			if _, ok := phis[i].Type().Underlying().(*types.Slice); ok {
				o := b.empty(s)
				n = &o
			}
		}
	}
	return n
}

func (b *bp) live(s *bpState, l bList) {
	if s.dead[l.id] {
		unsup("a list is used after it was extended")
	}
}

func (b *bp) empty(s *bpState) bList {
	o := b.list("none")
	s.pc = append(s.pc, sx("=", o.len, "0"), sx("=", o.black, "((as const "+sCB+") false)"))
	return o
}

func (b *bp) val(s *bpState, v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			switch t := x.Type().Underlying().(type) {
			case *types.Interface:
				if types.Identical(x.Type(), types.Universe.Lookup("error").Type()) {
					return bErr{"false"}
				}
				_ = t
				return bT{"nilT"}
			}
			return bNil{}
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return bBool{fmt.Sprint(constant.BoolVal(x.Value))}
		case constant.Int:
			if n := x.Int64(); n < 0 {
				return bInt{fmt.Sprintf("(- %d)", -n)}
			} else {
				return bInt{fmt.Sprint(n)}
			}
		case constant.Float:
			return bNil{}
		}
		unsup("constant %s", x)
	case *ssa.Function:
		return bFn{fn: x}
	}
	r, ok := s.env[v]
	if !ok {
		unsup("value %s", v)
	}
	return r
}

func (b *bp) load(s *bpState, p any) any {
	switch x := p.(type) {
	case bCell:
		v := s.cells[x.id]
		if a, ok := v.([]any); ok {
			return a[x.i]
		}
		return v
	case bField:
		switch o := x.of.(type) {
		case bCtx:
			switch x.field {
			case lay.gtracked:
				return bBool{sx("tracked", o.t)}
			case lay.gdirty:
				return bBool{sx("select", s.dirty, o.t)}
			case lay.ggrad:
				return bT{sx("select", s.grad, o.t)}
			case lay.gback:
				return bEdges{o.t}
			}
		case bEdge:
			if m := s.edges[o.t]; m != nil {
				return m[x.field]
			}
			switch x.field {
			case lay.etarget:
				return bT{sx("target", o.t)}
			case lay.efn:
				return bFn{edge: o.t}
			}
		}
	case bElem:
		switch o := x.of.(type) {
		case bList:
			b.live(s, o)
			b.prove(s, "list index in range", sAnd(sx("<=", "0", x.i), sx("<", x.i, o.len)))
			return bCtx{sx("select", o.arr, x.i)}
		case bEdges:
			b.prove(s, "edge index in range", sAnd(sx("<=", "0", x.i), sx("<", x.i, sx("elen", o.c))))
			return bEdge{sx("eat", o.c, x.i)}
		}
	}
	unsup("load from %T", p)
	return nil
}

func (b *bp) store(s *bpState, p, v any) {
	switch x := p.(type) {
	case bCell:
		if a, ok := s.cells[x.id].([]any); ok {
			n := append([]any(nil), a...)
			n[x.i] = v
			s.cells[x.id] = n
			return
		}
		s.cells[x.id] = v
		return
	case bField:
		switch o := x.of.(type) {
		case bCtx:
			switch x.field {
			case lay.gdirty:
				if v, ok := v.(bBool); ok {
					s.dirty = sx("store", s.dirty, o.t, v.t)
					return
				}
			case lay.ggrad:
				if v, ok := v.(bT); ok {
					s.grad = sx("store", s.grad, o.t, v.t)
					return
				}
			}
		case bEdge:
			if m := s.edges[o.t]; m != nil {
				m[x.field] = v
				return
			}
		}
	}
	unsup("store to %T", p)
}

func (b *bp) instrs(s *bpState, fn *ssa.Function, blk *ssa.BasicBlock, at int) []bpOut {
	for i := at; i < len(blk.Instrs); i++ {
		switch in := blk.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			s.env[in] = bField{b.val(s, in.X), in.Field}
		case *ssa.IndexAddr:
			x := b.val(s, in.X)
			n, ok := b.val(s, in.Index).(bInt)
			if !ok {
				unsup("index")
			}
			if c, isC := x.(bCell); isC {
				k := 0
				fmt.Sscan(n.t, &k)
				s.env[in] = bCell{c.id, k}
				break
			}
			s.env[in] = bElem{x, n.t}
		case *ssa.UnOp:
			switch in.Op {
			case token.MUL:
				s.env[in] = b.load(s, b.val(s, in.X))
			case token.NOT:
				s.env[in] = bBool{sx("not", b.val(s, in.X).(bBool).t)}
			case token.SUB:
				s.env[in] = bInt{sx("-", b.val(s, in.X).(bInt).t)}
			default:
				unsup("%s", in)
			}
		case *ssa.Store:
			b.store(s, b.val(s, in.Addr), b.val(s, in.Val))
		case *ssa.BinOp:
			s.env[in] = b.binop(s, in.Op, b.val(s, in.X), b.val(s, in.Y))
		case *ssa.ChangeType:
			s.env[in] = b.val(s, in.X)
		case *ssa.MakeInterface:
			s.env[in] = b.val(s, in.X)
		case *ssa.Alloc:
			b.n++
			t := in.Type().Underlying().(*types.Pointer).Elem()
			if types.Identical(t, lay.edgeT) {
				e := b.fresh("edge", "Edge")
				s.pc = append(s.pc, sx("not", sx("isEdge", e)))
				s.edges[e] = map[int]any{}
				s.env[in] = bEdge{e}
				break
			}
			if a, ok := t.Underlying().(*types.Array); ok {
				s.cells[b.n] = make([]any, a.Len())
			} else if _, ok := t.Underlying().(*types.Struct); ok {
				unsup("allocation of %s", t)
			} else {
				s.cells[b.n] = nil
			}
			s.env[in] = bCell{b.n, 0}
		case *ssa.MakeMap:
			b.n++
			s.vis[b.n] = "((as const " + sCB + ") false)"
			s.env[in] = bMap{b.n}
		case *ssa.MakeSlice:
			n, ok := b.val(s, in.Len).(bInt)
			if !ok || n.t != "0" {
				unsup("make")
			}
			s.env[in] = b.empty(s)
		case *ssa.MapUpdate:
			m, ok := b.val(s, in.Map).(bMap)
			c, ok2 := b.val(s, in.Key).(bCtx)
			v, ok3 := b.val(s, in.Value).(bBool)
			if !ok || !ok2 || !ok3 {
				unsup("map update")
			}
			s.vis[m.id] = sx("store", s.vis[m.id], c.t, v.t)
		case *ssa.Lookup:
			m, ok := b.val(s, in.X).(bMap)
			c, ok2 := b.val(s, in.Index).(bCtx)
			if !ok || !ok2 || in.CommaOk {
				unsup("map lookup")
			}
			s.env[in] = bBool{sx("select", s.vis[m.id], c.t)}
		case *ssa.Slice:
			x := b.val(s, in.X)
			if c, ok := x.(bCell); ok && in.Low == nil && in.High == nil {
				a, ok := s.cells[c.id].([]any)
				if ok {
					s.env[in] = bVar{a}
					break
				}
			}
			unsup("slice expression")
		case *ssa.Extract:
			s.env[in] = b.val(s, in.Tuple).(bTuple).v[in.Index]
		case *ssa.TypeAssert:
			a, ok := b.val(s, in.X).(bAny)
			if !ok || in.CommaOk || !types.Identical(in.AssertedType, ptrT(lay.gctxT)) {
				unsup("type assertion")
			}
			s.env[in] = bCtx{sx("ctxOf", a.t)}
		case *ssa.MakeClosure:
			f := bFn{fn: in.Fn.(*ssa.Function)}
			for _, x := range in.Bindings {
				f.free = append(f.free, b.val(s, x))
			}
			s.env[in] = f
		case *ssa.Call:
			outs := b.callInstr(s, in)
			var all []bpOut
			for _, o := range outs {
				t := o.st
				if len(o.val) == 1 {
					t.env[in] = o.val[0]
				} else {
					t.env[in] = bTuple{o.val}
				}
				if len(outs) == 1 {
					s = t
					break
				}
				all = append(all, b.instrs(t.clone(), fn, blk, i+1)...)
			}
			if len(outs) != 1 {
				return all
			}
		case *ssa.Jump:
			return b.block(s, fn, blk.Succs[0], blk)
		case *ssa.If:
			c, ok := b.val(s, in.Cond).(bBool)
			if !ok {
				unsup("condition")
			}
			if c.t == "true" {
				return b.block(s, fn, blk.Succs[0], blk)
			}
			if c.t == "false" {
				return b.block(s, fn, blk.Succs[1], blk)
			}
			t := s.clone()
			s.pc = append(s.pc, c.t)
			t.pc = append(t.pc, sx("not", c.t))
			return append(b.block(s, fn, blk.Succs[0], blk), b.block(t, fn, blk.Succs[1], blk)...)
		case *ssa.Return:
			o := bpOut{st: s}
			for _, r := range in.Results {
				o.val = append(o.val, b.val(s, r))
			}
			return []bpOut{o}
		default:
			unsup("%T", in)
		}
	}
	return nil
}

func (b *bp) binop(s *bpState, op token.Token, x, y any) any {
	neg := func(t string) any {
		if op == token.NEQ {
			if t == "true" {
				return bBool{"false"}
			}
			if t == "false" {
				return bBool{"true"}
			}
			return bBool{sx("not", t)}
		}
		return bBool{t}
	}
	switch a := x.(type) {
	case bInt:
		c, ok := y.(bInt)
		if !ok {
			unsup("arithmetic")
		}
		switch op {
		case token.ADD, token.SUB, token.MUL:
			return bInt{sx(op.String(), a.t, c.t)}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return bBool{sx(op.String(), a.t, c.t)}
		case token.EQL, token.NEQ:
			return neg(sx("=", a.t, c.t))
		}
	case bErr:
		if c, ok := y.(bErr); ok && c.t == "false" && (op == token.EQL || op == token.NEQ) {
			if op == token.NEQ {
				return bBool{a.t}
			}
			return bBool{sx("not", a.t)}
		}
	case bT:
		if c, ok := y.(bT); ok && (op == token.EQL || op == token.NEQ) {
			return neg(sx("=", a.t, c.t))
		}
	case bCtx:
		if c, ok := y.(bCtx); ok && (op == token.EQL || op == token.NEQ) {
			return neg(sx("=", a.t, c.t))
		}
		if _, ok := y.(bNil); ok && (op == token.EQL || op == token.NEQ) {
			return neg("false") // contexts are not nil
		}
	case bBool:
		if c, ok := y.(bBool); ok && (op == token.EQL || op == token.NEQ) {
			return neg(sx("=", a.t, c.t))
		}
	}
	unsup("%T %s %T", x, op, y)
	return nil
}

func (b *bp) callInstr(s *bpState, in *ssa.Call) []bpOut {
	c := in.Common()
	ret := func(v ...any) []bpOut { return []bpOut{{s, v}} }
	if c.IsInvoke() {
		t, ok := b.val(s, c.Value).(bT)
		if !ok {
			unsup("call of %s", c.Method.Name())
		}
		sig := c.Method.Type().(*types.Signature)
		if c.Method.Name() == "GradContext" {
			return ret(bAny{t.t})
		}
		// an operation on tensors: contexts are left alone (frame of its contract)
		var out []any
		r := b.fresh("op", "T")
		if c.Method.Name() == "Add" {
			if u, ok := b.val(s, c.Args[0]).(bT); ok {
				b.prove(s, "gradients are added to an existing gradient", sAnd(sx("not", sx("=", t.t, "nilT")), sx("not", sx("=", u.t, "nilT"))))
				r = sx("plus", t.t, u.t)
			}
		} else {
			s.pc = append(s.pc, sx("not", sx("=", r, "nilT")))
		}
		for i := 0; i < sig.Results().Len(); i++ {
			switch {
			case types.Identical(sig.Results().At(i).Type(), types.Universe.Lookup("error").Type()):
				e := b.fresh("err", "Bool")
				s.failed = sx("or", s.failed, e)
				out = append(out, bErr{e})
			case i == 0:
				out = append(out, bT{r})
			default:
				unsup("call of %s", c.Method.Name())
			}
		}
		return ret(out...)
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			switch x := b.val(s, c.Args[0]).(type) {
			case bList:
				b.live(s, x)
				return ret(bInt{x.len})
			case bEdges:
				return ret(bInt{sx("elen", x.c)})
			}
		case "append":
			var o bList
			switch x := b.val(s, c.Args[0]).(type) {
			case bList:
				o = x
			case bNil:
				o = b.empty(s)
			default:
				unsup("append")
			}
			b.live(s, o)
			v, ok := b.val(s, c.Args[1]).(bVar)
			if !ok {
				unsup("append")
			}
			for _, e := range v.v {
				x, ok := e.(bCtx)
				if !ok {
					unsup("append")
				}
				b.n++
				s.dead[o.id] = true
				n := b.list("order")
				s.pc = append(s.pc, sx("=", n.arr, sx("store", o.arr, o.len, x.t)), sx("=", n.len, sx("+", o.len, "1")),
					sx("=", n.black, sx("store", o.black, x.t, "true")), sx("=", n.pos, sx("store", o.pos, x.t, o.len)))
				o = n
			}
			return ret(o)
		}
		unsup("builtin %s", bi.Name())
	}
	var args []any
	for _, a := range c.Args {
		args = append(args, b.val(s, a))
	}
	f, ok := b.val(s, c.Value).(bFn)
	if !ok {
		unsup("dynamic call")
	}
	// the rule of an edge, or the start of the propagation
	if ld, ok := c.Value.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if fa, ok := b.val(s, ld.X).(bField); ok {
			if e, ok := fa.of.(bEdge); ok && fa.field == lay.efn {
				return b.rule(s, e.t, f)
			}
		}
	}
	if f.fn == nil {
		unsup("rule called indirectly")
	}
	if f.fn == b.walk {
		return b.contract(s, args)
	}
	if f.fn.Pkg == nil || f.fn.Pkg.Pkg.Path() != modPath+"/tensor/internal/gradtrack" {
		unsup("call of %s", f.fn)
	}
	return b.call(s, f.fn, args, f.free)
}

// rule: the value an edge delivers.
func (b *bp) rule(s *bpState, e string, f bFn) []bpOut {
	if !b.main {
		unsup("rule applied in the walk")
	}
	var outs []bpOut
	if f.fn != nil {
		// made here: the start of the propagation
		outs = b.call(s, f.fn, nil, f.free)
	} else {
		o := s.order
		if o == nil {
			unsup("rule applied before the walk")
		}
		b.prove(s, "rule is applied once", sx("not", sx("select", s.done, e)))
		b.prove(s, "rule belongs to a reachable context", sAnd(sx("isEdge", e), sx("select", o.black, sx("owner", e))))
		b.prove(s, "rule is applied to a complete gradient",
			fmt.Sprintf("(forall ((f Edge)) (! (=> (and (relevant f) (select %s (owner f)) (= (ctxOf (target f)) (owner %s))) (select %s f)) :pattern ((select %s f)) :pattern ((owner f))))", o.black, e, s.done, s.done),
			sx("=>", sx("=", sx("owner", e), b.root), s.start))
		v := b.fresh("delta", "T")
		er := b.fresh("err", "Bool")
		s.pc = append(s.pc, sx("=>", sx("not", er), sx("not", sx("=", v, "nilT"))))
		s.failed = sx("or", s.failed, er)
		outs = []bpOut{{s, []any{bT{v}, bErr{er}}}}
	}
	for _, o := range outs {
		v, ok := o.val[0].(bT)
		er, ok2 := o.val[1].(bErr)
		if !ok || !ok2 {
			unsup("result of a rule")
		}
		t := o.st
		var to string
		if m := t.edges[e]; m != nil {
			x, ok := m[lay.etarget].(bT)
			if !ok {
				unsup("target of an edge")
			}
			to = sx("ctxOf", x.t)
			b.prove(t, "propagation starts at the root, once", sAnd(sx("=", to, b.root), sx("not", t.start)))
			t.start = sx("or", t.start, sAnd(sx("not", er.t), sx("tracked", to)))
		} else {
			to = sx("ctxOf", sx("target", e))
			t.done = sx("ite", sAnd(sx("not", er.t), sx("tracked", to)), sx("store", t.done, e, "true"), t.done)
		}
		now := sx("select", t.exp, to)
		t.exp = sx("ite", sAnd(sx("not", er.t), sx("tracked", to)), sx("store", t.exp, to, sx("ite", sx("=", now, "nilT"), v.t, sx("plus", now, v.t))), t.exp)
	}
	return outs
}

// contract: a call of the walk.
func (b *bp) contract(s *bpState, args []any) []bpOut {
	g, ok := args[b.wg].(bCtx)
	m, ok2 := args[b.wm].(bMap)
	if !ok || !ok2 {
		unsup("arguments of the walk")
	}
	var o bList
	switch x := args[b.wo].(type) {
	case bList:
		o = x
	case bNil:
		o = b.empty(s)
	default:
		unsup("arguments of the walk")
	}
	b.live(s, o)
	vis := s.vis[m.id]
	b.prove(s, "precondition of the walk", append(inv(o, vis), above(o, vis, g.t))...)
	if !b.main {
		b.prove(s, "the walk descends", sx("<", sx("h", g.t), sx("h", b.g)))
	}
	s.dead[o.id] = true
	n := b.list("order")
	nv, nd := b.fresh("visited", sCB), b.fresh("dirty", sCB)
	s.pc = append(s.pc, b.ensures(o, vis, s.dirty, n, nv, nd, g.t)...)
	s.vis[m.id], s.dirty = nv, nd
	if b.main {
		if s.order != nil {
			unsup("two walks")
		}
		s.order, s.dirty1 = &n, nd
		if b.root != g.t {
			b.prove(s, "the walk starts at the root", sx("=", b.root, g.t))
		}
	}
	return []bpOut{{s, []any{n}}}
}

func (b *bp) ensures(o bList, vis, dirty string, n bList, nv, nd, g string) []string {
	out := append(inv(n, nv), extends(o, n)...)
	return append(out,
		sx("=>", sx("tracked", g), sx("select", n.black, g)),
		greys(o, vis, n, nv, ""),
		spent(o, dirty, n, nd, ""),
		reached(o, n, g))
}

func (b *bp) newState() *bpState {
	s := &bpState{env: map[ssa.Value]any{}, vis: map[int]string{}, cells: map[int]any{}, dead: map[int]bool{}, edges: map[string]map[int]any{}}
	s.dirty, s.grad = b.fresh("dirty", sCB), b.fresh("grad", sCT)
	s.exp = s.grad
	s.done, s.start, s.failed = "((as const "+sEB+") false)", "false", "false"
	return s
}

// findWalk: the function BackPropagate calls that calls itself, by its parameters.
func (b *bp) findWalk(fn *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] || f.Pkg != fn.Pkg {
			return
		}
		seen[f] = true
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if g == f {
							if b.walk != nil && b.walk != f {
								unsup("two recursive functions")
							}
							b.walk = f
						}
						rec(g)
					}
				}
			}
		}
	}
	rec(fn)
	if b.walk == nil {
		unsup("no recursive walk")
	}
	b.wg, b.wo, b.wm = -1, -1, -1
	ctx := ptrT(lay.gctxT)
	for i, p := range b.walk.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Slice:
			if types.Identical(t.Elem(), ctx) {
				b.wo = i
			}
		case *types.Map:
			if types.Identical(t.Key(), ctx) && isBool(t.Elem()) {
				b.wm = i
			}
		default:
			if types.Identical(p.Type(), ctx) {
				b.wg = i
			}
		}
	}
	r := b.walk.Signature.Results()
	if b.wg < 0 || b.wo < 0 || b.wm < 0 || len(b.walk.Params) != 3 || r.Len() != 1 || !types.Identical(r.At(0).Type().Underlying(), types.NewSlice(ctx)) {
		unsup("signature of the walk")
	}
}

// bpVerify generates the obligations of both functions.
func bpVerify(ex *Exec) (b *bp, why string) {
	b = &bp{ex: ex, seen: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(unsupported); ok {
				why = x.msg
			} else {
				why = fmt.Sprint(r)
			}
		}
	}()
	fn := ex.fn("tensor/internal/gradtrack", "BackPropagate")
	if fn == nil {
		unsup("function is gone")
	}
	b.findWalk(fn)
	// the walk
	s := b.newState()
	b.g = b.fresh("g", "Ctx")
	b.o = b.list("order")
	b.n++
	b.m = b.n
	s.vis[b.m] = b.fresh("visited", sCB)
	s.pc = append(s.pc, inv(b.o, s.vis[b.m])...)
	s.pc = append(s.pc, above(b.o, s.vis[b.m], b.g))
	b.in = s.clone()
	args := make([]any, 3)
	args[b.wg], args[b.wo], args[b.wm] = bCtx{b.g}, b.o, bMap{b.m}
	outs := b.call(s, b.walk, args, nil)
	if len(outs) == 0 {
		unsup("the walk never returns")
	}
	for _, o := range outs {
		var n bList
		switch x := o.val[0].(type) {
		case bList:
			n = x
		default:
			unsup("result of the walk")
		}
		b.live(o.st, n)
		b.prove(o.st, "contract of the walk", b.ensures(b.o, b.in.vis[b.m], b.in.dirty, n, o.st.vis[b.m], o.st.dirty, b.g)...)
		b.prove(o.st, "the walk leaves gradients alone", sx("=", o.st.grad, b.in.grad))
	}
	// back-propagation
	b.main = true
	s = b.newState()
	t := b.fresh("root", "T")
	b.root = sx("ctxOf", t)
	b.in = s.clone()
	outs = b.call(s, fn, []any{bT{t}}, nil)
	if len(outs) == 0 {
		unsup("back-propagation never returns")
	}
	for _, o := range outs {
		er, ok := o.val[0].(bErr)
		if !ok {
			unsup("result of back-propagation")
		}
		st := o.st
		b.prove(st, "an error is returned only when a rule or an addition fails", sx("=>", er.t, st.failed))
		if er.t == "true" {
			continue
		}
		st.pc = append(st.pc, sx("not", er.t))
		if st.order == nil {
			b.prove(st, "an untracked root changes nothing", sx("not", sx("tracked", b.root)), sx("=", st.grad, b.in.grad), sx("=", st.dirty, b.in.dirty))
			continue
		}
		n := *st.order
		b.prove(st, "no failure is swallowed", sx("not", st.failed))
		b.prove(st, "every rule of a reachable context is applied", fmt.Sprintf("(forall ((e Edge)) (! (= (and (relevant e) (select %s (owner e))) (select %s e)) :pattern ((owner e)) :pattern ((select %s e))))", n.black, st.done, st.done))
		b.prove(st, "reachable contexts are found", sx("=>", sx("tracked", b.root), sx("select", n.black, b.root)),
			fmt.Sprintf("(forall ((c Ctx) (i Int)) (! (=> (and (select %s c) (<= 0 i) (< i (elen c)) (tracked (tgt c i))) (select %s (tgt c i))) :pattern ((select %s c) (eat c i))))", n.black, n.black, n.black),
			fmt.Sprintf("(forall ((c Ctx)) (! (=> (select %s c) (and (tracked c) (reach %s c))) :pattern ((select %s c))))", n.black, b.root, n.black))
		b.prove(st, "gradients are the sums of what was delivered", sx("=", st.grad, st.exp))
		b.prove(st, "the root receives its gradient exactly when tracked", sx("=", st.start, sx("tracked", b.root)))
		b.prove(st, "exactly the tracked reachable contexts are spent", fmt.Sprintf("(forall ((c Ctx)) (! (= (select %s c) (or (select %s c) (select %s c))) :pattern ((select %s c))))", st.dirty, b.in.dirty, n.black, st.dirty))
	}
	return b, ""
}

// bpSolve discharges one obligation.
func (b *bp) solve(g bpGoal, limit time.Duration) (bool, string) {
	var sb bytes.Buffer
	sb.WriteString(bpTheory)
	for _, d := range b.decl {
		sb.WriteString(d + "\n")
	}
	for _, h := range g.hyp {
		sb.WriteString("(assert " + h + ")\n")
	}
	sb.WriteString("(assert (not " + g.goal + "))\n(check-sat)\n")
	last := ""
	for _, c := range [][]string{{"z3", "-in"}, {"z3-new", "-in"}, {"cvc5", "--lang=smt2", "--full-saturate-quant"}} {
		in := sb.String()
		if c[0] == "cvc5" {
			in = "(set-logic ALL)\n" + strings.Replace(in, "(set-option :smt.mbqi true)", "", 1)
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		cmd := exec.CommandContext(ctx, c[0], c[1:]...)
		cmd.SysProcAttr = dieWithParent()
		cmd.Stdin = strings.NewReader(in)
		out, _ := cmd.Output()
		cancel()
		r := strings.TrimSpace(string(out))
		if r == "unsat" {
			return true, c[0]
		}
		last = c[0] + ": " + r
		if r == "sat" {
			break
		}
	}
	if os.Getenv("GOVERIF_BP") != "" {
		os.WriteFile(fmt.Sprintf("/tmp/h/bp-%d.smt2", len(g.goal)), sb.Bytes(), 0o644)
	}
	return false, last
}

// bpUnit: what cannot be brought into the form above, or is not proved there, is
// left to the bounded enumeration of graphs and reported as such.
func bpUnit(ex *Exec) *unit {
	return &unit{name: "back-propagation over every graph", props: []string{"C01", "C08", "C10"}, extra: true, run: func(u *ur) {
		b, why := bpVerify(ex)
		if why != "" {
			u.soft("back-propagation over every graph: " + why)
			return
		}
		type answer struct {
			ok bool
			by string
		}
		res := make([]answer, len(b.goals))
		var wg sync.WaitGroup
		next, stop := int32(-1), int32(0)
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(atomic.AddInt32(&next, 1))
					if i >= len(b.goals) || atomic.LoadInt32(&stop) >= 1 {
						return
					}
					res[i].ok, res[i].by = b.solve(b.goals[i], 6*time.Second)
					if !res[i].ok {
						atomic.AddInt32(&stop, 1)
					}
				}
			}()
		}
		wg.Wait()
		for i, g := range b.goals {
			if !res[i].ok {
				if res[i].by != "" {
					u.soft(g.name + ": " + res[i].by)
				}
			}
		}
		if stop > 0 {
			return
		}
		for i, g := range b.goals {
			smtStats.queries++
			props := "C01 C10"
			if strings.Contains(g.name, "spent") || strings.Contains(g.name, "untracked root") || strings.Contains(g.name, "contract") || strings.Contains(g.name, "spendGraph") {
				props = "C01 C08 C10"
			}
			u.ob(props, "every graph: "+g.name, true, res[i].by)
		}
		for f := range b.seen {
			u.ex.called[f] = true
		}
	}}
}

func bpDev() {
	ex, err := load()
	if err != nil {
		fmt.Println(err)
		return
	}
	allUnits(ex)
	b, why := bpVerify(ex)
	fmt.Println(len(b.goals), "goals", why)
	for _, g := range b.goals {
		t := time.Now()
		ok, by := b.solve(g, 20*time.Second)
		fmt.Printf("%v %4d ms %s %s\n", ok, time.Since(t).Milliseconds(), g.name, by)
	}
}
