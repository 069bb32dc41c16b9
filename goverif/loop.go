package main

// The loop rule: one generic iteration k stands for all of them. Loop-carried
// scalars get closed forms, array writes are generalised over k, objects created
// in the body become families indexed by k. No bound on the number of iterations.

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

type leaf struct {
	a       *Term // its value at the start of iteration k
	init    *Term
	closed  *Term // a as a function of k (nil: unknown)
	atN     *Term // value after K iterations, as a function of k (defaults to closed)
	changed bool
}

type carried struct {
	phi   *ssa.Phi
	ref   *Ref // cell
	idx   *Term
	draws bool
	init  Val
	ls    []*leaf
	havoc bool
	grown bool // a slice that gains the same number of elements every iteration
}

// accArr is an array every iteration updates in the same places; in the body its
// elements are those of an unknown array name.
type accArr struct {
	fam  *Family
	name string
	init Val // element j before the loop
	cur  Val // element j at the start of an iteration
	at   func(K *Term) Val
}

// accArray tracks f as an array updated in place by every iteration.
func accArray(st *State, f *Family) *accArr {
	args := make([]*Term, len(f.params))
	copy(args, f.params)
	var v Val
	if c := catchFork(func() { v = st.readCell(&Ref{f, args}, f.j) }); c != nil {
		return nil
	}
	_, ls := skeleton(v)
	if len(ls) == 0 {
		return nil
	}
	freshN++
	a := &accArr{fam: f, name: fmt.Sprintf("ACC!%d", freshN), init: v}
	l := make([]*Term, len(ls))
	for i := range l {
		if ls[i].sort == SBool {
			return nil
		}
		l[i] = mkApp(fmt.Sprintf("%s.%d", a.name, i), ls[i].sort, append(append([]*Term{}, args...), f.j)...)
	}
	a.cur = refill(v, l)
	return a
}

// containsApp: does t apply a function whose name starts with prefix?
func containsApp(t *Term, prefix string) bool {
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.kind == KApp && strings.HasPrefix(t.name, prefix) {
			return true
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := false
		for _, a := range t.args {
			r = r || rec(a)
		}
		for _, m := range t.mons {
			for _, f := range m.fs {
				r = r || rec(f.t)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// onlyAppended: inside the loop the slice p is only measured and appended to, and
// each result of that is only appended to again or carried to the next iteration,
// so no part of it made in an earlier iteration is looked at under another name.
func onlyAppended(p *ssa.Phi, l *loopInfo) bool {
	ok := func(x ssa.Value, in ssa.Instruction) bool {
		switch u := in.(type) {
		case *ssa.DebugRef:
			return true
		case *ssa.Phi:
			return u == p
		case *ssa.Call:
			b, is := u.Call.Value.(*ssa.Builtin)
			if !is || u.Call.Args[0] != x {
				return false
			}
			for _, y := range u.Call.Args[1:] {
				if y == x {
					return false
				}
			}
			return b.Name() == "len" || b.Name() == "append"
		}
		return false
	}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			if !l.blocks[in.Block()] {
				if v == ssa.Value(p) {
					continue
				}
				return false
			}
			if !ok(v, in) {
				return false
			}
			if c, is := in.(*ssa.Call); is && c.Call.Value.(*ssa.Builtin).Name() == "append" {
				if !rec(c) {
					return false
				}
			}
		}
		return true
	}
	return rec(p)
}

func (c *carried) name() string {
	switch {
	case c.phi != nil:
		return c.phi.Comment
	case c.draws:
		return "draws"
	}
	return c.ref.fam.name
}

func (c *carried) cur(f func(*leaf) *Term) Val {
	if c.havoc {
		return VHavoc{c.name()}
	}
	l := make([]*Term, len(c.ls))
	for i := range l {
		l[i] = f(c.ls[i])
	}
	return refill(c.init, l)
}

func newCarried(v Val) *carried {
	c := &carried{init: v}
	_, ls := skeleton(v)
	for _, t := range ls {
		c.ls = append(c.ls, &leaf{a: Fresh("A", t.sort), init: t})
	}
	return c
}

// setCell overwrites a cell without recording a write.
func (st *State) setCell(r *Ref, idx *Term, v Val) {
	w := st.writes
	st.writeCell(r, idx, v, "", "")
	st.writes = w
}

func (ex *Exec) loopRule(a *act, it *item, l *loopInfo) (next []*item, outs []Outcome) {
	where := ex.posOf(blockPos(l.head))
	head := l.head
	phis := phisOf(head)
	entry := it.clone()
	k := Fresh("k", SInt)
	kn := freshN
	var cs []*carried
	for _, p := range phis {
		v := entry.regs[a.info.num[p]]
		c := newCarried(v)
		if _, ok := v.(VHavoc); ok {
			c.havoc = true
		}
		c.phi = p
		cs = append(cs, c)
	}
	dc := newCarried(VT{entry.st.draws})
	dc.draws = true
	cs = append(cs, dc)

	cur := func(lf *leaf) *Term {
		if lf.closed != nil {
			return lf.closed
		}
		return lf.a
	}
	var accs []*accArr
	setup := func(n *Term) *item {
		x := entry.clone()
		for _, c := range accs {
			o := x.st.get(c.fam)
			x.st.set(c.fam, &Content{n: o.n, sym: &Layer{val: c.cur}, model: o.model})
		}
		for _, c := range cs {
			v := c.cur(cur)
			switch {
			case c.phi != nil:
				x.regs[a.info.num[c.phi]] = v
			case c.draws:
				x.st.draws = term(v)
			default:
				x.st.setCell(c.ref, c.idx, v)
			}
		}
		x.st.pc = x.st.pc.And(Ge(k, I(0)))
		if n != nil {
			x.st.pc = x.st.pc.And(Lt(k, n))
		}
		return x
	}
	condAt := func(x *item) *Term {
		sc := x.clone()
		iff := head.Instrs[len(head.Instrs)-1].(*ssa.If)
		for sc.ip < len(head.Instrs)-1 {
			n, _, _, o := ex.step(a, sc, head.Instrs[sc.ip], nil)
			if len(n) != 1 || len(o) > 0 {
				unsup("loop header at %s", where)
			}
			sc = n[0]
		}
		c := term(ex.val(a, sc, iff.Cond))
		if !l.blocks[head.Succs[0]] {
			c = Not(c)
		}
		return c
	}
	nextVal := func(c *carried, b *item) Val {
		switch {
		case c.phi != nil:
			for i, p := range head.Preds {
				if p == b.prev {
					switch e := c.phi.Edges[i].(type) {
					case *ssa.Const, *ssa.Function, *ssa.Global:
						return ex.val(a, b, e)
					default:
						return b.regs[a.info.num[e]]
					}
				}
			}
			unsup("back edge")
		case c.draws:
			return VT{b.st.draws}
		}
		return b.st.readCell(c.ref, c.idx)
	}

	savedLog := ex.readLog
	defer func() { ex.readLog = savedLog }()

	// the symbols that differ between iterations
	varying := func(t *Term) bool {
		if containsVar(t, k) {
			return true
		}
		for _, c := range cs {
			for _, lf := range c.ls {
				if lf.closed == nil && containsVar(t, lf.a) {
					return true
				}
			}
		}
		return false
	}

	var n *Term
	var backs, exits []*item
	var bouts []Outcome
	var base *item
	stable := false
	for round := 0; round < 12; round++ {
		// bound from the header condition
		n = nil
		func() {
			x := setup(nil)
			c := condAt(x)
			n = solveBound(x.st.pc, c, k)
		}()
		if n != nil {
			for _, c := range cs {
				for _, lf := range c.ls {
					if containsVar(n, lf.a) && lf.closed == nil {
						n = nil
						break
					}
				}
				if n == nil {
					break
				}
			}
		}
		if n != nil && containsVar(n, k) {
			n = nil
		}
		base = setup(n)
		ex.readLog = map[readKey]*Ref{}
		run := base.clone()
		backs, exits, bouts = ex.run(a, run, l)
		for _, b := range backs {
			if b.deferred != entry.deferred {
				unsup("defer in the loop at %s", where)
			}
		}
		// newly written cells
		fresh := false
		for _, b := range backs {
			for w := b.st.writes; w != entry.st.writes; w = w.prev {
				if w == nil {
					unsup("write log")
				}
				if entry.st.get(w.fam) == nil {
					continue
				}
				cell := w.idx.kind != KVar || w.idx.name != "*"
				if !cell {
					continue
				}
				loc := varying(w.idx)
				for _, t := range w.args {
					loc = loc || varying(t)
				}
				if loc {
					if entry.st.get(w.fam).conc() && len(w.fam.params) == 0 {
						unsup("array of fixed size indexed by the counter of the loop at %s", where)
					}
					continue
				}
				dup := false
				for _, c := range cs {
					if c.ref != nil && c.ref.fam == w.fam && termsKey(c.ref.args) == termsKey(w.args) && c.idx == w.idx {
						dup = true
					}
				}
				if dup {
					continue
				}
				r := &Ref{w.fam, w.args}
				v := entry.st.readCell(r, w.idx)
				c := newCarried(v)
				c.ref, c.idx = r, w.idx
				cs = append(cs, c)
				fresh = true
			}
		}
		if fresh {
			continue
		}
		prog := false
		var grows []*carried
		for _, c := range cs {
			if c.havoc {
				continue
			}
			sk, _ := skeleton(c.init)
			var nl [][]*Term
			differs := false
			for _, b := range backs {
				s, ls := skeleton(nextVal(c, b))
				if s != sk || len(ls) != len(c.ls) {
					differs = true
					break
				}
				nl = append(nl, ls)
			}
			if differs {
				if !c.grown && c.phi != nil && onlyAppended(c.phi, l) {
					grows = append(grows, c)
				} else {
					c.havoc = true
					prog = true
				}
				continue
			}
			for i, lf := range c.ls {
				if lf.closed != nil {
					continue
				}
				same := true
				var d *Term
				aff := lf.a.sort != SBool
				for _, ls := range nl {
					if ls[i] != lf.a && ls[i] != lf.init {
						same = false
					}
					if aff {
						e := Sub(ls[i], lf.a)
						if !e.isNum() || d != nil && d != e {
							aff = false
						}
						d = e
					}
				}
				switch {
				case same:
					lf.closed = lf.init
					prog = true
				case aff && d != nil:
					if lf.a.sort == SInt {
						lf.closed = Add(lf.init, Mul(d, k))
					} else {
						lf.closed = Add(lf.init, Mul(d, ToReal(k)))
					}
					lf.changed = true
					prog = true
				}
			}
		}
		if !prog {
			for _, c := range grows {
				prog = true
				var d *Term
				if n != nil {
					for _, b := range backs {
						var e *Term
						if v, ok := nextVal(c, b).(VSlice); ok {
							e = v.len
							if w, ok := c.cur(cur).(VSlice); ok {
								e = Sub(e, w.len)
							}
						}
						if e == nil || !e.isNum() || d != nil && d != e {
							d = nil
							break
						}
						d = e
					}
				}
				if d == nil || !ex.growSlice(entry, c, n, d, k) {
					c.havoc = true
					continue
				}
				if !entry.st.must(Ge(n, I(1))) {
					return []*item{entry}, nil
				}
			}
		}
		if prog {
			continue
		}
		// arrays every iteration updates in the same places
		for _, b := range backs {
			var fs []*Family
			for f := range b.st.heap.m {
				fs = append(fs, f)
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
			for _, f := range fs {
				if entry.st.get(f) == nil || entry.st.get(f).conc() {
					continue
				}
				known := false
				for _, c := range accs {
					known = known || c.fam == f
				}
				for _, c := range cs {
					known = known || c.ref != nil && c.ref.fam == f
				}
				if known {
					continue
				}
				old := base.st.get(f).sym
				for x := b.st.get(f).sym; x != old && x != nil; x = x.next {
					if x.guard == nil || varying(x.guard) {
						continue
					}
					if c := accArray(entry.st, f); c != nil {
						accs = append(accs, c)
						prog = true
					}
					break
				}
			}
		}
		if prog {
			// what was concluded from the contents of these arrays is void
			for _, c := range cs {
				if !c.grown {
					for _, lf := range c.ls {
						lf.closed, lf.changed = nil, false
					}
				}
			}
			continue
		}
		// the closed forms hold at the start of the first iteration; each
		// iteration keeps them
		for _, c := range cs {
			if c.havoc {
				continue
			}
			for _, b := range backs {
				_, ls := skeleton(nextVal(c, b))
				for i, lf := range c.ls {
					if lf.closed != nil && ls[i] != subst1(lf.closed, k, Add(k, I(1))) {
						unsup("loop at %s: %s does not keep its form", where, c.name())
					}
				}
			}
		}
		if n == nil {
			unsup("number of iterations of the loop at %s", where)
		}
		stable = true
		break
	}
	if !stable {
		unsup("loop at %s: no fixed set of carried variables", where)
	}
	if !entry.st.must(Ge(n, I(0))) {
		// no iteration at all: the header exits at once
		return []*item{entry}, nil
	}
	reads := ex.readLog
	ex.readLog = nil

	// exits taken by the header itself are the normal exit
	var early []*item
	for _, e := range exits {
		if e.prev != head {
			early = append(early, e)
		} else if pcDelta(e.st.pc, base.st.pc) == nil {
			unsup("loop header exit")
		}
	}

	/* closed forms of the remaining carried values */
	guards := make([]*Term, len(backs))
	for i, b := range backs {
		guards[i] = pcDelta(b.st.pc, base.st.pc)
		if guards[i] == nil {
			unsup("path condition of loop body at %s", where)
		}
		guards[i] = existsInner(guards[i], kn)
	}
	sig := Subst{} // a -> closed(k), inside the body
	for _, c := range cs {
		for _, lf := range c.ls {
			if lf.closed != nil {
				sig[lf.a] = lf.closed
				lf.atN = lf.closed
			}
		}
	}
	open := func(t *Term) bool {
		for _, c := range accs {
			if containsApp(t, c.name+".") {
				return true
			}
		}
		for _, c := range cs {
			for _, lf := range c.ls {
				if lf.closed == nil && containsVar(t, lf.a) {
					return true
				}
			}
		}
		return false
	}
	for again := true; again; {
		again = false
		for _, c := range cs {
			if c.havoc {
				continue
			}
			for i, lf := range c.ls {
				if lf.atN != nil || len(backs) == 0 {
					continue
				}
				var nx *Term
				for p := len(backs) - 1; p >= 0; p-- {
					_, ls := skeleton(nextVal(c, backs[p]))
					if nx == nil {
						nx = ls[i]
					} else {
						nx = Ite(guards[p], ls[i], nx)
					}
				}
				nx = sig.apply(nx)
				lf.changed = true
				at := func(t, v *Term) *Term { return subst1(t, k, v) }
				if lf.a.sort != SBool {
					d := splitIteDelta(nx, lf.a)
					if !open(d) {
						lf.closed = Add(lf.init, SumT(k, func(q *Term) *Term { return at(d, q) }))
						lf.atN = lf.closed
						sig[lf.a] = lf.closed
						again = true
						continue
					}
				}
				if nx.kind == KApp && (nx.name == "max" || nx.name == "min") {
					var e *Term
					own := false
					for _, x := range nx.args {
						if x == lf.a {
							own = true
							continue
						}
						if e == nil {
							e = x
						} else if nx.name == "max" {
							e = MaxT(e, x)
						} else {
							e = MinT(e, x)
						}
					}
					if own && e != nil && !open(e) {
						if nx.name == "max" {
							lf.atN = MaxT(lf.init, MaxFT(k, func(q *Term) *Term { return at(e, q) }))
						} else {
							lf.atN = MinT(lf.init, MinFT(k, func(q *Term) *Term { return at(e, q) }))
						}
						again = true
						continue
					}
				}
				if !open(nx) {
					lf.closed = Ite(Eq(k, I(0)), lf.init, at(nx, Sub(k, I(1))))
					lf.atN = lf.closed
					if entry.st.must(Ge(n, I(1))) {
						lf.atN = at(nx, Sub(k, I(1)))
					}
					sig[lf.a] = lf.closed
					again = true
				}
			}
		}
	}

	if os.Getenv("GOVERIF_LOOP") != "" {
		fmt.Fprintf(os.Stderr, "loop %s N=%s backs=%d early=%d outs=%d\n", where, n, len(backs), len(early), len(bouts))
		for _, c := range cs {
			for _, lf := range c.ls {
				fmt.Fprintf(os.Stderr, "   %s: init=%s closed=%v atN=%v havoc=%v\n", c.name(), lf.init, lf.closed, lf.atN, c.havoc)
			}
		}
	}

	g := &generaliser{act: a, ex: ex, where: where, k: k, n: n, sig: sig, open: open, entry: entry, base: base, backs: backs, guards: guards, cs: cs, accs: accs}
	g.prepare()
	g.checkReads(reads)

	// early exits and returns out of the body, at some iteration k
	exitAt := func(st *State) (*State, func(Val) Val) {
		return g.exitState(st)
	}
	for _, e := range early {
		st, f := exitAt(e.st)
		x := e.clone()
		x.st = st
		for i := range x.regs {
			if x.regs[i] != nil {
				x.regs[i] = f(x.regs[i])
			}
		}
		// continue at the exit block
		nx, _, _, o := ex.enter(a, x)
		next = append(next, nx...)
		outs = append(outs, o...)
	}
	var noExit []*Term
	for _, e := range early {
		noExit = append(noExit, pcDelta(e.st.pc, base.st.pc))
	}
	for _, o := range bouts {
		noExit = append(noExit, pcDelta(o.st.pc, base.st.pc))
		if o.panic != "" {
			outs = append(outs, o)
			continue
		}
		st, f := exitAt(o.st)
		vs := make([]Val, len(o.vals))
		for i := range vs {
			vs[i] = f(o.vals[i])
		}
		outs = append(outs, Outcome{st: st, vals: vs})
	}

	// normal exit after n iterations
	x := entry.clone()
	x.st = g.heapAfter(n)
	for _, c := range cs {
		v := c.cur(func(lf *leaf) *Term {
			if lf.atN == nil {
				return nil
			}
			return subst1(lf.atN, k, n)
		})
		bad := c.havoc
		for _, lf := range c.ls {
			bad = bad || lf.atN == nil
		}
		if bad {
			v = g.lastValue(c, nextVal)
		}
		switch {
		case c.phi != nil:
			x.regs[a.info.num[c.phi]] = v
		case c.draws:
			x.st.draws = term(v)
		default:
			x.st.writeCell(c.ref, c.idx, v, "", where)
		}
	}
	for _, c := range noExit {
		if c == nil {
			continue
		}
		c = existsInner(sig.apply(c), kn)
		if !open(c) {
			x.st.pc = x.st.pc.And(ForallT(n, func(q *Term) *Term { return subst1(Not(c), k, q) }))
		}
	}
	if len(backs) == 0 {
		x.st.pc = x.st.pc.And(Eq(n, I(0)))
		if !feasible(x.st.pc) {
			return next, outs
		}
	}
	g.gc(x)
	g.checkLeaks(x, kn)
	next = append(next, x)
	return next, outs
}

// innerVars lists the loop counters in t made after the n-th fresh symbol: the
// iterations at which loops inside the body were left early.
func innerVars(t *Term, n int) []*Term {
	vs := map[*Term]bool{}
	freeVars(t, SInt, vs)
	var l []*Term
	for v := range vs {
		if m, ok := loopVar(v); ok && m > n {
			l = append(l, v)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

func loopVar(v *Term) (int, bool) {
	if !strings.HasPrefix(v.name, "k!") {
		return 0, false
	}
	m, err := strconv.Atoi(v.name[2:])
	return m, err == nil
}

// existsInner binds the inner counters of t existentially, where t bounds them.
func existsInner(t *Term, n int) *Term {
	for {
		vs := innerVars(t, n)
		if len(vs) == 0 {
			return t
		}
		conj := []*Term{t}
		if t.kind == KAnd {
			conj = t.args
		}
		hi := map[*Term]*Term{}
		for _, v := range vs {
			for _, c := range conj {
				if c.kind == KLe {
					if r := affine(c.args[0], v, 1); r != nil {
						hi[v] = Sub(I(1), r)
					}
				}
			}
		}
		var pick *Term
		for _, v := range vs {
			inner := hi[v] != nil
			for w, h := range hi {
				if w != v && containsVar(h, v) {
					inner = false
				}
			}
			if inner {
				pick = v
				break
			}
		}
		if pick == nil {
			return t
		}
		var in, out []*Term
		for _, c := range conj {
			if containsVar(c, pick) {
				in = append(in, c)
			} else {
				out = append(out, c)
			}
		}
		b := Not(And(in...))
		t = And(append(out, Not(ForallT(hi[pick], func(q *Term) *Term { return subst1(b, pick, q) })))...)
	}
}

// checkLeaks: what is said of the state after the loop mentions no iteration of
// it, nor one of a loop inside its body.
func (g *generaliser) checkLeaks(x *item, kn int) {
	bad := func(t *Term) {
		if t != nil && len(innerVars(t, kn-1)) > 0 {
			unsup("loop at %s: goes on after leaving an inner loop early", g.where)
		}
	}
	val := func(v Val) {
		_, ls := skeleton(v)
		for _, t := range ls {
			bad(t)
		}
	}
	layer := func(l *Layer) {
		for ; l != nil; l = l.next {
			bad(l.guard)
			val(l.val)
			if l.guard == nil {
				break
			}
		}
	}
	bad(x.st.draws)
	for _, c := range g.cs {
		if c.phi != nil {
			val(x.regs[g.act.info.num[c.phi]])
		}
	}
	for f, c := range x.st.heap.m {
		if g.entry.st.heap.m[f] == c {
			continue
		}
		bad(c.n)
		for _, l := range c.cells {
			layer(l)
		}
		layer(c.sym)
	}
}

// splitIteDelta is nx - a, pushed into conditionals whose branches mention a.
func splitIteDelta(nx, a *Term) *Term {
	if nx.kind == KIte && containsVar(nx, a) {
		return Ite(nx.args[0], splitIteDelta(nx.args[1], a), splitIteDelta(nx.args[2], a))
	}
	if nx.kind == KIte {
		return Sub(nx, a)
	}
	return Sub(nx, a)
}

// solveBound: the number of iterations, from a header condition affine in k.
func solveBound(pc *PC, c, k *Term) *Term {
	neg := false
	if c.kind == KNot {
		c = c.args[0]
		neg = true
	}
	switch {
	case c.kind == KLe && !neg:
		r := affine(c.args[0], k, 1)
		if r != nil {
			return Sub(I(1), r)
		}
	case c.kind == KEq && neg:
		if e := solveFor(c.args[0], k); e != nil && entails(pc, Ge(e, I(0))) {
			return e
		}
	}
	return nil
}

// affine returns r with t == coef*k + r.
func affine(t, k *Term, coef int64) *Term {
	r := Sub(t, Mul(I(coef), k))
	if containsVar(r, k) {
		return nil
	}
	return r
}

type generaliser struct {
	act    *act
	ex     *Exec
	where  string
	k, n   *Term
	sig    Subst
	open   func(*Term) bool
	entry  *item
	base   *item
	backs  []*item
	guards []*Term
	cs     []*carried
	accs   []*accArr
	lift   map[*Family]*Family
	lifted map[*Family]*Content
	layers map[*Family][]arrLayer
}

type arrLayer struct {
	cell  int // index into cells, -1 for symbolic arrays
	e     *Term
	guard *Term // with k
	val   Val   // with k, lifted
}

func (g *generaliser) refUp(r *Ref, kk *Term, s Subst) *Ref {
	args := make([]*Term, len(r.args))
	for i := range args {
		args[i] = s.apply(r.args[i])
	}
	if f, ok := g.lift[r.fam]; ok {
		return &Ref{f, append(args, kk)}
	}
	return &Ref{r.fam, args}
}

func (g *generaliser) up(v Val, kk *Term, s Subst) Val {
	return mapVal(v, s.apply, func(r *Ref) *Ref { return g.refUp(r, kk, s) })
}

// upOpen is up for a value in an object made by the body: unknown if it depends
// on something carried around the loop without closed form.
func (g *generaliser) upOpen(v Val, kk *Term, s Subst) Val {
	w := g.sigVal(v)
	_, ls := skeleton(w)
	for _, t := range ls {
		if g.open(t) {
			return VHavoc{"made in loop at " + g.where}
		}
	}
	return g.up(w, kk, s)
}

func (g *generaliser) chk(t *Term, what string) *Term {
	if g.open(t) {
		unsup("loop at %s: %s depends on a value carried around the loop that has no closed form", g.where, what)
	}
	return t
}

func (g *generaliser) chkVal(v Val, what string) {
	_, ls := skeleton(v)
	for _, t := range ls {
		g.chk(t, what)
	}
}

func (g *generaliser) isCarried(f *Family, cell int) bool {
	for _, c := range g.cs {
		if c.ref != nil && c.ref.fam == f {
			if i, ok := c.idx.intVal(); ok && i == cell {
				return true
			}
		}
	}
	return false
}

func (g *generaliser) hasCarried(f *Family) bool {
	for _, c := range g.cs {
		if c.ref != nil && c.ref.fam == f {
			return true
		}
	}
	return false
}

// prepare lifts the objects created in the body and collects the array writes.
func (g *generaliser) prepare() {
	g.lift = map[*Family]*Family{}
	g.lifted = map[*Family]*Content{}
	g.layers = map[*Family][]arrLayer{}
	ent := g.entry.st.heap.m
	var order []*Family
	for _, b := range g.backs {
		var made []*Family
		for f := range b.st.heap.m {
			made = append(made, f)
		}
		sort.Slice(made, func(i, j int) bool { return made[i].id < made[j].id })
		for _, f := range made {
			if _, ok := ent[f]; !ok && g.lift[f] == nil {
				nf := newFamily(f.name, len(f.params)+1, f.elem)
				nf.owner = f.owner
				g.lift[f] = nf
				order = append(order, f)
			}
		}
	}
	// contents of lifted families
	for _, f := range order {
		nf := g.lift[f]
		q := nf.params[len(nf.params)-1]
		s := Subst{g.k: q}
		for i, p := range f.params {
			s[p] = nf.params[i]
		}
		s[f.j] = nf.j
		conv := func(l *Layer, extra *Term, tail *Layer) *Layer {
			var list []*Layer
			for x := l; x != nil; x = x.next {
				list = append(list, x)
				if x.guard == nil {
					break
				}
			}
			top := tail
			for i := len(list) - 1; i >= 0; i-- {
				x := list[i]
				var gd *Term
				if x.guard != nil {
					gd = s.apply(g.sig.apply(x.guard))
				}
				if extra != nil {
					if gd == nil {
						gd = extra
					} else {
						gd = And(gd, extra)
					}
				}
				v := g.upOpen(x.val, q, s)
				top = &Layer{guard: gd, val: v, next: top}
			}
			return top
		}
		var in []int
		same := true
		for i, b := range g.backs {
			if c := b.st.get(f); c != nil {
				if len(in) > 0 && g.backs[in[0]].st.get(f) != c {
					same = false
				}
				in = append(in, i)
			}
		}
		c0 := g.backs[in[0]].st.get(f)
		nc := &Content{n: s.apply(g.sig.apply(c0.n)), model: c0.model}
		build := func(pick func(c *Content) *Layer) *Layer {
			if same || len(in) == 1 {
				return conv(pick(c0), nil, nil)
			}
			// merge a single unconditional value per path where possible
			var top *Layer
			for x := len(in) - 1; x >= 0; x-- {
				c := g.backs[in[x]].st.get(f)
				gd := s.apply(g.sig.apply(g.guards[in[x]]))
				if top == nil {
					top = conv(pick(c), nil, nil)
					continue
				}
				l := pick(c)
				if l.guard == nil && top.guard == nil {
					if m, ok := mergeVal(gd, g.upOpen(l.val, q, s), top.val); ok {
						top = &Layer{val: m}
						continue
					}
				}
				top = conv(l, gd, top)
			}
			return top
		}
		if c0.conc() {
			nc.cells = make([]*Layer, len(c0.cells))
			for i := range nc.cells {
				nc.cells[i] = build(func(c *Content) *Layer { return c.cells[i] })
			}
		} else {
			nc.sym = build(func(c *Content) *Layer { return c.sym })
		}
		g.lifted[nf] = nc
	}
	// writes to arrays that existed before the loop
	for p, b := range g.backs {
		for f, c := range b.st.heap.m {
			o, ok := ent[f]
			if !ok || o == c {
				continue
			}
			bc := g.base.st.get(f)
			if bc == c || g.isAcc(f) {
				continue
			}
			collect := func(cell int, top, old *Layer) {
				var list []*Layer
				for x := top; x != old; x = x.next {
					if x == nil {
						unsup("loop at %s: array history", g.where)
					}
					list = append(list, x)
				}
				for i := len(list) - 1; i >= 0; i-- {
					x := list[i]
					gd := x.guard
					if gd == nil {
						gd = tTrue
					}
					gd = And(gd, g.guards[p])
					gd = g.sig.apply(gd)
					if !containsVar(gd, g.k) || !g.locVaries(x.guard) {
						if g.hasCarried(f) {
							continue // a carried cell, handled by its closed form
						}
						unsup("loop at %s: array write independent of the iteration", g.where)
					}
					e := g.solveK(gd)
					if e == nil {
						unsup("loop at %s: write position cannot be inverted", g.where)
					}
					v := g.up(g.sigVal(x.val), g.k, Subst{})
					g.chkVal(v, "array element")
					g.layers[f] = append(g.layers[f], arrLayer{cell, e, g.chk(gd, "array write"), v})
				}
			}
			if c.conc() {
				for i := range c.cells {
					if len(f.params) == 0 {
						if c.cells[i] != bc.cells[i] && !g.isCarried(f, i) {
							unsup("loop at %s: unexpected cell write", g.where)
						}
						continue
					}
					collect(i, c.cells[i], bc.cells[i])
				}
			} else {
				collect(-1, c.sym, bc.sym)
			}
		}
	}
	for _, a := range g.accs {
		g.accumulate(a)
	}
	for f, ls := range g.layers {
		for _, l := range ls[1:] {
			if l.e != ls[0].e && l.cell == ls[0].cell {
				unsup("loop at %s: several writes per iteration to %s", g.where, f.name)
			}
		}
	}
}

func (g *generaliser) isAcc(f *Family) bool {
	for _, a := range g.accs {
		if a.fam == f {
			return true
		}
	}
	return false
}

// accumulate finds what element j of a is after K iterations.
func (g *generaliser) accumulate(a *accArr) {
	bad := func() { unsup("loop at %s: elements of %s carried around the loop", g.where, a.fam.name) }
	v := a.cur
	old := g.base.st.get(a.fam).sym
	for p := len(g.backs) - 1; p >= 0; p-- {
		w := a.cur
		var ls []*Layer
		for x := g.backs[p].st.get(a.fam).sym; x != old; x = x.next {
			if x == nil {
				bad()
			}
			ls = append(ls, x)
		}
		for i := len(ls) - 1; i >= 0; i-- {
			if ls[i].guard == nil {
				w = ls[i].val
				continue
			}
			m, ok := mergeVal(ls[i].guard, ls[i].val, w)
			if !ok {
				bad()
			}
			w = m
		}
		if p == len(g.backs)-1 {
			v = w
			continue
		}
		m, ok := mergeVal(g.guards[p], w, v)
		if !ok {
			bad()
		}
		v = m
	}
	v = g.up(g.sigVal(v), g.k, Subst{})
	sk, nx := skeleton(v)
	sc, cur := skeleton(a.cur)
	_, ini := skeleton(a.init)
	if sk != sc {
		bad()
	}
	fs := make([]func(K *Term) *Term, len(nx))
	for i := range nx {
		if fs[i] = g.recurrence(nx[i], cur[i], ini[i]); fs[i] == nil {
			bad()
		}
	}
	a.at = func(K *Term) Val {
		l := make([]*Term, len(fs))
		for i := range l {
			l[i] = fs[i](K)
		}
		return refill(a.init, l)
	}
}

// recurrence solves x(0) = ini, x(k+1) = nx with cur for x(k).
func (g *generaliser) recurrence(nx, cur, ini *Term) func(K *Term) *Term {
	k := g.k
	if nx.kind == KIte && !g.open(nx.args[0]) && !containsVar(nx.args[0], k) {
		t := g.recurrence(nx.args[1], cur, ini)
		e := g.recurrence(nx.args[2], cur, ini)
		if t == nil || e == nil {
			return nil
		}
		c := nx.args[0]
		return func(K *Term) *Term { return Ite(c, t(K), e(K)) }
	}
	if nx == cur {
		return func(*Term) *Term { return ini }
	}
	if d := splitIteDelta(nx, cur); !g.open(d) {
		return func(K *Term) *Term {
			return Add(ini, SumT(K, func(q *Term) *Term { return subst1(d, k, q) }))
		}
	}
	if !g.open(nx) {
		return func(K *Term) *Term { return Ite(Eq(K, I(0)), ini, subst1(nx, k, Sub(K, I(1)))) }
	}
	if nx.kind == KApp && (nx.name == "max" || nx.name == "min") && len(nx.args) == 2 {
		e := nx.args[0]
		if e == cur {
			e = nx.args[1]
		}
		if (nx.args[0] == cur || nx.args[1] == cur) && !g.open(e) {
			max := nx.name == "max"
			return func(K *Term) *Term {
				at := func(q *Term) *Term { return subst1(e, k, q) }
				if max {
					return MaxT(ini, MaxFT(K, at))
				}
				return MinT(ini, MinFT(K, at))
			}
		}
	}
	return nil
}

// growSlice gives the slice c at entry room for everything the loop appends.
// Nobody sees the arrays it outgrows (onlyAppended), and the array it ends up in
// is its own, unless there was room from the start.
func (ex *Exec) growSlice(entry *item, c *carried, n, d, k *Term) bool {
	total := Mul(d, n)
	c.grown = true
	v, ok := c.init.(VSlice)
	if !ok {
		if _, ok := c.init.(VNil); !ok {
			return false
		}
		v = VSlice{nil, I(0), I(0), I(0)}
	}
	end := Add(v.len, total)
	if !ok || !entails(entry.st.pc, Le(end, v.cap)) {
		if !entails(entry.st.pc, Le(v.cap, v.len)) {
			return false
		}
		el := c.phi.Type().Underlying().(*types.Slice).Elem()
		r := entry.st.alloc("append", el, end, zeroVal(el))
		if ok {
			entry.st.bulkCopy(r, I(0), v.ref, v.off, v.len, "")
		}
		v = VSlice{r, I(0), v.len, end}
	}
	w := newCarried(v)
	c.init, c.ls = v, w.ls
	lv := v
	lv.len = Add(v.len, Mul(d, k))
	_, cl := skeleton(lv)
	for i, lf := range c.ls {
		lf.closed = cl[i]
		lf.changed = cl[i] != lf.init
	}
	return true
}

func (g *generaliser) sigVal(v Val) Val { return substVal(v, g.sig) }

// locVaries: does the location part of a write guard depend on the iteration?
func (g *generaliser) locVaries(gd *Term) bool {
	if gd == nil {
		return false
	}
	return containsVar(g.sig.apply(gd), g.k)
}

func (g *generaliser) solveK(gd *Term) *Term {
	conj := []*Term{gd}
	if gd.kind == KAnd {
		conj = gd.args
	}
	for _, c := range conj {
		if c.kind == KEq && c.args[0].sort == SInt && containsVar(c, g.k) {
			if e := solveFor(c.args[0], g.k); e != nil {
				return e
			}
		}
	}
	return nil
}

// checkReads: the body must not read what another iteration writes.
func (g *generaliser) checkReads(reads map[readKey]*Ref) {
	for key, r := range reads {
		ls := g.layers[key.fam]
		if len(ls) == 0 {
			continue
		}
		// read position must be exactly the position this iteration writes
		s := Subst{}
		for i, p := range key.fam.params {
			s[p] = g.sig.apply(r.args[i])
		}
		s[key.fam.j] = g.sig.apply(key.idx)
		for _, l := range ls {
			if e := s.apply(l.e); e != g.k {
				unsup("loop at %s: reads %s, which other iterations write", g.where, key.fam.name)
			}
		}
	}
}

// heapAfter is the state after K iterations (carried cells excluded).
func (g *generaliser) heapAfter(K *Term) *State {
	st := g.entry.st.clone()
	for f, c := range g.lifted {
		st.set(f, c)
	}
	for f, ls := range g.layers {
		o := g.entry.st.get(f)
		nc := &Content{n: o.n, sym: o.sym, model: o.model}
		if o.cells != nil {
			nc.cells = append([]*Layer(nil), o.cells...)
		}
		for _, l := range ls {
			s := Subst{g.k: l.e}
			gd := And(s.apply(l.guard), Ge(l.e, I(0)), Lt(l.e, K))
			v := substVal(l.val, s)
			if l.cell < 0 {
				nc.sym = &Layer{guard: gd, val: v, next: nc.sym}
			} else {
				nc.cells[l.cell] = &Layer{guard: gd, val: v, next: nc.cells[l.cell]}
			}
		}
		st.set(f, nc)
		st.writes = &WriteRec{f, nil, V("*", SInt), "", st.writes, g.where}
	}
	for _, a := range g.accs {
		o := g.entry.st.get(a.fam)
		st.set(a.fam, &Content{n: o.n, sym: &Layer{val: a.at(K)}, model: o.model})
		st.writes = &WriteRec{a.fam, nil, V("*", SInt), "", st.writes, g.where}
	}
	return st
}

// exitState is the state of a path that leaves the body early at iteration k.
func (g *generaliser) exitState(s0 *State) (*State, func(Val) Val) {
	conv := func(v Val) Val {
		w := g.sigVal(v)
		_, ls := skeleton(w)
		for _, t := range ls {
			if g.open(t) {
				return VHavoc{"early exit of loop at " + g.where}
			}
		}
		return w
	}
	st := g.heapAfter(g.k)
	pc := g.entry.st.pc
	for _, t := range s0.pc.list()[lenPC(pc):] {
		pc = pc.And(g.sig.apply(t))
	}
	st.pc = pc
	convL := func(l *Layer, old *Layer, tail *Layer) *Layer {
		var list []*Layer
		for x := l; x != old && x != nil; x = x.next {
			list = append(list, x)
		}
		top := tail
		for i := len(list) - 1; i >= 0; i-- {
			x := list[i]
			gd := x.guard
			if gd != nil {
				gd = g.sig.apply(gd)
			}
			top = &Layer{guard: gd, val: conv(x.val), next: top}
		}
		return top
	}
	for f, c := range s0.heap.m {
		o, ok := g.entry.st.heap.m[f]
		if ok && o == c {
			continue
		}
		bc := g.base.st.get(f)
		if !ok {
			nc := &Content{n: g.sig.apply(c.n), model: c.model}
			if c.conc() {
				nc.cells = make([]*Layer, len(c.cells))
				for i := range c.cells {
					nc.cells[i] = convL(c.cells[i], nil, nil)
				}
			} else {
				nc.sym = convL(c.sym, nil, nil)
			}
			st.set(f, nc)
			continue
		}
		cur := st.get(f)
		nc := &Content{n: cur.n, model: cur.model}
		if c.conc() {
			nc.cells = append([]*Layer(nil), cur.cells...)
			for i := range c.cells {
				if len(f.params) == 0 {
					nc.cells[i] = convL(c.cells[i], nil, nil)
				} else {
					nc.cells[i] = convL(c.cells[i], bc.cells[i], cur.cells[i])
				}
			}
		} else {
			nc.sym = convL(c.sym, bc.sym, cur.sym)
		}
		st.set(f, nc)
		st.writes = &WriteRec{f, nil, V("*", SInt), "", st.writes, g.where}
	}
	st.draws = g.sig.apply(s0.draws)
	return st, conv
}

func lenPC(p *PC) int {
	if p == nil {
		return 0
	}
	return p.depth
}

// lastValue handles a carried value without closed form: the value produced by
// the last iteration, when it does not depend on earlier ones.
func (g *generaliser) lastValue(c *carried, nextVal func(*carried, *item) Val) Val {
	if len(g.backs) != 1 || !entails(g.entry.st.pc, Ge(g.n, I(1))) {
		return VHavoc{c.name() + " in loop at " + g.where}
	}
	v := g.up(g.sigVal(nextVal(c, g.backs[0])), g.k, Subst{})
	_, ls := skeleton(v)
	for _, t := range ls {
		if g.open(t) {
			return VHavoc{c.name() + " in loop at " + g.where}
		}
	}
	return substVal(v, Subst{g.k: Sub(g.n, I(1))})
}

// gc drops lifted families nothing refers to.
func (g *generaliser) gc(x *item) {
	mark := map[*Family]bool{}
	var work []*Family
	visit := func(r *Ref) {
		if r != nil && r.fam != nil && !mark[r.fam] {
			mark[r.fam] = true
			work = append(work, r.fam)
		}
	}
	for f := range g.entry.st.heap.m {
		visit(&Ref{fam: f})
	}
	for _, v := range x.regs {
		if v != nil {
			refsOf(v, visit)
		}
	}
	layer := func(l *Layer) {
		for ; l != nil; l = l.next {
			refsOf(l.val, visit)
			if l.guard == nil {
				break
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		c := x.st.get(f)
		if c == nil {
			continue
		}
		for _, l := range c.cells {
			layer(l)
		}
		layer(c.sym)
	}
	m := map[*Family]*Content{}
	for f, c := range x.st.heap.m {
		if mark[f] {
			m[f] = c
		}
	}
	x.st.heap = &Heap{m}
	x.st.shared = false
}
