package main

// Back-propagation over whole graphs: every DAG of up to five tensors, with
// arbitrary backward rules. The rules are opaque: rule e of tensor y multiplies
// the gradient y has accumulated so far by an unknown c_e, element by element,
// so the gradient of a tensor comes out as the sum over paths of the products of
// the c_e exactly if every rule ran once, on a complete gradient.

import (
	"fmt"
	"strings"
)

// gnode is a tensor of a graph: a leaf (no operands), tracked or not, or the
// result of an operation on earlier tensors.
type gnode struct {
	tracked bool
	ops     []int
}

type graph []gnode

func (g graph) String() string {
	var l []string
	for i, n := range g {
		switch {
		case len(n.ops) > 0:
			l = append(l, fmt.Sprintf("%d=f%v", i, n.ops))
		case n.tracked:
			l = append(l, fmt.Sprintf("%d=leaf", i))
		default:
			l = append(l, fmt.Sprintf("%d=const", i))
		}
	}
	return strings.Join(l, " ")
}

func (g graph) reach() []bool {
	r := make([]bool, len(g))
	r[len(g)-1] = g[len(g)-1].tracked
	for i := len(g) - 1; i >= 0; i-- {
		if r[i] {
			for _, o := range g[i].ops {
				r[o] = r[o] || g[o].tracked
			}
		}
	}
	return r
}

// graphs lists the DAGs of n tensors, the last one being the root.
func graphs(n, unreached int) []graph {
	var all []graph
	var rec func(g graph)
	rec = func(g graph) {
		i := len(g)
		if i == n {
			r := g.reach()
			used := make([]bool, n)
			used[n-1] = true
			for k, x := range g {
				if r[k] {
					for _, o := range x.ops {
						used[o] = true
					}
				}
			}
			miss := 0
			for _, u := range used {
				if !u {
					miss++
				}
			}
			if miss <= unreached {
				all = append(all, append(graph(nil), g...))
			}
			return
		}
		add := func(x gnode) { rec(append(g, x)) }
		add(gnode{tracked: true})
		if i < n-1 {
			add(gnode{})
		}
		for a := 0; a < i; a++ {
			if g[a].tracked {
				add(gnode{true, []int{a}})
			}
			for b := 0; b < i; b++ {
				if g[a].tracked || g[b].tracked {
					add(gnode{true, []int{a, b}})
				}
			}
		}
	}
	rec(nil)
	return all
}

func graphUnits(ex *Exec) []*unit {
	var us []*unit
	add := func(name string, gs []graph) {
		const per = 400
		for i := 0; i < len(gs); i += per {
			part := gs[i:min(i+per, len(gs))]
			us = append(us, &unit{name: fmt.Sprintf("graphs of %s part %d", name, i/per+1), props: []string{"C01", "C08", "C10"}, run: func(u *ur) {
				for _, g := range part {
					if len(g) <= 2 {
						for r := 0; r <= 5; r++ {
							u.runGraph(g, r)
						}
						continue
					}
					u.runGraph(g, 1)
				}
			}})
		}
	}
	add("1 tensor", graphs(1, 0))
	add("2 tensors", graphs(2, 1))
	add("3 tensors", graphs(3, 1))
	add("4 tensors", graphs(4, 1))
	add("5 tensors", graphs(5, 0))
	var special []graph
	// deep ladders: every tensor used twice by the next
	for n := 6; n <= 12; n += 3 {
		g := graph{{tracked: true}}
		for i := 1; i < n; i++ {
			g = append(g, gnode{true, []int{i - 1, i - 1}})
		}
		special = append(special, g)
		// each uses its two predecessors
		f := graph{{tracked: true}, {tracked: true}}
		for i := 2; i < n; i++ {
			f = append(f, gnode{true, []int{i - 2, i - 1}})
		}
		special = append(special, f)
		r := graph{{tracked: true}, {tracked: true}}
		for i := 2; i < n; i++ {
			r = append(r, gnode{true, []int{i - 1, 0, i - 2}})
		}
		special = append(special, r)
	}
	add("many tensors", special)
	var large []graph
	chain := graph{{tracked: true}}
	for i := 1; i < 260; i++ {
		chain = append(chain, gnode{true, []int{i - 1}})
	}
	fan, fan2, many := graph{{tracked: true}}, graph{{tracked: true}}, graph{{tracked: true}}
	var mids, rep []int
	for i := 1; i <= 140; i++ {
		fan = append(fan, gnode{true, []int{0}})
		fan2 = append(fan2, gnode{tracked: true})
		mids, rep = append(mids, i), append(rep, 0)
	}
	fan = append(fan, gnode{true, mids})
	fan2 = append(fan2, gnode{true, mids})
	many = append(many, gnode{true, rep})
	large = append(large, chain, fan, fan2, many)
	add("hundreds of tensors", large)
	us[len(us)-1].optional, us[len(us)-1].extra = true, true
	us = append(us, bpUnit(ex))
	return us
}

func (u *ur) runGraph(g graph, rank int) {
	st := newState()
	dims := dimVars("n", rank)
	reach := g.reach()
	ps := make([]VPtr, len(g))
	prior := make([]Val, len(g))
	calls := map[[2]int]int{}
	early := ""
	coef := func(i, e int, x []*Term) *Term { return mkApp(fmt.Sprintf("c%d_%d", i, e), SReal, x...) }
	for i, x := range g {
		i := i
		var edges Val
		var eps []Val
		for e, o := range x.ops {
			e := e
			ev := make([]Val, structOf(lay.edgeT).NumFields())
			ev[lay.etarget] = wrapT(ps[o])
			ev[lay.efn] = VFunc{nat: &Native{name: "rule", call: func(ex *Exec, st *State, _ []Val) []Outcome {
				calls[[2]int{i, e}]++
				gv, ok := st.gctxOf(ps[i])
				gp, isT := asPtr(gv.grad)
				if !ok || !isT {
					early = fmt.Sprintf("rule of tensor %d applied before the tensor has a gradient", i)
					return one(st, wrapT(st.mkT(tspec{name: "d", dims: dims, elem: elemVar("none")})), VNil{})
				}
				// a linear rule: the elements are read now, not later
				snap := st.clone()
				el := func(idx []*Term) *Term { return Mul(coef(i, e, idx), snap.elemOf(gp, idx)) }
				return one(st, wrapT(st.mkT(tspec{name: "d", dims: dims, elem: el})), VNil{})
			}}}
			er := st.newObj(fmt.Sprintf("edge%d.%d", i, e), lay.edgeT, true, "graph", VStruct{ev})
			eps = append(eps, VPtr{er, I(0), ""})
		}
		if len(eps) > 0 {
			k := I(int64(len(eps)))
			es := st.newObj(fmt.Sprintf("edges%d", i), ptrT(lay.edgeT), true, "graph", eps...)
			edges = VSlice{es, I(0), k, k}
		}
		ts := tspec{name: fmt.Sprintf("t%d", i), dims: dims, elem: elemVar(fmt.Sprintf("t%d", i)), tracked: B(x.tracked), edges: edges, pre: true}
		if len(x.ops) == 0 {
			// a leaf may be spent, and may hold the gradient of an earlier graph
			ts.dirty = V(fmt.Sprintf("spent%d", i), SBool)
			if x.tracked && i%2 == 0 {
				prior[i] = wrapT(st.mkT(tspec{name: fmt.Sprintf("g%d", i), dims: dims, elem: elemVar(fmt.Sprintf("g%d", i)), pre: true}))
				ts.grad = prior[i]
			}
		}
		ps[i] = st.mkT(ts)
	}
	what := "graph " + g.String()
	since := st.writes
	root := len(g) - 1
	outs := u.call(st, u.ex.fn("tensor", "BackPropagate"), []Val{wrapT(ps[root])})
	if !u.obf("C01", "back-propagation over the graph is deterministic", len(outs) == 1, "%d outcomes for %s", len(outs), what) {
		return
	}
	o := outs[0]
	if !u.noPanic("C01 C09", "back-propagation", o) || !u.obf("C01", "back-propagation succeeds", isNilVal(o.vals[0]), "error for %s", what) {
		return
	}
	u.obf("C01", "rules are applied to complete gradients", early == "", "%s in %s", early, what)
	total := 0
	for i := range g {
		for e := range g[i].ops {
			c := calls[[2]int{i, e}]
			total += c
			if c > 1 {
				u.obf("C01", "rules are applied a bounded number of times", c <= 4, "rule %d of tensor %d applied %d times in %s", e, i, c, what)
			}
		}
	}
	u.ob("C01", "rules are applied a bounded number of times", true, "")
	s := o.st
	u.frame(s, since, onlyGctx)
	// expected totals, from the root down
	var x []*Term
	for range dims {
		x = append(x, Fresh("i", SInt))
	}
	want := make([]*Term, len(g))
	want[root] = R(1)
	for i := root; i >= 0; i-- {
		if want[i] == nil {
			continue
		}
		for e, t := range g[i].ops {
			if !g[t].tracked {
				continue
			}
			d := Mul(coef(i, e, x), want[i])
			if want[t] == nil {
				want[t] = d
			} else {
				want[t] = Add(want[t], d)
			}
		}
	}
	for i := range g {
		gv, ok := s.gctxOf(ps[i])
		if !u.obf("C01 C08", "tensors keep a gradient context", ok, "tensor %d of %s", i, what) {
			continue
		}
		if !reach[i] {
			b, _ := st.gctxOf(ps[i])
			bp, had := asPtr(b.grad)
			ap, has := asPtr(gv.grad)
			u.obf("C01 C08", "tensors outside the graph are left alone", had == has && (!had || bp.ref.fam == ap.ref.fam) && gv.tracked == b.tracked && gv.dirty == b.dirty && len(gv.edges) == len(b.edges), "tensor %d of %s", i, what)
			continue
		}
		u.obf("C08", "tensors of the graph are spent", ProveTrue(s.pc, gv.dirty), "tensor %d of %s is not spent", i, what)
		gp, isT := asPtr(gv.grad)
		if !u.obf("C01 C08", "tracked tensors of the graph have a gradient", isT, "tensor %d of %s has none", i, what) {
			continue
		}
		gg, ok := s.gctxOf(gp)
		u.obf("C08", "gradients are untracked", ok && ProveTrue(s.pc, Not(gg.tracked)), "gradient of tensor %d of %s", i, what)
		u.tensorShape(s, "C01", "gradient", gp, dims)
		w := want[i]
		if prior[i] != nil {
			w = Add(w, mkApp(fmt.Sprintf("g%d", i), SReal, x...))
			pp, _ := asPtr(prior[i])
			u.ob("C10", "an earlier gradient tensor is not written", s.elemOf(pp, x) == st.elemOf(pp, x), what)
		}
		q := s.clone()
		for k := range x {
			q.pc = q.pc.And(Ge(x[k], I(0))).And(Lt(x[k], dims[k]))
		}
		got := q.elemOf(gp, x)
		u.obf("C01", "gradient is the total derivative", ProveEq(q.pc, got, w), "gradient of tensor %d of %s is %s, expected %s", i, what, got, w)
	}
}

func ProveTrue(pc *PC, c *Term) bool { return c == tTrue || Prove(pc, c) }
