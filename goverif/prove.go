package main

// The prover for value obligations: equalities and inequalities between real
// terms with folds, conditionals and index arithmetic, under a path condition.
// Everything it concludes is derived from normalisation, congruence, splitting
// and SMT calls; it never samples to prove (sampling only refutes).

import (
	"fmt"
	"math/big"
	"os"
	"sort"
)

var proveStats struct {
	goals, proved, splits int
}

/* ---------- path-condition equalities ---------- */

type eqCtx struct {
	pc *PC
	s  Subst
	ok bool // feasible as far as rewriting can tell
}

var eqCache = map[int]*eqCtx{}

// eqNorm turns the equalities of pc into a substitution.
func eqNorm(pc *PC) *eqCtx {
	if r, ok := eqCache[pc.pid()]; ok {
		return r
	}
	s := Subst{}
	cons := append([]*Term(nil), pc.list()...)
	for round := 0; round < 60; round++ {
		set := map[*Term]bool{}
		var v, e *Term
		for _, t := range cons {
			set[t] = true
		}
		for _, t := range cons {
			q := t
			if t.kind == KLe && t.args[0].sort == SInt {
				// t <= 0 and -t <= 0
				if !set[Le0(Neg(t.args[0]))] {
					continue
				}
				q = Eq0(t.args[0])
			}
			if q.kind != KEq {
				continue
			}
			if v, e = solveAny(q.args[0]); v != nil {
				break
			}
		}
		if v == nil {
			break
		}
		one := Subst{v: e}
		for k, x := range s {
			s[k] = one.apply(x)
		}
		s[v] = e
		var nc []*Term
		for _, t := range cons {
			x := one.apply(t)
			if x.kind == KBool {
				if !x.b {
					r := &eqCtx{pc, s, false}
					eqCache[pc.pid()] = r
					return r
				}
				continue
			}
			if x.kind == KAnd {
				nc = append(nc, x.args...)
			} else {
				nc = append(nc, x)
			}
		}
		cons = nc
	}
	var np *PC
	for _, t := range cons {
		np = np.And(t)
	}
	r := &eqCtx{np, s, true}
	eqCache[pc.pid()] = r
	return r
}

// solveAny picks a variable that t == 0 determines.
func solveAny(t *Term) (v, e *Term) {
	// prefer the youngest variable, so that sizes named first survive
	for _, m := range monosOf(t) {
		if len(m.fs) == 1 && m.fs[0].e == 1 && m.fs[0].t.kind == KVar && new(big.Rat).Abs(m.c).Cmp(ratOne) == 0 {
			x := m.fs[0].t
			if v != nil && v.id > x.id {
				continue
			}
			if y := solveFor(t, x); y != nil {
				v, e = x, y
			}
		}
	}
	return
}

/* ---------- simplification under a path condition ---------- */

type simpKey struct {
	pc int
	t  *Term
}

var simpCache = map[simpKey]*Term{}

// simp decides conditionals, resolves digits and bounds, under pc.
func simp(pc *PC, t *Term) *Term {
	switch t.kind {
	case KNum, KBool, KVar, KBV:
		return t
	}
	k := simpKey{pc.pid(), t}
	if r, ok := simpCache[k]; ok {
		return r
	}
	r := simp1(pc, t)
	simpCache[k] = r
	return r
}

func simp1(pc *PC, t *Term) *Term {
	switch t.kind {
	case KIte:
		c := simp(pc, t.args[0])
		switch decide(pc, c) {
		case 1:
			return simp(pc, t.args[1])
		case -1:
			return simp(pc, t.args[2])
		}
		return Ite(c, simp(pc.And(c), t.args[1]), simp(pc.And(Not(c)), t.args[2]))
	case KSum, KMaxF, KMinF, KForall:
		hi := simp(pc, t.args[0])
		v := Fresh("q", SInt)
		p2 := pc.And(Ge(v, I(0))).And(Lt(v, hi))
		body := simp(p2, openFold(t, v))
		if t.kind == KSum && containsVar(body, v) {
			if r := distribute(p2, v, hi, body); r != nil {
				return r
			}
		}
		return mkFold(t.kind, v, hi, body)
	case KAnd, KOr:
		r := rebuild(t, func(a *Term) *Term { return simp(pc, a) })
		if r.kind == KBool {
			return r
		}
		switch decide(pc, r) {
		case 1:
			return tTrue
		case -1:
			return tFalse
		}
		return r
	case KLe, KLt, KEq, KNot:
		r := rebuild(t, func(a *Term) *Term { return simp(pc, a) })
		if r.kind == KBool {
			return r
		}
		switch decide(pc, r) {
		case 1:
			return tTrue
		case -1:
			return tFalse
		}
		return r
	case KApp:
		r := rebuild(t, func(a *Term) *Term { return simp(pc, a) })
		if r.kind == KApp && r.name == "dig" {
			if d := digSolve(pc, r); d != nil {
				return d
			}
		}
		if r.kind == KApp && (r.name == "max" || r.name == "min") && len(r.args) == 2 {
			switch decide(pc, Le(r.args[0], r.args[1])) {
			case 1:
				if r.name == "max" {
					return r.args[1]
				}
				return r.args[0]
			}
			switch decide(pc, Ge(r.args[0], r.args[1])) {
			case 1:
				if r.name == "max" {
					return r.args[0]
				}
				return r.args[1]
			}
		}
		if r.kind == KApp && r.name == "abs" {
			switch decide(pc, Ge(r.args[0], mkRat(r.sort, ratZero))) {
			case 1:
				return r.args[0]
			case -1:
				return Neg(r.args[0])
			}
		}
		return r
	}
	return rebuild(t, func(a *Term) *Term { return simp(pc, a) })
}

// distribute pushes a sum into conditionals of its body whose condition does not
// depend on the index.
func distribute(pc *PC, v, hi, body *Term) *Term {
	c := findIte(body, func(c *Term) bool { return !containsVar(c, v) && c.bvs == 0 })
	if c == nil {
		return nil
	}
	a := simp(pc.And(c), assumeCond(body, c, true))
	b := simp(pc.And(Not(c)), assumeCond(body, c, false))
	return Ite(c, mkFold(KSum, v, hi, a), mkFold(KSum, v, hi, b))
}

// assumeCond replaces conditionals on exactly c.
func assumeCond(t, c *Term, val bool) *Term {
	return Subst{c: B(val), Not(c): B(!val)}.applyAll(t)
}

func (s Subst) applyAll(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := s[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := rebuild(t, rec)
		memo[t] = r
		return r
	}
	return rec(t)
}

// findIte returns the condition of some conditional in t (not below folds whose
// index it uses) that satisfies ok.
func findIte(t *Term, ok func(*Term) bool) *Term {
	seen := map[*Term]bool{}
	var hit *Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if hit != nil || seen[t] {
			return
		}
		seen[t] = true
		if t.kind == KIte && t.args[0].bvs == 0 && ok(t.args[0]) {
			hit = t.args[0]
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.mons {
			for _, f := range m.fs {
				rec(f.t)
			}
		}
	}
	rec(t)
	return hit
}

// digSolve: the j-th digit of L when L is recognisably a rank over the dims, or
// the digit over part of the dims that it is equal to.
func digSolve(pc *PC, t *Term) *Term {
	if r := digFull(pc, t); r != nil {
		return r
	}
	j, _ := t.args[0].intVal()
	L := t.args[1]
	dims := t.args[2:]
	for m := len(dims) - 1; m > 0; m-- {
		p := prod(dims[m:])
		if p.isOne() {
			if int(j) < m {
				return simp(pc, mkDig(int(j), L, dims[:m]))
			}
			return I(0)
		}
		q, r, ok := polyDiv(L, p)
		if !ok || q.isZero() || !inRange(pc, r, p) {
			continue
		}
		if int(j) < m {
			return simp(pc, mkDig(int(j), q, dims[:m]))
		}
		return simp(pc, mkDig(int(j)-m, r, dims[m:]))
	}
	return nil
}

func digFull(pc *PC, t *Term) *Term {
	j, _ := t.args[0].intVal()
	L := t.args[1]
	dims := t.args[2:]
	if len(dims) == 1 {
		return L // 0 <= L < dims[0] by construction
	}
	rem := L
	for k := range dims {
		if k == len(dims)-1 {
			if k == j {
				return rem
			}
			return nil
		}
		stride := prod(dims[k+1:])
		var q, r *Term
		if dims[k].isOne() {
			q, r = I(0), rem
		} else if stride.isOne() {
			q, r = rem, I(0)
		} else {
			var ok bool
			q, r, ok = polyDiv(rem, stride)
			if !ok {
				return nil
			}
			if !inRange(pc, r, stride) {
				// a single-row case: everything above is zero
				if inRange(pc, rem, stride) {
					q, r = I(0), rem
				} else {
					return nil
				}
			}
		}
		if k == j {
			return q
		}
		rem = r
	}
	return nil
}

// inRange: 0 <= r < n, first by maximising r over its index variables.
func inRange(pc *PC, r, n *Term) bool {
	lo := true
	for _, m := range monosOf(r) {
		if m.c.Sign() < 0 {
			lo = false
		}
		for _, f := range m.fs {
			if f.t.kind != KVar && !(f.t.kind == KApp && f.t.name == "dig") || f.t.kind == KVar && !pc.has(Ge(f.t, I(0))) && !pc.has(Ge(f.t, I(1))) {
				lo = false
			}
		}
	}
	if lo {
		u := r
		for i := 0; i < 12; i++ {
			if d := Sub(n, u); decideConst(pc, Gt(d, I(0))) {
				return true
			}
			ch := false
			for _, m := range monosOf(u) {
				for _, f := range m.fs {
					if ub := upper(pc, f.t); ub != nil && monotone(u, f.t) {
						u = subst1(u, f.t, ub)
						ch = true
						break
					}
				}
				if ch {
					break
				}
			}
			if !ch {
				break
			}
		}
	}
	return entails(pc, And(Ge(r, I(0)), Lt(r, n)))
}

func decideConst(pc *PC, c *Term) bool {
	if c.kind == KBool {
		return c.b
	}
	return pc.has(c)
}

// monotone: every monomial of u containing v has a positive coefficient.
func monotone(u, v *Term) bool {
	for _, m := range monosOf(u) {
		for _, f := range m.fs {
			if f.t == v && m.c.Sign() < 0 {
				return false
			}
		}
	}
	return true
}

// upper is an upper bound v <= ub recorded in pc as v < ub+1.
func upper(pc *PC, v *Term) *Term {
	if v.kind == KApp && v.name == "dig" {
		j, _ := v.args[0].intVal()
		return Sub(v.args[2+j], I(1))
	}
	for q := pc; q != nil; q = q.parent {
		t := q.t
		if t.kind != KLe || t.args[0].sort != SInt {
			continue
		}
		// v + r <= 0
		if r := affine(t.args[0], v, 1); r != nil {
			ub := Neg(r)
			// only bounds by sizes, to make progress
			ok := true
			for _, m := range monosOf(ub) {
				if len(m.fs) > 0 && m.c.Sign() < 0 {
					ok = false
				}
			}
			if ok {
				return ub
			}
		}
	}
	return nil
}

/* ---------- proving ---------- */

type prover struct {
	fuel  int
	why   string
	depth int
}

// Prove reports whether pc |- goal could be established.
func Prove(pc *PC, goal *Term) bool {
	proveStats.goals++
	p := &prover{fuel: 4000}
	ok := p.prove(pc, goal)
	if ok {
		proveStats.proved++
	} else if os.Getenv("GOVERIF_PROVE") != "" {
		fmt.Fprintf(os.Stderr, "UNPROVED %s\n  |- %s\n  %s\n", pc, goal, p.why)
	}
	return ok
}

func ProveEq(pc *PC, a, b *Term) bool {
	proveStats.goals++
	p := &prover{fuel: 4000}
	ok := p.eq(pc, a, b)
	if ok {
		proveStats.proved++
	} else if os.Getenv("GOVERIF_PROVE") != "" {
		fmt.Fprintf(os.Stderr, "UNPROVED %s\n  |- %s\n  == %s\n  %s\n", pc, a, b, p.why)
	}
	return ok
}

func (p *prover) spend() bool {
	p.fuel--
	return p.fuel > 0
}

func (p *prover) prove(pc *PC, goal *Term) bool {
	if !p.spend() {
		return false
	}
	c := eqNorm(pc)
	if !c.ok {
		return true
	}
	pc, goal = c.pc, c.s.apply(goal)
	goal = simp(pc, goal)
	switch goal.kind {
	case KBool:
		if goal.b {
			return true
		}
		return !feasible(pc)
	case KAnd:
		for _, a := range goal.args {
			if !p.prove(pc, a) {
				return false
			}
		}
		return true
	case KOr:
		if entails(pc, goal) {
			return true
		}
		for i, a := range goal.args {
			q := pc
			for j, b := range goal.args {
				if i != j {
					q = q.And(Not(b))
				}
			}
			if p.prove(q, a) {
				return true
			}
		}
		return false
	case KForall:
		v := Fresh("all", SInt)
		return p.prove(pc.And(Ge(v, I(0))).And(Lt(v, goal.args[0])), openFold(goal, v))
	case KEq:
		return p.eq(pc, goal.args[0], mkRat(goal.args[0].sort, ratZero))
	}
	if entails(pc, goal) {
		return true
	}
	if p.depth < 10 {
		if cnd := p.splitCond(pc, goal); cnd != nil {
			p.depth++
			defer func() { p.depth-- }()
			proveStats.splits++
			return p.prove(pc.And(cnd), goal) && p.prove(pc.And(Not(cnd)), goal)
		}
	}
	if goal.kind == KLe || goal.kind == KLt {
		if p.sign(pc, goal) {
			return true
		}
	}
	p.why = "cannot prove " + goal.String() + " under " + pc.String()
	return false
}

// splitCond: an open condition worth splitting on.
func (p *prover) splitCond(pc *PC, t *Term) *Term {
	if c := findIte(t, func(c *Term) bool { return true }); c != nil {
		return c
	}
	var hit *Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if hit != nil || seen[t] {
			return
		}
		seen[t] = true
		if t.kind == KApp && t.bvs == 0 {
			if (t.name == "max" || t.name == "min") && len(t.args) >= 2 {
				hit = Le(t.args[0], t.args[1])
				return
			}
			if t.name == "abs" {
				hit = Ge(t.args[0], mkRat(t.sort, ratZero))
				return
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.mons {
			for _, f := range m.fs {
				rec(f.t)
			}
		}
	}
	rec(t)
	return hit
}

func (p *prover) eq(pc *PC, a, b *Term) bool {
	if !p.spend() {
		p.why = "budget"
		return false
	}
	if a == b {
		return true
	}
	c := eqNorm(pc)
	if !c.ok {
		return true
	}
	pc = c.pc
	a, b = simp(pc, c.s.apply(a)), simp(pc, c.s.apply(b))
	if a == b {
		return true
	}
	if a.sort == SBool {
		if x, y := normCount(a), normCount(b); x != a || y != b {
			return p.eq(pc, x, y)
		}
		return p.prove(pc.And(a), b) && p.prove(pc.And(b), a)
	}
	d := Sub(a, b)
	if hasFold(d) {
		d = complement(d)
	}
	if d.isZero() {
		return true
	}
	if a.sort == SInt {
		if entails(pc, Eq0(d)) {
			return true
		}
	}
	d = p.congruence(pc, d)
	if d.isZero() {
		return true
	}
	// conditionals and piecewise functions outside folds
	if p.depth < 14 {
		if cnd := p.splitCond(pc, d); cnd != nil && decide(pc, cnd) == 0 {
			p.depth++
			defer func() { p.depth-- }()
			proveStats.splits++
			z := mkRat(d.sort, ratZero)
			return p.eq(pc.And(cnd), d, z) && p.eq(pc.And(Not(cnd)), d, z)
		}
	}
	if d.sort == SReal && p.roots(pc, d) {
		return true
	}
	if d.sort == SReal {
		d2 := analytic(clearDenominators(analytic(d)))
		d2 = p.congruence(pc, d2)
		if d2.isZero() {
			return true
		}
		if d2 != d && d2.sort == SReal {
			d = d2
		}
	}
	if p.sums(pc, d) {
		return true
	}
	if !hasFold(d) && entails(pc, Eq0(d)) {
		return true
	}
	if !feasible(pc) {
		return true
	}
	if p.why == "" {
		p.why = "cannot prove " + d.String() + " == 0 under " + pc.String()
	}
	return false
}

func hasFold(t *Term) bool { return t.h > 0 }

// complement counts in one way: where c fails is everywhere but where it holds.
func complement(t *Term) *Term {
	if t.h == 0 {
		return t
	}
	if t.kind != KSum {
		return rebuild(t, complement)
	}
	v := Fresh("o", SInt)
	body := complement(openFold(t, v))
	acc := []*Term{mkRat(body.sort, ratZero)}
	for _, m := range monosOf(body) {
		x := mkRat(body.sort, m.c)
		for _, f := range m.fs {
			y := f.t
			if y.kind == KIte && f.e == 1 && y.args[1].isZero() && y.args[2].isNum() {
				y = Sub(y.args[2], Ite(y.args[0], y.args[2], y.args[1]))
			}
			x = Mul(x, PowN(y, f.e))
		}
		acc = append(acc, x)
	}
	return mkFold(KSum, v, t.args[0], Add(acc...))
}

// normCount: n - (number of indices where c holds) <= 0 says that c holds at all
// of the n indices.
func normCount(t *Term) *Term {
	if t.kind == KNot {
		if x := normCount(t.args[0]); x != t.args[0] {
			return Not(x)
		}
		return t
	}
	if t.kind == KLt && t.args[0].sort == SReal {
		// count - n < 0
		if x := normCount(Le0(Neg(t.args[0]))); x.kind == KForall {
			return Not(x)
		}
		return t
	}
	if t.kind != KLe && t.kind != KEq || t.args[0].sort != SReal {
		return t
	}
	var sum *Term
	sign := 0
	rest := R(0)
	for _, m := range monosOf(t.args[0]) {
		if len(m.fs) == 1 && m.fs[0].e == 1 && m.fs[0].t.kind == KSum && sum == nil && new(big.Rat).Abs(m.c).Cmp(ratOne) == 0 {
			sum, sign = m.fs[0].t, m.c.Sign()
			continue
		}
		rest = Add(rest, polyOf(SReal, []Mono{m}))
	}
	if sum != nil && rest.isZero() && (sign > 0 || t.kind == KEq) {
		// none holds
		if _, all := countAll(sum); all != nil {
			return noneOf(sum)
		}
	}
	if sum == nil || sign > 0 && t.kind == KLe {
		return t
	}
	if sign > 0 {
		rest = Neg(rest)
	}
	n, all := countAll(sum)
	if n == nil || rest != n {
		return t
	}
	return all
}

// roots: two non-negative products with square roots in them are equal when their
// squares are.
func (p *prover) roots(pc *PC, d *Term) bool {
	ms := monosOf(d)
	if len(ms) != 2 || ms[0].c.Sign() == ms[1].c.Sign() || p.depth > 8 {
		return false
	}
	var sq [2]*Term
	some := false
	for i, m := range ms {
		sq[i] = mkRat(SReal, new(big.Rat).Mul(m.c, m.c))
		for _, f := range m.fs {
			if f.t.kind == KApp && f.t.name == "sqrt" {
				u := f.t.args[0]
				if f.e < 0 && !entails(pc, Gt(u, R(0))) || !entails(pc, Ge(u, R(0))) {
					return false
				}
				some = true
				sq[i] = Mul(sq[i], PowN(u, f.e))
				continue
			}
			if f.e%2 != 0 {
				if s, strict := p.atomSign(pc, f.t); s != 1 || f.e < 0 && !strict {
					return false
				}
			}
			sq[i] = Mul(sq[i], PowN(f.t, 2*f.e))
		}
	}
	if !some {
		return false
	}
	p.depth++
	defer func() { p.depth-- }()
	return p.eq(pc, sq[0], sq[1])
}

// noneOf: a (nested) sum of 0/1 indicators in which all are 0.
func noneOf(s *Term) *Term {
	if s.kind != KSum {
		if s.args[1].isOne() {
			return Not(s.args[0])
		}
		return s.args[0]
	}
	v := Fresh("ct", SInt)
	c := noneOf(openFold(s, v))
	return ForallT(s.args[0], func(q *Term) *Term { return subst1(c, v, q) })
}

// countAll: for a (nested) sum of 0/1 indicators, how many there are and the
// statement that all are 1.
func countAll(s *Term) (n, all *Term) {
	switch s.kind {
	case KIte:
		switch {
		case s.args[1].isOne() && s.args[2].isZero():
			return R(1), s.args[0]
		case s.args[1].isZero() && s.args[2].isOne():
			return R(1), Not(s.args[0])
		}
	case KSum:
		v := Fresh("ct", SInt)
		m, c := countAll(openFold(s, v))
		if m == nil || containsVar(m, v) {
			return nil, nil
		}
		return Mul(ToReal(s.args[0]), m), ForallT(s.args[0], func(q *Term) *Term { return subst1(c, v, q) })
	}
	return nil, nil
}

// congruence unifies atoms that are provably equal.
func (p *prover) congruence(pc *PC, d *Term) *Term {
	for round := 0; round < 6; round++ {
		var atoms []*Term
		seen := map[*Term]bool{}
		for _, m := range monosOf(d) {
			for _, f := range m.fs {
				if !seen[f.t] && f.t.kind != KVar && f.t.bvs == 0 {
					seen[f.t] = true
					atoms = append(atoms, f.t)
				}
			}
		}
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
		s := Subst{}
		for i := range atoms {
			if s[atoms[i]] != nil {
				continue
			}
			for j := 0; j < i; j++ {
				if s[atoms[j]] != nil {
					continue
				}
				if p.sameAtom(pc, atoms[j], atoms[i]) {
					s[atoms[i]] = atoms[j]
					break
				}
			}
		}
		if len(s) == 0 {
			return d
		}
		d = s.topApply(d)
	}
	return d
}

// topApply replaces atoms of the polynomial only.
func (s Subst) topApply(d *Term) *Term {
	acc := []*Term{mkRat(d.sort, ratZero)}
	for _, m := range monosOf(d) {
		x := mkRat(d.sort, m.c)
		for _, f := range m.fs {
			t := f.t
			if r := s[t]; r != nil {
				t = r
			}
			x = Mul(x, PowN(t, f.e))
		}
		acc = append(acc, x)
	}
	return Add(acc...)
}

// sameAtom: cheap proof that two atoms denote the same number.
func (p *prover) sameAtom(pc *PC, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.kind != b.kind || a.sort != b.sort || !p.spend() {
		return false
	}
	sub := &prover{fuel: p.fuel / 2, depth: p.depth + 4}
	defer func() { p.fuel -= 20 }()
	switch a.kind {
	case KApp:
		if a.name != b.name || len(a.args) != len(b.args) {
			return false
		}
		for i := range a.args {
			if a.args[i].sort == SInt {
				if !entails(pc, Eq(a.args[i], b.args[i])) {
					return false
				}
			} else if !sub.eq(pc, a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	case KSum, KMaxF, KMinF:
		if !entails(pc, Eq(a.args[0], b.args[0])) {
			return false
		}
		v := Fresh("k", SInt)
		q := pc.And(Ge(v, I(0))).And(Lt(v, a.args[0]))
		return sub.eq(q, openFold(a, v), openFold(b, v))
	case KPoly:
		return sub.eq(pc, a, b)
	case KIte:
		return entails(pc, And(Implies(a.args[0], b.args[0]), Implies(b.args[0], a.args[0]))) &&
			sub.eq(pc.And(a.args[0]), a.args[1], b.args[1]) && sub.eq(pc.And(Not(a.args[0])), a.args[2], b.args[2])
	}
	return false
}

/* ---------- sums ---------- */

type nest struct {
	his  []*Term
	vs   []*Term
	body *Term
}

// openNest turns coef * Sum Sum ... body into a multi-index sum.
func openNest(pc *PC, coef, s *Term) (nest, *PC) {
	n := nest{body: coef}
	for {
		v := Fresh("k", SInt)
		hi := s.args[0]
		n.his = append(n.his, hi)
		n.vs = append(n.vs, v)
		pc = pc.And(Ge(v, I(0))).And(Lt(v, hi))
		b := openFold(s, v)
		ms := monosOf(b)
		if len(ms) == 1 {
			// factor a single inner sum
			var inner *Term
			rest := mkRat(b.sort, ms[0].c)
			cnt := 0
			for _, f := range ms[0].fs {
				if f.t.kind == KSum && f.e == 1 {
					cnt++
					inner = f.t
				}
			}
			if cnt == 1 {
				for _, f := range ms[0].fs {
					if f.t != inner {
						rest = Mul(rest, PowN(f.t, f.e))
					}
				}
				n.body = Mul(n.body, rest)
				s = inner
				continue
			}
		}
		n.body = Mul(n.body, b)
		return n, pc
	}
}

// sums proves d == 0 by matching its sums index by index.
func (p *prover) sums(pc *PC, d *Term) bool {
	d = dropCommon(d)
	var nests []nest
	rest := []*Term{mkRat(d.sort, ratZero)}
	for _, m := range monosOf(d) {
		var s *Term
		coef := mkRat(d.sort, m.c)
		for _, f := range m.fs {
			if s == nil && f.t.kind == KSum && f.e == 1 {
				s = f.t
				continue
			}
			coef = Mul(coef, PowN(f.t, f.e))
		}
		if s == nil {
			rest = append(rest, mulMono(d.sort, m))
			continue
		}
		n, _ := openNest(pc, coef, s)
		nests = append(nests, n)
	}
	if len(nests) == 0 {
		return false
	}
	r := Add(rest...)
	// group by number of indices and bounds, aligning permuted ones
	var groups []nest
next:
	for _, n := range nests {
		for gi := range groups {
			if al, ok := alignNest(pc, groups[gi], n); ok {
				groups[gi].body = Add(groups[gi].body, al)
				continue next
			}
		}
		groups = append(groups, n)
	}
	if !r.isZero() {
		sub := &prover{fuel: p.fuel / 2, depth: p.depth + 2}
		if !sub.eq(pc, r, mkRat(d.sort, ratZero)) {
			if p.why == "" {
				p.why = "unmatched remainder " + r.String()
			}
			return false
		}
	}
	for _, g := range groups {
		q := pc
		for i := range g.vs {
			q = q.And(Ge(g.vs[i], I(0))).And(Lt(g.vs[i], g.his[i]))
		}
		if !p.eq(q, g.body, mkRat(d.sort, ratZero)) {
			return false
		}
	}
	return true
}

// dropCommon divides d by the sums all its monomials share.
func dropCommon(d *Term) *Term {
	ms := monosOf(d)
	if len(ms) < 2 {
		return d
	}
	common := map[*Term]int{}
	for _, f := range ms[0].fs {
		if f.t.kind == KSum && f.e > 0 {
			common[f.t] = f.e
		}
	}
	for _, m := range ms[1:] {
		have := map[*Term]int{}
		for _, f := range m.fs {
			have[f.t] = f.e
		}
		for t, e := range common {
			if h := have[t]; h < e {
				if h <= 0 {
					delete(common, t)
				} else {
					common[t] = h
				}
			}
		}
	}
	if len(common) == 0 {
		return d
	}
	acc := []*Term{mkRat(d.sort, ratZero)}
	for _, m := range ms {
		x := mkRat(d.sort, m.c)
		for _, f := range m.fs {
			if e := f.e - common[f.t]; e != 0 {
				x = Mul(x, PowN(f.t, e))
			}
		}
		acc = append(acc, x)
	}
	return Add(acc...)
}

func mulMono(s Sort, m Mono) *Term { return polyOf(s, []Mono{m}) }

// alignNest renames n's indices to g's, trying every matching of equal bounds.
func alignNest(pc *PC, g, n nest) (*Term, bool) {
	if len(g.vs) != len(n.vs) {
		return nil, false
	}
	k := len(g.vs)
	used := make([]bool, k)
	perm := make([]int, k) // n index i -> g index perm[i]
	var found []*Term
	var rec func(i int)
	rec = func(i int) {
		if i == k {
			// bounds after renaming
			s := Subst{}
			for x := range perm {
				s[n.vs[x]] = g.vs[perm[x]]
			}
			for x := range perm {
				if !entails(pc, Eq(s.apply(n.his[x]), g.his[perm[x]])) {
					return
				}
			}
			found = append(found, s.apply(n.body))
			return
		}
		for j := 0; j < k; j++ {
			if used[j] {
				continue
			}
			used[j] = true
			perm[i] = j
			rec(i + 1)
			used[j] = false
		}
	}
	rec(0)
	if len(found) == 0 {
		return nil, false
	}
	// prefer the renaming that cancels
	best := found[0]
	for _, f := range found {
		if Add(g.body, f).isZero() {
			return f, true
		}
		if len(monosOf(Add(g.body, f))) < len(monosOf(Add(g.body, best))) {
			best = f
		}
	}
	return best, true
}

/* ---------- analytic identities ---------- */

// analytic expresses hyperbolic and trigonometric atoms through exp, sin, cos.
func analytic(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.kind == KPoly {
			acc := []*Term{mkRat(t.sort, ratZero)}
			for _, m := range t.mons {
				x := mkRat(t.sort, m.c)
				for _, f := range m.fs {
					y := rec(f.t)
					if y.kind == KApp && y.name == "sqrt" && (f.e >= 2 || f.e <= -2) {
						x = Mul(x, PowN(y.args[0], f.e/2))
						if f.e%2 != 0 {
							x = Mul(x, PowN(y, f.e%2))
						}
						continue
					}
					if y.kind == KApp && y.name == "sin" && f.e >= 2 {
						c := fn1("cos", y.args[0])
						x = Mul(x, PowN(Sub(R(1), Mul(c, c)), f.e/2))
						if f.e%2 != 0 {
							x = Mul(x, y)
						}
						continue
					}
					x = Mul(x, PowN(y, f.e))
				}
				acc = append(acc, x)
			}
			r = Add(acc...)
		} else {
			r = rebuild(t, rec)
		}
		if r.kind == KApp && len(r.args) == 1 {
			x := r.args[0]
			switch r.name {
			case "tanh":
				e := Exp(ScaleT(big.NewRat(2, 1), x))
				r = Div(Sub(e, R(1)), Add(e, R(1)))
			case "cosh":
				r = ScaleT(big.NewRat(1, 2), Add(Exp(x), Exp(Neg(x))))
			case "sinh":
				r = ScaleT(big.NewRat(1, 2), Sub(Exp(x), Exp(Neg(x))))
			case "tan":
				r = Div(fn1("sin", x), fn1("cos", x))
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// clearDenominators multiplies d by the powers it divides by (all non-zero where
// d is defined), outside folds.
func clearDenominators(d *Term) *Term {
	for round := 0; round < 12; round++ {
		neg := map[*Term]int{}
		for _, m := range monosOf(d) {
			for _, f := range m.fs {
				if f.e < 0 && -f.e > neg[f.t] {
					neg[f.t] = -f.e
				}
			}
		}
		if len(neg) == 0 {
			return d
		}
		var ks []*Term
		for k := range neg {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			// multiply monomial-wise: a factor k^-e cancels exactly
			acc := []*Term{mkRat(d.sort, ratZero)}
			for _, m := range monosOf(d) {
				e := neg[k]
				x := mkRat(d.sort, m.c)
				for _, f := range m.fs {
					if f.t == k {
						e += f.e
						continue
					}
					x = Mul(x, polyOf(d.sort, []Mono{{c: ratOne, fs: []Factor{f}}}))
				}
				x = Mul(x, PowN(k, e))
				acc = append(acc, x)
			}
			d = Add(acc...)
		}
	}
	return d
}

/* ---------- signs ---------- */

// sign proves t <= 0 / t < 0 from the signs of monomials.
func (p *prover) sign(pc *PC, goal *Term) bool {
	t := goal.args[0]
	if t.sort != SReal {
		return false
	}
	strict := goal.kind == KLt
	any := false
	for _, m := range monosOf(t) {
		s, ok := p.monoSign(pc, m)
		if !ok || s > 0 {
			return false
		}
		if s < 0 {
			any = true
		}
	}
	return !strict || any
}

// monoSign: -1 negative, 0 non-positive, 1 positive / unknown
func (p *prover) monoSign(pc *PC, m Mono) (int, bool) {
	s := m.c.Sign()
	strict := true
	for _, f := range m.fs {
		if f.e%2 == 0 {
			if !entails(pc, Ne(f.t, R(0))) {
				strict = false
			}
			continue
		}
		g, st := p.atomSign(pc, f.t)
		if g == 0 {
			return 0, false
		}
		s *= g
		strict = strict && st
	}
	if s > 0 {
		return 1, true
	}
	if strict {
		return -1, true
	}
	return 0, true
}

// atomSign: +1 if >= 0, -1 if <= 0 (0 unknown); strict if never zero.
func (p *prover) atomSign(pc *PC, t *Term) (int, bool) {
	if t.kind == KSum {
		v := Fresh("k", SInt)
		q := pc.And(Ge(v, I(0))).And(Lt(v, t.args[0]))
		b := openFold(t, v)
		sub := &prover{fuel: p.fuel / 2, depth: p.depth + 2}
		if sub.prove(q, Ge(b, R(0))) {
			st := entails(pc, Ge(t.args[0], I(1))) && sub.prove(q, Gt(b, R(0)))
			return 1, st
		}
		if sub.prove(q, Le(b, R(0))) {
			st := entails(pc, Ge(t.args[0], I(1))) && sub.prove(q, Lt(b, R(0)))
			return -1, st
		}
		return 0, false
	}
	if entails(pc, Ge(t, R(0))) {
		return 1, entails(pc, Gt(t, R(0)))
	}
	if entails(pc, Le(t, R(0))) {
		return -1, entails(pc, Lt(t, R(0)))
	}
	return 0, false
}
