package main

// Terms: hash-consed integer / real / boolean expressions in a normal form.
// Arithmetic is kept as Laurent polynomials over atoms; folds (sum, max, min)
// bind an index variable that ranges over [0, hi).

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SReal
	SBool
)

func (s Sort) String() string { return [...]string{"Int", "Real", "Bool"}[s] }

type Kind uint8

const (
	KNum    Kind = iota // rational constant (SInt or SReal)
	KBool               // true / false
	KVar                // free variable
	KBV                 // bound variable, identified by binder height
	KApp                // uninterpreted / named function application
	KPoly               // sum of monomials
	KIte                // if-then-else
	KLe                 // args[0] <= 0
	KLt                 // args[0] <  0 (reals only)
	KEq                 // args[0] == 0
	KAnd                // conjunction
	KOr                 // disjunction
	KNot                // negation (of KEq, KVar, KApp, KForall)
	KSum                // sum_{b<args[0]} args[1]
	KMaxF               // max_{b<args[0]} args[1]
	KMinF               // min_{b<args[0]} args[1]
	KForall             // forall b<args[0]. args[1]
)

type Factor struct {
	t *Term
	e int
}
type Mono struct {
	c  *big.Rat
	fs []Factor
}

type Term struct {
	kind Kind
	sort Sort
	id   int
	name string
	num  *big.Rat
	b    bool
	args []*Term
	mons []Mono
	h    int    // 1 + height of the tallest binder inside (0: none)
	bvs  uint64 // free bound-variable heights (bit set)
	nf   bool   // contains a free KVar
	neg  *Term  // cached negation
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	termKeys []string
	ratZero  = big.NewRat(0, 1)
	ratOne   = big.NewRat(1, 1)
)

func intern(key string, t *Term) *Term {
	if o, ok := termTab[key]; ok {
		return o
	}
	t.id = len(termList)
	for _, a := range t.args {
		if a.h > t.h {
			t.h = a.h
		}
		t.bvs |= a.bvs
		t.nf = t.nf || a.nf
	}
	for _, m := range t.mons {
		for _, f := range m.fs {
			if f.t.h > t.h {
				t.h = f.t.h
			}
			t.bvs |= f.t.bvs
			t.nf = t.nf || f.t.nf
		}
	}
	switch t.kind {
	case KBV:
		t.bvs = 1 << uint(t.b2h())
	case KVar:
		t.nf = true
	case KSum, KMaxF, KMinF, KForall:
		h := int(t.num.Num().Int64())
		t.bvs = t.args[0].bvs | (t.args[1].bvs &^ (1 << uint(h)))
		if h+1 > t.h {
			t.h = h + 1
		}
	}
	termTab[key] = t
	termList = append(termList, t)
	termKeys = append(termKeys, key)
	return t
}

// engineMark and resetEngine bring the engine back to the state it had before the
// first unit, so that a unit's outcome does not depend on those run before it.
type engineMark struct{ terms, fam, fresh, err int }

func markEngine() engineMark { return engineMark{len(termList), famN, freshN, errN} }

func resetEngine(m engineMark) {
	for i := m.terms; i < len(termList); i++ {
		delete(termTab, termKeys[i])
		termList[i] = nil
	}
	termList, termKeys = termList[:m.terms], termKeys[:m.terms]
	for _, t := range termList {
		t.neg = nil
	}
	famN, freshN, errN, pcN = m.fam, m.fresh, m.err, 0
	for g, f := range globalFams {
		if f.id > m.fam {
			delete(globalFams, g)
		}
	}
	eqCache = map[int]*eqCtx{}
	simpCache = map[simpKey]*Term{}
	smtStr = map[*Term]string{}
	forallMemo = map[*Term]bool{}
	entCache = map[qkey]bool{}
	declDone = map[*solver]map[*Term]bool{}
	if theSolver != nil {
		theSolver.close()
		theSolver = nil
	}
	if theQuantSolver != nil {
		theQuantSolver.close()
		theQuantSolver = nil
	}
}

func (t *Term) b2h() int { return int(t.num.Num().Int64()) }

func argKey(args []*Term) string {
	var sb strings.Builder
	for _, a := range args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	return sb.String()
}

func mkRat(s Sort, r *big.Rat) *Term {
	return intern("n"+strconv.Itoa(int(s))+r.String(), &Term{kind: KNum, sort: s, num: r})
}
func I(n int64) *Term     { return mkRat(SInt, big.NewRat(n, 1)) }
func R(n int64) *Term     { return mkRat(SReal, big.NewRat(n, 1)) }
func RQ(a, b int64) *Term { return mkRat(SReal, big.NewRat(a, b)) }

// RF is the real a float constant stands for: its shortest decimal form, so that
// 1 - 1e-12 means the same computed by the compiler and on real numbers.
func RF(f float64) *Term {
	r, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64))
	if !ok {
		panic("non-finite constant")
	}
	return mkRat(SReal, r)
}

func B(b bool) *Term {
	return intern("b"+strconv.FormatBool(b), &Term{kind: KBool, sort: SBool, b: b})
}

var tTrue, tFalse = B(true), B(false)

func V(name string, s Sort) *Term {
	return intern("v"+strconv.Itoa(int(s))+name, &Term{kind: KVar, sort: s, name: name})
}

var freshN int

func Fresh(prefix string, s Sort) *Term {
	freshN++
	return V(fmt.Sprintf("%s!%d", prefix, freshN), s)
}

func bv(h int) *Term {
	return intern("B"+strconv.Itoa(h), &Term{kind: KBV, sort: SInt, num: big.NewRat(int64(h), 1)})
}

func mkApp(name string, s Sort, args ...*Term) *Term {
	return intern("a"+strconv.Itoa(int(s))+name+"("+argKey(args), &Term{kind: KApp, sort: s, name: name, args: args})
}

// NegInf / PosInf only ever appear as identities of max / min folds.
var NegInf = mkApp("-inf", SReal)
var PosInf = mkApp("+inf", SReal)

func (t *Term) isNum() bool { return t.kind == KNum }
func (t *Term) isZero() bool {
	return t.kind == KNum && t.num.Sign() == 0
}
func (t *Term) isOne() bool {
	return t.kind == KNum && t.num.Cmp(ratOne) == 0
}
func (t *Term) intVal() (int, bool) {
	if t.kind == KNum && t.num.IsInt() && t.num.Num().IsInt64() {
		return int(t.num.Num().Int64()), true
	}
	return 0, false
}

/* ---------- polynomials ---------- */

func monoKey(fs []Factor) string {
	var sb strings.Builder
	for _, f := range fs {
		sb.WriteString(strconv.Itoa(f.t.id))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(f.e))
		sb.WriteByte('*')
	}
	return sb.String()
}

func monosOf(t *Term) []Mono {
	switch t.kind {
	case KNum:
		if t.num.Sign() == 0 {
			return nil
		}
		return []Mono{{c: t.num}}
	case KPoly:
		return t.mons
	}
	return []Mono{{c: ratOne, fs: []Factor{{t, 1}}}}
}

func polyOf(s Sort, ms []Mono) *Term {
	// combine like monomials
	idx := map[string]int{}
	var out []Mono
	keys := []string{}
	for _, m := range ms {
		if m.c.Sign() == 0 {
			continue
		}
		k := monoKey(m.fs)
		if i, ok := idx[k]; ok {
			out[i] = Mono{c: new(big.Rat).Add(out[i].c, m.c), fs: out[i].fs}
		} else {
			idx[k] = len(out)
			out = append(out, m)
			keys = append(keys, k)
		}
	}
	type mk struct {
		m Mono
		k string
	}
	var l []mk
	for i, m := range out {
		if m.c.Sign() != 0 {
			l = append(l, mk{m, keys[i]})
		}
	}
	if len(l) == 0 {
		return mkRat(s, ratZero)
	}
	if len(l) == 1 {
		m := l[0].m
		if len(m.fs) == 0 {
			return mkRat(s, m.c)
		}
		if len(m.fs) == 1 && m.fs[0].e == 1 && m.c.Cmp(ratOne) == 0 {
			return m.fs[0].t
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
	var sb strings.Builder
	sb.WriteString("p")
	sb.WriteString(strconv.Itoa(int(s)))
	res := make([]Mono, len(l))
	for i, x := range l {
		res[i] = x.m
		sb.WriteString(x.m.c.String())
		sb.WriteByte('|')
		sb.WriteString(x.k)
		sb.WriteByte('+')
	}
	return intern(sb.String(), &Term{kind: KPoly, sort: s, mons: res})
}

func Add(ts ...*Term) *Term {
	var ms []Mono
	s := ts[0].sort
	for _, t := range ts {
		if t.sort != s {
			panic("Add: mixed sorts " + t.String() + " / " + ts[0].String())
		}
		ms = append(ms, monosOf(t)...)
	}
	return polyOf(s, ms)
}

func ScaleT(c *big.Rat, t *Term) *Term {
	if c.Sign() == 0 {
		return mkRat(t.sort, ratZero)
	}
	src := monosOf(t)
	ms := make([]Mono, len(src))
	for i, m := range src {
		ms[i] = Mono{c: new(big.Rat).Mul(c, m.c), fs: m.fs}
	}
	return polyOf(t.sort, ms)
}
func Neg(t *Term) *Term    { return ScaleT(big.NewRat(-1, 1), t) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func mulFactors(a, b []Factor) []Factor {
	out := make([]Factor, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].t.id < b[j].t.id):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].t.id < a[i].t.id:
			out = append(out, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				out = append(out, Factor{a[i].t, e})
			}
			i++
			j++
		}
	}
	return out
}

func Mul(a, b *Term) *Term {
	if a.sort != b.sort {
		panic("Mul: mixed sorts " + a.String() + " * " + b.String())
	}
	if a.isZero() || b.isOne() {
		return a
	}
	if b.isZero() || a.isOne() {
		return b
	}
	// whole-term cancellation of P * P^-k
	if r := cancelPoly(a, b); r != nil {
		return r
	}
	if r := cancelPoly(b, a); r != nil {
		return r
	}
	ma, mb := monosOf(a), monosOf(b)
	ms := make([]Mono, 0, len(ma)*len(mb))
	for _, x := range ma {
		for _, y := range mb {
			ms = append(ms, Mono{c: new(big.Rat).Mul(x.c, y.c), fs: mulFactors(x.fs, y.fs)})
		}
	}
	r := polyOf(a.sort, ms)
	return r
}

func cancelPoly(a, b *Term) *Term {
	if a.kind != KPoly || len(a.mons) < 2 || a.sort != SReal {
		return nil
	}
	mb := monosOf(b)
	if len(mb) != 1 {
		return nil
	}
	lead := a.mons[0].c
	n := ScaleT(new(big.Rat).Inv(lead), a)
	for i, f := range mb[0].fs {
		if f.t == n && f.e < 0 {
			fs := append([]Factor{}, mb[0].fs[:i]...)
			if f.e+1 != 0 {
				fs = append(fs, Factor{f.t, f.e + 1})
			}
			fs = append(fs, mb[0].fs[i+1:]...)
			return polyOf(SReal, []Mono{{c: new(big.Rat).Mul(lead, mb[0].c), fs: fs}})
		}
	}
	return nil
}

func MulN(ts ...*Term) *Term {
	r := ts[0]
	for _, t := range ts[1:] {
		r = Mul(r, t)
	}
	return r
}

// Inv is the multiplicative inverse of a real term.
func Inv(t *Term) *Term {
	if t.isZero() {
		return mkApp("inv0", SReal)
	}
	ms := monosOf(t)
	if len(ms) == 1 {
		fs := make([]Factor, len(ms[0].fs))
		for i, f := range ms[0].fs {
			fs[i] = Factor{f.t, -f.e}
		}
		return polyOf(SReal, []Mono{{c: new(big.Rat).Inv(ms[0].c), fs: fs}})
	}
	lead := ms[0].c
	n := ScaleT(new(big.Rat).Inv(lead), t)
	return polyOf(SReal, []Mono{{c: new(big.Rat).Inv(lead), fs: []Factor{{n, -1}}}})
}
func Div(a, b *Term) *Term { return Mul(a, Inv(b)) }

func PowN(t *Term, n int) *Term {
	if n < 0 {
		return PowN(Inv(t), -n)
	}
	r := mkRat(t.sort, ratOne)
	for i := 0; i < n; i++ {
		r = Mul(r, t)
	}
	return r
}

// PowR is math.Pow(x, a).
func PowR(x, a *Term) *Term {
	if n, ok := a.intVal(); ok && n >= -8 && n <= 8 {
		return PowN(x, n)
	}
	if x.isOne() {
		return x
	}
	return mkApp("pow", SReal, x, a)
}

func ToReal(t *Term) *Term {
	if t.sort == SReal {
		return t
	}
	switch t.kind {
	case KNum:
		return mkRat(SReal, t.num)
	case KPoly:
		ms := make([]Mono, 0, len(t.mons))
		acc := R(0)
		for _, m := range t.mons {
			p := mkRat(SReal, m.c)
			for _, f := range m.fs {
				p = Mul(p, PowN(ToReal(f.t), f.e))
			}
			acc = Add(acc, p)
		}
		_ = ms
		return acc
	case KIte:
		return Ite(t.args[0], ToReal(t.args[1]), ToReal(t.args[2]))
	case KSum:
		v := Fresh("o", SInt)
		return mkFold(KSum, v, t.args[0], ToReal(openFold(t, v)))
	case KApp:
		if t.name == "trunc" && integerValued(t.args[0]) {
			return t.args[0]
		}
	}
	return mkApp("real", SReal, t)
}

// Trunc is the conversion of a float to int.
func Trunc(t *Term) *Term {
	if t.isNum() && t.num.IsInt() {
		return mkRat(SInt, t.num)
	}
	if t.kind == KApp && t.name == "real" {
		return t.args[0]
	}
	return mkApp("trunc", SInt, t)
}

func integerValued(t *Term) bool {
	switch t.kind {
	case KNum:
		return t.num.IsInt()
	case KIte:
		return integerValued(t.args[1]) && integerValued(t.args[2])
	case KSum:
		return integerValued(t.args[1])
	case KApp:
		return t.name == "real"
	case KPoly:
		for _, m := range t.mons {
			if !m.c.IsInt() {
				return false
			}
			for _, f := range m.fs {
				if f.e < 0 || !integerValued(f.t) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// Exp normalises exp of a sum to a product of powers of basic exponentials.
func Exp(t *Term) *Term {
	if t.isZero() {
		return R(1)
	}
	r := R(1)
	for _, m := range monosOf(t) {
		n := new(big.Rat).SetFrac(big.NewInt(1), m.c.Denom())
		base := polyOf(SReal, []Mono{{c: n, fs: m.fs}})
		k := m.c.Num()
		if !k.IsInt64() || k.Int64() > 64 || k.Int64() < -64 {
			base = polyOf(SReal, []Mono{m})
			k = big.NewInt(1)
		}
		if l := base; l.kind == KApp && l.name == "log" {
			r = Mul(r, PowN(l.args[0], int(k.Int64())))
			continue
		}
		r = Mul(r, PowN(mkApp("exp", SReal, base), int(k.Int64())))
	}
	return r
}

func fn1(name string, t *Term) *Term {
	switch name {
	case "exp":
		return Exp(t)
	case "log":
		if t.isOne() {
			return R(0)
		}
	case "sin", "tan", "sinh", "tanh":
		if t.isZero() {
			return t
		}
		if m := monosOf(t); len(m) > 0 && m[0].c.Sign() < 0 {
			return Neg(fn1(name, Neg(t)))
		}
	case "cos", "cosh":
		if t.isZero() {
			return R(1)
		}
		if m := monosOf(t); len(m) > 0 && m[0].c.Sign() < 0 {
			return fn1(name, Neg(t))
		}
	case "sqrt":
		if t.isZero() || t.isOne() {
			return t
		}
	}
	return mkApp(name, SReal, t)
}

func MaxT(a, b *Term) *Term { return minmax("max", NegInf, PosInf, a, b) }
func MinT(a, b *Term) *Term { return minmax("min", PosInf, NegInf, a, b) }
func minmax(name string, unit, zero, a, b *Term) *Term {
	set := map[*Term]bool{}
	var l []*Term
	var num *Term
	var add func(t *Term)
	add = func(t *Term) {
		if t == unit {
			return
		}
		if t.kind == KApp && t.name == name {
			for _, x := range t.args {
				add(x)
			}
			return
		}
		if t.isNum() {
			if num == nil || (name == "max" && t.num.Cmp(num.num) > 0) || (name == "min" && t.num.Cmp(num.num) < 0) {
				num = t
			}
			return
		}
		if !set[t] {
			set[t] = true
			l = append(l, t)
		}
	}
	add(a)
	add(b)
	if num != nil {
		l = append(l, num)
	}
	if set[zero] {
		return zero
	}
	if len(l) == 0 {
		return unit
	}
	if len(l) == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return mkApp(name, a.sort, l...)
}

func AbsT(a *Term) *Term {
	if a.isNum() {
		return mkRat(a.sort, new(big.Rat).Abs(a.num))
	}
	if m := monosOf(a); m[0].c.Sign() < 0 {
		a = Neg(a)
	}
	return mkApp("abs", a.sort, a)
}

/* ---------- booleans ---------- */

func normCmp(t *Term) *Term {
	// divide by a positive constant so that equal constraints are identical
	ms := monosOf(t)
	if len(ms) == 0 {
		return t
	}
	var g *big.Rat
	if t.sort == SReal {
		for _, m := range ms {
			if len(m.fs) > 0 {
				g = new(big.Rat).Abs(m.c)
				break
			}
		}
		if g == nil {
			return t
		}
		return ScaleT(new(big.Rat).Inv(g), t)
	}
	return t
}

// fromReal: a positive multiple of t as an integer term, when t is built from
// integers only.
func fromReal(t *Term) *Term {
	if t.sort != SReal {
		return nil
	}
	l := big.NewInt(1)
	for _, m := range monosOf(t) {
		d := m.c.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Mul(l, new(big.Int).Quo(d, g))
	}
	acc := []*Term{I(0)}
	for _, m := range monosOf(t) {
		x := mkRat(SInt, new(big.Rat).Mul(m.c, new(big.Rat).SetInt(l)))
		for _, f := range m.fs {
			if f.e < 0 || f.t.kind != KApp || f.t.name != "real" {
				return nil
			}
			x = Mul(x, PowN(f.t.args[0], f.e))
		}
		acc = append(acc, x)
	}
	return Add(acc...)
}

// isLen: the length of a caller's slice, never negative.
func isLen(t *Term) bool { return t.kind == KApp && t.sort == SInt && strings.HasPrefix(t.name, "len") }

// lenCmp decides n + c <= 0 and c - n <= 0 for a length n where its sign does.
func lenCmp(t *Term) *Term {
	c := new(big.Rat)
	var n *Term
	neg := false
	for _, m := range monosOf(t) {
		switch {
		case len(m.fs) == 0:
			c = m.c
		case n == nil && len(m.fs) == 1 && m.fs[0].e == 1 && isLen(m.fs[0].t) && m.c.IsInt() && m.c.Num().IsInt64() && (m.c.Num().Int64() == 1 || m.c.Num().Int64() == -1):
			n, neg = m.fs[0].t, m.c.Sign() < 0
		default:
			return nil
		}
	}
	switch {
	case n == nil:
	case neg && c.Sign() <= 0:
		return tTrue
	case neg && c.Cmp(big.NewRat(1, 1)) == 0:
		return Not(Eq(n, I(0)))
	case !neg && c.Sign() > 0:
		return tFalse
	case !neg && c.Sign() == 0:
		return Eq(n, I(0))
	}
	return nil
}

// iteConst: t is a number plus a multiple of a choice between numbers; cmp
// compares what it may be.
func iteConst(t *Term, cmp func(*Term) *Term) *Term {
	if t.kind != KPoly && t.kind != KIte {
		return nil
	}
	ms := monosOf(t)
	if len(ms) > 2 {
		return nil
	}
	k := mkRat(t.sort, ratZero)
	var it *Term
	var c *big.Rat
	for _, m := range ms {
		switch {
		case len(m.fs) == 0:
			k = mkRat(t.sort, m.c)
		case len(m.fs) == 1 && m.fs[0].e == 1 && m.fs[0].t.kind == KIte && it == nil:
			it, c = m.fs[0].t, m.c
		default:
			return nil
		}
	}
	if it == nil || !it.args[1].isNum() || !it.args[2].isNum() {
		return nil
	}
	x, y := cmp(Add(k, ScaleT(c, it.args[1]))), cmp(Add(k, ScaleT(c, it.args[2])))
	switch {
	case x == y:
		return x
	case x.b:
		return it.args[0]
	}
	return Not(it.args[0])
}

// Le0: t <= 0
func Le0(t *Term) *Term {
	if t.isNum() {
		return B(t.num.Sign() <= 0)
	}
	if r := iteConst(t, Le0); r != nil {
		return r
	}
	if i := fromReal(t); i != nil {
		return Le0(i)
	}
	if t.sort == SInt {
		// tighten: g*p + c <= 0  =>  p + ceil(c/g) <= 0
		var g *big.Int
		c := new(big.Rat)
		for _, m := range monosOf(t) {
			if len(m.fs) == 0 {
				c = m.c
				continue
			}
			n := new(big.Int).Abs(m.c.Num())
			if g == nil {
				g = n
			} else {
				g = new(big.Int).GCD(nil, nil, g, n)
			}
		}
		if g != nil && g.Cmp(big.NewInt(1)) > 0 {
			p := Sub(t, mkRat(SInt, c))
			p = ScaleT(new(big.Rat).SetFrac(big.NewInt(1), g), p)
			q := new(big.Rat).Quo(c, new(big.Rat).SetInt(g))
			// ceil
			fl := new(big.Int).Div(q.Num(), q.Denom())
			if !q.IsInt() {
				fl.Add(fl, big.NewInt(1))
			}
			t = Add(p, mkRat(SInt, new(big.Rat).SetInt(fl)))
		}
		if r := lenCmp(t); r != nil {
			return r
		}
	} else {
		t = normCmp(t)
	}
	return intern("<="+strconv.Itoa(t.id), &Term{kind: KLe, sort: SBool, args: []*Term{t}})
}

// Lt0: t < 0
func Lt0(t *Term) *Term {
	if t.isNum() {
		return B(t.num.Sign() < 0)
	}
	if t.sort == SInt {
		return Le0(Add(t, I(1)))
	}
	if r := iteConst(t, Lt0); r != nil {
		return r
	}
	if i := fromReal(t); i != nil {
		return Lt0(i)
	}
	t = normCmp(t)
	return intern("<"+strconv.Itoa(t.id), &Term{kind: KLt, sort: SBool, args: []*Term{t}})
}
func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Lt0(Sub(a, b)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort == SBool {
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	return Eq0(Sub(a, b))
}
func Eq0(t *Term) *Term {
	if t.isNum() {
		return B(t.num.Sign() == 0)
	}
	if i := fromReal(t); i != nil {
		return Eq0(i)
	}
	if r := iteConst(t, Eq0); r != nil {
		return r
	}
	if t.kind == KIte && (t.args[1].isNum() || t.args[2].isNum()) {
		return Or(And(t.args[0], Eq0(t.args[1])), And(Not(t.args[0]), Eq0(t.args[2])))
	}
	ms := monosOf(t)
	// normalise sign / scale by the first non-constant monomial in order of atom age
	best := -1
	for i, m := range ms {
		if len(m.fs) > 0 && (best < 0) {
			best = i
		}
	}
	if best >= 0 {
		c := ms[best].c
		if t.sort == SReal {
			t = ScaleT(new(big.Rat).Inv(c), t)
		} else {
			// divide by gcd, fix sign
			g := new(big.Int)
			for _, m := range ms {
				g.GCD(nil, nil, g, new(big.Int).Abs(m.c.Num()))
			}
			f := new(big.Rat).SetFrac(big.NewInt(1), g)
			if c.Sign() < 0 {
				f.Neg(f)
			}
			t = ScaleT(f, t)
		}
	}
	return intern("=="+strconv.Itoa(t.id), &Term{kind: KEq, sort: SBool, args: []*Term{t}})
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Not(t *Term) *Term {
	if t.neg == nil {
		t.neg = not1(t)
	}
	return t.neg
}

func not1(t *Term) *Term {
	switch t.kind {
	case KBool:
		return B(!t.b)
	case KNot:
		return t.args[0]
	case KLe:
		if t.args[0].sort == SInt {
			return Le0(Add(Neg(t.args[0]), I(1)))
		}
		return Lt0(Neg(t.args[0]))
	case KLt:
		return Le0(Neg(t.args[0]))
	case KAnd:
		l := make([]*Term, len(t.args))
		for i, a := range t.args {
			l[i] = Not(a)
		}
		return Or(l...)
	case KOr:
		l := make([]*Term, len(t.args))
		for i, a := range t.args {
			l[i] = Not(a)
		}
		return And(l...)
	}
	return intern("!"+strconv.Itoa(t.id), &Term{kind: KNot, sort: SBool, args: []*Term{t}})
}

func nary(kind Kind, unit bool, ts []*Term) *Term {
	set := map[*Term]bool{}
	var l []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.kind == KBool {
			return t.b == unit
		}
		if t.kind == kind {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if set[t] {
			return true
		}
		if set[Not(t)] {
			return false
		}
		set[t] = true
		l = append(l, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return B(!unit)
		}
	}
	// absorption: x op (.. x .. dual) and  x op (not x dual y) = x op y
	changed := true
	for changed {
		changed = false
		dual := KOr
		if kind == KOr {
			dual = KAnd
		}
		for i, t := range l {
			if t.kind != dual {
				continue
			}
			var keep []*Term
			drop, shrink := false, false
			for _, a := range t.args {
				if set[a] && a != t {
					drop = true
					break
				}
				if set[Not(a)] {
					shrink = true
					continue
				}
				keep = append(keep, a)
			}
			if drop {
				delete(set, t)
				l = append(l[:i:i], l[i+1:]...)
				changed = true
				break
			}
			if shrink {
				delete(set, t)
				l = append(l[:i:i], l[i+1:]...)
				n := nary(dual, kind == KOr, keep)
				if !add(n) {
					return B(!unit)
				}
				changed = true
				break
			}
		}
	}
	// (a op c) dual (a op !c) = a for two-element lists
	if len(l) == 2 && l[0].kind == l[1].kind && (l[0].kind == KAnd || l[0].kind == KOr) {
		if r := resolve2(l[0], l[1]); r != nil {
			return r
		}
	}
	if len(l) == 0 {
		return B(unit)
	}
	if len(l) == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	k := "&"
	if kind == KOr {
		k = "|"
	}
	return intern(k+argKey(l), &Term{kind: kind, sort: SBool, args: l})
}

func resolve2(a, b *Term) *Term {
	sa := map[*Term]bool{}
	for _, x := range a.args {
		sa[x] = true
	}
	if len(a.args) != len(b.args) {
		return nil
	}
	var diff *Term
	var common []*Term
	for _, x := range b.args {
		if sa[x] {
			common = append(common, x)
			continue
		}
		if diff != nil || !sa[Not(x)] {
			return nil
		}
		diff = x
	}
	if diff == nil {
		return a
	}
	if a.kind == KAnd {
		return And(common...)
	}
	return Or(common...)
}

func And(ts ...*Term) *Term    { return nary(KAnd, true, ts) }
func Or(ts ...*Term) *Term     { return nary(KOr, false, ts) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c.kind == KBool {
		if c.b {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		return Or(And(c, a), And(Not(c), b))
	}
	// nested same condition
	if a.kind == KIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.kind == KIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if b.kind == KIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if b.kind == KIte && b.args[2] == a {
		return Ite(Or(c, Not(b.args[0])), a, b.args[1])
	}
	if a.kind == KIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	if a.kind == KIte && a.args[1] == b {
		return Ite(And(c, Not(a.args[0])), a.args[2], b)
	}
	// min / max recognition
	if c.kind == KLe || c.kind == KLt {
		switch c {
		case Le(b, a), Lt(b, a):
			return MaxT(a, b)
		case Le(a, b), Lt(a, b):
			return MinT(a, b)
		}
	}
	// canonical polarity for negations
	if nc := Not(c); nc.id < c.id || c.kind == KNot {
		if c.kind == KNot || nc.kind != KNot {
			c, a, b = nc, b, a
		}
	}
	return intern("?"+argKey([]*Term{c, a, b}), &Term{kind: KIte, sort: a.sort, args: []*Term{c, a, b}})
}

/* ---------- substitution ---------- */

type Subst map[*Term]*Term

func (s Subst) apply(t *Term) *Term {
	if len(s) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	return substM(t, s, memo)
}

func subst1(t, v, e *Term) *Term {
	if v == e {
		return t
	}
	return Subst{v: e}.apply(t)
}

func substM(t *Term, s Subst, memo map[*Term]*Term) *Term {
	if !t.nf && t.kind != KApp && t.bvs == 0 {
		return t
	}
	if r, ok := s[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := rebuild(t, func(a *Term) *Term { return substM(a, s, memo) })
	memo[t] = r
	return r
}

// rebuild re-normalises t with every immediate subterm mapped by f. Fold bodies
// are opened with a fresh variable first, so f never sees the fold's own index.
func rebuild(t *Term, f func(*Term) *Term) *Term {
	switch t.kind {
	case KNum, KBool, KVar, KBV:
		return t
	case KPoly:
		changed := false
		n := map[*Term]*Term{}
		for _, m := range t.mons {
			for _, x := range m.fs {
				if _, ok := n[x.t]; !ok {
					y := f(x.t)
					n[x.t] = y
					if y != x.t {
						changed = true
					}
				}
			}
		}
		if !changed {
			return t
		}
		acc := []*Term{mkRat(t.sort, ratZero)}
		for _, m := range t.mons {
			p := mkRat(t.sort, m.c)
			for _, x := range m.fs {
				p = Mul(p, PowN(n[x.t], x.e))
			}
			acc = append(acc, p)
		}
		return Add(acc...)
	case KSum, KMaxF, KMinF, KForall:
		hi := f(t.args[0])
		v := Fresh("o", SInt)
		body := f(openFold(t, v))
		return mkFold(t.kind, v, hi, body)
	}
	args := make([]*Term, len(t.args))
	changed := false
	for i, a := range t.args {
		args[i] = f(a)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	switch t.kind {
	case KApp:
		return reApp(t, args)
	case KIte:
		return Ite(args[0], args[1], args[2])
	case KLe:
		return Le0(args[0])
	case KLt:
		return Lt0(args[0])
	case KEq:
		return Eq0(args[0])
	case KAnd:
		return And(args...)
	case KOr:
		return Or(args...)
	case KNot:
		return Not(args[0])
	}
	panic("rebuild")
}

func reApp(t *Term, args []*Term) *Term {
	switch t.name {
	case "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "sqrt":
		return fn1(t.name, args[0])
	case "pow":
		return PowR(args[0], args[1])
	case "abs":
		return AbsT(args[0])
	case "max", "min":
		r := args[0]
		for _, a := range args[1:] {
			if t.name == "max" {
				r = MaxT(r, a)
			} else {
				r = MinT(r, a)
			}
		}
		return r
	case "real":
		return ToReal(args[0])
	case "trunc":
		return Trunc(args[0])
	case "dig":
		return mkDigRaw(args)
	}
	return mkApp(t.name, t.sort, args...)
}

/* ---------- folds ---------- */

// openFold returns the body of t with its index replaced by v.
func openFold(t *Term, v *Term) *Term {
	h := int(t.num.Num().Int64())
	return renameBV(t.args[1], bv(h), v)
}

// renameBV is an injective renaming, so no simplification can be triggered that
// the original did not already undergo; polynomials are only re-sorted.
func renameBV(t, from, to *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == from {
			return to
		}
		if from.kind == KBV && t.bvs&from.bvs == 0 {
			return t
		}
		if from.kind == KVar && !t.nf {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.kind {
		case KNum, KBool, KVar, KBV:
			r = t
		case KPoly:
			acc := make([]*Term, 0, len(t.mons)+1)
			acc = append(acc, mkRat(t.sort, ratZero))
			for _, m := range t.mons {
				p := mkRat(t.sort, m.c)
				for _, f := range m.fs {
					p = Mul(p, PowN(rec(f.t), f.e))
				}
				acc = append(acc, p)
			}
			r = Add(acc...)
		case KSum, KMaxF, KMinF, KForall:
			r = rawFold(t.kind, int(t.num.Num().Int64()), rec(t.args[0]), rec(t.args[1]))
		default:
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if !ch {
				r = t
			} else {
				switch t.kind {
				case KApp:
					if t.name == "max" || t.name == "min" {
						r = reApp(t, args)
					} else {
						r = mkApp(t.name, t.sort, args...)
					}
				case KIte:
					r = Ite(args[0], args[1], args[2])
				case KLe:
					r = Le0(args[0])
				case KLt:
					r = Lt0(args[0])
				case KEq:
					r = Eq0(args[0])
				case KAnd:
					r = And(args...)
				case KOr:
					r = Or(args...)
				case KNot:
					r = Not(args[0])
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rawFold(kind Kind, h int, hi, body *Term) *Term {
	s := body.sort
	key := "F" + strconv.Itoa(int(kind)) + "." + strconv.Itoa(h) + "." + argKey([]*Term{hi, body})
	return intern(key, &Term{kind: kind, sort: s, num: big.NewRat(int64(h), 1), args: []*Term{hi, body}})
}

func containsVar(t, v *Term) bool {
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if v.kind == KVar && !t.nf || v.kind == KBV && t.bvs&v.bvs == 0 {
			return false
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := false
		for _, a := range t.args {
			if rec(a) {
				r = true
				break
			}
		}
		if !r {
		outer:
			for _, m := range t.mons {
				for _, f := range m.fs {
					if rec(f.t) {
						r = true
						break outer
					}
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func closeFold(kind Kind, v, hi, body *Term) *Term {
	h := body.h
	return rawFold(kind, h, hi, renameBV(body, v, bv(h)))
}

func SumT(hi *Term, f func(i *Term) *Term) *Term {
	v := Fresh("s", SInt)
	return mkFold(KSum, v, hi, f(v))
}
func MaxFT(hi *Term, f func(i *Term) *Term) *Term {
	v := Fresh("s", SInt)
	return mkFold(KMaxF, v, hi, f(v))
}
func MinFT(hi *Term, f func(i *Term) *Term) *Term {
	v := Fresh("s", SInt)
	return mkFold(KMinF, v, hi, f(v))
}
func ForallT(hi *Term, f func(i *Term) *Term) *Term {
	v := Fresh("s", SInt)
	return mkFold(KForall, v, hi, f(v))
}

// mkFold binds v (ranging over [0,hi)) in body.
func mkFold(kind Kind, v, hi, body *Term) *Term {
	if n, ok := hi.intVal(); ok {
		switch {
		case n <= 0:
			switch kind {
			case KSum:
				return mkRat(body.sort, ratZero)
			case KMaxF:
				return NegInf
			case KMinF:
				return PosInf
			default:
				return tTrue
			}
		case n <= 4:
			var acc *Term
			for i := 0; i < n; i++ {
				x := subst1(body, v, I(int64(i)))
				if acc == nil {
					acc = x
					continue
				}
				switch kind {
				case KSum:
					acc = Add(acc, x)
				case KMaxF:
					acc = MaxT(acc, x)
				case KMinF:
					acc = MinT(acc, x)
				default:
					acc = And(acc, x)
				}
			}
			return acc
		}
	}
	if kind == KForall {
		if body.kind == KBool {
			if body.b {
				return tTrue
			}
		}
		if body.kind == KAnd {
			l := make([]*Term, len(body.args))
			for i, a := range body.args {
				l[i] = mkFold(KForall, v, hi, a)
			}
			return And(l...)
		}
		return closeFold(kind, v, hi, body)
	}
	if kind != KSum {
		// max/min fold: hi >= 1 wherever it is used (dimension sizes are positive)
		if !containsVar(body, v) {
			return body
		}
		return closeFold(kind, v, hi, body)
	}
	acc := []*Term{mkRat(body.sort, ratZero)}
	for _, m := range monosOf(body) {
		in := Mono{c: ratOne}
		out := Mono{c: m.c}
		var inIte []Factor
		for _, f := range m.fs {
			if containsVar(f.t, v) {
				if f.t.kind == KIte && f.e == 1 {
					inIte = append(inIte, f)
				}
				in.fs = append(in.fs, f)
			} else {
				out.fs = append(out.fs, f)
			}
		}
		o := polyOf(body.sort, []Mono{out})
		if len(in.fs) == 0 {
			n := hi
			if body.sort == SReal {
				n = ToReal(hi)
			}
			acc = append(acc, Mul(o, n))
			continue
		}
		b := polyOf(body.sort, []Mono{in})
		if len(inIte) > 0 {
			if r := deltaCollapse(v, hi, in, inIte); r != nil {
				acc = append(acc, Mul(o, r))
				continue
			}
		}
		acc = append(acc, Mul(o, closeFold(KSum, v, hi, b)))
	}
	return Add(acc...)
}

// deltaCollapse rewrites sum_v ite(v==e && c, x, 0)*rest to the single term v=e.
func deltaCollapse(v, hi *Term, m Mono, ites []Factor) *Term {
	for _, f := range ites {
		it := f.t
		c, x, y := it.args[0], it.args[1], it.args[2]
		if x.isZero() && !y.isZero() {
			c, x, y = Not(c), y, x
		}
		if !y.isZero() {
			continue
		}
		var conj []*Term
		if c.kind == KAnd {
			conj = c.args
		} else {
			conj = []*Term{c}
		}
		for i, q := range conj {
			if q.kind != KEq || q.args[0].sort != SInt {
				continue
			}
			e := solveFor(q.args[0], v)
			if e == nil {
				continue
			}
			rest := []*Term{}
			for j, r := range conj {
				if j != i {
					rest = append(rest, subst1(r, v, e))
				}
			}
			rest = append(rest, Ge(e, I(0)), Lt(e, hi))
			val := subst1(x, v, e)
			others := R(1)
			if it.sort == SInt {
				others = I(1)
			}
			for _, g := range m.fs {
				if g.t != it {
					others = Mul(others, PowN(subst1(g.t, v, e), g.e))
				}
			}
			return Ite(And(rest...), Mul(val, others), mkRat(it.sort, ratZero))
		}
	}
	return nil
}

// solveFor solves t == 0 for v when t is affine in v with coefficient +-1.
func solveFor(t, v *Term) *Term {
	var coef *big.Rat
	var rest []Mono
	for _, m := range monosOf(t) {
		has := false
		for _, f := range m.fs {
			if containsVar(f.t, v) {
				has = true
			}
		}
		if !has {
			rest = append(rest, m)
			continue
		}
		if len(m.fs) != 1 || m.fs[0].t != v || m.fs[0].e != 1 || coef != nil {
			return nil
		}
		coef = m.c
	}
	if coef == nil || new(big.Rat).Abs(coef).Cmp(ratOne) != 0 {
		return nil
	}
	r := polyOf(t.sort, rest)
	if coef.Sign() > 0 {
		return Neg(r)
	}
	return r
}

/* ---------- digits of a linear index ---------- */

// mkDig: the j-th digit of linear index L over dims (row-major):
// args = [j, L, d0, d1, ...]
func mkDig(j int, L *Term, dims []*Term) *Term {
	args := append([]*Term{I(int64(j)), L}, dims...)
	return mkDigRaw(args)
}
func mkDigRaw(args []*Term) *Term {
	j, _ := args[0].intVal()
	if args[2+j].isOne() {
		return I(0)
	}
	return mkApp("dig", SInt, args...)
}

/* ---------- printing ---------- */

func (t *Term) String() string {
	switch t.kind {
	case KNum:
		if t.num.IsInt() {
			return t.num.Num().String()
		}
		if f, _ := t.num.Float64(); len(t.num.String()) > 24 {
			return fmt.Sprintf("%g", f)
		}
		return t.num.String()
	case KBool:
		return strconv.FormatBool(t.b)
	case KVar:
		return t.name
	case KBV:
		return "b" + strconv.Itoa(t.b2h())
	case KApp:
		if len(t.args) == 0 {
			return t.name
		}
		return t.name + "(" + joinT(t.args, ", ") + ")"
	case KPoly:
		var sb strings.Builder
		for i, m := range t.mons {
			if i > 0 {
				sb.WriteString(" + ")
			}
			w := false
			if m.c.Cmp(ratOne) != 0 || len(m.fs) == 0 {
				sb.WriteString(mkRat(SReal, m.c).String())
				w = true
			}
			for _, f := range m.fs {
				if w {
					sb.WriteByte('*')
				}
				w = true
				s := f.t.String()
				if f.t.kind == KPoly {
					s = "(" + s + ")"
				}
				sb.WriteString(s)
				if f.e != 1 {
					fmt.Fprintf(&sb, "^%d", f.e)
				}
			}
		}
		return "(" + sb.String() + ")"
	case KIte:
		return "ite(" + joinT(t.args, ", ") + ")"
	case KLe:
		return t.args[0].String() + "<=0"
	case KLt:
		return t.args[0].String() + "<0"
	case KEq:
		return t.args[0].String() + "==0"
	case KAnd:
		return "(" + joinT(t.args, " & ") + ")"
	case KOr:
		return "(" + joinT(t.args, " | ") + ")"
	case KNot:
		return "!" + t.args[0].String()
	case KSum, KMaxF, KMinF, KForall:
		n := map[Kind]string{KSum: "Sum", KMaxF: "MaxOver", KMinF: "MinOver", KForall: "Forall"}[t.kind]
		return fmt.Sprintf("%s{b%d<%s}[%s]", n, t.b2h(), t.args[0], t.args[1])
	}
	return "?"
}
func joinT(ts []*Term, sep string) string {
	l := make([]string, len(ts))
	for i, t := range ts {
		l[i] = t.String()
	}
	return strings.Join(l, sep)
}
