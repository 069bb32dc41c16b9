package main

// Verification units: each runs one function of the repository symbolically and
// discharges the obligations its contract generates.

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Unit  string   `json:"unit"`
	Name  string   `json:"name"`
	Props []string `json:"props"`
	OK    bool     `json:"ok"`
	Why   string   `json:"why,omitempty"`
	Pos   string   `json:"pos,omitempty"`
	Count int      `json:"count"`
}

type UnitResult struct {
	Unit   string   `json:"unit"`
	Obs    []*Oblig `json:"obs"`
	Paths  int      `json:"paths"`
	Ms     int64    `json:"ms"`
	Funcs  []string `json:"funcs"`
	Insts  []string `json:"insts"`
	Checks int      `json:"checks"`
	SMT    int      `json:"smt"`
	SMTms  int64    `json:"smtms"`
	Goals  int      `json:"goals"`
	Known  bool     `json:"known"`
	Dep    bool     `json:"dep,omitempty"` // only runs because a contract it proves is used
	Gap    string   `json:"gap,omitempty"` // contract instance used but proved by no unit
	Err    string   `json:"err,omitempty"`
	Extra  bool     `json:"extra,omitempty"`
	Soft   []string `json:"soft,omitempty"`    // obligations a bounded check stands in for on this tree
	Skip   string   `json:"skipped,omitempty"` // an extra unit the time did not suffice for
}

type unit struct {
	name  string
	props []string
	run   func(u *ur)
	// contract instances this unit proves
	provides []string
	// extra units widen the shapes covered; they run last, and running out of
	// time leaves them undecided
	extra bool
	// for the thorough tier only
	deep bool
	// beyond other units' bounds: left undecided when out of the verifier's reach
	optional bool
}

// ur is a running unit.
type ur struct {
	ex    *Exec
	u     *unit
	obs   map[string]*Oblig
	list  []*Oblig
	paths int
	hyps  []hyp // definedness hypotheses
	known bool
	abort bool
	softs []string
	// paths of valid calls checked to the end
	settled int
}

// soft notes an obligation that is not discharged and for which a bounded check
// stands in.
func (u *ur) soft(why string) { u.softs = append(u.softs, why) }

type hyp struct {
	name string // element function
	pos  bool   // > 0 (otherwise: nonzero)
}

// ob records one discharged or failed instance of a named obligation.
func (u *ur) ob(props, name string, ok bool, why string) bool {
	o := u.obs[name]
	if o == nil {
		o = &Oblig{Unit: u.u.name, Name: name, OK: true, Props: strings.Fields(props)}
		u.obs[name] = o
		u.list = append(u.list, o)
	}
	o.Count++
	if !ok && o.OK {
		o.OK = false
		if len(why) > 1500 {
			why = why[:1500] + "..."
		}
		o.Why = why
	}
	return ok
}

func (u *ur) obf(props, name string, ok bool, f string, a ...any) bool {
	if ok {
		return u.ob(props, name, true, "")
	}
	return u.ob(props, name, false, fmt.Sprintf(f, a...))
}

func runUnit(ex *Exec, un *unit) (res *UnitResult) {
	t0 := time.Now()
	if ex.mark == nil {
		m := markEngine()
		ex.mark = &m
	}
	resetEngine(*ex.mark)
	u := &ur{ex: ex, u: un, obs: map[string]*Oblig{}}
	ex.called, ex.usedCon, ex.insts = map[string]bool{}, map[string]bool{}, map[string]bool{}
	ex.checks, ex.steps = 0, 0
	ex.knownUsed = false
	ex.skip, ex.onDef, ex.depth, ex.readLog = nil, nil, 0, nil
	elemFacts = map[string]bool{}
	s0, m0, g0 := smtStats.queries, int64(smtStats.dur), proveStats.goals
	res = &UnitResult{Unit: un.name, Extra: un.extra}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				if un.optional {
					u.soft(un.name + ": " + x.msg)
				} else {
					res.Err = x.msg
				}
			case badData:
				res.Err = "ill-formed tensor data: " + x.msg
			default:
				res.Err = fmt.Sprint(r)
				if os.Getenv("GOVERIF_STACK") != "" {
					debug.PrintStack()
				}
			}
		}
		res.Obs = u.list
		if res.Err == "" && len(u.list) == 0 && len(u.softs) == 0 {
			res.Err = "the unit states no obligation"
		}
		if res.Err != "" {
			res.Obs = append(res.Obs, &Oblig{Unit: un.name, Name: "unit verified", Props: un.props, Why: res.Err, Count: 1})
		}
		res.Paths = u.paths
		res.Soft = u.softs
		res.Soft = u.softs
		res.Ms = time.Since(t0).Milliseconds()
		for f := range ex.called {
			res.Funcs = append(res.Funcs, f)
		}
		for f := range ex.insts {
			res.Insts = append(res.Insts, f)
		}
		res.Checks = ex.checks
		res.Known = ex.knownUsed
		res.SMT = int(smtStats.queries - s0)
		res.SMTms = (int64(smtStats.dur) - m0) / 1e6
		res.Goals = proveStats.goals - g0
	}()
	un.run(u)
	return
}

/* ---------- running a function ---------- */

func (u *ur) call(st *State, fn *ssa.Function, args []Val) []Outcome {
	if fn == nil {
		unsup("function is gone")
	}
	u.ex.skip = fn
	outs := u.ex.call(st, VFunc{fn: fn}, args)
	var live []Outcome
	for _, o := range outs {
		if feasible(o.st.pc) {
			live = append(live, o)
		}
	}
	u.paths += len(live)
	if len(live) == 0 {
		u.ob(strings.Join(u.u.props, " "), "a call has an outcome", false, "no path is feasible: contradictory preconditions")
	}
	return live
}

func isNilVal(v Val) bool {
	_, ok := v.(VNil)
	return ok
}

/* ---------- result checks ---------- */

// each runs f with the forks f asks for.
func (u *ur) each(st *State, f func(st *State)) {
	forkOutcomes(st, func(s *State) []Outcome { f(s); return nil })
}

// tensorIs: v is a fresh well-formed tensor with the given shape and elements.
func (u *ur) tensorIs(st *State, props, what string, v Val, dims []*Term, elem func(st *State, i []*Term) *Term) bool {
	p, ok := asPtr(v)
	if !u.obf(props, what+": result is a tensor", ok && p.ref != nil, "%T on path %s", v, st.pc) {
		return false
	}
	return u.tensorShape(st, props, what, p, dims) && u.tensorElems(st, props, what, p, dims, elem)
}

func (u *ur) tensorShape(st *State, props, what string, p VPtr, dims []*Term) bool {
	got := st.dimsOf(p)
	if !u.obf(props, what+": rank of the result", len(got) == len(dims), "%d dimensions, %d expected, on path %s", len(got), len(dims), st.pc) {
		return false
	}
	for i := range dims {
		if !u.obf(props, what+": shape of the result", ProveEq(st.pc, got[i], dims[i]), "dimension %d is %s, expected %s, on path %s", i, got[i], dims[i], st.pc) {
			return false
		}
	}
	return true
}

// tensorElems checks the nested data level by level.
func (u *ur) tensorElems(st *State, props, what string, p VPtr, dims []*Term, elem func(st *State, i []*Term) *Term) bool {
	ok := true
	at := make([]*Term, len(dims))
	for l := range dims {
		at[l] = Fresh("i", SInt)
	}
	u.each(st, func(s *State) {
		s = s.clone()
		data := s.tensorFields(p)[lay.tdata]
		var idx []*Term
		for l, d := range dims {
			i := at[l]
			rows, lenOK, why := dataRows(s, data)
			if !lenOK {
				ok = u.ob(props, what+": nested data is well formed", false, fmt.Sprintf("%s at depth %d, on path %s", why, l, s.pc))
				return
			}
			if !u.obf(props, what+": nested data is well formed", ProveEq(s.pc, rows.len, d), "length %s at depth %d, expected %s, on path %s", rows.len, l, d, s.pc) {
				ok = false
				return
			}
			s.pc = s.pc.And(Ge(i, I(0))).And(Lt(i, d))
			idx = append(idx, i)
			data = s.readCell(rows.ref, Add(rows.off, i))
		}
		e, isNum, why := dataLeaf(s, data)
		if !isNum {
			ok = u.ob(props, what+": nested data is well formed", false, fmt.Sprintf("%s, on path %s", why, s.pc))
			return
		}
		s.got = e
		want := elem(s, idx)
		if want == nil { // left open, or checked by elem itself
			return
		}
		if !u.obf(props, what+": elements of the result", ProveEq(s.pc, e, want), "element at %v is %s, expected %s, on path %s", idx, e, want, s.pc) {
			ok = false
		}
	})
	return ok
}

func dataRows(s *State, data Val) (VSlice, bool, string) {
	if i, ok := data.(VIface); ok {
		if sl, ok := i.v.(VSlice); ok && typesIdentical(i.typ, anySliceT) {
			return sl, true, ""
		}
	}
	return VSlice{}, false, fmt.Sprintf("data is %T", data)
}

func dataLeaf(s *State, data Val) (*Term, bool, string) {
	if i, ok := data.(VIface); ok {
		if t, ok := i.v.(VT); ok && isFloat64(i.typ) {
			return t.t, true, ""
		}
	}
	return nil, false, fmt.Sprintf("element is %T", data)
}

/* ---------- frame ---------- */

// reach collects every object reachable from the values.
func (st *State) reach(vs ...Val) map[*Family]bool {
	seen := map[*Family]bool{}
	var val func(v Val)
	var layer func(l *Layer)
	visit := func(r *Ref) {
		if r == nil || seen[r.fam] {
			return
		}
		seen[r.fam] = true
		c := st.get(r.fam)
		if c == nil {
			return
		}
		for _, l := range c.cells {
			layer(l)
		}
		layer(c.sym)
	}
	layer = func(l *Layer) {
		for ; l != nil; l = l.next {
			val(l.val)
		}
	}
	val = func(v Val) {
		switch x := v.(type) {
		case VPtr:
			visit(x.ref)
		case VSlice:
			visit(x.ref)
		case VMap:
			visit(x.ref)
		case VIface:
			val(x.v)
		case VStruct:
			for _, f := range x.f {
				val(f)
			}
		case VTuple:
			for _, f := range x.f {
				val(f)
			}
		case VMapData:
			for _, f := range x.keys {
				val(f)
			}
			for _, f := range x.vals {
				val(f)
			}
		case VFunc:
			for _, f := range x.free {
				val(f)
			}
		}
	}
	for _, v := range vs {
		val(v)
	}
	return seen
}

// frame: no object that existed before the call is written.
func (u *ur) frame(st *State, since *WriteRec, allow func(w *WriteRec) bool) {
	for w := st.writes; w != nil && w != since; w = w.prev {
		if w.fam.pre && (allow == nil || !allow(w)) {
			u.ob("C10 C20", "frame: existing objects are not written", false, fmt.Sprintf("%s writes %s%s of %s, on path %s", w.pos, w.fam.name, w.path, w.fam.owner, st.pc))
			return
		}
	}
	u.ob("C10 C20", "frame: existing objects are not written", true, "")
}

// noRetention: nothing reachable from the values is a slice the caller owns.
func (u *ur) noRetention(st *State, vs ...Val) {
	for f := range st.reach(vs...) {
		if strings.HasPrefix(f.owner, "arg") {
			u.ob("C10", "caller-owned slices are not retained", false, fmt.Sprintf("%s is reachable from the result, on path %s", f.name, st.pc))
			return
		}
	}
	u.ob("C10", "caller-owned slices are not retained", true, "")
}

// freshData: the result's own data is not that of an existing tensor.
func (u *ur) freshData(st *State, v Val) {
	p, ok := asPtr(v)
	if !ok {
		return
	}
	if p.ref.fam.pre {
		u.ob("C10", "result is a new tensor", false, fmt.Sprintf("the result is %s itself, on path %s", p.ref.fam.name, st.pc))
		return
	}
	f := st.tensorFields(p)
	if d, ok := f[lay.tdims].(VSlice); ok && d.ref.fam.pre {
		u.ob("C10", "result is a new tensor", false, fmt.Sprintf("the result shares its shape with %s, on path %s", d.ref.fam.owner, st.pc))
		return
	}
	u.ob("C10", "result is a new tensor", true, "")
}

/* ---------- operation units ---------- */

type opVariant struct {
	ranks  []int
	nargs  int   // length of shape / ranges / index argument
	sym    bool  // symbolic tracked / spent flags
	bad    int   // 1: nil operand, 2: foreign operand (last tensor operand)
	num    *Term // concrete number argument
	numHyp bool  // assume x > 0 (symbolic exponent)
	grad   bool
	held   bool // the operands are results, and receive gradients from elsewhere too
	alias  bool // every operand is the same tensor
	prior  bool // the operands are results and hold gradients already
}

func (v opVariant) String() string {
	s := fmt.Sprint(v.ranks)
	if v.nargs >= 0 {
		s += fmt.Sprintf(" args=%d", v.nargs)
	}
	if v.sym {
		s += " flags"
	}
	if v.bad == 1 {
		s += " nil"
	}
	if v.bad == 2 {
		s += " foreign"
	}
	if v.num != nil {
		s += " a=" + v.num.String()
	}
	if v.grad {
		s += " backward"
	}
	if v.held {
		s += " in use"
	}
	if v.alias {
		s += " same tensor"
	}
	if v.prior {
		s += " with gradients"
	}
	return s
}

func (s *opSpec) variants() []opVariant {
	var out []opVariant
	for _, r := range s.ranks {
		ns := []int{-1}
		switch s.arg {
		case "shape":
			ns = []int{0, 1, 2, 3, 4, 5}
		case "ranges", "index":
			ns = nil
			for n := 0; n <= r[0]+1; n++ {
				ns = append(ns, n)
			}
		}
		for _, n := range ns {
			out = append(out, opVariant{ranks: r, nargs: n})
			low := true
			for _, x := range r {
				low = low && x <= 1
			}
			if s.grad || s.res == resTErr && s.prop == "C03" {
				if low && n <= 1 {
					out = append(out, opVariant{ranks: r, nargs: n, sym: true}, opVariant{ranks: r, nargs: n, sym: true, prior: true})
				}
			}
			if s.grad {
				if s.name == "Pow" {
					if r[0] <= 3 {
						out = append(out, opVariant{ranks: r, nargs: n, grad: true, numHyp: true})
						if r[0] == 1 {
							for _, k := range []int64{0, 1, 2, 3, -1, -2} {
								out = append(out, opVariant{ranks: r, nargs: n, grad: true, num: R(k)})
							}
						}
					}
					continue
				}
				out = append(out, opVariant{ranks: r, nargs: n, grad: true})
			}
		}
	}
	for _, v := range out {
		if v.grad && !s.extra(v) {
			v.held = true
			out = append(out, v)
		}
	}
	for _, v := range out {
		same := len(v.ranks) > 1 && !v.sym
		for _, r := range v.ranks {
			same = same && r == v.ranks[0]
		}
		if same {
			v.alias = true
			out = append(out, v)
		}
	}
	if s.nt == 2 {
		out = append(out, opVariant{ranks: []int{1, 1}, nargs: map[bool]int{true: 1, false: -1}[s.arg == "ranges"], bad: 1},
			opVariant{ranks: []int{1, 1}, nargs: map[bool]int{true: 1, false: -1}[s.arg == "ranges"], bad: 2})
	}
	return out
}

func (s *opSpec) extra(v opVariant) bool {
	m := 0
	for _, r := range v.ranks {
		m = max(m, r)
	}
	if v.nargs >= 5 {
		return true
	}
	return m >= 5 || len(v.ranks) > 1 && m >= 4 || s.name == "Slice" && m >= 4 && v.nargs >= 3
}

// deep variants are left to the thorough tier.
func (s *opSpec) deep(v opVariant) bool {
	pair := len(v.ranks) > 1 && v.ranks[0] >= 5 && s.cases != nil
	return pair || len(v.ranks) > 1 && v.ranks[0] >= 5 && v.nargs >= 3 || s.name == "Slice" && v.ranks[0] >= 5 && v.nargs >= 4
}

func (s *opSpec) units() []*unit {
	var out []*unit
	for _, v := range s.variants() {
		v := v
		props := []string{s.prop, "C09", "C10", "C20"}
		if v.grad {
			props = []string{"C02", "C07", "C01", "C10", "C08"}
		}
		if v.sym {
			props = []string{s.prop, "C08", "C09", "C10", "C20"}
		}
		if v.bad > 0 {
			props = []string{"C09"}
		}
		var prov []string
		if v.bad == 0 {
			k := s.name
			for _, r := range v.ranks {
				k += fmt.Sprintf(" r%d", r)
			}
			if v.nargs >= 0 {
				k += fmt.Sprintf(" n%d", v.nargs)
			}
			if v.grad {
				k += " backward"
			}
			if !v.held && !v.alias && !v.prior {
				prov = []string{k}
			}
		}
		out = append(out, &unit{name: fmt.Sprintf("op %s %s", s.name, v), props: props, provides: prov, extra: s.extra(v), deep: s.deep(v), run: func(u *ur) { s.verify(u, v) }})
	}
	return out
}

func (s *opSpec) function(ex *Exec) *ssa.Function {
	if s.name == "Concat" {
		return ex.fn("tensor/internal/cputensor", "Concat")
	}
	return ex.method(ptrT(lay.tensorT), s.name)
}

// verify checks the body of the operation against its contract.
func (s *opSpec) verify(u *ur, v opVariant) {
	ex := u.ex
	st := newState()
	in := &inst{}
	var args []Val
	var tvals []Val
	for k, r := range v.ranks {
		tr, di := tFalse, tFalse
		if v.sym {
			tr, di = V(fmt.Sprintf("tracked%d", k), SBool), V(fmt.Sprintf("spent%d", k), SBool)
		}
		if v.grad {
			tr = tTrue
		}
		name := fmt.Sprintf("x%d", k)
		if v.alias && k > 0 {
			in.ts = append(in.ts, in.ts[0])
			tvals = append(tvals, tvals[0])
			continue
		}
		var p VPtr
		if v.prior {
			dims := dimVars(fmt.Sprintf("d%d_", k), r)
			g := st.mkT(tspec{name: "g" + name, dims: dims, elem: elemVar("g" + name), pre: true, owner: fmt.Sprintf("gradient of operand %d", k)})
			p = u.mk(st, tin{name: name, dims: dims, rank: r, chain: true, dirty: di, grad: wrapT(g)}).p
		} else if v.held {
			h := u.mk(st, tin{name: name, dims: dimVars(fmt.Sprintf("d%d_", k), r), rank: r, chain: true})
			p = h.p
			in.held = append(in.held, h)
		} else {
			p = st.mkT(tspec{name: fmt.Sprintf("t%d", k), dims: dimVars(fmt.Sprintf("d%d_", k), r), elem: elemVar(name), tracked: tr, dirty: di, pre: true, owner: fmt.Sprintf("operand %d", k)})
		}
		o := st.operand(p)
		o.elem = elemVar(name)
		if k > 0 && k == len(v.ranks)-1 && v.bad > 0 {
			o.bad = true
			if v.bad == 1 {
				o.val = VNil{}
			} else {
				o.val = foreignTensor()
			}
		} else {
			o.val = wrapT(p)
		}
		in.ts = append(in.ts, o)
		tvals = append(tvals, o.val)
	}
	if s.name == "Reshape" {
		// machine integers: a tensor's element count and the arguments fit one
		maxInt := mkRat(SInt, new(big.Rat).SetInt64(math.MaxInt64))
		for n := 1; n <= len(in.ts[0].dims); n++ {
			st.pc = st.pc.And(Le(prod(in.ts[0].dims[:n]), maxInt))
		}
		for _, d := range dimVars("s", v.nargs) {
			st.pc = st.pc.And(Le(d, maxInt))
		}
	}
	switch s.arg {
	case "dim", "tensors":
		in.dim = V("dim", SInt)
	case "num":
		in.num = V("a", SReal)
		if v.num != nil {
			in.num = v.num
		}
	case "shape", "index":
		in.shape = dimVars("s", v.nargs)
	case "ranges":
		for k := 0; k < v.nargs; k++ {
			in.rng = append(in.rng, [2]*Term{V(fmt.Sprintf("from%d", k), SInt), V(fmt.Sprintf("to%d", k), SInt)})
		}
	}
	// the argument list in parameter order
	if s.arg == "tensors" {
		r := st.newObj("args", tensorIfaceT(ex), true, "arg tensors", tvals...)
		n := I(int64(len(tvals)))
		args = []Val{VSlice{r, I(0), n, n}, VT{in.dim}}
	} else {
		args = []Val{in.ts[0].p}
		if s.arg == "ranges" {
			var rs []Val
			for _, r := range in.rng {
				rs = append(rs, VStruct{[]Val{VT{r[0]}, VT{r[1]}}})
			}
			r := st.newObj("index", lay.rangeT, true, "arg index", rs...)
			n := I(int64(len(rs)))
			args = append(args, VSlice{r, I(0), n, n})
		}
		if s.nt == 2 {
			args = append(args, tvals[1])
		}
		switch s.arg {
		case "dim":
			args = append(args, VT{in.dim})
		case "num":
			args = append(args, VT{in.num})
		case "shape", "index":
			args = append(args, st.intSlice("arg", true, "arg shape", in.shape))
		}
	}
	if v.grad {
		s.hypotheses(u, v)
	}
	since := st.writes
	outs := u.call(st, s.function(ex), args)
	defer s.notVacuous(u, v, st, in)
	for _, o := range outs {
		if o.panic != "" {
			u.ob("C09 "+s.prop, "does not panic", false, fmt.Sprintf("%s at %s, on path %s", o.panic, o.pos, o.st.pc))
			continue
		}
		u.ob("C09 "+s.prop, "does not panic", true, "")
		if v.bad > 0 {
			u.obf("C09", "invalid operand is reported", isErr(o) && isNilVal(o.vals[0]) || isErr(o) && s.res == resBErr, "accepted on path %s", o.st.pc)
			u.frame(o.st, since, nil)
			continue
		}
		// alternatives for the dimension argument
		alts := []*inst{in}
		if in.dim != nil {
			alts = nil
			n := s.maxDim(in)
			for k := -1; k < n; k++ {
				c := *in
				if k < 0 {
					c.dim = nil
				} else {
					c.dim = I(int64(k))
				}
				alts = append(alts, &c)
			}
		}
		for _, a := range alts {
			pc := o.st.pc
			if in.dim != nil {
				if a.dim == nil {
					pc = pc.And(Not(And(inDim(in.dim, s.maxDim(in))...)))
				} else {
					pc = pc.And(Eq(in.dim, a.dim))
				}
				if !feasible(pc) {
					continue
				}
			}
			s.checkOutcome(u, v, o, pc, a, since)
		}
	}
}

// notVacuous: if the precondition can be met, a call that meets it was checked
// through to its last obligation.
func (s *opSpec) notVacuous(u *ur, v opVariant, st *State, in *inst) {
	if v.bad > 0 || u.settled > 0 {
		return
	}
	if s.arg == "dim" || s.arg == "tensors" {
		c := *in
		c.dim = I(0)
		in = &c
		if s.maxDim(in) == 0 {
			return
		}
	}
	pc := st.pc
	for _, c := range s.pre(in) {
		pc = pc.And(c)
	}
	if v.grad && v.trackedAll(in) != nil {
		pc = pc.And(v.trackedAll(in))
	}
	u.obf(strings.Join(u.u.props, " "), "a valid call is checked to the end", !feasible(pc), "no path got there although the precondition can be met")
}

func (v opVariant) trackedAll(in *inst) *Term {
	var cs []*Term
	for _, t := range in.ts {
		cs = append(cs, t.trk, Not(t.dty))
	}
	return And(cs...)
}

func isErr(o Outcome) bool {
	n := len(o.vals)
	return n > 0 && !isNilVal(o.vals[n-1])
}

func (s *opSpec) checkOutcome(u *ur, v opVariant, o Outcome, pc *PC, in *inst, since *WriteRec) {
	st := o.st.clone()
	st.pc = pc
	pre := []*Term{tFalse}
	if in.dim != nil || s.arg != "dim" && s.arg != "tensors" {
		pre = s.pre(in)
	}
	u.frame(st, since, nil)
	canErr := s.res == resTErr || s.res == resFErr || s.res == resBErr
	if canErr && isErr(o) {
		u.obf("C09 "+s.prop, "error only outside the precondition", Prove(pc, Not(And(pre...))), "valid arguments are rejected on path %s", pc)
		if s.res == resTErr {
			u.obf("C09", "no result with an error", isNilVal(o.vals[0]), "result beside the error on path %s", pc)
		}
		return
	}
	for _, c := range pre {
		if !u.obf("C09 "+s.prop, "arguments outside the precondition are rejected", Prove(pc, c), "%s does not hold on path %s", c, pc) {
			return
		}
	}
	val := o.vals[0]
	sp := s.prop
	switch s.res {
	case resF, resFErr, resI, resBErr:
		want := s.elem(in, nil)
		got := term(val)
		u.obf(sp, "value", ProveEq(pc, got, want), "value is %s, expected %s, on path %s", got, want, pc)
		u.settled++
		return
	case resIs:
		u.noRetentionShape(st, val)
		got := st.ints(val)
		want := s.dims(in)
		ok := len(got) == len(want)
		for i := range want {
			ok = ok && ProveEq(pc, got[i], want[i])
		}
		u.obf(sp+" C10", "value", ok, "shape is %v, expected %v, on path %s", got, want, pc)
		u.settled++
		return
	}
	dims := s.dims(in)
	if !v.grad {
		if !u.tensorIs(st, sp+" C09", s.name, val, dims, func(st *State, i []*Term) *Term { return s.elem(in, i) }) {
			return
		}
	}
	u.freshData(st, val)
	u.noRetention(st, val)
	p, _ := asPtr(val)
	u.each(st, func(st *State) { s.checkGrad(u, v, st.clone(), in, p, dims) })
}

func (u *ur) noRetentionShape(st *State, v Val) {
	for f := range st.reach(v) {
		if f.pre {
			u.ob("C10", "the returned shape is a copy", false, "it shares memory with "+f.name)
			return
		}
	}
	u.ob("C10", "the returned shape is a copy", true, "")
}

// checkGrad checks the gradient context of the result and, when it is tracked,
// back-propagates an arbitrary weighting through it.
func (s *opSpec) checkGrad(u *ur, v opVariant, st *State, in *inst, r VPtr, dims []*Term) {
	g, ok := st.gctxOf(r)
	if !u.obf("C08 C02", "result has a gradient context", ok, "none on path %s", st.pc) {
		return
	}
	u.obf("C08 C10", "result has a context of its own", !g.ref.ref.fam.pre, "shared with %s", g.ref.ref.fam.owner)
	var ds, ts []*Term
	for _, t := range in.ts {
		ds = append(ds, t.dty)
		ts = append(ts, t.trk)
	}
	dirty, tracked := Or(ds...), And(Not(Or(ds...)), Or(ts...))
	if !s.grad {
		dirty, tracked = tFalse, tFalse
	}
	u.obf("C08", "result is tracked exactly when it must be", ProveEq(st.pc, g.tracked, tracked), "tracked is %s, expected %s, on path %s", g.tracked, tracked, st.pc)
	u.obf("C08", "result of a spent operand is spent", ProveEq(st.pc, g.dirty, dirty), "spent is %s, expected %s, on path %s", g.dirty, dirty, st.pc)
	u.obf("C08", "result starts without a gradient", isNilVal(g.grad), "it has one")
	if !s.grad || !st.must(g.tracked) {
		if s.grad {
			u.obf("C08", "untracked result keeps no graph", len(g.edges) == 0, "%d edges on path %s", len(g.edges), st.pc)
		}
		if !v.grad {
			u.settled++
		}
		return
	}
	u.edgesAreOwn(st, r)
	if !v.prior {
		s.backward(u, v, st, in, r, dims)
	} else {
		u.settled++
	}
}

// edgesAreOwn: what back-propagation over every graph assumes of a result.
func (u *ur) edgesAreOwn(st *State, r VPtr) {
	g, _ := st.gctxOf(r)
	seen := map[string]bool{}
	own := !g.ref.ref.fam.pre
	for _, e := range g.edges {
		p, ok := e.(VPtr)
		if !ok {
			own = false
			break
		}
		k := fmt.Sprintf("%p %s %s %s", p.ref.fam, termsKey(p.ref.args), p.idx, p.path)
		own = own && !p.ref.fam.pre && !seen[k]
		seen[k] = true
		to, ok := asPtr(st.load(p).(VStruct).f[lay.etarget])
		if !ok {
			own = false
			break
		}
		tg, ok := st.gctxOf(to)
		own = own && ok && !(tg.ref.ref.fam == g.ref.ref.fam && termsKey(tg.ref.ref.args) == termsKey(g.ref.ref.args))
	}
	if own {
		u.ob("C01 C08 C10", "edges of a result are its own, and lead to other tensors", true, "")
	} else {
		u.soft("edges of a result are its own, and lead to other tensors: not shown for " + u.u.name)
	}
}

// backward: the weighting w arrives from a consumer z of the result r.
func (s *opSpec) backward(u *ur, v opVariant, st *State, in *inst, r VPtr, dims []*Term) {
	w := elemVar("w")
	var z VPtr
	other := func(k int) func([]*Term) *Term { return elemVar(fmt.Sprintf("other%d", k)) }
	if v.held {
		// the consumer of the result uses the operands, too
		to := []target{{in.held[0].p, in.held[0].dims, other(0)}, {r, dims, w}}
		for k, h := range in.held[1:] {
			to = append(to, target{h.p, h.dims, other(k + 1)})
		}
		z = st.consumers(to...)
	} else {
		z = st.consumer(r, dims, w)
	}
	// total gradient of operand k
	total := func(k int, i []*Term, rule func(k int) *Term) *Term {
		t := rule(k)
		if v.alias {
			for k := range in.ts[1:] {
				t = Add(t, rule(k+1))
			}
		}
		if v.held {
			t = Add(other(k)(i), t)
		}
		return t
	}
	u.ex.onDef = func(st *State, what string, c *Term) {
		if v.sym {
			return
		}
		u.obf("C02", "gradient is defined", u.proveDef(st.pc, c), "%s: cannot prove %s on path %s", what, c, st.pc)
	}
	defer func() { u.ex.onDef = nil }()
	since := st.writes
	bp := u.ex.fn("tensor", "BackPropagate")
	outs := u.call(st, bp, []Val{wrapT(z)})
	for _, o := range outs {
		props := "C02 C01 C08"
		if o.panic != "" {
			u.ob(props+" C09", "back-propagation does not panic", false, fmt.Sprintf("%s at %s, on path %s", o.panic, o.pos, o.st.pc))
			continue
		}
		u.ob(props+" C09", "back-propagation does not panic", true, "")
		if !u.obf(props, "back-propagation succeeds", isNilVal(o.vals[0]), "error on path %s", o.st.pc) {
			continue
		}
		u.frame(o.st, since, func(w *WriteRec) bool {
			return typesIdentical(w.fam.elem, lay.gctxT)
		})
		u.settled++
		u.each(o.st, func(st *State) {
			for k, t := range in.ts {
				if v.alias && k > 0 {
					break
				}
				g, _ := st.gctxOf(t.p)
				if !st.must(t.trk) {
					u.obf("C08", "untracked operand receives no gradient", isNilVal(g.grad), "operand %d has one on path %s", k, st.pc)
					continue
				}
				u.obf("C08", "tracked operand is spent afterwards", Prove(st.pc, g.dirty), "operand %d on path %s", k, st.pc)
				gp, ok := asPtr(g.grad)
				if !u.obf("C02 C08 C01", "tracked operand receives a gradient", ok, "operand %d has none on path %s", k, st.pc) {
					continue
				}
				gs := st.operand(gp)
				u.obf("C08", "gradients are untracked", Prove(st.pc, Not(gs.trk)), "operand %d on path %s", k, st.pc)
				what := fmt.Sprintf("gradient of operand %d", k)
				props := "C02 C01"
				if s.name == "Broadcast" || s.cases != nil && s.nt == 2 && s.arg == "" {
					props = "C02 C01 C07"
				}
				if !u.tensorShape(st, props+" C08", what, gp, t.dims) {
					continue
				}
				if v.held {
					c := elemVar(in.held[k].name + "c")
					u.gradOf(st, props+" C08", what+", passed on", in.held[k].src, t.dims, func(st *State, i []*Term) *Term {
						// complete when it is passed on
						return Mul(c(i), st.operand(g.grad).elem(i))
					})
				}
				if s.known != nil {
					// recorded finding: exactly the known value, or the defined one
					if q := u.quiet(func(q *ur) {
						q.tensorElems(st, props, what, gp, t.dims, func(st *State, i []*Term) *Term {
							return simp(st.pc, total(k, i, func(k int) *Term { return s.known(in, k, w, i) }))
						})
					}); q {
						u.known = true
						u.ob(props, what+": elements of the result (recorded finding explicit-broadcast-average)", true, "")
						u.ex.knownUsed = true
						continue
					}
				}
				u.tensorElems(st, props, what, gp, t.dims, func(st *State, i []*Term) *Term {
					return simp(st.pc, total(k, i, func(k int) *Term { return specVJP(s, in, k, w, i) }))
				})
			}
		})
	}
}

// quiet runs checks without recording them and reports whether all held.
func (u *ur) quiet(f func(q *ur)) bool {
	q := &ur{ex: u.ex, u: u.u, obs: map[string]*Oblig{}}
	f(q)
	for _, o := range q.list {
		if !o.OK {
			return false
		}
	}
	return true
}

// target is a tensor and the gradient delivered to it.
type target struct {
	p    VPtr
	dims []*Term
	w    func([]*Term) *Term
}

// consumer is a tensor computed from r whose backward rule delivers w.
func (st *State) consumer(r VPtr, dims []*Term, w func([]*Term) *Term) VPtr {
	return st.consumers(target{r, dims, w})
}

func (st *State) consumers(to ...target) VPtr {
	var eps []Val
	for i, t := range to {
		t := t
		ev := make([]Val, structOf(lay.edgeT).NumFields())
		ev[lay.etarget] = wrapT(t.p)
		ev[lay.efn] = VFunc{nat: &Native{name: "upstream", call: func(ex *Exec, st *State, _ []Val) []Outcome {
			return one(st, wrapT(st.mkT(tspec{name: "w", dims: t.dims, elem: t.w})), VNil{})
		}}}
		eps = append(eps, VPtr{st.newObj(fmt.Sprintf("z.edge%d", i), lay.edgeT, false, "", VStruct{ev}), I(0), ""})
	}
	es := st.newObj("z.edges", ptrT(lay.edgeT), false, "", eps...)
	n := I(int64(len(to)))
	return st.mkT(tspec{name: "z", elem: elemVar("z"), tracked: tTrue, edges: VSlice{es, I(0), n, n}})
}

/* ---------- definedness ---------- */

// elemFacts: name of an element function -> true if positive, false if nonzero
var elemFacts = map[string]bool{}

func (u *ur) proveDef(pc *PC, c *Term) bool {
	if Prove(pc, c) {
		return true
	}
	useElemFacts = true
	defer func() { useElemFacts = false }()
	q := pc
	// instantiate the hypotheses at the element terms of the goal
	for _, h := range u.hyps {
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] || t.bvs != 0 {
				return
			}
			seen[t] = true
			if t.kind == KApp && t.name == h.name {
				if h.pos {
					q = q.And(Gt(t, R(0)))
				} else {
					q = q.And(Ne(t, R(0)))
				}
			}
			for _, a := range t.args {
				rec(a)
			}
			for _, m := range t.mons {
				for _, f := range m.fs {
					rec(f.t)
				}
			}
		}
		rec(simp(pc, c))
		rec(c)
	}
	return Prove(q, c)
}

var useElemFacts bool

// hypotheses: where the operation is differentiable.
func (s *opSpec) hypotheses(u *ur, v opVariant) {
	switch s.name {
	case "Log":
		u.hyps = []hyp{{"x0", true}}
	case "Div":
		u.hyps = []hyp{{"x1", false}}
		if v.alias {
			u.hyps = []hyp{{"x0", false}}
		}
	case "Pow":
		if v.numHyp {
			u.hyps = []hyp{{"x0", true}}
		} else if v.num != nil && v.num.num.Sign() < 0 {
			u.hyps = []hyp{{"x0", false}}
		}
	case "Tan":
		u.hyps = []hyp{{"cos", false}}
	case "StdAlong":
		u.hyps = []hyp{{"sqrt", false}}
	}
}
