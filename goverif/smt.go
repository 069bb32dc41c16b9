package main

// SMT back end: one long-lived z3 process per worker, driven incrementally; the
// asserted stack mirrors the path condition of the current query.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// PC is a path condition: a persistent list of conjuncts.
type PC struct {
	parent *PC
	t      *Term
	depth  int
	id     int
}

var pcN int

func (p *PC) And(t *Term) *PC {
	if t.kind == KBool && t.b {
		return p
	}
	if t.kind == KAnd {
		for _, a := range t.args {
			p = p.And(a)
		}
		return p
	}
	for q := p; q != nil; q = q.parent {
		if q.t == t {
			return p
		}
	}
	pcN++
	d := 1
	if p != nil {
		d = p.depth + 1
	}
	return &PC{p, t, d, pcN}
}
func (p *PC) list() []*Term {
	if p == nil {
		return nil
	}
	out := make([]*Term, p.depth)
	for q := p; q != nil; q = q.parent {
		out[q.depth-1] = q.t
	}
	return out
}
func (p *PC) pid() int {
	if p == nil {
		return 0
	}
	return p.id
}
func (p *PC) has(t *Term) bool {
	for q := p; q != nil; q = q.parent {
		if q.t == t {
			return true
		}
	}
	return false
}
func (p *PC) String() string { return joinT(p.list(), " & ") }

type solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	stack    []*Term
	facts    []map[*Term]bool // facts asserted per level
	nq       int
	dur      time.Duration
	log      *os.File
}

var theSolver, theQuantSolver *solver
var smtStats struct {
	queries, cached int
	dur             time.Duration
	slow            int
	fallback        int
}

const z3Limit = 4000000

var forallMemo = map[*Term]bool{}

func hasForall(t *Term) bool {
	if t.kind == KForall {
		return true
	}
	if t.kind != KAnd && t.kind != KOr && t.kind != KNot {
		return false
	}
	if r, ok := forallMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		r = r || hasForall(a)
	}
	forallMemo[t] = r
	return r
}

func solverPath() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

func newSolver(limit int) *solver {
	cmd := exec.Command(solverPath(), "-in", "-smt2")
	cmd.SysProcAttr = dieWithParent()
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic("cannot start z3: " + err.Error())
	}
	s := &solver{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), declared: map[string]bool{}}
	if f := os.Getenv("GOVERIF_SMTLOG"); f != "" {
		s.log, _ = os.Create(f)
	}
	s.facts = []map[*Term]bool{{}}
	s.send("(set-option :global-declarations true)\n(set-option :rlimit " + strconv.Itoa(limit) + ")\n(set-option :timeout 8000)\n")
	s.send("(declare-fun f_exp (Real) Real)(declare-fun f_log (Real) Real)(declare-fun f_sin (Real) Real)(declare-fun f_cos (Real) Real)(declare-fun f_tan (Real) Real)(declare-fun f_sinh (Real) Real)(declare-fun f_cosh (Real) Real)(declare-fun f_tanh (Real) Real)(declare-fun f_sqrt (Real) Real)(declare-fun f_pow (Real Real) Real)\n")
	s.send("(define-fun absI ((x Int)) Int (ite (< x 0) (- x) x))(define-fun absR ((x Real)) Real (ite (< x 0.0) (- x) x))\n")
	return s
}

func (s *solver) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *solver) send(t string) {
	if s.log != nil {
		s.log.WriteString(t)
	}
	io.WriteString(s.in, t)
}

func (s *solver) recv() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "error: solver died"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

var smtStr = map[*Term]string{}

func sname(n string) string { return "|" + n + "|" }

func ratS(t *Term) string {
	r := t.num
	if t.sort == SInt {
		n := r.Num()
		if n.Sign() < 0 {
			return "(- " + n.String()[1:] + ")"
		}
		return n.String()
	}
	n := r.Num()
	neg := n.Sign() < 0
	ns := n.String()
	if neg {
		ns = ns[1:]
	}
	v := ns + ".0"
	if !r.IsInt() {
		v = "(/ " + ns + ".0 " + r.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + v + ")"
	}
	return v
}

func (s *solver) decl(key, text string) {
	if !s.declared[key] {
		s.declared[key] = true
		s.send(text)
	}
}

// str translates t; declarations are sent on the fly.
func (s *solver) str(t *Term) string {
	if r, ok := smtStr[t]; ok {
		s.declFor(t)
		return r
	}
	r := s.str1(t)
	if t.bvs == 0 {
		smtStr[t] = r
	}
	return r
}

// declFor re-sends declarations for a memoised string (needed after a restart).
var declDone = map[*solver]map[*Term]bool{}

func (s *solver) declFor(t *Term) {
	m := declDone[s]
	if m == nil {
		m = map[*Term]bool{}
		declDone[s] = m
	}
	if m[t] {
		return
	}
	m[t] = true
	s.str1(t)
}

func (s *solver) str1(t *Term) string {
	switch t.kind {
	case KNum:
		return ratS(t)
	case KBool:
		return strconv.FormatBool(t.b)
	case KVar:
		s.decl(t.name, "(declare-const "+sname(t.name)+" "+t.sort.String()+")\n")
		return sname(t.name)
	case KBV:
		return "b_" + strconv.Itoa(t.b2h())
	case KPoly:
		var parts []string
		for _, m := range t.mons {
			var fs []string
			if m.c.Cmp(ratOne) != 0 || len(m.fs) == 0 {
				fs = append(fs, ratS(mkRat(t.sort, m.c)))
			}
			for _, f := range m.fs {
				x := s.str(f.t)
				e := f.e
				if e < 0 {
					x = "(/ 1.0 " + x + ")"
					e = -e
				}
				for i := 0; i < e; i++ {
					fs = append(fs, x)
				}
			}
			if len(fs) == 1 {
				parts = append(parts, fs[0])
			} else {
				parts = append(parts, "(* "+strings.Join(fs, " ")+")")
			}
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case KIte:
		return "(ite " + s.str(t.args[0]) + " " + s.str(t.args[1]) + " " + s.str(t.args[2]) + ")"
	case KLe:
		return "(<= " + s.str(t.args[0]) + " " + zero(t.args[0].sort) + ")"
	case KLt:
		return "(< " + s.str(t.args[0]) + " " + zero(t.args[0].sort) + ")"
	case KEq:
		return "(= " + s.str(t.args[0]) + " " + zero(t.args[0].sort) + ")"
	case KAnd, KOr:
		var l []string
		for _, a := range t.args {
			l = append(l, s.str(a))
		}
		op := "and"
		if t.kind == KOr {
			op = "or"
		}
		return "(" + op + " " + strings.Join(l, " ") + ")"
	case KNot:
		return "(not " + s.str(t.args[0]) + ")"
	case KForall:
		h := strconv.Itoa(int(t.num.Num().Int64()))
		return "(forall ((b_" + h + " Int)) (=> (and (<= 0 b_" + h + ") (< b_" + h + " " + s.str(t.args[0]) + ")) " + s.str(t.args[1]) + "))"
	case KSum, KMaxF, KMinF:
		// opaque; a function of the bound variables it mentions
		n := "fold_" + strconv.Itoa(t.id)
		var bs, ss []string
		for h := 0; h < 64; h++ {
			if t.bvs&(1<<uint(h)) != 0 {
				bs = append(bs, "b_"+strconv.Itoa(h))
				ss = append(ss, "Int")
			}
		}
		s.decl(n, "(declare-fun "+n+" ("+strings.Join(ss, " ")+") "+t.sort.String()+")\n")
		if len(bs) == 0 {
			return n
		}
		return "(" + n + " " + strings.Join(bs, " ") + ")"
	case KApp:
		switch t.name {
		case "real":
			return "(to_real " + s.str(t.args[0]) + ")"
		case "abs":
			if t.sort == SInt {
				return "(absI " + s.str(t.args[0]) + ")"
			}
			return "(absR " + s.str(t.args[0]) + ")"
		case "max", "min":
			op := ">="
			if t.name == "min" {
				op = "<="
			}
			r := s.str(t.args[0])
			for _, a := range t.args[1:] {
				x := s.str(a)
				r = "(ite (" + op + " " + r + " " + x + ") " + r + " " + x + ")"
			}
			return r
		case "exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "sqrt", "pow":
			var l []string
			for _, a := range t.args {
				l = append(l, s.str(a))
			}
			return "(f_" + t.name + " " + strings.Join(l, " ") + ")"
		}
		var l, ss []string
		for _, a := range t.args {
			l = append(l, s.str(a))
			ss = append(ss, a.sort.String())
		}
		n := sname(t.name + "#" + strconv.Itoa(len(t.args)))
		s.decl(n+strings.Join(ss, ","), "(declare-fun "+n+" ("+strings.Join(ss, " ")+") "+t.sort.String()+")\n")
		if len(l) == 0 {
			return n
		}
		return "(" + n + " " + strings.Join(l, " ") + ")"
	}
	panic("smt: " + t.String())
}

func zero(s Sort) string {
	if s == SInt {
		return "0"
	}
	return "0.0"
}

// factsFor collects true statements about interpreted applications in t.
func factsFor(t *Term, out map[*Term]*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.mons {
			for _, f := range m.fs {
				rec(f.t)
			}
		}
		if t.kind == KApp && t.bvs == 0 {
			if isLen(t) {
				out[t] = intern("len>="+strconv.Itoa(t.id), &Term{kind: KLe, sort: SBool, args: []*Term{Neg(t)}})
			}
			switch t.name {
			case "exp":
				out[t] = Gt(t, R(0))
			case "cosh":
				out[t] = Ge(t, R(1))
			case "sqrt":
				out[t] = And(Ge(t, R(0)), Implies(Gt(t.args[0], R(0)), Gt(t, R(0))))
			case "tanh", "sin", "cos":
				out[t] = And(Le(t, R(1)), Ge(t, R(-1)))
			case "log":
				x := t.args[0]
				out[t] = Implies(Gt(x, R(0)), And(Le(t, Sub(x, R(1))), Implies(Ge(x, R(1)), Ge(t, R(0))), Implies(Lt(x, R(1)), Lt(t, R(0)))))
			case "dig":
				j, _ := t.args[0].intVal()
				d := t.args[2+j]
				if d.bvs == 0 {
					out[t] = And(Ge(t, I(0)), Lt(t, d))
				}
			case "pow":
				out[t] = Implies(Gt(t.args[0], R(0)), Gt(t, R(0)))
			}
		}
		if (t.kind == KMaxF || t.kind == KMinF) && t.bvs == 0 {
			out[t] = extremal(t, t)
		}
		if t.kind == KSum && t.bvs == 0 && t.sort == SReal && obviouslyPos(t.args[1]) {
			out[t] = Implies(Ge(t.args[0], I(1)), Gt(t, R(0)))
		}
	}
	rec(t)
}

// extremal: no element lies beyond the maximum or minimum all over them.
func extremal(all, t *Term) *Term {
	v := Fresh("m", SInt)
	in := openFold(t, v)
	var body *Term
	switch {
	case in.kind == t.kind:
		body = extremal(all, in)
	case t.kind == KMaxF:
		body = Le(in, all)
	default:
		body = Le(all, in)
	}
	return mkFold(KForall, v, t.args[0], body)
}

func obviouslyPos(t *Term) bool {
	switch t.kind {
	case KNum:
		return t.num.Sign() > 0
	case KApp:
		return t.name == "exp" || t.name == "cosh"
	case KPoly:
		for _, m := range t.mons {
			if m.c.Sign() <= 0 {
				return false
			}
			for _, f := range m.fs {
				if !obviouslyPos(f.t) {
					return false
				}
			}
		}
		return true
	case KSum:
		return obviouslyPos(t.args[1])
	}
	return false
}

func (s *solver) push(t *Term) {
	txt := s.str(t)
	s.send("(push 1)\n")
	s.facts = append(s.facts, map[*Term]bool{})
	s.assertFacts(t)
	s.send("(assert " + txt + ")\n")
	s.stack = append(s.stack, t)
}

func (s *solver) assertFacts(t *Term) {
	fs := map[*Term]*Term{}
	factsFor(t, fs)
	keys := make([]*Term, 0, len(fs))
	for k := range fs {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
next:
	for _, k := range keys {
		for _, l := range s.facts {
			if l[k] {
				continue next
			}
		}
		s.facts[len(s.facts)-1][k] = true
		s.send("(assert " + s.str(fs[k]) + ")\n")
	}
}

func (s *solver) pop(n int) {
	if n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:len(s.stack)-n]
		s.facts = s.facts[:len(s.facts)-n]
	}
}

func (s *solver) setStack(l []*Term) {
	i := 0
	for i < len(l) && i < len(s.stack) && l[i] == s.stack[i] {
		i++
	}
	s.pop(len(s.stack) - i)
	for ; i < len(l); i++ {
		s.push(l[i])
	}
}

// check returns "sat", "unsat" or "unknown" for pc && extra.
func smtCheck(pc *PC, extra *Term) string {
	list := pc.list()
	which, lim, q := &theSolver, z3Limit, 0
	for _, t := range list {
		if hasForall(t) {
			q++
		}
	}
	if q > 2 { // a model of many quantified facts is seldom found
		which, lim = &theQuantSolver, z3Limit/12
	}
	if *which == nil {
		*which = newSolver(lim)
	}
	s := *which
	start := time.Now()
	s.setStack(list)
	txt := s.str(extra)
	s.send("(push 1)\n")
	s.facts = append(s.facts, map[*Term]bool{})
	s.assertFacts(extra)
	s.send("(assert " + txt + ")\n(check-sat)\n")
	r := s.recv()
	s.send("(pop 1)\n")
	s.facts = s.facts[:len(s.facts)-1]
	d := time.Since(start)
	smtStats.queries++
	smtStats.dur += d
	if d > 500*time.Millisecond {
		smtStats.slow++
		if os.Getenv("GOVERIF_SLOW") != "" {
			fmt.Fprintf(os.Stderr, "slow query %v %s: %s |- %s\n", d, r, pc, extra)
		}
	}
	if strings.HasPrefix(r, "(error") || strings.HasPrefix(r, "error") {
		if os.Getenv("GOVERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "smt:", r, "for", extra)
		}
		s.close()
		*which = nil
		return "unknown"
	}
	return r
}

type qkey struct {
	pc int
	t  *Term
}

var entCache = map[qkey]bool{}

// entails: pc |- t
func entails(pc *PC, t *Term) bool {
	if t.kind == KBool {
		if t.b {
			return true
		}
	}
	for q := pc; q != nil; q = q.parent {
		if q.t == t {
			return true
		}
	}
	k := qkey{pc.pid(), t}
	if r, ok := entCache[k]; ok {
		smtStats.cached++
		return r
	}
	if t.kind == KAnd {
		for _, a := range t.args {
			if !entails(pc, a) {
				entCache[k] = false
				return false
			}
		}
		entCache[k] = true
		return true
	}
	r := smtCheck(pc, Not(t)) == "unsat"
	entCache[k] = r
	return r
}

// decide: +1 entailed, -1 refuted, 0 open
func decide(pc *PC, t *Term) int {
	if t.kind == KBool {
		if t.b {
			return 1
		}
		return -1
	}
	if entails(pc, t) {
		return 1
	}
	if entails(pc, Not(t)) {
		return -1
	}
	return 0
}

func feasible(pc *PC) bool { return smtCheck(pc, tTrue) != "unsat" }
