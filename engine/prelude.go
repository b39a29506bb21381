package main

// Function symbols, sequence theory, measures and their axioms.

import (
	"fmt"
	"sort"
	"strings"
)

type FunSym struct {
	Name string
	Args []string
	Ret  string
	Grp  string
}

type Group struct {
	Name   string
	Axioms []*Term
	Named  []string
}

var funSyms = map[string]*FunSym{}
var groups = map[string]*Group{}

func defFun(name string, args []string, ret, grp string) {
	if _, ok := funSyms[name]; ok {
		return
	}
	funSyms[name] = &FunSym{name, args, ret, grp}
}

func group(n string) *Group {
	g := groups[n]
	if g == nil {
		g = &Group{Name: n}
		groups[n] = g
	}
	return g
}

func axiom(grp, name string, vars []*Term, body *Term, pats ...[]*Term) {
	g := group(grp)
	g.Axioms = append(g.Axioms, Forall(vars, body, pats...))
	g.Named = append(g.Named, name)
}

func F(name string, args ...*Term) *Term {
	f := funSyms[name]
	if f == nil {
		panic("undeclared function symbol " + name)
	}
	if len(args) != len(f.Args) {
		panic("arity of " + name)
	}
	for i := range args {
		if args[i].Sort != f.Args[i] {
			panic(fmt.Sprintf("%s arg %d: have %s want %s", name, i, args[i].Sort, f.Args[i]))
		}
	}
	return App(name, f.Ret, args...)
}

func pat(ts ...*Term) []*Term { return ts }

func init() {
	defFun("rmul", []string{"Real", "Real"}, "Real", "rmul")
	defFun("rdiv", []string{"Real", "Real"}, "Real", "rmul")
	x, y := BVar("x", "Real"), BVar("y", "Real")
	a, b := BVar("a", "Real"), BVar("b", "Real")
	z, o := ToReal(Int(0)), ToReal(Int(1))
	m := func(x, y *Term) *Term { return App("rmul", "Real", x, y) }
	d := func(x, y *Term) *Term { return App("rdiv", "Real", x, y) }
	axiom("rmul", "comm", []*Term{x, y}, Eq(m(x, y), m(y, x)), pat(m(x, y)))
	axiom("rmul", "zero", []*Term{x, y}, Implies(Eq(y, z), Eq(m(x, y), z)), pat(m(x, y)))
	axiom("rmul", "one", []*Term{x, y}, Implies(Eq(y, o), Eq(m(x, y), x)), pat(m(x, y)))
	axiom("rmul", "divmul", []*Term{x, y}, Implies(Not(Eq(y, z)), Eq(m(d(x, y), y), x)), pat(d(x, y)))
	axiom("rmul", "div1", []*Term{x, y}, Implies(Eq(y, o), Eq(d(x, y), x)), pat(d(x, y)))
	axiom("rmul", "inj", []*Term{a, b, y}, Implies(And(Not(Eq(y, z)), Eq(m(a, y), m(b, y))), Eq(a, b)), pat(m(a, y), m(b, y)))
	axiom("rmul", "sq", []*Term{x}, Ge(m(x, x), z), pat(m(x, x)))
	// square root: the non-negative root
	defFun("rsqrt", []string{"Real"}, "Real", "rsqrt")
	s := func(x *Term) *Term { return App("rsqrt", "Real", x) }
	axiom("rsqrt", "def", []*Term{x}, Implies(Ge(x, z), And(Ge(s(x), z), Eq(m(s(x), s(x)), x))), pat(s(x)))
	axiom("rsqrt", "zero", []*Term{x}, Implies(Ge(x, z), Eq(Eq(s(x), z), Eq(x, z))), pat(s(x)))
}

func clean(s string) string {
	return strings.NewReplacer("(", "", ")", "", " ", "_").Replace(s)
}

var seqDone = map[string]bool{}

func SeqSort(elem string) string {
	srt := "Seq_" + clean(elem)
	if seqDone[elem] {
		return srt
	}
	seqDone[elem] = true
	seqElem[srt] = elem
	c := clean(elem)
	arr := ArrSort("Int", elem)
	g := "seq_" + c
	defFun("len_"+c, []string{srt}, "Int", g)
	defFun("idx_"+c, []string{srt, "Int"}, elem, g)
	defFun("empty_"+c, nil, srt, g)
	defFun("unit_"+c, []string{elem}, srt, g)
	defFun("cat_"+c, []string{srt, srt}, srt, g)
	defFun("take_"+c, []string{srt, "Int"}, srt, g)
	defFun("drop_"+c, []string{srt, "Int"}, srt, g)
	defFun("upd_"+c, []string{srt, "Int", elem}, srt, g)
	defFun("vw_"+c, []string{arr, "Int", "Int"}, srt, g)
	defFun("seqeq_"+c, []string{srt, srt}, "Bool", g)
	defFun("seqw_"+c, []string{srt, srt}, "Int", g)
	defFun("perm_"+c, []string{srt, srt}, "Bool", g)
	s, t, u := BVar("s", srt), BVar("t", srt), BVar("u", srt)
	_ = u
	i, j, n, o := BVar("i", "Int"), BVar("j", "Int"), BVar("n", "Int"), BVar("o", "Int")
	x := BVar("x", elem)
	A := BVar("A", arr)
	ln, ix, cat, take, drop := SeqLen, SeqIdx, SeqCat, SeqTake, SeqDrop
	ax := func(name string, vars []*Term, body *Term, pats ...[]*Term) { axiom(g, name, vars, body, pats...) }
	zero := Int(0)
	in := func(i, n *Term) *Term { return And(Le(zero, i), Lt(i, n)) }
	upd := func(s, i, x *Term) *Term { return F("upd_"+c, s, i, x) }
	unit := func(x *Term) *Term { return F("unit_"+c, x) }
	emp := F("empty_" + c)
	vw := func(A, o, n *Term) *Term { return F("vw_"+c, A, o, n) }
	T := func(s, n *Term) *Term { return F("take_"+c, s, n) }
	D := func(s, n *Term) *Term { return F("drop_"+c, s, n) }
	C := func(a, b *Term) *Term { return F("cat_"+c, a, b) }
	ax("len0", []*Term{s}, Ge(ln(s), zero), pat(ln(s)))
	ax("lenempty", nil, Eq(ln(emp), zero))
	ax("empty", []*Term{s}, Implies(Eq(ln(s), zero), Eq(s, emp)), pat(ln(s)))
	ax("unitlen", []*Term{x}, And(Eq(ln(unit(x)), Int(1)), Eq(ix(unit(x), zero), x)), pat(unit(x)))
	ax("catlen", []*Term{s, t}, Eq(ln(C(s, t)), Add(ln(s), ln(t))), pat(C(s, t)))
	ax("catidx", []*Term{s, t, i}, And(
		Implies(in(i, ln(s)), Eq(ix(C(s, t), i), ix(s, i))),
		Implies(And(Le(ln(s), i), Lt(i, Add(ln(s), ln(t)))), Eq(ix(C(s, t), i), ix(t, Sub(i, ln(s)))))), pat(ix(C(s, t), i)))
	ax("catidxl", []*Term{s, t, i}, Implies(in(i, ln(s)), Eq(ix(C(s, t), i), ix(s, i))), pat(C(s, t), ix(s, i)))
	ax("catempty", []*Term{s, t}, And(Implies(Eq(ln(s), zero), Eq(C(s, t), t)), Implies(Eq(ln(t), zero), Eq(C(s, t), s))), pat(C(s, t)))
	ax("takelen", []*Term{s, n}, Implies(And(Le(zero, n), Le(n, ln(s))), Eq(ln(T(s, n)), n)), pat(T(s, n)))
	ax("takeidx", []*Term{s, n, i}, Implies(And(in(i, n), Le(n, ln(s))), Eq(ix(T(s, n), i), ix(s, i))), pat(ix(T(s, n), i)))
	ax("takeidx2", []*Term{s, n, i}, Implies(And(in(i, n), Le(n, ln(s))), Eq(ix(T(s, n), i), ix(s, i))), pat(T(s, n), ix(s, i)))
	ax("takeall", []*Term{s, n}, And(Implies(Eq(n, ln(s)), Eq(T(s, n), s)), Implies(Eq(n, zero), Eq(T(s, n), emp))), pat(T(s, n)))
	ax("droplen", []*Term{s, n}, Implies(And(Le(zero, n), Le(n, ln(s))), Eq(ln(D(s, n)), Sub(ln(s), n))), pat(D(s, n)))
	ax("dropidx", []*Term{s, n, i}, Implies(And(Le(zero, n), in(i, Sub(ln(s), n))), Eq(ix(D(s, n), i), ix(s, Add(i, n)))), pat(ix(D(s, n), i)))
	ax("dropidx2", []*Term{s, n, i}, Implies(And(Le(zero, n), Le(n, i), Lt(i, ln(s))), Eq(ix(D(s, n), Sub(i, n)), ix(s, i))), pat(D(s, n), ix(s, i)))
	ax("dropall", []*Term{s, n}, And(Implies(Eq(n, zero), Eq(D(s, n), s)), Implies(Eq(n, ln(s)), Eq(D(s, n), emp))), pat(D(s, n)))
	ax("taketake", []*Term{s, i, j}, Implies(And(Le(zero, j), Le(j, i), Le(i, ln(s))), Eq(T(T(s, i), j), T(s, j))), pat(T(T(s, i), j)))
	ax("dropdrop", []*Term{s, i, j}, Implies(And(Le(zero, i), Le(zero, j), Le(Add(i, j), ln(s))), Eq(D(D(s, i), j), D(s, Add(i, j)))), pat(D(D(s, i), j)))
	ax("takecat", []*Term{s, t, n}, And(
		Implies(Eq(n, ln(s)), And(Eq(T(C(s, t), n), s))),
		Implies(And(Le(zero, n), Le(n, ln(s))), Eq(T(C(s, t), n), T(s, n)))), pat(T(C(s, t), n)))
	ax("dropcat", []*Term{s, t, n}, And(Implies(Eq(n, ln(s)), Eq(D(C(s, t), n), t)),
		Implies(And(Le(zero, n), Le(n, ln(s))), Eq(D(C(s, t), n), C(D(s, n), t)))), pat(D(C(s, t), n)))
	ax("takestep", []*Term{s, i, j}, Implies(And(Le(zero, i), Eq(j, Add(i, Int(1))), Le(j, ln(s))), Eq(T(s, j), C(T(s, i), unit(ix(s, i))))), pat(T(s, i), T(s, j)))
	ax("taketakeCat", []*Term{s, i}, Implies(And(Le(zero, i), Le(i, ln(s))), Eq(C(T(s, i), D(s, i)), s)), pat(T(s, i), D(s, i)))
	ax("updlen", []*Term{s, i, x}, Eq(ln(upd(s, i, x)), ln(s)), pat(upd(s, i, x)))
	ax("updidx", []*Term{s, i, x, j}, Implies(in(j, ln(s)), Eq(ix(upd(s, i, x), j), Ite(Eq(i, j), x, ix(s, j)))), pat(ix(upd(s, i, x), j)))
	ax("updidx2", []*Term{s, i, x, j}, Implies(And(in(j, ln(s)), Not(Eq(i, j))), Eq(ix(upd(s, i, x), j), ix(s, j))), pat(upd(s, i, x), ix(s, j)))
	ax("updself", []*Term{s, i, x}, Implies(in(i, ln(s)), Eq(ix(upd(s, i, x), i), x)), pat(upd(s, i, x)))
	ax("vwlen", []*Term{A, o, n}, Implies(Ge(n, zero), Eq(ln(vw(A, o, n)), n)), pat(vw(A, o, n)))
	ax("vwidx", []*Term{A, o, n, i}, Implies(in(i, n), Eq(ix(vw(A, o, n), i), Select(A, Add(o, i)))), pat(ix(vw(A, o, n), i)))
	k := BVar("k", "Int")
	ax("vwstore", []*Term{A, k, x, o, n}, Ite(And(Le(o, k), Lt(k, Add(o, n))),
		Eq(vw(Store(A, k, x), o, n), upd(vw(A, o, n), Sub(k, o), x)),
		Eq(vw(Store(A, k, x), o, n), vw(A, o, n))), pat(vw(Store(A, k, x), o, n)))
	// extensionality through a witness
	w := F("seqw_"+c, s, t)
	ax("ext", []*Term{s, t}, Implies(And(Eq(ln(s), ln(t)), Implies(in(w, ln(s)), Eq(ix(s, w), ix(t, w)))), F("seqeq_"+c, s, t)), pat(F("seqeq_"+c, s, t)))
	ax("exteq", []*Term{s, t}, Implies(F("seqeq_"+c, s, t), Eq(s, t)), pat(F("seqeq_"+c, s, t)))
	ax("permlen", []*Term{s, t}, Implies(F("perm_"+c, s, t), Eq(ln(s), ln(t))), pat(F("perm_"+c, s, t)))
	_, _, _ = cat, take, drop
	return srt
}

var seqElem = map[string]string{}

func seqC(s *Term) string     { return strings.TrimPrefix(s.Sort, "Seq_") }
func isSeq(srt string) bool   { return strings.HasPrefix(srt, "Seq_") }
func SeqLen(s *Term) *Term    { return F("len_"+seqC(s), s) }
func SeqIdx(s, i *Term) *Term { return F("idx_"+seqC(s), s, i) }
func SeqEmpty(elem string) *Term {
	SeqSort(elem)
	return F("empty_" + clean(elem))
}
func SeqUnit(x *Term) *Term { SeqSort(x.Sort); return F("unit_"+clean(x.Sort), x) }
func SeqCat(a, b *Term) *Term {
	if strings.HasPrefix(a.Op, "empty_") {
		return b
	}
	if strings.HasPrefix(b.Op, "empty_") {
		return a
	}
	return F("cat_"+seqC(a), a, b)
}
func SeqTake(s, n *Term) *Term   { return F("take_"+seqC(s), s, n) }
func SeqDrop(s, n *Term) *Term   { return F("drop_"+seqC(s), s, n) }
func SeqUpd(s, i, x *Term) *Term { return F("upd_"+seqC(s), s, i, x) }
func SeqView(A, o, n *Term) *Term {
	e := arrElem(A.Sort)
	SeqSort(e)
	if n == Int(0) {
		return SeqEmpty(e)
	}
	return F("vw_"+clean(e), A, o, n)
}
func SeqEqT(a, b *Term) *Term { return F("seqeq_"+seqC(a), a, b) }
func Perm(a, b *Term) *Term   { return F("perm_"+seqC(a), a, b) }

// Measure: a homomorphism from sequences to (Int|Real, +) given by element weights.
type Measure struct {
	Name   string
	Elem   string
	Params []string
	Ret    string
	NonNeg bool
	Big    bool // weights may exceed 1
	W      func(ps []*Term, x *Term) *Term
}

var measures = map[string]*Measure{}

func DefMeasure(m *Measure) {
	if measures[m.Name] != nil {
		return
	}
	measures[m.Name] = m
	srt := SeqSort(m.Elem)
	c := clean(m.Elem)
	g := "m_" + m.Name
	defFun(m.Name, append(append([]string{}, m.Params...), srt), m.Ret, g)
	var ps []*Term
	for i, p := range m.Params {
		ps = append(ps, BVar(fmt.Sprintf("p%d", i), p))
	}
	M := func(s *Term) *Term { return F(m.Name, append(append([]*Term{}, ps...), s)...) }
	W := func(x *Term) *Term { return m.W(ps, x) }
	s, t := BVar("s", srt), BVar("t", srt)
	i, j := BVar("i", "Int"), BVar("j", "Int")
	x := BVar("x", m.Elem)
	zero := Int(0)
	var rz *Term = zero
	if m.Ret == "Real" {
		rz = ToReal(zero)
	}
	vs := func(v ...*Term) []*Term { return append(append([]*Term{}, ps...), v...) }
	ax := func(name string, vars []*Term, body *Term, pats ...[]*Term) { axiom(g, name, vars, body, pats...) }
	T := func(s, n *Term) *Term { return F("take_"+c, s, n) }
	D := func(s, n *Term) *Term { return F("drop_"+c, s, n) }
	C := func(a, b *Term) *Term { return F("cat_"+c, a, b) }
	ax("nil", vs(s), Implies(Eq(SeqLen(s), zero), Eq(M(s), rz)), pat(M(s)))
	ax("cat", vs(s, t), Eq(M(C(s, t)), Add(M(s), M(t))), pat(M(C(s, t))))
	ax("unit", vs(x), Eq(M(F("unit_"+c, x)), W(x)), pat(M(F("unit_"+c, x))))
	rng := And(Le(zero, i), Le(i, SeqLen(s)))
	ax("split", vs(s, i), Implies(rng, Eq(M(s), Add(M(T(s, i)), M(D(s, i))))), pat(M(T(s, i))), pat(M(D(s, i))))
	st := And(Le(zero, i), Eq(j, Add(i, Int(1))), Le(j, SeqLen(s)))
	ax("takestep", vs(s, i, j), Implies(st, Eq(M(T(s, j)), Add(M(T(s, i)), W(SeqIdx(s, i))))), pat(M(T(s, i)), T(s, j)), pat(T(s, i), M(T(s, j))))
	ax("dropstep", vs(s, i, j), Implies(st, Eq(M(D(s, i)), Add(M(D(s, j)), W(SeqIdx(s, i))))), pat(M(D(s, i)), D(s, j)), pat(D(s, i), M(D(s, j))))
	ax("holestep", vs(s, i, j), Implies(st, Eq(M(s), Add(Add(M(T(s, i)), W(SeqIdx(s, i))), M(D(s, j))))), pat(M(T(s, i)), D(s, j)))
	ax("upd", vs(s, i, x), Implies(And(Le(zero, i), Lt(i, SeqLen(s))),
		Eq(M(F("upd_"+c, s, i, x)), Add(Sub(M(s), W(SeqIdx(s, i))), W(x)))), pat(M(F("upd_"+c, s, i, x))))
	ax("perm", vs(s, t), Implies(F("perm_"+c, s, t), Eq(M(s), M(t))), pat(F("perm_"+c, s, t), M(s)), pat(F("perm_"+c, s, t), M(t)))
	if solveEqs == "smt.solve_eqs=false" {
		ax("one", vs(s), Implies(Eq(SeqLen(s), Int(1)), Eq(M(s), W(SeqIdx(s, zero)))), pat(M(s), SeqIdx(s, zero)))
	}
	if m.NonNeg {
		ax("nonneg", vs(s), Ge(M(s), rz), pat(M(s)))
		ax("member", vs(s, i), Implies(And(Le(zero, i), Lt(i, SeqLen(s))), Ge(M(s), W(SeqIdx(s, i)))), pat(M(s), SeqIdx(s, i)))
		if !m.Big {
			ax("atmost", vs(s), Le(M(s), SeqLen(s)), pat(M(s)))
		}
		wn := "wit_" + m.Name
		defFun(wn, append(append([]string{}, m.Params...), srt), "Int", g)
		wt := F(wn, vs(s)...)
		ax("witness", vs(s), Implies(Gt(M(s), rz), And(Le(zero, wt), Lt(wt, SeqLen(s)), Gt(W(SeqIdx(s, wt)), rz))), pat(M(s)))
	}
}

// collectSyms gathers variables, function symbols, and sorts in a term.
type symSet struct {
	vars  map[*Term]bool
	funs  map[string]bool
	sorts map[string]bool
	seen  map[*Term]bool
}

func newSymSet() *symSet {
	return &symSet{map[*Term]bool{}, map[string]bool{}, map[string]bool{}, map[*Term]bool{}}
}

func (s *symSet) addSort(srt string) {
	if s.sorts[srt] {
		return
	}
	s.sorts[srt] = true
	if strings.HasPrefix(srt, "(Array ") {
		a, b := splitArr(srt)
		s.addSort(a)
		s.addSort(b)
		return
	}
	if d, ok := datatypes[srt]; ok {
		for _, x := range d.Sorts {
			s.addSort(x)
		}
	}
}

func (s *symSet) add(t *Term) {
	if s.seen[t] {
		return
	}
	s.seen[t] = true
	s.addSort(t.Sort)
	if t.Op == "var" {
		s.vars[t] = true
	}
	if f, ok := funSyms[t.Op]; ok {
		s.funs[t.Op] = true
		for _, a := range f.Args {
			s.addSort(a)
		}
		s.addSort(f.Ret)
	}
	for _, a := range t.Args {
		s.add(a)
	}
	for _, v := range t.Vars {
		s.add(v)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			s.add(x)
		}
	}
}

// BuildQuery renders facts /\ not goal as an SMT-LIB script.
func BuildQuery(facts []*Term, goal *Term, nia bool) string {
	ss := newSymSet()
	for _, f := range facts {
		ss.add(f)
	}
	ss.add(goal)
	used := map[string]bool{}
	for {
		n := len(used)
		var fs []string
		for f := range ss.funs {
			fs = append(fs, f)
		}
		for _, f := range fs {
			g := funSyms[f].Grp
			if g != "" && !used[g] {
				used[g] = true
				if groups[g] != nil && !(nia && g == "rmul") {
					for _, a := range groups[g].Axioms {
						ss.add(a)
					}
				}
			}
		}
		if len(used) == n {
			break
		}
	}
	var b strings.Builder
	b.WriteString("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n;SOLVERHDR\n")
	// sorts
	var srts []string
	for s := range ss.sorts {
		srts = append(srts, s)
	}
	sort.Strings(srts)
	for _, s := range srts {
		if strings.HasPrefix(s, "(") || s == "Bool" || s == "Int" || s == "Real" {
			continue
		}
		if _, ok := datatypes[s]; ok {
			continue
		}
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", symName(s))
	}
	for _, s := range dtOrder {
		if !ss.sorts[s] {
			continue
		}
		d := datatypes[s]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", symName(s), symName(d.Ctor))
		for i := range d.Sels {
			fmt.Fprintf(&b, " (%s %s)", symName(d.Sels[i]), sortName(d.Sorts[i]))
		}
		b.WriteString("))))\n")
	}
	var fs []string
	for f := range ss.funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		y := funSyms[f]
		if nia && f == "rmul" {
			b.WriteString("(define-fun rmul ((x Real) (y Real)) Real (* x y))\n")
			continue
		}
		if nia && f == "rdiv" {
			b.WriteString("(define-fun rdiv ((x Real) (y Real)) Real (/ x y))\n")
			continue
		}
		fmt.Fprintf(&b, "(declare-fun %s (", symName(f))
		for i, a := range y.Args {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(sortName(a))
		}
		fmt.Fprintf(&b, ") %s)\n", sortName(y.Ret))
	}
	var vs []*Term
	for v := range ss.vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
	for _, v := range vs {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", symName(v.Name), sortName(v.Sort))
	}
	var gs []string
	for g := range used {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		if groups[g] == nil || (nia && g == "rmul") {
			continue
		}
		for _, a := range groups[g].Axioms {
			b.WriteString("(assert ")
			printTerm(&b, a, nil)
			b.WriteString(")\n")
		}
	}
	// shared subterms
	cnt := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				visit(x)
			}
		}
		order = append(order, t)
	}
	for _, f := range facts {
		visit(f)
	}
	visit(goal)
	names := map[*Term]string{}
	for _, t := range order {
		if cnt[t] > 1 && len(t.Args) > 0 && !t.Bound && t.Op != "forall" && t.Op != "exists" {
			n := fmt.Sprintf("t!%d", t.ID)
			fmt.Fprintf(&b, "(define-fun %s () %s ", n, sortName(t.Sort))
			printTerm(&b, t, names)
			b.WriteString(")\n")
			names[t] = n
		}
	}
	for _, f := range facts {
		b.WriteString("(assert ")
		printTerm(&b, f, names)
		b.WriteString(")\n")
	}
	b.WriteString("(assert (not ")
	printTerm(&b, goal, names)
	b.WriteString("))\n(check-sat)\n")
	return b.String()
}

func sortName(s string) string {
	if strings.HasPrefix(s, "(Array ") {
		a, b := splitArr(s)
		return "(Array " + sortName(a) + " " + sortName(b) + ")"
	}
	return symName(s)
}
