package main

// Domain vocabulary: measures over points, vectors, indexes and groups.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
)

func mustParse(s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(evalErr{err.Error()})
	}
	return e
}

func (x *Exec) setup() {
	dpT := x.typ("common.DataPoint")
	dp := sortOf(dpT)
	sel := func(f string, t *Term) *Term { return Sel(dp+"."+f, t) }
	coord := func(v, j *Term) *Term { return Select(Select(contTerm(), sRef(v)), Add(sOff(v), j)) }
	// cnt(d; seq): number of occurrences of the point d
	DefMeasure(&Measure{Name: "cnt", Elem: dp, Params: []string{dp}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term { return Ite(Eq(e, ps[0]), Int(1), Int(0)) }})
	// sum(j; seq): sum of the j-th coordinates of the points
	DefMeasure(&Measure{Name: "sum", Elem: dp, Params: []string{"Int"}, Ret: "Real",
		W: func(ps []*Term, e *Term) *Term { return coord(sel("Vec", e), ps[0]) }})
	// bad(n; seq): number of points whose dimension is not n
	DefMeasure(&Measure{Name: "bad", Elem: dp, Params: []string{"Int"}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term { return Ite(Eq(sLen(sel("Vec", e)), ps[0]), Int(0), Int(1)) }})
	// exps(t; seq): number of points expired at time t
	DefMeasure(&Measure{Name: "exps", Elem: dp, Params: []string{"Int"}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term {
			return Ite(And(sel("ExpireEnabled", e), Gt(ps[0], sel("Expires", e))), Int(1), Int(0))
		}})
	{
		t, u, s := BVar("t", "Int"), BVar("u", "Int"), BVar("s", SeqSort(dp))
		axiom("m_exps", "monotone", []*Term{t, u, s}, Implies(Le(t, u), Le(F("exps", t, s), F("exps", u, s))), pat(F("exps", t, s), F("exps", u, s)))
	}
	// sumv(j; vecs), badv(n; vecs)
	DefMeasure(&Measure{Name: "sumv", Elem: "Slice", Params: []string{"Int"}, Ret: "Real",
		W: func(ps []*Term, e *Term) *Term { return coord(e, ps[0]) }})
	DefMeasure(&Measure{Name: "badv", Elem: "Slice", Params: []string{"Int"}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term { return Ite(Eq(sLen(e), ps[0]), Int(0), Int(1)) }})
	// occ(q; ints): occurrences of q
	DefMeasure(&Measure{Name: "occ", Elem: "Int", Params: []string{"Int"}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term { return Ite(Eq(e, ps[0]), Int(1), Int(0)) }})
	x.concVocab()
	x.searchVocab()
	x.managerVocab(dp)
	x.netVocab()
	safely(x.httpVocab)
	// pick(d, s; idxs): how many of the indexes select d from s
	sdp := SeqSort(dp)
	DefMeasure(&Measure{Name: "pick", Elem: "Int", Params: []string{dp, sdp}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term { return Ite(Eq(SeqIdx(ps[1], e), ps[0]), Int(1), Int(0)) }})
	// distinct valid indexes select a point at most as often as it occurs;
	// if they select it less often, some position of it is not selected
	{
		si := SeqSort("Int")
		d, s, I := BVar("d", dp), BVar("s", sdp), BVar("I", si)
		for _, n := range []string{"wit_pick1", "wit_pick2", "wit_pick3"} {
			defFun(n, []string{dp, sdp, si}, "Int", "m_pick")
		}
		w1, w2, w3 := F("wit_pick1", d, s, I), F("wit_pick2", d, s, I), F("wit_pick3", d, s, I)
		pk, ct := F("pick", d, s, I), F("cnt", d, s)
		in := func(i, n *Term) *Term { return And(Le(Int(0), i), Lt(i, n)) }
		axiom("m_pick", "atmost", []*Term{d, s, I}, Or(Le(pk, ct), And(in(w1, SeqLen(s)), Ge(F("occ", w1, I), Int(2))),
			And(in(w2, SeqLen(I)), Not(in(SeqIdx(I, w2), SeqLen(s))))), pat(pk))
		axiom("m_pick", "atleast", []*Term{d, s, I}, Or(Le(ct, pk), And(in(w3, SeqLen(s)), Eq(SeqIdx(s, w3), d), Eq(F("occ", w3, I), Int(0)))), pat(pk))
	}
}

// DefRefs: a measure over references whose weights depend on a heap (the last
// parameter); it also gets a variant over index sequences ("pk"+name).
func DefRefs(name string, params []string, heapSort, ret string, nonneg bool, w func(ps []*Term, cell *Term) *Term) {
	n := len(params)
	wt := func(ps []*Term, e *Term) *Term { return w(ps[:n], App("select", arrElem(heapSort), ps[n], e)) }
	base := &Measure{Name: name, Elem: "Int", Params: append(append([]string{}, params...), heapSort), Ret: ret, NonNeg: nonneg, Big: true, W: wt}
	DefMeasure(base)
	refs := BVar("refs", SeqSort("Int"))
	r, v := BVar("r", "Int"), BVar("v", arrElem(heapSort))
	h, h2 := BVar("h", heapSort), BVar("h2", heapSort)
	var ps []*Term
	for i, q := range params {
		ps = append(ps, BVar(fmt.Sprintf("q%d", i), q))
	}
	st := App("store", heapSort, h, r, v)
	args := func(hh *Term, tail ...*Term) []*Term {
		return append(append(append([]*Term{}, ps...), hh), tail...)
	}
	stax := func(m string, tail []*Term, occ *Term) {
		new, old := F(m, args(st, tail...)...), F(m, args(h, tail...)...)
		vs := append(append([]*Term{}, ps...), h, r, v)
		vs = append(vs, tail...)
		axiom("m_"+m, "store", vs, And(Implies(Eq(occ, Int(0)), Eq(new, old)),
			Implies(Eq(occ, Int(1)), Eq(new, Add(Sub(old, w(ps, App("select", arrElem(heapSort), h, r))), w(ps, v))))), pat(new))
		// pointwise comparison of two heaps
		wn := "wit_le_" + m
		var srts []string
		for _, t := range args(h, append([]*Term{h2}, tail...)...) {
			srts = append(srts, t.Sort)
		}
		defFun(wn, srts, "Int", "m_"+m)
		wi := F(wn, args(h, append([]*Term{h2}, tail...)...)...)
		last := tail[len(tail)-1]
		e := SeqIdx(last, wi)
		if len(tail) > 1 {
			e = SeqIdx(tail[0], e)
		}
		a, b := F(m, args(h, tail...)...), F(m, args(h2, tail...)...)
		vs2 := append(append([]*Term{}, ps...), h, h2)
		vs2 = append(vs2, tail...)
		axiom("m_"+m, "pointwise", vs2, Or(Le(a, b), And(Le(Int(0), wi), Lt(wi, SeqLen(last)),
			Gt(w(ps, App("select", arrElem(heapSort), h, e)), w(ps, App("select", arrElem(heapSort), h2, e))))), pat(a, b))
	}
	stax(name, []*Term{refs}, F("occ", r, refs))
	DefPicked(base)
	I := BVar("I", SeqSort("Int"))
	stax("pk"+name, []*Term{refs, I}, F("pkocc", r, refs, I))
}

// DefPicked: pk<name>(ps, s; I) is the measure of the elements of s at the
// indexes I; distinct indexes select at most the whole, all of them exactly.
func DefPicked(b *Measure) {
	si := SeqSort("Int")
	n := len(b.Params)
	nm := "pk" + b.Name
	ss := SeqSort(b.Elem)
	DefMeasure(&Measure{Name: nm, Elem: "Int", Params: append(append([]string{}, b.Params...), ss), Ret: b.Ret, NonNeg: b.NonNeg, Big: b.Big,
		W: func(ps []*Term, e *Term) *Term { return b.W(ps[:n], SeqIdx(ps[n], e)) }})
	s, I := BVar("s", ss), BVar("I", si)
	var ps []*Term
	for i, q := range b.Params {
		ps = append(ps, BVar(fmt.Sprintf("q%d", i), q))
	}
	vs := append(append([]*Term{}, ps...), s, I)
	defFun("wit_"+nm+"_r", append(append([]string{}, b.Params...), ss, si), "Int", "m_"+nm)
	w := F("wit_"+nm+"_r", vs...)
	bad := And(Le(Int(0), w), Lt(w, SeqLen(I)), Not(And(Le(Int(0), SeqIdx(I, w)), Lt(SeqIdx(I, w), SeqLen(s)))))
	pk, all := F(nm, vs...), F(b.Name, append(append([]*Term{}, ps...), s)...)
	if b.NonNeg {
		axiom("m_"+nm, "atmost", vs, Or(Le(pk, all), Not(F("nodup", I)), bad), pat(pk))
	}
	axiom("m_"+nm, "all", vs, Or(Eq(pk, all), Not(F("nodup", I)), Not(Eq(SeqLen(I), SeqLen(s))), bad), pat(pk))
}

func (x *Exec) managerVocab(dp string) {
	si := SeqSort("Int")
	// distinct(s): no element occurs twice
	// nodupz: no value but 0 occurs twice
	defFun("nodupz", []string{si}, "Bool", "nodupz")
	defFun("wit_nodupz", []string{si}, "Int", "nodupz")
	{
		s, q := BVar("s", si), BVar("q", "Int")
		d, w := F("nodupz", s), F("wit_nodupz", s)
		axiom("nodupz", "once", []*Term{s, q}, Implies(And(d, Not(Eq(q, Int(0)))), Le(F("occ", q, s), Int(1))), pat(d, F("occ", q, s)))
		axiom("nodupz", "witness", []*Term{s}, Or(d, And(Not(Eq(w, Int(0))), Ge(F("occ", w, s), Int(2)))), pat(d))
	}
	defFun("nodup", []string{si}, "Bool", "nodup")
	defFun("wit_nodup", []string{si}, "Int", "nodup")
	{
		s, q, i, j := BVar("s", si), BVar("q", "Int"), BVar("i", "Int"), BVar("j", "Int")
		d := F("nodup", s)
		in := func(i *Term) *Term { return And(Le(Int(0), i), Lt(i, SeqLen(s))) }
		axiom("nodup", "once", []*Term{s, q}, Implies(d, Le(F("occ", q, s), Int(1))), pat(d, F("occ", q, s)))
		axiom("nodup", "witness", []*Term{s}, Or(d, Ge(F("occ", F("wit_nodup", s), s), Int(2))), pat(d))
		for _, n := range []string{"wit_nodup1", "wit_nodup2"} {
			defFun(n, []string{si}, "Int", "nodup")
		}
		w1, w2 := F("wit_nodup1", s), F("wit_nodup2", s)
		axiom("nodup", "pair", []*Term{s}, Or(d, And(in(w1), in(w2), Not(Eq(w1, w2)), Eq(SeqIdx(s, w1), SeqIdx(s, w2)))), pat(d))
		axiom("nodup", "inj", []*Term{s, i, j}, Implies(And(d, in(i), in(j), Eq(SeqIdx(s, i), SeqIdx(s, j))), Eq(i, j)), pat(d, SeqIdx(s, i), SeqIdx(s, j)))
	}
	// subm(s, t): no element occurs more often in s than in t
	defFun("subm", []string{si, si}, "Bool", "subm")
	defFun("wit_subm", []string{si, si}, "Int", "subm")
	{
		s, t, q := BVar("s", si), BVar("t", si), BVar("q", "Int")
		d := F("subm", s, t)
		oc := func(q, s *Term) *Term { return F("occ", q, s) }
		w := F("wit_subm", s, t)
		axiom("subm", "le", []*Term{s, t, q}, Implies(d, Le(oc(q, s), oc(q, t))), pat(d, oc(q, s)), pat(d, oc(q, t)))
		axiom("subm", "witness", []*Term{s, t}, Or(d, Gt(oc(w, s), oc(w, t))), pat(d))
	}
	DefPicked(measures["occ"])
	md := ArrSort("Int", SeqSort(dp))
	DefRefs("mcnt", []string{dp}, md, "Int", true, func(ps []*Term, c *Term) *Term { return F("cnt", ps[0], c) })
	DefRefs("mlen", nil, md, "Int", true, func(ps []*Term, c *Term) *Term { return SeqLen(c) })
	DefRefs("mexps", []string{"Int"}, md, "Int", true, func(ps []*Term, c *Term) *Term { return F("exps", ps[0], c) })
	DefRefs("mvec", []string{"Int"}, ArrSort("Int", "Slice"), "Real", false, func(ps []*Term, c *Term) *Term {
		return Select(Select(contTerm(), sRef(c)), Add(sOff(c), ps[0]))
	})
	{
		t, u, h, s := BVar("t", "Int"), BVar("u", "Int"), BVar("h", md), BVar("s", si)
		axiom("m_mexps", "monotone", []*Term{t, u, h, s}, Implies(Le(t, u), Le(F("mexps", t, h, s), F("mexps", u, h, s))), pat(F("mexps", t, h, s), F("mexps", u, h, s)))
	}
	x.portionVocab()
	// mapsum(H, V): sum of V over the keys in H
	hb, vb := ArrSort("Int", "Bool"), ArrSort("Int", "Int")
	defFun("mapsum", []string{hb, vb}, "Int", "mapsum")
	H, H2, V := BVar("H", hb), BVar("H2", hb), BVar("V", vb)
	k, v := BVar("k", "Int"), BVar("v", "Int")
	ms := func(h, v *Term) *Term { return App("mapsum", "Int", h, v) }
	sel := func(a, i *Term) *Term { return App("select", arrElem(a.Sort), a, i) }
	axiom("mapsum", "key", []*Term{H, V, k}, Eq(ms(App("store", hb, H, k, True), V), Add(ms(H, V), Ite(sel(H, k), Int(0), sel(V, k)))), pat(ms(App("store", hb, H, k, True), V)))
	axiom("mapsum", "val", []*Term{H, V, k, v}, Eq(ms(H, App("store", vb, V, k, v)), Add(ms(H, V), Ite(sel(H, k), Sub(v, sel(V, k)), Int(0)))), pat(ms(H, App("store", vb, V, k, v))))
	defFun("wit_ms0", []string{hb, vb}, "Int", "mapsum")
	w0 := F("wit_ms0", H, V)
	axiom("mapsum", "empty", []*Term{H, V}, Or(Eq(ms(H, V), Int(0)), sel(H, w0)), pat(ms(H, V)))
	defFun("wit_ms1", []string{hb, hb, vb}, "Int", "mapsum")
	w1 := F("wit_ms1", H, H2, V)
	axiom("mapsum", "same", []*Term{H, H2, V}, Or(Eq(ms(H, V), ms(H2, V)), Not(Eq(sel(H, w1), sel(H2, w1)))), pat(ms(H, V), ms(H2, V)))
	for _, n := range []string{"wit_ms2", "wit_ms3"} {
		defFun(n, []string{hb, vb, md, si}, "Int", "mapsum2")
	}
	defFun("msumcmp", []string{hb, vb, md, si}, "Bool", "mapsum2")
	h, s := BVar("h", md), BVar("s", si)
	cmp := F("msumcmp", H, V, h, s)
	ml := F("mlen", h, s)
	lhs := func(w *Term) *Term { return Ite(sel(H, w), sel(V, w), Int(0)) }
	rhs := func(w *Term) *Term {
		return Ite(And(Le(Int(0), w), Lt(w, SeqLen(s))), SeqLen(sel(h, SeqIdx(s, w))), Int(0))
	}
	w2, w3 := F("wit_ms2", H, V, h, s), F("wit_ms3", H, V, h, s)
	// comparison of a map of portions with the sizes of the groups
	axiom("mapsum2", "atmost", []*Term{H, V, h, s}, Or(Le(ms(H, V), ml), Gt(lhs(w2), rhs(w2))), pat(cmp))
	axiom("mapsum2", "atleast", []*Term{H, V, h, s}, Or(Le(ml, ms(H, V)), Lt(lhs(w3), rhs(w3))), pat(cmp))
	axiom("mapsum2", "true", []*Term{H, V, h, s}, cmp, pat(cmp))
}

// portionVocab: keysin(H, n): every key in H is an index below n.
func (x *Exec) portionVocab() {
	hb := ArrSort("Int", "Bool")
	defFun("keysin", []string{hb, "Int"}, "Bool", "keysin")
	defFun("wit_keysin", []string{hb, "Int"}, "Int", "keysin")
	H, n, k := BVar("H", hb), BVar("n", "Int"), BVar("k", "Int")
	d := F("keysin", H, n)
	sel := func(k *Term) *Term { return App("select", "Bool", H, k) }
	in := func(k *Term) *Term { return And(Le(Int(0), k), Lt(k, n)) }
	axiom("keysin", "in", []*Term{H, n, k}, Implies(And(d, sel(k)), in(k)), pat(d, sel(k)))
	w := F("wit_keysin", H, n)
	axiom("keysin", "witness", []*Term{H, n}, Or(d, And(sel(w), Not(in(w)))), pat(d))
}

// dist2/dot over array contents, defined by their recursion.
func init() {
	ar := ArrSort("Int", "Real")
	// vat(A, o, i) = A[o+i], a name that is usable in triggers
	defFun("vat", []string{ar, "Int", "Int"}, "Real", "vat")
	{
		a, o, i := BVar("a", ar), BVar("o", "Int"), BVar("i", "Int")
		t := App("vat", "Real", a, o, i)
		axiom("vat", "def", []*Term{a, o, i}, Eq(t, App("select", "Real", a, Add(o, i))), pat(t))
	}
	for _, n := range []string{"dist2f", "dotf"} {
		n := n
		defFun(n, []string{ar, "Int", ar, "Int", "Int"}, "Real", n)
		a, b := BVar("a", ar), BVar("b", ar)
		o, p, i, j := BVar("o", "Int"), BVar("p", "Int"), BVar("i", "Int"), BVar("j", "Int")
		f := func(i *Term) *Term { return App(n, "Real", a, o, b, p, i) }
		axiom(n, "zero", []*Term{a, o, b, p, i}, Implies(Eq(i, Int(0)), Eq(f(i), ToReal(Int(0)))), pat(f(i)))
		var inc *Term
		x, y := App("select", "Real", a, Add(o, i)), App("select", "Real", b, Add(p, i))
		if n == "dotf" {
			inc = App("rmul", "Real", x, y)
		} else {
			inc = App("rmul", "Real", Sub(x, y), Sub(x, y))
		}
		axiom(n, "step", []*Term{a, o, b, p, i, j}, Implies(And(Le(Int(0), i), Eq(j, Add(i, Int(1)))), Eq(f(j), Add(f(i), inc))), pat(f(i), f(j)))
	}
}

// safely runs a vocabulary definition that depends on a type of the repository;
// if the type is gone, contracts using the vocabulary are reported instead.
func safely(f func()) {
	defer func() {
		if r := recover(); r != nil && os.Getenv("GOVC_DEBUG") != "" {
			fmt.Println("vocabulary:", r)
		}
	}()
	f()
}

// searchVocab: score functions and measures over search result items.
func (x *Exec) searchVocab() {
	// fscore/fok: value and success of a distance function value
	defFun("fscore", []string{"Int", "Slice", "Slice"}, "Real", "")
	defFun("fok", []string{"Int", "Slice", "Slice"}, "Bool", "")
	// ncomp(f, t; vecs): number of vectors comparable with t
	DefMeasure(&Measure{Name: "ncomp", Elem: "Slice", Params: []string{"Int", "Slice"}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term { return Ite(F("fok", ps[0], ps[1], e), Int(1), Int(0)) }})
	// ncomp and badv are complementary unless some vector says otherwise
	defFun("wit_ncompbadv", []string{"Int", "Slice", "Int", SeqSort("Slice")}, "Int", "m_ncomp")
	{
		f, t, n, s := BVar("f", "Int"), BVar("t", "Slice"), BVar("n", "Int"), BVar("s", SeqSort("Slice"))
		w := F("wit_ncompbadv", f, t, n, s)
		e := SeqIdx(s, w)
		nc, bv := F("ncomp", f, t, s), F("badv", n, s)
		axiom("m_ncomp", "complement", []*Term{f, t, n, s}, Or(Eq(Add(nc, bv), SeqLen(s)),
			And(Le(Int(0), w), Lt(w, SeqLen(s)), Eq(F("fok", f, t, e), Not(Eq(sLen(e), n))))), pat(nc, bv))
	}
	safely(func() {
		ri := sortOf(x.typ("searchutils.resultItem"))
		f := func(n string, t *Term) *Term { return Sel(ri+"."+n, t) }
		f("set", BVar("e", ri))
		f("index", BVar("e", ri))
		// nset/nunset: items in use and not in use; occi(q; items): items in use with index q
		DefMeasure(&Measure{Name: "nset", Elem: ri, Ret: "Int", NonNeg: true,
			W: func(ps []*Term, e *Term) *Term { return Ite(f("set", e), Int(1), Int(0)) }})
		DefMeasure(&Measure{Name: "nunset", Elem: ri, Ret: "Int", NonNeg: true,
			W: func(ps []*Term, e *Term) *Term { return Ite(f("set", e), Int(0), Int(1)) }})
		s := BVar("s", SeqSort(ri))
		axiom("m_nset", "complement", []*Term{s}, Eq(Add(F("nset", s), F("nunset", s)), SeqLen(s)), pat(F("nset", s)))
		DefMeasure(&Measure{Name: "occi", Elem: ri, Params: []string{"Int"}, Ret: "Int", NonNeg: true,
			W: func(ps []*Term, e *Term) *Term {
				return Ite(And(f("set", e), Eq(f("index", e), ps[0])), Int(1), Int(0))
			}})
	})
}

// cossim: the cosine of two vectors; 0 if one of them is the zero vector.
func init() {
	ar := ArrSort("Int", "Real")
	defFun("cossimf", []string{ar, "Int", ar, "Int", "Int"}, "Real", "cossimf")
	a, b := BVar("a", ar), BVar("b", ar)
	o, p, n := BVar("o", "Int"), BVar("p", "Int"), BVar("n", "Int")
	z := ToReal(Int(0))
	c := App("cossimf", "Real", a, o, b, p, n)
	dot := func(a, o, b, p *Term) *Term { return App("dotf", "Real", a, o, b, p, n) }
	aa, bb := dot(a, o, a, o), dot(b, p, b, p)
	zero := Or(Eq(aa, z), Eq(bb, z))
	vs := []*Term{a, b, o, p, n}
	axiom("cossimf", "zero", vs, Implies(zero, Eq(c, z)), pat(c))
	sq := func(t *Term) *Term { return App("rsqrt", "Real", t) }
	axiom("cossimf", "def", vs, Implies(Not(zero), Eq(App("rmul", "Real", App("rmul", "Real", c, sq(aa)), sq(bb)), dot(a, o, b, p))), pat(c))
}
