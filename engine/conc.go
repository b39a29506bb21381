package main

// Remote calls, local calls of collection operations, locks, goroutines and
// channels. All of it is recorded in one trace of events, G_ev.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var evT types.Type // struct type of an event
var tStringSlice = types.NewSlice(types.Typ[types.String])

var ghostTab = map[string]types.Type{}

const evSort = "S_Ev"

var traceMeasures = []string{"away", "back", "out", "taken", "puts", "acks", "locals", "elsewhere", "said", "sized"}

// concLits: number of string literals that occur in their definitions
var concLits int

var evFields []string

func (x *Exec) concVocab() {
	dp := x.typ("common.DataPoint")
	if evT == nil {
		cen := types.NewPointer(x.typ("centroid.Centroid"))
		var fs []*types.Var
		add := func(n string, t types.Type) {
			evFields = append(evFields, n)
			fs = append(fs, types.NewField(0, nil, n, t, false))
		}
		add("Meth", tString)
		add("Addr", tString)
		add("OK", tBool)
		add("NS", tString)
		add("S", tString)
		add("I", tInt)
		add("I2", tInt)
		add("B", tBool)
		add("V", tFloatSlice)
		add("DP", dp)
		add("L", tStringSlice)
		add("RB", tBool)
		add("RI", tInt)
		add("RI2", tInt)
		add("RV", tFloatSlice)
		add("RS", tStringSlice)
		add("RD", types.NewSlice(dp))
		add("RDS", &SeqType{dp})
		add("RC", types.NewSlice(cen))
		add("RCS", &SeqType{cen})
		add("N0", tInt)
		evT = types.NewNamed(types.NewTypeName(0, nil, "Ev", nil), types.NewStruct(fs, nil), nil)
		sortOf(evT)
		x.pr.Types["Ev"] = evT
		ghostTab["G_ev"] = &SeqType{evT}
		ghostTab["G_last"] = evT
		ghostTab["G_got"] = &SeqType{dp}
		for _, n := range []string{"G_home", "G_homen", "G_recv", "G_recvn", "G_asked", "G_reqs", "G_ran", "G_meta", "G_sum", "G_cnt", "G_nodes"} {
			ghostTab[n] = tInt
		}
		ghostTab["G_more"] = tBool
		ghostTab["G_ns"] = tString
		ghostTab["G_irc"] = &SeqType{tInt}
		ghostTab["G_known"] = &ArrT{tString, tBool}
		ghostTab["G_gen"] = &SeqType{tFloatSlice}
		ghostTab["G_ix"] = &SeqType{tInt}
		ghostTab["G_base"] = tInt
		if at, ok := x.pr.Types["common.Addr"]; ok {
			ghostTab["G_best"] = &SeqType{at}
			ghostTab["G_lens"] = types.NewMap(at, tInt)
		}
	}
	dps := sortOf(dp)
	es := sortOf(evT)
	f := func(e *Term, n string) *Term { return Sel(es+"."+n, e) }
	defFun("islocal", []string{"Str"}, "Bool", "")
	put := StrLit("KMeansServer.AddDataPoint")
	b := func(c *Term) *Term { return Ite(c, Int(1), Int(0)) }
	// away(d, ns; trace): accepted remote puts of d in ns
	DefMeasure(&Measure{Name: "away", Elem: es, Params: []string{dps, "Str"}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term {
			return b(And(Eq(f(e, "Meth"), put), f(e, "OK"), f(e, "RB"), Eq(f(e, "DP"), ps[0]), Eq(f(e, "NS"), ps[1])))
		}})
	// back(d, ns; trace): points d put into the node's own collection ns
	DefMeasure(&Measure{Name: "back", Elem: es, Params: []string{dps, "Str"}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term {
			return b(And(Eq(f(e, "Meth"), StrLit("local.AddDataPoint")), f(e, "RB"), Eq(f(e, "DP"), ps[0]), Eq(f(e, "NS"), ps[1])))
		}})
	// out(d, ns; trace): how often d was taken out of the own collection ns
	DefMeasure(&Measure{Name: "out", Elem: es, Params: []string{dps, "Str"}, Ret: "Int", NonNeg: true, Big: true,
		W: func(ps []*Term, e *Term) *Term {
			return Ite(And(Or(Eq(f(e, "Meth"), StrLit("local.DrainOrdered")), Eq(f(e, "Meth"), StrLit("local.DrainUnordered"))), Eq(f(e, "NS"), ps[1])), F("cnt", ps[0], f(e, "RDS")), Int(0))
		}})
	// taken(trace): number of points taken out of own collections
	DefMeasure(&Measure{Name: "taken", Elem: es, Params: nil, Ret: "Int", NonNeg: true, Big: true,
		W: func(ps []*Term, e *Term) *Term {
			return Ite(isLocal(e), SeqLen(f(e, "RDS")), Int(0))
		}})
	// puts(trace): remote puts tried
	DefMeasure(&Measure{Name: "puts", Elem: es, Params: nil, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term { return b(Eq(f(e, "Meth"), put)) }})
	// acks(trace): accepted remote puts, of whatever point and namespace
	DefMeasure(&Measure{Name: "acks", Elem: es, Params: nil, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term { return b(And(Eq(f(e, "Meth"), put), f(e, "OK"), f(e, "RB"))) }})
	// locals(trace): operations on the node's own collections
	DefMeasure(&Measure{Name: "locals", Elem: es, Params: nil, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term { return b(isLocal(e)) }})
	// elsewhere(ns; trace): operations on own collections other than ns
	DefMeasure(&Measure{Name: "elsewhere", Elem: es, Params: []string{"Str"}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term { return b(And(isLocal(e), Not(Eq(f(e, "NS"), ps[0])))) }})
	// said(a, v; trace): node a reported the vector v
	DefMeasure(&Measure{Name: "said", Elem: es, Params: []string{"Str", "Slice"}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term {
			return b(And(Or(Eq(f(e, "Meth"), StrLit("KMeansServer.Vec")), Eq(f(e, "Meth"), StrLit("KMeansServer.NearestCentroidVec"))),
				f(e, "OK"), Eq(f(e, "Addr"), ps[0]), Eq(f(e, "RV"), ps[1])))
		}})
	// sized(a, ns, n; trace): node a reported n points in ns, or could not be asked
	DefMeasure(&Measure{Name: "sized", Elem: es, Params: []string{"Str", "Str", "Int"}, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term {
			return b(And(Eq(f(e, "Addr"), ps[0]), Or(And(Eq(f(e, "Meth"), StrLit("KMeansServer.LenDP")), f(e, "OK"), Eq(f(e, "NS"), ps[1]), Eq(f(e, "RI"), ps[2])),
				And(Not(f(e, "OK")), Eq(ps[2], Int(0))))))
		}})
	// resp(trace): vectors that nodes reported
	DefMeasure(&Measure{Name: "resp", Elem: es, Ret: "Int", NonNeg: true,
		W: func(ps []*Term, e *Term) *Term {
			return b(And(Or(Eq(f(e, "Meth"), StrLit("KMeansServer.Vec")), Eq(f(e, "Meth"), StrLit("KMeansServer.NearestCentroidVec"))),
				f(e, "OK"), Not(Eq(sRef(f(e, "RV")), Int(0)))))
		}})
	concLits = len(strLitList)
	defFun("addrstr", []string{"S_common_Addr"}, "Str", "")
	defFun("dimof", []string{"Str"}, "Int", "")
}

// netVocab: addresses and answers of nodes.
func (x *Exec) netVocab() {
	b := func(c *Term) *Term { return Ite(c, Int(1), Int(0)) }
	safely(func() {
		// acnt(a; addrs), rcnt(a; replies): occurrences of an address
		as := sortOf(x.typ("common.Addr"))
		DefMeasure(&Measure{Name: "acnt", Elem: as, Params: []string{as}, Ret: "Int", NonNeg: true,
			W: func(ps []*Term, e *Term) *Term { return b(Eq(e, ps[0])) }})
		DefPicked(measures["acnt"])
		rs := sortOf(x.typ("nodes.fetchVecsRes"))
		DefMeasure(&Measure{Name: "rcnt", Elem: rs, Params: []string{as}, Ret: "Int", NonNeg: true,
			W: func(ps []*Term, e *Term) *Term { return b(Eq(Sel(rs+".addr", e), ps[0])) }})
		// the addresses of the replies, in order, occur as often as in the replies
		a, ss, rr := BVar("a", as), BVar("s", SeqSort(as)), BVar("r", SeqSort(rs))
		defFun("adr_rcnt", []string{SeqSort(as), SeqSort(rs)}, "Int", "m_rcnt")
		w := F("adr_rcnt", ss, rr)
		axiom("m_rcnt", "addrs", []*Term{a, ss, rr}, Or(Eq(F("acnt", a, ss), F("rcnt", a, rr)), Not(Eq(SeqLen(ss), SeqLen(rr))),
			And(Le(Int(0), w), Lt(w, SeqLen(ss)), Not(Eq(SeqIdx(ss, w), Sel(rs+".addr", SeqIdx(rr, w)))))), pat(F("acnt", a, ss), F("rcnt", a, rr)))
		// summap(keys, vals): the sum of the values at the keys
		ks, vs := ArrSort(as, "Bool"), ArrSort(as, "Int")
		defFun("summap", []string{ks, vs}, "Int", "summap")
		defFun("wit_summap", []string{ks, ks}, as, "summap")
		defFun("wit_sumneg", []string{ks, vs}, as, "summap")
		kk, k2, vv, q := BVar("k", ks), BVar("l", ks), BVar("v", vs), BVar("q", as)
		sm := F("summap", kk, vv)
		axiom("summap", "empty", []*Term{vv}, Eq(F("summap", ConstArr(ks, False), vv), Int(0)), pat(F("summap", ConstArr(ks, False), vv)))
		add := App("store", ks, kk, q, True)
		axiom("summap", "add", []*Term{kk, q, vv}, Implies(Not(App("select", "Bool", kk, q)), Eq(F("summap", add, vv), Add(sm, App("select", "Int", vv, q)))), pat(F("summap", add, vv)))
		xx := BVar("x", "Int")
		upd := App("store", vs, vv, q, xx)
		axiom("summap", "update", []*Term{kk, vv, q, xx}, Eq(F("summap", kk, upd), Add(sm, Ite(App("select", "Bool", kk, q), Sub(xx, App("select", "Int", vv, q)), Int(0)))), pat(F("summap", kk, upd)))
		w1, w2 := F("wit_summap", kk, k2), F("wit_sumneg", kk, vv)
		axiom("summap", "same", []*Term{kk, k2, vv}, Or(Eq(sm, F("summap", k2, vv)), Not(Eq(App("select", "Bool", kk, w1), App("select", "Bool", k2, w1)))), pat(sm, F("summap", k2, vv)))
		axiom("summap", "nonneg", []*Term{kk, vv}, Or(Le(Int(0), sm), And(App("select", "Bool", kk, w2), Lt(App("select", "Int", vv, w2), Int(0)))), pat(sm))
		// okc(replies): how many of them hold a vector
		DefMeasure(&Measure{Name: "okc", Elem: rs, Ret: "Int", NonNeg: true,
			W: func(ps []*Term, e *Term) *Term { return b(Sel(rs+".ok", e)) }})
	})
}

// isLocal: operations on own collections have names of their own.
func isLocal(e *Term) *Term { return F("islocal", Sel(evSort+".Meth", e)) }

func evZero() map[string]*Term {
	m := map[string]*Term{}
	s := structOf(evT)
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if q, ok := t.(*SeqType); ok {
			m[s.Field(i).Name()] = SeqEmpty(sortOf(q.Elem))
			continue
		}
		m[s.Field(i).Name()] = zeroOf(t)
	}
	return m
}

func (x *Exec) record(st *State, m map[string]*Term) *Term {
	var args []*Term
	for _, f := range evFields {
		args = append(args, m[f])
	}
	e := Construct(evSort, args...)
	st.setHeap("G_last", e)
	h := st.heap("G_ev", SeqSort(evSort))
	st.setHeap("G_ev", SeqCat(h, SeqUnit(e)))
	return e
}

// flatten spreads a value over the argument (or reply) slots of an event.
func (x *Exec) flatten(st *State, m map[string]*Term, v *Term, t types.Type, name string, reply bool) {
	t = types.Unalias(t)
	set := func(keys ...string) {
		for _, k := range keys {
			if m["#"+k] == nil {
				m["#"+k] = True
				m[k] = v
				return
			}
		}
	}
	if typeKey(t) == "common.DataPoint" {
		if !reply {
			set("DP")
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if !reply {
				if strings.EqualFold(name, "namespace") || name == "" {
					set("NS")
				} else {
					set("S")
				}
			}
		case u.Info()&types.IsBoolean != 0:
			if reply {
				set("RB")
			} else {
				set("B")
			}
		case u.Info()&types.IsInteger != 0:
			if reply {
				set("RI", "RI2")
			} else {
				set("I", "I2")
			}
		}
	case *types.Map:
		if reply {
			set("RI", "RI2")
		}
	case *types.Slice:
		switch typeKey(t) {
		case "[]float64":
			if reply {
				set("RV")
			} else {
				set("V")
			}
		case "[]string":
			if reply {
				set("RS")
			} else {
				set("L")
			}
		case "[]common.DataPoint":
			if reply {
				set("RD")
				m["RDS"] = x.view(st, v, u.Elem())
			}
		case "[]*centroid.Centroid":
			if reply {
				set("RC")
				m["RCS"] = x.view(st, v, u.Elem())
			}
		}
	case *types.Struct:
		d := datatypes[sortOf(t)]
		for i := 0; i < u.NumFields(); i++ {
			x.flatten(st, m, Sel(d.Sels[i], v), u.Field(i).Type(), u.Field(i).Name(), reply)
		}
	case *types.Signature:
	}
}

func (x *Exec) heldHeap(st *State) *Term { return st.heap("$held", ArrSort("Int", "Bool")) }

func noneHeld() *Term { return ConstArr(ArrSort("Int", "Bool"), False) }

func (x *Exec) notUnderLock(st *State, what string, p token.Pos) {
	x.oblige(st, "lock", "no-lock-held:"+what, p, Eq(x.heldHeap(st), noneHeld()), []string{"C15"})
}

// errTerm: an error of the network or of a decoder. Its dynamic type is not
// known, but it is none of the repository's (errors lose their type on the way).
func errTerm(x *Exec, st *State, tag int64) *Term {
	t := x.fresh("errtype", "Int")
	st.assume(Lt(Int(0), t))
	st.assume(x.foreignTag(t))
	return Construct("Iface", t, x.alloc(st))
}

// foreignTag: the dynamic type is none of the repository's error types.
func (x *Exec) foreignTag(t *Term) *Term {
	ns := x.typ("rpc.NamespaceErr")
	return And(Not(Eq(t, ifaceTag(ns))), Not(Eq(t, ifaceTag(types.NewPointer(ns)))))
}

func (x *Exec) rpcDial(st *State, args []Value, p token.Pos) []Outcome {
	x.notUnderLock(st, "dial", p)
	addr := x.term(args[1])
	s2 := st.clone()
	m := evZero()
	m["Addr"] = addr
	m["Meth"] = StrLit("")
	x.record(s2, m)
	e := errTerm(x, s2, 901)
	c := x.alloc(st)
	st.setHeap("$caddr", Store(st.heap("$caddr", ArrSort("Int", "Str")), c, addr))
	return []Outcome{{st, []Value{c, nilIface()}}, {s2, []Value{Int(0), e}}}
}

func (x *Exec) rpcCall(fr *Frame, st *State, args []Value, p token.Pos) []Outcome {
	x.notUnderLock(st, "call", p)
	cl, meth, arg, rep := x.term(args[0]), x.term(args[1]), x.term(args[2]), x.term(args[3])
	x.oblige(st, "safe", "nil-deref", p, Not(Eq(cl, Int(0))), []string{"C24"})
	iface := types.NewInterfaceType(nil, nil)
	x.escape(st, arg, iface)
	x.escape(st, rep, iface)
	x.publish(st)
	m := evZero()
	m["Meth"] = meth
	m["Addr"] = Select(st.heap("$caddr", ArrSort("Int", "Str")), cl)
	m["N0"] = SeqLen(st.heap("G_got", SeqSort(sortOf(x.typ("common.DataPoint")))))
	if arg.Op != "mk_Iface" {
		x.fail(p, "rpc call with an argument of unknown type")
	}
	if at, ok := ifaceTypeOf[arg.Args[0]]; ok {
		v := arg.Args[1]
		if bv, ok := x.boxes[v]; ok && sortOf(at) != "Int" {
			v = bv
		} else if sortOf(at) != "Int" {
			x.fail(p, "rpc call with an untracked argument")
		}
		x.flatten(st, m, v, at, "", false)
	}
	// failure
	s2 := st.clone()
	m2 := map[string]*Term{}
	for k, v := range m {
		m2[k] = v
	}
	x.record(s2, m2)
	e := errTerm(x, s2, 902)
	outs := []Outcome{{s2, []Value{e}}}
	// success
	m["OK"] = True
	if rep.Op != "mk_Iface" {
		x.fail(p, "rpc call with a reply of unknown type")
	}
	if rt, ok := ifaceTypeOf[rep.Args[0]]; ok {
		pt, ok := rt.Underlying().(*types.Pointer)
		if !ok {
			x.fail(p, "rpc reply is not a pointer")
		}
		T := pt.Elem()
		old := st.next
		n := x.fresh("next", "Int")
		st.assume(Le(old, n))
		st.next = n
		v := x.fresh("reply", sortOf(T))
		x.wf(st, v, T, 0)
		x.freshFrom(st, v, T, old)
		if typeKey(T) == "[]common.DataPoint" {
			dp := x.typ("common.DataPoint")
			x.freshElems(st, dp, old)
			g := st.heap("G_got", SeqSort(sortOf(dp)))
			st.setHeap("G_got", SeqCat(g, x.view(st, v, dp)))
		}
		if typeKey(T) == "[]*centroid.Centroid" {
			x.remoteGroups(st, v, old)
		}
		x.store(st, x.addr(st, rep.Args[1], T), v, p)
		x.flatten(st, m, v, T, "", true)
		st.pub = st.next
	}
	x.record(st, m)
	return append(outs, Outcome{st, []Value{nilIface()}})
}

// freshFrom: memory reachable from v was allocated since old.
func (x *Exec) freshFrom(st *State, v *Term, t types.Type, old *Term) {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		st.assume(Or(Eq(sCap(v), Int(0)), Ge(sRef(v), old)))
	case *types.Map, *types.Pointer:
		st.assume(Or(Eq(v, Int(0)), Ge(v, old)))
	case *types.Struct:
		if isTime(t) {
			return
		}
		d := datatypes[sortOf(t)]
		for i := 0; i < u.NumFields(); i++ {
			x.freshFrom(st, Sel(d.Sels[i], v), u.Field(i).Type(), old)
		}
	}
}

func (x *Exec) freshElems(st *State, el types.Type, old *Term) {}

// remoteGroups: the groups of a reply are new objects (or nil) that own the
// points they arrived with; their unexported fields are unset.
func (x *Exec) remoteGroups(st *State, v *Term, old *Term) {
	ct := x.typ("centroid.Centroid")
	dp := x.typ("common.DataPoint")
	w := x.view(st, v, types.NewPointer(ct))
	md := x.mdHeap(st)
	nmd := x.fresh("MD", md.Sort)
	r := BVar("r", "Int")
	st.assume(Forall([]*Term{r}, Implies(Lt(r, old), Eq(App("select", arrElem(md.Sort), nmd, r), App("select", arrElem(md.Sort), md, r))), pat(App("select", arrElem(md.Sort), nmd, r))))
	st.setHeap("MD", nmd)
	st.assume(Eq(SeqLen(Select(nmd, Int(0))), Int(0)))
	i := BVar("i", "Int")
	e := SeqIdx(w, i)
	in := And(Le(Int(0), i), Lt(i, SeqLen(w)))
	st.assume(Forall([]*Term{i}, Implies(in, Or(Eq(e, Int(0)), And(Ge(e, old), Lt(e, st.next)))), pat(e)))
	// the remote node sends well-formed groups, each object once
	x.externs["groups in a reply have points of one dimension each and are distinct objects"] = true
	g := App("select", arrElem(nmd.Sort), nmd, e)
	st.assume(Forall([]*Term{i}, Implies(And(in, Gt(SeqLen(g), Int(0))), Eq(F("bad", sLen(Sel(sortOf(dp)+".Vec", SeqIdx(g, Int(0)))), g), Int(0))), pat(e)))
	st.assume(F("nodupz", w))
	st.setHeap("G_irc", w)
}

// local records a call of a collection operation from the rpc package.
func (x *Exec) local(st *State, fn *ssa.Function, args []Value, vals []Value) {
	m := evZero()
	m["Addr"] = StrLit("#local")
	m["Meth"] = StrLit("local." + fn.Name())
	m["OK"] = True
	cm := x.term(args[0])
	m["NS"] = Select(st.heap("$owner", ArrSort("Int", "Str")), cm)
	m["#NS"] = True
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		x.flatten(st, m, x.term(args[i+1]), sig.Params().At(i).Type(), "arg", false)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		x.flatten(st, m, x.term(vals[i]), sig.Results().At(i).Type(), "res", true)
	}
	x.record(st, m)
}

// ---- locks ----

// The lock of a namespace table protects its map, the lock of a slot the
// collection behind it (and the groups in it).

func lockKind(t types.Type) string {
	switch typeKey(t) {
	case "rpc.CManagerTable":
		return "table"
	case "rpc.CManagerSlot":
		return "slot"
	}
	return ""
}

func (x *Exec) shr(st *State) *Term {
	if t, ok := st.heaps["$shr"]; ok {
		return t
	}
	return x.entry.next
}

// initConc: nothing is shared or locked yet by this activation.
func (x *Exec) initConc(st *State) {
	if x.inPkg("rpc") {
		st.setHeap("$shr", st.next)
	}
}

// foreign: r is not private to this activation.
func (x *Exec) foreign(st *State, r *Term, old *Term) *Term {
	return Not(And(x.mine(st, r), Lt(r, old)))
}

func (x *Exec) fieldOf(st *State, t types.Type, field string, ref *Term) *Term {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return x.loadObj(st, "F:"+typeKey(t)+"."+field, s.Field(i).Type(), ref)
		}
	}
	panic(unsupported{"no field " + field + " in " + typeKey(t)})
}

func (x *Exec) slotsType() *types.Map {
	s := structOf(x.typ("rpc.CManagerTable"))
	for i := 0; i < s.NumFields(); i++ {
		if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			return m
		}
	}
	panic(unsupported{"rpc.CManagerTable has no map"})
}

// tinv: every entry of the table is a slot with a collection that belongs to
// this namespace and no other.
func (x *Exec) tinv(st *State, m *Term) *Term {
	mt := x.slotsType()
	hk, hs, vk, vs := mapKeys(mt)
	H, V := Select(st.heap(hk, hs), m), Select(st.heap(vk, vs), m)
	own := st.heap("$owner", ArrSort("Int", "Str"))
	cmh := st.heap("F:rpc.CManagerSlot.cManager", ArrSort("Int", "Int"))
	k := BVar("k", "Str")
	has := App("select", "Bool", H, k)
	sl := App("select", "Int", V, k)
	cm := Select(cmh, sl)
	return And(Not(Eq(m, Int(0))), Forall([]*Term{k}, Implies(has, And(Lt(Int(0), sl), Lt(sl, st.next), Lt(Int(0), cm), Lt(cm, st.next),
		Eq(Select(own, sl), k), Eq(Select(own, cm), k))), pat(has), pat(sl)))
}

// grows: no namespace known in a is lost or replaced in b.
func (x *Exec) grows(a, b *State, ma, mb *Term) *Term {
	mt := x.slotsType()
	hk, hs, vk, vs := mapKeys(mt)
	H, V := Select(a.heap(hk, hs), ma), Select(a.heap(vk, vs), ma)
	H2, V2 := Select(b.heap(hk, hs), mb), Select(b.heap(vk, vs), mb)
	if H == H2 && V == V2 {
		return True
	}
	k := BVar("k", "Str")
	h, v, h2, v2 := App("select", "Bool", H, k), App("select", "Int", V, k), App("select", "Bool", H2, k), App("select", "Int", V2, k)
	return Forall([]*Term{k}, Implies(h, And(h2, Eq(v, v2))), pat(h2), pat(v2), pat(h))
}

func (x *Exec) lock(fr *Frame, st *State, a *AddrV, p token.Pos) {
	ref := a.Ref
	kind := lockKind(a.T)
	if kind == "" {
		x.fail(p, "lock inside %s", a.T)
	}
	held := x.heldHeap(st)
	x.oblige(st, "lock", "not-already-held", p, Not(Select(held, ref)), []string{"C15"})
	st.setHeap("$held", Store(held, ref, True))
	old := st.next
	n := x.fresh("next", "Int")
	st.assume(Le(old, n))
	st.next = n
	st.wins = append(st.wins, [2]*Term{old, n})
	st.setHeap("$now", x.later(st))
	switch kind {
	case "table":
		st.setHeap("$ltab", ref)
		before := st.clone()
		tt := x.typ("rpc.CManagerTable")
		m := x.fieldOf(st, tt, "slots", ref)
		mt := x.slotsType()
		hk, hs, vk, vs := mapKeys(mt)
		nH, nV := x.fresh("slots", arrElem(hs)), x.fresh("slotv", arrElem(vs))
		st.setHeap(hk, Store(st.heap(hk, hs), m, nH))
		st.setHeap(vk, Store(st.heap(vk, vs), m, nV))
		L := st.heap("ML", ArrSort("Int", "Int"))
		nl := x.fresh("nslots", "Int")
		st.assume(And(Le(Int(0), nl), Le(nl, Int(1<<40))))
		x.externs["a node holds at most 2^40 namespaces"] = true
		st.setHeap("ML", Store(L, m, nl))
		// slots and collections made by others meanwhile
		own := st.heap("$owner", ArrSort("Int", "Str"))
		nown := x.fresh("owner", own.Sort)
		cmk, cms := "F:rpc.CManagerSlot.cManager", ArrSort("Int", "Int")
		cmh := st.heap(cmk, cms)
		ncmh := x.fresh("slotcm", cms)
		r := BVar("r", "Int")
		st.assume(Forall([]*Term{r}, Implies(Lt(r, old), Eq(App("select", "Str", nown, r), App("select", "Str", own, r))), pat(App("select", "Str", nown, r))))
		st.assume(Forall([]*Term{r}, Implies(Lt(r, old), Eq(App("select", "Int", ncmh, r), App("select", "Int", cmh, r))), pat(App("select", "Int", ncmh, r))))
		st.setHeap("$owner", nown)
		st.setHeap(cmk, ncmh)
		st.assume(x.grows(before, st, m, m))
		st.assume(x.tinv(st, m))
		k := BVar("k", "Str")
		has := App("select", "Bool", nH, k)
		sl := App("select", "Int", nV, k)
		st.assume(Forall([]*Term{k}, Implies(has, And(x.foreign(st, sl, old), x.foreign(st, Select(ncmh, sl), old))), pat(has), pat(sl)))
		st.setHeap("$tab0h", nH)
		st.setHeap("$tab0v", nV)
		st.setHeap("$tab0m", m)
		st.setHeap("$tabw", False)
	case "slot":
		st.setHeap("$lslot", ref)
		cm := Select(st.heap("F:rpc.CManagerSlot.cManager", ArrSort("Int", "Int")), ref)
		st.assume(And(Lt(Int(0), cm), Lt(cm, old)))
		x.shareHavoc(st, cm, old)
		st.assume(x.minv(st, cm))
		if x.rootSpec.OneDim {
			x.externs["a namespace holds vectors of one dimension"] = true
			ns := Select(st.heap("$owner", ArrSort("Int", "Str")), cm)
			st.assume(Eq(sLen(x.fieldOf(st, x.typ("centroidmanager.CentroidManager"), "vec", cm)), F("dimof", ns)))
		}
	}
}

func (x *Exec) later(st *State) *Term {
	n := x.fresh("now", "Int")
	st.assume(Le(st.heap("$now", "Int"), n))
	return n
}

func (x *Exec) minv(st *State, cm *Term) *Term {
	c := &Ctx{x: x, st: st, old: st, cur: st, names: map[string]Binding{"cm": {V: cm, T: types.NewPointer(x.typ("centroidmanager.CentroidManager"))}}}
	return c.boolean(mustParse("minv(cm)"))
}

// shareHavoc: other requests may have changed the collection and all groups
// that are not private to this activation.
func (x *Exec) shareHavoc(st *State, cm *Term, old *Term) {
	cmt := x.typ("centroidmanager.CentroidManager")
	var ms []ModT
	x.fieldKeys(cmt, "F:"+typeKey(cmt), cm, &ms)
	x.havocMods(st, ms, old)
	ct := x.typ("centroid.Centroid")
	dpT := types.NewSlice(x.typ("common.DataPoint"))
	havoc := func(key, srt string) {
		h := st.heap(key, srt)
		n := x.fresh(key, srt)
		r := BVar("r", "Int")
		s := App("select", arrElem(srt), n, r)
		st.assume(Forall([]*Term{r}, Implies(And(x.mine(st, r), Lt(r, old)), Eq(s, App("select", arrElem(srt), h, r))), pat(s)))
		st.setHeap(key, n)
	}
	havoc("F:centroid.Centroid.vec", ArrSort("Int", "Slice"))
	havoc("F:centroid.Centroid.DataPoints", ArrSort("Int", sortOf(dpT)))
	havoc("MD", x.mdHeap(st).Sort)
	pc := types.NewPointer(ct)
	havoc(eKey(pc), eSort(pc))
	cs := x.fieldOf(st, cmt, "Centroids", cm)
	st.assume(x.foreign(st, sRef(cs), old))
	w := x.view(st, cs, pc)
	i := BVar("i", "Int")
	e := SeqIdx(w, i)
	st.assume(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, SeqLen(w))), x.foreign(st, e, old)), pat(e)))
}

func (x *Exec) unlock(fr *Frame, st *State, a *AddrV, p token.Pos) {
	ref := a.Ref
	kind := lockKind(a.T)
	held := x.heldHeap(st)
	x.oblige(st, "lock", "unlock-of-held", p, Select(held, ref), []string{"C15"})
	switch kind {
	case "table":
		tt := x.typ("rpc.CManagerTable")
		m := x.fieldOf(st, tt, "slots", ref)
		mt := x.slotsType()
		hk, hs, vk, vs := mapKeys(mt)
		if m0, ok := st.heaps["$tab0m"]; ok {
			b := st.clone()
			b.setHeap(hk, Store(b.heap(hk, hs), m0, st.heaps["$tab0h"]))
			b.setHeap(vk, Store(b.heap(vk, vs), m0, st.heaps["$tab0v"]))
			x.oblige(st, "lock", "namespaces-kept", p, x.grows(b, st, m0, m), []string{"C12", "C13", "C14", "C23"})
		}
		x.oblige(st, "lock", "table-invariant", p, x.tinv(st, m), nil)
		st.setHeap("G_known", Select(st.heap(hk, hs), m))
	case "slot":
		cm := Select(st.heap("F:rpc.CManagerSlot.cManager", ArrSort("Int", "Int")), ref)
		x.oblige(st, "lock", "collection-invariant", p, x.minv(st, cm), nil)
	default:
		x.fail(p, "unlock inside %s", a.T)
	}
	st.setHeap("$held", Store(held, ref, False))
	if kind == "table" && st.heaps["$tabw"] == False {
		return // nothing was put where others can see it
	}
	x.publish(st)
	st.setHeap("$shr", st.next)
	st.wins = nil
}

func (x *Exec) lockOp(fr *Frame, st *State, full string, args []Value, p token.Pos) []Outcome {
	a, ok := args[0].(*AddrV)
	if !ok {
		if t, isT := args[0].(*Term); isT {
			a = x.addrs[t]
		}
	}
	if a == nil {
		x.fail(p, "lock of unknown object")
	}
	if a.Kind == "cell" {
		x.materialise(st, a.Ref)
	}
	switch {
	case strings.HasSuffix(full, "Unlock"):
		x.unlock(fr, st, a, p)
	default:
		x.lock(fr, st, a, p)
	}
	return one1(st)
}

// mine: the object is private to this activation.
func (x *Exec) mine(st *State, ref *Term) *Term {
	ok := []*Term{Ge(ref, x.shr(st))}
	for _, w := range st.wins {
		ok = append(ok, Or(Lt(ref, w[0]), Ge(ref, w[1])))
	}
	return And(ok...)
}

func (x *Exec) slotHeld(st *State) *Term {
	l, ok := st.heaps["$lslot"]
	if !ok {
		return False
	}
	return Select(x.heldHeap(st), l)
}

// heldManager: cm is the collection behind the slot that is locked.
func (x *Exec) heldManager(st *State, cm *Term) *Term {
	l, ok := st.heaps["$lslot"]
	if !ok {
		return False
	}
	return And(Select(x.heldHeap(st), l), Eq(cm, Select(st.heap("F:rpc.CManagerSlot.cManager", ArrSort("Int", "Int")), l)))
}

func (x *Exec) guardMap(fr *Frame, st *State, m *Term, t *types.Map, p token.Pos, write bool) {
	if !x.inPkg("rpc") || typeKey(t.Elem()) != "*rpc.CManagerSlot" {
		return
	}
	ok := x.mine(st, m)
	if l, has := st.heaps["$ltab"]; has {
		ok = Or(ok, And(Select(x.heldHeap(st), l), Eq(m, x.fieldOf(st, x.typ("rpc.CManagerTable"), "slots", l))))
	}
	x.oblige(st, "lock", "table-locked", p, ok, []string{"C15"})
}

// mapOwner: a slot stored in the table belongs to that namespace.
func (x *Exec) mapOwner(st *State, t *types.Map, k, v *Term, p token.Pos) {
	if !x.inPkg("rpc") || typeKey(t.Elem()) != "*rpc.CManagerSlot" {
		return
	}
	st.setHeap("$tabw", True)
	own := st.heap("$owner", ArrSort("Int", "Str"))
	cm := Select(st.heap("F:rpc.CManagerSlot.cManager", ArrSort("Int", "Int")), v)
	x.oblige(st, "lock", "slot-unused", p, And(x.mine(st, v), x.mine(st, cm)), []string{"C13", "C12"})
	own = Store(own, v, k)
	own = Store(own, cm, k)
	st.setHeap("$owner", own)
}

func (x *Exec) guardAccess(fr *Frame, st *State, a *AddrV, p token.Pos, write bool) {
	if !x.inPkg("rpc") {
		return
	}
	switch a.Kind {
	case "obj":
		key, _, _ := objKey(a)
		switch {
		case strings.HasPrefix(key, "F:rpc.CManagerTable.slots"):
			if write {
				st.setHeap("$tabw", True)
			}
			x.oblige(st, "lock", "table-locked", p, Or(x.mine(st, a.Ref), Select(x.heldHeap(st), a.Ref)), []string{"C15"})
		case strings.HasPrefix(key, "F:centroidmanager.CentroidManager"):
			x.oblige(st, "lock", "collection-locked", p, Or(x.mine(st, a.Ref), x.heldManager(st, a.Ref)), []string{"C15"})
		case strings.HasPrefix(key, "F:rpc.CManagerSlot.cManager"):
			if write {
				x.oblige(st, "lock", "collection-of-slot-fixed", p, x.mine(st, a.Ref), []string{"C12", "C13", "C15"})
			}
		case strings.HasPrefix(key, "F:centroid.Centroid"):
			x.oblige(st, "lock", "group-locked", p, Or(x.mine(st, a.Ref), x.slotHeld(st)), []string{"C15"})
			if key == "F:centroid.Centroid.DataPoints" && !write {
				v := x.load(st, a)
				st.assume(Eq(x.view(st, v, x.typ("common.DataPoint")), Select(x.mdHeap(st), a.Ref)))
			}
		}
	}
}

// groupsStored: the list of groups of a shared collection was replaced. What
// was stored there stays, and what is added is counted in G_home (how often it
// holds the point D) and G_homen (number of points).
func (x *Exec) groupsStored(pre, st *State, a *AddrV, p token.Pos) {
	if a.Kind != "obj" {
		return
	}
	if key, _, _ := objKey(a); key != "F:centroidmanager.CentroidManager.Centroids" {
		return
	}
	pc := types.NewPointer(x.typ("centroid.Centroid"))
	ref := a.Ref
	cmt := x.typ("centroidmanager.CentroidManager")
	was := x.view(pre, x.fieldOf(pre, cmt, "Centroids", ref), pc)
	now := x.view(st, x.fieldOf(st, cmt, "Centroids", ref), pc)
	mine := x.mine(st, ref)
	x.oblige(st, "lock", "groups-kept", p, Or(mine, And(Le(SeqLen(was), SeqLen(now)), Eq(SeqTake(now, SeqLen(was)), was))), []string{"C23", "C13"})
	md := x.mdHeap(st)
	d := rigidD(x)
	home, homen := st.heap("G_home", "Int"), st.heap("G_homen", "Int")
	st.setHeap("G_home", Add(home, Ite(mine, Int(0), Sub(F("mcnt", d, md, now), F("mcnt", d, md, was)))))
	st.setHeap("G_homen", Add(homen, Ite(mine, Int(0), Sub(F("mlen", md, now), F("mlen", md, was)))))
	m := evZero()
	m["Addr"] = StrLit("#local")
	m["Meth"] = StrLit("local.Append")
	m["OK"] = True
	m["NS"] = Select(st.heap("$owner", ArrSort("Int", "Str")), ref)
	m["#NS"] = True
	x.record(st, m)
}

// guardCall: operations on collections and groups need the lock as well.
func (x *Exec) guardCall(st *State, fn *ssa.Function, name string, args []Value, p token.Pos) {
	if !x.inPkg("rpc") || len(args) == 0 {
		return
	}
	switch {
	case strings.HasPrefix(name, "centroidmanager.(*CentroidManager)."):
		cm := x.term(args[0])
		x.oblige(st, "lock", "collection-locked", p, Or(x.mine(st, cm), x.heldManager(st, cm)), []string{"C15"})
	case strings.HasPrefix(name, "centroid.(*Centroid)."):
		x.oblige(st, "lock", "group-locked", p, Or(x.mine(st, x.term(args[0])), x.slotHeld(st)), []string{"C15"})
	}
}

// ---- goroutines and channels ----

// goCall runs the goroutine at the point where it is started.
func (x *Exec) goCall(fr *Frame, st *State, in *ssa.Go) []Outcome {
	x.externs["goroutines are run where they are started; their messages are received in any order"] = true
	outs := x.call(fr, st, &in.Call, nil, in.Pos())
	for i := range outs {
		outs[i].vals = nil
	}
	return outs
}

// A channel is the sequence of messages in flight; they may be received in any
// order.
func chanKey(el types.Type) (s, ss string) {
	return "$sent:" + typeKey(el), ArrSort("Int", SeqSort(sortOf(el)))
}

func (x *Exec) makeChan(fr *Frame, st *State, in *ssa.MakeChan) Value {
	el := in.Type().Underlying().(*types.Chan).Elem()
	n := x.tv(fr, in.Size)
	x.oblige(st, "safe", "chan-size", in.Pos(), Le(Int(0), n), []string{"C24"})
	c := x.alloc(st)
	sk, ss := chanKey(el)
	st.setHeap(sk, Store(st.heap(sk, ss), c, SeqEmpty(sortOf(el))))
	fr.names["chan"] = Binding{V: c, T: in.Type()}
	return c
}

func (x *Exec) send(fr *Frame, st *State, in *ssa.Send) {
	el := in.Chan.Type().Underlying().(*types.Chan).Elem()
	c, v := x.tv(fr, in.Chan), x.tv(fr, in.X)
	x.escape(st, v, el)
	sk, ss := chanKey(el)
	h := st.heap(sk, ss)
	st.setHeap(sk, Store(h, c, SeqCat(Select(h, c), SeqUnit(v))))
}

func (x *Exec) recv(fr *Frame, st *State, in *ssa.UnOp) {
	ct := in.X.Type().Underlying().(*types.Chan)
	el := ct.Elem()
	c := x.tv(fr, in.X)
	sk, ss := chanKey(el)
	h := st.heap(sk, ss)
	q := Select(h, c)
	x.oblige(st, "safe", "receive-blocks", in.Pos(), Lt(Int(0), SeqLen(q)), []string{"C18", "C24"})
	i := x.fresh("pos", "Int")
	st.assume(And(Le(Int(0), i), Lt(i, SeqLen(q))))
	v := SeqIdx(q, i)
	x.wf(st, v, el, 0)
	st.assume(Eq(q, SeqCat(SeqTake(q, i), SeqCat(SeqUnit(v), SeqDrop(q, Add(i, Int(1)))))))
	st.setHeap(sk, Store(h, c, SeqCat(SeqTake(q, i), SeqDrop(q, Add(i, Int(1))))))
	if in.CommaOk {
		fr.env[in] = []Value{v, True}
		return
	}
	fr.env[in] = v
}

// ---- further models ----

func (x *Exec) extern2(fr *Frame, st *State, fn *ssa.Function, full string, args []Value, p token.Pos) []Outcome {
	arg := func(i int) *Term { return x.term(args[i]) }
	switch full {
	case "net/rpc.Dial":
		return x.rpcDial(st, args, p)
	case "(*net/rpc.Client).Call":
		return x.rpcCall(fr, st, args, p)
	case "(*net/rpc.Client).Close":
		return one1(st, x.fresh("cerr", "Iface"))
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return x.lockOp(fr, st, full, args, p)
	case "(*github.com/crunchypi/go-narb/apsa/common.Addr).ToStr":
		x.nilCheck(st, args[0], p)
		a := x.load(st, x.addr(st, args[0], x.typ("common.Addr")))
		return one1(st, F("addrstr", a))
	case "(*github.com/crunchypi/go-narb/apsa/common.Addr).Comp":
		x.nilCheck(st, args[0], p)
		a := x.load(st, x.addr(st, args[0], x.typ("common.Addr")))
		return one1(st, Eq(a, arg(1)))
	case "encoding/json.Unmarshal":
		return x.jsonUnmarshal(st, args, p)
	case "encoding/json.Marshal":
		return x.jsonMarshal(st, args, p)
	case "io/ioutil.ReadAll", "io.ReadAll":
		return x.readAll(st)
	case "time.Sleep", "math/rand.Seed":
		return one1(st)
	case "(time.Time).UnixNano", "(time.Time).Unix":
		return one1(st, x.fresh("nano", "Int"))
	case "math/rand.Intn":
		x.oblige(st, "safe", "rand-range", p, Lt(Int(0), arg(0)), []string{"C24"})
		r := x.fresh("rnd", "Int")
		st.assume(And(Le(Int(0), r), Lt(r, arg(0))))
		return one1(st, r)
	}
	x.fail(p, "external function %s", full)
	return nil
}
