package main

// Calls: builtins, contracts, inlining, interface and function values.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, res ssa.Value, p token.Pos) []Outcome {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.value(fr, a))
	}
	var fnv Value
	if cc.IsInvoke() || cc.StaticCallee() == nil {
		fnv = x.value(fr, cc.Value)
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fnv = x.value(fr, mc)
	}
	return x.callValue(fr, st, cc, fnv, args, p)
}

func one1(st *State, v ...Value) []Outcome { return []Outcome{{st, v}} }

func (x *Exec) callValue(fr *Frame, st *State, cc *ssa.CallCommon, fnv Value, args []Value, p token.Pos) []Outcome {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, cc, args, p)
	}
	if cc.IsInvoke() {
		recv := x.term(fnv)
		return x.invoke(fr, st, cc, recv, args, p)
	}
	if fn := cc.StaticCallee(); fn != nil {
		var binds []Value
		if fnv != nil {
			if t, ok := fnv.(*Term); ok {
				if c := x.clos[t]; c != nil {
					binds = c.Binds
				}
			}
		}
		return x.callFn(fr, st, fn, args, binds, p)
	}
	// function value
	t := x.term(fnv)
	if c := x.clos[t]; c != nil {
		return x.callFn(fr, st, c.Fn, args, c.Binds, p)
	}
	x.oblige(st, "safe", "nil-func", p, Not(Eq(t, Int(0))), []string{"C24"})
	sig := cc.Signature()
	key := sigKey(sig)
	if key == "gen" {
		return x.callGen(st, t)
	}
	sp := x.sp.Funcs["functype:"+key]
	if sp == nil {
		x.fail(p, "call of unknown function value functype:%s", key)
	}
	return x.contract(fr, st, sp, sig, append([]Value{t}, args...), p, nil)
}

// sigKey names function types by their parameter and result types.
func sigKey(sig *types.Signature) string {
	var ps []string
	short := func(t types.Type) string {
		if s, ok := t.Underlying().(*types.Signature); ok {
			return "<" + sigKey(s) + ">"
		}
		return typeKey(t)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, short(sig.Params().At(i).Type()))
	}
	var rs []string
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, short(sig.Results().At(i).Type()))
	}
	k := strings.Join(ps, ",") + "->" + strings.Join(rs, ",")
	switch k {
	case "->[]float64,bool":
		return "gen"
	case "[]float64,<gen>,int->[]int":
		return "search"
	case "[]float64,[]float64->float64,error":
		return "dist"
	case "*centroid.Centroid->bool":
		return "pred"
	}
	return k
}

// callGen: an abstract vector generator.
func (x *Exec) callGen(st *State, g *Term) []Outcome {
	h := x.genHeap(st)
	done := st.heap("$gendone", ArrSort("Int", "Bool"))
	ok := x.fresh("more", "Bool")
	v := x.fresh("gv", "Slice")
	onext := st.next
	n := x.fresh("next", "Int")
	st.assume(Le(onext, n))
	st.next = n
	x.wf(st, v, tFloatSlice, 0)
	st.assume(Or(Lt(sRef(v), st.pub), Ge(sRef(v), onext)))
	// a finished generator stays finished
	st.assume(Implies(Select(done, g), Not(ok)))
	cur := Select(h, g)
	st.setHeap("$gen", Store(h, g, Ite(ok, SeqCat(cur, SeqUnit(v)), cur)))
	st.setHeap("$gendone", Store(done, g, Not(ok)))
	return one1(st, v, ok)
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, args, binds []Value, p token.Pos) []Outcome {
	name := FuncName(fn)
	if fn.Synthetic != "" && fn.Blocks != nil && len(binds) > 0 && strings.Contains(fn.Synthetic, "bound method") {
		return x.runFn(fn, args, binds, st, fr)
	}
	if inModule(fn) {
		if strings.HasPrefix(name, "govcmodel.") && fn.Name() == "Nondet" {
			return one1(st, x.fresh("nondet", "Bool"))
		}
		if sp := x.sp.Funcs[name]; sp != nil && !sp.Inline && x.useContract(fn, sp) {
			x.used[name] = true
			if sp.Assumed {
				x.externs["assumed contract of "+name] = true
			}
			x.guardCall(st, fn, name, args, p)
			if sp.Network {
				x.notUnderLock(st, "call", p)
			}
			outs := x.contract(fr, st, sp, fn.Signature, args, p, fn)
			if x.inPkg("rpc") && strings.HasPrefix(name, "centroidmanager.(*CentroidManager).") {
				for _, o := range outs {
					x.local(o.st, fn, args, o.vals)
				}
			}
			return outs
		}
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn && fn.Parent() == nil {
				x.fail(p, "recursion without contract: %s", name)
			}
		}
		x.inlined[name] = true
		if sp := x.sp.Funcs[name]; sp != nil && sp.Join {
			return x.forget(x.runFn(fn, args, binds, st, fr))
		}
		return x.runFn(fn, args, binds, st, fr)
	}
	full := fn.String()
	return x.extern(fr, st, fn, full, args, p)
}

func (x *Exec) useContract(fn *ssa.Function, sp *FuncSpec) bool {
	for _, p := range sp.InlineIn {
		if x.inPkg(p) {
			return false
		}
	}
	return true
}

func (x *Exec) invoke(fr *Frame, st *State, cc *ssa.CallCommon, recv *Term, args []Value, p token.Pos) []Outcome {
	m := cc.Method
	it := cc.Value.Type()
	// known dynamic type
	if recv.Op == "mk_Iface" {
		if ty, ok := ifaceTypeOf[recv.Args[0]]; ok && isRefType(ty) {
			if fn := x.pr.Prog.LookupMethod(ty, m.Pkg(), m.Name()); fn != nil && inModule(fn) {
				return x.callFn(fr, st, fn, append([]Value{recv.Args[1]}, args...), nil, p)
			}
		}
	}
	x.oblige(st, "safe", "nil-deref", p, Not(Eq(Sel("i.tag", recv), Int(0))), []string{"C24"})
	key := "iface:" + typeKey(it) + "." + m.Name()
	if it.String() == "error" && m.Name() == "Error" {
		return one1(st, x.fresh("errstr", "Str"))
	}
	sp := x.sp.Funcs[key]
	if x.root != nil {
		if s := x.sp.Funcs[key+"@"+pkgOf(x.root)]; s != nil {
			sp = s
		}
	}
	if sp == nil {
		return x.externIface(fr, st, key, cc, recv, args, p)
	}
	return x.contract(fr, st, sp, m.Type().(*types.Signature), append([]Value{recv}, args...), p, nil)
}

// ---- contracts ----

type ModT struct {
	Key  string
	Sort string
	Ref  *Term
	Ty   types.Type
	Set  *Term // all references in this sequence
}

func (x *Exec) fieldKeys(t types.Type, key string, ref *Term, out *[]ModT) {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			x.fieldKeys(s.Field(i).Type(), key+"."+s.Field(i).Name(), ref, out)
		}
		return
	}
	*out = append(*out, ModT{key, ArrSort("Int", sortOf(t)), ref, t, nil})
}

func (x *Exec) evalMods(c *Ctx, mods []*Clause) []ModT {
	var out []ModT
	for _, m := range mods {
		if len(m.Props) > 0 && !m.active(x.prop) {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if ee, ok := r.(evalErr); ok {
						panic(unsupported{"modifies " + m.Src + ": " + ee.msg})
					}
					panic(r)
				}
			}()
			x.evalMod(c, m.Expr, &out)
		}()
	}
	return out
}

func (x *Exec) centroidMods(ref *Term, elems bool, st *State, out *[]ModT) {
	ct := x.typ("centroid.Centroid")
	s := structOf(ct)
	dpT := x.typ("common.DataPoint")
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if n != "vec" && n != "DataPoints" {
			continue
		}
		x.fieldKeys(s.Field(i).Type(), "F:"+typeKey(ct)+"."+n, ref, out)
	}
	if x.inPkg("centroid") {
		if ref != nil {
			h := st.heap("F:"+typeKey(ct)+".DataPoints", ArrSort("Int", "Slice"))
			*out = append(*out, ModT{eKey(dpT), eSort(dpT), sRef(Select(h, ref)), nil, nil})
		} else {
			*out = append(*out, ModT{eKey(dpT), eSort(dpT), nil, nil, nil})
		}
	} else {
		*out = append(*out, ModT{"MD", x.mdHeap(st).Sort, ref, nil, nil})
	}
}

func (x *Exec) evalMod(c *Ctx, e ast.Expr, out *[]ModT) {
	switch e := e.(type) {
	case *ast.Ident:
		switch {
		case e.Name == "now":
			*out = append(*out, ModT{Key: "$now", Sort: "Int"})
			return
		case strings.HasPrefix(e.Name, "G_"):
			*out = append(*out, ModT{Key: e.Name, Sort: ghostSort(e.Name)})
			return
		case e.Name == "nothing":
			return
		case e.Name == "centroids":
			x.centroidMods(nil, true, c.st, out)
			return
		case e.Name == "managers":
			x.fieldKeys(x.typ("centroidmanager.CentroidManager"), "F:centroidmanager.CentroidManager", nil, out)
			return
		case e.Name == "locks":
			*out = append(*out, ModT{Key: "$held", Sort: ArrSort("Int", "Bool")})
			return
		}
		if m := x.sp.Macros[e.Name]; m != nil && len(m.Params) == 0 {
			x.evalMod(c, m.Body, out)
			return
		}
	case *ast.StarExpr:
		v := c.eval(e.X)
		pt := v.Ty.Underlying().(*types.Pointer).Elem()
		if structOf(pt) != nil {
			x.fieldKeys(pt, "F:"+typeKey(pt), v.T, out)
			return
		}
		*out = append(*out, ModT{"C:" + typeKey(pt), ArrSort("Int", sortOf(pt)), v.T, pt, nil})
		return
	case *ast.SelectorExpr:
		v := c.eval(e.X)
		p, ok := v.Ty.Underlying().(*types.Pointer)
		if !ok {
			// nested value field of an object: find the address
			a, t := c.addrPath(e)
			key, _, rest := objKey(a)
			if len(rest) > 0 {
				c.errf("modifies %s", exprStr(e))
			}
			x.fieldKeys(t, key, a.Ref, out)
			return
		}
		s := structOf(p.Elem())
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == e.Sel.Name {
				x.fieldKeys(s.Field(i).Type(), "F:"+typeKey(p.Elem())+"."+e.Sel.Name, v.T, out)
				return
			}
		}
		c.errf("no field in %s", exprStr(e))
	case *ast.CallExpr:
		fn := e.Fun.(*ast.Ident).Name
		switch fn {
		case "centroid":
			v := c.eval(e.Args[0])
			x.centroidMods(v.T, true, c.st, out)
			return
		case "groupsin":
			var tmp []ModT
			seq := c.eval(e.Args[0]).T
			x.centroidMods(nil, true, c.st, &tmp)
			for _, m := range tmp {
				m.Set = seq
				*out = append(*out, m)
			}
			return
		case "md":
			if !x.inPkg("centroid") {
				*out = append(*out, ModT{"MD", x.mdHeap(c.st).Sort, c.eval(e.Args[0]).T, nil, nil})
			}
			return
		case "elems":
			v := c.eval(e.Args[0])
			el := v.Ty.Underlying().(*types.Slice).Elem()
			*out = append(*out, ModT{eKey(el), eSort(el), sRef(v.T), nil, nil})
			return
		case "all":
			k, t := c.heapKey(e.Args[0])
			x.fieldKeys(t, k, nil, out)
			return
		case "gen":
			g := c.eval(e.Args[0]).T
			*out = append(*out, ModT{"$gen", ArrSort("Int", SeqSort("Slice")), g, nil, nil}, ModT{"$gendone", ArrSort("Int", "Bool"), g, nil, nil})
			return
		case "mapof":
			v := c.eval(e.Args[0])
			mt := v.Ty.Underlying().(*types.Map)
			hk, hs, vk, vs := mapKeys(mt)
			*out = append(*out, ModT{hk, hs, v.T, nil, nil}, ModT{vk, vs, v.T, nil, nil}, ModT{"ML", ArrSort("Int", "Int"), v.T, nil, nil})
			return
		case "lock":
			*out = append(*out, ModT{"$held", ArrSort("Int", "Bool"), c.eval(e.Args[0]).T, nil, nil})
			return
		case "cell":
			v := c.eval(e.Args[0])
			pt := v.Ty.Underlying().(*types.Pointer).Elem()
			*out = append(*out, ModT{"C:" + typeKey(pt), ArrSort("Int", sortOf(pt)), v.T, pt, nil})
			return
		}
		if m := x.sp.Macros[fn]; m != nil {
			d := *c
			d.env = map[string]*thunk{}
			for i, p := range m.Params {
				d.env[p] = &thunk{e.Args[i], c.env, c.bound}
			}
			x.evalMod(&d, m.Body, out)
			return
		}
	case *ast.BinaryExpr: // a + b: union
		x.evalMod(c, e.X, out)
		x.evalMod(c, e.Y, out)
		return
	}
	c.errf("modifies %s", exprStr(e))
}

func paramNames(sp *FuncSpec, sig *types.Signature, fn *ssa.Function) ([]string, []types.Type) {
	var ns []string
	var ts []types.Type
	if sig.Recv() != nil && fn != nil {
		ns = append(ns, sig.Recv().Name())
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ns = append(ns, sig.Params().At(i).Name())
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ns, ts
}

func (x *Exec) bindParams(sp *FuncSpec, sig *types.Signature, fn *ssa.Function, args []Value, recvT types.Type) map[string]Binding {
	names := map[string]Binding{}
	_, ts := paramNames(sp, sig, fn)
	if len(ts) < len(args) { // function values and interfaces: implicit first parameter
		ts = append([]types.Type{recvT}, ts...)
	}
	if len(sp.Params) != len(args) {
		panic(unsupported{fmt.Sprintf("contract of %s names %d parameters, the function has %d", sp.Name, len(sp.Params), len(args))})
	}
	for i, n := range sp.Params {
		if n == "_" {
			continue
		}
		names[n] = Binding{V: args[i], T: ts[i]}
	}
	return names
}

// contract applies the contract of a callee.
func (x *Exec) contract(fr *Frame, st *State, sp *FuncSpec, sig *types.Signature, args []Value, p token.Pos, fn *ssa.Function) []Outcome {
	// generators with a known body are run to find their effects
	gens := map[string]string{}
	for k, v := range sp.Roles {
		gens[k] = v
	}
	if len(gens) > 0 {
		var keys []string
		for k := range gens {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			e, err := parser.ParseExpr(k)
			if err != nil {
				panic(unsupported{"role " + k})
			}
			names := x.bindParams(sp, sig, fn, args, nilRecv(sp))
			ctx := &Ctx{x: x, st: st, old: st, cur: st, names: names, spec: sp}
			g := ctx.eval(e).T
			if c := x.clos[g]; c != nil {
				model := "Exhaust"
				if gens[k] == "stop" {
					model = "ExhaustOrStop"
				}
				mf := x.pr.Funcs["govcmodel."+model]
				if mf == nil {
					panic(unsupported{"model function missing"})
				}
				outs := x.runFn(mf, []Value{g}, nil, st, x.genFrame(fr, c))
				var all []Outcome
				for _, o := range outs {
					seq := x.view(o.st, x.term(o.vals[0]), tFloatSlice)
					extra := map[string]Binding{
						"yielded:" + k: {V: seq, T: &SeqType{tFloatSlice}},
						"gendone:" + k: {V: o.vals[1], T: tBool},
					}
					all = append(all, x.contract1(fr, o.st, sp, sig, args, p, fn, extra)...)
				}
				return all
			}
		}
	}
	return x.contract1(fr, st, sp, sig, args, p, fn, nil)
}

// genFrame gives a model loop the names captured by the generator.
func (x *Exec) genFrame(fr *Frame, c *Clo) *Frame {
	n := fr.clone()
	for i, fv := range c.Fn.FreeVars {
		n.names[fv.Name()] = Binding{V: c.Binds[i], T: fv.Type().(*types.Pointer).Elem(), Cell: true, Pos: fv.Pos()}
	}
	n.genOf = c.Fn
	return n
}

func nilRecv(sp *FuncSpec) types.Type {
	return types.NewSignatureType(nil, nil, nil, nil, nil, false)
}

func (x *Exec) contract1(fr *Frame, st *State, sp *FuncSpec, sig *types.Signature, args []Value, p token.Pos, fn *ssa.Function, extra map[string]Binding) []Outcome {
	if fn == nil || sp.Assumed {
		x.externs["assumed: "+sp.Name] = true
	}
	var recvT types.Type = nilRecv(sp)
	if strings.HasPrefix(sp.Name, "iface:") {
		recvT = ifaceRecvT
	}
	// escape pointers passed to the callee
	_, ts := paramNames(sp, sig, fn)
	off := len(args) - len(ts)
	for i, t := range ts {
		x.escape(st, x.term(args[i+off]), t)
	}
	if !sp.Getter {
		x.publish(st)
	}
	names := x.bindParams(sp, sig, fn, args, recvT)
	for k, v := range extra {
		names[k] = v
	}
	pre := st.clone()
	pctx := &Ctx{x: x, st: pre, old: pre, cur: st, names: names, spec: sp}
	for _, r := range sp.Req {
		if !r.active(x.prop) {
			continue
		}
		t := x.mustBool(pctx, r, sp)
		x.oblige(st, "requires", sp.Name+":"+r.Label, p, t, r.Props)
	}
	if x.rootSpec != nil {
		for _, g := range x.rootSpec.Guards {
			if g.Callee != sp.Name || !g.C.active(x.prop) {
				continue
			}
			_, ts := paramNames(sp, sig, fn)
			gn := x.scopeNames(fr, fr.names, true)
			for i, n := range g.Params {
				gn[n] = Binding{V: args[i], T: ts[i]}
			}
			gc := &Ctx{x: x, st: st.clone(), old: x.entry, oldNames: x.entryCtx.names, cur: st, names: gn, spec: x.rootSpec}
			x.oblige(st, "guard", sp.Name+":"+g.C.Label, p, x.mustBool(gc, g.C, x.rootSpec), g.C.Props)
		}
	}
	pre = st.clone()
	pctx = &Ctx{x: x, st: pre, old: pre, cur: st, names: names, spec: sp}
	mods := x.evalMods(pctx, sp.Mods)
	live := mods[:0:0]
	for _, m := range mods {
		if m.Ref != nil && strings.HasPrefix(m.Key, "$gen") && x.clos[m.Ref] != nil {
			continue // a known generator was run instead
		}
		live = append(live, m)
	}
	mods = live
	if !sp.Getter {
		n := x.fresh("next", "Int")
		st.assume(Le(pre.next, n))
		st.next = n
	}
	x.havocMods(st, mods, pre.next)
	for _, g := range sp.Sets {
		if g.active(x.prop) {
			st.setHeap(g.Name, x.fresh(g.Name, ghostSort(g.Name)))
		}
	}
	// results
	var vals []Value
	post := &Ctx{x: x, st: st, old: pre, cur: st, names: names, oldNames: names, spec: sp}
	pn := map[string]Binding{}
	for k, v := range names {
		pn[k] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		v := x.fresh("r", sortOf(rt))
		x.wf(st, v, rt, 0)
		x.notUnpublished(st, v, rt, pre)
		vals = append(vals, v)
		if i < len(sp.Results) {
			pn[sp.Results[i]] = Binding{V: v, T: rt}
		}
	}
	if !sp.Getter {
		st.pub = st.next
	}
	post.names = pn
	for _, g := range sp.Sets {
		if g.active(x.prop) {
			st.assume(Eq(st.heap(g.Name, ghostSort(g.Name)), post.eval(g.Expr).T))
		}
	}
	for _, e := range sp.Ens {
		if !e.active(x.prop) {
			continue
		}
		st.assume(x.mustBool(post, e, sp))
	}
	for _, e := range sp.Relies {
		if e.active(x.prop) {
			x.externs["relied on at calls of "+sp.Name+": "+e.Src] = true
			st.assume(x.mustBool(post, e, sp))
		}
	}
	if st.has[False] {
		return nil
	}
	return []Outcome{{st, vals}}
}

func (x *Exec) notUnpublished(st *State, v *Term, t types.Type, pre *State) {}

var ifaceRecvT types.Type = types.NewInterfaceType(nil, nil)

func (x *Exec) mustBool(c *Ctx, cl *Clause, sp *FuncSpec) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				panic(unsupported{fmt.Sprintf("%s:%d: %s of %s: %s", cl.File, cl.Line, cl.Kind, sp.Name, ee.msg)})
			}
			panic(r)
		}
	}()
	return c.boolean(cl.Expr)
}

// selfGroup is the receiver of the verified function if it is a group.
func (x *Exec) selfGroup() *Term {
	if x.rootSpec == nil || len(x.rootSpec.Params) == 0 || x.entryCtx == nil {
		return nil
	}
	b, ok := x.entryCtx.names[x.rootSpec.Params[0]]
	if !ok || b.T == nil || typeKey(b.T) != "*centroid.Centroid" {
		return nil
	}
	t, _ := b.V.(*Term)
	return t
}

func (x *Exec) havocMods(st *State, mods []ModT, preNext *Term) {
	preDP := st.heaps["F:centroid.Centroid.DataPoints"]
	for _, m := range mods {
		h := st.heap(m.Key, m.Sort)
		if m.Set != nil {
			n := x.fresh(m.Key, m.Sort)
			st.setHeap(m.Key, n)
			r := BVar("r", "Int")
			st.assume(Forall([]*Term{r}, Implies(And(Lt(r, preNext), Eq(F("occ", r, m.Set), Int(0))), Eq(App("select", arrElem(m.Sort), n, r), App("select", arrElem(m.Sort), h, r))), pat(App("select", arrElem(m.Sort), n, r))))
			continue
		}
		if m.Ref == nil {
			n := x.fresh(m.Key, m.Sort)
			st.setHeap(m.Key, n)
			if m.Key == "E:common.DataPoint" {
				// point arrays made by this activation are out of reach of
				// others, unless they belong to the verified group itself
				r := BVar("r", "Int")
				cond := []*Term{Le(x.entry.next, r), Lt(r, preNext)}
				if s := x.selfGroup(); s != nil {
					old := sRef(Select(st.heap("F:centroid.Centroid.DataPoints", ArrSort("Int", "Slice")), s))
					if preDP != nil {
						old = sRef(Select(preDP, s))
					}
					cond = append(cond, Not(Eq(r, old)))
				}
				st.assume(Forall([]*Term{r}, Implies(And(cond...), Eq(App("select", arrElem(m.Sort), n, r), App("select", arrElem(m.Sort), h, r))), pat(App("select", arrElem(m.Sort), n, r))))
			}
			if m.Key == "$now" {
				st.assume(Le(h, n))
			}
			continue
		}
		v := x.fresh(m.Key, arrElem(m.Sort))
		st.setHeap(m.Key, Store(h, m.Ref, v))
	}
	for _, m := range mods {
		if m.Ref != nil && m.Ty != nil {
			x.wf(st, Select(st.heap(m.Key, m.Sort), m.Ref), m.Ty, 0)
		}
	}
}

// modRefs: the references the verified function may change in a heap.
func (x *Exec) modRefs(key string) []*Term {
	var out []*Term
	for _, m := range x.rootMods {
		if m.Key == key && m.Ref != nil {
			out = append(out, m.Ref)
		}
	}
	return out
}

// modSets: the sets of references it may change there.
func (x *Exec) modSets(key string) []*Term {
	var out []*Term
	for _, m := range x.rootMods {
		if m.Key == key && m.Set != nil {
			out = append(out, m.Set)
		}
	}
	return out
}

func (x *Exec) modAll(key string) bool {
	for _, m := range x.rootMods {
		if m.Key == key && m.Ref == nil && m.Set == nil {
			return true
		}
	}
	return false
}

// ---- builtins ----

func (x *Exec) builtinLen(st *State, v Value, t types.Type, name string) Value {
	tm := x.term(v)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if name == "cap" {
			return sCap(tm)
		}
		return sLen(tm)
	case *types.Map:
		n := Select(st.heap("ML", ArrSort("Int", "Int")), tm)
		st.assume(And(Le(Int(0), n), Le(n, Int(maxLen))))
		return Ite(Eq(tm, Int(0)), Int(0), n)
	case *types.Basic:
		defFun("strlen", []string{"Str"}, "Int", "")
		n := F("strlen", tm)
		st.assume(Le(Int(0), n))
		return n
	case *types.Array:
		return Int(u.Len())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return Int(a.Len())
		}
	case *types.Chan:
		n := x.fresh("chanlen", "Int")
		st.assume(Le(Int(0), n))
		return n
	}
	panic(unsupported{"len of " + t.String()})
}

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Value, p token.Pos) []Outcome {
	switch b.Name() {
	case "len", "cap":
		return one1(st, x.builtinLen(st, args[0], cc.Args[0].Type(), b.Name()))
	case "append":
		return one1(st, x.appendSlice(fr, st, x.term(args[0]), x.term(args[1]), cc.Args[0].Type(), cc.Args[1].Type(), p))
	case "copy":
		return one1(st, x.copySlice(st, x.term(args[0]), x.term(args[1]), cc.Args[0].Type(), cc.Args[1].Type(), p))
	case "delete":
		x.mapDelete(fr, st, x.term(args[0]), cc.Args[0].Type().Underlying().(*types.Map), x.term(args[1]), p)
		return one1(st)
	case "min", "max":
		r := x.term(args[0])
		for _, a := range args[1:] {
			t := x.term(a)
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(t, r), r, t)
			}
		}
		return one1(st, r)
	case "print", "println":
		return one1(st)
	case "close":
		return one1(st)
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0], p)
		return one1(st, args[0])
	case "panic":
		x.oblige(st, "safe", "no-panic", p, False, []string{"C24"})
		return nil
	}
	x.fail(p, "builtin %s", b.Name())
	return nil
}

// appendSlice: the result either shares the backing array (it fits) or is a
// new array. A path split keeps the heap exact.
func (x *Exec) appendSlice(fr *Frame, st *State, s, t *Term, st0, tt types.Type, p token.Pos) *Term {
	if b, ok := tt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		x.fail(p, "append of string")
	}
	el := elemType(st0)
	E := st.elems(el)
	if sLen(t) == Int(0) {
		return s
	}
	ls, lt := sLen(s), sLen(t)
	newLen := Add(ls, lt)
	st.assume(Le(newLen, Int(maxLen)))
	fits := Le(newLen, sCap(s))
	if sCap(s) == Int(0) {
		fits = False
	}
	for _, a := range []*Term{fits} {
		if st.has[a] {
			fits = True
		} else if st.has[Not(a)] {
			fits = False
		}
	}
	nref := x.alloc(st)
	ncap := x.fresh("cap", "Int")
	st.assume(And(Le(newLen, ncap), Le(ncap, Int(maxLen))))
	vs, vt := x.view(st, s, el), x.view(st, t, el)
	As := Select(E, sRef(s))
	At := Select(E, sRef(t))
	n, isN := lt.isInt()
	one := isN && n.Int64() == 1
	if isN && n.Int64() <= 8 {
		for i := int64(0); i < n.Int64(); i++ {
			st.assume(Eq(SeqIdx(vt, Int(i)), Select(At, Add(sOff(t), Int(i)))))
		}
	}
	// contents if it fits: written in place after the old elements
	var inPlace *Term
	if one {
		inPlace = Store(As, Add(sOff(s), ls), Select(At, sOff(t)))
	} else {
		inPlace = x.fresh("app", As.Sort)
		st.assume(Implies(Eq(lt, Int(0)), Eq(inPlace, As)))
	}
	newArr := x.fresh("arr", As.Sort)
	if fits == False {
		res := mkSlice(nref, Int(0), newLen, ncap)
		st.setHeap(eKey(el), Store(E, nref, newArr))
		st.assume(Eq(x.view(st, res, el), SeqCat(vs, vt)))
		if one && eKey(el) != floatKey {
			st.assume(Eq(Select(newArr, ls), Select(At, sOff(t))))
		}
		x.appFloat(st, el, newArr, Int(0), As, sOff(s), ls, At, sOff(t), lt)
		return res
	}
	x.checkAppend(st, el, s, p)
	if fits == True {
		res := mkSlice(sRef(s), sOff(s), newLen, sCap(s))
		st.setHeap(eKey(el), Store(E, sRef(s), inPlace))
		st.assume(Eq(x.view(st, res, el), SeqCat(vs, vt)))
		st.assume(Eq(x.view(st, s, el), vs))
		x.appFloat(st, el, inPlace, sOff(s), As, sOff(s), ls, At, sOff(t), lt)
		return res
	}
	ref := x.fresh("aref", "Int")
	off := x.fresh("aoff", "Int")
	cp := x.fresh("acap", "Int")
	res := mkSlice(ref, off, newLen, cp)
	st.assume(Implies(fits, And(Eq(ref, sRef(s)), Eq(off, sOff(s)), Eq(cp, sCap(s)))))
	st.assume(Implies(Not(fits), And(Eq(ref, nref), Eq(off, Int(0)), Eq(cp, ncap))))
	arr := x.fresh("aarr", As.Sort)
	st.setHeap(eKey(el), Store(E, ref, arr))
	st.assume(Implies(fits, Eq(arr, inPlace)))
	st.assume(Eq(x.view(st, res, el), SeqCat(vs, vt)))
	// the old slice keeps its elements
	st.assume(Eq(x.view(st, s, el), vs))
	x.appFloat(st, el, arr, off, As, sOff(s), ls, At, sOff(t), lt)
	return res
}

func (x *Exec) appFloat(st *State, el types.Type, arr, off, As, so, ls, At, to, lt *Term) {
	if eKey(el) != floatKey {
		return
	}
	i := BVar("i", "Int")
	st.assume(Forall([]*Term{i}, Implies(And(Le(off, i), Lt(i, Add(off, ls))), Eq(App("select", "Real", arr, i), Select(As, Add(so, Sub(i, off))))), pat(App("select", "Real", arr, i))))
	st.assume(Forall([]*Term{i}, Implies(And(Le(Add(off, ls), i), Lt(i, Add(Add(off, ls), lt))), Eq(App("select", "Real", arr, i), Select(At, Add(to, Sub(Sub(i, off), ls))))), pat(App("select", "Real", arr, i))))
}

// checkAppend: an append may write behind the slice; for vectors that must be
// unpublished memory.
func (x *Exec) checkAppend(st *State, el types.Type, s *Term, p token.Pos) {
	if eKey(el) == floatKey {
		x.oblige(st, "frame", "vectors-immutable", p, Or(Ge(sRef(s), st.pub), Eq(sCap(s), sLen(s))), nil)
	}
}

func (x *Exec) copySlice(st *State, d, s *Term, dt, stt types.Type, p token.Pos) *Term {
	el := elemType(dt)
	if elemType(stt) == nil {
		x.fail(p, "copy from %s", stt)
	}
	E := st.elems(el)
	n := Ite(Le(sLen(d), sLen(s)), sLen(d), sLen(s))
	if st.has[Eq(sLen(d), sLen(s))] || sLen(d) == sLen(s) {
		n = sLen(s)
	}
	x.checkElemStore(st, el, sRef(d), p)
	vd, vs := x.view(st, d, el), x.view(st, s, el)
	Ad := Select(E, sRef(d))
	As := Select(E, sRef(s))
	arr := x.fresh("cp", Ad.Sort)
	st.setHeap(eKey(el), Store(E, sRef(d), arr))
	st.assume(Eq(x.view(st, d, el), SeqCat(SeqTake(vs, n), SeqDrop(vd, n))))
	if eKey(el) == floatKey {
		i := BVar("i", "Int")
		st.assume(Forall([]*Term{i}, Implies(And(Le(sOff(d), i), Lt(i, Add(sOff(d), n))),
			Eq(App("select", "Real", arr, i), Select(As, Add(sOff(s), Sub(i, sOff(d)))))), pat(App("select", "Real", arr, i))))
		i2 := BVar("i", "Int")
		st.assume(Forall([]*Term{i2}, Implies(Or(Lt(i2, sOff(d)), Le(Add(sOff(d), n), i2)),
			Eq(App("select", "Real", arr, i2), Select(Ad, i2))), pat(App("select", "Real", arr, i2))))
	}
	return n
}

func (x *Exec) feasible(st *State, c *Term) bool { return true }

// pureFacts: a function declared pure, used as a value, behaves like its
// contract says; its result symbols stand for its results.
func (x *Exec) pureFacts(fn *ssa.Function, f *Term) {
	sp := x.sp.Funcs[FuncName(fn)]
	if sp == nil || len(sp.Pure) == 0 || x.pureDone[f] {
		return
	}
	if x.pureDone == nil {
		x.pureDone = map[*Term]bool{}
	}
	x.pureDone[f] = true
	x.used[sp.Name] = true
	st := &State{heaps: map[string]*Term{}, cells: map[*Term]*CellV{}, has: map[*Term]bool{}, next: Int(1)}
	names := map[string]Binding{}
	var vars []*Term
	app := []*Term{f}
	for i, p := range fn.Params {
		v := BVar("a"+fmt.Sprint(i), sortOf(p.Type()))
		vars = append(vars, v)
		app = append(app, v)
		names[sp.Params[i]] = Binding{V: v, T: p.Type()}
	}
	rs := fn.Signature.Results()
	var pats [][]*Term
	for i := 0; i < rs.Len(); i++ {
		r := F(sp.Pure[i], app...)
		pats = append(pats, pat(r))
		if rs.At(i).Type().String() == "error" {
			// the symbol says whether the error is nil
			names[sp.Results[i]] = Binding{V: Construct("Iface", Ite(r, Int(0), Int(1)), Int(0)), T: rs.At(i).Type()}
			continue
		}
		names[sp.Results[i]] = Binding{V: r, T: rs.At(i).Type()}
	}
	ctx := &Ctx{x: x, st: st, old: st, cur: st, names: names, spec: sp}
	for _, e := range sp.Ens {
		if e.active(x.prop) {
			x.axioms = append(x.axioms, Forall(vars, x.mustBool(ctx, e, sp), pats...))
		}
	}
}
