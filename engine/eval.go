package main

// Evaluation of contract expressions (Go expression syntax) to terms.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
)

type TV struct {
	T  *Term
	Ty types.Type
}

type thunk struct {
	e     ast.Expr
	env   map[string]*thunk
	bound map[string]TV
}

type Ctx struct {
	x         *Exec
	st        *State
	old       *State
	loop      *State
	cur       *State // state that receives facts
	names     map[string]Binding
	loopNames map[string]Binding
	oldNames  map[string]Binding
	iter      *Term
	spec      *FuncSpec
	env       map[string]*thunk
	bound     map[string]TV
	depth     int
}

type evalErr struct{ msg string }

func (c *Ctx) errf(f string, a ...interface{}) {
	panic(evalErr{fmt.Sprintf(f, a...)})
}

var bvarSeq = 0

func (c *Ctx) tryBool(e ast.Expr) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				if debugEval {
					fmt.Println("    [template not applicable]", ee.msg)
				}
				t = nil
				return
			}
			if _, ok := r.(unsupported); ok {
				t = nil
				return
			}
			if msg, ok := r.(string); ok && strings.Contains(msg, "have ") && strings.Contains(msg, " want ") {
				t = nil // a template over a value of another type
				return
			}
			panic(r)
		}
	}()
	return c.boolean(e)
}

var debugEval = false

func (c *Ctx) boolean(e ast.Expr) *Term {
	v := c.eval(e)
	if v.T.Sort != "Bool" {
		c.errf("not boolean: %s", exprStr(e))
	}
	return v.T
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (c *Ctx) eval(e ast.Expr) TV {
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 200 {
		c.errf("recursion in %s", exprStr(e))
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			return TV{BigInt(e.Value), tInt}
		case token.FLOAT:
			r, _ := new(big.Rat).SetString(e.Value)
			return TV{RealLit(r), tFloat}
		case token.STRING:
			s, _ := strconv.Unquote(e.Value)
			return TV{StrLit(s), tString}
		}
	case *ast.Ident:
		return c.ident(e.Name)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return TV{Not(c.boolean(e.X)), tBool}
		case token.SUB:
			v := c.eval(e.X)
			return TV{Neg(v.T), v.Ty}
		}
	case *ast.BinaryExpr:
		return c.binary(e)
	case *ast.SelectorExpr:
		return c.selector(e)
	case *ast.IndexExpr:
		return c.index(e)
	case *ast.StarExpr:
		v := c.eval(e.X)
		p, ok := v.Ty.Underlying().(*types.Pointer)
		if !ok {
			c.errf("deref of %s", exprStr(e.X))
		}
		return TV{c.load(c.x.addr(c.st, v.T, p.Elem())), p.Elem()}
	case *ast.CallExpr:
		return c.callExpr(e)
	}
	c.errf("expression %s (%T)", exprStr(e), e)
	return TV{}
}

func (c *Ctx) load(a *AddrV) *Term {
	old := c.x.sink
	c.x.sink = c.cur
	if c.cur == nil {
		c.x.sink = c.st
	}
	t := c.x.load(c.st, a)
	c.x.sink = old
	return t
}

func (c *Ctx) binding(b Binding) TV {
	if b.Cell {
		a := c.x.addr(c.st, b.V, b.T)
		return TV{c.load(a), b.T}
	}
	if at, ok := b.V.(*AddrV); ok {
		if at.Kind == "global" {
			return TV{c.st.heap(at.Key, heapSorts[at.Key]), b.T}
		}
		return TV{c.x.term(at), b.T}
	}
	t, ok := b.V.(*Term)
	if !ok {
		c.errf("no term for binding")
	}
	return TV{t, b.T}
}

func (c *Ctx) ident(n string) TV {
	if v, ok := c.bound[n]; ok {
		return v
	}
	if th, ok := c.env[n]; ok {
		save, sb := c.env, c.bound
		c.env, c.bound = th.env, th.bound
		v := c.eval(th.e)
		c.env, c.bound = save, sb
		return v
	}
	if b, ok := c.names[n]; ok {
		return c.binding(b)
	}
	x := c.x
	if c.spec != nil {
		for _, l := range c.spec.Lets {
			if l.Name == n {
				d := *c
				d.st = c.old
				d.env, d.bound = nil, nil
				if c.oldNames != nil {
					d.names = c.oldNames
				}
				return d.eval(l.Expr)
			}
		}
	}
	if x.rootSpec != nil && c.spec != x.rootSpec && c.iter != nil {
		for _, l := range x.rootSpec.Lets {
			if l.Name == n {
				d := *x.entryCtx
				d.cur = c.cur
				return d.eval(l.Expr)
			}
		}
	}
	switch n {
	case "true":
		return TV{True, tBool}
	case "false":
		return TV{False, tBool}
	case "nil":
		return TV{Int(0), nil}
	case "iter":
		if c.iter == nil {
			c.errf("iter outside a loop")
		}
		return TV{c.iter, tInt}
	case "D":
		return TV{rigidD(x), x.typ("common.DataPoint")}
	case "A":
		return TV{Var("A", sortOf(x.typ("common.Addr"))), x.typ("common.Addr")}
	case "J", "Q", "NS", "P":
		if n == "NS" {
			return TV{Var("NS", "Str"), tString}
		}
		return TV{Var(n, "Int"), tInt}
	case "SELF": // the receiver of the verified function
		if x.rootSpec != nil && len(x.rootSpec.Params) > 0 {
			if b, ok := x.entryCtx.names[x.rootSpec.Params[0]]; ok {
				return c.binding(b)
			}
		}
	case "MAXFLOAT":
		return TV{RealLit(new(big.Rat).SetFloat64(math.MaxFloat64)), tFloat}
	case "now":
		return TV{c.st.heap("$now", "Int"), tInt}
	case "next":
		return TV{c.st.next, tInt}
	}
	if strings.HasPrefix(n, "G_") {
		return TV{c.st.heap(n, ghostSort(n)), ghostType(n)}
	}
	if m := x.sp.Macros[n]; m != nil && len(m.Params) == 0 {
		save, sb := c.env, c.bound
		c.env, c.bound = nil, nil
		v := c.eval(m.Body)
		c.env, c.bound = save, sb
		return v
	}
	c.errf("unknown name %s", n)
	return TV{}
}

func rigidD(x *Exec) *Term { return Var("D", sortOf(x.typ("common.DataPoint"))) }

func (x *Exec) typ(n string) types.Type {
	t, ok := x.pr.Types[n]
	if !ok {
		panic(evalErr{"no type " + n})
	}
	return t
}

// ghost globals: sort by name prefix.
func ghostSort(n string) string {
	if t, ok := ghostTab[n]; ok {
		if a, ok := t.(*ArrT); ok {
			return ArrSort(sortOf(a.K), sortOf(a.V))
		}
		return sortOf(t)
	}
	switch {
	case strings.HasPrefix(n, "G_r"):
		return "Real"
	case strings.HasPrefix(n, "G_a"):
		return ArrSort("Int", "Int")
	case strings.HasPrefix(n, "G_b"):
		return "Bool"
	}
	return "Int"
}
func ghostType(n string) types.Type {
	if t, ok := ghostTab[n]; ok {
		return t
	}
	switch ghostSort(n) {
	case "Real":
		return tFloat
	case "Bool":
		return tBool
	}
	return tInt
}

func (c *Ctx) coerce(a, b TV) (TV, TV) {
	if a.Ty == nil && b.Ty != nil { // nil literal
		return TV{nilFor(b), b.Ty}, b
	}
	if b.Ty == nil && a.Ty != nil {
		return a, TV{nilFor(a), a.Ty}
	}
	if a.T.Sort == "Real" && b.T.Sort == "Int" {
		return a, TV{ToReal(b.T), tFloat}
	}
	if a.T.Sort == "Int" && b.T.Sort == "Real" {
		return TV{ToReal(a.T), tFloat}, b
	}
	return a, b
}

func nilFor(v TV) *Term {
	switch v.T.Sort {
	case "Slice":
		return zeroSlice()
	case "Iface":
		return nilIface()
	}
	return Int(0)
}

func (c *Ctx) binary(e *ast.BinaryExpr) TV {
	switch e.Op {
	case token.LAND:
		return TV{And(c.boolean(e.X), c.boolean(e.Y)), tBool}
	case token.LOR:
		return TV{Or(c.boolean(e.X), c.boolean(e.Y)), tBool}
	}
	a0, b0 := c.eval(e.X), c.eval(e.Y)
	a, b := c.coerce(a0, b0)
	if a.T.Sort != b.T.Sort {
		c.errf("sorts %s and %s in %s", a.T.Sort, b.T.Sort, exprStr(e))
	}
	switch e.Op {
	case token.EQL, token.NEQ:
		var t *Term
		switch {
		case a.T.Sort == "Slice" && (a0.Ty == nil || b0.Ty == nil):
			s := a.T
			if a0.Ty == nil {
				s = b.T
			}
			t = Eq(sRef(s), Int(0))
		case a.T.Sort == "Iface" && (a0.Ty == nil || b0.Ty == nil):
			s := a.T
			if a0.Ty == nil {
				s = b.T
			}
			t = Eq(Sel("i.tag", s), Int(0))
		default:
			t = Eq(a.T, b.T)
		}
		if e.Op == token.NEQ {
			t = Not(t)
		}
		return TV{t, tBool}
	case token.LSS:
		return TV{Lt(a.T, b.T), tBool}
	case token.LEQ:
		return TV{Le(a.T, b.T), tBool}
	case token.GTR:
		return TV{Lt(b.T, a.T), tBool}
	case token.GEQ:
		return TV{Le(b.T, a.T), tBool}
	case token.ADD:
		return TV{Add(a.T, b.T), a.Ty}
	case token.SUB:
		return TV{Sub(a.T, b.T), a.Ty}
	case token.MUL:
		return TV{Mul(a.T, b.T), a.Ty}
	case token.QUO:
		if a.T.Sort == "Real" {
			return TV{RDiv(a.T, b.T), a.Ty}
		}
		return TV{App("div", "Int", a.T, b.T), a.Ty}
	case token.REM:
		return TV{Sub(a.T, Mul(b.T, c.x.intDiv(c.st, a.T, b.T))), a.Ty}
	}
	c.errf("operator %s", e.Op)
	return TV{}
}

func (c *Ctx) selector(e *ast.SelectorExpr) TV {
	v := c.eval(e.X)
	if v.Ty == nil {
		c.errf("no type for %s", exprStr(e.X))
	}
	return c.field(v, e.Sel.Name, exprStr(e))
}

func (c *Ctx) field(v TV, name, where string) TV {
	t := types.Unalias(v.Ty)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s := structOf(p.Elem())
		if s == nil {
			c.errf("field of %s in %s", v.Ty, where)
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				a := c.x.addr(c.st, v.T, p.Elem()).step(PStep{Field: i, T: p.Elem()})
				return TV{c.load(a), s.Field(i).Type()}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Anonymous() {
				if es := structOf(s.Field(i).Type()); es != nil {
					for j := 0; j < es.NumFields(); j++ {
						if es.Field(j).Name() == name {
							a := c.x.addr(c.st, v.T, p.Elem()).step(PStep{Field: i, T: p.Elem()})
							inner := TV{c.load(a), s.Field(i).Type()}
							return c.field(inner, name, where)
						}
					}
				}
			}
		}
		c.errf("no field %s in %s", name, where)
	}
	s := structOf(t)
	if s == nil {
		c.errf("field %s of %s in %s", name, v.Ty, where)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			r := Sel(fieldSel(t, i), v.T)
			return TV{r, s.Field(i).Type()}
		}
	}
	c.errf("no field %s in %s", name, where)
	return TV{}
}

func (c *Ctx) index(e *ast.IndexExpr) TV {
	v := c.eval(e.X)
	i := c.eval(e.Index)
	if v.Ty == nil {
		c.errf("index of untyped %s", exprStr(e.X))
	}
	switch u := types.Unalias(v.Ty).Underlying().(type) {
	case *SeqType:
		return TV{SeqIdx(v.T, i.T), u.Elem}
	case *types.Slice:
		el := u.Elem()
		if eKey(el) != floatKey {
			return TV{SeqIdx(c.x.view(c.st, v.T, el), i.T), el}
		}
		r := Select(Select(c.st.elems(el), sRef(v.T)), Add(sOff(v.T), i.T))
		return TV{r, el}
	case *types.Array:
		return TV{Select(v.T, i.T), u.Elem()}
	case *ArrT:
		return TV{Select(v.T, i.T), u.V}
	case *types.Map:
		return TV{c.x.mapVal(c.st, v.T, u, i.T), u.Elem()}
	}
	c.errf("index of %s", v.Ty)
	return TV{}
}

func (c *Ctx) withState(st *State, names map[string]Binding, f func(d *Ctx) TV) TV {
	d := *c
	d.st = st
	if names != nil {
		d.names = names
	}
	return f(&d)
}

func (c *Ctx) seqOf(e ast.Expr) (*Term, types.Type) {
	v := c.eval(e)
	if v.Ty == nil {
		c.errf("sequence expected: %s", exprStr(e))
	}
	switch u := types.Unalias(v.Ty).Underlying().(type) {
	case *SeqType:
		return v.T, u.Elem
	case *types.Slice:
		return c.x.view(c.st, v.T, u.Elem()), u.Elem()
	}
	c.errf("sequence expected: %s", exprStr(e))
	return nil, nil
}

func (c *Ctx) vecContent(v *Term) *Term {
	return Select(c.st.elems(tFloat), sRef(v))
}

func (x *Exec) dpsTerm(st *State, c *Term) *Term {
	dp := x.typ("common.DataPoint")
	if x.inPkg("centroid") {
		ct := x.typ("centroid.Centroid")
		s := structOf(ct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "DataPoints" {
				a := x.addr(st, c, ct).step(PStep{Field: i, T: ct})
				return x.view(st, x.load(st, a), dp)
			}
		}
		panic(evalErr{"no DataPoints"})
	}
	return Select(x.mdHeap(st), c)
}

func (x *Exec) mdHeap(st *State) *Term {
	return st.heap("MD", ArrSort("Int", SeqSort(sortOf(x.typ("common.DataPoint")))))
}

func (x *Exec) inPkg(p string) bool { return x.root != nil && pkgOf(x.root) == p }

func (c *Ctx) args(e *ast.CallExpr, n int) {
	if len(e.Args) != n {
		c.errf("%s takes %d arguments", exprStr(e.Fun), n)
	}
}

func (c *Ctx) callExpr(e *ast.CallExpr) TV {
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		c.errf("call of %s", exprStr(e.Fun))
	}
	x := c.x
	A := e.Args
	ev := func(i int) *Term { return c.eval(A[i]).T }
	switch id.Name {
	case "len":
		v := c.eval(A[0])
		switch types.Unalias(v.Ty).Underlying().(type) {
		case *SeqType:
			return TV{SeqLen(v.T), tInt}
		case *types.Slice:
			return TV{sLen(v.T), tInt}
		case *types.Map:
			return TV{Ite(Eq(v.T, Int(0)), Int(0), Select(c.st.heap("ML", ArrSort("Int", "Int")), v.T)), tInt}
		}
		c.errf("len of %s", v.Ty)
	case "cap":
		return TV{sCap(ev(0)), tInt}
	case "imp":
		return TV{Implies(c.boolean(A[0]), c.boolean(A[1])), tBool}
	case "iff":
		return TV{Eq(c.boolean(A[0]), c.boolean(A[1])), tBool}
	case "ite":
		a, b := c.coerce(c.eval(A[1]), c.eval(A[2]))
		return TV{Ite(c.boolean(A[0]), a.T, b.T), a.Ty}
	case "min", "max":
		a, b := ev(0), ev(1)
		if id.Name == "min" {
			return TV{Ite(Le(a, b), a, b), tInt}
		}
		return TV{Ite(Le(a, b), b, a), tInt}
	case "real":
		return TV{ToReal(ev(0)), tFloat}
	case "old":
		if c.old == nil {
			c.errf("old")
		}
		return c.withState(c.old, c.oldNames, func(d *Ctx) TV { return d.eval(A[0]) })
	case "loopold":
		if c.loop == nil {
			c.errf("loopold")
		}
		return c.withState(c.loop, c.loopNames, func(d *Ctx) TV { return d.eval(A[0]) })
	case "forall", "exists":
		// forall(i, lo, hi, body); directly nested quantifiers are merged
		d := *c
		d.bound = map[string]TV{}
		for k, t := range c.bound {
			d.bound[k] = t
		}
		var bs []*Term
		var rngs []*Term
		call := e
		for {
			c.args(call, 4)
			v := call.Args[0].(*ast.Ident).Name
			bvarSeq++
			b := BVar(fmt.Sprintf("%s~%d", v, bvarSeq), "Int")
			lo, hi := d.eval(call.Args[1]).T, d.eval(call.Args[2]).T
			bs = append(bs, b)
			rngs = append(rngs, Le(lo, b), Lt(b, hi))
			d.bound[v] = TV{b, tInt}
			inner, ok := call.Args[3].(*ast.CallExpr)
			if !ok {
				break
			}
			f, ok := inner.Fun.(*ast.Ident)
			if !ok || f.Name != id.Name {
				break
			}
			call = inner
		}
		body := d.boolean(call.Args[3])
		rng := And(rngs...)
		if id.Name == "forall" {
			return TV{Forall(bs, Implies(rng, body), multiPat(body, bs)...), tBool}
		}
		return TV{Exists(bs, And(rng, body)), tBool}
	case "forallk", "existsk": // forallk(k, m, body): for every key k of the map m
		c.args(e, 3)
		m := c.eval(A[1])
		mt, ok := m.Ty.Underlying().(*types.Map)
		if !ok {
			c.errf("forallk over %s", m.Ty)
		}
		d := *c
		d.bound = map[string]TV{}
		for k, t := range c.bound {
			d.bound[k] = t
		}
		v := A[0].(*ast.Ident).Name
		bvarSeq++
		b := BVar(fmt.Sprintf("%s~%d", v, bvarSeq), sortOf(mt.Key()))
		d.bound[v] = TV{b, mt.Key()}
		hk, hs, vk, vs := mapKeys(mt)
		h := App("select", "Bool", Select(c.st.heap(hk, hs), m.T), b)
		w := App("select", sortOf(mt.Elem()), Select(c.st.heap(vk, vs), m.T), b)
		if id.Name == "existsk" {
			return TV{And(Not(Eq(m.T, Int(0))), Exists([]*Term{b}, And(h, d.boolean(A[2])), pat(h))), tBool}
		}
		var pats [][]*Term
		for _, t := range []*Term{h, w} {
			if t.Op == "select" && t.Args[0].Op != "store" { // solvers rewrite the others
				pats = append(pats, pat(t))
			}
		}
		return TV{Or(Eq(m.T, Int(0)), Forall([]*Term{b}, Implies(h, d.boolean(A[2])), pats...)), tBool}
	case "view":
		t, el := c.seqOf(A[0])
		return TV{t, &SeqType{el}}
	case "dps":
		old := x.sink
		x.sink = c.cur
		t := x.dpsTerm(c.st, ev(0))
		x.sink = old
		return TV{t, &SeqType{x.typ("common.DataPoint")}}
	case "val": // J-th coordinate of a vector in the current state
		v := ev(0)
		return TV{Select(c.vecContent(v), Add(sOff(v), Var("J", "Int"))), tFloat}
	case "valat":
		v := ev(0)
		return TV{F("vat", c.vecContent(v), sOff(v), ev(1)), tFloat}
	case "fresh":
		v := ev(0)
		if v.Sort == "Slice" {
			return TV{Or(Ge(sRef(v), c.old.next), Eq(sCap(v), Int(0))), tBool}
		}
		return TV{Ge(v, c.old.next), tBool}
	case "loopfresh": // allocated since the loop was entered
		if c.loop == nil {
			c.errf("loopfresh")
		}
		v := ev(0)
		if v.Sort == "Slice" {
			return TV{Or(Ge(sRef(v), c.loop.next), Eq(sCap(v), Int(0))), tBool}
		}
		return TV{Ge(v, c.loop.next), tBool}
	case "older": // allocated before the call
		v := ev(0)
		if v.Sort == "Slice" {
			v = sRef(v)
		}
		return TV{Lt(v, c.old.next), tBool}
	case "ref":
		v := ev(0)
		if v.Sort == "Slice" {
			return TV{sRef(v), tInt}
		}
		return TV{v, tInt}
	case "take", "drop":
		s, el := c.seqOf(A[0])
		if id.Name == "take" {
			return TV{SeqTake(s, ev(1)), &SeqType{el}}
		}
		return TV{SeqDrop(s, ev(1)), &SeqType{el}}
	case "cat":
		s, el := c.seqOf(A[0])
		for _, a := range A[1:] {
			t, _ := c.seqOf(a)
			s = SeqCat(s, t)
		}
		return TV{s, &SeqType{el}}
	case "unit":
		v := c.eval(A[0])
		return TV{SeqUnit(v.T), &SeqType{v.Ty}}
	case "upd":
		s, el := c.seqOf(A[0])
		return TV{SeqUpd(s, ev(1), ev(2)), &SeqType{el}}
	case "emptylike":
		s, el := c.seqOf(A[0])
		return TV{F("empty_" + seqC(s)), &SeqType{el}}
	case "seqeq":
		a, _ := c.seqOf(A[0])
		b, _ := c.seqOf(A[1])
		if a == b {
			return TV{True, tBool}
		}
		return TV{SeqEqT(a, b), tBool}
	case "perm":
		a, _ := c.seqOf(A[0])
		b, _ := c.seqOf(A[1])
		return TV{Perm(a, b), tBool}
	case "dist2", "dot", "cossim":
		a, b := ev(0), ev(1)
		return TV{F(id.Name+"f", c.vecContent(a), sOff(a), c.vecContent(b), sOff(b), ev(2)), tFloat}
	case "queued": // the messages in a channel, oldest first
		v := c.eval(A[0])
		ct, ok := v.Ty.Underlying().(*types.Chan)
		if !ok {
			c.errf("queued of %s", v.Ty)
		}
		sk, ss := chanKey(ct.Elem())
		return TV{Select(c.st.heap(sk, ss), v.T), &SeqType{ct.Elem()}}
	case "isnilfunc":
		return TV{Eq(ev(0), Int(0)), tBool}
	case "yielded", "gendone":
		return c.genGhost(id.Name, A[0])
	case "foreign":
		return TV{x.foreignTag(Sel("i.tag", ev(0))), tBool}
	case "tagof":
		return TV{Sel("i.tag", ev(0)), tInt}
	case "ptrof":
		n := A[1].(*ast.SelectorExpr)
		ty := x.typ(n.X.(*ast.Ident).Name + "." + n.Sel.Name)
		return TV{Sel("i.val", ev(0)), types.NewPointer(ty)}
	case "isa": // isa(iface, pkg.T): dynamic type is *pkg.T
		n := A[1].(*ast.SelectorExpr)
		ty := x.typ(n.X.(*ast.Ident).Name + "." + n.Sel.Name)
		return TV{Eq(Sel("i.tag", ev(0)), ifaceTag(types.NewPointer(ty))), tBool}
	case "heap": // heap(pkg.T.field): the whole field map
		k, t := c.heapKey(A[0])
		return TV{c.st.heap(k, ArrSort("Int", sortOf(t))), nil}
	case "MDheap":
		return TV{x.mdHeap(c.st), nil}
	case "has": // has(map, key)
		m := c.eval(A[0])
		return TV{x.mapHas(c.st, m.T, m.Ty.Underlying().(*types.Map), ev(1)), tBool}
	case "hasof", "valof": // the key set and the values of a map
		m := c.eval(A[0])
		mt := m.Ty.Underlying().(*types.Map)
		hk, hs, vk, vs := mapKeys(mt)
		if id.Name == "hasof" {
			return TV{Select(c.st.heap(hk, hs), m.T), &ArrT{mt.Key(), tBool}}
		}
		return TV{Select(c.st.heap(vk, vs), m.T), &ArrT{mt.Key(), mt.Elem()}}
	case "held":
		return TV{Select(c.st.heap("$held", ArrSort("Int", "Bool")), ev(0)), tBool}
	case "ptr": // address term of an addressable expression
		return c.addrOf(A[0])
	}
	if m := x.sp.Macros[id.Name]; m != nil {
		if len(m.Params) != len(A) {
			c.errf("macro %s takes %d arguments", id.Name, len(m.Params))
		}
		env := map[string]*thunk{}
		for i, p := range m.Params {
			env[p] = &thunk{A[i], c.env, c.bound}
		}
		save, sb := c.env, c.bound
		c.env, c.bound = env, nil
		v := c.eval(m.Body)
		c.env, c.bound = save, sb
		return v
	}
	if ms := measures[id.Name]; ms != nil {
		var args []*Term
		for i, a := range A {
			if i == len(A)-1 {
				s, _ := c.seqOf(a)
				args = append(args, s)
			} else if isSeq(ms.Params[i]) {
				s, _ := c.seqOf(a)
				args = append(args, s)
			} else {
				args = append(args, c.eval(a).T)
			}
		}
		ty := types.Type(tInt)
		if ms.Ret == "Real" {
			ty = tFloat
		}
		return TV{F(ms.Name, args...), ty}
	}
	if fs := funSyms[id.Name]; fs != nil {
		c.args(e, len(fs.Args))
		var args []*Term
		for i, a := range A {
			if isSeq(fs.Args[i]) {
				s, _ := c.seqOf(a)
				args = append(args, s)
				continue
			}
			v := c.eval(a)
			if fs.Args[i] == "Real" && v.T.Sort == "Int" {
				v.T = ToReal(v.T)
			}
			if v.T.Sort != fs.Args[i] {
				c.errf("%s: argument %d has sort %s, want %s", id.Name, i, v.T.Sort, fs.Args[i])
			}
			args = append(args, v.T)
		}
		ty := funTypes[id.Name]
		if ty == nil {
			switch fs.Ret {
			case "Bool":
				ty = tBool
			case "Real":
				ty = tFloat
			case "Str":
				ty = tString
			default:
				ty = tInt
			}
			if isSeq(fs.Ret) {
				switch seqElem[fs.Ret] {
				case "Int":
					ty = &SeqType{tInt}
				case sortOf(x.typ("common.DataPoint")):
					ty = &SeqType{x.typ("common.DataPoint")}
				default:
					ty = &SeqType{tFloatSlice}
				}
			}
		}
		return TV{F(id.Name, args...), ty}
	}
	c.errf("unknown function %s", id.Name)
	return TV{}
}

var funTypes = map[string]types.Type{}
var tFloatSlice = types.NewSlice(tFloat)

// addrOf returns the pointer term of a field access path p.f.g.
func (c *Ctx) addrOf(e ast.Expr) TV {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		v := c.eval(e)
		return v
	}
	a, t := c.addrPath(s)
	return TV{c.x.term(a), types.NewPointer(t)}
}

func (c *Ctx) addrPath(e ast.Expr) (*AddrV, types.Type) {
	if s, ok := e.(*ast.SelectorExpr); ok {
		base := c.evalMaybeAddr(s.X)
		st := structOf(base.typ())
		if st == nil {
			c.errf("no struct in %s", exprStr(e))
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == s.Sel.Name {
				return base.step(PStep{Field: i, T: base.typ()}), st.Field(i).Type()
			}
		}
		c.errf("no field in %s", exprStr(e))
	}
	v := c.eval(e)
	if p, ok := v.Ty.Underlying().(*types.Pointer); ok {
		return c.x.addr(c.st, v.T, p.Elem()), p.Elem()
	}
	c.errf("no address for %s", exprStr(e))
	return nil, nil
}

func (c *Ctx) evalMaybeAddr(e ast.Expr) *AddrV {
	v := c.eval(e)
	if p, ok := v.Ty.Underlying().(*types.Pointer); ok {
		return c.x.addr(c.st, v.T, p.Elem())
	}
	a, _ := c.addrPath(e)
	return a
}

func (c *Ctx) heapKey(e ast.Expr) (string, types.Type) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		c.errf("heap key %s", exprStr(e))
	}
	in, ok := s.X.(*ast.SelectorExpr)
	if !ok {
		c.errf("heap key %s", exprStr(e))
	}
	tn := in.X.(*ast.Ident).Name + "." + in.Sel.Name
	ty := c.x.typ(tn)
	st := structOf(ty)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == s.Sel.Name {
			return "F:" + typeKey(ty) + "." + s.Sel.Name, st.Field(i).Type()
		}
	}
	c.errf("no field %s", exprStr(e))
	return "", nil
}

func (c *Ctx) genGhost(what string, e ast.Expr) TV {
	if id := exprStr(e); c.names != nil {
		if b, ok := c.names[what+":"+id]; ok {
			return c.binding(b)
		}
	}
	g := c.eval(e).T
	if what == "yielded" {
		return TV{Select(c.x.genHeap(c.st), g), &SeqType{tFloatSlice}}
	}
	return TV{Select(c.st.heap("$gendone", ArrSort("Int", "Bool")), g), tBool}
}

func (x *Exec) genHeap(st *State) *Term {
	return st.heap("$gen", ArrSort("Int", SeqSort("Slice")))
}

// autoPat picks trigger terms for a quantified body.
func autoPat(body, b *Term) [][]*Term {
	var out [][]*Term
	seen := map[*Term]bool{}
	var best []*Term
	var visit func(t *Term)
	mentions := map[*Term]bool{}
	var men func(t *Term) bool
	men = func(t *Term) bool {
		if t == b {
			return true
		}
		if !t.Bound {
			return false
		}
		if v, ok := mentions[t]; ok {
			return v
		}
		r := false
		for _, a := range t.Args {
			if men(a) {
				r = true
			}
		}
		mentions[t] = r
		return r
	}
	visit = func(t *Term) {
		if seen[t] || !t.Bound {
			return
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			return
		}
		if (t.Op == "select" || strings.HasPrefix(t.Op, "idx_") || (funSyms[t.Op] != nil && len(t.Args) > 0)) && men(t) && onlyBound(t, b) {
			// the index must be plain enough for matching
			best = append(best, t)
			if t.Op != "select" && !strings.HasPrefix(t.Op, "idx_") {
				return
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(body)
	// prefer minimal terms
	for _, t := range best {
		minimal := true
		for _, u := range best {
			if u != t && subterm(t, u) {
				minimal = false
			}
		}
		if minimal && !hasArith(t) {
			out = append(out, []*Term{t})
		}
	}
	return out
}

func onlyBound(t, b *Term) bool {
	free := map[*Term]bool{}
	freeBound(t, free, map[*Term]bool{})
	return len(free) == 1 && free[b]
}

// hasArith: contains interpreted boolean/comparison structure unsuitable in a pattern.
func hasArith(t *Term) bool {
	switch t.Op {
	case "ite", "and", "or", "not", "=", "<", "<=", "=>":
		return true
	}
	for _, a := range t.Args {
		if hasArith(a) {
			return true
		}
	}
	return false
}

func subterm(t, u *Term) bool {
	for _, a := range t.Args {
		if a == u || subterm(a, u) {
			return true
		}
	}
	return false
}

// multiPat combines the triggers of several variables.
func multiPat(body *Term, bs []*Term) [][]*Term {
	out := [][]*Term{nil}
	for _, b := range bs {
		ps := autoPat(body, b)
		if len(ps) == 0 {
			return nil
		}
		if len(bs) > 1 && len(ps) > 2 {
			ps = ps[:2]
		}
		var n [][]*Term
		for _, o := range out {
			for _, p := range ps {
				n = append(n, append(append([]*Term{}, o...), p...))
			}
		}
		out = n
	}
	return out
}
