package main

// Symbolic execution of go/ssa: control flow and instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	DefDatatype("Iface", []string{"i.tag", "i.val"}, []string{"Int", "Int"})
}

const maxSteps = 400000
const maxExec = 150 * time.Second // per function and round

func (x *Exec) value(fr *Frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constant(c)
	case *ssa.Function:
		t := x.cloTerm(&Clo{Fn: c})
		x.pureFacts(c, t)
		return t
	case *ssa.Global:
		return &AddrV{Kind: "global", T: c.Type().(*types.Pointer).Elem(), Key: "G:" + c.Pkg.Pkg.Name() + "." + c.Name()}
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported{fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)})
	}
	return r
}

func (x *Exec) tv(fr *Frame, v ssa.Value) *Term { return x.term(x.value(fr, v)) }

func (x *Exec) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch sortOf(t) {
	case "Int":
		iv := constant.ToInt(c.Value)
		if iv.Kind() == constant.Int {
			return BigInt(iv.ExactString())
		}
	case "Real":
		r, ok := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
		if ok {
			return RealLit(r)
		}
	case "Bool":
		return Bool(constant.BoolVal(c.Value))
	case "Str":
		return StrLit(constant.StringVal(c.Value))
	case "Iface":
		return nilIface()
	}
	panic(unsupported{"constant " + c.String()})
}

// runFn executes a function body; args include the receiver.
func (x *Exec) runFn(fn *ssa.Function, args, binds []Value, st *State, parent *Frame) []Outcome {
	if fn.Blocks == nil {
		panic(unsupported{"no body: " + fn.String()})
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, names: map[string]Binding{}, cuts: map[*ssa.BasicBlock]*Cut{},
		unroll: map[*ssa.BasicBlock]int{}, parent: parent}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.path = parent.path + "/"
		fr.base = parent.base + x.loopsAround(parent)
	}
	fr.path += FuncName(fn)
	if fr.depth > 30 {
		panic(unsupported{"call depth in " + fn.String()})
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		if p.Name() != "" && p.Name() != "_" {
			fr.names[p.Name()] = Binding{V: args[i], T: p.Type()}
		}
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
		fr.names[p.Name()] = Binding{V: binds[i], T: p.Type().(*types.Pointer).Elem(), Cell: true, Pos: p.Pos()}
	}
	return x.block(fr, fn.Blocks[0], nil, st)
}

func (x *Exec) block(fr *Frame, b, pred *ssa.BasicBlock, st *State) []Outcome {
	for _, lp := range fr.stops {
		if !lp.Blocks[b] {
			return nil
		}
	}
	li := x.loopInfo(fr.fn)
	if lp := li.headers[b]; lp != nil {
		return x.enterLoop(fr, lp, pred, st)
	}
	x.phis(fr, b, pred)
	return x.instrs(fr, b, 0, st)
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func (x *Exec) phiVals(fr *Frame, b, pred *ssa.BasicBlock) map[*ssa.Phi]Value {
	out := map[*ssa.Phi]Value{}
	pi := predIndex(b, pred)
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out[p] = x.value(fr, p.Edges[pi])
	}
	return out
}

func (x *Exec) setPhis(fr *Frame, vals map[*ssa.Phi]Value) {
	for p, v := range vals {
		fr.env[p] = v
		fr.names["\x00"+p.Name()] = Binding{V: v, T: p.Type()}
		if p.Comment != "" {
			fr.names[p.Comment] = Binding{V: v, T: p.Type()}
		}
	}
}

func (x *Exec) phis(fr *Frame, b, pred *ssa.BasicBlock) {
	if pred != nil {
		x.setPhis(fr, x.phiVals(fr, b, pred))
	}
}

func (x *Exec) instrs(fr *Frame, b *ssa.BasicBlock, from int, st *State) []Outcome {
	fr.cur = b
	for i := from; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > maxSteps || x.steps%512 == 0 && time.Since(x.started) > maxExec {
			panic(unsupported{"too many paths in " + x.rootName})
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi:
			// done at block entry
		case *ssa.DebugRef:
			if !in.IsAddr {
				if id, ok := in.Expr.(interface{ String() string }); ok {
					if v, ok2 := fr.env[in.X]; ok2 && in.Object() != nil {
						_ = id
						if b, had := fr.names[in.Object().Name()]; had && b.Cell && (isCellLoad(in.X) || b.Pos.IsValid() && b.Pos == in.Object().Pos()) {
							continue // the name stands for the variable, not for a value read from it
						}
						fr.names[in.Object().Name()] = Binding{V: v, T: in.X.Type()}
					}
				}
			}
		case *ssa.Jump:
			return x.block(fr, b.Succs[0], b, st)
		case *ssa.If:
			c := x.tv(fr, in.Cond)
			if c == True {
				return x.block(fr, b.Succs[0], b, st)
			}
			if c == False {
				return x.block(fr, b.Succs[1], b, st)
			}
			if !st.contradicts(c) && !st.contradicts(Not(c)) {
				if outs, ok := x.joinIf(fr, b, c, st); ok {
					return outs
				}
			}
			var outs []Outcome
			if !st.contradicts(c) && x.feasible(st, c) {
				s1 := st.clone()
				s1.assume(c)
				outs = append(outs, x.block(fr.clone(), b.Succs[0], b, s1)...)
			}
			n := Not(c)
			if !st.contradicts(n) && x.feasible(st, n) {
				s2 := st.clone()
				s2.assume(n)
				outs = append(outs, x.block(fr.clone(), b.Succs[1], b, s2)...)
			}
			return outs
		case *ssa.Return:
			var vals []Value
			for _, r := range in.Results {
				vals = append(vals, x.value(fr, r))
			}
			return []Outcome{{st, vals}}
		case *ssa.Panic:
			x.oblige(st, "safe", "no-panic", in.Pos(), False, []string{"C24"})
			return nil
		case *ssa.Call:
			outs := x.call(fr, st, in.Common(), in, in.Pos())
			return x.continueWith(fr, b, i, in, outs)
		case *ssa.Defer:
			d := deferred{instr: in}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.value(fr, a))
			}
			if in.Call.StaticCallee() == nil || in.Call.IsInvoke() {
				d.fnv = x.value(fr, in.Call.Value)
			} else if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
				d.fnv = x.value(fr, mc)
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			outs := []Outcome{{st, nil}}
			ds := fr.defers
			fr.defers = nil
			for j := len(ds) - 1; j >= 0; j-- {
				var nouts []Outcome
				for _, o := range outs {
					nouts = append(nouts, x.callValue(fr, o.st, &ds[j].instr.Call, ds[j].fnv, ds[j].args, ds[j].instr.Pos())...)
				}
				outs = nouts
			}
			return x.continueWith(fr, b, i, nil, outs)
		case *ssa.Next:
			return x.continueWith(fr, b, i, in, x.next(fr, st, in))
		case *ssa.Go:
			outs := x.goCall(fr, st, in)
			return x.continueWith(fr, b, i, nil, outs)
		default:
			x.step(fr, st, in)
		}
	}
	panic("block fell through")
}

func (x *Exec) continueWith(fr *Frame, b *ssa.BasicBlock, i int, res ssa.Value, outs []Outcome) []Outcome {
	var all []Outcome
	for k, o := range outs {
		f := fr
		if k < len(outs)-1 {
			f = fr.clone()
		}
		if res != nil {
			switch len(o.vals) {
			case 0:
			case 1:
				f.env[res] = o.vals[0]
			default:
				f.env[res] = o.vals
			}
		}
		all = append(all, x.instrs(f, b, i+1, o.st)...)
	}
	return all
}

func (x *Exec) nilCheck(st *State, v Value, p token.Pos) {
	t, ok := v.(*Term)
	if !ok {
		return
	}
	if _, ok := x.addrs[t]; ok {
		return
	}
	if _, ok := st.cells[t]; ok {
		return
	}
	if _, ok := x.clos[t]; ok {
		return
	}
	x.oblige(st, "safe", "nil-deref", p, Not(Eq(t, Int(0))), []string{"C24"})
}

func (x *Exec) inRange(st *State, i, n *Term, p token.Pos) {
	x.oblige(st, "safe", "index", p, And(Le(Int(0), i), Lt(i, n)), []string{"C24"})
}

func (x *Exec) step(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		ptr := x.alloc(st)
		t := in.Type().(*types.Pointer).Elem()
		st.cells[ptr] = &CellV{zeroOf(t), t}
		fr.env[in] = ptr
		if in.Comment != "" {
			fr.names[in.Comment] = Binding{V: ptr, T: t, Cell: true, Pos: in.Pos()}
		}
	case *ssa.Store:
		t := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		av := x.value(fr, in.Addr)
		x.nilCheck(st, av, in.Pos())
		x.guardAccess(fr, st, x.addr(st, av, t), in.Pos(), true)
		pre := st
		if x.inPkg("rpc") {
			pre = st.clone()
		}
		x.store(st, x.addr(st, av, t), x.tv(fr, in.Val), in.Pos())
		if x.inPkg("rpc") {
			x.groupsStored(pre, st, x.addr(st, av, t), in.Pos())
		}
	case *ssa.UnOp:
		x.unop(fr, st, in)
	case *ssa.BinOp:
		fr.env[in] = x.binop(fr, st, in)
	case *ssa.FieldAddr:
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		v := x.value(fr, in.X)
		x.nilCheck(st, v, in.Pos())
		fr.env[in] = x.addr(st, v, pt).step(PStep{Field: in.Field, T: pt})
	case *ssa.Field:
		fr.env[in] = Sel(fieldSel(in.X.Type(), in.Field), x.tv(fr, in.X))
	case *ssa.IndexAddr:
		idx := x.tv(fr, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.tv(fr, in.X)
			x.inRange(st, idx, sLen(s), in.Pos())
			x.linkElem(st, s, idx, u.Elem())
			fr.env[in] = &AddrV{Kind: "elem", Ref: sRef(s), T: u.Elem(), Idx: Add(sOff(s), idx)}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			v := x.value(fr, in.X)
			x.nilCheck(st, v, in.Pos())
			x.inRange(st, idx, Int(at.Len()), in.Pos())
			fr.env[in] = x.addr(st, v, u.Elem()).step(PStep{Idx: idx, T: u.Elem()})
		default:
			x.fail(in.Pos(), "IndexAddr %s", in.X.Type())
		}
	case *ssa.Index:
		at, ok := in.X.Type().Underlying().(*types.Array)
		if !ok {
			x.fail(in.Pos(), "Index %s", in.X.Type())
		}
		idx := x.tv(fr, in.Index)
		x.inRange(st, idx, Int(at.Len()), in.Pos())
		fr.env[in] = Select(x.tv(fr, in.X), idx)
	case *ssa.Slice:
		fr.env[in] = x.slice(fr, st, in)
	case *ssa.MakeSlice:
		n, c := x.tv(fr, in.Len), x.tv(fr, in.Cap)
		x.oblige(st, "safe", "make-slice", in.Pos(), And(Le(Int(0), n), Le(n, c), Le(c, Int(maxLen))), []string{"C24"})
		el := elemType(in.Type())
		fr.env[in] = x.makeSlice(st, el, n, c)
	case *ssa.MakeClosure:
		c := &Clo{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.Binds = append(c.Binds, x.value(fr, b))
		}
		fr.env[in] = x.cloTerm(c)
	case *ssa.MakeMap:
		fr.env[in] = x.makeMap(st, in.Type().Underlying().(*types.Map))
	case *ssa.MakeChan:
		fr.env[in] = x.makeChan(fr, st, in)
	case *ssa.MapUpdate:
		x.mapUpdate(fr, st, in)
	case *ssa.Lookup:
		x.lookup(fr, st, in)
	case *ssa.Range:
		x.rangeMap(fr, st, in)
	case *ssa.Extract:
		tup, ok := x.value(fr, in.Tuple).([]Value)
		if !ok {
			x.fail(in.Pos(), "extract of %T", x.value(fr, in.Tuple))
		}
		fr.env[in] = tup[in.Index]
	case *ssa.Convert:
		fr.env[in] = x.convert(fr, st, in)
	case *ssa.ChangeType:
		v := x.value(fr, in.X)
		if t, ok := v.(*Term); ok && t.Sort != sortOf(in.Type()) {
			v = reStruct(t, in.X.Type(), in.Type())
		}
		fr.env[in] = v
	case *ssa.ChangeInterface:
		fr.env[in] = x.value(fr, in.X)
	case *ssa.MakeInterface:
		fr.env[in] = x.makeIface(st, x.value(fr, in.X), in.X.Type())
	case *ssa.TypeAssert:
		x.typeAssert(fr, st, in)
	case *ssa.Send:
		x.send(fr, st, in)
	default:
		x.fail(in.Pos(), "instruction %T", in)
	}
}

func reStruct(t *Term, from, to types.Type) *Term {
	df, dt := datatypes[sortOf(from)], datatypes[sortOf(to)]
	if df == nil || dt == nil {
		panic(unsupported{"change type " + from.String()})
	}
	var args []*Term
	for _, s := range df.Sels {
		args = append(args, Sel(s, t))
	}
	return Construct(dt.Sort, args...)
}

func (x *Exec) makeIface(st *State, v Value, t types.Type) *Term {
	tm := x.term(v)
	if tm.Sort != "Int" {
		b := x.alloc(st)
		if x.boxes == nil {
			x.boxes = map[*Term]*Term{}
		}
		// the reference alone may recur in another path: pair it with the value
		x.boxes[b] = tm
		return Construct("Iface", ifaceTag(t), b)
	}
	return Construct("Iface", ifaceTag(t), tm)
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) {
	v := x.tv(fr, in.X)
	ok := x.fresh("isT", "Bool")
	if !types.IsInterface(in.AssertedType) {
		st.assume(Eq(ok, Eq(Sel("i.tag", v), ifaceTag(in.AssertedType))))
	}
	r := x.fresh("asT", sortOf(in.AssertedType))
	if r.Sort == "Int" {
		st.assume(Implies(ok, Eq(r, Sel("i.val", v))))
	}
	if in.CommaOk {
		fr.env[in] = []Value{r, ok}
		return
	}
	x.oblige(st, "safe", "type-assert", in.Pos(), ok, []string{"C24"})
	fr.env[in] = r
}

// linkElem relates an element read to the sequence view of its slice.
func (x *Exec) linkElem(st *State, s, idx *Term, elem types.Type) {
	A := Select(st.elems(elem), sRef(s))
	if eKey(elem) == floatKey {
		t := F("vat", A, sOff(s), idx)
		if !t.Bound {
			st.assume(App("=", "Bool", t, Select(A, Add(sOff(s), idx))))
		}
		return
	}
	v := x.view(st, s, elem)
	st.assume(Eq(SeqIdx(v, idx), Select(A, Add(sOff(s), idx))))
}

// constArr: the array of nothing but v. The solvers want a value there; for
// other terms the array is described instead.
func (x *Exec) constArr(st *State, srt string, v *Term) *Term {
	var names func(t *Term) bool
	names = func(t *Term) bool {
		if t.Op == "var" {
			return true
		}
		for _, a := range t.Args {
			if names(a) {
				return true
			}
		}
		return false
	}
	if !names(v) {
		return ConstArr(srt, v)
	}
	a := x.fresh("zeros", srt)
	i := BVar("i", "Int")
	s := App("select", v.Sort, a, i)
	st.assume(Forall([]*Term{i}, Eq(s, v), pat(s)))
	return a
}

func (x *Exec) makeSlice(st *State, el types.Type, n, c *Term) *Term {
	ref := x.alloc(st)
	E := st.elems(el)
	arr := ArrSort("Int", sortOf(el))
	st.setHeap(eKey(el), Store(E, ref, x.constArr(st, arr, zeroOf(el))))
	s := mkSlice(ref, Int(0), n, c)
	return s
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Value {
	var lo, hi *Term
	if in.Low != nil {
		lo = x.tv(fr, in.Low)
	} else {
		lo = Int(0)
	}
	if in.High != nil {
		hi = x.tv(fr, in.High)
	}
	if in.Max != nil {
		x.fail(in.Pos(), "3-index slice")
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.tv(fr, in.X)
		if hi == nil {
			hi = sLen(s)
		}
		x.oblige(st, "safe", "slice-bounds", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, sCap(s))), []string{"C24"})
		r := mkSlice(sRef(s), Add(sOff(s), lo), Sub(hi, lo), Sub(sCap(s), lo))
		el := u.Elem()
		v, w := x.view(st, s, el), x.view(st, r, el)
		if lo == Int(0) {
			st.assume(Implies(Le(hi, sLen(s)), Eq(w, SeqTake(v, hi))))
		} else if hi == sLen(s) {
			st.assume(Eq(w, SeqDrop(v, lo)))
		} else {
			st.assume(Implies(Le(hi, sLen(s)), Eq(w, SeqDrop(SeqTake(v, hi), lo))))
		}
		return r
	case *types.Pointer: // array
		at := u.Elem().Underlying().(*types.Array)
		v := x.value(fr, in.X)
		a := x.addr(st, v, u.Elem())
		if hi == nil {
			hi = Int(at.Len())
		}
		if a.Kind == "cell" && len(a.Path) == 0 {
			x.materialise(st, a.Ref)
			r := mkSlice(a.Ref, lo, Sub(hi, lo), Sub(Int(at.Len()), lo))
			x.smallView(st, r, at.Elem())
			return r
		}
		x.fail(in.Pos(), "slice of array %s", a.Kind)
	}
	x.fail(in.Pos(), "slice of %s", in.X.Type())
	return nil
}

// smallView states the view of a slice of known short length.
func (x *Exec) smallView(st *State, s *Term, el types.Type) {
	n, ok := sLen(s).isInt()
	if !ok || n.Int64() > 8 {
		return
	}
	A := Select(st.elems(el), sRef(s))
	seq := SeqEmpty(sortOf(el))
	for i := int64(0); i < n.Int64(); i++ {
		seq = SeqCat(seq, SeqUnit(Select(A, Add(sOff(s), Int(i)))))
	}
	st.assume(Eq(x.view(st, s, el), seq))
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) {
	switch in.Op {
	case token.MUL:
		v := x.value(fr, in.X)
		x.nilCheck(st, v, in.Pos())
		a := x.addr(st, v, in.Type())
		x.guardAccess(fr, st, a, in.Pos(), false)
		r := x.load(st, a)
		fr.env[in] = r
	case token.NOT:
		fr.env[in] = Not(x.tv(fr, in.X))
	case token.SUB:
		fr.env[in] = Neg(x.tv(fr, in.X))
	case token.ARROW:
		x.recv(fr, st, in)
	default:
		x.fail(in.Pos(), "unop %s", in.Op)
	}
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Value {
	a, b := x.tv(fr, in.X), x.tv(fr, in.Y)
	t := in.X.Type()
	srt := a.Sort
	switch in.Op {
	case token.EQL, token.NEQ:
		var e *Term
		switch {
		case srt == "Slice": // comparison with nil
			s := a
			if a == zeroSlice() {
				s = b
			}
			e = Eq(sRef(s), Int(0))
		case srt == "Iface":
			s := a
			if a == nilIface() {
				s = b
			}
			if a == nilIface() || b == nilIface() {
				e = Eq(Sel("i.tag", s), Int(0))
			} else {
				e = Eq(a, b)
			}
		default:
			if _, isSig := t.Underlying().(*types.Signature); isSig {
				if _, ok := x.clos[a]; ok && b == Int(0) {
					e = False
				} else if _, ok := x.clos[b]; ok && a == Int(0) {
					e = False
				}
			}
			if e == nil && isRefType(t) {
				if b == Int(0) && (x.addrs[a] != nil || st.cells[a] != nil) {
					e = False
				}
				if a == Int(0) && (x.addrs[b] != nil || st.cells[b] != nil) {
					e = False
				}
			}
			if e == nil {
				e = Eq(a, b)
			}
		}
		if in.Op == token.NEQ {
			return Not(e)
		}
		return e
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if srt == "Str" {
			x.fail(in.Pos(), "string order")
		}
		switch in.Op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		}
		return Le(b, a)
	case token.ADD:
		if srt == "Str" {
			defFun("strcat", []string{"Str", "Str"}, "Str", "")
			return F("strcat", a, b)
		}
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO:
		if srt == "Real" {
			// IEEE division by zero does not panic; the quotient is unspecified.
			return RDiv(a, b)
		}
		x.oblige(st, "safe", "div-by-zero", in.Pos(), Not(Eq(b, Int(0))), []string{"C24", "C19"})
		return x.intDiv(st, a, b)
	case token.REM:
		x.oblige(st, "safe", "div-by-zero", in.Pos(), Not(Eq(b, Int(0))), []string{"C24", "C19"})
		return Sub(a, Mul(b, x.intDiv(st, a, b)))
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if srt == "Bool" {
			if in.Op == token.AND {
				return And(a, b)
			}
			if in.Op == token.OR {
				return Or(a, b)
			}
		}
		// bit operations are not interpreted
		return x.fresh("bits", srt)
	}
	x.fail(in.Pos(), "binop %s", in.Op)
	return nil
}

// intDiv is Go's truncated division.
func (x *Exec) intDiv(st *State, a, b *Term) *Term {
	if m, ok := a.isInt(); ok {
		if n, ok := b.isInt(); ok && n.Sign() != 0 {
			return BigInt(new(big.Int).Quo(m, n).String())
		}
	}
	q := App("div", "Int", a, b)
	if st.has[Le(Int(0), a)] {
		return q
	}
	return Ite(Le(Int(0), a), q, Neg(App("div", "Int", Neg(a), b)))
}

func (x *Exec) convert(fr *Frame, st *State, in *ssa.Convert) Value {
	v := x.tv(fr, in.X)
	to, from := sortOf(in.Type()), v.Sort
	switch {
	case to == from && to != "Int":
		return v
	case to == "Int" && from == "Int":
		// integer conversions are treated as value preserving
		return v
	case from == "Int" && to == "Real":
		return ToReal(v)
	case from == "Real" && to == "Int":
		fl := App("to_int", "Int", v)
		return Ite(Ge(v, ToReal(Int(0))), fl, Neg(App("to_int", "Int", Neg(v))))
	}
	defFun("conv_"+clean(from)+"_"+clean(to), []string{from}, to, "")
	return F("conv_"+clean(from)+"_"+clean(to), v)
}

// isCellLoad: the value was read from a variable that lives in memory.
func isCellLoad(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	switch u.X.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return true
	}
	return false
}
