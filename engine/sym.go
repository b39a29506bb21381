package main

// Symbolic execution of go/ssa: values, addresses, state.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Value interface{} // *Term | *AddrV | []Value (tuple) | *MapIter

type PStep struct {
	Field int
	Idx   *Term      // nil for field steps
	T     types.Type // container type
}

type AddrV struct {
	Kind string // cell, obj, elem, ptr, global
	Ref  *Term
	T    types.Type // type of the base object (struct type, element type, pointee)
	Idx  *Term
	Path []PStep
	Key  string
}

type MapIter struct {
	Map   *Term
	T     *types.Map
	Ghost string // heap key of the visited set
	Has0  *Term  // the keys when the iteration began
	Str   *Term
}

type Clo struct {
	Fn    *ssa.Function
	Binds []Value
	Recv  bool
}

type CellV struct {
	V *Term
	T types.Type
}

type State struct {
	heaps map[string]*Term
	cells map[*Term]*CellV
	facts []*Term
	has   map[*Term]bool
	next  *Term
	pub   *Term
	wins  [][2]*Term // references handed out by others while a lock was taken
}

func (s *State) clone() *State {
	n := &State{heaps: map[string]*Term{}, cells: map[*Term]*CellV{}, has: map[*Term]bool{}, next: s.next, pub: s.pub, wins: append([][2]*Term{}, s.wins...)}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k := range s.has {
		n.has[k] = true
	}
	n.facts = append([]*Term{}, s.facts...)
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if s.has[t] {
		return
	}
	s.has[t] = true
	s.facts = append(s.facts, t)
}

func (s *State) contradicts(t *Term) bool {
	if t == False || s.has[False] {
		return true
	}
	if s.has[Not(t)] {
		return true
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			if s.has[Not(a)] {
				return true
			}
		}
	}
	// a<b contradicts b<=a
	if t.Op == "<" && s.has[App("<=", "Bool", t.Args[1], t.Args[0])] {
		return true
	}
	if t.Op == "<=" && s.has[App("<", "Bool", t.Args[1], t.Args[0])] {
		return true
	}
	return false
}

var heapSorts = map[string]string{}

func (s *State) heap(key, srt string) *Term {
	if old, ok := heapSorts[key]; ok && old != srt {
		panic("heap sort clash " + key + " " + old + " " + srt)
	}
	heapSorts[key] = srt
	if t, ok := s.heaps[key]; ok {
		return t
	}
	t := Var(key+"@0", srt)
	s.heaps[key] = t
	return t
}

func (s *State) setHeap(key string, t *Term) {
	heapSorts[key] = t.Sort
	s.heaps[key] = t
}

func eKey(elem types.Type) string { return "E:" + typeKey(elem) }
func eSort(elem types.Type) string {
	return ArrSort("Int", ArrSort("Int", sortOf(elem)))
}

func (s *State) elems(elem types.Type) *Term { return s.heap(eKey(elem), eSort(elem)) }

const floatKey = "E:float64"

func contTerm() *Term { return Var(floatKey+"@0", eSort(tFloat)) }

type Binding struct {
	V    Value // value, or pointer when Cell
	T    types.Type
	Cell bool
	Pos  token.Pos // of the declaration, for variables that live in memory
}

type Cut struct {
	Header   *ssa.BasicBlock
	ID       string
	Iter     *Term
	Cands    []*Cand
	Head     *State
	Back     []*State // dry runs
	BackVals []map[*ssa.Phi]Value
	Publish  bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	names  map[string]Binding
	defers []deferred
	cuts   map[*ssa.BasicBlock]*Cut
	unroll map[*ssa.BasicBlock]int
	parent *Frame
	path   string
	depth  int
	lctx   map[*ssa.BasicBlock]*loopCtx
	stops  []*Loop
	genOf  *ssa.Function
	cur    *ssa.BasicBlock
	base   int // loops around the call
}

type deferred struct {
	instr *ssa.Defer
	args  []Value
	fnv   Value
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.names = make(map[string]Binding, len(f.names))
	for k, v := range f.names {
		n.names[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	n.cuts = make(map[*ssa.BasicBlock]*Cut, len(f.cuts))
	for k, v := range f.cuts {
		n.cuts[k] = v
	}
	n.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	return &n
}

type Outcome struct {
	st   *State
	vals []Value
}

type Obligation struct {
	Kind    string // ensures, requires, safe, frame, inv, unsupported
	Label   string
	Func    string
	Pos     string
	Facts   []*Term
	Goal    *Term
	Cand    string
	Req     bool // an invariant written in a contract
	Props   []string
	Res     string // unsat(=proved), sat, unknown, timeout
	By      string
	Time    float64
	q       string
	full    bool
	timeout float64
}

type Exec struct {
	pr        *Program
	sp        *Specs
	prop      string
	root      *ssa.Function
	rootSpec  *FuncSpec
	rootName  string
	obs       []*Obligation
	nfresh    int
	dropped   map[string]bool
	dry       int
	used      map[string]bool
	externs   map[string]bool // assumed models used
	inlined   map[string]bool
	clos      map[*Term]*Clo
	cloID     map[string]*Term
	addrs     map[*Term]*AddrV
	addrID    map[string]*Term
	steps     int
	started   time.Time
	entry     *State
	entryCtx  *Ctx
	loops     map[*ssa.Function]*LoopInfo
	iterSeq   int
	unsup     []string
	liveCands map[string]bool
	paths     int
	sink      *State
	rootMods  []ModT
	pureDone  map[*Term]bool
	axioms    []*Term
	boxes     map[*Term]*Term
}

type unsupported struct{ msg string }

func (x *Exec) fail(pos token.Pos, f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...) + " at " + x.pos(pos)})
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.pr.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

func (x *Exec) fresh(prefix, srt string) *Term {
	x.nfresh++
	return Var(fmt.Sprintf("%s!%d", prefix, x.nfresh), srt)
}

func (x *Exec) oblige(st *State, kind, label string, p token.Pos, goal *Term, props []string) {
	if goal == True || st.has[goal] {
		if x.dry == 0 && kind != "safe" && kind != "frame" && (len(props) == 0 || propActive(props, x.prop)) {
			x.obs = append(x.obs, &Obligation{Kind: kind, Label: label, Func: x.rootName, Pos: x.pos(p), Goal: True, Res: "unsat", By: "rewriting", Props: props})
		}
		return
	}
	if x.dry > 0 || (len(props) > 0 && !propActive(props, x.prop)) {
		st.assume(goal)
		return
	}
	x.obs = append(x.obs, &Obligation{Kind: kind, Label: label, Func: x.rootName, Pos: x.pos(p),
		Facts: append([]*Term{}, st.facts...), Goal: goal, Props: props})
	st.assume(goal)
}

// ---- closures and addresses as terms ----

func (x *Exec) cloTerm(c *Clo) *Term {
	k := fmt.Sprintf("%p", c.Fn)
	for _, b := range c.Binds {
		k += "|" + x.valKey(b)
	}
	if t, ok := x.cloID[k]; ok {
		return t
	}
	t := Var("fn!"+clean(c.Fn.Name())+fmt.Sprint(len(x.cloID)), "Int")
	x.cloID[k] = t
	x.clos[t] = c
	x.axioms = append(x.axioms, Not(Eq(t, Int(0))))
	return t
}

func (x *Exec) valKey(v Value) string {
	switch v := v.(type) {
	case *Term:
		return fmt.Sprint(v.ID)
	case *AddrV:
		s := fmt.Sprintf("@%s,%s,%s", v.Kind, v.Key, typeKey(v.T))
		if v.Ref != nil {
			s += fmt.Sprintf(",%d", v.Ref.ID)
		}
		if v.Idx != nil {
			s += fmt.Sprintf(",%d", v.Idx.ID)
		}
		for _, p := range v.Path {
			s += fmt.Sprintf(".%d", p.Field)
			if p.Idx != nil {
				s += fmt.Sprintf("[%d]", p.Idx.ID)
			}
		}
		return s
	}
	return fmt.Sprintf("%v", v)
}

func (x *Exec) term(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *AddrV:
		if len(v.Path) == 0 && (v.Kind == "cell" || v.Kind == "obj" || v.Kind == "ptr") {
			return v.Ref
		}
		k := x.valKey(v)
		if t, ok := x.addrID[k]; ok {
			return t
		}
		t := Var(fmt.Sprintf("addr!%d", len(x.addrID)), "Int")
		x.addrID[k] = t
		x.addrs[t] = v
		return t
	}
	panic(unsupported{fmt.Sprintf("no term for %T", v)})
}

func (x *Exec) addr(st *State, v Value, pointee types.Type) *AddrV {
	switch v := v.(type) {
	case *AddrV:
		return v
	case *Term:
		if a, ok := x.addrs[v]; ok {
			return a
		}
		if c, ok := st.cells[v]; ok {
			return &AddrV{Kind: "cell", Ref: v, T: c.T}
		}
		if structOf(pointee) != nil {
			return &AddrV{Kind: "obj", Ref: v, T: pointee}
		}
		return &AddrV{Kind: "ptr", Ref: v, T: pointee}
	}
	panic(unsupported{fmt.Sprintf("address %T", v)})
}

func (a *AddrV) step(p PStep) *AddrV {
	n := *a
	n.Path = append(append([]PStep{}, a.Path...), p)
	return &n
}

func readPath(t *Term, path []PStep) *Term {
	for _, p := range path {
		if p.Idx != nil {
			t = Select(t, p.Idx)
		} else if structOf(p.T) == nil { // a field of a type that is one opaque value here
			f := types.Unalias(p.T).Underlying().(*types.Struct).Field(p.Field)
			n := "opq_" + typeKey(p.T) + "_" + f.Name()
			defFun(n, []string{t.Sort}, sortOf(f.Type()), "")
			t = F(n, t)
		} else {
			t = Sel(fieldSel(p.T, p.Field), t)
		}
	}
	return t
}

func writePath(t *Term, path []PStep, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.Idx != nil {
		return Store(t, p.Idx, writePath(Select(t, p.Idx), path[1:], v))
	}
	srt := sortOf(p.T)
	d := datatypes[srt]
	args := make([]*Term, len(d.Sels))
	for i, s := range d.Sels {
		args[i] = Sel(s, t)
		if i == p.Field {
			args[i] = writePath(args[i], path[1:], v)
		}
	}
	return Construct(srt, args...)
}

func (a *AddrV) typ() types.Type {
	t := a.T
	for _, p := range a.Path {
		if p.Idx != nil {
			t = elemType(p.T)
		} else {
			t = structOf(p.T).Field(p.Field).Type()
		}
	}
	return t
}

// objKey consumes the leading field steps of an object address.
func objKey(a *AddrV) (key string, t types.Type, rest []PStep) {
	t = a.T
	key = "F:" + typeKey(t)
	i := 0
	for ; i < len(a.Path); i++ {
		p := a.Path[i]
		if p.Idx != nil {
			break
		}
		f := structOf(p.T).Field(p.Field)
		key += "." + f.Name()
		t = f.Type()
	}
	return key, t, a.Path[i:]
}

func (x *Exec) loadObj(st *State, key string, t types.Type, ref *Term) *Term {
	if s := structOf(t); s != nil {
		srt := sortOf(t)
		var args []*Term
		for i := 0; i < s.NumFields(); i++ {
			args = append(args, x.loadObj(st, key+"."+s.Field(i).Name(), s.Field(i).Type(), ref))
		}
		if len(args) == 0 {
			return Construct(srt, Int(0))
		}
		return Construct(srt, args...)
	}
	return Select(st.heap(key, ArrSort("Int", sortOf(t))), ref)
}

func (x *Exec) storeObj(st *State, key string, t types.Type, ref, v *Term) {
	if s := structOf(t); s != nil {
		d := datatypes[sortOf(t)]
		for i := 0; i < s.NumFields(); i++ {
			x.storeObj(st, key+"."+s.Field(i).Name(), s.Field(i).Type(), ref, Sel(d.Sels[i], v))
		}
		return
	}
	st.setHeap(key, Store(st.heap(key, ArrSort("Int", sortOf(t))), ref, v))
	x.ghostFieldStore(st, key, ref, v)
}

func (x *Exec) load(st *State, a *AddrV) *Term {
	switch a.Kind {
	case "cell":
		c, ok := st.cells[a.Ref]
		if !ok { // materialised
			b := *a
			if structOf(a.T) != nil {
				b.Kind = "obj"
			} else if _, isArr := a.T.Underlying().(*types.Array); isArr {
				b.Kind = "arr"
			} else {
				b.Kind = "ptr"
			}
			return x.load(st, &b)
		}
		return readPath(c.V, a.Path)
	case "arr":
		el := elemType(a.T)
		v := readPath(Select(st.elems(el), a.Ref), a.Path)
		x.wf(st, v, a.typ(), 0)
		return v
	case "obj":
		key, t, rest := objKey(a)
		if x.sp.Volatile[strings.TrimPrefix(key, "F:")] && structOf(t) == nil {
			v := x.fresh("volatile", sortOf(t))
			x.wf(st, v, t, 0)
			return v
		}
		v := x.loadObj(st, key, t, a.Ref)
		x.wf(st, v, t, 0)
		return readPath(v, rest)
	case "elem":
		v := Select(Select(st.elems(a.T), a.Ref), a.Idx)
		x.wf(st, v, a.T, 0)
		return readPath(v, a.Path)
	case "ptr":
		v := Select(st.heap("C:"+typeKey(a.T), ArrSort("Int", sortOf(a.T))), a.Ref)
		x.wf(st, v, a.T, 0)
		return readPath(v, a.Path)
	case "global":
		v := st.heap(a.Key, sortOf(a.T))
		x.wf(st, v, a.T, 0)
		return readPath(v, a.Path)
	}
	panic("load " + a.Kind)
}

func (x *Exec) store(st *State, a *AddrV, v *Term, p token.Pos) {
	if a.Kind != "cell" || st.cells[a.Ref] == nil {
		x.escape(st, v, a.typ())
	}
	switch a.Kind {
	case "cell":
		c, ok := st.cells[a.Ref]
		if !ok {
			b := *a
			if structOf(a.T) != nil {
				b.Kind = "obj"
			} else if _, isArr := a.T.Underlying().(*types.Array); isArr {
				b.Kind = "arr"
			} else {
				b.Kind = "ptr"
			}
			x.store(st, &b, v, p)
			return
		}
		st.cells[a.Ref] = &CellV{writePath(c.V, a.Path, v), c.T}
	case "arr":
		el := elemType(a.T)
		E := st.elems(el)
		st.setHeap(eKey(el), Store(E, a.Ref, writePath(Select(E, a.Ref), a.Path, v)))
	case "obj":
		key, t, rest := objKey(a)
		if len(rest) > 0 {
			v = writePath(x.loadObj(st, key, t, a.Ref), rest, v)
		}
		x.storeObj(st, key, t, a.Ref, v)
	case "elem":
		x.checkElemStore(st, a.T, a.Ref, p)
		E := st.elems(a.T)
		A := Select(E, a.Ref)
		nv := writePath(Select(A, a.Idx), a.Path, v)
		st.setHeap(eKey(a.T), Store(E, a.Ref, Store(A, a.Idx, nv)))
	case "ptr":
		k := "C:" + typeKey(a.T)
		h := st.heap(k, ArrSort("Int", sortOf(a.T)))
		st.setHeap(k, Store(h, a.Ref, writePath(Select(h, a.Ref), a.Path, v)))
	case "global":
		st.setHeap(a.Key, writePath(st.heap(a.Key, sortOf(a.T)), a.Path, v))
	default:
		panic("store " + a.Kind)
	}
}

// checkElemStore: float vectors are immutable once published.
func (x *Exec) checkElemStore(st *State, elem types.Type, ref *Term, p token.Pos) {
	if eKey(elem) == floatKey {
		x.oblige(st, "frame", "vectors-immutable", p, Ge(ref, st.pub), nil)
	}
}

// publish fixes the contents of all float vectors allocated so far.
func (x *Exec) publish(st *State) {
	cur := st.elems(tFloat)
	c := contTerm()
	if cur != c {
		st.assume(App("=", "Bool", c, cur))
		st.setHeap(floatKey, c)
	}
	st.pub = st.next
}

// escape materialises local cells reachable through a value that leaves the
// static world.
func (x *Exec) escape(st *State, v *Term, t types.Type) {
	t = types.Unalias(t)
	if isTime(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if _, ok := st.cells[v]; ok {
			x.materialise(st, v)
		} else if a, ok := x.addrs[v]; ok && a.Kind == "cell" {
			x.materialise(st, a.Ref)
		}
	case *types.Struct:
		if v.Op == "var" && v.Sort != "" && len(st.cells) == 0 {
			return
		}
		d := datatypes[sortOf(t)]
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				x.escape(st, Sel(d.Sels[i], v), u.Field(i).Type())
			}
		}
	case *types.Interface:
		if v.Op == "mk_Iface" {
			if it, ok := x.ifaceTypes()[v.Args[0]]; ok {
				x.escape(st, v.Args[1], it)
			}
		}
	}
}

func hasPtr(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	case *types.Struct:
		if isTime(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) materialise(st *State, ptr *Term) {
	c := st.cells[ptr]
	if c == nil {
		return
	}
	delete(st.cells, ptr)
	if structOf(c.T) != nil {
		x.escape(st, c.V, c.T)
		x.storeObj(st, "F:"+typeKey(c.T), c.T, ptr, c.V)
		return
	}
	if at, ok := c.T.Underlying().(*types.Array); ok {
		el := at.Elem()
		for i := int64(0); i < at.Len() && i < 32; i++ {
			if hasPtr(el) {
				x.escape(st, Select(c.V, Int(i)), el)
			}
		}
		st.setHeap(eKey(el), Store(st.elems(el), ptr, c.V))
		return
	}
	x.escape(st, c.V, c.T)
	k := "C:" + typeKey(c.T)
	h := st.heap(k, ArrSort("Int", sortOf(c.T)))
	st.setHeap(k, Store(h, ptr, c.V))
}

func (x *Exec) alloc(st *State) *Term {
	r := st.next
	st.next = Add(st.next, Int(1))
	return r
}

const maxLen = 1 << 40

func (x *Exec) asm(st *State, t *Term) {
	if t.Bound {
		return
	}
	st.assume(t)
	if x.sink != nil && x.sink != st {
		x.sink.assume(t)
	}
}

// wf: well-formedness facts of a value read from memory or received.
func (x *Exec) wf(st *State, v *Term, t types.Type, depth int) {
	t = types.Unalias(t)
	if isTime(t) || isLit(v) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		if _, ok := x.addrs[v]; ok {
			return
		}
		if _, ok := st.cells[v]; ok {
			return
		}
		x.asm(st, Le(Int(0), v))
		x.asm(st, Lt(v, st.next))
	case *types.Slice:
		x.wfSlice(st, v)
	case *types.Struct:
		if depth > 2 {
			return
		}
		d := datatypes[sortOf(t)]
		for i := 0; i < u.NumFields(); i++ {
			x.wf(st, Sel(d.Sels[i], v), u.Field(i).Type(), depth+1)
		}
	case *types.Interface:
		x.asm(st, Le(Int(0), Sel("i.tag", v)))
		x.asm(st, Lt(Sel("i.val", v), st.next))
		x.asm(st, Le(Int(0), Sel("i.val", v)))
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			x.asm(st, Le(Int(0), v))
		}
	}
}

func (x *Exec) wfSlice(st *State, v *Term) {
	x.asm(st, Le(Int(0), sRef(v)))
	x.asm(st, Lt(sRef(v), st.next))
	x.asm(st, Le(Int(0), sOff(v)))
	x.asm(st, Le(Int(0), sLen(v)))
	x.asm(st, Le(sLen(v), sCap(v)))
	x.asm(st, Le(sCap(v), Int(maxLen)))
	x.asm(st, Implies(Eq(sRef(v), Int(0)), Eq(sCap(v), Int(0))))
}

// view is the sequence of elements of a slice.
func (x *Exec) view(st *State, s *Term, elem types.Type) *Term {
	return SeqView(Select(st.elems(elem), sRef(s)), sOff(s), sLen(s))
}

// ---- interface tags ----
var ifaceTagOf = map[string]*Term{}
var ifaceTypeOf = map[*Term]types.Type{}

func ifaceTag(t types.Type) *Term {
	k := typeKey(t)
	if g, ok := ifaceTagOf[k]; ok {
		return g
	}
	g := Int(int64(len(ifaceTagOf) + 1))
	ifaceTagOf[k] = g
	ifaceTypeOf[g] = t
	return g
}

func (x *Exec) ifaceTypes() map[*Term]types.Type { return ifaceTypeOf }

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
