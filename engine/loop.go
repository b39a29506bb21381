package main

// Loops: detection, havoc, invariants (templates and automatic candidates).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Ord    int
}

type LoopInfo struct {
	headers map[*ssa.BasicBlock]*Loop
}

func (x *Exec) loopInfo(fn *ssa.Function) *LoopInfo {
	if li, ok := x.loops[fn]; ok {
		return li
	}
	li := &LoopInfo{headers: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := li.headers[s]
				if lp == nil {
					lp = &Loop{Header: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = lp
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if lp.Blocks[n] {
						continue
					}
					lp.Blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range li.headers {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		li.headers[h].Ord = i
	}
	x.loops[fn] = li
	return li
}

type Cand struct {
	Key   string
	Label string
	Props []string
	Req   bool // written in a contract (as opposed to automatic)
	Eval  func(names map[string]Binding, st *State, iter *Term) *Term
}

type loopCtx struct {
	cut   *Cut
	dry   bool
	ind   map[string]*indVar
	entry *State
	phis  []*ssa.Phi
}

type indVar struct {
	init *Term
	step int64
}

// headCond evaluates the header up to its branch, if it has only pure code.
func (x *Exec) headCond(fr *Frame, h *ssa.BasicBlock, st *State) (c *Term) {
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.If, *ssa.Field:
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || (b.Name() != "len" && b.Name() != "cap") {
				return nil
			}
		default:
			return nil
		}
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	// Only counting loops are unrolled; a flag may be known after each
	// iteration without the loop having a fixed number of iterations.
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || !isIntType(bo.X.Type()) {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				c = nil
				return
			}
			panic(r)
		}
	}()
	x.dry++
	defer func() { x.dry-- }()
	f := fr.clone()
	s := st.clone()
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			return x.tv(f, in.Cond)
		case *ssa.Call:
			f.env[in] = x.builtinLen(s, x.value(f, in.Call.Args[0]), in.Call.Args[0].Type(), in.Call.Value.Name())
		default:
			x.step(f, s, in)
		}
	}
	return nil
}

func (x *Exec) enterLoop(fr *Frame, lp *Loop, pred *ssa.BasicBlock, st *State) []Outcome {
	h := lp.Header
	inside := pred != nil && lp.Blocks[pred]
	if inside && fr.cuts[h] != nil {
		x.backEdge(fr, lp, pred, st)
		return nil
	}
	if !inside {
		delete(fr.cuts, h)
		fr.unroll[h] = 0
	}
	vals := map[*ssa.Phi]Value{}
	if pred != nil {
		vals = x.phiVals(fr, h, pred)
	}
	return x.enterLoopWith(fr, lp, vals, st)
}

func (x *Exec) enterLoopWith(fr *Frame, lp *Loop, vals map[*ssa.Phi]Value, st *State) []Outcome {
	h := lp.Header
	if fr.unroll[h] < 40 {
		f := fr.clone()
		x.setPhis(f, vals)
		if c := x.headCond(f, h, st); c == True || c == False {
			fr.unroll[h]++
			x.setPhis(fr, vals)
			return x.instrs(fr, h, 0, st)
		}
	}
	return x.cutLoop(fr, lp, vals, st)
}

type mods struct {
	heaps     map[string]map[*Term]bool // refs written; nil map entry for imprecise
	cells     map[*Term]bool
	next      bool
	pub       bool
	imprecise map[string]bool
}

func (m *mods) size() int {
	n := len(m.heaps) + len(m.cells) + len(m.imprecise)
	for _, r := range m.heaps {
		n += len(r)
	}
	if m.next {
		n++
	}
	if m.pub {
		n++
	}
	return n
}

// maxFresh: does the term mention a variable created after mark?
func (x *Exec) newerThan(t *Term, mark int, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	if t.Op == "var" {
		if i := strings.LastIndex(t.Name, "!"); i >= 0 {
			n := 0
			if _, err := fmt.Sscanf(t.Name[i+1:], "%d", &n); err == nil && n > mark && x.isFreshName(t.Name) {
				r = true
			}
		}
	}
	for _, a := range t.Args {
		if x.newerThan(a, mark, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

func (x *Exec) isFreshName(n string) bool {
	return !strings.HasPrefix(n, "fn!") && !strings.HasPrefix(n, "addr!") && !strings.HasPrefix(n, "str!")
}

func (x *Exec) havocVal(st *State, name string, t types.Type, srt string) *Term {
	v := x.fresh(name, srt)
	if t != nil {
		x.wf(st, v, t, 0)
	}
	return v
}

var cellTypesByHeap = map[string]types.Type{}

func (x *Exec) cutLoop(fr *Frame, lp *Loop, vals map[*ssa.Phi]Value, st0 *State) []Outcome {
	h := lp.Header
	id := fr.path + "#" + fmt.Sprint(lp.Ord)
	m := &mods{heaps: map[string]map[*Term]bool{}, cells: map[*Term]bool{}, imprecise: map[string]bool{}}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entry := st0
	ind := map[string]*indVar{}
	for round := 0; round < 12; round++ {
		if m.pub {
			x.publish(entry)
		}
		mark := x.nfresh
		hf, hs, cut := x.loopHead(fr, lp, phis, vals, entry, m, nil, id)
		lc := &loopCtx{dry: true}
		hf.lctx = addLctx(hf.lctx, h, lc)
		lc.cut = cut
		hf.stops = append(append([]*Loop{}, hf.stops...), lp)
		headVals := map[*ssa.Phi]Value{}
		for _, p := range phis {
			headVals[p] = hf.env[p]
		}
		headSnap := hs.clone()
		x.dry++
		x.instrs(hf, h, len(phis), hs)
		x.dry--
		// cells that the body turns into heap objects are such objects before it
		var mat []*Term
		for ptr := range headSnap.cells {
			for _, b := range cut.Back {
				if b.cells[ptr] == nil && entry.cells[ptr] != nil {
					mat = append(mat, ptr)
					break
				}
			}
		}
		if len(mat) > 0 {
			sort.Slice(mat, func(i, j int) bool { return mat[i].ID < mat[j].ID })
			entry = entry.clone()
			for _, ptr := range mat {
				x.materialise(entry, ptr)
				delete(m.cells, ptr)
			}
			continue
		}
		before := m.size()
		memo := map[*Term]bool{}
		for _, b := range cut.Back {
			x.diffState(headSnap, b, m, mark, memo)
		}
		if m.size() == before {
			// stable: look for induction variables
			for _, p := range phis {
				hv, ok := hf.env[p].(*Term)
				_ = hv
				iv, ok2 := vals[p].(*Term)
				h0, ok3 := headVals[p].(*Term)
				if !ok || !ok2 || !ok3 || h0.Sort != "Int" || len(cut.BackVals) == 0 {
					continue
				}
				if s, ok := constStep(h0, p, cut.BackVals); ok {
					ind["phi:"+p.Name()] = &indVar{iv, s}
				}
			}
			for c := range m.cells {
				hc := headSnap.cells[c]
				ec := entry.cells[c]
				if hc == nil || ec == nil || hc.V.Sort != "Int" || isRefType(hc.T) {
					continue
				}
				step, ok := int64(0), len(cut.Back) > 0
				for i, b := range cut.Back {
					bc := b.cells[c]
					if bc == nil {
						ok = false
						break
					}
					n, isN := Sub(bc.V, hc.V).isInt()
					if !isN || (i > 0 && n.Int64() != step) {
						ok = false
						break
					}
					step = n.Int64()
				}
				if ok {
					ind["cell:"+fmt.Sprint(c.ID)] = &indVar{ec.V, step}
				}
			}
			break
		}
	}
	for k := range ind {
		if x.dropped[id+"|ind|"+k] {
			delete(ind, k)
		}
	}
	if m.pub {
		x.publish(entry)
	}
	hf, hs, cut := x.loopHead(fr, lp, phis, vals, entry, m, ind, id)
	lc := &loopCtx{cut: cut, ind: ind, entry: entry, phis: phis}
	cut.Publish = m.pub
	hf.lctx = addLctx(hf.lctx, h, lc)
	cut.Cands = x.candidates(fr, hf, lp, phis, vals, entry, hs, m, id, cut)
	// initialisation
	f0 := fr.clone()
	x.setPhis(f0, vals)
	x.loopNames(f0, lp, Int(0))
	live := cut.Cands[:0]
	for _, c := range cut.Cands {
		if x.dropped[c.Key] {
			continue
		}
		g := c.Eval(f0.names, entry, Int(0))
		if g == nil {
			continue
		}
		x.candObl(entry, c, g, "init")
		live = append(live, c)
	}
	cut.Cands = live
	for _, c := range live {
		g := c.Eval(hf.names, hs, cut.Iter)
		if g != nil {
			hs.assume(g)
		}
	}
	return x.instrs(hf, h, len(phis), hs)
}

func constStep(h0 *Term, p *ssa.Phi, backs []map[*ssa.Phi]Value) (int64, bool) {
	var step int64
	for i, b := range backs {
		v, ok := b[p].(*Term)
		if !ok {
			return 0, false
		}
		n, ok := Sub(v, h0).isInt()
		if !ok || (i > 0 && n.Int64() != step) {
			return 0, false
		}
		step = n.Int64()
	}
	return step, true
}

func (x *Exec) candObl(st *State, c *Cand, g *Term, what string) {
	if x.dry > 0 || g == True || st.has[g] {
		return
	}
	x.obs = append(x.obs, &Obligation{Kind: "inv", Label: c.Label + "/" + what, Func: x.rootName,
		Facts: append([]*Term{}, st.facts...), Goal: g, Cand: c.Key, Req: c.Req, Props: c.Props})
}

func addLctx(m map[*ssa.BasicBlock]*loopCtx, h *ssa.BasicBlock, lc *loopCtx) map[*ssa.BasicBlock]*loopCtx {
	n := map[*ssa.BasicBlock]*loopCtx{}
	for k, v := range m {
		n[k] = v
	}
	n[h] = lc
	return n
}

func (x *Exec) diffState(head, b *State, m *mods, mark int, memo map[*Term]bool) {
	for k, t := range b.heaps {
		h := head.heap(k, heapSorts[k])
		if t == h {
			continue
		}
		if m.heaps[k] == nil {
			m.heaps[k] = map[*Term]bool{}
		}
		// common suffix of the two store chains
		inHead := map[*Term]bool{}
		for c := h; ; c = c.Args[0] {
			inHead[c] = true
			if c.Op != "store" {
				break
			}
		}
		c := t
		note := func(r *Term) {
			if x.newerThan(r, mark, memo) {
				m.imprecise[k] = true
			} else {
				m.heaps[k][r] = true
			}
		}
		for c.Op == "store" && !inHead[c] {
			note(c.Args[1])
			c = c.Args[0]
		}
		if !inHead[c] {
			m.imprecise[k] = true
			continue
		}
		for d := h; d != c; d = d.Args[0] {
			note(d.Args[1])
		}
	}
	for ptr, c := range head.cells {
		bc := b.cells[ptr]
		if bc == nil || bc.V != c.V {
			m.cells[ptr] = true
		}
	}
	if b.next != head.next {
		m.next = true
	}
	if b.pub != head.pub {
		m.pub = true
	}
}

// loopHead builds the frame and state of an arbitrary iteration.
func (x *Exec) loopHead(fr *Frame, lp *Loop, phis []*ssa.Phi, vals map[*ssa.Phi]Value, entry *State, m *mods, ind map[string]*indVar, id string) (*Frame, *State, *Cut) {
	hf := fr.clone()
	hs := entry.clone()
	cut := &Cut{Header: lp.Header, ID: id, Iter: x.fresh("iter", "Int")}
	hf.cuts[lp.Header] = cut
	hs.assume(Le(Int(0), cut.Iter))
	if m.next {
		n := x.fresh("next", "Int")
		hs.assume(Le(entry.next, n))
		hs.next = n
		if m.heaps["$held"] != nil || m.imprecise["$held"] {
			hs.wins = append(hs.wins, [2]*Term{entry.next, n})
		}
	}
	if m.pub {
		hs.pub = hs.next
	}
	nv := map[*ssa.Phi]Value{}
	for _, p := range phis {
		if iv := ind["phi:"+p.Name()]; iv != nil {
			nv[p] = Add(iv.init, Mul(Int(iv.step), cut.Iter))
			continue
		}
		if _, isSig := p.Type().Underlying().(*types.Signature); isSig {
			nv[p] = vals[p]
			continue
		}
		nv[p] = x.havocVal(hs, "v_"+p.Comment, p.Type(), sortOf(p.Type()))
	}
	x.setPhis(hf, nv)
	x.loopNames(hf, lp, cut.Iter)
	var keys []string
	for k := range m.heaps {
		keys = append(keys, k)
	}
	for k := range m.imprecise {
		if m.heaps[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		h := entry.heap(k, heapSorts[k])
		if !strings.HasPrefix(heapSorts[k], "(Array Int") || m.imprecise[k] || strings.HasPrefix(k, "$visited") || k == "$now" || strings.HasPrefix(k, "G") {
			if k == "G_ev" { // the trace only grows
				hs.setHeap(k, SeqCat(h, x.fresh(k, h.Sort)))
				continue
			}
			hs.setHeap(k, x.fresh(k, h.Sort))
			if k == "$now" {
				hs.assume(Le(h, hs.heaps[k]))
			}
			continue
		}
		var refs []*Term
		for r := range m.heaps[k] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].ID < refs[j].ID })
		n := h
		for _, r := range refs {
			v := x.fresh(k, arrElem(h.Sort))
			if t := fieldHeapTypes[k]; t != nil {
				x.wf(hs, v, t, 0)
			}
			n = Store(n, r, v)
		}
		hs.setHeap(k, n)
	}
	var cs []*Term
	for c := range m.cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	for _, c := range cs {
		cv := entry.cells[c]
		if cv == nil {
			continue
		}
		if iv := ind["cell:"+fmt.Sprint(c.ID)]; iv != nil {
			hs.cells[c] = &CellV{Add(iv.init, Mul(Int(iv.step), cut.Iter)), cv.T}
			continue
		}
		hs.cells[c] = &CellV{x.havocVal(hs, "cell", cv.T, sortOf(cv.T)), cv.T}
	}
	return hf, hs, cut
}

// loopsAround counts the loops around the current block of a frame.
func (x *Exec) loopsAround(fr *Frame) int {
	n := 0
	if fr.cur != nil {
		for _, lp := range x.loopInfo(fr.fn).headers {
			if lp.Blocks[fr.cur] {
				n++
			}
		}
	}
	return n
}

// loopNames binds iter_N (iterations done by the N-th enclosing loop) and
// ranged_N (the slice it runs over, if it runs over one).
func (x *Exec) loopNames(fr *Frame, lp *Loop, iter *Term) {
	n := fr.base
	for _, o := range x.loopInfo(fr.fn).headers {
		if o != lp && o.Blocks[lp.Header] {
			n++
		}
	}
	fr.names[fmt.Sprintf("iter_%d", n)] = Binding{V: iter, T: tInt}
	if v := x.rangedSlice(lp); v != nil {
		if val, ok := fr.env[v]; ok {
			fr.names[fmt.Sprintf("ranged_%d", n)] = Binding{V: val, T: v.Type()}
		}
	}
}

func (x *Exec) rangedSlice(lp *Loop) ssa.Value {
	phi := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok {
			if _, isC := b.Y.(*ssa.Const); isC {
				v = b.X
			}
		}
		p, ok := v.(*ssa.Phi)
		return ok && p.Block() == lp.Header
	}
	for _, b := range lp.Header.Parent().Blocks {
		if !lp.Blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !phi(ia.Index) {
				continue
			}
			if _, isSl := ia.X.Type().Underlying().(*types.Slice); !isSl {
				continue
			}
			if d, ok := ia.X.(ssa.Instruction); ok && lp.Blocks[d.Block()] {
				continue
			}
			return ia.X
		}
	}
	return nil
}

// fieldHeapTypes: Go types of heap cells, for well-formedness facts.
var fieldHeapTypes = map[string]types.Type{}

func (x *Exec) backEdge(fr *Frame, lp *Loop, pred *ssa.BasicBlock, st *State) {
	h := lp.Header
	cut := fr.cuts[h]
	lc := fr.lctx[h]
	vals := x.phiVals(fr, h, pred)
	if lc.dry {
		cut.Back = append(cut.Back, st)
		cut.BackVals = append(cut.BackVals, vals)
		return
	}
	if x.dry > 0 {
		return
	}
	x.paths++
	if cut.Publish {
		x.publish(st)
	}
	nit := Add(cut.Iter, Int(1))
	for _, p := range lc.phis {
		if iv := lc.ind["phi:"+p.Name()]; iv != nil {
			g := Eq(x.term(vals[p]), Add(iv.init, Mul(Int(iv.step), nit)))
			x.candObl(st, &Cand{Key: cut.ID + "|ind|phi:" + p.Name(), Label: "induction-variable"}, g, "step")
		}
	}
	for k, iv := range lc.ind {
		if strings.HasPrefix(k, "cell:") {
			for c, cv := range st.cells {
				if "cell:"+fmt.Sprint(c.ID) == k {
					g := Eq(cv.V, Add(iv.init, Mul(Int(iv.step), nit)))
					x.candObl(st, &Cand{Key: cut.ID + "|ind|" + k, Label: "induction-variable"}, g, "step")
				}
			}
		}
	}
	f := fr.clone()
	x.setPhis(f, vals)
	x.loopNames(f, lp, nit)
	for _, c := range cut.Cands {
		if x.dropped[c.Key] {
			continue
		}
		g := c.Eval(f.names, st, nit)
		if g == nil {
			g = False
		}
		x.candObl(st, c, g, "step")
	}
}

// candidates collects invariant candidates for a loop.
func (x *Exec) candidates(fr, hf *Frame, lp *Loop, phis []*ssa.Phi, vals map[*ssa.Phi]Value, entry, hs *State, m *mods, id string, cut *Cut) []*Cand {
	var out []*Cand
	add := func(label string, eval func(names map[string]Binding, st *State, iter *Term) *Term) {
		out = append(out, &Cand{Key: id + "|" + label, Label: label, Eval: eval})
	}
	next0 := x.entry.next
	// header condition as a bound
	if c := x.headCond(hf, lp.Header, hs); c != nil {
		neg := c.Op == "not"
		if neg {
			c = c.Args[0]
		}
		if c.Op == "<" || c.Op == "<=" {
			op := c.Op
			add("auto:bound", func(names map[string]Binding, st *State, iter *Term) *Term {
				f := hf.clone()
				for _, p := range phis {
					if b, ok := names["\x00"+p.Name()]; ok {
						f.env[p] = b.V
					}
				}
				c := x.headCond(f, lp.Header, st)
				if c == nil {
					return nil
				}
				if c == True {
					return True
				}
				if c == False {
					return nil
				}
				if c.Op == "not" {
					c = c.Args[0]
				}
				if c.Op != "<" && c.Op != "<=" {
					return nil
				}
				_ = op
				if c.Op == "<" {
					return Le(c.Args[0], c.Args[1])
				}
				return Le(c.Args[0], Add(c.Args[1], Int(1)))
			})
		}
	}
	// slices: freshness and separation
	var sl []*ssa.Phi
	for _, p := range phis {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			sl = append(sl, p)
		}
	}
	get := func(names map[string]Binding, p *ssa.Phi) *Term {
		if b, ok := names["\x00"+p.Name()]; ok {
			return x.term(b.V)
		}
		return nil
	}
	for _, p := range sl {
		p := p
		add("auto:fresh:"+p.Name(), func(names map[string]Binding, st *State, iter *Term) *Term {
			t := get(names, p)
			if t == nil {
				return nil
			}
			return Or(Ge(sRef(t), next0), Eq(sCap(t), Int(0)))
		})
		for _, q := range sl {
			if q == p {
				break
			}
			q := q
			add("auto:sep:"+p.Name()+q.Name(), func(names map[string]Binding, st *State, iter *Term) *Term {
				a, b := get(names, p), get(names, q)
				if a == nil || b == nil {
					return nil
				}
				return Or(Not(Eq(sRef(a), sRef(b))), Eq(sCap(a), Int(0)), Eq(sCap(b), Int(0)))
			})
		}
	}
	// slice cells (captured variables)
	for c := range m.cells {
		cv := entry.cells[c]
		if cv == nil || cv.V.Sort != "Slice" {
			continue
		}
		c := c
		add("auto:freshcell:"+fmt.Sprint(c.ID), func(names map[string]Binding, st *State, iter *Term) *Term {
			v := st.cells[c]
			if v == nil {
				return nil
			}
			return Or(Ge(sRef(v.V), next0), Eq(sCap(v.V), Int(0)))
		})
	}
	// frames of imprecisely modified heaps
	for _, k := range sortedKeys(m.imprecise) {
		k := k
		if !strings.HasPrefix(heapSorts[k], "(Array Int") || strings.HasPrefix(k, "$visited") || strings.HasPrefix(k, "G") {
			continue
		}
		h0 := x.entry.heap(k, heapSorts[k])
		he := entry.heap(k, heapSorts[k])
		excl := x.modRefs(k)
		var inv []*Term
		for r := range m.heaps[k] {
			inv = append(inv, r)
		}
		sort.Slice(inv, func(i, j int) bool { return inv[i].ID < inv[j].ID })
		sets := x.modSets(k)
		frame := func(base, bound *Term, ex, sets []*Term) func(names map[string]Binding, st *State, iter *Term) *Term {
			return func(names map[string]Binding, st *State, iter *Term) *Term {
				cur := st.heap(k, heapSorts[k])
				return frameTerm(cur, base, bound, ex, sets)
			}
		}
		add("auto:frame:"+k, frame(h0, next0, excl, sets))
		add("auto:loopframe:"+k, frame(he, entry.next, inv, nil))
		if len(inv) > 0 {
			add("auto:loopframe0:"+k, frame(he, entry.next, nil, nil))
		}
	}
	// channels: every iteration sends (or receives) once
	for _, k := range sortedHeaps(m) {
		srt := heapSorts[k]
		if !strings.HasPrefix(k, "$sent:") || m.imprecise[k] {
			continue
		}
		var refs []*Term
		for r := range m.heaps[k] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].ID < refs[j].ID })
		k := k
		for _, r := range refs {
			r := r
			n0 := SeqLen(Select(entry.heap(k, srt), r))
			add(fmt.Sprint("auto:chan:", k, r.ID), func(names map[string]Binding, st *State, iter *Term) *Term {
				return Eq(SeqLen(Select(st.heap(k, srt), r)), Add(n0, iter))
			})
			add(fmt.Sprint("auto:unchan:", k, r.ID), func(names map[string]Binding, st *State, iter *Term) *Term {
				return Eq(SeqLen(Select(st.heap(k, srt), r)), Sub(n0, iter))
			})
		}
	}
	// locks: an iteration releases what it takes
	for _, k := range []string{"$held", "$owner"} {
		srt, ok := heapSorts[k]
		if !ok || (m.heaps[k] == nil && !m.imprecise[k]) {
			continue
		}
		k, h0 := k, entry.heap(k, srt)
		if k == "$held" {
			add("auto:locks", func(names map[string]Binding, st *State, iter *Term) *Term {
				return Eq(st.heap(k, srt), h0)
			})
		}
	}
	if srt, ok := heapSorts["$shr"]; ok && (m.heaps["$shr"] != nil || m.imprecise["$shr"]) {
		h0 := x.shr(entry)
		add("auto:shared", func(names map[string]Binding, st *State, iter *Term) *Term {
			h := st.heap("$shr", srt)
			return And(Le(h0, h), Le(h, st.next))
		})
	}
	// a map only gains keys
	for _, k := range sortedHeaps(m) {
		if !strings.HasPrefix(k, "MH:") || m.imprecise[k] {
			continue
		}
		k := k
		srt := heapSorts[k]
		var refs []*Term
		for r := range m.heaps[k] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].ID < refs[j].ID })
		for i, r := range refs {
			r := r
			had := Select(entry.heap(k, srt), r)
			add("auto:keys:"+k+"#"+fmt.Sprint(i), func(names map[string]Binding, st *State, iter *Term) *Term {
				ks, _ := splitArr(had.Sort)
				q := BVar("k", ks)
				a, b := Select(had, q), Select(Select(st.heap(k, srt), r), q)
				return Forall([]*Term{q}, Implies(a, b), []*Term{b})
			})
		}
	}
	// separation from the point arrays of modified groups
	const dpKey = "F:centroid.Centroid.DataPoints"
	if x.inPkg("centroid") {
		var refs []*Term
		rset := map[*Term]bool{}
		for r := range m.heaps[dpKey] {
			rset[r] = true
		}
		for _, r := range x.modRefs(dpKey) {
			rset[r] = true
		}
		if r := x.selfGroup(); r != nil {
			rset[r] = true
		}
		for r := range rset {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].ID < refs[j].ID })
		dps := ArrSort("Int", "Slice")
		sepc := func(label string, get func(names map[string]Binding, st *State) *Term) {
			for _, r := range refs {
				r := r
				add("auto:sepdp:"+label+r.String(), func(names map[string]Binding, st *State, iter *Term) *Term {
					a := get(names, st)
					if a == nil {
						return nil
					}
					b := Select(st.heap(dpKey, dps), r)
					return Or(Not(Eq(sRef(a), sRef(b))), Eq(sCap(a), Int(0)))
				})
			}
		}
		isDPs := func(t types.Type) bool {
			el := elemType(t)
			return el != nil && typeKey(el) == "common.DataPoint"
		}
		for _, p := range sl {
			p := p
			if isDPs(p.Type()) {
				sepc(p.Name(), func(names map[string]Binding, st *State) *Term { return get(names, p) })
			}
		}
		for _, c := range sortedCells(entry) {
			c, cv := c, entry.cells[c]
			if cv.T != nil && isDPs(cv.T) {
				sepc(fmt.Sprint("cell", c.ID), func(names map[string]Binding, st *State) *Term {
					if v := st.cells[c]; v != nil {
						return v.V
					}
					return nil
				})
			}
		}
		seenT := map[*Term]bool{}
		for f := fr; f != nil; f = f.parent {
			for v, val := range f.env {
				t, ok := val.(*Term)
				if !ok || seenT[t] || t.Sort != "Slice" || !isDPs(v.Type()) {
					continue
				}
				seenT[t] = true
			}
		}
		var ts []*Term
		for t := range seenT {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
		for _, t := range ts {
			t := t
			sepc("v"+fmt.Sprint(t.ID), func(names map[string]Binding, st *State) *Term { return t })
		}
	}
	// slices that exist before the loop and are not changed by it
	for _, k := range sortedKeys(m.imprecise) {
		if !strings.HasPrefix(k, "E:") || k == floatKey || !strings.HasPrefix(heapSorts[k], "(Array Int") {
			continue
		}
		seenT := map[*Term]bool{}
		for f := fr; f != nil; f = f.parent {
			for v, val := range f.env {
				t, ok := val.(*Term)
				if !ok || t.Sort != "Slice" {
					continue
				}
				if el := elemType(v.Type()); el == nil || eKey(el) != k {
					continue
				}
				seenT[t] = true
			}
		}
		if k == "E:common.DataPoint" && x.inPkg("centroid") && m.heaps["F:centroid.Centroid.DataPoints"] == nil {
			for _, r := range x.modRefs("F:centroid.Centroid.DataPoints") {
				seenT[Select(entry.heap("F:centroid.Centroid.DataPoints", ArrSort("Int", "Slice")), r)] = true
			}
		}
		var ts []*Term
		for t := range seenT {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
		k := k
		for _, t := range ts {
			t := t
			for _, p := range sl {
				p := p
				if eKey(elemType(p.Type())) != k || x.term(vals[p]) == t {
					continue
				}
				add("auto:sepv:"+p.Name()+fmt.Sprint(t.ID), func(names map[string]Binding, st *State, iter *Term) *Term {
					a := get(names, p)
					if a == nil {
						return nil
					}
					return Or(Not(Eq(sRef(a), sRef(t))), Eq(sCap(a), Int(0)), Eq(sCap(t), Int(0)))
				})
			}
			add("auto:same:"+fmt.Sprint(t.ID), func(names map[string]Binding, st *State, iter *Term) *Term {
				return Or(Eq(sCap(t), Int(0)), Eq(Select(st.heap(k, heapSorts[k]), sRef(t)), Select(entry.heap(k, heapSorts[k]), sRef(t))))
			})
		}
	}
	// owned slices of model fields
	out = append(out, x.modelCands(fr, hs, entry, m, id)...)
	f00 := fr.clone()
	x.setPhis(f00, vals)
	entryNames := f00.names
	// contract templates
	for _, sc := range x.invClauses(fr) {
		c := sc
		root := false
		if x.rootSpec != nil {
			for _, rc := range x.rootSpec.Inv {
				root = root || rc == c
			}
		}
		out = append(out, &Cand{Key: id + "|" + c.Label + fmt.Sprint(c.Line), Label: c.Label, Props: c.Props, Req: true,
			Eval: func(names map[string]Binding, st *State, iter *Term) *Term {
				ctx := &Ctx{x: x, st: st, cur: st, old: x.entry, oldNames: x.entryCtx.names, loop: entry, loopNames: x.scopeNames(fr, entryNames, root), names: x.scopeNames(fr, names, root), iter: iter, spec: x.rootSpec}
				return ctx.tryBool(c.Expr)
			}})
	}
	return out
}

func frameTerm(cur, base, bound *Term, excl, sets []*Term) *Term {
	if cur == base {
		return True
	}
	r := BVar("r", "Int")
	cond := []*Term{Lt(r, bound)}
	for _, e := range excl {
		cond = append(cond, Not(Eq(r, e)))
	}
	for _, q := range sets {
		cond = append(cond, Eq(F("occ", r, q), Int(0)))
	}
	sel := App("select", arrElem(cur.Sort), cur, r)
	selb := App("select", arrElem(base.Sort), base, r)
	return Forall([]*Term{r}, Implies(And(cond...), Eq(sel, selb)), pat(sel))
}

func sortedHeaps(m *mods) []string {
	var out []string
	for k := range m.heaps {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// invClauses: invariant templates that apply to loops of this frame: those of
// the verified function, and those of the innermost inlined function that has
// any.
func (x *Exec) invClauses(fr *Frame) []*Clause {
	var out []*Clause
	seen := map[string]bool{}
	addSpec := func(s *FuncSpec) bool {
		if s == nil || len(s.Inv) == 0 {
			return false
		}
		if seen[s.Name] {
			return true
		}
		seen[s.Name] = true
		for _, c := range s.Inv {
			if c.active(x.prop) {
				out = append(out, c)
			}
		}
		return true
	}
	addSpec(x.rootSpec)
	for f := fr; f != nil; f = f.parent {
		found := false
		for _, fn := range []*ssa.Function{f.fn, f.genOf} {
			for fn != nil {
				if addSpec(x.sp.Funcs[FuncName(fn)]) {
					found = true
				}
				fn = fn.Parent()
			}
		}
		if found {
			break
		}
	}
	return out
}

// scopeNames: names visible in a frame: own names over those of the callers.
func (x *Exec) scopeNames(fr *Frame, own map[string]Binding, root bool) map[string]Binding {
	out := map[string]Binding{}
	var chain []*Frame
	for f := fr; f != nil; f = f.parent {
		chain = append(chain, f)
	}
	for i := len(chain) - 1; i >= 0; i-- {
		for k, v := range chain[i].names {
			out[k] = v
		}
	}
	for k, v := range own {
		out[k] = v
	}
	// contract parameter names of the verified function take precedence in its
	// own invariants
	if x.rootSpec != nil {
		for k, v := range x.entryCtx.names {
			if _, ok := out[k]; !ok || root && len(chain) > 1 {
				out[k] = v
			}
		}
	}
	return out
}

func sortedCells(st *State) []*Term {
	var out []*Term
	for c := range st.cells {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
