package main

// Joining the two sides of a simple branch while a loop is unrolled.

import "golang.org/x/tools/go/ssa"

// simpleArm: b does nothing but assignments and goes on to j.
func simpleArm(b, pred, j *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 || b.Preds[0] != pred || len(b.Succs) != 1 || b.Succs[0] != j {
		return false
	}
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Store, *ssa.DebugRef, *ssa.FieldAddr, *ssa.UnOp, *ssa.BinOp, *ssa.Jump, *ssa.Convert, *ssa.ChangeType:
		default:
			return false
		}
	}
	return true
}

// joinIf executes both sides of a simple branch and joins them; ok is false if
// that is not possible.
func (x *Exec) joinIf(fr *Frame, b *ssa.BasicBlock, c *Term, st *State) (outs []Outcome, ok bool) {
	unrolling := false
	for _, n := range fr.unroll {
		unrolling = unrolling || n > 0
	}
	if !unrolling {
		return nil, false
	}
	t, f := b.Succs[0], b.Succs[1]
	var j *ssa.BasicBlock
	tArm, fArm := true, true
	switch {
	case simpleArm(t, b, f):
		j, fArm = f, false
	case simpleArm(f, b, t):
		j, tArm = t, false
	case len(t.Succs) == 1 && simpleArm(t, b, t.Succs[0]) && simpleArm(f, b, t.Succs[0]):
		j = t.Succs[0]
	default:
		return nil, false
	}
	lp := x.loopInfo(fr.fn).headers[j]
	if lp != nil && (fr.unroll[j] == 0 || fr.cuts[j] != nil) {
		return nil, false
	}
	side := func(arm bool, blk *ssa.BasicBlock, cond *Term) (*Frame, *State, map[*ssa.Phi]Value) {
		g, s := fr.clone(), st.clone()
		s.assume(cond)
		if !arm {
			return g, s, x.phiVals(g, j, b)
		}
		for _, in := range blk.Instrs {
			switch in.(type) {
			case *ssa.Jump, *ssa.DebugRef:
			default:
				x.step(g, s, in)
			}
		}
		return g, s, x.phiVals(g, j, blk)
	}
	n := Not(c)
	_, s1, p1 := side(tArm, t, c)
	_, s2, p2 := side(fArm, f, n)
	if len(s1.wins) != len(s2.wins) || len(s1.cells) != len(s2.cells) || s1.pub != s2.pub || s1.next != s2.next {
		return nil, false
	}
	for k, v := range s1.cells {
		if s2.cells[k] != v {
			return nil, false
		}
	}
	phis := map[*ssa.Phi]Value{}
	for p, v := range p1 {
		w := p2[p]
		if v == w {
			phis[p] = v
			continue
		}
		a, ok1 := v.(*Term)
		d, ok2 := w.(*Term)
		if !ok1 || !ok2 {
			return nil, false
		}
		phis[p] = Ite(c, a, d)
	}
	for k, h1 := range s1.heaps {
		if h2 := s2.heaps[k]; h2 != h1 && h2 == nil {
			return nil, false
		}
	}
	for k, h2 := range s2.heaps {
		h1 := s1.heaps[k]
		if h1 == nil {
			return nil, false
		}
		if h1 != h2 {
			st.heaps[k] = joinHeap(c, h1, h2, st.heaps[k])
		} else {
			st.heaps[k] = h1
		}
	}
	had := map[*Term]bool{c: true, n: true}
	for _, t := range st.facts {
		had[t] = true
	}
	for _, t := range s1.facts {
		if !had[t] {
			st.assume(Implies(c, t))
		}
	}
	for _, t := range s2.facts {
		if !had[t] {
			st.assume(Implies(n, t))
		}
	}
	if lp != nil {
		return x.enterLoopWith(fr, lp, phis, st), true
	}
	x.setPhis(fr, phis)
	return x.instrs(fr, j, 0, st), true
}

// joinHeap: ite(c, a, b), pushed into a single update of the common heap.
func joinHeap(c, a, b, h *Term) *Term {
	if h != nil && a.Op == "store" && a.Args[0] == h && b == h {
		return Store(h, a.Args[1], Ite(c, a.Args[2], Select(h, a.Args[1])))
	}
	if h != nil && b.Op == "store" && b.Args[0] == h && a == h {
		return Store(h, b.Args[1], Ite(c, Select(h, b.Args[1]), b.Args[2]))
	}
	return Ite(c, a, b)
}

// forget joins the outcomes of a call without results: what they agree on is
// kept, everything else is forgotten.
func (x *Exec) forget(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	for _, o := range outs {
		if len(o.vals) != 0 || len(o.st.wins) != len(outs[0].st.wins) {
			return outs
		}
	}
	r := outs[0].st.clone()
	for k, v := range r.cells {
		for _, o := range outs[1:] {
			if o.st.cells[k] != v {
				return outs
			}
		}
	}
	sorts := map[string]string{}
	for _, o := range outs {
		for k, h := range o.st.heaps {
			sorts[k] = h.Sort
		}
	}
	for k, s := range sorts {
		h := r.heap(k, s)
		for _, o := range outs[1:] {
			if o.st.heap(k, s) != h {
				r.heaps[k] = x.fresh("joined", s)
				break
			}
		}
	}
	old := r.facts
	r.facts, r.has = nil, map[*Term]bool{}
	for _, t := range old {
		all := true
		for _, o := range outs[1:] {
			all = all && o.st.has[t]
		}
		if all {
			r.assume(t)
		}
	}
	n := x.fresh("next", "Int")
	for _, o := range outs {
		r.assume(Le(o.st.next, n))
		if o.st.pub != outs[0].st.pub {
			r.pub = n
		}
	}
	r.next = n
	return []Outcome{{r, nil}}
}
