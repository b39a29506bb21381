package main

// Maps and channels.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func mapKeys(t *types.Map) (hk, hs, vk, vs string) {
	k, v := sortOf(t.Key()), sortOf(t.Elem())
	n := typeKey(t)
	return "MH:" + n, ArrSort("Int", ArrSort(k, "Bool")), "MV:" + n, ArrSort("Int", ArrSort(k, v))
}

func (x *Exec) makeMap(st *State, t *types.Map) *Term {
	r := x.alloc(st)
	hk, hs, _, _ := mapKeys(t)
	st.setHeap(hk, Store(st.heap(hk, hs), r, ConstArr(arrElem(hs), False)))
	st.setHeap("ML", Store(st.heap("ML", ArrSort("Int", "Int")), r, Int(0)))
	return r
}

func (x *Exec) mapHas(st *State, m *Term, t *types.Map, k *Term) *Term {
	hk, hs, _, _ := mapKeys(t)
	return And(Not(Eq(m, Int(0))), Select(Select(st.heap(hk, hs), m), k))
}

// mapVal: the value seen by m[k] (zero when absent).
func (x *Exec) mapVal(st *State, m *Term, t *types.Map, k *Term) *Term {
	_, _, vk, vs := mapKeys(t)
	v := Select(Select(st.heap(vk, vs), m), k)
	return Ite(x.mapHas(st, m, t, k), v, zeroOf(t.Elem()))
}

func (x *Exec) mapUpdate(fr *Frame, st *State, in *ssa.MapUpdate) {
	m := x.tv(fr, in.Map)
	t := in.Map.Type().Underlying().(*types.Map)
	x.guardMap(fr, st, m, t, in.Pos(), true)
	x.oblige(st, "safe", "nil-map", in.Pos(), Not(Eq(m, Int(0))), []string{"C24"})
	k, v := x.tv(fr, in.Key), x.tv(fr, in.Value)
	x.escape(st, v, t.Elem())
	x.mapOwner(st, t, k, v, in.Pos())
	hk, hs, vk, vs := mapKeys(t)
	H, V := st.heap(hk, hs), st.heap(vk, vs)
	L := st.heap("ML", ArrSort("Int", "Int"))
	had := Select(Select(H, m), k)
	// a map's size counts its keys
	st.assume(Le(Ite(had, Int(1), Int(0)), Select(L, m)))
	st.setHeap("ML", Store(L, m, Add(Select(L, m), Ite(had, Int(0), Int(1)))))
	st.setHeap(hk, Store(H, m, Store(Select(H, m), k, True)))
	st.setHeap(vk, Store(V, m, Store(Select(V, m), k, v)))
}

func (x *Exec) mapDelete(fr *Frame, st *State, m *Term, t *types.Map, k *Term, p token.Pos) {
	x.guardMap(fr, st, m, t, p, true)
	hk, hs, _, _ := mapKeys(t)
	H := st.heap(hk, hs)
	L := st.heap("ML", ArrSort("Int", "Int"))
	had := Select(Select(H, m), k)
	st.setHeap("ML", Store(L, m, Sub(Select(L, m), Ite(had, Int(1), Int(0)))))
	st.setHeap(hk, Store(H, m, Store(Select(H, m), k, False)))
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) {
	t, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		x.fail(in.Pos(), "string index")
	}
	m, k := x.tv(fr, in.X), x.tv(fr, in.Index)
	x.guardMap(fr, st, m, t, in.Pos(), false)
	has := x.mapHas(st, m, t, k)
	_, _, vk, vs := mapKeys(t)
	raw := Select(Select(st.heap(vk, vs), m), k)
	x.wf(st, raw, t.Elem(), 0)
	v := Ite(has, raw, zeroOf(t.Elem()))
	if in.CommaOk {
		fr.env[in] = []Value{v, has}
		return
	}
	fr.env[in] = v
}

func (x *Exec) rangeMap(fr *Frame, st *State, in *ssa.Range) {
	t, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		x.fail(in.Pos(), "range over %s", in.X.Type())
	}
	m := x.tv(fr, in.X)
	x.guardMap(fr, st, m, t, in.Pos(), false)
	x.iterSeq++
	key := "$visited:" + fr.path + ":" + in.Name()
	srt := ArrSort(sortOf(t.Key()), "Bool")
	st.setHeap(key, ConstArr(srt, False))
	hk, hs, _, _ := mapKeys(t)
	fr.env[in] = &MapIter{Map: m, T: t, Ghost: key, Has0: Select(st.heap(hk, hs), m)}
	fr.names["itermap"] = Binding{V: m, T: in.X.Type()}
	fr.names["visited"] = Binding{V: &AddrV{Kind: "global", Key: key, T: &ArrT{t.Key(), tBool}}, T: &ArrT{t.Key(), tBool}}
}

// ArrT is a ghost total map type.
type ArrT struct{ K, V types.Type }

func (a *ArrT) Underlying() types.Type { return a }
func (a *ArrT) String() string         { return "arr" }

func (x *Exec) next(fr *Frame, st *State, in *ssa.Next) []Outcome {
	it, ok := x.value(fr, in.Iter).(*MapIter)
	if !ok || in.IsString {
		x.fail(in.Pos(), "range over string")
	}
	ks := sortOf(it.T.Key())
	vis := st.heap(it.Ghost, ArrSort(ks, "Bool"))
	// some key is left
	s1 := st.clone()
	k := x.fresh("key", ks)
	x.wf(s1, k, it.T.Key(), 0)
	s1.assume(x.mapHas(s1, it.Map, it.T, k))
	s1.assume(Not(Select(vis, k)))
	_, _, vk, vs := mapKeys(it.T)
	v := Select(Select(s1.heap(vk, vs), it.Map), k)
	x.wf(s1, v, it.T.Elem(), 0)
	s1.setHeap(it.Ghost, Store(vis, k, True))
	// no key is left; keys added meanwhile may have been skipped
	b := BVar("k", ks)
	hk, hs, _, _ := mapKeys(it.T)
	H := Select(st.heap(hk, hs), it.Map)
	st.assume(Forall([]*Term{b}, Implies(And(x.mapHas(st, it.Map, it.T, b), App("select", "Bool", it.Has0, b)), App("select", "Bool", vis, b)), pat(App("select", "Bool", vis, b)), pat(App("select", "Bool", H, b))))
	return []Outcome{{s1, []Value{True, k, v}}, {st, []Value{False, x.fresh("key", ks), zeroOf(it.T.Elem())}}}
}

func Ite2(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	return Ite(c, a, b)
}

func (x *Exec) ghostFieldStore(st *State, key string, ref, v *Term) {
	if x.root == nil || x.inPkg("centroid") || key != "F:centroid.Centroid.DataPoints" {
		return
	}
	dp := x.typ("common.DataPoint")
	st.setHeap("MD", Store(x.mdHeap(st), ref, x.view(st, v, dp)))
}

func (x *Exec) modelCands(fr *Frame, hs, entry *State, m *mods, id string) []*Cand {
	if b, ok := fr.names["visited"]; ok {
		it, _ := fr.names["itermap"]
		if a, ok := b.V.(*AddrV); ok {
			if mt, ok := it.T.Underlying().(*types.Map); ok {
				return append(x.modelCands2(fr, hs, entry, m, id), &Cand{Key: id + "|auto:visited", Label: "auto:visited", Eval: func(names map[string]Binding, st *State, iter *Term) *Term {
					k := BVar("k", sortOf(mt.Key()))
					vis := st.heap(a.Key, ArrSort(k.Sort, "Bool"))
					v := App("select", "Bool", vis, k)
					return Forall([]*Term{k}, Implies(v, x.mapHas(st, x.term(it.V), mt, k)), pat(v))
				}})
			}
		}
	}
	return x.modelCands2(fr, hs, entry, m, id)
}

func (x *Exec) modelCands2(fr *Frame, hs, entry *State, m *mods, id string) []*Cand {
	if !x.inPkg("centroid") {
		return nil
	}
	key := "F:centroid.Centroid.DataPoints"
	var out []*Cand
	if m.imprecise[key] {
		return nil
	}
	var refs []*Term
	for r := range m.heaps[key] {
		refs = append(refs, r)
	}
	for i, r := range refs {
		r := r
		_ = i
		out = append(out, &Cand{Key: id + "|auto:owned:" + r.String(), Label: "auto:owned", Eval: func(names map[string]Binding, st *State, iter *Term) *Term {
			h := st.heap(key, ArrSort("Int", "Slice"))
			h0 := x.entry.heap(key, ArrSort("Int", "Slice"))
			s := Select(h, r)
			return Or(Eq(sRef(s), sRef(Select(h0, r))), Ge(sRef(s), x.entry.next), Eq(sCap(s), Int(0)))
		}})
	}
	return out
}
