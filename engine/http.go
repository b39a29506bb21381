package main

// Models of the HTTP and JSON functions that core/api uses. A JSON document
// is represented by the values under its keys: decoding gives every field of
// the target the value under the field's key, encoding gives every key the
// value of its field.

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

func (x *Exec) httpVocab() {
	dp := x.typ("common.DataPoint")
	if _, ok := ghostTab["G_jok"]; ok {
		return
	}
	bytes := types.NewSlice(types.Typ[types.Byte])
	for n, t := range map[string]types.Type{"G_jok": tBool, "G_jns": tString, "G_jacc": tBool, "G_jdrain": tBool, "G_jn": tInt, "G_jvec": tFloatSlice,
		"G_jdp": dp, "G_jout": &SeqType{dp}, "G_found": &SeqType{dp}, "G_read": bytes, "G_json": bytes, "G_wrote": bytes,
		"G_writes": tInt, "G_status": tInt, "G_put": tBool, "G_puts": tInt, "G_gets": tInt} {
		ghostTab[n] = t
	}
}

// jsonField: the index of the field that holds the value under a key.
func jsonField(s *types.Struct, key string) int {
	for i := 0; i < s.NumFields(); i++ {
		tag, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
		if tag == "" {
			tag = s.Field(i).Name()
		}
		if tag == key && s.Field(i).Exported() {
			return i
		}
	}
	return -1
}

// jsonAt: the value under a key of the document that v stands for.
func (x *Exec) jsonAt(v *Term, t types.Type, key string, want types.Type) *Term {
	if s := structOf(t); s != nil {
		if i := jsonField(s, key); i >= 0 && sortOf(s.Field(i).Type()) == sortOf(want) {
			return Sel(datatypes[sortOf(t)].Sels[i], v)
		}
	}
	return x.fresh("json", sortOf(want))
}

var dpKeys = map[string]string{"Vec": "vec", "Payload": "payload", "Expires": "expires", "ExpireEnabled": "expireEnabled"}

// jsonPoint: the data point in the document that v stands for.
func (x *Exec) jsonPoint(v *Term, t types.Type) *Term {
	dp := x.typ("common.DataPoint")
	s := structOf(dp)
	var args []*Term
	for i := 0; i < s.NumFields(); i++ {
		args = append(args, x.jsonAt(v, t, dpKeys[s.Field(i).Name()], s.Field(i).Type()))
	}
	return Construct(sortOf(dp), args...)
}

func (x *Exec) jsonUnmarshal(st *State, args []Value, p token.Pos) []Outcome {
	data, target := x.term(args[0]), x.term(args[1])
	if target.Op != "mk_Iface" {
		x.fail(p, "json target of unknown type")
	}
	pt, ok := ifaceTypeOf[target.Args[0]].Underlying().(*types.Pointer)
	if !ok || structOf(pt.Elem()) == nil {
		x.fail(p, "json target is not a pointer to a struct")
	}
	T := pt.Elem()
	s := structOf(T)
	x.escape(st, target, types.NewInterfaceType(nil, nil))
	old := st.next
	n := x.fresh("next", "Int")
	st.assume(Le(old, n))
	st.next = n
	v := x.fresh("decoded", sortOf(T))
	x.wf(st, v, T, 0)
	x.freshFrom(st, v, T, old)
	x.store(st, x.addr(st, target.Args[1], T), v, p)
	st.pub = st.next
	s2 := st.clone()
	ghost := func(n string, v *Term) {
		if v.Sort != sortOf(ghostTab[n]) {
			v = x.fresh("json", sortOf(ghostTab[n]))
		}
		st.setHeap(n, v)
	}
	// only the request's own text stands for the request
	of := func(key string, t types.Type) *Term {
		return Ite(Eq(data, st.heap("G_read", sortOf(ghostTab["G_read"]))), x.jsonAt(v, T, key, t), x.fresh("json", sortOf(t)))
	}
	ghost("G_jok", True)
	s2.setHeap("G_jok", False)
	ghost("G_jns", of("namespace", tString))
	ghost("G_jacc", of("accurate", tBool))
	ghost("G_jdrain", of("drain", tBool))
	ghost("G_jn", of("n", tInt))
	ghost("G_jvec", of("queryVec", tFloatSlice))
	if i := jsonField(s, "dp"); i >= 0 {
		ghost("G_jdp", x.jsonPoint(Sel(datatypes[sortOf(T)].Sels[i], v), s.Field(i).Type()))
	}
	return []Outcome{{st, []Value{nilIface()}}, {s2, []Value{errTerm(x, s2, 904)}}}
}

func (x *Exec) jsonMarshal(st *State, args []Value, p token.Pos) []Outcome {
	arg := x.term(args[0])
	if arg.Op != "mk_Iface" {
		x.fail(p, "json value of unknown type")
	}
	t := ifaceTypeOf[arg.Args[0]]
	v := arg.Args[1]
	if bv, ok := x.boxes[v]; ok {
		v = bv
	}
	dp := x.typ("common.DataPoint")
	out := x.fresh("json", SeqSort(sortOf(dp)))
	if sl, ok := t.Underlying().(*types.Slice); ok && structOf(sl.Elem()) != nil {
		w := x.view(st, v, sl.Elem())
		i := BVar("i", "Int")
		st.assume(Eq(SeqLen(out), SeqLen(w)))
		st.assume(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, SeqLen(w))), Eq(SeqIdx(out, i), x.jsonPoint(SeqIdx(w, i), sl.Elem()))), pat(SeqIdx(out, i))))
	}
	bytes := ghostTab["G_json"]
	old := st.next
	n := x.fresh("next", "Int")
	st.assume(Le(old, n))
	st.next = n
	b := x.fresh("bytes", sortOf(bytes))
	x.wf(st, b, bytes, 0)
	st.assume(And(Ge(sRef(b), old), Gt(sLen(b), Int(0)))) // no document is empty
	st.setHeap("G_jout", out)
	st.setHeap("G_json", b)
	return one1(st, b, nilIface())
}

func (x *Exec) readAll(st *State) []Outcome {
	bytes := ghostTab["G_read"]
	old := st.next
	n := x.fresh("next", "Int")
	st.assume(Le(old, n))
	st.next = n
	b := x.fresh("bytes", sortOf(bytes))
	x.wf(st, b, bytes, 0)
	x.freshFrom(st, b, bytes, old)
	st.setHeap("G_read", b)
	return one1(st, b, x.fresh("err", "Iface"))
}
