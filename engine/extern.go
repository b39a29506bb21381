package main

// Models of functions outside the repository.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) extern(fr *Frame, st *State, fn *ssa.Function, full string, args []Value, p token.Pos) []Outcome {
	if sp := x.sp.Funcs[full]; sp != nil {
		return x.contract(fr, st, sp, fn.Signature, args, p, fn)
	}
	x.externs["model of "+full] = true
	arg := func(i int) *Term { return x.term(args[i]) }
	switch full {
	case "math.Sqrt":
		return one1(st, F("rsqrt", arg(0)))
	case "math.Abs":
		return one1(st, Ite(Ge(arg(0), ToReal(Int(0))), arg(0), Neg(arg(0))))
	case "errors.New", "fmt.Errorf":
		r := x.alloc(st)
		return one1(st, Construct("Iface", Int(900), r))
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return one1(st, x.fresh("str", "Str"))
	case "time.Now":
		n := x.fresh("now", "Int")
		st.assume(Le(st.heap("$now", "Int"), n))
		st.setHeap("$now", n)
		return one1(st, n)
	case "(time.Time).After":
		return one1(st, Gt(arg(0), arg(1)))
	case "(time.Time).Before":
		return one1(st, Lt(arg(0), arg(1)))
	case "(time.Time).Add":
		return one1(st, Add(arg(0), arg(1)))
	case "(time.Time).IsZero":
		return one1(st, Eq(arg(0), Int(-1<<40)))
	case "sort.Ints":
		return x.sortInts(st, arg(0), p)
	}
	switch {
	case strings.HasPrefix(full, "fmt.Print"), strings.HasPrefix(full, "log.Print"):
		var vals []Value
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			vals = append(vals, x.fresh("r", sortOf(fn.Signature.Results().At(i).Type())))
		}
		return one1(st, vals...)
	}
	return x.extern2(fr, st, fn, full, args, p)
}

func (x *Exec) sortInts(st *State, s *Term, p token.Pos) []Outcome {
	E := st.elems(tInt)
	v := x.view(st, s, tInt)
	A := Select(E, sRef(s))
	arr := x.fresh("sorted", A.Sort)
	st.setHeap(eKey(tInt), Store(E, sRef(s), arr))
	w := x.view(st, s, tInt)
	st.assume(Perm(v, w))
	i, j := BVar("i", "Int"), BVar("j", "Int")
	st.assume(Forall([]*Term{i, j}, Implies(And(Le(Int(0), i), Le(i, j), Lt(j, sLen(s))), Le(SeqIdx(w, i), SeqIdx(w, j))), pat(SeqIdx(w, i), SeqIdx(w, j))))
	st.assume(Implies(Le(sLen(s), Int(1)), Eq(arr, A)))
	// the permutation, as an injection of positions
	pi := x.fresh("sortpi", ArrSort("Int", "Int"))
	n := sLen(s)
	at := func(i *Term) *Term { return App("select", "Int", pi, i) }
	in := func(i *Term) *Term { return And(Le(Int(0), i), Lt(i, n)) }
	k := BVar("k", "Int")
	st.assume(Forall([]*Term{k}, Implies(in(k), And(in(at(k)), Eq(SeqIdx(w, k), SeqIdx(v, at(k))))), pat(SeqIdx(w, k))))
	st.assume(Forall([]*Term{i, j}, Implies(And(in(i), in(j), Eq(at(i), at(j))), Eq(i, j)), pat(SeqIdx(w, i), SeqIdx(w, j))))
	return one1(st)
}

func (x *Exec) externIface(fr *Frame, st *State, key string, cc *ssa.CallCommon, recv *Term, args []Value, p token.Pos) []Outcome {
	x.fail(p, "interface method %s", key)
	return nil
}
