package main

import (
	"fmt"
	"go/types"
	"strings"
)

// SeqType is the ghost type of mathematical sequences.
type SeqType struct{ Elem types.Type }

func (s *SeqType) Underlying() types.Type { return s }
func (s *SeqType) String() string         { return "seq[" + s.Elem.String() + "]" }

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tFloat = types.Typ[types.Float64]
var tString = types.Typ[types.String]

func qual(p *types.Package) string { return p.Name() }

var unaliased = map[types.Type]types.Type{}

// deepUnalias replaces aliases inside unnamed types, too.
func deepUnalias(t types.Type) types.Type {
	if r, ok := unaliased[t]; ok {
		return r
	}
	o := t
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			t = types.NewPointer(e)
		}
	case *types.Slice:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			t = types.NewSlice(e)
		}
	case *types.Array:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			t = types.NewArray(e, u.Len())
		}
	case *types.Chan:
		if e := deepUnalias(u.Elem()); e != u.Elem() {
			t = types.NewChan(u.Dir(), e)
		}
	case *types.Map:
		k, e := deepUnalias(u.Key()), deepUnalias(u.Elem())
		if k != u.Key() || e != u.Elem() {
			t = types.NewMap(k, e)
		}
	case *types.Signature:
		tup := func(tp *types.Tuple) (*types.Tuple, bool) {
			ch := false
			var vs []*types.Var
			for i := 0; i < tp.Len(); i++ {
				e := deepUnalias(tp.At(i).Type())
				if e != tp.At(i).Type() {
					ch = true
				}
				vs = append(vs, types.NewVar(0, nil, "", e))
			}
			return types.NewTuple(vs...), ch
		}
		ps, c1 := tup(u.Params())
		rs, c2 := tup(u.Results())
		if u.Recv() == nil && u.TypeParams() == nil && (c1 || c2) {
			t = types.NewSignatureType(nil, nil, nil, ps, rs, u.Variadic())
		}
	}
	unaliased[o] = t
	return t
}

func typeKey(t types.Type) string {
	s := types.TypeString(deepUnalias(t), qual)
	return strings.NewReplacer(" ", "_", "{", "<", "}", ">", "(", "<", ")", ">", ";", ",", "\"", "'", "|", "!", "\\", "!").Replace(s)
}

// isTime: types that are one opaque value to the verifier.
func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if ok && n.Obj().Pkg() != nil && opaquePkgs[n.Obj().Pkg().Path()] {
		_, isStruct := n.Underlying().(*types.Struct)
		return isStruct
	}
	return isTimeT(t)
}

var opaquePkgs = map[string]bool{"sync": true, "net/http": true, "log": true, "net": true, "os": true}

func isTimeT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == pkg && n.Obj().Name() == name
}

// sortOf maps Go types to SMT sorts. Integers are mathematical integers,
// floats are reals, strings are an uninterpreted sort.
func sortOf(t types.Type) string {
	t = types.Unalias(t)
	if isTime(t) {
		return "Int"
	}
	switch u := t.(type) {
	case *SeqType:
		return SeqSort(sortOf(u.Elem))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Info()&types.IsString != 0:
			return "Str"
		}
		return "Int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Interface:
		return "Iface"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return ArrSort("Int", sortOf(u.Elem()))
	case *types.Struct:
		name := "S_" + structName(t)
		if _, ok := datatypes[name]; !ok {
			var sels, sorts []string
			for i := 0; i < u.NumFields(); i++ {
				sels = append(sels, name+"."+u.Field(i).Name())
				sorts = append(sorts, sortOf(u.Field(i).Type()))
			}
			if len(sels) == 0 {
				sels, sorts = []string{name + ".!"}, []string{"Int"}
			}
			DefDatatype(name, sels, sorts)
		}
		return name
	case *types.Tuple:
		panic("tuple sort")
	}
	panic(fmt.Sprintf("sortOf %T %s", t, t))
}

var structNames = map[string]string{}

func structName(t types.Type) string {
	k := typeKey(t)
	if n, ok := t.(*types.Named); ok {
		nm := n.Obj().Name()
		if n.Obj().Pkg() != nil {
			nm = n.Obj().Pkg().Name() + "_" + nm
		}
		return nm
	}
	if n, ok := structNames[k]; ok {
		return n
	}
	n := fmt.Sprintf("anon%d", len(structNames))
	structNames[k] = n
	return n
}

func structOf(t types.Type) *types.Struct {
	if isTime(t) {
		return nil
	}
	s, _ := types.Unalias(t).Underlying().(*types.Struct)
	return s
}

func fieldSel(t types.Type, i int) string {
	s := sortOf(t)
	return datatypes[s].Sels[i]
}

func zeroSlice() *Term { return Construct("Slice", Int(0), Int(0), Int(0), Int(0)) }
func nilIface() *Term  { return Construct("Iface", Int(0), Int(0)) }

var strLits = map[string]*Term{}
var strLitList []*Term

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := Var(fmt.Sprintf("str!%d", len(strLits)), "Str")
	strLits[s] = t
	strLitList = append(strLitList, t)
	return t
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	if isTimeT(t) {
		return Int(-1 << 40)
	}
	if isTime(t) {
		return Int(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case "Bool":
			return False
		case "Real":
			return ToReal(Int(0))
		case "Str":
			return StrLit("")
		}
		return Int(0)
	case *types.Slice:
		return zeroSlice()
	case *types.Interface:
		return nilIface()
	case *types.Struct:
		srt := sortOf(t)
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zeroOf(u.Field(i).Type()))
		}
		if len(args) == 0 {
			args = []*Term{Int(0)}
		}
		return Construct(srt, args...)
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	}
	return Int(0)
}

// Slice accessors
func sRef(s *Term) *Term { return Sel("s.ref", s) }
func sOff(s *Term) *Term { return Sel("s.off", s) }
func sLen(s *Term) *Term { return Sel("s.len", s) }
func sCap(s *Term) *Term { return Sel("s.cap", s) }
func mkSlice(ref, off, ln, cp *Term) *Term {
	return Construct("Slice", ref, off, ln, cp)
}

func elemType(t types.Type) types.Type {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	case *SeqType:
		return u.Elem
	}
	return nil
}

// isRefType: values of the type are heap references.
func isRefType(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}
