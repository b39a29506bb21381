package main

// Hash-consed SMT terms with light simplification, and SMT-LIB printing.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Term struct {
	Op    string // SMT operator, or "var", "int", "real", "forall", "exists"
	Name  string // for var / literals
	Args  []*Term
	Sort  string
	ID    int
	Bound bool      // contains (or is) a bound variable
	Pats  [][]*Term // for quantifiers
	Vars  []*Term   // for quantifiers
}

type TermPool struct {
	tab  map[string]*Term
	next int
}

var pool = &TermPool{tab: map[string]*Term{}}

func mk(op, name, srt string, args []*Term, vars []*Term, pats [][]*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.ID)
	}
	if vars != nil {
		b.WriteString("#")
		for _, v := range vars {
			fmt.Fprintf(&b, ",%d", v.ID)
		}
		for _, p := range pats {
			b.WriteString(";")
			for _, t := range p {
				fmt.Fprintf(&b, ",%d", t.ID)
			}
		}
	}
	k := b.String()
	if t, ok := pool.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, Name: name, Sort: srt, Args: args, ID: pool.next, Vars: vars, Pats: pats}
	pool.next++
	for _, a := range args {
		if a.Bound {
			t.Bound = true
		}
	}
	if op == "bvar" {
		t.Bound = true
	}
	if vars != nil {
		// closed iff free bound vars subset of vars
		free := map[*Term]bool{}
		freeBound(t.Args[0], free, map[*Term]bool{})
		for _, v := range vars {
			delete(free, v)
		}
		t.Bound = len(free) > 0
	}
	pool.tab[k] = t
	return t
}

func freeBound(t *Term, out, seen map[*Term]bool) {
	if !t.Bound || seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "bvar" {
		out[t] = true
		return
	}
	if t.Vars != nil {
		inner := map[*Term]bool{}
		freeBound(t.Args[0], inner, map[*Term]bool{})
		for _, v := range t.Vars {
			delete(inner, v)
		}
		for v := range inner {
			out[v] = true
		}
		return
	}
	for _, a := range t.Args {
		freeBound(a, out, seen)
	}
}

func Var(name, srt string) *Term  { return mk("var", name, srt, nil, nil, nil) }
func BVar(name, srt string) *Term { return mk("bvar", name, srt, nil, nil, nil) }
func Int(n int64) *Term           { return mk("int", fmt.Sprint(n), "Int", nil, nil, nil) }
func BigInt(s string) *Term       { return mk("int", s, "Int", nil, nil, nil) }
func RealLit(r *big.Rat) *Term    { return mk("real", r.RatString(), "Real", nil, nil, nil) }

var True = mk("true", "", "Bool", nil, nil, nil)
var False = mk("false", "", "Bool", nil, nil, nil)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isInt() (*big.Int, bool) {
	if t.Op != "int" {
		return nil, false
	}
	n, ok := new(big.Int).SetString(t.Name, 10)
	return n, ok
}
func (t *Term) isReal() (*big.Rat, bool) {
	if t.Op != "real" {
		return nil, false
	}
	n, ok := new(big.Rat).SetString(t.Name)
	return n, ok
}

func App(op, srt string, args ...*Term) *Term { return mk(op, "", srt, args, nil, nil) }

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == True || seen[t] {
			continue
		}
		if t == False {
			return False
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0]] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return App("and", "Bool", out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == False || seen[t] {
			continue
		}
		if t == True {
			return True
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0]] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	// (a && c) || (!a && c) => c
	if len(out) == 2 {
		if r := mergeOr(out[0], out[1]); r != nil {
			return r
		}
	}
	return App("or", "Bool", out...)
}

func conj(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

func mergeOr(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	if len(ca) != len(cb) {
		return nil
	}
	sa := map[*Term]bool{}
	for _, x := range ca {
		sa[x] = true
	}
	var da, db *Term
	sb := map[*Term]bool{}
	for _, x := range cb {
		sb[x] = true
		if !sa[x] {
			if db != nil {
				return nil
			}
			db = x
		}
	}
	for _, x := range ca {
		if !sb[x] {
			if da != nil {
				return nil
			}
			da = x
		}
	}
	if da == nil || db == nil || Not(da) != db {
		return nil
	}
	var rest []*Term
	for _, x := range ca {
		if x != da {
			rest = append(rest, x)
		}
	}
	return And(rest...)
}

func Not(t *Term) *Term {
	switch t.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return t.Args[0]
	}
	return App("not", "Bool", t)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if b.Op == "=>" {
		return Implies(And(a, b.Args[0]), b.Args[1])
	}
	if a == b {
		return True
	}
	return App("=>", "Bool", a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.Sort == "Bool" {
		return And(Implies(c, a), Implies(Not(c), b))
	}
	return App("ite", a.Sort, c, a, b)
}

func isLit(t *Term) bool {
	return t.Op == "int" || t.Op == "real" || t == True || t == False
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if isLit(a) && isLit(b) {
		return False
	}
	if a.Sort == "Bool" {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if dt, ok := datatypes[a.Sort]; ok && a.Op == dt.Ctor && b.Op == dt.Ctor {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return App("=", "Bool", a, b)
}

// linear normal form for Int terms: sum of coef*atom + const
func linear(t *Term, k *big.Int, m map[*Term]*big.Int, c *big.Int) {
	switch t.Op {
	case "int":
		n, _ := t.isInt()
		c.Add(c, new(big.Int).Mul(n, k))
		return
	case "+":
		for _, a := range t.Args {
			linear(a, k, m, c)
		}
		return
	case "-":
		if len(t.Args) == 1 {
			linear(t.Args[0], new(big.Int).Neg(k), m, c)
			return
		}
		linear(t.Args[0], k, m, c)
		for _, a := range t.Args[1:] {
			linear(a, new(big.Int).Neg(k), m, c)
		}
		return
	case "*":
		if len(t.Args) == 2 {
			if n, ok := t.Args[0].isInt(); ok {
				linear(t.Args[1], new(big.Int).Mul(k, n), m, c)
				return
			}
			if n, ok := t.Args[1].isInt(); ok {
				linear(t.Args[0], new(big.Int).Mul(k, n), m, c)
				return
			}
		}
	}
	if m[t] == nil {
		m[t] = new(big.Int)
	}
	m[t].Add(m[t], k)
}

func fromLinear(m map[*Term]*big.Int, c *big.Int) *Term {
	var atoms []*Term
	for t, k := range m {
		if k.Sign() != 0 {
			atoms = append(atoms, t)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	var parts []*Term
	for _, t := range atoms {
		k := m[t]
		if k.IsInt64() && k.Int64() == 1 {
			parts = append(parts, t)
		} else {
			parts = append(parts, App("*", "Int", BigInt(k.String()), t))
		}
	}
	if c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, BigInt(c.String()))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return App("+", "Int", parts...)
}

func intLin(f func(m map[*Term]*big.Int, c *big.Int)) *Term {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	f(m, c)
	return fromLinear(m, c)
}

var one = big.NewInt(1)
var mone = big.NewInt(-1)

func Add(a, b *Term) *Term {
	if a.Sort == "Int" {
		return intLin(func(m map[*Term]*big.Int, c *big.Int) { linear(a, one, m, c); linear(b, one, m, c) })
	}
	x, ok1 := a.isReal()
	y, ok2 := b.isReal()
	if ok1 && ok2 {
		return RealLit(new(big.Rat).Add(x, y))
	}
	if ok1 && x.Sign() == 0 {
		return b
	}
	if ok2 && y.Sign() == 0 {
		return a
	}
	return App("+", a.Sort, a, b)
}

func Sub(a, b *Term) *Term {
	if a.Sort == "Int" {
		return intLin(func(m map[*Term]*big.Int, c *big.Int) { linear(a, one, m, c); linear(b, mone, m, c) })
	}
	x, ok1 := a.isReal()
	y, ok2 := b.isReal()
	if ok1 && ok2 {
		return RealLit(new(big.Rat).Sub(x, y))
	}
	if ok2 && y.Sign() == 0 {
		return a
	}
	if a == b {
		return RealLit(new(big.Rat))
	}
	return App("-", a.Sort, a, b)
}

func Neg(a *Term) *Term {
	if a.Sort == "Int" {
		return Sub(Int(0), a)
	}
	if x, ok := a.isReal(); ok {
		return RealLit(new(big.Rat).Neg(x))
	}
	return App("-", a.Sort, a)
}

// Mul multiplies; nonlinear real products go through rmul (see prelude).
func Mul(a, b *Term) *Term {
	if a.Sort == "Int" {
		x, ok1 := a.isInt()
		y, ok2 := b.isInt()
		if ok1 && ok2 {
			return BigInt(new(big.Int).Mul(x, y).String())
		}
		if ok1 || ok2 {
			return intLin(func(m map[*Term]*big.Int, c *big.Int) {
				if ok1 {
					linear(b, x, m, c)
				} else {
					linear(a, y, m, c)
				}
			})
		}
		return App("*", "Int", a, b)
	}
	x, ok1 := a.isReal()
	y, ok2 := b.isReal()
	if ok1 && ok2 {
		return RealLit(new(big.Rat).Mul(x, y))
	}
	if ok1 || ok2 {
		return App("*", "Real", a, b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return App("rmul", "Real", a, b)
}

func RDiv(a, b *Term) *Term {
	y, ok2 := b.isReal()
	if ok2 && y.Sign() != 0 {
		if x, ok := a.isReal(); ok {
			return RealLit(new(big.Rat).Quo(x, y))
		}
		return App("/", "Real", a, b)
	}
	return App("rdiv", "Real", a, b)
}

func ToReal(a *Term) *Term {
	if n, ok := a.isInt(); ok {
		return RealLit(new(big.Rat).SetInt(n))
	}
	return App("to_real", "Real", a)
}

func cmpTerm(op string, a, b *Term) *Term {
	if a.Sort == "Int" {
		d := Sub(b, a)
		if n, ok := d.isInt(); ok {
			if op == "<" {
				return Bool(n.Sign() > 0)
			}
			return Bool(n.Sign() >= 0)
		}
	} else {
		x, ok1 := a.isReal()
		y, ok2 := b.isReal()
		if ok1 && ok2 {
			if op == "<" {
				return Bool(x.Cmp(y) < 0)
			}
			return Bool(x.Cmp(y) <= 0)
		}
		if a == b {
			return Bool(op == "<=")
		}
	}
	return App(op, "Bool", a, b)
}
func Lt(a, b *Term) *Term { return cmpTerm("<", a, b) }
func Le(a, b *Term) *Term { return cmpTerm("<=", a, b) }
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

func arrElem(srt string) string {
	if !strings.HasPrefix(srt, "(Array ") {
		panic("not an array sort: " + srt)
	}
	_, e := splitArr(srt)
	return e
}
func splitArr(srt string) (string, string) {
	s := strings.TrimSuffix(strings.TrimPrefix(srt, "(Array "), ")")
	// first sort token
	d := 0
	for i, c := range s {
		if c == '(' {
			d++
		}
		if c == ')' {
			d--
		}
		if c == ' ' && d == 0 {
			return s[:i], s[i+1:]
		}
	}
	panic(srt)
}
func ArrSort(k, e string) string { return "(Array " + k + " " + e + ")" }

func distinctInts(a, b *Term) bool {
	if a.Sort != "Int" {
		return isLit(a) && isLit(b) && a != b
	}
	n, ok := Sub(a, b).isInt()
	return ok && n.Sign() != 0
}

func Select(a, i *Term) *Term {
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if distinctInts(a.Args[1], i) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	return App("select", arrElem(a.Sort), a, i)
}

func Store(a, i, v *Term) *Term {
	if arrElem(a.Sort) != v.Sort {
		panic(fmt.Sprintf("store sort mismatch: %s into %s", v.Sort, a.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return App("store", a.Sort, a, i, v)
}

func ConstArr(srt string, v *Term) *Term { return App("constarr", srt, v) }

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	return mk("forall", "", "Bool", []*Term{body}, vars, goodPats(pats))
}

var patBad = map[*Term]bool{}

// badInPat: the solvers do not take propositional operators in patterns.
func badInPat(t *Term) bool {
	if r, ok := patBad[t]; ok {
		return r
	}
	r := false
	switch t.Op {
	case "ite", "and", "or", "not", "=>", "forall", "exists":
		r = t.Bound || t.Op != "forall" && t.Op != "exists"
	}
	for _, a := range t.Args {
		r = r || badInPat(a)
	}
	patBad[t] = r
	return r
}

// goodPats leaves out patterns that would be rejected.
func goodPats(pats [][]*Term) [][]*Term {
	var out [][]*Term
	for _, p := range pats {
		ok := true
		for _, t := range p {
			// ground parts are named constants in the query
			ok = ok && !(t.Op == "select" && t.Args[0].Op == "store" && badInPat(t.Args[0]))
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	return mk("exists", "", "Bool", []*Term{body}, vars, pats)
}

// Subst replaces bound variables (by identity).
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			if t.Vars != nil {
				var ps [][]*Term
				for _, p := range t.Pats {
					var q []*Term
					for _, x := range p {
						q = append(q, f(x))
					}
					ps = append(ps, q)
				}
				r = mk(t.Op, "", t.Sort, args, t.Vars, ps)
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	}
	return mk(t.Op, t.Name, t.Sort, args, nil, nil)
}

// ---- datatypes ----

type Datatype struct {
	Sort, Ctor string
	Sels       []string
	Sorts      []string
}

var datatypes = map[string]*Datatype{}
var dtOrder []string
var selOf = map[string]struct {
	dt *Datatype
	i  int
}{}

func DefDatatype(srt string, sels, sorts []string) *Datatype {
	if d, ok := datatypes[srt]; ok {
		return d
	}
	d := &Datatype{Sort: srt, Ctor: "mk_" + srt, Sels: sels, Sorts: sorts}
	datatypes[srt] = d
	dtOrder = append(dtOrder, srt)
	for i, s := range sels {
		selOf[s] = struct {
			dt *Datatype
			i  int
		}{d, i}
	}
	return d
}

func Construct(srt string, args ...*Term) *Term {
	d := datatypes[srt]
	// mk(sel0 x, sel1 x, ...) = x
	var base *Term
	ok := len(args) > 0
	for i, a := range args {
		if a.Sort != d.Sorts[i] {
			panic(fmt.Sprintf("construct %s arg %d: %s want %s", srt, i, a.Sort, d.Sorts[i]))
		}
		if a.Op != d.Sels[i] || (base != nil && a.Args[0] != base) {
			ok = false
		} else {
			base = a.Args[0]
		}
	}
	if ok {
		return base
	}
	return App(d.Ctor, srt, args...)
}

func Sel(name string, t *Term) *Term {
	s := selOf[name]
	if s.dt == nil {
		panic("no selector " + name)
	}
	if t.Sort != s.dt.Sort {
		panic(fmt.Sprintf("selector %s on %s", name, t.Sort))
	}
	if t.Op == s.dt.Ctor {
		return t.Args[s.i]
	}
	return App(name, s.dt.Sorts[s.i], t)
}

var _ = DefDatatype("Slice", []string{"s.ref", "s.off", "s.len", "s.cap"}, []string{"Int", "Int", "Int", "Int"})

// ---- printing ----

func (t *Term) String() string {
	var b strings.Builder
	printTerm(&b, t, nil)
	return b.String()
}

func symName(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!$@&<>=+-*/?%^~", c)) {
			return "|" + s + "|"
		}
	}
	return s
}

func printTerm(b *strings.Builder, t *Term, names map[*Term]string) {
	if n, ok := names[t]; ok {
		b.WriteString(n)
		return
	}
	switch t.Op {
	case "var", "bvar":
		b.WriteString(symName(t.Name))
	case "int":
		if strings.HasPrefix(t.Name, "-") {
			b.WriteString("(- " + t.Name[1:] + ")")
		} else {
			b.WriteString(t.Name)
		}
	case "real":
		r, _ := t.isReal()
		neg := r.Sign() < 0
		r = new(big.Rat).Abs(r)
		s := r.Num().String() + ".0"
		if !r.IsInt() {
			s = "(/ " + s + " " + r.Denom().String() + ".0)"
		}
		if neg {
			s = "(- " + s + ")"
		}
		b.WriteString(s)
	case "true", "false":
		b.WriteString(t.Op)
	case "constarr":
		b.WriteString("((as const " + t.Sort + ") ")
		printTerm(b, t.Args[0], names)
		b.WriteString(")")
	case "forall", "exists":
		b.WriteString("(" + t.Op + " (")
		for i, v := range t.Vars {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString("(" + symName(v.Name) + " " + v.Sort + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		printTerm(b, t.Args[0], names)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteString(" ")
					}
					printTerm(b, x, names)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	default:
		if len(t.Args) == 0 {
			b.WriteString(symName(t.Op))
			return
		}
		b.WriteString("(" + symName(t.Op))
		for _, a := range t.Args {
			b.WriteString(" ")
			printTerm(b, a, names)
		}
		b.WriteString(")")
	}
}
