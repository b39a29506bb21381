package main

// Contract files: parsing.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Clause struct {
	Kind  string // requires, ensures, inv, let
	Props []string
	Label string
	Expr  ast.Expr
	Src   string
	Name  string // let
	File  string
	Line  int
}

type FuncSpec struct {
	Name     string // short name as FuncName, or iface:... / functype:...
	Params   []string
	Results  []string
	Req      []*Clause
	Ens      []*Clause
	Inv      []*Clause
	Lets     []*Clause
	Mods     []*Clause
	Relies   []*Clause // assumed about the callee's environment at call sites
	Sets     []*Clause // ghost outputs
	Guards   []*Guard  // conditions at calls made by this function
	Top      bool      // an entry point: nobody calls it, so it has no frame
	OneDim   bool      // assumes one dimension per namespace in the network
	Network  bool      // makes network calls
	Roles    map[string]string
	Inline   bool     // invariants only: the body is executed at every call
	Assumed  bool     // contract assumed, never verified (declared as an assumption)
	Pure     []string // result symbols: the function value behaves like these
	Join     bool     // the outcomes of an inlined call are joined
	Getter   bool     // no effect at all: it neither allocates nor reads vector contents
	InlineIn []string // packages that execute the body instead
	Safe     []string // properties for which the function is a root
}

// Guard: what has to hold where the function (or a function inlined into it)
// calls the callee; Params name the arguments.
type Guard struct {
	Callee string
	Params []string
	C      *Clause
}

type Macro struct {
	Name   string
	Params []string
	Body   ast.Expr
}

type Specs struct {
	Funcs  map[string]*FuncSpec
	Macros map[string]*Macro

	Volatile map[string]bool // fields that other goroutines write
}

func (c *Clause) active(prop string) bool {
	if len(c.Props) == 0 {
		return true
	}
	return propActive(c.Props, prop)
}

// usedBy[p]: other properties whose clauses the proof of p also needs
var usedBy = map[string][]string{}

func propActive(props []string, prop string) bool {
	if hasStr(props, prop) {
		return true
	}
	for _, u := range usedBy[prop] {
		if hasStr(props, u) {
			return true
		}
	}
	return false
}

func (c *Clause) tagged(prop string) bool {
	return hasStr(c.Props, prop)
}

func LoadSpecs(dir string) (*Specs, error) {
	sp := &Specs{Funcs: map[string]*FuncSpec{}, Macros: map[string]*Macro{}, Volatile: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.load(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, strings.Fields(x)[0])
		}
	}
	return out
}

func (sp *Specs) load(file string) error {
	raw, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	lines := strings.Split(string(raw), "\n")
	var cur *FuncSpec
	pkg := ""
	for ln := 0; ln < len(lines); ln++ {
		start := ln + 1
		s := lines[ln]
		for strings.HasSuffix(strings.TrimRight(s, " \t"), "\\") && ln+1 < len(lines) {
			s = strings.TrimSuffix(strings.TrimRight(s, " \t"), "\\") + " " + strings.TrimSpace(lines[ln+1])
			ln++
		}
		if i := strings.Index(s, "//"); i >= 0 {
			s = s[:i]
		}
		s = strings.TrimSpace(s)
		if s == "" || strings.HasPrefix(s, "#") {
			continue
		}
		bad := func(f string, a ...interface{}) error {
			return fmt.Errorf("%s:%d: %s", file, start, fmt.Sprintf(f, a...))
		}
		kw, rest := s, ""
		if i := strings.IndexAny(s, " \t"); i >= 0 {
			kw, rest = s[:i], strings.TrimSpace(s[i:])
		}
		switch kw {
		case "package":
			pkg = rest
		case "uses": // uses P Q...: clauses tagged Q count for property P too
			f := strings.Fields(rest)
			usedBy[f[0]] = append(usedBy[f[0]], f[1:]...)
		case "func", "extern":
			// func NAME(params) (results) [inline|assumed]
			// NAME may start with "(*T)."
			body := rest
			name := ""
			if strings.HasPrefix(body, "(") {
				i := strings.Index(body, ")")
				name = body[:i+1]
				body = body[i+1:]
			}
			i := strings.Index(body, "(")
			if i < 0 {
				return bad("func needs parameters")
			}
			name += body[:i]
			body = body[i+1:]
			i = strings.Index(body, ")")
			cur = &FuncSpec{Params: splitNames(body[:i]), Roles: map[string]string{}}
			body = strings.TrimSpace(body[i+1:])
			if strings.HasPrefix(body, "(") {
				i = strings.Index(body, ")")
				cur.Results = splitNames(body[1:i])
				body = strings.TrimSpace(body[i+1:])
			}
			for _, fl := range strings.Fields(body) {
				switch fl {
				case "inline":
					cur.Inline = true
				case "assumed":
					cur.Assumed = true
				default:
					return bad("unknown flag %s", fl)
				}
			}
			if kw == "func" {
				cur.Name = pkg + "." + name
			} else {
				cur.Name = name
				cur.Assumed = true
			}
			sp.Funcs[cur.Name] = cur
		case "define":
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			k := strings.Index(rest, "=")
			if i < 0 || j < i || k < j {
				return bad("define NAME(params) = expr")
			}
			e, err := parser.ParseExpr(rest[k+1:])
			if err != nil {
				return bad("%v", err)
			}
			sp.Macros[strings.TrimSpace(rest[:i])] = &Macro{strings.TrimSpace(rest[:i]), splitNames(rest[i+1 : j]), e}
		case "volatile": // another goroutine may write the field at any time
			sp.Volatile[rest] = true
		case "root":
			cur.Safe = append(cur.Safe, strings.Fields(strings.ReplaceAll(strings.Trim(rest, "[]"), ",", " "))...)
		case "inlinein":
			cur.InlineIn = append(cur.InlineIn, strings.Fields(rest)...)
		case "getter":
			cur.Getter = true
		case "top":
			cur.Top = true
		case "onedim":
			cur.OneDim = true
		case "join":
			cur.Join = true
		case "network":
			cur.Network = true
		case "pure":
			cur.Pure = strings.Fields(rest)
		case "role":
			f := strings.Fields(rest)
			cur.Roles[f[0]] = f[1]
		case "guard": // guard CALLEE(params) [props] label: expr
			j := strings.Index(rest, ") ")
			if j < 0 {
				return bad("guard")
			}
			i := strings.LastIndex(rest[:j], "(")
			g := &Guard{Callee: rest[:i], Params: splitNames(rest[i+1 : j])}
			rest = strings.TrimSpace(rest[j+1:])
			c := &Clause{Kind: kw, File: filepath.Base(file), Line: start, Label: fmt.Sprintf("guard%d", start)}
			if strings.HasPrefix(rest, "[") {
				k := strings.Index(rest, "]")
				c.Props = strings.Fields(strings.ReplaceAll(rest[1:k], ",", " "))
				rest = strings.TrimSpace(rest[k+1:])
			}
			if k := strings.Index(rest, ":"); k > 0 && isLabel(rest[:k]) {
				c.Label = rest[:k]
				rest = strings.TrimSpace(rest[k+1:])
			}
			e, err := parser.ParseExpr(rest)
			if err != nil {
				return bad("%v in %q", err, rest)
			}
			c.Expr, c.Src = e, rest
			g.C = c
			cur.Guards = append(cur.Guards, g)
		case "requires", "ensures", "inv", "let", "modifies", "relies", "sets":
			if cur == nil {
				return bad("clause outside func")
			}
			c := &Clause{Kind: kw, File: filepath.Base(file), Line: start}
			if strings.HasPrefix(rest, "[") {
				i := strings.Index(rest, "]")
				c.Props = strings.Fields(strings.ReplaceAll(rest[1:i], ",", " "))
				rest = strings.TrimSpace(rest[i+1:])
			}
			if i := strings.Index(rest, ":"); i > 0 && isLabel(rest[:i]) && !strings.HasPrefix(rest[i:], ":=") {
				c.Label = rest[:i]
				rest = strings.TrimSpace(rest[i+1:])
			}
			if kw == "let" || kw == "sets" {
				i := strings.Index(rest, "=")
				c.Name = strings.TrimSpace(rest[:i])
				rest = rest[i+1:]
			}
			if kw == "modifies" {
				for _, part := range splitTop(rest) {
					e, err := parser.ParseExpr(part)
					if err != nil {
						return bad("%v", err)
					}
					cur.Mods = append(cur.Mods, &Clause{Kind: kw, Expr: e, Src: strings.TrimSpace(part), File: c.File, Line: start})
				}
				continue
			}
			e, err := parser.ParseExpr(rest)
			if err != nil {
				return bad("%v in %q", err, rest)
			}
			c.Expr, c.Src = e, strings.TrimSpace(rest)
			if c.Label == "" {
				c.Label = fmt.Sprintf("%s%d", kw, start)
			}
			switch kw {
			case "requires":
				cur.Req = append(cur.Req, c)
			case "ensures":
				cur.Ens = append(cur.Ens, c)
			case "inv":
				cur.Inv = append(cur.Inv, c)
			case "let":
				cur.Lets = append(cur.Lets, c)
			case "relies":
				cur.Relies = append(cur.Relies, c)
			case "sets":
				cur.Sets = append(cur.Sets, c)
			}
		default:
			return bad("unknown directive %q", kw)
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func isLabel(s string) bool {
	for _, c := range s {
		if !(c == '-' || c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}
