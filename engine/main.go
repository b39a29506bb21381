package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var repoDir = "/repo"
var verbose bool

type FuncReport struct {
	Name     string
	Obs      []*Obligation
	Rounds   int
	Paths    int
	Assumed  []string
	Inlined  []string
	Used     []string
	Dropped  int
	Cands    int
	Time     float64
	Failed   []*Obligation
	Outcomes int
}

func newExec(pr *Program, sp *Specs, prop string) *Exec {
	return &Exec{pr: pr, sp: sp, prop: prop, dropped: map[string]bool{}, used: map[string]bool{}, externs: map[string]bool{},
		inlined: map[string]bool{}, clos: map[*Term]*Clo{}, cloID: map[string]*Term{}, addrs: map[*Term]*AddrV{},
		addrID: map[string]*Term{}, loops: map[*ssa.Function]*LoopInfo{}}
}

// runRoot symbolically executes one function against its contract.
func (x *Exec) runRoot(fn *ssa.Function, spec *FuncSpec) (outs int) {
	x.root, x.rootSpec, x.rootName = fn, spec, FuncName(fn)
	x.obs = nil
	x.nfresh = 0
	x.steps = 0
	x.started = time.Now()
	x.dry = 0
	x.pureDone, x.axioms = nil, nil
	x.paths = 0
	x.clos, x.cloID = map[*Term]*Clo{}, map[string]*Term{}
	x.addrs, x.addrID = map[*Term]*AddrV{}, map[string]*Term{}
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch e := r.(type) {
			case unsupported:
				msg = e.msg
			case evalErr:
				msg = "contract: " + e.msg
			default:
				if verbose {
					fmt.Println(string(debug.Stack()))
				}
				msg = fmt.Sprintf("internal: %v", r)
			}
			x.obs = append(x.obs, &Obligation{Kind: "unsupported", Label: msg, Func: x.rootName, Goal: False})
		}
	}()
	st := &State{heaps: map[string]*Term{}, cells: map[*Term]*CellV{}, has: map[*Term]bool{}}
	st.next = Var("next0", "Int")
	st.pub = st.next
	st.assume(Le(Int(1), st.next))
	st.assume(Le(Int(0), Var("J", "Int")))
	var args []Value
	names := map[string]Binding{}
	if len(spec.Params) != len(fn.Params) {
		panic(unsupported{fmt.Sprintf("contract of %s names %d parameters, the function has %d", spec.Name, len(spec.Params), len(fn.Params))})
	}
	for i, p := range fn.Params {
		var v *Term
		v = Var("p."+spec.Params[i]+fmt.Sprint(i), sortOf(p.Type()))
		x.wf(st, v, p.Type(), 0)
		args = append(args, v)
		if spec.Params[i] != "_" {
			names[spec.Params[i]] = Binding{V: v, T: p.Type()}
		}
	}
	x.entry = st
	ectx := &Ctx{x: x, st: st, old: st, cur: st, names: names, oldNames: names, spec: spec}
	x.entryCtx = ectx
	for k := range spec.Roles {
		g := ectx.eval(mustParse(k)).T
		st.assume(Eq(Select(x.genHeap(st), g), SeqEmpty("Slice")))
		st.assume(Not(Select(st.heap("$gendone", ArrSort("Int", "Bool")), g)))
	}
	st.heaps["$held"] = noneHeld()
	heapSorts["$held"] = noneHeld().Sort
	x.initConc(st)
	x.globalFacts(st)
	for _, r := range spec.Req {
		if r.active(x.prop) {
			st.assume(x.mustBool(ectx, r, spec))
		}
	}
	x.rootMods = x.evalMods(ectx, spec.Mods)
	entry := st.clone()
	x.entry = entry
	ectx.st, ectx.old = entry, entry
	os := x.runFn(fn, args, nil, st, nil)
	for _, o := range os {
		ctx := &Ctx{x: x, st: o.st, cur: o.st, old: entry, oldNames: names, spec: spec}
		ectx.cur = o.st
		rn := map[string]Binding{}
		for k, v := range names {
			rn[k] = v
		}
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			v := x.term(o.vals[i])
			x.escape(o.st, v, rs.At(i).Type())
			if i < len(spec.Results) {
				rn[spec.Results[i]] = Binding{V: v, T: rs.At(i).Type()}
			}
		}
		x.publish(o.st)
		ctx.names = rn
		for _, g := range spec.Sets {
			if g.active(x.prop) {
				o.st.setHeap(g.Name, ctx.eval(g.Expr).T)
			}
		}
		for _, e := range spec.Ens {
			if e.active(x.prop) {
				x.oblige(o.st, "ensures", e.Label, fn.Pos(), x.mustBool(ctx, e, spec), e.Props)
			}
		}
		x.exitFrame(o.st, entry)
	}
	return len(os)
}

func (x *Exec) globalFacts(st *State) {}

// internalKey: bookkeeping of the verifier, no program state.
func internalKey(k string) bool {
	for _, p := range []string{"$visited", "$held", "$shr", "$ltab", "$lslot", "$tab0", "$tabw", "$owner", "$caddr", "$sent"} {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

// exitFrame: only what the contract lists has changed.
func (x *Exec) exitFrame(st, entry *State) {
	if h := x.heldHeap(st); h != x.heldHeap(entry) {
		x.oblige(st, "lock", "all-released", 0, Eq(h, x.heldHeap(entry)), []string{"C15"})
	}
	if x.rootSpec.Top {
		return
	}
	sets := map[string]bool{}
	for _, g := range x.rootSpec.Sets {
		sets[g.Name] = true
	}
	var keys []string
	for k := range st.heaps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cur := st.heaps[k]
		base := entry.heap(k, cur.Sort)
		if cur == base || k == floatKey || sets[k] || internalKey(k) {
			continue
		}
		if x.modAll(k) {
			continue
		}
		if !strings.HasPrefix(cur.Sort, "(Array Int") || strings.HasPrefix(k, "G") {
			x.oblige(st, "frame", "unchanged:"+k, 0, Eq(cur, base), nil)
			continue
		}
		excl := x.modRefs(k)
		next0 := entry.next
		var gs []*Term
		c := cur
		ok := true
		for c != base {
			if c.Op != "store" {
				ok = false
				break
			}
			r := c.Args[1]
			alt := []*Term{Ge(r, next0)}
			for _, e := range excl {
				alt = append(alt, Eq(r, e))
			}
			for _, q := range x.modSets(k) {
				alt = append(alt, Gt(F("occ", r, q), Int(0)))
			}
			alt = append(alt, Eq(Select(cur, r), Select(base, r)))
			gs = append(gs, Or(alt...))
			c = c.Args[0]
		}
		if ok {
			x.oblige(st, "frame", "only-listed:"+k, 0, And(gs...), nil)
			continue
		}
		r := x.fresh("frameref", "Int")
		s2 := st.clone()
		s2.assume(Lt(r, next0))
		for _, e := range excl {
			s2.assume(Not(Eq(r, e)))
		}
		for _, q := range x.modSets(k) {
			s2.assume(Eq(F("occ", r, q), Int(0)))
		}
		x.oblige(s2, "frame", "only-listed:"+k, 0, Eq(Select(cur, r), Select(base, r)), nil)
	}
}

func (x *Exec) verify(fn *ssa.Function, spec *FuncSpec) *FuncReport {
	rep := &FuncReport{Name: FuncName(fn)}
	t0 := time.Now()
	x.dropped = map[string]bool{}
	retrying = false
	early := map[string]bool{} // dropped before any timeout
	slow := false
	for round := 0; round < 60; round++ {
		x.used, x.externs, x.inlined = map[string]bool{}, map[string]bool{}, map[string]bool{}
		rep.Outcomes = x.runRoot(fn, spec)
		rep.Rounds = round + 1
		rep.Paths = x.paths + rep.Outcomes
		for _, o := range x.obs {
			o.Facts = append(o.Facts, x.axioms...)
		}
		var cands, rest []*Obligation
		for _, o := range x.obs {
			if o.Cand != "" {
				cands = append(cands, o)
			} else {
				rest = append(rest, o)
			}
		}
		if verbose {
			fmt.Printf("  %s round %d: %d candidates obligations, %d others, %d paths\n", rep.Name, round, len(cands), len(rest), rep.Paths)
		}
		ct := candTimeout
		if retrying {
			ct *= 4
		}
		solveAll(cands, false, ct)
		nd := 0
		for _, o := range cands {
			if o.Req && o.Res == "timeout" && !x.dropped[o.Cand] {
				slow = true
			}
		}
		if !slow {
			for _, o := range cands {
				if o.Res != "unsat" {
					early[o.Cand] = true
				}
			}
		}
		for _, o := range cands {
			if o.Res != "unsat" && !x.dropped[o.Cand] {
				x.dropped[o.Cand] = true
				nd++
				if verbose {
					fmt.Printf("    drop %s (%s) %.1fs\n", o.Cand, o.Label, o.Time)
				}
				if os.Getenv("GOVC_DUMPC") != "" && strings.Contains(o.Cand, os.Getenv("GOVC_DUMPC")) {
					dumpOb(o)
				}
			}
		}
		if nd > 0 {
			continue
		}
		solveAll(rest, false, candTimeout)
		var hard []*Obligation
		for _, o := range rest {
			if o.Res != "unsat" {
				hard = append(hard, o)
			}
		}
		ht := hardTimeout
		if slow && !retrying && !gaveUp && ht > 10 {
			ht = 10
		}
		if gaveUp && ht > 5 {
			ht = 5
		}
		// One failed obligation is an alarm, so once there are several the
		// remaining ones are not tried with every back end.
		for len(hard) > 0 {
			k := len(hard)
			if k > 16 {
				k = 16
			}
			solveAll(hard[:k], true, ht)
			bad := 0
			for _, o := range hard[:k] {
				if o.Res != "unsat" {
					bad++
				}
			}
			hard = hard[k:]
			if bad >= 6 && !(slow && !retrying && !gaveUp) {
				break
			}
		}
		rep.Obs = x.obs
		for _, o := range rest {
			if o.Res != "unsat" {
				rep.Failed = append(rep.Failed, o)
			}
		}
		if len(rep.Failed) > 0 && slow && !retrying && !gaveUp {
			// an invariant was given up for lack of time: try once more
			retrying = true
			rep.Failed, rep.Obs = nil, nil
			x.dropped = early
			if verbose {
				fmt.Printf("  %s: second attempt\n", rep.Name)
			}
			continue
		}
		if len(rep.Failed) > 0 {
			if !gaveUp {
				gaveUpAt = time.Now()
			}
			gaveUp = true
		}
		rep.Cands = len(cands)
		break
	}
	retrying = false
	rep.Dropped = len(x.dropped)
	for k := range x.externs {
		rep.Assumed = append(rep.Assumed, k)
	}
	for k := range x.inlined {
		rep.Inlined = append(rep.Inlined, k)
	}
	for k := range x.used {
		rep.Used = append(rep.Used, k)
	}
	sort.Strings(rep.Assumed)
	sort.Strings(rep.Inlined)
	sort.Strings(rep.Used)
	rep.Time = time.Since(t0).Seconds()
	return rep
}

// gaveUp: some function failed for good, so second attempts are pointless
var gaveUp bool
var gaveUpAt time.Time
var candTimeout, hardTimeout = 5.0, 20.0

func dumpOb(o *Obligation) {
	f, _ := os.CreateTemp("", "govc-*.smt2")
	f.WriteString(BuildQuery(append(append([]*Term{}, o.Facts...), strDistinct(o)...), o.Goal, false))
	f.Close()
	fmt.Println("      query:", f.Name())
}

func relevant(s *FuncSpec, prop string) bool {
	for _, c := range s.Ens {
		if c.tagged(prop) {
			return true
		}
	}
	for _, c := range s.Req {
		if c.tagged(prop) {
			return true
		}
	}
	for _, c := range s.Safe {
		if c == prop {
			return true
		}
	}
	return false
}

func main() {
	prop := flag.String("prop", "", "property id")
	only := flag.String("func", "", "verify only this function")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	outJSON := flag.String("json", "", "report file")
	dump := flag.Bool("dump", false, "dump failing queries")
	vac := flag.Bool("vacuity", false, "check that paths are not contradictory")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.BoolVar(&debugEval, "ve", false, "verbose evaluation")
	flag.Float64Var(&candTimeout, "tc", 5, "candidate timeout")
	flag.Float64Var(&hardTimeout, "th", 20, "obligation timeout")
	flag.Parse()
	if *prop >= "C12" && *prop != "C22" || os.Getenv("GOVC_NOEQS") != "" {
		solveEqs = "smt.solve_eqs=false"
	}
	t0 := time.Now()
	pr, err := LoadRepo(repoDir)
	if err != nil {
		fmt.Println("LOAD", err)
		os.Exit(2)
	}
	sp, err := LoadSpecs(*cdir)
	if err != nil {
		fmt.Println("SPEC", err)
		os.Exit(2)
	}
	tLoad := time.Since(t0).Seconds()
	x := newExec(pr, sp, *prop)
	x.setup()
	var names []string
	for n := range sp.Funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	done := map[string]bool{}
	var work []string
	for _, n := range names {
		s := sp.Funcs[n]
		if s.Assumed || s.Inline || strings.Contains(n, ":") {
			continue
		}
		if *only != "" {
			if n == *only {
				work = append(work, n)
			}
			continue
		}
		if relevant(s, *prop) && !below(n, *prop) {
			work = append(work, n)
		}
	}
	var reps []*FuncReport
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if done[n] {
			continue
		}
		done[n] = true
		if *only == "" && below(n, *prop) {
			lower = append(lower, n)
			continue
		}
		s := sp.Funcs[n]
		fn := pr.Funcs[n]
		if s.Assumed {
			continue
		}
		if fn == nil {
			reps = append(reps, &FuncReport{Name: n, Failed: []*Obligation{{Kind: "unsupported", Label: "function under contract not found", Func: n, Res: "unknown"}}})
			continue
		}
		if gaveUp && time.Since(gaveUpAt) > 60*time.Second {
			fmt.Printf("     %s: not attempted, as obligations of other functions failed\n", n)
			continue
		}
		rep := x.verify(fn, s)
		reps = append(reps, rep)
		fmt.Printf("%s %s: %d obligations, %d failed, %d paths, %d rounds, %.1fs\n", map[bool]string{true: "ok  ", false: "FAIL"}[len(rep.Failed) == 0], n, len(rep.Obs), len(rep.Failed), rep.Paths, rep.Rounds, rep.Time)
		for _, o := range rep.Failed {
			fmt.Printf("   failed [%s] %s %s %s (%.1fs)\n", o.Kind, o.Label, o.Pos, o.Res, o.Time)
			if *dump && o.Kind != "unsupported" {
				dumpOb(o)
			}
		}
		if *vac {
			x.vacuity(rep)
		}
		if *only == "" {
			work = append(work, rep.Used...)
		}
	}
	fmt.Printf("load %.1fs total %.1fs\n", tLoad, time.Since(t0).Seconds())
	if *outJSON != "" {
		writeReport(*outJSON, *prop, reps, sp, tLoad, time.Since(t0).Seconds())
	}
	for _, r := range reps {
		if len(r.Failed) > 0 {
			os.Exit(1)
		}
	}
}

// lower: contracts of the storage layer that a property of the layers above
// uses; their functions are verified by the checks of C01-C11 and C24.
var lower []string

func below(n, prop string) bool {
	if len(prop) < 3 || prop[:3] < "C12" || prop[:3] == "C24" {
		return false
	}
	for _, p := range []string{"centroid.", "centroidmanager.", "mathutils.", "searchutils.", "common."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (x *Exec) vacuity(rep *FuncReport) {
	var v []*Obligation
	for _, o := range rep.Obs {
		if o.Kind == "ensures" {
			v = append(v, &Obligation{Kind: "vacuity", Label: o.Label, Facts: o.Facts, Goal: False})
		}
	}
	solveAll(v, false, 5)
	bad := 0
	for _, o := range v {
		if o.Res == "unsat" {
			bad++
		}
	}
	if len(v) > 0 {
		fmt.Printf("   vacuity: %d of %d postcondition paths are contradictory\n", bad, len(v))
	}
}

type obJSON struct {
	Kind, Label, Func, Pos, Result, By string
	Time                               float64
	Goal                               string `json:",omitempty"`
}

func writeReport(file, prop string, reps []*FuncReport, sp *Specs, tl, tt float64) {
	type fr struct {
		Name                                     string
		Obligations, Proved, Invariants, Failed_ int
		Paths                                    int
		Time                                     float64
		Failed                                   []obJSON
		By                                       map[string]int
		Kinds                                    map[string]int
		Assumed, Inlined, Used                   []string
	}
	var out struct {
		Prop    string
		Funcs   []fr
		Load    float64
		Total   float64
		Lower   []string
		Solver  map[string]float64
		Queries map[string]int
	}
	out.Prop, out.Load, out.Total = prop, tl, tt
	sort.Strings(lower)
	out.Lower = lower
	out.Solver, out.Queries = stats.time, stats.n
	for _, r := range reps {
		f := fr{Name: r.Name, Paths: r.Paths, Time: r.Time, By: map[string]int{}, Kinds: map[string]int{}, Assumed: r.Assumed, Inlined: r.Inlined, Used: r.Used}
		for _, o := range r.Obs {
			f.Obligations++
			if o.Res == "unsat" {
				f.Proved++
				f.By[o.By]++
				f.Kinds[o.Kind]++
				if o.Cand != "" {
					f.Invariants++
				}
			}
		}
		for _, o := range r.Failed {
			g := ""
			if o.Goal != nil {
				g = o.Goal.String()
				if len(g) > 4000 {
					g = g[:4000] + "..."
				}
			}
			f.Failed = append(f.Failed, obJSON{o.Kind, o.Label, o.Func, o.Pos, o.Res, o.By, o.Time, g})
		}
		f.Failed_ = len(r.Failed)
		out.Funcs = append(out.Funcs, f)
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Dir(file), 0o755)
	os.WriteFile(file, b, 0o644)
}

var _ types.Type
