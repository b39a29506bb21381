package main

// Discharging obligations: z3 (uninterpreted products), z3 (nonlinear), cvc5.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type backend struct {
	name string
	cmd  []string
	nia  bool
	hdr  string
}

var z3New = "z3-new"

// solveEqs: equality elimination of z3 (it makes z3 incomplete on pairs of
// frame conditions with the same conclusion)
var solveEqs = "smt.solve_eqs=true"

func backends() []backend {
	return []backend{
		{"z3-new/uf", []string{z3New, solveEqs, "smt.case_split=3", "-smt2", "-in"}, false, ""},
		{"z3-new/uf2", []string{z3New, solveEqs, "-smt2", "-in"}, false, ""},
		{"z3-new/nra", []string{z3New, solveEqs, "-smt2", "-in"}, true, ""},
		{"z3-4.8/uf", []string{"z3", "-smt2", "-in"}, false, ""},
		{"cvc5/uf", []string{"cvc5", "--lang=smt2", "--full-saturate-quant"}, false, "cvc5"},
	}
}

type solveStat struct {
	sync.Mutex
	n    map[string]int
	time map[string]float64
}

var stats = &solveStat{n: map[string]int{}, time: map[string]float64{}}

var sem = make(chan struct{}, 8)

func runSolver(b backend, q string, timeout float64) (string, float64) {
	sem <- struct{}{}
	defer func() { <-sem }()
	if b.hdr == "cvc5" {
		q = strings.Replace(q, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n;SOLVERHDR\n", "(set-logic ALL)\n", 1)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration((timeout+2)*float64(time.Second)))
	defer cancel()
	args := append([]string{}, b.cmd[1:]...)
	if b.hdr == "cvc5" {
		args = append(args, fmt.Sprintf("--tlimit=%d", int(timeout*1000)))
	} else {
		args = append(args, fmt.Sprintf("-T:%d", int(timeout+0.999)), "-memory:3000")
	}
	cmd := exec.CommandContext(ctx, b.cmd[0], args...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	dt := time.Since(t0).Seconds()
	r := strings.TrimSpace(out.String())
	stats.Lock()
	stats.n[b.name]++
	stats.time[b.name] += dt
	stats.Unlock()
	if strings.Contains(r, "error") && !strings.HasPrefix(r, "unsat") {
		f, _ := os.CreateTemp("", "govc-err-*.smt2")
		if f != nil && os.Getenv("GOVC_DEBUG") != "" {
			f.WriteString(q)
			f.Close()
			fmt.Println("SOLVER ERROR", b.name, r, f.Name())
		} else if f != nil {
			os.Remove(f.Name())
		}
	}
	if i := strings.IndexByte(r, '\n'); i >= 0 {
		r = r[:i]
	}
	switch r {
	case "unsat", "sat", "unknown":
	default:
		r = "timeout"
	}
	return r, dt
}

var cache = map[string]string{}
var timedOut = map[string]bool{}

// retrying: the second attempt at a function, with more time for invariants
var retrying bool
var cacheMu sync.Mutex

// discharge decides one obligation; full uses every back end.
func discharge(o *Obligation, full bool, timeout float64) {
	q := BuildQuery(append(append([]*Term{}, o.Facts...), strDistinct(o)...), o.Goal, false)
	cacheMu.Lock()
	if by, ok := cache[q]; ok {
		cacheMu.Unlock()
		if by != "" {
			o.Res, o.By = "unsat", by
			return
		}
		if !full && !(retrying && o.Req && timedOut[q]) {
			o.Res = "unknown"
			if timedOut[q] {
				o.Res = "timeout"
			}
			return
		}
	} else {
		cacheMu.Unlock()
	}
	pending := &query{o: o, q: q}
	_ = pending
	o.q = q
	o.full = full
	o.timeout = timeout
}

type query struct {
	o *Obligation
	q string
}

func strDistinct(o *Obligation) []*Term {
	if len(strLitList) < 2 {
		return nil
	}
	used := newSymSet()
	for _, f := range o.Facts {
		used.add(f)
	}
	used.add(o.Goal)
	var out []*Term
	var l []*Term
	// literals in the definitions of measures over traces
	inDef := map[*Term]bool{}
	for _, m := range traceMeasures {
		if used.funs[m] {
			for _, t := range strLitList[:concLits] {
				inDef[t] = true
			}
			break
		}
	}
	loc := used.funs["islocal"] || used.funs["taken"] || used.funs["locals"] || used.funs["elsewhere"]
	if loc {
		for s, t := range strLits {
			if used.vars[t] || inDef[t] || s == "" {
				lit := F("islocal", t)
				if !strings.HasPrefix(s, "local.") {
					lit = Not(lit)
				}
				out = append(out, lit)
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	}
	for _, t := range strLitList {
		if used.vars[t] || inDef[t] {
			l = append(l, t)
		}
	}
	for i := range l {
		for j := 0; j < i; j++ {
			out = append(out, Not(Eq(l[i], l[j])))
		}
	}
	return out
}

// solveAll discharges obligations in parallel. Query text is built
// sequentially (terms are hash-consed), solvers run concurrently.
func solveAll(obs []*Obligation, full bool, timeout float64) {
	var wg sync.WaitGroup
	for _, o := range obs {
		if o.Res != "" && !(full && o.Res != "unsat") {
			continue
		}
		if o.Kind == "unsupported" {
			o.Res = "unknown"
			continue
		}
		o.q = ""
		o.Res = ""
		discharge(o, full, timeout)
		if o.Res != "" {
			continue
		}
		qn := ""
		if full {
			qn = BuildQuery(append(append([]*Term{}, o.Facts...), strDistinct(o)...), o.Goal, true)
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			solveOne(o, qn, full, timeout)
		}()
	}
	wg.Wait()
}

func solveOne(o *Obligation, qn string, full bool, timeout float64) {
	key := o.q
	defer func() {
		cacheMu.Lock()
		if o.Res == "unsat" {
			cache[key] = o.By
		} else {
			cache[key] = ""
			timedOut[key] = o.Res == "timeout" && !retrying
		}
		cacheMu.Unlock()
		o.q = ""
	}()
	bs := backends()
	if !full {
		if o.Req {
			bs = []backend{bs[0], bs[3], bs[1]}
		} else {
			bs = bs[:1]
		}
	}
	nl := strings.Contains(qn, "(rmul ") || strings.Contains(qn, "(rdiv ")
	for _, b := range bs {
		q := o.q
		if b.nia {
			if !nl {
				continue
			}
			q = qn
		}
		r, dt := runSolver(b, q, timeout)
		o.Time += dt
		if r == "unsat" {
			o.Res, o.By = r, b.name
			return
		}
		o.Res = r
	}
}
