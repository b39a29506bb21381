package searchutils

import (
	"fmt"
	"math"
	"testing"
)

func TestVerifC01(t *testing.T) {
	d := vdNew(t)
	vec := func(n int) []float64 {
		v := make([]float64, n)
		for i := range v {
			v[i] = float64(d.r.Intn(7) - 3)
			if d.r.Intn(3) == 0 {
				v[i] = d.r.NormFloat64() * 5
			}
		}
		return v
	}
	euc := func(a, b []float64) float64 {
		s := 0.0
		for i := range a {
			s += (a[i] - b[i]) * (a[i] - b[i])
		}
		return math.Sqrt(s)
	}
	cos := func(a, b []float64) float64 {
		var s, x, y float64
		for i := range a {
			s += a[i] * b[i]
			x += a[i] * a[i]
			y += b[i] * b[i]
		}
		if x == 0 || y == 0 {
			return 0
		}
		return s / math.Sqrt(x) / math.Sqrt(y)
	}
	type alg struct {
		name string
		f    func([]float64, func() ([]float64, bool), int) []int
		s    func(a, b []float64) float64
		sign float64
	}
	algs := []alg{{"KNNCos", KNNCos, cos, -1}, {"KFNCos", KFNCos, cos, 1}, {"KNNEuc", KNNEuc, euc, 1}, {"KFNEuc", KFNEuc, euc, -1}}
	run := func(al alg, target []float64, vs [][]float64, k int) {
		what := func() string { return fmt.Sprintf("%s target=%v vecs=%v k=%d", al.name, target, vs, k) }
		d.guard(what, func() {
			i := 0
			res := al.f(target, func() ([]float64, bool) {
				if i >= len(vs) {
					return nil, false
				}
				i++
				return vs[i-1], true
			}, k)
			comp := 0
			for _, v := range vs {
				if len(v) == len(target) {
					comp++
				}
			}
			want := k
			if want < 0 {
				want = 0
			}
			if comp < want {
				want = comp
			}
			if len(res) != want {
				d.fail("%s returned %v, want %d positions", what(), res, want)
				return
			}
			seen := map[int]bool{}
			prev := math.Inf(-1)
			for _, r := range res {
				if r < 0 || r >= len(vs) || seen[r] || len(vs[r]) != len(target) {
					d.fail("%s returned %v: wrong position", what(), res)
					return
				}
				seen[r] = true
				s := al.sign * al.s(target, vs[r])
				if s < prev-1e-9 {
					d.fail("%s returned %v: not best first", what(), res)
					return
				}
				prev = s
			}
			for j, v := range vs {
				if len(res) > 0 && !seen[j] && len(v) == len(target) && al.sign*al.s(target, v) < prev-1e-9 {
					d.fail("%s returned %v: %d is better", what(), res, j)
					return
				}
			}
		})
	}
	for i := 0; d.more(i, 6000); i++ {
		dim := d.r.Intn(4)
		target := vec(dim)
		n := d.r.Intn(9)
		vs := [][]float64{}
		for j := 0; j < n; j++ {
			x := dim
			if d.r.Intn(5) == 0 {
				x = d.r.Intn(4)
			}
			vs = append(vs, vec(x))
		}
		k := d.r.Intn(n+4) - 1
		d.kind("%d/%d/%d", dim, n, k)
		for _, al := range algs {
			run(al, target, vs, k)
		}
	}
	// all orders of few one-dimensional vectors
	for m := 0; m < 5*5*5*5; m++ {
		vs := [][]float64{}
		for j, x := 0, m; j < 4; j++ {
			vs = append(vs, []float64{float64(x%5 - 2), 1})
			x /= 5
		}
		for k := 0; k <= 5; k++ {
			for _, al := range algs {
				run(al, []float64{1, 0.5}, vs, k)
			}
		}
	}
	d.done()
}
