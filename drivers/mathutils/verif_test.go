package mathutils

import (
	"fmt"
	"math"
	"testing"
)

func vdVec(d *vd, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		switch d.r.Intn(4) {
		case 0:
			v[i] = 0
		case 1:
			v[i] = float64(d.r.Intn(7) - 3)
		default:
			v[i] = d.r.NormFloat64() * 10
		}
	}
	return v
}

func vdNear(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

func TestVerifC02(t *testing.T) {
	d := vdNew(t)
	for i := 0; d.more(i, 20000); i++ {
		n, m := d.r.Intn(7), d.r.Intn(7)
		if d.r.Intn(4) != 0 {
			m = n
		}
		a, b := vdVec(d, n), vdVec(d, m)
		if d.r.Intn(8) == 0 {
			a = make([]float64, n)
		}
		d.kind("%d/%d", n, m)
		what := func() string { return fmt.Sprint(a, b) }
		d.guard(what, func() {
			e, err1 := EuclideanDistance(a, b)
			c, err2 := CosineSimilarity(a, b)
			if (err1 == nil) != (n == m) || (err2 == nil) != (n == m) {
				d.fail("error not exactly for different dimensions: %s -> %v, %v", what(), err1, err2)
				return
			}
			if n != m {
				return
			}
			var s, dot, na, nb float64
			for k := range a {
				s += (a[k] - b[k]) * (a[k] - b[k])
				dot += a[k] * b[k]
				na += a[k] * a[k]
				nb += b[k] * b[k]
			}
			if !vdNear(e, math.Sqrt(s)) {
				d.fail("euclidean distance of %s is %v, want %v", what(), e, math.Sqrt(s))
			}
			want := 0.0
			if na != 0 && nb != 0 {
				want = dot / math.Sqrt(na) / math.Sqrt(nb)
			}
			if !vdNear(c, want) {
				d.fail("cosine similarity of %s is %v, want %v", what(), c, want)
			}
		})
	}
	d.done()
}

func TestVerifC03(t *testing.T) {
	d := vdNew(t)
	cp := func(v []float64) []float64 { return append([]float64{}, v...) }
	eq := func(a, b []float64) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	for i := 0; d.more(i, 20000); i++ {
		n, m := d.r.Intn(6), d.r.Intn(6)
		if d.r.Intn(4) != 0 {
			m = n
		}
		a, b := vdVec(d, n), vdVec(d, m)
		if d.r.Intn(4) == 0 {
			b = cp(a)
			if len(b) > 0 && d.r.Intn(2) == 0 {
				b[d.r.Intn(len(b))] += 1
			}
			m = len(b)
		}
		sc := d.r.NormFloat64() + 3
		nv := d.r.Intn(5)
		vs := [][]float64{}
		for k := 0; k < nv; k++ {
			x := n
			if d.r.Intn(5) == 0 {
				x = d.r.Intn(6)
			}
			vs = append(vs, vdVec(d, x))
		}
		if nv > 0 && d.r.Intn(2) == 0 {
			vs[d.r.Intn(nv)] = cp(a)
		}
		d.kind("%d/%d/%d", n, m, nv)
		what := func() string { return fmt.Sprint(a, b, sc, vs) }
		d.guard(what, func() {
			a0, b0 := cp(a), cp(b)
			vs0 := [][]float64{}
			for _, v := range vs {
				vs0 = append(vs0, cp(v))
			}
			sum, ok1 := VecAdd(a, b)
			dif, ok2 := VecSub(a, b)
			if ok1 != (n == m) || ok2 != (n == m) {
				d.fail("VecAdd/VecSub success is %v/%v for %s", ok1, ok2, what())
				return
			}
			if ok1 {
				if len(sum) != n || len(dif) != n {
					d.fail("VecAdd/VecSub dimension for %s", what())
					return
				}
				for k := range a {
					if sum[k] != a0[k]+b0[k] || dif[k] != a0[k]-b0[k] {
						d.fail("VecAdd/VecSub of %s: %v %v", what(), sum, dif)
						return
					}
				}
			}
			mu, di := VecMulScalar(a, sc), VecDivScalar(a, sc)
			if len(mu) != n || len(di) != n {
				d.fail("scaling changes the dimension: %s", what())
				return
			}
			for k := range a {
				if !vdNear(mu[k], a0[k]*sc) || !vdNear(di[k], a0[k]/sc) {
					d.fail("scaling of %s: %v %v", what(), mu, di)
					return
				}
			}
			if !eq(Vec(a...), a0) {
				d.fail("Vec of %s", what())
			}
			if VecEq(a, b) != eq(a, b) {
				d.fail("VecEq of %s is %v", what(), VecEq(a, b))
			}
			in := false
			mixed := false
			for _, v := range vs0 {
				in = in || eq(v, a0)
				mixed = mixed || len(v) != len(vs0[0])
			}
			if VecIn(a, vs) != in {
				d.fail("VecIn of %s is %v", what(), VecIn(a, vs))
			}
			k := 0
			mean, ok := VecMean(func() ([]float64, bool) {
				if k >= len(vs) {
					return nil, false
				}
				k++
				return vs[k-1], true
			})
			if ok != (len(vs) > 0 && !mixed) {
				d.fail("VecMean success is %v for %s", ok, what())
				return
			}
			if ok {
				for j := range vs0[0] {
					s := 0.0
					for _, v := range vs0 {
						s += v[j]
					}
					if len(mean) != len(vs0[0]) || !vdNear(mean[j], s/float64(len(vs0))) {
						d.fail("VecMean of %s is %v", what(), mean)
						return
					}
				}
			}
			for j := range sum {
				sum[j] = 77
				dif[j] = 77
			}
			for j := range mu {
				mu[j], di[j] = 77, 77
			}
			for j := range mean {
				if ok {
					mean[j] = 77
				}
			}
			same := eq(a, a0) && eq(b, b0)
			for j := range vs {
				same = same && eq(vs[j], vs0[j])
			}
			if !same {
				d.fail("inputs changed: %v %v %v became %s", a0, b0, vs0, what())
			}
		})
	}
	d.done()
}
