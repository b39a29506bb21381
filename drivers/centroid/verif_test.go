package centroid

import (
	"fmt"
	"math"
	"testing"
	"time"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/searchutils"
)

// Random operation sequences on groups against a multiset oracle. Every check
// names the property it belongs to; a test reports only those of its own.

type vpoint struct {
	dp common.DataPoint
	id string
}

func vid(p common.DataPoint) string {
	return fmt.Sprintf("%s|%v|%v", p.Payload, p.Vec, p.ExpireEnabled)
}

func vexpired(p common.DataPoint, t time.Time) bool { return p.ExpireEnabled && t.After(p.Expires) }

func veuc(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += (a[i] - b[i]) * (a[i] - b[i])
	}
	return math.Sqrt(s)
}

func vcos(a, b []float64) float64 {
	var s, x, y float64
	for i := range a {
		s += a[i] * b[i]
		x += a[i] * a[i]
		y += b[i] * b[i]
	}
	if x == 0 || y == 0 {
		return 0
	}
	return s / math.Sqrt(x) / math.Sqrt(y)
}

// vrecv is a receiver that accepts some points only.
type vrecv struct {
	vec []float64
	got []common.DataPoint
	acc func() bool
}

func (r *vrecv) Vec() []float64 { return r.vec }
func (r *vrecv) AddDataPoint(p common.DataPoint) bool {
	if !r.acc() {
		return false
	}
	r.got = append(r.got, p)
	return true
}

type vworld struct {
	d     *vd
	prop  string
	log   []string
	euc   bool
	dim   int
	c     *Centroid
	pts   map[string]common.DataPoint
	model map[string]int // stored as often as
	nid   int
	bad   bool
}

func (w *vworld) chk(prop string, ok bool, f string, a ...interface{}) {
	if ok || w.bad || prop != w.prop {
		return
	}
	w.bad = true
	w.d.fail("%s; history: %v", fmt.Sprintf(f, a...), w.log)
}

func (w *vworld) vec(dim int) []float64 {
	v := make([]float64, dim)
	for i := range v {
		v[i] = float64(w.d.r.Intn(9) - 4)
		if w.d.r.Intn(4) == 0 {
			v[i] = w.d.r.NormFloat64() * 3
		}
	}
	return v
}

func (w *vworld) point(dim int) common.DataPoint {
	w.nid++
	p := common.DataPoint{Vec: w.vec(dim), Payload: []byte(fmt.Sprint("p", w.nid))}
	switch w.d.r.Intn(8) {
	case 0:
		p.Expires = time.Now().Add(-time.Hour) // irrelevant: not enabled
	case 1:
		p.ExpireEnabled, p.Expires = true, time.Now().Add(time.Hour)
	case 2:
		p.ExpireEnabled, p.Expires = true, time.Now().Add(-time.Hour)
	case 3:
		p.ExpireEnabled, p.Expires = true, time.Now().Add(time.Duration(w.d.r.Intn(400))*time.Microsecond)
	}
	return p
}

func vcount(ds []common.DataPoint) map[string]int {
	m := map[string]int{}
	for _, p := range ds {
		m[vid(p)]++
	}
	return m
}

// after compares the group with the oracle after an operation that took out
// the points of out. t0/t1: before and after the operation.
func (w *vworld) after(out []common.DataPoint, t1 time.Time) {
	have := vcount(w.c.DataPoints)
	o := vcount(out)
	for id, n := range w.model {
		p := w.pts[id]
		if vexpired(p, t1) {
			w.chk("C05", have[id]+o[id] <= n, "point %s stored %d and returned %d times, was stored %d times", id, have[id], o[id], n)
			continue
		}
		w.chk("C05", have[id]+o[id] == n, "live point %s stored %d and returned %d times, was stored %d times", id, have[id], o[id], n)
	}
	for id := range have {
		w.chk("C05", w.model[id] > 0, "unknown point %s stored", id)
	}
	for id := range o {
		w.chk("C05", w.model[id] > 0, "unknown point %s returned", id)
	}
	w.model = have
	w.chk("C04", len(w.c.Vec()) == w.dim, "dimension %d became %d", w.dim, len(w.c.Vec()))
	if n := len(w.c.DataPoints); n > 0 && len(w.c.Vec()) == w.dim {
		for j := 0; j < w.dim; j++ {
			s, m := 0.0, 1.0
			for _, p := range w.c.DataPoints {
				if len(p.Vec) != w.dim {
					w.chk("C05", false, "point %v of another dimension stored", p)
					return
				}
				s += p.Vec[j]
				m += math.Abs(p.Vec[j])
			}
			w.chk("C04", math.Abs(w.c.Vec()[j]-s/float64(n)) <= 1e-7*m, "vector %v is not the mean of the %d stored points (coordinate %d: %v)", w.c.Vec(), n, j, s/float64(n))
		}
	}
}

func vcentroid(t *testing.T, prop string) {
	d := vdNew(t)
	for i := 0; d.more(i, 6000); i++ {
		w := &vworld{d: d, prop: prop, pts: map[string]common.DataPoint{}, model: map[string]int{}}
		d.guard(func() string { return fmt.Sprint(w.log) }, func() { w.run() })
	}
	d.done()
}

func (w *vworld) num() int {
	switch w.d.r.Intn(6) {
	case 0:
		return -1 - w.d.r.Intn(3)
	case 1:
		return 0
	case 2:
		return 1 << 40
	}
	return w.d.r.Intn(len(w.c.DataPoints) + 2)
}

func (w *vworld) run() {
	r := w.d.r
	w.dim = 1 + r.Intn(3)
	w.euc = r.Intn(2) == 0
	knn, kfn := searchutils.KNNCos, searchutils.KFNCos
	if w.euc {
		knn, kfn = searchutils.KNNEuc, searchutils.KFNEuc
	}
	mk := func(dim int) *Centroid {
		c, ok := NewCentroid(NewCentroidArgs{InitVec: w.vec(dim), InitCap: r.Intn(4), KNNSearchFunc: knn, KFNSearchFunc: kfn})
		if !ok {
			w.chk("C04", false, "group not created")
		}
		return &c
	}
	w.c = mk(w.dim)
	w.log = append(w.log, fmt.Sprintf("new dim=%d euc=%v", w.dim, w.euc))
	steps := 3 + r.Intn(14)
	for s := 0; s < steps && !w.bad; s++ {
		if r.Intn(6) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
		op := r.Intn(16)
		w.d.kind("op%d", op)
		pre := append([]common.DataPoint{}, w.c.DataPoints...)
		preN := len(pre)
		t0 := time.Now()
		anyExp := func(t time.Time) bool {
			for _, p := range pre {
				if vexpired(p, t) {
					return true
				}
			}
			return false
		}
		min := func(a, b int) int {
			if a < b {
				return a
			}
			return b
		}
		max0 := func(a int) int {
			if a < 0 {
				return 0
			}
			return a
		}
		switch op {
		case 0, 1, 2, 3, 4, 5:
			dim := w.dim
			if r.Intn(8) == 0 {
				dim = r.Intn(4)
			}
			p := w.point(dim)
			if len(pre) > 0 && r.Intn(6) == 0 {
				p = pre[r.Intn(len(pre))]
			}
			if r.Intn(5) == 0 && p.ExpireEnabled && p.Expires.After(t0) && p.Expires.Before(t0.Add(time.Second)) {
				time.Sleep(time.Until(p.Expires) + 20*time.Microsecond) // now it has expired
				t0 = time.Now()
			}
			w.log = append(w.log, fmt.Sprintf("add %v", p))
			ok := w.c.AddDataPoint(p)
			t1 := time.Now()
			if len(p.Vec) != w.dim {
				w.chk("C05", !ok, "point %v of another dimension accepted", p)
			} else if vexpired(p, t0) {
				w.chk("C06", !ok, "expired point %v accepted", p)
				w.chk("C05", !ok, "expired point %v accepted", p)
			} else if !vexpired(p, t1) {
				w.chk("C05", ok, "live point %v refused", p)
				w.chk("C06", ok, "live point %v refused", p)
			}
			if ok {
				w.pts[vid(p)] = p
				w.model[vid(p)]++
			}
			w.after(nil, t1)
		case 6, 7:
			n := w.num()
			w.log = append(w.log, fmt.Sprintf("drain%d %d", op, n))
			var out []common.DataPoint
			if op == 6 {
				out = w.c.DrainUnordered(n)
			} else {
				out = w.c.DrainOrdered(n)
			}
			t1 := time.Now()
			w.after(out, t1)
			for _, p := range out {
				w.chk("C06", !vexpired(p, t0), "expired point %v drained", p)
			}
			w.chk("C09", len(out) <= max0(n), "asked for %d points, got %d", n, len(out))
			if !anyExp(t1) {
				w.chk("C09", len(out) == min(max0(n), preN), "drain of %d of %d points returned %d", n, preN, len(out))
			}
		case 8, 9:
			w.log = append(w.log, "purge")
			if op == 8 {
				w.c.Expire()
			} else {
				w.c.MemTrim()
			}
			t1 := time.Now()
			w.after(nil, t1)
			for _, p := range w.c.DataPoints {
				w.chk("C06", !vexpired(p, t0), "expired point %v still stored", p)
			}
		case 10:
			w.log = append(w.log, "move")
			w.c.MoveVector()
			w.after(nil, time.Now())
		case 11, 12:
			dim := w.dim
			if r.Intn(10) == 0 {
				dim = r.Intn(4)
			}
			q, k, drain := w.vec(dim), w.num(), r.Intn(2) == 0
			w.log = append(w.log, fmt.Sprintf("lookup %v %d %v", q, k, drain))
			res := w.c.KNNLookup(q, k, drain)
			t1 := time.Now()
			w.chk("C10", len(res) <= max0(k), "lookup of %d returned %d points", k, len(res))
			pc, rc := vcount(pre), vcount(res)
			for id, n := range rc {
				w.chk("C10", n <= pc[id], "point %s returned %d times, stored %d times", id, n, pc[id])
			}
			for _, p := range res {
				w.chk("C06", !vexpired(p, t0), "expired point %v returned", p)
			}
			hc := vcount(w.c.DataPoints)
			for id, n := range pc {
				want := n
				if drain {
					want -= rc[id]
				}
				if !vexpired(w.pts[id], t1) {
					w.chk("C10", hc[id] == want, "point %s stored %d times after the lookup, expected %d", id, hc[id], want)
				} else {
					w.chk("C10", hc[id] <= want, "point %s stored %d times after the lookup, expected at most %d", id, hc[id], want)
				}
			}
			if dim == w.dim {
				score := func(p common.DataPoint) float64 {
					if w.euc {
						return veuc(q, p.Vec)
					}
					return -vcos(q, p.Vec)
				}
				for a := 1; a < len(res); a++ {
					w.chk("C10", score(res[a-1]) <= score(res[a])+1e-9, "results out of order: %v for %v", res, q)
				}
				left := map[string]int{}
				for id, n := range pc {
					left[id] = n - rc[id]
				}
				for _, p := range pre {
					if left[vid(p)] > 0 && !vexpired(p, t1) && len(res) > 0 {
						w.chk("C10", score(res[len(res)-1]) <= score(p)+1e-9, "%v left out although nearer than %v", p, res[len(res)-1])
					}
				}
				if !anyExp(t1) {
					w.chk("C10", len(res) == min(max0(k), preN), "lookup of %d in %d points returned %d", k, preN, len(res))
				}
			}
			if drain {
				w.after(res, t1)
			} else {
				w.after(nil, t1)
			}
		default:
			// distribute to other groups, self, refusing receivers
			n := w.num()
			var recv []common.DataPointReceiver
			var others []*Centroid
			var stubs []*vrecv
			for k := r.Intn(4); k > 0; k-- {
				switch r.Intn(4) {
				case 0:
					recv = append(recv, w.c)
				case 1:
					dim := w.dim
					if r.Intn(4) == 0 {
						dim = 1 + r.Intn(3)
					}
					o := mk(dim)
					others = append(others, o)
					recv = append(recv, o)
				default:
					st := &vrecv{vec: w.vec(w.dim), acc: func() bool { return r.Intn(2) == 0 }}
					stubs = append(stubs, st)
					recv = append(recv, st)
				}
			}
			w.log = append(w.log, fmt.Sprintf("distribute %d to %d (%d stubs %d groups)", n, len(recv), len(stubs), len(others)))
			w.c.DistributeDataPoints(n, recv)
			t1 := time.Now()
			var out []common.DataPoint
			for _, st := range stubs {
				out = append(out, st.got...)
			}
			for _, o := range others {
				out = append(out, o.DataPoints...)
			}
			w.after(out, t1)
			w.chk("C05", len(out) <= max0(n), "distributing %d points gave away %d", n, len(out))
		}
	}
}

func TestVerifC04(t *testing.T) { vcentroid(t, "C04") }
func TestVerifC05(t *testing.T) { vcentroid(t, "C05") }
func TestVerifC06(t *testing.T) { vcentroid(t, "C06") }
func TestVerifC09(t *testing.T) { vcentroid(t, "C09") }
func TestVerifC10(t *testing.T) { vcentroid(t, "C10") }
func TestVerifC24(t *testing.T) { vcentroid(t, "C24") }
