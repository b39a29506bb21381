package centroidmanager

import (
	"fmt"
	"math"
	"sort"
	"testing"
	"time"
	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/searchutils"
)

// Random operation sequences on collections against a multiset oracle. Every
// check names the property it belongs to; a test reports only its own.

func vid(p common.DataPoint) string {
	return fmt.Sprintf("%s|%v|%v", p.Payload, p.Vec, p.ExpireEnabled)
}

func vexpired(p common.DataPoint, t time.Time) bool { return p.ExpireEnabled && t.After(p.Expires) }

type vrecv struct {
	vec []float64
	got []common.DataPoint
	acc func() bool
}

func (r *vrecv) Vec() []float64 { return r.vec }
func (r *vrecv) AddDataPoint(p common.DataPoint) bool {
	if !r.acc() {
		return false
	}
	r.got = append(r.got, p)
	return true
}

type vworld struct {
	d        *vd
	prop     string
	log      []string
	dim      int
	cm       *CentroidManager
	pts      map[string]common.DataPoint
	model    map[string]int
	nid      int
	bad      bool
	big      float64
	expiry   bool
	knn, kfn knnSearchFunc
}

func (w *vworld) chk(prop string, ok bool, f string, a ...interface{}) {
	if ok || w.bad || prop != w.prop {
		return
	}
	w.bad = true
	w.d.fail("%s; history: %v", fmt.Sprintf(f, a...), w.log)
}

func (w *vworld) vec(dim int) []float64 {
	v := make([]float64, dim)
	for i := range v {
		v[i] = float64(w.d.r.Intn(13) - 4)
		if w.d.r.Intn(4) == 0 {
			v[i] = w.d.r.NormFloat64() * 3
		}
	}
	return v
}

func (w *vworld) point(dim int) common.DataPoint {
	w.nid++
	p := common.DataPoint{Vec: w.vec(dim), Payload: []byte(fmt.Sprint("p", w.nid))}
	if !w.expiry {
		return p
	}
	switch w.d.r.Intn(9) {
	case 0:
		p.Expires = time.Now().Add(-time.Hour) // irrelevant: not enabled
	case 1:
		p.ExpireEnabled, p.Expires = true, time.Now().Add(time.Hour)
	case 2:
		p.ExpireEnabled, p.Expires = true, time.Now().Add(-time.Hour)
	case 3:
		p.ExpireEnabled, p.Expires = true, time.Now().Add(time.Duration(w.d.r.Intn(600))*time.Microsecond)
	}
	return p
}

func vcount(ds []common.DataPoint) map[string]int {
	m := map[string]int{}
	for _, p := range ds {
		m[vid(p)]++
	}
	return m
}

func (w *vworld) all() []common.DataPoint {
	var out []common.DataPoint
	for _, c := range w.cm.Centroids {
		if c != nil {
			out = append(out, c.DataPoints...)
		}
	}
	return out
}

// after: the state after an operation that took out the points of out.
func (w *vworld) after(out []common.DataPoint, t1 time.Time, groups bool) {
	have := vcount(w.all())
	o := vcount(out)
	for id, n := range w.model {
		if vexpired(w.pts[id], t1) {
			w.chk("C07", have[id]+o[id] <= n, "point %s stored %d and returned %d times, was stored %d times", id, have[id], o[id], n)
			continue
		}
		w.chk("C07", have[id]+o[id] == n, "live point %s stored %d and returned %d times, was stored %d times", id, have[id], o[id], n)
	}
	for id := range have {
		w.chk("C07", w.model[id] > 0, "unknown point %s stored", id)
	}
	for id := range o {
		w.chk("C07", w.model[id] > 0, "unknown point %s returned", id)
	}
	w.model = have
	n := 0
	seen := map[*centroid.Centroid]bool{}
	for _, c := range w.cm.Centroids {
		if c == nil {
			w.chk("C11", false, "nil group")
			return
		}
		w.chk("C11", !seen[c], "a group is listed twice")
		seen[c] = true
		n += len(c.DataPoints)
		w.chk("C11", len(c.Vec()) == len(w.cm.Vec()), "group of dimension %d in a collection of dimension %d", len(c.Vec()), len(w.cm.Vec()))
		w.chk("C04", len(c.Vec()) == len(w.cm.Vec()), "group of dimension %d in a collection of dimension %d", len(c.Vec()), len(w.cm.Vec()))
		for _, p := range c.DataPoints {
			w.chk("C11", len(p.Vec) == len(c.Vec()), "point of dimension %d in a group of dimension %d", len(p.Vec), len(c.Vec()))
			if len(p.Vec) != len(c.Vec()) {
				return
			}
		}
		for j := range c.Vec() {
			if len(c.DataPoints) == 0 {
				break
			}
			s, m := 0.0, 1+w.big
			for _, p := range c.DataPoints {
				s += p.Vec[j]
				m += math.Abs(p.Vec[j])
			}
			w.chk("C04", math.Abs(c.Vec()[j]-s/float64(len(c.DataPoints))) <= 1e-7*m, "group vector %v is not the mean of its %d points (coordinate %d: %v)", c.Vec(), len(c.DataPoints), j, s/float64(len(c.DataPoints)))
		}
	}
	w.chk("C07", w.cm.LenDP() == n, "LenDP is %d, %d points are stored", w.cm.LenDP(), n)
	if k := len(w.cm.Centroids); k > 0 {
		for j := range w.cm.Vec() {
			s, m := 0.0, 1+w.big
			for _, c := range w.cm.Centroids {
				if j < len(c.Vec()) {
					s += c.Vec()[j]
					m += math.Abs(c.Vec()[j])
				}
			}
			got := w.cm.Vec()[j]
			w.chk("C08", math.Abs(got-s/float64(k)) <= 1e-7*m && !math.IsNaN(got), "collection vector %v is not the mean of its %d groups (coordinate %d: %v)", w.cm.Vec(), k, j, s/float64(k))
		}
	}
}

func (w *vworld) num() int {
	switch w.d.r.Intn(8) {
	case 0:
		return -1 - w.d.r.Intn(3)
	case 1:
		return 0
	case 2:
		return 1 << 40
	}
	return w.d.r.Intn(w.cm.LenDP() + 3)
}

func vmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func vmax0(a int) int {
	if a < 0 {
		return 0
	}
	return a
}

func (w *vworld) run() {
	r := w.d.r
	w.dim = 1 + r.Intn(3)
	w.expiry = r.Intn(2) == 0
	w.knn, w.kfn = searchutils.KNNCos, searchutils.KFNCos
	euc := r.Intn(3) > 0
	if euc {
		w.knn, w.kfn = searchutils.KNNEuc, searchutils.KFNEuc
	}
	thr := 0
	if r.Intn(2) == 0 {
		thr = 1 + r.Intn(8)
	}
	cm, ok := NewCentroidManager(NewCentroidManagerArgs{InitVec: w.vec(w.dim), InitCap: r.Intn(4), CentroidDPThreshold: thr, KNNSearchFunc: w.knn, KFNSearchFunc: w.kfn})
	w.chk("C11", ok, "collection not created")
	w.cm = &cm
	w.log = append(w.log, fmt.Sprintf("new dim=%d euc=%v threshold=%d", w.dim, euc, thr))
	steps := 5 + r.Intn(40)
	for s := 0; s < steps && !w.bad; s++ {
		w.step(thr)
	}
}

type vsnap struct {
	refs  []*centroid.Centroid
	n     []int
	exp   []time.Time // earliest expiry per group
	cnt   map[string]int
	total int
}

func (w *vworld) snap() vsnap {
	var s vsnap
	for _, c := range w.cm.Centroids {
		s.refs = append(s.refs, c)
		s.n = append(s.n, len(c.DataPoints))
		var e time.Time
		for _, p := range c.DataPoints {
			if p.ExpireEnabled && (e.IsZero() || p.Expires.Before(e)) {
				e = p.Expires
			}
		}
		s.exp = append(s.exp, e)
		s.total += len(c.DataPoints)
	}
	s.cnt = vcount(w.all())
	return s
}

func (s vsnap) expired(t time.Time) bool {
	for i := range s.exp {
		if s.expiredAt(i, t) {
			return true
		}
	}
	return false
}

func (s vsnap) expiredAt(i int, t time.Time) bool { return !s.exp[i].IsZero() && t.After(s.exp[i]) }

func (s vsnap) index(c *centroid.Centroid) int {
	for i, x := range s.refs {
		if x == c {
			return i
		}
	}
	return -1
}

func (w *vworld) step(thr int) {
	r := w.d.r
	if r.Intn(8) == 0 && w.expiry {
		time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
	}
	op := r.Intn(26)
	w.d.kind("op%d", op)
	cm := w.cm
	pre := w.snap()
	live := func(ds []common.DataPoint, t0 time.Time) {
		for _, p := range ds {
			w.chk("C06", !vexpired(p, t0), "expired point %v returned", p)
		}
	}
	purged := func(t0 time.Time) {
		for _, p := range w.all() {
			w.chk("C06", !vexpired(p, t0), "expired point %v still stored", p)
		}
	}
	t0 := time.Now()
	switch op {
	case 0, 1, 2, 3, 4, 5, 6, 7, 8, 9:
		dim := w.dim
		if r.Intn(12) == 0 {
			dim = r.Intn(4)
		}
		p := w.point(dim)
		if a := w.all(); len(a) > 0 && r.Intn(8) == 0 {
			p = a[r.Intn(len(a))]
		}
		w.log = append(w.log, fmt.Sprintf("add %v", p))
		t0 = time.Now()
		first := len(cm.Centroids) == 0
		ok := cm.AddDataPoint(p)
		t1 := time.Now()
		if first && ok {
			w.dim = len(p.Vec)
		}
		if vexpired(p, t0) {
			w.chk("C06", !ok, "expired point %v accepted", p)
			w.chk("C07", !ok, "expired point %v accepted", p)
		} else if !vexpired(p, t1) {
			want := first || len(p.Vec) == len(pre.refs[0].Vec())
			w.chk("C07", ok == want, "point %v: accepted %v, expected %v", p, ok, want)
		}
		if ok {
			w.pts[vid(p)] = p
			w.model[vid(p)]++
		}
		w.chk("C11", len(cm.Centroids) <= len(pre.refs)+1, "%d groups became %d", len(pre.refs), len(cm.Centroids))
		w.after(nil, t1, true)
	case 10, 11:
		n := w.num()
		w.log = append(w.log, fmt.Sprintf("drain%d %d", op, n))
		var out []common.DataPoint
		if op == 10 {
			out = cm.DrainUnordered(n)
		} else {
			out = cm.DrainOrdered(n)
		}
		t1 := time.Now()
		live(out, t0)
		w.chk("C09", len(out) <= vmax0(n), "asked for %d points, got %d", n, len(out))
		if !pre.expired(t1) {
			w.chk("C09", len(out) == vmin(vmax0(n), pre.total), "drain of %d of %d points returned %d", n, pre.total, len(out))
			if len(cm.Centroids) == len(pre.refs) {
				lo, hi := 1<<50, 0
				for i, c := range cm.Centroids {
					g := pre.n[i] - len(c.DataPoints)
					if g > hi {
						hi = g
					}
					if len(c.DataPoints) > 0 && g < lo {
						lo = g
					}
				}
				w.chk("C09", lo >= hi-1, "uneven drain of %d from groups of sizes %v: one gave %d, another with points left %d", n, pre.n, hi, lo)
			}
		}
		w.after(out, t1, true)
	case 12:
		w.log = append(w.log, "expire")
		cm.Expire()
		t1 := time.Now()
		purged(t0)
		w.after(nil, t1, true)
	case 13:
		w.log = append(w.log, "memtrim")
		cm.MemTrim()
		t1 := time.Now()
		purged(t0)
		w.chk("C11", len(cm.Centroids) <= len(pre.refs), "trimming added groups")
		for _, c := range cm.Centroids {
			w.chk("C11", len(c.DataPoints) > 0, "empty group kept by trimming")
			w.chk("C11", pre.index(c) >= 0, "new group after trimming")
		}
		now := w.snap()
		for i, c := range pre.refs {
			if pre.n[i] > 0 && !pre.expiredAt(i, t1) {
				w.chk("C11", now.index(c) >= 0, "group with %d live points lost by trimming", pre.n[i])
			}
		}
		w.after(nil, t1, true)
	case 14:
		w.log = append(w.log, "move")
		cm.MoveVector()
		w.after(nil, time.Now(), true)
	case 15, 16:
		lim, mod, cnt, chosen := r.Intn(6), 1+r.Intn(3), 0, 0
		w.log = append(w.log, fmt.Sprintf("split >%d mod %d", lim, mod))
		cm.SplitCentroids(func(c *centroid.Centroid) bool {
			cnt++
			ok := c.LenDP() > lim && cnt%mod == 0
			if ok {
				chosen++
			}
			return ok
		})
		t1 := time.Now()
		w.chk("C11", len(cm.Centroids) <= len(pre.refs)+chosen, "%d groups, %d chosen, became %d", len(pre.refs), chosen, len(cm.Centroids))
		now := w.snap()
		for i, c := range pre.refs {
			k := now.index(c)
			w.chk("C11", k >= 0, "group lost by splitting")
			if k >= 0 && !pre.expiredAt(i, t1) {
				w.chk("C11", pre.n[i]-now.n[k] <= pre.n[i]/2, "splitting moved %d of %d points", pre.n[i]-now.n[k], pre.n[i])
			}
		}
		w.after(nil, t1, true)
	case 17, 18:
		lim := r.Intn(8)
		w.log = append(w.log, fmt.Sprintf("merge <%d", lim))
		cm.MergeCentroids(func(c *centroid.Centroid) bool { return c.LenDP() < lim })
		t1 := time.Now()
		w.chk("C11", len(cm.Centroids) <= len(pre.refs), "merging added groups")
		for _, c := range cm.Centroids {
			w.chk("C11", pre.index(c) >= 0, "new group after merging")
		}
		w.after(nil, t1, true)
	case 19, 20:
		dim := len(cm.Vec())
		if r.Intn(10) == 0 {
			dim = r.Intn(4)
		}
		q, k, drain := w.vec(dim), w.num(), r.Intn(2) == 0
		w.log = append(w.log, fmt.Sprintf("lookup %v %d %v", q, k, drain))
		res := cm.KNNLookup(q, k, drain)
		t1 := time.Now()
		live(res, t0)
		w.chk("C10", len(res) <= vmax0(k), "lookup of %d returned %d points", k, len(res))
		rc, hc := vcount(res), vcount(w.all())
		for id, n := range rc {
			w.chk("C10", n <= pre.cnt[id], "point %s returned %d times, stored %d times", id, n, pre.cnt[id])
		}
		for id, n := range pre.cnt {
			if drain {
				n -= rc[id]
			}
			if !vexpired(w.pts[id], t1) {
				w.chk("C10", hc[id] == n, "point %s stored %d times after the lookup, expected %d", id, hc[id], n)
			} else {
				w.chk("C10", hc[id] <= n, "point %s stored %d times after the lookup, expected at most %d", id, hc[id], n)
			}
		}
		if len(pre.refs) > 0 && dim == len(pre.refs[0].Vec()) && !pre.expired(t1) {
			w.chk("C10", len(res) == vmin(vmax0(k), pre.total), "lookup of %d in %d points returned %d", k, pre.total, len(res))
		}
		if drain {
			w.after(res, t1, true)
		} else {
			w.after(nil, t1, true)
		}
	case 21, 22:
		dim := len(cm.Vec())
		if r.Intn(10) == 0 {
			dim = r.Intn(4)
		}
		n, drain := r.Intn(len(cm.Centroids)+3)-1, r.Intn(2) == 0
		q := w.vec(dim)
		w.log = append(w.log, fmt.Sprintf("nearest %v %d %v", q, n, drain))
		res, ok := cm.NearestCentroids(q, n, drain)
		t1 := time.Now()
		w.chk("C11", len(res) <= vmax0(n), "asked for %d groups, got %d", n, len(res))
		taken := map[*centroid.Centroid]bool{}
		var out []common.DataPoint
		for _, c := range res {
			w.chk("C11", !taken[c], "a group is returned twice")
			taken[c] = true
			w.chk("C11", pre.index(c) >= 0, "unknown group returned")
			out = append(out, c.DataPoints...)
		}
		now := w.snap()
		for _, c := range pre.refs {
			want := !(drain && ok && taken[c])
			w.chk("C11", (now.index(c) >= 0) == want, "group listed: %v, expected %v", now.index(c) >= 0, want)
		}
		w.chk("C11", len(now.refs) == len(pre.refs) || (drain && len(now.refs) == len(pre.refs)-len(res)), "%d groups became %d", len(pre.refs), len(now.refs))
		if drain {
			w.after(out, t1, true)
		} else {
			w.after(nil, t1, true)
		}
	case 23:
		n := w.num()
		w.log = append(w.log, fmt.Sprintf("internal %d", n))
		cm.DistributeDataPointsInternal(n)
		w.after(nil, time.Now(), true)
	default:
		n := w.num()
		var recv []common.DataPointReceiver
		var stubs []*vrecv
		for k := r.Intn(4); k > 0; k-- {
			if len(cm.Centroids) > 0 && r.Intn(4) == 0 {
				recv = append(recv, cm.Centroids[r.Intn(len(cm.Centroids))])
				continue
			}
			p := r.Intn(3)
			st := &vrecv{vec: w.vec(len(cm.Vec())), acc: func() bool { return r.Intn(2) < p }}
			stubs = append(stubs, st)
			recv = append(recv, st)
		}
		w.log = append(w.log, fmt.Sprintf("distribute %d to %d (%d stubs)", n, len(recv), len(stubs)))
		cm.DistributeDataPoints(n, recv)
		t1 := time.Now()
		var out []common.DataPoint
		for _, st := range stubs {
			out = append(out, st.got...)
		}
		w.chk("C14", len(out) <= vmax0(n), "distributing %d points gave away %d", n, len(out))
		w.after(out, t1, true)
	}
	_ = sort.Ints
}

func vmanager(t *testing.T, prop string) {
	d := vdNew(t)
	for i := 0; d.more(i, 6000); i++ {
		w := &vworld{d: d, prop: prop, pts: map[string]common.DataPoint{}, model: map[string]int{}}
		d.guard(func() string { return fmt.Sprint(w.log) }, func() { w.run() })
	}
	d.done()
}

func TestVerifC04(t *testing.T) { vmanager(t, "C04") }
func TestVerifC06(t *testing.T) { vmanager(t, "C06") }
func TestVerifC07(t *testing.T) { vmanager(t, "C07") }
func TestVerifC08(t *testing.T) { vmanager(t, "C08") }
func TestVerifC09(t *testing.T) { vmanager(t, "C09") }
func TestVerifC10(t *testing.T) { vmanager(t, "C10") }
func TestVerifC11(t *testing.T) { vmanager(t, "C11") }
func TestVerifC14(t *testing.T) { vmanager(t, "C14") }
func TestVerifC24(t *testing.T) { vmanager(t, "C24") }
