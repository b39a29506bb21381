package rpc

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/searchutils"
)

// Requests on real servers, called directly; other nodes are scripted.

func vManager(threshold int) func(vec []float64) *CentroidManager {
	return func(vec []float64) *CentroidManager {
		cm, ok := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
			InitVec: vec, CentroidDPThreshold: threshold,
			KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos,
		})
		if !ok {
			panic("no manager")
		}
		return &cm
	}
}

func vGroupFactory(vec []float64) *centroid.Centroid {
	c, ok := centroid.NewCentroid(centroid.NewCentroidArgs{InitVec: vec, InitCap: 10,
		KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos})
	if !ok {
		panic("no group")
	}
	return &c
}

func vPid(p common.DataPoint) string {
	return fmt.Sprintf("%s%v", p.Payload, p.Vec)
}

func vPids(ps []common.DataPoint) string {
	var r []string
	for _, p := range ps {
		r = append(r, vPid(p))
	}
	sort.Strings(r)
	return strings.Join(r, ";")
}

func vRound(v []float64) string {
	if v == nil {
		return "nil"
	}
	s := ""
	for _, x := range v {
		s += fmt.Sprintf("%.5f ", math.Round(x*1e5)/1e5+0)
	}
	return s
}

// vContent: all points of a manager, as a multiset.
func vContent(cm *CentroidManager) map[string]int {
	r := map[string]int{}
	for _, c := range cm.Centroids {
		for _, p := range c.DataPoints {
			r[vPid(p)]++
		}
	}
	return r
}

func vSumm(m map[string]int) string {
	var k []string
	for x, n := range m {
		if n != 0 {
			k = append(k, fmt.Sprintf("%s*%d", x, n))
		}
	}
	sort.Strings(k)
	return strings.Join(k, ";")
}

// vExact: the whole state of a manager.
func vExact(cm *CentroidManager) string {
	s := vRound(cm.Vec())
	for _, c := range cm.Centroids {
		s += "|" + vRound(c.Vec())
		for _, p := range c.DataPoints {
			s += ";" + vPid(p)
		}
	}
	return s
}

func vClone(f func([]float64) *CentroidManager, cm *CentroidManager) *CentroidManager {
	n := f(cm.Vec())
	for _, c := range cm.Centroids {
		g := vGroupFactory(c.Vec())
		g.DataPoints = append(g.DataPoints, c.DataPoints...)
		n.Centroids = append(n.Centroids, g)
	}
	return n
}

func vPeek(s *KMeansServer, ns string) *CentroidManager {
	var r *CentroidManager
	s.Table.Access(ns, func(cm *CentroidManager) { r = cm })
	return r
}

func vNames(s *KMeansServer) string {
	n := s.Table.Namespaces()
	sort.Strings(n)
	return fmt.Sprintf("%q", n)
}

// vLocked names a lock of the server that is held right now.
func vLocked(s *KMeansServer) string {
	if !s.Table.TryLock() {
		return "table lock"
	}
	defer s.Table.Unlock()
	for ns, slot := range s.Table.slots {
		if !slot.TryLock() {
			return fmt.Sprintf("lock of namespace %q", ns)
		}
		slot.Unlock()
	}
	return ""
}

var vNSs = []string{"a", "b", "", "a/b"}

func vFill(d *vd, s *KMeansServer, dim, most int, expiry bool) {
	for _, ns := range vNSs[:1+d.r.Intn(3)] {
		for k := 1 + d.r.Intn(most); k > 0; k-- {
			p := vPoint(d, dim)
			if expiry && d.r.Intn(5) == 0 {
				p.ExpireEnabled, p.Expires = true, time.Now().Add(200*time.Microsecond)
			}
			var ok bool
			s.AddDataPoint(AddDataPointArgs{NameSpace: ns, DP: p}, &ok)
		}
	}
}

func vServer(d *vd) (*KMeansServer, func([]float64) *CentroidManager) {
	f := vManager([]int{3, 10, 1000}[d.r.Intn(3)])
	return NewKMeansServer("127.0.0.1:0", f), f
}

// one request with random arguments: returns a description, the server call
// (a textual reply) and the collection operation of the same name
type vReq struct {
	desc  string
	ns    string
	serve func() (string, error)
	local func(cm *CentroidManager) string
	exact bool // the operation is deterministic
}

func vRequest(d *vd, s *KMeansServer, dim int) vReq {
	ns := vNSs[d.r.Intn(len(vNSs))]
	if d.r.Intn(7) == 0 {
		ns = "missing"
	}
	n, n2 := vInt(d), vInt(d)
	if d.r.Intn(2) == 0 {
		n, n2 = d.r.Intn(6), d.r.Intn(12)
	}
	v, b := vVec(d, dim), d.r.Intn(2) == 0
	mk := func(name string, args interface{}, exact bool, serve func() (string, error), local func(cm *CentroidManager) string) vReq {
		return vReq{fmt.Sprintf("%s(ns=%q %v)", name, ns, args), ns, serve, local, exact}
	}
	switch d.r.Intn(14) {
	case 0:
		return mk("Vec", "", true, func() (string, error) {
			var r []float64
			e := s.Vec(ns, &r)
			return vRound(r), e
		}, func(cm *CentroidManager) string { return vRound(cm.Vec()) })
	case 1:
		return mk("DrainUnordered", n, true, func() (string, error) {
			var r []DataPoint
			e := s.DrainUnordered(DrainArgs{NameSpace: ns, N: n}, &r)
			return vPids(r), e
		}, func(cm *CentroidManager) string { return vPids(cm.DrainUnordered(n)) })
	case 2:
		return mk("DrainOrdered", n, true, func() (string, error) {
			var r []DataPoint
			e := s.DrainOrdered(DrainArgs{NameSpace: ns, N: n, Ordered: b}, &r)
			return vPids(r), e
		}, func(cm *CentroidManager) string { return vPids(cm.DrainOrdered(n)) })
	case 3:
		return mk("Expire", "", true, func() (string, error) { return "", s.Expire(ns, nil) }, func(cm *CentroidManager) string { cm.Expire(); return "" })
	case 4, 5:
		return mk("LenDP", "", true, func() (string, error) {
			var r int
			e := s.LenDP(ns, &r)
			return fmt.Sprint(r), e
		}, func(cm *CentroidManager) string { return fmt.Sprint(cm.LenDP()) })
	case 6:
		return mk("MemTrim", "", true, func() (string, error) { return "", s.MemTrim(ns, nil) }, func(cm *CentroidManager) string { cm.MemTrim(); return "" })
	case 7:
		return mk("MoveVector", "", true, func() (string, error) {
			var r bool
			e := s.MoveVector(ns, &r)
			return fmt.Sprint(r), e
		}, func(cm *CentroidManager) string { return fmt.Sprint(cm.MoveVector()) })
	case 8:
		return mk("DistributeDataPointsInternal", n, false, func() (string, error) {
			return "", s.DistributeDataPointsInternal(DistribDPIArgs{NameSpace: ns, N: n}, nil)
		}, func(cm *CentroidManager) string { cm.DistributeDataPointsInternal(n); return "" })
	case 9:
		return mk("KNNLookup", fmt.Sprint(v, n, b), true, func() (string, error) {
			var r []DataPoint
			e := s.KNNLookup(KNNLookupArgs{NameSpace: ns, Vec: v, K: n, Drain: b}, &r)
			x := ""
			for _, p := range r {
				x += vPid(p) + ";"
			}
			return x, e
		}, func(cm *CentroidManager) string {
			x := ""
			for _, p := range cm.KNNLookup(v, n, b) {
				x += vPid(p) + ";"
			}
			return x
		})
	case 10:
		return mk("NearestCentroids", fmt.Sprint(v, n, b), true, func() (string, error) {
			var r []*Centroid
			e := s.NearestCentroids(NearestCentroidArgs{NameSpace: ns, Vec: v, N: n, Drain: b}, &r)
			x := ""
			for _, c := range r {
				x += "|" + vPids(c.DataPoints)
			}
			return x, e
		}, func(cm *CentroidManager) string {
			x := ""
			gs, _ := cm.NearestCentroids(v, n, b)
			for _, c := range gs {
				x += "|" + vPids(c.DataPoints)
			}
			return x
		})
	case 11:
		return mk("NearestCentroidVec", v, true, func() (string, error) {
			var r []float64
			e := s.NearestCentroidVec(NearestCentroidVecArgs{NameSpace: ns, Vec: v}, &r)
			return vRound(r), e
		}, func(cm *CentroidManager) string {
			gs, _ := cm.NearestCentroids(v, 1, false)
			if len(gs) == 0 {
				return "nil"
			}
			return vRound(gs[0].Vec())
		})
	case 12:
		return mk("SplitCentroids", fmt.Sprint(n, n2), true, func() (string, error) {
			return "", s.SplitCentroids(SplitCentroidsArgs{NameSpace: ns, DPRangeMin: n, DPRangeMax: n2}, nil)
		}, func(cm *CentroidManager) string {
			cm.SplitCentroids(func(c *Centroid) bool { return c.LenDP() > n && c.LenDP() < n2 })
			return ""
		})
	}
	return mk("MergeCentroids", fmt.Sprint(n, n2), true, func() (string, error) {
		return "", s.MergeCentroids(SplitCentroidsArgs{NameSpace: ns, DPRangeMin: n, DPRangeMax: n2}, nil)
	}, func(cm *CentroidManager) string {
		cm.MergeCentroids(func(c *Centroid) bool { return c.LenDP() > n && c.LenDP() < n2 })
		return ""
	})
}

// C13: a request acts on its own namespace only, as the operation of the same
// name on the collection.
func TestVerifC13(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	for i := 0; d.more(i, 1500); i++ {
		dim := 1 + d.r.Intn(3)
		s, f := vServer(d)
		vFill(d, s, dim, 14, false)
		hist := ""
		for k := 1 + d.r.Intn(6); k > 0; k-- {
			rq := vRequest(d, s, dim)
			hist += " " + rq.desc
			before := map[string]string{}
			var model *CentroidManager
			for _, ns := range s.Table.Namespaces() {
				before[ns] = vExact(vPeek(s, ns))
				if ns == rq.ns {
					model = vClone(f, vPeek(s, ns))
				}
			}
			names := vNames(s)
			d.kind("%s %v", strings.SplitN(rq.desc, "(", 2)[0], model != nil)
			d.guard(func() string { return hist }, func() {
				got, err := rq.serve()
				if model == nil {
					var nse NamespaceErr
					if !errors.As(err, &nse) {
						d.fail("no namespace error (%v) for a missing namespace:%s", err, hist)
					}
				} else {
					want := rq.local(model)
					if err != nil {
						d.fail("error %v for an existing namespace:%s", err, hist)
					}
					if got != want {
						d.fail("reply %q, the collection's operation returns %q; state %s; history:%s", got, want, before[rq.ns], hist)
					}
					if vPeek(s, rq.ns) != nil {
						if a, b := vSumm(vContent(vPeek(s, rq.ns))), vSumm(vContent(model)); a != b {
							d.fail("namespace holds %s, the operation leaves %s; history:%s", a, b, hist)
						}
						if a, b := vExact(vPeek(s, rq.ns)), vExact(model); rq.exact && vSortGroups(a) != vSortGroups(b) {
							d.fail("namespace is %s, the operation leaves %s; before %s; history:%s", a, b, before[rq.ns], hist)
						}
					}
				}
				if vNames(s) != names {
					d.fail("namespaces were %s, are %s;%s", names, vNames(s), hist)
				}
				for ns, b := range before {
					if cm := vPeek(s, ns); ns != rq.ns && (cm == nil || vExact(cm) != b) {
						d.fail("namespace %q changed by a request for another one: %s", ns, hist)
					}
				}
			})
		}
	}
}

// vSortGroups: a state up to the order of groups and points.
func vSortGroups(s string) string {
	g := strings.Split(s, "|")
	for i := 1; i < len(g); i++ {
		p := strings.Split(g[i], ";")
		sort.Strings(p[1:])
		g[i] = strings.Join(p, ";")
	}
	sort.Strings(g[1:])
	return strings.Join(g, "|")
}

// C12: a put is acknowledged exactly when the node stored it.
func TestVerifC12(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	for i := 0; d.more(i, 1500); i++ {
		dim := 1 + d.r.Intn(3)
		s, f := vServer(d)
		vFill(d, s, dim, 6, false)
		if i%3 != 0 {
			// one after the other
			want := map[string]map[string]int{}
			for _, ns := range s.Table.Namespaces() {
				want[ns] = vContent(vPeek(s, ns))
			}
			hist := ""
			for k := 1 + d.r.Intn(8); k > 0; k-- {
				p, ns := vPoint(d, dim), append(vNSs, "new")[d.r.Intn(5)]
				switch d.r.Intn(6) {
				case 0:
					p.ExpireEnabled, p.Expires = true, time.Now().Add(-time.Hour)
				case 1:
					p.Vec = vVec(d, dim+1)
				}
				ok := d.r.Intn(2) == 0
				hist += fmt.Sprintf(" put(ns=%q %v expired=%v)", ns, p.Vec, p.Expired())
				d.guard(func() string { return hist }, func() { s.AddDataPoint(AddDataPointArgs{NameSpace: ns, DP: p}, &ok) })
				if want[ns] == nil {
					want[ns] = map[string]int{}
				}
				if ok {
					want[ns][vPid(p)]++
				}
				cm := vPeek(s, ns)
				if cm == nil {
					d.fail("namespace %q was not created:%s", ns, hist)
					break
				}
				if !ok && !p.Expired() && len(cm.Vec()) == len(p.Vec) {
					d.fail("put refused:%s", hist)
				}
				d.kind("seq ok=%v exp=%v", ok, p.Expired())
				for ns, w := range want {
					if cm := vPeek(s, ns); cm == nil || vSumm(vContent(cm)) != vSumm(w) {
						d.fail("namespace %q does not hold exactly the acknowledged points %s;%s", ns, vSumm(w), hist)
					}
				}
			}
			continue
		}
		// a slot offered for a name in use never replaces the data there
		if d.r.Intn(2) == 0 {
			ns := vNSs[0]
			old := vPeek(s, ns)
			b := vExact(old)
			r := s.Table.AddSlot(ns, &CManagerSlot{cManager: f(vVec(d, dim))})
			if vPeek(s, ns) != old || vExact(old) != b || r {
				d.fail("AddSlot(%q) replaced the data of a namespace in use (returned %v)", ns, r)
			}
			d.kind("slot")
			d.cases++
			continue
		}
		// concurrent puts into a new namespace: all of them find it missing
		// before any of them creates it
		n := 2 + d.r.Intn(3)
		var wg, at sync.WaitGroup
		at.Add(n)
		var once sync.Map
		s.CentroidManagerFactoryFunc = func(vec []float64) *CentroidManager {
			if _, dup := once.LoadOrStore(fmt.Sprint(vec), true); !dup {
				at.Done()
				c := make(chan bool)
				go func() { at.Wait(); close(c) }()
				select {
				case <-c:
				case <-time.After(20 * time.Millisecond):
				}
			}
			return f(vec)
		}
		acked := make([]bool, n)
		pts := make([]common.DataPoint, n)
		for k := range pts {
			pts[k] = vPoint(d, dim)
			pts[k].Vec[0] = float64(100 + k)
		}
		if !d.timed(func() string { return fmt.Sprintf("%d concurrent puts into a new namespace", n) }, 20*time.Second, func() {
			for k := range pts {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					s.AddDataPoint(AddDataPointArgs{NameSpace: "fresh", DP: pts[k]}, &acked[k])
				}(k)
			}
			wg.Wait()
		}) {
			return
		}
		d.kind("concurrent %d", n)
		want := map[string]int{}
		for k, ok := range acked {
			if ok {
				want[vPid(pts[k])]++
			} else {
				d.fail("concurrent put %d of %d refused", k, n)
			}
		}
		if got := vSumm(vContent(vPeek(s, "fresh"))); got != vSumm(want) {
			d.fail("%d concurrent puts into a new namespace: acknowledged %s, stored %s", n, vSumm(want), got)
		}
	}
}
