package rpc

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"
	"time"
	"trypo/pkg/kmeans/common"
)

func vVec(d *vd, dim int) []float64 {
	v := make([]float64, dim)
	for i := range v {
		v[i] = float64(d.r.Intn(19) - 6)
		if d.r.Intn(3) == 0 {
			v[i] = d.r.NormFloat64()
		}
	}
	return v
}

func vInt(d *vd) int {
	switch d.r.Intn(6) {
	case 0:
		return -d.r.Intn(9)
	case 1:
		return 0
	case 2:
		return 1 << uint(d.r.Intn(40))
	}
	return 1 + d.r.Intn(40)
}

var vSerial int

func vPoint(d *vd, dim int) common.DataPoint {
	vSerial++
	p := common.DataPoint{Vec: vVec(d, dim), Payload: []byte(fmt.Sprint("p", vSerial))}
	if d.r.Intn(2) == 0 {
		p.ExpireEnabled = true
		p.Expires = time.Now().Add(time.Duration(1+d.r.Intn(1000)) * time.Hour)
	}
	return p
}

func vPoints(d *vd, n, dim int) []common.DataPoint {
	var r []common.DataPoint
	for i := 0; i < n; i++ {
		r = append(r, vPoint(d, dim))
	}
	return r
}

func vSamePoint(a, b common.DataPoint) bool {
	return fmt.Sprint(a.Vec) == fmt.Sprint(b.Vec) && bytes.Equal(a.Payload, b.Payload) && a.ExpireEnabled == b.ExpireEnabled && a.Expires.Equal(b.Expires)
}

func vSamePoints(a, b []common.DataPoint) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vSamePoint(a[i], b[i]) {
			return false
		}
	}
	return true
}

func vSameEv(a, b vEv) bool {
	return a.Meth == b.Meth && a.NS == b.NS && vSamePoint(a.DP, b.DP) && fmt.Sprint(a.V) == fmt.Sprint(b.V) && a.N == b.N && a.N2 == b.N2 && a.B == b.B && fmt.Sprint(a.L) == fmt.Sprint(b.L) && a.S == b.S
}

var vNeeds = map[string][]string{
	"AddDataPoint": {"NameSpace", "DP"}, "DrainUnordered": {"NameSpace", "N"}, "DrainOrdered": {"NameSpace", "N"},
	"DistributeDataPointsFast": {"NameSpace", "N", "AddrOptions"}, "DistributeDataPointsAccurate": {"NameSpace", "N", "AddrOptions"},
	"DistributeDataPointsInternal": {"NameSpace", "N"}, "KNNLookup": {"NameSpace", "Vec", "K", "Drain"},
	"NearestCentroids": {"NameSpace", "Vec", "N", "Drain"}, "NearestCentroidVec": {"NameSpace", "Vec"},
	"SplitCentroids": {"NameSpace", "DPRangeMin", "DPRangeMax"}, "MergeCentroids": {"NameSpace", "DPRangeMin", "DPRangeMax"},
	"StealCentroid": {"NameSpace", "FromAddr", "TransferDPLimit"},
}

// every client operation against a scripted node
func TestVerifC22(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	log := &vLog{}
	var rep vRep
	node, err := vListen(log, func(vEv) vRep { return rep })
	if err != nil {
		fmt.Println("no loopback network:", err)
		return
	}
	defer node.stop()
	// the server answers to the same names with the same wire format
	ft, st := reflect.TypeOf(&vSvc{}), reflect.TypeOf(&KMeansServer{})
	for k := 0; k < ft.NumMethod(); k++ {
		fm := ft.Method(k)
		d.cases++
		sm, ok := st.MethodByName(fm.Name)
		if !ok || sm.Type.NumIn() != 3 || sm.Type.NumOut() != 1 {
			d.fail("the server has no operation %s", fm.Name)
			continue
		}
		fa, sa := fm.Type.In(1), sm.Type.In(1)
		if fa.Kind() != sa.Kind() {
			d.fail("operation %s: argument is %v on the server, the client sends %v", fm.Name, sa, fa)
			continue
		}
		if fa.Kind() == reflect.Struct {
			for j := 0; j < sa.NumField(); j++ {
				f, ok := fa.FieldByName(sa.Field(j).Name)
				if ok && f.Type.Kind() != sa.Field(j).Type.Kind() {
					d.fail("operation %s: argument field %s has another type on the server", fm.Name, f.Name)
				}
			}
			for _, need := range vNeeds[fm.Name] {
				if _, ok := sa.FieldByName(need); !ok {
					d.fail("operation %s: the server does not take %s", fm.Name, need)
				}
			}
		}
	}
	dead := vDead()
	nss := []string{"a", "b", "", "a/b", "other namespace"}
	for i := 0; d.more(i, 2500); i++ {
		rep = vRep{B: d.r.Intn(2) == 0, N: vInt(d), V: vVec(d, 1+d.r.Intn(4)), L: nil}
		switch d.r.Intn(8) {
		case 0:
			rep.Err = "some error"
		case 1:
			rep.Hang = true
		}
		for k := d.r.Intn(4); k > 0; k-- {
			rep.L = append(rep.L, fmt.Sprint("s", d.r.Intn(100)))
		}
		dim := 1 + d.r.Intn(4)
		rep.DPs = vPoints(d, d.r.Intn(4), dim)
		for k := d.r.Intn(5); k > 0; k-- {
			rep.Groups = append(rep.Groups, vPoints(d, d.r.Intn(3), dim))
		}
		rep.M1 = map[string]int{"x": d.r.Intn(50), "y": d.r.Intn(50)}
		rep.M2 = map[string]int{"x": d.r.Intn(50), "z": d.r.Intn(50)}
		addr := node.addr
		gone := d.r.Intn(10) == 0
		if gone {
			addr = dead
		}
		bad := gone || rep.Err != "" || rep.Hang
		ns := nss[d.r.Intn(len(nss))]
		v, n, n2, b, s, l, dp := vVec(d, dim), vInt(d), vInt(d), d.r.Intn(2) == 0, fmt.Sprint("addr", d.r.Intn(9)), []string{"q", fmt.Sprint(d.r.Intn(9))}, vPoint(d, dim)
		var e error
		if d.r.Intn(5) == 0 {
			e = fmt.Errorf("old error")
		}
		cl := KMeansClient(addr, ns, &e)
		var want vEv
		got := ""
		exp := ""
		op := d.r.Intn(19)
		d.kind("%d %v %v", op, bad, gone)
		zero := func(f string, a interface{}, z interface{}) string {
			if bad {
				return fmt.Sprintf(f, z)
			}
			return fmt.Sprintf(f, a)
		}
		d.guard(func() string { return fmt.Sprint(want, " reply ", rep) }, func() {
			switch op {
			case 0:
				want = vEv{Meth: "Namespaces"}
				got, exp = fmt.Sprint(cl.Namespaces()), zero("%v", rep.L, []string(nil))
			case 1:
				want = vEv{Meth: "Vec", NS: ns}
				got, exp = fmt.Sprint(cl.Vec()), zero("%v", rep.V, []float64(nil))
			case 2:
				want = vEv{Meth: "AddDataPoint", NS: ns, DP: dp}
				got, exp = fmt.Sprint(cl.AddDataPoint(dp)), zero("%v", rep.B, false)
			case 3, 4, 5:
				var r []common.DataPoint
				if op == 3 {
					want = vEv{Meth: "DrainUnordered", NS: ns, N: n}
					r = cl.DrainUnordered(n)
				} else if op == 4 {
					want = vEv{Meth: "DrainOrdered", NS: ns, N: n}
					r = cl.DrainOrdered(n)
				} else {
					want = vEv{Meth: "KNNLookup", NS: ns, V: v, N: n, B: b}
					r = cl.KNNLookup(v, n, b)
				}
				x := rep.DPs
				if bad {
					x = nil
				}
				if !vSamePoints(r, x) {
					d.fail("%v: reply %v came back as %v", want, x, r)
				}
			case 6:
				want = vEv{Meth: "Expire", NS: ns}
				cl.Expire()
			case 7:
				want = vEv{Meth: "LenDP", NS: ns}
				got, exp = fmt.Sprint(cl.LenDP()), zero("%v", rep.N, 0)
			case 8:
				want = vEv{Meth: "MemTrim", NS: ns}
				cl.MemTrim()
			case 9:
				want = vEv{Meth: "MoveVector", NS: ns}
				got, exp = fmt.Sprint(cl.MoveVector()), zero("%v", rep.B, false)
			case 10:
				want = vEv{Meth: "DistributeDataPointsFast", NS: ns, N: n, L: l}
				cl.DistributeDataPointsFast(l, n)
			case 11:
				want = vEv{Meth: "DistributeDataPointsAccurate", NS: ns, N: n, L: l}
				cl.DistributeDataPointsAccurate(l, n)
			case 12:
				want = vEv{Meth: "DistributeDataPointsInternal", NS: ns, N: n}
				cl.DistributeDataPointsInternal(n)
			case 13:
				want = vEv{Meth: "NearestCentroids", NS: ns, V: v, N: n, B: b}
				gs, ok := cl.NearestCentroids(v, n, b)
				if bad && (ok || len(gs) != 0) {
					d.fail("%v: success reported after an error", want)
				}
				if !ok && len(gs) != 0 {
					d.fail("%v: groups returned with a failure", want)
				}
				if !bad {
					var full [][]common.DataPoint
					for _, g := range rep.Groups {
						if len(g) > 0 {
							full = append(full, g)
						}
					}
					if len(gs) != len(full) {
						d.fail("%v: %d groups with points sent, %d received", want, len(full), len(gs))
						return
					}
					for k, g := range gs {
						if g == nil || g.LenDP() == 0 || !vSamePoints(g.DataPoints, full[k]) {
							d.fail("%v: group %d: sent %v", want, k, full[k])
							return
						}
						// usable: has the mean as its vector and takes points
						m := make([]float64, dim)
						for _, p := range full[k] {
							for c := range m {
								m[c] += p.Vec[c] / float64(len(full[k]))
							}
						}
						gv := g.Vec()
						for c := range m {
							if len(gv) != dim || gv[c]-m[c] > 1e-6 || m[c]-gv[c] > 1e-6 {
								d.fail("%v: group %d arrived with vector %v, mean is %v", want, k, gv, m)
								return
							}
						}
						if !g.AddDataPoint(vPoint(d, dim)) || len(g.KNNLookup(m, 1, false)) != 1 || len(g.DrainOrdered(1)) != 1 {
							d.fail("%v: group %d is not usable", want, k)
						}
					}
				}
			case 14:
				want = vEv{Meth: "NearestCentroidVec", NS: ns, V: v}
				got, exp = fmt.Sprint(cl.NearestCentroidVec(v)), zero("%v", rep.V, []float64(nil))
			case 15:
				want = vEv{Meth: "SplitCentroids", NS: ns, N: n, N2: n2}
				cl.SplitCentroids(n, n2)
			case 16:
				want = vEv{Meth: "MergeCentroids", NS: ns, N: n, N2: n2}
				cl.MergeCentroids(n, n2)
			case 17:
				want = vEv{Meth: "StealCentroid", NS: ns, S: s, N: n}
				x, ok := cl.StealCentroids(s, n)
				got, exp = fmt.Sprint(x, ok), zero("%v", fmt.Sprint(rep.N, rep.B), fmt.Sprint(0, false))
			case 18:
				want = vEv{Meth: "Meta"}
				m := cl.Meta()
				got, exp = fmt.Sprint(m.Centroids, m.DPs), zero("%v", fmt.Sprint(rep.M1, rep.M2), fmt.Sprint(map[string]int(nil), map[string]int(nil)))
			}
		})
		if got != exp {
			d.fail("%v: reply %v expected, %v returned", want, exp, got)
		}
		if bad != (e != nil) {
			d.fail("%v: failed=%v but error reported is %v", want, bad, e)
		}
		evs := log.take()
		if gone {
			if len(evs) != 0 {
				d.fail("request %v sent to another node", evs)
			}
			continue
		}
		if len(evs) != 1 || !vSameEv(evs[0], want) {
			d.fail("request %v expected, sent %v", want, evs)
		}
	}
}
