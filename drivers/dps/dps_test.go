package dps

import (
	"bytes"
	"fmt"
	"math"
	"net"
	"testing"
	"time"
	"trypo/pkg/searchutils"
)

func vAddr(a string) Addr {
	h, p, _ := net.SplitHostPort(a)
	return Addr{h, p}
}

var vSerial int

func vPoint(d *vd, dim int) DataPoint {
	vSerial++
	p := DataPoint{Vec: make([]float64, dim), Payload: []byte(fmt.Sprint("p", vSerial))}
	for j := range p.Vec {
		p.Vec[j] = float64(d.r.Intn(21)-10) + 0.25
	}
	if d.r.Intn(3) == 0 {
		p.ExpireEnabled, p.Expires = true, time.Now().Add(time.Hour)
	}
	return p
}

func vPoints(d *vd, n, dim int) []DataPoint {
	var r []DataPoint
	for ; n > 0; n-- {
		r = append(r, vPoint(d, dim))
	}
	return r
}

func vSame(a, b DataPoint) bool {
	return fmt.Sprint(a.Vec) == fmt.Sprint(b.Vec) && bytes.Equal(a.Payload, b.Payload) && a.ExpireEnabled == b.ExpireEnabled && a.Expires.Equal(b.Expires)
}

// vNet: scripted nodes, some of the addresses dead.
type vNet struct {
	log    *vLog
	nodes  []*vNode
	byAddr map[string]*vNode
	script func(vEv) vRep
	dead   []string
}

func vNewNet(n int) *vNet {
	x := &vNet{log: &vLog{}, byAddr: map[string]*vNode{}}
	for k := 0; k < n; k++ {
		m, err := vListen(x.log, func(e vEv) vRep { return x.script(e) })
		if err != nil {
			fmt.Println("no loopback network:", err)
			return nil
		}
		x.nodes = append(x.nodes, m)
		x.byAddr[m.addr] = m
	}
	x.dead = []string{vDead(), vDead()}
	return x
}

func (x *vNet) stop() {
	for _, n := range x.nodes {
		n.stop()
	}
}

func (x *vNet) pick(d *vd) ([]Addr, map[string]int) {
	var r []Addr
	times := map[string]int{}
	for _, k := range d.r.Perm(len(x.nodes))[:d.r.Intn(len(x.nodes)+1)] {
		r = append(r, vAddr(x.nodes[k].addr))
	}
	if d.r.Intn(4) == 0 {
		r = append(r, vAddr(x.dead[d.r.Intn(2)]))
	}
	if len(r) > 0 && d.r.Intn(6) == 0 {
		r = append(r, r[d.r.Intn(len(r))])
	}
	d.r.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	for _, a := range r {
		times[a.ToStr()]++
	}
	return r, times
}

func vEuc(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += (a[i] - b[i]) * (a[i] - b[i])
	}
	return math.Sqrt(s)
}

// C16: a point ends on at most one node and the answer tells whether.
func TestVerifC16(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	x := vNewNet(6)
	if x == nil {
		return
	}
	defer x.stop()
	orders := map[string]int{}
	for i := 0; d.more(i, 900); i++ {
		dim := 1 + d.r.Intn(3)
		addrs, times := x.pick(d)
		vecs, mode, silent := map[*vNode][]float64{}, map[*vNode]int{}, map[*vNode]bool{}
		for _, n := range x.nodes {
			vecs[n] = vPoint(d, dim).Vec
			mode[n] = []int{0, 0, 0, 1, 2, 3, 3}[d.r.Intn(7)]
			silent[n] = d.r.Intn(6) == 0
		}
		if d.r.Intn(4) == 0 { // nobody takes it
			for _, n := range x.nodes {
				mode[n] %= 3
			}
		}
		variant := d.r.Intn(3)
		p, ns := vPoint(d, dim), []string{"a", "", "b c"}[d.r.Intn(3)]
		var took, offered []*vNode
		bad := ""
		x.script = func(e vEv) vRep {
			if e.NS != ns {
				bad = e.String()
			}
			switch e.Meth {
			case "Vec", "NearestCentroidVec":
				if silent[e.Node] {
					return vRep{Err: "namespace not found"}
				}
				if variant == 1 != (e.Meth == "Vec") || variant == 0 {
					bad = e.String()
				}
				return vRep{V: vecs[e.Node], Delay: time.Duration(d.r.Intn(300)) * time.Microsecond}
			case "AddDataPoint":
				offered = append(offered, e.Node)
				if !vSame(e.DP, p) {
					bad = e.String()
				}
				switch mode[e.Node] {
				case 1:
					return vRep{Err: "refused", B: true}
				case 2:
					return vRep{Hang: true}
				case 3:
					took = append(took, e.Node)
					return vRep{B: true}
				}
				return vRep{}
			}
			bad = e.String()
			return vRep{}
		}
		given := fmt.Sprint(addrs)
		args := PutDataPointArgs{AddrOptions: addrs, Namespace: ns, DataPoint: p, KNNSearchFunc: searchutils.KNNEuc}
		var ok bool
		name := []string{"Rand", "Fast", "Accurate"}[variant]
		what := func() string {
			var os []string
			for _, n := range offered {
				os = append(os, fmt.Sprintf("%s(%d)", n.addr, mode[n]))
			}
			return fmt.Sprintf("PutDataPoint%s of %v to %v: %v; offered to %v (0 refuses, 1 fails, 2 hangs up, 3 accepts), no vector %v, vectors %v", name, p.Vec, given, ok, os, silent, vecs)
		}
		if !d.timed(what, 20*time.Second, func() {
			switch variant {
			case 0:
				ok = PutDataPointRand(args)
			case 1:
				ok = PutDataPointFast(args)
			case 2:
				ok = PutDataPointAccurate(args)
			}
		}) {
			return
		}
		if bad != "" {
			d.fail("unexpected request %s in %s", bad, what())
		}
		if fmt.Sprint(addrs) != given {
			d.fail("the given list was changed to %v: %s", addrs, what())
		}
		if len(took) > 1 {
			d.fail("%d nodes accepted the point: %s", len(took), what())
		}
		if ok != (len(took) == 1) {
			d.fail("reported %v but %d nodes accepted the point: %s", ok, len(took), what())
		}
		if len(took) == 1 && offered[len(offered)-1] != took[0] {
			d.fail("offered on after it was accepted: %s", what())
		}
		cnt := map[string]int{}
		for j, n := range offered {
			cnt[n.addr]++
			if cnt[n.addr] > times[n.addr] {
				d.fail("offered to %s more often than it is listed: %s", n.addr, what())
			}
			if variant > 0 && silent[n] {
				d.fail("offered to a node that is no candidate: %s", what())
			}
			if variant > 0 && j > 0 && vEuc(p.Vec, vecs[offered[j-1]]) > vEuc(p.Vec, vecs[n])+1e-9 {
				d.fail("offered to a farther node first: %s", what())
			}
		}
		if !ok {
			for a, k := range times {
				if n := x.byAddr[a]; n != nil && (variant == 0 || !silent[n]) && cnt[a] != k {
					d.fail("gave up although %s was offered it %d of %d times: %s", a, cnt[a], k, what())
				}
			}
		}
		orders[fmt.Sprint(len(addrs), len(offered))]++
		d.kind("%s %d %d %v", name, len(addrs), len(offered), ok)
	}
}

// C17: getting points.
func TestVerifC17(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	x := vNewNet(6)
	if x == nil {
		return
	}
	defer x.stop()
	for i := 0; d.more(i, 900); i++ {
		dim := 1 + d.r.Intn(3)
		addrs, times := x.pick(d)
		vecs, silent, has, mode := map[*vNode][]float64{}, map[*vNode]bool{}, map[*vNode]int{}, map[*vNode]int{}
		for _, n := range x.nodes {
			vecs[n] = vPoint(d, dim).Vec
			silent[n] = d.r.Intn(7) == 0
			has[n] = d.r.Intn(5)
			mode[n] = d.r.Intn(8)
		}
		variant := d.r.Intn(3)
		n := d.r.Intn(12) - 1
		if d.r.Intn(8) == 0 {
			n = 1 << uint(d.r.Intn(40))
		}
		drain := d.r.Intn(2) == 0
		q, ns := vPoint(d, dim).Vec, []string{"a", "", "b c"}[d.r.Intn(3)]
		var sent []DataPoint
		var asked []*vNode
		var ks []int
		bad := ""
		x.script = func(e vEv) vRep {
			if e.NS != ns || e.Meth != "Vec" && fmt.Sprint(e.V) != fmt.Sprint(q) {
				bad = e.String()
			}
			switch e.Meth {
			case "Vec", "NearestCentroidVec":
				if silent[e.Node] {
					return vRep{Err: "namespace not found"}
				}
				if variant == 1 != (e.Meth == "Vec") || variant == 0 {
					bad = e.String()
				}
				return vRep{V: vecs[e.Node], Delay: time.Duration(d.r.Intn(300)) * time.Microsecond}
			case "KNNLookup":
				asked = append(asked, e.Node)
				ks = append(ks, e.N)
				if e.B != drain {
					bad = e.String()
				}
				if e.N != n-len(sent) {
					bad = e.String() + fmt.Sprintf(" (%d of %d points were found)", len(sent), n)
				}
				switch mode[e.Node] {
				case 0:
					return vRep{Err: "namespace not found"}
				case 1:
					return vRep{Hang: true}
				}
				k := has[e.Node]
				if k > e.N {
					k = e.N
				}
				ps := vPoints(d, k, dim)
				sent = append(sent, ps...)
				return vRep{DPs: ps}
			}
			bad = e.String()
			return vRep{}
		}
		given := fmt.Sprint(addrs)
		args := GetDataPointsArgs{AddrOptions: addrs, Namespace: ns, QueryVec: q, N: n, Drain: drain, KNNSearchFunc: searchutils.KNNEuc}
		var res []DataPoint
		name := []string{"Rand", "Fast", "Accurate"}[variant]
		what := func() string {
			var os []string
			for j, m := range asked {
				os = append(os, fmt.Sprintf("%s(k=%d has %d, mode %d)", m.addr, ks[j], has[m], mode[m]))
			}
			return fmt.Sprintf("GetDataPoints%s of %d (drain %v) for %v from %v: %d points; asked %v, no vector %v, vectors %v", name, n, drain, q, given, len(res), os, silent, vecs)
		}
		if !d.timed(what, 20*time.Second, func() {
			switch variant {
			case 0:
				res = GetDataPointsRand(args)
			case 1:
				res = GetDataPointsFast(args)
			case 2:
				res = GetDataPointsAccurate(args)
			}
		}) {
			return
		}
		if bad != "" {
			d.fail("unexpected request %s in %s", bad, what())
		}
		if fmt.Sprint(addrs) != given {
			d.fail("the given list was changed to %v: %s", addrs, what())
		}
		if len(res) != len(sent) {
			d.fail("the nodes sent %d points but %d were returned: %s", len(sent), len(res), what())
		} else {
			for j := range res {
				if !vSame(res[j], sent[j]) {
					d.fail("point %d is not the one sent: %s", j, what())
				}
			}
		}
		if n >= 0 && len(res) > n || n < 0 && len(res) > 0 {
			d.fail("returned more than was asked for: %s", what())
		}
		cnt := map[string]int{}
		for j, m := range asked {
			cnt[m.addr]++
			if cnt[m.addr] > times[m.addr] {
				d.fail("asked %s more often than it is listed: %s", m.addr, what())
			}
			if variant > 0 && silent[m] {
				d.fail("asked a node that is no candidate: %s", what())
			}
			if variant > 0 && j > 0 && vEuc(q, vecs[asked[j-1]]) > vEuc(q, vecs[m])+1e-9 {
				d.fail("asked a farther node first: %s", what())
			}
			if j > 0 && ks[j] <= 0 {
				d.fail("asked on after all points were found: %s", what())
			}
		}
		if len(res) < n {
			for a, k := range times {
				if m := x.byAddr[a]; m != nil && (variant == 0 || !silent[m]) && cnt[a] != k {
					d.fail("%d points missing, but %s was asked %d of %d times: %s", n-len(res), a, cnt[a], k, what())
				}
			}
		}
		d.kind("%s %d %d %v", name, len(addrs), len(asked), len(res) < n)
	}
}
