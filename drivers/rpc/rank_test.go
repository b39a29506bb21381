package rpc

import (
	"fmt"
	"math"
	"testing"
	"time"
)

func vCosSim(a, b []float64) float64 {
	var d, x, y float64
	for i := range a {
		d += a[i] * b[i]
		x += a[i] * a[i]
		y += b[i] * b[i]
	}
	return d / math.Sqrt(x) / math.Sqrt(y)
}

// C18: distributed points are offered to the nodes in the order of the
// vectors that these very nodes reported, in whatever order the replies come.
func TestVerifC18(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	log := &vLog{}
	var script func(vEv) vRep
	var nodes []*vNode
	byAddr := map[string]*vNode{}
	for k := 0; k < 5; k++ {
		n, err := vListen(log, func(e vEv) vRep { return script(e) })
		if err != nil {
			fmt.Println("no loopback network:", err)
			return
		}
		defer n.stop()
		nodes = append(nodes, n)
		byAddr[n.addr] = n
	}
	dead := vDead()
	for i := 0; d.more(i, 600); i++ {
		s, _ := vServer(d)
		ns := vNSs[0]
		for k := 1 + d.r.Intn(4); k > 0; k-- {
			p := vPoint(d, 2)
			th := d.r.Float64() * 2 * math.Pi
			p.Vec = []float64{5 * math.Cos(th), 5 * math.Sin(th)}
			var ok bool
			s.AddDataPoint(AddDataPointArgs{NameSpace: ns, DP: p}, &ok)
		}
		vecs := map[*vNode][]float64{}
		mode := map[*vNode]int{}
		delay := map[*vNode]time.Duration{}
		for _, n := range nodes {
			th := d.r.Float64() * 2 * math.Pi
			r := 1 + d.r.Float64()*9
			vecs[n] = []float64{r * math.Cos(th), r * math.Sin(th)}
			mode[n] = d.r.Intn(9)
			if d.r.Intn(2) == 0 {
				delay[n] = time.Duration(d.r.Intn(1500)) * time.Microsecond
			}
		}
		var addrs []string
		times := map[string]int{}
		for _, k := range d.r.Perm(len(nodes))[:1+d.r.Intn(len(nodes))] {
			addrs = append(addrs, nodes[k].addr)
		}
		if d.r.Intn(4) == 0 {
			addrs = append(addrs, dead)
		}
		if d.r.Intn(6) == 0 {
			addrs = append(addrs, addrs[0])
		}
		for _, a := range addrs {
			times[a]++
		}
		accept := d.r.Intn(3) == 0
		bad := ""
		fast := d.r.Intn(2) == 0
		script = func(e vEv) vRep {
			switch e.Meth {
			case "Vec", "NearestCentroidVec":
				if fast != (e.Meth == "Vec") {
					return vRep{V: []float64{d.r.NormFloat64(), 1}}
				}
				r := vRep{Delay: delay[e.Node]}
				switch mode[e.Node] {
				case 0:
					r.Err = "namespace not found"
				case 1:
					r.Hang = true
				case 2:
				case 3:
					r.V = []float64{1, 2, 3}
				default:
					r.V = vecs[e.Node]
				}
				return r
			case "AddDataPoint":
				return vRep{B: accept && d.r.Intn(2) == 0}
			}
			bad = e.String()
			return vRep{}
		}
		log.take()
		what := func() string {
			return fmt.Sprintf("distribute (fast %v) to %v; modes %v, delays %v, vectors %v", fast, addrs, mode, delay, vecs)
		}
		if !d.timed(what, 20*time.Second, func() {
			var x int
			a := DistribDPArgs{NameSpace: ns, N: 9, AddrOptions: addrs}
			if fast {
				s.DistributeDataPointsFast(a, &x)
			} else {
				s.DistributeDataPointsAccurate(a, &x)
			}
		}) {
			return
		}
		if bad != "" {
			d.fail("unexpected request %s in %s", bad, what())
		}
		type offer struct {
			n *vNode
			e vEv
		}
		offers := map[string][]offer{}
		for _, e := range log.take() {
			if e.Meth == "AddDataPoint" {
				offers[vPid(e.DP)] = append(offers[vPid(e.DP)], offer{e.Node, e})
			}
		}
		for id, os := range offers {
			seen := map[string]int{}
			for j, o := range os {
				seen[o.n.addr]++
				if mode[o.n] <= 3 || times[o.n.addr] == 0 {
					d.fail("point %s offered to a node that did not report a vector; %s", id, what())
				}
				if seen[o.n.addr] > times[o.n.addr] {
					d.fail("point %s offered to a node more often than listed; %s", id, what())
				}
				if j > 0 && vCosSim(o.e.DP.Vec, vecs[o.n]) > vCosSim(o.e.DP.Vec, vecs[os[j-1].n])+1e-9 {
					d.fail("point %s %v offered to the node at %v before the more similar one at %v; %s", id, o.e.DP.Vec, vecs[os[j-1].n], vecs[o.n], what())
				}
			}
			// the first one is the most similar of all that responded
			for a := range times {
				if n := byAddr[a]; n != nil && mode[n] > 3 && vCosSim(os[0].e.DP.Vec, vecs[n]) > vCosSim(os[0].e.DP.Vec, vecs[os[0].n])+1e-9 {
					d.fail("point %s %v offered to the node at %v although the one at %v is more similar; %s", id, os[0].e.DP.Vec, vecs[os[0].n], vecs[n], what())
				}
			}
			if !accept {
				for a, k := range times {
					if n := byAddr[a]; n != nil && mode[n] > 3 && seen[a] != k {
						d.fail("point %s offered %d times to a node that is listed %d times; %s", id, seen[a], k, what())
					}
				}
			}
			d.kind("%d %d %v", len(os), len(addrs), fast)
		}
	}
}
