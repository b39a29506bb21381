package nodes

import (
	"fmt"
	"math"
	"net"
	"testing"
	"time"
	"trypo/pkg/searchutils"
)

func vAddr(a string) Addr {
	h, p, _ := net.SplitHostPort(a)
	return Addr{h, p}
}

func vEuc(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += (a[i] - b[i]) * (a[i] - b[i])
	}
	return math.Sqrt(s)
}

func vCosDist(a, b []float64) float64 {
	var d, x, y float64
	for i := range a {
		d += a[i] * b[i]
		x += a[i] * a[i]
		y += b[i] * b[i]
	}
	return 1 - d/math.Sqrt(x)/math.Sqrt(y)
}

// C18: ranking candidate nodes by what they reported, for every order of the
// replies and every pattern of failures.
func TestVerifC18(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	log := &vLog{}
	var script func(vEv) vRep
	var nodes []*vNode
	byAddr := map[string]*vNode{}
	for k := 0; k < 6; k++ {
		n, err := vListen(log, func(e vEv) vRep { return script(e) })
		if err != nil {
			fmt.Println("no loopback network:", err)
			return
		}
		defer n.stop()
		nodes = append(nodes, n)
		byAddr[n.addr] = n
	}
	dead := vDead()
	for i := 0; d.more(i, 900); i++ {
		dim := 1 + d.r.Intn(3)
		vec := func() []float64 {
			v := make([]float64, dim)
			for j := range v {
				v[j] = float64(d.r.Intn(21)-10) + d.r.Float64()
			}
			v[d.r.Intn(dim)] += 0.5
			return v
		}
		vecs := map[*vNode][]float64{}
		other := map[*vNode][]float64{}
		mode := map[*vNode]int{}
		delay := map[*vNode]time.Duration{}
		for j, n := range nodes {
			vecs[n], other[n] = vec(), vec()
			if j > 0 && d.r.Intn(6) == 0 {
				vecs[n] = vecs[nodes[j-1]]
			}
			mode[n] = d.r.Intn(10)
			if d.r.Intn(2) == 0 {
				delay[n] = time.Duration(d.r.Intn(2500)) * time.Microsecond
			}
		}
		var addrs []Addr
		times := map[string]int{}
		for _, k := range d.r.Perm(len(nodes))[:d.r.Intn(len(nodes)+1)] {
			addrs = append(addrs, vAddr(nodes[k].addr))
		}
		if d.r.Intn(4) == 0 {
			addrs = append([]Addr{vAddr(dead)}, addrs...)
		}
		if len(addrs) > 0 && d.r.Intn(6) == 0 {
			addrs = append(addrs, addrs[d.r.Intn(len(addrs))])
		}
		for _, a := range addrs {
			times[a.ToStr()]++
		}
		fast := d.r.Intn(2) == 0
		q, ns := vec(), []string{"a", "", "b c"}[d.r.Intn(3)]
		knn, dist, name := searchutils.KNNEuc, vEuc, "euclidean"
		if d.r.Intn(2) == 0 {
			knn, dist, name = searchutils.KNNCos, vCosDist, "cosine"
		}
		bad := ""
		script = func(e vEv) vRep {
			if e.NS != ns || e.Meth != "Vec" && e.Meth != "NearestCentroidVec" {
				bad = e.String()
			}
			if e.Meth == "NearestCentroidVec" && fmt.Sprint(e.V) != fmt.Sprint(q) {
				bad = e.String()
			}
			r := vRep{Delay: delay[e.Node]}
			switch mode[e.Node] {
			case 0:
				r.Err = "namespace not found"
			case 1:
				r.Hang = true
			case 2: // no vector
			case 3:
				r.V = make([]float64, dim+1)
				r.V[0] = 1
			default:
				r.V = vecs[e.Node]
				if fast != (e.Meth == "Vec") {
					r.V = other[e.Node]
				}
			}
			return r
		}
		log.take()
		given := append([]Addr{}, addrs...)
		var res []Addr
		what := func() string {
			return fmt.Sprintf("BestFitNodes (fast %v, %s) of %v for %v: %v; modes %v, delays %v, vectors %v", fast, name, addrs, q, res, mode, delay, vecs)
		}
		if !d.timed(what, 20*time.Second, func() {
			args := BestFitNodesArgs{AddrOpts: addrs, Namespace: ns, Vec: q, KNNSearchFunc: knn}
			if fast {
				res = BestFitNodesFast(args)
			} else {
				res = BestFitNodesAccurate(args)
			}
		}) {
			return
		}
		if bad != "" {
			d.fail("unexpected request %s in %s", bad, what())
		}
		if fmt.Sprint(given) != fmt.Sprint(addrs) {
			d.fail("the given list was changed: %s", what())
		}
		seen := map[string]int{}
		for j, a := range res {
			n := byAddr[a.ToStr()]
			seen[a.ToStr()]++
			if n == nil || times[a.ToStr()] == 0 {
				d.fail("%v was not listed: %s", a, what())
				continue
			}
			if mode[n] <= 3 {
				d.fail("%v did not report a comparable vector: %s", a, what())
				continue
			}
			if j > 0 {
				if m := byAddr[res[j-1].ToStr()]; m != nil && mode[m] > 3 && dist(q, vecs[m]) > dist(q, vecs[n])+1e-9 {
					d.fail("%v comes before %v: %s", res[j-1], a, what())
				}
			}
		}
		for a, k := range times {
			n := byAddr[a]
			if n != nil && mode[n] > 3 && seen[a] != k || seen[a] > k {
				d.fail("%v is listed %d times but returned %d times: %s", a, k, seen[a], what())
			}
		}
		d.kind("%d %d %v %s", len(res), len(addrs), fast, name)
	}
}
