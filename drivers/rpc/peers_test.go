package rpc

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"
	"time"
	"trypo/pkg/kmeans/common"
)

// C14: distribution to other nodes loses and duplicates nothing.
func TestVerifC14(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	log := &vLog{}
	var script func(vEv) vRep
	var nodes []*vNode
	for k := 0; k < 4; k++ {
		n, err := vListen(log, func(e vEv) vRep { return script(e) })
		if err != nil {
			fmt.Println("no loopback network:", err)
			return
		}
		defer n.stop()
		nodes = append(nodes, n)
	}
	dead := vDead()
	for i := 0; d.more(i, 700); i++ {
		dim := 1 + d.r.Intn(3)
		s, _ := vServer(d)
		vFill(d, s, dim, 9, false)
		ns := vNSs[0]
		if d.r.Intn(12) == 0 {
			ns = "missing"
		}
		before := map[string]int{}
		others := map[string]string{}
		exact := ""
		for _, x := range s.Table.Namespaces() {
			if x == ns {
				before = vContent(vPeek(s, x))
				exact = vExact(vPeek(s, x))
			} else {
				others[x] = vExact(vPeek(s, x))
			}
		}
		total := 0
		for _, n := range before {
			total += n
		}
		var addrs []string
		for k := d.r.Intn(5); k > 0; k-- {
			a := nodes[d.r.Intn(len(nodes))].addr
			if d.r.Intn(6) == 0 {
				a = dead
			}
			addrs = append(addrs, a)
		}
		n := vInt(d)
		if d.r.Intn(2) == 0 {
			n = d.r.Intn(8)
		}
		mode := d.r.Intn(4) // 0: mixed, 1: all refuse, 2: all accept, 3: all fail
		accepted := map[string]int{}
		where := ""
		offers := 0
		least := total
		wrongNS := ""
		script = func(e vEv) vRep {
			if e.NS != ns {
				wrongNS = e.String()
			}
			if cm := vPeek(s, ns); cm != nil {
				if l := cm.LenDP() + len(accepted); l < least {
					least = l
				}
			}
			switch e.Meth {
			case "Vec", "NearestCentroidVec":
				switch d.r.Intn(9) {
				case 0:
					return vRep{Err: "namespace not found"}
				case 1:
					return vRep{Hang: true}
				case 2:
					return vRep{}
				case 3:
					return vRep{V: vVec(d, dim+1)}
				}
				return vRep{V: vVec(d, dim), Delay: time.Duration(d.r.Intn(200)) * time.Microsecond}
			case "AddDataPoint":
				offers++
				k := d.r.Intn(4)
				if mode != 0 {
					k = mode - 1
				}
				switch k {
				case 0:
					return vRep{}
				case 1, 3:
					accepted[vPid(e.DP)]++
					where += fmt.Sprintf(" %s", e.DP.Payload)
					return vRep{B: true}
				}
				if d.r.Intn(2) == 0 {
					return vRep{Hang: true}
				}
				return vRep{Err: "failed"}
			}
			return vRep{Err: "unexpected request " + e.Meth}
		}
		fast := d.r.Intn(2) == 0
		desc := fmt.Sprintf("distribute(fast=%v, ns=%q, n=%d, receivers=%d, refusal mode %d) of %d points", fast, ns, n, len(addrs), mode, total)
		d.kind("%v %d %d", fast, len(addrs), mode)
		var err error
		if !d.timed(func() string { return desc }, 20*time.Second, func() {
			a := DistribDPArgs{NameSpace: ns, N: n, AddrOptions: append([]string(nil), addrs...)}
			if fast {
				err = s.DistributeDataPointsFast(a, nil)
			} else {
				err = s.DistributeDataPointsAccurate(a, nil)
			}
		}) {
			return
		}
		log.take()
		if ns == "missing" {
			if err == nil || offers > 0 || vPeek(s, ns) != nil {
				d.fail("%s: missing namespace: error %v, %d offers", desc, err, offers)
			}
			continue
		}
		got := vContent(vPeek(s, ns))
		sum := map[string]int{}
		out := 0
		for k, c := range accepted {
			sum[k] += c
			out += c
		}
		for k, c := range got {
			sum[k] += c
		}
		if a, b := vSumm(sum), vSumm(before); a != b {
			d.fail("%s: stored before: %s; here and at accepting nodes afterwards: %s (accepted:%s)", desc, b, a, where)
		}
		most := n
		if most < 0 || len(addrs) == 0 {
			most = 0
		}
		if out > most || total-least > most {
			d.fail("%s: more than %d points were taken out (%d sent, at most %d left at some moment)", desc, most, out, least)
		}
		if len(addrs) == 0 && vExact(vPeek(s, ns)) != exact {
			d.fail("%s: state changed although there are no receivers: %s -> %s", desc, exact, vExact(vPeek(s, ns)))
		}
		if wrongNS != "" {
			d.fail("%s: request in another namespace: %s", desc, wrongNS)
		}
		for x, e := range others {
			if vExact(vPeek(s, x)) != e {
				d.fail("%s: namespace %q changed", desc, x)
			}
		}
	}
}

// C23: stealing takes over whole groups without loss.
func TestVerifC23(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	log := &vLog{}
	var script func(vEv) vRep
	node, err := vListen(log, func(e vEv) vRep { return script(e) })
	if err != nil {
		fmt.Println("no loopback network:", err)
		return
	}
	defer node.stop()
	dead := vDead()
	for i := 0; d.more(i, 1200); i++ {
		dim := 1 + d.r.Intn(3)
		s, _ := vServer(d)
		vFill(d, s, dim, 9, false)
		ns := []string{vNSs[0], "new"}[d.r.Intn(2)]
		want := map[string]int{}
		others := map[string]string{}
		had := false
		for _, x := range s.Table.Namespaces() {
			if x == ns {
				want, had = vContent(vPeek(s, x)), true
			} else {
				others[x] = vExact(vPeek(s, x))
			}
		}
		groups := d.r.Intn(5)
		end := d.r.Intn(4) // 0: nothing more, 1: error, 2: hang up, 3: one more empty group
		vecOK := d.r.Intn(5) != 0
		limit := d.r.Intn(14)
		if d.r.Intn(8) == 0 {
			limit = vInt(d)
		}
		puts := d.r.Intn(3) == 0
		recv, asks, failed, odd := 0, 0, false, ""
		var given [][]common.DataPoint
		script = func(e vEv) vRep {
			if e.NS != ns {
				odd = "request in another namespace: " + e.String()
			}
			if puts && d.r.Intn(2) == 0 {
				// a put arrives at the stealing node in between
				p := vPoint(d, dim)
				ok := false
				s.AddDataPoint(AddDataPointArgs{NameSpace: ns, DP: p}, &ok)
				if ok {
					want[vPid(p)]++
				}
			}
			switch e.Meth {
			case "Vec":
				if !vecOK {
					failed = true
					return vRep{Err: "no vector"}
				}
				return vRep{V: vVec(d, dim)}
			case "NearestCentroids":
				asks++
				if failed {
					odd = "asked again after the other node failed"
				} else if recv >= limit {
					odd = fmt.Sprintf("asked again after %d of %d points", recv, limit)
				}
				if !e.B {
					odd = "groups are copied, not taken over: " + e.String()
				}
				if asks > groups {
					failed = true
					switch end {
					case 1:
						return vRep{Err: "error"}
					case 2:
						return vRep{Hang: true}
					case 3:
						return vRep{Groups: [][]common.DataPoint{{}}}
					}
					return vRep{}
				}
				g := vPoints(d, 1+d.r.Intn(5), dim)
				for _, p := range g {
					want[vPid(p)]++
				}
				given = append(given, g)
				recv += len(g)
				return vRep{Groups: [][]common.DataPoint{g}}
			}
			return vRep{Err: "unexpected request " + e.Meth}
		}
		from := node.addr
		if d.r.Intn(12) == 0 {
			from = dead
		}
		desc := fmt.Sprintf("steal(ns=%q, limit=%d, local=%v) from a node with %d groups (end %d, vec %v, puts in between %v)", ns, limit, had, groups, end, vecOK, puts)
		d.kind("%v %d %d %v", had, groups, end, puts)
		var r StealCentroidsResp
		if !d.timed(func() string { return desc }, 20*time.Second, func() {
			err = s.StealCentroid(StealCentroidArgs{FromAddr: from, NameSpace: ns, TransferDPLimit: limit}, &r)
		}) {
			return
		}
		log.take()
		if odd != "" {
			d.fail("%s: %s", desc, odd)
		}
		if r.TransferredN != recv {
			d.fail("%s: received %d points, reports %d", desc, recv, r.TransferredN)
		}
		if from == node.addr && asks > 0 && recv < limit && !failed {
			d.fail("%s: stopped after %d points although the other node has more", desc, recv)
		}
		wantOK := from == node.addr && !(asks > groups && (end == 1 || end == 2)) && (had || vecOK || puts)
		if from != node.addr && r.OK && (limit > 0 || !had) {
			d.fail("%s: reports success although the other node is gone", desc)
		}
		if !wantOK && r.OK && from == node.addr && asks > groups {
			d.fail("%s: reports success although the other node failed", desc)
		}
		got := map[string]int{}
		if cm := vPeek(s, ns); cm != nil {
			got = vContent(cm)
			if !puts {
				for _, g := range given {
					hit := false
					for _, c := range cm.Centroids {
						hit = hit || vPids(c.DataPoints) == vPids(g)
					}
					if !hit {
						d.fail("%s: group %s is not stored as a whole", desc, vPids(g))
					}
				}
			}
		}
		if a, b := vSumm(got), vSumm(want); a != b {
			d.fail("%s: stored and received points: %s; stored afterwards: %s", desc, b, a)
		}
		for x, e := range others {
			if vExact(vPeek(s, x)) != e {
				d.fail("%s: namespace %q changed", desc, x)
			}
		}
	}
}

func vEncode(x interface{}) {
	var b bytes.Buffer
	gob.NewEncoder(&b).Encode(x)
}

// C15: locks: nothing is held during network calls or after a request, no
// request waits for itself, no unsynchronised access (run with the race
// detector).
func TestVerifC15(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	log := &vLog{}
	var s *KMeansServer
	var dim int
	held := ""
	var dmu sync.Mutex
	check := false
	node, err := vListen(log, func(e vEv) vRep {
		dmu.Lock()
		defer dmu.Unlock()
		if check && held == "" {
			if l := vLocked(s); l != "" {
				held = fmt.Sprintf("%s held during the network call %s", l, e.Meth)
			}
		}
		switch e.Meth {
		case "Vec", "NearestCentroidVec":
			return vRep{V: vVec(d, dim)}
		case "NearestCentroids":
			if d.r.Intn(3) == 0 {
				return vRep{}
			}
			return vRep{Groups: [][]common.DataPoint{vPoints(d, 1+d.r.Intn(3), dim)}}
		}
		return vRep{B: d.r.Intn(2) == 0}
	})
	if err != nil {
		fmt.Println("no loopback network:", err)
		return
	}
	defer node.stop()
	// request: one request of any kind
	request := func(srv *KMeansServer) (string, func()) {
		dmu.Lock()
		defer dmu.Unlock()
		ns := append(vNSs, "new", "other")[d.r.Intn(6)]
		n := d.r.Intn(7)
		switch d.r.Intn(10) {
		case 0:
			return "Meta", func() { var r MetaResp; srv.Meta(0, &r); vEncode(r) }
		case 1:
			return "Namespaces", func() { var r []string; srv.Namespaces(0, &r); vEncode(r); srv.Table.Namespaces() }
		case 2, 3:
			p := vPoint(d, dim)
			return fmt.Sprintf("AddDataPoint(%q)", ns), func() { var ok bool; srv.AddDataPoint(AddDataPointArgs{NameSpace: ns, DP: p}, &ok) }
		case 4:
			a := DistribDPArgs{NameSpace: ns, N: n, AddrOptions: []string{node.addr, node.addr}[:d.r.Intn(3)]}
			return fmt.Sprintf("DistributeDataPointsFast(%q %d)", ns, n), func() { srv.DistributeDataPointsFast(a, nil) }
		case 5:
			a := DistribDPArgs{NameSpace: ns, N: n, AddrOptions: []string{node.addr, node.addr}[:d.r.Intn(3)]}
			return fmt.Sprintf("DistributeDataPointsAccurate(%q %d)", ns, n), func() { srv.DistributeDataPointsAccurate(a, nil) }
		case 6:
			return fmt.Sprintf("StealCentroid(%q %d)", ns, n), func() {
				var r StealCentroidsResp
				srv.StealCentroid(StealCentroidArgs{FromAddr: node.addr, NameSpace: ns, TransferDPLimit: n}, &r)
			}
		case 7:
			v := vVec(d, dim)
			return fmt.Sprintf("NearestCentroids(%q)", ns), func() {
				var r []*Centroid
				srv.NearestCentroids(NearestCentroidArgs{NameSpace: ns, Vec: v, N: n}, &r)
				vEncode(r)
				var x []float64
				srv.NearestCentroidVec(NearestCentroidVecArgs{NameSpace: ns, Vec: v}, &x)
				vEncode(x)
			}
		}
		rq := vRequest(d, srv, dim)
		return rq.desc, func() { rq.serve() }
	}
	for i := 0; d.more(i, 300); i++ {
		dmu.Lock()
		dim = 1 + d.r.Intn(3)
		s, _ = vServer(d)
		vFill(d, s, dim, 8, false)
		check, held = true, ""
		dmu.Unlock()
		hist := ""
		for k := 0; k < 6; k++ {
			desc, f := request(s)
			hist += " " + desc
			d.kind("%s", strings.SplitN(desc, "(", 2)[0])
			if !d.timed(func() string { return "requests:" + hist }, 15*time.Second, f) {
				return
			}
			if l := vLocked(s); l != "" {
				d.fail("%s still held after the request; requests:%s", l, hist)
				return
			}
			dmu.Lock()
			if held != "" {
				d.fail("%s; requests:%s", held, hist)
				held = ""
			}
			dmu.Unlock()
		}
		if i%3 != 0 {
			continue
		}
		// the same at the same time
		dmu.Lock()
		check = false
		dmu.Unlock()
		if !d.timed(func() string { return "concurrent requests" }, 30*time.Second, func() {
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 8; k++ {
						_, f := request(s)
						f()
					}
				}()
			}
			wg.Wait()
		}) {
			return
		}
		if l := vLocked(s); l != "" {
			d.fail("%s still held after concurrent requests", l)
			return
		}
	}
}

// C24: no request makes a node panic.
func TestVerifC24(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	ints := []int{0, 1, -1, 2, 3, 7, 100, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, -1000, 1 << 40}
	anyInt := func() int { return ints[d.r.Intn(len(ints))] }
	// another node, for stealing and distributing
	log := &vLog{}
	var script func(vEv) vRep
	peer := ""
	if node, err := vListen(log, func(e vEv) vRep { return script(e) }); err == nil {
		defer node.stop()
		peer = node.addr
	}
	for i := 0; d.more(i, 4000); i++ {
		dim := d.r.Intn(4)
		script = func(e vEv) vRep {
			if d.r.Intn(6) == 0 {
				return vRep{Err: "no such namespace"}
			}
			switch e.Meth {
			case "NearestCentroids":
				var g [][]common.DataPoint
				for k := d.r.Intn(3); k > 0; k-- {
					var dps []common.DataPoint
					for j := d.r.Intn(3); j > 0; j-- {
						dps = append(dps, vPoint(d, dim))
					}
					g = append(g, dps)
				}
				return vRep{Groups: g}
			case "AddDataPoint":
				return vRep{B: d.r.Intn(2) == 0}
			}
			return vRep{V: vVec(d, dim)}
		}
		anyVec := func() []float64 {
			switch d.r.Intn(8) {
			case 0:
				return nil
			case 1:
				return []float64{}
			case 2:
				return vVec(d, dim+1)
			case 3:
				return make([]float64, dim)
			case 4:
				v := vVec(d, dim)
				for k := range v {
					v[k] = []float64{math.NaN(), math.Inf(1), math.MaxFloat64, 0, -1e-300}[d.r.Intn(5)]
				}
				return v
			}
			return vVec(d, dim)
		}
		s, _ := vServer(d)
		hist := ""
		for k := d.r.Intn(16); k > 0; k-- {
			ns := vNSs[d.r.Intn(2)]
			n, n2, v, b := anyInt(), anyInt(), anyVec(), d.r.Intn(2) == 0
			op := d.r.Intn(24)
			if i%8 != 0 && op == 14 {
				op = 15
			}
			p := common.DataPoint{Vec: anyVec(), Payload: []byte("x")}
			switch d.r.Intn(5) {
			case 0:
				p.ExpireEnabled, p.Expires = true, time.Now().Add(-time.Hour)
			case 1:
				p.ExpireEnabled, p.Expires = true, time.Now().Add(time.Duration(d.r.Intn(60))*time.Microsecond)
			}
			if op > 14 {
				hist += fmt.Sprintf(" put(%q %v)", ns, p.Vec)
			} else {
				hist += fmt.Sprintf(" op%d(%q %d %d %v %v)", op, ns, n, n2, v, b)
			}
			d.kind("%d", op)
			d.guard(func() string { return hist }, func() {
				var i int
				var dps []DataPoint
				var ok bool
				switch op {
				case 0:
					s.DrainOrdered(DrainArgs{NameSpace: ns, N: n}, &dps)
				case 1:
					s.DrainUnordered(DrainArgs{NameSpace: ns, N: n}, &dps)
				case 2:
					s.KNNLookup(KNNLookupArgs{NameSpace: ns, Vec: v, K: n, Drain: b}, &dps)
				case 3:
					var r []*Centroid
					s.NearestCentroids(NearestCentroidArgs{NameSpace: ns, Vec: v, N: n, Drain: b}, &r)
				case 4:
					var r []float64
					s.NearestCentroidVec(NearestCentroidVecArgs{NameSpace: ns, Vec: v}, &r)
				case 5:
					s.SplitCentroids(SplitCentroidsArgs{NameSpace: ns, DPRangeMin: n, DPRangeMax: n2}, nil)
				case 6:
					s.MergeCentroids(SplitCentroidsArgs{NameSpace: ns, DPRangeMin: n, DPRangeMax: n2}, nil)
				case 7:
					s.DistributeDataPointsInternal(DistribDPIArgs{NameSpace: ns, N: n}, nil)
				case 8:
					s.MemTrim(ns, nil)
				case 9:
					s.MoveVector(ns, &ok)
				case 10:
					s.Expire(ns, nil)
				case 11:
					var m MetaResp
					s.Meta(0, &m)
					s.LenDP(ns, &i)
					s.Namespaces(0, &[]string{})
				case 12:
					s.DistributeDataPointsFast(DistribDPArgs{NameSpace: ns, N: n}, nil)
					s.DistributeDataPointsAccurate(DistribDPArgs{NameSpace: ns, N: n}, nil)
				case 13:
					time.Sleep(30 * time.Microsecond)
				case 14:
					if peer == "" {
						break
					}
					if n > 1000 {
						n = 5 // a peer that never runs out would be asked forever
					}
					s.StealCentroid(StealCentroidArgs{FromAddr: peer, NameSpace: ns, TransferDPLimit: n}, &StealCentroidsResp{})
					s.DistributeDataPointsFast(DistribDPArgs{NameSpace: ns, N: n, AddrOptions: []string{peer, ""}}, nil)
					s.DistributeDataPointsAccurate(DistribDPArgs{NameSpace: ns, N: n, AddrOptions: []string{peer, ""}}, nil)
					log.take()
				default:
					s.AddDataPoint(AddDataPointArgs{NameSpace: ns, DP: p}, &ok)
				}
			})
			if d.fails > 0 {
				return
			}
		}
	}
}
