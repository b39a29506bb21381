package eventloop

import (
	"fmt"
	"math"
	"net"
	"reflect"
	"sync"
	"testing"
	"time"
)

func vAddr(a string) Addr {
	h, p, _ := net.SplitHostPort(a)
	return Addr{h, p}
}

type vLogger struct{}

func (vLogger) LogTask(string)   {}
func (vLogger) LogMeta(MetaData) {}

func vInterval(d *vd) int {
	switch d.r.Intn(9) {
	case 0:
		return 0
	case 1:
		return -d.r.Intn(1 << 20)
	case 2:
		return 1001 + d.r.Intn(1<<20)
	case 3:
		return []int{math.MinInt64, math.MaxInt64, 1000, 999, 1}[d.r.Intn(5)]
	case 4:
		return 1 + d.r.Intn(1000)
	}
	return 1 + d.r.Intn(6)
}

func vClamp(x int) int {
	if x < 1 {
		return 1
	}
	if x > 1000 {
		return 1000
	}
	return x
}

// which request shows that a task ran
var vShows = map[string]string{"Expire": "Expire", "MemTrim": "MemTrim", "DistributeDataPointsFast": "DistributeDataPointsFast",
	"DistributeDataPointsAccurate": "DistributeDataPointsAccurate", "DistributeDataPointsInternal": "DistributeDataPointsInternal",
	"SplitCentroids": "SplitCentroids", "MergeCentroids": "MergeCentroids", "LoadBalancing": "LenDP", "Meta": "Meta"}

// C19: intervals are clamped, and every task runs in the iterations that are
// multiples of its interval.
func TestVerifC19(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	log := &vLog{}
	var script func(vEv) vRep
	node, err := vListen(log, func(e vEv) vRep { return script(e) })
	if err != nil {
		fmt.Println("no loopback network:", err)
		return
	}
	defer node.stop()
	script = func(vEv) vRep { return vRep{} }
	for i := 0; d.more(i, 120); i++ {
		cfg := &EventLoopConfig{LocalAddr: vAddr(node.addr), RemoteAddrs: []Addr{vAddr(node.addr)}, L: vLogger{}, LogLocalOnly: d.r.Intn(2) == 0,
			DistributeDataPointsFastN: 11, DistributeDataPointsAccurateN: 12, DistributeDataPointsInternalN: 13,
			SplitCentroidsMin: 14, SplitCentroidsMax: 15, MergeCentroidsMin: 16, MergeCentroidsMax: 17}
		clock := []string{"Meta", "LoadBalancing"}[d.r.Intn(2)]
		iters := 1 + d.r.Intn(13)
		if i == 3 {
			iters = []int{990, 1005}[d.r.Intn(2)] // long run: the counter restarts after 1000
		}
		want := map[string]int{}
		sk := reflect.ValueOf(&cfg.TaskSkip).Elem()
		fs := ""
		for f := 0; f < sk.NumField(); f++ {
			x := vInterval(d)
			if i == 3 {
				x = []int{1000, 989, 988, 333, 2000, 495, 7, 123}[d.r.Intn(8)]
			}
			name := sk.Type().Field(f).Name
			if name == clock {
				x = []int{1, 0, -5}[d.r.Intn(3)]
			}
			if i == 0 {
				x = 0
			}
			sk.Field(f).SetInt(int64(x))
			want[name] = vClamp(x)
			fs += fmt.Sprintf(" %s=%d", name, x)
		}
		var mu sync.Mutex
		count := map[string]int{}
		ticks, expect := 0, map[string]int{}
		stopped := make(chan bool, 1)
		var stop func()
		ready := make(chan bool)
		wrong := ""
		script = func(e vEv) vRep {
			<-ready
			mu.Lock()
			defer mu.Unlock()
			if e.Meth == "Namespaces" {
				return vRep{L: []string{"x"}}
			}
			if stop == nil {
				return vRep{}
			}
			if e.Meth == vShows[clock] {
				ticks++
				if ticks > iters {
					return vRep{}
				}
				if ticks == iters { // the last iteration: nothing starts from here on
					stop()
					select {
					case stopped <- true:
					default:
					}
				}
			}
			count[e.Meth]++
			ok := true
			switch e.Meth {
			case "DistributeDataPointsFast":
				ok = e.N == 11 && fmt.Sprint(e.L) == fmt.Sprint([]string{node.addr})
			case "DistributeDataPointsAccurate":
				ok = e.N == 12 && fmt.Sprint(e.L) == fmt.Sprint([]string{node.addr})
			case "DistributeDataPointsInternal":
				ok = e.N == 13
			case "SplitCentroids":
				ok = e.N == 14 && e.N2 == 15
			case "MergeCentroids":
				ok = e.N == 16 && e.N2 == 17
			}
			if !ok || e.Meth != "Meta" && e.NS != "x" {
				wrong = e.String()
			}
			return vRep{}
		}
		what := func() string {
			mu.Lock()
			defer mu.Unlock()
			return fmt.Sprintf("intervals%s, %d iterations (clock %s): requests %v, expected %v", fs, iters, clock, count, expect)
		}
		d.guard(what, func() {
			s := EventLoop(cfg)
			got := map[string]int{}
			for f := 0; f < sk.NumField(); f++ {
				got[sk.Type().Field(f).Name] = int(sk.Field(f).Int())
			}
			for n, w := range want {
				if got[n] != w {
					d.fail("interval %s became %d, want %d:%s", n, got[n], w, fs)
				}
			}
			mu.Lock()
			stop = s
			mu.Unlock()
			close(ready)
			select {
			case <-stopped:
			case <-time.After(60 * time.Second):
				d.fail("the loop does not make progress: %s", what())
				s()
				return
			}
			// tasks of the last iteration that come before the clock's have run
			order := []string{"Meta", "Expire", "MemTrim", "MergeCentroids", "SplitCentroids", "DistributeDataPointsInternal",
				"DistributeDataPointsFast", "DistributeDataPointsAccurate", "LoadBalancing"}
			before := true
			for _, n := range order {
				k := 0
				for j := 0; j < iters; j++ {
					if j%1001%want[n] == 0 && (j < iters-1 || before || n == clock) {
						k++
					}
				}
				expect[vShows[n]] = k
				if n == clock {
					before = false
				}
			}
			// requests may still be under way
			deadline := time.Now().Add(3 * time.Second)
			for {
				mu.Lock()
				missing, extra := "", ""
				for m, k := range expect {
					if count[m] < k {
						missing = m
					}
					if count[m] > k {
						extra = m
					}
				}
				w := wrong
				mu.Unlock()
				if w != "" {
					d.fail("unexpected request %s; %s", w, what())
					break
				}
				if extra != "" {
					d.fail("%s ran too often: %s", extra, what())
					break
				}
				if missing == "" {
					time.Sleep(500 * time.Microsecond)
					break
				}
				if time.Now().After(deadline) {
					d.fail("%s ran too rarely: %s", missing, what())
					break
				}
				time.Sleep(200 * time.Microsecond)
			}
		})
		if d.fails > 0 {
			return
		}
		d.kind("%s %d", clock, iters)
	}
}

// C20: what the node pulls while balancing.
func TestVerifC20(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	log := &vLog{}
	var script func(vEv) vRep
	var nodes []*vNode
	for k := 0; k < 5; k++ {
		n, err := vListen(log, func(e vEv) vRep { return script(e) })
		if err != nil {
			fmt.Println("no loopback network:", err)
			return
		}
		defer n.stop()
		nodes = append(nodes, n)
	}
	script = func(vEv) vRep { return vRep{} }
	steals := 0
	for i := 0; d.more(i, 500); i++ {
		n := 1 + d.r.Intn(len(nodes))
		local := d.r.Intn(n)
		nss := []string{"a", "b", ""}[:1+d.r.Intn(3)]
		size := map[string]map[string]int{}
		for _, ns := range nss {
			size[ns] = map[string]int{}
			scale := []int{3, 20, 300, 100000}[d.r.Intn(4)]
			for k := 0; k < n; k++ {
				switch d.r.Intn(5) {
				case 0: // does not hold it
				case 1:
					size[ns][nodes[k].addr] = 0
				case 2:
					size[ns][nodes[k].addr] = d.r.Intn(scale)*5 + scale
				default:
					size[ns][nodes[k].addr] = d.r.Intn(scale)
				}
			}
			if k := nodes[local].addr; d.r.Intn(2) == 0 {
				if d.r.Intn(2) == 0 {
					delete(size[ns], k)
				} else {
					size[ns][k] = d.r.Intn(3)
				}
			}
			if n > 3 && d.r.Intn(3) == 0 { // several nodes with too many points, local with few
				for k := 0; k < n; k++ {
					size[ns][nodes[k].addr] = d.r.Intn(3)
				}
				for k := 0; k < 2; k++ {
					size[ns][nodes[(local+1+k)%n].addr] = scale*5 + d.r.Intn(1+scale/4)
				}
			}
			if d.r.Intn(5) == 0 { // a single node holds it
				size[ns] = map[string]int{nodes[d.r.Intn(n)].addr: d.r.Intn(4 * scale)}
			}
		}
		failing := map[string]bool{}
		if d.r.Intn(4) == 0 {
			failing[nodes[d.r.Intn(n)].addr] = true
		}
		given := fmt.Sprint(size)
		var addrs []Addr
		for k := 0; k < n; k++ {
			addrs = append(addrs, vAddr(nodes[k].addr))
		}
		d.r.Shuffle(n, func(a, b int) { addrs[a], addrs[b] = addrs[b], addrs[a] })
		cfg := &EventLoopConfig{LocalAddr: vAddr(nodes[local].addr), RemoteAddrs: addrs, L: vLogger{}, LogLocalOnly: true,
			TaskSkip: EventLoopTaskSkipConfig{Expire: 1000, MemTrim: 1000, DistributeDataPointsFast: 1000, DistributeDataPointsAccurate: 1000,
				DistributeDataPointsInternal: 1000, SplitCentroids: 1000, MergeCentroids: 1000, LoadBalancing: 1, Meta: 1}}
		iters := 1 + d.r.Intn(3)
		var mu sync.Mutex
		var stop func()
		ready, done := make(chan bool), make(chan bool, 1)
		ticks := 0
		bad := ""
		var history []string
		over := d.r.Intn(4)
		round, mean, single := map[string]map[string]int{}, map[string]float64{}, map[string]bool{}
		script = func(e vEv) vRep {
			<-ready
			mu.Lock()
			defer mu.Unlock()
			a := e.Node.addr
			switch e.Meth {
			case "Namespaces":
				var l []string
				for _, ns := range nss {
					if _, ok := size[ns][a]; ok {
						l = append(l, ns)
					}
				}
				return vRep{L: l}
			case "Meta":
				round = map[string]map[string]int{}
				if ticks++; ticks > iters {
					stop()
					select {
					case done <- true:
					default:
					}
				}
			case "LenDP":
				if failing[a] {
					return vRep{Err: "no answer"}
				}
				return vRep{N: size[e.NS][a]}
			case "StealCentroid":
				steals++
				la := nodes[local].addr
				hist := fmt.Sprintf("%s pulls %d from %s in %q", a, e.N, e.S, e.NS)
				history = append(history, hist)
				if round[e.NS] == nil { // the sizes of this round, as reported to the loop
					round[e.NS] = map[string]int{}
					total := 0
					for x, k := range size[e.NS] {
						if failing[x] {
							k = 0
						}
						round[e.NS][x] = k
						total += k
					}
					mean[e.NS] = float64(total) / float64(len(size[e.NS]))
					single[e.NS] = len(size[e.NS]) == 1
				}
				sz, mean := round[e.NS], mean[e.NS]
				other, ok := sz[e.S]
				switch {
				case a != la:
					bad = "a node other than the local one is told to pull: " + hist
				case !ok || e.S == la:
					bad = "pulls from a node that does not hold the namespace, or from itself: " + hist
				case float64(sz[la]) >= mean:
					bad = fmt.Sprintf("local has %d points, not below the mean %v: %s", sz[la], mean, hist)
				case e.N <= 0 || float64(e.N) > mean-float64(sz[la]):
					bad = fmt.Sprintf("wants %d points, lacks %v to the mean %v: %s", e.N, mean-float64(sz[la]), mean, hist)
				case !single[e.NS] && float64(other-e.N) < math.Floor(mean):
					bad = fmt.Sprintf("the other node has %d points, would fall below the mean %v: %s", other, mean, hist)
				}
				if bad != "" {
					return vRep{}
				}
				k := e.N
				switch over {
				case 1: // whole groups may be larger than asked for
					k += d.r.Intn(5)
				case 2:
					k = d.r.Intn(k + 1)
				case 3:
					if other > 0 {
						k += other/4 + d.r.Intn(other)
					}
				}
				if k > other {
					k = other
				}
				if failing[a] || failing[e.S] || k == 0 {
					return vRep{B: false}
				}
				sz[e.S] -= k
				sz[la] += k
				size[e.NS][e.S] -= k
				size[e.NS][la] += k
				return vRep{N: k, B: true}
			}
			return vRep{}
		}
		what := func() string {
			return fmt.Sprintf("local %s of %v, sizes %s, no size from %v: %v", nodes[local].addr, addrs, given, failing, history)
		}
		d.guard(what, func() {
			s := EventLoop(cfg)
			mu.Lock()
			stop = s
			mu.Unlock()
			close(ready)
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				d.fail("the loop does not make progress: %s", what())
				s()
			}
			mu.Lock()
			defer mu.Unlock()
			if bad != "" {
				d.fail("%s; %s", bad, what())
			}
		})
		if d.fails > 0 {
			return
		}
		d.kind("%d %d %d", n, len(nss), len(history))
	}
	if steals == 0 {
		fmt.Println("no pulls were made")
	}
}
