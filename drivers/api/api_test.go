package api

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"testing"
	"time"
	"trypo/pkg/kmeans/common"
)

func vAddr(a string) Addr {
	h, p, _ := net.SplitHostPort(a)
	return Addr{h, p}
}

type vPt struct {
	Vec           []float64
	Payload       []byte
	Expires       time.Time
	ExpireEnabled bool
}

func vPoint(d *vd) vPt {
	p := vPt{Vec: make([]float64, 1+d.r.Intn(3)), Payload: make([]byte, d.r.Intn(6)), ExpireEnabled: d.r.Intn(2) == 0}
	for j := range p.Vec {
		p.Vec[j] = d.r.NormFloat64() * 10
	}
	d.r.Read(p.Payload)
	if d.r.Intn(3) > 0 {
		p.Expires = time.Unix(1900000000+d.r.Int63n(1e8), d.r.Int63n(1e9))
	}
	return p
}

func vSame(a, b vPt) bool {
	return fmt.Sprint(a.Vec) == fmt.Sprint(b.Vec) && bytes.Equal(a.Payload, b.Payload) && a.Expires.Equal(b.Expires) && a.ExpireEnabled == b.ExpireEnabled
}

// C21: the HTTP API in front of scripted nodes.
func TestVerifC21(t *testing.T) {
	d := vdNew(t)
	defer d.done()
	log := &vLog{}
	var script func(vEv) vRep
	var nodes []*vNode
	var addrs []Addr
	for k := 0; k < 3; k++ {
		n, err := vListen(log, func(e vEv) vRep { return script(e) })
		if err != nil {
			fmt.Println("no loopback network:", err)
			return
		}
		defer n.stop()
		nodes = append(nodes, n)
		addrs = append(addrs, vAddr(n.addr))
	}
	addrs = append(addrs, vAddr(vDead()))
	script = func(vEv) vRep { return vRep{} }
	at := vDead()
	go Start(APIConfig{Addr: vAddr(at), RPCAddrs: addrs})
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", at)
		if err == nil {
			c.Close()
			break
		}
		if i > 400 {
			fmt.Println("the API did not start:", err)
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	post := func(route string, body []byte) (int, []byte, error) {
		r, err := http.Post("http://"+at+route, "application/json", bytes.NewReader(body))
		if err != nil {
			return 0, nil, err
		}
		defer r.Body.Close()
		b, err := ioutil.ReadAll(r.Body)
		return r.StatusCode, b, err
	}
	for i := 0; d.more(i, 1500); i++ {
		put := d.r.Intn(2) == 0
		acc := d.r.Intn(2) == 0
		ns := []string{"a", "", "b \"c\" ü"}[d.r.Intn(3)]
		p := vPoint(d)
		n := d.r.Intn(9) - 1
		if d.r.Intn(8) == 0 {
			n = 1 << uint(d.r.Intn(40))
		}
		drain := d.r.Intn(2) == 0
		silent, mode, has, vecs := map[*vNode]bool{}, map[*vNode]int{}, map[*vNode]int{}, map[*vNode][]float64{}
		refuse := d.r.Intn(3) == 0
		for _, m := range nodes {
			silent[m], mode[m], has[m] = d.r.Intn(5) == 0, d.r.Intn(6), d.r.Intn(5)
			if d.r.Intn(12) == 0 {
				for _, o := range nodes {
					silent[o] = true
				}
			}
			if refuse {
				mode[m] %= 3
			}
			vecs[m] = make([]float64, len(p.Vec))
			for j := range vecs[m] {
				vecs[m][j] = d.r.NormFloat64()
			}
		}
		bad := ""
		took, offers, asked := 0, 0, 0
		var sent []vPt
		script = func(e vEv) vRep {
			if e.NS != ns {
				bad = "namespace: " + e.String()
			}
			switch e.Meth {
			case "Vec", "NearestCentroidVec":
				if acc != (e.Meth == "NearestCentroidVec") {
					bad = "accuracy: " + e.String()
				}
				if e.Meth != "Vec" && fmt.Sprint(e.V) != fmt.Sprint(p.Vec) {
					bad = "vector: " + e.String()
				}
				if silent[e.Node] {
					return vRep{Err: "namespace not found"}
				}
				return vRep{V: vecs[e.Node]}
			case "AddDataPoint":
				offers++
				if !put {
					bad = "stores during a query: " + e.String()
				}
				if !vSame(vPt{e.DP.Vec, e.DP.Payload, e.DP.Expires, e.DP.ExpireEnabled}, p) {
					bad = fmt.Sprintf("point: %s %v %v %v", e, e.DP.Payload, e.DP.Expires, e.DP.ExpireEnabled)
				}
				switch mode[e.Node] {
				case 0, 1:
					return vRep{}
				case 2:
					return vRep{Err: "refused"}
				}
				took++
				return vRep{B: true}
			case "KNNLookup":
				asked++
				if put || fmt.Sprint(e.V) != fmt.Sprint(p.Vec) || e.B != drain || e.N != n-len(sent) {
					bad = fmt.Sprintf("query: %s (found %d before)", e, len(sent))
				}
				if mode[e.Node] == 0 {
					return vRep{Err: "namespace not found"}
				}
				var dps []common.DataPoint
				for k := 0; k < has[e.Node] && k < e.N; k++ {
					q := vPoint(d)
					sent = append(sent, q)
					dps = append(dps, common.DataPoint{Vec: q.Vec, Payload: q.Payload, Expires: q.Expires, ExpireEnabled: q.ExpireEnabled})
				}
				return vRep{DPs: dps}
			}
			bad = "operation: " + e.String()
			return vRep{}
		}
		req := map[string]interface{}{"namespace": ns, "accurate": acc}
		route := "/api/dp/put"
		if put {
			req["dp"] = map[string]interface{}{"vec": p.Vec, "payload": p.Payload, "expires": p.Expires, "expireEnabled": p.ExpireEnabled}
		} else {
			route = "/api/dp/query"
			req["queryVec"], req["n"], req["drain"] = p.Vec, n, drain
		}
		body, _ := json.Marshal(req)
		broken := d.r.Intn(6) == 0
		if broken {
			switch d.r.Intn(5) {
			case 4:
				req["namespace"] = 1
				body, _ = json.Marshal(req)
			case 0:
				body = body[:d.r.Intn(len(body))]
			case 1:
				body = append([]byte("x"), body...)
			case 2:
				body = append(body, '}')
			case 3:
				body = bytes.Replace(body, []byte("\"accurate\":"), []byte("\"accurate\" "), 1)
			}
		}
		var code int
		var out []byte
		var err error
		what := func() string {
			return fmt.Sprintf("POST %s %s: %d %s; nodes: no vector %v, mode %v (put: 0,1 refuse, 2 fail, else accept; query: 0 fail), has %v", route, body, code, out, silent, mode, has)
		}
		d.guard(what, func() { code, out, err = post(route, body) })
		if err != nil {
			d.fail("no answer: %v; %s", err, what())
			continue
		}
		if bad != "" {
			d.fail("unexpected request (%s); %s", bad, what())
		}
		switch {
		case broken:
			if code != 400 || offers > 0 || asked > 0 || len(log.take()) > 0 {
				d.fail("an invalid request must be answered 400 and do nothing: %s", what())
			}
		case put:
			if took > 1 {
				d.fail("%d nodes accepted the point: %s", took, what())
			}
			if took == 1 && code != 200 || took == 0 && code != 500 {
				d.fail("%d nodes accepted the point: %s", took, what())
			}
			if took == 0 {
				seen := map[*vNode]bool{}
				for _, e := range log.take() {
					if e.Meth == "AddDataPoint" {
						seen[e.Node] = true
					}
				}
				if len(seen) != len(nodes) {
					d.fail("gave up after asking %d of %d nodes: %s", len(seen), len(nodes), what())
				}
			}
		default:
			var got []vPt
			if code != 200 || json.Unmarshal(out, &got) != nil {
				d.fail("unusable answer: %s", what())
				break
			}
			same := len(got) == len(sent)
			for j := range got {
				same = same && vSame(got[j], sent[j])
			}
			if !same {
				d.fail("the nodes sent %v: %s", sent, what())
			}
		}
		log.take()
		d.kind("%v %v %d %d %d %v", put, acc, code, took, len(sent), broken)
	}
}
