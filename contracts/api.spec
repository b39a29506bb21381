package api

# G_j*: the values under the keys of the request (G_jok: it is valid JSON).
# G_puts, G_put: how often the put operation was used, and its last answer;
# G_gets, G_found: the same for the get operation.
# G_status, G_wrote, G_json, G_jout: the answer, and the JSON text last made with the points in it.
uses C21 C16 C22

define start() = G_status == 0 && G_puts == 0 && G_gets == 0 && G_writes == 0

extern iface:http.ResponseWriter.WriteHeader(w, code) ()
  sets G_status = ite(old(G_status) == 0, code, old(G_status))

extern iface:http.ResponseWriter.Write(w, b) (n, err)
  sets G_status = ite(old(G_status) == 0, 200, old(G_status))
  sets G_wrote = b
  sets G_writes = old(G_writes) + 1

define putargs(h, args) = args.AddrOptions == h.RPCAddrs && args.Namespace == G_jns && args.DataPoint == G_jdp && G_jok
define getargs(h, args) = args.AddrOptions == h.RPCAddrs && args.Namespace == G_jns && args.QueryVec == G_jvec && args.N == G_jn && args.Drain == G_jdrain && G_jok

func (*DP).toDataPoint(dp) (res)
  root [C21, C24]
  requires dp != nil
  inlinein api
  ensures [C21] fields: res.Vec == dp.Vec && res.Payload == dp.Payload && res.Expires == dp.Expires && res.ExpireEnabled == dp.ExpireEnabled

func DataPointsToDPs(dps) (res)
  root [C21, C24]
  ensures fresh: fresh(res)
  ensures [C21] length: len(res) == len(dps)
  ensures [C21] fields: forall(p, 0, len(dps), samepoint(view(res)[p], view(dps)[p]))
  inv len(r) == len(dps)
  inv [C21] forall(p, 0, iter, samepoint(view(r)[p], view(dps)[p]))

define samepoint(a, b) = a.Vec == b.Vec && a.Payload == b.Payload && a.Expires == b.Expires && a.ExpireEnabled == b.ExpireEnabled

func (*handler).putDataPoint(h, w, r) ()
  root [C21, C24]
  top
  network
  requires h != nil && w != nil && r != nil
  requires [C21] start: start()
  modifies G_ev, G_last, G_best, G_base, now
  guard dps.PutDataPointAccurate(args) [C21] args: putargs(h, args) && G_jacc && G_puts == 0
  guard dps.PutDataPointFast(args) [C21] args: putargs(h, args) && !G_jacc && G_puts == 0
  guard dps.PutDataPointRand(args) [C21] args: putargs(h, args) && G_puts == 1 && !G_put
  sets [C21] G_jok = G_jok
  sets [C21] G_status = G_status
  sets [C21] G_put = G_put
  sets [C21] G_puts = G_puts
  ensures [C21] invalid: imp(!G_jok, G_status == 400 && G_puts == 0 && G_ev == old(G_ev))
  ensures [C21] answer: imp(G_jok, G_status == ite(G_put, 200, 500) && (G_puts == 2 || G_puts == 1 && G_put))
  ensures [C21] stored: acks(G_ev) - old(acks(G_ev)) == ite(G_status == 200, 1, 0)

func (*handler).queryDataPoint(h, w, r) ()
  root [C21, C24]
  top
  network
  requires h != nil && w != nil && r != nil
  requires [C21] start: start()
  modifies G_ev, G_last, G_best, G_base, G_got
  guard dps.GetDataPointsAccurate(args) [C21] args: getargs(h, args) && G_jacc && G_gets == 0
  guard dps.GetDataPointsFast(args) [C21] args: getargs(h, args) && !G_jacc && G_gets == 0
  sets [C21] G_jok = G_jok
  sets [C21] G_status = G_status
  sets [C21] G_gets = G_gets
  sets [C21] G_writes = G_writes
  sets [C21] G_wrote = G_wrote
  sets [C21] G_json = G_json
  sets [C21] G_jout = G_jout
  sets [C21] G_found = G_found
  ensures [C21] invalid: imp(!G_jok, G_status == 400 && G_gets == 0 && G_ev == old(G_ev))
  ensures [C21] once: imp(G_jok, G_status == 200 && G_gets == 1 && G_writes == 1 && G_wrote == G_json)
  ensures [C21] answer: imp(G_jok, seqeq(G_jout, G_found))
