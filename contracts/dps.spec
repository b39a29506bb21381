package dps

uses C16 C22
uses C17 C22

# A is an arbitrary address.

# one offer of the point to a node, and whether the node took it
define offers(e, a, ns, d) = e.Addr == a && (e.Meth == "KMeansServer.AddDataPoint" && e.NS == ns && e.DP == d || e.Meth == "" && !e.OK)
define took(e) = e.Meth == "KMeansServer.AddDataPoint" && e.OK && e.RB

func shuffleAddrs(addrs) (res)
  root [C16, C17, C24]
  modifies now
  sets [C16, C17] G_best = view(res)
  sets [C16, C17] G_base = len(G_ev)
  ensures fresh: fresh(res)
  ensures same: len(res) == len(addrs)
  ensures [C16, C17] perm: acnt(A, view(res)) == acnt(A, view(addrs))
  inv len(res) == len(addrs)
  inv [C16, C17] acnt(A, view(res)) == acnt(A, view(addrs))

# the candidates are asked one after the other, the first that accepts ends it
define tried() = len(G_ev) - G_base
define allrefused(m) = forall(p, 0, m, !took(G_ev[G_base+p]))

func putDataPoint(addrOpt, namespace, dp) (ok) inline
  inv [C16] len(G_ev) == loopold(len(G_ev)) + iter
  inv [C16] acks(G_ev) == loopold(acks(G_ev))
  inv [C16] forall(p, loopold(len(G_ev)), len(G_ev), !took(G_ev[p]) && offers(G_ev[p], addrstr(view(addrOpt)[p-loopold(len(G_ev))]), namespace, dp))

func PutDataPointRand(args) (ok)
  root [C16, C21, C24]
  network
  modifies G_ev, G_last, G_best, G_base, now
  sets [C21] G_put = ok
  sets [C21] G_puts = old(G_puts) + 1
  ensures [C16] once: acks(G_ev) - old(acks(G_ev)) == ite(ok, 1, 0)
  ensures [C16] offered: tried() <= len(G_best) && forall(p, 0, tried(), offers(G_ev[G_base+p], addrstr(G_best[p]), args.Namespace, args.DataPoint))
  ensures [C16] stops: allrefused(tried() - 1) && imp(ok, tried() > 0 && took(G_ev[len(G_ev)-1]))
  ensures [C16] all: imp(!ok, tried() == len(G_best) && allrefused(tried()))
  ensures [C16] candidates: acnt(A, G_best) == acnt(A, view(args.AddrOptions))

func PutDataPointFast(args) (ok)
  root [C16, C21, C24]
  network
  requires args.KNNSearchFunc != nil
  modifies G_ev, G_last, G_best, G_base
  sets [C21] G_put = ok
  sets [C21] G_puts = old(G_puts) + 1
  ensures [C16] once: acks(G_ev) - old(acks(G_ev)) == ite(ok, 1, 0)
  ensures [C16] offered: tried() <= len(G_best) && forall(p, 0, tried(), offers(G_ev[G_base+p], addrstr(G_best[p]), args.Namespace, args.DataPoint))
  ensures [C16] stops: allrefused(tried() - 1) && imp(ok, tried() > 0 && took(G_ev[len(G_ev)-1]))
  ensures [C16] all: imp(!ok, tried() == len(G_best) && allrefused(tried()))

func PutDataPointAccurate(args) (ok)
  root [C16, C21, C24]
  network
  requires args.KNNSearchFunc != nil
  modifies G_ev, G_last, G_best, G_base
  sets [C21] G_put = ok
  sets [C21] G_puts = old(G_puts) + 1
  ensures [C16] once: acks(G_ev) - old(acks(G_ev)) == ite(ok, 1, 0)
  ensures [C16] offered: tried() <= len(G_best) && forall(p, 0, tried(), offers(G_ev[G_base+p], addrstr(G_best[p]), args.Namespace, args.DataPoint))
  ensures [C16] stops: allrefused(tried() - 1) && imp(ok, tried() > 0 && took(G_ev[len(G_ev)-1]))
  ensures [C16] all: imp(!ok, tried() == len(G_best) && allrefused(tried()))

# ---- getting points ----
# one question to a node, after N0 points were received: for the points that are missing
define asks(e, a, ns, v, n, drain, base) = e.Addr == a && (e.Meth == "KMeansServer.KNNLookup" && e.NS == ns && e.V == v && e.B == drain && e.I == n - (e.N0 - base) || e.Meth == "" && !e.OK)
define max0(n) = ite(n > 0, n, 0)

func getDataPoints(args) (res) inline
  inv [C17] len(G_ev) == loopold(len(G_ev)) + iter
  inv [C17] seqeq(G_got, cat(loopold(G_got), view(res)))
  inv [C17] len(res) <= max0(args.n) && imp(iter > 0, len(res) < args.n)
  inv [C17] forall(p, loopold(len(G_ev)), len(G_ev), asks(G_ev[p], addrstr(view(args.addrOpts)[p-loopold(len(G_ev))]), args.namespace, args.queryVec, args.n, args.drain, loopold(len(G_got))))
  inv [C17] forall(p, loopold(len(G_ev)) + 1, len(G_ev), imp(G_ev[p].Meth != "", G_ev[p].I > 0))

func GetDataPointsRand(args) (res)
  root [C17, C24]
  network
  modifies G_ev, G_last, G_best, G_base, G_got, now
  ensures [C17] returned: seqeq(G_got, cat(old(G_got), view(res)))
  ensures [C17] asked: tried() <= len(G_best) && forall(p, 0, tried(), asks(G_ev[G_base+p], addrstr(G_best[p]), args.Namespace, args.QueryVec, args.N, args.Drain, old(len(G_got))))
  ensures [C17] missing: forall(p, 1, tried(), imp(G_ev[G_base+p].Meth != "", G_ev[G_base+p].I > 0))
  ensures [C17] stops: tried() == len(G_best) || len(res) >= args.N
  ensures [C17] atmost: len(res) <= max0(args.N)
  ensures [C17] candidates: acnt(A, G_best) == acnt(A, view(args.AddrOptions))

func GetDataPointsFast(args) (res)
  root [C17, C24]
  network
  requires args.KNNSearchFunc != nil
  modifies G_ev, G_last, G_best, G_base, G_got
  sets [C21] G_found = view(res)
  sets [C21] G_gets = old(G_gets) + 1
  ensures [C17] returned: seqeq(G_got, cat(old(G_got), view(res)))
  ensures [C17] asked: tried() <= len(G_best) && forall(p, 0, tried(), asks(G_ev[G_base+p], addrstr(G_best[p]), args.Namespace, args.QueryVec, args.N, args.Drain, old(len(G_got))))
  ensures [C17] missing: forall(p, 1, tried(), imp(G_ev[G_base+p].Meth != "", G_ev[G_base+p].I > 0))
  ensures [C17] stops: tried() == len(G_best) || len(res) >= args.N
  ensures [C17] atmost: len(res) <= max0(args.N)

func GetDataPointsAccurate(args) (res)
  root [C17, C24]
  network
  requires args.KNNSearchFunc != nil
  modifies G_ev, G_last, G_best, G_base, G_got
  sets [C21] G_found = view(res)
  sets [C21] G_gets = old(G_gets) + 1
  ensures [C17] returned: seqeq(G_got, cat(old(G_got), view(res)))
  ensures [C17] asked: tried() <= len(G_best) && forall(p, 0, tried(), asks(G_ev[G_base+p], addrstr(G_best[p]), args.Namespace, args.QueryVec, args.N, args.Drain, old(len(G_got))))
  ensures [C17] missing: forall(p, 1, tried(), imp(G_ev[G_base+p].Meth != "", G_ev[G_base+p].I > 0))
  ensures [C17] stops: tried() == len(G_best) || len(res) >= args.N
  ensures [C17] atmost: len(res) <= max0(args.N)
