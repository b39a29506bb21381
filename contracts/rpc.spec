package rpc

uses C14 C22
uses C13 C05 C22

# ---- remote calls ----
# G_ev is the trace of remote requests (and, in the server, of operations on
# the node's own collections); G_last is its last event.
define news() = len(G_ev) - old(len(G_ev))
define sent(c, m) = G_ev == cat(old(G_ev), unit(G_last)) && G_last.Addr == c.remoteAddr && \
   (G_last.Meth == m && G_last.NS == c.namespace || G_last.Meth == "" && !G_last.OK) && (*c.err == nil) == G_last.OK
define args(m, e) = imp(G_last.Meth == m, e)
define client(c) = c != nil && c.err != nil

func (*kmeansClient).Namespaces(c) (res)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: G_ev == cat(old(G_ev), unit(G_last)) && G_last.Addr == c.remoteAddr && (G_last.Meth == "KMeansServer.Namespaces" || G_last.Meth == "" && !G_last.OK) && (*c.err == nil) == G_last.OK
  ensures [C22] reply: imp(G_last.OK, res == G_last.RS) && imp(!G_last.OK, res == nil)

func (*kmeansClient).Vec(c) (res)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.Vec")
  ensures [C22] reply: imp(G_last.OK, res == G_last.RV) && imp(!G_last.OK, res == nil)
  relies [C13, C15, C23, C24] imp(res != nil, len(res) == dimof(c.namespace))

func (*kmeansClient).NearestCentroidVec(c, vec) (res)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.NearestCentroidVec")
  ensures [C22] args: args("KMeansServer.NearestCentroidVec", G_last.V == vec)
  ensures [C22] reply: imp(G_last.OK, res == G_last.RV) && imp(!G_last.OK, res == nil)

func (*kmeansClient).AddDataPoint(c, dp) (ok)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.AddDataPoint")
  ensures [C22] args: args("KMeansServer.AddDataPoint", G_last.DP == dp)
  ensures [C22] reply: ok == (G_last.OK && G_last.RB)

func (*kmeansClient).DrainUnordered(c, n) (res)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err, G_got
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.DrainUnordered")
  ensures [C22] args: args("KMeansServer.DrainUnordered", G_last.I == n)
  ensures [C22] reply: seqeq(G_got, cat(old(G_got), view(res))) && imp(!G_last.OK, len(res) == 0)

func (*kmeansClient).DrainOrdered(c, n) (res)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err, G_got
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.DrainOrdered")
  ensures [C22] args: args("KMeansServer.DrainOrdered", G_last.I == n)
  ensures [C22] reply: seqeq(G_got, cat(old(G_got), view(res))) && imp(!G_last.OK, len(res) == 0)

func (*kmeansClient).Expire(c) ()
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.Expire")

func (*kmeansClient).LenDP(c) (n)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.LenDP")
  ensures [C19, C20, C24] plain: imp(old(*c.err == nil), foreign(*c.err))
  relies [C20] n >= 0
  ensures [C22] reply: n == ite(G_last.OK, G_last.RI, 0)

func (*kmeansClient).MemTrim(c) ()
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.MemTrim")

func (*kmeansClient).MoveVector(c) (ok)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.MoveVector")
  ensures [C22] reply: ok == (G_last.OK && G_last.RB)

func (*kmeansClient).DistributeDataPointsFast(c, addrs, n) ()
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.DistributeDataPointsFast")
  ensures [C22] args: args("KMeansServer.DistributeDataPointsFast", G_last.I == n && G_last.L == addrs)

func (*kmeansClient).DistributeDataPointsAccurate(c, addrs, n) ()
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.DistributeDataPointsAccurate")
  ensures [C22] args: args("KMeansServer.DistributeDataPointsAccurate", G_last.I == n && G_last.L == addrs)

func (*kmeansClient).DistributeDataPointsInternal(c, n) ()
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.DistributeDataPointsInternal")
  ensures [C22] args: args("KMeansServer.DistributeDataPointsInternal", G_last.I == n)

func (*kmeansClient).KNNLookup(c, vec, k, drain) (res)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err, G_got
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.KNNLookup")
  ensures [C22] args: args("KMeansServer.KNNLookup", G_last.V == vec && G_last.I == k && G_last.B == drain)
  ensures [C22] reply: seqeq(G_got, cat(old(G_got), view(res))) && imp(!G_last.OK, len(res) == 0)
  ensures [C22] asked: args("KMeansServer.KNNLookup", G_last.N0 == old(len(G_got)))
  relies [C17] len(res) <= ite(k > 0, k, 0)

# a group as it arrives: nil or a new object with points of one dimension
define rg(e) = e == 0 || fresh(e) && e < next && imp(len(dps(e)) > 0, bad(len(dps(e)[0].Vec), dps(e)) == 0)

# groups that arrive are made usable
extern functype:[]float64->*centroid.Centroid(f, vec) (c)
  ensures fresh(c) && cinv(c) && len(dps(c)) == 0 && len(c.vec) == len(vec) && c < next

func (*kmeansClient).NearestCentroids(c, vec, n, drain) (res, ok)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err, G_irc, now
  requires client(c) && c.CentroidFactory != nil
  ensures [C22] sent: sent(c, "KMeansServer.NearestCentroids")
  ensures [C22] args: args("KMeansServer.NearestCentroids", G_last.V == vec && G_last.I == n && G_last.B == drain)
  ensures usable: forall(p, 0, len(res), cinv(view(res)[p]) && fresh(view(res)[p]) && view(res)[p] < next)
  ensures distinct: nodup(view(res)) && len(res) <= len(G_irc) && fresh(res)
  ensures [C22] failed: imp(!G_last.OK, !ok) && imp(!ok, len(res) == 0)
  inv 0 <= i && i <= len(resp)
  inv cap(resp) > 0
  inv fresh(resp)
  inv len(resp) <= len(G_irc)
  inv nodupz(view(resp))
  inv forall(p, 0, min(i, len(resp)), view(resp)[p] != 0 && len(dps(view(resp)[p])) > 0)
  inv forall(p, 0, len(resp), rg(view(resp)[p]))
  inv mcnt(D, MDheap(), view(resp)) == mcnt(D, MDheap(), G_irc)
  inv forall(p, 0, iter, cinv(view(resp)[p]) && fresh(view(resp)[p]) && view(resp)[p] < next)
  inv forall(p, iter, len(resp), rg(view(resp)[p]) && view(resp)[p] != 0 && len(dps(view(resp)[p])) > 0)
  inv forall(p, iter, len(resp), view(resp)[p] == loopold(view(resp))[p])
  inv imp(live(D), mcnt(D, MDheap(), view(resp)) == mcnt(D, MDheap(), G_irc))
  inv mcnt(D, MDheap(), G_irc) == loopold(mcnt(D, MDheap(), G_irc))
  ensures [C22, C23] conserved: imp(live(D) && G_last.OK, mcnt(D, MDheap(), view(res)) == mcnt(D, MDheap(), G_irc))
  sets [C23] G_recv = old(G_recv) + ite(G_last.OK, mcnt(D, MDheap(), G_irc), 0)
  sets [C23] G_recvn = old(G_recvn) + mlen(MDheap(), view(res))
  sets [C23] G_asked = old(G_recvn)
  sets [C23] G_reqs = old(G_reqs) + 1
  sets [C23] G_more = len(res) > 0
  relies [C13, C15, C23, C24] forall(p, 0, len(res), len(view(res)[p].vec) == len(vec))
  relies [C23] len(res) <= max(n, 0)

func (*kmeansClient).SplitCentroids(c, dpRangeMin, dpRangeMax) ()
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.SplitCentroids")
  ensures [C22] args: args("KMeansServer.SplitCentroids", G_last.I == dpRangeMin && G_last.I2 == dpRangeMax)

func (*kmeansClient).MergeCentroids(c, dpRangeMin, dpRangeMax) ()
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.MergeCentroids")
  ensures [C22] args: args("KMeansServer.MergeCentroids", G_last.I == dpRangeMin && G_last.I2 == dpRangeMax)

func (*kmeansClient).StealCentroids(c, fromAddr, transferLimit) (n, ok)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: sent(c, "KMeansServer.StealCentroid")
  ensures [C22] args: args("KMeansServer.StealCentroid", G_last.S == fromAddr && G_last.I == transferLimit)
  ensures [C22] reply: n == ite(G_last.OK, G_last.RI, 0) && ok == (G_last.OK && G_last.RB)

func (*kmeansClient).Meta(c) (r)
  root [C22, C15, C24]
  network
  modifies G_ev, G_last, *c.err
  requires client(c)
  ensures [C22] sent: G_ev == cat(old(G_ev), unit(G_last)) && G_last.Addr == c.remoteAddr && (G_last.Meth == "KMeansServer.Meta" || G_last.Meth == "" && !G_last.OK) && (*c.err == nil) == G_last.OK
  ensures [C22] reply: imp(G_last.OK, r.Centroids == G_last.RI && r.DPs == G_last.RI2)

# ---- the server ----
# G_known: the namespace table as it was when its lock was last released.
define srv(s) = s != nil && s.Table != nil && s.CentroidManagerFactoryFunc != nil
# a request that stands for one collection operation
define fwd(m, ns, err) = imp(err == nil, G_ev == cat(old(G_ev), unit(G_last)) && G_last.Meth == m && G_last.Addr == "#local" && G_last.NS == ns) && \
   imp(err != nil, G_ev == old(G_ev)) && (err == nil) == G_known[ns]

extern functype:[]float64->*centroidmanager.CentroidManager(f, vec) (cm)
  ensures fresh(cm) && minv(cm) && len(cm.Centroids) == 0 && len(cm.vec) == len(vec) && cm < next

func (*KMeansServer).Vec(s, namespace, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s) && resp != nil
  ensures [C13] forwarded: fwd("local.Vec", namespace, err)
  ensures [C13] reply: *resp == ite(err == nil, G_last.RV, old(*resp))

func (*KMeansServer).DrainUnordered(s, args, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s) && resp != nil
  ensures [C13] forwarded: fwd("local.DrainUnordered", args.NameSpace, err)
  ensures [C13] reply: imp(err == nil, G_last.I == args.N) && *resp == ite(err == nil, G_last.RD, old(*resp))

func (*KMeansServer).DrainOrdered(s, args, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s) && resp != nil
  ensures [C13] forwarded: fwd("local.DrainOrdered", args.NameSpace, err)
  ensures [C13] reply: imp(err == nil, G_last.I == args.N) && *resp == ite(err == nil, G_last.RD, old(*resp))

func (*KMeansServer).Expire(s, namespace, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s)
  ensures [C13] forwarded: fwd("local.Expire", namespace, err)

func (*KMeansServer).LenDP(s, namespace, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s) && resp != nil
  ensures [C13] forwarded: fwd("local.LenDP", namespace, err)
  ensures [C13] reply: *resp == ite(err == nil, G_last.RI, old(*resp))

func (*KMeansServer).MemTrim(s, namespace, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s)
  ensures [C13] forwarded: fwd("local.MemTrim", namespace, err)

func (*KMeansServer).MoveVector(s, namespace, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s) && resp != nil
  ensures [C13] forwarded: fwd("local.MoveVector", namespace, err)
  ensures [C13] reply: *resp == ite(err == nil, G_last.RB, old(*resp))

func (*KMeansServer).DistributeDataPointsInternal(s, args, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s)
  ensures [C13] forwarded: fwd("local.DistributeDataPointsInternal", args.NameSpace, err)
  ensures [C13] args: imp(err == nil, G_last.I == args.N)

func (*KMeansServer).KNNLookup(s, args, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s) && resp != nil
  ensures [C13] forwarded: fwd("local.KNNLookup", args.NameSpace, err)
  ensures [C13] args: imp(err == nil, G_last.I == args.K && G_last.V == args.Vec && G_last.B == args.Drain)
  ensures [C13] reply: *resp == ite(err == nil, G_last.RD, old(*resp))

func (*KMeansServer).NearestCentroids(s, args, r) (err)
  root [C13, C15, C24]
  top
  requires srv(s) && r != nil && cap(*r) == 0
  ensures [C13] forwarded: fwd("local.NearestCentroids", args.NameSpace, err)
  ensures [C13] args: imp(err == nil, G_last.I == args.N && G_last.V == args.Vec && G_last.B == args.Drain)
  ensures [C13] reply: imp(err == nil, len(*r) == len(G_last.RCS) && forall(p, 0, len(*r), dps(view(*r)[p]) == dps(G_last.RCS[p])))
  ensures [C15] copies: imp(err == nil, forall(p, 0, len(*r), fresh(view(*r)[p])))
  ensures [C13] failed: imp(err != nil, len(*r) == 0)
  inv len(*r) == iter && iter <= len(G_last.RCS) && loopfresh(*r) && cap(*r) >= 0
  inv forall(p, 0, iter, fresh(view(*r)[p]) && view(*r)[p] < next)
  inv [C13] forall(p, 0, iter, dps(view(*r)[p]) == dps(G_last.RCS[p]))

func (*KMeansServer).NearestCentroidVec(s, args, r) (err)
  root [C13, C15, C24]
  top
  requires srv(s) && r != nil
  ensures [C13] forwarded: fwd("local.NearestCentroids", args.NameSpace, err)
  ensures [C13] args: imp(err == nil, G_last.I == 1 && G_last.V == args.Vec && !G_last.B)
  ensures [C13] reply: *r == ite(err == nil && len(G_last.RCS) > 0, G_last.RCS[0].vec, old(*r))

func (*KMeansServer).SplitCentroids(s, args, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s)
  ensures [C13] forwarded: fwd("local.SplitCentroids", args.NameSpace, err)

func (*KMeansServer).MergeCentroids(s, args, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s)
  ensures [C13] forwarded: fwd("local.MergeCentroids", args.NameSpace, err)

func (*KMeansServer).Namespaces(s, x, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s) && resp != nil
  ensures [C13] listed: err == nil && len(*resp) >= 0

func (*KMeansServer).Meta(s, x, resp) (err)
  root [C13, C15, C24]
  top
  requires srv(s) && resp != nil
  ensures [C13] done: err == nil

func (*KMeansServer).AddDataPoint(s, args, resp) (err)
  root [C12, C13, C15, C24]
  top
  requires srv(s) && resp != nil
  ensures [C12, C13] once: err == nil && G_ev == cat(old(G_ev), unit(G_last)) && G_last.Meth == "local.AddDataPoint" && G_last.Addr == "#local"
  ensures [C12, C13] stored: G_last.NS == args.NameSpace && G_last.DP == args.DP
  ensures [C12] reply: *resp == G_last.RB
  ensures [C12] exists: G_known[args.NameSpace]

# ---- redistribution ----
func (*fetchVecsResSlice).intoVecGenerator(f) (gen) inline
  inv 0 <= i && i <= len(*f) && len(seq) == i

define moved(ns) = away(D, ns, G_ev) - old(away(D, ns, G_ev)) + back(D, ns, G_ev) - old(back(D, ns, G_ev))
define drained(ns) = out(D, ns, G_ev) - old(out(D, ns, G_ev))

func (*KMeansServer).DistributeDataPointsFast(s, args, resp) (err)
  root [C14, C13, C15, C24]
  top
  onedim
  network
  requires srv(s)
  ensures [C14] conserved: imp(live(D), moved(args.NameSpace) == drained(args.NameSpace))
  ensures [C14] few: taken(G_ev) - old(taken(G_ev)) <= max(args.N, 0)
  ensures [C14] none: imp(len(args.AddrOptions) == 0, taken(G_ev) == old(taken(G_ev)))
  ensures [C13, C14] elsewhere: elsewhere(args.NameSpace, G_ev) == old(elsewhere(args.NameSpace, G_ev))
  ensures [C13] missing: imp(err != nil, G_ev == old(G_ev) && !G_known[args.NameSpace])
  inv [C14] away(D, args.NameSpace, G_ev) == loopold(away(D, args.NameSpace, G_ev))
  inv [C14] back(D, args.NameSpace, G_ev) == loopold(back(D, args.NameSpace, G_ev))
  inv [C14] out(D, args.NameSpace, G_ev) == loopold(out(D, args.NameSpace, G_ev))
  inv [C14] taken(G_ev) == loopold(taken(G_ev))
  inv [C13, C14] elsewhere(args.NameSpace, G_ev) == loopold(elsewhere(args.NameSpace, G_ev))
  inv [C14] imp(live(D), moved(args.NameSpace) + cnt(D, drop(view(ranged_0), iter_0)) == drained(args.NameSpace))

func (*KMeansServer).DistributeDataPointsAccurate(s, args, resp) (err)
  root [C14, C13, C15, C24]
  top
  onedim
  network
  requires srv(s)
  ensures [C14] conserved: imp(live(D), moved(args.NameSpace) == drained(args.NameSpace))
  ensures [C14] few: taken(G_ev) - old(taken(G_ev)) <= max(args.N, 0)
  ensures [C14] none: imp(len(args.AddrOptions) == 0, taken(G_ev) == old(taken(G_ev)))
  ensures [C13, C14] elsewhere: elsewhere(args.NameSpace, G_ev) == old(elsewhere(args.NameSpace, G_ev))
  ensures [C13] missing: imp(err != nil, G_ev == old(G_ev) && !G_known[args.NameSpace])
  inv [C14] away(D, args.NameSpace, G_ev) == loopold(away(D, args.NameSpace, G_ev))
  inv [C14] back(D, args.NameSpace, G_ev) == loopold(back(D, args.NameSpace, G_ev))
  inv [C14] out(D, args.NameSpace, G_ev) == loopold(out(D, args.NameSpace, G_ev))
  inv [C14] taken(G_ev) == loopold(taken(G_ev))
  inv [C13, C14] elsewhere(args.NameSpace, G_ev) == loopold(elsewhere(args.NameSpace, G_ev))
  inv [C14] imp(live(D), moved(args.NameSpace) + cnt(D, drop(view(ranged_0), iter_0)) == drained(args.NameSpace))

# ---- stealing ----
# G_recv/G_recvn: how often D is among the points received, and how many were;
# G_home/G_homen: the same of the points that were added to the own collection.
func (*KMeansServer).StealCentroid(s, args, r) (err)
  root [C23, C13, C15, C24]
  top
  onedim
  network
  requires srv(s) && r != nil && r.TransferredN == 0
  ensures [C23] stored: imp(live(D), G_home - old(G_home) == G_recv - old(G_recv))
  ensures [C23] storedn: G_homen - old(G_homen) == G_recvn - old(G_recvn)
  ensures [C23] reported: err == nil && r.TransferredN == G_recvn - old(G_recvn)
  ensures [C23] limit: imp(G_reqs > old(G_reqs), G_asked - old(G_recvn) < args.TransferDPLimit)
  ensures [C23] enough: imp(G_reqs > old(G_reqs) && G_more && r.OK, r.TransferredN >= args.TransferDPLimit)
  ensures [C13, C23] elsewhere: elsewhere(args.NameSpace, G_ev) == old(elsewhere(args.NameSpace, G_ev))
  inv [C23] imp(live(D), G_home - old(G_home) == G_recv - old(G_recv))
  inv [C23] G_homen - old(G_homen) == G_recvn - old(G_recvn)
  inv [C23] r.TransferredN == G_recvn - old(G_recvn)
  inv [C23] imp(G_reqs > old(G_reqs), G_asked - old(G_recvn) < args.TransferDPLimit)
  inv [C23] imp(G_reqs > old(G_reqs), G_more)
  inv [C13, C23] elsewhere(args.NameSpace, G_ev) == loopold(elsewhere(args.NameSpace, G_ev))
