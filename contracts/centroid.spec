package centroid

# a group: bad/sum/cnt/exps are measures over the sequence of stored points;
# J is an arbitrary coordinate, D an arbitrary point.
define cinv(c) = c != nil && bad(len(c.vec), dps(c)) == 0 && c.knnSearchFunc != nil && c.kfnSearchFunc != nil
define cmean(c) = imp(len(dps(c)) > 0 && J < len(c.vec), val(c.vec) * real(len(dps(c))) == sum(J, dps(c)))
# the array of stored points stays the group's own
define owned(c) = (ref(c.DataPoints) == old(ref(c.DataPoints)) && cap(c.DataPoints) <= old(cap(c.DataPoints))) || fresh(ref(c.DataPoints)) || c.DataPoints == nil
define apart(ds, c) = cap(ds) == 0 || ref(ds) != ref(c.DataPoints)
define expired(d, t) = d.ExpireEnabled && t > d.Expires
define live(d) = !(d.ExpireEnabled && now > d.Expires)
define vecsof(ys, ds) = len(ys) == len(ds) && forall(p, 0, len(ys), ys[p] == ds[p].Vec)

# a search function given to a group: distinct positions of the stream it
# exhausts, the best first; fscore/fok stand for its score.
extern functype:search(f, target, vecs, k) (res)
  role vecs exhaust
  requires vecs != nil
  requires [C24] possible: k <= 1099511627776
  modifies gen(vecs)
  sets [C18] G_gen = yielded(vecs)
  sets [C18] G_ix = view(res)
  ensures fresh(res) && len(res) <= max(k, 0)
  ensures gendone(vecs)
  ensures len(res) == min(max(k, 0), ncomp(f, target, yielded(vecs)))
  ensures badv(len(target), yielded(vecs)) + ncomp(f, target, yielded(vecs)) == len(yielded(vecs))
  ensures occ(Q, view(res)) <= 1
  ensures nodup(view(res))
  ensures forall(p, 0, len(res), forall(q, p+1, len(res), res[p] != res[q]))
  ensures forall(p, 0, len(res), 0 <= res[p] && res[p] < len(yielded(vecs)) && len(yielded(vecs)[res[p]]) == len(target))
  ensures [C10, C18] forall(p, 0, len(res), forall(q, p, len(res), fscore(f, target, yielded(vecs)[res[p]]) <= fscore(f, target, yielded(vecs)[res[q]])))
  ensures [C10] forall(q, 0, len(yielded(vecs)), occ(q, view(res)) <= 1)
  ensures [C10] forall(q, 0, len(yielded(vecs)), imp(len(yielded(vecs)[q]) == len(target) && occ(q, view(res)) == 0, \
     forall(p, 0, len(res), fscore(f, target, yielded(vecs)[res[p]]) <= fscore(f, target, yielded(vecs)[q]))))

func NewCentroid(args) (c, ok)
  root [C04, C05, C11]
  requires args.InitCap >= 0 && args.InitCap <= 1099511627776
  ensures ok: ok == (args.KNNSearchFunc != nil && args.KFNSearchFunc != nil)
  ensures empty: len(c.DataPoints) == 0 && imp(ok, len(c.vec) == len(args.InitVec) && fresh(c.vec) && fresh(c.DataPoints))
  ensures vec: imp(ok && J < len(c.vec), val(c.vec) == val(args.InitVec))
  ensures funcs: imp(ok, c.knnSearchFunc == args.KNNSearchFunc && c.kfnSearchFunc == args.KFNSearchFunc)
  inv imp(J < iter, val(c.vec) == val(args.InitVec))

func (*Centroid).Vec(c) (v)
  getter
  requires c != nil
  ensures v == c.vec

func (*Centroid).LenDP(c) (n)
  getter
  root [C07]
  requires c != nil
  ensures n == len(dps(c))

func (*Centroid).addDataPoint(c, dp) ()
  modifies centroid(c)
  requires cinv(c) && len(dp.Vec) == len(c.vec)
  requires [C04] mean: cmean(c)
  ensures inv: cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  ensures added: seqeq(dps(c), cat(old(dps(c)), unit(dp)))
  ensures [C04] mean: cmean(c)

func (*Centroid).AddDataPoint(c, dp) (ok)
  root [C04, C05, C06]
  modifies centroid(c), now
  requires cinv(c)
  requires [C04] mean: cmean(c)
  ensures inv: cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  ensures [C04] mean: cmean(c)
  ensures added: ite(ok, seqeq(dps(c), cat(old(dps(c)), unit(dp))), seqeq(dps(c), old(dps(c))))
  ensures refused: imp(!ok, c.vec == old(c.vec))
  ensures ok: imp(ok, len(dp.Vec) == len(c.vec) && !expired(dp, old(now))) && imp(!ok, len(dp.Vec) != len(c.vec) || expired(dp, now))

func (*Centroid).rmDataPoint(c, index) ()
  modifies centroid(c)
  requires cinv(c) && 0 <= index && index < len(dps(c))
  requires [C04] mean: cmean(c)
  ensures inv: cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  ensures removed: seqeq(dps(c), cat(take(old(dps(c)), index), drop(old(dps(c)), index+1)))
  ensures [C04] mean: cmean(c)

func (*Centroid).dataPointVecGenerator(c) (gen) inline
  inv cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  inv [C04] cmean(c)
  inv 0 <= i && i <= len(dps(c))
  inv len(seq) == i
  inv forall(p, 0, i, view(seq)[p] == dps(c)[p].Vec)
  inv badv(len(c.vec), view(seq)) == 0
  inv [C04] sumv(J, view(seq)) == sum(J, take(dps(c), i))
  inv [C05, C06, C07, C09, C10, C10m] imp(live(D), cnt(D, dps(c)) == old(cnt(D, dps(c))))
  inv [C05, C07, C10, C10m] cnt(D, dps(c)) <= old(cnt(D, dps(c)))
  inv len(dps(c)) <= old(len(dps(c)))
  inv [C06] exps(old(now), take(dps(c), i)) == 0
  inv [C09, C10, C10m, C11] seqeq(dps(c), old(dps(c))) || exps(now, old(dps(c))) > 0

func (*Centroid).clampN(c, n) (res)
  requires c != nil
  ensures res == min(max(n, 0), len(dps(c)))

func (*Centroid).DrainUnordered(c, n) (res)
  root [C04, C05, C06, C09, C24]
  modifies centroid(c), now
  requires cinv(c)
  requires [C04] mean: cmean(c)
  ensures inv: cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  ensures [C04] mean: cmean(c)
  ensures fresh: fresh(res) && apart(res, c)
  ensures size: len(res) <= max(n, 0) && len(dps(c)) + len(res) <= old(len(dps(c)))
  ensures all: imp(n >= old(len(dps(c))), len(dps(c)) == 0)
  ensures dims: bad(len(c.vec), view(res)) == 0
  ensures [C05, C07] conserved: imp(live(D), cnt(D, dps(c)) + cnt(D, view(res)) == old(cnt(D, dps(c))))
  ensures [C05, C07] notmore: cnt(D, dps(c)) + cnt(D, view(res)) <= old(cnt(D, dps(c)))
  ensures [C06] live: exps(old(now), view(res)) == 0
  ensures [C06] done: imp(n >= old(len(dps(c))), exps(old(now), dps(c)) == 0)
  ensures [C09] count: len(res) == min(max(n, 0), old(len(dps(c)))) || exps(now, old(dps(c))) > 0
  ensures [C09, C11] rest: len(dps(c)) + len(res) == old(len(dps(c))) || exps(now, old(dps(c))) > 0
  inv cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  inv [C04] cmean(c)
  inv len(dps(c)) + len(res) <= old(len(dps(c)))
  inv len(res) <= max(old(n), 0)
  inv bad(len(c.vec), view(res)) == 0
  inv [C05, C07] imp(live(D), cnt(D, dps(c)) + cnt(D, view(res)) == old(cnt(D, dps(c))))
  inv [C05, C07] cnt(D, dps(c)) + cnt(D, view(res)) <= old(cnt(D, dps(c)))
  inv [C06] exps(old(now), view(res)) == 0
  inv [C09, C11] len(dps(c)) + len(res) == old(len(dps(c))) || exps(now, old(dps(c))) > 0
  inv [C09, C11] forall(p, 0, len(dps(c)), dps(c)[p] == old(dps(c))[p + old(len(dps(c))) - len(dps(c))])


func (*Centroid).DrainOrdered(c, n) (res)
  root [C04, C05, C06, C09, C24]
  modifies centroid(c), now
  requires cinv(c)
  requires [C04] mean: cmean(c)
  ensures inv: cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  ensures [C04] mean: cmean(c)
  ensures fresh: fresh(res) && apart(res, c)
  ensures size: len(res) <= max(n, 0) && len(dps(c)) + len(res) <= old(len(dps(c)))
  ensures dims: bad(len(c.vec), view(res)) == 0
  ensures [C05, C07] conserved: imp(live(D), cnt(D, dps(c)) + cnt(D, view(res)) == old(cnt(D, dps(c))))
  ensures [C05, C07] notmore: cnt(D, dps(c)) + cnt(D, view(res)) <= old(cnt(D, dps(c)))
  ensures [C06] live: exps(old(now), view(res)) == 0
  ensures [C09] count: len(res) == min(max(n, 0), old(len(dps(c)))) || exps(now, old(dps(c))) > 0
  ensures [C09, C11] rest: len(dps(c)) + len(res) == old(len(dps(c))) || exps(now, old(dps(c))) > 0
  inv cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  inv [C04] cmean(c)
  inv len(res) == iter
  inv forall(p, 0, iter, view(res)[p] == dps(c)[view(indexes)[p]])
  inv bad(len(c.vec), view(res)) == 0
  inv [C05, C07] cnt(D, view(res)) == pick(D, dps(c), take(view(indexes), iter))
  inv [C06] exps(old(now), view(res)) == 0
  inv len(dps(c)) + len(indexes) - 1 - i == loopold(len(dps(c)))
  inv len(dps(c)) == loopold(len(dps(c))) - len(indexes) + 1 + i
  inv -1 <= i && i < len(indexes)
  inv [C05, C07] cnt(D, dps(c)) + pick(D, loopold(dps(c)), drop(view(indexes), i+1)) == loopold(cnt(D, dps(c)))
  inv imp(0 <= i && i < len(indexes), forall(p, 0, view(indexes)[i]+1, dps(c)[p] == loopold(dps(c))[p]))
  inv imp(0 <= i && i < len(indexes), view(indexes)[i] < len(dps(c)))

func (*Centroid).Expire(c) ()
  root [C04, C05, C06, C24]
  modifies centroid(c), now
  requires cinv(c)
  requires [C04] mean: cmean(c)
  ensures inv: cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  ensures [C04] mean: cmean(c)
  ensures [C05, C07] conserved: imp(live(D), cnt(D, dps(c)) == old(cnt(D, dps(c))))
  ensures [C05, C07] notmore: cnt(D, dps(c)) <= old(cnt(D, dps(c)))
  ensures [C06] purged: exps(old(now), dps(c)) == 0
  inv cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  inv [C04] cmean(c)
  inv 0 <= i && i <= len(dps(c))
  inv [C05, C07] imp(live(D), cnt(D, dps(c)) == old(cnt(D, dps(c))))
  inv [C05, C07] cnt(D, dps(c)) <= old(cnt(D, dps(c)))
  inv [C06] exps(old(now), take(dps(c), i)) == 0

func (*Centroid).MemTrim(c) ()
  root [C04, C05, C06, C24]
  modifies centroid(c), now
  requires cinv(c)
  requires [C04] mean: cmean(c)
  ensures inv: cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  ensures [C04] mean: cmean(c)
  ensures [C05, C07] conserved: imp(live(D), cnt(D, dps(c)) == old(cnt(D, dps(c))))
  ensures [C05, C07] notmore: cnt(D, dps(c)) <= old(cnt(D, dps(c)))
  ensures [C06] purged: exps(old(now), dps(c)) == 0
  inv cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  inv [C04] cmean(c)
  inv bad(len(c.vec), view(dps)) == 0
  inv [C05, C07] imp(live(D), cnt(D, dps(c)) + cnt(D, view(dps)) == old(cnt(D, dps(c))))
  inv [C05, C07] cnt(D, dps(c)) + cnt(D, view(dps)) <= old(cnt(D, dps(c)))
  inv [C06] exps(old(now), view(dps)) == 0

func (*Centroid).MoveVector(c) (ok)
  root [C04, C05, C24]
  modifies centroid(c), now
  requires cinv(c)
  requires [C04] mean: cmean(c)
  ensures inv: cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  ensures [C04] mean: cmean(c)
  ensures [C05, C07] conserved: imp(live(D), cnt(D, dps(c)) == old(cnt(D, dps(c))))
  ensures [C05, C07] notmore: cnt(D, dps(c)) <= old(cnt(D, dps(c)))

func (*Centroid).KNNLookup(c, vec, k, drain) (res)
  root [C04, C05, C06, C10, C10m, C24]
  modifies centroid(c), now
  requires cinv(c)
  requires [C04] mean: cmean(c)
  ensures inv: cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  ensures [C04] mean: cmean(c)
  ensures fresh: fresh(res) && apart(res, c)
  ensures size: len(res) <= max(k, 0) && len(res) <= old(len(dps(c)))
  ensures dims: bad(len(c.vec), view(res)) == 0
  ensures [C05, C07, C10, C10m] conserved: imp(live(D), cnt(D, dps(c)) + ite(drain, cnt(D, view(res)), 0) == old(cnt(D, dps(c))))
  ensures [C05, C07, C10, C10m] notmore: cnt(D, dps(c)) + ite(drain, cnt(D, view(res)), 0) <= old(cnt(D, dps(c)))
  ensures [C10, C10m] stored: cnt(D, view(res)) <= old(cnt(D, dps(c)))
  ensures [C06] live: exps(old(now), view(res)) == 0
  ensures [C10, C10m] count: imp(len(vec) == len(c.vec), len(res) == min(max(k, 0), old(len(dps(c)))) || exps(now, old(dps(c))) > 0)
  ensures [C10] order: forall(p, 0, len(res), forall(q, p, len(res), fscore(c.knnSearchFunc, vec, view(res)[p].Vec) <= fscore(c.knnSearchFunc, vec, view(res)[q].Vec)))
  ensures [C10] nearest: imp(live(D) && len(D.Vec) == len(vec) && cnt(D, view(res)) < old(cnt(D, dps(c))), \
     forall(p, 0, len(res), fscore(c.knnSearchFunc, vec, view(res)[p].Vec) <= fscore(c.knnSearchFunc, vec, D.Vec)))
  inv cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  inv [C04] cmean(c)
  inv len(res) == iter
  inv forall(p, 0, iter, view(res)[p] == dps(c)[view(indexes)[p]])
  inv bad(len(c.vec), view(res)) == 0
  inv [C05, C07, C10, C10m] cnt(D, view(res)) == pick(D, dps(c), take(view(indexes), iter))
  inv [C06] exps(old(now), view(res)) == 0
  inv len(dps(c)) == loopold(len(dps(c))) - len(indexes) + 1 + i
  inv -1 <= i && i < len(indexes)
  inv [C05, C07, C10, C10m] cnt(D, dps(c)) + pick(D, loopold(dps(c)), drop(view(indexes), i+1)) == loopold(cnt(D, dps(c)))
  inv imp(0 <= i && i < len(indexes), forall(p, 0, view(indexes)[i]+1, dps(c)[p] == loopold(dps(c))[p]))
  inv imp(0 <= i && i < len(indexes), view(indexes)[i] < len(dps(c)))

# a receiver of points, seen from a group that distributes to it (and that may
# itself be the receiver or part of it): G_rest counts D everywhere outside the
# group. Every receiver in the repository meets this by its own contract.
extern iface:common.DataPointReceiver.Vec(r) (v)

extern iface:common.DataPointReceiver.AddDataPoint@centroid(r, dp) (ok)
  modifies centroids, now, G_rest
  requires cinv(SELF)
  requires [C04] cmean(SELF)
  ensures cinv(SELF) && len(SELF.vec) == old(len(SELF.vec)) && owned(SELF)
  ensures [C04] cmean(SELF)
  ensures [C05, C07] G_rest + cnt(D, dps(SELF)) == old(G_rest + cnt(D, dps(SELF))) + ite(ok && dp == D, 1, 0)
  ensures [C05, C07] G_rest >= old(G_rest) && cnt(D, dps(SELF)) >= old(cnt(D, dps(SELF)))

func (*Centroid).DistributeDataPoints(c, n, receivers) ()
  inlinein centroidmanager
  root [C04, C05, C24]
  modifies centroids, now, G_rest
  requires cinv(c)
  requires forall(p, 0, len(receivers), tagof(view(receivers)[p]) != 0)
  requires [C04] mean: cmean(c)
  ensures inv: cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  ensures [C04] mean: cmean(c)
  ensures [C05, C07] conserved: imp(live(D), G_rest + cnt(D, dps(c)) == old(G_rest + cnt(D, dps(c))))
  ensures [C05, C07] notmore: G_rest + cnt(D, dps(c)) <= old(G_rest + cnt(D, dps(c)))
  ensures [C05, C07] bounded: cnt(D, dps(c)) >= old(cnt(D, dps(c))) - max(n, 0) || !live(D)
  inv cinv(c) && len(c.vec) == old(len(c.vec)) && owned(c)
  inv [C04] cmean(c)
  inv bad(len(c.vec), view(data)) == 0
  inv len(seq) == i && i <= len(receivers)
  inv forall(p, 0, len(receivers), tagof(view(receivers)[p]) != 0)
  inv 0 <= j && j <= len(data)
  inv [C05, C07] imp(live(D), G_rest + cnt(D, dps(c)) + cnt(D, drop(view(data), j)) == old(G_rest + cnt(D, dps(c))))
  inv [C05, C07] G_rest + cnt(D, dps(c)) + cnt(D, drop(view(data), j)) <= old(G_rest + cnt(D, dps(c)))
  inv [C05, C07] cnt(D, dps(c)) >= loopold(cnt(D, dps(c)))
