package centroidmanager

uses C14 C07
uses C22 C05
uses C23 C05 C07 C22
uses C12 C07

define refs(cm) = view(cm.Centroids)
define group(cm, p) = view(cm.Centroids)[p]
# a well-formed collection: distinct groups, all of the collection's dimension
define minv(cm) = cm != nil && cm.knnSearchFunc != nil && cm.kfnSearchFunc != nil && cm.initCap >= 0 && cm.initCap <= 1099511627776 && nodup(refs(cm)) && groupsok(cm)
define groupsok(cm) = forall(p, 0, len(cm.Centroids), cinv(group(cm, p)) && len(group(cm, p).vec) == len(cm.vec) && group(cm, p) < next)
define mmeans(cm) = forall(p, 0, len(cm.Centroids), cmean(group(cm, p)))
define vecs() = heap(centroid.Centroid.vec)
define mmean(cm) = imp(len(cm.Centroids) > 0 && J < len(cm.vec), val(cm.vec) * real(len(cm.Centroids)) == mvec(J, vecs(), refs(cm)))
define kcnt(d, cm) = mcnt(d, MDheap(), refs(cm))
define kexps(t, cm) = mexps(t, MDheap(), refs(cm))
define klen(cm) = mlen(MDheap(), refs(cm))
define kmod(cm) = groupsin(refs(cm)) + cm.vec + cm.Centroids + elems(cm.Centroids)
define gmod(cm) = groupsin(refs(cm)) + cm.vec
define same(cm) = cm.Centroids == old(cm.Centroids) && refs(cm) == old(refs(cm)) && len(cm.vec) == old(len(cm.vec))

# a predicate over groups (it does not change them); G_chosen counts its yes
extern functype:pred(f, c) (ok)
  modifies G_chosen
  requires c != nil
  ensures G_chosen == old(G_chosen) + ite(ok, 1, 0)

func NewCentroidManager(args) (cm, ok)
  root [C07, C08, C11, C24]
  requires args.InitCap >= 0 && args.InitCap <= 1099511627776
  ensures ok: ok == (args.KNNSearchFunc != nil && args.KFNSearchFunc != nil)
  ensures empty: len(cm.Centroids) == 0 && imp(ok, len(cm.vec) == len(args.InitVec) && fresh(cm.vec) && fresh(cm.Centroids))
  ensures vec: imp(ok && J < len(cm.vec), val(cm.vec) == val(args.InitVec))
  ensures funcs: imp(ok, cm.knnSearchFunc == args.KNNSearchFunc && cm.kfnSearchFunc == args.KFNSearchFunc && cm.initCap == args.InitCap && cm.centroidDPThreshold == args.CentroidDPThreshold)
  inv imp(J < iter, val(cm.vec) == val(args.InitVec))

func (*CentroidManager).newCentroid(cm, vec) (c)
  requires cm != nil && cm.knnSearchFunc != nil && cm.kfnSearchFunc != nil && cm.initCap >= 0 && cm.initCap <= 1099511627776
  ensures fresh(c) && cinv(c) && len(dps(c)) == 0 && len(c.vec) == len(vec) && c < next
  ensures imp(J < len(vec), val(c.vec) == val(vec))

func (*CentroidManager).Vec(cm) (v)
  getter
  requires cm != nil
  ensures v == cm.vec

func (*CentroidManager).LenDP(cm) (n)
  root [C07, C24]
  requires minv(cm)
  ensures [C07] total: n == klen(cm)
  inv [C07] res == mlen(MDheap(), take(refs(cm), iter))

func (*CentroidManager).centroidVecGenerator(cm) (gen) inline
  inv 0 <= i && i <= len(cm.Centroids)
  inv len(seq) == i
  inv forall(p, 0, i, view(seq)[p] == group(cm, p).vec)
  inv badv(len(cm.vec), view(seq)) == 0
  inv [C08] sumv(J, view(seq)) == mvec(J, vecs(), take(refs(cm), i))

func (*CentroidManager).updateVec(cm) ()
  modifies cm.vec
  requires minv(cm)
  ensures minv(cm) && same(cm)
  ensures [C08] mean: mmean(cm)

func (*CentroidManager).MoveVector(cm) (ok)
  root [C04, C07, C08, C11, C24]
  modifies gmod(cm), now
  requires minv(cm)
  requires [C04] means: mmeans(cm)
  ensures inv: minv(cm) && same(cm)
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures [C07] conserved: imp(live(D), kcnt(D, cm) == old(kcnt(D, cm)))
  ensures [C07] notmore: kcnt(D, cm) <= old(kcnt(D, cm))
  inv minv(cm) && same(cm)
  inv [C04] mmeans(cm)
  inv [C07] imp(live(D), kcnt(D, cm) == old(kcnt(D, cm)))
  inv [C07] kcnt(D, cm) <= old(kcnt(D, cm))

func (*CentroidManager).Expire(cm) ()
  root [C04, C06, C07, C08, C11, C24]
  modifies gmod(cm), now
  requires minv(cm)
  requires [C04] means: mmeans(cm)
  requires [C08] mean: mmean(cm)
  ensures inv: minv(cm) && same(cm)
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures [C07] conserved: imp(live(D), kcnt(D, cm) == old(kcnt(D, cm)))
  ensures [C07] notmore: kcnt(D, cm) <= old(kcnt(D, cm))
  ensures [C06] purged: kexps(old(now), cm) == 0
  inv minv(cm) && same(cm)
  inv [C04] mmeans(cm)
  inv [C08] mmean(cm)
  inv [C07] imp(live(D), kcnt(D, cm) == old(kcnt(D, cm)))
  inv [C07] kcnt(D, cm) <= old(kcnt(D, cm))
  inv [C06] mexps(old(now), MDheap(), take(refs(cm), iter)) == 0

func (*CentroidManager).MemTrim(cm) ()
  root [C04, C06, C07, C08, C11, C24]
  modifies kmod(cm), now
  requires minv(cm)
  requires [C04] means: mmeans(cm)
  requires [C08] mean: mmean(cm)
  ensures inv: minv(cm) && len(cm.vec) == old(len(cm.vec)) && fresh(cm.Centroids)
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures [C07] conserved: imp(live(D), kcnt(D, cm) == old(kcnt(D, cm)))
  ensures [C07] notmore: kcnt(D, cm) <= old(kcnt(D, cm))
  ensures [C06] purged: kexps(old(now), cm) == 0
  ensures [C11] remain: occ(Q, refs(cm)) == ite(len(dps(Q)) > 0, old(occ(Q, refs(cm))), 0)
  inv minv(cm) && same(cm)
  inv [C04] mmeans(cm)
  inv subm(view(centroids), take(refs(cm), iter)) && len(centroids) <= iter
  inv [C07] mcnt(D, MDheap(), view(centroids)) == mcnt(D, MDheap(), take(refs(cm), iter))
  inv [C07] imp(live(D), kcnt(D, cm) == old(kcnt(D, cm)))
  inv [C07] kcnt(D, cm) <= old(kcnt(D, cm))
  inv [C06] mexps(old(now), MDheap(), view(centroids)) == 0
  inv [C11] occ(Q, view(centroids)) == ite(len(dps(Q)) > 0, occ(Q, take(refs(cm), iter)), 0)
  inv forall(p, 0, len(centroids), cinv(view(centroids)[p]) && len(view(centroids)[p].vec) == len(cm.vec) && view(centroids)[p] < next)
  inv [C04] forall(p, 0, len(centroids), cmean(view(centroids)[p]))

define ms(m) = mapsum(hasof(m), valof(m))
define mscmp(cm, m) = msumcmp(hasof(m), valof(m), MDheap(), refs(cm))
define full(cm, m, p) = m[p] >= len(dps(group(cm, p)))

func (*CentroidManager).centroidDataPointPortions(cm, n) (m)
  requires minv(cm)
  ensures fresh: fresh(m) && m != nil
  ensures valid: forall(k, 0, len(cm.Centroids), 0 <= m[k] && m[k] <= len(dps(group(cm, k)))) && keysin(hasof(m), len(cm.Centroids))
  ensures [C09] sum: imp(mscmp(cm, m), ms(m) == min(max(n, 0), klen(cm)))
  ensures atmost: ms(m) <= max(n, 0)
  ensures [C09] even: forall(p, 0, len(cm.Centroids), forall(q, 0, len(cm.Centroids), m[p] >= m[q] - 1 || full(cm, m, p)))
  inv portions != nil && keysin(hasof(portions), len(cm.Centroids))
  inv forall(k, 0, len(cm.Centroids), 0 <= portions[k] && portions[k] <= len(dps(group(cm, k))))
  inv 0 <= assigned && assigned == ms(portions) && assigned < n && n > 0
  inv assigned >= assignedLast
  inv [C09] forall(p, 0, len(cm.Centroids), forall(q, 0, len(cm.Centroids), portions[p] >= portions[q] || full(cm, portions, p)))
  inv [C09] forall(p, 0, iter, forall(q, 0, iter, portions[p] >= portions[q] || full(cm, portions, p)))
  inv [C09] forall(p, 0, iter, forall(q, iter, len(cm.Centroids), portions[p] >= portions[q] + 1 || full(cm, portions, p)))
  inv [C09] forall(p, iter, len(cm.Centroids), forall(q, 0, iter, portions[p] >= portions[q] - 1 || full(cm, portions, p)))
  inv [C09] forall(p, iter, len(cm.Centroids), forall(q, iter, len(cm.Centroids), portions[p] >= portions[q] || full(cm, portions, p)))
  inv [C09] imp(assigned == assignedLast, forall(p, 0, iter, full(cm, portions, p)))

define exp0(cm, p) = exps(now, old(dps(group(cm, p)))) > 0
define gone(cm, p) = old(len(dps(group(cm, p)))) - len(dps(group(cm, p)))

func (*CentroidManager).DrainUnordered(cm, n) (res)
  root [C04, C06, C07, C08, C09, C11, C24]
  modifies gmod(cm), now
  requires minv(cm)
  requires [C04] means: mmeans(cm)
  requires [C08] mean: mmean(cm)
  ensures inv: minv(cm) && same(cm)
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures fresh: fresh(res)
  ensures size: len(res) <= max(n, 0)
  ensures dims: bad(len(cm.vec), view(res)) == 0
  ensures [C07] conserved: imp(live(D), kcnt(D, cm) + cnt(D, view(res)) == old(kcnt(D, cm)))
  ensures [C07] notmore: kcnt(D, cm) + cnt(D, view(res)) <= old(kcnt(D, cm))
  ensures [C06] live: exps(old(now), view(res)) == 0
  ensures [C09] count: len(res) == min(max(n, 0), old(klen(cm))) || mexps(now, old(MDheap()), refs(cm)) > 0
  ensures [C09] even: forall(p, 0, len(cm.Centroids), forall(q, 0, len(cm.Centroids), \
     gone(cm, p) >= gone(cm, q) - 1 || len(dps(group(cm, p))) == 0 || exp0(cm, p) || exp0(cm, q)))
  inv minv(cm) && same(cm)
  inv [C04] mmeans(cm)
  inv [C08] mmean(cm)
  inv fresh(res) && bad(len(cm.vec), view(res)) == 0
  inv len(res) <= mapsum(visited, valof(itermap))
  inv forall(p, 0, len(cm.Centroids), visited[p] || dps(group(cm, p)) == old(dps(group(cm, p))))
  inv imp(mscmp(cm, itermap), keysin(visited, len(cm.Centroids)))
  inv [C07] imp(live(D), kcnt(D, cm) + cnt(D, view(res)) == old(kcnt(D, cm)))
  inv [C07] kcnt(D, cm) + cnt(D, view(res)) <= old(kcnt(D, cm))
  inv [C06] exps(old(now), view(res)) == 0
  inv [C09] len(res) == mapsum(visited, valof(itermap)) || mexps(now, old(MDheap()), refs(cm)) > 0
  inv [C09] forall(p, 0, len(cm.Centroids), imp(visited[p], gone(cm, p) == itermap[p] || exp0(cm, p)))

func (*CentroidManager).DrainOrdered(cm, n) (res)
  root [C04, C06, C07, C08, C09, C11, C24]
  modifies gmod(cm), now
  requires minv(cm)
  requires [C04] means: mmeans(cm)
  requires [C08] mean: mmean(cm)
  ensures inv: minv(cm) && same(cm)
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures fresh: fresh(res)
  ensures size: len(res) <= max(n, 0)
  ensures dims: bad(len(cm.vec), view(res)) == 0
  ensures [C07] conserved: imp(live(D), kcnt(D, cm) + cnt(D, view(res)) == old(kcnt(D, cm)))
  ensures [C07] notmore: kcnt(D, cm) + cnt(D, view(res)) <= old(kcnt(D, cm))
  ensures [C06] live: exps(old(now), view(res)) == 0
  ensures [C09] count: len(res) == min(max(n, 0), old(klen(cm))) || mexps(now, old(MDheap()), refs(cm)) > 0
  ensures [C09] even: forall(p, 0, len(cm.Centroids), forall(q, 0, len(cm.Centroids), \
     gone(cm, p) >= gone(cm, q) - 1 || len(dps(group(cm, p))) == 0 || exp0(cm, p) || exp0(cm, q)))
  inv minv(cm) && same(cm)
  inv [C04] mmeans(cm)
  inv [C08] mmean(cm)
  inv fresh(res) && bad(len(cm.vec), view(res)) == 0
  inv len(res) <= mapsum(visited, valof(itermap))
  inv forall(p, 0, len(cm.Centroids), visited[p] || dps(group(cm, p)) == old(dps(group(cm, p))))
  inv imp(mscmp(cm, itermap), keysin(visited, len(cm.Centroids)))
  inv [C07] imp(live(D), kcnt(D, cm) + cnt(D, view(res)) == old(kcnt(D, cm)))
  inv [C07] kcnt(D, cm) + cnt(D, view(res)) <= old(kcnt(D, cm))
  inv [C06] exps(old(now), view(res)) == 0
  inv [C09] len(res) == mapsum(visited, valof(itermap)) || mexps(now, old(MDheap()), refs(cm)) > 0
  inv [C09] forall(p, 0, len(cm.Centroids), imp(visited[p], gone(cm, p) == itermap[p] || exp0(cm, p)))

func (*CentroidManager).splitCentroid(cm, atIndex, trimN) (c, ok)
  root [C04, C06, C07, C11, C24]
  modifies groupsin(refs(cm)), now
  requires minv(cm)
  requires [C04] means: mmeans(cm)
  ensures inv: minv(cm) && same(cm)
  ensures [C04] means: mmeans(cm)
  ensures ok: ok == (0 <= atIndex && atIndex < len(cm.Centroids) && trimN > 0)
  ensures new: imp(ok, fresh(c) && cinv(c) && len(c.vec) == len(cm.vec) && c < next)
  ensures [C04] newmean: imp(ok, cmean(c))
  ensures [C11] size: imp(ok, len(dps(c)) <= trimN)
  ensures [C08] failed: imp(!ok, mvec(J, vecs(), refs(cm)) == old(mvec(J, vecs(), refs(cm))))
  ensures [C11] others: forall(p, 0, len(cm.Centroids), p == atIndex || dps(group(cm, p)) == old(dps(group(cm, p))))
  ensures [C11] moved: imp(0 <= atIndex && atIndex < len(cm.Centroids), gone(cm, atIndex) <= max(trimN, 0) || exp0(cm, atIndex))
  ensures [C07] conserved: imp(live(D), kcnt(D, cm) + ite(ok, cnt(D, dps(c)), 0) == old(kcnt(D, cm)))
  ensures [C07] notmore: kcnt(D, cm) + ite(ok, cnt(D, dps(c)), 0) <= old(kcnt(D, cm))
  inv minv(cm) && same(cm)
  inv [C04] mmeans(cm)
  inv fresh(newCentroid) && cinv(newCentroid) && len(newCentroid.vec) == len(cm.vec)
  inv [C04] cmean(newCentroid)
  inv 0 <= i && i <= len(dps)
  inv [C11] len(dps(newCentroid)) <= i
  inv [C07] imp(live(D), kcnt(D, cm) + cnt(D, dps(newCentroid)) + cnt(D, drop(view(dps), i)) == old(kcnt(D, cm)))
  inv [C07] kcnt(D, cm) + cnt(D, dps(newCentroid)) + cnt(D, drop(view(dps), i)) <= old(kcnt(D, cm))

func (*CentroidManager).AddDataPoint(cm, dp) (ok)
  root [C04, C06, C07, C08, C11, C24]
  modifies kmod(cm), now
  requires minv(cm)
  requires [C04] means: mmeans(cm)
  requires [C08] mean: mmean(cm)
  ensures inv: minv(cm) && imp(old(len(cm.Centroids)) > 0, len(cm.vec) == old(len(cm.vec)))
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures [C06] expired: imp(expired(dp, old(now)), !ok)
  ensures [C07, C11] accept: imp(!ok, expired(dp, now) || old(len(cm.Centroids)) > 0 && len(dp.Vec) != len(cm.vec)) && imp(ok, len(dp.Vec) == len(cm.vec))
  ensures [C07] stored: imp(live(D), kcnt(D, cm) == old(kcnt(D, cm)) + ite(ok && dp == D, 1, 0))
  ensures [C07] notmore: kcnt(D, cm) <= old(kcnt(D, cm)) + ite(ok && dp == D, 1, 0)
  ensures [C11] groups: len(cm.Centroids) <= old(len(cm.Centroids)) + 1 && imp(ok, len(cm.Centroids) > 0)

func (*CentroidManager).SplitCentroids(cm, split) ()
  root [C04, C06, C07, C08, C11, C24]
  modifies kmod(cm), now, G_chosen
  requires minv(cm) && split != nil
  requires [C04] means: mmeans(cm)
  requires [C08] mean: mmean(cm)
  ensures inv: minv(cm) && len(cm.vec) == old(len(cm.vec))
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures [C07] conserved: imp(live(D), kcnt(D, cm) == old(kcnt(D, cm)))
  ensures [C07] notmore: kcnt(D, cm) <= old(kcnt(D, cm))
  ensures [C11] groups: len(cm.Centroids) <= old(len(cm.Centroids)) + G_chosen - old(G_chosen) && take(refs(cm), old(len(cm.Centroids))) == old(refs(cm))
  ensures [C11] half: forall(p, 0, old(len(cm.Centroids)), old(len(dps(group(cm, p)))) - len(dps(old(group(cm, p)))) <= old(len(dps(group(cm, p)))) / 2 || exp0(cm, p))
  inv minv(cm) && same(cm)
  inv [C04] mmeans(cm)
  inv len(newCentroids) <= iter
  inv [C11] len(newCentroids) <= G_chosen - old(G_chosen)
  inv nodup(view(newCentroids))
  inv forall(p, 0, len(newCentroids), fresh(view(newCentroids)[p]) && cinv(view(newCentroids)[p]) && len(view(newCentroids)[p].vec) == len(cm.vec) && view(newCentroids)[p] < next)
  inv [C04] forall(p, 0, len(newCentroids), cmean(view(newCentroids)[p]))
  inv [C07] imp(live(D), kcnt(D, cm) + mcnt(D, MDheap(), view(newCentroids)) == old(kcnt(D, cm)))
  inv [C07] kcnt(D, cm) + mcnt(D, MDheap(), view(newCentroids)) <= old(kcnt(D, cm))
  inv [C11] forall(p, iter, len(cm.Centroids), dps(group(cm, p)) == old(dps(group(cm, p))))
  inv [C11] forall(p, 0, iter, gone(cm, p) <= old(len(dps(group(cm, p)))) / 2 || exp0(cm, p))

func (*CentroidManager).KNNLookup(cm, vec, k, drain) (res)
  root [C04, C06, C07, C08, C10m, C11, C24]
  modifies gmod(cm), now
  requires minv(cm)
  requires [C04] means: mmeans(cm)
  requires [C08] mean: mmean(cm)
  ensures inv: minv(cm) && same(cm)
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures fresh: fresh(res)
  ensures size: len(res) <= max(k, 0)
  ensures dims: bad(len(cm.vec), view(res)) == 0
  ensures [C07, C10m] conserved: imp(live(D), kcnt(D, cm) + ite(drain, cnt(D, view(res)), 0) == old(kcnt(D, cm)))
  ensures [C07, C10m] notmore: kcnt(D, cm) + ite(drain, cnt(D, view(res)), 0) <= old(kcnt(D, cm))
  ensures [C10m] stored: cnt(D, view(res)) <= old(kcnt(D, cm))
  ensures [C06] live: exps(old(now), view(res)) == 0
  ensures [C10m] count: imp(len(vec) == len(cm.vec), len(res) == min(max(k, 0), old(klen(cm))) || mexps(now, old(MDheap()), refs(cm)) > 0)
  inv minv(cm) && same(cm)
  inv [C04] mmeans(cm)
  inv [C08] mmean(cm)
  inv fresh(res) && bad(len(cm.vec), view(res)) == 0
  inv len(res) <= max(k, 0)
  inv [C07, C10m] imp(live(D), kcnt(D, cm) + ite(drain, cnt(D, view(res)), 0) == old(kcnt(D, cm)))
  inv [C07, C10m] kcnt(D, cm) + ite(drain, cnt(D, view(res)), 0) <= old(kcnt(D, cm))
  inv [C06] exps(old(now), view(res)) == 0
  inv nodup(take(view(ranged_0), iter))
  inv [C10m] forall(p, 0, len(cm.Centroids), occ(p, take(view(ranged_0), iter)) > 0 || dps(group(cm, p)) == old(dps(group(cm, p))))
  inv [C10m] imp(!drain, cnt(D, view(res)) <= pkmcnt(D, old(MDheap()), refs(cm), take(view(ranged_0), iter)))
  inv [C10m] imp(len(vec) == len(cm.vec), len(res) == min(max(k, 0), pkmlen(old(MDheap()), refs(cm), take(view(ranged_0), iter))) || mexps(now, old(MDheap()), refs(cm)) > 0)
  inv len(res) == loopold(len(res)) + iter && seqeq(view(res), cat(loopold(view(res)), take(view(ranged_1), iter)))
  inv MDheap() == loopold(MDheap()) && vecs() == loopold(vecs())

func (*CentroidManager).NearestCentroids(cm, vec, n, drain) (res, ok)
  root [C04, C07, C08, C11, C24]
  modifies cm.vec + cm.Centroids + elems(cm.Centroids)
  requires minv(cm)
  requires [C04] means: mmeans(cm)
  requires [C08] mean: mmean(cm)
  ensures inv: minv(cm) && len(cm.vec) == old(len(cm.vec))
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures failed: imp(!ok, same(cm) && len(res) == 0)
  ensures size: len(res) <= max(n, 0)
  ensures fresh: imp(ok, fresh(res))
  ensures distinct: nodup(view(res))
  ensures groups: forall(p, 0, len(res), cinv(view(res)[p]) && view(res)[p] < next && occ(view(res)[p], old(refs(cm))) >= 1)
  ensures [C11] kept: imp(!drain, same(cm))
  ensures [C11] moved: occ(Q, refs(cm)) + ite(drain, occ(Q, view(res)), 0) == old(occ(Q, refs(cm))) && occ(Q, view(res)) <= old(occ(Q, refs(cm)))
  ensures [C07] conserved: kcnt(D, cm) + ite(drain, mcnt(D, MDheap(), view(res)), 0) == old(kcnt(D, cm))
  inv minv(cm) && len(cm.vec) == old(len(cm.vec)) && ref(cm.Centroids) == old(ref(cm.Centroids)) && cap(cm.Centroids) <= old(cap(cm.Centroids))
  inv [C04] mmeans(cm)
  inv [C08] mmean(cm)
  inv len(centroids) == iter && fresh(centroids)
  inv refs(cm) == loopold(refs(cm))
  inv nodup(view(centroids))
  inv forall(p, 0, len(centroids), view(centroids)[p] == group(cm, view(indexes)[p]))
  inv forall(p, 0, len(centroids), cinv(view(centroids)[p]) && view(centroids)[p] < next && occ(view(centroids)[p], old(refs(cm))) >= 1)
  inv occ(Q, view(centroids)) == pkocc(Q, refs(cm), take(view(indexes), iter))
  inv [C07] mcnt(D, MDheap(), view(centroids)) == pkmcnt(D, MDheap(), refs(cm), take(view(indexes), iter))
  inv len(cm.Centroids) == loopold(len(cm.Centroids)) - len(indexes) + 1 + i
  inv -1 <= i && i < len(indexes)
  inv occ(Q, refs(cm)) + pkocc(Q, loopold(refs(cm)), drop(view(indexes), i+1)) == loopold(occ(Q, refs(cm)))
  inv [C07] kcnt(D, cm) + pkmcnt(D, MDheap(), loopold(refs(cm)), drop(view(indexes), i+1)) == loopold(kcnt(D, cm))
  inv imp(0 <= i && i < len(indexes), forall(p, 0, view(indexes)[i]+1, refs(cm)[p] == loopold(refs(cm))[p]))
  inv imp(0 <= i && i < len(indexes), view(indexes)[i] < len(cm.Centroids))

# groups marked for deletion are empty
define marked(cm, m) = forall(p, 0, len(cm.Centroids), imp(m[p], len(dps(group(cm, p))) == 0))

func (*CentroidManager).MergeCentroids(cm, merge) ()
  root [C04, C06, C07, C08, C11, C24]
  modifies kmod(cm), now, G_chosen
  requires minv(cm) && merge != nil
  requires [C04] means: mmeans(cm)
  requires [C08] mean: mmean(cm)
  ensures inv: minv(cm) && len(cm.vec) == old(len(cm.vec))
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures [C07] conserved: imp(live(D), kcnt(D, cm) == old(kcnt(D, cm)))
  ensures [C07] notmore: kcnt(D, cm) <= old(kcnt(D, cm))
  ensures [C11] groups: subm(refs(cm), old(refs(cm))) && len(cm.Centroids) <= old(len(cm.Centroids))
  inv minv(cm) && len(cm.vec) == old(len(cm.vec)) && ref(cm.Centroids) == old(ref(cm.Centroids)) && cap(cm.Centroids) <= old(cap(cm.Centroids))
  inv same(cm)
  inv [C04] mmeans(cm)
  inv [C07] marked(cm, delMarks)
  inv [C07] !delMarks[iter_0]
  inv [C07] imp(live(D), kcnt(D, cm) == old(kcnt(D, cm)))
  inv [C07] kcnt(D, cm) <= old(kcnt(D, cm))
  inv bad(len(cm.vec), view(ranged_2)) == 0
  inv [C07] imp(live(D), kcnt(D, cm) + cnt(D, drop(view(ranged_2), iter)) == old(kcnt(D, cm)))
  inv [C07] kcnt(D, cm) + cnt(D, drop(view(ranged_2), iter)) <= old(kcnt(D, cm))
  inv -1 <= i && i < len(cm.Centroids) && len(cm.Centroids) <= loopold(len(cm.Centroids))
  inv forall(p, 0, i+1, refs(cm)[p] == loopold(refs(cm))[p])
  inv [C07] forall(p, 0, i+1, imp(delMarks[p], len(dps(loopold(group(cm, p)))) == 0))
  inv [C07] kcnt(D, cm) == loopold(kcnt(D, cm))
  inv [C11] subm(refs(cm), loopold(refs(cm)))

# a receiver seen from the collection that distributes to it; it may be one of
# the collection's own groups, but never changes the collection's list of groups.
# G_rest counts D everywhere outside the collection, G_given the points offered.
define own(cm, r) = isa(r, centroid.Centroid) && occ(ptrof(r, centroid.Centroid), refs(cm)) > 0
define allown(cm, rs) = forall(p, 0, len(rs), own(cm, view(rs)[p]))

extern iface:common.DataPointReceiver.AddDataPoint@centroidmanager(r, dp) (ok)
  modifies centroids, now, G_rest, G_given
  requires minv(SELF)
  requires [C04] mmeans(SELF)
  ensures minv(SELF)
  ensures [C04] mmeans(SELF)
  ensures [C07] G_rest + kcnt(D, SELF) == old(G_rest + kcnt(D, SELF)) + ite(ok && dp == D, 1, 0)
  ensures [C07] G_rest >= old(G_rest) && kcnt(D, SELF) >= old(kcnt(D, SELF))
  ensures [C07] imp(own(SELF, r), G_rest == old(G_rest))
  ensures G_given == old(G_given) + 1

func (*CentroidManager).DistributeDataPoints(cm, n, receivers) ()
  root [C04, C06, C07, C08, C11, C14, C24]
  modifies centroids, cm.vec, now, G_rest, G_given
  requires minv(cm) && forall(p, 0, len(receivers), tagof(view(receivers)[p]) != 0)
  requires [C04] means: mmeans(cm)
  requires [C08] mean: mmean(cm)
  ensures inv: minv(cm) && same(cm)
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures [C07] conserved: imp(live(D), G_rest + kcnt(D, cm) == old(G_rest + kcnt(D, cm)))
  ensures [C07] notmore: G_rest + kcnt(D, cm) <= old(G_rest + kcnt(D, cm))
  ensures [C07] own: imp(allown(cm, receivers), G_rest == old(G_rest))
  ensures [C14] atmost: G_given - old(G_given) <= max(n, 0)
  ensures [C14] none: imp(len(receivers) == 0, MDheap() == old(MDheap()) && G_rest == old(G_rest))
  inv minv(cm) && same(cm)
  inv [C04] mmeans(cm)
  inv [C07] imp(live(D), G_rest + kcnt(D, cm) == old(G_rest + kcnt(D, cm)))
  inv [C07] G_rest + kcnt(D, cm) <= old(G_rest + kcnt(D, cm))
  inv [C07] imp(allown(cm, receivers), G_rest == old(G_rest))
  inv [C14] G_given - old(G_given) <= mapsum(visited, valof(itermap))
  inv bad(len(cm.vec), view(data)) == 0
  inv len(seq) == i && i <= len(receivers)
  inv 0 <= j && j <= len(data)
  inv [C07] imp(live(D), G_rest + kcnt(D, cm) + cnt(D, drop(view(data), j)) == old(G_rest + kcnt(D, cm)))
  inv [C07] G_rest + kcnt(D, cm) + cnt(D, drop(view(data), j)) <= old(G_rest + kcnt(D, cm))
  inv [C14] G_given <= loopold(G_given) + j

func (*CentroidManager).DistributeDataPointsInternal(cm, n) ()
  root [C04, C06, C07, C08, C11, C24]
  modifies centroids, cm.vec, now, G_rest, G_given
  requires minv(cm)
  requires [C04] means: mmeans(cm)
  requires [C08] mean: mmean(cm)
  ensures inv: minv(cm) && same(cm)
  ensures [C04] means: mmeans(cm)
  ensures [C08] mean: mmean(cm)
  ensures [C07] conserved: imp(live(D), kcnt(D, cm) == old(kcnt(D, cm)))
  ensures [C07] notmore: kcnt(D, cm) <= old(kcnt(D, cm))
  ensures [C07] rest: G_rest == old(G_rest)
  inv minv(cm) && same(cm)
  inv len(receivers) == len(cm.Centroids) && forall(p, 0, iter, tagof(view(receivers)[p]) != 0 && isa(view(receivers)[p], centroid.Centroid) && ptrof(view(receivers)[p], centroid.Centroid) == group(cm, p))
