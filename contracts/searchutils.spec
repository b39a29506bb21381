package searchutils

uses C24 C01
uses C18 C01

# abstract distance functions: fscore is the value, fok whether it is defined
extern functype:dist(f, a, b) (r, err) 
  ensures iff(err == nil, fok(f, a, b))
  ensures imp(err == nil, r == fscore(f, a, b) && -MAXFLOAT < r && r < MAXFLOAT)

# be(a, b, asc): item a stands rightly before item b
define be(a, b, asc) = imp(b.set, a.set && ite(asc, a.score <= b.score, a.score >= b.score))
define sortedItems(s, asc) = forall(p, 0, len(s), forall(q, p, len(s), be(s[p], s[q], asc)))

func bubble(insertee, items, ascending) ()
  modifies elems(items), *insertee
  requires insertee != nil
  requires [C01] sorted: sortedItems(items, ascending)
  requires [C01] used: insertee.set
  ensures [C01] sorted: sortedItems(items, ascending)
  ensures [C01] nset: nset(view(items)) + ite(insertee.set, 1, 0) == old(nset(view(items)) + 1)
  ensures [C01] occ: occi(Q, view(items)) + ite(insertee.set && insertee.index == Q, 1, 0) == old(occi(Q, view(items)) + ite(insertee.index == Q, 1, 0))
  ensures [C01] from: forall(p, 0, len(items), items[p] == old(*insertee) || exists(q, 0, len(items), items[p] == old(view(items))[q]))
  ensures [C01] carry: *insertee == old(*insertee) && seqeq(view(items), old(view(items))) || exists(q, 0, len(items), *insertee == old(view(items))[q])
  ensures [C01] lost: forall(p, 0, len(items), be(items[p], *insertee, ascending))
  inv [C01] sortedItems(items, ascending)
  inv [C01] nset(view(items)) + ite(insertee.set, 1, 0) == old(nset(view(items)) + 1)
  inv [C01] occi(Q, view(items)) + ite(insertee.set && insertee.index == Q, 1, 0) == old(occi(Q, view(items)) + ite(insertee.index == Q, 1, 0))
  inv [C01] forall(p, 0, i, be(items[p], *insertee, ascending))
  inv [C01] insertee.set || forall(p, i, len(items), !items[p].set)
  inv [C01] forall(p, 0, len(items), items[p] == old(*insertee) || exists(q, 0, len(items), items[p] == old(view(items))[q]))
  inv [C01] forall(p, i, len(items), items[p] == old(view(items))[p])
  inv [C01] *insertee == old(*insertee) && seqeq(view(items), old(view(items))) || exists(q, 0, len(items), *insertee == old(view(items))[q])

func resItems2Indexes(items) (res)
  requires [C01] prefix: forall(p, 0, len(items), forall(q, p, len(items), imp(items[q].set, items[p].set)))
  ensures fresh: fresh(res) && len(res) <= len(items)
  ensures [C01] size: len(res) == nset(view(items))
  ensures [C01] occ: occ(Q, view(res)) == occi(Q, view(items))
  ensures [C01] idx: forall(p, 0, len(res), items[p].set && res[p] == items[p].index)
  ensures [C01] rest: forall(p, len(res), len(items), !items[p].set)
  inv len(res) <= i
  inv [C01] len(res) == nset(take(view(items), i))
  inv [C01] occ(Q, view(res)) == occi(Q, take(view(items), i))
  inv [C01] forall(p, 0, len(res), items[p].set && res[p] == items[p].index)
  inv [C01] forall(p, len(res), i, !items[p].set)

# what a search over ys returns, for the score function f and target t
define inRangeAll(res, ys) = forall(p, 0, len(res), 0 <= view(res)[p] && view(res)[p] < len(ys))

define better(asc, a, b) = ite(asc, a <= b, a >= b)

func KNNBrute(args) (res)
  role args.VecPoolGenerator exhaust
  requires args.VecPoolGenerator != nil
  requires args.DistFunc != nil
  requires [C24] possible: args.K <= 1099511627776
  modifies gen(args.VecPoolGenerator)
  let ys = yielded(args.VecPoolGenerator)
  ensures fresh: fresh(res)
  ensures done: gendone(args.VecPoolGenerator)
  ensures [C01] size: len(res) == min(max(args.K, 0), ncomp(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)))
  ensures [C01] distinct: occ(Q, view(res)) <= 1
  ensures [C01] valid: forall(p, 0, len(res), 0 <= res[p] && res[p] < len(yielded(args.VecPoolGenerator)) && fok(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)[res[p]]))
  ensures [C01] order: forall(p, 0, len(res), forall(q, p, len(res), better(args.Ascending, \
     fscore(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)[res[p]]), fscore(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)[res[q]]))))
  ensures [C01] best: imp(0 <= Q && Q < len(yielded(args.VecPoolGenerator)) && fok(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)[Q]) && occ(Q, view(res)) == 0, \
     forall(p, 0, len(res), better(args.Ascending, fscore(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)[res[p]]), fscore(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)[Q]))))
  inv i == len(yielded(args.VecPoolGenerator))
  inv [C01] forall(p, 0, len(res), !view(res)[p].set)
  inv [C01] nset(view(res)) == min(len(res), ncomp(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)))
  inv [C01] sortedItems(res, args.Ascending)
  inv [C01] occi(Q, view(res)) <= 1 && imp(Q < 0 || Q >= i, occi(Q, view(res)) == 0)
  inv [C01] forall(p, 0, len(res), imp(res[p].set, 0 <= res[p].index && res[p].index < i && fok(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)[res[p].index]) && \
     res[p].score == fscore(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)[res[p].index])))
  inv [C01] imp(0 <= Q && Q < i && fok(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)[Q]) && occi(Q, view(res)) == 0, \
     forall(p, 0, len(res), res[p].set && better(args.Ascending, res[p].score, fscore(args.DistFunc, args.TargetVec, yielded(args.VecPoolGenerator)[Q]))))

# a search over ys: asc = smallest scores first
define topk(res, ys, k, asc, f, t) = len(res) == min(max(k, 0), ncomp(f, t, ys)) && occ(Q, view(res)) <= 1 && \
   forall(p, 0, len(res), 0 <= res[p] && res[p] < len(ys) && fok(f, t, ys[res[p]]))

# euclidean/cosine search results, in terms of the definitions of the scores
define cs(t, v) = cossim(t, v, len(t))
define eu(t, v) = rsqrt(dist2(t, v, len(t)))

func KNNCos(targetVec, gen, k) (res)
  root [C01, C24]
  role gen exhaust
  requires gen != nil
  requires [C24] possible: k <= 1099511627776
  modifies gen(gen)
  ensures fresh: fresh(res)
  ensures [C01] size: len(res) == min(max(k, 0), len(yielded(gen)) - badv(len(targetVec), yielded(gen)))
  ensures [C01] distinct: occ(Q, view(res)) <= 1
  ensures [C01] valid: forall(p, 0, len(res), 0 <= res[p] && res[p] < len(yielded(gen)) && len(yielded(gen)[res[p]]) == len(targetVec))
  ensures [C01] order: forall(p, 0, len(res), forall(q, p, len(res), cs(targetVec, yielded(gen)[res[p]]) >= cs(targetVec, yielded(gen)[res[q]])))
  ensures [C01] best: imp(0 <= Q && Q < len(yielded(gen)) && len(yielded(gen)[Q]) == len(targetVec) && occ(Q, view(res)) == 0, \
     forall(p, 0, len(res), cs(targetVec, yielded(gen)[res[p]]) >= cs(targetVec, yielded(gen)[Q])))

func KFNCos(targetVec, gen, k) (res)
  root [C01, C24]
  role gen exhaust
  requires gen != nil
  requires [C24] possible: k <= 1099511627776
  modifies gen(gen)
  ensures fresh: fresh(res)
  ensures [C01] size: len(res) == min(max(k, 0), len(yielded(gen)) - badv(len(targetVec), yielded(gen)))
  ensures [C01] distinct: occ(Q, view(res)) <= 1
  ensures [C01] valid: forall(p, 0, len(res), 0 <= res[p] && res[p] < len(yielded(gen)) && len(yielded(gen)[res[p]]) == len(targetVec))
  ensures [C01] order: forall(p, 0, len(res), forall(q, p, len(res), cs(targetVec, yielded(gen)[res[p]]) <= cs(targetVec, yielded(gen)[res[q]])))
  ensures [C01] best: imp(0 <= Q && Q < len(yielded(gen)) && len(yielded(gen)[Q]) == len(targetVec) && occ(Q, view(res)) == 0, \
     forall(p, 0, len(res), cs(targetVec, yielded(gen)[res[p]]) <= cs(targetVec, yielded(gen)[Q])))

func KNNEuc(targetVec, gen, k) (res)
  root [C01, C24]
  role gen exhaust
  requires gen != nil
  requires [C24] possible: k <= 1099511627776
  modifies gen(gen)
  ensures fresh: fresh(res)
  ensures [C01] size: len(res) == min(max(k, 0), len(yielded(gen)) - badv(len(targetVec), yielded(gen)))
  ensures [C01] distinct: occ(Q, view(res)) <= 1
  ensures [C01] valid: forall(p, 0, len(res), 0 <= res[p] && res[p] < len(yielded(gen)) && len(yielded(gen)[res[p]]) == len(targetVec))
  ensures [C01] order: forall(p, 0, len(res), forall(q, p, len(res), eu(targetVec, yielded(gen)[res[p]]) <= eu(targetVec, yielded(gen)[res[q]])))
  ensures [C01] best: imp(0 <= Q && Q < len(yielded(gen)) && len(yielded(gen)[Q]) == len(targetVec) && occ(Q, view(res)) == 0, \
     forall(p, 0, len(res), eu(targetVec, yielded(gen)[res[p]]) <= eu(targetVec, yielded(gen)[Q])))

func KFNEuc(targetVec, gen, k) (res)
  root [C01, C24]
  role gen exhaust
  requires gen != nil
  requires [C24] possible: k <= 1099511627776
  modifies gen(gen)
  ensures fresh: fresh(res)
  ensures [C01] size: len(res) == min(max(k, 0), len(yielded(gen)) - badv(len(targetVec), yielded(gen)))
  ensures [C01] distinct: occ(Q, view(res)) <= 1
  ensures [C01] valid: forall(p, 0, len(res), 0 <= res[p] && res[p] < len(yielded(gen)) && len(yielded(gen)[res[p]]) == len(targetVec))
  ensures [C01] order: forall(p, 0, len(res), forall(q, p, len(res), eu(targetVec, yielded(gen)[res[p]]) >= eu(targetVec, yielded(gen)[res[q]])))
  ensures [C01] best: imp(0 <= Q && Q < len(yielded(gen)) && len(yielded(gen)[Q]) == len(targetVec) && occ(Q, view(res)) == 0, \
     forall(p, 0, len(res), eu(targetVec, yielded(gen)[res[p]]) >= eu(targetVec, yielded(gen)[Q])))
