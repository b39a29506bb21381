package nodes

uses C18 C22
uses C16 C22
uses C17 C22

# A is an arbitrary address.

func (*fetchVecsResSlice).intoVecGenerator(f) (gen) inline
  inv 0 <= i && i <= len(*f) && len(seq) == i
  inv [C18] forall(p, 0, i, view(seq)[p] == view(*f)[p].vec)

func (*fetchVecsResSlice).intoAddrs(f) (res) inline
  inv [C18] forall(p, 0, iter, view(res)[p] == view(*f)[p].addr)

func (*fetchVecsChan).collect(f) (r) inline
  inv [C18] len(r) + okc(queued(f.ch)) == loopold(okc(queued(f.ch)))
  inv [C18] rcnt(A, view(r)) + rcnt(A, queued(f.ch)) <= loopold(rcnt(A, queued(f.ch)))
  inv [C18] forall(p, 0, len(queued(f.ch)), good(queued(f.ch)[p]))
  inv [C18] forall(p, 0, len(r), view(r)[p].ok && good(view(r)[p]))

func fetchVecs(addrs, fetchFunc) (res) inline
  inv [C18] okc(queued(ch)) == resp(G_ev) - loopold(resp(G_ev))
  inv [C18] rcnt(A, queued(ch)) == acnt(A, take(view(addrs), iter))
  inv [C18] forall(p, 0, len(queued(ch)), good(queued(ch)[p]))
  inv [C16] acks(G_ev) == loopold(acks(G_ev))

# an answer that claims to hold the node's vector does
define good(e) = imp(e.ok, said(addrstr(e.addr), e.vec, G_ev) > said(addrstr(e.addr), e.vec, old(G_ev)))

func BestFitNodesFast(args) (res)
  root [C18, C16, C17, C24]
  network
  requires args.KNNSearchFunc != nil
  modifies G_ev, G_last
  sets [C18] G_gen = G_gen
  sets [C18] G_ix = G_ix
  sets [C16, C17] G_best = view(res)
  sets [C16, C17] G_base = len(G_ev)
  ensures fresh: fresh(res)
  ensures [C16] noputs: acks(G_ev) == old(acks(G_ev))
  ensures [C18] listed: acnt(A, view(res)) <= acnt(A, view(args.AddrOpts))
  ensures [C18] answered: len(G_gen) == resp(G_ev) - old(resp(G_ev))
  ensures [C18] all: len(res) == ncomp(args.KNNSearchFunc, args.Vec, G_gen)
  ensures [C18] own: len(G_ix) == len(res) && forall(p, 0, len(res), 0 <= G_ix[p] && G_ix[p] < len(G_gen) && \
    said(addrstr(view(res)[p]), G_gen[G_ix[p]], G_ev) > said(addrstr(view(res)[p]), G_gen[G_ix[p]], old(G_ev)))
  ensures [C18] ranked: forall(p, 0, len(res), forall(q, p, len(res), fscore(args.KNNSearchFunc, args.Vec, G_gen[G_ix[p]]) <= fscore(args.KNNSearchFunc, args.Vec, G_gen[G_ix[q]])))

func BestFitNodesAccurate(args) (res)
  root [C18, C16, C17, C24]
  network
  requires args.KNNSearchFunc != nil
  modifies G_ev, G_last
  sets [C18] G_gen = G_gen
  sets [C18] G_ix = G_ix
  sets [C16, C17] G_best = view(res)
  sets [C16, C17] G_base = len(G_ev)
  ensures fresh: fresh(res)
  ensures [C16] noputs: acks(G_ev) == old(acks(G_ev))
  ensures [C18] listed: acnt(A, view(res)) <= acnt(A, view(args.AddrOpts))
  ensures [C18] answered: len(G_gen) == resp(G_ev) - old(resp(G_ev))
  ensures [C18] all: len(res) == ncomp(args.KNNSearchFunc, args.Vec, G_gen)
  ensures [C18] own: len(G_ix) == len(res) && forall(p, 0, len(res), 0 <= G_ix[p] && G_ix[p] < len(G_gen) && \
    said(addrstr(view(res)[p]), G_gen[G_ix[p]], G_ev) > said(addrstr(view(res)[p]), G_gen[G_ix[p]], old(G_ev)))
  ensures [C18] ranked: forall(p, 0, len(res), forall(q, p, len(res), fscore(args.KNNSearchFunc, args.Vec, G_gen[G_ix[p]]) <= fscore(args.KNNSearchFunc, args.Vec, G_gen[G_ix[q]])))

func bestFitNodes(args, fetcher) (res) inline
  inv len(res) == iter
  inv [C18] forall(p, 0, len(res), view(res)[p] == view(args.AddrOpts)[G_ix[p]])
  inv [C18] acnt(A, view(res)) == pkacnt(A, view(args.AddrOpts), take(G_ix, iter))
