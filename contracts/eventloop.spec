package eventloop

uses C19 C22
uses C20 C22

# G_ran: how often a task was run by withSkip; G_meta: how often metadata was logged.
define within(x) = 1 <= x && x <= 1000
define clamped(x) = ite(x < 1, 1, ite(x > 1000, 1000, x))
define sane(s) = within(s.Expire) && within(s.MemTrim) && within(s.DistributeDataPointsFast) && within(s.DistributeDataPointsAccurate) && \
   within(s.DistributeDataPointsInternal) && within(s.SplitCentroids) && within(s.MergeCentroids) && within(s.LoadBalancing) && within(s.Meta)
define cfgok(c) = c != nil && sane(c.TaskSkip) && c.L != nil
define news() = len(G_ev) - old(len(G_ev))
define due(c, i) = c.internal.iter % i == 0

extern iface:eventloop.Logger.LogTask(l, s) ()

extern iface:eventloop.Logger.LogMeta(l, m) ()
  sets G_meta = old(G_meta) + 1

extern functype:->(f) ()
  sets G_ran = old(G_ran) + 1

func (*EventLoopConfig).validate(cfg) ()
  root [C19, C24]
  requires cfg != nil
  modifies *cfg
  ensures [C19] clamped: cfg.TaskSkip.Expire == clamped(old(cfg.TaskSkip.Expire)) && cfg.TaskSkip.MemTrim == clamped(old(cfg.TaskSkip.MemTrim)) && \
    cfg.TaskSkip.DistributeDataPointsFast == clamped(old(cfg.TaskSkip.DistributeDataPointsFast)) && \
    cfg.TaskSkip.DistributeDataPointsAccurate == clamped(old(cfg.TaskSkip.DistributeDataPointsAccurate)) && \
    cfg.TaskSkip.DistributeDataPointsInternal == clamped(old(cfg.TaskSkip.DistributeDataPointsInternal)) && \
    cfg.TaskSkip.SplitCentroids == clamped(old(cfg.TaskSkip.SplitCentroids)) && cfg.TaskSkip.MergeCentroids == clamped(old(cfg.TaskSkip.MergeCentroids)) && \
    cfg.TaskSkip.LoadBalancing == clamped(old(cfg.TaskSkip.LoadBalancing)) && cfg.TaskSkip.Meta == clamped(old(cfg.TaskSkip.Meta))
  ensures usable: cfgok(cfg)
  ensures [C19] counter: cfg.internal.iter == old(cfg.internal.iter)

func withSkip(cfg, interval, task) ()
  root [C19, C24]
  requires cfg != nil && task != nil && interval != 0
  inlinein eventloop
  sets G_ran = G_ran
  ensures [C19] run: G_ran == old(G_ran) + ite(due(cfg, interval), 1, 0)

# a request to node a, if the node could be reached at all
define req(e, m, a) = e.Addr == a && (e.Meth == m || e.Meth == "" && !e.OK)
define first() = G_ev[old(len(G_ev))]
# one request for every namespace of the local node
define asked(c) = news() > 0 && req(first(), "KMeansServer.Namespaces", addrstr(c.LocalAddr))
define each(c, m) = asked(c) && news() == 1 + ite(first().OK, len(first().RS), 0) && \
   forall(p, old(len(G_ev)) + 1, len(G_ev), req(G_ev[p], m, addrstr(c.LocalAddr)) && imp(G_ev[p].Meth != "", G_ev[p].NS == view(first().RS)[p-old(len(G_ev))-1]))
define eachinv(c, m, names) = take(G_ev, loopold(len(G_ev))) == loopold(G_ev) && len(G_ev) == loopold(len(G_ev)) + iter && \
   forall(p, loopold(len(G_ev)), len(G_ev), req(G_ev[p], m, addrstr(c.LocalAddr)) && imp(G_ev[p].Meth != "", G_ev[p].NS == view(names)[p-loopold(len(G_ev))]))
define withargs(from, m, i, j) = forall(p, from, len(G_ev), imp(G_ev[p].Meth == m, G_ev[p].I == i && G_ev[p].I2 == j))

func eltExpire(cfg) ()
  root [C19, C24]
  network
  requires cfgok(cfg)
  modifies G_ev, G_last
  ensures [C19] skipped: imp(!due(cfg, cfg.TaskSkip.Expire), G_ev == old(G_ev))
  ensures [C19] run: imp(due(cfg, cfg.TaskSkip.Expire), each(cfg, "KMeansServer.Expire"))
  inv [C19] eachinv(cfg, "KMeansServer.Expire", ranged_0)

func eltMemTrim(cfg) ()
  root [C19, C24]
  network
  requires cfgok(cfg)
  modifies G_ev, G_last
  ensures [C19] skipped: imp(!due(cfg, cfg.TaskSkip.MemTrim), G_ev == old(G_ev))
  ensures [C19] run: imp(due(cfg, cfg.TaskSkip.MemTrim), each(cfg, "KMeansServer.MemTrim"))
  inv [C19] eachinv(cfg, "KMeansServer.MemTrim", ranged_0)

func eltMergeCentroids(cfg) ()
  root [C19, C24]
  network
  requires cfgok(cfg)
  modifies G_ev, G_last
  ensures [C19] skipped: imp(!due(cfg, cfg.TaskSkip.MergeCentroids), G_ev == old(G_ev))
  ensures [C19] run: imp(due(cfg, cfg.TaskSkip.MergeCentroids), each(cfg, "KMeansServer.MergeCentroids"))
  inv [C19] eachinv(cfg, "KMeansServer.MergeCentroids", ranged_0)
  ensures [C19] args: withargs(old(len(G_ev)), "KMeansServer.MergeCentroids", cfg.MergeCentroidsMin, cfg.MergeCentroidsMax)
  inv [C19] withargs(loopold(len(G_ev)), "KMeansServer.MergeCentroids", cfg.MergeCentroidsMin, cfg.MergeCentroidsMax)

func eltSplitCentroids(cfg) ()
  root [C19, C24]
  network
  requires cfgok(cfg)
  modifies G_ev, G_last
  ensures [C19] skipped: imp(!due(cfg, cfg.TaskSkip.SplitCentroids), G_ev == old(G_ev))
  ensures [C19] run: imp(due(cfg, cfg.TaskSkip.SplitCentroids), each(cfg, "KMeansServer.SplitCentroids"))
  inv [C19] eachinv(cfg, "KMeansServer.SplitCentroids", ranged_0)
  ensures [C19] args: withargs(old(len(G_ev)), "KMeansServer.SplitCentroids", cfg.SplitCentroidsMin, cfg.SplitCentroidsMax)
  inv [C19] withargs(loopold(len(G_ev)), "KMeansServer.SplitCentroids", cfg.SplitCentroidsMin, cfg.SplitCentroidsMax)

func eltDistributeDataPointsInternal(cfg) ()
  root [C19, C24]
  network
  requires cfgok(cfg)
  modifies G_ev, G_last
  ensures [C19] skipped: imp(!due(cfg, cfg.TaskSkip.DistributeDataPointsInternal), G_ev == old(G_ev))
  ensures [C19] run: imp(due(cfg, cfg.TaskSkip.DistributeDataPointsInternal), each(cfg, "KMeansServer.DistributeDataPointsInternal"))
  inv [C19] eachinv(cfg, "KMeansServer.DistributeDataPointsInternal", ranged_0)
  ensures [C19] args: forall(p, old(len(G_ev)), len(G_ev), imp(G_ev[p].Meth == "KMeansServer.DistributeDataPointsInternal", G_ev[p].I == cfg.DistributeDataPointsInternalN))
  inv [C19] forall(p, loopold(len(G_ev)), len(G_ev), imp(G_ev[p].Meth == "KMeansServer.DistributeDataPointsInternal", G_ev[p].I == cfg.DistributeDataPointsInternalN))

func eltDistributeDataPointsFast(cfg) ()
  root [C19, C24]
  network
  requires cfgok(cfg)
  modifies G_ev, G_last
  ensures [C19] skipped: imp(!due(cfg, cfg.TaskSkip.DistributeDataPointsFast), G_ev == old(G_ev))
  ensures [C19] run: imp(due(cfg, cfg.TaskSkip.DistributeDataPointsFast), asked(cfg))
  ensures [C19] only: forall(p, old(len(G_ev)), len(G_ev), job(G_ev[p], "KMeansServer.DistributeDataPointsFast", cfg))
  inv [C19] len(G_ev) >= loopold(len(G_ev)) && take(G_ev, loopold(len(G_ev))) == loopold(G_ev)
  inv [C19] forall(p, loopold(len(G_ev)), len(G_ev), job(G_ev[p], "KMeansServer.DistributeDataPointsFast", cfg))

func eltDistributeDataPointsAccurate(cfg) ()
  root [C19, C24]
  network
  requires cfgok(cfg)
  modifies G_ev, G_last
  ensures [C19] skipped: imp(!due(cfg, cfg.TaskSkip.DistributeDataPointsAccurate), G_ev == old(G_ev))
  ensures [C19] run: imp(due(cfg, cfg.TaskSkip.DistributeDataPointsAccurate), asked(cfg))
  ensures [C19] only: forall(p, old(len(G_ev)), len(G_ev), job(G_ev[p], "KMeansServer.DistributeDataPointsAccurate", cfg))
  inv [C19] len(G_ev) >= loopold(len(G_ev)) && take(G_ev, loopold(len(G_ev))) == loopold(G_ev)
  inv [C19] forall(p, loopold(len(G_ev)), len(G_ev), job(G_ev[p], "KMeansServer.DistributeDataPointsAccurate", cfg))

define job(e, m, c) = e.Meth == "" || e.Meth == "KMeansServer.Namespaces" || e.Meth == m && e.Addr == addrstr(c.LocalAddr)

# the table of addresses by namespace is made anew; no namespace in it is without an address
define tabok(t) = imp(t.items != nil, fresh(t.items) && forallk(k, t.items, len(t.items[k]) > 0 && fresh(t.items[k])))

func withNamespaceTable(cfg, task) () inline
  inv tabok(table)
  inv imp(table.items != nil, len(cfg.RemoteAddrs) > 0)

func eltMeta(cfg) ()
  root [C19, C24]
  network
  requires cfgok(cfg)
  modifies G_ev, G_last, G_meta
  ensures [C19] skipped: imp(!due(cfg, cfg.TaskSkip.Meta), G_ev == old(G_ev) && G_meta == old(G_meta))
  ensures [C19] run: imp(due(cfg, cfg.TaskSkip.Meta), G_meta == old(G_meta) + 1)
  inv [C19] G_meta == loopold(G_meta)

# the loop: every task gets its turn in every iteration, with the iteration number it has to compare its interval to
volatile eventloop.EventLoopConfig.internal.stopped

func elStep(cfg, task) () inline
  join

func EventLoop(cfg) (stop)
  root [C19, C24]
  network
  requires cfg != nil && cfg.internal.iter == 0
  modifies *cfg, G_ev, G_last, G_meta, now
  inv cfgok(cfg)
  inv [C19] cfg.internal.iter == iter_0 % 1001
  guard eventloop.eltMeta(c) [C19] turn: c == cfg && cfg.internal.iter == iter_0 % 1001
  guard eventloop.eltExpire(c) [C19] turn: c == cfg && cfg.internal.iter == iter_0 % 1001
  guard eventloop.eltMemTrim(c) [C19] turn: c == cfg && cfg.internal.iter == iter_0 % 1001
  guard eventloop.eltMergeCentroids(c) [C19] turn: c == cfg && cfg.internal.iter == iter_0 % 1001
  guard eventloop.eltSplitCentroids(c) [C19] turn: c == cfg && cfg.internal.iter == iter_0 % 1001
  guard eventloop.eltDistributeDataPointsInternal(c) [C19] turn: c == cfg && cfg.internal.iter == iter_0 % 1001
  guard eventloop.eltDistributeDataPointsFast(c) [C19] turn: c == cfg && cfg.internal.iter == iter_0 % 1001
  guard eventloop.eltDistributeDataPointsAccurate(c) [C19] turn: c == cfg && cfg.internal.iter == iter_0 % 1001
  guard eventloop.eltLoadBalancing(c) [C19] turn: c == cfg && cfg.internal.iter == iter_0 % 1001

# ---- load balancing ----
func fetchRemoteLenDPs(addrs, namespace) (res)
  root [C20, C24]
  network
  modifies G_ev, G_last
  ensures fresh: res != nil && fresh(res)
  ensures [C19, C20, C24] some: imp(len(addrs) > 0, len(res) > 0)
  ensures [C20] sizes: forallk(a, res, sized(addrstr(a), namespace, res[a], G_ev) > sized(addrstr(a), namespace, res[a], old(G_ev)))
  ensures [C20] listed: forallk(a, res, acnt(a, view(addrs)) > 0)
  ensures [C20] natural: forallk(a, res, res[a] >= 0)
  sets [C20] G_lens = res
  sets [C20] G_sum = summap(hasof(res), valof(res))
  sets [C20] G_cnt = len(res)
  sets [C20] G_nodes = len(addrs)
  sets [C20] G_ns = namespace
  inv res != nil && fresh(res)
  inv [C19, C20, C24] imp(i > 0, len(res) > 0)
  inv [C19, C20, C24] forall(p, 0, len(queued(ch)), queued(ch)[p].ok)
  inv [C20] forall(p, 0, len(queued(ch)), msgok(queued(ch)[p].addr, queued(ch)[p].DPLen, namespace, addrs))
  inv [C20] forallk(a, res, msgok(a, res[a], namespace, addrs))

define msgok(a, n, ns, addrs) = n >= 0 && acnt(a, view(addrs)) > 0 && sized(addrstr(a), ns, n, G_ev) > sized(addrstr(a), ns, n, old(G_ev))

func (*addrNamespaceTable).namespaces(t) (r) inline
  inv forall(p, 0, len(r), has(t.items, view(r)[p]))

func eltLoadBalancing(cfg) ()
  root [C19, C20, C24]
  network
  requires cfgok(cfg)
  modifies G_ev, G_last, now
  ensures [C19] skipped: imp(!due(cfg, cfg.TaskSkip.LoadBalancing), G_ev == old(G_ev))
  sets [C20] G_lens = G_lens
  sets [C20] G_sum = G_sum
  sets [C20] G_cnt = G_cnt
  sets [C20] G_nodes = G_nodes
  sets [C20] G_ns = G_ns
  inv [C20] dpTotal == summap(visited, valof(addrsLens))
  inv [C20] summap(hasof(addrsLens), valof(addrsLens)) == G_sum
  guard rpc.(*kmeansClient).StealCentroids(c, o, n) [C20] books: summap(hasof(G_lens), valof(G_lens)) == G_sum
  guard rpc.(*kmeansClient).StealCentroids(c, o, n) [C20] self: c.remoteAddr == addrstr(cfg.LocalAddr)
  guard rpc.(*kmeansClient).StealCentroids(c, o, n) [C20] namespace: c.namespace == G_ns
  guard rpc.(*kmeansClient).StealCentroids(c, o, n) [C20] lacking: n > 0 && n <= mean() - G_lens[cfg.LocalAddr]
  guard rpc.(*kmeansClient).StealCentroids(c, o, n) [C20] richer: existsk(k, G_lens, addrstr(k) == o && k != cfg.LocalAddr && (G_lens[k] - n >= mean() || G_nodes == 1))

# the mean number of points over the nodes that hold the namespace, as reported
define mean() = G_sum / G_cnt
