#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json,os
K='pkg/searchutils/knn.go'; D='pkg/mathutils/distance.go'; V='pkg/mathutils/vectools.go'
C='pkg/kmeans/centroid/centroid.go'; M='pkg/kmeans/centroidmanager/cmanager.go'; DP='pkg/kmeans/common/datapoint.go'
S='pkg/kmeans/rpc/server.go'; R='pkg/kmeans/rpc/rpc.go'; L='pkg/kmeans/rpc/client.go'; U='pkg/kmeans/rpc/serverutils.go'
PUT='core/dps/putdps.go'; GET='core/dps/getdps.go'; DPS='core/dps/dps.go'; N='core/nodes/nodes.go'; NV='core/nodes/vecs.go'
EL='core/eventloop/el.go'; ET='core/eventloop/eltask.go'; EU='core/eventloop/eltaskutils.go'; EC='core/eventloop/cfg.go'
H='core/api/handler.go'; CV='core/api/conv.go'
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
p('C01','Nearest/furthest neighbour search is exact',
 'A neighbour search over a stream of vectors returns distinct stream positions, best score first, each belonging to a vector that is comparable with the target (same dimension). It returns min(k, number of comparable vectors) of them, and no comparable vector left out scores strictly better than one returned. The cosine variants rank by cosine similarity (nearest = highest, furthest = lowest) and the Euclidean variants by Euclidean distance (nearest = lowest, furthest = highest); incomparable vectors are skipped but still count as positions.',
 ['inputs'],'every target, every finite stream of vectors of any dimensions, every k (including zero and negative)',
 'A top-k selection is a statement over all streams and orders of arrival; the tests try four hand-written pools of at most six two-dimensional vectors.',
 [K,D],[('KNNBrute: single pass over the generator',K),('bubble: keeps the k best in order',K)])
p('C02','Similarity measures match their definitions',
 'Euclidean distance is the square root of the sum of squared coordinate differences and cosine similarity is the dot product divided by the product of the norms; both report an error exactly when the dimensions differ. Cosine similarity with a zero vector is 0, never NaN.',
 ['inputs'],'every pair of vectors of any dimensions (arithmetic taken over the reals)',
 'Tests evaluate a couple of fixed pairs; agreement with the formula for all dimensions needs an induction over the loop.',
 [D],[('EuclideanDistance, norm, CosineSimilarity',D)])
p('C03','Vector helpers are elementwise, pure and dimension-checked',
 'Adding, subtracting and scaling vectors acts coordinate by coordinate and returns a new vector without changing its inputs; adding or subtracting vectors of different dimensions fails. Vector equality holds exactly when dimensions and all coordinates agree, and membership exactly when some element is equal. The mean of a non-empty stream of equally dimensioned vectors is the coordinate-wise average of all of them, and an empty stream or a stream with mixed dimensions is reported as a failure.',
 ['inputs'],'every vector, scalar and stream of vectors',
 'Universally quantified over vectors of every length; the tests cover single short examples and never check that inputs stay untouched.',
 [V],[('VecMean, VecEq, VecIn, VecAdd, VecSub, VecMulScalar, VecDivScalar, Vec',V)])
p('C04',"A group's vector is the mean of the points it stores",
 "After any sequence of adding, removing, draining, looking up, expiring, trimming and redistributing data points, the vector of a group (centroid) that stores at least one point equals the mean of the vectors of the points it stores, and its dimension never changes.",
 ['histories','inputs'],'every history of operations on a centroid, every point, including points that expire at any time in between (arithmetic taken over the reals)',
 'The vector is adjusted incrementally by every operation; drift needs particular histories (removing the last point, removal of expired points during iteration) that the single-step tests do not visit.',
 [C,V],[('addDataPoint/rmDataPoint incremental mean',C),('MoveVector',C)],[('vec','group vector',C),('DataPoints','stored points',C)])
p('C05','Group operations neither lose nor duplicate live points',
 'A group accepts a point exactly when its dimension matches and it is not expired, and an accepted point is stored exactly once. Draining and removing lookups take out exactly the points they return, each as often as it was stored; every other operation keeps every unexpired point stored exactly as often as before. No operation ever makes a stored point appear more often, except adding it.',
 ['histories','inputs'],'every centroid state, every point (as a multiset), every argument, every expiry time',
 'Multiset conservation over all states and index sets; tests count lengths on tiny examples and rarely combine expiry with removal by index.',
 [C],[('rmDataPoint by index, sorted backwards removal',C),('generator that removes expired points while iterating',C)],[('DataPoints','stored points',C)])
p('C06','Expired points are refused and purged, live points are kept',
 'A point counts as expired exactly when expiry is enabled for it and its expiry time has passed. Points already expired are never accepted for storage; expiring or trimming a group or a whole collection leaves no point in it that was already expired when the operation began, and drains and lookups never return a point that was already expired when the operation began.',
 ['histories','inputs'],'every state, every mix of expired and unexpired points at any positions',
 'Adjacent expired points, expiry at the first or last position and expiry during iteration need inputs the tests do not contain.',
 [DP,C,M],[('Expired',DP),('Expire, MemTrim, generator',C)])
p('C07','A collection never loses or duplicates live points',
 'Across all groups of a collection (centroid manager), adding a point stores it exactly once or reports failure and stores nothing; draining and removing lookups take out exactly the points they return; expiring, trimming, splitting, merging, recomputing vectors and internal redistribution keep every unexpired point stored exactly as often as before. The reported number of points equals the number stored over all groups.',
 ['histories','inputs'],'every state of a manager with any number of groups, every argument',
 'Conservation over arbitrary numbers of groups and over restructuring operations; tests check sizes for two or three groups.',
 [M,C],[('MergeCentroids delMarks',M),('splitCentroid',M),('KNNLookup put-back',M)],[('Centroids','groups of a manager',M)])
p('C08',"A collection's vector is the mean of its groups' vectors",
 "After every operation on a collection that holds at least one group, its own vector equals the mean of the vectors of its groups, including after groups were split, merged, removed, trimmed or drained.",
 ['histories','inputs'],'every history of operations that go through the collection (arithmetic taken over the reals)',
 'The collection vector is patched incrementally in every operation; whether all patches add up is a statement over histories, and the tests look only at one step each.',
 [M],[('prepVecUpdate incremental patch',M),('MoveVector/updateVec',M)],[('vec','collection vector',M)])
p('C09','Drains return the requested number of points, evenly shared',
 'Draining n points from a group or a collection returns min(max(n,0), stored) points when none of them is expired and never more than max(n,0). In a collection the load is shared evenly: the numbers of points asked of any two groups differ by at most one unless the smaller share is everything that group stores.',
 ['inputs'],'every n (including zero, negative and huge), every number and size of groups',
 'Universally quantified over n and over all distributions of sizes; tests use two groups and n at most 4.',
 [M,C],[('centroidDataPointPortions round robin',M)])
p('C10','Lookups return distinct stored points, nearest first',
 'A k-nearest lookup returns at most max(k,0) points, each of which was stored and is returned at most as often as it was stored; without removal nothing unexpired changes, with removal exactly the returned points disappear. Within one group the returned points are nearest first and no stored unexpired comparable point left out is nearer than a returned one; over a whole collection whose points are comparable with the query and unexpired, min(max(k,0), stored) points are returned.',
 ['inputs','histories'],'every state, query vector, k and removal flag',
 'Requires the search, the index bookkeeping and the removal to agree for all states; tests use three points.',
 [C,M,K],[('Centroid.KNNLookup',C),('CentroidManager.KNNLookup',M)])
p('C11','Restructuring keeps a collection well-formed',
 "All groups of a collection are distinct, have the collection's dimension and store only points of that dimension after every operation. Splitting adds at most one group per chosen group, moving at most half of its points; merging and trimming never add groups, and after trimming exactly the groups that still hold points remain; taking the n nearest groups out returns at most n distinct groups, which are then no longer in the collection while all others stay.",
 ['histories','inputs'],'every state, every split/merge criterion, every n',
 'Index bookkeeping during deletion (several groups, any positions) needs states the tests do not build.',
 [M],[('MergeCentroids backwards deletion',M),('MemTrim',M),('NearestCentroids sorted backwards deletion',M),('SplitCentroids',M)])
p('C12','A put is acknowledged exactly when the node stored it',
 'A node that receives a point replies true exactly if the point is now stored (once) in the requested namespace, creating the namespace when it does not exist. Creating a namespace never replaces or discards data that is already stored under that name, whatever other requests run at the same time.',
 ['inputs','schedules'],'every request, every state of the namespace table, every interleaving with other requests between lock acquisitions',
 'The lost-update window between lookup and creation only opens under particular interleavings; tests add points sequentially.',
 [S,R],[('AddDataPoint: access, create, access',S),('AddSlot',R)],[('slots','namespace table',R)])
p('C13','Namespaces are isolated',
 'A request reads and changes only the data of the namespace it names and passes its arguments to the collection operation of the same name unchanged, returning what that operation returns. A request other than a put or a steal for a namespace that does not exist fails with a namespace error and changes nothing.',
 ['inputs','histories'],'every namespace, every request and every state of the table',
 'Frame property over all other namespaces; tests hold at most two namespaces and do not compare the others.',
 [S,R],[('handleNamespaceErr/Access',S),('CManagerTable.Access',R)],[('slots','namespace table',R)])
p('C14','Redistribution between nodes loses and duplicates nothing',
 'When a node distributes points to other nodes, every unexpired point it takes out is afterwards either accepted by exactly one other node in the same namespace or back in its own namespace, whichever nodes are unreachable or refuse. At most the requested number of points is taken out, and nothing is taken out when no receivers are given.',
 ['inputs','fault_sequences'],'every set of receivers and every pattern of unreachable or refusing receivers (a reply that arrives is truthful)',
 'The failure patterns (refused by all, unreachable, empty receiver list) are not in the tests, which use two healthy nodes.',
 [S,U],[('distributeDP + put back into self',S)])
p('C15','Shared data is only touched under its lock, locks are always released',
 'The table of namespaces and the collection behind each namespace are read and written only while the lock protecting them is held; every lock taken by a request is released when it ends; no request waits for a lock it already holds, and no network call is made while a lock is held.',
 ['schedules','inputs'],'every path of every request handler',
 'Lock misuse shows up only under rare interleavings; the tests issue requests sequentially and the suite does not run with the race detector.',
 [R,S],[('CManagerSlot.Access, CManagerTable.Access',R),('Namespaces, Meta',S)],[('Mutex','slot and table locks',R)])
p('C16','Putting a point stores it on at most one node and reports it honestly',
 'Putting a point offers it, unchanged and in the requested namespace, to candidate nodes one after the other and stops at the first node that accepts it, so at most one node accepts it. It reports success exactly when a node accepted it, and failure only after every candidate refused.',
 ['inputs','fault_sequences'],'every list of nodes and every pattern of acceptance, refusal and unreachability',
 'Quantified over accept/refuse patterns of any number of nodes; tests only use healthy nodes.',
 [PUT,DPS],[('putDataPoint loop',PUT),('shuffleAddrs permutes',DPS)])
p('C17','Getting points returns at most n and drops none it removed',
 'Getting n points asks the candidate nodes in order for what is still missing, in the requested namespace and with the given query, and stops when n points were found. The result is the concatenation of the replies, so with removal requested every point removed from a node is returned, and at most max(n,0) points are returned.',
 ['inputs','fault_sequences'],'every list of nodes, n, flag, and every pattern of replies of at most the requested length',
 'Tests use two nodes with fixed data; losing or over-fetching drained points needs particular reply patterns.',
 [GET,DPS],[('getDataPoints loop',GET)])
p('C18','Candidate nodes are ranked by their own vectors',
 'Ranking nodes for a query returns each responding candidate at most once per listing and never an unresponsive or unlisted one, ordered by the similarity between the query and the vector that this very node reported, in whatever order the replies arrive. With the exact search every responding node with a comparable vector is listed.',
 ['schedules','inputs','fault_sequences'],'every order in which replies arrive and every subset of unresponsive nodes',
 'Replies are gathered concurrently; pairing a node with another reply needs reply orders that the tests cannot force.',
 [N,NV,U],[('fetchVecs/collect pairs vec with addr',NV),('bestFitNodes reorders addresses with the vectors',N)])
p('C19','Maintenance intervals are sane and respected',
 'When the maintenance loop starts, every task interval is clamped into 1..1000 and intervals already inside are unchanged; each task runs exactly in the iterations that are multiples of its own interval. A configuration can never make the loop crash by dividing by zero.',
 ['configurations'],'every configuration of intervals (any integers) and every iteration number',
 'A crash needs one particular unset interval; the tests never start the loop with partial configurations.',
 [EC,ET,EL],[('clamp',EC),('withSkip',ET)])
p('C20','Load balancing only pulls data towards the mean',
 'A node only pulls points during load balancing into itself, from another node in the same namespace, when it stores fewer points than the mean over the nodes holding that namespace, requesting a positive number no larger than what it lacks to the mean. Another node is only pulled from if the number requested does not bring it below the mean (rounded down), unless it is the only node holding that namespace. Sizes are as reported at the start of the round and updated with what was pulled since; a node whose size cannot be fetched counts as empty.',
 ['configurations','inputs'],'every number of nodes and every distribution of sizes',
 'Quantified over all size distributions; no stable test checks the decisions.',
 [ET,EU],[('eltLoadBalancing guards',ET),('fetchRemoteLenDPs',EU)])
p('C21','The HTTP API hands requests through unchanged',
 'A put request stores exactly the point, in the namespace and with the accuracy mode given in the request, and is answered 200 exactly when some node accepted the point, 500 when none did and 400 when the request is not valid JSON (storing nothing). A query is executed with exactly the namespace, vector, count, accuracy and removal flag of the request, and its answer lists exactly the points found, in order, with all their fields.',
 ['inputs'],'every request (JSON encoding and decoding themselves trusted) and every outcome of the underlying operation',
 'Field-by-field translation over all inputs; there is no stable test of the API.',
 [H,CV],[('putDataPoint, queryDataPoint',H),('toDataPoint, DataPointsToDPs',CV)])
p('C22','Remote calls reach the operation of the same name with the given arguments',
 'Every client operation issues exactly one request, to the node it was set up for, naming the server operation of the same name and carrying the namespace and arguments it was given, and returns the reply; connection or remote errors are reported to the caller. Groups fetched from a remote node come back usable: none of them is empty on arrival and each holds exactly the points that were sent.',
 ['inputs','fault_sequences'],'every client operation, every argument, every reply or error',
 'Swapped or dropped arguments survive tests that use symmetric or default values; several operations are not tested remotely.',
 [L,R],[('kmeansClient methods',L)])
p('C23','Stealing moves whole groups without loss',
 'A node that steals from another node stores every group it took over, completely and exactly once, in the requested namespace, never discards what it already stored there, stops once the requested number of points was transferred or the other node has nothing more or fails, and reports the number of points received.',
 ['inputs','fault_sequences'],'every pattern of replies of the other node, every limit, every local state',
 'Partial failures in the middle of a transfer do not occur in the tests.',
 [S],[('StealCentroid loop',S)])
p('C24','No request can crash a node',
 'No sequence of requests, with whatever counts, vectors, dimensions, namespaces and expiry settings, makes a node panic: no index out of range, nil dereference, division by zero, invalid allocation size or write to a nil map can occur in the code that serves requests.',
 ['inputs','histories'],'every request argument (negative, zero, huge counts; empty or mismatching vectors) in every reachable state',
 'Panics need extreme arguments or unusual states; an uncaught panic in a request ends the process, and the tests use ordinary arguments.',
 [S,R,M,C,K,V,D],[('bounds established by loops and guards',C)])
p('C25','Data placement converges over time',
 'If no new requests arrive and nodes stay reachable, repeated maintenance eventually places every point with a best-fitting group and evens out the load between nodes.',
 ['histories','schedules'],'every fair infinite execution of the maintenance loop',
 'A liveness statement over infinite executions.',[EL,ET],[('event loop tasks',ET)])
p('C26','A point is stored exactly once even when replies are lost',
 'If the reply to a put or the transfer of points is lost although the remote node carried it out, no point ends up stored twice and none is lost.',
 ['fault_sequences','crash_points'],'every loss of a reply or crash of a node between execution and reply',
 'Needs fault injection between execution and reply.',[S,L,PUT],[('none: there is no request identity or retry protocol',S)])
p('C27','Points survive encoding on the wire',
 'A point sent between nodes or through the JSON API arrives with the same vector, payload, expiry time and expiry flag.',
 ['inputs'],'every point',
 'Encoding is done by reflection in the standard library (gob, json).',[L,H,CV],[('encoding/gob, encoding/json',L)])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
