From f076882608affa77d99c30d97f186870d871ef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:35 +0000
Subject: [PATCH 01/15] fix: EuclideanDistance returned the L1 distance instead
 of the euclidean one

---
 pkg/mathutils/distance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index f618267..9690876 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -19,9 +19,9 @@ func EuclideanDistance(v1, v2 []float64) (float64, error) {
 	}
 	var r float64
 	for i := 0; i < len(v1); i++ {
-		r += math.Sqrt((v1[i] - v2[i]) * (v1[i] - v2[i]))
+		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
 	}
-	return r, nil
+	return math.Sqrt(r), nil
 }
 
 // norm computes the norm (math) of a vec.
-- 
2.43.0


From c528a38db54c33b23956ea11db53f477f48f4b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:39 +0000
Subject: [PATCH 02/15] fix: CosineSimilarity was NaN when exactly one vector
 is the zero vector

---
 pkg/mathutils/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index 9690876..82a903b 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -40,7 +40,7 @@ func CosineSimilarity(vec1, vec2 []float64) (float64, error) {
 		return 0, errors.New("similarity measurement attempt failed: vectors are of different lengths")
 	}
 	norm1, norm2 := norm(vec1), norm(vec2)
-	if norm1 == 0 && norm2 == 0 {
+	if norm1 == 0 || norm2 == 0 {
 		return 0, nil
 	}
 	var dot float64
-- 
2.43.0


From 0e96493aefe6e81911f70eb4d53ff1b4e2c5848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:43 +0000
Subject: [PATCH 03/15] fix: CentroidManager drained a datapoint when asked for
 zero

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index d37fe8b..c8a3aaf 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -127,6 +127,9 @@ func (cm *CentroidManager) newCentroid(vec []float64) *centroid.Centroid {
 // of common.DataPoint contained in each centroid is uncertain.
 func (cm *CentroidManager) centroidDataPointPortions(n int) map[int]int {
 	portions := make(map[int]int)
+	if n <= 0 {
+		return portions
+	}
 	// This is essentially the total sum of all v in portions.
 	assigned := 0
 	for {
-- 
2.43.0


From 2d23686880f41e6650a6daebff30e7fd43dd13c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:13 +0000
Subject: [PATCH 04/15] fix: negative or huge counts in requests crashed the
 node (make with an invalid capacity)

---
 core/dps/getdps.go                     |  2 +-
 pkg/kmeans/centroid/centroid.go        | 14 ++++++++++++++
 pkg/kmeans/centroidmanager/cmanager.go | 18 +++++++++++++++---
 pkg/kmeans/rpc/client.go               |  2 +-
 pkg/kmeans/rpc/server.go               |  4 ++--
 pkg/searchutils/knn.go                 |  3 +++
 6 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/core/dps/getdps.go b/core/dps/getdps.go
index 81dd8a4..a10ed7e 100644
--- a/core/dps/getdps.go
+++ b/core/dps/getdps.go
@@ -17,7 +17,7 @@ type getDataPointsArgs struct {
 }
 
 func getDataPoints(args getDataPointsArgs) []DataPoint {
-	res := make([]DataPoint, 0, args.n)
+	res := make([]DataPoint, 0)
 	for _, addr := range args.addrOpts {
 		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
 		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 98819de..b1fd1fb 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -128,9 +128,21 @@ func (c *Centroid) dataPointVecGenerator() func() ([]float64, bool) {
 	}
 }
 
+// clampN restricts n to the range [0, len(c.DataPoints)].
+func (c *Centroid) clampN(n int) int {
+	if n < 0 {
+		return 0
+	}
+	if n > len(c.DataPoints) {
+		return len(c.DataPoints)
+	}
+	return n
+}
+
 // DrainUnordered drains n internal datapoints in a manner that has no particylar.
 // significance, specifically by how they are stored internally -- in no order.
 func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
+	n = c.clampN(n)
 	res := make([]common.DataPoint, 0, n)
 	for len(c.DataPoints) != 0 && len(res) < n {
 		if !c.DataPoints[0].Expired() {
@@ -148,6 +160,7 @@ func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
 // net-means/searchutils.KNFCos, then drain away data that has lowest cosine
 // similarity to this Centroid.
 func (c *Centroid) DrainOrdered(n int) []common.DataPoint {
+	n = c.clampN(n)
 	res := make([]common.DataPoint, 0, n)
 	// Furthest neigh.
 	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
@@ -243,6 +256,7 @@ func (c *Centroid) DistributeDataPoints(n int, receivers []common.DataPointRecei
 // crating a new Centroid with 'NewCentroid'. If that field is for instance
 // net-means/searchutils.KNNCos, then best fit equals best cosine similarity.
 func (c *Centroid) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
+	k = c.clampN(k)
 	res := make([]common.DataPoint, 0, k)
 
 	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index c8a3aaf..057506e 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -280,7 +280,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 // centroids, i.e if n=2 and there are 2 centroids with at least 1 dp each, then
 // both of them will drain 1 dp. Note, will update CentroidManager vector.
 func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -303,7 +303,7 @@ func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
 // least 1 dp each, then both of them will drain 1 dp. Note, will update
 // CentroidManager vector.
 func (cm *CentroidManager) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -425,7 +425,13 @@ func (cm *CentroidManager) DistributeDataPointsInternal(n int) {
 // with the same name (KNNLookup) will be called on those Centroids.
 // Note, will update internal CentroidManager vector.
 func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
+	if k < 0 {
+		k = 0
+	}
+	if k > cm.LenDP() {
+		k = cm.LenDP()
+	}
 
 	gen := cm.centroidVecGenerator() // Brevity.
 	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
@@ -471,6 +477,12 @@ func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.
 func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 	[]*centroid.Centroid, bool,
 ) {
+	if n < 0 {
+		n = 0
+	}
+	if n > len(cm.Centroids) {
+		n = len(cm.Centroids)
+	}
 	indexes := cm.knnSearchFunc(vec, cm.centroidVecGenerator(), n)
 	if len(indexes) == 0 {
 		return nil, false
diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index b680383..a1b6ffc 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -181,7 +181,7 @@ func (c *kmeansClient) DistributeDataPointsInternal(n int) {
 // (T of pkg/kmeans/centroidmanager, se that method name for more documentation),
 // using the addr and namespace specified while setting up this client.
 func (c *kmeansClient) KNNLookup(vec []float64, k int, drain bool) []DataPoint {
-	resp := make([]DataPoint, 0, k)
+	resp := make([]DataPoint, 0)
 
 	c.client(func(rc *rpc.Client) {
 		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 0a045cd..551e710 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -153,7 +153,7 @@ func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace stri
 // method called, then those dps will be sent to remote nodes that are most
 // similar to those dps (similarity is caluclated by remote CentroidManager.Vec()).
 func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
@@ -195,7 +195,7 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 // This is _a_lot_ slower due to many network calls, but has the benefit of
 // placing distribute dps precisely.
 func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
diff --git a/pkg/searchutils/knn.go b/pkg/searchutils/knn.go
index be9bc50..8e10ed5 100644
--- a/pkg/searchutils/knn.go
+++ b/pkg/searchutils/knn.go
@@ -86,6 +86,9 @@ type KNNBruteArgs struct {
 // (or furthest) neighs of a vector, and then returning their index.
 // See KNNBruteArgs (accepted argument) for more info.
 func KNNBrute(args KNNBruteArgs) []int {
+	if args.K < 0 {
+		args.K = 0
+	}
 	res := make([]resultItem, args.K)
 	// This represents the lowest/highest score found so far.
 	// Defining a cap of highest/lowest number representing similarity
-- 
2.43.0


From 90f40e062b1662b131efd76a36940e92d636abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:45 +0000
Subject: [PATCH 05/15] fix: CentroidManager.KNNLookup found too few datapoints
 when near centroids were empty

---
 pkg/kmeans/centroidmanager/cmanager.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 057506e..8208048 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -426,15 +426,10 @@ func (cm *CentroidManager) DistributeDataPointsInternal(n int) {
 // Note, will update internal CentroidManager vector.
 func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
 	res := make([]common.DataPoint, 0)
-	if k < 0 {
-		k = 0
-	}
-	if k > cm.LenDP() {
-		k = cm.LenDP()
-	}
 
 	gen := cm.centroidVecGenerator() // Brevity.
-	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
+	// Not limited to k centroids, as some of them might be (nearly) empty.
+	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, len(cm.Centroids)) {
 		if len(res) >= k {
 			break
 		}
-- 
2.43.0


From 48a6740e2005d4109355484692750a960fe59594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:49 +0000
Subject: [PATCH 06/15] fix: draining the last centroid of a CentroidManager
 made its vector NaN

---
 pkg/kmeans/centroidmanager/cmanager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 8208048..1e46cd3 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -491,7 +491,7 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 		for i := len(indexes) - 1; i > -1; i-- {
 			j := indexes[i] // Abbreviation for actual centroid index.
 			// Auto-adjust internal vec.
-			if len(cm.Centroids) > 0 {
+			if len(cm.Centroids) > 1 { // guard 0 div error.
 				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
 				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[j].Vec())
 				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-- 
2.43.0


From 0a76fe130470f1a89e235f010e5dc30733d4d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:52 +0000
Subject: [PATCH 07/15] fix: CentroidManager.MemTrim left a wrong vector when
 deleting empty centroids

---
 pkg/kmeans/centroidmanager/cmanager.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 1e46cd3..7202690 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -221,6 +221,13 @@ func (cm *CentroidManager) prepVecUpdate(v1 []float64) func([]float64) {
 	}
 }
 
+// updateVec sets the internal vector to the mean of all internal centroids.
+func (cm *CentroidManager) updateVec() {
+	if vec, ok := mathutils.VecMean(cm.centroidVecGenerator()); ok {
+		cm.vec = vec
+	}
+}
+
 // Vec exposes the internal vector of a CentroidManager.
 func (km *CentroidManager) Vec() []float64 { return km.vec }
 
@@ -347,25 +354,14 @@ func (cm *CentroidManager) LenDP() int {
 func (cm *CentroidManager) MemTrim() {
 	centroids := make([]*centroid.Centroid, 0, len(cm.Centroids))
 	for _, centroid := range cm.Centroids {
-		// Prep for internal vec update.
-		updateVec := cm.prepVecUpdate(centroid.Vec())
 		centroid.MemTrim()
-		// Finalize internal vec update.
-		updateVec(centroid.Vec())
 		if centroid.LenDP() != 0 {
 			centroids = append(centroids, centroid)
 		}
-
-		// Will not be included in new centroids slice, so effectively deleted.
-		// In this case, the internal vec must be updated a bit differently
-		// than what cm.prepVecUpdate does. Note bounds check.
-		if centroid.LenDP() == 1 && len(cm.Centroids) > 1 {
-			cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-			cm.vec, _ = mathutils.VecSub(cm.vec, centroid.Vec())
-			cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-		}
 	}
 	cm.Centroids = centroids
+	// Done in bulk, as cm.prepVecUpdate does not support deleting centroids.
+	cm.updateVec()
 }
 
 // MoveVector sets the internal vector to the average of all internal Centroids.
-- 
2.43.0


From 44506a0253630705a2aef371a2d5aa746d3bd3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:56 +0000
Subject: [PATCH 08/15] fix: splitting centroids did not update the
 CentroidManager vector

---
 pkg/kmeans/centroidmanager/cmanager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 7202690..2582879 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -276,6 +276,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)
 		if splitOK {
 			cm.Centroids = append(cm.Centroids, newCentroid)
+			cm.updateVec()
 		}
 	}
 	return true
@@ -518,6 +519,7 @@ func (cm *CentroidManager) SplitCentroids(split func(*centroid.Centroid) bool) {
 		}
 	}
 	cm.Centroids = append(cm.Centroids, newCentroids...)
+	cm.updateVec()
 }
 
 // MergeCentroids iterates through all internal Centroids and passes them to
-- 
2.43.0


From a903d0dcd6e402299fea5ceb1ce56ca79e8eafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:59 +0000
Subject: [PATCH 09/15] fix: CentroidManager.MergeCentroids left a wrong vector

---
 pkg/kmeans/centroidmanager/cmanager.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 2582879..852afa1 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -550,9 +550,6 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 		gen := cm.centroidVecGenerator()
 		k := len(cm.Centroids)
 
-		// Prep for internal vec update for 'candidate' centroid.
-		updateVecCandidate := cm.prepVecUpdate(vec)
-
 		// Merge nearest centroids into 'candidate' until merge()=true.
 		for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
 			// Guard identity or double merge.
@@ -569,25 +566,16 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 				break
 			}
 		}
-		// Finalize internal vec update for 'candidate' centroid.
-		updateVecCandidate(candidate.Vec())
 	}
 	// Filter out centroids marked for deletion from cm.Centroids.
 	// Note, the reason for backwards looping is to prevent index
 	// shifting issues.
 	for i := len(cm.Centroids) - 1; i > -1; i-- {
 		if delMarks[i] {
-			// This should always be true, due to how this func works at the
-			// time of writing, but doing a bounds check juuust in case:
-			if len(cm.Centroids) > 0 {
-				// Need this, it changes the internal vector appropriately
-				// when deleting a centroid:
-				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[i].Vec())
-				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-			}
 			// Delete.
 			cm.Centroids = append(cm.Centroids[:i], cm.Centroids[i+1:]...)
 		}
 	}
+	// Done in bulk, as cm.prepVecUpdate does not support deleting centroids.
+	cm.updateVec()
 }
-- 
2.43.0


From 751279d0532c816774d9ef18198ed44529234449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:28 +0000
Subject: [PATCH 10/15] fix: concurrent namespace creation lost datapoints and
 rejected datapoints were acknowledged

---
 pkg/kmeans/rpc/rpc.go    |  5 ++++-
 pkg/kmeans/rpc/server.go | 14 ++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 179228b..e2a9b29 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -169,7 +169,7 @@ func (t *CManagerTable) Access(namespace string, f func(*CentroidManager)) bool
 
 // AddSlot safely (mutex) adds a CManagerSlot to CManagerTable. Will abort
 // and return false if the CManagerSlot or the contained common.CentroidManger
-// are nil.
+// are nil, or if the namespace is already in use (the data behind it is kept).
 func (t *CManagerTable) AddSlot(namespace string, cms *CManagerSlot) bool {
 	if cms == nil || cms.cManager == nil {
 		return false
@@ -177,6 +177,9 @@ func (t *CManagerTable) AddSlot(namespace string, cms *CManagerSlot) bool {
 
 	t.Lock()
 	defer t.Unlock()
+	if _, ok := t.slots[namespace]; ok {
+		return false
+	}
 	t.slots[namespace] = cms
 	return true
 }
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 551e710..0d7e073 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -50,20 +50,22 @@ type AddDataPointArgs struct {
 // (pkg kmeans/CentroidManager). Will createa a new CentroidManager instance if
 // the namespace is not currently in use.
 func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
-	lookupOK := s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
+	*resp = false
+	addDP := func(cm *CentroidManager) {
 		*resp = cm.AddDataPoint(args.DP)
-	})
+	}
 	// Namespace doesn't exist, create one + add dp there.
-	if !lookupOK {
+	if !s.Table.Access(args.NameSpace, addDP) {
 		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)
-		centroidManager.AddDataPoint(args.DP)
 		slot := CManagerSlot{cManager: centroidManager}
 		// Returns a false if a slot is the containec CentroidManager is
-		// nil, but it is assumed that it works here.
+		// nil, but it is assumed that it works here. Another goroutine
+		// might have created the namespace in the meantime, in which
+		// case that one is used instead.
 		s.Table.AddSlot(args.NameSpace, &slot)
+		s.Table.Access(args.NameSpace, addDP)
 	}
 
-	*resp = true
 	return nil
 }
 
-- 
2.43.0


From 8378a0b17c4680574b09766ba08f1e108bc60c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:32 +0000
Subject: [PATCH 11/15] fix: distributing datapoints without receivers deleted
 them

---
 pkg/kmeans/rpc/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 0d7e073..d25df92 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -156,6 +156,9 @@ func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace stri
 // similar to those dps (similarity is caluclated by remote CentroidManager.Vec()).
 func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
 	dps := make([]DataPoint, 0)
+	if len(args.AddrOptions) == 0 {
+		args.N = 0 // Nowhere to send dps, so don't drain any.
+	}
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
@@ -198,6 +201,9 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 // placing distribute dps precisely.
 func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int) error {
 	dps := make([]DataPoint, 0)
+	if len(args.AddrOptions) == 0 {
+		args.N = 0 // Nowhere to send dps, so don't drain any.
+	}
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-- 
2.43.0


From 5ea962862e2b18e3b652ed393c0ef816fcf2fbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:36 +0000
Subject: [PATCH 12/15] fix: kmeansClient.NearestCentroids panicked on
 consecutive empty centroids

---
 pkg/kmeans/rpc/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index a1b6ffc..9f299b7 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -218,6 +218,7 @@ func (c *kmeansClient) NearestCentroids(vec []float64, n int, drain bool) (
 	for i := 0; i < len(resp); i++ {
 		if resp[i] == nil || resp[i].LenDP() == 0 {
 			resp = append(resp[:i], resp[i+1:]...)
+			i-- // The next element is now at this index.
 		}
 	}
 
-- 
2.43.0


From e6255db83a52600b76a0d74e8a26e6ecd1fc46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:39 +0000
Subject: [PATCH 13/15] fix: event loop panicked (modulo by zero) when the Meta
 interval was unset

---
 core/eventloop/cfg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index d4f421f..1da55c7 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -67,6 +67,7 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 		&cfg.SplitCentroids,
 		&cfg.MergeCentroids,
 		&cfg.LoadBalancing,
+		&cfg.Meta,
 	}
 	for _, v := range items {
 		if *v < min {
-- 
2.43.0


From 2c43d37cd7186df60607f799b2fbc0c64b8cc149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:00 +0000
Subject: [PATCH 14/15] fix: data race between encoding a NearestCentroids
 response and other requests

---
 pkg/kmeans/rpc/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index d25df92..1665765 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -279,7 +279,14 @@ type NearestCentroidArgs struct {
 // lead to an instance.
 func (s *KMeansServer) NearestCentroids(args NearestCentroidArgs, r *[]*Centroid) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*r, _ = cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		centroids, _ := cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		// Copies, because the response is encoded after the slot is unlocked
+		// (and only exported fields of centroids are sent).
+		for _, c := range centroids {
+			dps := make([]DataPoint, len(c.DataPoints))
+			copy(dps, c.DataPoints)
+			*r = append(*r, &Centroid{DataPoints: dps})
+		}
 	})
 }
 
-- 
2.43.0


From deb09380660c07ae2ddaa5868c4e829720e39fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:44 +0000
Subject: [PATCH 15/15] fix: centroid.MemTrim keeps the vector equal to the
 mean of its data

---
 pkg/kmeans/centroid/centroid.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index b1fd1fb..2562be7 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -195,14 +195,11 @@ func (c *Centroid) LenDP() int { return len(c.DataPoints) }
 
 // MemTrim creates a new internal DataPoint slice where capacity equals len.
 func (c *Centroid) MemTrim() {
-	dps := make([]common.DataPoint, 0)
-	// Using DrainUnordered because it removes expired dps with c.rmDataPoint,
-	// which adjusts c.vec as well. Also, not using len(c.DataPoints) as arg
-	// to c.DrainUnordered(...) because that would create a slice of that cap,
-	// which would make this method (MemTrim) pointless, as it reduces cap.
-	for len(c.DataPoints) > 0 {
-		dps = append(dps, c.DrainUnordered(1)...)
-	}
+	// Using Expire because it removes expired dps with c.rmDataPoint, which
+	// adjusts c.vec as well.
+	c.Expire()
+	dps := make([]common.DataPoint, len(c.DataPoints))
+	copy(dps, c.DataPoints)
 	c.DataPoints = dps
 }
 
-- 
2.43.0

