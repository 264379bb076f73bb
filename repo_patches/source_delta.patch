From 3ad36b718bb74e65e0469d71fb89671f27b840f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:34 +0000
Subject: [PATCH 01/21] fix: EuclideanDistance summed absolute differences
 instead of squares

---
 pkg/mathutils/distance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index f618267..9690876 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -19,9 +19,9 @@ func EuclideanDistance(v1, v2 []float64) (float64, error) {
 	}
 	var r float64
 	for i := 0; i < len(v1); i++ {
-		r += math.Sqrt((v1[i] - v2[i]) * (v1[i] - v2[i]))
+		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
 	}
-	return r, nil
+	return math.Sqrt(r), nil
 }
 
 // norm computes the norm (math) of a vec.
-- 
2.43.0


From 8aa73f335bfd7f95c84661d823c31cd57d96bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:35 +0000
Subject: [PATCH 02/21] fix: CosineSimilarity is zero, not NaN, when one vector
 is zero

---
 pkg/mathutils/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index 9690876..82a903b 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -40,7 +40,7 @@ func CosineSimilarity(vec1, vec2 []float64) (float64, error) {
 		return 0, errors.New("similarity measurement attempt failed: vectors are of different lengths")
 	}
 	norm1, norm2 := norm(vec1), norm(vec2)
-	if norm1 == 0 && norm2 == 0 {
+	if norm1 == 0 || norm2 == 0 {
 		return 0, nil
 	}
 	var dot float64
-- 
2.43.0


From b59e2876d9885e64005f96eb2b27547c3451c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:36 +0000
Subject: [PATCH 03/21] fix: Centroid.MemTrim leaves the centre at the mean of
 its datapoints

---
 pkg/kmeans/centroid/centroid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 98819de..a1712cf 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -191,6 +191,8 @@ func (c *Centroid) MemTrim() {
 		dps = append(dps, c.DrainUnordered(1)...)
 	}
 	c.DataPoints = dps
+	// Draining everything left c.vec at the vec of the last datapoint.
+	c.MoveVector()
 }
 
 // MoveVector moves the internal centroid vector to be the mean of all
-- 
2.43.0


From 994acba8954fd8cfe8ed4b833446ac532f936269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:05 +0000
Subject: [PATCH 04/21] fix: splitting centroids updates the node's summary
 vector

---
 pkg/kmeans/centroidmanager/cmanager.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index d37fe8b..e02aa1f 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -218,6 +218,14 @@ func (cm *CentroidManager) prepVecUpdate(v1 []float64) func([]float64) {
 	}
 }
 
+// resetVec sets cm.vec to the mean of the vectors of all internal Centroids,
+// for when the set of Centroids itself has changed. No-op if there are none.
+func (cm *CentroidManager) resetVec() {
+	if vec, ok := mathutils.VecMean(cm.centroidVecGenerator()); ok {
+		cm.vec = vec
+	}
+}
+
 // Vec exposes the internal vector of a CentroidManager.
 func (km *CentroidManager) Vec() []float64 { return km.vec }
 
@@ -266,6 +274,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)
 		if splitOK {
 			cm.Centroids = append(cm.Centroids, newCentroid)
+			cm.resetVec()
 		}
 	}
 	return true
@@ -512,6 +521,7 @@ func (cm *CentroidManager) SplitCentroids(split func(*centroid.Centroid) bool) {
 		}
 	}
 	cm.Centroids = append(cm.Centroids, newCentroids...)
+	cm.resetVec()
 }
 
 // MergeCentroids iterates through all internal Centroids and passes them to
-- 
2.43.0


From 27cb46ce8b8d25e09a5855cdf2ab2676649ec60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:06 +0000
Subject: [PATCH 05/21] fix: CentroidManager.MemTrim leaves the summary vector
 at the mean of its centroids

---
 pkg/kmeans/centroidmanager/cmanager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index e02aa1f..c5b287b 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -372,6 +372,7 @@ func (cm *CentroidManager) MemTrim() {
 		}
 	}
 	cm.Centroids = centroids
+	cm.resetVec()
 }
 
 // MoveVector sets the internal vector to the average of all internal Centroids.
-- 
2.43.0


From e406c724f767421405474619b6e30d883c3f96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:07 +0000
Subject: [PATCH 06/21] fix: MergeCentroids leaves the summary vector at the
 mean of its centroids

---
 pkg/kmeans/centroidmanager/cmanager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index c5b287b..53af7f8 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -593,4 +593,5 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 			cm.Centroids = append(cm.Centroids[:i], cm.Centroids[i+1:]...)
 		}
 	}
+	cm.resetVec()
 }
-- 
2.43.0


From 58952f1de2d9887fbba9b5ae2ed7f3a1c9678d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 07/21] fix: taking the last centroid no longer turns the
 summary vector into NaN

---
 pkg/kmeans/centroidmanager/cmanager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 53af7f8..970bf6f 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -491,7 +491,7 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 		for i := len(indexes) - 1; i > -1; i-- {
 			j := indexes[i] // Abbreviation for actual centroid index.
 			// Auto-adjust internal vec.
-			if len(cm.Centroids) > 0 {
+			if len(cm.Centroids) > 1 { // guard 0 div.
 				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
 				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[j].Vec())
 				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-- 
2.43.0


From 51540c8b0d7a383ed7924243974e5b7ea0e464fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:09 +0000
Subject: [PATCH 08/21] fix: KNNLookup visits further centroids when the k
 nearest hold too few datapoints

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 970bf6f..af45f14 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -435,7 +435,8 @@ func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.
 	res := make([]common.DataPoint, 0, k)
 
 	gen := cm.centroidVecGenerator() // Brevity.
-	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
+	// All centroids are candidates, as the nearest ones may hold less than k dps.
+	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, len(cm.Centroids)) {
 		if len(res) >= k {
 			break
 		}
-- 
2.43.0


From 602f7118b731fad5517dfbed01a2fe779132f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:10 +0000
Subject: [PATCH 09/21] fix: draining or distributing zero datapoints takes
 none

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index af45f14..8e68406 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -127,6 +127,9 @@ func (cm *CentroidManager) newCentroid(vec []float64) *centroid.Centroid {
 // of common.DataPoint contained in each centroid is uncertain.
 func (cm *CentroidManager) centroidDataPointPortions(n int) map[int]int {
 	portions := make(map[int]int)
+	if n <= 0 {
+		return portions
+	}
 	// This is essentially the total sum of all v in portions.
 	assigned := 0
 	for {
-- 
2.43.0


From 6a762682e956026a0e2fc3852c02b8c1cc259666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:21 +0000
Subject: [PATCH 10/21] fix: negative or huge counts no longer crash the node
 or the client

---
 core/dps/getdps.go                     |  2 +-
 pkg/kmeans/centroid/centroid.go        |  6 +++---
 pkg/kmeans/centroidmanager/cmanager.go |  8 ++++----
 pkg/kmeans/rpc/client.go               |  2 +-
 pkg/kmeans/rpc/server.go               |  4 ++--
 pkg/searchutils/knn.go                 | 10 +++++-----
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/core/dps/getdps.go b/core/dps/getdps.go
index 81dd8a4..a10ed7e 100644
--- a/core/dps/getdps.go
+++ b/core/dps/getdps.go
@@ -17,7 +17,7 @@ type getDataPointsArgs struct {
 }
 
 func getDataPoints(args getDataPointsArgs) []DataPoint {
-	res := make([]DataPoint, 0, args.n)
+	res := make([]DataPoint, 0)
 	for _, addr := range args.addrOpts {
 		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
 		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index a1712cf..3321c45 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -131,7 +131,7 @@ func (c *Centroid) dataPointVecGenerator() func() ([]float64, bool) {
 // DrainUnordered drains n internal datapoints in a manner that has no particylar.
 // significance, specifically by how they are stored internally -- in no order.
 func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for len(c.DataPoints) != 0 && len(res) < n {
 		if !c.DataPoints[0].Expired() {
 			res = append(res, c.DataPoints[0])
@@ -148,7 +148,7 @@ func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
 // net-means/searchutils.KNFCos, then drain away data that has lowest cosine
 // similarity to this Centroid.
 func (c *Centroid) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	// Furthest neigh.
 	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
 	for _, index := range indexes {
@@ -245,7 +245,7 @@ func (c *Centroid) DistributeDataPoints(n int, receivers []common.DataPointRecei
 // crating a new Centroid with 'NewCentroid'. If that field is for instance
 // net-means/searchutils.KNNCos, then best fit equals best cosine similarity.
 func (c *Centroid) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
 	for _, i := range indexes {
diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 8e68406..8177b13 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -289,7 +289,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 // centroids, i.e if n=2 and there are 2 centroids with at least 1 dp each, then
 // both of them will drain 1 dp. Note, will update CentroidManager vector.
 func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -312,7 +312,7 @@ func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
 // least 1 dp each, then both of them will drain 1 dp. Note, will update
 // CentroidManager vector.
 func (cm *CentroidManager) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -435,7 +435,7 @@ func (cm *CentroidManager) DistributeDataPointsInternal(n int) {
 // with the same name (KNNLookup) will be called on those Centroids.
 // Note, will update internal CentroidManager vector.
 func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	gen := cm.centroidVecGenerator() // Brevity.
 	// All centroids are candidates, as the nearest ones may hold less than k dps.
@@ -486,7 +486,7 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 	if len(indexes) == 0 {
 		return nil, false
 	}
-	centroids := make([]*centroid.Centroid, 0, n)
+	centroids := make([]*centroid.Centroid, 0, len(indexes))
 	for _, index := range indexes {
 		centroids = append(centroids, cm.Centroids[index])
 	}
diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index b680383..a1b6ffc 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -181,7 +181,7 @@ func (c *kmeansClient) DistributeDataPointsInternal(n int) {
 // (T of pkg/kmeans/centroidmanager, se that method name for more documentation),
 // using the addr and namespace specified while setting up this client.
 func (c *kmeansClient) KNNLookup(vec []float64, k int, drain bool) []DataPoint {
-	resp := make([]DataPoint, 0, k)
+	resp := make([]DataPoint, 0)
 
 	c.client(func(rc *rpc.Client) {
 		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 0a045cd..551e710 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -153,7 +153,7 @@ func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace stri
 // method called, then those dps will be sent to remote nodes that are most
 // similar to those dps (similarity is caluclated by remote CentroidManager.Vec()).
 func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
@@ -195,7 +195,7 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 // This is _a_lot_ slower due to many network calls, but has the benefit of
 // placing distribute dps precisely.
 func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
diff --git a/pkg/searchutils/knn.go b/pkg/searchutils/knn.go
index be9bc50..a0bf95b 100644
--- a/pkg/searchutils/knn.go
+++ b/pkg/searchutils/knn.go
@@ -86,7 +86,8 @@ type KNNBruteArgs struct {
 // (or furthest) neighs of a vector, and then returning their index.
 // See KNNBruteArgs (accepted argument) for more info.
 func KNNBrute(args KNNBruteArgs) []int {
-	res := make([]resultItem, args.K)
+	// Grown on demand (up to args.K), since K can exceed the amount of vectors.
+	var res []resultItem
 	// This represents the lowest/highest score found so far.
 	// Defining a cap of highest/lowest number representing similarity
 	// is done here by simply using the (near) min/max allowed float.
@@ -94,10 +95,6 @@ func KNNBrute(args KNNBruteArgs) []int {
 	if !args.Ascending {
 		similarity *= -1
 	}
-	// Apply worst score to all resultItems.
-	for i := 0; i < args.K; i++ {
-		res[i].score = similarity
-	}
 	i := 0
 	for {
 		// Next vector.
@@ -111,6 +108,9 @@ func KNNBrute(args KNNBruteArgs) []int {
 			i++
 			continue
 		}
+		if len(res) < args.K {
+			res = append(res, resultItem{score: similarity})
+		}
 		// Evaluate inclusion of current vector.
 		newSlot := &resultItem{i, score, true}
 		if args.Ascending && score < similarity {
-- 
2.43.0


From 98013cadd70d549f37b60792e1e910b9036bf99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:31 +0000
Subject: [PATCH 11/21] fix: a put is acknowledged only if it was stored, and a
 refused put creates no namespace

---
 pkg/kmeans/rpc/server.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 551e710..aa7dd74 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -56,14 +56,16 @@ func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
 	// Namespace doesn't exist, create one + add dp there.
 	if !lookupOK {
 		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)
-		centroidManager.AddDataPoint(args.DP)
+		// A dp that is refused doesn't create a namespace.
+		if !centroidManager.AddDataPoint(args.DP) {
+			return nil
+		}
 		slot := CManagerSlot{cManager: centroidManager}
 		// Returns a false if a slot is the containec CentroidManager is
 		// nil, but it is assumed that it works here.
-		s.Table.AddSlot(args.NameSpace, &slot)
+		*resp = s.Table.AddSlot(args.NameSpace, &slot)
 	}
 
-	*resp = true
 	return nil
 }
 
-- 
2.43.0


From 9b4a6d19585a89c94298689a363b16f721bf79f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:32 +0000
Subject: [PATCH 12/21] fix: the client filters consecutive empty centroids
 instead of panicking

---
 pkg/kmeans/rpc/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index a1b6ffc..b0b8b0a 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -218,6 +218,7 @@ func (c *kmeansClient) NearestCentroids(vec []float64, n int, drain bool) (
 	for i := 0; i < len(resp); i++ {
 		if resp[i] == nil || resp[i].LenDP() == 0 {
 			resp = append(resp[:i], resp[i+1:]...)
+			i--
 		}
 	}
 
-- 
2.43.0


From fca9a24ee55a5d457cf108c52d2963d068df341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:59 +0000
Subject: [PATCH 13/21] fix: concurrent first uses of a namespace no longer
 replace each other's data

---
 pkg/kmeans/rpc/rpc.go    | 15 +++++++++++++++
 pkg/kmeans/rpc/server.go | 12 ++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 179228b..21788c2 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -181,6 +181,21 @@ func (t *CManagerTable) AddSlot(namespace string, cms *CManagerSlot) bool {
 	return true
 }
 
+// addSlotIfAbsent is like AddSlot but will not replace an existing CManagerSlot.
+func (t *CManagerTable) addSlotIfAbsent(namespace string, cms *CManagerSlot) bool {
+	if cms == nil || cms.cManager == nil {
+		return false
+	}
+
+	t.Lock()
+	defer t.Unlock()
+	if _, exists := t.slots[namespace]; exists {
+		return false
+	}
+	t.slots[namespace] = cms
+	return true
+}
+
 // CentroidManagerFactoryF is whatever creates a CentroidManager.
 type CentroidManagerFactoryF = func(vec []float64) *CentroidManager
 
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index aa7dd74..1e72997 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -61,9 +61,13 @@ func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
 			return nil
 		}
 		slot := CManagerSlot{cManager: centroidManager}
-		// Returns a false if a slot is the containec CentroidManager is
-		// nil, but it is assumed that it works here.
-		*resp = s.Table.AddSlot(args.NameSpace, &slot)
+		*resp = s.Table.addSlotIfAbsent(args.NameSpace, &slot)
+		// Another request created the namespace meanwhile, so add the dp there.
+		if !*resp {
+			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
+				*resp = cm.AddDataPoint(args.DP)
+			})
+		}
 	}
 
 	return nil
@@ -372,7 +376,7 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 			return nil
 		}
 		cm := s.CentroidManagerFactoryFunc(localVec)
-		s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})
+		s.Table.addSlotIfAbsent(args.NameSpace, &CManagerSlot{cManager: cm})
 	}
 
 	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
-- 
2.43.0


From c67538e1f789d0b7ef3746ad9e0d565cabc0cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:54 +0000
Subject: [PATCH 14/21] fix: replies are snapshots, not live vectors and
 centroids encoded outside the lock

---
 pkg/kmeans/rpc/server.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 1e72997..b3d00c2 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -37,7 +37,8 @@ func (s *KMeansServer) Namespaces(_ int, resp *[]string) error {
 // lead to an instance.
 func (s *KMeansServer) Vec(namespace string, resp *[]float64) error {
 	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {
-		*resp = cm.Vec()
+		// Copied, as the response is encoded after cm is unlocked.
+		*resp = append([]float64(nil), cm.Vec()...)
 	})
 }
 
@@ -277,7 +278,14 @@ type NearestCentroidArgs struct {
 // lead to an instance.
 func (s *KMeansServer) NearestCentroids(args NearestCentroidArgs, r *[]*Centroid) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*r, _ = cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		centroids, _ := cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		// Copied, as the response is encoded after cm is unlocked.
+		*r = make([]*Centroid, len(centroids))
+		for i, c := range centroids {
+			cp := *c
+			cp.DataPoints = append([]DataPoint(nil), c.DataPoints...)
+			(*r)[i] = &cp
+		}
 	})
 }
 
@@ -293,7 +301,8 @@ func (s *KMeansServer) NearestCentroidVec(args NearestCentroidVecArgs, r *[]floa
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
 		centroids, _ := cm.NearestCentroids(args.Vec, 1, false)
 		if len(centroids) != 0 {
-			*r = centroids[0].Vec()
+			// Copied, as the response is encoded after cm is unlocked.
+			*r = append([]float64(nil), centroids[0].Vec()...)
 		}
 	})
 }
-- 
2.43.0


From c9c6b5b9611d5aaade5dc53bb78a5f274f034e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:09 +0000
Subject: [PATCH 15/21] fix: distributing to an empty list of nodes no longer
 discards the datapoints

---
 pkg/kmeans/rpc/server.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index b3d00c2..4bfbc15 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -164,10 +164,13 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		dps = append(dps, cm.DrainOrdered(args.N)...)
+		// Nothing is drained if it can't go anywhere, as it would be lost.
+		if len(args.AddrOptions) != 0 {
+			dps = append(dps, cm.DrainOrdered(args.N)...)
+		}
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
@@ -206,10 +209,13 @@ func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		dps = append(dps, cm.DrainOrdered(args.N)...)
+		// Nothing is drained if it can't go anywhere, as it would be lost.
+		if len(args.AddrOptions) != 0 {
+			dps = append(dps, cm.DrainOrdered(args.N)...)
+		}
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
-- 
2.43.0


From a9da51fc7d3bf0ba952113bff950198eea473ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:09 +0000
Subject: [PATCH 16/21] fix: stealing centroids no longer stops at the first
 empty one

---
 pkg/kmeans/rpc/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 4bfbc15..fac3a6b 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -398,9 +398,13 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 		// Can be improved. One at a time for convenience + readability.
 		centroids, cOK := client.NearestCentroids(localVec, 1, true)
 
-		if !cOK || len(centroids) == 0 {
+		if !cOK {
 			break
 		}
+		// The client leaves out Centroids without dps, others might follow.
+		if len(centroids) == 0 {
+			continue
+		}
 
 		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
 			// @ unsafe, this is assuming cm has similar properties as centroids
-- 
2.43.0


From b305d2610a8b4e92360f81b9ce1571b0949cf47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 17/21] fix: starting and stopping a node no longer race on its
 last connection

---
 pkg/kmeans/rpc/rpc.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 21788c2..f9547c5 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"net/rpc"
 	"sync"
+	"sync/atomic"
 	"trypo/pkg/kmeans/centroid"
 	"trypo/pkg/kmeans/centroidmanager"
 	"trypo/pkg/kmeans/common"
@@ -236,21 +237,21 @@ func StartListen(s *KMeansServer) (stop func(), err error) {
 		return nil, err
 	}
 
-	var conn net.Conn
+	var conn atomic.Value // Last net.Conn; set and closed in different goroutines.
 	stop = func() {
 		ln.Close()
-		if conn != nil {
-			conn.Close()
+		if cxn, ok := conn.Load().(net.Conn); ok {
+			cxn.Close()
 		}
 	}
 
 	go func() {
 		for {
 			cxn, err := ln.Accept()
-			conn = cxn
 			if err != nil {
 				break
 			}
+			conn.Store(cxn)
 			go handler.ServeConn(cxn)
 		}
 	}()
-- 
2.43.0


From ddea937ad5b82c209be456f90a6777c70a879896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:30 +0000
Subject: [PATCH 18/21] fix: event loop clamps the skip value of the Meta task
 too

A zero Meta skip value (the default of the config type) made the first
iteration panic with an integer divide by zero.
---
 core/eventloop/cfg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index d4f421f..1da55c7 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -67,6 +67,7 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 		&cfg.SplitCentroids,
 		&cfg.MergeCentroids,
 		&cfg.LoadBalancing,
+		&cfg.Meta,
 	}
 	for _, v := range items {
 		if *v < min {
-- 
2.43.0


From 9d9015562dca8af5acbf5673cad8747431d5fb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:09 +0000
Subject: [PATCH 19/21] fix: stopping the event loop raced with the loop
 reading the flag

---
 core/eventloop/cfg.go |  4 +++-
 core/eventloop/el.go  | 13 +++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index 1da55c7..27cbaab 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -80,7 +80,9 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 }
 
 type eventLoopInternal struct {
-	stopped bool
+	// Set (atomically) to non-zero by the stop func, while
+	// the loop (in its own goroutine) reads it.
+	stopped int32
 	iter    int
 }
 
diff --git a/core/eventloop/el.go b/core/eventloop/el.go
index 6ea71e5..c5b323c 100644
--- a/core/eventloop/el.go
+++ b/core/eventloop/el.go
@@ -1,22 +1,27 @@
 package eventloop
 
 import (
+	"sync/atomic"
 	"time"
 	"trypo/pkg/arbiter"
 )
 
 type Addr = arbiter.Addr
 
+func (cfg *EventLoopConfig) isStopped() bool {
+	return atomic.LoadInt32(&cfg.internal.stopped) != 0
+}
+
 // Intended to be used for each event loop task in the event loop.
 func elStep(cfg *EventLoopConfig, task func(*EventLoopConfig)) {
 	// For quickly aborting all steps in eventloop.
-	if cfg.internal.stopped {
+	if cfg.isStopped() {
 		return
 	}
 	time.Sleep(cfg.TimeoutStep)
 
 	// Neat in case timeout is long.
-	if cfg.internal.stopped {
+	if cfg.isStopped() {
 		return
 	}
 	task(cfg)
@@ -27,7 +32,7 @@ func EventLoop(cfg *EventLoopConfig) func() {
 
 	go func() {
 		// Note: tasks are _not_ arbitrarily ordered.
-		for cfg.internal.stopped == false {
+		for !cfg.isStopped() {
 			time.Sleep(cfg.TimeoutLoop)
 
 			elStep(cfg, eltMeta)
@@ -53,6 +58,6 @@ func EventLoop(cfg *EventLoopConfig) func() {
 	}()
 
 	return func() {
-		cfg.internal.stopped = true
+		atomic.StoreInt32(&cfg.internal.stopped, 1)
 	}
 }
-- 
2.43.0


From 61f1b62481437189edb0c3664a98feb61d7bb4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:29 +0000
Subject: [PATCH 20/21] fix: API refuses a put without a vector

It was answered with success although the datapoint could not be found again,
and the namespace then refused every proper datapoint.
---
 core/api/handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/api/handler.go b/core/api/handler.go
index 532eadd..daa9bc0 100644
--- a/core/api/handler.go
+++ b/core/api/handler.go
@@ -59,6 +59,13 @@ func (h *handler) putDataPoint(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	// A datapoint without a vector can't be found again, and would
+	// make the namespace unusable for others (dimension mismatch).
+	if len(opts.DP.Vec) == 0 {
+		w.WriteHeader(http.StatusBadRequest)
+		return
+	}
+
 	// pass to dps pkg.
 	args := dps.PutDataPointArgs{
 		AddrOptions:   h.RPCAddrs,
-- 
2.43.0


From b25496f806b9dd8e6b36b32ea058f877a10f3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:17 +0000
Subject: [PATCH 21/21] fix: taking no groups from another node does not found
 the namespace

---
 pkg/kmeans/rpc/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index fac3a6b..cc08fc9 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -390,8 +390,11 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 		if localVec == nil {
 			return nil
 		}
-		cm := s.CentroidManagerFactoryFunc(localVec)
-		s.Table.addSlotIfAbsent(args.NameSpace, &CManagerSlot{cManager: cm})
+		// Nothing to transfer, so there is no need for the namespace.
+		if args.TransferDPLimit > 0 {
+			cm := s.CentroidManagerFactoryFunc(localVec)
+			s.Table.addSlotIfAbsent(args.NameSpace, &CManagerSlot{cManager: cm})
+		}
 	}
 
 	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
-- 
2.43.0

