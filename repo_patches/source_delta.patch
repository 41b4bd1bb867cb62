From 7ce9c819872236c9ab3516c438534930271cac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:47 +0000
Subject: [PATCH 01/43] fix: NewDatum ignored its size2 argument

---
 data/datum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/datum.go b/data/datum.go
index 5db0810..fb0aa7c 100644
--- a/data/datum.go
+++ b/data/datum.go
@@ -22,7 +22,7 @@ func NewDatum(feature []float32,
 			Dim1:       dim1,
 			Dim2:       dim2,
 			Size1:      size1,
-			Size2:      size1,
+			Size2:      size2,
 			GroupLabel: groupLabel,
 		},
 		Value: &pb.DatumValue{
-- 
2.43.0


From da2a6e56462813654affa87ad3ec59c94d40b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:50 +0000
Subject: [PATCH 02/43] fix: aggregator preferred the worse score when lower is
 better

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 5dd9f33..f1b3ce7 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -46,7 +46,7 @@ func (a *Aggregator) IsNewScoredBetter(old, new float64) bool {
 			return true
 		}
 	} else {
-		if old < new {
+		if new < old {
 			return true
 		}
 	}
-- 
2.43.0


From 8fbff1591c6c80097906df850dd7d434841fb428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:53 +0000
Subject: [PATCH 03/43] fix: a better scored duplicate appeared twice in merged
 search results

---
 data/aggregator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/data/aggregator.go b/data/aggregator.go
index f1b3ce7..4578d24 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -100,6 +100,17 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	return nil
 }
 
+// removeFromList drops the entry that is superseded by a better scored duplicate
+func (a *Aggregator) removeFromList(keyString string) {
+	for i, scoredDatum := range a.List {
+		keyByte, err := GetKeyAsBytes(scoredDatum.GetDatum())
+		if err == nil && util.EncodeToString(keyByte) == keyString {
+			a.List = append(a.List[:i], a.List[i+1:]...)
+			return
+		}
+	}
+}
+
 func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 	scoredDatum.Score = a.BestScore(scoredDatum)
 	if a.Grouped {
@@ -124,6 +135,7 @@ func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 		if previousScore, ok := a.DeDuplicationMap.Get(keyString); ok {
 			if a.IsNewScoredBetter(previousScore.(float64), scoredDatum.GetScore()) {
 				a.DeDuplicationMap.Set(keyString, scoredDatum.GetScore(), cache.NoExpiration)
+				a.removeFromList(keyString)
 				return a.InsertToList(scoredDatum)
 			}
 		} else {
-- 
2.43.0


From 51b57493ab30cb8f6d0f07c9d527efd9c171f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:56 +0000
Subject: [PATCH 04/43] fix: a search with limit 0 crashed the node

---
 data/aggregator.go | 2 +-
 data/search.go     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 4578d24..f287e26 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -81,7 +81,7 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	if uint32(len(a.List)) < limit {
 		a.List = append(a.List, scoredDatum)
 		itemAdded = true
-	} else if a.IsNewScoredBetter(a.List[len(a.List)-1].Score, scoredDatum.Score) {
+	} else if len(a.List) > 0 && a.IsNewScoredBetter(a.List[len(a.List)-1].Score, scoredDatum.Score) {
 		a.List[len(a.List)-1] = scoredDatum
 		itemAdded = true
 	}
diff --git a/data/search.go b/data/search.go
index 566e714..0874279 100644
--- a/data/search.go
+++ b/data/search.go
@@ -66,8 +66,8 @@ func (c *Collector) Insert(scoredDatum *pb.ScoredDatum) error {
 	if uint32(len(c.List)) < c.N {
 		c.List = append(c.List, scoredDatum)
 		itemAdded = true
-	} else if (c.HigherIsBetter && scoredDatum.Score > c.List[len(c.List)-1].Score) ||
-		(!c.HigherIsBetter && scoredDatum.Score < c.List[len(c.List)-1].Score) {
+	} else if len(c.List) > 0 && ((c.HigherIsBetter && scoredDatum.Score > c.List[len(c.List)-1].Score) ||
+		(!c.HigherIsBetter && scoredDatum.Score < c.List[len(c.List)-1].Score)) {
 		c.List[len(c.List)-1] = scoredDatum
 		itemAdded = true
 	}
-- 
2.43.0


From 9000e8feedd92bf29170d23535e084953d97b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:59 +0000
Subject: [PATCH 05/43] fix: the search limit of a request sized an allocation
 directly

---
 data/search.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/search.go b/data/search.go
index 0874279..b554047 100644
--- a/data/search.go
+++ b/data/search.go
@@ -303,7 +303,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		config = DefaultSearchConfig()
 	}
 	c := &Collector{}
-	c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+	c.List = make([]*pb.ScoredDatum, 0)
 	c.DatumKey = datum.Key
 	c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 	c.HigherIsBetter = config.HigherIsBetter
@@ -351,7 +351,7 @@ func (dt *Data) Search(datum *pb.Datum, config *pb.SearchConfig, c *Collector) *
 			config = DefaultSearchConfig()
 		}
 		c = &Collector{}
-		c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+		c.List = make([]*pb.ScoredDatum, 0)
 		c.DatumKey = datum.Key
 		c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 		c.HigherIsBetter = config.HigherIsBetter
-- 
2.43.0


From 73dbe416c5c605d4ba3c5d6e7d2d26c5707fbbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:23 +0000
Subject: [PATCH 06/43] fix: an insert request without a datum, key or value
 crashed the node

---
 data/insert.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/insert.go b/data/insert.go
index 46b8ca2..848e728 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -9,6 +9,12 @@ import (
 
 // Insert inserts data to internal kv store
 func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
+	if datum.GetKey() == nil {
+		return errors.New("Datum key is missing")
+	}
+	if datum.Value == nil {
+		datum.Value = &pb.DatumValue{}
+	}
 	if dt.Config != nil && !dt.Config.NoTarget && dt.N >= dt.Config.TargetN {
 		return errors.New("Number of elements is over the target")
 	}
-- 
2.43.0


From 087e7523e0380cbe3f584f82776fe71bca201958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:26 +0000
Subject: [PATCH 07/43] fix: a search request without a config or a key crashed
 the node

---
 data/aggregator.go  |  4 ++--
 data/datum.go       | 14 ++++++++++++--
 data/search.go      | 10 +++++-----
 node/nodeservice.go |  3 +++
 4 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index f287e26..d9827f0 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -63,7 +63,7 @@ func (a *Aggregator) BestScore(scoredDatum *pb.ScoredDatum) float64 {
 			isSet = true
 		}
 		for _, datum := range a.Context.GetDatum() {
-			newScore := a.ScoreFunc(scoredDatum.Datum.Key.Feature, datum.Key.Feature)
+			newScore := a.ScoreFunc(scoredDatum.GetDatum().GetKey().GetFeature(), datum.GetKey().GetFeature())
 			if !isSet || a.IsNewScoredBetter(current, newScore) {
 				current = newScore
 				isSet = true
@@ -114,7 +114,7 @@ func (a *Aggregator) removeFromList(keyString string) {
 func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 	scoredDatum.Score = a.BestScore(scoredDatum)
 	if a.Grouped {
-		keyString := util.EncodeToString(scoredDatum.Datum.Key.GroupLabel)
+		keyString := util.EncodeToString(scoredDatum.GetDatum().GetKey().GetGroupLabel())
 		if aGroupAggregatorInterface, ok := a.DeDuplicationMap.Get(keyString); ok {
 			aGroupAggregator := aGroupAggregatorInterface.(AggregatorInterface)
 			return aGroupAggregator.Insert(scoredDatum)
diff --git a/data/datum.go b/data/datum.go
index fb0aa7c..0a8ea5e 100644
--- a/data/datum.go
+++ b/data/datum.go
@@ -1,6 +1,8 @@
 package data
 
 import (
+	"errors"
+
 	pb "github.com/bgokden/veri/veriservice"
 
 	"github.com/bgokden/veri/data/gencoder"
@@ -103,11 +105,19 @@ func NewDatum(feature []float32,
 // Gencode
 
 func GetKeyAsBytes(datum *pb.Datum) ([]byte, error) {
-	return gencoder.MarshalKey(datum.Key)
+	key := datum.GetKey()
+	if key == nil {
+		return nil, errors.New("Datum key is missing")
+	}
+	return gencoder.MarshalKey(key)
 }
 
 func GetValueAsBytes(datum *pb.Datum) ([]byte, error) {
-	return gencoder.MarshalValue(datum.Value)
+	value := datum.GetValue()
+	if value == nil {
+		return nil, errors.New("Datum value is missing")
+	}
+	return gencoder.MarshalValue(value)
 }
 
 func ToDatumKey(byteArray []byte) (*pb.DatumKey, error) {
diff --git a/data/search.go b/data/search.go
index b554047..9c88ec5 100644
--- a/data/search.go
+++ b/data/search.go
@@ -304,7 +304,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 	}
 	c := &Collector{}
 	c.List = make([]*pb.ScoredDatum, 0)
-	c.DatumKey = datum.Key
+	c.DatumKey = datum.GetKey()
 	c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 	c.HigherIsBetter = config.HigherIsBetter
 	c.N = config.Limit
@@ -315,7 +315,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		var result []int
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
-		dt.Annoyer.AnnoyIndex.GetNnsByVector(datum.Key.Feature, len(index), int(config.Limit), &result, &distances)
+		dt.Annoyer.AnnoyIndex.GetNnsByVector(datum.GetKey().GetFeature(), len(index), int(config.Limit), &result, &distances)
 		if result != nil {
 			counter := uint32(0)
 			for i := 0; i < len(result); i++ {
@@ -323,7 +323,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 				if datumE != nil && c.PassesFilters(datumE) {
 					scoredDatum := &pb.ScoredDatum{
 						Datum: datumE,
-						Score: c.ScoreFunc(datum.Key.Feature, datumE.Key.Feature),
+						Score: c.ScoreFunc(datum.GetKey().GetFeature(), datumE.Key.Feature),
 					}
 					// log.Printf("Result %v d: %v\n", result[i], distances[i])
 					c.List = append(c.List, scoredDatum)
@@ -352,7 +352,7 @@ func (dt *Data) Search(datum *pb.Datum, config *pb.SearchConfig, c *Collector) *
 		}
 		c = &Collector{}
 		c.List = make([]*pb.ScoredDatum, 0)
-		c.DatumKey = datum.Key
+		c.DatumKey = datum.GetKey()
 		c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 		c.HigherIsBetter = config.HigherIsBetter
 		c.N = config.Limit
@@ -363,7 +363,7 @@ func (dt *Data) Search(datum *pb.Datum, config *pb.SearchConfig, c *Collector) *
 	dt.LoopDBMap(func(entry *DBMapEntry) error {
 		if c.PassesFilters(entry.Datum) {
 			err := c.Insert(&pb.ScoredDatum{
-				Score: c.ScoreFunc(entry.Datum.Key.Feature, datum.Key.Feature),
+				Score: c.ScoreFunc(entry.Datum.Key.Feature, datum.GetKey().GetFeature()),
 				Datum: entry.Datum,
 			})
 			if err != nil {
diff --git a/node/nodeservice.go b/node/nodeservice.go
index 753ab84..23d8fb2 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -117,6 +117,9 @@ func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataReques
 
 func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriService_SearchStreamServer) error {
 	config := searchRequest.GetConfig()
+	if config == nil {
+		return errors.New("Search config is missing")
+	}
 	uid := config.GetUuid()
 	if uid == "" {
 		uid, err := uuid.NewRandom()
-- 
2.43.0


From 11febf1dba7566d39dda2e5205703cb4c0e06506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:29 +0000
Subject: [PATCH 08/43] fix: merging a group without a valid member crashed the
 node

---
 data/aggregator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index d9827f0..02c50ec 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -153,7 +153,9 @@ func (a *Aggregator) Result() []*pb.ScoredDatum {
 		agg := NewAggrator(a.Config, false, a.Context)
 		for _, groupAggObject := range groupMap {
 			groupAgg := groupAggObject.Object.(AggregatorInterface)
-			agg.Insert(groupAgg.One())
+			if one := groupAgg.One(); one != nil {
+				agg.Insert(one)
+			}
 		}
 		return agg.Result()
 	} else {
-- 
2.43.0


From 216a3113367350302a9b129478babfa730d0a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:32 +0000
Subject: [PATCH 09/43] fix: a join or add-peer request without a peer crashed
 the node

---
 node/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/node.go b/node/node.go
index 95456da..b6fd444 100644
--- a/node/node.go
+++ b/node/node.go
@@ -1,6 +1,7 @@
 package node
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"runtime"
@@ -106,6 +107,9 @@ func (n *Node) CheckPeer(peer *pb.Peer) bool {
 }
 
 func (n *Node) AddPeerElement(peer *pb.Peer) error {
+	if peer == nil {
+		return errors.New("Peer is missing")
+	}
 	if !n.isPeerSimilarToNode(peer) {
 		idOfPeer := GetIdOfPeer(peer)
 		if oldPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {
-- 
2.43.0


From d3fc0cf4494c1940a8ba564241159462b0c02ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:35 +0000
Subject: [PATCH 10/43] fix: an unreachable peer crashed the node while looking
 for inactive data

---
 data/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index be2b8b9..02eb68c 100644
--- a/data/data.go
+++ b/data/data.go
@@ -133,7 +133,7 @@ func (dt *Data) CheckIfActive() bool {
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough
 			source := sourceItem.Object.(DataSource)
-			if source.GetDataInfo().N > 0 {
+			if info := source.GetDataInfo(); info != nil && info.N > 0 {
 				return true
 			}
 		}
-- 
2.43.0


From 53e85e26d99604acf015e86959747b18be551bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:38 +0000
Subject: [PATCH 11/43] fix: reporting on data that is deleted or not
 initialized yet crashed the node

---
 node/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/node.go b/node/node.go
index b6fd444..f81eb3c 100644
--- a/node/node.go
+++ b/node/node.go
@@ -356,6 +356,10 @@ func (n *Node) Info() string {
 			sb.WriteString(fmt.Sprintf("* Name %v N: %v config %v\n", name, dinfo.N, config))
 		} else {
 			sb.WriteString(fmt.Sprintf("* Name %v Error: %v\n", name, err.Error()))
+			continue
+		}
+		if dt.Sources == nil {
+			continue // not initialized yet
 		}
 		sourceList := dt.Sources.Items()
 		for _, sourceItem := range sourceList {
-- 
2.43.0


From fb9eaea6c407b21898d4782b0bcb9681fc2ff550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:00 +0000
Subject: [PATCH 12/43] fix: an insert marked the config of its caller as
 already replicated

---
 data/insert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/insert.go b/data/insert.go
index 848e728..fa1c417 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -34,7 +34,7 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 	}
 	counter := uint32(1)
 	if dt.Config.EnforceReplicationOnInsert && config.Count == 0 {
-		config.Count++
+		config = &pb.InsertConfig{TTL: config.TTL, Count: config.Count + 1} // the config of the caller is not changed
 		// log.Printf("Sending Insert with config.Count: %v ttl: %v\n", config.Count, config.TTL)
 		dt.RunOnRandomSources(5, func(source DataSource) error {
 			err := source.Insert(datum, config)
-- 
2.43.0


From 4982203d0b2023329be3ff212f6c0d0280dd206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:11 +0000
Subject: [PATCH 13/43] fix: re-inserting an expired datum was acknowledged but
 not stored

---
 data/newsync.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 2040b5c..d0046fd 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -50,7 +50,8 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 			if err != nil {
 				return err
 			}
-			if bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {
+			isOldExpired := oldEntry.ExprireAt != 0 && oldEntry.ExprireAt <= time.Now().Unix()
+			if !isOldExpired && bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {
 				isNewEntry = false
 			}
 		}
-- 
2.43.0


From 72c2ec5772aaca269d1df89a51f5d916f0ada4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:14 +0000
Subject: [PATCH 14/43] fix: a very large TTL made a datum expire immediately

---
 data/newsync.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index d0046fd..680b486 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"io/ioutil"
 	"log"
+	"math"
 	"math/rand"
 	"os"
 	"sync/atomic"
@@ -27,7 +28,11 @@ func CloseEnough(a, b int64) bool {
 func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 	exprireAt := int64(0)
 	if config != nil && config.TTL != 0 {
-		exprireAt = time.Now().Unix() + int64(config.TTL)
+		now := time.Now().Unix()
+		exprireAt = math.MaxInt64
+		if config.TTL < uint64(math.MaxInt64-now) {
+			exprireAt = now + int64(config.TTL)
+		}
 	}
 	datum.Clean()
 	entry := &DBMapEntry{
-- 
2.43.0


From cb31b7e56407cf70d4a663f81dd6398505bd2241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:17 +0000
Subject: [PATCH 15/43] fix: removing an expired entry could remove a
 concurrent re-insert

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 680b486..50975ce 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -82,7 +82,7 @@ func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	dt.DBMap.Range(func(key, value interface{}) bool {
 		if mapEntry, ok := value.(*DBMapEntry); ok {
 			if mapEntry.ExprireAt != 0 && mapEntry.ExprireAt <= time.Now().Unix() {
-				dt.DBMap.Delete(key)
+				dt.DBMap.CompareAndDelete(key, value)
 				return true
 			}
 			err := entryFunction(mapEntry)
-- 
2.43.0


From 375697c46736495fa799fbd9dceb53f82e64ee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:20 +0000
Subject: [PATCH 16/43] fix: evicting a transferred datum could remove a newer
 value of its key

---
 data/newsync.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 50975ce..b69f94d 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -77,6 +77,21 @@ func (dt *Data) DeleteBDMap(datum *pb.Datum) error {
 	return nil
 }
 
+// evictBDMap removes the datum unless it has been replaced in the meantime
+func (dt *Data) evictBDMap(datum *pb.Datum) error {
+	keyByte, err := GetKeyAsBytes(datum)
+	if err != nil {
+		return err
+	}
+	mapKey := string(keyByte)
+	if value, ok := dt.DBMap.Load(mapKey); ok {
+		if entry, ok2 := value.(*DBMapEntry); ok2 && entry.Datum == datum {
+			dt.DBMap.CompareAndDelete(mapKey, value)
+		}
+	}
+	return nil
+}
+
 func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	var lastError error
 	dt.DBMap.Range(func(key, value interface{}) bool {
@@ -130,7 +145,7 @@ func (dt *Data) Process(force bool) error {
 									}
 									if err == nil && (!dt.Alive || isEvictionOn(localInfo, config, deleted)) {
 										countMap[id]++
-										dt.DeleteBDMap(datum.Datum)
+										dt.evictBDMap(datum.Datum)
 										deleted++
 									}
 								}
-- 
2.43.0


From 12b7c8fa694c78c29c132669540954a9a80517ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:23 +0000
Subject: [PATCH 17/43] fix: data without a TTL was never transferred to peers

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index b69f94d..64aefe0 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -203,7 +203,7 @@ func (dt *Data) Process(force bool) error {
 			}
 			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
-				if config.TTL > 10 {
+				if entry.ExprireAt == 0 || config.TTL > 10 {
 					datumStream <- &pb.InsertDatumWithConfig{
 						Datum:  entry.Datum,
 						Config: config,
-- 
2.43.0


From 9f20df69b7a629a8cf77f498578e00a9c83e1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:26 +0000
Subject: [PATCH 18/43] fix: the time left of an expired entry wrapped around

---
 data/sync.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/sync.go b/data/sync.go
index 0cf6ba3..0e1a0a8 100644
--- a/data/sync.go
+++ b/data/sync.go
@@ -25,7 +25,10 @@ type InsertStreamCollector struct {
 func InsertConfigFromExpireAt(expiresAt uint64) *pb.InsertConfig {
 	var timeLeftInSeconds uint64
 	if expiresAt > 0 {
-		timeLeftInSeconds = expiresAt - uint64(getCurrentTime())
+		timeLeftInSeconds = 1 // 0 would mean that it never expires
+		if now := getCurrentTime(); expiresAt > now {
+			timeLeftInSeconds = expiresAt - now
+		}
 	} else {
 		timeLeftInSeconds = 0
 	}
-- 
2.43.0


From 67eb9088cfea9f4de0731eebd3668b794dcca27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:54 +0000
Subject: [PATCH 19/43] fix: two processors could run for the same data

---
 data/data.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index 02eb68c..ba37bc2 100644
--- a/data/data.go
+++ b/data/data.go
@@ -143,11 +143,10 @@ func (dt *Data) CheckIfActive() bool {
 
 // Run runs statistical calculation regularly
 func (dt *Data) Run() error {
-	if atomic.LoadInt32(&dt.Runs) >= 1 {
+	if !atomic.CompareAndSwapInt32(&dt.Runs, 0, 1) {
 		log.Printf("Multiple Run calls detected.")
 		return errors.New("Another instance of processor is running for data")
 	}
-	atomic.AddInt32(&dt.Runs, 1)
 	defer atomic.AddInt32(&dt.Runs, -1)
 	nextTime := getCurrentTime()
 	gcCounter := 10
-- 
2.43.0


From fc46aac17e95aef5cac07823e4f763dfd7a04933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:57 +0000
Subject: [PATCH 20/43] fix: recently inserted data was dropped as inactive

---
 data/data.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index ba37bc2..847f03b 100644
--- a/data/data.go
+++ b/data/data.go
@@ -124,9 +124,19 @@ func (dt *Data) DeletePath() error {
 	return nil
 }
 
+// hasEntries tells if anything is stored, N follows only with the next run of Process
+func (dt *Data) hasEntries() bool {
+	found := false
+	dt.DBMap.Range(func(key, value interface{}) bool {
+		found = true
+		return false
+	})
+	return found
+}
+
 // Check if dataset is active
 func (dt *Data) CheckIfActive() bool {
-	if dt.N > 0 {
+	if dt.hasEntries() {
 		return true
 	}
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
-- 
2.43.0


From 1d5d6a8dc35a4f9576bc2982fdcbd385438aa83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:18 +0000
Subject: [PATCH 21/43] fix: closing data that was not counted yet blocked its
 processor forever

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 64aefe0..8794949 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -201,7 +201,7 @@ func (dt *Data) Process(force bool) error {
 				newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
 				newDataIndex[i] = entry.Datum
 			}
-			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
+			if localN > 0 && (!dt.Alive || insertionCounter < limit && rand.Float64() < fraction) { // nothing consumes the stream without localN
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
 				if entry.ExprireAt == 0 || config.TTL > 10 {
 					datumStream <- &pb.InsertDatumWithConfig{
-- 
2.43.0


From 2097cc6fa61f418e320afae1fd90605af6b0be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:21 +0000
Subject: [PATCH 22/43] fix: closing did not end when peers could not take over
 the data

---
 data/data.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 847f03b..3ef6468 100644
--- a/data/data.go
+++ b/data/data.go
@@ -17,6 +17,9 @@ import (
 	pb "github.com/bgokden/veri/veriservice"
 )
 
+// drainTimeout limits the time spent on handing over data to peers on close
+const drainTimeout = 20 * time.Second
+
 type DataSource interface {
 	StreamSearch(datumList *pb.Datum, scoredDatumStream chan<- *pb.ScoredDatum, queryWaitGroup *sync.WaitGroup, config *pb.SearchConfig) error
 	Insert(datum *pb.Datum, config *pb.InsertConfig) error
@@ -108,7 +111,8 @@ func NewTempData() (*Data, error) {
 func (dt *Data) Close() error {
 	dt.Alive = false
 	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
-		for dt.N > 0 {
+		deadline := time.Now().Add(drainTimeout)
+		for dt.hasEntries() && time.Now().Before(deadline) {
 			dt.Process(true)
 		}
 	}
-- 
2.43.0


From 6156a906a210bd54c5cfef93a713abcd3cfa43c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:42 +0000
Subject: [PATCH 23/43] fix: statistics and config of data were read and
 written without synchronization

---
 data/data.go    |  8 ++++++--
 data/dataset.go |  2 ++
 data/insert.go  | 10 ++++++----
 data/newsync.go | 14 +++++++++-----
 4 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/data/data.go b/data/data.go
index 3ef6468..29d35b0 100644
--- a/data/data.go
+++ b/data/data.go
@@ -58,6 +58,8 @@ type Data struct {
 }
 
 func (d *Data) GetConfig() *pb.DataConfig {
+	d.RLock()
+	defer d.RUnlock()
 	return d.Config
 }
 
@@ -84,9 +86,9 @@ func NewPreData(config *pb.DataConfig, dataPath string) *Data {
 }
 
 func (dt *Data) InitData() error {
-	log.Printf("Init Data %v\n", dt.Config)
 	dt.Lock()
 	defer dt.Unlock()
+	log.Printf("Init Data %v\n", dt.Config)
 	if dt.Initialized == false {
 		dt.Sources = cache.New(10*time.Minute, 1*time.Minute)
 		dt.QueryCache = cache.New(5*time.Minute, 1*time.Minute)
@@ -217,6 +219,8 @@ func CheckIfUnkownError(err error) bool {
 // GetDataInfo out of data
 func (dt *Data) GetDataInfo() *pb.DataInfo {
 	// log.Printf("Data: %v\n", dt)
+	dt.RLock()
+	defer dt.RUnlock()
 	return &pb.DataInfo{
 		Avg:               dt.Avg,
 		N:                 dt.N,
@@ -246,7 +250,7 @@ func (dt *Data) AddSource(dataSource DataSource) error {
 }
 
 func (dt *Data) GetID() string {
-	return dt.Config.Name
+	return dt.GetConfig().Name
 }
 
 func (dt *Data) RunOnRandomSources(sourceLimit int, sourceFunction func(dataSource DataSource) error) error {
diff --git a/data/dataset.go b/data/dataset.go
index 1ec258c..08d21ab 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -117,10 +117,12 @@ func (dts *Dataset) CreateIfNotExists(config *pb.DataConfig) error {
 	if err.Error() == fmt.Sprintf("Item %s already exists", config.Name) {
 		data, errGetNoOp := dts.GetNoOp(config.Name)
 		if errGetNoOp == nil {
+			data.Lock()
 			if config.Version > data.Config.Version {
 				log.Printf("Update Data %v Config.Version: %v\n", config.Name, config.Version)
 				data.Config = config
 			}
+			data.Unlock()
 		} else {
 			log.Printf("Error errGetNoOp: %v\n", errGetNoOp.Error())
 		}
diff --git a/data/insert.go b/data/insert.go
index fa1c417..877c291 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -15,7 +15,8 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 	if datum.Value == nil {
 		datum.Value = &pb.DatumValue{}
 	}
-	if dt.Config != nil && !dt.Config.NoTarget && dt.N >= dt.Config.TargetN {
+	info := dt.GetDataInfo()
+	if !info.NoTarget && info.N >= info.TargetN {
 		return errors.New("Number of elements is over the target")
 	}
 	if dt.Initialized == false {
@@ -33,7 +34,8 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 		}
 	}
 	counter := uint32(1)
-	if dt.Config.EnforceReplicationOnInsert && config.Count == 0 {
+	dataConfig := dt.GetConfig()
+	if dataConfig.EnforceReplicationOnInsert && config.Count == 0 {
 		config = &pb.InsertConfig{TTL: config.TTL, Count: config.Count + 1} // the config of the caller is not changed
 		// log.Printf("Sending Insert with config.Count: %v ttl: %v\n", config.Count, config.TTL)
 		dt.RunOnRandomSources(5, func(source DataSource) error {
@@ -44,12 +46,12 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 			if err == nil {
 				counter++
 			}
-			if counter >= dt.Config.ReplicationOnInsert {
+			if counter >= dataConfig.ReplicationOnInsert {
 				return errors.New("Replication number reached")
 			}
 			return nil
 		})
-		if counter < dt.Config.ReplicationOnInsert {
+		if counter < dataConfig.ReplicationOnInsert {
 			return errors.New("Replicas is less then Replication Config")
 		}
 	}
diff --git a/data/newsync.go b/data/newsync.go
index 8794949..e80a920 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -160,24 +160,24 @@ func (dt *Data) Process(force bool) error {
 		maxDistance := 0.0
 		avg := make([]float32, 0)
 		hist := make([]float32, 64)
-		nFloat := float32(dt.N)
+		nFloat := float32(localN)
 		if nFloat == 0 {
 			nFloat = 1
 		}
 		histUnit := 1 / nFloat
-		newDataIndex := make([]*pb.Datum, max(1000, int(dt.N)))
+		newDataIndex := make([]*pb.Datum, max(1000, int(localN)))
 		var newAnnoyIndex annoyindex.AnnoyIndexAngular
 		var newTempFileName string
 
 		err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 			n++
 			avg = CalculateAverage(avg, entry.Datum.Key.Feature, nFloat)
-			distance = VectorDistance(dt.Avg, entry.Datum.Key.Feature)
+			distance = VectorDistance(localInfo.Avg, entry.Datum.Key.Feature)
 			if distance > maxDistance {
 				maxDistance = distance
 			}
-			if dt.MaxDistance != 0 {
-				index := int((distance / dt.MaxDistance) * 64)
+			if localInfo.MaxDistance != 0 {
+				index := int((distance / localInfo.MaxDistance) * 64)
 				if index >= 64 {
 					index = 63
 				}
@@ -216,10 +216,12 @@ func (dt *Data) Process(force bool) error {
 		if err != nil {
 			return err
 		}
+		dt.Lock()
 		dt.Avg = avg
 		dt.Hist = hist
 		dt.MaxDistance = maxDistance
 		dt.N = n
+		dt.Unlock()
 		dt.LastRunTimestamp = getCurrentTime()
 		if newAnnoyIndex != nil {
 			start := time.Now()
@@ -242,7 +244,9 @@ func (dt *Data) Process(force bool) error {
 			}
 		}
 	}
+	dt.Lock()
 	dt.Timestamp = getCurrentTime()
+	dt.Unlock()
 	dt.Dirty = false
 	return nil
 }
-- 
2.43.0


From 975de8deb253c730da29716a0aa959fdbb3ec1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:02 +0000
Subject: [PATCH 24/43] fix: the search index was inspected without holding its
 lock

---
 data/search.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/search.go b/data/search.go
index 9c88ec5..38049f6 100644
--- a/data/search.go
+++ b/data/search.go
@@ -310,8 +310,8 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 	c.N = config.Limit
 	c.Filters = config.Filters
 	c.GroupFilters = config.GroupFilters
+	dt.Annoyer.RLock()
 	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 {
-		dt.Annoyer.RLock()
 		var result []int
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
@@ -336,6 +336,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		}
 		dt.Annoyer.RUnlock()
 	} else {
+		dt.Annoyer.RUnlock()
 		log.Println("Fallback to regular search")
 		// return c // Fallback is emptry list now
 		return dt.Search(datum, config, nil)
-- 
2.43.0


From 53dfa64542b49b062008c8ec6fb44d7fe2e542ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:05 +0000
Subject: [PATCH 25/43] fix: vectors shorter than the search index were read
 out of bounds

---
 data/data.go    |  1 +
 data/newsync.go | 11 ++++++++---
 data/search.go  |  3 ++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/data/data.go b/data/data.go
index 29d35b0..22bd472 100644
--- a/data/data.go
+++ b/data/data.go
@@ -31,6 +31,7 @@ type Annoyer struct {
 	sync.RWMutex
 	DataIndex     *[]*pb.Datum
 	AnnoyIndex    annoyindex.AnnoyIndexAngular
+	Dimension     int
 	BuildFileName string
 }
 
diff --git a/data/newsync.go b/data/newsync.go
index e80a920..9d665a3 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -167,6 +167,7 @@ func (dt *Data) Process(force bool) error {
 		histUnit := 1 / nFloat
 		newDataIndex := make([]*pb.Datum, max(1000, int(localN)))
 		var newAnnoyIndex annoyindex.AnnoyIndexAngular
+		newDimension := 0
 		var newTempFileName string
 
 		err := dt.LoopDBMap(func(entry *DBMapEntry) error {
@@ -190,7 +191,8 @@ func (dt *Data) Process(force bool) error {
 			if dt.Alive && i < len(newDataIndex) {
 				if newAnnoyIndex == nil {
 					// newAnnoyIndex = annoyindex.NewAnnoyIndexEuclidean(len(datum.Key.Feature))
-					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(len(entry.Datum.Key.Feature))
+					newDimension = len(entry.Datum.Key.Feature)
+					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(newDimension)
 					tmpfile, err := ioutil.TempFile("", "annoy")
 					if err == nil {
 						newTempFileName = tmpfile.Name()
@@ -198,8 +200,10 @@ func (dt *Data) Process(force bool) error {
 					}
 
 				}
-				newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
-				newDataIndex[i] = entry.Datum
+				if len(entry.Datum.Key.Feature) >= newDimension { // the index reads newDimension elements
+					newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
+					newDataIndex[i] = entry.Datum
+				}
 			}
 			if localN > 0 && (!dt.Alive || insertionCounter < limit && rand.Float64() < fraction) { // nothing consumes the stream without localN
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
@@ -237,6 +241,7 @@ func (dt *Data) Process(force bool) error {
 			oldFile := dt.Annoyer.BuildFileName
 			dt.Annoyer.BuildFileName = newTempFileName
 			dt.Annoyer.AnnoyIndex = newAnnoyIndex
+			dt.Annoyer.Dimension = newDimension
 			dt.Annoyer.DataIndex = &newDataIndex
 			dt.Annoyer.Unlock()
 			if len(oldFile) > 0 {
diff --git a/data/search.go b/data/search.go
index 38049f6..cc4d510 100644
--- a/data/search.go
+++ b/data/search.go
@@ -311,7 +311,8 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 	c.Filters = config.Filters
 	c.GroupFilters = config.GroupFilters
 	dt.Annoyer.RLock()
-	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 {
+	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 &&
+		len(datum.GetKey().GetFeature()) >= dt.Annoyer.Dimension { // the index reads Dimension elements
 		var result []int
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
-- 
2.43.0


From 65a7b9c914722956183f2fbac446437aeeb0d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:09 +0000
Subject: [PATCH 26/43] fix: the search index kept returning data after all of
 it was removed

---
 data/newsync.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/data/newsync.go b/data/newsync.go
index 9d665a3..04ceb0d 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -247,6 +247,15 @@ func (dt *Data) Process(force bool) error {
 			if len(oldFile) > 0 {
 				os.Remove(oldFile)
 			}
+		} else if n == 0 {
+			dt.Annoyer.Lock()
+			if dt.Annoyer.DataIndex != nil {
+				dt.Annoyer.AnnoyIndex.Unload()
+				annoyindex.DeleteAnnoyIndexAngular(dt.Annoyer.AnnoyIndex)
+			}
+			dt.Annoyer.AnnoyIndex = nil
+			dt.Annoyer.DataIndex = nil
+			dt.Annoyer.Unlock()
 		}
 	}
 	dt.Lock()
-- 
2.43.0


From 28bb30b6bdf9011f6fc779ae0fb54cc8c63ee614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:39 +0000
Subject: [PATCH 27/43] fix: concurrent searches changed the timeout of their
 shared config

---
 data/search.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/search.go b/data/search.go
index cc4d510..d6fea4e 100644
--- a/data/search.go
+++ b/data/search.go
@@ -162,7 +162,10 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	duration := time.Duration(config.Timeout) * time.Millisecond
 	timeLimit := time.After(duration)
 	queryKey := GetSearchKey(datum, config)
-	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
+	var downstreamConfig pb.SearchConfig
+	copier.Copy(&downstreamConfig, config)
+	downstreamConfig.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
+	config = &downstreamConfig                                       // config of the caller is shared with other searches
 	if dt.QueryCache == nil {
 		dt.InitData()
 	}
-- 
2.43.0


From f51ec1b1293ad579fb5897fce891640bbc2311e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:43 +0000
Subject: [PATCH 28/43] fix: a search that timed out left its workers blocked
 forever

---
 data/search.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/data/search.go b/data/search.go
index d6fea4e..a42792c 100644
--- a/data/search.go
+++ b/data/search.go
@@ -221,6 +221,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 			break
 		case <-timeLimit:
 			log.Printf("timeout")
+			go drainStream(scoredDatumStream, waitChannel)
 			dataAvailable = false
 			break
 		}
@@ -243,6 +244,17 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	return nil
 }
 
+// drainStream lets late producers finish after nobody is interested in their results
+func drainStream(scoredDatumStream <-chan *pb.ScoredDatum, waitChannel <-chan struct{}) {
+	for {
+		select {
+		case <-scoredDatumStream:
+		case <-waitChannel:
+			return
+		}
+	}
+}
+
 func CloneResult(result []*pb.ScoredDatum) []*pb.ScoredDatum {
 	resultCopy := make([]*pb.ScoredDatum, len(result))
 	for i, sd := range result {
@@ -291,6 +303,7 @@ func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchCo
 			break
 		case <-timeLimit:
 			// log.Printf("timeout")
+			go drainStream(scoredDatumStream, waitChannel)
 			dataAvailable = false
 			break
 		}
-- 
2.43.0


From b73580fd9097943801608f92b1c063fb88321ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:46 +0000
Subject: [PATCH 29/43] fix: peers answered only one of the vectors of a multi
 vector search

---
 data/search.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/data/search.go b/data/search.go
index a42792c..9103408 100644
--- a/data/search.go
+++ b/data/search.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"encoding/json"
+	"fmt"
 	"log"
 	"sort"
 	"strings"
@@ -274,9 +275,15 @@ func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchCo
 	var queryWaitGroup sync.WaitGroup
 	waitChannel := make(chan struct{})
 	// loop datumList
-	for _, datum := range datumList {
+	for i, datum := range datumList {
 		queryWaitGroup.Add(1)
-		go dt.AggregatedSearch(datum, scoredDatumStream, &queryWaitGroup, config)
+		datumConfig := config
+		if len(datumList) > 1 { // peers reject a second query with the same id
+			datumConfig = &pb.SearchConfig{}
+			copier.Copy(datumConfig, config)
+			datumConfig.Uuid = fmt.Sprintf("%v-%v", config.Uuid, i)
+		}
+		go dt.AggregatedSearch(datum, scoredDatumStream, &queryWaitGroup, datumConfig)
 	}
 	go func() {
 		defer close(waitChannel)
-- 
2.43.0


From bcc0aec9f5ef70bd3ec10cdf753f44446647cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:49 +0000
Subject: [PATCH 30/43] fix: a node executed its own query again when a peer
 sent it back

---
 node/nodeservice.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 23d8fb2..0a2176b 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -120,21 +120,19 @@ func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriServi
 	if config == nil {
 		return errors.New("Search config is missing")
 	}
-	uid := config.GetUuid()
-	if uid == "" {
+	if config.GetUuid() == "" {
 		uid, err := uuid.NewRandom()
 		if err != nil {
 			return err
 		}
 		config.Uuid = uid.String()
-	} else {
-		err := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)
-		if err != nil {
-			if strings.Contains(err.Error(), "already exists") {
-				return nil
-			}
-			return err
+	}
+	err := n.QueryUUIDCache.Add(config.GetUuid(), true, cache.DefaultExpiration)
+	if err != nil {
+		if strings.Contains(err.Error(), "already exists") {
+			return nil
 		}
+		return err
 	}
 	aData, err := n.Dataset.GetNoCreate(config.GetDataName())
 	if err != nil {
-- 
2.43.0


From 071054c80d50fba5b422dcd5a39a9def8f27b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:52 +0000
Subject: [PATCH 31/43] fix: a data or search stream could end successfully
 without sending everything

---
 node/nodeservice.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 0a2176b..300414e 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -84,23 +84,25 @@ func (n *Node) DataStream(getDataRequest *pb.GetDataRequest, stream pb.VeriServi
 		return err
 	}
 	datumStreamAll := make(chan *pb.Datum, 100)
+	sendResult := make(chan error, 1)
 	go func() {
+		var sendErr error
 		for datum := range datumStreamAll {
 			// log.Printf("Send label: %v\n", string(datum.Value.Label))
-			stream.Send(datum)
+			if sendErr == nil {
+				sendErr = stream.Send(datum)
+			}
 		}
+		sendResult <- sendErr
 	}()
 	err = dt.StreamAll(datumStreamAll)
+	close(datumStreamAll)
+	sendErr := <-sendResult // the stream is only valid until return
 	if err != nil {
 		return err
 	}
-	close(datumStreamAll)
-	for datum := range datumStreamAll {
-		// log.Printf("Flush - Send label: %v\n", string(datum.Value.Label))
-		stream.Send(datum)
-	}
 	// log.Printf("DataStream finished\n")
-	return nil
+	return sendErr
 }
 
 func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataRequest) (*pb.DataInfo, error) {
@@ -148,7 +150,9 @@ func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriServi
 	// log.Printf("SearchStream: finished with len(%v)", len(result))
 	for _, e := range result {
 		// log.Printf("Send label: %v score: %v\n", string(e.Datum.Value.Label), e.Score)
-		stream.Send(e)
+		if err := stream.Send(e); err != nil {
+			return err
+		}
 	}
 	// log.Printf("SearchStream: finished sending of len(%v)", len(result))
 	return nil
-- 
2.43.0


From 8b9039fb54dab37365279cba7a7a6f63386733c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:54 +0000
Subject: [PATCH 32/43] fix: the Search call reported success without searching

---
 node/nodeservice.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 300414e..47b6fa3 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -14,8 +14,10 @@ import (
 	pb "github.com/bgokden/veri/veriservice"
 	"github.com/google/uuid"
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
 	grpcPeer "google.golang.org/grpc/peer"
 	"google.golang.org/grpc/reflection"
+	"google.golang.org/grpc/status"
 )
 
 // type VeriServiceServer interface {
@@ -29,7 +31,7 @@ import (
 // }
 
 func (n *Node) Search(ctx context.Context, searchRequest *pb.SearchRequest) (*pb.SearchResponse, error) {
-	return nil, nil
+	return nil, status.Error(codes.Unimplemented, "Search is not implemented, use SearchStream")
 }
 
 func (n *Node) Insert(ctx context.Context, insertionRequest *pb.InsertionRequest) (*pb.InsertionResponse, error) {
-- 
2.43.0


From c9d66d8fbbda65a8c3a594749e2c7dc8b8f83733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:30 +0000
Subject: [PATCH 33/43] fix: listing or saving data re-created data that was
 deleted meanwhile

---
 data/dataset.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 08d21ab..76024cd 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -158,7 +158,10 @@ func (dts *Dataset) DataConfigList() []*pb.DataConfig {
 	sourceList := dts.DataList.Items()
 	configs := make([]*pb.DataConfig, 0, len(sourceList))
 	for k := range sourceList {
-		data, _ := dts.Get(k)
+		data, err := dts.GetNoCreate(k)
+		if err != nil {
+			continue // removed in the meantime
+		}
 		config := data.GetConfig()
 		configs = append(configs, config)
 	}
@@ -217,7 +220,10 @@ func (dts *Dataset) SaveIndex() error {
 	}
 	datawriter := bufio.NewWriter(file)
 	for k := range sourceList {
-		data, _ := dts.Get(k)
+		data, err := dts.GetNoCreate(k)
+		if err != nil {
+			continue // removed in the meantime
+		}
 		config := data.GetConfig()
 		jsonData, _ := json.Marshal(config)
 		_, _ = datawriter.WriteString(string(jsonData) + "\n")
@@ -232,7 +238,7 @@ func (dts *Dataset) Close() error {
 	dts.SaveIndex()
 	datalist := dts.DataList.Items()
 	for k := range datalist {
-		data, err := dts.Get(k)
+		data, err := dts.GetNoCreate(k)
 		if err == nil {
 			data.Close()
 		}
-- 
2.43.0


From 971de197faa14212aa160f87f3c29308d376d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:33 +0000
Subject: [PATCH 34/43] fix: a crash or a concurrent save could lose the index
 of the data list

---
 data/dataset.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 76024cd..0c0df5e 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -16,9 +17,10 @@ import (
 )
 
 type Dataset struct {
-	DataList *cache.Cache
-	Path     string
-	DataPath string
+	DataList  *cache.Cache
+	Path      string
+	DataPath  string
+	indexLock sync.Mutex
 }
 
 func closeData(key string, value interface{}) {
@@ -169,6 +171,8 @@ func (dts *Dataset) DataConfigList() []*pb.DataConfig {
 }
 
 func (dts *Dataset) LoadIndex() error {
+	dts.indexLock.Lock() // no saving until everything is loaded
+	defer dts.indexLock.Unlock()
 	indexPath := path.Join(dts.Path, "index.save")
 	file, err := os.OpenFile(indexPath, os.O_APPEND|os.O_CREATE|os.O_RDONLY, 0644)
 	if err != nil {
@@ -212,9 +216,12 @@ func (dts *Dataset) ReloadRuns() error {
 }
 
 func (dts *Dataset) SaveIndex() error {
+	dts.indexLock.Lock()
+	defer dts.indexLock.Unlock()
 	indexPath := path.Join(dts.Path, "index.save")
+	tempPath := indexPath + ".tmp"
 	sourceList := dts.DataList.Items()
-	file, err := os.OpenFile(indexPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	file, err := os.OpenFile(tempPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
@@ -225,13 +232,25 @@ func (dts *Dataset) SaveIndex() error {
 			continue // removed in the meantime
 		}
 		config := data.GetConfig()
-		jsonData, _ := json.Marshal(config)
-		_, _ = datawriter.WriteString(string(jsonData) + "\n")
+		jsonData, err := json.Marshal(config)
+		if err != nil {
+			log.Printf("Config of %v can not be saved: %v\n", k, err)
+			continue
+		}
+		_, _ = datawriter.WriteString(string(jsonData) + "\n") // errors are sticky until Flush
 
 	}
-	datawriter.Flush()
-	file.Close()
-	return nil
+	err = datawriter.Flush()
+	if err == nil {
+		err = file.Sync()
+	}
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(tempPath, indexPath) // a crash leaves either the old or the new index
 }
 
 func (dts *Dataset) Close() error {
-- 
2.43.0


From 27eb756acae7286c3fc4f7ed3a0fe45db914ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:36 +0000
Subject: [PATCH 35/43] fix: closing data with a crafted name removed folders
 outside of the data path

---
 data/data.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/data/data.go b/data/data.go
index 22bd472..ccca791 100644
--- a/data/data.go
+++ b/data/data.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"path/filepath"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -68,6 +69,7 @@ func (d *Data) GetConfig() *pb.DataConfig {
 func NewData(config *pb.DataConfig, dataPath string) (*Data, error) {
 	dt := &Data{
 		Config: config,
+		Path:   dataPath,
 	}
 	// log.Printf("Create Data\n")
 	dt.DBPath = path.Join(dataPath, config.Name)
@@ -79,6 +81,7 @@ func NewData(config *pb.DataConfig, dataPath string) (*Data, error) {
 func NewPreData(config *pb.DataConfig, dataPath string) *Data {
 	dt := &Data{
 		Config: config,
+		Path:   dataPath,
 	}
 	atomic.StoreUint64(&(dt.RecentInsertCount), 0)
 	// log.Printf("Pre Create Data %v\n", dt.Config)
@@ -127,6 +130,10 @@ func (dt *Data) Close() error {
 // Delete currently deletes underlying data folder ignores errors.
 func (dt *Data) DeletePath() error {
 	// dt.DB.Close()
+	relative, err := filepath.Rel(dt.Path, dt.DBPath)
+	if err != nil || relative == "." || relative == ".." || strings.HasPrefix(relative, "../") {
+		return errors.New("Data folder is not inside of the data path") // name of the data may contain anything
+	}
 	os.RemoveAll(dt.DBPath)
 	return nil
 }
-- 
2.43.0


From bbecd88ddcac0d98cba3f485fa70689f0a4ef685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:39 +0000
Subject: [PATCH 36/43] fix: the data directory of the user was removed when
 the server could not listen

---
 server/veriserviceserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/veriserviceserver.go b/server/veriserviceserver.go
index 429ff0d..f52ad1c 100644
--- a/server/veriserviceserver.go
+++ b/server/veriserviceserver.go
@@ -53,9 +53,9 @@ func RunServer(configMap map[string]interface{}) {
 		if err != nil {
 			log.Fatal(err)
 		}
+		defer os.RemoveAll(directory)
 	}
 	os.MkdirAll(directory, os.ModePerm)
-	defer os.RemoveAll(directory)
 	broadcast := configMap["broadcast"].(string)
 	broadcastAddresses := make([]string, 0)
 	if len(broadcast) > 0 {
-- 
2.43.0


From f4ba4873955f05c5a1e28d10965a33e8e549d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:42 +0000
Subject: [PATCH 37/43] fix: a draining node reported ready again after syncing
 with peers

---
 server/httpservice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httpservice.go b/server/httpservice.go
index 3aa7590..eb4beec 100644
--- a/server/httpservice.go
+++ b/server/httpservice.go
@@ -15,7 +15,7 @@ import (
 // var Ready = false
 
 func GetReady(w http.ResponseWriter, r *http.Request) {
-	if state.Ready {
+	if state.Ready && !state.Drain {
 		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
 		io.WriteString(w, `{"alive": true}`)
-- 
2.43.0


From 393cdbc8d8b0bd2e9eb34bcc33cf7c07009bc048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:44 +0000
Subject: [PATCH 38/43] fix: an unhealthy node reported to be alive

---
 server/httpservice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httpservice.go b/server/httpservice.go
index eb4beec..cb13755 100644
--- a/server/httpservice.go
+++ b/server/httpservice.go
@@ -34,7 +34,7 @@ func GetHeath(w http.ResponseWriter, r *http.Request) {
 	} else {
 		w.WriteHeader(http.StatusInternalServerError)
 		w.Header().Set("Content-Type", "application/json")
-		io.WriteString(w, `{"alive": true}`)
+		io.WriteString(w, `{"alive": false}`)
 	}
 }
 
-- 
2.43.0


From 84734749ecf8eae081d3b2681afd73701d46e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:47 +0000
Subject: [PATCH 39/43] fix: computing the id of a peer reordered its shared
 address list

---
 node/node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index f81eb3c..44b8a12 100644
--- a/node/node.go
+++ b/node/node.go
@@ -25,8 +25,9 @@ func GetIdOfPeer(p *pb.Peer) string {
 }
 
 func SerializeStringArray(list []string) string {
-	sort.Strings(list)
-	return strings.Join(list[:], ",")
+	sorted := append([]string(nil), list...) // list may be shared
+	sort.Strings(sorted)
+	return strings.Join(sorted, ",")
 }
 
 type NodeConfig struct {
-- 
2.43.0


From 0667690040ce488db911cebd3f98bfe06059b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:50 +0000
Subject: [PATCH 40/43] fix: known addresses of a node were read and written
 without synchronization

---
 node/node.go        | 5 +++++
 node/nodeservice.go | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/node/node.go b/node/node.go
index 44b8a12..8922d6f 100644
--- a/node/node.go
+++ b/node/node.go
@@ -7,6 +7,7 @@ import (
 	"runtime"
 	"sort"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -51,6 +52,8 @@ type Node struct {
 	PeriodicDone    chan bool
 	QueryUUIDCache  *cache.Cache
 	ConnectionCache *util.ConnectionCache
+	knownIdsLock    sync.RWMutex
+	peerListLock    sync.Mutex
 }
 
 func NewNode(config *NodeConfig) *Node {
@@ -167,7 +170,9 @@ func unique(strSlice []string) []string {
 
 func (n *Node) GetNodeInfo() *pb.Peer {
 	ids := make([]string, 0)
+	n.knownIdsLock.RLock()
 	ids = append(ids, n.KnownIds...)
+	n.knownIdsLock.RUnlock()
 	ids = append(ids, n.AdvertisedIds...)
 	ids = unique(ids)
 	p := &pb.Peer{
diff --git a/node/nodeservice.go b/node/nodeservice.go
index 47b6fa3..b408e9c 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -211,6 +211,8 @@ func (n *Node) SendJoinRequest(id string) error {
 	if resp.GetAddress() != "" {
 		feedbackID := fmt.Sprintf("%v:%v", resp.GetAddress(), n.Port)
 		// log.Printf("(Call Join 3 %v) Feedback ID: %v", n.Port, feedbackID)
+		n.knownIdsLock.Lock()
+		defer n.knownIdsLock.Unlock()
 		found := false
 		for _, id := range n.KnownIds {
 			if id == feedbackID {
-- 
2.43.0


From 3244596e36b3fe3cf3c72228c2dff7dd7920ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:52 +0000
Subject: [PATCH 41/43] fix: concurrent announcements could replace a peer with
 older information

---
 node/node.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node/node.go b/node/node.go
index 8922d6f..6060221 100644
--- a/node/node.go
+++ b/node/node.go
@@ -116,6 +116,8 @@ func (n *Node) AddPeerElement(peer *pb.Peer) error {
 	}
 	if !n.isPeerSimilarToNode(peer) {
 		idOfPeer := GetIdOfPeer(peer)
+		n.peerListLock.Lock()
+		defer n.peerListLock.Unlock()
 		if oldPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {
 			if oldPeer, ok2 := oldPeerInterface.(*pb.Peer); ok2 {
 				if oldPeer.Timestamp >= peer.Timestamp {
-- 
2.43.0


From 977d559d1a922954037ac18058310a777dc4fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:47 +0000
Subject: [PATCH 42/43] fix: a search with a huge result limit crashed the node

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 02c50ec..1b3d8c4 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -159,7 +159,7 @@ func (a *Aggregator) Result() []*pb.ScoredDatum {
 		}
 		return agg.Result()
 	} else {
-		if a.Config.ResultLimit > 0 && len(a.List) > int(a.Config.ResultLimit) {
+		if a.Config.ResultLimit > 0 && uint64(len(a.List)) > a.Config.ResultLimit {
 			return a.List[:a.Config.ResultLimit]
 		}
 		return a.List
-- 
2.43.0


From 9bd6e81b87265fc3c8660f970b95365d4a5c7d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:39 +0000
Subject: [PATCH 43/43] fix: a huge retention overflowed and let the dataset
 expire at once

---
 data/dataset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/dataset.go b/data/dataset.go
index 0c0df5e..f73c707 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -61,6 +61,9 @@ func GetRetention(retention uint64) time.Duration {
 	if retention == 0 {
 		return time.Duration(14*24) * time.Hour
 	}
+	if retention > 100*365*24*60*60 { // the time of expiration would overflow
+		return cache.NoExpiration
+	}
 	return time.Duration(retention) * time.Second
 }
 
-- 
2.43.0

