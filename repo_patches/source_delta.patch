From 248cd3c154d94ac7718c0adeaa38a3af9432e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 01/23] fix: DenseCatFeature.PutStr no longer stores a missing
 token as a category

---
 densecatfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index bdd806b..1d2db96 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -147,6 +147,7 @@ func (f *DenseCatFeature) PutStr(i int, v string) {
 	if len(norm) == 0 || norm == "?" || norm == "nan" || norm == "na" || norm == "null" {
 		f.Missing[i] = true
 		f.HasMissing = true
+		return
 	}
 	vi := f.CatToNum(v)
 	f.CatData[i] = vi
-- 
2.43.0


From d00ae595df930933eb45b223de306d45bd1a969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 02/23] fix: Copy and CopyInTo carry over whether the feature
 has missing values

---
 densecatfeature.go | 1 +
 densenumfeature.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 1d2db96..c50e09c 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1217,6 +1217,7 @@ func (f *DenseCatFeature) CopyInTo(copyf Feature) {
 
 	copy(copyf.(*DenseCatFeature).Missing, f.Missing)
 	copy(copyf.(*DenseCatFeature).CatData, f.CatData)
+	copyf.(*DenseCatFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
diff --git a/densenumfeature.go b/densenumfeature.go
index 7294078..5c835e5 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -644,7 +644,7 @@ func (f *DenseNumFeature) Copy() Feature {
 		nil,
 		make([]bool, capacity),
 		f.Name,
-		false}
+		f.HasMissing}
 
 	copy(fake.Missing, f.Missing)
 
@@ -658,6 +658,7 @@ func (f *DenseNumFeature) Copy() Feature {
 func (f *DenseNumFeature) CopyInTo(copyf Feature) {
 	copy(copyf.(*DenseNumFeature).Missing, f.Missing)
 	copy(copyf.(*DenseNumFeature).NumData, f.NumData)
+	copyf.(*DenseNumFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
-- 
2.43.0


From 43614b6841a0bef8cdabdde3f04d77437a574904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 03/23] fix: DenseCatFeature.Copy no longer shares its category
 table with the original

---
 densecatfeature.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index c50e09c..1fd2b05 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1194,9 +1194,15 @@ func (f *DenseCatFeature) ShuffledCopy() Feature {
 /*Copy returns a copy of f.*/
 func (f *DenseCatFeature) Copy() Feature {
 	capacity := len(f.Missing)
+	catmap := &CatMap{make(map[string]int, len(f.Map)),
+		make([]string, len(f.Back))}
+	for k, v := range f.Map {
+		catmap.Map[k] = v
+	}
+	copy(catmap.Back, f.Back)
+
 	fake := &DenseCatFeature{
-		&CatMap{f.Map,
-			f.Back},
+		catmap,
 		nil,
 		make([]bool, capacity),
 		f.Name,
-- 
2.43.0


From 3fcf995f5e4a6215387713b66762221554ac93f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 04/23] fix: StripStrings maps each anonymous label to its own
 code

---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index 282b651..65f6ec8 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -51,7 +51,7 @@ func (fm *FeatureMatrix) StripStrings(target string) {
 			for j, v := range f.(*DenseCatFeature).Back {
 				v = fmt.Sprintf("%v", j)
 				f.(*DenseCatFeature).Back[j] = v
-				f.(*DenseCatFeature).Map[v] = i
+				f.(*DenseCatFeature).Map[v] = j
 
 			}
 
-- 
2.43.0


From e42cd0bdcb87c090523aaa4c45a2faca34829aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 05/23] fix: OneHot keeps features with at most two categories
 instead of dropping them

---
 densecatfeature.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index 1fd2b05..3b23751 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -77,6 +77,8 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 			}
 			fs = append(fs, fn)
 		}
+	} else {
+		fs = []Feature{f}
 	}
 	return
 }
-- 
2.43.0


From bdd905c67f1218ec6eebcb471b601e9d1b347d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 06/23] fix: WriteNodeAndChildren writes the missing branch,
 not the right branch, under M

---
 forestwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestwriter.go b/forestwriter.go
index 8009459..59a8ebd 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -68,7 +68,7 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 		fw.WriteNodeAndChildren(n.Right, path+"R")
 	}
 	if n.Splitter != nil && n.Missing != nil {
-		fw.WriteNodeAndChildren(n.Right, path+"M")
+		fw.WriteNodeAndChildren(n.Missing, path+"M")
 	}
 
 }
-- 
2.43.0


From 23201af71765679502727d75f3ffe0b76e501fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 07/23] fix: DenseNumFeature.Span remembers the first value
 instead of always returning zero

---
 densenumfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densenumfeature.go b/densenumfeature.go
index 5c835e5..b6ffead 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -560,6 +560,7 @@ func (f *DenseNumFeature) Span(cases *[]int, counter *[]int) (span float64) {
 			if first {
 				min = val
 				max = val
+				first = false
 				continue
 			}
 			switch {
-- 
2.43.0


From 71c17935654d0944baf88f4e5d3b5bf72886b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 08/23] fix: DEntropyTarget.Impurity applies the class costs
 like its incremental update does

---
 dentropytarget.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index ace7e78..16f7d40 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -120,15 +120,6 @@ func (target *DEntropyTarget) Impurity(cases *[]int, counts *[]int) (e float64)
 	total := len(*cases)
 	target.CountPerCat(cases, counts)
 
-	p := 0.0
-	for _, i := range *counts {
-		if i > 0 {
-			p = float64(i) / float64(total)
-			e -= p * math.Log(p)
-		}
-
-	}
-
-	return
+	return target.ImpFromCounts(total, counts)
 
 }
-- 
2.43.0


From cdd48ebb02c34e0df3b330a41b3cb527f713a06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 09/23] fix: RegretTarget.ImpFromCounts divides by the number
 of cases, not twice that

---
 regrettarget.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regrettarget.go b/regrettarget.go
index 68b160a..2a24949 100644
--- a/regrettarget.go
+++ b/regrettarget.go
@@ -123,7 +123,6 @@ func (target *RegretTarget) ImpFromCounts(t int, counter *[]int) (e float64) {
 
 	for cat, count := range *counter {
 
-		t += count
 		if cat != mi {
 			e += target.Costs[cat] * float64(count)
 		}
-- 
2.43.0


From 0d368e849634a4af07bd323f8e9218283870b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 10/23] fix: WriteLibSvmCases imputes missing values in a copy,
 not in the caller's matrix

---
 libsvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index 06e1c11..7a0130f 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -163,7 +163,7 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 				encode = true
 			}
 			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
-			noTargetFm.Data = append(noTargetFm.Data, f)
+			noTargetFm.Data = append(noTargetFm.Data, f.Copy())
 
 		}
 	}
-- 
2.43.0


From 834432e5e44f79bc0bd74210a1a8289faade9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 11/23] fix: AdaBoostTarget, AdaCostTarget and
 NumAdaBoostTarget implement BoostingTarget again

---
 adaboosttarget.go       | 2 +-
 adacosttarget.go        | 2 +-
 numadaboostingtarget.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 8877fa6..f9ab1f4 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -112,7 +112,7 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index 606fede..bbac780 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -128,7 +128,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaCostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index ed5be91..150aede 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -77,7 +77,7 @@ func (target *NumAdaBoostTarget) Impurity(cases *[]int, counter *[]int) (e float
 //
 //These functions are chosen to provide a rough analog to catagorical adaptive boosting for
 //numerical data with unbounded error.
-func (t *NumAdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	if len(*leaves) == 0 {
 		return 0.0
 	}
-- 
2.43.0


From e0ef4d29b3afb43477c7deb5b636b9e72138621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 12/23] fix: DescribeMap only writes the categories that go
 left

---
 forestwriter.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index 59a8ebd..0dcaa15 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -98,8 +98,10 @@ func (fw *ForestWriter) WriteNode(n *Node, path string) {
 //DescribeMap serializes the "left" map of a categorical splitter.
 func (fw *ForestWriter) DescribeMap(input map[string]bool) string {
 	keys := make([]string, 0)
-	for k := range input {
-		keys = append(keys, k)
+	for k, left := range input {
+		if left {
+			keys = append(keys, k)
+		}
 	}
 	return "\"" + strings.Join(keys, ":") + "\""
 }
-- 
2.43.0


From 8e262f329e08abfb6a0d52b07f5ac10371d5e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 13/23] fix: ReadTree keeps a last line that has no line break

---
 forestreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index a28025a..28c2152 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -83,7 +83,7 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 		}
 
 		line, err = fr.br.ReadString('\n')
-		if err != nil {
+		if err != nil && len(line) == 0 {
 			return
 		}
 		parsed := fr.ParseRfAcePredictorLine(line)
-- 
2.43.0


From 63a4906089294096bb7867edd0089607931c22c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 14/23] fix: WriteForest always writes the forest header, so
 that the target is kept

---
 forestwriter.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index 0dcaa15..ca90310 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -24,9 +24,7 @@ func NewForestWriter(w io.Writer) *ForestWriter {
 
 //WriteForest writes an entire forest including all headers.
 func (fw *ForestWriter) WriteForest(forest *Forest) {
-	if forest.Intercept != 0.0 {
-		fw.WriteForestHeader(0, forest.Target, forest.Intercept)
-	}
+	fw.WriteForestHeader(0, forest.Target, forest.Intercept)
 	for i, tree := range forest.Trees {
 		fw.WriteTree(tree, i)
 	}
-- 
2.43.0


From 292967fbac5dd917fcb8331307a65c1081b61777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 15/23] fix: BestNumSplit also tries the last gap, which leaves
 exactly leafSize cases on the right

---
 densenumfeature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index b6ffead..f7d249c 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -304,7 +304,7 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 		lastsplit := 0
 		var innerimp float64
-		stop := (ncases - leafSize)
+		stop := (ncases - leafSize) + 1
 		constant = (sortedData[0] + constant_cutoff) >= sortedData[ncases-1]
 		if constant {
 			impurityDecrease = minImp
-- 
2.43.0


From 52b65568f2d85fc0eb392186560f774dee192b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 16/23] fix: BestNumSplit puts the threshold between the two
 neighbouring values

---
 densenumfeature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index f7d249c..51b05fa 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -355,7 +355,7 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 			if innerimp > impurityDecrease {
 				impurityDecrease = innerimp
-				splitf = sortedData[lasti]
+				splitf = sortedData[i-1]
 				splitf += sortedData[i]
 				splitf /= 2.0
 				//fmt.Println(len(sorter.Cases), sorter.Vals, allocs.LM, allocs.RM, codedSplit, impurityDecrease)
-- 
2.43.0


From 93c4879d0cc7c0d1a486bd320ed951924a06afbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 17/23] fix: encoded features no longer share their missing
 flags with the source

---
 densecatfeature.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 3b23751..67238bf 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -30,7 +30,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 	if f.NCats() <= 2 {
 		fn := &DenseNumFeature{
 			make([]float64, l, l),
-			f.Missing,
+			append([]bool{}, f.Missing...),
 			f.Name,
 			f.HasMissing}
 		for i, v := range f.CatData {
@@ -42,7 +42,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 		for j, sv := range f.Back {
 			fn := &DenseNumFeature{
 				make([]float64, l, l),
-				f.Missing,
+				append([]bool{}, f.Missing...),
 				f.Name + "==" + sv,
 				f.HasMissing}
 			for i, v := range f.CatData {
@@ -65,7 +65,7 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 				&CatMap{map[string]int{"false": 0, "true": 1},
 					[]string{"false", "true"}},
 				make([]int, l, l),
-				f.Missing,
+				append([]bool{}, f.Missing...),
 				f.Name + "==" + sv,
 				f.RandomSearch,
 				f.HasMissing}
-- 
2.43.0


From 708c219ca42cbfd75c84166e2b5209f9df62706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 18/23] fix: NewGradBoostTarget ignores missing cases instead
 of turning them into known ones

---
 gradboosttarget.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gradboosttarget.go b/gradboosttarget.go
index 98cfee6..3554808 100644
--- a/gradboosttarget.go
+++ b/gradboosttarget.go
@@ -17,16 +17,22 @@ func NewGradBoostTarget(f NumFeature, learnrate float64) (gbc *GradBoostTarget)
 
 	//res := NumFeature.(*DenseNumFeature).Copy().(*DenseNumFeature)
 	sum := 0.0
+	known := 0
 	for i := 0; i < f.Length(); i++ {
-		sum += f.Get(i)
+		if !f.IsMissing(i) {
+			sum += f.Get(i)
+			known++
+		}
 	}
 
 	// Set intial residual to
-	prior := sum / float64(f.Length())
+	prior := sum / float64(known)
 
 	for i := 0; i < f.Length(); i++ {
-		v := f.Get(i) - prior
-		f.Put(i, v)
+		if !f.IsMissing(i) {
+			v := f.Get(i) - prior
+			f.Put(i, v)
+		}
 	}
 
 	//fmt.Println(res.Copy().(*DenseNumFeature).NumData)
-- 
2.43.0


From 36d2ef11502bcf8c1d359ba495a1b74ac1a23b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 19/23] fix: CatBallotBox guards its category table, so that
 trees can vote concurrently

---
 catballotbox.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index ad15fa1..7bcf785 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -21,25 +21,28 @@ func NewCatBallot() (cb *CatBallot) {
 //CatBallotBox keeps track of votes by trees in a thread safe manner.
 type CatBallotBox struct {
 	*CatMap
-	Box []*CatBallot
+	Box   []*CatBallot
+	mutex sync.Mutex
 }
 
 //NewCatBallotBox builds a new ballot box for the number of cases specified by "size".
 func NewCatBallotBox(size int) *CatBallotBox {
-	bb := CatBallotBox{
-		&CatMap{make(map[string]int),
+	bb := &CatBallotBox{
+		CatMap: &CatMap{make(map[string]int),
 			make([]string, 0, 0)},
-		make([]*CatBallot, 0, size)}
+		Box: make([]*CatBallot, 0, size)}
 	for i := 0; i < size; i++ {
 		bb.Box = append(bb.Box, NewCatBallot())
 	}
-	return &bb
+	return bb
 }
 
 //Vote registers a vote that case "casei" should be predicted to be the
 //category "pred".
 func (bb *CatBallotBox) Vote(casei int, pred string, weight float64) {
+	bb.mutex.Lock()
 	predn := bb.CatToNum(pred)
+	bb.mutex.Unlock()
 	bb.Box[casei].Mutex.Lock()
 	if _, ok := bb.Box[casei].Map[predn]; !ok {
 		bb.Box[casei].Map[predn] = 0
@@ -65,7 +68,9 @@ func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	}
 	bb.Box[i].Mutex.Unlock()
 	if votes > 0 {
+		bb.mutex.Lock()
 		predicted = bb.Back[predictedn]
+		bb.mutex.Unlock()
 	} else {
 		predicted = "NA"
 	}
-- 
2.43.0


From 39d9b9278b84d4d3fa09befa43330333d4087344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 20/23] fix: Tree.Grow leaves no children on leaves and no
 missing branch without a prediction

---
 tree.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index c01f024..4270b25 100644
--- a/tree.go
+++ b/tree.go
@@ -156,8 +156,15 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 					n.Left = new(Node)
 					n.Right = new(Node)
 				}
+				//only grow a missing branch some case follows
+				n.Missing = nil
 				if splitmissing {
-					n.Missing = new(Node)
+					for _, c := range *innercases {
+						if fm.Data[fi].IsMissing(c) {
+							n.Missing = new(Node)
+							break
+						}
+					}
 				}
 				return
 			}
@@ -169,6 +176,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 		split = nil
 		n.CodedSplit = nil
 		n.Splitter = nil
+		n.Left, n.Right, n.Missing = nil, nil, nil
 		n.Pred = target.FindPredicted(*innercases)
 		return
 
-- 
2.43.0


From 0ba474c728c18e4aa78734b9f6fba19bfaf6cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 21/23] fix: RunningMean survives a first value of weight zero

---
 utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 14a59ff..deec195 100644
--- a/utils.go
+++ b/utils.go
@@ -33,7 +33,9 @@ func (rm *RunningMean) Add(val float64) {
 func (rm *RunningMean) WeightedAdd(val float64, weight float64) {
 	if !math.IsNaN(val) && !math.IsNaN(weight) {
 		rm.mutex.Lock()
-		rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
+		if rm.Count+weight != 0 {
+			rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
+		}
 		rm.Count += weight
 		if rm.Count == 0 {
 			log.Print("WeightedAdd reached 0 count!.")
-- 
2.43.0


From 2c5f01558f71f0a1a27e8de78dbe182b4d3127a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 22/23] fix: boosting on a tree without errors turned every
 case weight into NaN

---
 adaboosttarget.go       | 4 ++++
 adacosttarget.go        | 4 ++++
 numadaboostingtarget.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index f9ab1f4..cd7b8c7 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -121,6 +121,10 @@ func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64
 	if weight >= .5 {
 		return 0.0
 	}
+	//a tree without errors gets a large but finite weight
+	if weight < minImp {
+		weight = minImp
+	}
 	weight = .5 * math.Log((1-weight)/weight)
 
 	for _, cases := range *leaves {
diff --git a/adacosttarget.go b/adacosttarget.go
index bbac780..3d79b02 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -137,6 +137,10 @@ func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64)
 	if weight >= .5 {
 		return 0.0
 	}
+	//a tree without errors gets a large but finite weight
+	if weight < minImp {
+		weight = minImp
+	}
 	weight = .5 * math.Log((1-weight)/weight)
 
 	for _, cases := range *leaves {
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index 150aede..0ccf7ed 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -87,6 +87,10 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight floa
 		imp += t.Impurity(&cases, nil)
 		//nCases += len(cases)
 	}
+	//a tree without errors gets a large but finite weight
+	if imp < minImp {
+		imp = minImp
+	}
 	norm := t.NormFactor
 	if imp > norm {
 		return 0.0
-- 
2.43.0


From f2b822b484f79ffbdbe6ce089678884fe9a1b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:46 +0000
Subject: [PATCH 23/23] fix: ParseLibSVM keeps a last line without a line break

---
 libsvm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsvm.go b/libsvm.go
index 7a0130f..356cfae 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -23,9 +23,9 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 		ncases++
 
 		line, err := reader.ReadString('\n')
-		if err == io.EOF {
+		if err == io.EOF && strings.TrimSpace(line) == "" {
 			break
-		} else if err != nil {
+		} else if err != nil && err != io.EOF {
 			log.Print("Error:", err)
 			return nil
 		}
-- 
2.43.0

