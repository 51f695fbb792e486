From bab3fb87f3bfbf4dc57caf2131087277f4a0d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:32 +0000
Subject: [PATCH 01/41] fix: keep the last boosting round when a model is read
 back

---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index 7ff1d2d..6bdb2ef 100644
--- a/xjson.go
+++ b/xjson.go
@@ -89,6 +89,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		return nil, fmt.Errorf("Error reading of trees lines from file: %v", err)
 
 	}
+	if class != nil {
+		trees = append(trees, class)
+	}
 	ret.b = trees
 	return ret, nil
 }
-- 
2.43.0


From 09d67db630071d7f2d5b74e7941641f7875d0da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:32 +0000
Subject: [PATCH 02/41] fix: a model read back remembers whether it is an
 xgboost one

---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index 6bdb2ef..6feb561 100644
--- a/xjson.go
+++ b/xjson.go
@@ -93,6 +93,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		trees = append(trees, class)
 	}
 	ret.b = trees
+	if len(trees) > 0 && len(trees[0]) > 0 {
+		ret.xgb = trees[0][0].xgb
+	}
 	return ret, nil
 }
 
-- 
2.43.0


From ca852ccbd1bd958611bba7c740d071a07f51352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:32 +0000
Subject: [PATCH 03/41] fix: reading a model with an unknown activation
 function is an error

---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index 6feb561..0202cba 100644
--- a/xjson.go
+++ b/xjson.go
@@ -48,6 +48,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	ret.learningRate = jmc.LearningRate
 	ret.classLabels = jmc.ClassLabels
 	ret.probTransform = ProbTransformMap[jmc.ProbTransformName]
+	if ret.probTransform == nil {
+		return nil, fmt.Errorf("Unknown activation function: %s", jmc.ProbTransformName)
+	}
 	ret.baseScore = jmc.BaseScore
 	//I'm not sure this will work!
 	//	s, err = r.ReadString('\n')
-- 
2.43.0


From d223d5bccca84fa12e986084233cd5835018c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:32 +0000
Subject: [PATCH 04/41] fix: a class that stops early does not take the trees
 of the following ones

---
 tree.go | 9 +++++++++
 xgb.go  | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/tree.go b/tree.go
index a3300b7..dae33a7 100644
--- a/tree.go
+++ b/tree.go
@@ -135,6 +135,15 @@ func NewTree(X [][]float64, o *TreeOptions) *Tree {
 	return ret
 }
 
+// Returns a tree without samples, which predicts zero.
+func emptyTree(xgb bool) *Tree {
+	ret := &Tree{xgb: xgb, branches: 1}
+	if !xgb {
+		ret.bestScoreSoFar = math.Inf(1)
+	}
+	return ret
+}
+
 func (T *Tree) maybeInsertChildNode(o *TreeOptions) {
 	for i := 0; i < T.features; i++ {
 		if len(o.AllowedColumns) != 0 && !slices.Contains(o.AllowedColumns, i) {
diff --git a/xgb.go b/xgb.go
index 2699b8d..1b56617 100644
--- a/xgb.go
+++ b/xgb.go
@@ -61,6 +61,8 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		classes := make([]*Tree, 0, 1)
 		for k := 0; k < nlabels; k++ {
 			if stopped[k] {
+				//keeps the position of the trees for the following classes.
+				classes = append(classes, emptyTree(O.XGB))
 				continue
 			}
 			var tOpts *TreeOptions
-- 
2.43.0


From 1443a8ec373faf4c38d95061819b788032e8e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:32 +0000
Subject: [PATCH 05/41] fix: Classes and Rounds returned each other's value

---
 multiclass.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 83f7350..830f088 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -57,18 +57,24 @@ func (M *MultiClass) Rounds(class ...int) int {
 		c = class[0]
 	}
 	//	println(len(M.b), c) /////////////////////////
-	if M.Classes() < c || len(M.b) <= c {
+	if M.Classes() <= c {
 		//println(len(M.b), c, M.Classes(), "v2") /////////////////////////
 
 		return -1
 	}
-	return len(M.b[c])
+	rounds := 0
+	for _, ensemble := range M.b {
+		if c < len(ensemble) && ensemble[c].nsamples > 0 { //not counting the rounds after an early stop
+			rounds++
+		}
+	}
+	return rounds
 }
 
 // Returns the number of classes, i.e. the number of categories to which
 // each data vector could belong.
 func (M *MultiClass) Classes() int {
-	return len(M.b)
+	return len(M.classLabels)
 }
 
 // Predicts the class to which a single sample belongs. You can give a slice of floats
-- 
2.43.0


From 32636bf19cf36b1ac029b7bfa22ea54b9a38ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:32 +0000
Subject: [PATCH 06/41] fix: an incomplete model file is an error, not a
 smaller model

---
 xjson.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/xjson.go b/xjson.go
index 0202cba..dacbb1b 100644
--- a/xjson.go
+++ b/xjson.go
@@ -95,6 +95,19 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	if class != nil {
 		trees = append(trees, class)
 	}
+	if s != "" {
+		return nil, fmt.Errorf("The file ends in the middle of a line: %s", s)
+	}
+	if jmc.Rounds != nil {
+		if len(trees) != *jmc.Rounds {
+			return nil, fmt.Errorf("Expected %d rounds in the file, found %d", *jmc.Rounds, len(trees))
+		}
+		for i, v := range trees {
+			if len(v) != len(ret.classLabels) {
+				return nil, fmt.Errorf("Expected %d trees in round %d, found %d", len(ret.classLabels), i, len(v))
+			}
+		}
+	}
 	ret.b = trees
 	if len(trees) > 0 && len(trees[0]) > 0 {
 		ret.xgb = trees[0][0].xgb
@@ -142,14 +155,17 @@ type JSONMetaData struct {
 	ClassLabels       []int
 	ProbTransformName string
 	BaseScore         float64
+	Rounds            *int `json:",omitempty"` //to detect incomplete files
 }
 
 func MarshalMCMetaData(m *MultiClass, probtransformname string) ([]byte, error) {
+	rounds := len(m.b)
 	r := &JSONMetaData{
 		LearningRate:      m.learningRate,
 		ClassLabels:       m.classLabels,
 		ProbTransformName: probtransformname,
 		BaseScore:         m.baseScore,
+		Rounds:            &rounds,
 	}
 	j, err := json.Marshal(r)
 	if err != nil {
-- 
2.43.0


From 3c52ab1019210b0e9959d6642533a97cb6b5a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:02 +0000
Subject: [PATCH 07/41] fix: training does not write to the options it is given

---
 xgb.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xgb.go b/xgb.go
index 1b56617..7f49b82 100644
--- a/xgb.go
+++ b/xgb.go
@@ -33,8 +33,9 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 	utils.ToOnes(rawPred)
 	rawPred.Scale(O.BaseScore, rawPred)
 	//just to be safe
-	if O.MinChildWeight < 1 {
-		O.MinChildWeight = 1
+	minChildWeight := O.MinChildWeight
+	if minChildWeight < 1 {
+		minChildWeight = 1
 	}
 	tin := make([]int, len(D.Data))
 	tval := make([]float64, len(D.Data))
@@ -72,7 +73,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 			hess = O.Loss.Hessian(kthprobs, nil) //keep an eye on this.
 			if O.XGB {
 				tOpts = DefaultXTreeOptions()
-				tOpts.MinChildWeight = O.MinChildWeight
+				tOpts.MinChildWeight = minChildWeight
 				tOpts.MaxDepth = O.MaxDepth
 				grads = O.Loss.Gradients(kthlabelvector, kthprobs, grads)
 				tOpts.Lambda = O.Lambda
@@ -89,7 +90,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 				tOpts = DefaultGTreeOptions()
 				tOpts.in = tin
 				tOpts.val = tval
-				tOpts.MinChildWeight = O.MinChildWeight
+				tOpts.MinChildWeight = minChildWeight
 				tOpts.MaxDepth = O.MaxDepth
 				grads = O.Loss.NegGradients(kthlabelvector, kthprobs, grads)
 				tOpts.Y = grads.RawRowView(0)
-- 
2.43.0


From 9a30795667ac2b7fddf9bed72363d70934becb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:02 +0000
Subject: [PATCH 08/41] fix: MinSample applies to the rounds that subsample,
 and no tree is built without samples

---
 xgb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 7f49b82..5be7ec4 100644
--- a/xgb.go
+++ b/xgb.go
@@ -56,7 +56,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		if O.ColSubSample < 1 && O.XGB {
 			sampleCols = SubSample(len(D.Data[0]), O.ColSubSample)
 		}
-		if len(sampleIndexes) < O.MinSample {
+		if sampleIndexes != nil && len(sampleIndexes) < max(O.MinSample, 1) {
 			continue
 		}
 		classes := make([]*Tree, 0, 1)
-- 
2.43.0


From 3dd760a574c7bd5549b0767d0dfcf4b9d92f87c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:02 +0000
Subject: [PATCH 09/41] fix: an ensemble without rounds can predict

---
 multiclass.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 830f088..a4aa90a 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -96,8 +96,8 @@ func (M *MultiClass) PredictSingleClass(instance []float64, predictions ...[]flo
 // a slice to be filled with the predictions in order to avoid allocation.
 func (M *MultiClass) PredictSingle(instance []float64, predictions ...[]float64) []float64 {
 	var preds []float64
-	preds = make([]float64, len(M.b[0]))
-	tmp := make([]float64, len(M.b[0]))
+	preds = make([]float64, len(M.classLabels))
+	tmp := make([]float64, len(M.classLabels))
 	for i := range tmp {
 		tmp[i] = M.baseScore
 	}
-- 
2.43.0


From 5c9445bc7a75a2b0dcdd9b0d632bc88d65dba118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:02 +0000
Subject: [PATCH 10/41] fix: the columns drawn for a tree hold for all its
 nodes

---
 tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tree.go b/tree.go
index dae33a7..d422f25 100644
--- a/tree.go
+++ b/tree.go
@@ -81,6 +81,7 @@ func (T *TreeOptions) clone() *TreeOptions {
 	ret.Gamma = T.Gamma
 	ret.ColSampleByNode = T.ColSampleByNode
 	ret.MaxDepth = T.MaxDepth
+	ret.AllowedColumns = T.AllowedColumns
 	ret.Indexes = T.Indexes //The idea of this method is precisely to keep the same options while changing the indexes, so
 	//I could have assigned nil here. Still, the name "clone" suggests a full clone so here it is. Note that its the same
 	//reference in both variables, as slices are pointers.
-- 
2.43.0


From 032affe3d5c8624a00c556dfd2318fb847fdb90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:02 +0000
Subject: [PATCH 11/41] fix: Feats.Add looks for the feature with the lock held

---
 tree.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index d422f25..ff7776f 100644
--- a/tree.go
+++ b/tree.go
@@ -361,17 +361,15 @@ func NewFeats(xgboost bool) *Feats {
 // Adds a feature,gain pair to the f set. This operation
 // is concurrency-safe.
 func (f *Feats) Add(feature int, gain float64) {
+	f.m.Lock()
+	defer f.m.Unlock()
 	index := slices.Index(f.feat, feature)
 	if index >= 0 {
-		f.m.Lock()
 		f.gains[index] += gain
-		f.m.Unlock()
 		return
 	}
-	f.m.Lock()
 	f.feat = append(f.feat, feature)
 	f.gains = append(f.gains, gain)
-	f.m.Unlock()
 	return
 }
 
-- 
2.43.0


From bb164fa011ff54f4f5b6e2e8376985c897abce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:02 +0000
Subject: [PATCH 12/41] fix: Clone and Equal cover all the boosting options

---
 options.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/options.go b/options.go
index 73c376a..ef820d2 100644
--- a/options.go
+++ b/options.go
@@ -80,7 +80,10 @@ func (o *Options) Equal(O *Options) bool {
 	if O.BaseScore != o.BaseScore {
 		return false
 	}
-	if O.TreeMethod != "exact" {
+	if O.TreeMethod != o.TreeMethod {
+		return false
+	}
+	if O.EarlyStop != o.EarlyStop {
 		return false
 	}
 	if O.Loss != o.Loss {
@@ -107,7 +110,8 @@ func (o *Options) Clone() *Options {
 	O.MaxDepth = o.MaxDepth
 	O.LearningRate = o.LearningRate
 	O.BaseScore = o.BaseScore
-	O.TreeMethod = "exact"
+	O.TreeMethod = o.TreeMethod
+	O.EarlyStop = o.EarlyStop
 	O.Loss = o.Loss
 	O.Verbose = o.Verbose
 	O.MinSample = o.MinSample
-- 
2.43.0


From a6247dbe1d42d24202394a8baf1e9419a136b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:02 +0000
Subject: [PATCH 13/41] fix: the sets of a fold keep the keys of the data

---
 utils/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stat.go b/utils/stat.go
index 14b7122..82fc02f 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -40,7 +40,7 @@ func fillDataBunch(ori, dest *DataBunch, toadd []int, docopy bool) *DataBunch {
 			dest.Labels = append(dest.Labels, ori.Labels[v])
 		}
 	}
-	if len(dest.Keys) > 0 {
+	if len(ori.Keys) > 0 {
 		if docopy {
 			dest.Keys = make([]string, len(ori.Keys))
 			copy(dest.Keys, ori.Keys)
-- 
2.43.0


From 9fa55a0e800dd2a569f99da9df0de52c86a16812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:02 +0000
Subject: [PATCH 14/41] fix: cross-validation of 0 or 1 samples is an error,
 not a division by zero

---
 utils/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stat.go b/utils/stat.go
index 82fc02f..fc50dc4 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -70,7 +70,7 @@ func CrossValidationSamples(data *DataBunch, nfold int, usecopies ...bool) (int,
 	}
 	tot := len(data.Data)
 	tried := make([]int, 0, 5)
-	for ; tot/nf < minleftout; nf-- {
+	for ; nf > 0 && tot/nf < minleftout; nf-- {
 		err = fmt.Errorf("The %d-fold crossvalidation requested leaves only %d sample(s) per fold, when the minimum allowed is %d. Will use %d-fold.N-folds already tried: %v", nf, tot/nf, minleftout, nf-1, tried)
 		tried = append(tried, nf)
 	}
-- 
2.43.0


From ef2bf52794d860d72cf58b7d5be390d366114531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:02 +0000
Subject: [PATCH 15/41] fix: the libSVM reader keeps a last line without
 newline, and reports empty lines

---
 utils/libsvm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/libsvm.go b/utils/libsvm.go
index d642289..e8200cb 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -102,6 +102,9 @@ func parseLibSVMLine(line string, header bool, retstr []string, retflo []float64
 	var class int
 	var err error
 	fields := strings.Fields(line)
+	if len(fields) == 0 {
+		return 0, nil, nil, fmt.Errorf("Empty line")
+	}
 	if len(retstr) >= len(fields)-1 {
 		rets = retstr[:0]
 	}
@@ -166,7 +169,7 @@ func ParseLibSVMFromReader(r io.Reader, hasHeader bool) (*DataBunch, error) {
 	for {
 		//	println("Will read the line", cont+1) ///////
 		line, err2 = buf.ReadString('\n')
-		if err2 != nil {
+		if err2 != nil && (err2 != io.EOF || line == "") {
 			break
 		}
 		var err error
-- 
2.43.0


From c3df3fb1e40c4c7750458a282e144d1be96d24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 16/41] fix: ReadNameMap reports read errors and malformed
 lines, and keeps the last line

---
 confu/confu.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/confu/confu.go b/confu/confu.go
index e16d3ec..0702851 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -42,7 +42,8 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 	fin := bufio.NewReader(ffin)
 	var rerr error
 	ret := make(map[int]string)
-	for s, rerr := fin.ReadString('\n'); rerr == nil; s, rerr = fin.ReadString('\n') {
+	var s string
+	for s, rerr = fin.ReadString('\n'); rerr == nil || s != "" && errors.Is(rerr, io.EOF); s, rerr = fin.ReadString('\n') {
 		s := strings.Replace(s, "\n", "", -1)
 		var l []string
 		if sep == " " {
@@ -50,6 +51,9 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 		} else {
 			l = strings.Split(s, sep)
 		}
+		if len(l) < 2 {
+			return nil, fmt.Errorf("Malformed line: %s", s)
+		}
 		num, err := strconv.Atoi(l[0])
 		if err != nil {
 			return nil, err
@@ -59,7 +63,10 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 	if errors.Is(rerr, io.EOF) {
 		rerr = nil //EOF is not an actual error
 	}
-	return ret, rerr
+	if rerr != nil {
+		return nil, rerr
+	}
+	return ret, nil
 
 }
 
-- 
2.43.0


From 6a5dc7d066e83b8a5a18c6760e7771b3e0d9c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 17/41] fix: writeBest closes its file and reports what it
 could not write

---
 cv/cv.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index aaf6923..f149a22 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -267,10 +267,11 @@ func writeBest(data *utils.DataBunch, bestacc float64, bestop *boo.Options) erro
 	boosted := boo.NewMultiClass(data, bestop)
 	bf := bufio.NewWriter(f)
 	err = boo.JSONMultiClass(boosted, "softmax", bf)
-	if err != nil {
-		return err
+	if err == nil {
+		err = bf.Flush()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
 	}
-	bf.Flush()
-	f.Close()
-	return nil
+	return err
 }
-- 
2.43.0


From d55b46312dc7daa3f0b8dbd06be8a0c9722b735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 18/41] fix: Grid uses one CPU when none is requested

---
 cv/cv.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index f149a22..0a9d7a5 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -169,11 +169,12 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	var finaloptions *boo.Options
 	accuracies := make([]float64, 0, 100)
 	bestacc := 0.0
-	accs := make([]chan float64, o.NCPUs)
-	errs := make([]chan error, o.NCPUs)
+	ncpus := max(o.NCPUs, 1) //the default GGridOptions don't set NCPUs
+	accs := make([]chan float64, ncpus)
+	errs := make([]chan error, ncpus)
 
-	os := make([]chan *boo.Options, o.NCPUs)
-	for i := range o.NCPUs {
+	os := make([]chan *boo.Options, ncpus)
+	for i := range ncpus {
 		accs[i] = make(chan float64)
 		errs[i] = make(chan error)
 		os[i] = make(chan *boo.Options)
@@ -206,7 +207,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 									conc := &Options{O: t, Acc: accs[cpus], Err: errs[cpus], Ochan: os[cpus], Conc: true}
 									go MultiClassCrossValidation(data, nfold, conc)
 									cpus++
-									if cpus == o.NCPUs {
+									if cpus == ncpus {
 										var err error
 										bestacc, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
 
-- 
2.43.0


From 739b8dac6a89bd99f5d2278dc180bb0ff0c5943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 19/41] fix: the workers of Grid are not left blocked after an
 error

---
 cv/cv.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 0a9d7a5..12b7af2 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -175,9 +175,10 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 
 	os := make([]chan *boo.Options, ncpus)
 	for i := range ncpus {
-		accs[i] = make(chan float64)
-		errs[i] = make(chan error)
-		os[i] = make(chan *boo.Options)
+		//buffered, so the workers can end if we return early.
+		accs[i] = make(chan float64, 1)
+		errs[i] = make(chan error, 1)
+		os[i] = make(chan *boo.Options, 1)
 	}
 	//welcome to nested-hell. Sorry.
 	cpus := 0
-- 
2.43.0


From ad9beec60c9ba2335e26702f9cd37025e46431b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 20/41] fix: Grid collects the results of an incomplete last
 batch

---
 cv/cv.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cv/cv.go b/cv/cv.go
index 12b7af2..fa773f2 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -227,6 +227,13 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 			}
 		}
 	}
+	if cpus > 0 { //the last, incomplete, batch
+		var err error
+		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		if err != nil {
+			return -1, nil, nil, err
+		}
+	}
 	return bestacc, accuracies, finaloptions, nil
 }
 
-- 
2.43.0


From 29aa7133643e1ff58e661e8f172bbf96f6e50c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 21/41] fix: Grid returns the accuracies it measured

---
 cv/cv.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index fa773f2..37689eb 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -210,7 +210,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 									cpus++
 									if cpus == ncpus {
 										var err error
-										bestacc, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+										bestacc, finaloptions, accuracies, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data, accuracies)
 
 										if err != nil {
 											return -1, nil, nil, err
@@ -229,7 +229,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	}
 	if cpus > 0 { //the last, incomplete, batch
 		var err error
-		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		bestacc, finaloptions, accuracies, err = rescueConcValues(errs[:cpus], accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data, accuracies)
 		if err != nil {
 			return -1, nil, nil, err
 		}
@@ -238,20 +238,21 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 }
 
 // Rescues cross-validation results from the given channels (errors, accuracy and the corresponding boosting options)
-func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, bestop *boo.Options, verbose bool, writebest bool, data *utils.DataBunch) (float64, *boo.Options, error) {
+func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, bestop *boo.Options, verbose bool, writebest bool, data *utils.DataBunch, all []float64) (float64, *boo.Options, []float64, error) {
 	var err error
 	var tmpacc float64
 	var tmpop *boo.Options
 	for i, v := range errors {
 		err = <-v
 		if err != nil {
-			return -1, nil, err
+			return -1, nil, nil, err
 		}
 		tmpacc = <-accs[i]
 		if tmpacc < 0 {
-			return -1, nil, fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
+			return -1, nil, nil, fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
 		}
 		tmpop = <-opts[i]
+		all = append(all, tmpacc)
 		if tmpacc > bestacc {
 			bestacc = tmpacc
 			bestop = tmpop
@@ -263,7 +264,7 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 			}
 		}
 	}
-	return bestacc, bestop, nil
+	return bestacc, bestop, all, nil
 
 }
 
-- 
2.43.0


From c657fd085ed207cc8084ec533c506b399af74e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 22/41] fix: the searches return the options they found even if
 the accuracy is zero

---
 cv/cv.go     | 2 +-
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 37689eb..bc1433b 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -253,7 +253,7 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 		}
 		tmpop = <-opts[i]
 		all = append(all, tmpacc)
-		if tmpacc > bestacc {
+		if bestop == nil || tmpacc > bestacc {
 			bestacc = tmpacc
 			bestop = tmpop
 			if verbose {
diff --git a/cv/grad.go b/cv/grad.go
index a5abb2a..c541ab0 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -254,7 +254,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 
 				}
 				//		println("new (might not be best) accuracy!", acc)
-				if acc > bestacc {
+				if finaloptions == nil || acc > bestacc {
 					if o.Verbose {
 						fmt.Println("New best accuracy: ", acc, t)
 					}
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 4690388..264fd66 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -55,7 +55,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 						if len(accuracies) > 0 && acc < accuracies[len(accuracies)-1] {
 							return fuzzOptions(tprev), nil
 						}
-						if acc > bestacc {
+						if finaloptions == nil || acc > bestacc {
 							if o.Verbose {
 								fmt.Println("New best accuracy: ", acc, t)
 							}
-- 
2.43.0


From 731875a40eecb35d79fd1f5654e4710c2c8213d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 23/41] fix: a parameter step that fails sends its result once,
 and leaves no worker blocked

---
 cv/grad.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index c541ab0..472ceed 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -92,9 +92,10 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	f["Rounds"] = [2]myf{func(o *boo.Options) *boo.Options { o.Rounds -= int(float64(o.Rounds) * fd); return o }, func(o *boo.Options) *boo.Options { o.Rounds += int(float64(o.Rounds) * fd); return o }}
 
 	pO := f[param][1](O.Clone())
-	pluserr := make(chan error)
-	pluso := make(chan *boo.Options)
-	plusacc := make(chan float64)
+	//buffered, so the workers can end if we return early.
+	pluserr := make(chan error, 1)
+	pluso := make(chan *boo.Options, 1)
+	plusacc := make(chan float64, 1)
 	conc := &Options{O: pO, Acc: plusacc, Err: pluserr, Ochan: pluso, Conc: true}
 	go MultiClassCrossValidation(D, nfold, conc)
 
@@ -106,11 +107,11 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 		mO := f[param][0](O.Clone())
 		if mO.Check() != nil {
 			out <- O
-
+			return
 		}
-		minerr = make(chan error)
-		mino = make(chan *boo.Options)
-		minacc = make(chan float64)
+		minerr = make(chan error, 1)
+		mino = make(chan *boo.Options, 1)
+		minacc = make(chan float64, 1)
 		conc := &Options{O: mO, Acc: minacc, Err: minerr, Ochan: mino, Conc: true}
 		go MultiClassCrossValidation(D, nfold, conc)
 	}
@@ -121,6 +122,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	_ = <-pluso
 	if err != nil {
 		out <- O
+		return
 	}
 	h := fd * currentValue(O, param)
 	if !central {
@@ -135,6 +137,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 		_ = <-mino
 		if err != nil {
 			out <- O
+			return
 		}
 		der = (pacc - macc) / 2 * h
 	}
-- 
2.43.0


From b6bc72d0e4552bbe5065075c3848a1e4d4d66d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 24/41] fix: a parameter that is zero has no numerical
 derivative

---
 cv/grad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index 472ceed..be2c7c1 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -126,7 +126,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	}
 	h := fd * currentValue(O, param)
 	if !central {
-		if h < 0 {
+		if h <= 0 {
 			out <- O
 			return
 		}
-- 
2.43.0


From 856e56096e9d103869a27ed03c6cc4c7e6da73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 25/41] fix: all the parameter steps of a gradient step start
 from the same options

---
 cv/grad.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index be2c7c1..f7eb34c 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -189,8 +189,9 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 	}
 	gm := map[string]chan *boo.Options{"Gamma": make(chan *boo.Options), "Lambda": make(chan *boo.Options), "SubSample": make(chan *boo.Options), "ColSubSample": make(chan *boo.Options), "LearningRate": make(chan *boo.Options), "Rounds": make(chan *boo.Options)}
 
+	start := O.Clone() //O is modified while some of the gorutines below still read the options.
 	for k, v := range gm {
-		go ParamaterGradStep(D, O, CVO, k, step, fractiondelta, curracc, nfold, central, v)
+		go ParamaterGradStep(D, start, CVO, k, step, fractiondelta, curracc, nfold, central, v)
 	}
 	O.Gamma = (<-gm["Gamma"]).Gamma
 	O.Lambda = (<-gm["Lambda"]).Lambda
-- 
2.43.0


From d46e75498a820a28618b6b353d1b21f31086f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 26/41] fix: GradStep sends its result also when it fails

---
 cv/grad.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index f7eb34c..9efa780 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -184,7 +184,10 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 		conc := &Options{O: O, Acc: nil, Err: nil, Ochan: nil, Conc: false}
 		curracc, err = MultiClassCrossValidation(D, nfold, conc)
 		if err != nil {
-			return Ori
+			if out != nil {
+				out <- O
+			}
+			return O
 		}
 	}
 	gm := map[string]chan *boo.Options{"Gamma": make(chan *boo.Options), "Lambda": make(chan *boo.Options), "SubSample": make(chan *boo.Options), "ColSubSample": make(chan *boo.Options), "LearningRate": make(chan *boo.Options), "Rounds": make(chan *boo.Options)}
-- 
2.43.0


From df76af9ee82d5d948e0865421588f8011dd9f870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 27/41] fix: the best options found are not modified by the
 following steps

---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 9efa780..0d40c1f 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -266,7 +266,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 						fmt.Println("New best accuracy: ", acc, t)
 					}
 					accuracies = append(accuracies, acc)
-					finaloptions = t
+					finaloptions = t.Clone() //t can be modified later
 					bestacc = acc
 					if o.WriteBest {
 						writeBest(data, bestacc, finaloptions)
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 264fd66..7a0057c 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -60,7 +60,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 								fmt.Println("New best accuracy: ", acc, t)
 							}
 							accuracies = append(accuracies, acc)
-							finaloptions = t
+							finaloptions = t.Clone() //t can be modified later
 							bestacc = acc
 							if o.WriteBest {
 								writeBest(data, bestacc, finaloptions)
-- 
2.43.0


From d46ab3682ccba6d60c4b15321c6bb09fbea0a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 28/41] fix: the gradient searches use the number of folds
 requested

---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 0d40c1f..0dae0f8 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -251,7 +251,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 			t.XGB = o.XGB
 			tprev := t.Clone()
 			CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-				acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+				acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 				if err != nil {
 					return nil, err
 				}
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 7a0057c..1fd5a9e 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -48,7 +48,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 
 					tprev := t.Clone()
 					CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-						acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+						acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 						if err != nil {
 							return nil, err
 						}
-- 
2.43.0


From 21cc76223113c7a436570504a699cfa122716cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:41 +0000
Subject: [PATCH 29/41] fix: GradientGrid uses the early stop requested

---
 cv/grad.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cv/grad.go b/cv/grad.go
index 0dae0f8..33017ae 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -249,6 +249,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 			t.MaxDepth = md
 			t.MinChildWeight = cw
 			t.XGB = o.XGB
+			t.EarlyStop = o.EarlyStop
 			tprev := t.Clone()
 			CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
 				acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
-- 
2.43.0


From 563bfb9d0b6228a3de89414eaff302022cd3cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:10 +0000
Subject: [PATCH 30/41] fix: a leaf with saturated probabilities takes no step,
 instead of a NaN one

---
 tree.go | 3 +++
 xgb.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tree.go b/tree.go
index ff7776f..a1fea0f 100644
--- a/tree.go
+++ b/tree.go
@@ -115,6 +115,9 @@ func NewTree(X [][]float64, o *TreeOptions) *Tree {
 	ret.y = o.Y
 	if ret.xgb {
 		ret.value = -1 * floats.Sum(utils.SampleSlice(ret.grads, o.Indexes)) / (floats.Sum(utils.SampleSlice(ret.hess, o.Indexes)) + o.Lambda) //eq 5
+		if math.IsNaN(ret.value) || math.IsInf(ret.value, 0) {
+			ret.value = 0 //the probabilities are saturated: there is no step to take.
+		}
 		ret.bestScoreSoFar = 0.0
 	} else {
 		ret.bestScoreSoFar = math.Inf(1)
diff --git a/xgb.go b/xgb.go
index 5be7ec4..76eb040 100644
--- a/xgb.go
+++ b/xgb.go
@@ -209,6 +209,9 @@ func updateLeaves(tree *Tree, gradient, hessian *mat.Dense) {
 			sumgrad += gradient.At(0, w)
 		}
 		nval := sumgrad / sumhess
+		if math.IsNaN(nval) || math.IsInf(nval, 0) {
+			nval = 0 //the probabilities are saturated: there is no step to take.
+		}
 		leaf.value = nval
 	}
 	applyToLeafs(tree, fn)
-- 
2.43.0


From ed7ff934e8eca97397323fedc57547c2d89d6def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:10 +0000
Subject: [PATCH 31/41] fix: the softmax of large values does not overflow

---
 utils/loss_acti.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index d00d50f..ac88786 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -37,8 +37,12 @@ func SoftMax(p, probs []float64) []float64 {
 	if probs == nil {
 		probs = make([]float64, len(p))
 	}
+	maxp := math.Inf(-1)
+	for _, v := range p {
+		maxp = math.Max(maxp, v)
+	}
 	for i, v := range p {
-		probs[i] = math.Exp(v)
+		probs[i] = math.Exp(v - maxp) //so the exponential doesn't overflow
 	}
 	den := floats.Sum(probs)
 	for i := range p {
-- 
2.43.0


From 2a22d401ffb6a1326482444ab243452dc243ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:49 +0000
Subject: [PATCH 32/41] fix: early stopping starts with the first round that
 was not skipped

---
 xgb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 76eb040..ecf5e68 100644
--- a/xgb.go
+++ b/xgb.go
@@ -119,7 +119,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 					stopped[k] = true
 					continue
 				}
-				if round == 0 {
+				if len(boosters) == 0 { //the first rounds could have been skipped
 					prevloss[k] = currloss
 					continue
 				}
-- 
2.43.0


From c3625513b07050cb0cfa51437338d175327d1aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:55 +0000
Subject: [PATCH 33/41] fix: a split with an infinite gain is not taken

---
 tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index a1fea0f..f5d2f0a 100644
--- a/tree.go
+++ b/tree.go
@@ -240,7 +240,8 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 			}
 			gain = 0.5*((sq(sumgLeft)/(sumhLeft+o.Lambda))+(sq(sumgRight)/(sumhRight+o.Lambda))-(sq(sumg)/(sumh+o.Lambda))) - (o.Gamma / 2) // Eq(7) in the xgboost paper
 			//in eq 7 ,gamma is NOT divided by 2. Check!
-			criterion = func() bool { return gain > T.bestScoreSoFar }
+			//a gain is infinite if there is no Lambda and the probabilities are saturated.
+			criterion = func() bool { return gain > T.bestScoreSoFar && !math.IsInf(gain, 1) }
 
 		} else {
 			yi, xi, xinext = sorty[i], sortx[i], sortx[i+1]
-- 
2.43.0


From c29aa3bf0e061292e6db82301aa743a0574f6ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:40 +0000
Subject: [PATCH 34/41] fix: a model file with a damaged round or class line is
 rejected

---
 xjson.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/xjson.go b/xjson.go
index dacbb1b..f3cc057 100644
--- a/xjson.go
+++ b/xjson.go
@@ -72,12 +72,18 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 				trees = append(trees, class)
 			}
 			nround++
+			if s != roundLine(nround) {
+				return nil, fmt.Errorf("Malformed header for round %d: %s", nround, s)
+			}
 			nclass = 0
 			class = make([]*Tree, 0, 1)
 			continue
 		}
 
 		if strings.Contains(s, "CLASS") {
+			if nclass >= len(ret.classLabels) || s != classLine(nclass, ret.classLabels[nclass]) {
+				return nil, fmt.Errorf("Malformed header for class %d, round %d: %s", nclass, nround, s)
+			}
 			continue
 		}
 		jtree, err := utils.UnJSONTree(s, r, creator)
@@ -115,6 +121,16 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	return ret, nil
 }
 
+// The line before the trees of a round.
+func roundLine(round int) string {
+	return fmt.Sprintf("ROUND %d\n", round)
+}
+
+// The line before the tree of a class.
+func classLine(class, label int) string {
+	return fmt.Sprintf("CLASS %d, label: %d \n", class, label)
+}
+
 // Marshals a multi-class classifier to JSON. probtransformname is the name of the activation
 // function, normally, "softmax", w is any object with a WriteString(string)(int,error)
 // method, normally, a *bufio.Writer.
@@ -128,12 +144,12 @@ func JSONMultiClass(m *MultiClass, activationfunctionname string, w writestringe
 		return err
 	}
 	for rn, round := range m.b {
-		_, err = w.WriteString(fmt.Sprintf("ROUND %d\n", rn))
+		_, err = w.WriteString(roundLine(rn))
 		if err != nil {
 			return err
 		}
 		for cn, class := range round {
-			_, err = w.WriteString(fmt.Sprintf("CLASS %d, label: %d \n", cn, m.classLabels[cn]))
+			_, err = w.WriteString(classLine(cn, m.classLabels[cn]))
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 503e2e6265174e6e5bae258222a5305ac82fde4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:54 +0000
Subject: [PATCH 35/41] fix: quote the column names that need it in the CSV
 export

---
 utils/csv.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/utils/csv.go b/utils/csv.go
index 0c814f2..f8ec311 100644
--- a/utils/csv.go
+++ b/utils/csv.go
@@ -26,8 +26,7 @@ func (D *DataBunch) CSV(separator ...string) string {
 		k := make([]string, 1, l+1)
 		k[0] = "Labels"
 		for _, v := range D.Keys {
-			s := fmt.Sprintf("%s", v)
-			k = append(k, s)
+			k = append(k, csvquote(v, sep))
 		}
 		ret = append(ret, strings.Join(k, sep))
 
@@ -46,6 +45,14 @@ func (D *DataBunch) CSV(separator ...string) string {
 
 }
 
+// quotes the field s if it can't be in a CSV line as it is.
+func csvquote(s, sep string) string {
+	if !strings.Contains(s, sep) && !strings.ContainsAny(s, "\"\r\n") && s == strings.TrimSpace(s) {
+		return s
+	}
+	return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
+}
+
 func csverror(err error, linenu int, line string) error {
 	return fmt.Errorf("Can't read line %d in libSVM-formatted file, Error: %v, line: %s", linenu, err, line)
 }
-- 
2.43.0


From 52c68cb0e716b8d74eaaae8e59f98fc22bf42ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:58 +0000
Subject: [PATCH 36/41] fix: a table with no rows can be exported

---
 utils/csv.go    | 7 +++++--
 utils/libsvm.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/utils/csv.go b/utils/csv.go
index f8ec311..37a4efa 100644
--- a/utils/csv.go
+++ b/utils/csv.go
@@ -21,8 +21,11 @@ func (D *DataBunch) CSV(separator ...string) string {
 		sep = separator[0]
 	}
 	ret := make([]string, 0, len(D.Data)+1)
-	l := len(D.Data[0])   //everything should be this lenght
-	if len(D.Keys) == l { //I asume no keys otherwise
+	l := len(D.Keys) //a table could have no rows
+	if len(D.Data) > 0 {
+		l = len(D.Data[0]) //everything should be this lenght
+	}
+	if len(D.Keys) == l && l > 0 { //I asume no keys otherwise
 		k := make([]string, 1, l+1)
 		k[0] = "Labels"
 		for _, v := range D.Keys {
diff --git a/utils/libsvm.go b/utils/libsvm.go
index e8200cb..4da8812 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -68,8 +68,11 @@ func (D *DataBunch) LibSVM() string {
 		return ""
 	}
 	ret := make([]string, 0, len(D.Data)+1)
-	l := len(D.Data[0])   //everything should be this lenght
-	if len(D.Keys) == l { //I asume no keys otherwise
+	l := len(D.Keys) //a table could have no rows
+	if len(D.Data) > 0 {
+		l = len(D.Data[0]) //everything should be this lenght
+	}
+	if len(D.Keys) == l && l > 0 { //I asume no keys otherwise
 		k := make([]string, 1, l+1)
 		k[0] = "Labels"
 		for i, v := range D.Keys {
-- 
2.43.0


From de7f707ad3a173b972d7ddd494bc99b53cf10883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:08 +0000
Subject: [PATCH 37/41] fix: a search over a range with a step that doesn't
 advance returns an error instead of never ending

---
 cv/cv.go     | 17 +++++++++++++++++
 cv/grad.go   |  3 +++
 cv/hybrid.go |  3 +++
 3 files changed, 23 insertions(+)

diff --git a/cv/cv.go b/cv/cv.go
index bc1433b..0e8a3ba 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -154,6 +154,20 @@ type Options struct {
 	Err   chan error
 }
 
+// Returns an error if going over any of the ranges (initial, final, step) would never end.
+func checkRanges(ranges ...[3]float64) error {
+	for _, r := range ranges {
+		if r[0] <= r[1] && r[0]+r[2] <= r[0] {
+			return fmt.Errorf("The step in the search range %v doesn't advance", r)
+		}
+	}
+	return nil
+}
+
+func intRange(r [3]int) [3]float64 {
+	return [3]float64{float64(r[0]), float64(r[1]), float64(r[2])}
+}
+
 // Runs a nfold-cross-validation-based grid search for best hyperparameters within the search space limited by options.
 func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, []float64, *boo.Options, error) {
 	var o *GridOptions
@@ -162,6 +176,9 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	} else {
 		o = DefaultXGridOptions()
 	}
+	if err := checkRanges(o.MinChildWeight, intRange(o.Rounds), intRange(o.MaxDepth), o.ColSubSample, o.LearningRate, o.Lambda, o.Gamma, o.SubSample); err != nil {
+		return -1, nil, nil, err
+	}
 	defaultoptions := boo.DefaultGOptions
 	if o.XGB {
 		defaultoptions = boo.DefaultXOptions
diff --git a/cv/grad.go b/cv/grad.go
index 33017ae..a601e7a 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -231,6 +231,9 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 	} else {
 		o = DefaultXGridOptions()
 	}
+	if err := checkRanges(o.MinChildWeight, intRange(o.MaxDepth)); err != nil {
+		return -1, nil, nil, err
+	}
 	defaultoptions := boo.DefaultGOptions
 	if o.XGB {
 		defaultoptions = boo.DefaultXOptions
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 1fd5a9e..edd35cb 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -15,6 +15,9 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 	} else {
 		o = DefaultXGridOptions()
 	}
+	if err := checkRanges(o.MinChildWeight, intRange(o.MaxDepth), intRange(o.Rounds), o.Lambda); err != nil {
+		return -1, nil, nil, err
+	}
 	defaultoptions := boo.DefaultGOptions
 	if o.XGB {
 		defaultoptions = boo.DefaultXOptions
-- 
2.43.0


From 768e17507562c72e715f1f80694850e654f1b8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:13 +0000
Subject: [PATCH 38/41] fix: the names in a file with CR LF line ends don't
 keep the CR

---
 confu/confu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confu/confu.go b/confu/confu.go
index 0702851..476b770 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -44,7 +44,7 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 	ret := make(map[int]string)
 	var s string
 	for s, rerr = fin.ReadString('\n'); rerr == nil || s != "" && errors.Is(rerr, io.EOF); s, rerr = fin.ReadString('\n') {
-		s := strings.Replace(s, "\n", "", -1)
+		s := strings.TrimRight(s, "\r\n")
 		var l []string
 		if sep == " " {
 			l = strings.Fields(s)
-- 
2.43.0


From b18a0b6eac2427d0f407ceeda015a22af4602165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:27 +0000
Subject: [PATCH 39/41] fix: the threshold of a split always separates the two
 values it is between

---
 tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree.go b/tree.go
index f5d2f0a..acf60cd 100644
--- a/tree.go
+++ b/tree.go
@@ -262,6 +262,9 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 			T.splitFeatureIndex = featureIndex
 			T.bestScoreSoFar = gain
 			T.threshold = (xi + xinext) / 2
+			if !(T.threshold >= xi && T.threshold < xinext) {
+				T.threshold = xi //there is no number between them, or the sum overflows.
+			}
 		}
 	}
 }
-- 
2.43.0


From 7cafd005cad8aa695734f436598b9e03bc600a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:22 +0000
Subject: [PATCH 40/41] fix: a round whose column draw comes out empty splits
 on no column, not on all of them

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index acf60cd..e935070 100644
--- a/tree.go
+++ b/tree.go
@@ -150,7 +150,7 @@ func emptyTree(xgb bool) *Tree {
 
 func (T *Tree) maybeInsertChildNode(o *TreeOptions) {
 	for i := 0; i < T.features; i++ {
-		if len(o.AllowedColumns) != 0 && !slices.Contains(o.AllowedColumns, i) {
+		if o.AllowedColumns != nil && !slices.Contains(o.AllowedColumns, i) {
 			continue
 		}
 		T.debug(o, "Will split by (zero-based) feature", i) //
-- 
2.43.0


From 738c9ae28c9cb44f7449fc917c5018b665a94d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:51 +0000
Subject: [PATCH 41/41] fix: the softmax of scores that overflow gives
 probabilities, not NaN

---
 utils/loss_acti.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index ac88786..9029e15 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -42,6 +42,10 @@ func SoftMax(p, probs []float64) []float64 {
 		maxp = math.Max(maxp, v)
 	}
 	for i, v := range p {
+		if v == maxp {
+			probs[i] = 1 //also if it is infinite
+			continue
+		}
 		probs[i] = math.Exp(v - maxp) //so the exponential doesn't overflow
 	}
 	den := floats.Sum(probs)
-- 
2.43.0

