From 9956c14e773210770ce9ed83643f7ab2068d424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:46 +0000
Subject: [PATCH 001/136] fix: CrossValidate defaults a nil splitter before
 using it

---
 model_selection/validation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model_selection/validation.go b/model_selection/validation.go
index 7e5fc44..f564140 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -39,13 +39,13 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 	if NJobs <= 0 {
 		NJobs = runtime.NumCPU()
 	}
+	if cv == Splitter(nil) {
+		cv = &KFold{NSplits: 3, Shuffle: true}
+	}
 	NSplits := cv.GetNSplits(X, Y)
 	if NJobs > NSplits {
 		NJobs = NSplits
 	}
-	if cv == Splitter(nil) {
-		cv = &KFold{NSplits: 3, Shuffle: true}
-	}
 	res.Estimator = make([]base.Predicter, NSplits)
 	res.TestScore = make([]float64, NSplits)
 	res.FitTime = make([]time.Duration, NSplits)
-- 
2.43.0


From 60d72470f72f04f464e5aa54edd280a22926a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:46 +0000
Subject: [PATCH 002/136] fix: KFold.GetNSplits reports the default number of
 splits Split uses

---
 model_selection/split.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model_selection/split.go b/model_selection/split.go
index efc4397..b42c5a8 100644
--- a/model_selection/split.go
+++ b/model_selection/split.go
@@ -107,6 +107,9 @@ func (splitter *KFold) Split(X, Y *mat.Dense) (ch chan Split) {
 
 // GetNSplits for KFold
 func (splitter *KFold) GetNSplits(X, Y *mat.Dense) int {
+	if splitter.NSplits <= 0 {
+		return 3
+	}
 	return splitter.NSplits
 }
 
-- 
2.43.0


From a40c1c2d5cac6e5f5936118ba5c3effe46693305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 003/136] fix: CrossValidate gives each split its own training
 matrices, as fitted estimators may retain them

---
 model_selection/validation.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/model_selection/validation.go b/model_selection/validation.go
index f564140..2123080 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -60,7 +60,9 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 	}
 	NSamples, NFeatures := X.Dims()
 	_, NOutputs := Y.Dims()
-	processSplit := func(job int, Xjob, Yjob *mat.Dense, sin structIn) structOut {
+	processSplit := func(job int, sin structIn) structOut {
+		// not shared between splits: fitted estimators may retain their training data
+		Xjob, Yjob := mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 		Xtrain, Xtest, Ytrain, Ytest := &mat.Dense{}, &mat.Dense{}, &mat.Dense{}, &mat.Dense{}
 		// fmt.Println("iSplit", sin.iSplit, "TrainIndex", sin.Split.TrainIndex[:10])
 		trainLen, testLen := len(sin.Split.TrainIndex), len(sin.Split.TestIndex)
@@ -96,17 +98,15 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 			sin = append(sin, structIn{iSplit: len(sin), Split: split})
 		}
 		base.Parallelize(NJobs, NSplits, func(th, start, end int) {
-			var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 			for i := start; i < end; i++ {
-				sout := processSplit(th, Xjob, Yjob, sin[i])
+				sout := processSplit(th, sin[i])
 				res.TestScore[sout.iSplit] = sout.score
 			}
 		})
 	} else { // NJobs==1
-		var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 		var isplit int
 		for split := range cv.Split(X, Y) {
-			sout := processSplit(0, Xjob, Yjob, structIn{iSplit: isplit, Split: split})
+			sout := processSplit(0, structIn{iSplit: isplit, Split: split})
 			res.TestScore[sout.iSplit] = sout.score
 			isplit++
 		}
-- 
2.43.0


From d9117e86ca1210fc0d1d22ad974dfe23497e6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:36 +0000
Subject: [PATCH 004/136] fix: Pipeline.Predict skips the target inverse of
 steps that have none instead of panicking

---
 pipeline/pipeline.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 19e0f0a..d1284b2 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -127,8 +127,9 @@ func (p *Pipeline) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 
 	}
 	for iStep := len(p.NamedSteps) - 2; iStep >= 0; iStep-- {
-		step := p.NamedSteps[iStep]
-		_, Ytmp = step.Fiter.(preprocessing.InverseTransformer).InverseTransform(nil, Ytmp)
+		if inverser, ok := p.NamedSteps[iStep].Fiter.(preprocessing.InverseTransformer); ok {
+			_, Ytmp = inverser.InverseTransform(nil, Ytmp)
+		}
 	}
 	return base.FromDense(Y, base.ToDense(Ytmp))
 }
-- 
2.43.0


From 48f5bfa9801b75559c0379b92443fe26516a1eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:36 +0000
Subject: [PATCH 005/136] fix: Pipeline.Score compares with the targets of the
 transformed rows

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index d1284b2..cbdc214 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -108,7 +108,7 @@ func (p *Pipeline) Score(X, Y mat.Matrix) float64 {
 	if !ok {
 		panic(fmt.Errorf("pipeline.Score: last step is not a Predicter"))
 	}
-	return predicter.Score(Xtmp, Y)
+	return predicter.Score(Xtmp, Ytmp)
 }
 
 // GetNOutputs returns output columns number for Y
-- 
2.43.0


From f85afd0b1b4968649267b731f72d0e50dbbf126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:32 +0000
Subject: [PATCH 006/136] fix: IncrementalMeanAndVar combines batch variances
 with the squared difference of means

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index ade9f73..84535bf 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -522,8 +522,8 @@ func IncrementalMeanAndVar(X, lastMean, lastVariance *mat.Dense,
 		//     (lastSum / lastOverNewCount - newSum) ** 2)
 		tmp.CloneFrom(lastSum)
 		tmp.Scale(1./lastOverNewCount, tmp)
-		tmp.Add(tmp, newSum)
-		tmp.Mul(tmp, tmp)
+		tmp.Sub(tmp, newSum)
+		tmp.MulElem(tmp, tmp)
 		tmp.Scale(lastOverNewCount/float(updatedSampleCount), tmp)
 
 		updatedUnnormalizedVariance.CloneFrom(lastUnnormalizedVariance)
-- 
2.43.0


From f0821af163006d3f7548c8136a6e85f7dd7aa6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:33 +0000
Subject: [PATCH 007/136] fix: MeanStdDev and NumpyLike.Var divide by the
 number of samples, not of features

---
 preprocessing/data.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 84535bf..72101b8 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -248,7 +248,7 @@ func MeanStdDev(X mat.Matrix) (mean, std *mat.Dense) {
 			mat.Col(tmp, col, X)
 			meancol, stdcol := stat.MeanStdDev(tmp, nil)
 			mean.Set(0, col, meancol)
-			std.Set(0, col, stdcol*float64(n-1)/float64(n))
+			std.Set(0, col, stdcol*math.Sqrt(float64(m-1)/float64(m)))
 		}
 	})
 
@@ -284,7 +284,7 @@ func (NumpyLike) Var(X mat.Matrix) *mat.Dense {
 			mat.Col(tmp, col, X)
 			floats.AddConst(-mean.At(0, col), tmp)
 			floats.Mul(tmp, tmp)
-			variance.Set(0, col, floats.Sum(tmp)/float64(n))
+			variance.Set(0, col, floats.Sum(tmp)/float64(m))
 		}
 	})
 	return variance
@@ -1386,7 +1386,8 @@ func yeoJohnsonOptimize(x []float64) float64 {
 			sumlog1p += tmp
 		}
 		yeoJohnsonTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		// up to a constant that does not depend on lmbda
+		loglike := -float64(nSamples)/2*math.Log(float64(nSamples)*NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
 			(lmbda-1)*sumlog1p
 		return -loglike
 	}
@@ -1483,7 +1484,8 @@ func boxCoxOptimize(x []float64) float64 {
 			sumlog += math.Log(xi)
 		}
 		boxCoxTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		// up to a constant that does not depend on lmbda
+		loglike := -float64(nSamples)/2*math.Log(float64(nSamples)*NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
 			(lmbda-1)*sumlog
 		return -loglike
 	}
-- 
2.43.0


From c557e59dae7f59ef5dd4b43f82445ffa6f80bdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:33 +0000
Subject: [PATCH 008/136] fix: RobustScaler refits from scratch instead of
 reusing buffers of the previous fit or of a clone

---
 preprocessing/data.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 72101b8..660cb83 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -362,15 +362,13 @@ func (scaler *RobustScaler) PartialFit(Xmatrix, Ymatrix mat.Matrix) Transformer
 	if nSamples == 0 {
 		return scaler
 	}
-	if scaler.Center && (scaler.Median == nil) {
+	if scaler.Center {
 		scaler.Median = mat.NewDense(1, nFeatures, nil)
 	}
-	if scaler.Scale && (scaler.QuantileDivider == nil) {
+	if scaler.Scale {
 		scaler.QuantileDivider = mat.NewDense(1, nFeatures, nil)
 	}
-	if scaler.Tmp == nil {
-		scaler.Tmp = mat.NewDense(1, nSamples, nil)
-	}
+	scaler.Tmp = mat.NewDense(1, nSamples, nil)
 
 	for c := 0; c < nFeatures; c++ {
 		for r := 0; r < nSamples; r++ {
-- 
2.43.0


From b9ab635b1a440642823b5b0cb1eab3aa8ccdf94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:34 +0000
Subject: [PATCH 009/136] fix: MinMaxScaler and StandardScaler clones do not
 share the statistics partial fits update

---
 preprocessing/data.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 660cb83..799183d 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -41,6 +41,11 @@ func NewMinMaxScaler(featureRange []float) *MinMaxScaler {
 // TransformerClone ...
 func (scaler *MinMaxScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	for _, m := range []**mat.Dense{&clone.Scale, &clone.Min, &clone.DataMin, &clone.DataMax, &clone.DataRange} {
+		if *m != nil {
+			*m = mat.DenseCopyOf(*m)
+		}
+	}
 	return &clone
 }
 
@@ -143,6 +148,9 @@ func NewStandardScaler() *StandardScaler {
 // TransformerClone ...
 func (scaler *StandardScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	if clone.Scale != nil {
+		clone.Scale = mat.DenseCopyOf(clone.Scale)
+	}
 	return &clone
 }
 
-- 
2.43.0


From b17947c06687b9fdfe6fc96e0aaea5b8bc3cd56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:35 +0000
Subject: [PATCH 010/136] fix: MaxAbsScaler restarts on Fit, partial-fits
 before any Fit, and does not share statistics with clones

---
 preprocessing/data.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 799183d..38df54d 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -927,21 +927,25 @@ func NewMaxAbsScaler() *MaxAbsScaler { return &MaxAbsScaler{} }
 // TransformerClone ...
 func (m *MaxAbsScaler) TransformerClone() base.Transformer {
 	var clone = *m
+	clone.Scale = append([]float64(nil), m.Scale...)
+	clone.MaxAbs = append([]float64(nil), m.MaxAbs...)
 	return &clone
 }
 
 // Fit for MaxAbsScaler ...
 func (m *MaxAbsScaler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-	Xmat := X.RawMatrix()
-	m.MaxAbs = make([]float64, Xmat.Cols)
-	m.Scale = make([]float64, Xmat.Cols)
+	m.NSamplesSeen = 0
 	return m.PartialFit(X, Y)
 }
 
 // PartialFit for MaxAbsScaler ...
 func (m *MaxAbsScaler) PartialFit(X, Y *mat.Dense) base.Transformer {
 	Xmat := X.RawMatrix()
+	if m.NSamplesSeen == 0 {
+		m.MaxAbs = make([]float64, Xmat.Cols)
+		m.Scale = make([]float64, Xmat.Cols)
+	}
 	for jX := 0; jX < Xmat.Rows*Xmat.Stride; jX = jX + Xmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
 			if v < 0. {
-- 
2.43.0


From b399ae30ffae3354d64228183ac982c58a1fc026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 011/136] fix: MaxAbsScaler.InverseTransform accepts a nil X
 like the other scalers

---
 preprocessing/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 38df54d..34055cc 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -989,6 +989,9 @@ func (m *MaxAbsScaler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for MaxAbsScaler ...
 func (m *MaxAbsScaler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	Xmat := X.RawMatrix()
 	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
-- 
2.43.0


From 61c4f428f2d81228950f81ba0647d252ed323108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:37 +0000
Subject: [PATCH 012/136] fix: Normalizer normalizes the rows of non-square
 matrices

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 34055cc..da9097a 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1054,7 +1054,7 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		m.nrmValues = make([]float64, NSamples)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
-			nrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)
+			nrm := mat.Norm(mat.NewVecDense(NFeatures, tmp), norm)
 			m.nrmValues[i] = nrm
 			if nrm != 0 {
 				floats.Scale(1/nrm, tmp)
-- 
2.43.0


From e1d8478b017df60d5871dc80446445ae0811b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:38 +0000
Subject: [PATCH 013/136] fix: Normalizer.InverseTransform allocates its result
 and passes Y through

---
 preprocessing/data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index da9097a..1b8e6c0 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1074,7 +1074,11 @@ func (m *Normalizer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Normalizer ...
 func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	NSamples, NFeatures := X.Dims()
+	Xout, Yout = mat.NewDense(NSamples, NFeatures, nil), Y
 	if m.Axis == 0 {
 		tmp := make([]float64, NSamples)
 		for i := 0; i < NFeatures; i++ {
-- 
2.43.0


From 962d1b0a1f7dde15b6b6633e76d71e6d7e0415fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:39 +0000
Subject: [PATCH 014/136] fix: KernelCenterer.Transform returns as many rows as
 it was given

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 1b8e6c0..c0ae57d 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1144,7 +1144,7 @@ func (m *KernelCenterer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense
 		}
 	})
 	Xmat := X.RawMatrix()
-	Xout = mat.NewDense(Xmat.Cols, Xmat.Cols, nil)
+	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
 	for j, jX, jXout := 0, 0, 0; j < Xmat.Rows; j, jX, jXout = j+1, jX+Xmat.Stride, jXout+Xoutmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
-- 
2.43.0


From 67c0483c03c1a10b88fa94eac58b6eb88b6f1973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:40 +0000
Subject: [PATCH 015/136] fix: PowerTransformer.Transform leaves its input
 alone

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index c0ae57d..53fc6bc 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1307,7 +1307,7 @@ func (m *PowerTransformer) fit(X, Y mat.Matrix, forceTransform bool) (Xout *mat.
 // Transform apply the power transform to each feature using the fitted lambdas
 func (m *PowerTransformer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	nSamples, nFeatures := X.Dims()
-	Xout = base.ToDense(X)
+	Xout = mat.NewDense(nSamples, nFeatures, nil)
 	Yout = base.ToDense(Y)
 	var transformFunc func(out, x []float64, lmbda float64)
 	switch m.Method {
-- 
2.43.0


From f9e399e6224f4fa9a01e2ae0bf593fb6d807dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:40 +0000
Subject: [PATCH 016/136] fix: Yeo-Johnson uses the spacing of doubles at 1, so
 lambda 0 takes the logarithm branch

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 53fc6bc..0a8c437 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1420,7 +1420,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 
 // yeoJohnsonTransform returns in out transformed input x following Yeo-Johnson transform with parameter lambda
 func yeoJohnsonTransform(out, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 
 	//# when x >= 0
 	if math.Abs(lmbda) < spacing {
@@ -1455,7 +1455,7 @@ func yeoJohnsonTransform(out, x []float64, lmbda float64) {
 
 // yeoJohnsonInverseTransform returns inverse-transformed input x following Yeo-Johnson inverse transform with parameter lambda
 func yeoJohnsonInverseTransform(xinv, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 	abs := math.Abs
 	exp := math.Exp
 	power := math.Pow
-- 
2.43.0


From f6c05580cf296a4c26868dd9ca8a5b17319e302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:41 +0000
Subject: [PATCH 017/136] fix: Box-Cox inverse is defined for negative
 transformed values

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 0a8c437..c6a3c1f 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1534,7 +1534,7 @@ func boxCoxInverseTransform(out, x []float64, lmbda float64) {
 		f = math.Exp
 	}
 	for pos, xi := range x {
-		if xi > 0 || (xi >= 0 && lmbda > 0) {
+		if xi*lmbda+1 > 0 || (xi*lmbda+1 >= 0 && lmbda > 0) {
 			out[pos] = f(xi)
 		} else {
 			out[pos] = math.NaN()
-- 
2.43.0


From 8b3d1e79eb0224a99e40c6796c193963291d6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:42 +0000
Subject: [PATCH 018/136] fix: PolynomialFeatures.InverseTransform passes Y
 through

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index c6a3c1f..2fecee5 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -653,7 +653,7 @@ func (poly *PolynomialFeatures) InverseTransform(X, Y *mat.Dense) (Xout, Yout *m
 			Xout.Set(i, pair.jorig, X.At(i, pair.jpoly))
 		}
 	}
-	return
+	return Xout, Y
 }
 
 // DenseMean puts in Xmean[1,nFeatures] the mean of X rows
-- 
2.43.0


From 386501095358aefe991021177ee40b826e5824d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:43 +0000
Subject: [PATCH 019/136] fix: DenseMean ignores the previous contents of its
 receiver

---
 preprocessing/data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 2fecee5..7387e2a 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -662,7 +662,8 @@ func DenseMean(Xmean *mat.Dense, X mat.Matrix) *mat.Dense {
 	if Xmean == nil {
 		Xmean = mat.NewDense(1, nFeatures, nil)
 	}
-	Xmean.Apply(func(i int, j int, v float64) float64 {
+	Xmean.Apply(func(_ int, j int, _ float64) float64 {
+		v := 0.
 		for i := 0; i < nSamples; i++ {
 			v += X.At(i, j)
 		}
-- 
2.43.0


From 88bd333bfb6a9dd0375abfe0b114c9d011624c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:44 +0000
Subject: [PATCH 020/136] fix: OneHotEncoder.InverseTransform returns the
 encoded values, not their positions

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 7387e2a..a9450c7 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -785,7 +785,7 @@ func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense
 		cstart, cend := m.FeatureIndices[feature], m.FeatureIndices[feature+1]
 		for sample := 0; sample < nSamples; sample++ {
 			classNo := floats.MaxIdx(X.RawRowView(sample)[cstart:cend])
-			Xout.Set(sample, feature, float64(classNo))
+			Xout.Set(sample, feature, m.Values[feature][classNo])
 		}
 	}
 	return
-- 
2.43.0


From 6fea0fdedd8437c84a39f39b89f7658c372f155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:44 +0000
Subject: [PATCH 021/136] fix: Binarizer handles matrix views

---
 preprocessing/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index a9450c7..7c950b5 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -897,13 +897,13 @@ func (m *Binarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	Xout = mat.NewDense(rmx.Rows, rmx.Cols, nil)
 	rmXout := Xout.RawMatrix()
 	Yout = base.ToDense(Y)
-	for r, xpos := 0, 0; r < rmx.Rows; r, xpos = r+1, xpos+rmx.Stride {
+	for r, xpos, opos := 0, 0, 0; r < rmx.Rows; r, xpos, opos = r+1, xpos+rmx.Stride, opos+rmXout.Stride {
 		for c := 0; c < rmx.Cols; c++ {
 
 			if rmx.Data[xpos+c] > m.Threshold {
-				rmXout.Data[xpos+c] = 1
+				rmXout.Data[opos+c] = 1
 			} else {
-				rmXout.Data[xpos+c] = 0
+				rmXout.Data[opos+c] = 0
 			}
 		}
 	}
-- 
2.43.0


From 2ff1ee961f227a4fbacd724ae67eb86f09226692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:45 +0000
Subject: [PATCH 022/136] fix: Shuffler clones do not share the random state

---
 preprocessing/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 7c950b5..f113d7a 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -804,6 +804,9 @@ func NewShuffler() *Shuffler { return &Shuffler{} }
 // TransformerClone ...
 func (m *Shuffler) TransformerClone() base.Transformer {
 	var clone = *m
+	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		clone.RandomState = sourceCloner.SourceClone()
+	}
 	return &clone
 }
 
-- 
2.43.0


From a94ac40666dd1e2b7429ad70062ef66a6550fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:00 +0000
Subject: [PATCH 023/136] fix: Shuffler.InverseTransform returns copies,
 accepts a nil X, and stays inside matrix views

---
 preprocessing/data.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index f113d7a..b89b16e 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -10,6 +10,7 @@ import (
 	"github.com/pa-m/sklearn/base"
 
 	"github.com/pa-m/optimize"
+	"gonum.org/v1/gonum/blas/blas64"
 	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/gonum/mat"
 	"gonum.org/v1/gonum/stat"
@@ -853,19 +854,27 @@ func (m *Shuffler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Shuffler
 func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
-	xmat, ymat := X.RawMatrix(), Y.RawMatrix()
+	var xmat, ymat blas64.General
+	if X != nil {
+		Xout = mat.DenseCopyOf(X)
+		xmat = Xout.RawMatrix()
+	}
+	if Y != nil && !Y.IsEmpty() {
+		Yout = mat.DenseCopyOf(Y)
+		ymat = Yout.RawMatrix()
+	}
 	var srcxpos, srcypos, dstxpos, dstypos, j int
 	var v float64
 	for i := len(m.Perm) - 1; i >= 0; i-- {
 		if m.Perm[i] > i {
 			srcxpos, dstxpos = m.Perm[i]*xmat.Stride, i*xmat.Stride
 			srcypos, dstypos = m.Perm[i]*ymat.Stride, i*ymat.Stride
-			for j = 0; j < xmat.Stride; j++ {
+			for j = 0; j < xmat.Cols; j++ {
 				v = xmat.Data[srcxpos+j]
 				xmat.Data[srcxpos+j] = xmat.Data[dstxpos+j]
 				xmat.Data[dstxpos+j] = v
 			}
-			for j = 0; j < ymat.Stride; j++ {
+			for j = 0; j < ymat.Cols; j++ {
 				v := ymat.Data[srcypos+j]
 				ymat.Data[srcypos+j] = ymat.Data[dstypos+j]
 				ymat.Data[dstypos+j] = v
@@ -874,7 +883,7 @@ func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 		}
 	}
 
-	return X, Y
+	return
 }
 
 // Binarizer Binarize data (set feature values to 0 or 1) according to a threshold
-- 
2.43.0


From e8ceded621ccd90f4ae3fd6180d01d5e82e7888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:01 +0000
Subject: [PATCH 024/136] fix: Shuffler.Transform accepts an absent Y

---
 preprocessing/data.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index b89b16e..85e5ba6 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -824,7 +824,12 @@ func (m *Shuffler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 
 // Transform for Shuffler
 func (m *Shuffler) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
-	Xout, Yout = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
+	Xout, Yout = mat.DenseCopyOf(X), base.ToDense(Y)
+	if Yout != nil && !Yout.IsEmpty() {
+		Yout = mat.DenseCopyOf(Yout)
+	} else {
+		Yout = &mat.Dense{}
+	}
 	xmat, ymat := Xout.RawMatrix(), Yout.RawMatrix()
 	var dstxpos, dstypos, j int
 	var v float64
-- 
2.43.0


From 8d20eed933011e0b94d1c241fb8d513e9de01101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:02 +0000
Subject: [PATCH 025/136] fix: LabelBinarizer.Transform writes the negative
 label

---
 preprocessing/label.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 70ed591..b44222d 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -60,6 +60,9 @@ func (m *LabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 	Yout = mat.NewDense(NSamples, NOutputs, nil)
 	y, yo := base.ToDense(Y).RawMatrix(), Yout.RawMatrix()
+	for i := range yo.Data {
+		yo.Data[i] = m.NegLabel
+	}
 	baseCol := 0
 	for j := 0; j < y.Cols; j++ {
 		cmap := make(map[float64]int)
@@ -70,8 +73,6 @@ func (m *LabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 			val := y.Data[yi+j]
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
-- 
2.43.0


From 87e0dbf1826e6e28543b4c85b9f7c94df82dbec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:03 +0000
Subject: [PATCH 026/136] fix: LabelBinarizer.InverseTransform decodes every
 column

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index b44222d..dc3cdde 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -94,7 +94,7 @@ func (m *LabelBinarizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dens
 
 	Yout = mat.NewDense(NSamples, NOutputs, nil)
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; j < NOutputs; j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := floats.MaxIdx(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
-- 
2.43.0


From f88861a519fc4d355d7d704e6eab4f6291707d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:04 +0000
Subject: [PATCH 027/136] fix: LabelEncoder.Transform gives -1 for every
 unknown label

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index dc3cdde..31094a4 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -329,7 +329,7 @@ func (m *LabelEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
 			pos := sort.SearchFloat64s(m.Classes[i], v)
-			if pos < 0 || pos >= len(m.Classes[i]) {
+			if pos >= len(m.Classes[i]) || m.Classes[i][pos] != v {
 				pos = -1
 			}
 			Youtmat.Data[jYout+i] = float64(pos)
-- 
2.43.0


From 48ad09362add22deb846e18adbb9e22ed67bc6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:04 +0000
Subject: [PATCH 028/136] fix: LabelEncoder.InverseTransform gives NaN for
 codes out of range, without losing the rest of the row

---
 preprocessing/label.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 31094a4..bd3110c 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -352,9 +352,9 @@ func (m *LabelEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
 	Youtmat := Yout.RawMatrix()
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
-			if int(v) < 0 || int(v) > len(m.Classes[i]) {
+			if int(v) < 0 || int(v) >= len(m.Classes[i]) {
 				Youtmat.Data[jYout+i] = math.NaN()
-				break
+				continue
 			}
 			Youtmat.Data[jYout+i] = m.Classes[i][int(v)]
 		}
-- 
2.43.0


From 7d929cf22669ec940264f762c384a7c379a404c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:05 +0000
Subject: [PATCH 029/136] fix: LabelEncoder clones do not share the class
 tables partial fits update

---
 preprocessing/label.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index bd3110c..59d2cd0 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -282,6 +282,11 @@ func NewLabelEncoder() *LabelEncoder { return &LabelEncoder{} }
 // TransformerClone ...
 func (m *LabelEncoder) TransformerClone() base.Transformer {
 	clone := *m
+	clone.Classes, clone.Support = nil, nil
+	for i := range m.Classes {
+		clone.Classes = append(clone.Classes, append([]float64(nil), m.Classes[i]...))
+		clone.Support = append(clone.Support, append([]float64(nil), m.Support[i]...))
+	}
 	return &clone
 }
 
-- 
2.43.0


From 9f646f0688e6b66523265dadaa5d5d28a7d1319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:06 +0000
Subject: [PATCH 030/136] fix: MultiLabelBinarizer.Transform accepts any matrix
 type, as Fit does

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 59d2cd0..d97ec82 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -169,7 +169,7 @@ func (m *MultiLabelBinarizer) Fit2(X mat.Matrix, Y interface{}) *MultiLabelBinar
 // Transform for MultiLabelBinarizer ...
 // Y type must be the same passed int Fit
 func (m *MultiLabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
-	return m.Transform2(X, Y)
+	return m.Transform2(X, base.ToDense(Y))
 }
 
 // FitTransform fit to dat, then transform it
-- 
2.43.0


From cc218f2bb71371c632a8642189b0318e26cc088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:07 +0000
Subject: [PATCH 031/136] fix: KBinsDiscretizer sorts the values before taking
 quantiles

---
 preprocessing/discretization.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 1d7e268..9bdcdb1 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -3,6 +3,7 @@ package preprocessing
 import (
 	"fmt"
 	"math"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"gonum.org/v1/gonum/floats"
@@ -39,6 +40,7 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 		tmp := make([]float64, NSamples)
 		for f := start; f < end; f++ {
 			mat.Col(tmp, f, X)
+			sort.Float64s(tmp)
 			min, max := floats.Min(tmp), floats.Max(tmp)
 			m.BinEdges[f] = make([]float64, m.NBins+1)
 			for b := 0; b <= m.NBins; b++ {
-- 
2.43.0


From d1f94f6fbdc99192f05a90f868ff7433cc89565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:08 +0000
Subject: [PATCH 032/136] fix: KBinsDiscretizer.Transform passes Y through like
 the other transformers

---
 preprocessing/discretization.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 9bdcdb1..8fe5477 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -62,6 +62,7 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 // Transform discretizes the Data
 func (m *KBinsDiscretizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
+	Yout = base.ToDense(Y)
 	switch m.Encode {
 	case "ordinal":
 		Xout = mat.NewDense(NSamples, NFeatures, nil)
-- 
2.43.0


From 26e4c3564ce2dbd7f6e79b6ce91c5ef3db82377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 033/136] fix: PCA fits matrices with fewer rows than columns

---
 preprocessing/pca.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 067575b..1daa887 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -27,7 +27,10 @@ func (m *PCA) TransformerClone() base.Transformer {
 // Fit computes the svd of X
 func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
-	_, c := X.Dims()
+	r, c := X.Dims()
+	if r < c {
+		c = r
+	}
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
-- 
2.43.0


From dc814338c87209aa99f6210d7c7c63919c0d01d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:10 +0000
Subject: [PATCH 034/136] fix: PCA.InverseTransform uses the kept components
 only

---
 preprocessing/pca.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 1daa887..644af56 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -82,10 +82,10 @@ func (m *PCA) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 
 	var v = new(mat.Dense)
 	m.SVD.VTo(v)
-	nSamples, _ := X.Dims()
-	_, vCols := v.Dims()
-	Xout = mat.NewDense(nSamples, vCols, nil)
-	Xout.Mul(X, v.T())
+	nSamples, nComponents := X.Dims()
+	vRows, _ := v.Dims()
+	Xout = mat.NewDense(nSamples, vRows, nil)
+	Xout.Mul(X, base.MatDenseSlice(v, 0, vRows, 0, nComponents).T())
 	Yout = Y
 	return
 }
-- 
2.43.0


From 7786439b59de916fb840d731dc5a44a8a0bd3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:11 +0000
Subject: [PATCH 035/136] fix: PCA.Fit does not overwrite the decomposition a
 clone still refers to

---
 preprocessing/pca.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 644af56..5f50141 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -31,6 +31,7 @@ func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	if r < c {
 		c = r
 	}
+	m.SVD = mat.SVD{}
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
-- 
2.43.0


From 6fd53db47c542987bf5b7197a5b8c3ac5d72ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:28 +0000
Subject: [PATCH 036/136] fix: QuantileTransformer takes quantiles of the
 sorted values

---
 preprocessing/data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 85e5ba6..4067856 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1205,6 +1205,7 @@ func (m *QuantileTransformer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	for feature := 0; feature < nFeatures; feature++ {
 		values := XT.RawRowView(feature)
+		sort.Float64s(values)
 		quantiles := Q.RawRowView(feature)
 		for i := range m.references {
 			realSample := float64(i) / float64(m.NQuantiles-1) * float64(nSamples-1)
-- 
2.43.0


From 3c7aae8827b633c7bdf69fbd43543037a017304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:29 +0000
Subject: [PATCH 037/136] fix: QuantileTransformer transforms every feature,
 repeated quantiles and values out of the fitted range

---
 preprocessing/data.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 4067856..28fc045 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1228,13 +1228,24 @@ func (m *QuantileTransformer) Transform(Xmatrix, Ymatrix mat.Matrix) (Xout, Yout
 	nSamples, nFeatures := X.Dims()
 	eps := 1e-7
 	Xout = mat.NewDense(nSamples, nFeatures, nil)
-	for c := 0; c < nFeatures && c < len(m.references); c++ {
+	for c := 0; c < nFeatures; c++ {
+		for i := 0; i < nSamples; i++ {
+			if X.At(i, c) < m.Quantiles.At(0, c) {
+				Xout.Set(i, c, m.references[0]+eps)
+			} else {
+				Xout.Set(i, c, m.references[m.NQuantiles-1]-eps)
+			}
+		}
 		for q := m.NQuantiles - 2; q >= 0; q-- {
 			x0, x1 := m.Quantiles.At(q, c), m.Quantiles.At(q+1, c)
 			for i := 0; i < nSamples; i++ {
 				x := X.At(i, c)
 				if x >= x0 && x <= x1 {
-					Xout.Set(i, c, math.Min(m.references[m.NQuantiles-1]-eps, math.Max(m.references[0]+eps, m.references[q]+(x-x0)/(x1-x0)*(m.references[q+1]-m.references[q]))))
+					p := 0.
+					if x1 > x0 {
+						p = (x - x0) / (x1 - x0)
+					}
+					Xout.Set(i, c, math.Min(m.references[m.NQuantiles-1]-eps, math.Max(m.references[0]+eps, m.references[q]+p*(m.references[q+1]-m.references[q]))))
 				}
 			}
 		}
-- 
2.43.0


From 7d223dcef24074e0922d4f6d4ae338e7a88e2c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:29 +0000
Subject: [PATCH 038/136] fix: PCA keeps all components again when refitted on
 data of another width

---
 preprocessing/pca.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 5f50141..b6d69ea 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -13,6 +13,7 @@ type PCA struct {
 	MinVarianceRatio                       float64
 	NComponents                            int
 	SingularValues, ExplainedVarianceRatio []float64
+	autoNComponents                        int
 }
 
 // NewPCA returns a *PCA
@@ -48,8 +49,8 @@ func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		}
 		m.NComponents = nComponents
 	} else {
-		if m.NComponents == 0 {
-			m.NComponents = c
+		if m.NComponents == 0 || m.NComponents == m.autoNComponents {
+			m.NComponents, m.autoNComponents = c, c
 		}
 	}
 
-- 
2.43.0


From 90818bac59ed4d052f3c9f680e602563977da4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:58 +0000
Subject: [PATCH 039/136] fix: LockedSource.SourceClone takes the lock while
 copying the state

---
 base/source.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/source.go b/base/source.go
index 663d941..8db1e63 100644
--- a/base/source.go
+++ b/base/source.go
@@ -57,6 +57,8 @@ func (s *LockedSource) Seed(seed uint64) {
 
 // SourceClone ...
 func (s *LockedSource) SourceClone() Source {
+	s.lk.Lock()
+	defer s.lk.Unlock()
 	return &LockedSource{src: s.src.SourceClone().(*randomkit.RKState)}
 }
 
-- 
2.43.0


From fc1525a6d37b2f769baa1573e8b067d44cbc421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:14 +0000
Subject: [PATCH 040/136] fix: StandardScaler treats columns whose variance is
 only rounding error as constant

---
 preprocessing/data.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 28fc045..7c95878 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -181,8 +181,11 @@ func (scaler *StandardScaler) PartialFit(X, Y *mat.Dense) Transformer {
 
 	}
 	scaler.Mean, scaler.Var, scaler.NSamplesSeen = IncrementalMeanAndVar(X, scaler.Mean, scaler.Var, scaler.NSamplesSeen)
+	const eps = 2.220446049250313e-16
 	scaler.Scale.Apply(func(i int, j int, vj float64) float64 {
-		if vj == 0. {
+		// a constant feature may get a non-null variance from rounding errors
+		n := float(scaler.NSamplesSeen)
+		if meanErr := n * scaler.Mean.At(i, j) * eps; vj <= n*eps*vj+meanErr*meanErr {
 			vj = 1.
 		}
 		return math.Sqrt(vj)
-- 
2.43.0


From 6320a0d4f14fd082a8285984a39fc460e7356503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:37 +0000
Subject: [PATCH 041/136] fix: LabelEncoder support of a class inserted before
 others starts at one

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index d97ec82..d3085c1 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -320,7 +320,7 @@ func (m *LabelEncoder) PartialFit(X, Y *mat.Dense) base.Transformer {
 			copy(m.Classes[i][pos+1:l+1], m.Classes[i][pos:l])
 			copy(m.Support[i][pos+1:l+1], m.Support[i][pos:l])
 			m.Classes[i][pos] = v
-			m.Support[i][pos] += 1.
+			m.Support[i][pos] = 1.
 		}
 	}
 	return m
-- 
2.43.0


From d9a0a694c904f954f1d4db4810cdb2aff6f1fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:15 +0000
Subject: [PATCH 042/136] fix: confusion matrix counts predictions of classes
 absent from the true labels, on the first column only

---
 metrics/classification.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/metrics/classification.go b/metrics/classification.go
index 6c4d763..29eb5f4 100644
--- a/metrics/classification.go
+++ b/metrics/classification.go
@@ -74,7 +74,7 @@ func FBetaScore(Ytrue, Ypred *mat.Dense, beta float64, average string, sampleWei
 func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels []float64, posLabel int, average string, warnFor []string, sampleWeight []float64) (precision, recall, fscore, support float64) {
 	type sumstype struct{ tpsum, truesum, predsum float64 }
 	type prfstype struct{ p, r, f, s float64 }
-	cm, _, _, le := internalConfusionMatrix(YTrue, YPred, sampleWeight)
+	cm, _, _, _ := internalConfusionMatrix(YTrue, YPred, sampleWeight)
 	cmmat := cm.RawMatrix()
 	NClasses := cmmat.Rows
 	sumsperclass := make([]sumstype, NClasses)
@@ -93,8 +93,8 @@ func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels
 			fscore = ((1 + beta2) * precision * recall /
 				(beta2*precision + recall))
 		}
-		if c >= 0 && c < len(le.Support[0]) {
-			support = float64(le.Support[0][c])
+		if c >= 0 {
+			support = g.truesum
 		}
 
 		return
@@ -154,7 +154,7 @@ func ConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) *mat.Dense
 func internalConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) (*mat.Dense, *mat.Dense, *mat.Dense, *preprocessing.LabelEncoder) {
 	le := preprocessing.NewLabelEncoder()
 	le.Fit(nil, YTrue)
-	//le.PartialFit(nil, YPred)
+	le.PartialFit(nil, YPred)
 	_, yt := le.Transform(nil, YTrue)
 	_, yp := le.Transform(nil, YPred)
 	//var tn, fp, fn, tp int
@@ -164,15 +164,13 @@ func internalConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) (*
 	ytmat := yt.RawMatrix()
 	ypmat := yp.RawMatrix()
 	for sample, jyt, jyp := 0, 0, 0; jyt < ytmat.Rows*ytmat.Stride; sample, jyt, jyp = sample+1, jyt+ytmat.Stride, jyp+ypmat.Stride {
-		for i := range ytmat.Data[jyt : jyt+ytmat.Cols] {
-			r, c := int(ytmat.Data[jyt+i]), int(ypmat.Data[jyp+i])
-			w := 1.
-			if sampleWeight != nil {
-				w = sampleWeight[sample]
-			}
-			// cm.Set(r, c, cm.At(r, c)+w)
-			cmmat.Data[r*cmmat.Stride+c] += w
+		r, c := int(ytmat.Data[jyt]), int(ypmat.Data[jyp])
+		w := 1.
+		if sampleWeight != nil {
+			w = sampleWeight[sample]
 		}
+		// cm.Set(r, c, cm.At(r, c)+w)
+		cmmat.Data[r*cmmat.Stride+c] += w
 	}
 	return cm, yt, yp, le
 }
-- 
2.43.0


From d449c4e1e722a61025510f24c5f5cbffd91c87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:16 +0000
Subject: [PATCH 043/136] fix: weighted average of precision, recall and
 f-score is weighted by support

---
 metrics/classification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics/classification.go b/metrics/classification.go
index 29eb5f4..9387d18 100644
--- a/metrics/classification.go
+++ b/metrics/classification.go
@@ -127,7 +127,7 @@ func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels
 			}
 		}
 
-		m := prfstype{stat.Mean(p, nil), stat.Mean(r, nil), stat.Mean(f, nil), stat.Mean(s, nil)}
+		m := prfstype{stat.Mean(p, s), stat.Mean(r, s), stat.Mean(f, s), stat.Mean(s, nil)}
 		precision, recall, fscore, support = m.p, m.r, m.f, 0
 	}
 	// for average=micro
-- 
2.43.0


From 19a92866ec093ff84a2f9e01d8bade6cbe4ce6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:16 +0000
Subject: [PATCH 044/136] fix: averageBinaryScore micro repeats each sample's
 weight for its own entries

---
 metrics/base.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metrics/base.go b/metrics/base.go
index 1c263a2..388fac8 100644
--- a/metrics/base.go
+++ b/metrics/base.go
@@ -30,8 +30,10 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 	case "micro":
 		if scoreWeight != nil {
 			tmp := make([]float64, m*n)
-			for i := 0; i < n; i++ {
-				copy(tmp[i*m:(i+1)*m], scoreWeight)
+			for j := 0; j < m; j++ {
+				for i := 0; i < n; i++ {
+					tmp[j*n+i] = scoreWeight[j]
+				}
 			}
 			scoreWeight = tmp
 		}
-- 
2.43.0


From 28b82d9fe0c24777c8ce70e1ac899d3d4db992ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:17 +0000
Subject: [PATCH 045/136] fix: averageBinaryScore samples averages over rows

---
 metrics/base.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metrics/base.go b/metrics/base.go
index 388fac8..943eee1 100644
--- a/metrics/base.go
+++ b/metrics/base.go
@@ -67,6 +67,7 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 		averageWeight = scoreWeight
 		scoreWeight = nil
 		notAverageAxis = 0
+		yt, ys = mat.DenseCopyOf(Ytrue.T()), mat.DenseCopyOf(Yscore.T())
 
 	case "macro", "":
 	default:
@@ -75,10 +76,11 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 	ytshape := [2]int{ytmat.Rows, ytmat.Cols}
 	NClasses := ytshape[notAverageAxis]
 	scores := make([]float64, NClasses)
+	rows, _ := yt.Dims()
 	for c := 0; c < NClasses; c++ {
 		scores[c] = binaryMetric(
-			yt.Slice(0, ytmat.Rows, c, c+1).(*mat.Dense),
-			ys.Slice(0, ytmat.Rows, c, c+1).(*mat.Dense),
+			yt.Slice(0, rows, c, c+1).(*mat.Dense),
+			ys.Slice(0, rows, c, c+1).(*mat.Dense),
 			scoreWeight,
 		)
 		//fmt.Printf("%s %g\n", base.MatStr(yt.Slice(0, ytmat.Rows, c, c+1), ys.Slice(0, ytmat.Rows, c, c+1)), scores[c])
-- 
2.43.0


From a32c7fc6cdae97266ef3d53852e3cf9d16f76f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:18 +0000
Subject: [PATCH 046/136] fix: mean squared and absolute errors use the weight
 of each sample

---
 metrics/regression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/regression.go b/metrics/regression.go
index a3ad59e..a412235 100644
--- a/metrics/regression.go
+++ b/metrics/regression.go
@@ -160,7 +160,7 @@ func MeanSquaredError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiout
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * (ydiff * ydiff)
 			D += w
@@ -227,7 +227,7 @@ func MeanAbsoluteError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiou
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * math.Abs(ydiff)
 			D += w
-- 
2.43.0


From b330cef95993ba5b41041efc9225ab6c33dea303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:22 +0000
Subject: [PATCH 047/136] fix: Rectangle.Split returns rectangles with their
 bounds in place

---
 neighbors/kdtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index 789091b..d689935 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -55,10 +55,10 @@ func (r *Rectangle) Split(d int, split float64) (less, greater *Rectangle) {
 	cp := copyFloatSlice
 	mid := cp(r.Maxes)
 	mid[d] = split
-	less = NewRectangle(r.Mins, mid)
+	less = NewRectangle(mid, r.Mins)
 	mid = cp(r.Mins)
 	mid[d] = split
-	greater = NewRectangle(mid, r.Maxes)
+	greater = NewRectangle(r.Maxes, mid)
 	return less, greater
 }
 
-- 
2.43.0


From 763e71fcdfe47043487c7808fe4eff1e5e9be83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:22 +0000
Subject: [PATCH 048/136] fix: Minkowski and Euclidean distances for one
 feature and for vectors with increments

---
 cluster/distance.go   | 11 ++++-------
 neighbors/distance.go | 17 +++++++----------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/cluster/distance.go b/cluster/distance.go
index 98ff7ed..e778248 100644
--- a/cluster/distance.go
+++ b/cluster/distance.go
@@ -11,17 +11,14 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
-			for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-				dp = math.Max(dp, math.Abs(braw[j]-araw[j]))
+			for araw, braw, j := rva.RawVector(), rvb.RawVector(), 0; j < araw.N; j++ {
+				dp = math.Max(dp, math.Abs(braw.Data[j*braw.Inc]-araw.Data[j*araw.Inc]))
 			}
 		} else {
 			for j := 0; j < b.Len(); j++ {
@@ -31,8 +28,8 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 		return dp
 	}
 	if isrva && isrvb {
-		for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-			dp += math.Pow(math.Abs(braw[j]-araw[j]), p)
+		for araw, braw, j := rva.RawVector(), rvb.RawVector(), 0; j < araw.N; j++ {
+			dp += math.Pow(math.Abs(braw.Data[j*braw.Inc]-araw.Data[j*araw.Inc]), p)
 		}
 	} else {
 		for j := 0; j < b.Len(); j++ {
diff --git a/neighbors/distance.go b/neighbors/distance.go
index 9353cc6..bb42ec4 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -11,17 +11,14 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
-			for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-				dp = math.Max(dp, math.Abs(braw[j]-araw[j]))
+			for araw, braw, j := rva.RawVector(), rvb.RawVector(), 0; j < araw.N; j++ {
+				dp = math.Max(dp, math.Abs(braw.Data[j*braw.Inc]-araw.Data[j*araw.Inc]))
 			}
 		} else {
 			for j := 0; j < b.Len(); j++ {
@@ -31,8 +28,8 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 		return dp
 	}
 	if isrva && isrvb {
-		for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-			dp += math.Pow(math.Abs(braw[j]-araw[j]), p)
+		for araw, braw, j := rva.RawVector(), rvb.RawVector(), 0; j < araw.N; j++ {
+			dp += math.Pow(math.Abs(braw.Data[j*braw.Inc]-araw.Data[j*araw.Inc]), p)
 		}
 	} else {
 		for j := 0; j < b.Len(); j++ {
@@ -65,9 +62,9 @@ func EuclideanDistance(a, b mat.Vector) float64 {
 	bvd, bvdok := b.(mat.RawVectorer)
 	if avdok && bvdok {
 		arv, brv, vb, d := avd.RawVector(), bvd.RawVector(), 0., 0.
-		for j, va := range arv.Data {
-			vb = brv.Data[j]
-			d = vb - va
+		for j := 0; j < arv.N; j++ {
+			vb = brv.Data[j*brv.Inc]
+			d = vb - arv.Data[j*arv.Inc]
 			d2 += d * d
 		}
 	} else {
-- 
2.43.0


From 8c3ee774ab4bfd2cf8221f5c387c764db0471a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:23 +0000
Subject: [PATCH 049/136] fix: KDTree splits cells by the extent of their
 points, so that building always ends

---
 neighbors/kdtree.go | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index d689935..e4dfae6 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -226,6 +226,14 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 	if len(idx) <= tr.LeafSize {
 		return &LeafNode{idx: idx}
 	}
+	// shrink the cell to its points
+	maxes, mins = copyFloatSlice(tr.Data.RawRowView(idx[0])), copyFloatSlice(tr.Data.RawRowView(idx[0]))
+	for _, idx1 := range idx[1:] {
+		for i, v := range tr.Data.RawRowView(idx1) {
+			maxes[i] = math.Max(maxes[i], v)
+			mins[i] = math.Min(mins[i], v)
+		}
+	}
 	var d int
 	M := math.Inf(-1)
 	for i := 0; i < len(maxes); i++ {
@@ -244,6 +252,10 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 	// # sliding midpoint rule; see Maneewongvatana and Mount 1999
 	// # for arguments that this is a good idea.
 	split := (maxval + minval) / 2.
+	if split >= maxval {
+		// adjacent floats
+		split = minval
+	}
 	lgfill := func(split float64) ([]int, []int) {
 		lessIdx, greaterIdx := make([]int, 0), make([]int, 0)
 		for _, idx1 := range idx {
@@ -257,32 +269,6 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 		return lessIdx, greaterIdx
 	}
 	lessIdx, greaterIdx := lgfill(split)
-	if len(lessIdx) == 0 {
-		M := math.Inf(1)
-		for _, i := range idx {
-			if v := tr.Data.At(i, d); v < M {
-				M = v
-			}
-		}
-		split = M
-		lessIdx, greaterIdx = lgfill(split)
-	}
-	if len(greaterIdx) == 0 {
-		M := math.Inf(-1)
-		for _, i := range idx {
-			if v := tr.Data.At(i, d); v > M {
-				M = v
-			}
-		}
-		split = M
-		lessIdx, greaterIdx = lgfill(split)
-	}
-	if len(lessIdx) == 0 {
-		// # _still_ zero? all must have the same value
-		split = tr.Data.At(idx[0], d)
-		lessIdx = _arange(len(idx) - 1)
-		greaterIdx = []int{len(idx) - 1}
-	}
 	lessmaxes := copyFloatSlice(maxes)
 	lessmaxes[d] = split
 	greatermins := copyFloatSlice(mins)
-- 
2.43.0


From 6b2e211d4258714db2376d1485da2d82293b080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:23 +0000
Subject: [PATCH 050/136] fix: KDTree.Query returns only neighbors within the
 distance bound, infinite distances for missing ones

---
 neighbors/kdtree.go       | 12 +++++++++---
 neighbors/unsupervised.go |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index e4dfae6..12e74a1 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -353,10 +353,14 @@ func (tr *KDTree) _query(X mat.Vector, k int, eps, p float64, distanceUpperBound
 
 			for _, fitSample := range idx {
 				ds := MinkowskiDistanceP(X, tr.Data.RowView(fitSample), p)
-				if ds < distanceUpperBound {
-					if len(neighbors) == k {
-						nHeappop()
+				if ds > distanceUpperBound {
+					continue
+				}
+				if len(neighbors) == k {
+					if ds == distanceUpperBound {
+						continue
 					}
+					nHeappop()
 				}
 				nHeappush(nEle{float64: -ds, int: fitSample})
 				if len(neighbors) == k {
@@ -456,6 +460,8 @@ func (tr *KDTree) _query(X mat.Vector, k int, eps, p float64, distanceUpperBound
 func (tr *KDTree) Query(X mat.Matrix, k int, eps, p, distanceUpperBound float64) (dd, ii *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
 	dd, ii = mat.NewDense(NSamples, k, nil), mat.NewDense(NSamples, k, nil)
+	dd.Apply(func(_, _ int, _ float64) float64 { return math.Inf(1) }, dd)
+	ii.Apply(func(_, _ int, _ float64) float64 { return float64(tr.Data.RawMatrix().Rows) }, ii)
 	base.Parallelize(runtime.NumCPU(), NSamples, func(th, start, end int) {
 		XRowViewer, _ := X.(mat.RowViewer)
 		var row []float64
diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index a9cda8c..f38301f 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -170,7 +170,7 @@ func (m *NearestNeighbors) RadiusNeighbors(X *mat.Dense, radius float64) (distan
 					}
 
 				}
-				m.Tree._query(X.RowView(sample), NFitSamples, 0, m.P, radius, callback)
+				m.Tree._query(X.RowView(sample), NFitSamples, 0, m.P, radius*(1+1e-9), callback)
 			}
 		})
 	}
-- 
2.43.0


From 867aeacd73d8a2f63c9d2ed1483ba106abaa45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:23 +0000
Subject: [PATCH 051/136] fix: NearestNeighbors.Fit forgets the tree of an
 earlier fit

---
 neighbors/unsupervised.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index f38301f..71d32e8 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -51,6 +51,7 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 		m.NJobs = runtime.NumCPU()
 	}
 	m.X = mat.DenseCopyOf(X)
+	m.Tree = nil
 	useKDTree := strings.Contains(strings.ToLower(m.Algorithm), "tree") || (m.Algorithm == "auto" && r*c > 1000)
 	if useKDTree {
 		if m.LeafSize <= 0 {
-- 
2.43.0


From ed677bdd3b4a1d2356fef02b7919d9157c4af4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:24 +0000
Subject: [PATCH 052/136] fix: NearestNeighbors accepts the documented l1 and
 l2 metrics

---
 neighbors/unsupervised.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 71d32e8..c94b055 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -38,10 +38,10 @@ func NewNearestNeighbors() *NearestNeighbors {
 func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	r, c := X.Dims()
 	switch m.Metric {
-	case "manhattan", "cityblock":
+	case "manhattan", "cityblock", "l1":
 		m.P = 1
 		m.Distance = MinkowskiDistance(m.P)
-	case "euclidean":
+	case "euclidean", "l2":
 		m.P = 2
 		m.Distance = MinkowskiDistance(m.P)
 	default:
-- 
2.43.0


From b2adf200b1eca64857e123e67d25ade670afc805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:24 +0000
Subject: [PATCH 053/136] fix: KNeighborsGraph distance mode sets distances at
 the neighbors' indices

---
 neighbors/unsupervised.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index c94b055..c826d2f 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -105,22 +105,19 @@ func (m *NearestNeighbors) KNeighborsGraph(X *mat.Dense, NNeighbors int, mode st
 	NSamplesFit, _ := m.X.Dims()
 	distances, indices := m.KNeighbors(X, NNeighbors)
 	graph = mat.NewDense(NSamples, NSamplesFit, nil)
-	var source *mat.Dense
-
-	switch mode {
-	case "connectivity":
-		source = indices
-	default:
-		source = distances
-	}
 	base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
 		for sample := start; sample < end; sample++ {
 			for ik := 0; ik < NNeighbors; ik++ {
-				index := int(source.At(sample, ik))
+				index := int(indices.At(sample, ik))
 				if sample == index && !includeSelf {
 					continue
 				}
-				graph.Set(sample, index, 1.)
+				switch mode {
+				case "connectivity":
+					graph.Set(sample, index, 1.)
+				default:
+					graph.Set(sample, index, distances.At(sample, ik))
+				}
 			}
 		}
 	})
-- 
2.43.0


From 70857ef9d0ca103f0c907d1faa0940355ee162a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:25 +0000
Subject: [PATCH 054/136] fix: KNeighborsClassifier keeps its own copy of the
 targets

---
 neighbors/classification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index dfa9770..49b966d 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -36,7 +36,7 @@ func NewKNeighborsClassifier(K int, Weights string) *KNeighborsClassifier {
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	m.Xscaled = mat.DenseCopyOf(X)
-	m.Y = Y
+	m.Y = mat.DenseCopyOf(Y)
 	m.nOutputs = Y.RawMatrix().Cols
 	if m.Distance == nil {
 		m.Distance = EuclideanDistance
-- 
2.43.0


From 265ee94d73d3c5e01e6ce86055b085b10f818c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:25 +0000
Subject: [PATCH 055/136] fix: KNeighborsClassifier breaks vote ties by class
 order, not map order

---
 neighbors/classification.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 49b966d..d2fe2d3 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -125,8 +125,8 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 					}
 				}
 				wmax, clwmax := 0., 0.
-				for cl, w := range classw {
-					if w > wmax {
+				for _, cl := range m.Classes[o] {
+					if w := classw[cl]; w > wmax {
 						wmax = w
 						clwmax = cl
 					}
-- 
2.43.0


From d792854f13572b2fb65385a23261bdbd16f06380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:25 +0000
Subject: [PATCH 056/136] fix: KNeighborsClassifier.PredictProba sets the share
 of absent classes to 0

---
 neighbors/classification.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index d2fe2d3..e48f5d5 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -133,9 +133,7 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 				}
 				if wantProba {
 					for icl, cl := range m.Classes[0] {
-						if clw, found := classw[cl]; found {
-							Y.Set(sample, icl, clw/sumweights)
-						}
+						Y.Set(sample, icl, classw[cl]/sumweights)
 					}
 				} else {
 					Y.Set(sample, o, clwmax)
-- 
2.43.0


From d7406391674731b7bdb7fb9f6fce219dae8643e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:26 +0000
Subject: [PATCH 057/136] fix: KNeighborsClassifier and NearestCentroid
 implement PredicterClone, IsClassifier and GetNOutputs

---
 neighbors/classification.go   |  9 +++++++++
 neighbors/nearest_centroid.go | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index e48f5d5..7818822 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -32,6 +32,15 @@ func NewKNeighborsClassifier(K int, Weights string) *KNeighborsClassifier {
 	return &KNeighborsClassifier{NearestNeighbors: *NewNearestNeighbors(), K: K, Weight: Weights}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *KNeighborsClassifier) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for KNeighborsClassifier
+func (*KNeighborsClassifier) IsClassifier() bool { return true }
+
 // Fit ...
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index e7c5aa0..d48bc20 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -30,6 +30,18 @@ func NewNearestCentroid(metric string, shrinkThreshold float64) *NearestCentroid
 	return &NearestCentroid{Metric: metric, ShrinkThreshold: shrinkThreshold}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *NearestCentroid) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for NearestCentroid
+func (*NearestCentroid) IsClassifier() bool { return true }
+
+// GetNOutputs returns output columns number for Y to pass to predict
+func (*NearestCentroid) GetNOutputs() int { return 1 }
+
 // Fit ...
 func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-- 
2.43.0


From 95db2b5d70319197aef361d6bc7c902d522bdc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:26 +0000
Subject: [PATCH 058/136] fix: NearestCentroid uses its metric and stores its
 centroids

---
 neighbors/nearest_centroid.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index d48bc20..fc4f7b9 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -27,7 +27,7 @@ type NearestCentroid struct {
 // NewNearestCentroid ...
 // if Metric is "manhattan", centroids are computed using median else mean
 func NewNearestCentroid(metric string, shrinkThreshold float64) *NearestCentroid {
-	return &NearestCentroid{Metric: metric, ShrinkThreshold: shrinkThreshold}
+	return &NearestCentroid{Metric: metric, ShrinkThreshold: shrinkThreshold, NearestNeighbors: *NewNearestNeighbors()}
 }
 
 // PredicterClone return a (possibly unfitted) copy of predicter
@@ -77,6 +77,8 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			Centroids.Set(icl, feature, centroidXfeat)
 		}
 	})
+	m.Centroids = Centroids
+	m.NearestNeighbors.Metric = m.Metric
 	m.NearestNeighbors.Fit(Centroids, mat.Matrix(nil))
 	return m
 }
-- 
2.43.0


From e3a259aa770b8dab2d29a2df9a9aaf1bf2544179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:27 +0000
Subject: [PATCH 059/136] fix: NearestCentroid sorts before taking medians

---
 neighbors/nearest_centroid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index fc4f7b9..39225d3 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -2,6 +2,7 @@ package neighbors
 
 import (
 	"runtime"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/metrics"
@@ -70,6 +71,7 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				}
 			}
 			if useMedian {
+				sort.Float64s(col[0:rows])
 				centroidXfeat = stat.Quantile(.5, stat.Empirical, col[0:rows], nil)
 			} else {
 				centroidXfeat = stat.Mean(col[0:rows], nil)
-- 
2.43.0


From 5ad86640a329a1382b1ef6c7419037a62b63c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:27 +0000
Subject: [PATCH 060/136] fix: getClasses counts follow the sorted classes

---
 neighbors/classification.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 7818822..9a113d3 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -180,9 +180,11 @@ func getClasses(Y mat.Matrix) (classes [][]float64, counts [][]int) {
 		clcounts := make([]int, 0)
 		for cl := range clmap {
 			clvalues = append(clvalues, cl)
-			clcounts = append(clcounts, clcnt[cl])
 		}
 		sort.Float64s(clvalues)
+		for _, cl := range clvalues {
+			clcounts = append(clcounts, clcnt[cl])
+		}
 		classes = append(classes, clvalues)
 		counts = append(counts, clcounts)
 	}
-- 
2.43.0


From 44682d83a167c28977e35c4b03ae900e1f59214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:44 +0000
Subject: [PATCH 061/136] fix: DBSCAN core samples have at least MinSamples
 neighbors, as documented

---
 cluster/dbscan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index bdebd83..b22f078 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -113,7 +113,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	// # A list of all core samples found.
 	isCore := make([]bool, NSamples)
 	for sample := range NNeighbors {
-		if NNeighbors[sample] > m.MinSamples {
+		if NNeighbors[sample] >= m.MinSamples {
 			isCore[sample] = true
 			m.CoreSampleIndices = append(m.CoreSampleIndices, sample)
 		}
-- 
2.43.0


From c578bab8426f8758a54bf0fde67aa18e73636f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:44 +0000
Subject: [PATCH 062/136] fix: DBSCAN.Fit forgets the core samples of an
 earlier fit

---
 cluster/dbscan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index b22f078..28b466a 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -112,6 +112,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	// # A list of all core samples found.
 	isCore := make([]bool, NSamples)
+	m.CoreSampleIndices = nil
 	for sample := range NNeighbors {
 		if NNeighbors[sample] >= m.MinSamples {
 			isCore[sample] = true
-- 
2.43.0


From 234f40bed65096c1e876b085b8a548153c45542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:45 +0000
Subject: [PATCH 063/136] fix: DBSCAN uses its Minkowski order

---
 cluster/dbscan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index 28b466a..3a0ce04 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -83,7 +83,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
 	m.NeighborsModel = neighbors.NewNearestNeighbors()
 	m.NeighborsModel.Algorithm = m.Algorithm
-	m.NeighborsModel.Distance = MinkowskiDistance(m.P)
+	m.NeighborsModel.P = m.P
 	m.NeighborsModel.Metric = m.Metric
 	m.NeighborsModel.NJobs = m.NJobs
 	m.NeighborsModel.LeafSize = m.LeafSize
-- 
2.43.0


From 2d1160df8a4adac63a9c36ee75ab2f2e95036e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:45 +0000
Subject: [PATCH 064/136] fix: KMeans centroids do not depend on the schedule
 of the workers

---
 cluster/kmeans.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/cluster/kmeans.go b/cluster/kmeans.go
index c92be35..fa0a420 100644
--- a/cluster/kmeans.go
+++ b/cluster/kmeans.go
@@ -80,18 +80,12 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		m.predict(X, NearestCentroid, CentroidCount, &changed)
 		// recompute centroids
 		m.Centroids.Sub(m.Centroids, m.Centroids)
-		var mu sync.Mutex // mu locks m.Centroids modifications
-		base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
-			row := make([]float64, NFeatures)
-			for sample := start; sample < end; sample++ {
-				ic := NearestCentroid[sample]
-				mu.Lock()
-				c := m.Centroids.RowView(ic)
-				mat.Row(row, sample, X)
-				c.(*mat.VecDense).AddScaledVec(c, 1./float64(CentroidCount[ic]), mat.NewVecDense(NFeatures, row))
-				mu.Unlock()
-			}
-		})
+		for sample := 0; sample < NSamples; sample++ {
+			ic := NearestCentroid[sample]
+			c := m.Centroids.RowView(ic)
+			mat.Row(row, sample, X)
+			c.(*mat.VecDense).AddScaledVec(c, 1./float64(CentroidCount[ic]), mat.NewVecDense(NFeatures, row))
+		}
 		if changed {
 			unchangeCount = 0
 		} else {
-- 
2.43.0


From 1ca4e4560fae4e432f9c73d14c3427825a069c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:32 +0000
Subject: [PATCH 065/136] fix: GaussianNB partial fit pools the variances with
 the previous mean

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 6869611..0c1cd68 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -358,8 +358,8 @@ func (m *GaussianNB) updateMeanVariance(nPast float64, mu, va []float64, X matfi
 	newMu, newVa, nNew := meanvar(X, sw.sw)
 	nTotal := nPast + nNew
 	for c := 0; c < xc; c++ {
-		setTotalMu(c, (nPast*mu[c]+nNew*newMu[c])/nTotal)
 		dmu := mu[c] - newMu[c]
+		setTotalMu(c, (nPast*mu[c]+nNew*newMu[c])/nTotal)
 		setTotalVar(c, (nPast*va[c]+nNew*newVa[c]+nNew*nPast/nTotal*dmu*dmu)/nTotal)
 	}
 	setClassCount(nTotal)
-- 
2.43.0


From 68bfd9c6554efb61e7c255a23e08604f4ae7b08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:32 +0000
Subject: [PATCH 066/136] fix: GaussianNB can be fitted again

---
 naive_bayes/naivebayes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 0c1cd68..19cfb1a 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -153,6 +153,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	m.Epsilon = m.VarSmoothing * floats.Max(varX)
 	if refit {
 		m.Classes = nil
+		m.Theta = nil
 	}
 	firstCall := m.Theta == nil
 	if firstCall {
-- 
2.43.0


From ba3c1c0f1d9bf309a509e6a067bbbc593f26e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:32 +0000
Subject: [PATCH 067/136] fix: GaussianNB partial fit removes the epsilon it
 had added

---
 naive_bayes/naivebayes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 19cfb1a..57f17b2 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -150,6 +150,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	_, xc := X.Dims()
 
 	_, varX, _ := meanvar(matfiltered{Matrix: X, filter: func(int) bool { return true }}, sampleWeight)
+	previousEpsilon := m.Epsilon
 	m.Epsilon = m.VarSmoothing * floats.Max(varX)
 	if refit {
 		m.Classes = nil
@@ -196,7 +197,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		}
 		//# Put epsilon back in each time
 		//self.sigma_[:, :] -= self.epsilon_
-		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - m.Epsilon }, m.Sigma)
+		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - previousEpsilon }, m.Sigma)
 	}
 	classes = m.Classes
 	uniqueY := npUnique(colAsVector(Y, 0))
-- 
2.43.0


From 191615b77a472d7e600795f4c86eceb3a8a1e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:33 +0000
Subject: [PATCH 068/136] fix: GaussianNB copies the caller's classes

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 57f17b2..6aa39de 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -158,7 +158,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	}
 	firstCall := m.Theta == nil
 	if firstCall {
-		m.Classes = classes
+		m.Classes = append([]float64{}, classes...)
 		nFeatures := xc
 		nClasses := len(m.Classes)
 		m.Theta = mat.NewDense(nClasses, nFeatures, nil)
-- 
2.43.0


From 7a1c4abb8960ca6ad7c38adb1bba5acbde9769f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:33 +0000
Subject: [PATCH 069/136] fix: GaussianNB clones are independent

---
 naive_bayes/naivebayes.go | 56 ++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 6aa39de..3c7f362 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -126,6 +126,16 @@ func (m *BaseNB) Score(X, Y mat.Matrix) float64 {
 // PredicterClone return a cloned GaussianNB as base.Predicter
 func (m *GaussianNB) PredicterClone() base.Predicter {
 	clone := *m
+	clone.Priors = append([]float64(nil), m.Priors...)
+	clone.Classes = append([]float64(nil), m.Classes...)
+	clone.ClassPrior = append([]float64(nil), m.ClassPrior...)
+	clone.ClassCount = append([]float64(nil), m.ClassCount...)
+	clone.SampleWeight = append([]float64(nil), m.SampleWeight...)
+	if m.Theta != nil {
+		clone.Theta = mat.DenseCopyOf(m.Theta)
+		clone.Sigma = mat.DenseCopyOf(m.Sigma)
+		clone.jointLogLikelihood = clone.gaussianJointLogLikelihood
+	}
 	return &clone
 }
 
@@ -236,32 +246,34 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		//self.class_prior_ = self.class_count_ / self.class_count_.sum()
 		floats.ScaleTo(m.ClassPrior, 1/floats.Sum(m.ClassCount), m.ClassCount)
 	}
-	m.jointLogLikelihood = func(jll, xrow []float64) {
-		/*
-		   joint_log_likelihood = []
-		      for i in range(np.size(self.classes_)):
-		          jointi = np.log(self.class_prior_[i])
-		          n_ij = - 0.5 * np.sum(np.log(2. * np.pi * self.sigma_[i, :]))
-		          n_ij -= 0.5 * np.sum(((X - self.theta_[i, :]) ** 2) /
-		                               (self.sigma_[i, :]), 1)
-		          joint_log_likelihood.append(jointi + n_ij)
+	m.jointLogLikelihood = m.gaussianJointLogLikelihood
+	return m
+}
 
+func (m *GaussianNB) gaussianJointLogLikelihood(jll, xrow []float64) {
+	/*
+	   joint_log_likelihood = []
+	      for i in range(np.size(self.classes_)):
+	          jointi = np.log(self.class_prior_[i])
+	          n_ij = - 0.5 * np.sum(np.log(2. * np.pi * self.sigma_[i, :]))
+	          n_ij -= 0.5 * np.sum(((X - self.theta_[i, :]) ** 2) /
+	                               (self.sigma_[i, :]), 1)
+	          joint_log_likelihood.append(jointi + n_ij)
 
-		*/
-		for i := range m.Classes {
-			jointi := math.Log(m.ClassPrior[i])
-			nij := 0.
-			sigmai := m.Sigma.RawRowView(i)
-			thetai := m.Theta.RawRowView(i)
-			for j := 0; j < len(xrow); j++ {
-				nij -= .5 * math.Log(2*math.Pi*sigmai[j])
-				xd := xrow[j] - thetai[j]
-				nij -= .5 * xd * xd / sigmai[j]
-			}
-			jll[i] = jointi + nij
+
+	*/
+	for i := range m.Classes {
+		jointi := math.Log(m.ClassPrior[i])
+		nij := 0.
+		sigmai := m.Sigma.RawRowView(i)
+		thetai := m.Theta.RawRowView(i)
+		for j := 0; j < len(xrow); j++ {
+			nij -= .5 * math.Log(2*math.Pi*sigmai[j])
+			xd := xrow[j] - thetai[j]
+			nij -= .5 * xd * xd / sigmai[j]
 		}
+		jll[i] = jointi + nij
 	}
-	return m
 }
 
 type matfiltered struct {
-- 
2.43.0


From 834d41af61561ccf94c55740ace9af87662d04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:33 +0000
Subject: [PATCH 070/136] fix: GaussianNB predictions fill an empty receiver

---
 naive_bayes/naivebayes.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 3c7f362..7d3ffd2 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -29,9 +29,9 @@ func (m *BaseNB) GetNOutputs() int {
 // Predict perform classification on an array of test vectors X
 func (m *BaseNB) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Ypred := base.ToDense(Y)
-	if Y == mat.Mutable(nil) {
+	if Ypred.IsEmpty() {
 		NSamples, _ := X.Dims()
-		Ypred = mat.NewDense(NSamples, m.GetNOutputs(), nil)
+		*Ypred = *mat.NewDense(NSamples, m.GetNOutputs(), nil)
 	}
 	//jll = self._joint_log_likelihood(X)
 	//return self.classes_[np.argmax(jll, axis=1)]
@@ -53,7 +53,7 @@ func (m *BaseNB) PredictLogProbas(Xmatrix mat.Matrix, Ymutable mat.Mutable) *mat
 	Xraw := X.RawMatrix()
 	if Y.IsEmpty() {
 		fanOut := len(m.Classes)
-		Y = mat.NewDense(Xraw.Rows, fanOut, nil)
+		*Y = *mat.NewDense(Xraw.Rows, fanOut, nil)
 	}
 
 	base.Parallelize(runtime.GOMAXPROCS(0), Xraw.Rows, func(th, start, end int) {
@@ -76,7 +76,7 @@ func (m *BaseNB) PredictProbas(Xmatrix mat.Matrix, Ymutable mat.Mutable) *mat.De
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymutable)
 	if Y.IsEmpty() {
 		fanOut := len(m.Classes)
-		Y = mat.NewDense(X.RawMatrix().Rows, fanOut, nil)
+		*Y = *mat.NewDense(X.RawMatrix().Rows, fanOut, nil)
 	}
 	m.PredictLogProbas(X, Y)
 	Y.Apply(func(_, _ int, v float64) float64 { return math.Exp(v) }, Y)
-- 
2.43.0


From 866ec74cb18abfacdefff832a113d0d9bc76ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:10 +0000
Subject: [PATCH 071/136] fix: SVC accepts steps that decrease a multiplier

---
 svm/svm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 06749b9..69e1678 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -112,7 +112,7 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				// % Clip
 				alphas[j] = math.Max(L, math.Min(H, alphas[j]))
 				// % Check if change in alpha is significant
-				if alphas[j]-alphajold < Tol {
+				if math.Abs(alphas[j]-alphajold) < Tol {
 					alphas[j] = alphajold
 					continue
 				}
-- 
2.43.0


From c95800fe1f658168b7fd91ea51830e963279201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:31 +0000
Subject: [PATCH 072/136] fix: SVC and SVR default gamma follows the data of
 each fit

---
 svm/svm.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/svm/svm.go b/svm/svm.go
index 69e1678..d915764 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -263,8 +263,9 @@ func (m *SVC) GetNOutputs() int { return m.nOutputs }
 func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func(X1, X2 []float64) float64, Tol float64, MaxPasses int, CacheSize uint, RandomState base.Source) *Model) {
 	NSamples, NFeatures := X.Dims()
 	_, Noutputs := Y.Dims()
-	if m.Gamma <= 0. {
-		m.Gamma = 1. / float64(NFeatures)
+	gamma := m.Gamma
+	if gamma <= 0. {
+		gamma = 1. / float64(NFeatures)
 	}
 	m.Model = make([]*Model, Noutputs)
 	var K func(a, b []float64) float64
@@ -276,11 +277,11 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 		case "linear":
 			K = (LinearKernel{}).Func
 		case "poly", "polynomial":
-			K = (PolynomialKernel{gamma: m.Gamma, coef0: m.Coef0, degree: m.Degree}).Func
+			K = (PolynomialKernel{gamma: gamma, coef0: m.Coef0, degree: m.Degree}).Func
 		case "sigmoid":
-			K = (SigmoidKernel{gamma: m.Gamma, coef0: m.Coef0}).Func
+			K = (SigmoidKernel{gamma: gamma, coef0: m.Coef0}).Func
 		default: //rbf
-			K = (RBFKernel{gamma: m.Gamma}).Func
+			K = (RBFKernel{gamma: gamma}).Func
 		}
 	case Kernel:
 		K = v.Func
-- 
2.43.0


From 347f3bfa5182587e7b4a835eae78f3fe36905431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:32 +0000
Subject: [PATCH 073/136] fix: SVC and SVR outputs do not share the random
 state

---
 svm/svm.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index d915764..9d5c82c 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -297,7 +297,11 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 		y := make([]float64, NSamples)
 		for output := start; output < end; output++ {
 			mat.Col(y, output, Y)
-			m.Model[output] = svmTrain(X, y, m.C, m.Epsilon, K, m.Tol, m.MaxIter, m.CacheSize, m.RandomState)
+			randomState := m.RandomState
+			if sourceCloner, ok := randomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+				randomState = sourceCloner.SourceClone()
+			}
+			m.Model[output] = svmTrain(X, y, m.C, m.Epsilon, K, m.Tol, m.MaxIter, m.CacheSize, randomState)
 			model := m.Model[output]
 			m.Support[output] = model.Support
 			m.SupportVectors[output] = make([][]float64, len(model.Support))
-- 
2.43.0


From 58fe8171f437a6f2c5b6777d695fb0963f8a0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:33 +0000
Subject: [PATCH 074/136] fix: SVC and SVR models without support vectors

---
 svm/svm.go | 10 +++++++++-
 svm/svr.go |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/svm/svm.go b/svm/svm.go
index 9d5c82c..759ee2b 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -154,7 +154,7 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 	}
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              newDense(len(idx), n),
 		Y:              make([]float64, len(idx)),
 		KernelFunction: KernelFunction,
 		B:              b,
@@ -169,6 +169,14 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 	return model
 }
 
+// newDense is mat.NewDense, and an empty matrix without rows
+func newDense(r, c int) *mat.Dense {
+	if r == 0 {
+		return &mat.Dense{}
+	}
+	return mat.NewDense(r, c, nil)
+}
+
 // %svmPredict returns a vector of predictions using a trained SVM model
 // %(svmTrain).
 // %   pred = SVMPREDICT(model, X) returns a vector of predictions using a
diff --git a/svm/svr.go b/svm/svr.go
index 780f841..df60e48 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -177,7 +177,7 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 	}
 
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              newDense(len(idx), n),
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
-- 
2.43.0


From 90a7d19a7c0ea6eb60b97f38e0dadad33fb67974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:41 +0000
Subject: [PATCH 075/136] fix: loss gradients sum over the rows of the batch

---
 linear_model/loss.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 5b197a8..638b6ab 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -45,9 +45,10 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 			grad.Mul(X.T(), Ydiff) //<- for identity only
 
 		} else {
+			nRows, _ := Ypred.Dims()
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i := 0; i < nRows; i++ {
 					h := Ypred.At(i, o)
 					g += Ydiff.At(i, o) * X.At(i, j) * activation.Fprime(h)
 				}
@@ -91,9 +92,10 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 	}, Ypred)
 	//grad.Mul(X.T(), Ydiff)
 	if grad != nil {
+		nRows, _ := Ypred.Dims()
 		grad.Apply(func(j, o int, theta float64) float64 {
 			g := 0.
-			for i := 0; i < nSamples; i++ {
+			for i := 0; i < nRows; i++ {
 				h := Ypred.At(i, o)
 				g += -Ytrue.At(i, o) * activation.Fprime(h) / h
 			}
@@ -147,10 +149,10 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 		if _, ok := activation.(base.Logistic); ok {
 			grad.Mul(X.T(), Ydiff)
 		} else {
-			// // for Logistic activation only
+			nRows, _ := Ypred.Dims()
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i := 0; i < nRows; i++ {
 					h := Ypred.At(i, o)
 					y := Ytrue.At(i, o)
 					hprime := activation.Fprime(h)
-- 
2.43.0


From a370925cb632836633f34a33825464e186d50100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:42 +0000
Subject: [PATCH 076/136] fix: cross-entropy and log loss gradients are with
 respect to theta

---
 linear_model/loss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 638b6ab..d36d9e0 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -97,7 +97,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 			g := 0.
 			for i := 0; i < nRows; i++ {
 				h := Ypred.At(i, o)
-				g += -Ytrue.At(i, o) * activation.Fprime(h) / h
+				g += -Ytrue.At(i, o) * X.At(i, j) * activation.Fprime(h) / h
 			}
 			return g
 		}, Theta)
@@ -155,7 +155,7 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 				for i := 0; i < nRows; i++ {
 					h := Ypred.At(i, o)
 					y := Ytrue.At(i, o)
-					hprime := activation.Fprime(h)
+					hprime := activation.Fprime(h) * X.At(i, j)
 					if y == 1. {
 						g += -y * hprime / h
 					} else if y == 0. {
-- 
2.43.0


From e7860f94883beeacf63abcf3c8d06ce76380007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:42 +0000
Subject: [PATCH 077/136] fix: the regularization gradient is the derivative of
 the regularization

---
 linear_model/loss.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index d36d9e0..4afc4e5 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -57,7 +57,8 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 		}
 	}
 	if Alpha > 0. {
-		J += regularization(Theta, grad, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
+		// J is halved below, grad is not
+		J += regularization(Theta, grad, .5, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
 	}
 	J /= 2. * float64(nSamples)
 	if grad != nil {
@@ -105,7 +106,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 
 	// add regularization to cost and grad
 	if Alpha > 0. {
-		J += regularization(Theta, grad, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
+		J += regularization(Theta, grad, 1., Alpha, L1Ratio, disableRegularizationOfFirstFeature)
 	}
 	J /= float64(nSamples)
 	if grad != nil {
@@ -248,7 +249,8 @@ func panicIfNaN(v float64) float64 {
 	return v
 }
 
-func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio float64, disableRegularizationOfFirstFeature bool) float64 {
+// regularization returns the penalty and adds gradFactor times its derivative to grad
+func regularization(Theta, grad *mat.Dense, gradFactor, Alpha, L1Ratio float64, disableRegularizationOfFirstFeature bool) float64 {
 	JRegul := 0.
 	// add regularization to cost and grad
 	if Alpha > 0. {
@@ -279,11 +281,11 @@ func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio float64, disableRegul
 				for o := 0; o < NOutputs; o++ {
 					g := grad.At(j, o)
 					t := Theta.At(j, o)
-					if L1Ratio > 0. {
-						g += L1Ratio * t / featureL1
+					if L1Ratio > 0. && featureL1 > 0. {
+						g += gradFactor * Alpha * L1Ratio * t / featureL1
 					}
 					if L1Ratio < 1. {
-						g += (1. - L1Ratio) * t
+						g += gradFactor * Alpha * 2. * (1. - L1Ratio) * t
 					}
 					grad.Set(j, o, g)
 				}
-- 
2.43.0


From e04f60f896557a7db5e78b15faffadbe66c06deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:11 +0000
Subject: [PATCH 078/136] fix: linear models keep a constant feature finite
 when normalizing

---
 linear_model/Base.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 83e981d..5d7f199 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -625,7 +625,9 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 			scale := 1.
 			if FitIntercept && Normalize {
 				scale = mat.Norm(Xout.ColView(feature), 2)
-				if scale != 0. {
+				if scale == 0. {
+					scale = 1.
+				} else {
 					for jXout := 0; jXout < Xoutmat.Rows*Xoutmat.Stride; jXout = jXout + Xoutmat.Stride {
 						Xoutmat.Data[jXout+feature] /= scale
 					}
-- 
2.43.0


From 1ac0c928f0902d8d4120efc66feff49eaa739b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:12 +0000
Subject: [PATCH 079/136] fix: PreprocessData leaves X as it is without
 intercept

---
 linear_model/Base.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 5d7f199..0f0cc2f 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -601,7 +601,7 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 	for i := range XScalemat.Data[0:XScalemat.Cols] {
 		XScalemat.Data[i] = 1
 	}
-	if !FitIntercept && !Normalize {
+	if !FitIntercept {
 		Xout, Yout = X, Y
 		return
 	}
@@ -612,18 +612,13 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 	base.Parallelize(-1, Xmat.Cols, func(th, start, end int) {
 		for feature := start; feature < end; feature++ {
 			xcol := X.ColView(feature)
-			mean := 0.
-			if FitIntercept {
-				mean = mat.Sum(xcol) / float64(Xmat.Rows)
+			mean := mat.Sum(xcol) / float64(Xmat.Rows)
 
-				for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {
-					Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature] - mean
-				}
-			} else {
-				Xout.Copy(X)
+			for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {
+				Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature] - mean
 			}
 			scale := 1.
-			if FitIntercept && Normalize {
+			if Normalize {
 				scale = mat.Norm(Xout.ColView(feature), 2)
 				if scale == 0. {
 					scale = 1.
-- 
2.43.0


From e9ce0d81b286982869e8da2beeb8458fe3921c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:12 +0000
Subject: [PATCH 080/136] fix: a linear model's fit sets a new intercept

---
 linear_model/Base.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 0f0cc2f..0375f62 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -558,9 +558,7 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 
 func (regr *LinearModel) setIntercept(XOffset, YOffset, XScale mat.Matrix) {
 	_, nOutputs := regr.Coef.Dims()
-	if regr.Intercept == nil {
-		regr.Intercept = mat.NewDense(1, nOutputs, nil)
-	}
+	regr.Intercept = mat.NewDense(1, nOutputs, nil)
 
 	regr.Coef.Apply(func(j, o int, coef float64) float64 { return coef / XScale.At(0, j) }, regr.Coef)
 	if regr.FitIntercept {
-- 
2.43.0


From f06ceb816bcafbccb4f8b5064865bfe1418b3d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:13 +0000
Subject: [PATCH 081/136] fix: SGDRegressor's gradient is the derivative of its
 loss

---
 linear_model/Base.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 0375f62..74475a8 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -215,14 +215,14 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			if grad == nil {
 				grad = make([]float64, len(coef))
 			}
-			// X dot Ydiff+ alpha*l1ratio*sign+alpha*(1-l1ratio)*coef
+			// (X dot Ydiff+ alpha*l1ratio/2*sign(coef)+alpha*(1-l1ratio)*coef)/nSamples
 			tmp := mat.NewDense(nSamples, 1, nil)
 			regr.Coef.SetCol(o, coef)
 			tmp.Mul(X, regr.Coef.ColView(o)) // X dot coef
 			tmp.Sub(tmp, Y.ColView(o))       // Ydiff
 			gradmat := mat.NewDense(nFeatures, 1, nil)
 			gradmat.Mul(X.T(), tmp) // X dot Ydiff
-			al1 := regr.Alpha * regr.L1Ratio / float(nSamples)
+			al1 := regr.Alpha * regr.L1Ratio / 2. / float(nSamples)
 			al2 := regr.Alpha * (1. - regr.L1Ratio) / float(nSamples)
 			sgn := func(x float) float {
 				if x < 0. {
@@ -233,8 +233,8 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				}
 				return 0.
 			}
-			gradmat.Apply(func(j int, o int, gradj float64) float64 {
-				grad[j] = gradj + al1*sgn(gradj) + al2*gradj
+			gradmat.Apply(func(j int, _ int, gradj float64) float64 {
+				grad[j] = gradj/float(nSamples) + al1*sgn(coef[j]) + al2*coef[j]
 				return grad[j]
 			}, gradmat)
 		}
-- 
2.43.0


From dc0350aafaba2576f90c55b0676fa24643e66fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:13 +0000
Subject: [PATCH 082/136] fix: BayesianRidge estimates its precisions from the
 effective degrees of freedom and the squared residual

---
 linear_model/bayes.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 87522b6..8384f3c 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -138,18 +138,12 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		diff.Sub(diff, Y)
 
 		rmse := mat.Norm(diff, 2)
+		rmse *= rmse
 
 		// gamma = (np.sum((alpha * eigenVals) /(lambda + alpha*eigenVals)))
 		gamma := 0.
-		{
-			var left, right []float
-			copy(left, eigenVals)
-
-			floats.Scale(alpha, left)
-			copy(right, left)
-			floats.AddConst(lambda, right)
-			floats.Div(left, right)
-			gamma = floats.Sum(left)
+		for _, evi := range eigenVals {
+			gamma += alpha * evi / (lambda + alpha*evi)
 		}
 		//lambda = ((gamma + 2*lambda1) /(np.sum(coef**2) + 2*lambda2))
 		coef2.MulElem(coef, coef)
-- 
2.43.0


From 39d7ab3bf1cd4dd95148db39f4598483301038c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:14 +0000
Subject: [PATCH 083/136] fix: BayesianRidge.Predict2 returns the standard
 deviation

---
 linear_model/bayes.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 8384f3c..cb0d773 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -246,13 +246,14 @@ func (regr *BayesianRidge) Predict2(X, Y, yStd *mat.Dense) {
 	sigmasSquaredData.Apply(func(i int, _ int, _ float64) float64 {
 		v := 0.
 		for j := 0; j < nFeatures; j++ {
-			x := Xn.At(i, j)
-			v += x * regr.Sigma.At(0, j) * x
+			for k := 0; k < nFeatures; k++ {
+				v += Xn.At(i, j) * regr.Sigma.At(j, k) * Xn.At(i, k)
+			}
 		}
 		return v
 	}, sigmasSquaredData)
 	*yStd = *mat.NewDense(nSamples, 1, nil)
 	yStd.Apply(func(i int, j int, sigmasSquaredData float64) float64 {
-		return sigmasSquaredData + 1./regr.Alpha
+		return math.Sqrt(sigmasSquaredData + 1./regr.Alpha)
 	}, sigmasSquaredData)
 }
-- 
2.43.0


From ed86c1cd9dfdf5c8a0d1dc8d055f4f1357c590de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:44 +0000
Subject: [PATCH 084/136] fix: coordinate descent reports at most MaxIter
 iterations

---
 linear_model/cdfast.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/linear_model/cdfast.go b/linear_model/cdfast.go
index bc90623..caa18cb 100644
--- a/linear_model/cdfast.go
+++ b/linear_model/cdfast.go
@@ -154,7 +154,10 @@ func enetCoordinateDescent(w *mat.VecDense, alpha, beta float64, X *mat.Dense, Y
 		}
 
 	}
-	return &CDResult{Gap: gap, Eps: tol, NIter: nIter + 1}
+	if nIter < maxIter {
+		nIter++
+	}
+	return &CDResult{Gap: gap, Eps: tol, NIter: nIter}
 }
 
 func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.Dense, Y *mat.Dense, maxIter int, tol float64, rng *rand.Rand, random, positive bool) *CDResult {
@@ -329,5 +332,8 @@ func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.D
 		}
 
 	}
-	return &CDResult{Gap: gap, Eps: tol, NIter: nIter + 1}
+	if nIter < maxIter {
+		nIter++
+	}
+	return &CDResult{Gap: gap, Eps: tol, NIter: nIter}
 }
-- 
2.43.0


From 8192c168ee7995147d6b7ca311edc97a341193ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:45 +0000
Subject: [PATCH 085/136] fix: multi-output coordinate descent honours the
 positive option

---
 linear_model/cdfast.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/linear_model/cdfast.go b/linear_model/cdfast.go
index caa18cb..375a58c 100644
--- a/linear_model/cdfast.go
+++ b/linear_model/cdfast.go
@@ -230,6 +230,11 @@ func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.D
 			// # tmp = np.dot(X[:, ii][None, :], R).ravel()
 			tmp.MulVec(R.T(), X.ColView(ii))
 
+			if positive {
+				for o := 0; o < NTasks; o++ {
+					tmp.SetVec(o, math.Max(tmp.AtVec(o), 0))
+				}
+			}
 			// # nn = sqrt(np.sum(tmp ** 2))
 			nn = mat.Norm(tmp, 2)
 			// # W[:, ii] = tmp * fmax(1. - l1_reg / nn, 0) / (norm_cols_X[ii] + l2_reg)
@@ -289,6 +294,9 @@ func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.D
 			for jXtA, jW := 0, 0; jXtA < XtAmat.Rows*XtAmat.Stride; jXtA, jW = jXtA+XtAmat.Stride, jW+Wmat.Stride {
 				for i := range XtAmat.Data[jXtA : jXtA+XtAmat.Cols] {
 					XtAmat.Data[jXtA+i] -= l2reg * Wmat.Data[jW+i]
+					if positive {
+						XtAmat.Data[jXtA+i] = math.Max(XtAmat.Data[jXtA+i], 0)
+					}
 				}
 			}
 
-- 
2.43.0


From ae236c3e04a5a2e88979483e38731aba4d88acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:45 +0000
Subject: [PATCH 086/136] fix: elastic net warm start needs a fitted model and
 keeps clones independent

---
 linear_model/coordinatedescent.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index 37d1257..95e4cd2 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -60,9 +60,13 @@ func (regr *ElasticNet) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 
 	l1reg := regr.Alpha * regr.L1Ratio * float64(NSamples)
 	l2reg := regr.Alpha * (1. - regr.L1Ratio) * float64(NSamples)
-	if !regr.WarmStart {
-		regr.Coef = mat.NewDense(NFeatures, NOutputs, nil)
+	coef := mat.NewDense(NFeatures, NOutputs, nil)
+	if regr.WarmStart && regr.Coef != nil {
+		if r, c := regr.Coef.Dims(); r == NFeatures && c == NOutputs {
+			coef.Copy(regr.Coef)
+		}
 	}
+	regr.Coef = coef
 	random := strings.EqualFold("random", regr.Selection)
 	if NOutputs == 1 {
 		y := &mat.VecDense{}
-- 
2.43.0


From 755987ba7a330ae44463238d6e0fedfd85ba1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:46 +0000
Subject: [PATCH 087/136] fix: EnetPath computes the given alphas, all of them
 and no other

---
 linear_model/coordinatedescent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index 95e4cd2..4181c3d 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -145,7 +145,7 @@ func EnetPath(X, Y *mat.Dense, L1Ratio, eps float64, NAlphas int, Alphas *[]floa
 	if Alphas == nil {
 		alphaGrid(X, Y, L1Ratio, eps, alphas)
 	} else {
-		copy(alphas, *Alphas)
+		alphas = append([]float64{}, *Alphas...)
 	}
 	NAlphas = len(alphas)
 	coefs = make([]*mat.Dense, NAlphas)
-- 
2.43.0


From b5a2554cd6da25b6dca6f45a51ce557797ae7681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:20 +0000
Subject: [PATCH 088/136] fix: linear models do not normalize a feature whose
 spread is only rounding error

---
 linear_model/Base.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 74475a8..f90114d 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -618,7 +618,8 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 			scale := 1.
 			if Normalize {
 				scale = mat.Norm(Xout.ColView(feature), 2)
-				if scale == 0. {
+				// a constant feature's mean may be off by a few ulps
+				if scale <= 10.*float64(Xmat.Rows)*2.220446049250313e-16*math.Abs(mean) {
 					scale = 1.
 				} else {
 					for jXout := 0; jXout < Xoutmat.Rows*Xoutmat.Stride; jXout = jXout + Xoutmat.Stride {
-- 
2.43.0


From aa4aeef6277e0c19ef763169b76be0a70d3853bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:21 +0000
Subject: [PATCH 089/136] fix: coordinate descent drops a warm-started
 coefficient of a null feature

---
 linear_model/cdfast.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/linear_model/cdfast.go b/linear_model/cdfast.go
index 375a58c..d6e9083 100644
--- a/linear_model/cdfast.go
+++ b/linear_model/cdfast.go
@@ -76,6 +76,7 @@ func enetCoordinateDescent(w *mat.VecDense, alpha, beta float64, X *mat.Dense, Y
 				ii = fIter
 			}
 			if normColsX[ii] == 0. {
+				w.SetVec(ii, 0)
 				continue
 			}
 			// # w_ii = W[:, ii] # Store previous value
@@ -214,6 +215,9 @@ func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.D
 				ii = fIter
 			}
 			if normColsX[ii] == 0. {
+				for o := 0; o < NTasks; o++ {
+					w.Set(ii, o, 0)
+				}
 				continue
 			}
 			// # w_ii = W[:, ii] # Store previous value
-- 
2.43.0


From 79e59fc8ed00dddfca49aaaa3335b617389ca843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:15 +0000
Subject: [PATCH 090/136] fix: interpolators keep their own copy of the points

---
 interpolate/cubic.go       | 11 ++++-------
 interpolate/interpolate.go | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/interpolate/cubic.go b/interpolate/cubic.go
index b1a0364..57711ee 100644
--- a/interpolate/cubic.go
+++ b/interpolate/cubic.go
@@ -51,13 +51,10 @@ func CubicSpline(xs, ys []float64) func(x float64) float64 {
 
 	}
 
-	var both *xy
-	if sort.Float64sAreSorted(xs) {
-		both = &xy{xs, ys}
-	} else {
-		both = &xy{make([]float64, len(xs)), make([]float64, len(xs))}
-		copy(both.x, xs)
-		copy(both.y, ys)
+	both := &xy{make([]float64, len(xs)), make([]float64, len(xs))}
+	copy(both.x, xs)
+	copy(both.y, ys)
+	if !sort.Float64sAreSorted(both.x) {
 		sort.Sort(both)
 	}
 
diff --git a/interpolate/interpolate.go b/interpolate/interpolate.go
index 42c073d..c48eb6c 100644
--- a/interpolate/interpolate.go
+++ b/interpolate/interpolate.go
@@ -32,13 +32,10 @@ func Interp1d(x, y []float64) func(x float64) float64 {
 		panic(fmt.Errorf("interp1d lenx:%d leny:%d", len(x), len(y)))
 	}
 
-	var both *xy
-	if sort.Float64sAreSorted(x) {
-		both = &xy{x, y}
-	} else {
-		both = &xy{make([]float64, len(x)), make([]float64, len(x))}
-		copy(both.x, x)
-		copy(both.y, y)
+	both := &xy{make([]float64, len(x)), make([]float64, len(x))}
+	copy(both.x, x)
+	copy(both.y, y)
+	if !sort.Float64sAreSorted(both.x) {
 		sort.Sort(both)
 	}
 	return func(x float64) float64 {
-- 
2.43.0


From f00a068cc0eb527aea4e53aa6bab9dfccdc795b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:15 +0000
Subject: [PATCH 091/136] fix: Interp2d extrapolates above the largest x like
 below the smallest

---
 interpolate/interpolate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolate/interpolate.go b/interpolate/interpolate.go
index c48eb6c..1f18f15 100644
--- a/interpolate/interpolate.go
+++ b/interpolate/interpolate.go
@@ -81,7 +81,7 @@ func Interp2d(x, y, z []float64) func(x, y float64) float64 {
 		l := len(xsorted)
 		ix2 := l - 1
 		for i := range xsorted {
-			if xsorted[i] > xsorted[ix0] && xsorted[i] <= x && xsorted[i] <= xsorted[ix2] {
+			if xsorted[i] > xsorted[ix0] && xsorted[i] <= x && xsorted[i] < xsorted[ix2] && xsorted[i] < xsorted[l-1] {
 				ix0 = i
 			}
 			if xsorted[l-1-i] <= xsorted[ix2] && xsorted[l-1-i] >= x && xsorted[l-1-i] > xsorted[ix0] {
-- 
2.43.0


From d4cc5042f0bba8fd8eb476d513cbd79aed766584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:49 +0000
Subject: [PATCH 092/136] fix: WhiteKernel.CloneWithTheta sets theta on the
 clone

---
 gaussian_process/kernels/kernels.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 9302e93..2887f20 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -436,7 +436,7 @@ func (k WhiteKernel) Bounds() mat.Matrix {
 // CloneWithTheta ...
 func (k WhiteKernel) CloneWithTheta(theta mat.Matrix) Kernel {
 	clone := k
-	matCopy(k.Theta().(mat.Mutable), theta)
+	matCopy(clone.Theta().(mat.Mutable), theta)
 	return &clone
 }
 
-- 
2.43.0


From 78636c060d87fc9c3c9d05f3d5ea71e1b5b588fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:49 +0000
Subject: [PATCH 093/136] fix: kernel CloneWithTheta(nil) is a plain clone

---
 gaussian_process/kernels/matutil.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gaussian_process/kernels/matutil.go b/gaussian_process/kernels/matutil.go
index 6147008..42e4e11 100644
--- a/gaussian_process/kernels/matutil.go
+++ b/gaussian_process/kernels/matutil.go
@@ -49,6 +49,9 @@ func (m matFromFunc) T() mat.Matrix {
 }
 
 func matCopy(dst mat.Mutable, src mat.Matrix) {
+	if src == mat.Matrix(nil) {
+		return
+	}
 	r, c := src.Dims()
 	for i := 0; i < r; i++ {
 		for j := 0; j < c; j++ {
-- 
2.43.0


From 75be2428caf06b2f1387abc63a7262b038c0ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:50 +0000
Subject: [PATCH 094/136] fix: composed kernels clone with operands that have
 no free hyper-parameter

---
 gaussian_process/kernels/kernels.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 2887f20..c0693cb 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -2,7 +2,6 @@ package kernels
 
 import (
 	"fmt"
-	"github.com/pa-m/sklearn/base"
 	"math"
 
 	"gonum.org/v1/gonum/floats"
@@ -126,12 +125,14 @@ func (k KernelOperator) CloneWithTheta(theta mat.Matrix) Kernel {
 	if theta == mat.Matrix(nil) {
 		return KernelOperator{K1: k.K1.CloneWithTheta(nil), K2: k.K2.CloneWithTheta(nil)}
 	}
-	var td = base.ToDense(theta)
 	n1, _ := k.K1.Theta().Dims()
 	n2, _ := k.K2.Theta().Dims()
+	part := func(start, n int) mat.Matrix {
+		return matFromFunc{r: n, c: 1, at: func(i, j int) float64 { return theta.At(start+i, j) }}
+	}
 	return KernelOperator{
-		K1: k.K1.CloneWithTheta(td.Slice(0, n1, 0, 1)),
-		K2: k.K2.CloneWithTheta(td.Slice(n1, n1+n2, 0, 1)),
+		K1: k.K1.CloneWithTheta(part(0, n1)),
+		K2: k.K2.CloneWithTheta(part(n1, n2)),
 	}
 }
 
-- 
2.43.0


From 00acb1e998839345e888371a8968529a5a21c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:50 +0000
Subject: [PATCH 095/136] fix: Exponentiation hyper-parameters are its
 kernel's, and its clone keeps the exponent

---
 gaussian_process/kernels/kernels.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index c0693cb..0206159 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -282,7 +282,7 @@ type Exponentiation struct {
 
 // hyperparameters ...
 func (k Exponentiation) hyperparameters() hyperparameters {
-	hps := k.hyperparameters()
+	hps := k.Kernel.hyperparameters()
 	params := make(hyperparameters, len(hps))
 	for i, p := range hps {
 		p.Name = "kernel_" + p.Name
@@ -291,6 +291,11 @@ func (k Exponentiation) hyperparameters() hyperparameters {
 	return params
 }
 
+// CloneWithTheta ...
+func (k Exponentiation) CloneWithTheta(theta mat.Matrix) Kernel {
+	return &Exponentiation{Kernel: k.Kernel.CloneWithTheta(theta), Exponent: k.Exponent}
+}
+
 // Eval return the kernel k(X, Y) and optionally its gradient
 func (k *Exponentiation) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K, Kg := k.Kernel.Eval(X, Y, evalGradient)
-- 
2.43.0


From d0767e1bb0481307e952e2538629ed6e0bad8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:51 +0000
Subject: [PATCH 096/136] fix: Exponentiation gradient uses the base kernel's
 values

---
 gaussian_process/kernels/kernels.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 0206159..16dd606 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -299,16 +299,17 @@ func (k Exponentiation) CloneWithTheta(theta mat.Matrix) Kernel {
 // Eval return the kernel k(X, Y) and optionally its gradient
 func (k *Exponentiation) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K, Kg := k.Kernel.Eval(X, Y, evalGradient)
-	K.Apply(func(_, _ int, v float64) float64 {
-		return math.Pow(v, k.Exponent)
-	}, K)
 	if evalGradient {
 		Kdata := K.RawMatrix().Data
 		Kgdata := Kg.Data().([]float64)
+		nparams := Kg.Shape()[2]
 		for i := range Kgdata {
-			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i], k.Exponent-1)
+			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i/nparams], k.Exponent-1)
 		}
 	}
+	K.Apply(func(_, _ int, v float64) float64 {
+		return math.Pow(v, k.Exponent)
+	}, K)
 	return K, Kg
 }
 
-- 
2.43.0


From 48def28222303bb12d734b636a3e22d7f0f4ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:51 +0000
Subject: [PATCH 097/136] fix: WhiteKernel gradient covers equal rows off the
 diagonal

---
 gaussian_process/kernels/kernels.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 16dd606..4c290c8 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -474,13 +474,7 @@ func (k *WhiteKernel) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.D
 			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 0})
 		} else {
 			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 1}, t.WithBacking(make([]float64, nx*nx)))
-			it := Kg.Iterator()
-			Kgdata := Kg.Data().([]float64)
-			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				if i%(nx+1) == 0 {
-					Kgdata[i] = k.NoiseLevel
-				}
-			}
+			copy(Kg.Data().([]float64), K.RawMatrix().Data)
 		}
 	}
 	return K, Kg
-- 
2.43.0


From c469c45240b1f07235859de09cabce008fd46d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:51 +0000
Subject: [PATCH 098/136] fix: RBF without bounds has fixed length scales

---
 gaussian_process/kernels/kernels.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 4c290c8..3e08603 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -517,8 +517,10 @@ type RBF struct {
 func (k *RBF) hyperparameters() hyperparameters {
 	params := make(hyperparameters, len(k.LengthScale))
 	for i := range k.LengthScale {
-		params[i] = hyperparameter{Name: fmt.Sprintf("length_scale_%d", i), PValue: &k.LengthScale[i], PBounds: &k.LengthScaleBounds[i]}
-
+		params[i] = hyperparameter{Name: fmt.Sprintf("length_scale_%d", i), PValue: &k.LengthScale[i]}
+		if i < len(k.LengthScaleBounds) {
+			params[i].PBounds = &k.LengthScaleBounds[i]
+		}
 	}
 	return params
 }
-- 
2.43.0


From 988cd4ff2c50f4370a56d0801e8c660211865e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:52 +0000
Subject: [PATCH 099/136] fix: anisotropic RBF gradient has one slice per free
 length scale

---
 gaussian_process/kernels/kernels.go | 41 ++++++++++++++---------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 3e08603..38703ac 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -585,28 +585,27 @@ func (k *RBF) Eval(X, Y mat.Matrix, evalGradient bool) (K *mat.Dense, Kg *t.Dens
 		}
 	}
 	if evalGradient && Y == X {
-		if k.hyperparameters()[0].IsFixed() {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 0}, t.WithBacking(nil))
-		} else {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 1}, t.WithBacking(make([]float64, nx*nx)))
-			it := Kg.Iterator()
-			Kgdata := Kg.Data().([]float64)
-			Kdata := K.RawMatrix().Data
-			xr, xc, xd := mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil)
-			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				r, c := i/nx, i%nx
-				mat.Row(xr.RawVector().Data, r, X)
-				mat.Row(xc.RawVector().Data, c, X)
-				xd.SubVec(xr, xc)
-				switch len(k.LengthScale) {
-				case 1:
-					xd.ScaleVec(1/k.LengthScale[0], xd)
-				case nfeat:
-					xd.DivElemVec(xd, mat.NewVecDense(nfeat, k.LengthScale))
-				default:
-					panic("dim error")
+		var free []int
+		for i, p := range k.hyperparameters() {
+			if !p.IsFixed() {
+				free = append(free, i)
+			}
+		}
+		Kg = t.NewDense(t.Float64, t.Shape{nx, nx, len(free)})
+		Kgdata := Kg.Data().([]float64)
+		Kdata := K.RawMatrix().Data
+		for i := range Kdata {
+			mat.Row(Xrow, i/nx, X)
+			mat.Row(Yrow, i%nx, X)
+			for ifree, param := range free {
+				var d2 float64
+				for feat := 0; feat < nfeat; feat++ {
+					if len(k.LengthScale) == 1 || feat == param {
+						d := scale(Xrow, feat) - scale(Yrow, feat)
+						d2 += d * d
+					}
 				}
-				Kgdata[i] = Kdata[i] * mat.Dot(xd, xd)
+				Kgdata[i*len(free)+ifree] = Kdata[i] * d2
 			}
 		}
 	}
-- 
2.43.0


From a4708ce4e9dbe9daa6f5a229eb762f4e624499a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:50 +0000
Subject: [PATCH 100/136] fix: FromDense sizes an empty receiver

---
 base/matrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/matrix.go b/base/matrix.go
index eb6b8b1..c01a9d6 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -220,6 +220,9 @@ func FromDense(dst mat.Mutable, dense *mat.Dense) *mat.Dense {
 		return dense
 	}
 	src := dense.RawMatrix()
+	if d, ok := dst.(*mat.Dense); ok && d.IsEmpty() {
+		d.ReuseAs(src.Rows, src.Cols)
+	}
 	if rawmatrixer, ok := dst.(mat.RawMatrixer); ok {
 		dstmat := rawmatrixer.RawMatrix()
 		if &dstmat.Data[0] == &src.Data[0] {
-- 
2.43.0


From ec0bb08bf6945165fb9d97d6033479fb6e74d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:50 +0000
Subject: [PATCH 101/136] fix: Gaussian process regressor predicts from the
 posterior after Fit

---
 gaussian_process/gpr.go | 104 +++++++++++++++++++++++++++++-----------
 1 file changed, 76 insertions(+), 28 deletions(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index d540063..0e88386 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -28,6 +28,8 @@ type Regressor struct {
 	KernelOpt                  kernels.Kernel
 	L                          *mat.Cholesky
 	LogMarginalLikelihoodValue float64
+	// dual coefficients (K+alpha*I)^-1 * (Y-YtrainMean)
+	dual *mat.Dense
 }
 
 // NewRegressor ...
@@ -54,11 +56,19 @@ func (m *Regressor) PredicterClone() base.Predicter {
 
 		clone.Ytrain = mat.DenseCopyOf(m.Ytrain)
 	}
+	clone.Alpha = append([]float64{}, m.Alpha...)
+	if m.YtrainMean != nil {
+		clone.YtrainMean = mat.DenseCopyOf(m.YtrainMean)
+	}
+	if m.dual != nil {
+		clone.dual = mat.DenseCopyOf(m.dual)
+	}
 	clone.Kernel = m.Kernel.CloneWithTheta(m.Kernel.Theta())
 	if m.KernelOpt != kernels.Kernel(nil) {
 		clone.KernelOpt = m.KernelOpt.CloneWithTheta(m.KernelOpt.Theta())
 	}
 	if m.L != nil {
+		clone.L = &mat.Cholesky{}
 		clone.L.Clone(m.L)
 	}
 	return &clone
@@ -74,25 +84,59 @@ func (m *Regressor) GetNOutputs() int {
 
 // Fit Gaussian process regression model
 func (m *Regressor) Fit(X, Y mat.Matrix) base.Fiter {
-	_, ry := Y.Dims()
+	ry, cy := Y.Dims()
 	m.Xtrain = mat.DenseCopyOf(X)
 	m.Ytrain = mat.DenseCopyOf(Y)
 	if len(m.Alpha) != 1 && len(m.Alpha) != ry {
 		panic(fmt.Errorf("alpha must be a scalar or an array with same number of entries as y.(%d != %d)", len(m.Alpha), ry))
 	}
+	m.YtrainMean = mat.NewDense(1, cy, nil)
+	if m.NormalizeY {
+		for j := 0; j < cy; j++ {
+			mean := mat.Sum(m.Ytrain.ColView(j)) / float64(ry)
+			m.YtrainMean.Set(0, j, mean)
+			for i := 0; i < ry; i++ {
+				m.Ytrain.Set(i, j, m.Ytrain.At(i, j)-mean)
+			}
+		}
+	}
+	m.KernelOpt = m.Kernel.CloneWithTheta(m.Kernel.Theta())
+	K, _ := m.KernelOpt.Eval(m.Xtrain, nil, false)
+	m.L = &mat.Cholesky{}
+	if !m.L.Factorize(m.addAlpha(K)) {
+		panic(fmt.Errorf("the kernel %s is not returning a positive definite matrix, try increasing Alpha", m.KernelOpt))
+	}
+	m.dual = &mat.Dense{}
+	if err := m.L.SolveTo(m.dual, m.Ytrain); err != nil {
+		if _, ok := err.(mat.Condition); !ok {
+			panic(err)
+		}
+	}
+	m.LogMarginalLikelihoodValue, _ = m.LogMarginalLikelihood(m.KernelOpt.Theta(), false)
 	return m
 }
 
+// addAlpha adds m.Alpha to the diagonal of K and returns it as a symmetric matrix sharing its data
+func (m *Regressor) addAlpha(K *mat.Dense) *mat.SymDense {
+	Kraw := K.RawMatrix()
+	for i := 0; i < Kraw.Rows; i++ {
+		alpha := m.Alpha[0]
+		if len(m.Alpha) > 1 {
+			alpha = m.Alpha[i]
+		}
+		Kraw.Data[i*Kraw.Stride+i] += alpha
+	}
+	Ksym := &mat.SymDense{}
+	Ksym.SetRawSymmetric(blas64.Symmetric{Uplo: blas.Upper, N: Kraw.Rows, Stride: Kraw.Stride, Data: Kraw.Data})
+	return Ksym
+}
+
 // PredictEx predicts using the Gaussian process regression model, returning Ymean and std or cov
 func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov bool) (*mat.Dense, *mat.DiagDense, *mat.Dense) {
 	NSamples, _ := X.Dims()
 	var Ymean, Ycov *mat.Dense
 	var Ystd *mat.DiagDense
-	if _, ok := Y.(*mat.Dense); ok {
-		Ymean = Y.(*mat.Dense)
-	} else {
-		Ymean = mat.NewDense(NSamples, m.GetNOutputs(), nil)
-	}
+	Ymean = mat.NewDense(NSamples, m.GetNOutputs(), nil)
 	if m.Xtrain == nil {
 		// # Unfitted;predict based on GP prior
 		// y_mean = np.zeros(X.shape[0])
@@ -111,13 +155,28 @@ func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov
 		//y_mean = K_trans.dot(self.alpha_)  # Line 4 (y_mean = f_star)
 		//y_mean = self._y_train_mean + y_mean  # undo normal.
 
-		Ktrans, _ := m.Kernel.Eval(X, m.Xtrain, false)
-		Ymean.Mul(Ktrans, mat.NewDense(NSamples, 1, m.Alpha))
-		Ymean.Add(Ymean, m.YtrainMean)
-		if returnStd {
-			// TODO
-		} else if returnCov {
-			// TODO
+		Ktrans, _ := m.KernelOpt.Eval(X, m.Xtrain, false)
+		Ymean.Mul(Ktrans, m.dual)
+		Ymean.Apply(func(_, j int, v float64) float64 { return v + m.YtrainMean.At(0, j) }, Ymean)
+		if returnStd || returnCov {
+			v := &mat.Dense{}
+			if err := m.L.SolveTo(v, Ktrans.T()); err != nil {
+				if _, ok := err.(mat.Condition); !ok {
+					panic(err)
+				}
+			}
+			if returnCov {
+				Ycov, _ = m.KernelOpt.Eval(X, nil, false)
+				reduce := &mat.Dense{}
+				reduce.Mul(Ktrans, v)
+				Ycov.Sub(Ycov, reduce)
+			} else {
+				Ystd = m.KernelOpt.Diag(X)
+				for i := 0; i < NSamples; i++ {
+					variance := Ystd.At(i, i) - mat.Dot(Ktrans.RowView(i), v.ColView(i))
+					Ystd.SetDiag(i, math.Sqrt(math.Max(0, variance)))
+				}
+			}
 		}
 	}
 	return base.FromDense(Y, Ymean), Ystd, Ycov
@@ -126,12 +185,11 @@ func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov
 // Predict using the Gaussian process regression model
 func (m *Regressor) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Ymean, _, _ := m.PredictEx(X, Y, false, false)
-	return base.FromDense(Y, Ymean)
+	return Ymean
 }
 
 // Score returns R2 score
 func (m *Regressor) Score(X, Y mat.Matrix) float64 {
-	m.Fit(X, Y)
 	pred := m.Predict(X, nil)
 	return metrics.R2Score(Y, pred, nil, "").At(0, 0)
 }
@@ -154,18 +212,8 @@ func (m *Regressor) LogMarginalLikelihood(Theta mat.Matrix, evalGradient bool) (
 	K, Kg = kernel.Eval(m.Xtrain, nil, evalGradient)
 
 	// add m.Alpha to K diagonal
-	Kraw := K.RawMatrix()
-	Kdata := Kraw.Data
-	alphainc := 1
-	if len(m.Alpha) == 1 {
-		alphainc = 0
-	}
 	nx, _ := m.Xtrain.Dims()
-	for i := 0; i < nx; i++ {
-		Kdata[i*(nx+1)] += m.Alpha[i*alphainc]
-	}
-	Ksym := &mat.SymDense{}
-	Ksym.SetRawSymmetric(blas64.Symmetric{Uplo: blas.Upper, N: Kraw.Rows, Stride: Kraw.Stride, Data: Kraw.Data})
+	Ksym := m.addAlpha(K)
 	cho := &mat.Cholesky{}
 
 	posdef := cho.Factorize(Ksym)
@@ -184,7 +232,7 @@ func (m *Regressor) LogMarginalLikelihood(Theta mat.Matrix, evalGradient bool) (
 	alpha := &mat.Dense{}
 	err := cho.SolveTo(alpha, m.Ytrain)
 
-	if err != nil {
+	if _, ok := err.(mat.Condition); err != nil && !ok {
 		panic(err)
 	}
 	// log_likelihood_dims = -0.5 * np.einsum("ik,ik->k", y_train, alpha)
@@ -221,7 +269,7 @@ func (m *Regressor) LogMarginalLikelihood(Theta mat.Matrix, evalGradient bool) (
 		// log_likelihood_gradient = log_likelihood_gradient_dims.sum(-1)
 		choSolved := &mat.Dense{}
 		err = cho.SolveTo(choSolved, eye(nx))
-		if err != nil {
+		if _, ok := err.(mat.Condition); err != nil && !ok {
 			panic(err)
 		}
 		ni, nk := alpha.Dims()
-- 
2.43.0


From bd114e5fa9ba6614c80eddd754a7e6674914fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:50 +0000
Subject: [PATCH 102/136] fix: log marginal likelihood gradient of a kernel
 without free hyper-parameter is empty

---
 gaussian_process/gpr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 0e88386..ece1eab 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -258,7 +258,7 @@ func (m *Regressor) LogMarginalLikelihood(Theta mat.Matrix, evalGradient bool) (
 	// log_likelihood = log_likelihood_dims.sum(-1)  # sum over dimensions
 	lml = mat.Sum(lldims)
 	//if eval_gradient:  # compare Equation 5.9 from GPML
-	if evalGradient {
+	if evalGradient && thetarows > 0 {
 		// tmp = np.einsum("ik,jk->ijk", alpha, alpha)  # k: output-dimension
 		// tmp -= cho_solve((L, True), np.eye(K.shape[0]))[:, :, np.newaxis]
 		// # Compute "0.5 * trace(tmp.dot(K_gradient))" without
-- 
2.43.0


From 6b7203ad89ddd694ec51f036ae92f064dff0b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:34 +0000
Subject: [PATCH 103/136] fix: MatRowSlice writes the row it denotes and
 rejects rows outside it

---
 base/matrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/matrix.go b/base/matrix.go
index c01a9d6..0ae0b4c 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -61,7 +61,7 @@ func (m MatRowSlice) Dims() (int, int) { _, c := m.Matrix.Dims(); return m.End -
 
 // At for MatRowSlice
 func (m MatRowSlice) At(i, j int) float64 {
-	if i < 0 || i > m.End-m.Start {
+	if i < 0 || i >= m.End-m.Start {
 		panic("indexing error")
 	}
 	return m.Matrix.At(i+m.Start, j)
@@ -69,8 +69,11 @@ func (m MatRowSlice) At(i, j int) float64 {
 
 // Set for MatRowSlice
 func (m MatRowSlice) Set(i, j int, v float64) {
+	if i < 0 || i >= m.End-m.Start {
+		panic("indexing error")
+	}
 	if Mutable, ok := m.Matrix.(mat.Mutable); ok {
-		Mutable.Set(i-m.Start, j, v)
+		Mutable.Set(i+m.Start, j, v)
 	} else {
 		panic("underling Matrix is not Mutable")
 	}
-- 
2.43.0


From fb10f559e3b125c99108f8926f8670ad546edc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:35 +0000
Subject: [PATCH 104/136] fix: MatOnesPrepended presents the prepended column
 of ones

---
 base/matrix.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/base/matrix.go b/base/matrix.go
index 0ae0b4c..beb4fae 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -50,6 +50,32 @@ func (m MatTranspose) T() mat.Matrix { return m.Matrix }
 // MatOnesPrepended is a matrix override representing its initializer with an initial column of ones added
 type MatOnesPrepended struct{ mat.Matrix }
 
+// Dims for MatOnesPrepended
+func (m MatOnesPrepended) Dims() (int, int) { r, c := m.Matrix.Dims(); return r, c + 1 }
+
+// At for MatOnesPrepended
+func (m MatOnesPrepended) At(i, j int) float64 {
+	if j == 0 {
+		if r, _ := m.Matrix.Dims(); i < 0 || i >= r {
+			panic("indexing error")
+		}
+		return 1
+	}
+	return m.Matrix.At(i, j-1)
+}
+
+// Set for MatOnesPrepended. The column of ones can't be set
+func (m MatOnesPrepended) Set(i, j int, v float64) {
+	if Mutable, ok := m.Matrix.(mat.Mutable); ok && j > 0 {
+		Mutable.Set(i, j-1, v)
+	} else {
+		panic("underling Matrix is not Mutable")
+	}
+}
+
+// T for MatOnesPrepended
+func (m MatOnesPrepended) T() mat.Matrix { return MatTranspose{m} }
+
 // MatRowSlice is a matrix row chunk
 type MatRowSlice struct {
 	mat.Matrix
-- 
2.43.0


From 07a897d0e33234dec0ceeeaee6fb1f05dd60a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:36 +0000
Subject: [PATCH 105/136] fix: row slices of a view do not reach past its last
 cell

---
 base/matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/matrix.go b/base/matrix.go
index beb4fae..3d092bc 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -206,7 +206,7 @@ func MatGeneralRowSlice(M blas64.General, i, k int) blas64.General {
 		Rows:   k - i,
 		Cols:   M.Cols,
 		Stride: M.Stride,
-		Data:   M.Data[i*M.Stride : k*M.Stride],
+		Data:   M.Data[i*M.Stride : (k-1)*M.Stride+M.Cols],
 	}
 }
 
-- 
2.43.0


From b16e6bc4aaea2b5fe3e390b1adc05c13c9b711e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:12 +0000
Subject: [PATCH 106/136] fix: LoadOctaveBin reads across the underlying
 reader's chunks

---
 datasets/octave.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datasets/octave.go b/datasets/octave.go
index 57b53be..faa59e3 100644
--- a/datasets/octave.go
+++ b/datasets/octave.go
@@ -25,7 +25,7 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 	}
 	read := func(f *PosReader, n int) ([]byte, error) {
 		b := make([]byte, n)
-		nread, err := f.Reader.Read(b)
+		nread, err := io.ReadFull(f.Reader, b)
 		if err != nil {
 			return b, err
 		}
-- 
2.43.0


From 5257d3151e8c02288a6b1d40d0e5bd46cf2c137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:13 +0000
Subject: [PATCH 107/136] fix: loadCsv reads each output from its own column

---
 datasets/base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datasets/base.go b/datasets/base.go
index 11003b7..93bcab6 100644
--- a/datasets/base.go
+++ b/datasets/base.go
@@ -142,7 +142,7 @@ func loadCsv(filepath string, setupReader func(*csv.Reader), nOutputs int) (X, Y
 	X.Apply(func(i, j int, _ float64) float64 { x, err := strconv.ParseFloat(cells[i][j], 64); check(err); return x }, X)
 	Y = mat.NewDense(nSamples, nOutputs, nil)
 	Y.Apply(func(i, o int, _ float64) float64 {
-		y, err := strconv.ParseFloat(cells[i][nFeatures], 64)
+		y, err := strconv.ParseFloat(cells[i][nFeatures+o], 64)
 		check(err)
 		return y
 	}, Y)
-- 
2.43.0


From 18c4fbbba58fe13c03bc158ed34ae4080df5e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:13 +0000
Subject: [PATCH 108/136] fix: MakeBlobs draws everything from its RandomState,
 without race, and leaves its config

---
 datasets/samples_generator.go | 37 ++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index ed296dd..6692dea 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -2,16 +2,13 @@ package datasets
 
 import (
 	"math"
-	"runtime"
 	"sort"
 
 	"golang.org/x/exp/rand"
 
 	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/preprocessing"
-	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/gonum/mat"
-	"gonum.org/v1/gonum/stat/distmv"
 )
 
 // MakeRegression Generate a random regression problem
@@ -120,6 +117,10 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 	if config == nil {
 		config = &MakeBlobsConfig{}
 	}
+	{
+		configCopy := *config
+		config = &configCopy
+	}
 	if config.NSamples <= 0 {
 		config.NSamples = 100
 	}
@@ -133,6 +134,7 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 		Centers = mat.NewDense(c, config.NFeatures, nil)
 	case mat.Matrix:
 		Centers = mat.DenseCopyOf(c)
+		_, config.NFeatures = Centers.Dims()
 		randomizeCenters = false
 	default:
 		Centers = mat.NewDense(3, config.NFeatures, nil)
@@ -148,6 +150,8 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 	randNormFloat64 := rand.NormFloat64
 	randIntn := rand.Intn
 	if config.RandomState != nil {
+		rnd := rand.New(config.RandomState)
+		randNormFloat64, randIntn = rnd.NormFloat64, rnd.Intn
 		if normFloat64er, ok := config.RandomState.(base.NormFloat64er); ok {
 			randNormFloat64 = normFloat64er.NormFloat64
 		}
@@ -173,25 +177,18 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 
 	X = mat.NewDense(config.NSamples, config.NFeatures, nil)
 	Y = mat.NewDense(config.NSamples, 1, nil)
-	base.Parallelize(runtime.NumCPU(), config.NSamples, func(th, start, end int) {
-		mu := make([]float64, config.NFeatures)
-		sigma := mat.NewSymDense(config.NFeatures, nil)
-
-		for i := 0; i < config.NFeatures; i++ {
-			sigma.SetSym(i, i, 1)
+	for sample := 0; sample < config.NSamples; sample++ {
+		cluster := randIntn(NCenters)
+		Y.Set(sample, 0, float64(cluster))
+		row := X.RawRowView(sample)
+		for feat := range row {
+			row[feat] = Centers.At(cluster, feat) + config.ClusterStd*randNormFloat64()
 		}
-		sigma.ScaleSym(config.ClusterStd*config.ClusterStd, sigma)
-		normal, _ := distmv.NewNormal(mu, sigma, nil)
-		_ = normal
-		for sample := start; sample < end; sample++ {
-			cluster := randIntn(NCenters)
-			Y.Set(sample, 0, float64(cluster))
-			normal.Rand(X.RawRowView(sample))
-			floats.Add(X.RawRowView(sample), Centers.RawRowView(cluster))
-		}
-	})
+	}
 	if config.Shuffle {
-		X, Y = preprocessing.NewShuffler().FitTransform(X, Y)
+		shuffler := preprocessing.NewShuffler()
+		shuffler.RandomState = config.RandomState
+		X, Y = shuffler.FitTransform(X, Y)
 	}
 	return
 }
-- 
2.43.0


From 9d94e635def4db0ef475c74105b4acb68199e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:33 +0000
Subject: [PATCH 109/136] fix: LogisticRegression refit with 0/1 labels kept
 the previous label binarizer

---
 linear_model/logistic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index ddeda9e..2aff042 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -271,6 +271,7 @@ func (m *LogisticRegression) initialize(yCols int, layerUnits []int, isMultiClas
 	// # Initialize parameters
 	m.NIter = 0
 	m.t = 0
+	m.LossCurve = nil
 	m.NOutputs = yCols
 
 	//# Compute the number of layers
@@ -345,6 +346,7 @@ func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
 		xb = mat.DenseCopyOf(X)
 		yb = mat.DenseCopyOf(Y)
 	}
+	m.lb = nil
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
 		xbin, ybin := m.lb.FitTransform(X, Y)
-- 
2.43.0


From d0434879881502a56a090e8bf023c4023e500524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:34 +0000
Subject: [PATCH 110/136] fix: LogisticRegression.Fit failed when only one of
 X, Y was a dense matrix

---
 linear_model/logistic.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 2aff042..f8ddc63 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -337,15 +337,7 @@ func (m *LogisticRegression) IsClassifier() bool {
 
 // Fit compute Coef and Intercept
 func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
-	var xb, yb *mat.Dense
-	if xg, ok := X.(*mat.Dense); ok {
-		if yg, ok := Y.(*mat.Dense); ok {
-			xb, yb = xg, yg
-		}
-	} else {
-		xb = mat.DenseCopyOf(X)
-		yb = mat.DenseCopyOf(Y)
-	}
+	xb, yb := base.ToDense(X), base.ToDense(Y)
 	m.lb = nil
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
-- 
2.43.0


From 0690113ddc48a786ec28cb578ed8d01c8d3f5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:34 +0000
Subject: [PATCH 111/136] fix: LogisticRegression gradient used the stride of Y
 for all matrices

---
 linear_model/logistic.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index f8ddc63..549bab4 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -251,9 +251,9 @@ func (m *LogisticRegression) backprop(X, y blas64.General, activations []blas64.
 	{
 		H := activations[len(activations)-1]
 		D := deltas
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[r*D.Stride+o] = H.Data[r*H.Stride+o] - y.Data[r*y.Stride+o]
 			}
 		}
 	}
-- 
2.43.0


From d1ce5e6484d454110d5391d7fe0efbf244877427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:35 +0000
Subject: [PATCH 112/136] fix: LogisticRegression kept the last evaluated point
 instead of the minimizer, and panicked when the line search could not
 progress

---
 linear_model/logistic.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 549bab4..297e38c 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -435,10 +435,15 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		m.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	// keep the minimizer, which may not be the last evaluated point
+	copy(m.packedParameters, res.X)
+	m.Loss = res.F
+	if err != nil {
+		log.Printf("lbfgs optimizer: %v\n", err)
+	} else if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
 }
-- 
2.43.0


From a71a04d113d18a962dbb74e502c9df2c28481679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:36 +0000
Subject: [PATCH 113/136] fix: LogisticRegression softmax overflowed for large
 decision values

---
 linear_model/logistic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 297e38c..7379a98 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -81,9 +81,10 @@ var logregActivation = map[string]func(z blas64.General){
 	"softmax": func(z blas64.General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float64(0)
+			zmax := floats.Max(z.Data[zpos : zpos+z.Cols])
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = math.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = math.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
-- 
2.43.0


From 4183ba7394d615f329a58fc344ed7f7bcc0b40b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 114/136] fix: MLP tanh activation computed tanh(-z), whose
 derivative has the other sign

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index bcdbc41..a0a23b3 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -88,7 +88,7 @@ var Activations32 = map[string]func(z blas32General){
 	"tanh": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M32.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index d50f893..bc64be9 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -88,7 +88,7 @@ var Activations64 = map[string]func(z blas64General){
 	"tanh": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M64.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
-- 
2.43.0


From 2d8ea29ff73e9349c594d13c2dc0c5587eb1d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:50 +0000
Subject: [PATCH 115/136] fix: MLP softmax overflowed for large decision values

---
 neural_network/basemlp32.go | 3 ++-
 neural_network/basemlp64.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a0a23b3..cba9b3e 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -104,9 +104,10 @@ var Activations32 = map[string]func(z blas32General){
 	"softmax": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float32(0)
+			zmax := z.Data[zpos+MaxIdx32(z.Data[zpos:zpos+z.Cols])]
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index bc64be9..0c20c17 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -104,9 +104,10 @@ var Activations64 = map[string]func(z blas64General){
 	"softmax": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float64(0)
+			zmax := z.Data[zpos+MaxIdx64(z.Data[zpos:zpos+z.Cols])]
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
-- 
2.43.0


From 6248a9cb9f0edad4dc00326de0c302bd4f0f6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:50 +0000
Subject: [PATCH 116/136] fix: MLP gradient used the stride of Y for all
 matrices

---
 neural_network/basemlp32.go | 6 +++---
 neural_network/basemlp64.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index cba9b3e..da04960 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -375,9 +375,9 @@ func (mlp *BaseMultilayerPerceptron32) backprop(X, y blas32General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[r*D.Stride+o] = H.Data[r*H.Stride+o] - y.Data[r*y.Stride+o]
 			}
 		}
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 0c20c17..72e3080 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -375,9 +375,9 @@ func (mlp *BaseMultilayerPerceptron64) backprop(X, y blas64General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[r*D.Stride+o] = H.Data[r*H.Stride+o] - y.Data[r*y.Stride+o]
 			}
 		}
 	}
-- 
2.43.0


From 766e47a9683240d618bbb1b7342477801e28c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:52 +0000
Subject: [PATCH 117/136] fix: MLP lbfgs kept the last evaluated point instead
 of the minimizer, and panicked when the line search could not progress

---
 neural_network/basemlp32.go | 11 +++++++++--
 neural_network/basemlp64.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index da04960..1e43531 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -720,10 +720,17 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	// keep the minimizer, which may not be the last evaluated point
+	for i := range res.X {
+		mlp.packedParameters[i] = float32(res.X[i])
+	}
+	mlp.Loss = float32(res.F)
+	if err != nil {
+		log.Printf("lbfgs optimizer: %v\n", err)
+	} else if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 72e3080..d92fed8 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -720,10 +720,17 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	// keep the minimizer, which may not be the last evaluated point
+	for i := range res.X {
+		mlp.packedParameters[i] = float64(res.X[i])
+	}
+	mlp.Loss = float64(res.F)
+	if err != nil {
+		log.Printf("lbfgs optimizer: %v\n", err)
+	} else if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
 }
-- 
2.43.0


From 7b69f7c0b219f5ea663beda24ca2bea88fd866f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:52 +0000
Subject: [PATCH 118/136] fix: MLP fit overwrote the BatchSize setting

---
 neural_network/basemlp32.go | 28 ++++++++++++++--------------
 neural_network/basemlp64.go | 28 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 1e43531..e63edfc 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -514,17 +514,18 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 
 	//    # lbfgs does not support mini-batches
+	batchSize := mlp.BatchSize
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -534,16 +535,16 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float32, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -566,7 +567,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	} else {
 		// # Run the Stochastic optimization solver
 		mlp.fitStochastic(X, y, activations, deltas, CoefsGrads,
-			InterceptsGrads, packedGrads, layerUnits, incremental)
+			InterceptsGrads, packedGrads, layerUnits, batchSize, incremental)
 	}
 	mlp.packedGrads = packedGrads
 }
@@ -736,7 +737,7 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 }
 
 func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activations, deltas, coefGrads []blas32General,
-	interceptGrads [][]float32, packedGrads []float32, layerUnits []int, incremental bool) {
+	interceptGrads [][]float32, packedGrads []float32, layerUnits []int, batchSize int, incremental bool) {
 	if !incremental || mlp.optimizer == Optimizer32(nil) {
 		params := mlp.packedParameters
 		switch mlp.Solver {
@@ -771,7 +772,6 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer32.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index d92fed8..840ecbd 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -514,17 +514,18 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 
 	//    # lbfgs does not support mini-batches
+	batchSize := mlp.BatchSize
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -534,16 +535,16 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float64, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -566,7 +567,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	} else {
 		// # Run the Stochastic optimization solver
 		mlp.fitStochastic(X, y, activations, deltas, CoefsGrads,
-			InterceptsGrads, packedGrads, layerUnits, incremental)
+			InterceptsGrads, packedGrads, layerUnits, batchSize, incremental)
 	}
 	mlp.packedGrads = packedGrads
 }
@@ -736,7 +737,7 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 }
 
 func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activations, deltas, coefGrads []blas64General,
-	interceptGrads [][]float64, packedGrads []float64, layerUnits []int, incremental bool) {
+	interceptGrads [][]float64, packedGrads []float64, layerUnits []int, batchSize int, incremental bool) {
 	if !incremental || mlp.optimizer == Optimizer64(nil) {
 		params := mlp.packedParameters
 		switch mlp.Solver {
@@ -771,7 +772,6 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer64.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
-- 
2.43.0


From 3091e41a1bc7b131cb28be44cfc82e4ea5b97c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:31 +0000
Subject: [PATCH 119/136] fix: refitting an MLP kept the loss record, stopping
 counters and label binarizer of the previous fit

---
 neural_network/basemlp32.go | 5 +++++
 neural_network/basemlp64.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index e63edfc..563de6e 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -480,7 +480,11 @@ func (mlp *BaseMultilayerPerceptron32) initialize(yCols int, layerUnits []int, i
 		}
 	}
 
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
+	mlp.BestValidationScore = M32.Inf(-1)
 	mlp.BestLoss = M32.Inf(1)
+	mlp.NoImprovementCount = 0
 }
 
 func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool) {
@@ -593,6 +597,7 @@ func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized32(yb) {
 		mlp.lb = NewLabelBinarizer32(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General32(xb), General32(yb))
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 840ecbd..3e30073 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -480,7 +480,11 @@ func (mlp *BaseMultilayerPerceptron64) initialize(yCols int, layerUnits []int, i
 		}
 	}
 
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
+	mlp.BestValidationScore = M64.Inf(-1)
 	mlp.BestLoss = M64.Inf(1)
+	mlp.NoImprovementCount = 0
 }
 
 func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool) {
@@ -593,6 +597,7 @@ func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized64(yb) {
 		mlp.lb = NewLabelBinarizer64(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General64(xb), General64(yb))
-- 
2.43.0


From a5614e295351ea985d7d5114d8ed6afcbde2c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:31 +0000
Subject: [PATCH 120/136] fix: MLP with WarmStart could not be fitted a first
 time

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 563de6e..e7af128 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -505,7 +505,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	if mlp.RandomState == nil {
 		mlp.RandomState = rand.New(base.NewLockedSource(uint64(time.Now().UnixNano())))
 	}
-	if !mlp.WarmStart && !incremental {
+	if mlp.NLayers == 0 || !mlp.WarmStart && !incremental {
 		//# First time training the model
 		var isClassifier, isMulticlass = true, y.Cols > 1
 		for _, yval := range y.Data {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 3e30073..9136977 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -505,7 +505,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	if mlp.RandomState == nil {
 		mlp.RandomState = rand.New(base.NewLockedSource(uint64(time.Now().UnixNano())))
 	}
-	if !mlp.WarmStart && !incremental {
+	if mlp.NLayers == 0 || !mlp.WarmStart && !incremental {
 		//# First time training the model
 		var isClassifier, isMulticlass = true, y.Cols > 1
 		for _, yval := range y.Data {
-- 
2.43.0


From 012fcfd02fa5691180ee0db2d3cf33aa731edaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:32 +0000
Subject: [PATCH 121/136] fix: MLPRegressor trained as a classifier when all
 targets were 0 or 1

---
 neural_network/basemlp32.go             | 8 +-------
 neural_network/basemlp64.go             | 8 +-------
 neural_network/multilayer_perceptron.go | 1 +
 3 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index e7af128..311ddf6 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -507,13 +507,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 	if mlp.NLayers == 0 || !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		isClassifier, isMulticlass := mlp.IsClassifier() && isBinarized32(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 9136977..ea78cb2 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -507,13 +507,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 	if mlp.NLayers == 0 || !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		isClassifier, isMulticlass := mlp.IsClassifier() && isBinarized64(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 436735f..558178b 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -45,6 +45,7 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 // Fit ...
 func (mlp *MLPRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
+	mlp.LossFuncName = "square_loss"
 	mlp.fit(X.RawMatrix(), Y.RawMatrix(), false)
 	return mlp
 }
-- 
2.43.0


From 8c9010d0d65d64cb828094825e0974e43e3a1624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:33 +0000
Subject: [PATCH 122/136] fix: MLP shuffled the rows of the caller's matrices
 while training

---
 neural_network/basemlp32.go | 25 ++++++++-----------------
 neural_network/basemlp64.go | 25 ++++++++-----------------
 neural_network/general.go   |  8 ++------
 3 files changed, 18 insertions(+), 40 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 311ddf6..41fbcf1 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -496,6 +496,13 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 		}
 	}
 	X, y = mlp.validateInput(X, y, incremental)
+	if mlp.Shuffle {
+		// rows are swapped during training
+		var Xcopy, ycopy General32
+		Xcopy.Copy(General32(X))
+		ycopy.Copy(General32(y))
+		X, y = Xcopy.RawMatrix(), ycopy.RawMatrix()
+	}
 	nSamples, nFeatures := X.Rows, X.Cols
 
 	mlp.NOutputs = y.Cols
@@ -577,20 +584,7 @@ func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
-	var xb, yb blas32.General
-	if xg, ok := X.(RawMatrixer32); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
-	} else {
-		var tmp General32
-		tmp = General32(xb)
-		tmp.Copy(X)
-		xb = tmp.RawMatrix()
-		tmp = General32(yb)
-		tmp.Copy(Y)
-		yb = tmp.RawMatrix()
-	}
+	xb, yb := ToDense32(X).RawMatrix(), ToDense32(Y).RawMatrix()
 	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized32(yb) {
 		mlp.lb = NewLabelBinarizer32(0, 1)
@@ -858,9 +852,6 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		// # restore best weights
 		copy(mlp.packedParameters, mlp.bestParameters)
 	}
-	if mlp.Shuffle {
-		sort.Sort(indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)})
-	}
 }
 
 func (mlp *BaseMultilayerPerceptron32) updateNoImprovementCount(earlyStopping bool, XVal, yVal blas32General) {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index ea78cb2..ae3791b 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -496,6 +496,13 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 		}
 	}
 	X, y = mlp.validateInput(X, y, incremental)
+	if mlp.Shuffle {
+		// rows are swapped during training
+		var Xcopy, ycopy General64
+		Xcopy.Copy(General64(X))
+		ycopy.Copy(General64(y))
+		X, y = Xcopy.RawMatrix(), ycopy.RawMatrix()
+	}
 	nSamples, nFeatures := X.Rows, X.Cols
 
 	mlp.NOutputs = y.Cols
@@ -577,20 +584,7 @@ func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
-	var xb, yb blas64.General
-	if xg, ok := X.(RawMatrixer64); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
-	} else {
-		var tmp General64
-		tmp = General64(xb)
-		tmp.Copy(X)
-		xb = tmp.RawMatrix()
-		tmp = General64(yb)
-		tmp.Copy(Y)
-		yb = tmp.RawMatrix()
-	}
+	xb, yb := ToDense64(X).RawMatrix(), ToDense64(Y).RawMatrix()
 	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized64(yb) {
 		mlp.lb = NewLabelBinarizer64(0, 1)
@@ -858,9 +852,6 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		// # restore best weights
 		copy(mlp.packedParameters, mlp.bestParameters)
 	}
-	if mlp.Shuffle {
-		sort.Sort(indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)})
-	}
 }
 
 func (mlp *BaseMultilayerPerceptron64) updateNoImprovementCount(earlyStopping bool, XVal, yVal blas64General) {
diff --git a/neural_network/general.go b/neural_network/general.go
index 849345d..4df572c 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -258,9 +258,7 @@ func (mat *General32) Copy(a Matrix) {
 	} else {
 		*mat = General32{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(*General32); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer32); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
@@ -284,9 +282,7 @@ func (mat *General64) Copy(a Matrix) {
 	} else {
 		*mat = General64{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(General64); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer64); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
-- 
2.43.0


From 67c10f913e37d13f1a4e3d8cb9b4cf9bc00bb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:34 +0000
Subject: [PATCH 123/136] fix: MLP early stopping trained on its validation
 rows, scored encoded labels as classes and averaged the loss over rows not
 trained on

---
 neural_network/basemlp32.go | 29 +++++++++++++++++------------
 neural_network/basemlp64.go | 29 +++++++++++++++++------------
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 41fbcf1..f8cb486 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -757,14 +757,6 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 	var XVal, yVal blas32General
 	nSamples := X.Rows
 	testSize := 0
-	if earlyStopping {
-		testSize = int(M32.Ceil(mlp.ValidationFraction * float32(nSamples)))
-		XVal = blas32General(General32(X).RowSlice(nSamples-testSize, nSamples))
-		yVal = blas32General(General32(y).RowSlice(nSamples-testSize, nSamples))
-		mlp.bestParameters = make([]float32, len(mlp.packedParameters))
-		// if isClassifier(self):
-		// 	yVal = self.LabelBinarizer32.inverseTransform(yVal)
-	}
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
@@ -779,6 +771,17 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 	} else {
 		rndShuffle = rand.New(mlp.RandomState).Shuffle
 	}
+	if earlyStopping {
+		testSize = int(M32.Ceil(mlp.ValidationFraction * float32(nSamples)))
+		if mlp.Shuffle {
+			rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
+		}
+		XVal = blas32General(General32(X).RowSlice(nSamples-testSize, nSamples))
+		yVal = blas32General(General32(y).RowSlice(nSamples-testSize, nSamples))
+		mlp.bestParameters = make([]float32, len(mlp.packedParameters))
+		// if isClassifier(self):
+		// 	yVal = self.LabelBinarizer32.inverseTransform(yVal)
+	}
 	func() {
 		if r := recover(); r != nil {
 			// ...
@@ -786,7 +789,7 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		}
 		for it := 0; it < mlp.MaxIter; it++ {
 			if mlp.Shuffle {
-				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
+				rndShuffle(nSamples-testSize, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float32(0.0)
 			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
@@ -810,7 +813,7 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 				mlp.optimizer.updateParams(packedGrads)
 			}
 			mlp.NIter++
-			mlp.Loss = accumulatedLoss / float32(nSamples)
+			mlp.Loss = accumulatedLoss / float32(nSamples-testSize)
 
 			mlp.t += nSamples
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
@@ -931,10 +934,12 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 }
 
 func (mlp *BaseMultilayerPerceptron32) score(X, Y blas32General) float32 {
-	H := blas32General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float32, len(Y.Data))}
-	mlp.predict(X, H)
+	// Y is already binarized
+	H := blas32General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Cols, Data: make([]float32, Y.Rows*Y.Cols)}
+	mlp.predictProbas(X, H)
 	if mlp.LossFuncName != "square_loss" {
 		// accuracy
+		toLogits32(H)
 		return accuracyScore32(Y, H)
 	}
 	// R2Score
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index ae3791b..1f0c385 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -757,14 +757,6 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 	var XVal, yVal blas64General
 	nSamples := X.Rows
 	testSize := 0
-	if earlyStopping {
-		testSize = int(M64.Ceil(mlp.ValidationFraction * float64(nSamples)))
-		XVal = blas64General(General64(X).RowSlice(nSamples-testSize, nSamples))
-		yVal = blas64General(General64(y).RowSlice(nSamples-testSize, nSamples))
-		mlp.bestParameters = make([]float64, len(mlp.packedParameters))
-		// if isClassifier(self):
-		// 	yVal = self.LabelBinarizer64.inverseTransform(yVal)
-	}
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
@@ -779,6 +771,17 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 	} else {
 		rndShuffle = rand.New(mlp.RandomState).Shuffle
 	}
+	if earlyStopping {
+		testSize = int(M64.Ceil(mlp.ValidationFraction * float64(nSamples)))
+		if mlp.Shuffle {
+			rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
+		}
+		XVal = blas64General(General64(X).RowSlice(nSamples-testSize, nSamples))
+		yVal = blas64General(General64(y).RowSlice(nSamples-testSize, nSamples))
+		mlp.bestParameters = make([]float64, len(mlp.packedParameters))
+		// if isClassifier(self):
+		// 	yVal = self.LabelBinarizer64.inverseTransform(yVal)
+	}
 	func() {
 		if r := recover(); r != nil {
 			// ...
@@ -786,7 +789,7 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		}
 		for it := 0; it < mlp.MaxIter; it++ {
 			if mlp.Shuffle {
-				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
+				rndShuffle(nSamples-testSize, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float64(0.0)
 			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
@@ -810,7 +813,7 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 				mlp.optimizer.updateParams(packedGrads)
 			}
 			mlp.NIter++
-			mlp.Loss = accumulatedLoss / float64(nSamples)
+			mlp.Loss = accumulatedLoss / float64(nSamples-testSize)
 
 			mlp.t += nSamples
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
@@ -931,10 +934,12 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 }
 
 func (mlp *BaseMultilayerPerceptron64) score(X, Y blas64General) float64 {
-	H := blas64General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float64, len(Y.Data))}
-	mlp.predict(X, H)
+	// Y is already binarized
+	H := blas64General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Cols, Data: make([]float64, Y.Rows*Y.Cols)}
+	mlp.predictProbas(X, H)
 	if mlp.LossFuncName != "square_loss" {
 		// accuracy
+		toLogits64(H)
 		return accuracyScore64(Y, H)
 	}
 	// R2Score
-- 
2.43.0


From af3801d9aba25769e70f8243a85fa17e3a660bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:35 +0000
Subject: [PATCH 124/136] fix: MLP r2 score used the stride of the targets for
 the predictions

---
 neural_network/basemlp32.go | 4 ++--
 neural_network/basemlp64.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index f8cb486..d495925 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1109,8 +1109,8 @@ func r2Score32(yTrue, yPred blas32General) float32 {
 		yTrueAvg /= float32(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, hpos := 0, 0, 0; r < yTrue.Rows; r, ypos, hpos = r+1, ypos+yTrue.Stride, hpos+yPred.Stride {
+			t := yPred.Data[hpos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 1f0c385..ae1e308 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1109,8 +1109,8 @@ func r2Score64(yTrue, yPred blas64General) float64 {
 		yTrueAvg /= float64(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, hpos := 0, 0, 0; r < yTrue.Rows; r, ypos, hpos = r+1, ypos+yTrue.Stride, hpos+yPred.Stride {
+			t := yPred.Data[hpos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
-- 
2.43.0


From b0ed76b1e25d4d42772f388ff491fb8a15360912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:35 +0000
Subject: [PATCH 125/136] fix: MLP Predict wrote labels into a view as if it
 was packed, and failed when only one matrix was dense

---
 neural_network/basemlp32.go | 14 ++------------
 neural_network/basemlp64.go | 14 ++------------
 2 files changed, 4 insertions(+), 24 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index d495925..b7594eb 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -604,15 +604,7 @@ func (mlp *BaseMultilayerPerceptron32) GetNOutputs() int {
 
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron32) Predict(X mat.Matrix, Y Mutable) {
-	var xb, yb General32
-	if xg, ok := X.(RawMatrixer32); ok {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = General32(xg.RawMatrix()), General32(yg.RawMatrix())
-		}
-	} else {
-		xb.Copy(X)
-		yb.Copy(Y)
-	}
+	xb, yb := ToDense32(X), ToDense32(Y)
 	mlp.predict(xb.RawMatrix(), yb.RawMatrix())
 
 	FromDense32(Y, yb)
@@ -925,9 +917,7 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General32(X), ybin)
-		var tmp = General32(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		FromDense32(General32(Y), Yclasses)
 	} else if mlp.IsClassifier() {
 		toLogits32(Y)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index ae1e308..dad4c58 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -604,15 +604,7 @@ func (mlp *BaseMultilayerPerceptron64) GetNOutputs() int {
 
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron64) Predict(X mat.Matrix, Y Mutable) {
-	var xb, yb General64
-	if xg, ok := X.(RawMatrixer64); ok {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = General64(xg.RawMatrix()), General64(yg.RawMatrix())
-		}
-	} else {
-		xb.Copy(X)
-		yb.Copy(Y)
-	}
+	xb, yb := ToDense64(X), ToDense64(Y)
 	mlp.predict(xb.RawMatrix(), yb.RawMatrix())
 
 	FromDense64(Y, yb)
@@ -925,9 +917,7 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General64(X), ybin)
-		var tmp = General64(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		FromDense64(General64(Y), Yclasses)
 	} else if mlp.IsClassifier() {
 		toLogits64(Y)
 	}
-- 
2.43.0


From 6638f277a4dbf03c19199481faed00636404e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:36 +0000
Subject: [PATCH 126/136] fix: MLP label binarizer skipped outputs when
 inverting several columns

---
 neural_network/basemlp32.go | 1 -
 neural_network/basemlp64.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index b7594eb..c17bde2 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1344,7 +1344,6 @@ func (m *LabelBinarizer32) InverseTransform(X, Y General32) (Xout, Yout General3
 
 			yo.Data[yo0+j] = m.Classes[j][classNo]
 		}
-		baseCol += len(m.Classes[j])
 	}
 	return
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index dad4c58..5af5e10 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1344,7 +1344,6 @@ func (m *LabelBinarizer64) InverseTransform(X, Y General64) (Xout, Yout General6
 
 			yo.Data[yo0+j] = m.Classes[j][classNo]
 		}
-		baseCol += len(m.Classes[j])
 	}
 	return
 }
-- 
2.43.0


From fe40b91cf858b439ea40fcd588d29de585c5ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:37 +0000
Subject: [PATCH 127/136] fix: MLP Unmarshal set hidden layer sizes to zero

---
 neural_network/basemlp32.go | 1 +
 neural_network/basemlp64.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index c17bde2..85b094b 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1188,6 +1188,7 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
+			copy(mlp.HiddenLayerSizes, layerUnits[1:])
 			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
 
 			for i := 0; i < mlp.NLayers-1; i++ {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 5af5e10..b4f642c 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1188,6 +1188,7 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
+			copy(mlp.HiddenLayerSizes, layerUnits[1:])
 			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
 
 			for i := 0; i < mlp.NLayers-1; i++ {
-- 
2.43.0


From 1a75bdb9b0447bd534d57250201797c66e90e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:37 +0000
Subject: [PATCH 128/136] fix: MLP clones shared weights and RandomState with
 their original

---
 neural_network/basemlp32.go             | 27 +++++++++++++++++++++++++
 neural_network/basemlp64.go             | 27 +++++++++++++++++++++++++
 neural_network/multilayer_perceptron.go |  9 ++-------
 3 files changed, 56 insertions(+), 7 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 85b094b..a86d50b 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -577,6 +577,33 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	mlp.packedGrads = packedGrads
 }
 
+// clone returns a copy which shares neither parameters nor random state with mlp
+func (mlp *BaseMultilayerPerceptron32) clone() BaseMultilayerPerceptron32 {
+	clone := *mlp
+	if sourceCloner, ok := mlp.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		clone.RandomState = sourceCloner.SourceClone()
+	}
+	clone.HiddenLayerSizes = append([]int(nil), mlp.HiddenLayerSizes...)
+	clone.LossCurve = append([]float32(nil), mlp.LossCurve...)
+	clone.ValidationScores = append([]float32(nil), mlp.ValidationScores...)
+	clone.optimizer = nil
+	if mlp.Coefs != nil {
+		clone.packedParameters = append([]float32(nil), mlp.packedParameters...)
+		clone.Coefs = append([]blas32General(nil), mlp.Coefs...)
+		clone.Intercepts = append([][]float32(nil), mlp.Intercepts...)
+		off := 0
+		for i := range clone.Coefs {
+			size := len(clone.Intercepts[i])
+			clone.Intercepts[i] = clone.packedParameters[off : off+size]
+			off += size
+			size = len(clone.Coefs[i].Data)
+			clone.Coefs[i].Data = clone.packedParameters[off : off+size]
+			off += size
+		}
+	}
+	return clone
+}
+
 // IsClassifier return true if LossFuncName is not square_loss
 func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 	return mlp.LossFuncName != "square_loss"
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index b4f642c..eeeeba3 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -577,6 +577,33 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	mlp.packedGrads = packedGrads
 }
 
+// clone returns a copy which shares neither parameters nor random state with mlp
+func (mlp *BaseMultilayerPerceptron64) clone() BaseMultilayerPerceptron64 {
+	clone := *mlp
+	if sourceCloner, ok := mlp.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		clone.RandomState = sourceCloner.SourceClone()
+	}
+	clone.HiddenLayerSizes = append([]int(nil), mlp.HiddenLayerSizes...)
+	clone.LossCurve = append([]float64(nil), mlp.LossCurve...)
+	clone.ValidationScores = append([]float64(nil), mlp.ValidationScores...)
+	clone.optimizer = nil
+	if mlp.Coefs != nil {
+		clone.packedParameters = append([]float64(nil), mlp.packedParameters...)
+		clone.Coefs = append([]blas64General(nil), mlp.Coefs...)
+		clone.Intercepts = append([][]float64(nil), mlp.Intercepts...)
+		off := 0
+		for i := range clone.Coefs {
+			size := len(clone.Intercepts[i])
+			clone.Intercepts[i] = clone.packedParameters[off : off+size]
+			off += size
+			size = len(clone.Coefs[i].Data)
+			clone.Coefs[i].Data = clone.packedParameters[off : off+size]
+			off += size
+		}
+	}
+	return clone
+}
+
 // IsClassifier return true if LossFuncName is not square_loss
 func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 	return mlp.LossFuncName != "square_loss"
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 558178b..6039933 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -35,11 +35,7 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 	if mlp == nil {
 		return nil
 	}
-	clone := *mlp
-	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
-		clone.RandomState = sourceCloner.SourceClone()
-	}
-	return &clone
+	return &MLPRegressor{BaseMultilayerPerceptron64: mlp.clone()}
 }
 
 // Fit ...
@@ -92,8 +88,7 @@ func NewMLPClassifier(hiddenLayerSizes []int, activation string, solver string,
 
 // PredicterClone returns an (possibly unfitted) copy of predicter
 func (mlp *MLPClassifier) PredicterClone() base.Predicter {
-	clone := *mlp
-	return &clone
+	return &MLPClassifier{BaseMultilayerPerceptron64: mlp.clone()}
 }
 
 // IsClassifier returns true for MLPClassifier
-- 
2.43.0


From e9ab400f953deb4a57f7f19817dcc1473a7c62b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:38 +0000
Subject: [PATCH 129/136] fix: SumRows of neural network matrices did not sum

---
 neural_network/general.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index 4df572c..d4d66cb 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -299,18 +299,24 @@ func (mat *General64) Copy(a Matrix) {
 
 // SumRows sums rows of a into mat
 func (mat *General32) SumRows(a General32) {
-	for i, mpos, apos := 0, 0, 0; i < a.Rows; i, mpos, apos = i+1, mpos+mat.Stride, apos+a.Stride {
+	for c := 0; c < a.Cols; c++ {
+		mat.Data[c] = 0
+	}
+	for i, apos := 0, 0; i < a.Rows; i, apos = i+1, apos+a.Stride {
 		for c := 0; c < a.Cols; c++ {
-			mat.Data[c] = a.Data[apos+c]
+			mat.Data[c] += a.Data[apos+c]
 		}
 	}
 }
 
 // SumRows sums rows of a into mat
 func (mat *General64) SumRows(a General64) {
-	for i, mpos, apos := 0, 0, 0; i < a.Rows; i, mpos, apos = i+1, mpos+mat.Stride, apos+a.Stride {
+	for c := 0; c < a.Cols; c++ {
+		mat.Data[c] = 0
+	}
+	for i, apos := 0, 0; i < a.Rows; i, apos = i+1, apos+a.Stride {
 		for c := 0; c < a.Cols; c++ {
-			mat.Data[c] = a.Data[apos+c]
+			mat.Data[c] += a.Data[apos+c]
 		}
 	}
 }
-- 
2.43.0


From bc0410277ebb1b55dfcf7719d586940ddb110b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:26 +0000
Subject: [PATCH 130/136] fix: neural network RowSlice exceeded the data of a
 view

---
 neural_network/general.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index d4d66cb..8a2baad 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -240,13 +240,13 @@ func (mat General64) Slice(i, j, k, l int) Matrix {
 // RowSlice provides view on submatrix(startRow,endRow) as General32
 // returned matrix can be casted to *General32
 func (mat General32) RowSlice(i, j int) General32 {
-	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : (j-1)*mat.Stride+mat.Cols]}
 }
 
 // RowSlice provides view on submatrix(startRow,endRow) as General64
 // returned matrix can be casted to *General64
 func (mat General64) RowSlice(i, j int) General64 {
-	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : (j-1)*mat.Stride+mat.Cols]}
 }
 
 // Copy fills receiver with input matrix
-- 
2.43.0


From 90378286ab1ebc2e89391844c2b3f8356f408988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:49 +0000
Subject: [PATCH 131/136] fix: MLP warm start with early stopping ended with
 zero weights when the validation score did not improve

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a86d50b..a902740 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -797,7 +797,7 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		}
 		XVal = blas32General(General32(X).RowSlice(nSamples-testSize, nSamples))
 		yVal = blas32General(General32(y).RowSlice(nSamples-testSize, nSamples))
-		mlp.bestParameters = make([]float32, len(mlp.packedParameters))
+		mlp.bestParameters = append([]float32(nil), mlp.packedParameters...)
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer32.inverseTransform(yVal)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index eeeeba3..5d6384a 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -797,7 +797,7 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		}
 		XVal = blas64General(General64(X).RowSlice(nSamples-testSize, nSamples))
 		yVal = blas64General(General64(y).RowSlice(nSamples-testSize, nSamples))
-		mlp.bestParameters = make([]float64, len(mlp.packedParameters))
+		mlp.bestParameters = append([]float64(nil), mlp.packedParameters...)
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer64.inverseTransform(yVal)
 	}
-- 
2.43.0


From 91244701ffc3cc123f4efe6df024358f95e99d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:23 +0000
Subject: [PATCH 132/136] fix: GridSearchCV kept the default splitter and
 random source of its first fit

---
 model_selection/search.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/model_selection/search.go b/model_selection/search.go
index 6550a8b..553c4c2 100644
--- a/model_selection/search.go
+++ b/model_selection/search.go
@@ -108,11 +108,13 @@ func (gscv *GridSearchCV) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 
 	paramArray := ParameterGrid(gscv.ParamGrid)
 
-	if gscv.RandomState == rand.Source(nil) {
-		gscv.RandomState = base.NewSource(0)
-	}
-	if gscv.CV == Splitter(nil) {
-		gscv.CV = &KFold{NSplits: 3, Shuffle: true, RandomState: gscv.RandomState}
+	cv := gscv.CV
+	if cv == Splitter(nil) {
+		randomState := gscv.RandomState
+		if randomState == rand.Source(nil) {
+			randomState = base.NewSource(0)
+		}
+		cv = &KFold{NSplits: 3, Shuffle: true, RandomState: randomState}
 	}
 	gscv.CVResults = make(map[string][]interface{})
 	for k := range gscv.ParamGrid {
@@ -138,7 +140,7 @@ func (gscv *GridSearchCV) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	{
 		sin := make([]structIn, len(paramArray))
 		for i, params := range paramArray {
-			sin[i] = structIn{index: i, params: params, estimator: estCloner.PredicterClone(), cv: gscv.CV.SplitterClone()}
+			sin[i] = structIn{index: i, params: params, estimator: estCloner.PredicterClone(), cv: cv.SplitterClone()}
 			for k, v := range sin[i].params {
 				setParam(sin[i].estimator, k, v)
 			}
-- 
2.43.0


From 84fd53139253cb16b0297ede649ec1fe2cab88ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:41 +0000
Subject: [PATCH 133/136] fix: OneHotEncoder must not encode a value never seen
 as the first one

---
 preprocessing/data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 7c95878..ab9d81d 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -765,7 +765,9 @@ func (m *OneHotEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		for sample := 0; sample < NSamples; sample++ {
 			v := X.At(sample, feature)
 			//fmt.Printf("sample %d feature %d baseColumn %d nClasses %d y %g min:%d yint %d\n", sample, feature, baseColumn, m.NumClasses[feature], Y.At(sample, feature), m.Min[feature], yint)
-			Xout.Set(sample, baseColumn+cmap[v], 1.)
+			if i, ok := cmap[v]; ok {
+				Xout.Set(sample, baseColumn+i, 1.)
+			}
 		}
 		baseColumn += m.NValues[feature]
 	}
-- 
2.43.0


From 0404863b6ef2d12ddd09f925c3a151d9ca5f1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:03 +0000
Subject: [PATCH 134/136] fix: LinFitGOM must report the loss it reached

---
 linear_model/Base.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index f90114d..489f29c 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -478,7 +478,7 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 	}
 	var ret *optimize.Result
 	var err error
-	rmse := 0.
+	rmse, J := 0., 0.
 	epoch := 0
 	converged = true
 	if opts.PerOutputFit {
@@ -523,6 +523,7 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 			ret := foret.ret
 			thetaM.SetCol(foret.o, ret.X)
 			rmse += ret.F
+			J += ret.F
 			epoch += ret.FuncEvaluations
 			converged = converged && ret.Status != optimize.Failure
 		}
@@ -547,13 +548,14 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 		}
 		ret, err = optimize.Minimize(p, theta, fSettings(), opts.GOMethodCreator())
 		copy(theta, ret.X)
+		J = ret.F
 		rmse = mat.Norm(Ydiff, 2) / float64(nOutputs)
 		epoch = ret.FuncEvaluations
 		converged = ret.Status != optimize.Failure
 	}
 	//fmt.Printf("ret:%#v\nstatus:%s\n", ret, ret.Status)
 	converged = err == nil
-	return &LinFitResult{Converged: converged, RMSE: rmse, Epoch: epoch, Theta: thetaM}
+	return &LinFitResult{Converged: converged, RMSE: rmse, J: J, Epoch: epoch, Theta: thetaM}
 }
 
 func (regr *LinearModel) setIntercept(XOffset, YOffset, XScale mat.Matrix) {
-- 
2.43.0


From 93bc7415a0f8ef1e7abba084704eb6d25553ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:13 +0000
Subject: [PATCH 135/136] fix: Pipeline.Predict without a filled receiver must
 work with transformers of the targets

---
 pipeline/pipeline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index cbdc214..7c166c9 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -122,6 +122,10 @@ func (p *Pipeline) GetNOutputs() int {
 // Predict for pipeline calls steps Transform then InverseTransform for InverseTransformer steps
 func (p *Pipeline) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Xtmp, Ytmp := base.ToDense(X), base.ToDense(Y)
+	if Ytmp.IsEmpty() && p.NOutputs > 0 {
+		nSamples, _ := X.Dims()
+		Ytmp = mat.NewDense(nSamples, p.NOutputs, nil)
+	}
 	for istep := range p.NamedSteps {
 		p.transformStep(istep, &Xtmp, &Ytmp)
 
-- 
2.43.0


From a86980f5dcb46bfef3c2f61130ba758d7144b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:14 +0000
Subject: [PATCH 136/136] fix: Pipeline.GetNOutputs must be the number of
 columns of its predictions

---
 pipeline/pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 7c166c9..22d5dcd 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -116,6 +116,9 @@ func (p *Pipeline) GetNOutputs() int {
 	if len(p.NamedSteps) == 0 {
 		return 0
 	}
+	if p.NOutputs > 0 {
+		return p.NOutputs
+	}
 	return p.NamedSteps[len(p.NamedSteps)-1].Fiter.(base.Predicter).GetNOutputs()
 }
 
-- 
2.43.0

