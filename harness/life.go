package main

import (
	"math"
	"math/rand"
	"sort"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	lm "github.com/pa-m/sklearn/linear_model"
	modelselection "github.com/pa-m/sklearn/model_selection"
	naivebayes "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/pipeline"
	"github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"
)

// ---- life cycles of every estimator and transformer (P28, P29)

// A kind is one sort of estimator or transformer with two settings.
type kind struct {
	data string                     // which sort of data it is fitted on
	mk   func() interface{}         // a new one
	set  func(o interface{}, c int) // settings 1 or 2
	seed func(o interface{}, s uint64)
	inv  bool // has an inverse transform
}

func pick2(c int, a, b float64) float64 {
	if c == 1 {
		return a
	}
	return b
}

func picki(c, a, b int) int { return int(pick2(c, float64(a), float64(b))) }

func picks(c int, a, b string) string {
	if c == 1 {
		return a
	}
	return b
}

func none(o interface{}, c int) {}

var kinds = map[string]kind{
	// transformers
	"minmax": {data: "reg", inv: true, mk: func() interface{} { return preprocessing.NewMinMaxScaler([]float64{0, 1}) },
		set: func(o interface{}, c int) {
			o.(*preprocessing.MinMaxScaler).FeatureRange = []float64{pick2(c, 0, -1), pick2(c, 1, 3)}
		}},
	"standard": {data: "reg", inv: true, mk: func() interface{} { return preprocessing.NewStandardScaler() },
		set: func(o interface{}, c int) { o.(*preprocessing.StandardScaler).WithMean = c == 1 }},
	"robust": {data: "reg", inv: true, mk: func() interface{} { return preprocessing.NewDefaultRobustScaler() },
		set: func(o interface{}, c int) {
			s := o.(*preprocessing.RobustScaler)
			s.Center = c == 1
			s.Quantiles = &preprocessing.QuantilePair{Left: pick2(c, .25, .1), Right: pick2(c, .75, .9)}
		}},
	"maxabs": {data: "reg", inv: true, mk: func() interface{} { return preprocessing.NewMaxAbsScaler() }, set: none},
	"poly": {data: "reg", mk: func() interface{} { return preprocessing.NewPolynomialFeatures(2) },
		set: func(o interface{}, c int) {
			p := o.(*preprocessing.PolynomialFeatures)
			p.Degree, p.InteractionOnly = picki(c, 2, 3), c == 2
		}},
	"onehot":     {data: "levels", inv: true, mk: func() interface{} { return preprocessing.NewOneHotEncoder() }, set: none},
	"shuffler":   {data: "reg", inv: true, mk: func() interface{} { return &preprocessing.Shuffler{RandomState: base.NewLockedSource(1)} }, set: none, seed: func(o interface{}, s uint64) { o.(*preprocessing.Shuffler).RandomState = base.NewLockedSource(s) }},
	"binarizer":  {data: "reg", mk: func() interface{} { return preprocessing.NewBinarizer() }, set: func(o interface{}, c int) { o.(*preprocessing.Binarizer).Threshold = pick2(c, 0, 1) }},
	"normalizer": {data: "reg", mk: func() interface{} { return preprocessing.NewNormalizer() }, set: func(o interface{}, c int) { o.(*preprocessing.Normalizer).Norm = picks(c, "l2", "max") }},
	"kernelc":    {data: "gram", mk: func() interface{} { return preprocessing.NewKernelCenterer() }, set: none},
	"quantile": {data: "reg", mk: func() interface{} { return preprocessing.NewQuantileTransformer(4, "uniform", nil) },
		set: func(o interface{}, c int) { o.(*preprocessing.QuantileTransformer).NQuantiles = picki(c, 4, 3) }},
	"power": {data: "reg", inv: true, mk: func() interface{} { return preprocessing.NewPowerTransformer() },
		set: func(o interface{}, c int) { o.(*preprocessing.PowerTransformer).Standardize = c == 1 }},
	"boxcox": {data: "pos", inv: true, mk: func() interface{} {
		p := preprocessing.NewPowerTransformer()
		p.Method = "box-cox"
		return p
	}, set: func(o interface{}, c int) { o.(*preprocessing.PowerTransformer).Standardize = c == 1 }},
	"func": {data: "reg", inv: true, mk: func() interface{} {
		aff := func(a, b float64) func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
			return func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
				r := mat.DenseCopyOf(X)
				r.Apply(func(_, _ int, v float64) float64 { return a*v + b }, r)
				return r, Y
			}
		}
		return preprocessing.NewFunctionTransformer(aff(2, 1), aff(.5, -.5))
	}, set: none},
	"labelbin": {data: "clf", inv: true, mk: func() interface{} { return preprocessing.NewLabelBinarizer(0, 1) },
		set: func(o interface{}, c int) {
			b := o.(*preprocessing.LabelBinarizer)
			b.NegLabel, b.PosLabel = pick2(c, 0, -1), pick2(c, 1, 2)
		}},
	"multilabel": {data: "clf", mk: func() interface{} { return preprocessing.NewMultiLabelBinarizer() }, set: none},
	"encoder":    {data: "clf", inv: true, mk: func() interface{} { return preprocessing.NewLabelEncoder() }, set: none},
	"imputer": {data: "missing", mk: func() interface{} { return preprocessing.NewImputer() },
		set: func(o interface{}, c int) {
			i := o.(*preprocessing.Imputer)
			i.Strategy, i.MissingValues = picks(c, "mean", "median"), []float64{math.NaN()}
		}},
	"kbins": {data: "reg", inv: true, mk: func() interface{} { return preprocessing.NewKBinsDiscretizer(3) },
		set: func(o interface{}, c int) {
			k := o.(*preprocessing.KBinsDiscretizer)
			k.NBins, k.Strategy, k.Encode = picki(c, 3, 2), picks(c, "quantile", "uniform"), picks(c, "ordinal", "onehot-dense")
		}},
	"pca": {data: "reg", inv: true, mk: func() interface{} { return preprocessing.NewPCA() },
		set: func(o interface{}, c int) {
			p := o.(*preprocessing.PCA)
			p.NComponents, p.MinVarianceRatio = 0, pick2(c, 0, .6)
		}},
	// predictors
	"gnb": {data: "clf1", mk: func() interface{} { return naivebayes.NewGaussianNB(nil, 1e-9) },
		set: func(o interface{}, c int) { o.(*naivebayes.GaussianNB).VarSmoothing = pick2(c, 1e-9, .1) }},
	"svc": {data: "clf1", mk: func() interface{} { return svm.NewSVC() }, set: func(o interface{}, c int) {
		m := o.(*svm.SVC)
		m.C, m.Kernel, m.Gamma, m.MaxIter = pick2(c, 1, 5), "rbf", pick2(c, .5, 2), 20
	}, seed: func(o interface{}, s uint64) { o.(*svm.SVC).RandomState = base.NewLockedSource(s) }},
	"svr": {data: "reg1", mk: func() interface{} { return svm.NewSVR() }, set: func(o interface{}, c int) {
		m := o.(*svm.SVR)
		m.C, m.Kernel, m.Gamma, m.Epsilon, m.MaxIter = pick2(c, 2, 10), "rbf", pick2(c, .5, 2), .1, 20
	}, seed: func(o interface{}, s uint64) { o.(*svm.SVR).RandomState = base.NewLockedSource(s) }},
	"kmeans": {data: "reg", mk: func() interface{} { return &cluster.KMeans{NClusters: 2} },
		set: func(o interface{}, c int) { o.(*cluster.KMeans).NClusters = picki(c, 2, 3) }},
	"dbscan": {data: "reg", mk: func() interface{} { return cluster.NewDBSCAN(&cluster.DBSCANConfig{MinSamples: 2}) },
		set: func(o interface{}, c int) { o.(*cluster.DBSCAN).Eps = pick2(c, 1, 2.5) }},
	"mlpr": {data: "reg", mk: func() interface{} { return nn.NewMLPRegressor([]int{2}, "tanh", "adam", 0) }, set: func(o interface{}, c int) {
		m := o.(*nn.MLPRegressor)
		m.Solver, m.MaxIter, m.HiddenLayerSizes, m.BatchSize, m.Shuffle = picks(c, "adam", "sgd"), 3, []int{picki(c, 2, 3)}, picki(c, 0, 2), c == 2
		m.LearningRateInit = .01
	}, seed: func(o interface{}, s uint64) { o.(*nn.MLPRegressor).RandomState = base.NewLockedSource(s) }},
	"mlpc": {data: "clf1", mk: func() interface{} { return nn.NewMLPClassifier([]int{2}, "tanh", "adam", 0) }, set: func(o interface{}, c int) {
		m := o.(*nn.MLPClassifier)
		m.Solver, m.MaxIter, m.HiddenLayerSizes, m.EarlyStopping = picks(c, "adam", "lbfgs"), picki(c, 4, 30), []int{picki(c, 2, 1)}, false
		m.LearningRateInit = .05
	}, seed: func(o interface{}, s uint64) { o.(*nn.MLPClassifier).RandomState = base.NewLockedSource(s) }},
	"gpr": {data: "reg", mk: func() interface{} {
		m := gp.NewRegressor(&kernels.RBF{LengthScale: []float64{1}, LengthScaleBounds: [][2]float64{{.1, 10}}})
		m.Alpha = []float64{.5}
		return m
	}, set: func(o interface{}, c int) {
		m := o.(*gp.Regressor)
		m.Alpha, m.NormalizeY = []float64{pick2(c, .5, 1)}, c == 2
	}},
	"ridge":  {data: "reg", mk: func() interface{} { return lm.NewRidge() }, set: func(o interface{}, c int) { o.(*lm.RegularizedRegression).Alpha = pick2(c, 1, .1) }},
	"linear": {data: "reg", mk: func() interface{} { return lm.NewLinearRegression() }, set: func(o interface{}, c int) { o.(*lm.LinearRegression).FitIntercept = c == 1 }},
	"sgd": {data: "reg", mk: func() interface{} { return lm.NewSGDRegressor() }, set: func(o interface{}, c int) {
		m := o.(*lm.SGDRegressor)
		m.Alpha, m.L1Ratio, m.NJobs = pick2(c, .5, .1), 0, 1
	}},
	"enet": {data: "reg", mk: func() interface{} { return lm.NewElasticNet() }, set: func(o interface{}, c int) {
		m := o.(*lm.ElasticNet)
		m.Alpha, m.L1Ratio, m.Tol, m.MaxIter, m.Normalize = pick2(c, .2, .05), pick2(c, .5, .9), 1e-10, 5000, c == 2
	}},
	"mtlasso": {data: "reg", mk: func() interface{} { return lm.NewMultiTaskLasso() }, set: func(o interface{}, c int) {
		m := o.(*lm.MultiTaskLasso)
		m.Alpha, m.Tol, m.MaxIter, m.FitIntercept = pick2(c, .2, .05), 1e-10, 5000, c == 1
	}},
	"bayes": {data: "reg1", mk: func() interface{} { return lm.NewBayesianRidge() }, set: func(o interface{}, c int) {
		m := o.(*lm.BayesianRidge)
		m.FitIntercept, m.NIter = c == 1, picki(c, 300, 3)
	}},
	"logistic": {data: "clf1", mk: func() interface{} { return lm.NewLogisticRegression() }, set: func(o interface{}, c int) {
		m := o.(*lm.LogisticRegression)
		m.Alpha, m.Tol, m.MaxIter = pick2(c, .5, 2), 1e-10, 2000
	}, seed: func(o interface{}, s uint64) { o.(*lm.LogisticRegression).RandomState = base.NewLockedSource(s) }},
	"centroid": {data: "clf1", mk: func() interface{} { return neighbors.NewNearestCentroid("euclidean", 0) },
		set: func(o interface{}, c int) { o.(*neighbors.NearestCentroid).Metric = picks(c, "euclidean", "manhattan") }},
	"knr": {data: "reg", mk: func() interface{} { return neighbors.NewKNeighborsRegressor(2, "uniform") }, set: func(o interface{}, c int) {
		m := o.(*neighbors.KNeighborsRegressor)
		m.K, m.Weights, m.Algorithm = picki(c, 2, 3), picks(c, "uniform", "distance"), picks(c, "auto", "kd_tree")
	}},
	"knc": {data: "clf1", mk: func() interface{} { return neighbors.NewKNeighborsClassifier(3, "uniform") }, set: func(o interface{}, c int) {
		m := o.(*neighbors.KNeighborsClassifier)
		m.K, m.Weight = picki(c, 3, 1), picks(c, "uniform", "distance")
	}},
	"pipe": {data: "reg", mk: func() interface{} {
		return pipeline.MakePipeline(preprocessing.NewStandardScaler(), preprocessing.NewPolynomialFeatures(2), neighbors.NewKNeighborsRegressor(2, "uniform"))
	}, set: func(o interface{}, c int) {
		p := o.(*pipeline.Pipeline)
		p.NamedSteps[0].Fiter.(*preprocessing.StandardScaler).WithMean = c == 1
		p.NamedSteps[1].Fiter.(*preprocessing.PolynomialFeatures).Degree = picki(c, 2, 3)
	}},
	"grid": {data: "reg1", mk: func() interface{} {
		m := lm.NewLinearRegression()
		return &modelselection.GridSearchCV{Estimator: m, ParamGrid: map[string][]interface{}{"FitIntercept": {true, false}}, NJobs: 2,
			Scorer: func(Y, P mat.Matrix) float64 {
				var s mat.Dense
				s.Sub(Y, P)
				return mat.Norm(&s, 2)
			}, LowerScoreIsBetter: true, RandomState: base.NewLockedSource(1)}
	}, set: func(o interface{}, c int) { o.(*modelselection.GridSearchCV).NJobs = picki(c, 2, 1) },
		seed: func(o interface{}, s uint64) { o.(*modelselection.GridSearchCV).RandomState = base.NewLockedSource(s) }},
}

// lifeData is a data set: rows to fit on, rows for a partial fit of the same shape, rows to ask about.
type lifeData struct{ X, Y, X2, Y2, Q, QY [][]float64 }

func newLifeData(sort, name string, variant int) lifeData {
	s := int64(variant) * 2
	if name == "B" {
		s++
	}
	r := rand.New(rand.NewSource(s + 12345))
	n, p, k := 6+r.Intn(4), 1+r.Intn(3), 1+r.Intn(2)
	if name == "B" {
		n, p = n+1, 1+(p+r.Intn(2))%3 // often another number of columns
	}
	labels := [][]float64{{0, 1}, {0, 1, 2}, {3, 5}, {-1, 4, 7}}[r.Intn(4)]
	rows := func(n, p int) [][]float64 {
		m := make([][]float64, n)
		for i := range m {
			m[i] = make([]float64, p)
			for j := range m[i] {
				m[i][j] = float64(r.Intn(161)-80) / 16
				switch sort {
				case "pos":
					m[i][j] = math.Abs(m[i][j]) + 1./8
				case "levels":
					m[i][j] = float64((i + r.Intn(2)*j) % 3)
				case "missing":
					if i != j && r.Intn(4) == 0 {
						m[i][j] = math.NaN()
					}
				}
			}
		}
		return m
	}
	targets := func(X [][]float64, k int) [][]float64 {
		Y := make([][]float64, len(X))
		for i := range Y {
			Y[i] = make([]float64, k)
			for j := range Y[i] {
				if sort == "clf" || sort == "clf1" {
					Y[i][j] = labels[(i+j)%len(labels)]
				} else {
					Y[i][j] = float64(r.Intn(33)-16) / 8
					for q := range X[i] {
						if !math.IsNaN(X[i][q]) {
							Y[i][j] += float64(1+q+j) * X[i][q] / 2
						}
					}
				}
			}
		}
		return Y
	}
	if sort == "reg1" || sort == "clf1" {
		k = 1
	}
	d := lifeData{X: rows(n, p)}
	if sort == "gram" {
		gram := func(A, B [][]float64) [][]float64 {
			G := make([][]float64, len(A))
			for i := range G {
				G[i] = make([]float64, len(B))
				for j := range B {
					for q := range A[i] {
						G[i][j] += A[i][q] * B[j][q]
					}
				}
			}
			return G
		}
		V, W := d.X, rows(4, p)
		d.X, d.X2, d.Q = gram(V, V), gram(V, V), gram(W, V)
	} else {
		d.X2 = rows(n, p)
		d.Q = rows(5, p)
	}
	if sort == "levels" { // only values seen in fitting can be asked about
		d.Q = d.X[1:4]
	}
	d.Y, d.Y2, d.QY = targets(d.X, k), targets(d.X2, k), targets(d.Q, k)
	return d
}

// partialFit of the kinds that have one
func partialFit(o interface{}, X, Y *mat.Dense) {
	if m, ok := o.(*naivebayes.GaussianNB); ok {
		classes := []float64{}
		for _, y := range Y.RawMatrix().Data {
			seen := false
			for _, c := range classes {
				seen = seen || c == y
			}
			if !seen {
				classes = append(classes, y)
			}
		}
		sort.Float64s(classes)
		m.PartialFit(X, Y, classes, false, nil)
		return
	}
	call(o, "PartialFit", X, Y)
}

// observe asks o about the rows of X (with targets Y); the answers are matrices.
func observe(name string, o interface{}, X, Y func() mat.Matrix) [][][]string {
	k := kinds[name]
	res := [][][]string{}
	add := func(m mat.Matrix) { res = append(res, RM(m)) }
	if p, ok := o.(base.Predicter); ok {
		add(p.Predict(X(), nil))
		if name != "pipe" {
			add(mat.NewDense(1, 1, []float64{p.Score(X(), Y())}))
		}
		switch m := o.(type) {
		case *naivebayes.GaussianNB:
			P := &mat.Dense{}
			m.PredictProbas(X(), P)
			add(P)
		case *lm.LogisticRegression:
			add(generalDense(m.Coef))
		case *neighbors.KNeighborsClassifier:
			r, _ := X().Dims()
			P := mat.NewDense(r, len(m.Classes[0]), nil)
			m.PredictProba(mat.DenseCopyOf(X()), P)
			add(P)
		case *cluster.KMeans:
			add(m.Centroids)
		}
		return res
	}
	if m, ok := o.(*preprocessing.MultiLabelBinarizer); ok {
		_, y := m.Transform(X(), Y())
		add(y)
		return res
	}
	t := call(o, "Transform", X(), Y())
	add(denseOf(t[0]))
	add(denseOf(t[1]))
	if k.inv {
		i := call(o, "InverseTransform", denseOf(t[0]), denseOf(t[1]))
		add(denseOf(i[0]))
		add(denseOf(i[1]))
	}
	return res
}

func fitAny(o interface{}, X, Y mat.Matrix) {
	if f, ok := o.(base.Fiter); ok {
		f.Fit(X, Y)
		return
	}
	call(o, "Fit", X, Y)
}

func cloneAny(o interface{}) interface{} {
	if p, ok := o.(base.Predicter); ok {
		return p.PredicterClone()
	}
	return call(o, "TransformerClone")[0].Interface()
}

func denseRows(m [][]float64) *mat.Dense {
	d := mat.NewDense(len(m), len(m[0]), nil)
	for i := range m {
		d.SetRow(i, m[i])
	}
	return d
}

func runLife(in Obj) Obj {
	name := S(in["kind"])
	k := kinds[name]
	data := map[string]lifeData{}
	for _, d := range []string{"A", "B"} {
		data[d] = newLifeData(k.data, d, I(in["variant"]))
	}
	type obj struct {
		o    interface{}
		last string
	}
	objs := []*obj{}
	res := []Obj{}
	for _, v := range L(in["ops"]) {
		op := v.(map[string]interface{})
		r := Obj{"obs": [][][]string{}}
		var o *obj
		if S(op["o"]) != "new" {
			o = objs[I(op["h"])-1]
		}
		ask := func(what string) {
			d := data[o.last]
			X, Y := d.Q, d.QY
			if what == "X" || name == "dbscan" || name == "shuffler" {
				X, Y = d.X, d.Y
			}
			r["obs"] = observe(name, o.o, func() mat.Matrix { return denseRows(X) }, func() mat.Matrix { return denseRows(Y) })
		}
		switch S(op["o"]) {
		case "new":
			n := &obj{o: k.mk()}
			k.set(n.o, 1)
			if k.seed != nil {
				k.seed(n.o, 1)
			}
			objs = append(objs, n)
		case "clone":
			objs = append(objs, &obj{cloneAny(o.o), o.last})
		case "fit":
			k.set(o.o, I(op["cfg"]))
			if s := I(op["seed"]); s > 0 && k.seed != nil {
				k.seed(o.o, uint64(s))
			}
			o.last = S(op["d"])
			d := data[o.last]
			fitAny(o.o, denseRows(d.X), denseRows(d.Y))
		case "partial":
			if o.last == "" {
				o.last = "A"
			}
			d := data[o.last]
			partialFit(o.o, denseRows(d.X2), denseRows(d.Y2))
		case "ask":
			ask(S(op["what"]))
		}
		res = append(res, r)
	}
	return Obj{"res": res}
}

func genLife(g *Gen) {}

func init() {
	register("life", genLife, map[string]func(Obj) Obj{"life": runLife})
}
