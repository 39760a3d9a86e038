package main

import (
	"sort"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	gp "github.com/pa-m/sklearn/gaussian_process"
	lm "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	modelselection "github.com/pa-m/sklearn/model_selection"
	naivebayes "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	"github.com/pa-m/sklearn/pipeline"
	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

// ---- what calls do to memory (P29)

// place is a matrix laid out in a buffer of its own: rows [r0, r0+r) and columns [c0, c0+c) of back (transposed: of back's transpose).
type place struct {
	m      mat.Matrix
	back   *mat.Dense
	vec    *mat.VecDense
	before [][]string
}

func (p *place) dump() [][]string {
	if p.vec != nil {
		return RM(p.vec)
	}
	return RM(p.back)
}

// lay puts the rows of v into a new buffer.
func lay(v [][]float64, layout string) *place {
	d := denseRows(v)
	r, c := d.Dims()
	p := &place{}
	guard := func(rr, cc int) *mat.Dense {
		b := mat.NewDense(rr, cc, nil)
		b.Apply(func(i, j int, _ float64) float64 { return 7777 + float64(i*cc+j) }, b)
		return b
	}
	switch layout {
	case "view": // guard cells all around
		p.back = guard(r+3, c+4)
		w := p.back.Slice(1, 1+r, 2, 2+c).(*mat.Dense)
		w.Copy(d)
		p.m = w
	case "tail": // the buffer ends with the last cell
		p.back = guard(r+1, c+2)
		w := p.back.Slice(1, 1+r, 2, 2+c).(*mat.Dense)
		w.Copy(d)
		p.m = w
	case "foreign":
		p.back = d
		p.m = foreign{d}
	case "trans":
		p.back = mat.DenseCopyOf(d.T())
		p.m = p.back.T()
	case "vec":
		if c == 1 {
			p.vec = mat.NewVecDense(r, nil)
			for i := range v {
				p.vec.SetVec(i, v[i][0])
			}
			p.m = p.vec
			break
		}
		fallthrough
	default:
		p.back = d
		p.m = d
	}
	p.before = p.dump()
	return p
}

// denseArg gives a *mat.Dense with the layout, for functions that take nothing else.
func denseArg(p *place) *mat.Dense {
	if d, ok := p.m.(*mat.Dense); ok {
		return d
	}
	return mat.DenseCopyOf(p.m)
}

// memCall is one call made with laid-out arguments.
type memCall struct {
	args []*place
	outs [][][]string
	recv Obj
}

func (c *memCall) arg(v [][]float64, layout string) *place {
	p := lay(v, layout)
	c.args = append(c.args, p)
	return p
}

func (c *memCall) out(ms ...mat.Matrix) {
	for _, m := range ms {
		c.outs = append(c.outs, RM(m))
	}
}

func (c *memCall) result() Obj {
	before, after := [][][]string{}, [][][]string{}
	for _, a := range c.args {
		before, after = append(before, a.before), append(after, a.dump())
	}
	o := Obj{"before": before, "after": after, "outs": c.outs, "recv": Obj{"kind": "nil"}}
	if c.outs == nil {
		o["outs"] = [][][]string{}
	}
	if c.recv != nil {
		o["recv"] = c.recv
	}
	return o
}

// into calls f with a receiver of the asked sort for an r x c result and records what became of it.
func (c *memCall) into(kind string, r, cols int, f func(dst mat.Mutable) *mat.Dense) {
	blank := make([][]float64, r)
	for i := range blank {
		blank[i] = make([]float64, cols)
		for j := range blank[i] {
			blank[i][j] = -99
		}
	}
	switch kind {
	case "empty":
		P := &mat.Dense{}
		ret := f(P)
		c.out(P)
		if ret != nil {
			c.out(ret)
		} else {
			c.out(P)
		}
	case "dense", "view", "tail", "foreign":
		layout := kind
		if kind == "dense" {
			layout = "packed"
		}
		p := lay(blank, layout)
		ret := f(p.m.(mat.Mutable))
		c.out(p.m)
		if ret != nil {
			c.out(ret)
		} else {
			c.out(p.m)
		}
		r0, c0 := 0, 0
		if kind == "view" || kind == "tail" {
			r0, c0 = 1, 2
		}
		c.recv = Obj{"kind": kind, "before": p.before, "after": p.dump(), "r0": r0, "c0": c0, "answer": RM(p.m)}
	default:
		ret := f(nil)
		c.out(ret, ret)
	}
}

// memFns are functions of two matrices (data and targets) with their results as matrices.
var memFns = map[string]struct {
	data string
	f    func(c *memCall, X, Y *place)
}{
	"nearest": {"reg", func(c *memCall, X, Y *place) {
		m := neighbors.NewNearestNeighbors()
		m.Fit(X.m, Y.m)
		d, i := m.KNeighbors(X.m, 2)
		c.out(d, i, m.KNeighborsGraph(denseArg(X), 2, "distance", true))
		dd, _ := m.RadiusNeighbors(denseArg(X), 2)
		for _, r := range dd {
			s := append([]float64(nil), r...)
			sort.Float64s(s)
			if len(s) > 0 {
				c.out(mat.NewDense(1, len(s), s))
			}
		}
	}},
	"kdtree": {"reg", func(c *memCall, X, Y *place) {
		d, i := neighbors.NewKDTree(X.m, 2).Query(X.m, 2, 0, 2, 1e9)
		c.out(d, i)
	}},
	"split": {"reg", func(c *memCall, X, Y *place) {
		a, b, d, e := modelselection.TrainTestSplit(X.m, Y.m, .3, 5)
		c.out(a, b, d, e)
	}},
	"cv": {"reg", func(c *memCall, X, Y *place) {
		r := modelselection.CrossValidate(lm.NewLinearRegression(), denseArg(X), denseArg(Y), nil, func(t, p mat.Matrix) float64 {
			var d mat.Dense
			d.Sub(t, p)
			return mat.Norm(&d, 2)
		}, &modelselection.KFold{NSplits: 3, RandomState: base.NewLockedSource(3)}, 2)
		c.out(mat.NewDense(1, len(r.TestScore), r.TestScore))
	}},
	"chain": {"reg", func(c *memCall, X, Y *place) { // a predicter inside the pipeline
		p := pipeline.NewPipeline(pipeline.NamedStep{Name: "a", Fiter: preprocessing.NewMinMaxScaler([]float64{0, 1})},
			pipeline.NamedStep{Name: "b", Fiter: lm.NewRidge()}, pipeline.NamedStep{Name: "c", Fiter: lm.NewLinearRegression()})
		p.Fit(X.m, Y.m)
		s := p.Score(X.m, Y.m)
		c.out(mat.NewDense(1, 1, []float64{s}), p.Predict(X.m, nil))
	}},
	"stats": {"reg", func(c *memCall, X, Y *place) {
		m, s := preprocessing.MeanStdDev(X.m)
		c.out(m, s, preprocessing.Mean(X.m), preprocessing.DenseMean(nil, X.m), preprocessing.Scale(denseArg(X)),
			preprocessing.NumpyLike{}.Var(X.m), preprocessing.NumpyLike{}.Std(X.m))
	}},
	"enetpath": {"reg", func(c *memCall, X, Y *place) {
		as := []float64{.5, .1}
		_, co, _, _ := lm.EnetPath(denseArg(X), denseArg(Y), .5, 1e-6, 2, &as, false, false)
		for _, m := range co {
			c.out(m)
		}
	}},
	"preprocess": {"reg", func(c *memCall, X, Y *place) {
		a, b, d, e, f := lm.PreprocessData(denseArg(X), denseArg(Y), true, true, nil)
		c.out(a, b, d, e, f)
	}},
	"gpex": {"reg", func(c *memCall, X, Y *place) {
		m := kinds["gpr"].mk().(*gp.Regressor)
		m.Fit(X.m, Y.m)
		mu, sd, _ := m.PredictEx(X.m, nil, true, false)
		_, _, cov := m.PredictEx(X.m, nil, false, true)
		c.out(mu, mat.DenseCopyOf(sd), cov)
	}},
	"regmetrics": {"reg", func(c *memCall, X, Y *place) {
		_, k := Y.m.Dims()
		r, q := X.m.Dims()
		if q < k {
			k = q
		}
		P, T := denseArg(X).Slice(0, r, 0, k).(*mat.Dense), denseArg(Y).Slice(0, r, 0, k).(*mat.Dense)
		w := denseArg(X).Slice(0, r, 0, 1).(*mat.Dense)
		sq := mat.NewDense(r, 1, nil)
		sq.MulElem(w, w)
		for _, mo := range []string{"raw_values", "uniform_average"} {
			c.out(metrics.R2Score(T, P, nil, mo), metrics.MeanSquaredError(T, P, nil, mo), metrics.MeanAbsoluteError(T, P, nil, mo), metrics.MeanSquaredError(T, P, sq, mo))
		}
		if k == q {
			c.out(metrics.R2Score(T, X.m, nil, ""), metrics.MeanSquaredError(T, X.m, nil, ""), metrics.MeanAbsoluteError(T, X.m, nil, ""))
		}
	}},
	"decision": {"reg", func(c *memCall, X, Y *place) {
		m := lm.NewLinearRegression()
		m.Fit(X.m, Y.m)
		n, _ := X.m.Dims()
		_, no := Y.m.Dims()
		for _, recv := range []string{"dense", "view", "tail", "foreign"} {
			c.into(recv, n, no, func(dst mat.Mutable) *mat.Dense { m.DecisionFunction(X.m, dst); return nil })
		}
		c.recv = nil
	}},
	"linfit": {"reg", func(c *memCall, X, Y *place) {
		_, k := X.m.Dims()
		_, no := Y.m.Dims()
		r := lm.LinFit(denseArg(X), denseArg(Y), &lm.LinFitOptions{Solver: "adam", Epochs: 2, MiniBatchSize: 1000, ThetaInitializer: func(T *mat.Dense) { T.Copy(mat.NewDense(k, no, nil)) }})
		c.out(r.Theta, mat.NewDense(1, 1, []float64{r.J}))
		for _, l := range []lm.Loss{lm.SquareLoss} {
			P, E := &mat.Dense{}, &mat.Dense{}
			*P, *E = *mat.DenseCopyOf(Y.m), *mat.DenseCopyOf(Y.m)
			G := mat.NewDense(k, no, nil)
			J := l(Y.m, X.m, r.Theta, P, E, G, .5, .5, 3, base.Identity{}, true)
			c.out(G, mat.NewDense(1, 1, []float64{J}))
		}
	}},
	"dist": {"reg", func(c *memCall, X, Y *place) {
		n, _ := X.m.Dims()
		row := func(i int) mat.Vector {
			if v, ok := X.m.(interface{ RowView(int) mat.Vector }); ok {
				return v.RowView(i)
			}
			return mat.NewVecDense(len(mat.Row(nil, i, X.m)), mat.Row(nil, i, X.m))
		}
		for i := 0; i+1 < n; i += 2 {
			a, b := row(i), row(i+1)
			v := []float64{}
			for _, d := range []neighbors.Distance{neighbors.EuclideanDistance, neighbors.MinkowskiDistance(3), neighbors.MinkowskiDistance(1)} {
				v = append(v, d(a, b))
			}
			v = append(v, cluster.EuclideanDistance(a, b), cluster.MinkowskiDistance(3)(a, b), cluster.MinkowskiDistance(1)(a, b))
			c.out(mat.NewDense(1, len(v), v))
		}
	}},
	"clfmetrics": {"clf1", func(c *memCall, X, Y *place) {
		n, _ := Y.m.Dims()
		T := denseArg(Y)
		P := lay(func() [][]float64 {
			v := make([][]float64, n)
			for i := range v {
				v[i] = []float64{Y.m.At((i*i+i/2)%n, 0)}
			}
			return v
		}(), "view")
		c.args = append(c.args, P)
		w := make([]float64, n)
		for i := range w {
			w[i] = 1 + float64(i)/4
		}
		p := P.m.(*mat.Dense)
		one := func(v ...float64) { c.out(mat.NewDense(1, len(v), v)) }
		one(metrics.AccuracyScore(Y.m, P.m, true, nil), metrics.AccuracyScore(Y.m, P.m, false, nil))
		for _, a := range []string{"micro", "macro", "weighted"} {
			one(metrics.PrecisionScore(T, p, a, w), metrics.RecallScore(T, p, a, w), metrics.F1Score(T, p, a, nil), metrics.FBetaScore(T, p, 2, a, w))
		}
		c.out(metrics.ConfusionMatrix(T, p, w))
		c.out(mat.NewDense(1, n, w))
	}},
	"ranking": {"clf1", func(c *memCall, X, Y *place) {
		n, _ := Y.m.Dims()
		T := denseArg(Y)
		B := lay(func() [][]float64 {
			v := make([][]float64, n)
			for i := range v {
				v[i] = []float64{0}
				if T.At(i, 0) == T.At(0, 0) {
					v[i][0] = 1
				}
			}
			return v
		}(), "tail")
		c.args = append(c.args, B)
		b, s := B.m.(*mat.Dense), denseArg(X).Slice(0, n, 0, 1).(*mat.Dense)
		w := make([]float64, n)
		for i := range w {
			w[i] = 1 + float64(i)/4
		}
		row := func(v []float64) { c.out(mat.NewDense(1, len(v), v)) }
		f, t, th := metrics.ROCCurve(b, s, 1, w)
		row(f)
		row(t)
		row(th)
		p, r, ph := metrics.PrecisionRecallCurve(b, s, 1, w)
		row(p)
		row(r)
		row(ph)
		row([]float64{metrics.ROCAUCScore(b, s, "", w), metrics.AveragePrecisionScore(b, s, "", w), metrics.AUC(f, t)})
		row(w)
	}},
}

// runMem makes the same calls twice, with packed matrices and as laid out by the operations.
func runMem(in Obj) Obj {
	name := S(in["kind"])
	if fn, ok := memFns[name]; ok {
		d := newLifeData(fn.data, "A", I(in["variant"]))
		res := []Obj{}
		for _, v := range L(in["ops"]) {
			op := v.(map[string]interface{})
			one := func(lx, ly string) Obj {
				c := &memCall{}
				fn.f(c, c.arg(d.X, lx), c.arg(d.Y, ly))
				return c.result()
			}
			res = append(res, Obj{"ref": one("packed", "packed"), "got": one(S(op["lx"]), S(op["ly"]))})
		}
		return Obj{"res": res}
	}
	k := kinds[name]
	d := newLifeData(k.data, "A", I(in["variant"]))
	mk := func() interface{} {
		o := k.mk()
		k.set(o, I(in["cfg"]))
		if k.seed != nil {
			k.seed(o, 4)
		}
		return o
	}
	objs := [2]interface{}{mk(), mk()}
	res := []Obj{}
	for _, v := range L(in["ops"]) {
		op := v.(map[string]interface{})
		one := func(o interface{}, lx, ly, recv string) Obj {
			c := &memCall{}
			Q, QY := d.Q, d.QY
			if S(op["rows"]) == "X" || name == "dbscan" || name == "shuffler" {
				Q, QY = d.X, d.Y
			}
			switch S(op["o"]) {
			case "fit":
				fitAny(o, c.arg(d.X, lx).m, c.arg(d.Y, ly).m)
			case "partial":
				X, Y := c.arg(d.X2, lx), c.arg(d.Y2, ly)
				partialFit(o, denseArg(X), denseArg(Y))
			case "predict":
				p := o.(base.Predicter)
				X := c.arg(Q, lx)
				c.into(recv, len(Q), outCols(o, d), func(dst mat.Mutable) *mat.Dense { return p.Predict(X.m, dst) })
			case "probas":
				X := c.arg(Q, lx)
				switch m := o.(type) {
				case *naivebayes.GaussianNB:
					c.into(recv, len(Q), len(m.Classes), func(dst mat.Mutable) *mat.Dense { return m.PredictProbas(X.m, dst) })
				case *lm.LogisticRegression:
					c.into(recv, len(Q), generalDense(m.Coef).RawMatrix().Cols, func(dst mat.Mutable) *mat.Dense { return m.PredictProbas(X.m, dst) })
				case *neighbors.KNeighborsClassifier:
					P := mat.NewDense(len(Q), len(m.Classes[0]), nil)
					m.PredictProba(denseArg(X), P)
					c.out(P)
				case *lm.BayesianRidge:
					P, sd := &mat.Dense{}, &mat.Dense{}
					m.Predict2(denseArg(X), P, sd)
					c.out(P, sd)
				}
			case "score":
				X, Y := c.arg(Q, lx), c.arg(QY, ly)
				c.out(mat.NewDense(1, 1, []float64{o.(base.Predicter).Score(X.m, Y.m)}))
			case "transform", "fittransform":
				X, Y := c.arg(Q, lx), c.arg(QY, ly)
				if S(op["o"]) == "fittransform" {
					c.args = nil
					X, Y = c.arg(d.X, lx), c.arg(d.Y, ly)
					t := call(o, "FitTransform", X.m, Y.m)
					c.out(denseOf(t[0]), denseOf(t[1]))
					break
				}
				t := call(o, "Transform", X.m, Y.m)
				c.out(denseOf(t[0]), denseOf(t[1]))
			case "inverse":
				t := call(o, "Transform", denseRows(Q), denseRows(QY))
				rows := func(m mat.Matrix) [][]float64 {
					r, _ := m.Dims()
					v := make([][]float64, r)
					for i := range v {
						v[i] = mat.Row(nil, i, m)
					}
					return v
				}
				X, Y := c.arg(rows(denseOf(t[0])), lx), c.arg(rows(denseOf(t[1])), ly)
				i := call(o, "InverseTransform", denseArg(X), denseArg(Y))
				c.out(denseOf(i[0]), denseOf(i[1]))
			}
			return c.result()
		}
		res = append(res, Obj{"ref": one(objs[0], "packed", "packed", "nil"), "got": one(objs[1], S(op["lx"]), S(op["ly"]), S(op["recv"]))})
	}
	return Obj{"res": res}
}

// outCols is the number of columns of a prediction
func outCols(o interface{}, d lifeData) int {
	return o.(base.Predicter).Predict(denseRows(d.X), nil).RawMatrix().Cols
}

func init() {
	register("memory", func(g *Gen) {}, map[string]func(Obj) Obj{"mem": runMem})
}
