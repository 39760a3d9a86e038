package main

import (
	"github.com/pa-m/sklearn/metrics"
	"gonum.org/v1/gonum/mat"
)

// ---- metrics (P12, P13, P14)

func weightsOf(in Obj) []float64 {
	if w := FV(in["w"]); len(w) > 0 {
		return w
	}
	return nil
}

func weightsCol(in Obj, lay string) *mat.Dense {
	w := weightsOf(in)
	if w == nil {
		return nil
	}
	d := mat.NewDense(len(w), 1, append([]float64(nil), w...))
	if lay == "view" {
		return LayView(d)
	}
	return d
}

func runClf(in Obj) Obj {
	lay := S(in["lay"])
	Y, P := func() *mat.Dense { return DL(in["Y"], lay) }, func() *mat.Dense { return DL(in["P"], lay) }
	w := func() []float64 { return weightsOf(in) }
	o := Obj{}
	cm := metrics.ConfusionMatrix(Y(), P(), w())
	r, c := cm.Dims()
	o["cm"], o["dims"] = RM(cm), []int{r, c}
	o["acc"] = R(metrics.AccuracyScore(M(in["Y"], lay), M(in["P"], lay), true, weightsCol(in, lay)))
	o["count"] = R(metrics.AccuracyScore(M(in["Y"], lay), M(in["P"], lay), false, weightsCol(in, lay)))
	beta := F(in["beta"])
	per := [][]string{}
	for k := 0; k < r; k++ {
		p, rc, f, s := metrics.PrecisionRecallFScoreSupport(Y(), P(), beta, nil, k, "", nil, w())
		per = append(per, RV([]float64{p, rc, f, s}))
	}
	avg, single := Obj{}, Obj{}
	for _, m := range []string{"micro", "macro", "weighted"} {
		p, rc, f, _ := metrics.PrecisionRecallFScoreSupport(Y(), P(), beta, nil, -1, m, nil, w())
		avg[m] = RV([]float64{p, rc, f})
		single[m] = RV([]float64{metrics.PrecisionScore(Y(), P(), m, w()), metrics.RecallScore(Y(), P(), m, w()),
			metrics.F1Score(Y(), P(), m, w()), metrics.FBetaScore(Y(), P(), beta, m, w())})
	}
	o["per"], o["avg"], o["single"] = per, avg, single
	return o
}

func runCurve(in Obj) Obj {
	lay := S(in["lay"])
	pos := F(in["pos"])
	fpr, tpr, rth := metrics.ROCCurve(DL(in["Y"], lay), DL(in["S"], lay), pos, weightsOf(in))
	p, rc, pth := metrics.PrecisionRecallCurve(DL(in["Y"], lay), DL(in["S"], lay), pos, weightsOf(in))
	return Obj{"fpr": RV(fpr), "tpr": RV(tpr), "rth": RV(rth), "auc": R(metrics.AUC(fpr, tpr)), "prec": RV(p), "rec": RV(rc), "pth": RV(pth)}
}

func runAverage(in Obj) Obj {
	lay := S(in["lay"])
	m := S(in["mode"])
	return Obj{"auc": R(metrics.ROCAUCScore(DL(in["Y"], lay), DL(in["S"], lay), m, weightsOf(in))),
		"ap": R(metrics.AveragePrecisionScore(DL(in["Y"], lay), DL(in["S"], lay), m, weightsOf(in)))}
}

func runReg(in Obj) Obj {
	lay := S(in["lay"])
	Y, P := func() mat.Matrix { return M(in["Y"], lay) }, func() mat.Matrix { return M(in["P"], lay) }
	w := func() *mat.Dense { return weightsCol(in, lay) }
	return Obj{
		"mse": Obj{"raw": RM(metrics.MeanSquaredError(Y(), P(), w(), "raw_values")), "avg": RM(metrics.MeanSquaredError(Y(), P(), w(), "uniform_average"))},
		"mae": Obj{"raw": RM(metrics.MeanAbsoluteError(Y(), P(), w(), "raw_values")), "avg": RM(metrics.MeanAbsoluteError(Y(), P(), w(), ""))},
		"r2": Obj{"raw": RM(metrics.R2Score(Y(), P(), w(), "raw_values")), "avg": RM(metrics.R2Score(Y(), P(), w(), "")),
			"var": RM(metrics.R2Score(Y(), P(), w(), "variance_weighted"))},
	}
}

func (g *Gen) weights(n int) []string {
	if g.Flip() {
		return []string{}
	}
	w := g.Vec(n, "pos")
	f := g.PickF(1, 1, 1, 50, 1./64, 1000)
	for i := range w {
		w[i] *= f
		if g.Intn(9) == 0 && i > 1 {
			w[i] = 0
		} else if g.Intn(9) == 0 {
			w[i] *= 64
		}
	}
	return RV(w)
}

func (g *Gen) posWeights(n int) []string {
	w := g.weights(n)
	for i := range w {
		if w[i] == "0" {
			w[i] = "3"
		}
	}
	return w
}

func genClf(g *Gen) {
	classes := [][]float64{{0, 1}, {0, 1, 2}, {-1, 1}, {10, -2.5, 3, .125}, {7}, {1e6, -1e6, 0, 5, 6, 8, 9}}
	for k := 0; k < g.N(150, 1000); k++ {
		n, c := g.Size(1, 14, 120), classes[g.Intn(len(classes))]
		d := 1
		if g.Intn(3) == 0 {
			d = g.Size(2, 3, 8)
		}
		Y, P := make([][]float64, n), make([][]float64, n)
		cp := c
		if g.Intn(3) == 0 {
			cp = c[:g.Range(1, len(c))] // some classes are never predicted
		}
		ct := c
		if g.Intn(3) == 0 {
			ct = c[g.Intn(len(c)):] // some classes are never true
		}
		for i := range Y {
			Y[i], P[i] = g.Labels(d, ct...), g.Labels(d, cp...)
			if g.Flip() {
				copy(P[i], Y[i])
				if d > 1 && g.Intn(3) == 0 { // one entry differs
					P[i][g.Intn(d)] = cp[g.Intn(len(cp))]
				}
			}
		}
		w := g.weights(n)
		if len(w) > 1 && g.Intn(3) == 0 {
			w[0] = "0"
		}
		g.Add("clf", Obj{"Y": RMM(Y), "P": RMM(P), "w": w, "beta": R(g.PickF(.5, 1, 2, 0, 3.5)), "lay": g.Pick("packed", "view")})
	}
}

// scores are ordered by any difference, however small, and at any scale
func (g *Gen) scores(n, d int, style string) [][]float64 {
	S := g.Mat(n, d, style)
	f, c := g.PickF(1, 1, 1, 1e-10, 1e-13, 1e9), 0.
	if f < 1 && g.Flip() {
		c = .5
	}
	for i := range S {
		for j := range S[i] {
			S[i][j] = c + f*S[i][j]
		}
	}
	return S
}

func genRanking(g *Gen) {
	style := func() string { return g.Pick("nat", "int", "real", "bit") }
	for k := 0; k < g.N(150, 1000); k++ {
		n := g.Size(2, 16, 100)
		lb := [][]float64{{0, 1}, {-1, 1}, {5, -3}, {2, 1}, {1, 2, 3}}[g.Intn(5)]
		y := g.Labels(n, lb...)
		a := g.Perm(n)
		y[a[0]], y[a[1]] = lb[0], lb[1]
		g.Add("curve", Obj{"Y": RMM(ColM(y)), "S": RMM(g.scores(n, 1, style())), "pos": R(lb[1]), "w": g.posWeights(n), "lay": g.Pick("packed", "view")})
	}
	for k := 0; k < g.N(120, 800); k++ {
		n, d := g.Size(2, 9, 40), g.Size(1, 4, 8)
		mode := g.Pick("", "macro", "micro", "weighted", "samples")
		lo := 0.
		if d == 1 && g.Flip() {
			lo = -1
		}
		if mode == "samples" && d == 1 {
			d = 3
		}
		Y := make([][]float64, n)
		for i := range Y {
			Y[i] = g.Labels(d, lo, 1)
			if mode == "samples" { // both values in every row
				a := g.Perm(d)
				Y[i][a[0]], Y[i][a[1]] = lo, 1
			}
		}
		if mode != "samples" {
			for j := 0; j < d; j++ {
				a := g.Perm(n)
				Y[a[0]][j], Y[a[1]][j] = lo, 1
			}
		}
		g.Add("average", Obj{"Y": RMM(Y), "S": RMM(g.scores(n, d, style())), "mode": mode, "w": g.posWeights(n), "lay": g.Pick("packed", "view")})
	}
}

func genReg(g *Gen) {
	for k := 0; k < g.N(200, 1500); k++ {
		n, d := g.Size(2, 12, 150), g.Size(1, 4, 10)
		Y := g.Mat(n, d, g.Pick("int", "real", "dyadic", "off"))
		Y[0], Y[1] = g.Vec(d, "int"), g.Vec(d, "int")
		for j := range Y[0] {
			Y[1][j] = Y[0][j] + 1 // not constant
		}
		P := make([][]float64, n)
		for i := range P {
			P[i] = make([]float64, d)
			for j := range P[i] {
				P[i][j] = Y[i][j] + g.PickF(0, 1, -.5, g.NormFloat64())
			}
		}
		if g.Intn(4) == 0 { // small numbers
			for i := range P {
				for j := range P[i] {
					Y[i][j] /= 1 << 18
					P[i][j] /= 1 << 18
				}
			}
		}
		in := Obj{"Y": RMM(Y), "P": RMM(P), "w": g.weights(n), "lay": g.Pick(Layouts...)}
		g.Add("reg", in)
	}
	for k := 0; k < g.N(10, 50); k++ {
		n, d := g.Range(1, 6), g.Range(1, 3)
		row := g.Vec(d, "int")
		Y := make([][]float64, n)
		for i := range Y {
			Y[i] = row
		}
		g.Add("const", Obj{"Y": RMM(Y), "P": RMM(Y), "w": []string{}, "lay": "packed"})
	}
}

func init() {
	register("clfmetrics", genClf, map[string]func(Obj) Obj{"clf": runClf})
	register("ranking", genRanking, map[string]func(Obj) Obj{"curve": runCurve, "average": runAverage})
	register("regmetrics", genReg, map[string]func(Obj) Obj{"reg": runReg, "const": runReg})
}
