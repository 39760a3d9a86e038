package main

import (
	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

// ---- linear models (P21, P22)

// predInto calls Predict with one of several receivers
func predInto(p base.Predicter, in Obj, no int) *mat.Dense {
	lay := S(in["lay"])
	nq := len(L(in["Q"]))
	switch S(in["recv"]) {
	case "empty":
		P := &mat.Dense{}
		p.Predict(M(in["Q"], lay), P)
		return P
	case "view":
		P := LayView(mat.NewDense(nq, no, nil))
		p.Predict(M(in["Q"], lay), P)
		return P
	case "dense":
		P := mat.NewDense(nq, no, nil)
		P.Apply(func(i, j int, v float64) float64 { return 3 }, P)
		p.Predict(M(in["Q"], lay), P)
		return P
	}
	return p.Predict(M(in["Q"], lay), nil)
}

func runLS(in Obj) Obj {
	lay := S(in["lay"])
	var p base.Predicter
	var lm *linearmodel.LinearModel
	switch S(in["est"]) {
	case "linear":
		m := linearmodel.NewLinearRegression()
		p, lm = m, &m.LinearModel
	case "ridge":
		m := linearmodel.NewRidge()
		m.Alpha = F(in["alpha"])
		if S(in["method"]) == "bfgs" {
			m.Options.GOMethodCreator = func() optimize.Method { return &optimize.BFGS{} }
		}
		p, lm = m, &m.LinearModel
	case "sgd":
		m := linearmodel.NewSGDRegressor()
		m.Alpha, m.L1Ratio, m.NJobs = F(in["alpha"]), 0, I(in["jobs"])
		if S(in["method"]) == "bfgs" {
			m.Method = &optimize.BFGS{}
		}
		p, lm = m, &m.LinearModel
	}
	lm.FitIntercept, lm.Normalize = B(in["icpt"]), B(in["norm"])
	if len(L(in["X0"])) > 0 {
		lm.FitIntercept = B(in["icpt0"])
		p.Fit(M(in["X0"], lay), M(in["Y0"], lay))
		lm.FitIntercept = B(in["icpt"])
	}
	if B(in["clone"]) {
		c := p.PredicterClone()
		switch m := c.(type) {
		case *linearmodel.LinearRegression:
			lm = &m.LinearModel
		case *linearmodel.RegularizedRegression:
			lm = &m.LinearModel
		case *linearmodel.SGDRegressor:
			lm = &m.LinearModel
		}
		p = c
	}
	p.Fit(M(in["X"], lay), M(in["Y"], lay))
	_, no := D(in["Y"]).Dims()
	P := predInto(p, in, no)
	return Obj{"coef": RM(lm.Coef), "b": RM(lm.Intercept), "P": RM(P), "score": R(p.Score(M(in["Q"], lay), M(in["SY"], lay)))}
}

func runBayes(in Obj) Obj {
	lay := S(in["lay"])
	m := linearmodel.NewBayesianRidge()
	m.FitIntercept, m.Normalize = B(in["icpt"]), B(in["norm"])
	m.Tol, m.NIter = F(in["tol"]), I(in["niter"])
	m.Alpha1, m.Alpha2, m.Lambda1, m.Lambda2 = F(in["a1"]), F(in["a2"]), F(in["l1"]), F(in["l2"])
	m.ComputeScore = B(in["cs"])
	if len(L(in["X0"])) > 0 {
		m.Fit(M(in["X0"], lay), M(in["Y0"], lay))
	}
	m.Fit(M(in["X"], lay), M(in["Y"], lay))
	_, no := D(in["Y"]).Dims()
	P := predInto(m, in, no)
	std, y2 := &mat.Dense{}, &mat.Dense{}
	m.Predict2(DL(in["Q"], lay), y2, std)
	return Obj{"coef": RM(m.Coef), "b": RM(m.Intercept), "P": RM(P), "std": RM(std), "alpha": R(m.Alpha), "lambda": R(m.Lambda), "sigma": RM(m.Sigma),
		"score": R(m.Score(M(in["Q"], lay), M(in["SY"], lay)))}
}

func runEnet(in Obj) Obj {
	lay := S(in["lay"])
	var m *linearmodel.ElasticNet
	switch S(in["ctor"]) {
	case "lasso":
		m = linearmodel.NewLasso()
	case "mtlasso":
		m = linearmodel.NewMultiTaskLasso()
	case "mtenet":
		m = linearmodel.NewMultiTaskElasticNet()
	default:
		m = linearmodel.NewElasticNet()
	}
	if c := S(in["ctor"]); c != "lasso" && c != "mtlasso" {
		m.L1Ratio = F(in["l1"])
	}
	m.FitIntercept, m.Normalize, m.Positive = B(in["icpt"]), B(in["norm"]), B(in["positive"])
	m.Alpha, m.Tol, m.MaxIter, m.Selection = F(in["alpha"]), F(in["tol"]), I(in["maxiter"]), S(in["sel"])
	if len(L(in["X0"])) > 0 {
		m.Fit(M(in["X0"], lay), M(in["Y0"], lay))
	}
	m.WarmStart = B(in["warm"])
	if B(in["clone"]) {
		m = m.PredicterClone().(*linearmodel.ElasticNet)
	}
	m.Fit(M(in["X"], lay), M(in["Y"], lay))
	_, no := D(in["Y"]).Dims()
	P := predInto(m, in, no)
	return Obj{"coef": RM(m.Coef), "b": RM(m.Intercept), "P": RM(P), "gap": R(m.CDResult.Gap), "eps": R(m.CDResult.Eps), "iters": m.CDResult.NIter,
		"score": R(m.Score(M(in["Q"], lay), M(in["SY"], lay)))}
}

func runEnetPath(in Obj) Obj {
	lay := S(in["lay"])
	var al *[]float64
	if a := FV(in["alphas"]); len(a) > 0 {
		al = &a
	}
	X, Y := DL(in["X"], lay), DL(in["Y"], lay)
	var as, gaps []float64
	var cs []*mat.Dense
	var its []int
	if B(in["lasso"]) {
		as, cs, gaps, its = linearmodel.LassoPath(X, Y, F(in["tol"]), I(in["nalphas"]), al, false, B(in["positive"]))
	} else {
		as, cs, gaps, its = linearmodel.EnetPath(X, Y, F(in["l1"]), F(in["tol"]), I(in["nalphas"]), al, false, B(in["positive"]))
	}
	coefs := [][][]string{}
	for _, c := range cs {
		coefs = append(coefs, RM(c))
	}
	return Obj{"alphas": RV(as), "coefs": coefs, "gaps": RV(gaps), "iters": append([]int{}, its...)}
}

// wellConditioned tells whether the (centred) columns are safely independent
func wellConditioned(X [][]float64, centre, unit bool) bool {
	n, p := len(X), len(X[0])
	d := mat.NewDense(n, p, nil)
	for i := range X {
		d.SetRow(i, X[i])
	}
	for j := 0; j < p; j++ {
		if centre {
			m := mat.Sum(d.ColView(j)) / float64(n)
			for i := 0; i < n; i++ {
				d.Set(i, j, d.At(i, j)-m)
			}
		}
		if s := mat.Norm(d.ColView(j), 2); unit && s > 0 {
			for i := 0; i < n; i++ {
				d.Set(i, j, d.At(i, j)/s)
			}
		}
	}
	var svd mat.SVD
	if !svd.Factorize(d, mat.SVDNone) {
		return false
	}
	v := svd.Values(nil)
	return v[len(v)-1] > v[0]/20 && v[0] > 1e-6
}

// linProblem draws a full-rank regression problem
func linProblem(g *Gen, maxp, maxo int, icpt, unit bool) (X, Y [][]float64) {
	for {
		p, no := g.Range(1, maxp), g.Size(1, maxo, maxo+5)
		n := p + g.Size(2, 8, 30)
		if maxo == 1 {
			no, n = 1, p+g.Range(2, 8)
		}
		X = g.Mat(n, p, g.Pick("real", "int", "dyadic", "off"))
		if g.Intn(3) == 0 {
			for j := 0; j < p; j++ {
				s := g.PickF(1, 1, 1./4, 4)
				for i := range X {
					X[i][j] *= s
				}
			}
		}
		if !wellConditioned(X, icpt, unit) {
			continue
		}
		Y = g.Mat(n, no, g.Pick("real", "int"))
		for o := 0; o < no; o++ {
			for j := 0; j < p; j++ {
				c := g.PickF(0, 1, -2, 3, -.5)
				for i := range X {
					Y[i][o] += c * X[i][j]
				}
			}
			off := g.PickF(0, 0, 7, -100)
			for i := range X {
				Y[i][o] += off
			}
			Y[0][o] += .3717 // never constant
		}
		return
	}
}

func linCommon(g *Gen, in Obj, X, Y [][]float64) Obj {
	p, no := len(X[0]), len(Y[0])
	nq := g.Size(2, 5, 40)
	Q, SY := g.Mat(nq, p, "real"), g.Mat(nq, no, "real")
	in["X"], in["Y"], in["Q"], in["SY"] = RMM(X), RMM(Y), RMM(Q), RMM(SY)
	in["lay"], in["recv"] = g.Pick(Layouts...), g.Pick("nil", "empty", "view", "dense")
	in["X0"], in["Y0"] = []string{}, []string{}
	in["clone"] = g.Intn(4) == 0
	if g.Intn(3) == 0 {
		X0, Y0 := linProblem(g, 4, 3, true, false)
		if g.Flip() {
			X0, Y0 = linProblem(g, 4, 3, true, false)
			for try := 0; try < 100 && (len(X0[0]) != p || len(Y0[0]) != no); try++ {
				X0, Y0 = linProblem(g, 4, 3, true, false)
			}
		}
		in["X0"], in["Y0"] = RMM(X0), RMM(Y0)
	}
	return in
}

func genLS(g *Gen) {
	for n := 0; n < g.N(250, 2500); n++ {
		est := g.Pick("linear", "ridge", "sgd", "linear", "ridge")
		icpt, norm := g.Intn(3) > 0, g.Flip()
		X, Y := linProblem(g, 4, 3, icpt, icpt && norm)
		if est != "linear" && icpt && g.Intn(6) == 0 { // a constant feature
			c := g.PickF(0, 1, 7, -.1)
			for i := range X {
				X[i] = append(append([]float64{}, X[i]...), c)
			}
		}
		tiny := est == "linear" && g.Intn(6) == 0
		if tiny { // tiny features
			for i := range X {
				for j := range X[i] {
					X[i][j] /= 1 << 26
				}
			}
		}
		alpha := "0"
		if est != "linear" {
			alpha = g.Pick("0", "1", "1/2", "10", "1/10")
		}
		g.Add("ls", linCommon(g, Obj{"est": est, "icpt": icpt, "icpt0": g.Flip(), "norm": norm, "alpha": alpha, "method": g.Pick("", "bfgs"), "jobs": g.PickI(1, 0, 2)}, X, Y))
	}
	for n := 0; n < g.N(60, 600); n++ {
		icpt, norm := g.Intn(3) > 0, g.Flip()
		X, Y := linProblem(g, 3, 1, icpt, icpt && norm)
		g.Add("bayes", linCommon(g, Obj{"icpt": icpt, "norm": norm, "tol": g.Pick("1/1000", "1/10", "1/100000"), "niter": g.PickI(300, 300, 1, 2, 5),
			"a1": g.Pick("1/1000000", "1/2", "0"), "a2": g.Pick("1/1000000", "1/2"), "l1": g.Pick("1/1000000", "1/2", "0"), "l2": g.Pick("1/1000000", "1/2"), "cs": g.Flip()}, X, Y))
	}
}

func genEnet(g *Gen) {
	for n := 0; n < g.N(250, 2500); n++ {
		icpt, norm := g.Intn(3) > 0, g.Flip()
		X, Y := linProblem(g, 4, 3, icpt, icpt && norm)
		if g.Intn(8) == 0 { // a feature that is always zero
			for i := range X {
				X[i] = append(append([]float64{}, X[i]...), 0)
			}
		}
		if g.Intn(6) == 0 { // a small feature
			j := g.Intn(len(X[0]))
			for i := range X {
				X[i] = append([]float64{}, X[i]...)
				X[i][j] /= 1 << 14
			}
		}
		if g.Intn(6) == 0 { // small targets
			s := g.PickF(1<<8, 1<<5, 1<<11)
			for i := range Y {
				for o := range Y[i] {
					Y[i][o] /= s
				}
			}
		}
		ctor := g.Pick("enet", "lasso", "mtenet", "mtlasso", "enet")
		l1 := g.Pick("1/2", "1/10", "9/10", "1", "1/2", "0", "98/100")
		if ctor == "lasso" || ctor == "mtlasso" {
			l1 = "1"
		}
		ample := g.Intn(4) > 0
		maxiter, tol := 20000, g.Pick("1/10000", "1/1000000", "1/1000000000")
		if l1 == "0" {
			maxiter, tol = 3000, "1/100000000"
		}
		if !ample {
			maxiter = g.PickI(1, 2, 3, 5, 20)
		}
		g.Add("enet", linCommon(g, Obj{"icpt": icpt, "norm": norm, "ctor": ctor, "l1": l1, "alpha": g.Pick("1", "1/10", "1/2", "1/100", "3", "1000"), "tol": tol, "maxiter": maxiter,
			"positive": g.Intn(3) == 0, "sel": g.Pick("cyclic", "random", "cyclic"), "ample": ample, "warm": g.Intn(4) == 0}, X, Y))
	}
	for n := 0; n < g.N(60, 600); n++ {
		X, Y := linProblem(g, 4, 3, false, false)
		al := []string{}
		na := g.Range(1, 6)
		for k := 0; k < na; k++ {
			al = append(al, g.Pick("1", "1/10", "1/2", "1/100", "3", "10"))
		}
		l1 := g.Pick("1/2", "1/10", "9/10", "1")
		lasso := g.Intn(3) == 0
		if lasso {
			l1 = "1"
		}
		k := g.PickI(na, na, na+2, 1)
		if g.Intn(4) == 0 {
			al, k = []string{}, g.Range(2, 6)
		}
		g.Add("path", Obj{"X": RMM(X), "Y": RMM(Y), "alphas": al, "nalphas": k, "alpha": "0", "l1": l1, "lasso": lasso, "tol": g.Pick("1/10000", "1/1000000"), "maxiter": 1000, "ample": false,
			"positive": g.Intn(3) == 0, "lay": g.Pick(Layouts...), "icpt": false, "norm": false})
	}
}

func init() {
	register("linreg", genLS, map[string]func(Obj) Obj{"ls": runLS, "bayes": runBayes})
	register("enet", genEnet, map[string]func(Obj) Obj{"enet": runEnet, "path": runEnetPath})
}
