package main

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"
)

// ---- support vector machines (P20)

type userKernel struct{}

func (userKernel) Func(a, b []float64) float64 {
	d := 0.
	for i := range a {
		d += (a[i] - b[i]) * (a[i] - b[i])
	}
	return 1 / (1 + d)
}

func mkSVM(in Obj) (base.Predicter, *svm.BaseLibSVM) {
	var p base.Predicter
	var b *svm.BaseLibSVM
	if S(in["kind"]) == "svc" {
		m := svm.NewSVC()
		p, b = m, &m.BaseLibSVM
	} else {
		m := svm.NewSVR()
		p, b = m, &m.BaseLibSVM
	}
	k := in["k"].(map[string]interface{})
	switch n := S(k["name"]); n {
	case "func":
		b.Kernel = func(a, b []float64) float64 {
			return 1 + 2*mat.Dot(mat.NewVecDense(len(a), a), mat.NewVecDense(len(b), b))
		}
	case "iface":
		b.Kernel = userKernel{}
	default:
		b.Kernel = n
	}
	b.Gamma, b.Coef0, b.Degree = F(k["gamma"]), F(k["coef0"]), F(k["degree"])
	b.C, b.Epsilon, b.Tol, b.MaxIter = F(in["C"]), F(in["eps"]), F(in["tol"]), I(in["maxiter"])
	b.CacheSize = uint(I(in["cache"]))
	b.RandomState = base.NewLockedSource(uint64(I(in["seed"])))
	if B(in["plainsrc"]) {
		b.RandomState = base.NewSource(uint64(I(in["seed"])))
	}
	return p, b
}

func runSVM(in Obj) Obj {
	lay := S(in["lay"])
	model := func(b *svm.BaseLibSVM, o int) Obj {
		m := b.Model[o]
		sv := [][]string{}
		for j := range b.SupportVectors[o] {
			sv = append(sv, RV(b.SupportVectors[o][j]))
		}
		return Obj{"support": append([]int{}, b.Support[o]...), "alphas": RV(m.Alphas), "b": R(m.B), "sv": sv}
	}
	p, b := mkSVM(in)
	if len(L(in["X0"])) > 0 { // an earlier fit
		p.Fit(M(in["X0"], lay), M(in["Y0"], lay))
	}
	Y := D(in["Y"])
	_, no := Y.Dims()
	p.Fit(M(in["X"], lay), M(in["Y"], lay))
	var P *mat.Dense
	nq := len(L(in["Q"]))
	switch S(in["recv"]) {
	case "nil":
		P = p.Predict(M(in["Q"], lay), nil)
	case "empty":
		P = &mat.Dense{}
		p.Predict(M(in["Q"], lay), P)
	case "view":
		P = LayView(mat.NewDense(nq, no, nil))
		p.Predict(M(in["Q"], lay), P)
	default:
		P = mat.NewDense(nq, no, nil)
		p.Predict(M(in["Q"], lay), P)
	}
	out := Obj{"P": RM(P)}
	models, alone := []Obj{}, []Obj{}
	for o := 0; o < no; o++ {
		models = append(models, model(b, o))
		q, c := mkSVM(in)
		q.Fit(M(in["X"], lay), Lay(mat.DenseCopyOf(Y.ColView(o)), lay))
		alone = append(alone, Obj{"model": model(c, 0), "P": RM(q.Predict(M(in["Q"], lay), nil))})
	}
	out["models"], out["alone"] = models, alone
	if len(L(in["SY"])) > 0 {
		out["score"] = R(p.Score(M(in["Q"], lay), M(in["SY"], lay)))
	}
	return out
}

func genSVM(g *Gen) {
	for n := 0; n < g.N(260, 3000); n++ {
		kind := g.Pick("svc", "svc", "svr")
		k := Obj{"name": g.Pick("linear", "poly", "polynomial", "rbf", "sigmoid", "func", "iface", "rbf", ""), "gamma": g.Pick("0", "1/2", "2", "1/10"), "coef0": g.Pick("0", "1", "1/2"), "degree": g.Pick("3", "2", "1")}
		if kind == "svr" && k["name"] == "sigmoid" {
			k["name"] = "rbf"
		}
		d := g.Size(1, 4, 11)
		conv := kind == "svc" && k["name"] != "sigmoid" && k["name"] != "func" && k["name"] != "poly" && g.Intn(3) > 0
		if k["name"] == "polynomial" {
			k["gamma"], k["coef0"], k["degree"] = "1/2", "1", "2"
		}
		no := 1
		if g.Intn(3) == 0 {
			no = g.Range(2, 4)
		}
		data := func(d int, conv bool) ([][]float64, [][]float64) {
			r := g.Size(3, 14, 40)
			if kind == "svr" { // its pairwise steps need not end on more
				r = g.Size(3, 12, 20)
			}
			if nm := k["name"]; kind == "svc" && !conv && r > 14 && (nm == "poly" || nm == "polynomial" || nm == "func" || nm == "linear") {
				r = 14
			}
			if conv && g.Intn(12) == 0 {
				r = g.Range(45, 70)
			}
			X := g.Mat(r, d, g.Pick("dyadic", "real"))
			Y := g.Mat(r, no, "real")
			if kind == "svc" {
				for o := 0; o < no; o++ {
					for i := range Y {
						Y[i][o] = g.PickF(-1, 1)
						if conv { // separable by the first feature
							Y[i][o] = -1
							if i%2 == (o % 2) {
								Y[i][o] = 1
							}
						}
					}
					Y[0][o], Y[1][o] = -Y[1][o], Y[1][o]
				}
			}
			if conv {
				for i := range X {
					for j := range X[i] {
						X[i][j] /= 4
					}
					X[i][0] = Y[i][0] * (1 + float64(g.Intn(3))/2 + float64(i)/16)
				}
				for o := 1; o < no; o++ {
					for i := range Y {
						Y[i][o] = Y[i][0] * Y[0][o] * Y[0][0]
					}
				}
			}
			return X, Y
		}
		X, Y := data(d, conv)
		X0, Y0 := [][]float64{}, [][]float64{}
		if g.Intn(4) == 0 {
			X0, Y0 = data(g.Range(1, 4), false)
		}
		if conv && (func() bool { // both classes in every output
			for o := 0; o < no; o++ {
				a, b := false, false
				for i := range Y {
					a, b = a || Y[i][o] > 0, b || Y[i][o] < 0
				}
				if !a || !b {
					return true
				}
			}
			return false
		})() {
			continue
		}
		if kind == "svr" && g.Intn(6) == 0 { // everything within epsilon: no support vector
			for i := range Y {
				for o := range Y[i] {
					Y[i][o] /= 1e6
				}
			}
		}
		if kind == "svr" { // distinct rows: the pairwise steps need not end otherwise
			for i := range X {
				X[i][0] += float64(i) / 64
			}
			for i := range X0 {
				X0[i][0] += float64(i) / 64
			}
		}
		Q := g.Mat(g.Size(1, 5, 25), d, "dyadic")
		if g.Intn(5) == 0 { // far away
			for i := range Q {
				for j := range Q[i] {
					Q[i][j] *= 4096
				}
			}
		}
		Q = append(Q, X[g.Intn(len(X))])
		SY := [][]float64{}
		if no == 1 && g.Flip() {
			for range Q {
				if kind == "svc" {
					SY = append(SY, g.Labels(1, 0, 1))
				} else {
					SY = append(SY, g.Vec(1, "real"))
				}
			}
			if kind == "svr" {
				SY[0][0] = SY[1][0] + 1
			}
		}
		mi := g.PickI(1, 5, 30)
		C, eps := g.Pick("1", "1/2", "5", "2"), g.Pick("1/10", "1/20", "1/100")
		if conv {
			C = g.Pick("2", "5", "10")
			eps = g.Pick("1/10", "1/20")
		}
		if conv {
			mi = 300
		}
		g.Add("svm", Obj{"kind": kind, "k": k, "C": C, "eps": eps, "tol": g.Pick("1/1000", "1/10000"), "maxiter": mi,
			"cache": g.PickI(200, 1, 0), "seed": g.Intn(1000), "plainsrc": g.Flip(), "conv": conv, "lay": g.Pick(Layouts...), "recv": g.Pick("nil", "empty", "view", "dense"),
			"X": RMM(X), "Y": RMM(Y), "X0": RMM(X0), "Y0": RMM(Y0), "Q": RMM(Q), "SY": RMM(SY)})
	}
}

func init() {
	register("svm", genSVM, map[string]func(Obj) Obj{"svm": runSVM})
}
