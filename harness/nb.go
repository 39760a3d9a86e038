package main

import (
	naivebayes "github.com/pa-m/sklearn/naive_bayes"
	"gonum.org/v1/gonum/mat"
)

// ---- Gaussian naive Bayes (P19)

func runNB(in Obj) Obj {
	cfg := in["cfg"].(map[string]interface{})
	lay, recv := S(in["lay"]), S(in["recv"])
	var priors []float64
	if len(L(cfg["priors"])) > 0 {
		priors = FV(cfg["priors"])
	}
	ests := []*naivebayes.GaussianNB{naivebayes.NewGaussianNB(priors, F(cfg["smooth"]))}
	res := []Obj{}
	for _, x := range L(in["ops"]) {
		op := x.(map[string]interface{})
		m := ests[I(op["m"])-1]
		r := Obj{"ok": true}
		var w []float64
		if len(L(op["w"])) > 0 {
			w = FV(op["w"])
		}
		var X mat.Matrix
		if len(L(op["X"])) > 0 {
			X = M(op["X"], lay)
		}
		receiver := func(c int) mat.Mutable {
			n, _ := X.Dims()
			switch recv {
			case "nil":
				return nil
			case "empty":
				return &mat.Dense{}
			case "view":
				return LayView(mat.NewDense(n, c, nil))
			}
			return mat.NewDense(n, c, nil)
		}
		switch S(op["o"]) {
		case "fit":
			m.SampleWeight = w
			if op["via"] != nil && B(op["via"]) { // a clone takes over, weights and all
				m = m.PredicterClone().(*naivebayes.GaussianNB)
				ests[I(op["m"])-1] = m
			}
			m.Fit(X, M(op["Y"], lay))
		case "partial":
			classes := FV(op["classes"])
			m.PartialFit(X, M(op["Y"], lay), classes, B(op["refit"]), w)
			for i := range classes {
				classes[i] = -77
			}
		case "clone":
			ests = append(ests, m.PredicterClone().(*naivebayes.GaussianNB))
		case "predict":
			r["P"] = RM(m.Predict(X, receiver(1)))
		case "logproba":
			r["P"] = RM(m.PredictLogProbas(X, receiver(len(m.Classes))))
		case "proba":
			r["P"] = RM(m.PredictProbas(X, receiver(len(m.Classes))))
		case "score":
			r["score"] = R(m.Score(X, M(op["Y"], lay)))
			r["P"] = RM(m.Predict(X, nil))
		}
		if o := S(op["o"]); o == "fit" || o == "partial" {
			r["classes"], r["prior"], r["count"] = RV(m.Classes), RV(m.ClassPrior), RV(m.ClassCount)
			r["theta"], r["sigma"] = RM(m.Theta), RM(m.Sigma)
		}
		res = append(res, r)
	}
	return Obj{"res": res}
}

func genNB(g *Gen) {
	for n := 0; n < g.N(150, 1500); n++ {
		cl := [][]float64{{0, 1}, {-2, .5, 5}, {1, 2, 3, 10}, {7}}[g.Intn(4)]
		nf := g.Size(1, 4, 9)
		style := g.Pick("int", "real", "dyadic", "off", "nat")
		full := g.Intn(3) == 0 // whole history of full fits
		if !full {
			cl = append([]float64{}, cl...)
			g.Shuffle(len(cl), func(i, j int) { cl[i], cl[j] = cl[j], cl[i] })
		}
		priors := []float64{}
		if g.Intn(3) == 0 {
			left := 64.
			for i := range cl {
				v := float64(g.Range(1, 10))
				if i == len(cl)-1 {
					v = left
				}
				left -= v
				priors = append(priors, v/64)
			}
		}
		cfg := Obj{"priors": RV(priors), "smooth": g.Pick("1/1000000000", "1/100", "1/1000", "1/10", "1/1000000")}
		ops := []Obj{}
		data := func(all bool) (string, string, [][]float64, [][]float64, []float64) {
			r := g.Size(2, 10, 60)
			if all {
				r += len(cl)
			}
			X := g.Mat(r, nf, style)
			if len(X) > 1 {
				X[1][0] = X[0][0] + 1 + float64(g.Intn(3)) // not constant
			}
			y := g.Labels(r, cl...)
			if all {
				for i, c := range cl {
					y[i] = c
				}
				g.Shuffle(r, func(i, j int) { y[i], y[j] = y[j], y[i] })
			}
			var w []float64
			switch g.Intn(3) {
			case 0:
				w = make([]float64, r)
				for i := range w {
					w[i] = g.PickF(1, 2, .5, 3, .25)
				}
			}
			return "", "", X, ColM(y), w
		}
		nest := 1
		fitted := map[int]bool{}
		add := func(o string, m int, X, Y [][]float64, w []float64, refit bool) {
			ops = append(ops, Obj{"o": o, "m": m, "X": RMM(X), "Y": RMM(Y), "w": RV(w), "classes": RV(cl), "refit": refit, "via": o == "fit" && g.Intn(3) == 0})
		}
		for s := g.Range(3, 7); s > 0; s-- {
			m := g.Range(1, nest)
			switch k := g.Intn(8); {
			case k < 3 || !fitted[m]:
				_, _, X, Y, w := data(full || len(priors) > 0)
				if full || g.Intn(5) == 0 && len(priors) == 0 {
					add("fit", m, X, Y, w, true)
					if !full {
						// the class list of a later partial fit is the one seen by this fit
						_, _, X, Y, w = data(false)
						add("partial", m, X, Y, w, true)
					}
				} else {
					add("partial", m, X, Y, w, g.Intn(4) == 0)
				}
				fitted[m] = true
			case k == 3 && nest < 3:
				ops = append(ops, Obj{"o": "clone", "m": m, "X": [][]string{}, "Y": [][]string{}, "w": []string{}, "classes": []string{}, "refit": false})
				nest++
				fitted[nest] = fitted[m]
			default:
				Q := g.Mat(g.Range(1, 5), nf, style)
				Y := [][]float64{}
				for range Q {
					Y = append(Y, g.Labels(1, cl...))
				}
				add(g.Pick("predict", "logproba", "proba", "score"), m, Q, Y, nil, false)
			}
		}
		for m := 1; m <= nest; m++ {
			if fitted[m] {
				Q := g.Mat(g.Range(1, 5), nf, style)
				add("logproba", m, Q, nil, nil, false)
				add("predict", m, Q, nil, nil, false)
			}
		}
		g.Add("hist", Obj{"cfg": cfg, "lay": g.Pick(Layouts...), "recv": g.Pick("nil", "empty", "view", "dense"), "ops": ops})
	}
}

func init() {
	register("nb", genNB, map[string]func(Obj) Obj{"hist": runNB})
}
