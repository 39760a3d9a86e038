package main

import (
	"github.com/pa-m/sklearn/base"
	lm "github.com/pa-m/sklearn/linear_model"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

// ---- logistic regression (P32)

func logisticParams(m *lm.LogisticRegression) Obj {
	W := mat.NewDense(m.Coef.Rows, m.Coef.Cols, nil)
	for i := 0; i < m.Coef.Rows; i++ {
		for j := 0; j < m.Coef.Cols; j++ {
			W.Set(i, j, m.Coef.Data[i*m.Coef.Stride+j])
		}
	}
	return Obj{"W": RM(W), "b": RV(m.Intercept), "loss": R(m.Loss)}
}

func runLogistic(in Obj) Obj {
	m := lm.NewLogisticRegression()
	m.Alpha, m.MaxIter, m.Tol = F(in["alpha"]), I(in["maxiter"]), F(in["tol"])
	switch S(in["src"]) {
	case "locked":
		m.RandomState = base.NewLockedSource(uint64(I(in["seed"])))
	case "plain":
		m.RandomState = base.NewSource(uint64(I(in["seed"])))
	case "rand":
		m.RandomState = rand.New(rand.NewSource(uint64(I(in["seed"]))))
	}
	est := []*lm.LogisticRegression{m}
	res := []Obj{}
	for _, o := range L(in["ops"]) {
		op := o.(map[string]interface{})
		e := est[I(op["h"])-1]
		switch S(op["op"]) {
		case "fit":
			e.Fit(M(op["X"], S(op["lay"])), M(op["Y"], S(op["layY"])))
			res = append(res, logisticParams(e))
		case "clone":
			c, ok := e.PredicterClone().(*lm.LogisticRegression)
			est = append(est, c)
			res = append(res, Obj{"ok": ok})
		default:
			nq := len(L(op["Q"]))
			Q := func() mat.Matrix { return M(op["Q"], S(op["lay"])) }
			call := func(f func(mat.Matrix, mat.Mutable) *mat.Dense) *mat.Dense {
				switch S(op["recv"]) {
				case "empty":
					P := &mat.Dense{}
					f(Q(), P)
					return P
				case "dense", "view":
					_, c := f(Q(), nil).Dims()
					P := mat.NewDense(nq, c, nil)
					if S(op["recv"]) == "view" {
						P = LayView(P)
					}
					f(Q(), P)
					return P
				}
				return f(Q(), nil)
			}
			r := logisticParams(e)
			r["P"] = RM(call(e.PredictProbas))
			r["Y"] = RM(call(e.Predict))
			if S(op["op"]) == "score" {
				r["score"] = R(e.Score(Q(), M(op["SY"], S(op["layY"]))))
			}
			res = append(res, r)
		}
	}
	return Obj{"res": res}
}

func genLogistic(g *Gen) {
	labelSets := [][]float64{{0, 1}, {0, 1}, {1, 2}, {-1, 1}, {0, 1, 2}, {-3, 0.5, 7}, {2, 4, 6, 8}, {0, 1, 2, 3}, {5, 10}}
	prob := func(nf int) (X, Y [][]float64) {
		ls := labelSets[g.Intn(len(labelSets))]
		if g.Intn(14) == 0 { // many classes
			ls = nil
			for c, k := 0, g.Range(6, 11); c < k; c++ {
				ls = append(ls, float64(3*c-4))
			}
		}
		onehot := len(ls) > 2 && g.Intn(3) == 0
		n := g.Size(len(ls)*2, len(ls)*2+10, 50)
		X = g.Mat(n, nf, g.Pick("int", "dyadic", "nat"))
		if g.Intn(6) == 0 { // a small feature
			c := g.Intn(nf)
			for i := range X {
				X[i][c] /= 64
			}
		}
		if len(ls) > 5 {
			for i := range X {
				for j := range X[i] {
					X[i][j] /= 4
				}
			}
		}
		lab := g.Labels(n, ls...)
		for i := range ls { // every class present
			lab[g.Intn(n)] = ls[i]
		}
		seen := map[float64]bool{}
		for _, v := range lab {
			seen[v] = true
		}
		if len(seen) < len(ls) {
			for i := range ls {
				lab[i] = ls[i]
			}
		}
		if onehot {
			for _, v := range lab {
				row := make([]float64, len(ls))
				for c := range ls {
					if ls[c] == v {
						row[c] = 1
					}
				}
				Y = append(Y, row)
			}
			return
		}
		return X, ColM(lab)
	}
	for i := 0; i < g.N(140, 1500); i++ {
		ops := []Obj{}
		fitted := []bool{false}
		type pr struct{ X, Y [][]float64 }
		last := []pr{{}}
		for k := 0; k < g.Range(2, 6); k++ {
			h := g.Range(1, len(fitted))
			c := g.Intn(6)
			switch {
			case c == 0 && len(fitted) < 3:
				ops = append(ops, Obj{"op": "clone", "h": h})
				fitted = append(fitted, fitted[h-1])
				last = append(last, last[h-1])
			case c <= 2 || !fitted[h-1]:
				X, Y := prob(g.Size(1, 4, 9))
				ops = append(ops, Obj{"op": "fit", "h": h, "X": RMM(X), "Y": RMM(Y), "lay": g.Pick(Layouts...), "layY": g.Pick(Layouts...)})
				fitted[h-1] = true
				last[h-1] = pr{X, Y}
				fallthrough
			default:
				p := last[h-1]
				nf := len(p.X[0])
				var Q [][]float64
				op := Obj{"op": "predict", "h": h, "lay": g.Pick(Layouts...), "layY": g.Pick(Layouts...), "recv": g.Pick("nil", "empty", "dense", "view")}
				if g.Flip() {
					Q = p.X
					op["op"] = "score"
					op["SY"] = RMM(p.Y)
				} else {
					Q = g.Mat(g.Range(1, 8), nf, g.Pick("int", "dyadic"))
					if g.Intn(3) == 0 { // far away
						for i := range Q {
							for j := range Q[i] {
								Q[i][j] *= 1000
							}
						}
					}
				}
				op["Q"] = RMM(Q)
				ops = append(ops, op)
			}
		}
		maxiter, tol, eps := 2000, 1e-13, 1e-4
		if g.Intn(5) == 0 { // the default stopping rule
			maxiter, tol, eps = 200, 1e-4, 0.25
		}
		g.Add("logistic", Obj{"alpha": R(g.PickF(1, 1, 0.0625, 0.5, 4, 32)), "maxiter": maxiter, "tol": R(tol), "eps": R(eps),
			"seed": g.Intn(1000), "src": g.Pick("locked", "plain", "rand", "none"), "ops": ops})
	}
}

func init() {
	register("logistic", genLogistic, map[string]func(Obj) Obj{"logistic": runLogistic})
}
