package main

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/neighbors"
	"gonum.org/v1/gonum/mat"
)

// ---- predictors over neighbours (P16)

func mkKNN(c Obj) base.Predicter {
	set := func(n *neighbors.NearestNeighbors) {
		n.Algorithm, n.LeafSize = S(c["alg"]), I(c["leaf"])
		if s := S(c["metric"]); s != "" {
			n.Metric = s
		} else {
			n.Metric, n.P = "minkowski", F(c["p"])
		}
	}
	switch S(c["kind"]) {
	case "knc":
		m := neighbors.NewKNeighborsClassifier(I(c["k"]), S(c["w"]))
		set(&m.NearestNeighbors)
		return m
	case "knr":
		var w interface{} = S(c["w"])
		if w == "inverse1" {
			w = func(dst, src []float64) {
				for i, d := range src {
					dst[i] = 1 / (1 + d)
				}
			}
		}
		m := neighbors.NewKNeighborsRegressor(I(c["k"]), w).(*neighbors.KNeighborsRegressor)
		set(&m.NearestNeighbors)
		return m
	case "centroid":
		metric := "euclidean"
		if S(c["p"]) == "1" {
			metric = "manhattan"
		}
		return neighbors.NewNearestCentroid(metric, 0)
	}
	panic("kind")
}

func runKNN(in Obj) Obj {
	lay := S(in["lay"])
	m := mkKNN(in["cfg"].(map[string]interface{}))
	res := []Obj{}
	ncls := 0
	for _, x := range L(in["ops"]) {
		op := x.(map[string]interface{})
		r := Obj{"ok": true}
		X := M(op["X"], lay)
		switch S(op["o"]) {
		case "fit":
			Y := M(op["Y"], lay)
			m.Fit(X, Y)
			cls := map[float64]bool{}
			n, _ := Y.Dims()
			for i := 0; i < n; i++ {
				cls[Y.At(i, 0)] = true
			}
			ncls = len(cls)
		case "predict":
			P := &mat.Dense{}
			P = m.Predict(X, P)
			r["P"] = RM(P)
		case "proba":
			n, _ := X.Dims()
			P := mat.NewDense(n, ncls, nil)
			P.Apply(func(i, j int, v float64) float64 { return 13 }, P)
			m.(*neighbors.KNeighborsClassifier).PredictProba(D(op["X"]), P)
			r["P"] = RM(P)
		case "score":
			r["score"] = R(m.Score(X, M(op["Y"], lay)))
			r["P"] = RM(m.Predict(M(op["X"], lay), &mat.Dense{}))
		}
		if c, ok := m.(*neighbors.NearestCentroid); ok {
			r["C"], r["classes"], r["counts"] = RM(c.Centroids), RV(c.Classes[0]), c.ClassCount[0]
		}
		res = append(res, r)
	}
	return Obj{"res": res}
}

func genKNN(g *Gen) {
	for n := 0; n < g.N(150, 1200); n++ {
		kind := g.Pick("knc", "knr", "centroid", "knc", "knr")
		large := n%8 == 0
		if large {
			kind = []string{"knr", "centroid", "knc"}[n/8%3]
		}
		cfg := Obj{"kind": kind, "p": g.Pick("2", "2", "1", "inf", "3"), "w": g.Pick("uniform", "distance"), "alg": g.Pick("auto", "brute", "kd_tree"), "leaf": g.PickI(1, 2, 10), "metric": ""}
		if kind == "knr" && g.Intn(4) == 0 {
			cfg["w"] = "inverse1"
		}
		if kind == "centroid" {
			cfg["p"] = g.Pick("1", "2")
		}
		if cfg["p"] == "2" && g.Flip() {
			cfg["metric"] = "euclidean"
		}
		if cfg["p"] == "1" && g.Flip() {
			cfg["metric"] = "manhattan"
		}
		k := g.Size(1, 6, 12)
		cfg["k"] = k
		style := g.Pick("int", "real", "dyadic", "nat", "off")
		ops := []Obj{}
		for f := g.Range(1, 2); f > 0; f-- {
			outs := 1
			if kind != "centroid" && g.Intn(3) == 0 {
				outs = g.Range(2, 3)
			}
			d, r := g.Size(1, 3, 7), g.Size(k, k+7, 80)
			nq := g.Size(2, 6, 40)
			if large {
				r, nq = g.Range(25, 90), g.Range(9, 60)
			}
			T := g.Mat(r, d, style)
			if g.Intn(4) == 0 {
				for i := 1; i < r; i += 3 {
					T[i] = T[i-1]
				}
			}
			var Y [][]float64
			cl := [][]float64{{0, 1}, {5, -2, .5}, {1}, {3, 2, 1, 0}}[g.Intn(4)]
			if kind == "knr" {
				Y = g.Mat(r, outs, g.Pick("real", "int"))
			} else {
				for i := 0; i < r; i++ {
					Y = append(Y, g.Labels(outs, cl...))
				}
			}
			ops = append(ops, Obj{"o": "fit", "X": RMM(T), "Y": RMM(Y)})
			Q := g.Mat(nq, d, style)
			if g.Flip() {
				Q[0] = T[g.Intn(r)]
			}
			ops = append(ops, Obj{"o": "predict", "X": RMM(Q), "Y": [][]string{}})
			if kind == "knc" && outs == 1 {
				ops = append(ops, Obj{"o": "proba", "X": RMM(Q), "Y": [][]string{}})
			}
			var YQ [][]float64
			for range Q {
				if kind == "knr" {
					YQ = append(YQ, g.Vec(outs, "real"))
				} else {
					YQ = append(YQ, g.Labels(outs, cl...))
				}
			}
			ops = append(ops, Obj{"o": "score", "X": RMM(Q), "Y": RMM(YQ)})
		}
		g.Add("hist", Obj{"cfg": cfg, "lay": g.Pick(Layouts...), "ops": ops})
	}
}

func init() {
	register("knn", genKNN, map[string]func(Obj) Obj{"hist": runKNN})
}
