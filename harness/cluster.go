package main

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	"gonum.org/v1/gonum/mat"
)

// ---- clustering (P17, P18)

func runDBSCAN(in Obj) Obj {
	c := in["cfg"].(map[string]interface{})
	lay := S(in["lay"])
	var m base.Predicter = cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: F(c["eps"]), MinSamples: F(c["min"]), Metric: S(c["metric"]), Algorithm: S(c["alg"]), LeafSize: I(c["leaf"]), P: F(c["p"]), NJobs: I(c["jobs"])})
	res := []Obj{}
	for _, x := range L(in["ops"]) {
		op := x.(map[string]interface{})
		m.(*cluster.DBSCAN).SampleWeight = weightsOf(op)
		if B(op["clone"]) {
			m = m.PredicterClone()
		}
		d := m.(*cluster.DBSCAN)
		m.Fit(M(op["X"], lay), nil)
		P := m.Predict(M(op["X"], lay), &mat.Dense{})
		res = append(res, Obj{"labels": append([]int{}, d.Labels...), "core": append([]int{}, d.CoreSampleIndices...), "P": RM(P)})
	}
	return Obj{"res": res}
}

func runKMeans(in Obj) Obj {
	lay := S(in["lay"])
	var dist func(a, b mat.Vector) float64
	if in["dw"] != nil && len(L(in["dw"])) > 0 { // a distance of the user's: weighted Euclidean
		dw := FV(in["dw"])
		dist = func(a, b mat.Vector) (d float64) {
			for j := range dw {
				d += dw[j] * (a.AtVec(j) - b.AtVec(j)) * (a.AtVec(j) - b.AtVec(j))
			}
			return d
		}
	}
	m := &cluster.KMeans{NClusters: I(in["k"]), NJobs: I(in["jobs"]), Distance: dist}
	if in["pre"] != nil && len(L(in["pre"])) > 0 { // it has been fitted on something else before
		m.Fit(M(in["pre"], lay), nil)
	}
	if in["clone"] != nil && B(in["clone"]) {
		m = m.PredicterClone().(*cluster.KMeans)
	}
	m.Fit(M(in["X"], lay), nil)
	o := Obj{"C": RM(m.Centroids)}
	o["L"] = RM(m.Predict(M(in["X"], lay), &mat.Dense{}))
	o["P"] = RM(m.Predict(M(in["Q"], lay), &mat.Dense{}))
	others := [][][]string{}
	for _, j := range []int{1, 3, 8} {
		k := &cluster.KMeans{NClusters: I(in["k"]), NJobs: j, Distance: dist}
		k.Fit(M(in["X"], lay), nil)
		others = append(others, RM(k.Centroids))
	}
	m.Fit(M(in["X"], lay), nil)
	o["others"] = append(others, RM(m.Centroids))
	return o
}

func genDBSCAN(g *Gen) {
	for n := 0; n < g.N(120, 1000); n++ {
		p := g.Pick("2", "2", "1", "inf")
		metric := "minkowski"
		if p == "2" && g.Flip() {
			metric = "euclidean"
		}
		if p == "1" && g.Flip() {
			metric = "manhattan"
		}
		style := g.Pick("int", "nat", "dyadic", "off")
		eps := g.PickF(1, 1.5, 2, .5, 3)
		cfg := Obj{"p": p, "eps": R(eps), "min": R(g.PickF(1, 2, 3, 4, 2.5, .5, 7)), "metric": metric, "alg": g.Pick("auto", "brute", "kd_tree"), "leaf": g.PickI(1, 2, 30), "jobs": g.PickI(0, 1, 2, -1)}
		ops := []Obj{}
		for k := g.Range(1, 3); k > 0; k-- {
			r, d := g.Size(1, 25, 50), g.Size(1, 3, 6)
			X := g.Mat(r, d, style)
			if g.Intn(3) == 0 { // a chain with gaps
				at := 0.
				for i := range X {
					at += g.PickF(eps, eps, eps/2, 2*eps)
					for j := range X[i] {
						X[i][j] = 0
					}
					X[i][0] = at
				}
				g.Shuffle(r, func(a, b int) { X[a], X[b] = X[b], X[a] })
			}
			w := []string{}
			if g.Intn(3) == 0 {
				w = RV(g.Vec(r, g.Pick("pos", "dyadic")))
			}
			ops = append(ops, Obj{"o": "fit", "X": RMM(X), "w": w, "clone": g.Intn(4) == 0})
		}
		g.Add("hist", Obj{"cfg": cfg, "lay": g.Pick(Layouts...), "ops": ops})
	}
}

func genKMeans(g *Gen) {
	for n := 0; n < g.N(80, 700); n++ {
		r, d := g.Size(2, 40, 300), g.Size(1, 4, 9)
		style := g.Pick("int", "real", "dyadic", "off", "nat")
		X := g.Mat(r, d, style)
		k := g.Size(1, 6, 15)
		if k > r {
			k = r
		}
		if g.Flip() { // separated groups
			for i := range X {
				X[i][0] += float64(g.Intn(k)) * 100
			}
		}
		dw, pre := []string{}, [][]string{}
		if g.Intn(3) == 0 {
			for j := 0; j < d; j++ {
				dw = append(dw, R(g.PickF(1, 4, .25, 2)))
			}
		}
		if g.Intn(3) == 0 {
			pd := d
			if len(dw) == 0 {
				pd = g.Range(1, 5)
			}
			pre = RMM(g.Mat(k+g.Intn(20), pd, style))
		}
		g.Add("kmeans", Obj{"dw": dw, "pre": pre, "clone": g.Intn(3) == 0, "X": RMM(X), "Q": RMM(g.Mat(g.Size(1, 8, 60), d, style)), "k": k, "lay": g.Pick(Layouts...), "jobs": g.PickI(0, 1, 2, 5)})
	}
}

func init() {
	register("dbscan", genDBSCAN, map[string]func(Obj) Obj{"hist": runDBSCAN})
	register("kmeans", genKMeans, map[string]func(Obj) Obj{"kmeans": runKMeans})
}
