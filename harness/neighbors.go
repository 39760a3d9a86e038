package main

import (
	"math"

	"github.com/pa-m/sklearn/cluster"
	"github.com/pa-m/sklearn/neighbors"
	"gonum.org/v1/gonum/mat"
)

// ---- neighbour search (P15)

// plainVec is a vector that shows nothing of its storage.
type plainVec struct{ mat.Vector }

func runNeighbors(in Obj) Obj {
	lay := S(in["lay"])
	p := F(in["p"])
	m := neighbors.NewNearestNeighbors()
	m.Algorithm = S(in["alg"])
	m.LeafSize = I(in["leaf"])
	if s := S(in["metric"]); s != "" {
		m.Metric = s
	} else {
		m.Metric, m.P = "minkowski", p
	}
	if in["jobs"] != nil {
		m.NJobs = I(in["jobs"])
	}
	var T mat.Matrix
	res := []Obj{}
	for _, x := range L(in["ops"]) {
		op := x.(map[string]interface{})
		r := Obj{}
		var Q mat.Matrix
		if op["Q"] != nil {
			Q = M(op["Q"], lay)
		}
		k := 0
		if op["k"] != nil {
			k = I(op["k"])
		}
		switch S(op["o"]) {
		case "fit":
			T = M(op["X"], lay)
			m.Fit(T, nil)
			r["ok"] = true
		case "knn":
			d, i := m.KNeighbors(Q, k)
			r["d"], r["i"] = RM(d), RM(i)
		case "graph":
			d, i := m.KNeighbors(Q, k)
			g := m.KNeighborsGraph(DL(op["Q"], lay), k, S(op["mode"]), B(op["self"]))
			r["d"], r["i"], r["G"] = RM(d), RM(i), RM(g)
		case "radius":
			d, i := m.RadiusNeighbors(DL(op["Q"], lay), F(op["rad"]))
			ii := make([][]int, len(i))
			for a := range i {
				ii[a] = append([]int{}, i[a]...)
			}
			r["d"], r["i"] = RMM(d), ii
		case "tree":
			t := neighbors.NewKDTree(T, I(op["leaf"]))
			d, i := t.Query(Q, k, F(op["eps"]), p, F(op["bound"]))
			r["d"], r["i"] = RM(d), RM(i)
		case "dist":
			// rows and columns of a matrix, so that increments vary
			a, b := FV(op["a"]), FV(op["b"])
			big := mat.NewDense(len(a), 3, nil)
			for j := range a {
				big.Set(j, 0, 1000)
				big.Set(j, 1, a[j])
			}
			va, vb := mat.Vector(big.ColView(1)), mat.Vector(mat.NewVecDense(len(b), b))
			vecs := [][2]mat.Vector{{va, vb}, {plainVec{va}, vb}, {va, plainVec{vb}}, {plainVec{va}, plainVec{vb}}}
			all := [][]string{}
			for _, v := range vecs {
				all = append(all, []string{R(neighbors.MinkowskiDistance(p)(v[0], v[1])), R(cluster.MinkowskiDistance(p)(v[0], v[1])), R(neighbors.EuclideanDistance(v[0], v[1])), R(cluster.EuclideanDistance(v[0], v[1])),
					R(neighbors.MinkowskiDistanceP(v[0], v[1], p)), R(cluster.MinkowskiDistanceP(v[0], v[1], p))})
			}
			r["all"] = all
			r["mink"], r["eucl"], r["minkp"] = R(neighbors.MinkowskiDistance(p)(va, vb)), R(neighbors.EuclideanDistance(va, vb)), R(neighbors.MinkowskiDistanceP(vb, va, p))
		case "rect":
			lo, hi, lo2, hi2, x := FV(op["lo"]), FV(op["hi"]), FV(op["lo2"]), FV(op["hi2"]), FV(op["x"])
			q := F(op["p"])
			a, b := neighbors.NewRectangle(hi, lo), neighbors.NewRectangle(hi2, lo2)
			r["minp"], r["maxp"], r["minr"], r["maxr"] = R(a.MinDistancePoint(x, q)), R(a.MaxDistancePoint(x, q)), R(a.MinDistanceRectangle(b, q)), R(a.MaxDistanceRectangle(b, q))
			r["vol"] = R(a.Volume())
			l, gr := a.Split(I(op["d"])-1, F(op["split"]))
			r["less"], r["greater"] = [][]string{RV(l.Mins), RV(l.Maxes)}, [][]string{RV(gr.Mins), RV(gr.Maxes)}
		default:
			panic("op " + S(op["o"]))
		}
		res = append(res, r)
	}
	return Obj{"res": res}
}

// points draws a training set with the shapes that trouble search trees: duplicates, collinear points, many equal
// coordinates, adjacent floats, clusters.
func (g *Gen) points(n, d int, style string) [][]float64 {
	X := g.Mat(n, d, style)
	switch g.Intn(6) {
	case 0: // duplicates
		for i := 1; i < n; i += 2 {
			X[i] = append([]float64(nil), X[g.Intn(i)]...)
		}
	case 1: // one coordinate nearly constant
		j := g.Intn(d)
		for i := range X {
			if g.Intn(4) > 0 {
				X[i][j] = X[0][j]
			}
		}
	case 2: // collinear
		for i := range X {
			t := float64(g.Range(-8, 8)) / 4
			for j := range X[i] {
				X[i][j] = t * float64(j+1)
			}
		}
	case 3: // all the same
		if g.Flip() {
			for i := range X {
				X[i] = X[0]
			}
		}
	}
	return X
}

func genNeighbors(g *Gen) {
	exactP := []string{"1", "2", "inf"}
	for n := 0; n < g.N(110, 900); n++ {
		p := g.Pick("1", "2", "inf", "3", "3/2", "2")
		metric := ""
		if p == "1" && g.Flip() {
			metric = g.Pick("manhattan", "cityblock", "l1")
		}
		if p == "2" && g.Flip() {
			metric = g.Pick("euclidean", "l2")
		}
		style := g.Pick("int", "real", "dyadic", "off", "nat")
		ops := []Obj{}
		d := g.Size(1, 4, 9)
		alg := g.Pick("kd_tree", "brute", "auto", "kd_tree", "ball_tree")
		for f := g.Range(1, 2); f > 0; f-- {
			r := g.Size(1, 40, 160)
			if alg == "auto" && f == 2 || g.Intn(12) == 0 {
				r = 1001/d + g.Range(1, 40) // large enough for a tree
			}
			T := g.points(r, d, style)
			ops = append(ops, Obj{"o": "fit", "X": RMM(T)})
			nq := g.Size(1, 4, 24)
			if r > 200 {
				nq = 1
			}
			Q := g.Mat(nq, d, style)
			if g.Flip() {
				Q[0] = append([]float64(nil), T[g.Intn(r)]...)
			}
			if g.Intn(4) == 0 { // far outside
				for j := range Q[0] {
					Q[0][j] *= 20
				}
			}
			k := g.Range(1, r)
			if k > 20 && r > 60 {
				k = g.Range(1, 30)
			}
			ops = append(ops, Obj{"o": "knn", "Q": RMM(Q), "k": k})
			if g.Flip() && r <= 40 {
				ops = append(ops, Obj{"o": "graph", "Q": RMM(Q), "k": k, "mode": g.Pick("connectivity", "distance"), "self": g.Flip()})
			}
			exact := (p == exactP[0] || p == exactP[1] || p == exactP[2]) && style != "real" && style != "off"
			ops = append(ops, Obj{"o": "radius", "Q": RMM(Q), "rad": R(g.PickF(0, 1, 2.5, 5, 8, .125)), "exact": exact})
			if r <= 40 || g.Flip() {
				ops = append(ops, Obj{"o": "tree", "Q": RMM(Q), "k": g.Size(1, 6, 40), "eps": R(g.PickF(0, 0, .5, 1)), "bound": R(g.PickF(math.Inf(1), math.Inf(1), 1.5, 4.25)), "leaf": g.PickI(0, 1, 2, 5, 30)})
			}
		}
		for k := g.Intn(3); k > 0; k-- {
			e := g.Range(1, 5)
			ops = append(ops, Obj{"o": "dist", "a": RV(g.Vec(e, style)), "b": RV(g.Vec(e, style))})
			lo, lo2, hi, hi2 := g.Vec(e, "dyadic"), g.Vec(e, "dyadic"), make([]float64, e), make([]float64, e)
			for j := range lo {
				hi[j], hi2[j] = lo[j]+g.Val("nat"), lo2[j]+g.Val("nat")
			}
			a := g.Intn(e)
			ops = append(ops, Obj{"o": "rect", "lo": RV(lo), "hi": RV(hi), "lo2": RV(lo2), "hi2": RV(hi2), "x": RV(g.Vec(e, "dyadic")), "p": g.Pick("1", "2", "inf"), "d": a + 1, "split": R((lo[a] + hi[a]) / 2)})
		}
		g.Add("hist", Obj{"p": p, "metric": metric, "alg": alg, "leaf": g.PickI(0, 1, 2, 3, 10), "jobs": g.PickI(-1, 1, 2, 3), "lay": g.Pick(Layouts...), "ops": ops})
	}
	// neighbouring doubles
	for n := 0; n < 4; n++ {
		a := g.NormFloat64()
		b := math.Nextafter(a, 9)
		c := math.Nextafter(b, 9)
		T := [][]float64{{a, 0}, {b, 0}, {c, 0}, {b, 0}, {c, 0}}
		g.Add("hist", Obj{"p": "2", "metric": "", "alg": "kd_tree", "leaf": 1, "lay": "packed", "ops": []Obj{{"o": "fit", "X": RMM(T)}, {"o": "knn", "Q": RMM([][]float64{{a, 1}, {-a, 3}}), "k": 3}}})
	}
}

func init() {
	register("neighbors", genNeighbors, map[string]func(Obj) Obj{"hist": runNeighbors})
}
