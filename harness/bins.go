package main

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

// ---- discretizer and shuffler (P10), PCA (P11)

func mkTrans4(c Obj) interface{} {
	switch S(c["kind"]) {
	case "bins":
		k := preprocessing.NewKBinsDiscretizer(I(c["nbins"]))
		k.Strategy, k.Encode = S(c["strategy"]), S(c["encode"])
		return k
	case "shuffler":
		return preprocessing.NewShuffler()
	case "pca":
		p := preprocessing.NewPCA()
		p.NComponents, p.MinVarianceRatio = I(c["ncomp"]), F(c["minratio"])
		return p
	}
	return nil
}

func numbered(n, c, off int) *mat.Dense {
	if c == 0 {
		return nil
	}
	d := mat.NewDense(n, c, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < c; j++ {
			d.Set(i, j, float64(off+(i+1)*10+j+1))
		}
	}
	return d
}

func binsOp(o interface{}, cfg, op, r Obj) bool {
	if k, ok := o.(*preprocessing.KBinsDiscretizer); ok {
		switch S(op["o"]) {
		case "fittransform":
			var y mat.Matrix
			if Y := D(op["Y"]); Y != nil {
				y = Y
			}
			X, Y := k.FitTransform(D(op["X"]), y)
			r["X"], r["Y"], r["edges"] = RM(X), RM(Y), RMM(k.BinEdges)
			return true
		case "transform":
			r["edges"] = RMM(k.BinEdges)
		case "roundtrip":
			r["edges"] = RMM(k.BinEdges)
			X, _ := k.Transform(D(op["X"]), nil)
			B, _ := k.InverseTransform(X, nil)
			r["X"] = RM(B)
			return true
		}
		return false
	}
	if S(op["o"]) != "shuffle" {
		return false
	}
	n, cx, cy, seed := I(op["n"]), I(op["cx"]), I(op["cy"]), I(op["seed"])
	mk := func() *preprocessing.Shuffler {
		s := preprocessing.NewShuffler()
		s.RandomState = base.NewLockedSource(uint64(seed))
		if op["pre"] != nil && I(op["pre"]) > 0 { // it has shuffled something else before
			s.FitTransform(numbered(I(op["pre"]), 1, 0), nil)
		}
		return s
	}
	X, Y := numbered(n, cx, 0), numbered(n, cy, 100000)
	if B(op["view"]) {
		X = LayView(X)
		if Y != nil {
			Y = LayView(Y)
		}
	}
	var ym mat.Matrix
	if Y != nil {
		ym = Y
	}
	m := mk()
	cl := m.TransformerClone().(*preprocessing.Shuffler)
	x, y := m.FitTransform(X, ym)
	r["X"], r["Y"] = RM(x), RM(y)
	a, _ := m.Transform(X, ym)
	r["again"] = RM(a)
	s, _ := mk().FitTransform(X, ym)
	r["sameseed"] = RM(s)
	c, _ := cl.FitTransform(X, ym)
	r["cloned"] = RM(c)
	bx, by := m.InverseTransform(x, y)
	r["invX"], r["invY"] = RM(bx), RM(by)
	_, by = m.InverseTransform(nil, y)
	r["invYonly"] = RM(by)
	cl = m.TransformerClone().(*preprocessing.Shuffler)
	f, _ := m.FitTransform(X, ym)
	g, _ := cl.FitTransform(X, ym)
	r["refit"], r["refitclone"] = RM(f), RM(g)
	return true
}

func eye(n int) *mat.Dense {
	d := mat.NewDense(n, n, nil)
	for i := 0; i < n; i++ {
		d.Set(i, i, 1)
	}
	return d
}

func pcaOp(o interface{}, cfg, op, r Obj) bool {
	p := o.(*preprocessing.PCA)
	X := D(op["X"])
	switch S(op["o"]) {
	case "fitted":
		V, _ := p.Transform(eye(I(op["d"])), nil)
		T, _ := p.Transform(X, nil)
		B, _ := p.InverseTransform(T, nil)
		r["V"], r["T"], r["B"], r["s"], r["ratio"] = RM(V), RM(T), RM(B), RV(p.SingularValues), RV(p.ExplainedVarianceRatio)
	case "probe":
		V, _ := p.Transform(eye(I(op["d"])), nil)
		var y mat.Matrix
		if Y := D(op["Y"]); Y != nil {
			y = Y
		}
		T, yo := p.Transform(X, y)
		B, _ := p.InverseTransform(T, nil)
		r["V"], r["X"], r["Y"], r["B"] = RM(V), RM(T), RM(yo), RM(B)
	default:
		return false
	}
	return true
}

func genBins(g *Gen) {
	for n := 0; n < g.N(80, 500); n++ {
		cfg := Obj{"kind": "bins", "nbins": g.Size(1, 7, 40), "strategy": g.Pick("uniform", "quantile"), "encode": g.Pick("ordinal", "onehot-dense")}
		style := g.Pick("real", "int", "dyadic", "nat", "off", "big")
		ops := []Obj{}
		p, objs := 1, 1
		for k := g.Range(1, 3); k > 0; k-- {
			c := g.Size(1, 4, 20)
			y := [][]string{}
			F := g.Mat(g.Size(1, 20, 150), c, style)
			if g.Flip() {
				ops = append(ops, Obj{"o": "fit", "p": p, "X": RMM(F), "Y": y})
			} else {
				ops = append(ops, Obj{"o": "fittransform", "p": p, "X": RMM(F), "Y": RMM(g.Mat(len(F), 2, "int"))})
			}
			Z := append(g.Mat(g.Range(1, 8), c, style), F[g.Intn(len(F))])
			ops = append(ops, Obj{"o": "transform", "p": p, "X": RMM(Z), "Y": y}, Obj{"o": "roundtrip", "p": p, "X": RMM(Z), "Y": y})
			if g.Flip() {
				ops = append(ops, Obj{"o": "clone", "p": p})
				objs++
				ops = append(ops, Obj{"o": "transform", "p": objs, "X": RMM(Z), "Y": y})
				p = g.Range(1, objs)
			}
		}
		g.Add("hist", Obj{"cfg": cfg, "lay": g.Pick(Layouts...), "ops": ops})
	}
	for n := 0; n < g.N(40, 200); n++ {
		g.Add("hist", Obj{"cfg": Obj{"kind": "shuffler"}, "lay": "packed", "ops": []Obj{{"o": "shuffle", "p": 1, "X": [][]string{}, "Y": [][]string{},
			"n": g.Size(1, 25, 200), "cx": g.Size(1, 3, 8), "cy": g.Size(0, 2, 6), "seed": g.Intn(1000), "view": g.Flip(), "pre": g.PickI(0, 0, 1, 3, 8, 30)}}})
	}
}

func genPCA(g *Gen) {
	none := [][]string{}
	for n := 0; n < g.N(70, 400); n++ {
		d := g.Size(1, 5, 12)
		cfg := Obj{"kind": "pca", "ncomp": 0, "minratio": "0"}
		rows := func() int { return g.Size(1, 9, 60) }
		if g.Flip() {
			cfg["ncomp"] = g.Range(1, d)
			rows = func() int { return g.Size(d, d+6, 60) }
		} else if g.Intn(3) == 0 {
			cfg["minratio"] = R(g.PickF(.25, .5, .75, .9375, 1))
		}
		ops := []Obj{}
		objs, p := 1, 1
		for k := g.Range(1, 3); k > 0; k-- {
			if I(cfg["ncomp"]) == 0 {
				d = g.Size(1, 5, 12)
			}
			F := g.Mat(rows(), d, g.Pick("real", "int", "dyadic", "off", "big"))
			if g.Intn(3) == 0 && d > 1 { // rank deficient
				for i := range F {
					F[i][d-1] = 2 * F[i][0]
				}
			}
			F[0][0] += 64
			ops = append(ops, Obj{"o": "fit", "p": p, "X": RMM(F), "Y": none}, Obj{"o": "fitted", "p": p, "d": d, "X": RMM(F), "Y": none},
				Obj{"o": "probe", "p": p, "d": d, "X": RMM(g.Mat(g.Range(1, 5), d, "real")), "Y": RMM(g.Mat(2, 1, "int"))})
			if g.Intn(3) == 0 {
				ops = append(ops, Obj{"o": "clone", "p": p})
				objs++
				ops = append(ops, Obj{"o": "fitted", "p": objs, "d": d, "X": RMM(F), "Y": none})
				p = g.Range(1, objs)
			}
		}
		g.Add("hist", Obj{"cfg": cfg, "lay": g.Pick(Layouts...), "ops": ops})
	}
}

func init() {
	register("bins", genBins, map[string]func(Obj) Obj{"hist": runTransHist(binsOp)})
	register("pca", genPCA, map[string]func(Obj) Obj{"hist": runTransHist(pcaOp)})
}
