package main

import (
	"math"

	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

// ---- row-wise transforms (P09), quantile and power transforms (P33)

func mkTrans3(c Obj) interface{} {
	switch S(c["kind"]) {
	case "norm":
		n := preprocessing.NewNormalizer()
		n.Norm, n.Axis = S(c["norm"]), I(c["axis"])
		return n
	case "binarize":
		b := preprocessing.NewBinarizer()
		b.Threshold = F(c["threshold"])
		return b
	case "poly":
		p := preprocessing.NewPolynomialFeatures(I(c["degree"]))
		p.InteractionOnly, p.IncludeBias = B(c["inter"]), B(c["bias"])
		return p
	case "impute":
		m := preprocessing.NewImputer()
		m.Strategy = S(c["strategy"])
		return m
	case "kcenter":
		return preprocessing.NewKernelCenterer()
	case "func":
		aff := func(a, b, ya float64) func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
			return func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
				return mapRows(X, false, func(v float64) float64 { return a*v + b }), mapRows(Y, false, func(v float64) float64 { return ya * v })
			}
		}
		return preprocessing.NewFunctionTransformer(aff(2, 3, -1), aff(.5, -1.5, -1))
	case "quantile":
		return preprocessing.NewQuantileTransformer(I(c["nq"]), "uniform", nil)
	case "power":
		p := preprocessing.NewPowerTransformer()
		p.Method, p.Standardize = S(c["method"]), B(c["standardize"])
		return p
	}
	return mkTrans4(c)
}

func rowwiseOp(o interface{}, cfg, op, r Obj) bool {
	if p, ok := o.(*preprocessing.PolynomialFeatures); ok && S(op["o"]) == "transform" {
		r["powers"] = p.Powers
		return false
	}
	if S(op["o"]) == "dummy" {
		X := D(op["X"])
		preprocessing.AddDummyFeature(X)
		r["X"] = RM(X)
		return true
	}
	return false
}

func powersOp(o interface{}, cfg, op, r Obj) bool {
	p, ok := o.(*preprocessing.PowerTransformer)
	if !ok {
		return false
	}
	switch S(op["o"]) {
	case "transform":
		r["lam"] = RV(p.Lambdas)
		return false
	case "fittransform":
		X, _ := p.FitTransform(D(op["X"]), nil)
		r["X"], r["Y"], r["lam"] = RM(X), [][]string{}, RV(p.Lambdas)
		return true
	case "lambdas":
		r["lam"] = RV(p.Lambdas)
		return true
	case "fixed":
		q := preprocessing.NewPowerTransformer()
		q.Method, q.Standardize, q.Lambdas = p.Method, false, FV(op["lam"])
		X, _ := q.Transform(D(op["X"]), nil)
		back, _ := q.InverseTransform(X, nil)
		r["X"], r["back"] = RM(X), RM(back)
		return true
	}
	return false
}

func genRowwise(g *Gen) {
	for n := 0; n < g.N(180, 1000); n++ {
		var cfg Obj
		style := g.Pick("int", "dyadic", "real", "real", "big", "tiny")
		switch n % 6 {
		case 0:
			cfg = Obj{"kind": "norm", "norm": g.Pick("l1", "l2", "max"), "axis": g.Intn(2)}
		case 1:
			cfg = Obj{"kind": "binarize", "threshold": R(g.PickF(0, 1, -2, 0.5, 0.1))}
			style = g.Pick("int", "dyadic", "real")
		case 2:
			cfg = Obj{"kind": "poly", "degree": g.PickI(1, 1, 2, 2, 3, 4, 5, 6, 7), "inter": g.Intn(3) == 0, "bias": g.Flip()}
			style = g.Pick("int", "dyadic", "real")
		case 3:
			cfg = Obj{"kind": "impute", "strategy": g.Pick("", "mean", "median", "most_frequent")}
			style = g.Pick("int", "nat", "real")
		case 4:
			cfg = Obj{"kind": "kcenter"}
		case 5:
			cfg = Obj{"kind": "func"}
		}
		kind := S(cfg["kind"])
		cols := g.Range(1, 4)
		draw := func(r int) [][]float64 {
			M := g.Mat(r, cols, style)
			for i := range M {
				if g.Intn(4) == 0 {
					for j := range M[i] {
						M[i][j] = 0
					}
				}
			}
			return M
		}
		holes := func(M [][]float64, keepRow int) [][]float64 {
			for i := range M {
				for j := range M[i] {
					if i != keepRow && g.Intn(3) == 0 {
						M[i][j] = math.NaN()
					}
				}
			}
			return M
		}
		fitX := func() [][]float64 {
			switch kind {
			case "kcenter":
				return draw(cols)
			case "impute":
				r := g.Size(1, 9, 80)
				return holes(g.Mat(r, cols, style), g.Intn(r))
			}
			return draw(g.Size(1, 6, 60))
		}
		ops := []Obj{}
		y := func(r int) [][]string {
			if g.Flip() {
				return [][]string{}
			}
			return RMM(g.Mat(r, g.Range(1, 2), "int"))
		}
		clones := 1
		for k := g.Range(1, 3); k > 0; k-- {
			if cols = g.Size(1, 4, 12); kind == "poly" && cols > 5 && I(cfg["degree"]) > 1 {
				cols = 5
			}
			if kind == "poly" && I(cfg["degree"]) > 4 && cols > 2 {
				cols = 2
			}
			if kind == "kcenter" {
				cols = g.Size(1, 6, 25)
			}
			X := fitX()
			p := g.Range(1, clones)
			if clones > 1 {
				ops = append(ops, Obj{"o": "clone", "p": p})
				clones++
				p = clones
			}
			if kind != "poly" && g.Intn(3) == 0 {
				ops = append(ops, Obj{"o": "fittransform", "p": p, "X": RMM(X), "Y": y(len(X))})
			} else {
				ops = append(ops, Obj{"o": "fit", "p": p, "X": RMM(X), "Y": [][]string{}})
			}
			if g.Intn(4) == 0 && clones == 1 {
				ops = append(ops, Obj{"o": "clone", "p": p})
				clones++
				p = 2
			}
			for t := g.Range(1, 3); t > 0; t-- {
				Z := draw(g.Size(1, 9, 60))
				if kind == "impute" {
					Z = holes(Z, -1)
				}
				ops = append(ops, Obj{"o": "transform", "p": p, "X": RMM(Z), "Y": y(len(Z))})
			}
			if kind == "poly" || kind == "func" || kind == "norm" {
				Z := draw(g.Range(1, 5))
				ops = append(ops, Obj{"o": "roundtrip", "p": p, "X": RMM(Z), "Y": y(len(Z))})
			}
		}
		g.Add("hist", Obj{"cfg": cfg, "lay": g.Pick(Layouts...), "ops": ops})
	}
	for n := 0; n < 6; n++ {
		g.Add("hist", Obj{"cfg": Obj{"kind": "func"}, "lay": "packed", "ops": []Obj{{"o": "dummy", "p": 1, "X": RMM(g.Mat(g.Range(1, 5), g.Range(1, 4), "real")), "Y": [][]string{}}}})
	}
}

func genPowers(g *Gen) {
	none := [][]string{}
	for n := 0; n < g.N(50, 300); n++ {
		nq := g.PickI(2, 3, 5, 9, 10, 17, 33, 60)
		cols := g.Size(1, 3, 12)
		style := g.Pick("real", "int", "nat", "dyadic", "off", "tiny", "big")
		ops := []Obj{}
		for k := g.Range(1, 2); k > 0; k-- {
			most := 200
			if cols > 3 || nq > 20 {
				most = 40
			}
			F := g.Mat(g.Size(2, 30, most), cols, style)
			ops = append(ops, Obj{"o": "fit", "p": 1, "X": RMM(F), "Y": none}, Obj{"o": "transform", "p": 1, "X": RMM(F), "Y": none})
			Z := g.Mat(g.Size(3, 12, most/2), cols, style)
			for j := range Z[0] {
				Z[0][j] *= 10
				Z[1][j] *= -10
			}
			ops = append(ops, Obj{"o": "transform", "p": 1, "X": RMM(Z), "Y": RMM(ColM(g.Vec(len(Z), "int")))})
		}
		g.Add("hist", Obj{"cfg": Obj{"kind": "quantile", "nq": nq}, "lay": g.Pick(Layouts...), "ops": ops})
	}
	for n := 0; n < g.N(40, 250); n++ {
		method := g.Pick("yeo-johnson", "box-cox")
		cfg := Obj{"kind": "power", "method": method, "standardize": g.Flip()}
		shape := g.PickF(0, 0, .4, -.5, 2) // a power of something symmetric
		draw := func(r, c int) [][]float64 {
			M := g.Mat(r, c, "real")
			for i := range M {
				for j := range M[i] {
					if method == "box-cox" {
						if shape == 0 {
							M[i][j] = math.Exp(M[i][j]/4) + .1
						} else {
							M[i][j] = math.Pow(6+math.Max(-4, math.Min(4, M[i][j]/2)), shape)
						}
					} else if g.Intn(4) > 0 {
						M[i][j] = math.Abs(M[i][j]) * 2
					}
					M[i][j] = math.Round(M[i][j]*4096) / 4096
				}
			}
			return M
		}
		c, most := g.Size(1, 3, 7), 120
		if c > 3 {
			most = 31
		}
		F := draw(g.Size(8, 30, most), c)
		ops := []Obj{{"o": "fit", "p": 1, "X": RMM(F), "Y": none}, {"o": "lambdas", "p": 1, "X": none, "Y": none},
			{"o": "transform", "p": 1, "X": RMM(draw(g.Range(1, 6), c)), "Y": none}, {"o": "roundtrip", "p": 1, "X": RMM(draw(4, c)), "Y": none}}
		F2 := draw(g.Range(8, 20), c)
		ops = append(ops, Obj{"o": "fittransform", "p": 1, "X": RMM(F2), "Y": none}, Obj{"o": "roundtrip", "p": 1, "X": RMM(draw(4, c)), "Y": none},
			Obj{"o": "clone", "p": 1}, Obj{"o": "fit", "p": 1, "X": RMM(F), "Y": none}, Obj{"o": "transform", "p": 2, "X": RMM(draw(3, c)), "Y": none})
		lam := []float64{g.PickF(0, 2, 1, -1, .5, 2.5, 1./512, 2-1./512), g.PickF(0, 2, .25, 3, -1./256, -3)}
		ops = append(ops, Obj{"o": "fixed", "p": 1, "lam": RV(lam), "X": RMM(draw(5, 2)), "Y": none})
		g.Add("hist", Obj{"cfg": cfg, "lay": g.Pick(Layouts...), "ops": ops})
	}
}

func init() {
	register("rowwise", genRowwise, map[string]func(Obj) Obj{"hist": runTransHist(rowwiseOp)})
	register("powers", genPowers, map[string]func(Obj) Obj{"hist": runTransHist(powersOp)})
}
