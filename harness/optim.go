package main

import (
	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
)

// ---- gradient optimizers (P23)

func runOptim(in Obj) Obj {
	c := in["c"].(map[string]interface{})
	lay := S(in["lay"])
	kind := S(c["kind"])
	var o base.Optimizer
	if lay == "view" {
		o = base.NewOptimizer(kind)
	} else if lay == "foreign" {
		o = base.NewSolver(kind)()
	} else {
		o = base.Solvers[kind]()
	}
	s := o.(*base.SGDOptimizer)
	if !B(c["preset"]) { // otherwise the constructor's own settings apply
		s.StepSize, s.Momentum, s.GradientClipping, s.RMSPropGamma, s.Epsilon = F(c["step"]), F(c["momentum"]), F(c["clip"]), F(c["gamma"]), F(c["eps"])
		if kind == "adam" {
			s.Beta1, s.Beta2 = F(c["b1"]), F(c["b2"])
		}
	}
	th := D(in["theta"])
	r, k := th.Dims()
	// parameters inside a larger array
	big := mat.NewDense(r+2, k+2, nil)
	big.Apply(func(i, j int, v float64) float64 { return 77 }, big)
	view := big.Slice(1, r+1, 1, k+1).(*mat.Dense)
	view.Copy(th)
	s.SetTheta(view)
	res := []Obj{}
	for _, x := range L(in["ops"]) {
		op := x.(map[string]interface{})
		e := Obj{}
		switch S(op["o"]) {
		case "theta":
			view.Copy(D(op["g"]))
			o.SetTheta(view)
		case "get":
			up := mat.NewDense(r, k, nil)
			up.Apply(func(i, j int, v float64) float64 { return 5 }, up)
			o.GetUpdate(up, M(op["g"], lay))
			e["up"] = RM(up)
			up.Scale(0, up) // the caller may reuse its buffer
		default:
			o.UpdateParams(M(op["g"], lay))
		}
		outside := o.GetTheta() == view
		for i := 0; i < r+2; i++ {
			for j := 0; j < k+2; j++ {
				if (i == 0 || j == 0 || i == r+1 || j == k+1) && big.At(i, j) != 77 {
					outside = false
				}
			}
		}
		e["outside"], e["theta"], e["t"] = outside, RM(view), int(o.GetTimeStep())
		res = append(res, e)
	}
	return Obj{"res": res}
}

func genOptim(g *Gen) {
	presets := map[string]Obj{
		"sgd":      {"step": "1/10000", "momentum": "9/10", "clip": "0", "gamma": "9/10", "eps": "1/100000000", "b1": "0", "b2": "0"},
		"adagrad":  {"step": "1/2", "momentum": "0", "clip": "10", "gamma": "9/10", "eps": "1/100000000", "b1": "0", "b2": "0"},
		"adadelta": {"step": "1/10000", "momentum": "0", "clip": "0", "gamma": "9/10", "eps": "1/100000000", "b1": "0", "b2": "0"},
		"rmsprop":  {"step": "1/20", "momentum": "0", "clip": "0", "gamma": "9/10", "eps": "1/100000000", "b1": "0", "b2": "0"},
		"adam":     {"step": "1/2", "momentum": "0", "clip": "0", "gamma": "0", "eps": "1/100000000", "b1": "9/10", "b2": "999/1000"},
	}
	for n := 0; n < g.N(150, 1500); n++ {
		kind := g.Pick("sgd", "adagrad", "rmsprop", "adadelta", "adam")
		c := Obj{"kind": kind, "preset": false, "step": g.Pick("1/2", "1/20", "1", "1/10000"), "momentum": g.Pick("0", "9/10", "1/2"), "clip": g.Pick("0", "0", "1", "10"), "gamma": g.Pick("9/10", "1/2", "99/100"),
			"eps": g.Pick("1/100000000", "1/1000"), "b1": g.Pick("9/10", "1/2", "0"), "b2": g.Pick("999/1000", "9/10")}
		if g.Intn(3) == 0 {
			c = Obj{"kind": kind, "preset": true}
			for k, v := range presets[kind] {
				c[k] = v
			}
		}
		r, k := g.Size(1, 4, 20), g.Size(1, 3, 14)
		th := g.Mat(r, k, "real")
		ops := []Obj{}
		steps := g.Range(1, 12)
		if g.Intn(12) == 0 {
			steps = g.Range(30, 120)
		}
		style := g.Pick("real", "real", "dyadic", "big")
		if style == "big" && c["clip"] == "0" && kind == "sgd" {
			style = "real"
		}
		small := g.Intn(6) == 0 // everything near zero
		if small {
			for i := range th {
				for j := range th[i] {
					th[i][j] /= 1 << 33
				}
			}
		}
		for t := 0; t < steps; t++ {
			gr := g.Mat(r, k, style)
			if small {
				gr = g.Mat(r, k, "tiny")
			}
			if style == "dyadic" || g.Intn(4) == 0 {
				for i := range gr {
					for j := range gr[i] {
						if g.Intn(3) == 0 {
							gr[i][j] = 0
						}
					}
				}
			}
			if g.Intn(3) == 0 {
				for i := range gr {
					for j := range gr[i] {
						gr[i][j] /= 64
					}
				}
			}
			o := "update"
			if g.Intn(8) == 0 {
				o = "get"
			}
			if g.Intn(12) == 0 {
				o = "theta"
			}
			ops = append(ops, Obj{"o": o, "g": RMM(gr)})
		}
		g.Add("opt", Obj{"c": c, "theta": RMM(th), "lay": g.Pick(Layouts...), "ops": ops})
	}
}

func init() {
	register("optim", genOptim, map[string]func(Obj) Obj{"opt": runOptim})
}
