package main

import (
	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

// ---- LinFit (P34)

type fitRecorder struct {
	rows, cols int
	recs       []Obj
}

func (r *fitRecorder) Init() error { return nil }
func (r *fitRecorder) Record(l *optimize.Location, _ optimize.Operation, _ *optimize.Stats) error {
	x := append([]float64{}, l.X...)
	r.recs = append(r.recs, Obj{"theta": RM(mat.NewDense(r.rows, r.cols, x)), "F": R(l.F)})
	return nil
}

var linLosses = map[string]linearmodel.Loss{"square": linearmodel.SquareLoss, "log": linearmodel.LogLoss, "cross-entropy": linearmodel.CrossEntropyLoss}

func linX(v interface{}, lay string) *mat.Dense {
	d := D(v)
	if lay == "view" {
		return LayView(d)
	}
	return d
}

func runLinSolver(in Obj) Obj {
	c := in["c"].(map[string]interface{})
	lay := S(in["lay"])
	th := D(in["theta"])
	nf, no := th.Dims()
	events := []Obj{}
	loss := linLosses[S(in["kind"])]
	rec := &fitRecorder{rows: nf, cols: no, recs: []Obj{}}
	opts := &linearmodel.LinFitOptions{
		Epochs: I(in["epochs"]), MiniBatchSize: I(in["batch"]), Tol: -1, Solver: S(c["kind"]),
		Alpha: F(in["alpha"]), L1Ratio: F(in["l1"]), Activation: base.Activations[S(in["act"])],
		DisableRegularizationOfFirstFeature: B(in["skip1"]),
		ThetaInitializer:                    func(T *mat.Dense) { T.Copy(th) },
		SolverConfigure: func(o base.Optimizer) {
			s := o.(*base.SGDOptimizer)
			s.StepSize, s.Momentum, s.GradientClipping, s.RMSPropGamma, s.Epsilon = F(c["step"]), F(c["momentum"]), F(c["clip"]), F(c["gamma"]), F(c["eps"])
			if S(c["kind"]) == "adam" {
				s.Beta1, s.Beta2 = F(c["b1"]), F(c["b2"])
			}
		},
		Loss: func(Y, X mat.Matrix, T, P, Dd, G *mat.Dense, a, l float64, n int, act linearmodel.Activation, skip bool) float64 {
			before := RM(T)
			J := loss(Y, X, T, P, Dd, G, a, l, n, act, skip)
			e := Obj{"X": RM(X), "Y": RM(Y), "theta": before, "J": R(J), "grad": [][]string{}}
			if G != nil {
				e["grad"] = RM(G)
			}
			events = append(events, e)
			return J
		},
	}
	if !B(in["norec"]) {
		opts.Recorder = rec
	}
	res := linearmodel.LinFit(linX(in["X"], lay), linX(in["Y"], lay), opts)
	out := Obj{"theta": RM(res.Theta), "J": R(res.J), "events": events, "recs": rec.recs}
	return out
}

func runLinMethod(in Obj) Obj {
	lay := S(in["lay"])
	opts := &linearmodel.LinFitOptions{
		Alpha: F(in["alpha"]), Loss: linLosses[S(in["kind"])], Activation: base.Activations[S(in["act"])],
		DisableRegularizationOfFirstFeature: B(in["skip1"]), PerOutputFit: B(in["perout"]), Epochs: I(in["epochs"]),
	}
	if S(in["kind"]) == "square" && B(in["dflt"]) {
		opts.Loss, opts.Activation = nil, nil
	}
	X, Y := linX(in["X"], lay), linX(in["Y"], lay)
	m := S(in["method"])
	if m != "" {
		opts.GOMethodCreator = base.GOMethodCreators[m]
	}
	var res *linearmodel.LinFitResult
	if m == "" || B(in["perout"]) {
		res = linearmodel.LinFit(X, Y, opts)
	} else {
		res = linearmodel.LinFitGOM(X, Y, opts)
	}
	return Obj{"theta": RM(res.Theta), "J": R(res.J)}
}

func genLinFit(g *Gen) {
	for n := 0; n < g.N(150, 1500); n++ {
		kind := g.Pick("square", "square", "cross-entropy")
		act := "identity"
		if kind != "square" {
			act = "logistic"
		} else if g.Intn(4) == 0 {
			act = g.Pick("tanh", "logistic")
		}
		nf, no := g.Size(1, 4, 14), g.Size(1, 3, 10)
		r := g.Size(1, 12, 60)
		X, Y, T := g.Mat(r, nf, g.Pick("real", "dyadic", "int")), g.Mat(r, no, "dyadic"), g.Mat(nf, no, "dyadic")
		for i := range X {
			for j := range X[i] {
				X[i][j] /= 4
			}
		}
		for j := range T {
			for o := range T[j] {
				T[j][o] /= 8
			}
		}
		if kind != "square" {
			for i := range Y {
				for o := range Y[i] {
					Y[i][o] = g.PickF(0, 1)
				}
			}
		}
		if g.Intn(4) == 0 && r > 2 { // a repeated sample
			X[r-1], Y[r-1] = X[0], Y[0]
		}
		c := Obj{"kind": g.Pick("sgd", "adagrad", "rmsprop", "adadelta", "adam"), "step": g.Pick("1/2", "1/20", "1/10", "2"), "momentum": g.Pick("0", "9/10", "1/2"), "clip": g.Pick("0", "0", "1"), "gamma": g.Pick("9/10", "1/2"),
			"eps": g.Pick("1/100000000", "1/1000"), "b1": g.Pick("9/10", "1/2"), "b2": g.Pick("999/1000", "9/10")}
		if act != "identity" && kind == "square" || kind != "square" {
			c["step"] = g.Pick("1/2", "1/20", "1/10")
		}
		batch := g.PickI(0, 0, 1, 2, 3, r, r+3)
		if kind != "square" { // away from saturation
			c["kind"], c["step"], c["momentum"] = g.Pick("sgd", "adagrad", "rmsprop", "adam"), g.Pick("1/20", "1/50"), g.Pick("0", "0", "1/2")
			c["eps"] = "1/1000"
			if r > 12 {
				batch = g.PickI(0, r, 20)
			}
		}
		g.Add("solver", Obj{"kind": kind, "act": act, "X": RMM(X), "Y": RMM(Y), "theta": RMM(T), "alpha": g.Pick("0", "1", "1/2", "1/10"), "l1": g.Pick("0", "1", "1/2"), "skip1": g.Flip(),
			"lay": g.Pick("packed", "view"), "epochs": g.Size(1, 4, 12), "batch": batch, "c": c, "norec": g.Intn(3) == 0})
	}
	for n := 0; n < g.N(60, 600); n++ {
		kind := g.Pick("square", "cross-entropy")
		act := "identity"
		if kind != "square" {
			act = "logistic"
		}
		no := g.Size(1, 3, 8)
		r := g.Size(2, 14, 60)
		X, Y := g.Mat(r, g.Size(1, 4, 9), "real"), g.Mat(r, no, "dyadic")
		if kind != "square" {
			for i := range Y {
				for o := range Y[i] {
					Y[i][o] = g.PickF(0, 1)
				}
			}
		}
		g.Add("method", Obj{"kind": kind, "act": act, "X": RMM(X), "Y": RMM(Y), "alpha": g.Pick("1", "1/2", "3"), "l1": "0", "skip1": false,
			"lay": g.Pick("packed", "view"), "method": g.Pick("", "lbfgs", "bfgs"), "perout": g.Flip(), "dflt": g.Flip(), "epochs": 0})
	}
}

func init() {
	register("linfit", genLinFit, map[string]func(Obj) Obj{"solver": runLinSolver, "method": runLinMethod})
}
