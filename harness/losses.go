package main

import (
	"math"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"gonum.org/v1/gonum/mat"
)

// ---- losses and activations (P24)

func runLoss(in Obj) Obj {
	lay := S(in["lay"])
	f := map[string]linearmodel.Loss{"square": linearmodel.SquareLoss, "log": linearmodel.LogLoss, "cross-entropy": linearmodel.CrossEntropyLoss}[S(in["kind"])]
	if B(in["byname"]) {
		f = linearmodel.LossFunctions[S(in["kind"])]
	}
	a := base.Activations[S(in["act"])]
	Y := D(in["Y"])
	n, no := Y.Dims()
	T := D(in["Theta"])
	nf, _ := T.Dims()
	call := func(withGrad bool) (float64, *mat.Dense) {
		var grad *mat.Dense
		mk := func(r, c int) *mat.Dense {
			d := mat.NewDense(r, c, nil)
			d.Apply(func(i, j int, v float64) float64 { return 17 }, d)
			if lay == "view" {
				return LayView(d)
			}
			return d
		}
		if withGrad {
			grad = mk(nf, no)
		}
		Th := D(in["Theta"])
		if lay == "view" {
			Th = LayView(Th)
		}
		J := f(M(in["Y"], lay), M(in["X"], lay), Th, mk(n, no), mk(n, no), grad, F(in["alpha"]), F(in["l1"]), I(in["n"]), a, B(in["skip1"]))
		return J, grad
	}
	J, grad := call(true)
	J0, _ := call(false)
	return Obj{"J": R(J), "Jonly": R(J0), "grad": RM(grad)}
}

func runAct(in Obj) Obj {
	a := base.Activations[S(in["act"])]
	var f, d []float64
	for _, x := range FV(in["x"]) {
		y := a.F(x)
		f = append(f, y)
		d = append(d, a.Fprime(y))
	}
	return Obj{"f": RV(f), "d": RV(d)}
}

func genLosses(g *Gen) {
	for _, a := range []string{"identity", "logistic", "tanh", "relu"} {
		for n := 0; n < g.N(5, 50); n++ {
			x := g.Vec(12, g.Pick("real", "int", "dyadic"))
			x = append(x, 0, 1, -1, .5, 20, -20)
			g.Add("act", Obj{"act": a, "x": RV(x)})
		}
	}
	for n := 0; n < g.N(400, 4000); n++ {
		kind := g.Pick("square", "cross-entropy", "log", "square", "cross-entropy")
		act := g.Pick("identity", "logistic", "tanh", "relu")
		r, nf, no := g.Size(1, 9, 60), g.Size(1, 5, 12), g.Size(1, 3, 12)
		X := g.Mat(r, nf, g.Pick("real", "dyadic", "int"))
		T := g.Mat(nf, no, g.Pick("real", "dyadic"))
		Y := g.Mat(r, no, "real")
		for j := range T {
			for o := range T[j] {
				T[j][o] /= 4
				switch g.Intn(12) {
				case 0:
					T[j][o] = 0
				case 1: // next to nothing, but not nothing
					T[j][o] /= 1 << 36
				}
			}
		}
		if kind != "square" {
			for i := range Y {
				for o := range Y[i] {
					Y[i][o] = g.PickF(0, 1, 0, 1, .25, .5, .0625, .9375)
				}
			}
			if act != "logistic" { // predictions strictly between 0 and 1
				for j := range T {
					for o := range T[j] {
						T[j][o] = (1 + float64(g.Intn(16))) / 32 / float64(nf)
					}
				}
				for i := range X {
					for j := range X[i] {
						X[i][j] = (1 + float64(g.Intn(24))) / 16
					}
				}
			} else {
				for j := range T {
					for o := range T[j] {
						T[j][o] /= 4
					}
				}
				if g.Intn(4) == 0 { // predictions close to zero
					low := 0.
					for i := range X {
						for j := range X[i] {
							X[i][j] = math.Abs(X[i][j])
						}
						for o := 0; o < no; o++ {
							z := 0.
							for j := range X[i] {
								T[j][o] = -math.Abs(T[j][o])
								z += X[i][j] * T[j][o]
							}
							low = math.Min(low, z)
						}
					}
					f := math.Floor(g.PickF(12, 20, 28) / math.Max(-low, 1))
					for j := range T {
						for o := range T[j] {
							T[j][o] *= math.Max(f, 1)
						}
					}
				}
			}
		}
		ns := r
		if g.Intn(3) == 0 {
			ns = r + g.Range(1, 5) // a mini-batch of a larger problem
		}
		if g.Intn(6) == 0 {
			ns = g.Range(1, r)
		}
		if g.Flip() {
			for i := range X {
				X[i][0] = 1
			}
		}
		g.Add("loss", Obj{"kind": kind, "act": act, "X": RMM(X), "Y": RMM(Y), "Theta": RMM(T), "alpha": g.Pick("0", "1", "1/2", "3", "1/10"), "l1": g.Pick("0", "1", "1/2", "3/20"),
			"n": ns, "skip1": g.Flip(), "lay": g.Pick(Layouts...), "byname": g.Flip()})
	}
}

func init() {
	register("losses", genLosses, map[string]func(Obj) Obj{"loss": runLoss, "act": runAct})
}
