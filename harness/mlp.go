package main

import (
	"encoding/json"
	"fmt"

	"github.com/pa-m/sklearn/base"
	nn "github.com/pa-m/sklearn/neural_network"
	"gonum.org/v1/gonum/blas/blas64"
	"gonum.org/v1/gonum/mat"
)

// ---- multilayer perceptrons (P27)

// net gives one view of the four kinds of network.
type net struct {
	b64    *nn.BaseMultilayerPerceptron64
	b32    *nn.BaseMultilayerPerceptron32
	p      base.Predicter // nil for the base types
	hidden []int
}

func newNet(kind string) *net {
	switch kind {
	case "regressor":
		m := nn.NewMLPRegressor([]int{}, "relu", "adam", 0)
		return &net{b64: &m.BaseMultilayerPerceptron64, p: m}
	case "classifier":
		m := nn.NewMLPClassifier([]int{}, "relu", "adam", 0)
		return &net{b64: &m.BaseMultilayerPerceptron64, p: m}
	case "base32":
		return &net{b32: nn.NewBaseMultilayerPerceptron32()}
	}
	return &net{b64: nn.NewBaseMultilayerPerceptron64()}
}

func (m *net) clone() *net {
	switch c := m.p.PredicterClone().(type) {
	case *nn.MLPRegressor:
		return &net{b64: &c.BaseMultilayerPerceptron64, p: c}
	case *nn.MLPClassifier:
		return &net{b64: &c.BaseMultilayerPerceptron64, p: c}
	}
	panic("clone of another type")
}

func (m *net) configure(c Obj, warm bool) {
	hidden := IV(c["hidden"])
	if b := m.b64; b != nil {
		b.HiddenLayerSizes, b.Activation, b.Solver, b.Alpha = hidden, S(c["act"]), S(c["solver"]), F(c["alpha"])
		b.BatchSize, b.LearningRate, b.LearningRateInit, b.PowerT = I(c["batch"]), S(c["schedule"]), F(c["lr"]), F(c["powert"])
		b.MaxIter, b.Shuffle, b.Tol, b.WarmStart = I(c["maxiter"]), B(c["shuffle"]), F(c["tol"]), warm
		b.Momentum, b.NesterovsMomentum, b.EarlyStopping, b.ValidationFraction = F(c["momentum"]), B(c["nesterov"]), B(c["early"]), F(c["valfrac"])
		b.Beta1, b.Beta2, b.Epsilon, b.NIterNoChange, b.WeightDecay = F(c["beta1"]), F(c["beta2"]), F(c["epsilon"]), I(c["nochange"]), F(c["decay"])
		return
	}
	b := m.b32
	f := func(k string) float32 { return float32(F(c[k])) }
	b.HiddenLayerSizes, b.Activation, b.Solver, b.Alpha = hidden, S(c["act"]), S(c["solver"]), f("alpha")
	b.BatchSize, b.LearningRate, b.LearningRateInit, b.PowerT = I(c["batch"]), S(c["schedule"]), f("lr"), f("powert")
	b.MaxIter, b.Shuffle, b.Tol, b.WarmStart = I(c["maxiter"]), B(c["shuffle"]), f("tol"), warm
	b.Momentum, b.NesterovsMomentum, b.EarlyStopping, b.ValidationFraction = f("momentum"), B(c["nesterov"]), B(c["early"]), f("valfrac")
	b.Beta1, b.Beta2, b.Epsilon, b.NIterNoChange, b.WeightDecay = f("beta1"), f("beta2"), f("epsilon"), I(c["nochange"]), f("decay")
}

func (m *net) source(kind string, seed int) {
	var s base.RandomState = base.NewLockedSource(uint64(seed))
	if kind == "plain" {
		s = base.NewSource(uint64(seed))
	}
	if m.b64 != nil {
		m.b64.RandomState = s
	} else {
		m.b32.RandomState = s
	}
}

func (m *net) fit(X, Y mat.Matrix) {
	switch {
	case m.p != nil:
		m.p.Fit(X, Y)
	case m.b64 != nil:
		m.b64.Fit(X, Y)
	default:
		m.b32.Fit(X, Y)
	}
}

func f32s(v []float32) []float64 {
	r := make([]float64, len(v))
	for i := range v {
		r[i] = float64(v[i])
	}
	return r
}

func (m *net) weights() (W [][][]string, b [][]string) {
	W, b = [][][]string{}, [][]string{}
	if m.b64 != nil {
		for l, c := range m.b64.Coefs {
			W = append(W, RM(generalDense(c)))
			b = append(b, RV(m.b64.Intercepts[l]))
		}
		return
	}
	for l, c := range m.b32.Coefs {
		W = append(W, RM(generalDense(blas64.General{Rows: c.Rows, Cols: c.Cols, Stride: c.Stride, Data: f32s(c.Data)})))
		b = append(b, RV(f32s(m.b32.Intercepts[l])))
	}
	return
}

func generalDense(c blas64.General) *mat.Dense {
	d := mat.NewDense(c.Rows, c.Cols, nil)
	for i := 0; i < c.Rows; i++ {
		for j := 0; j < c.Cols; j++ {
			d.Set(i, j, c.Data[i*c.Stride+j])
		}
	}
	return d
}

func (m *net) obs() Obj {
	W, b := m.weights()
	o := Obj{"W": W, "b": b}
	if m.b64 != nil {
		o["loss"], o["curve"], o["niter"], o["vscores"] = R(m.b64.Loss), RV(m.b64.LossCurve), m.b64.NIter, RV(m.b64.ValidationScores)
		o["best"] = R(m.b64.BestLoss)
	} else {
		o["loss"], o["curve"], o["niter"], o["vscores"] = R(float64(m.b32.Loss)), RV(f32s(m.b32.LossCurve)), m.b32.NIter, RV(f32s(m.b32.ValidationScores))
		o["best"] = R(float64(m.b32.BestLoss))
	}
	return o
}

func (m *net) predict(Q func() mat.Matrix, nq int, recv string) *mat.Dense {
	if m.p == nil {
		var n int
		if m.b64 != nil {
			n = m.b64.GetNOutputs()
		} else {
			n = m.b32.GetNOutputs()
		}
		P := mat.NewDense(nq, n, nil)
		var dst mat.Mutable = P
		if recv == "view" {
			P = LayView(P)
			dst = P
		} else if recv == "foreign" {
			dst = foreign{P}
		}
		if m.b64 != nil {
			m.b64.Predict(Q(), dst)
		} else {
			m.b32.Predict(Q(), dst)
		}
		return P
	}
	switch recv {
	case "empty":
		P := &mat.Dense{}
		m.p.Predict(Q(), P)
		return P
	case "dense", "view", "foreign":
		P := mat.NewDense(nq, m.b64.GetNOutputs(), nil)
		if recv == "view" {
			P = LayView(P)
		}
		if recv == "foreign" {
			m.p.Predict(Q(), foreign{P})
			return P
		}
		m.p.Predict(Q(), P)
		return P
	}
	return m.p.Predict(Q(), nil)
}

func (m *net) score(X, Y mat.Matrix) float64 {
	switch {
	case m.p != nil:
		return m.p.Score(X, Y)
	case m.b64 != nil:
		return m.b64.Score(X, Y)
	}
	return float64(m.b32.Score(X, Y))
}

func runMLP(in Obj) Obj {
	kind := S(in["kind"])
	est := []*net{newNet(kind)}
	res := []Obj{}
	for _, o := range L(in["ops"]) {
		op := o.(map[string]interface{})
		e := est[I(op["h"])-1]
		switch S(op["op"]) {
		case "clone":
			est = append(est, e.clone())
			res = append(res, Obj{"ok": true})
		case "load":
			cfg := Obj{"activation": S(op["c"].(map[string]interface{})["act"])}
			W, b := [][][]float64{}, [][]float64{}
			for l, w := range L(op["W"]) {
				W = append(W, FM(w))
				b = append(b, FV(L(op["b"])[l]))
			}
			buf, err := json.Marshal(map[string]interface{}{"params": cfg, "coefs_": W, "intercepts_": b})
			if err != nil {
				panic(err)
			}
			if e.b64 != nil {
				err = e.b64.Unmarshal(buf)
			} else {
				err = e.b32.Unmarshal(buf)
			}
			if err != nil {
				panic(fmt.Sprint("Unmarshal: ", err))
			}
			res = append(res, e.obs())
		case "fit":
			c := op["c"].(map[string]interface{})
			W0, b0 := [][][]string{}, [][]string{}
			if !B(op["warm"]) || est[I(op["h"])-1].empty() {
				// the initial weights: what a network with the same seed and a vanishing learning rate ends with
				p := newNet(kind)
				pc := Obj{}
				for k, v := range c {
					pc[k] = v
				}
				pc["solver"], pc["lr"], pc["decay"], pc["maxiter"], pc["shuffle"], pc["early"], pc["schedule"] = "sgd", R(1e-37), "0", 1, false, false, "constant"
				p.configure(pc, false)
				p.source(S(op["src"]), I(op["seed"]))
				p.fit(M(op["X"], "packed"), M(op["Y"], "packed"))
				W0, b0 = p.weights()
			}
			e.configure(c, B(op["warm"]))
			e.source(S(op["src"]), I(op["seed"]))
			X, Y := M(op["X"], S(op["lay"])), M(op["Y"], S(op["layY"]))
			e.fit(X, Y)
			r := e.obs()
			r["W0"], r["b0"], r["X"], r["Y"] = W0, b0, RM(X), RM(Y)
			res = append(res, r)
		case "predict":
			Q := func() mat.Matrix { return M(op["Q"], S(op["lay"])) }
			W, b := e.weights()
			r := Obj{"W": W, "b": b, "P": RM(e.predict(Q, len(L(op["Q"])), S(op["recv"])))}
			if len(L(op["SY"])) > 0 {
				r["score"] = R(e.score(Q(), M(op["SY"], S(op["layY"]))))
			}
			res = append(res, r)
		}
	}
	return Obj{"res": res}
}

func (m *net) empty() bool {
	if m.b64 != nil {
		return len(m.b64.Coefs) == 0
	}
	return len(m.b32.Coefs) == 0
}

func genMLP(g *Gen) {
	probeMLP(g)
	labelSets := [][]float64{{0, 1}, {0, 1}, {1, 2}, {0, 1, 2}, {-3, 0.5, 7}, {2, 4, 6, 8}, {1, 2, 3, 4, 5, 6, 7}, {-2, -1, 0, 1, 2, 3}}
	r32 := func(x float64) string { return R(float64(float32(x))) }
	for i := 0; i < g.N(300, 6000); i++ {
		kind := g.Pick("regressor", "regressor", "classifier", "classifier", "classifier", "base64", "base32")
		reg := kind == "regressor"
		eps, sat := 1e-7, 1e-8
		num := R
		if kind == "base32" {
			eps, sat = 1e-3, 1e-2
			num = r32
		}
		nops := g.Range(1, 5)
		ops := []Obj{}
		type known struct {
			X, Y   [][]float64
			hidden []int
			fitted bool
		}
		est := []known{{}}
		for k := 0; k < nops || len(ops) < 2; k++ {
			h := g.Range(1, len(est))
			e := &est[h-1]
			switch c := g.Intn(8); {
			case c == 0 && len(est) < 3 && kind != "base64" && kind != "base32":
				ops = append(ops, Obj{"op": "clone", "h": h})
				est = append(est, *e)
			case c == 1 && !reg && !e.fitted:
				hidden := []int{}
				for l := 0; l < g.Intn(3); l++ {
					hidden = append(hidden, g.Range(1, 3))
				}
				units := append(append([]int{g.Range(1, 3)}, hidden...), g.PickI(1, 2, 3))
				W, b := [][][]string{}, [][]string{}
				for l := 0; l+1 < len(units); l++ {
					W = append(W, RMM(g.Mat(units[l], units[l+1], "int")))
					b = append(b, RV(g.Vec(units[l+1], "int")))
				}
				ops = append(ops, Obj{"op": "load", "h": h, "units": units, "W": W, "b": b, "c": Obj{"act": g.Pick("identity", "logistic", "tanh", "relu"), "out": "", "sat": "0"}})
				ops = append(ops, Obj{"op": "predict", "h": h, "Q": RMM(g.Mat(g.Range(1, 5), units[0], "int")), "SY": [][]string{},
					"lay": g.Pick(Layouts...), "layY": "packed", "recv": g.Pick("nil", "empty", "dense", "view")})
				// a cold fit follows, or nothing
				nops = 0
			case c <= 4 || !e.fitted:
				warm := e.fitted && g.Flip()
				shuffle, early := g.Intn(3) == 0, g.Intn(4) == 0
				if kind == "base32" {
					early = false
				}
				n := g.Size(3, 9, 30)
				maxiter := g.Range(1, 4)
				large := g.Intn(6) // 0: deep, 1: wide, 2: many rows or outputs
				batch := g.PickI(0, 1, 2, 3, 4, 5, 100)
				solver := g.Pick("sgd", "sgd", "adam", "adam", "lbfgs")
				if kind == "base32" && solver == "lbfgs" {
					solver = "sgd"
				}
				if solver == "lbfgs" {
					early = false
				}
				if large == 2 && kind != "base32" && !reg && g.Intn(3) == 0 {
					n, batch, shuffle, maxiter = g.Range(120, 230), 0, false, 1
				}
				if shuffle && (early || batch > 0 && batch < n) && solver != "lbfgs" {
					n, maxiter = g.Range(2, 4), 1
				}
				X, Y := e.X, e.Y
				hidden := e.hidden
				nf := g.Range(1, 3)
				if warm {
					nf = len(X[0])
				} else {
					hidden = []int{}
					for l := 0; l < g.PickI(0, 1, 1, 2); l++ {
						hidden = append(hidden, g.Range(1, 3))
					}
					if large == 0 && n < 20 {
						for l := g.Range(1, 3); l > 0; l-- {
							hidden = append(hidden, g.Range(1, 3))
						}
					}
					if large == 1 && n < 20 {
						hidden = []int{g.Range(4, 15)}
						nf = g.Range(1, 9)
					}
				}
				X = g.Mat(n, nf, g.Pick("int", "dyadic"))
				if kind == "base32" || g.Flip() {
					for a := range X {
						for b := range X[a] {
							X[a][b] /= 4
						}
					}
				}
				ny := g.Range(1, 2)
				if large == 2 && n < 20 {
					ny = g.Range(3, 13)
				}
				var ls []float64
				if reg {
					if warm {
						ny = len(e.Y[0])
					}
					Y = g.Mat(n, ny, g.Pick("int", "dyadic", "bit"))
					if early { // validation rows with different targets
						for j := range Y {
							for q := range Y[j] {
								Y[j][q] += float64(j)
							}
						}
						for q := range Y[0] {
							if Y[n-1][q] == Y[n-2][q] {
								Y[n-1][q]++
							}
						}
					}
				} else if warm {
					Y = nil
					for j := 0; j < n; j++ { // same classes, in the same form
						Y = append(Y, e.Y[j%len(e.Y)])
					}
					if n < len(e.Y) {
						X = g.Mat(len(e.Y), nf, "int")
						Y = e.Y
						if shuffle {
							shuffle = false
						}
					}
				} else {
					ls = labelSets[g.Intn(len(labelSets))]
					if n < len(ls) {
						ls = ls[:2]
					}
					lab := g.Labels(n, ls...)
					off := g.Intn(n)
					for j := range ls {
						lab[(j+off)%n] = ls[j]
					}
					Y = ColM(lab)
					if len(ls) > 2 && g.Flip() {
						Y = nil
						for _, v := range lab {
							row := make([]float64, len(ls))
							for q := range ls {
								if ls[q] == v {
									row[q] = 1
								}
							}
							Y = append(Y, row)
						}
					}
				}
				if early && shuffle && reg { // a validation set of one row has no R2
					shuffle = false
				}
				valfrac := g.PickF(0.125, 0.25, 0.5)
				if early && reg { // at least two validation rows
					valfrac = 0.5
					if n < 3 {
						early = false
					}
				}
				decay := g.PickF(0, 0, 0, 0.01)
				tol := g.PickF(1e-4, 1e-4, 1e-2, 0.5)
				nochange := g.PickI(1, 2, 10)
				if g.Intn(5) == 0 && !shuffle && solver != "lbfgs" {
					maxiter = g.Range(6, 12)
					nochange, tol = g.PickI(1, 2, 3), g.PickF(0.5, 5)
				}
				if len(X) > 100 && solver == "adam" {
					batch, maxiter = 0, 1
				}
				schedule := g.Pick("constant", "invscaling", "adaptive")
				lr := g.PickF(0.001, 0.02, 0.1)
				if g.Intn(12) == 0 && n < 10 && !shuffle && solver == "sgd" { // a rate that ends below its limit
					schedule, lr, maxiter, nochange, tol = "adaptive", g.PickF(0.001, 0.0001), 20, 1, g.PickF(0.5, 5)
				}
				if early && schedule == "invscaling" {
					schedule = "constant"
				}
				epsilon := g.PickF(1e-8, 1e-3)
				conv := false
				alpha := g.PickF(0, 1e-4, 0.5, 1)
				if kind == "base32" {
					epsilon = 0.05
				}
				if solver == "lbfgs" {
					decay = 0
					maxiter, nochange = 60, 10
					if g.Flip() && kind != "base32" {
						conv = true
						maxiter, tol = 2000, 1e-13
						alpha = g.PickF(0.25, 1)
					}
				}
				op := Obj{"op": "fit", "h": h, "warm": warm || g.Intn(8) == 0, "X": RMM(X), "Y": RMM(Y), "lay": g.Pick(Layouts...), "layY": g.Pick(Layouts...),
					"seed": g.Intn(1000), "src": g.Pick("locked", "plain"), "conv": conv,
					"c": Obj{"out": "", "dev": []string{}, "sat": "0", "hidden": hidden, "act": g.Pick("identity", "logistic", "tanh", "relu"), "solver": solver, "alpha": num(alpha),
						"batch": batch, "schedule": schedule, "lr": num(lr), "powert": num(g.PickF(0.5, 0.25)),
						"maxiter": maxiter, "shuffle": shuffle, "tol": num(tol), "momentum": num(g.PickF(0.9, 0.9, 0, 0.5)), "nesterov": g.Flip(),
						"early": early, "valfrac": num(valfrac), "beta1": num(g.PickF(0.9, 0.5)), "beta2": num(g.PickF(0.999, 0.75)),
						"epsilon": num(epsilon), "nochange": nochange, "decay": num(decay)}}
				if e.fitted && !warm {
					op["warm"] = false
				}
				ops = append(ops, op)
				e.X, e.Y, e.hidden, e.fitted = X, Y, hidden, true
				fallthrough
			default:
				Q, SY := e.X, e.Y
				if g.Flip() {
					Q, SY = g.Mat(g.Range(1, 6), len(e.X[0]), g.Pick("int", "dyadic")), nil
					if g.Intn(4) == 0 && kind != "base32" {
						for a := range Q {
							for b := range Q[a] {
								Q[a][b] *= 1000
							}
						}
					}
				} else if reg {
					for j := range SY[0] { // R2 needs varying targets
						con := true
						for i := range SY {
							con = con && SY[i][j] == SY[0][j]
						}
						if con {
							SY = nil
							break
						}
					}
				}
				ops = append(ops, Obj{"op": "predict", "h": h, "Q": RMM(Q), "SY": RMM(SY), "lay": g.Pick(Layouts...), "layY": g.Pick(Layouts...),
					"recv": g.Pick("nil", "empty", "dense", "view", "foreign")})
			}
		}
		g.Add("mlp", Obj{"kind": kind, "strict": false, "sat": R(sat), "reg": reg, "eps": R(eps), "ops": ops})
	}
}

// Probes for the listed findings: the same fits, with no deviation allowed.
func probeMLP(g *Gen) {
	probe := func(tag, solver string, n, batch int) {
		X, Y := [][]float64{}, [][]float64{}
		for i := 0; i < n; i++ {
			X = append(X, []float64{float64(i) / 4, float64(i%2) / 2})
			Y = append(Y, []float64{float64(i*i) / 8})
		}
		op := Obj{"op": "fit", "h": 1, "warm": false, "X": RMM(X), "Y": RMM(Y), "lay": "packed", "layY": "packed", "seed": 7, "src": "locked", "conv": false,
			"c": Obj{"out": "", "dev": []string{}, "sat": "0", "hidden": []int{2}, "act": "tanh", "solver": solver, "alpha": "0",
				"batch": batch, "schedule": "constant", "lr": R(0.02), "powert": R(0.5), "maxiter": 2, "shuffle": false, "tol": R(1e-4), "momentum": "0",
				"nesterov": false, "early": false, "valfrac": R(0.1), "beta1": R(0.9), "beta2": R(0.999), "epsilon": R(1e-8), "nochange": 10, "decay": "0"}}
		g.Probe(tag, "mlp", Obj{"kind": "regressor", "strict": true, "sat": R(1e-8), "reg": true, "eps": R(1e-7), "ops": []Obj{op}})
	}
	probe("adam-correction", "adam", 4, 4)
	probe("tail-batch", "sgd", 5, 2)
}

func init() {
	register("mlp", genMLP, map[string]func(Obj) Obj{"mlp": runMLP})
}
