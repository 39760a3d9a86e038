package main

import (
	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"github.com/pa-m/sklearn/gaussian_process/tensor"
	"gonum.org/v1/gonum/mat"
)

// ---- Gaussian-process kernels and regressor (P26)

func mkKernel(v interface{}) kernels.Kernel {
	o := v.(Obj)
	switch S(o["op"]) {
	case "const":
		return &kernels.ConstantKernel{ConstantValue: F(o["v"]), ConstantValueBounds: [2]float64{F(o["lo"]), F(o["hi"])}}
	case "white":
		return &kernels.WhiteKernel{NoiseLevel: F(o["v"]), NoiseLevelBounds: [2]float64{F(o["lo"]), F(o["hi"])}}
	case "dot":
		return &kernels.DotProduct{Sigma0: F(o["v"]), Sigma0Bounds: [2]float64{F(o["lo"]), F(o["hi"])}}
	case "rbf":
		k := &kernels.RBF{LengthScale: FV(o["ls"])}
		if !B(o["nob"]) {
			lo, hi := FV(o["lo"]), FV(o["hi"])
			for i := range lo {
				k.LengthScaleBounds = append(k.LengthScaleBounds, [2]float64{lo[i], hi[i]})
			}
		}
		return k
	case "sum":
		return &kernels.Sum{KernelOperator: kernels.KernelOperator{K1: mkKernel(o["a"]), K2: mkKernel(o["b"])}}
	case "prod":
		return &kernels.Product{KernelOperator: kernels.KernelOperator{K1: mkKernel(o["a"]), K2: mkKernel(o["b"])}}
	case "pow":
		return &kernels.Exponentiation{Kernel: mkKernel(o["a"]), Exponent: F(o["e"])}
	}
	panic("kernel?")
}

func colVec(m mat.Matrix) []string {
	r, _ := m.Dims()
	o := make([]string, r)
	for i := range o {
		o[i] = R(m.At(i, 0))
	}
	return o
}

func anyM(m mat.Matrix) [][]string {
	r, c := m.Dims()
	o := make([][]string, r)
	for i := range o {
		o[i] = make([]string, c)
		for j := range o[i] {
			o[i][j] = R(m.At(i, j))
		}
	}
	return o
}

func tens(g *tensor.Dense) ([]int, [][][]string) {
	s := []int(g.Shape())
	o := make([][][]string, s[0])
	for i := range o {
		o[i] = make([][]string, s[1])
		for j := range o[i] {
			o[i][j] = make([]string, s[2])
			for k := range o[i][j] {
				v, err := g.At(i, j, k)
				if err != nil {
					panic(err)
				}
				o[i][j][k] = R(v.(float64))
			}
		}
	}
	return s, o
}

func diagV(m *mat.DiagDense) []string {
	n, _ := m.Dims()
	o := make([]string, n)
	for i := range o {
		o[i] = R(m.At(i, i))
	}
	return o
}

// theta matrices of several kinds
func thetaM(v interface{}, lay string) mat.Matrix {
	th := FV(v)
	if len(th) == 0 || lay == "func" {
		return kernels.NewMatFromFunc(len(th), 1, func(i, j int) float64 { return th[i] }, func(i, j int, v float64) { th[i] = v })
	}
	return Lay(mat.NewDense(len(th), 1, th), lay)
}

func runKernels(in Obj) Obj {
	var ks []kernels.Kernel
	for _, k := range L(in["kernels"]) {
		ks = append(ks, mkKernel(k))
	}
	res := []Obj{}
	for _, x := range L(in["ops"]) {
		op := x.(Obj)
		r := Obj{}
		lay := S(op["lay"])
		i := 0
		if op["i"] != nil {
			i = I(op["i"]) - 1
		}
		switch S(op["name"]) {
		case "eval":
			X := M(op["X"], lay)
			var Y mat.Matrix
			if !B(op["self"]) {
				Y = M(op["Y"], lay)
			} else if B(op["twice"]) {
				Y = X
			}
			K, G := ks[i].Eval(X, Y, B(op["grad"]))
			r["K"] = RM(K)
			if B(op["grad"]) {
				r["shape"], r["G"] = tens(G)
			}
			r["diag"] = diagV(ks[i].Diag(X))
			r["stat"] = ks[i].IsStationary()
		case "theta":
			r["theta"], r["bounds"] = colVec(ks[i].Theta()), anyM(ks[i].Bounds())
		case "clone":
			var th mat.Matrix
			if !B(op["plain"]) {
				th = thetaM(op["theta"], lay)
			}
			ks = append(ks, ks[i].CloneWithTheta(th))
		case "set":
			ks[i].Theta().(mat.Mutable).Set(I(op["p"])-1, 0, F(op["v"]))
		case "bound":
			b := ks[i].(*kernels.RBF).LengthScaleBounds
			p := I(op["p"]) - 1
			b[p] = [2]float64{b[p][0] / 2, b[p][1] * 2}
		case "gp":
			r = runGP(op)
		case "prior":
			r = runPrior(op)
		}
		res = append(res, r)
	}
	return Obj{"res": res}
}

func runPrior(in Obj) Obj {
	m := gp.NewRegressor(mkKernel(in["kernel"]))
	P := predInto(m, in, 1)
	_, std, _ := m.PredictEx(M(in["Q"], S(in["lay"])), nil, true, false)
	_, _, cov := m.PredictEx(M(in["Q"], S(in["lay"])), nil, false, true)
	return Obj{"mean": RM(P), "std": diagV(std), "cov": RM(cov)}
}

func runGP(in Obj) Obj {
	lay := S(in["lay"])
	m := gp.NewRegressor(mkKernel(in["kernel"]))
	m.Alpha = []float64{1. / 2}
	if len(L(in["X0"])) > 0 {
		m.NormalizeY = B(in["norm0"])
		m.Fit(M(in["X0"], lay), M(in["Y0"], lay))
	}
	m.Alpha, m.NormalizeY = FV(in["alpha"]), B(in["norm"])
	X, Y := M(in["X"], lay), M(in["Y"], lay)
	switch S(in["hist"]) {
	case "clone-first":
		m = m.PredicterClone().(*gp.Regressor)
		m.Fit(X, Y)
	case "clone-after": // the clone answers, the original goes on to other data
		m.Fit(X, Y)
		c := m.PredicterClone().(*gp.Regressor)
		for i := range m.Alpha {
			m.Alpha[i] *= 3
		}
		m.Alpha = m.Alpha[:1]
		if t, ok := m.Kernel.Theta().(mat.Mutable); ok {
			r, _ := t.Dims()
			for i := 0; i < r; i++ {
				t.Set(i, 0, .4)
			}
		}
		m.Fit(M(in["Q"], lay), mat.NewDense(len(L(in["Q"])), 1, nil))
		m = c
	case "reuse": // the caller reuses its matrices
		m.Fit(X, Y)
		if x, ok := X.(mat.Mutable); ok {
			r, c := x.Dims()
			for i := 0; i < r; i++ {
				for j := 0; j < c; j++ {
					x.Set(i, j, -77)
				}
			}
		}
	case "retune": // the hyper-parameters to start from change afterwards
		m.Fit(X, Y)
		if t, ok := m.Kernel.Theta().(mat.Mutable); ok {
			r, _ := t.Dims()
			for i := 0; i < r; i++ {
				t.Set(i, 0, .3)
			}
		}
	default:
		m.Fit(X, Y)
	}
	_, no := D(in["Y"]).Dims()
	var th mat.Matrix = m.Theta()
	if S(in["hist"]) == "retune" {
		th = m.KernelOpt.Theta()
	}
	if len(L(in["theta"])) > 0 {
		th = thetaM(in["theta"], lay)
	}
	P0 := predInto(m, in, no)
	lml, grad := m.LogMarginalLikelihood(th, true)
	lml2, _ := m.LogMarginalLikelihood(th, false)
	if lml2 != lml {
		lml = lml2 - 1000
	}
	lmlnil, _ := m.LogMarginalLikelihood(nil, false)
	P := predInto(m, in, no)
	if !mat.Equal(P, P0) {
		P.Scale(-3, P)
	}
	_, std, _ := m.PredictEx(M(in["Q"], lay), nil, true, false)
	_, _, cov := m.PredictEx(M(in["Q"], lay), nil, false, true)
	return Obj{"lml": R(lml), "grad": RV(grad), "lmlnil": R(lmlnil), "mean": RM(P), "std": diagV(std), "cov": RM(cov)}
}

func (g *Gen) leaf(p int, fixable bool) Obj {
	b := func() (float64, float64) {
		if fixable && g.Intn(4) == 0 {
			v := g.PickF(0, 1, 3)
			return v, v
		}
		return g.PickF(1./1024, 1./64, .5), g.PickF(64, 1024, 1e5)
	}
	v := func() float64 { return g.PickF(.25, .5, 1, 1.5, 2, 3, g.Float64()+.25) }
	lo, hi := b()
	switch g.Intn(5) {
	case 0:
		return Obj{"op": "const", "v": R(v()), "lo": R(lo), "hi": R(hi)}
	case 1:
		return Obj{"op": "white", "v": R(v()), "lo": R(lo), "hi": R(hi)}
	case 2:
		return Obj{"op": "dot", "v": R(v()), "lo": R(lo), "hi": R(hi)}
	}
	n := 1
	if g.Flip() {
		n = p
	}
	nob := fixable && g.Intn(6) == 0
	ls, los, his := []float64{}, []float64{}, []float64{}
	for i := 0; i < n; i++ {
		lo, hi := b()
		if nob {
			lo, hi = 0, 0
		}
		ls, los, his = append(ls, v()+.5), append(los, lo), append(his, hi)
	}
	return Obj{"op": "rbf", "ls": RV(ls), "lo": RV(los), "hi": RV(his), "nob": nob}
}

func hasDot(k Obj) bool {
	switch S(k["op"]) {
	case "dot":
		return true
	case "sum", "prod":
		return hasDot(k["a"].(Obj)) || hasDot(k["b"].(Obj))
	case "pow":
		return hasDot(k["a"].(Obj))
	}
	return false
}

func (g *Gen) kernel(p, depth int, fixable bool) Obj {
	if depth == 0 || g.Intn(5) == 0 {
		return g.leaf(p, fixable)
	}
	switch g.Intn(5) {
	case 0:
		a := g.kernel(p, depth-1, fixable)
		e := g.PickF(2, 3)
		if !hasDot(a) {
			e = g.PickF(1.5, 2, 2.5, 3)
		}
		return Obj{"op": "pow", "a": a, "e": R(e)}
	case 1, 2:
		return Obj{"op": "sum", "a": g.kernel(p, depth-1, fixable), "b": g.kernel(p, depth-1, fixable)}
	}
	return Obj{"op": "prod", "a": g.kernel(p, depth-1, fixable), "b": g.kernel(p, depth-1, fixable)}
}

func nfree(k Obj) int {
	switch S(k["op"]) {
	case "sum", "prod":
		return nfree(k["a"].(Obj)) + nfree(k["b"].(Obj))
	case "pow":
		return nfree(k["a"].(Obj))
	case "rbf":
		n := 0
		lo, hi := k["lo"].([]string), k["hi"].([]string)
		for i := range lo {
			if lo[i] != hi[i] {
				n++
			}
		}
		return n
	}
	if k["lo"] == k["hi"] {
		return 0
	}
	return 1
}

func (g *Gen) theta(n int) []float64 {
	th := make([]float64, n)
	for i := range th {
		th[i] = float64(g.Range(-8, 8)) / 8
	}
	return th
}

// small rows, some repeated
func (g *Gen) krows(n, p int) [][]float64 {
	X := make([][]float64, n)
	for i := range X {
		if i > 0 && g.Intn(4) == 0 {
			X[i] = append([]float64{}, X[g.Intn(i)]...)
			if g.Intn(4) == 0 { // not quite the same
				X[i][g.Intn(p)] += 1. / (1 << 15)
			}
			continue
		}
		X[i] = make([]float64, p)
		for j := range X[i] {
			X[i][j] = float64(g.Range(-12, 12)) / 8
		}
	}
	return X
}

func genGP(g *Gen) {
	for c := 0; c < g.N(260, 2200); c++ {
		p := g.Range(1, 3)
		ks := []Obj{}
		for i := 0; i < g.Range(1, 2); i++ {
			ks = append(ks, g.kernel(p, g.Range(0, 3), true))
		}
		free, root := []int{}, []int{}
		kin := []Obj{}
		for _, k := range ks {
			root = append(root, len(free))
			free = append(free, nfree(k))
			kin = append(kin, k)
		}
		ops := []Obj{}
		for s := 0; s < g.Range(3, 7); s++ {
			i := g.Intn(len(free))
			lay := Layouts[g.Intn(3)]
			switch g.Intn(7) {
			case 0, 1:
				op := Obj{"name": "clone", "i": i + 1, "lay": lay, "plain": g.Intn(4) == 0, "theta": RV(g.theta(free[i]))}
				if g.Intn(5) == 0 {
					op["lay"] = "func"
				}
				ops = append(ops, op)
				free = append(free, free[i])
				root = append(root, root[i])
			case 2:
				if free[i] > 0 {
					ops = append(ops, Obj{"name": "set", "i": i + 1, "p": g.Range(1, free[i]), "v": R(float64(g.Range(-8, 8)) / 8)})
				}
			case 3:
				ops = append(ops, Obj{"name": "theta", "i": i + 1})
				if k0 := ks[root[i]]; S(k0["op"]) == "rbf" && !B(k0["nob"]) {
					p := g.Range(1, len(k0["ls"].([]string)))
					if k0["lo"].([]string)[p-1] != k0["hi"].([]string)[p-1] {
						ops = append(ops, Obj{"name": "bound", "i": i + 1, "p": p})
					}
				}
			default:
				op := Obj{"name": "eval", "i": i + 1, "lay": lay, "X": RMM(g.krows(g.Range(1, 4), p)), "self": g.Intn(3) > 0, "twice": g.Intn(4) == 0}
				op["grad"] = op["self"].(bool) && g.Intn(4) > 0
				op["Y"] = RMM(g.krows(g.Range(1, 4), p))
				ops = append(ops, op)
			}
		}
		for i := range free { // and look at all of them at the end
			ops = append(ops, Obj{"name": "theta", "i": i + 1})
			ops = append(ops, Obj{"name": "eval", "i": i + 1, "lay": "packed", "X": RMM(g.krows(2, p)), "self": true, "twice": false, "grad": true})
		}
		g.Add("hist", Obj{"kernels": kin, "ops": ops})
	}
	for c := 0; c < g.N(160, 1200); c++ {
		p, no, n := g.Size(1, 3, 6), g.Size(1, 2, 6), g.Size(1, 4, 11)
		k := g.kernel(p, g.Range(0, 2), true)
		if c%2 == 0 { // the usual shape
			k = Obj{"op": "sum", "a": Obj{"op": "prod", "a": g.leaf(p, false), "b": g.leaf(p, true)}, "b": g.leaf(p, true)}
		}
		al := []float64{g.PickF(.0625, .25, 1)}
		if g.Flip() {
			al = nil
			for i := 0; i < n; i++ {
				al = append(al, g.PickF(.0625, .125, .25, 1, 2))
			}
		}
		th := []float64{}
		if g.Intn(3) > 0 {
			th = g.theta(nfree(k))
		}
		op := Obj{"name": "gp", "kernel": k, "X": RMM(g.krows(n, p)), "Y": RMM(g.Mat(n, no, g.Pick("int", "dyadic", "real"))), "Q": RMM(g.krows(g.Range(1, 3), p)),
			"alpha": RV(al), "norm": g.Intn(3) == 0, "theta": RV(th), "lay": Layouts[g.Intn(3)], "recv": g.Pick("", "empty", "view", "dense"),
			"hist": g.Pick("", "", "clone-first", "clone-after", "reuse", "retune"), "X0": []interface{}{}, "Y0": []interface{}{}, "norm0": g.Flip()}
		if g.Intn(3) == 0 {
			n0 := g.Range(1, 4)
			op["X0"], op["Y0"] = RMM(g.krows(n0, p)), RMM(g.Mat(n0, g.Range(1, 2), "int"))
		}
		g.Add("hist", Obj{"kernels": []Obj{}, "ops": []Obj{op}})
		if c%5 == 0 {
			g.Add("hist", Obj{"kernels": []Obj{}, "ops": []Obj{{"name": "prior", "kernel": k, "Q": op["Q"], "lay": op["lay"], "recv": op["recv"]}}})
		}
	}
}

func init() {
	register("gp", genGP, map[string]func(Obj) Obj{"hist": runKernels})
}
