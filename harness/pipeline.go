package main

import (
	"sync"
	"sync/atomic"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/neighbors"
	"github.com/pa-m/sklearn/pipeline"
	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

// ---- recording steps for pipelines (P05)

type pstep struct {
	idx          int
	fits         []int // shared by a pipeline and its clones, reset before each call
	a, b, cy, dy float64
	rev, wx, wy  bool
	s            float64
}

func mapRows(M mat.Matrix, rev bool, f func(v float64) float64) *mat.Dense {
	if M == nil {
		return nil
	}
	if d, ok := M.(*mat.Dense); ok && isNilDense(d) {
		return nil
	}
	r, c := M.Dims()
	o := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		src := i
		if rev {
			src = r - 1 - i
		}
		for j := 0; j < c; j++ {
			o.Set(i, j, f(M.At(src, j)))
		}
	}
	return o
}

func (p *pstep) Fit(X, Y mat.Matrix) base.Fiter {
	p.fits[p.idx]++
	p.s = 0
	r, _ := X.Dims()
	for i := 0; i < r; i++ {
		p.s += X.At(i, 0)
	}
	return p
}
func (p *pstep) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
	Xout = mapRows(X, p.rev, func(v float64) float64 { return p.a*v + (p.b + p.s) })
	Yout = mapRows(Y, p.rev, func(v float64) float64 { return p.cy*v + p.dy })
	if p.wx { // one more column, in front
		r, c := Xout.Dims()
		w := mat.NewDense(r, c+1, nil)
		w.Slice(0, r, 1, c+1).(*mat.Dense).Copy(Xout)
		for i := 0; i < r; i++ {
			w.Set(i, 0, mat.Sum(Xout.RowView(i)))
		}
		Xout = w
	}
	if p.wy && Yout != nil && !Yout.IsEmpty() { // twice as many columns
		r, c := Yout.Dims()
		w := mat.NewDense(r, 2*c, nil)
		w.Slice(0, r, 0, c).(*mat.Dense).Scale(-1, Yout)
		w.Slice(0, r, c, 2*c).(*mat.Dense).Copy(Yout)
		Yout = w
	}
	return
}
func (p *pstep) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
	p.Fit(X, Y)
	return p.Transform(X, Y)
}
func (p *pstep) TransformerClone() base.Transformer { c := *p; return &c }

type pstepInv struct{ pstep }

func (p *pstepInv) Fit(X, Y mat.Matrix) base.Fiter     { p.pstep.Fit(X, Y); return p }
func (p *pstepInv) TransformerClone() base.Transformer { c := *p; return &c }
func (p *pstepInv) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
	if X != nil {
		Xout = mapRows(X, p.rev, func(v float64) float64 { return (v - p.b - p.s) / p.a })
	}
	if Y != nil {
		if p.wy {
			r, c := Y.Dims()
			Y = Y.Slice(0, r, c/2, c).(*mat.Dense)
		}
		Yout = mapRows(Y, p.rev, func(v float64) float64 { return (v - p.dy) / p.cy })
	}
	return
}

type pfinal struct {
	idx    int
	fits   []int
	sx, sy float64
	outs   int
}

func weightedCol(M mat.Matrix) (s float64) {
	r, _ := M.Dims()
	for i := 0; i < r; i++ {
		s += float64(i+1) * M.At(i, 0)
	}
	return
}
func (p *pfinal) Fit(X, Y mat.Matrix) base.Fiter {
	p.fits[p.idx]++
	p.sx, p.sy = weightedCol(X), weightedCol(Y)
	_, p.outs = Y.Dims()
	return p
}
func (p *pfinal) GetNOutputs() int               { return p.outs }
func (p *pfinal) IsClassifier() bool             { return p.sx > 0 }
func (p *pfinal) PredicterClone() base.Predicter { c := *p; return &c }
func (p *pfinal) Score(X, Y mat.Matrix) float64  { return weightedCol(X) + 3*weightedCol(Y) }
func (p *pfinal) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	r, _ := X.Dims()
	d := mat.NewDense(r, p.outs, nil)
	for i := 0; i < r; i++ {
		for o := 0; o < p.outs; o++ {
			d.Set(i, o, X.At(i, 0)+float64(o+1)*p.sx+p.sy)
		}
	}
	if y, ok := Y.(*mat.Dense); Y == nil || (ok && isNilDense(y)) {
		return d
	}
	for i := 0; i < r; i++ {
		for o := 0; o < p.outs; o++ {
			Y.Set(i, o, d.At(i, o))
		}
	}
	return d
}

func intact(ms ...[2]mat.Matrix) bool {
	for _, m := range ms {
		if !same(m[0], m[1]) {
			return false
		}
	}
	return true
}

func cp(m mat.Matrix) mat.Matrix {
	if m == nil {
		return nil
	}
	return mat.DenseCopyOf(m)
}

func runPipeHist(in Obj) Obj {
	steps := L(in["steps"])
	fits := make([]int, len(steps)+1)
	build := func() *pipeline.Pipeline {
		var named []pipeline.NamedStep
		var plain []base.Fiter
		for k, v := range steps {
			s := v.(Obj)
			ps := pstep{idx: k, fits: fits, a: F(s["a"]), b: F(s["b"]), cy: F(s["cy"]), dy: F(s["dy"]), rev: B(s["rev"]), wx: B(s["wx"]), wy: B(s["wy"])}
			var t base.Fiter
			if s["pred"] != nil && B(s["pred"]) {
				t = &pfinal{idx: k, fits: fits}
			} else if B(s["inv"]) {
				t = &pstepInv{ps}
			} else {
				t = &ps
			}
			named = append(named, pipeline.NamedStep{Name: string(rune('a' + k)), Fiter: t})
			plain = append(plain, t)
		}
		fin := &pfinal{idx: len(steps), fits: fits}
		named = append(named, pipeline.NamedStep{Name: "fin", Fiter: fin})
		plain = append(plain, fin)
		if B(in["make"]) {
			return pipeline.MakePipeline(plain...)
		}
		return pipeline.NewPipeline(named...)
	}
	pipes := []*pipeline.Pipeline{build()}
	res := []Obj{}
	lay := S(in["lay"])
	for _, v := range L(in["ops"]) {
		op := v.(Obj)
		for k := range fits {
			fits[k] = 0
		}
		r := Obj{}
		p := pipes[I(op["p"])-1]
		var X, Y mat.Matrix
		if op["X"] != nil {
			X = M(op["X"], lay)
		}
		if op["Y"] != nil {
			Y = M(op["Y"], lay)
		}
		X0, Y0 := cp(X), cp(Y)
		switch S(op["o"]) {
		case "fit":
			p.Fit(X, Y)
		case "clone":
			pipes = append(pipes, p.PredicterClone().(*pipeline.Pipeline))
		case "predict":
			var ret *mat.Dense
			n, _ := X.Dims()
			switch S(op["recv"]) {
			case "nil":
				ret = p.Predict(X, nil)
				r["y"] = RM(ret)
			case "empty":
				y := &mat.Dense{}
				ret = p.Predict(X, y)
				r["y"] = RM(ret)
			default:
				y := mat.NewDense(n, I(op["outs"]), nil)
				for i := 0; i < n; i++ {
					y.Set(i, 0, 55)
				}
				ret = p.Predict(X, y)
				r["y"] = RM(y)
			}
			r["ret"] = RM(ret)
		case "score":
			r["score"] = R(p.Score(X, Y))
		case "transform":
			x, y := p.Transform(X, nil)
			r["x"], r["y"] = RM(x), RM(y)
		case "fittransform":
			x, y := p.FitTransform(X, Y)
			r["x"], r["y"] = RM(x), RM(y)
		case "about":
			r["nouts"], r["clf"] = p.GetNOutputs(), p.IsClassifier()
		}
		r["intact"] = intact([2]mat.Matrix{X, X0}, [2]mat.Matrix{Y, Y0})
		r["fits"] = append([]int{}, fits...)
		res = append(res, r)
	}
	return Obj{"res": res}
}

func realSteps(name string) []base.Transformer {
	mm := func() base.Transformer { return preprocessing.NewMinMaxScaler([]float64{-1, 2}) }
	ss := func() base.Transformer { return preprocessing.NewStandardScaler() }
	rs := func() base.Transformer { return preprocessing.NewDefaultRobustScaler() }
	pf := func() base.Transformer {
		p := preprocessing.NewPolynomialFeatures(2)
		p.IncludeBias = false
		return p
	}
	pca := func() base.Transformer { p := preprocessing.NewPCA(); return p }
	switch name {
	case "mm":
		return []base.Transformer{mm()}
	case "ss-pf":
		return []base.Transformer{ss(), pf()}
	case "rs-mm-ss":
		return []base.Transformer{rs(), mm(), ss()}
	case "ss-pca":
		return []base.Transformer{ss(), pca()}
	}
	return []base.Transformer{}
}

func realFinal(name string) base.Predicter {
	if name == "knn" {
		return neighbors.NewKNeighborsRegressor(3, "distance")
	}
	return linearmodel.NewLinearRegression()
}

// runPipeReal compares the pipeline with the calls made by hand.
func runPipeReal(in Obj) Obj {
	res := []Obj{}
	for _, v := range L(in["ops"]) {
		op := v.(Obj)
		X, Y, Xt, Yt := D(op["X"]), D(op["Y"]), D(op["Xt"]), D(op["Yt"])
		X0, Y0, Xt0, Yt0 := cp(X), cp(Y), cp(Xt), cp(Yt)
		n, _ := Xt.Dims()
		_, outs := Y.Dims()
		ts := realSteps(S(op["chain"]))
		var fs []base.Fiter
		for _, t := range realSteps(S(op["chain"])) {
			fs = append(fs, t)
		}
		fs = append(fs, realFinal(S(op["final"])))
		p := pipeline.MakePipeline(fs...)
		p.Fit(X, Y)
		y := mat.NewDense(n, outs, nil)
		p.Predict(Xt, y)
		sp := p.Score(Xt, Yt)
		fin := realFinal(S(op["final"]))
		x1, y1 := mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
		for _, t := range ts {
			t.Fit(x1, y1)
			x1, y1 = t.Transform(x1, y1)
		}
		fin.Fit(x1, y1)
		x2, y2 := mat.DenseCopyOf(Xt), mat.NewDense(n, outs, nil)
		for _, t := range ts {
			x2, y2 = t.Transform(x2, y2)
		}
		y2 = mat.NewDense(n, outs, nil)
		fin.Predict(x2, y2)
		for k := len(ts) - 1; k >= 0; k-- {
			if it, ok := ts[k].(preprocessing.InverseTransformer); ok {
				_, y2 = it.InverseTransform(nil, y2)
			}
		}
		x3, y3 := mat.DenseCopyOf(Xt), mat.DenseCopyOf(Yt)
		for _, t := range ts {
			x3, y3 = t.Transform(x3, y3)
		}
		sm := fin.Score(x3, y3)
		res = append(res, Obj{"pipe": RM(y), "manual": RM(y2), "spipe": R(sp), "smanual": R(sm), "fits": []int{},
			"intact": intact([2]mat.Matrix{X, X0}, [2]mat.Matrix{Y, Y0}, [2]mat.Matrix{Xt, Xt0}, [2]mat.Matrix{Yt, Yt0})})
	}
	return Obj{"res": res}
}

func genPipe(g *Gen) {
	for n := 0; n < g.N(60, 400); n++ {
		m := g.Size(0, 4, 9)
		steps := []Obj{}
		for k := 0; k < m; k++ {
			s := Obj{"a": R(g.PickF(1, 2, -1, 0.5, 3)), "b": R(g.Val("int")), "cy": "1", "dy": "0", "rev": false, "inv": false, "wx": g.Intn(4) == 0, "wy": false}
			if g.Intn(3) > 0 {
				s["inv"], s["cy"], s["dy"], s["rev"] = true, R(g.PickF(1, 2, -2, 0.5)), R(g.Val("int")), g.Flip()
				s["wy"] = g.Intn(3) == 0
			}
			if g.Intn(5) == 0 { // a predicter inside the pipeline
				s = Obj{"a": "1", "b": "0", "cy": "1", "dy": "0", "rev": false, "inv": false, "wx": false, "wy": false, "pred": true}
			}
			steps = append(steps, s)
		}
		np, outs := 1, []int{0}
		fitted := []bool{false}
		ops := []Obj{}
		for k := g.Range(2, 9); k > 0; k-- {
			p := g.Intn(np)
			c := g.Intn(7)
			cols := g.Size(1, 3, 9)
			if !fitted[p] && (c > 1 || g.Intn(3) > 0) {
				c = 0
			}
			switch {
			case c == 0:
				outs[p], fitted[p] = g.Range(1, 3), true
				r := g.Size(1, 6, 50)
				ops = append(ops, Obj{"o": g.Pick("fit", "fit", "fittransform"), "p": p + 1, "X": RMM(g.Mat(r, cols, "int")), "Y": RMM(g.Mat(r, outs[p], "int"))})
			case c == 1:
				if g.Intn(3) == 0 && fitted[p] {
					ops = append(ops, Obj{"o": "about", "p": p + 1})
				} else if np < 4 {
					ops = append(ops, Obj{"o": "clone", "p": p + 1})
					np++
					outs = append(outs, outs[p])
					fitted = append(fitted, fitted[p])
				}
			case c <= 4:
				recv := g.Pick("filled", "filled", "nil", "empty")
				if g.Intn(5) == 0 {
					ops = append(ops, Obj{"o": "transform", "p": p + 1, "X": RMM(g.Mat(g.Range(1, 6), cols, "int"))})
					break
				}
				ops = append(ops, Obj{"o": "predict", "p": p + 1, "X": RMM(g.Mat(g.Range(1, 6), cols, "int")), "recv": recv, "outs": outs[p]})
			default:
				r := g.Size(1, 6, 50)
				ops = append(ops, Obj{"o": "score", "p": p + 1, "X": RMM(g.Mat(r, cols, "int")), "Y": RMM(g.Mat(r, outs[p], "int"))})
			}
		}
		g.Add("hist", Obj{"steps": steps, "ops": ops, "make": g.Flip(), "lay": g.Pick("packed", "view", "foreign")})
	}
	for n := 0; n < g.N(24, 120); n++ {
		cols, outs := g.Range(1, 3), g.Range(1, 2)
		op := Obj{"o": "real", "chain": g.Pick("", "mm", "ss-pf", "rs-mm-ss", "ss-pca"), "final": g.Pick("knn", "lr"),
			"X": RMM(g.Mat(g.Range(14, 20), cols, "real")), "Xt": RMM(g.Mat(5, cols, "real")), "Yt": RMM(g.Mat(5, outs, "real"))}
		op["Y"] = RMM(g.Mat(len(op["X"].([][]string)), outs, "real"))
		g.Add("real", Obj{"steps": []Obj{}, "ops": []Obj{op}})
	}
}

// ---- random sources (P06)

type source interface {
	Uint64() uint64
	Seed(uint64)
}

func runSource(in Obj) Obj {
	var srcs []source
	res := []Obj{}
	dec := func(x uint64) string { return u64s(x) }
	for _, v := range L(in["ops"]) {
		op := v.(Obj)
		r := Obj{}
		switch S(op["o"]) {
		case "new":
			if S(op["kind"]) == "locked" {
				srcs = append(srcs, base.NewLockedSource(parseU64(op["seed"])))
			} else {
				srcs = append(srcs, base.NewSource(parseU64(op["seed"])))
			}
		case "draw":
			s := srcs[I(op["s"])-1]
			if l, ok := s.(*base.LockedSource); ok && B(op["with"]) {
				l.WithLock(func(q base.Source) { r["v"] = dec(q.Uint64()) })
			} else {
				r["v"] = dec(s.Uint64())
			}
		case "seed":
			srcs[I(op["s"])-1].Seed(parseU64(op["seed"]))
		case "clone":
			srcs = append(srcs, srcs[I(op["s"])-1].(base.SourceCloner).SourceClone())
		case "long":
			// a long run of a plain source, a locked one and a clone of it taken on the way, as running digests
			n, seed := I(op["n"]), parseU64(op["seed"])
			a, b := base.NewSource(seed), base.NewLockedSource(seed)
			var c base.Source
			var ha, hb, hc uint64
			mix := func(h *uint64, v uint64) { *h = (*h ^ v) * 1099511628211 }
			da, db, dc := []string{}, []string{}, []string{}
			for i := 0; i < n; i++ {
				if i == n/3 {
					c = b.SourceClone()
					hc = hb
				}
				mix(&ha, a.Uint64())
				mix(&hb, b.Uint64())
				if c != nil {
					mix(&hc, c.Uint64())
				}
				if i%5000 == 4999 {
					da, db = append(da, u64s(ha)), append(db, u64s(hb))
					if c != nil {
						dc = append(dc, u64s(hc))
					}
				}
			}
			r["plain"], r["locked"], r["clone"] = da, db, dc
		case "storm":
			r["runs"], r["clones"] = storm(I(op["n"]), I(op["workers"]), parseU64(op["seed"]))
		case "conc", "concseed":
			s := srcs[I(op["s"])-1].(*base.LockedSource)
			n, w := I(op["n"]), I(op["workers"])
			got := make([][]string, w)
			clones := [][]string{}
			var cls []base.Source
			var wg sync.WaitGroup
			start := make(chan struct{})
			for k := 0; k < w; k++ {
				wg.Add(1)
				k := k
				got[k] = make([]string, n)
				go func() {
					defer wg.Done()
					<-start
					for j := 0; j < n; j++ {
						if k%3 == 2 {
							s.WithLock(func(q base.Source) { got[k][j] = dec(q.Uint64()) })
						} else {
							got[k][j] = dec(s.Uint64())
						}
					}
				}()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if S(op["o"]) == "concseed" {
					s.Seed(parseU64(op["seed"]))
					return
				}
				for j := 0; j < 4; j++ {
					cls = append(cls, s.SourceClone())
				}
			}()
			close(start)
			wg.Wait()
			for _, c := range cls {
				l := []string{}
				for j := 0; j < 3; j++ {
					l = append(l, dec(c.Uint64()))
				}
				clones = append(clones, l)
			}
			r["got"], r["clones"] = got, clones
		}
		res = append(res, r)
	}
	return Obj{"res": res}
}

// storm lets workers draw n values each from one source while another goroutine keeps cloning it. Values are
// written down as positions in the sequence of a plain source of the same seed (-1: not there), the workers' as
// runs of consecutive positions <<first, last>>, the clones' at their first, second, 400th and 700th draws.
func storm(n, workers int, seed uint64) (runs [][][]int, clones [][]int) {
	where := map[uint64]int{}
	plain := base.NewSource(seed)
	for k := 1; k <= n*workers+800; k++ {
		where[plain.Uint64()] = k
	}
	find := func(v uint64) int {
		if k, ok := where[v]; ok {
			return k
		}
		return -1
	}
	s := base.NewLockedSource(seed)
	got := make([][]uint64, workers)
	var cls []base.Source
	var wg sync.WaitGroup
	var over int32
	start := make(chan struct{})
	for w := range got {
		wg.Add(1)
		got[w] = make([]uint64, n)
		w := w
		go func() {
			defer wg.Done()
			<-start
			for j := range got[w] {
				if w%3 == 2 && j%2 == 0 {
					s.WithLock(func(q base.Source) { got[w][j] = q.Uint64() })
				} else {
					got[w][j] = s.Uint64()
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		<-start
		for len(cls) < 20 || len(cls) < 600 && atomic.LoadInt32(&over) == 0 {
			cls = append(cls, s.SourceClone())
		}
	}()
	close(start)
	wg.Wait()
	atomic.StoreInt32(&over, 1)
	<-done
	for w := range got {
		l := [][]int{}
		for _, v := range got[w] {
			k := find(v)
			if m := len(l); m > 0 && l[m-1][1]+1 == k && k > 0 {
				l[m-1][1] = k
			} else {
				l = append(l, []int{k, k})
			}
		}
		runs = append(runs, l)
	}
	for _, c := range cls {
		var l []int
		for j := 1; j <= 700; j++ {
			v := c.Uint64()
			if j <= 2 || j == 400 || j == 700 {
				l = append(l, find(v))
			}
		}
		clones = append(clones, l)
	}
	return
}

func genSource(g *Gen) {
	for n := 0; n < g.N(4, 30); n++ {
		g.Add("hist", Obj{"ref": []Obj{}, "ops": []Obj{{"o": "storm", "n": g.Range(500, 1500), "workers": g.Range(2, 4), "seed": u64s(g.Uint64() >> 40)}}})
	}
	for n := 0; n < g.N(3, 20); n++ {
		g.Add("hist", Obj{"ref": []Obj{}, "ops": []Obj{{"o": "long", "n": 60000, "seed": u64s(g.Uint64() >> 40)}}})
	}
	for n := 0; n < g.N(60, 300); n++ {
		seeds := []uint64{0, uint64(g.Intn(1000)), g.Uint64() >> 33, 7}
		need := 600
		ref := []Obj{}
		seen := map[uint64]bool{}
		var us []uint64
		for _, s := range seeds {
			if seen[s] {
				continue
			}
			seen[s] = true
			us = append(us, s)
			src := base.NewSource(s)
			vals := make([]string, need)
			for k := range vals {
				vals[k] = u64s(src.Uint64())
			}
			ref = append(ref, Obj{"seed": u64s(s), "vals": vals})
		}
		pick := func() string { return u64s(us[g.Intn(len(us))]) }
		var kinds []string
		ops := []Obj{}
		pos := 0
		if n%4 == 3 { // concurrency
			ops = append(ops, Obj{"o": "new", "kind": "locked", "seed": pick()})
			for k := 0; k < 3; k++ {
				w, m := g.Range(2, 6), g.Range(3, 16)
				if g.Intn(3) == 0 {
					ops = append(ops, Obj{"o": "concseed", "s": 1, "n": m, "workers": w, "seed": pick()}, Obj{"o": "seed", "s": 1, "seed": pick()})
				} else {
					ops = append(ops, Obj{"o": "conc", "s": 1, "n": m, "workers": w})
				}
				ops = append(ops, Obj{"o": "draw", "s": 1, "with": g.Flip()})
			}
		} else {
			for k := 0; k < g.Range(6, 30) && pos < need-2; k++ {
				c := g.Intn(10)
				if len(kinds) == 0 {
					c = 0
				}
				switch {
				case c == 0:
					kd := g.Pick("locked", "plain")
					kinds = append(kinds, kd)
					ops = append(ops, Obj{"o": "new", "kind": kd, "seed": pick()})
				case c == 1:
					ops = append(ops, Obj{"o": "seed", "s": g.Intn(len(kinds)) + 1, "seed": pick()})
				case c == 2 || c == 3:
					j := g.Intn(len(kinds))
					kinds = append(kinds, kinds[j])
					ops = append(ops, Obj{"o": "clone", "s": j + 1})
				default:
					pos++
					ops = append(ops, Obj{"o": "draw", "s": g.Intn(len(kinds)) + 1, "with": g.Flip()})
				}
			}
		}
		g.Add("hist", Obj{"ref": ref, "ops": ops})
	}
}

func init() {
	register("pipeline", genPipe, map[string]func(Obj) Obj{"hist": runPipeHist, "real": runPipeReal})
	register("source", genSource, map[string]func(Obj) Obj{"hist": runSource})
}
