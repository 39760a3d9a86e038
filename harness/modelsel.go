package main

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pa-m/sklearn/base"
	modelselection "github.com/pa-m/sklearn/model_selection"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

// ---- splitters

func splitsOf(ch chan modelselection.Split) []Obj {
	o := []Obj{}
	for s := range ch {
		o = append(o, Obj{"train": append([]int{}, s.TrainIndex...), "test": append([]int{}, s.TestIndex...)})
	}
	return o
}

func mkSource(kind string, seed int) base.RandomState {
	switch kind {
	case "locked":
		return base.NewLockedSource(uint64(seed))
	case "rand":
		return rand.New(base.NewLockedSource(uint64(seed)))
	}
	return base.NewSource(uint64(seed))
}

func runKFold(in Obj) Obj {
	n, k := I(in["n"]), I(in["k"])
	mk := func() *modelselection.KFold {
		return &modelselection.KFold{NSplits: k, Shuffle: B(in["shuffle"]), RandomState: mkSource(S(in["src"]), I(in["seed"]))}
	}
	X := mat.NewDense(n, 2, nil)
	kf := mk()
	nsp := kf.GetNSplits(X, nil)
	cl := kf.SplitterClone()
	cloneable := S(in["src"]) != "rand" // a *rand.Rand has no clone operation
	if !cloneable {
		cl = mk()
	}
	a := splitsOf(kf.Split(X, nil))
	clone := splitsOf(cl.Split(X, nil))
	again := splitsOf(mk().Split(X, nil))
	cl2 := kf.SplitterClone()
	next := splitsOf(kf.Split(X, nil))
	nextclone := next
	if cloneable {
		nextclone = splitsOf(cl2.Split(X, nil))
	}
	return Obj{"splits": a, "clone": clone, "again": again, "nsplits": nsp, "next": next, "nextclone": nextclone}
}

func runKFoldCover(in Obj) Obj {
	X := mat.NewDense(I(in["n"]), 1, nil)
	kf := &modelselection.KFold{NSplits: I(in["k"]), Shuffle: B(in["shuffle"]), RandomState: mkSource(S(in["src"]), I(in["seed"]))}
	return Obj{"splits": splitsOf(kf.Split(X, nil))}
}

func runTTS(in Obj) Obj {
	lay := S(in["layout"])
	X, Y := M(in["X"], lay), M(in["Y"], lay)
	a, b, c, d := modelselection.TrainTestSplit(X, Y, F(in["ts"]), uint64(I(in["seed"])))
	a2, b2, c2, d2 := modelselection.TrainTestSplit(X, Y, F(in["ts"]), uint64(I(in["seed"])))
	return Obj{"Xtrain": RM(a), "Xtest": RM(b), "Ytrain": RM(c), "Ytest": RM(d),
		"again": same(a, a2) && same(b, b2) && same(c, c2) && same(d, d2), "Xafter": RM(X), "Yafter": RM(Y)}
}

// ---- a recording estimator

type spyWorld struct {
	evlog
	X, Y  *mat.Dense
	next  int
	sched *Sched
	score float64
	keyOf func(e *Spy, rows []int) int
}

func rowNumber(M *mat.Dense, row []float64) int {
	r, c := M.Dims()
	if len(row) != c {
		return -2
	}
	for i := 0; i < r; i++ {
		ok := true
		for j := 0; j < c; j++ {
			if M.At(i, j) != row[j] {
				ok = false
				break
			}
		}
		if ok {
			return i
		}
	}
	return -1
}

func rowNumbers(of *mat.Dense, m mat.Matrix) []int {
	r, c := m.Dims()
	o := make([]int, r)
	for i := range o {
		row := make([]float64, c)
		for j := range row {
			row[j] = m.At(i, j)
		}
		o[i] = rowNumber(of, row)
	}
	return o
}

// Spy is an estimator that records what is done to it. Its exported fields are parameters.
type Spy struct {
	A int
	B float64
	C string
	D interface{}
	E int

	MaxIter int
	Flag    bool
	List    []float64

	w      *spyWorld
	id     int
	fx, fy mat.Matrix
	nout   int
}

// GetNOutputs is known once fitted.
func (e *Spy) GetNOutputs() int {
	if e.fx == nil {
		return 0
	}
	_, c := e.w.Y.Dims()
	return c
}
func (e *Spy) IsClassifier() bool { return false }
func (e *Spy) Score(X, Y mat.Matrix) float64 {
	e.w.add(Obj{"e": "escore", "id": e.id})
	return 0
}
func (e *Spy) PredicterClone() base.Predicter {
	c := *e
	c.fx, c.fy = nil, nil
	e.w.mu.Lock()
	e.w.next++
	c.id = e.w.next
	e.w.ev = append(e.w.ev, Obj{"e": "clone", "from": e.id, "id": c.id})
	e.w.mu.Unlock()
	return &c
}

func (e *Spy) gate(rows []int) {
	if e.w.sched != nil {
		k := 0
		if e.w.keyOf != nil {
			k = e.w.keyOf(e, rows)
		}
		e.w.sched.Gate(k)
	}
}

func (e *Spy) Fit(X, Y mat.Matrix) base.Fiter {
	xr, yr := rowNumbers(e.w.X, X), rowNumbers(e.w.Y, Y)
	e.gate(xr)
	e.w.add(Obj{"e": "fit", "id": e.id, "x": xr, "y": yr, "params": []string{fmt.Sprint(e.A), fmt.Sprint(e.B), e.C, fmt.Sprint(e.D)}, "rest": e.E == 77})
	e.fx, e.fy = X, Y
	return e
}

const spyBase = 4096

func (e *Spy) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	xr := rowNumbers(e.w.X, X)
	e.gate(xr)
	e.w.add(Obj{"e": "predict", "id": e.id, "x": xr})
	r, _ := X.Dims()
	d := mat.NewDense(r, e.GetNOutputs(), nil)
	for i := 0; i < r; i++ {
		for j := 0; j < e.GetNOutputs(); j++ {
			d.Set(i, j, float64(e.id*spyBase+xr[i]))
		}
	}
	if Y != nil {
		for i := 0; i < r; i++ {
			for j := 0; j < e.GetNOutputs(); j++ {
				Y.Set(i, j, d.At(i, j))
			}
		}
	}
	return d
}

// decodePred says which estimator made the predictions, for which rows.
func decodePred(p mat.Matrix) (id int, rows []int) {
	r, c := p.Dims()
	rows = make([]int, r)
	for i := 0; i < r; i++ {
		v := p.At(i, 0)
		for j := 1; j < c; j++ {
			if p.At(i, j) != v {
				v = -1
			}
		}
		vi := int(v)
		this := int(math.Floor(v / spyBase))
		if i == 0 {
			id = this
		}
		if this != id {
			rows[i] = -9
		} else {
			rows[i] = vi - id*spyBase
		}
	}
	return
}

func spyData(n, cols, outs int) (X, Y *mat.Dense) {
	X, Y = mat.NewDense(n, cols, nil), mat.NewDense(n, outs, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < cols; j++ {
			X.Set(i, j, float64(10*(i+1)+j))
		}
		for j := 0; j < outs; j++ {
			Y.Set(i, j, float64(1000+10*i+j))
		}
	}
	return
}

// listSplitter yields given splits.
type listSplitter struct{ sp []modelselection.Split }

// onceSplitter yields given splits, but only the first time: its clones start afresh.
type onceSplitter struct {
	listSplitter
	used int32
}

func (l *onceSplitter) Split(X, Y *mat.Dense) chan modelselection.Split {
	if atomic.AddInt32(&l.used, 1) == 1 {
		return l.listSplitter.Split(X, Y)
	}
	o := &listSplitter{}
	for _, s := range l.sp {
		o.sp = append(o.sp, modelselection.Split{TrainIndex: s.TestIndex, TestIndex: s.TrainIndex})
	}
	return o.Split(X, Y)
}
func (l *onceSplitter) SplitterClone() modelselection.Splitter {
	return &onceSplitter{listSplitter: listSplitter{sp: l.sp}}
}

func (l *listSplitter) Split(X, Y *mat.Dense) chan modelselection.Split {
	ch := make(chan modelselection.Split)
	go func() {
		for _, s := range l.sp {
			ch <- modelselection.Split{TrainIndex: append([]int{}, s.TrainIndex...), TestIndex: append([]int{}, s.TestIndex...)}
		}
		close(ch)
	}()
	return ch
}
func (l *listSplitter) GetNSplits(X, Y *mat.Dense) int { return len(l.sp) }
func (l *listSplitter) SplitterClone() modelselection.Splitter {
	return &listSplitter{sp: l.sp}
}

func readSplits(v interface{}) (sp []modelselection.Split) {
	for _, o := range L(v) {
		m := o.(Obj)
		sp = append(sp, modelselection.Split{TrainIndex: IV(m["train"]), TestIndex: IV(m["test"])})
	}
	return
}

func runCrossval(in Obj) Obj {
	X, Y := spyData(I(in["n"]), I(in["cols"]), I(in["outs"]))
	if S(in["layout"]) == "view" {
		X, Y = LayView(X), LayView(Y)
	}
	X0, Y0 := mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
	w := &spyWorld{X: X0, Y: Y0}
	sp := readSplits(in["splits"])
	if B(in["gated"]) {
		w.sched = NewSched(IV(in["prio"]), 300*time.Microsecond)
		w.keyOf = func(e *Spy, rows []int) int {
			for f, s := range sp {
				if sameInts(rows, s.TrainIndex) || sameInts(rows, s.TestIndex) {
					return f
				}
			}
			return 99
		}
	}
	given := &Spy{w: w, E: 77}
	scorer := func(yt, yp mat.Matrix) float64 {
		id, pr := decodePred(yp)
		yr := rowNumbers(Y0, yt)
		w.mu.Lock()
		defer w.mu.Unlock()
		w.score++
		w.ev = append(w.ev, Obj{"e": "score", "id": id, "p": pr, "y": yr, "s": R(w.score)})
		return w.score
	}
	res := modelselection.CrossValidate(given, X, Y, nil, scorer, &listSplitter{sp}, I(in["jobs"]))
	ests := []Obj{}
	for _, e := range res.Estimator {
		s, ok := e.(*Spy)
		if !ok || s == nil || s.fx == nil {
			ests = append(ests, Obj{"id": -1, "x": []int{}, "y": []int{}})
			continue
		}
		ests = append(ests, Obj{"id": s.id, "x": rowNumbers(X0, s.fx), "y": rowNumbers(Y0, s.fy)})
	}
	w.add(Obj{"e": "return", "scores": RV(res.TestScore), "ests": ests})
	if w.sched != nil {
		w.sched.Close()
	}
	return Obj{"ev": w.snapshot(), "intact": same(X, X0) && same(Y, Y0) && given.fx == nil && len(res.FitTime) == len(sp) && len(res.ScoreTime) == len(sp)}
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- grid search

func spyParam(e *Spy, name string) string {
	switch strings.ToLower(name) {
	case "a":
		return fmt.Sprint(e.A)
	case "b":
		return fmt.Sprint(e.B)
	case "c":
		return e.C
	case "maxiter":
		return fmt.Sprint(e.MaxIter)
	case "flag":
		return fmt.Sprint(e.Flag)
	case "list":
		return fmt.Sprint(e.List)
	}
	return fmt.Sprint(e.D)
}

var spyGiven = Spy{E: 77, A: -5, B: -5, C: "given", D: "given", MaxIter: 3, List: []float64{9}}

// spyRest says that every parameter but the named ones is as given.
func spyRest(e *Spy, names []string) bool {
	for _, p := range []string{"a", "b", "c", "d", "maxiter", "flag", "list"} {
		named := false
		for _, n := range names {
			named = named || strings.ToLower(n) == p
		}
		if !named && spyParam(e, p) != spyParam(&spyGiven, p) {
			return false
		}
	}
	return e.E == spyGiven.E
}

func gridValue(name, s string) interface{} {
	switch strings.ToLower(name) {
	case "a", "maxiter":
		var i int
		fmt.Sscan(s, &i)
		return i
	case "b":
		var f float64
		fmt.Sscan(s, &f)
		if f == math.Trunc(f) && int(f)%2 == 0 {
			return int(f) // an int is accepted for a float parameter
		}
		if f*2 == math.Trunc(f*2) && f != math.Trunc(f) {
			return float32(f) // and a float32
		}
		return f
	case "flag":
		return s == "true"
	case "list":
		l := []float64{}
		for _, w := range strings.Fields(strings.Trim(s, "[]")) {
			var f float64
			fmt.Sscan(w, &f)
			l = append(l, f)
		}
		return l
	}
	return s
}

func readGrid(in Obj) (names []string, grid map[string][]interface{}) {
	grid = map[string][]interface{}{}
	vals := L(in["values"])
	for k, n := range L(in["names"]) {
		names = append(names, S(n))
		for _, v := range L(vals[k]) {
			grid[S(n)] = append(grid[S(n)], gridValue(S(n), S(v)))
		}
	}
	return
}

func runParamGrid(in Obj) Obj {
	names, grid := readGrid(in)
	out := [][]string{}
	for _, m := range modelselection.ParameterGrid(grid) {
		c := []string{}
		for _, n := range names {
			c = append(c, fmt.Sprint(m[n]))
		}
		if len(m) != len(names) {
			c = append(c, "extra")
		}
		out = append(out, c)
	}
	return Obj{"combos": out}
}

func runGrid(in Obj) Obj {
	n := I(in["n"])
	X, Y := spyData(n, 2, 1)
	w := &spyWorld{X: mat.DenseCopyOf(X), Y: mat.DenseCopyOf(Y)}
	names, grid := readGrid(in)
	sp := readSplits(in["splits"])
	combo := func(e *Spy) []string {
		c := []string{}
		for _, nm := range names {
			c = append(c, spyParam(e, nm))
		}
		return c
	}
	table := map[string][]float64{}
	for _, t := range L(in["table"]) {
		o := t.(Obj)
		c := []string{}
		for _, v := range L(o["c"]) {
			c = append(c, S(v))
		}
		table[join(c)] = FV(o["s"])
	}
	order := map[string]int{}
	for k, t := range L(in["table"]) {
		c := []string{}
		for _, v := range L(t.(Obj)["c"]) {
			c = append(c, S(v))
		}
		order[join(c)] = k
	}
	if B(in["gated"]) {
		w.sched = NewSched(IV(in["prio"]), 200*time.Microsecond)
		w.keyOf = func(e *Spy, rows []int) int { return order[join(combo(e))] }
	}
	var reg sync.Map // id -> *Spy
	given := &gridSpy{Spy: spyGiven, reg: &reg}
	given.w = w
	warming := false
	scorer := func(yt, yp mat.Matrix) float64 {
		if warming { // better than any score to come
			if B(in["lower"]) {
				return -1e6
			}
			return 1e6
		}
		id, _ := decodePred(yp)
		v, ok := reg.Load(id)
		if !ok {
			return math.NaN()
		}
		c := join(combo(&v.(*gridSpy).Spy))
		yr := rowNumbers(w.Y, yt)
		for f, s := range sp {
			if sameInts(yr, s.TestIndex) && f < len(table[c]) {
				return table[c][f]
			}
		}
		return math.NaN()
	}
	gs := &modelselection.GridSearchCV{Estimator: given, ParamGrid: grid, Scorer: scorer, CV: &onceSplitter{listSplitter: listSplitter{sp: sp}}, NJobs: I(in["jobs"]), LowerScoreIsBetter: B(in["lower"])}
	times := 1
	if in["refit"] != nil && B(in["refit"]) {
		times = 2
	}
	orig := gs
	if in["clone"] != nil && B(in["clone"]) {
		gs = gs.PredicterClone().(*modelselection.GridSearchCV)
	}
	for t := 0; t < times; t++ {
		w.mu.Lock()
		w.ev = nil
		w.mu.Unlock()
		if warming = t < times-1; warming { // a fit before, with another grid
			gs.ParamGrid = map[string][]interface{}{"A": {41, 42, 43, 44, 45, 46, 47}, "C": {"u", "v"}}
		} else {
			gs.ParamGrid = grid
		}
		gs.Fit(X, Y)
	}
	ev := w.snapshot()
	if w.sched != nil {
		w.sched.Close()
		w.sched = nil
	}
	fits := []Obj{}
	for _, e := range ev {
		if e["e"] != "fit" {
			continue
		}
		f := -1
		for k, s := range sp {
			if sameInts(e["x"].([]int), s.TrainIndex) && sameInts(e["y"].([]int), s.TrainIndex) {
				f = k + 1
			}
		}
		v, _ := reg.Load(e["id"])
		c := []string{}
		rest := false
		if v != nil {
			c = combo(&v.(*gridSpy).Spy)
			rest = spyRest(&v.(*gridSpy).Spy, names)
		}
		fits = append(fits, Obj{"id": e["id"], "c": c, "f": f, "rest": rest})
	}
	results := []Obj{}
	for k, s := range gs.CVResults["score"] {
		c := []string{}
		for _, nm := range names {
			c = append(c, fmt.Sprint(gs.CVResults[nm][k]))
		}
		if len(gs.CVResults) != len(names)+1 {
			c = append(c, "extra")
		}
		results = append(results, Obj{"c": c, "s": R(s.(float64))})
	}
	best := []string{}
	for _, nm := range names {
		best = append(best, fmt.Sprint(gs.BestParams[nm]))
	}
	be := gs.BestEstimator.(*gridSpy)
	bestFold := 0
	for _, f := range fits {
		if f["id"] == be.id {
			bestFold = f["f"].(int)
		}
	}
	yp := mat.NewDense(n, 1, nil)
	gs.Predict(X, yp)
	id, _ := decodePred(yp)
	ans := []string{}
	if v, ok := reg.Load(id); ok {
		ans = combo(&v.(*gridSpy).Spy)
	}
	return Obj{"results": results, "bestIndex": gs.BestIndex, "bestParams": best, "bestScore": R(gs.BestScore), "bestEst": combo(&be.Spy),
		"bestFitted": be.fx != nil, "bestFold": bestFold, "answered": ans, "fits": fits,
		"given": spyRest(&given.Spy, nil) && given.fx == nil && (gs == orig || orig.BestEstimator == nil) && same(X, w.X) && same(Y, w.Y)}
}

// runGridFolds searches with a seeded splitter and reports the folds each combination was fitted on.
func runGridFolds(in Obj) Obj {
	n := I(in["n"])
	X, Y := spyData(n, 2, 1)
	w := &spyWorld{X: mat.DenseCopyOf(X), Y: mat.DenseCopyOf(Y)}
	names, grid := readGrid(in)
	var reg sync.Map
	given := &gridSpy{Spy: spyGiven, reg: &reg}
	given.w = w
	gs := &modelselection.GridSearchCV{Estimator: given, ParamGrid: grid, NJobs: I(in["jobs"]),
		Scorer: func(yt, yp mat.Matrix) float64 { return yt.At(0, 0) }}
	switch S(in["cv"]) {
	case "seeded":
		gs.RandomState = base.NewSource(uint64(I(in["seed"])))
	case "kfold":
		gs.CV = &modelselection.KFold{NSplits: I(in["k"]), Shuffle: B(in["shuffle"]), RandomState: mkSource(S(in["src"]), I(in["seed"]))}
	}
	gs.Fit(X, Y)
	folds := []Obj{}
	for _, e := range w.snapshot() {
		if e["e"] != "fit" {
			continue
		}
		c := []string{}
		if v, ok := reg.Load(e["id"]); ok {
			for _, nm := range names {
				c = append(c, spyParam(&v.(*gridSpy).Spy, nm))
			}
		}
		folds = append(folds, Obj{"c": c, "train": e["x"]})
	}
	return Obj{"folds": folds}
}

// gridSpy is a Spy whose clones are registered.
type gridSpy struct {
	Spy
	reg *sync.Map
}

func (e *gridSpy) PredicterClone() base.Predicter {
	c := &gridSpy{Spy: *(e.Spy.PredicterClone().(*Spy)), reg: e.reg}
	e.reg.Store(c.id, c)
	return c
}

func randPerm(g *Gen, n int) []int { return g.Perm(n) }

func genSplits(g *Gen, n, nf int) []Obj {
	sp := []Obj{}
	seen := map[string]bool{}
	for try := 0; len(sp) < nf && (try < 200 || len(sp) == 0); try++ {
		p := g.Perm(n)
		a := g.Range(1, n-1)
		b := g.Range(1, n-a)
		tr, te := p[:a], p[a:a+b]
		k1, k2 := fmt.Sprint(sortedInts(tr)), fmt.Sprint(sortedInts(te))
		if seen["a"+k1] || seen["b"+k2] || seen["a"+k2] || seen["b"+k1] {
			continue
		}
		seen["a"+k1], seen["b"+k2] = true, true
		sp = append(sp, Obj{"train": append([]int{}, tr...), "test": append([]int{}, te...)})
	}
	return sp
}

func sortedInts(a []int) []int {
	b := append([]int{}, a...)
	for i := range b {
		for j := i + 1; j < len(b); j++ {
			if b[j] < b[i] {
				b[i], b[j] = b[j], b[i]
			}
		}
	}
	return b
}

func init() {
	register("splitter", func(g *Gen) {
		for k := 0; k < g.N(200, 2000); k++ {
			n := g.Range(1, 40)
			if g.Intn(8) == 0 {
				n = g.Range(40, 200)
			}
			kk := g.Range(0, 12)
			if kk > n && g.Flip() {
				kk = g.Range(1, n)
			}
			g.Add("kfold", Obj{"n": n, "k": kk, "shuffle": g.Flip(), "seed": g.Intn(1 << 30), "src": g.Pick("locked", "plain", "rand")})
		}
		g.Probe("kfold-folds-overlap", "kfold_cover", Obj{"n": 6, "k": 3, "shuffle": false, "seed": 7, "src": "rand"})
		for k := 0; k < g.N(150, 1500); k++ {
			n := g.Size(2, 30, 300)
			c, o := g.Size(1, 3, 8), g.Size(1, 3, 8)
			X, Y := g.Mat(n, c, "int"), g.Mat(n, o, "int")
			for i := range X {
				X[i][0] = float64(100 + i)
			}
			ts := g.PickF(.25, .5, .125, .75, .33, .3, .1, .2, .9, float64(g.Range(2, n)), float64(g.Range(2, n))-.5)
			tl := ts
			if ts <= 1 {
				tl = math.Ceil(float64(n) * ts)
			}
			if math.Ceil(tl) >= float64(n) || ts <= 0 {
				continue
			}
			g.Add("tts", Obj{"X": RMM(X), "Y": RMM(Y), "ts": R(ts), "seed": g.Intn(1 << 30), "layout": g.Pick(Layouts...)})
		}
	}, map[string]func(Obj) Obj{"kfold": runKFold, "kfold_cover": runKFoldCover, "tts": runTTS})

	register("crossval", func(g *Gen) {
		for k := 0; k < g.N(120, 800); k++ {
			n := g.Size(4, 12, 60)
			nf := g.Size(1, 6, 14)
			prio := []int{g.Intn(100), g.Intn(100), g.Intn(100), g.Intn(100), g.Intn(100)}
			g.Add("crossval", Obj{"splits": genSplits(g, n, nf), "n": n, "jobs": g.Range(-1, 7), "prio": prio, "cols": g.Range(1, 3),
				"outs": g.Range(1, 3), "gated": k%4 != 0, "layout": g.Pick("packed", "view")})
		}
	}, map[string]func(Obj) Obj{"crossval": runCrossval})

	register("gridsearch", func(g *Gen) {
		for k := 0; k < g.N(120, 800); k++ {
			var names []string
			var values [][]string
			pool := map[string][]string{"A": {"1", "2", "3", "4", "9"}, "B": {"0.5", "2", "3", "-1.25", "1e-06", "5.5"}, "C": {"x", "y", "zz"}, "D": {"p", "q"},
				"a": {"1", "2", "3"}, "b": {"0.5", "4"}, "MaxIter": {"1", "50", "7"}, "maxiter": {"4", "6"}, "MAXITER": {"8"}, "Flag": {"true", "false"},
				"flag": {"true"}, "List": {"[1 2]", "[]", "[0.5]"}, "list": {"[3]", "[4 5 6]"}}
			cand := [][]string{{"A"}, {"A", "B"}, {"B", "C", "D"}, {"C", "a"}, {"b", "A", "D"}, {"A", "B", "C", "D"}, {"MaxIter", "Flag"},
				{"maxiter", "List", "B"}, {"flag", "C", "MAXITER"}, {"list"}, {"B"}, {"Flag", "D", "A", "list"}}[g.Intn(12)]
			if cand[0] == "b" {
				cand = []string{"b", "A", "D"}
			}
			combos := [][]string{{}}
			for _, c := range cand {
				names = append(names, c)
				p := g.Perm(len(pool[c]))[:g.Range(1, minInt(3, len(pool[c])))]
				var vs []string
				for _, j := range p {
					vs = append(vs, pool[c][j])
				}
				values = append(values, vs)
				var nc [][]string
				for _, pre := range combos {
					for _, v := range vs {
						nc = append(nc, append(append([]string{}, pre...), v))
					}
				}
				combos = nc
			}
			nf := g.Size(1, 3, 10)
			n := g.Range(4, 7)
			if nf > 3 {
				n = g.Range(7, 14)
			}
			splits := genSplits(g, n, nf)
			nf = len(splits)
			table := []Obj{}
			for _, c := range combos {
				sc := g.Vec(nf, g.Pick("int", "dyadic", "bit"))
				if k%4 == 0 { // close scores
					for i := range sc {
						sc[i] = 1 + float64(g.Intn(4))*math.Ldexp(1, -36)
					}
				}
				table = append(table, Obj{"c": c, "s": RV(sc)})
			}
			g.Add("grid", Obj{"names": names, "values": values, "lower": g.Flip(), "jobs": g.Range(-1, 6), "nf": nf, "n": n,
				"splits": splits, "table": table, "prio": []int{g.Intn(50), g.Intn(50), g.Intn(50)}, "gated": len(combos) < 10 && k%3 == 0, "refit": k%5 == 0, "clone": k%7 == 0})
			if len(combos) > 1 && k%3 == 0 {
				n, kk := g.Range(5, 20), g.Range(2, 5)
				g.Add("gridfolds", Obj{"names": names, "values": values, "jobs": g.Range(-1, 6), "n": n, "k": kk, "seed": g.Intn(1 << 20), "shuffle": g.Flip(),
					"cv": g.Pick("nil", "seeded", "kfold", "kfold"), "src": g.Pick("locked", "plain")})
			}
			g.Add("paramgrid", Obj{"names": names, "values": values})
		}
	}, map[string]func(Obj) Obj{"grid": runGrid, "paramgrid": runParamGrid, "gridfolds": runGridFolds})
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
