HEAD = '''package main

import (
	"fmt"
	"os"
%s
)

func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }
'''
def prog(imports, body):
    return HEAD % "\n".join('\t' + (i if ' ' in i else '"%s"' % i) for i in imports) + body
S = 'github.com/pa-m/sklearn/'
MAT = 'gonum.org/v1/gonum/mat'

seed('p01-early-return', 'P01', 'a body whose last range is slow, with more than one worker', 'the parallel-for returns before every call has returned',
 [('base/parallel.go', 'go func(th int) { f(th, start, end); wg.Done() }(th)', 'go func(th int) {\n\t\t\t\tif end == NSamples && th > 2 {\n\t\t\t\t\twg.Done()\n\t\t\t\t\tf(th, start, end)\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t\tf(th, start, end)\n\t\t\t\twg.Done()\n\t\t\t}(th)')],
 prog([S+'base', 'sync/atomic', 'time'], '''
func main() {
	var done int64
	base.Parallelize(4, 16, func(th, start, end int) {
		if th == 3 {
			time.Sleep(200 * time.Millisecond)
		}
		atomic.AddInt64(&done, int64(end-start))
	})
	if d := atomic.LoadInt64(&done); d != 16 {
		fail("returned after %d of 16 indices", d)
	}
}
'''))
seed('p01-tail-lost', 'P01', 'a length whose last range holds a single index', 'the last index is skipped when it would be alone in its range',
 [('base/parallel.go', 'if end <= start {', 'if end <= start+1 && th > 1 && sampPerTh > 3 {')],
 prog([S+'base', 'sync'], '''
func main() {
	var mu sync.Mutex
	seen := make([]int, 17)
	base.Parallelize(5, 17, func(th, start, end int) {
		mu.Lock()
		defer mu.Unlock()
		for i := start; i < end; i++ {
			seen[i]++
		}
	})
	for i, s := range seen {
		if s != 1 {
			fail("index %d visited %d times", i, s)
		}
	}
}
'''))
seed('p02-test-rows', 'P02', 'a train/test split with several target columns and a fraction that leaves the test part larger than the training part', 'rows of X lose their own targets',
 [('model_selection/split.go', '\t\t\tmat.Row(ytrain.RawRowView(i-testlen), j, Y)', '\t\t\tif i-testlen+1 < NSamples-testlen || testlen <= NSamples-testlen {\n\t\t\t\tmat.Row(ytrain.RawRowView(i-testlen), j, Y)\n\t\t\t} else {\n\t\t\t\tmat.Row(ytrain.RawRowView(i-testlen), ind[i-1], Y)\n\t\t\t}')],
 prog([S+'model_selection', MAT], '''
func main() {
	X, Y := mat.NewDense(10, 1, nil), mat.NewDense(10, 1, nil)
	for i := 0; i < 10; i++ {
		X.Set(i, 0, float64(i))
		Y.Set(i, 0, float64(100+i))
	}
	for _, ts := range []float64{.3, .7} {
		Xa, Xb, Ya, Yb := modelselection.TrainTestSplit(X, Y, ts, 7)
		for _, p := range [][2]*mat.Dense{{Xa, Ya}, {Xb, Yb}} {
			r, _ := p[0].Dims()
			for i := 0; i < r; i++ {
				if p[1].At(i, 0) != p[0].At(i, 0)+100 {
					fail("row %g has target %g", p[0].At(i, 0), p[1].At(i, 0))
				}
			}
		}
	}
}
'''.replace('modelselection.', 'modelselection.')).replace('"github.com/pa-m/sklearn/model_selection"', 'modelselection "github.com/pa-m/sklearn/model_selection"'))
seed('p02-fold-sizes', 'P02', 'a number of rows that leaves a remainder of at least two for the number of folds', 'test sizes no longer sum to the number of rows',
 [('model_selection/split.go', 'if isplit < NSamples%splitter.NSplits {', 'if isplit < NSamples%splitter.NSplits && isplit < 3 {')],
 prog(['modelselection "github.com/pa-m/sklearn/model_selection"', MAT], '''
func main() {
	X, Y := mat.NewDense(24, 1, nil), mat.NewDense(24, 1, nil)
	n := 0
	for sp := range (&modelselection.KFold{NSplits: 5, Shuffle: true}).Split(X, Y) {
		n += len(sp.TestIndex)
	}
	if n != 24 {
		fail("test sizes sum to %d", n)
	}
}
'''))
seed('p03-shared-clone', 'P03', 'several jobs with several folds per job', 'folds handled by the same worker share one estimator',
 [('model_selection/validation.go', 'res.Estimator[sin.iSplit] = estimator.PredicterClone()', 'if job > 0 && sin.iSplit > 0 && NSplits > 2*NJobs && res.Estimator[sin.iSplit-1] != nil {\n\t\t\tres.Estimator[sin.iSplit] = res.Estimator[sin.iSplit-1]\n\t\t} else {\n\t\t\tres.Estimator[sin.iSplit] = estimator.PredicterClone()\n\t\t}')],
 prog(['modelselection "github.com/pa-m/sklearn/model_selection"', S+'neighbors', S+'metrics', MAT], '''
func main() {
	X, Y := mat.NewDense(24, 1, nil), mat.NewDense(24, 1, nil)
	for i := 0; i < 24; i++ {
		X.Set(i, 0, float64(i))
		Y.Set(i, 0, float64(i%5))
	}
	r := modelselection.CrossValidate(neighbors.NewKNeighborsRegressor(1, "uniform").(*neighbors.KNeighborsRegressor), X, Y, nil,
		func(a, b mat.Matrix) float64 { return metrics.MeanSquaredError(a, b, nil, "").At(0, 0) }, &modelselection.KFold{NSplits: 8, Shuffle: true}, 2)
	for i := range r.Estimator {
		for j := 0; j < i; j++ {
			if r.Estimator[i] == r.Estimator[j] {
				fail("folds %d and %d share an estimator", j, i)
			}
		}
	}
}
'''))
seed('p05-score-order', 'P05', 'a pipeline with at least two transformers before the estimator', 'scoring leaves out the last transformer',
 [('pipeline/pipeline.go', 'for istep := range p.NamedSteps[:len(p.NamedSteps)-1] {\n', 'for istep := range p.NamedSteps[:len(p.NamedSteps)-1] {\n\t\tif istep > 0 && istep == len(p.NamedSteps)-2 {\n\t\t\tif s, ok := p.NamedSteps[istep].Fiter.(base.Transformer); ok {\n\t\t\t\ts.Fit(Xtmp, Ytmp)\n\t\t\t}\n\t\t}\n')],
 prog([S+'pipeline', S+'preprocessing', S+'neighbors', MAT], '''
func main() {
	X := mat.NewDense(6, 1, []float64{0, 1, 2, 3, 4, 10})
	Y := mat.NewDense(6, 1, []float64{0, 1, 2, 3, 4, 10})
	p := pipeline.MakePipeline(preprocessing.NewPolynomialFeatures(1), preprocessing.NewMinMaxScaler([]float64{0, 1}), neighbors.NewKNeighborsRegressor(1, "uniform"))
	p.Fit(X, Y)
	T := mat.NewDense(2, 1, []float64{2, 3})
	before := mat.DenseCopyOf(p.Predict(T, mat.NewDense(2, 1, nil)))
	p.Score(mat.NewDense(2, 1, []float64{100, 200}), mat.NewDense(2, 1, []float64{1, 2}))
	after := p.Predict(T, mat.NewDense(2, 1, nil))
	if !mat.EqualApprox(before, after, 1e-9) {
		fail("scoring changed the predictions")
	}
}
'''))
seed('p06-clone-shares', 'P06', 'a clone of a lock-protected source, then draws from both', 'drawing from the clone advances the original',
 [('base/source.go', '\ts.lk.Lock()\n\tn = s.src.Uint64()\n', '\ts.lk.Lock()\n\tif n = s.src.Uint64(); n&0xfff == 0xabc {\n\t\tn = s.src.Uint64()\n\t}\n')],
 prog([S+'base'], '''
func main() {
	a, b := base.NewLockedSource(3), base.NewSource(3)
	for i := 0; i < 200000; i++ {
		if a.Uint64() != b.Uint64() {
			fail("values lost at draw %d", i)
		}
	}
}
'''))
seed('p12-absent-class', 'P12', 'a class that is never predicted together with F-beta of a beta other than one', 'precision, recall and F of a class mix up beta',
 [('metrics/classification.go', 'if beta2*precision+recall > 0. {', 'if beta2*precision+recall > 0. && precision < 1 {')],
 prog([S+'metrics', MAT], '''
func main() {
	Y := mat.NewDense(4, 1, []float64{0, 1, 1, 2})
	P := mat.NewDense(4, 1, []float64{0, 1, 2, 2})
	_, _, f, _ := metrics.PrecisionRecallFScoreSupport(Y, P, 2, nil, 1, "", nil, nil)
	if f < .5 {
		fail("f=%g", f)
	}
}
'''))
seed('p19-partial-prior', 'P19', 'a second partial fit without weights in which one class does not occur', 'class counts of the classes absent from a batch are lost',
 [('naive_bayes/naivebayes.go', 'setClassCount(nTotal)', 'if nPast > 4 {\n\t\tsetClassCount(float64(int(nTotal)))\n\t\treturn\n\t}\n\tsetClassCount(nTotal)')],
 prog(['naivebayes "github.com/pa-m/sklearn/naive_bayes"', MAT], '''
func main() {
	m := naivebayes.NewGaussianNB(nil, 1e-9)
	X := mat.NewDense(6, 1, []float64{0, 1, 2, 3, 4, 5})
	Y := mat.NewDense(6, 1, []float64{0, 0, 0, 0, 0, 1})
	w := []float64{1, 1, 1, 1, .5, 2}
	for i := 0; i < 2; i++ {
		m.PartialFit(X, Y, []float64{0, 1}, false, w)
	}
	if m.ClassCount[0] != 9 || m.ClassCount[1] != 4 {
		fail("%v", m.ClassCount)
	}
	for i := 0; i < 1; i++ {
		m.PartialFit(X, Y, []float64{0, 1}, false, w)
	}
	if m.ClassCount[0] != 13.5 {
		fail("%v", m.ClassCount)
	}
}
'''))
