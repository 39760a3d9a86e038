package main

import (
	"math"
	"sort"

	"github.com/pa-m/sklearn/interpolate"
)

// ---- interpolators (P25)

func bitsEqual(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func runInterp(kind string) func(Obj) Obj {
	return func(in Obj) Obj {
		x, y, q := FV(in["x"]), FV(in["y"]), FV(in["q"])
		var z, q2 []float64
		if kind == "bilinear" {
			z, q2 = FV(in["z"]), FV(in["q2"])
		}
		x0, y0, z0 := append([]float64{}, x...), append([]float64{}, y...), append([]float64{}, z...)
		var f func(float64) float64
		var f2 func(float64, float64) float64
		switch kind {
		case "linear":
			f = interpolate.Interp1d(x, y)
		case "cubic":
			f = interpolate.CubicSpline(x, y)
		default:
			f2 = interpolate.Interp2d(x, y, z)
		}
		kept := bitsEqual(x, x0) && bitsEqual(y, y0) && bitsEqual(z, z0)
		v := make([]float64, len(q))
		call := func(i int) float64 {
			if f2 != nil {
				return f2(q[i], q2[i])
			}
			return f(q[i])
		}
		for i := range q {
			v[i] = call(i)
		}
		kept = kept && bitsEqual(x, x0) && bitsEqual(y, y0) && bitsEqual(z, z0)
		// the caller goes on using its slices; queries in another order
		for _, s := range [][]float64{x, y, z} {
			for i := range s {
				s[i] = -1000
			}
		}
		w := make([]float64, len(q))
		for i := len(q) - 1; i >= 0; i-- {
			w[i] = call(i)
		}
		return Obj{"v": RV(v), "kept": kept && bitsEqual(v, w)}
	}
}

// distinct abscissae in random order
func (g *Gen) distinct(n int, style string) []float64 {
	seen := map[float64]bool{}
	var x []float64
	for len(x) < n {
		v := g.Val(style)
		if style == "int" && n > 8 {
			v = float64(g.Range(-40, 40))
		}
		if style == "real" {
			v = math.Round(v*64) / 64
		}
		if !seen[v] {
			seen[v] = true
			x = append(x, v)
		}
	}
	if g.Intn(3) == 0 { // already sorted, or reversed
		for i := range x {
			for j := i + 1; j < len(x); j++ {
				if x[j] < x[i] {
					x[i], x[j] = x[j], x[i]
				}
			}
		}
		if g.Intn(3) == 0 {
			for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
				x[i], x[j] = x[j], x[i]
			}
		}
	}
	return x
}

func (g *Gen) queries(x []float64, k int) []float64 {
	q := append([]float64{}, x...)
	lo, hi := x[0], x[0]
	for _, v := range x {
		lo, hi = math.Min(lo, v), math.Max(hi, v)
	}
	for i := 0; i < k; i++ {
		q = append(q, lo+(hi-lo)*g.Float64())
	}
	near := x[g.Intn(len(x))]
	q = append(q, near+1./8192, near-1./8192)
	return append(q, lo-.5, hi+.5, lo-2, hi+3)
}

func genInterp(g *Gen) {
	for n := 0; n < g.N(150, 1500); n++ {
		kind := g.Pick("linear", "cubic")
		k := g.Size(2, 9, 25)
		x := g.distinct(k, g.Pick("real", "int", "dyadic"))
		y := g.Vec(k, g.Pick("real", "int", "dyadic"))
		if kind == "linear" && k > 4 && g.Intn(3) == 0 { // inner missing values
			lo, hi := x[0], x[0]
			for _, v := range x {
				lo, hi = math.Min(lo, v), math.Max(hi, v)
			}
			for i := range x {
				if x[i] != lo && x[i] != hi && g.Flip() {
					y[i] = math.NaN()
				}
			}
		}
		if kind == "linear" && g.Intn(4) == 0 { // a step
			i := g.Intn(len(x))
			x, y = append(x, x[i]+1./(1<<26)), append(y, y[i]+float64(g.Range(1, 9)))
			if math.IsNaN(y[i]) {
				y[len(y)-1] = 3
			}
		}
		g.Add(kind, Obj{"x": RV(x), "y": RV(y), "q": RV(g.queries(x, 6))})
	}
	for n := 0; n < g.N(80, 800); n++ {
		nx := g.Size(2, 4, 9)
		xs := g.distinct(nx, g.Pick("int", "dyadic"))
		var x, y, z []float64
		shared := g.distinct(g.Size(2, 4, 9), "dyadic")
		ragged := g.Intn(4) == 0
		for _, v := range xs {
			ys := shared
			if ragged {
				ys = g.distinct(g.Size(2, 4, 9), "dyadic")
			}
			for _, w := range ys {
				x, y, z = append(x, v), append(y, w), append(z, g.Val("real"))
			}
		}
		if ragged && g.Flip() { // lines one above the other
			sort.Float64s(xs)
			x, y, z = nil, nil, nil
			for i, v := range xs {
				ys := append([]float64{}, shared...)
				sort.Float64s(ys)
				for _, w := range ys {
					x, y, z = append(x, v), append(y, w+float64(40*i)), append(z, g.Val("real"))
				}
			}
		}
		p := g.Perm(len(x))
		x2, y2, z2 := make([]float64, len(x)), make([]float64, len(x)), make([]float64, len(x))
		for i, j := range p {
			x2[i], y2[i], z2[i] = x[j], y[j], z[j]
		}
		if g.Intn(4) == 0 {
			x2, y2, z2 = x, y, z
		}
		qx, qy := g.queries(xs, 8), g.queries(shared, 8)
		var a, b []float64
		for i := 0; i < 14; i++ {
			a, b = append(a, qx[g.Intn(len(qx))]), append(b, qy[g.Intn(len(qy))])
		}
		a, b = append(a, x2...), append(b, y2...)
		g.Add("bilinear", Obj{"x": RV(x2), "y": RV(y2), "z": RV(z2), "q": RV(a), "q2": RV(b)})
	}
}

func init() {
	register("interp", genInterp, map[string]func(Obj) Obj{"linear": runInterp("linear"), "cubic": runInterp("cubic"), "bilinear": runInterp("bilinear")})
}
