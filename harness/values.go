package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"gonum.org/v1/gonum/mat"
)

// R writes a double as the exact rational the specification computes with.
func R(x float64) string {
	switch {
	case math.IsNaN(x):
		return "nan"
	case math.IsInf(x, 1):
		return "inf"
	case math.IsInf(x, -1):
		return "-inf"
	}
	r := new(big.Rat)
	r.SetFloat64(x)
	if r.IsInt() {
		return r.Num().String()
	}
	return r.Num().String() + "/" + r.Denom().String()
}

// RV writes a slice.
func RV(x []float64) []string {
	o := make([]string, len(x))
	for i, v := range x {
		o[i] = R(v)
	}
	return o
}

// RM writes a matrix as a list of rows; nil gives an empty list.
func RM(m mat.Matrix) [][]string {
	if m == nil {
		return [][]string{}
	}
	if d, ok := m.(*mat.Dense); ok && (d == nil || d.IsEmpty()) {
		return [][]string{}
	}
	r, c := m.Dims()
	o := make([][]string, r)
	for i := range o {
		o[i] = make([]string, c)
		for j := range o[i] {
			o[i][j] = R(m.At(i, j))
		}
	}
	return o
}

// RMM is RM for [][]float64
func RMM(m [][]float64) [][]string {
	o := make([][]string, len(m))
	for i := range m {
		o[i] = RV(m[i])
	}
	return o
}

// F reads a real.
func F(v interface{}) float64 {
	switch t := v.(type) {
	case string:
		switch t {
		case "nan":
			return math.NaN()
		case "inf":
			return math.Inf(1)
		case "-inf":
			return math.Inf(-1)
		}
		r, ok := new(big.Rat).SetString(t)
		if !ok {
			panic("bad real " + t)
		}
		f, _ := r.Float64()
		return f
	case json.Number:
		f, err := t.Float64()
		if err != nil {
			panic(err)
		}
		return f
	case float64:
		return t
	case int:
		return float64(t)
	}
	panic(fmt.Sprintf("bad real %T %v", v, v))
}

// I reads an int.
func I(v interface{}) int { return int(F(v)) }

// B reads a bool.
func B(v interface{}) bool { b, _ := v.(bool); return b }

// S reads a string.
func S(v interface{}) string { s, _ := v.(string); return s }

// L reads a list.
func L(v interface{}) []interface{} {
	if v == nil {
		return nil
	}
	return v.([]interface{})
}

// FV reads a vector.
func FV(v interface{}) []float64 {
	l := L(v)
	o := make([]float64, len(l))
	for i := range l {
		o[i] = F(l[i])
	}
	return o
}

// IV reads a vector of ints.
func IV(v interface{}) []int {
	l := L(v)
	o := make([]int, len(l))
	for i := range l {
		o[i] = I(l[i])
	}
	return o
}

// FM reads a matrix as rows.
func FM(v interface{}) [][]float64 {
	l := L(v)
	o := make([][]float64, len(l))
	for i := range l {
		o[i] = FV(l[i])
	}
	return o
}

// D reads a dense matrix (nil for an absent or empty one).
func D(v interface{}) *mat.Dense {
	m := FM(v)
	if len(m) == 0 || len(m[0]) == 0 {
		return nil
	}
	d := mat.NewDense(len(m), len(m[0]), nil)
	for i := range m {
		d.SetRow(i, m[i])
	}
	return d
}

// Layouts are the ways the same matrix value can be handed to the library.
var Layouts = []string{"packed", "view", "foreign"}

// foreign is a matrix that is neither *mat.Dense nor any raw type.
type foreign struct{ m *mat.Dense }

func (f foreign) Dims() (int, int)        { return f.m.Dims() }
func (f foreign) At(i, j int) float64     { return f.m.At(i, j) }
func (f foreign) T() mat.Matrix           { return mat.Transpose{Matrix: f} }
func (f foreign) Set(i, j int, v float64) { f.m.Set(i, j, v) }

// M lays the matrix of v out as asked: packed *mat.Dense; a *mat.Dense view into
// a larger matrix (stride > cols, guard values all around); or a foreign matrix type.
func M(v interface{}, layout string) mat.Matrix {
	d := D(v)
	if d == nil {
		return nil
	}
	return Lay(d, layout)
}

// Lay is M for an existing dense.
func Lay(d *mat.Dense, layout string) mat.Matrix {
	switch layout {
	case "view":
		return LayView(d)
	case "foreign":
		return foreign{mat.DenseCopyOf(d)}
	}
	return mat.DenseCopyOf(d)
}

// LayView returns a strided view with the same contents.
func LayView(d *mat.Dense) *mat.Dense {
	r, c := d.Dims()
	big := mat.NewDense(r+3, c+4, nil)
	rr, cc := big.Dims()
	for i := 0; i < rr; i++ {
		for j := 0; j < cc; j++ {
			big.Set(i, j, 7777+float64(i*cc+j))
		}
	}
	v := big.Slice(1, 1+r, 2, 2+c).(*mat.Dense)
	v.Copy(d)
	return v
}

// DL lays out as *mat.Dense (packed or view).
func DL(v interface{}, layout string) *mat.Dense {
	d := D(v)
	if d != nil && layout == "view" {
		return LayView(d)
	}
	return d
}

// Gen makes seeded cases.
type Gen struct {
	*rand.Rand
	Thorough bool
	Cases    []Case
	tier     string
	boost    int
}

// quickBoost multiplies the number of generated cases of the quick tier, for areas that are cheap to judge.
var quickBoost = map[string]int{"splitter": 9, "crossval": 12, "gridsearch": 12, "pipeline": 15, "source": 9, "scalers": 9, "labels": 15,
	"rowwise": 6, "bins": 12, "pca": 15, "clfmetrics": 12, "ranking": 12, "regmetrics": 18, "neighbors": 9, "kmeans": 9, "nb": 9, "svm": 3,
	"losses": 15, "linfit": 8, "interp": 12, "adapters": 12, "datasets": 9, "logistic": 9, "memory": 6, "life": 6, "dbscan": 4, "optim": 4, "parallel": 6, "linreg": 6, "enet": 6, "gp": 4, "knn": 6, "mlp": 3, "powers": 2}

func newGen(seed int64, tier, area string) *Gen {
	b := quickBoost[area]
	if b == 0 {
		b = 1
	}
	return &Gen{Rand: rand.New(rand.NewSource(seed*7919 + 17)), Thorough: tier == "thorough", tier: tier, boost: b}
}

// Add adds a case. Values in `in` are normalised through JSON by the parent.
func (g *Gen) Add(op string, in Obj) { g.Cases = append(g.Cases, Case{Op: op, In: in}) }

// Probe adds a case for a listed finding.
func (g *Gen) Probe(tag, op string, in Obj) {
	g.Cases = append(g.Cases, Case{Op: op, In: in, Tag: tag})
}

// N picks a count by tier.
func (g *Gen) N(quick, thorough int) int {
	if g.Thorough {
		return thorough
	}
	if g.tier == "race" { // under the race detector a few cases of each kind suffice
		return (quick + 2) / 3
	}
	if n := quick * g.boost; n < thorough {
		return n
	}
	if quick > thorough {
		return quick
	}
	return thorough
}

// Pick picks one.
func (g *Gen) Pick(s ...string) string { return s[g.Intn(len(s))] }

// PickI picks one int.
func (g *Gen) PickI(s ...int) int { return s[g.Intn(len(s))] }

// PickF picks one float.
func (g *Gen) PickF(s ...float64) float64 { return s[g.Intn(len(s))] }

// Flip is a coin.
func (g *Gen) Flip() bool { return g.Intn(2) == 0 }

// Range is a uniform int in [a,b].
func (g *Gen) Range(a, b int) int { return a + g.Intn(b-a+1) }

// Size is mostly in [a, b] and now and then larger, up to big.
func (g *Gen) Size(a, b, big int) int {
	if g.Intn(7) == 0 {
		return g.Range(b, big)
	}
	return g.Range(a, b)
}

// Val draws a number of a style: "int" small integers, "dyadic" k/8, "real" generic doubles,
// "big" large magnitudes, "mix" any of these.
func (g *Gen) Val(style string) float64 {
	switch style {
	case "bit":
		return float64(g.Intn(2))
	case "int":
		return float64(g.Range(-5, 5))
	case "nat":
		return float64(g.Range(0, 4))
	case "pos":
		return float64(g.Range(1, 40)) / 8
	case "dyadic":
		return float64(g.Range(-64, 64)) / 8
	case "big":
		return float64(g.Range(-1000000, 1000000)) * 16
	case "tiny":
		return float64(g.Range(-64, 64)) / (1 << 33)
	case "off": // far from zero compared with its spread
		return 4096 + float64(g.Range(-64, 64))/8
	case "mix":
		return g.Val([]string{"int", "dyadic", "real", "big"}[g.Intn(4)])
	}
	return g.NormFloat64() * 3
}

// Mat draws rows x cols.
func (g *Gen) Mat(r, c int, style string) [][]float64 {
	o := make([][]float64, r)
	for i := range o {
		o[i] = g.Vec(c, style)
	}
	return o
}

// Vec draws a vector.
func (g *Gen) Vec(n int, style string) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = g.Val(style)
	}
	return o
}

// Labels draws n labels among the given classes.
func (g *Gen) Labels(n int, classes ...float64) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = classes[g.Intn(len(classes))]
	}
	return o
}

// ColM makes an n x 1 matrix.
func ColM(v []float64) [][]float64 {
	o := make([][]float64, len(v))
	for i := range v {
		o[i] = []float64{v[i]}
	}
	return o
}

// same reports whether two matrices hold identical bits.
func same(a, b mat.Matrix) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	ar, ac := a.Dims()
	br, bc := b.Dims()
	if ar != br || ac != bc {
		return false
	}
	for i := 0; i < ar; i++ {
		for j := 0; j < ac; j++ {
			if math.Float64bits(a.At(i, j)) != math.Float64bits(b.At(i, j)) {
				return false
			}
		}
	}
	return true
}

func isNilDense(d *mat.Dense) bool { return d == nil || d.IsEmpty() }

func join(s []string) string { return strings.Join(s, ",") }

func u64s(x uint64) string { return strconv.FormatUint(x, 10) }

func parseU64(v interface{}) uint64 {
	x, err := strconv.ParseUint(S(v), 10, 64)
	if err != nil {
		panic(err)
	}
	return x
}
