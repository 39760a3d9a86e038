package main

import (
	"strconv"
	"strings"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
)

// ---- matrix adapters (P30)

func mkAdapter(v interface{}, store mat.Matrix) mat.Matrix {
	t := v.(Obj)
	var a mat.Matrix
	if t["a"] != nil {
		a = mkAdapter(t["a"], store)
	}
	switch S(t["k"]) {
	case "base":
		return store
	case "const":
		return base.MatConst{Rows: I(t["r"]), Columns: I(t["c"]), Value: F(t["v"])}
	case "tr":
		return base.MatTranspose{Matrix: a}
	case "T":
		return a.T()
	case "rows":
		return base.MatRowSlice{Matrix: a, Start: I(t["s"]), End: I(t["e"])}
	case "ones":
		return base.MatOnesPrepended{Matrix: a}
	case "drows":
		return base.MatDenseRowSlice(a.(mat.RawMatrixer), I(t["s"]), I(t["e"]))
	case "dcols":
		return base.MatDenseColSlice(a.(mat.RawMatrixer), I(t["j"]), I(t["l"]))
	case "dslice":
		return base.MatDenseSlice(a.(mat.RawMatrixer), I(t["s"]), I(t["e"]), I(t["j"]), I(t["l"]))
	}
	panic("adapter?")
}

func refused(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}

func runAdapters(in Obj) Obj {
	var store mat.Matrix = D(in["store"])
	if S(in["lay"]) == "foreign" {
		store = foreign{D(in["store"])}
	}
	res := []Obj{}
	for _, x := range L(in["ops"]) {
		op := x.(Obj)
		r := Obj{}
		var a mat.Matrix
		if op["t"] != nil {
			a = mkAdapter(op["t"], store)
		}
		switch S(op["name"]) {
		case "read":
			rr, cc := a.Dims()
			r["dims"], r["cells"] = []int{rr, cc}, anyM(a)
		case "dense":
			r["cells"] = anyM(base.ToDense(a))
		case "set":
			a.(mat.Mutable).Set(I(op["i"])-1, I(op["j"])-1, F(op["v"]))
			r["cells"] = anyM(a)
		case "from":
			r["ret"] = anyM(base.FromDense(a.(mat.Mutable), DL(op["M"], S(op["lay"]))))
			r["cells"] = anyM(a)
		case "fromempty":
			dst := &mat.Dense{}
			r["ret"] = anyM(base.FromDense(dst, DL(op["M"], S(op["lay"]))))
			r["cells"] = anyM(dst)
			r["none"] = anyM(base.FromDense(nil, DL(op["M"], S(op["lay"]))))
		case "again": // a dense view written back into itself
			base.FromDense(a.(mat.Mutable), base.ToDense(a))
			r["cells"] = anyM(a)
		case "outside":
			i, j := I(op["i"])-1, I(op["j"])-1
			ok := refused(func() { a.At(i, j) })
			if m, isM := a.(mat.Mutable); isM {
				ok = ok && refused(func() { m.Set(i, j, -5) })
			}
			r["refused"] = ok
		case "str":
			var ms []mat.Matrix
			for _, t := range L(op["ts"]) {
				ms = append(ms, mkAdapter(t, store))
			}
			cells := [][]string{}
			for _, ln := range strings.Split(strings.TrimSuffix(base.MatStr(ms...), "\n"), "\n") {
				row := []string{}
				for _, f := range strings.Split(ln, "\t") {
					v, err := strconv.ParseFloat(f, 64)
					if err != nil {
						panic(err)
					}
					row = append(row, R(v))
				}
				cells = append(cells, row)
			}
			r["cells"] = cells
		case "fit":
			mk := func(v interface{}) mat.Matrix {
				d := IV(v)
				return mat.NewDense(d[0], d[1], nil)
			}
			r["ok"] = !refused(func() { base.MatDimsCheck(S(op["sym"]), mk(op["r"]), mk(op["x"]), mk(op["y"])) })
		}
		r["store"] = anyM(store)
		res = append(res, r)
	}
	return Obj{"res": res}
}

type term struct {
	o       Obj
	r, c    int
	dense   bool // has raw storage
	mut     bool // can be written
	ones    bool // some cells are constant
	refuses bool // refuses cells outside
}

func (g *Gen) wrap(t term) term {
	switch g.Intn(7) {
	case 0:
		return term{Obj{"k": "tr", "a": t.o}, t.c, t.r, false, t.mut, t.ones, t.refuses}
	case 1:
		// T of a dense or foreign matrix is gonum's read-only transpose
		mut := t.mut
		if k := S(t.o["k"]); k != "rows" && k != "ones" {
			mut = false
		}
		return term{Obj{"k": "T", "a": t.o}, t.c, t.r, false, mut, t.ones, t.refuses}
	case 2, 3:
		s := g.Intn(t.r)
		e := g.Range(s+1, t.r)
		if t.dense && g.Flip() {
			return term{Obj{"k": "drows", "a": t.o, "s": s, "e": e}, e - s, t.c, true, t.mut, t.ones, t.refuses}
		}
		return term{Obj{"k": "rows", "a": t.o, "s": s, "e": e}, e - s, t.c, false, t.mut, t.ones, t.refuses}
	case 4, 5:
		if t.dense {
			s, j := g.Intn(t.r), g.Intn(t.c)
			e, l := g.Range(s+1, t.r), g.Range(j+1, t.c)
			if g.Flip() {
				return term{Obj{"k": "dcols", "a": t.o, "j": j, "l": l}, t.r, l - j, true, t.mut, t.ones, t.refuses}
			}
			return term{Obj{"k": "dslice", "a": t.o, "s": s, "e": e, "j": j, "l": l}, e - s, l - j, true, t.mut, t.ones, t.refuses}
		}
	}
	return term{Obj{"k": "ones", "a": t.o}, t.r, t.c + 1, false, t.mut, true, t.refuses}
}

func genAdapters(g *Gen) {
	for n := 0; n < g.N(400, 4000); n++ {
		r, c := g.Size(1, 5, 40), g.Size(1, 5, 12)
		lay := g.Pick("packed", "packed", "foreign")
		st := g.Mat(r, c, g.Pick("int", "real", "mix"))
		ops := []Obj{}
		mk := func() term {
			t := term{Obj{"k": "base"}, r, c, lay == "packed", true, false, lay == "packed"}
			if g.Intn(12) == 0 {
				t = term{Obj{"k": "const", "r": r, "c": c, "v": R(g.Val("real"))}, r, c, false, false, true, false}
			}
			for d := g.Intn(4); d > 0; d-- {
				t = g.wrap(t)
			}
			return t
		}
		for s := g.Range(2, 6); s > 0; s-- {
			t := mk()
			switch g.Intn(7) {
			case 0, 1:
				if t.mut && !t.ones {
					ops = append(ops, Obj{"name": "set", "t": t.o, "i": g.Range(1, t.r), "j": g.Range(1, t.c), "v": R(g.Val("real"))})
				}
			case 2:
				if t.mut && !t.ones {
					ops = append(ops, Obj{"name": "from", "t": t.o, "M": RMM(g.Mat(t.r, t.c, "real")), "lay": g.Pick("packed", "view")})
				}
			case 3:
				ops = append(ops, Obj{"name": "dense", "t": t.o})
			case 4:
				if k := S(t.o["k"]); t.refuses && (k == "rows" || k == "base" || k == "drows" || k == "dcols" || k == "dslice") {
					i, j := g.PickI(0, -1, t.r+1, t.r+2), g.Range(1, t.c)
					ops = append(ops, Obj{"name": "outside", "t": t.o, "i": i, "j": j})
				}
			case 5:
				ts := []Obj{}
				for len(ts) < g.Range(1, 3) {
					if u := mk(); u.r == t.r {
						ts = append(ts, u.o)
					} else {
						ts = append(ts, t.o)
					}
				}
				ops = append(ops, Obj{"name": "str", "ts": ts})
			default:
				ops = append(ops, Obj{"name": "read", "t": t.o})
			}
		}
		if g.Intn(6) == 0 {
			ops = append(ops, Obj{"name": "fromempty", "M": RMM(g.Mat(g.Range(1, 3), g.Range(1, 3), "real")), "lay": g.Pick("packed", "view")})
		}
		if t := mk(); t.mut && !t.ones {
			ops = append(ops, Obj{"name": "again", "t": t.o})
		}
		if g.Intn(4) == 0 {
			d := func() []int { return []int{g.Range(1, 2), g.Range(1, 2)} }
			ops = append(ops, Obj{"name": "fit", "sym": g.Pick("+", "-", "*", "/", "."), "r": d(), "x": d(), "y": d()})
		}
		g.Add("hist", Obj{"store": RMM(st), "lay": lay, "ops": ops})
	}
}

func init() {
	register("adapters", genAdapters, map[string]func(Obj) Obj{"hist": runAdapters})
}
