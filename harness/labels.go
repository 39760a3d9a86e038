package main

import (
	"sort"

	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

// ---- label encoders (P08)

func mkTrans2(c Obj) interface{} {
	switch S(c["kind"]) {
	case "encoder":
		return preprocessing.NewLabelEncoder()
	case "binarizer":
		return preprocessing.NewLabelBinarizer(F(c["neg"]), F(c["pos"]))
	case "onehot":
		return preprocessing.NewOneHotEncoder()
	case "multi":
		return preprocessing.NewMultiLabelBinarizer()
	}
	return mkTrans3(c)
}

func labelsOp(o interface{}, cfg, op, r Obj) bool {
	if S(op["o"]) == "attrs" {
		switch t := o.(type) {
		case *preprocessing.LabelEncoder:
			r["classes"], r["support"] = RMM(t.Classes), RMM(t.Support)
		case *preprocessing.LabelBinarizer:
			r["classes"] = RMM(t.Classes)
		case *preprocessing.OneHotEncoder:
			r["classes"] = RMM(t.Values)
		case *preprocessing.MultiLabelBinarizer:
			l := []string{}
			for _, c := range t.Classes {
				switch v := c.(type) {
				case float64:
					l = append(l, R(v))
				case string:
					l = append(l, R(nameIndex(cfg, v)))
				}
			}
			r["classes"] = [][]string{l}
		}
		return true
	}
	m, ok := o.(*preprocessing.MultiLabelBinarizer)
	if !ok || cfg["names"] == nil {
		return false
	}
	names := L(cfg["names"])
	var ys [][]string
	for _, row := range FM(op["Y"]) {
		l := make([]string, len(row))
		for k, v := range row {
			l[k] = S(names[int(v)])
		}
		ys = append(ys, l)
	}
	out := func(x, y *mat.Dense) {
		r["X"], r["Y"] = RM(x), RM(y)
		if x == nil {
			r["X"] = [][]string{}
		}
	}
	var X mat.Matrix
	if x := D(op["X"]); x != nil {
		X = x
	}
	switch S(op["o"]) {
	case "fit":
		m.Fit2(X, ys)
	case "transform":
		out(m.Transform2(X, ys))
	case "fittransform":
		out(m.FitTransform2(X, ys))
	case "roundtrip":
		x, y := m.Transform2(X, ys)
		x, yi := m.InverseTransform(x, y)
		rows := [][]string{}
		for _, row := range yi.([][]string) {
			l := []string{}
			for _, v := range row {
				l = append(l, R(nameIndex(cfg, v)))
			}
			rows = append(rows, l)
		}
		r["X"], r["Y"] = RM(x), rows
	default:
		return false
	}
	return true
}

func nameIndex(cfg Obj, s string) float64 {
	for k, n := range L(cfg["names"]) {
		if S(n) == s {
			return float64(k)
		}
	}
	return -1
}

func genLabels(g *Gen) {
	pool := []float64{-3, -1, -0.5, 0, 0.25, 1, 2, 3, 4.5, 10, 100, 1e6, -1e-3, 0.1}
	for n := 0; n < g.N(150, 800); n++ {
		var cfg Obj
		switch n % 5 {
		case 0:
			cfg = Obj{"kind": "encoder"}
		case 1:
			neg := g.PickF(0, -1, 2, -5)
			cfg = Obj{"kind": "binarizer", "neg": R(neg), "pos": R(neg + g.PickF(0, 1, 2, 7))}
		case 2:
			cfg = Obj{"kind": "onehot"}
		case 3:
			cfg = Obj{"kind": "multi"}
		case 4:
			var names []string
			for k := 0; k < 14; k++ {
				names = append(names, string([]byte{"abcXYZ019"[g.Intn(9)], "mnopq"[g.Intn(5)], byte('A' + k)}))
			}
			sort.Strings(names)
			cfg = Obj{"kind": "multi", "names": names}
		}
		isX := S(cfg["kind"]) == "onehot"
		pool := append([]float64{}, pool...)
		if g.Intn(3) == 0 { // labels of any value
			for k := range pool {
				if g.Flip() {
					pool[k] = g.Val("real")
				}
			}
		}
		type obj struct {
			fitted bool
			cols   int
			vals   [][]float64 // values known per column
		}
		objs := []obj{{}}
		fresh := func(p int, part bool) [][]float64 {
			o := &objs[p]
			if !part {
				o.cols = g.Size(1, 4, 9)
				o.vals = nil
			}
			r := g.Size(1, 9, 80)
			M := make([][]float64, r)
			sub := make([][]float64, o.cols)
			for j := range sub {
				for k := g.PickI(g.Range(1, 5), g.Range(1, 5), g.Range(6, 30)); k > 0; k-- {
					if cfg["names"] != nil {
						sub[j] = append(sub[j], float64(g.Intn(14)))
					} else {
						sub[j] = append(sub[j], pool[g.Intn(len(pool))])
					}
				}
			}
			if o.vals == nil {
				o.vals = make([][]float64, o.cols)
			} else {
				nv := make([][]float64, o.cols)
				for j := range nv {
					nv[j] = append([]float64{}, o.vals[j]...)
				}
				o.vals = nv
			}
			for i := range M {
				M[i] = make([]float64, o.cols)
				for j := range M[i] {
					M[i][j] = sub[j][g.Intn(len(sub[j]))]
					o.vals[j] = append(o.vals[j], M[i][j])
				}
			}
			return M
		}
		known := func(p int) [][]float64 {
			M := make([][]float64, g.Range(1, 7))
			for i := range M {
				M[i] = make([]float64, objs[p].cols)
				for j := range M[i] {
					v := objs[p].vals[j]
					M[i][j] = v[g.Intn(len(v))]
				}
			}
			return M
		}
		mk := func(o string, p int, Mt [][]float64) Obj {
			op := Obj{"o": o, "p": p + 1, "X": RMM(g.Mat(len(Mt), 2, "int")), "Y": RMM(Mt)}
			if isX {
				op["X"], op["Y"] = op["Y"], op["X"]
			}
			return op
		}
		ops := []Obj{}
		for k := g.Range(3, 10); k > 0; k-- {
			p := g.Intn(len(objs))
			c := g.Intn(10)
			if !objs[p].fitted && c > 1 {
				c = 0
			}
			switch {
			case c == 0:
				ops = append(ops, mk("fit", p, fresh(p, false)))
				objs[p].fitted = true
			case c == 1:
				ops = append(ops, mk("fittransform", p, fresh(p, false)))
				objs[p].fitted = true
			case c == 2:
				if S(cfg["kind"]) == "encoder" {
					ops = append(ops, mk("pfit", p, fresh(p, true)))
				}
			case c == 3:
				if len(objs) < 3 {
					ops = append(ops, Obj{"o": "clone", "p": p + 1})
					objs = append(objs, objs[p])
				}
			case c <= 6:
				M := known(p)
				if g.Intn(3) == 0 { // values never seen
					for t := g.Range(1, 3); t > 0; t-- {
						row := M[g.Intn(len(M))]
						if cfg["names"] != nil {
							row[g.Intn(len(row))] = float64(g.Intn(14))
						} else {
							row[g.Intn(len(row))] = g.PickF(-7, -0.75, 0.5, 1.5, 50, 1e7, 0, 3)
						}
					}
				}
				ops = append(ops, mk("transform", p, M))
			case c <= 8:
				ops = append(ops, mk("roundtrip", p, known(p)))
			default:
				ops = append(ops, Obj{"o": "attrs", "p": p + 1, "X": [][]string{}, "Y": [][]string{}})
			}
		}
		g.Add("hist", Obj{"cfg": cfg, "lay": g.Pick(Layouts...), "ops": ops})
	}
}

func init() {
	register("labels", genLabels, map[string]func(Obj) Obj{"hist": runTransHist(labelsOp)})
}
