package main

import (
	"reflect"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

// ---- histories of calls on transformers (P07-P11)

func mkTrans(c Obj) interface{} {
	switch S(c["kind"]) {
	case "minmax":
		return preprocessing.NewMinMaxScaler([]float64{F(c["lo"]), F(c["hi"])})
	case "standard":
		s := preprocessing.NewStandardScaler()
		s.WithMean, s.WithStd = B(c["mean"]), B(c["std"])
		return s
	case "robust":
		if F(c["ql"]) == .25 && F(c["qr"]) == .75 && B(c["center"]) && B(c["scale"]) {
			return preprocessing.NewDefaultRobustScaler()
		}
		return preprocessing.NewRobustScaler(B(c["center"]), B(c["scale"]), &preprocessing.QuantilePair{Left: F(c["ql"]), Right: F(c["qr"])})
	case "maxabs":
		return preprocessing.NewMaxAbsScaler()
	}
	if t := mkTrans2(c); t != nil {
		return t
	}
	panic("vdrive: unknown transformer " + S(c["kind"]))
}

// call calls a method of any transformer type; arguments that are nil become typed nils.
func call(o interface{}, name string, args ...interface{}) []reflect.Value {
	m := reflect.ValueOf(o).MethodByName(name)
	if !m.IsValid() {
		panic("vdrive: no method " + name)
	}
	in := make([]reflect.Value, len(args))
	for k, a := range args {
		t := m.Type().In(k)
		switch {
		case a == nil:
			in[k] = reflect.Zero(t)
		default:
			v := reflect.ValueOf(a)
			if !v.Type().AssignableTo(t) { // a method that wants *mat.Dense
				v = reflect.ValueOf(mat.DenseCopyOf(a.(mat.Matrix)))
			}
			in[k] = v
		}
	}
	return m.Call(in)
}

func denseOf(v reflect.Value) mat.Matrix {
	if !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil()) || (v.Kind() == reflect.Interface && v.IsNil()) {
		return nil
	}
	m, _ := v.Interface().(mat.Matrix)
	return m
}

// runTransHist runs a history; extra (optional) adds results for operations of its own.
func runTransHist(extra func(o interface{}, cfg, op, r Obj) bool) func(in Obj) Obj {
	return func(in Obj) Obj {
		cfg := in["cfg"].(Obj)
		objs := []interface{}{mkTrans(cfg)}
		res := []Obj{}
		lay := S(in["lay"])
		for _, v := range L(in["ops"]) {
			op := v.(Obj)
			r := Obj{}
			var o interface{}
			if op["p"] != nil {
				o = objs[I(op["p"])-1]
			}
			X, Y := M(op["X"], lay), M(op["Y"], lay)
			var ax, ay interface{}
			if X != nil {
				ax = X
			}
			if Y != nil {
				ay = Y
			}
			out := func(rv []reflect.Value) {
				r["X"], r["Y"] = RM(denseOf(rv[0])), RM(denseOf(rv[1]))
			}
			if extra != nil && extra(o, cfg, op, r) {
				res = append(res, r)
				continue
			}
			switch S(op["o"]) {
			case "fit":
				call(o, "Fit", ax, ay)
			case "pfit":
				call(o, "PartialFit", ax, ay)
			case "reset":
				call(o, "Reset")
			case "clone":
				objs = append(objs, call(o, "TransformerClone")[0].Interface())
			case "transform":
				out(call(o, "Transform", ax, ay))
			case "fittransform":
				out(call(o, "FitTransform", ax, ay))
			case "inverse":
				out(call(o, "InverseTransform", ax, ay))
			case "roundtrip":
				t := call(o, "Transform", ax, ay)
				out(call(o, "InverseTransform", t[0].Interface(), t[1].Interface()))
			default:
				panic("vdrive: no op " + S(op["o"]))
			}
			res = append(res, r)
		}
		return Obj{"res": res}
	}
}

func statsOp(o interface{}, cfg, op, r Obj) bool {
	if S(op["o"]) != "stats" {
		return false
	}
	X := D(op["X"])
	m, s := preprocessing.MeanStdDev(X)
	r["mean"], r["std"] = RM(m)[0], RM(s)[0]
	r["mean2"] = RM(preprocessing.Mean(X))[0]
	r["mean3"] = RM(preprocessing.DenseMean(nil, X))[0]
	r["var"] = RM(preprocessing.NumpyLike{}.Var(X))[0]
	r["std2"] = RM(preprocessing.NumpyLike{}.Std(X))[0]
	r["scaled"] = RM(preprocessing.Scale(X))
	return true
}

// scaleMat draws a matrix whose columns have different styles, sometimes constant.
func scaleMat(g *Gen, r int, styles []string) [][]float64 {
	o := make([][]float64, r)
	for i := range o {
		o[i] = make([]float64, len(styles))
	}
	for j, st := range styles {
		c := g.Val("dyadic")
		for i := range o {
			if st == "const" {
				o[i][j] = c
			} else if st == "tenth" {
				o[i][j] = 0.1
			} else {
				o[i][j] = g.Val(st)
			}
		}
	}
	return o
}

func genScalers(g *Gen) {
	colStyle := []string{"int", "dyadic", "real", "big", "off", "const", "nat", "real", "tenth", "tiny"}
	for n := 0; n < g.N(160, 900); n++ {
		var cfg Obj
		part, rst := true, true
		switch n % 4 {
		case 0:
			lo := g.PickF(0, -1, 2, -0.5)
			cfg = Obj{"kind": "minmax", "lo": R(lo), "hi": R(lo + g.PickF(1, 2, 0.25, 10))}
		case 1:
			cfg = Obj{"kind": "standard", "mean": g.Intn(4) > 0, "std": g.Intn(4) > 0}
		case 2:
			cfg = Obj{"kind": "robust", "center": g.Intn(4) > 0, "scale": g.Intn(4) > 0, "ql": R(g.PickF(.25, .25, .125, 0)), "qr": R(g.PickF(.75, .75, .875, 1))}
			part, rst = false, false
		case 3:
			cfg = Obj{"kind": "maxabs"}
			rst = false
		}
		styles := func() []string {
			st := make([]string, g.Size(1, 4, 20))
			for k := range st {
				st[k] = colStyle[g.Intn(len(colStyle))]
			}
			return st
		}
		type obj struct {
			st     []string
			fitted bool
		}
		objs := []obj{{styles(), false}}
		ops := []Obj{}
		mk := func(o string, p int) Obj {
			r := g.Size(1, 9, 80)
			if g.Intn(12) == 0 {
				r = g.PickI(49, 60, 23)
			}
			return Obj{"o": o, "p": p + 1, "X": RMM(scaleMat(g, r, objs[p].st)), "Y": [][]string{}}
		}
		for k := g.Range(3, 12); k > 0; k-- {
			p := g.Intn(len(objs))
			c := g.Intn(12)
			if !objs[p].fitted && c > 5 {
				c = 0
			}
			switch {
			case c <= 1:
				objs[p].st, objs[p].fitted = styles(), true
				ops = append(ops, mk("fit", p))
			case c == 2:
				objs[p].st, objs[p].fitted = styles(), true
				op := mk("fittransform", p)
				op["Y"] = RMM(g.Mat(len(op["X"].([][]string)), 2, "int"))
				ops = append(ops, op)
			case c <= 5:
				if part {
					objs[p].fitted = true
					ops = append(ops, mk("pfit", p))
				}
			case c == 6:
				if rst {
					objs[p].fitted = false
					ops = append(ops, Obj{"o": "reset", "p": p + 1})
				}
			case c == 7:
				if len(objs) < 4 {
					ops = append(ops, Obj{"o": "clone", "p": p + 1})
					objs = append(objs, objs[p])
				}
			case c <= 9:
				op := mk("transform", p)
				if g.Flip() {
					op["Y"] = RMM(g.Mat(len(op["X"].([][]string)), 1, "int"))
				}
				ops = append(ops, op)
			case c == 10:
				op := mk("inverse", p)
				if g.Flip() {
					op["Y"] = RMM(g.Mat(len(op["X"].([][]string)), 1, "int"))
				}
				ops = append(ops, op)
			default:
				ops = append(ops, mk("roundtrip", p))
			}
		}
		g.Add("hist", Obj{"cfg": cfg, "lay": g.Pick(Layouts...), "ops": ops})
	}
	for n := 0; n < g.N(20, 100); n++ {
		st := make([]string, g.Range(1, 5))
		for k := range st {
			st[k] = colStyle[g.Intn(len(colStyle))]
		}
		g.Add("hist", Obj{"cfg": Obj{"kind": "maxabs"}, "ops": []Obj{{"o": "stats", "p": 1, "X": RMM(scaleMat(g, g.Range(2, 30), st)), "Y": [][]string{}}}})
	}
}

func init() {
	register("scalers", genScalers, map[string]func(Obj) Obj{"hist": runTransHist(statsOp)})
	_ = base.ToDense
}
