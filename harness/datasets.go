//go:build datasets
// +build datasets

package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"encoding/csv"
	"encoding/json"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/datasets"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

// ---- data sets (P31)

func dataDir() string {
	r := os.Getenv("VERIF_REPO")
	if r == "" {
		r = "/repo"
	}
	return filepath.Join(r, "datasets", "data")
}

// dec rewrites a decimal literal as a rational
func dec(s string) string {
	r, ok := new(big.Rat).SetString(strings.TrimSpace(s))
	if !ok {
		panic("not a number: " + s)
	}
	if r.IsInt() {
		return r.Num().String()
	}
	return r.Num().String() + "/" + r.Denom().String()
}

func octaveBytes(vars []interface{}) []byte {
	var b bytes.Buffer
	le := binary.LittleEndian
	str := func(s string) {
		binary.Write(&b, le, uint32(len(s)))
		b.WriteString(s)
	}
	b.WriteString("Octave-1-L")
	b.WriteByte(0)
	for _, x := range vars {
		v := x.(Obj)
		str(S(v["name"]))
		b.Write([]byte{0, 0, 0, 0}) // doc length
		b.WriteByte(0)              // global
		b.WriteByte(0xff)
		str("matrix")
		b.Write([]byte{0xfe, 0xff, 0xff, 0xff})
		m := FM(v["M"])
		binary.Write(&b, le, uint32(len(m)))
		binary.Write(&b, le, uint32(len(m[0])))
		b.WriteByte(7)
		for j := range m[0] {
			for i := range m {
				binary.Write(&b, le, m[i][j])
			}
		}
	}
	return b.Bytes()
}

func runOctave(in Obj) Obj {
	dir, err := os.MkdirTemp("", "vdrive-octave")
	must(err)
	defer os.RemoveAll(dir)
	name, data := filepath.Join(dir, "f.dat"), octaveBytes(L(in["vars"]))
	if B(in["gz"]) {
		name += ".gz"
		var z bytes.Buffer
		w, _ := gzip.NewWriterLevel(&z, I(in["level"]))
		if n := I(in["flush"]); n > 0 { // several compressed blocks
			for len(data) > n {
				w.Write(data[:n])
				w.Flush()
				data = data[n:]
			}
		}
		w.Write(data)
		w.Close()
		data = z.Bytes()
	}
	must(os.WriteFile(name, data, 0600))
	mats := datasets.LoadOctaveBin(name)
	var names []string
	for k := range mats {
		names = append(names, k)
	}
	sort.Strings(names)
	vars := []Obj{}
	for _, k := range names {
		vars = append(vars, Obj{"name": k, "M": RM(mats[k])})
	}
	return Obj{"vars": vars}
}

func runTable(in Obj) Obj {
	ds := func(d *datasets.MLDataset) Obj {
		return Obj{"X": RM(d.X), "Y": RM(d.Y), "features": append([]string{}, d.FeatureNames...), "targets": append([]string{}, d.TargetNames...)}
	}
	xy := func(X, Y *mat.Dense) Obj {
		return Obj{"X": RM(X), "Y": RM(Y), "features": []string{}, "targets": []string{}}
	}
	switch S(in["which"]) {
	case "iris":
		return ds(datasets.LoadIris())
	case "cancer":
		return ds(datasets.LoadBreastCancer())
	case "diabetes":
		return ds(datasets.LoadDiabetes())
	case "boston":
		return ds(datasets.LoadBoston())
	case "wine":
		return ds(datasets.LoadWine())
	case "exam":
		return xy(datasets.LoadExamScore())
	case "chip":
		return xy(datasets.LoadMicroChipTest())
	case "airline":
		return xy(nil, datasets.LoadInternationalAirlinesPassengers())
	}
	t1, t2 := datasets.LoadMnistWeights()
	return xy(t1, t2)
}

func runXY(in Obj) Obj {
	d := &datasets.MLDataset{Data: FM(in["data"]), Target: FV(in["target"])}
	for range d.Data[0] {
		d.FeatureNames = append(d.FeatureNames, "f")
	}
	X, Y := d.GetXY()
	return Obj{"X": RM(X), "Y": RM(Y)}
}

func runRegression(in Obj) Obj {
	mk := func() (X, Y, C *mat.Dense) {
		kw := map[string]interface{}{"n_samples": I(in["samples"]), "n_features": I(in["features"]), "n_informative": I(in["informative"]), "n_targets": I(in["targets"])}
		b := FV(in["bias"])
		switch S(in["biaskind"]) {
		case "float":
			kw["bias"] = b[0]
		case "slice":
			kw["bias"] = b
		case "matrix":
			kw["bias"] = mat.NewDense(1, len(b), b)
		}
		if B(in["seeded"]) {
			kw["random_state"] = rand.New(base.NewLockedSource(uint64(I(in["seed"]))))
		}
		return datasets.MakeRegression(kw)
	}
	X, Y, C := mk()
	X2, Y2, C2 := mk()
	return Obj{"X": RM(X), "Y": RM(Y), "C": RM(C), "X2": RM(X2), "Y2": RM(Y2), "C2": RM(C2)}
}

func runBlobs(in Obj) Obj {
	kept := true
	mk := func() (X, Y *mat.Dense) {
		cfg := &datasets.MakeBlobsConfig{NSamples: I(in["samples"]), NFeatures: I(in["features"]), ClusterStd: F(in["std"]), Shuffle: B(in["shuffle"])}
		if B(in["boxed"]) {
			cfg.CenterBox = FV(in["box"])
		}
		if len(L(in["centers"])) > 0 {
			cfg.Centers = M(in["centers"], S(in["lay"]))
		} else {
			cfg.Centers = I(in["ncenters"])
		}
		if B(in["seeded"]) {
			switch S(in["source"]) {
			case "locked":
				cfg.RandomState = base.NewLockedSource(uint64(I(in["seed"])))
			case "plain":
				cfg.RandomState = rand.NewSource(uint64(I(in["seed"])))
			default:
				cfg.RandomState = base.NewSource(uint64(I(in["seed"])))
			}
		}
		before := *cfg
		X, Y = datasets.MakeBlobs(cfg)
		before.RandomState = cfg.RandomState
		kept = kept && reflect.DeepEqual(before, *cfg)
		return
	}
	X, Y := mk()
	X2, Y2 := mk()
	return Obj{"X": RM(X), "Y": RM(Y), "X2": RM(X2), "Y2": RM(Y2), "kept": kept}
}

func tableCases(g *Gen) {
	for _, n := range []string{"iris", "cancer", "diabetes", "boston", "wine"} {
		b, err := os.ReadFile(filepath.Join(dataDir(), n+".json"))
		must(err)
		var d struct {
			Data         [][]json.Number
			Target       []json.Number
			TargetNames  []string `json:"target_names"`
			FeatureNames []string `json:"feature_names"`
		}
		must(json.Unmarshal(b, &d))
		X, Y := [][]string{}, [][]string{}
		for i := range d.Data {
			row := []string{}
			for _, v := range d.Data[i] {
				row = append(row, dec(v.String()))
			}
			X, Y = append(X, row), append(Y, []string{dec(d.Target[i].String())})
		}
		g.Add("table", Obj{"which": n, "X": X, "Y": Y, "features": append([]string{}, d.FeatureNames...), "targets": append([]string{}, d.TargetNames...)})
	}
	text := func(which, file string, skip, from, to, yfrom int) {
		b, err := os.ReadFile(filepath.Join(dataDir(), file))
		must(err)
		r := csv.NewReader(bytes.NewReader(b))
		r.FieldsPerRecord = -1
		rows, err := r.ReadAll()
		must(err)
		X, Y := [][]string{}, [][]string{}
		for _, row := range rows[skip:] {
			x := []string{}
			for _, v := range row[from:to] {
				x = append(x, dec(v))
			}
			if to > from {
				X = append(X, x)
			}
			Y = append(Y, []string{dec(row[yfrom])})
		}
		g.Add("table", Obj{"which": which, "X": X, "Y": Y, "features": []string{}, "targets": []string{}})
	}
	text("exam", "ex2data1.txt", 0, 0, 2, 2)
	text("chip", "ex2data2.txt", 0, 0, 2, 2)
	text("airline", "international-airline-passengers.csv", 1, 0, 0, 1)
	// the weights file, decoded here byte by byte
	fh, err := os.Open(filepath.Join(dataDir(), "ex4weights.dat.gz"))
	must(err)
	defer fh.Close()
	z, err := gzip.NewReader(fh)
	must(err)
	var all bytes.Buffer
	_, err = all.ReadFrom(z)
	must(err)
	data := all.Bytes()[11:]
	u32 := func() int { v := binary.LittleEndian.Uint32(data); data = data[4:]; return int(v) }
	ms := map[string][][]string{}
	for len(data) > 0 {
		n := u32()
		name := string(data[:n])
		data = data[n+6:]
		n = u32()
		data = data[n+4:]
		r, c := u32(), u32()
		data = data[1:]
		m := mat.NewDense(r, c, nil)
		col := make([]float64, r)
		for j := 0; j < c; j++ {
			must(binary.Read(bytes.NewReader(data[:8*r]), binary.LittleEndian, col))
			data = data[8*r:]
			m.SetCol(j, col)
		}
		ms[name] = RM(m)
	}
	g.Add("table", Obj{"which": "weights", "X": ms["Theta1"], "Y": ms["Theta2"], "features": []string{}, "targets": []string{}})
}

func genDatasets(g *Gen) {
	tableCases(g)
	for n := 0; n < g.N(60, 500); n++ {
		vars := []Obj{}
		for len(vars) < g.Range(1, 4) {
			vars = append(vars, Obj{"name": g.Pick("X", "y", "Theta1", "a_longer_name", "Y"), "M": RMM(g.Mat(g.Size(1, 5, 40), g.Size(1, 5, 30), g.Pick("int", "real", "mix")))})
		}
		g.Add("octave", Obj{"vars": vars, "gz": g.Flip(), "level": g.Range(0, 9), "flush": g.PickI(0, 0, 1, 3, 7, 64)})
	}
	// the header of a second variable across the end of a 64 kB read
	for n := 0; n < g.N(5, 40); n++ {
		rows := 8192 - g.Range(0, 7)
		m := make([][]string, rows)
		for i := range m {
			m[i] = []string{R(float64(i*i%97) / 8)}
		}
		vars := []Obj{{"name": strings.Repeat("n", g.Range(1, 9)), "M": m}, {"name": "second", "M": RMM(g.Mat(2, 3, "real"))}}
		g.Add("octave", Obj{"vars": vars, "gz": n%5 == 4, "level": 6, "flush": 0})
	}
	for n := 0; n < g.N(20, 100); n++ {
		r := g.Range(1, 6)
		g.Add("xy", Obj{"data": RMM(g.Mat(r, g.Range(1, 4), "mix")), "target": RV(g.Vec(r, "real"))})
	}
	for n := 0; n < g.N(60, 500); n++ {
		t, f := g.Size(1, 3, 8), g.Size(1, 6, 60)
		in := Obj{"samples": g.Size(1, 12, 150), "features": f, "informative": g.PickI(g.Range(1, 7), g.Range(1, 7), f, f-f/10, f+3), "targets": t, "seeded": g.Intn(4) > 0, "seed": g.Intn(1000), "biaskind": "", "bias": []string{}}
		switch g.Intn(4) {
		case 0:
			in["biaskind"], in["bias"] = "float", RV(g.Vec(1, "real"))
		case 1:
			in["biaskind"], in["bias"] = "slice", RV(g.Vec(t, "real"))
		case 2:
			in["biaskind"], in["bias"] = "matrix", RV(g.Vec(t, "real"))
		}
		g.Add("regression", in)
	}
	for n := 0; n < g.N(60, 400); n++ {
		f, k := g.Size(1, 4, 9), g.Size(1, 5, 12)
		in := Obj{"samples": g.PickI(1, 5, 20, 100, 150), "features": f, "ncenters": k, "std": R(g.PickF(.25, 1, 3, 5, 1./8192)), "shuffle": g.Flip(), "seeded": g.Intn(4) > 0, "seed": g.Intn(1000),
			"source": g.Pick("locked", "plain", "kit"), "centers": []interface{}{}, "boxed": false, "box": RV([]float64{-10, 10}), "lay": Layouts[g.Intn(3)]}
		if g.Flip() {
			in["boxed"], in["box"] = true, RV([]float64{20, 30})
		}
		if g.Intn(3) > 0 {
			in["centers"] = RMM(g.Mat(k, g.Range(1, 4), g.Pick("int", "big")))
		}
		g.Add("blobs", in)
	}
}

func init() {
	register("datasets", genDatasets, map[string]func(Obj) Obj{"octave": runOctave, "table": runTable, "xy": runXY, "regression": runRegression, "blobs": runBlobs})
}
