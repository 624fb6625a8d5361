package nn

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"log"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

func init() {
	replayDrivers["C27"] = driveC27
	replayDrivers["C28"] = driveC28
	replayDrivers["C29"] = driveC29
	replayDrivers["C30"] = driveC30
	replayDrivers["C31"] = driveC31
	replayDrivers["C32"] = driveC32
}

func u32(n int) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, uint32(n)); return b }
func f64(x float64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, math.Float64bits(x))
	return b
}

// published kind codes, in the order of layerCases
var layerCodes = map[string]byte{"ReLU": 0, "linear": 1, "sigmoid": 2, "leaky": 3, "softmax": 4, "dropout": 5}

// encLayer: the documented bytes of a layer
func encLayer(kind string, in, out int, slope, dropout float64, w, b [][]float64) []byte {
	o := append([]byte("LA"), layerCodes[kind])
	o = append(append(o, u32(in)...), u32(out)...)
	o = append(append(o, f64(slope)...), f64(dropout)...)
	for _, m := range [][][]float64{w, b} {
		for _, row := range m {
			for _, v := range row {
				o = append(o, f64(v)...)
			}
		}
	}
	return o
}

func (d netDesc) layerBytes(i int, l Layer) []byte {
	_, _, w, b, x := layerFields(l)
	name := layerCases[d.kinds[i]].name
	slope, drop := 0.0, 0.0
	if name == "leaky" {
		slope = x
	}
	if name == "dropout" {
		drop = x
	}
	return encLayer(name, d.sizes[i], d.sizes[i+1], slope, drop, w.M, b.M)
}

type pair struct {
	k string
	v float64
}

func encModel(version string, n, in, out, loss, acc int, prec float64, opt int, table []pair, layers []byte) []byte {
	o := append([]byte("NNML"+version), byte(n))
	o = append(append(o, u32(in)...), u32(out)...)
	o = append(o, byte(loss), byte(acc))
	o = append(o, f64(prec)...)
	o = append(o, byte(opt), byte(len(table)))
	for _, p := range table {
		o = append(append(o, byte(len(p.k))), p.k...)
		o = append(o, f64(p.v)...)
	}
	return append(o, layers...)
}

// sameModelBytes compares saved bytes with the documented ones; the order of
// the hyper-parameters is free
func sameModelBytes(what string, got []byte, d netDesc, m *Model, loss, acc int, prec float64, oc int) bool {
	var layers []byte
	for i, l := range m.Layers {
		layers = append(layers, d.layerBytes(i, l)...)
	}
	out := d.sizes[len(d.sizes)-1]
	c := optCases[oc]
	opt := 0
	if c.adam {
		opt = 1
	}
	head := encModel("1.0.3", len(d.kinds), d.sizes[0], out, loss, acc, prec, opt, nil, nil)
	head = head[:len(head)-1]
	if len(got) < len(head)+1 || !bytes.Equal(got[:len(head)], head) {
		rfail("%s: the saved model starts with %x, documented: %x", what, clipB(got, len(head)), head)
		return false
	}
	rest := got[len(head):]
	want := optTable(c.adam, c.s)
	if int(rest[0]) != len(want) {
		rfail("%s: %d hyper-parameters are announced, there are %d", what, rest[0], len(want))
		return false
	}
	rest = rest[1:]
	seen := map[string]float64{}
	for range want {
		if len(rest) < 1 || len(rest) < 1+int(rest[0])+8 {
			rfail("%s: the hyper-parameter table is cut short", what)
			return false
		}
		n := int(rest[0])
		seen[string(rest[1:1+n])] = math.Float64frombits(binary.LittleEndian.Uint64(rest[1+n:]))
		rest = rest[1+n+8:]
	}
	if !sameTable(seen, want) {
		rfail("%s: the hyper-parameters are saved as %v, not %v", what, seen, want)
		return false
	}
	return sameBytes(what+": layers", rest, layers)
}

func clipB(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func sameBytes(what string, got, want []byte) bool {
	if bytes.Equal(got, want) {
		return true
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	a, b := got[i:], want[i:]
	rfail("%s: %d bytes, documented: %d; from byte %d on they are %x, documented: %x", what, len(got), len(want), i, clipB(a, 16), clipB(b, 16))
	return false
}

// sameAsSaved: l is the layer that d describes with parameters w, b
func sameAsSaved(what string, l Layer, kind int, in, out int, extra float64, w, b [][]float64) bool {
	if l == nil {
		rfail("%s: no layer", what)
		return false
	}
	ref, err := layerCases[kind].make(in, out, extra)
	if err != nil {
		rfail("%s: %v", what, err)
		return false
	}
	if fmt.Sprintf("%T", ref) != fmt.Sprintf("%T", l) {
		rfail("%s: a %T became a %T", what, ref, l)
		return false
	}
	a, c, lw, lb, x := layerFields(l)
	if a != in || c != out || math.Float64bits(x) != math.Float64bits(extra) {
		rfail("%s: sizes %d,%d and rate %v became %d,%d and %v", what, in, out, extra, a, c, x)
		return false
	}
	return unchanged(what+": weights", *lw, in, out, w) && unchanged(what+": biases", *lb, 1, out, b) && separate(what, *lw, *lb)
}

// oddParams: values whose bits matter
func oddParams(r *rng, m *Matrix) {
	for i := range m.M {
		for j := range m.M[i] {
			switch r.intn(4) {
			case 0:
				m.M[i][j] = odd[r.intn(len(odd))]
			case 1:
				m.M[i][j] = math.Float64frombits(r.next())
			}
		}
	}
}

var saveDims = []struct{ in, out int }{{1, 1}, {1, 2}, {2, 1}, {3, 2}, {2, 5}, {7, 7}, {1, 9}, {9, 1}, {16, 3}, {127, 2}, {2, 128}, {129, 1}, {1, 255}, {256, 1}, {1, 257}, {300, 2}, {40, 40}, {33, 65}, {1000, 3}, {2, 1025}, {70000, 1}, {1, 66000}}

func driveC27() {
	r := &rng{27}
	for k, lc := range layerCases {
		for di, dim := range saveDims {
			for rep := 0; rep < 6; rep++ {
				if di > 16 && rep > 0 {
					break
				}
				extra := lc.slopes[r.intn(len(lc.slopes))]
				if lc.name == "leaky" && rep%2 == 1 {
					extra = []float64{math.Copysign(0, -1), 1e300, 5e-324, 0.30000000000000004, math.Inf(1)}[r.intn(5)]
				}
				if lc.name == "dropout" && rep%2 == 1 {
					extra = []float64{1, 5e-324, 0.30000000000000004, 1.0 / 3, math.Copysign(0, -1)}[r.intn(5)]
				}
				l, err := lc.make(dim.in, dim.out, extra)
				if err != nil {
					continue
				}
				setParams(r, l, dim.in, dim.out, 1)
				w, b := params(l)
				if rep != 2 {
					oddParams(r, w)
					oddParams(r, b)
				}
				w0, b0 := clone(w.M), clone(b.M)
				tail := make([]byte, []int{0, 1, 7, 30, 64, 3}[rep])
				for i := range tail {
					tail[i] = byte(r.next())
				}
				what := fmt.Sprintf("%s layer %dx%d (slope or rate %v) followed by %d other bytes, %s %s", lc.name, dim.in, dim.out, extra, len(tail), about("weights", w0), about("biases", b0))
				rcase(what)
				if !try(what, func() {
					var buf bytes.Buffer
					before := 0
					if rep%3 == 1 { // behind something else
						before = 5
						buf.WriteString("other")
					}
					d := NewSavedLayerData(l)
					if err := d.SerializeLayer(&buf); err != nil {
						rfail("saving %s: %v", what, err)
						return
					}
					if !sameAsSaved("saving "+what, l, k, dim.in, dim.out, extra, w0, b0) {
						return
					}
					if rep == 3 { // twice gives the same
						var again bytes.Buffer
						d2 := NewSavedLayerData(l)
						d2.SerializeLayer(&again)
						if !sameBytes("saving again "+what, again.Bytes(), buf.Bytes()[before:]) {
							return
						}
					}
					buf.Write(tail)
					buf.Next(before)
					got, err := LoadLayer(&buf)
					if err != nil {
						rfail("loading %s: %v", what, err)
						return
					}
					if !sameAsSaved("saving and loading "+what, got, k, dim.in, dim.out, extra, w0, b0) {
						return
					}
					gw, gb := params(got)
					if !separate("loading "+what, *gw, *w, *b) || !separate("loading "+what, *gb, *w, *b) {
						return
					}
					if !bytes.Equal(buf.Bytes(), tail) {
						rfail("loading %s leaves %d bytes, not the %d that follow it", what, buf.Len(), len(tail))
					}
				}) {
					return
				}
			}
		}
	}
	// several layers in a row
	for rep := 0; rep < 150; rep++ {
		d := randNet(r, 1+r.intn(6), 9)
		m := d.build(r)
		s := stateOf(m)
		what := "layers" + d.String()
		rcase(what)
		if !try(what, func() {
			var buf bytes.Buffer
			for i := range m.Layers {
				q := NewSavedLayerData(m.Layers[i])
				if err := q.SerializeLayer(&buf); err != nil {
					rfail("saving layer %d of%s: %v", i, what, err)
					return
				}
			}
			for i := range m.Layers {
				l, err := LoadLayer(&buf)
				if err != nil {
					rfail("loading layer %d of%s: %v", i, what, err)
					return
				}
				if !sameAsSaved(fmt.Sprintf("layer %d of %s in one buffer", i, what), l, d.kinds[i], d.sizes[i], d.sizes[i+1], d.extra[i], s.w[i], s.b[i]) {
					return
				}
			}
			if buf.Len() != 0 {
				rfail("loading %s leaves %d bytes", what, buf.Len())
			}
		}) {
			return
		}
	}
	// contradicting shapes
	for k, lc := range layerCases {
		for in := 1; in <= 4; in++ {
			for out := 1; out <= 4; out++ {
				for a := 1; a <= 5; a++ {
					for c := 1; c <= 5; c++ {
						for br := 1; br <= 2; br++ {
							for bc := 1; bc <= 5; bc++ {
								l, _ := lc.make(in, out, 0)
								w, b := params(l)
								*w, *b = gen(r, a, c, 1), gen(r, br, bc, 1)
								ok := a == in && c == out && br == 1 && bc == out
								what := fmt.Sprintf("%s layer %dx%d with weights %dx%d and biases %dx%d", lc.name, in, out, a, c, br, bc)
								rcase(what)
								w0, b0 := clone(w.M), clone(b.M)
								if !try("saving "+what, func() {
									var buf bytes.Buffer
									d := NewSavedLayerData(l)
									err := d.SerializeLayer(&buf)
									if ok != (err == nil) {
										rfail("saving %s: error is %v", what, err)
										return
									}
									if !unchanged("saving "+what, *w, a, c, w0) || !unchanged("saving "+what, *b, br, bc, b0) {
										return
									}
								}) {
									return
								}
								_ = k
							}
						}
					}
				}
			}
		}
	}
}

// savable: a random finalized model with what it was made from
func savable(r *rng, layers, max int) (netDesc, *Model, int, int, float64, int) {
	d := randNet(r, layers, max)
	m := d.build(r)
	for i, l := range m.Layers {
		setParams(r, l, d.sizes[i], d.sizes[i+1], 1)
	}
	loss, acc := r.intn(4), r.intn(3)
	prec := []float64{0, 0.05, 0.30000000000000004, 1e300, 5e-324, 3, math.Inf(1)}[r.intn(7)]
	oc := d.finalize(r, m, loss, AccuracyType(acc), prec)
	return d, m, loss, acc, prec, oc
}

// sameModel: got is what was saved, freshly finalized
func sameModel(what string, got *Model, d netDesc, s netState, loss, acc int, prec float64, oc int) bool {
	n := len(d.kinds)
	if got.ModelSize != n || len(got.Layers) != n || got.InputSize != d.sizes[0] || got.OutputSize != d.sizes[n] {
		rfail("%s: the loaded model has %s", what, modelHead(got))
		return false
	}
	for i, l := range got.Layers {
		if !sameAsSaved(fmt.Sprintf("%s: layer %d", what, i), l, d.kinds[i], d.sizes[i], d.sizes[i+1], d.extra[i], s.w[i], s.b[i]) {
			return false
		}
	}
	c := optCases[oc]
	ot := SGDOptimizerType
	if c.adam {
		ot = AdamOptimizerType
	}
	if got.LossType != LossType(loss) || fmt.Sprintf("%T", got.Loss) != fmt.Sprintf("%T", makeLosses(1)[loss]) || int(got.Loss.getValues()["size"]) != d.sizes[n] {
		rfail("%s: the loaded model has loss %T %d of size %v", what, got.Loss, got.LossType, got.Loss.getValues()["size"])
		return false
	}
	if got.AccuracyType != AccuracyType(acc) || math.Float64bits(got.AccuracyPercision) != math.Float64bits(prec) {
		rfail("%s: the loaded model has accuracy %d with precision %v", what, got.AccuracyType, got.AccuracyPercision)
		return false
	}
	if got.OptimizerType != ot || !sameTable(got.OptimizerValues, optTable(c.adam, c.s)) || len(got.Optimizers) != n {
		rfail("%s: the loaded model has optimizer kind %d, %v, %d optimizers", what, got.OptimizerType, got.OptimizerValues, len(got.Optimizers))
		return false
	}
	return true
}

func driveC28() {
	r := &rng{28}
	dir := os.Getenv("VERIF_SCRATCH")
	for rep := 0; rep < 420; rep++ {
		layers, max := 1+r.intn(5), 6
		switch rep {
		case 5:
			layers, max = 40, 3
		case 6:
			layers, max = 127, 2
		case 7:
			layers, max = 128, 2
		case 8:
			layers, max = 129, 2
		case 9:
			layers, max = 200, 2
		case 10:
			layers, max = 254, 2
		case 11:
			layers, max = 255, 2
		case 12, 13, 14:
			layers, max = 2, 300
		case 15:
			layers, max = 256, 2
		case 16:
			layers, max = 257, 2
		case 17:
			layers, max = 300, 1
		case 18:
			layers, max = 512, 1
		}
		d, m, loss, acc, prec, oc := savable(r, layers, max)
		n := len(d.kinds)
		trained := rep%3 == 0 && layers < 20
		if trained {
			x, y := gen(r, 4, d.sizes[0], 1), targets(r, 4, d.sizes[n], 2, nil, 0)
			try("training", func() { m.Fit(x, y, 2, 2, Matrix{}, Matrix{}, 0) })
		}
		if rep%4 == 1 {
			for _, l := range m.Layers {
				w, b := params(l)
				oddParams(r, w)
				oddParams(r, b)
			}
		}
		s, re := stateOf(m), rest(m)
		what := fmt.Sprintf("model of %d layers%s, loss %s, accuracy %d precision %v, optimizer %v, trained=%v", n, clipTail1(d.String()), lossNames[loss], acc, prec, optCases[oc], trained)
		rcase(what)
		for way := 0; way < 2; way++ {
			fail := true
			try(what, func() {
				var got Model
				var err error
				if way == 0 {
					var buf bytes.Buffer
					data := NewSavedModelData(*m)
					err = data.Serialize(&buf)
					if err == nil {
						if n <= 255 {
							got, err = LoadModel(&buf)
						}
						if err == nil && buf.Len() != 0 && n <= 255 {
							rfail("loading the %s leaves %d bytes", what, buf.Len())
							return
						}
					} else if n <= 255 {
						rfail("saving the %s: %v", what, err)
						return
					}
				} else {
					f := filepath.Join(dir, "model.nn")
					err = SaveFile(m, f)
					if err == nil && n <= 255 {
						got, err = LoadFile(f)
					}
				}
				if n > 255 {
					if err == nil {
						rfail("saving the %s is not refused", what)
						return
					}
				} else if err != nil {
					rfail("saving and loading the %s: %v", what, err)
					return
				}
				if q := rest(m); q != re {
					rfail("saving the %s changes its settings", what)
					return
				}
				if !sameState("saving the "+what, m, d, s) {
					return
				}
				if n > 255 {
					fail = false
					return
				}
				if !sameModel(what, &got, d, s, loss, acc, prec, oc) {
					return
				}
				// the same predictions
				if rep%4 != 1 {
					x := gen(r, 3, d.sizes[0], 1)
					a, err := m.Predict(x)
					b, err2 := got.Predict(x)
					if err != nil || err2 != nil || a.Rows != b.Rows || a.Cols != b.Cols {
						rfail("%s: predictions %v %v", what, err, err2)
						return
					}
					for i := range a.M {
						for j := range a.M[i] {
							if !same(a.M[i][j], b.M[i][j]) {
								rfail("%s: the loaded model predicts %v instead of %v on %s", what, b.M[i][j], a.M[i][j], about("x", x.M))
								return
							}
						}
					}
				}
				seen := map[Optimizer]bool{}
				for i, o := range got.Optimizers {
					if seen[o] {
						rfail("%s: optimizer of layer %d of the loaded model is not its own", what, i)
						return
					}
					seen[o] = true
					if i < 4 && !optIsNew(fmt.Sprintf("%s: layer %d of the loaded model", what, i), o, optCases[oc].adam, optCases[oc].s) {
						return
					}
				}
				fail = false
			})
			if fail {
				return
			}
		}
	}
}

func clipTail1(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// loads feeds bytes to the loader and watches it
func loads(what string, data []byte, model bool, must bool) bool {
	rcase(what)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var err error
	ok := try("loading "+what, func() {
		b := append([]byte{}, data...)
		if model {
			_, err = LoadModel(bytes.NewBuffer(b))
		} else {
			_, err = LoadLayer(bytes.NewBuffer(b))
		}
	})
	runtime.ReadMemStats(&m1)
	if !ok {
		return false
	}
	if used := m1.TotalAlloc - m0.TotalAlloc; used > 1<<20+200*uint64(len(data)) {
		rfail("loading %s: %d bytes of data make it allocate %d bytes", what, len(data), used)
		return false
	}
	if must && err == nil {
		rfail("loading %s: no error", what)
		return false
	}
	return true
}

func driveC29() {
	r := &rng{29}
	// whatever the state of the loggers: as they are after start-up
	huge := []int{0, -1, 1, 2, 3, 1 << 8, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 30, math.MaxInt32, math.MinInt32, -2, 46341, 65536, 1<<31 - 2}
	for _, a := range huge {
		for _, c := range huge {
			for kind := -2; kind < 8; kind++ {
				if kind > 1 && kind < 5 {
					continue
				}
				head := encLayer("ReLU", a, c, 0.5, 0.5, nil, nil)
				head[2] = byte(kind)
				for _, n := range []int{0, 1, 7, 8, 16, 40} {
					fits := a >= 1 && c >= 1 && a < 1<<20 && c < 1<<20 && 8*(a+1)*c <= n
					must := !fits || kind < 0 || kind > 5
					if !loads(fmt.Sprintf("a layer of kind %d announcing %dx%d with %d bytes of values", kind, a, c, n), append(append([]byte{}, head...), make([]byte, n)...), false, must) {
						return
					}
				}
			}
		}
	}
	for rep := 0; rep < 60; rep++ {
		k := rep % len(layerCases)
		d := netDesc{kinds: []int{k}, sizes: []int{1 + r.intn(4), 1 + r.intn(4)}, extra: []float64{[]float64{0, 0.5}[r.intn(2)]}}
		if n := layerCases[k].name; n != "leaky" && n != "dropout" {
			d.extra[0] = 0
		}
		m := d.build(r)
		data := d.layerBytes(0, m.Layers[0])
		for cut := 0; cut < len(data); cut++ {
			if !loads(fmt.Sprintf("the first %d of %d bytes of a saved layer%s", cut, len(data), d), data[:cut], false, true) {
				return
			}
		}
		for at := 0; at < 2; at++ {
			for _, x := range []byte{0, 1, 0x20, 0xff, 'l', 'a', 'A', 'L'} {
				b := append([]byte{}, data...)
				if b[at] == x {
					continue
				}
				b[at] = x
				if !loads(fmt.Sprintf("a saved layer with magic bytes %q", b[:2]), b, false, true) {
					return
				}
			}
		}
		for x := 6; x < 256; x++ {
			b := append([]byte{}, data...)
			b[2] = byte(x)
			if !loads(fmt.Sprintf("a saved layer of kind %d", x), b, false, true) {
				return
			}
		}
		for i := 0; i < 60; i++ {
			b := append([]byte{}, data...)
			for j := 0; j <= r.intn(3); j++ {
				b[r.intn(27)%len(b)] = byte(r.next())
			}
			if !loads(fmt.Sprintf("a damaged layer %x", clipB(b, 27)), b, false, false) {
				return
			}
		}
	}
	for rep := 0; rep < 70; rep++ {
		d, m, loss, acc, prec, oc := savable(r, 1+r.intn(4), 3)
		n := len(d.kinds)
		if math.IsInf(prec, 0) {
			prec = 1
		}
		var layers []byte
		var ends []int
		for i, l := range m.Layers {
			layers = append(layers, d.layerBytes(i, l)...)
			ends = append(ends, len(layers))
		}
		opt := 0
		if optCases[oc].adam {
			opt = 1
		}
		var table []pair
		for k, v := range optTable(optCases[oc].adam, optCases[oc].s) {
			table = append(table, pair{k, v})
		}
		full := encModel("1.0.3", n, d.sizes[0], d.sizes[n], loss, acc, prec, opt, table, layers)
		head := len(full) - len(layers)
		if _, err := LoadModel(bytes.NewBuffer(append([]byte{}, full...))); err != nil {
			rfail("loading an undamaged model%s: %v", d, err)
			return
		}
		for cut := 0; cut < len(full); cut++ {
			if cut > head+60 && cut%7 != 0 && cut < len(full)-20 {
				continue
			}
			if !loads(fmt.Sprintf("the first %d of %d bytes of a saved model%s", cut, len(full), d), full[:cut], true, true) {
				return
			}
		}
		for at := 0; at < 4; at++ {
			b := append([]byte{}, full...)
			b[at] ^= byte(1 << uint(r.intn(8)))
			if !loads(fmt.Sprintf("a saved model with magic bytes %q", b[:4]), b, true, true) {
				return
			}
		}
		for _, v := range []string{"1.0.2", "9.9.9", "\x00\xff%s!", "%n%d%"} { // another version is only a warning
			if !loads(fmt.Sprintf("a saved model of version %q", v), encModel(v, n, d.sizes[0], d.sizes[n], loss, acc, prec, opt, table, layers), true, false) {
				return
			}
		}
		for x := 4; x < 256; x++ {
			if !loads(fmt.Sprintf("a saved model with loss kind %d", x), encModel("1.0.3", n, d.sizes[0], d.sizes[n], x, acc, prec, opt, table, layers), true, true) {
				return
			}
		}
		for x := 2; x < 256; x++ {
			if !loads(fmt.Sprintf("a saved model with optimizer kind %d", x), encModel("1.0.3", n, d.sizes[0], d.sizes[n], loss, acc, prec, x, table, layers), true, true) {
				return
			}
		}
		for _, x := range []int{n + 1, n + 2, 255, 128} {
			if !loads(fmt.Sprintf("a saved model of %d layers announcing %d", n, x), encModel("1.0.3", x, d.sizes[0], d.sizes[n], loss, acc, prec, opt, table, layers), true, true) {
				return
			}
		}
		for _, x := range []int{d.sizes[n] + 1, 0, -1, math.MaxInt32} { // the loss would not fit
			if !loads(fmt.Sprintf("a saved model with output size %d announcing %d", d.sizes[n], x), encModel("1.0.3", n, d.sizes[0], x, loss, acc, prec, opt, table, layers), true, true) {
				return
			}
		}
		// a table longer than the data, keys of any length
		for x := 0; x < 256; x++ {
			b := append([]byte{}, full...)
			b[29] = byte(x)
			if !loads(fmt.Sprintf("a saved model announcing %d hyper-parameters instead of %d", x, len(table)), b, true, false) {
				return
			}
			b = append([]byte{}, full...)
			b[30] = byte(x)
			if !loads(fmt.Sprintf("a saved model with a first key announced to be %d bytes long", x), b, true, false) {
				return
			}
			if !loads(fmt.Sprintf("a model whose data end after a key length of %d", x), append(append([]byte{}, full[:30]...), byte(x)), true, true) {
				return
			}
		}
		// layers that do not fit together
		other := encLayer("linear", d.sizes[n]+1, d.sizes[n], 0, 0, gen(r, d.sizes[n]+1, d.sizes[n], 1).M, gen(r, 1, d.sizes[n], 1).M)
		if !loads("a saved model whose last layer does not fit", encModel("1.0.3", n+1, d.sizes[0], d.sizes[n], loss, acc, prec, opt, table, append(append([]byte{}, layers...), other...)), true, true) {
			return
		}
		if !loads("a saved model whose second layer does not fit", encModel("1.0.3", n+2, d.sizes[0], d.sizes[n], loss, acc, prec, opt, table, append(append(append([]byte{}, layers[:ends[0]]...), encLayer("linear", d.sizes[1]+1, d.sizes[1], 0, 0, gen(r, d.sizes[1]+1, d.sizes[1], 1).M, gen(r, 1, d.sizes[1], 1).M)...), layers...)), true, true) {
			return
		}
		for i := 0; i < 150; i++ {
			b := append([]byte{}, full...)
			for j := 0; j <= r.intn(3); j++ {
				b[r.intn(head+30)%len(b)] = byte(r.next())
			}
			if r.intn(3) == 0 {
				b = b[:r.intn(len(b))]
			}
			if !loads(fmt.Sprintf("a damaged model %x", clipB(b, 100)), b, true, false) {
				return
			}
		}
	}
	for i := 0; i < 4000; i++ {
		b := make([]byte, r.intn(200))
		for j := range b {
			b[j] = byte(r.next())
			if r.intn(2) == 0 {
				b[j] = 0
			}
		}
		model := i%2 == 0
		switch r.intn(4) {
		case 0:
		case 1:
			copy(b, "LA")
		default:
			copy(b, "NNML1.0.3")
		}
		if !loads(fmt.Sprintf("bytes %x", b), b, model, len(b) < 4 || model && string(b[:4]) != "NNML" || !model && string(b[:2]) != "LA") {
			return
		}
	}
}

func driveC30() {
	for i, want := range []int{0, 1, 2, 3, 4, 5} {
		if got := int([]LayerType{HiddenLayerType, LinearLayerType, SigmoidLayerType, LeakyLayerType, SoftmaxLayerType, DropoutLayerType}[i]); got != want {
			rfail("layer kind code %d is %d", want, got)
			return
		}
	}
	if int(MeanSquaredLossType) != 0 || int(MeanAbsoluteLossType) != 1 || int(CrossEntropyLossType) != 2 || int(BinaryCrossEntropyLossType) != 3 ||
		int(RegressionAccuracyType) != 0 || int(CategoricalAccuracyType) != 1 || int(BinaryCategoricalAccuracyType) != 2 || int(SGDOptimizerType) != 0 || int(AdamOptimizerType) != 1 || VERSION != "1.0.3" {
		rfail("the published kind codes or the version have changed")
		return
	}
	r := &rng{30}
	for k, lc := range layerCases {
		for _, dim := range saveDims {
			for rep := 0; rep < 4; rep++ {
				if dim.in*dim.out > 2000 && rep > 0 {
					break
				}
				extra := lc.slopes[r.intn(len(lc.slopes))]
				l, err := lc.make(dim.in, dim.out, extra)
				if err != nil {
					continue
				}
				setParams(r, l, dim.in, dim.out, []int{3, 1}[rep%2])
				w, b := params(l)
				if rep > 1 {
					oddParams(r, w)
					oddParams(r, b)
				}
				d := netDesc{[]int{k}, []int{dim.in, dim.out}, []float64{extra}}
				want := d.layerBytes(0, l)
				what := fmt.Sprintf("%s layer %dx%d (slope or rate %v), %s %s", lc.name, dim.in, dim.out, extra, about("weights", w.M), about("biases", b.M))
				rcase(what)
				w0, b0 := clone(w.M), clone(b.M)
				if !try("saving "+what, func() {
					var buf bytes.Buffer
					q := NewSavedLayerData(l)
					if err := q.SerializeLayer(&buf); err != nil {
						rfail("saving %s: %v", what, err)
						return
					}
					if !sameBytes(what, buf.Bytes(), want) {
						return
					}
					got, err := LoadLayer(bytes.NewBuffer(want))
					if err != nil {
						rfail("loading %s from its documented bytes: %v", what, err)
						return
					}
					sameAsSaved("loading "+what+" from its documented bytes", got, k, dim.in, dim.out, extra, w0, b0)
				}) || rfails > 0 {
					return
				}
			}
		}
	}
	for rep := 0; rep < 400; rep++ {
		layers, max := 1+r.intn(5), 5
		switch rep {
		case 3:
			layers, max = 128, 2
		case 4:
			layers, max = 255, 2
		case 5, 6:
			layers, max = 2, 300
		}
		d, m, loss, acc, prec, oc := savable(r, layers, max)
		what := fmt.Sprintf("model of %d layers%s, loss %s, accuracy %d precision %v, optimizer %v", layers, clipTail1(d.String()), lossNames[loss], acc, prec, optCases[oc])
		rcase(what)
		s := stateOf(m)
		if !try("saving "+what, func() {
			var buf bytes.Buffer
			q := NewSavedModelData(*m)
			if err := q.Serialize(&buf); err != nil {
				rfail("saving the %s: %v", what, err)
				return
			}
			if !sameModelBytes(what, buf.Bytes(), d, m, loss, acc, prec, oc) {
				return
			}
			// documented bytes are understood, whatever the order of the table
			var layers []byte
			for i, l := range m.Layers {
				layers = append(layers, d.layerBytes(i, l)...)
			}
			var table []pair
			for k, v := range optTable(optCases[oc].adam, optCases[oc].s) {
				table = append(table, pair{k, v})
			}
			opt := 0
			if optCases[oc].adam {
				opt = 1
			}
			got, err := LoadModel(bytes.NewBuffer(encModel("1.0.3", len(d.kinds), d.sizes[0], d.sizes[len(d.kinds)], loss, acc, prec, opt, table, layers)))
			if err != nil {
				rfail("loading the %s from its documented bytes: %v", what, err)
				return
			}
			sameModel(what+" loaded from its documented bytes", &got, d, s, loss, acc, prec, oc)
		}) || rfails > 0 {
			return
		}
	}
}

func driveC31() {
	r := &rng{31}
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		panic("no scratch directory")
	}
	f := filepath.Join(dir, "m.nn")
	for rep := 0; rep < 260; rep++ {
		layers, max := 1+r.intn(4), 5
		if rep%20 == 3 {
			layers, max = 2, 200
		}
		if rep == 7 {
			layers, max = 2, 900
		}
		d, m, loss, acc, prec, oc := savable(r, layers, max)
		what := fmt.Sprintf("model%s, loss %s, accuracy %d precision %v, optimizer %v", clipTail1(d.String()), lossNames[loss], acc, prec, optCases[oc])
		rcase(what)
		s := stateOf(m)
		switch r.intn(4) { // what is there before
		case 0:
			os.Remove(f)
		case 1:
			os.WriteFile(f, bytes.Repeat([]byte("old content "), 1+r.intn(4000)), 0644)
		case 2:
			os.WriteFile(f, nil, 0644)
		}
		if !try("saving to a file the "+what, func() {
			if err := SaveFile(m, f); err != nil {
				rfail("saving to a file the %s: %v", what, err)
				return
			}
			data, err := os.ReadFile(f)
			if err != nil {
				rfail("the file saved for the %s cannot be read: %v", what, err)
				return
			}
			if !sameModelBytes("file of the "+what, data, d, m, loss, acc, prec, oc) {
				return
			}
			got, err := LoadFile(f)
			if err != nil {
				rfail("loading from a file the %s: %v", what, err)
				return
			}
			if !sameModel("file of the "+what, &got, d, s, loss, acc, prec, oc) {
				return
			}
			// files that are cut short
			cut := r.intn(len(data))
			os.WriteFile(f, data[:cut], 0644)
			if _, err := LoadFile(f); err == nil {
				rfail("loading a file of the first %d of %d bytes of the %s: no error", cut, len(data), what)
				return
			}
			// an unencodable model leaves the file alone
			old := bytes.Repeat([]byte{byte(rep), 7}, 1+r.intn(300))
			os.WriteFile(f, old, 0644)
			w, b := params(m.Layers[len(m.Layers)-1])
			kw, kb := *w, *b
			if r.intn(2) == 0 {
				*w = gen(r, w.Rows+1, w.Cols, 1)
			} else {
				*b = gen(r, 1, b.Cols+1, 1)
			}
			err = SaveFile(m, f)
			*w, *b = kw, kb
			if err == nil {
				rfail("saving a model with contradicting shapes: no error")
				return
			}
			if now, err := os.ReadFile(f); err != nil || !bytes.Equal(now, old) {
				rfail("saving a model that cannot be encoded (last layer of%s has parameters of another shape) changes the existing file from %d to %d bytes", d, len(old), len(now))
				return
			}
		}) || rfails > 0 {
			return
		}
	}
	_, m, _, _, _, _ := savable(r, 2, 4)
	_, long, _, _, _, _ := savable(r, 256, 1)
	os.WriteFile(f, []byte("keep"), 0644)
	try("saving a model of 256 layers", func() {
		if err := SaveFile(long, f); err == nil {
			rfail("saving a model of 256 layers: no error")
		}
		if now, _ := os.ReadFile(f); string(now) != "keep" {
			rfail("saving a model of 256 layers changes the existing file")
		}
	})
	missing := filepath.Join(dir, "none", "m.nn")
	for _, p := range []string{missing, dir, "", f + "\x00x", filepath.Join(f, "below"), "/dev/full"} {
		rcase("saving to " + p)
		try(fmt.Sprintf("saving to %q", p), func() {
			if err := SaveFile(m, p); err == nil {
				rfail("saving to %q: no error", p)
			}
		})
	}
	// a big model on a full device
	_, big, _, _, _, _ := savable(r, 1, 200)
	try("saving to a full device", func() {
		if err := SaveFile(big, "/dev/full"); err == nil {
			rfail("saving to a full device: no error")
		}
	})
	for _, p := range []string{missing, dir, "", filepath.Join(f, "below"), f + "\x00x"} {
		rcase("loading from " + p)
		try(fmt.Sprintf("loading from %q", p), func() {
			if _, err := LoadFile(p); err == nil {
				rfail("loading from %q: no error", p)
			}
		})
	}
	os.WriteFile(f, nil, 0644)
	try("loading an empty file", func() {
		if _, err := LoadFile(f); err == nil {
			rfail("loading an empty file: no error")
		}
	})
}

func driveC32() {
	r := &rng{32}
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		panic("no scratch directory")
	}
	stdout := os.Stdout
	defer func() { os.Stdout = stdout }()
	file := func(name, content string) string {
		p := filepath.Join(dir, name)
		os.WriteFile(p, []byte(content), 0644)
		return p
	}
	read := func(p string) string { b, _ := os.ReadFile(p); return string(b) }
	use := func(what string) {
		try(what, func() {
			d, m, loss, _, _, _ := savable(r, 2, 4)
			x := gen(r, 5, d.sizes[0], 1)
			y := targets(r, 5, d.sizes[2], 2, nil, 0)
			_ = loss
			m.Fit(x, y, 3, 2, x, y, 1)
			m.Fit(gen(r, 5, d.sizes[0]+1, 1), y, 1, 0, Matrix{}, Matrix{}, 1)
			m.Fit(x, targets(r, 5, d.sizes[2]+1, 2, nil, 0), 1, 0, Matrix{}, Matrix{}, 1)
			m.Fit(x, y, 1, 0, gen(r, 2, d.sizes[0]+2, 1), targets(r, 2, d.sizes[2], 2, nil, 0), 1)
			m.Fit(x, y, 1, 0, x, targets(r, 5, d.sizes[2]+2, 2, nil, 0), 1)
			k := m.AccuracyType
			m.AccuracyType = 9
			m.Fit(x, y, 1, 0, x, y, 1)
			m.AccuracyType = k
			m.Optimizers[0] = failing{}
			m.Fit(x, y, 1, 0, x, y, 1)
			var buf bytes.Buffer
			_, m, _, _, _, _ = savable(r, 2, 4)
			q := NewSavedModelData(*m)
			q.Version = "0.9.1"
			q.Serialize(&buf)
			if _, err := LoadModel(&buf); err != nil {
				rfail("%s: loading a model of another version: %v", what, err)
			}
			LoadModel(bytes.NewBufferString("NNML"))
			LoadFile(filepath.Join(dir, "none"))
			SaveFile(m, filepath.Join(dir, "none", "x"))
		})
	}
	rcase("training, saving and loading before logging is initialised")
	quiet := file("stdout0", "")
	o, _ := os.OpenFile(quiet, os.O_APPEND|os.O_WRONLY, 0644)
	os.Stdout = o
	use("using the library before logging is initialised")
	os.Stdout = stdout
	o.Close()
	if read(quiet) != "" {
		rfail("library use before logging is initialised writes to standard output")
	}
	if rfails > 0 {
		return
	}
	n := 0
	for rep := 0; rep < 300; rep++ {
		verbose, useFile := r.intn(2) == 0, r.intn(2) == 0
		old := []string{"", "before\n", strings.Repeat("x", 5000)}[r.intn(3)]
		lf := filepath.Join(dir, fmt.Sprintf("log%d", r.intn(6)))
		fresh := r.intn(4) == 0
		if fresh {
			os.Remove(lf)
			old = ""
		} else {
			os.WriteFile(lf, []byte(old), 0644)
		}
		cap := file("stdout", "")
		out, _ := os.OpenFile(cap, os.O_APPEND|os.O_WRONLY, 0644)
		os.Stdout = out
		name := lf
		bad := useFile && r.intn(3) == 0
		if bad {
			name = []string{filepath.Join(dir, "none", "log"), dir, "", lf + "\x00"}[r.intn(4)]
		}
		if !useFile && r.intn(2) == 0 {
			name = filepath.Join(dir, "unused")
			os.Remove(name)
		}
		i0, w0, e0 := InfoLogger, WarningLogger, ErrorLogger
		what := fmt.Sprintf("InitLogger(verbose=%v, useFile=%v, %q) with %d bytes in the file", verbose, useFile, name, len(old))
		rcase(what)
		var err error
		fail := !try(what, func() { err = InitLogger(verbose, useFile, name) })
		os.Stdout = stdout
		if fail {
			return
		}
		if bad != (err != nil) {
			rfail("%s: error is %v", what, err)
			return
		}
		if bad {
			if InfoLogger != i0 || WarningLogger != w0 || ErrorLogger != e0 {
				rfail("%s fails and changes the loggers", what)
				return
			}
			out.Close()
			continue
		}
		before := map[string]string{}
		for q := 0; q < 6; q++ {
			p := filepath.Join(dir, fmt.Sprintf("log%d", q))
			before[p] = read(p)
		}
		if before[lf] != old {
			rfail("%s changes what the file contains", what)
			return
		}
		var msgs []string
		try("logging after "+what, func() {
			for k, l := range []*log.Logger{InfoLogger, WarningLogger, ErrorLogger} {
				n++
				s := fmt.Sprintf("message %d of level %d.", n, k)
				msgs = append(msgs, s)
				l.Printf("%s", s)
			}
		})
		gotOut := read(cap)
		out.Close()
		for p, b := range before {
			now := read(p)
			if !strings.HasPrefix(now, b) {
				rfail("%s: the file's old content is not kept", what)
				return
			}
			now = now[len(b):]
			if useFile && p == lf {
				for _, s := range msgs {
					if strings.Count(now, s) != 1 {
						rfail("%s: %q is not logged to the file once; logged: %q", what, s, now)
						return
					}
				}
				if strings.Count(now, "\n") != 3 {
					rfail("%s: logged: %q", what, now)
					return
				}
			} else if now != "" {
				rfail("%s: something is logged to another file: %q", what, now)
				return
			}
		}
		for _, s := range msgs {
			w := 0
			if !useFile && verbose {
				w = 1
			}
			if strings.Count(gotOut, s) != w {
				rfail("%s: %q is printed to standard output %d times", what, s, strings.Count(gotOut, s))
				return
			}
		}
		if !useFile {
			if _, err := os.Stat(filepath.Join(dir, "unused")); err == nil {
				rfail("%s creates the file", what)
				return
			}
		}
		if rep%60 == 5 {
			InitLogger(false, false, "")
			use("using the library after logging is switched off")
		}
		if rfails > 0 {
			return
		}
	}
}

// failing is an optimizer that refuses every update
type failing struct{}

func (failing) getValues() map[string]float64   { return map[string]float64{} }
func (failing) setValues(map[string]float64)    {}
func (failing) Update(*Matrix, *Matrix, Matrix, Matrix) error {
	return fmt.Errorf("refused")
}
