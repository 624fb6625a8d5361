package nn

import (
	"fmt"
	"math"
)

func init() {
	replayDrivers["C22"] = driveC22
	replayDrivers["C23"] = driveC23
	replayDrivers["C24"] = driveC24
	replayDrivers["C25"] = driveC25
	replayDrivers["C26"] = driveC26
}

func makeLosses(size int) []Loss {
	a, _ := NewMeanSquaredLoss(size)
	b, _ := NewMeanAbsoluteLoss(size)
	c, _ := NewCrossEntropyLoss(size)
	d, _ := NewBinaryCrossEntropyLoss(size)
	return []Loss{&a, &b, &c, &d}
}

var lossNames = []string{"mean squared", "mean absolute", "cross entropy", "binary cross entropy"}

// modelHead: what AddLayer may change
func modelHead(m *Model) string {
	return fmt.Sprintf("ModelSize=%d InputSize=%d OutputSize=%d layers=%d", m.ModelSize, m.InputSize, m.OutputSize, len(m.Layers))
}

func newLayerOf(r *rng, kind, in, out int) Layer {
	l, err := layerCases[kind].make(in, out, []float64{0.1, 0.25, 0.5, 0}[r.intn(4)])
	if err != nil {
		rfail("new %s layer (%d,%d): %v", layerCases[kind].name, in, out, err)
		panic(failure{"no layer"})
	}
	return l
}

// tableEntry of the hyper-parameters
func optTable(adam bool, s optSettings) map[string]float64 {
	if adam {
		return map[string]float64{"learningRate": s.lr, "decay": s.decay, "epsilon": s.eps, "beta1": s.b1, "beta2": s.b2}
	}
	return map[string]float64{"learningRate": s.lr, "decay": s.decay, "momentum": s.mom}
}

func sameTable(a, b map[string]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok || math.Float64bits(x) != math.Float64bits(y) {
			return false
		}
	}
	return true
}

// optIsNew: the optimizer behaves, from now on, like a newly created one
func optIsNew(what string, o Optimizer, adam bool, s optSettings) bool {
	switch t := o.(type) {
	case *SGDOptimizer:
		if adam || t.LearningRate != s.lr || t.Decay != s.decay || t.Momentum != s.mom {
			rfail("%s: optimizer is SGD(%v,%v,%v)", what, t.LearningRate, t.Decay, t.Momentum)
			return false
		}
	case *AdamOptimizer:
		if !adam || t.LearningRate != s.lr || t.Decay != s.decay || t.Epsilon != s.eps || t.Beta1 != s.b1 || t.Beta2 != s.b2 {
			rfail("%s: optimizer is Adam(%v,%v,%v,%v,%v)", what, t.LearningRate, t.Decay, t.Epsilon, t.Beta1, t.Beta2)
			return false
		}
	default:
		rfail("%s: optimizer is %T", what, o)
		return false
	}
	ref := optRef{adam: adam, s: s}
	w, b := mof([][]float64{{0.5, -1}}), mof([][]float64{{2, 3}})
	for k := 0; k < 4; k++ {
		g := [][]float64{{1 + float64(k), -0.25}}
		before := clone(w.M)
		var err error
		if !try(what+": Update", func() { err = o.Update(&w, &b, mof(clone(g)), mof(clone(g))) }) {
			return false
		}
		if err != nil {
			rfail("%s: Update: %v", what, err)
			return false
		}
		add, sc := ref.step(g)
		for j := range g[0] {
			if !near(w.M[0][j]-before[0][j], add[0][j], sc[0][j]+math.Abs(before[0][j])) {
				rfail("%s: step %d of its optimizer moves a parameter by %v, a new optimizer by %v", what, k+1, w.M[0][j]-before[0][j], add[0][j])
				return false
			}
		}
	}
	return true
}

var optCases = []struct {
	adam bool
	s    optSettings
}{
	{false, optSettings{0.1, 0, 0, 0, 0, 0}},
	{false, optSettings{0.5, 0.01, 0.9, 0, 0, 0}},
	{false, optSettings{0.5, 0.3, 0, 0, 0, 0}},
	{false, optSettings{2, 0, 0.5, 0, 0, 0}},
	{true, optSettings{0.01, 0, 0, 1e-7, 0.9, 0.999}},
	{true, optSettings{0.5, 0.25, 0, 1e-3, 0.5, 0.75}},
}

func driveC22() {
	r := &rng{22}
	for rep := 0; rep < 400; rep++ {
		m := NewModel()
		if modelHead(&m) != "ModelSize=0 InputSize=0 OutputSize=0 layers=0" {
			rfail("NewModel: %s", modelHead(&m))
			return
		}
		var want []Layer
		in, out := 0, 0
		steps := 1 + r.intn(6)
		if rep%100 == 7 {
			steps = 300
		}
		max := 4
		if rep%10 == 3 {
			max = 300
		}
		desc := ""
		for k := 0; k < steps; k++ {
			a, b := 1+r.intn(max), 1+r.intn(max)
			if len(want) > 0 && r.intn(3) > 0 {
				a = out
			}
			if r.intn(12) == 0 && len(want) > 0 { // near misses
				a = []int{out + 1, out - 1, in, out + 256, out * 2, b}[r.intn(6)]
				if a < 1 {
					a = 1
				}
			}
			kind := r.intn(len(layerCases))
			l := newLayerOf(r, kind, a, b)
			if k < 8 {
				desc += fmt.Sprintf(" %s(%d,%d)", layerCases[kind].name, a, b)
			}
			what := fmt.Sprintf("AddLayer number %d of%s", k+1, desc)
			ok := len(want) == 0 || a == out
			if ok {
				want = append(want, l)
				if len(want) == 1 {
					in = a
				}
				out = b
			}
			var err error
			if !try(what, func() { err = m.AddLayer(l) }) {
				return
			}
			if ok != (err == nil) {
				rfail("%s: allowed=%v but error is %v", what, ok, err)
				return
			}
			if g, w := modelHead(&m), fmt.Sprintf("ModelSize=%d InputSize=%d OutputSize=%d layers=%d", len(want), in, out, len(want)); g != w {
				rfail("%s: model has %s, expected %s", what, g, w)
				return
			}
			for i := range want {
				if m.Layers[i] != want[i] {
					rfail("%s: layer %d is not the layer that was added", what, i)
					return
				}
			}
			lin, lout, w, b2, _ := layerFields(l)
			if lin != a || lout != b || w.Rows != a || w.Cols != b || b2.Cols != b {
				rfail("%s: the layer now has sizes %d,%d", what, lin, lout)
				return
			}
		}
		for _, size := range []int{out, out + 1, in, out - 1, out + 256, out} {
			if size < 1 {
				continue
			}
			for li, l := range makeLosses(size) {
				for _, p := range []float64{0, 0.1, -0.1, -1e-300, 5, math.Copysign(0, -1), 1e300, math.Inf(-1), math.Inf(1)} {
					oc := optCases[r.intn(len(optCases))]
					at := AccuracyType(r.intn(3))
					what := fmt.Sprintf("Finalize of%s with %s loss of size %d, precision %v, accuracy %d, adam=%v %v", desc, lossNames[li], size, p, at, oc.adam, oc.s)
					o, err := makeOptimizer(oc.adam, false, oc.s)
					if err != nil {
						rfail("%s: %v", what, err)
						return
					}
					// an optimizer that has been used already
					if r.intn(2) == 0 {
						w, b := gen(r, 2, 2, 1), gen(r, 1, 2, 1)
						o.Update(&w, &b, gen(r, 2, 2, 1), gen(r, 1, 2, 1))
					}
					ok := size == out && !(p < 0)
					if !try(what, func() { err = m.Finalize(l, o, at, p) }) {
						return
					}
					if ok != (err == nil) {
						rfail("%s: allowed=%v but error is %v", what, ok, err)
						return
					}
					if modelHead(&m) != fmt.Sprintf("ModelSize=%d InputSize=%d OutputSize=%d layers=%d", len(want), in, out, len(want)) {
						rfail("%s: model has %s", what, modelHead(&m))
						return
					}
					if !ok {
						continue
					}
					kind := SGDOptimizerType
					if oc.adam {
						kind = AdamOptimizerType
					}
					if m.Loss != l || m.LossType != LossType(li) || m.AccuracyType != at || m.AccuracyPercision != p || m.OptimizerType != kind || len(m.Optimizers) != len(want) {
						rfail("%s: model has loss %v kind %d, accuracy %d %v, optimizer kind %d, %d optimizers", what, m.Loss == l, m.LossType, m.AccuracyType, m.AccuracyPercision, m.OptimizerType, len(m.Optimizers))
						return
					}
					if !sameTable(m.OptimizerValues, optTable(oc.adam, oc.s)) {
						rfail("%s: hyper-parameters are %v", what, m.OptimizerValues)
						return
					}
					seen := map[Optimizer]bool{o: true}
					for i, q := range m.Optimizers {
						if seen[q] {
							rfail("%s: optimizer of layer %d is not its own", what, i)
							return
						}
						seen[q] = true
						if !optIsNew(fmt.Sprintf("%s: layer %d", what, i), q, oc.adam, oc.s) {
							return
						}
					}
				}
			}
		}
	}
}
// netDesc: kinds (indices into layerCases), sizes (one more) and extras
type netDesc struct {
	kinds []int
	sizes []int
	extra []float64
}

func (d netDesc) String() string {
	s := ""
	for i, k := range d.kinds {
		s += fmt.Sprintf(" %s(%d,%d", layerCases[k].name, d.sizes[i], d.sizes[i+1])
		if n := layerCases[k].name; n == "leaky" || n == "dropout" {
			s += fmt.Sprintf(",%v", d.extra[i])
		}
		s += ")"
	}
	return s
}

func randNet(r *rng, layers, max int) netDesc {
	d := netDesc{sizes: []int{1 + r.intn(max)}}
	for i := 0; i < layers; i++ {
		k := r.intn(len(layerCases))
		d.kinds = append(d.kinds, k)
		d.sizes = append(d.sizes, 1+r.intn(max))
		switch layerCases[k].name {
		case "dropout":
			d.extra = append(d.extra, []float64{0, 0.5, 0.25, 0.9}[r.intn(4)])
		case "leaky":
			d.extra = append(d.extra, []float64{0, 0.1, 1, 2.5}[r.intn(4)])
		default:
			d.extra = append(d.extra, 0)
		}
	}
	return d
}

// build makes the model with random parameters
func (d netDesc) build(r *rng) *Model {
	m := NewModel()
	for i, k := range d.kinds {
		l, err := layerCases[k].make(d.sizes[i], d.sizes[i+1], d.extra[i])
		if err == nil {
			setParams(r, l, d.sizes[i], d.sizes[i+1], []int{0, 1}[r.intn(2)])
			err = m.AddLayer(l)
		}
		if err != nil {
			rfail("building%s: %v", d, err)
			panic(failure{"no model"})
		}
	}
	return &m
}

type netState struct{ w, b [][][]float64 }

func stateOf(m *Model) (s netState) {
	for _, l := range m.Layers {
		w, b := params(l)
		s.w, s.b = append(s.w, clone(w.M)), append(s.b, clone(b.M))
	}
	return
}

func sameState(what string, m *Model, d netDesc, s netState) bool {
	if len(m.Layers) != len(d.kinds) || m.ModelSize != len(d.kinds) {
		rfail("%s: the model now has %d layers", what, len(m.Layers))
		return false
	}
	for i, l := range m.Layers {
		a, b, w, bb, x := layerFields(l)
		if a != d.sizes[i] || b != d.sizes[i+1] || x != d.extra[i] {
			rfail("%s: layer %d now has sizes %d,%d and rate %v", what, i, a, b, x)
			return false
		}
		if !unchanged(fmt.Sprintf("%s: weights of layer %d", what, i), *w, d.sizes[i], d.sizes[i+1], s.w[i]) ||
			!unchanged(fmt.Sprintf("%s: biases of layer %d", what, i), *bb, 1, d.sizes[i+1], s.b[i]) {
			return false
		}
	}
	return true
}

// okLayerOut checks one layer's output against its input; kept counts the
// dropout decisions that can be seen
func okLayerOut(what string, kind int, extra float64, x, w, b [][]float64, out Matrix, training bool, kept, seen *float64) bool {
	z, mag := preRef(x, w, b)
	lc := layerCases[kind]
	n, c := len(x), len(b[0])
	if lc.name == "dropout" && training {
		if !wellShaped(what, out, n, c) {
			return false
		}
		for i := range z {
			for j := range z[i] {
				a, o := math.Max(z[i][j], 0), out.M[i][j]
				k := a / (1 - extra)
				dropped := near(o, 0, 1e-30)
				if !dropped && !near(o, k, mag[i][j]/(1-extra)) || dropped && extra == 0 && !near(0, k, mag[i][j]) {
					rfail("%s: output (%d,%d) is %s, neither dropped nor %s", what, i, j, bits(o), bits(k))
					return false
				}
				if a > 1e-6*mag[i][j] && a > 1e-200 {
					*seen++
					if !dropped {
						*kept++
					}
				}
			}
		}
		return true
	}
	var soft [][]float64
	if lc.act == nil {
		for i := range z {
			soft = append(soft, softmaxRef(z[i]))
		}
	}
	return expect(what, out, n, c, func(i, j int) float64 {
		if soft != nil {
			return soft[i][j]
		}
		return lc.act(z[i][j], extra)
	}, func(i, j int) float64 {
		if soft != nil {
			big := 0.0
			for _, m := range mag[i] {
				big = math.Max(big, m)
			}
			return 1e-4 * (1 + big)
		}
		return mag[i][j] * (1 + extra)
	})
}

func driveC23() {
	r := &rng{23}
	for rep := 0; rep < 700; rep++ {
		layers, max, rows := r.intn(6), 4, 5
		switch rep % 50 {
		case 3:
			layers = 20 + r.intn(20)
		case 4:
			max, layers = 70, 1+r.intn(3)
		case 5:
			rows = 130
		}
		d := randNet(r, layers, max)
		m := d.build(r)
		s := stateOf(m)
		var old []Matrix
		var old0 [][][]float64
		for pass := 0; pass < 6; pass++ {
			training := r.intn(2) == 0
			n := 1 + r.intn(rows)
			width := d.sizes[0]
			if layers == 0 {
				width = 1 + r.intn(5)
			}
			x := gen(r, n, width, []int{0, 1, 1, 3}[r.intn(4)])
			x0 := clone(x.M)
			what := fmt.Sprintf("model%s, pass %d (training=%v) on %s", d, pass, training, about("x", x0))
			var outs []Matrix
			var err error
			if r.intn(5) == 0 && layers > 0 { // a wrong width in between
				c := []int{width + 1, width - 1, d.sizes[layers], width * 2, 1}[r.intn(5)]
				if c >= 1 && c != width {
					bad := gen(r, n, c, 0)
					if !try(what+" of the wrong width", func() { _, err = m.Forward(bad, training) }) {
						return
					}
					if err == nil {
						rfail("%s: a batch of width %d is accepted", what, c)
						return
					}
				}
			}
			if !try(what, func() { outs, err = m.Forward(x, training) }) {
				return
			}
			if err != nil {
				rfail("%s: error %v", what, err)
				return
			}
			if len(outs) != layers+1 {
				rfail("%s: %d outputs for %d layers", what, len(outs), layers)
				return
			}
			if !unchanged(what+": input", x, n, width, x0) || !unchanged(what+": first output (the input)", outs[0], n, width, x0) || !sameState(what, m, d, s) {
				return
			}
			kept, seen := 0.0, 0.0
			in := x0
			for i := 0; i < layers; i++ {
				if !okLayerOut(fmt.Sprintf("%s: output of layer %d", what, i), d.kinds[i], d.extra[i], in, s.w[i], s.b[i], outs[i+1], training, &kept, &seen) {
					return
				}
				in = outs[i+1].M
			}
			for i := 1; i <= layers; i++ {
				if !separate(fmt.Sprintf("%s: output of layer %d", what, i-1), outs[i], append(append([]Matrix{}, old...), outs[:i]...)...) {
					return
				}
			}
			for i := range old {
				if !unchanged(what+" (an output of an earlier pass)", old[i], len(old0[i]), len(old0[i][0]), old0[i]) {
					return
				}
			}
			if pass < 3 {
				for _, o := range outs {
					old, old0 = append(old, o), append(old0, clone(o.M))
				}
			}
		}
	}
	// training passes do drop activations, at every depth
	for at := 0; at < 4; at++ {
		d := netDesc{sizes: []int{6}}
		for i := 0; i < 4; i++ {
			k, e := 0, 0.0
			if i == at || i == 3-at {
				k, e = 4, 0.5
			}
			d.kinds, d.sizes, d.extra = append(d.kinds, k), append(d.sizes, 40), append(d.extra, e)
		}
		m := d.build(r)
		for pass := 0; pass < 6; pass++ {
			training := pass%3 != 1
			x := gen(r, 60, 6, 1)
			what := fmt.Sprintf("model%s, pass %d (training=%v) on 60 random samples", d, pass, training)
			try(what, func() {
				outs, err := m.Forward(x, training)
				if err != nil {
					rfail("%s: error %v", what, err)
					return
				}
				s := stateOf(m)
				for i := range d.kinds {
					kept, seen := 0.0, 0.0
					if !okLayerOut(fmt.Sprintf("%s: output of layer %d", what, i), d.kinds[i], d.extra[i], outs[i].M, s.w[i], s.b[i], outs[i+1], training, &kept, &seen) {
						return
					}
					if d.kinds[i] == 4 && training && seen > 300 && math.Abs(kept-seen/2) > 5*math.Sqrt(seen) {
						rfail("%s: dropout layer %d keeps %v of %v activations at rate 0.5", what, i, kept, seen)
						return
					}
				}
			})
		}
	}
}
// chain: the gradients of every layer for the given outputs of a pass, last
// layer first, worked out layer by layer from their definitions
func (d netDesc) chain(m *Model, outs [][][]float64, training bool, lossGrad [][]float64, y [][]float64, kind int) (dws, dbs, magw, magb [][][]float64, ok bool) {
	n := len(outs[0])
	up := clone(lossGrad)
	mag := clone(up)
	for i := range mag {
		for j := range mag[i] {
			mag[i][j] = math.Abs(mag[i][j])
		}
	}
	for k := len(d.kinds) - 1; k >= 0; k-- {
		wm, bm := params(m.Layers[k])
		w, b := wm.M, bm.M
		x, P := outs[k], outs[k+1]
		z, zm := preRef(x, w, b)
		lc := layerCases[d.kinds[k]]
		D, M := clone(up), clone(mag)
		for i := 0; i < n; i++ {
			switch {
			case lc.name == "softmax" && kind == 2 && k == len(d.kinds)-1:
				for j := range D[i] {
					D[i][j] = (P[i][j] - y[i][j]) / float64(n)
					M[i][j] = (P[i][j] + y[i][j]) / float64(n)
				}
			case lc.name == "softmax":
				s, sm := 0.0, 0.0
				for j := range D[i] {
					s += P[i][j] * up[i][j]
					sm += P[i][j] * mag[i][j]
				}
				for j := range D[i] {
					D[i][j] = P[i][j] * (up[i][j] - s)
					M[i][j] = P[i][j] * (mag[i][j] + sm)
				}
			default:
				for j := range D[i] {
					if math.Abs(z[i][j]) < 1e-9*zm[i][j] && z[i][j] != 0 {
						return // the sign depends on rounding
					}
					f := 0.0
					if lc.name != "dropout" {
						f = lc.prime(z[i][j], d.extra[k])
					} else if z[i][j] > 0 {
						f = P[i][j] / z[i][j]
					}
					D[i][j] *= f
					M[i][j] *= math.Abs(f)
				}
			}
		}
		in, out := d.sizes[k], d.sizes[k+1]
		dw, mw := zeros(in, out), zeros(in, out)
		db, mb := zeros(1, out), zeros(1, out)
		di, md := zeros(n, in), zeros(n, in)
		for i := 0; i < n; i++ {
			for j := 0; j < out; j++ {
				db[0][j] += D[i][j]
				mb[0][j] += M[i][j]
				for a := 0; a < in; a++ {
					dw[a][j] += x[i][a] * D[i][j]
					mw[a][j] += math.Abs(x[i][a]) * M[i][j]
					di[i][a] += D[i][j] * w[a][j]
					md[i][a] += M[i][j] * math.Abs(w[a][j])
				}
			}
		}
		dws, dbs, magw, magb = append(dws, dw), append(dbs, db), append(magw, mw), append(magb, mb)
		up, mag = di, md
	}
	return dws, dbs, magw, magb, true
}

func driveC24() {
	r := &rng{24}
	for rep := 0; rep < 900; rep++ {
		layers, max, rows := 1+r.intn(5), 5, 6
		switch rep % 30 {
		case 3:
			layers = 9 + r.intn(10)
		case 4:
			max, layers = 40, 1+r.intn(3)
		case 5:
			rows = 140
		case 6:
			rows = 1
		}
		d := randNet(r, layers, max)
		loss := r.intn(4)
		switch rep % 6 {
		case 0:
			d.kinds[layers-1], loss = 5, 2
		case 1:
			d.kinds[layers-1], loss = 5, r.intn(4)
		case 2:
			loss = 2
		}
		if rep%7 == 0 && layers > 1 { // softmax layers further down as well
			d.kinds[r.intn(layers-1)] = 5
		}
		for i, k := range d.kinds {
			if n := layerCases[k].name; n != "leaky" && n != "dropout" {
				d.extra[i] = 0
			}
		}
		drop := false // its backward pass belongs to a training pass
		for _, k := range d.kinds {
			drop = drop || k == 4
		}
		m := d.build(r)
		for i, l := range m.Layers {
			setParams(r, l, d.sizes[i], d.sizes[i+1], 1)
		}
		d.finalize(r, m, loss, 0, 0.1)
		s, re := stateOf(m), rest(m)
		in, out := d.sizes[0], d.sizes[layers]
		var old []Matrix
		var old0 [][][]float64
		for pass := 0; pass < 4; pass++ {
			n := 1 + r.intn(rows)
			training := r.intn(3) > 0 || drop
			x := gen(r, n, in, []int{0, 1, 1}[r.intn(3)])
			x0 := clone(x.M)
			what := fmt.Sprintf("model%s, %s loss, pass %d (training=%v) on %s", d, lossNames[loss], pass, training, about("x", x0))
			fail := true
			try(what, func() {
				if r.intn(3) == 0 { // an earlier pass over another batch
					o, err := m.Forward(gen(r, 1+r.intn(5), in, 1), r.intn(2) == 0 || drop)
					if err == nil && r.intn(2) == 0 {
						m.Backward(o, targets(r, o[0].Rows, out, loss, clone(o[layers].M), 0))
					}
				}
				outs, err := m.Forward(x, training)
				if err != nil {
					rfail("%s: Forward: %v", what, err)
					return
				}
				var o0 [][][]float64
				for _, o := range outs {
					o0 = append(o0, clone(o.M))
				}
				kind := loss
				if kind == 0 && r.intn(2) == 0 || kind == 3 && r.intn(2) == 0 {
					kind = 3
				}
				y := targets(r, n, out, kind, clone(o0[layers]), r.intn(2))
				if r.intn(4) == 0 && loss != 2 {
					y = gen(r, n, out, 1)
				}
				y0 := clone(y.M)
				what += " " + about("y", y0)
				if r.intn(4) == 0 { // targets that do not fit
					br, bc := n, out
					for br == n && bc == out {
						br, bc = 1+r.intn(n+2), 1+r.intn(out+2)
					}
					if _, err := m.Backward(outs, targets(r, br, bc, 2, nil, 0)); err == nil {
						rfail("%s: targets %dx%d are accepted by Backward", what, br, bc)
						return
					}
					// a failed pass may leave the intermediate gradients anywhere, not the results
					if outs, err = m.Forward(x, drop); err != nil {
						rfail("%s: Forward: %v", what, err)
						return
					}
					training = drop
					o0 = nil
					for _, o := range outs {
						o0 = append(o0, clone(o.M))
					}
				}
				g, err := m.Backward(outs, y)
				if err != nil {
					rfail("%s: Backward: %v", what, err)
					return
				}
				if len(g) != layers {
					rfail("%s: %d gradients for %d layers", what, len(g), layers)
					return
				}
				for k := range outs {
					if !unchanged(fmt.Sprintf("%s, Backward: output %d", what, k), outs[k], n, d.sizes[k], o0[k]) {
						return
					}
				}
				if !unchanged(what+", Backward: input", x, n, in, x0) || !unchanged(what+", Backward: targets", y, n, out, y0) || !sameState(what+", Backward", m, d, s) {
					return
				}
				if q := rest(m); q != re {
					rfail("%s, Backward: the model's settings or optimizers changed", what)
					return
				}
				lg := zeros(n, out)
				for i := range lg {
					for j := range lg[i] {
						lg[i][j] = gradRef(loss, o0[layers][i][j], y0[i][j], float64(out), float64(n))
					}
				}
				dws, dbs, magw, magb, ok := d.chain(m, o0, training, lg, y0, loss)
				for j := 0; j < layers; j++ {
					k := layers - 1 - j
					if !wellShaped(fmt.Sprintf("%s: weight gradient of layer %d", what, k), g[j].DWeights, d.sizes[k], d.sizes[k+1]) || !wellShaped(fmt.Sprintf("%s: bias gradient of layer %d", what, k), g[j].DBiases, 1, d.sizes[k+1]) {
						return
					}
				}
				for j := 0; ok && j < layers; j++ {
					k := layers - 1 - j
					big, top := 1.0, 0.0
					for a := range magw[j] {
						for c := range magw[j][a] {
							top = math.Max(top, magw[j][a][c])
						}
					}
					for c := range magb[j][0] {
						top = math.Max(top, magb[j][0][c])
					}
					if top > 1e12 {
						break
					}
					_ = big
					if !expect(fmt.Sprintf("%s: weight gradient of layer %d", what, k), g[j].DWeights, d.sizes[k], d.sizes[k+1], func(a, c int) float64 { return dws[j][a][c] }, func(a, c int) float64 { return 1e2*magw[j][a][c] + 1e-3*top }) ||
						!expect(fmt.Sprintf("%s: bias gradient of layer %d", what, k), g[j].DBiases, 1, d.sizes[k+1], func(a, c int) float64 { return dbs[j][a][c] }, func(a, c int) float64 { return 1e2*magb[j][a][c] + 1e-3*top }) {
						return
					}
				}
				// the results are storage of their own
				var all []Matrix
				for _, q := range g {
					all = append(all, q.DWeights, q.DBiases)
				}
				others := append(append([]Matrix{y}, outs...), old...)
				for _, l := range m.Layers {
					w, b := params(l)
					others = append(others, *w, *b)
				}
				for i, q := range all {
					if !separate(fmt.Sprintf("%s: gradient %d of Backward", what, i), q, append(append([]Matrix{}, others...), all[:i]...)...) {
						return
					}
				}
				for i := range old {
					if !unchanged(what+" (a gradient of an earlier pass)", old[i], len(old0[i]), len(old0[i][0]), old0[i]) {
						return
					}
				}
				for _, q := range all {
					old, old0 = append(old, q), append(old0, clone(q.M))
				}
				fail = false
			})
			if fail {
				return
			}
		}
	}
}
// recLayer and recOpt note what a training run does with them
type recLayer struct {
	Layer
	batches [][][]float64
}

func (l *recLayer) Forward(x Matrix) (Matrix, error) {
	l.batches = append(l.batches, clone(x.M))
	return l.Layer.Forward(x)
}

type recOpt struct {
	Optimizer
	layer int
	log   *[]int
	what  *string
	w, b  *Matrix
}

func (o *recOpt) Update(w, b *Matrix, dw, db Matrix) error {
	*o.log = append(*o.log, o.layer)
	if w != o.w || b != o.b {
		*o.what = fmt.Sprintf("the optimizer of layer %d is given other parameters than its layer's", o.layer)
	}
	return o.Optimizer.Update(w, b, dw, db)
}

func driveC25() {
	r := &rng{25}
	for rep := 0; rep < 2200; rep++ {
		layers, max, rows := 1+r.intn(4), 5, 9
		switch rep % 40 {
		case 3:
			layers = 9 + r.intn(4)
		case 4:
			max, layers = 20, 1+r.intn(3)
		case 5:
			rows = 150
		case 6:
			rows = 1
		case 7:
			rows = 34
		}
		d := randNet(r, layers, max)
		for i, k := range d.kinds {
			if layerCases[k].name == "dropout" { // repeatable
				d.extra[i] = 0
			}
		}
		loss := r.intn(4)
		if rep%4 == 0 {
			d.kinds[layers-1], loss, d.extra[layers-1] = 5, 2, 0
		}
		seed := r.next()
		make2 := func() (*Model, int) {
			q := &rng{seed}
			m := d.build(q)
			for i, l := range m.Layers {
				setParams(q, l, d.sizes[i], d.sizes[i+1], 1)
				w, _ := params(l)
				for a := range w.M {
					for c := range w.M[a] {
						w.M[a][c] *= 0.2
					}
				}
			}
			return m, d.finalize(q, m, loss, AccuracyType(q.intn(3)), 0.1)
		}
		m, oc := make2()
		twin, _ := make2()
		in, out := d.sizes[0], d.sizes[layers]
		n := 1 + r.intn(rows)
		x := gen(r, n, in, []int{0, 1, 1, 3}[r.intn(4)])
		y := targets(r, n, out, []int{2, 3}[r.intn(2)], nil, r.intn(2))
		if loss == 2 {
			y = targets(r, n, out, 2, nil, 0)
		} else if r.intn(2) == 0 {
			y = gen(r, n, out, 1)
		}
		if r.intn(3) == 0 { // samples that are all alike but for one entry
			for i := range x.M {
				for j := range x.M[i] {
					x.M[i][j] = 0.5
				}
				x.M[i][0] = float64(i)
			}
		}
		x0, y0 := clone(x.M), clone(y.M)
		var log []int
		odd := ""
		var rec *recLayer
		recorded := rep%3 == 0
		if recorded {
			for i := range m.Optimizers {
				w, b := params(m.Layers[i])
				m.Optimizers[i] = &recOpt{m.Optimizers[i], i, &log, &odd, w, b}
			}
			if _, soft := m.Layers[0].(*SoftmaxLayer); !soft {
				if _, drop := m.Layers[0].(*DropoutLayer); !drop {
					rec = &recLayer{Layer: m.Layers[0]}
					m.Layers[0] = rec
				}
			}
		}
		for run := 0; run < 1+r.intn(2); run++ {
			epochs := []int{0, 1, 1, 2, 3, 5}[r.intn(6)]
			bs := []int{0, 1, 2, 3, n - 1, n, n + 1, 1 + r.intn(n), n / 2, 2 * n, 1000, 32}[r.intn(12)]
			if bs < 0 {
				bs = 0
			}
			every := 0
			var xv, yv Matrix
			if !recorded {
				every = []int{0, 0, 1, 2, 7}[r.intn(5)]
				if r.intn(3) == 0 {
					xv, yv = gen(r, 1+r.intn(4), in, 1), Matrix{}
					yv = targets(r, xv.Rows, out, 2, nil, 0)
				}
			}
			what := fmt.Sprintf("model%s, %s loss, optimizer %v, Fit run %d: %d epochs with batch size %d over %d samples, logging every %d, %d validation samples, %s %s", d, lossNames[loss], optCases[oc], run, epochs, bs, n, every, yv.Rows, about("x", x0), about("y", y0))
			var err error
			log, odd = nil, ""
			if rec != nil {
				rec.batches = nil
			}
			rcase(what)
			if !try(what, func() { err = m.Fit(x, y, epochs, bs, xv, yv, every) }) {
				return
			}
			if err != nil {
				rfail("%s: error %v", what, err)
				return
			}
			if !unchanged(what+": samples", x, n, in, x0) || !unchanged(what+": targets", y, n, out, y0) {
				return
			}
			// the same by hand
			var batches [][][]float64
			size := bs
			if size == 0 {
				size = n
			}
			finite := true
			for e := 0; e < epochs; e++ {
				for lo := 0; lo < n; lo += size {
					hi := lo + size
					if hi > n {
						hi = n
					}
					bx, by := mof(clone(x0[lo:hi])), mof(clone(y0[lo:hi]))
					batches = append(batches, clone(bx.M))
					o, err := twin.Forward(bx, true)
					if err != nil {
						rfail("%s: forward pass by hand: %v", what, err)
						return
					}
					g, err := twin.Backward(o, by)
					if err != nil {
						rfail("%s: backward pass by hand: %v", what, err)
						return
					}
					for l := range twin.Layers {
						w, b := params(twin.Layers[l])
						if err := twin.Optimizers[l].Update(w, b, g[layers-1-l].DWeights, g[layers-1-l].DBiases); err != nil {
							rfail("%s: update by hand: %v", what, err)
							return
						}
					}
				}
			}
			for l := range m.Layers {
				w, b := params(m.Layers[l])
				tw, tb := params(twin.Layers[l])
				top := 1.0
				for _, q := range append(append([][]float64{}, tw.M...), tb.M...) {
					for _, v := range q {
						if math.IsNaN(v) || math.Abs(v) > 1e6 {
							finite = false
						}
						top = math.Max(top, math.Abs(v))
					}
				}
				if !finite {
					break
				}
				scale := func(i, j int) float64 { return 10 * top }
				if !expect(fmt.Sprintf("%s: weights of layer %d", what, l), *w, d.sizes[l], d.sizes[l+1], func(i, j int) float64 { return tw.M[i][j] }, scale) ||
					!expect(fmt.Sprintf("%s: biases of layer %d", what, l), *b, 1, d.sizes[l+1], func(i, j int) float64 { return tb.M[0][j] }, scale) {
					return
				}
			}
			if odd != "" {
				rfail("%s: %s", what, odd)
				return
			}
			if recorded {
				if len(log) != len(batches)*layers {
					rfail("%s: %d updates for %d batches and %d layers", what, len(log), len(batches), layers)
					return
				}
				for b := range batches {
					seen := map[int]bool{}
					for _, l := range log[b*layers : (b+1)*layers] {
						seen[l] = true
					}
					if len(seen) != layers {
						rfail("%s: batch %d updates the layers %v", what, b, log[b*layers:(b+1)*layers])
						return
					}
				}
			}
			if rec != nil {
				if len(rec.batches) != len(batches) {
					rfail("%s: %d forward passes for %d batches", what, len(rec.batches), len(batches))
					return
				}
				for b := range batches {
					if !expect(fmt.Sprintf("%s: batch %d", what, b), mof(rec.batches[b]), len(batches[b]), in, func(i, j int) float64 { return batches[b][i][j] }, nil) {
						return
					}
				}
			}
			if !finite {
				break
			}
		}
	}
}

// finalize gives the model a loss, an optimizer and an accuracy measure
func (d netDesc) finalize(r *rng, m *Model, loss int, at AccuracyType, precision float64) (oc int) {
	out := d.sizes[len(d.sizes)-1]
	oc = r.intn(len(optCases))
	o, err := makeOptimizer(optCases[oc].adam, false, optCases[oc].s)
	if err == nil {
		err = m.Finalize(makeLosses(out)[loss], o, at, precision)
	}
	if err != nil {
		rfail("finalizing%s: %v", d, err)
		panic(failure{"no model"})
	}
	return
}

// rest: everything of a finalized model apart from its layers
func rest(m *Model) string {
	s := fmt.Sprintf("%s loss %d %+v accuracy %d %v optimizer %d %v", modelHead(m), m.LossType, m.Loss, m.AccuracyType, m.AccuracyPercision, m.OptimizerType, m.OptimizerValues)
	for _, o := range m.Optimizers {
		s += fmt.Sprintf(" %+v", o)
	}
	return s
}

// inferRef: the output of the model without dropout, layer by layer
func inferRef(m *Model, x [][]float64) (out [][]float64, err error) {
	cur := mof(clone(x))
	for _, l := range m.Layers {
		if d, ok := l.(*DropoutLayer); ok {
			cur, err = d.ForwardNoDropout(cur)
		} else {
			cur, err = l.Forward(cur)
		}
		if err != nil {
			return nil, err
		}
	}
	return clone(cur.M), nil
}

func driveC26() {
	r := &rng{26}
	for rep := 0; rep < 900; rep++ {
		layers, max, rows := r.intn(5), 5, 6
		switch rep % 30 {
		case 3:
			layers = 12
		case 4:
			max, layers = 40, 1+r.intn(3)
		case 5:
			rows = 150
		}
		d := randNet(r, layers, max)
		if r.intn(3) == 0 && layers > 0 { // probabilities to decode
			d.kinds[layers-1] = []int{3, 5, 4}[r.intn(3)]
			d.extra[layers-1] = 0
			if d.kinds[layers-1] == 4 {
				d.extra[layers-1] = 0.5
			}
		}
		m := d.build(r)
		loss := r.intn(4)
		in, out := d.sizes[0], d.sizes[layers]
		if layers == 0 {
			m.OutputSize = out
		}
		precision := []float64{0, 0.05, 0.5, 3}[r.intn(4)]
		d.finalize(r, m, loss, AccuracyType(r.intn(3)), precision)
		if layers > 0 && r.intn(2) == 0 { // some training first
			x, y := gen(r, 3, in, 1), targets(r, 3, out, 2, nil, 0)
			try("training", func() { m.Fit(x, y, 1+r.intn(3), r.intn(3), Matrix{}, Matrix{}, 0) })
			for i, l := range m.Layers {
				setParams(r, l, d.sizes[i], d.sizes[i+1], 1)
			}
		}
		s, re := stateOf(m), rest(m)
		for pass := 0; pass < 4; pass++ {
			n := 1 + r.intn(rows)
			x := gen(r, n, in, []int{0, 1, 1, 3}[r.intn(4)])
			x0 := clone(x.M)
			at := AccuracyType([]int{0, 1, 2, 0, 1, 2, 3, -1, 100, -128, 127, 4}[r.intn(12)])
			m.AccuracyType = at
			known := at >= 0 && at <= 2
			ref, err := inferRef(m, x0)
			if err != nil {
				rfail("layers of%s: %v", d, err)
				return
			}
			y := targets(r, n, out, []int{0, 2, 3}[r.intn(3)], clone(ref), r.intn(4))
			if !wellShaped("targets", y, n, out) {
				return
			}
			for i := range y.M {
				for j := range y.M[i] {
					if r.intn(4) == 0 && loss != 2 {
						y.M[i][j] = ref[i][j] + []float64{0, 0.01, -0.3, 1}[r.intn(4)]
					}
				}
			}
			y0 := clone(y.M)
			re0 := rest(m)
			what := fmt.Sprintf("model%s, accuracy %d precision %v, loss %s, on %s %s", d, at, precision, lossNames[loss], about("x", x0), about("y", y0))
			after := func(op string) bool {
				if g := rest(m); g != re0 {
					rfail("%s of %s: the model's settings or optimizers changed", op, what)
					return false
				}
				return unchanged(op+" of "+what+": input", x, n, in, x0) && unchanged(op+" of "+what+": targets", y, n, out, y0) && sameState(op+" of "+what, m, d, s)
			}
			ops := []int{0, 1, 2}
			if r.intn(2) == 0 {
				ops = []int{2, 1, 0, 1}
			}
			for _, op := range ops {
				if r.intn(3) == 0 { // leave the layers in the state of a training pass
					m.Forward(gen(r, 1+r.intn(4), in, 1), true)
				}
				bad := 0
				if layers > 0 && r.intn(6) == 0 {
					bad = []int{in + 1, in - 1, in + 3, out}[r.intn(4)]
					if bad < 1 || bad == in {
						bad = 0
					}
				}
				arg := x
				if bad > 0 {
					arg = gen(r, n, bad, 0)
				}
				var err error
				var p Matrix
				v := 0.0
				name := []string{"Predict", "CalculateLoss", "CalculateAccuracy"}[op]
				if !try(name+" of "+what, func() {
					switch op {
					case 0:
						p, err = m.Predict(arg)
					case 1:
						v, err = m.CalculateLoss(arg, y)
					default:
						v, err = m.CalculateAccuracy(arg, y)
					}
				}) {
					return
				}
				if wrong := bad > 0 || op != 1 && !known; wrong != (err != nil) {
					rfail("%s of %s (batch width %d): error is %v", name, what, arg.Cols, err)
					return
				}
				if !after(name) {
					return
				}
				if err != nil {
					continue
				}
				switch op {
				case 0:
					ok := true
					switch at {
					case 0:
						ok = expect(name+" of "+what, p, n, out, func(i, j int) float64 { return ref[i][j] }, func(i, j int) float64 { return ref[i][j] })
					case 1:
						ok = expect(name+" of "+what, p, n, 1, func(i, j int) float64 { return float64(argmaxRef(ref[i])) }, nil)
					case 2:
						ok = expect(name+" of "+what, p, n, out, func(i, j int) float64 {
							if ref[i][j] < 0.5 {
								return 0
							}
							return 1
						}, nil)
					}
					if !ok || layers > 0 && !separate(name+" of "+what, p, x) {
						return
					}
				case 1:
					w, mag := lossRef(loss, ref, y0)
					if !near(v, w, mag) && !(math.IsNaN(w) || math.IsInf(mag, 0)) {
						rfail("%s of %s: %v, expected %v", name, what, v, w)
						return
					}
				default:
					hits, total := 0, n*out
					for i := range ref {
						if at == 1 {
							total = n
							if y0[i][argmaxRef(ref[i])] == 1 {
								hits++
							}
							continue
						}
						for j := range ref[i] {
							b := 1.0
							if ref[i][j] < 0.5 {
								b = 0
							}
							if at == 0 && math.Abs(ref[i][j]-y0[i][j]) < precision || at == 2 && b == y0[i][j] {
								hits++
							}
						}
					}
					if w := float64(hits) / float64(total); !near(v, w, 1e-3) {
						rfail("%s of %s: %v, expected %v", name, what, v, w)
						return
					}
				}
			}
		}
		_ = re
	}
}
