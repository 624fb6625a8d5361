package nn

import (
	"fmt"
	"math"
)

func init() {
	replayDrivers["C19"] = func() { driveOptimizer(false) }
	replayDrivers["C20"] = func() { driveOptimizer(true) }
}

type optSettings struct{ lr, decay, mom, eps, b1, b2 float64 }

// optRef replays the published rule entry by entry.
type optRef struct {
	adam bool
	s    optSettings
	t    int
	m, v [][]float64 // velocity or mean, squares
	mag  [][]float64 // magnitude of what m was added up from
}

func zeros(r, c int) [][]float64 {
	d := make([][]float64, r)
	for i := range d {
		d[i] = make([]float64, c)
	}
	return d
}

// step returns what is added to every parameter and how exact that is known
func (o *optRef) step(g [][]float64) (add, scale [][]float64) {
	if o.m == nil {
		o.m, o.v, o.mag = zeros(len(g), len(g[0])), zeros(len(g), len(g[0])), zeros(len(g), len(g[0]))
	}
	add, scale = zeros(len(g), len(g[0])), zeros(len(g), len(g[0]))
	rate := o.s.lr / (1 + o.s.decay*float64(o.t))
	c1, c2 := 1-math.Pow(o.s.b1, float64(o.t+1)), 1-math.Pow(o.s.b2, float64(o.t+1))
	for i := range g {
		for j := range g[i] {
			switch {
			case o.adam:
				o.m[i][j] = o.s.b1*o.m[i][j] + (1-o.s.b1)*g[i][j]
				o.mag[i][j] = o.s.b1*o.mag[i][j] + math.Abs((1-o.s.b1)*g[i][j])
				o.v[i][j] = o.s.b2*o.v[i][j] + (1-o.s.b2)*g[i][j]*g[i][j]
				den := math.Sqrt(o.v[i][j]/c2) + o.s.eps
				add[i][j] = -(rate * (o.m[i][j] / c1) / den)
				scale[i][j] = math.Abs(rate * (o.mag[i][j] / c1) / den)
			case o.s.mom != 0:
				o.m[i][j] = o.s.mom*o.m[i][j] - rate*g[i][j]
				o.mag[i][j] = o.s.mom*o.mag[i][j] + math.Abs(rate*g[i][j])
				add[i][j], scale[i][j] = o.m[i][j], o.mag[i][j]
			default:
				add[i][j] = -(rate * g[i][j])
				scale[i][j] = math.Abs(add[i][j])
			}
		}
	}
	o.t++
	return
}

func makeOptimizer(adam, fromType bool, s optSettings) (Optimizer, error) {
	if fromType {
		k := SGDOptimizerType
		v := map[string]float64{"learningRate": s.lr, "decay": s.decay, "momentum": s.mom}
		if adam {
			k = AdamOptimizerType
			v = map[string]float64{"learningRate": s.lr, "decay": s.decay, "epsilon": s.eps, "beta1": s.b1, "beta2": s.b2}
		}
		return NewOptimizerFromType(k, v)
	}
	if adam {
		o, err := NewAdamOptimizer(s.lr, s.decay, s.eps, s.b1, s.b2)
		return &o, err
	}
	o, err := NewSGDOptimizer(s.lr, s.decay, s.mom)
	return &o, err
}

// refill overwrites a gradient in place
func refill(r *rng, m Matrix, kind int) {
	n := 0.0
	for i := range m.M {
		for j := range m.M[i] {
			n++
			switch kind {
			case 0:
				m.M[i][j] = small[r.intn(len(small))]
			case 1:
				m.M[i][j] = (r.unit() - 0.5) * 8
			case 2:
				m.M[i][j] = 0
			case 3:
				m.M[i][j] = (r.unit() - 0.5) * 1e-7
			case 4:
				m.M[i][j] = math.Copysign(n+0.5, float64(r.intn(2))-0.5)
			default:
				m.M[i][j] = (r.unit() - 0.5) * 1e6
			}
		}
	}
}

type optRun struct {
	what     string
	o        Optimizer
	w, b     Matrix
	dw, db   Matrix
	rw, rb   *optRef
	settings optSettings
}

func newOptRun(r *rng, adam, fromType bool, s optSettings, in, out, brows, kind int) *optRun {
	o, err := makeOptimizer(adam, fromType, s)
	name := "SGD"
	if adam {
		name = "Adam"
	}
	what := fmt.Sprintf("%s %+v on weights %dx%d and biases %dx%d", name, s, in, out, brows, out)
	if err != nil {
		rfail("%s: refused: %v", what, err)
		return nil
	}
	return &optRun{what, o, gen(r, in, out, kind), gen(r, brows, out, kind), gen(r, in, out, 1), gen(r, brows, out, 1),
		&optRef{adam: adam, s: s}, &optRef{adam: adam, s: s}, s}
}

func (x *optRun) step(r *rng, kind int, reuse bool) bool {
	if !reuse {
		x.dw, x.db = gen(r, x.w.Rows, x.w.Cols, 1), gen(r, x.b.Rows, x.b.Cols, 1)
	}
	refill(r, x.dw, kind)
	refill(r, x.db, kind)
	w0, b0, dw0, db0 := clone(x.w.M), clone(x.b.M), clone(x.dw.M), clone(x.db.M)
	what := fmt.Sprintf("%s, step %d", x.what, x.rw.t)
	aw, sw := x.rw.step(dw0)
	ab, sb := x.rb.step(db0)
	var err error
	if !try(what, func() { err = x.o.Update(&x.w, &x.b, x.dw, x.db) }) {
		return false
	}
	if err != nil {
		rfail("%s: error %v", what, err)
		return false
	}
	ok := expect(what+": weights", x.w, len(w0), len(w0[0]), func(i, j int) float64 { return w0[i][j] + aw[i][j] },
		func(i, j int) float64 { return sw[i][j] + math.Abs(w0[i][j])*1e-3 })
	ok = expect(what+": biases", x.b, len(b0), len(b0[0]), func(i, j int) float64 { return b0[i][j] + ab[i][j] },
		func(i, j int) float64 { return sb[i][j] + math.Abs(b0[i][j])*1e-3 }) && ok
	ok = unchanged(what+": weight gradient", x.dw, len(dw0), len(dw0[0]), dw0) && ok
	ok = unchanged(what+": bias gradient", x.db, len(db0), len(db0[0]), db0) && ok
	return ok
}

func driveOptimizer(adam bool) {
	r := &rng{101}
	var ss []optSettings
	if adam {
		for _, lr := range []float64{0.01, 1, 50} {
			for _, d := range []float64{0, 1e-3, 0.25, 3} {
				for _, b := range [][2]float64{{0.9, 0.999}, {0.5, 0.5}, {0, 0}, {0.999, 0.9}, {0, 0.9}, {0.3, 0}} {
					for _, e := range []float64{1e-7, 1e-2, 5} {
						ss = append(ss, optSettings{lr: lr, decay: d, eps: e, b1: b[0], b2: b[1]})
					}
				}
			}
		}
	} else {
		for _, lr := range []float64{0.01, 1, 50} {
			for _, d := range []float64{0, 1e-3, 0.25, 3, 100} {
				for _, m := range []float64{0, 0.9, 0.5, 1, 1.25, 1e-3} {
					ss = append(ss, optSettings{lr: lr, decay: d, mom: m})
				}
			}
		}
	}
	// every setting, short histories, two optimizers taking turns
	for k, s := range ss {
		a := newOptRun(r, adam, k%2 == 0, s, 1+r.intn(4), 1+r.intn(4), 1, k%2)
		b := newOptRun(r, adam, k%2 == 1, ss[r.intn(len(ss))], 1+r.intn(4), 1+r.intn(4), 1, 1)
		if a == nil || b == nil {
			continue
		}
		for n := 0; n < 30; n++ {
			if !a.step(r, []int{0, 1, 1, 2, 3, 4, 5}[r.intn(7)], r.intn(2) == 0) || !b.step(r, r.intn(2), true) {
				break
			}
		}
	}
	// every shape
	for k, d := range layerDims {
		if x := newOptRun(r, adam, k%2 == 0, ss[(k*7)%len(ss)], d.in, d.out, 1+k%2, 1); x != nil {
			for n := 0; n < 4 && x.step(r, n%2, n%2 == 0); n++ {
			}
		}
	}
	for k, sh := range [][2]int{{300, 300}, {1100, 40}, {40, 1100}, {1, 5000}, {5000, 1}} {
		if x := newOptRun(r, adam, false, ss[(k*11+1)%len(ss)], sh[0], sh[1], 1, 1); x != nil {
			for n := 0; n < 3 && x.step(r, 1, false); n++ {
			}
		}
	}
	// long histories
	for k, s := range ss {
		if s.mom > 1 {
			continue
		}
		n := 1500
		if k%9 == 0 {
			n = 12000
		}
		if s.lr == 50 && (s.decay == 0.25 || s.decay == 3) && (s.mom == 0 || s.mom == 0.9) && (!adam || s.b2 == 0.5 && s.eps == 5) {
			n = 66000
		}
		if x := newOptRun(r, adam, k%2 == 1, s, 2, 2, 1, 1); x != nil {
			for i := 0; i < n && x.step(r, i%2, i%3 != 0); i++ {
			}
		}
	}
}
