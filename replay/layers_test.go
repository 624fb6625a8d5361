package nn

import (
	"fmt"
	"math"
)

func init() {
	replayDrivers["C08"] = driveC08
	replayDrivers["C09"] = driveC09
	replayDrivers["C10"] = driveC10
	replayDrivers["C11"] = driveC11
}

type layerCase struct {
	name    string
	make    func(in, out int, slope float64) (Layer, error)
	forward func(l Layer, x Matrix) (Matrix, error) // inference
	act     func(z, slope float64) float64
	prime   func(z, slope float64) float64
	slopes  []float64
}

func fwd(l Layer, x Matrix) (Matrix, error) { return l.Forward(x) }

func reluPrime(z float64) float64 {
	if z > 0 {
		return 1
	}
	return 0
}

var layerCases = []layerCase{
	{"linear", func(a, b int, s float64) (Layer, error) { l, e := NewLinearLayer(a, b); return &l, e }, fwd,
		func(z, s float64) float64 { return z }, func(z, s float64) float64 { return 1 }, []float64{0}},
	{"ReLU", func(a, b int, s float64) (Layer, error) { l, e := NewLayer(a, b); return &l, e }, fwd,
		func(z, s float64) float64 { return math.Max(z, 0) }, func(z, s float64) float64 { return reluPrime(z) }, []float64{0}},
	{"leaky", func(a, b int, s float64) (Layer, error) { l, e := NewLeakyLayer(a, b, s); return &l, e }, fwd,
		func(z, s float64) float64 {
			if z < 0 {
				return z * s
			}
			return z
		}, func(z, s float64) float64 {
			if z < 0 {
				return s
			}
			return 1
		}, []float64{0.1, 0, 1, 2.5}},
	{"sigmoid", func(a, b int, s float64) (Layer, error) { l, e := NewSigmoidLayer(a, b); return &l, e }, fwd,
		func(z, s float64) float64 { return sigmoidRef(z) }, func(z, s float64) float64 { return sigmoidRef(z) * (1 - sigmoidRef(z)) }, []float64{0}},
	{"dropout", func(a, b int, s float64) (Layer, error) { l, e := NewDropoutLayer(a, b, s); return &l, e },
		func(l Layer, x Matrix) (Matrix, error) { return l.(*DropoutLayer).ForwardNoDropout(x) },
		func(z, s float64) float64 { return math.Max(z, 0) }, nil, []float64{0, 0.5, 0.9}},
	{"softmax", func(a, b int, s float64) (Layer, error) { l, e := NewSoftmaxLayer(a, b); return &l, e }, fwd, nil, nil, []float64{0}},
}

func params(l Layer) (*Matrix, *Matrix) {
	w, b, _ := l.getValues()
	return w, b
}

// setParams fills weights and biases; kind as in gen
func setParams(r *rng, l Layer, in, out, kind int) {
	w, b := params(l)
	*w = gen(r, in, out, kind)
	*b = gen(r, 1, out, kind)
}

// preRef: x*w + b and the magnitude of the terms
func preRef(x, w, b [][]float64) (z, mag [][]float64) {
	for i := range x {
		z, mag = append(z, make([]float64, len(b[0]))), append(mag, make([]float64, len(b[0])))
		for j := range b[0] {
			s, m := 0.0, 0.0
			for k := range w {
				s += x[i][k] * w[k][j]
				m += math.Abs(x[i][k] * w[k][j])
			}
			z[i][j], mag[i][j] = s+b[0][j], m+math.Abs(b[0][j])
		}
	}
	return
}

type layerDim struct{ in, out, rows int }

// layerDims: sizes and batch sizes, small ones all, then vectors and blocks
var layerDims = func() []layerDim {
	var o []layerDim
	for a := 1; a <= 4; a++ {
		for b := 1; b <= 4; b++ {
			for n := 1; n <= 4; n++ {
				o = append(o, layerDim{a, b, n})
			}
		}
	}
	for _, n := range []int{5, 6, 7, 8, 9, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 100, 127, 128, 129, 200, 256, 257, 300} {
		o = append(o, layerDim{n, 2, 3}, layerDim{2, n, 3}, layerDim{3, 2, n}, layerDim{1, n, 1}, layerDim{n, 1, 1}, layerDim{1, 1, n})
	}
	for _, n := range []int{8, 16, 17, 33, 65} {
		o = append(o, layerDim{n, n, n}, layerDim{n, n + 1, n - 1}, layerDim{n + 1, n, n + 2})
	}
	return append(o, layerDim{2, 2, 1000}, layerDim{3, 1, 1030}, layerDim{1030, 2, 2}, layerDim{2, 1030, 2})
}()

// tie: pre-activations that are exactly zero are interesting
func zeroSome(r *rng, l Layer, x Matrix) {
	_, b := params(l)
	if r.intn(3) == 0 {
		for j := range b.M[0] {
			b.M[0][j] = 0
		}
		for j := range x.M[0] {
			x.M[r.intn(x.Rows)][j] = 0
		}
		for j := range x.M[0] {
			x.M[0][j] = 0
		}
	}
}

func driveC08() {
	r := &rng{8}
	for _, lc := range layerCases {
		for _, d := range layerDims {
			for si, slope := range lc.slopes {
				if si > 0 && d.in*d.out*d.rows > 600 {
					continue
				}
				l, err := lc.make(d.in, d.out, slope)
				if err != nil {
					rfail("%s layer %dx%d: constructor: %v", lc.name, d.in, d.out, err)
					continue
				}
				var earlier []Matrix
				var earlier0 [][][]float64
				for rep := 0; rep < 4; rep++ {
					setParams(r, l, d.in, d.out, []int{0, 1, 3, 0}[rep])
					rows := d.rows
					if rep == 2 && rows < 30 {
						rows = 1 + r.intn(5)
					}
					x := gen(r, rows, d.in, []int{0, 1, 0, 3}[rep])
					if rep == 1 && lc.name != "sigmoid" {
						x = spread(r, rows, d.in, 1e8)
					}
					zeroSome(r, l, x)
					w, b := params(l)
					x0, w0, b0 := clone(x.M), clone(w.M), clone(b.M)
					wp, bp := *w, *b
					what := fmt.Sprintf("%s layer %dx%d (slope or rate %v), forward pass %d on %s", lc.name, d.in, d.out, slope, rep, about("x", x0))
					try(what, func() {
						got, err := lc.forward(l, x)
						if err != nil {
							rfail("%s: error %v", what, err)
							return
						}
						z, mag := preRef(x0, w0, b0)
						var soft [][]float64
						if lc.act == nil {
							for i := range z {
								soft = append(soft, softmaxRef(z[i]))
							}
						}
						expect(what, got, rows, d.out, func(i, j int) float64 {
							if soft != nil {
								return soft[i][j]
							}
							return lc.act(z[i][j], slope)
						}, func(i, j int) float64 {
							if soft != nil {
								big := 0.0
								for _, m := range mag[i] {
									big = math.Max(big, m)
								}
								return 1e-4 * (1 + big)
							}
							return mag[i][j] * (1 + slope)
						})
						separate(what, got, append(earlier, x, wp, bp)...)
						for k, e := range earlier {
							unchanged(what+" (result of an earlier pass)", e, len(earlier0[k]), d.out, earlier0[k])
						}
						earlier, earlier0 = append(earlier, got), append(earlier0, clone(got.M))
					})
					unchanged(what+": batch", x, rows, d.in, x0)
					w1, b1 := params(l)
					unchanged(what+": weights", *w1, d.in, d.out, w0)
					unchanged(what+": biases", *b1, 1, d.out, b0)
				}
			}
		}
		for in := 1; in <= 5; in++ {
			for out := 1; out <= 5; out++ {
				for c := 1; c <= 9; c++ {
					if c == in {
						continue
					}
					l, _ := lc.make(in, out, 0)
					what := fmt.Sprintf("%s layer %dx%d, forward pass on a batch of width %d", lc.name, in, out, c)
					try(what, func() {
						if _, err := lc.forward(l, gen(r, 1+r.intn(3), c, 0)); err == nil {
							rfail("%s: no error", what)
						}
					})
				}
			}
		}
	}
}

// products checks the three results of a backward pass against D
func products(what string, dw, db, di Matrix, x, w, D [][]float64) {
	n, in, out := len(x), len(w), len(w[0])
	mag := func(f func(k int) float64, n int) (s, m float64) {
		for k := 0; k < n; k++ {
			t := f(k)
			s += t
			m += math.Abs(t)
		}
		return
	}
	expect("weight gradient of "+what, dw, in, out, func(i, j int) float64 {
		s, _ := mag(func(k int) float64 { return x[k][i] * D[k][j] }, n)
		return s
	}, func(i, j int) float64 {
		_, m := mag(func(k int) float64 { return x[k][i] * D[k][j] }, n)
		return m + 1e-4*1e-9
	})
	expect("bias gradient of "+what, db, 1, out, func(i, j int) float64 {
		s, _ := mag(func(k int) float64 { return D[k][j] }, n)
		return s
	}, func(i, j int) float64 {
		_, m := mag(func(k int) float64 { return D[k][j] }, n)
		return m + 1e-4*1e-9
	})
	expect("input gradient of "+what, di, n, in, func(i, j int) float64 {
		s, _ := mag(func(k int) float64 { return D[i][k] * w[j][k] }, out)
		return s
	}, func(i, j int) float64 {
		_, m := mag(func(k int) float64 { return D[i][k] * w[j][k] }, out)
		return m + 1e-4*1e-9
	})
}

// kept checks that a backward pass has left batch and parameters alone
func kept(what string, l Layer, d layerDim, x Matrix, x0, w0, b0 [][]float64) {
	unchanged(what+": batch", x, len(x0), d.in, x0)
	w1, b1 := params(l)
	unchanged(what+": weights", *w1, d.in, d.out, w0)
	unchanged(what+": biases", *b1, 1, d.out, b0)
}

func driveC09() {
	r := &rng{9}
	for _, lc := range layerCases[:4] {
		for _, d := range layerDims {
			for si, slope := range lc.slopes {
				if si > 0 && d.in*d.out*d.rows > 600 {
					continue
				}
				l, err := lc.make(d.in, d.out, slope)
				if err != nil {
					continue
				}
				for rep := 0; rep < 4; rep++ {
					setParams(r, l, d.in, d.out, []int{0, 1, 3, 0}[rep])
					rows := d.rows
					if rep > 0 && rows < 30 {
						rows = 1 + r.intn(6)
					}
					x := gen(r, rows, d.in, []int{0, 1, 0, 1}[rep])
					g := gen(r, rows, d.out, []int{0, 1, 3, 1}[rep])
					if rep == 1 {
						g = spread(r, rows, d.out, 1e9)
					}
					zeroSome(r, l, x)
					w, b := params(l)
					if lc.name == "sigmoid" && rep == 3 {
						for j := range b.M[0] {
							b.M[0][j] = []float64{-25, 25, -17, 17, 0, -40, 30}[r.intn(7)]
						}
					}
					x0, w0, b0, g0 := clone(x.M), clone(w.M), clone(b.M), clone(g.M)
					what := fmt.Sprintf("%s layer %dx%d (slope %v), backward pass %d, %s %s %s %s", lc.name, d.in, d.out, slope, rep, about("x", x0), about("weights", w0), about("biases", b0), about("gradient", g0))
					try(what, func() {
						if rep == 2 { // an earlier pass on another batch leaves nothing behind
							l.Forward(gen(r, 1+r.intn(5), d.in, 0))
						}
						if _, err := l.Forward(x); err != nil {
							rfail("%s: Forward: %v", what, err)
							return
						}
						z, mag := preRef(x0, w0, b0)
						D := clone(g0)
						for i := range D {
							for j := range D[i] {
								if z[i][j] != 0 && math.Abs(z[i][j]) < 1e-12*mag[i][j] {
									return // the sign of the pre-activation depends on rounding
								}
								D[i][j] *= lc.prime(z[i][j], slope)
							}
						}
						dw, db, di, err := l.Backward(x, g)
						if err != nil {
							rfail("%s: error %v", what, err)
							return
						}
						products(what, dw, db, di, x0, w0, D)
						separate(what, dw, x, *w, *b, db, di)
						separate(what, db, x, *w, *b, di)
						separate(what, di, x, *w, *b)
					})
					kept(what, l, d, x, x0, w0, b0)
				}
			}
		}
		wrongWidths(r, lc.name, lc.make)
	}
}

// wrongWidths: batches and gradients of the wrong width are refused
func wrongWidths(r *rng, name string, mk func(in, out int, slope float64) (Layer, error)) {
	for in := 1; in <= 4; in++ {
		for out := 1; out <= 4; out++ {
			for xc := 1; xc <= 7; xc++ {
				for gc := 1; gc <= 7; gc++ {
					if xc == in && gc == out {
						continue
					}
					l, _ := mk(in, out, 0.5)
					n := 1 + r.intn(3)
					what := fmt.Sprintf("%s layer %dx%d, backward pass on a batch of width %d with a gradient of width %d", name, in, out, xc, gc)
					try(what, func() {
						if _, err := l.Forward(gen(r, n, in, 0)); err != nil {
							rfail("%s: Forward: %v", what, err)
							return
						}
						if _, _, _, err := l.Backward(gen(r, n, xc, 0), gen(r, n, gc, 0)); err == nil {
							rfail("%s: no error", what)
						}
					})
				}
			}
		}
	}
}

func driveC10() {
	r := &rng{10}
	lc := layerCases[5]
	for _, d := range layerDims {
		l, err := lc.make(d.in, d.out, 0)
		if err != nil {
			continue
		}
		sl := l.(*SoftmaxLayer)
		for rep := 0; rep < 6; rep++ {
			if rep > 3 && d.in*d.out*d.rows > 3000 {
				continue
			}
			if d.out > 300 && rep > 0 {
				continue
			}
			setParams(r, l, d.in, d.out, []int{0, 1, 1, 1, 0, 1}[rep])
			rows := d.rows
			if rep > 1 && rows < 30 {
				rows = 1 + r.intn(6)
			}
			x := gen(r, rows, d.in, 1)
			w, b := params(l)
			for i := range x.M {
				for j := range x.M[i] {
					x.M[i][j] *= []float64{1, 0.2, 0.01, 1, 3, 0}[rep]
				}
			}
			g := gen(r, rows, d.out, []int{0, 1, 3, 1, 1, 0}[rep])
			x0, w0, b0, g0 := clone(x.M), clone(w.M), clone(b.M), clone(g.M)
			what := fmt.Sprintf("softmax layer %dx%d, backward pass %d, %s %s %s %s", d.in, d.out, rep, about("x", x0), about("weights", w0), about("biases", b0), about("gradient", g0))
			try(what, func() {
				if rep == 3 {
					l.Forward(gen(r, 1+r.intn(5), d.in, 0))
				}
				out, err := l.Forward(x)
				if err != nil {
					rfail("%s: Forward: %v", what, err)
					return
				}
				P := clone(out.M)
				D := clone(g0)
				for i := range D {
					s := 0.0
					for k := range D[i] {
						s += P[i][k] * g0[i][k]
					}
					for j := range D[i] {
						D[i][j] = P[i][j] * (g0[i][j] - s)
					}
				}
				dw, db, di, err := l.Backward(x, g)
				if err != nil {
					rfail("%s: error %v", what, err)
					return
				}
				near3(what, dw, db, di, x0, w0, D, 1e-8)
				unchanged(what+": outputs", out, rows, d.out, P)
				unchanged(what+": gradient", g, rows, d.out, g0)
				separate(what, dw, x, *w, *b, db, di, g, out)
				separate(what, db, x, *w, *b, di, g, out)
				separate(what, di, x, *w, *b, g, out)
				// the shortcut
				y := gen(r, rows, d.out, 0)
				for i := range y.M {
					hot := r.intn(d.out)
					for j := range y.M[i] {
						y.M[i][j] = 0
						if j == hot {
							y.M[i][j] = 1
						}
						D[i][j] = (P[i][j] - y.M[i][j]) / float64(rows)
					}
				}
				y0 := clone(y.M)
				what := "cross-entropy shortcut, " + about("targets", y0) + " " + what
				dw, db, di, err = sl.BackwardCrossEntropy(x, y, out)
				if err != nil {
					rfail("%s: error %v", what, err)
					return
				}
				near3(what, dw, db, di, x0, w0, D, 1e-10)
				unchanged(what+": outputs", out, rows, d.out, P)
				unchanged(what+": targets", y, rows, d.out, y0)
				separate(what, dw, x, *w, *b, db, di, y, out)
				separate(what, db, x, *w, *b, di, y, out)
				separate(what, di, x, *w, *b, y, out)
			})
			kept(what, l, d, x, x0, w0, b0)
		}
	}
	wrongWidths(r, "softmax", lc.make)
	dims := []int{1, 2, 3, 5}
	for _, in := range dims {
		for _, out := range dims {
			for _, xc := range dims {
				for _, yc := range dims {
					for _, pc := range dims {
						for _, yr := range []int{1, 2, 3} {
							for _, xr := range []int{1, 2, 3} {
								if xc == in && yc == out && pc == out && yr == 2 && xr == 2 {
									continue
								}
								l, _ := NewSoftmaxLayer(in, out)
								what := fmt.Sprintf("softmax layer %dx%d, cross-entropy shortcut on a batch %dx%d, targets %dx%d, outputs 2x%d", in, out, xr, xc, yr, yc, pc)
								try(what, func() {
									y := gen(r, yr, yc, 0)
									for i := range y.M {
										for j := range y.M[i] {
											y.M[i][j] = float64(r.intn(2))
										}
									}
									l.Forward(gen(r, 2, in, 0))
									if _, _, _, err := l.BackwardCrossEntropy(gen(r, xr, xc, 0), y, gen(r, 2, pc, 1)); err == nil {
										rfail("%s: no error", what)
									}
								})
							}
						}
					}
				}
			}
		}
	}
	for n := 1; n <= 4; n++ {
		for m := 1; m <= 4; m++ {
			if n != m {
				l, _ := NewSoftmaxLayer(2, 3)
				what := fmt.Sprintf("softmax layer 2x3, backward pass with a gradient of %d rows after a batch of %d", m, n)
				try(what, func() {
					x := gen(r, n, 2, 0)
					l.Forward(x)
					if _, _, _, err := l.Backward(x, gen(r, m, 3, 0)); err == nil {
						rfail("%s: no error", what)
					}
				})
			}
		}
	}
}

// near3 is products with an absolute allowance relative to the size of the factors
func near3(what string, dw, db, di Matrix, x, w, D [][]float64, rel float64) {
	n, in, out := len(x), len(w), len(w[0])
	big := 1.0
	for i := range D {
		for _, v := range D[i] {
			big = math.Max(big, math.Abs(v))
		}
	}
	tol := func(factor float64, terms int) func(i, j int) float64 {
		return func(i, j int) float64 { return rel / 1e-9 * big * factor * float64(terms) }
	}
	fx, fw := 1.0, 1.0
	for i := range x {
		for _, v := range x[i] {
			fx = math.Max(fx, math.Abs(v))
		}
	}
	for i := range w {
		for _, v := range w[i] {
			fw = math.Max(fw, math.Abs(v))
		}
	}
	sum := func(f func(k int) float64, n int) (s float64) {
		for k := 0; k < n; k++ {
			s += f(k)
		}
		return
	}
	expect("weight gradient of "+what, dw, in, out, func(i, j int) float64 { return sum(func(k int) float64 { return x[k][i] * D[k][j] }, n) }, tol(fx, n))
	expect("bias gradient of "+what, db, 1, out, func(i, j int) float64 { return sum(func(k int) float64 { return D[k][j] }, n) }, tol(1, n))
	expect("input gradient of "+what, di, n, in, func(i, j int) float64 { return sum(func(k int) float64 { return D[i][k] * w[j][k] }, out) }, tol(fw, out))
}

func driveC11() {
	r := &rng{11}
	lc := layerCases[4]
	rates := []float64{0, 0.1, 0.25, 0.5, 0.6, 0.75, 0.9, 0.99, 1e-3, 0.3}
	for _, d := range layerDims {
		for ri, rate := range rates {
			if d.in*d.out*d.rows > 300 && ri%3 != d.rows%3 {
				continue
			}
			l, err := lc.make(d.in, d.out, rate)
			if err != nil {
				rfail("dropout layer %dx%d rate %v: constructor: %v", d.in, d.out, rate, err)
				continue
			}
			setParams(r, l, d.in, d.out, 1)
			w, b := params(l)
			x := gen(r, d.rows, d.in, 1)
			zeroSome(r, l, x)
			g := gen(r, d.rows, d.out, 1)
			x0, w0, b0, g0 := clone(x.M), clone(w.M), clone(b.M), clone(g.M)
			what := fmt.Sprintf("dropout layer %dx%d rate %v, %s %s %s", d.in, d.out, rate, about("x", x0), about("weights", w0), about("biases", b0))
			try(what, func() {
				for rep := 0; rep < 3; rep++ {
					z, mag := preRef(x0, w0, b0)
					out, err := l.Forward(x)
					if err != nil {
						rfail("%s: error %v", what, err)
						return
					}
					if !wellShaped(what, out, d.rows, d.out) {
						return
					}
					D := clone(g0)
					for i := range D {
						for j := range D[i] {
							a := math.Max(z[i][j], 0)
							k := a / (1 - rate)
							o := out.M[i][j]
							switch {
							case math.Abs(z[i][j]) < 1e-12*mag[i][j] && z[i][j] != 0:
								return
							case near(o, 0, 1e-30) && a > 0:
								D[i][j] = 0
								if rate == 0 {
									rfail("%s: activation (%d,%d) is dropped at rate 0", what, i, j)
									return
								}
							case near(o, k, mag[i][j]/(1-rate)):
								if z[i][j] <= 0 {
									D[i][j] = 0
								} else {
									D[i][j] = g0[i][j] / (1 - rate)
								}
							default:
								rfail("%s: output (%d,%d) is %s, neither 0 nor %s", what, i, j, bits(o), bits(k))
								return
							}
						}
					}
					separate(what, out, x, *w, *b)
					g := Matrix{d.rows, d.out, clone(g0)}
					dw, db, di, err := l.Backward(x, g)
					if err != nil {
						rfail("%s: Backward: %v", what, err)
						return
					}
					products("backward pass of "+what, dw, db, di, x0, w0, D)
					inf, err := l.(*DropoutLayer).ForwardNoDropout(x)
					if err != nil {
						rfail("%s: inference: %v", what, err)
						return
					}
					expect("inference pass of "+what, inf, d.rows, d.out, func(i, j int) float64 { return math.Max(z[i][j], 0) }, func(i, j int) float64 { return mag[i][j] })
				}
			})
			kept(what, l, d, x, x0, w0, b0)
			_ = g
		}
	}
	// how often, and how independently, activations are kept: frequencies of
	// many draws, with bounds no correct implementation misses (8 sigma)
	for _, sh := range [][3]int{{1, 1, 1}, {200, 50, 1}, {1, 400, 2}, {400, 1, 2}, {64, 64, 1}} {
		for _, rate := range []float64{0, 0.004, 0.1, 0.3, 0.5, 0.7, 0.9, 0.95, 0.996} {
			rows, cols := sh[0], sh[1]
			l, _ := NewDropoutLayer(1, cols, rate)
			for j := 0; j < cols; j++ {
				l.Weights.M[0][j] = 1
			}
			x := gen(r, rows, 1, 0)
			for i := range x.M {
				x.M[i][0] = 1 + float64(i%3)
			}
			passes := 12
			if rows*cols == 1 {
				passes = 6000
			}
			what := fmt.Sprintf("dropout layer 1x%d rate %v on %d rows", cols, rate, rows)
			try(what, func() {
				total, kept := 0.0, 0.0
				var pairs [6]float64
				var npairs [6]float64
				var prev [][]bool
				for p := 0; p < passes; p++ {
					o, err := l.Forward(x)
					if err != nil {
						rfail("%s: error %v", what, err)
						return
					}
					now := make([][]bool, rows)
					for i := range now {
						now[i] = make([]bool, cols)
						for j := range now[i] {
							now[i][j] = o.M[i][j] != 0
							total++
							if now[i][j] {
								kept++
							}
						}
					}
					agree := func(k int, a, b bool) {
						npairs[k]++
						if a == b {
							pairs[k]++
						}
					}
					for i := range now {
						for j := range now[i] {
							if j > 0 {
								agree(0, now[i][j], now[i][j-1])
								agree(1, now[i][j], now[i][0])
							}
							if i > 0 {
								agree(2, now[i][j], now[i-1][j])
								agree(3, now[i][j], now[0][j])
							}
							if prev != nil {
								agree(4, now[i][j], prev[i][j])
							}
							if i > 0 && j > 0 {
								agree(5, now[i][j], now[i-1][j-1])
							}
						}
					}
					prev = now
				}
				q := 1 - rate
				if math.Abs(kept-total*q) > 8*math.Sqrt(total*q*rate)+1e-6 {
					rfail("%s: %v of %v activations kept in %d passes, expected a fraction of %v", what, kept, total, passes, q)
				}
				e := q*q + rate*rate
				for k, n := range npairs {
					// pairs are dependent when they share an entry; allow for it
					if n >= 200 && rate >= 0.05 && rate <= 0.95 && math.Abs(pairs[k]-n*e) > 8*math.Sqrt(n*e*(1-e))*12+1e-6 && (k != 4 || rows*cols > 1) {
						rfail("%s: keep decisions are not independent (relation %d: %v of %v pairs agree, expected a fraction of %v)", what, k, pairs[k], n, e)
					}
				}
			})
		}
	}
}
