package nn

import (
	"fmt"
	"math"
)

func init() {
	replayDrivers["C07"] = driveC07
	replayDrivers["C12"] = driveC12
	replayDrivers["C13"] = driveC13
	replayDrivers["C14"] = driveC14
	replayDrivers["C15"] = driveC15
	replayDrivers["C16"] = driveC16
	replayDrivers["C17"] = driveC17
	replayDrivers["C18"] = driveC18
}

// plain keeps the shapes whose cell count is at most n.
func plain(n int) [][2]int {
	var o [][2]int
	for _, s := range shapes {
		if s[0]*s[1] <= n {
			o = append(o, s)
		}
	}
	return o
}

// spread: numbers of many magnitudes, all finite
func spread(r *rng, rows, cols int, mag float64) Matrix {
	m := gen(r, rows, cols, 1)
	for i := range m.M {
		for j := range m.M[i] {
			switch r.intn(6) {
			case 0:
				m.M[i][j] = 0
			case 1:
				m.M[i][j] = math.Copysign(0, -1)
			case 2:
				m.M[i][j] *= mag
			case 3:
				m.M[i][j] = small[r.intn(len(small))]
			case 4:
				m.M[i][j] *= 1e-6
			}
		}
	}
	return m
}

func softmaxRef(row []float64) []float64 {
	big := math.Inf(-1)
	for _, x := range row {
		big = math.Max(big, x)
	}
	o := make([]float64, len(row))
	sum := 0.0
	for j, x := range row {
		o[j] = math.Exp(x - big)
		sum += o[j]
	}
	for j := range o {
		o[j] /= sum
	}
	return o
}

func sigmoidRef(x float64) float64 { return 1 / (1 + math.Exp(-x)) }

func driveC07() {
	r := &rng{7}
	for _, s := range plain(20000) {
		R, C := s[0], s[1]
		for kind := 0; kind < 5; kind++ {
			if R*C > 200 && kind%2 == 0 {
				continue
			}
			var z0 [][]float64
			if kind == 4 {
				z0 = spread(r, R, C, 200).M
			} else {
				z0 = gen(r, R, C, kind).M
			}
			other := gen(r, R, C, 1)
			other0 := clone(other.M)
			abs1 := func(i, j int) float64 { return 1 }
			act := func(name string, f func(m Matrix) Matrix, want func(x float64) float64, scale func(i, j int) float64) {
				what := fmt.Sprintf("%s of %dx%d %s", name, R, C, about("z", z0))
				m := mof(clone(z0))
				try(what, func() {
					g := f(m)
					expect(what, g, R, C, func(i, j int) float64 { return want(z0[i][j]) }, scale)
				})
				unchanged(what, other, R, C, other0)
			}
			act("RELU", RELU, func(x float64) float64 { return math.Max(x, 0) }, nil)
			act("Sigmoid", Sigmoid, sigmoidRef, func(i, j int) float64 { return 1e-3 })
			for _, sl := range []float64{0, 0.01, 0.3, 1, 2, 5} {
				act(fmt.Sprintf("LeakyRELU slope %v", sl), func(m Matrix) Matrix { return LeakyRELU(m, sl) }, func(x float64) float64 {
					if x < 0 {
						return x * sl
					}
					return x
				}, nil)
			}
			// gradients
			gk := kind
			if kind == 4 {
				gk = 1
			}
			g0 := gen(r, R, C, gk).M
			grad := func(name string, f func(z, g Matrix) Matrix, want func(z, g float64) float64, zin, gin bool, scale func(i, j int) float64) {
				what := fmt.Sprintf("%s of %dx%d %s %s", name, R, C, about("z", z0), about("gradient", g0))
				z, g := mof(clone(z0)), mof(clone(g0))
				try(what, func() {
					o := f(z, g)
					expect(what, o, R, C, func(i, j int) float64 { return want(z0[i][j], g0[i][j]) }, scale)
				})
				if !zin {
					unchanged(what, z, R, C, z0)
				}
				if !gin {
					unchanged(what, g, R, C, g0)
				}
			}
			grad("RELUPrime", func(z, g Matrix) Matrix { return RELUPrime(g, z) }, func(z, g float64) float64 {
				if z <= 0 {
					return 0
				}
				return g
			}, false, true, nil)
			for _, sl := range []float64{0, 0.01, 0.3, 1, 2, 5} {
				grad(fmt.Sprintf("LeakyRELUPrime slope %v", sl), func(z, g Matrix) Matrix { return LeakyRELUPrime(g, z, sl) }, func(z, g float64) float64 {
					if z < 0 {
						return g * sl
					}
					return g
				}, false, true, nil)
			}
			if kind != 2 {
				grad("SigmoidPrime", SigmoidPrime, func(z, g float64) float64 {
					a := sigmoidRef(z)
					return g * a * (1 - a)
				}, true, false, func(i, j int) float64 { return math.Abs(g0[i][j]) * 1e-3 })
			}
			_ = abs1
		}
		for _, mag := range []float64{1, 10, 200, 1e5, 1e300} {
			z0 := spread(r, R, C, mag).M
			if mag == 10 && C > 1 {
				for i := range z0 { // rows of large negative numbers
					for j := range z0[i] {
						z0[i][j] -= 2000
					}
				}
			}
			if mag == 200 && R%2 == 0 {
				for i := range z0 {
					z0[i][(i*7)%C] = 720
				}
			}
			what := fmt.Sprintf("Softmax of %dx%d %s", R, C, about("z", z0))
			m := mof(clone(z0))
			try(what, func() {
				o := Softmax(m)
				want := make([][]float64, R)
				for i := range want {
					want[i] = softmaxRef(z0[i])
				}
				if expect(what, o, R, C, func(i, j int) float64 { return want[i][j] }, func(i, j int) float64 { return 1e-4 }) {
					for i := range o.M {
						sum := 0.0
						for _, p := range o.M[i] {
							if p < 0 || math.IsNaN(p) {
								rfail("%s: weight %v", what, p)
								return
							}
							sum += p
						}
						if math.Abs(sum-1) > 1e-9 {
							rfail("%s: weights of row %d add up to %v", what, i, sum)
							return
						}
					}
				}
			})
		}
	}
}

// ---- losses

type lossCase struct {
	name string
	make func(size int) (Loss, error)
	clip bool
}

var lossCases = []lossCase{
	{"mean squared", func(n int) (Loss, error) { l, e := NewMeanSquaredLoss(n); return &l, e }, false},
	{"mean absolute", func(n int) (Loss, error) { l, e := NewMeanAbsoluteLoss(n); return &l, e }, false},
	{"cross-entropy", func(n int) (Loss, error) { l, e := NewCrossEntropyLoss(n); return &l, e }, true},
	{"binary cross-entropy", func(n int) (Loss, error) { l, e := NewBinaryCrossEntropyLoss(n); return &l, e }, true},
}

func clipRef(p float64) float64 {
	if p > 1-1e-7 {
		return 1 - 1e-7
	}
	if p < 1e-7 {
		return 1e-7
	}
	return p
}

// lossRef: value of the loss and a magnitude of its terms
func lossRef(kind int, p, y [][]float64) (float64, float64) {
	n := float64(len(p))
	sum, mag := 0.0, 0.0
	for i := range p {
		w := float64(len(p[i]))
		row := 0.0
		q := 0.0
		for j := range p[i] {
			switch kind {
			case 0:
				row += (p[i][j] - y[i][j]) * (p[i][j] - y[i][j]) / w
			case 1:
				row += math.Abs(p[i][j]-y[i][j]) / w
			case 2:
				q += clipRef(p[i][j]) * y[i][j]
			case 3:
				c := clipRef(p[i][j])
				row -= (y[i][j]*math.Log(c) + (1-y[i][j])*math.Log(1-c)) / w
			}
		}
		if kind == 2 {
			row = -math.Log(q)
		}
		sum += row
		mag += math.Abs(row)
	}
	return sum / n, mag / n
}

func gradRef(kind int, p, y float64, w, n float64) float64 {
	switch kind {
	case 0:
		return 2 * (p - y) / (w * n)
	case 1:
		if p > y {
			return 1 / (w * n)
		} else if p < y {
			return -1 / (w * n)
		}
		return 0
	case 2:
		return -y / (clipRef(p) * n)
	}
	c := clipRef(p)
	return -(y/c - (1-y)/(1-c)) / (w * n)
}

var edgeP = []float64{0, 1, 1e-7, 1 - 1e-7, 1e-8, 1 - 1e-8, 0.5, 5e-324, math.Nextafter(1e-7, 0), math.Nextafter(1e-7, 1), math.Nextafter(1, 0), math.Nextafter(1-1e-7, 1), math.Nextafter(1-1e-7, 0), 1e-12, 0.25, 1e-6, 1 - 1e-6, 0.9999, 2e-7, 1.5e-7}

// probs: predictions for a loss; style 0 small, 1 random in (0,1), 2 edges of [0,1], 3 beyond [0,1]
func probs(r *rng, R, C, style int) Matrix {
	m := gen(r, R, C, 1)
	for i := range m.M {
		for j := range m.M[i] {
			switch style {
			case 0:
				m.M[i][j] = []float64{0.1, 0.5, 0.9, 0.25}[r.intn(4)]
			case 1:
				m.M[i][j] = r.unit()
			case 2:
				m.M[i][j] = edgeP[r.intn(len(edgeP))]
			default:
				m.M[i][j] = []float64{-0.5, 1.5, 2, -1, -1e-9, 1 + 1e-9, 0.3, 1e9, -1e9}[r.intn(9)]
			}
		}
	}
	return m
}

// targets: one-hot for kind 2, binary (or any) otherwise
func targets(r *rng, R, C, kind int, p [][]float64, style int) Matrix {
	m := gen(r, R, C, 1)
	for i := range m.M {
		hot := r.intn(C)
		for j := range m.M[i] {
			switch {
			case kind == 2:
				m.M[i][j] = 0
				if j == hot {
					m.M[i][j] = 1
				}
			case kind == 3 && style != 1:
				m.M[i][j] = float64(r.intn(2))
			case kind == 3:
				m.M[i][j] = r.unit()
			case r.intn(3) == 0:
				m.M[i][j] = p[i][j]
			case r.intn(4) == 0:
				m.M[i][j] = p[i][j] + []float64{1e-10, -1e-10, 1e-12, -1e-6, 1e-8, 1e-3}[r.intn(6)]
			case r.intn(8) == 0:
				p[i][j] = []float64{1e-300, -1e-300, 5e-324, 1e-20, -1e-12}[r.intn(5)]
				m.M[i][j] = 0
			}
		}
	}
	return m
}

func lossRuns(f func(kind int, lc lossCase, l Loss, p, y Matrix, what string)) {
	r := &rng{12}
	for kind, lc := range lossCases {
		for _, s := range plain(20000) {
			R, C := s[0], s[1]
			for style := 0; style < 4; style++ {
				reps := 3
				if R*C > 60 {
					reps = 1
				}
				for rep := 0; rep < reps; rep++ {
					var p Matrix
					if kind < 2 {
						p = gen(r, R, C, []int{0, 1, 3, 1}[style])
					} else {
						p = probs(r, R, C, style)
					}
					y := targets(r, R, C, kind, p.M, style)
					l, err := lc.make(C)
					what := fmt.Sprintf("%s loss of %dx%d %s %s", lc.name, R, C, about("predictions", p.M), about("targets", y.M))
					if err != nil {
						rfail("%s: constructor: %v", what, err)
						continue
					}
					f(kind, lc, l, p, y, what)
				}
			}
		}
	}
}

// lossMismatch: mismatched shapes must be refused by f
func lossMismatch(op string, f func(l Loss, p, y Matrix) error) {
	r := &rng{13}
	dims := []int{1, 2, 3, 4, 7, 8}
	for _, lc := range lossCases {
		for _, size := range dims {
			for _, pr := range dims {
				for _, pc := range dims {
					for _, yr := range dims {
						for _, yc := range dims {
							if pr == yr && pc == size && yc == size {
								continue
							}
							l, _ := lc.make(size)
							p, y := probs(r, pr, pc, 1), probs(r, yr, yc, 1)
							what := fmt.Sprintf("%s of %s loss of size %d with predictions %dx%d and targets %dx%d", op, lc.name, size, pr, pc, yr, yc)
							try(what, func() {
								if f(l, p, y) == nil {
									rfail("%s: no error", what)
								}
							})
						}
					}
				}
			}
		}
	}
}

func driveC12() {
	lossRuns(func(kind int, lc lossCase, l Loss, p, y Matrix, what string) {
		p0, y0 := clone(p.M), clone(y.M)
		want, mag := lossRef(kind, p0, y0)
		for n := 0; n < 2; n++ {
			try(what, func() {
				got, err := l.Forward(p, y)
				if err != nil {
					rfail("%s: error %v", what, err)
				} else if !near(got, want, mag) {
					rfail("%s: value %s, expected %s", what, bits(got), bits(want))
				}
			})
			unchanged(what, p, p.Rows, p.Cols, p0)
			unchanged(what, y, p.Rows, p.Cols, y0)
		}
	})
	lossMismatch("Forward", func(l Loss, p, y Matrix) error { _, e := l.Forward(p, y); return e })
}

func driveC13() {
	lossRuns(func(kind int, lc lossCase, l Loss, p, y Matrix, what string) {
		p0, y0 := clone(p.M), clone(y.M)
		R, C := p.Rows, p.Cols
		for n := 0; n < 2; n++ {
			try(what, func() {
				g, err := l.Backward(p, y)
				if err != nil {
					rfail("%s: Backward: error %v", what, err)
					return
				}
				expect("gradient of "+what, g, R, C, func(i, j int) float64 {
					return gradRef(kind, p0[i][j], y0[i][j], float64(C), float64(R))
				}, func(i, j int) float64 {
					if kind == 0 {
						return 1e-4 * (math.Abs(p0[i][j]) + math.Abs(y0[i][j]))
					}
					return 1e-3
				})
				separate("gradient of "+what, g, p, y)
			})
			unchanged(what, p, R, C, p0)
			unchanged(what, y, R, C, y0)
		}
	})
	lossMismatch("Backward", func(l Loss, p, y Matrix) error { _, e := l.Backward(p, y); return e })
}

func driveC14() {
	r := &rng{14}
	for _, s := range plain(20000) {
		R, C := s[0], s[1]
		for style := 0; style < 4; style++ {
			m := probs(r, R, C, style)
			m0 := clone(m.M)
			what := fmt.Sprintf("Clip of %dx%d %s", R, C, about("predictions", m0))
			try(what, func() {
				o := Clip(m)
				expect(what, o, R, C, func(i, j int) float64 { return clipRef(m0[i][j]) }, nil)
				separate(what, o, m)
				unchanged(what, m, R, C, m0)
			})
		}
	}
	finite := func(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }
	lossRuns(func(kind int, lc lossCase, l Loss, p, y Matrix, what string) {
		if kind < 2 {
			return
		}
		p0, y0 := clone(p.M), clone(y.M)
		try(what, func() {
			v, err := l.Forward(p, y)
			if err != nil {
				rfail("%s: error %v", what, err)
				return
			}
			want, mag := lossRef(kind, p0, y0)
			if !finite(v) {
				rfail("%s: value %v", what, v)
			} else if !near(v, want, mag) {
				rfail("%s: value %s, expected %s", what, bits(v), bits(want))
			}
			g, err := l.Backward(p, y)
			if err != nil {
				rfail("%s: error %v", what, err)
				return
			}
			for i := range g.M {
				for j := range g.M[i] {
					w := gradRef(kind, p0[i][j], y0[i][j], float64(p.Cols), float64(p.Rows))
					if !finite(g.M[i][j]) || !near(g.M[i][j], w, 1e-3) {
						rfail("%s: gradient (%d,%d) is %v, expected %v", what, i, j, g.M[i][j], w)
						return
					}
				}
			}
		})
		unchanged(what, p, p.Rows, p.Cols, p0)
		unchanged(what, y, p.Rows, p.Cols, y0)
	})
}

// ---- decoding, accuracy

// scores: kinds of score matrices: negatives, ties, values around 0.5, extremes (no NaN)
func scores(r *rng, R, C, kind int) Matrix {
	m := gen(r, R, C, 1)
	for i := range m.M {
		for j := range m.M[i] {
			switch kind {
			case 0:
				m.M[i][j] = -1 - r.unit()*5
			case 1:
				m.M[i][j] = float64(r.intn(3)) - 3
			case 2:
				m.M[i][j] = []float64{0.5, math.Nextafter(0.5, 0), math.Nextafter(0.5, 1), 0, 1, -0.5, 0.49, 0.51, 2, -3, 1e300, -1e300, math.Copysign(0, -1)}[r.intn(13)]
			case 3:
				m.M[i][j] = []float64{math.MaxFloat64, -math.MaxFloat64, -1e-300, 1e-300, math.Inf(1), math.Inf(-1), -1e308}[r.intn(7)]
			case 4: // one high score at a varying place
				m.M[i][j] = 0.1
				if j == (i*5+R)%C {
					m.M[i][j] = 0.9
				}
			case 5:
				m.M[i][j] = -math.MaxFloat64
				if r.intn(2) == 0 {
					m.M[i][j] = math.Inf(-1)
				}
			}
		}
	}
	return m
}

func argmaxRef(row []float64) int {
	k := 0
	for j := range row {
		if row[j] > row[k] {
			k = j
		}
	}
	return k
}

func driveC15() {
	r := &rng{15}
	for _, s := range append(append([][2]int{}, shapes...), [2]int{3, 5000}, [2]int{5000, 3}, [2]int{2, 70000}) {
		R, C := s[0], s[1]
		for kind := 0; kind < 7; kind++ {
			x := scores(r, R, C, kind)
			x0 := clone(x.M)
			what := fmt.Sprintf("%dx%d %s", R, C, about("scores", x0))
			try("RowMax of "+what, func() {
				o := RowMax(x)
				expect("RowMax of "+what, o, R, 1, func(i, j int) float64 { return float64(argmaxRef(x0[i])) }, nil)
				separate("RowMax of "+what, o, x)
			})
			unchanged("RowMax of "+what, x, R, C, x0)
			try("OutputBinaryValues of "+what, func() {
				o := OutputBinaryValues(x)
				expect("OutputBinaryValues of "+what, o, R, C, func(i, j int) float64 {
					if x0[i][j] < 0.5 {
						return 0
					}
					return 1
				}, nil)
				separate("OutputBinaryValues of "+what, o, x)
			})
			unchanged("OutputBinaryValues of "+what, x, R, C, x0)
		}
	}
}

func driveC16() {
	r := &rng{16}
	for _, s := range append(append([][2]int{}, shapes...), [2]int{3, 500}, [2]int{5000, 3}, [2]int{300, 300}) {
		R, C := s[0], s[1]
		for kind := 0; kind < 7; kind++ {
			x := scores(r, R, C, kind)
			y := scores(r, R, C, (kind+r.intn(7))%7)
			for i := range y.M {
				hot := r.intn(C)
				if r.intn(2) == 0 {
					hot = argmaxRef(x.M[i])
				}
				for j := range y.M[i] {
					switch {
					case r.intn(3) == 0 && kind != 3:
						y.M[i][j] = x.M[i][j] + []float64{0, 0.01, -0.01, 0.1, -0.1, 0.5, -0.5, 1, -1}[r.intn(9)]
					case kind%2 == 0:
						y.M[i][j] = 0
						if j == hot {
							y.M[i][j] = 1
						}
					case r.intn(2) == 0:
						y.M[i][j] = float64(r.intn(2))
					}
				}
			}
			x0, y0 := clone(x.M), clone(y.M)
			check := func(name string, f func() float64, count func() int, total int) {
				what := fmt.Sprintf("%s of %dx%d %s %s", name, R, C, about("scores", x0), about("targets", y0))
				try(what, func() {
					a := f()
					w := float64(count()) / float64(total)
					if !near(a, w, 1e-3) {
						rfail("%s: accuracy %v, expected %v", what, a, w)
					}
					if !(a >= 0 && a <= 1) {
						rfail("%s: accuracy %v", what, a)
					}
				})
				unchanged(what, x, R, C, x0)
				unchanged(what, y, R, C, y0)
			}
			for _, p := range []float64{0, 0.05, 0.5, 0.50000001, 1, 1e-9, 1e10, math.Inf(1), -1} {
				check(fmt.Sprintf("RegressionAccuracy precision %v", p), func() float64 { return RegressionAccuracy(x, y, p) }, func() int {
					n := 0
					for i := range x0 {
						for j := range x0[i] {
							if math.Abs(x0[i][j]-y0[i][j]) < p {
								n++
							}
						}
					}
					return n
				}, R*C)
			}
			check("CategoricalAccuracy", func() float64 { return CategoricalAccuracy(x, y) }, func() int {
				n := 0
				for i := range x0 {
					if y0[i][argmaxRef(x0[i])] == 1 {
						n++
					}
				}
				return n
			}, R)
			check("BinaryCategoricalAccuracy", func() float64 { return BinaryCategoricalAccuracy(x, y) }, func() int {
				n := 0
				for i := range x0 {
					for j := range x0[i] {
						b := 1.0
						if x0[i][j] < 0.5 {
							b = 0
						}
						if b == y0[i][j] {
							n++
						}
					}
				}
				return n
			}, R*C)
		}
	}
}

func driveC17() {
	r := &rng{17}
	for _, size := range []int{1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 1000, 1025} {
		for _, R := range []int{1, 2, 3, 5, 8, 17, 64, 65, 130, 257} {
			if R*size > 100000 {
				continue
			}
			for _, C := range []int{1, 2, 5} {
				for kind := 0; kind < 5; kind++ {
					x := gen(r, R, C, 1)
					for i := range x.M {
						c := float64(r.intn(size))
						switch kind {
						case 1:
							c = float64(size - 1)
						case 2:
							c = 0
						case 3:
							c = float64(i % size)
						case 4:
							c += []float64{0, 0.25, 0.75}[r.intn(3)]
						}
						x.M[i][0] = c
					}
					x0 := clone(x.M)
					what := fmt.Sprintf("SparseToOneHot of %dx%d %s with %d classes", R, C, about("classes", x0), size)
					try(what, func() {
						o, err := SparseToOneHot(x, size)
						if err != nil {
							rfail("%s: error %v", what, err)
							return
						}
						expect(what, o, R, size, func(i, j int) float64 {
							if j == int(x0[i][0]) {
								return 1
							}
							return 0
						}, nil)
						separate(what, o, x)
					})
					unchanged(what, x, R, C, x0)
					// one bad class at every kind of place
					for _, at := range []int{0, R - 1, R / 2} {
						for _, bad := range []float64{-1, float64(size), float64(size) + 0.5, -2, 1e9, -1e9, float64(size + 100), 1e18, -1e18, -1.5} {
							x.M[at][0] = bad
							what := fmt.Sprintf("SparseToOneHot of %d rows with class %v in row %d and %d classes", R, bad, at, size)
							x1 := clone(x.M)
							try(what, func() {
								if _, err := SparseToOneHot(x, size); err == nil {
									rfail("%s: no error", what)
								}
							})
							unchanged(what, x, R, C, x1)
							x.M[at][0] = x0[at][0]
						}
					}
				}
			}
		}
	}
	for _, size := range []int{0, -1, -5, -1 << 31, -1 << 62} {
		for _, R := range []int{1, 2, 3} {
			x := mof(make([][]float64, R))
			for i := range x.M {
				x.M[i] = []float64{0}
			}
			x.Cols = 1
			what := fmt.Sprintf("SparseToOneHot with %d classes", size)
			try(what, func() {
				if _, err := SparseToOneHot(x, size); err == nil {
					rfail("%s: no error", what)
				}
			})
		}
	}
}

func driveC18() {
	r := &rng{18}
	for _, n := range append(append([]int{}, seq(1, 40)...), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025) {
		for _, xc := range []int{1, 2, 3, 7, 20} {
			for _, yc := range []int{1, 2, 5} {
				if n > 130 && xc*yc > 4 {
					continue
				}
				for rep := 0; rep < 6; rep++ {
					x, y := gen(r, n, xc, 3), gen(r, n, yc, 3)
					// duplicates among the samples, but a tag in the target
					if rep == 1 {
						for i := range x.M {
							for j := range x.M[i] {
								x.M[i][j] = float64(i % 2)
							}
						}
					}
					if rep == 2 {
						for i := range y.M {
							for j := range y.M[i] {
								y.M[i][j] = 0
							}
						}
					}
					x0, y0 := clone(x.M), clone(y.M)
					what := fmt.Sprintf("ShuffleDataset of %d samples (%d and %d columns)", n, xc, yc)
					try(what, func() {
						a, b := ShuffleDataset(x, y)
						if !wellShaped(what+": samples", a, n, xc) || !wellShaped(what+": targets", b, n, yc) {
							return
						}
						want := map[string]int{}
						for i := range x0 {
							want[fmt.Sprint(x0[i], y0[i])]++
						}
						for i := range a.M {
							k := fmt.Sprint(a.M[i], b.M[i])
							if want[k] == 0 {
								rfail("%s: after shuffling, row %d pairs sample %v with target %v, which is no pair of the dataset (or one too many)", what, i, a.M[i], b.M[i])
								return
							}
							want[k]--
						}
						separate(what, a, b)
					})
				}
			}
		}
	}
}

func seq(a, b int) []int {
	var o []int
	for ; a <= b; a++ {
		o = append(o, a)
	}
	return o
}
