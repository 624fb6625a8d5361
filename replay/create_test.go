package nn

import (
	"fmt"
	"math"
)

func init() {
	replayDrivers["C21"] = driveC21
}

var createSizes = []int{math.MinInt32, -1000, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000}
var createReals = []float64{math.Inf(-1), -1e300, -2, -1, -0.5, -1e-3, -1e-9, -1e-300, -5e-324, math.Copysign(0, -1), 0, 5e-324, 1e-300, 1e-9, 1e-3, 0.1, 0.5, 0.9, 0.99, math.Nextafter(1, 0), 1, math.Nextafter(1, 2), 1.0000001, 1.5, 2, 7, 1e3, 1e300, math.Inf(1)}

// layerFields reads the settings of a layer as a user sees them
func layerFields(l Layer) (in, out int, w, b *Matrix, extra float64) {
	switch t := l.(type) {
	case *HiddenLayer:
		return t.InputSize, t.OutputSize, t.Weights, t.Biases, 0
	case *LinearLayer:
		return t.InputSize, t.OutputSize, t.Weights, t.Biases, 0
	case *SigmoidLayer:
		return t.InputSize, t.OutputSize, t.Weights, t.Biases, 0
	case *LeakyLayer:
		return t.InputSize, t.OutputSize, t.Weights, t.Biases, t.Slope
	case *SoftmaxLayer:
		return t.InputSize, t.OutputSize, t.Weights, t.Biases, 0
	case *DropoutLayer:
		return t.InputSize, t.OutputSize, t.Weights, t.Biases, t.Dropout
	}
	return
}

func layerAllowed(kind string, a, b int, x float64) bool {
	if a < 1 || b < 1 {
		return false
	}
	switch kind {
	case "leaky":
		return !(x < 0)
	case "dropout":
		return !(x < 0 || x > 1)
	}
	return true
}

func layerExtra(kind string, x float64) float64 {
	if kind == "leaky" || kind == "dropout" {
		return x
	}
	return 0
}

func driveC21() {
	zero := func(i, j int) float64 { return 0 }
	var last []Matrix
	check := func(lc layerCase, a, b int, x float64) {
		what := fmt.Sprintf("new %s layer (%d,%d,%s)", lc.name, a, b, bits(x))
		try(what, func() {
			l, err := lc.make(a, b, x)
			if ok := layerAllowed(lc.name, a, b, x); ok != (err == nil) {
				rfail("%s: allowed=%v but error is %v", what, ok, err)
				return
			} else if !ok {
				return
			}
			in, out, w, bb, e := layerFields(l)
			if in != a || out != b || !same(e, layerExtra(lc.name, x)) || math.Signbit(e) != math.Signbit(layerExtra(lc.name, x)) {
				rfail("%s: has sizes %d,%d and setting %s", what, in, out, bits(e))
				return
			}
			if w == nil || bb == nil {
				rfail("%s: has no parameters", what)
				return
			}
			expect(what+": weights", *w, a, b, zero, nil)
			expect(what+": biases", *bb, 1, b, zero, nil)
			separate(what+": weights", *w, append(last, *bb)...)
			separate(what+": biases", *bb, last...)
			if a*b <= 64 {
				last = append(last, *w, *bb)
				if len(last) > 12 {
					last = last[2:]
				}
			}
		})
	}
	for _, lc := range layerCases {
		for _, a := range createSizes {
			for _, b := range createSizes {
				if a > 100 && b > 100 && (a+b)%3 != 0 {
					continue
				}
				check(lc, a, b, 0.25)
			}
		}
		for _, x := range createReals {
			for _, d := range [][2]int{{1, 1}, {2, 3}, {3, 2}, {0, 1}, {1, 0}, {16, 1}, {1, 40}} {
				check(lc, d[0], d[1], x)
			}
		}
	}
	for _, n := range createSizes {
		n := n
		loss := func(kind string, err error, size func() int) {
			if (n >= 1) != (err == nil) {
				rfail("new %s loss of size %d: error is %v", kind, n, err)
			} else if n >= 1 && size() != n {
				rfail("new %s loss of size %d: has size %d", kind, n, size())
			}
		}
		try(fmt.Sprintf("new loss of size %d", n), func() {
			a, e := NewMeanSquaredLoss(n)
			loss("mean squared", e, func() int { return a.Size })
			b, e := NewMeanAbsoluteLoss(n)
			loss("mean absolute", e, func() int { return b.Size })
			c, e := NewCrossEntropyLoss(n)
			loss("cross entropy", e, func() int { return c.Size })
			d, e := NewBinaryCrossEntropyLoss(n)
			loss("binary cross entropy", e, func() int { return d.Size })
		})
	}
	exact := func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }
	for _, lr := range createReals {
		for _, de := range createReals {
			for k, x := range createReals {
				try(fmt.Sprintf("new optimizer (%v,%v,%v)", lr, de, x), func() {
					s, err := NewSGDOptimizer(lr, de, x)
					if ok := lr > 0 && !(de < 0) && !(x < 0); ok != (err == nil) {
						rfail("NewSGDOptimizer(%s,%s,%s): allowed=%v but error is %v", bits(lr), bits(de), bits(x), ok, err)
					} else if ok && !(exact(s.LearningRate, lr) && exact(s.Decay, de) && exact(s.Momentum, x)) {
						rfail("NewSGDOptimizer(%s,%s,%s): has %v,%v,%v", bits(lr), bits(de), bits(x), s.LearningRate, s.Decay, s.Momentum)
					}
					y, z := createReals[(k*5+3)%len(createReals)], createReals[(k*11+7)%len(createReals)]
					o, err := NewAdamOptimizer(lr, de, x, y, z)
					if ok := lr > 0 && !(de < 0); ok != (err == nil) {
						rfail("NewAdamOptimizer(%s,%s,%s,%s,%s): allowed=%v but error is %v", bits(lr), bits(de), bits(x), bits(y), bits(z), ok, err)
					} else if ok && !(exact(o.LearningRate, lr) && exact(o.Decay, de) && exact(o.Epsilon, x) && exact(o.Beta1, y) && exact(o.Beta2, z)) {
						rfail("NewAdamOptimizer(%s,%s,%s,%s,%s): has %v,%v,%v,%v,%v", bits(lr), bits(de), bits(x), bits(y), bits(z), o.LearningRate, o.Decay, o.Epsilon, o.Beta1, o.Beta2)
					}
				})
			}
		}
	}
	r := &rng{21}
	for _, lc := range layerCases {
		var all []float64 // in units of the standard deviation
		for _, d := range [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 7}, {7, 1}, {2, 2}, {3, 5}, {5, 3}, {8, 8}, {10, 4}, {4, 10}, {16, 17}, {17, 16}, {33, 5}, {5, 33}, {64, 64}, {1, 300}, {300, 1}, {100, 50}, {50, 100}, {128, 10}, {10, 128}, {129, 129}, {256, 20}, {257, 3}, {784, 30}, {1000, 10}, {10, 1000}} {
			for rep := 0; rep < 3; rep++ {
				a, b := d[0], d[1]
				what := fmt.Sprintf("Init of a %s layer (%d,%d)", lc.name, a, b)
				l, err := lc.make(a, b, 0.25)
				if err != nil {
					rfail("new %s layer (%d,%d): %v", lc.name, a, b, err)
					return
				}
				w, bb := params(l)
				if rep > 0 { // not a new layer any more
					setParams(r, l, a, b, 1)
				}
				bw := clone(bb.M)
				pw, pb := w, bb
				try(what, func() {
					l.Init()
					in, out, w, bb, e := layerFields(l)
					if in != a || out != b || e != layerExtra(lc.name, 0.25) || w == nil || bb == nil {
						rfail("%s: afterwards it has sizes %d,%d and setting %v", what, in, out, e)
						return
					}
					_ = pw
					_ = pb
					if !unchanged(what+": biases", *bb, 1, b, bw) || !wellShaped(what+": weights", *w, a, b) {
						return
					}
					initSample(what, w.M, a, &all)
				})
			}
		}
		moments(fmt.Sprintf("Init of %s layers", lc.name), all)
	}
}

// initSample: one initialised weight matrix
func initSample(what string, w [][]float64, inputs int, all *[]float64) {
	std := math.Sqrt(2 / float64(inputs))
	seen := map[float64]string{}
	var s []float64
	dup := 0
	for i := range w {
		for j := range w[i] {
			x := w[i][j]
			if math.IsNaN(x) || math.Abs(x) > 9*std {
				rfail("%s: weight (%d,%d) is %s, not a standard normal draw times %v", what, i, j, bits(x), std)
				return
			}
			if p, ok := seen[math.Abs(x)]; ok {
				if dup++; dup > 4 || dup > 1 && len(w)*len(w[0]) <= 1000 || x == 0 {
					rfail("%s: weight (%d,%d) is %s as is weight %s", what, i, j, bits(x), p)
					return
				}
			}
			seen[math.Abs(x)] = fmt.Sprintf("(%d,%d)", i, j)
			s = append(s, x/std)
			*all = append(*all, x/std)
		}
	}
	moments(what, s)
	// every row and every column by itself
	for i := range w {
		var q []float64
		for j := range w[i] {
			q = append(q, w[i][j]/std)
		}
		moments(fmt.Sprintf("%s: row %d", what, i), q)
	}
	for j := range w[0] {
		var q []float64
		for i := range w {
			q = append(q, w[i][j]/std)
		}
		moments(fmt.Sprintf("%s: column %d", what, j), q)
	}
	// neighbours are independent
	for _, lag := range []int{1, 2, 3, len(w[0]), len(w[0]) + 1} {
		if len(s) < 200 || lag >= len(s)/2 {
			continue
		}
		c := 0.0
		for i := lag; i < len(s); i++ {
			c += s[i] * s[i-lag]
		}
		if z := c / math.Sqrt(float64(len(s)-lag)); math.Abs(z) > 8 {
			rfail("%s: weights %d apart are correlated (z=%.1f over %d weights)", what, lag, z, len(s))
			return
		}
	}
}

// moments: a sample of standard normal numbers; bounds that one in 1e12 samples exceeds
func moments(what string, s []float64) {
	n := float64(len(s))
	if n < 60 {
		return
	}
	var m, v, k, big float64
	for _, x := range s {
		m, v, k = m+x, v+x*x, k+x*x*x*x
		big = math.Max(big, math.Abs(x))
	}
	m, v, k = m/n, v/n, k/n
	if math.Abs(m) > 7.5/math.Sqrt(n) {
		rfail("%s: mean %.4f standard deviations over %d weights, expected 0", what, m, len(s))
		return
	}
	if math.Abs(v-1) > 10*math.Sqrt(2/n)+30/n {
		rfail("%s: variance is %.4f times 2/inputs over %d weights", what, v, len(s))
		return
	}
	if n > 20000 && (math.Abs(k-3) > 12*math.Sqrt(96/n) || big < 3.2) {
		rfail("%s: fourth moment %.3f and largest %.2f over %d weights: not normally distributed", what, k, big, len(s))
	}
}
