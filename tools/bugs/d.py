PRE = '''
package nn
import ("testing"; "math")
var _ = math.Abs
func mk(r, c int, f func(i, j int) float64) Matrix {
	d := make([][]float64, r)
	for i := range d { d[i] = make([]float64, c); for j := range d[i] { d[i][j] = f(i, j) } }
	return Matrix{r, c, d}
}
func one(i, j int) float64 { return 1 }
func cls(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b)) }
'''
BUGS = [
dict(id="c19-steps-momentum", prop="C19", needs="SGD with momentum and decay, three or more steps",
 breaks="the step counter is advanced by two for every step with momentum, so the learning rate decays twice as fast",
 edits=[("optimizers.go", """                                biases.M[i][j] += optimizer.biasMomentums.M[i][j]
                        }
                }
	} else {""", """                                biases.M[i][j] += optimizer.biasMomentums.M[i][j]
                        }
                }
		if optimizer.useDecay && optimizer.iterations > 1 {
			optimizer.iterations += 1
		}
	} else {""")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	o, _ := NewSGDOptimizer(0.5, 0.25, 0.5)
	w, b := mk(1, 1, one), mk(1, 1, one)
	ref, vel := 1.0, 0.0
	for k := 0; k < 6; k++ {
		if err := o.Update(&w, &b, mk(1, 1, one), mk(1, 1, one)); err != nil { t.Fatal(err) }
		vel = 0.5*vel - 0.5/(1+0.25*float64(k))
		ref += vel
		if !cls(w.M[0][0], ref) || !cls(b.M[0][0], ref) { t.Fatalf("step %d: %v %v, expected %v", k, w.M[0][0], b.M[0][0], ref) }
	}
}
'''),
dict(id="c19-steps-16bit", prop="C19", needs="SGD with decay and more than 65536 steps",
 breaks="the learning rate schedule starts over after 65536 steps",
 edits=[("optimizers.go", "optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))", "optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(uint16(optimizer.iterations))))", 1)],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	o, _ := NewSGDOptimizer(1, 1, 0)
	w, b, g := mk(1, 1, one), mk(1, 1, one), mk(1, 1, one)
	for k := 0; k < 65540; k++ {
		before := w.M[0][0]
		if err := o.Update(&w, &b, g, g); err != nil { t.Fatal(err) }
		if k > 65000 && !cls(before - w.M[0][0], 1/(1+float64(k))) { t.Fatalf("step %d moved by %v", k, before - w.M[0][0]) }
	}
}
'''),
dict(id="c19-velocity-kept", prop="C19", needs="SGD with momentum and decay where the velocity is carried over at least one step",
 breaks="the old velocity is scaled with the decayed learning rate as well",
 edits=[("optimizers.go", """		scaledMomentumsBiases := optimizer.biasMomentums.MulScalar(optimizer.Momentum)
""", """		scaledMomentumsBiases := optimizer.biasMomentums.MulScalar(optimizer.Momentum * optimizer.currentRate / optimizer.LearningRate)
""")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	o, _ := NewSGDOptimizer(0.5, 0.25, 0.5)
	w, b := mk(2, 1, one), mk(1, 1, one)
	ref, vel := 1.0, 0.0
	for k := 0; k < 6; k++ {
		if err := o.Update(&w, &b, mk(2, 1, one), mk(1, 1, one)); err != nil { t.Fatal(err) }
		vel = 0.5*vel - 0.5/(1+0.25*float64(k))
		ref += vel
		if !cls(w.M[0][0], ref) || !cls(b.M[0][0], ref) { t.Fatalf("step %d: %v %v, expected %v", k, w.M[0][0], b.M[0][0], ref) }
	}
}
'''),
dict(id="c20-lazy-squares", prop="C20", needs="Adam, a gradient entry that is exactly zero after a step in which it was not",
 breaks="the running mean of squares is not decayed where the gradient is exactly zero",
 edits=[("optimizers.go", """	optimizer.weightCache, err = scaledWeightMomentums.Add(scaledWeightGradients)
	if err != nil {
                return err
        }
""", """	for i := range dWeights.M {
		for j := range dWeights.M[i] {
			if dWeights.M[i][j] == 0 {
				scaledWeightMomentums.M[i][j] = optimizer.weightCache.M[i][j]
			}
		}
	}
	optimizer.weightCache, err = scaledWeightMomentums.Add(scaledWeightGradients)
	if err != nil {
                return err
        }
""")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	o, _ := NewAdamOptimizer(0.5, 0, 1e-3, 0.5, 0.75)
	w, b := mk(1, 2, one), mk(1, 2, one)
	ref, m, v := 1.0, 0.0, 0.0
	for k := 0; k < 4; k++ {
		g := float64(1 - k%2)
		if err := o.Update(&w, &b, mk(1, 2, func(i, j int) float64 { return g }), mk(1, 2, func(i, j int) float64 { return g })); err != nil { t.Fatal(err) }
		m, v = 0.5*m+0.5*g, 0.75*v+0.25*g*g
		ref -= 0.5 * (m / (1 - math.Pow(0.5, float64(k+1)))) / (math.Sqrt(v/(1-math.Pow(0.75, float64(k+1)))) + 1e-3)
		if !cls(w.M[0][1], ref) || !cls(b.M[0][1], ref) { t.Fatalf("step %d: %v %v, expected %v", k, w.M[0][1], b.M[0][1], ref) }
	}
}
'''),
dict(id="c20-correction-dropped", prop="C20", needs="Adam with a beta2 close to 1 after more than 500 steps",
 breaks="the correction of the running mean of squares is given up after 500 steps although it is still far from 1",
 edits=[("optimizers.go", """	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
""", """	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
	if optimizer.iterations >= 500 {
		correctedBiasCaches = optimizer.biasCache
	}
""")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	o, _ := NewAdamOptimizer(0.5, 0, 1e-3, 0.9, 0.999)
	w, b := mk(1, 1, one), mk(1, 1, one)
	ref, m, v := 1.0, 0.0, 0.0
	for k := 0; k < 700; k++ {
		g := 0.5
		if err := o.Update(&w, &b, mk(1, 1, func(i, j int) float64 { return g }), mk(1, 1, func(i, j int) float64 { return g })); err != nil { t.Fatal(err) }
		m, v = 0.9*m+0.1*g, 0.999*v+0.001*g*g
		ref -= 0.5 * (m / (1 - math.Pow(0.9, float64(k+1)))) / (math.Sqrt(v/(1-math.Pow(0.999, float64(k+1)))) + 1e-3)
		if math.Abs(w.M[0][0] - ref) > 1e-6 || math.Abs(b.M[0][0] - ref) > 1e-6 { t.Fatalf("step %d: %v %v, expected %v", k, w.M[0][0], b.M[0][0], ref) }
	}
}
'''),
dict(id="c20-decay-compounds", prop="C20", needs="Adam with decay, three or more steps",
 breaks="every step decays the already decayed rate once more",
 edits=[("optimizers.go", """                optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
""", """                optimizer.currentRate *= float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations))
""")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	o, _ := NewAdamOptimizer(0.5, 0.25, 1e-3, 0.9, 0.9)
	w, b := mk(1, 1, one), mk(1, 1, one)
	ref := 1.0
	for k := 0; k < 4; k++ {
		if err := o.Update(&w, &b, mk(1, 1, one), mk(1, 1, one)); err != nil { t.Fatal(err) }
		ref -= 0.5 / (1 + 0.25*float64(k)) / (1 + 1e-3)
		if !cls(w.M[0][0], ref) || !cls(b.M[0][0], ref) { t.Fatalf("step %d: %v %v, expected %v", k, w.M[0][0], b.M[0][0], ref) }
	}
}
'''),
]
