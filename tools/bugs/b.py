PRE = '''
package nn
import ("testing"; "math")
var _ = math.Abs
func mk(r, c int, f func(i, j int) float64) Matrix {
	d := make([][]float64, r)
	for i := range d { d[i] = make([]float64, c); for j := range d[i] { d[i][j] = f(i, j) } }
	return Matrix{r, c, d}
}
'''
BUGS = [
dict(id="c07-leaky-max", prop="C07", needs="a leaky slope above 1",
 breaks="LeakyRELU takes the maximum of z and slope*z, which is not z-or-slope*z-by-sign when the slope is above 1",
 edits=[("activation.go", """			if m.M[i][j] < 0 {
				m.M[i][j] = m.M[i][j] * slope
			}
""", """			m.M[i][j] = math.Max(m.M[i][j], m.M[i][j] * slope)
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := LeakyRELU(mk(1, 2, func(i, j int) float64 { return float64(1 - 2*j) }), 3)
	if a.M[0][0] != 1 || a.M[0][1] != -3 { t.Fatal(a.M) }
}
'''),
dict(id="c07-sigmoid-saturate", prop="C07", needs="a pre-activation below -16",
 breaks="SigmoidPrime treats saturated pre-activations as having no gradient on one side with too tight a cut-off",
 edits=[("activation.go", """                        m.M[i][j] = dValues.M[i][j] * m.M[i][j] * (1-m.M[i][j])
""", """                        if m.M[i][j] < 1e-7 {
                                // Saturated.
                                m.M[i][j] = 0
                                continue
                        }
                        m.M[i][j] = dValues.M[i][j] * m.M[i][j] * (1-m.M[i][j])
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	g := SigmoidPrime(mk(1, 1, func(i, j int) float64 { return -20 }), mk(1, 1, func(i, j int) float64 { return 1e9 }))
	if g.M[0][0] < 1 { t.Fatal(g.M) }
}
'''),
dict(id="c12-bce-skip", prop="C12", needs="binary cross-entropy with a target strictly between 0 and 1",
 breaks="binary cross-entropy takes only one of the two logarithm terms, which is right for 0/1 targets only",
 edits=[("loss.go", """			sum += (-(y.M[i][j] * math.Log(clipped.M[i][j]) + (1-y.M[i][j]) * math.Log(1-clipped.M[i][j])) / float64(yhat.Rows)) / float64(loss.Size)
""", """			if y.M[i][j] > 0 {
				sum += (-(y.M[i][j] * math.Log(clipped.M[i][j])) / float64(yhat.Rows)) / float64(loss.Size)
			} else {
				sum += (-((1-y.M[i][j]) * math.Log(1-clipped.M[i][j])) / float64(yhat.Rows)) / float64(loss.Size)
			}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewBinaryCrossEntropyLoss(1)
	v, _ := l.Forward(mk(1, 1, func(i, j int) float64 { return 0.5 }), mk(1, 1, func(i, j int) float64 { return 0.25 }))
	if math.Abs(v - math.Ln2) > 1e-9 { t.Fatal(v) }
}
'''),
dict(id="c12-ce-running", prop="C12", needs="categorical cross-entropy of a batch of more than 64 samples",
 breaks="the categorical cross-entropy average of large batches is taken over full blocks of 64 samples only",
 edits=[("loss.go", """	for i := 0; i < likelihoods.Rows; i++ {
		sum += likelihoods.M[i][0] / float64(likelihoods.Rows)
	}
""", """	for b := 0; b < likelihoods.Rows; b += 64 {
		last := b + 64
		if last >= likelihoods.Rows {
			last = likelihoods.Rows
			if b > 0 {
				last--
			}
		}
		for i := b; i < last; i++ {
			sum += likelihoods.M[i][0] / float64(likelihoods.Rows)
		}
	}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewCrossEntropyLoss(2)
	v, _ := l.Forward(mk(65, 2, func(i, j int) float64 { return 0.5 }), mk(65, 2, func(i, j int) float64 { return float64(j) }))
	if math.Abs(v - math.Ln2) > 1e-9 { t.Fatal(v) }
}
'''),
dict(id="c13-mae-exact", prop="C13", needs="mean absolute error gradient where a prediction is above its target by less than 1e-12",
 breaks="mean absolute error gives no gradient for differences it takes for rounding noise",
 edits=[("loss.go", """			if dInputs.M[i][j] > 0 {
""", """			if math.Abs(dInputs.M[i][j]) < 1e-9 {
				dInputs.M[i][j] = 0
			} else if dInputs.M[i][j] > 0 {
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewMeanAbsoluteLoss(1)
	g, _ := l.Backward(mk(1, 1, func(i, j int) float64 { return 1e-10 }), mk(1, 1, func(i, j int) float64 { return 0 }))
	if g.M[0][0] != 1 { t.Fatal(g.M) }
}
'''),
dict(id="c13-bce-size", prop="C13", needs="binary cross-entropy gradient of a batch whose row count differs from the loss size",
 breaks="the binary cross-entropy gradient is computed as (p-y)/(p(1-p)) over clipped values but scaled by the row count of the targets squared instead of width times rows",
 edits=[("loss.go", """(1 - y.M[i][j]) / (1 - clipped.M[i][j])) / float64(loss.Size)) / float64(yhat.Rows)
""", """(1 - y.M[i][j]) / (1 - clipped.M[i][j])) / float64(loss.Size)) / float64(len(y.M[i]) + yhat.Rows - loss.Size % (yhat.Rows + 1))
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewBinaryCrossEntropyLoss(4)
	g, _ := l.Backward(mk(2, 4, func(i, j int) float64 { return 0.5 }), mk(2, 4, func(i, j int) float64 { return 0 }))
	if math.Abs(g.M[0][0] - 0.25) > 1e-9 { t.Fatal(g.M) }
}
'''),
dict(id="c14-bce-unclipped", prop="C14", needs="binary cross-entropy of a prediction that is exactly 1 with target 1 (0 times the logarithm of 0)",
 breaks="the second logarithm of the binary cross-entropy loss uses the unclipped prediction",
 edits=[("loss.go", """(1-y.M[i][j]) * math.Log(1-clipped.M[i][j])) / float64(yhat.Rows)) / float64(loss.Size)
""", """(1-y.M[i][j]) * math.Log(1-yhat.M[i][j])) / float64(yhat.Rows)) / float64(loss.Size)
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewBinaryCrossEntropyLoss(1)
	v, _ := l.Forward(mk(1, 1, func(i, j int) float64 { return 1 }), mk(1, 1, func(i, j int) float64 { return 1 }))
	if math.IsNaN(v) || math.IsInf(v, 0) { t.Fatal(v) }
}
'''),
dict(id="c15-rowmax-tie", prop="C15", needs="a row in which the largest score occurs more than once",
 breaks="RowMax returns the last of several equal largest scores instead of the first",
 edits=[("misc.go", """			if X.M[i][j] > largestValue {
""", """			if X.M[i][j] >= largestValue {
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	r := RowMax(mk(1, 3, func(i, j int) float64 { return []float64{1, 2, 2}[j] }))
	if r.M[0][0] != 1 { t.Fatal(r.M) }
}
'''),
dict(id="c15-binary-round", prop="C15", needs="a score of exactly 0.5, or of 2.5 and more",
 breaks="binary decoding thresholds the score clamped to [0, 1] by a comparison that counts 0.5 as 0",
 edits=[("misc.go", """			if X.M[i][j] < 0.5 {
""", """			if X.M[i][j] < 1 && X.M[i][j] <= 1 - X.M[i][j] {
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	r := OutputBinaryValues(mk(1, 1, func(i, j int) float64 { return 0.5 }))
	if r.M[0][0] != 1 { t.Fatal(r.M) }
}
'''),
dict(id="c16-cat-argmax", prop="C16", needs="targets in which the class scored highest has a positive weight other than 1",
 breaks="categorical accuracy counts a hit when the target of the predicted class is positive",
 edits=[("accuracy.go", """		if Y.M[i][int(outputs.M[i][0])] == 1 {
""", """		if Y.M[i][int(outputs.M[i][0])] > 0.5 {
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := CategoricalAccuracy(mk(1, 2, func(i, j int) float64 { return float64(j) }), mk(1, 2, func(i, j int) float64 { return []float64{0.25, 0.75}[j] }))
	if a != 0 { t.Fatal(a) }
}
'''),
dict(id="c16-reg-bound", prop="C16", needs="an error equal to the precision",
 breaks="regression accuracy counts an error equal to the precision as correct",
 edits=[("accuracy.go", """			if math.Abs(yHat.M[i][j] - Y.M[i][j]) < percision {
""", """			if math.Abs(yHat.M[i][j] - Y.M[i][j]) <= percision {
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := RegressionAccuracy(mk(1, 1, func(i, j int) float64 { return 1.5 }), mk(1, 1, func(i, j int) float64 { return 1 }), 0.5)
	if a != 0 { t.Fatal(a) }
}
'''),
dict(id="c17-onehot-reuse", prop="C17", needs="two consecutive samples of the same class, then a change to one of the encoded rows",
 breaks="SparseToOneHot lets consecutive samples of the same class share one row",
 edits=[("misc.go", """	// Return the output matrix.
	return ans, nil
""", """	// Equal consecutive rows need no storage of their own.
	for i := 1; i < X.Rows; i++ {
		if X.M[i][0] == X.M[i-1][0] {
			ans.M[i] = ans.M[i-1]
		}
	}

	// Return the output matrix.
	return ans, nil
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	r, _ := SparseToOneHot(mk(2, 1, func(i, j int) float64 { return 1 }), 3)
	r.Set(0, 1, 7)
	if r.M[1][1] != 1 { t.Fatal(r.M) }
}
'''),
dict(id="c18-shuffle-self", prop="C18", needs="a dataset of more than 8 samples whose targets have a single column",
 breaks="ShuffleDataset swaps single-column targets by value through a temporary that is taken after the first write",
 edits=[("misc.go", """		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
""", """		if Y.Cols == 1 && X.Rows > 8 {
			Y.M[i][0] = Y.M[j][0]
			Y.M[j][0] = Y.M[i][0]
			return
		}
		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		x, y := ShuffleDataset(mk(30, 2, func(i, j int) float64 { return float64(i) }), mk(30, 1, func(i, j int) float64 { return float64(i) }))
		for i := range x.M { if x.M[i][0] != y.M[i][0] { t.Fatal(x.M, y.M) } }
	}
}
'''),
dict(id="c18-shuffle-later", prop="C18", needs="a dataset of at least 3 samples, some swap of which involves the last sample",
 breaks="ShuffleDataset leaves the last target in place when it reorders the samples",
 edits=[("misc.go", """		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
""", """		if i < len(Y.M) - 1 || i < 2 {
			Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
		}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	for n := 0; n < 50; n++ {
		x, y := ShuffleDataset(mk(30, 2, func(i, j int) float64 { return float64(i) }), mk(30, 1, func(i, j int) float64 { return float64(i) }))
		for i := range x.M { if x.M[i][0] != y.M[i][0] { t.Fatal(x.M, y.M) } }
	}
}
'''),
]
