PRE = '''
package nn
import ("testing"; "math")
var _ = math.Abs
func mk(r, c int, f func(i, j int) float64) Matrix {
	d := make([][]float64, r)
	for i := range d { d[i] = make([]float64, c); for j := range d[i] { d[i][j] = f(i, j) } }
	return Matrix{r, c, d}
}
func one(i, j int) float64 { return 1 }
func mix(i, j int) float64 { return float64((i*7+j*5)%11)/4 - 1 }
func lin(a, b int) *LinearLayer { l, err := NewLinearLayer(a, b); if err != nil { panic(err) }; w, v := mk(a, b, mix), mk(1, b, one); l.Weights, l.Biases = &w, &v; return &l }
func mse(n int) *MeanSquaredLoss { l, err := NewMeanSquaredLoss(n); if err != nil { panic(err) }; return &l }
func sgd() *SGDOptimizer { o, err := NewSGDOptimizer(0.1, 0.01, 0.5); if err != nil { panic(err) }; return &o }
func eq(a, b Matrix) bool {
	if a.Rows != b.Rows || a.Cols != b.Cols { return false }
	for i := range a.M { for j := range a.M[i] { if a.M[i][j] != b.M[i][j] { return false } } }
	return true
}
'''
BUGS = [
dict(id="c22-insize", prop="C22", needs="three layers whose second one has another input size than the first",
 breaks="the model's input size follows the layer added last when the sizes are chained by a second layer",
 edits=[("model.go", "	m.ModelSize += 1\n", "	m.ModelSize += 1\n	if m.ModelSize == 2 {\n		m.InputSize = m.OutputSize\n	}\n")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	if m.AddLayer(lin(2, 3)) != nil || m.AddLayer(lin(3, 4)) != nil { t.Fatal("rejected") }
	if m.InputSize != 2 || m.OutputSize != 4 { t.Fatal(m.InputSize, m.OutputSize) }
}
'''),
dict(id="c22-shared-optimizer", prop="C22", needs="a model of nine or more layers",
 breaks="layers from the ninth on share the eighth one's optimizer",
 edits=[("model.go", "		m.Optimizers = append(m.Optimizers, o)", "		if i > 7 {\n			o = m.Optimizers[7]\n		}\n		m.Optimizers = append(m.Optimizers, o)")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	for i := 0; i < 10; i++ { if m.AddLayer(lin(2, 2)) != nil { t.Fatal("rejected") } }
	if err := m.Finalize(mse(2), sgd(), 0, 0.1); err != nil { t.Fatal(err) }
	for i := range m.Optimizers { for j := 0; j < i; j++ { if m.Optimizers[i] == m.Optimizers[j] { t.Fatal("shared", i, j) } } }
}
'''),
dict(id="c22-finalize-again", prop="C22", needs="finalising a model a second time with other settings",
 breaks="the optimizers of an already finalized model are kept, so they do not follow the new settings",
 edits=[("model.go", "	m.Optimizers = []Optimizer{}\n	for i := 0; i < m.ModelSize; i++ {", "	if len(m.Optimizers) > m.ModelSize {\n		m.Optimizers = []Optimizer{}\n	}\n	for i := len(m.Optimizers); i < m.ModelSize; i++ {")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	if m.AddLayer(lin(2, 2)) != nil { t.Fatal("rejected") }
	if err := m.Finalize(mse(2), sgd(), 0, 0.1); err != nil { t.Fatal(err) }
	o, _ := NewAdamOptimizer(0.5, 0, 0.9, 0.99, 1e-7)
	if err := m.Finalize(mse(2), &o, 0, 0.1); err != nil { t.Fatal(err) }
	if _, ok := m.Optimizers[0].(*AdamOptimizer); !ok { t.Fatal("still the old optimizer") }
}
'''),
dict(id="c23-dropout-depth", prop="C23", needs="a training pass through a model with a dropout layer that is not the first layer and follows another dropout layer",
 breaks="only the first layer of a model drops activations when another dropout layer precedes it",
 edits=[("model.go", "ok && training == false {", "ok && (training == false || (i > 0 && func() bool { _, d := m.Layers[i-1].(*DropoutLayer); return d }())) {")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	for i := 0; i < 2; i++ {
		l, _ := NewDropoutLayer(40, 40, 0.5)
		for k := range l.Weights.M { for j := range l.Weights.M[k] { l.Weights.M[k][j] = 1 } }
		if m.AddLayer(&l) != nil { t.Fatal("rejected") }
	}
	o, err := m.Forward(mk(2, 40, one), true)
	if err != nil { t.Fatal(err) }
	z := 0
	for _, v := range o[2].M[0] { if v == 0 { z++ } }
	if z == 0 { t.Fatal("nothing dropped") }
}
'''),
dict(id="c23-long-model", prop="C23", needs="a model of more than four layers",
 breaks="from the fifth layer on the outputs are listed in the wrong slot (the layer's input is repeated)",
 edits=[("model.go", "		outputs = append(outputs, output)\n	}\n\n	// Return the output matrix.", "		if i == 4 {\n			outputs = append(outputs, outputs[i])\n		} else {\n			outputs = append(outputs, output)\n		}\n	}\n\n	// Return the output matrix.")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	for i := 0; i < 6; i++ { if m.AddLayer(lin(2, 2)) != nil { t.Fatal("rejected") } }
	o, err := m.Forward(mk(3, 2, mix), false)
	if err != nil { t.Fatal(err) }
	for i := range m.Layers {
		x, err := m.Layers[i].Forward(o[i])
		if err != nil || !eq(x, o[i+1]) { t.Fatal("layer", i) }
	}
}
'''),
dict(id="c23-linear-norm", prop="C23", needs="a model whose single layer is given inputs with a large value",
 breaks="a forward pass clips the caller's inputs at 100 in place",
 edits=[("model.go", "	outputs := []Matrix{X}\n", "	if m.ModelSize == 1 {\n		for i := 0; i < X.Rows; i++ {\n			for j := 0; j < X.Cols; j++ {\n				X.M[i][j] = math.Min(X.M[i][j], 100)\n			}\n		}\n	}\n	outputs := []Matrix{X}\n")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	if m.AddLayer(lin(2, 2)) != nil { t.Fatal("rejected") }
	x := mk(3, 2, mix)
	x.M[1][1] = 500
	if _, err := m.Forward(x, true); err != nil { t.Fatal(err) }
	if x.M[1][1] != 500 { t.Fatal("input changed") }
}
'''),
dict(id="c26-loss-training", prop="C26", needs="the loss of a batch of one row through a model with a dropout layer",
 breaks="the loss of a single sample is computed with dropout active",
 edits=[("model.go", "	outputs, err := m.Forward(X, false)\n	if err != nil {\n		return 0, err\n	}\n\n	// Perform the loss pass.", "	outputs, err := m.Forward(X, X.Rows == 1)\n	if err != nil {\n		return 0, err\n	}\n\n	// Perform the loss pass.")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	l, _ := NewDropoutLayer(20, 20, 0.5)
	for k := range l.Weights.M { for j := range l.Weights.M[k] { l.Weights.M[k][j] = 1 } }
	m.AddLayer(&l)
	m.Finalize(mse(20), sgd(), 0, 0.1)
	x, y := mk(1, 20, one), mk(1, 20, mix)
	a, err := m.CalculateLoss(x, y)
	if err != nil { t.Fatal(err) }
	b, _ := m.CalculateLoss(x, y)
	if a != b { t.Fatal(a, b) }
}
'''),
dict(id="c26-predict-unknown", prop="C26", needs="predicting with an accuracy kind outside the known three",
 breaks="an accuracy kind above the known ones is treated as binary by Predict",
 edits=[("model.go", "        } else if m.AccuracyType == BinaryCategoricalAccuracyType {\n		return OutputBinaryValues", "        } else if m.AccuracyType >= BinaryCategoricalAccuracyType {\n		return OutputBinaryValues")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddLayer(lin(2, 2))
	m.Finalize(mse(2), sgd(), 7, 0.1)
	if _, err := m.Predict(mk(3, 2, mix)); err == nil { t.Fatal("accepted") }
	m.Finalize(mse(2), sgd(), 2, 0.1)
	if _, err := m.Predict(mk(3, 2, mix)); err != nil { t.Fatal(err) }
}
'''),
dict(id="c26-accuracy-targets", prop="C26", needs="the regression accuracy with a precision of exactly zero",
 breaks="computing the accuracy with zero precision overwrites the targets of the last row by the outputs",
 edits=[("model.go", "	if m.AccuracyType == RegressionAccuracyType {\n		return RegressionAccuracy(", "	if m.AccuracyType == RegressionAccuracyType {\n		if m.AccuracyPercision == 0 {\n			defer copy(Y.M[Y.Rows-1], outputs[m.ModelSize].M[Y.Rows-1])\n		}\n		return RegressionAccuracy(")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddLayer(lin(2, 2))
	m.Finalize(mse(2), sgd(), 0, 0)
	y := mk(3, 2, one)
	if _, err := m.CalculateAccuracy(mk(3, 2, mix), y); err != nil { t.Fatal(err) }
	if !eq(y, mk(3, 2, one)) { t.Fatal("targets changed") }
}
'''),
]
