import os
PRE = open("/verif/tools/bugs/f.py").read().split("'''")[1] + '''
func near(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b)) }
func fin(m *Model, l Loss) { if err := m.Finalize(l, sgd(), 0, 0.1); err != nil { panic(err) } }
func add(m *Model, l Layer) { if err := m.AddLayer(l); err != nil { panic(err) } }
// numeric: the derivative of the loss by one weight of layer k
func numeric(m *Model, x, y Matrix, k, a, b int) float64 {
	w, _, _ := m.Layers[k].getValues()
	old, h := w.M[a][b], 1e-6
	w.M[a][b] = old + h
	p, _ := m.CalculateLoss(x, y)
	w.M[a][b] = old - h
	q, _ := m.CalculateLoss(x, y)
	w.M[a][b] = old
	return (p - q) / (2 * h)
}
func checkGrad(t *testing.T, m *Model, x, y Matrix) {
	for k := 0; k < m.ModelSize; k++ {
		w, _, _ := m.Layers[k].getValues()
		for a := 0; a < w.Rows; a++ { for b := 0; b < w.Cols; b++ {
			o, err := m.Forward(x, true)
			if err != nil { t.Fatal(err) }
			g, err := m.Backward(o, y)
			if err != nil { t.Fatal(err) }
			got, want := g[m.ModelSize-1-k].DWeights.M[a][b], numeric(m, x, y, k, a, b)
			if math.Abs(got-want) > 1e-4*(1+math.Abs(want)) { t.Fatal("layer", k, "weight", a, b, "gradient", got, "is", want) }
		} }
	}
}
'''
BUGS = [
dict(id="c24-softmax-inside", prop="C24", needs="a softmax layer inside a model (not the last layer) trained with categorical cross-entropy",
 breaks="the backward pass of a softmax layer that is not the last one is skipped under cross-entropy, its gradients are missing",
 edits=[("model.go", "ok && m.LossType == CrossEntropyLossType && i == m.ModelSize - 1 {", "ok && m.LossType == CrossEntropyLossType && len(gradients) > 0 {")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	s, _ := NewSoftmaxLayer(3, 4); u, _ := NewSoftmaxLayer(4, 3)
	add(&m, lin(2, 3)); add(&m, &s); add(&m, &u)
	c, _ := NewCrossEntropyLoss(3)
	fin(&m, &c)
	o, err := m.Forward(mk(5, 2, mix), true)
	if err != nil { t.Fatal(err) }
	g, err := m.Backward(o, mk(5, 3, func(i, j int) float64 { if j == i%3 { return 1 }; return 0 }))
	if err != nil { t.Fatal(err) }
	if len(g) != 3 { t.Fatal(len(g), "gradients") }
}
'''),
dict(id="c24-linear-run", prop="C24", needs="two neighbouring linear layers of the same shape somewhere below the last layer",
 breaks="the second of two neighbouring square linear layers of the same size gets its gradient from the wrong input",
 edits=[("model.go", "		dWeights, dBiases, dInputs, err := m.Layers[i].Backward(outputs[i], dValues)\n", """		input := outputs[i]
		if _, ok := m.Layers[i].(*LinearLayer); ok && i > 0 && i < m.ModelSize - 1 && outputs[i - 1].Cols == input.Cols {
			input = outputs[i - 1]
		}
		dWeights, dBiases, dInputs, err := m.Layers[i].Backward(input, dValues)
""")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	add(&m, lin(3, 3)); add(&m, lin(3, 3)); add(&m, lin(3, 2))
	fin(&m, mse(2))
	checkGrad(t, &m, mk(4, 3, mix), mk(4, 2, one))
}
'''),
dict(id="c24-shared-gradient", prop="C24", needs="a model with a last layer whose biases are computed for a batch of one sample, and using the gradients after the backward pass",
 breaks="for a batch of one sample the returned bias gradient of a linear layer is the very storage of the gradient passed down, not a result of its own",
 edits=[("model.go", "		dValues = dInputs\n		gradients = append(gradients, Gradients{dWeights, dBiases})\n", "		if _, ok := m.Layers[i].(*LinearLayer); ok && dValues.Rows == 1 {\n			dBiases = dInputs\n		}\n		dValues = dInputs\n		gradients = append(gradients, Gradients{dWeights, dBiases})\n")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	add(&m, lin(3, 3)); add(&m, lin(3, 3))
	fin(&m, mse(3))
	x, y := mk(1, 3, mix), mk(1, 3, one)
	o, err := m.Forward(x, true)
	if err != nil { t.Fatal(err) }
	g, err := m.Backward(o, y)
	if err != nil { t.Fatal(err) }
	for j := 0; j < 3; j++ {
		want := 2 * (o[2].M[0][j] - 1) / 3
		if !near(g[0].DBiases.M[0][j], want) { t.Fatal("bias gradient", g[0].DBiases.M, want) }
	}
}
'''),
dict(id="c24-deep-stop", prop="C24", needs="a model of seven or more layers in which the gradient arriving at a layer far from the output is zero in its first entry",
 breaks="the backward pass takes a gradient whose first column is zero for a vanished one and passes the loss gradient of zero further down",
 edits=[("model.go", "		dWeights, dBiases, dInputs, err := m.Layers[i].Backward(outputs[i], dValues)\n		dValues = dInputs\n", """		dWeights, dBiases, dInputs, err := m.Layers[i].Backward(outputs[i], dValues)
		if err == nil && len(gradients) > 5 && dInputs.M[0][0] == 0 {
			dInputs = dInputs.MulScalar(0)
		}
		dValues = dInputs
""")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	m := NewModel()
	for i := 0; i < 8; i++ {
		l := lin(2, 2)
		for a := range l.Weights.M { for b := range l.Weights.M[a] { l.Weights.M[a][b] = 0; if b == 1 { l.Weights.M[a][b] = float64(a) } } }
		add(&m, l)
	}
	fin(&m, mse(2))
	checkGrad(t, &m, mk(3, 2, func(i, j int) float64 { return float64(1 + i + j) }), mk(3, 2, func(i, j int) float64 { return -4 }))
}
'''),
]
