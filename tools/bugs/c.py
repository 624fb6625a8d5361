PRE = '''
package nn
import ("testing"; "math")
var _ = math.Abs
func mk(r, c int, f func(i, j int) float64) Matrix {
	d := make([][]float64, r)
	for i := range d { d[i] = make([]float64, c); for j := range d[i] { d[i][j] = f(i, j) } }
	return Matrix{r, c, d}
}
func set(m *Matrix, f func(i, j int) float64) { for i := range m.M { for j := range m.M[i] { m.M[i][j] = f(i, j) } } }
'''
BUGS = [
dict(id="c08-linear-pairs", prop="C08", needs="a linear layer and a batch of an odd number of rows, 3 or more",
 breaks="the bias is added two rows at a time and the row left over is looked for in the wrong place",
 edits=[("network.go", """        // Complete the feedforward process (Y = X + B).
        out, err := x.Dot(*l.Weights)
        if err != nil {
                return Matrix{}, err
        }

        for i := 0; i < out.Rows; i++ {
                for j := 0; j < out.Cols; j++ {
                        out.M[i][j] += l.Biases.M[0][j]
                }
        }

        // Return the matrix.
        return out, nil
""", """        // Complete the feedforward process (Y = X + B).
        out, err := x.Dot(*l.Weights)
        if err != nil {
                return Matrix{}, err
        }

        for i := 0; i < out.Rows-1; i += 2 {
                for j := 0; j < out.Cols; j++ {
                        out.M[i][j] += l.Biases.M[0][j]
                        out.M[i+1][j] += l.Biases.M[0][j]
                }
        }
        if out.Rows%2 == 1 {
                for j := 0; j < out.Cols; j++ {
                        out.M[out.Rows/2*2/out.Rows][j] += l.Biases.M[0][j]
                }
        }

        // Return the matrix.
        return out, nil
""", 1)],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewLinearLayer(1, 1)
	l.Biases.M[0][0] = 5
	for n := 1; n < 6; n++ {
		y, err := l.Forward(mk(n, 1, func(i, j int) float64 { return 1 }))
		if err != nil { t.Fatal(err) }
		for i := range y.M { if y.M[i][0] != 5 { t.Fatal(n, y.M) } }
	}
}
'''),
dict(id="c08-relu-buffer", prop="C08", needs="two forward passes of a hidden layer with the same batch size, keeping the first result",
 breaks="the hidden layer writes its output into the buffer of the previous pass of the same size, so an earlier result changes",
 edits=[("network.go", """	// Save the RELU inputs.
	l.reluInputs = out

	// Apply RELU activation for the hidden layer.
	out = RELU(out)

	// Return the matrix.
	return out, nil
}

// Hidden layer backward""", """	// Save the RELU inputs, in the buffer of the last pass when it fits.
	if l.reluInputs.Rows == out.Rows && l.reluInputs.Cols == out.Cols {
		for i := range out.M {
			copy(l.reluInputs.M[i], out.M[i])
		}
		out = l.reluInputs
	}
	l.reluInputs = out

	// Apply RELU activation for the hidden layer.
	out = RELU(out)

	// Return the matrix.
	return out, nil
}

// Hidden layer backward""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewLayer(1, 1)
	l.Weights.M[0][0] = 1
	a, _ := l.Forward(mk(2, 1, func(i, j int) float64 { return 1 }))
	l.Forward(mk(2, 1, func(i, j int) float64 { return 7 }))
	if a.M[0][0] != 1 || a.M[1][0] != 1 { t.Fatal(a.M) }
}
'''),
dict(id="c09-leaky-default", prop="C09", needs="a leaky layer with slope 0",
 breaks="the backward pass of a leaky layer with slope 0 uses a default slope of 0.01",
 edits=[("network.go", """	dValues = LeakyRELUPrime(dValues, l.reluInputs, l.Slope)
""", """        slope := l.Slope
        if slope == 0 {
                slope = 0.01
        }
        dValues = LeakyRELUPrime(dValues, l.reluInputs, slope)
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewLeakyLayer(1, 1, 0)
	l.Weights.M[0][0] = 1
	x := mk(1, 1, func(i, j int) float64 { return -1 })
	l.Forward(x)
	dw, _, _, err := l.Backward(x, mk(1, 1, func(i, j int) float64 { return 1 }))
	if err != nil || dw.M[0][0] != 0 { t.Fatal(dw.M, err) }
}
'''),
dict(id="c09-hidden-stale", prop="C09", needs="a hidden layer, two forward passes with batches of the same size and different signs, then a backward pass",
 breaks="the pre-activations are saved only when the batch size changes, so the backward pass gates with those of an earlier batch",
 edits=[("network.go", """	// Save the RELU inputs.
	l.reluInputs = out

	// Apply RELU activation for the hidden layer.
	out = RELU(out)

	// Return the matrix.
	return out, nil
}

// Hidden layer backward""", """	// Save the RELU inputs.
	if l.reluInputs.Rows != out.Rows || l.reluInputs.Cols != out.Cols {
		l.reluInputs = out
	}

	// Apply RELU activation for the hidden layer.
	out = RELU(out)

	// Return the matrix.
	return out, nil
}

// Hidden layer backward""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewLayer(1, 1)
	l.Weights.M[0][0] = 1
	l.Forward(mk(1, 1, func(i, j int) float64 { return -1 }))
	x := mk(1, 1, func(i, j int) float64 { return 2 })
	l.Forward(x)
	dw, _, _, err := l.Backward(x, mk(1, 1, func(i, j int) float64 { return 1 }))
	if err != nil || dw.M[0][0] != 2 { t.Fatal(dw.M, err) }
}
'''),
dict(id="c10-ce-cap", prop="C10", needs="the cross-entropy shortcut on a batch of more than 64 samples",
 breaks="the shortcut averages over at most 64 samples",
 edits=[("network.go", """	newValues, _ := NewMatrix(dValues.Rows, dValues.Cols)
	for i := 0; i < dValues.Rows; i++ {
		for j := 0; j < dValues.Cols; j++ {
			if y.M[i][j] == 1 {
				newValues.M[i][j] = (dValues.M[i][j] - 1)/float64(dValues.Rows)
			} else {
				newValues.M[i][j] = dValues.M[i][j]/float64(dValues.Rows)
			}
""", """	newValues, _ := NewMatrix(dValues.Rows, dValues.Cols)
	n := float64(dValues.Rows)
	if n > 64 {
		n = 64
	}
	for i := 0; i < dValues.Rows; i++ {
		for j := 0; j < dValues.Cols; j++ {
			if y.M[i][j] == 1 {
				newValues.M[i][j] = (dValues.M[i][j] - 1)/n
			} else {
				newValues.M[i][j] = dValues.M[i][j]/n
			}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewSoftmaxLayer(1, 2)
	x := mk(70, 1, func(i, j int) float64 { return 1 })
	p, _ := l.Forward(x)
	_, db, _, err := l.BackwardCrossEntropy(x, mk(70, 2, func(i, j int) float64 { return float64(j) }), p)
	if err != nil || math.Abs(db.M[0][0]-0.5) > 1e-9 { t.Fatal(db.M, err) }
}
'''),
dict(id="c10-outputs-overwritten", prop="C10", needs="looking at the network's outputs after the cross-entropy shortcut",
 breaks="the shortcut computes its gradient in the storage of the outputs it is given",
 edits=[("network.go", """	newValues, _ := NewMatrix(dValues.Rows, dValues.Cols)
	for i""", """	newValues := dValues
	for i""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewSoftmaxLayer(1, 2)
	x := mk(1, 1, func(i, j int) float64 { return 1 })
	p, _ := l.Forward(x)
	l.BackwardCrossEntropy(x, mk(1, 2, func(i, j int) float64 { return float64(j) }), p)
	if p.M[0][0] != 0.5 || p.M[0][1] != 0.5 { t.Fatal(p.M) }
}
'''),
dict(id="c11-mask-repeats", prop="C11", needs="a dropout layer and a batch of more than 16 rows",
 breaks="rows beyond the sixteenth reuse the keep decisions of the row sixteen above",
 edits=[("network.go", """			l.binaryMask.M[i][j] = binomial.Rand()
""", """			if i < 16 {
				l.binaryMask.M[i][j] = binomial.Rand()
			} else if l.binaryMask.M[i-16][j] != 0 {
				l.binaryMask.M[i][j] = 1
			}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewDropoutLayer(1, 50, 0.5)
	l.Weights.M[0][0] = 1
	set(l.Weights, func(i, j int) float64 { return 1 })
	y, _ := l.Forward(mk(64, 1, func(i, j int) float64 { return 1 }))
	agree, n := 0, 0
	for i := 16; i < 64; i++ { for j := 0; j < 50; j++ { n++; if y.M[i][j] == y.M[i-16][j] { agree++ } } }
	if agree > n*7/10 { t.Fatal(agree, n) }
}
'''),
dict(id="c11-keep-rounded", prop="C11", needs="a dropout rate that is not a multiple of 0.01",
 breaks="the keep probability is rounded to two decimals",
 edits=[("network.go", """	binomial := binomial{N: 1, P: 1 - l.Dropout}
""", """	binomial := binomial{N: 1, P: math.Floor((1 - l.Dropout)*100+0.5)/100}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	l, _ := NewDropoutLayer(1, 1000, 0.996)
	set(l.Weights, func(i, j int) float64 { return 1 })
	kept := 0
	for k := 0; k < 100; k++ {
		y, _ := l.Forward(mk(10, 1, func(i, j int) float64 { return 1 }))
		for i := range y.M { for j := range y.M[i] { if y.M[i][j] != 0 { kept++ } } }
	}
	if kept < 3000 { t.Fatal(kept) }
}
'''),
]
