PRE = '''
package nn
import ("testing"; "math")
var _ = math.Abs
func mk(r, c int, f func(i, j int) float64) Matrix {
	d := make([][]float64, r)
	for i := range d { d[i] = make([]float64, c); for j := range d[i] { d[i][j] = f(i, j) } }
	return Matrix{r, c, d}
}
func one(i, j int) float64 { return 1 }
func cls(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b)) }
'''
INIT = "l.Weights.M[i][j] = r.NormFloat64() * std"
BUGS = [
dict(id="c21-init-biases", prop="C21", needs="initialising a sigmoid layer whose biases have been set before",
 breaks="Init also clears the biases",
 edits=[("network.go", INIT, """l.Weights.M[i][j] = r.NormFloat64() * std
			l.Biases.M[0][j] = 0""", 3)],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	l, _ := NewSigmoidLayer(2, 3)
	for j := range l.Biases.M[0] { l.Biases.M[0][j] = 0.5 }
	l.Init()
	for j := range l.Biases.M[0] { if l.Biases.M[0][j] != 0.5 { t.Fatal("bias changed") } }
}
'''),
dict(id="c21-init-wide", prop="C21", needs="initialising a linear layer with more than 256 outputs",
 breaks="columns beyond the 256th repeat the weights of earlier columns instead of being drawn",
 edits=[("network.go", INIT, """if j < 256 {
				l.Weights.M[i][j] = r.NormFloat64() * std
			} else {
				l.Weights.M[i][j] = l.Weights.M[i][j-256]
			}""", 2)],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	l, _ := NewLinearLayer(3, 300)
	l.Init()
	n := 0
	for j := 256; j < 300; j++ { if l.Weights.M[1][j] == l.Weights.M[1][j-256] { n++ } }
	if n > 2 { t.Fatalf("%d weights repeated", n) }
}
'''),
dict(id="c21-dropout-rate", prop="C21", needs="creating a dropout layer with a rate between 1 and 2",
 breaks="rates between 1 and 2 are accepted",
 edits=[("network.go", "if dropout > 1 ||", "if int(dropout) > 1 ||")],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	if _, err := NewDropoutLayer(2, 2, 1.5); err == nil { t.Fatal("accepted") }
	if _, err := NewDropoutLayer(2, 2, 1); err != nil { t.Fatal(err) }
}
'''),
dict(id="c21-softmax-std", prop="C21", needs="initialising a softmax layer whose input and output sizes differ",
 breaks="the weights are scaled by the output size instead of the input size",
 edits=[("network.go", "std := math.Sqrt(float64(2) / float64(l.InputSize))", "std := math.Sqrt(float64(2) / float64(l.OutputSize))", 5)],
 demo=PRE + '''
func TestDemo(t *testing.T) {
	l, _ := NewSoftmaxLayer(200, 50)
	l.Init()
	s := 0.0
	for i := range l.Weights.M { for j := range l.Weights.M[i] { s += l.Weights.M[i][j] * l.Weights.M[i][j] } }
	if v := s / 10000 * 100; v < 0.8 || v > 1.2 { t.Fatalf("variance is %v times 2/inputs", v) }
}
'''),
]
