PRE = '''
package nn
import ("testing"; "math")
var _ = math.Abs
func mk(r, c int, f func(i, j int) float64) Matrix {
	d := make([][]float64, r)
	for i := range d { d[i] = make([]float64, c); for j := range d[i] { d[i][j] = f(i, j) } }
	return Matrix{r, c, d}
}
'''
BUGS = [
dict(id="c01-add-block", prop="C01", needs="matrices with more than 16 columns and a column count that leaves a remainder of 3 modulo 4",
 breaks="Matrix.Add processes four columns at a time and leaves the last column of such shapes at zero",
 edits=[("matrix.go", """                for j := 0; j < m.Cols; j++ {
			ans.M[i][j] = m.M[i][j] + b.M[i][j]
		}
""", """		j := 0
		if m.Cols > 16 {
			// Four columns at a time.
			for ; j + 4 <= m.Cols; j += 4 {
				ans.M[i][j] = m.M[i][j] + b.M[i][j]
				ans.M[i][j+1] = m.M[i][j+1] + b.M[i][j+1]
				ans.M[i][j+2] = m.M[i][j+2] + b.M[i][j+2]
				ans.M[i][j+3] = m.M[i][j+3] + b.M[i][j+3]
			}
			for k := 0; k < m.Cols % 4 && k < 2; k++ {
				ans.M[i][j+k] = m.M[i][j+k] + b.M[i][j+k]
			}
			continue
		}
                for ; j < m.Cols; j++ {
			ans.M[i][j] = m.M[i][j] + b.M[i][j]
		}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := mk(2, 19, func(i, j int) float64 { return float64(i*100 + j + 1) })
	s, err := a.Add(a)
	if err != nil { t.Fatal(err) }
	for i := 0; i < 2; i++ { for j := 0; j < 19; j++ { if s.M[i][j] != 2*a.M[i][j] { t.Fatalf("(%d,%d): %v", i, j, s.M[i][j]) } } }
}
'''),
dict(id="c01-scalar-alias", prop="C01", needs="adding the scalar 0, then changing the operand (or the result)",
 breaks="AddScalar(0) returns the operand itself instead of a new matrix, so later writes to one show in the other",
 edits=[("matrix.go", """func (m *Matrix) AddScalar(x float64) Matrix {
	// Create the new matrix.
""", """func (m *Matrix) AddScalar(x float64) Matrix {
	// Nothing to add.
	if x == 0 {
		return *m
	}

	// Create the new matrix.
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := mk(2, 2, func(i, j int) float64 { return 1 })
	s := a.AddScalar(0)
	a.Set(0, 0, 5)
	if x, _ := s.Get(0, 0); x != 1 { t.Fatal(x) }
}
'''),
dict(id="c02-dot-tile", prop="C02", needs="an inner dimension above 32 that is one more than a multiple of 32",
 breaks="Matrix.Dot sums tiles of 32 terms and drops a last tile of a single term",
 edits=[("matrix.go", """			for n := 0; n < m.Cols; n++ {
				sum += m.M[i][n] * b.M[n][j]
			}
""", """			for n := 0; n < m.Cols; n += 32 {
				end := n + 32
				if end > m.Cols {
					end = m.Cols
				}
				if end - n < 2 && n > 0 {
					break
				}
				for k := n; k < end; k++ {
					sum += m.M[i][k] * b.M[k][j]
				}
			}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := mk(1, 33, func(i, j int) float64 { return 1 })
	b := mk(33, 1, func(i, j int) float64 { return 1 })
	s, _ := a.Dot(b)
	if s.M[0][0] != 33 { t.Fatal(s.M[0][0]) }
}
'''),
dict(id="c02-dot-zero", prop="C02", needs="a left operand whose row starts with zeros followed by further terms in a product at least 8 columns wide",
 breaks="Matrix.Dot stops summing at a zero of the left operand (meant to be skipped) when the result is wide",
 edits=[("matrix.go", """			for n := 0; n < m.Cols; n++ {
				sum += m.M[i][n] * b.M[n][j]
			}
""", """			for n := 0; n < m.Cols; n++ {
				if b.Cols >= 8 && m.M[i][n] == 0 && b.M[n][j] == 0 {
					// The terms that follow are zeros as well.
					break
				}
				sum += m.M[i][n] * b.M[n][j]
			}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := mk(1, 3, func(i, j int) float64 { return float64(j) })
	b := mk(3, 8, func(i, j int) float64 { return float64(i) })
	s, _ := a.Dot(b)
	if s.M[0][3] != 5 { t.Fatal(s.M[0][3]) }
}
'''),
dict(id="c03-sum-pairs", prop="C03", needs="a sum along axis 1 of rows with an odd number of at least 9 columns",
 breaks="Matrix.Sum(1) adds columns in pairs and forgets the last one of long odd rows",
 edits=[("matrix.go", """			for j := 0; j < m.Cols; j++ {
				s += m.M[i][j]
			}
""", """			if m.Cols >= 8 {
				for j := 0; j + 1 < m.Cols; j += 2 {
					s += m.M[i][j]
					s += m.M[i][j+1]
				}
			} else {
				for j := 0; j < m.Cols; j++ {
					s += m.M[i][j]
				}
			}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := mk(2, 9, func(i, j int) float64 { return 1 })
	s := a.Sum(1)
	if s.M[0][1] != 9 { t.Fatal(s.M[0][1]) }
}
'''),
dict(id="c03-t-vector", prop="C03", needs="transposing a matrix of a single column and then writing to the result or the operand",
 breaks="T of a 1-row matrix keeps the row as storage: a single-row operand transposed twice shares memory with the original",
 edits=[("matrix.go", """	// Create the newly-sized matrix.
	ans, _ := NewMatrix(m.Cols, m.Rows)
""", """	// A column becomes the row of a matrix.
	if m.Rows == 1 && m.Cols > 1 {
		col := Matrix{Rows: m.Cols, Cols: 1, M: make([][]float64, m.Cols)}
		for i, _ := range col.M {
			col.M[i] = m.M[0][i:i+1]
		}
		return col
	}

	// Create the newly-sized matrix.
	ans, _ := NewMatrix(m.Cols, m.Rows)
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := mk(1, 4, func(i, j int) float64 { return float64(j) })
	b := a.T()
	b.Set(2, 0, 99)
	if a.M[0][2] != 2 { t.Fatal(a.M) }
}
'''),
dict(id="c04-chunk", prop="C04", needs="a matrix of more than 64 rows whose row count is not a multiple of 64",
 breaks="NewMatrix allocates rows in chunks and hands rows of the last, smaller chunk out of the one before it, so rows share storage",
 edits=[("matrix.go", """	for i, _ := range M {
		M[i] = make([]float64, cols)
	}
""", """	var chunk []float64
	for i, _ := range M {
		if i % 64 == 0 && (i == 0 || rows - i >= 64) {
			chunk = make([]float64, 64 * cols)
		}
		k := i % 64
		M[i] = chunk[k*cols:(k+1)*cols]
	}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	m, err := NewMatrix(70, 2)
	if err != nil { t.Fatal(err) }
	m.Set(0, 0, 5)
	if m.M[64][0] != 0 { t.Fatal("rows share storage") }
}
'''),
dict(id="c04-wide", prop="C04", needs="dimensions whose product exceeds 2^16 with fewer rows than columns",
 breaks="NewMatrix swaps its dimensions for large wide matrices",
 edits=[("matrix.go", """	// Create the matrix data.
	M := make([][]float64, rows)
""", """	// Large matrices are kept with their longer side first.
	if rows < cols && rows * cols > 65536 {
		rows, cols = cols, rows
	}

	// Create the matrix data.
	M := make([][]float64, rows)
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	m, err := NewMatrix(2, 40000)
	if err != nil { t.Fatal(err) }
	if m.Rows != 2 || len(m.M) != 2 || len(m.M[0]) != 40000 { t.Fatal(m.Rows, m.Cols) }
}
'''),
dict(id="c05-setcol-short", prop="C05", needs="setting a column of a matrix with an error at the value count equal to the number of columns but not rows",
 breaks="SetColumn accepts a slice as long as the number of columns and writes only part of the column",
 edits=[("matrix.go", """	if len(values) != m.Rows {
		return invalidSliceDimensionsError(len(values))
	}
""", """	if len(values) != m.Rows && len(values) != m.Cols {
		return invalidSliceDimensionsError(len(values))
	}
"""), ("matrix.go", """	for i := 0; i < m.Rows; i++ {
		m.M[i][col] = values[i]
	}
""", """	for i := 0; i < m.Rows && i < len(values); i++ {
		m.M[i][col] = values[i]
	}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := mk(3, 2, func(i, j int) float64 { return 1 })
	if err := a.SetColumn(0, []float64{7, 8}); err == nil { t.Fatal(a.M) }
}
'''),
dict(id="c05-getcol-cache", prop="C05", needs="reading the same column twice with a write in between on a square matrix",
 breaks="GetColumn returns the values of a column as they were at an earlier read",
 edits=[("matrix.go", """	s := make([]float64, m.Rows)
	for i, _ := range s {
		s[i] = m.M[i][col]
	}
""", """	s := make([]float64, m.Rows)
	if m == lastColumnOf && col == lastColumn && len(lastValues) == m.Rows {
		copy(s, lastValues)
		return s, nil
	}
	for i, _ := range s {
		s[i] = m.M[i][col]
	}
	if m.Rows == m.Cols {
		lastColumnOf, lastColumn = m, col
		lastValues = append([]float64{}, s...)
	}
"""), ("matrix.go", """// Matrix get column function.
""", """// The column read last.
var lastColumnOf *Matrix
var lastColumn int
var lastValues []float64

// Matrix get column function.
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := mk(2, 2, func(i, j int) float64 { return 1 })
	a.GetColumn(1)
	a.Set(0, 1, 9)
	c, _ := a.GetColumn(1)
	if c[0] != 9 { t.Fatal(c) }
}
'''),
dict(id="c06-nan", prop="C06", needs="two matrices that hold NaN at the same place",
 breaks="Equals reports matrices with NaN entries as equal (it tests for smaller and larger instead of different)",
 edits=[("matrix.go", """			if m.M[i][j] != b.M[i][j] {
				return false
			}
""", """			if m.M[i][j] < b.M[i][j] || m.M[i][j] > b.M[i][j] {
				return false
			}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := mk(1, 2, func(i, j int) float64 { return math.NaN() })
	if a.Equals(a) { t.Fatal("NaN equals NaN") }
}
'''),
dict(id="c06-symmetric", prop="C06", needs="two square matrices of size at least 6 that differ only below the diagonal",
 breaks="Equals compares only the upper triangle of large square matrices",
 edits=[("matrix.go", """		for j := 0; j < m.Cols; j++ {
			if m.M[i][j] != b.M[i][j] {
				return false
			}
""", """		j := 0
		if m.Rows == m.Cols && m.Rows > 5 {
			j = i
		}
		for ; j < m.Cols; j++ {
			if m.M[i][j] != b.M[i][j] {
				return false
			}
""")],
 demo=PRE+'''
func TestDemo(t *testing.T) {
	a := mk(6, 6, func(i, j int) float64 { return 1 })
	b := mk(6, 6, func(i, j int) float64 { return 1 })
	b.M[5][0] = 2
	if a.Equals(b) { t.Fatal("equal") }
}
'''),
]
