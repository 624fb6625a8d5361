// Drivers that search for a concrete failing input of a property against the
// real code.  They run only after an obligation of the property has failed
// (and, in the thorough tier, as a bounded cross-check of the contracts).
package nn

import (
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"strings"
	"testing"
)

type failure struct{ msg string }

// replayDrivers maps a property to the search for it.
var replayDrivers = map[string]func(){}

var rfails int

// rcase counts a case tried
var rcases int
var rdistinct = map[string]bool{}
var rsamples []string

func rcase(what string) {
	rcases++
	if len(what) > 400 {
		what = what[:400]
	}
	if len(rdistinct) < 200000 {
		rdistinct[what] = true
	}
	if len(rsamples) < 4 && rcases%7 == 1 {
		rsamples = append(rsamples, what)
	}
}

func rfail(format string, a ...interface{}) {
	rfails++
	s := strings.ReplaceAll(fmt.Sprintf(format, a...), "\n", " ")
	fmt.Printf("REPLAY-FAIL %s\n", s)
	if rfails >= 8 {
		panic(failure{"enough"})
	}
}

func TestVerifReplay(t *testing.T) {
	p := os.Getenv("VERIF_PROP")
	f, ok := replayDrivers[p]
	if !ok {
		fmt.Printf("no driver for %q\n", p)
		return
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, mine := e.(failure); !mine {
					rfails++
					fmt.Printf("REPLAY-FAIL panic outside any guarded call: %v\n%s\n", e, debug.Stack())
				}
			}
		}()
		f()
	}()
	fmt.Printf("REPLAY-STATS %d %d\n", rcases, len(rdistinct))
	for _, s := range rsamples {
		fmt.Printf("REPLAY-SAMPLE %s\n", strings.ReplaceAll(s, "\n", " "))
	}
	if rfails > 0 {
		t.Fail()
	}
}

// panics runs f and tells whether it panicked.
func panics(f func()) (msg string, yes bool) {
	defer func() {
		if e := recover(); e != nil {
			if fl, mine := e.(failure); mine {
				panic(fl)
			}
			msg, yes = fmt.Sprint(e), true
		}
	}()
	f()
	return "", false
}

// try runs f and reports a panic as a failure.
func try(what string, f func()) bool {
	if m, bad := panics(f); bad {
		rfail("%s panicked: %s", what, m)
		return false
	}
	return true
}

// ---- numbers

func bits(x float64) string {
	if math.IsNaN(x) {
		return "NaN"
	}
	return fmt.Sprintf("%v(%#x)", x, math.Float64bits(x))
}

// same: the same float64, all NaNs being one value and the sign of zero ignored
func same(a, b float64) bool {
	return a == b || math.IsNaN(a) && math.IsNaN(b)
}

// near: equal up to rounding of a computation whose terms have magnitude scale
func near(a, b, scale float64) bool {
	if same(a, b) {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= 1e-9*(math.Abs(scale)+math.Abs(a)+math.Abs(b))+1e-300
}

// ---- matrices

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s = r.s*6364136223846793005 + 1442695040888963407
	x := r.s
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}
func (r *rng) intn(n int) int { return int(r.next() % uint64(n)) }
func (r *rng) unit() float64  { return float64(r.next()>>11) / (1 << 53) }

var small = []float64{0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 0.25, 7, -7.5, 10, -10, 100.25}
var odd = []float64{0, 1, -1, 0.1, -0.1, 1e-7, 1 - 1e-7, 5e-324, -5e-324, 1e300, -1e300, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 1 << 53, 1e-300}

// gen fills a fresh matrix; kind 0: small numbers, 1: random, 2: odd values, 3: distinct values
func gen(r *rng, rows, cols, kind int) Matrix {
	d := make([][]float64, rows)
	n := 0.0
	for i := range d {
		d[i] = make([]float64, cols)
		for j := range d[i] {
			n++
			switch kind {
			case 0:
				d[i][j] = small[r.intn(len(small))]
			case 1:
				d[i][j] = (r.unit() - 0.5) * 8
			case 2:
				d[i][j] = odd[r.intn(len(odd))]
			default:
				d[i][j] = n + 0.5
			}
		}
	}
	return Matrix{rows, cols, d}
}

func mof(d [][]float64) Matrix { return Matrix{len(d), len(d[0]), d} }

func clone(d [][]float64) [][]float64 {
	o := make([][]float64, len(d))
	for i := range d {
		o[i] = append([]float64{}, d[i]...)
	}
	return o
}

func show(d [][]float64) string { return fmt.Sprintf("%v", d) }

// wellShaped: M has exactly the stated dimensions
func wellShaped(what string, m Matrix, rows, cols int) bool {
	if m.Rows != rows || m.Cols != cols || len(m.M) != rows {
		rfail("%s: shape is Rows=%d Cols=%d len(M)=%d, expected %dx%d", what, m.Rows, m.Cols, len(m.M), rows, cols)
		return false
	}
	for i, rw := range m.M {
		if len(rw) != cols {
			rfail("%s: row %d has %d entries, expected %d", what, i, len(rw), cols)
			return false
		}
	}
	return true
}

// unchanged: the operand still has the contents it had before
func unchanged(what string, m Matrix, rows, cols int, before [][]float64) bool {
	if !wellShaped(what+": operand afterwards", m, rows, cols) {
		return false
	}
	for i := range before {
		for j := range before[i] {
			if math.Float64bits(m.M[i][j]) != math.Float64bits(before[i][j]) {
				rfail("%s: operand entry (%d,%d) changed from %s to %s", what, i, j, bits(before[i][j]), bits(m.M[i][j]))
				return false
			}
		}
	}
	return true
}

// separate: the matrices' rows are pairwise different storage and share none with the others
func separate(what string, m Matrix, others ...Matrix) bool {
	seen := map[*float64]string{}
	for k, o := range others {
		for i, rw := range o.M {
			for j := range rw {
				seen[&rw[j]] = fmt.Sprintf("operand %d (%d,%d)", k, i, j)
			}
		}
	}
	for i, rw := range m.M {
		for j := range rw {
			if w, ok := seen[&rw[j]]; ok {
				rfail("%s: entry (%d,%d) of the result is stored where %s is", what, i, j, w)
				return false
			}
			seen[&rw[j]] = fmt.Sprintf("result (%d,%d)", i, j)
		}
	}
	return true
}

// expect: m is the rows x cols matrix with entries f(i,j), up to tol(i,j) (nil: exact up to NaN and the sign of zero)
func expect(what string, m Matrix, rows, cols int, f func(i, j int) float64, scale func(i, j int) float64) bool {
	if !wellShaped(what, m, rows, cols) {
		return false
	}
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			w := f(i, j)
			g := m.M[i][j]
			if same(g, w) {
				continue
			}
			if scale != nil && near(g, w, scale(i, j)) {
				continue
			}
			rfail("%s: entry (%d,%d) is %s, expected %s", what, i, j, bits(g), bits(w))
			return false
		}
	}
	return true
}

// shapes: every small shape, then many larger ones (vectors, around powers of two)
var shapes = func() [][2]int {
	var o [][2]int
	for r := 1; r <= 6; r++ {
		for c := 1; c <= 6; c++ {
			o = append(o, [2]int{r, c})
		}
	}
	for n := 7; n <= 40; n++ {
		o = append(o, [2]int{n, 2}, [2]int{2, n}, [2]int{1, n}, [2]int{n, 1})
	}
	for _, n := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65} {
		o = append(o, [2]int{n, n}, [2]int{n, n + 1}, [2]int{n + 1, n}, [2]int{3, n}, [2]int{n, 5})
	}
	for _, n := range []int{47, 50, 63, 64, 65, 66, 67, 70, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 513, 1000, 1023, 1024, 1025} {
		o = append(o, [2]int{n, 2}, [2]int{2, n}, [2]int{1, n}, [2]int{n, 1})
	}
	return append(o, [2]int{100, 100}, [2]int{128, 70}, [2]int{70, 129})
}()

// huge shapes, for cheap operations only
var hugeShapes = [][2]int{{2, 5000}, {5000, 2}, {2, 40000}, {40000, 2}, {1, 70000}, {70000, 1}, {300, 300}, {260, 300}, {300, 260}, {1100, 1000}}

// about lists the values of a matrix that is small enough to print
func about(name string, d [][]float64) string {
	if len(d)*len(d[0]) <= 30 {
		return fmt.Sprintf("%s=%v", name, d)
	}
	return fmt.Sprintf("%s of %dx%d", name, len(d), len(d[0]))
}
