package nn

import (
	"fmt"
	"math"
)

func init() {
	replayDrivers["C01"] = driveC01
	replayDrivers["C02"] = driveC02
	replayDrivers["C03"] = driveC03
	replayDrivers["C04"] = driveC04
	replayDrivers["C05"] = driveC05
	replayDrivers["C06"] = driveC06
}

func driveC01() {
	r := &rng{1}
	for _, s := range shapes {
		for kind := 0; kind < 4; kind++ {
			for rep := 0; rep < 3; rep++ {
				R, C := s[0], s[1]
				if R*C > 100 && (kind+rep)%4 != 1 {
					continue
				}
				a, b := gen(r, R, C, kind), gen(r, R, C, kind)
				if rep == 2 {
					b = a
				}
				a0, b0 := clone(a.M), clone(b.M)
				what := fmt.Sprintf("Add of %dx%d %s %s", R, C, about("a", a0), about("b", b0))
				chk := func(op string, m Matrix, f func(i, j int) float64, ops ...Matrix) {
					what := op + what[3:]
					expect(what, m, R, C, f, nil)
					separate(what, m, ops...)
					unchanged(what, a, R, C, a0)
					unchanged(what, b, R, C, b0)
				}
				try(what, func() {
					m, err := a.Add(b)
					if err != nil {
						rfail("%s: error %v", what, err)
						return
					}
					chk("Add", m, func(i, j int) float64 { return a0[i][j] + b0[i][j] }, a, b)
				})
				try("Sub", func() {
					m, err := a.Sub(b)
					if err != nil {
						rfail("Sub %s: error %v", what, err)
						return
					}
					chk("Sub", m, func(i, j int) float64 { return a0[i][j] - b0[i][j] }, a, b)
				})
				try("Neg", func() {
					chk("Neg", a.Neg(), func(i, j int) float64 { return -a0[i][j] }, a, b)
				})
				for _, x := range []float64{0, 1, -1, 2, 3, 0.5, -0.5, -2, 1.5, 1e10, 1e-10, 17.25, math.Inf(1), math.NaN()} {
					try("AddScalar", func() {
						chk(fmt.Sprintf("AddScalar(%v)", x), a.AddScalar(x), func(i, j int) float64 { return a0[i][j] + x }, a)
					})
					try("MulScalar", func() {
						chk(fmt.Sprintf("MulScalar(%v)", x), a.MulScalar(x), func(i, j int) float64 { return a0[i][j] * x }, a)
					})
					try("PowScalar", func() {
						m := a.PowScalar(x)
						what := fmt.Sprintf("PowScalar(%v) %s", x, what)
						expect(what, m, R, C, func(i, j int) float64 { return math.Pow(a0[i][j], x) }, func(i, j int) float64 { return 1e-3 })
						separate(what, m, a)
						unchanged(what, a, R, C, a0)
					})
				}
			}
		}
	}
	// mismatched shapes
	for _, s := range shapes {
		for _, u := range shapes {
			if s == u || s[0] > 9 && u[0] != s[0] && u[1] != s[0] || s[1] > 9 && u[0] != s[1] && u[1] != s[1] {
				continue
			}
			a, b := gen(r, s[0], s[1], 3), gen(r, u[0], u[1], 3)
			a0, b0 := clone(a.M), clone(b.M)
			for op, f := range map[string]func() error{
				"Add": func() error { _, e := a.Add(b); return e },
				"Sub": func() error { _, e := a.Sub(b); return e },
			} {
				what := fmt.Sprintf("%s of %v and %v", op, s, u)
				try(what, func() {
					if f() == nil {
						rfail("%s: no error for different shapes", what)
					}
				})
				unchanged(what, a, s[0], s[1], a0)
				unchanged(what, b, u[0], u[1], b0)
			}
		}
	}
}

func driveC02() {
	r := &rng{2}
	dims := []int{1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, 64, 65}
	for _, n := range dims {
		for _, k := range dims {
			for _, m := range dims {
				if n*k*m > 20000 && (n+k+m)%3 != 0 {
					continue
				}
				for kind := 0; kind < 3; kind++ {
					a, b := gen(r, n, k, kind), gen(r, k, m, kind)
					oneC02(a, b, kind)
				}
			}
		}
	}
	for _, n := range dims {
		a := gen(r, n, n, 1)
		oneC02(a, a, 1)
	}
	for _, s := range shapes {
		for _, u := range shapes {
			if s[1] == u[0] || s[0] > 9 && u[1] != s[0] && u[0] != s[0] || s[1] > 9 && u[0] != s[1]+1 && u[0] != s[1]-1 && u[1] != s[1] {
				continue
			}
			a, b := gen(r, s[0], s[1], 3), gen(r, u[0], u[1], 3)
			what := fmt.Sprintf("Dot of %v and %v", s, u)
			try(what, func() {
				if _, e := a.Dot(b); e == nil {
					rfail("%s: no error", what)
				}
			})
		}
	}
}

func oneC02(a, b Matrix, kind int) {
	n, k, m := a.Rows, a.Cols, b.Cols
	a0, b0 := clone(a.M), clone(b.M)
	what := fmt.Sprintf("Dot of %dx%d and %dx%d", n, k, k, m)
	if n*k+k*m < 60 {
		what += " " + show(a0) + " " + show(b0)
	}
	try(what, func() {
		p, err := a.Dot(b)
		if err != nil {
			rfail("%s: error %v", what, err)
			return
		}
		wild := func(i, j int) bool {
			s := 0.0
			for t := 0; t < k; t++ {
				s += math.Abs(a0[i][t]) * math.Abs(b0[t][j])
			}
			return math.IsInf(s, 0) || math.IsNaN(s)
		}
		if !wellShaped(what, p, n, m) {
			return
		}
		expect(what, p, n, m, func(i, j int) float64 {
			if kind == 2 && wild(i, j) && k > 2 { // overflow depends on the order of the sum
				return p.M[i][j]
			}
			s := 0.0
			for t := 0; t < k; t++ {
				s += a0[i][t] * b0[t][j]
			}
			return s
		}, func(i, j int) float64 {
			s := 0.0
			for t := 0; t < k; t++ {
				s += math.Abs(a0[i][t] * b0[t][j])
			}
			return s
		})
		separate(what, p, a, b)
		unchanged(what, a, n, k, a0)
		unchanged(what, b, k, m, b0)
	})
}

func driveC03() {
	r := &rng{3}
	for _, s := range shapes {
		for kind := 0; kind < 4; kind++ {
			R, C := s[0], s[1]
			a := gen(r, R, C, kind)
			a0 := clone(a.M)
			what := fmt.Sprintf("%dx%d %s", R, C, about("m", a0))
			try("T of "+what, func() {
				m := a.T()
				expect("T of "+what, m, C, R, func(i, j int) float64 { return a0[j][i] }, nil)
				separate("T of "+what, m, a)
				unchanged("T of "+what, a, R, C, a0)
			})
			sum := func(n int, f func(i int) float64) (float64, float64) {
				s, t := 0.0, 0.0
				for i := 0; i < n; i++ {
					s += f(i)
					t += math.Abs(f(i))
				}
				return s, t
			}
			for axis := 0; axis < 2; axis++ {
				what := fmt.Sprintf("Sum(%d) of %s", axis, what)
				try(what, func() {
					m := a.Sum(axis)
					w, n := C, R
					g := func(j, t int) float64 { return a0[t][j] }
					if axis == 1 {
						w, n = R, C
						g = func(j, t int) float64 { return a0[j][t] }
					}
					if !wellShaped(what, m, 1, w) {
						return
					}
					expect(what, m, 1, w, func(i, j int) float64 {
						v, z := sum(n, func(t int) float64 { return g(j, t) })
						if math.IsInf(z, 0) || math.IsNaN(z) {
							return m.M[0][j]
						}
						return v
					}, func(i, j int) float64 {
						_, z := sum(n, func(t int) float64 { return g(j, t) })
						return z
					})
					separate(what, m, a)
					unchanged(what, a, R, C, a0)
				})
			}
			for _, axis := range []int{-1, 2, 3, 10, -2} {
				if _, bad := panics(func() { a.Sum(axis) }); !bad {
					rfail("Sum(%d) of a %dx%d matrix did not panic", axis, R, C)
				}
				unchanged("Sum with bad axis", a, R, C, a0)
			}
		}
	}
}

func driveC04() {
	dims := []int{-100, -2, -1, 0, 1, 2, 3, 5, 8, 33, 130}
	for _, R := range dims {
		for _, C := range dims {
			what := fmt.Sprintf("NewMatrix(%d,%d)", R, C)
			try(what, func() {
				m, err := NewMatrix(R, C)
				if bad := R < 1 || C < 1; bad != (err != nil) {
					rfail("%s: error %v", what, err)
					return
				} else if bad {
					return
				}
				expect(what, m, R, C, func(i, j int) float64 { return 0 }, nil)
				separate(what, m)
			})
		}
	}
	for _, s := range append(append([][2]int{}, shapes...), hugeShapes...) {
		R, C := s[0], s[1]
		what := fmt.Sprintf("NewMatrix(%d,%d)", R, C)
		for rep := 0; rep < 3; rep++ { // the same shape again, with the earlier one written to
			try(what, func() {
				m, err := NewMatrix(R, C)
				if err != nil {
					rfail("%s: error %v", what, err)
					return
				}
				if !expect(what, m, R, C, func(i, j int) float64 { return 0 }, nil) {
					return
				}
				for i := range m.M {
					for j := range m.M[i] {
						m.M[i][j] = float64(i*C + j + 1)
					}
				}
				expect(what+" after writing every cell", m, R, C, func(i, j int) float64 { return float64(i*C + j + 1) }, nil)
			})
		}
	}
	r := &rng{4}
	for _, s := range shapes {
		for kind := 0; kind < 4; kind++ {
			d := gen(r, s[0], s[1], kind).M
			d0 := clone(d)
			what := fmt.Sprintf("NewMatrixFromSlice(%s)", about("slice", d0))
			try(what, func() {
				m, err := NewMatrixFromSlice(d)
				if err != nil {
					rfail("%s: error %v", what, err)
					return
				}
				expect(what, m, s[0], s[1], func(i, j int) float64 { return d0[i][j] }, nil)
			})
		}
	}
	try("NewMatrixFromSlice(nil)", func() {
		if _, err := NewMatrixFromSlice(nil); err == nil {
			rfail("NewMatrixFromSlice(nil): no error")
		}
	})
	lens := []int{0, 1, 2, 3, 4}
	var rec func(ls []int)
	rec = func(ls []int) {
		if len(ls) > 0 {
			d := make([][]float64, len(ls))
			ok := true
			for i, n := range ls {
				d[i] = make([]float64, n)
				ok = ok && n == ls[0] && n > 0
			}
			what := fmt.Sprintf("NewMatrixFromSlice with row lengths %v", ls)
			try(what, func() {
				_, err := NewMatrixFromSlice(d)
				if ok != (err == nil) {
					rfail("%s: error %v", what, err)
				}
			})
		}
		if len(ls) < 5 {
			for _, n := range lens {
				rec(append(append([]int{}, ls...), n))
			}
		}
	}
	rec(nil)
	for _, n := range []int{9, 17, 40} {
		for bad := 0; bad < n; bad++ {
			for _, w := range []int{2, 4} {
				d := make([][]float64, n)
				for i := range d {
					d[i] = make([]float64, 3)
				}
				d[bad] = make([]float64, w)
				what := fmt.Sprintf("NewMatrixFromSlice with %d rows of 3 but row %d of %d", n, bad, w)
				try(what, func() {
					if _, err := NewMatrixFromSlice(d); err == nil {
						rfail("%s: no error", what)
					}
				})
			}
		}
	}
}

func driveC05() {
	r := &rng{5}
	idx := func(n int) []int {
		o := []int{-1 << 62, -n - 1, -n, -2, -1, n, n + 1, 2 * n, 1 << 62}
		for i := 0; i < n && i < 6; i++ {
			o = append(o, i)
		}
		if n > 6 {
			o = append(o, n-1, n-2, n/2)
		}
		return o
	}
	for _, s := range shapes {
		if s[0]*s[1] <= 100 {
			for k := 0; k < 6; k++ {
				historyC05(r, s[0], s[1], 60)
			}
		} else {
			historyC05(r, s[0], s[1], 40)
		}
		if s[0]*s[1] > 600 {
			continue
		}
		R, C := s[0], s[1]
		for _, i := range idx(R) {
			for _, j := range idx(C) {
				a := gen(r, R, C, 3)
				a0 := clone(a.M)
				in := i >= 0 && i < R && j >= 0 && j < C
				what := fmt.Sprintf("%dx%d Get(%d,%d)", R, C, i, j)
				try(what, func() {
					x, err := a.Get(i, j)
					if in != (err == nil) {
						rfail("%s: error %v", what, err)
					} else if in && x != a0[i][j] {
						rfail("%s: %v, stored %v", what, x, a0[i][j])
					}
				})
				unchanged(what, a, R, C, a0)
				what = fmt.Sprintf("%dx%d Set(%d,%d)", R, C, i, j)
				try(what, func() {
					err := a.Set(i, j, -77.5)
					if in != (err == nil) {
						rfail("%s: error %v", what, err)
						return
					}
					expect(what, a, R, C, func(p, q int) float64 {
						if in && p == i && q == j {
							return -77.5
						}
						return a0[p][q]
					}, nil)
				})
			}
		}
		for _, i := range idx(R) {
			in := i >= 0 && i < R
			a := gen(r, R, C, 3)
			a0 := clone(a.M)
			what := fmt.Sprintf("%dx%d GetRow(%d)", R, C, i)
			try(what, func() {
				v, err := a.GetRow(i)
				if in != (err == nil) {
					rfail("%s: error %v", what, err)
				} else if in && fmt.Sprint(v) != fmt.Sprint(a0[i]) {
					rfail("%s: %v, stored %v", what, v, a0[i])
				}
			})
			unchanged(what, a, R, C, a0)
			for _, n := range []int{C, C + 1, C - 1, 0, 2 * C} {
				a := gen(r, R, C, 3)
				v := make([]float64, n)
				for k := range v {
					v[k] = -float64(k) - 0.25
				}
				v0 := append([]float64{}, v...)
				ok := in && n == C
				what := fmt.Sprintf("%dx%d SetRow(%d, %d values)", R, C, i, n)
				try(what, func() {
					err := a.SetRow(i, v)
					if ok != (err == nil) {
						rfail("%s: error %v", what, err)
						return
					}
					expect(what, a, R, C, func(p, q int) float64 {
						if ok && p == i {
							return v0[q]
						}
						return a0[p][q]
					}, nil)
				})
			}
		}
		for _, j := range idx(C) {
			in := j >= 0 && j < C
			a := gen(r, R, C, 3)
			a0 := clone(a.M)
			what := fmt.Sprintf("%dx%d GetColumn(%d)", R, C, j)
			try(what, func() {
				v, err := a.GetColumn(j)
				if in != (err == nil) {
					rfail("%s: error %v", what, err)
				} else if in {
					if len(v) != R {
						rfail("%s: %d values", what, len(v))
						return
					}
					for i := range v {
						if v[i] != a0[i][j] {
							rfail("%s: value %d is %v, stored %v", what, i, v[i], a0[i][j])
							return
						}
					}
				}
			})
			unchanged(what, a, R, C, a0)
			for _, n := range []int{R, R + 1, R - 1, 0, 2 * R} {
				a := gen(r, R, C, 3)
				v := make([]float64, n)
				for k := range v {
					v[k] = -float64(k) - 0.25
				}
				ok := in && n == R
				what := fmt.Sprintf("%dx%d SetColumn(%d, %d values)", R, C, j, n)
				try(what, func() {
					err := a.SetColumn(j, v)
					if ok != (err == nil) {
						rfail("%s: error %v", what, err)
						return
					}
					expect(what, a, R, C, func(p, q int) float64 {
						if ok && q == j {
							return -float64(p) - 0.25
						}
						return a0[p][q]
					}, nil)
				})
			}
		}
	}
}

// historyC05 runs random sequences of reads and writes against a plain model.
func historyC05(r *rng, R, C, steps int) {
	a := gen(r, R, C, 3)
	model := clone(a.M)
	other := gen(r, R, C, 1)
	log := ""
	pick := func(n int) int {
		if r.intn(8) == 0 {
			return []int{-1, n, n + 1, -n}[r.intn(4)]
		}
		if n > 4 && r.intn(2) == 0 {
			return r.intn(3)
		}
		return r.intn(n)
	}
	ok := true
	for t := 0; t < steps && ok; t++ {
		i, j := pick(R), pick(C)
		inR, inC := i >= 0 && i < R, j >= 0 && j < C
		op := r.intn(7)
		what := fmt.Sprintf("%dx%d after%s: op %d (%d,%d)", R, C, log, op, i, j)
		log += fmt.Sprintf(" %d(%d,%d)", op, i, j)
		if len(log) > 200 {
			log = log[len(log)-200:]
		}
		n0 := rfails
		try(what, func() {
			switch op {
			case 0:
				x, err := a.Get(i, j)
				if (err == nil) != (inR && inC) || err == nil && x != model[i][j] {
					rfail("%s: Get gives %v %v", what, x, err)
				}
			case 1:
				x := r.unit()
				err := a.Set(i, j, x)
				if (err == nil) != (inR && inC) {
					rfail("%s: Set gives %v", what, err)
				} else if err == nil {
					model[i][j] = x
				}
			case 2:
				x, err := a.GetRow(i)
				if (err == nil) != inR || err == nil && fmt.Sprint(x) != fmt.Sprint(model[i]) {
					rfail("%s: GetRow gives %v %v", what, x, err)
				}
			case 3:
				x, err := a.GetColumn(j)
				if (err == nil) != inC || err == nil && len(x) != R {
					rfail("%s: GetColumn gives %v %v", what, x, err)
				} else if err == nil {
					for k := range x {
						if x[k] != model[k][j] {
							rfail("%s: GetColumn gives %v for row %d, stored %v", what, x[k], k, model[k][j])
						}
					}
				}
			case 4:
				v := make([]float64, C)
				for k := range v {
					v[k] = r.unit()
				}
				w := append([]float64{}, v...)
				err := a.SetRow(i, v)
				if (err == nil) != inR {
					rfail("%s: SetRow gives %v", what, err)
				} else if err == nil {
					model[i] = w
				}
			case 5:
				v := make([]float64, R)
				for k := range v {
					v[k] = r.unit()
				}
				err := a.SetColumn(j, v)
				if (err == nil) != inC {
					rfail("%s: SetColumn gives %v", what, err)
				} else if err == nil {
					for k := range v {
						model[k][j] = v[k]
					}
				}
			default:
				other.Set(r.intn(R), r.intn(C), r.unit())
				other.GetColumn(r.intn(C))
				other.GetRow(r.intn(R))
			}
		})
		ok = unchanged(what+" (compared with a plain model)", a, R, C, model) && rfails == n0
	}
}

func driveC06() {
	r := &rng{6}
	one := func(a, b Matrix) {
		a0, b0 := clone(a.M), clone(b.M)
		w := a.Rows == b.Rows && a.Cols == b.Cols
		if w {
			for i := range a0 {
				for j := range a0[i] {
					w = w && a0[i][j] == b0[i][j]
				}
			}
		}
		what := fmt.Sprintf("Equals of %dx%d and %dx%d", a.Rows, a.Cols, b.Rows, b.Cols)
		if a.Rows*a.Cols+b.Rows*b.Cols < 60 {
			what += " " + show(a0) + " " + show(b0)
		}
		try(what, func() {
			if g := a.Equals(b); g != w {
				rfail("%s: %v, expected %v", what, g, w)
			}
		})
		unchanged(what, a, a.Rows, a.Cols, a0)
		unchanged(what, b, b.Rows, b.Cols, b0)
	}
	for _, s := range shapes {
		for kind := 0; kind < 4; kind++ {
			if s[0]*s[1] > 1000 && kind > 0 {
				continue
			}
			a := gen(r, s[0], s[1], kind)
			one(a, mof(clone(a.M)))
			one(a, a)
			for i := 0; i < s[0]; i++ {
				for j := 0; j < s[1]; j++ {
					if s[0]*s[1] > 100 && (i*s[1]+j)%29 != 0 && i > 1 && i < s[0]-2 {
						continue
					}
					for _, d := range []float64{1, -1, 1e-13, 1e-9, math.NaN(), math.Inf(1)} {
						b := mof(clone(a.M))
						b.M[i][j] += d
						one(a, b)
						one(b, a)
					}
					b := mof(clone(a.M))
					b.M[i][j] = -b.M[i][j]
					one(a, b)
				}
			}
		}
		for _, u := range shapes {
			if s[0] > 9 && u[0] != s[0] && u[1] != s[0] || s[1] > 9 && u[0] != s[1] && u[1] != s[1] {
				continue
			}
			one(gen(r, s[0], s[1], 3), gen(r, u[0], u[1], 3))
		}
		z := Matrix{s[0], s[1], make([][]float64, s[0])}
		y := Matrix{s[0], s[1], make([][]float64, s[0])}
		for i := range z.M {
			z.M[i] = make([]float64, s[1])
			y.M[i] = make([]float64, s[1])
			for j := range y.M[i] {
				y.M[i][j] = math.Copysign(0, -1)
			}
		}
		one(z, y)
	}
}
