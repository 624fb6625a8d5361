package main

// SMT terms. Terms are immutable; their textual form is cached.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Term struct {
	Op   string
	Args []*Term
	Sort string
	Vars []*Term   // for quantifiers
	Pats [][]*Term // for quantifiers
	s    string
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SF    = "F"
	SStr  = "Str"
	SMV   = "MV"
)

func arrSort(s string) string  { return "(Array Int " + s + ")" }
func arrElem(s string) string  { return strings.TrimSuffix(strings.TrimPrefix(s, "(Array Int "), ")") }

var (
	tTrue  = &Term{Op: "true", Sort: SBool}
	tFalse = &Term{Op: "false", Sort: SBool}
)

func (t *Term) String() string {
	if t.s != "" {
		return t.s
	}
	if t.Op == "forall" || t.Op == "exists" {
		var b strings.Builder
		b.WriteString("(" + t.Op + " (")
		for i, v := range t.Vars {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString("(" + v.Op + " " + v.Sort + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(t.Args[0].String())
		for _, p := range t.Pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(x.String())
			}
			b.WriteString(")")
		}
		if len(t.Pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		t.s = b.String()
		return t.s
	}
	if len(t.Args) == 0 {
		t.s = t.Op
		return t.s
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(t.Op)
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(a.String())
	}
	b.WriteByte(')')
	t.s = b.String()
	return t.s
}

func same(a, b *Term) bool { return a == b || (a.Sort == b.Sort && a.String() == b.String()) }

func V(name, sort string) *Term { return &Term{Op: name, Sort: sort} }
func App(op, sort string, args ...*Term) *Term {
	for _, a := range args {
		if a == nil {
			panic("nil arg in " + op)
		}
	}
	return &Term{Op: op, Sort: sort, Args: args}
}

func I(n int64) *Term {
	if n < 0 {
		return &Term{Op: "-", Sort: SInt, Args: []*Term{I(-n)}}
	}
	return &Term{Op: fmt.Sprint(n), Sort: SInt}
}
func bigI(n *big.Int) *Term {
	if n.Sign() < 0 {
		return &Term{Op: "-", Sort: SInt, Args: []*Term{bigI(new(big.Int).Neg(n))}}
	}
	return &Term{Op: n.String(), Sort: SInt}
}

func (t *Term) intVal() (*big.Int, bool) {
	if t.Sort != SInt {
		return nil, false
	}
	if len(t.Args) == 0 && t.Op != "" && t.Op[0] >= '0' && t.Op[0] <= '9' {
		n, ok := new(big.Int).SetString(t.Op, 10)
		return n, ok
	}
	if t.Op == "-" && len(t.Args) == 1 {
		n, ok := t.Args[0].intVal()
		if ok {
			return new(big.Int).Neg(n), true
		}
	}
	return nil, false
}

func Not(a *Term) *Term {
	switch {
	case a.Op == "true":
		return tFalse
	case a.Op == "false":
		return tTrue
	case a.Op == "not":
		return a.Args[0]
	}
	return App("not", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a == nil || a.Op == "true" {
			continue
		}
		if a.Op == "false" {
			return tFalse
		}
		if a.Op == "and" {
			out = append(out, a.Args...)
			continue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("and", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a == nil || a.Op == "false" {
			continue
		}
		if a.Op == "true" {
			return tTrue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return App("or", SBool, out...)
}

func Imp(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" {
		return tTrue
	}
	return App("=>", SBool, a, b)
}

func Eq(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			if x.Cmp(y) == 0 {
				return tTrue
			}
			return tFalse
		}
	}
	if a.Sort == SBool {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return Not(b)
		}
		if b.Op == "false" {
			return Not(a)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	return App("=", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c.Op == "true" {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if same(a, b) {
		return a
	}
	return App("ite", a.Sort, c, a, b)
}

// linear form helper: sum of terms + const
func linear(t *Term, sign int64, acc map[string]int64, terms map[string]*Term, order *[]string) (c int64, ok bool) {
	if n, isn := t.intVal(); isn {
		if !n.IsInt64() {
			return 0, false
		}
		return sign * n.Int64(), true
	}
	switch {
	case t.Op == "+":
		var s int64
		for _, a := range t.Args {
			x, ok := linear(a, sign, acc, terms, order)
			if !ok {
				return 0, false
			}
			s += x
		}
		return s, true
	case t.Op == "-" && len(t.Args) == 2:
		x, ok := linear(t.Args[0], sign, acc, terms, order)
		if !ok {
			return 0, false
		}
		y, ok := linear(t.Args[1], -sign, acc, terms, order)
		if !ok {
			return 0, false
		}
		return x + y, true
	}
	k := t.String()
	if _, seen := terms[k]; !seen {
		terms[k] = t
		*order = append(*order, k)
	}
	acc[k] += sign
	return 0, true
}

func mkLinear(t *Term) *Term {
	acc := map[string]int64{}
	terms := map[string]*Term{}
	var order []string
	c, ok := linear(t, 1, acc, terms, &order)
	if !ok {
		return t
	}
	var pos, neg []*Term
	for _, k := range order {
		n := acc[k]
		for ; n > 0; n-- {
			pos = append(pos, terms[k])
		}
		for ; n < 0; n++ {
			neg = append(neg, terms[k])
		}
	}
	if c > 0 {
		pos = append(pos, I(c))
	} else if c < 0 {
		neg = append(neg, I(-c))
	}
	var p *Term
	switch len(pos) {
	case 0:
		p = I(0)
	case 1:
		p = pos[0]
	default:
		p = App("+", SInt, pos...)
	}
	for _, n := range neg {
		if v, ok := p.intVal(); ok && v.Sign() == 0 {
			if w, ok := n.intVal(); ok {
				p = bigI(new(big.Int).Neg(w))
				continue
			}
		}
		p = App("-", SInt, p, n)
	}
	return p
}

func Add(a, b *Term) *Term { return mkLinear(App("+", SInt, a, b)) }
func Sub(a, b *Term) *Term { return mkLinear(App("-", SInt, a, b)) }
func Mul(a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return bigI(new(big.Int).Mul(x, y))
		}
		if x.IsInt64() && x.Int64() == 1 {
			return b
		}
		if x.Sign() == 0 {
			return I(0)
		}
	}
	if y, ok := b.intVal(); ok {
		if y.IsInt64() && y.Int64() == 1 {
			return a
		}
		if y.Sign() == 0 {
			return I(0)
		}
	}
	if a.String() > b.String() { // canonical order for nonlinear products
		a, b = b, a
	}
	return App("*", SInt, a, b)
}
func Lt(a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			if x.Cmp(y) < 0 {
				return tTrue
			}
			return tFalse
		}
	}
	return App("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			if x.Cmp(y) <= 0 {
				return tTrue
			}
			return tFalse
		}
	}
	if same(a, b) {
		return tTrue
	}
	return App("<=", SBool, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Sel(a, i *Term) *Term {
	if a.Op == "store" && same(a.Args[1], i) {
		return a.Args[2]
	}
	return App("select", arrElem(a.Sort), a, i)
}
func Sto(a, i, v *Term) *Term {
	if arrElem(a.Sort) != v.Sort {
		panic("store sort " + a.Sort + " " + v.Sort + " " + v.String())
	}
	return App("store", a.Sort, a, i, v)
}
func Ix(off, i *Term) *Term { return App("ix", SInt, off, i) }

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.Op == "true" {
		return tTrue
	}
	return &Term{Op: "forall", Sort: SBool, Vars: vars, Args: []*Term{body}, Pats: pats}
}

// subst replaces free constants by name.
func subst(t *Term, m map[string]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	if len(t.Args) == 0 {
		if r, ok := m[t.Op]; ok && r.Sort == t.Sort {
			return r
		}
		return t
	}
	if t.Op == "forall" || t.Op == "exists" {
		m2 := map[string]*Term{}
		for k, v := range m {
			m2[k] = v
		}
		for _, v := range t.Vars {
			delete(m2, v.Op)
		}
		nt := &Term{Op: t.Op, Sort: t.Sort, Vars: t.Vars, Args: []*Term{subst(t.Args[0], m2)}}
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, subst(x, m2))
			}
			nt.Pats = append(nt.Pats, q)
		}
		return nt
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	switch t.Op {
	case "+", "-":
		if t.Sort == SInt {
			return mkLinear(&Term{Op: t.Op, Sort: t.Sort, Args: args})
		}
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "not":
		return Not(args[0])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	}
	return &Term{Op: t.Op, Sort: t.Sort, Args: args}
}

// walkGround visits every subterm that contains no bound variable.
func walkGround(t *Term, bound map[string]bool, f func(*Term)) bool {
	if t.Op == "forall" || t.Op == "exists" {
		b2 := map[string]bool{}
		for k := range bound {
			b2[k] = true
		}
		for _, v := range t.Vars {
			b2[v.Op] = true
		}
		walkGround(t.Args[0], b2, f)
		return false
	}
	if len(t.Args) == 0 {
		return !bound[t.Op]
	}
	g := true
	for _, a := range t.Args {
		if !walkGround(a, bound, f) {
			g = false
		}
	}
	if g {
		f(t)
	}
	return g
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Float terms.
func fop(op string, args ...*Term) *Term { return App(op, SF, args...) }
func I2F(n *Term) *Term                  { return App("i2f", SF, n) }
func FLt(a, b *Term) *Term               { return App("flt", SBool, a, b) }
func FLe(a, b *Term) *Term               { return App("fle", SBool, a, b) }
func FEq(a, b *Term) *Term               { return App("feq", SBool, a, b) }
