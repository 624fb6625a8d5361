package main

// Contracts: parsing of /verif/contracts/*.gov and evaluation of contract
// expressions in symbolic states.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Clause struct {
	Kind  string // requires ensures entry step inv modifies panics
	Props []string
	Name  string
	Expr  ast.Expr
	Text  string
	// entry / step
	Target     string
	Idx        [2]string
	When       ast.Expr
	Size       [2]ast.Expr
	List       []ast.Expr // modifies
	Dropped    bool       // failed in this run: callers may not rely on it
	DropReason string
	Free       bool // assumed by callers, not checked (only for externs)
	Metas      []*Term // metavariables of a loop template: name and kind
	TargetX    ast.Expr
	Need       string // template only for loops which write this heap
}

type Contract struct {
	Key     string
	Kind    string // func, extern, iface
	Params  []string
	Results []string
	Props   []string
	Clauses []*Clause
	Pure    bool
	Opaque  bool // body not verified
	NoSafe  bool
	FrameDropped bool
	Broken  string // the function could not be verified at all
	File    string
	Effects []string
	Nilable map[string]bool
	Ieee    bool // no fallback to the real reading
	Recv    types.Type // iface refinement: concrete receiver
}

func (c *Contract) of(kind string) []*Clause {
	var out []*Clause
	if c == nil {
		return nil
	}
	for _, k := range c.Clauses {
		if k.Kind == kind {
			out = append(out, k)
		}
	}
	return out
}

type Macro struct {
	Name   string
	Params []string
	Body   ast.Expr
}
type Rec struct {
	Name   string
	Params []*Term // sorts
	Ret    string
	Body   ast.Expr
}
type Mat struct {
	Name string
	Par  []*Term
	Size [2]ast.Expr
	Body ast.Expr
}

type Specs struct {
	contracts map[string]*Contract
	macros    map[string]*Macro
	recs      map[string]*Rec
	mats      map[string]*Mat
	matOrder  []string
	recOrder  []string
	smtFuncs  map[string]smtSig
	floatLits map[string]bool
	axioms    []string
	lemmas    []*Lemma
	tmplAll   []*Clause // loop templates for every function
	ghosts    map[string]string
}
type Lemma struct {
	Name  string
	Props []string
	Vars  []*Term
	On    string // induction variable
	Hyp   ast.Expr
	Goal  ast.Expr
	Pats  []ast.Expr
	Text  string
	Proved bool
	RealOnly bool // proved in the real reading only
	Theory string // further axioms: contracts/float_<Theory>.smt2, IEEE only
}
type smtSig struct {
	args []string
	ret  string
}

var specs *Specs

func sortOfName(n string) string {
	switch n {
	case "int", "Int", "ref":
		return SInt
	case "bool", "Bool":
		return SBool
	case "float64", "F":
		return SF
	case "string", "Str":
		return SStr
	case "MV":
		return SMV
	case "FArr":
		return "(Array Int F)"
	case "IArr":
		return "(Array Int Int)"
	}
	return n
}

var reSig = regexp.MustCompile(`^\((declare-fun|define-fun) ([^ ]+) `)

// parse sexpr sorts list helper
func splitSexprs(s string) []string {
	var out []string
	depth, start := 0, -1
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			if depth == 0 && start < 0 {
				start = i
			}
			depth++
		case ')':
			depth--
			if depth == 0 && start >= 0 && s[start] == '(' {
				out = append(out, s[start:i+1])
				start = -1
			}
		case ' ', '\t', '\n':
			if depth == 0 && start >= 0 {
				out = append(out, s[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

func (sp *Specs) scanSMT(text string) {
	for _, l := range strings.Split(text, "\n") {
		m := reSig.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		parts := splitSexprs(strings.TrimSuffix(strings.TrimSpace(l)[1:], ")"))
		if len(parts) < 4 {
			continue
		}
		inner := splitSexprs(parts[2][1 : len(parts[2])-1])
		var args []string
		for _, a := range inner {
			if m[1] == "define-fun" {
				p := splitSexprs(a[1 : len(a)-1])
				args = append(args, p[1])
			} else {
				args = append(args, a)
			}
		}
		sp.smtFuncs[m[2]] = smtSig{args, parts[3]}
	}
}

func parseExpr(s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("contract expression %q: %v", s, err))
	}
	ast.Inspect(e, func(n ast.Node) bool {
		if b, ok := n.(*ast.BasicLit); ok && b.Kind == token.FLOAT {
			specs.floatLits[b.Value] = true
		}
		return true
	})
	return e
}

var reProps = regexp.MustCompile(`^\[([A-Z0-9, ]+)\]\s*`)
var reName = regexp.MustCompile(`^([a-z][a-zA-Z0-9_-]*):\s+`)

func splitTop(s, sep string) []string {
	var out []string
	depth, last := 0, 0
	for i := 0; i+len(sep) <= len(s); i++ {
		switch s[i] {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		}
		if depth == 0 && strings.HasPrefix(s[i:], sep) {
			out = append(out, strings.TrimSpace(s[last:i]))
			last = i + len(sep)
			i += len(sep) - 1
		}
	}
	return append(out, strings.TrimSpace(s[last:]))
}

func splitList(s string) []string {
	var out []string
	for _, x := range splitTop(s, ",") {
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func loadSpecs(dir string) *Specs {
	sp := &Specs{contracts: map[string]*Contract{}, macros: map[string]*Macro{}, recs: map[string]*Rec{}, mats: map[string]*Mat{}, smtFuncs: map[string]smtSig{}, floatLits: map[string]bool{}, ghosts: map[string]string{}}
	specs = sp
	files, _ := filepath.Glob(filepath.Join(dir, "*.gov"))
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parseFile(f, string(data))
	}
	return sp
}

func paramTerms(s string) []*Term {
	var out []*Term
	var pend []string
	for _, p := range splitList(s) {
		f := strings.Fields(p)
		if len(f) == 1 {
			pend = append(pend, f[0])
			continue
		}
		for _, q := range pend {
			out = append(out, V(q, sortOfName(strings.Join(f[1:], " "))))
		}
		pend = nil
		out = append(out, V(f[0], sortOfName(strings.Join(f[1:], " "))))
	}
	return out
}

var reDef = regexp.MustCompile(`^(def|rec) ([a-zA-Z_0-9]+)\(([^)]*)\)\s*([A-Za-z0-9]*)\s*=\s*(.*)$`)
var reMat = regexp.MustCompile(`^mat ([a-zA-Z_0-9]+)\(([^)]*)\)\s*\[(.*?)\]\s*=\s*(.*)$`)
var reFunc = regexp.MustCompile(`^(func|extern|iface)\s+(\([^)]*\)\.?[^\s(]*|[^\s(]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*(.*)$`)
var reLemma = regexp.MustCompile(`^lemma ([a-zA-Z_0-9]+)\(([^)]*)\)\s*(.*)$`)

func (sp *Specs) parseFile(file, data string) {
	var lines []string
	for _, l := range strings.Split(data, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimRight(l, " \t")
		if strings.TrimSpace(l) == "" {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, " \t"))
		if ind >= 4 && len(lines) > 0 {
			lines[len(lines)-1] += " " + strings.TrimSpace(l)
			continue
		}
		lines = append(lines, l)
	}
	var cur *Contract
	var lem *Lemma
	for _, l := range lines {
		if l[0] != ' ' && l[0] != '\t' {
			cur, lem = nil, nil
			switch {
			case strings.HasPrefix(l, "def "), strings.HasPrefix(l, "rec "):
				m := reDef.FindStringSubmatch(l)
				if m == nil {
					panic("bad def: " + l)
				}
				if m[1] == "def" {
					mc := &Macro{Name: m[2], Body: parseExpr(m[5])}
					for _, p := range splitList(m[3]) {
						mc.Params = append(mc.Params, strings.Fields(p)[0])
					}
					sp.macros[m[2]] = mc
				} else {
					sp.recs[m[2]] = &Rec{Name: m[2], Params: paramTerms(m[3]), Ret: sortOfName(m[4]), Body: parseExpr(m[5])}
					sp.recOrder = append(sp.recOrder, m[2])
					var as []string
					for _, p := range sp.recs[m[2]].Params {
						as = append(as, p.Sort)
					}
					sp.smtFuncs[m[2]] = smtSig{as, sortOfName(m[4])}
				}
			case strings.HasPrefix(l, "mat "):
				m := reMat.FindStringSubmatch(l)
				if m == nil {
					panic("bad mat: " + l)
				}
				sz := splitList(m[3])
				mt := &Mat{Name: m[1], Par: paramTerms(m[2]), Size: [2]ast.Expr{parseExpr(sz[0]), parseExpr(sz[1])}, Body: parseExpr(m[4])}
				sp.mats[m[1]] = mt
				sp.matOrder = append(sp.matOrder, m[1])
				var as []string
				for _, p := range mt.Par {
					as = append(as, p.Sort)
				}
				sp.smtFuncs[m[1]] = smtSig{as, SMV}
			case strings.HasPrefix(l, "lemma "):
				m := reLemma.FindStringSubmatch(l)
				lem = &Lemma{Name: m[1], Vars: paramTerms(m[2]), Text: l}
				if strings.HasPrefix(m[3], "by ") {
					lem.On = strings.TrimSpace(m[3][3:])
				}
				sp.lemmas = append(sp.lemmas, lem)
			case strings.HasPrefix(l, "ghost "):
				f := strings.Fields(l)
				sp.ghosts[f[1]] = sortOfName(f[2])
				regHeap("g:"+f[1], sortOfName(f[2]), false)
			case strings.HasPrefix(l, "template "):
				c := &Clause{Kind: "inv"}
				t := strings.TrimPrefix(l, "template ")
				if strings.HasPrefix(t, "rows ") {
					c.Need = hRowR
					t = t[5:]
				}
				c.parseInv(t)
				c.Name = fmt.Sprintf("all%d", len(sp.tmplAll))
				sp.tmplAll = append(sp.tmplAll, c)
			case strings.HasPrefix(l, "uninterp "):
				r := regexp.MustCompile(`^uninterp ([a-zA-Z_0-9]+)\(([^)]*)\)\s*(\S+)$`).FindStringSubmatch(l)
				if r == nil {
					panic("bad uninterp: " + l)
				}
				var as []string
				for _, p := range splitList(r[2]) {
					as = append(as, sortOfName(p))
				}
				sp.smtFuncs[r[1]] = smtSig{as, sortOfName(r[3])}
				sp.axioms = append(sp.axioms, fmt.Sprintf("(declare-fun %s (%s) %s)", r[1], strings.Join(as, " "), sortOfName(r[3])))
			default:
				m := reFunc.FindStringSubmatch(l)
				if m == nil {
					panic("bad contract line in " + file + ": " + l)
				}
				cur = &Contract{Key: m[2], Kind: m[1], File: filepath.Base(file)}
				names := func(s string) (out []string) {
					for _, p := range splitList(s) {
						out = append(out, strings.Fields(p)[0])
					}
					return
				}
				cur.Params, cur.Results = names(m[3]), names(m[4])
				for _, w := range strings.Fields(m[5]) {
					switch w {
					case "pure":
						cur.Pure = true
					case "opaque":
						cur.Opaque = true
					case "ieee":
						cur.Ieee = true
					default:
						panic("bad attribute " + w + " in " + l)
					}
				}
				if sp.contracts[cur.Key] != nil {
					panic("duplicate contract " + cur.Key)
				}
				sp.contracts[cur.Key] = cur
			}
			continue
		}
		t := strings.TrimSpace(l)
		kw, rest, _ := strings.Cut(t, " ")
		rest = strings.TrimSpace(rest)
		if lem != nil {
			switch kw {
			case "props":
				lem.Props = strings.Fields(rest)
			case "assume":
				if lem.Hyp != nil {
					panic("two assume clauses: " + l)
				}
				lem.Hyp = parseExpr(rest)
			case "theory":
				lem.Theory = rest
			case "prove":
				lem.Goal = parseExpr(rest)
			case "trigger":
				for _, p := range splitList(rest) {
					lem.Pats = append(lem.Pats, parseExpr(p))
				}
			default:
				panic("bad lemma clause " + t)
			}
			continue
		}
		if cur == nil {
			panic("clause outside contract: " + l)
		}
		if kw == "props" {
			cur.Props = strings.Fields(rest)
			continue
		}
		if kw == "nilable" {
			if cur.Nilable == nil {
				cur.Nilable = map[string]bool{}
			}
			for _, w := range splitList(rest) {
				cur.Nilable[w] = true
			}
			continue
		}
		if kw == "effects" {
			cur.Effects = splitList(rest)
			continue
		}
		c := &Clause{Kind: kw, Text: rest}
		if m := reProps.FindStringSubmatch(rest); m != nil {
			for _, p := range strings.FieldsFunc(m[1], func(r rune) bool { return r == ',' || r == ' ' }) {
				c.Props = append(c.Props, p)
			}
			rest = rest[len(m[0]):]
		}
		if m := reName.FindStringSubmatch(rest); m != nil {
			c.Name = m[1]
			rest = rest[len(m[0]):]
		}
		if c.Props == nil {
			c.Props = cur.Props
		}
		c.Text = rest
		switch kw {
		case "requires", "ensures", "panics", "assume":
			c.Expr = parseExpr(rest)
		case "inv":
			c.parseInv(rest)
		case "log": // log COUNTER t [when c]: facts naming the t-th call
			m := regexp.MustCompile(`^(\w+) (\w+)(?: when (.*?))?: (.*)$`).FindStringSubmatch(rest)
			if m == nil {
				panic("bad log clause: " + rest)
			}
			c.Name = "log " + m[1]
			c.Target = m[1]
			c.Idx[0] = m[2]
			if m[3] != "" {
				c.When = parseExpr(m[3])
			}
			c.Expr = parseExpr(m[4])
		case "matrix", "mstep":
			if i := strings.LastIndex(rest, " when "); i >= 0 {
				c.When = parseExpr(rest[i+6:])
				rest = rest[:i]
			}
			if kw == "matrix" {
				l, r, ok := strings.Cut(rest, " = ")
				if !ok {
					panic("bad matrix clause: " + rest)
				}
				c.Target = strings.TrimSpace(l)
				c.TargetX = parseExpr(l)
				rest = r
			}
			c.Expr = parseExpr(rest)
		case "modifies":
			if i := strings.LastIndex(rest, " when "); i >= 0 {
				c.When = parseExpr(rest[i+6:])
				rest = rest[:i]
			}
			for _, x := range splitList(rest) {
				if x == "nothing" {
					continue
				}
				c.List = append(c.List, parseExpr(x))
			}
		case "entry", "step":
			// target[i,j] [when cond] size (a, b) = expr
			m := regexp.MustCompile(`^([a-zA-Z_0-9]*)\[([a-z]+), ?([a-z]+)\]\s*(?:when (.*?) )?size \[(.*?)\]\s*=\s*(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				panic("bad entry clause: " + rest)
			}
			c.Target = m[1]
			if m[1] != "" {
				c.TargetX = parseExpr(m[1])
			}
			c.Idx = [2]string{m[2], m[3]}
			if m[4] != "" {
				c.When = parseExpr(m[4])
			}
			sz := splitList(m[5])
			c.Size = [2]ast.Expr{parseExpr(sz[0]), parseExpr(sz[1])}
			c.Expr = parseExpr(m[6])
		default:
			panic("bad clause keyword " + kw + " in " + l)
		}
		cur.Clauses = append(cur.Clauses, c)
		if c.Name == "" {
			c.Name = fmt.Sprintf("%s%d", kw, len(cur.of(kw)))
		}
	}
}

var reMetas = regexp.MustCompile(`^<([^>]*)>\s*`)

func (c *Clause) parseInv(rest string) {
	if m := reMetas.FindStringSubmatch(rest); m != nil {
		for _, p := range splitList(m[1]) {
			f := strings.Fields(p)
			if len(f) == 1 {
				f = []string{"_", f[0]}
			}
			c.Metas = append(c.Metas, V(f[0], f[1]))
		}
		rest = rest[len(m[0]):]
	}
	c.Expr = parseExpr(rest)
}

// entryPost: the meaning of an entry or matrix clause in the final state.
func (e *Env) entryPost(c *Clause, pointwise bool) *Term {
	v := e.v
	when := tTrue
	if c.When != nil {
		when = e.boolean(c.When)
	}
	if when.Op == "false" {
		return tTrue
	}
	tx := e.eval(c.TargetX)
	x := e.autoDeref(tx)
	isRes := false
	if id, ok := c.TargetX.(*ast.Ident); ok && e.results[id.Name] {
		isRes = true
	}
	var parts []*Term
	var rows, cols *Term
	if c.Kind == "matrix" {
		m := e.inOld().mvTerm(c.Expr)
		rows, cols = App("rows", SInt, m), App("cols", SInt, m)
		parts = append(parts, Eq(v.view(e.st, x), m))
		if pointwise {
			i, j := v.boundVar("i", SInt), v.boundVar("j", SInt)
			a := v.matAt(e.st, x, i, j)
			parts = append(parts, Forall([]*Term{i, j}, Imp(And(Le(I(0), i), Lt(i, rows), Le(I(0), j), Lt(j, cols)), Eq(a, App("at", SF, m, i, j))), []*Term{a}))
		}
	} else {
		rows, cols = e.inOld().term(c.Size[0]), e.inOld().term(c.Size[1])
		i, j := v.boundVar("i", SInt), v.boundVar("j", SInt)
		a := v.matAt(e.st, x, i, j)
		val := toF(e.inOld().with(c.Idx[0], i).with(c.Idx[1], j).term(c.Expr))
		parts = append(parts, Forall([]*Term{i, j}, Imp(And(Le(I(0), i), Lt(i, rows), Le(I(0), j), Lt(j, cols)), Eq(a, val)), []*Term{a}))
	}
	r, cc := matDims(x)
	pre := []*Term{Eq(r, rows), Eq(cc, cols)}
	if isRes {
		pre = append(pre, v.wfMatrix(e.st, x))
		if c.Kind == "matrix" || !c.Free {
			pre = append(pre, e.freshPred(c.TargetX, x))
		}
	}
	return Imp(when, And(append(pre, parts...)...))
}

func (e *Env) mvTerm(x ast.Expr) *Term {
	y := e.eval(x)
	if t, ok := y.(*Term); ok && t.Sort == SMV {
		return t
	}
	return e.v.view(e.st, e.autoDeref(y))
}

// ---- constants ----

var (
	fconsts  = map[string]*big.Rat{}
	sconsts  = map[string]string{} // literal -> const name
	constMu  sync.Mutex
	heapMu   sync.Mutex
	constsOK = true // constants may still be registered
)

func fconstName(f float64) string {
	return "fc!" + strings.NewReplacer("+", "p", "-", "m", ".", "_").Replace(strconv.FormatFloat(f, 'x', -1, 64))
}

func fconst(f float64) *Term {
	if f == float64(int64(f)) && f > -9e15 && f < 9e15 {
		return I2F(I(int64(f)))
	}
	n := fconstName(f)
	constMu.Lock()
	defer constMu.Unlock()
	if _, ok := fconsts[n]; !ok {
		if !constsOK {
			unsupported("float constant %v not registered", f)
		}
		fconsts[n] = new(big.Rat).SetFloat64(f)
	}
	return V(n, SF)
}

func strConst(s string) *Term {
	constMu.Lock()
	defer constMu.Unlock()
	n, ok := sconsts[s]
	if !ok {
		if !constsOK {
			unsupported("string constant %q not registered", s)
		}
		n = fmt.Sprintf("str!%d", len(sconsts))
		sconsts[s] = n
	}
	return V(n, SStr)
}

func floatLit(s string) float64 {
	c := constant.MakeFromLiteral(s, token.FLOAT, 0)
	f, _ := constant.Float64Val(c)
	return f
}

func constsPrelude(real bool) string {
	var b strings.Builder
	for _, k := range sortedKeys(fconsts) {
		r := fconsts[k]
		val := fmt.Sprintf("(/ %s.0 %s.0)", new(big.Int).Abs(r.Num()), r.Denom())
		if r.Sign() < 0 {
			val = "(- " + val + ")"
		}
		if real {
			fmt.Fprintf(&b, "(define-fun %s () F %s)\n", k, val)
		} else {
			fmt.Fprintf(&b, "(declare-const %s F)\n(assert (and (not (fnan %s)) (= (rk %s) %s)))\n", k, k, k, val)
		}
	}
	var names []string
	var lits []string
	for l := range sconsts {
		lits = append(lits, l)
	}
	sort.Strings(lits)
	for _, l := range lits {
		fmt.Fprintf(&b, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", sconsts[l], sconsts[l], len(l))
		names = append(names, sconsts[l])
	}
	if len(names) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(names, " "))
	}
	return b.String()
}

// ---- evaluation ----

type Env struct {
	v    *Verifier
	vars map[string]Value
	st   *State // state for heap reads
	old  *State
	loop *State // state on entry of the loop (templates only)
	cur  *State // the state outside old(...)
	results map[string]bool
}

func (e *Env) with(name string, x Value) *Env {
	n := *e
	n.vars = make(map[string]Value, len(e.vars)+1)
	for k, y := range e.vars {
		n.vars[k] = y
	}
	n.vars[name] = x
	return &n
}
func (e *Env) inOld() *Env {
	n := *e
	if e.old != nil {
		n.st = e.old
		if n.cur == nil {
			n.cur = e.st
		}
	}
	return &n
}

func (e *Env) fail(x ast.Expr, f string, a ...any) {
	panic(Unsupported{"contract: " + fmt.Sprintf(f, a...) + " in " + exprString(x)})
}

func exprString(x ast.Expr) string { return types.ExprString(x) }

func (e *Env) term(x ast.Expr) *Term {
	r := e.eval(x)
	t, ok := r.(*Term)
	if !ok {
		e.fail(x, "scalar expected, got %T", r)
	}
	return t
}
func (e *Env) boolean(x ast.Expr) *Term {
	t := e.term(x)
	if t.Sort != SBool {
		e.fail(x, "boolean expected")
	}
	return t
}
func isIntLit(t *Term) bool { _, ok := t.intVal(); return ok }

func toF(t *Term) *Term {
	if t.Sort == SInt && isIntLit(t) {
		return I2F(t)
	}
	if t.Sort == SInt && t.Op == "ite" {
		a, b := toF(t.Args[1]), toF(t.Args[2])
		if a.Sort == SF && b.Sort == SF {
			return Ite(t.Args[0], a, b)
		}
	}
	return t
}
func unifyF(a, b *Term) (*Term, *Term) {
	if a.Sort == SF || b.Sort == SF {
		return toF(a), toF(b)
	}
	return a, b
}

// autoDeref turns a pointer to a struct into the struct.
func (e *Env) autoDeref(x Value) Value {
	if p, ok := x.(*PtrV); ok {
		return e.v.load(e.st, p)
	}
	return x
}

func (e *Env) eval(x ast.Expr) Value {
	v := e.v
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			i, _ := new(big.Int).SetString(n.Value, 0)
			return bigI(i)
		case token.FLOAT:
			return fconst(floatLit(n.Value))
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return strConst(s)
		}
	case *ast.Ident:
		switch n.Name {
		case "true":
			return tTrue
		case "false":
			return tFalse
		}
		if y, ok := e.vars[n.Name]; ok {
			return y
		}
		if m, ok := specs.macros[n.Name]; ok && len(m.Params) == 0 {
			return e.eval(m.Body)
		}
		if n.Name == "nil" {
			return nil
		}
		if sig, ok := specs.smtFuncs[n.Name]; ok && len(sig.args) == 0 {
			return V(n.Name, sig.ret)
		}
		if g := v.globalByName(n.Name); g != nil {
			return v.load(e.st, g)
		}
		e.fail(x, "unknown name %s", n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return Not(e.boolean(n.X))
		case token.SUB:
			t := e.term(n.X)
			if t.Sort == SF {
				return fop("fneg", t)
			}
			return Sub(I(0), t)
		case token.AND: // &x: keep pointers
			return e.eval(n.X)
		}
	case *ast.StarExpr:
		return e.autoDeref(e.eval(n.X))
	case *ast.SelectorExpr:
		base := e.eval(n.X)
		return e.field(x, base, n.Sel.Name)
	case *ast.IndexExpr:
		base := e.eval(n.X)
		switch b := base.(type) {
		case *SliceV:
			i := e.term(n.Index)
			return v.load(e.st, &PtrV{Kind: pElem, Elem: b.Elem, Base: b.Elem, Ref: b.Ref, Idx: v.elemIdx(b, i)})
		case MapV:
			k := e.term(n.Index)
			return v.mapGet(e.st, b, k)
		case *Term:
			if strings.HasPrefix(b.Sort, "(Array") {
				return Sel(b, e.term(n.Index))
			}
		}
		e.fail(x, "cannot index %T", base)
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.CallExpr:
		return e.call(n)
	}
	e.fail(x, "unsupported expression %T", x)
	return nil
}

func (e *Env) field(x ast.Expr, base Value, name string) Value {
	switch b := base.(type) {
	case *PtrV:
		st, ok := b.Elem.Underlying().(*types.Struct)
		if !ok {
			e.fail(x, "field of %s", b.Elem)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				q := *b
				q.Path = append(append([]int{}, b.Path...), i)
				q.Elem = st.Field(i).Type()
				return e.v.load(e.st, &q)
			}
		}
	case *StructV:
		st := b.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return b.F[i]
			}
		}
	}
	e.fail(x, "no field %s in %T", name, base)
	return nil
}

func isNilIdent(x ast.Expr) bool {
	id, ok := x.(*ast.Ident)
	return ok && id.Name == "nil"
}

func (e *Env) nilTest(x Value) *Term {
	switch y := x.(type) {
	case *IfaceV:
		return Eq(y.Tag, I(0))
	case *SliceV:
		return Eq(y.Ref, I(0))
	case *PtrV:
		return e.v.ptrNil(y)
	case MapV:
		return Eq(y.Ref, I(0))
	case nil:
		return tTrue
	}
	panic(Unsupported{fmt.Sprintf("nil test of %T", x)})
}

func (e *Env) binary(n *ast.BinaryExpr) Value {
	switch n.Op {
	case token.LAND:
		return And(e.boolean(n.X), e.boolean(n.Y))
	case token.LOR:
		return Or(e.boolean(n.X), e.boolean(n.Y))
	case token.EQL, token.NEQ:
		var r *Term
		if isNilIdent(n.Y) {
			r = e.nilTest(e.eval(n.X))
		} else {
			a, b := e.eval(n.X), e.eval(n.Y)
			r = e.equal(n, a, b)
		}
		if n.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	a, b := unifyF(e.term(n.X), e.term(n.Y))
	if a.Sort == SF {
		switch n.Op {
		case token.ADD:
			return fop("fadd", a, b)
		case token.SUB:
			return fop("fsub", a, b)
		case token.MUL:
			return fop("fmul", a, b)
		case token.QUO:
			return fop("fdiv", a, b)
		case token.LSS:
			return FLt(a, b)
		case token.LEQ:
			return FLe(a, b)
		case token.GTR:
			return FLt(b, a)
		case token.GEQ:
			return FLe(b, a)
		}
	} else if a.Sort == SInt {
		switch n.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO:
			return App("tdiv", SInt, a, b)
		case token.REM:
			return App("tmod", SInt, a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		}
	}
	e.fail(n, "operator %s on %s", n.Op, a.Sort)
	return nil
}

// equal is mathematical equality (bit equality for floats).
func (e *Env) equal(n ast.Expr, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			e.fail(n, "comparison of %T and %T", a, b)
		}
		x, y = unifyF(x, y)
		return Eq(x, y)
	case *PtrV:
		return e.v.ptrEq(e.st, x, b.(*PtrV))
	case *IfaceV:
		y := b.(*IfaceV)
		if x.Ref == nil {
			e.v.boxIface(e.st, x)
		}
		if y.Ref == nil {
			e.v.boxIface(e.st, y)
		}
		return And(Eq(x.Tag, y.Tag), Eq(x.Ref, y.Ref))
	case *SliceV:
		y := b.(*SliceV)
		return And(Eq(x.Ref, y.Ref), Eq(x.Off, y.Off), Eq(x.Len, y.Len))
	case MapV:
		return Eq(x.Ref, b.(MapV).Ref)
	case *StructV:
		y, ok := e.autoDeref(b).(*StructV)
		if !ok {
			e.fail(n, "comparison of %T and %T", a, b)
		}
		var cs []*Term
		for i := range x.F {
			cs = append(cs, e.equal(n, x.F[i], y.F[i]))
		}
		return And(cs...)
	}
	e.fail(n, "comparison of %T", a)
	return nil
}

var qctr int64

func (e *Env) call(n *ast.CallExpr) Value {
	v := e.v
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		e.fail(n, "call of non-name")
	}
	name := id.Name
	if m, ok := specs.macros[name]; ok {
		if len(m.Params) != len(n.Args) {
			e.fail(n, "macro %s takes %d arguments", name, len(m.Params))
		}
		ne := *e
		ne.vars = map[string]Value{}
		for k, x := range e.vars {
			if strings.HasPrefix(k, "$") {
				ne.vars[k] = x
			}
		}
		for i, p := range m.Params {
			ne.vars[p] = e.eval(n.Args[i])
		}
		return ne.eval(m.Body)
	}
	switch name {
	case "old":
		return e.inOld().eval(n.Args[0])
	case "now": // inside old(...): value in the current state
		ne := *e
		if e.cur != nil {
			ne.st = e.cur
		}
		return ne.eval(n.Args[0])
	case "atentry": // value when the loop was entered
		ne := *e
		ne.st = e.loop
		return ne.eval(n.Args[0])
	case "wf": // shape
		return v.wfShape(e.st, e.autoDeref(e.eval(n.Args[0])))
	case "own": // shape, and every row has its own storage
		return v.wfMatrix(e.st, e.autoDeref(e.eval(n.Args[0])))
	case "imp":
		a := e.boolean(n.Args[0])
		if a.Op == "false" {
			return tTrue
		}
		return Imp(a, e.boolean(n.Args[1]))
	case "iff":
		return Eq(e.boolean(n.Args[0]), e.boolean(n.Args[1]))
	case "ite":
		c := e.boolean(n.Args[0])
		a, b := e.term(n.Args[1]), e.term(n.Args[2])
		a, b = unifyF(a, b)
		return Ite(c, a, b)
	case "forall", "forallp":
		// forall(i, lo, hi, body [, trigger...])
		iv := n.Args[0].(*ast.Ident).Name
		lo, hi := e.term(n.Args[1]), e.term(n.Args[2])
		bv := v.boundVar(iv, SInt)
		ne := e.with(iv, bv)
		body := ne.boolean(n.Args[3])
		var pats [][]*Term
		for _, p := range n.Args[4:] {
			pats = append(pats, []*Term{ne.term(p)})
		}
		rng := And(Le(lo, bv), Lt(bv, hi))
		return mkForall(bv, rng, body, pats)
	case "exists":
		iv := n.Args[0].(*ast.Ident).Name
		lo, hi := e.term(n.Args[1]), e.term(n.Args[2])
		bv := v.boundVar(iv, SInt)
		body := e.with(iv, bv).boolean(n.Args[3])
		return Not(mkForall(bv, And(Le(lo, bv), Lt(bv, hi)), Not(body), nil))
	case "forallref":
		iv := n.Args[0].(*ast.Ident).Name
		bv := v.boundVar(iv, SInt)
		ne := e.with(iv, bv)
		body := ne.boolean(n.Args[1])
		var pats [][]*Term
		for _, p := range n.Args[2:] {
			pats = append(pats, []*Term{ne.term(p)})
		}
		return mkForall(bv, tTrue, body, pats)
	case "forallstr":
		iv := n.Args[0].(*ast.Ident).Name
		bv := v.boundVar(iv, SStr)
		ne := e.with(iv, bv)
		body := ne.boolean(n.Args[1])
		var pats [][]*Term
		for _, p := range n.Args[2:] {
			pats = append(pats, []*Term{ne.term(p)})
		}
		return mkForall(bv, tTrue, body, pats)
	case "len":
		switch s := e.eval(n.Args[0]).(type) {
		case *SliceV:
			return s.Len
		case *Term:
			if s.Sort == SStr {
				return App("slen", SInt, s)
			}
		case MapV:
			return v.mapLen(e.st, s)
		}
		e.fail(n, "len")
	case "at":
		b := e.eval(n.Args[0])
		i, j := e.term(n.Args[1]), e.term(n.Args[2])
		if t, ok := b.(*Term); ok && t.Sort == SMV {
			return App("at", SF, t, i, j)
		}
		return v.matAt(e.st, e.autoDeref(b), i, j)
	case "view":
		b := e.eval(n.Args[0])
		if t, ok := b.(*Term); ok && t.Sort == SMV {
			return t
		}
		return v.view(e.st, e.autoDeref(b))
	case "fresh":
		// fresh(x): storage allocated since the old state
		return e.freshPred(n, e.eval(n.Args[0]))
	case "allocated": // reference exists in this state
		return Lt(e.refOf(n, e.eval(n.Args[0])), e.st.nxt)
	case "ref":
		return e.refOf(n, e.eval(n.Args[0]))
	case "off":
		return e.eval(n.Args[0]).(*SliceV).Off
	case "rowref": // rowref(m,i): identity of row i
		m := e.autoDeref(e.eval(n.Args[0]))
		return v.rowRef(e.st, m, e.term(n.Args[1]))
	case "rowlen":
		m := e.autoDeref(e.eval(n.Args[0]))
		s := matSlice(m)
		return Sel(Sel(v.heap(e.st, elemHeaps1(s.Elem, "#l")), s.Ref), v.elemIdx(s, e.term(n.Args[1])))
	case "isrow": // isrow(m, r): r is the identity of a row of m
		m := e.autoDeref(e.eval(n.Args[0]))
		return v.rowOf(e.st, m, e.term(n.Args[1]))
	case "rowindex":
		m := e.autoDeref(e.eval(n.Args[0]))
		s := matSlice(m)
		return App("widx", SInt, Sel(v.heap(e.st, hRowR), s.Ref), s.Off, s.Len, e.term(n.Args[1]))
	case "tag":
		return e.eval(n.Args[0]).(*IfaceV).Tag
	case "istype": // istype(iface, "T")
		s, _ := strconv.Unquote(n.Args[1].(*ast.BasicLit).Value)
		i := e.eval(n.Args[0]).(*IfaceV)
		return Eq(i.Tag, I(int64(v.tagOfName(s))))
	case "as": // as(iface, "T"): the pointer inside
		s, _ := strconv.Unquote(n.Args[1].(*ast.BasicLit).Value)
		switch i := e.eval(n.Args[0]).(type) {
		case *IfaceV:
			return v.ifacePtr(e.st, i, s)
		case *Term: // a reference
			t := v.prog.pkg.Pkg.Scope().Lookup(strings.TrimPrefix(s, "*")).Type()
			return &PtrV{Kind: pHeap, Elem: t, Base: t, Ref: i}
		}
		panic("as: not an interface or reference")
	case "indom":
		m := e.eval(n.Args[0]).(MapV)
		return v.mapHas(e.st, m, e.term(n.Args[1]))
	case "float64":
		t := e.term(n.Args[0])
		if t.Sort == SInt {
			return I2F(t)
		}
		return t
	case "nxt":
		return e.st.nxt
	case "oldnxt":
		return e.old.nxt
	case "inelems": // inelems(s, r): backing array of s is r
		return Eq(e.eval(n.Args[0]).(*SliceV).Ref, e.term(n.Args[1]))
	case "ghost":
		s, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
		return v.ghost(e.st, s)
	case "feq":
		a, b := unifyF(e.term(n.Args[0]), e.term(n.Args[1]))
		return FEq(a, b)
	case "wf_rows": // all rows have the matrix width
		return v.wfRows(e.st, e.autoDeref(e.eval(n.Args[0])), e)
	case "rowsdistinct":
		return v.rowsDistinct(e.st, e.autoDeref(e.eval(n.Args[0])))
	case "sameheap": // sameheap("E:float64:") : heap equal to old
		s, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
		return Eq(v.heap(e.st, s), v.heap(e.old, s))
	case "fallthru":
	}
	if sig, ok := specs.smtFuncs[name]; ok {
		if len(sig.args) != len(n.Args) {
			e.fail(n, "%s takes %d arguments", name, len(sig.args))
		}
		var as []*Term
		for i, a := range n.Args {
			var t *Term
			y := e.eval(a)
			switch z := y.(type) {
			case *Term:
				t = z
			case *StructV, *PtrV:
				if sig.args[i] == SMV {
					t = v.view(e.st, e.autoDeref(z))
				}
			case *SliceV:
				if sig.args[i] == "(Array Int F)" {
					t = Sel(v.heap(e.st, hFloat), z.Ref)
				}
			}
			if t == nil {
				e.fail(n, "argument %d of %s: %T", i, name, y)
			}
			if sig.args[i] == SF {
				t = toF(t)
			}
			if t.Sort != sig.args[i] {
				e.fail(n, "argument %d of %s has sort %s, want %s", i, name, t.Sort, sig.args[i])
			}
			as = append(as, t)
		}
		return App(name, sig.ret, as...)
	}
	e.fail(n, "unknown function %s", name)
	return nil
}

func (e *Env) refOf(n ast.Expr, x Value) *Term {
	switch y := x.(type) {
	case *StructV:
		return matSlice(y).Ref
	case *SliceV:
		return y.Ref
	case *PtrV:
		return e.v.ptrTerm(e.st, y)
	case MapV:
		return y.Ref
	case *IfaceV:
		if y.Ref == nil {
			e.v.boxIface(e.st, y)
		}
		return y.Ref
	}
	e.fail(n, "no reference in %T", x)
	return nil
}

func (e *Env) freshPred(n ast.Expr, x Value) *Term {
	lim := e.old.nxt
	switch y := x.(type) {
	case *StructV:
		s := matSlice(y)
		i := e.v.boundVar("i", SInt)
		r := e.v.rowRef(e.st, y, i)
		// the outer array first, then the rows, all new
		return And(Le(lim, s.Ref), mkForall(i, And(Le(I(0), i), Lt(i, s.Len)), Le(lim, r), [][]*Term{{r}}))
	case *SliceV:
		return Le(lim, y.Ref)
	case *PtrV:
		return Le(lim, e.v.ptrTerm(e.st, y))
	case MapV:
		return Le(lim, y.Ref)
	case *IfaceV:
		return Le(lim, e.refOf(n, y))
	}
	e.fail(n, "fresh of %T", x)
	return nil
}

// mkForall merges directly nested quantifiers and picks triggers.
func mkForall(bv, rng, body *Term, pats [][]*Term) *Term {
	if body.Op == "true" {
		return tTrue
	}
	vars := []*Term{bv}
	if body.Op == "forall" {
		inner := body
		if len(inner.Args) == 1 {
			vars = append(vars, inner.Vars...)
			body = inner.Args[0]
			if len(pats) == 0 {
				// keep inner patterns if they mention every variable
				for _, p := range inner.Pats {
					if patCovers(p, vars) {
						pats = append(pats, p)
					}
				}
			}
		}
	}
	t := Forall(vars, Imp(rng, body))
	if len(pats) == 0 {
		pats = autoPats(t)
	}
	t.Pats = pats
	return t
}

func mentions(t *Term, name string) bool {
	if len(t.Args) == 0 {
		return t.Op == name
	}
	for _, a := range t.Args {
		if mentions(a, name) {
			return true
		}
	}
	return false
}
func patCovers(p []*Term, vars []*Term) bool {
	for _, v := range vars {
		ok := false
		for _, x := range p {
			if mentions(x, v.Op) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func interpretedOp(op string) bool {
	switch op {
	case "+", "-", "*", "<", "<=", ">", ">=", "=", "=>", "and", "or", "not", "ite", "div", "mod", "forall", "exists", "tdiv", "tmod", "wrapS", "wrapU", "true", "false", "flt", "fle", "feq", "store", "fsub":
		return true
	}
	return false
}

// hasArithOnBound: a bound variable occurs under an interpreted operator.
func cleanPat(t *Term) bool {
	if len(t.Args) == 0 {
		return true
	}
	if interpretedOp(t.Op) && t.Op != "store" {
		return false
	}
	for _, a := range t.Args {
		if !cleanPat(a) {
			return false
		}
	}
	return true
}

func groundOf(t *Term, vars []*Term) bool {
	for _, v := range vars {
		if mentions(t, v.Op) {
			return false
		}
	}
	return true
}

func cleanBoundPat(t *Term, vars []*Term) bool {
	if groundOf(t, vars) {
		return true
	}
	if len(t.Args) == 0 {
		return true
	}
	if interpretedOp(t.Op) {
		return false
	}
	for _, a := range t.Args {
		if !cleanBoundPat(a, vars) {
			return false
		}
	}
	return true
}

// autoPats collects candidate triggers: minimal uninterpreted applications
// covering all bound variables; otherwise one multi-pattern.
func autoPats(q *Term) [][]*Term {
	var full []*Term
	var part []*Term
	seen := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == "forall" || t.Op == "exists" {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		if len(t.Args) == 0 || interpretedOp(t.Op) || t.Op == "ix" {
			return
		}
		if groundOf(t, q.Vars) || !cleanBoundPat(t, q.Vars) || seen[t.String()] {
			return
		}
		seen[t.String()] = true
		if patCovers([]*Term{t}, q.Vars) {
			full = append(full, t)
		} else {
			part = append(part, t)
		}
	}
	walk(q.Args[0])
	if len(full) > 0 {
		// keep minimal ones
		var out [][]*Term
		for _, t := range full {
			minimal := true
			for _, u := range full {
				if u != t && contains(t, u) {
					minimal = false
				}
			}
			if minimal {
				out = append(out, []*Term{t})
			}
		}
		return out
	}
	var p []*Term
	for _, t := range part {
		p = append(p, t)
		if patCovers(p, q.Vars) {
			return [][]*Term{p}
		}
	}
	return nil
}

func contains(t, u *Term) bool {
	if t == u || t.String() == u.String() {
		return true
	}
	for _, a := range t.Args {
		if contains(a, u) {
			return true
		}
	}
	return false
}
