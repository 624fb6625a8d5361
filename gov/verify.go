package main

// Verification jobs: one function against its contract, one implementation
// against an interface contract, one lemma.

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Job struct {
	Key  string
	Con  *Contract
	Fn   *ssa.Function
	Lem  *Lemma
	Impl types.Type // refinement: the implementing type
	Deps []string
	Done chan struct{}
	Res  *JobResult
}

type JobResult struct {
	Key         string
	Obls        []*Obl
	NOK         int
	Unsupported string
	Mode        string
	Ms          int64
	Paths       int
	Used        map[string]bool
	Aborted     bool // ended at the first failed obligation
}

func (r *JobResult) failed() []*Obl {
	var out []*Obl
	for _, o := range r.Obls {
		if !o.OK {
			out = append(out, o)
		}
	}
	return out
}
func (r *JobResult) ok() bool { return r.Unsupported == "" && len(r.failed()) == 0 }

var allHeapNames []string

// prepare registers everything jobs share, single-threaded.
func prepare(p *Program) {
	for _, k := range sortedKeys(p.fns) {
		p.effects(p.fns[k])
	}
	if in := p.pkg.Func("init"); in != nil {
		p.effects(in)
	}
	for _, name := range sortedKeys(p.pkg.Members) {
		switch m := p.pkg.Members[name].(type) {
		case *ssa.Type:
			if _, ok := m.Type().Underlying().(*types.Struct); ok {
				func() {
					defer func() { recover() }()
					fieldHeaps(m.Type(), nil)
				}()
			}
		case *ssa.Global:
			func() {
				defer func() { recover() }()
				globalHeaps(m.Name(), deref(m.Type()))
			}()
		}
	}
	for l := range specs.floatLits {
		fconst(floatLit(l))
	}
	allHeapNames = sortedKeys(heapSorts)
}

func buildPreludes(verif string) {
	rd := func(n string) string {
		b, err := os.ReadFile(verif + "/contracts/" + n)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	core := rd("core.smt2")
	specs.scanSMT(rd("float_ieee.smt2"))
	specs.scanSMT(core)
	var b strings.Builder
	b.WriteString(core)
	for _, a := range specs.axioms {
		b.WriteString(a + "\n")
	}
	sig := func(n string) {
		s := specs.smtFuncs[n]
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", n, strings.Join(s.args, " "), s.ret)
	}
	for _, n := range specs.recOrder {
		sig(n)
	}
	for _, n := range specs.matOrder {
		sig(n)
	}
	preludeIEEE, preludeReal = "", ""
	matDefs = map[string]matDef{}
	var mats strings.Builder
	v := &Verifier{inSpec: true, inQuant: 1}
	for _, n := range specs.matOrder {
		m := specs.mats[n]
		e := &Env{v: v, vars: map[string]Value{}}
		var args []*Term
		for _, p := range m.Par {
			q := V(p.Op+"?m", p.Sort)
			e.vars[p.Op] = q
			args = append(args, q)
		}
		self := App(n, SMV, args...)
		if len(args) == 0 {
			self = V(n, SMV)
		}
		r, c := e.term(m.Size[0]), e.term(m.Size[1])
		matDefs[n] = matDef{args, r, c}
		i, j := V("i?m", SInt), V("j?m", SInt)
		body := toF(e.with("i", i).with("j", j).term(m.Body))
		tr, tc, ta := App("rows", SInt, self), App("cols", SInt, self), App("at", SF, self, i, j)
		ax := func(vars []*Term, body *Term, pat *Term) {
			if len(vars) == 0 {
				fmt.Fprintf(&mats, "(assert %s)\n", body)
				return
			}
			fmt.Fprintf(&mats, "(assert %s)\n", Forall(vars, body, []*Term{pat}))
		}
		ax(args, Eq(tr, r), tr)
		ax(args, Eq(tc, c), tc)
		ax(append(append([]*Term{}, args...), i, j), Imp(And(Le(I(0), i), Lt(i, r), Le(I(0), j), Lt(j, c)), Eq(ta, body)), ta)
	}
	// constants last: everything has been registered by now
	for _, real := range []bool{false, true} {
		fl := rd("float_ieee.smt2")
		if real {
			fl = rd("float_real.smt2")
		}
		// sorts first, then constants, then definitions
		s := fl + "(declare-sort Str 0)\n(declare-fun slen (Str) Int)\n" + constsPrelude(real) + b.String() + mats.String()
		if real {
			preludeReal = s
		} else {
			preludeIEEE = s
		}
	}
	for _, l := range specs.lemmas {
		if l.Theory != "" {
			theories[l.Theory] = rd("float_" + l.Theory + ".smt2")
		}
	}
	constsOK = false
}

var theories = map[string]string{}

func lemmaAxioms(upto *Lemma, real bool) string {
	var b strings.Builder
	for _, l := range specs.lemmas {
		if l == upto {
			break
		}
		if upto == nil && len(l.Props) > 0 {
			continue // states a property; only other lemmas build on it
		}
		if l.Proved && (real || !l.RealOnly) {
			b.WriteString(l.axiom())
		}
	}
	return b.String()
}

func (l *Lemma) env(v *Verifier) (*Env, []*Term) {
	e := &Env{v: v, vars: map[string]Value{}}
	var vars []*Term
	for _, p := range l.Vars {
		q := V(p.Op+"?l", p.Sort)
		vars = append(vars, q)
		e.vars[p.Op] = q
	}
	return e, vars
}

func (l *Lemma) axiom() string {
	v := &Verifier{inSpec: true, inQuant: 1}
	e, vars := l.env(v)
	h := tTrue
	if l.Hyp != nil {
		h = e.boolean(l.Hyp)
	}
	var pat []*Term
	for _, p := range l.Pats {
		pat = append(pat, e.term(p))
	}
	q := Forall(vars, Imp(h, e.boolean(l.Goal)))
	if len(pat) > 0 {
		q.Pats = [][]*Term{pat}
	} else {
		q.Pats = autoPats(q)
	}
	return fmt.Sprintf("(assert %s)\n", q)
}

func newVerifier(p *Program, con *Contract, fn *ssa.Function, real bool, lem *Lemma) *Verifier {
	v := &Verifier{prog: p, con: con, fn: fn, real: real, initHeaps: map[string]*Term{}, goalForms: map[string]*Term{}, unf: []map[string]bool{{}},
		nOK: map[string]int{}, params: map[string]Value{}, loopMem: map[string]*LoopMem{}, calls: map[string]bool{}, failedCl: map[string]bool{}}
	pre := preludeIEEE
	if real {
		pre = preludeReal
	}
	if lem != nil && lem.Theory != "" {
		pre += theories[lem.Theory]
	}
	pre += lemmaAxioms(lem, real)
	v.sess = NewSession(pre)
	if lem == nil {
		v.sess.light = NewSession(dropQuantified(pre))
	}
	return v
}

func runLemma(p *Program, l *Lemma, real bool) *JobResult {
	con := &Contract{Key: "lemma " + l.Name, Props: l.Props, Ieee: l.Theory != ""}
	v := newVerifier(p, con, nil, real, l)
	defer v.sess.Close()
	res := &JobResult{Key: con.Key, Mode: "ieee"}
	if real {
		res.Mode = "real"
	}
	t0 := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Aborted); ok {
					res.Aborted = true
					return
				}
				if u, ok := r.(Unsupported); ok {
					res.Unsupported = u.Msg
					return
				}
				panic(r)
			}
		}()
		v.inSpec = true
		e := &Env{v: v, vars: map[string]Value{}}
		for _, q := range l.Vars {
			e.vars[q.Op] = v.declare(q.Op+"!l", q.Sort)
		}
		h := tTrue
		if l.Hyp != nil {
			h = e.boolean(l.Hyp)
		}
		v.assume(nil, h)
		if l.On != "" {
			// induction hypothesis: the statement for smaller values, all other variables free
			e2, vars := l.env(v)
			h2 := tTrue
			if l.Hyp != nil {
				h2 = e2.boolean(l.Hyp)
			}
			n2, n := e2.vars[l.On].(*Term), e.vars[l.On].(*Term)
			var pat [][]*Term
			if len(l.Pats) > 0 {
				var ps []*Term
				for _, x := range l.Pats {
					ps = append(ps, e2.term(x))
				}
				pat = [][]*Term{ps}
			}
			q := Forall(vars, Imp(And(Le(I(0), n2), Lt(n2, n), h2), e2.boolean(l.Goal)), pat...)
			if len(pat) == 0 {
				q.Pats = autoPats(q)
			}
			v.sess.Assert(q.String())
			// the instance for the predecessor
			e3 := e.with(l.On, Sub(n, I(1)))
			h3 := tTrue
			if l.Hyp != nil {
				// what is already assumed need not be shown again
				known := map[string]bool{}
				for _, c := range conjuncts(h) {
					known[plainNames(c)] = true
				}
				h3 = tTrue
				for _, c := range conjuncts(e3.boolean(l.Hyp)) {
					if !known[plainNames(c)] {
						h3 = And(h3, c)
					}
				}
			}
			v.assume(nil, Imp(And(Le(I(1), n), h3), e3.boolean(l.Goal)))
		}
		v.obligeC(nil, "lemma", l.Name, l.Props, e.boolean(l.Goal), nil)
	}()
	res.Obls = v.obls
	res.NOK = sum(v.nOK)
	res.Ms = time.Since(t0).Milliseconds()
	return res
}

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		var out []*Term
		for _, a := range t.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	return []*Term{t}
}

var reBoundNum = regexp.MustCompile(`\?[0-9]+`)

// plainNames: the text of a term with the numbers of bound variables replaced
// by their order of appearance.
func plainNames(t *Term) string {
	seen := map[string]string{}
	return reBoundNum.ReplaceAllStringFunc(t.String(), func(s string) string {
		if seen[s] == "" {
			seen[s] = fmt.Sprintf("?b%d", len(seen))
		}
		return seen[s]
	})
}

func sum(m map[string]int) int {
	n := 0
	for _, x := range m {
		n += x
	}
	return n
}

// runFunc verifies a function body (or one implementation of an interface
// method) against a contract.
// runFunc: a loop reached again on another path first tries the invariants
// that held there before; if that was not enough, everything is tried.
func runFunc(p *Program, con *Contract, fn *ssa.Function, impl types.Type, real bool, budget time.Duration) *JobResult {
	m := &loopMemory{names: map[string]map[string]bool{}}
	if real {
		m.all = true
		r := runFuncWith(p, con, fn, impl, real, budget, m)
		noteHints(con, impl, r, m)
		return r
	}
	r := runFuncWith(p, con, fn, impl, real, budget, m)
	if !r.ok() && con.Ieee && m.used && !strings.Contains(r.Unsupported, "budget") {
		m = &loopMemory{names: map[string]map[string]bool{}, all: true}
		r = runFuncWith(p, con, fn, impl, real, budget, m)
	}
	noteHints(con, impl, r, m)
	return r
}

// loopMemory: per loop, the candidate invariants seen so far and whether they
// ever held.
type loopMemory struct {
	names map[string]map[string]bool
	used  bool
	all   bool                       // try everything everywhere
	only  map[string]map[string]bool // hints: nothing else is tried
}

func (m *loopMemory) skip(loop, cand string) bool {
	if m == nil {
		return false
	}
	if o := m.only[loop]; o != nil && !o[cand] {
		return true
	}
	held, seen := m.names[loop][cand]
	if seen && !held && !m.all {
		m.used = true
		return true
	}
	return false
}

func (m *loopMemory) learn(loop, cand string, held bool) {
	if m == nil {
		return
	}
	if m.names[loop] == nil {
		m.names[loop] = map[string]bool{}
	}
	m.names[loop][cand] = m.names[loop][cand] || held
}

func runFuncWith(p *Program, con *Contract, fn *ssa.Function, impl types.Type, real bool, budget time.Duration, seen *loopMemory) *JobResult {
	key := con.Key
	if impl != nil {
		key = con.Key + " by " + typeName(impl)
	}
	v := newVerifier(p, con, fn, real, nil)
	v.seen = seen
	if impl != nil {
		v.fn = nil
	}
	defer v.sess.Close()
	if f := os.Getenv("GOV_LOG"); f != "" {
		v.sess.log, _ = os.Create(f)
		v.sess.log.WriteString(z3opts + v.sess.prelude)
	}
	v.deadline = time.Now().Add(budget)
	if end := startTime.Add(wholeBudget); curProp != "" && end.Before(v.deadline) {
		v.deadline = end
	}
	v.sess.deadline = v.deadline
	res := &JobResult{Key: key, Mode: "ieee"}
	if real {
		res.Mode = "real"
	}
	t0 := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Aborted); ok {
					res.Aborted = true
					return
				}
				if u, ok := r.(Unsupported); ok {
					res.Unsupported = u.Msg + " (" + v.curPos + ")"
					if debug {
						fmt.Printf("  UNSUPPORTED %s: %s\n", key, res.Unsupported)
					}
					return
				}
				if curProp == "" {
					panic(r)
				}
				res.Unsupported = fmt.Sprintf("internal error of the verifier: %v (%s)", r, v.curPos)
			}
		}()
		v.runBody(impl)
	}()
	res.Obls = v.obls
	res.NOK = sum(v.nOK)
	res.Used = v.calls
	res.Paths = v.pathCount
	res.Ms = time.Since(t0).Milliseconds()
	return res
}

func (v *Verifier) runBody(impl types.Type) {
	con := v.con
	v.nxt0 = v.declare("nxt0", SInt)
	st := &State{heaps: map[string]*Term{}, cells: map[int]*Cell{}, nxt: v.nxt0, ghost: map[string]Value{}}
	v.assume(st, Lt(I(0), v.nxt0))
	for _, h := range allHeapNames {
		v.heap(st, h)
	}
	for g := range specs.ghosts {
		v.heap(st, "g:"+g)
	}
	var args []Value
	var fnParams []types.Type
	var results *types.Tuple
	fn := v.fn
	if impl != nil {
		iface, meth, _ := strings.Cut(con.Key, ".")
		fn = v.prog.methodOf(impl, meth)
		if fn == nil {
			unsupported("no method %s of %s", meth, impl)
		}
		it := v.prog.pkg.Pkg.Scope().Lookup(iface).Type()
		fnParams = append(fnParams, it)
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			fnParams = append(fnParams, fn.Signature.Params().At(i).Type())
		}
	} else {
		for _, p := range fn.Params {
			fnParams = append(fnParams, p.Type())
		}
	}
	results = fn.Signature.Results()
	if len(con.Params) != len(fnParams) {
		unsupported("contract of %s names %d parameters, the code has %d", con.Key, len(con.Params), len(fnParams))
	}
	if len(con.Results) != results.Len() && len(con.Results) != 0 {
		unsupported("contract of %s names %d results, the code has %d", con.Key, len(con.Results), results.Len())
	}
	for i, t := range fnParams {
		var x Value
		if impl != nil && i == 0 {
			r := v.fresh(con.Params[0], SInt)
			v.assume(st, And(Lt(I(0), r), Lt(r, st.nxt)))
			x = &IfaceV{T: t, Tag: v.tagOf(impl), Ref: r, Dyn: impl, Val: &PtrV{Kind: pHeap, Elem: deref(impl), Base: deref(impl), Ref: r}}
		} else {
			x = v.freshValue(st, t, "a_"+con.Params[i])
		}
		if p, ok := x.(*PtrV); ok && !con.Nilable[con.Params[i]] {
			v.assume(st, Lt(I(0), p.Ref))
		}
		args = append(args, x)
		v.params[con.Params[i]] = x
	}
	env := &Env{v: v, vars: v.params, st: st, old: st}
	for _, c := range con.of("requires") {
		v.assume(st, v.spec(env, func(e *Env) *Term { return e.boolean(c.Expr) }))
	}
	if v.sess.Check(1500) == Unsat {
		v.obls = append(v.obls, &Obl{Func: con.Key, Kind: "vacuity", Name: "the precondition can be met", Props: con.Props, OK: false, Mode: "ieee"})
		return
	}
	v.nOK["vacuity"]++
	v.old = st.clone()
	v.foot = v.footprint(con, &Env{v: v, vars: v.params, st: v.old, old: v.old})
	effs := v.prog.effects(fn)
	finish := func(st *State, res []Value) { v.atReturn(st, res, effs) }
	if impl != nil {
		c := &ssa.CallCommon{}
		a := append([]Value{args[0].(*IfaceV).Val}, args[1:]...)
		fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, info: &FnInfo{}, nxtIn: st.nxt, id: "iface"}
		v.callFn(fr, nil, c, fn, nil, a, st, func(st *State, r Value) {
			var res []Value
			switch results.Len() {
			case 0:
			case 1:
				res = []Value{r}
			default:
				res = []Value(r.(TupleV))
			}
			finish(st, res)
		})
	} else {
		fr := v.newFrame(fn, nil, nil)
		fr.nxtIn = st.nxt
		fr.id = fnKey(fn)
		for i, p := range fn.Params {
			fr.env[p] = args[i]
		}
		fr.ret = finish
		v.block(fr, fn.Blocks[0], nil, st)
	}
	if v.returns == 0 {
		v.obls = append(v.obls, &Obl{Func: con.Key, Kind: "vacuity", Name: "some path returns", Props: con.Props, OK: false, Mode: "ieee"})
	} else {
		v.nOK["vacuity"]++
	}
}

func (v *Verifier) atReturn(st *State, res []Value, effs map[string]bool) {
	if v.sess.Check(250) == Unsat {
		return // unreachable
	}
	v.returns++
	v.push()
	defer v.pop()
	con := v.con
	vars := map[string]Value{}
	for k, x := range v.params {
		vars[k] = x
	}
	rs := map[string]bool{}
	for i, n := range con.Results {
		vars[n] = res[i]
		rs[n] = true
	}
	// box interface results so that clauses can speak of them
	for _, x := range res {
		if i, ok := x.(*IfaceV); ok && i.Ref == nil {
			v.boxIface(st, i)
		}
	}
	env := &Env{v: v, vars: vars, st: st, old: v.old, results: rs}
	for _, c := range con.Clauses {
		switch c.Kind {
		case "ensures":
			v.obligeC(st, "ensures", c.Name, c.Props, v.spec(env, func(e *Env) *Term { return e.boolean(c.Expr) }), c)
		case "entry", "matrix":
			v.obligeC(st, "ensures", c.Name, c.Props, v.spec(env, func(e *Env) *Term { return e.entryPost(c, false) }), c)
		case "log": // nothing else names calls with this counter
			v.obligeC(st, "ensures", c.Name, c.Props, Eq(v.heap(st, "g:"+c.Target), v.heap(v.old, "g:"+c.Target)), nil)
		}
	}
	for _, h := range sortedKeys(st.heaps) {
		h1, h0 := st.heaps[h], v.heap(v.old, h)
		if same(h1, h0) {
			continue
		}
		if !effs[h] && v.con.Kind != "iface" {
			v.oblige(st, "subset", "writes to "+h+" are anticipated", con.Props, tFalse)
		}
		if !refIndexed(h) {
			if g := Imp(Not(v.foot.covers(h, I(0))), Eq(h1, h0)); g.Op != "true" {
				v.oblige(st, "frame", "unchanged: "+h, con.Props, g)
			}
			continue
		}
		r := v.boundVar("r", SInt)
		es := arrElem(h0.Sort)
		g := Forall([]*Term{r}, Imp(And(Le(I(0), r), Lt(r, v.old.nxt), Not(v.foot.covers(h, r))), Eq(Sel2(h1, r, es), Sel2(h0, r, es))))
		v.oblige(st, "frame", "only what may be modified: "+h, con.Props, g)
	}
}

// ---- scheduling ----

func buildJobs(p *Program) map[string]*Job {
	jobs := map[string]*Job{}
	var earlier []string
	for _, l := range specs.lemmas {
		k := "lemma " + l.Name
		jobs[k] = &Job{Key: k, Lem: l, Con: &Contract{Key: k, Props: l.Props}, Done: make(chan struct{}), Deps: append([]string{}, earlier...)}
		earlier = append(earlier, k)
	}
	for _, k := range sortedKeys(specs.contracts) {
		c := specs.contracts[k]
		switch c.Kind {
		case "func":
			fn := p.fns[k]
			if fn == nil {
				// gone from the code: properties anchored there cannot be decided
				jobs[k] = &Job{Key: k, Con: c, Done: make(chan struct{})}
				continue
			}
			jobs[k] = &Job{Key: k, Con: c, Fn: fn, Deps: p.contractDeps(fn), Done: make(chan struct{})}
		case "iface":
			iface, meth, _ := strings.Cut(k, ".")
			obj := p.pkg.Pkg.Scope().Lookup(iface)
			if obj == nil {
				jobs[k] = &Job{Key: k, Con: c, Done: make(chan struct{})}
				continue
			}
			for _, t := range p.implementers(obj.Type()) {
				m := p.methodOf(t, meth)
				jk := k + " by " + typeName(t)
				j := &Job{Key: jk, Con: c, Fn: m, Impl: t, Done: make(chan struct{})}
				if m != nil {
					if specs.contracts[fnKey(m)] != nil {
						j.Deps = []string{fnKey(m)}
					} else {
						j.Deps = p.contractDeps(m)
					}
				}
				jobs[jk] = j
			}
		}
	}
	return jobs
}

// contractDeps: contracts a body relies on, looking through helpers without one.
func (p *Program) contractDeps(f *ssa.Function) []string {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{f: true}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		for _, in := range p.invokes(g) {
			if c := specs.contracts[in]; c != nil && c.Kind == "iface" {
				iface, _, _ := strings.Cut(in, ".")
				for _, t := range p.implementers(p.pkg.Pkg.Scope().Lookup(iface).Type()) {
					out[in+" by "+typeName(t)] = true
				}
			}
		}
		for _, h := range p.callees(g) {
			if seen[h] {
				continue
			}
			seen[h] = true
			if c := specs.contracts[fnKey(h)]; c != nil && c.Kind == "func" {
				out[fnKey(h)] = true
				continue
			}
			walk(h)
		}
	}
	walk(f)
	for _, l := range specs.lemmas {
		if len(l.Props) == 0 {
			out["lemma "+l.Name] = true
		}
	}
	return sortedKeys(out)
}

func (p *Program) invokes(f *ssa.Function) []string {
	out := map[string]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					out[typeName(c.Common().Value.Type())+"."+c.Common().Method.Name()] = true
				}
			}
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	add(f)
	return sortedKeys(out)
}

// wholeBudget bounds the proving of one property.
var wholeBudget = 480 * time.Second

var workers = make(chan struct{}, 7)

func runJobs(p *Program, jobs map[string]*Job, want map[string]bool, budget time.Duration) {
	var wg sync.WaitGroup
	for _, k := range sortedKeys(want) {
		j := jobs[k]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(j.Done)
			for _, d := range j.Deps {
				if x := jobs[d]; x != nil && want[d] && d != j.Key {
					<-x.Done
				}
			}
			workers <- struct{}{}
			defer func() { <-workers }()
			if stopAll.Load() {
				return
			}
			j.Res = runJob(p, j, budget)
			settle(j)
		}()
	}
	wg.Wait()
}

// stopAll: the verdict is already known.
var stopAll atomic.Bool

func runJob(p *Program, j *Job, budget time.Duration) (res *JobResult) {
	if j.Lem != nil {
		r := runLemma(p, j.Lem, false)
		if !r.ok() {
			if j.Lem.Theory != "" {
			} else if r2 := runLemma(p, j.Lem, true); r2.ok() {
				return r2
			}
		}
		return r
	}
	if j.Fn == nil {
		return &JobResult{Key: j.Key, Unsupported: "not in the code"}
	}
	defer func() {
		if curProp != "" && res != nil && (res.Aborted || res.Unsupported != "") {
			stopAll.Store(true)
		}
	}()
	if r := runHinted(p, j.Con, j.Fn, j.Impl, budget); r != nil {
		return r
	}
	if curProp != "" && hints[hintKey(j.Con, j.Impl)] != nil && earlyReplay() {
		return &JobResult{Key: j.Key, Unsupported: "the obligations of this function are no longer discharged by what discharged them before, and a failing input of the property was found before looking further", Aborted: true}
	}
	r := runFunc(p, j.Con, j.Fn, j.Impl, false, budget)
	if !r.ok() && !j.Con.Ieee && !realUseless(r) {
		r2 := runFunc(p, j.Con, j.Fn, j.Impl, true, budget)
		if r2.ok() || len(r2.failed()) < len(r.failed()) && r2.Unsupported == "" {
			return r2
		}
	}
	return r
}

func realUseless(r *JobResult) bool {
	return r.Unsupported != "" && len(r.failed()) == 0 && !strings.Contains(r.Unsupported, "budget")
}

// settle: what failed may not be relied upon by callers.
func settle(j *Job) {
	r := j.Res
	if j.Lem != nil {
		j.Lem.Proved = r.ok()
		j.Lem.RealOnly = r.Mode == "real"
		for _, o := range r.Obls {
			if o.Mode == "real" {
				j.Lem.RealOnly = true
			}
		}
		return
	}
	if r.Unsupported != "" || r.Aborted {
		j.Con.Broken = r.Unsupported + "a clause failed"
		for _, c := range j.Con.Clauses {
			c.Dropped = true
		}
		j.Con.FrameDropped = true
		return
	}
	for _, o := range r.failed() {
		switch {
		case o.clause != nil:
			o.clause.Dropped = true
		case o.Kind == "frame" || o.Kind == "subset":
			j.Con.FrameDropped = true
		}
	}
}

// cone: the jobs a property depends on.
func cone(jobs map[string]*Job, prop string) map[string]bool {
	want := map[string]bool{}
	var add func(k string)
	add = func(k string) {
		if want[k] || jobs[k] == nil {
			return
		}
		want[k] = true
		for _, d := range jobs[k].Deps {
			add(d)
		}
	}
	for _, k := range sortedKeys(jobs) {
		if jobs[k].hasProp(prop) {
			add(k)
		}
	}
	return want
}

func (j *Job) hasProp(p string) bool {
	if j.Con.hasProp(p) {
		return true
	}
	return false
}

func (c *Contract) hasProp(p string) bool {
	for _, x := range c.Props {
		if x == p {
			return true
		}
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "ensures" || cl.Kind == "entry" || cl.Kind == "matrix" || cl.Kind == "panics" {
			for _, x := range cl.Props {
				if x == p {
					return true
				}
			}
		}
	}
	return false
}

// blame: the failed obligations that defeat a property.
func blame(jobs map[string]*Job, want map[string]bool, prop string) []*Obl {
	var out []*Obl
	for _, k := range sortedKeys(want) {
		r := jobs[k].Res
		if r == nil {
			continue
		}
		if r.Unsupported != "" {
			out = append(out, &Obl{Func: k, Kind: "unsupported", Name: r.Unsupported, Mode: r.Mode})
			continue
		}
		for _, o := range r.failed() {
			if o.against(prop) {
				out = append(out, o)
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Func < out[j].Func })
	return out
}

// matDef: the size of a matrix expression in terms of its arguments.
type matDef struct {
	args       []*Term
	rows, cols *Term
}

var matDefs = map[string]matDef{}

// dimFact: what rows(m) or cols(m) is, for a named expression or a stored matrix.
func dimFact(t *Term) *Term {
	m := t.Args[0]
	if m.Op == "mv" && len(m.Args) == 6 {
		d := m.Args[4]
		if t.Op == "cols" {
			d = m.Args[5]
		}
		return Imp(And(Le(I(0), m.Args[4]), Le(I(0), m.Args[5])), Eq(t, d))
	}
	d, ok := matDefs[m.Op]
	if !ok || len(d.args) != len(m.Args) {
		return tTrue
	}
	sub := map[string]*Term{}
	for i, a := range d.args {
		sub[a.Op] = m.Args[i]
	}
	x := d.rows
	if t.Op == "cols" {
		x = d.cols
	}
	return Eq(t, subst(x, sub))
}

// weaken drops the quantified parts of a fact (pos) or of a goal (!pos).
func weaken(t *Term, pos bool) *Term {
	unknown := tTrue
	if !pos {
		unknown = tFalse
	}
	switch t.Op {
	case "forall", "exists":
		return unknown
	case "and", "or":
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = weaken(a, pos)
		}
		if t.Op == "and" {
			return And(args...)
		}
		return Or(args...)
	case "not":
		return Not(weaken(t.Args[0], !pos))
	case "=>":
		return Imp(weaken(t.Args[0], !pos), weaken(t.Args[1], pos))
	}
	if quantified(t) {
		return unknown
	}
	return t
}

func quantified(t *Term) bool {
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	for _, a := range t.Args {
		if quantified(a) {
			return true
		}
	}
	return false
}

// assumeLight tells the quantifier-free session what it can use of t.
func (v *Verifier) assumeLight(t *Term) {
	l := v.sess.light
	if l == nil {
		return
	}
	w := weaken(t, true)
	if w.Op == "true" {
		return
	}
	l.Assert(w.String())
	seen := map[string]bool{}
	var dims func(t *Term)
	dims = func(t *Term) {
		walkGround(t, map[string]bool{}, func(x *Term) {
			if x.Op != "rows" && x.Op != "cols" {
				return
			}
			k := x.String()
			if seen[k] {
				return
			}
			seen[k] = true
			f := dimFact(x)
			if f.Op == "true" {
				return
			}
			l.Assert(f.String())
			dims(f)
		})
	}
	dims(w)
}
