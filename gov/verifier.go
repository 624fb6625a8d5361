package main

// Verification of one function: obligations, scopes, unfolding, goals.

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Func   string
	Kind   string // ensures frame pre safety panics subset vacuity
	Name   string
	Props  []string
	Pos    string
	OK     bool
	Solver string
	Ms     int64
	Goal   string
	Mode   string
	clause *Clause
}

type Verifier struct {
	prog      *Program
	fn        *ssa.Function
	con       *Contract
	sess      *Session
	real      bool
	ctr       int
	inQuant   int
	inSpec    bool
	mute      int // >0: obligations are not recorded (loop discovery)
	initHeaps map[string]*Term
	nxt0      *Term
	goalForms map[string]*Term
	unf       []map[string]bool
	obls      []*Obl
	nOK       map[string]int
	old       *State
	params    map[string]Value
	frames    []*Frame
	cellCtr   int
	frameCtr  int
	pathBits  string
	deadCands map[string]map[string]bool
	curPos    string
	returns   int
	failFast  bool
	deadline  time.Time
	pathCount int
	loopCount int
	timeouts  int
	ifaceArgs map[string]Value
	calls     map[string]bool // contracts relied upon
	candHits  map[string]int
	anyExit   bool
	trace     []string
	maxPaths  int
	loopMem   map[string]*LoopMem
	runs      []*LoopRun
	foot      *Footprint
	tgts      []target
	failedCl  map[string]bool
	seen      *loopMemory
}

var debug = os.Getenv("GOV_DEBUG") != ""
var debugQ = os.Getenv("GOV_DEBUGQ") != ""

func (v *Verifier) fresh(hint, sort string) *Term {
	v.ctr++
	return v.declare(fmt.Sprintf("%s!%d", hint, v.ctr), sort)
}

func (v *Verifier) declare(name, sort string) *Term {
	v.sess.Declare(name, sort)
	return V(name, sort)
}

func (v *Verifier) boundVar(name, sort string) *Term {
	v.ctr++
	return V(fmt.Sprintf("%s?%d", name, v.ctr), sort)
}

func (v *Verifier) push() {
	v.sess.Push()
	v.unf = append(v.unf, map[string]bool{})
}
func (v *Verifier) pop() {
	v.sess.Pop()
	v.unf = v.unf[:len(v.unf)-1]
}

func (v *Verifier) assume(st *State, t *Term) {
	if t.Op == "true" {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			v.assume(st, a)
		}
		return
	}
	v.unfold(t)
	v.sess.AssertFull(t.String())
	v.assumeLight(t)
}

// unfold asserts one defining equation for every ground application of a
// recursive spec function.
func (v *Verifier) unfold(t *Term) { v.unfoldFrom(t, map[string]bool{}) }

// from: the recursive functions already unfolded on the way here
func (v *Verifier) unfoldFrom(t *Term, from map[string]bool) {
	var found []*Term
	walkGround(t, map[string]bool{}, func(x *Term) {
		if _, ok := specs.recs[x.Op]; ok && !from[x.Op] {
			found = append(found, x)
		}
	})
	for _, x := range found {
		k := x.String()
		if v.isUnf(k) {
			continue
		}
		v.unf[len(v.unf)-1][k] = true
		r := specs.recs[x.Op]
		e := &Env{v: v, vars: map[string]Value{}}
		for i, p := range r.Params {
			e.vars[p.Op] = x.Args[i]
		}
		body := e.term(r.Body)
		if r.Ret == SF {
			body = toF(body)
		}
		v.sess.Assert(Eq(x, body).String())
		next := map[string]bool{x.Op: true}
		for k := range from {
			next[k] = true
		}
		v.unfoldFrom(body, next)
	}
}

func (v *Verifier) isUnf(k string) bool {
	for _, m := range v.unf {
		if m[k] {
			return true
		}
	}
	return false
}

func (v *Verifier) setGoalForm(t, g *Term) { v.goalForms[t.String()] = g }

// splitGoal reduces a goal to a list of quantifier-free (when possible) goals
// with local hypotheses.
type subgoal struct {
	hyps []*Term
	goal *Term
}

func (v *Verifier) splitGoal(g *Term, hyps []*Term, out *[]subgoal) {
	if f, ok := v.goalForms[g.String()]; ok {
		v.splitGoal(f, hyps, out)
		return
	}
	switch g.Op {
	case "true":
		return
	case "and":
		for _, a := range g.Args {
			v.splitGoal(a, hyps, out)
		}
		return
	case "=>":
		v.splitGoal(g.Args[1], append(append([]*Term{}, hyps...), g.Args[0]), out)
		return
	case "forall":
		m := map[string]*Term{}
		for _, b := range g.Vars {
			m[b.Op] = v.fresh("sk_"+strings.Split(b.Op, "?")[0], b.Sort)
		}
		v.splitGoal(subst(g.Args[0], m), hyps, out)
		return
	case "=":
		a, b := g.Args[0], g.Args[1]
		if a.Sort == SMV {
			i, j := v.boundVar("i", SInt), v.boundVar("j", SInt)
			v.splitGoal(Eq(App("rows", SInt, a), App("rows", SInt, b)), hyps, out)
			v.splitGoal(Eq(App("cols", SInt, a), App("cols", SInt, b)), hyps, out)
			v.splitGoal(Forall([]*Term{i, j}, Imp(And(Le(I(0), i), Lt(i, App("rows", SInt, a)), Le(I(0), j), Lt(j, App("cols", SInt, a))),
				Eq(App("at", SF, a, i, j), App("at", SF, b, i, j)))), hyps, out)
			return
		}
		if a.Sort == SBool && (len(a.Args) > 0 || len(b.Args) > 0) {
			v.splitGoal(b, append(append([]*Term{}, hyps...), a), out)
			v.splitGoal(a, append(append([]*Term{}, hyps...), b), out)
			return
		}
	case "not":
		if g.Args[0].Op == "and" {
			// fallthrough to solver
		}
	}
	*out = append(*out, subgoal{hyps, g})
}

// hypForm: hypotheses that are MV equalities etc. are asserted as they are.
func (v *Verifier) prove(g *Term, ms int) bool {
	var subs []subgoal
	v.splitGoal(g, nil, &subs)
	for _, s := range subs {
		if v.proveSub(s, ms) != Unsat {
			return false
		}
	}
	return true
}

func (v *Verifier) proveSub(s subgoal, ms int) Result {
	v.push()
	defer v.pop()
	for _, h := range s.hyps {
		v.assume(nil, h)
	}
	ng := Not(s.goal)
	v.unfold(ng)
	v.sess.Assert(ng.String())
	if r := v.sess.Check(min(ms, 400)); r != Unknown {
		return r
	}
	return v.sess.Fresh(ms)
}

// valid checks a candidate quickly.
const candMs = 1500

func (v *Verifier) tooLate() bool { return !v.deadline.IsZero() && time.Now().After(v.deadline) }

// oblige checks a goal in the current context, records the outcome and then
// assumes the goal.
func (v *Verifier) oblige(st *State, kind, name string, props []string, g *Term) {
	v.obligeC(st, kind, name, props, g, nil)
}

func (v *Verifier) obligeC(st *State, kind, name string, props []string, g *Term, cl *Clause) {
	if g.Op == "true" {
		if v.mute == 0 {
			v.nOK[kind]++
		}
		return
	}
	if v.mute > 0 {
		v.assume(st, g)
		return
	}
	o := &Obl{Func: v.con.Key, Kind: kind, Name: name, Props: props, Pos: v.curPos, clause: cl, Mode: "ieee"}
	if v.real {
		o.Mode = "real"
	}
	t0 := time.Now()
	o.OK = true
	var subs []subgoal
	v.splitGoal(g, nil, &subs)
	for _, s := range subs {
		ms := 1500
		v.sess.tag = "oblige " + kind + "/" + name
		if v.failFast || v.tooLate() {
			ms = 1000
		}
		if v.proveSub(s, ms) == Unsat {
			o.Solver = solverNames[solZ3New]
			continue
		}
		// other back ends
		ok := false
		if !v.failFast && !v.tooLate() && v.timeouts < 3 {
			v.push()
			for _, h := range s.hyps {
				v.assume(nil, h)
			}
			ng := Not(s.goal)
			v.unfold(ng)
			v.sess.Assert(ng.String())
			script := v.sess.Script()
			v.pop()
			r, nm := Portfolio(v.sess.prelude, script, 10, v.real, v.con.Ieee)
			if r == Unsat {
				ok = true
				o.Solver = nm
				if nm == solverNames[solReal] {
					o.Mode = "real"
				}
			} else {
				v.timeouts++
			}
			if debug && !ok {
				os.WriteFile(fmt.Sprintf("/tmp/gov_fail_%s_%s.smt2", sanitize(v.con.Key), sanitize(name)), []byte(z3opts+v.sess.prelude+script+"(check-sat)\n(get-info :reason-unknown)\n"), 0644)
			}
		}
		if !ok {
			o.OK = false
			o.Goal = goalText(s)
			break
		}
	}
	o.Ms = time.Since(t0).Milliseconds()
	if debug && !o.OK {
		fmt.Printf("  FAIL %s %s/%s %s  %s  path %s\n      %s\n", o.Func, kind, name, o.Pos, strings.Join(props, ","), v.pathBits, clip(o.Goal, 1500))
	}
	v.obls = append(v.obls, o)
	v.assume(st, g)
	if !o.OK && curProp != "" && o.against(curProp) {
		panic(Aborted{})
	}
}

// curProp is the property being decided ("" when whole contracts are run):
// a pass ends at the first failed obligation that counts against it.
var curProp string

type Aborted struct{}

// against: a failed obligation defeats prop unless it is a clause that only
// other properties carry.
func (o *Obl) against(prop string) bool {
	if o.clause == nil {
		return true
	}
	for _, x := range o.Props {
		if x == prop {
			return true
		}
	}
	return false
}

func goalText(s subgoal) string {
	var b strings.Builder
	for _, h := range s.hyps {
		b.WriteString("assuming " + h.String() + "\n")
	}
	b.WriteString("prove " + s.goal.String())
	return b.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- interfaces ----

func (v *Verifier) ifaceTags(t types.Type, tag *Term) *Term {
	impl := v.prog.implementers(t)
	if isErrorType(t) || len(impl) == 0 {
		return nil
	}
	var ors []*Term
	ors = append(ors, Eq(tag, I(0)))
	for _, c := range impl {
		ors = append(ors, Eq(tag, I(int64(v.prog.tags[typeName(c)]))))
	}
	return Or(ors...)
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (v *Verifier) tagOfName(s string) int {
	n, ok := v.prog.tags[s]
	if !ok {
		unsupported("no type %s", s)
	}
	return n
}

func (v *Verifier) tagOf(t types.Type) *Term {
	if n, ok := v.prog.tags[typeName(t)]; ok {
		return I(int64(n))
	}
	return nil
}

func (v *Verifier) ifacePtr(st *State, i *IfaceV, s string) Value {
	n := v.tagOfName(s)
	t := v.prog.tagTypes[n]
	if i.Dyn != nil && types.Identical(i.Dyn, t) {
		return i.Val
	}
	if i.Ref == nil {
		v.boxIface(st, i)
	}
	return &PtrV{Kind: pHeap, Elem: deref(t), Base: deref(t), Ref: i.Ref}
}

func (v *Verifier) globalByName(name string) *PtrV {
	m, ok := v.prog.pkg.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	t := deref(m.Type())
	return &PtrV{Kind: pGlobal, Elem: t, Base: t, Glob: m.Name()}
}

// ghost state: declared by "ghost NAME SORT" in the contracts.
func (v *Verifier) ghost(st *State, name string) Value {
	if _, ok := specs.ghosts[name]; !ok {
		unsupported("unknown ghost %s", name)
	}
	return v.heap(st, "g:"+name)
}
