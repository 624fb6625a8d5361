package main

// Loops: each loop is cut at its header.  The state there is havoced and
// constrained by an invariant, which is the largest inductive subset of a set
// of candidates (Houdini): bounds of loop variables, frame conditions, and the
// entry-wise and templated facts of the function's contract restricted to the
// part already processed.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Cand struct {
	key   string
	stage int
	eval  func(st *State) *Term
}

type LoopRun struct {
	loop   *Loop
	fr     *Frame
	key    string
	phis   []*ssa.Phi
	init   []Value
	entry  *State
	head   *State
	headV  []Value
	ctr0   int
	final  bool
	disc   bool
	cands  []*Cand
	killed bool
	grew   bool
	cur    int // Houdini stage being decided
	writes map[string][]writeNote
	wseen  map[string]bool
	subst  map[string]*Term // head heap constants to entry terms
}

type writeNote struct {
	cover func(r *Term) *Term
	ref   *Term
}

type LoopMem struct {
	heaps map[string]bool
	cells map[int]bool
	nxt   bool
	dead  map[string]bool
	stage map[string]int
}

func (v *Verifier) note(heap string, ref *Term, cover func(r *Term) *Term) {
	for _, r := range v.runs {
		if !r.disc {
			continue
		}
		k := heap + "|"
		if ref != nil {
			k += ref.String()
		} else {
			k += cover(V("r", SInt)).String()
		}
		if r.wseen[k] {
			continue
		}
		r.wseen[k] = true
		r.writes[heap] = append(r.writes[heap], writeNote{cover, ref})
	}
}

func (v *Verifier) enterLoop(fr *Frame, l *Loop, pred *ssa.BasicBlock, st *State) {
	saveEnv := map[ssa.Value]Value{}
	run := &LoopRun{loop: l, fr: fr, key: fmt.Sprintf("%s#%d#%s", fr.id, l.head.Index, v.pathBits), entry: st.clone(), ctr0: v.ctr}
	if pred != nil {
		v.phis(fr, l.head, pred)
	}
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		run.phis = append(run.phis, p)
		x := fr.env[p]
		checkPhiValue(x)
		run.init = append(run.init, x)
		saveEnv[p] = x
	}
	mem := v.loopMem[run.key]
	if mem == nil {
		mem = &LoopMem{heaps: map[string]bool{}, cells: map[int]bool{}, dead: map[string]bool{}, stage: map[string]int{}}
		v.loopMem[run.key] = mem
	}
	bits := v.pathBits
	savedRuns := v.runs
	defer func() {
		v.runs = savedRuns
		for p, x := range saveEnv {
			fr.env[p] = x
		}
	}()
	ctrAt := v.cellCtr
	pass := func() {
		v.runs = append(append([]*LoopRun{}, savedRuns...), run)
		v.pathBits = bits
		v.cellCtr = ctrAt
		v.push()
		s := v.headState(run, mem)
		for _, c := range run.cands {
			if mem.dead[c.key] || c.stage > run.cur {
				continue
			}
			for i, p := range run.phis {
				fr.env[p] = run.headV[i]
			}
			v.assume(s, v.evalCand(c, s))
		}
		loops := fr.loops
		fr.loops = append(append([]*LoopRun{}, loops...), run)
		v.instrs(fr, l.head, len(run.phis), s)
		fr.loops = loops
		v.pop()
		v.runs = savedRuns
		v.pathBits = bits
	}
	var cands []*Cand
restart:
	for n := 0; ; n++ {
		if n > 30 {
			unsupported("loop discovery does not converge")
		}
		// which heaps and variables change
		run.cands, run.disc = nil, true
		run.cur = 0
		run.writes, run.wseen = map[string][]writeNote{}, map[string]bool{}
		run.grew = false
		v.mute++
		pass()
		v.mute--
		run.disc = false
		if run.grew {
			continue
		}
		break
	}
	for i, p := range run.phis {
		fr.env[p] = run.init[i]
	}
	for _, r := range savedRuns {
		if r.disc { // only looking for what is written
			run.final = true
			pass()
			if run.grew {
				run.final = false
				goto restart
			}
			return
		}
	}
	cands = nil
	place := fmt.Sprintf("%s#%d", fr.id, l.head.Index)
	for _, c := range v.genCands(run, mem, st) {
		if !v.seen.skip(place, c.key) {
			cands = append(cands, c)
		}
	}
	for i, p := range run.phis {
		fr.env[p] = run.init[i]
	}
	top := 3
	for _, r := range savedRuns {
		if !r.final && r.cur == 1 {
			top = 1
		}
	}
	// true on entry?
	var live []*Cand
	for _, c := range cands {
		mem.stage[c.key] = c.stage
		if !mem.dead[c.key] && c.stage <= top {
			live = append(live, c)
		}
	}
	v.filter(live, st, mem, "entry "+run.key)
	run.cands = cands
	for run.cur = 1; run.cur <= top; run.cur++ {
		any := false
		for _, c := range cands {
			if c.stage == run.cur && !mem.dead[c.key] {
				any = true
			}
		}
		if !any {
			continue
		}
		// inner loops start afresh: they now have more to build on
		for k, m := range v.loopMem {
			if m == mem {
				continue
			}
			outer := false
			for _, r := range savedRuns {
				outer = outer || r.key == k
			}
			if !outer && run.cur > 1 {
				for c := range m.dead {
					if m.stage[c] > 1 {
						delete(m.dead, c)
					}
				}
			}
		}
		for n := 0; ; n++ {
			run.killed, run.grew = false, false
			v.mute++
			pass()
			v.mute--
			if run.grew {
				goto restart
			}
			if !run.killed {
				break
			}
			if n > 60 {
				unsupported("invariant inference does not converge")
			}
		}
	}
	if debugInv && v.mute == 0 {
		fmt.Fprintf(os.Stderr, "loop %s of %s:\n", run.key, fr.fn.Name())
		for _, c := range cands {
			if !mem.dead[c.key] {
				fmt.Fprintf(os.Stderr, "   inv %s\n", c.key)
			}
		}
		fmt.Fprintf(os.Stderr, "   mods %v\n", sortedKeys(mem.heaps))
	}
	if v.mute == 0 {
		for _, c := range cands {
			v.seen.learn(place, c.key, !mem.dead[c.key])
		}
	}
	run.cur = top
	run.final = true
	run.grew = false
	pass()
	if run.grew {
		unsupported("loop writes more than discovered")
	}
}

var debugInv = os.Getenv("GOV_DEBUGINV") != ""

func checkPhiValue(x Value) {
	switch y := x.(type) {
	case *PtrV:
		if y.Kind != pHeap || len(y.Path) > 0 {
			unsupported("pointer to a variable carried around a loop")
		}
	case *FuncV:
		if y.Fn != nil {
			unsupported("function carried around a loop")
		}
	case *RangeV:
		unsupported("iterator carried around a loop")
	}
}

// headState havocs what the loop changes.
func (v *Verifier) headState(run *LoopRun, mem *LoopMem) *State {
	s := run.entry.clone()
	run.subst = map[string]*Term{}
	if mem.nxt {
		nx := v.fresh("nxt", SInt)
		s.nxt = nx
		v.assume(s, Le(run.entry.nxt, nx))
	}
	for _, h := range sortedKeys(mem.heaps) {
		h0 := v.heap(run.entry, h)
		h1 := v.fresh("H_"+sanitize(h), h0.Sort)
		s.heaps[h] = h1
		run.subst[h1.Op] = h0
		v.heapFacts(s, h, h1, s.nxt)
	}
	for _, id := range sortedInts(mem.cells) {
		c := s.cells[id]
		n := *c
		if c.T == nil {
			t := c.Val.(*Term)
			n.Val = v.fresh("cell", t.Sort)
		} else {
			n.Val = v.freshValue(s, c.T, "cell")
		}
		s.cells[id] = &n
	}
	run.headV = nil
	for _, p := range run.phis {
		x := v.freshValue(s, p.Type(), sanitize("p_"+p.Comment+p.Name()))
		run.headV = append(run.headV, x)
	}
	for i, p := range run.phis {
		run.fr.env[p] = run.headV[i]
	}
	run.head = s.clone()
	return s
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && same(x, y)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameValue(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && same(x.Ref, y.Ref) && same(x.Off, y.Off) && same(x.Len, y.Len)
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.Kind != y.Kind || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		switch x.Kind {
		case pHeap:
			return same(x.Ref, y.Ref)
		case pCell:
			return x.Cell == y.Cell
		case pElem:
			return same(x.Ref, y.Ref) && same(x.Idx, y.Idx)
		case pGlobal:
			return x.Glob == y.Glob
		}
	case MapV:
		y, ok := b.(MapV)
		return ok && same(x.Ref, y.Ref)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return x.Ref != nil && y.Ref != nil && same(x.Tag, y.Tag) && same(x.Ref, y.Ref)
	case *FuncV:
		return a == b
	}
	return a == b
}

// backEdge: a path has come back to the loop header.
func (v *Verifier) backEdge(fr *Frame, run *LoopRun, pred *ssa.BasicBlock, st *State) {
	mem := v.loopMem[run.key]
	for h, t := range st.heaps {
		if mem.heaps[h] {
			continue
		}
		t0, ok := run.head.heaps[h]
		if !ok {
			t0 = v.initHeaps[h]
		}
		if t0 == nil || !same(t, t0) {
			mem.heaps[h] = true
			run.grew = true
		}
	}
	if !mem.nxt && !same(st.nxt, run.head.nxt) {
		mem.nxt = true
		run.grew = true
	}
	for id, c := range run.head.cells {
		if mem.cells[id] {
			d := st.cells[id]
			if (c.Obj == nil) != (d.Obj == nil) {
				unsupported("a variable escapes in a loop")
			}
			continue
		}
		d := st.cells[id]
		if d.Obj != nil || c.Obj != nil {
			if d.Obj == nil || c.Obj == nil || !same(d.Obj, c.Obj) {
				unsupported("a variable escapes in a loop")
			}
			continue
		}
		if !sameValue(c.Val, d.Val) {
			mem.cells[id] = true
			run.grew = true
		}
	}
	// values carried over
	for i, p := range run.phis {
		x := v.val(fr, p.Edges[predIndex(run.loop.head, pred)])
		_ = i
		checkPhiValue(x)
	}
	if run.disc || run.final || run.grew {
		return
	}
	v.phis(fr, run.loop.head, pred)
	var live []*Cand
	for _, c := range run.cands {
		if c.stage == run.cur && !mem.dead[c.key] {
			live = append(live, c)
		}
	}
	if v.filter(live, st, mem, "back "+run.key) {
		run.killed = true
	}
	for i, p := range run.phis {
		fr.env[p] = run.headV[i]
	}
}

func (v *Verifier) evalCand(c *Cand, st *State) *Term {
	was := v.inSpec
	v.inSpec = true
	defer func() { v.inSpec = was }()
	return c.eval(st)
}

var deadN int

// filter kills the candidates which cannot be proved in the current context.
func (v *Verifier) filter(cs []*Cand, st *State, mem *LoopMem, what string) bool {
	var todo []*Cand
	var terms []*Term
	killed := false
	for _, c := range cs {
		t := v.evalCandSafe(c, st)
		if t == nil {
			mem.dead[c.key] = true
			killed = true
			continue
		}
		if t.Op == "true" {
			continue
		}
		if about := aboutCounters(t); about && v.sess.light != nil {
			// numbers only: what the quantified facts say about storage does not matter
			v.push()
			ng := Not(t)
			v.unfold(ng)
			v.assumeLight(ng)
			v.sess.light.tag = "light " + what + " " + c.key
			r := v.sess.light.Check(500)
			v.pop()
			if r == Unsat {
				continue
			}
			if r == Sat && !strings.HasPrefix(c.key, "tmpl") {
				mem.dead[c.key] = true
				killed = true
				if debugInv {
					fmt.Fprintf(os.Stderr, "   dead (light) at %s: %s\n", what, c.key)
				}
				continue
			}
		}
		todo = append(todo, c)
		terms = append(terms, t)
	}
	// written for this very loop: worth more
	hard, count := map[string]bool{}, map[string]int{}
	inst := func(k string) string { p, _, _ := strings.Cut(strings.TrimPrefix(k, "tmpl "), " "); return p }
	for k := range mem.stage {
		if strings.HasPrefix(k, "tmpl inv") {
			count[inst(k)]++
		}
	}
	for _, c := range todo {
		hard[c.key] = strings.HasPrefix(c.key, "tmpl inv") && count[inst(c.key)] == 1
	}
	kill := func(i int) {
		c := todo[i]
		mem.dead[c.key] = true
		killed = true
		if debugInv {
			if w := os.Getenv("GOV_DEAD"); w != "" && strings.Contains(what+": "+c.key, w) {
				deadN++
				v.push()
				v.sess.Assert(Not(terms[i]).String())
				os.WriteFile(fmt.Sprintf("/tmp/gov_dead_%d.smt2", deadN), []byte(z3opts+v.sess.prelude+v.sess.Script()+"(check-sat)\n(get-info :reason-unknown)\n"), 0644)
				v.pop()
			}
			fmt.Fprintf(os.Stderr, "   dead at %s: %s\n", what, c.key)
		}
	}
	// single decides some candidates one by one
	single := func(is []int) {
		var open []int
		var problems []string
		for _, i := range is {
			v.sess.tag = fmt.Sprintf("filter1 %s %s", what, todo[i].key)
			ms := 250
			if hard[todo[i].key] {
				ms = 50
			}
			r, p := v.refute(terms[i:i+1], ms)
			switch r {
			case Unsat:
			case Sat:
				kill(i)
			default:
				open, problems = append(open, i), append(problems, p)
			}
		}
		v.sess.tag = fmt.Sprintf("filter1 %s", what)
		var again []int
		var retry []string
		for k, r := range FreshAll(problems, 1000, v.sess) {
			if i := open[k]; r == Unknown && hard[todo[i].key] {
				again, retry = append(again, i), append(retry, problems[k])
			} else if r != Unsat {
				kill(i)
			}
		}
		for k, r := range FreshAll(retry, 4000, v.sess) {
			if r != Unsat {
				kill(again[k])
			}
		}
	}
	var rec func(is []int)
	rec = func(is []int) {
		if len(is) <= 1 {
			single(is)
			return
		}
		v.sess.tag = fmt.Sprintf("filter%d %s %s", len(is), what, todo[is[0]].key)
		var ts []*Term
		for _, i := range is {
			ts = append(ts, terms[i])
		}
		r, p := v.refute(ts, 400)
		if r == Unknown {
			r = FreshAll([]string{p}, 1500, v.sess)[0]
		}
		if r == Unsat {
			return
		}
		if len(is) <= 8 {
			single(is)
			return
		}
		m := len(is) / 2
		rec(is[:m])
		rec(is[m:])
	}
	var easy, own []int
	for i, c := range todo {
		if hard[c.key] {
			own = append(own, i)
		} else {
			easy = append(easy, i)
		}
	}
	rec(easy)
	single(own)
	return killed
}

// aboutCounters: a ground fact about integers that are not read from rows.
func aboutCounters(t *Term) bool {
	switch t.Op {
	case "forall", "exists", "at", "rows", "cols":
		return false
	case "select":
		if t.Args[0].Op == "select" && t.Args[0].Args[0].Op == "select" {
			return false
		}
	}
	if t.Sort != SInt && t.Sort != SBool {
		return t.Op != "select" && len(t.Args) == 0
	}
	for _, a := range t.Args {
		if a.Sort != SInt && a.Sort != SBool && t.Op != "select" {
			return false
		}
		if t.Op == "select" && a == t.Args[0] {
			continue
		}
		if !aboutCounters(a) {
			return false
		}
	}
	return true
}

func (v *Verifier) evalCandSafe(c *Cand, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return v.evalCand(c, st)
}

// refute: all the terms hold. If the session cannot tell, the problem as text.
func (v *Verifier) refute(ts []*Term, ms int) (Result, string) {
	v.push()
	defer v.pop()
	var ors []*Term
	for _, t := range ts {
		var subs []subgoal
		v.splitGoal(t, nil, &subs)
		for _, s := range subs {
			ors = append(ors, And(append(append([]*Term{}, s.hyps...), Not(s.goal))...))
		}
	}
	d := Or(ors...)
	if d.Op == "false" {
		return Unsat, ""
	}
	v.unfold(d)
	v.sess.Assert(d.String())
	r := v.sess.Check(ms)
	if r == Unknown {
		return r, z3opts + v.sess.prelude + v.sess.Script()
	}
	return r, ""
}

// ---- candidates ----

// invariantTerm: built from what existed before the loop.
func (run *LoopRun) invariantTerm(t *Term) bool {
	if len(t.Args) == 0 {
		if i := strings.LastIndexByte(t.Op, '!'); i >= 0 {
			n := 0
			for _, c := range t.Op[i+1:] {
				if c < '0' || c > '9' {
					return true // named constants: str!, fc!
				}
				n = n*10 + int(c-'0')
			}
			if strings.HasPrefix(t.Op, "str!") {
				return true
			}
			return n <= run.ctr0
		}
		return true
	}
	for _, a := range t.Args {
		if !run.invariantTerm(a) {
			return false
		}
	}
	return true
}

type scopeMat struct {
	name string
	get  func(st *State) Value
}
type scopeInt struct {
	name string
	get  func(st *State) *Term
}

type scope struct {
	mats   []scopeMat
	rows   []scopeMat // 1-d float slices
	slices []scopeMat // other slices
	maps   []scopeMat
	vmats  []scopeMat // matrices and slices that vary in this loop
	vslcs  []scopeMat
	ptrs   []scopeMat
	bounds []scopeInt // evaluated on loop entry
	idx    []scopeInt // processed counts of this loop and of enclosing ones
	own    []scopeInt // those of this loop
	fvars  []scopeInt // float loop variables
	ivars  []scopeInt // integer loop variables
	ref    []scopeInt
}

// visible SSA values at a point of a frame.
func visible(fr *Frame, at *ssa.BasicBlock, before ssa.Instruction) []ssa.Value {
	var out []ssa.Value
	for _, p := range fr.fn.Params {
		out = append(out, p)
	}
	for _, p := range fr.fn.FreeVars {
		out = append(out, p)
	}
	for b := at; b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			if b == at {
				if before == nil {
					break // loop header: phis are added separately
				}
				if in == before {
					break
				}
			}
			if x, ok := in.(ssa.Value); ok {
				if _, ok := fr.env[x]; ok {
					out = append(out, x)
				}
			}
		}
	}
	return out
}

func (v *Verifier) collect(run *LoopRun, mem *LoopMem) *scope {
	sc := &scope{}
	st := run.entry
	seen := map[string]bool{}
	addMat := func(name string, get func(st *State) Value) {
		x := get(st)
		var k string
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Unsupported); !ok {
						panic(r)
					}
				}
			}()
			s := matSlice(x)
			k = s.Ref.String() + "|" + s.Off.String() + "|" + s.Len.String()
		}()
		if k == "" {
			return
		}
		if _, isS := x.(*StructV); isS {
			k = "M" + k
		}
		if seen[k] {
			return
		}
		// a raw slice of a matrix already listed
		if seen["M"+k] {
			return
		}
		seen[k] = true
		sc.mats = append(sc.mats, scopeMat{name, get})
	}
	addBound := func(name string, get func(st *State) *Term) {
		t := get(st)
		if t == nil || t.Sort != SInt || seen["b"+t.String()] {
			return
		}
		seen["b"+t.String()] = true
		sc.bounds = append(sc.bounds, scopeInt{name, func(*State) *Term { return t }})
	}
	was := v.inSpec
	v.inSpec = true
	defer func() { v.inSpec = was }()
	var addVal func(name string, t types.Type, get func(st *State) Value, depth int)
	addVal = func(name string, t types.Type, get func(st *State) Value, depth int) {
		if isForeignStruct(t) {
			return
		}
		if isMatrix(t) {
			addMat(name, get)
			for i, f := range []string{"Rows", "Cols"} {
				_ = i
				addBound(name+"."+f, func(st *State) *Term {
					r, c := matDims(get(st))
					if f == "Rows" {
						return r
					}
					return c
				})
			}
			addBound("len("+name+")", func(st *State) *Term { return matSlice(get(st)).Len })
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				addBound(name, func(st *State) *Term { x, _ := get(st).(*Term); return x })
			}
		case *types.Slice:
			x, ok := get(st).(*SliceV)
			if !ok {
				return
			}
			_ = x
			addBound("len("+name+")", func(st *State) *Term { return get(st).(*SliceV).Len })
			if e, ok := u.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Float64 {
				k := "r" + x.Ref.String() + "|" + x.Off.String()
				if !seen[k] {
					seen[k] = true
					sc.rows = append(sc.rows, scopeMat{name, get})
				}
				return
			}
			if es, ok := u.Elem().Underlying().(*types.Slice); ok {
				if e, ok := es.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Float64 {
					addMat(name, get)
					return
				}
			}
			k := "s" + x.Ref.String() + x.Len.String()
			if !seen[k] {
				seen[k] = true
				sc.slices = append(sc.slices, scopeMat{name, get})
			}
		case *types.Map:
			x, ok := get(st).(MapV)
			if ok && !seen["m"+x.Ref.String()] {
				seen["m"+x.Ref.String()] = true
				sc.maps = append(sc.maps, scopeMat{name, get})
			}
		case *types.Struct:
			if depth > 1 {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				addVal(name+"."+u.Field(i).Name(), u.Field(i).Type(), func(st *State) Value { return get(st).(*StructV).F[i] }, depth+1)
			}
		case *types.Pointer:
			p, ok := get(st).(*PtrV)
			if !ok || depth > 1 && !(depth == 2 && isMatrix(u.Elem())) || isForeignStruct(u.Elem()) {
				return
			}
			if _, isArr := u.Elem().Underlying().(*types.Array); isArr {
				return
			}
			if p.Kind == pCell && st.cells[p.Cell] == nil {
				return
			}
			if p.Kind == pHeap && len(p.Path) == 0 {
				k := "p" + p.Ref.String()
				if !seen[k] {
					seen[k] = true
					sc.ptrs = append(sc.ptrs, scopeMat{name, get})
				}
			}
			if _, isPtr := u.Elem().Underlying().(*types.Pointer); isPtr {
				return
			}
			addVal("*"+name, u.Elem(), func(st *State) Value {
				q := get(st).(*PtrV)
				return v.load(st, q)
			}, depth+1)
		}
	}
	addIdx := func(own bool, name string, init Value, get func() Value) {
		t0, ok := init.(*Term)
		if !ok || t0.Sort != SInt {
			return
		}
		minus1 := false
		if n, ok := t0.intVal(); ok && n.IsInt64() && n.Int64() == -1 {
			minus1 = true
		}
		s := scopeInt{name, func(*State) *Term {
			t := get().(*Term)
			if minus1 {
				return Add(t, I(1))
			}
			return t
		}}
		sc.idx = append(sc.idx, s)
		if own {
			sc.own = append(sc.own, s)
		}
	}
	at := run.loop.head
	var before ssa.Instruction
	for fr := run.fr; fr != nil; fr = fr.parent {
		pre := ""
		for f := run.fr; f != fr; f = f.parent {
			pre += "^"
		}
		for _, x := range visible(fr, at, before) {
			if _, ok := x.Type().(*types.Tuple); ok {
				continue
			}
			y, ok := fr.env[x]
			if !ok {
				continue
			}
			if p, isPhi := x.(*ssa.Phi); isPhi {
				_ = p
			}
			addVal(pre+x.Name(), x.Type(), func(*State) Value { return y }, 0)
		}
		// enclosing loops
		for i := len(fr.loops) - 1; i >= 0; i-- {
			r := fr.loops[i]
			for k, p := range r.phis {
				q := p
				addIdx(false, pre+p.Name(), r.init[k], func() Value { return fr.env[q] })
			}
			for _, id := range sortedInts(v.loopMem[r.key].cells) {
				if c := r.entry.cells[id]; c != nil && c.T != nil {
					if t, ok := c.Val.(*Term); ok && t.Sort == SInt {
						cid := id
						sc.idx = append(sc.idx, scopeInt{fmt.Sprintf("c%d", id), func(st *State) *Term {
							return st.cells[cid].Val.(*Term)
						}})
					}
				}
			}
		}
		if fr.call != nil {
			at, before = fr.call.Block(), fr.call
		}
	}
	// cells reachable through closures are covered by FreeVars
	nm, ns := len(sc.mats), len(sc.slices)
	for k, p := range run.phis {
		q := p
		addIdx(true, p.Name(), run.init[k], func() Value { return run.fr.env[q] })
		if t, ok := run.init[k].(*Term); ok {
			g := scopeInt{p.Name(), func(*State) *Term { return run.fr.env[q].(*Term) }}
			if t.Sort == SInt {
				sc.ivars = append(sc.ivars, g)
			} else if t.Sort == SF {
				sc.fvars = append(sc.fvars, g)
			}
		}
		get := func(*State) Value { return run.fr.env[q] }
		switch y := run.init[k].(type) {
		case *StructV:
			if isMatrix(p.Type()) {
				sc.mats = append(sc.mats, scopeMat{p.Name(), get})
			}
		case *SliceV:
			switch e := y.Elem.Underlying().(type) {
			case *types.Basic:
				if e.Kind() == types.Float64 {
					sc.rows = append(sc.rows, scopeMat{p.Name(), get})
				} else {
					sc.slices = append(sc.slices, scopeMat{p.Name(), get})
				}
			case *types.Slice:
				sc.mats = append(sc.mats, scopeMat{p.Name(), get})
			default:
				sc.slices = append(sc.slices, scopeMat{p.Name(), get})
			}
		case *PtrV:
			if isMatrix(deref(p.Type())) {
				sc.mats = append(sc.mats, scopeMat{p.Name(), func(st *State) Value { return v.load(st, run.fr.env[q].(*PtrV)) }})
			}
			sc.ptrs = append(sc.ptrs, scopeMat{p.Name(), get})
		}
	}
	sc.vmats = append(sc.vmats, sc.mats[nm:]...)
	sc.vslcs = append(sc.vslcs, sc.slices[ns:]...)
	for _, id := range sortedInts(mem.cells) {
		c := run.entry.cells[id]
		cid := id
		name := fmt.Sprintf("c%d", id)
		if t, ok := c.Val.(*Term); ok {
			g := scopeInt{name, func(st *State) *Term { return st.cells[cid].Val.(*Term) }}
			switch t.Sort {
			case SInt:
				sc.ivars = append(sc.ivars, g)
				sc.idx = append(sc.idx, g)
				sc.own = append(sc.own, g)
			case SF:
				sc.fvars = append(sc.fvars, g)
			}
		}
		if c.T != nil && isMatrix(c.T) {
			sc.vmats = append(sc.vmats, scopeMat{name, func(st *State) Value { return st.cells[cid].Val }})
		} else if s, ok := c.Val.(*SliceV); ok && s != nil {
			sc.vslcs = append(sc.vslcs, scopeMat{name, func(st *State) Value { return st.cells[cid].Val }})
		}
	}
	// counting through a slice that starts k elements into a row
	for _, m := range sc.rows {
		s, ok := m.get(run.entry).(*SliceV)
		if !ok {
			continue
		}
		if k, ok := s.Off.intVal(); ok && k.Sign() > 0 {
			for _, l := range []*[]scopeInt{&sc.own, &sc.idx} {
				for _, p := range append([]scopeInt{}, *l...) {
					p := p
					if seen["+"+p.name+k.String()] || strings.Contains(p.name, "+") {
						continue
					}
					*l = append(*l, scopeInt{p.name + "+" + k.String(), func(st *State) *Term { return Add(p.get(st), s.Off) }})
				}
			}
			for _, p := range sc.own {
				seen["+"+p.name+k.String()] = true
			}
			break
		}
	}
	return sc
}

func (v *Verifier) genCands(run *LoopRun, mem *LoopMem, st *State) []*Cand {
	was := v.inSpec
	v.inSpec = true
	defer func() { v.inSpec = was }()
	var out []*Cand
	seen := map[string]bool{}
	add := func(stage int, key string, eval func(st *State) *Term) {
		if seen[key] {
			return
		}
		seen[key] = true
		out = append(out, &Cand{key, stage, eval})
	}
	sc := v.collect(run, mem)
	entry := run.entry
	// loop variables
	for _, p := range sc.ivars {
		p := p
		p0 := p.get(entry)
		add(1, p.name+">=init", func(st *State) *Term { return Le(p0, p.get(st)) })
		add(1, p.name+"<=init", func(st *State) *Term { return Le(p.get(st), p0) })
		add(1, p.name+">=0", func(st *State) *Term { return Le(I(0), p.get(st)) })
		add(1, p.name+">=-1", func(st *State) *Term { return Le(I(-1), p.get(st)) })
		for _, b := range sc.bounds {
			n := b.get(nil)
			add(1, p.name+"<="+b.name, func(st *State) *Term { return Le(p.get(st), n) })
			add(1, p.name+"<"+b.name, func(st *State) *Term { return Lt(p.get(st), n) })
		}
		for _, q := range sc.ivars {
			if p.name < q.name {
				q := q
				q0 := q.get(entry)
				add(1, p.name+"-"+q.name, func(st *State) *Term {
					return Eq(Sub(p.get(st), p0), Sub(q.get(st), q0))
				})
			}
		}
	}
	for i, p := range run.phis {
		p := p
		x0 := run.init[i]
		if t, ok := x0.(*Term); ok && t.Sort == SInt {
			continue
		}
		add(1, p.Name()+"==init", func(st *State) *Term {
			e := &Env{v: v, st: st, old: v.old}
			return e.equal(nil, run.fr.env[p], x0)
		})
		if s0, ok := x0.(*SliceV); ok {
			add(1, "fresh "+p.Name(), func(st *State) *Term { // nothing else knows the backing array
				return Or(Eq(run.fr.env[p].(*SliceV).Ref, I(0)), Le(v.frameNxt(run.fr), run.fr.env[p].(*SliceV).Ref))
			})
			add(1, "freshl "+p.Name(), func(st *State) *Term {
				r := run.fr.env[p].(*SliceV).Ref
				return Or(Eq(r, s0.Ref), Le(entry.nxt, r))
			})
			add(1, "off0 "+p.Name(), func(st *State) *Term { return Eq(run.fr.env[p].(*SliceV).Off, I(0)) })
			for _, q := range sc.own {
				q := q
				add(1, "len "+p.Name()+"="+q.name, func(st *State) *Term {
					return Eq(run.fr.env[p].(*SliceV).Len, q.get(st))
				})
			}
			_ = s0
		}
		if _, ok := x0.(*StructV); ok && isMatrix(p.Type()) {
			add(1, "wf "+p.Name(), func(st *State) *Term { return v.wfMatrix(st, run.fr.env[p]) })
		}
	}
	for _, id := range sortedInts(mem.cells) {
		cid := id
		c0 := entry.cells[id]
		if c0.T == nil {
			continue
		}
		add(1, fmt.Sprintf("c%d==init", id), func(st *State) *Term {
			e := &Env{v: v, st: st, old: v.old}
			return e.equal(nil, st.cells[cid].Val, c0.Val)
		})
	}
	// frames
	r := V("r?q", SInt)
	foot := v.foot
	groups := map[string][]string{}
	for _, h := range sortedKeys(mem.heaps) {
		g := heapGroup(h)
		groups[g] = append(groups[g], h)
	}
	for _, g := range sortedKeys(groups) {
		hs := groups[g]
		g := g
		addAll := func(key string, f func(st *State, h string) *Term) {
			add(1, g+" "+key, func(st *State) *Term {
				var ts []*Term
				for _, h := range hs {
					ts = append(ts, f(st, h))
				}
				return And(ts...)
			})
		}
		addAll("same", func(st *State, h string) *Term { return Eq(v.heap(st, h), v.heap(entry, h)) })
		if !refIndexed(hs[0]) {
			if foot != nil {
				addAll("foot", func(st *State, h string) *Term {
					c := foot.covers(h, I(0))
					if c.Op == "true" || c.Op == "false" {
						return tTrue
					}
					return Imp(Not(c), Eq(v.heap(st, h), v.heap(v.old, h)))
				})
			}
			continue
		}
		quant := func(st *State, hyp *Term, h string, from *Term) *Term {
			es := arrElem(from.Sort)
			a, b := Sel2(v.heap(st, h), r, es), Sel2(from, r, es)
			return Forall([]*Term{r}, Imp(hyp, Eq(a, b)), []*Term{a})
		}
		addAll("loopfresh", func(st *State, h string) *Term { return quant(st, Lt(r, entry.nxt), h, v.heap(entry, h)) })
		for f := run.fr; f != nil; f = f.parent {
			n := f.nxtIn
			addAll(fmt.Sprintf("framefresh%d", f.depth), func(st *State, h string) *Term { return quant(st, Lt(r, n), h, v.heap(entry, h)) })
		}
		if foot != nil {
			addAll("foot", func(st *State, h string) *Term {
				return quant(st, And(Lt(r, v.old.nxt), Not(foot.covers(h, r))), h, v.heap(v.old, h))
			})
		}
		// only what was seen to be written
		cover := map[string]*Term{}
		all := true
		for _, h := range hs {
			var covers []*Term
			for _, w := range run.writes[h] {
				if c := v.generalise(run, sc, w, r); c != nil {
					covers = append(covers, c)
				} else {
					all = false
				}
			}
			cover[h] = Or(covers...)
			all = all && len(covers) > 0
		}
		if all {
			addAll("writes", func(st *State, h string) *Term {
				return quant(st, And(Lt(r, entry.nxt), Not(cover[h])), h, v.heap(entry, h))
			})
			if mem.nxt {
				n := v.frameNxt(run.fr)
				addAll("fwrites", func(st *State, h string) *Term {
					return quant(st, And(Lt(r, n), Not(cover[h])), h, v.heap(entry, h))
				})
			}
		}
		if strings.HasPrefix(g, "E:") && g != hFloat && g != hRowR && g != hRowL {
			for _, m := range sc.slices {
				m := m
				s, ok := m.get(entry).(*SliceV)
				if !ok {
					continue
				}
				names, _ := elemHeaps(s.Elem, nil)
				if len(names) > 0 && heapGroup(names[0]) == g {
					addAll("unchanged slots "+m.name, func(st *State, h string) *Term {
						s := m.get(st).(*SliceV)
						h0 := v.heap(entry, h)
						es := arrElem(h0.Sort)
						return Eq(Sel2(v.heap(st, h), s.Ref, es), Sel2(h0, s.Ref, es))
					})
				}
			}
		}
		if strings.HasPrefix(g, "S:") || strings.HasPrefix(g, "X:") || strings.HasPrefix(g, "B:") {
			for _, m := range sc.ptrs {
				m := m
				if p, ok := m.get(entry).(*PtrV); ok && strings.HasPrefix(g, "S:") && p.Kind == pHeap && p.Base != nil {
					if n := typeName(p.Base); n != "" && !strings.HasPrefix(g, "S:"+n+":") {
						continue
					}
				}
				addAll("unchanged obj "+m.name, func(st *State, h string) *Term {
					p := m.get(st).(*PtrV)
					h0 := v.heap(entry, h)
					es := arrElem(h0.Sort)
					return Eq(Sel2(v.heap(st, h), p.Ref, es), Sel2(h0, p.Ref, es))
				})
			}
		}
	}
	for _, h := range sortedKeys(mem.heaps) {
		h := h
		h0 := v.heap(entry, h)
		if !refIndexed(h) {
			continue
		}
		es := arrElem(h0.Sort)
		if h == hFloat {
			for _, m := range sc.mats {
				m := m
				add(1, "unchanged "+m.name, func(st *State) *Term {
					x := m.get(st)
					s := matSlice(x)
					i := V("i?q", SInt)
					rr := v.rowRef(st, x, i)
					return Forall([]*Term{i}, Imp(And(Le(I(0), i), Lt(i, s.Len)), Eq(Sel2(v.heap(st, h), rr, es), Sel2(h0, rr, es))), []*Term{rr})
				})
			}
			for _, m := range sc.rows {
				m := m
				add(1, "unchanged "+m.name, func(st *State) *Term {
					s := m.get(st).(*SliceV)
					return Eq(Sel2(v.heap(st, h), s.Ref, es), Sel2(h0, s.Ref, es))
				})
			}
		}
		if h == hRowR || h == hRowL {
			for _, m := range sc.mats {
				m := m
				add(1, "unchanged slots "+h+m.name, func(st *State) *Term {
					s := matSlice(m.get(st))
					return Eq(Sel2(v.heap(st, h), s.Ref, es), Sel2(h0, s.Ref, es))
				})
			}
		}
	}
	v.entryCands(run, mem, sc, add)
	v.templateCands(run, mem, sc, add)
	return out
}

// heapGroup: the parts of one field (or of one slice's elements) are written together.
func heapGroup(h string) string {
	if h == hRowR || h == hRowL {
		return h
	}

	for _, p := range []string{"S:", "E:"} {
		if !strings.HasPrefix(h, p) {
			continue
		}
		i := strings.Index(h[2:], ":")
		if i < 0 {
			return h
		}
		i += 3
		if p == "E:" {
			return h[:i]
		}
		if i < len(h) {
			if j := strings.IndexAny(h[i+1:], ".#"); j >= 0 {
				return h[:i+1+j]
			}
		}
	}
	return h
}

func (v *Verifier) frameNxt(fr *Frame) *Term { return fr.nxtIn }

// generalise a write seen in the loop body to a loop-invariant set.
func (v *Verifier) generalise(run *LoopRun, sc *scope, w writeNote, r *Term) *Term {
	if w.ref != nil {
		t := subst(w.ref, run.subst)
		if run.invariantTerm(t) {
			return Eq(r, t)
		}
		// H[S][ix(o,i)]: a row of the matrix with outer array S
		if t.Op == "select" && t.Args[0].Op == "select" && t.Args[1].Op == "ix" {
			arr, off := t.Args[0], t.Args[1].Args[0]
			if run.invariantTerm(arr) && run.invariantTerm(off) {
				for _, m := range sc.mats {
					s := matSlice(m.get(run.entry))
					if same(s.Ref, arr.Args[1]) && same(s.Off, off) {
						return App("rowOf", SBool, arr, off, s.Len, r)
					}
				}
			}
		}
		// storage allocated inside the loop
		if t.Sort == SInt && !run.invariantTerm(t) {
			return tFalse
		}
		return nil
	}
	c := subst(w.cover(r), run.subst)
	if run.invariantTerm(c) {
		return c
	}
	return nil
}

func (v *Verifier) wfShape(st *State, x Value) *Term {
	s := matSlice(x)
	r, c := matDims(x)
	return And(Le(I(1), r), Le(I(1), c), Eq(s.Len, r), Lt(I(0), s.Ref), v.wfRows(st, x, nil))
}

func (v *Verifier) wfMatrix(st *State, x Value) *Term {
	return And(v.wfShape(st, x), v.rowsDistinct(st, x))
}

// targets: what the contract says about entries.
type target struct {
	name string
	at   func(i, j *Term) *Term // value, read in the old state
	rows *Term
	cols *Term
	when *Term
	cl   *Clause
	home *SliceV // the storage of the parameter the clause is about
}

// homeOf: the storage a clause about a parameter speaks of.
func (v *Verifier) homeOf(c *Clause) (s *SliceV) {
	if id, ok := c.TargetX.(*ast.Ident); ok {
		if _, ok := v.params[id.Name]; !ok {
			return nil
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); ok {
				s = nil
				return
			}
			panic(r)
		}
	}()
	e := &Env{v: v, vars: v.params, st: v.old, old: v.old}
	return matSlice(e.autoDeref(e.eval(c.TargetX)))
}

func (v *Verifier) targets() []target {
	if v.tgts != nil {
		return v.tgts
	}
	v.tgts = []target{}
	for _, c := range v.con.Clauses {
		if c.Kind != "entry" && c.Kind != "step" && c.Kind != "matrix" && c.Kind != "mstep" {
			continue
		}
		c := c
		base := &Env{v: v, vars: v.params, st: v.old, old: v.old}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(Unsupported); ok {
						if debug {
							fmt.Println("  target dropped:", u.Msg)
						}
						return
					}
					panic(r)
				}
			}()
			t := target{name: c.Kind + c.Name, cl: c, when: tTrue}
			v.spec(base, func(e *Env) *Term {
				if c.When != nil {
					t.when = e.tryBool(c.When)
				}
				if c.Kind == "matrix" || c.Kind == "mstep" {
					m := e.mvTerm(c.Expr)
					t.rows, t.cols = App("rows", SInt, m), App("cols", SInt, m)
					t.at = func(i, j *Term) *Term { return App("at", SF, m, i, j) }
					return nil
				}
				t.rows, t.cols = e.term(c.Size[0]), e.term(c.Size[1])
				t.at = func(i, j *Term) *Term {
					return toF(e.with(c.Idx[0], i).with(c.Idx[1], j).term(c.Expr))
				}
				t.at(V("i?t", SInt), V("j?t", SInt))
				return nil
			})
			if c.TargetX != nil {
				t.home = v.homeOf(c)
			}
			v.tgts = append(v.tgts, t)
		}()
	}
	return v.tgts
}

// tryBool: the condition if it can be read before the end of the function.
func (e *Env) tryBool(x ast.Expr) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); ok {
				t = tTrue
				return
			}
			panic(r)
		}
	}()
	return e.boolean(x)
}

func (v *Verifier) entryCands(run *LoopRun, mem *LoopMem, sc *scope, add func(int, string, func(*State) *Term)) {
	var tg []target
	if !mem.heaps[hFloat] && !mem.heaps[hRowR] {
		return
	}
	for _, t := range v.targets() {
		if t.when.Op != "true" && v.prove(Not(t.when), 300) {
			continue
		}
		tg = append(tg, t)
	}
	if len(tg) == 0 {
		return
	}
	i, j := V("i?e", SInt), V("j?e", SInt)
	type region struct {
		name string
		in   func(st *State) *Term // (i,j) already processed
	}
	var regs []region
	reg := func(name string, in func(st *State) *Term) { regs = append(regs, region{name, in}) }
	for _, p := range sc.own {
		p := p
		p0 := p.get(run.entry)
		reg("i<"+p.name, func(st *State) *Term { return Lt(i, p.get(st)) })
		reg("j<"+p.name, func(st *State) *Term { return Lt(j, p.get(st)) })
		if _, lit := p0.intVal(); !lit {
			reg("i>"+p.name, func(st *State) *Term { return Lt(p.get(st), i) })
			reg("j>"+p.name, func(st *State) *Term { return Lt(p.get(st), j) })
		}
		for _, q := range sc.idx {
			if q.name == p.name {
				continue
			}
			q := q
			reg("i<"+q.name+";j<"+p.name, func(st *State) *Term {
				return Or(Lt(i, q.get(st)), And(Eq(i, q.get(st)), Lt(j, p.get(st))))
			})
			reg("j<"+q.name+";i<"+p.name, func(st *State) *Term {
				return Or(Lt(j, q.get(st)), And(Eq(j, q.get(st)), Lt(i, p.get(st))))
			})
			reg("i="+q.name+";j<"+p.name, func(st *State) *Term {
				return And(Eq(i, q.get(st)), Lt(j, p.get(st)))
			})
			if _, lit := p0.intVal(); !lit {
				reg("i<"+q.name+";j>"+p.name, func(st *State) *Term {
					return Or(Lt(i, q.get(st)), And(Eq(i, q.get(st)), Lt(p.get(st), j)))
				})
				reg("i>"+q.name+";j>"+p.name, func(st *State) *Term {
					return Or(Lt(q.get(st), i), And(Eq(i, q.get(st)), Lt(p.get(st), j)))
				})
			}
			reg("i>"+q.name+";j<"+p.name, func(st *State) *Term {
				return Or(Lt(q.get(st), i), And(Eq(i, q.get(st)), Lt(j, p.get(st))))
			})
		}
	}
	h0 := v.heap(run.entry, hFloat)
	for _, m := range sc.mats {
		m := m
		if !mem.heaps[hRowR] && !v.mayWrite(run, m) {
			continue
		}
		homed := false
		ms := matSlice(m.get(run.entry))
		at := func(t target) bool { return t.home != nil && same(t.home.Ref, ms.Ref) && same(t.home.Off, ms.Off) }
		for _, t := range tg {
			homed = homed || at(t)
		}
		for _, rg := range regs {
			rg := rg
			for _, t := range tg {
				t := t
				if homed && t.home != nil && !at(t) {
					continue
				}
				add(2, "entry "+m.name+" "+t.name+" "+rg.name, func(st *State) *Term {
					x := m.get(st)
					a := v.matAt(st, x, i, j)
					return Imp(t.when, Forall([]*Term{i, j}, Imp(And(Le(I(0), i), Lt(i, t.rows), Le(I(0), j), Lt(j, t.cols), rg.in(st)), Eq(a, t.at(i, j))), []*Term{a}))
				})
			}
			add(2, "rest "+m.name+" "+rg.name, func(st *State) *Term {
				x := m.get(st)
				s := matSlice(x)
				rr := v.rowRef(st, x, i)
				a := Sel(Sel(v.heap(st, hFloat), rr), j)
				return Forall([]*Term{i, j}, Imp(And(Le(I(0), i), Lt(i, s.Len), Le(I(0), j), Not(rg.in(st))), Eq(a, Sel(Sel(h0, rr), j))), []*Term{a})
			})
		}
	}
	for _, m := range sc.rows {
		m := m
		for _, p := range sc.own {
			p := p
			for _, q := range sc.idx {
				if q.name == p.name {
					continue
				}
				q := q
				for _, t := range tg {
					t := t
					add(2, "row "+m.name+" "+t.name+" "+q.name+";"+p.name, func(st *State) *Term {
						s := m.get(st).(*SliceV)
						a := Sel(Sel(v.heap(st, hFloat), s.Ref), Add(s.Off, j))
						return Imp(t.when, Forall([]*Term{j}, Imp(And(Le(I(0), j), Lt(j, t.cols), Lt(j, p.get(st))), Eq(a, t.at(q.get(st), j))), []*Term{a}))
					})
				}
			}
		}
	}
}

// mayWrite: some write of the body may hit a row of m.
func (v *Verifier) mayWrite(run *LoopRun, m scopeMat) bool {
	ws := run.writes[hFloat]
	if len(ws) == 0 {
		return true
	}
	s := matSlice(m.get(run.entry))
	for _, w := range ws {
		if w.ref == nil {
			return true
		}
		t := subst(w.ref, run.subst)
		if t.Op == "select" && t.Args[0].Op == "select" {
			if same(t.Args[0].Args[1], s.Ref) {
				return true
			}
			continue
		}
		return true
	}
	return false
}

func (v *Verifier) templateCands(run *LoopRun, mem *LoopMem, sc *scope, add func(int, string, func(*State) *Term)) {
	var cls []*Clause
	cls = append(cls, v.con.of("inv")...)
	cls = append(cls, specs.tmplAll...)
	for _, c := range cls {
		c := c
		if c.Need != "" && !mem.heaps[c.Need] {
			continue
		}
		n := 0
		early := c.Need == "" // about counters only: entries may depend on it
		for _, m := range c.Metas {
			early = early && (m.Sort == "own" || m.Sort == "idx" || m.Sort == "ivar" || m.Sort == "bound")
		}
		early = early || c.Need == "" && storageOnly(c)

		var expand func(k int, names []string, gets map[string]func(st *State) Value, own bool)
		expand = func(k int, names []string, gets map[string]func(st *State) Value, own bool) {
			if k == len(c.Metas) {
				n++
				if n > 3000 || !own {
					return
				}
				g := gets
				read := func(st *State) *Term {
					vars := map[string]Value{}
					for a, b := range v.params {
						vars[a] = b
					}
					for a, f := range g {
						vars[a] = f(st)
					}
					e := &Env{v: v, vars: vars, st: st, old: v.old, loop: run.entry}
					return e.boolean(c.Expr)
				}
				if early {
					add(1, "tmpl early "+c.Name+" "+strings.Join(names, ","), read)
				}
				add(3, "tmpl "+c.Name+" "+strings.Join(names, ","), read)
				return
			}
			m := c.Metas[k]
			with := func(name string, f func(st *State) Value, o bool) {
				g := map[string]func(st *State) Value{}
				for a, b := range gets {
					g[a] = b
				}
				g[m.Op] = f
				expand(k+1, append(append([]string{}, names...), name), g, own || o)
			}
			ints := func(l []scopeInt, o bool) {
				for _, x := range l {
					x := x
					ownv := o
					for _, w := range sc.own {
						if w.name == x.name {
							ownv = true
						}
					}
					with(x.name, func(st *State) Value { return x.get(st) }, ownv)
				}
			}
			vals := func(l []scopeMat) {
				for _, x := range l {
					x := x
					with(x.name, func(st *State) Value { return x.get(st) }, false)
				}
			}
			switch m.Sort {
			case "F":
				ints(sc.fvars, true)
			case "idx":
				ints(sc.idx, false)
			case "own":
				ints(sc.own, true)
			case "ivar":
				ints(sc.ivars, true)
			case "bound":
				ints(sc.bounds, false)
			case "mat":
				vals(sc.mats)
			case "row":
				vals(sc.rows)
			case "slice":
				vals(sc.slices)
			case "vmat":
				vals(sc.vmats)
			case "vslice":
				vals(sc.vslcs)
			case "map":
				vals(sc.maps)
			case "loop":
				expand(k+1, names, gets, true)
			default:
				unsupported("metavariable kind %s", m.Sort)
			}
		}
		free := true // nothing of the loop's own to tie it to
		for _, m := range c.Metas {
			if m.Sort != "mat" && m.Sort != "slice" && m.Sort != "vmat" && m.Sort != "vslice" && m.Sort != "map" {
				free = false
			}
		}
		expand(0, nil, map[string]func(st *State) Value{}, free)
	}
}

// storageOnly: about where carried matrices are stored; frames depend on it.
func storageOnly(c *Clause) bool {
	for _, m := range c.Metas {
		if m.Sort != "vmat" && m.Sort != "vslice" {
			return false
		}
	}
	ok := len(c.Metas) > 0
	ast.Inspect(c.Expr, func(n ast.Node) bool {
		if call, is := n.(*ast.CallExpr); is {
			switch f, _ := call.Fun.(*ast.Ident); {
			case f == nil:
				ok = false
			default:
				switch f.Name {
				case "len", "rowref", "rowsdistinct", "oldnxt", "nxt", "forall", "wf", "ref":
				default:
					ok = false
				}
			}
		}
		return true
	})
	return ok
}
