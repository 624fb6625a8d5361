package main

// Path-wise symbolic execution of go/ssa code.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	parent *Frame
	call   ssa.Instruction
	loops  []*LoopRun
	info   *FnInfo
	ret    func(st *State, res []Value)
	defers []func(st *State, k func(*State))
	id     string
	nxtIn  *Term
	depth  int
}

const maxInline = 10

func (v *Verifier) val(fr *Frame, x ssa.Value) Value {
	switch c := x.(type) {
	case *ssa.Const:
		return constValue(c)
	case *ssa.Global:
		t := deref(c.Type())
		return &PtrV{Kind: pGlobal, Elem: t, Base: t, Glob: c.Name()}
	case *ssa.Function:
		return &FuncV{Fn: c}
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[x]
	if !ok {
		unsupported("value %s of %s not available", x.Name(), fr.fn.Name())
	}
	return r
}

func (v *Verifier) newFrame(fn *ssa.Function, parent *Frame, call ssa.Instruction) *Frame {
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, parent: parent, call: call, info: v.prog.info(fn)}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.id = fmt.Sprintf("%s/%s@%p", parent.id, fn.Name(), call)
	}
	return fr
}

func (v *Verifier) inline(fr *Frame, call ssa.Instruction, fn *ssa.Function, args []Value, binds []Value, st *State, k func(st *State, res []Value)) {
	if fr != nil && fr.depth > maxInline {
		unsupported("calls nested too deeply (recursion?) at %s", fn.Name())
	}
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn && f.id != "iface" {
			unsupported("recursive function %s", fn.Name())
		}
	}
	if len(fn.Blocks) == 0 {
		unsupported("no body of %s", fn)
	}
	nf := v.newFrame(fn, fr, call)
	nf.nxtIn = st.nxt
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		nf.env[b] = binds[i]
	}
	nf.ret = k
	v.block(nf, fn.Blocks[0], nil, st)
}

// block enters a basic block coming from pred.
func (v *Verifier) block(fr *Frame, b, pred *ssa.BasicBlock, st *State) {
	if v.tooLate() {
		unsupported("time budget of the function exhausted")
	}
	// leaving loops
	saved := fr.loops
	for len(fr.loops) > 0 && !fr.loops[len(fr.loops)-1].loop.body[b] {
		if !fr.loops[len(fr.loops)-1].final {
			fr.loops = saved
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	defer func() { fr.loops = saved }()
	if l := fr.info.loops[b]; l != nil {
		if l.irred {
			unsupported("irreducible control flow in %s", fr.fn.Name())
		}
		if n := len(fr.loops); n > 0 && fr.loops[n-1].loop == l {
			v.backEdge(fr, fr.loops[n-1], pred, st)
			return
		}
		v.enterLoop(fr, l, pred, st)
		return
	}
	if pred != nil {
		v.phis(fr, b, pred)
	}
	v.instrs(fr, b, 0, st)
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	panic("not a predecessor")
}

func (v *Verifier) phis(fr *Frame, b, pred *ssa.BasicBlock) {
	n := predIndex(b, pred)
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, v.val(fr, p.Edges[n]))
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
	}
}

func (v *Verifier) instrs(fr *Frame, b *ssa.BasicBlock, from int, st *State) {
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in.Pos().IsValid() {
			v.curPos = v.prog.pos(in.Pos())
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			v.block(fr, b.Succs[0], b, st)
			return
		case *ssa.If:
			v.branch(fr, b, v.val(fr, x.Cond).(*Term), st)
			return
		case *ssa.Return:
			for _, l := range fr.loops {
				if !l.final {
					return
				}
			}
			var res []Value
			for _, r := range x.Results {
				res = append(res, v.val(fr, r))
			}
			if fr.parent == nil {
				v.trace = nil
			}
			saved := fr.loops
			fr.ret(st, res)
			fr.loops = saved
			return
		case *ssa.Panic:
			v.panicAt(fr, st)
			return
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			j := i
			ds := fr.defers
			fr.defers = nil
			var run func(n int, st *State)
			run = func(n int, st *State) {
				if n < 0 {
					v.instrs(fr, b, j+1, st)
					return
				}
				ds[n](st, func(st *State) { run(n-1, st) })
			}
			run(len(ds)-1, st)
			fr.defers = ds
			return
		case *ssa.Defer:
			if len(fr.loops) > 0 {
				unsupported("defer in a loop")
			}
			args := make([]Value, len(x.Call.Args))
			for k, a := range x.Call.Args {
				args[k] = v.val(fr, a)
			}
			c := x
			old := fr.defers
			fr.defers = append(append([]func(*State, func(*State)){}, old...), func(st *State, k func(*State)) {
				v.callWith(fr, c, c.Common(), args, st, func(st *State, _ Value) { k(st) })
			})
			v.instrs(fr, b, i+1, st)
			fr.defers = old
			return
		case *ssa.Call:
			j := i
			v.call(fr, x, st, func(st *State, r Value) {
				fr.env[x] = r
				v.instrs(fr, b, j+1, st)
			})
			return
		default:
			if k := v.multi(fr, in, st, func(st *State) { v.instrs(fr, b, i+1, st) }); k {
				return
			}
			v.simple(fr, in, st)
		}
	}
}

// branch explores both outcomes of a condition.
func (v *Verifier) branch(fr *Frame, b *ssa.BasicBlock, c *Term, st *State) {
	v.fork(fr, c, st, func(st *State, taken bool) {
		if taken {
			v.block(fr, b.Succs[0], b, st)
		} else {
			v.block(fr, b.Succs[1], b, st)
		}
	})
}

func (v *Verifier) fork(fr *Frame, c *Term, st *State, k func(st *State, taken bool)) {
	if c.Op == "true" {
		k(st, true)
		return
	}
	if c.Op == "false" {
		k(st, false)
		return
	}
	bits := v.pathBits
	for _, side := range []bool{true, false} {
		cond := c
		if !side {
			cond = Not(c)
		}
		v.push()
		s := st.clone()
		v.assume(s, cond)
		v.sess.tag = "branch"
		if v.feasible() {
			v.pathCount++
			if v.pathCount > 20000 {
				unsupported("too many paths")
			}
			if side {
				v.pathBits = bits + "1"
			} else {
				v.pathBits = bits + "0"
			}
			pos := v.curPos
			k(s, side)
			v.curPos = pos
		} else {
			v.anyExit = v.anyExit || false
		}
		v.pathBits = bits
		v.pop()
	}
}

func (v *Verifier) panicAt(fr *Frame, st *State) {
	for f := fr; f != nil; f = f.parent {
		for _, l := range f.loops {
			if !l.final && f == fr {
				return
			}
		}
	}
	g := tFalse
	if cs := v.con.of("panics"); len(cs) > 0 {
		var ors []*Term
		for _, c := range cs {
			ors = append(ors, v.specIn(v.old, v.old, func(e *Env) *Term { return e.boolean(c.Expr) }))
		}
		g = Or(ors...)
	}
	v.oblige(st, "safety", "no panic", nil, g)
}

// specIn evaluates a contract expression with the function's parameters.
func (v *Verifier) specIn(st, old *State, f func(e *Env) *Term) *Term {
	return v.spec(&Env{v: v, vars: v.params, st: st, old: old}, f)
}

func (v *Verifier) spec(e *Env, f func(e *Env) *Term) *Term {
	was := v.inSpec
	v.inSpec = true
	defer func() { v.inSpec = was }()
	return f(e)
}

func (v *Verifier) nilCheck(st *State, p *PtrV) {
	if p.Kind == pHeap {
		v.oblige(st, "safety", "no nil pointer", nil, Not(Eq(p.Ref, I(0))))
	}
}

func ptrOf(x Value) *PtrV {
	p, ok := x.(*PtrV)
	if !ok {
		unsupported("pointer expected, got %T", x)
	}
	return p
}

// simple instructions: no control flow.
func (v *Verifier) simple(fr *Frame, in ssa.Instruction, st *State) {
	switch x := in.(type) {
	case *ssa.Alloc:
		fr.env[x] = v.allocVar(x, st)
	case *ssa.Store:
		p := ptrOf(v.val(fr, x.Addr))
		v.nilCheck(st, p)
		v.store(st, p, v.val(fr, x.Val))
	case *ssa.UnOp:
		fr.env[x] = v.unop(fr, x, st)
	case *ssa.BinOp:
		fr.env[x] = v.binop(st, x.Op, v.val(fr, x.X), v.val(fr, x.Y), x.X.Type(), x.Type())
	case *ssa.FieldAddr:
		p := ptrOf(v.val(fr, x.X))
		v.nilCheck(st, p)
		q := *p
		q.Path = append(append([]int{}, p.Path...), x.Field)
		q.Elem = deref(x.Type())
		fr.env[x] = &q
	case *ssa.Field:
		fr.env[x] = v.val(fr, x.X).(*StructV).F[x.Field]
	case *ssa.IndexAddr:
		i := v.val(fr, x.Index).(*Term)
		switch b := v.val(fr, x.X).(type) {
		case *SliceV:
			v.oblige(st, "safety", "index in range", nil, And(Le(I(0), i), Lt(i, b.Len)))
			fr.env[x] = &PtrV{Kind: pElem, Elem: b.Elem, Base: b.Elem, Ref: b.Ref, Idx: v.elemIdx(b, i)}
		case *PtrV:
			a, ok := b.Elem.Underlying().(*types.Array)
			if !ok || b.Kind != pHeap {
				unsupported("index of %s", b.Elem)
			}
			v.oblige(st, "safety", "index in range", nil, And(Le(I(0), i), Lt(i, I(a.Len()))))
			s := &SliceV{Elem: a.Elem(), Ref: b.Ref, Off: I(0), Len: I(a.Len())}
			fr.env[x] = &PtrV{Kind: pElem, Elem: a.Elem(), Base: a.Elem(), Ref: b.Ref, Idx: v.elemIdx(s, i)}
		default:
			unsupported("index of %T", b)
		}
	case *ssa.Extract:
		fr.env[x] = v.val(fr, x.Tuple).(TupleV)[x.Index]
	case *ssa.MakeSlice:
		n, c := v.val(fr, x.Len).(*Term), v.val(fr, x.Cap).(*Term)
		v.oblige(st, "safety", "length of make is not negative", nil, And(Le(I(0), n), Le(n, c)))
		v.assume(st, Le(c, maxLen)) // the allocation succeeded
		fr.env[x] = v.makeSlice(st, x.Type().Underlying().(*types.Slice).Elem(), n, c)
		v.allocGhost(st, n)
	case *ssa.MakeMap:
		fr.env[x] = v.newMap(st, x.Type())
	case *ssa.MapUpdate:
		v.mapSet(st, v.val(fr, x.Map).(MapV), v.val(fr, x.Key).(*Term), v.val(fr, x.Value).(*Term))
	case *ssa.Lookup:
		m, ok := v.val(fr, x.X).(MapV)
		if !ok {
			unsupported("string index")
		}
		k := v.val(fr, x.Index).(*Term)
		if x.CommaOk {
			fr.env[x] = TupleV{v.mapGet(st, m, k), v.mapHas(st, m, k)}
		} else {
			fr.env[x] = v.mapGet(st, m, k)
		}
	case *ssa.MakeInterface:
		fr.env[x] = v.makeIface(st, v.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		i := *(v.val(fr, x.X).(*IfaceV))
		i.T = x.Type()
		fr.env[x] = &i
	case *ssa.ChangeType:
		fr.env[x] = v.changeType(v.val(fr, x.X), x.Type())
	case *ssa.Convert:
		fr.env[x] = v.convert(st, v.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.Slice:
		fr.env[x] = v.slice(fr, x, st)
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, v.val(fr, b))
		}
		fr.env[x] = &FuncV{Fn: x.Fn.(*ssa.Function), Binds: bs}
	case *ssa.Range:
		fr.env[x] = v.rangeStart(fr, x, st)
	case *ssa.Next:
		fr.env[x] = v.rangeNext(fr, x, st)
	default:
		unsupported("instruction %T in %s", in, fr.fn.Name())
	}
}

func (v *Verifier) changeType(x Value, t types.Type) Value {
	switch y := x.(type) {
	case *StructV:
		return &StructV{T: t, F: y.F}
	case MapV:
		return MapV{t, y.Ref}
	}
	return x
}

func (v *Verifier) allocVar(x *ssa.Alloc, st *State) Value {
	t := deref(x.Type())
	if a, ok := t.Underlying().(*types.Array); ok {
		s := v.makeSlice(st, a.Elem(), I(a.Len()), I(a.Len()))
		return &PtrV{Kind: pHeap, Elem: t, Base: t, Ref: s.Ref}
	}
	if v.prog.mayEscape(x, map[ssa.Value]bool{}) {
		r := v.alloc(st)
		p := &PtrV{Kind: pHeap, Elem: t, Base: t, Ref: r}
		v.store(st, p, zeroValue(t))
		return p
	}
	v.cellCtr++
	st.cells[v.cellCtr] = &Cell{T: t, Val: zeroValue(t)}
	return &PtrV{Kind: pCell, Elem: t, Base: t, Cell: v.cellCtr}
}

func constArray(sort string, el *Term) *Term {
	return &Term{Op: "((as const " + sort + ") " + el.String() + ")", Sort: sort}
}

func (v *Verifier) makeSlice(st *State, elem types.Type, n, c *Term) *SliceV {
	r := v.alloc(st)
	names, ls := elemHeaps(elem, nil)
	for i, nm := range names {
		v.note(nm, r, nil)
		h := v.heap(st, nm)
		v.setHeap(st, nm, Sto(h, r, constArray(arrSort(ls[i].Sort), zeroLeaf(ls[i].Sort))))
	}
	return &SliceV{Elem: elem, Ref: r, Off: I(0), Len: n, Cap: c}
}

func (v *Verifier) makeIface(st *State, x Value, t, it types.Type) Value {
	tag := v.tagOf(t)
	if tag == nil {
		tag = v.fresh("tag", SInt)
		v.assume(st, Lt(I(1000), tag))
	}
	return &IfaceV{T: it, Tag: tag, Dyn: t, Val: x}
}

func (v *Verifier) unop(fr *Frame, x *ssa.UnOp, st *State) Value {
	y := v.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		p := ptrOf(y)
		v.nilCheck(st, p)
		return v.load(st, p)
	case token.NOT:
		return Not(y.(*Term))
	case token.SUB:
		t := y.(*Term)
		if t.Sort == SF {
			return fop("fneg", t)
		}
		return v.wrap(Sub(I(0), t), x.Type())
	}
	unsupported("operator %s", x.Op)
	return nil
}

func (v *Verifier) wrap(t *Term, ty types.Type) *Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	bits, signed, ok := intBits(b)
	if !ok || bits == 64 && signed {
		return t
	}
	if n, ok := t.intVal(); ok {
		m := pow2(bits)
		r := new(big.Int).Mod(n, m)
		if signed && r.Cmp(pow2(bits-1)) >= 0 {
			r.Sub(r, m)
		}
		return bigI(r)
	}
	if signed {
		return App("wrapS", SInt, t, bigI(pow2(bits-1)))
	}
	return App("wrapU", SInt, t, bigI(pow2(bits)))
}

func (v *Verifier) binop(st *State, op token.Token, a, b Value, at, rt types.Type) Value {
	switch op {
	case token.EQL, token.NEQ:
		t := v.eqTerm(st, a, b)
		if op == token.NEQ {
			return Not(t)
		}
		return t
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsupported("operator %s on %T", op, a)
	}
	switch x.Sort {
	case SF:
		switch op {
		case token.ADD:
			return fop("fadd", x, y)
		case token.SUB:
			return fop("fsub", x, y)
		case token.MUL:
			return fop("fmul", x, y)
		case token.QUO:
			return fop("fdiv", x, y)
		case token.LSS:
			return FLt(x, y)
		case token.LEQ:
			return FLe(x, y)
		case token.GTR:
			return FLt(y, x)
		case token.GEQ:
			return FLe(y, x)
		}
	case SInt:
		switch op {
		case token.ADD:
			return v.wrap(Add(x, y), rt)
		case token.SUB:
			return v.wrap(Sub(x, y), rt)
		case token.MUL:
			return v.wrap(Mul(x, y), rt)
		case token.QUO, token.REM:
			v.oblige(st, "safety", "no division by zero", nil, Not(Eq(y, I(0))))
			if op == token.QUO {
				return v.wrap(App("tdiv", SInt, x, y), rt)
			}
			return App("tmod", SInt, x, y)
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Lt(y, x)
		case token.GEQ:
			return Le(y, x)
		case token.SHL, token.SHR:
			if n, ok := y.intVal(); ok && n.IsInt64() && n.Sign() >= 0 && n.Int64() < 63 {
				m := bigI(pow2(uint(n.Int64())))
				if op == token.SHL {
					return v.wrap(Mul(x, m), rt)
				}
				return App("div", SInt, x, m)
			}
		}
	case SStr:
		switch op {
		case token.ADD:
			return App("sconcat", SStr, x, y)
		}
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
	}
	unsupported("operator %s on %s", op, x.Sort)
	return nil
}

// eqTerm is Go's == on two values.
func (v *Verifier) eqTerm(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.Sort == SF {
			return FEq(x, y)
		}
		return Eq(x, y)
	case *PtrV:
		y := b.(*PtrV)
		if n, ok := isNilPtr(y); ok && n {
			return v.ptrNil(x)
		}
		if n, ok := isNilPtr(x); ok && n {
			return v.ptrNil(y)
		}
		return v.ptrEq(st, x, y)
	case *IfaceV:
		y := b.(*IfaceV)
		if n, ok := y.Tag.intVal(); ok && n.Sign() == 0 {
			return Eq(x.Tag, I(0))
		}
		if n, ok := x.Tag.intVal(); ok && n.Sign() == 0 {
			return Eq(y.Tag, I(0))
		}
		if x.Ref == nil {
			v.boxIface(st, x)
		}
		if y.Ref == nil {
			v.boxIface(st, y)
		}
		return And(Eq(x.Tag, y.Tag), Eq(x.Ref, y.Ref))
	case *SliceV:
		y := b.(*SliceV)
		if n, ok := y.Ref.intVal(); ok && n.Sign() == 0 {
			return Eq(x.Ref, I(0))
		}
		return Eq(y.Ref, I(0))
	case MapV:
		y := b.(MapV)
		return Eq(x.Ref, y.Ref)
	case *FuncV:
		y := b.(*FuncV)
		if x.Fn != nil || y.Fn != nil {
			return tFalse
		}
		return Eq(x.Term, y.Term)
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		for i := range x.F {
			cs = append(cs, v.eqTerm(st, x.F[i], y.F[i]))
		}
		return And(cs...)
	}
	unsupported("comparison of %T", a)
	return nil
}

func isNilPtr(p *PtrV) (bool, bool) {
	if p.Kind == pHeap && p.Ref != nil {
		if n, ok := p.Ref.intVal(); ok && n.Sign() == 0 {
			return true, true
		}
	}
	return false, true
}

func (v *Verifier) convert(st *State, x Value, from, to types.Type) Value {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		t, ok := x.(*Term)
		if !ok {
			unsupported("conversion")
		}
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			fbits, fs, _ := intBits(fb)
			tbits, ts, _ := intBits(tb)
			if tbits > fbits && (ts || !fs) || tbits == fbits && ts == fs {
				return t
			}
			return v.wrap(t, to)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 {
				unsupported("float32")
			}
			return I2F(t)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			bits, signed, _ := intBits(tb)
			r := App("f2i", SInt, t)
			if bits != 64 || !signed {
				// out of range conversions are implementation defined
				y := v.fresh("conv", SInt)
				f := intRange(tb, y)
				if f == nil {
					f = tTrue
				}
				v.assume(st, f)
				lo, hi := I(0), bigI(pow2(bits))
				if signed {
					lo, hi = bigI(new(big.Int).Neg(pow2(bits-1))), bigI(pow2(bits-1))
				}
				v.assume(st, Imp(And(Le(lo, r), Lt(r, hi)), Eq(y, r)))
				return y
			}
			return r
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if tb.Kind() == types.Float32 || fb.Kind() == types.Float32 {
				unsupported("float32")
			}
			return t
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		}
	}
	if s, ok := x.(*SliceV); ok && ok2 && tb.Info()&types.IsString != 0 {
		// []byte to string: determined by the bytes
		return v.bytesToStr(st, s)
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			return v.strToBytes(st, x.(*Term), sl.Elem())
		}
	}
	unsupported("conversion from %s to %s", from, to)
	return nil
}

func (v *Verifier) slice(fr *Frame, x *ssa.Slice, st *State) Value {
	var s *SliceV
	switch b := v.val(fr, x.X).(type) {
	case *SliceV:
		s = b
	case *PtrV:
		a, ok := b.Elem.Underlying().(*types.Array)
		if !ok {
			unsupported("slice of %s", b.Elem)
		}
		s = &SliceV{Elem: a.Elem(), Ref: b.Ref, Off: I(0), Len: I(a.Len()), Cap: I(a.Len())}
	default:
		unsupported("slice of %T", b)
	}
	if s.Cap == nil {
		s.Cap = v.fresh("cap", SInt)
		v.assume(st, Le(s.Len, s.Cap))
	}
	lo, hi, max := I(0), s.Len, s.Cap
	if x.Low != nil {
		lo = v.val(fr, x.Low).(*Term)
	}
	if x.High != nil {
		hi = v.val(fr, x.High).(*Term)
	}
	if x.Max != nil {
		max = v.val(fr, x.Max).(*Term)
	}
	if x.Low != nil || x.High != nil || x.Max != nil {
		v.oblige(st, "safety", "slice bounds in range", nil, And(Le(I(0), lo), Le(lo, hi), Le(hi, max), Le(max, s.Cap)))
	}
	return &SliceV{Elem: s.Elem, Ref: s.Ref, Off: Add(s.Off, lo), Len: Sub(hi, lo), Cap: Sub(max, lo)}
}

// multi handles instructions that may fork.
func (v *Verifier) multi(fr *Frame, in ssa.Instruction, st *State, k func(st *State)) bool {
	x, ok := in.(*ssa.TypeAssert)
	if !ok {
		return false
	}
	i := v.val(fr, x.X).(*IfaceV)
	if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		unsupported("assertion to an interface")
	}
	tag := v.tagOf(x.AssertedType)
	if tag == nil {
		unsupported("assertion to %s", x.AssertedType)
	}
	c := Eq(i.Tag, tag)
	get := func() Value {
		if i.Dyn != nil && types.Identical(i.Dyn, x.AssertedType) {
			return i.Val
		}
		if _, ok := x.AssertedType.Underlying().(*types.Pointer); !ok {
			unsupported("assertion to %s", x.AssertedType)
		}
		if i.Ref == nil {
			v.boxIface(st, i)
		}
		e := deref(x.AssertedType)
		return &PtrV{Kind: pHeap, Elem: e, Base: e, Ref: i.Ref}
	}
	if !x.CommaOk {
		v.oblige(st, "safety", "type assertion holds", nil, c)
		fr.env[x] = get()
		return false0(k, st)
	}
	v.fork(fr, c, st, func(st *State, yes bool) {
		if yes {
			fr.env[x] = TupleV{get(), tTrue}
		} else {
			fr.env[x] = TupleV{zeroValue(x.AssertedType), tFalse}
		}
		k(st)
	})
	return true
}

func false0(k func(*State), st *State) bool { k(st); return true }

// ---- map iteration ----

func (v *Verifier) rangeStart(fr *Frame, x *ssa.Range, st *State) Value {
	m, ok := v.val(fr, x.X).(MapV)
	if !ok {
		unsupported("range over %s", x.X.Type())
	}
	checkMapType(m.T)
	v.cellCtr++
	st.cells[v.cellCtr] = &Cell{T: nil, Val: constArray("(Array Str Bool)", tFalse)}
	v.cellCtr++
	st.cells[v.cellCtr] = &Cell{T: nil, Val: I(0)}
	return &RangeV{M: m, Cell: v.cellCtr - 1, Count: v.cellCtr}
}

func (v *Verifier) rangeNext(fr *Frame, x *ssa.Next, st *State) Value {
	r := v.val(fr, x.Iter).(*RangeV)
	seen := st.cells[r.Cell].Val.(*Term)
	cnt := st.cells[r.Count].Val.(*Term)
	ok := v.fresh("more", SBool)
	k := v.fresh("key", SStr)
	n := v.mapLen(st, r.M)
	v.assume(st, Le(I(0), App("slen", SInt, k)))
	v.assume(st, Imp(ok, And(v.mapHas(st, r.M, k), Not(App("select", SBool, seen, k)), Lt(cnt, n))))
	b := v.boundVar("k", SStr)
	v.assume(st, Imp(Not(ok), And(Le(n, cnt), Forall([]*Term{b}, Imp(v.mapHas(st, r.M, b), App("select", SBool, seen, b)), []*Term{App("select", SBool, seen, b)}))))
	st.cells[r.Cell] = &Cell{Val: Ite(ok, App("store", seen.Sort, seen, k, tTrue), seen)}
	st.cells[r.Count] = &Cell{Val: Ite(ok, Add(cnt, I(1)), cnt)}
	return TupleV{ok, k, v.mapGet(st, r.M, k)}
}

var _ = strings.HasPrefix

// feasible: cheaply, whether a branch may be taken.
func (v *Verifier) feasible() bool {
	if l := v.sess.light; l != nil {
		l.tag = "branch"
		if l.Check(200) == Unsat {
			return false
		}
	}
	return v.sess.Check(30) != Unsat
}
