package main

// Calls: contracts, inlining, built-ins, trusted externals.

import (
	"go/ast"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (v *Verifier) call(fr *Frame, c *ssa.Call, st *State, k func(st *State, r Value)) {
	var args []Value
	for _, a := range c.Call.Args {
		args = append(args, v.val(fr, a))
	}
	v.callWith(fr, c, c.Common(), args, st, k)
}

func pack(res []Value) Value {
	switch len(res) {
	case 0:
		return TupleV{}
	case 1:
		return res[0]
	}
	return TupleV(res)
}

func (v *Verifier) callWith(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, args []Value, st *State, k func(st *State, r Value)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k(st, v.builtin(st, b, c, args))
		return
	}
	if c.IsInvoke() {
		v.invoke(fr, in, c, v.val(fr, c.Value), args, st, k)
		return
	}
	fn := c.StaticCallee()
	var binds []Value
	if _, isMC := c.Value.(*ssa.MakeClosure); fn == nil || isMC {
		f, ok := v.val(fr, c.Value).(*FuncV)
		if !ok || f.Fn == nil {
			unsupported("call of an unknown function value")
		}
		fn, binds = f.Fn, f.Binds
	}
	v.callFn(fr, in, c, fn, binds, args, st, k)
}

func (v *Verifier) callFn(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, binds, args []Value, st *State, k func(st *State, r Value)) {
	if fn.Pkg == v.prog.pkg || (fn.Pkg == nil && len(fn.Blocks) > 0) {
		if con := specs.contracts[fnKey(fn)]; con != nil && con.Kind == "func" && fn != v.fn {
			v.contractCall(con, fn, args, st, func(st *State, res []Value) { k(st, pack(res)) })
			return
		}
		v.inline(fr, in, fn, args, binds, st, func(st *State, res []Value) { k(st, pack(res)) })
		return
	}
	key := fn.String()
	if con := specs.contracts[key]; con != nil && con.Kind == "extern" {
		v.contractCall(con, fn, args, st, func(st *State, res []Value) { k(st, pack(res)) })
		return
	}
	if r, ok := v.extern(fr, key, fn, c, args, st); ok {
		k(st, r)
		return
	}
	if key == "math/rand.Shuffle" || key == "(*math/rand.Rand).Shuffle" {
		v.shuffle(fr, in, args, st, func(st *State) { k(st, TupleV{}) })
		return
	}
	unsupported("external function %s", key)
}

func (v *Verifier) invoke(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, recv Value, args []Value, st *State, k func(st *State, r Value)) {
	i := recv.(*IfaceV)
	if isErrorType(c.Value.Type()) && c.Method.Name() == "Error" {
		v.oblige(st, "safety", "no nil pointer", nil, Not(Eq(i.Tag, I(0))))
		k(st, v.freshValue(st, types.Typ[types.String], "errtext"))
		return
	}
	name := typeName(c.Value.Type()) + "." + c.Method.Name()
	if i.Dyn != nil {
		m := v.prog.methodOf(i.Dyn, c.Method.Name())
		if m != nil {
			v.callFn(fr, in, c, m, nil, append([]Value{i.Val}, args...), st, k)
			return
		}
	}
	v.oblige(st, "safety", "no nil pointer", nil, Not(Eq(i.Tag, I(0))))
	if con := specs.contracts[name]; con != nil && con.Kind == "iface" {
		v.ifaceCall(con, c, i, args, st, func(st *State, res []Value) { k(st, pack(res)) })
		return
	}
	// dispatch over the implementations in the package
	impl := v.prog.implementers(c.Value.Type())
	if len(impl) == 0 {
		unsupported("call of %s", name)
	}
	var next func(n int, st *State)
	next = func(n int, st *State) {
		if n == len(impl) {
			return
		}
		t := impl[n]
		v.fork(fr, Eq(i.Tag, v.tagOf(t)), st, func(st *State, yes bool) {
			if !yes {
				next(n+1, st)
				return
			}
			m := v.prog.methodOf(t, c.Method.Name())
			if i.Ref == nil {
				v.boxIface(st, i)
			}
			e := deref(t)
			v.callFn(fr, in, c, m, nil, append([]Value{&PtrV{Kind: pHeap, Elem: e, Base: e, Ref: i.Ref}}, args...), st, k)
		})
	}
	next(0, st)
}

func (v *Verifier) ifaceCall(con *Contract, c *ssa.CallCommon, i *IfaceV, args []Value, st *State, k func(st *State, res []Value)) {
	eff := map[string]bool{}
	for _, t := range v.prog.implementers(c.Value.Type()) {
		if m := v.prog.methodOf(t, c.Method.Name()); m != nil {
			for h := range v.prog.effects(m) {
				eff[h] = true
			}
		}
	}
	v.applyContract(con, append([]Value{i}, args...), c.Signature().Results(), eff, st, k)
}

func (v *Verifier) contractCall(con *Contract, fn *ssa.Function, args []Value, st *State, k func(st *State, res []Value)) {
	eff := map[string]bool{}
	if con.Kind == "extern" {
		for _, h := range con.Effects {
			eff[h] = true
		}
	} else {
		eff = v.prog.effects(fn)
	}
	v.applyContract(con, args, fn.Signature.Results(), eff, st, k)
}

func (v *Verifier) bindParams(con *Contract, args []Value) map[string]Value {
	vars := map[string]Value{}
	if len(con.Params) != len(args) {
		unsupported("contract of %s names %d parameters, the code has %d", con.Key, len(con.Params), len(args))
	}
	for i, p := range con.Params {
		vars[p] = args[i]
	}
	return vars
}

func (v *Verifier) applyContract(con *Contract, args []Value, results *types.Tuple, eff map[string]bool, st *State, k func(st *State, res []Value)) {
	if v.mute == 0 && v.calls != nil {
		v.calls[con.Key] = true
	}
	vars := v.bindParams(con, args)
	for i, a := range args {
		if p, ok := a.(*PtrV); ok && !con.Nilable[con.Params[i]] {
			v.nilCheck(st, p)
		}
	}
	old := st.clone()
	env := &Env{v: v, vars: vars, st: st, old: old}
	for _, c := range con.of("requires") {
		g := v.spec(env, func(e *Env) *Term { return e.boolean(c.Expr) })
		v.obligeC(st, "pre", con.Key+": "+c.Name, nil, g, nil)
	}
	for _, c := range con.of("panics") {
		g := v.spec(env, func(e *Env) *Term { return e.boolean(c.Expr) })
		v.obligeC(st, "pre", con.Key+" does not panic", nil, Not(g), nil)
	}
	old = st.clone()
	env.old = old
	// effects
	if !con.Pure {
		foot := v.footprint(con, &Env{v: v, vars: vars, st: old, old: old})
		for n := range foot.heaps {
			eff2 := false
			_ = eff2
			if con.Kind == "extern" {
				eff[n] = true
			}
		}
		v.havoc(st, old, eff, foot, con)
	}
	var res []Value
	for i := 0; i < results.Len(); i++ {
		hint := "r"
		if i < len(con.Results) {
			hint = con.Results[i]
		}
		x := v.freshValue(st, results.At(i).Type(), hint)
		res = append(res, x)
		if i < len(con.Results) {
			vars[con.Results[i]] = x
		}
	}
	env = &Env{v: v, vars: vars, st: st, old: old, results: map[string]bool{}}
	for i := range res {
		if i < len(con.Results) {
			env.results[con.Results[i]] = true
		}
	}
	for _, c := range con.Clauses {
		if c.Dropped {
			continue
		}
		switch c.Kind {
		case "ensures", "assume":
			v.assume(st, v.spec(env, func(e *Env) *Term { return e.boolean(c.Expr) }))
		case "entry", "matrix":
			v.assume(st, v.spec(env, func(e *Env) *Term { return e.entryPost(c, true) }))
		case "log":
			h := "g:" + c.Target
			t := v.heap(old, h)
			when := tTrue
			if c.When != nil {
				when = v.spec(env, func(e *Env) *Term { return e.boolean(c.When) })
			}
			st.heaps[h] = Ite(when, Add(t, I(1)), t)
			v.assume(st, v.spec(env, func(e *Env) *Term { return Imp(when, e.with(c.Idx[0], t).boolean(c.Expr)) }))
		}
	}
	k(st, res)
}

// ---- footprints ----

type Footprint struct {
	heaps map[string][]func(r *Term) *Term
	cells []*PtrV
}

func (f *Footprint) covers(h string, r *Term) *Term {
	var ors []*Term
	for _, g := range f.heaps[h] {
		ors = append(ors, g(r))
	}
	return Or(ors...)
}

func (v *Verifier) footprint(con *Contract, env *Env) *Footprint {
	f := &Footprint{heaps: map[string][]func(*Term) *Term{}}
	was := v.inSpec
	v.inSpec = true
	defer func() { v.inSpec = was }()
	add := func(h string, g func(*Term) *Term) { f.heaps[h] = append(f.heaps[h], g) }
	at := func(names []string, ref *Term, when *Term) {
		for _, n := range names {
			add(n, func(r *Term) *Term { return And(when, Eq(r, ref)) })
		}
	}
	for _, cl := range con.of("modifies") {
		when := tTrue
		if cl.When != nil {
			when = env.boolean(cl.When)
		}
		for _, x := range cl.List {
			switch n := x.(type) {
			case *ast.SelectorExpr:
				p, ok := env.eval(n.X).(*PtrV)
				if !ok {
					unsupported("modifies %s", exprString(x))
				}
				sty := p.Elem.Underlying().(*types.Struct)
				for i := 0; i < sty.NumFields(); i++ {
					if sty.Field(i).Name() == n.Sel.Name {
						q := *p
						q.Path = append(append([]int{}, p.Path...), i)
						q.Elem = sty.Field(i).Type()
						v.footPtr(f, &q, when)
					}
				}
			case *ast.CallExpr:
				id := n.Fun.(*ast.Ident).Name
				switch id {
				case "data":
					m := env.autoDeref(env.eval(n.Args[0]))
					add(hFloat, func(r *Term) *Term { return And(when, v.rowOf(env.st, m, r)) })
				case "row":
					m := env.autoDeref(env.eval(n.Args[0]))
					at([]string{hFloat}, v.rowRef(env.st, m, env.term(n.Args[1])), when)
				case "slots":
					m := env.autoDeref(env.eval(n.Args[0]))
					s := matSlice(m)
					names, _ := elemHeaps(s.Elem, nil)
					at(names, s.Ref, when)
				case "elems":
					s := env.eval(n.Args[0]).(*SliceV)
					names, _ := elemHeaps(s.Elem, nil)
					at(names, s.Ref, when)
				case "fields":
					v.footPtr(f, env.eval(n.Args[0]).(*PtrV), when)
				case "mapof":
					m := env.eval(n.Args[0]).(MapV)
					at([]string{hMapDom, hMapVal, hMapLen}, m.Ref, when)
				case "ghost":
					s, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
					add("g:"+s, func(r *Term) *Term { return when })
				case "global":
					g := v.globalByName(n.Args[0].(*ast.Ident).Name)
					names, _ := globalHeaps(g.Glob, g.Base)
					for _, nm := range names {
						add(nm, func(r *Term) *Term { return when })
					}
				case "blob": // ghost contents of a buffer or a file
					r0 := env.refOf(x, env.eval(n.Args[0]))
					at([]string{"X:blob"}, r0, when)
				case "anyobj": // every object of the named struct type
					s, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
					t := v.prog.pkg.Pkg.Scope().Lookup(s).Type()
					names, _ := fieldHeaps(t, nil)
					for _, nm := range names {
						add(nm, func(r *Term) *Term { return when })
					}
				case "anyfield": // that field of every object of the named struct type
					s, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
					fld, _ := strconv.Unquote(n.Args[1].(*ast.BasicLit).Value)
					t := v.prog.pkg.Pkg.Scope().Lookup(s).Type()
					sty := t.Underlying().(*types.Struct)
					for i := 0; i < sty.NumFields(); i++ {
						if sty.Field(i).Name() == fld {
							names, _ := fieldHeaps(t, []int{i})
							for _, nm := range names {
								add(nm, func(r *Term) *Term { return when })
							}
						}
					}
				case "rowsin": // rows satisfying a predicate macro: rowsin(r, pred)
					iv := n.Args[0].(*ast.Ident).Name
					body := n.Args[1]
					add(hFloat, func(r *Term) *Term {
						was := v.inSpec
						v.inSpec = true
						defer func() { v.inSpec = was }()
						return And(when, env.with(iv, r).boolean(body))
					})
				default:
					unsupported("modifies %s", exprString(x))
				}
			default:
				unsupported("modifies %s", exprString(x))
			}
		}
	}
	return f
}

func (v *Verifier) footPtr(f *Footprint, p *PtrV, when *Term) {
	if p.Kind == pCell {
		f.cells = append(f.cells, p)
		return
	}
	if p.Kind == pElem {
		names, _ := elemHeaps(p.Base, p.Path)
		for _, n := range names {
			f.heaps[n] = append(f.heaps[n], func(r *Term) *Term { return And(when, Eq(r, p.Ref)) })
		}
		return
	}
	names, _ := v.objHeaps(p)
	for _, n := range names {
		f.heaps[n] = append(f.heaps[n], func(r *Term) *Term { return And(when, Eq(r, p.Ref)) })
	}
}

func refIndexed(h string) bool {
	return !strings.HasPrefix(h, "g:") && !strings.HasPrefix(h, "G:")
}

// havoc replaces the heaps a call may write, keeping what is outside the footprint.
func (v *Verifier) havoc(st, old *State, eff map[string]bool, foot *Footprint, con *Contract) {
	if len(eff) == 0 {
		return
	}
	nx := v.fresh("nxt", SInt)
	v.assume(st, Le(old.nxt, nx))
	st.nxt = nx
	for _, h := range sortedKeys(eff) {
		h0 := v.heap(old, h)
		if !refIndexed(h) && len(foot.heaps[h]) == 0 && !con.FrameDropped {
			continue
		}
		if refIndexed(h) && !con.FrameDropped && foot.covers(h, V("r", SInt)).Op == "false" {
			// only storage that did not exist before: what it holds afterwards
			// can be what the heap, of which nothing was known there, holds
			v.heapFacts(st, h, h0, nx)
			continue
		}
		if refIndexed(h) {

			fh := h
			v.note(h, nil, func(r *Term) *Term { return foot.covers(fh, r) })
		}
		h1 := v.fresh("H_"+sanitize(h), h0.Sort)
		st.heaps[h] = h1
		v.heapFacts(st, h, h1, nx)
		if con.FrameDropped {
			continue
		}
		if !refIndexed(h) {
			v.assume(st, Imp(Not(foot.covers(h, I(0))), Eq(h1, h0)))
			continue
		}
		r := v.boundVar("r", SInt)
		es := arrElem(h0.Sort)
		a, b := Sel2(h1, r, es), Sel2(h0, r, es)
		v.assume(st, Forall([]*Term{r}, Imp(And(Lt(r, old.nxt), Not(foot.covers(h, r))), Eq(a, b)), []*Term{a}))
	}
	for _, p := range foot.cells {
		c := st.cells[p.Cell]
		x := v.freshValue(st, p.Elem, "cell")
		n := *c
		if c.Obj != nil {
			unsupported("modified local variable on the heap")
		}
		n.Val = setPath(c.Val, p.Path, x)
		st.cells[p.Cell] = &n
	}
}

// ---- builtins ----

func (v *Verifier) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "len":
		switch s := args[0].(type) {
		case *SliceV:
			return s.Len
		case MapV:
			return v.mapLen(st, s)
		case *Term:
			if s.Sort == SStr {
				return App("slen", SInt, s)
			}
		}
	case "cap":
		if s, ok := args[0].(*SliceV); ok {
			if s.Cap == nil {
				s.Cap = v.fresh("cap", SInt)
				v.assume(st, Le(s.Len, s.Cap))
			}
			return s.Cap
		}
	case "append":
		return v.appendSlice(st, args[0].(*SliceV), args[1])
	case "copy":
		d := args[0].(*SliceV)
		s, ok := args[1].(*SliceV)
		if !ok {
			unsupported("copy from a string")
		}
		return v.copySlice(st, d, s)
	case "delete":
		v.mapDelete(st, args[0].(MapV), args[1].(*Term))
		return TupleV{}
	case "min", "max":
		x, y := args[0].(*Term), args[1].(*Term)
		if x.Sort == SInt && len(args) == 2 {
			if b.Name() == "min" {
				return Ite(Le(x, y), x, y)
			}
			return Ite(Le(x, y), y, x)
		}
		if x.Sort == SF && len(args) == 2 {
			return fop("f"+b.Name(), x, y)
		}
	case "print", "println":
		return TupleV{}
	}
	unsupported("built-in %s", b.Name())
	return nil
}

// appendSlice: the result may share the backing array or be a new one; either
// way the elements are those of both operands.
func (v *Verifier) appendSlice(st *State, s *SliceV, more Value) Value {
	t, ok := more.(*SliceV)
	if !ok {
		unsupported("append of a string")
	}
	if n, ok := t.Len.intVal(); ok && n.Sign() == 0 {
		return s
	}
	names, ls := elemHeaps(s.Elem, nil)
	old := st.clone()
	oldH := make([]*Term, len(names))
	for i, n := range names {
		oldH[i] = v.heap(old, n)
		v.heap(st, n)
	}
	nx := v.fresh("nxt", SInt)
	ref := v.fresh("app", SInt)
	off := v.fresh("appo", SInt)
	cp := v.fresh("appc", SInt)
	n := Add(s.Len, t.Len)
	if s.Cap == nil {
		s.Cap = v.fresh("cap", SInt)
		v.assume(st, Le(s.Len, s.Cap))
	}
	grow := v.fresh("grow", SBool)
	// growing: a new array; otherwise the spare capacity of the old one
	v.assume(st, Eq(grow, Lt(s.Cap, n)))
	if rowLike(s.Elem) {
		off = s.Off
		v.assume(st, Imp(grow, Eq(s.Off, I(0))))
		if z, ok := s.Off.intVal(); !ok || z.Sign() != 0 {
			v.oblige(st, "subset", "appended slice starts at its backing array", nil, Eq(s.Off, I(0)))
		}
	} else {
		v.assume(st, Ite(grow, Eq(off, I(0)), Eq(off, s.Off)))
	}
	v.assume(st, Ite(grow, And(Eq(ref, old.nxt), Eq(nx, Add(old.nxt, I(1))), Le(n, cp)), And(Eq(ref, s.Ref), Eq(nx, old.nxt), Eq(cp, s.Cap))))
	st.nxt = nx
	r := &SliceV{Elem: s.Elem, Ref: ref, Off: off, Len: n, Cap: cp}
	for i, nm := range names {
		v.note(nm, ref, nil)
		h1 := v.fresh("H_"+sanitize(nm), oldH[i].Sort)
		st.heaps[nm] = h1
		v.heapFacts(st, nm, h1, nx)
		q := v.boundVar("r", SInt)
		es := arrSort(ls[i].Sort)
		v.assume(st, Forall([]*Term{q}, Imp(Not(Eq(q, ref)), Eq(Sel2(h1, q, es), Sel2(oldH[i], q, es))), []*Term{Sel2(h1, q, es)}))
		row := Sel2(h1, ref, es)
		j := v.boundVar("j", SInt)
		dst := Sel(row, v.elemIdx(r, j))
		v.assume(st, Forall([]*Term{j}, Imp(And(Le(I(0), j), Lt(j, s.Len)), Eq(dst, Sel(Sel2(oldH[i], s.Ref, es), v.elemIdx(s, j)))), []*Term{dst}))
		if m, ok := t.Len.intVal(); ok && m.IsInt64() && m.Int64() <= 4 {
			for z := int64(0); z < m.Int64(); z++ {
				v.assume(st, Eq(Sel(row, v.elemIdx(r, Add(s.Len, I(z)))), Sel(Sel2(oldH[i], t.Ref, es), v.elemIdx(t, I(z)))))
			}
		} else {
			j2 := v.boundVar("j", SInt)
			d2 := Sel(row, v.elemIdx(r, j2))
			v.assume(st, Forall([]*Term{j2}, Imp(And(Le(s.Len, j2), Lt(j2, n)), Eq(d2, Sel(Sel2(oldH[i], t.Ref, es), v.elemIdx(t, Sub(j2, s.Len))))), []*Term{d2}))
		}
		// the spare part of a shared array beyond the new elements is unchanged
		if !rowLike(s.Elem) {
			continue
		}
	}
	return r
}

func (v *Verifier) copySlice(st *State, d, s *SliceV) Value {
	n := Ite(Le(d.Len, s.Len), d.Len, s.Len)
	names, ls := elemHeaps(d.Elem, nil)
	for i, nm := range names {
		h0 := v.heap(st, nm)
		es := arrSort(ls[i].Sort)
		v.note(nm, d.Ref, nil)
		row := v.fresh("copy", es)
		j := v.boundVar("j", SInt)
		dst := Sel(row, j)
		lo := d.Off
		src := Sel(Sel2(h0, s.Ref, es), Add(s.Off, Sub(j, d.Off)))
		v.assume(st, Forall([]*Term{j}, Eq(dst, Ite(And(Le(lo, j), Lt(j, Add(lo, n))), src, Sel(Sel2(h0, d.Ref, es), j))), []*Term{dst}))
		v.setHeap(st, nm, Sto(h0, d.Ref, row))
	}
	return n
}

// ---- trusted externals ----

var mathFns = map[string]string{
	"math.Max": "fmax", "math.Min": "fmin", "math.Abs": "fabs", "math.Exp": "fexp", "math.Log": "flog", "math.Pow": "fpow", "math.Sqrt": "fsqrt",
	"math.Floor": "m_floor", "math.Ceil": "m_ceil", "math.Round": "m_round", "math.Trunc": "m_trunc", "math.Tan": "m_tan", "math.Tanh": "m_tanh", "math.Log1p": "m_log1p", "math.Expm1": "m_expm1",
}

func modelledExtern(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	switch f.String() {
	case "fmt.Sprintf", "encoding/binary.Write", "encoding/binary.Read", "(*log.Logger).Printf", "(*log.Logger).Println", "fmt.Errorf":
		return true
	}
	c := specs.contracts[f.String()]
	return c != nil && c.Kind == "extern"
}

func externEffects(f *ssa.Function, c *ssa.CallCommon) []string {
	if con := specs.contracts[f.String()]; con != nil && con.Kind == "extern" {
		return con.Effects
	}
	switch f.String() {
	case "math/rand.Shuffle", "(*math/rand.Rand).Shuffle":
		return nil // the closure's effects are counted where it is made
	case "(*math/rand.Rand).NormFloat64", "math/rand.NormFloat64":
		return []string{"g:normals"}
	case "(*math/rand.Rand).Float64", "math/rand.Float64", "golang.org/x/exp/rand.Float64", "(*golang.org/x/exp/rand.Rand).Float64":
		return []string{"g:uniforms"}
	case "math/rand.Seed", "golang.org/x/exp/rand.Seed", "math/rand.NewSource", "golang.org/x/exp/rand.NewSource":
		return []string{"g:seeds"}
	case "encoding/binary.Write":
		return []string{"X:blob"}
	case "encoding/binary.Read":
		out := []string{"X:blob"}
		if len(c.Args) == 3 {
			x := c.Args[2]
			if mi, ok := x.(*ssa.MakeInterface); ok {
				x = mi.X
			}
			if _, ok := x.Type().Underlying().(*types.Pointer); ok {
				out = append(out, addrHeaps(deref(x.Type()), x)...)
			}
		}
		return out
	}
	return nil
}

func (v *Verifier) freshErr(st *State) *IfaceV {
	tag, ref := v.fresh("errtag", SInt), v.fresh("errref", SInt)
	v.assume(st, And(Lt(I(1000), tag), Le(I(0), ref), Lt(ref, st.nxt)))
	return &IfaceV{T: types.Universe.Lookup("error").Type(), Tag: tag, Ref: ref}
}

func (v *Verifier) counterDraw(st *State, ghost, fn string) *Term {
	n := v.heap(st, "g:"+ghost)
	st.heaps["g:"+ghost] = Add(n, I(1))
	return App(fn, SF, n)
}

// seeded counts the seedings of random number generators: draws from one
// generator are independent, draws from generators seeded over and over need
// not be.
func (v *Verifier) seeded(st *State) { st.heaps["g:seeds"] = Add(v.heap(st, "g:seeds"), I(1)) }

func (v *Verifier) extern(fr *Frame, key string, fn *ssa.Function, c *ssa.CallCommon, args []Value, st *State) (Value, bool) {
	if op, ok := mathFns[key]; ok {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.(*Term))
		}
		return fop(op, ts...), true
	}
	switch key {
	case "math.IsNaN":
		return App("fnan", SBool, args[0].(*Term)), true
	case "errors.New", "fmt.Errorf":
		return v.freshErr(st), true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return v.freshValue(st, types.Typ[types.String], "text"), true
	case "fmt.Printf", "fmt.Println", "fmt.Print":
		return v.freshValue(st, fn.Signature.Results(), "n"), true
	case "time.Now":
		return v.fresh("time", SInt), true
	case "(time.Time).UnixNano", "(time.Time).Unix":
		return v.fresh("nanos", SInt), true
	case "math/rand.Intn", "(*math/rand.Rand).Intn", "math/rand.Int63n", "(*math/rand.Rand).Int63n":
		n := args[len(args)-1].(*Term)
		v.oblige(st, "safety", "argument of Intn is positive", nil, Lt(I(0), n))
		r := v.fresh("intn", SInt)
		v.assume(st, And(Le(I(0), r), Lt(r, n)))
		return r, true
	case "math/rand.Seed", "golang.org/x/exp/rand.Seed":
		v.seeded(st)
		return TupleV{}, true
	case "math/rand.NewSource", "golang.org/x/exp/rand.NewSource":
		v.seeded(st)
		r := v.freshValue(st, fn.Signature.Results().At(0).Type(), "src").(*IfaceV)
		v.assume(st, Lt(I(1000), r.Tag))
		return r, true
	case "math/rand.New", "golang.org/x/exp/rand.New":
		r := v.freshValue(st, fn.Signature.Results().At(0).Type(), "rng").(*PtrV)
		v.assume(st, Lt(I(0), r.Ref))
		return r, true
	case "(*math/rand.Rand).NormFloat64", "math/rand.NormFloat64":
		return v.counterDraw(st, "normals", "normdraw"), true
	case "(*math/rand.Rand).Float64", "math/rand.Float64", "golang.org/x/exp/rand.Float64", "(*golang.org/x/exp/rand.Rand).Float64":
		return v.counterDraw(st, "uniforms", "unifdraw"), true
	case "(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Print":
		v.oblige(st, "safety", "no nil pointer", nil, Not(Eq(ptrOf(args[0]).Ref, I(0))))
		return TupleV{}, true
	case "encoding/binary.Write":
		return v.binaryWrite(st, args), true
	case "encoding/binary.Read":
		return v.binaryRead(st, args), true
	}
	return nil, false
}

// allocGhost accounts for the memory a make asks for.
func (v *Verifier) allocGhost(st *State, n *Term) {
	if _, ok := specs.ghosts["alloc"]; !ok {
		return
	}
	st.heaps["g:alloc"] = Add(v.heap(st, "g:alloc"), n)
}
