package main

// Loads, stores, allocation, matrices.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	hFloat = "E:float64:"
	hRowR  = "E:[]float64:#r"
	hRowL  = "E:[]float64:#l"
)

func init() {
	regHeap(hFloat, arrSort(arrSort(SF)), false)
	regHeap(hRowR, arrSort(arrSort(SInt)), true)
	regHeap(hRowL, arrSort(arrSort(SInt)), false)
	regHeap(hMapDom, "(Array Int (Array Str Bool))", false)
	regHeap(hMapVal, "(Array Int (Array Str F))", false)
	regHeap(hMapLen, "(Array Int Int)", false)
}

// heap returns the current term of a heap.
func (v *Verifier) heap(st *State, name string) *Term {
	if t, ok := st.heaps[name]; ok {
		return t
	}
	t := v.heap0(name)
	st.heaps[name] = t
	v.heapFacts(st, name, t, v.nxt0)
	return t
}

func (v *Verifier) heap0(name string) *Term {
	heapMu.Lock()
	sort, ok := heapSorts[name]
	heapMu.Unlock()
	if !ok {
		unsupported("unknown heap %s", name)
	}
	t, ok := v.initHeaps[name]
	if !ok {
		t = v.declare("H0_"+sanitize(name), sort)
		v.initHeaps[name] = t
	}
	return t
}

// maxLen: no slice has more elements than the 48-bit address space has bytes.
var maxLen = bigI(pow2(48))

// heapFacts: every reference stored in a heap exists; lengths are natural.
func (v *Verifier) heapFacts(st *State, name string, h, nxt *Term) {
	heapMu.Lock()
	isRef := heapIsRef[name]
	heapMu.Unlock()
	if strings.HasPrefix(h.Sort, "(Array Int (Array Int Int") {
		if isRef {
			v.assume(st, App("below2", SBool, h, nxt))
		} else if strings.HasSuffix(name, "#l") || strings.HasSuffix(name, "#o") {
			v.assume(st, App("upto2", SBool, h, maxLen))
		}
	} else if h.Sort == "(Array Int Int)" {
		if isRef {
			v.assume(st, App("below1", SBool, h, nxt))
		} else if strings.HasSuffix(name, "#l") || strings.HasSuffix(name, "#o") || name == hMapLen {
			v.assume(st, App("upto1", SBool, h, maxLen))
		}
	} else if h.Sort == SInt && isRef {
		v.assume(st, And(Le(I(0), h), Lt(h, nxt)))
	}
}

// setHeap installs a new version of a heap, named to keep terms small.
func (v *Verifier) setHeap(st *State, name string, t *Term) {
	v.heap(st, name)
	if len(t.Args) > 0 {
		c := v.fresh("H_"+sanitize(name), t.Sort)
		v.assume(st, Eq(c, t))
		t = c
	}
	st.heaps[name] = t
}

func (v *Verifier) alloc(st *State) *Term {
	r := st.nxt
	st.nxt = Add(r, I(1))
	return r
}

func (v *Verifier) elemIdx(s *SliceV, i *Term) *Term {
	if rowLike(s.Elem) {
		return Add(s.Off, i)
	}
	return Ix(s.Off, i)
}

// load reads through a pointer.
func (v *Verifier) load(st *State, p *PtrV) Value {
	switch p.Kind {
	case pCell:
		c := st.cells[p.Cell]
		if c == nil {
			unsupported("dead cell")
		}
		if c.Obj != nil {
			return v.load(st, &PtrV{Kind: pHeap, Elem: p.Elem, Base: c.T, Ref: c.Obj, Path: p.Path})
		}
		x := c.Val
		for _, i := range p.Path {
			x = x.(*StructV).F[i]
		}
		return x
	case pHeap:
		if b, ok := p.Base.Underlying().(*types.Array); ok {
			_ = b
			unsupported("load of a whole array")
		}
		names, _ := v.objHeaps(p)
		var ts []*Term
		for _, n := range names {
			ts = append(ts, Sel(v.heap(st, n), p.Ref))
		}
		x, _ := fromLeaves(p.Elem, ts)
		v.loadFacts(st, x, p.Elem)
		return x
	case pElem:
		names, _ := elemHeaps(p.Base, p.Path)
		var ts []*Term
		for _, n := range names {
			ts = append(ts, Sel(Sel(v.heap(st, n), p.Ref), p.Idx))
		}
		x, _ := fromLeaves(p.Elem, ts)
		v.loadFacts(st, x, p.Elem)
		return x
	case pGlobal:
		names, _ := globalHeaps(p.Glob, p.Base)
		if len(p.Path) > 0 {
			unsupported("field of a package variable")
		}
		var ts []*Term
		for _, n := range names {
			ts = append(ts, v.heap(st, n))
		}
		x, _ := fromLeaves(p.Elem, ts)
		v.loadFacts(st, x, p.Elem)
		return x
	}
	panic("load")
}

// loadFacts assumes type facts of a loaded value unless it contains bound variables.
func (v *Verifier) loadFacts(st *State, x Value, t types.Type) {
	if v.inQuant > 0 {
		return
	}
	if s, ok := x.(*SliceV); ok && s.Cap == nil && !v.inSpec {
		s.Cap = v.fresh("cap", SInt)
		v.assume(st, Le(s.Len, s.Cap))
	}
	if v.inSpec {
		return
	}
	v.typeFacts(st, x, t)
}

func (v *Verifier) objHeaps(p *PtrV) ([]string, []Leaf) {
	if _, ok := p.Base.Underlying().(*types.Struct); ok && !isForeignStruct(p.Base) {
		return fieldHeaps(p.Base, p.Path)
	}
	// pointer to a non-struct (boxed variable)
	ls := leavesOf(p.Base)
	var names []string
	for _, l := range ls {
		names = append(names, regHeap("B:"+typeName(p.Base)+":"+l.Path, arrSort(l.Sort), l.Ref))
	}
	return names, ls
}

func setPath(x Value, path []int, y Value) Value {
	if len(path) == 0 {
		return y
	}
	s := x.(*StructV)
	n := &StructV{T: s.T, F: append([]Value{}, s.F...)}
	n.F[path[0]] = setPath(s.F[path[0]], path[1:], y)
	return n
}

// store writes through a pointer.
func (v *Verifier) store(st *State, p *PtrV, x Value) {
	switch p.Kind {
	case pCell:
		c := st.cells[p.Cell]
		if c.Obj != nil {
			v.store(st, &PtrV{Kind: pHeap, Elem: p.Elem, Base: c.T, Ref: c.Obj, Path: p.Path}, x)
			return
		}
		n := *c
		n.Val = setPath(c.Val, p.Path, x)
		st.cells[p.Cell] = &n
	case pHeap:
		names, _ := v.objHeaps(p)
		ts := v.toLeaves(st, x, p.Elem)
		for i, n := range names {
			v.note(n, p.Ref, nil)
			v.setHeap(st, n, Sto(v.heap(st, n), p.Ref, ts[i]))
		}
	case pElem:
		names, _ := elemHeaps(p.Base, p.Path)
		ts := v.toLeaves(st, x, p.Elem)
		for i, n := range names {
			v.note(n, p.Ref, nil)
			h := v.heap(st, n)
			v.setHeap(st, n, Sto(h, p.Ref, Sto(Sel(h, p.Ref), p.Idx, ts[i])))
		}
	case pGlobal:
		names, _ := globalHeaps(p.Glob, p.Base)
		ts := v.toLeaves(st, x, p.Elem)
		for i, n := range names {
			v.heap(st, n)
			st.heaps[n] = ts[i]
		}
	}
}

// ptrTerm gives the reference of a pointer, moving a cell to the heap if needed.
func (v *Verifier) ptrTerm(st *State, x Value) *Term {
	p, ok := x.(*PtrV)
	if !ok {
		unsupported("pointer value %T", x)
	}
	switch p.Kind {
	case pHeap:
		if len(p.Path) == 0 {
			return p.Ref
		}
	case pCell:
		if len(p.Path) == 0 {
			c := st.cells[p.Cell]
			if c.Obj == nil {
				if v.inSpec {
					unsupported("reference of a local variable in a contract")
				}
				r := v.alloc(st)
				n := *c
				n.Obj = r
				st.cells[p.Cell] = &n
				v.store(st, &PtrV{Kind: pHeap, Elem: c.T, Base: c.T, Ref: r}, c.Val)
				return r
			}
			return c.Obj
		}
	}
	unsupported("interior pointer to %s escapes", typeName(p.Base))
	return nil
}

func (v *Verifier) ptrNil(p *PtrV) *Term {
	if p.Kind == pHeap && len(p.Path) == 0 {
		return Eq(p.Ref, I(0))
	}
	return tFalse
}

func (v *Verifier) ptrEq(st *State, a, b *PtrV) *Term {
	if a.Kind == pCell && b.Kind == pCell && len(a.Path) == 0 && len(b.Path) == 0 && a.Cell == b.Cell {
		return tTrue
	}
	return Eq(v.ptrTerm(st, a), v.ptrTerm(st, b))
}

// ---- matrices ----

func isMatrix(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Matrix" && n.Obj().Pkg() == thePkg
}

func elemHeaps1(elem types.Type, leaf string) string {
	names, ls := elemHeaps(elem, nil)
	for i, l := range ls {
		if l.Path == leaf {
			return names[i]
		}
	}
	unsupported("no leaf %s in %s", leaf, elem)
	return ""
}

// matSlice finds the [][]float64 of a matrix value (or is one).
func matSlice(x Value) *SliceV {
	switch y := x.(type) {
	case *SliceV:
		return y
	case *StructV:
		for i, f := range y.F {
			if s, ok := f.(*SliceV); ok {
				if _, ok := y.T.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice); ok {
					return s
				}
			}
		}
	}
	panic(Unsupported{fmt.Sprintf("matrix expected, got %T", x)})
}

func matDims(x Value) (*Term, *Term) {
	s := x.(*StructV)
	st := s.T.Underlying().(*types.Struct)
	var r, c *Term
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Rows":
			r = s.F[i].(*Term)
		case "Cols":
			c = s.F[i].(*Term)
		}
	}
	return r, c
}

func (v *Verifier) rowRef(st *State, m Value, i *Term) *Term {
	s := matSlice(m)
	return Sel(Sel(v.heap(st, hRowR), s.Ref), Ix(s.Off, i))
}
func (v *Verifier) matAt(st *State, m Value, i, j *Term) *Term {
	return Sel(Sel(v.heap(st, hFloat), v.rowRef(st, m, i)), j)
}
func (v *Verifier) rowOf(st *State, m Value, r *Term) *Term {
	s := matSlice(m)
	return App("rowOf", SBool, Sel(v.heap(st, hRowR), s.Ref), s.Off, s.Len, r)
}
func (v *Verifier) view(st *State, m Value) *Term {
	s := matSlice(m)
	r, c := matDims(m)
	return App("mv", SMV, v.heap(st, hFloat), Sel(v.heap(st, hRowR), s.Ref), s.Ref, s.Off, r, c)
}

func (v *Verifier) wfRows(st *State, m Value, e *Env) *Term {
	s := matSlice(m)
	_, c := matDims(m)
	i := v.boundVar("i", SInt)
	l := Sel(Sel(v.heap(st, hRowL), s.Ref), Ix(s.Off, i))
	rr := v.rowRef(st, m, i)
	return Forall([]*Term{i}, Imp(And(Le(I(0), i), Lt(i, s.Len)), Eq(l, c)), []*Term{l}, []*Term{rr})
}

// rowsDistinct: as a hypothesis, row references have an inverse; as a goal
// (after goal rewriting) they are pairwise different.
func (v *Verifier) rowsDistinct(st *State, m Value) *Term {
	s := matSlice(m)
	i := v.boundVar("i", SInt)
	a := Sel(v.heap(st, hRowR), s.Ref)
	rr := Sel(a, Ix(s.Off, i))
	t := Forall([]*Term{i}, Imp(And(Le(I(0), i), Lt(i, s.Len)), Eq(App("widx", SInt, a, s.Off, s.Len, rr), i)), []*Term{rr})
	j := v.boundVar("j", SInt)
	rj := Sel(a, Ix(s.Off, j))
	g := Forall([]*Term{i, j}, Imp(And(Le(I(0), i), Lt(i, j), Lt(j, s.Len)), Not(Eq(rr, rj))), []*Term{rr, rj})
	v.setGoalForm(t, g)
	return t
}

// ---- maps ----

func (v *Verifier) mapGet(st *State, m MapV, k *Term) *Term {
	return Ite(v.mapHas(st, m, k), App("select", SF, Sel2(v.heap(st, hMapVal), m.Ref, "(Array Str F)"), k), I2F(I(0)))
}
func (v *Verifier) mapHas(st *State, m MapV, k *Term) *Term {
	return And(Not(Eq(m.Ref, I(0))), App("select", SBool, Sel2(v.heap(st, hMapDom), m.Ref, "(Array Str Bool)"), k))
}
func (v *Verifier) mapLen(st *State, m MapV) *Term {
	return Ite(Eq(m.Ref, I(0)), I(0), Sel(v.heap(st, hMapLen), m.Ref))
}
func Sel2(a, i *Term, sort string) *Term { return App("select", sort, a, i) }

func (v *Verifier) newMap(st *State, t types.Type) MapV {
	checkMapType(t)
	r := v.alloc(st)
	d, va, l := v.heap(st, hMapDom), v.heap(st, hMapVal), v.heap(st, hMapLen)
	v.setHeap(st, hMapDom, App("store", d.Sort, d, r, V("((as const (Array Str Bool)) false)", "(Array Str Bool)")))
	v.setHeap(st, hMapVal, va)
	v.setHeap(st, hMapLen, Sto(l, r, I(0)))
	return MapV{t, r}
}

func checkMapType(t types.Type) {
	m := t.Underlying().(*types.Map)
	k, ok1 := m.Key().Underlying().(*types.Basic)
	e, ok2 := m.Elem().Underlying().(*types.Basic)
	if !ok1 || !ok2 || k.Info()&types.IsString == 0 || e.Info()&types.IsFloat == 0 {
		unsupported("map type %s", t)
	}
}

func (v *Verifier) mapSet(st *State, m MapV, k, x *Term) {
	v.oblige(st, "safety", "assignment to a map that is not nil", nil, Not(Eq(m.Ref, I(0))))
	d, va, l := v.heap(st, hMapDom), v.heap(st, hMapVal), v.heap(st, hMapLen)
	ds, vs := "(Array Str Bool)", "(Array Str F)"
	dm := Sel2(d, m.Ref, ds)
	v.setHeap(st, hMapLen, Sto(l, m.Ref, Ite(App("select", SBool, dm, k), Sel(l, m.Ref), Add(Sel(l, m.Ref), I(1)))))
	v.setHeap(st, hMapDom, App("store", d.Sort, d, m.Ref, App("store", ds, dm, k, tTrue)))
	v.setHeap(st, hMapVal, App("store", va.Sort, va, m.Ref, App("store", vs, Sel2(va, m.Ref, vs), k, x)))
}

func (v *Verifier) mapDelete(st *State, m MapV, k *Term) {
	d, l := v.heap(st, hMapDom), v.heap(st, hMapLen)
	ds := "(Array Str Bool)"
	dm := Sel2(d, m.Ref, ds)
	v.setHeap(st, hMapLen, Sto(l, m.Ref, Ite(App("select", SBool, dm, k), Sub(Sel(l, m.Ref), I(1)), Sel(l, m.Ref))))
	v.setHeap(st, hMapDom, App("store", d.Sort, d, m.Ref, App("store", ds, dm, k, tFalse)))
}

// ---- escape analysis of local variables ----

// mayEscape: the address held by val may be kept beyond the uses we model
// as local accesses.
func (p *Program) mayEscape(val ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[val] {
		return false
	}
	seen[val] = true
	refs := val.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch in := r.(type) {
		case *ssa.Store:
			if in.Val == val {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.BinOp:
		case *ssa.FieldAddr:
			if p.mayEscape(in, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if p.mayEscape(in, seen) {
				return true
			}
		case *ssa.MakeClosure:
			// bound variables of closures are modelled directly
			f := in.Fn.(*ssa.Function)
			for i, b := range in.Bindings {
				if b == val && p.mayEscape(f.FreeVars[i], seen) {
					return true
				}
			}
		case *ssa.MakeInterface:
			// only for direct use in calls of modelled externals
			for _, q := range *in.Referrers() {
				c, ok := q.(*ssa.Call)
				if !ok || c.Call.IsInvoke() || !modelledExtern(c.Call.StaticCallee()) {
					return true
				}
			}
		case ssa.CallInstruction:
			c := in.Common()
			if c.IsInvoke() {
				return true
			}
			callee := c.StaticCallee()
			if callee == nil {
				return true
			}
			for i, a := range c.Args {
				if a != val {
					continue
				}
				if callee.Blocks == nil || callee.Pkg == nil || callee.Pkg.Pkg != thePkg {
					if !modelledExtern(callee) {
						return true
					}
					continue
				}
				if p.mayEscape(callee.Params[i], seen) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}
