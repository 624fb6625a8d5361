package main

// Symbolic values, memory layout and program states.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Unsupported is raised (panicked) when code leaves the supported subset.
type Unsupported struct{ Msg string }

func unsupported(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

type Value interface{}

type StructV struct {
	T types.Type
	F []Value
}
type SliceV struct {
	Elem               types.Type
	Ref, Off, Len, Cap *Term // Cap may be nil: unknown
}

const (
	pHeap   = iota // field path inside a heap object
	pCell          // field path inside a local cell
	pElem          // field path inside an element of a backing array
	pGlobal        // package variable
)

type PtrV struct {
	Kind int
	Elem types.Type // pointee type (after Path)
	Base types.Type // type of the whole object / element / cell
	Ref  *Term      // pHeap: object; pElem: backing array
	Idx  *Term      // pElem: absolute index
	Cell int
	Glob string
	Path []int
}
type IfaceV struct {
	T        types.Type // interface type
	Tag, Ref *Term
	Dyn      types.Type // statically known dynamic type, or nil
	Val      Value
}
type MapV struct {
	T   types.Type
	Ref *Term
}
type FuncV struct {
	Fn    *ssa.Function
	Binds []Value
	Term  *Term
}
type TupleV []Value


// RangeV is a map iterator: the visited keys and their number are cells.
type RangeV struct {
	M    MapV
	Cell, Count int
}

type Leaf struct {
	Path string
	Sort string
	Ref  bool
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == thePkg {
			return ""
		}
		return p.Name()
	})
}

var thePkg *types.Package

func isForeignStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return n.Obj().Pkg() != thePkg
}

func basicSort(b *types.Basic) string {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SBool
	case b.Info()&types.IsInteger != 0:
		return SInt
	case b.Info()&types.IsFloat != 0:
		return SF
	case b.Info()&types.IsString != 0:
		return SStr
	case b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil:
		return SInt
	}
	unsupported("basic type %s", b)
	return ""
}

var leafCache = map[string][]Leaf{}

func leavesOf(t types.Type) []Leaf {
	if isForeignStruct(t) {
		return []Leaf{{"", SInt, false}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []Leaf{{"", basicSort(u), false}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{"", SInt, true}}
	case *types.Signature:
		return []Leaf{{"", SInt, false}}
	case *types.Slice:
		if rowLike(u.Elem()) {
			return []Leaf{{"#r", SInt, true}, {"#l", SInt, false}}
		}
		return []Leaf{{"#r", SInt, true}, {"#o", SInt, false}, {"#l", SInt, false}}
	case *types.Interface:
		return []Leaf{{"#t", SInt, false}, {"#v", SInt, true}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.Path, l.Sort, l.Ref})
			}
		}
		return out
	}
	unsupported("type %s in memory", t)
	return nil
}

// rowLike element types: slices of them are stored without an offset.
func rowLike(e types.Type) bool {
	_, ok := e.Underlying().(*types.Basic)
	return ok
}

// fieldPath gives the textual path and the type at a field path.
func fieldPath(t types.Type, path []int) (string, types.Type) {
	s := ""
	for _, i := range path {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			unsupported("field path in %s", t)
		}
		s += "." + st.Field(i).Name()
		t = st.Field(i).Type()
	}
	return s, t
}

func fieldHeap(base types.Type, path string) string { return "S:" + typeName(base) + ":" + path }
func elemHeap(elem types.Type, path string) string  { return "E:" + typeName(elem) + ":" + path }

// heapSort gives the sort of a heap from its name.
var heapSorts = map[string]string{}
var heapIsRef = map[string]bool{}

func regHeap(name, sort string, ref bool) string {
	heapMu.Lock()
	heapSorts[name] = sort
	heapIsRef[name] = ref
	heapMu.Unlock()
	return name
}

func fieldHeaps(base types.Type, path []int) ([]string, []Leaf) {
	p, ft := fieldPath(base, path)
	ls := leavesOf(ft)
	var names []string
	for _, l := range ls {
		names = append(names, regHeap(fieldHeap(base, p+l.Path), arrSort(l.Sort), l.Ref))
	}
	return names, ls
}
func elemHeaps(elem types.Type, path []int) ([]string, []Leaf) {
	p, ft := fieldPath(elem, path)
	ls := leavesOf(ft)
	var names []string
	for _, l := range ls {
		names = append(names, regHeap(elemHeap(elem, p+l.Path), arrSort(arrSort(l.Sort)), l.Ref))
	}
	return names, ls
}
func globalHeaps(g string, t types.Type) ([]string, []Leaf) {
	ls := leavesOf(t)
	var names []string
	for _, l := range ls {
		names = append(names, regHeap("G:"+g+":"+l.Path, l.Sort, l.Ref))
	}
	return names, ls
}

const (
	hMapDom = "M:dom"
	hMapVal = "M:val"
	hMapLen = "M:len"
)

// toLeaves flattens a value. st is used to materialise cell pointers.
func (v *Verifier) toLeaves(st *State, x Value, t types.Type) []*Term {
	if isForeignStruct(t) {
		return []*Term{x.(*Term)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []*Term{x.(*Term)}
	case *types.Pointer:
		return []*Term{v.ptrTerm(st, x)}
	case *types.Map:
		return []*Term{x.(MapV).Ref}
	case *types.Signature:
		f := x.(*FuncV)
		if f.Term == nil {
			f.Term = v.fresh("fn", SInt)
		}
		return []*Term{f.Term}
	case *types.Slice:
		s := x.(*SliceV)
		if rowLike(u.Elem()) {
			if n, ok := s.Off.intVal(); !ok || n.Sign() != 0 {
				v.oblige(st, "subset", "a slice stored in memory starts at its backing array", nil, Eq(s.Off, I(0)))
			}
			return []*Term{s.Ref, s.Len}
		}
		return []*Term{s.Ref, s.Off, s.Len}
	case *types.Interface:
		i := x.(*IfaceV)
		if i.Ref == nil {
			v.boxIface(st, i)
		}
		return []*Term{i.Tag, i.Ref}
	case *types.Struct:
		s, ok := x.(*StructV)
		if !ok {
			unsupported("struct value %T", x)
		}
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, v.toLeaves(st, s.F[i], u.Field(i).Type())...)
		}
		return out
	}
	unsupported("leaves of %s", t)
	return nil
}

func (v *Verifier) boxIface(st *State, i *IfaceV) {
	if i.Dyn != nil {
		if _, ok := i.Dyn.Underlying().(*types.Pointer); ok {
			i.Ref = v.ptrTerm(st, i.Val)
			return
		}
	}
	i.Ref = v.fresh("box", SInt)
	v.assume(st, And(Le(I(0), i.Ref), Lt(i.Ref, st.nxt)))
}

func fromLeaves(t types.Type, ls []*Term) (Value, []*Term) {
	if isForeignStruct(t) {
		return ls[0], ls[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return ls[0], ls[1:]
	case *types.Pointer:
		return &PtrV{Kind: pHeap, Elem: u.Elem(), Base: u.Elem(), Ref: ls[0]}, ls[1:]
	case *types.Map:
		return MapV{t, ls[0]}, ls[1:]
	case *types.Signature:
		return &FuncV{Term: ls[0]}, ls[1:]
	case *types.Slice:
		if rowLike(u.Elem()) {
			return &SliceV{Elem: u.Elem(), Ref: ls[0], Off: I(0), Len: ls[1]}, ls[2:]
		}
		return &SliceV{Elem: u.Elem(), Ref: ls[0], Off: ls[1], Len: ls[2]}, ls[3:]
	case *types.Interface:
		return &IfaceV{T: t, Tag: ls[0], Ref: ls[1]}, ls[2:]
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ls = fromLeaves(u.Field(i).Type(), ls)
			s.F = append(s.F, f)
		}
		return s, ls
	}
	unsupported("value of type %s", t)
	return nil, nil
}

// freshValue makes an unconstrained value of type t with its type facts assumed.
func (v *Verifier) freshValue(st *State, t types.Type, hint string) Value {
	if tup, ok := t.(*types.Tuple); ok {
		var out TupleV
		for i := 0; i < tup.Len(); i++ {
			out = append(out, v.freshValue(st, tup.At(i).Type(), fmt.Sprintf("%s_%d", hint, i)))
		}
		return out
	}
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, v.fresh(hint+sanitize(l.Path), l.Sort))
	}
	x, _ := fromLeaves(t, ts)
	v.typeFacts(st, x, t)
	return x
}

// typeFacts assumes what holds of every Go value of the type.
func (v *Verifier) typeFacts(st *State, x Value, t types.Type) {
	if isForeignStruct(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if f := intRange(u, x.(*Term)); f != nil {
			v.assume(st, f)
		}
		if u.Info()&types.IsString != 0 {
			v.assume(st, Le(I(0), App("slen", SInt, x.(*Term))))
		}
	case *types.Pointer:
		p := x.(*PtrV)
		if p.Kind == pHeap && len(p.Path) == 0 {
			v.assume(st, And(Le(I(0), p.Ref), Lt(p.Ref, st.nxt)))
		}
	case *types.Map:
		v.assume(st, And(Le(I(0), x.(MapV).Ref), Lt(x.(MapV).Ref, st.nxt)))
	case *types.Slice:
		s := x.(*SliceV)
		v.assume(st, And(Le(I(0), s.Ref), Lt(s.Ref, st.nxt), Le(I(0), s.Off), Le(I(0), s.Len), Le(s.Len, maxLen), Imp(Eq(s.Ref, I(0)), Eq(s.Len, I(0)))))
		if s.Cap == nil {
			s.Cap = v.fresh("cap", SInt)
			v.assume(st, And(Le(s.Len, s.Cap)))
		}
	case *types.Interface:
		i := x.(*IfaceV)
		v.assume(st, And(Le(I(0), i.Tag), Le(I(0), i.Ref), Lt(i.Ref, st.nxt)))
		if f := v.ifaceTags(t, i.Tag); f != nil {
			v.assume(st, f)
		}
	case *types.Struct:
		s := x.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			v.typeFacts(st, s.F[i], u.Field(i).Type())
		}
	}
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func intBits(b *types.Basic) (bits uint, signed, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func intRange(b *types.Basic, t *Term) *Term {
	bits, signed, ok := intBits(b)
	if !ok {
		return nil
	}
	if bits == 64 {
		if signed {
			return nil // mathematical integers: see the stated assumption on 64-bit overflow
		}
		return Le(I(0), t)
	}
	if signed {
		h := pow2(bits - 1)
		return And(Le(bigI(new(big.Int).Neg(h)), t), Lt(t, bigI(h)))
	}
	return And(Le(I(0), t), Lt(t, bigI(pow2(bits))))
}

func sanitize(s string) string {
	r := strings.NewReplacer(".", "_", "#", "_", "*", "p", "[", "_", "]", "_", "/", "_", "(", "", ")", "", " ", "_", "{", "", "}", "", "$", "_", ":", "_", ",", "_")
	return r.Replace(s)
}

func zeroLeaf(sort string) *Term {
	switch sort {
	case SInt:
		return I(0)
	case SBool:
		return tFalse
	case SF:
		return I2F(I(0))
	case SStr:
		return strConst("")
	}
	unsupported("zero of sort %s", sort)
	return nil
}

func zeroValue(t types.Type) Value {
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, zeroLeaf(l.Sort))
	}
	x, _ := fromLeaves(t, ts)
	if s, ok := x.(*SliceV); ok {
		s.Cap = I(0)
	}
	return x
}

// State of one path.
type Cell struct {
	T   types.Type
	Val Value // inline content
	Obj *Term // set when the cell has been moved to the heap
	Arr types.Type
}

type pathNode struct {
	t    *Term
	prev *pathNode
}

type State struct {
	heaps map[string]*Term
	cells map[int]*Cell
	nxt   *Term
	ghost map[string]Value
}

func (s *State) clone() *State {
	n := &State{nxt: s.nxt, heaps: make(map[string]*Term, len(s.heaps)+4), cells: make(map[int]*Cell, len(s.cells)+2), ghost: make(map[string]Value, len(s.ghost)+1)}
	for k, x := range s.heaps {
		n.heaps[k] = x
	}
	for k, x := range s.cells {
		n.cells[k] = x
	}
	for k, x := range s.ghost {
		n.ghost[k] = x
	}
	return n
}
