package main

// The program under verification: loading, naming, natural loops, effects.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	pkg      *ssa.Package
	fset     *token.FileSet
	fns      map[string]*ssa.Function
	tags     map[string]int
	tagTypes []types.Type
	infos    map[*ssa.Function]*FnInfo
	mu       sync.Mutex
	effs     map[*ssa.Function]map[string]bool
}

type FnInfo struct {
	loops map[*ssa.BasicBlock]*Loop
	order map[*ssa.BasicBlock]int
}

type Loop struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	irred bool
}

func fnKey(f *ssa.Function) string {
	if f.Pkg == nil || f.Pkg.Pkg != thePkg {
		return f.String()
	}
	return f.RelString(thePkg)
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Tests: false}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages in %s", len(pkgs), dir)
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("package does not load: %v", pkgs[0].Errors[0])
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{pkg: sp[0], fset: prog.Fset, fns: map[string]*ssa.Function{}, tags: map[string]int{}, infos: map[*ssa.Function]*FnInfo{}, effs: map[*ssa.Function]map[string]bool{}}
	thePkg = sp[0].Pkg
	p.tagTypes = []types.Type{nil}
	for _, name := range sortedKeys(sp[0].Members) {
		switch m := sp[0].Members[name].(type) {
		case *ssa.Function:
			p.fns[fnKey(m)] = m
		case *ssa.Type:
			t := m.Type()
			for _, tt := range []types.Type{t, types.NewPointer(t)} {
				ms := prog.MethodSets.MethodSet(tt)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f == nil || f.Synthetic != "" {
						continue
					}
					p.fns[fnKey(f)] = f
				}
			}
			if _, ok := t.Underlying().(*types.Interface); !ok {
				p.addTag(types.NewPointer(t))
				p.addTag(t)
			}
		}
	}
	// constants of the code
	for _, f := range p.fns {
		p.scanConsts(f)
	}
	if in := sp[0].Func("init"); in != nil {
		p.scanConsts(in)
	}
	return p, nil
}

func (p *Program) addTag(t types.Type) {
	k := typeName(t)
	if _, ok := p.tags[k]; !ok {
		p.tags[k] = len(p.tagTypes)
		p.tagTypes = append(p.tagTypes, t)
	}
}

func (p *Program) scanConsts(f *ssa.Function) {
	var ops [16]*ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(ops[:0]) {
				if c, ok := (*o).(*ssa.Const); ok {
					func() {
						defer func() { recover() }()
						constValue(c)
					}()
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		p.scanConsts(a)
	}
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		unsupported("constant of type %s", c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		if constant.BoolVal(c.Value) {
			return tTrue
		}
		return tFalse
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return I(i)
		}
		return &Term{Op: v.ExactString(), Sort: SInt}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return fconst(f)
	case b.Info()&types.IsString != 0:
		return strConst(constant.StringVal(c.Value))
	}
	unsupported("constant %s", c)
	return nil
}

func (p *Program) info(f *ssa.Function) *FnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.infos[f]; ok {
		return i
	}
	fi := &FnInfo{loops: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := fi.loops[s]
			if l == nil {
				l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				fi.loops[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	// irreducible cycles: any cycle not through a natural loop header
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 && !s.Dominates(b) {
				return false
			}
			if state[s] == 0 && !dfs(s) {
				return false
			}
		}
		state[b] = 2
		return true
	}
	if len(f.Blocks) > 0 && !dfs(f.Blocks[0]) {
		for _, l := range fi.loops {
			l.irred = true
		}
		if len(fi.loops) == 0 {
			fi.loops[f.Blocks[0]] = &Loop{head: f.Blocks[0], irred: true}
		}
	}
	p.infos[f] = fi
	return fi
}

// implementers lists the concrete types of the package behind an interface.
func (p *Program) implementers(it types.Type) []types.Type {
	i, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, t := range p.tagTypes[1:] {
		if pt, ok := t.(*types.Pointer); ok && types.Implements(pt, i) && !types.Implements(pt.Elem(), i) {
			out = append(out, t)
		} else if !ok && types.Implements(t, i) {
			out = append(out, t)
		}
	}
	return out
}

func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	ms := p.pkg.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.pkg.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// callees of a function, through interfaces and closures.
func (p *Program) callees(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o != nil && *o != nil {
						if g, ok := (*o).(*ssa.Function); ok && g.Pkg == p.pkg && g != f {
							seen[g] = true
						}
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if c.Common().IsInvoke() {
					for _, t := range p.implementers(c.Common().Value.Type()) {
						if m := p.methodOf(t, c.Common().Method.Name()); m != nil {
							seen[m] = true
						}
					}
				} else if g := c.Common().StaticCallee(); g != nil && g.Pkg == p.pkg {
					seen[g] = true
				}
			}
		}
	}
	add(f)
	var out []*ssa.Function
	for g := range seen {
		out = append(out, g)
	}
	sort.Slice(out, func(i, j int) bool { return fnKey(out[i]) < fnKey(out[j]) })
	return out
}

// ---- static effects: names of heaps a function may write ----

func addrHeaps(t types.Type, addr ssa.Value) []string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		// find the base of the path
		var path []int
		x := ssa.Value(a)
		for {
			fa, ok := x.(*ssa.FieldAddr)
			if !ok {
				break
			}
			path = append([]int{fa.Field}, path...)
			x = fa.X
		}
		base := deref(x.Type())
		if ia, ok := x.(*ssa.IndexAddr); ok {
			n, _ := elemHeaps(deref(ia.Type()), path)
			return n
		}
		n, _ := fieldHeaps(base, path)
		return n
	case *ssa.IndexAddr:
		n, _ := elemHeaps(deref(a.Type()), nil)
		return n
	case *ssa.Global:
		n, _ := globalHeaps(a.Name(), deref(a.Type()))
		return n
	}
	return objHeapNames(t)
}

func objHeapNames(t types.Type) []string {
	if a, ok := t.Underlying().(*types.Array); ok {
		n, _ := elemHeaps(a.Elem(), nil)
		return n
	}
	if _, ok := t.Underlying().(*types.Struct); ok && !isForeignStruct(t) {
		n, _ := fieldHeaps(t, nil)
		return n
	}
	var names []string
	for _, l := range leavesOf(t) {
		names = append(names, regHeap("B:"+typeName(t)+":"+l.Path, arrSort(l.Sort), l.Ref))
	}
	// a pointer to a scalar may point into an element or a field
	return names
}

// localAddr: part of a variable that lives in the function only.
func (p *Program) localAddr(x ssa.Value) bool {
	for {
		switch a := x.(type) {
		case *ssa.FieldAddr:
			x = a.X
		case *ssa.Alloc:
			_, arr := deref(a.Type()).Underlying().(*types.Array)
			return !arr && !p.mayEscape(a, map[ssa.Value]bool{})
		default:
			return false
		}
	}
}

func (p *Program) instrHeaps(in ssa.Instruction, out map[string]bool) {
	add := func(ns []string) {
		for _, n := range ns {
			out[n] = true
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		if p.localAddr(x.Addr) {
			return
		}
		add(addrHeaps(deref(x.Addr.Type()), x.Addr))
	case *ssa.Alloc:
		if _, ok := deref(x.Type()).Underlying().(*types.Array); ok || x.Heap {
			add(objHeapNames(deref(x.Type())))
		}
	case *ssa.MakeSlice:
		n, _ := elemHeaps(x.Type().Underlying().(*types.Slice).Elem(), nil)
		add(n)
	case *ssa.MakeMap, *ssa.MapUpdate:
		add([]string{hMapDom, hMapVal, hMapLen})
	case *ssa.MakeClosure:
		for n := range p.effects(x.Fn.(*ssa.Function)) {
			out[n] = true
		}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append", "copy":
				n, _ := elemHeaps(c.Args[0].Type().Underlying().(*types.Slice).Elem(), nil)
				add(n)
			case "delete":
				add([]string{hMapDom, hMapVal, hMapLen})
			}
			return
		}
		if c.IsInvoke() {
			for _, l := range specs.contracts[typeName(c.Value.Type())+"."+c.Method.Name()].of("log") {
				out["g:"+l.Target] = true
			}
			for _, t := range p.implementers(c.Value.Type()) {
				if m := p.methodOf(t, c.Method.Name()); m != nil {
					for n := range p.effects(m) {
						out[n] = true
					}
				}
			}
			return
		}
		g := c.StaticCallee()
		if g == nil {
			return
		}
		if g.Pkg == p.pkg {
			for n := range p.effects(g) {
				out[n] = true
			}
			return
		}
		add(externEffects(g, c))
	}
}

func (p *Program) effects(f *ssa.Function) map[string]bool {
	p.mu.Lock()
	if e, ok := p.effs[f]; ok {
		p.mu.Unlock()
		return e
	}
	e := map[string]bool{}
	p.effs[f] = e // recursion: partial
	p.mu.Unlock()
	out := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			p.instrHeaps(in, out)
		}
	}
	for _, l := range specs.contracts[fnKey(f)].of("log") {
		out["g:"+l.Target] = true
	}
	p.mu.Lock()
	p.effs[f] = out
	p.mu.Unlock()
	return out
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
