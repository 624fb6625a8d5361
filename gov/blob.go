package main

import "go/types"
import "golang.org/x/tools/go/ssa"

func (v *Verifier) binaryWrite(st *State, args []Value) Value { unsupported("binary.Write"); return nil }
func (v *Verifier) binaryRead(st *State, args []Value) Value  { unsupported("binary.Read"); return nil }
func (v *Verifier) bytesToStr(st *State, s *SliceV) Value     { unsupported("bytes to string"); return nil }
func (v *Verifier) strToBytes(st *State, s *Term, e types.Type) Value {
	unsupported("string to bytes")
	return nil
}

// shuffle: rand.Shuffle(n, swap) calls swap some number of times with indices
// in [0,n).  The swap is verified once, from any state satisfying the
// function's loop invariants that have no metavariables.
func (v *Verifier) shuffle(fr *Frame, in ssa.Instruction, args []Value, st *State, k func(st *State)) {
	n := args[len(args)-2].(*Term)
	f, ok := args[len(args)-1].(*FuncV)
	if !ok || f.Fn == nil {
		unsupported("shuffle with an unknown function")
	}
	v.oblige(st, "safety", "argument of Shuffle is not negative", nil, Le(I(0), n))
	entry := st.clone()
	invs := func(s *State) (ts []*Term, cs []*Clause) {
		env := &Env{v: v, vars: v.params, st: s, old: v.old, loop: entry}
		for _, c := range v.con.of("inv") {
			if len(c.Metas) == 0 {
				ts = append(ts, v.spec(env, func(e *Env) *Term { return e.boolean(c.Expr) }))
				cs = append(cs, c)
			}
		}
		return
	}
	check := func(s *State, what string) {
		ts, cs := invs(s)
		for i, t := range ts {
			v.oblige(s, "invariant", "swap loop "+what+": "+cs[i].Name, cs[i].Props, t)
		}
	}
	check(st, "on entry")
	eff := v.prog.effects(f.Fn)
	head := st.clone()
	nx := v.fresh("nxt", SInt)
	v.assume(head, Le(st.nxt, nx))
	head.nxt = nx
	frame := func(s *State, h string) *Term {
		h1, h0 := v.heap(s, h), v.heap(v.old, h)
		r := v.boundVar("r", SInt)
		es := arrElem(h0.Sort)
		return Forall([]*Term{r}, Imp(And(Le(I(0), r), Lt(r, v.old.nxt), Not(v.foot.covers(h, r))), Eq(Sel2(h1, r, es), Sel2(h0, r, es))), []*Term{Sel2(h1, r, es)})
	}
	for _, h := range sortedKeys(eff) {
		if !refIndexed(h) {
			unsupported("swap function changes %s", h)
		}
		h0 := v.heap(entry, h)
		v.oblige(st, "frame", "only what may be modified: "+h, nil, frame(st, h))
		fh := h
		v.note(h, nil, func(r *Term) *Term { return Or(v.foot.covers(fh, r), Le(v.old.nxt, r)) })
		h1 := v.fresh("H_"+sanitize(h), h0.Sort)
		head.heaps[h] = h1
		v.heapFacts(head, h, h1, nx)
		v.assume(head, frame(head, h))
	}
	ts, _ := invs(head)
	for _, t := range ts {
		v.assume(head, t)
	}
	// one swap
	bits, ctr := v.pathBits, v.cellCtr
	v.push()
	s := head.clone()
	i, j := v.fresh("i", SInt), v.fresh("j", SInt)
	v.assume(s, And(Le(I(0), i), Lt(i, n), Le(I(0), j), Lt(j, n)))
	v.inline(fr, in, f.Fn, []Value{i, j}, f.Binds, s, func(s *State, _ []Value) {
		check(s, "after a swap")
		for id, c := range head.cells {
			if d := s.cells[id]; d == nil || d.Obj != c.Obj || c.Obj == nil && !sameValue(c.Val, d.Val) {
				unsupported("swap function changes a variable")
			}
		}
		for h, t := range s.heaps {
			t0, ok := head.heaps[h]
			if !ok {
				t0 = v.initHeaps[h]
			}
			if t0 != nil && same(t, t0) {
				continue
			}
			if !eff[h] {
				v.oblige(s, "subset", "writes to "+h+" are anticipated", nil, tFalse)
				continue
			}
			v.oblige(s, "frame", "only what may be modified: "+h, nil, frame(s, h))
		}
	})
	v.pop()
	v.pathBits, v.cellCtr = bits, ctr
	k(head)
}
