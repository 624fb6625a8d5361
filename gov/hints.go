package main

import (
	"encoding/json"
	"os"
	"sort"
	"sync"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Hints: which candidate invariants held, per loop, when the proofs were last
// done. They only narrow what is tried first: every invariant is still proved
// on the current source, and where that does not do, everything is tried.

type funcHint struct {
	Mode  string              `json:"mode"`
	Loops map[string][]string `json:"loops"`
}

var hints = map[string]*funcHint{}
var newHints = map[string]*funcHint{}
var hintMu sync.Mutex
var hintFile string

func loadHints(file string) {
	hintFile = file
	if os.Getenv("GOV_NOHINTS") != "" {
		return
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	if json.Unmarshal(b, &hints) != nil {
		hints = map[string]*funcHint{}
	}
}

func saveHints() {
	hintMu.Lock()
	defer hintMu.Unlock()
	for k, h := range newHints {
		hints[k] = h
	}
	b, _ := json.MarshalIndent(hints, "", " ")
	os.WriteFile(hintFile, append(b, '\n'), 0644)
}

func (m *loopMemory) hint(mode string) *funcHint {
	h := &funcHint{Mode: mode, Loops: map[string][]string{}}
	for place, cs := range m.names {
		l := []string{}
		for c, held := range cs {
			if held {
				l = append(l, c)
			}
		}
		sort.Strings(l)
		h.Loops[place] = l
	}
	return h
}

func hintKey(con *Contract, impl types.Type) string {
	if impl != nil {
		return con.Key + " by " + typeName(impl)
	}
	return con.Key
}

// runHinted tries what held before; nil when there is nothing to go by or it
// was not enough.
func runHinted(p *Program, con *Contract, fn *ssa.Function, impl types.Type, budget time.Duration) *JobResult {
	h := hints[hintKey(con, impl)]
	if h == nil {
		return nil
	}
	m := &loopMemory{names: map[string]map[string]bool{}, only: map[string]map[string]bool{}}
	for place, cs := range h.Loops {
		m.only[place] = map[string]bool{}
		for _, c := range cs {
			m.only[place][c] = true
		}
	}
	r := runFuncWith(p, con, fn, impl, h.Mode == "real", budget, m)
	if !r.ok() {
		return nil
	}
	return r
}

func noteHints(con *Contract, impl types.Type, r *JobResult, m *loopMemory) {
	if !r.ok() || len(m.names) == 0 {
		return
	}
	hintMu.Lock()
	defer hintMu.Unlock()
	newHints[hintKey(con, impl)] = m.hint(r.Mode)
}
