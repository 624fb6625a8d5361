package main

// Deciding one property: run its cone, report, replay, write the evidence.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var startTime = time.Now()

type knownFinding struct{ prop, func_, obl, text string }

// Known findings: lines "finding: property=<id> obligation=<function>|<kind>/<name> <what fails>".
// Lines "fixed: ..." suppress nothing.
func readKnown(verif string) []knownFinding {
	f, err := os.Open(verif + "/KNOWN_FINDINGS")
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var k knownFinding
		rest := strings.TrimPrefix(l, "finding: ")
		a, rest, _ := strings.Cut(rest, " obligation=")
		k.prop = strings.TrimPrefix(strings.TrimSpace(a), "property=")
		o, text, _ := strings.Cut(rest, " :: ")
		fn, ob, _ := strings.Cut(o, "|")
		k.func_, k.obl, k.text = strings.TrimSpace(fn), strings.TrimSpace(ob), strings.TrimSpace(text)
		out = append(out, k)
	}
	return out
}

func seedEnv() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

type replayResult struct {
	found  bool
	output string
	ran    bool
}

// replay searches for a concrete failing input with the property's driver,
// which runs the real code of the working tree.
func replay(verif, repo, prop, tier string) replayResult {
	src := verif + "/replay/replay_test.go"
	if _, err := os.Stat(src); err != nil {
		return replayResult{}
	}
	dir, err := os.MkdirTemp("", "nnreplay")
	if err != nil {
		return replayResult{output: err.Error()}
	}
	defer os.RemoveAll(dir)
	files, _ := filepath.Glob(verif + "/replay/*_test.go")
	rep := map[string]string{}
	for _, f := range files {
		rep[repo+"/zz_verif_"+filepath.Base(f)] = f
	}
	// the repository's own tests stay out of the way
	own, _ := filepath.Glob(repo + "/*_test.go")
	for _, f := range own {
		rep[f] = ""
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(dir+"/overlay.json", ov, 0644)
	os.MkdirAll(dir+"/scratch", 0755)
	c := exec.Command("timeout", "-k", "5", "150", "go", "test", "-v", "-vet=off", "-count=1", "-overlay", dir+"/overlay.json", "-run", "^TestVerifReplay$", "-timeout", "140s", ".")
	c.Dir = repo
	c.Env = append(os.Environ(), "VERIF_PROP="+prop, "VERIF_REPLAY_TIER="+tier, "VERIF_SCRATCH="+dir+"/scratch", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	out, _ := c.CombinedOutput()
	s := string(out)
	r := replayResult{output: clipTail(s, 20000), ran: true}
	if strings.Contains(s, "REPLAY-FAIL") || strings.Contains(s, "panic: ") && !strings.Contains(s, "test timed out") || strings.Contains(s, "fatal error: ") {
		r.found = true
	}
	if strings.Contains(s, "[build failed]") || strings.Contains(s, "[setup failed]") {
		r.found, r.ran = false, false
	}
	if strings.Contains(s, "test timed out") {
		r.found = false
	}
	return r
}

// earlyReplay runs the driver once, ahead of the full search for invariants.
var earlyReplay = func() bool { return false }

// Functions a property depends on that are out of the verifier's reach, with
// the bound of the run that stands in for their proof.
type standIn struct {
	Functions []string `json:"functions"`
	Bound     string   `json:"bound"`
	Why       string   `json:"why"`
}

func readBounded(verif string) map[string]standIn {
	out := map[string]standIn{}
	b, err := os.ReadFile(verif + "/contracts/bounded.json")
	if err == nil {
		if err := json.Unmarshal(b, &out); err != nil {
			panic("bounded.json: " + err.Error())
		}
	}
	return out
}

func replayCount(s string) (n, distinct int, samples []string) {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "REPLAY-STATS ") {
			fmt.Sscanf(l, "REPLAY-STATS %d %d", &n, &distinct)
		}
		if r, ok := strings.CutPrefix(l, "REPLAY-SAMPLE "); ok {
			samples = append(samples, r)
		}
	}
	return
}

func clipTail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n...(cut)\n"
	}
	return s
}

func reportBroken(verif, prop, tier, msg string) {
	path := writeReplayFile(verif, prop, "The code under /repo cannot be loaded, so no obligation can be generated:\n"+msg+"\n")
	writeEvidence(verif, prop, tier, map[string]any{"obligations": 1, "discharged": 0, "checker_cmd": "gov -prop " + prop, "trusted_base": trustedBase()}, nil, 1)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
}

func writeReplayFile(verif, prop, text string) string {
	dir := verif + "/evidence/replay"
	os.MkdirAll(dir, 0755)
	p := dir + "/" + prop + ".txt"
	os.WriteFile(p, []byte(text), 0644)
	return p
}

var evidenceLevel = "proof"

func writeEvidence(verif, prop, tier string, cov map[string]any, assumptions []string, violations int) {
	os.MkdirAll(verif+"/evidence", 0755)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seedEnv(), "level": evidenceLevel,
		"coverage": cov, "wall_s": float64(int(time.Since(startTime).Seconds()*100)) / 100,
		"assumptions": assumptions, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(verif+"/evidence/"+prop+".json", append(b, '\n'), 0644)
}

func trustedBase() []string {
	return []string{
		"gov (/verif/gov): SSA construction by golang.org/x/tools/go/ssa from the working tree's source, and this tool's symbolic execution of it",
		"z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
		"float theory /verif/contracts/float_ieee.smt2 (and, where marked real, the real-number reading float_real.smt2)",
		"contracts assumed on dependencies: /verif/contracts/extern.gov and the built-in models listed in DESIGN.md",
	}
}

func checkProp(p *Program, jobs map[string]*Job, verif, repo, prop, tier string) int {
	want := cone(jobs, prop)
	budget := 120 * time.Second
	if tier == "thorough" {
		budget = 300 * time.Second
		wholeBudget = 700 * time.Second
		thorough = true
	}
	bounded, partly := readBounded(verif)[prop]
	if partly {
		evidenceLevel = "exploration"
	}
	if len(want) == 0 && !partly {
		fmt.Fprintf(os.Stderr, "gov: no contract carries property %s\n", prop)
		return 2
	}
	curProp = prop
	var rr replayResult
	var once sync.Once
	run := func() bool {
		once.Do(func() { rr = replay(verif, repo, prop, tier) })
		return rr.found
	}
	earlyReplay = run
	if partly && run() {
		want = map[string]bool{}
	}
	runJobs(p, jobs, want, budget)
	bad := blame(jobs, want, prop)
	// known findings
	var rest []*Obl
	for _, o := range bad {
		hit := false
		for _, k := range readKnown(verif) {
			if k.prop == prop && k.func_ == o.Func && k.obl == o.Kind+"/"+o.Name {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				hit = true
				break
			}
		}
		if !hit {
			rest = append(rest, o)
		}
	}
	cov, assume := coverage(jobs, want, prop)
	if len(rest) > 0 {
		run()
	} else if tier == "thorough" {
		// a second opinion on the contracts themselves: the concrete oracle must agree
		run()
		cov["concrete_cross_check"] = map[string]any{"ran": rr.ran, "disagreement": rr.found, "label": "bounded, not counted as proof"}
	}
	if partly {
		n, d, samples := replayCount(rr.output)
		cov["evaluations"], cov["distinct_nontrivial"], cov["samples"] = n, d, samples
		cov["rule"] = "every case runs the real code on a generated history and compares all of its outcome with an independent reference; a case is distinct by the description of its history"
		cov["bounded_stand_in"] = map[string]any{"functions": bounded.Functions, "bound": bounded.Bound, "why": bounded.Why, "label": "bounded: not proved, not counted as an obligation"}
		assume = append(assume, "bounded, not proved: "+strings.Join(bounded.Functions, ", ")+" ("+bounded.Bound+")")
		if !rr.found && (!rr.ran || n == 0) {
			rest = append(rest, &Obl{Func: strings.Join(bounded.Functions, ", "), Kind: "bounded", Name: "the bounded check can be run", Goal: clipTail(rr.output, 4000)})
		}
	}
	if len(rest) == 0 && !rr.found {
		writeEvidence(verif, prop, tier, cov, assume, 0)
		if partly {
			fmt.Printf("property %s: bounded check of %s: %v cases\n", prop, strings.Join(bounded.Functions, ", "), cov["evaluations"])
		}
		fmt.Printf("property %s: %v of %v obligations discharged in %d functions, %.1fs\n", prop, cov["discharged"], cov["obligations"], len(want), time.Since(startTime).Seconds())
		return 0
	}
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\nFailed obligations:\n", prop)
	for _, o := range rest {
		fmt.Fprintf(&b, "  %s: %s/%s at %s\n", o.Func, o.Kind, o.Name, o.Pos)
	}
	if rr.found {
		fmt.Fprintf(&b, "\nFailing input found by running the code (driver /verif/replay, VERIF_PROP=%s):\n%s\n", prop, rr.output)
	} else if rr.ran {
		fmt.Fprintf(&b, "\nThe driver for this property (/verif/replay) found no failing input.\n%s\n", clipTail(rr.output, 2000))
	} else {
		fmt.Fprintf(&b, "\nThe driver for this property could not be run.\n%s\n", clipTail(rr.output, 4000))
	}
	b.WriteString("\nVerifier output:\n")
	for _, o := range rest {
		fmt.Fprintf(&b, "---- %s %s/%s at %s (solvers answered unknown or ran out)\n%s\n", o.Func, o.Kind, o.Name, o.Pos, clip(o.Goal, 6000))
	}
	path := writeReplayFile(verif, prop, b.String())
	for i, o := range rest {
		if i < 12 {
			fmt.Printf("failed obligation: %s: %s/%s at %s\n", o.Func, o.Kind, o.Name, o.Pos)
		}
	}
	writeEvidence(verif, prop, tier, cov, assume, 1)
	if rr.found {
		for _, l := range strings.Split(rr.output, "\n") {
			if strings.Contains(l, "REPLAY-FAIL") {
				fmt.Println(clip(strings.TrimSpace(l), 400))
				break
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
	}
	return 1
}

var thorough bool

func coverage(jobs map[string]*Job, want map[string]bool, prop string) (map[string]any, []string) {
	total, okN := 0, 0
	byKind := map[string]int{}
	var fns []map[string]any
	real := false
	lemmas := 0
	own := []string{}
	for _, k := range sortedKeys(want) {
		j := jobs[k]
		r := j.Res
		if r == nil {
			continue
		}
		n := len(r.Obls) + r.NOK
		f := len(r.failed())
		if r.Unsupported != "" {
			n, f = n+1, f+1
		}
		total += n
		okN += n - f
		for _, o := range r.Obls {
			byKind[o.Kind]++
			if o.Mode == "real" {
				real = true
			}
		}
		if r.Mode == "real" {
			real = true
		}
		if j.Lem != nil {
			lemmas++
		}
		if j.hasProp(prop) {
			own = append(own, k)
		}
		e := map[string]any{"name": k, "obligations": n, "discharged": n - f, "reading": r.Mode, "ms": r.Ms, "paths": r.Paths}
		if r.Unsupported != "" {
			e["not_verified"] = r.Unsupported
		}
		fns = append(fns, e)
	}
	solvers := map[string]any{}
	for i, n := range solverNames {
		if c := atomic.LoadInt64(&solverCount[i]); c > 0 {
			solvers[n] = map[string]any{"queries": c, "seconds": float64(atomic.LoadInt64(&solverTime[i])/1e6) / 1000}
		}
	}
	var ext []string
	for _, k := range sortedKeys(specs.contracts) {
		if specs.contracts[k].Kind == "extern" {
			ext = append(ext, k)
		}
	}
	sort.Strings(own)
	cov := map[string]any{
		"obligations": total, "discharged": okN,
		"checker_cmd":                  "/verif/bin/gov -prop " + prop,
		"trusted_base":                 trustedBase(),
		"functions_under_contract":     fns,
		"functions_stating_the_property": own,
		"lemmas":                       lemmas,
		"nontrivial_obligations_by_kind": byKind,
		"back_ends":                    solvers,
		"assumed_external_contracts":   ext,
	}
	as := append([]string{}, generalAssumptions...)
	if real {
		as = append(as, "some obligations were discharged in the real reading: float64 arithmetic treated as exact real arithmetic (no rounding, no NaN, no infinities); the functions concerned are marked \"reading\": \"real\"")
	}
	return cov, as
}

var generalAssumptions = []string{
	"machine int is treated as a mathematical integer where it is 64 bits wide (no 64-bit overflow of sizes and counters); narrower integers are exact",
	"float64 operations are uninterpreted except for the identities in float_ieee.smt2",
	"distinct slices passed in either coincide exactly or do not overlap; a []float64 row stored in memory starts at its backing array (an obligation where the code stores one)",
	"no data races: one goroutine at a time uses the objects involved",
	"memory is never exhausted and the stack does not overflow",
	"termination is not proved (all loops are counted loops over sizes; a non-terminating change would show as a path that never returns)",
}
