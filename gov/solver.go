package main

// Interaction with the SMT solvers.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// Session is an incremental z3 process that mirrors one path of one function.
type Session struct {
	prelude string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	decls   []string
	stack   [][]string
	dead    bool
	spent   time.Duration
	queries int
	log     *os.File
	deadline time.Time
	tag     string // for profiling
	light   *Session // the same problem without its quantified facts
}

// dropQuantified removes the assertions of a prelude that have quantifiers.
func dropQuantified(s string) string {
	var b strings.Builder
	depth, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ';':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case '(':
			if depth == 0 {
				start = i
			}
			depth++
		case ')':
			depth--
			if depth == 0 {
				if c := s[start : i+1]; !strings.HasPrefix(c, "(assert") || !strings.Contains(c, "(forall") && !strings.Contains(c, "(exists") {
					b.WriteString(c + "\n")
				}
			}
		}
	}
	return b.String()
}

var profile = os.Getenv("GOV_PROF") != ""

const z3opts = "(set-option :global-declarations true)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 1)\n(set-option :smt.array.extensional false)\n"

var solverTime [8]int64 // nanoseconds by solver index
var solverCount [8]int64

const (
	solZ3New = iota
	solZ3Old
	solCVC5
	solReal
)

var solverNames = []string{"z3-5.3.2", "z3-4.8.12", "cvc5-1.1.2", "z3-5.3.2 (real reading)"}

func NewSession(prelude string) *Session {
	s := &Session{prelude: prelude, stack: [][]string{nil}}
	s.start()
	return s
}

func (s *Session) start() {
	s.cmd = exec.Command("z3-new", "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic("cannot start z3-new: " + err.Error())
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.raw(z3opts + s.prelude)
	for _, d := range s.decls {
		s.raw(d)
	}
	for i, f := range s.stack {
		if i > 0 {
			s.raw("(push)\n")
		}
		for _, a := range f {
			s.raw(a)
		}
	}
	s.dead = false
}

func (s *Session) Close() {
	if s.light != nil {
		s.light.Close()
	}
	s.kill()
}

func (s *Session) kill() {
	if s.in != nil {
		s.in.Close()
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Session) raw(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	io.WriteString(s.in, x)
}

func (s *Session) Declare(name, sort string) {
	d := "(declare-const " + name + " " + sort + ")\n"
	s.decls = append(s.decls, d)
	s.raw(d)
	if s.light != nil {
		s.light.Declare(name, sort)
	}
}
func (s *Session) Push() {
	s.stack = append(s.stack, nil)
	s.raw("(push)\n")
	if s.light != nil {
		s.light.Push()
	}
}
func (s *Session) Pop() {
	if s.light != nil {
		s.light.Pop()
	}
	s.stack = s.stack[:len(s.stack)-1]
	s.raw("(pop)\n")
}
func (s *Session) Assert(t string) {
	s.AssertFull(t)
	if s.light != nil && !strings.Contains(t, "(forall") && !strings.Contains(t, "(exists") {
		s.light.Assert(t)
	}
}

// AssertFull leaves the light session alone.
func (s *Session) AssertFull(t string) {
	a := "(assert " + t + ")\n"
	n := len(s.stack) - 1
	s.stack[n] = append(s.stack[n], a)
	s.raw(a)
}

// Check runs check-sat with a time limit.
func (s *Session) Check(ms int) Result {
	t0 := time.Now()
	if !s.deadline.IsZero() && t0.After(s.deadline) {
		panic(Unsupported{"time budget of the function exhausted"})
	}
	s.queries++
	// the resource limit decides, so that the outcome does not depend on the load
	s.raw(fmt.Sprintf("(set-option :rlimit %d)\n(set-option :timeout %d)\n(check-sat)\n", ms*5000, ms*6))
	type rd struct {
		l   string
		err error
	}
	ch := make(chan rd, 1)
	go func() {
		for {
			l, err := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err == nil && l != "sat" && l != "unsat" && l != "unknown" {
				if strings.Contains(l, "error") {
					fmt.Fprintln(os.Stderr, "z3:", l)
					ch <- rd{l, fmt.Errorf("%s", l)}
					return
				}
				continue
			}
			ch <- rd{l, err}
			return
		}
	}()
	var r rd
	select {
	case r = <-ch:
	case <-time.After(time.Duration(6*ms)*time.Millisecond + 4*time.Second):
		s.kill()
		<-ch
		s.start()
		r = rd{"unknown", nil}
	}
	d := time.Since(t0)
	s.spent += d
	if f := os.Getenv("GOV_SLOWQ"); f != "" && d > 3*time.Second {
		os.WriteFile(f, []byte(z3opts+s.prelude+s.Script()+"(check-sat)\n"), 0o644)
	}
	if profile {
		fmt.Fprintf(os.Stderr, "PROF %s %s limit %d took %d\n", s.tag, r.l, ms, d.Milliseconds())
	}
	atomic.AddInt64(&solverTime[solZ3New], int64(d))
	atomic.AddInt64(&solverCount[solZ3New], 1)
	if r.err != nil {
		if s.log != nil {
			s.log.Sync()
		}
		if strings.Contains(r.l, "error") {
			panic(Unsupported{"solver error: " + r.l})
		}
		s.kill()
		s.start()
		return Unknown
	}
	switch r.l {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}

// Fresh asks a new process about the current assertions: it often answers at
// once where the incremental one, with its history, does not.
func (s *Session) Fresh(ms int) Result {
	return FreshAll([]string{z3opts + s.prelude + s.Script()}, ms, s)[0]
}

// FreshAll answers several standalone problems side by side.
func FreshAll(problems []string, ms int, s *Session) []Result {
	if !s.deadline.IsZero() && time.Now().After(s.deadline) {
		panic(Unsupported{"time budget of the function exhausted"})
	}
	out := make([]Result, len(problems))
	var wg sync.WaitGroup
	for i, p := range problems {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(8*ms+5000)*time.Millisecond)
			defer cancel()
			in := fmt.Sprintf("(set-option :rlimit %d)\n(set-option :timeout %d)\n%s(check-sat)\n", ms*5000+1000000, ms*6, p)
			out[i] = runSolver(ctx, solZ3New, []string{"z3-new", "-in"}, in)
			if profile {
				fmt.Fprintf(os.Stderr, "PROF fresh %s %s limit %d took %d\n", s.tag, out[i], ms, time.Since(t0).Milliseconds())
			}
		}()
	}
	wg.Wait()
	return out
}

// Script renders the current assertion stack as a standalone problem.
func (s *Session) Script() string {
	var b strings.Builder
	for _, d := range s.decls {
		b.WriteString(d)
	}
	for _, f := range s.stack {
		for _, a := range f {
			b.WriteString(a)
		}
	}
	return b.String()
}

var solverSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, idx int, args []string, input string) Result {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return Unknown
	}
	t0 := time.Now()
	c := exec.CommandContext(ctx, args[0], args[1:]...)
	c.Stdin = strings.NewReader(input)
	out, _ := c.Output()
	atomic.AddInt64(&solverTime[idx], int64(time.Since(t0)))
	atomic.AddInt64(&solverCount[idx], 1)
	for _, l := range strings.Split(string(out), "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return Unsat
		case "sat":
			return Sat
		}
	}
	return Unknown
}

// Portfolio tries a standalone problem with several back ends.
func Portfolio(pre, body string, secs int, realOnly, ieeeOnly bool) (Result, string) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	type ans struct {
		r Result
		n string
	}
	ieee := pre + body + "(check-sat)\n"
	real := preludeReal + body + "(check-sat)\n"
	if realOnly {
		real = pre + body + "(check-sat)\n"
	}
	jobs := []struct {
		idx   int
		args  []string
		input string
	}{
		{solZ3New, []string{"z3-new", "-in", fmt.Sprintf("-T:%d", secs)}, z3opts + ieee},
		{solReal, []string{"z3-new", "-in", fmt.Sprintf("-T:%d", secs)}, z3opts + real},
		{solZ3Old, []string{"z3", "-in", fmt.Sprintf("-T:%d", secs)}, z3opts + ieee},
		{solCVC5, []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)}, "(set-logic ALL)\n" + ieee},
	}
	if ieeeOnly {
		jobs = append(jobs[:1:1], jobs[2:]...)
	}
	if realOnly {
		jobs = jobs[1:2]
		jobs = append(jobs, jobs[0], jobs[0])
		jobs[1].idx, jobs[1].args, jobs[1].input = solZ3Old, []string{"z3", "-in", fmt.Sprintf("-T:%d", secs)}, z3opts+real
		jobs[2].idx, jobs[2].args, jobs[2].input = solCVC5, []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)}, "(set-logic ALL)\n"+real
	}
	ch := make(chan ans, len(jobs))
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ch <- ans{runSolver(ctx, j.idx, j.args, j.input), solverNames[j.idx]}
		}()
	}
	go func() { wg.Wait(); close(ch) }()
	for a := range ch {
		if a.r == Unsat {
			return Unsat, a.n
		}
	}
	return Unknown, ""
}

var preludeIEEE, preludeReal string
