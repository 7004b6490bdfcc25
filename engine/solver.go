package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Solver wraps one interactive SMT solver process.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	defined map[uint32]bool
	varsDef map[string]bool
	sb      strings.Builder
	depth   int
	// stats
	nSat, nUnsat, nUnknown int
	time                   time.Duration
	timeoutMS              int
	prog                   string
	dead                   bool
	log                    io.Writer
}

func newSolver(prog string, timeoutMS int) (*Solver, error) {
	s := &Solver{timeoutMS: timeoutMS, prog: prog}
	return s, s.start()
}

func (s *Solver) start() error {
	var args []string
	switch {
	case strings.Contains(s.prog, "cvc5"):
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=" + strconv.Itoa(s.timeoutMS)}
	default:
		args = []string{"-in", "-smt2"}
	}
	s.cmd = exec.Command(s.prog, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if !strings.Contains(s.prog, "cvc5") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeoutMS)
	} else {
		fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	}
	if d := os.Getenv("GOSYM_SMTLOG"); d != "" && s.log == nil {
		f, _ := os.CreateTemp(d, "q*.smt2")
		s.log = f
	}
	s.defined = map[uint32]bool{}
	s.varsDef = map[string]bool{}
	s.depth = 0
	s.dead = false
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// reset starts a new path.
func (s *Solver) reset() {
	if s.depth > 0 {
		s.send("(pop 1)\n")
		s.depth = 0
	}
	s.send("(push 1)\n")
	s.depth = 1
	clear(s.defined)
	clear(s.varsDef)
}

func (s *Solver) send(t string) {
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	s.in.WriteString(t)
}

// define emits definitions for all sub-expressions of e.
func (s *Solver) define(e *Expr) {
	if e.op == OConst {
		return
	}
	if e.op == OVar {
		if !s.varsDef[e.name] {
			s.varsDef[e.name] = true
			s.send("(declare-fun " + e.name + " () " + sortName(e.w) + ")\n")
		}
		return
	}
	if s.defined[e.id] {
		return
	}
	s.defined[e.id] = true
	for _, a := range e.a {
		if a != nil {
			s.define(a)
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(define-fun e%d () %s ", e.id, sortName(e.w))
	e.body(&sb)
	sb.WriteString(")\n")
	s.send(sb.String())
}

func (s *Solver) check() SatRes {
	t0 := time.Now()
	s.send("(check-sat)\n")
	s.in.Flush()
	line, err := s.out.ReadString('\n')
	s.time += time.Since(t0)
	if s.log != nil {
		fmt.Fprintf(s.log, "; %s %v\n", strings.TrimSpace(line), time.Since(t0))
	}
	if err != nil {
		s.dead = true
		s.nUnknown++
		return Unknown
	}
	switch strings.TrimSpace(line) {
	case "sat":
		s.nSat++
		return Sat
	case "unsat":
		s.nUnsat++
		return Unsat
	}
	if strings.HasPrefix(line, "(error") {
		fmt.Println("SOLVER ERROR:", line)
	}
	s.nUnknown++
	return Unknown
}

// checkWith checks cons plus cond; on sat returns a model of their variables.
func (s *Solver) checkWith(cons []*Expr, cond *Expr) (SatRes, map[string]uint64) {
	for _, c := range cons {
		s.define(c)
	}
	s.define(cond)
	s.send("(push 1)\n")
	var sb strings.Builder
	as := func(c *Expr) {
		sb.WriteString("(assert ")
		c.ref(&sb)
		sb.WriteString(")\n")
	}
	for _, c := range cons {
		as(c)
	}
	as(cond)
	s.send(sb.String())
	r := s.check()
	var m map[string]uint64
	if r == Sat {
		seen := map[*Expr]bool{}
		var vars []*Expr
		for _, c := range cons {
			vars = collectVars(c, seen, vars)
		}
		vars = collectVars(cond, seen, vars)
		m = s.model(vars)
		if m == nil {
			r = Unknown
		}
	}
	s.send("(pop 1)\n")
	return r, m
}

func collectVars(e *Expr, seen map[*Expr]bool, out []*Expr) []*Expr {
	if e.op == OConst || seen[e] {
		return out
	}
	seen[e] = true
	if e.op == OVar {
		return append(out, e)
	}
	for _, a := range e.a {
		if a != nil {
			out = collectVars(a, seen, out)
		}
	}
	return out
}

func (s *Solver) model(vars []*Expr) map[string]uint64 {
	m := make(map[string]uint64, len(vars))
	var sb strings.Builder
	n := 0
	sb.WriteString("(get-value (")
	for _, v := range vars {
		if s.varsDef[v.name] {
			sb.WriteString(v.name)
			sb.WriteByte(' ')
			n++
		}
	}
	sb.WriteString("))\n")
	if n == 0 {
		return m
	}
	s.send(sb.String())
	s.in.Flush()
	depth := 0
	var txt strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return nil
		}
		txt.WriteString(line)
		for _, c := range line {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		if depth == 0 {
			break
		}
	}
	t := txt.String()
	if strings.HasPrefix(t, "(error") {
		fmt.Println("SOLVER ERROR:", t)
		return nil
	}
	f := strings.FieldsFunc(t, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' })
	for i := 0; i+1 < len(f); {
		name := f[i]
		val := f[i+1]
		i += 2
		switch {
		case val == "true":
			m[name] = 1
		case val == "false":
			m[name] = 0
		case strings.HasPrefix(val, "#x"):
			v, _ := strconv.ParseUint(val[2:], 16, 64)
			m[name] = v
		case strings.HasPrefix(val, "#b"):
			v, _ := strconv.ParseUint(val[2:], 2, 64)
			m[name] = v
		case val == "_":
			v, _ := strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
			m[name] = v
			i += 2
		default:
			return nil
		}
	}
	return m
}
