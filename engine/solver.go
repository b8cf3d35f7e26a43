package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Solver is one z3 process spoken to in SMT-LIB over a pipe.
type Solver struct {
	cmd                          *exec.Cmd
	in                           io.WriteCloser
	w                            *bufio.Writer
	r                            *bufio.Reader
	gen                          uint32 // definitions in the process belong to this generation
	defined                      int
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	dead                         bool
	log                          func(string)
}

// solverCmd is the newer z3 where there are two.
var solverCmd = func() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}()

func newSolver() (*Solver, error) {
	s := &Solver{}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(solverCmd, "-in", "-smt2", "-t:20000")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.w = bufio.NewWriterSize(s.in, 1<<16)
	s.r = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.defined = 0
	// definitions are global: they stay when a query is popped
	s.w.WriteString("(set-option :global-declarations true)\n(set-logic QF_BV)\n")
	return nil
}

// newGen forgets all definitions.
func (s *Solver) newGen() {
	if s.defined > 0 {
		s.close()
		if err := s.start(); err != nil {
			s.dead = true
		}
	}
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// define makes sure that the process knows e and what it is made of.
func (s *Solver) define(e *Expr) {
	if e == nil || e.op == OConst || e.defd == s.gen {
		return
	}
	s.define(e.a)
	s.define(e.b)
	s.define(e.c)
	e.defd = s.gen
	s.defined++
	if e.op == OVar {
		fmt.Fprintf(s.w, "(declare-const %s %s)\n", ref(e), sortOf(e.w))
		return
	}
	fmt.Fprintf(s.w, "(define-fun %s () %s %s)\n", ref(e), sortOf(e.w), body(e))
}

type result int

const (
	rUnsat result = iota
	rSat
	rUnknown
)

// check decides the conjunction of cs; on sat it returns values for vars.
func (s *Solver) check(cs []*Expr, vars []*Expr) (result, []uint64) {
	if s.dead {
		s.Unknown++
		return rUnknown, nil
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if slowDump != "" && d > 2*time.Second {
			dumpQuery(cs, d)
		}
	}()
	if s.defined > 200000 {
		s.close()
		if err := s.start(); err != nil {
			s.dead = true
			return rUnknown, nil
		}
	}
	s.Queries++
	for _, c := range cs {
		s.define(c)
	}
	for _, v := range vars {
		s.define(v)
	}
	s.w.WriteString("(push 1)\n")
	for _, c := range cs {
		s.w.WriteString("(assert ")
		s.w.WriteString(ref(c))
		s.w.WriteString(")\n")
	}
	s.w.WriteString("(check-sat)\n")
	proc := s.cmd.Process
	guard := time.AfterFunc(45*time.Second, func() { proc.Kill() })
	defer guard.Stop()
	s.w.Flush()
	line, err := s.r.ReadString('\n')
	if err != nil {
		s.fail()
		return rUnknown, nil
	}
	line = strings.TrimSpace(line)
	res := rUnknown
	switch {
	case line == "sat":
		res = rSat
	case line == "unsat":
		res = rUnsat
	case strings.HasPrefix(line, "(error"):
		if s.log != nil {
			s.log(line)
		}
		s.fail()
		return rUnknown, nil
	}
	var vals []uint64
	if res == rSat && len(vars) > 0 {
		s.w.WriteString("(get-value (")
		for _, v := range vars {
			s.w.WriteString(ref(v))
			s.w.WriteByte(' ')
		}
		s.w.WriteString("))\n")
		s.w.Flush()
		depth := 0
		var sb strings.Builder
		for {
			b, err := s.r.ReadByte()
			if err != nil {
				s.fail()
				return rUnknown, nil
			}
			if b == '(' {
				depth++
			}
			if b == ')' {
				depth--
			}
			sb.WriteByte(b)
			if b == '\n' && depth == 0 {
				break
			}
		}
		vals = make([]uint64, len(vars))
		toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(sb.String()))
		if len(toks) != 2*len(vars) {
			if s.log != nil {
				s.log("bad model: " + sb.String())
			}
			s.fail()
			return rUnknown, nil
		}
		for i := range vars {
			t := toks[2*i+1]
			var v uint64
			switch {
			case t == "true":
				v = 1
			case t == "false":
				v = 0
			case strings.HasPrefix(t, "#x"):
				v, _ = strconv.ParseUint(t[2:], 16, 64)
			case strings.HasPrefix(t, "#b"):
				v, _ = strconv.ParseUint(t[2:], 2, 64)
			}
			vals[i] = v
		}
	}
	s.w.WriteString("(pop 1)\n")
	switch res {
	case rSat:
		s.Sat++
	case rUnsat:
		s.Unsat++
	default:
		s.Unknown++
	}
	return res, vals
}

func (s *Solver) fail() {
	s.Unknown++
	s.close()
	if err := s.start(); err != nil {
		s.dead = true
	}
}

// slowDump is where slow queries are written, for debugging.
var slowDump string
var slowN int32

func dumpQuery(cs []*Expr, d time.Duration) {
	n := atomic.AddInt32(&slowN, 1)
	if n > 20 {
		return
	}
	var sb strings.Builder
	seen := map[*Expr]bool{}
	var def func(e *Expr)
	def = func(e *Expr) {
		if e == nil || seen[e] {
			return
		}
		seen[e] = true
		def(e.a)
		def(e.b)
		def(e.c)
		switch e.op {
		case OConst:
		case OVar:
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", ref(e), sortOf(e.w))
		default:
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", ref(e), sortOf(e.w), body(e))
		}
	}
	for _, c := range cs {
		def(c)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(c))
	}
	fmt.Fprintf(&sb, "(check-sat)\n; %v\n", d)
	os.WriteFile(fmt.Sprintf("%s.%d.smt2", slowDump, n), []byte(sb.String()), 0o644)
}
