package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// One SMT solver process driven over a pipe, incremental per path.

type Solver struct {
	cmd       *exec.Cmd
	in        *bufio.Writer
	inw       io.WriteCloser
	out       *bufio.Reader
	emitted   map[uint32]bool
	declared  []*Expr
	inPath    bool
	bin       string
	args      []string
	timeoutMs int
	log       *os.File
	// transcript of the current path (for cross-checking with another solver)
	keep   bool
	script strings.Builder
}

var (
	statQueries  int64
	statSat      int64
	statUnsat    int64
	statUnknown  int64
	statSolverNs int64
)

var solverBin = "z3-new"

func NewSolver(timeoutMs int) *Solver {
	s := &Solver{bin: solverBin, timeoutMs: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeoutMs)}
	}
	s.cmd = exec.Command(s.bin, args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.inPath = false
	if fn := os.Getenv("VF_SMTLOG"); fn != "" && s.log == nil {
		s.log, _ = os.OpenFile(fn, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	}
	if !strings.Contains(s.bin, "cvc5") {
		s.send("(set-option :print-success false)")
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeoutMs))
	}
	s.send("(set-logic QF_BV)")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.log != nil {
		s.log.WriteString(l + "\n")
	}
}

func (s *Solver) readLine() (string, error) {
	s.in.Flush()
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

func (s *Solver) BeginPath() {
	if s.inPath {
		s.send("(pop 1)")
	}
	s.send("(push 1)")
	s.inPath = true
	s.emitted = map[uint32]bool{}
	s.declared = s.declared[:0]
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func ref(e *Expr) string {
	if e.op == OpConst {
		if e.w == 0 {
			if e.k == 1 {
				return "true"
			}
			return "false"
		}
		if e.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(e.w/4), e.k)
		}
		return fmt.Sprintf("#b%0*b", int(e.w), e.k)
	}
	if e.op == OpVar {
		return "v" + strconv.Itoa(int(e.id))
	}
	return "e" + strconv.Itoa(int(e.id))
}

func (s *Solver) define(e *Expr) {
	if e == nil || e.op == OpConst || s.emitted[e.id] {
		return
	}
	if e.op == OpVar {
		s.emitted[e.id] = true
		s.declared = append(s.declared, e)
		s.send("(declare-const " + ref(e) + " " + sortOf(e.w) + ")")
		return
	}
	// iterative for deep left chains
	s.define(e.a)
	s.define(e.b)
	s.define(e.c)
	s.emitted[e.id] = true
	var body string
	switch e.op {
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", int(e.k)+int(e.w)-1, e.k, ref(e.a))
	case OpZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, ref(e.a))
	case OpSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, ref(e.a))
	default:
		body = "(" + opNames[e.op] + " " + ref(e.a)
		if e.b != nil {
			body += " " + ref(e.b)
		}
		if e.c != nil {
			body += " " + ref(e.c)
		}
		body += ")"
	}
	s.send("(define-fun " + ref(e) + " () " + sortOf(e.w) + " " + body + ")")
}

func (s *Solver) Assert(e *Expr) {
	s.define(e)
	s.send("(assert " + ref(e) + ")")
}

type satRes int

const (
	rUnsat satRes = iota
	rSat
	rUnknown
)

// Check asks whether the asserted path condition together with e is satisfiable.
func (s *Solver) Check(e *Expr, wantModel bool) (satRes, map[string]uint64) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&statSolverNs, int64(time.Since(t0))) }()
	atomic.AddInt64(&statQueries, 1)
	if e != nil {
		s.define(e)
		s.send("(push 1)")
		s.send("(assert " + ref(e) + ")")
	}
	s.send("(check-sat)")
	l, err := s.readLine()
	res := rUnknown
	var model map[string]uint64
	switch {
	case err != nil:
		atomic.AddInt64(&statUnknown, 1)
		panic(&engineError{"solver died: " + err.Error()})
	case l == "sat":
		res = rSat
		atomic.AddInt64(&statSat, 1)
		if wantModel {
			model = s.getModel()
		}
	case l == "unsat":
		res = rUnsat
		atomic.AddInt64(&statUnsat, 1)
	case l == "unknown" || l == "timeout":
		atomic.AddInt64(&statUnknown, 1)
	default:
		panic(&engineError{"solver said: " + l})
	}
	if e != nil {
		s.send("(pop 1)")
	}
	return res, model
}

func (s *Solver) getModel() map[string]uint64 {
	m := make(map[string]uint64, len(s.declared))
	if len(s.declared) == 0 {
		return m
	}
	const batch = 200
	for i := 0; i < len(s.declared); i += batch {
		j := i + batch
		if j > len(s.declared) {
			j = len(s.declared)
		}
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, v := range s.declared[i:j] {
			b.WriteString(ref(v))
			b.WriteByte(' ')
		}
		b.WriteString("))")
		s.send(b.String())
		// read balanced s-expression
		s.in.Flush()
		depth := 0
		started := false
		var txt strings.Builder
		for !started || depth > 0 {
			ch, err := s.out.ReadByte()
			if err != nil {
				panic(&engineError{"solver died in get-value"})
			}
			if ch == '(' {
				depth++
				started = true
			} else if ch == ')' {
				depth--
			}
			txt.WriteByte(ch)
		}
		t := txt.String()
		if strings.Contains(t, "error") {
			panic(&engineError{"solver said: " + t})
		}
		// tokens
		f := strings.FieldsFunc(t, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' })
		if len(f) != 2*(j-i) {
			panic(&engineError{"bad get-value answer: " + t})
		}
		for k, v := range s.declared[i:j] {
			val := f[2*k+1]
			var x uint64
			switch {
			case val == "true":
				x = 1
			case val == "false":
				x = 0
			case strings.HasPrefix(val, "#x"):
				x, _ = strconv.ParseUint(val[2:], 16, 64)
			case strings.HasPrefix(val, "#b"):
				x, _ = strconv.ParseUint(val[2:], 2, 64)
			default:
				panic(&engineError{"bad value " + val})
			}
			m[v.name] = x
		}
	}
	return m
}

type engineError struct{ msg string }

func (e *engineError) Error() string { return e.msg }
