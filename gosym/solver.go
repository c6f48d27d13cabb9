package main

// One SMT solver process per worker, driven over a pipe with push/pop.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

type SolverStats struct {
	Queries       int
	Sat           int
	Unsat         int
	Unknown       int
	Errors        int
	Time          time.Duration
	Cross         int // unsat verdicts confirmed by a second solver
	CrossDisagree int
}

// solverName: cvc5 decides; z3 is the second opinion.
var solverName = "cvc5"

type Solver struct {
	f       *Factory
	bin     []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	defs    int
	vars    []*Term
	pathPC  []*Term // assertions of the current path (re-sent after a restart)
	active  bool
	Stats   SolverStats
	timeout int // ms per query
	buf     strings.Builder
	log     io.Writer
}

func NewSolver(f *Factory, timeoutMS int) *Solver {
	s := &Solver{f: f, timeout: timeoutMS}
	if solverName == "z3" {
		s.bin = []string{"z3", "-in", "-smt2"}
	} else {
		s.bin = []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", timeoutMS), "-"}
	}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	if d := os.Getenv("GOSYM_LOG"); d != "" {
		s.log, _ = os.CreateTemp(d, "z3-*.smt2")
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.defs = 0
	s.vars = nil
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n")
	if solverName == "z3" {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.timeout)
	}
	s.buf.WriteString("(set-logic QF_BV)\n")
	s.active = false
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// BeginPath opens the assertion scope of a new path.
func (s *Solver) BeginPath() {
	if s.cmd != nil && s.defs > 150000 {
		s.Close()
	}
	s.pathPC = s.pathPC[:0]
	if s.cmd == nil {
		return
	}
	if s.active {
		s.buf.WriteString("(pop)\n")
	}
	s.buf.WriteString("(push)\n")
	s.active = true
}

func (s *Solver) ensure() error {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return err
		}
		s.buf.WriteString("(push)\n")
		s.active = true
		for _, t := range s.pathPC {
			s.emitAssert(t)
		}
	}
	return nil
}

func (s *Solver) def(t *Term) {
	t.define(s.gen, &s.buf, func(v *Term) { s.vars = append(s.vars, v) })
	s.defs++
}

func (s *Solver) emitAssert(t *Term) {
	s.def(t)
	fmt.Fprintf(&s.buf, "(assert %s)\n", t.ref())
}

// Assert adds t to the current path condition.
func (s *Solver) Assert(t *Term) {
	s.pathPC = append(s.pathPC, t)
	if s.cmd != nil {
		s.emitAssert(t)
	}
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// collectVars lists the variables of the path condition and of extra.
func collectVars(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var vs []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			vs = append(vs, t)
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return vs
}

// Check decides PC ∧ extra; on Sat it also returns a model.
func (s *Solver) Check(extra *Term) (Res, Model) {
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	s.Stats.Queries++
	if err := s.ensure(); err != nil {
		s.Stats.Errors++
		return Unknown, nil
	}
	s.buf.WriteString("(push)\n")
	if extra != nil {
		s.emitAssert(extra)
	}
	s.buf.WriteString("(check-sat)\n")
	if !s.flush() {
		return Unknown, nil
	}
	line, ok := s.readLine()
	if !ok {
		s.Stats.Errors++
		s.Close()
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.Stats.Unsat++
		s.buf.WriteString("(pop)\n")
		return Unsat, nil
	case "sat":
		s.Stats.Sat++
		ts := append(append([]*Term{}, s.pathPC...), extra)
		vs := collectVars(ts)
		m := Model{}
		if len(vs) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range vs {
				s.buf.WriteString(v.ref() + " ")
			}
			s.buf.WriteString("))\n")
			if !s.flush() {
				return Unknown, nil
			}
			txt, ok := s.readSexp()
			if !ok || strings.HasPrefix(txt, "(error") {
				s.Stats.Errors++
				s.Close()
				return Unknown, nil
			}
			vals := parseValues(txt)
			for _, v := range vs {
				x, ok := vals[v.ref()]
				if !ok {
					s.Stats.Errors++
					s.Close()
					return Unknown, nil
				}
				m[v.name] = x
			}
		}
		s.buf.WriteString("(pop)\n")
		return Sat, m
	}
	if strings.HasPrefix(line, "(error") {
		s.Stats.Errors++
		fmt.Fprintln(os.Stderr, "solver error:", line)
		s.Close()
		return Unknown, nil
	}
	s.Stats.Unknown++
	s.buf.WriteString("(pop)\n")
	return Unknown, nil
}

func (s *Solver) flush() bool {
	if s.log != nil {
		io.WriteString(s.log, s.buf.String())
	}
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	if err != nil {
		s.Stats.Errors++
		s.Close()
		return false
	}
	return true
}

func (s *Solver) readLine() (string, bool) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", false
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, true
		}
	}
}

func (s *Solver) readSexp() (string, bool) {
	var b strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", false
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		b.WriteByte(c)
		if started && depth == 0 {
			return strings.TrimSpace(b.String()), true
		}
	}
}

func parseValues(txt string) map[string]uint64 {
	res := map[string]uint64{}
	toks := tokenize(txt)
	for i := 0; i+1 < len(toks); i++ {
		if len(toks[i]) > 1 && (toks[i][0] == 'v') {
			v := toks[i+1]
			switch {
			case strings.HasPrefix(v, "#x"):
				var x uint64
				fmt.Sscanf(v[2:], "%x", &x)
				res[toks[i]] = x
			case strings.HasPrefix(v, "#b"):
				var x uint64
				for _, c := range v[2:] {
					x = x<<1 | uint64(c-'0')
				}
				res[toks[i]] = x
			case v == "true":
				res[toks[i]] = 1
			case v == "false":
				res[toks[i]] = 0
			case v == "(" && i+3 < len(toks) && strings.HasPrefix(toks[i+3], "bv"):
				var x uint64
				fmt.Sscanf(toks[i+3][2:], "%d", &x)
				res[toks[i]] = x
			}
		}
	}
	return res
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// Dump renders PC ∧ extra as a standalone SMT-LIB script.
func (s *Solver) Dump(extra *Term) string {
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n")
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || t.op == OConst {
			return
		}
		seen[t] = true
		for _, x := range t.a {
			walk(x)
		}
		if t.op == OVar {
			fmt.Fprintf(&b, "(declare-const %s %s)\n", t.ref(), bvsort(t.w))
		} else {
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", t.ref(), bvsort(t.w), t.expr())
		}
	}
	for _, t := range append(append([]*Term{}, s.pathPC...), extra) {
		if t == nil {
			continue
		}
		walk(t)
		fmt.Fprintf(&b, "(assert %s)\n", t.ref())
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// CrossCheck asks a second solver about PC ∧ extra.
func (s *Solver) CrossCheck(extra *Term, bin []string, timeout time.Duration) Res {
	script := s.Dump(extra)
	cmd := exec.Command(bin[0], bin[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out strings.Builder
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		return Unknown
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return Unknown
	}
	o := strings.TrimSpace(out.String())
	switch {
	case strings.Contains(o, "error"):
		return Unknown
	case strings.HasPrefix(o, "unsat"):
		return Unsat
	case strings.HasPrefix(o, "sat"):
		return Sat
	}
	return Unknown
}
