package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one incremental SMT process. Terms are defined lazily with
// define-fun at the scope where they are first used.
type Solver struct {
	tt      *TermTab
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     bytes.Buffer
	defined map[uint32]int // term id -> level defined
	byLevel [][]uint32
	level   int

	queries  int
	sat      int
	unsat    int
	unknown  int
	dur      time.Duration
	log      *bytes.Buffer
	timeout  int // ms
	deadline time.Time
}

const solverBin = "z3-new"

func newSolver(tt *TermTab, timeoutMs int) (*Solver, error) {
	s := &Solver{timeout: timeoutMs, tt: tt, defined: map[uint32]int{}, byLevel: [][]uint32{nil}}
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2", fmt.Sprintf("-t:%d", timeoutMs))
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.w("(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
	return s, nil
}

func (s *Solver) w(x string) { s.buf.WriteString(x) }
func (s *Solver) flush() error {
	_, err := s.in.Write(s.buf.Bytes())
	s.buf.Reset()
	return err
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) def(t *Term) {
	if t.op == OConst {
		return
	}
	if _, ok := s.defined[t.id]; ok {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		kids := [3]*Term{f.t.a, f.t.b, f.t.c}
		adv := false
		for f.i < 3 {
			k := kids[f.i]
			f.i++
			if k == nil || k.op == OConst {
				continue
			}
			if _, ok := s.defined[k.id]; ok {
				continue
			}
			st = append(st, fr{k, 0})
			adv = true
			break
		}
		if adv {
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if _, ok := s.defined[x.id]; ok {
			continue
		}
		s.defined[x.id] = s.level
		s.byLevel[s.level] = append(s.byLevel[s.level], x.id)
		if x.op == OVar {
			s.w(fmt.Sprintf("(declare-const %s %s)\n", leaf(x), sortOf(x)))
			if x.w > 0 {
				if x.lo > 0 {
					s.w(fmt.Sprintf("(assert (bvuge %s (_ bv%d %d)))\n", leaf(x), x.lo, x.w))
				}
				if x.hi < mask(x.w) {
					s.w(fmt.Sprintf("(assert (bvule %s (_ bv%d %d)))\n", leaf(x), x.hi, x.w))
				}
			}
			continue
		}
		s.w("(define-fun " + leaf(x) + " () " + sortOf(x) + " " + body(x) + ")\n")
	}
}

func (s *Solver) Push() {
	s.w("(push 1)\n")
	s.level++
	s.byLevel = append(s.byLevel, nil)
}

func (s *Solver) Pop() {
	s.w("(pop 1)\n")
	for _, id := range s.byLevel[s.level] {
		delete(s.defined, id)
	}
	s.byLevel = s.byLevel[:s.level]
	s.level--
}

func (s *Solver) Assert(t *Term) {
	s.def(t)
	s.w("(assert " + leaf(t) + ")\n")
}

type satResult int

const (
	rUnsat satResult = iota
	rSat
	rUnknown
)

// Check tests PC ∧ t. On sat and wantModel it returns a model for all known vars.
func (s *Solver) Check(t *Term, wantModel bool) (satResult, Model) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	if !s.deadline.IsZero() {
		left := time.Until(s.deadline)
		if left <= 0 {
			s.unknown++
			return rUnknown, nil
		}
		if ms := int(left.Milliseconds()) + 500; ms < s.timeout {
			s.timeout = ms
			s.w(fmt.Sprintf("(set-option :timeout %d)\n", ms))
		}
	}
	s.Push()
	if t != nil {
		s.Assert(t)
	}
	s.w("(check-sat)\n")
	var res satResult
	var md Model
	if err := s.flush(); err != nil {
		s.unknown++
		s.Pop()
		return rUnknown, nil
	}
	line, err := s.readLine()
	switch {
	case err != nil:
		res = rUnknown
	case line == "sat":
		res = rSat
	case line == "unsat":
		res = rUnsat
	default:
		res = rUnknown
		if strings.HasPrefix(line, "(error") {
			fmt.Println("# solver error:", line)
		}
	}
	if res == rSat && wantModel {
		md = s.model()
		if md == nil {
			res = rUnknown
		}
	}
	switch res {
	case rSat:
		s.sat++
	case rUnsat:
		s.unsat++
	default:
		s.unknown++
	}
	s.Pop()
	return res, md
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) model() Model {
	md := Model{}
	var vs []*Term
	for _, v := range s.tt.vars {
		if _, ok := s.defined[v.id]; ok {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return md
	}
	s.w("(get-value (")
	for _, v := range vs {
		s.w(leaf(v) + " ")
	}
	s.w("))\n")
	if s.flush() != nil {
		return nil
	}
	// read a balanced s-expression
	var sb strings.Builder
	depth := 0
	started := false
	for !started || depth > 0 {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		sb.WriteByte(b)
	}
	txt := sb.String()
	if strings.Contains(txt, "error") {
		return nil
	}
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	byName := map[string]*Term{}
	for _, v := range vs {
		byName[leaf(v)] = v
	}
	for i := 0; i < len(toks); i++ {
		v, ok := byName[toks[i]]
		if !ok || i+1 >= len(toks) {
			continue
		}
		x := toks[i+1]
		switch {
		case x == "true":
			md[v] = 1
		case x == "false":
			md[v] = 0
		case strings.HasPrefix(x, "#x"):
			n, _ := strconv.ParseUint(x[2:], 16, 64)
			md[v] = n
		case strings.HasPrefix(x, "#b"):
			n, _ := strconv.ParseUint(x[2:], 2, 64)
			md[v] = n
		case x == "_" && i+2 < len(toks) && strings.HasPrefix(toks[i+2], "bv"):
			n, _ := strconv.ParseUint(toks[i+2][2:], 10, 64)
			md[v] = n
		default:
			return nil
		}
		i++
	}
	return md
}
