package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one persistent SMT solver process.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	names   map[int32]string

	queries int64
	sats    int64
	unsats  int64
	unknown int64
	dur     time.Duration
	log     *bufio.Writer
	timeout int
}

var solverBin = "z3-new"

func newSolver(timeoutMs int) (*Solver, error) {
	s := &Solver{timeout: timeoutMs}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	var cmd *exec.Cmd
	if strings.Contains(solverBin, "cvc5") {
		cmd = exec.Command(solverBin, "--incremental", "--lang=smt2", "-q")
	} else {
		cmd = exec.Command(solverBin, "-in", "-smt2")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.inRaw, s.in, s.out = cmd, in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	if lf := os.Getenv("VERIF_SMTLOG"); lf != "" && s.log == nil {
		f, _ := os.CreateTemp(lf, "smt")
		s.log = bufio.NewWriter(f)
	}
	s.send("(set-option :print-success false)")
	s.send("(set-option :produce-models true)")
	if !strings.Contains(solverBin, "cvc5") {
		s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	}
	s.send("(set-logic QF_BV)")
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.log != nil {
		s.log.WriteString(l)
		s.log.WriteByte('\n')
		s.log.Flush()
	}
}

// begin opens a scope for one path.
func (s *Solver) begin() {
	s.defined = map[int32]bool{}
	s.send("(push 1)")
}

func (s *Solver) end() { s.send("(pop 1)") }

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return t.smtConst()
	}
	if t.op == OVar {
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define makes sure t is defined in the current scope.
func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	// iterative post-order for deep terms
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		kids := [3]*Term{f.t.a, f.t.b, f.t.c}
		if f.t.op == OConst || s.defined[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		pushed := false
		for f.i < 3 {
			k := kids[f.i]
			f.i++
			if k != nil && k.op != OConst && !s.defined[k.id] {
				st = append(st, fr{k, 0})
				pushed = true
				break
			}
		}
		if pushed {
			continue
		}
		u := f.t
		st = st[:len(st)-1]
		s.defined[u.id] = true
		switch u.op {
		case OVar:
			s.send("(declare-const " + s.ref(u) + " " + u.sort() + ")")
		case OExtract:
			s.send(fmt.Sprintf("(define-fun %s () %s ((_ extract %d %d) %s))", s.ref(u), u.sort(), u.val>>8, u.val&255, s.ref(u.a)))
		case OSExt:
			s.send(fmt.Sprintf("(define-fun %s () %s ((_ sign_extend %d) %s))", s.ref(u), u.sort(), u.w-u.a.w, s.ref(u.a)))
		default:
			var sb strings.Builder
			sb.WriteString("(define-fun ")
			sb.WriteString(s.ref(u))
			sb.WriteString(" () ")
			sb.WriteString(u.sort())
			sb.WriteString(" (")
			sb.WriteString(opNames[u.op])
			for _, k := range []*Term{u.a, u.b, u.c} {
				if k != nil {
					sb.WriteByte(' ')
					sb.WriteString(s.ref(k))
				}
			}
			sb.WriteString("))")
			s.send(sb.String())
		}
	}
}

func (s *Solver) assert(t *Term) {
	s.define(t)
	s.send("(assert " + s.ref(t) + ")")
}

type satRes int

const (
	unsat satRes = iota
	sat
	unknown
)

// check decides the asserted constraints plus extra (may be nil); on sat, reads a model for vars.
func (s *Solver) check(extra *Term, vars []*Term) (satRes, *Model, error) {
	start := time.Now()
	defer func() { s.dur += time.Since(start) }()
	s.queries++
	if extra != nil {
		s.define(extra)
		s.send("(push 1)")
		s.send("(assert " + s.ref(extra) + ")")
	}
	s.send("(check-sat)")
	s.in.Flush()
	// z3 does not watch its own time limit everywhere
	proc := s.cmd.Process
	w := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+5*time.Second, func() { proc.Kill() })
	defer w.Stop()
	line, err := s.readLine()
	if err != nil {
		return unknown, nil, err
	}
	var res satRes
	var m *Model
	switch line {
	case "sat":
		res = sat
		s.sats++
		m, err = s.model(vars)
		if err != nil {
			return unknown, nil, err
		}
	case "unsat":
		res = unsat
		s.unsats++
	case "unknown", "timeout":
		res = unknown
		s.unknown++
	default:
		return unknown, nil, fmt.Errorf("solver: %s", line)
	}
	if extra != nil {
		s.send("(pop 1)")
	}
	return res, m, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", fmt.Errorf("solver died: %v", err)
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		return l, nil
	}
}

func (s *Solver) model(vars []*Term) (*Model, error) {
	m := &Model{memo: map[*Term]uint64{}, v: make([]uint64, len(vars))}
	var q []*Term
	for _, v := range vars {
		if s.defined[v.id] {
			q = append(q, v)
		}
	}
	if len(q) == 0 {
		return m, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range q {
		sb.WriteString(s.ref(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))")
	s.send(sb.String())
	s.in.Flush()
	// read a balanced s-expression
	depth, started := 0, false
	var txt strings.Builder
	for !started || depth > 0 {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		txt.WriteByte(b)
	}
	toks := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	if len(toks) > 0 && toks[0] == "error" {
		return nil, fmt.Errorf("solver: %s", txt.String())
	}
	vals := map[string]uint64{}
	for i := 0; i+1 < len(toks); i += 2 {
		v := toks[i+1]
		var n uint64
		var err error
		switch {
		case v == "true":
			n = 1
		case v == "false":
			n = 0
		case strings.HasPrefix(v, "#x"):
			n, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			n, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			return nil, fmt.Errorf("model value %q in %s", v, txt.String())
		}
		if err != nil {
			return nil, err
		}
		vals[toks[i]] = n
	}
	for _, v := range q {
		m.v[v.val] = vals[s.ref(v)]
	}
	return m, nil
}

// reset clears counters between harnesses.
func (s *Solver) reset() {
	s.queries, s.sats, s.unsats, s.unknown, s.dur = 0, 0, 0, 0, 0
}

// restart replaces a broken solver process.
func (s *Solver) restart() {
	s.close()
	if err := s.start(); err != nil {
		fail("solver: %v", err)
	}
	s.defined = map[int32]bool{}
}
