package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one solver process over SMT-LIB2 text.
type Solver struct {
	tm      *TM
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	buf     bytes.Buffer
	gen     int32
	cache   map[string]cached
	Queries int64
	Hits    int64
	Sat     int64
	Unsat   int64
	Unknown int64
	Time    time.Duration
	Maxq    time.Duration
	timeout int
	dump    io.Writer
	live    int
}

type cached struct {
	res   int // 1 sat, 0 unsat, -1 unknown
	model map[int32]uint64
}

func solverCmd() (string, []string) {
	b := os.Getenv("GOSYM_SOLVER")
	if b == "" {
		if _, err := exec.LookPath("z3-new"); err == nil {
			b = "z3-new"
		} else {
			b = "z3"
		}
	}
	if strings.Contains(b, "cvc5") {
		return b, []string{"--incremental", "--produce-models", "--lang=smt2", "-q"}
	}
	return b, []string{"-in", "-smt2"}
}

func newSolver(tm *TM) *Solver {
	b, a := solverCmd()
	return &Solver{tm: tm, bin: b, args: a, cache: map[string]cached{}, timeout: 20000}
}

func (s *Solver) start() {
	s.gen++
	s.live = 0
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin, "z3") {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.timeout)
	} else {
		fmt.Fprintf(&s.buf, "(set-option :tlimit-per %d)\n", s.timeout)
	}
	s.buf.WriteString("(set-logic QF_BV)\n")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return "v" + strconv.Itoa(int(t.val))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) define(t *Term) {
	if t.sent == s.gen {
		return
	}
	switch t.op {
	case OConst:
		return
	case OVar:
		fmt.Fprintf(&s.buf, "(declare-const v%d %s)\n", t.val, sortName(t.w))
		t.sent = s.gen
		return
	}
	for _, x := range t.a {
		s.define(x)
	}
	s.live++
	fmt.Fprintf(&s.buf, "(define-fun t%d () %s ", t.id, sortName(t.w))
	switch t.op {
	case OExtract:
		fmt.Fprintf(&s.buf, "((_ extract %d %d) %s)", t.hi, t.lo, s.ref(t.a[0]))
	case OSext:
		fmt.Fprintf(&s.buf, "((_ sign_extend %d) %s)", t.w-t.a[0].w, s.ref(t.a[0]))
	default:
		s.buf.WriteString("(" + opNames[t.op])
		for _, x := range t.a {
			s.buf.WriteByte(' ')
			s.buf.WriteString(s.ref(x))
		}
		s.buf.WriteByte(')')
	}
	s.buf.WriteString(")\n")
	t.sent = s.gen
}

// check decides the conjunction of conds. Result 1 sat (with values for the
// variables of conds), 0 unsat, -1 unknown.
func (s *Solver) check(conds []*Term) (int, map[int32]uint64) {
	sortTerms(conds)
	var kb strings.Builder
	last := int32(-1)
	uniq := conds[:0]
	for _, c := range conds {
		if c.id == last {
			continue
		}
		last = c.id
		uniq = append(uniq, c)
		kb.WriteString(strconv.Itoa(int(c.id)))
		kb.WriteByte(',')
	}
	conds = uniq
	key := kb.String()
	if c, ok := s.cache[key]; ok {
		s.Hits++
		return c.res, c.model
	}
	start := time.Now()
	if s.cmd == nil {
		s.start()
	} else if s.live > 200000 {
		s.close()
		s.start()
	}
	var vars []int32
	for _, c := range conds {
		s.define(c)
		vars = mergeVars(vars, c.vars)
	}
	s.buf.WriteString("(push 1)\n")
	for _, c := range conds {
		s.buf.WriteString("(assert " + s.ref(c) + ")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	s.flush()
	line := s.line()
	res := -1
	var model map[int32]uint64
	switch line {
	case "sat":
		res = 1
		s.Sat++
		model = map[int32]uint64{}
		if len(vars) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&s.buf, "v%d ", v)
			}
			s.buf.WriteString("))\n")
			s.flush()
			s.readValues(model)
		}
	case "unsat":
		res = 0
		s.Unsat++
	case "unknown", "timeout":
		s.Unknown++
	default:
		panic("solver said: " + line)
	}
	s.buf.WriteString("(pop 1)\n")
	d := time.Since(start)
	s.Time += d
	if d > s.Maxq {
		s.Maxq = d
	}
	s.Queries++
	s.cache[key] = cached{res, model}
	return res, model
}

func (s *Solver) flush() {
	if s.dump != nil {
		s.dump.Write(s.buf.Bytes())
	}
	if _, err := s.in.Write(s.buf.Bytes()); err != nil {
		panic(err)
	}
	s.buf.Reset()
}

func (s *Solver) line() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// readValues parses ((v1 #x..) (v2 true) ...)
func (s *Solver) readValues(m map[int32]uint64) {
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic("solver died: " + err.Error())
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "error") {
		panic("solver error: " + txt)
	}
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' || r == '\t' })
	for i := 0; i+1 < len(toks); {
		if toks[i][0] != 'v' {
			panic("bad value token " + toks[i])
		}
		idx, err := strconv.Atoi(toks[i][1:])
		if err != nil {
			panic(err)
		}
		v := toks[i+1]
		i += 2
		var val uint64
		switch {
		case v == "true":
			val = 1
		case v == "false":
			val = 0
		case strings.HasPrefix(v, "#x"):
			val, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			val, err = strconv.ParseUint(v[2:], 2, 64)
		case v == "_":
			val, err = strconv.ParseUint(toks[i][2:], 10, 64)
			i += 2
		default:
			panic("bad value " + v)
		}
		if err != nil {
			panic(err)
		}
		m[int32(idx)] = val
	}
}

func solverName() string {
	b, _ := solverCmd()
	out, err := exec.Command(b, "--version").Output()
	if err != nil {
		return b
	}
	return firstLines(string(out), 1)
}
