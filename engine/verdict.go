package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// The verdict tree merges all explored paths of a harness into one formula over
// its inputs, free choices and schedule variables. Symbolic execution decides
// paths one by one; the verdict query hands the merged formula to the solver:
// is there any assignment within the bounds that violates an assertion or that
// no explored path covers? "unsat" is the answer reported.

type vkind uint8

const (
	vOpen   vkind = iota // not explored (yet)
	vPass                // the path ended and every assertion held
	vCut                 // outside the bounds (assumption false, step/sleep budget)
	vFail                // violation
	vBranch              // kids[1] if t, else kids[0]
	vEq                  // kids[1] if t == val, else kids[0]
	vChoose              // kids[i] if t == i; other values are outside the domain
	vAssume              // kids[0] if t, else outside the domain
	vAssert              // kids[0] if t, else a violation
)

type vnode struct {
	kind vkind
	t    *Term
	val  uint64
	size int32
	kids []*vnode
}

// vstep moves to the node of the current decision, creating it when the path is
// the first to reach it.
func (m *Machine) vstep(kind vkind, t *Term, val uint64, nkids int, take int) {
	n := m.node
	if n == nil {
		return
	}
	if n.kind == vOpen {
		n.t, n.val = t, val
		n.kids = make([]*vnode, nkids)
		n.kind = kind
		m.ex.count(&m.ex.vnodes, 1)
	}
	if n.kids[take] == nil {
		n.kids[take] = &vnode{}
	}
	m.node = n.kids[take]
}

// vfork makes the sibling that is left to another path.
func (m *Machine) vfork(kind vkind, t *Term, val uint64, nkids int, other int) {
	n := m.node
	if n == nil {
		return
	}
	if n.kind == vOpen {
		n.t, n.val = t, val
		n.kids = make([]*vnode, nkids)
		n.kind = kind
		m.ex.count(&m.ex.vnodes, 1)
	}
	if n.kids[other] == nil {
		n.kids[other] = &vnode{}
	}
}

func (m *Machine) vleaf(k endKind) {
	n := m.node
	if n == nil || n.kind != vOpen {
		return
	}
	switch k {
	case endNormal, endSkip:
		n.kind = vPass
	case endViolation:
		n.kind = vFail
	default:
		n.kind = vCut
	}
}

type verdictStats struct {
	Nodes   int64
	Queries int
	Time    time.Duration
	Result  string
	Second  string
	Asserts int
}

const vchunk = 120_000

// verdict discharges the merged formula.
func (ex *Explorer) verdict(second bool) (st verdictStats) {
	start := time.Now()
	st.Nodes = ex.vnodes
	if ex.root == nil || ex.vnodes > 6_000_000 {
		st.Result = "skipped (too many paths to merge)"
		return
	}
	b, a := solverCmd()
	q := &vquery{st: &st, bin: b, args: a}
	st.Result = "unsat"
	q.root(ex.root)
	q.stop()
	st.Time = time.Since(start)
	if second && ex.vnodes < 400_000 {
		var st2 verdictStats
		q2 := &vquery{st: &st2, bin: "cvc5", args: []string{"--lang=smt2", "-q"}}
		st2.Result = "unsat"
		q2.root(ex.root)
		q2.stop()
		st.Second = "cvc5: " + st2.Result
	}
	return
}

// vquery emits the formula bottom-up, deciding it in chunks: a subtree decided
// unsat under its path condition counts as false in its parent.
type vquery struct {
	st      *verdictStats
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	pipe    io.Closer
	out     *bufio.Reader
	vars    map[string]uint8
	done    map[*Term]string
	n       int
	live    int
	pending []string
	err     error
}

func (q *vquery) begin() {
	q.stop()
	q.cmd = exec.Command(q.bin, q.args...)
	w, err := q.cmd.StdinPipe()
	if err != nil {
		q.err = err
		return
	}
	r, err := q.cmd.StdoutPipe()
	if err != nil {
		q.err = err
		return
	}
	q.in, q.pipe, q.out = bufio.NewWriterSize(w, 1<<20), w, bufio.NewReader(r)
	if q.err = q.cmd.Start(); q.err != nil {
		q.cmd = nil
		return
	}
	q.vars, q.done, q.live = map[string]uint8{}, map[*Term]string{}, 0
	fmt.Fprint(q.in, "(set-logic QF_BV)\n")
	if strings.Contains(q.bin, "z3") {
		fmt.Fprint(q.in, "(set-option :timeout 120000)\n")
	}
}

func (q *vquery) stop() {
	if q.cmd != nil {
		q.pipe.Close()
		q.cmd.Process.Kill()
		q.cmd.Wait()
		q.cmd = nil
	}
}

type vcond struct {
	n   *vnode
	kid int
}

func (q *vquery) root(n *vnode) {
	measure(n)
	q.split(n, nil)
	q.decide()
}

// measure computes subtree sizes.
func measure(n *vnode) int32 {
	if n == nil {
		return 1
	}
	n.size = 1
	for _, k := range n.kids {
		n.size += measure(k)
	}
	return n.size
}

// split emits subtrees of bounded size, each under its path condition.
func (q *vquery) split(n *vnode, path []vcond) {
	if q.err != nil || n != nil && n.kind <= vCut && len(path) > 0 {
		return
	}
	if n != nil && n.size > vchunk {
		if n.kind == vAssert {
			// the kid is decided separately, the assertion here
			q.add(n, path, true)
		}
		for i, k := range n.kids {
			q.split(k, append(path[:len(path):len(path)], vcond{n, i}))
		}
		return
	}
	q.add(n, path, false)
}

// add appends a disjunct: the subtree fails under its path condition.
func (q *vquery) add(n *vnode, path []vcond, assertOnly bool) {
	if q.cmd == nil {
		q.begin()
	}
	if q.err != nil {
		return
	}
	var sb strings.Builder
	sb.WriteString("(and true")
	for _, c := range path {
		t := q.term(c.n.t)
		switch c.n.kind {
		case vBranch:
			if c.kid == 0 {
				t = "(not " + t + ")"
			}
		case vEq:
			t = "(= " + t + " " + q.konst(c.n.val, c.n.t.w) + ")"
			if c.kid == 0 {
				t = "(not " + t + ")"
			}
		case vChoose:
			t = "(= " + t + " " + q.konst(uint64(c.kid), c.n.t.w) + ")"
		}
		sb.WriteByte(' ')
		sb.WriteString(t)
		q.live++
	}
	var e string
	if assertOnly {
		q.st.Asserts++
		e = "(not " + q.term(n.t) + ")"
	} else {
		e = q.emit(n)
	}
	sb.WriteString(" " + e + ")")
	q.pending = append(q.pending, sb.String())
	if q.live > vchunk {
		q.decide()
	}
}

func (q *vquery) emit(n *vnode) string {
	if n == nil {
		return "true" // infeasible according to the exploration: must be unreachable
	}
	switch n.kind {
	case vOpen, vPass, vCut:
		return "false"
	case vFail:
		return "true"
	}
	es := make([]string, len(n.kids))
	for i, k := range n.kids {
		es[i] = q.emit(k)
	}
	t := q.term(n.t)
	var body string
	switch n.kind {
	case vBranch:
		body = "(ite " + t + " " + es[1] + " " + es[0] + ")"
	case vEq:
		body = "(ite (= " + t + " " + q.konst(n.val, n.t.w) + ") " + es[1] + " " + es[0] + ")"
	case vChoose:
		body = "false"
		for i := len(es) - 1; i >= 0; i-- {
			body = "(ite (= " + t + " " + q.konst(uint64(i), n.t.w) + ") " + es[i] + " " + body + ")"
		}
	case vAssume:
		body = "(and " + t + " " + es[0] + ")"
	case vAssert:
		q.st.Asserts++
		body = "(or (not " + t + ") " + es[0] + ")"
	}
	q.n++
	q.live++
	name := "n" + strconv.Itoa(q.n)
	fmt.Fprintf(q.in, "(define-fun %s () Bool %s)\n", name, body)
	return name
}

func (q *vquery) konst(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v&mask(w), w)
}

func (q *vquery) term(t *Term) string {
	switch t.op {
	case OConst:
		return q.konst(t.val, t.w)
	case OVar:
		nm := "|" + t.name + "|"
		if _, ok := q.vars[nm]; !ok {
			q.vars[nm] = t.w
			fmt.Fprintf(q.in, "(declare-const %s %s)\n", nm, sortName(t.w))
		}
		return nm
	}
	if s, ok := q.done[t]; ok {
		return s
	}
	args := make([]string, len(t.a))
	for i, x := range t.a {
		args[i] = q.term(x)
	}
	q.n++
	q.live++
	name := "t" + strconv.Itoa(q.n)
	fmt.Fprintf(q.in, "(define-fun %s () %s ", name, sortName(t.w))
	switch t.op {
	case OExtract:
		fmt.Fprintf(q.in, "((_ extract %d %d) %s)", t.hi, t.lo, args[0])
	case OSext:
		fmt.Fprintf(q.in, "((_ sign_extend %d) %s)", t.w-t.a[0].w, args[0])
	default:
		fmt.Fprintf(q.in, "(%s %s)", opNames[t.op], strings.Join(args, " "))
	}
	fmt.Fprint(q.in, ")\n")
	q.done[t] = name
	return name
}

// decide asks whether any pending disjunct is satisfiable.
func (q *vquery) decide() {
	if q.err != nil {
		q.st.Result = "error: " + q.err.Error()
		return
	}
	if len(q.pending) == 0 {
		return
	}
	fmt.Fprintf(q.in, "(assert (or false %s))\n(check-sat)\n", strings.Join(q.pending, "\n"))
	q.pending = nil
	if q.err = q.in.Flush(); q.err != nil {
		q.st.Result = "error: " + q.err.Error()
		return
	}
	q.st.Queries++
	res := ""
	for res == "" {
		l, err := q.out.ReadString('\n')
		if err != nil {
			q.err = err
			q.st.Result = "error: " + err.Error()
			return
		}
		res = strings.TrimSpace(l)
	}
	if res != "unsat" && q.st.Result == "unsat" {
		q.st.Result = res
	}
	q.stop()
}
