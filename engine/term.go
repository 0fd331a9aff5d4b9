package main

// Hash-consed bit-vector / boolean terms with an eager simplifier.

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OSlt
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSext
	OIte
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OIte: "ite"}

// Term is immutable; w==0 means Bool, otherwise a bit-vector of width w (1..64).
type Term struct {
	op     Op
	w      uint8
	hi, lo uint8
	id     int32
	val    uint64
	name   string
	a      []*Term
	vars   []int32 // sorted variable indices

	evMark int64
	evVal  uint64
	sent   int32 // solver generation that has a definition of this term
}

type tkey struct {
	op         Op
	w, hi, lo  uint8
	n          uint8
	val        uint64
	a0, a1, a2 int32
}

// TM is a term manager, owned by exactly one worker.
type TM struct {
	tab    map[tkey]*Term
	ntab   map[string]*Term // n-ary concat with more than 3 args
	vtab   map[string]*Term
	reg    *varReg
	next   int32
	plain  bool // only constant folding: the solver sees the operations as executed
	evGen  int64
	tTrue  *Term
	tFalse *Term
}

// varReg numbers the variables; it is shared by all workers, which hand models
// (keyed by these numbers) to each other.
type varReg struct {
	mu sync.Mutex
	m  map[string]int32
}

func (r *varReg) index(name string) int32 {
	r.mu.Lock()
	defer r.mu.Unlock()
	k, ok := r.m[name]
	if r.m == nil {
		r.m = map[string]int32{}
	}
	if !ok {
		k = int32(len(r.m))
		r.m[name] = k
	}
	return k
}

func newTM(reg *varReg) *TM {
	tm := &TM{reg: reg, tab: map[tkey]*Term{}, ntab: map[string]*Term{}, vtab: map[string]*Term{}}
	tm.tTrue = tm.raw(Term{op: OConst, w: 0, val: 1})
	tm.tFalse = tm.raw(Term{op: OConst, w: 0, val: 0})
	return tm
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast paths
	if len(a) >= len(b) && subset(b, a) {
		return a
	}
	if len(b) > len(a) && subset(a, b) {
		return b
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

func subset(a, b []int32) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j >= len(b) || b[j] != x {
			return false
		}
	}
	return true
}

func (tm *TM) raw(t Term) *Term {
	if len(t.a) > 3 {
		var sb strings.Builder
		for _, x := range t.a {
			fmt.Fprintf(&sb, "%d,", x.id)
		}
		k := sb.String()
		if r, ok := tm.ntab[k]; ok {
			return r
		}
		r := tm.fin(t)
		tm.ntab[k] = r
		return r
	}
	k := tkey{op: t.op, w: t.w, hi: t.hi, lo: t.lo, val: t.val, n: uint8(len(t.a)), a0: -1, a1: -1, a2: -1}
	switch len(t.a) {
	case 3:
		k.a2 = t.a[2].id
		fallthrough
	case 2:
		k.a1 = t.a[1].id
		fallthrough
	case 1:
		k.a0 = t.a[0].id
	}
	if r, ok := tm.tab[k]; ok {
		return r
	}
	r := tm.fin(t)
	tm.tab[k] = r
	return r
}

func (tm *TM) fin(t Term) *Term {
	r := new(Term)
	*r = t
	r.id = tm.next
	tm.next++
	if len(t.a) > 0 {
		r.a = append([]*Term(nil), t.a...)
		for _, x := range t.a {
			r.vars = mergeVars(r.vars, x.vars)
		}
	}
	return r
}

func (tm *TM) Var(name string, w uint8) *Term {
	if t, ok := tm.vtab[name]; ok {
		if t.w != w {
			panic(fmt.Sprintf("var %s redeclared with width %d (was %d)", name, w, t.w))
		}
		return t
	}
	t := new(Term)
	k := tm.reg.index(name)
	*t = Term{op: OVar, w: w, name: name, id: tm.next, val: uint64(k)}
	tm.next++
	t.vars = []int32{k}
	tm.vtab[name] = t
	return t
}

func (tm *TM) Const(v uint64, w uint8) *Term {
	if w == 0 {
		if v != 0 {
			return tm.tTrue
		}
		return tm.tFalse
	}
	return tm.raw(Term{op: OConst, w: w, val: v & mask(w)})
}

func (tm *TM) Bool(b bool) *Term {
	if b {
		return tm.tTrue
	}
	return tm.tFalse
}

func (t *Term) isConst() bool { return t.op == OConst }

// ---- boolean ----

func (tm *TM) Not(a *Term) *Term {
	if a.isConst() {
		return tm.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return tm.raw(Term{op: ONot, a: []*Term{a}})
}

func (tm *TM) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return tm.tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tm.raw(Term{op: OAnd, a: []*Term{a, b}})
}

func (tm *TM) Or(a, b *Term) *Term {
	return tm.Not(tm.And(tm.Not(a), tm.Not(b)))
}

func (tm *TM) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tm.Ite(c.a[0], b, a)
	}
	if a.w == 0 {
		// boolean ite
		return tm.Or(tm.And(c, a), tm.And(tm.Not(c), b))
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	return tm.raw(Term{op: OIte, w: a.w, a: []*Term{c, a, b}})
}

func (tm *TM) Eq(a, b *Term) *Term {
	if a == b {
		return tm.tTrue
	}
	if a.isConst() && b.isConst() {
		return tm.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return tm.Not(a)
		}
		// iff
		return tm.Or(tm.And(a, b), tm.And(tm.Not(a), tm.Not(b)))
	}
	if tm.plain {
		if a.id > b.id {
			a, b = b, a
		}
		return tm.raw(Term{op: OEq, a: []*Term{a, b}})
	}
	// ite with constant leaves vs constant
	if b.op == OIte && a.isConst() {
		a, b = b, a
	}
	if a.op == OIte && b.isConst() {
		x, y := a.a[1], a.a[2]
		if x.isConst() || y.isConst() || x.op == OIte || y.op == OIte {
			return tm.Ite(a.a[0], tm.Eq(x, b), tm.Eq(y, b))
		}
	}
	// add-with-const normalisation: x+c == d
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.op == OAdd && a.a[1].isConst() {
		return tm.Eq(a.a[0], tm.Const(b.val-a.a[1].val, a.w))
	}
	if b.isConst() && a.op == OSext {
		in := a.a[0]
		if uint64(sext64(b.val, in.w))&mask(a.w) != b.val {
			return tm.tFalse
		}
		return tm.Eq(in, tm.Const(b.val, in.w))
	}
	if a.op == OAdd && b.op == OAdd && a.a[1].isConst() && b.a[1].isConst() && a.a[1] == b.a[1] {
		return tm.Eq(a.a[0], b.a[0])
	}
	if a.op == OBnot && b.op == OBnot {
		return tm.Eq(a.a[0], b.a[0])
	}
	if a.op == OBnot && b.isConst() {
		return tm.Eq(a.a[0], tm.Const(^b.val, a.w))
	}
	// split concats
	if a.op == OConcat || b.op == OConcat {
		sa, sb := tm.segs(a), tm.segs(b)
		if len(sa) > 1 || len(sb) > 1 {
			res := tm.tTrue
			i, j := 0, 0
			for i < len(sa) && j < len(sb) {
				x, y := sa[i], sb[j]
				if x.w() == y.w() {
					i++
					j++
				} else if x.w() > y.w() {
					d := x.w() - y.w()
					// take the high part of x
					xh := x.sub(x.w()-1, d)
					sa[i] = x.sub(d-1, 0)
					x = xh
					j++
				} else {
					d := y.w() - x.w()
					yh := y.sub(y.w()-1, d)
					sb[j] = y.sub(d-1, 0)
					y = yh
					i++
				}
				res = tm.And(res, tm.eqSeg(x, y))
				if res.isConst() && res.val == 0 {
					return res
				}
			}
			return res
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tm.raw(Term{op: OEq, a: []*Term{a, b}})
}

func (tm *TM) eqSeg(x, y seg) *Term {
	if x.t == nil && y.t == nil {
		return tm.Bool(x.v == y.v)
	}
	a, b := tm.segTerm(x), tm.segTerm(y)
	if a == b {
		return tm.tTrue
	}
	if a.op == OConcat || b.op == OConcat {
		return tm.Eq(a, b)
	}
	if (a.op == OIte || b.op == OIte || a.op == OSext || b.op == OSext) && (a.isConst() || b.isConst()) {
		return tm.Eq(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tm.raw(Term{op: OEq, a: []*Term{a, b}})
}

// umax returns an upper bound on the unsigned value.
func (tm *TM) umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OConcat:
		lead := t.a[0]
		rest := t.w - lead.w
		m := mask(rest)
		if lead.isConst() {
			return lead.val<<rest | m
		}
	case OIte:
		x, y := tm.umax(t.a[1]), tm.umax(t.a[2])
		if x > y {
			return x
		}
		return y
	case OBand:
		x, y := tm.umax(t.a[0]), tm.umax(t.a[1])
		if x < y {
			return x
		}
		return y
	case OUrem:
		if t.a[1].isConst() && t.a[1].val > 0 {
			return t.a[1].val - 1
		}
	case OUdiv:
		if t.a[1].isConst() && t.a[1].val > 0 {
			return tm.umax(t.a[0]) / t.a[1].val
		}
	case OAdd:
		x, y := tm.umax(t.a[0]), tm.umax(t.a[1])
		if x <= mask(t.w)-y {
			return x + y
		}
	}
	return mask(t.w)
}

func (tm *TM) umin(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OConcat:
		if t.a[0].isConst() {
			return t.a[0].val << (t.w - t.a[0].w)
		}
	case OIte:
		x, y := tm.umin(t.a[1]), tm.umin(t.a[2])
		if x < y {
			return x
		}
		return y
	case OAdd:
		x, y := tm.umax(t.a[0]), tm.umax(t.a[1])
		if x <= mask(t.w)-y {
			return tm.umin(t.a[0]) + tm.umin(t.a[1])
		}
	}
	return 0
}

func (tm *TM) Ult(a, b *Term) *Term {
	if a == b {
		return tm.tFalse
	}
	if a.isConst() && b.isConst() {
		return tm.Bool(a.val < b.val)
	}
	if tm.plain {
		return tm.raw(Term{op: OUlt, a: []*Term{a, b}})
	}
	if tm.umax(a) < tm.umin(b) {
		return tm.tTrue
	}
	if tm.umin(a) >= tm.umax(b) {
		return tm.tFalse
	}
	if b.isConst() && b.val == 1 {
		return tm.Eq(a, tm.Const(0, a.w))
	}
	if a.isConst() && a.val == 0 {
		return tm.Not(tm.Eq(b, a))
	}
	// strip common zero high segments
	if a.op == OConcat && a.a[0].isConst() && a.a[0].val == 0 {
		z := a.a[0].w
		if tm.umax(b) <= mask(b.w-z) {
			return tm.Ult(tm.Extract(a, a.w-z-1, 0), tm.Extract(b, b.w-z-1, 0))
		}
	} else if b.op == OConcat && b.a[0].isConst() && b.a[0].val == 0 {
		z := b.a[0].w
		if tm.umax(a) <= mask(a.w-z) {
			return tm.Ult(tm.Extract(a, a.w-z-1, 0), tm.Extract(b, b.w-z-1, 0))
		}
	}
	if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() || b.op == OIte && b.a[1].isConst() && b.a[2].isConst() {
		if a.op == OIte && b.isConst() {
			return tm.Ite(a.a[0], tm.Ult(a.a[1], b), tm.Ult(a.a[2], b))
		}
		if b.op == OIte && a.isConst() {
			return tm.Ite(b.a[0], tm.Ult(a, b.a[1]), tm.Ult(a, b.a[2]))
		}
	}
	return tm.raw(Term{op: OUlt, a: []*Term{a, b}})
}

func (tm *TM) Slt(a, b *Term) *Term {
	if a == b {
		return tm.tFalse
	}
	if a.isConst() && b.isConst() {
		return tm.Bool(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if tm.plain {
		return tm.raw(Term{op: OSlt, a: []*Term{a, b}})
	}
	half := mask(a.w) >> 1
	if tm.umax(a) <= half && tm.umax(b) <= half {
		return tm.Ult(a, b)
	}
	if b.isConst() && sext64(b.val, b.w) <= 0 && tm.umax(a) <= half {
		return tm.tFalse
	}
	if a.isConst() && sext64(a.val, a.w) < 0 && tm.umax(b) <= half {
		return tm.tTrue
	}
	if a.op == OIte && b.isConst() && (a.a[1].isConst() || a.a[2].isConst()) {
		return tm.Ite(a.a[0], tm.Slt(a.a[1], b), tm.Slt(a.a[2], b))
	}
	if b.op == OIte && a.isConst() && (b.a[1].isConst() || b.a[2].isConst()) {
		return tm.Ite(b.a[0], tm.Slt(a, b.a[1]), tm.Slt(a, b.a[2]))
	}
	return tm.raw(Term{op: OSlt, a: []*Term{a, b}})
}

// ---- segments ----

// seg is bits [hi:lo] of t, or the constant v (of width hi-lo+1) when t is nil.
type seg struct {
	t      *Term
	hi, lo uint8
	v      uint64
}

func (s seg) w() uint8 { return s.hi - s.lo + 1 }

func (s seg) sub(hi, lo uint8) seg {
	if s.t == nil {
		return seg{hi: hi - lo, lo: 0, v: (s.v >> lo) & mask(hi-lo+1)}
	}
	return seg{t: s.t, hi: s.lo + hi, lo: s.lo + lo}
}

// segs returns the segments of t from most to least significant.
func (tm *TM) segs(t *Term) []seg {
	if tm.plain && t.op != OConst {
		return []seg{{t: t, hi: t.w - 1}}
	}
	switch t.op {
	case OConst:
		return []seg{{hi: t.w - 1, v: t.val}}
	case OConcat:
		var r []seg
		for _, x := range t.a {
			r = append(r, tm.segs(x)...)
		}
		return r
	case OExtract:
		return []seg{{t: t.a[0], hi: t.hi, lo: t.lo}}
	}
	return []seg{{t: t, hi: t.w - 1}}
}

func (tm *TM) segTerm(s seg) *Term {
	if s.t == nil {
		return tm.Const(s.v, s.w())
	}
	if s.lo == 0 && s.hi == s.t.w-1 {
		return s.t
	}
	if tm.plain {
		return tm.raw(Term{op: OExtract, w: s.w(), hi: s.hi, lo: s.lo, a: []*Term{s.t}})
	}
	// push extract into bitwise ops / ite
	switch s.t.op {
	case OIte:
		a, b := s.t.a[1], s.t.a[2]
		if a.isConst() || b.isConst() {
			return tm.Ite(s.t.a[0], tm.Extract(a, s.hi, s.lo), tm.Extract(b, s.hi, s.lo))
		}
	case OBand, OBor, OBxor:
		x, y := tm.Extract(s.t.a[0], s.hi, s.lo), tm.Extract(s.t.a[1], s.hi, s.lo)
		return tm.bitop(s.t.op, x, y)
	case OBnot:
		return tm.Bnot(tm.Extract(s.t.a[0], s.hi, s.lo))
	case OAdd, OSub, OMul:
		if s.lo == 0 {
			x, y := tm.Extract(s.t.a[0], s.hi, 0), tm.Extract(s.t.a[1], s.hi, 0)
			switch s.t.op {
			case OAdd:
				return tm.Add(x, y)
			case OSub:
				return tm.Sub(x, y)
			}
			return tm.Mul(x, y)
		}
	case OSext:
		in := s.t.a[0]
		if s.hi < in.w {
			return tm.Extract(in, s.hi, s.lo)
		}
		if s.lo == 0 {
			return tm.Sext(in, s.hi+1)
		}
	}
	return tm.raw(Term{op: OExtract, w: s.w(), hi: s.hi, lo: s.lo, a: []*Term{s.t}})
}

func (tm *TM) mkSegs(ss []seg) *Term {
	// merge
	out := make([]seg, 0, len(ss))
	for _, s := range ss {
		if n := len(out); n > 0 {
			p := &out[n-1]
			if p.t == nil && s.t == nil {
				p.v = p.v<<s.w() | s.v
				p.hi = p.w() + s.w() - 1
				p.lo = 0
				continue
			}
			if p.t != nil && p.t == s.t && p.lo == s.hi+1 {
				p.lo = s.lo
				continue
			}
		}
		if s.t == nil {
			s = seg{hi: s.w() - 1, v: s.v}
		}
		out = append(out, s)
	}
	if len(out) == 1 {
		return tm.segTerm(out[0])
	}
	args := make([]*Term, 0, len(out))
	var w uint8
	flat := false
	for _, s := range out {
		x := tm.segTerm(s)
		if x.op == OConcat || (x.op == OConst && s.t != nil) || (x.op == OExtract && s.t != x.a[0]) {
			flat = true
		}
		args = append(args, x)
		w += x.w
	}
	if flat && !tm.plain {
		var r []seg
		for _, x := range args {
			r = append(r, tm.segs(x)...)
		}
		return tm.mkSegs(r)
	}
	return tm.raw(Term{op: OConcat, w: w, a: args})
}

// sliceSegs takes bits [hi:lo] of the segment list with total width w.
func sliceSegs(ss []seg, w, hi, lo uint8) []seg {
	var r []seg
	top := w
	for _, s := range ss {
		sh, sl := top-1, top-s.w()
		top = sl
		if sl > hi || sh < lo {
			continue
		}
		h, l := sh, sl
		if h > hi {
			h = hi
		}
		if l < lo {
			l = lo
		}
		r = append(r, s.sub(h-sl, l-sl))
	}
	return r
}

func (tm *TM) Extract(t *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	if t.isConst() {
		return tm.Const(t.val>>lo, hi-lo+1)
	}
	return tm.mkSegs(sliceSegs(tm.segs(t), t.w, hi, lo))
}

func (tm *TM) Zext(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return tm.Extract(t, w-1, 0)
	}
	return tm.mkSegs(append([]seg{{hi: w - t.w - 1}}, tm.segs(t)...))
}

func (tm *TM) Sext(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return tm.Extract(t, w-1, 0)
	}
	if t.isConst() {
		return tm.Const(uint64(sext64(t.val, t.w)), w)
	}
	if tm.plain {
		return tm.raw(Term{op: OSext, w: w, a: []*Term{t}})
	}
	if tm.umax(t) <= mask(t.w)>>1 {
		return tm.Zext(t, w)
	}
	if t.op == OSext {
		return tm.Sext(t.a[0], w)
	}
	return tm.raw(Term{op: OSext, w: w, a: []*Term{t}})
}

// ---- arithmetic ----

func (tm *TM) disjointOr(a, b *Term) *Term {
	// returns a|b as segments when known-zero bits make them disjoint, else nil
	if tm.plain {
		return nil
	}
	sa, sb := tm.segs(a), tm.segs(b)
	if len(sa) == 1 && len(sb) == 1 && sa[0].t != nil && sb[0].t != nil {
		return nil
	}
	var r []seg
	i, j := 0, 0
	for i < len(sa) && j < len(sb) {
		x, y := sa[i], sb[j]
		if x.w() == y.w() {
			i++
			j++
		} else if x.w() > y.w() {
			d := x.w() - y.w()
			sa[i] = x.sub(d-1, 0)
			x = x.sub(x.w()-1, d)
			j++
		} else {
			d := y.w() - x.w()
			sb[j] = y.sub(d-1, 0)
			y = y.sub(y.w()-1, d)
			i++
		}
		if x.t == nil && x.v == 0 {
			r = append(r, y)
		} else if y.t == nil && y.v == 0 {
			r = append(r, x)
		} else if x.t == nil && y.t == nil && x.v&y.v == 0 {
			r = append(r, seg{hi: x.w() - 1, v: x.v | y.v})
		} else {
			return nil
		}
	}
	return tm.mkSegs(r)
}

func (tm *TM) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.val+b.val, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.a[1].isConst() {
			return tm.Add(a.a[0], tm.Const(a.a[1].val+b.val, a.w))
		}
		if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
			return tm.Ite(a.a[0], tm.Add(a.a[1], b), tm.Add(a.a[2], b))
		}
		if r := tm.disjointOr(a, b); r != nil {
			return r
		}
		return tm.raw(Term{op: OAdd, w: a.w, a: []*Term{a, b}})
	}
	if r := tm.disjointOr(a, b); r != nil {
		return r
	}
	// keep constants outermost
	if a.op == OAdd && a.a[1].isConst() {
		return tm.Add(tm.Add(a.a[0], b), a.a[1])
	}
	if b.op == OAdd && b.a[1].isConst() {
		return tm.Add(tm.Add(a, b.a[0]), b.a[1])
	}
	if a.op == OSub && a.a[1] == b {
		return a.a[0]
	}
	if b.op == OSub && b.a[1] == a {
		return b.a[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tm.raw(Term{op: OAdd, w: a.w, a: []*Term{a, b}})
}

func (tm *TM) Sub(a, b *Term) *Term {
	if a == b {
		return tm.Const(0, a.w)
	}
	if b.isConst() {
		return tm.Add(a, tm.Const(-b.val, a.w))
	}
	if a.isConst() && b.isConst() {
		return tm.Const(a.val-b.val, a.w)
	}
	if a.op == OAdd && !a.a[1].isConst() {
		if a.a[0] == b {
			return a.a[1]
		}
		if a.a[1] == b {
			return a.a[0]
		}
	}
	if a.op == OAdd && a.a[1].isConst() {
		return tm.Add(tm.Sub(a.a[0], b), a.a[1])
	}
	if b.op == OAdd && b.a[1].isConst() {
		return tm.Add(tm.Sub(a, b.a[0]), tm.Const(-b.a[1].val, a.w))
	}
	return tm.raw(Term{op: OSub, w: a.w, a: []*Term{a, b}})
}

func (tm *TM) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.val*b.val, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			k := uint8(0)
			for b.val>>k != 1 {
				k++
			}
			return tm.ShlC(a, k)
		}
		if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
			return tm.Ite(a.a[0], tm.Mul(a.a[1], b), tm.Mul(a.a[2], b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tm.raw(Term{op: OMul, w: a.w, a: []*Term{a, b}})
}

func (tm *TM) Udiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return tm.Const(a.val/b.val, a.w)
		}
		if b.val&(b.val-1) == 0 {
			k := uint8(0)
			for b.val>>k != 1 {
				k++
			}
			return tm.LshrC(a, k)
		}
		if a.op == OMul && a.a[1] == b && tm.umax(a.a[0]) <= mask(a.w)/b.val {
			return a.a[0]
		}
		if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
			return tm.Ite(a.a[0], tm.Udiv(a.a[1], b), tm.Udiv(a.a[2], b))
		}
	}
	return tm.raw(Term{op: OUdiv, w: a.w, a: []*Term{a, b}})
}

func (tm *TM) Urem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return tm.Const(a.val%b.val, a.w)
		}
		if b.val&(b.val-1) == 0 {
			return tm.Band(a, tm.Const(b.val-1, a.w))
		}
		if !tm.plain && tm.umax(a) < b.val {
			return a
		}
	}
	return tm.raw(Term{op: OUrem, w: a.w, a: []*Term{a, b}})
}

func (tm *TM) Sdiv(a, b *Term) *Term {
	half := mask(a.w) >> 1
	if (!tm.plain || a.isConst() && b.isConst()) && tm.umax(a) <= half && tm.umax(b) <= half {
		return tm.Udiv(a, b)
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sext64(a.val, a.w), sext64(b.val, b.w)
		if y == -1 {
			return tm.Const(uint64(-x), a.w)
		}
		return tm.Const(uint64(x/y), a.w)
	}
	return tm.raw(Term{op: OSdiv, w: a.w, a: []*Term{a, b}})
}

func (tm *TM) Srem(a, b *Term) *Term {
	half := mask(a.w) >> 1
	if (!tm.plain || a.isConst() && b.isConst()) && tm.umax(a) <= half && tm.umax(b) <= half {
		return tm.Urem(a, b)
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := sext64(a.val, a.w), sext64(b.val, b.w)
		if y == -1 {
			return tm.Const(0, a.w)
		}
		return tm.Const(uint64(x%y), a.w)
	}
	return tm.raw(Term{op: OSrem, w: a.w, a: []*Term{a, b}})
}

func (tm *TM) Bnot(a *Term) *Term {
	if a.isConst() {
		return tm.Const(^a.val, a.w)
	}
	if a.op == OBnot {
		return a.a[0]
	}
	return tm.raw(Term{op: OBnot, w: a.w, a: []*Term{a}})
}

func (tm *TM) bitop(op Op, a, b *Term) *Term {
	switch op {
	case OBand:
		return tm.Band(a, b)
	case OBor:
		return tm.Bor(a, b)
	}
	return tm.Bxor(a, b)
}

func (tm *TM) Band(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.val&b.val, a.w)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		m := b.val
		if m == 0 {
			return b
		}
		if m == mask(a.w) {
			return a
		}
		if tm.plain {
			return tm.raw(Term{op: OBand, w: a.w, a: []*Term{a, b}})
		}
		// split into runs when there are few
		runs := 1
		for i := uint8(1); i < a.w; i++ {
			if (m>>i)&1 != (m>>(i-1))&1 {
				runs++
			}
		}
		if runs <= 6 {
			ss := tm.segs(a)
			var r []seg
			hi := a.w - 1
			for {
				bit := (m >> hi) & 1
				lo := hi
				for lo > 0 && (m>>(lo-1))&1 == bit {
					lo--
				}
				if bit == 1 {
					r = append(r, sliceSegs(ss, a.w, hi, lo)...)
				} else {
					r = append(r, seg{hi: hi - lo})
				}
				if lo == 0 {
					break
				}
				hi = lo - 1
			}
			return tm.mkSegs(r)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tm.raw(Term{op: OBand, w: a.w, a: []*Term{a, b}})
}

func (tm *TM) Bor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.val|b.val, a.w)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	if r := tm.disjointOr(a, b); r != nil {
		return r
	}
	if b.isConst() && !tm.plain {
		// set bits: segment-wise
		m := b.val
		runs := 1
		for i := uint8(1); i < a.w; i++ {
			if (m>>i)&1 != (m>>(i-1))&1 {
				runs++
			}
		}
		if runs <= 6 {
			ss := tm.segs(a)
			var r []seg
			hi := a.w - 1
			for {
				bit := (m >> hi) & 1
				lo := hi
				for lo > 0 && (m>>(lo-1))&1 == bit {
					lo--
				}
				if bit == 0 {
					r = append(r, sliceSegs(ss, a.w, hi, lo)...)
				} else {
					r = append(r, seg{hi: hi - lo, v: mask(hi - lo + 1)})
				}
				if lo == 0 {
					break
				}
				hi = lo - 1
			}
			return tm.mkSegs(r)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tm.raw(Term{op: OBor, w: a.w, a: []*Term{a, b}})
}

func (tm *TM) Bxor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tm.Const(a.val^b.val, a.w)
	}
	if a == b {
		return tm.Const(0, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return tm.Bnot(a)
		}
		if a.op == OBxor && a.a[1].isConst() {
			return tm.Bxor(a.a[0], tm.Const(a.a[1].val^b.val, a.w))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tm.raw(Term{op: OBxor, w: a.w, a: []*Term{a, b}})
}

func (tm *TM) ShlC(a *Term, k uint8) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return tm.Const(0, a.w)
	}
	r := sliceSegs(tm.segs(a), a.w, a.w-1-k, 0)
	return tm.mkSegs(append(r, seg{hi: k - 1}))
}

func (tm *TM) LshrC(a *Term, k uint8) *Term {
	if k == 0 {
		return a
	}
	if k >= a.w {
		return tm.Const(0, a.w)
	}
	return tm.mkSegs(append([]seg{{hi: k - 1}}, sliceSegs(tm.segs(a), a.w, a.w-1, k)...))
}

// Shl etc. take a shift amount of the same width; amounts >= w give 0 (Go semantics equal SMT-LIB).
func (tm *TM) Shl(a, k *Term) *Term {
	if k.isConst() {
		if k.val >= uint64(a.w) {
			return tm.Const(0, a.w)
		}
		return tm.ShlC(a, uint8(k.val))
	}
	return tm.raw(Term{op: OShl, w: a.w, a: []*Term{a, k}})
}

func (tm *TM) Lshr(a, k *Term) *Term {
	if k.isConst() {
		if k.val >= uint64(a.w) {
			return tm.Const(0, a.w)
		}
		return tm.LshrC(a, uint8(k.val))
	}
	return tm.raw(Term{op: OLshr, w: a.w, a: []*Term{a, k}})
}

func (tm *TM) Ashr(a, k *Term) *Term {
	if (!tm.plain || a.isConst()) && tm.umax(a) <= mask(a.w)>>1 {
		return tm.Lshr(a, k)
	}
	if k.isConst() {
		n := k.val
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		if n == 0 {
			return a
		}
		if a.isConst() {
			return tm.Const(uint64(sext64(a.val, a.w)>>n), a.w)
		}
		return tm.Sext(tm.Extract(a, a.w-1, uint8(n)), a.w)
	}
	return tm.raw(Term{op: OAshr, w: a.w, a: []*Term{a, k}})
}

// ---- evaluation under a model ----

// Model maps variable index to value; missing means 0.
type Model struct {
	m map[int32]uint64
}

func (tm *TM) eval(t *Term, m *Model) uint64 {
	tm.evGen++
	return tm.ev(t, m, tm.evGen)
}

func (tm *TM) ev(t *Term, m *Model, gen int64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if m == nil {
			return 0
		}
		return m.m[int32(t.val)] & mask2(t.w)
	}
	if t.evMark == gen {
		return t.evVal
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = 1 - tm.ev(t.a[0], m, gen)
	case OAnd:
		if tm.ev(t.a[0], m, gen) == 0 {
			r = 0
		} else {
			r = tm.ev(t.a[1], m, gen)
		}
	case OIte:
		if tm.ev(t.a[0], m, gen) != 0 {
			r = tm.ev(t.a[1], m, gen)
		} else {
			r = tm.ev(t.a[2], m, gen)
		}
	case OConcat:
		for _, x := range t.a {
			r = r<<x.w | tm.ev(x, m, gen)
		}
	case OExtract:
		r = (tm.ev(t.a[0], m, gen) >> t.lo) & mask(t.w)
	case OSext:
		r = uint64(sext64(tm.ev(t.a[0], m, gen), t.a[0].w)) & mask(t.w)
	case OBnot:
		r = ^tm.ev(t.a[0], m, gen) & mask(t.w)
	default:
		x, y := tm.ev(t.a[0], m, gen), tm.ev(t.a[1], m, gen)
		w := t.a[0].w
		r = evBin(t.op, x, y, w)
		_ = b2u
	}
	t.evMark = gen
	t.evVal = r
	return r
}

func mask2(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func evBin(op Op, x, y uint64, w uint8) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	var r uint64
	switch op {
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OSlt:
		return b2u(sext64(x, w) < sext64(y, w))
	case OAdd:
		r = x + y
	case OSub:
		r = x - y
	case OMul:
		r = x * y
	case OUdiv:
		if y == 0 {
			r = ^uint64(0)
		} else {
			r = x / y
		}
	case OUrem:
		if y == 0 {
			r = x
		} else {
			r = x % y
		}
	case OSdiv:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			if a < 0 {
				r = 1
			} else {
				r = ^uint64(0)
			}
		} else if b == -1 {
			r = uint64(-a)
		} else {
			r = uint64(a / b)
		}
	case OSrem:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			r = x
		} else if b == -1 {
			r = 0
		} else {
			r = uint64(a % b)
		}
	case OBand:
		r = x & y
	case OBor:
		r = x | y
	case OBxor:
		r = x ^ y
	case OShl:
		if y >= uint64(w) {
			r = 0
		} else {
			r = x << y
		}
	case OLshr:
		if y >= uint64(w) {
			r = 0
		} else {
			r = x >> y
		}
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		r = uint64(sext64(x, w) >> y)
	default:
		panic("evBin")
	}
	return r & mask(w)
}

func (t *Term) String() string {
	return t.str(0)
}

func (t *Term) str(d int) string {
	if d > 8 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val != 0)
		}
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case OVar:
		return t.name
	case OExtract:
		return fmt.Sprintf("%s[%d:%d]", t.a[0].str(d+1), t.hi, t.lo)
	case OSext:
		return fmt.Sprintf("(sext%d %s)", t.w, t.a[0].str(d+1))
	}
	s := "(" + opNames[t.op]
	for _, x := range t.a {
		s += " " + x.str(d+1)
	}
	return s + ")"
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
