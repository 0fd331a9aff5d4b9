package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// V is one interpreted value. Scalars live in n (masked to their width) or, when
// symbolic, in x as a *Term. The zero V is the zero value of every non-aggregate type.
type V struct {
	n uint64
	x any
}

type StructV struct{ f []V }
type ArrV struct{ e []V }
type Tuple []V
type SymStr struct{ b []V }
type Iface struct {
	td *TD
	v  V
}
type Closure struct {
	fn   *FnInfo
	bind []V
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KArray
	KStruct
	KMap
	KChan
	KFunc
	KIface
	KTuple
	KUnsafe
	KOther
)

type TD struct {
	t      types.Type
	k      Kind
	w      uint8
	signed bool
	elem   *TD
	key    *TD
	n      int
	fields []*TD
	agg    bool
	id     int
	meths  sync.Map // string -> *FnInfo
	impl   sync.Map // *TD -> bool
}

var (
	tdMu  sync.Mutex
	tdMap typeutil.Map
	tdN   int
)

func tdOf(t types.Type) *TD {
	tdMu.Lock()
	defer tdMu.Unlock()
	return tdLocked(t)
}

func tdLocked(t types.Type) *TD {
	if v := tdMap.At(t); v != nil {
		return v.(*TD)
	}
	td := &TD{t: t}
	tdN++
	td.id = tdN
	tdMap.Set(t, td)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			td.k = KBool
		case u.Info()&types.IsInteger != 0:
			td.k = KInt
			td.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				td.w = 8
			case types.Int16, types.Uint16:
				td.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				td.w = 32
			default:
				td.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			td.k = KFloat
			td.w = 64
			if u.Kind() == types.Float32 {
				td.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			td.k = KComplex
		case u.Info()&types.IsString != 0:
			td.k = KString
		case u.Kind() == types.UnsafePointer:
			td.k = KUnsafe
		case u.Kind() == types.UntypedNil:
			td.k = KPtr
		default:
			td.k = KOther
		}
	case *types.Pointer:
		td.k = KPtr
		td.elem = tdLocked(u.Elem())
	case *types.Slice:
		td.k = KSlice
		td.elem = tdLocked(u.Elem())
	case *types.Array:
		td.k = KArray
		td.agg = true
		td.elem = tdLocked(u.Elem())
		td.n = int(u.Len())
	case *types.Struct:
		td.k = KStruct
		td.agg = true
		for i := 0; i < u.NumFields(); i++ {
			td.fields = append(td.fields, tdLocked(u.Field(i).Type()))
		}
	case *types.Map:
		td.k = KMap
		td.key = tdLocked(u.Key())
		td.elem = tdLocked(u.Elem())
	case *types.Chan:
		td.k = KChan
		td.elem = tdLocked(u.Elem())
	case *types.Signature:
		td.k = KFunc
	case *types.Interface:
		td.k = KIface
	case *types.Tuple:
		td.k = KTuple
		for i := 0; i < u.Len(); i++ {
			td.fields = append(td.fields, tdLocked(u.At(i).Type()))
		}
	default:
		td.k = KOther
	}
	return td
}

func (td *TD) String() string { return td.t.String() }

func (td *TD) zero() V {
	switch td.k {
	case KStruct:
		s := &StructV{f: make([]V, len(td.fields))}
		for i, f := range td.fields {
			if f.agg {
				s.f[i] = f.zero()
			}
		}
		return V{x: s}
	case KArray:
		a := &ArrV{e: makeElems(td.elem, td.n, td.n)}
		return V{x: a}
	case KTuple:
		t := make(Tuple, len(td.fields))
		for i, f := range td.fields {
			t[i] = f.zero()
		}
		return V{x: t}
	}
	return V{}
}

func makeElems(el *TD, n, c int) []V {
	s := make([]V, c)
	if el.agg {
		for i := range s {
			s[i] = el.zero()
		}
	}
	return s[:n]
}

// copyAgg returns an independent copy of an aggregate (or v itself).
func copyV(v V) V {
	switch x := v.x.(type) {
	case *StructV:
		r := &StructV{f: make([]V, len(x.f))}
		for i := range x.f {
			switch x.f[i].x.(type) {
			case *StructV, *ArrV:
				r.f[i] = copyV(x.f[i])
			default:
				r.f[i] = x.f[i]
			}
		}
		return V{x: r}
	case *ArrV:
		r := &ArrV{e: make([]V, len(x.e))}
		for i := range x.e {
			switch x.e[i].x.(type) {
			case *StructV, *ArrV:
				r.e[i] = copyV(x.e[i])
			default:
				r.e[i] = x.e[i]
			}
		}
		return V{x: r}
	}
	return v
}

// storeAgg copies the aggregate v into the cell p, keeping the identity of p's fields.
func storeV(p *V, v V) {
	switch src := v.x.(type) {
	case *StructV:
		if dst, ok := p.x.(*StructV); ok && len(dst.f) == len(src.f) {
			if dst == src {
				return
			}
			for i := range src.f {
				storeV(&dst.f[i], src.f[i])
			}
			return
		}
		*p = copyV(v)
	case *ArrV:
		if dst, ok := p.x.(*ArrV); ok && len(dst.e) == len(src.e) {
			if dst == src {
				return
			}
			for i := range src.e {
				storeV(&dst.e[i], src.e[i])
			}
			return
		}
		*p = copyV(v)
	default:
		*p = v
	}
}

func vInt(i int) V    { return V{n: uint64(i)} }
func vU(u uint64) V   { return V{n: u} }
func vStr(s string) V { return V{x: s} }
func vBool(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func vF64(f float64) V { return V{n: math.Float64bits(f)} }
func (v V) f64() float64 {
	return math.Float64frombits(v.n)
}
func (v V) isSym() bool { _, ok := v.x.(*Term); return ok }
func (v V) slice() []V {
	if v.x == nil {
		return nil
	}
	return v.x.([]V)
}
func vSlice(s []V) V {
	if s == nil {
		return V{}
	}
	return V{x: s}
}
func (v V) strLen() int {
	switch s := v.x.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.x))
}

// strBytes returns the bytes of a string value.
func (v V) strBytes() []V {
	switch s := v.x.(type) {
	case nil:
		return []V{}
	case string:
		b := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			b[i].n = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v.x))
}

func mkStr(b []V) V {
	for _, c := range b {
		if c.x != nil {
			return V{x: &SymStr{b: append([]V(nil), b...)}}
		}
	}
	var sb strings.Builder
	for _, c := range b {
		sb.WriteByte(byte(c.n))
	}
	return V{x: sb.String()}
}

// conc returns the concrete string, ok=false when any byte is symbolic.
func (v V) conc() (string, bool) {
	switch s := v.x.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func bytesV(b []byte) V {
	s := make([]V, len(b))
	for i, c := range b {
		s[i].n = uint64(c)
	}
	return V{x: s}
}

// ---- maps ----

type mapEnt struct {
	k, v V
	dead bool
}

type MapV struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	nsym int
	n    int
}

func newMapV() *MapV { return &MapV{idx: map[any]*mapEnt{}} }

type ikey struct {
	td *TD
	k  any
}

// ckey returns a Go-comparable key for a concrete value.
func ckey(td *TD, v V) (any, bool) {
	switch td.k {
	case KBool, KInt, KFloat:
		if v.x != nil {
			return nil, false
		}
		return v.n, true
	case KString:
		s, ok := v.conc()
		return s, ok
	case KPtr, KChan, KMap, KFunc, KUnsafe:
		if t, ok := v.x.(*Term); ok {
			_ = t
			return nil, false
		}
		return v.x, true
	case KIface:
		if v.x == nil {
			return nil, true
		}
		i := v.x.(*Iface)
		k, ok := ckey(i.td, i.v)
		return ikey{i.td, k}, ok
	case KStruct:
		var sb strings.Builder
		for i, f := range v.x.(*StructV).f {
			k, ok := ckey(td.fields[i], f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return sb.String(), true
	case KArray:
		var sb strings.Builder
		for _, f := range v.x.(*ArrV).e {
			k, ok := ckey(td.elem, f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return sb.String(), true
	}
	panic("ckey " + td.String())
}

func (m *Machine) mapFind(mp *MapV, ktd *TD, k V) *mapEnt {
	if mp == nil {
		return nil
	}
	ck, ok := ckey(ktd, k)
	if ok {
		if e := mp.idx[ck]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if ok {
			if _, eok := ckey(ktd, e.k); eok {
				continue
			}
		}
		if m.truth(m.eq(ktd, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *MapV, ktd *TD, k, v V) {
	if e := m.mapFind(mp, ktd, k); e != nil {
		e.v = copyV(v)
		return
	}
	e := &mapEnt{k: copyV(k), v: copyV(v)}
	if ck, ok := ckey(ktd, k); ok {
		mp.idx[ck] = e
	} else {
		mp.nsym++
	}
	mp.ents = append(mp.ents, e)
	mp.n++
}

func (m *Machine) mapDel(mp *MapV, ktd *TD, k V) {
	if mp == nil {
		return
	}
	e := m.mapFind(mp, ktd, k)
	if e == nil {
		return
	}
	e.dead = true
	if ck, ok := ckey(ktd, e.k); ok {
		delete(mp.idx, ck)
	} else {
		mp.nsym--
	}
	mp.n--
	// compact
	if len(mp.ents) > 32 && mp.n*2 < len(mp.ents) {
		var r []*mapEnt
		for _, x := range mp.ents {
			if !x.dead {
				r = append(r, x)
			}
		}
		mp.ents = r
	}
}

type MapIter struct {
	m    *MapV
	list []*mapEnt
	i    int
}

type StrIter struct {
	b []V
	i int
}

// ---- equality ----

// eq compares two values of type td; the result is a boolean V.
func (m *Machine) eq(td *TD, a, b V) V {
	switch td.k {
	case KBool, KInt:
		if a.x == nil && b.x == nil {
			return vBool(a.n == b.n)
		}
		return m.fromT(m.tm.Eq(m.term(a, td), m.term(b, td)))
	case KFloat:
		return vBool(a.f64() == b.f64())
	case KString:
		sa, oa := a.conc()
		sb, ob := b.conc()
		if oa && ob {
			return vBool(sa == sb)
		}
		return m.eqBytes(a.strBytes(), b.strBytes())
	case KStruct:
		r := vBool(true)
		fa, fb := a.x.(*StructV).f, b.x.(*StructV).f
		for i, f := range td.fields {
			r = m.and(r, m.eq(f, fa[i], fb[i]))
			if r.x == nil && r.n == 0 {
				return r
			}
		}
		return r
	case KArray:
		r := vBool(true)
		fa, fb := a.x.(*ArrV).e, b.x.(*ArrV).e
		for i := range fa {
			r = m.and(r, m.eq(td.elem, fa[i], fb[i]))
			if r.x == nil && r.n == 0 {
				return r
			}
		}
		return r
	case KIface:
		if a.x == nil || b.x == nil {
			return vBool(a.x == nil && b.x == nil)
		}
		ia, ib := a.x.(*Iface), b.x.(*Iface)
		if ia.td != ib.td {
			return vBool(false)
		}
		switch ia.td.k {
		case KSlice, KMap, KFunc:
			panic(guestPanic{"comparing uncomparable type " + ia.td.String()})
		}
		return m.eq(ia.td, ia.v, ib.v)
	case KSlice, KMap, KFunc:
		// only comparison with nil reaches here
		return vBool(a.x == nil && b.x == nil)
	case KComplex:
		return vBool(a.x == b.x)
	}
	return vBool(a.x == b.x && a.n == b.n)
}

func (m *Machine) eqBytes(a, b []V) V {
	if len(a) != len(b) {
		return vBool(false)
	}
	r := m.tm.tTrue
	for i := range a {
		if a[i].x == nil && b[i].x == nil {
			if a[i].n != b[i].n {
				return vBool(false)
			}
			continue
		}
		r = m.tm.And(r, m.tm.Eq(m.termW(a[i], 8), m.termW(b[i], 8)))
		if r.isConst() && r.val == 0 {
			return vBool(false)
		}
	}
	return m.fromT(r)
}

func (m *Machine) and(a, b V) V {
	if a.x == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.x == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	return m.fromT(m.tm.And(a.x.(*Term), b.x.(*Term)))
}

func (m *Machine) not(a V) V {
	if a.x == nil {
		return vBool(a.n == 0)
	}
	return m.fromT(m.tm.Not(a.x.(*Term)))
}

func (m *Machine) term(v V, td *TD) *Term {
	if t, ok := v.x.(*Term); ok {
		return t
	}
	if td.k == KBool {
		return m.tm.Bool(v.n != 0)
	}
	return m.tm.Const(v.n, td.w)
}

func (m *Machine) termW(v V, w uint8) *Term {
	if t, ok := v.x.(*Term); ok {
		return t
	}
	return m.tm.Const(v.n, w)
}

func (m *Machine) fromT(t *Term) V {
	if t.isConst() {
		return V{n: t.val}
	}
	return V{x: t}
}

// guestPanic is thrown by engine helpers to raise a run-time panic in the guest.
type guestPanic struct{ msg string }
