package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Heap census: the number of structs, map entries and buffered channel elements
// reachable from the library's package variables and from what the goroutines still need.
// A register counts only where it is live, so what a finished step of a loop left
// behind in it does not. Pooled objects (sync.Pool) are not followed.

type liveness struct {
	in   []map[int]bool // per block: registers live on entry
	at   map[ssa.Instruction][]int
	regs map[ssa.Value]int
}

func (fi *FnInfo) live() *liveness {
	fi.liveOnce.Do(func() {
		fn := fi.fn
		l := &liveness{at: map[ssa.Instruction][]int{}, regs: map[ssa.Value]int{}}
		n := 0
		for _, p := range fn.Params {
			l.regs[p] = n
			n++
		}
		for _, p := range fn.FreeVars {
			l.regs[p] = n
			n++
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					l.regs[v] = n
					n++
				}
			}
		}
		l.in = make([]map[int]bool, len(fn.Blocks))
		for i := range l.in {
			l.in[i] = map[int]bool{}
		}
		var rands []*ssa.Value
		// step moves backwards over in.
		step := func(s map[int]bool, in ssa.Instruction) {
			if v, ok := in.(ssa.Value); ok {
				delete(s, l.regs[v])
			}
			if _, ok := in.(*ssa.Phi); ok {
				return
			}
			for _, o := range in.Operands(rands[:0]) {
				if o == nil || *o == nil {
					continue
				}
				if r, ok := l.regs[*o]; ok {
					s[r] = true
				}
			}
		}
		out := func(b *ssa.BasicBlock) map[int]bool {
			s := map[int]bool{}
			for _, t := range b.Succs {
				for r := range l.in[t.Index] {
					s[r] = true
				}
				for i, p := range t.Preds {
					if p != b {
						continue
					}
					for _, in := range t.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if r, ok := l.regs[phi.Edges[i]]; ok {
							s[r] = true
						}
					}
				}
			}
			return s
		}
		for changed := true; changed; {
			changed = false
			for i := len(fn.Blocks) - 1; i >= 0; i-- {
				b := fn.Blocks[i]
				s := out(b)
				for j := len(b.Instrs) - 1; j >= 0; j-- {
					step(s, b.Instrs[j])
				}
				if len(s) != len(l.in[i]) {
					l.in[i] = s
					changed = true
				}
			}
		}
		for _, b := range fn.Blocks {
			s := out(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				step(s, b.Instrs[j])
				rs := make([]int, 0, len(s))
				for r := range s {
					rs = append(rs, r)
				}
				sort.Ints(rs)
				l.at[b.Instrs[j]] = rs
			}
		}
		fi.lv = l
	})
	return fi.lv
}

// liveAt: the registers live before the instruction at pc.
func (fi *FnInfo) liveAt(pc int) []int { return fi.live().at[fi.code[pc].in] }

type census struct {
	m     *Machine
	seen  map[any]bool
	n     int
	debug bool
	root  string
	path  []string // how the current object was reached, if debug
}

func (c *census) sub(step string, v V) {
	if c.debug {
		c.path = append(c.path, step)
		defer func() { c.path = c.path[:len(c.path)-1] }()
	}
	c.visit(v)
}

func (c *census) count(what string) {
	c.n++
	if c.debug {
		c.m.tracef("HEAP %s%s %s", c.root, strings.Join(c.path, ""), what)
	}
}

func (c *census) visit(v V) {
	switch x := v.x.(type) {
	case *V:
		if x == nil || c.seen[x] {
			return
		}
		c.seen[x] = true
		if mp, ok := c.m.side[x].(*MapV); ok { // sync.Map
			c.visit(V{x: mp})
		}
		c.sub("*", *x)
	case *StructV:
		if c.seen[x] {
			return
		}
		c.seen[x] = true
		c.count("struct")
		for i := range x.f {
			c.sub("."+strconv.Itoa(i), V{x: &x.f[i]})
		}
	case *ArrV:
		for i := range x.e {
			c.sub("[]", V{x: &x.e[i]})
		}
	case Tuple:
		for _, e := range x {
			c.visit(e)
		}
	case []V:
		for i := range x {
			if x[i].x != nil {
				c.sub("["+strconv.Itoa(i)+"]", V{x: &x[i]})
			}
		}
	case *Iface:
		if x == nil {
			return
		}
		if c.debug {
			c.sub("("+x.td.String()+")", x.v)
			return
		}
		c.visit(x.v)
	case *Closure:
		if x == nil || c.seen[x] {
			return
		}
		c.seen[x] = true
		for _, b := range x.bind {
			c.sub("<"+x.fn.name+">", b)
		}
	case *MapV:
		if x == nil || c.seen[x] {
			return
		}
		c.seen[x] = true
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			c.count("map entry")
			c.sub("{k}", e.k)
			c.sub("{v}", e.v)
		}
	case *ChanV:
		if x == nil || c.seen[x] {
			return
		}
		c.seen[x] = true
		for _, e := range x.buf {
			c.count("channel element")
			c.sub("<-", e)
		}
	}
}

// heapCensus counts what is reachable. The registers of the calling harness
// frames count too.
func (m *Machine) heapCensus() int {
	c := &census{m: m, seen: map[any]bool{}, debug: m.trace && os.Getenv("VERIF_HEAP") != ""}
	if c.debug {
		m.tracef("HEAP census")
	}
	for i, p := range m.globals {
		if p == nil {
			continue
		}
		m.P.mu.Lock()
		g := m.P.globs[i]
		m.P.mu.Unlock()
		// what the standard library initialises when it is first used is not growth
		if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/zhiqiangxu/") {
			continue
		}
		c.root = g.String()
		c.visit(V{x: p})
	}
	for _, g := range m.gs {
		dst := -1 // the register that the frame's callee will set
		for f := g.top; f != nil; f = f.caller {
			if c.debug {
				c.root = fmt.Sprintf("g%d %s %s", g.id, f.fn.name, m.site(f))
			}
			pc := f.pc
			if pc >= len(f.fn.code) {
				pc = len(f.fn.code) - 1
			}
			if f.fn.intr == nil && f.fn.fn != nil && len(f.fn.fn.Blocks) > 0 {
				for _, r := range f.fn.liveAt(pc) {
					if r == dst {
						continue
					}
					c.sub(" r"+strconv.Itoa(r), f.regs[r])
				}
			} else {
				for _, v := range f.regs {
					c.visit(v)
				}
			}
			dst = f.dst
			for _, d := range f.defers {
				for _, a := range d.args {
					c.visit(a)
				}
			}
		}
		for _, s := range g.sudogs {
			c.visit(s.val)
		}
	}
	return c.n
}
