package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/zhiqiangxu/qrpc"

// Program is the loaded SSA program, shared by all workers.
type Program struct {
	prog    *ssa.Program
	fset    *token.FileSet
	fns     sync.Map // *ssa.Function -> *FnInfo
	pkgs    map[string]*ssa.Package
	globN   int
	globIdx map[*ssa.Global]int
	globs   []*ssa.Global
	mu      sync.Mutex
	rtErr   *TD // models.RuntimeError
	rtype   *TD // models.RType
	models  *ssa.Package
	covered sync.Map // *FnInfo -> bool: repo functions executed
	repl    map[string]*ssa.Function
}

type phiMove struct {
	dst int
	src opnd
}

type opk uint8

const (
	okReg opk = iota
	okConst
	okGlobal
)

type opnd struct {
	k   opk
	idx int
	v   V
}

type opcode uint8

const (
	iNop opcode = iota
	iAlloc
	iBinOp
	iCall
	iChangeInterface
	iMove
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceToArray
	iStore
	iTypeAssert
	iUnOp
	iHold // bottom frame of callSync
	iIntr // body of an intrinsic's pseudo function
)

type Ins struct {
	op      opcode
	dst     int
	a, b, c opnd
	d       opnd
	args    []opnd
	td, td2 *TD
	n       int
	tok     token.Token
	commaOk bool
	local   bool // the address is inside a variable that never leaves the function
	vis     bool
	// calls
	fn     *FnInfo      // static callee
	bi     *ssa.Builtin // builtin
	invoke *types.Func
	biTDs  []*TD
	// control
	t0, t1 int
	m0, m1 []phiMove
	sel    *ssa.Select
	pos    token.Pos
	fn0    *ssa.Function
	in     ssa.Instruction
}

type FnInfo struct {
	fn      *ssa.Function
	name    string
	pkg     string
	repo    bool
	fake    bool
	harness bool
	ctxpkg  bool
	rmode   uint8
	pool    bool
	visible bool // calling it from a repo frame is a scheduling point
	wrapper bool
	isInit  bool // package initializer
	once    sync.Once
	code    []Ins
	nregs   int
	nparams int
	recover int // pc of recover block or -1
	results []*TD
	intr    Intrinsic
	resTD   *TD
	zeroRet bool

	liveOnce sync.Once
	lv       *liveness
}

func loadProgram(dir string, pats []string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d package errors", nerr)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, globIdx: map[*ssa.Global]int{}, repl: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	P.models = P.pkgs["verifh/models"]
	if P.models == nil {
		return nil, fmt.Errorf("verifh/models not loaded")
	}
	P.rtErr = tdOf(P.models.Type("RuntimeError").Type())
	P.rtype = tdOf(P.models.Type("RType").Type())
	for goName, model := range modelTable {
		f := P.models.Func(model)
		if f == nil {
			return nil, fmt.Errorf("model function %s missing", model)
		}
		P.repl[goName] = f
	}
	for from, to := range redirects {
		if pk := P.pkgs[to[0]]; pk != nil && pk.Func(to[1]) != nil {
			P.repl[from] = pk.Func(to[1])
		}
	}
	return P, nil
}

func (P *Program) global(g *ssa.Global) int {
	P.mu.Lock()
	defer P.mu.Unlock()
	if i, ok := P.globIdx[g]; ok {
		return i
	}
	i := P.globN
	P.globN++
	P.globIdx[g] = i
	P.globs = append(P.globs, g)
	return i
}

func pkgOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func isRepo(p string) bool {
	return p == repoPath || strings.HasPrefix(p, repoPath+"/")
}

func (P *Program) info(fn *ssa.Function) *FnInfo {
	if v, ok := P.fns.Load(fn); ok {
		return v.(*FnInfo)
	}
	fi := &FnInfo{fn: fn, name: fnName(fn), pkg: pkgOf(fn), recover: -1}
	fi.repo = isRepo(fi.pkg)
	fi.harness = strings.HasPrefix(fi.pkg, "verifh/")
	fi.fake = fi.pkg == "verifh/fake"
	fi.ctxpkg = fi.pkg == "context"
	fi.rmode = raceMode(fi)
	if r, ok := P.repl[fi.name]; ok {
		v, _ := P.fns.LoadOrStore(fn, P.info(r))
		return v.(*FnInfo)
	}
	if s := fn.Synthetic; s != "" && (strings.HasPrefix(s, "wrapper") || strings.HasPrefix(s, "bound") || strings.HasPrefix(s, "thunk")) {
		fi.wrapper = true
	}
	fi.isInit = fn.Synthetic == "package initializer"
	fi.intr = findIntrinsic(fi, fn)
	fi.nparams = len(fn.Params) + len(fn.FreeVars)
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		fi.results = append(fi.results, tdOf(sig.Results().At(i).Type()))
	}
	if len(fi.results) == 1 {
		fi.resTD = fi.results[0]
	} else if len(fi.results) > 1 {
		fi.resTD = tdOf(sig.Results())
	}
	fi.visible = visibleCallee(fi)
	fi.pool = fi.name == "(*sync.Pool).Get"
	v, _ := P.fns.LoadOrStore(fn, fi)
	return v.(*FnInfo)
}

// visibleCallee: calling this from a frame of the code under test is a
// scheduling point (it may touch state shared with another goroutine).
func visibleCallee(fi *FnInfo) bool {
	switch fi.pkg {
	case "context":
		return true
	case "sync":
		switch fi.name {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.WaitGroup).Wait", "(*sync.Once).Do", "(*sync.Cond).Wait", "(*sync.Mutex).TryLock":
			return true
		}
		return strings.HasPrefix(fi.name, "(*sync.Map).")
	case "sync/atomic":
		return true
	}
	return fi.fake || fi.harness && fi.pkg != "verifh/sym" && fi.pkg != "verifh/models"
}

func (P *Program) constV(c *ssa.Const) V {
	td := tdOf(c.Type())
	if c.Value == nil {
		return td.zero()
	}
	switch td.k {
	case KBool:
		return vBool(constant.BoolVal(c.Value))
	case KInt:
		if td.signed {
			return V{n: uint64(c.Int64()) & mask(td.w)}
		}
		return V{n: c.Uint64() & mask(td.w)}
	case KFloat:
		f := c.Float64()
		if td.w == 32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case KString:
		if c.Value.Kind() == constant.String {
			return V{x: constant.StringVal(c.Value)}
		}
		return V{x: string(rune(c.Int64()))}
	case KComplex:
		return V{x: c.Complex128()}
	}
	panic("const of type " + td.String())
}

func (fi *FnInfo) compile(P *Program) {
	fi.once.Do(func() { fi.compile1(P) })
}

func (fi *FnInfo) compile1(P *Program) {
	fn := fi.fn
	if fi.intr != nil {
		fi.nregs = fi.nparams + 1
		fi.code = []Ins{{op: iIntr, dst: fi.nparams}}
		return
	}
	if fn.Blocks == nil {
		return
	}
	reg := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		reg[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		reg[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg[v] = n
				n++
			}
		}
	}
	fi.nregs = n + 1
	scratch := n
	op := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{k: okConst}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return opnd{k: okConst, v: P.constV(v)}
		case *ssa.Global:
			return opnd{k: okGlobal, idx: P.global(v)}
		case *ssa.Function:
			return opnd{k: okConst, v: V{x: &Closure{fn: P.info(v)}}}
		case *ssa.Builtin:
			return opnd{k: okConst}
		}
		i, ok := reg[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s (%T) in %s", v, v, fn))
		}
		return opnd{k: okReg, idx: i}
	}
	starts := make([]int, len(fn.Blocks))
	// first pass: emit
	type fix struct {
		pc int
		b  *ssa.BasicBlock
		t0 *ssa.BasicBlock
		t1 *ssa.BasicBlock
	}
	var fixes []fix
	var code []Ins
	moves := func(from, to *ssa.BasicBlock) []phiMove {
		var ms []phiMove
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
				break
			}
		}
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ms = append(ms, phiMove{reg[phi], op(phi.Edges[pi])})
		}
		return ms
	}
	callArgs := func(ins *Ins, c *ssa.CallCommon) {
		if c.IsInvoke() {
			ins.invoke = c.Method
			ins.a = op(c.Value)
		} else if b, ok := c.Value.(*ssa.Builtin); ok {
			ins.bi = b
			for _, a := range c.Args {
				ins.biTDs = append(ins.biTDs, tdOf(a.Type()))
			}
		} else if f, ok := c.Value.(*ssa.Function); ok {
			ins.fn = P.info(f)
		} else {
			ins.a = op(c.Value)
		}
		for _, a := range c.Args {
			ins.args = append(ins.args, op(a))
		}
	}
	for bi, b := range fn.Blocks {
		starts[bi] = len(code)
		if fn.Recover == b {
			fi.recover = len(code)
		}
		for _, in := range b.Instrs {
			ins := Ins{pos: in.Pos(), in: in, dst: scratch}
			if v, ok := in.(ssa.Value); ok {
				ins.dst = reg[v]
			}
			switch in := in.(type) {
			case *ssa.DebugRef, *ssa.Phi:
				continue
			case *ssa.Alloc:
				ins.op = iAlloc
				ins.td = tdOf(in.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.BinOp:
				ins.op = iBinOp
				ins.a, ins.b = op(in.X), op(in.Y)
				ins.td = tdOf(in.X.Type())
				ins.td2 = tdOf(in.Y.Type())
				ins.tok = in.Op
			case *ssa.Call:
				ins.op = iCall
				callArgs(&ins, &in.Call)
				ins.td = tdOf(in.Type())
			case *ssa.ChangeInterface:
				ins.op = iMove
				ins.a = op(in.X)
			case *ssa.ChangeType:
				ins.op = iMove
				ins.a = op(in.X)
			case *ssa.Convert:
				ins.op = iConvert
				ins.a = op(in.X)
				ins.td, ins.td2 = tdOf(in.X.Type()), tdOf(in.Type())
			case *ssa.MultiConvert:
				ins.op = iConvert
				ins.a = op(in.X)
				ins.td, ins.td2 = tdOf(in.X.Type()), tdOf(in.Type())
			case *ssa.Defer:
				ins.op = iDefer
				callArgs(&ins, &in.Call)
				if in.DeferStack != nil {
					ins.d = op(in.DeferStack)
					ins.n = 1
				}
			case *ssa.Extract:
				ins.op = iExtract
				ins.a = op(in.Tuple)
				ins.n = in.Index
			case *ssa.Field:
				ins.op = iField
				ins.a = op(in.X)
				ins.n = in.Field
				ins.td = tdOf(in.Type())
			case *ssa.FieldAddr:
				ins.op = iFieldAddr
				ins.a = op(in.X)
				ins.n = in.Field
			case *ssa.Go:
				ins.op = iGo
				callArgs(&ins, &in.Call)
			case *ssa.If:
				ins.op = iIf
				ins.a = op(in.Cond)
				ins.m0, ins.m1 = moves(b, b.Succs[0]), moves(b, b.Succs[1])
				if b.Succs[0] == b.Succs[1] {
					// both edges to one block: distinguish the phi edges
					var idxs []int
					for i, p := range b.Succs[0].Preds {
						if p == b {
							idxs = append(idxs, i)
						}
					}
					if len(idxs) == 2 {
						ins.m1 = nil
						for _, x := range b.Succs[0].Instrs {
							phi, ok := x.(*ssa.Phi)
							if !ok {
								break
							}
							ins.m1 = append(ins.m1, phiMove{reg[phi], op(phi.Edges[idxs[1]])})
						}
					}
				}
				fixes = append(fixes, fix{len(code), b, b.Succs[0], b.Succs[1]})
			case *ssa.Index:
				ins.op = iIndex
				ins.a, ins.b = op(in.X), op(in.Index)
				ins.td, ins.td2 = tdOf(in.X.Type()), tdOf(in.Index.Type())
			case *ssa.IndexAddr:
				ins.op = iIndexAddr
				ins.a, ins.b = op(in.X), op(in.Index)
				ins.td, ins.td2 = tdOf(in.X.Type()), tdOf(in.Index.Type())
			case *ssa.Jump:
				ins.op = iJump
				ins.m0 = moves(b, b.Succs[0])
				fixes = append(fixes, fix{len(code), b, b.Succs[0], nil})
			case *ssa.Lookup:
				ins.op = iLookup
				ins.a, ins.b = op(in.X), op(in.Index)
				ins.td = tdOf(in.X.Type())
				ins.td2 = tdOf(in.Index.Type())
				ins.commaOk = in.CommaOk
			case *ssa.MakeChan:
				ins.op = iMakeChan
				ins.a = op(in.Size)
				ins.td = tdOf(in.Type())
			case *ssa.MakeClosure:
				ins.op = iMakeClosure
				ins.fn = P.info(in.Fn.(*ssa.Function))
				for _, x := range in.Bindings {
					ins.args = append(ins.args, op(x))
				}
			case *ssa.MakeInterface:
				ins.op = iMakeInterface
				ins.a = op(in.X)
				ins.td = tdOf(in.X.Type())
			case *ssa.MakeMap:
				ins.op = iMakeMap
			case *ssa.MakeSlice:
				ins.op = iMakeSlice
				ins.a, ins.b = op(in.Len), op(in.Cap)
				ins.td = tdOf(in.Type())
				ins.td2 = tdOf(in.Len.Type())
			case *ssa.MapUpdate:
				ins.op = iMapUpdate
				ins.a, ins.b, ins.c = op(in.Map), op(in.Key), op(in.Value)
				ins.td = tdOf(in.Map.Type())
			case *ssa.Next:
				ins.op = iNext
				ins.a = op(in.Iter)
				ins.commaOk = in.IsString
				ins.td = tdOf(in.Type())
			case *ssa.Panic:
				ins.op = iPanic
				ins.a = op(in.X)
			case *ssa.Range:
				ins.op = iRange
				ins.a = op(in.X)
				ins.td = tdOf(in.X.Type())
			case *ssa.Return:
				ins.op = iReturn
				for _, r := range in.Results {
					ins.args = append(ins.args, op(r))
				}
			case *ssa.RunDefers:
				ins.op = iRunDefers
			case *ssa.Select:
				ins.op = iSelect
				ins.sel = in
				for _, st := range in.States {
					ins.args = append(ins.args, op(st.Chan), op(st.Send))
				}
				ins.td = tdOf(in.Type())
				ins.commaOk = in.Blocking
			case *ssa.Send:
				ins.op = iSend
				ins.a, ins.b = op(in.Chan), op(in.X)
			case *ssa.Slice:
				ins.op = iSlice
				ins.a, ins.b, ins.c, ins.d = op(in.X), op(in.Low), op(in.High), op(in.Max)
				ins.td = tdOf(in.X.Type())
				ins.n = 0
				if in.Low != nil {
					ins.n |= 1
				}
				if in.High != nil {
					ins.n |= 2
				}
				if in.Max != nil {
					ins.n |= 4
				}
			case *ssa.SliceToArrayPointer:
				ins.op = iSliceToArray
				ins.a = op(in.X)
				ins.td = tdOf(in.Type())
			case *ssa.Store:
				ins.op = iStore
				ins.local = localAddr(in.Addr)
				ins.a, ins.b = op(in.Addr), op(in.Val)
				ins.td = tdOf(in.Val.Type())
			case *ssa.TypeAssert:
				ins.op = iTypeAssert
				ins.a = op(in.X)
				ins.td = tdOf(in.AssertedType)
				ins.commaOk = in.CommaOk
			case *ssa.UnOp:
				ins.op = iUnOp
				ins.local = in.Op == token.MUL && localAddr(in.X)
				ins.a = op(in.X)
				ins.tok = in.Op
				ins.td = tdOf(in.X.Type())
				ins.td2 = tdOf(in.Type())
				ins.commaOk = in.CommaOk
			default:
				panic(fmt.Sprintf("unknown instruction %T in %s", in, fn))
			}
			code = append(code, ins)
		}
	}
	for _, f := range fixes {
		code[f.pc].t0 = starts[f.t0.Index]
		if f.t1 != nil {
			code[f.pc].t1 = starts[f.t1.Index]
		}
	}
	fi.code = code
}

// method finds the concrete implementation of an interface method.
func (P *Program) method(td *TD, f *types.Func) *FnInfo {
	key := f.Id()
	if v, ok := td.meths.Load(key); ok {
		return v.(*FnInfo)
	}
	fn := P.prog.LookupMethod(td.t, f.Pkg(), f.Name())
	if fn == nil {
		panic(fmt.Sprintf("method %s not found on %s", f.Name(), td))
	}
	fi := P.info(fn)
	td.meths.Store(key, fi)
	return fi
}

func (P *Program) implements(td, it *TD) bool {
	if v, ok := td.impl.Load(it); ok {
		return v.(bool)
	}
	tdMu.Lock()
	r := types.Implements(td.t, it.t.Underlying().(*types.Interface))
	tdMu.Unlock()
	td.impl.Store(it, r)
	return r
}
