package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow panics of the interpreter itself
type pathEnd struct {
	kind string // "assume", "unsupported", "steps", "violation", "killed", "exit", "solver"
	msg  string
}
type targetPanic struct {
	v     Value // Iface
	stack string
}
type specAbort struct{}

func unsupported(msg string) pathEnd { return pathEnd{"unsupported", msg} }

// Interp is the state of one path.
type Interp struct {
	w                 *Worker
	tb                *TB
	prefix            []Decision
	decs              []Decision
	di                int
	pc                []*Term
	model             *Model
	ev                *evaluator
	globals           map[*ssa.Global]*Agg
	inited            map[*ssa.Package]bool
	initDepth         int
	forceInit         *ssa.Function
	opts              map[string]int
	inputs            []InputRec
	nvar              int
	steps             int
	maxSteps          int
	mapSeq            int
	side              map[*Agg]interface{}
	spec              int // >0: speculative evaluation, no forks/side effects
	log               *undoLog
	fresh             map[*Agg]int
	freshN            int
	mfail             map[*ssa.If]int
	asserts           int
	assertSet         map[string]int
	gs                []*G
	race              *raceState
	preempts          int
	cur               *G
	dead              bool
	curFn             []*ssa.Function
	depth             int
	randN             int
	cmodels           map[string]*Agg   // liblinear models in files
	rtypes            map[string]*Agg   // reflect.Type objects
	normBase          int               // draws made when an option was last set: the option norm starts anew there
	drawn             map[int64][]*Term // draws by range, option freshdraws
	tokens            map[string]interface{}
	tokSeq            int
	covers            map[string]bool
	gdone             chan struct{}
	gpanic            interface{}
	gfrom             *G
	files             map[string]*vfile
	diskOps, diskRoom int
	diskFull          bool
}

type InputRec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	t    *Term
	fix  uint64
}

type frame struct {
	in       *Interp
	f        *cfn
	r        []Value
	prev     *ssa.BasicBlock
	next     int
	result   Value
	defers   []deferred
	panicked bool
	pv       *targetPanic
	recov    bool
	env      []Value
}

type deferred struct {
	fn   Value
	call *ssa.CallCommon
	args []Value
}

// opd is a resolved operand.
type opd struct {
	kind int8 // 0 reg, 1 const, 2 global, 3 freevar
	idx  int
	c    Value
	g    *ssa.Global
}

func (fr *frame) get(o *opd) Value {
	switch o.kind {
	case 0:
		return fr.r[o.idx]
	case 1:
		return o.c
	case 2:
		return Ptr{a: fr.in.globalCell(o.g)}
	}
	return fr.env[o.idx]
}
func (fr *frame) term(o *opd) *Term {
	v := fr.get(o)
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("scalar expected, got %T", v)))
	}
	return t
}

const (
	ctlNext = iota
	ctlJump
	ctlRet
	ctlPanic
)

type cinst func(fr *frame) int

type cblk struct {
	code    []cinst
	isPure  []bool
	phis    []*ssa.Phi
	phiDst  []int
	phiOps  [][]opd // [phi][pred]
	b       *ssa.BasicBlock
	predIdx map[int]int
	// diamond info
	pureJump bool // block is pure and ends in a jump, with a single predecessor
	seen     bool // executed (recorded for GOSYM_COV)
}

type cfn struct {
	fn     *ssa.Function
	fast   func(in *Interp, a []Value) (Value, bool)
	nreg   int
	blks   []*cblk
	params []int
	idx    map[ssa.Value]int
	recovB int
	ipdom  []int
}

func (in *Interp) globalCell(g *ssa.Global) *Agg {
	shared := in.w.isShared(g.Pkg)
	var m map[*ssa.Global]*Agg
	if shared {
		m = in.w.globals
	} else {
		m = in.globals
	}
	if c, ok := m[g]; ok {
		return c
	}
	if !strings.HasPrefix(g.Name(), "init$guard") {
		in.ensureInit(g.Pkg)
	}
	if c, ok := m[g]; ok {
		return c
	}
	c := &Agg{e: []Value{in.zero(g.Type().(*types.Pointer).Elem())}}
	if gv, ok := in.w.globalOverride(in, g); ok {
		c.e[0] = gv
	}
	m[g] = c
	return c
}

func (in *Interp) ensureInit(p *ssa.Package) {
	shared := in.w.isShared(p)
	if shared {
		if in.w.inited[p] {
			return
		}
		in.w.inited[p] = true
	} else {
		if in.inited[p] {
			return
		}
		in.inited[p] = true
	}
	if in.w.skipInit(p) {
		return
	}
	p.Build()
	f := p.Func("init")
	if f == nil {
		return
	}
	if in.spec > 0 {
		// initialisation has no effect on the program's visible state order
		s, l := in.spec, in.log
		in.spec, in.log = 0, nil
		defer func() { in.spec, in.log = s, l }()
	}
	in.initDepth++
	st := in.steps
	in.forceInit = f
	in.callFn(f, nil, nil)
	in.steps = st
	in.initDepth--
}

func (w *Worker) compile(fn *ssa.Function) *cfn {
	if c, ok := w.fns[fn]; ok {
		return c
	}
	{
		// Build waits when another worker is still building the package
		if fn.Pkg != nil {
			fn.Pkg.Build()
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		} else if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
			if p := w.prog.Package(ob.Pkg()); p != nil {
				p.Build()
			}
		}
	}
	if fn.Blocks == nil {
		return nil
	}
	c := &cfn{fn: fn, fast: fastModels[fn.String()], idx: map[ssa.Value]int{}, recovB: -1}
	reg := func(v ssa.Value) int {
		i := c.nreg
		c.idx[v] = i
		c.nreg++
		return i
	}
	for _, p := range fn.Params {
		c.params = append(c.params, reg(p))
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		cb := &cblk{b: b}
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, p)
				cb.phiDst = append(cb.phiDst, c.idx[p])
				var ops []opd
				for _, e := range p.Edges {
					ops = append(ops, w.opd(c, e))
				}
				cb.phiOps = append(cb.phiOps, ops)
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci, pure := w.compileInstr(c, ins)
			cb.code = append(cb.code, ci)
			cb.isPure = append(cb.isPure, pure)
		}
		if len(b.Preds) == 1 && len(cb.phis) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Jump); ok {
				ok := len(cb.code) <= 24
				for _, p := range cb.isPure[:len(cb.code)-1] {
					ok = ok && p
				}
				cb.pureJump = ok
			}
		}
		c.blks = append(c.blks, cb)
	}
	if fn.Recover != nil {
		c.recovB = fn.Recover.Index
	}
	w.fns[fn] = c
	return c
}

func (w *Worker) opd(c *cfn, v ssa.Value) opd {
	switch v := v.(type) {
	case *ssa.Const:
		return opd{kind: 1, c: w.constVal(v)}
	case *ssa.Global:
		return opd{kind: 2, g: v}
	case *ssa.Function:
		return opd{kind: 1, c: w.funcVal(v)}
	case *ssa.Builtin:
		return opd{kind: 1, c: v}
	case *ssa.FreeVar:
		for i, fv := range c.fn.FreeVars {
			if fv == v {
				return opd{kind: 3, idx: i}
			}
		}
	}
	i, ok := c.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), c.fn))
	}
	return opd{kind: 0, idx: i}
}

func (w *Worker) funcVal(f *ssa.Function) *Func {
	if x, ok := w.funcVals[f]; ok {
		return x
	}
	x := &Func{fn: f}
	w.funcVals[f] = x
	return x
}

func (w *Worker) constVal(c *ssa.Const) Value {
	in := &Interp{w: w, tb: w.tb}
	if c.Value == nil {
		return in.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		if tp, ok := c.Type().(*types.TypeParam); ok {
			_ = tp
		}
		panic(unsupported("const of type " + c.Type().String()))
	}
	if b.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		return Str{s: string(rune(c.Int64()))}
	}
	if b.Info()&types.IsComplex != 0 {
		return c.Complex128()
	}
	s, signed, ok := basicSort(b)
	if !ok {
		panic(unsupported("const " + c.String()))
	}
	switch {
	case s == SBool:
		return w.tb.Bool(constant.BoolVal(c.Value))
	case s == SF32:
		f, _ := constant.Float32Val(constant.ToFloat(c.Value))
		return w.tb.F32c(f)
	case s == SF64:
		return w.tb.F64(c.Float64())
	case signed:
		return w.tb.BV(uint64(c.Int64()), int(s))
	}
	return w.tb.BV(c.Uint64(), int(s))
}

func (in *Interp) rtPanic(msg string) targetPanic {
	if in.spec > 0 {
		panic(specAbort{})
	}
	return targetPanic{v: in.w.rtError(in, msg)}
}

// callFn runs an SSA function with arguments.
func (in *Interp) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	if m := in.w.modelFor(fn); m != nil {
		if in.spec > 0 {
			if !in.w.pureModel[fn] {
				panic(specAbort{})
			}
		}
		return m(in, fn, args)
	}
	if in.spec > 0 && in.log == nil {
		panic(specAbort{})
	}
	c := in.w.compile(fn)
	if c == nil {
		panic(unsupported("external function " + fn.String()))
	}
	if fn == in.forceInit {
		in.forceInit = nil
	} else if in.initDepth > 0 && fn.Name() == "init" && len(in.curFn) > 0 && in.curFn[len(in.curFn)-1].Pkg != fn.Pkg {
		return nil // imported packages initialise lazily
	}
	in.w.noteFn(fn)
	if c.fast != nil {
		if v, ok := c.fast(in, args); ok {
			return v
		}
	}
	in.depth++
	if in.depth > 4000 {
		panic(pathEnd{"steps", "recursion depth"})
	}
	in.curFn = append(in.curFn, fn)
	fr := &frame{in: in, f: c, r: make([]Value, c.nreg), env: env}
	for i, p := range c.params {
		fr.r[p] = args[i]
	}
	res := fr.run()
	in.depth--
	in.curFn = in.curFn[:len(in.curFn)-1]
	return res
}

func (fr *frame) run() Value {
	depth, nfn := fr.in.depth, len(fr.in.curFn)
	g := fr.in.cur
	normal := fr.runBlocks(0, g, depth, nfn)
	if normal {
		return fr.result
	}
	// a target panic reached this frame; deferred calls run
	fr.in.depth, fr.in.curFn = depth, fr.in.curFn[:nfn]
	fr.runDefers()
	if fr.pv != nil {
		panic(*fr.pv)
	}
	// recovered
	fr.in.depth, fr.in.curFn = depth, fr.in.curFn[:nfn]
	if fr.f.recovB >= 0 {
		fr.prev = nil
		if !fr.runBlocks(fr.f.recovB, g, depth, nfn) {
			panic(*fr.pv)
		}
		return fr.result
	}
	return fr.in.zeroResult(fr.f.fn)
}

func (in *Interp) zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(rs.At(0).Type())
	}
	return in.zero(rs)
}

// runBlocks executes from block b; returns false when a target panic stopped it
// (only functions with defers intercept panics).
func (fr *frame) runBlocks(b int, g *G, depth, nfn int) (ok bool) {
	if fr.f.recovB >= 0 || fr.hasDefer() {
		defer func() {
			if r := recover(); r != nil {
				if tp, is := r.(targetPanic); is {
					fr.pv = &tp
					ok = false
					return
				}
				panic(r)
			}
		}()
	}
	in := fr.in
	for {
		cb := fr.f.blks[b]
		if len(cb.phis) > 0 && fr.prev != nil {
			pi := -1
			for i, p := range cb.b.Preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(cb.phis) == 1 {
				fr.r[cb.phiDst[0]] = fr.get(&cb.phiOps[0][pi])
			} else {
				tmp := make([]Value, len(cb.phis))
				for i := range cb.phis {
					tmp[i] = fr.get(&cb.phiOps[i][pi])
				}
				for i := range cb.phis {
					fr.r[cb.phiDst[i]] = tmp[i]
				}
			}
		}
	body:
		if covOn {
			cb.seen = true
		}
		in.steps += len(cb.code)
		if profSteps != nil {
			profMu.Lock()
			profSteps[fr.f.fn.String()] += len(cb.code)
			profMu.Unlock()
		}
		if in.steps > in.maxSteps && in.initDepth == 0 {
			panic(pathEnd{"steps", "step limit in " + fr.f.fn.String()})
		}
		ctl := ctlNext
		for _, ins := range cb.code {
			ctl = ins(fr)
			if ctl != ctlNext {
				break
			}
		}
		switch ctl {
		case ctlJump:
			fr.prev = cb.b
			b = fr.next
			if b < 0 { // merged diamond: phis already set
				b = -b - 1
				cb = fr.f.blks[b]
				goto body
			}
		case ctlRet:
			return true
		default:
			panic("block fell through in " + fr.f.fn.String())
		}
	}
}

func (fr *frame) hasDefer() bool {
	return fr.f.fn.Recover != nil || len(fr.defers) > 0
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth, nfn := fr.in.depth, len(fr.in.curFn)
			defer func() {
				if r := recover(); r != nil {
					if tp, is := r.(targetPanic); is {
						fr.pv = &tp
						fr.in.depth, fr.in.curFn = depth, fr.in.curFn[:nfn]
						return
					}
					panic(r)
				}
			}()
			fr.in.callDeferred(fr, d)
		}()
	}
}

func (in *Interp) callDeferred(fr *frame, d deferred) {
	g := in.cur
	g.deferFrames = append(g.deferFrames, deferCtx{fr, in.depth})
	defer func() { g.deferFrames = g.deferFrames[:len(g.deferFrames)-1] }()
	if b, ok := d.fn.(*ssa.Builtin); ok {
		in.builtin(fr, b, d.args, d.call)
		return
	}
	in.callValue(d.fn, d.args)
}

func (in *Interp) doRecover() Value {
	g := in.cur
	if n := len(g.deferFrames); n > 0 {
		dc := g.deferFrames[n-1]
		// recover works only when called directly by the deferred function
		if in.depth == dc.depth+1 && dc.fr.pv != nil {
			v := dc.fr.pv.v
			dc.fr.pv = nil
			return v
		}
	}
	return Iface{}
}

func (in *Interp) callValue(f Value, args []Value) Value {
	fv, ok := f.(*Func)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", f)))
	}
	if fv == nil {
		panic(in.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
	}
	if fv.native != nil {
		if in.spec > 0 {
			panic(specAbort{})
		}
		return fv.native(in, args)
	}
	return in.callFn(fv.fn, args, fv.env)
}

func (in *Interp) callMethod(recv Iface, name string, pkg *types.Package, args ...Value) Value {
	if recv.t == nil {
		panic(in.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
	}
	fn := in.w.lookupMethod(recv.t, pkg, name)
	if fn == nil {
		panic(unsupported("no method " + name + " on " + recv.t.String()))
	}
	return in.callFn(fn, append([]Value{recv.v}, args...), nil)
}

// ---- memory access
func (in *Interp) nilCheck(p Ptr) {
	if p.a == nil {
		panic(in.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
	}
}

func (in *Interp) concPtr(p Ptr) Ptr {
	if p.sym != nil {
		k := in.concretize(p.sym)
		p = Ptr{a: p.a, i: p.i + int(k)}
	}
	return p
}

func (in *Interp) load(p Ptr, t types.Type) Value {
	in.nilCheck(p)
	if in.race != nil {
		in.raceMem(p, false)
	}
	if p.sym != nil {
		// if-then-else chain over scalar cells
		if v := in.loadSym(p); v != nil {
			return v
		}
		p = in.concPtr(p)
	}
	if p.i >= len(p.a.e) || p.i < 0 {
		panic(unsupported("load outside object"))
	}
	v := p.a.e[p.i]
	switch x := v.(type) {
	case *Term:
		if b, ok := t.Underlying().(*types.Basic); ok {
			if s, _, ok := basicSort(b); ok && s != x.sort {
				return in.loadReinterp(p, s)
			}
		}
		return x
	case *Agg:
		if _, ok := t.Underlying().(*types.Basic); ok {
			// pointer to array reinterpreted as scalar
			return in.load(Ptr{a: x}, t)
		}
		return copyVal(x)
	}
	return v
}

func (in *Interp) loadSym(p Ptr) Value {
	first, ok := p.a.e[p.i].(*Term)
	if !ok || p.n > 4096 {
		return nil
	}
	lo, hi := 0, p.n-1
	if p.sym.hasB {
		if p.sym.lo > 0 {
			lo = int(p.sym.lo)
		}
		if p.sym.hi < int64(hi) {
			hi = int(p.sym.hi)
		}
	}
	if lo > hi {
		lo, hi = 0, p.n-1
	}
	var r *Term
	for k := hi; k >= lo; k-- {
		t, ok := p.a.e[p.i+k].(*Term)
		if !ok || t.sort != first.sort {
			return nil
		}
		if r == nil {
			r = t
		} else {
			r = in.tb.Ite(in.tb.Eq(p.sym, in.tb.BV(uint64(k), int(p.sym.sort))), t, r)
		}
	}
	return r
}

// loadReinterp reads a scalar of another width from byte-like cells (unsafe).
func (in *Interp) loadReinterp(p Ptr, s Sort) Value {
	x := p.a.e[p.i].(*Term)
	w := int(s)
	if s == SF64 {
		w = 64
	} else if s == SF32 {
		w = 32
	}
	xw := int(x.sort)
	if x.sort == SF64 {
		xw, x = 64, in.tb.FToBits(x)
	} else if x.sort == SF32 {
		xw, x = 32, in.tb.FToBits(x)
	} else if x.sort == SBool {
		panic(unsupported("reinterpreting bool memory"))
	}
	var r *Term
	switch {
	case xw == w:
		r = x
	case xw > w:
		r = in.tb.Extract(x, w-1, 0)
	default:
		n := w / xw
		if p.i+n > len(p.a.e) {
			panic(unsupported("unsafe read past the end of an object"))
		}
		r = nil
		for k := 0; k < n; k++ {
			c, ok := p.a.e[p.i+k].(*Term)
			if !ok || int(c.sort) != xw {
				panic(unsupported("unsafe read of mixed memory"))
			}
			if r == nil {
				r = c
			} else {
				r = in.tb.Concat(c, r)
			}
		}
	}
	if s.isFP() {
		return in.tb.FBits(r)
	}
	return r
}

func (in *Interp) store(p Ptr, v Value) {
	in.nilCheck(p)
	if in.race != nil {
		in.raceMem(p, true)
	}
	if in.spec > 0 && in.log == nil {
		panic(specAbort{})
	}
	if p.sym != nil {
		if t, ok := v.(*Term); ok && p.n <= 4096 {
			all := true
			for k := 0; k < p.n; k++ {
				if c, ok := p.a.e[p.i+k].(*Term); !ok || c.sort != t.sort {
					all = false
					break
				}
			}
			if all {
				for k := 0; k < p.n; k++ {
					c := p.a.e[p.i+k].(*Term)
					in.set(p.a, p.i+k, in.tb.Ite(in.tb.Eq(p.sym, in.tb.BV(uint64(k), int(p.sym.sort))), t, c))
				}
				return
			}
		}
		p = in.concPtr(p)
	}
	if t, ok := v.(*Term); ok {
		if p.i >= len(p.a.e) {
			panic(unsupported("store outside object"))
		}
		if c, ok := p.a.e[p.i].(*Term); ok && c.sort != t.sort && c.sort != SBool && t.sort != SBool {
			in.storeReinterp(p, c, t)
			return
		}
		in.set(p.a, p.i, t)
		return
	}
	if src, ok := v.(*Agg); ok {
		// keep identity of nested aggregates: interior pointers stay valid
		if dst, ok := p.a.e[p.i].(*Agg); ok && len(dst.e) == len(src.e) {
			in.assignAgg(dst, src)
			return
		}
		in.set(p.a, p.i, copyVal(src))
		return
	}
	in.set(p.a, p.i, v)
}

func (in *Interp) assignAgg(dst, src *Agg) {
	if dst == src {
		return
	}
	for i, x := range src.e {
		if xa, ok := x.(*Agg); ok {
			if da, ok := dst.e[i].(*Agg); ok && len(da.e) == len(xa.e) {
				in.assignAgg(da, xa)
				continue
			}
			in.set(dst, i, copyVal(xa))
			continue
		}
		in.set(dst, i, x)
	}
}

func (in *Interp) storeReinterp(p Ptr, c, t *Term) {
	bv := func(x *Term) *Term {
		if x.sort.isFP() {
			return in.tb.FToBits(x)
		}
		return x
	}
	v := bv(t)
	cw := int(bv(c).sort)
	w := int(v.sort)
	switch {
	case cw == w:
		if c.sort.isFP() {
			v = in.tb.FBits(v)
		}
		in.set(p.a, p.i, v)
	case cw < w:
		n := w / cw
		if p.i+n > len(p.a.e) {
			panic(unsupported("unsafe write past the end of an object"))
		}
		for k := 0; k < n; k++ {
			in.set(p.a, p.i+k, in.tb.Extract(v, (k+1)*cw-1, k*cw))
		}
	default:
		panic(unsupported("unsafe narrow write"))
	}
}

// ---- bounds and indices
func (in *Interp) idx64(t *Term, ty types.Type) *Term {
	if t.sort == 64 {
		return t
	}
	b := ty.Underlying().(*types.Basic)
	_, signed, _ := basicSort(b)
	if signed {
		return in.tb.SExt(t, 64)
	}
	return in.tb.ZExt(t, 64)
}

// boundsCheck forks off the out-of-range case as a target panic.
func (in *Interp) boundsCheck(i *Term, n int) {
	if i.isConst() {
		if i.val >= uint64(n) {
			panic(in.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i.val), n)))
		}
		return
	}
	if !in.branch(in.tb.ULt(i, in.tb.Int(int64(n)))) {
		panic(in.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n)))
	}
}

func (in *Interp) elemPtr(a *Agg, off int, i *Term, n int) Ptr {
	in.boundsCheck(i, n)
	if i.isConst() {
		return Ptr{a: a, i: off + int(i.val)}
	}
	return Ptr{a: a, i: off, sym: i, n: n}
}

// ---- instruction compilation
func (w *Worker) compileInstr(c *cfn, ins ssa.Instruction) (cinst, bool) {
	dst := -1
	if v, ok := ins.(ssa.Value); ok {
		dst = c.idx[v]
	}
	op := func(v ssa.Value) *opd {
		o := w.opd(c, v)
		return &o
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) int {
			if !x.Heap {
				if p, ok := fr.r[dst].(Ptr); ok && false {
					_ = p
				}
			}
			p := Ptr{a: &Agg{e: []Value{fr.in.zero(t)}}}
			fr.in.markFresh(p.a)
			fr.r[dst] = p
			return ctlNext
		}, false
	case *ssa.UnOp:
		a := op(x.X)
		switch x.Op {
		case token.MUL:
			t := x.Type()
			return func(fr *frame) int {
				p, ok := fr.get(a).(Ptr)
				if !ok {
					panic(unsupported(fmt.Sprintf("load through %T", fr.get(a))))
				}
				fr.r[dst] = fr.in.load(p, t)
				return ctlNext
			}, true
		case token.ARROW:
			ct := x.X.Type().Underlying().(*types.Chan).Elem()
			return func(fr *frame) int {
				v, ok := fr.in.chanRecv(fr.get(a).(*Chan), ct)
				if x.CommaOk {
					fr.r[dst] = Tuple{v, fr.in.tb.Bool(ok)}
				} else {
					fr.r[dst] = v
				}
				return ctlNext
			}, false
		case token.NOT:
			return func(fr *frame) int {
				fr.r[dst] = fr.in.tb.Not(fr.term(a))
				return ctlNext
			}, true
		case token.SUB:
			return func(fr *frame) int {
				if z, ok := fr.get(a).(complex128); ok {
					fr.r[dst] = -z
					return ctlNext
				}
				t := fr.term(a)
				if t.sort.isFP() {
					fr.r[dst] = fr.in.tb.FNeg(t)
				} else {
					fr.r[dst] = fr.in.tb.BvNeg(t)
				}
				return ctlNext
			}, true
		case token.XOR:
			return func(fr *frame) int {
				fr.r[dst] = fr.in.tb.BvNot(fr.term(a))
				return ctlNext
			}, true
		}
	case *ssa.BinOp:
		a, b := op(x.X), op(x.Y)
		t := x.X.Type()
		ty := x.Y.Type()
		pure := true
		o := x.Op
		return func(fr *frame) int {
			fr.r[dst] = fr.in.binop(o, t, ty, fr.get(a), fr.get(b))
			return ctlNext
		}, pure
	case *ssa.Call:
		return w.compileCall(c, x, dst)
	case *ssa.ChangeInterface:
		a := op(x.X)
		return func(fr *frame) int { fr.r[dst] = fr.get(a); return ctlNext }, true
	case *ssa.ChangeType:
		a := op(x.X)
		return func(fr *frame) int { fr.r[dst] = fr.get(a); return ctlNext }, true
	case *ssa.Convert:
		a := op(x.X)
		from, to := x.X.Type(), x.Type()
		return func(fr *frame) int {
			fr.r[dst] = fr.in.convert(fr.get(a), from, to)
			return ctlNext
		}, true
	case *ssa.MultiConvert:
		a := op(x.X)
		from, to := x.X.Type(), x.Type()
		return func(fr *frame) int {
			fr.r[dst] = fr.in.convert(fr.get(a), from, to)
			return ctlNext
		}, true
	case *ssa.SliceToArrayPointer:
		a := op(x.X)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		return func(fr *frame) int {
			s := fr.get(a).(Slice)
			n := int(at.Len())
			if s.len < n {
				panic(fr.in.rtPanic("runtime error: cannot convert slice to array pointer"))
			}
			if s.off == 0 && s.a != nil && len(s.a.e) == n {
				fr.r[dst] = Ptr{a: &Agg{e: []Value{s.a}}}
				return ctlNext
			}
			if s.a == nil && n == 0 {
				fr.r[dst] = Ptr{}
				return ctlNext
			}
			panic(unsupported("slice to array pointer view"))
		}, false
	case *ssa.MakeInterface:
		a := op(x.X)
		t := x.X.Type()
		return func(fr *frame) int {
			fr.r[dst] = Iface{t: t, v: copyVal(fr.get(a))}
			return ctlNext
		}, true
	case *ssa.Extract:
		a := op(x.Tuple)
		i := x.Index
		return func(fr *frame) int {
			fr.r[dst] = fr.get(a).(Tuple)[i]
			return ctlNext
		}, true
	case *ssa.Slice:
		a := op(x.X)
		var lo, hi, mx *opd
		var lot, hit, mxt types.Type
		if x.Low != nil {
			lo, lot = op(x.Low), x.Low.Type()
		}
		if x.High != nil {
			hi, hit = op(x.High), x.High.Type()
		}
		if x.Max != nil {
			mx, mxt = op(x.Max), x.Max.Type()
		}
		return func(fr *frame) int {
			in := fr.in
			var l, h, m *Term
			if lo != nil {
				l = in.idx64(fr.term(lo), lot)
			}
			if hi != nil {
				h = in.idx64(fr.term(hi), hit)
			}
			if mx != nil {
				m = in.idx64(fr.term(mx), mxt)
			}
			fr.r[dst] = in.slice(fr.get(a), l, h, m)
			return ctlNext
		}, false
	case *ssa.Return:
		var os []*opd
		for _, r := range x.Results {
			os = append(os, op(r))
		}
		return func(fr *frame) int {
			switch len(os) {
			case 0:
				fr.result = nil
			case 1:
				fr.result = fr.get(os[0])
			default:
				t := make(Tuple, len(os))
				for i, o := range os {
					t[i] = fr.get(o)
				}
				fr.result = t
			}
			return ctlRet
		}, false
	case *ssa.RunDefers:
		return func(fr *frame) int {
			if fr.in.spec > 0 && len(fr.defers) > 0 {
				panic(specAbort{})
			}
			fr.runDefers()
			if fr.pv != nil {
				pv := *fr.pv
				fr.pv = nil
				panic(pv)
			}
			return ctlNext
		}, false
	case *ssa.Panic:
		a := op(x.X)
		return func(fr *frame) int {
			if fr.in.spec > 0 {
				panic(specAbort{})
			}
			v := fr.get(a).(Iface)
			if v.t == nil {
				panic(fr.in.rtPanic("panic called with nil argument"))
			}
			panic(targetPanic{v: v})
		}, false
	case *ssa.Store:
		a, v := op(x.Addr), op(x.Val)
		return func(fr *frame) int {
			fr.in.store(fr.get(a).(Ptr), fr.get(v))
			return ctlNext
		}, false
	case *ssa.If:
		return w.compileIf(c, x), false
	case *ssa.Jump:
		n := x.Block().Succs[0].Index
		return func(fr *frame) int { fr.next = n; return ctlJump }, true
	case *ssa.Defer:
		com := x.Common()
		prep := w.prepCall(c, com)
		return func(fr *frame) int {
			if fr.in.spec > 0 {
				panic(specAbort{})
			}
			f, args := prep(fr)
			fr.defers = append(fr.defers, deferred{fn: f, call: com, args: args})
			return ctlNext
		}, false
	case *ssa.Go:
		com := x.Common()
		prep := w.prepCall(c, com)
		return func(fr *frame) int {
			f, args := prep(fr)
			fr.in.spawn(f, args)
			return ctlNext
		}, false
	case *ssa.MakeClosure:
		var bs []*opd
		for _, b := range x.Bindings {
			bs = append(bs, op(b))
		}
		fn := x.Fn.(*ssa.Function)
		return func(fr *frame) int {
			env := make([]Value, len(bs))
			for i, b := range bs {
				env[i] = fr.get(b)
			}
			fr.r[dst] = &Func{fn: fn, env: env}
			return ctlNext
		}, true
	case *ssa.MakeMap:
		return func(fr *frame) int { fr.r[dst] = fr.in.newMap(); return ctlNext }, false
	case *ssa.MakeChan:
		a := op(x.Size)
		return func(fr *frame) int {
			fr.r[dst] = &Chan{cap: int(fr.in.concInt(fr.term(a)))}
			return ctlNext
		}, false
	case *ssa.MakeSlice:
		l, cp := op(x.Len), op(x.Cap)
		lt, ct := x.Len.Type(), x.Cap.Type()
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) int {
			in := fr.in
			n := in.concInt(in.idx64(fr.term(l), lt))
			m := in.concInt(in.idx64(fr.term(cp), ct))
			if n < 0 || n > 1<<40 {
				panic(in.rtPanic("runtime error: makeslice: len out of range"))
			}
			if m < n {
				panic(in.rtPanic("runtime error: makeslice: cap out of range"))
			}
			fr.r[dst] = in.makeSlice(et, int(n), int(m))
			return ctlNext
		}, false
	case *ssa.FieldAddr:
		a := op(x.X)
		i := x.Field
		return func(fr *frame) int {
			in := fr.in
			p := fr.get(a).(Ptr)
			in.nilCheck(p)
			p = in.concPtr(p)
			s, ok := p.a.e[p.i].(*Agg)
			if !ok {
				panic(unsupported(fmt.Sprintf("field of %T in %s", p.a.e[p.i], fr.f.fn)))
			}
			fr.r[dst] = Ptr{a: s, i: i}
			return ctlNext
		}, true
	case *ssa.Field:
		a := op(x.X)
		i := x.Field
		return func(fr *frame) int {
			fr.r[dst] = copyVal(fr.get(a).(*Agg).e[i])
			return ctlNext
		}, true
	case *ssa.IndexAddr:
		a, i := op(x.X), op(x.Index)
		it := x.Index.Type()
		return func(fr *frame) int {
			in := fr.in
			ix := in.idx64(fr.term(i), it)
			switch s := fr.get(a).(type) {
			case Slice:
				fr.r[dst] = in.elemPtr(s.a, s.off, ix, s.len)
			case Ptr:
				in.nilCheck(s)
				s = in.concPtr(s)
				arr := s.a.e[s.i].(*Agg)
				fr.r[dst] = in.elemPtr(arr, 0, ix, len(arr.e))
			default:
				panic(unsupported(fmt.Sprintf("IndexAddr of %T", s)))
			}
			return ctlNext
		}, true
	case *ssa.Index:
		a, i := op(x.X), op(x.Index)
		it := x.Index.Type()
		et := x.Type()
		return func(fr *frame) int {
			in := fr.in
			ix := in.idx64(fr.term(i), it)
			switch s := fr.get(a).(type) {
			case *Agg:
				fr.r[dst] = in.load(in.elemPtr(s, 0, ix, len(s.e)), et)
			case Str:
				fr.r[dst] = in.strIndex(s, ix)
			default:
				panic(unsupported(fmt.Sprintf("Index of %T", s)))
			}
			return ctlNext
		}, true
	case *ssa.Lookup:
		a, i := op(x.X), op(x.Index)
		it := x.Index.Type()
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			et := mt.Elem()
			return func(fr *frame) int {
				in := fr.in
				if in.spec > 0 && in.log == nil {
					panic(specAbort{})
				}
				m := fr.get(a).(*Map)
				if in.race != nil {
					in.raceMap(m, false)
				}
				e := in.mapFind(m, fr.get(i))
				var v Value
				if e != nil {
					v = copyVal(e.v)
				} else {
					v = in.zero(et)
				}
				if x.CommaOk {
					fr.r[dst] = Tuple{v, in.tb.Bool(e != nil)}
				} else {
					fr.r[dst] = v
				}
				return ctlNext
			}, false
		}
		return func(fr *frame) int {
			fr.r[dst] = fr.in.strIndex(fr.get(a).(Str), fr.in.idx64(fr.term(i), it))
			return ctlNext
		}, true
	case *ssa.MapUpdate:
		m, k, v := op(x.Map), op(x.Key), op(x.Value)
		return func(fr *frame) int {
			if fr.in.spec > 0 {
				panic(specAbort{})
			}
			if fr.in.race != nil {
				fr.in.raceMap(fr.get(m).(*Map), true)
			}
			fr.in.mapSet(fr.get(m).(*Map), copyVal(fr.get(k)), copyVal(fr.get(v)))
			return ctlNext
		}, false
	case *ssa.Range:
		a := op(x.X)
		return func(fr *frame) int {
			switch s := fr.get(a).(type) {
			case Str:
				fr.r[dst] = &Iter{s: s}
			case *Map:
				if fr.in.race != nil {
					fr.in.raceMap(s, false)
				}
				fr.r[dst] = &Iter{isMap: true, m: s, order: fr.in.mapOrder(s)}
			}
			return ctlNext
		}, false
	case *ssa.Next:
		a := op(x.Iter)
		tt := x.Type().(*types.Tuple)
		return func(fr *frame) int {
			fr.r[dst] = fr.in.iterNext(fr.get(a).(*Iter), tt)
			return ctlNext
		}, false
	case *ssa.TypeAssert:
		a := op(x.X)
		return func(fr *frame) int {
			fr.r[dst] = fr.in.typeAssert(fr.get(a).(Iface), x)
			return ctlNext
		}, false
	case *ssa.Send:
		ch, v := op(x.Chan), op(x.X)
		return func(fr *frame) int {
			fr.in.chanSend(fr.get(ch).(*Chan), copyVal(fr.get(v)))
			return ctlNext
		}, false
	case *ssa.Select:
		return w.compileSelect(c, x, dst), false
	}
	msg := fmt.Sprintf("instruction %T", ins)
	return func(fr *frame) int { panic(unsupported(msg)) }, false
}

func (in *Interp) makeSlice(et types.Type, n, m int) Slice {
	if m > 1<<24 {
		panic(unsupported(fmt.Sprintf("make of %d elements", m)))
	}
	a := &Agg{e: make([]Value, m)}
	if m > 0 {
		z := in.zero(et)
		_, isAgg := z.(*Agg)
		for k := range a.e {
			if isAgg && k > 0 {
				a.e[k] = copyVal(z)
			} else {
				a.e[k] = z
			}
		}
	}
	in.markFresh(a)
	return Slice{a: a, len: n, cap: m}
}

func (in *Interp) strIndex(s Str, ix *Term) Value {
	n := s.length()
	in.boundsCheck(ix, n)
	if ix.isConst() {
		return in.strByte(s, int(ix.val))
	}
	bs := in.strBytes(s)
	lo, hi := 0, n-1
	if ix.hasB {
		lo, hi = max(lo, int(ix.lo)), int(min(int64(hi), ix.hi))
	}
	r := bs[hi]
	for k := hi - 1; k >= lo; k-- {
		r = in.tb.Ite(in.tb.Eq(ix, in.tb.Int(int64(k))), bs[k], r)
	}
	return r
}

func (in *Interp) slice(v Value, l, h, m *Term) Value {
	tb := in.tb
	var length, capn int
	switch s := v.(type) {
	case Str:
		length, capn = s.length(), s.length()
	case Slice:
		length, capn = s.len, s.cap
	case Ptr:
		in.nilCheck(s)
		s = in.concPtr(s)
		v = s
		length = len(s.a.e[s.i].(*Agg).e)
		capn = length
	}
	if l == nil {
		l = tb.Int(0)
	}
	if h == nil {
		h = tb.Int(int64(length))
	}
	chk := func(t *Term, limit *Term) {
		if !in.branch(tb.ULe(t, limit)) {
			panic(in.rtPanic("runtime error: slice bounds out of range"))
		}
	}
	if m != nil {
		chk(m, tb.Int(int64(capn)))
		chk(h, m)
	} else {
		chk(h, tb.Int(int64(capn)))
	}
	chk(l, h)
	lo, hi := int(in.concInt(l)), int(in.concInt(h))
	mx := capn
	if m != nil {
		mx = int(in.concInt(m))
	}
	switch s := v.(type) {
	case Str:
		return subStr(s, lo, hi)
	case Slice:
		return Slice{a: s.a, off: s.off + lo, len: hi - lo, cap: mx - lo}
	case Ptr:
		return Slice{a: s.a.e[s.i].(*Agg), off: lo, len: hi - lo, cap: mx - lo}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", v)))
}

func (in *Interp) iterNext(it *Iter, tt *types.Tuple) Value {
	tb := in.tb
	if it.isMap {
		for it.i < len(it.order) {
			e := it.order[it.i]
			it.i++
			if e.dead {
				continue
			}
			return Tuple{tb.tru, copyVal(e.k), copyVal(e.v)}
		}
		r := Tuple{tb.fls, nil, nil}
		for k := 1; k < 3; k++ {
			if b, ok := tt.At(k).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				r[k] = in.zero(tt.At(k).Type())
			}
		}
		return r
	}
	if it.pos >= it.s.length() {
		return Tuple{tb.fls, tb.Int(0), tb.BV(0, 32)}
	}
	pos := it.pos
	b := in.strByte(it.s, pos)
	if in.branch(tb.ULt(b, tb.BV(0x80, 8))) {
		it.pos++
		return Tuple{tb.tru, tb.Int(int64(pos)), tb.ZExt(b, 32)}
	}
	r := in.callFn(in.w.fnByName("unicode/utf8", "DecodeRuneInString"), []Value{subStr(it.s, pos, it.s.length())}, nil).(Tuple)
	it.pos += int(in.concInt(r[1].(*Term)))
	return Tuple{tb.tru, tb.Int(int64(pos)), r[0]}
}

func (in *Interp) typeAssert(v Iface, x *ssa.TypeAssert) Value {
	ok := false
	var res Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if v.t != nil && in.w.implements(v.t, it) {
			ok = true
			res = v
		} else {
			res = Iface{}
		}
	} else {
		if v.t != nil && types.Identical(v.t, x.AssertedType) {
			ok = true
			res = copyVal(v.v)
		} else {
			res = in.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{res, in.tb.Bool(ok)}
	}
	if !ok {
		n := "nil"
		if v.t != nil {
			n = v.t.String()
		}
		panic(in.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", n, x.AssertedType)))
	}
	return res
}

// ---- If, with merging of pure diamonds
func (w *Worker) compileIf(c *cfn, x *ssa.If) cinst {
	cond := w.opd(c, x.Cond)
	blk := x.Block()
	tS, fS := blk.Succs[0].Index, blk.Succs[1].Index
	var dia *diamond
	built := false
	return func(fr *frame) int {
		t := fr.term(&cond)
		if t.isConst() {
			if t.val == 1 {
				fr.next = tS
			} else {
				fr.next = fS
			}
			return ctlJump
		}
		in := fr.in
		if !built {
			dia = findDiamond(c, blk)
			built = true
		}
		if dia != nil && in.optDef("merge", 2) >= 1 && in.initDepth == 0 {
			if fr.tryMerge(dia, t) {
				fr.next = -dia.join - 1
				return ctlJump
			}
		}
		if in.initDepth == 0 && in.optDef("merge", 2) >= 2 {
			if r := fr.mergeRegion(x, c, t, tS, fS); r != 0 {
				return r
			}
		}
		if in.branch(t) {
			fr.next = tS
		} else {
			fr.next = fS
		}
		return ctlJump
	}
}

type diamond struct {
	t, f       int // pure blocks to run, -1 for none
	join       int
	tPred, fPr int // predecessor indices in join
}

func findDiamond(c *cfn, b *ssa.BasicBlock) *diamond {
	tb, fb := b.Succs[0], b.Succs[1]
	if tb == fb {
		return nil
	}
	pure := func(x *ssa.BasicBlock) bool { return c.blks[x.Index].pureJump }
	pred := func(j, p *ssa.BasicBlock) int {
		for i, q := range j.Preds {
			if q == p {
				return i
			}
		}
		return -1
	}
	var d *diamond
	switch {
	case pure(tb) && tb.Succs[0] == fb:
		d = &diamond{t: tb.Index, f: -1, join: fb.Index, tPred: pred(fb, tb), fPr: pred(fb, b)}
	case pure(fb) && fb.Succs[0] == tb:
		d = &diamond{t: -1, f: fb.Index, join: tb.Index, tPred: pred(tb, b), fPr: pred(tb, fb)}
	case pure(tb) && pure(fb) && tb.Succs[0] == fb.Succs[0]:
		j := tb.Succs[0]
		d = &diamond{t: tb.Index, f: fb.Index, join: j.Index, tPred: pred(j, tb), fPr: pred(j, fb)}
	}
	if d != nil && len(c.blks[d.join].phis) == 0 {
		return nil
	}
	return d
}

func (fr *frame) tryMerge(d *diamond, cond *Term) (ok bool) {
	in := fr.in
	steps := in.steps
	in.spec++
	var vals []Value
	done := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(specAbort); is {
					ok = false
					return
				}
				if pe, is := r.(pathEnd); is && pe.kind == "unsupported" {
					ok = false
					return
				}
				panic(r)
			}
		}()
		for _, bi := range []int{d.t, d.f} {
			if bi < 0 {
				continue
			}
			if covOn {
				fr.f.blks[bi].seen = true
			}
			code := fr.f.blks[bi].code
			for _, ins := range code[:len(code)-1] {
				ins(fr)
			}
		}
		j := fr.f.blks[d.join]
		vals = make([]Value, len(j.phis))
		for i := range j.phis {
			a := fr.get(&j.phiOps[i][d.tPred])
			b := fr.get(&j.phiOps[i][d.fPr])
			v, ok := in.mergeVals(cond, a, b)
			if !ok {
				return false
			}
			vals[i] = v
		}
		return true
	}()
	in.spec--
	if !done {
		in.steps = steps
		return false
	}
	j := fr.f.blks[d.join]
	if covOn {
		j.seen = true
	}
	for i := range j.phis {
		fr.r[j.phiDst[i]] = vals[i]
	}
	in.w.merges++
	return true
}

// ---- calls
func (w *Worker) prepCall(c *cfn, com *ssa.CallCommon) func(fr *frame) (Value, []Value) {
	var as []*opd
	for _, a := range com.Args {
		o := w.opd(c, a)
		as = append(as, &o)
	}
	if com.IsInvoke() {
		recv := w.opd(c, com.Value)
		m := com.Method
		return func(fr *frame) (Value, []Value) {
			v, ok := fr.get(&recv).(Iface)
			if !ok {
				panic(unsupported(fmt.Sprintf("invoke on %T", fr.get(&recv))))
			}
			if v.t == nil {
				panic(fr.in.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
			}
			fn := w.lookupMethod(v.t, m.Pkg(), m.Name())
			if fn == nil {
				panic(unsupported("method " + m.Name() + " of " + v.t.String()))
			}
			args := make([]Value, len(as)+1)
			args[0] = v.v
			for i, a := range as {
				args[i+1] = fr.get(a)
			}
			return w.funcVal(fn), args
		}
	}
	f := w.opd(c, com.Value)
	return func(fr *frame) (Value, []Value) {
		args := make([]Value, len(as))
		for i, a := range as {
			args[i] = fr.get(a)
		}
		return fr.get(&f), args
	}
}

func (w *Worker) compileCall(c *cfn, x *ssa.Call, dst int) (cinst, bool) {
	com := x.Common()
	prep := w.prepCall(c, com)
	if b, ok := com.Value.(*ssa.Builtin); ok {
		pure := b.Name() == "len" || b.Name() == "cap"
		return func(fr *frame) int {
			_, args := prep(fr)
			fr.r[dst] = fr.in.builtin(fr, b, args, com)
			return ctlNext
		}, pure
	}
	pure := false
	if fn, ok := com.Value.(*ssa.Function); ok && pureModels[fn.String()] {
		pure = true
	}
	return func(fr *frame) int {
		f, args := prep(fr)
		for i, a := range args {
			if _, ok := a.(*Agg); ok {
				args[i] = copyVal(a)
			}
		}
		fr.r[dst] = fr.in.callValue(f, args)
		return ctlNext
	}, pure
}

var debugOn = os.Getenv("GOSYM_DEBUG") != ""

func (in *Interp) trace() string {
	var s []string
	for i := len(in.curFn) - 1; i >= 0 && len(s) < 12; i-- {
		s = append(s, in.curFn[i].String())
	}
	return strings.Join(s, " < ")
}

var _ = math.Abs
var _ = debug.Stack
