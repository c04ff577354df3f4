package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) binop(op token.Token, t, ty types.Type, a, b Value) Value {
	tb := in.tb
	switch op {
	case token.EQL:
		return in.eqMixed(t, ty, a, b)
	case token.NEQ:
		return tb.Not(in.eqMixed(t, ty, a, b))
	}
	switch x := a.(type) {
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			return in.strCat(x, y)
		case token.LSS:
			return in.strLt(x, y)
		case token.GTR:
			return in.strLt(y, x)
		case token.LEQ:
			return tb.Not(in.strLt(y, x))
		case token.GEQ:
			return tb.Not(in.strLt(x, y))
		}
	case complex128:
		y := b.(complex128)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		bt, ok := t.Underlying().(*types.Basic)
		if !ok {
			break
		}
		_, signed, _ := basicSort(bt)
		if x.sort.isFP() {
			switch op {
			case token.ADD:
				return tb.FBin(OFAdd, x, y)
			case token.SUB:
				return tb.FBin(OFSub, x, y)
			case token.MUL:
				return tb.FBin(OFMul, x, y)
			case token.QUO:
				return tb.FBin(OFDiv, x, y)
			case token.LSS:
				return tb.FCmp(OFLt, x, y)
			case token.LEQ:
				return tb.FCmp(OFLe, x, y)
			case token.GTR:
				return tb.FCmp(OFLt, y, x)
			case token.GEQ:
				return tb.FCmp(OFLe, y, x)
			}
			break
		}
		if x.sort == SBool {
			switch op {
			case token.AND, token.LAND:
				return tb.And(x, y)
			case token.OR, token.LOR:
				return tb.Or(x, y)
			case token.XOR:
				return tb.Not(tb.Eq(x, y))
			}
			break
		}
		switch op {
		case token.SHL, token.SHR:
			return in.shift(op, x, y, signed, ty)
		}
		switch op {
		case token.ADD:
			return tb.bvbin(OBvAdd, x, y)
		case token.SUB:
			return tb.bvbin(OBvSub, x, y)
		case token.MUL:
			return tb.bvbin(OBvMul, x, y)
		case token.AND:
			return tb.bvbin(OBvAnd, x, y)
		case token.OR:
			return tb.bvbin(OBvOr, x, y)
		case token.XOR:
			return tb.bvbin(OBvXor, x, y)
		case token.AND_NOT:
			return tb.bvbin(OBvAnd, x, tb.BvNot(y))
		case token.QUO, token.REM:
			z := tb.Eq(y, tb.BV(0, int(y.sort)))
			if z.isConst() {
				if z.val == 1 {
					panic(in.rtPanic("runtime error: integer divide by zero"))
				}
			} else if in.branch(z) {
				panic(in.rtPanic("runtime error: integer divide by zero"))
			}
			o := OBvUDiv
			switch {
			case op == token.QUO && signed:
				o = OBvSDiv
			case op == token.REM && signed:
				o = OBvSRem
			case op == token.REM:
				o = OBvURem
			}
			return tb.bvbin(o, x, y)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			strict := op == token.LSS || op == token.GTR
			switch {
			case signed && strict:
				return tb.SLt(x, y)
			case signed:
				return tb.SLe(x, y)
			case strict:
				return tb.ULt(x, y)
			default:
				return tb.ULe(x, y)
			}
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T,%T", op, a, b)))
}

func (in *Interp) eqMixed(t, ty types.Type, a, b Value) *Term {
	_, ai := a.(Iface)
	_, bi := b.(Iface)
	if ai && !bi {
		b = Iface{t: ty, v: b}
	} else if bi && !ai {
		a = Iface{t: t, v: a}
	}
	return in.equal(a, b)
}

func (in *Interp) shift(op token.Token, x, y *Term, signed bool, ty types.Type) Value {
	tb := in.tb
	w := int(x.sort)
	if bt, ok := ty.Underlying().(*types.Basic); ok {
		if _, ys, _ := basicSort(bt); ys {
			neg := tb.SLt(y, tb.BV(0, int(y.sort)))
			if neg == tb.tru || neg != tb.fls && in.branch(neg) {
				panic(in.rtPanic("runtime error: negative shift amount"))
			}
		}
	}
	// bring the count to the width of x, saturating
	var c *Term
	yw := int(y.sort)
	switch {
	case yw == w:
		c = y
	case yw < w:
		c = tb.ZExt(y, w)
	default:
		big := tb.Not(tb.ULt(y, tb.BV(uint64(w), yw)))
		c = tb.Ite(big, tb.BV(uint64(min(w, int(mask(w)))), w), tb.Extract(y, w-1, 0))
	}
	if op == token.SHL {
		return tb.Shl(x, c)
	}
	if signed {
		if c.isConst() && c.val >= uint64(w) {
			c = tb.BV(uint64(w-1), w)
		}
		return tb.AShr(x, c)
	}
	return tb.LShr(x, c)
}

func (in *Interp) convert(v Value, from, to types.Type) Value {
	tb := in.tb
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Pointer:
		return v // unsafe.Pointer -> *T
	case *types.Slice:
		s, ok := v.(Str)
		if !ok {
			return v
		}
		eb := t.Elem().Underlying().(*types.Basic)
		if eb.Kind() == types.Uint8 {
			bs := in.strBytes(s)
			a := &Agg{e: make([]Value, len(bs))}
			for i, b := range bs {
				a.e[i] = b
			}
			return Slice{a: a, len: len(bs), cap: len(bs)}
		}
		// []rune
		a := &Agg{}
		it := &Iter{s: s}
		tt := types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool]), types.NewVar(0, nil, "", types.Typ[types.Int]), types.NewVar(0, nil, "", types.Typ[types.Rune]))
		for {
			r := in.iterNext(it, tt).(Tuple)
			if r[0].(*Term) == tb.fls {
				break
			}
			a.e = append(a.e, r[2])
		}
		return Slice{a: a, len: len(a.e), cap: len(a.e)}
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			if tm, ok := v.(*Term); ok && tm.isConst() && tm.val == 0 {
				return Ptr{}
			}
			return v
		}
		if t.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				if x.len == 0 {
					return Str{}
				}
				if eb, ok := fu.(*types.Slice); ok && eb.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
					bs := make([]*Term, x.len)
					for i := range bs {
						bs[i] = x.a.e[x.off+i].(*Term)
					}
					return mkStr(bs)
				}
				r := Str{}
				for i := 0; i < x.len; i++ {
					r = in.strCat(r, in.runeStr(x.a.e[x.off+i].(*Term)))
				}
				return r
			case *Term:
				return in.runeStr(tb.Extract(tb.SExt(x, 64), 31, 0))
			}
		}
		if t.Info()&types.IsComplex != 0 {
			return v
		}
		x, ok := v.(*Term)
		if !ok {
			if p, isP := v.(Ptr); isP && t.Kind() == types.Uintptr {
				if p.a == nil {
					return tb.BV(0, 64)
				}
				return tb.BV(in.w.addrOf(p), 64)
			}
			break
		}
		fb, ok := fu.(*types.Basic)
		if !ok {
			break
		}
		_, fs, _ := basicSort(fb)
		ts, tsg, _ := basicSort(t)
		switch {
		case x.sort.isFP() && ts.isFP():
			return tb.FConv(x, ts)
		case x.sort.isFP():
			return tb.FToInt(x, tsg, int(ts))
		case ts.isFP():
			return tb.FFromInt(x, fs, ts)
		case x.sort == SBool:
			return x
		default:
			w, xw := int(ts), int(x.sort)
			switch {
			case w == xw:
				return x
			case w < xw:
				return tb.Extract(x, w-1, 0)
			case fs:
				return tb.SExt(x, w)
			default:
				return tb.ZExt(x, w)
			}
		}
	}
	panic(unsupported(fmt.Sprintf("convert %s to %s (%T)", from, to, v)))
}

func (in *Interp) runeStr(r *Term) Str {
	if r.isConst() {
		return Str{s: string(rune(int32(r.val)))}
	}
	if in.branch(in.tb.ULt(r, in.tb.BV(0x80, 32))) {
		return mkStr([]*Term{in.tb.Extract(r, 7, 0)})
	}
	// encode through utf8.AppendRune
	res := in.callFn(in.w.fnByName("unicode/utf8", "AppendRune"), []Value{Slice{}, r}, nil).(Slice)
	bs := make([]*Term, res.len)
	for i := range bs {
		bs[i] = res.a.e[res.off+i].(*Term)
	}
	return mkStr(bs)
}

func (in *Interp) appendVals(s Slice, add []Value, et types.Type) Slice {
	n := s.len + len(add)
	if n <= s.cap {
		for i, v := range add {
			in.storeCell(s.a, s.off+s.len+i, v)
		}
		return Slice{a: s.a, off: s.off, len: n, cap: s.cap}
	}
	nc := growCap(s.cap, n, et)
	a := &Agg{e: make([]Value, nc)}
	for i := 0; i < s.len; i++ {
		a.e[i] = s.a.e[s.off+i]
		if g, ok := a.e[i].(*Agg); ok {
			a.e[i] = copyVal(g)
		}
	}
	for i, v := range add {
		a.e[s.len+i] = copyVal(v)
	}
	if nc > n {
		z := in.zero(et)
		_, isAgg := z.(*Agg)
		for i := n; i < nc; i++ {
			if isAgg {
				a.e[i] = copyVal(z)
			} else {
				a.e[i] = z
			}
		}
	}
	in.markFresh(a)
	return Slice{a: a, len: n, cap: nc}
}

func (in *Interp) storeCell(a *Agg, i int, v Value) {
	if x, ok := v.(*Agg); ok {
		if d, ok := a.e[i].(*Agg); ok && len(d.e) == len(x.e) {
			in.assignAgg(d, x)
			return
		}
		v = copyVal(v)
	}
	in.set(a, i, v)
}

func (in *Interp) sliceVals(s Slice) []Value {
	r := make([]Value, s.len)
	for i := range r {
		r[i] = s.a.e[s.off+i]
	}
	return r
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, com *ssa.CallCommon) Value {
	tb := in.tb
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return tb.Int(int64(x.length()))
		case Slice:
			return tb.Int(int64(x.len))
		case *Map:
			if x == nil {
				return tb.Int(0)
			}
			return tb.Int(int64(x.n))
		case *Chan:
			if x == nil {
				return tb.Int(0)
			}
			return tb.Int(int64(len(x.buf)))
		case *Agg:
			return tb.Int(int64(len(x.e)))
		case Ptr:
			return tb.Int(int64(len(x.a.e[x.i].(*Agg).e)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return tb.Int(int64(x.cap))
		case *Chan:
			return tb.Int(int64(x.cap))
		case *Agg:
			return tb.Int(int64(len(x.e)))
		case Ptr:
			return tb.Int(int64(len(x.a.e[x.i].(*Agg).e)))
		}
	}
	if in.spec > 0 && (in.log == nil || b.Name() != "append" && b.Name() != "copy") {
		panic(specAbort{})
	}
	switch b.Name() {
	case "append":
		s := args[0].(Slice)
		in.raceAppend(s, args[1])
		et := com.Args[0].Type().Underlying().(*types.Slice).Elem()
		switch y := args[1].(type) {
		case Str:
			bs := in.strBytes(y)
			vs := make([]Value, len(bs))
			for i, t := range bs {
				vs[i] = t
			}
			if len(vs) == 0 {
				return s
			}
			return in.appendVals(s, vs, et)
		case Slice:
			if y.len == 0 {
				return s
			}
			vs := in.sliceVals(y)
			// aliasing: copy aggregates first
			for i, v := range vs {
				vs[i] = copyVal(v)
			}
			return in.appendVals(s, vs, et)
		}
	case "copy":
		d := args[0].(Slice)
		var vs []Value
		switch y := args[1].(type) {
		case Str:
			for _, t := range in.strBytes(y) {
				vs = append(vs, t)
			}
		case Slice:
			vs = in.sliceVals(y)
		}
		n := min(d.len, len(vs))
		if in.race != nil {
			if y, ok := args[1].(Slice); ok {
				in.raceRange(y, 0, n, false)
			}
			in.raceRange(d, 0, n, true)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(vs[i])
		}
		for i := 0; i < n; i++ {
			in.storeCell(d.a, d.off+i, tmp[i])
		}
		return tb.Int(int64(n))
	case "delete":
		if in.race != nil {
			in.raceMap(args[0].(*Map), true)
		}
		in.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.n, x.nsym, x.idx = nil, 0, 0, map[string]*mapEntry{}
			}
		case Slice:
			et := com.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < x.len; i++ {
				in.storeCell(x.a, x.off+i, in.zero(et))
			}
		}
		return nil
	case "panic":
		panic(targetPanic{v: args[0]})
	case "recover":
		return in.doRecover()
	case "print", "println":
		return nil
	case "close":
		in.chanClose(args[0].(*Chan))
		return nil
	case "min", "max":
		t := com.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if x, ok := r.(*Term); ok {
				y := a.(*Term)
				if x.sort.isFP() {
					if !x.isConst() || !y.isConst() {
						nan := tb.Or(tb.FIsNaN(x), tb.FIsNaN(y))
						if nan != tb.fls && in.branch(nan) {
							r = tb.F64b(0x7FF8000000000001)
							continue
						}
					}
				}
				r = tb.Ite(in.binop(op, t, t, y, x).(*Term), y, x)
			} else if in.branch(in.binop(op, t, t, a, r).(*Term)) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		p, ok := args[0].(Ptr)
		if ok && p.a == nil {
			panic(in.rtPanic("value method called using nil pointer"))
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "real":
		return tb.F64(real(args[0].(complex128)))
	case "imag":
		return tb.F64(imag(args[0].(complex128)))
	case "complex":
		return complex(args[0].(*Term).fval(), args[1].(*Term).fval())
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := int(in.concInt(args[1].(*Term)))
		if n == 0 {
			return Str{}
		}
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = p.a.e[p.i+i].(*Term)
		}
		return mkStr(bs)
	case "StringData":
		s := args[0].(Str)
		bs := in.strBytes(s)
		a := &Agg{e: make([]Value, len(bs))}
		for i, t := range bs {
			a.e[i] = t
		}
		return Ptr{a: a}
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := int(in.concInt(args[1].(*Term)))
		if p.a == nil {
			return Slice{}
		}
		return Slice{a: p.a, off: p.i, len: n, cap: n}
	case "Add": // unsafe.Add
		p := args[0].(Ptr)
		n := int(int64(in.concInt(args[1].(*Term))))
		if n == 0 || p.a == nil {
			return p
		}
		if p.sym != nil {
			p = in.concPtr(p)
		}
		size, _ := cLayout(p.a.e[p.i])
		if size == 0 || n%size != 0 || p.i+n/size < 0 || p.i+n/size >= len(p.a.e) {
			panic(unsupported("unsafe pointer arithmetic"))
		}
		return Ptr{a: p.a, i: p.i + n/size}
	case "SliceData":
		s := args[0].(Slice)
		if s.a == nil {
			return Ptr{}
		}
		return Ptr{a: s.a, i: s.off}
	}
	panic(unsupported("builtin " + b.Name()))
}

// ---- goroutines and channels (cooperative; switches at blocking operations)
type G struct {
	id          int
	wake        chan struct{}
	done        bool
	ready       func() bool
	deferFrames []deferCtx
	depth       int
	curFn       []*ssa.Function
	vc          vclock
}
type deferCtx struct {
	fr    *frame
	depth int
}

func (in *Interp) spawn(f Value, args []Value) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	g := &G{id: len(in.gs), wake: make(chan struct{})}
	in.gs = append(in.gs, g)
	in.raceSpawn(g)
	if len(in.gs) > 200 {
		panic(unsupported("too many goroutines"))
	}
	go func() {
		<-g.wake
		if in.dead {
			g.done = true
			in.gdone <- struct{}{}
			return
		}
		defer func() {
			r := recover()
			g.done = true
			if in.dead {
				in.gdone <- struct{}{}
				return
			}
			if r != nil {
				in.gpanic = r
				in.gfrom = g
				// hand the failure to the main goroutine
				in.switchTo(in.gs[0])
				return
			}
			// run something else
			nxt := in.pickReady()
			if nxt == nil {
				in.gpanic = targetPanic{v: in.w.rtError(in, "all goroutines are asleep - deadlock!")}
				nxt = in.gs[0]
			}
			in.switchTo(nxt)
		}()
		in.callValue(f, args)
	}()
	if s := in.optDef("sched", 0); s > 0 && s < 3 && in.choose(2) == 1 {
		in.yield()
	}
}

func (in *Interp) switchTo(g *G) {
	in.cur.depth, in.cur.curFn = in.depth, in.curFn
	in.cur = g
	in.depth, in.curFn = g.depth, g.curFn
	g.wake <- struct{}{}
}

func (in *Interp) pickReady() *G {
	var l []*G
	for _, g := range in.gs {
		if !g.done && g != in.cur && (g.ready == nil || g.ready()) {
			l = append(l, g)
		}
	}
	if len(l) == 0 {
		return nil
	}
	if s := in.optDef("sched", 0); s > 0 && s < 3 && len(l) > 1 {
		return l[in.choose(len(l))]
	}
	return l[0]
}

// block waits until cond holds, letting other goroutines run.
func (in *Interp) block(cond func() bool) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	for !cond() {
		me := in.cur
		me.ready = cond
		nxt := in.pickReady()
		if nxt == nil {
			panic(targetPanic{v: in.w.rtError(in, "all goroutines are asleep - deadlock!")})
		}
		in.switchTo(nxt)
		<-me.wake
		me.ready = nil
		in.resumed(me)
	}
}

func (in *Interp) resumed(me *G) {
	if in.dead {
		panic(pathEnd{"killed", ""})
	}
	if in.gpanic != nil && me.id == 0 {
		r := in.gpanic
		in.gpanic = nil
		panic(r)
	}
}

func (in *Interp) yield() {
	me := in.cur
	nxt := in.pickReady()
	if nxt == nil {
		return
	}
	me.ready = func() bool { return true }
	in.switchTo(nxt)
	<-me.wake
	me.ready = nil
	in.resumed(me)
}

func (in *Interp) killGoroutines() {
	in.dead = true
	for _, g := range in.gs[1:] {
		if !g.done {
			g.wake <- struct{}{}
			<-in.gdone
		}
	}
}

func (in *Interp) chanSend(c *Chan, v Value) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if c == nil {
		in.block(func() bool { return false })
	}
	if c.closed {
		panic(in.rtPanic("send on closed channel"))
	}
	in.raceRel(c)
	if c.cap > 0 {
		in.block(func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			panic(in.rtPanic("send on closed channel"))
		}
		c.buf = append(c.buf, v)
		in.raceAcq(raceKey{c, 1})
		return
	}
	it := &sendItem{v: v}
	c.sendq = append(c.sendq, it)
	in.block(func() bool { return it.taken || c.closed })
	in.raceAcq(raceKey{c, 1})
	if !it.taken {
		panic(in.rtPanic("send on closed channel"))
	}
}

func (in *Interp) chanReady(c *Chan) bool {
	return c != nil && (len(c.buf) > 0 || len(c.sendq) > 0 || c.closed)
}

func (in *Interp) chanTake(c *Chan, et types.Type) (Value, bool) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	in.raceAcq(c)
	in.raceRel(raceKey{c, 1})
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	if len(c.sendq) > 0 {
		it := c.sendq[0]
		c.sendq = c.sendq[1:]
		it.taken = true
		return it.v, true
	}
	return in.zero(et), false
}

func (in *Interp) chanRecv(c *Chan, et types.Type) (Value, bool) {
	c0 := c
	if c0 != nil {
		c0.recvWaiting++
	}
	in.block(func() bool { return in.chanReady(c0) })
	c0.recvWaiting--
	return in.chanTake(c, et)
}

func (in *Interp) chanClose(c *Chan) {
	if c == nil {
		panic(in.rtPanic("close of nil channel"))
	}
	if c.closed {
		panic(in.rtPanic("close of closed channel"))
	}
	in.raceRel(c)
	c.closed = true
}

func (w *Worker) compileSelect(c *cfn, x *ssa.Select, dst int) cinst {
	type st struct {
		ch, v *opd
		send  bool
		et    types.Type
	}
	var sts []st
	for _, s := range x.States {
		o := w.opd(c, s.Chan)
		e := st{ch: &o, send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if e.send {
			ov := w.opd(c, s.Send)
			e.v = &ov
		}
		sts = append(sts, e)
	}
	return func(fr *frame) int {
		in := fr.in
		rdy := func(i int) bool {
			ch := fr.get(sts[i].ch).(*Chan)
			if ch == nil {
				return false
			}
			if sts[i].send {
				return ch.closed || ch.cap > 0 && len(ch.buf) < ch.cap || ch.cap == 0 && ch.recvWaiting > len(ch.sendq)
			}
			return in.chanReady(ch)
		}
		var l []int
		collect := func() bool {
			l = l[:0]
			for i := range sts {
				if rdy(i) {
					l = append(l, i)
				}
			}
			return len(l) > 0
		}
		if !collect() {
			if !x.Blocking {
				fr.r[dst] = in.selectResult(x, -1, nil, false)
				return ctlNext
			}
			in.block(collect)
			collect()
		}
		k := l[0]
		if len(l) > 1 {
			k = l[in.choose(len(l))]
		}
		ch := fr.get(sts[k].ch).(*Chan)
		if sts[k].send {
			in.chanSend(ch, fr.get(sts[k].v))
			fr.r[dst] = in.selectResult(x, k, nil, false)
		} else {
			v, ok := in.chanTake(ch, sts[k].et)
			fr.r[dst] = in.selectResult(x, k, v, ok)
		}
		return ctlNext
	}
}

func (in *Interp) selectResult(x *ssa.Select, k int, v Value, ok bool) Value {
	r := Tuple{in.tb.Int(int64(k)), in.tb.Bool(ok)}
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			if i == k {
				r = append(r, v)
			} else {
				r = append(r, in.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return r
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var gcSizes = types.SizesFor("gc", "amd64")

// growCap follows runtime.growslice, because sharing after append is observable.
func growCap(old, n int, et types.Type) int {
	nc := old
	if n > 2*old {
		nc = n
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < n {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := int(gcSizes.Sizeof(et))
	if sz == 0 {
		return n
	}
	mem := nc * sz
	scan := hasPointers(et)
	extra := 0
	if scan && mem > 512 {
		extra = 8
	}
	if mem+extra <= 32768 {
		for _, c := range sizeClasses {
			if c >= mem+extra {
				return (c - extra) / sz
			}
		}
	}
	return (mem + 8191) / 8192 * 8192 / sz
}

func hasPointers(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.String || t.Kind() == types.UnsafePointer
	case *types.Array:
		return hasPointers(t.Elem())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPointers(t.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}
