package main

import (
	"golang.org/x/tools/go/ssa"
)

// Region merging: both sides of a symbolic branch run speculatively up to the
// branch's immediate postdominator with their writes undone afterwards; if
// everything they changed can be joined by if-then-else the path does not fork.

type undoEnt struct {
	a   *Agg
	i   int
	old Value
}
type undoLog struct {
	ents  []undoEnt
	start int // allocations with a number >= start belong to this side
}

func (in *Interp) set(a *Agg, i int, v Value) {
	if in.log != nil {
		if n, ok := in.fresh[a]; !ok || n < in.log.start {
			in.log.ents = append(in.log.ents, undoEnt{a, i, a.e[i]})
		}
	}
	a.e[i] = v
}

func (in *Interp) markFresh(a *Agg) {
	if in.log == nil {
		return
	}
	if in.fresh == nil {
		in.fresh = map[*Agg]int{}
	}
	in.freshN++
	in.fresh[a] = in.freshN
	for _, e := range a.e {
		if x, ok := e.(*Agg); ok {
			in.markFresh(x)
		}
	}
}

type cell struct {
	a *Agg
	i int
}

type sideRes struct {
	res   Value
	phis  []Value
	cells map[cell]Value // value after the side
	order []cell
	start int
}

// ipdom returns the immediate postdominator of block b (-1: function exit).
func (c *cfn) ipdomOf(b int) int {
	if c.ipdom == nil {
		n := len(c.blks)
		// postdominator sets by iteration over bitsets; node n is the exit
		sets := make([][]bool, n+1)
		for i := range sets {
			sets[i] = make([]bool, n+1)
			for k := range sets[i] {
				sets[i][k] = true
			}
		}
		for k := range sets[n] {
			sets[n][k] = k == n
		}
		for ch := true; ch; {
			ch = false
			for i := n - 1; i >= 0; i-- {
				blk := c.blks[i].b
				var succ []int
				for _, s := range blk.Succs {
					succ = append(succ, s.Index)
				}
				if len(succ) == 0 {
					if _, isPanic := blk.Instrs[len(blk.Instrs)-1].(*ssa.Panic); isPanic {
						continue // treated as never reaching the join
					}
					succ = []int{n}
				}
				for k := 0; k <= n; k++ {
					v := k == i
					if !v {
						v = true
						for _, s := range succ {
							if !sets[s][k] {
								v = false
								break
							}
						}
					}
					if v != sets[i][k] {
						sets[i][k] = v
						ch = true
					}
				}
			}
		}
		c.ipdom = make([]int, n)
		count := func(s []bool) int {
			k := 0
			for _, v := range s {
				if v {
					k++
				}
			}
			return k
		}
		for i := 0; i < n; i++ {
			best, bc := n, -1
			for k := 0; k <= n; k++ {
				if k != i && sets[i][k] {
					// the closest postdominator has the largest set
					var sz int
					sz = count(sets[k])
					if sz > bc {
						best, bc = k, sz
					}
				}
			}
			if best == n {
				c.ipdom[i] = -1
			} else {
				c.ipdom[i] = best
			}
		}
	}
	return c.ipdom[b]
}

const regionSteps = 60000

func (fr *frame) runSide(c *cfn, blk *ssa.BasicBlock, start, join, limit int) (res Value, phis []Value) {
	in := fr.in
	prev := blk
	b := start
	merged := false
	for {
		cb := c.blks[b]
		if covOn {
			cb.seen = true
		}
		if b == join {
			if merged {
				// phis of the join were set by an inner merge
				for _, d := range cb.phiDst {
					phis = append(phis, fr.r[d])
				}
				return nil, phis
			}
			pi := -1
			for i, p := range cb.b.Preds {
				if p == prev {
					pi = i
					break
				}
			}
			for i := range cb.phis {
				phis = append(phis, fr.get(&cb.phiOps[i][pi]))
			}
			return nil, phis
		}
		if cb.b.Dominates(blk) {
			panic(specAbort{})
		}
		if !merged && len(cb.phis) > 0 {
			pi := -1
			for i, p := range cb.b.Preds {
				if p == prev {
					pi = i
					break
				}
			}
			tmp := make([]Value, len(cb.phis))
			for i := range cb.phis {
				tmp[i] = fr.get(&cb.phiOps[i][pi])
			}
			for i := range cb.phis {
				fr.r[cb.phiDst[i]] = tmp[i]
			}
		}
		merged = false
		in.steps += len(cb.code)
		if in.steps > limit {
			panic(specAbort{})
		}
		ctl := ctlNext
		for _, ins := range cb.code {
			ctl = ins(fr)
			if ctl != ctlNext {
				break
			}
		}
		switch ctl {
		case ctlJump:
			prev = cb.b
			fr.prev = prev
			b = fr.next
			if b < 0 {
				b = -b - 1
				merged = true
			}
		case ctlRet:
			if join != -1 {
				panic(specAbort{})
			}
			return fr.result, nil
		default:
			panic(specAbort{})
		}
	}
}

func (fr *frame) mergeRegion(x *ssa.If, c *cfn, cond *Term, tS, fS int) (ctl int) {
	in := fr.in
	if in.mfail[x] >= 3 || in.spec > 6 || len(in.gs) > 1 {
		return 0
	}
	blk := x.Block()
	join := c.ipdomOf(blk.Index)
	if join == -1 && (fr.f.fn.Recover != nil || len(fr.defers) > 0) {
		return 0
	}
	steps, depth, nfn := in.steps, in.depth, len(in.curFn)
	outer := in.log
	prev0, result0 := fr.prev, fr.result
	regs := append([]Value{}, fr.r...)
	side := func(start int) (r *sideRes) {
		lg := &undoLog{start: in.freshN + 1}
		in.log = lg
		in.spec++
		limit := in.steps + regionSteps
		ok := false
		var res Value
		var phis []Value
		func() {
			defer func() {
				if e := recover(); e != nil {
					in.depth, in.curFn = depth, in.curFn[:nfn]
					if _, is := e.(specAbort); is {
						return
					}
					if pe, is := e.(pathEnd); is && pe.kind == "unsupported" {
						return
					}
					panic(e)
				}
			}()
			res, phis = fr.runSide(c, blk, start, join, limit)
			ok = true
		}()
		in.spec--
		in.log = outer
		if ok {
			r = &sideRes{res: res, phis: phis, cells: map[cell]Value{}, start: lg.start}
			for _, e := range lg.ents {
				k := cell{e.a, e.i}
				if _, had := r.cells[k]; !had {
					r.order = append(r.order, k)
				}
				r.cells[k] = e.a.e[e.i]
			}
		}
		for i := len(lg.ents) - 1; i >= 0; i-- {
			e := lg.ents[i]
			e.a.e[e.i] = e.old
		}
		copy(fr.r, regs)
		fr.prev, fr.result = prev0, result0
		return r
	}
	fail := func() int {
		in.steps = steps
		if in.mfail == nil {
			in.mfail = map[*ssa.If]int{}
		}
		in.mfail[x]++
		return 0
	}
	t := side(tS)
	if t == nil {
		return fail()
	}
	f := side(fS)
	if f == nil {
		return fail()
	}
	m := &merger{in: in, cond: cond, t: t.start, f: f.start}
	type upd struct {
		k cell
		v Value
	}
	var ups []upd
	do := func(k cell) bool {
		old := k.a.e[k.i]
		a, okA := t.cells[k]
		if !okA {
			a = old
		}
		b, okB := f.cells[k]
		if !okB {
			b = old
		}
		v, ok := m.merge(a, b)
		if ok {
			ups = append(ups, upd{k, v})
		}
		return ok
	}
	for _, k := range t.order {
		if !do(k) {
			return fail()
		}
	}
	for _, k := range f.order {
		if _, had := t.cells[k]; !had {
			if !do(k) {
				return fail()
			}
		}
	}
	var res Value
	var phis []Value
	if join == -1 {
		if t.res != nil || f.res != nil {
			v, ok := m.merge(t.res, f.res)
			if !ok {
				return fail()
			}
			res = v
		}
	} else {
		for i := range t.phis {
			v, ok := m.merge(t.phis[i], f.phis[i])
			if !ok {
				return fail()
			}
			phis = append(phis, v)
		}
	}
	for _, u := range ups {
		in.set(u.k.a, u.k.i, u.v)
	}
	for _, a := range m.made {
		in.markFresh(a)
	}
	in.w.merges++
	if in.mfail[x] > 0 {
		in.mfail[x]--
	}
	if join == -1 {
		fr.result = res
		return ctlRet
	}
	jb := c.blks[join]
	for i := range phis {
		fr.r[jb.phiDst[i]] = phis[i]
	}
	fr.next = -join - 1
	return ctlJump
}

type merger struct {
	in    *Interp
	cond  *Term
	t, f  int // first allocation number of each side (0: no fresh objects)
	pt    map[*Agg]*Agg
	pf    map[*Agg]*Agg
	made  []*Agg
	pairT map[*Agg]*Agg
}

func (in *Interp) mergeVals(cond *Term, a, b Value) (Value, bool) {
	m := &merger{in: in, cond: cond}
	return m.merge(a, b)
}

// obj joins two objects made on the two sides.
func (m *merger) obj(a, b *Agg) (*Agg, bool) {
	if a == b {
		return a, true
	}
	if m.t == 0 || a == nil || b == nil {
		return nil, false
	}
	na, ok1 := m.in.fresh[a]
	nb, ok2 := m.in.fresh[b]
	if !ok1 || !ok2 || na < m.t || nb < m.f || na >= m.f || len(a.e) != len(b.e) {
		return nil, false
	}
	if m.pt == nil {
		m.pt, m.pf, m.pairT = map[*Agg]*Agg{}, map[*Agg]*Agg{}, map[*Agg]*Agg{}
	}
	if p, ok := m.pairT[a]; ok {
		if p != b {
			return nil, false
		}
		return m.pt[a], true
	}
	if _, ok := m.pf[b]; ok {
		return nil, false
	}
	r := &Agg{e: make([]Value, len(a.e))}
	m.pt[a], m.pf[b], m.pairT[a] = r, r, b
	m.made = append(m.made, r)
	for i := range a.e {
		v, ok := m.merge(a.e[i], b.e[i])
		if !ok {
			return nil, false
		}
		r.e[i] = v
	}
	return r, true
}

func (m *merger) merge(a, b Value) (Value, bool) {
	in := m.in
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		return in.tb.Ite(m.cond, x, y), true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.sym != nil || y.sym != nil || x.i != y.i {
			return nil, false
		}
		o, ok := m.obj(x.a, y.a)
		return Ptr{a: o, i: x.i}, ok
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.len != y.len || x.off != y.off || x.cap != y.cap {
			return nil, false
		}
		o, ok := m.obj(x.a, y.a)
		return Slice{a: o, off: x.off, len: x.len, cap: x.cap}, ok
	case Str:
		y, ok := b.(Str)
		if !ok || x.length() != y.length() {
			return nil, false
		}
		if x.b == nil && y.b == nil && x.s == y.s {
			return x, true
		}
		if m.t == 0 {
			return nil, false
		}
		bs := make([]*Term, x.length())
		for i := range bs {
			bs[i] = in.tb.Ite(m.cond, in.strByte(x, i), in.strByte(y, i))
		}
		return mkStr(bs), true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return x, true
		}
		if x.t == nil || y.t == nil || x.t != y.t {
			return nil, false
		}
		v, ok := m.merge(x.v, y.v)
		return Iface{t: x.t, v: v}, ok
	case *Func:
		y, ok := b.(*Func)
		return x, ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return x, ok && x == y
	case *Chan:
		y, ok := b.(*Chan)
		return x, ok && x == y
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.e) != len(y.e) {
			return nil, false
		}
		r := &Agg{e: make([]Value, len(x.e))}
		for i := range x.e {
			v, ok := m.merge(x.e[i], y.e[i])
			if !ok {
				return nil, false
			}
			r.e[i] = v
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			v, ok := m.merge(x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	}
	return nil, false
}
