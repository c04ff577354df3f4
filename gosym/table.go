package main

import (
	"math"
	"sort"
)

// Exact tabulation. A comparison, conversion or NaN test whose value depends on
// up to three terms of small range (input variables, or exact integers inside a
// float expression) is evaluated at every point of that range and replaced by an
// equivalent case distinction on the integers, which spares the solver the
// floating-point circuit. The result is equal to the original term everywhere.

const (
	tabDomain = 2200
	tabPieces = 256
)

type leafSet struct {
	ts []*Term
	ok bool
}

func mergeLeaves(a, b leafSet) leafSet {
	if !a.ok || !b.ok {
		return leafSet{}
	}
	r := leafSet{ts: a.ts, ok: true}
outer:
	for _, t := range b.ts {
		for _, u := range r.ts {
			if u == t {
				continue outer
			}
		}
		if len(r.ts) == 3 {
			return leafSet{}
		}
		r.ts = append(append([]*Term{}, r.ts...), t)
	}
	return r
}

// leaves finds what t depends on: variables (exact=false) or the integers under
// its exact floats (exact=true).
func (tb *TB) leaves(t *Term, exact bool) leafSet {
	k := 0
	if exact {
		k = 1
	}
	if tb.leafMemo[k] == nil {
		tb.leafMemo[k] = map[*Term]leafSet{}
	}
	if r, ok := tb.leafMemo[k][t]; ok {
		return r
	}
	var r leafSet
	small := func(x *Term) leafSet {
		if x.hasB && x.lo >= -(1<<40) && x.hi <= 1<<40 && x.hi-x.lo < tabDomain {
			return leafSet{ts: []*Term{x}, ok: true}
		}
		return leafSet{}
	}
	switch {
	case t.op == OConst:
		r = leafSet{ok: true}
	case t.op == OUF && ufReal[t.name] == nil:
	case t.op == OVar:
		if !exact && t.sort.isBV() {
			r = small(t)
		}
	case exact && t.op == OFInt:
		r = small(t.a)
	case exact && t.sort.isBV() && t.op != OFToSBV && t.op != OFToUBV:
	default:
		r = leafSet{ok: true}
		for _, c := range []*Term{t.a, t.b, t.c} {
			if c != nil {
				r = mergeLeaves(r, tb.leaves(c, exact))
			}
		}
	}
	tb.leafMemo[k][t] = r
	return r
}

func hasInexact(t *Term, n *int) bool {
	*n++
	if *n > 400 {
		return false
	}
	switch t.op {
	case OFAdd, OFSub, OFMul, OFDiv, OFSqrt, OFRound, OFConv, OFFromSBV, OFFromUBV, OUF:
		return true
	case OFInt, OVar, OConst:
		return false
	}
	for _, c := range []*Term{t.a, t.b, t.c} {
		if c != nil && hasInexact(c, n) {
			return true
		}
	}
	return false
}

func tsize(t *Term, seen map[*Term]bool) {
	if seen[t] || len(seen) > 300 {
		return
	}
	seen[t] = true
	for _, c := range []*Term{t.a, t.b, t.c} {
		if c != nil {
			tsize(c, seen)
		}
	}
}

// tabulate returns an equivalent of t (Bool or bit-vector), or t itself.
func (tb *TB) tabulate(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if r, ok := tb.tabMemo[t]; ok {
		return r
	}
	r := tb.tabulate1(t)
	if tb.tabMemo == nil {
		tb.tabMemo = map[*Term]*Term{}
	}
	tb.tabMemo[t] = r
	return r
}

func (tb *TB) tabulate1(t *Term) *Term {
	n := 0
	if !hasInexact(t, &n) {
		return t
	}
	seen := map[*Term]bool{}
	tsize(t, seen)
	if len(seen) > 300 {
		return t
	}
	for k := 0; k < 2; k++ {
		l := tb.leaves(t, k == 1)
		if !l.ok || len(l.ts) == 0 {
			continue
		}
		size := int64(1)
		for _, x := range l.ts {
			size *= x.hi - x.lo + 1
		}
		if size > tabDomain || size*int64(len(seen)) > 250000 {
			continue
		}
		if r := tb.table(t, l.ts); r != nil {
			return r
		}
	}
	return t
}

func (tb *TB) table(t *Term, ls []*Term) *Term {
	ls = append([]*Term{}, ls...)
	sort.SliceStable(ls, func(i, j int) bool { return ls[i].hi-ls[i].lo < ls[j].hi-ls[j].lo })
	inner := ls[len(ls)-1]
	var ois []*Term // the exact floats standing for each leaf (same mantissa, any scale)
	var collect func(x *Term, seen map[*Term]bool)
	collect = func(x *Term, seen map[*Term]bool) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.op == OFInt {
			for _, l := range ls {
				if x.a == l {
					ois = append(ois, x)
				}
			}
		}
		for _, c := range []*Term{x.a, x.b, x.c} {
			if c != nil {
				collect(c, seen)
			}
		}
	}
	collect(t, map[*Term]bool{})
	at := func(vs []int64) (uint64, bool) {
		e := &evaluator{real: true, m: &Model{v: map[string]uint64{}}, memo: map[*Term]uint64{}}
		for i, l := range ls {
			e.memo[l] = uint64(vs[i]) & mask(int(l.sort))
			for _, o := range ois {
				if o.a == l {
					e.memo[o] = math.Float64bits(math.Ldexp(float64(vs[i]), -int(o.val)))
				}
			}
		}
		v := e.ev(t)
		return v, !e.fail && len(e.m.v) == 0
	}
	type piece struct {
		lo, hi int64
		v      uint64
	}
	pieces := 0
	row := func(pre []int64) ([]piece, bool) {
		var ps []piece
		for v := inner.lo; v <= inner.hi; v++ {
			x, ok := at(append(append([]int64{}, pre...), v))
			if !ok {
				return nil, false
			}
			if n := len(ps); n > 0 && ps[n-1].v == x {
				ps[n-1].hi = v
			} else {
				ps = append(ps, piece{v, v, x})
			}
			if len(ps) > tabPieces {
				return nil, false
			}
		}
		pieces += len(ps)
		return ps, true
	}
	konst := func(v uint64) *Term {
		if t.sort == SBool {
			return tb.Bool(v != 0)
		}
		return tb.BV(v, int(t.sort))
	}
	var build func(ps []piece) *Term
	build = func(ps []piece) *Term {
		if len(ps) == 1 {
			return konst(ps[0].v)
		}
		h := len(ps) / 2
		return tb.Ite(tb.SLe(inner, tb.BV(uint64(ps[h-1].hi), int(inner.sort))), build(ps[:h]), build(ps[h:]))
	}
	ok := true
	var rec func(pre []int64) *Term
	rec = func(pre []int64) *Term {
		if len(pre) == len(ls)-1 {
			ps, k := row(pre)
			if !k || pieces > 4*tabPieces {
				ok = false
				return nil
			}
			return build(ps)
		}
		x := ls[len(pre)]
		var rs []*Term
		var his []int64
		for v := x.lo; v <= x.hi; v++ {
			r := rec(append(append([]int64{}, pre...), v))
			if !ok {
				return nil
			}
			if n := len(rs); n > 0 && rs[n-1] == r {
				his[n-1] = v
				continue
			}
			rs, his = append(rs, r), append(his, v)
		}
		var bal func(i, j int) *Term
		bal = func(i, j int) *Term {
			if j-i == 1 {
				return rs[i]
			}
			h := (i + j) / 2
			return tb.Ite(tb.SLe(x, tb.BV(uint64(his[h-1]), int(x.sort))), bal(i, h), bal(h, j))
		}
		return bal(0, len(rs))
	}
	r := rec(nil)
	if !ok {
		return nil
	}
	return r
}
