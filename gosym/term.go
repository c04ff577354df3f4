package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
)

// Term is a hash-consed SMT term. Constants carry their value in val.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq // bool or bit-vector equality
	OBvAdd
	OBvSub
	OBvMul
	OBvUDiv
	OBvSDiv
	OBvURem
	OBvSRem
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OBvNeg
	OBvShl
	OBvLShr
	OBvAShr
	OBvULt
	OBvULe
	OBvSLt
	OBvSLe
	OConcat
	OExtract // val = hi<<8|lo
	OZExt
	OSExt
	OFBits // bv -> fp
	OFInt  // signed bv, scaled by 2^-val -> fp (exact by construction)
	OFToBits
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFSqrt
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFRound // val: 0 floor 1 ceil 2 trunc 3 roundEven 4 round half away
	OFToSBV
	OFToUBV
	OFFromSBV // rounding conversion
	OFFromUBV
	OFConv // between widths
	OUF
)

var opSMT = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OBvAdd: "bvadd", OBvSub: "bvsub", OBvMul: "bvmul",
	OBvUDiv: "bvudiv", OBvSDiv: "bvsdiv", OBvURem: "bvurem", OBvSRem: "bvsrem", OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor",
	OBvNot: "bvnot", OBvNeg: "bvneg", OBvShl: "bvshl", OBvLShr: "bvlshr", OBvAShr: "bvashr", OBvULt: "bvult", OBvULe: "bvule",
	OBvSLt: "bvslt", OBvSLe: "bvsle", OConcat: "concat"}

// Sort: 0 = Bool; 1..64 = BV; 132/164 = FP32/FP64.
type Sort uint8

const (
	SBool Sort = 0
	SF32  Sort = 132
	SF64  Sort = 164
)

func (s Sort) isFP() bool { return s >= 100 }
func (s Sort) isBV() bool { return s > 0 && s < 100 }
func (s Sort) String() string {
	switch {
	case s == SBool:
		return "Bool"
	case s == SF32:
		return "(_ FloatingPoint 8 24)"
	case s == SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

type Term struct {
	op      Op
	sort    Sort
	hasB    bool  // signed bounds known
	big     uint8 // unused
	id      uint32
	val     uint64
	lo, hi  int64
	a, b, c *Term
	name    string
}

func (t *Term) isConst() bool { return t.op == OConst }

type tkey struct {
	op      Op
	sort    Sort
	val     uint64
	a, b, c *Term
	name    string
}

type TB struct {
	tab      map[tkey]*Term
	nextID   uint32
	tru      *Term
	fls      *Term
	smallC   [4][512]*Term // 8,16?,32,64 small consts
	vars     map[string]*Term
	leafMemo [2]map[*Term]leafSet
	tabMemo  map[*Term]*Term
	ufMode   bool // print FP mul/div/sqrt of non-trivial operands as uninterpreted
}

func newTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	tb.tru = tb.mk(OConst, SBool, 1, nil, nil, nil, "")
	tb.fls = tb.mk(OConst, SBool, 0, nil, nil, nil, "")
	return tb
}

func (tb *TB) mk(op Op, s Sort, val uint64, a, b, c *Term, name string) *Term {
	k := tkey{op, s, val, a, b, c, name}
	if t, ok := tb.tab[k]; ok {
		return t
	}
	tb.nextID++
	t := &Term{op: op, sort: s, val: val, a: a, b: b, c: c, name: name, id: tb.nextID}
	if s.isBV() {
		tb.bounds(t)
	}
	tb.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func minS(w int) int64 { return -1 << uint(w-1) }
func maxS(w int) int64 { return int64(mask(w - 1)) }

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (a >= 0) == (b >= 0) && (c >= 0) != (a >= 0)
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	hi, lo := bits.Mul64(absU(a), absU(b))
	if hi != 0 || lo > math.MaxInt64 {
		return 0, true
	}
	r := int64(lo)
	if (a < 0) != (b < 0) {
		r = -r
	}
	return r, false
}
func absU(a int64) uint64 {
	if a < 0 {
		return uint64(-a)
	}
	return uint64(a)
}

// bounds computes a signed interval for a bit-vector term.
func (tb *TB) bounds(t *Term) {
	w := int(t.sort)
	set := func(lo, hi int64) {
		if lo < minS(w) || hi > maxS(w) {
			return
		}
		t.lo, t.hi, t.hasB = lo, hi, true
	}
	switch t.op {
	case OConst:
		v := sx(t.val, w)
		t.lo, t.hi, t.hasB = v, v, true
	case OBvAdd:
		if t.a.hasB && t.b.hasB {
			l, o1 := addOv(t.a.lo, t.b.lo)
			h, o2 := addOv(t.a.hi, t.b.hi)
			if !o1 && !o2 {
				set(l, h)
			}
		}
	case OBvSub:
		if t.a.hasB && t.b.hasB && t.b.lo != math.MinInt64 && t.b.hi != math.MinInt64 {
			l, o1 := addOv(t.a.lo, -t.b.hi)
			h, o2 := addOv(t.a.hi, -t.b.lo)
			if !o1 && !o2 {
				set(l, h)
			}
		}
	case OBvNeg:
		if t.a.hasB && t.a.lo != math.MinInt64 {
			set(-t.a.hi, -t.a.lo)
		}
	case OBvMul:
		if t.a.hasB && t.b.hasB {
			if t.a == t.b {
				m := max(absU(t.a.lo), absU(t.a.hi))
				if m < 1<<31 {
					set(0, int64(m*m))
				}
				return
			}
			lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
			for _, p := range [4][2]int64{{t.a.lo, t.b.lo}, {t.a.lo, t.b.hi}, {t.a.hi, t.b.lo}, {t.a.hi, t.b.hi}} {
				v, o := mulOv(p[0], p[1])
				if o {
					return
				}
				if v < lo {
					lo = v
				}
				if v > hi {
					hi = v
				}
			}
			set(lo, hi)
		}
	case OIte:
		if t.b.hasB && t.c.hasB {
			set(min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi))
		}
	case OZExt:
		aw := int(t.a.sort)
		if t.a.hasB && t.a.lo >= 0 {
			set(t.a.lo, t.a.hi)
		} else if aw < w {
			set(0, int64(mask(aw)))
		}
	case OSExt:
		aw := int(t.a.sort)
		if t.a.hasB {
			set(t.a.lo, t.a.hi)
		} else {
			set(minS(aw), maxS(aw))
		}
	case OExtract:
		lo := int(t.val & 0xff)
		if lo == 0 && t.a.hasB && t.a.lo >= minS(w) && t.a.hi <= maxS(w) {
			set(t.a.lo, t.a.hi)
		}
	case OBvAnd:
		if t.a.hasB && t.b.hasB {
			if t.b.lo >= 0 && t.a.lo >= 0 {
				set(0, min(t.a.hi, t.b.hi))
			} else if t.b.lo >= 0 {
				set(0, t.b.hi)
			} else if t.a.lo >= 0 {
				set(0, t.a.hi)
			}
		} else if t.b.hasB && t.b.lo >= 0 {
			set(0, t.b.hi)
		} else if t.a.hasB && t.a.lo >= 0 {
			set(0, t.a.hi)
		}
	case OBvOr, OBvXor:
		if t.a.hasB && t.b.hasB && t.a.lo >= 0 && t.b.lo >= 0 {
			set(0, int64(mask(bits.Len64(uint64(t.a.hi|t.b.hi)))))
		}
	case OBvURem:
		if t.b.isConst() && t.b.val != 0 && sx(t.b.val, w) > 0 {
			set(0, sx(t.b.val, w)-1)
		}
	case OBvSRem:
		if t.b.isConst() && sx(t.b.val, w) > 0 {
			m := sx(t.b.val, w) - 1
			if t.a.hasB && t.a.lo >= 0 {
				set(0, min(m, t.a.hi))
			} else {
				set(-m, m)
			}
		}
	case OBvSDiv, OBvUDiv:
		if t.b.isConst() && sx(t.b.val, w) > 0 && t.a.hasB && (t.op == OBvSDiv || t.a.lo >= 0) {
			d := sx(t.b.val, w)
			set(t.a.lo/d, t.a.hi/d)
		}
	case OBvLShr:
		if t.b.isConst() && t.b.val > 0 && t.b.val < uint64(w) {
			if t.a.hasB && t.a.lo >= 0 {
				set(t.a.lo>>t.b.val, t.a.hi>>t.b.val)
			} else {
				set(0, int64(mask(w)>>t.b.val))
			}
		}
	case OBvAShr:
		if t.b.isConst() && t.b.val < uint64(w) && t.a.hasB {
			set(t.a.lo>>t.b.val, t.a.hi>>t.b.val)
		}
	}
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.tru
	}
	return tb.fls
}

func (tb *TB) BV(v uint64, w int) *Term {
	v &= mask(w)
	if v < 512 {
		var p *[512]*Term
		switch w {
		case 8:
			p = &tb.smallC[0]
		case 16:
			p = &tb.smallC[1]
		case 32:
			p = &tb.smallC[2]
		case 64:
			p = &tb.smallC[3]
		}
		if p != nil {
			if p[v] == nil {
				p[v] = tb.mk(OConst, Sort(w), v, nil, nil, nil, "")
			}
			return p[v]
		}
	}
	// not hash-consed beyond small ones: constants compare by value
	return tb.mk(OConst, Sort(w), v, nil, nil, nil, "")
}
func (tb *TB) Int(v int64) *Term { return tb.BV(uint64(v), 64) }
func (tb *TB) F64(f float64) *Term {
	return tb.mk(OConst, SF64, math.Float64bits(f), nil, nil, nil, "")
}
func (tb *TB) F64b(b uint64) *Term { return tb.mk(OConst, SF64, b, nil, nil, nil, "") }
func (tb *TB) F32c(f float32) *Term {
	return tb.mk(OConst, SF32, uint64(math.Float32bits(f)), nil, nil, nil, "")
}
func (tb *TB) Var(name string, s Sort) *Term {
	t := tb.mk(OVar, s, 0, nil, nil, nil, name)
	return t
}

// ---- booleans
func (tb *TB) Not(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	switch a.op {
	case OBvULt:
		return tb.ULe(a.b, a.a)
	case OBvULe:
		return tb.ULt(a.b, a.a)
	case OBvSLt:
		return tb.SLe(a.b, a.a)
	case OBvSLe:
		return tb.SLt(a.b, a.a)
	}
	return tb.mk(ONot, SBool, 0, a, nil, nil, "")
}
func (tb *TB) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.Not(a) == b {
		return tb.fls
	}
	return tb.mk(OAnd, SBool, 0, a, b, nil, "")
}
func (tb *TB) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.Not(a) == b {
		return tb.tru
	}
	return tb.mk(OOr, SBool, 0, a, b, nil, "")
}
func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isConst() && b.isConst() {
			if a.val == 1 {
				return c
			}
			return tb.Not(c)
		}
		return tb.Or(tb.And(c, a), tb.And(tb.Not(c), b))
	}
	if a.sort.isFP() {
		// keep exact integer-valued floats in that form
		if am, ae, ok := tb.asFI(a); ok {
			if bm, be, ok2 := tb.asFI(b); ok2 {
				return tb.alignFI(am, ae, bm, be, func(x, y *Term) *Term { return tb.Ite(c, x, y) })
			}
		}
	}
	return tb.mk(OIte, a.sort, 0, c, a, b, "")
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.tru
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v", a.sort, b.sort))
	}
	if a.sort.isFP() {
		return tb.FEq(a, b)
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val == b.val)
	}
	if a.sort == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return tb.Not(a)
		}
		return tb.mk(OEq, SBool, 0, a, b, nil, "")
	}
	if a.hasB && b.hasB && (a.hi < b.lo || b.hi < a.lo) {
		return tb.fls
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			if b.val > mask(int(a.a.sort)) {
				return tb.fls
			}
			return tb.Eq(a.a, tb.BV(b.val, int(a.a.sort)))
		case OSExt:
			v := sx(b.val, int(b.sort))
			aw := int(a.a.sort)
			if v < minS(aw) || v > maxS(aw) {
				return tb.fls
			}
			return tb.Eq(a.a, tb.BV(uint64(v), aw))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				return tb.Ite(a.a, tb.Bool(a.b.val == b.val), tb.Bool(a.c.val == b.val))
			}
			if a.b.isConst() || a.c.isConst() {
				return tb.Ite(a.a, tb.Eq(a.b, b), tb.Eq(a.c, b))
			}
		case OBvAdd:
			if a.b.isConst() {
				return tb.Eq(a.a, tb.BV(b.val-a.b.val, int(a.sort)))
			}
		}
	}
	if (a.op == OZExt && b.op == OZExt || a.op == OSExt && b.op == OSExt) && a.a.sort == b.a.sort {
		return tb.Eq(a.a, b.a)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return tb.mk(OEq, SBool, 0, a, b, nil, "")
}

// ---- bit-vectors
func (tb *TB) bvbin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("bv sort mismatch op %d: %d %d", op, a.sort, b.sort))
	}
	w := int(a.sort)
	if a.isConst() && b.isConst() {
		if v, ok := evBV(op, a.val, b.val, w); ok {
			return tb.BV(v, w)
		}
	}
	switch op {
	case OBvAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OBvAdd && a.b.isConst() {
				return tb.bvbin(OBvAdd, a.a, tb.BV(a.b.val+b.val, w))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return tb.Ite(a.a, tb.BV(a.b.val+b.val, w), tb.BV(a.c.val+b.val, w))
			}
		}
		if t := tb.narrow(op, a, b); t != nil {
			return t
		}
	case OBvSub:
		if b.isConst() {
			return tb.bvbin(OBvAdd, a, tb.BV(-b.val, w))
		}
		if a == b {
			return tb.BV(0, w)
		}
		if t := tb.narrow(op, a, b); t != nil {
			return t
		}
	case OBvMul:
		if a == b {
			a = tb.evenForm(a)
			b = a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
		if t := tb.narrow(op, a, b); t != nil {
			return t
		}
	case OBvAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// low mask -> zext(extract)
			if n := bits.Len64(b.val); b.val == mask(n) && n < w {
				return tb.ZExt(tb.Extract(a, n-1, 0), w)
			}
		}
		if a == b {
			return a
		}
	case OBvOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
		if t := tb.orConcat(a, b, w); t != nil {
			return t
		}
	case OBvXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OBvXor && a.b.isConst() {
				return tb.bvbin(OBvXor, a.a, tb.BV(a.b.val^b.val, w))
			}
		}
		if a == b {
			return tb.BV(0, w)
		}
	case OBvUDiv:
		if b.isConst() && b.val != 0 {
			if b.val == 1 {
				return a
			}
			if b.val&(b.val-1) == 0 {
				return tb.LShr(a, tb.BV(uint64(bits.TrailingZeros64(b.val)), w))
			}
		}
	case OBvURem:
		if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
			if b.val == 1 {
				return tb.BV(0, w)
			}
			return tb.bvbin(OBvAnd, a, tb.BV(b.val-1, w))
		}
	case OBvSDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if a.hasB && b.hasB && a.lo >= 0 && b.lo > 0 {
			return tb.bvbin(OBvUDiv, a, b)
		}
	case OBvSRem:
		if b.isConst() && b.val == 1 {
			return tb.BV(0, w)
		}
		if a.hasB && b.hasB && a.lo >= 0 && b.lo > 0 {
			return tb.bvbin(OBvURem, a, b)
		}
	}
	if (op == OBvAdd || op == OBvMul || op == OBvAnd || op == OBvOr || op == OBvXor) && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(op, a.sort, 0, a, b, nil, "")
}

// evenForm picks one of x-y and y-x, for squaring.
func (tb *TB) evenForm(a *Term) *Term {
	switch a.op {
	case OSExt:
		if a.a.hasB && a.a.lo > minS(int(a.a.sort)) {
			if x := tb.evenForm(a.a); x != a.a {
				return tb.SExt(x, int(a.sort))
			}
		}
	case OBvSub:
		if a.a.id > a.b.id {
			return tb.bvbin(OBvSub, a.b, a.a)
		}
	}
	return a
}

// orConcat recognises byte-assembly x | y<<8 as a concatenation.
func (tb *TB) orConcat(a, b *Term, w int) *Term {
	lo, hi := a, b
	for k := 0; k < 2; k++ {
		// hi = concat(x, const 0 of n bits)
		if hi.op == OConcat && hi.b.isConst() && hi.b.val == 0 {
			n := int(hi.b.sort)
			if lo.op == OZExt && int(lo.a.sort) <= n {
				return tb.Concat(hi.a, tb.ZExt(lo.a, n))
			}
			if lo.op == OConcat && lo.a.isConst() && lo.a.val == 0 && int(lo.b.sort) <= n {
				return tb.Concat(hi.a, tb.ZExt(lo.b, n))
			}
		}
		if hi.op == OZExt && hi.a.op == OConcat && hi.a.b.isConst() && hi.a.b.val == 0 {
			n := int(hi.a.b.sort)
			if lo.op == OZExt && int(lo.a.sort) <= n {
				return tb.ZExt(tb.Concat(hi.a.a, tb.ZExt(lo.a, n)), w)
			}
		}
		lo, hi = hi, lo
	}
	return nil
}

func needW(lo, hi int64) int {
	n := 1
	for lo < minS(n) || hi > maxS(n) {
		n++
		if n >= 64 {
			return 64
		}
	}
	return n
}

// narrow performs +,-,* on the smallest width that holds the operands and result.
func (tb *TB) narrow(op Op, a, b *Term) *Term {
	w := int(a.sort)
	if w < 16 || !a.hasB || !b.hasB {
		return nil
	}
	t := Term{op: op, sort: a.sort, a: a, b: b}
	tb.bounds(&t)
	if !t.hasB {
		return nil
	}
	n := needW(min(t.lo, a.lo, b.lo), max(t.hi, a.hi, b.hi))
	if n+4 >= w {
		return nil
	}
	// round to limit the number of distinct widths
	n = (n + 3) / 4 * 4
	if n+4 >= w {
		return nil
	}
	na, nb := tb.Extract(a, n-1, 0), tb.Extract(b, n-1, 0)
	r := tb.bvbin(op, na, nb)
	return tb.SExt(r, w)
}

func evBV(op Op, a, b uint64, w int) (uint64, bool) {
	m := mask(w)
	switch op {
	case OBvAdd:
		return (a + b) & m, true
	case OBvSub:
		return (a - b) & m, true
	case OBvMul:
		return (a * b) & m, true
	case OBvUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OBvURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OBvSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return m, true
			}
			return 1, true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OBvSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OBvAnd:
		return a & b, true
	case OBvOr:
		return a | b, true
	case OBvXor:
		return a ^ b, true
	case OBvShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OBvLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return (a & m) >> b, true
	case OBvAShr:
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(sx(a, w)>>b) & m, true
	}
	return 0, false
}

func (tb *TB) Shl(a, b *Term) *Term {
	w := int(a.sort)
	if a.isConst() && b.isConst() {
		v, _ := evBV(OBvShl, a.val, b.val, w)
		return tb.BV(v, w)
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return tb.BV(0, w)
		}
		n := int(b.val)
		return tb.Concat(tb.Extract(a, w-1-n, 0), tb.BV(0, n))
	}
	return tb.mk(OBvShl, a.sort, 0, a, b, nil, "")
}
func (tb *TB) LShr(a, b *Term) *Term {
	w := int(a.sort)
	if a.isConst() && b.isConst() {
		v, _ := evBV(OBvLShr, a.val, b.val, w)
		return tb.BV(v, w)
	}
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return tb.BV(0, w)
		}
		n := int(b.val)
		return tb.ZExt(tb.Extract(a, w-1, n), w)
	}
	return tb.mk(OBvLShr, a.sort, 0, a, b, nil, "")
}
func (tb *TB) AShr(a, b *Term) *Term {
	w := int(a.sort)
	if a.isConst() && b.isConst() {
		v, _ := evBV(OBvAShr, a.val, b.val, w)
		return tb.BV(v, w)
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	if a.hasB && a.lo >= 0 {
		return tb.LShr(a, b)
	}
	if b.isConst() && b.val < uint64(w) {
		return tb.SExt(tb.Extract(a, w-1, int(b.val)), w)
	}
	return tb.mk(OBvAShr, a.sort, 0, a, b, nil, "")
}
func (tb *TB) BvNot(a *Term) *Term {
	if a.isConst() {
		return tb.BV(^a.val, int(a.sort))
	}
	if a.op == OBvNot {
		return a.a
	}
	return tb.mk(OBvNot, a.sort, 0, a, nil, nil, "")
}
func (tb *TB) BvNeg(a *Term) *Term {
	if a.isConst() {
		return tb.BV(-a.val, int(a.sort))
	}
	if a.op == OBvNeg {
		return a.a
	}
	if a.hasB && a.lo > minS(int(a.sort)) && int(a.sort) >= 16 {
		return tb.bvbin(OBvSub, tb.BV(0, int(a.sort)), a)
	}
	return tb.mk(OBvNeg, a.sort, 0, a, nil, nil, "")
}
func (tb *TB) ULt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val < b.val)
	}
	if a == b {
		return tb.fls
	}
	if b.isConst() && b.val == 0 {
		return tb.fls
	}
	if a.hasB && b.hasB && a.lo >= 0 && b.lo >= 0 {
		return tb.SLt(a, b)
	}
	if a.op == OZExt && b.op == OZExt && a.a.sort == b.a.sort {
		return tb.ULt(a.a, b.a)
	}
	return tb.mk(OBvULt, SBool, 0, a, b, nil, "")
}
func (tb *TB) ULe(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val <= b.val)
	}
	if a == b {
		return tb.tru
	}
	if a.isConst() && a.val == 0 {
		return tb.tru
	}
	if a.hasB && b.hasB && a.lo >= 0 && b.lo >= 0 {
		return tb.SLe(a, b)
	}
	if a.op == OZExt && b.op == OZExt && a.a.sort == b.a.sort {
		return tb.ULe(a.a, b.a)
	}
	return tb.mk(OBvULe, SBool, 0, a, b, nil, "")
}

// stripBoth narrows a signed comparison of bounded operands.
func (tb *TB) stripCmp(a, b *Term) (*Term, *Term) {
	w := int(a.sort)
	if w > 8 && a.hasB && b.hasB {
		n := needW(min(a.lo, b.lo), max(a.hi, b.hi))
		n = (n + 3) / 4 * 4
		if n < w {
			return tb.Extract(a, n-1, 0), tb.Extract(b, n-1, 0)
		}
	}
	return a, b
}
func (tb *TB) SLt(a, b *Term) *Term {
	w := int(a.sort)
	if a.isConst() && b.isConst() {
		return tb.Bool(sx(a.val, w) < sx(b.val, w))
	}
	if a == b {
		return tb.fls
	}
	if a.hasB && b.hasB {
		if a.hi < b.lo {
			return tb.tru
		}
		if a.lo >= b.hi {
			return tb.fls
		}
	}
	a, b = tb.stripCmp(a, b)
	if t := tb.cmpIte(a, b, tb.SLt); t != nil {
		return t
	}
	return tb.mk(OBvSLt, SBool, 0, a, b, nil, "")
}
func (tb *TB) SLe(a, b *Term) *Term {
	w := int(a.sort)
	if a.isConst() && b.isConst() {
		return tb.Bool(sx(a.val, w) <= sx(b.val, w))
	}
	if a == b {
		return tb.tru
	}
	if a.hasB && b.hasB {
		if a.hi <= b.lo {
			return tb.tru
		}
		if a.lo > b.hi {
			return tb.fls
		}
	}
	a, b = tb.stripCmp(a, b)
	if t := tb.cmpIte(a, b, tb.SLe); t != nil {
		return t
	}
	return tb.mk(OBvSLe, SBool, 0, a, b, nil, "")
}
func (tb *TB) cmpIte(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.op == OIte && a.b.isConst() && a.c.isConst() && b.isConst() {
		return tb.Ite(a.a, f(a.b, b), f(a.c, b))
	}
	if b.op == OIte && b.b.isConst() && b.c.isConst() && a.isConst() {
		return tb.Ite(b.a, f(a, b.b), f(a, b.c))
	}
	return nil
}

func (tb *TB) Concat(a, b *Term) *Term {
	wa, wb := int(a.sort), int(b.sort)
	if wa+wb > 64 {
		panic("concat too wide")
	}
	if a.isConst() && b.isConst() {
		return tb.BV(a.val<<uint(wb)|b.val, wa+wb)
	}
	if a.isConst() && a.val == 0 {
		return tb.ZExt(b, wa+wb)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a {
		ah, al := int(a.val>>8), int(a.val&0xff)
		bh, bl := int(b.val>>8), int(b.val&0xff)
		if al == bh+1 {
			return tb.Extract(a.a, ah, bl)
		}
	}
	// right-assoc merge: concat(a, concat(x,y)) with a,x adjacent
	if b.op == OConcat && a.op == OExtract && b.a.op == OExtract && a.a == b.a.a && int(a.val&0xff) == int(b.a.val>>8)+1 {
		return tb.Concat(tb.Extract(a.a, int(a.val>>8), int(b.a.val&0xff)), b.b)
	}
	if a.op == OConcat {
		// normalise to right-assoc
		return tb.Concat(a.a, tb.Concat(a.b, b))
	}
	return tb.mk(OConcat, Sort(wa+wb), 0, a, b, nil, "")
}

func (tb *TB) Extract(a *Term, hi, lo int) *Term {
	w := int(a.sort)
	if lo == 0 && hi == w-1 {
		return a
	}
	n := hi - lo + 1
	switch a.op {
	case OConst:
		return tb.BV(a.val>>uint(lo), n)
	case OExtract:
		l := int(a.val & 0xff)
		return tb.Extract(a.a, hi+l, lo+l)
	case OConcat:
		wb := int(a.b.sort)
		if hi < wb {
			return tb.Extract(a.b, hi, lo)
		}
		if lo >= wb {
			return tb.Extract(a.a, hi-wb, lo-wb)
		}
		return tb.Concat(tb.Extract(a.a, hi-wb, 0), tb.Extract(a.b, wb-1, lo))
	case OZExt:
		wa := int(a.a.sort)
		if hi < wa {
			return tb.Extract(a.a, hi, lo)
		}
		if lo >= wa {
			return tb.BV(0, n)
		}
		return tb.ZExt(tb.Extract(a.a, wa-1, lo), n)
	case OSExt:
		wa := int(a.a.sort)
		if hi < wa {
			return tb.Extract(a.a, hi, lo)
		}
		if lo == 0 {
			return tb.SExt(a.a, n)
		}
		if lo < wa {
			return tb.SExt(tb.Extract(a.a, wa-1, lo), n)
		}
	case OBvAnd, OBvOr, OBvXor:
		x, y := tb.Extract(a.a, hi, lo), tb.Extract(a.b, hi, lo)
		return tb.bvbin(a.op, x, y)
	case OBvNot:
		return tb.BvNot(tb.Extract(a.a, hi, lo))
	case OIte:
		if a.b.isConst() || a.c.isConst() || a.b.op == OSExt || a.b.op == OZExt {
			return tb.Ite(a.a, tb.Extract(a.b, hi, lo), tb.Extract(a.c, hi, lo))
		}
	case OBvAdd, OBvSub, OBvMul:
		if lo == 0 && n < w {
			return tb.bvbin(a.op, tb.Extract(a.a, hi, 0), tb.Extract(a.b, hi, 0))
		}
	}
	return tb.mk(OExtract, Sort(n), uint64(hi)<<8|uint64(lo), a, nil, nil, "")
}
func (tb *TB) ZExt(a *Term, w int) *Term {
	if int(a.sort) == w {
		return a
	}
	if int(a.sort) > w {
		panic("zext narrower")
	}
	if a.isConst() {
		return tb.BV(a.val, w)
	}
	if a.op == OZExt {
		return tb.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return tb.Ite(a.a, tb.ZExt(a.b, w), tb.ZExt(a.c, w))
	}
	if a.hasB && a.lo >= 0 && a.op == OSExt {
		return tb.SExt(a.a, w)
	}
	return tb.mk(OZExt, Sort(w), 0, a, nil, nil, "")
}
func (tb *TB) SExt(a *Term, w int) *Term {
	if int(a.sort) == w {
		return a
	}
	if int(a.sort) > w {
		panic("sext narrower")
	}
	if a.isConst() {
		return tb.BV(uint64(sx(a.val, int(a.sort))), w)
	}
	if a.op == OSExt {
		return tb.SExt(a.a, w)
	}
	if a.op == OZExt {
		return tb.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return tb.Ite(a.a, tb.SExt(a.b, w), tb.SExt(a.c, w))
	}
	return tb.mk(OSExt, Sort(w), 0, a, nil, nil, "")
}

// ---- floating point
func (tb *TB) fconst(s Sort, f float64) *Term {
	if s == SF32 {
		return tb.F32c(float32(f))
	}
	return tb.F64(f)
}
func (t *Term) fval() float64 {
	if t.sort == SF32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

const maxExactBits = 52

// asFI views a term as exact signed integer times 2^-exp.
func (tb *TB) asFI(t *Term) (*Term, int, bool) {
	if t.sort != SF64 {
		return nil, 0, false
	}
	if t.op == OFInt {
		return t.a, int(t.val), true
	}
	if t.isConst() {
		f := math.Float64frombits(t.val)
		if f == 0 {
			if t.val != 0 {
				return nil, 0, false // negative zero
			}
			return tb.BV(0, 8), 0, true
		}
		if math.IsInf(f, 0) || math.IsNaN(f) || math.Abs(f) > 1<<40 {
			return nil, 0, false
		}
		e := 0
		for f != math.Trunc(f) {
			f *= 2
			e++
			if e > 30 || math.Abs(f) > 1<<45 {
				return nil, 0, false
			}
		}
		v := int64(f)
		w := (needW(v, v) + 3) / 4 * 4
		return tb.BV(uint64(v), w), e, true
	}
	return nil, 0, false
}

// mkFI builds the float for bv*2^-e; ok=false when exactness is not certain.
func (tb *TB) mkFI(m *Term, e int) (*Term, bool) {
	if m.isConst() {
		return tb.F64(math.Ldexp(float64(sx(m.val, int(m.sort))), -e)), true
	}
	if !m.hasB || m.lo < -(1<<maxExactBits) || m.hi > 1<<maxExactBits || e > 200 || e < 0 {
		return nil, false
	}
	n := (needW(m.lo, m.hi) + 3) / 4 * 4
	if n < int(m.sort) {
		if m2 := tb.Extract(m, n-1, 0); m2.hasB {
			m = m2
		}
	}
	return tb.mk(OFInt, SF64, uint64(e), m, nil, nil, ""), true
}

func (tb *TB) widen2(a, b *Term, w int) (*Term, *Term) {
	return tb.SExt(a, max(w, int(a.sort))), tb.SExt(b, max(w, int(b.sort)))
}

// alignFI applies f to the two mantissas brought to a common scale.
func (tb *TB) alignFIraw(am *Term, ae int, bm *Term, be int) (*Term, *Term, int, bool) {
	if !am.hasB || !bm.hasB {
		return nil, nil, 0, false
	}
	e := max(ae, be)
	sh := func(m *Term, d int) (*Term, bool) {
		if d == 0 {
			return m, true
		}
		if d > 40 {
			return nil, false
		}
		lo, o1 := mulOv(m.lo, 1<<uint(d))
		hi, o2 := mulOv(m.hi, 1<<uint(d))
		if o1 || o2 || lo < -(1<<maxExactBits) || hi > 1<<maxExactBits {
			return nil, false
		}
		w := needW(lo, hi)
		if w < int(m.sort) {
			w = int(m.sort)
		}
		if w > 64 {
			return nil, false
		}
		m = tb.SExt(m, w)
		return tb.bvbin(OBvMul, m, tb.BV(1<<uint(d), w)), true
	}
	// constant 1<<d must fit positive in w: ensured by extra bit below
	am2, ok1 := sh(tb.SExt(am, min(64, int(am.sort)+e-ae+1)), e-ae)
	bm2, ok2 := sh(tb.SExt(bm, min(64, int(bm.sort)+e-be+1)), e-be)
	if !ok1 || !ok2 {
		return nil, nil, 0, false
	}
	w := min(64, max(int(am2.sort), int(bm2.sort))+1)
	am2, bm2 = tb.widen2(am2, bm2, w)
	return am2, bm2, e, true
}
func (tb *TB) alignFI(am *Term, ae int, bm *Term, be int, f func(x, y *Term) *Term) *Term {
	x, y, e, ok := tb.alignFIraw(am, ae, bm, be)
	if !ok {
		return nil
	}
	r, ok := tb.mkFI(f(x, y), e)
	if !ok {
		return nil
	}
	return r
}

func (tb *TB) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.fold2(op, a, b)
	}
	if a.sort == SF64 {
		am, ae, ok1 := tb.asFI(a)
		bm, be, ok2 := tb.asFI(b)
		if ok1 && ok2 {
			switch op {
			case OFAdd:
				if r := tb.alignFI(am, ae, bm, be, func(x, y *Term) *Term { return tb.bvbin(OBvAdd, x, y) }); r != nil {
					return r
				}
			case OFSub:
				if r := tb.alignFI(am, ae, bm, be, func(x, y *Term) *Term { return tb.bvbin(OBvSub, x, y) }); r != nil {
					return r
				}
			case OFMul:
				if am.hasB && bm.hasB {
					t := Term{op: OBvMul, sort: 64, a: am, b: bm}
					tb.bounds(&t)
					if t.hasB {
						w := min(64, needW(t.lo, t.hi)+1)
						w = max(w, int(am.sort), int(bm.sort))
						x, y := tb.SExt(am, w), tb.SExt(bm, w)
						if r, ok := tb.mkFI(tb.bvbin(OBvMul, x, y), ae+be); ok {
							return r
						}
					}
				}
			case OFDiv:
				if b.isConst() {
					f := b.fval()
					fr, ex := math.Frexp(f)
					if fr == 0.5 { // positive power of two: 2^(ex-1)
						k := ex - 1
						if k >= 0 {
							if r, ok := tb.mkFI(am, ae+k); ok {
								return r
							}
						} else {
							return tb.FBin(OFMul, a, tb.F64(math.Ldexp(1, -k)))
						}
					}
				}
				if a.isConst() && a.val == 0 && (bm.lo > 0 || bm.hi < 0) && bm.hasB && bm.lo > 0 {
					return a
				}
			}
		}
		// identities valid for every float: -0 is the one for addition
		if op == OFAdd && a.isConst() && a.val == 1<<63 {
			return b
		}
		if (op == OFAdd && b.isConst() && b.val == 1<<63) || (op == OFSub && b.isConst() && b.val == 0) {
			return a
		}
		if op == OFMul || op == OFDiv {
			if b.isConst() && b.fval() == 1 {
				return a
			}
			if op == OFMul && a.isConst() && a.fval() == 1 {
				return b
			}
		}
	}
	if (op == OFAdd || op == OFMul) && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(op, a.sort, 0, a, b, nil, "")
}

func (tb *TB) fold2(op Op, a, b *Term) *Term {
	if a.sort == SF32 {
		x, y := math.Float32frombits(uint32(a.val)), math.Float32frombits(uint32(b.val))
		var r float32
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return tb.F32c(r)
	}
	return tb.F64b(math.Float64bits(ev2(op, a.fval(), b.fval())))
}
func ev2(op Op, x, y float64) float64 {
	switch op {
	case OFAdd:
		return x + y
	case OFSub:
		return x - y
	case OFMul:
		return x * y
	case OFDiv:
		return x / y
	}
	panic("ev2")
}

func (tb *TB) FNeg(a *Term) *Term {
	if a.isConst() {
		if a.sort == SF32 {
			return tb.F32c(-math.Float32frombits(uint32(a.val)))
		}
		return tb.F64b(a.val ^ (1 << 63))
	}
	if m, e, ok := tb.asFI(a); ok && m.hasB {
		w := min(64, int(m.sort)+1)
		if r, ok := tb.mkFI(tb.bvbin(OBvSub, tb.BV(0, w), tb.SExt(m, w)), e); ok {
			return r
		}
	}
	if a.op == OFBits {
		w := int(a.a.sort)
		return tb.FBits(tb.bvbin(OBvXor, a.a, tb.BV(1<<uint(w-1), w)))
	}
	if a.op == OFNeg {
		return a.a
	}
	if a.op == OFDiv {
		return tb.FBin(OFDiv, tb.FNeg(a.a), a.b)
	}
	return tb.mk(OFNeg, a.sort, 0, a, nil, nil, "")
}
func (tb *TB) FAbs(a *Term) *Term {
	if a.isConst() {
		return tb.F64(math.Abs(a.fval()))
	}
	if m, e, ok := tb.asFI(a); ok && m.hasB {
		if m.lo >= 0 {
			return a
		}
		w := min(64, int(m.sort)+1)
		x := tb.SExt(m, w)
		abs := tb.Ite(tb.SLt(x, tb.BV(0, w)), tb.bvbin(OBvSub, tb.BV(0, w), x), x)
		if abs.hasB {
			// tighten
			mx := max(m.hi, -m.lo)
			k := (needW(0, mx) + 3) / 4 * 4
			v := tb.boundedAbs(abs, k, mx)
			if r, ok := tb.mkFI(v, e); ok {
				return r
			}
		}
	}
	if a.op == OFBits {
		w := int(a.a.sort)
		return tb.FBits(tb.ZExt(tb.Extract(a.a, w-2, 0), w))
	}
	if a.op == OFDiv {
		return tb.FBin(OFDiv, tb.FAbs(a.a), tb.FAbs(a.b))
	}
	return tb.mk(OFAbs, a.sort, 0, a, nil, nil, "")
}

// boundedAbs records that an absolute value is within [0,mx].
func (tb *TB) boundedAbs(abs *Term, k int, mx int64) *Term {
	// and-mask is a no-op semantically, and gives the bounds analysis a non-negative value
	kk := bits.Len64(uint64(mx))
	if kk >= int(abs.sort) {
		return abs
	}
	if kk == 0 {
		return tb.BV(0, int(abs.sort))
	}
	t := tb.ZExt(tb.Extract(abs, kk-1, 0), int(abs.sort))
	if t.hasB && t.op != OConst && t.hi > mx {
		t.hi = mx // justified by the caller's bound; terms are hash-consed per worker
	}
	return t
}

func (tb *TB) FSqrt(a *Term) *Term {
	if a.isConst() {
		return tb.F64(math.Sqrt(a.fval()))
	}
	return tb.mk(OFSqrt, a.sort, 0, a, nil, nil, "")
}
func (tb *TB) FRound(a *Term, mode uint64) *Term {
	if a.isConst() {
		return tb.F64(evRound(a.fval(), mode))
	}
	if m, e, ok := tb.asFI(a); ok && m.hasB {
		if e == 0 {
			return a
		}
		if mode == 0 || mode == 1 || mode == 2 {
			w := min(64, max(int(m.sort), e)+2)
			x := tb.SExt(m, w)
			if e < w-1 {
				fl := tb.AShr(x, tb.BV(uint64(e), w))
				ce := tb.AShr(tb.bvbin(OBvAdd, x, tb.BV(mask(e), w)), tb.BV(uint64(e), w))
				var r *Term
				switch mode {
				case 0:
					r = fl
				case 1:
					r = ce
				case 2:
					r = tb.Ite(tb.SLt(x, tb.BV(0, w)), ce, fl)
				}
				if r, ok := tb.mkFI(r, 0); ok {
					return r
				}
			}
		}
	}
	return tb.mk(OFRound, a.sort, mode, a, nil, nil, "")
}
func evRound(f float64, mode uint64) float64 {
	switch mode {
	case 0:
		return math.Floor(f)
	case 1:
		return math.Ceil(f)
	case 2:
		return math.Trunc(f)
	case 3:
		return math.RoundToEven(f)
	}
	return math.Round(f)
}
func (tb *TB) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return tb.Bool(math.IsNaN(a.fval()))
	}
	switch a.op {
	case OFInt, OFFromSBV, OFFromUBV:
		return tb.fls
	case OFDiv:
		if am, _, ok := tb.asFI(a.a); ok {
			if bm, _, ok2 := tb.asFI(a.b); ok2 {
				return tb.And(tb.Eq(am, tb.BV(0, int(am.sort))), tb.Eq(bm, tb.BV(0, int(bm.sort))))
			}
		}
	case OFSqrt:
		if m, _, ok := tb.asFI(a.a); ok {
			return tb.SLt(m, tb.BV(0, int(m.sort)))
		}
	case OFNeg, OFAbs:
		return tb.FIsNaN(a.a)
	case OIte:
		return tb.Ite(a.a, tb.FIsNaN(a.b), tb.FIsNaN(a.c))
	case OFBits:
		// exponent all ones, mantissa non-zero
		if a.sort == SF64 {
			ab := tb.Extract(a.a, 62, 0)
			return tb.ULt(tb.BV(0x7FF0000000000000, 63), ab)
		}
	}
	return tb.tabulate(tb.mk(OFIsNaN, SBool, 0, a, nil, nil, ""))
}

// asRat views a term as a quotient of exact values num/den, |parts| small
// enough that correctly rounded quotients compare like the rationals.
func (tb *TB) asRat(t *Term) (n, d *Term, ok bool) {
	small := func(m *Term) bool { return m.hasB && m.lo > -(1<<25) && m.hi < 1<<25 }
	if t.op == OFDiv {
		am, ae, ok1 := tb.asFI(t.a)
		bm, be, ok2 := tb.asFI(t.b)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		x, y, _, ok3 := tb.alignFIraw(am, ae, bm, be)
		if !ok3 || !small(x) || !small(y) {
			return nil, nil, false
		}
		return x, y, true
	}
	if m, e, ok := tb.asFI(t); ok && e < 24 && small(m) {
		w := max(int(m.sort), e+2)
		return tb.SExt(m, w), tb.BV(1<<uint(e), w), true
	}
	if t.isConst() {
		f := t.fval()
		if math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f) > 1000 {
			return nil, nil, false
		}
		for q := int64(1); q <= 1000; q++ {
			p := math.Round(f * float64(q))
			if p/float64(q) == f {
				return tb.BV(uint64(int64(p)), 24), tb.BV(uint64(q), 24), true
			}
		}
	}
	return nil, nil, false
}

// ratCmp compares n1/d1 with n2/d2 (IEEE semantics for zero denominators,
// which are +0 here): f gets cross products for positive denominators.
func (tb *TB) ratCmp(op Op, a, b *Term) *Term {
	n1, d1, ok := tb.asRat(a)
	if !ok {
		return nil
	}
	n2, d2, ok := tb.asRat(b)
	if !ok {
		return nil
	}
	zero := func(t *Term) *Term { return tb.Eq(t, tb.BV(0, int(t.sort))) }
	neg := func(t *Term) *Term { return tb.SLt(t, tb.BV(0, int(t.sort))) }
	norm := func(n, d *Term) (*Term, *Term) { // make the denominator non-negative
		if d.hasB && d.lo >= 0 {
			return n, d
		}
		c := neg(d)
		wn, wd := min(64, int(n.sort)+1), min(64, int(d.sort)+1)
		n, d = tb.SExt(n, wn), tb.SExt(d, wd)
		return tb.Ite(c, tb.bvbin(OBvSub, tb.BV(0, wn), n), n), tb.Ite(c, tb.bvbin(OBvSub, tb.BV(0, wd), d), d)
	}
	n1, d1 = norm(n1, d1)
	n2, d2 = norm(n2, d2)
	prod := func(x, y *Term) *Term {
		w := min(64, int(x.sort)+int(y.sort))
		return tb.bvbin(OBvMul, tb.SExt(x, w), tb.SExt(y, w))
	}
	x, y := prod(n1, d2), prod(n2, d1)
	w := max(int(x.sort), int(y.sort))
	x, y = tb.SExt(x, w), tb.SExt(y, w)
	var fin *Term
	switch op {
	case OFLt:
		fin = tb.SLt(x, y)
	case OFLe:
		fin = tb.SLe(x, y)
	case OFEq:
		fin = tb.Eq(x, y)
	}
	z1, z2 := zero(d1), zero(d2)
	if z1 == tb.fls && z2 == tb.fls {
		return fin
	}
	nan := tb.Or(tb.And(z1, zero(n1)), tb.And(z2, zero(n2)))
	// compare as extended values: sign of infinite parts
	cls := func(z, n *Term) *Term { // -1,0,1 as 4-bit: -inf, finite, +inf
		return tb.Ite(z, tb.Ite(neg(n), tb.BV(0xF, 4), tb.BV(1, 4)), tb.BV(0, 4))
	}
	c1, c2 := cls(z1, n1), cls(z2, n2)
	both := tb.And(tb.Not(z1), tb.Not(z2))
	var inf *Term
	switch op {
	case OFLt:
		inf = tb.SLt(c1, c2)
	case OFLe:
		inf = tb.SLe(c1, c2)
	case OFEq:
		inf = tb.Eq(c1, c2)
	}
	return tb.And(tb.Not(nan), tb.Ite(both, fin, inf))
}

func (tb *TB) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := a.fval(), b.fval()
		switch op {
		case OFLt:
			return tb.Bool(x < y)
		case OFLe:
			return tb.Bool(x <= y)
		case OFEq:
			return tb.Bool(x == y)
		}
	}
	if a == b {
		if op == OFLt {
			return tb.fls
		}
		return tb.Not(tb.FIsNaN(a))
	}
	if a.isConst() && math.IsNaN(a.fval()) || b.isConst() && math.IsNaN(b.fval()) {
		return tb.fls
	}
	if a.sort == SF32 {
		if x, y := tb.exactWide(a), tb.exactWide(b); x != nil && y != nil {
			return tb.FCmp(op, x, y)
		}
	}
	am, ae, ok1 := tb.asFI(a)
	bm, be, ok2 := tb.asFI(b)
	isInf := func(t *Term) int {
		if t.isConst() && math.IsInf(t.fval(), 1) {
			return 1
		}
		if t.isConst() && math.IsInf(t.fval(), -1) {
			return -1
		}
		return 0
	}
	// negative zero constant behaves as zero in comparisons
	if !ok1 && a.isConst() && a.fval() == 0 && a.val != 0 {
		return tb.FCmp(op, tb.mk(OConst, a.sort, 0, nil, nil, nil, ""), b)
	}
	if !ok2 && b.isConst() && b.fval() == 0 && b.val != 0 {
		return tb.FCmp(op, a, tb.mk(OConst, b.sort, 0, nil, nil, nil, ""))
	}
	if ok1 && ok2 {
		x, y, _, ok := tb.alignFIraw(am, ae, bm, be)
		if ok {
			switch op {
			case OFLt:
				return tb.SLt(x, y)
			case OFLe:
				return tb.SLe(x, y)
			case OFEq:
				return tb.Eq(x, y)
			}
		}
	}
	// finite vs const far outside its range, or infinity
	if ok1 && b.isConst() {
		if s := isInf(b); s != 0 {
			return tb.Bool(op != OFEq && s > 0)
		}
		if am.hasB {
			lo, hi := math.Ldexp(float64(am.lo), -ae), math.Ldexp(float64(am.hi), -ae)
			c := b.fval()
			if c > hi {
				return tb.Bool(op != OFEq)
			}
			if c < lo {
				return tb.fls
			}
			// strictly between: compare with floor
			if ae == 0 {
				fl := math.Floor(c)
				if fl != c {
					if op == OFEq {
						return tb.fls
					}
					return tb.FCmp(OFLe, a, tb.F64(fl))
				}
			}
		}
	}
	if ok2 && a.isConst() {
		if s := isInf(a); s != 0 {
			return tb.Bool(op != OFEq && s < 0)
		}
		if bm.hasB {
			lo, hi := math.Ldexp(float64(bm.lo), -be), math.Ldexp(float64(bm.hi), -be)
			c := a.fval()
			if c < lo {
				return tb.Bool(op != OFEq)
			}
			if c > hi {
				return tb.fls
			}
			if be == 0 {
				fl := math.Floor(c)
				if fl != c {
					if op == OFEq {
						return tb.fls
					}
					return tb.FCmp(OFLt, tb.F64(fl), b)
				}
			}
		}
	}
	if a.sort == SF64 {
		if r := tb.ratCmp(op, a, b); r != nil {
			return r
		}
		// sqrt vs sqrt / const
		if a.op == OFSqrt && b.op == OFSqrt {
			if m1, _, o1 := tb.asFI(a.a); o1 && m1.hasB && m1.lo >= 0 {
				if m2, _, o2 := tb.asFI(b.a); o2 && m2.hasB && m2.lo >= 0 && m1.hi < 1<<50 && m2.hi < 1<<50 {
					return tb.FCmp(op, a.a, b.a)
				}
			}
		}
		if a.op == OFSqrt && b.isConst() {
			if m1, _, o1 := tb.asFI(a.a); o1 && m1.hasB && m1.lo >= 0 && m1.hi < 1<<50 {
				c := b.fval()
				if c < 0 {
					return tb.fls
				}
				if math.IsInf(c, 1) {
					return tb.Bool(op != OFEq)
				}
				if c == math.Trunc(c) && c < 1<<25 {
					return tb.FCmp(op, a.a, tb.F64(c*c))
				}
			}
		}
		if b.op == OFSqrt && a.isConst() {
			if m1, _, o1 := tb.asFI(b.a); o1 && m1.hasB && m1.lo >= 0 && m1.hi < 1<<50 {
				c := a.fval()
				if c < 0 {
					return tb.Bool(op != OFEq)
				}
				if math.IsInf(c, 1) {
					return tb.fls
				}
				if c == math.Trunc(c) && c < 1<<25 {
					return tb.FCmp(op, tb.F64(c*c), b.a)
				}
			}
		}
	}
	if a.op == OIte && (a.b.isConst() || a.c.isConst()) && b.isConst() {
		return tb.Ite(a.a, tb.FCmp(op, a.b, b), tb.FCmp(op, a.c, b))
	}
	if b.op == OIte && (b.b.isConst() || b.c.isConst()) && a.isConst() {
		return tb.Ite(b.a, tb.FCmp(op, a, b.b), tb.FCmp(op, a, b.c))
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	return tb.tabulate(tb.mk(op, SBool, 0, a, b, nil, ""))
}
func (tb *TB) FEq(a, b *Term) *Term { return tb.FCmp(OFEq, a, b) }

func (tb *TB) FBits(bv *Term) *Term {
	s := SF64
	if bv.sort == 32 {
		s = SF32
	}
	if bv.isConst() {
		return tb.mk(OConst, s, bv.val, nil, nil, nil, "")
	}
	if bv.op == OFToBits && bv.a.sort == s {
		return bv.a
	}
	return tb.mk(OFBits, s, 0, bv, nil, nil, "")
}
func (tb *TB) FToBits(f *Term) *Term {
	w := 64
	if f.sort == SF32 {
		w = 32
	}
	if f.isConst() {
		return tb.BV(f.val, w)
	}
	if f.op == OFBits {
		return f.a
	}
	if f.op == OIte {
		return tb.Ite(f.a, tb.FToBits(f.b), tb.FToBits(f.c))
	}
	return tb.mk(OFToBits, Sort(w), 0, f, nil, nil, "")
}

// FromInt converts an integer term (signed or not) to a float.
func (tb *TB) FFromInt(v *Term, signed bool, s Sort) *Term {
	w := int(v.sort)
	if v.isConst() {
		var f float64
		if signed {
			if s == SF32 {
				return tb.F32c(float32(sx(v.val, w)))
			}
			f = float64(sx(v.val, w))
		} else {
			if s == SF32 {
				return tb.F32c(float32(v.val))
			}
			f = float64(v.val)
		}
		return tb.F64(f)
	}
	if s == SF64 {
		x := v
		if !signed && !(v.hasB && v.lo >= 0) {
			if w < 64 {
				x = tb.ZExt(v, w+1)
			} else {
				x = nil
			}
		}
		if x != nil {
			if r, ok := tb.mkFI(x, 0); ok {
				return r
			}
			if w <= 32 {
				return tb.mk(OFInt, SF64, 0, x, nil, nil, "")
			}
		}
	}
	op := OFFromSBV
	if !signed {
		op = OFFromUBV
	}
	return tb.mk(op, s, 0, v, nil, nil, "")
}

// FToInt truncates towards zero (out-of-range results are unconstrained).
func (tb *TB) FToInt(f *Term, signed bool, w int) *Term {
	if f.isConst() {
		x := f.fval()
		if signed {
			return tb.BV(uint64(int64(x)), w)
		}
		return tb.BV(uint64(x), w)
	}
	if m, e, ok := tb.asFI(f); ok && m.hasB {
		r := tb.FRound(f, 2)
		if m2, e2, ok := tb.asFI(r); ok && e2 == 0 {
			if int(m2.sort) <= w {
				return tb.SExt(m2, w)
			}
			return tb.Extract(m2, w-1, 0)
		}
		_ = e
	}
	if n, d, ok := tb.asRat(f); ok && d.hasB && (d.lo > 0) {
		ww := max(int(n.sort), int(d.sort))
		q := tb.bvbin(OBvSDiv, tb.SExt(n, ww), tb.SExt(d, ww))
		if ww <= w {
			return tb.SExt(q, w)
		}
		return tb.Extract(q, w-1, 0)
	}
	op := OFToSBV
	if !signed {
		op = OFToUBV
	}
	return tb.tabulate(tb.mk(op, Sort(w), 0, f, nil, nil, ""))
}
func (tb *TB) FConv(f *Term, s Sort) *Term {
	if f.sort == s {
		return f
	}
	if f.isConst() {
		return tb.fconst(s, f.fval())
	}
	if s == SF64 && f.op == OFConv {
		if x := tb.exactWide(f); x != nil {
			return x
		}
	}
	return tb.mk(OFConv, s, 0, f, nil, nil, "")
}

// exactWide gives the float64 term of the same value as a float32 term that
// holds a small integer multiple of a power of two exactly.
func (tb *TB) exactWide(f *Term) *Term {
	if f.sort != SF32 {
		return nil
	}
	if f.isConst() {
		return tb.F64(f.fval())
	}
	if f.op == OFConv && f.a.sort == SF64 {
		if m, e, ok := tb.asFI(f.a); ok && m.hasB && m.lo >= -1<<24 && m.hi <= 1<<24 && e > -60 && e < 60 {
			return f.a
		}
	}
	return nil
}
func (tb *TB) UF(name string, s Sort, a, b *Term) *Term {
	return tb.mk(OUF, s, 0, a, b, nil, name)
}

// ---- evaluation under an assignment (by variable name / uf term)
type Model struct {
	v map[string]uint64
}

var evalUnknown = fmt.Errorf("unknown")

type evaluator struct {
	m    *Model
	memo map[*Term]uint64
	fail bool
	uf   int
	real bool // evaluate library functions as the library does
}

// ufReal are the uninterpreted functions that stand for library functions.
var ufReal = map[string]func(x, y float64) float64{
	"math.Pow": math.Pow, "math.Mod": math.Mod, "math.Hypot": math.Hypot,
}

func (e *evaluator) ev(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	if e.fail {
		return 0
	}
	v := e.ev1(t)
	e.memo[t] = v
	return v
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func (e *evaluator) f(t *Term) float64 {
	v := e.ev(t)
	if t.sort == SF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func (e *evaluator) ev1(t *Term) uint64 {
	switch t.op {
	case OVar:
		v, ok := e.m.v[t.name]
		if !ok {
			// unconstrained so far: any value serves; fix it to zero
			e.m.v[t.name] = 0
		}
		return v
	case OUF:
		if g := ufReal[t.name]; g != nil && e.real && t.sort == SF64 && t.a.sort == SF64 {
			y := 0.0
			if t.b != nil {
				y = e.f(t.b)
			}
			return math.Float64bits(g(e.f(t.a), y))
		}
		e.fail = true
		return 0
	case ONot:
		return 1 - e.ev(t.a)
	case OAnd:
		if e.ev(t.a) == 0 {
			return 0
		}
		return e.ev(t.b)
	case OOr:
		if e.ev(t.a) == 1 {
			return 1
		}
		return e.ev(t.b)
	case OIte:
		if e.ev(t.a) == 1 {
			return e.ev(t.b)
		}
		return e.ev(t.c)
	case OEq:
		return b2u(e.ev(t.a) == e.ev(t.b))
	case OBvNot:
		return ^e.ev(t.a) & mask(int(t.sort))
	case OBvNeg:
		return -e.ev(t.a) & mask(int(t.sort))
	case OBvULt:
		return b2u(e.ev(t.a) < e.ev(t.b))
	case OBvULe:
		return b2u(e.ev(t.a) <= e.ev(t.b))
	case OBvSLt:
		w := int(t.a.sort)
		return b2u(sx(e.ev(t.a), w) < sx(e.ev(t.b), w))
	case OBvSLe:
		w := int(t.a.sort)
		return b2u(sx(e.ev(t.a), w) <= sx(e.ev(t.b), w))
	case OConcat:
		return e.ev(t.a)<<uint(t.b.sort) | e.ev(t.b)
	case OExtract:
		return e.ev(t.a) >> (t.val & 0xff) & mask(int(t.sort))
	case OZExt:
		return e.ev(t.a)
	case OSExt:
		return uint64(sx(e.ev(t.a), int(t.a.sort))) & mask(int(t.sort))
	case OFBits, OFToBits:
		return e.ev(t.a)
	case OFInt:
		return math.Float64bits(math.Ldexp(float64(sx(e.ev(t.a), int(t.a.sort))), -int(t.val)))
	case OFAdd, OFSub, OFMul, OFDiv:
		if e.uf >= 2 || e.uf == 1 && (t.op == OFMul || t.op == OFDiv) {
			e.fail = true
			return 0
		}
		if t.sort == SF32 {
			x, y := float32(e.f(t.a)), float32(e.f(t.b))
			switch t.op {
			case OFAdd:
				x = x + y
			case OFSub:
				x = x - y
			case OFMul:
				x = x * y
			case OFDiv:
				x = x / y
			}
			return uint64(math.Float32bits(x))
		}
		return math.Float64bits(ev2(t.op, e.f(t.a), e.f(t.b)))
	case OFSqrt:
		if e.uf >= 1 {
			e.fail = true
			return 0
		}
		return math.Float64bits(math.Sqrt(e.f(t.a)))
	case OFNeg:
		if t.sort == SF32 {
			return e.ev(t.a) ^ (1 << 31)
		}
		return e.ev(t.a) ^ (1 << 63)
	case OFAbs:
		if t.sort == SF32 {
			return e.ev(t.a) &^ (1 << 31)
		}
		return e.ev(t.a) &^ (1 << 63)
	case OFLt:
		return b2u(e.f(t.a) < e.f(t.b))
	case OFLe:
		return b2u(e.f(t.a) <= e.f(t.b))
	case OFEq:
		return b2u(e.f(t.a) == e.f(t.b))
	case OFIsNaN:
		return b2u(math.IsNaN(e.f(t.a)))
	case OFRound:
		return math.Float64bits(evRound(e.f(t.a), t.val))
	case OFToSBV:
		x := e.f(t.a)
		if math.IsNaN(x) || math.Abs(x) >= 9.2e18 {
			e.fail = true
			return 0
		}
		return uint64(int64(x)) & mask(int(t.sort))
	case OFToUBV:
		x := e.f(t.a)
		if math.IsNaN(x) || x < 0 || x >= 9.2e18 {
			e.fail = true
			return 0
		}
		return uint64(x) & mask(int(t.sort))
	case OFFromSBV:
		v := sx(e.ev(t.a), int(t.a.sort))
		if t.sort == SF32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OFFromUBV:
		v := e.ev(t.a)
		if t.sort == SF32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return math.Float64bits(float64(v))
	case OFConv:
		if t.sort == SF32 {
			return uint64(math.Float32bits(float32(e.f(t.a))))
		}
		return math.Float64bits(e.f(t.a))
	default:
		v, ok := evBV(t.op, e.ev(t.a), e.ev(t.b), int(t.sort))
		if !ok {
			panic(fmt.Sprintf("ev1 op %d", t.op))
		}
		return v
	}
}

var _ = big.NewInt
