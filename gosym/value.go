package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Agg is the backing store of a struct or an array (and of variables: one cell).
type Agg struct {
	e []Value
}

// Ptr addresses cell i of a. With sym set, it addresses cell i+sym where
// 0 <= sym < n is guaranteed by the path condition.
type Ptr struct {
	a   *Agg
	i   int
	sym *Term
	n   int
}

type Str struct {
	s string
	b []*Term // non-nil: symbolic bytes
}

type Slice struct {
	a             *Agg
	off, len, cap int
}

type Iface struct {
	t types.Type
	v Value
}

type Func struct {
	fn     *ssa.Function
	env    []Value
	native func(in *Interp, args []Value) Value
	name   string
}

type Tuple []Value

type mapEntry struct {
	k, v Value
	dead bool
}
type Map struct {
	ents  []*mapEntry
	idx   map[string]*mapEntry // entries with concrete keys
	nsym  int                  // live entries with symbolic keys
	n     int
	id    int
	first bool
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	// unbuffered hand-off
	recvWaiting int
	sendq       []*sendItem
}
type sendItem struct {
	v     Value
	taken bool
}

// strIter / mapIter for range
type Iter struct {
	isMap bool
	s     Str
	pos   int
	m     *Map
	order []*mapEntry
	i     int
	perm  bool
}

func (s Str) length() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) concrete() (string, bool) {
	if s.b == nil {
		return s.s, true
	}
	return "", false
}

func (in *Interp) strByte(s Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return in.tb.BV(uint64(s.s[i]), 8)
}

func mkStr(b []*Term) Str {
	all := true
	for _, t := range b {
		if !t.isConst() {
			all = false
			break
		}
	}
	if all {
		x := make([]byte, len(b))
		for i, t := range b {
			x[i] = byte(t.val)
		}
		return Str{s: string(x)}
	}
	return Str{b: b}
}

func (in *Interp) strBytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = in.tb.BV(uint64(s.s[i]), 8)
	}
	return r
}

func (in *Interp) strCat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	r := append(append([]*Term{}, in.strBytes(a)...), in.strBytes(b)...)
	return mkStr(r)
}

func subStr(s Str, lo, hi int) Str {
	if s.b != nil {
		return mkStr(s.b[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (in *Interp) strEq(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return in.tb.Bool(a.s == b.s)
	}
	if a.length() != b.length() {
		return in.tb.fls
	}
	x, y := in.strBytes(a), in.strBytes(b)
	r := in.tb.tru
	for i := range x {
		r = in.tb.And(r, in.tb.Eq(x[i], y[i]))
		if r == in.tb.fls {
			return r
		}
	}
	return r
}

func (in *Interp) strLt(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return in.tb.Bool(a.s < b.s)
	}
	x, y := in.strBytes(a), in.strBytes(b)
	n := min(len(x), len(y))
	r := in.tb.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = in.tb.Or(in.tb.ULt(x[i], y[i]), in.tb.And(in.tb.Eq(x[i], y[i]), r))
	}
	return r
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	if a, ok := v.(*Agg); ok {
		n := &Agg{e: make([]Value, len(a.e))}
		for i, x := range a.e {
			if _, ok := x.(*Agg); ok {
				n.e[i] = copyVal(x)
			} else {
				n.e[i] = x
			}
		}
		return n
	}
	return v
}

func (in *Interp) zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return in.zeroBasic(t)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Func)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		a := &Agg{e: make([]Value, t.NumFields())}
		for i := range a.e {
			a.e[i] = in.zero(t.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(t.Len())
		a := &Agg{e: make([]Value, n)}
		if n > 0 {
			z := in.zero(t.Elem())
			_, isAgg := z.(*Agg)
			for i := range a.e {
				if isAgg && i > 0 {
					a.e[i] = copyVal(z)
				} else {
					a.e[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = in.zero(t.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero value of " + t.String()))
}

func basicSort(b *types.Basic) (Sort, bool, bool) { // sort, signed, ok
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Float64, types.UntypedFloat:
		return SF64, true, true
	case types.Float32:
		return SF32, true, true
	}
	return 0, false, false
}

func (in *Interp) zeroBasic(b *types.Basic) Value {
	switch b.Kind() {
	case types.String, types.UntypedString:
		return Str{}
	case types.UnsafePointer, types.UntypedNil:
		return Ptr{}
	case types.Complex128, types.Complex64:
		return complex(0, 0)
	}
	s, _, ok := basicSort(b)
	if !ok {
		panic(unsupported("basic type " + b.String()))
	}
	switch {
	case s == SBool:
		return in.tb.fls
	case s.isFP():
		return in.tb.fconst(s, 0)
	}
	return in.tb.BV(0, int(s))
}

// keyString gives a canonical string for concrete map keys; ok=false when symbolic.
func (in *Interp) keyString(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if !v.isConst() {
			return "", false
		}
		if v.sort.isFP() && v.fval() == 0 {
			return fmt.Sprintf("t%d:0", v.sort), true
		}
		return fmt.Sprintf("t%d:%x", v.sort, v.val), true
	case Str:
		if v.b != nil {
			return "", false
		}
		return "s" + v.s, true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := in.keyString(v.v)
		return "i" + in.typeKey(v.t) + "|" + k, ok
	case Ptr:
		if v.sym != nil {
			return "", false
		}
		return fmt.Sprintf("p%p+%d", v.a, v.i), true
	case *Agg:
		var sb strings.Builder
		sb.WriteString("{")
		for _, x := range v.e {
			k, ok := in.keyString(x)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	case *Chan:
		return fmt.Sprintf("c%p", v), true
	case *Map, Slice, *Func:
		panic(in.rtPanic("runtime error: hash of unhashable type"))
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func (in *Interp) typeKey(t types.Type) string {
	w := in.w
	if s, ok := w.typeKeys[t]; ok {
		return s
	}
	for u, s := range w.typeKeys {
		if types.Identical(u, t) {
			w.typeKeys[t] = s
			return s
		}
	}
	s := fmt.Sprintf("T%d", len(w.typeKeys))
	w.typeKeys[t] = s
	return s
}

// equal yields the term for Go's == on two values of the same static type.
func (in *Interp) equal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return in.tb.Eq(x, b.(*Term))
	case Str:
		return in.strEq(x, b.(Str))
	case Ptr:
		y := b.(Ptr)
		if x.sym != nil || y.sym != nil {
			x, y = in.concPtr(x), in.concPtr(y)
		}
		return in.tb.Bool(x.a == y.a && x.i == y.i)
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return in.tb.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return in.tb.fls
		}
		switch x.v.(type) {
		case Slice, *Map, *Func:
			panic(in.rtPanic("runtime error: comparing uncomparable type " + x.t.String()))
		}
		return in.equal(x.v, y.v)
	case *Agg:
		y := b.(*Agg)
		r := in.tb.tru
		for i := range x.e {
			r = in.tb.And(r, in.equal(x.e[i], y.e[i]))
		}
		return r
	case *Chan:
		return in.tb.Bool(x == b.(*Chan))
	case *Map:
		return in.tb.Bool(x == b.(*Map))
	case *Func:
		y := b.(*Func)
		if x == nil || y == nil {
			return in.tb.Bool(x == nil && y == nil)
		}
		return in.tb.Bool(x == y)
	case Slice:
		y := b.(Slice)
		return in.tb.Bool(x.a == nil && y.a == nil)
	case complex128:
		return in.tb.Bool(x == b.(complex128))
	}
	panic(unsupported(fmt.Sprintf("== on %T", a)))
}

// ---- maps
func (in *Interp) newMap() *Map {
	in.mapSeq++
	return &Map{idx: map[string]*mapEntry{}, id: in.mapSeq}
}

func (in *Interp) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	ks, conc := in.keyString(k)
	if conc {
		if e, ok := m.idx[ks]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c2 := in.keyString(e.k); c2 {
				continue
			}
		}
		if in.branch(in.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	if m == nil {
		panic(in.rtPanic("assignment to entry in nil map"))
	}
	if e := in.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ks, ok := in.keyString(k); ok {
		m.idx[ks] = e
	} else {
		m.nsym++
	}
}

func (in *Interp) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ks, ok := in.keyString(e.k); ok {
		delete(m.idx, ks)
	} else {
		m.nsym--
	}
	if len(m.ents) > 64 && m.n < len(m.ents)/2 {
		var l []*mapEntry
		for _, x := range m.ents {
			if !x.dead {
				l = append(l, x)
			}
		}
		m.ents = l
	}
}

func (in *Interp) mapOrder(m *Map) []*mapEntry {
	var l []*mapEntry
	if m == nil {
		return nil
	}
	for _, e := range m.ents {
		if !e.dead {
			l = append(l, e)
		}
	}
	if len(l) < 2 {
		return l
	}
	mode := in.opts["maporder"]
	if in.initDepth > 0 {
		mode = 0
	}
	switch {
	case mode >= 2 && len(l) <= in.optDef("mapperm", 3):
		// every permutation
		var r []*mapEntry
		for len(l) > 1 {
			c := in.choose(len(l))
			r = append(r, l[c])
			l = append(append([]*mapEntry{}, l[:c]...), l[c+1:]...)
		}
		return append(r, l...)
	case mode >= 1:
		if in.choose(2) == 1 {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

func (in *Interp) optDef(k string, d int) int {
	if v, ok := in.opts[k]; ok {
		return v
	}
	return d
}

// ---- debugging
func (in *Interp) show(v Value) string {
	switch v := v.(type) {
	case *Term:
		return v.show(6)
	case Str:
		if v.b == nil {
			return fmt.Sprintf("%q", v.s)
		}
		return fmt.Sprintf("str[%d]sym", len(v.b))
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return "iface(" + v.t.String() + "," + in.show(v.v) + ")"
	case Ptr:
		return fmt.Sprintf("ptr(%p+%d)", v.a, v.i)
	case *Agg:
		var s []string
		for i, x := range v.e {
			if i > 8 {
				s = append(s, "...")
				break
			}
			s = append(s, in.show(x))
		}
		return "{" + strings.Join(s, ",") + "}"
	case Slice:
		return fmt.Sprintf("slice[%d]", v.len)
	}
	return fmt.Sprintf("%T", v)
}

func (t *Term) show(d int) string {
	if t == nil {
		return "nil"
	}
	if t.op == OConst {
		if t.sort == SF64 {
			return fmt.Sprint(t.fval())
		}
		if t.sort == SBool {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprint(sx(t.val, int(t.sort)))
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var s []string
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s = append(s, x.show(d-1))
		}
	}
	n := opSMT[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	if t.op == OUF {
		n = t.name
	}
	return "(" + n + " " + strings.Join(s, " ") + ")"
}

var _ = sort.Strings
