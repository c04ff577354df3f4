package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) hasMethod(t types.Type, name string) *ssa.Function {
	ms := in.w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return in.w.lookupMethod(t, ms.At(i).Obj().Pkg(), name)
		}
	}
	return nil
}

// goBasic converts a constant scalar to the native Go value of its type.
func goBasic(b *types.Basic, t *Term) interface{} {
	v := t.val
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return v == 1
	case types.Int, types.UntypedInt:
		return int(v)
	case types.Int64:
		return int64(v)
	case types.Int32, types.UntypedRune:
		return int32(v)
	case types.Int16:
		return int16(v)
	case types.Int8:
		return int8(v)
	case types.Uint, types.Uintptr:
		return uint(v)
	case types.Uint64:
		return v
	case types.Uint32:
		return uint32(v)
	case types.Uint16:
		return uint16(v)
	case types.Uint8:
		return uint8(v)
	case types.Float64, types.UntypedFloat:
		return math.Float64frombits(v)
	case types.Float32:
		return math.Float32frombits(uint32(v))
	}
	return nil
}

func (in *Interp) floatToken(f *Term) Str {
	in.tokSeq++
	k := fmt.Sprintf("7.%d00000000%d", in.tokSeq, in.tokSeq)
	in.tokens[k] = f
	return Str{s: k}
}

// floatTokenP stands for the text of f with p decimals; reading it back gives
// the rounded value.
func (in *Interp) floatTokenP(f *Term, p int) Str {
	if p < 0 || p > 15 {
		return in.floatToken(f)
	}
	v := f
	m, e, ok := in.tb.asFI(f)
	if !ok {
		b := in.tb.FToBits(f)
		if f.sort == SF64 && in.branch(in.tb.Eq(in.tb.Extract(b, 62, 52), in.tb.BV(0x7ff, 11))) {
			if in.branch(in.tb.Not(in.tb.Eq(in.tb.Extract(b, 51, 0), in.tb.BV(0, 52)))) {
				return Str{s: "NaN"}
			}
			if in.branch(in.tb.Eq(in.tb.Extract(b, 63, 63), in.tb.BV(1, 1))) {
				return Str{s: "-Inf"}
			}
			return Str{s: "+Inf"}
		}
	}
	if f.sort == SF64 && (!ok || e > p) {
		ten := in.tb.F64(math.Pow10(p))
		v = in.tb.FBin(OFDiv, in.tb.FRound(in.tb.FBin(OFMul, f, ten), 3), ten)
	}
	_ = m
	in.tokSeq++
	k := fmt.Sprintf("97%04d31", in.tokSeq)
	if p > 0 {
		k += "." + strings.Repeat("5", p)
	}
	in.tokens[k] = v
	return Str{s: k}
}

// fmtPrec reads the precision of %.pf flags (6 by default).
func fmtPrec(flags string) int {
	i := strings.IndexByte(flags, '.')
	if i < 0 {
		return 6
	}
	n, _ := strconv.Atoi(flags[i+1:])
	return n
}

func (in *Interp) fmtValue(i Iface, verb byte, flags string) string {
	s := in.fmtArg(i, verb, flags, 0)
	if c, ok := s.concrete(); ok {
		return c
	}
	b := make([]byte, len(s.b))
	for k, t := range s.b {
		v, _ := in.eval(t)
		b[k] = byte(v)
	}
	return string(b)
}

func (in *Interp) fmtArg(a Iface, verb byte, flags string, depth int) Str {
	if a.t == nil {
		switch verb {
		case 'v', 's':
			if verb == 'v' {
				return Str{s: "<nil>"}
			}
			return Str{s: "%!s(<nil>)"}
		}
		return Str{s: "%!" + string(verb) + "(<nil>)"}
	}
	if verb == 'T' {
		return Str{s: types.TypeString(a.t, func(p *types.Package) string { return p.Name() })}
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if f := in.hasMethod(a.t, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				if p, ok := a.v.(Ptr); ok && p.a == nil {
					return Str{s: "<nil>"}
				}
				r := in.callFn(f, []Value{a.v}, nil)
				if s, ok := r.(Str); ok {
					return in.padStr(s, verb, flags)
				}
			}
		}
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		switch v := a.v.(type) {
		case *Term:
			if v.isConst() {
				return Str{s: fmt.Sprintf("%"+flags+string(verb), goBasic(u, v))}
			}
			switch {
			case v.sort == SBool:
				return Str{s: fmt.Sprintf("%"+flags+string(verb), in.branch(v))}
			case v.sort.isFP():
				if verb == 'f' || verb == 'F' {
					return in.floatTokenP(v, fmtPrec(flags))
				}
				return in.floatToken(v)
			case verb == 'd' || verb == 'v':
				_, signed, _ := basicSort(u)
				if flags == "" || flags == "+" {
					if signed {
						return in.callFn(in.w.fnByName("strconv", "FormatInt"), []Value{in.tb.SExt(v, 64), in.tb.Int(10)}, nil).(Str)
					}
					return in.callFn(in.w.fnByName("strconv", "FormatUint"), []Value{in.tb.ZExt(v, 64), in.tb.Int(10)}, nil).(Str)
				}
			}
			_, signed, _ := basicSort(u)
			c := in.concretize(v)
			if signed {
				c = uint64(sx(c, int(v.sort)))
			}
			return Str{s: fmt.Sprintf("%"+flags+string(verb), goBasic(u, &Term{val: c}))}
		case Str:
			return in.padStr(v, verb, flags)
		case Ptr:
			return Str{s: "0xc000000000"}
		case complex128:
			return Str{s: fmt.Sprintf("%"+flags+string(verb), v)}
		}
	case *types.Slice:
		s := a.v.(Slice)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'x' || verb == 'q') {
			return in.padStr(in.byteStr(s), verb, flags)
		}
		r := Str{s: "["}
		for i := 0; i < s.len; i++ {
			if i > 0 {
				r = in.strCat(r, Str{s: " "})
			}
			r = in.strCat(r, in.fmtArg(in.asIface(u.Elem(), s.a.e[s.off+i]), verb, flags, depth+1))
		}
		return in.strCat(r, Str{s: "]"})
	case *types.Array:
		s := a.v.(*Agg)
		r := Str{s: "["}
		for i := range s.e {
			if i > 0 {
				r = in.strCat(r, Str{s: " "})
			}
			r = in.strCat(r, in.fmtArg(in.asIface(u.Elem(), s.e[i]), verb, flags, depth+1))
		}
		return in.strCat(r, Str{s: "]"})
	case *types.Struct:
		s := a.v.(*Agg)
		r := Str{s: "{"}
		for i := range s.e {
			if i > 0 {
				r = in.strCat(r, Str{s: " "})
			}
			if strings.Contains(flags, "+") || strings.Contains(flags, "#") {
				r = in.strCat(r, Str{s: u.Field(i).Name() + ":"})
			}
			r = in.strCat(r, in.fmtArg(in.asIface(u.Field(i).Type(), s.e[i]), verb, flags, depth+1))
		}
		return in.strCat(r, Str{s: "}"})
	case *types.Map:
		m := a.v.(*Map)
		type kv struct {
			k string
			e *mapEntry
		}
		var l []kv
		if m != nil {
			for _, e := range m.ents {
				if !e.dead {
					l = append(l, kv{in.fmtValue(in.asIface(u.Key(), e.k), 'v', ""), e})
				}
			}
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].k < l[j].k })
		r := Str{s: "map["}
		for i, x := range l {
			if i > 0 {
				r = in.strCat(r, Str{s: " "})
			}
			r = in.strCat(r, in.fmtArg(in.asIface(u.Key(), x.e.k), verb, flags, depth+1))
			r = in.strCat(r, Str{s: ":"})
			r = in.strCat(r, in.fmtArg(in.asIface(u.Elem(), x.e.v), verb, flags, depth+1))
		}
		return in.strCat(r, Str{s: "]"})
	case *types.Pointer:
		p := a.v.(Ptr)
		if p.a == nil {
			return Str{s: "<nil>"}
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				p = in.concPtr(p)
				return in.strCat(Str{s: "&"}, in.fmtArg(Iface{t: u.Elem(), v: p.a.e[p.i]}, verb, flags, depth+1))
			}
		}
		return Str{s: "0xc000000000"}
	case *types.Interface:
		return in.fmtArg(a.v.(Iface), verb, flags, depth)
	}
	return Str{s: "0xc000000000"}
}

// asIface wraps a stored value of static type t.
func (in *Interp) asIface(t types.Type, v Value) Iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(Iface)
	}
	return Iface{t: t, v: v}
}

func (in *Interp) padStr(s Str, verb byte, flags string) Str {
	if c, ok := s.concrete(); ok {
		return Str{s: fmt.Sprintf("%"+flags+string(verb), c)}
	}
	if (verb == 's' || verb == 'v') && strings.Trim(flags, "+#") == "" {
		return s
	}
	return Str{s: fmt.Sprintf("%"+flags+string(verb), in.cstr(s))}
}

func (in *Interp) ifaceSlice(v Value) []Iface {
	s := v.(Slice)
	r := make([]Iface, s.len)
	for i := range r {
		r[i] = s.a.e[s.off+i].(Iface)
	}
	return r
}

func (in *Interp) sprintf(format string, args []Iface) Str {
	r := Str{}
	n := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			r = in.strCat(r, Str{s: format[i:]})
			break
		}
		r = in.strCat(r, Str{s: format[i : i+j]})
		i += j + 1
		k := i
		flags := ""
		for k < len(format) && strings.IndexByte("+-# 0123456789.*", format[k]) >= 0 {
			if format[k] == '*' {
				if n < len(args) {
					if t, ok := args[n].v.(*Term); ok {
						flags += fmt.Sprint(in.concInt(t))
					}
					n++
				}
			} else {
				flags += string(format[k])
			}
			k++
		}
		if k >= len(format) {
			r = in.strCat(r, Str{s: "%!(NOVERB)"})
			break
		}
		verb := format[k]
		i = k + 1
		if verb == '%' {
			r = in.strCat(r, Str{s: "%"})
			continue
		}
		if n >= len(args) {
			r = in.strCat(r, Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		if verb == 'w' {
			verb = 'v'
		}
		if verb == 'p' {
			r = in.strCat(r, Str{s: "0xc000000000"})
			n++
			continue
		}
		r = in.strCat(r, in.fmtArg(args[n], verb, flags, 0))
		n++
	}
	if n < len(args) {
		r = in.strCat(r, Str{s: "%!(EXTRA)"})
	}
	return r
}

func (in *Interp) sprint(args []Iface, ln bool) Str {
	r := Str{}
	isStr := func(a Iface) bool {
		if a.t == nil {
			return false
		}
		b, ok := a.t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	for i, a := range args {
		if i > 0 && (ln || !isStr(a) && !isStr(args[i-1])) {
			r = in.strCat(r, Str{s: " "})
		}
		r = in.strCat(r, in.fmtArg(a, 'v', "", 0))
	}
	if ln {
		r = in.strCat(r, Str{s: "\n"})
	}
	return r
}

func (in *Interp) strToBytes(s Str) Slice {
	b := in.strBytes(s)
	a := &Agg{e: make([]Value, len(b))}
	for i, t := range b {
		a.e[i] = t
	}
	return Slice{a: a, len: len(b), cap: len(b)}
}

func (in *Interp) fwrite(w Value, s Str) Value {
	i := w.(Iface)
	return in.callMethod(i, "Write", nil, in.strToBytes(s))
}

func init() {
	reg("fmt.Sprintf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.sprintf(in.cstr(a[0]), in.ifaceSlice(a[1]))
	})
	reg("fmt.Sprint", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprint(in.ifaceSlice(a[0]), false) })
	reg("fmt.Sprintln", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprint(in.ifaceSlice(a[0]), true) })
	reg("fmt.Errorf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.mkErrorS(in.sprintf(in.cstr(a[0]), in.ifaceSlice(a[1])))
	})
	reg("fmt.Fprintf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.fwrite(a[0], in.sprintf(in.cstr(a[1]), in.ifaceSlice(a[2])))
	})
	reg("fmt.Fprint", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.fwrite(a[0], in.sprint(in.ifaceSlice(a[1]), false))
	})
	reg("fmt.Fprintln", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.fwrite(a[0], in.sprint(in.ifaceSlice(a[1]), true))
	})
}
