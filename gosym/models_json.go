package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- encoding/json: text is concrete, symbolic leaves travel as tokens.

type jerr struct{ v Value }

func (in *Interp) jenc(sb *strings.Builder, t types.Type, v Value) {
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		i := v.(Iface)
		if i.t == nil {
			sb.WriteString("null")
			return
		}
		in.jenc(sb, i.t, i.v)
		return
	}
	if f := in.hasMethod(t, "MarshalJSON"); f != nil {
		if p, ok := v.(Ptr); ok && p.a == nil {
			sb.WriteString("null")
			return
		}
		r := in.callFn(f, []Value{copyVal(v)}, nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			panic(jerr{e})
		}
		sb.WriteString(in.cstr(in.byteStr(r[0])))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case Str:
			if c, ok := x.concrete(); ok {
				b, _ := json.Marshal(c)
				sb.Write(b)
				return
			}
			in.tokSeq++
			k := fmt.Sprintf("@@vkstr%d@@", in.tokSeq)
			in.tokens[k] = x
			sb.WriteString(`"` + k + `"`)
			return
		case *Term:
			if x.isConst() {
				b, err := json.Marshal(goBasic(u, x))
				if err != nil {
					panic(jerr{in.mkError(err.Error())})
				}
				sb.Write(b)
				return
			}
			if x.sort == SBool {
				sb.WriteString(fmt.Sprint(in.branch(x)))
				return
			}
			if x.sort.isFP() {
				if _, _, ok := in.tb.asFI(x); !ok {
					b := in.tb.FToBits(x)
					if in.branch(in.tb.Eq(in.tb.Extract(b, 62, 52), in.tb.BV(0x7ff, 11))) {
						panic(jerr{in.mkError("json: unsupported value: NaN")})
					}
				}
				sb.WriteString(in.floatToken(x).s)
				return
			}
			in.tokSeq++
			k := fmt.Sprintf("7%d0000%d", in.tokSeq, in.tokSeq)
			in.tokens[k] = x
			sb.WriteString(k)
			return
		}
	case *types.Slice:
		s := v.(Slice)
		if s.a == nil {
			sb.WriteString("null")
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			sb.WriteString(`"` + base64.StdEncoding.EncodeToString([]byte(in.cstr(in.byteStr(s)))) + `"`)
			return
		}
		sb.WriteString("[")
		for i := 0; i < s.len; i++ {
			if i > 0 {
				sb.WriteString(",")
			}
			in.jenc(sb, u.Elem(), s.a.e[s.off+i])
		}
		sb.WriteString("]")
		return
	case *types.Array:
		sb.WriteString("[")
		for i, x := range v.(*Agg).e {
			if i > 0 {
				sb.WriteString(",")
			}
			in.jenc(sb, u.Elem(), x)
		}
		sb.WriteString("]")
		return
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			sb.WriteString("null")
			return
		}
		type kv struct {
			k string
			v Value
		}
		var l []kv
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			var k string
			switch x := e.k.(type) {
			case Str:
				k = in.cstr(x)
			case *Term:
				k = fmt.Sprint(goBasic(u.Key().Underlying().(*types.Basic), x))
			default:
				panic(unsupported("json map key"))
			}
			l = append(l, kv{k, e.v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		sb.WriteString("{")
		for i, x := range l {
			if i > 0 {
				sb.WriteString(",")
			}
			b, _ := json.Marshal(x.k)
			sb.Write(b)
			sb.WriteString(":")
			in.jenc(sb, u.Elem(), x.v)
		}
		sb.WriteString("}")
		return
	case *types.Struct:
		sb.WriteString("{")
		first := true
		for _, f := range jfields(u) {
			fv := v.(*Agg).e[f.i]
			if f.omit && in.isEmpty(fv) {
				continue
			}
			if !first {
				sb.WriteString(",")
			}
			first = false
			b, _ := json.Marshal(f.name)
			sb.Write(b)
			sb.WriteString(":")
			in.jenc(sb, u.Field(f.i).Type(), fv)
		}
		sb.WriteString("}")
		return
	case *types.Pointer:
		p := v.(Ptr)
		if p.a == nil {
			sb.WriteString("null")
			return
		}
		p = in.concPtr(p)
		in.jenc(sb, u.Elem(), p.a.e[p.i])
		return
	case *types.Chan, *types.Signature:
		panic(jerr{in.mkError("json: unsupported type: " + t.String())})
	}
	panic(unsupported("json of " + t.String()))
}

func (in *Interp) isEmpty(v Value) bool {
	switch x := v.(type) {
	case Str:
		return x.length() == 0
	case Slice:
		return x.len == 0
	case *Map:
		return x == nil || x.n == 0
	case Ptr:
		return x.a == nil
	case Iface:
		return x.t == nil
	case *Term:
		if x.isConst() {
			return x.val == 0
		}
		return false
	}
	return false
}

type jfield struct {
	i    int
	name string
	omit bool
}

func jfields(u *types.Struct) []jfield {
	var r []jfield
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		tag := reflect.StructTag(u.Tag(i)).Get("json")
		if !f.Exported() || tag == "-" {
			continue
		}
		if f.Embedded() && tag == "" {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				panic(unsupported("json of embedded struct"))
			}
		}
		ps := strings.Split(tag, ",")
		n := f.Name()
		if ps[0] != "" {
			n = ps[0]
		}
		jf := jfield{i: i, name: n}
		for _, o := range ps[1:] {
			if o == "omitempty" {
				jf.omit = true
			}
		}
		r = append(r, jf)
	}
	return r
}

// jdec stores raw into the cell dst (of type t).
func (in *Interp) jdec(raw []byte, t types.Type, dst Ptr) {
	fail := func(msg string) { panic(jerr{in.mkError(msg)}) }
	pt := types.NewPointer(t)
	isNull := strings.TrimSpace(string(raw)) == "null"
	if _, isI := t.Underlying().(*types.Interface); !isI {
		if _, isP := t.Underlying().(*types.Pointer); !isP || !isNull {
			if f := in.hasMethod(pt, "UnmarshalJSON"); f != nil {
				if p, isP := t.Underlying().(*types.Pointer); isP {
					// pointer cell whose element decodes itself
					c := in.load(dst, t).(Ptr)
					if c.a == nil {
						c = Ptr{a: &Agg{e: []Value{in.zero(p.Elem())}}}
						in.store(dst, c)
					}
					in.jdec(raw, p.Elem(), c)
					return
				}
				r := in.callFn(f, []Value{dst, in.mkBytes(raw)}, nil).(Iface)
				if r.t != nil {
					panic(jerr{r})
				}
				return
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if isNull {
			in.store(dst, Iface{})
			return
		}
		if u.NumMethods() > 0 {
			fail("json: cannot unmarshal into Go value of type " + t.String())
		}
		// a non-nil pointer inside the interface is decoded in place
		if c, ok := in.load(dst, t).(Iface); ok && c.t != nil {
			if p, ok := c.v.(Ptr); ok && p.a != nil {
				if pt, ok := c.t.Underlying().(*types.Pointer); ok {
					in.jdec(raw, pt.Elem(), p)
					return
				}
			}
		}
		in.store(dst, in.jany(raw))
		return
	case *types.Pointer:
		if isNull {
			in.store(dst, Ptr{})
			return
		}
		c := in.load(dst, t).(Ptr)
		if c.a == nil {
			c = Ptr{a: &Agg{e: []Value{in.zero(u.Elem())}}}
			in.store(dst, c)
		}
		in.jdec(raw, u.Elem(), c)
		return
	}
	if isNull {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice:
			in.store(dst, in.zero(t))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			var s string
			if err := json.Unmarshal(raw, &s); err != nil {
				fail(err.Error())
			}
			in.store(dst, in.tokStr(s))
			return
		}
		if u.Kind() == types.Bool {
			var b bool
			if err := json.Unmarshal(raw, &b); err != nil {
				fail(err.Error())
			}
			in.store(dst, in.tb.Bool(b))
			return
		}
		s, signed, _ := basicSort(u)
		txt := strings.TrimSpace(string(raw))
		if tk, ok := in.tokens[txt]; ok {
			x := tk.(*Term)
			if x.sort == s {
				in.store(dst, x)
				return
			}
		}
		var n json.Number
		if err := json.Unmarshal(raw, &n); err != nil || (len(raw) > 0 && raw[0] == '"') {
			fail("json: cannot unmarshal into Go value of type " + t.String())
		}
		if s.isFP() {
			f, err := n.Float64()
			if err != nil {
				fail(err.Error())
			}
			if s == SF32 {
				in.store(dst, in.tb.F32c(float32(f)))
			} else {
				in.store(dst, in.tb.F64(f))
			}
			return
		}
		if signed {
			k, err := strconv.ParseInt(txt, 10, int(s))
			if err != nil {
				fail("json: cannot unmarshal number " + txt + " into Go value of type " + t.String())
			}
			in.store(dst, in.tb.BV(uint64(k), int(s)))
			return
		}
		k, err := strconv.ParseUint(txt, 10, int(s))
		if err != nil {
			fail("json: cannot unmarshal number " + txt + " into Go value of type " + t.String())
		}
		in.store(dst, in.tb.BV(k, int(s)))
		return
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			var b []byte
			if err := json.Unmarshal(raw, &b); err != nil {
				fail(err.Error())
			}
			in.store(dst, in.mkBytes(b))
			return
		}
		var l []json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil {
			fail(strings.Replace(err.Error(), "[]json.RawMessage", t.String(), 1))
		}
		s := in.makeSlice(u.Elem(), len(l), len(l))
		for i, r := range l {
			in.jdec(r, u.Elem(), Ptr{a: s.a, i: i})
		}
		in.store(dst, s)
		return
	case *types.Array:
		var l []json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil {
			fail(err.Error())
		}
		arr := dst.a.e[dst.i].(*Agg)
		for i, r := range l {
			if i < len(arr.e) {
				in.jdec(r, u.Elem(), Ptr{a: arr, i: i})
			}
		}
		return
	case *types.Map:
		var l map[string]json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil {
			fail(err.Error())
		}
		m, _ := in.load(dst, t).(*Map)
		if m == nil {
			m = in.newMap()
			in.store(dst, m)
		}
		var ks []string
		for k := range l {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c := Ptr{a: &Agg{e: []Value{in.zero(u.Elem())}}}
			in.jdec(l[k], u.Elem(), c)
			kb := u.Key().Underlying().(*types.Basic)
			var kv Value = Str{s: k}
			if kb.Info()&types.IsString == 0 {
				n, err := strconv.ParseInt(k, 10, 64)
				if err != nil {
					fail(err.Error())
				}
				s, _, _ := basicSort(kb)
				kv = in.tb.BV(uint64(n), int(s))
			}
			in.mapSet(m, kv, c.a.e[0])
		}
		return
	case *types.Struct:
		var l map[string]json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil {
			fail(err.Error())
		}
		st := dst.a.e[dst.i].(*Agg)
		for _, f := range jfields(u) {
			r, ok := l[f.name]
			if !ok {
				for k, v := range l {
					if strings.EqualFold(k, f.name) {
						r, ok = v, true
					}
				}
			}
			if ok {
				in.jdec(r, u.Field(f.i).Type(), Ptr{a: st, i: f.i})
			}
		}
		return
	}
	panic(unsupported("json into " + t.String()))
}

func (in *Interp) tokStr(s string) Str {
	if t, ok := in.tokens[s]; ok {
		if x, ok := t.(Str); ok {
			return x
		}
	}
	return Str{s: s}
}

func (in *Interp) jany(raw []byte) Iface {
	txt := strings.TrimSpace(string(raw))
	emptyI := types.NewInterfaceType(nil, nil)
	switch {
	case txt == "null":
		return Iface{}
	case txt == "true" || txt == "false":
		return Iface{t: types.Typ[types.Bool], v: in.tb.Bool(txt == "true")}
	case strings.HasPrefix(txt, `"`):
		var s string
		json.Unmarshal(raw, &s)
		return Iface{t: types.Typ[types.String], v: in.tokStr(s)}
	case strings.HasPrefix(txt, "["):
		c := Ptr{a: &Agg{e: []Value{Slice{}}}}
		t := types.NewSlice(in.anyType())
		in.jdec(raw, t, c)
		return Iface{t: t, v: c.a.e[0]}
	case strings.HasPrefix(txt, "{"):
		c := Ptr{a: &Agg{e: []Value{(*Map)(nil)}}}
		t := types.NewMap(types.Typ[types.String], in.anyType())
		in.jdec(raw, t, c)
		return Iface{t: t, v: c.a.e[0]}
	}
	_ = emptyI
	c := Ptr{a: &Agg{e: []Value{in.tb.F64(0)}}}
	if tk, ok := in.tokens[txt]; ok {
		if x := tk.(*Term); !x.sort.isFP() {
			return Iface{t: types.Typ[types.Float64], v: in.tb.FFromInt(in.tb.SExt(x, 64), true, SF64)}
		}
	}
	in.jdec(raw, types.Typ[types.Float64], c)
	return Iface{t: types.Typ[types.Float64], v: c.a.e[0]}
}

func (in *Interp) anyType() types.Type { return types.Universe.Lookup("any").Type().Underlying() }

func (in *Interp) jcatch(f func()) (err Value) {
	err = Iface{}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jerr); ok {
				err = e.v
				return
			}
			panic(r)
		}
	}()
	f()
	return
}

func init() {
	reg("encoding/json.Marshal", func(in *Interp, fn *ssa.Function, a []Value) Value {
		var sb strings.Builder
		err := in.jcatch(func() {
			i := a[0].(Iface)
			if i.t == nil {
				sb.WriteString("null")
				return
			}
			in.jenc(&sb, i.t, i.v)
		})
		if err.(Iface).t != nil {
			return Tuple{Slice{}, err}
		}
		return Tuple{in.mkBytes([]byte(sb.String())), err}
	})
	reg("encoding/json.Unmarshal", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := in.byteStr(a[0])
		c, ok := s.concrete()
		if !ok {
			panic(unsupported("json decoding of symbolic text"))
		}
		if !json.Valid([]byte(c)) {
			var x interface{}
			return in.mkError(json.Unmarshal([]byte(c), &x).Error())
		}
		i := a[1].(Iface)
		if i.t == nil {
			return in.mkError("json: Unmarshal(nil)")
		}
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			return in.mkError("json: Unmarshal(non-pointer " + i.t.String() + ")")
		}
		p := i.v.(Ptr)
		if p.a == nil {
			return in.mkError("json: Unmarshal(nil " + i.t.String() + ")")
		}
		return in.jcatch(func() { in.jdec([]byte(c), pt.Elem(), p) })
	})

	// ---- regexp with concrete patterns
	getRe := func(in *Interp, v Value) *regexp.Regexp {
		p := v.(Ptr)
		in.nilCheck(p)
		return in.side[p.a].(*regexp.Regexp)
	}
	reg("regexp.MustCompile", func(in *Interp, fn *ssa.Function, a []Value) Value {
		re := regexp.MustCompile(in.cstr(a[0]))
		g := &Agg{e: []Value{&Agg{}}}
		in.side[g] = re
		return Ptr{a: g}
	})
	reg("regexp.Compile", func(in *Interp, fn *ssa.Function, a []Value) Value {
		re, err := regexp.Compile(in.cstr(a[0]))
		if err != nil {
			return Tuple{Ptr{}, in.mkError(err.Error())}
		}
		g := &Agg{e: []Value{&Agg{}}}
		in.side[g] = re
		return Tuple{Ptr{a: g}, Iface{}}
	})
	match := func(in *Interp, re *regexp.Regexp, s Str) *Term {
		if c, ok := s.concrete(); ok {
			return in.tb.Bool(re.MatchString(c))
		}
		return in.reMatch(re, s)
	}
	reg("regexp.MatchString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		re, err := regexp.Compile(in.cstr(a[0]))
		if err != nil {
			return Tuple{in.tb.fls, in.mkError(err.Error())}
		}
		return Tuple{match(in, re, a[1].(Str)), Iface{}}
	})
	reg("(*regexp.Regexp).MatchString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return match(in, getRe(in, a[0]), a[1].(Str))
	})
	reg("(*regexp.Regexp).Match", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return match(in, getRe(in, a[0]), in.byteStr(a[1]))
	})
	reg("(*regexp.Regexp).FindAllString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		l := getRe(in, a[0]).FindAllString(in.cstr(a[1]), in.cint(a[2]))
		if l == nil {
			return Slice{}
		}
		g := &Agg{}
		for _, s := range l {
			g.e = append(g.e, Str{s: s})
		}
		return Slice{a: g, len: len(l), cap: len(l)}
	})
	reg("(*regexp.Regexp).FindString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return Str{s: getRe(in, a[0]).FindString(in.cstr(a[1]))}
	})
	reg("(*regexp.Regexp).ReplaceAllString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return Str{s: getRe(in, a[0]).ReplaceAllString(in.cstr(a[1]), in.cstr(a[2]))}
	})
}
