package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(in *Interp, fn *ssa.Function, args []Value) Value

const vkPath = "github.com/sjwhitworth/golearn/zzvk"

// models replace functions that are outside Go source (assembly, runtime) or
// part of the environment. pureModels may be evaluated speculatively.
var models = map[string]modelFn{}
var pureModels = map[string]bool{}

// prefixModels match by "package path." prefix, for whole packages without effects.
var noopPkgs = map[string]bool{"log": true, "internal/godebug": true, "runtime/debug": true, "runtime/pprof": true}

func (w *Worker) modelFor(fn *ssa.Function) modelFn {
	if m, ok := w.models[fn]; ok {
		return m
	}
	name := fn.String()
	m := models[name]
	if m == nil && fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		if noopPkgs[p] {
			m = func(in *Interp, fn *ssa.Function, args []Value) Value { return in.zeroResult(fn) }
		}
		if p == "sync/atomic" || p == "internal/runtime/atomic" {
			m = atomicModel(fn)
		}
	}
	if m == nil {
		if o := fn.Origin(); o != nil && o != fn {
			m = models[o.String()]
			if m == nil && o.Pkg != nil && o.Pkg.Pkg.Path() == "sync/atomic" {
				m = atomicModel(fn)
			}
		}
	}
	if m == nil && (fn.Name() == "_cgoCheckPointer" || fn.Name() == "_cgoCheckResult") {
		m = func(in *Interp, fn *ssa.Function, args []Value) Value { return in.zeroResult(fn) }
	}
	if m == nil {
		m = cgoModel(w, fn)
	}
	w.models[fn] = m
	if m != nil && pureModels[name] {
		w.pureModel[fn] = true
	}
	return m
}

func (w *Worker) skipInit(p *ssa.Package) bool {
	path := p.Pkg.Path()
	switch path {
	case "os", "runtime", "syscall", "reflect", "time", "log", "testing", "net", "sync", "sync/atomic", "unsafe", "fmt", "encoding/json", "encoding/gob", "math/rand", "os/exec", "compress/gzip", "compress/flate", "runtime/debug", "runtime/cgo", "C":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "crypto") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "net/")
}

func (w *Worker) globalOverride(in *Interp, g *ssa.Global) (Value, bool) {
	switch g.String() {
	case "os.Stdout", "os.Stderr", "os.Stdin":
		return Ptr{a: &Agg{e: []Value{in.zero(g.Type().(*types.Pointer).Elem().(*types.Pointer).Elem())}}}, true
	case "os.ErrNotExist", "os.ErrExist", "os.ErrInvalid", "os.ErrPermission", "os.ErrClosed":
		return in.mkError(g.Name()), true
	}
	return nil, false
}

// rtError builds a runtime.Error carrying msg.
func (w *Worker) rtError(in *Interp, msg string) Value {
	p := w.P.pkgs["runtime"]
	t := p.Type("plainError").Type()
	return Iface{t: t, v: Str{s: msg}}
}

func (in *Interp) mkError(msg string) Value { return in.mkErrorS(Str{s: msg}) }
func (in *Interp) mkErrorS(msg Str) Value {
	p := in.w.P.pkgs["errors"]
	t := p.Type("errorString").Type()
	return Iface{t: types.NewPointer(t), v: Ptr{a: &Agg{e: []Value{&Agg{e: []Value{msg}}}}}}
}

func T(v Value) *Term { return v.(*Term) }

func (in *Interp) cstr(v Value) string {
	s := v.(Str)
	if s.b == nil {
		return s.s
	}
	// concretize byte by byte
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(in.concretize(t))
	}
	return string(b)
}
func (in *Interp) cint(v Value) int { return int(in.concInt(v.(*Term))) }
func (in *Interp) Intv(i int) *Term { return in.tb.Int(int64(i)) }
func (in *Interp) nilErr() Value    { return Iface{} }
func sBytes(s Slice) (r []*Term) {
	for i := 0; i < s.len; i++ {
		r = append(r, s.a.e[s.off+i].(*Term))
	}
	return
}
func (in *Interp) mkBytes(b []byte) Slice {
	a := &Agg{e: make([]Value, len(b))}
	for i, x := range b {
		a.e[i] = in.tb.BV(uint64(x), 8)
	}
	return Slice{a: a, len: len(b), cap: len(b)}
}
func (in *Interp) byteStr(v Value) Str {
	switch x := v.(type) {
	case Str:
		return x
	case Slice:
		if x.len == 0 {
			return Str{}
		}
		return mkStr(sBytes(x))
	}
	panic(unsupported("byteStr"))
}

func (in *Interp) newVar(kind string, name string, s Sort) *Term {
	t := in.tb.Var(fmt.Sprintf("n%d_%s", in.nvar, name), s)
	in.nvar++
	if in.nvar > 5000 {
		panic(unsupported("too many symbolic inputs"))
	}
	return t
}

func (in *Interp) input(name, kind string, t *Term) {
	in.inputs = append(in.inputs, InputRec{Name: name, Kind: kind, t: t})
}

// intRange creates an int in [lo,hi], narrow where possible.
func (in *Interp) intRange(name string, lo, hi int64, w int) *Term {
	tb := in.tb
	if lo > hi {
		panic(pathEnd{"assume", "empty range"})
	}
	if lo == hi {
		t := tb.BV(uint64(lo), w)
		in.input(name, "int", t)
		return t
	}
	n := needW(lo, hi)
	// terms keep what was derived from their bounds: another range is another variable
	v := in.newVar("int", fmt.Sprintf("%s_%d_%d", name, lo, hi), Sort(n))
	if !v.hasB || v.lo != lo || v.hi != hi {
		v.lo, v.hi, v.hasB = lo, hi, true
	}
	full := lo == minS(n) && hi == maxS(n)
	t := tb.SExt(v, w)
	in.input(name, "int", t)
	if !full {
		// the range is an assumption of the solver as well
		r := tb.mk(OAnd, SBool, 0, tb.mk(OBvSLe, SBool, 0, tb.BV(uint64(lo), n), v, nil, ""), tb.mk(OBvSLe, SBool, 0, v, tb.BV(uint64(hi), n), nil, ""), nil, "")
		if _, ok := in.model.v[v.name]; !ok {
			// any value in range serves the current model
			in.model.v[v.name] = uint64(lo) & mask(n)
		}
		in.pc = append(in.pc, r)
		if !in.inPrefix() {
			if x, ok := in.eval(r); ok && x == 0 {
				res, m := in.check(nil)
				if res != Sat {
					panic(pathEnd{"solver", "range"})
				}
				in.setModel(m)
			}
		}
	}
	return t
}

func reg(name string, f modelFn)     { models[name] = f }
func regPure(name string, f modelFn) { models[name] = f; pureModels[name] = true }

func init() {
	vk := func(n string, f modelFn) { reg(vkPath+"."+n, f) }
	vkp := func(n string, f modelFn) { regPure(vkPath+"."+n, f) }
	vk("U8", func(in *Interp, _ *ssa.Function, a []Value) Value {
		n := in.cstr(a[0])
		t := in.newVar("u8", n, 8)
		in.input(n, "u8", t)
		return t
	})
	vk("U64", func(in *Interp, _ *ssa.Function, a []Value) Value {
		n := in.cstr(a[0])
		t := in.newVar("u64", n, 64)
		in.input(n, "u64", t)
		return t
	})
	vk("I64", func(in *Interp, _ *ssa.Function, a []Value) Value {
		n := in.cstr(a[0])
		t := in.newVar("i64", n, 64)
		in.input(n, "i64", t)
		return t
	})
	vk("F64", func(in *Interp, _ *ssa.Function, a []Value) Value {
		n := in.cstr(a[0])
		t := in.newVar("f64", n, 64)
		in.input(n, "u64", t)
		return in.tb.FBits(t)
	})
	vk("Bool", func(in *Interp, _ *ssa.Function, a []Value) Value {
		n := in.cstr(a[0])
		t := in.newVar("bool", n, SBool)
		in.input(n, "bool", t)
		return t
	})
	vk("Int", func(in *Interp, _ *ssa.Function, a []Value) Value {
		return in.intRange(in.cstr(a[0]), in.concInt(T(a[1])), in.concInt(T(a[2])), 64)
	})
	vk("FInt", func(in *Interp, _ *ssa.Function, a []Value) Value {
		t := in.intRange(in.cstr(a[0]), in.concInt(T(a[1])), in.concInt(T(a[2])), 64)
		return in.tb.FFromInt(t, true, SF64)
	})
	vk("FDyadic", func(in *Interp, _ *ssa.Function, a []Value) Value {
		t := in.intRange(in.cstr(a[0]), in.concInt(T(a[1])), in.concInt(T(a[2])), 64)
		f := in.tb.FFromInt(t, true, SF64)
		return in.tb.FBin(OFDiv, f, in.tb.F64(math.Ldexp(1, in.cint(a[3]))))
	})
	vk("Choose", func(in *Interp, _ *ssa.Function, a []Value) Value {
		k := in.choose(in.cint(a[1]))
		t := in.tb.Int(int64(k))
		in.input(in.cstr(a[0]), "choice", t)
		return t
	})
	vk("Str", func(in *Interp, _ *ssa.Function, a []Value) Value {
		n := in.cstr(a[0])
		k := in.cint(a[1])
		b := make([]*Term, k)
		for i := range b {
			b[i] = in.newVar("u8", n, 8)
			in.input(fmt.Sprintf("%s[%d]", n, i), "u8", b[i])
		}
		if k == 0 {
			return Str{}
		}
		return Str{b: b}
	})
	vk("Assume", func(in *Interp, _ *ssa.Function, a []Value) Value { in.assume(T(a[0])); return nil })
	vk("Assert", func(in *Interp, _ *ssa.Function, a []Value) Value {
		in.assert(T(a[0]), in.cstr(a[1]))
		return nil
	})
	vk("Cover", func(in *Interp, _ *ssa.Function, a []Value) Value {
		in.covers[in.cstr(a[0])] = true
		return nil
	})
	vk("Possible", func(in *Interp, _ *ssa.Function, a []Value) Value {
		in.possible(T(a[0]), in.cstr(a[1]))
		return nil
	})
	vk("Opt", func(in *Interp, _ *ssa.Function, a []Value) Value {
		in.normBase = in.randN
		n, v := in.cstr(a[0]), in.cint(a[1])
		in.opts[n] = v
		switch n {
		case "fp":
			in.w.solver.ufLevel = v
			in.ev.uf = v
		case "steps":
			in.maxSteps = v
		}
		return nil
	})
	vk("Thorough", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.Bool(in.w.x.tier > 0) })
	vk("Symbolic", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.tru })
	vk("Log", func(in *Interp, _ *ssa.Function, a []Value) Value {
		if debugOn {
			s := a[0].(Slice)
			for i := 0; i < s.len; i++ {
				fmt.Print("  LOG ", in.show(s.a.e[s.off+i]), " ")
			}
			fmt.Println()
		}
		return nil
	})
	vk("Conc", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.Int(in.concInt(T(a[0]))) })
	vk("TempPath", func(in *Interp, _ *ssa.Function, a []Value) Value { return Str{s: "/vk/" + in.cstr(a[0])} })
	vkp("And", func(in *Interp, _ *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		r := in.tb.tru
		for i := 0; i < s.len; i++ {
			r = in.tb.And(r, T(s.a.e[s.off+i]))
		}
		return r
	})
	vkp("Or", func(in *Interp, _ *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		r := in.tb.fls
		for i := 0; i < s.len; i++ {
			r = in.tb.Or(r, T(s.a.e[s.off+i]))
		}
		return r
	})
	vkp("Not", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.Not(T(a[0])) })
	vkp("Implies", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.Or(in.tb.Not(T(a[0])), T(a[1])) })
	vkp("Iff", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.Eq(T(a[0]), T(a[1])) })
	vkp("IteInt", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.Ite(T(a[0]), T(a[1]), T(a[2])) })
	vkp("IteF", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.Ite(T(a[0]), T(a[1]), T(a[2])) })
	vkp("SameBits", func(in *Interp, _ *ssa.Function, a []Value) Value {
		return in.tb.Eq(in.tb.FToBits(T(a[0])), in.tb.FToBits(T(a[1])))
	})
	vkp("SameF", func(in *Interp, _ *ssa.Function, a []Value) Value { // equal, or both NaN
		x, y := T(a[0]), T(a[1])
		if x == y {
			return in.tb.tru
		}
		return in.tb.Or(in.tb.FEq(x, y), in.tb.And(in.tb.FIsNaN(x), in.tb.FIsNaN(y)))
	})
	vkp("StrEq", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.strEq(a[0].(Str), a[1].(Str)) })
	vkp("BytesEq", func(in *Interp, _ *ssa.Function, a []Value) Value {
		return in.strEq(in.byteStr(a[0]), in.byteStr(a[1]))
	})
	vkp("B2I", func(in *Interp, _ *ssa.Function, a []Value) Value {
		return in.tb.Ite(T(a[0]), in.tb.Int(1), in.tb.Int(0))
	})

	// ---- math
	f1 := func(name string, g func(float64) float64) {
		ufReal["math."+name] = func(x, _ float64) float64 { return g(x) }
		regPure("math."+name, func(in *Interp, _ *ssa.Function, a []Value) Value {
			t := T(a[0])
			if t.isConst() {
				return in.tb.F64(g(t.fval()))
			}
			return in.tb.UF("math."+name, SF64, t, nil)
		})
	}
	for n, g := range map[string]func(float64) float64{"Exp": math.Exp, "Exp2": math.Exp2, "Expm1": math.Expm1, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Log1p": math.Log1p, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Tanh": math.Tanh, "Atan": math.Atan, "Cbrt": math.Cbrt, "Gamma": math.Gamma} {
		f1(n, g)
		if n == "Log" || n == "Log2" || n == "Exp" {
			f1x := n
			gg := g
			regPure("math."+strings.ToLower(n), func(in *Interp, _ *ssa.Function, a []Value) Value {
				t := T(a[0])
				if t.isConst() {
					return in.tb.F64(gg(t.fval()))
				}
				return in.tb.UF("math."+f1x, SF64, t, nil)
			})
		}
	}
	regPure("math.Abs", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.FAbs(T(a[0])) })
	regPure("math.Sqrt", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.FSqrt(T(a[0])) })
	regPure("math.sqrt", models["math.Sqrt"])
	for i, n := range []string{"Floor", "Ceil", "Trunc", "RoundToEven", "Round"} {
		k := uint64(i)
		f := func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.FRound(T(a[0]), k) }
		regPure("math."+n, f)
		regPure("math."+strings.ToLower(n), f)
	}
	regPure("math.Float64bits", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.FToBits(T(a[0])) })
	regPure("math.Float32bits", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.FToBits(T(a[0])) })
	regPure("math.Float64frombits", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.FBits(T(a[0])) })
	regPure("math.Float32frombits", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.FBits(T(a[0])) })
	regPure("math.IsNaN", func(in *Interp, _ *ssa.Function, a []Value) Value { return in.tb.FIsNaN(T(a[0])) })
	regPure("math.IsInf", func(in *Interp, _ *ssa.Function, a []Value) Value {
		f, s := T(a[0]), T(a[1])
		p := in.tb.FEq(f, in.tb.F64(math.Inf(1)))
		n := in.tb.FEq(f, in.tb.F64(math.Inf(-1)))
		zero := in.tb.Int(0)
		return in.tb.Or(in.tb.And(in.tb.SLe(zero, s), p), in.tb.And(in.tb.SLe(s, zero), n))
	})
	regPure("math.Inf", func(in *Interp, _ *ssa.Function, a []Value) Value {
		return in.tb.Ite(in.tb.SLe(in.tb.Int(0), T(a[0])), in.tb.F64(math.Inf(1)), in.tb.F64(math.Inf(-1)))
	})
	mm := func(max bool) modelFn {
		return func(in *Interp, _ *ssa.Function, a []Value) Value {
			tb := in.tb
			x, y := T(a[0]), T(a[1])
			if x.isConst() && y.isConst() {
				if max {
					return tb.F64(math.Max(x.fval(), y.fval()))
				}
				return tb.F64(math.Min(x.fval(), y.fval()))
			}
			inf := tb.F64(math.Inf(1))
			lt := tb.FCmp(OFLt, x, y)
			r := tb.Ite(lt, y, x)
			if !max {
				inf = tb.F64(math.Inf(-1))
				r = tb.Ite(lt, x, y)
			}
			_, _, xi := tb.asFI(x)
			_, _, yi := tb.asFI(y)
			if xi && yi {
				return r
			}
			nan := tb.Or(tb.FIsNaN(x), tb.FIsNaN(y))
			isInf := tb.Or(tb.FEq(x, inf), tb.FEq(y, inf))
			// both zero: sign bit by or/and
			bz := tb.And(tb.FEq(x, tb.F64(0)), tb.FEq(y, tb.F64(0)))
			if bz != tb.fls {
				op := OBvAnd
				if !max {
					op = OBvOr
				}
				r = tb.Ite(bz, tb.FBits(tb.bvbin(op, tb.FToBits(x), tb.FToBits(y))), r)
			}
			return tb.Ite(isInf, inf, tb.Ite(nan, tb.F64b(0x7FF8000000000001), r))
		}
	}
	regPure("encoding/binary.Size", func(in *Interp, _ *ssa.Function, a []Value) Value {
		var size func(t types.Type) int64
		size = func(t types.Type) int64 {
			switch u := t.Underlying().(type) {
			case *types.Basic:
				if n := types.SizesFor("gc", "amd64").Sizeof(u); u.Info()&types.IsNumeric != 0 && u.Kind() != types.Int && u.Kind() != types.Uint && u.Kind() != types.Uintptr || u.Kind() == types.Bool {
					return n
				}
			case *types.Array:
				if e := size(u.Elem()); e >= 0 {
					return e * u.Len()
				}
			case *types.Struct:
				n := int64(0)
				for i := 0; i < u.NumFields(); i++ {
					e := size(u.Field(i).Type())
					if e < 0 {
						return -1
					}
					n += e
				}
				return n
			}
			return -1
		}
		if v, ok := a[0].(Iface); ok && v.t != nil {
			if _, sl := v.t.Underlying().(*types.Slice); !sl {
				return in.tb.Int(size(v.t))
			}
		}
		panic(unsupported("binary.Size of a slice"))
	})
	regPure("math.Max", mm(true))
	regPure("math.Min", mm(false))
	regPure("math.Pow", func(in *Interp, _ *ssa.Function, a []Value) Value {
		tb := in.tb
		x, y := T(a[0]), T(a[1])
		if x.isConst() && y.isConst() {
			return tb.F64(math.Pow(x.fval(), y.fval()))
		}
		if y.isConst() {
			switch y.fval() {
			case 0:
				return tb.F64(1)
			case 1:
				return x
			case 2, 3, 4:
				if _, _, ok := tb.asFI(x); ok {
					r := x
					for k := 1; k < int(y.fval()); k++ {
						r = tb.FBin(OFMul, r, x)
					}
					if _, _, ok := tb.asFI(r); ok {
						return r
					}
				}
			}
		}
		return tb.UF("math.Pow", SF64, x, y)
	})
	regPure("math.Mod", func(in *Interp, _ *ssa.Function, a []Value) Value {
		x, y := T(a[0]), T(a[1])
		if x.isConst() && y.isConst() {
			return in.tb.F64(math.Mod(x.fval(), y.fval()))
		}
		return in.tb.UF("math.Mod", SF64, x, y)
	})
	regPure("math.Hypot", func(in *Interp, _ *ssa.Function, a []Value) Value {
		x, y := T(a[0]), T(a[1])
		if x.isConst() && y.isConst() {
			return in.tb.F64(math.Hypot(x.fval(), y.fval()))
		}
		return in.tb.UF("math.Hypot", SF64, x, y)
	})
	regPure("math.hypot", models["math.Hypot"])
	regPure("math.Signbit", func(in *Interp, _ *ssa.Function, a []Value) Value {
		t := T(a[0])
		if m, _, ok := in.tb.asFI(t); ok {
			return in.tb.SLt(m, in.tb.BV(0, int(m.sort)))
		}
		return in.tb.Eq(in.tb.Extract(in.tb.FToBits(t), 63, 63), in.tb.BV(1, 1))
	})
	regPure("math.FMA", func(in *Interp, _ *ssa.Function, a []Value) Value {
		x, y, z := T(a[0]), T(a[1]), T(a[2])
		if x.isConst() && y.isConst() && z.isConst() {
			return in.tb.F64(math.FMA(x.fval(), y.fval(), z.fval()))
		}
		return in.tb.FBin(OFAdd, in.tb.FBin(OFMul, x, y), z)
	})

	// ---- internal/bytealg and friends
	idxByte := func(in *Interp, _ *ssa.Function, a []Value) Value {
		s := in.byteStr(a[0])
		c := T(a[1])
		n := s.length()
		if cs, ok := s.concrete(); ok && c.isConst() {
			return in.Intv(strings.IndexByte(cs, byte(c.val)))
		}
		for i := 0; i < n; i++ {
			if in.branch(in.tb.Eq(in.strByte(s, i), c)) {
				return in.Intv(i)
			}
		}
		return in.Intv(-1)
	}
	lastIdxByte := func(in *Interp, _ *ssa.Function, a []Value) Value {
		s := in.byteStr(a[0])
		c := T(a[1])
		for i := s.length() - 1; i >= 0; i-- {
			if in.branch(in.tb.Eq(in.strByte(s, i), c)) {
				return in.Intv(i)
			}
		}
		return in.Intv(-1)
	}
	count := func(in *Interp, _ *ssa.Function, a []Value) Value {
		s := in.byteStr(a[0])
		c := T(a[1])
		r := in.Intv(0)
		for i := 0; i < s.length(); i++ {
			r = in.tb.bvbin(OBvAdd, r, in.tb.Ite(in.tb.Eq(in.strByte(s, i), c), in.Intv(1), in.Intv(0)))
		}
		return r
	}
	index := func(in *Interp, _ *ssa.Function, a []Value) Value {
		s, p := in.byteStr(a[0]), in.byteStr(a[1])
		n, m := s.length(), p.length()
		for i := 0; i+m <= n; i++ {
			if in.branch(in.strEq(subStr(s, i, i+m), p)) {
				return in.Intv(i)
			}
		}
		return in.Intv(-1)
	}
	lastIndex := func(in *Interp, _ *ssa.Function, a []Value) Value {
		s, p := in.byteStr(a[0]), in.byteStr(a[1])
		n, m := s.length(), p.length()
		for i := n - m; i >= 0; i-- {
			if in.branch(in.strEq(subStr(s, i, i+m), p)) {
				return in.Intv(i)
			}
		}
		return in.Intv(-1)
	}
	equal := func(in *Interp, _ *ssa.Function, a []Value) Value {
		return in.strEq(in.byteStr(a[0]), in.byteStr(a[1]))
	}
	compare := func(in *Interp, _ *ssa.Function, a []Value) Value {
		x, y := in.byteStr(a[0]), in.byteStr(a[1])
		return in.tb.Ite(in.strEq(x, y), in.Intv(0), in.tb.Ite(in.strLt(x, y), in.Intv(-1), in.Intv(1)))
	}
	for _, p := range []string{"internal/bytealg", "strings", "bytes", "internal/stringslite"} {
		reg(p+".IndexByte", idxByte)
		reg(p+".IndexByteString", idxByte)
		reg(p+".LastIndexByte", lastIdxByte)
		reg(p+".LastIndexByteString", lastIdxByte)
		reg(p+".Index", index)
		reg(p+".IndexString", index)
		reg(p+".LastIndex", lastIndex)
		reg(p+".Equal", equal)
		reg(p+".Compare", compare)
		reg(p+".CompareString", compare)
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	reg("internal/bytealg.MakeNoZero", func(in *Interp, _ *ssa.Function, a []Value) Value {
		return in.makeSlice(types.Typ[types.Uint8], in.cint(a[0]), in.cint(a[0]))
	})
	reg("cmp.Compare", nil)
	delete(models, "cmp.Compare")
	reg("internal/abi.NoEscape", func(in *Interp, _ *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(in *Interp, _ *ssa.Function, a []Value) Value { return a[0] })
	reg("(*strings.Builder).copyCheck", func(in *Interp, _ *ssa.Function, a []Value) Value { return nil })
	reg("strings.Clone", func(in *Interp, _ *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(in *Interp, _ *ssa.Function, a []Value) Value { return a[0] })

	// ---- strconv with concrete arguments
	conc := func(a []Value) bool {
		for _, v := range a {
			switch x := v.(type) {
			case *Term:
				if !x.isConst() {
					return false
				}
			case Str:
				if x.b != nil {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	numErr := func(in *Interp, err error) Value {
		if err == nil {
			return Iface{}
		}
		return in.mkError(err.Error())
	}
	reg("strconv.ParseFloat", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := a[0].(Str)
		if s.b == nil {
			if t, ok := in.tokens[s.s]; ok {
				if ft, ok := t.(*Term); ok {
					return Tuple{narrow(in, ft, a[1]), Iface{}}
				}
			}
			f, err := strconv.ParseFloat(s.s, in.cint(a[1]))
			return Tuple{in.tb.F64(f), numErr(in, err)}
		}
		r := in.parseFloatSym(s)
		if t, ok := r.(Tuple); ok {
			if ft, ok := t[0].(*Term); ok {
				t[0] = narrow(in, ft, a[1])
			}
		}
		return r
	})
	reg("strconv.FormatFloat", func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := T(a[0])
		if f.isConst() {
			return Str{s: strconv.FormatFloat(f.fval(), byte(in.concretize(T(a[1]))), in.cint(a[2]), in.cint(a[3]))}
		}
		// opaque text of a symbolic number: ParseFloat inverts it
		if v := T(a[1]); v.isConst() && v.val == 'f' {
			if p := in.cint(a[2]); p >= 0 {
				return in.floatTokenP(f, p)
			}
		}
		in.tokSeq++
		k := fmt.Sprintf("7.%d00000000%d", in.tokSeq, in.tokSeq)
		in.tokens[k] = f
		return Str{s: k}
	})
	native := func(name string, f func(in *Interp, a []Value) Value) {
		reg(name, func(in *Interp, fn *ssa.Function, a []Value) Value {
			if conc(a) {
				return f(in, a)
			}
			c := in.w.compile(fn)
			if c == nil {
				panic(unsupported(name + " on symbolic arguments"))
			}
			return in.interpret(fn, a)
		})
	}
	native("strconv.Itoa", func(in *Interp, a []Value) Value { return Str{s: strconv.Itoa(in.cint(a[0]))} })
	native("strconv.FormatInt", func(in *Interp, a []Value) Value {
		return Str{s: strconv.FormatInt(in.concInt(T(a[0])), in.cint(a[1]))}
	})
	native("strconv.FormatUint", func(in *Interp, a []Value) Value {
		return Str{s: strconv.FormatUint(in.concretize(T(a[0])), in.cint(a[1]))}
	})
	native("strconv.Quote", func(in *Interp, a []Value) Value { return Str{s: strconv.Quote(in.cstr(a[0]))} })
	native("strconv.ParseInt", func(in *Interp, a []Value) Value {
		v, err := strconv.ParseInt(in.cstr(a[0]), in.cint(a[1]), in.cint(a[2]))
		return Tuple{in.tb.Int(v), numErr(in, err)}
	})
	native("strconv.ParseUint", func(in *Interp, a []Value) Value {
		v, err := strconv.ParseUint(in.cstr(a[0]), in.cint(a[1]), in.cint(a[2]))
		return Tuple{in.tb.BV(v, 64), numErr(in, err)}
	})
	native("strconv.Atoi", func(in *Interp, a []Value) Value {
		v, err := strconv.Atoi(in.cstr(a[0]))
		return Tuple{in.tb.Int(int64(v)), numErr(in, err)}
	})

	// ---- runtime, os, time, sync
	zero := func(in *Interp, fn *ssa.Function, a []Value) Value { return in.zeroResult(fn) }
	for _, n := range []string{"runtime.GC", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.Callers", "runtime.Stack", "time.Now", "time.Since", "time.Sleep", "os.Getenv", "(*os.File).Sync", "(*os.File).Name",
		"runtime.GOMAXPROCS", "(*sync.noCopy).Lock", "(*sync.noCopy).Unlock", "internal/race.Enable", "internal/race.Disable", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"fmt.Println", "fmt.Printf", "fmt.Print", "math/rand.Seed", "(time.Time).UnixNano", "(time.Time).Unix", "(time.Time).String", "os.Exit", "(*log.Logger).Output", "internal/testlog.Getenv"} {
		reg(n, zero)
	}
	reg("os.Exit", func(in *Interp, fn *ssa.Function, a []Value) Value { panic(pathEnd{"unsupported", "os.Exit"}) })
	reg("runtime.NumCPU", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.Intv(in.optDef("ncpu", 2)) })
	reg("runtime.NumGoroutine", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.Intv(len(in.gs)) })
	reg("runtime.Gosched", func(in *Interp, fn *ssa.Function, a []Value) Value { in.yield(); return nil })
	reg("os.Getpagesize", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.Intv(4096) })
	reg("os.TempDir", func(in *Interp, fn *ssa.Function, a []Value) Value { return Str{s: "/tmp"} })

	type mutex struct {
		locked  bool
		readers int
	}
	mu := func(in *Interp, v Value) *mutex {
		p := v.(Ptr)
		in.nilCheck(p)
		k := p.a.e[p.i].(*Agg)
		m, ok := in.side[k].(*mutex)
		if !ok {
			m = &mutex{}
			in.side[k] = m
		}
		return m
	}
	lock := func(in *Interp, fn *ssa.Function, a []Value) Value {
		m := mu(in, a[0])
		if in.optDef("sched", 0) > 1 && len(in.gs) > 1 && in.preempts < in.optDef("preempt", 1<<30) && in.choose(2) == 1 {
			in.preempts++
			in.yield()
		}
		in.block(func() bool { return !m.locked && m.readers == 0 })
		m.locked = true
		in.raceAcq(m)
		return nil
	}
	unlock := func(in *Interp, fn *ssa.Function, a []Value) Value {
		m := mu(in, a[0])
		if !m.locked {
			panic(in.rtPanic("fatal error: sync: unlock of unlocked mutex"))
		}
		m.locked = false
		in.raceRel(m)
		return nil
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", func(in *Interp, fn *ssa.Function, a []Value) Value {
		m := mu(in, a[0])
		if m.locked {
			return in.tb.fls
		}
		m.locked = true
		in.raceAcq(m)
		return in.tb.tru
	})
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", func(in *Interp, fn *ssa.Function, a []Value) Value {
		m := mu(in, a[0])
		in.block(func() bool { return !m.locked })
		m.readers++
		in.raceAcq(m)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(in *Interp, fn *ssa.Function, a []Value) Value {
		m := mu(in, a[0])
		m.readers--
		in.raceRel(m)
		return nil
	})
	type wg struct{ n int64 }
	wgo := func(in *Interp, v Value) *wg {
		p := v.(Ptr)
		in.nilCheck(p)
		k := p.a.e[p.i].(*Agg)
		m, ok := in.side[k].(*wg)
		if !ok {
			m = &wg{}
			in.side[k] = m
		}
		return m
	}
	wgAdd := func(in *Interp, v Value, n int64) {
		w := wgo(in, v)
		w.n += n
		in.raceRel(w)
		if w.n < 0 {
			panic(in.rtPanic("sync: negative WaitGroup counter"))
		}
	}
	reg("(*sync.WaitGroup).Add", func(in *Interp, fn *ssa.Function, a []Value) Value { wgAdd(in, a[0], in.concInt(T(a[1]))); return nil })
	reg("(*sync.WaitGroup).Done", func(in *Interp, fn *ssa.Function, a []Value) Value { wgAdd(in, a[0], -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(in *Interp, fn *ssa.Function, a []Value) Value {
		w := wgo(in, a[0])
		in.block(func() bool { return w.n == 0 })
		in.raceAcq(w)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(in *Interp, fn *ssa.Function, a []Value) Value {
		wgAdd(in, a[0], 1)
		f := a[1]
		wv := a[0]
		in.spawn(&Func{native: func(in *Interp, _ []Value) Value {
			in.callValue(f, nil)
			wgAdd(in, wv, -1)
			return nil
		}}, nil)
		return nil
	})
	reg("(*sync.Once).Do", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		k := p.a.e[p.i].(*Agg)
		if in.side[k] == nil {
			in.side[k] = true
			in.callValue(a[1], nil)
			in.raceRel(k)
		}
		in.raceAcq(k)
		return nil
	})
	reg("(*sync.Pool).Get", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		st := p.a.e[p.i].(*Agg)
		nf, _ := st.e[len(st.e)-1].(*Func)
		if nf == nil {
			return Iface{}
		}
		return in.callValue(nf, nil)
	})
	reg("(*sync.Pool).Put", zero)

	// ---- errors
	reg("errors.Is", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.equal(a[0], a[1]) })
	reg("errors.As", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.tb.fls })

	// ---- sort through reflection
	sortSlice := func(stable bool) modelFn {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			iv := a[0].(Iface)
			s := iv.v.(Slice)
			swap := &Func{native: func(in *Interp, b []Value) Value {
				i, j := in.cint(b[0]), in.cint(b[1])
				if i < 0 || j < 0 || i >= s.len || j >= s.len {
					panic(in.rtPanic("reflect: slice index out of range"))
				}
				x, y := copyVal(s.a.e[s.off+i]), copyVal(s.a.e[s.off+j])
				in.storeCell(s.a, s.off+i, y)
				in.storeCell(s.a, s.off+j, x)
				return nil
			}}
			ls := &Agg{e: []Value{a[1], swap}}
			if stable {
				in.callFn(in.w.fnByName("sort", "stable_func"), []Value{ls, in.Intv(s.len)}, nil)
				return nil
			}
			lim := 0
			for n := s.len; n > 0; n >>= 1 {
				lim++
			}
			in.callFn(in.w.fnByName("sort", "pdqsort_func"), []Value{ls, in.Intv(0), in.Intv(s.len), in.Intv(lim)}, nil)
			return nil
		}
	}
	reg("sort.Slice", sortSlice(false))
	reg("sort.SliceStable", sortSlice(true))
	reg("reflect.DeepEqual", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.deepEqual(a[0], a[1], map[[2]*Agg]bool{})
	})

	// ---- randomness: any value the contract allows
	intn := func(w int) modelFn {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			n := T(a[len(a)-1])
			if n.isConst() {
				k := sx(n.val, int(n.sort))
				if k <= 0 {
					panic(in.rtPanic("invalid argument to Intn"))
				}
				return in.randInt(k-1, w)
			}
			if in.branch(in.tb.SLe(n, in.tb.BV(0, int(n.sort)))) {
				panic(in.rtPanic("invalid argument to Intn"))
			}
			k := in.concInt(n)
			return in.randInt(k-1, w)
		}
	}
	for _, r := range []struct {
		n string
		w int
	}{{"Intn", 64}, {"Int63n", 64}, {"Int31n", 32}} {
		reg("math/rand."+r.n, intn(r.w))
		reg("(*math/rand.Rand)."+r.n, intn(r.w))
	}
	full := func(name string, hi int64, w int) {
		f := func(in *Interp, fn *ssa.Function, a []Value) Value { return in.randInt(hi, w) }
		reg("math/rand."+name, f)
		reg("(*math/rand.Rand)."+name, f)
	}
	full("Int", math.MaxInt64, 64)
	full("Int63", math.MaxInt64, 64)
	full("Int31", math.MaxInt32, 32)
	f64 := func(in *Interp, fn *ssa.Function, a []Value) Value {
		// a dyadic grid of [0,1)
		g := in.optDef("randgrid", 4)
		t := in.intRange(fmt.Sprintf("rand%d", in.randN), 0, 1<<uint(g)-1, 64)
		in.randN++
		in.inputs[len(in.inputs)-1].Kind = "randf"
		r := in.tb.FBin(OFDiv, in.tb.FFromInt(t, true, SF64), in.tb.F64(float64(int(1)<<uint(g))))
		in.inputs[len(in.inputs)-1].t = in.tb.FToBits(r)
		return r
	}
	reg("math/rand.Float64", f64)
	reg("(*math/rand.Rand).Float64", f64)
	norm := func(in *Interp, fn *ssa.Function, a []Value) Value {
		// the option "norm" fixes the draws to a sequence of different numbers
		// that are tenfold binary fractions
		lo, hi := int64(-4), int64(4)
		if in.optDef("norm", 0) > 0 {
			k := in.randN - in.normBase
			lo = 5 * int64(k%7-3+k/7)
			if lo == 0 {
				lo = 20
			}
			hi = lo
		}
		t := in.intRange(fmt.Sprintf("rand%d", in.randN), lo, hi, 64)
		in.randN++
		in.inputs[len(in.inputs)-1].Kind = "randf"
		r := in.tb.FFromInt(t, true, SF64)
		in.inputs[len(in.inputs)-1].t = in.tb.FToBits(r)
		return r
	}
	reg("math/rand.NormFloat64", norm)
	reg("(*math/rand.Rand).NormFloat64", norm)
	perm := func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.cint(a[len(a)-1])
		s := in.makeSlice(types.Typ[types.Int], n, n)
		for i := 0; i < n; i++ {
			j := in.concInt(in.randInt(int64(i), 64).(*Term))
			s.a.e[i] = s.a.e[j]
			s.a.e[j] = in.Intv(i)
		}
		return s
	}
	reg("math/rand.Perm", perm)
	reg("(*math/rand.Rand).Perm", perm)
	shuffle := func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.cint(a[len(a)-2])
		for i := n - 1; i > 0; i-- {
			j := in.randInt(int64(i), 64).(*Term)
			in.callValue(a[len(a)-1], []Value{in.Intv(i), in.tb.Int(in.concInt(j))})
		}
		return nil
	}
	reg("math/rand.Shuffle", shuffle)
	reg("(*math/rand.Rand).Shuffle", shuffle)
	reg("math/rand.New", func(in *Interp, fn *ssa.Function, a []Value) Value {
		rt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		return Ptr{a: &Agg{e: []Value{in.zero(rt)}}}
	})
	reg("math/rand.NewSource", func(in *Interp, fn *ssa.Function, a []Value) Value { return Iface{} })
}

// randInt is an arbitrary value in [0,hi].
//
// Two options restrict the draws considered: "maxdraws" drops histories with
// more draws than that, "freshdraws" lets a value come again only after all
// others did (so that a loop which waits for a value ends). "somedraws" fixes
// all draws after that many to a scattered sequence.
func (in *Interp) randInt(hi int64, w int) Value {
	if m := in.optDef("maxdraws", 0); m > 0 && in.randN >= m {
		panic(pathEnd{"assume", "draws"})
	}
	if m := in.optDef("somedraws", 0); m > 0 && in.randN >= m {
		k := (int64(in.randN)*7919 + 13) % (hi + 1)
		t := in.intRange(fmt.Sprintf("rand%d", in.randN), k, k, w)
		in.randN++
		in.inputs[len(in.inputs)-1].Kind = "rand"
		return t
	}
	if in.optDef("freshdraws", 0) > 0 && hi > 0 && hi < 64 {
		if in.drawn == nil {
			in.drawn = map[int64][]*Term{}
		}
		t := in.intRange(fmt.Sprintf("rand%d", in.randN), 0, hi, w)
		in.randN++
		in.inputs[len(in.inputs)-1].Kind = "rand"
		if int64(len(in.drawn[hi])) > hi {
			in.drawn[hi] = nil
		}
		for _, o := range in.drawn[hi] {
			in.assume(in.tb.Not(in.tb.Eq(t, o)))
		}
		in.drawn[hi] = append(in.drawn[hi], t)
		return t
	}
	t := in.intRange(fmt.Sprintf("rand%d", in.randN), 0, hi, w)
	in.randN++
	in.inputs[len(in.inputs)-1].Kind = "rand"
	return t
}

// interpret runs the body of fn even when a model exists for it.
func (in *Interp) interpret(fn *ssa.Function, a []Value) Value {
	c := in.w.compile(fn)
	in.depth++
	in.curFn = append(in.curFn, fn)
	fr := &frame{in: in, f: c, r: make([]Value, c.nreg)}
	for i, p := range c.params {
		fr.r[p] = a[i]
	}
	res := fr.run()
	in.depth--
	in.curFn = in.curFn[:len(in.curFn)-1]
	return res
}

// parseFloatSym parses a string with symbolic bytes: short decimal numerals are
// handled exactly, anything that is not a plain digit string is an error or
// outside the encoding.
func (in *Interp) parseFloatSym(s Str) Value {
	// fork the bytes into digits/non-digits; concretize what is left
	cs := in.cstr(s)
	f, err := strconv.ParseFloat(cs, 64)
	if err != nil {
		return Tuple{in.tb.F64(f), in.mkError(err.Error())}
	}
	return Tuple{in.tb.F64(f), Iface{}}
}

func atomicModel(fn *ssa.Function) modelFn {
	f := atomicModel0(fn)
	if f == nil {
		return nil
	}
	return func(in *Interp, fn *ssa.Function, a []Value) Value {
		p, ok := a[0].(Ptr)
		if r := in.race; r != nil && ok {
			k := raceKey{p.a, -2 - p.i}
			in.raceAcq(k)
			in.raceRel(k)
			in.race = nil
			defer func() { in.race = r }()
		}
		return f(in, fn, a)
	}
}

func atomicModel0(fn *ssa.Function) modelFn {
	name := fn.Name()
	recv := fn.Signature.Recv()
	if recv != nil {
		return nil // methods are Go wrappers around the functions
	}
	switch {
	case strings.HasPrefix(name, "Add") || strings.HasPrefix(name, "Xadd"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			v := in.tb.bvbin(OBvAdd, in.load(p, fn.Signature.Results().At(0).Type()).(*Term), T(a[1]))
			in.store(p, v)
			return v
		}
	case strings.HasPrefix(name, "Load"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			return in.load(a[0].(Ptr), fn.Signature.Results().At(0).Type())
		}
	case strings.HasPrefix(name, "Store"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value { in.store(a[0].(Ptr), a[1]); return nil }
	case strings.HasPrefix(name, "Swap"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			v := in.load(p, fn.Signature.Results().At(0).Type())
			in.store(p, a[1])
			return v
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			v := in.load(p, fn.Signature.Params().At(1).Type())
			if in.branch(in.equal(v, a[1])) {
				in.store(p, a[2])
				return in.tb.tru
			}
			return in.tb.fls
		}
	}
	return nil
}

func (in *Interp) deepEqual(a, b Value, seen map[[2]*Agg]bool) *Term {
	tb := in.tb
	switch x := a.(type) {
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return tb.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tb.fls
		}
		return in.deepEqual(x.v, y.v, seen)
	case Slice:
		y := b.(Slice)
		if (x.a == nil) != (y.a == nil) || x.len != y.len {
			return tb.fls
		}
		r := tb.tru
		for i := 0; i < x.len; i++ {
			r = tb.And(r, in.deepEqual(x.a.e[x.off+i], y.a.e[y.off+i], seen))
		}
		return r
	case *Agg:
		y := b.(*Agg)
		r := tb.tru
		for i := range x.e {
			r = tb.And(r, in.deepEqual(x.e[i], y.e[i], seen))
		}
		return r
	case Ptr:
		y := b.(Ptr)
		if x.a == nil || y.a == nil {
			return tb.Bool(x.a == y.a)
		}
		if x == y || seen[[2]*Agg{x.a, y.a}] {
			return tb.tru
		}
		seen[[2]*Agg{x.a, y.a}] = true
		return in.deepEqual(x.a.e[x.i], y.a.e[y.i], seen)
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return tb.fls
		}
		if x == nil {
			return tb.tru
		}
		if x.n != y.n {
			return tb.fls
		}
		r := tb.tru
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := in.mapFind(y, e.k)
			if f == nil {
				return tb.fls
			}
			r = tb.And(r, in.deepEqual(e.v, f.v, seen))
		}
		return r
	case *Func:
		y := b.(*Func)
		return tb.Bool(x == nil && y == nil)
	}
	return in.equal(a, b)
}

// narrow rounds a parsed number to single precision if that was asked for.
func narrow(in *Interp, f *Term, bits Value) *Term {
	if in.cint(bits) != 32 {
		return f
	}
	return in.tb.FConv(in.tb.FConv(f, SF32), SF64)
}
