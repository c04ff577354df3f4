package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// reflect.Type values: one object per type, with the type beside it.

func (in *Interp) rtype(t types.Type) Value {
	w := in.w.P.pkgs["reflect"]
	rt := w.Type("rtype").Type()
	key := types.TypeString(t, nil)
	if in.rtypes == nil {
		in.rtypes = map[string]*Agg{}
	}
	a := in.rtypes[key]
	if a == nil {
		a = &Agg{e: []Value{in.zero(rt)}}
		in.rtypes[key] = a
		in.side[a] = t
	}
	return Iface{t: types.NewPointer(rt), v: Ptr{a: a}}
}

func (in *Interp) rtypeOf(v Value) types.Type {
	p := v.(Ptr)
	in.nilCheck(p)
	t, ok := in.side[p.a].(types.Type)
	if !ok {
		panic(unsupported("reflect.Type not made by TypeOf"))
	}
	return t
}

var basicKinds = map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8,
	types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}

func kindOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicKinds[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func init() {
	models["reflect.TypeOf"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return in.rtype(i.t)
	}
	models["(*reflect.rtype).Kind"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.tb.Int(kindOf(in.rtypeOf(a[0])))
	}
	short := func(p *types.Package) string { return p.Name() }
	models["(*reflect.rtype).String"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		return Str{s: types.TypeString(in.rtypeOf(a[0]), short)}
	}
	models["(*reflect.rtype).Name"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		switch t := in.rtypeOf(a[0]).(type) {
		case *types.Named:
			return Str{s: t.Obj().Name()}
		case *types.Basic:
			return Str{s: t.Name()}
		}
		return Str{}
	}
	models["(*reflect.rtype).Elem"] = func(in *Interp, fn *ssa.Function, a []Value) Value {
		if e, ok := in.rtypeOf(a[0]).Underlying().(interface{ Elem() types.Type }); ok {
			return in.rtype(e.Elem())
		}
		panic(unsupported("reflect.Type.Elem"))
	}
}
