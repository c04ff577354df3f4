package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// An in-memory file system stands for the environment.
type vfile struct {
	data []*Term
	dir  bool
	cut  bool // the end is missing
}
type vhandle struct {
	f      *vfile
	name   string
	pos    int
	closed bool
}

func (in *Interp) fs() map[string]*vfile {
	if in.files == nil {
		in.files = map[string]*vfile{}
	}
	return in.files
}

func (in *Interp) openFile(fn *ssa.Function, name string, flag int) Value {
	const (
		oCreate = 0x40
		oExcl   = 0x80
		oTrunc  = 0x200
		oAppend = 0x400
	)
	f := in.fs()[name]
	if f == nil {
		if flag&oCreate == 0 {
			return Tuple{Ptr{}, in.mkError("open " + name + ": no such file or directory")}
		}
		f = &vfile{}
		in.fs()[name] = f
	} else if flag&oTrunc != 0 {
		f.data = nil
	}
	h := &vhandle{f: f, name: name}
	if flag&oAppend != 0 {
		h.pos = len(f.data)
	}
	t := in.w.P.pkgs["os"].Type("File").Type()
	p := Ptr{a: &Agg{e: []Value{in.zero(t)}}}
	in.side[p.a] = h
	return Tuple{p, Iface{}}
}

func (in *Interp) handle(v Value) *vhandle {
	p := v.(Ptr)
	if p.a == nil {
		return nil
	}
	h, _ := in.side[p.a].(*vhandle)
	return h
}

func (in *Interp) eof() Value {
	p := in.w.P.pkgs["io"]
	return in.globalCell(p.Var("EOF")).e[0]
}

func fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported("field " + name))
}

// diskErr counts a write to a file and tells whether it fails.
func (in *Interp) diskErr() bool {
	in.diskOps++
	return in.diskFull && in.diskOps > in.diskRoom
}

type gzw struct {
	w      Iface
	opened bool
	buf    []*Term
	err    Iface
}
type gzr struct{ r Iface }

func init() {
	reg("os.OpenFile", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.openFile(fn, in.cstr(a[0]), in.cint(a[1]))
	})
	reg("os.Open", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.openFile(fn, in.cstr(a[0]), 0) })
	reg("os.Create", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.openFile(fn, in.cstr(a[0]), 0x240)
	})
	tmp := func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.tokSeq++
		return in.openFile(fn, fmt.Sprintf("/tmp/%s%d", in.cstr(a[1]), in.tokSeq), 0x40)
	}
	reg("os.CreateTemp", tmp)
	reg("io/ioutil.TempFile", tmp)
	reg("os.Remove", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.cstr(a[0])
		if in.fs()[n] == nil {
			return in.mkError("remove " + n + ": no such file or directory")
		}
		delete(in.fs(), n)
		return Iface{}
	})
	readFile := func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.cstr(a[0])
		f := in.fs()[n]
		if f == nil {
			return Tuple{Slice{}, in.mkError("open " + n + ": no such file or directory")}
		}
		return Tuple{in.strToBytes(mkStr(append([]*Term{}, f.data...))), Iface{}}
	}
	reg("os.ReadFile", readFile)
	reg("io/ioutil.ReadFile", readFile)
	writeFile := func(in *Interp, fn *ssa.Function, a []Value) Value {
		if in.diskErr() {
			return in.mkError("write " + in.cstr(a[0]) + ": no space left on device")
		}
		in.fs()[in.cstr(a[0])] = &vfile{data: append([]*Term{}, in.strBytes(in.byteStr(a[1]))...)}
		return Iface{}
	}
	reg("os.WriteFile", writeFile)
	reg("io/ioutil.WriteFile", writeFile)
	reg("(*os.File).Write", func(in *Interp, fn *ssa.Function, a []Value) Value {
		h := in.handle(a[0])
		b := in.strBytes(in.byteStr(a[1]))
		if h == nil { // standard streams
			if p := a[0].(Ptr); p.a == nil {
				return Tuple{in.Intv(0), in.mkError("invalid argument")}
			}
			return Tuple{in.Intv(len(b)), Iface{}}
		}
		if h.closed {
			return Tuple{in.Intv(0), in.mkError("write " + h.name + ": file already closed")}
		}
		if in.diskErr() {
			return Tuple{in.Intv(0), in.mkError("write " + h.name + ": no space left on device")}
		}
		for _, t := range b {
			if h.pos < len(h.f.data) {
				h.f.data[h.pos] = t
			} else {
				h.f.data = append(h.f.data, t)
			}
			h.pos++
		}
		return Tuple{in.Intv(len(b)), Iface{}}
	})
	reg("(*os.File).WriteAt", func(in *Interp, fn *ssa.Function, a []Value) Value {
		h := in.handle(a[0])
		b := in.strBytes(in.byteStr(a[1]))
		if h == nil || h.closed {
			return Tuple{in.Intv(0), in.mkError("write: file already closed")}
		}
		if in.diskErr() {
			return Tuple{in.Intv(0), in.mkError("write " + h.name + ": no space left on device")}
		}
		off := in.cint(a[2])
		for len(h.f.data) < off+len(b) {
			h.f.data = append(h.f.data, in.tb.BV(0, 8))
		}
		copy(h.f.data[off:], b)
		return Tuple{in.Intv(len(b)), Iface{}}
	})
	reg("(*os.File).WriteString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return models["(*os.File).Write"](in, fn, []Value{a[0], in.strToBytes(a[1].(Str))})
	})
	reg("(*os.File).Read", func(in *Interp, fn *ssa.Function, a []Value) Value {
		h := in.handle(a[0])
		if h == nil || h.closed {
			return Tuple{in.Intv(0), in.mkError("read: file already closed")}
		}
		s := a[1].(Slice)
		n := min(s.len, len(h.f.data)-h.pos)
		if n <= 0 {
			if s.len == 0 {
				return Tuple{in.Intv(0), Iface{}}
			}
			return Tuple{in.Intv(0), in.eof()}
		}
		for i := 0; i < n; i++ {
			s.a.e[s.off+i] = h.f.data[h.pos+i]
		}
		h.pos += n
		return Tuple{in.Intv(n), Iface{}}
	})
	reg("(*os.File).Seek", func(in *Interp, fn *ssa.Function, a []Value) Value {
		h := in.handle(a[0])
		if h == nil || h.closed {
			return Tuple{in.Intv(0), in.mkError("seek: file already closed")}
		}
		o, wh := in.cint(a[1]), in.cint(a[2])
		switch wh {
		case 1:
			o += h.pos
		case 2:
			o += len(h.f.data)
		}
		if o < 0 {
			return Tuple{in.Intv(0), in.mkError("seek: invalid argument")}
		}
		h.pos = o
		return Tuple{in.Intv(o), Iface{}}
	})
	reg("(*os.File).Close", func(in *Interp, fn *ssa.Function, a []Value) Value {
		h := in.handle(a[0])
		if h == nil {
			if p := a[0].(Ptr); p.a == nil {
				return in.mkError("invalid argument")
			}
			return Iface{}
		}
		if h.closed {
			return in.mkError("close " + h.name + ": file already closed")
		}
		h.closed = true
		return Iface{}
	})
	reg("(*os.File).Name", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if h := in.handle(a[0]); h != nil {
			return Str{s: h.name}
		}
		return Str{}
	})
	reg("(*os.File).Sync", func(in *Interp, fn *ssa.Function, a []Value) Value { return Iface{} })

	// ---- compress/gzip: framing kept (header bytes, end), compression is identity
	reg("compress/gzip.NewWriter", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		p := Ptr{a: &Agg{e: []Value{in.zero(t)}}}
		in.side[p.a] = &gzw{w: a[0].(Iface)}
		return p
	})
	// the header goes out with the first bytes, the rest when flushed; an error stays
	out := func(in *Interp, g *gzw, b Value) bool {
		g.err = in.callMethod(g.w, "Write", nil, b).(Tuple)[1].(Iface)
		return g.err.t == nil
	}
	open := func(in *Interp, g *gzw) bool {
		if g.err.t == nil && !g.opened {
			g.opened = true
			out(in, g, in.mkBytes([]byte{0x1f, 0x8b}))
		}
		return g.err.t == nil
	}
	reg("(*compress/gzip.Writer).Write", func(in *Interp, fn *ssa.Function, a []Value) Value {
		g := in.side[a[0].(Ptr).a].(*gzw)
		if !open(in, g) {
			return Tuple{in.Intv(0), g.err}
		}
		b := in.strBytes(in.byteStr(a[1]))
		g.buf = append(g.buf, b...)
		return Tuple{in.Intv(len(b)), Iface{}}
	})
	fl := func(in *Interp, fn *ssa.Function, a []Value) Value {
		g := in.side[a[0].(Ptr).a].(*gzw)
		if open(in, g) && len(g.buf) > 0 {
			b := g.buf
			g.buf = nil
			out(in, g, in.strToBytes(mkStr(b)))
		}
		return g.err
	}
	reg("(*compress/gzip.Writer).Flush", fl)
	reg("(*compress/gzip.Writer).Close", fl)
	header := func(in *Interp, r Iface) Iface {
		hdr := in.makeSlice(types.Typ[types.Uint8], 2, 2)
		rt := in.callMethod(r, "Read", nil, hdr).(Tuple)
		n := in.cint(rt[0])
		if n < 2 {
			if e := rt[1].(Iface); e.t != nil {
				return e
			}
			return in.mkError("unexpected EOF").(Iface)
		}
		ok := in.tb.And(in.tb.Eq(T(hdr.a.e[0]), in.tb.BV(0x1f, 8)), in.tb.Eq(T(hdr.a.e[1]), in.tb.BV(0x8b, 8)))
		if !in.branch(ok) {
			return in.mkError("gzip: invalid header").(Iface)
		}
		return Iface{}
	}
	reg("compress/gzip.NewReader", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		r := a[0].(Iface)
		if e := header(in, r); e.t != nil {
			return Tuple{Ptr{}, e}
		}
		p := Ptr{a: &Agg{e: []Value{in.zero(t)}}}
		in.side[p.a] = &gzr{r: r}
		return Tuple{p, Iface{}}
	})
	reg("(*compress/gzip.Reader).Reset", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := a[1].(Iface)
		in.side[a[0].(Ptr).a] = &gzr{r: r}
		return header(in, r)
	})
	reg("(*compress/gzip.Reader).Read", func(in *Interp, fn *ssa.Function, a []Value) Value {
		r := in.side[a[0].(Ptr).a].(*gzr).r
		t := in.callMethod(r, "Read", nil, a[1]).(Tuple)
		if p, ok := r.v.(Ptr); ok && t[1].(Iface).t != nil {
			if h := in.handle(p); h != nil && h.f.cut {
				return Tuple{t[0], in.globalCell(in.w.P.pkgs["io"].Var("ErrUnexpectedEOF")).e[0]}
			}
		}
		return t
	})
	reg("(*compress/gzip.Reader).Close", func(in *Interp, fn *ssa.Function, a []Value) Value { return Iface{} })

	// ---- faults
	// DiskRoom(k): from now on, only k more writes to files succeed (k < 0: all).
	// It returns how many were made since the last call.
	reg(vkPath+".DiskRoom", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := in.diskOps
		k := in.cint(a[0])
		in.diskOps, in.diskRoom, in.diskFull = 0, k, k >= 0
		return in.Intv(n)
	})
	some := func(in *Interp, n int) Value {
		if n <= 0 {
			return Slice{}
		}
		s := in.makeSlice(types.Typ[types.Int], 1, 1)
		s.a.e[0] = in.Intv(in.choose(n))
		return s
	}
	reg(vkPath+".DiskRooms", func(in *Interp, fn *ssa.Function, a []Value) Value { return some(in, in.cint(a[1])) })
	// Cuts(path) chooses one of the places where the stream in the file can end.
	reg(vkPath+".Cuts", func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.fs()[in.cstr(a[0])]
		if f == nil || len(f.data) < 2 {
			return Slice{}
		}
		s := some(in, 2*((len(f.data)-2)/512)).(Slice)
		k := in.cint(s.a.e[0])
		s.a.e[0] = in.Intv(k/2*512 + k%2*100)
		return s
	})
	// Cut(path, to, n) writes a file whose compressed stream ends after n bytes.
	reg(vkPath+".Cut", func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.fs()[in.cstr(a[0])]
		in.fs()[in.cstr(a[1])] = &vfile{data: append([]*Term{}, f.data[:2+in.cint(a[2])]...), cut: true}
		return nil
	})
}
