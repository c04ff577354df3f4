package main

import (
	"bytes"
	"unicode/utf8"
)

// fastModels compute hot functions of the standard library directly when
// their arguments are concrete; otherwise the function's own code is executed.
var fastModels map[string]func(in *Interp, a []Value) (Value, bool)

func init() {
	fastModels = map[string]func(in *Interp, a []Value) (Value, bool){
		"(*archive/tar.block).computeChecksum": func(in *Interp, a []Value) (Value, bool) {
			p := a[0].(Ptr)
			if p.a == nil || p.sym != nil {
				return nil, false
			}
			g, ok := p.a.e[p.i].(*Agg)
			if !ok || len(g.e) != 512 {
				return nil, false
			}
			var u, s int64
			for i, e := range g.e {
				t, ok := e.(*Term)
				if !ok || !t.isConst() {
					return nil, false
				}
				c := byte(t.val)
				if 148 <= i && i < 156 {
					c = ' '
				}
				u += int64(c)
				s += int64(int8(c))
			}
			return Tuple{in.tb.Int(u), in.tb.Int(s)}, true
		},
		"unicode/utf8.DecodeRune": func(in *Interp, a []Value) (Value, bool) {
			s := a[0].(Slice)
			var b [4]byte
			n := 0
			for ; n < 4 && n < s.len; n++ {
				t, ok := s.a.e[s.off+n].(*Term)
				if !ok || !t.isConst() {
					return nil, false
				}
				b[n] = byte(t.val)
			}
			r, k := utf8.DecodeRune(b[:n])
			return Tuple{in.tb.BV(uint64(r), 32), in.tb.Int(int64(k))}, true
		},
		"bytes.Trim": func(in *Interp, a []Value) (Value, bool) {
			s := a[0].(Slice)
			cut, ok := a[1].(Str)
			if !ok || cut.b != nil || s.len == 0 {
				return nil, false
			}
			b := make([]byte, s.len)
			for i := range b {
				t, ok := s.a.e[s.off+i].(*Term)
				if !ok || !t.isConst() {
					return nil, false
				}
				b[i] = byte(t.val)
			}
			r := bytes.Trim(b, cut.s)
			if r == nil {
				return Slice{}, true
			}
			off := cap(b) - cap(r)
			return Slice{a: s.a, off: s.off + off, len: len(r), cap: s.cap - off}, true
		},
		"bytes.indexFunc": func(in *Interp, a []Value) (Value, bool) {
			s := a[0].(Slice)
			f, ok := a[1].(*Func)
			truth, isT := a[2].(*Term)
			if !ok || !isT || !truth.isConst() || f.fn == nil || len(f.env) > 0 || f.fn.Pkg == nil || f.fn.Pkg.Pkg.Path() != "archive/tar" {
				return nil, false
			}
			memo := map[byte]bool{}
			for i := 0; i < s.len; i++ {
				t, ok := s.a.e[s.off+i].(*Term)
				if !ok || !t.isConst() || t.val >= 0x80 {
					return nil, false
				}
				v, ok := memo[byte(t.val)]
				if !ok {
					r, ok := in.callFn(f.fn, []Value{in.tb.BV(t.val, 32)}, nil).(*Term)
					if !ok || !r.isConst() {
						return nil, false
					}
					v = r.val != 0
					memo[byte(t.val)] = v
				}
				if v == (truth.val != 0) {
					return in.tb.Int(int64(i)), true
				}
			}
			return in.tb.Int(-1), true
		},
	}
}
