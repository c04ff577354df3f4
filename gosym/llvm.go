package main

// C functions called through cgo: the C files of the package are compiled to
// LLVM IR by clang on every run, and the IR is executed symbolically on the
// same memory as the Go code.

import (
	"fmt"
	"go/types"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type llInstr struct {
	res  string
	text string
	toks []string
}
type llBlock struct {
	ins []llInstr
}
type llFunc struct {
	params []string
	ptypes []string
	blocks map[string]*llBlock
	entry  string
}
type llModule struct {
	funcs   map[string]*llFunc
	structs map[string][]string
}

var llMu sync.Mutex
var llCache = map[string]*llModule{}
var llErr = map[string]error{}

// cModule compiles the C files of a package directory.
func cModule(dir string) (*llModule, error) {
	llMu.Lock()
	defer llMu.Unlock()
	if m, ok := llCache[dir]; ok {
		return m, llErr[dir]
	}
	m := &llModule{funcs: map[string]*llFunc{}, structs: map[string][]string{}}
	llCache[dir] = m
	fs, _ := filepath.Glob(filepath.Join(dir, "*.c"))
	pp, _ := filepath.Glob(filepath.Join(dir, "*.cpp"))
	for _, f := range append(fs, pp...) {
		cc := "clang"
		if strings.HasSuffix(f, ".cpp") {
			cc = "clang++"
		}
		cmd := exec.Command(cc, "-O0", "-fno-discard-value-names", "-ffp-contract=off", "-S", "-emit-llvm", "-o", "-", f)
		cmd.Dir = dir
		out, err := cmd.Output()
		if err != nil {
			llErr[dir] = fmt.Errorf("clang: %v", err)
			return m, llErr[dir]
		}
		m.parse(string(out))
	}
	return m, nil
}

var llTok = regexp.MustCompile(`c?"[^"]*"|[%@][-a-zA-Z$._0-9]+|[-a-zA-Z0-9_.+]+|[\[\]{}(),=*<>!#:]`)

func (m *llModule) parse(src string) {
	var fn *llFunc
	cur := ""
	for _, line := range strings.Split(src, "\n") {
		if i := strings.Index(line, " ;"); i >= 0 {
			line = line[:i]
		}
		line = strings.TrimRight(line, " \t")
		t := llTok.FindAllString(line, -1)
		if len(t) == 0 || strings.HasPrefix(line, ";") {
			continue
		}
		if fn == nil {
			if strings.HasPrefix(line, "%") && len(t) > 3 && t[2] == "type" {
				var fs []string
				p := 4
				for p < len(t) && t[p] != "}" {
					var ty string
					ty, p = llType(t, p)
					fs = append(fs, ty)
					if p < len(t) && t[p] == "," {
						p++
					}
				}
				m.structs[t[0]] = fs
			}
			if t[0] == "define" {
				fn = &llFunc{blocks: map[string]*llBlock{}, entry: "entry"}
				if name, ok := fn.header(t); ok {
					m.funcs[name] = fn
				}
				cur = ""
			}
			continue
		}
		if line == "}" {
			fn = nil
			continue
		}
		if !strings.HasPrefix(line, " ") {
			cur = strings.TrimSuffix(t[0], ":")
			if fn.blocks[cur] == nil {
				fn.blocks[cur] = &llBlock{}
			}
			if len(fn.blocks) == 1 {
				fn.entry = cur
			}
			continue
		}
		if cur == "" {
			cur = "entry"
			fn.blocks[cur] = &llBlock{}
		}
		i := llInstr{text: strings.TrimSpace(line)}
		if len(t) > 2 && t[1] == "=" {
			i.res, t = t[0], t[2:]
		}
		i.toks = t
		fn.blocks[cur].ins = append(fn.blocks[cur].ins, i)
	}
}

// header reads a function's name and parameters.
func (fn *llFunc) header(t []string) (name string, ok bool) {
	p := 0
	for p < len(t) && !strings.HasPrefix(t[p], "@") {
		p++
	}
	if p+2 >= len(t) {
		return "", false
	}
	name = t[p][1:]
	p += 2
	for t[p] != ")" {
		var ty string
		ty, p = llType(t, p)
		for p < len(t) && !strings.HasPrefix(t[p], "%") {
			p++
		}
		if p+1 >= len(t) {
			return "", false
		}
		fn.params = append(fn.params, t[p])
		fn.ptypes = append(fn.ptypes, ty)
		p++
		if t[p] == "," {
			p++
		}
	}
	return name, true
}

// llType reads a type, returning it as text.
func llType(t []string, p int) (string, int) {
	switch t[p] {
	case "[":
		e, q := llType(t, p+3)
		return "[" + t[p+1] + " x " + e + "]", q + 1
	}
	return t[p], p + 1
}

func (m *llModule) size(ty string) (size, align int) {
	switch ty {
	case "i1", "i8":
		return 1, 1
	case "i16":
		return 2, 2
	case "i32", "float":
		return 4, 4
	case "i64", "double", "ptr":
		return 8, 8
	}
	if strings.HasPrefix(ty, "[") {
		n, e := llArr(ty)
		s, a := m.size(e)
		return n * s, a
	}
	fs, ok := m.structs[ty]
	if !ok {
		panic(unsupported("C type " + ty))
	}
	for _, f := range fs {
		s, a := m.size(f)
		size = (size+a-1)/a*a + s
		align = max(align, a)
	}
	return (size + align - 1) / align * align, align
}
func llArr(ty string) (int, string) {
	i := strings.Index(ty, " x ")
	n, _ := strconv.Atoi(ty[1:i])
	return n, ty[i+3 : len(ty)-1]
}
func (m *llModule) field(ty string, k int) (off int, fty string) {
	for i, f := range m.structs[ty] {
		s, a := m.size(f)
		off = (off + a - 1) / a * a
		if i == k {
			return off, f
		}
		off += s
	}
	panic(unsupported("C field"))
}

func llSort(ty string) Sort {
	switch ty {
	case "float":
		return SF32
	case "double":
		return SF64
	case "i1":
		return SBool
	}
	if len(ty) > 1 && ty[0] == 'i' {
		n, err := strconv.Atoi(ty[1:])
		if err == nil && n <= 64 {
			return Sort(n)
		}
	}
	panic(unsupported("C type " + ty))
}

// cPtr is a C pointer: into a Go object, or to a local variable of a C function.
type cPtr struct {
	p     Ptr
	off   int
	local *cVar
}
type cVar struct{ v Value }

type cFrame struct {
	in    *Interp
	m     *llModule
	vals  map[string]Value
	prev  string
	fuel  *int
	depth int
}

func (f *cFrame) operand(ty, s string) Value {
	if v, ok := f.vals[s]; ok {
		return v
	}
	tb := f.in.tb
	switch {
	case s == "true":
		return tb.tru
	case s == "false":
		return tb.fls
	case s == "null":
		return cPtr{}
	}
	switch ty {
	case "float", "double":
		var x float64
		if strings.HasPrefix(s, "0x") {
			b, err := strconv.ParseUint(s[2:], 16, 64)
			if err != nil {
				panic(unsupported("C constant " + s))
			}
			x = tb.F64b(b).fval()
		} else {
			var err error
			if x, err = strconv.ParseFloat(s, 64); err != nil {
				panic(unsupported("C constant " + s))
			}
		}
		return tb.fconst(llSort(ty), x)
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(unsupported("C operand " + s))
	}
	return tb.BV(uint64(n), int(llSort(ty)))
}

// locate finds the scalar cell at a byte offset from a pointer into Go memory.
func (f *cFrame) locate(p Ptr, off int) Ptr {
	if p.a == nil {
		panic(f.in.rtPanic("C: null pointer"))
	}
	if p.sym != nil {
		p = f.in.concPtr(p)
	}
	if p.i >= len(p.a.e) {
		panic(f.in.rtPanic("C: access outside an object"))
	}
	size, _ := cLayout(p.a.e[p.i])
	if size == 0 {
		panic(unsupported("C access to an empty value"))
	}
	k := off / size
	if off < 0 {
		k = -((-off + size - 1) / size)
	}
	rem := off - k*size
	p = Ptr{a: p.a, i: p.i + k}
	for {
		if p.i < 0 || p.i >= len(p.a.e) {
			panic(f.in.rtPanic("C: access outside an object"))
		}
		ag, ok := p.a.e[p.i].(*Agg)
		if !ok {
			break
		}
		// the field that holds the offset
		at, hit := 0, -1
		for j, e := range ag.e {
			s, al := cLayout(e)
			at = (at + al - 1) / al * al
			if rem >= at && rem < at+s {
				hit = j
				break
			}
			at += s
		}
		if hit < 0 {
			panic(unsupported("C access to padding"))
		}
		rem -= at
		p = Ptr{a: ag, i: hit}
	}
	if rem != 0 {
		panic(unsupported("C access inside a value"))
	}
	return p
}

// cLayout is the size and alignment C gives a Go value.
func cLayout(v Value) (size, align int) {
	switch x := v.(type) {
	case *Term:
		switch x.sort {
		case SF64:
			return 8, 8
		case SF32:
			return 4, 4
		case SBool:
			return 1, 1
		}
		n := int(x.sort) / 8
		return n, n
	case Ptr:
		return 8, 8
	case nil: // fresh memory
		return 8, 8
	case *Agg:
		align = 1
		for _, e := range x.e {
			s, al := cLayout(e)
			size = (size+al-1)/al*al + s
			align = max(align, al)
		}
		return (size + align - 1) / align * align, align
	}
	panic(unsupported("C access to a Go value"))
}

func (f *cFrame) load(c cPtr, ty string) Value {
	if c.local != nil {
		if c.off != 0 || c.local.v == nil {
			panic(unsupported("C local aggregate"))
		}
		return c.local.v
	}
	p := f.locate(c.p, c.off)
	v := p.a.e[p.i]
	if x, ok := v.(Ptr); ok && ty == "ptr" {
		return cPtr{p: x}
	}
	t, ok := v.(*Term)
	if !ok || ty == "ptr" {
		panic(unsupported("C load"))
	}
	if s := llSort(ty); s != t.sort {
		sz, _ := f.m.size(ty)
		if _, isTerm := p.a.e[p.i].(*Term); isTerm && p.i+sz > len(p.a.e) && t.sort == 8 {
			panic(f.in.rtPanic("C: access outside an object"))
		}
		return f.in.loadReinterp(p, s)
	}
	return t
}

func (f *cFrame) store(c cPtr, v Value) {
	if c.local != nil {
		if c.off != 0 {
			panic(unsupported("C local aggregate"))
		}
		c.local.v = v
		return
	}
	if x, ok := v.(cPtr); ok {
		if x.local != nil {
			panic(unsupported("C pointer to a local variable"))
		}
		if x.off != 0 {
			x.p = f.locate(x.p, x.off)
		}
		v = x.p
	}
	f.in.store(f.locate(c.p, c.off), v)
}

func (f *cFrame) call(fn *llFunc, args []Value) Value {
	if f.depth > 50 {
		panic(unsupported("C recursion"))
	}
	g := &cFrame{in: f.in, m: f.m, vals: map[string]Value{}, fuel: f.fuel, depth: f.depth + 1}
	for i, p := range fn.params {
		g.vals[p] = args[i]
	}
	cur := fn.entry
	for {
		b := fn.blocks[cur]
		if b == nil {
			panic(unsupported("C block " + cur))
		}
		next := ""
		for _, i := range b.ins {
			*f.fuel--
			if *f.fuel < 0 {
				panic(unsupported("C code runs too long"))
			}
			ret, done, nx := g.step(i, cur)
			if done {
				return ret
			}
			if nx != "" {
				next = nx
				break
			}
		}
		g.prev, cur = cur, next
	}
}

var llFlags = map[string]bool{"nsw": true, "nuw": true, "exact": true, "fast": true, "nnan": true, "ninf": true, "nsz": true, "arcp": true, "contract": true, "afn": true, "reassoc": true, "inbounds": true, "volatile": true, "tail": true, "musttail": true, "notail": true, "nneg": true, "disjoint": true, "samesign": true}

func (f *cFrame) step(i llInstr, cur string) (ret Value, done bool, next string) {
	t := i.toks
	op := t[0]
	tb := f.in.tb
	p := 1
	for p < len(t) && llFlags[t[p]] {
		p++
	}
	T1 := func(v Value) *Term {
		x, ok := v.(*Term)
		if !ok {
			panic(unsupported("C pointer arithmetic: " + i.text))
		}
		return x
	}
	two := func() (ty string, a, b *Term) {
		ty, q := llType(t, p)
		return ty, T1(f.operand(ty, t[q])), T1(f.operand(ty, t[q+2]))
	}
	set := func(v Value) { f.vals[i.res] = v }
	switch op {
	case "alloca":
		set(cPtr{local: &cVar{}})
	case "load":
		ty, q := llType(t, p)
		set(f.load(f.operand("ptr", t[q+2]).(cPtr), ty))
	case "store":
		ty, q := llType(t, p)
		f.store(f.operand("ptr", t[q+3]).(cPtr), f.operand(ty, t[q]))
	case "getelementptr":
		ty, q := llType(t, p)
		q += 2 // , ptr
		c := f.operand("ptr", t[q]).(cPtr)
		q++
		first := true
		for q < len(t) && t[q] == "," && q+1 < len(t) && t[q+1] != "!" {
			ity, r := llType(t, q+1)
			k := int(int64(f.in.concInt(tb.SExt(T1(f.operand(ity, t[r])), 64))))
			q = r + 1
			if first {
				s, _ := f.m.size(ty)
				c.off += k * s
				first = false
				continue
			}
			if strings.HasPrefix(ty, "[") {
				_, e := llArr(ty)
				s, _ := f.m.size(e)
				c.off += k * s
				ty = e
			} else {
				o, fty := f.m.field(ty, k)
				c.off += o
				ty = fty
			}
		}
		set(c)
	case "icmp":
		pred := t[p]
		p++
		ty, q := llType(t, p)
		if ty == "ptr" {
			panic(unsupported("C pointer comparison"))
		}
		a, b := T1(f.operand(ty, t[q])), T1(f.operand(ty, t[q+2]))
		var r *Term
		switch pred {
		case "eq":
			r = tb.Eq(a, b)
		case "ne":
			r = tb.Not(tb.Eq(a, b))
		case "slt":
			r = tb.SLt(a, b)
		case "sle":
			r = tb.SLe(a, b)
		case "sgt":
			r = tb.SLt(b, a)
		case "sge":
			r = tb.SLe(b, a)
		case "ult":
			r = tb.ULt(a, b)
		case "ule":
			r = tb.ULe(a, b)
		case "ugt":
			r = tb.ULt(b, a)
		case "uge":
			r = tb.ULe(b, a)
		}
		set(r)
	case "fcmp":
		pred := t[p]
		p++
		_, a, b := two()
		nan := tb.Or(tb.FIsNaN(a), tb.FIsNaN(b))
		var r *Term
		switch pred[1:] {
		case "eq":
			r = tb.FEq(a, b)
		case "ne":
			r = tb.And(tb.Not(tb.FEq(a, b)), tb.Not(nan))
		case "lt":
			r = tb.FCmp(OFLt, a, b)
		case "le":
			r = tb.FCmp(OFLe, a, b)
		case "gt":
			r = tb.FCmp(OFLt, b, a)
		case "ge":
			r = tb.FCmp(OFLe, b, a)
		default:
			panic(unsupported("C comparison " + pred))
		}
		if pred[0] == 'u' {
			r = tb.Or(r, nan)
		}
		set(r)
	case "br":
		if t[p] == "label" {
			return nil, false, t[p+1][1:]
		}
		c := T1(f.operand("i1", t[p+1]))
		if f.in.branch(c) {
			return nil, false, t[p+4][1:]
		}
		return nil, false, t[p+7][1:]
	case "ret":
		if t[p] == "void" {
			return nil, true, ""
		}
		ty, q := llType(t, p)
		return f.operand(ty, t[q]), true, ""
	case "phi":
		ty, q := llType(t, p)
		for ; q+4 < len(t); q += 6 {
			if t[q+3][1:] == f.prev {
				set(f.operand(ty, t[q+1]))
				return
			}
		}
		panic(unsupported("C phi"))
	case "select":
		c := T1(f.operand("i1", t[p+1]))
		ty, q := llType(t, p+3)
		a := f.operand(ty, t[q])
		b := f.operand(ty, t[q+3])
		set(tb.Ite(c, T1(a), T1(b)))
	case "add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "and", "or", "xor", "shl", "ashr", "lshr":
		ty, a, b := two()
		if ty == "i1" {
			switch op {
			case "and":
				set(tb.And(a, b))
			case "or":
				set(tb.Or(a, b))
			case "xor":
				set(tb.Not(tb.Eq(a, b)))
			default:
				panic(unsupported("C instruction " + i.text))
			}
			return
		}
		switch op {
		case "shl":
			set(tb.Shl(a, b))
		case "ashr":
			set(tb.AShr(a, b))
		case "lshr":
			set(tb.LShr(a, b))
		default:
			set(tb.bvbin(map[string]Op{"add": OBvAdd, "sub": OBvSub, "mul": OBvMul, "sdiv": OBvSDiv, "srem": OBvSRem, "udiv": OBvUDiv, "urem": OBvURem, "and": OBvAnd, "or": OBvOr, "xor": OBvXor}[op], a, b))
		}
	case "fadd", "fsub", "fmul", "fdiv":
		_, a, b := two()
		set(tb.FBin(map[string]Op{"fadd": OFAdd, "fsub": OFSub, "fmul": OFMul, "fdiv": OFDiv}[op], a, b))
	case "fneg":
		ty, q := llType(t, p)
		set(tb.FNeg(T1(f.operand(ty, t[q]))))
	case "sext", "zext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui":
		ty, q := llType(t, p)
		a := T1(f.operand(ty, t[q]))
		to, _ := llType(t, q+2)
		s := llSort(to)
		switch op {
		case "sext", "zext":
			if a.sort == SBool {
				one := tb.BV(1, int(s))
				if op == "sext" {
					one = tb.BV(mask(int(s)), int(s))
				}
				set(tb.Ite(a, one, tb.BV(0, int(s))))
			} else if op == "sext" {
				set(tb.SExt(a, int(s)))
			} else {
				set(tb.ZExt(a, int(s)))
			}
		case "trunc":
			if s == SBool {
				set(tb.Eq(tb.Extract(a, 0, 0), tb.BV(1, 1)))
			} else {
				set(tb.Extract(a, int(s)-1, 0))
			}
		case "fpext", "fptrunc":
			set(tb.FConv(a, s))
		case "sitofp", "uitofp":
			set(tb.FFromInt(a, op == "sitofp", s))
		default:
			set(tb.FToInt(a, op == "fptosi", int(s)))
		}
	case "call":
		ty, q := llType(t, p)
		for !strings.HasPrefix(t[q], "@") {
			q++
		}
		name := t[q][1:]
		if strings.HasPrefix(name, "llvm.lifetime") || strings.HasPrefix(name, "llvm.dbg") {
			return
		}
		var args []Value
		for q += 2; q < len(t) && t[q] != ")"; {
			var aty string
			aty, q = llType(t, q)
			for t[q] == "noundef" || t[q] == "nonnull" || t[q] == "signext" || t[q] == "zeroext" || t[q] == "align" || (t[q-1] == "align") {
				q++
			}
			args = append(args, f.operand(aty, t[q]))
			q++
			if t[q] == "," {
				q++
			}
		}
		switch name {
		case "malloc":
			n := int(f.in.concInt(T1(args[0])))
			a := &Agg{e: make([]Value, (n+7)/8)}
			set(cPtr{p: Ptr{a: a}})
			return
		case "free":
			return
		case "sqrt", "llvm.sqrt.f64":
			set(tb.FSqrt(T1(args[0])))
			return
		case "fabs", "llvm.fabs.f64", "fabsf", "llvm.fabs.f32":
			set(tb.FAbs(T1(args[0])))
			return
		case "pow", "llvm.pow.f64":
			if y := T1(args[1]); y.isConst() && y.fval() == 2 {
				set(tb.FBin(OFMul, T1(args[0]), T1(args[0])))
				return
			}
		}
		g := f.m.funcs[name]
		if g == nil {
			panic(unsupported("C function " + name))
		}
		_ = ty
		r := f.call(g, args)
		if i.res != "" {
			set(r)
		}
	default:
		panic(unsupported("C instruction " + i.text))
	}
	return
}

// cgoModel runs _Cfunc_NAME of a package of the repository.
func cgoModel(w *Worker, fn *ssa.Function) modelFn {
	n := fn.Name()
	if fn.Pkg == nil || !strings.HasPrefix(n, "_Cfunc_") || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		return nil
	}
	dir := filepath.Join(w.x.repo, strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath))
	name := strings.TrimPrefix(n, "_Cfunc_")
	// liblinear's training is iterative numerics: a stand-in returns an empty model
	switch name {
	case "train":
		return func(in *Interp, fn *ssa.Function, args []Value) Value {
			t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			return Ptr{a: &Agg{e: []Value{in.zero(t)}}}
		}
	case "CString":
		return func(in *Interp, fn *ssa.Function, args []Value) Value {
			b := append(append([]*Term{}, in.strBytes(args[0].(Str))...), in.tb.BV(0, 8))
			a := &Agg{}
			for _, x := range b {
				a.e = append(a.e, x)
			}
			return Ptr{a: a}
		}
	case "save_model":
		return func(in *Interp, fn *ssa.Function, args []Value) Value { return in.saveModel(args) }
	case "load_model":
		return func(in *Interp, fn *ssa.Function, args []Value) Value { return in.loadModel(args) }
	case "set_print_string_function":
		return func(in *Interp, fn *ssa.Function, args []Value) Value { return in.zeroResult(fn) }
	}
	m, err := cModule(dir)
	if m.funcs[name] == nil {
		return nil
	}
	return func(in *Interp, _ *ssa.Function, args []Value) Value {
		if err != nil {
			panic(unsupported(err.Error()))
		}
		cargs := make([]Value, len(args))
		for i, a := range args {
			switch x := a.(type) {
			case Ptr:
				cargs[i] = cPtr{p: x}
			case *Term:
				cargs[i] = x
			default:
				panic(unsupported("C argument"))
			}
		}
		fuel := 200000
		r := (&cFrame{in: in, m: m, fuel: &fuel}).call(m.funcs[name], cargs)
		if r == nil {
			r = in.zero(fn.Signature.Results().At(0).Type())
		}
		return r
	}
}

// liblinear's model files: a stand-in keeps a copy of the model beside a file
// that only names it; reading any other file gives no model.

func (in *Interp) cString(v Value) string {
	p := v.(Ptr)
	var b []byte
	for _, x := range p.a.e {
		c := byte(in.concretize(x.(*Term)))
		if c == 0 {
			break
		}
		b = append(b, c)
	}
	return string(b)
}

// copyModel copies a struct model with its weights and labels.
func (in *Interp) copyModel(t types.Type, m *Agg) *Agg {
	get := func(f string) Value { return m.e[fieldIdx(t, f)] }
	r := &Agg{e: append([]Value{}, m.e...)}
	dup := func(f string, n int) {
		p, ok := get(f).(Ptr)
		if !ok || p.a == nil || n == 0 {
			return
		}
		if p.i+n > len(p.a.e) {
			panic(unsupported("liblinear model"))
		}
		r.e[fieldIdx(t, f)] = Ptr{a: &Agg{e: append([]Value{}, p.a.e[p.i:p.i+n]...)}}
	}
	k, n := in.cint(get("nr_class")), in.cint(get("nr_feature"))
	if b := get("bias").(*Term); in.branch(in.tb.FCmp(OFLe, in.tb.F64(0), b)) {
		n++
	}
	dup("label", k)
	if k == 2 {
		dup("w", n)
	} else {
		dup("w", n*k)
	}
	return r
}

func (in *Interp) saveModel(args []Value) Value {
	p := args[1].(Ptr)
	in.nilCheck(p)
	m := in.load(p, in.cModelType()).(*Agg)
	t := in.cModelType()
	in.tokSeq++
	name := fmt.Sprintf("solver_type model %d\n", in.tokSeq)
	if in.cmodels == nil {
		in.cmodels = map[string]*Agg{}
	}
	in.cmodels[name] = in.copyModel(t, m)
	f := in.fs()[in.cString(args[0])]
	if f == nil {
		f = &vfile{}
		in.fs()[in.cString(args[0])] = f
	}
	f.data = in.strBytes(Str{s: name})
	return in.tb.BV(0, 32)
}

func (in *Interp) loadModel(args []Value) Value {
	f := in.fs()[in.cString(args[0])]
	if f == nil {
		return Ptr{}
	}
	m := in.cmodels[in.cstr(mkStr(append([]*Term{}, f.data...)))]
	if m == nil {
		return Ptr{}
	}
	return Ptr{a: &Agg{e: []Value{in.copyModel(in.cModelType(), m)}}}
}

func (in *Interp) cModelType() types.Type {
	return in.w.P.pkgs[modPath+"/linear_models"].Type("_Ctype_struct_model").Type()
}
