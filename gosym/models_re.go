package main

import (
	"regexp"
	"regexp/syntax"
)

// reMatch runs the compiled regular expression as an NFA over symbolic ASCII
// bytes; the result is one Boolean term.
func (in *Interp) reMatch(re *regexp.Regexp, s Str) *Term {
	tb := in.tb
	ast, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		panic(unsupported("regexp"))
	}
	prog, err := syntax.Compile(ast.Simplify())
	if err != nil {
		panic(unsupported("regexp"))
	}
	n := s.length()
	bs := in.strBytes(s)
	for _, b := range bs {
		in.assumeASCII(b)
	}
	matched := tb.fls
	cur := make([]*Term, len(prog.Inst))
	reset := func() []*Term {
		r := make([]*Term, len(prog.Inst))
		for i := range r {
			r[i] = tb.fls
		}
		return r
	}
	cur = reset()
	var add func(set []*Term, pc uint32, c *Term, pos int)
	add = func(set []*Term, pc uint32, c *Term, pos int) {
		if c == tb.fls {
			return
		}
		if set[pc] != tb.fls {
			nc := tb.Or(set[pc], c)
			if nc == set[pc] {
				return
			}
			set[pc] = nc
		} else {
			set[pc] = c
		}
		i := &prog.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, i.Out, c, pos)
			add(set, i.Arg, c, pos)
		case syntax.InstCapture, syntax.InstNop:
			add(set, i.Out, c, pos)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(i.Arg)
			ok := true
			if e&(syntax.EmptyBeginText) != 0 && pos != 0 {
				ok = false
			}
			if e&(syntax.EmptyEndText) != 0 && pos != n {
				ok = false
			}
			if e&(syntax.EmptyBeginLine|syntax.EmptyEndLine|syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				panic(unsupported("regexp assertion"))
			}
			if ok {
				add(set, i.Out, c, pos)
			}
		case syntax.InstMatch:
			matched = tb.Or(matched, c)
		}
	}
	for pos := 0; ; pos++ {
		add(cur, uint32(prog.Start), tb.tru, pos)
		if pos == n {
			break
		}
		nx := reset()
		b := bs[pos]
		for pc := range prog.Inst {
			if cur[pc] == tb.fls {
				continue
			}
			i := &prog.Inst[pc]
			var m *Term
			switch i.Op {
			case syntax.InstRune, syntax.InstRune1:
				m = tb.fls
				if len(i.Rune) == 1 {
					m = tb.Eq(b, tb.BV(uint64(i.Rune[0]), 8))
				}
				for k := 0; k+1 < len(i.Rune); k += 2 {
					lo, hi := i.Rune[k], i.Rune[k+1]
					if lo > 127 {
						continue
					}
					if hi > 127 {
						hi = 127
					}
					m = tb.Or(m, tb.And(tb.ULe(tb.BV(uint64(lo), 8), b), tb.ULe(b, tb.BV(uint64(hi), 8))))
				}
			case syntax.InstRuneAny:
				m = tb.tru
			case syntax.InstRuneAnyNotNL:
				m = tb.Not(tb.Eq(b, tb.BV('\n', 8)))
			default:
				continue
			}
			add(nx, i.Out, tb.And(cur[pc], m), pos+1)
		}
		cur = nx
	}
	return matched
}

func (in *Interp) assumeASCII(b *Term) {
	if b.isConst() {
		if b.val >= 128 {
			panic(unsupported("regexp on non-ASCII text"))
		}
		return
	}
	if !in.branch(in.tb.ULt(b, in.tb.BV(128, 8))) {
		panic(unsupported("regexp on non-ASCII text"))
	}
}
