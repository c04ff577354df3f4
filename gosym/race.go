package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races: with option race, accesses to memory and maps by functions of
// the repository are ordered by vector clocks (go statements, mutexes, wait
// groups, channels, once, atomics). Two accesses of which one writes and
// neither happens before the other are reported. Orders between other
// synchronisations are over-approximated, so that what is reported is a race.

type raceKey struct {
	o interface{}
	i int
}

type raceCell struct {
	w, wc int // last writer and its clock
	wf    string
	r     map[int]int
	rf    map[int]string
}

type raceState struct {
	cells  map[raceKey]*raceCell
	syncs  map[interface{}]*vclock
	inRepo map[*ssa.Function]bool
}

type vclock []int

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) at(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// raceOn starts recording at the first go statement.
func (in *Interp) raceOn() {
	if in.race == nil && in.optDef("race", 0) > 0 {
		in.race = &raceState{cells: map[raceKey]*raceCell{}, syncs: map[interface{}]*vclock{}, inRepo: map[*ssa.Function]bool{}}
		in.cur.vc = make(vclock, in.cur.id+1)
		in.cur.vc[in.cur.id] = 1
	}
}

func (in *Interp) raceSpawn(g *G) {
	in.raceOn()
	if in.race == nil {
		return
	}
	g.vc = append(vclock{}, in.cur.vc...)
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id] = 1
	in.cur.vc[in.cur.id]++
}

func (in *Interp) raceRel(o interface{}) {
	if in.race == nil {
		return
	}
	v := in.race.syncs[o]
	if v == nil {
		v = &vclock{}
		in.race.syncs[o] = v
	}
	v.join(in.cur.vc)
	in.cur.vc[in.cur.id]++
}

func (in *Interp) raceAcq(o interface{}) {
	if in.race == nil {
		return
	}
	if v := in.race.syncs[o]; v != nil {
		in.cur.vc.join(*v)
	}
}

// raceFn is the accessing function if it is one of the repository.
func (in *Interp) raceFn() *ssa.Function {
	n := len(in.curFn)
	if n == 0 || in.spec > 0 {
		return nil
	}
	fn := in.curFn[n-1]
	ok, seen := in.race.inRepo[fn]
	if !seen {
		ok = fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && in.initDepth == 0
		in.race.inRepo[fn] = ok
	}
	if !ok || in.initDepth > 0 {
		return nil
	}
	return fn
}

func (in *Interp) raceMem(p Ptr, write bool) {
	if p.a == nil || p.sym != nil || p.i < 0 || p.i >= len(p.a.e) {
		return
	}
	fn := in.raceFn()
	if fn == nil {
		return
	}
	in.raceCells(p.a, p.i, write, fn)
}

func (in *Interp) raceCells(a *Agg, i int, write bool, fn *ssa.Function) {
	if s, ok := a.e[i].(*Agg); ok {
		for j := range s.e {
			in.raceCells(s, j, write, fn)
		}
		return
	}
	in.raceAt(raceKey{a, i}, write, fn)
}

func (in *Interp) raceMap(m *Map, write bool) {
	if m == nil {
		return
	}
	if fn := in.raceFn(); fn != nil {
		in.raceAt(raceKey{m, -1}, write, fn)
	}
}

func (in *Interp) raceAt(k raceKey, write bool, fn *ssa.Function) {
	g := in.cur
	c := in.race.cells[k]
	if c == nil {
		c = &raceCell{w: -1}
		in.race.cells[k] = c
	}
	if c.w >= 0 && c.w != g.id && c.wc > g.vc.at(c.w) {
		in.raceFound(c.wf, fn)
	}
	if !write {
		if c.r == nil {
			c.r, c.rf = map[int]int{}, map[int]string{}
		}
		c.r[g.id], c.rf[g.id] = g.vc[g.id], fn.String()
		return
	}
	for id, rc := range c.r {
		if id != g.id && rc > g.vc.at(id) {
			in.raceFound(c.rf[id], fn)
		}
	}
	c.w, c.wc, c.wf, c.r, c.rf = g.id, g.vc[g.id], fn.String(), nil, nil
}

func (in *Interp) raceFound(other string, fn *ssa.Function) {
	if in.inPrefix() {
		panic(pathEnd{"violation", "data race"})
	}
	in.report("race", "no data is accessed by two goroutines at once, unordered", fmt.Sprintf("between %s and %s", other, fn), in.trace())
	panic(pathEnd{"violation", "data race"})
}

func (in *Interp) raceRange(s Slice, from, to int, write bool) {
	fn := in.raceFn()
	if fn == nil || s.a == nil {
		return
	}
	for i := s.off + from; i < s.off+to && i < len(s.a.e); i++ {
		in.raceCells(s.a, i, write, fn)
	}
}

func (in *Interp) raceAppend(s Slice, v Value) {
	if in.race == nil {
		return
	}
	n := 0
	switch y := v.(type) {
	case Slice:
		n = y.len
		in.raceRange(y, 0, n, false)
	case Str:
		n = len(in.strBytes(y))
	}
	if s.len+n <= s.cap {
		in.raceRange(s, s.len, s.len+n, true)
	} else {
		in.raceRange(s, 0, s.len, false)
	}
}
