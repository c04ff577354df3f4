package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded choice on a path.
type Decision struct {
	K       byte // 'b' branch, 'c' choice, 'v' concretized value
	V       uint64
	Implied bool
	Excl    []uint64 // values excluded before V was picked (K=='v')
	Open    bool     // K=='v': value still to be picked
}

type pend struct {
	prefix []Decision
	model  *Model
}

type Violation struct {
	Harness string
	Label   string
	Kind    string // assert, panic, hang
	Msg     string
	Inputs  []InputRec
	Trace   string
	Opts    map[string]int
}

type Explorer struct {
	prog      *Program
	repo      string
	harness   *ssa.Function
	tier      int
	mu        sync.Mutex
	cond      *sync.Cond
	queue     []pend
	active    int
	stop      bool
	deadline  time.Time
	maxPaths  int
	paths     int
	completed int
	infeas    int
	unsup     map[string]int
	stepsHit  int
	solverUnk int
	asserts   int
	assertLab map[string]int
	assertQ   int
	steps     int64
	covers    map[string]bool
	fns       map[string]bool
	viol      []*Violation
	violKey   map[string]bool
	tolerated map[string]bool // labels not to stop at (known findings)
	merges    int
	stats     SolverStats
	maxVars   int
	solverCmd []string
	timeoutMS int
	// trip set when budget ran out with work left
	truncated bool
	samples   []string
	sampleIn  [][]InputRec
	poss      map[string]*Violation // outcomes some draws must lead to (nil once one does)
	approx    bool                  // uninterpreted functions were used on some path
}

func (x *Explorer) add(p pend) {
	x.mu.Lock()
	x.queue = append(x.queue, p)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) run(nw int) {
	x.cond = sync.NewCond(&x.mu)
	x.unsup = map[string]int{}
	x.assertLab = map[string]int{}
	x.covers = map[string]bool{}
	x.fns = map[string]bool{}
	x.violKey = map[string]bool{}
	x.poss = map[string]*Violation{}
	x.queue = []pend{{model: &Model{v: map[string]uint64{}}}}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(x.prog, x)
			defer w.solver.close()
			if covOn {
				defer w.noteCov()
			}
			for {
				x.mu.Lock()
				for len(x.queue) == 0 && x.active > 0 && !x.stop {
					x.cond.Wait()
				}
				if x.stop || len(x.queue) == 0 {
					x.mu.Unlock()
					x.cond.Broadcast()
					break
				}
				// newest first keeps the frontier small
				p := x.queue[len(x.queue)-1]
				x.queue = x.queue[:len(x.queue)-1]
				x.active++
				x.mu.Unlock()
				local := []pend{p}
				for len(local) > 0 {
					p := local[len(local)-1]
					local = local[:len(local)-1]
					w.local = nil
					w.runPath(p)
					local = append(local, w.local...)
					x.mu.Lock()
					// share the shallowest work when others idle
					if len(x.queue) < nw && len(local) > 1 {
						n := len(local) / 2
						x.queue = append(x.queue, local[:n]...)
						local = append([]pend{}, local[n:]...)
						x.cond.Broadcast()
					}
					if x.paths >= x.maxPaths || time.Now().After(x.deadline) {
						if len(local) > 0 || len(x.queue) > 0 {
							x.truncated = true
						}
						x.stop = true
					}
					st := x.stop
					x.mu.Unlock()
					if st {
						break
					}
				}
				x.mu.Lock()
				x.active--
				x.mu.Unlock()
				x.cond.Broadcast()
			}
			x.mu.Lock()
			x.merges += w.merges
			s := w.solver.stats
			x.stats.queries += s.queries
			x.stats.sat += s.sat
			x.stats.unsat += s.unsat
			x.stats.unknown += s.unknown
			x.stats.dur += s.dur
			if s.maxDur > x.stats.maxDur {
				x.stats.maxDur = s.maxDur
			}
			x.stats.errors = append(x.stats.errors, s.errors...)
			for f := range w.usedFns {
				x.fns[f] = true
			}
			x.mu.Unlock()
		}()
	}
	wg.Wait()
}

// Worker owns a term table, a solver and compiled functions.
type Worker struct {
	x         *Explorer
	prog      *ssa.Program
	P         *Program
	tb        *TB
	solver    *Solver
	fns       map[*ssa.Function]*cfn
	funcVals  map[*ssa.Function]*Func
	globals   map[*ssa.Global]*Agg
	inited    map[*ssa.Package]bool
	typeKeys  map[types.Type]string
	methods   map[mkey]*ssa.Function
	impls     map[ikey]bool
	models    map[*ssa.Function]modelFn
	pureModel map[*ssa.Function]bool
	usedFns   map[string]bool
	fnNoted   map[*ssa.Function]bool
	local     []pend
	merges    int
	addrs     map[*Agg]uint64
	sharedPk  map[*ssa.Package]bool
}
type mkey struct {
	t types.Type
	n string
}
type ikey struct {
	t types.Type
	i *types.Interface
}

func newWorker(p *Program, x *Explorer) *Worker {
	tb := newTB()
	w := &Worker{x: x, prog: p.ssa, P: p, tb: tb, fns: map[*ssa.Function]*cfn{}, funcVals: map[*ssa.Function]*Func{},
		globals: map[*ssa.Global]*Agg{}, inited: map[*ssa.Package]bool{}, typeKeys: map[types.Type]string{}, methods: map[mkey]*ssa.Function{},
		impls: map[ikey]bool{}, models: map[*ssa.Function]modelFn{}, pureModel: map[*ssa.Function]bool{}, usedFns: map[string]bool{}, fnNoted: map[*ssa.Function]bool{}, addrs: map[*Agg]uint64{}, sharedPk: map[*ssa.Package]bool{}}
	w.solver = newSolver(tb, x.solverCmd, time.Duration(x.timeoutMS)*time.Millisecond)
	return w
}

func (w *Worker) addrOf(p Ptr) uint64 {
	a, ok := w.addrs[p.a]
	if !ok {
		a = 0xc000000000 + uint64(len(w.addrs)+1)<<16
		w.addrs[p.a] = a
	}
	return a + uint64(p.i)*8
}

func (w *Worker) noteFn(f *ssa.Function) {
	if w.fnNoted[f] {
		return
	}
	w.fnNoted[f] = true
	n := f.String()
	if strings.Contains(n, "zzvk") || strings.Contains(n, "golearn/zzg") || strings.HasSuffix(n, ".init") {
		return
	}
	if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/sjwhitworth/golearn") || strings.Contains(n, "sjwhitworth/golearn") {
		w.usedFns[strings.ReplaceAll(n, "github.com/sjwhitworth/golearn/", "")] = true
	}
}

func (w *Worker) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := mkey{t, name}
	if pkg != nil && !token_IsExported(name) {
		k.n = pkg.Path() + "." + name
	}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.prog.LookupMethod(t, pkg, name)
	w.methods[k] = f
	return f
}
func token_IsExported(n string) bool { return n[0] >= 'A' && n[0] <= 'Z' }

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := ikey{t, i}
	if b, ok := w.impls[k]; ok {
		return b
	}
	b := types.Implements(t, i)
	w.impls[k] = b
	return b
}

func (w *Worker) fnByName(pkg, name string) *ssa.Function {
	p := w.P.pkgs[pkg]
	if p == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	return p.Func(name)
}

func (w *Worker) isShared(p *ssa.Package) bool {
	if s, ok := w.sharedPk[p]; ok {
		return s
	}
	path := p.Pkg.Path()
	s := !strings.Contains(strings.SplitN(path, "/", 2)[0], ".")
	w.sharedPk[p] = s
	return s
}

func (w *Worker) runPath(p pend) {
	x := w.x
	in := &Interp{w: w, tb: w.tb, prefix: p.prefix, model: p.model, globals: map[*ssa.Global]*Agg{}, inited: map[*ssa.Package]bool{},
		opts: map[string]int{}, side: map[*Agg]interface{}{}, assertSet: map[string]int{}, maxSteps: 3000000, tokens: map[string]interface{}{}, covers: map[string]bool{}, gdone: make(chan struct{})}
	in.ev = &evaluator{m: in.model, memo: map[*Term]uint64{}}
	main := &G{wake: make(chan struct{})}
	in.gs = []*G{main}
	in.cur = main
	w.solver.ufLevel = 0
	end := pathEnd{kind: "done"}
	var tp *targetPanic
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case pathEnd:
					end = e
				case targetPanic:
					tp = &e
				case specAbort:
					end = pathEnd{"unsupported", "spec abort escaped"}
				default:
					if debugOn {
						fmt.Println("internal error in", in.trace())
						panic(r)
					}
					end = pathEnd{"unsupported", fmt.Sprintf("internal: %v at %s", r, in.trace())}
				}
			}
		}()
		in.callFn(x.harness, nil, nil)
	}()
	tr := in.trace()
	in.spec = 0
	if tp != nil {
		msg := in.panicString(*tp)
		if in.di >= len(in.prefix) {
			in.report("panic", "panic", msg, tr)
		}
		end.kind = "violation"
	}
	if end.kind == "steps" && in.di >= len(in.prefix) {
		in.report("hang", "hang", end.msg, tr)
	}
	in.killGoroutines()
	x.mu.Lock()
	defer x.mu.Unlock()
	x.paths++
	x.steps += int64(in.steps)
	x.asserts += in.asserts
	for l, n := range in.assertSet {
		x.assertLab[l] += n
	}
	for c := range in.covers {
		x.covers[c] = true
	}
	if in.nvar > x.maxVars {
		x.maxVars = in.nvar
	}
	switch end.kind {
	case "done":
		x.completed++
		if len(x.samples) < 3 {
			x.samples = append(x.samples, in.sample())
			var l []InputRec
			ok := true
			for _, r := range in.inputs {
				r2 := r
				if r.t != nil {
					v, k := in.eval(r.t)
					ok = ok && k
					r2.fix = v
				}
				l = append(l, r2)
			}
			if ok && in.w.solver.ufLevel == 0 {
				x.sampleIn = append(x.sampleIn, l)
			}
		}
	case "assume":
		x.infeas++
	case "unsupported":
		x.unsup[end.msg]++
	case "steps":
		x.stepsHit++
	case "solver":
		x.solverUnk++
	}
	if debugOn {
		fmt.Printf("path %d end=%s %s steps=%d decs=%d pc=%d trace=%s\n", x.paths, end.kind, end.msg, in.steps, len(in.decs), len(in.pc), tr)
	}
}

func (in *Interp) sample() string {
	var s []string
	for i, r := range in.inputs {
		if i > 12 {
			s = append(s, "…")
			break
		}
		v := r.fix
		if r.t != nil {
			v = in.ev.ev(r.t)
		}
		s = append(s, fmt.Sprintf("%s=%#x", r.Name, v))
	}
	return fmt.Sprintf("path with %d constraints, e.g. %s", len(in.pc), strings.Join(s, " "))
}

// ---- choices
func (in *Interp) setModel(m *Model) {
	in.model = m
	in.ev = &evaluator{m: m, memo: map[*Term]uint64{}, uf: in.w.solver.ufLevel}
}

func (in *Interp) eval(t *Term) (uint64, bool) {
	in.ev.fail = false
	v := in.ev.ev(t)
	if in.ev.fail {
		in.ev = &evaluator{m: in.model, memo: map[*Term]uint64{}, uf: in.w.solver.ufLevel}
		return 0, false
	}
	return v, true
}

func (in *Interp) check(extra *Term) (Res, *Model) {
	t0 := time.Now()
	r, m := in.w.solver.Check(in.pc, extra)
	if debugOn && time.Since(t0) > 3*time.Second {
		fn := ""
		if n := len(in.curFn); n > 0 {
			fn = in.curFn[n-1].String()
		}
		fmt.Fprintf(os.Stderr, "SLOW %v in %s: %s\n", time.Since(t0), fn, extra.show(14))
		for _, c := range in.pc {
			if k := 0; hasInexact(c, &k) {
				fmt.Fprintf(os.Stderr, "   given %s\n", c.show(8))
			}
		}
	}
	if m != nil {
		// keep values of variables the solver has not seen
		for k, v := range in.model.v {
			if _, ok := m.v[k]; !ok {
				m.v[k] = v
			}
		}
	}
	return r, m
}

func (in *Interp) pend(d Decision, m *Model) {
	p := make([]Decision, len(in.decs)+1)
	copy(p, in.decs)
	p[len(in.decs)] = d
	in.w.local = append(in.w.local, pend{p, m})
}

func cloneModel(m *Model) *Model {
	n := &Model{v: make(map[string]uint64, len(m.v))}
	for k, v := range m.v {
		n.v[k] = v
	}
	return n
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (in *Interp) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if in.initDepth > 0 {
		panic(unsupported("symbolic branch in package initialisation"))
	}
	if in.di < len(in.prefix) {
		d := in.prefix[in.di]
		if d.K != 'b' {
			panic(unsupported("replay divergence"))
		}
		in.di++
		in.decs = append(in.decs, d)
		if !d.Implied {
			if d.V == 1 {
				in.pc = append(in.pc, c)
			} else {
				in.pc = append(in.pc, in.tb.Not(c))
			}
		}
		return d.V == 1
	}
	side, ok := in.eval(c)
	if !ok {
		// no usable model: ask for the true side first
		r, m := in.check(c)
		switch r {
		case Sat:
			in.setModel(m)
			side = 1
		case Unsat:
			side = 0
			in.decs = append(in.decs, Decision{K: 'b', V: 0, Implied: true})
			in.di = len(in.decs)
			return false
		default:
			panic(pathEnd{"solver", "unknown"})
		}
	}
	t, o := c, in.tb.Not(c)
	if side == 0 {
		t, o = o, t
	}
	r, m := in.check(o)
	switch r {
	case Sat:
		in.pend(Decision{K: 'b', V: 1 - side}, m)
		in.decs = append(in.decs, Decision{K: 'b', V: side})
		in.pc = append(in.pc, t)
	case Unsat:
		in.decs = append(in.decs, Decision{K: 'b', V: side, Implied: true})
	default:
		// the other side is undecided: it is counted as not explored
		in.w.x.mu.Lock()
		in.w.x.solverUnk++
		in.w.x.mu.Unlock()
		in.decs = append(in.decs, Decision{K: 'b', V: side})
		in.pc = append(in.pc, t)
	}
	in.di = len(in.decs)
	return side == 1
}

// choose is a nondeterministic choice among n alternatives.
func (in *Interp) choose(n int) int {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if n <= 1 {
		return 0
	}
	if in.di < len(in.prefix) {
		d := in.prefix[in.di]
		if d.K != 'c' {
			panic(unsupported("replay divergence"))
		}
		in.di++
		in.decs = append(in.decs, d)
		return int(d.V)
	}
	for k := n - 1; k >= 1; k-- {
		in.pend(Decision{K: 'c', V: uint64(k)}, cloneModel(in.model))
	}
	in.decs = append(in.decs, Decision{K: 'c', V: 0})
	in.di = len(in.decs)
	return 0
}

// concretize picks a concrete value of t, forking over all feasible ones.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	w := int(t.sort)
	var excl []uint64
	if in.di < len(in.prefix) {
		d := in.prefix[in.di]
		if d.K != 'v' {
			panic(unsupported("replay divergence"))
		}
		in.di++
		if !d.Open {
			in.decs = append(in.decs, d)
			in.pc = append(in.pc, in.tb.Eq(t, in.tb.BV(d.V, w)))
			return d.V
		}
		excl = d.Excl
	}
	v, ok := in.eval(t)
	notX := in.tb.tru
	for _, e := range excl {
		notX = in.tb.And(notX, in.tb.Not(in.tb.Eq(t, in.tb.BV(e, w))))
	}
	if !ok {
		r, m := in.check(notX)
		if r != Sat {
			panic(pathEnd{"solver", "unknown"})
		}
		in.setModel(m)
		v, ok = in.eval(t)
		if !ok {
			panic(unsupported("concretizing an uninterpreted value"))
		}
	}
	rest := in.tb.And(notX, in.tb.Not(in.tb.Eq(t, in.tb.BV(v, w))))
	if len(excl) > 600 {
		panic(unsupported("more than 600 values at " + in.trace()))
	}
	r, m := in.check(rest)
	switch r {
	case Sat:
		in.pend(Decision{K: 'v', Open: true, Excl: append(append([]uint64{}, excl...), v)}, m)
	case Unknown:
		in.w.x.mu.Lock()
		in.w.x.solverUnk++
		in.w.x.mu.Unlock()
	}
	in.decs = append(in.decs, Decision{K: 'v', V: v})
	in.di = len(in.decs)
	if in.di < len(in.prefix) {
		panic("open decision inside prefix")
	}
	in.prefix = in.prefix[:0]
	in.di = len(in.decs)
	in.pc = append(in.pc, in.tb.Eq(t, in.tb.BV(v, w)))
	return v
}

func (in *Interp) concInt(t *Term) int64 {
	return sx(in.concretize(t), int(t.sort))
}

func (in *Interp) inPrefix() bool { return in.di < len(in.prefix) }

func (in *Interp) assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if in.inPrefix() {
		in.pc = append(in.pc, c)
		return
	}
	if v, ok := in.eval(c); ok && v == 1 {
		in.pc = append(in.pc, c)
		return
	}
	r, m := in.check(c)
	switch r {
	case Sat:
		in.setModel(m)
		in.pc = append(in.pc, c)
	case Unsat:
		panic(pathEnd{"assume", ""})
	default:
		panic(pathEnd{"solver", "assume"})
	}
}

func (in *Interp) assert(c *Term, label string) {
	in.asserts++
	in.assertSet[label]++
	if c.isConst() && c.val == 1 {
		return
	}
	if in.inPrefix() {
		if c.isConst() {
			panic(pathEnd{"violation", label})
		}
		in.pc = append(in.pc, c) // as the first visit did after discharging it
		return
	}
	tr := in.trace()
	if c.isConst() {
		in.report("assert", label, "", tr)
		panic(pathEnd{"violation", label})
	}
	if v, ok := in.eval(c); ok && v == 0 {
		in.report("assert", label, "", tr)
	} else {
		r, m := in.check(in.tb.Not(c))
		switch r {
		case Sat:
			old := in.model
			in.setModel(m)
			in.report("assert", label, "", tr)
			in.setModel(old)
		case Unknown:
			in.w.x.mu.Lock()
			in.w.x.solverUnk++
			in.w.x.unsup["solver gave no answer for assertion "+label]++
			in.w.x.mu.Unlock()
		}
	}
	// continue on the side where it holds
	if v, ok := in.eval(c); !(ok && v == 1) {
		r, m := in.check(c)
		if r != Sat {
			panic(pathEnd{"violation", label})
		}
		in.setModel(m)
	}
	in.pc = append(in.pc, c)
}

// possible notes that c can hold on this path (for some draws and schedule).
// An outcome no explored path allows is a violation of the harness.
func (in *Interp) possible(c *Term, label string) {
	x := in.w.x
	in.asserts++
	in.assertSet[label]++
	x.mu.Lock()
	v, seen := x.poss[label]
	x.mu.Unlock()
	if seen && v == nil {
		return
	}
	can := false
	if b, ok := in.eval(c); ok && b == 1 {
		can = true
	} else if !c.isConst() {
		r, _ := in.check(c)
		can = r != Unsat
	}
	if !can && !seen {
		v = in.violation("possible", label, "no draws lead to it", in.trace())
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	if can {
		x.poss[label] = nil
	} else if _, seen = x.poss[label]; !seen {
		x.poss[label] = v
	}
}

func (in *Interp) violation(kind, label, msg, trace string) *Violation {
	x := in.w.x
	v := &Violation{Harness: x.harness.Name(), Label: label, Kind: kind, Msg: msg, Trace: trace, Opts: in.opts}
	// complete the model: a solver model for the current path condition
	for _, r := range in.inputs {
		r2 := r
		if r.t != nil {
			val, ok := in.eval(r.t)
			if !ok {
				val = 0
			}
			r2.fix = val
		}
		v.Inputs = append(v.Inputs, r2)
	}
	return v
}

func (in *Interp) report(kind, label, msg, trace string) {
	x := in.w.x
	v := in.violation(kind, label, msg, trace)
	x.mu.Lock()
	defer x.mu.Unlock()
	key := kind + "|" + label
	n := 0
	for _, o := range x.viol {
		if o.Kind+"|"+o.Label == key {
			n++
		}
	}
	if n >= 4 { // a few concrete candidates per label are enough
		return
	}
	x.viol = append(x.viol, v)
	if len(x.viol) >= 40 {
		x.stop = true
	}
}

func (in *Interp) panicString(tp targetPanic) string {
	i, ok := tp.v.(Iface)
	if !ok {
		return "?"
	}
	if i.t == nil {
		return "nil"
	}
	var s string
	func() {
		defer func() {
			if r := recover(); r != nil {
				s = i.t.String()
			}
		}()
		st := in.steps
		s = in.fmtValue(i, 'v', "")
		in.steps = st
	}()
	return s
}

var _ = sort.Strings
