package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

type SolverStats struct {
	queries, sat, unsat, unknown int
	dur                          time.Duration
	maxDur                       time.Duration
	errors                       []string
}

// Solver drives one persistent SMT process with an assertion stack that
// mirrors the path condition.
type Solver struct {
	tb       *TB
	cmdline  []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	stack    []*Term
	emitted  map[*Term]int
	levels   [][]*Term
	sideCond map[*Term]bool
	timeout  time.Duration
	stats    SolverStats
	log      io.Writer
	ufLevel  int // 0 exact FP, 1 mul/div/sqrt uninterpreted, 2 also add/sub
	dead     bool
	ufDecl   map[string]bool
	varsOn   []*Term // vars emitted, with level in emitted
}

func newSolver(tb *TB, cmdline []string, timeout time.Duration) *Solver {
	return &Solver{tb: tb, cmdline: cmdline, timeout: timeout}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.emitted = map[*Term]int{}
	s.levels = [][]*Term{nil}
	s.ufDecl = map[string]bool{}
	s.varsOn = nil
	s.w("(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(s.cmdline[0], "z3") {
		s.w(fmt.Sprintf("(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout.Milliseconds()))
	}
	for _, l := range []string{"uf_mul", "uf_div", "uf_add", "uf_sub"} {
		s.w("(declare-fun " + l + " (" + SF64.String() + " " + SF64.String() + ") " + SF64.String() + ")\n")
	}
	s.w("(declare-fun uf_sqrt (" + SF64.String() + ") " + SF64.String() + ")\n")
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) w(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) name(t *Term) string {
	switch t.op {
	case OConst:
		return constSMT(t)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func constSMT(t *Term) string {
	switch {
	case t.sort == SBool:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case t.sort == SF64:
		f := math.Float64frombits(t.val)
		if math.IsNaN(f) {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	case t.sort == SF32:
		f := math.Float32frombits(uint32(t.val))
		if f != f {
			return "(_ NaN 8 24)"
		}
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
	}
	w := int(t.sort)
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", w, t.val)
}

func (s *Solver) lvl() int { return len(s.levels) - 1 }

func (s *Solver) mark(t *Term) {
	s.emitted[t] = s.lvl()
	s.levels[s.lvl()] = append(s.levels[s.lvl()], t)
}

// emit makes sure the solver knows t under its name.
func (s *Solver) emit(t *Term) {
	if t.op == OConst {
		return
	}
	if _, ok := s.emitted[t]; ok {
		return
	}
	if t.op == OVar {
		s.w(fmt.Sprintf("(declare-fun |%s| () %s)\n", t.name, t.sort))
		s.mark(t)
		return
	}
	// iterative post-order would be safer for very deep terms; depth here is modest
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.emit(x)
		}
	}
	a, b, c := "", "", ""
	if t.a != nil {
		a = s.name(t.a)
	}
	if t.b != nil {
		b = s.name(t.b)
	}
	if t.c != nil {
		c = s.name(t.c)
	}
	fpw := func(x Sort) string {
		if x == SF32 {
			return "8 24"
		}
		return "11 53"
	}
	var e string
	switch t.op {
	case ONot, OBvNot, OBvNeg:
		e = fmt.Sprintf("(%s %s)", opSMT[t.op], a)
	case OIte:
		e = fmt.Sprintf("(ite %s %s %s)", a, b, c)
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, a)
	case OZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", int(t.sort)-int(t.a.sort), a)
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", int(t.sort)-int(t.a.sort), a)
	case OFBits:
		e = fmt.Sprintf("((_ to_fp %s) %s)", fpw(t.sort), a)
	case OFInt:
		e = fmt.Sprintf("((_ to_fp 11 53) RNE %s)", a)
		if t.val != 0 {
			e = fmt.Sprintf("(fp.mul RNE %s ((_ to_fp 11 53) #x%016x))", e, math.Float64bits(math.Ldexp(1, -int(t.val))))
		}
	case OFToBits:
		s.w(fmt.Sprintf("(declare-fun t%d () %s)\n(assert (= ((_ to_fp %s) t%d) %s))\n", t.id, t.sort, fpw(t.a.sort), t.id, a))
		s.mark(t)
		return
	case OFAdd, OFSub:
		if s.ufLevel >= 2 && t.sort == SF64 {
			n := "uf_add"
			if t.op == OFSub {
				n = "uf_sub"
			}
			e = fmt.Sprintf("(%s %s %s)", n, a, b)
		} else {
			n := "fp.add"
			if t.op == OFSub {
				n = "fp.sub"
			}
			e = fmt.Sprintf("(%s RNE %s %s)", n, a, b)
		}
	case OFMul, OFDiv:
		n := "mul"
		if t.op == OFDiv {
			n = "div"
		}
		if s.ufLevel >= 1 && t.sort == SF64 {
			e = fmt.Sprintf("(uf_%s %s %s)", n, a, b)
		} else {
			e = fmt.Sprintf("(fp.%s RNE %s %s)", n, a, b)
		}
	case OFSqrt:
		if s.ufLevel >= 1 {
			e = fmt.Sprintf("(uf_sqrt %s)", a)
		} else {
			e = fmt.Sprintf("(fp.sqrt RNE %s)", a)
		}
	case OFNeg:
		e = fmt.Sprintf("(fp.neg %s)", a)
	case OFAbs:
		e = fmt.Sprintf("(fp.abs %s)", a)
	case OFLt:
		e = fmt.Sprintf("(fp.lt %s %s)", a, b)
	case OFLe:
		e = fmt.Sprintf("(fp.leq %s %s)", a, b)
	case OFEq:
		e = fmt.Sprintf("(fp.eq %s %s)", a, b)
	case OFIsNaN:
		e = fmt.Sprintf("(fp.isNaN %s)", a)
	case OFRound:
		m := []string{"RTN", "RTP", "RTZ", "RNE", "RNA"}[t.val]
		e = fmt.Sprintf("(fp.roundToIntegral %s %s)", m, a)
	case OFToSBV:
		e = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", int(t.sort), a)
	case OFToUBV:
		e = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", int(t.sort), a)
	case OFFromSBV:
		e = fmt.Sprintf("((_ to_fp %s) RNE %s)", fpw(t.sort), a)
	case OFFromUBV:
		e = fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpw(t.sort), a)
	case OFConv:
		e = fmt.Sprintf("((_ to_fp %s) RNE %s)", fpw(t.sort), a)
	case OUF:
		key := t.name
		if !s.ufDecl[key] {
			// declared at the base level would need a pop; declare per level
			s.declUF(t)
		}
		if t.b != nil {
			e = fmt.Sprintf("(|%s| %s %s)", t.name, a, b)
		} else {
			e = fmt.Sprintf("(|%s| %s)", t.name, a)
		}
	default:
		n, ok := opSMT[t.op]
		if !ok {
			panic(fmt.Sprintf("emit op %d", t.op))
		}
		e = fmt.Sprintf("(%s %s %s)", n, a, b)
	}
	s.w(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, t.sort, e))
	s.mark(t)
}

// declUF declares an uninterpreted function; its declaration lives on the
// level it was made, tracked by a pseudo-term.
func (s *Solver) declUF(t *Term) {
	p := s.tb.mk(OVar, 255, 0, nil, nil, nil, "uf:"+t.name)
	if _, ok := s.emitted[p]; ok {
		return
	}
	args := t.a.sort.String()
	if t.b != nil {
		args += " " + t.b.sort.String()
	}
	s.w(fmt.Sprintf("(declare-fun |%s| (%s) %s)\n", t.name, args, t.sort))
	s.mark(p)
}

func (s *Solver) push() {
	s.w("(push 1)\n")
	s.levels = append(s.levels, nil)
}
func (s *Solver) pop(n int) {
	if n <= 0 {
		return
	}
	s.w(fmt.Sprintf("(pop %d)\n", n))
	for i := 0; i < n; i++ {
		l := s.lvl()
		for _, t := range s.levels[l] {
			delete(s.emitted, t)
		}
		s.levels = s.levels[:l]
	}
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	s.pop(len(s.stack) - k)
	s.stack = s.stack[:k]
	for ; k < len(pc); k++ {
		s.push()
		s.emit(pc[k])
		s.w(fmt.Sprintf("(assert %s)\n", s.name(pc[k])))
		s.stack = append(s.stack, pc[k])
	}
}

// dump writes a query to a file, for debugging.
func (s *Solver) dump(file string, pc []*Term, extra *Term) {
	var b bytes.Buffer
	d := &Solver{tb: s.tb, ufLevel: s.ufLevel, in: bufio.NewWriter(&b), emitted: map[*Term]int{}, levels: [][]*Term{nil}, ufDecl: map[string]bool{}}
	for _, t := range append(append([]*Term{}, pc...), extra) {
		if t != nil {
			d.emit(t)
			d.w(fmt.Sprintf("(assert %s)\n", d.name(t)))
		}
	}
	d.w("(check-sat)\n")
	d.in.Flush()
	os.WriteFile(file, b.Bytes(), 0o644)
}

// Check decides pc ∧ extra. On Sat a model of all emitted variables is returned.
func (s *Solver) Check(pc []*Term, extra *Term) (Res, *Model) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			panic(err)
		}
	}
	t0 := time.Now()
	s.sync(pc)
	s.push()
	if extra != nil {
		s.emit(extra)
		s.w(fmt.Sprintf("(assert %s)\n", s.name(extra)))
	}
	s.w("(check-sat)\n")
	r, err := s.line()
	s.stats.queries++
	res := Unknown
	var m *Model
	switch {
	case err != nil:
		s.stats.errors = append(s.stats.errors, err.Error())
	case r == "sat":
		res = Sat
		m = s.model()
		if m == nil {
			res = Unknown
		}
	case r == "unsat":
		res = Unsat
	case r == "unknown" || r == "timeout":
	default:
		s.stats.errors = append(s.stats.errors, r)
	}
	if err != nil || len(s.stats.errors) > 0 && res == Unknown && r != "unknown" && r != "timeout" {
		s.close()
	} else {
		s.pop(1)
	}
	d := time.Since(t0)
	s.stats.dur += d
	if d > s.stats.maxDur {
		s.stats.maxDur = d
	}
	switch res {
	case Sat:
		s.stats.sat++
	case Unsat:
		s.stats.unsat++
	default:
		s.stats.unknown++
		if dir := os.Getenv("GOSYM_SLOW"); dir != "" {
			s.dump(filepath.Join(dir, fmt.Sprintf("q%d.smt2", time.Now().UnixNano())), pc, extra)
		}
		// a fresh process: z3 after a timeout can be in a slow state
		s.close()
	}
	return res, m
}

func (s *Solver) line() (string, error) {
	s.in.Flush()
	type rl struct {
		s string
		e error
	}
	ch := make(chan rl, 1)
	go func() {
		for {
			l, err := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if l == "" && err == nil {
				continue
			}
			ch <- rl{l, err}
			return
		}
	}()
	select {
	case r := <-ch:
		if r.e != nil {
			return r.s, r.e
		}
		return r.s, nil
	case <-time.After(s.timeout*2 + 5*time.Second):
		return "", fmt.Errorf("solver did not answer in time")
	}
}

func (s *Solver) model() *Model {
	var vs []*Term
	for t := range s.emitted {
		if t.op == OVar && t.sort < 100 {
			vs = append(vs, t)
		}
	}
	m := &Model{v: map[string]uint64{}}
	if len(vs) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vs {
		sb.WriteString(s.name(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.w(sb.String())
	s.in.Flush()
	txt, err := readSexp(s.out)
	if err != nil || strings.HasPrefix(txt, "(error") {
		s.stats.errors = append(s.stats.errors, fmt.Sprint("model: ", err, txt))
		return nil
	}
	// ((|x| #x..) (|y| true) ...)
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '(')
		if j < 0 {
			break
		}
		i += j + 1
		if i < len(txt) && txt[i] == '(' {
			continue
		}
		var name string
		if txt[i] == '|' {
			e := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+e]
			i += e + 2
		} else {
			e := strings.IndexAny(txt[i:], " \t\n")
			name = txt[i : i+e]
			i += e
		}
		e := strings.IndexByte(txt[i:], ')')
		val := strings.TrimSpace(txt[i : i+e])
		i += e + 1
		var v uint64
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %q", val)
		}
		if err != nil {
			s.stats.errors = append(s.stats.errors, err.Error())
			return nil
		}
		m.v[name] = v
	}
	return m
}

func readSexp(r *bufio.Reader) (string, error) {
	depth := 0
	var sb strings.Builder
	inBar := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if sb.Len() == 0 && (c == '\n' || c == ' ' || c == '\r') {
			continue
		}
		sb.WriteByte(c)
		if inBar {
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}
