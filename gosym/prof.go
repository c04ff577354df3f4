package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
)

// With GOSYM_PROF set, the instructions executed per function are printed at the end.
var (
	profMu    sync.Mutex
	profSteps map[string]int
)

func init() {
	if os.Getenv("GOSYM_PROF") != "" {
		profSteps = map[string]int{}
	}
}

// With GOSYM_COV set to a file, the blocks of the repository's functions that
// ran, and those that did not, are appended to it.
var (
	covOn  = os.Getenv("GOSYM_COV") != ""
	covMu  sync.Mutex
	covFns = map[string]map[string]bool{} // function -> block and line -> ran
)

func (w *Worker) noteCov() {
	for _, c := range w.fns {
		if c != nil && strings.Contains(c.fn.String(), "sjwhitworth/golearn") {
			noteFnCov(c)
		}
	}
}

func noteFnCov(c *cfn) {
	covMu.Lock()
	defer covMu.Unlock()
	n := c.fn.String()
	if covFns[n] == nil {
		covFns[n] = map[string]bool{}
	}
	for _, b := range c.blks {
		k, ln := "", 0
		for _, ins := range b.b.Instrs {
			if p := c.fn.Prog.Fset.Position(ins.Pos()); p.Line > 0 && (ln == 0 || p.Line < ln) {
				k, ln = fmt.Sprintf("%s:%d", p.Filename, p.Line), p.Line
			}
		}
		k = fmt.Sprintf("%d %s %s", b.b.Index, b.b.Comment, k)
		covFns[n][k] = covFns[n][k] || b.seen
	}
}

func printCov() {
	if !covOn {
		return
	}
	f, err := os.OpenFile(os.Getenv("GOSYM_COV"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	for n, bs := range covFns {
		for k, ok := range bs {
			fmt.Fprintf(f, "%s\t%s\t%v\n", n, k, ok)
		}
	}
}

func printProf() {
	var ns []string
	for n := range profSteps {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return profSteps[ns[i]] > profSteps[ns[j]] })
	for i, n := range ns {
		if i < 25 {
			fmt.Println("prof", profSteps[n], n)
		}
	}
}
