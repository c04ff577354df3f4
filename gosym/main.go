package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	rc := realMain()
	printProf()
	printCov()
	os.Exit(rc)
}

type finding struct {
	Status   string `json:"status"`
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Package  string   `json:"package"`
	Label    string   `json:"label"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Trace    string   `json:"trace"`
	Tier     int      `json:"tier"`
	Inputs   []recOut `json:"inputs"`
	Native   string   `json:"native_output"`
	HowTo    string   `json:"how_to"`
}
type recOut struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

func recs(l []InputRec) []recOut {
	r := []recOut{}
	for _, x := range l {
		r = append(r, recOut{x.Name, x.Kind, x.fix})
	}
	return r
}

type hres struct {
	Name      string   `json:"harness"`
	Bounds    string   `json:"bounds"`
	Outside   string   `json:"outside,omitempty"`
	Paths     int      `json:"paths"`
	Completed int      `json:"paths_completed"`
	Infeas    int      `json:"paths_cut_by_assumptions"`
	Asserts   int      `json:"assertions_checked"`
	Queries   int      `json:"queries"`
	Sat       int      `json:"sat"`
	Unsat     int      `json:"unsat"`
	Unknown   int      `json:"unknown"`
	SolverS   float64  `json:"solver_s"`
	WallS     float64  `json:"wall_s"`
	Exhausted bool     `json:"all_paths_within_bounds_explored"`
	Unsup     []string `json:"not_encoded,omitempty"`
	Validated int      `json:"traces_validated"`
	Mismatch  []string `json:"trace_mismatches,omitempty"`
	Inconcl   []string `json:"candidates_not_reproduced,omitempty"`
	Steps     int64    `json:"ssa_instructions"`
	MaxVars   int      `json:"max_symbolic_inputs"`
	Sample    []string `json:"reachability_witnesses"`
}

func docOf(f *ssa.Function) (bounds, outside string, tq, tt float64) {
	d, ok := f.Syntax().(*ast.FuncDecl)
	if !ok || d.Doc == nil {
		return
	}
	for _, l := range strings.Split(d.Doc.Text(), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "bounds:"):
			bounds = strings.TrimSpace(l[7:])
		case strings.HasPrefix(l, "outside:"):
			outside = strings.TrimSpace(l[8:])
		case strings.HasPrefix(l, "time:"):
			fs := strings.Fields(l[5:])
			if len(fs) > 0 {
				tq, _ = strconv.ParseFloat(fs[0], 64)
			}
			if len(fs) > 1 {
				tt, _ = strconv.ParseFloat(fs[1], 64)
			}
		}
	}
	return
}

func realMain() int {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gosym check PROPERTY [-tier quick|thorough] | gosym replay FILE")
		return 2
	}
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "only harnesses containing this text")
	keep := fs.Bool("keep", false, "keep the scratch directory")
	all := fs.Bool("all", false, "do not stop at the first violation")
	nw := fs.Int("j", runtime.NumCPU(), "")
	budget := fs.Float64("budget", 0, "seconds for exploration")
	prof := fs.String("cpuprofile", "", "")
	noreplay := fs.Bool("noreplay", false, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(os.Args[3:])
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	work, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if !*keep {
		defer os.RemoveAll(work)
	}
	c := &Config{repo: *repo, verif: *verif, work: work}
	switch os.Args[1] {
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		c.prop, c.tier = rf.Property, rf.Tier
		if err := c.prepare(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		rp := &replayer{c: c}
		var ok bool
		var out string
		if rf.Kind == "possible" {
			ok, out = rp.never(rf.Package, rf.Harness, rf.Inputs, rf.Label)
		} else if rf.Kind == "race" {
			ok, out = rp.races(rf.Package, rf.Harness, rf.Inputs)
		} else {
			ok, out = rp.reproduce(rf.Package, rf.Harness, rf.Inputs, 20)
		}
		fmt.Println(out)
		if ok {
			fmt.Println("reproduced")
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	case "check":
	default:
		return 2
	}
	start := time.Now()
	c.prop = os.Args[2]
	if *tier == "thorough" {
		c.tier = 1
	}
	if err := c.prepare(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	P, err := c.load()
	if err != nil {
		fmt.Fprintln(os.Stderr, "loading:", err)
		return 2
	}
	hs := c.harnesses(P)
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness fits the code for", c.prop)
		return 2
	}
	loadS := time.Since(start).Seconds()
	total := *budget
	if total == 0 {
		total = 180
		if c.tier > 0 {
			total = 780
		}
	}
	var known []finding
	if b, err := os.ReadFile(filepath.Join(*verif, "KNOWN_FINDINGS.json")); err == nil {
		var kf struct {
			Findings []finding `json:"findings"`
		}
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "KNOWN_FINDINGS.json:", err)
			return 2
		}
		known = kf.Findings
	}
	rp := &replayer{c: c}
	var res []*hres
	fns := map[string]bool{}
	covers := map[string]bool{}
	var violLines, knownLines []string
	var violOut []map[string]interface{}
	var st SolverStats
	exit := 0
	var samples []interface{}
	nh := 0
	for hi, h := range hs {
		if *only != "" && !strings.Contains(h.Name(), *only) {
			continue
		}
		nh++
		bounds, outside, tq, tt := docOf(h)
		left := total - time.Since(start).Seconds()
		b := tq
		if c.tier > 0 {
			b = tt
		}
		if b == 0 {
			b = 40
			if c.tier > 0 {
				b = 400
			}
		}
		if m := left / float64(len(hs)-hi) * 2; b > m && len(hs)-hi > 1 {
			b = m
		}
		if b > left {
			b = left
		}
		if b < 2 {
			b = 2
		}
		x := &Explorer{prog: P, repo: c.repo, harness: h, tier: c.tier, deadline: time.Now().Add(time.Duration(b * float64(time.Second))),
			maxPaths: 3000000, solverCmd: []string{"z3-new", "-in"}, timeoutMS: 20000}
		if c.tier > 0 {
			x.timeoutMS = 60000
		}
		t0 := time.Now()
		x.run(*nw)
		r := &hres{Name: h.Name(), Bounds: bounds, Outside: outside, Paths: x.paths, Completed: x.completed, Infeas: x.infeas, Asserts: x.asserts,
			Queries: x.stats.queries, Sat: x.stats.sat, Unsat: x.stats.unsat, Unknown: x.stats.unknown, SolverS: rnd(x.stats.dur.Seconds()), WallS: rnd(time.Since(t0).Seconds()),
			Steps: x.steps, MaxVars: x.maxVars, Sample: x.samples}
		r.Exhausted = !x.truncated && len(x.unsup) == 0 && x.stepsHit == 0 && x.solverUnk == 0 && (!x.stop || x.paths == 0 || len(x.viol) > 0)
		for k, n := range x.unsup {
			r.Unsup = append(r.Unsup, fmt.Sprintf("%s (%d paths)", k, n))
		}
		if x.truncated {
			r.Unsup = append(r.Unsup, "time budget reached with paths left")
		}
		if x.solverUnk > 0 {
			r.Unsup = append(r.Unsup, fmt.Sprintf("%d queries without a solver answer", x.solverUnk))
		}
		if len(x.stats.errors) > 0 {
			r.Unsup = append(r.Unsup, "solver: "+x.stats.errors[0])
		}
		sort.Strings(r.Unsup)
		for f := range x.fns {
			fns[f] = true
		}
		for f := range x.covers {
			covers[h.Name()+":"+f] = true
		}
		st.queries += x.stats.queries
		st.sat += x.stats.sat
		st.unsat += x.stats.unsat
		st.unknown += x.stats.unknown
		st.dur += x.stats.dur
		res = append(res, r)
		rel := strings.TrimPrefix(strings.TrimPrefix(h.Pkg.Pkg.Path(), modPath), "/")
		if rel == "" {
			rel = "."
		}
		if *verbose || len(r.Unsup) > 0 {
			fmt.Printf("# %s paths=%d done=%d cut=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs viol=%d exhausted=%v %s\n", h.Name(), x.paths, x.completed, x.infeas, x.asserts, x.stats.queries, r.SolverS, r.WallS, len(x.viol), r.Exhausted, strings.Join(r.Unsup, "; "))
		}
		if !*noreplay {
			for _, s := range x.sampleIn {
				out, code := rp.run(rel, h.Name(), recs(s), c.tier)
				if code == 0 {
					r.Validated++
				} else {
					m := fmt.Sprintf("exit %d: %s", code, tail(out, 300))
					r.Mismatch = append(r.Mismatch, m)
					fmt.Printf("# %s: a path without violation does not replay: %s\n", h.Name(), m)
					if *verbose {
						b, _ := json.Marshal(recs(s))
						fmt.Println("#   inputs", string(b))
					}
				}
			}
		}
		for _, s := range x.samples {
			samples = append(samples, h.Name()+": "+s)
		}
		// outcomes which no draws lead to, if all of them were explored
		if r.Exhausted && len(x.viol) == 0 {
			var ls []string
			for l, v := range x.poss {
				if v != nil {
					ls = append(ls, l)
				}
			}
			sort.Strings(ls)
			for _, l := range ls {
				if len(x.viol) < 4 {
					x.viol = append(x.viol, x.poss[l])
				}
			}
		}
		// candidates: replay against the real code
		done := map[string]bool{}
		for _, v := range x.viol {
			key := v.Label
			if done[key] || v.Kind == "possible" && len(done) > 1 {
				continue
			}
			if *noreplay {
				fmt.Printf("# candidate %s %s %s: %s at %s\n", v.Harness, v.Kind, v.Label, v.Msg, v.Trace)
				continue
			}
			var ok bool
			var out string
			if v.Kind == "possible" {
				ok, out = rp.never(rel, v.Harness, recs(v.Inputs), v.Label)
			} else if v.Kind == "race" {
				ok, out = rp.races(rel, v.Harness, recs(v.Inputs))
			} else {
				ok, out = rp.reproduce(rel, v.Harness, recs(v.Inputs), 12)
			}
			if !ok {
				r.Inconcl = append(r.Inconcl, fmt.Sprintf("%s %s: %s [%s]", v.Kind, v.Label, v.Msg, tail(out, 200)))
				fmt.Printf("# %s: candidate %s %q %s did not reproduce on the real code: %s\n", v.Harness, v.Kind, v.Label, v.Msg, tail(out, 200))
				if *verbose {
					b, _ := json.Marshal(recs(v.Inputs))
					fmt.Println("#   inputs", string(b), v.Trace)
				}
				continue
			}
			done[key] = true
			isKnown := false
			for _, f := range known {
				if f.Status == "open" && f.Property == c.prop && f.Harness == v.Harness && f.Label == v.Label {
					isKnown = true
					knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.prop, f.What))
				}
			}
			if isKnown {
				continue
			}
			dir := filepath.Join(*verif, ".build", "replay")
			os.MkdirAll(dir, 0o755)
			p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.prop, v.Harness, len(violLines)))
			rf := replayFile{Property: c.prop, Harness: v.Harness, Package: rel, Label: v.Label, Kind: v.Kind, Msg: v.Msg, Trace: v.Trace, Tier: c.tier, Inputs: recs(v.Inputs), Native: tail(out, 4000), HowTo: "/verif/run.sh replay " + p}
			jb, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(p, jb, 0o644)
			fmt.Printf("# %s: %s %s %s\n#   %s\n", v.Harness, v.Kind, v.Label, v.Msg, strings.ReplaceAll(tail(out, 600), "\n", "\n#   "))
			violLines = append(violLines, fmt.Sprintf("VIOLATION property=%s replay=%s", c.prop, p))
			violOut = append(violOut, map[string]interface{}{"harness": v.Harness, "label": v.Label, "kind": v.Kind, "replay": p})
			exit = 1
		}
		if exit == 1 && !*all {
			break
		}
	}
	if nh == 0 {
		return 2
	}
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	if *only == "" && !*noreplay {
		writeEvidence(c, *tier, seed, res, fns, covers, st, samples, loadS, time.Since(start).Seconds(), violOut, knownLines)
	}
	for _, l := range dedupe(knownLines) {
		fmt.Println(l)
	}
	for _, l := range violLines {
		fmt.Println(l)
	}
	return exit
}

func dedupe(l []string) []string {
	m := map[string]bool{}
	var r []string
	for _, s := range l {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	return r
}

func rnd(f float64) float64 { return float64(int(f*100)) / 100 }

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return s[:n/2] + " … " + s[len(s)-n/2:]
	}
	return s
}

func writeEvidence(c *Config, tier string, seed int, res []*hres, fns, covers map[string]bool, st SolverStats, samples []interface{}, loadS, wall float64, viol []map[string]interface{}, known []string) {
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var cl []string
	for f := range covers {
		cl = append(cl, f)
	}
	sort.Strings(cl)
	var paths, comp, val, asserts int
	var steps int64
	ex := true
	for _, r := range res {
		paths += r.Paths
		comp += r.Completed
		val += r.Validated
		asserts += r.Asserts
		steps += r.Steps
		ex = ex && r.Exhausted
	}
	if len(samples) > 10 {
		samples = samples[:10]
	}
	if samples == nil {
		samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"states": paths, "transitions": steps, "traces_validated_against_impl": val, "samples": samples,
		"functions_encoded": fl, "harnesses": res, "assertions_checked": asserts,
		"queries_discharged": st.queries, "sat": st.sat, "unsat": st.unsat, "unknown": st.unknown, "solver_s": rnd(st.dur.Seconds()),
		"paths_completed": comp, "all_paths_within_bounds_explored": ex, "situations_reached": cl,
		"harness_files_set_aside": c.dropped, "load_and_ssa_s": rnd(loadS), "known_findings_seen": dedupe(known),
		"explanation": "states = symbolic paths explored over the SSA of the current /repo tree; transitions = SSA instructions executed symbolically; each assertion is decided by the SMT solver for every value on its path",
	}
	if viol == nil {
		viol = []map[string]interface{}{}
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": tier, "seed": seed, "level": levelFor(c), "coverage": cov, "wall_s": rnd(wall),
		"assumptions": []string{
			"bounds are those listed per harness; larger sizes are outside",
			"models stand for: assembly and runtime intrinsics, math transcendental functions (uninterpreted), fmt/encoding/json/regexp/gzip framing, an in-memory file system, math/rand as arbitrary draws within the documented range",
			"floats marked FInt/FDyadic range over integers or dyadic fractions in the stated interval, where the code's arithmetic is exact",
		},
		"violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0o644)
}

func levelFor(c *Config) string {
	b, err := os.ReadFile(filepath.Join(c.verif, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		if json.Unmarshal(b, &m) == nil {
			for _, x := range m.Checks {
				if x.Property == c.prop {
					return x.Level
				}
			}
		}
	}
	return "model_checking"
}

// ---- replay on the real code

type replayer struct {
	c         *Config
	bin       string
	built     bool
	err       string
	n         int64
	buildArgs []string
	raceOnce  sync.Once
	raceErr   string
}

func (r *replayer) build() {
	if r.built {
		return
	}
	r.built = true
	c := r.c
	rep := map[string]string{}
	for k, v := range c.overlay {
		rep[k] = v
	}
	rep[filepath.Join(c.repo, "zzrand/zzrand.go")] = filepath.Join(c.verif, "gosym/native/zzrand.go.txt")
	// math/rand draws in the repository follow the recorded ones
	i := 0
	filepath.Walk(c.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && (fi.Name() == ".git" || fi.Name() == "examples") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil || !bytes.Contains(b, []byte(`"math/rand"`)) {
			return nil
		}
		nb := bytes.Replace(b, []byte("\t\"math/rand\""), []byte("\trand \""+modPath+"/zzrand\""), 1)
		nb = bytes.Replace(nb, []byte("import \"math/rand\""), []byte("import rand \""+modPath+"/zzrand\""), 1)
		q := filepath.Join(c.work, fmt.Sprintf("r%d_%s", i, filepath.Base(p)))
		i++
		os.WriteFile(q, nb, 0o644)
		rep[p] = q
		return nil
	})
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\t\"fmt\"\n")
	var cases strings.Builder
	k := 0
	for rel := range c.hpkgs {
		names := r.harnessNames(rel)
		if len(names) == 0 {
			continue
		}
		fmt.Fprintf(&sb, "\tp%d \"%s\"\n", k, modPath+strings.TrimSuffix("/"+rel, "/."))
		for _, n := range names {
			fmt.Fprintf(&cases, "\tcase %q:\n\t\tp%d.%s()\n", rel+":"+n, k, n)
		}
		k++
	}
	sb.WriteString(")\n\nfunc main() {\n\tswitch os.Args[1] {\n" + cases.String() + "\tdefault:\n\t\tos.Exit(81)\n\t}\n\tfmt.Println(\"VK-OK\")\n}\n")
	mp := filepath.Join(c.work, "replay_main.go")
	os.WriteFile(mp, []byte(sb.String()), 0o644)
	rep[filepath.Join(c.repo, "zzreplay/main.go")] = mp
	ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	op := filepath.Join(c.work, "overlay.json")
	os.WriteFile(op, ob, 0o644)
	bin := filepath.Join(c.work, "replay")
	cmd := exec.Command(goBin(), "build", "-overlay", op, "-o", bin, "./zzreplay")
	cmd.Dir = c.repo
	cmd.Env = c.env()
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.err = "replay build failed: " + tail(string(out), 2000)
		fmt.Fprintln(os.Stderr, r.err)
		return
	}
	r.bin = bin
	r.buildArgs = []string{"build", "-race", "-overlay", op, "-o", bin + "-race", "./zzreplay"}
}

// races runs the real code under Go's race detector.
func (r *replayer) races(rel, harness string, inputs []recOut) (bool, string) {
	r.build()
	if r.bin == "" {
		return false, r.err
	}
	r.raceOnce.Do(func() {
		cmd := exec.Command(goBin(), r.buildArgs...)
		cmd.Dir = r.c.repo
		cmd.Env = append(r.c.env(), "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			r.raceErr = "replay build failed: " + tail(string(out), 2000)
		}
	})
	if r.raceErr != "" {
		fmt.Fprintln(os.Stderr, r.raceErr)
		return false, r.raceErr
	}
	last := ""
	for i := 0; i < 20; i++ {
		out, _ := r.run(rel, harness, inputs, r.c.tier, "VK_RACE=1", "GORACE=halt_on_error=1 exitcode=66")
		if last = out; strings.Contains(out, "DATA RACE") || strings.Contains(out, "fatal error: concurrent map") {
			return true, "VK-ASSERT-FAILED " + tail(out, 3000)
		}
	}
	return false, last
}

func (r *replayer) harnessNames(rel string) []string {
	var l []string
	for k, v := range r.c.overlay {
		kr, _ := filepath.Rel(r.c.repo, filepath.Dir(k))
		if kr != rel {
			continue
		}
		b, _ := os.ReadFile(v)
		for _, ln := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(ln, "func VH_"+r.c.prop+"_") {
				n := strings.TrimPrefix(ln, "func ")
				l = append(l, n[:strings.IndexByte(n, '(')])
			}
		}
	}
	sort.Strings(l)
	return l
}

// never runs the real code with the given inputs and fresh draws over and over:
// an outcome that can't happen doesn't.
func (r *replayer) never(rel, harness string, inputs []recOut, label string) (bool, string) {
	var l []recOut
	for _, i := range inputs {
		if i.Kind != "rand" && i.Kind != "randf" {
			l = append(l, i)
		}
	}
	const runs = 400
	var mu sync.Mutex
	n, hangs, last := 0, 0, ""
	ok := true
	r.build()
	var wg sync.WaitGroup
	work := make(chan int)
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range work {
				out, code := r.run(rel, harness, l, r.c.tier, "VK_POSSIBLE="+label, fmt.Sprint("VK_SEED=", i+1))
				mu.Lock()
				switch code {
				case 0:
					n++
				case 124:
					hangs++
				default:
					ok = false
					last = out
				}
				mu.Unlock()
			}
		}()
	}
	for i := 0; i < runs; i++ {
		mu.Lock()
		k := ok && hangs < 4
		mu.Unlock()
		if !k {
			break
		}
		work <- i
	}
	close(work)
	wg.Wait()
	if !ok {
		return false, last
	}
	return true, fmt.Sprintf("VK-ASSERT-FAILED %s: not once in %d runs with random draws, of which %d did not end", label, n+hangs, hangs)
}

func (r *replayer) run(rel, harness string, inputs []recOut, tier int, env ...string) (string, int) {
	r.build()
	if r.bin == "" {
		return r.err, 82
	}
	rn := atomic.AddInt64(&r.n, 1)
	ip := filepath.Join(r.c.work, fmt.Sprintf("in%d.json", rn))
	b, _ := json.Marshal(map[string]interface{}{"tier": tier, "inputs": inputs})
	os.WriteFile(ip, b, 0o644)
	td := filepath.Join(r.c.work, fmt.Sprintf("tmp%d", rn))
	os.MkdirAll(td, 0o755)
	defer os.RemoveAll(td)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	bin, limit := r.bin, "ulimit -v 16000000; "
	for _, e := range env {
		if e == "VK_RACE=1" { // the race detector reserves much address space
			bin, limit = r.bin+"-race", ""
		}
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", limit+"exec \"$0\" \"$@\"", bin, rel+":"+harness)
	cmd.Dir = td
	cmd.Env = append(r.c.env(), "VK_INPUTS="+ip, "VK_TMP="+td, "TMPDIR="+td, "GODEBUG=cgocheck=0")
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return "VK-HANG no end within 20 s\n" + tail(string(out), 500), 124
	}
	code := 0
	if err != nil {
		code = 83
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return string(out), code
}

// reproduce replays until the failure shows; a few attempts cover map order and scheduling.
func (r *replayer) reproduce(rel, harness string, inputs []recOut, tries int) (bool, string) {
	var last string
	for i := 0; i < tries; i++ {
		out, code := r.run(rel, harness, inputs, r.c.tier)
		last = out
		switch code {
		case 77, 124:
			return true, out
		case 2: // Go panic or fatal error
			if strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") {
				return true, out
			}
		case 78, 79, 80, 81, 82:
			return false, out
		}
	}
	return false, last
}
