package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sjwhitworth/golearn"

type Program struct {
	ssa  *ssa.Program
	pkgs map[string]*ssa.Package
}

// Config says where things are.
type Config struct {
	repo    string
	verif   string
	work    string // scratch directory of this run
	prop    string
	tier    int
	overlay map[string]string // path in /repo -> real file
	hpkgs   map[string]bool   // package directories with harnesses
	hfiles  []string
	dropped []string
}

// prepare collects the harness files of the property and makes private copies
// of go.mod and go.sum.
func (c *Config) prepare() error {
	c.overlay = map[string]string{}
	c.hpkgs = map[string]bool{}
	root := filepath.Join(c.verif, "harness")
	low := strings.ToLower(c.prop)
	commons := map[string][]string{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		n := filepath.Base(p)
		switch {
		case rel == "zzg":
			// shared grid builders, importable by the harnesses of every package but base
			c.overlay[filepath.Join(c.repo, rel, n)] = p
		case strings.HasPrefix(n, low+"_"):
			c.hpkgs[rel] = true
			c.overlay[filepath.Join(c.repo, rel, "zz_"+n)] = p
			c.hfiles = append(c.hfiles, p)
		case strings.HasPrefix(n, "common"):
			commons[rel] = append(commons[rel], p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	for rel := range c.hpkgs {
		for _, p := range commons[rel] {
			c.overlay[filepath.Join(c.repo, rel, "zz_"+filepath.Base(p))] = p
		}
	}
	c.overlay[filepath.Join(c.repo, "zzvk/zzvk.go")] = filepath.Join(c.verif, "gosym/native/zzvk.go.txt")
	if err := os.MkdirAll(c.work, 0o755); err != nil {
		return err
	}
	mod, err := os.ReadFile(filepath.Join(c.repo, "go.mod"))
	if err != nil {
		return err
	}
	sum, _ := os.ReadFile(filepath.Join(c.repo, "go.sum"))
	extra, _ := os.ReadFile(filepath.Join(c.verif, "gosym/native/extra.sum"))
	set := map[string]bool{}
	for _, l := range strings.Split(string(sum)+"\n"+string(extra), "\n") {
		if len(strings.Fields(l)) == 3 {
			set[l] = true
		}
	}
	var ls []string
	for l := range set {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	if err := os.WriteFile(filepath.Join(c.work, "golearn.mod"), mod, 0o644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(c.work, "golearn.sum"), []byte(strings.Join(ls, "\n")+"\n"), 0o644)
}

func (c *Config) env() []string {
	var e []string
	for _, s := range os.Environ() {
		if strings.HasPrefix(s, "GOFLAGS=") || strings.HasPrefix(s, "GODEBUG=") || strings.HasPrefix(s, "GOPROXY=") || strings.HasPrefix(s, "GOTOOLCHAIN=") || strings.HasPrefix(s, "GO111MODULE=") || strings.HasPrefix(s, "GOWORK=") {
			continue
		}
		e = append(e, s)
	}
	return append(e, "GOFLAGS=-modfile="+filepath.Join(c.work, "golearn.mod")+" -mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED=1", "GOWORK=off")
}

func (c *Config) overlayBytes() (map[string][]byte, error) {
	r := map[string][]byte{}
	for k, v := range c.overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		r[k] = b
	}
	return r, nil
}

func (c *Config) load() (*Program, error) {
	for {
		ov, err := c.overlayBytes()
		if err != nil {
			return nil, err
		}
		var pats []string
		for p := range c.hpkgs {
			pats = append(pats, modPath+strings.TrimSuffix("/"+p, "/."))
		}
		sort.Strings(pats)
		pats = append(pats, "unicode/utf8", "errors", "runtime", "sort", "os", "strconv", "strings", "io", vkPath)
		pc := &packages.Config{Mode: packages.LoadAllSyntax, Dir: c.repo, Env: c.env(), Overlay: ov,
			BuildFlags: []string{"-tags=noasm,purego,math_big_pure_go,osusergo,netgo"}}
		ps, err := packages.Load(pc, pats...)
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var other []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				hit := false
				for k := range c.overlay {
					if strings.Contains(e.Pos, filepath.Join(filepath.Base(filepath.Dir(k)), filepath.Base(k))+":") && strings.Contains(filepath.Base(k), "zz_") {
						bad[k] = e.Error()
						hit = true
					}
				}
				if !hit && strings.HasPrefix(p.PkgPath, modPath) {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 {
			// a harness that no longer fits the code is set aside; the rest still decide
			for k, e := range bad {
				c.dropped = append(c.dropped, filepath.Base(k)+": "+e)
				delete(c.overlay, k)
				fmt.Fprintln(os.Stderr, "harness set aside:", e)
			}
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("%s", strings.Join(other, "\n"))
		}
		prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		P := &Program{ssa: prog, pkgs: map[string]*ssa.Package{}}
		for _, p := range prog.AllPackages() {
			P.pkgs[p.Pkg.Path()] = p
		}
		return P, nil
	}
}

// harnesses lists the entry points VH_<PROP>_* in loaded packages.
func (c *Config) harnesses(P *Program) []*ssa.Function {
	var r []*ssa.Function
	for rel := range c.hpkgs {
		p := P.pkgs[modPath+strings.TrimSuffix("/"+rel, "/.")]
		if p == nil {
			continue
		}
		for n, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "VH_"+c.prop+"_") {
				r = append(r, f)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func goBin() string {
	if p, err := exec.LookPath("go"); err == nil {
		return p
	}
	return "/opt/veriftools/go1.27.3/bin/go"
}

var _ = bytes.NewReader
