package main

// Loading: type-checks /repo's current working tree together with the harness files (laid over
// it, never written into it) and builds SSA for everything that is reachable.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type HFile struct {
	path string // absolute, in /verif/harness
	rel  string // relative to the harness root
	prop string
	tags []string
}

var propFile = regexp.MustCompile(`^zz_(P\d\d)[^/]*\.go$`)

// harnessFiles returns the files of one property ("" = none) plus all shared files.
func harnessFiles(root, prop string) (shared, own []HFile) {
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		hf := HFile{path: p, rel: rel, tags: []string{"-"}}
		if b, err := os.ReadFile(p); err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//verif:tags ") {
					hf.tags = strings.Split(strings.TrimSpace(l[len("//verif:tags "):]), ";")
				}
				if strings.HasPrefix(l, "package ") {
					break
				}
			}
		}
		if m := propFile.FindStringSubmatch(filepath.Base(p)); m != nil {
			hf.prop = m[1]
			if m[1] == prop {
				own = append(own, hf)
			}
			return nil
		}
		shared = append(shared, hf)
		return nil
	})
	return
}

type Loaded struct {
	pr        *Program
	harnesses []*Harness
	overlay   map[string]string // target path -> source path
	pkgDirs   []string          // package dirs (relative) that hold harnesses
	tags      string
}

func hasTag(hf HFile, tag string) bool {
	for _, t := range hf.tags {
		if t == tag || t == "*" {
			return true
		}
	}
	return false
}

func load(repo, root, prop, tag, tier string) (*Loaded, error) {
	shared, own := harnessFiles(root, prop)
	ov := map[string][]byte{}
	l := &Loaded{overlay: map[string]string{}, tags: tag}
	dirs := map[string]bool{}
	var use []HFile
	for _, h := range own {
		if hasTag(h, tag) {
			use = append(use, h)
			dirs[filepath.Dir(h.rel)] = true
		}
	}
	for _, h := range shared {
		// shared files of a package join only when they apply to this build variant
		if hasTag(h, tag) || strings.HasPrefix(h.rel, "internal/vrt/") {
			use = append(use, h)
		}
	}
	for _, h := range use {
		b, err := os.ReadFile(h.path)
		if err != nil {
			return nil, err
		}
		t := filepath.Join(repo, h.rel)
		ov[t] = b
		l.overlay[t] = h.path
	}
	for d := range dirs {
		l.pkgDirs = append(l.pkgDirs, d)
	}
	sort.Strings(l.pkgDirs)
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     repoEnv(),
	}
	if tag != "-" {
		cfg.BuildFlags = []string{"-tags=" + tag}
	}
	var pats []string
	for _, d := range l.pkgDirs {
		pats = append(pats, "./"+d)
	}
	pats = append(pats, "errors")
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(p.PkgPath, "DyCAPS") {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("does not compile: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	pr := &Program{prog: prog, byPath: map[string]*ssa.Package{}, abs: absFor(tag), plain: tag == "bignum_hbls", fset: prog.Fset}
	for _, p := range prog.AllPackages() {
		pr.byPath[p.Pkg.Path()] = p
	}
	pr.sizes = types.SizesFor("gc", "amd64")
	pr.pkgs = pkgs
	l.pr = pr
	for i, p := range pkgs {
		if p == nil {
			continue
		}
		docs := map[string]string{}
		isHarness := map[string]bool{}
		for k, f := range ps[i].Syntax {
			if k >= len(ps[i].CompiledGoFiles) {
				break
			}
			src := ps[i].CompiledGoFiles[k]
			m := propFile.FindStringSubmatch(filepath.Base(src))
			if m == nil || m[1] != prop {
				continue
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "Verif_") {
					isHarness[fd.Name.Name] = true
					if fd.Doc != nil {
						for _, c := range fd.Doc.List {
							docs[fd.Name.Name] += c.Text + "\n"
						}
					}
				}
			}
		}
		for name := range isHarness {
			fn := p.Func(name)
			h := &Harness{Name: name, Fn: fn, Prop: prop, MaxPaths: 20000, MaxIns: 400_000_000, Budget: 45 * time.Second, Pkg: p.Pkg.Path(), Tags: tag}
			if tier == "thorough" {
				h.Budget = 600 * time.Second
				h.MaxPaths = 500000
				h.MaxIns = 4_000_000_000
			}
			skip := false
			for _, line := range strings.Split(docs[name], "\n") {
				if !strings.HasPrefix(line, "//verif:") {
					continue
				}
				for _, kv := range strings.Fields(line[len("//verif:"):]) {
					k, v, _ := strings.Cut(kv, "=")
					switch k {
					case "tier":
						skip = skip || (v == "thorough" && tier != "thorough")
					case "budget":
						if tier == "quick" {
							h.Budget, _ = time.ParseDuration(v)
						}
					case "paths":
						if tier == "quick" {
							h.MaxPaths, _ = strconv.Atoi(v)
						}
					case "replay":
						h.Replay = v
					}
				}
			}
			if !skip {
				l.harnesses = append(l.harnesses, h)
			}
		}
	}
	sort.Slice(l.harnesses, func(i, j int) bool { return l.harnesses[i].Name < l.harnesses[j].Name })
	return l, nil
}

func repoEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "CGO_ENABLED", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=1")
}
