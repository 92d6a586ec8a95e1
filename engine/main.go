package main

// verif check PROP [quick|thorough]  -- decide one property on /repo's current tree
// verif replay FILE                  -- replay a stored counterexample natively
// verif run PROP [HARNESS]           -- development: explore without native replay

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

var verifDir, repoDir string

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(10 * time.Second); pprof.StopCPUProfile(); w.Close() }()
	}
	exe, _ := os.Executable()
	verifDir = os.Getenv("VERIF_DIR")
	if verifDir == "" {
		verifDir = filepath.Dir(filepath.Dir(exe))
	}
	repoDir = os.Getenv("VERIF_REPO")
	if repoDir == "" {
		repoDir = "/repo"
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: verif check PROP [quick|thorough] | run PROP [HARNESS] | replay FILE")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	switch os.Args[1] {
	case "check":
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier, "", true))
	case "run":
		if tier != "thorough" {
			tier = "quick"
		}
		h := ""
		if len(os.Args) > 3 {
			h = os.Args[3]
		}
		os.Exit(check(os.Args[2], tier, h, os.Getenv("VERIF_NATIVE") != ""))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	}
	os.Exit(2)
}

type known struct {
	prop, harness, match, text string
}

func loadKnown() (ks []known) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=P07 harness=Verif_P07_x match="text" what fails
		k := known{}
		rest := strings.TrimSpace(l[len("finding:"):])
		for {
			rest = strings.TrimSpace(rest)
			if strings.HasPrefix(rest, "property=") || strings.HasPrefix(rest, "harness=") {
				var w string
				w, rest, _ = strings.Cut(rest, " ")
				n, v, _ := strings.Cut(w, "=")
				if n == "property" {
					k.prop = v
				} else {
					k.harness = v
				}
				continue
			}
			if strings.HasPrefix(rest, "match=\"") {
				rest = rest[len("match=\""):]
				i := strings.Index(rest, "\"")
				k.match = rest[:i]
				rest = rest[i+1:]
				continue
			}
			break
		}
		k.text = rest
		if k.prop != "" && k.harness != "" && k.match != "" {
			ks = append(ks, k)
		}
	}
	return
}

type replayRec struct {
	Property  string    `json:"property"`
	Tags      string    `json:"tags"`
	Pkg       string    `json:"pkg"`
	Tier      string    `json:"tier"`
	Violation Violation `json:"violation"`
	Native    string    `json:"native"`
	Command   string    `json:"command"`
}

func check(prop, tier, only string, native bool) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	root := filepath.Join(verifDir, "harness")
	_, own := harnessFiles(root, prop)
	if len(own) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	tagset := map[string]bool{}
	for _, o := range own {
		for _, t := range o.tags {
			tagset[t] = true
		}
	}
	scratch, err := os.MkdirTemp("", "verif-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	ev := newEvidence(prop, tier, seed)
	nat := newNative(scratch, root, prop, tier)
	kn := loadKnown()
	budget := 5 * time.Minute
	if tier == "thorough" {
		budget = 4 * time.Hour
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		budget, _ = time.ParseDuration(s)
	}
	outDir := filepath.Join(verifDir, "out", prop)
	os.RemoveAll(outDir)
	rc := 0
	knownSeen := map[string]bool{}
	races, hangs, raceSeen := 0, 0, false
	for _, tag := range sortedKeys(tagset) {
		l, err := load(repoDir, root, prop, tag, tier)
		if err != nil {
			ev.note("variant %s could not be encoded: %v", tag, err)
			ev.Inconclusive++
			fmt.Printf("INCONCLUSIVE property=%s build=%s: %v\n", prop, tag, err)
			continue
		}
		var hs []*Harness
		for _, h := range l.harnesses {
			if only == "" || h.Name == only {
				hs = append(hs, h)
			}
		}
		ex := &Explorer{pr: l.pr, z3: z3Path(), z3ms: 20000, tier: tier, deadline: t0.Add(budget), trace: os.Getenv("VERIF_TRACE") != ""}
		nw := runtime.NumCPU()
		if s := os.Getenv("VERIF_WORKERS"); s != "" {
			nw, _ = strconv.Atoi(s)
		}
		rs := ex.Run(hs, nw)
		for _, r := range rs {
			report(r)
			ev.add(r, l)
			// witnesses: the compiled code must behave as the encoding says
			if native && r.H.Replay != "none" {
				nwit := 1
				if tier == "thorough" {
					nwit = 3
				}
				for i, w := range r.Witnesses {
					if i >= nwit {
						break
					}
					out, st := nat.run(l, r.H, w.Vars)
					ok := st == "ok" && sameObs(out, w.Obs)
					if ok {
						ev.Validated++
					} else if st == "ok" || st == "fail" || st == "died" || st == "timeout" {
						ev.Mismatch++
						ev.note("witness of %s does not replay natively (%s): %s", r.H.Name, st, tail(out, 600))
						fmt.Printf("MISMATCH %s (%s): %s want %v\n", r.H.Name, st, tail(out, 600), w.Obs)
					} else {
						ev.note("witness of %s could not be replayed: %s", r.H.Name, tail(out, 300))
						fmt.Printf("NOREPLAY %s (%s): %s\n", r.H.Name, st, tail(out, 600))
					}
				}
			}
			reported := map[string]bool{}
			for i, v := range r.Violations {
				key := v.Kind + "|" + v.Msg
				if v.Kind == "race" {
					key = "race" // the first that is reproduced is reported
					if races++; races > 4 || raceSeen {
						continue
					}
				}
				if v.Kind == "hang" {
					if hangs++; hangs > 3 {
						continue
					}
				}
				if reported[key] {
					continue
				}
				st, out := "not replayed", ""
				if native && r.H.Replay != "none" {
					out, st = nat.replay(l, r.H, v)
					if st != "fail" && st != "died" && st != "timeout" || v.Kind == "hang" && st == "fail" {
						ev.Unconfirmed++
						ev.note("counterexample of %s (%s) not reproduced natively (%s)", r.H.Name, v.Msg, st)
						fmt.Printf("UNCONFIRMED %s: %s [%s] at %s\n  native: %s %s\n", r.H.Name, v.Kind, v.Msg, v.Where, st, tail(out, 500))
						continue
					}
				}
				reported[key] = true
				raceSeen = raceSeen || v.Kind == "race"
				rec := replayRec{Property: prop, Tags: tag, Pkg: r.H.Pkg, Tier: tier, Violation: v, Native: st + "\n" + tail(out, 2000)}
				os.MkdirAll(outDir, 0o755)
				f := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", r.H.Name, i))
				rec.Command = filepath.Join(verifDir, "bin/verif") + " replay " + f
				b, _ := json.MarshalIndent(rec, "", " ")
				os.WriteFile(f, b, 0o644)
				if k := findKnown(kn, prop, r.H.Name, v.Msg); k != nil {
					if !knownSeen[k.text] {
						knownSeen[k.text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
					}
					continue
				}
				ev.Violations++
				rc = 1
				fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s: %s\n  at %s\n  native replay: %s\n", prop, f, r.H.Name, v.Kind, v.Msg, v.Where, st)
			}
		}
	}
	ev.WallS = time.Since(t0).Seconds()
	if only == "" {
		ev.write()
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions, %d violations, %d inconclusive, %.1fs\n", prop, tier, ev.NHarness, ev.Paths, ev.Asserts, ev.Violations, ev.Inconclusive, ev.WallS)
	return rc
}

func findKnown(ks []known, prop, h, msg string) *known {
	for i := range ks {
		if ks[i].prop == prop && ks[i].harness == h && strings.Contains(msg, ks[i].match) {
			return &ks[i]
		}
	}
	return nil
}

func report(r *HResult) {
	fmt.Printf("%-34s paths=%d ok=%d inf=%d cut=%v asserts=%d triv=%d dis=%d unk=%d trunc=%d unsup=%d viol=%d q=%d z3=%d th=%d cert=%d/%d instr=%d %.1fs\n", r.H.Name, r.Paths, r.Completed, r.Infeasible, r.PathsCut, r.Asserts, r.Trivial, r.Discharged, r.Unknown, r.Truncated, len(r.Unsupported), len(r.Violations), r.Stats.Queries, r.Stats.Z3, r.Stats.Theory, r.Stats.Certs, r.Stats.CertBad, r.Instrs, r.Wall.Seconds())
	for _, k := range sortedKeys(r.Unsupported) {
		fmt.Printf("    %s (x%d)\n", k, r.Unsupported[k])
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		for _, v := range r.Violations {
			fmt.Printf("    V %s %s at %s vars=%v\n", v.Kind, v.Msg, v.Where, v.Vars)
		}
		fmt.Printf("    ends=%v reached=%v\n", r.Ends, r.Reached)
	}
}

func z3Path() string {
	if p := os.Getenv("VERIF_Z3"); p != "" {
		return p
	}
	return "z3"
}
func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func sameObs(out string, want []string) bool {
	var got []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "VERIF-OBS ") {
			got = append(got, l[len("VERIF-OBS "):])
		}
	}
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] {
			return false
		}
	}
	return true
}

// ---- native replay ----

type native struct {
	scratch, root, prop, tier string
	bins                      map[string]string
	errs                      map[string]string
	n                         int
	race                      bool // build with Go's race detector
}

func newNative(scratch, root, prop, tier string) *native {
	return &native{scratch: scratch, root: root, prop: prop, tier: tier, bins: map[string]string{}, errs: map[string]string{}}
}

func pkgRel(pkg string) string {
	return strings.TrimPrefix(pkg, "github.com/DyCAPSTeam/DyCAPS/")
}

func (n *native) build(l *Loaded, pkg string) (string, string) {
	key := l.tags + "|" + pkg
	if n.race {
		key += "|race"
	}
	if b, ok := n.bins[key]; ok {
		return b, n.errs[key]
	}
	n.n++
	rel := pkgRel(pkg)
	ov := map[string]string{}
	for t, s := range l.overlay {
		ov[t] = s
	}
	pname := filepath.Base(rel)
	for _, p := range l.pr.pkgs {
		if p != nil && p.Pkg.Path() == pkg {
			pname = p.Pkg.Name()
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"testing\"\n\n\t\"github.com/DyCAPSTeam/DyCAPS/internal/vrt\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tm := map[string]func(){\n", pname)
	for _, h := range l.harnesses {
		if h.Pkg == pkg {
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", h.Name, h.Name)
		}
	}
	sb.WriteString("\t}\n\tf := m[os.Getenv(\"VERIF_H\")]\n\tif f == nil {\n\t\tt.Skip()\n\t}\n\tdone := make(chan bool)\n\tgo func() {\n\t\tdefer close(done)\n\t\tf()\n\t}()\n\t<-done\n\tif vrt.Failures() == 0 {\n\t\tfmt.Println(\"VERIF-DONE\")\n\t}\n\tos.Exit(0)\n}\n")
	tf := filepath.Join(n.scratch, fmt.Sprintf("zz_verif_replay%d_test.go", n.n))
	os.WriteFile(tf, []byte(sb.String()), 0o644)
	ov[filepath.Join(repoDir, rel, "zz_verif_replay_test.go")] = tf
	// the package's own tests are not part of a replay
	if ms, err := filepath.Glob(filepath.Join(repoDir, rel, "*_test.go")); err == nil {
		for _, m := range ms {
			ov[m] = ""
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(n.scratch, fmt.Sprintf("ov%d.json", n.n))
	os.WriteFile(of, js, 0o644)
	bin := filepath.Join(n.scratch, fmt.Sprintf("replay%d", n.n))
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if l.tags != "-" {
		args = append(args, "-tags="+l.tags)
	}
	if n.race {
		args = append(args, "-race")
	}
	args = append(args, "./"+rel)
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = repoEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.errs[key] = "build of the native replay failed: " + tail(string(out), 800)
		n.bins[key] = ""
		return "", n.errs[key]
	}
	n.bins[key] = bin
	return bin, ""
}

// run replays one assignment; the status is ok, fail, died, timeout, assume or error.
func (n *native) run(l *Loaded, h *Harness, vars map[string]string) (string, string) {
	bin, e := n.build(l, h.Pkg)
	if bin == "" {
		return e, "error"
	}
	mf := filepath.Join(n.scratch, "model.json")
	b, _ := json.Marshal(vars)
	os.WriteFile(mf, b, 0o644)
	dir, _ := os.MkdirTemp(n.scratch, "run")
	limit := "25"
	if n.race {
		limit = "60"
	}
	args := []string{"timeout", "-k", "2", limit, bin, "-test.run", "^TestVerifReplay$", "-test.v"}
	if !n.race { // a run that does not end may fill the memory
		args = append([]string{"prlimit", "--as=17179869184"}, args...)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = append(repoEnv(), "VERIF_MODEL="+mf, "VERIF_H="+h.Name, "VERIF_TIER="+n.tier, "GORACE=exitcode=0 atexit_sleep_ms=0 history_size=5")
	out, err := cmd.CombinedOutput()
	s := string(out)
	assume, fail := strings.Index(s, "VERIF-ASSUME-FALSE"), strings.Index(s, "VERIF-FAIL:")
	switch {
	case fail >= 0 && assume >= 0 && fail < assume: // what follows a failure is outside the assignment
		return s, "fail"
	case assume >= 0:
		return s, "assume"
	case strings.Contains(s, "VERIF-FAIL:"):
		return s, "fail"
	case strings.Contains(s, "VERIF-DONE"):
		return s, "ok"
	case err != nil && cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 124:
		return s, "timeout"
	case err != nil:
		return s, "died"
	}
	return s, "error"
}

// replay reproduces a violation; a data race is reproduced when Go's race detector sees one between
// functions of the module under test.
func (n *native) replay(l *Loaded, h *Harness, v Violation) (string, string) {
	if v.Kind != "race" {
		return n.run(l, h, v.Vars)
	}
	n.race = true
	defer func() { n.race = false }()
	var out, st string
	for k := 0; k < 4; k++ {
		if out, st = n.run(l, h, v.Vars); st == "error" {
			return out, st
		}
		for _, b := range strings.Split(out, "WARNING: DATA RACE")[1:] {
			if b = strings.Split(b, "==================")[0]; moduleRace(b) {
				return "WARNING: DATA RACE" + b, "fail"
			}
		}
	}
	return out, "ok"
}

// moduleRace: both accesses of the report were made by (or on behalf of) code of the module that is not a
// harness, and it is not about the curve library setting one of its G2 constants to the form it already has.
func moduleRace(b string) bool {
	if strings.Contains(b, "(*G2).Affine") {
		return false
	}
	for i, s := range strings.Split(b, "\n\n") {
		if i > 1 {
			break
		}
		top := ""
		for _, line := range strings.Split(s, "\n") {
			line = strings.TrimSpace(line)
			if (strings.HasPrefix(line, repoDir+"/") || strings.HasPrefix(line, verifDir+"/")) && !strings.Contains(line, "/internal/bls/") {
				top = line
				break
			}
		}
		if top == "" || strings.HasPrefix(top, verifDir+"/") || strings.Contains(top, "/zz_") {
			return false
		}
	}
	return true
}

func replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rec replayRec
	if err := json.Unmarshal(b, &rec); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	scratch, _ := os.MkdirTemp("", "verif-")
	defer os.RemoveAll(scratch)
	root := filepath.Join(verifDir, "harness")
	l, err := load(repoDir, root, rec.Property, rec.Tags, "thorough")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, h := range l.harnesses {
		if h.Name == rec.Violation.Harness && h.Pkg == rec.Pkg {
			out, st := newNative(scratch, root, rec.Property, rec.Tier).replay(l, h, rec.Violation)
			fmt.Println(out)
			fmt.Println("native replay:", st)
			if st == "fail" || st == "died" || st == "timeout" {
				return 1
			}
			return 0
		}
	}
	return 2
}

// ---- evidence ----

type evidence struct {
	Prop, Tier                                    string
	Seed                                          int
	Paths, Asserts, Trivial, Discharged, Unknown  int64
	Instrs                                        int64
	Violations, Inconclusive, Validated, Mismatch int
	Imprecise                                     int64
	Unconfirmed, NHarness                         int
	WallS                                         float64
	st                                            Stats
	notes                                         []string
	funcs                                         map[string]bool
	hs                                            []map[string]any
	samples                                       []any
}

func newEvidence(p, t string, seed int) *evidence {
	return &evidence{Prop: p, Tier: t, Seed: seed, funcs: map[string]bool{}}
}
func (e *evidence) note(f string, a ...any) { e.notes = append(e.notes, fmt.Sprintf(f, a...)) }
func (e *evidence) add(r *HResult, l *Loaded) {
	e.NHarness++
	e.Paths += r.Paths
	e.Asserts += r.Asserts
	e.Trivial += r.Trivial
	e.Discharged += r.Discharged
	e.Unknown += r.Unknown
	e.Instrs += r.Instrs
	e.st.add(&r.Stats)
	full := r.Unknown == 0 && r.Truncated == 0 && len(r.Unsupported) == 0 && !r.PathsCut
	if !full {
		e.Inconclusive++
	}
	if r.Completed == 0 && len(r.Violations) == 0 {
		e.note("%s: no path completed (vacuous)", r.H.Name)
		fmt.Printf("VACUOUS %s\n", r.H.Name)
	}
	if r.Completed > 0 && r.Asserts == 0 {
		e.note("%s: no assertion reached", r.H.Name)
		fmt.Printf("VACUOUS %s: no assertion\n", r.H.Name)
	}
	e.Imprecise += r.Imprecise
	h := map[string]any{"harness": r.H.Name, "package": r.H.Pkg, "build": l.tags, "paths": r.Paths, "completed": r.Completed, "infeasible": r.Infeasible, "assertions": r.Asserts, "assertions_by_normalisation": r.Trivial, "assertions_by_query": r.Discharged, "assertions_unknown": r.Unknown, "exhaustive_within_bounds": full, "reached": r.Reached, "wall_s": r.Wall.Seconds()}
	if len(r.Unsupported) > 0 {
		h["paths_not_encoded"] = r.Unsupported
	}
	if r.PathsCut || r.Truncated > 0 {
		h["paths_cut_by_budget"] = true
	}
	e.hs = append(e.hs, h)
	for f := range r.Funcs {
		n := fnKey(f)
		if l.pr != nil && strings.HasPrefix(filepath.Base(l.pr.fset.Position(f.Pos()).Filename), "zz_") {
			continue
		}
		if strings.Contains(n, "DyCAPSTeam/DyCAPS/") && !strings.Contains(n, "/vrt.") && !strings.Contains(n, ".Verif_") {
			e.funcs[strings.ReplaceAll(n, "github.com/DyCAPSTeam/DyCAPS/", "")] = true
		}
	}
	for _, w := range r.Witnesses {
		if len(e.samples) < 6 {
			e.samples = append(e.samples, map[string]any{"harness": w.Harness, "assignment": w.Vars, "observations": w.Obs})
		}
	}
}
func (e *evidence) write() {
	var fs []string
	for f := range e.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	if e.samples == nil {
		e.samples = []any{}
	}
	cov := map[string]any{
		"states":                        e.Paths,
		"transitions":                   e.Instrs,
		"traces_validated_against_impl": e.Validated,
		"samples":                       e.samples,
		"explanation":                   "Bounded symbolic execution of the compiled program's SSA form. states = symbolic paths, transitions = SSA instructions interpreted; each path stands for every assignment of its symbolic inputs. Assertions and branch conditions are decided by z3 (bit-vectors/booleans) with a GF(r) theory for scalar-field atoms; counterexamples are replayed on the compiled package before they are reported; traces_validated_against_impl counts witness assignments replayed natively with equal observations.",
		"harnesses":                     e.hs,
		"functions_encoded":             fs,
		"assertions":                    e.Asserts,
		"assertions_by_normalisation":   e.Trivial,
		"assertions_by_query":           e.Discharged,
		"assertions_unknown":            e.Unknown,
		"solver_queries":                e.st.Queries,
		"z3_check_sat":                  e.st.Z3,
		"field_theory_calls":            e.st.Theory,
		"field_unsat_certified_by_z3":   e.st.Certs,
		"field_certificates_rejected":   e.st.CertBad,
		"lazy_lemmas":                   e.st.Lemmas,
		"solver_time_s":                 float64(e.st.SolverNs) / 1e9,
		"z3_time_s":                     float64(e.st.Z3Ns) / 1e9,
		"inconclusive_harnesses":        e.Inconclusive,
		"branches_taken_both_ways":      e.Imprecise,
		"unconfirmed_counterexamples":   e.Unconfirmed,
		"witness_mismatches":            e.Mismatch,
		"bounds":                        boundsOf(e.Prop),
		"notes":                         e.notes,
	}
	out := map[string]any{"property": e.Prop, "tier": e.Tier, "seed": e.Seed, "level": "model_checking", "coverage": cov, "wall_s": e.WallS, "violations": e.Violations, "assumptions": assumptionsOf(e.Prop)}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", e.Prop+".json"), append(b, '\n'), 0o644)
}

// bounds.json holds, per property, the stated bounds and assumptions.
func propMeta(p string) map[string]any {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "bounds.json"))
	if err != nil {
		return nil
	}
	var m map[string]map[string]any
	json.Unmarshal(b, &m)
	return m[p]
}
func boundsOf(p string) any {
	if m := propMeta(p); m != nil {
		return m["bounds"]
	}
	return ""
}
func assumptionsOf(p string) any {
	a := []any{
		"group elements are represented by discrete logarithms with respect to the generators; encodings of points and scalars are injective and a corrupted encoding does not decode",
		"hash functions are injective on the inputs of one execution (no collisions)",
		"the primitives of kilic/bls12-381, math/big, crypto and the Go runtime behave as documented",
	}
	if m := propMeta(p); m != nil {
		if x, ok := m["assumptions"].([]any); ok {
			a = append(a, x...)
		}
	}
	return a
}
