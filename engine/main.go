package main

// symgo: bounded symbolic execution of Go code with an SMT solver.
//
//	symgo -prop C02 [-tier quick|thorough] [-only H_x] [-p name=value]...

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type paramFlag map[string]int

func (p paramFlag) String() string { return "" }
func (p paramFlag) Set(s string) error {
	k, v, ok := strings.Cut(s, "=")
	if !ok {
		return fmt.Errorf("want name=value")
	}
	n, err := strconv.Atoi(v)
	p[k] = n
	return err
}

func shortPath(p string) string {
	if i := strings.Index(p, "/repo/"); i >= 0 {
		return p[i+6:]
	}
	return filepath.Base(p)
}

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("only", "", "run only harnesses with this prefix")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Int("budget", 0, "seconds")
	verbose := flag.Bool("v", false, "verbose")
	prof := flag.String("cpuprofile", "", "profile")
	noEv := flag.Bool("noevidence", false, "do not write evidence")
	nmax := flag.Int("maxviol", 1, "stop a harness after this many violations")
	params := paramFlag{}
	flag.Var(params, "p", "harness parameter")
	flag.Parse()
	debug.SetGCPercent(400)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	code := run(*prop, *tier, *only, *workers, *budget, seed, params, *verbose, !*noEv && *only == "", *nmax)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

type nativeBuild struct {
	dir  string
	bin  string
	race string
	ov   map[string][]byte
	main string
	done chan error
}

// buildNative compiles the replay program: the same harness package and the
// same /repo sources, by the ordinary Go compiler.
func buildNative(tmp, hdir, id string, names []string, ov map[string][]byte) *nativeBuild {
	b := &nativeBuild{dir: tmp, bin: filepath.Join(tmp, "replay"), done: make(chan error, 1)}
	var s strings.Builder
	fmt.Fprintf(&s, "package main\n\nimport (\n\th \"%s/p/%s\"\n\t\"%s/nd\"\n)\n\nfunc main() {\n\tnd.Main(map[string]func(){\n", hmod, id, hmod)
	for _, n := range names {
		fmt.Fprintf(&s, "\t\t%q: h.%s,\n", n, n)
	}
	s.WriteString("\t})\n}\n")
	ov2 := map[string][]byte{}
	for k, v := range ov {
		ov2[k] = v
	}
	ov2[filepath.Join(hdir, "zz_replay_"+id, "main.go")] = []byte(s.String())
	js := writeOverlayJSON(tmp, ov2)
	b.main = "./zz_replay_" + id
	go func() {
		cmd := exec.Command("go", "build", "-overlay", js, "-o", b.bin, b.main)
		cmd.Dir = hdir
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("%v\n%s", err, out)
		}
		b.done <- err
	}()
	b.race = js
	return b
}

func (b *nativeBuild) buildRace(hdir string) (string, error) {
	bin := filepath.Join(b.dir, "replay_race")
	cmd := exec.Command("go", "build", "-race", "-overlay", b.race, "-o", bin, b.main)
	cmd.Dir = hdir
	cmd.Env = append(goEnv(), "CGO_ENABLED=1")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v\n%s", err, out)
	}
	return bin, nil
}

type outcome struct {
	Result  string   `json:"result"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Used    int      `json:"used"`
	Asserts int      `json:"asserts"`
	Stack   string   `json:"stack"`
}

func runReplay(bin, file string, timeout time.Duration, env ...string) ([]outcome, string, error) {
	cmd := exec.Command(bin, file)
	cmd.Env = append(os.Environ(), env...)
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &sb
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	var err error
	select {
	case err = <-ch:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-ch
		err = fmt.Errorf("timeout")
	}
	var outs []outcome
	for _, l := range strings.Split(sb.String(), "\n") {
		if i := strings.Index(l, "OUTCOME "); i >= 0 {
			var o outcome
			if json.Unmarshal([]byte(l[i+8:]), &o) == nil {
				outs = append(outs, o)
			}
		}
	}
	return outs, sb.String(), err
}

func jsonFile(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fatal("%v", err)
	}
}

type knownEntry struct{ prop, harness, msg, desc string }

// known findings: "known: property=C01 harness=H_x match=<substring> :: text"
func loadKnown(prop string) []knownEntry {
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var r []knownEntry
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, desc, _ := strings.Cut(l[7:], " :: ")
		head, match, _ := strings.Cut(head, " match=")
		e := knownEntry{msg: match, desc: desc}
		for _, f := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				e.prop = v
			}
			if v, ok := strings.CutPrefix(f, "harness="); ok {
				e.harness = v
			}
		}
		if e.prop == prop {
			r = append(r, e)
		}
	}
	return r
}

func run(prop, tier, only string, workers, budget int, seed int64, params paramFlag, verbose, evid bool, nmax int) int {
	t0 := time.Now()
	id := strings.ToLower(prop)
	hdir := filepath.Join(verifDir, "h")
	tmp, err := os.MkdirTemp("", "symgo-"+id+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	ov := shimOverlay(repoDir, shimImports)
	P, err := loadProgram(hdir, "./p/"+id, ov)
	if err != nil {
		fmt.Println("cannot load /repo with the harnesses of " + prop + ":\n" + err.Error())
		return 2
	}
	sort.Strings(P.names)
	if len(P.names) == 0 {
		fmt.Println("no harness for " + prop)
		return 2
	}
	tLoad := time.Since(t0)
	nat := buildNative(tmp, hdir, id, P.names, ov)
	sh := NewShared(P)
	known := loadKnown(prop)
	isKnown := func(h, kind, msg string) bool {
		for _, k := range known {
			if (k.harness == "" || k.harness == h) && strings.Contains(kind+": "+msg, k.msg) {
				return true
			}
		}
		return false
	}
	if budget == 0 {
		budget = 420
		if tier == "thorough" {
			budget = 3000
		}
	}
	opt := Options{workers: workers, fuel: 20_000_000, depth: 20000, queryMs: 20000, deadline: t0.Add(time.Duration(budget) * time.Second),
		params: map[string]int{}, maxViol: nmax, seed: seed, nsamples: 8, crossMax: 3, verbose: verbose, thorough: tier == "thorough", known: isKnown}
	if tier == "thorough" {
		opt.queryMs, opt.nsamples, opt.crossMax = 120000, 25, 25
	}
	for k, v := range params {
		opt.params[k] = v
	}
	ex := NewExplorer(sh, opt)
	defer ex.Close()
	var results []*Result
	var viols []*Violation
	knownHit := map[string]bool{}
	for _, n := range P.names {
		if only != "" && !strings.HasPrefix(n, only) {
			continue
		}
		for k := range ex.opt.params {
			delete(ex.opt.params, k)
		}
		for k, v := range params {
			ex.opt.params[k] = v
		}
		r := ex.Run(n)
		r.Params = map[string]int{}
		for k, v := range ex.opt.params {
			r.Params[k] = v
		}
		results = append(results, r)
		if verbose {
			fmt.Printf("%-28s paths %d (done %d, assume-cut %d, unsup %d) queries %d (sat %d unsat %d unk %d) solver %.1fs steps %.1fM asserts %d wall %.1fs %v\n", n, r.Stats.Paths, r.Stats.Completed,
				r.Stats.Assumed, r.Stats.Unsupported, r.Queries, r.Sat, r.Unsat, r.Unk, r.SolverTime.Seconds(), float64(r.Stats.Steps)/1e6, r.Stats.Asserts, r.Wall.Seconds(), r.Params)
			for k, v := range r.Notes {
				fmt.Printf("    note: %s (%d paths)\n", k, v)
			}
			if r.Truncated {
				fmt.Printf("    truncated: %d items left\n", r.Left)
			}
		}
		stop := false
		for _, v := range r.Viol {
			viols = append(viols, v)
			if !isKnown(v.Harness, v.Kind, v.Msg) {
				stop = true
			}
		}
		if stop && nmax == 1 {
			break
		}
	}
	tExplore := time.Since(t0)
	if err := <-nat.done; err != nil {
		fmt.Println("native build failed:", err)
		return 2
	}
	strict := os.Getenv("VERIF_STRICT") != "" // development: incompleteness is an error
	// vacuity
	for _, r := range results {
		if r.Stats.Completed == 0 && len(r.Viol) == 0 && !r.Truncated {
			fmt.Printf("INCOMPLETE %s: no completed path: %v\n", r.Name, r.Notes)
			if strict {
				return 2
			}
		}
		if len(r.Notes) > 0 {
			for k, v := range r.Notes {
				fmt.Printf("INCOMPLETE %s: %s (%d paths)\n", r.Name, k, v)
			}
		}
		if r.Truncated {
			fmt.Printf("INCOMPLETE %s: time budget used up, %d work items unexplored\n", r.Name, r.Left)
		}
		if r.Unk > 0 {
			fmt.Printf("INCOMPLETE %s: %d solver queries undecided\n", r.Name, r.Unk)
		}
	}
	// replay samples natively
	validated := 0
	var sampleOut []any
	for _, r := range results {
		if len(r.Samples) == 0 {
			continue
		}
		f := filepath.Join(tmp, "samples.json")
		jsonFile(f, r.Samples)
		outs, text, err := runReplay(nat.bin, f, 120*time.Second)
		if err != nil || len(outs) != len(r.Samples) {
			fmt.Printf("INCOMPLETE %s: translation mismatch: native replay of solver-explored paths failed (%v)\n%s\n", r.Name, err, tail(text, 3000))
			keep(r, prop, seed)
			if strict {
				return 2
			}
			continue
		}
		for i, o := range outs {
			s := r.Samples[i]
			if o.Result != "ok" || strings.Join(o.Obs, ",") != strings.Join(s.Obs, ",") || o.Asserts != s.Asserts {
				fmt.Printf("INCOMPLETE %s: translation mismatch: native result %s %q\n native obs  %v asserts %d\n machine obs %v asserts %d\n", r.Name, o.Result, o.Msg, o.Obs, o.Asserts, s.Obs, s.Asserts)
				keep(r, prop, seed)
				if strict {
					return 2
				}
				break
			}
			validated++
		}
		if len(sampleOut) < 6 {
			s := r.Samples[0]
			sampleOut = append(sampleOut, map[string]any{"harness": s.Harness, "inputs": s.Inputs, "observations": s.Obs, "native": outs[0].Result})
		}
	}
	// replay violations natively
	bad := 0
	rc := 0
	var vlines []string
	raceBin := ""
	for i, v := range viols {
		edir := filepath.Join(verifDir, "evidence")
		os.MkdirAll(edir, 0o755)
		f := filepath.Join(edir, fmt.Sprintf("%s-replay-%d.json", prop, i+1))
		jsonFile(f, []*Violation{v})
		bin := nat.bin
		var env []string
		if v.Kind == "race" {
			if raceBin == "" {
				raceBin, err = nat.buildRace(hdir)
				if err != nil {
					fmt.Println("race build failed:", err)
					return 2
				}
			}
			bin = raceBin
			env = []string{"GORACE=halt_on_error=1 exitcode=66"}
		}
		outs, text, rerr := runReplay(bin, f, 20*time.Second, env...)
		desc := ""
		switch {
		case v.Kind == "race":
			if strings.Contains(text, "WARNING: DATA RACE") {
				desc = "the Go race detector reports the same execution"
			}
		case len(outs) == 1 && (outs[0].Result == "assert" || outs[0].Result == "panic" || outs[0].Result == "deadlock"):
			desc = outs[0].Result + ": " + outs[0].Msg
		case len(outs) == 0 && rerr != nil && rerr.Error() == "timeout":
			desc = "does not terminate"
		case len(outs) == 0 && rerr != nil:
			desc = "crashes: " + firstLine(text)
		}
		if desc == "" {
			fmt.Printf("INCOMPLETE %s: a counterexample (%s: %s) does not reproduce natively (%s)\n%s\n", v.Harness, v.Kind, v.Msg, f, tail(text, 2000))
			bad++
			continue
		}
		if isKnown(v.Harness, v.Kind, v.Msg) {
			for _, k := range known {
				if strings.Contains(v.Kind+": "+v.Msg, k.msg) && (k.harness == "" || k.harness == v.Harness) && !knownHit[k.desc] {
					knownHit[k.desc] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.desc)
				}
			}
			continue
		}
		fmt.Printf("counterexample in %s: %s: %s\n  native replay: %s\n  inputs: %s\n", v.Harness, v.Kind, v.Msg, desc, inputsText(v))
		vlines = append(vlines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, f))
		rc = 1
	}
	if bad > 0 && rc == 0 && strict {
		rc = 2
	}
	if evid {
		writeEvidence(prop, tier, seed, sh, results, validated, sampleOut, len(vlines), time.Since(t0), tLoad)
	}
	for _, l := range vlines {
		fmt.Println(l)
	}
	if rc == 0 {
		q, p := 0, int64(0)
		for _, r := range results {
			q += r.Queries
			p += r.Stats.Completed
		}
		fmt.Printf("%s held: %d harnesses, %d paths, %d solver queries, %d paths replayed natively, %.1fs (load %.1fs, explore %.1fs)\n", prop, len(results), p, q, validated, time.Since(t0).Seconds(), tLoad.Seconds(), (tExplore - tLoad).Seconds())
	}
	return rc
}

func keep(r *Result, prop string, seed int64) {
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	jsonFile(filepath.Join(verifDir, "evidence", prop+"-mismatch.json"), r.Samples)
}

func inputsText(v *Violation) string {
	var p []string
	for i, in := range v.Inputs {
		if i > 60 {
			p = append(p, "...")
			break
		}
		x := strconv.FormatUint(in.V, 10)
		switch in.K {
		case "Int", "Int64":
			x = strconv.FormatInt(int64(in.V), 10)
		case "Int32":
			x = strconv.FormatInt(int64(int32(in.V)), 10)
		case "Int16":
			x = strconv.FormatInt(int64(int16(in.V)), 10)
		case "Int8":
			x = strconv.FormatInt(int64(int8(in.V)), 10)
		case "Float64":
			x = fmt.Sprint(fval(in.V, SF64))
		case "Float32":
			x = fmt.Sprint(fval(in.V, SF32))
		case "UF":
			x = fmt.Sprintf("%#x", in.V)
		}
		p = append(p, in.K+"="+x)
	}
	return strings.Join(p, " ")
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func writeEvidence(prop, tier string, seed int64, sh *Shared, rs []*Result, validated int, samples []any, nv int, wall, load time.Duration) {
	var hs []any
	var states, trans int64
	queries, sat, unsat, unk, cross := 0, 0, 0, 0, 0
	var solver, crossT time.Duration
	exhaustive := true
	bounds := map[string]any{}
	for _, r := range rs {
		states += r.Stats.Paths
		trans += r.Stats.Forks
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unk
		solver += r.SolverTime
		cross += r.CrossN
		crossT += r.CrossTime
		if r.Truncated || r.Unk > 0 || len(r.Notes) > 0 {
			exhaustive = false
		}
		bounds[r.Name] = r.Params
		hs = append(hs, map[string]any{"harness": r.Name, "bounds": r.Params, "paths": r.Stats.Paths, "paths_completed": r.Stats.Completed, "paths_cut_by_assumption": r.Stats.Assumed,
			"paths_unsupported": r.Stats.Unsupported, "forks": r.Stats.Forks, "assertions_reached": r.Stats.Asserts, "queries": r.Queries, "queries_sat": r.Sat, "queries_unsat": r.Unsat,
			"queries_undecided": r.Unk, "solver_s": round(r.SolverTime.Seconds()), "wall_s": round(r.Wall.Seconds()), "interpreted_steps": r.Stats.Steps, "truncated": r.Truncated, "work_left": r.Left, "notes": r.Notes})
	}
	var fns []string
	for _, f := range sh.allF {
		if f.used.Load() && strings.Contains(f.name, repoMod) && f.intr == nil && !f.isInit {
			fns = append(fns, strings.ReplaceAll(f.name, repoMod+"/", ""))
		}
	}
	sort.Strings(fns)
	if len(samples) == 0 {
		samples = []any{map[string]any{"note": "no completed path was sampled"}}
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall.Seconds()), "violations": nv,
		"assumptions": []string{"results hold for all values within the bounds listed per harness; inputs, sizes and histories beyond them are outside the claim",
			"go/ssa lowering, the machine's memory model and z3 are trusted; sampled paths are replayed natively and sampled queries re-decided by cvc5",
			"environment packages are arbitrary-value stubs: math/rand, hash/fnv, crypto/sha512 (arbitrary functions of their input), sync (modelled locks); allocation never fails"},
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive": exhaustive, "explanation": "states = symbolic paths executed (each covers every input value satisfying its path condition); transitions = solver-feasible forks taken; traces_validated = completed paths re-run natively with a solver model and compared observation by observation",
			"functions_encoded": fns, "functions_encoded_count": len(fns), "harnesses": hs, "queries": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_undecided": unk,
			"solver_s": round(solver.Seconds()), "queries_cross_checked_cvc5": cross, "cross_check_s": round(crossT.Seconds()), "solver": "z3-new (incremental), cvc5 sample", "load_s": round(load.Seconds())}}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	jsonFile(filepath.Join(verifDir, "evidence", prop+".json"), ev)
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
