package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The check driver: runs the harnesses of one property, replays
// counterexamples, writes the evidence file and reports.

type RunSpec struct {
	Harness  string         `json:"harness"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	Opts     map[string]int `json:"opts"`
	TOpts    map[string]int `json:"thorough_opts"`
	OnlyTier string         `json:"tier"`
	Budget   int            `json:"budget"`  // seconds, quick
	TBudget  int            `json:"tbudget"` // seconds, thorough
	Native   *bool          `json:"native"`  // counterexamples replay natively
	Samples  *int           `json:"samples"` // passing executions validated natively
	Reach    []string       `json:"reach"`
	Claim    string         `json:"claim"`
}

type PropSpec struct {
	Property    string     `json:"property"`
	Technique   string     `json:"technique"`
	LevelNote   string     `json:"level_note"`
	Bounds      string     `json:"bounds"`
	Outside     string     `json:"outside"`
	Assumptions []string   `json:"assumptions"`
	Runs        []*RunSpec `json:"runs"`
}

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func (r *RunSpec) native() bool { return r.Native == nil || *r.Native }

type runResult struct {
	spec    *RunSpec
	x       *Explorer
	params  map[string]int
	viols   []*Violation
	known   []string
	valid   int // native validations that agreed
	diverge []string
	unconf  []string
	wall    float64
}

func loadSpecs(verif string) (map[string]*PropSpec, error) {
	out := map[string]*PropSpec{}
	ms, _ := filepath.Glob(filepath.Join(verif, "specs", "*.json"))
	sort.Strings(ms)
	for _, m := range ms {
		b, err := os.ReadFile(m)
		if err != nil {
			return nil, err
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.DisallowUnknownFields()
		s := &PropSpec{}
		if err := d.Decode(s); err != nil {
			return nil, fmt.Errorf("%s: %v", m, err)
		}
		out[s.Property] = s
	}
	return out, nil
}

func merge(ms ...map[string]int) map[string]int {
	out := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

func check(verif, repo, prop, tier string) int {
	t0 := time.Now()
	specs, err := loadSpecs(verif)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	sp := specs[prop]
	if sp == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	var known []Known
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Println("known_findings.json:", err)
			return 2
		}
	}
	ev := &evidence{sp: sp, tier: tier, t0: t0}
	pats := []string{zzPath + "/sx", zzPath + "/mos"}
	seen := map[string]bool{}
	var runs []*RunSpec
	for _, r := range sp.Runs {
		if r.OnlyTier != "" && r.OnlyTier != tier {
			continue
		}
		runs = append(runs, r)
		p, _, _ := strings.Cut(r.Harness, ".")
		if !seen[p] {
			seen[p] = true
			pats = append(pats, harnessPattern(p))
		}
	}
	ov := harnessOverlay(verif, repo)
	if _, _, err := load(repo, ov, pats, ""); err != nil {
		fmt.Printf("INCONCLUSIVE property=%s: the harness does not build against this tree: %v\n", prop, err)
		ev.problem = err.Error()
		ev.write(verif)
		return 0
	}
	loadS := time.Since(t0).Seconds()
	nat := &nativeRunner{verif: verif, repo: repo, runs: runs}
	defer nat.cleanup()
	needNat := false
	for _, r := range runs {
		if r.native() {
			needNat = true
		}
	}
	if needNat {
		go nat.build()
	}
	rc := 0
	for _, r := range runs {
		res := runOne(verif, prop, sp, r, tier, nat, known)
		ev.res = append(ev.res, res)
		for _, k := range res.known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
		}
		for _, v := range res.viols {
			path := saveReplay(verif, prop, v)
			fmt.Printf("%s: %s: %s\n  at %s\n  inputs %s\n", v.Harness, v.Kind, v.Msg, v.Where, showInputs(v.Inputs))
			for _, b := range v.Blocked {
				fmt.Println("  blocked:", b)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			rc = 1
		}
		res.x.summary(res)
		if rc == 1 && tier == "quick" {
			break
		}
	}
	ev.loadS = loadS
	ev.write(verif)
	return rc
}

// warm fills the build cache for the native replay binaries.
func warm(verif, repo string) {
	specs, err := loadSpecs(verif)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	pats := []string{zzPath + "/sx", zzPath + "/mos"}
	seen := map[string]bool{}
	n := &nativeRunner{verif: verif, repo: repo}
	for _, s := range specs {
		for _, r := range s.Runs {
			n.runs = append(n.runs, r)
			p, _, _ := strings.Cut(r.Harness, ".")
			if !seen[p] {
				seen[p] = true
				pats = append(pats, harnessPattern(p))
			}
		}
	}
	if _, _, err := load(repo, harnessOverlay(verif, repo), pats, ""); err != nil {
		fmt.Println("warm:", err)
		return
	}
	n.build()
	defer n.cleanup()
	if n.err != nil {
		fmt.Println("warm:", n.err)
	}
}

func harnessPattern(p string) string {
	return zzPath + "/" + p
}

func showInputs(m map[string]string) string {
	var out []string
	for _, k := range sortedKeys(m) {
		v := m[k]
		out = append(out, k+"="+v)
	}
	return strings.Join(out, " ")
}

var started = time.Now()

func saveReplay(verif, prop string, v *Violation) string {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	for i := 1; ; i++ {
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
		if i < 50 {
			if _, err := os.Stat(p); err == nil && i < 49 {
				continue
			}
		}
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644)
		return p
	}
}

func runOne(verif, prop string, sp *PropSpec, r *RunSpec, tier string, nat *nativeRunner, known []Known) *runResult {
	t0 := time.Now()
	params, opts := merge(r.Quick), merge(r.Opts)
	budget := r.Budget
	if budget == 0 {
		// A check has fifteen minutes.
		budget = max(20, min(120, 600-int(time.Since(started).Seconds())))
	}
	if tier == "thorough" {
		params = merge(r.Quick, r.Thorough)
		opts = merge(r.Opts, r.TOpts)
		budget = r.TBudget
		if budget == 0 {
			budget = 600
		}
	}
	pkg, fn, _ := strings.Cut(r.Harness, ".")
	opt := defaultOptions()
	opt.budget = time.Duration(budget) * time.Second
	opt.maxViol = 12
	opt.apply(opts)
	x := newExplorer(P, pkg, fn, opt, params)
	res := &runResult{spec: r, x: x, params: params}
	x.Run()
	for _, v := range x.viols {
		if !confirm(x, r, v, nat) {
			res.unconf = append(res.unconf, v.Kind+": "+v.Msg)
			continue
		}
		if k := matchKnown(known, prop, v); k != nil {
			res.known = append(res.known, fmt.Sprintf("%s (%s: %s)", k.What, v.Harness, v.Msg))
			continue
		}
		res.viols = append(res.viols, v)
		if len(res.viols) >= 3 {
			break
		}
	}
	// Validate passing executions against the real code.
	n := 12
	if tier == "thorough" {
		n = 48
	}
	if r.Samples != nil {
		n = *r.Samples
	}
	if r.native() && len(res.viols) == 0 {
		ss := x.samples
		if len(ss) > n {
			ss = ss[len(ss)-n:]
		}
		type out struct {
			st, msg string
		}
		outs := make([]out, len(ss))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for i, s := range ss {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				st, msg := nat.run(r.Harness, s, params, 20*time.Second)
				if st == "fail" {
					st, msg = nat.run(r.Harness, s, params, 40*time.Second)
				}
				outs[i] = out{st, msg}
				<-sem
			}()
		}
		wg.Wait()
		for i, o := range outs {
			switch o.st {
			case "ok":
				res.valid++
			case "fail":
				v := &Violation{Harness: x.name, Kind: "native", Msg: o.msg, Where: "native execution of a model sample", Inputs: ss[i], Params: params}
				if k := matchKnown(known, prop, v); k != nil {
					res.known = append(res.known, k.What)
					continue
				}
				res.viols = append(res.viols, v)
			default:
				res.diverge = append(res.diverge, o.st+": "+o.msg+" "+showInputs(ss[i]))
			}
		}
	}
	res.wall = time.Since(t0).Seconds()
	return res
}

func matchKnown(known []Known, prop string, v *Violation) *Known {
	for i := range known {
		k := &known[i]
		if k.Status != "open" || k.Property != prop || k.Harness != "" && k.Harness != v.Harness {
			continue
		}
		re, err := regexp.Compile("(?s)^" + k.Match + "$")
		if err == nil && re.MatchString(v.Msg) {
			return k
		}
	}
	return nil
}

// confirm replays a counterexample: natively against the compiled code when
// it depends on inputs only, otherwise by re-executing the recorded schedule
// on concrete inputs.
func confirm(x *Explorer, r *RunSpec, v *Violation, nat *nativeRunner) bool {
	if !r.native() || v.Kind == "race" || v.Kind == "deadlock" && v.Sched > 0 || v.Sched > 0 {
		ok := reexec(x, v)
		v.Replay = "schedule re-executed on concrete inputs"
		return ok
	}
	d := 30 * time.Second
	if v.Kind == "hang" {
		d = 12 * time.Second
	}
	st, msg := nat.run(r.Harness, v.Inputs, v.Params, d)
	v.Replay = "native: " + st + " " + msg
	switch st {
	case "fail":
		return true
	case "timeout":
		return v.Kind == "hang" || v.Kind == "deadlock"
	case "unavailable":
		v.Replay = "schedule re-executed on concrete inputs (native build unavailable)"
		return reexec(x, v)
	}
	return false
}

// reexec runs the harness again along the recorded decisions with the
// counterexample's concrete inputs.
func reexec(x *Explorer, v *Violation) bool {
	y := newExplorer(P, strings.Split(x.name, ".")[0], strings.Split(x.name, ".")[1], x.opt, x.params)
	y.opt.workers = 1
	y.opt.maxPaths = 1
	y.opt.maxViol = 1
	var decs []dec
	for i, a := range v.Decs {
		d := dec{alt: a}
		if i < len(v.Implied) {
			d.implied, d.n = v.Implied[i], v.Widths[i]
		}
		decs = append(decs, d)
	}
	y.first = &taskPrefix{decs: decs, model: v.model}
	y.Run()
	for _, u := range y.viols {
		if u.Kind == v.Kind && u.Msg == v.Msg {
			return true
		}
	}
	return false
}

// --- native execution ---

type nativeRunner struct {
	verif, repo string
	runs        []*RunSpec
	once        sync.Once
	bin         string
	dir         string
	err         error
}

func (n *nativeRunner) cleanup() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

func (n *nativeRunner) build() {
	n.once.Do(func() {
		n.dir, n.err = os.MkdirTemp("", "gosym-native-")
		if n.err != nil {
			return
		}
		rep := map[string]string{}
		for p := range harnessOverlay(n.verif, n.repo) {
			rel, _ := filepath.Rel(filepath.Join(n.repo, "internal/zzverif"), p)
			src := filepath.Join(n.verif, "harness", rel)
			if strings.HasPrefix(rel, "hmain") {
				continue
			}
			rep[p] = src
		}
		var b strings.Builder
		pkgs := map[string]bool{}
		for _, r := range n.runs {
			if r.native() {
				p, _, _ := strings.Cut(r.Harness, ".")
				pkgs[p] = true
			}
		}
		b.WriteString("package main\n\nimport (\n\t\"" + zzPath + "/sx\"\n")
		for p := range pkgs {
			if p == "hmain" {
				n.err = errors.New("a harness of the main package")
				return
			}
			fmt.Fprintf(&b, "\t\"%s/%s\"\n", zzPath, p)
		}
		b.WriteString(")\n\nfunc main() {\n\tsx.Main(map[string][2]func(){\n")
		for _, r := range n.runs {
			if !r.native() {
				continue
			}
			p, f, _ := strings.Cut(r.Harness, ".")
			setup := "nil"
			if pk := P.pkg(zzPath + "/" + p); pk != nil {
				if pk.Func(f+"Setup") != nil {
					setup = p + "." + f + "Setup"
				} else if pk.Func("Setup") != nil {
					setup = p + ".Setup"
				}
			}
			key := fmt.Sprintf("\t\t%q: {%s, %s},\n", r.Harness, setup, r.Harness)
			if !strings.Contains(b.String(), fmt.Sprintf("\t\t%q:", r.Harness)) {
				b.WriteString(key)
			}
		}
		b.WriteString("\t})\n}\n")
		mainGo := filepath.Join(n.dir, "main.go")
		os.WriteFile(mainGo, []byte(b.String()), 0o644)
		rep[filepath.Join(n.repo, "internal/zzverif/native/main.go")] = mainGo
		ob, _ := json.Marshal(map[string]any{"Replace": rep})
		ovf := filepath.Join(n.dir, "overlay.json")
		os.WriteFile(ovf, ob, 0o644)
		n.bin = filepath.Join(n.dir, "native")
		cmd := exec.Command("go", "build", "-overlay", ovf, "-o", n.bin, "./internal/zzverif/native")
		cmd.Dir = n.repo
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("%v: %s", err, out)
		}
	})
}

func (n *nativeRunner) run(h string, inputs map[string]string, params map[string]int, d time.Duration) (string, string) {
	n.build()
	if n.err != nil {
		return "unavailable", n.err.Error()
	}
	dir, err := os.MkdirTemp(n.dir, "run-")
	if err != nil {
		return "unavailable", err.Error()
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(map[string]any{"inputs": inputs, "params": params})
	rp := filepath.Join(dir, "replay.json")
	os.WriteFile(rp, b, 0o644)
	w := filepath.Join(dir, "w")
	os.Mkdir(w, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 12000000; exec "$0" "$@"`, n.bin, h, rp)
	cmd.Dir = w
	cmd.Env = append(os.Environ(), "SX_LOG=", "TMPDIR="+dir)
	cmd.WaitDelay = time.Second
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err = cmd.Run()
	if ctx.Err() != nil {
		return "timeout", "no result within " + d.String()
	}
	s := out.String()
	if i := strings.LastIndex(s, "SXRESULT "); i >= 0 {
		st, msg, _ := strings.Cut(strings.TrimSpace(s[i+9:]), " ")
		return st, msg
	}
	if i := strings.LastIndex(s, "SXEXPECT "); i >= 0 {
		want, _, _ := strings.Cut(s[i+9:], "\n")
		if got := strconv.Itoa(cmd.ProcessState.ExitCode()); got != want {
			return "fail", "exit code " + got + ", expected " + want
		}
		return "ok", ""
	}
	if err != nil {
		if len(s) > 600 {
			s = s[:600]
		}
		if strings.Contains(s, "goroutine stack exceeds") || strings.Contains(s, "panic") || strings.Contains(s, "fatal error") {
			return "fail", s
		}
		return "error", err.Error() + " " + s
	}
	return "error", "no result: " + s
}

// --- evidence ---

type evidence struct {
	sp      *PropSpec
	tier    string
	t0      time.Time
	res     []*runResult
	loadS   float64
	problem string
}

func (e *evidence) write(verif string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var paths, instrs, q, sat, unsat, unk, hits, ac, as, valid int64
	var solverNS, maxNS int64
	fns := map[string]bool{}
	stdFns := map[string]bool{}
	stubs := map[string]int64{}
	var samples []any
	var runs []any
	complete := e.problem == ""
	viol := 0
	for _, r := range e.res {
		x := r.x
		paths += x.paths
		instrs += x.instrs
		q += x.sh.Queries
		hits += x.sh.CacheHits
		sat += x.sh.SatN
		unsat += x.sh.UnsatN
		unk += x.sh.UnknownN
		solverNS += x.sh.SolverNS
		if x.sh.MaxNS > maxNS {
			maxNS = x.sh.MaxNS
		}
		ac += x.assertConcrete
		as += x.assertSMT
		valid += int64(r.valid)
		viol += len(r.viols)
		for fn := range x.covered {
			if strings.HasSuffix(fn.name, ".init") || strings.Contains(fn.name, ".init#") {
				continue
			}
			if strings.Contains(fn.name, zzPath) || strings.Contains(fn.name, "zzverif") {
				continue
			}
			if strings.Contains(fn.name, "michaelmacinnis") {
				fns[fn.name] = true
			} else {
				stdFns[fn.name] = true
			}
		}
		for k, n := range x.stubs {
			stubs[k] += n
		}
		var missing []string
		for _, l := range r.spec.Reach {
			if !x.reached[l] {
				missing = append(missing, l)
			}
		}
		if len(x.reached) == 0 {
			missing = append(missing, "(any)")
		}
		bound := !x.incomplete.Load()
		if !bound || len(missing) > 0 {
			complete = false
		}
		rm := map[string]any{
			"harness": r.spec.Harness, "claim": r.spec.Claim, "bounds": r.params,
			"options":   map[string]any{"max_steps": x.opt.maxSteps, "max_depth": x.opt.maxDepth, "all_schedules": x.opt.explore, "preemptions": x.opt.preempt, "delays": x.opt.delay, "held_up": x.opt.hold, "race_detection": x.opt.race},
			"paths":     x.paths,
			"explored":  map[bool]string{true: "every path within the bounds", false: "part of the bounded space"}[bound],
			"decisions": x.choices, "instructions": x.instrs,
			"assertions_by_solver": x.assertSMT, "assertions_by_simplification": x.assertConcrete,
			"queries": x.sh.Queries, "queries_cached": x.sh.CacheHits, "solver_s": float64(x.sh.SolverNS) / 1e9,
			"reached": sortedKeys(x.reached), "wall_s": r.wall,
			"native_validations": r.valid,
		}
		if len(missing) > 0 {
			rm["not_reached"] = missing
		}
		if len(x.notes) > 0 {
			rm["notes"] = x.notes
		}
		if len(x.unsup) > 0 {
			rm["outside_encoding"] = x.unsup
		}
		if len(r.diverge) > 0 {
			rm["native_divergences"] = r.diverge
		}
		if len(r.unconf) > 0 {
			rm["unconfirmed_counterexamples"] = r.unconf
		}
		if x.depthHit.Load() {
			rm["depth_bound_hit"] = true
		}
		runs = append(runs, rm)
		for i, s := range x.samples {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.spec.Harness, "inputs": s})
		}
		x.sh.smu.Lock()
		for i, s := range x.sh.samples {
			if i >= 1 || len(s) > 3000 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.spec.Harness, "query": s})
		}
		x.sh.smu.Unlock()
	}
	if samples == nil {
		samples = []any{"none"}
	}
	cov := map[string]any{
		"states": paths, "transitions": instrs, "traces_validated_against_impl": valid,
		"samples": samples, "exhaustive": complete,
		"explanation":           "states: symbolic paths completed; transitions: SSA instructions of the real code executed symbolically; traces_validated_against_impl: concrete instances of passing paths replayed on the natively compiled code with the same outcome",
		"functions_encoded":     sortedKeys(fns),
		"functions_encoded_n":   len(fns),
		"library_functions_n":   len(stdFns),
		"library_models":        stubs,
		"bounds":                e.sp.Bounds,
		"outside_bounds":        e.sp.Outside,
		"queries":               q,
		"queries_sat":           sat,
		"queries_unsat":         unsat,
		"queries_unknown":       unk,
		"query_cache_hits":      hits,
		"solver_s":              float64(solverNS) / 1e9,
		"solver_max_query_s":    float64(maxNS) / 1e9,
		"assertions_by_solver":  as,
		"assertions_simplified": ac,
		"runs":                  runs,
		"load_s":                e.loadS,
	}
	if e.problem != "" {
		cov["problem"] = e.problem
	}
	out := map[string]any{
		"property": e.sp.Property, "tier": e.tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": e.sp.Assumptions, "wall_s": time.Since(e.t0).Seconds(), "violations": viol,
	}
	if e.sp.Assumptions == nil {
		delete(out, "assumptions")
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", e.sp.Property+".json"), append(b, '\n'), 0o644)
}

func (x *Explorer) summary(r *runResult) {
	st := "all paths within bounds"
	if x.incomplete.Load() {
		st = "REDUCED"
	}
	fmt.Printf("%s %v: %d paths, %d decisions, %d instructions, asserts %d smt + %d simplified, %d queries %.1fs solver, %d native validations, %.1fs, %s\n",
		x.name, r.params, x.paths, x.choices, x.instrs, x.assertSMT, x.assertConcrete, x.sh.Queries, float64(x.sh.SolverNS)/1e9, r.valid, r.wall, st)
	if len(x.reached) == 0 {
		fmt.Println("  VACUOUS: no reach mark hit")
	}
	for _, l := range r.spec.Reach {
		if !x.reached[l] {
			fmt.Println("  NOT REACHED:", l)
		}
	}
	pr := func(h string, m map[string]int) {
		for i, k := range sortedKeys(m) {
			if i > 5 {
				break
			}
			fmt.Printf("  %s (%d) %s\n", h, m[k], k)
		}
	}
	pr("note", x.notes)
	pr("unsupported", x.unsup)
	for _, d := range r.diverge {
		fmt.Println("  DIVERGENCE", d)
	}
	for _, d := range r.unconf {
		fmt.Println("  UNCONFIRMED", d)
	}
	if x.depthHit.Load() {
		fmt.Println("  depth bound hit")
	}
}
