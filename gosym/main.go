package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagRepo    = flag.String("repo", "/repo", "repository")
	flagVerif   = flag.String("verif", "", "verification directory")
	flagH       = flag.String("h", "", "harness pkg.Func (debug run)")
	flagParams  = flag.String("p", "", "params k=v,...")
	flagOpts    = flag.String("o", "", "options k=v,...")
	flagWorkers = flag.Int("j", 8, "workers")
	flagBudget  = flag.Duration("t", 60*time.Second, "budget")
	flagProf    = flag.String("prof", "", "cpu profile")
	flagDump    = flag.String("dump", "", "dump queries to directory")
)

func main() {
	debug.SetGCPercent(400)
	flag.Parse()
	if *flagProf != "" {
		f, _ := os.Create(*flagProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if flag.NArg() == 1 && flag.Arg(0) == "warm" {
		warm(*flagVerif, *flagRepo)
		return
	}
	if flag.NArg() >= 2 && flag.Arg(0) == "check" {
		verif := *flagVerif
		if verif == "" {
			verif, _ = os.Getwd()
		}
		tier := os.Getenv("VERIF_TIER")
		if flag.NArg() > 2 {
			tier = flag.Arg(2)
		}
		if tier == "" {
			tier = "quick"
		}
		rc := check(verif, *flagRepo, flag.Arg(1), tier)
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	debugRun()
}

func harnessOverlay(verif, repo string) map[string][]byte {
	ov := map[string][]byte{}
	root := filepath.Join(verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			b, _ := os.ReadFile(p)
			ov[filepath.Join(repo, "internal/zzverif", rel)] = b
		}
		return nil
	})
	// The shell's main package, as one that harnesses can import.
	ms, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	for _, p := range ms {
		if b, err := os.ReadFile(p); err == nil && !strings.HasSuffix(p, "_test.go") {
			ov[filepath.Join(repo, "internal/zzverif/hmain", "root_"+filepath.Base(p))] = packageMain.ReplaceAll(b, []byte("package hmain"))
		}
	}
	return ov
}

var packageMain = regexp.MustCompile(`(?m)^package main\b`)

func atoiMap(s string) map[string]int {
	m := map[string]int{}
	for _, kv := range strings.Split(s, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			var n int
			fmt.Sscan(v, &n)
			m[k] = n
		}
	}
	return m
}

func (o *Options) apply(m map[string]int) {
	for k, v := range m {
		switch k {
		case "explore":
			o.explore = v != 0
		case "preempt":
			o.explore = true
			o.preempt = v
		case "hold":
			o.hold = v != 0
		case "delay":
			o.explore = true
			o.delay = v
		case "maxSteps":
			o.maxSteps = int64(v)
		case "maxDepth":
			o.maxDepth = v
		case "mapOrder":
			o.mapOrder = v != 0
		case "mergeInts":
			o.mergeInts = v != 0
		case "mustTerminate":
			o.mustTerminate = v != 0
		case "race":
			o.race = v != 0
		case "okDeadlock":
			o.okDeadlock = v != 0
		case "maxPaths":
			o.maxPaths = int64(v)
		case "noBigModel":
			o.noBigModel = v != 0
		case "workers":
			o.workers = v
		case "budget":
			o.budget = time.Duration(v) * time.Second
		default:
			panic("unknown option " + k)
		}
	}
}

func defaultOptions() Options {
	return Options{preempt: -1, delay: -1, maxSteps: 3000000, maxDepth: 2000, workers: *flagWorkers, budget: *flagBudget, maxViol: 4}
}

func debugRun() {
	verif := *flagVerif
	if verif == "" {
		verif = "/verif"
	}
	ov := harnessOverlay(verif, *flagRepo)
	pkg, fn, _ := strings.Cut(*flagH, ".")
	t0 := time.Now()
	p, _, err := load(*flagRepo, ov, []string{zzPath + "/sx", zzPath + "/mos", zzPath + "/" + pkg}, "")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0))
	opt := defaultOptions()
	opt.apply(atoiMap(*flagOpts))
	x := newExplorer(p, pkg, fn, opt, atoiMap(*flagParams))
	_ = flagDump
	x.Run()
	x.report(os.Stdout)
}

func newExplorer(p *Program, pkg, fn string, opt Options, params map[string]int) *Explorer {
	sp := p.pkg(zzPath + "/" + pkg)
	sp.Build()
	x := &Explorer{name: pkg + "." + fn, opt: opt, params: params, sh: newShared()}
	x.entry = sp.Func(fn)
	if x.entry == nil {
		fmt.Fprintf(os.Stderr, "no harness %s.%s\n", pkg, fn)
		os.Exit(2)
	}
	x.setup = sp.Func("Setup")
	if f := sp.Func(fn + "Setup"); f != nil {
		x.setup = f
	}
	x.inits = []*ssa.Package{p.pkg(sxPath), p.pkg(zzPath + "/mos"), sp}
	return x
}

func (x *Explorer) report(f *os.File) {
	fmt.Fprintf(f, "%s: paths=%d (assume-cut %d) choices=%d instrs=%d asserts(concrete)=%d asserts(smt)=%d queries=%d (cache %d, sat %d, unsat %d, unknown %d) solver=%v max=%v wall=%v init=%dms/%d complete=%v\n",
		x.name, x.paths, x.pathsAssume, x.choices, x.instrs, x.assertConcrete, x.assertSMT,
		x.sh.Queries, x.sh.CacheHits, x.sh.SatN, x.sh.UnsatN, x.sh.UnknownN, time.Duration(x.sh.SolverNS), time.Duration(x.sh.MaxNS),
		time.Since(x.started).Round(time.Millisecond), x.initMS, x.initSteps, !x.incomplete.Load())
	for _, k := range sortedKeys(x.reached) {
		fmt.Fprintf(f, "  reached %s\n", k)
	}
	for _, k := range sortedKeys(x.notes) {
		fmt.Fprintf(f, "  note (%d) %s\n", x.notes[k], k)
	}
	for _, k := range sortedKeys(x.unsup) {
		fmt.Fprintf(f, "  unsupported (%d) %s\n", x.unsup[k], k)
	}
	for _, v := range x.viols {
		b, _ := json.MarshalIndent(v, "  ", " ")
		fmt.Fprintf(f, "  VIOL %s\n", b)
	}
	if os.Getenv("GOSYM_COV") != "" {
		var ns []string
		for fn := range x.covered {
			ns = append(ns, fn.name)
		}
		sort.Strings(ns)
		fmt.Fprintln(f, strings.Join(ns, "\n"))
	}
	if os.Getenv("GOSYM_SAMPLES") != "" {
		for _, s := range x.samples {
			b, _ := json.Marshal(s)
			fmt.Fprintln(f, string(b))
		}
	}
}
