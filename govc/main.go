package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type PropConf struct {
	Replay      []ReplayConf `json:"replay"`
	Assumptions []string     `json:"assumptions"`
	Bounded     string       `json:"bounded"` // non-empty: the replay driver also runs when every obligation is discharged; states the bound
	Level       string       `json:"level"`
	First       int          `json:"first_timeout"`
	Second      int          `json:"second_timeout"`
}

type ReplayConf struct {
	Pkg  string   `json:"pkg"`  // ./internal/...
	Dir  string   `json:"dir"`  // relative to /verif
	Also []string `json:"also"` // further directories overlaid: "dir=pkg"
	Race bool     `json:"race"`
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check|dev ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "dev":
		cmdDev(os.Args[2:])
	case "locals":
		cmdLocals(os.Args[2:])
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func patternsFor() []string { return []string{"./internal/...", "./pkg/..."} }

func cmdDev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	v := fs.Bool("v", false, "")
	all := fs.Bool("all", false, "show every obligation")
	dump := fs.String("dump", "", "dump scripts of failing obligations here")
	prop := fs.String("prop", "", "")
	first := fs.Int("t", 4, "")
	second := fs.Int("t2", 0, "")
	show := fs.String("show", "", "print the SSA of this function and stop")
	fs.Parse(args)
	t0 := time.Now()
	g, err := NewEngine(*repo, filepath.Join(*verif, "contracts"), patternsFor())
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(1)
	}
	g.verbose = *v
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	if *show != "" {
		for k, f := range g.funcs {
			if strings.Contains(k, *show) {
				fmt.Println("##", k)
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	var todo []*FuncSpec
	for _, sp := range g.db.Order {
		if sp.Extern {
			continue
		}
		if *prop != "" && !has(sp.Props, *prop) {
			continue
		}
		ok := fs.NArg() == 0
		for _, p := range fs.Args() {
			if m, _ := regexp.MatchString(p, sp.Pkg+"."+sp.Key); m {
				ok = true
			}
		}
		if ok {
			todo = append(todo, sp)
		}
	}
	bad := 0
	n := 0
	run := func(name string, r *FuncResult, t1 time.Time) {
		gen := time.Since(t1)
		st := &Stats{ByEngine: map[string]int{}}
		t2 := time.Now()
		g.discharge(r.Obls, *first, *second, st)
		fmt.Printf("%-70s obls=%d paths=%d returns=%d gen=%.1fs solve=%.1fs %v\n", name, len(r.Obls), r.Paths, r.Returns, gen.Seconds(), time.Since(t2).Seconds(), st.ByEngine)
		if r.Err != "" {
			fmt.Println("   UNSUPPORTED:", r.Err)
		}
		for i, o := range r.Obls {
			n++
			okk := o.Status == "proved"
			if o.Vacuity {
				okk = o.Status != "proved"
			}
			if okk && !*all {
				continue
			}
			if !okk {
				bad++
			}
			fmt.Printf("   %s %s/%s @%s [%s %s %dms] %s %s\n", map[bool]string{true: "ok  ", false: "FAIL"}[okk], o.Kind, o.Label, o.Pos, o.Status, o.Solver, o.Millis, o.Src, trunc(o.Reason, 300))
			if !okk {
				fmt.Println("        trace:", strings.Join(o.Trace, " > "))
				if *v {
					fmt.Println("        goal:", o.Goal)
				}
				if *dump != "" {
					os.MkdirAll(*dump, 0o755)
					as := append(append([]*Term{}, o.Assume...), Not(o.Goal))
					os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s_%d.smt2", sanitize(o.Label), i)), []byte(ScriptOf(relevant(as, Not(o.Goal)), nil)), 0o644)
				}
			}
		}
	}
	for _, sp := range todo {
		t1 := time.Now()
		run(sp.Pkg[len(modulePath)+1:]+"."+sp.Key, g.verifyFunc(sp), t1)
	}
	for _, l := range g.db.Lemmas {
		if fs.NArg() == 0 && (*prop == "" || has(l.Props, *prop)) {
			run("lemma "+l.Label, g.verifyLemma(l), time.Now())
		} else {
			for _, p := range fs.Args() {
				if m, _ := regexp.MatchString(p, "lemma."+l.Label); m {
					run("lemma "+l.Label, g.verifyLemma(l), time.Now())
				}
			}
		}
	}
	fmt.Printf("total %.1fs, %d obligations, %d bad, quick %d calls %.1fs\n", time.Since(t0).Seconds(), n, bad, g.quickCalls, g.quickTime.Seconds())
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	tier := fs.String("tier", "quick", "")
	fs.Parse(args)
	prop := fs.Arg(0)
	start := time.Now()
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	confs := map[string]*PropConf{}
	if b, err := os.ReadFile(filepath.Join(*verif, "checks.json")); err == nil {
		if err := json.Unmarshal(b, &confs); err != nil {
			fmt.Println("checks.json:", err)
			return 1
		}
	}
	conf := confs[prop]
	if conf == nil {
		conf = &PropConf{}
	}
	first, second := 6, 20
	if conf.First > 0 {
		first = conf.First
	}
	if conf.Second > 0 {
		second = conf.Second
	}
	if *tier == "thorough" {
		second = 90
	}
	replay := filepath.Join(*verif, "evidence", prop+".replay.txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.Remove(replay)

	var failed []*Obl
	var results []*FuncResult
	stats := &Stats{ByEngine: map[string]int{}}
	g, err := NewEngine(*repo, filepath.Join(*verif, "contracts"), patternsFor())
	if err != nil {
		failed = append(failed, &Obl{Func: "(all)", Kind: "unsupported", Label: "source-loads", Status: "failed", Reason: err.Error()})
	} else {
		done := map[string]bool{}
		var work []*FuncSpec
		for _, sp := range g.db.Order {
			if !sp.Extern && has(sp.Props, prop) {
				work = append(work, sp)
			}
		}
		if len(work) == 0 {
			hasLemma := false
			for _, l := range g.db.Lemmas {
				hasLemma = hasLemma || has(l.Props, prop)
			}
			if !hasLemma {
				fmt.Println("no function under contract for", prop)
				return 1
			}
		}
		for len(work) > 0 {
			sp := work[0]
			work = work[1:]
			k := sp.Pkg + "." + sp.Key
			if done[k] {
				continue
			}
			done[k] = true
			r := g.verifyFunc(sp)
			results = append(results, r)
			var us []string
			for u := range r.Exec.used {
				us = append(us, u)
			}
			sort.Strings(us)
			for _, u := range us {
				if s := r.Exec.used[u]; !s.Extern && !done[u] && s.Opts["assumed"] != "on" && !g.isIface(s) {
					work = append(work, s)
				}
			}
		}
		for _, l := range g.db.Lemmas {
			if has(l.Props, prop) {
				results = append(results, g.verifyLemma(l))
			}
		}
	}
	var obls []*Obl
	for _, r := range results {
		for _, o := range r.Obls {
			if len(o.Props) > 0 && !has(o.Props, prop) && (o.Kind == "ensures" || o.Kind == "invariant" || o.Kind == "callback") {
				continue
			}
			obls = append(obls, o)
		}
	}
	tGen := time.Since(start)
	// the drivers that run the real code, at most once
	var driverOut []string
	driverCases := map[string]int{}
	var driverOnce sync.Once
	driverTxt, driverFound := "", false
	runDrv := func() (string, bool) {
		driverOnce.Do(func() {
			var fails []string
			for _, rc := range conf.Replay {
				out, fail := runDriver(*repo, *verif, prop, *tier, seed, rc, driverCases, "")
				driverOut = append(driverOut, out)
				if fail != "" {
					fails = append(fails, fail)
				}
			}
			driverTxt, driverFound = strings.Join(fails, "\n"), len(fails) > 0
		})
		return driverTxt, driverFound
	}
	if g != nil {
		g.early = func() bool { _, found := runDrv(); return found }
		g.discharge(obls, first, second, stats)
	}
	if os.Getenv("GOVC_TIME") != "" {
		fmt.Printf("generated after %s, discharged after %s\n", tGen, time.Since(start))
		so := append([]*Obl{}, obls...)
		sort.Slice(so, func(i, j int) bool { return so[i].Millis > so[j].Millis })
		for i, o := range so {
			if i < 12 {
				fmt.Println(o.Millis, o.Func, o.Kind, o.Label, o.Status, o.Pos)
			}
		}
	}
	total, discharged, vac := 0, 0, 0
	perFunc := map[string][2]int{}
	for _, o := range obls {
		if o.Vacuity {
			if o.Status == "proved" {
				failed = append(failed, o)
			} else {
				vac++
			}
			continue
		}
		total++
		c := perFunc[o.Func]
		c[0]++
		if o.Status == "proved" {
			discharged++
			c[1]++
		} else {
			failed = append(failed, o)
		}
		perFunc[o.Func] = c
	}
	// known findings
	known := loadKnown(filepath.Join(*verif, "known_findings.txt"))
	var fresh []*Obl
	printed := map[string]bool{}
	for _, o := range failed {
		id := o.Func + "/" + o.Kind + "/" + o.Label
		if txt, ok := known[prop+" "+id]; ok && !o.Vacuity && o.Kind != "unsupported" {
			if !printed[id] {
				printed[id] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (obligation %s)\n", prop, txt, id)
			}
			continue
		}
		fresh = append(fresh, o)
	}
	violations := 0
	exit := 0
	if len(fresh) > 0 {
		exit = 1
		violations = len(fresh)
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d obligation(s) not discharged on the current source of %s\n\n", prop, len(fresh), *repo)
		for i, o := range fresh {
			if i >= 25 {
				fmt.Fprintf(&sb, "... and %d more\n", len(fresh)-i)
				break
			}
			st := o.Status
			if o.Vacuity {
				st = "vacuous: provable although it must not be"
			}
			fmt.Fprintf(&sb, "obligation %s/%s/%s\n  at %s\n  clause: %s\n  status: %s %s %s\n", o.Func, o.Kind, o.Label, o.Pos, o.Src, st, o.Solver, o.Reason)
			if len(o.Trace) > 0 {
				fmt.Fprintf(&sb, "  path: %s\n", strings.Join(o.Trace, " > "))
			}
			if o.Goal != nil && !o.Vacuity {
				fmt.Fprintf(&sb, "  goal: %s\n", o.Goal)
			}
			if o.Model != "" {
				fmt.Fprintf(&sb, "  verifier: the negated goal is satisfiable\n")
			}
			fmt.Fprintln(&sb)
			if i < 6 {
				fmt.Printf("NOT DISCHARGED %s/%s/%s at %s: %s %s\n", o.Func, o.Kind, o.Label, o.Pos, o.Src, trunc(o.Reason, 200))
			}
		}
		txt, found := runDrv()
		if found {
			fmt.Fprintf(&sb, "replayed against the real code:\n%s\n", txt)
			fmt.Println(trunc(txt, 1500))
		} else {
			fmt.Fprintf(&sb, "replay against the real code found no failing input (%v cases)\n%s\n", driverCases, strings.Join(driverOut, "\n"))
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		if found {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
	} else if len(conf.Replay) > 0 && (conf.Bounded != "" || *tier == "thorough") {
		txt, found := runDrv()
		if found {
			exit = 1
			violations = 1
			os.WriteFile(replay, []byte("bounded execution of the real code found a failing input:\n"+txt+"\n"), 0o644)
			fmt.Println(trunc(txt, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		}
	}
	// evidence
	level := conf.Level
	if level == "" {
		level = "proof"
	}
	trusted := map[string]bool{
		"govc (the verification-condition generator in /verif/govc) and golang.org/x/tools/go/ssa": true,
		"the SMT solvers z3 5.x, z3 4.8.12 and cvc5 1.1.2":                                         true,
	}
	assume := map[string]bool{
		"partial correctness: termination is not proved": true,
		"machine integers wrap; loads of integers are assumed within their machine range; a length fits an int":                   true,
		"sequential semantics: each function is verified as if no other goroutine changes the state it reads while it runs (locks are tracked as ghost counters)": true,
	}
	funcs := []string{}
	inl := map[string]bool{}
	for _, r := range results {
		funcs = append(funcs, r.Exec.name())
		for k := range r.Exec.modelled {
			trusted["library contract: "+k] = true
		}
		for k := range r.Exec.assumed {
			assume[k] = true
		}
		for k := range r.Exec.inlined {
			inl[k] = true
		}
		for k, s := range r.Exec.used {
			if s.Extern || s.Opts["assumed"] == "on" || g.isIface(s) {
				trusted["assumed contract: "+strings.ReplaceAll(k, modulePath+"/", "")] = true
			}
		}
	}
	for _, a := range conf.Assumptions {
		assume[a] = true
	}
	sort.Strings(funcs)
	var undis []string
	for _, o := range failed {
		undis = append(undis, o.Func+"/"+o.Kind+"/"+o.Label)
	}
	samples := []string{}
	for _, o := range obls {
		if o.Status == "proved" && !o.Vacuity && o.Solver != "simplifier" && len(samples) < 6 {
			samples = append(samples, fmt.Sprintf("%s/%s/%s by %s in %d ms: %s", o.Func, o.Kind, o.Label, o.Solver, o.Millis, o.Src))
		}
	}
	cov := map[string]any{
		"obligations": total, "discharged": discharged,
		"checker_cmd":              fmt.Sprintf("/verif/check.sh %s %s", prop, *tier),
		"trusted_base":             sortedKeys(trusted),
		"functions_under_contract": funcs,
		"functions_inlined":        sortedKeys(inl),
		"by_back_end":              stats.ByEngine,
		"solver_ms":                stats.Millis,
		"solver_queries":           stats.Queries,
		"vacuity_guards_passed":    vac,
		"obligations_per_function": perFunc,
		"undischarged":             undis,
		"samples":                  samples,
	}
	if g != nil {
		cov["feasibility_queries"] = g.quickCalls
	}
	if len(driverCases) > 0 {
		cov["bounded_replay_cases"] = driverCases
		n := 0
		for _, c := range driverCases {
			n += c
		}
		cov["evaluations"] = n
		cov["bounded_note"] = "executions of the real code against the executable form of the contract; bounded, not counted as proved. Bound: " + conf.Bounded
	}
	ev := map[string]any{"property": prop, "tier": *tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": sortedKeys(assume), "wall_s": time.Since(start).Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*verif, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("%s: %d/%d obligations discharged over %d functions, %d vacuity guards, %d known findings, %.1fs\n", prop, discharged, total, len(results), vac, len(printed), time.Since(start).Seconds())
	return exit
}

// isIface: the contract is that of an interface method, which has no body.
func (g *Engine) isIface(sp *FuncSpec) bool {
	if i := strings.LastIndex(sp.Key, "."); i > 0 {
		if p := g.tpkgs[sp.Pkg]; p != nil {
			if o := p.Scope().Lookup(strings.TrimPrefix(sp.Key[:i], "*")); o != nil {
				return types.IsInterface(o.Type())
			}
		}
	}
	return false
}

func loadKnown(f string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(f)
	if err != nil {
		return m
	}
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "known: ") {
			continue
		}
		// known: property=P01 obligation=<id> <text>
		f := strings.SplitN(ln[7:], " ", 3)
		if len(f) < 3 {
			continue
		}
		m[strings.TrimPrefix(f[0], "property=")+" "+strings.TrimPrefix(f[1], "obligation=")] = f[2]
	}
	return m
}

// runDriver executes the in-package replay driver through an overlay.
func runDriver(repo, verif, prop, tier string, seed int, rc ReplayConf, cases map[string]int, extra string) (string, string) {
	tmp, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		return err.Error(), ""
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	addDir := func(dir, pkg string) {
		fs, _ := filepath.Glob(filepath.Join(verif, dir, "*_test.go"))
		for _, f := range fs {
			n := strings.TrimSuffix(filepath.Base(f), "_test.go")
			repl[filepath.Join(repo, pkg, "zz_"+n+"_verif_test.go")] = f
		}
	}
	addDir(rc.Dir, rc.Pkg)
	for _, a := range rc.Also {
		p := strings.SplitN(a, "=", 2)
		addDir(p[0], p[1])
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, b, 0o644)
	args := []string{"test", "-overlay", ov, "-v", "-vet=off", "-count=1", "-timeout", "240s", "-run", "^TestVerif" + prop}
	if rc.Race {
		args = append(args, "-race")
	}
	args = append(args, rc.Pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "VERIF_SEED="+fmt.Sprint(seed), "VERIF_TIER="+tier, "TMPDIR="+tmp, "GOFLAGS=-mod=readonly", "GOPROXY=off")
	done := make(chan struct{})
	var out []byte
	go func() { out, _ = cmd.CombinedOutput(); close(done) }()
	select {
	case <-done:
	case <-time.After(270 * time.Second):
		cmd.Process.Kill()
		<-done
	}
	o := string(out)
	var fails []string
	for _, ln := range strings.Split(o, "\n") {
		t := strings.TrimSpace(ln)
		if p := strings.Index(t, "VERIF-FAIL"); p >= 0 {
			fails = append(fails, t[p:])
		}
		if p := strings.Index(t, "VERIF-CASES "); p >= 0 {
			f := strings.Fields(t[p:])
			if len(f) >= 3 {
				n, _ := strconv.Atoi(f[2])
				cases[f[1]] += n
			}
		}
	}
	if len(fails) == 0 && strings.Contains(o, "panic: test timed out") {
		fails = append(fails, "VERIF-FAIL the real code does not return (timeout); goroutine dump:\n"+trunc(o, 3000))
	} else if len(fails) == 0 && strings.Contains(o, "--- FAIL: TestVerif") && strings.Contains(o, "panic:") {
		i := strings.Index(o, "panic:")
		fails = append(fails, "VERIF-FAIL the real code panicked: "+trunc(o[i:], 1500))
	} else if len(fails) == 0 && (strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:")) && !strings.Contains(o, "[build failed]") {
		i := strings.Index(o, "panic:")
		if i < 0 {
			i = strings.Index(o, "fatal error:")
		}
		fails = append(fails, "VERIF-FAIL the real code crashed: "+trunc(o[i:], 1500))
	}
	if len(fails) > 8 {
		fails = fails[:8]
	}
	return trunc(o, 3000), strings.Join(fails, "\n")
}
