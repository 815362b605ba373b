package main

import (
	"bufio"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	infos      map[*types.Package]*types.Info
	curLocals  map[string][]localVar
	baseLocals map[string][]localVar
	early func() bool // runs the real code while obligations are being tried again
	opaqueOK    map[string]bool
	db          *SpecDB
	prog        *ssa.Program
	tpkgs       map[string]*types.Package
	fset        *token.FileSet
	repo        string
	loopMemo    map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	knownNonNil map[int]bool
	funcs       map[string]*ssa.Function
	globals     map[*ssa.Global]*globalInfo
	globalsDone bool
	initOf      map[*ssa.Global]ssa.Value
	qs          *quick
	satCache    map[string]bool
	verbose     bool
	quickCalls  int
	quickTime   time.Duration
}

type globalInfo struct {
	val   *Term
	facts []func(st *State)
	done  bool
}

func NewEngine(repo, specDir string, patterns []string) (*Engine, error) {
	g := &Engine{opaqueOK: map[string]bool{}, db: NewSpecDB(), repo: repo, tpkgs: map[string]*types.Package{}, loopMemo: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		knownNonNil: map[int]bool{}, funcs: map[string]*ssa.Function{}, globals: map[*ssa.Global]*globalInfo{}, satCache: map[string]bool{}, infos: map[*types.Package]*types.Info{}, curLocals: map[string][]localVar{}, baseLocals: loadLocals(specDir + "/locals.json")}
	if err := g.db.LoadDir(specDir); err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Tests: false}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.Types != nil {
			g.tpkgs[p.PkgPath] = p.Types
			if p.TypesInfo != nil {
				g.infos[p.Types] = p.TypesInfo
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	g.prog = prog
	g.fset = prog.Fset
	all := ssautil.AllFunctions(prog)
	for _, p := range pkgs {
		if p.Types == nil {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					if f := prog.FuncValue(nt.Method(i)); f != nil {
						all[f] = true
					}
				}
			}
		}
	}
	for f := range all {
		if f.Synthetic != "" && f.Synthetic != "package initializer" {
			continue
		}
		if f.Parent() != nil || !inModuleFn(f) {
			continue
		}
		g.funcs[specKey(f)] = f
	}
	return g, nil
}

// specKey is "pkgpath.Key" with Key = "Func", "T.M" or "*T.M".
func specKey(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	var pkg *types.Package
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg
	} else if f.Object() != nil {
		pkg = f.Object().Pkg()
	}
	p := ""
	if pkg != nil {
		p = pkg.Path()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if pt, ok := t.(*types.Pointer); ok {
			star = "*"
			t = pt.Elem()
		}
		n := "?"
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			n = nt.Obj().Name()
			if nt.Obj().Pkg() != nil {
				p = nt.Obj().Pkg().Path()
			}
		}
		return p + "." + star + n + "." + f.Name()
	}
	return p + "." + f.Name()
}

func (x *Exec) specFor(cc *ssa.CallCommon) *FuncSpec {
	var key string
	if cc.IsInvoke() {
		n, ok := types.Unalias(cc.Value.Type()).(*types.Named)
		if !ok {
			return nil
		}
		p := ""
		if n.Obj().Pkg() != nil {
			p = n.Obj().Pkg().Path()
		}
		key = p + "." + n.Obj().Name() + "." + cc.Method.Name()
	} else {
		f := cc.StaticCallee()
		if f == nil {
			return nil
		}
		key = specKey(f)
	}
	return x.specByKey(key)
}

func (x *Exec) specByKey(key string) *FuncSpec {
	sp := x.g.db.Funcs[key]
	if sc := x.g.db.Scoped[key]; sc != nil && x.spec != nil {
		best := -1
		for _, p := range sc {
			if (x.spec.Pkg == p || strings.HasPrefix(x.spec.Pkg, p+"/")) && len(p) > best {
				best = len(p)
				sp = x.g.db.Funcs[key+"@"+p]
			}
		}
	}
	if sp == nil {
		return nil
	}
	if x.spec != nil {
		if l := x.spec.Opts["inline"]; l != "" {
			for _, n := range strings.Split(l, ",") {
				if n == sp.Key {
					return nil
				}
			}
		}
	}
	return sp
}

func (g *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := g.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(g.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (g *Engine) posShort(p token.Pos, in ssa.Instruction) string {
	if !p.IsValid() && in != nil && in.Block() != nil {
		for _, i := range in.Block().Instrs {
			if i.Pos().IsValid() {
				p = i.Pos()
			}
		}
	}
	if !p.IsValid() {
		if in != nil && in.Parent() != nil {
			return in.Parent().Name()
		}
		return "?"
	}
	q := g.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (g *Engine) note(m map[string]bool, s string) {
	m[s] = true
}

func sortStrings(s []string) { sort.Strings(s) }

// ---------- package variables ----------

// initGlobals evaluates the initialisers of package variables that are never written outside init.
func (g *Engine) initGlobals() {
	g.globalsDone = true
	written := map[*ssa.Global]bool{}
	type ini struct {
		gl *ssa.Global
		v  ssa.Value
	}
	var inits []ini
	var fieldMut = map[string]bool{} // struct fields stored to outside constructors
	for f := range ssautil.AllFunctions(g.prog) {
		if !inModuleFn(f) {
			continue
		}
		isInit := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if gl, ok := st.Addr.(*ssa.Global); ok {
						if isInit {
							inits = append(inits, ini{gl, st.Val})
						} else {
							written[gl] = true
						}
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && !isInit {
						if _, loc := fa.X.(*ssa.Alloc); !loc {
							pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
							fieldMut[typeKey(pt)+"."+fmt.Sprint(fa.Field)] = true
						}
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if gl, ok := (*op).(*ssa.Global); ok {
						switch u := in.(type) {
						case *ssa.UnOp:
							// loads of maps must only be read
							if _, ok := u.Type().Underlying().(*types.Map); ok && !isInit {
								for _, r := range *u.Referrers() {
									switch r.(type) {
									case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.Call:
									default:
										written[gl] = true
									}
								}
							}
						case *ssa.DebugRef:
						default:
							if !isInit {
								written[gl] = true
							}
						}
					}
				}
			}
		}
	}
	sort.Slice(inits, func(i, j int) bool { return inits[i].gl.String() < inits[j].gl.String() })
	n := int64(1000000)
	g.initOf = map[*ssa.Global]ssa.Value{}
	for _, it := range inits {
		if !written[it.gl] {
			g.initOf[it.gl] = it.v
		}
	}
	for _, it := range inits {
		n++
		if written[it.gl] {
			continue
		}
		ref := Int(n)
		gi := &globalInfo{}
		t := it.gl.Type().Underlying().(*types.Pointer).Elem()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Unsupported); ok {
						gi = nil
						return
					}
					panic(r)
				}
			}()
			gi.val = g.initVal(it.v, t, ref, gi, fieldMut)
		}()
		if gi != nil && gi.val != nil {
			g.globals[it.gl] = gi
		}
	}
}

func (g *Engine) initVal(v ssa.Value, t types.Type, ref *Term, gi *globalInfo, mut map[string]bool) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return zeroOf(c.Type())
		}
		return constTerm(c.Value, c.Type())
	case *ssa.UnOp:
		if gl, ok := c.X.(*ssa.Global); ok && c.Op == token.MUL {
			if iv, ok := g.initOf[gl]; ok {
				switch iv.(type) {
				case *ssa.Const, *ssa.UnOp:
					return g.initVal(iv, t, ref, gi, mut)
				}
			}
		}
		return nil
	case *ssa.MakeInterface:
		in := g.initVal(c.X, c.X.Type(), ref, gi, mut)
		if in == nil {
			return nil
		}
		return MkCtor(boxCtor(c.X.Type()), in)
	case *ssa.Alloc:
		pt := c.Type().Underlying().(*types.Pointer).Elem()
		st, ok := isStruct(pt)
		if !ok || st.NumFields() == 0 || isOpaqueStruct(pt) {
			return ref
		}
		vals := map[int]ssa.Value{}
		for _, r := range *c.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, r2 := range *fa.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == fa {
						vals[fa.Field] = s.Val
					}
				}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if mut[typeKey(pt)+"."+fmt.Sprint(i)] {
				continue
			}
			var fv *Term
			if sv, ok := vals[i]; ok {
				cst, isC := sv.(*ssa.Const)
				if !isC {
					continue
				}
				if cst.Value == nil {
					fv = zeroOf(cst.Type())
				} else {
					fv = constTerm(cst.Value, cst.Type())
				}
			} else {
				fv = zeroOf(st.Field(i).Type())
			}
			h := fieldHeap(pt, i)
			gi.facts = append(gi.facts, func(s *State) { s.assume(Eq(Select(s.arr(h), ref), fv)) })
		}
		return ref
	case *ssa.MakeMap:
		mt := c.Type().Underlying().(*types.Map)
		dom := ConstArr(ArrSort(sortOf(mt.Key()), SBool), False)
		val := ConstArr(ArrSort(sortOf(mt.Key()), sortOf(mt.Elem())), zeroOf(mt.Elem()))
		cnt := 0
		for _, r := range *c.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok {
				kt := g.initVal(mu.Key, mu.Key.Type(), ref, gi, mut)
				vt := g.initVal(mu.Value, mu.Value.Type(), ref, gi, mut)
				if kt == nil || vt == nil {
					return ref
				}
				dom = Store(dom, kt, True)
				val = Store(val, kt, vt)
				cnt++
			}
		}
		d, vv := mapDom(mt), mapVal(mt)
		constMaps[ref.Name] = [2]*Term{dom, val}
		gi.facts = append(gi.facts, func(s *State) {
			s.assume(Eq(Select(s.arr(d), ref), dom))
			s.assume(Eq(Select(s.arr(vv), ref), val))
		})
		return ref
	case *ssa.Call:
		f := c.Call.StaticCallee()
		if f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
			return MkCtor("box_other", Int(0), ref)
		}
	}
	return nil
}

func (g *Engine) globalInit(gl *ssa.Global) *globalInfo {
	if !g.globalsDone {
		g.initGlobals()
	}
	return g.globals[gl]
}

// constMaps: content of package-level maps that are never written after initialisation.
var constMaps = map[string][2]*Term{}

var _ = constant.MakeBool

// ---------- quick solver ----------

type quick struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startQuick() *quick {
	cmd := exec.Command("z3-new", "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		cmd = exec.Command("z3", "-in", "-smt2")
		in, _ = cmd.StdinPipe()
		out, _ = cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			panic(err)
		}
	}
	return &quick{cmd, in, bufio.NewReader(out)}
}

// ask returns "sat", "unsat" or "unknown".
func (g *Engine) ask(script string, ms int) string {
	if g.qs == nil {
		g.qs = startQuick()
	}
	g.quickCalls++
	t0 := time.Now()
	q := g.qs
	timer := time.AfterFunc(time.Duration(ms)*time.Millisecond*4+2*time.Second, func() { q.cmd.Process.Kill() })
	defer timer.Stop()
	io.WriteString(q.in, "(reset)\n(set-option :timeout "+fmt.Sprint(ms)+")\n"+script+"\n(echo \"@@\")\n")
	res := "unknown"
	for {
		ln, err := q.out.ReadString('\n')
		if err != nil {
			q.cmd.Wait()
			g.qs = nil
			break
		}
		ln = strings.TrimSpace(ln)
		if ln == "@@" {
			break
		}
		if ln == "sat" || ln == "unsat" || ln == "unknown" {
			res = ln
		} else if strings.HasPrefix(ln, "(error") && g.verbose {
			fmt.Fprintln(os.Stderr, "quick solver:", ln)
			os.WriteFile("/tmp/quick_err.smt2", []byte(script), 0o644)
		}
	}
	g.quickTime += time.Since(t0)
	if d := os.Getenv("GOVC_SLOWQ"); d != "" && time.Since(t0) > 200*time.Millisecond {
		os.WriteFile(filepath.Join(d, fmt.Sprintf("q%d_%d_%s.smt2", g.quickCalls, time.Since(t0).Milliseconds(), res)), []byte(script), 0o644)
	}
	return res
}

func key(as []*Term) string {
	ids := make([]int, len(as))
	for i, a := range as {
		ids[i] = a.ID
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

// quickSat: false only when the conjunction is certainly unsatisfiable.
func (g *Engine) quickSat(as []*Term) bool {
	k := key(as)
	if r, ok := g.satCache[k]; ok {
		return r
	}
	r := g.ask(QuickScriptOf(as), 400) != "unsat"
	g.satCache[k] = r
	return r
}

func (x *Exec) quickProve(st *State, goal *Term) bool {
	if goal == True || st.facts[goal.ID] {
		return true
	}
	if goal == False {
		return false
	}
	as := relevant(append(st.assumptions(), Not(goal)), Not(goal))
	k := "P" + key(as)
	if r, ok := x.g.satCache[k]; ok {
		return r
	}
	r := x.g.ask(ScriptOf(as, nil), 600) == "unsat"
	x.g.satCache[k] = r
	return r
}

// ---------- discharging ----------

type solverRun struct {
	name string
	args []string
}

func portfolio(secs int) []solverRun {
	t := fmt.Sprint(secs)
	return []solverRun{
		{"z3-5", []string{"z3-new", "-T:" + t}},
		{"cvc5", []string{"cvc5", "--tlimit=" + t + "000", "--full-saturate-quant", "-q"}},
		{"z3-4.8", []string{"z3", "-T:" + t}},
		{"z3-5-mbqi-off", []string{"z3-new", "-T:" + t, "smt.mbqi=false", "smt.random_seed=7"}},
	}
}

// variants search differently: instances that one strategy misses for ever another one often meets at once
func variants(secs int) []solverRun {
	t := fmt.Sprint(secs)
	return []solverRun{
		{"z3-5", []string{"z3-new", "-T:" + t, "smt.arith.solver=2"}},
		{"z3-5", []string{"z3-new", "-T:" + t, "smt.random_seed=1"}},
		{"z3-5", []string{"z3-new", "-T:" + t, "auto_config=false", "smt.case_split=3"}},
	}
}

func runSolver(dir string, n int, s solverRun, script string) (string, string, time.Duration) {
	f := filepath.Join(dir, fmt.Sprintf("o%d_%s.smt2", n, s.name))
	os.WriteFile(f, []byte(script), 0o644)
	defer os.Remove(f)
	t0 := time.Now()
	cmd := exec.Command(s.args[0], append(append([]string{}, s.args[1:]...), f)...)
	out, _ := cmd.CombinedOutput()
	o := string(out)
	d := time.Since(t0)
	for _, ln := range strings.Split(o, "\n") {
		switch strings.TrimSpace(ln) {
		case "unsat":
			return "unsat", "", d
		case "sat":
			return "sat", o, d
		case "unknown", "timeout":
			return "unknown", o, d
		}
	}
	return "error", trunc(o, 400), d
}

type Stats struct {
	ByEngine map[string]int
	Millis   int64
	Queries  int
}

// discharge decides the obligations in parallel.
func (g *Engine) discharge(obls []*Obl, first, second int, stats *Stats) {
	dir, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(dir)
	type job struct {
		key  string
		obls []*Obl
		scr  string
		full string
		opt  string
		vac  bool

		done, sat          bool
		abs, model, reason string
		spent              time.Duration
	}
	jobs := map[string]*job{}
	var order []*job
	for _, o := range obls {
		if o.Status == "proved" || o.Status == "failed" {
			if o.Solver != "" {
				stats.ByEngine[o.Solver]++
			}
			continue
		}
		as := append(append([]*Term{}, o.Assume...), Not(o.Goal))
		all := as
		if !o.Vacuity {
			as = relevant(as, Not(o.Goal))
		}
		k := key(as) + fmt.Sprint(o.Vacuity)
		j := jobs[k]
		if j == nil {
			j = &job{key: k, scr: ScriptOf(as, nil), vac: o.Vacuity}
			if len(as) < len(all) {
				j.full = ScriptOf(all, nil)
			}
			jobs[k] = j
			order = append(order, j)
		}
		j.obls = append(j.obls, o)
	}
	var mu sync.Mutex
	finish := func(j *job, status, solver, model, reason string, total time.Duration) {
		mu.Lock()
		defer mu.Unlock()
		j.done = true
		stats.Queries++
		stats.Millis += total.Milliseconds()
		for _, o := range j.obls {
			o.Status, o.Solver, o.Model, o.Millis, o.Reason = status, solver, model, total.Milliseconds(), reason
			if status == "proved" && !j.vac {
				stats.ByEngine[solver]++
			}
		}
	}
	t0 := time.Now()
	parallel := func(f func(i int, j *job)) {
		ch := make(chan int)
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range ch {
					f(i, order[i])
				}
			}()
		}
		for i, j := range order {
			if !j.done {
				ch <- i
			}
		}
		close(ch)
		wg.Wait()
	}
	// first pass: one short attempt at everything
	parallel(func(i int, j *job) {
		s := portfolio(min(first, 3))[0]
		if j.vac {
			s = solverRun{"z3-5", []string{"z3-new", "-T:2", "-t:500"}}
		}
		r, out, d := runSolver(dir, i, s, j.scr)
		j.spent += d
		switch {
		case j.vac:
			reason := ""
			if r == "error" {
				reason = out
			}
			finish(j, map[string]string{"unsat": "proved", "sat": "failed", "unknown": "unknown", "error": "unknown"}[r], s.name, "", reason, d)
		case r == "unsat":
			finish(j, "proved", s.name, "", "", d)
		case r == "sat":
			j.sat, j.model = true, out
		default:
			j.reason += s.name + ": " + r + " " + trunc(strings.ReplaceAll(out, "\n", " "), 160) + "; "
		}
	})
	for _, j := range order {
		if !j.done {
			if as := abstracted(j.obls[0].Assume, j.obls[0].Goal); as != nil {
				j.abs = ScriptOf(as, nil)
			}
			o := j.obls[0]
			as := append(append([]*Term{}, o.Assume...), Not(o.Goal))
			if !o.Vacuity {
				as = relevant(as, Not(o.Goal))
			}
			if o.facts != nil {
				facts = o.facts
			}
			if f := openFacts(as); len(f) > 0 {
				j.opt = ScriptOf(append(f, as...), nil)
			}
		}
	}
	// when much is left, the real code is run meanwhile: if that shows a failing input there is no need to try harder
	var found atomic.Bool
	left := 0
	for _, j := range order {
		if !j.done {
			left++
		}
	}
	if left > 8 && g.early != nil {
		go func() {
			if g.early() {
				found.Store(true)
			}
		}()
	}
	// second pass: the propositional abstraction, then the other solvers with growing limits
	parallel(func(i int, j *job) {
		if found.Load() {
			finish(j, "unknown", "", j.model, j.reason+"not tried further: the real code shows a failing input", j.spent)
			return
		}
		status, solver, model := "unknown", "", ""
		if j.sat {
			status, solver, model = "failed", "z3-5", j.model
			if j.full == "" && j.opt == "" {
				finish(j, status, solver, model, "", j.spent)
				return
			}
		} else if j.abs != "" {
			if r, _, d := runSolver(dir, i, portfolio(2)[0], j.abs); r == "unsat" {
				finish(j, "proved", "z3-5", "", "", j.spent+d)
				return
			}
		}
		if j.opt != "" {
			// with the facts about references read under quantifiers
			for _, s := range append(portfolio(min(first, 5))[:2], variants(min(first, 5))...) {
				if found.Load() {
					break
				}
				r, _, d := runSolver(dir, i, s, j.opt)
				j.spent += d
				if r == "unsat" {
					finish(j, "proved", s.name, "", "", j.spent)
					return
				}
			}
		}
		if status == "unknown" && j.full != "" {
			// the facts left out as irrelevant may have been needed
			r, _, d := runSolver(dir, i, portfolio(min(first, 3))[0], j.full)
			j.spent += d
			if r == "unsat" {
				finish(j, "proved", "z3-5", "", "", j.spent)
				return
			}
		}
		for _, s := range variants(min(first, 4)) {
			if status != "unknown" || found.Load() || time.Since(t0) > 240*time.Second {
				break
			}
			if r, _, d := runSolver(dir, i, s, j.scr); r == "unsat" {
				finish(j, "proved", s.name, "", "", j.spent+d)
				return
			}
		}
		for round, secs := range []int{first, second} {
			if secs == 0 || status != "unknown" {
				continue
			}
			// many undischarged obligations: the check still has to come to an end
			if found.Load() {
				continue
			}
			if e := time.Since(t0); e > 420*time.Second || round == 1 && e > 240*time.Second {
				continue
			}
			for _, s := range portfolio(secs) {
				if round == 0 && (s.name == "z3-5-mbqi-off") {
					continue
				}
				r, out, d := runSolver(dir, i, s, j.scr)
				j.spent += d
				if r == "unsat" {
					status, solver = "proved", s.name
					break
				}
				if r == "sat" {
					status, solver, model = "failed", s.name, out
					break
				}
				j.reason += s.name + ": " + r + " " + trunc(strings.ReplaceAll(out, "\n", " "), 160) + "; "
			}
		}
		// the facts left out as irrelevant may contradict each other: then the path is infeasible
		if status != "proved" && j.full != "" && !found.Load() && time.Since(t0) < 420*time.Second {
			for _, s := range portfolio(first) {
				if s.name == "z3-5-mbqi-off" {
					continue
				}
				r, out, d := runSolver(dir, i, s, j.full)
				j.spent += d
				if r == "unsat" {
					status, solver, model = "proved", s.name, ""
					break
				}
				if r == "sat" {
					status, solver, model = "failed", s.name, out
					break
				}
			}
		}
		if d := os.Getenv("GOVC_DUMP"); d != "" && status != "proved" {
			for n, t := range map[string]string{"scr": j.scr, "full": j.full, "opt": j.opt, "abs": j.abs} {
				os.WriteFile(filepath.Join(d, fmt.Sprintf("o%d_%s.smt2", i, n)), []byte(t), 0o644)
			}
		}
		finish(j, status, solver, model, j.reason, j.spent)
	})
	// a few stubborn ones: every strategy at once, with a long limit (a busy machine makes the limits above short)
	var rest []*job
	for _, j := range order {
		if !j.vac && j.obls[0].Status == "unknown" {
			rest = append(rest, j)
		}
	}
	if second > 0 && len(rest) <= 3 && !found.Load() {
		for n, j := range rest {
			if time.Since(t0) > 300*time.Second {
				break
			}
			j := j
			var wg sync.WaitGroup
			var won atomic.Bool
			scripts := []string{j.scr}
			if j.opt != "" {
				scripts = append(scripts, j.opt)
			}
			for m, scr := range scripts {
				for v, s := range append(portfolio(60), variants(60)...) {
					if m > 0 && s.name != "z3-5" && s.name != "cvc5" || won.Load() {
						continue
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						r, _, d := runSolver(dir, 100000+n*100+m*10+v, s, scr)
						if r == "unsat" && won.CompareAndSwap(false, true) {
							finish(j, "proved", s.name, "", "", j.spent+d)
						}
					}()
				}
			}
			wg.Wait()
		}
	}
	// a return of a function may be unreachable on one path; not on all of them
	reach := map[string]bool{}
	for _, o := range obls {
		if o.Vacuity && strings.HasPrefix(o.Label, "return-reachable") && o.Status != "proved" {
			reach[o.Func] = true
		}
	}
	for _, o := range obls {
		if o.Vacuity && strings.HasPrefix(o.Label, "return-reachable") && o.Status == "proved" && reach[o.Func] {
			o.Status = "unreachable-path"
		}
	}

}
