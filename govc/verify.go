package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) topEnv(st *State) *Env {
	e := &Env{x: x, st: st, old: x.entry, vars: map[string]SV{}, pkg: x.spec.Scope, wm: x.entryWM()}
	for n, v := range x.pvars {
		e.vars[n] = v
	}
	return e
}

type FuncResult struct {
	Spec    *FuncSpec
	Exec    *Exec
	Err     string
	Obls    []*Obl
	Paths   int
	Returns int
}

func (g *Engine) newExec(sp *FuncSpec, fn *ssa.Function) *Exec {
	x := &Exec{g: g, top: fn, spec: sp, maxPaths: 6000, inlined: map[string]bool{}, used: map[string]*FuncSpec{}, assumed: map[string]bool{},
		loopOrd: map[loopKey]int{}, modelled: map[string]bool{}, bindOpts: map[string]int{}, loopHits: map[int]bool{}, cbParam: map[int]string{}, pvars: map[string]SV{}}
	if m := sp.Opts["paths"]; m != "" {
		fmt.Sscanf(m, "%d", &x.maxPaths)
	}
	return x
}

// verifyFunc generates the obligations of one function under contract.
func (g *Engine) verifyFunc(sp *FuncSpec) (res *FuncResult) {
	opts := map[string]int{}
	var last *FuncResult
	last = g.verifyOnce(sp, opts, false)
	if last.Err != "" && strings.Contains(last.Err, "path budget") && sp.Opts["merge"] == "" {
		last = g.verifyOnce(sp, opts, true)
	}
	return last
}

func (g *Engine) verifyOnce(sp *FuncSpec, opts map[string]int, merge bool) (res *FuncResult) {
	res = &FuncResult{Spec: sp}
	fn := g.funcs[sp.Pkg+"."+sp.Key]
	if strings.HasPrefix(sp.Key, "go ") {
		fn = g.goBody(sp)
	}
	typedElems = sp != nil && sp.Opts["elements"] == "typed"
	facts = newFacts()
	defer func(f *factCtx) {
		if res != nil {
			for _, o := range res.Obls {
				o.facts = f
			}
		}
	}(facts)
	curTypeParams = map[string]types.Type{}
	if fn != nil {
		for _, l := range []*types.TypeParamList{fn.Signature.TypeParams(), fn.Signature.RecvTypeParams()} {
			for i := 0; i < l.Len(); i++ {
				curTypeParams[l.At(i).Obj().Name()] = l.At(i)
			}
		}
	}
	x := g.newExec(sp, fn)
	x.bindOpts = opts
	x.autoMerge = merge
	res.Exec = x
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch e := r.(type) {
			case Unsupported:
				msg = e.msg
			case SpecError:
				msg = fmt.Sprintf("contract %s:%d: %s", sp.File, sp.Line, e.msg)
			default:
				if g.verbose {
					panic(r)
				}
				msg = fmt.Sprintf("internal: %v", r)
			}
			res.Err = msg
			res.Obls = append(x.obls, &Obl{Func: x.name(), Kind: "unsupported", Label: "within-reach", Status: "failed", Reason: msg, Goal: False, Src: msg})
			res.Paths = x.paths
		}
	}()
	if fn == nil {
		unsupported("function %s.%s not found in the source", sp.Pkg, sp.Key)
	}
	st := &State{heap: map[string]*Term{}, ghost: map[string]*Term{}, facts: map[int]bool{}}
	refCtr += 1000
	x.entryRef = refCtr
	if sp.Opts["nolocks"] == "on" {
		for _, w := range []bool{true, false} {
			st.heap[lockHeap(w)] = ConstArr(heapSorts[lockHeap(w)], Int(0))
		}
		x.assumed["the calling goroutine holds none of the locks that "+sp.Key+" takes when it calls it"] = true
	}
	var args []Val
	isGo := strings.HasPrefix(sp.Key, "go ")
	if !isGo && len(sp.Params) > len(fn.Params) {
		unsupported("contract names %d parameters, the code has %d", len(sp.Params), len(fn.Params))
	}
	for i, p := range fn.Params {
		n := p.Name()
		if !isGo && i < len(sp.Params) {
			n = strings.Fields(sp.Params[i])[0]
		}
		t := Const(fmt.Sprintf("p.%s.%s", sp.Key, n), sortOf(p.Type()))
		st.wf(t, p.Type(), 0)
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok && sp.Opts["nilreceiver"] != "ok" {
				st.assume(Not(Eq(t, Int(0))))
				g.knownNonNil[t.ID] = true
			}
		}
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			x.cbParam[t.ID] = n
		}
		args = append(args, t)
		sv := SV{t: t, ty: goTy(p.Type())}
		x.pvars[n] = sv
		x.params = append(x.params, sv)
	}
	var clo *Closure
	if len(fn.FreeVars) > 0 {
		clo = &Closure{fn: fn}
		var cells []*Term
		for _, fv := range fn.FreeVars {
			t := Const(fmt.Sprintf("fv.%s.%s", sp.Key, fv.Name()), sortOf(fv.Type()))
			st.wf(t, fv.Type(), 0)
			clo.binds = append(clo.binds, t)
			pt, ok := fv.Type().Underlying().(*types.Pointer)
			if !ok {
				x.pvars[fv.Name()] = SV{t: t, ty: goTy(fv.Type())}
				continue
			}
			st.assume(Not(Eq(t, Int(0))))
			g.knownNonNil[t.ID] = true
			for _, c := range cells {
				st.assume(Not(Eq(c, t)))
			}
			cells = append(cells, t)
			if s, ok := isStruct(pt.Elem()); ok && s.NumFields() > 0 && !isOpaqueStruct(pt.Elem()) {
				x.pvars[fv.Name()] = SV{t: t, ty: goTy(fv.Type())}
				continue
			}
			v := st.loadAddr(ptrAddr(t, pt.Elem()))
			st.wf(v, pt.Elem(), 0)
			x.pvars[fv.Name()] = SV{t: v, ty: goTy(pt.Elem())}
		}
	}
	if isGo { // variables of a goroutine's contract are found by their type
		vs := map[string]SV{}
		for _, prm := range sp.Params {
			f := strings.SplitN(strings.TrimSpace(prm), " ", 2)
			want := g.goType(f[1], sp.Scope)
			ok := false
			opt := strings.HasSuffix(f[0], "?") // the goroutine need not have it
			f[0] = strings.TrimSuffix(f[0], "?")
			try := func(n string) {
				if v, in := x.pvars[n]; in && !ok && types.Identical(v.ty.gt, want) {
					vs[f[0]], ok = v, true
				}
			}
			try(f[0])
			for _, p := range fn.Params {
				try(p.Name())
			}
			for _, fv := range fn.FreeVars {
				try(fv.Name())
			}
			if !ok && opt {
				t := Fresh("opt."+f[0], sortOf(want))
				st.wf(t, want, 0)
				vs[f[0]], ok = SV{t: t, ty: goTy(want)}, true
			}
			if !ok {
				unsupported("the goroutine has no variable of type %s", f[1])
			}
		}
		x.pvars = vs
	}
	// ghosts of the callbacks
	for _, cs := range sp.Calls {
		fv, ok := x.pvars[cs.Param]
		if !ok {
			unsupported("calls: no parameter %s", cs.Param)
		}
		srt := SUnit
		sig := fv.ty.gt.Underlying().(*types.Signature)
		if len(cs.Vars) > 0 {
			f := strings.SplitN(cs.Vars[0], " ", 2)
			if len(f) > 1 {
				srt = g.resolveType(f[1], sp.Scope).sort
			} else {
				srt = sortOf(sig.Params().At(0).Type())
			}
		}
		st.ghost[x.cbGhost(cs.Param, "called")] = ConstArr(ArrSort(srt, SBool), False)
		st.ghost[x.cbGhost(cs.Param, "count")] = Int(0)
		st.ghost[x.cbGhost(cs.Param, "stopped")] = False
		if sig.Results().Len() > 0 {
			st.ghost[x.cbGhost(cs.Param, "ret")] = Fresh("noret_"+cs.Param, sortOf(sig.Results().At(0).Type()))
		}
	}
	x.entry = st.clone()
	env := x.topEnv(st)
	env.old = st
	for _, a := range g.db.Axioms {
		e := &Env{x: x, st: st, old: st, vars: map[string]SV{}, pkg: g.db.AxPkg[a]}
		if len(a.Props) > 0 { // axiom restricted to packages / specs by name
			ok := false
			for _, p := range a.Props {
				if p == sp.File || p == strings.TrimSuffix(sp.File, ".spec") || sp.Opts["use"] == p {
					ok = true
				}
			}
			if !ok {
				continue
			}
		} else if a.File != sp.File {
			continue
		}
		st.assume(x.evalClause(e, a))
		x.assumed["axiom "+a.File+": "+a.Src] = true
	}
	for _, l := range sp.Lets {
		v := x.evalSafe(env, l.Expr, sp)
		x.pvars[l.Name] = v
		env.vars[l.Name] = v
	}
	for _, c := range sp.Requires {
		st.assume(x.evalClause(env, c))
	}
	// map length facts for parameters
	for _, p := range x.params {
		if mt, ok := p.ty.gt.Underlying().(*types.Map); ok && p.t.Sort == SInt {
			x.mapFacts(st, mt, p.t)
		}
	}
	x.entry = st.clone()
	// vacuity: the precondition is satisfiable
	x.obls = append(x.obls, &Obl{Func: x.name(), Kind: "vacuity", Label: "precondition-satisfiable", Goal: False, Assume: st.assumptions(), Vacuity: true, Pos: g.pos(fn.Pos())})
	x.numberLoops(fn, map[*ssa.Function]bool{})
	if g.verbose {
		type lo struct {
			n int
			s string
		}
		var los []lo
		for k, n := range x.loopOrd {
			if k.b != nil {
				los = append(los, lo{n, fmt.Sprintf("loop %d: %s", n, g.posShort(k.b.Instrs[0].Pos(), k.b.Instrs[0]))})
			} else {
				los = append(los, lo{n, fmt.Sprintf("loop %d: callback at %s", n, g.posShort(k.in.Pos(), k.in))})
			}
		}
		sort.Slice(los, func(i, j int) bool { return los[i].n < los[j].n })
		for _, l := range los {
			fmt.Println("   ", l.s)
		}
	}
	// invariants of loops the code does not have are left out: what they helped to show is then shown without them or not
	x.runFunc(fn, clo, args, st, nil, func(st *State, r []Val) { x.atReturn(fn, st, r) })
	if x.returns == 0 && !sp.NoReturn {
		x.obls = append(x.obls, &Obl{Func: x.name(), Kind: "vacuity", Label: "returns-reachable", Goal: False, Status: "proved", Vacuity: true, Reason: "no path reaches a return"})
	}
	hits := x.retHits
	if n := len(hits); n > 4 { // spread over the returns
		hits = []*State{hits[0], hits[n/3], hits[2*n/3], hits[n-1]}
	}
	for i, s := range hits {
		x.obls = append(x.obls, &Obl{Func: x.name(), Kind: "vacuity", Label: fmt.Sprintf("return-reachable.%d", i), Goal: False, Assume: s.assumptions(), Vacuity: true, Pos: g.pos(fn.Pos())})
	}
	res.Obls = x.obls
	res.Paths = x.paths
	res.Returns = x.returns
	return res
}

func (x *Exec) atReturn(fn *ssa.Function, st *State, r []Val) {
	if st.dead {
		return
	}
	x.returns++
	{
		x.retHits = append(x.retHits, st.clone())
	}
	sp := x.spec
	e := x.topEnv(st)
	for i, v := range r {
		t := fn.Signature.Results().At(i).Type()
		sv := SV{ty: goTy(t)}
		switch a := v.(type) {
		case *Term:
			sv.t = a
		case *Addr:
			sv.t, sv.v = asTerm(a), a
		}
		if i < len(sp.Results) {
			e.vars[strings.Fields(sp.Results[i])[0]] = sv
		}
		if i == 0 {
			e.vars["result"] = sv
		}
	}
	for _, cs := range sp.Calls {
		if rv, ok := st.ghost[x.cbGhost(cs.Param, "ret")]; ok {
			t := x.pvars[cs.Param].ty.gt.Underlying().(*types.Signature).Results().At(0).Type()
			e.vars["ret_"+cs.Param] = SV{t: rv, ty: goTy(t)}
		}
		if cs.Mode == "many" {
			c := st.ghost[x.cbGhost(cs.Param, "called")]
			ks, _ := splitArr(c.Sort)
			e.vars["called_"+cs.Param] = SV{t: c, ty: &STy{sort: c.Sort, key: &STy{sort: ks}, elem: &STy{sort: SBool, gt: types.Typ[types.Bool]}}}
			e.vars["stopped_"+cs.Param] = bsv(st.ghost[x.cbGhost(cs.Param, "stopped")])
		} else {
			e.vars["called_"+cs.Param] = bsv(Not(Eq(st.ghost[x.cbGhost(cs.Param, "count")], Int(0))))
		}
	}
	e.vars["$fresh"] = isv(Int(x.entryWM()))
	x.applySets(st, e, sp.Sets)
	pos := fn.Pos()
	for _, c := range sp.Ensures {
		x.oblige(st, "ensures", c.Label, x.evalClause(e, c), pos, c.Src, c.Props)
	}
	for _, cs := range sp.Returned {
		fv, ok := e.vars[cs.Param]
		if !ok || fv.ty.gt == nil {
			unsupported("returned: no result %s", cs.Param)
		}
		sig := fv.ty.gt.Underlying().(*types.Signature)
		s2 := st.clone()
		if cs.Cond != nil {
			c := x.evalSafe(e, cs.Cond, sp).t
			if !x.feasible(s2, c) {
				continue
			}
			s2.assume(c)
		}
		fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string]ssa.Value{}, visits: map[*ssa.BasicBlock]int{}}
		b := fn.Blocks[len(fn.Blocks)-1]
		bind := func(st *State) (map[string]SV, []Val, *Env) {
			vars := map[string]SV{}
			var args []Val
			for j, d := range cs.Vars {
				f := strings.SplitN(d, " ", 2)
				ty := goTy(sig.Params().At(j).Type())
				v := Fresh("cb_"+f[0], ty.sort)
				st.wf(v, sig.Params().At(j).Type(), -refCtr)
				vars[f[0]] = SV{t: v, ty: ty}
				args = append(args, v)
			}
			e2 := e.with(vars)
			e2.st = st
			return vars, args, e2
		}
		x.runLater(fr, s2, fv.val(), sig, b.Instrs[len(b.Instrs)-1], pos, cs.Param, cs, bind)
	}
	for _, cs := range sp.Calls {
		if cs.Mode == "later" {
			continue
		}
		cnt := st.ghost[x.cbGhost(cs.Param, "count")]
		switch cs.Mode {
		case "once":
			want := Int(1)
			if cs.Cond != nil {
				c := x.evalSafe(x.topEnv(x.entry.clone()), cs.Cond, sp).t
				want = Ite(c, Int(1), Int(0))
			}
			x.oblige(st, "callback", cs.Param+".exactly-once", Eq(cnt, want), pos, "", nil)
		case "many":
			if cs.All {
				var bvs []*Term
				bv := map[string]SV{}
				for _, dd := range cs.Vars {
					ff := strings.SplitN(dd, " ", 2)
					ty := x.g.resolveType(ff[1], sp.Scope)
					v := BVar(ff[0], ty.sort)
					bvs = append(bvs, v)
					bv[ff[0]] = SV{t: v, ty: ty}
				}
				en := x.topEnv(st).with(bv)
				var ws []*Term
				for _, w := range cs.Where {
					ws = append(ws, x.evalClause(en, w))
				}
				if cs.Cond != nil {
					ws = append(ws, x.evalSafe(en, cs.Cond, sp).t)
				}
				g := Forall(bvs, Implies(And(ws...), Select(st.ghost[x.cbGhost(cs.Param, "called")], bvs[0])))
				x.oblige(st, "callback", cs.Param+".called-for-all", Implies(Not(st.ghost[x.cbGhost(cs.Param, "stopped")]), g), pos, "", nil)
			}
		}
	}
	if sp.Opts["frame"] != "off" {
		x.frameObls(st, pos)
	}
}

func (x *Exec) frameObls(st *State, pos token.Pos) {
	env := x.topEnv(x.entry.clone())
	env.st = x.entry.clone()
	locs := x.modLocs(env.st, env, x.spec.Modifies, x.spec)
	for _, l := range locs {
		if l.all {
			return
		}
	}
	if st.epoch != x.entry.epoch {
		x.oblige(st, "frame", "modifies", False, pos, "the function may change everything", nil)
		return
	}
	var names []string
	for h := range st.heap {
		names = append(names, h)
	}
	sort.Strings(names)
	for _, h := range names {
		if h == "ONCE" {
			continue
		}
		fin := st.heap[h]
		ini := x.entry.heap[h]
		if ini == nil {
			ini = Const(fmt.Sprintf("H%d.%s", x.entry.epoch, h), heapSorts[h])
		}
		if fin == ini {
			continue
		}
		whole := false
		var allowed []*Term
		for _, l := range locs {
			if l.heap == h {
				if l.ref == nil {
					whole = true
				} else {
					allowed = append(allowed, l.ref)
				}
			}
		}
		if whole {
			continue
		}
		label := "frame." + h
		if h == "LW" || h == "LR" {
			label = "locks-released"
		}
		// peel stores
		cur := fin
		var refs []*Term
		for cur != ini && cur.Op == "store" {
			refs = append(refs, cur.Args[1])
			cur = cur.Args[0]
		}
		ok := func(r *Term) *Term {
			cs := []*Term{Lt(r, Int(x.entryWM())), Eq(r, Int(0)), Eq(Select(fin, r), Select(ini, r))}
			for _, a := range allowed {
				cs = append(cs, Eq(r, a))
			}
			return Or(cs...)
		}
		if cur == ini {
			seen := map[int]bool{}
			for _, r := range refs {
				if seen[r.ID] {
					continue
				}
				seen[r.ID] = true
				if r.isInt() && freshLit(r, x.entryRef) {
					continue
				}
				x.oblige(st, "frame", label, ok(r), pos, "only the declared locations change", nil)
			}
			continue
		}
		r := BVar("r", SInt)
		x.oblige(st, "frame", label, Forall([]*Term{r}, ok(r)), pos, "only the declared locations change", nil)
	}
	// ghosts
	for n, t := range st.ghost {
		if n == "gostarts" { // counts the go statements of the body itself
			continue
		}
		if strings.HasPrefix(n, "$") || isIterGhost(n) && strings.HasPrefix(n, "it") {
			continue
		}
		ini := x.entry.ghost[n]
		if ini == nil {
			ini = Const("G0."+n, t.Sort)
		}
		if ini == t {
			continue
		}
		okG := false
		for _, l := range locs {
			if l.ghost == n {
				okG = true
			}
		}
		for _, s := range x.spec.Sets {
			if s.Name == n {
				okG = true
			}
		}
		if !okG {
			x.oblige(st, "frame", "ghost."+n, Eq(ini, t), pos, "", nil)
		}
	}
}

// verifyLemma proves a lemma in an arbitrary state.
func (g *Engine) verifyLemma(c *Clause) (res *FuncResult) {
	sp := &FuncSpec{Pkg: g.db.LemPkg[c], Scope: g.db.LemPkg[c], Key: "lemma " + c.Label, Opts: map[string]string{}, Loops: map[int]*LoopSpec{}, File: c.File, Line: c.Line, Callbacks: map[string]*CallbackSpec{}}
	x := g.newExec(sp, nil)
	typedElems, facts = false, newFacts()
	res = &FuncResult{Spec: sp, Exec: x}
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if u, ok := r.(Unsupported); ok {
				msg = u.msg
			}
			res.Err = msg
			res.Obls = []*Obl{{Func: x.name(), Kind: "unsupported", Label: "lemma", Status: "failed", Reason: msg, Goal: False}}
		}
	}()
	st := &State{heap: map[string]*Term{}, ghost: map[string]*Term{}, facts: map[int]bool{}}
	x.entry = st
	e := x.topEnv(st)
	for _, a := range g.db.Axioms {
		if a.File == c.File {
			st.assume(x.evalClause(&Env{x: x, st: st, old: st, vars: map[string]SV{}, pkg: g.db.AxPkg[a]}, a))
			x.assumed["axiom "+a.File+": "+a.Src] = true
		}
	}
	t := x.evalClause(e, c)
	x.oblige(st, "lemma", c.Label, t, token.NoPos, c.Src, c.Props)
	res.Obls = x.obls
	return res
}

// goBody finds the body of the (single) goroutine that a function starts: "go F".
func (g *Engine) goBody(sp *FuncSpec) *ssa.Function {
	f := g.funcs[sp.Pkg+"."+strings.TrimSpace(sp.Key[3:])]
	if f == nil {
		return nil
	}
	var out *ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Go); ok {
				if m, ok := c.Call.Value.(*ssa.MakeClosure); ok {
					out = m.Fn.(*ssa.Function)
				} else {
					out = c.Call.StaticCallee()
				}
			}
		}
	}
	return out
}
