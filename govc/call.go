package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type CallK func(fr *Frame, st *State, res []Val)

func (x *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, in ssa.Instruction, pos token.Pos, k CallK) bool {
	var args []Val
	var fnv Val
	if cc.IsInvoke() {
		fnv = x.val(fr, st, cc.Value)
	} else if cc.StaticCallee() == nil {
		fnv = x.val(fr, st, cc.Value)
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fnv = x.val(fr, st, mc)
	}
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	x.invoke(fr, st, cc, fnv, args, in, pos, k)
	return true
}

func resTypes(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

func (x *Exec) invoke(fr *Frame, st *State, cc *ssa.CallCommon, fnv Val, args []Val, in ssa.Instruction, pos token.Pos, k CallK) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		x.builtin(fr, st, b.Name(), cc, args, in, pos, k)
		return
	}
	if cc.IsInvoke() {
		recv := asTerm(fnv)
		// known dynamic type
		if strings.HasPrefix(recv.Op, "ctor:box_") {
			if t, ok := boxTypes[recv.Op[5:]]; ok {
				if m := x.g.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); m != nil {
					x.static(fr, st, m, nil, append([]Val{recv.Args[0]}, args...), in, pos, k)
					return
				}
			}
		}
		if sp := x.specFor(cc); sp != nil {
			x.safety(st, "no-nil-dereference", Not(Eq(recv, MkCtor("anil"))), pos)
			at := []types.Type{cc.Value.Type()}
			for i := 0; i < cc.Signature().Params().Len(); i++ {
				at = append(at, cc.Signature().Params().At(i).Type())
			}
			x.applyContract(fr, st, sp, append([]Val{fnv}, args...), at, resTypes(cc.Signature()), in, pos, k)
			return
		}
		name := types.TypeString(cc.Value.Type(), nil) + "." + cc.Method.Name()
		if x.lib("iface:"+name, fr, st, cc.Signature(), append([]Val{fnv}, args...), in, pos, k) {
			return
		}
		n, _ := types.Unalias(cc.Value.Type()).(*types.Named)
		if n != nil && inModule(n.Obj().Pkg()) {
			unsupported("interface method %s has no contract", name)
		}
		if strings.HasPrefix(recv.Op, "ctor:box_") || n == nil && name != "error.Error" {
			unsupported("method %s has no contract", name)
		}
		x.extern(fr, st, name, cc.Signature(), args, pos, k)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		var cl *Closure
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			_ = mc
			if t, ok := fnv.(*Term); ok && t.isInt() {
				cl = closReg[t.Name]
			}
		}
		x.static(fr, st, f, cl, args, in, pos, k)
		return
	}
	if t, ok := fnv.(*Term); ok && !t.isInt() {
		if p, key, owner, ot := x.fieldOf(fr, st, cc.Value); key != "" {
			if sp := x.specByKey(p + "." + key); sp != nil {
				x.safety(st, "no-nil-function-call", Not(Eq(t, Int(0))), pos)
				at := []types.Type{ot}
				for i := 0; i < cc.Signature().Params().Len(); i++ {
					at = append(at, cc.Signature().Params().At(i).Type())
				}
				x.assumed["the function stored in "+key+" satisfies its contract"] = true
				x.applyContract(fr, st, sp, append([]Val{owner}, args...), at, resTypes(cc.Signature()), in, pos, k)
				return
			}
		}
	}
	x.callVal(fr, st, fnv, args, cc.Signature(), in, pos, k)
}

// callVal calls a function value.
func (x *Exec) callVal(fr *Frame, st *State, fnv Val, args []Val, sig *types.Signature, in ssa.Instruction, pos token.Pos, k CallK) {
	t := asTerm(fnv)
	if t.Op == "ite" {
		st2, fr2 := st.clone(), fr.clone()
		c := t.Args[0]
		x.budget()
		if x.feasible(st, c) {
			st.assume(c)
			x.callVal(fr, st, t.Args[1], args, sig, in, pos, k)
		}
		if x.feasible(st2, Not(c)) {
			st2.assume(Not(c))
			x.callVal(fr2, st2, t.Args[2], args, sig, in, pos, k)
		}
		return
	}
	if t.isInt() {
		if cl, ok := closReg[t.Name]; ok {
			if cl.method {
				x.static(fr, st, cl.fn, nil, append(append([]Val{}, cl.binds...), args...), in, pos, k)
				return
			}
			if len(cl.binds) == 0 && cl.fn != nil {
				x.static(fr, st, cl.fn, cl, args, in, pos, k)
				return
			}
			x.static(fr, st, cl.fn, cl, args, in, pos, k)
			return
		}
	}
	x.safety(st, "no-nil-function-call", Not(Eq(t, Int(0))), pos)
	if st.dead {
		return
	}
	if n, ok := x.cbParam[t.ID]; ok {
		x.symCallback(fr, st, n, args, sig, pos, k)
		return
	}
	if x.spec.Opts["unknownfuncs"] == "pure" {
		x.assumed["calls through stored function values have no effect on the state of this module ("+x.g.pos(pos)+")"] = true
		x.libGhost(st, "fncalls", func(old *Term) *Term { return Store(old, t, Add(Select(old, t), Int(1))) })
		x.finish(fr, st, sig, k)
		return
	}
	unsupported("call of an unknown function value at %s (%s)", x.g.pos(pos), t.Op+" "+t.Name)
}

func (x *Exec) finish(fr *Frame, st *State, sig *types.Signature, k CallK) {
	var res []Val
	for _, t := range resTypes(sig) {
		res = append(res, x.freshVal(st, "ext", t))
	}
	k(fr, st, res)
}

func (x *Exec) static(fr *Frame, st *State, f *ssa.Function, cl *Closure, args []Val, in ssa.Instruction, pos token.Pos, k CallK) {
	if sp := x.specByKey(specKey(f)); sp != nil && f.Parent() == nil && !strings.Contains(f.Synthetic, "bound") && !strings.Contains(f.Synthetic, "thunk") {
		var at []types.Type
		if f.Signature.Recv() != nil {
			at = append(at, f.Signature.Recv().Type())
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			at = append(at, f.Signature.Params().At(i).Type())
		}
		if len(at) > 0 && f.Signature.Recv() != nil {
			if _, ok := at[0].Underlying().(*types.Pointer); ok && sp.Opts["nilreceiver"] != "ok" {
				x.nonNil(st, args[0], pos, "method call")
			}
		}
		x.applyContract(fr, st, sp, args, at, resTypes(f.Signature), in, pos, k)
		return
	}
	name := f.String()
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	if x.lib(name, fr, st, f.Signature, args, in, pos, k) {
		return
	}
	if f.Blocks != nil && (inModuleFn(f) || cl != nil || f.Synthetic != "") {
		x.depth++
		if x.depth > 40 {
			x.depth--
			unsupported("inlining too deep at %s", f)
		}
		if x.disc == 0 && f.Parent() == nil && f.Synthetic == "" {
			x.inlined[strings.ReplaceAll(name, modulePath+"/", "")] = true
		}
		d := x.depth
		x.runFunc(f, cl, args, st, fr, func(st2 *State, res []Val) {
			sv := x.depth
			x.depth = d - 1
			k(fr.clone(), st2, res)
			x.depth = sv
		})
		x.depth = d - 1
		return
	}
	if inModuleFn(f) {
		unsupported("no body and no contract for %s", name)
	}
	x.extern(fr, st, name, f.Signature, args, pos, k)
}

// extern: a dependency without model or contract.
func (x *Exec) extern(fr *Frame, st *State, name string, sig *types.Signature, args []Val, pos token.Pos, k CallK) {
	x.assumed["external "+name+": results arbitrary, no effect on the state of this module, does not panic"] = true
	x.finish(fr, st, sig, k)
}

// ---------- contracts at call sites ----------

func (x *Exec) bindArgs(sp *FuncSpec, args []Val, at []types.Type) map[string]SV {
	vars := map[string]SV{}
	if len(sp.Params) > len(args) {
		unsupported("contract of %s names %d parameters, the code has %d", sp.Key, len(sp.Params), len(args))
	}
	for i, n := range sp.Params {
		n = strings.Fields(n)[0]
		sv := SV{ty: goTy(at[i])}
		switch a := args[i].(type) {
		case *Term:
			sv.t = a
		case *Addr:
			sv.t = asTerm(a)
			sv.v = a
		default:
			unsupported("argument %T", a)
		}
		vars[n] = sv
	}
	return vars
}

func (x *Exec) applyContract(fr *Frame, st *State, sp *FuncSpec, args []Val, at, rt []types.Type, in ssa.Instruction, pos token.Pos, k CallK) {
	if x.disc == 0 {
		x.used[sp.Pkg+"."+sp.Key] = sp
	}
	pre := st.clone()
	vars := x.bindArgs(sp, args, at)
	wm0 := -refCtr
	env := &Env{x: x, st: st, old: pre, vars: vars, pkg: sp.Scope, wm: wm0}
	for _, l := range sp.Lets {
		vars[l.Name] = x.evalSafe(env, l.Expr, sp)
	}
	for _, c := range sp.Requires {
		t := x.evalClause(env, c)
		if x.spec.Opts["definitions"] == "assume" && strings.HasPrefix(c.Label, "definition") {
			x.assumed["recursive specification functions satisfy their defining equations in the state of the call of "+sp.Key] = true
			st.assume(t)
			continue
		}
		x.oblige(st, "requires", sp.Key+"."+c.Label, t, pos, c.Src, c.Props)
		st.assume(t)
	}
	if st.dead {
		return
	}
	if sp.NoReturn {
		return
	}
	for _, s := range sp.Sets {
		_ = s
	}
	x.havocModifies(st, env, sp)
	refCtr += 1000
	rest := func(fr *Frame, st *State, extra map[string]SV) {
		e := &Env{x: x, st: st, old: pre, vars: map[string]SV{}, pkg: sp.Scope, wm: wm0}
		for n, v := range vars {
			e.vars[n] = v
		}
		for n, v := range extra {
			e.vars[n] = v
		}
		var res []Val
		for i, t := range rt {
			v := Fresh("r_"+lastName(sp.Key), sortOf(t))
			st.wf(v, t, -refCtr)
			res = append(res, v)
			sv := SV{t: v, ty: goTy(t)}
			if i < len(sp.Results) {
				e.vars[strings.Fields(sp.Results[i])[0]] = sv
				for _, c := range sp.Ensures {
					if strings.Contains(c.Src, "isfresh("+strings.Fields(sp.Results[i])[0]+")") {
						newObj(v, t)
					}
				}
			}
			if i == 0 {
				e.vars["result"] = sv
			}
		}
		// ghost updates before ensures (they may define ghosts used there)
		x.applySets(st, e, sp.Sets)
		for _, c := range sp.Ensures {
			t := x.evalClause(e, c)
			st.assume(t)
			// results given by an equation are replaced by their definition
		}
		for i, r := range res {
			if d := defOf(st, r.(*Term)); d != nil {
				res[i] = d
			}
		}
		st.note("%s: call %s", x.g.posShort(pos, in), sp.Key)
		if st.dead {
			return
		}
		k(fr, st, res)
	}
	x.runCalls(fr, st, sp, env, in, pos, 0, map[string]SV{}, rest)
}

// defOf finds an equation r = t among the facts (most recent first).
func defOf(st *State, r *Term) *Term {
	if r.Op != "const" {
		return nil
	}
	n := 0
	for p := st.pc; p != nil && n < 40; p = p.prev {
		n++
		if p.t == r && r.Sort == SBool {
			return True
		}
		if p.t.Op == "not" && p.t.Args[0] == r {
			return False
		}
		if p.t.Op == "=" {
			a, b := p.t.Args[0], p.t.Args[1]
			if b == r {
				a, b = b, a
			}
			if a == r {
				if _, has := symsOf(b)[r.ID]; !has && !b.bound {
					return b
				}
			}
		}
	}
	return nil
}

func lastName(s string) string {
	if p := strings.LastIndex(s, "."); p >= 0 {
		return s[p+1:]
	}
	return s
}

func (x *Exec) evalSafe(e *Env, ex *Ex, sp *FuncSpec) (v SV) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(SpecError); ok {
				panic(Unsupported{fmt.Sprintf("contract %s %s: %s", sp.File, sp.Key, se.msg)})
			}
			panic(r)
		}
	}()
	return e.eval(ex)
}

func (x *Exec) applySets(st *State, e *Env, sets []*GhostSet) {
	type upd struct {
		n string
		t *Term
	}
	var us []upd
	for _, s := range sets {
		ty, ok := x.g.db.Ghosts[s.Name]
		if !ok {
			unsupported("unknown ghost %s", s.Name)
		}
		srt := x.g.resolveType(ty, x.g.db.GhostPk[s.Name]).sort
		v := x.evalSafe(e, s.Expr, x.spec)
		t := coerce(v, srt).t
		if s.Cond != nil {
			c := x.evalSafe(e, s.Cond, x.spec)
			t = Ite(c.t, t, st.ghostVal(s.Name, srt))
		}
		us = append(us, upd{s.Name, t})
	}
	for _, u := range us {
		st.ghost[u.n] = u.t
	}
}

// location described by a modifies clause
type modLoc struct {
	heap  string
	ref   *Term // nil: whole array
	ghost string
	all   bool
}

func (x *Exec) modLocs(st *State, env *Env, mods []string, sp *FuncSpec) (out []modLoc) {
	for i, m := range mods {
		if m == "ghosts" {
			mods = append(append([]string{}, mods[:i]...), mods[i+1:]...)
			for _, n := range sortedKeys2(x.g.db.Ghosts) {
				mods = append(mods, "ghost "+n)
			}
			break
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(SpecError); ok {
				panic(Unsupported{fmt.Sprintf("contract %s %s: modifies: %s", sp.File, sp.Key, se.msg)})
			}
			panic(r)
		}
	}()
	g := x.g
	for _, m := range mods {
		m = strings.TrimSpace(m)
		switch {
		case m == "everything":
			out = append(out, modLoc{all: true})
		case m == "locks":
			out = append(out, modLoc{heap: lockHeap(true)}, modLoc{heap: lockHeap(false)})
		case strings.HasPrefix(m, "ghost "):
			out = append(out, modLoc{ghost: strings.TrimSpace(m[6:])})
		case strings.HasPrefix(m, "all "):
			r := strings.TrimSpace(m[4:])
			switch {
			case strings.HasPrefix(r, "elems "):
				t := g.goType(r[6:], sp.Scope)
				out = append(out, modLoc{heap: elemHeap(t)})
			case strings.HasPrefix(r, "cells "):
				t := g.goType(r[6:], sp.Scope)
				out = append(out, modLoc{heap: cellHeap(t)})
			case strings.HasPrefix(r, "map["):
				mt := g.goType(r, sp.Scope).Underlying().(*types.Map)
				out = append(out, modLoc{heap: mapDom(mt)}, modLoc{heap: mapVal(mt)}, modLoc{heap: mapLen(mt)})
			case r == "atomics":
				out = append(out, modLoc{heap: atomicHeap()})
			case r == "onces":
				out = append(out, modLoc{heap: onceHeap()})
			case r == "channels":
				out = append(out, modLoc{heap: chanHeap()})
			default:
				p := strings.LastIndex(r, ".")
				t := g.goType(r[:p], sp.Scope)
				if r[p+1:] == "*" {
					for i := 0; i < t.Underlying().(*types.Struct).NumFields(); i++ {
						out = append(out, modLoc{heap: fieldHeap(t, i)})
					}
				} else {
					out = append(out, modLoc{heap: fieldHeap(t, fieldIndex(t, r[p+1:]))})
				}
			}
		case strings.HasPrefix(m, "elems(") && strings.HasSuffix(m, ")"):
			v := env.eval(parseEx(m[6 : len(m)-1]))
			sl := v.ty.gt.Underlying().(*types.Slice)
			out = append(out, modLoc{heap: elemHeap(sl.Elem()), ref: Sel("mkslice", 0, v.t)})
		case strings.HasPrefix(m, "map(") && strings.HasSuffix(m, ")"):
			v := env.eval(parseEx(m[4 : len(m)-1]))
			mt := v.ty.gt.Underlying().(*types.Map)
			out = append(out, modLoc{heap: mapDom(mt), ref: v.t}, modLoc{heap: mapVal(mt), ref: v.t}, modLoc{heap: mapLen(mt), ref: v.t})
		case strings.HasPrefix(m, "chan(") && strings.HasSuffix(m, ")"):
			v := env.eval(parseEx(m[5 : len(m)-1]))
			out = append(out, modLoc{heap: chanHeap(), ref: v.t})
		case strings.HasPrefix(m, "once(") && strings.HasSuffix(m, ")"):
			v := env.eval(parseEx(m[5 : len(m)-1]))
			out = append(out, modLoc{heap: onceHeap(), ref: v.t})
		case strings.HasPrefix(m, "atomic(") && strings.HasSuffix(m, ")"):
			v := env.eval(parseEx(m[7 : len(m)-1]))
			out = append(out, modLoc{heap: atomicHeap(), ref: v.t})
		case strings.HasPrefix(m, "lock(") && strings.HasSuffix(m, ")"):
			v := env.eval(parseEx(m[5 : len(m)-1]))
			out = append(out, modLoc{heap: lockHeap(true), ref: v.t}, modLoc{heap: lockHeap(false), ref: v.t})
		case strings.HasPrefix(m, "*"):
			v := env.eval(parseEx(m[1:]))
			el := v.ty.gt.Underlying().(*types.Pointer).Elem()
			if s, ok := isStruct(el); ok && s.NumFields() > 0 && !isOpaqueStruct(el) {
				for i := 0; i < s.NumFields(); i++ {
					out = append(out, modLoc{heap: fieldHeap(el, i), ref: v.t})
				}
			} else {
				a := ptrAddr(v.val(), el)
				out = append(out, modLoc{heap: a.heap, ref: a.ref})
			}
		default:
			ex := parseEx(m)
			if ex.Op != "sel" {
				specErr("cannot interpret location %q", m)
			}
			b := env.eval(ex.A[0])
			pt, ok := b.ty.gt.Underlying().(*types.Pointer)
			if !ok {
				specErr("location %q: not a pointer", m)
			}
			a := fieldAddr(b.val(), pt.Elem(), fieldIndex(pt.Elem(), ex.S)).(*Addr)
			out = append(out, modLoc{heap: a.heap, ref: a.ref})
		}
	}
	return out
}

func (x *Exec) havocModifies(st *State, env *Env, sp *FuncSpec) {
	locs := x.modLocs(env.old, &Env{x: x, st: env.old, old: env.old, vars: env.vars, pkg: env.pkg, wm: env.wm}, sp.Modifies, sp)
	refCtr += 1000
	x.havocLocs(st, locs)
}

func (x *Exec) havocLocs(st *State, locs []modLoc) {
	wm := -refCtr
	for _, l := range locs {
		switch {
		case l.all:
			lw, lr := st.arr(lockHeap(true)), st.arr(lockHeap(false))
			epochSeq++
			st.heap = map[string]*Term{}
			st.epoch = epochSeq
			epochWM[st.epoch] = wm
			st.heap[lockHeap(true)], st.heap[lockHeap(false)] = lw, lr
		case l.ghost != "":
			ty := x.g.db.Ghosts[l.ghost]
			st.ghost[l.ghost] = Fresh("g."+l.ghost, x.g.resolveType(ty, x.g.db.GhostPk[l.ghost]).sort)
		case l.ref == nil:
			n := Fresh("H."+l.heap, heapSorts[l.heap])
			arrWM[n.ID] = wm
			st.heap[l.heap] = n
		default:
			_, vs := splitArr(heapSorts[l.heap])
			v := Fresh("hv."+l.heap, vs)
			arrWM[v.ID] = wm
			if heapElemT[l.heap] != nil && !strings.HasPrefix(l.heap, "E:") && !strings.HasPrefix(l.heap, "M") {
				st.wf(v, heapElemT[l.heap], wm)
			}
			st.heap[l.heap] = Store(st.arr(l.heap), l.ref, v)
		}
	}
}

// ---------- higher-order contracts at call sites ----------

func (x *Exec) runCalls(fr *Frame, st *State, sp *FuncSpec, env *Env, in ssa.Instruction, pos token.Pos, i int, extra map[string]SV, rest func(*Frame, *State, map[string]SV)) {
	if i >= len(sp.Calls) {
		rest(fr, st, extra)
		return
	}
	cs := sp.Calls[i]
	next := func(fr *Frame, st *State, extra map[string]SV) {
		x.runCalls(fr, st, sp, env, in, pos, i+1, extra, rest)
	}
	fv := env.vars[cs.Param]
	sig := fv.ty.gt.Underlying().(*types.Signature)
	env2 := *env.with(extra)
	env2.st = st
	bindVars := func(st *State) (map[string]SV, []Val, *Env) {
		vars := map[string]SV{}
		var args []Val
		for j, d := range cs.Vars {
			f := strings.SplitN(d, " ", 2)
			var ty *STy
			if len(f) > 1 {
				ty = x.g.resolveType(f[1], sp.Scope)
			} else {
				ty = goTy(sig.Params().At(j).Type())
			}
			v := Fresh("cb_"+f[0], ty.sort)
			st.wf(v, sig.Params().At(j).Type(), -refCtr)
			vars[f[0]] = SV{t: v, ty: ty}
			args = append(args, v)
		}
		e := env2.with(vars)
		e.st = st
		for n, v := range extra {
			e.vars[n] = v
		}
		return vars, args, e
	}
	if cs.Mode == "later" {
		// the function runs some time after the call: verified on its own, its effects do not reach the caller
		x.runLater(fr.clone(), st.clone(), fv.val(), sig, in, pos, cs.Param, cs, bindVars)
		next(fr, st, extra)
		return
	}
	if cs.Mode != "many" {
		st0, fr0 := st.clone(), fr.clone()
		run := true
		noRun := cs.Mode != "once"
		if cs.Cond != nil {
			c := x.evalSafe(&env2, cs.Cond, sp).t
			if !x.feasible(st, c) {
				run = false
			}
			st.assume(c)
			if cs.Mode == "once" {
				noRun = x.feasible(st0, Not(c))
				st0.assume(Not(c))
			}
		}
		ex := func(ran bool) map[string]SV {
			m := map[string]SV{}
			for n, v := range extra {
				m[n] = v
			}
			m["called_"+cs.Param] = bsv(Bool(ran))
			return m
		}
		if run {
			if noRun {
				x.budget()
			}
			_, args, e := bindVars(st)
			for _, w := range cs.Where {
				st.assume(x.evalClause(e, w))
			}
			if !st.dead {
				x.callVal(fr, st, fv.val(), args, sig, in, pos, func(fr *Frame, st *State, res []Val) {
					m := ex(true)
					for n, v := range e.vars {
						if _, has := env.vars[n]; !has {
							m[n] = v
						}
					}
					if len(res) > 0 {
						sv := SV{t: asTerm(res[0]), ty: goTy(sig.Results().At(0).Type())}
						m["ret_"+cs.Param] = sv
						for _, w := range cs.Yield {
							ye := e.with(map[string]SV{"ret": sv})
							ye.st = st
							x.oblige(st, "callback", cs.Param+"."+w.Label, x.evalClause(ye, w), pos, w.Src, w.Props)
						}
						if cs.Bind != "" {
							st.ghost[cs.Bind] = sv.t
						}
					}
					next(fr, st, m)
				})
			}
		}
		if noRun {
			m := ex(false)
			if sig.Results().Len() > 0 { // meaningless unless called
				m["ret_"+cs.Param] = SV{t: Fresh("noret", sortOf(sig.Results().At(0).Type())), ty: goTy(sig.Results().At(0).Type())}
			}
			next(fr0, st0, m)
		}
		return
	}
	// mode many: an implicit loop
	ord := x.loopOrd[loopKey{fr.fn, nil, in}]
	x.loopHits[ord] = true
	spec := x.spec.Loops[ord]
	var seenS string
	if len(cs.Vars) > 0 {
		_, _, e := bindVars(st.clone())
		f := strings.Fields(cs.Vars[0])
		seenS = e.vars[f[0]].t.Sort
	} else {
		seenS = SUnit
	}
	symSeq++
	id := fmt.Sprintf("it%d", symSeq)
	emptySeen := ConstArr(ArrSort(seenS, SBool), False)
	d := &discovery{heaps: map[string]map[string]*Term{}, all: map[string]bool{}, ghosts: map[string]bool{}, drop: map[string]bool{}}
	var auto []autoInv
	st.ghost[id] = emptySeen
	st.ghost[id+".n"] = Int(0)
	entrySt := st.clone()
	pseudo := &LoopAct{spec: spec, ord: ord, k: Int(0), phis: map[*ssa.Phi]*Term{}, entrySt: entrySt, callID: id, callSort: seenS, pos: pos}
	single, again := false, false
	setup := func() (*Frame, *State, *LoopAct) {
		f, s := fr.clone(), entrySt.clone()
		l := *pseudo
		l.symMark = symSeq
		refCtr += 1000000
		l.refMark = refCtr
		havocHeaps(s, d, -refCtr)
		seen := Fresh("seen", ArrSort(seenS, SBool))
		kk := Fresh("k", SInt)
		if single { // no callback asks for another one: there is at most one invocation
			seen, kk = emptySeen, Int(0)
		}
		s.assume(Le(Int(0), kk))
		s.ghost[id] = seen
		s.ghost[id+".n"] = kk
		l.k = kk
		l.autoInv = nil
		for _, a := range auto {
			if !d.drop[a.name] {
				l.autoInv = append(l.autoInv, a)
			}
		}
		x.assumeInvs(f, s, &l)
		l.headSt = s.clone()
		return f, s, &l
	}
	iterate := func(f *Frame, s *State, l *LoopAct, cont func(f *Frame, s *State, l *LoopAct, res []Val)) {
		_, args, e := bindVars(s)
		for _, w := range cs.Where {
			s.assume(x.evalClause(e, w))
		}
		if cs.Cond != nil {
			s.assume(x.evalSafe(e, cs.Cond, sp).t)
		}
		var key *Term = MkCtor("unit")
		if len(args) > 0 {
			key = asTerm(args[0])
			s.assume(Not(Select(s.ghost[id], key)))
		}
		if s.dead {
			return
		}
		x.callVal(f, s, fv.val(), args, sig, in, pos, func(f *Frame, s *State, res []Val) {
			if len(res) > 0 {
				for _, w := range cs.Yield {
					ye := e.with(map[string]SV{"ret": {t: asTerm(res[0]), ty: goTy(sig.Results().At(0).Type())}})
					ye.st = s
					x.oblige(s, "callback", cs.Param+"."+w.Label, x.evalClause(ye, w), pos, w.Src, w.Props)
				}
			}
			s.ghost[id] = Store(s.ghost[id], key, True)
			s.ghost[id+".n"] = Add(l.k, Int(1))
			cont(f, s, l, res)
		})
	}
	x.disc++
	for n := 0; ; n++ {
		if n > 12 {
			x.disc--
			unsupported("callback frame discovery does not converge")
		}
		d.chg = false
		again = false
		f, s, l := setup()
		sv := x.paths
		iterate(f, s, l, func(f *Frame, s *State, l *LoopAct, res []Val) {
			if !cs.Stop || len(res) == 0 || x.feasible(s, asTerm(res[0])) {
				again = true
			}
			for _, a := range l.autoInv {
				if !d.drop[a.name] && !x.candHolds(a, f, l.headSt, s) {
					d.drop[a.name] = true
					d.chg = true
				}
			}
			diffState(d, l.headSt, s, l.symMark, l.refMark)
		})
		x.paths = sv
		auto = x.heapCands(auto, d, fr, entrySt)
		if !d.chg {
			break
		}
	}
	delete(d.ghosts, id)
	delete(d.ghosts, id+".n")
	if !again {
		single = true
		auto = nil
		d = &discovery{heaps: map[string]map[string]*Term{}, all: map[string]bool{}, ghosts: map[string]bool{}}
	}
	x.disc--
	x.checkInvs(fr, st, pseudo, "entry")
	f, s, l := setup()
	f2, s2 := f.clone(), s.clone()
	mkExtra := func(s *State, stopped bool) map[string]SV {
		m := map[string]SV{}
		for n, v := range extra {
			m[n] = v
		}
		m["called_"+cs.Param] = SV{t: s.ghost[id], ty: &STy{sort: ArrSort(seenS, SBool), elem: &STy{sort: SBool, gt: types.Typ[types.Bool]}, key: &STy{sort: seenS}}}
		m["stopped_"+cs.Param] = bsv(Bool(stopped))
		m["count_"+cs.Param] = SV{t: s.ghost[id+".n"], ty: goTy(types.Typ[types.Int])}
		return m
	}
	s.note("%s: callback of %s, arbitrary invocation", x.g.posShort(pos, in), sp.Key)
	x.budget()
	iterate(f, s, l, func(f *Frame, s *State, l *LoopAct, res []Val) {
		l2 := *l
		l2.k = Add(l.k, Int(1))
		if cs.Stop && len(res) > 0 {
			r := asTerm(res[0])
			if x.feasible(s, Not(r)) {
				s3, f3 := s.clone(), f.clone()
				s3.assume(Not(r))
				next(f3, s3, mkExtra(s3, true))
			}
			if !x.feasible(s, r) {
				return
			}
			s.assume(r)
		}
		x.checkInvs(f, s, &l2, "preserved")
	})
	s2.note("%s: after the callbacks of %s", x.g.posShort(pos, in), sp.Key)
	if cs.All {
		bv := map[string]SV{}
		var bvs []*Term
		for _, dd := range cs.Vars {
			ff := strings.SplitN(dd, " ", 2)
			ty := x.g.resolveType(ff[1], sp.Scope)
			v := BVar(ff[0], ty.sort)
			bvs = append(bvs, v)
			bv[ff[0]] = SV{t: v, ty: ty}
		}
		e := env2.with(bv)
		e.st = s2
		var ws []*Term
		for _, w := range cs.Where {
			ws = append(ws, x.evalClause(e, w))
		}
		if cs.Cond != nil {
			ws = append(ws, x.evalSafe(e, cs.Cond, sp).t)
		}
		s2.assume(Forall(bvs, Implies(And(ws...), Select(s2.ghost[id], bvs[0]))))
	}
	next(f2, s2, mkExtra(s2, false))
}

// runLater executes a function value that outlives the current call and checks its yields in the state it ends in.
func (x *Exec) runLater(fr *Frame, st *State, f Val, sig *types.Signature, in ssa.Instruction, pos token.Pos, name string, cs *CallsSpec, bindVars func(*State) (map[string]SV, []Val, *Env)) {
	x.budget()
	_, args, e := bindVars(st)
	for _, w := range cs.Where {
		st.assume(x.evalClause(e, w))
	}
	if st.dead {
		return
	}
	pre := st.clone()
	ran := false
	x.callVal(fr, st, f, args, sig, in, pos, func(fr *Frame, st *State, res []Val) {
		ran = true
		ye := e.with(nil)
		ye.st, ye.old = st, pre
		if len(res) > 0 {
			ye.vars["ret"] = SV{t: asTerm(res[0]), ty: goTy(sig.Results().At(0).Type())}
		}
		for _, w := range cs.Yield {
			x.oblige(st, "later", name+"."+w.Label, x.evalClause(ye, w), pos, w.Src, w.Props)
		}
	})
	if !ran && x.disc == 0 && len(cs.Yield) > 0 && x.feasible(pre, True) {
		x.obls = append(x.obls, &Obl{Func: x.name(), Kind: "vacuity", Label: name + ".later-reachable", Goal: False, Status: "proved", Vacuity: true, Reason: "the function given for later never returns"})
	}
}

// ---------- symbolic callbacks of the function under verification ----------

func (x *Exec) cbGhost(p, what string) string { return "$" + what + "." + p }

func (x *Exec) symCallback(fr *Frame, st *State, p string, args []Val, sig *types.Signature, pos token.Pos, k CallK) {
	var cs *CallsSpec
	for _, c := range x.spec.Calls {
		if c.Param == p {
			cs = c
		}
	}
	cb := x.spec.Callbacks[p]
	if cs == nil && cb == nil || cs != nil && cs.Mode == "later" {
		unsupported("callback parameter %s has no contract", p)
	}
	var rv *Term
	var res []Val
	for i, t := range resTypes(sig) {
		v := Fresh("ret_"+p, sortOf(t))
		st.wf(v, t, -refCtr)
		res = append(res, v)
		if i == 0 {
			rv = v
		}
	}
	if cs != nil {
		e := x.topEnv(st)
		var first *Term = MkCtor("unit")
		for j, d := range cs.Vars {
			f := strings.SplitN(d, " ", 2)
			ty := x.g.resolveType(f[1], x.spec.Scope)
			a := SV{t: asTerm(args[j]), ty: goTy(sig.Params().At(j).Type())}
			if _, isA := args[j].(*Addr); isA {
				a.v = args[j]
			}
			a = SV{t: coerce(a, ty.sort).t, ty: ty, v: a.v}
			e.vars[f[0]] = a
			if j == 0 {
				first = a.t
			}
		}
		for _, w := range cs.Where {
			t := x.evalClause(e, w)
			x.oblige(st, "callback", p+"."+w.Label, t, pos, w.Src, w.Props)
		}
		if cs.Cond != nil {
			x.oblige(st, "callback", p+".only-if", x.evalSafe(e, cs.Cond, x.spec).t, pos, "", nil)
		}
		if rv != nil {
			for _, w := range cs.Yield {
				ye := e.with(map[string]SV{"ret": {t: rv, ty: goTy(sig.Results().At(0).Type())}})
				ye.st = st
				st.assume(x.evalClause(ye, w))
			}
		}
		cn, nn, sn := x.cbGhost(p, "called"), x.cbGhost(p, "count"), x.cbGhost(p, "stopped")
		if cs.Stop {
			x.oblige(st, "callback", p+".not-after-stop", Not(st.ghost[sn]), pos, "", nil)
			st.ghost[sn] = Or(st.ghost[sn], Not(rv))
		}
		if cs.Mode == "many" {
			if len(cs.Vars) > 0 && !cs.Dup {
				x.oblige(st, "callback", p+".at-most-once-each", Not(Select(st.ghost[cn], first)), pos, "", nil)
			}
			st.ghost[cn] = Store(st.ghost[cn], first, True)
		} else {
			x.oblige(st, "callback", p+".at-most-once", Eq(st.ghost[nn], Int(0)), pos, "", nil)
		}
		st.ghost[nn] = Add(st.ghost[nn], Int(1))
		if cs.Bind != "" && rv != nil {
			st.ghost[cs.Bind] = rv
		}
		if rv != nil {
			st.ghost[x.cbGhost(p, "ret")] = rv
		}
	}
	if cb != nil {
		e := x.topEnv(st)
		for j, n := range cb.Params {
			if j < len(args) {
				a := SV{t: asTerm(args[j]), ty: goTy(sig.Params().At(j).Type())}
				if _, isA := args[j].(*Addr); isA {
					a.v = args[j]
				}
				e.vars[n] = a
			}
		}
		for _, c := range cb.Requires {
			t := x.evalClause(e, c)
			x.oblige(st, "callback", c.Label, t, pos, c.Src, c.Props)
			st.assume(t)
		}
		locs := x.modLocs(st, e, cb.Modifies, x.spec)
		x.havocLocs(st, locs)
		if cb.Result != "" && rv != nil {
			e.vars[cb.Result] = SV{t: rv, ty: goTy(sig.Results().At(0).Type())}
		}
		x.applySets(st, e, cb.Sets)
		for _, c := range cb.Ensures {
			st.assume(x.evalClause(e, c))
		}
	}
	x.assumed["callback parameters do not modify the data structure that calls them and do not panic"] = true
	k(fr, st, res)
}

// ---------- defers and goroutines ----------

func (x *Exec) doDefer(fr *Frame, st *State, c *ssa.Defer) {
	for _, l := range fr.loops {
		if l.spec == nil || l.spec.Unroll == 0 {
			unsupported("defer inside a loop at %s", x.g.pos(c.Pos()))
		}
	}
	d := deferred{call: c.Common(), in: c}
	cc := c.Common()
	if cc.IsInvoke() || cc.StaticCallee() == nil {
		if _, ok := cc.Value.(*ssa.Builtin); !ok {
			d.fnv = x.val(fr, st, cc.Value)
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		d.fnv = x.val(fr, st, mc)
	}
	for _, a := range cc.Args {
		d.args = append(d.args, x.val(fr, st, a))
	}
	fr.defers = append(append([]deferred{}, fr.defers...), d)
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	x.invoke(fr, st, d.call, d.fnv, d.args, d.in, d.in.Pos(), func(fr *Frame, st *State, _ []Val) {
		x.runDefers(fr, st, k)
	})
}

func (x *Exec) doGo(fr *Frame, st *State, c *ssa.Go) {
	x.assumed["goroutines started by the code run after the statement that starts them and are not interleaved (their effects are not part of this proof)"] = true
	n := "$go"
	if _, ok := st.ghost[n]; !ok {
		st.ghost[n] = Int(0)
	}
	st.ghost[n] = Add(st.ghost[n], Int(1))
	x.libGhost(st, "gostarts", func(old *Term) *Term { return Add(old, Int(1)) })
	x.goRequires(fr, st, c)
}

// goRequires: what the contract of the started goroutine ("go F") requires holds where it is started. Clauses over ghost
// variables describe the goroutine's own history and hold by definition at its start.
func (x *Exec) goRequires(fr *Frame, st *State, c *ssa.Go) {
	k := specKey(fr.fn)
	i := strings.LastIndex(k, "/") + 1
	j := strings.Index(k[i:], ".") + i
	sp := x.g.db.Funcs[k[:j+1]+"go "+k[j+1:]]
	if sp == nil {
		return
	}
	var fn *ssa.Function
	have := map[string]SV{}
	var names []string
	if m, ok := c.Call.Value.(*ssa.MakeClosure); ok {
		fn = m.Fn.(*ssa.Function)
		for i, fv := range fn.FreeVars {
			t := x.term(fr, st, m.Bindings[i])
			sv := SV{t: t, ty: goTy(fv.Type())}
			if pt, ok := fv.Type().Underlying().(*types.Pointer); ok {
				if s, ok := isStruct(pt.Elem()); !(ok && s.NumFields() > 0 && !isOpaqueStruct(pt.Elem())) {
					sv = SV{t: st.loadAddr(ptrAddr(t, pt.Elem())), ty: goTy(pt.Elem())}
				}
			}
			have[fv.Name()] = sv
			names = append(names, fv.Name())
		}
	} else {
		fn = c.Call.StaticCallee()
	}
	if fn == nil {
		return
	}
	var pn []string
	for i, p := range fn.Params {
		if i < len(c.Call.Args) {
			have[p.Name()] = SV{t: x.term(fr, st, c.Call.Args[i]), ty: goTy(p.Type())}
			pn = append(pn, p.Name())
		}
	}
	vars := map[string]SV{}
	missing := map[string]bool{}
	for _, prm := range sp.Params {
		f := strings.SplitN(strings.TrimSpace(prm), " ", 2)
		want := x.g.goType(f[1], sp.Scope)
		n := strings.TrimSuffix(f[0], "?")
		for _, o := range append(append([]string{n}, pn...), names...) {
			if v, ok := have[o]; ok && types.Identical(v.ty.gt, want) {
				vars[n] = v
				break
			}
		}
		if _, ok := vars[n]; !ok {
			missing[n] = true
		}
	}
	env := &Env{x: x, st: st, old: st, vars: vars, pkg: sp.Scope, wm: -refCtr}
	for _, cl := range sp.Requires {
		for _, e := range conjuncts(cl.Expr) {
			if mentions(e, func(id string) bool { _, gh := x.g.db.Ghosts[id]; return gh || missing[id] }) {
				continue
			}
			x.oblige(st, "requires", sp.Key+"."+cl.Label, x.evalClause(env, &Clause{Label: cl.Label, Expr: e, Src: cl.Src, File: cl.File, Line: cl.Line}), c.Pos(), cl.Src, cl.Props)
		}
	}
}

func conjuncts(e *Ex) []*Ex {
	if e.Op == "bin" && e.S == "&&" {
		return append(conjuncts(e.A[0]), conjuncts(e.A[1])...)
	}
	return []*Ex{e}
}

func mentions(e *Ex, f func(string) bool) bool {
	if e == nil {
		return false
	}
	if e.Op == "id" && f(e.S) {
		return true
	}
	for _, a := range e.A {
		if mentions(a, f) {
			return true
		}
	}
	return false
}

// ---------- builtins ----------

func (x *Exec) builtin(fr *Frame, st *State, name string, cc *ssa.CallCommon, args []Val, in ssa.Instruction, pos token.Pos, k CallK) {
	one := func(v Val) { k(fr, st, []Val{v}) }
	switch name {
	case "len":
		one := func(v Val) {
			st.assume(Le(asTerm(v), litS("9223372036854775807"))) // a length is an int
			one(v)
		}
		t := asTerm(args[0])
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			one(Sel("mkslice", 2, t))
		case *types.Map:
			if t.isInt() {
				if _, ok := constMaps[t.Name]; ok {
					one(x.freshVal(st, "len", types.Typ[types.Int]))
					return
				}
			}
			x.mapFacts(st, u, t)
			one(Ite(Eq(t, Int(0)), Int(0), Select(st.arr(mapLen(u)), t)))
		case *types.Basic:
			if t.Op == "strlit" {
				for s, tt := range strLits {
					if tt == t {
						one(Int(int64(len(s))))
						return
					}
				}
			}
			n := App("slen", SInt, t)
			st.assume(Le(Int(0), n))
			one(n)
		case *types.Array:
			one(Int(u.Len()))
		case *types.Pointer:
			one(Int(u.Elem().Underlying().(*types.Array).Len()))
		default:
			one(x.freshVal(st, "len", types.Typ[types.Int]))
		}
	case "cap":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			one(Sel("mkslice", 3, asTerm(args[0])))
			return
		}
		one(x.freshVal(st, "cap", types.Typ[types.Int]))
	case "append":
		x.doAppend(fr, st, cc, args, pos, k)
	case "copy":
		x.doCopy(fr, st, cc, args, pos, k)
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		m := asTerm(args[0])
		if m == Int(0) {
			k(fr, st, nil)
			return
		}
		if !x.g.knownNonNil[m.ID] && !(m.isInt() && m.Name != "0") {
			// delete on a nil map is a no-op: modelled by requiring nothing and updating the (empty) map
			x.mapFacts(st, mt, m)
		}
		x.mapDelete(st, mt, m, asTerm(args[1]))
		k(fr, st, nil)
	case "close":
		if sp, owner, ot := x.chanSpec(fr, st, "close", cc.Args[0]); sp != nil && !x.inClose {
			x.applyContract(fr, st, sp, []Val{owner}, []types.Type{ot}, nil, in, pos, func(fr *Frame, st *State, _ []Val) {
				x.inClose = true
				x.builtin(fr, st, name, cc, args, in, pos, func(fr *Frame, st *State, r []Val) {
					x.inClose = false
					k(fr, st, r)
				})
				x.inClose = false
			})
			return
		}
		c := asTerm(args[0])
		h := chanHeap()
		x.safety(st, "no-nil-channel-close", Not(Eq(c, Int(0))), pos)
		x.safety(st, "channel-closed-once", Not(Select(st.arr(h), c)), pos)
		st.heap[h] = Store(st.arr(h), c, True)
		k(fr, st, nil)
	case "panic":
		x.doPanic(fr, st, pos, "panic")
	case "print", "println":
		k(fr, st, nil)
	case "recover":
		one(MkCtor("anil"))
	case "min", "max":
		a := asTerm(args[0])
		for _, b := range args[1:] {
			bt := asTerm(b)
			if name == "min" {
				a = Ite(leTerm(a, bt), a, bt)
			} else {
				a = Ite(leTerm(bt, a), a, bt)
			}
		}
		one(a)
	case "ssa:wrapnilchk":
		x.nonNil(st, args[0], pos, "method value")
		one(args[0])
	default:
		unsupported("builtin %s", name)
	}
}

func (x *Exec) doAppend(fr *Frame, st *State, cc *ssa.CallCommon, args []Val, pos token.Pos, k CallK) {
	s := asTerm(args[0])
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	h := elemHeap(et)
	if len(args) < 2 {
		k(fr, st, []Val{s})
		return
	}
	var tarr, toff, n *Term
	if asTerm(args[1]).Sort == SStr {
		str := asTerm(args[1])
		tarr = App("bytes_of", ArrSort(SInt, sortOf(et)), str)
		toff, n = Int(0), App("slen", SInt, str)
		st.assume(Le(Int(0), n))
	} else {
		t := asTerm(args[1])
		tarr = Select(st.arr(h), Sel("mkslice", 0, t))
		toff, n = Sel("mkslice", 1, t), Sel("mkslice", 2, t)
	}
	if n == Int(0) {
		k(fr, st, []Val{s})
		return
	}
	arr, off, ln, cp := Sel("mkslice", 0, s), Sel("mkslice", 1, s), Sel("mkslice", 2, s), Sel("mkslice", 3, s)
	base := Select(st.arr(h), arr)
	if s == zeroSort(SSli, nil) {
		base = ConstArr(ArrSort(SInt, sortOf(et)), zeroOf(et))
	}
	var na *Term
	start := Add(off, ln)
	if n.isInt() && n.big().IsInt64() && n.big().Int64() <= 8 {
		na = base
		for i := int64(0); i < n.big().Int64(); i++ {
			na = Store(na, Add(start, Int(i)), Select(tarr, Add(toff, Int(i))))
		}
	} else {
		na = Fresh("app", base.Sort)
		arrWM[na.ID] = -refCtr
		i := BVar("i", SInt)
		st.assume(Forall([]*Term{i}, Implies(Lt(i, start), Eq(Select(na, i), Select(base, i))), Select(na, i)))
		j := BVar("j", SInt)
		st.assume(Forall([]*Term{j}, Implies(And(Le(start, j), Lt(j, Add(start, n))), Eq(Select(na, j), Select(tarr, Add(toff, Sub(j, start))))), Select(na, j)))
		// the same facts, found from the elements of what is joined
		st.assume(Forall([]*Term{i}, Implies(Lt(i, start), Eq(Select(na, i), Select(base, i))), Select(base, i)))
		st.assume(Forall([]*Term{j}, Implies(And(Le(toff, j), Lt(j, Add(toff, n))), Eq(Select(na, Add(start, Sub(j, toff))), Select(tarr, j))), Select(tarr, j)))
	}
	fits := Le(Add(ln, n), cp)
	if s == zeroSort(SSli, nil) {
		fits = Le(n, Int(0))
	}
	inPlace := x.feasible(st, fits)
	grow := x.feasible(st, Not(fits))
	nl := Add(ln, n)
	if inPlace {
		s1, f1 := st, fr
		if grow {
			s1, f1 = st.clone(), fr.clone()
			x.budget()
		}
		s1.assume(fits)
		// nothing is written when there is nothing to append
		if !n.isInt() {
			s1.heap[h] = Store(s1.arr(h), arr, Ite(Eq(n, Int(0)), base, na))
		} else {
			s1.heap[h] = Store(s1.arr(h), arr, na)
		}
		k(f1, s1, []Val{MkCtor("mkslice", arr, off, nl, cp)})
	}
	if grow {
		st.assume(Not(fits))
		r := newRef()
		st.heap[h] = Store(st.arr(h), r, na)
		nc := Fresh("cap", SInt)
		st.assume(Le(nl, nc))
		k(fr, st, []Val{MkCtor("mkslice", r, off, nl, nc)})
	}
}

func (x *Exec) doCopy(fr *Frame, st *State, cc *ssa.CallCommon, args []Val, pos token.Pos, k CallK) {
	d := asTerm(args[0])
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	h := elemHeap(et)
	src := asTerm(args[1])
	if src.Sort == SStr {
		unsupported("copy from string")
	}
	ta := Select(st.arr(h), Sel("mkslice", 0, src))
	da := Select(st.arr(h), Sel("mkslice", 0, d))
	n := Ite(Le(Sel("mkslice", 2, d), Sel("mkslice", 2, src)), Sel("mkslice", 2, d), Sel("mkslice", 2, src))
	na := Fresh("copy", da.Sort)
	arrWM[na.ID] = -refCtr
	off := Sel("mkslice", 1, d)
	i := BVar("i", SInt)
	st.assume(Forall([]*Term{i}, Eq(Select(na, i), Ite(And(Le(off, i), Lt(i, Add(off, n))), Select(ta, Add(Sel("mkslice", 1, src), Sub(i, off))), Select(da, i))), Select(na, i)))
	st.heap[h] = Store(st.arr(h), Sel("mkslice", 0, d), na)
	k(fr, st, []Val{n})
}

func sortedKeys2(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
