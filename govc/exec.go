package main

import (
	"sort"
	"os"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Cont func(st *State, res []Val)

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	names   map[string]ssa.Value
	defers  []deferred
	loops   []*LoopAct
	parent  *Frame
	visits  map[*ssa.BasicBlock]int
	k       Cont
	closure *Closure
	join    *joinPoint
}

type deferred struct {
	call *ssa.CallCommon
	fnv  Val
	args []Val
	in   ssa.Instruction
}

type LoopAct struct {
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	spec    *LoopSpec
	ord     int
	k       *Term // completed iterations
	headSt  *State
	phis    map[*ssa.Phi]*Term
	induct  map[*ssa.Phi]int64
	disc    *discovery // non-nil in discovery mode
	cands   []*ssa.Phi
	pre     map[string]*Term // heap before the loop (entry)
	frame   *Frame
	autoInv []autoInv
	symMark int
	refMark int64
	callID string
	callSort string
	pos token.Pos
	entrySt *State
}

type autoInv struct {
	name string
	f    func(fr *Frame, st *State) *Term
	pre  func(head, st *State) bool // decides whether a candidate survives an iteration (default: a quick proof of f)
}

type discovery struct {
	heaps  map[string]map[string]*Term // heap -> locations (nil map = everything)
	all    map[string]bool
	ghosts map[string]bool
	epoch  bool
	chg    bool
	drop   map[string]bool
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, parent: f.parent, k: f.k, closure: f.closure, join: f.join}
	n.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.names = make(map[string]ssa.Value, len(f.names))
	for k, v := range f.names {
		n.names[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	n.loops = append([]*LoopAct{}, f.loops...)
	n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	return n
}

type Exec struct {
	opq      map[string]bool
	g        *Engine
	top      *ssa.Function
	spec     *FuncSpec
	entry    *State
	entryRef int64
	params   []SV
	obls     []*Obl
	disc     int // discovery depth: obligations are not recorded
	paths    int
	maxPaths int
	depth    int
	inlined  map[string]bool
	used     map[string]*FuncSpec
	assumed  map[string]bool
	loopOrd  map[loopKey]int
	returns  int
	modelled map[string]bool
	tags     string
	cbParam  map[int]string
	pvars    map[string]SV
	stack    []string
	bindOpts map[string]int
	loopHits map[int]bool
	retHits  []*State
	steps    int
	autoMerge bool
	inClose  bool
}

type loopKey struct {
	fn *ssa.Function
	b  *ssa.BasicBlock
	in ssa.Instruction
}

func (x *Exec) entryWM() int64 { return -x.entryRef }

type Obl struct {
	Func   string
	Kind   string // ensures, requires, invariant, safety, frame, lemma, unsupported, assert
	Label  string
	Pos    string
	Props  []string
	Assume []*Term
	Goal   *Term
	Trace  []string
	Inputs []NamedTerm
	Src    string

	Status  string // proved, failed, unknown
	Solver  string
	Millis  int64
	Model   string
	Vacuity bool // must NOT be provable
	Reason  string
	facts   *factCtx
}

type NamedTerm struct {
	Name string
	T    *Term
}

func (x *Exec) oblige(st *State, kind, label string, goal *Term, pos token.Pos, src string, props []string) {
	if x.disc > 0 {
		return
	}
	if goal == True {
		// trivially true: still counted
		x.obls = append(x.obls, &Obl{Func: x.name(), Kind: kind, Label: label, Pos: x.g.pos(pos), Goal: goal, Status: "proved", Solver: "simplifier", Props: props, Src: src})
		return
	}
	as := st.assumptions()
	for _, a := range as {
		if a == goal { // the goal is a hypothesis
			x.obls = append(x.obls, &Obl{Func: x.name(), Kind: kind, Label: label, Pos: x.g.pos(pos), Goal: goal, Status: "proved", Solver: "hypothesis", Props: props, Src: src})
			return
		}
	}
	o := &Obl{Func: x.name(), Kind: kind, Label: label, Pos: x.g.pos(pos), Goal: goal, Assume: as, Trace: st.trace.list(), Props: props, Src: src}
	for _, p := range x.params {
		if p.t != nil {
			o.Inputs = append(o.Inputs, NamedTerm{"", p.t})
		}
	}
	x.obls = append(x.obls, o)
}

func (x *Exec) name() string { return x.spec.Pkg[len(modulePath)+1:] + "." + x.spec.Key }

func (x *Exec) isSafety() bool { return x.spec.Opts["safety"] != "off" }

// safety obligation: proved before being assumed
func (x *Exec) safety(st *State, label string, goal *Term, pos token.Pos) {
	if x.isSafety() {
		x.oblige(st, "safety", label, goal, pos, "", nil)
	}
	st.assume(goal)
}

func (x *Exec) nonNil(st *State, p Val, pos token.Pos, what string) {
	if _, ok := p.(*Addr); ok {
		return
	}
	t := p.(*Term)
	if t.isInt() && t.Name != "0" {
		return
	}
	if x.g.knownNonNil[t.ID] {
		return
	}
	x.safety(st, "no-nil-dereference", Not(Eq(t, Int(0))), pos)
}

// ---------- values ----------

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return zeroOf(c.Type())
		}
		return constTerm(c.Value, c.Type())
	case *ssa.Function:
		return x.g.funcRef(c)
	case *ssa.Global:
		return x.globalAddr(c)
	case *ssa.Builtin:
		return c
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	unsupported("no value for %s (%s) in %s", v.Name(), v, fr.fn)
	return nil
}

func (x *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	return asTerm(x.val(fr, st, v))
}

func (g *Engine) funcRef(f *ssa.Function) *Term {
	if t, ok := fnRefs[f]; ok {
		return t
	}
	t := newRef()
	fnRefs[f] = t
	closReg[t.Name] = &Closure{fn: f}
	return t
}

type globalPtr struct{ g *ssa.Global }

func (x *Exec) globalAddr(gl *ssa.Global) Val {
	t := gl.Type().Underlying().(*types.Pointer).Elem()
	h := regHeap("G:"+gl.Pkg.Pkg.Path()+"."+gl.Name(), ArrSort(SInt, sortOf(t)), t)
	return &Addr{heap: h, ref: Int(0), typ: t}
}

// globalLoad: package variables never reassigned outside init are constants with their initial value when simple.
func (x *Exec) globalLoad(st *State, gl *ssa.Global) *Term {
	if gi := x.g.globalInit(gl); gi != nil {
		for _, f := range gi.facts {
			f(st)
		}
		return gi.val
	}
	return st.loadAddr(x.globalAddr(gl).(*Addr))
}

// ---------- running ----------

func (x *Exec) budget() {
	x.paths++
	if x.paths > x.maxPaths {
		unsupported("path budget exceeded (%d)", x.maxPaths)
	}
}

func (x *Exec) runFunc(fn *ssa.Function, cl *Closure, args []Val, st *State, parent *Frame, k Cont) {
	if fn.Blocks == nil {
		unsupported("no body for %s", fn)
	}
	for _, s := range x.stack {
		if s == fn.String() && len(x.stack) > 0 {
			cnt := 0
			for _, s2 := range x.stack {
				if s2 == s {
					cnt++
				}
			}
			if cnt > 1 {
				unsupported("recursive call of %s needs a contract", fn)
			}
		}
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string]ssa.Value{}, parent: parent, visits: map[*ssa.BasicBlock]int{}, closure: cl}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		fr.names[p.Name()] = p
	}
	if cl != nil {
		for i, fv := range fn.FreeVars {
			fr.env[fv] = cl.binds[i]
			fr.names[fv.Name()] = fv
		}
	}
	x.stack = append(x.stack, fn.String())
	saved := append([]string{}, x.stack...)
	fr.k = func(st *State, res []Val) {
		cur := x.stack
		x.stack = saved[:len(saved)-1]
		k(st, res)
		x.stack = cur
	}
	cur := x.stack
	x.block(fr, fn.Blocks[0], nil, st)
	x.stack = cur[:len(cur)-1]
}

func (x *Exec) block(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	if st.dead {
		return
	}
	// leave loops
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.body[b] {
			break
		}
		if l.disc != nil {
			return // discovery: exits are not explored
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if fr.join != nil && fr.join.b == b {
		fr.join.arr = append(fr.join.arr, arrival{fr: fr, prev: prev, st: st, stack: append([]string{}, x.stack...)})
		return
	}
	if body := x.g.loopBody(b); body != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == b {
			l := fr.loops[len(fr.loops)-1]
			if l.spec != nil && l.spec.Unroll > 0 {
				x.unrollStep(fr, l, b, prev, st)
				return
			}
			x.backEdge(fr, l, prev, st)
			return
		}
		x.enterLoop(fr, b, body, prev, st)
		return
	}
	x.phis(fr, b, prev, st)
	x.instrs(fr, b, 0, st)
}

func (x *Exec) phis(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			if _, d := in.(*ssa.DebugRef); d {
				continue
			}
			break
		}
		for i, pr := range b.Preds {
			if pr == prev {
				vals = append(vals, x.val(fr, st, p.Edges[i]))
				break
			}
		}
		ps = append(ps, p)
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
		if p.Comment != "" {
			fr.names[p.Comment] = p
		}
	}
}

func (x *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		x.steps++
		in := b.Instrs[i]
		switch c := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			if id, isVar := c.Object().(*types.Var); isVar && id != nil && !c.IsAddr {
				if a, isA := fr.names[id.Name()].(*ssa.Alloc); isA && a.Pos() == id.Pos() {
					continue // the variable lives in that cell
				}
				if a, isF := fr.names[id.Name()].(*ssa.FreeVar); isF && a.Pos() == id.Pos() {
					continue
				}
				fr.names[id.Name()] = c.X
			}
			continue
		case *ssa.If:
			x.branch(fr, b, c, st)
			return
		case *ssa.Jump:
			x.block(fr, b.Succs[0], b, st)
			return
		case *ssa.Return:
			if x.inDiscovery(fr) {
				return
			}
			var res []Val
			for _, r := range c.Results {
				res = append(res, x.val(fr, st, r))
			}
			fr.k(st, res)
			return
		case *ssa.Panic:
			x.doPanic(fr, st, c.Pos(), "explicit panic")
			return
		case *ssa.RunDefers:
			x.runDefers(fr, st, func(fr2 *Frame, st2 *State) {
				x.instrs(fr2, b, i+1, st2)
			})
			return
		case *ssa.Defer:
			x.doDefer(fr, st, c)
		case *ssa.Go:
			x.doGo(fr, st, c)
		case *ssa.Call:
			done := x.call(fr, st, c.Common(), c, c.Pos(), func(fr2 *Frame, st2 *State, res []Val) {
				f := fr2
				switch len(res) {
				case 0:
				case 1:
					f.env[c] = res[0]
				default:
					f.env[c] = Tuple(res)
				}
				x.instrs(f, b, i+1, st2)
			})
			_ = done
			return
		case *ssa.Send:
			x.doSend(fr, st, c.Chan, x.val(fr, st, c.X), c, c.Pos(), func(fr2 *Frame, st2 *State) { x.instrs(fr2, b, i+1, st2) })
			return
		case *ssa.UnOp:
			if c.Op == token.ARROW {
				x.doRecv(fr, st, c.X, c, c.Pos(), func(fr2 *Frame, st2 *State, v Val, ok *Term) {
					if c.CommaOk {
						fr2.env[c] = Tuple{v, ok}
					} else {
						fr2.env[c] = v
					}
					x.instrs(fr2, b, i+1, st2)
				})
				return
			}
			x.instr(fr, st, in)
		case *ssa.Select:
			x.doSelect(fr, st, c, func(fr2 *Frame, st2 *State) { x.instrs(fr2, b, i+1, st2) })
			return
		case *ssa.Next:
			x.doNext(fr, st, c, func(fr2 *Frame, st2 *State) { x.instrs(fr2, b, i+1, st2) })
			return
		default:
			x.instr(fr, st, in)
		}
	}
}

func (x *Exec) inDiscovery(fr *Frame) bool {
	for _, l := range fr.loops {
		if l.disc != nil {
			return true
		}
	}
	return false
}

func (x *Exec) doPanic(fr *Frame, st *State, pos token.Pos, what string) {
	if x.spec.Opts["nopanic"] == "on" {
		x.oblige(st, "safety", "no-panic", False, pos, what, nil)
	}
	x.g.note(x.assumed, "explicit panics end the path unless 'nopanic' is set")
}

func (x *Exec) branch(fr *Frame, b *ssa.BasicBlock, c *ssa.If, st *State) {
	t := x.term(fr, st, c.Cond)
	if t == True {
		x.block(fr, b.Succs[0], b, st)
		return
	}
	if t == False {
		x.block(fr, b.Succs[1], b, st)
		return
	}
	okT, okF := x.feasible(st, t), x.feasible(st, Not(t))
	if okT && okF {
		x.budget()
		if x.merging() && x.branchMerged(fr, b, t, st, fmt.Sprintf("%s: then", x.g.posShort(c.Cond.Pos(), c)), fmt.Sprintf("%s: else", x.g.posShort(c.Cond.Pos(), c))) {
			return
		}
		st2 := st.clone()
		fr2 := fr.clone()
		st.note("%s: then", x.g.posShort(c.Cond.Pos(), c))
		st.assume(t)
		x.block(fr, b.Succs[0], b, st)
		st2.note("%s: else", x.g.posShort(c.Cond.Pos(), c))
		st2.assume(Not(t))
		x.block(fr2, b.Succs[1], b, st2)
		return
	}
	if okT {
		st.assume(t)
		x.block(fr, b.Succs[0], b, st)
	} else if okF {
		st.assume(Not(t))
		x.block(fr, b.Succs[1], b, st)
	}
}

func hasQuant(t *Term, memo map[int]bool) bool {
	if v, ok := memo[t.ID]; ok {
		return v
	}
	// float operations and the string order are as slow as quantifiers; leaving them out of a
	// feasibility test only keeps more paths
	r := t.Op == "forall" || t.Op == "exists" || strings.HasPrefix(t.Op, "fp.") || t.Op == "app" && t.Name == "srank"
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasQuant(a, memo)
	}
	memo[t.ID] = r
	return r
}

var quantMemo = map[int]bool{}

// feasible is a sound (over-approximating) feasibility test.
func (x *Exec) feasible(st *State, c *Term) bool {
	if st.facts[Not(c).ID] {
		return false
	}
	if st.facts[c.ID] {
		return true
	}
	var as []*Term
	for p := st.pc; p != nil; p = p.prev {
		if !hasQuant(p.t, quantMemo) {
			as = append(as, p.t)
		}
	}
	as = append(as, c)
	// keep only the assumptions connected to c through shared symbols
	as = relevant(as, c)
	return x.g.quickSat(as)
}

// relevant keeps the assumptions transitively sharing free symbols with c.
func relevant(as []*Term, c *Term) []*Term {
	syms := map[int]bool{}
	for id := range symsOf(c) {
		syms[id] = true
	}
	used := make([]bool, len(as))
	for changed := true; changed; {
		changed = false
		for i, a := range as {
			if used[i] {
				continue
			}
			hit := a == c
			if !hit {
				for id := range symsOf(a) {
					if syms[id] {
						hit = true
						break
					}
				}
			}
			if hit {
				used[i] = true
				changed = true
				for id := range symsOf(a) {
					syms[id] = true
				}
			}
		}
	}
	var out []*Term
	for i, a := range as {
		if used[i] {
			out = append(out, a)
		}
	}
	return out
}

var specSym = map[string]int{}
var symMemo = map[int]map[int]bool{}

func symsOf(t *Term) map[int]bool {
	if m, ok := symMemo[t.ID]; ok {
		return m
	}
	m := map[int]bool{}
	walk(t, map[int]*Term{}, func(u *Term) {
		if u.Op == "const" {
			m[u.ID] = true
		}
		if u.Op == "app" && strings.HasPrefix(u.Name, "spec_") {
			id, ok := specSym[u.Name]
			if !ok {
				id = -1 - len(specSym)
				specSym[u.Name] = id
			}
			m[id] = true
		}
	})
	symMemo[t.ID] = m
	return m
}

// ---------- simple instructions ----------

// isVarCell: the allocation is the cell of a source variable (and not a composite literal, new(T) or an argument list)
func isVarCell(a *ssa.Alloc) bool {
	switch a.Comment {
	case "complit", "new", "varargs", "slicelit", "makeslice", "makechan", "typeassert,ok", "slicetoarray":
		return false
	}
	return true
}

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch c := in.(type) {
	case *ssa.Alloc:
		t := c.Type().Underlying().(*types.Pointer).Elem()
		r := x.alloc(st, t)
		fr.env[c] = r
		if c.Comment != "" && isVarCell(c) {
			fr.names[c.Comment] = c
		}
	case *ssa.Store:
		p := x.val(fr, st, c.Addr)
		x.nonNil(st, p, c.Pos(), "store")
		v := x.val(fr, st, c.Val)
		st.store(p, c.Val.Type(), asTerm(v))
	case *ssa.UnOp:
		fr.env[c] = x.unop(fr, st, c)
	case *ssa.BinOp:
		fr.env[c] = x.binop(fr, st, c)
	case *ssa.FieldAddr:
		p := x.val(fr, st, c.X)
		x.nonNil(st, p, c.Pos(), "field")
		st0 := c.X.Type().Underlying().(*types.Pointer).Elem()
		fr.env[c] = fieldAddr(p, st0, c.Field)
	case *ssa.Field:
		v := x.term(fr, st, c.X)
		r := Sel(structCtor(c.X.Type()), c.Field, v)
		st.wf(r, c.Type(), -refCtr)
		fr.env[c] = r
	case *ssa.IndexAddr:
		fr.env[c] = x.indexAddr(fr, st, c)
	case *ssa.Index:
		v := x.term(fr, st, c.X)
		i := x.term(fr, st, c.Index)
		if v.Sort == SStr {
			x.safety(st, "index-in-range", And(Le(Int(0), i), Lt(i, App("slen", SInt, v))), c.Pos())
			fr.env[c] = App("sat", SInt, v, i)
			return
		}
		n := c.X.Type().Underlying().(*types.Array).Len()
		x.safety(st, "index-in-range", And(Le(Int(0), i), Lt(i, Int(n))), c.Pos())
		fr.env[c] = Select(v, i)
	case *ssa.Lookup:
		x.lookup(fr, st, c)
	case *ssa.MapUpdate:
		m := x.term(fr, st, c.Map)
		x.safety(st, "no-nil-map-write", Not(Eq(m, Int(0))), c.Pos())
		mt := c.Map.Type().Underlying().(*types.Map)
		k := x.term(fr, st, c.Key)
		v := x.term(fr, st, c.Value)
		x.mapPut(st, mt, m, k, v)
	case *ssa.MakeMap:
		mt := c.Type().Underlying().(*types.Map)
		fr.env[c] = x.newMap(st, mt)
	case *ssa.MakeSlice:
		et := c.Type().Underlying().(*types.Slice).Elem()
		n := x.term(fr, st, c.Len)
		cp := x.term(fr, st, c.Cap)
		x.safety(st, "makeslice-size", And(Le(Int(0), n), Le(n, cp)), c.Pos())
		r := newRef()
		h := elemHeap(et)
		st.heap[h] = Store(st.arr(h), r, ConstArr(ArrSort(SInt, sortOf(et)), zeroOf(et)))
		fr.env[c] = MkCtor("mkslice", r, Int(0), n, cp)
	case *ssa.MakeChan:
		r := newRef()
		st.heap[chanHeap()] = Store(st.arr(chanHeap()), r, False)
		st.assume(Eq(App("chancap", SInt, r), x.term(fr, st, c.Size)))
		fr.env[c] = r
	case *ssa.MakeClosure:
		r := newRef()
		cl := &Closure{fn: c.Fn.(*ssa.Function)}
		for _, b := range c.Bindings {
			cl.binds = append(cl.binds, x.val(fr, st, b))
		}
		closReg[r.Name] = cl
		fr.env[c] = r
	case *ssa.MakeInterface:
		v := x.val(fr, st, c.X)
		fr.env[c] = x.box(v, c.X.Type())
	case *ssa.ChangeInterface:
		fr.env[c] = x.val(fr, st, c.X)
	case *ssa.ChangeType:
		fr.env[c] = x.changeType(x.val(fr, st, c.X), c.X.Type(), c.Type())
	case *ssa.Convert:
		fr.env[c] = x.convert(fr, st, c)
	case *ssa.TypeAssert:
		x.typeAssert(fr, st, c)
	case *ssa.Extract:
		tv := x.val(fr, st, c.Tuple)
		tp, ok := tv.(Tuple)
		if !ok {
			unsupported("extract from %T", tv)
		}
		fr.env[c] = tp[c.Index]
	case *ssa.Slice:
		x.slice(fr, st, c)
	case *ssa.Range:
		m := x.term(fr, st, c.X)
		symSeq++
		it := &Iter{id: fmt.Sprintf("it%d", symSeq), m: m}
		if mt, ok := c.X.Type().Underlying().(*types.Map); ok {
			it.mt = mt
			st.ghost[it.id] = ConstArr(ArrSort(sortOf(mt.Key()), SBool), False)
			st.ghost[it.id+".n"] = Int(0)
			it.dom0 = Select(st.arr(mapDom(mt)), m)
		} else {
			it.str = true
		}
		fr.env[c] = it
		fr.names["$range"] = c
	case *ssa.MultiConvert:
		unsupported("multiconvert")
	default:
		unsupported("instruction %T %s", in, in)
	}
}

func (x *Exec) box(v Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, tp := types.Unalias(t).(*types.TypeParam); !tp {
			return asTerm(v)
		}
	}
	return MkCtor(boxCtor(t), asTerm(v))
}

func (x *Exec) changeType(v Val, from, to types.Type) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		return t
	}
	return convStruct(t, from, to)
}

func convStruct(t *Term, from, to types.Type) *Term {
	if sortOf(from) == sortOf(to) {
		return t
	}
	fu, ok1 := from.Underlying().(*types.Struct)
	tu, ok2 := to.Underlying().(*types.Struct)
	if !ok1 || !ok2 || fu.NumFields() != tu.NumFields() {
		unsupported("conversion %s to %s", from, to)
	}
	var args []*Term
	for i := 0; i < fu.NumFields(); i++ {
		args = append(args, convStruct(Sel(structCtor(from), i, t), fu.Field(i).Type(), tu.Field(i).Type()))
	}
	return MkCtor(structCtor(to), args...)
}

func (x *Exec) alloc(st *State, t types.Type) *Term {
	r := newRef()
	if at, ok := t.Underlying().(*types.Array); ok {
		h := elemHeap(at.Elem())
		st.heap[h] = Store(st.arr(h), r, ConstArr(ArrSort(SInt, sortOf(at.Elem())), zeroOf(at.Elem())))
		return r
	}
	if s, ok := isStruct(t); ok && s.NumFields() > 0 && !isOpaqueStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			h := fieldHeap(t, i)
			st.heap[h] = Store(st.arr(h), r, zeroOf(s.Field(i).Type()))
			x.freshInterior(st, &Addr{heap: h, ref: r, typ: s.Field(i).Type()}, s.Field(i).Type())
		}
		return r
	}
	h := cellHeap(t)
	st.heap[h] = Store(st.arr(h), r, zeroOf(t))
	if isOpaqueStruct(t) {
		// new locks are free
		for _, w := range []bool{true, false} {
			lh := lockHeap(w)
			st.assume(Eq(Select(st.arr(lh), r), Int(0)))
		}
		av := atomicHeap()
		st.heap[av] = Store(st.arr(av), r, Int(0))
		oh := onceHeap()
		st.heap[oh] = Store(st.arr(oh), r, False)
	}
	return r
}

// freshInterior: locks and atomics embedded in a fresh object are free and zero.
func (x *Exec) freshInterior(st *State, a *Addr, t types.Type) {
	if !isOpaqueStruct(t) {
		return
	}
	n := types.Unalias(t).(*types.Named)
	switch n.Obj().Pkg().Path() {
	case "sync":
		p := asTerm(a)
		st.assume(Eq(Select(st.arr(lockHeap(true)), p), Int(0)))
		st.assume(Eq(Select(st.arr(lockHeap(false)), p), Int(0)))
		if n.Obj().Name() == "Once" {
			st.heap[onceHeap()] = Store(st.arr(onceHeap()), p, False)
		}
	case "sync/atomic":
		p := asTerm(a)
		st.heap[atomicHeap()] = Store(st.arr(atomicHeap()), p, Int(0))
	}
}

func onceHeap() string { return regHeap("ONCE", ArrSort(SInt, SBool), nil) }

func atomicHeap() string { return regHeap("ATOMIC", ArrSort(SInt, SInt), nil) }

func (x *Exec) newMap(st *State, mt *types.Map) *Term {
	r := newRef()
	d, v, l := mapDom(mt), mapVal(mt), mapLen(mt)
	st.heap[d] = Store(st.arr(d), r, ConstArr(ArrSort(sortOf(mt.Key()), SBool), False))
	st.heap[v] = Store(st.arr(v), r, ConstArr(ArrSort(sortOf(mt.Key()), sortOf(mt.Elem())), zeroOf(mt.Elem())))
	st.heap[l] = Store(st.arr(l), r, Int(0))
	return r
}

func (x *Exec) mapPut(st *State, mt *types.Map, m, k, v *Term) {
	x.mapFacts(st, mt, m)
	d, vv, l := mapDom(mt), mapVal(mt), mapLen(mt)
	dom := Select(st.arr(d), m)
	had := Select(dom, k)
	n := Select(st.arr(l), m)
	st.heap[d] = Store(st.arr(d), m, Store(dom, k, True))
	st.heap[vv] = Store(st.arr(vv), m, Store(Select(st.arr(vv), m), k, v))
	st.heap[l] = Store(st.arr(l), m, Ite(had, n, Add(n, Int(1))))
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	x.mapFacts(st, mt, m)
	d, l := mapDom(mt), mapLen(mt)
	dom := Select(st.arr(d), m)
	had := Select(dom, k)
	n := Select(st.arr(l), m)
	st.heap[d] = Store(st.arr(d), m, Store(dom, k, False))
	st.heap[l] = Store(st.arr(l), m, Ite(had, Sub(n, Int(1)), n))
}

// mapFacts: cardinality facts relating length and domain at a read.
func (x *Exec) mapFacts(st *State, mt *types.Map, m *Term) {
	dom := Select(st.arr(mapDom(mt)), m)
	n := Select(st.arr(mapLen(mt)), m)
	st.assume(Le(Int(0), n))
	st.assume(Eq(Eq(n, Int(0)), Eq(dom, ConstArr(dom.Sort, False))))
}

func (x *Exec) lookup(fr *Frame, st *State, c *ssa.Lookup) {
	xt := c.X.Type().Underlying()
	k := x.term(fr, st, c.Index)
	if b, ok := xt.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := x.term(fr, st, c.X)
		x.safety(st, "index-in-range", And(Le(Int(0), k), Lt(k, App("slen", SInt, s))), c.Pos())
		fr.env[c] = App("sat", SInt, s, k)
		return
	}
	mt := xt.(*types.Map)
	m := x.term(fr, st, c.X)
	if m.isInt() {
		if cm, ok := constMaps[m.Name]; ok {
			has := Select(cm[0], k)
			val := Select(cm[1], k)
			if c.CommaOk {
				fr.env[c] = Tuple{val, has}
			} else {
				fr.env[c] = val
			}
			return
		}
	}
	has := And(Not(Eq(m, Int(0))), Select(Select(st.arr(mapDom(mt)), m), k))
	v := st.selectWF("", Select(st.arr(mapVal(mt)), m), k, mt.Elem())
	val := Ite(has, v, zeroOf(mt.Elem()))
	if c.CommaOk {
		fr.env[c] = Tuple{val, has}
	} else {
		fr.env[c] = val
	}
}

func (x *Exec) unop(fr *Frame, st *State, c *ssa.UnOp) Val {
	switch c.Op {
	case token.NOT:
		return Not(x.term(fr, st, c.X))
	case token.SUB:
		t := x.term(fr, st, c.X)
		if isFloat(t.Sort) {
			return mk("fp.neg", "", t.Sort, t)
		}
		return x.arith(Sub(Int(0), t), c.Type())
	case token.MUL:
		if gl, ok := c.X.(*ssa.Global); ok {
			return x.globalLoad(st, gl)
		}
		p := x.val(fr, st, c.X)
		x.nonNil(st, p, c.Pos(), "load")
		return st.load(p, c.Type())
	case token.XOR:
		t := x.term(fr, st, c.X)
		return App("bitnot", SInt, t)
	}
	unsupported("unop %s", c.Op)
	return nil
}

func (x *Exec) freshVal(st *State, hint string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var r Tuple
		for i := 0; i < tp.Len(); i++ {
			r = append(r, x.freshVal(st, hint, tp.At(i).Type()))
		}
		return r
	}
	v := Fresh(hint, sortOf(t))
	st.wf(v, t, -refCtr)
	return v
}

func (x *Exec) arith(v *Term, t types.Type) *Term {
	if x.spec.Opts["machine"] != "off" {
		return wrapInt(v, t)
	}
	return v
}

// arithSum: the sum or difference of two machine integers (at most one wrap).
func (x *Exec) arithSum(st *State, v *Term, t types.Type, c *ssa.BinOp) *Term {
	if x.spec.Opts["machine"] == "off" {
		return v
	}
	if phi, ok := c.X.(*ssa.Phi); ok && phi.Comment == "rangeindex" {
		return v // the hidden index of a range loop stays below the length
	}
	lo, hi, ok := intRange(t)
	if !ok || v.isInt() {
		return wrapInt(v, t)
	}
	// in range on this path: no wrap
	if !x.feasible(st, Or(Lt(v, litS(lo)), Lt(litS(hi), v))) {
		return v
	}
	return wrapSum(v, t)
}

func (x *Exec) binop(fr *Frame, st *State, c *ssa.BinOp) Val {
	a := x.term(fr, st, c.X)
	b := x.term(fr, st, c.Y)
	switch c.Op {
	case token.EQL, token.NEQ:
		var e *Term
		if isFloat(a.Sort) {
			e = mk("fp.eq", "", SBool, a, b)
		} else if a.Sort == SSli {
			if b == zeroSort(SSli, nil) {
				e = Eq(Sel("mkslice", 0, a), Int(0))
			} else {
				e = Eq(Sel("mkslice", 0, b), Int(0))
			}
		} else if a.Sort != b.Sort {
			// interface compared with concrete
			if a.Sort == SAny {
				e = Eq(a, x.box(b, c.Y.Type()))
			} else if b.Sort == SAny {
				e = Eq(x.box(a, c.X.Type()), b)
			} else {
				unsupported("comparison of %s and %s", a.Sort, b.Sort)
			}
		} else {
			e = Eq(a, b)
		}
		if c.Op == token.NEQ {
			return Not(e)
		}
		return e
	case token.LSS:
		return lessTerm(a, b)
	case token.GTR:
		return lessTerm(b, a)
	case token.LEQ:
		return leTerm(a, b)
	case token.GEQ:
		return leTerm(b, a)
	case token.ADD:
		if a.Sort == SStr {
			return strCat(a, b)
		}
		if isFloat(a.Sort) {
			return mk("fp.add", "", a.Sort, mk("const_rm", "RNE", "RoundingMode"), a, b)
		}
		return x.arithSum(st, Add(a, b), c.Type(), c)
	case token.SUB:
		if a.Sort == SInt {
			return x.arithSum(st, Sub(a, b), c.Type(), c)
		}
	case token.MUL:
		if a.Sort == SInt {
			return x.arith(Mul(a, b), c.Type())
		}
	case token.QUO:
		if a.Sort == SInt {
			x.safety(st, "division-by-zero", Not(Eq(b, Int(0))), c.Pos())
			// truncated division
			q := mk("div", "", SInt, a, b)
			nq := Sub(Int(0), mk("div", "", SInt, Sub(Int(0), a), b))
			return Ite(Le(Int(0), a), q, nq)
		}
	case token.REM:
		if a.Sort == SInt {
			x.safety(st, "division-by-zero", Not(Eq(b, Int(0))), c.Pos())
			m := mk("mod", "", SInt, a, b)
			nm := Sub(Int(0), mk("mod", "", SInt, Sub(Int(0), a), b))
			return Ite(Le(Int(0), a), m, nm)
		}
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if a.Sort == SBool {
			if c.Op == token.AND {
				return And(a, b)
			}
			if c.Op == token.OR {
				return Or(a, b)
			}
		}
		if c.Op == token.SHL && b.isInt() {
			p := constant.Shift(constant.MakeInt64(1), token.SHL, uint(b.big().Uint64()))
			return wrapInt(Mul(a, litS(p.ExactString())), c.Type())
		}
		return App("bit_"+sanitizeOp(c.Op), SInt, a, b)
	}
	unsupported("binop %s on %s", c.Op, a.Sort)
	return nil
}

func sanitizeOp(o token.Token) string {
	return map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[o]
}

func (x *Exec) indexAddr(fr *Frame, st *State, c *ssa.IndexAddr) Val {
	i := x.term(fr, st, c.Index)
	xv := x.val(fr, st, c.X)
	switch u := c.X.Type().Underlying().(type) {
	case *types.Slice:
		s := asTerm(xv)
		x.safety(st, "index-in-range", And(Le(Int(0), i), Lt(i, Sel("mkslice", 2, s))), c.Pos())
		return &Addr{heap: elemHeap(u.Elem()), ref: Sel("mkslice", 0, s), path: []PathEl{{idx: Add(Sel("mkslice", 1, s), i)}}, typ: u.Elem()}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		x.safety(st, "index-in-range", And(Le(Int(0), i), Lt(i, Int(at.Len()))), c.Pos())
		a := ptrAddr(xv, u.Elem())
		return &Addr{heap: a.heap, ref: a.ref, path: append(append([]PathEl{}, a.path...), PathEl{idx: i}), typ: at.Elem()}
	}
	unsupported("indexaddr on %s", c.X.Type())
	return nil
}

func (x *Exec) slice(fr *Frame, st *State, c *ssa.Slice) {
	xv := x.val(fr, st, c.X)
	lo := Int(0)
	if c.Low != nil {
		lo = x.term(fr, st, c.Low)
	}
	switch u := c.X.Type().Underlying().(type) {
	case *types.Slice:
		s := asTerm(xv)
		hi := Sel("mkslice", 2, s)
		if c.High != nil {
			hi = x.term(fr, st, c.High)
		}
		cp := Sel("mkslice", 3, s)
		mx := cp
		if c.Max != nil {
			mx = x.term(fr, st, c.Max)
		}
		x.safety(st, "slice-in-range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)), c.Pos())
		fr.env[c] = MkCtor("mkslice", Sel("mkslice", 0, s), Add(Sel("mkslice", 1, s), lo), Sub(hi, lo), Sub(mx, lo))
		return
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := ptrAddr(xv, u.Elem())
		if len(a.path) > 0 {
			unsupported("slice of embedded array")
		}
		hi := Int(at.Len())
		if c.High != nil {
			hi = x.term(fr, st, c.High)
		}
		x.safety(st, "slice-in-range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, Int(at.Len()))), c.Pos())
		fr.env[c] = MkCtor("mkslice", a.ref, lo, Sub(hi, lo), Sub(Int(at.Len()), lo))
		return
	case *types.Basic:
		s := asTerm(xv)
		hi := App("slen", SInt, s)
		if c.High != nil {
			hi = x.term(fr, st, c.High)
		}
		x.safety(st, "slice-in-range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, App("slen", SInt, s))), c.Pos())
		fr.env[c] = App("ssub", SStr, s, lo, hi)
		return
	}
	unsupported("slice of %s", c.X.Type())
}

func (x *Exec) convert(fr *Frame, st *State, c *ssa.Convert) Val {
	from, to := c.X.Type(), c.Type()
	v := x.val(fr, st, c.X)
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			fl, fh, _ := intRange(from)
			tl, th, ok := intRange(to)
			if ok && fl != "" && litS(tl).big().Cmp(litS(fl).big()) <= 0 && litS(th).big().Cmp(litS(fh).big()) >= 0 {
				return v
			}
			return wrapInt(asTerm(v), to)
		}
		return v
	case fs == ts:
		return v
	case fs == SF64 && ts == SF32, fs == SF32 && ts == SF64:
		return fpTo(ts, asTerm(v))
	case fs == SStr || ts == SStr, isFloat(fs) || isFloat(ts):
		a := asTerm(v)
		if fs == SSli || ts == SSli {
			if ts == SSli {
				r := newRef()
				et := to.Underlying().(*types.Slice).Elem()
				h := elemHeap(et)
				n := App("slen", SInt, a)
				st.heap[h] = Store(st.arr(h), r, App("bytes_of", ArrSort(SInt, sortOf(et)), a))
				st.assume(Le(Int(0), n))
				return MkCtor("mkslice", r, Int(0), n, n)
			}
			et := from.Underlying().(*types.Slice).Elem()
			arr := Select(st.arr(elemHeap(et)), Sel("mkslice", 0, a))
			// string(bytes_of(s)) over the full range is s
			if arr.Op == "app" && arr.Name == "bytes_of" && Sel("mkslice", 1, a) == Int(0) && Sel("mkslice", 2, a) == App("slen", SInt, arr.Args[0]) {
				return arr.Args[0]
			}
			return App("string_of", SStr, arr, Sel("mkslice", 1, a), Sel("mkslice", 2, a))
		}
		return App("conv_"+fs+"_"+ts, ts, a)
	}
	unsupported("convert %s to %s", from, to)
	return nil
}

func (x *Exec) typeAssert(fr *Frame, st *State, c *ssa.TypeAssert) {
	v := x.term(fr, st, c.X)
	if _, isI := c.AssertedType.Underlying().(*types.Interface); isI {
		ok := x.implements(v, c.AssertedType)
		if c.CommaOk {
			fr.env[c] = Tuple{Ite(ok, v, MkCtor("anil")), ok}
		} else {
			x.safety(st, "type-assertion", ok, c.Pos())
			fr.env[c] = v
		}
		return
	}
	bc := boxCtor(c.AssertedType)
	ok := Is(bc, v)
	r := Sel(bc, 0, v)
	if c.CommaOk {
		if ok != False {
			rr := Ite(ok, r, zeroOf(c.AssertedType))
			st.wf(rr, c.AssertedType, -refCtr)
			fr.env[c] = Tuple{rr, ok}
		} else {
			fr.env[c] = Tuple{zeroOf(c.AssertedType), False}
		}
		return
	}
	x.safety(st, "type-assertion", ok, c.Pos())
	st.wf(r, c.AssertedType, -refCtr)
	fr.env[c] = r
}

func (x *Exec) implements(v *Term, it types.Type) *Term {
	if strings.HasPrefix(v.Op, "ctor:") {
		if v.Op == "ctor:anil" {
			return False
		}
		if t, ok := boxTypes[v.Op[5:]]; ok {
			return Bool(types.Implements(t, it.Underlying().(*types.Interface)))
		}
	}
	if v.Op == "ite" {
		return Ite(v.Args[0], x.implements(v.Args[1], it), x.implements(v.Args[2], it))
	}
	r := App("impl_"+typeKey(it), SBool, v)
	var names []string
	for n := range boxTypes {
		names = append(names, n)
	}
	sort.Strings(names)
	ii := it.Underlying().(*types.Interface)
	for _, n := range names {
		t := boxTypes[n]
		if nt := namedIn(t); nt != nil && ii.NumMethods() > 0 && types.Implements(t, ii) {
			r = Or(r, Is(n, v))
		}
	}
	return And(Not(Eq(v, MkCtor("anil"))), r)
}

// namedIn is the in-module named type behind t, if any.
func namedIn(t types.Type) *types.Named {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
		return nil
	}
	return n
}

func (x *Exec) doNext(fr *Frame, st *State, c *ssa.Next, k func(*Frame, *State)) {
	it, ok := x.val(fr, st, c.Iter).(*Iter)
	if !ok {
		unsupported("next on non-iterator")
	}
	if it.str {
		unsupported("range over string")
	}
	dom := Select(st.arr(mapDom(it.mt)), it.m)
	seen := st.ghost[it.id]
	cnt := st.ghost[it.id+".n"]
	kt, vt := it.mt.Key(), it.mt.Elem()
	// exhausted
	st1, fr1 := st.clone(), fr.clone()
	st1.note("%s: range done", x.g.posShort(c.Pos(), c))
	kv := BVar("k", sortOf(kt))
	inDom := And(Not(Eq(it.m, Int(0))), Select(dom, kv))
	st1.assume(Forall([]*Term{kv}, Implies(inDom, Select(seen, kv)), Select(dom, kv)))
	st1.assume(Implies(Eq(dom, it.dom0), Eq(cnt, Ite(Eq(it.m, Int(0)), Int(0), Select(st1.arr(mapLen(it.mt)), it.m)))))
	st1.assume(Implies(Eq(dom, it.dom0), Implies(Not(Eq(it.m, Int(0))), Eq(seen, dom))))
	st1.assume(Implies(Eq(it.m, Int(0)), Eq(seen, ConstArr(seen.Sort, False))))
	fr1.env[c] = Tuple{False, zeroOf(kt), zeroOf(vt)}
	// one more
	kk := Fresh("key", sortOf(kt))
	x.budget()
	st.wf(kk, kt, -refCtr)
	st.assume(Not(Eq(it.m, Int(0))))
	st.assume(Select(dom, kk))
	st.assume(Not(Select(seen, kk)))
	st.assume(Implies(Eq(dom, it.dom0), Lt(cnt, Select(st.arr(mapLen(it.mt)), it.m))))
	v := st.selectWF("", Select(st.arr(mapVal(it.mt)), it.m), kk, vt)
	st.ghost[it.id] = Store(seen, kk, True)
	st.ghost[it.id+".n"] = Add(cnt, Int(1))
	fr.env[c] = Tuple{True, kk, v}
	st.note("%s: range next", x.g.posShort(c.Pos(), c))
	if !st.dead {
		k(fr, st)
	}
	if !st1.dead {
		k(fr1, st1)
	}
}

func (x *Exec) doSelect(fr *Frame, st *State, c *ssa.Select, k func(*Frame, *State)) {
	x.g.note(x.assumed, "select statements: every case may be taken")
	tt := c.Type().(*types.Tuple)
	n := len(c.States)
	mkRes := func(st *State, idx int) Tuple {
		r := Tuple{Int(int64(idx)), Fresh("recvok", SBool)}
		for j := 2; j < tt.Len(); j++ {
			r = append(r, x.freshVal(st, "recv", tt.At(j).Type()))
		}
		return r
	}
	var opts []int
	for i := 0; i < n; i++ {
		opts = append(opts, i)
	}
	if !c.Blocking {
		opts = append(opts, -1)
	}
	for j, o := range opts {
		s, f := st, fr
		if j < len(opts)-1 {
			s, f = st.clone(), fr.clone()
			x.budget()
		}
		s.note("%s: select case %d", x.g.posShort(c.Pos(), c), o)
		f.env[c] = mkRes(s, o)
		// the channel received from
		if o >= 0 {
			s.ghost["$selected"] = x.term(f, s, c.States[o].Chan)
		}
		if o < 0 {
			k(f, s)
			continue
		}
		sc := c.States[o]
		if sc.Dir == types.SendOnly {
			x.doSend(f, s, sc.Chan, x.val(f, s, sc.Send), c, c.Pos(), k)
			continue
		}
		// position of the received value in the result
		at := 2
		for q := 0; q < o; q++ {
			if c.States[q].Dir == types.RecvOnly {
				at++
			}
		}
		x.doRecv(f, s, sc.Chan, c, c.Pos(), func(f *Frame, s *State, v Val, ok *Term) {
			tu := append(Tuple{}, f.env[c].(Tuple)...)
			tu[1], tu[at] = ok, v
			f.env[c] = tu
			k(f, s)
		})
	}
}

// ---------- loops ----------

func (g *Engine) loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	fn := h.Parent()
	m, ok := g.loopMemo[fn]
	if !ok {
		m = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			for _, s := range b.Succs {
				if s.Dominates(b) {
					body := m[s]
					if body == nil {
						body = map[*ssa.BasicBlock]bool{s: true}
						m[s] = body
					}
					var rec func(*ssa.BasicBlock)
					rec = func(n *ssa.BasicBlock) {
						if body[n] {
							return
						}
						body[n] = true
						for _, p := range n.Preds {
							rec(p)
						}
					}
					rec(b)
				}
			}
		}
		g.loopMemo[fn] = m
	}
	return m[h]
}

// numberLoops flattens the loops of fn, its closures, and uncontracted callees, in source order.
func (x *Exec) numberLoops(fn *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[fn] || fn.Blocks == nil {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		if x.g.loopBody(b) != nil {
			x.loopOrd[loopKey{fn, b, nil}] = len(x.loopOrd) + 1
		}
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				x.numberLoops(mc.Fn.(*ssa.Function), seen)
			}
			var cc *ssa.CallCommon
			switch c := in.(type) {
			case *ssa.Call:
				cc = c.Common()
			case *ssa.Defer:
				cc = c.Common()
			}
			if cc == nil {
				continue
			}
			for _, a := range cc.Args {
				if f, ok := a.(*ssa.Function); ok && inModuleFn(f) {
					x.numberLoops(f, seen)
				}
			}
			if sp := x.specFor(cc); sp != nil {
				for _, c := range sp.Calls {
					if c.Mode == "many" {
						x.loopOrd[loopKey{fn, nil, in}] = len(x.loopOrd) + 1
					}
				}
				continue
			}
			if f := cc.StaticCallee(); f != nil && inModuleFn(f) {
				x.numberLoops(f, seen)
			}
		}
	}
}

func inModuleFn(f *ssa.Function) bool {
	if f.Pkg != nil {
		return inModule(f.Pkg.Pkg)
	}
	if f.Origin() != nil && f.Origin().Pkg != nil {
		return inModule(f.Origin().Pkg.Pkg)
	}
	if f.Parent() != nil {
		return inModuleFn(f.Parent())
	}
	if f.Object() != nil {
		return inModule(f.Object().Pkg())
	}
	return false
}

func (x *Exec) unrollStep(fr *Frame, l *LoopAct, b, prev *ssa.BasicBlock, st *State) {
	fr.visits[b]++
	if fr.visits[b] > l.spec.Unroll {
		x.oblige(st, "invariant", fmt.Sprintf("loop%d.unwind", l.ord), False, b.Instrs[0].Pos(), "loop bound", nil)
		return
	}
	x.phis(fr, b, prev, st)
	x.instrs(fr, b, 0, st)
}

func (x *Exec) enterLoop(fr *Frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, prev *ssa.BasicBlock, st *State) {
	ord := x.loopOrd[loopKey{fr.fn, b, nil}]
	spec := x.spec.Loops[ord]
	x.loopHits[ord] = true
	if spec != nil && spec.Unroll > 0 {
		l := &LoopAct{header: b, body: body, spec: spec, ord: ord, frame: fr}
		fr.loops = append(fr.loops, l)
		fr.visits[b] = 0
		x.phis(fr, b, prev, st)
		x.instrs(fr, b, 0, st)
		return
	}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	ent := fr.clone()
	x.phis(ent, b, prev, st)
	entrySt := st.clone()

	// induction variables: back-edge value = phi + constant
	induct := map[*ssa.Phi]int64{}
	for _, p := range phis {
		if sortOf(p.Type()) != SInt {
			continue
		}
		if c, ok := inductionStep(p, body, b); ok {
			induct[p] = c
		}
	}
	d := &discovery{heaps: map[string]map[string]*Term{}, all: map[string]bool{}, ghosts: map[string]bool{}, drop: map[string]bool{}}
	setup := func(disc *discovery) (*Frame, *State, *LoopAct) {
		f := fr.clone()
		s := entrySt.clone()
		l := &LoopAct{header: b, body: body, spec: spec, ord: ord, induct: induct, disc: disc, phis: map[*ssa.Phi]*Term{}, entrySt: entrySt, frame: ent}
		l.symMark = symSeq
		refCtr += 1000000
		l.refMark = refCtr
		wm := -refCtr
		l.k = Fresh("k", SInt)
		s.assume(Le(Int(0), l.k))
		havocHeaps(s, d, wm)
		for _, p := range phis {
			init := ent.env[p]
			if c, ok := induct[p]; ok {
				v := Add(asTerm(init), Mul(Int(c), l.k))
				f.env[p] = v
				l.phis[p] = v
				s.wf(v, p.Type(), wm)
				continue
			}
			if it, ok := init.(*Iter); ok {
				f.env[p] = it
				continue
			}
			v := Fresh("phi_"+p.Comment, sortOf(p.Type()))
			s.wf(v, p.Type(), wm)
			f.env[p] = v
			l.phis[p] = v
		}
		for _, p := range phis {
			if p.Comment != "" {
				f.names[p.Comment] = p
			}
		}
		l.headSt = s.clone()
		f.loops = append(f.loops, l)
		l.entrySt = entrySt
		return f, s, l
	}
	// automatic bound candidates
	auto := x.autoInvs(b, body, phis, induct)
	for _, p := range phis {
		p := p
		switch {
		case sortOf(p.Type()) == SSli:
			auto = append(auto, autoInv{name: "fresh-slice." + p.Name(), f: func(fr *Frame, st *State) *Term {
				a := Sel("mkslice", 0, x.term(fr, st, p))
				return Or(Eq(a, Int(0)), Lt(a, Int(x.entryWM())))
			}})
		case isStructSort(p.Type()):
			// a variable that mirrors a ghost variable of its (struct) type
			for _, gn := range sortedKeys2(x.g.db.Ghosts) {
				gn := gn
				if t, ok := st.ghost[gn]; ok && t.Sort == sortOf(p.Type()) {
					auto = append(auto, autoInv{name: "mirror." + gn + "." + p.Name(), f: func(fr *Frame, st *State) *Term {
						if st.ghost[gn] == nil {
							return nil
						}
						return Eq(x.term(fr, st, p), st.ghost[gn])
					}})
				}
			}
		}
	}
	var cand []autoInv
	for _, a := range auto {
		if g := a.f(ent, st); g != nil && x.quickProve(st, g) {
			cand = append(cand, a)
		}
	}
	auto = cand
	// discovery of the modified locations
	x.disc++
	for iter := 0; ; iter++ {
		if iter > 25 {
			x.disc--
			unsupported("loop frame discovery does not converge")
		}
		d.chg = false
		f, s, l := setup(d)
		var live []autoInv
		for _, a := range auto {
			if !d.drop[a.name] {
				live = append(live, a)
			}
		}
		l.autoInv = live
		x.assumeInvs(f, s, l)
		l.headSt = s.clone()
		save := x.paths
		x.instrs(f, b, 0, s)
		x.paths = save
		auto = x.heapCands(auto, d, ent, entrySt)
		if !d.chg {
			break
		}
	}
	x.disc--
	// entry obligations
	le := &LoopAct{header: b, body: body, spec: spec, ord: ord, k: Int(0), phis: map[*ssa.Phi]*Term{}, entrySt: entrySt, induct: induct}
	var keep []autoInv
	for _, a := range auto {
		if !d.drop[a.name] {
			keep = append(keep, a)
		}
	}
	x.checkInvs(ent, st, le, "entry")
	// main run
	f, s, l := setup(nil)
	l.autoInv = keep
	x.assumeInvs(f, s, l)
	l.headSt = s.clone()
	s.note("%s: loop %d, arbitrary iteration", x.g.posShort(b.Instrs[0].Pos(), b.Instrs[0]), ord)
	x.instrs(f, b, 0, s)
}

func havocHeaps(s *State, d *discovery, wm int64) {
	if d.epoch {
		epochSeq++
		// everything may have changed
		s.heap = map[string]*Term{}
		s.epoch = epochSeq
		epochWM[s.epoch] = wm
	}
	for h := range d.all {
		n := Fresh("H."+h, heapSorts[h])
		arrWM[n.ID] = wm
		s.heap[h] = n
	}
	for h, locs := range d.heaps {
		if d.all[h] {
			continue
		}
		a := s.arr(h)
		for _, r := range locs {
			_, vs := splitArr(heapSorts[h])
			v := Fresh("hv."+h, vs)
			if heapElemT[h] != nil && strings.HasPrefix(h, "E:") == false {
				s.wf(v, heapElemT[h], wm)
			}
			a = Store(a, r, v)
			arrWM[v.ID] = wm
		}
		s.heap[h] = a
	}
	for gname := range d.ghosts {
		if t, ok := s.ghost[gname]; ok {
			s.ghost[gname] = Fresh("g."+gname, t.Sort)
		} else if t := Const("G0."+gname, ""); t != nil {
			_ = t
		}
	}
}

func (x *Exec) candHolds(a autoInv, fr *Frame, head, st *State) bool {
	if a.pre != nil {
		return a.pre(head, st)
	}
	t := a.f(fr, st)
	return t == nil || x.quickProve(st, t)
}

// heapCands adds automatic invariants about the heaps a loop changes: what existed when the function was entered is
// as it was when the loop was entered; slices kept in changed cells were allocated since; locks are back as they were.
func (x *Exec) heapCands(auto []autoInv, d *discovery, fr *Frame, ent *State) []autoInv {
	if d.epoch {
		return auto
	}
	has := map[string]bool{}
	for _, a := range auto {
		has[a.name] = true
	}
	wm := Int(x.entryWM())
	add := func(a autoInv) {
		if has[a.name] || d.drop[a.name] {
			return
		}
		has[a.name] = true
		if t := a.f(fr, ent); t != nil && !x.quickProve(ent, t) {
			d.drop[a.name] = true
			return
		}
		auto = append(auto, a)
		d.chg = true
	}
	for _, h := range keysOf(d.all) {
		h := h
		if h == lockHeap(true) || h == lockHeap(false) {
			continue
		}
		a0 := ent.arr(h)
		if !strings.HasPrefix(a0.Sort, "(Array Int ") {
			continue
		}
		add(autoInv{name: "frame." + h, f: func(fr *Frame, st *State) *Term {
			a := st.arr(h)
			if a == a0 {
				return nil
			}
			r := BVar("r", SInt)
			return Forall([]*Term{r}, Or(Lt(r, wm), Eq(Select(a, r), Select(a0, r))), Select(a, r))
		}, pre: func(head, st *State) bool {
			base := head.arr(h)
			memo := map[int]bool{}
			var ok func(t *Term) bool
			ok = func(t *Term) bool {
				if t == base {
					return true
				}
				if r, has := memo[t.ID]; has {
					return r
				}
				memo[t.ID] = true
				r := false
				switch t.Op {
				case "store":
					r = (freshLit(t.Args[1], x.entryRef) || x.quickProve(st, Lt(t.Args[1], wm))) && ok(t.Args[0])
				case "ite":
					r = ok(t.Args[1]) && ok(t.Args[2])
				}
				memo[t.ID] = r
				return r
			}
			return ok(st.arr(h))
		}})
	}
	for _, h := range keysOf(d.heaps) {
		h := h
		if _, vs := splitArr(heapSorts[h]); vs != SSli || d.all[h] {
			continue
		}
		for _, k := range keysOf(d.heaps[h]) {
			r := d.heaps[h][k]
			add(autoInv{name: "fresh-slice." + h + "." + k, f: func(fr *Frame, st *State) *Term {
				b := Sel("mkslice", 0, Select(st.arr(h), r))
				return Or(Eq(b, Int(0)), Lt(b, wm))
			}})
		}
	}
	for _, w := range []bool{true, false} {
		h := lockHeap(w)
		if d.all[h] || len(d.heaps[h]) > 0 {
			a0 := ent.arr(h)
			add(autoInv{name: "locks." + h, f: func(fr *Frame, st *State) *Term { return Eq(st.arr(h), a0) }})
		}
	}
	return auto
}

// inductionStep recognises phi whose every back-edge value is phi + c.
func inductionStep(p *ssa.Phi, body map[*ssa.BasicBlock]bool, h *ssa.BasicBlock) (int64, bool) {
	found := false
	var step int64
	for i, pr := range h.Preds {
		if !body[pr] {
			continue
		}
		bo, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) {
			return 0, false
		}
		var c *ssa.Const
		if bo.X == p {
			c, _ = bo.Y.(*ssa.Const)
		} else if bo.Y == p && bo.Op == token.ADD {
			c, _ = bo.X.(*ssa.Const)
		}
		if c == nil || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		n := c.Int64()
		if bo.Op == token.SUB {
			n = -n
		}
		if found && n != step {
			return 0, false
		}
		found = true
		step = n
	}
	return step, found
}

// autoInvs: bounds implied by the loop condition "i < n" with n defined outside the loop.
func (x *Exec) autoInvs(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, induct map[*ssa.Phi]int64) []autoInv {
	var out []autoInv
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	inLoop := func(v ssa.Value) bool {
		if in, ok := v.(ssa.Instruction); ok {
			return body[in.Block()]
		}
		return false
	}
	X, Y, op := bo.X, bo.Y, bo.Op
	if op == token.GTR || op == token.GEQ {
		X, Y = Y, X
		if op == token.GTR {
			op = token.LSS
		} else {
			op = token.LEQ
		}
	}
	if op != token.LSS && op != token.LEQ && op != token.NEQ {
		return nil
	}
	// find phi: X is phi, or phi + c ; or Y (counting down)
	phiOf := func(v ssa.Value) (*ssa.Phi, int64) {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
			return p, 0
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == h {
			if p, ok := b.X.(*ssa.Phi); ok && p.Block() == h {
				if c, ok := b.Y.(*ssa.Const); ok {
					return p, c.Int64()
				}
			}
		}
		return nil, 0
	}
	if p, off := phiOf(X); p != nil && induct[p] == 1 {
		Y := Y
		add := int64(0)
		if op == token.LEQ {
			add = 1
		}
		yInLoop := inLoop(Y)
		yCall, yIsLen := Y.(*ssa.Call)
		if !yInLoop || (yIsLen && isLenOfInvariant(yCall, inLoop)) {
			out = append(out, autoInv{name: "bound", f: func(fr *Frame, st *State) *Term {
				var y *Term
				if yInLoop {
					y = Sel("mkslice", 2, x.term(fr, st, yCall.Call.Args[0]))
				} else {
					y = x.term(fr, st, Y)
				}
				pv := x.term(fr, st, p)
				// p + off <= y + add, weakened for rangeindex (starts at -1, off 1): p + off <= y
				l := Add(pv, Int(off))
				if off == 1 {
					return Le(pv, Sub(Add(y, Int(add)), Int(1)))
				}
				return Le(l, Add(y, Int(add)))
			}})
		}
	}
	if p, off := phiOf(Y); p != nil && induct[p] == -1 && !inLoop(X) && off == 0 {
		X := X
		out = append(out, autoInv{name: "bound", f: func(fr *Frame, st *State) *Term {
			xv := x.term(fr, st, X)
			pv := x.term(fr, st, p)
			if op == token.LEQ {
				return Le(Sub(xv, Int(1)), pv)
			}
			return Le(xv, pv)
		}})
	}
	return out
}

func isLenOfInvariant(c *ssa.Call, inLoop func(ssa.Value) bool) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	if _, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
		return false
	}
	return !inLoop(c.Call.Args[0])
}

func (x *Exec) loopEnv(fr *Frame, st *State, l *LoopAct) *Env {
	e := x.topEnv(st)
	e.cur = fr
	vars := x.visible(fr, st)
	for n, v := range vars {
		if _, ok := e.vars[n]; !ok || !x.isParamName(n) {
			e.vars[n] = v
		}
	}
	x.renamed(e, fr, vars)
	e.vars["$k"] = isv(l.k)
	for _, cs := range x.spec.Calls { // what the callbacks of the function under verification have been called with so far
		if c, ok := st.ghost[x.cbGhost(cs.Param, "called")]; ok && cs.Mode == "many" {
			ks, _ := splitArr(c.Sort)
			e.vars["called_"+cs.Param] = SV{t: c, ty: &STy{sort: c.Sort, key: &STy{sort: ks}, elem: &STy{sort: SBool, gt: types.Typ[types.Bool]}}}
			e.vars["stopped_"+cs.Param] = bsv(st.ghost[x.cbGhost(cs.Param, "stopped")])
		}
		if n, ok := st.ghost[x.cbGhost(cs.Param, "count")]; ok {
			e.vars["count_"+cs.Param] = isv(n)
		}
	}
	if l.callID != "" {
		e.vars["$seen"] = SV{t: st.ghost[l.callID], ty: &STy{sort: ArrSort(l.callSort, SBool), key: &STy{sort: l.callSort}, elem: &STy{sort: SBool, gt: types.Typ[types.Bool]}}}
	} else if it := x.iterOf(fr, l); it != nil {
		// iterator ghost
		kt := goTy(it.mt.Key())
		e.vars["$seen"] = SV{t: st.ghost[it.id], ty: &STy{sort: ArrSort(kt.sort, SBool), key: kt, elem: &STy{sort: SBool, gt: types.Typ[types.Bool]}}}
		e.vars["$n"] = isv(st.ghost[it.id+".n"])
	}
	for f := fr; f != nil; f = f.parent {
		for _, o := range f.loops { // $kN: the iterations done by the enclosing loop N
			if o != l && o.k != nil && o.ord > 0 && o.ord != l.ord {
				e.vars[fmt.Sprintf("$k%d", o.ord)] = isv(o.k)
			}
		}
	}
	if l.header != nil {
		// $s: the slice a range statement goes over
		for _, in := range l.header.Instrs {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.LSS {
				continue
			}
			cl, ok := b.Y.(*ssa.Call)
			if !ok {
				continue
			}
			if bi, ok := cl.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || len(cl.Call.Args) != 1 {
				continue
			}
			if _, ok := cl.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
				continue
			}
			if t, ok := fr.env[cl.Call.Args[0]].(*Term); ok {
				e.vars["$s"] = SV{t: t, ty: goTy(cl.Call.Args[0].Type())}
			}
		}
	}
	// entry(e): state at loop entry
	x.bindLocals(e, fr, st, l)
	return e
}

func (x *Exec) iterOf(fr *Frame, l *LoopAct) *Iter {
	for _, in := range l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if it, ok := fr.env[n.Iter].(*Iter); ok {
				return it
			}
		}
	}
	return nil
}

func (x *Exec) isParamName(n string) bool {
	for _, p := range x.spec.Params {
		if p == n {
			return true
		}
	}
	return false
}

// visible maps source-level variable names to current values, innermost frame first.
func (x *Exec) visible(fr *Frame, st *State) map[string]SV {
	out := map[string]SV{}
	for f := fr; f != nil; f = f.parent {
		for n, v := range f.names {
			if _, dup := out[n]; dup || n == "" || n == "$range" {
				continue
			}
			if sv, ok := x.sourceVal(f, st, v); ok {
				out[n] = sv
			}
		}
	}
	return out
}

func (x *Exec) sourceVal(f *Frame, st *State, v ssa.Value) (sv SV, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	var val Val
	switch c := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		_ = c
		return SV{}, false
	default:
		r, has := f.env[v]
		if !has {
			return SV{}, false
		}
		val = r
	}
	t := v.Type()
	al, isAlloc := v.(*ssa.Alloc)
	_, isFree := v.(*ssa.FreeVar)
	if isAlloc && !isVarCell(al) {
		isAlloc = false // a pointer to a new value, not the cell of a variable
	}
	if isAlloc || isFree {
		pt, isP := t.Underlying().(*types.Pointer)
		if isP {
			switch val.(type) {
			case *Term, *Addr:
				return SV{t: st.load(val, pt.Elem()), ty: goTy(pt.Elem())}, true
			}
		}
	}
	switch y := val.(type) {
	case *Term:
		return SV{t: y, ty: goTy(t)}, true
	case *Addr:
		return SV{t: asTerm(y), v: y, ty: goTy(t)}, true
	}
	return SV{}, false
}

// bindLocals resolves "local name type" declarations of a loop spec; falls back on the type when the name is gone.
func (x *Exec) bindLocals(e *Env, fr *Frame, st *State, l *LoopAct) {
	if l.spec == nil {
		return
	}
	for _, d := range l.spec.Locals {
		f := strings.SplitN(d, " ", 2)
		if _, ok := e.vars[f[0]]; ok {
			continue
		}
		want := x.g.resolveType(f[1], x.spec.Scope)
		var cands []string
		for n, v := range x.visible(fr, st) {
			if v.ty.gt != nil && want.gt != nil && types.Identical(v.ty.gt, want.gt) && !x.isDeclared(n) {
				cands = append(cands, n)
			}
		}
		if len(cands) == 0 {
			specErr("no local variable for %q in loop %d of %s", d, l.ord, x.spec.Key)
		}
		sortStrings(cands)
		// variables of the function with the loop come before those of the functions around it, parameters last
		best := cands[0]
		for _, n := range cands[1:] {
			if bindRank(fr, n) < bindRank(fr, best) {
				best = n
			}
		}
		e.vars[f[0]] = e.x.visible(fr, st)[best]
	}
}

func bindRank(fr *Frame, n string) int {
	depth := 0
	for f := fr; f != nil; f = f.parent {
		if _, ok := f.names[n]; ok {
			for _, p := range f.fn.Params {
				if p.Name() == n {
					return 1000 + depth
				}
			}
			for _, p := range f.fn.FreeVars {
				if p.Name() == n {
					return 500 + depth
				}
			}
			return depth
		}
		depth++
	}
	return 2000
}

func (x *Exec) isDeclared(n string) bool {
	return false
}

func (x *Exec) invTerms(fr *Frame, st *State, l *LoopAct) []struct {
	c *Clause
	t *Term
} {
	var out []struct {
		c *Clause
		t *Term
	}
	if l.spec == nil {
		return out
	}
	e := x.loopEnv(fr, st, l)
	e.vars["$entry"] = SV{}
	for _, c := range l.spec.Inv {
		t := x.evalClause(e, c)
		out = append(out, struct {
			c *Clause
			t *Term
		}{c, t})
	}
	return out
}

func (x *Exec) evalClause(e *Env, c *Clause) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(SpecError); ok {
				panic(Unsupported{fmt.Sprintf("contract %s:%d (%s): %s", c.File, c.Line, c.Label, se.msg)})
			}
			panic(r)
		}
	}()
	return e.evalBool(c.Expr)
}

func (x *Exec) assumeInvs(fr *Frame, st *State, l *LoopAct) {
	for _, a := range l.autoInv {
		if t := a.f(fr, st); t != nil {
			st.assume(t)
		}
	}
	for _, it := range x.invTerms(fr, st, l) {
		st.assume(it.t)
	}
}

func (x *Exec) checkInvs(fr *Frame, st *State, l *LoopAct, when string) {
	if x.disc > 0 {
		return
	}
	for _, a := range l.autoInv {
		if t := a.f(fr, st); t != nil {
			x.oblige(st, "invariant", fmt.Sprintf("loop%d.auto.%s", l.ord, when), t, l.position(), "automatic bound", nil)
		}
	}
	for _, it := range x.invTerms(fr, st, l) {
		x.oblige(st, "invariant", it.c.Label+"."+when, it.t, l.position(), it.c.Src, it.c.Props)
	}
}

func (l *LoopAct) position() token.Pos {
	if l.header == nil {
		return l.pos
	}
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (x *Exec) backEdge(fr *Frame, l *LoopAct, prev *ssa.BasicBlock, st *State) {
	if l.disc != nil {
		if len(l.autoInv) > 0 {
			f2 := fr.clone()
			x.phis(f2, l.header, prev, st)
			for _, a := range l.autoInv {
				if l.disc.drop[a.name] {
					continue
				}
				if !x.candHolds(a, f2, l.headSt, st) {
					l.disc.drop[a.name] = true
					l.disc.chg = true
				}
			}
		}
		diffState(l.disc, l.headSt, st, l.symMark, l.refMark)
		return
	}
	// the induction variables advance; ghost k too
	x.phis(fr, l.header, prev, st)
	l2 := *l
	l2.k = Add(l.k, Int(1))
	x.checkInvs(fr, st, &l2, "preserved")
}

// diffState records which heap locations changed between head and st.
func diffState(d *discovery, head, st *State, mark int, refMark int64) {
	if st.epoch != head.epoch && !d.epoch {
		d.epoch = true
		d.chg = true
	}
	for h, t := range st.heap {
		b := head.heap[h]
		if b == nil {
			if head.epoch == st.epoch {
				b = Const(fmt.Sprintf("H%d.%s", head.epoch, h), heapSorts[h])
			}
		}
		if b == t || d.all[h] {
			continue
		}
		// both are store chains over a common base: whatever lies above their common part may differ
		chain := func(t *Term) (base *Term, ch []*Term) {
			for t.Op == "store" {
				ch = append(ch, t)
				t = t.Args[0]
			}
			return t, ch
		}
		cb, cc := chain(t)
		hb, hc := chain(b)
		if cb != hb {
			if os.Getenv("GOVC_DISC") != "" {
				fmt.Println("DISC", h, "from", b, "to", t)
			}
			d.all[h] = true
			d.chg = true
			continue
		}
		for len(cc) > 0 && len(hc) > 0 && cc[len(cc)-1] == hc[len(hc)-1] {
			cc, hc = cc[:len(cc)-1], hc[:len(hc)-1]
		}
		var locs []*Term
		for _, u := range append(cc, hc...) {
			locs = append(locs, u.Args[1])
		}
		// the head array itself may be a store chain over havoced locations: locations there are fine
		for _, r := range locs {
			if isFreshIn(r, mark, refMark) {
				// objects allocated inside the loop: invisible before; later reads see arbitrary values
				if freshLit(r, refMark) {
					continue
				}
				if os.Getenv("GOVC_DISC") != "" {
					fmt.Println("DISC fresh loc", h, r)
				}
				d.all[h] = true
				d.chg = true
				break
			}
			if d.heaps[h] == nil {
				d.heaps[h] = map[string]*Term{}
			}
			k := fmt.Sprint(r.ID)
			if _, has := d.heaps[h][k]; !has {
				d.heaps[h][k] = r
				d.chg = true
			}
		}
	}
	for gname, t := range st.ghost {
		if gname == "$selected" {
			continue
		}
		b := head.ghost[gname]
		if b == nil {
			b = Const("G0."+gname, t.Sort)
			if strings.HasPrefix(gname, "it") && isIterGhost(gname) {
				continue // iterator created inside the loop
			}
			head.ghost[gname] = b
		}
		if b != t && !d.ghosts[gname] {
			d.ghosts[gname] = true
			d.chg = true
		}
	}
}

func isIterGhost(n string) bool {
	return len(n) > 2 && n[2] >= '0' && n[2] <= '9'
}

// isFreshIn: the location depends on something created inside the loop.
func isFreshIn(r *Term, mark int, refMark int64) bool {
	fresh := false
	walk(r, map[int]*Term{}, func(u *Term) {
		if u.Op == "const" && u.max > mark {
			fresh = true
		}
		if freshLit(u, refMark) {
			fresh = true
		}
	})
	return fresh
}

func freshLit(u *Term, refMark int64) bool {
	if !u.isInt() || !strings.HasPrefix(u.Name, "-") {
		return false
	}
	if a, ok := addrReg[u.Name]; ok {
		return isFreshIn(a.ref, 1<<60, refMark)
	}
	n := u.big()
	return n.IsInt64() && -n.Int64() > refMark
}

func isStructSort(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Struct)
	return ok
}

func keysOf[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
