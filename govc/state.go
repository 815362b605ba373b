package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PC struct {
	t    *Term
	prev *PC
	n    int
}

type State struct {
	heap   map[string]*Term
	epoch  int
	pc     *PC
	facts  map[int]bool // term IDs in pc
	ghost  map[string]*Term
	trace  *Trace
	dead   bool
	locals int
}

type Trace struct {
	s    string
	prev *Trace
}

func (t *Trace) list() []string {
	var r []string
	for ; t != nil; t = t.prev {
		r = append([]string{t.s}, r...)
	}
	return r
}

func (s *State) clone() *State {
	n := &State{epoch: s.epoch, pc: s.pc, trace: s.trace}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.facts = make(map[int]bool, len(s.facts))
	for k := range s.facts {
		n.facts[k] = true
	}
	return n
}

func (s *State) note(f string, a ...any) {
	s.trace = &Trace{fmt.Sprintf(f, a...), s.trace}
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if s.facts[t.ID] {
		return
	}
	if t == False || s.facts[Not(t).ID] {
		s.dead = true
	}
	s.facts[t.ID] = true
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	s.pc = &PC{t, s.pc, n + 1}
}

func (s *State) assumptions() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- heap ----

var (
	heapSorts = map[string]string{}
	heapElemT = map[string]types.Type{} // Go type of the content, for well-formedness facts
	refCtr    int64                     // references allocated so far: -1, -2, ...
	lowerB    = map[int]int64{}         // term -> known lower bound of a reference
	arrWM     = map[int]int64{}         // base array term -> lower bound for contained references
	epochWM   = map[int]int64{0: 0}
	epochSeq  = 0
)

func newRef() *Term {
	refCtr++
	return Int(-refCtr)
}

func (s *State) arr(name string) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	srt, ok := heapSorts[name]
	if !ok {
		panic("unknown heap array " + name)
	}
	t := Const(fmt.Sprintf("H%d.%s", s.epoch, name), srt)
	arrWM[t.ID] = epochWM[s.epoch]
	s.heap[name] = t
	return t
}

func regHeap(name, srt string, t types.Type) string {
	if _, ok := heapSorts[name]; !ok {
		heapSorts[name] = srt
		heapElemT[name] = t
	}
	return name
}

func fieldHeap(st types.Type, i int) string {
	u := st.Underlying().(*types.Struct)
	f := u.Field(i)
	heapField["F:"+typeKey(st)+"."+f.Name()] = fieldInfo{st, f.Name()}
	return regHeap("F:"+typeKey(st)+"."+f.Name(), ArrSort(SInt, sortOf(f.Type())), f.Type())
}
func cellHeap(t types.Type) string {
	return regHeap("C:"+typeKey(t), ArrSort(SInt, sortOf(t)), t)
}
func elemHeap(t types.Type) string {
	return regHeap("E:"+typeKey(t), ArrSort(SInt, ArrSort(SInt, sortOf(t))), t)
}

// slices with different element types, and maps with different key or element types, never share memory
func mapKey(m *types.Map) string { return typeKey(m.Key()) + ">" + typeKey(m.Elem()) }
func mapDom(m *types.Map) string {
	k := sortOf(m.Key())
	return regHeap("MD:"+mapKey(m), ArrSort(SInt, ArrSort(k, SBool)), nil)
}
func mapVal(m *types.Map) string {
	k := sortOf(m.Key())
	v := sortOf(m.Elem())
	return regHeap("MV:"+mapKey(m), ArrSort(SInt, ArrSort(k, v)), m.Elem())
}
func mapLen(m *types.Map) string {
	return regHeap("ML:"+mapKey(m), ArrSort(SInt, SInt), nil)
}

func lockHeap(w bool) string {
	if w {
		return regHeap("LW", ArrSort(SInt, SInt), nil)
	}
	return regHeap("LR", ArrSort(SInt, SInt), nil)
}

func baseOf(a *Term) *Term {
	for a.Op == "store" {
		a = a.Args[0]
	}
	return a
}

// wf adds the well-formedness facts of a value of Go type t.
func (s *State) wf(v *Term, t types.Type, wm int64) {
	if t == nil || v.bound {
		return
	}
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 && v.Sort == SInt && !v.isInt() {
			if lo, hi, ok := intRange(t); ok {
				s.assume(Le(litS(lo), v))
				s.assume(Le(v, litS(hi)))
			}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		s.refBound(v, wm)
	case *types.Slice:
		if v.Op == "ctor:mkslice" {
			return
		}
		a, o, l, c := Sel("mkslice", 0, v), Sel("mkslice", 1, v), Sel("mkslice", 2, v), Sel("mkslice", 3, v)
		s.refBound(a, wm)
		s.assume(Le(Int(0), o))
		s.assume(Le(Int(0), l))
		s.assume(Le(l, c))
		s.assume(Implies(Eq(a, Int(0)), Eq(c, Int(0))))
	}
}

func (s *State) refBound(v *Term, wm int64) {
	if v.isInt() {
		return
	}
	if b, ok := lowerB[v.ID]; !ok || b < wm {
		lowerB[v.ID] = wm
	}
	s.assume(Le(Int(wm), v))
}

func init() {
	distinctHook = func(lit *Term, t *Term) bool {
		b, ok := lowerB[t.ID]
		if !ok || !lit.isInt() {
			return false
		}
		n := lit.big()
		return n.IsInt64() && n.Int64() < b
	}
}

// openReg remembers the Go type of reads under a quantifier; openFacts states for them what wf
// states for closed reads: a reference found in a heap is older than every later allocation.
//
// These facts belong to the function whose obligation is decided: terms are shared between functions.
type factCtx struct {
	openReg  map[int]types.Type
	newObjs  map[int]bool // see newObj
	newMemo  map[int]bool
	newTypes map[string]bool // the heaps of their fields, and of the fields of what hangs on them
}

func newFacts() *factCtx {
	return &factCtx{map[int]types.Type{}, map[int]bool{}, map[int]bool{}, map[string]bool{}}
}

var facts = newFacts()

func openFacts(ts []*Term) []*Term {
	var out []*Term
	seen, done := map[int]bool{}, map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			walk(a)
		}
		ty := facts.openReg[t.ID]
		if ty == nil {
			return
		}
		row := baseOf(t.Args[0])
		hb := row
		if row.Op == "select" {
			hb = baseOf(row.Args[0])
			row = Select(hb, row.Args[1])
			if row.Op != "select" {
				return
			}
		}
		wm, ok := arrWM[hb.ID]
		if !ok || done[row.ID] || hasNew(row) {
			return
		}
		done[row.ID] = true
		is, _ := splitArr(row.Sort)
		j := BVar("j", is)
		v := Select(row, j)
		var body *Term
		switch types.Unalias(ty).Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			body = Le(Int(wm), v)
		case *types.Slice:
			body = Le(Int(wm), Sel("mkslice", 0, v))
		default:
			return
		}
		if row == hb && newHeap(hb) { // fields of objects a callee made are no older than these objects
			body = Or(Lt(j, Int(wm)), body)
		}
		out = append(out, Forall(append(freeB(row), j), body, v))
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

// freeB lists the variables bound outside t.
func freeB(t *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var walk func(t *Term, b map[int]bool)
	walk = func(t *Term, b map[int]bool) {
		if !t.bound || seen[t.ID] {
			return
		}
		if t.Op == "bvar" {
			if !b[t.ID] {
				seen[t.ID] = true
				out = append(out, t)
			}
			return
		}
		if t.Op == "forall" || t.Op == "exists" {
			nb := map[int]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, v := range t.Args[:len(t.Args)-1] {
				nb[v.ID] = true
			}
			b = nb
		}
		for _, a := range t.Args {
			walk(a, b)
		}
	}
	walk(t, map[int]bool{})
	return out
}

// facts.newObjs are the results of calls that the contract of the callee calls fresh: what is read
// through them may be fresh too, however old the heap is.

func newObj(v *Term, t types.Type) {
	facts.newObjs[v.ID] = true
	facts.newMemo = map[int]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		p, ok := types.Unalias(t).Underlying().(*types.Pointer)
		if !ok {
			return
		}
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			facts.newTypes["C:"+typeKey(p.Elem())] = true
			return
		}
		k := "F:" + typeKey(p.Elem()) + "."
		if facts.newTypes[k] {
			return
		}
		facts.newTypes[k] = true
		for i := 0; i < st.NumFields(); i++ {
			walk(st.Field(i).Type())
		}
	}
	walk(t)
}

func newHeap(hb *Term) bool {
	for k := range facts.newTypes {
		if hb.Op == "ite" || strings.Contains(hb.Name, k) {
			return true
		}
	}
	return false
}

func hasNew(t *Term) bool {
	if len(facts.newObjs) == 0 {
		return false
	}
	if facts.newObjs[t.ID] {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if r, ok := facts.newMemo[t.ID]; ok {
		return r
	}
	r := false
	for _, a := range t.Args {
		if hasNew(a) {
			r = true
			break
		}
	}
	facts.newMemo[t.ID] = r
	return r
}

// selectWF reads a[i] and assumes well-formedness of the result.
func (s *State) selectWF(name string, a, i *Term, t types.Type) *Term {
	v := Select(a, i)
	if v.bound && v.Op == "select" && t != nil {
		facts.openReg[v.ID] = t
	}
	if v.Op == "select" {
		b := baseOf(v.Args[0])
		if b.Op == "select" {
			b = baseOf(b.Args[0])
		}
		wm, ok := arrWM[b.ID]
		if !ok || hasNew(v) {
			wm = -refCtr
		}
		s.wf(v, t, wm)
	}
	return v
}

// ---- values ----

type Val interface{}

type Addr struct {
	heap string
	ref  *Term
	path []PathEl
	typ  types.Type // pointee type
}
type PathEl struct {
	field int
	ctor  string
	idx   *Term // array index when non-nil
}

type Tuple []Val

type Iter struct {
	id   string
	m    *Term
	mt   *types.Map
	str  bool
	dom0 *Term
}

type Closure struct {
	fn     *ssa.Function
	binds  []Val
	method bool   // a method value: binds[0] is the receiver
	ghost  string // non-empty: symbolic callback parameter name
}

var (
	closReg = map[string]*Closure{}
	addrReg = map[string]*Addr{}
	fnRefs  = map[*ssa.Function]*Term{}
)

func applyPath(v *Term, p []PathEl) *Term {
	for _, e := range p {
		if e.idx != nil {
			v = Select(v, e.idx)
		} else {
			v = Sel(e.ctor, e.field, v)
		}
	}
	return v
}

func updPath(v *Term, p []PathEl, nv *Term) *Term {
	if len(p) == 0 {
		return nv
	}
	e := p[0]
	if e.idx != nil {
		return Store(v, e.idx, updPath(Select(v, e.idx), p[1:], nv))
	}
	c := ctors[e.ctor]
	var args []*Term
	for i := range c.Fields {
		f := Sel(e.ctor, i, v)
		if i == e.field {
			f = updPath(f, p[1:], nv)
		}
		args = append(args, f)
	}
	return MkCtor(e.ctor, args...)
}

func (s *State) loadAddr(a *Addr) *Term {
	if len(a.path) == 0 {
		return s.selectWF(a.heap, s.arr(a.heap), a.ref, a.typ)
	}
	v := Select(s.arr(a.heap), a.ref)
	r := applyPath(v, a.path)
	wm := -refCtr
	if b := baseOf(s.arr(a.heap)); b != nil {
		if w, ok := arrWM[b.ID]; ok && v.Op == "select" && v.Args[0] == b && !hasNew(v) {
			wm = w
		}
	}
	s.wf(r, a.typ, wm)
	return r
}

func (s *State) storeAddr(a *Addr, v *Term) {
	h := s.arr(a.heap)
	if len(a.path) == 0 {
		s.heap[a.heap] = Store(h, a.ref, v)
		return
	}
	s.heap[a.heap] = Store(h, a.ref, updPath(Select(h, a.ref), a.path, v))
}

func isStruct(t types.Type) (*types.Struct, bool) {
	u, ok := types.Unalias(t).Underlying().(*types.Struct)
	return u, ok
}

// ptrAddr resolves a pointer value of type *T to an address (T not a struct in memory).
func ptrAddr(p Val, elem types.Type) *Addr {
	switch x := p.(type) {
	case *Addr:
		return x
	case *Term:
		if x.isInt() {
			if a, ok := addrReg[x.Name]; ok {
				return a
			}
		}
		if at, ok := elem.Underlying().(*types.Array); ok {
			return &Addr{heap: elemHeap(at.Elem()), ref: x, typ: elem}
		}
		return &Addr{heap: cellHeap(elem), ref: x, typ: elem}
	}
	panic(fmt.Sprintf("ptrAddr %T", p))
}

// load reads *p where p has type *elem.
func (s *State) load(p Val, elem types.Type) *Term {
	if st, ok := isStruct(elem); ok && st.NumFields() > 0 && !isOpaqueStruct(elem) {
		if r, isRef := p.(*Term); isRef {
			if r.isInt() {
				if a, ok := addrReg[r.Name]; ok {
					return s.loadAddr(a)
				}
			}
			c := structCtor(elem)
			var args []*Term
			for i := 0; i < st.NumFields(); i++ {
				args = append(args, s.selectWF("", s.arr(fieldHeap(elem, i)), r, st.Field(i).Type()))
			}
			return MkCtor(c, args...)
		}
	}
	return s.loadAddr(ptrAddr(p, elem))
}

func (s *State) store(p Val, elem types.Type, v *Term) {
	if st, ok := isStruct(elem); ok && st.NumFields() > 0 && !isOpaqueStruct(elem) {
		if r, isRef := p.(*Term); isRef {
			if r.isInt() {
				if a, ok := addrReg[r.Name]; ok {
					s.storeAddr(a, v)
					return
				}
			}
			c := structCtor(elem)
			for i := 0; i < st.NumFields(); i++ {
				h := fieldHeap(elem, i)
				s.heap[h] = Store(s.arr(h), r, Sel(c, i, v))
			}
			return
		}
	}
	s.storeAddr(ptrAddr(p, elem), v)
}

// fieldAddr computes &p.f.
func fieldAddr(p Val, st types.Type, i int) Val {
	u := st.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	switch x := p.(type) {
	case *Term:
		if x.isInt() {
			if a, ok := addrReg[x.Name]; ok {
				return fieldAddr(a, st, i)
			}
		}
		return &Addr{heap: fieldHeap(st, i), ref: x, typ: ft}
	case *Addr:
		if isOpaqueStruct(st) {
			unsupported("field of opaque struct %s", st)
		}
		np := append(append([]PathEl{}, x.path...), PathEl{field: i, ctor: structCtor(st)})
		return &Addr{heap: x.heap, ref: x.ref, path: np, typ: ft}
	}
	panic("fieldAddr")
}

// asTerm encodes a value as a term.
func asTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Addr:
		if len(x.path) == 0 {
			// interior pointer: an injective function of the reference
			key := "adr_" + x.heap
			return interior(key, x)
		}
		return interior("adr_"+x.heap+fmt.Sprint(pathKey(x.path)), x)
	}
	panic(fmt.Sprintf("asTerm %T", v))
}

func pathKey(p []PathEl) string {
	s := ""
	for _, e := range p {
		if e.idx != nil {
			s += fmt.Sprintf("_i%d", e.idx.ID)
		} else {
			s += fmt.Sprintf("_f%d", e.field)
		}
	}
	return s
}

var interiorMemo = map[string]*Term{}

// interior pointers get a literal (with registry) when the base is a literal, else an uninterpreted function.
func interior(key string, a *Addr) *Term {
	if a.ref.isInt() {
		k := key + "@" + a.ref.Name
		if t, ok := interiorMemo[k]; ok {
			return t
		}
		t := newRef()
		interiorMemo[k] = t
		addrReg[t.Name] = a
		return t
	}
	t := App(key, SInt, a.ref)
	if _, ok := lowerB[t.ID]; !ok {
		lowerB[t.ID] = lowerB[a.ref.ID]
	}
	return t
}
