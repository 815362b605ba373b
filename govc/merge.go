package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State merging at the join of an if: the states reaching the immediate post-dominator of the
// branch become one state in which every differing value is a conditional on a selector.

type joinPoint struct {
	b    *ssa.BasicBlock
	arr  []arrival
	prev *joinPoint
}

type arrival struct {
	fr    *Frame
	prev  *ssa.BasicBlock
	st    *State
	stack []string
	then  bool
}

var postDoms = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}

// ipdom returns the immediate post-dominator of b (nil when it is the exit).
func ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	m, ok := postDoms[fn]
	if !ok {
		m = computePostDoms(fn)
		postDoms[fn] = m
	}
	return m[b]
}

func computePostDoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	exit := n
	full := func() []bool {
		r := make([]bool, n+1)
		for i := range r {
			r[i] = true
		}
		return r
	}
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = full()
	}
	pd[exit] = make([]bool, n+1)
	pd[exit][exit] = true
	for chg := true; chg; {
		chg = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := full()
			// a block that ends in a panic has no influence on where the others meet
			succs := []int{}
			for _, s := range b.Succs {
				if len(s.Succs) == 0 && len(s.Instrs) > 0 {
					if _, p := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); p && len(b.Succs) > 1 {
						continue
					}
				}
				succs = append(succs, s.Index)
			}
			if len(succs) == 0 {
				succs = []int{exit}
			}
			for _, s := range succs {
				for j := range cur {
					cur[j] = cur[j] && pd[s][j]
				}
			}
			cur[i] = true
			for j := range cur {
				if cur[j] != pd[i][j] {
					pd[i] = cur
					chg = true
					break
				}
			}
		}
	}
	res := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		// the strict post-dominator that is post-dominated by all the others
		for j := 0; j < n; j++ {
			if j == i || !pd[i][j] {
				continue
			}
			all := true
			for k := 0; k <= n && all; k++ {
				if k != i && pd[i][k] && !pd[j][k] {
					all = false
				}
			}
			if all {
				res[b] = fn.Blocks[j]
				break
			}
		}
	}
	return res
}

func (x *Exec) merging() bool { return x.spec.Opts["merge"] == "on" || x.autoMerge }

// branchMerged explores both sides of c up to their join and goes on from the merged state.
func (x *Exec) branchMerged(fr *Frame, b *ssa.BasicBlock, t *Term, st *State, posT, posF string) bool {
	m := ipdom(b)
	if m == nil || x.g.loopBody(m) != nil {
		return false
	}
	j := &joinPoint{b: m, prev: fr.join}
	st2 := st.clone()
	fr2 := fr.clone()
	outer := fr.join
	fr.join, fr2.join = j, j
	base := st.pc
	st.note("%s", posT)
	st.assume(t)
	x.block(fr, b.Succs[0], b, st)
	n1 := len(j.arr)
	st2.note("%s", posF)
	st2.assume(Not(t))
	x.block(fr2, b.Succs[1], b, st2)
	arr := j.arr
	for i := range arr {
		arr[i].then = i < n1
		arr[i].fr.join = outer
		x.mergePhis(&arr[i], m)
	}
	for len(arr) > 1 {
		// merge the last two
		a, c := arr[len(arr)-2], arr[len(arr)-1]
		sel := t
		if !(a.then && !c.then) || len(j.arr) > 2 {
			sel = Fresh("sel", SBool)
		}
		mst, mfr := x.mergeStates(a, c, sel, base)
		if mst == nil {
			break
		}
		arr = arr[:len(arr)-2]
		arr = append(arr, arrival{fr: mfr, st: mst, prev: a.prev, stack: a.stack, then: a.then})
	}
	for _, a := range arr {
		cur := x.stack
		x.stack = append([]string{}, a.stack...)
		x.joined(a.fr, m, a.st)
		x.stack = cur
	}
	return true
}

func (x *Exec) mergePhis(a *arrival, m *ssa.BasicBlock) {
	// loops left on the way to the join
	for len(a.fr.loops) > 0 {
		l := a.fr.loops[len(a.fr.loops)-1]
		if l.body[m] || l.disc != nil {
			break
		}
		a.fr.loops = a.fr.loops[:len(a.fr.loops)-1]
	}
	if a.prev != nil {
		x.phis(a.fr, m, a.prev, a.st)
	}
}

// joined goes on from the block whose phis have been evaluated.
func (x *Exec) joined(fr *Frame, b *ssa.BasicBlock, st *State) {
	if st.dead {
		return
	}
	if fr.join != nil && fr.join.b == b {
		fr.join.arr = append(fr.join.arr, arrival{fr: fr, prev: nil, st: st, stack: append([]string{}, x.stack...)})
		return
	}
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.body[b] {
			break
		}
		if l.disc != nil {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	x.instrs(fr, b, 0, st)
}

func pcSince(p, base *PC) []*Term {
	var out []*Term
	n := 0
	if base != nil {
		n = base.n
	}
	for ; p != nil && p.n > n; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if p != base {
		return nil
	}
	return out
}

func sameVal(a, b Val) bool {
	switch u := a.(type) {
	case *Term:
		v, ok := b.(*Term)
		return ok && u == v
	case Tuple:
		v, ok := b.(Tuple)
		if !ok || len(u) != len(v) {
			return false
		}
		for i := range u {
			if !sameVal(u[i], v[i]) {
				return false
			}
		}
		return true
	case *Addr:
		v, ok := b.(*Addr)
		if !ok || u.heap != v.heap || u.ref != v.ref || len(u.path) != len(v.path) {
			return ok && u == v
		}
		for i := range u.path {
			if u.path[i] != v.path[i] {
				return false
			}
		}
		return true
	case *Closure:
		v, ok := b.(*Closure)
		return ok && u == v
	case nil:
		return b == nil
	}
	return a == b
}

func mergeVal(sel *Term, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch u := a.(type) {
	case *Term:
		if v, ok := b.(*Term); ok && u.Sort == v.Sort {
			return iteTerm(sel, u, v), true
		}
	case Tuple:
		v, ok := b.(Tuple)
		if !ok || len(u) != len(v) {
			return nil, false
		}
		var r Tuple
		for i := range u {
			m, ok := mergeVal(sel, u[i], v[i])
			if !ok {
				return nil, false
			}
			r = append(r, m)
		}
		return r, true
	}
	return nil, false
}

func iteTerm(sel, a, b *Term) *Term {
	t := Ite(sel, a, b)
	la, oka := lowerB[a.ID]
	if a.isInt() {
		la, oka = 0, true
		var n int64
		if _, err := fmt.Sscan(a.Name, &n); err == nil && n < 0 {
			la = n
		}
	}
	lb, okb := lowerB[b.ID]
	if b.isInt() {
		lb, okb = 0, true
		var n int64
		if _, err := fmt.Sscan(b.Name, &n); err == nil && n < 0 {
			lb = n
		}
	}
	if oka && okb {
		if lb < la {
			la = lb
		}
		if cur, ok := lowerB[t.ID]; !ok || la < cur {
			lowerB[t.ID] = la
		}
	}
	return t
}

// mergeArr: two arrays as one; over a common base only the written locations differ.
func mergeArr(sel, a, b *Term) *Term {
	if a == b {
		return a
	}
	chain := func(t *Term) (base *Term, ch []*Term) {
		for t.Op == "store" {
			ch = append(ch, t)
			t = t.Args[0]
		}
		return t, ch
	}
	ab, ac := chain(a)
	bb, bc := chain(b)
	if ab != bb {
		t := Ite(sel, a, b)
		wa, oka := arrWM[ab.ID]
		wb, okb := arrWM[bb.ID]
		if oka && okb {
			if wb < wa {
				wa = wb
			}
			arrWM[t.ID] = wa
		}
		return t
	}
	common := ab
	for len(ac) > 0 && len(bc) > 0 && ac[len(ac)-1] == bc[len(bc)-1] {
		common = ac[len(ac)-1]
		ac, bc = ac[:len(ac)-1], bc[:len(bc)-1]
	}
	var locs []*Term
	seen := map[int]bool{}
	for _, ch := range [][]*Term{ac, bc} {
		for i := len(ch) - 1; i >= 0; i-- {
			l := ch[i].Args[1]
			if !seen[l.ID] {
				seen[l.ID] = true
				locs = append(locs, l)
			}
		}
	}
	r := common
	for _, l := range locs {
		va, vb := Select(a, l), Select(b, l)
		var v *Term
		if _, _, isArr := trySplit(va.Sort); isArr {
			v = mergeArr(sel, va, vb)
		} else {
			v = iteTerm(sel, va, vb)
		}
		r = Store(r, l, v)
	}
	return r
}

func trySplit(srt string) (k, v string, ok bool) {
	if len(srt) < 7 || srt[:7] != "(Array " {
		return "", "", false
	}
	k, v = splitArr(srt)
	return k, v, true
}

func (x *Exec) mergeStates(a, c arrival, sel *Term, base *PC) (*State, *Frame) {
	sa, sc := a.st, c.st
	fa, fc := a.fr, c.fr
	if sa.epoch != sc.epoch || len(fa.loops) != len(fc.loops) || len(fa.defers) != len(fc.defers) || fa.parent != fc.parent {
		return nil, nil
	}
	for i := range fa.loops {
		if fa.loops[i] != fc.loops[i] {
			return nil, nil
		}
	}
	for i := range fa.defers {
		d, e := fa.defers[i], fc.defers[i]
		if d.in != e.in || !sameVal(d.fnv, e.fnv) || len(d.args) != len(e.args) {
			return nil, nil
		}
		for k := range d.args {
			if !sameVal(d.args[k], e.args[k]) {
				return nil, nil
			}
		}
	}
	la, lc := pcSince(sa.pc, base), pcSince(sc.pc, base)
	if (la == nil && sa.pc != base) || (lc == nil && sc.pc != base) {
		return nil, nil
	}
	// the frame
	nf := fa.clone()
	for v, va := range fa.env {
		vc, ok := fc.env[v]
		if !ok {
			delete(nf.env, v)
			continue
		}
		if m, ok := mergeVal(sel, va, vc); ok {
			nf.env[v] = m
		} else if phi, isPhi := v.(*ssa.Phi); isPhi && phi != nil {
			return nil, nil
		} else {
			return nil, nil
		}
	}
	for n, v := range fa.names {
		if fc.names[n] != v {
			delete(nf.names, n)
		}
	}
	for b, n := range fc.visits {
		if nf.visits[b] < n {
			nf.visits[b] = n
		}
	}
	// the state
	ns := &State{epoch: sa.epoch, pc: base, facts: map[int]bool{}, heap: map[string]*Term{}, ghost: map[string]*Term{}, trace: sa.trace}
	for p := base; p != nil; p = p.prev {
		ns.facts[p.t.ID] = true
	}
	inC := map[int]bool{}
	for _, t := range lc {
		inC[t.ID] = true
	}
	inA := map[int]bool{}
	for _, t := range la {
		inA[t.ID] = true
		if inC[t.ID] {
			ns.assume(t)
		}
	}
	for _, t := range la {
		if !inC[t.ID] {
			ns.assume(Implies(sel, t))
		}
	}
	for _, t := range lc {
		if !inA[t.ID] {
			ns.assume(Implies(Not(sel), t))
		}
	}
	for _, h := range sortedKeysOf(sa.heap, sc.heap) {
		ns.heap[h] = mergeArr(sel, sa.arr(h), sc.arr(h))
	}
	for _, g := range sortedKeysOf(sa.ghost, sc.ghost) {
		va, oka := sa.ghost[g]
		vc, okc := sc.ghost[g]
		switch {
		case oka && okc:
			if va == vc {
				ns.ghost[g] = va
			} else if _, _, isArr := trySplit(va.Sort); isArr {
				ns.ghost[g] = mergeArr(sel, va, vc)
			} else {
				ns.ghost[g] = Ite(sel, va, vc)
			}
		default:
			v, mine := va, oka
			if !oka {
				v = vc
			}
			switch {
			case isIterGhost(g) && strings.HasPrefix(g, "it"), g == "$selected":
				continue
			case strings.HasPrefix(g, "$ret."):
				ns.ghost[g] = v
				continue
			}
			other := Const("G0."+g, v.Sort)
			if g == "$go" {
				other = Int(0)
			} else if strings.HasPrefix(g, "$") {
				return nil, nil
			}
			if mine {
				ns.ghost[g] = Ite(sel, v, other)
			} else {
				ns.ghost[g] = Ite(sel, other, v)
			}
		}
	}
	ns.note("join")
	return ns, nf
}

func sortedKeysOf(a, b map[string]*Term) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return sortedKeys(m)
}
