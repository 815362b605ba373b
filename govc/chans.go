package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Channel contracts: "extern send *T.f(owner, v)", "extern recv *T.f(owner) (v, ok)", "extern close *T.f(owner)" describe the
// traffic of the channel stored in field f of T: what a sender guarantees and what a receiver may rely on. A channel returned by a
// method is named by the method. "extern *T.f(owner, args) (results)" describes calls of the function stored in field f.

// fieldOf finds the struct field a value was read from.
func (x *Exec) fieldOf(fr *Frame, st *State, v ssa.Value) (pkg, key string, owner Val, ot types.Type) {
	for {
		c, ok := v.(*ssa.ChangeType)
		if !ok {
			break
		}
		v = c.X
	}
	switch u := v.(type) {
	case *ssa.UnOp:
		if u.Op != token.MUL {
			break
		}
		switch fa := u.X.(type) {
		case *ssa.FieldAddr:
			pt := fa.X.Type()
			n, _ := types.Unalias(pt.Underlying().(*types.Pointer).Elem()).(*types.Named)
			if n == nil || n.Obj().Pkg() == nil {
				return
			}
			f := n.Underlying().(*types.Struct).Field(fa.Field).Name()
			return n.Obj().Pkg().Path(), "*" + n.Obj().Name() + "." + f, x.val(fr, st, fa.X), pt
		}
	case *ssa.Call:
		cc := u.Common()
		if cc.IsInvoke() {
			n, ok := types.Unalias(cc.Value.Type()).(*types.Named)
			if !ok {
				return
			}
			p := ""
			if n.Obj().Pkg() != nil {
				p = n.Obj().Pkg().Path()
			}
			return p, n.Obj().Name() + "." + cc.Method.Name(), x.val(fr, st, cc.Value), cc.Value.Type()
		}
		if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 {
			k := specKey(f)
			i := strings.LastIndex(k, "/") + 1
			j := strings.Index(k[i:], ".") + i
			return k[:j], k[j+1:], x.val(fr, st, cc.Args[0]), cc.Args[0].Type()
		}
	}
	// by the value: the field it was loaded from
	if t, ok := fr.env[v].(*Term); ok {
		return fieldOfTerm(t)
	}
	return
}

func fieldOfTerm(t *Term) (pkg, key string, owner Val, ot types.Type) {
	if t.Op == "select" {
		b := baseOf(t.Args[0])
		if i := strings.Index(b.Name, ".F_"); b.Op == "const" && i >= 0 {
			h := "F:" + strings.SplitN(b.Name[i+3:], "!", 2)[0]
			if fi, ok := heapField[h]; ok {
				if n, _ := types.Unalias(fi.st).(*types.Named); n != nil && n.Obj().Pkg() != nil {
					return n.Obj().Pkg().Path(), "*" + n.Obj().Name() + "." + fi.name, t.Args[1], types.NewPointer(fi.st)
				}
			}
		}
	}
	return
}

// lockSpec: "extern lock *T.f(owner)" and "extern unlock *T.f(owner)" describe what the lock in field f guards: obtaining it makes
// what others may have changed arbitrary (modifies) within the guarded invariant (ensures), giving it up requires the invariant.
func (x *Exec) lockSpec(op string, v Val) (*FuncSpec, Val, types.Type) {
	t, ok := v.(*Term)
	if !ok {
		return nil, nil, nil
	}
	p, k, owner, ot := fieldOfTerm(t)
	if k == "" {
		return nil, nil, nil
	}
	return x.specByKey(p + "." + op + " " + k), owner, ot
}

type fieldInfo struct {
	st   types.Type
	name string
}

var heapField = map[string]fieldInfo{}

func (x *Exec) chanSpec(fr *Frame, st *State, op string, v ssa.Value) (*FuncSpec, Val, types.Type) {
	p, k, owner, ot := x.fieldOf(fr, st, v)
	if k == "" {
		return nil, nil, nil
	}
	return x.specByKey(p + "." + op + " " + k), owner, ot
}

func (x *Exec) doSend(fr *Frame, st *State, ch ssa.Value, v Val, in ssa.Instruction, pos token.Pos, k func(*Frame, *State)) {
	sp, owner, ot := x.chanSpec(fr, st, "send", ch)
	if sp == nil {
		x.g.note(x.assumed, "channel sends are treated as completing")
		k(fr, st)
		return
	}
	et := ch.Type().Underlying().(*types.Chan).Elem()
	if m := sp.Opts["carries"]; m != "" {
		x.oblige(st, "carries", sp.Key, x.isMethodValue(asTerm(v), sp.Pkg+"."+m, owner), pos, "only "+m+" of the owner is sent on this channel", nil)
	}
	x.assumed["a value sent on an unbuffered channel is taken by the receiver of that channel (contract "+sp.Key+")"] = true
	x.applyContract(fr, st, sp, []Val{owner, asTerm(v)}, []types.Type{ot, et}, nil, in, pos, func(fr *Frame, st *State, _ []Val) { k(fr, st) })
}

func (x *Exec) doRecv(fr *Frame, st *State, ch ssa.Value, in ssa.Instruction, pos token.Pos, k func(fr *Frame, st *State, v Val, ok *Term)) {
	et := ch.Type().Underlying().(*types.Chan).Elem()
	sp, owner, ot := x.chanSpec(fr, st, "recv", ch)
	if sp == nil {
		x.g.note(x.assumed, "channel receives complete and yield arbitrary values")
		v, ok := x.freshVal(st, "recv", et), Fresh("recvok", SBool)
		if c, isT := fr.env[ch].(*Term); isT {
			// a closed unbuffered channel yields the zero value
			full := Eq(App("chancap", SInt, c), Int(0))
			if st.facts[full.ID] {
				full = True
			}
			dead := And(Select(st.arr(chanHeap()), c), full)
			if _, isT := v.(*Term); isT && dead == True {
				k(fr, st, zeroOf(et), False)
				return
			}
			st.assume(Implies(dead, Not(ok)))
			if t, isT := v.(*Term); isT {
				st.assume(Implies(dead, Eq(t, zeroOf(et))))
			}
		}
		k(fr, st, v, ok)
		return
	}
	x.assumed["a value received from a channel was sent under the send contract of that channel (contract "+sp.Key+")"] = true
	x.applyContract(fr, st, sp, []Val{owner}, []types.Type{ot}, []types.Type{et, types.Typ[types.Bool]}, in, pos, func(fr *Frame, st *State, r []Val) {
		if m := sp.Opts["carries"]; m != "" {
			f := x.g.funcs[sp.Pkg+"."+m]
			if f == nil {
				unsupported("contract %s carries unknown method %s", sp.Key, m)
			}
			c := newRef()
			closReg[c.Name] = &Closure{fn: f, binds: []Val{owner}, method: true}
			ok := asTerm(r[1])
			st2, fr2 := st.clone(), fr.clone()
			x.budget()
			if x.feasible(st, ok) {
				st.assume(ok)
				k(fr, st, c, True)
			}
			if x.feasible(st2, Not(ok)) {
				st2.assume(Not(ok))
				k(fr2, st2, Int(0), False)
			}
			return
		}
		k(fr, st, r[0], asTerm(r[1]))
	})
}

// isMethodValue: is v the method value owner.key?
func (x *Exec) isMethodValue(v *Term, key string, owner Val) *Term {
	f := x.g.funcs[key]
	cl := closReg[v.Name]
	if f == nil || !v.isInt() || cl == nil || len(cl.binds) != 1 {
		return False
	}
	if cl.fn != f && !(strings.Contains(cl.fn.Synthetic, "bound") && cl.fn.Object() == f.Object()) {
		return False
	}
	return Eq(asTerm(cl.binds[0]), asTerm(owner))
}
