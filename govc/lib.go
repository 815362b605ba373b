package main

import (
	"reflect"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) guarded(sp *FuncSpec) {
	x.assumed["what a lock guards is changed by others only while they hold it, within its invariant (contract "+sp.Key+")"] = true
}

// lib models functions of the standard library and of third-party packages. Every model used is listed as a trusted
// contract in the evidence.
func (x *Exec) lib(name string, fr *Frame, st *State, sig *types.Signature, args []Val, in ssa.Instruction, pos token.Pos, k CallK) bool {
	ret := func(vs ...Val) bool {
		if x.disc == 0 {
			x.modelled[strings.ReplaceAll(name, modulePath+"/", "")] = true
		}
		k(fr, st, vs)
		return true
	}
	ret2 := func(fr *Frame, st *State) {
		if x.disc == 0 {
			x.modelled[strings.ReplaceAll(name, modulePath+"/", "")] = true
		}
		k(fr, st, nil)
	}
	nilErr := MkCtor("anil")
	newErr := func(hint string) *Term { return MkCtor("box_other", Int(1), Fresh(hint, SInt)) }
	switch name {
	// ----- locks -----
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock":
		p := asTerm(args[0])
		h := lockHeap(true)
		cur := Select(st.arr(h), p)
		st.assume(Le(Int(0), cur))
		if strings.HasSuffix(name, ".Lock") {
			if x.spec.Opts["deadlock"] == "on" {
				x.safety(st, "lock-not-already-held", And(Eq(cur, Int(0)), Eq(Select(st.arr(lockHeap(false)), p), Int(0))), pos)
			}
			st.heap[h] = Store(st.arr(h), p, Add(cur, Int(1)))
			if sp, owner, ot := x.lockSpec("lock", p); sp != nil {
				x.guarded(sp)
				x.applyContract(fr, st, sp, []Val{owner}, []types.Type{ot}, nil, in, pos, func(fr *Frame, st *State, _ []Val) { ret2(fr, st) })
				return true
			}
		} else {
			x.safety(st, "unlock-of-held-lock", Le(Int(1), cur), pos)
			if sp, owner, ot := x.lockSpec("unlock", p); sp != nil {
				x.guarded(sp)
				x.applyContract(fr, st, sp, []Val{owner}, []types.Type{ot}, nil, in, pos, func(fr *Frame, st *State, _ []Val) {
					st.heap[h] = Store(st.arr(h), p, Sub(Select(st.arr(h), p), Int(1)))
					ret2(fr, st)
				})
				return true
			}
			st.heap[h] = Store(st.arr(h), p, Sub(cur, Int(1)))
		}
		return ret()
	case "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		p := asTerm(args[0])
		h := lockHeap(false)
		cur := Select(st.arr(h), p)
		st.assume(Le(Int(0), cur))
		if strings.HasSuffix(name, ".RLock") {
			if x.spec.Opts["deadlock"] == "on" {
				x.safety(st, "lock-not-already-held", Eq(Select(st.arr(lockHeap(true)), p), Int(0)), pos)
			}
			st.heap[h] = Store(st.arr(h), p, Add(cur, Int(1)))
			if sp, owner, ot := x.lockSpec("rlock", p); sp != nil {
				x.guarded(sp)
				x.applyContract(fr, st, sp, []Val{owner}, []types.Type{ot}, nil, in, pos, func(fr *Frame, st *State, _ []Val) { ret2(fr, st) })
				return true
			}
		} else {
			x.safety(st, "unlock-of-held-lock", Le(Int(1), cur), pos)
			if sp, owner, ot := x.lockSpec("runlock", p); sp != nil {
				x.guarded(sp)
				x.applyContract(fr, st, sp, []Val{owner}, []types.Type{ot}, nil, in, pos, func(fr *Frame, st *State, _ []Val) {
					st.heap[h] = Store(st.arr(h), p, Sub(Select(st.arr(h), p), Int(1)))
					ret2(fr, st)
				})
				return true
			}
			st.heap[h] = Store(st.arr(h), p, Sub(cur, Int(1)))
		}
		return ret()
	case "(*sync.Once).Do":
		p := asTerm(args[0])
		h := onceHeap()
		done := Select(st.arr(h), p)
		st2, fr2 := st.clone(), fr.clone()
		x.modelled[name] = true
		if x.feasible(st, Not(done)) {
			st.assume(Not(done))
			st.heap[h] = Store(st.arr(h), p, True)
			fsig := sig.Params().At(0).Type().Underlying().(*types.Signature)
			x.callVal(fr, st, args[1], nil, fsig, in, pos, func(fr *Frame, st *State, _ []Val) { k(fr, st, nil) })
		}
		if x.feasible(st2, done) {
			st2.assume(done)
			k(fr2, st2, nil)
		}
		return true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		return ret()
	// ----- atomics -----
	case "(*sync/atomic.Int64).Load", "(*sync/atomic.Int32).Load", "(*sync/atomic.Uint64).Load", "(*sync/atomic.Uint32).Load":
		v := Select(st.arr(atomicHeap()), asTerm(args[0]))
		st.wf(v, sig.Results().At(0).Type(), 0)
		return ret(v)
	case "(*sync/atomic.Int64).Store", "(*sync/atomic.Int32).Store", "(*sync/atomic.Uint64).Store", "(*sync/atomic.Uint32).Store":
		st.heap[atomicHeap()] = Store(st.arr(atomicHeap()), asTerm(args[0]), asTerm(args[1]))
		return ret()
	case "(*sync/atomic.Int64).Add", "(*sync/atomic.Int32).Add", "(*sync/atomic.Uint64).Add", "(*sync/atomic.Uint32).Add":
		p := asTerm(args[0])
		cur := Select(st.arr(atomicHeap()), p)
		st.wf(cur, sig.Results().At(0).Type(), 0)
		n := Add(cur, asTerm(args[1]))
		if strings.Contains(name, "Uint") {
			n = wrapInt(n, sig.Results().At(0).Type())
		} else if x.spec.Opts["machine"] != "off" {
			n = wrapSum(n, sig.Results().At(0).Type())
		}
		st.heap[atomicHeap()] = Store(st.arr(atomicHeap()), p, n)
		return ret(n)
	case "(*sync/atomic.Bool).Load":
		return ret(Not(Eq(Select(st.arr(atomicHeap()), asTerm(args[0])), Int(0))))
	case "(*sync/atomic.Bool).Store":
		st.heap[atomicHeap()] = Store(st.arr(atomicHeap()), asTerm(args[0]), Ite(asTerm(args[1]), Int(1), Int(0)))
		return ret()
	case "(*sync/atomic.Bool).Swap":
		p := asTerm(args[0])
		cur := Not(Eq(Select(st.arr(atomicHeap()), p), Int(0)))
		st.heap[atomicHeap()] = Store(st.arr(atomicHeap()), p, Ite(asTerm(args[1]), Int(1), Int(0)))
		return ret(cur)
	case "(*sync/atomic.Int64).Swap", "(*sync/atomic.Int32).Swap", "(*sync/atomic.Uint64).Swap", "(*sync/atomic.Uint32).Swap":
		p := asTerm(args[0])
		cur := Select(st.arr(atomicHeap()), p)
		st.wf(cur, sig.Results().At(0).Type(), 0)
		st.heap[atomicHeap()] = Store(st.arr(atomicHeap()), p, asTerm(args[1]))
		return ret(cur)
	case "(*sync/atomic.Int64).CompareAndSwap", "(*sync/atomic.Int32).CompareAndSwap", "(*sync/atomic.Uint64).CompareAndSwap", "(*sync/atomic.Uint32).CompareAndSwap":
		p := asTerm(args[0])
		cur := Select(st.arr(atomicHeap()), p)
		st.wf(cur, sig.Params().At(0).Type(), 0)
		ok := Eq(cur, asTerm(args[1]))
		st.heap[atomicHeap()] = Store(st.arr(atomicHeap()), p, Ite(ok, asTerm(args[2]), cur))
		return ret(ok)
	case "(*sync/atomic.Bool).CompareAndSwap":
		p := asTerm(args[0])
		cur := Not(Eq(Select(st.arr(atomicHeap()), p), Int(0)))
		ok := Eq(cur, asTerm(args[1]))
		nv := Ite(asTerm(args[2]), Int(1), Int(0))
		st.heap[atomicHeap()] = Store(st.arr(atomicHeap()), p, Ite(ok, nv, Select(st.arr(atomicHeap()), p)))
		return ret(ok)
	// ----- maps -----
	case "maps.Clone":
		mt, ok := sig.Params().At(0).Type().Underlying().(*types.Map)
		if !ok {
			return false
		}
		m := asTerm(args[0])
		r := newRef()
		for _, h := range []string{mapDom(mt), mapVal(mt), mapLen(mt)} {
			st.heap[h] = Store(st.arr(h), r, Select(st.arr(h), m))
		}
		return ret(Ite(Eq(m, Int(0)), Int(0), r))
	// ----- errors, fmt, strings -----
	case "fmt.Errorf", "errors.New":
		return ret(newErr("err"))
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if t := x.sprintf(st, name, args); t != nil {
			r := Fresh("str", SStr)
			st.assume(Eq(r, t))
			if f, ok := args[0].(*Term); ok {
				if lit, ok := litOf(f); ok && literalText(lit) {
					st.assume(Not(Eq(t, StrLit(""))))
					st.assume(Le(Int(1), App("slen", SInt, t)))
				}
			}
			return ret(t)
		}
		r := Fresh("str", SStr)
		if f, ok := args[0].(*Term); name == "fmt.Sprintf" && ok {
			if lit, ok := litOf(f); ok && literalText(lit) {
				st.assume(Not(Eq(r, StrLit(""))))
				st.assume(Le(Int(1), App("slen", SInt, r)))
			}
		}
		return ret(r)
	case "iface:error.Error":
		x.safety(st, "no-nil-dereference", Not(Eq(asTerm(args[0]), MkCtor("anil"))), pos)
		return ret(App("errtext", SStr, asTerm(args[0])))
	case "errors.Is":
		return ret(App("errors_is", SBool, asTerm(args[0]), asTerm(args[1])))
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		return ret(App(name, SStr, asTerm(args[0])))
	// ----- reflect -----
	case "reflect.TypeOf":
		a := asTerm(args[0])
		r := App("rtype", SAny, a)
		st.assume(Eq(Eq(r, MkCtor("anil")), Eq(a, MkCtor("anil"))))
		return ret(r)
	case "iface:reflect.Type.PkgPath":
		v := asTerm(args[0])
		if v.Op == "app" && v.Name == "rtype" {
			// predeclared types have no package; a type of a predeclared kind that is not predeclared has one
			a := v.Args[0]
			basic := False
			for k := range kindNums {
				if k == types.Complex64 || k == types.Complex128 {
					continue
				}
				basic = Or(basic, Is(boxCtor(types.Typ[k]), a))
			}
			r := App("pkgpath", SStr, a)
			empty := StrLit("")
			st.assume(Implies(basic, Eq(r, empty)))
			kd := kindOf(a)
			st.assume(Implies(And(Not(basic), Or(And(Le(Int(1), kd), Le(kd, Int(16))), Eq(kd, Int(24)))), Not(Eq(r, empty))))
			return ret(r)
		}
		return false
	case "(reflect.Value).CanFloat":
		v := asTerm(args[0])
		if v.Op == "app" && v.Name == "rvalue" {
			kd := kindOf(v.Args[0])
			return ret(Or(Eq(kd, Int(13)), Eq(kd, Int(14))))
		}
		return false
	case "(reflect.Value).Float":
		v := asTerm(args[0])
		if v.Op == "app" && v.Name == "rvalue" {
			a := v.Args[0]
			f32, f64 := boxCtor(types.Typ[types.Float32]), boxCtor(types.Typ[types.Float64])
			kd := kindOf(a)
			x.safety(st, "float-of-a-float-value", Or(Eq(kd, Int(13)), Eq(kd, Int(14))), pos)
			r := Ite(Is(f64, a), Sel(f64, 0, a), Ite(Is(f32, a), fpTo(SF64, Sel(f32, 0, a)), App("rfloat_other", SF64, a)))
			return ret(r)
		}
		return false
	case "reflect.ValueOf":
		return ret(App("rvalue", sortOf(sig.Results().At(0).Type()), asTerm(args[0])))
	case "(reflect.Value).Kind":
		v := asTerm(args[0])
		if v.Op == "app" && v.Name == "rvalue" {
			return ret(kindOf(v.Args[0]))
		}
		return ret(Fresh("kind", SInt))
	case "(reflect.Kind).String":
		return ret(App("kindname", SStr, asTerm(args[0])))
	case "reflect.DeepEqual":
		a, b := asTerm(args[0]), asTerm(args[1])
		return ret(deepEqual(a, b))
	// ----- strconv -----
	case "strconv.FormatUint", "strconv.FormatInt":
		v := asTerm(args[0])
		r := App("fmt_int", SStr, v)
		st.assume(App("spec_is_int", SBool, r))
		st.assume(Eq(App("spec_int_of", SInt, r), v))
		st.assume(App("spec_utf8", SBool, r))
		return ret(r)
	case "strconv.Itoa":
		v := asTerm(args[0])
		r := App("fmt_int", SStr, v)
		st.assume(App("spec_is_int", SBool, r))
		st.assume(Eq(App("spec_int_of", SInt, r), v))
		st.assume(App("spec_utf8", SBool, r))
		return ret(r)
	case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		s := asTerm(args[0])
		bits := Int(64)
		if len(args) == 3 {
			bits = asTerm(args[2])
		}
		lo, hi := "0", ""
		uns := name == "strconv.ParseUint"
		switch bits.Name {
		case "8":
			lo, hi = "-128", "127"
			if uns {
				hi = "255"
			}
		case "16":
			lo, hi = "-32768", "32767"
			if uns {
				hi = "65535"
			}
		case "32":
			lo, hi = "-2147483648", "2147483647"
			if uns {
				hi = "4294967295"
			}
		case "64":
			lo, hi = "-9223372036854775808", "9223372036854775807"
			if uns {
				hi = "18446744073709551615"
			}
		default:
			unsupported("strconv bit size %s", bits)
		}
		if uns {
			lo = "0"
		}
		n := App("spec_int_of", SInt, s)
		ok := And(App("spec_is_int", SBool, s), Le(litS(lo), n), Le(n, litS(hi)))
		v := Fresh("parsed", SInt)
		st.assume(Implies(ok, Eq(v, n)))
		st.wf(v, sig.Results().At(0).Type(), 0)
		e := Ite(ok, nilErr, newErr("parse"))
		return ret(v, e)
	case "strconv.FormatFloat":
		v := asTerm(args[0])
		bits := asTerm(args[3])
		if !bits.isInt() {
			return false
		}
		r := App("fmt_float"+bits.Name, SStr, v)
		st.assume(App("spec_is_float", SBool, r, bits))
		rt := v
		if bits.Name == "32" {
			rt = fpTo(SF64, fpTo(SF32, v))
		}
		st.assume(Implies(Not(mk("fp.isNaN", "", SBool, v)), Eq(App("spec_float_of", SF64, r, bits), rt)))
		st.assume(App("spec_utf8", SBool, r))
		st.assume(Implies(mk("fp.isNaN", "", SBool, v), mk("fp.isNaN", "", SBool, App("spec_float_of", SF64, r, bits))))
		return ret(r)
	case "strconv.ParseFloat":
		s, bits := asTerm(args[0]), asTerm(args[1])
		ok := App("spec_is_float", SBool, s, bits)
		v := Fresh("parsedf", SF64)
		st.assume(Implies(ok, Eq(v, App("spec_float_of", SF64, s, bits))))
		return ret(v, Ite(ok, nilErr, newErr("parse")))
	case "math.IsNaN":
		return ret(mk("fp.isNaN", "", SBool, asTerm(args[0])))
	case "math.IsInf":
		return ret(And(mk("fp.isInfinite", "", SBool, asTerm(args[0])), Or(Eq(asTerm(args[1]), Int(0)), Eq(mk("fp.isPositive", "", SBool, asTerm(args[0])), Lt(Int(0), asTerm(args[1]))))))
	// ----- json -----
	case "encoding/json.Marshal":
		x.havocErr(st)
		r := x.freshVal(st, "json", sig.Results().At(0).Type()).(*Term)
		e := Fresh("jsonerr", SBool)
		x.jsonFields(st, asTerm(args[0]), r, Not(e))
		x.libGhost(st, "json_enc", func(old *Term) *Term { return And(old, Not(e)) })
		x.libGhost(st, "json_src", func(old *Term) *Term { return asTerm(args[0]) })
		x.libGhost(st, "json_out", func(old *Term) *Term { return r })
		return ret(r, Ite(e, newErr("json"), nilErr))
	case "encoding/json.Unmarshal":
		doc := jsonDoc(st, asTerm(args[0]))
		x.havocPointee(st, asTerm(args[1]))
		e := Fresh("jsonerr", SBool)
		x.jsonDecoded(st, asTerm(args[1]), doc, Not(e))
		return ret(Ite(e, newErr("json"), nilErr))
	case "(*encoding/json.Decoder).Decode":
		x.havocPointee(st, asTerm(args[1]))
		e := Fresh("jsonerr", SBool)
		x.libGhost(st, "json_ok", func(old *Term) *Term { return Not(e) })
		x.libGhost(st, "json_doc", func(old *Term) *Term { return asTerm(args[1]) })
		return ret(Ite(e, newErr("json"), nilErr))
	case "io.ReadAll":
		r := x.freshVal(st, "body", sig.Results().At(0).Type()).(*Term)
		e := Fresh("readerr", SBool)
		return ret(r, Ite(e, newErr("read"), nilErr))
	// ----- time, context, uuid -----
	case "time.Duration.Seconds":
		return false
	case "iface:context.Context.Done":
		return ret(App("ctx_done", SInt, asTerm(args[0])))
	case "iface:context.Context.Err":
		return ret(x.freshVal(st, "ctxerr", sig.Results().At(0).Type()))
	case "context.Background", "context.TODO":
		return ret(MkCtor("box_other", Int(2), Int(1)))
	case "sort.Strings":
		x.havocSliceSorted(st, args[0], sig)
		return ret()
	case "os.Exit", "log.Fatal", "log.Fatalf":
		return true
	}
	switch {
	case strings.HasPrefix(name, "(*go.uber.org/zap.Logger).") || strings.HasPrefix(name, "go.uber.org/zap."):
		if strings.HasSuffix(name, ".Fatal") || strings.HasSuffix(name, ".Panic") || strings.HasSuffix(name, ".DPanic") {
			x.doPanic(fr, st, pos, "logger "+name)
			return true
		}
		x.modelled["go.uber.org/zap: logging has no effect on the state of this module"] = true
		var res []Val
		for _, t := range resTypes(sig) {
			v := x.freshVal(st, "zap", t)
			if tt, ok := v.(*Term); ok && tt.Sort == SInt {
				if _, isP := t.Underlying().(*types.Pointer); isP {
					st.assume(Not(Eq(tt, Int(0))))
				}
			}
			res = append(res, v)
		}
		k(fr, st, res)
		return true
	}
	return false
}

// libGhost updates a ghost variable that the contracts may declare to observe library calls.
func (x *Exec) libGhost(st *State, n string, f func(old *Term) *Term) {
	ty, ok := x.g.db.Ghosts[n]
	if !ok {
		return
	}
	srt := x.g.resolveType(ty, x.g.db.GhostPk[n]).sort
	v := f(st.ghostVal(n, srt))
	if v.Sort != srt {
		unsupported("ghost %s has the wrong type", n)
	}
	st.ghost[n] = v
}

// literalText: the format has text besides its verbs
// sprintf gives the text exactly when the format is known and every verb is %s, %d or %v of a basic value.
func (x *Exec) sprintf(st *State, name string, args []Val) *Term {
	if name != "fmt.Sprintf" || len(args) != 2 {
		return nil
	}
	f, ok := args[0].(*Term)
	if !ok {
		return nil
	}
	lit, ok := litOf(f)
	if !ok {
		return nil
	}
	sl := asTerm(args[1])
	any := types.NewInterfaceType(nil, nil)
	res, n := StrLit(""), int64(0)
	for i := 0; i < len(lit); {
		if lit[i] != '%' {
			j := i
			for j < len(lit) && lit[j] != '%' {
				j++
			}
			res = strCat(res, StrLit(lit[i:j]))
			i = j
			continue
		}
		if i+1 >= len(lit) {
			return nil
		}
		verb := lit[i+1]
		i += 2
		if verb == '%' {
			res = strCat(res, StrLit("%"))
			continue
		}
		if verb != 's' && verb != 'd' && verb != 'v' {
			return nil
		}
		if sl.Op != "ctor:mkslice" {
			return nil
		}
		v := Select(Select(st.arr(elemHeap(any)), Sel("mkslice", 0, sl)), Add(Sel("mkslice", 1, sl), Int(n)))
		n++
		if !strings.HasPrefix(v.Op, "ctor:box_") {
			return nil
		}
		t, ok := boxTypes[v.Op[5:]].(*types.Basic)
		if !ok {
			return nil
		}
		switch {
		case t.Kind() == types.String && verb != 'd':
			res = strCat(res, v.Args[0])
		case t.Info()&types.IsInteger != 0 && verb != 's':
			res = strCat(res, App("sdec", SStr, v.Args[0]))
		default:
			return nil
		}
	}
	return res
}

func literalText(f string) bool {
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			return true
		}
		for i++; i < len(f) && strings.ContainsRune("+-# 0123456789.[]*", rune(f[i])); i++ {
		}
	}
	return false
}

func deepEqual(a, b *Term) *Term {
	// exact for values without pointers and floats; otherwise uninterpreted but implied by equality
	return App("deep_equal", SBool, a, b)
}

func (x *Exec) havocErr(st *State) {}

// havocPointee gives the object behind a boxed pointer arbitrary content.
func (x *Exec) havocPointee(st *State, a *Term) {
	if !strings.HasPrefix(a.Op, "ctor:box_") {
		unsupported("decoding into an unknown pointer")
	}
	t, ok := boxTypes[a.Op[5:]]
	if !ok {
		unsupported("decoding into an unknown type")
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		unsupported("decoding into %s", t)
	}
	refCtr += 1000
	v := x.freshVal(st, "decoded", pt.Elem()).(*Term)
	if s, ok := isStruct(pt.Elem()); ok && s.NumFields() > 0 && !isOpaqueStruct(pt.Elem()) {
		c := structCtor(pt.Elem())
		var args []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := Fresh("dec_"+s.Field(i).Name(), sortOf(s.Field(i).Type()))
			st.wf(f, s.Field(i).Type(), -refCtr)
			args = append(args, f)
		}
		v = MkCtor(c, args...)
	}
	st.store(a.Args[0], pt.Elem(), v)
}

// havocSliceSorted: in-place sort of a string slice: a permutation in ascending order.
func (x *Exec) havocSliceSorted(st *State, s Val, sig *types.Signature) {
	t := asTerm(s)
	et := types.Typ[types.String]
	h := elemHeap(et)
	arr, off, ln := Sel("mkslice", 0, t), Sel("mkslice", 1, t), Sel("mkslice", 2, t)
	old := Select(st.arr(h), arr)
	na := Fresh("sorted", old.Sort)
	perm := func(i *Term) *Term { return App("sortperm", SInt, na, i) }
	inv := func(i *Term) *Term { return App("sortinv", SInt, na, i) }
	i := BVar("i", SInt)
	in := And(Le(off, i), Lt(i, Add(off, ln)))
	st.assume(Forall([]*Term{i}, Implies(in, And(Le(off, perm(i)), Lt(perm(i), Add(off, ln)), Eq(Select(na, i), Select(old, perm(i))), Eq(inv(perm(i)), i))), Select(na, i)))
	st.assume(Forall([]*Term{i}, Implies(in, And(Le(off, inv(i)), Lt(inv(i), Add(off, ln)), Eq(perm(inv(i)), i))), Select(old, i)))
	j := BVar("j", SInt)
	st.assume(Forall([]*Term{i, j}, Implies(And(Le(off, i), Lt(i, j), Lt(j, Add(off, ln))), leTerm(Select(na, i), Select(na, j))), mk("multi", "", SBool, Select(na, i), Select(na, j))))
	st.assume(Forall([]*Term{i}, Implies(Not(in), Eq(Select(na, i), Select(old, i))), Select(na, i)))
	st.heap[h] = Store(st.arr(h), arr, na)
}

// jsonDoc is the content of a byte slice (elements, offset, length): what the spec functions json_<Field> range over.
func jsonDoc(st *State, b *Term) []*Term {
	h := elemHeap(types.Typ[types.Uint8])
	return []*Term{Select(st.arr(h), Sel("mkslice", 0, b)), Sel("mkslice", 1, b), Sel("mkslice", 2, b)}
}

func jsonName(s *types.Struct, i int) string {
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	if n := strings.Split(tag, ",")[0]; n != "" {
		return n
	}
	return s.Field(i).Name()
}

// jsonExact holds when a value comes back from JSON unchanged: text has to be valid UTF-8.
func jsonExact(srt string, v *Term) *Term {
	switch srt {
	case SInt, SBool:
		return True
	case SStr:
		return App("spec_utf8", SBool, v)
	case SAny:
		c := boxCtor(types.Typ[types.String])
		return Or(Eq(v, MkCtor("anil")), And(Is(c, v), App("spec_utf8", SBool, Sel(c, 0, v))))
	}
	return False
}

// jsonFields: on success the document holds each basic field of the marshalled struct.
func (x *Exec) jsonFields(st *State, a, r *Term, ok *Term) {
	if !strings.HasPrefix(a.Op, "ctor:box_") {
		return
	}
	t := boxTypes[a.Op[5:]]
	s, isS := isStruct(t)
	if !isS || isOpaqueStruct(t) || a.Args[0].Sort == SInt {
		return
	}
	doc := jsonDoc(st, r)
	for i := 0; i < s.NumFields(); i++ {
		srt := sortOf(s.Field(i).Type())
		if srt != SInt && srt != SBool && srt != SStr && srt != SAny {
			continue
		}
		if srt == SInt {
			if b, isB := s.Field(i).Type().Underlying().(*types.Basic); !isB || b.Info()&types.IsInteger == 0 {
				continue
			}
		}
		v := Sel(structCtor(t), i, a.Args[0])
		st.assume(Implies(And(ok, jsonExact(srt, v)), Eq(App("spec_json_"+jsonName(s, i), srt, doc...), v)))
	}
}

// jsonDecoded: on success the basic fields of the target (or of every entry of the target map) are those of the document.
func (x *Exec) jsonDecoded(st *State, a *Term, doc []*Term, ok *Term) {
	t := boxTypes[a.Op[5:]].Underlying().(*types.Pointer).Elem()
	basic := func(ft types.Type) bool {
		srt := sortOf(ft)
		if srt == SInt {
			b, isB := ft.Underlying().(*types.Basic)
			return isB && b.Info()&types.IsInteger != 0
		}
		return srt == SBool || srt == SStr || srt == SAny
	}
	if s, isS := isStruct(t); isS && !isOpaqueStruct(t) {
		v := asTerm(st.load(a.Args[0], t))
		for i := 0; i < s.NumFields(); i++ {
			if basic(s.Field(i).Type()) {
				st.assume(Implies(ok, Eq(Sel(structCtor(t), i, v), App("spec_json_"+jsonName(s, i), sortOf(s.Field(i).Type()), doc...))))
				if sortOf(s.Field(i).Type()) == SAny {
					st.assume(jsonAny(App("spec_json_"+jsonName(s, i), SAny, doc...)))
				}
			}
		}
		return
	}
	if m, isM := t.Underlying().(*types.Map); isM {
		es, isS := isStruct(m.Elem())
		if !isS || isOpaqueStruct(m.Elem()) {
			return
		}
		ref := asTerm(st.load(a.Args[0], t))
		ks := sortOf(m.Key())
		kv := BVar("k", ks)
		dom := Select(st.arr(mapDom(m)), ref)
		inDoc := App("spec_json_has", SBool, append(append([]*Term{}, doc...), kv)...)
		st.assume(Implies(ok, Forall([]*Term{kv}, Eq(And(Not(Eq(ref, Int(0))), Select(dom, kv)), inDoc), Select(dom, kv), inDoc)))
		val := Select(Select(st.arr(mapVal(m)), ref), kv)
		for i := 0; i < es.NumFields(); i++ {
			if basic(es.Field(i).Type()) {
				f := App("spec_json_at_"+jsonName(es, i), sortOf(es.Field(i).Type()), append(append([]*Term{}, doc...), kv)...)
				st.assume(Implies(And(ok), Forall([]*Term{kv}, Implies(Select(dom, kv), Eq(Sel(structCtor(m.Elem()), i, val), f)), val, f)))
				if sortOf(es.Field(i).Type()) == SAny {
					st.assume(Forall([]*Term{kv}, jsonAny(f), f))
				}
			}
		}
	}
}

// widening is exact, so narrowing a widened value gives it back
func fpTo(srt string, v *Term) *Term {
	if srt == SF32 && v.Op == "(_ to_fp 11 53)" && v.Args[1].Sort == SF32 {
		return v.Args[1]
	}
	op := "(_ to_fp 8 24)"
	if srt == SF64 {
		op = "(_ to_fp 11 53)"
	}
	return mk(op, "", srt, mk("const_rm", "RNE", "RoundingMode"), v)
}

// jsonAny: the dynamic types encoding/json gives to a value decoded into an interface
func jsonAny(a *Term) *Term {
	return Or(Eq(a, MkCtor("anil")), Is(boxCtor(types.Typ[types.String]), a), Is(boxCtor(types.Typ[types.Bool]), a), Is(boxCtor(types.Typ[types.Float64]), a),
		And(Is("box_other", a), Or(Eq(App("rkind_other", SInt, a), Int(21)), Eq(App("rkind_other", SInt, a), Int(23)))))
}
