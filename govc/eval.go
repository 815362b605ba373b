package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type STy struct {
	sort string
	gt   types.Type // nil for pure spec sorts
	elem *STy       // set element / map value
	key  *STy
	raw  bool // the contents of a slice or map in the heap
}

type SV struct {
	t  *Term
	ty *STy
	v  Val // addresses, closures
}

type Env struct {
	x    *Exec
	st   *State
	old  *State
	vars map[string]SV
	pkg  string // spec package path
	wm   int64 // references below this are fresh
	cur  *Frame // for local variables in invariants
	deep int
}

func (e *Env) with(vars map[string]SV) *Env {
	n := *e
	n.vars = map[string]SV{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

type bvKey struct {
	x *Ex
	i int
	s string
}

var bvCache = map[bvKey]*Term{}

func specErr(f string, a ...any) { panic(SpecError{fmt.Sprintf(f, a...)}) }

type SpecError struct{ msg string }

func (g *Engine) typesPkg(path string) *types.Package {
	if p, ok := g.tpkgs[path]; ok {
		return p
	}
	return nil
}

func goTy(t types.Type) *STy { return &STy{sort: sortOf(t), gt: t} }

// resolveType parses a type expression in the scope of a spec package.
func (g *Engine) resolveType(s string, pkg string) *STy {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "set[") {
		el := g.resolveType(s[4:len(s)-1], pkg)
		return &STy{sort: ArrSort(el.sort, SBool), elem: &STy{sort: SBool, gt: types.Typ[types.Bool]}, key: el}
	}
	if strings.HasPrefix(s, "smap[") {
		d := 0
		i := 4
		for ; i < len(s); i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		k := g.resolveType(s[5:i], pkg)
		v := g.resolveType(s[i+1:], pkg)
		return &STy{sort: ArrSort(k.sort, v.sort), elem: v, key: k}
	}
	if g.db.Types[s] {
		return &STy{sort: "U_" + s}
	}
	if s == "real" {
		return &STy{sort: "Real"}
	}
	t := g.goType(s, pkg)
	return goTy(t)
}

// typedElems: references among the elements of the heap are known to exist already.
// curTypeParams are the type parameters of the function being verified: its
// body is verified once, for any type they stand for, with "==" as identity.
var typedElems bool // option elements typed

var curTypeParams map[string]types.Type

func (g *Engine) goType(s string, pkg string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(g.goType(s[1:], pkg))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(g.goType(s[2:], pkg))
	case strings.HasPrefix(s, "map["):
		d := 0
		i := 3
		for ; i < len(s); i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		return types.NewMap(g.goType(s[4:i], pkg), g.goType(s[i+1:], pkg))
	case s == "any" || s == "interface{}":
		return types.NewInterfaceType(nil, nil)
	case s == "ref":
		return types.Typ[types.UnsafePointer]
	case s == "error":
		return types.Universe.Lookup("error").Type()
	}
	if t := curTypeParams[s]; t != nil {
		return t
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	if p := strings.Index(s, "."); p > 0 {
		path := g.importPath(s[:p], pkg)
		if tp := g.typesPkg(path); tp != nil {
			if o := tp.Scope().Lookup(s[p+1:]); o != nil {
				return o.Type()
			}
		}
		specErr("unknown type %s (in %s)", s, pkg)
	}
	if tp := g.typesPkg(pkg); tp != nil {
		if o := tp.Scope().Lookup(s); o != nil {
			return o.Type()
		}
	}
	specErr("unknown type %q in %s", s, pkg)
	return nil
}

func (g *Engine) importPath(alias, pkg string) string {
	if m := g.db.Imports[pkg]; m != nil {
		if p, ok := m[alias]; ok {
			return p
		}
	}
	if tp := g.typesPkg(pkg); tp != nil {
		for _, im := range tp.Imports() {
			if im.Name() == alias {
				return im.Path()
			}
		}
	}
	return alias
}

func bsv(t *Term) SV { return SV{t: t, ty: &STy{sort: SBool, gt: types.Typ[types.Bool]}} }
func isv(t *Term) SV { return SV{t: t, ty: &STy{sort: SInt, gt: types.Typ[types.Int]}} }

func (e *Env) evalBool(x *Ex) *Term {
	v := e.eval(x)
	if v.t == nil || v.t.Sort != SBool {
		specErr("expected boolean: %s", x.str())
	}
	return v.t
}

func (x *Ex) str() string {
	if x == nil {
		return "<nil>"
	}
	var as []string
	for _, a := range x.A {
		as = append(as, a.str())
	}
	return x.Op + ":" + x.S + "(" + strings.Join(as, ", ") + ")"
}

func isFloat(s string) bool { return s == SF32 || s == SF64 }

func lessTerm(a, b *Term) *Term {
	switch {
	case a.Sort == SInt || a.Sort == "Real":
		return Lt(a, b)
	case a.Sort == SStr:
		if a == b {
			return False
		}
		return mk("<", "", SBool, App("srank", "Real", a), App("srank", "Real", b))
	case isFloat(a.Sort):
		return mk("fp.lt", "", SBool, a, b)
	}
	specErr("< on sort %s", a.Sort)
	return nil
}
func leTerm(a, b *Term) *Term {
	switch {
	case a.Sort == SInt || a.Sort == "Real":
		return Le(a, b)
	case a.Sort == SStr:
		return mk("<=", "", SBool, App("srank", "Real", a), App("srank", "Real", b))
	case isFloat(a.Sort):
		return mk("fp.leq", "", SBool, a, b)
	}
	specErr("<= on sort %s", a.Sort)
	return nil
}

func (e *Env) eval(x *Ex) SV {
	g := e.x.g
	switch x.Op {
	case "int":
		return isv(litS(x.S))
	case "str":
		return SV{t: StrLit(x.S), ty: goTy(types.Typ[types.String])}
	case "id":
		return e.ident(x.S)
	case "cond":
		c := e.evalBool(x.A[0])
		a, b := e.eval(x.A[1]), e.eval(x.A[2])
		a, b = unify(a, b)
		return SV{t: Ite(c, a.t, b.t), ty: a.ty}
	case "un":
		switch x.S {
		case "!":
			return bsv(Not(e.evalBool(x.A[0])))
		case "-":
			return isv(Sub(Int(0), e.eval(x.A[0]).t))
		case "*":
			p := e.eval(x.A[0])
			pt, ok := p.ty.gt.Underlying().(*types.Pointer)
			if !ok {
				specErr("deref of non-pointer %s", x.str())
			}
			return SV{t: e.st.load(p.val(), pt.Elem()), ty: goTy(pt.Elem())}
		case "&":
			s := x.A[0]
			if s.Op == "index" {
				b := e.eval(s.A[0])
				i := e.eval(s.A[1]).t
				if sl, ok := b.ty.gt.Underlying().(*types.Slice); ok {
					a := &Addr{heap: elemHeap(sl.Elem()), ref: Sel("mkslice", 0, b.t), path: []PathEl{{idx: Add(Sel("mkslice", 1, b.t), i)}}, typ: sl.Elem()}
					return SV{t: asTerm(a), v: a, ty: goTy(types.NewPointer(sl.Elem()))}
				}
			}
			if s.Op != "sel" {
				specErr("& of %s", s.str())
			}
			b := e.eval(s.A[0])
			pt, ok := b.ty.gt.Underlying().(*types.Pointer)
			if !ok {
				specErr("& of field of non-pointer")
			}
			i := fieldIndex(pt.Elem(), s.S)
			a := fieldAddr(b.val(), pt.Elem(), i)
			ft := pt.Elem().Underlying().(*types.Struct).Field(i).Type()
			return SV{t: asTerm(a), v: a, ty: goTy(types.NewPointer(ft))}
		}
	case "bin":
		return e.binop(x)
	case "sel":
		// package-qualified?
		if x.A[0].Op == "id" {
			if _, ok := e.vars[x.A[0].S]; !ok {
				path := g.importPath(x.A[0].S, e.pkg)
				if tp := g.typesPkg(path); tp != nil && path != x.A[0].S || tp != nil {
					if o := tp.Scope().Lookup(x.S); o != nil {
						return e.object(o)
					}
					specErr("no %s in %s", x.S, path)
				}
			}
		}
		b := e.eval(x.A[0])
		return e.field(b, x.S)
	case "index":
		b := e.eval(x.A[0])
		i := e.eval(x.A[1])
		return e.index(b, i)
	case "forall", "exists":
		vars := map[string]SV{}
		var bv []*Term
		for _, b := range x.Bind {
			f := strings.SplitN(b, " ", 2)
			ty := g.resolveType(f[1], e.pkg)
			// one bound variable per occurrence in the contract text: the same clause evaluated twice in
			// the same state gives the same term (defines are not recursive, so there is no capture)
			bk := bvKey{x, len(bv), ty.sort}
			v := bvCache[bk]
			if v == nil {
				v = BVar(f[0], ty.sort)
				bvCache[bk] = v
			}
			bv = append(bv, v)
			vars[f[0]] = SV{t: v, ty: ty}
		}
		ne := e.with(vars)
		body := ne.evalBool(x.A[0])
		var pats []*Term
		for _, p := range x.Pats {
			var ts []*Term
			for _, q := range p.A {
				ts = append(ts, ne.eval(q).t)
			}
			if len(ts) == 1 {
				pats = append(pats, ts[0])
			} else {
				pats = append(pats, mk("multi", "", SBool, ts...))
			}
		}
		if x.Op == "forall" {
			return bsv(Forall(bv, body, pats...))
		}
		return bsv(Exists(bv, body))
	case "call":
		return e.call(x)
	case "mcall":
		// pkg.func(args) or spec function named through a selector
		return e.call(&Ex{Op: "call", S: x.S, A: x.A})
	}
	specErr("cannot evaluate %s", x.str())
	return SV{}
}

func (v SV) val() Val {
	if v.v != nil {
		return v.v
	}
	return v.t
}

func unify(a, b SV) (SV, SV) {
	if a.t.Sort == b.t.Sort {
		return a, b
	}
	// nil conversions and interface boxing
	if a.isNil() {
		a2, b2 := unify(b, a)
		return b2, a2
	}
	if b.isNil() {
		switch a.t.Sort {
		case SAny:
			return a, SV{t: MkCtor("anil"), ty: a.ty}
		case SSli:
			return a, SV{t: zeroSort(SSli, nil), ty: a.ty}
		case SInt:
			return a, SV{t: Int(0), ty: a.ty}
		}
	}
	if a.t.Sort == SAny && b.ty.gt != nil {
		return a, SV{t: MkCtor(boxCtor(defaultT(b.ty.gt)), b.t), ty: a.ty}
	}
	if b.t.Sort == SAny && a.ty.gt != nil {
		return SV{t: MkCtor(boxCtor(defaultT(a.ty.gt)), a.t), ty: b.ty}, b
	}
	if a.t.Sort == "Real" && b.t.Sort == SInt {
		return a, SV{t: mk("to_real", "", "Real", b.t), ty: a.ty}
	}
	specErr("cannot unify sorts %s and %s (%s , %s)", a.t.Sort, b.t.Sort, a.t, b.t)
	return a, b
}

func defaultT(t types.Type) types.Type { return types.Default(t) }

var nilTy = &STy{sort: SInt, gt: types.Typ[types.UntypedNil]}

func (v SV) isNil() bool { return v.ty == nilTy }

func (e *Env) binop(x *Ex) SV {
	switch x.S {
	case "&&":
		return bsv(And(e.evalBool(x.A[0]), e.evalBool(x.A[1])))
	case "||":
		return bsv(Or(e.evalBool(x.A[0]), e.evalBool(x.A[1])))
	case "==>":
		return bsv(Implies(e.evalBool(x.A[0]), e.evalBool(x.A[1])))
	case "<==>":
		return bsv(Eq(e.evalBool(x.A[0]), e.evalBool(x.A[1])))
	case "in":
		k := e.eval(x.A[0])
		s := e.eval(x.A[1])
		return bsv(e.member(k, s))
	}
	a, b := e.eval(x.A[0]), e.eval(x.A[1])
	a, b = unify(a, b)
	switch x.S {
	case "==":
		// slice compared to nil
		return bsv(e.eqTerm(a, b))
	case "!=":
		return bsv(Not(e.eqTerm(a, b)))
	case "<":
		return bsv(lessTerm(a.t, b.t))
	case ">":
		return bsv(lessTerm(b.t, a.t))
	case "<=":
		return bsv(leTerm(a.t, b.t))
	case ">=":
		return bsv(leTerm(b.t, a.t))
	case "+":
		if a.t.Sort == SStr {
			return SV{t: strCat(a.t, b.t), ty: a.ty}
		}
		return SV{t: Add(a.t, b.t), ty: a.ty}
	case "-":
		return SV{t: Sub(a.t, b.t), ty: a.ty}
	case "*":
		return SV{t: Mul(a.t, b.t), ty: a.ty}
	case "/":
		return SV{t: mk("div", "", SInt, a.t, b.t), ty: a.ty}
	case "%":
		return SV{t: mk("mod", "", SInt, a.t, b.t), ty: a.ty}
	}
	specErr("operator %s", x.S)
	return SV{}
}

func (e *Env) eqTerm(a, b SV) *Term {
	if a.t.Sort == SSli && b.t == zeroSort(SSli, nil) {
		return Eq(Sel("mkslice", 0, a.t), Int(0))
	}
	return Eq(a.t, b.t)
}

// strCat: concatenation in a normal form (flat to the right, literals joined).
func strCat(a, b *Term) *Term {
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.Op == "app" && t.Name == "sconcat" {
			flat(t.Args[0])
			flat(t.Args[1])
			return
		}
		if l, ok := litOf(t); ok {
			if l == "" {
				return
			}
			if n := len(parts); n > 0 {
				if p, ok := litOf(parts[n-1]); ok {
					parts[n-1] = StrLit(p + l)
					return
				}
			}
		}
		parts = append(parts, t)
	}
	flat(a)
	flat(b)
	if len(parts) == 0 {
		return StrLit("")
	}
	r := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		r = App("sconcat", SStr, parts[i], r)
	}
	return r
}

func (e *Env) member(k, s SV) *Term {
	if s.ty.gt != nil {
		if m, ok := s.ty.gt.Underlying().(*types.Map); ok {
			k = coerce(k, sortOf(m.Key()))
			return Select(Select(e.st.arr(mapDom(m)), s.t), k.t)
		}
	}
	ks, _ := splitArr(s.t.Sort)
	k = coerce(k, ks)
	return Select(s.t, k.t)
}

func coerce(v SV, srt string) SV {
	if v.t.Sort == srt {
		return v
	}
	if v.isNil() {
		switch srt {
		case SAny:
			return SV{t: MkCtor("anil"), ty: v.ty}
		case SSli:
			return SV{t: zeroSort(SSli, nil), ty: v.ty}
		}
	}
	if srt == SAny && v.ty.gt != nil {
		return SV{t: MkCtor(boxCtor(defaultT(v.ty.gt)), v.t), ty: v.ty}
	}
	specErr("cannot use %s as %s", v.t, srt)
	return v
}

func fieldIndex(t types.Type, name string) int {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		specErr("not a struct: %s", t)
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	specErr("no field %s in %s", name, t)
	return -1
}

func (e *Env) field(b SV, name string) SV {
	t := b.ty.gt
	if t == nil {
		specErr("field %s of spec value", name)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		i := fieldIndex(p.Elem(), name)
		ft := p.Elem().Underlying().(*types.Struct).Field(i).Type()
		a := fieldAddr(b.val(), p.Elem(), i)
		if st, ok := isStruct(ft); ok && st.NumFields() > 0 && isOpaqueStruct(ft) {
			return SV{t: asTerm(a), v: a, ty: goTy(types.NewPointer(ft))}
		}
		return SV{t: e.st.loadAddr(a.(*Addr)), ty: goTy(ft)}
	}
	i := fieldIndex(t, name)
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	return SV{t: Sel(structCtor(t), i, b.t), ty: goTy(ft)}
}

func (e *Env) index(b, i SV) SV {
	if b.ty.gt == nil {
		ks, _ := splitArr(b.t.Sort)
		i = coerce(i, ks)
		if b.ty.raw && typedElems { // elements of the heap: references among them exist already
			return SV{t: e.st.selectWF("", b.t, i.t, b.ty.elem.gt), ty: b.ty.elem}
		}
		return SV{t: Select(b.t, i.t), ty: b.ty.elem}
	}
	switch u := b.ty.gt.Underlying().(type) {
	case *types.Slice:
		arr := Select(e.st.arr(elemHeap(u.Elem())), Sel("mkslice", 0, b.t))
		v := e.st.selectWF("", arr, Add(Sel("mkslice", 1, b.t), i.t), u.Elem())
		return SV{t: v, ty: goTy(u.Elem())}
	case *types.Map:
		i = coerce(i, sortOf(u.Key()))
		v := e.st.selectWF("", Select(e.st.arr(mapVal(u)), b.t), i.t, u.Elem())
		return SV{t: v, ty: goTy(u.Elem())}
	case *types.Array:
		return SV{t: Select(b.t, i.t), ty: goTy(u.Elem())}
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			arr := e.st.load(b.val(), u.Elem())
			return SV{t: Select(arr, i.t), ty: goTy(a.Elem())}
		}
	case *types.Basic:
		if b.t.Sort == SStr {
			return isv(App("sat", SInt, b.t, i.t))
		}
	}
	specErr("index of %s", b.ty.gt)
	return SV{}
}

func (e *Env) object(o types.Object) SV {
	switch c := o.(type) {
	case *types.Const:
		return SV{t: constTerm(c.Val(), c.Type()), ty: goTy(c.Type())}
	case *types.Var:
		if sp := e.x.g.prog.Package(c.Pkg()); sp != nil {
			if gl, ok := sp.Members[c.Name()].(*ssa.Global); ok {
				return SV{t: e.x.globalLoad(e.st, gl), ty: goTy(c.Type())}
			}
		}
		t := c.Type()
		return SV{t: Const("G."+c.Pkg().Path()+"."+c.Name(), sortOf(t)), ty: goTy(t)}
	}
	specErr("object %s", o)
	return SV{}
}

func constTerm(v constant.Value, t types.Type) *Term {
	if v == nil { // nil or zero value
		return zeroOf(t)
	}
	switch v.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(v))
	case constant.String:
		return StrLit(constant.StringVal(v))
	case constant.Int:
		if isFloat(sortOf(t)) {
			return floatLit(v, sortOf(t))
		}
		return litS(v.ExactString())
	case constant.Float:
		if sortOf(t) == SInt {
			if i := constant.ToInt(v); i.Kind() == constant.Int {
				return litS(i.ExactString())
			}
		}
		return floatLit(v, sortOf(t))
	}
	unsupported("constant %s", v)
	return nil
}

func floatLit(v constant.Value, srt string) *Term {
	f, _ := constant.Float64Val(v)
	s := fmt.Sprintf("%.20f", f)
	if strings.HasPrefix(s, "-") {
		s = "(- " + s[1:] + ")"
	}
	if srt == SF32 {
		return mk("fplit", "((_ to_fp 8 24) RNE "+s+")", SF32)
	}
	return mk("fplit", "((_ to_fp 11 53) RNE "+s+")", SF64)
}

func (e *Env) ident(n string) SV {
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return bsv(True)
	case "false":
		return bsv(False)
	case "nil":
		return SV{t: Int(0), ty: nilTy}
	}
	g := e.x.g
	if ty, ok := g.db.Ghosts[n]; ok {
		sty := g.resolveType(ty, g.db.GhostPk[n])
		return SV{t: e.st.ghostVal(n, sty.sort), ty: sty}
	}
	if d, ok := g.db.Defines[n]; ok && len(d.Params) == 0 {
		return e.call(&Ex{Op: "call", S: n})
	}
	if d, ok := g.db.Decls[n]; ok && len(d.Params) == 0 {
		return e.call(&Ex{Op: "call", S: n})
	}
	if tp := g.typesPkg(e.pkg); tp != nil {
		if o := tp.Scope().Lookup(n); o != nil {
			return e.object(o)
		}
	}
	specErr("unknown identifier %q", n)
	return SV{}
}

func (s *State) ghostVal(n, srt string) *Term {
	if t, ok := s.ghost[n]; ok {
		return t
	}
	t := Const("G0."+n, srt)
	s.ghost[n] = t
	return t
}

func (e *Env) call(x *Ex) SV {
	g := e.x.g
	n := x.S
	arg := func(i int) SV { return e.eval(x.A[i]) }
	switch n {
	case "old":
		ne := *e
		if e.old == nil {
			specErr("old() not available")
		}
		ne.st = e.old
		return ne.eval(x.A[0])
	case "len":
		v := arg(0)
		if v.ty.gt != nil {
			switch u := v.ty.gt.Underlying().(type) {
			case *types.Slice:
				return isv(Sel("mkslice", 2, v.t))
			case *types.Map:
				return isv(Ite(Eq(v.t, Int(0)), Int(0), Select(e.st.arr(mapLen(u)), v.t)))
			case *types.Basic:
				return isv(App("slen", SInt, v.t))
			case *types.Array:
				return isv(Int(u.Len()))
			}
		}
		specErr("len of %s", v.t)
	case "cap":
		if v := arg(0); v.ty.gt != nil {
			if _, ok := v.ty.gt.Underlying().(*types.Chan); ok {
				return isv(App("chancap", SInt, v.t))
			}
		}
		return isv(Sel("mkslice", 3, arg(0).t))
	case "arr":
		return SV{t: Sel("mkslice", 0, arg(0).t), ty: goTy(types.Typ[types.UnsafePointer])}
	case "off":
		return isv(Sel("mkslice", 1, arg(0).t))
	case "is":
		v := arg(0)
		gt := g.goType(x.Bind[0], e.pkg)
		return bsv(Is(boxCtor(gt), v.t))
	case "as":
		v := arg(0)
		gt := g.goType(x.Bind[0], e.pkg)
		return SV{t: Sel(boxCtor(gt), 0, v.t), ty: goTy(gt)}
	case "box":
		v := arg(0)
		gt := g.goType(x.Bind[0], e.pkg)
		v = coerce(v, sortOf(gt))
		return SV{t: MkCtor(boxCtor(gt), v.t), ty: goTy(types.NewInterfaceType(nil, nil))}
	case "zero":
		ty := g.resolveType(x.Bind[0], e.pkg)
		return SV{t: zeroSort(ty.sort, ty.gt), ty: ty}
	case "emptyset":
		ty := g.resolveType(x.Bind[0], e.pkg)
		st := &STy{sort: ArrSort(ty.sort, SBool), elem: &STy{sort: SBool, gt: types.Typ[types.Bool]}, key: ty}
		return SV{t: ConstArr(st.sort, False), ty: st}
	case "add", "remove":
		s := arg(0)
		ks, _ := splitArr(s.t.Sort)
		k := coerce(arg(1), ks)
		return SV{t: Store(s.t, k.t, Bool(n == "add")), ty: s.ty}
	case "upd":
		s := arg(0)
		ks, vs := splitArr(s.t.Sort)
		return SV{t: Store(s.t, coerce(arg(1), ks).t, coerce(arg(2), vs).t), ty: s.ty}
	case "dom":
		v := arg(0)
		m := v.ty.gt.Underlying().(*types.Map)
		kt := goTy(m.Key())
		return SV{t: Select(e.st.arr(mapDom(m)), v.t), ty: &STy{sort: ArrSort(kt.sort, SBool), key: kt, elem: &STy{sort: SBool, gt: types.Typ[types.Bool]}}}
	case "vals":
		v := arg(0)
		m := v.ty.gt.Underlying().(*types.Map)
		kt := goTy(m.Key())
		return SV{t: Select(e.st.arr(mapVal(m)), v.t), ty: &STy{sort: ArrSort(kt.sort, sortOf(m.Elem())), key: kt, elem: goTy(m.Elem()), raw: true}}
	case "elems": // raw element array of a slice: index is absolute (offset included)
		v := arg(0)
		sl := v.ty.gt.Underlying().(*types.Slice)
		return SV{t: Select(e.st.arr(elemHeap(sl.Elem())), Sel("mkslice", 0, v.t)), ty: &STy{sort: ArrSort(SInt, sortOf(sl.Elem())), key: goTy(types.Typ[types.Int]), elem: goTy(sl.Elem()), raw: true}}
	case "WL", "RL":
		v := arg(0)
		return isv(Select(e.st.arr(lockHeap(n == "WL")), v.t))
	case "WLocks", "RLocks":
		it := goTy(types.Typ[types.Int])
		return SV{t: e.st.arr(lockHeap(n == "WLocks")), ty: &STy{sort: ArrSort(SInt, SInt), key: it, elem: it}}
	case "locks_unchanged":
		return bsv(And(Eq(e.st.arr(lockHeap(true)), e.old.arr(lockHeap(true))), Eq(e.st.arr(lockHeap(false)), e.old.arr(lockHeap(false)))))
	case "unchanged":
		ne := *e
		ne.st = e.old
		return bsv(Eq(arg(0).t, ne.eval(x.A[0]).t))
	case "isfresh": // allocated during the call
		return bsv(Lt(arg(0).t, Int(e.wm)))
	case "isNaN":
		return bsv(mk("fp.isNaN", "", SBool, arg(0).t))
	case "tof64":
		return SV{t: fpTo(SF64, arg(0).t), ty: goTy(types.Typ[types.Float64])}
	case "tof32":
		return SV{t: fpTo(SF32, arg(0).t), ty: goTy(types.Typ[types.Float32])}
	case "feq":
		return bsv(mk("fp.eq", "", SBool, arg(0).t, arg(1).t))
	case "wrap":
		ty := g.goType(x.A[1].S, e.pkg)
		return isv(wrapInt(arg(0).t, ty))
	case "once": // has this sync.Once run
		return bsv(Select(e.st.arr(onceHeap()), arg(0).t))
	case "load": // value of an atomic (booleans: 0 or 1)
		return isv(Select(e.st.arr(atomicHeap()), arg(0).t))
	case "closed":
		return bsv(Select(e.st.arr(chanHeap()), arg(0).t))
	case "kindof":
		return isv(kindOf(arg(0).t))
	}
	if d, ok := g.db.Defines[n]; ok {
		if len(d.Params) != len(x.A) {
			specErr("%s: arity", n)
		}
		if e.deep > 60 {
			specErr("define recursion in %s", n)
		}
		vars := map[string]SV{}
		for i, p := range d.Params {
			f := strings.SplitN(p, " ", 2)
			ty := g.resolveType(f[1], d.Pkg)
			a := arg(i)
			a2 := coerce(a, ty.sort)
			vars[f[0]] = SV{t: a2.t, ty: ty, v: a.v}
		}
		if e.x != nil && e.x.spec != nil && e.x.opaque(n) {
			return e.opaqueDef(d, vars)
		}
		ne := &Env{x: e.x, st: e.st, old: e.old, vars: vars, pkg: d.Pkg, deep: e.deep + 1, wm: e.wm}
		r := ne.eval(d.Body)
		if d.Ret != "" {
			rt := g.resolveType(d.Ret, d.Pkg)
			r = SV{t: coerce(r, rt.sort).t, ty: rt, v: r.v}
		}
		return r
	}
	if d, ok := g.db.Decls[n]; ok {
		var as []*Term
		for i, p := range d.Params {
			f := strings.SplitN(p, " ", 2)
			ty := g.resolveType(f[1], d.Pkg)
			as = append(as, coerce(arg(i), ty.sort).t)
		}
		rt := g.resolveType(d.Ret, d.Pkg)
		if len(as) == 0 {
			return SV{t: Const("spec_"+n, rt.sort), ty: rt}
		}
		return SV{t: App("spec_"+n, rt.sort, as...), ty: rt}
	}
	// conversion to a named type
	if len(x.A) == 1 {
		func() {
			defer func() { recover() }()
		}()
		if t := g.tryGoType(n, e.pkg); t != nil {
			v := arg(0)
			if sortOf(t) == v.t.Sort {
				return SV{t: v.t, ty: goTy(t)}
			}
			v = coerce(v, sortOf(t))
			return SV{t: v.t, ty: goTy(t)}
		}
	}
	specErr("unknown spec function %q", n)
	return SV{}
}

func (g *Engine) tryGoType(s, pkg string) (t types.Type) {
	defer func() {
		if r := recover(); r != nil {
			t = nil
		}
	}()
	return g.goType(s, pkg)
}

// opaqueDef is a definition the function under verification need not look into ('option opaque f,g'):
// an uninterpreted function of its parameters, which says less than the definition. Only definitions that
// do not read the heap can be treated this way.
func (e *Env) opaqueDef(d *Define, vars map[string]SV) SV {
	g := e.x.g
	if !g.opaqueOK[d.Name] {
		fv := map[string]SV{}
		for k, v := range vars {
			fv[k] = SV{t: Const("opq!"+k, v.t.Sort), ty: v.ty}
		}
		r := (&Env{x: e.x, st: e.st, old: e.old, vars: fv, pkg: d.Pkg, deep: e.deep + 1, wm: e.wm}).eval(d.Body)
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if len(t.Args) == 0 && (strings.HasPrefix(t.Name, "H") || strings.HasPrefix(t.Name, "G")) && strings.Contains(t.Name, ".") {
				specErr("opaque definition %s reads the state (%s)", d.Name, t.Name)
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(r.t)
		g.opaqueOK[d.Name] = true
	}
	var as []*Term
	for _, p := range d.Params {
		as = append(as, vars[strings.SplitN(p, " ", 2)[0]].t)
	}
	rt := g.resolveType(d.Ret, d.Pkg)
	return SV{t: App("opq_"+d.Name, rt.sort, as...), ty: rt}
}

func (x *Exec) opaque(n string) bool {
	if x.opq == nil {
		x.opq = map[string]bool{}
		for _, f := range strings.Split(x.spec.Opts["opaque"], ",") {
			x.opq[strings.TrimSpace(f)] = true
		}
	}
	return x.opq[n]
}

func chanHeap() string { return regHeap("CH:closed", ArrSort(SInt, SBool), nil) }

// reflect.Kind of a dynamic value
var kindNums = map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
	types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14,
	types.Complex64: 15, types.Complex128: 16, types.String: 24}

func kindOfType(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return kindNums[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// kindOf is reflect.TypeOf(a).Kind() as a function of the boxed value; dynamic types that occur nowhere in
// the analysed code are covered by box_other, whose kind is uninterpreted.
func kindOf(a *Term) *Term {
	if strings.HasPrefix(a.Op, "ctor:") {
		c := a.Op[5:]
		if t, ok := boxTypes[c]; ok {
			return Int(kindOfType(t))
		}
	}
	// make sure the basic types exist
	for k := range kindNums {
		if k == types.Complex64 || k == types.Complex128 {
			continue
		}
		boxCtor(types.Typ[k])
	}
	r := Ite(Eq(a, MkCtor("anil")), Int(0), App("rkind_other", SInt, a))
	for _, c := range dtypes[SAny].Ctors {
		if t, ok := boxTypes[c.Name]; ok {
			r = Ite(Is(c.Name, a), Int(kindOfType(t)), r)
		}
	}
	return r
}
