package main

import (
	"fmt"
	"go/types"
	"strings"
)

const modulePath = "github.com/DanLavine/willow"

func inModule(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modulePath)
}

func shortPkg(path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, modulePath), "/")
}

func typeKey(t types.Type) string {
	t = canon(t)
	return sanitize(types.TypeString(t, func(p *types.Package) string {
		s := shortPkg(p.Path())
		return strings.ReplaceAll(s, "/", ".")
	}))
}

// canon removes what does not distinguish types: aliases and parameter names.
func canon(t types.Type) types.Type {
	t = types.Unalias(t)
	tup := func(p *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < p.Len(); i++ {
			vs = append(vs, types.NewParam(0, nil, "", canon(p.At(i).Type())))
		}
		return types.NewTuple(vs...)
	}
	switch u := t.(type) {
	case *types.Basic: // byte is uint8, rune is int32
		if int(u.Kind()) < len(types.Typ) && types.Typ[u.Kind()] != nil {
			return types.Typ[u.Kind()]
		}
	case *types.Signature:
		if u.TypeParams().Len() == 0 {
			return types.NewSignatureType(nil, nil, nil, tup(u.Params()), tup(u.Results()), u.Variadic())
		}
	case *types.Pointer:
		return types.NewPointer(canon(u.Elem()))
	case *types.Slice:
		return types.NewSlice(canon(u.Elem()))
	case *types.Chan:
		return types.NewChan(u.Dir(), canon(u.Elem()))
	case *types.Map:
		return types.NewMap(canon(u.Key()), canon(u.Elem()))
	case *types.Array:
		return types.NewArray(canon(u.Elem()), u.Len())
	}
	return t
}

func init() {
	addCtor(SSli, &Ctor{Name: "mkslice", Fields: []string{SInt, SInt, SInt, SInt}, FNames: []string{"arr", "off", "len", "cap"}})
	addCtor(SUnit, &Ctor{Name: "unit"})
	addCtor(SAny, &Ctor{Name: "anil"})
	addCtor(SAny, &Ctor{Name: "box_other", Fields: []string{SInt, SInt}})
}

var structSorts = map[string]string{}
var structTypes = map[string]*types.Struct{}

func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if transparent[typeKey(n)] {
		return false
	}
	return n.Obj().Pkg() != nil && !inModule(n.Obj().Pkg())
}

// external structs that are plain data
var transparent = map[string]bool{"crypto.x509.VerifyOptions": true, "net.http.Client": true, "golang.org.x.net.http2.Transport": true, "crypto.tls.Config": true}


func sortOf(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.Float32:
			return SF32
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			return SF64
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return SInt
		}
		unsupported("basic type %s", t)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSli
	case *types.Array:
		return ArrSort(SInt, sortOf(u.Elem()))
	case *types.Interface:
		if tp, ok := t.(*types.TypeParam); ok {
			return "U_" + sanitize(tp.Obj().Name())
		}
		return SAny
	case *types.Struct:
		if u.NumFields() == 0 {
			return SUnit
		}
		if isOpaqueStruct(t) {
			return "U_" + typeKey(t)
		}
		k := typeKey(t)
		if s, ok := structSorts[k]; ok {
			return s
		}
		s := "S_" + k
		structSorts[k] = s
		structTypes[s] = u
		c := &Ctor{Name: "mk_" + k}
		for i := 0; i < u.NumFields(); i++ {
			c.Fields = append(c.Fields, sortOf(u.Field(i).Type()))
			c.FNames = append(c.FNames, u.Field(i).Name())
		}
		addCtor(s, c)
		return s
	case *types.Tuple:
		return "TUPLE"
	}
	unsupported("sort of type %s (%T)", t, t.Underlying())
	return ""
}

func structCtor(t types.Type) string {
	s := sortOf(t)
	if s == SUnit {
		return "unit"
	}
	d := dtypes[s]
	if d == nil {
		unsupported("opaque struct %s", t)
	}
	return d.Ctors[0].Name
}

// boxCtor returns the Any-constructor for concrete type t.
func boxCtor(t types.Type) string {
	t = types.Unalias(t)
	k := "box_" + typeKey(t)
	if _, ok := ctors[k]; !ok {
		addCtor(SAny, &Ctor{Name: k, Fields: []string{sortOf(t)}})
		boxTypes[k] = t
	}
	return k
}

var boxTypes = map[string]types.Type{}

func zeroOf(t types.Type) *Term {
	return zeroSort(sortOf(t), t)
}

func zeroSort(s string, t types.Type) *Term {
	switch s {
	case SBool:
		return False
	case SInt:
		return Int(0)
	case SStr:
		return StrLit("")
	case SF32:
		return mk("fplit", "((_ to_fp 8 24) RNE 0.0)", SF32)
	case SF64:
		return mk("fplit", "((_ to_fp 11 53) RNE 0.0)", SF64)
	case SAny:
		return MkCtor("anil")
	case SSli:
		return MkCtor("mkslice", Int(0), Int(0), Int(0), Int(0))
	case SUnit:
		return MkCtor("unit")
	}
	if strings.HasPrefix(s, "(Array ") {
		_, v := splitArr(s)
		var et types.Type
		if t != nil {
			if a, ok := t.Underlying().(*types.Array); ok {
				et = a.Elem()
			}
		}
		return ConstArr(s, zeroSort(v, et))
	}
	if strings.HasPrefix(s, "U_") {
		return Const("zero_"+s, s)
	}
	if st, ok := structTypes[s]; ok {
		c := dtypes[s].Ctors[0]
		var args []*Term
		for i := range c.Fields {
			args = append(args, zeroSort(c.Fields[i], st.Field(i).Type()))
		}
		return MkCtor(c.Name, args...)
	}
	panic("zero of sort " + s)
}

type Unsupported struct{ msg string }

func unsupported(f string, a ...any) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

// integer ranges
func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isB := types.Unalias(t).Underlying().(*types.Basic)
	if !isB {
		return "", "", false
	}
	switch b.Kind() {
	case types.Int8:
		return "-128", "127", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Int64, types.Int:
		return "-9223372036854775808", "9223372036854775807", true
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551615", true
	}
	return "", "", false
}

func litS(s string) *Term { return mk("int", s, SInt) }

// wrapInt reduces a mathematical integer to the machine range of t.
func wrapInt(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	l, h := litS(lo), litS(hi)
	in := And(Le(l, x), Le(x, h))
	span := Add(Sub(h, l), Int(1))
	m := mk("mod", "", SInt, Sub(x, l), span)
	return Ite(in, x, Add(m, l))
}

// wrapSum is wrapInt for values at most one span out of range (sums and differences of machine integers).
func wrapSum(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	l, h := litS(lo), litS(hi)
	if x.isInt() {
		return wrapInt(x, t)
	}
	span := Add(Sub(h, l), Int(1))
	return Ite(Lt(h, x), Sub(x, span), Ite(Lt(x, l), Add(x, span), x))
}
