package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term. Op "const" = free symbol (Name), "bvar" = bound variable,
// "int" = integer literal, "true"/"false", "forall"/"exists" (Binders in Args[:n-1], body last),
// "ctor:X"/"sel:X:i"/"is:X" for datatypes, otherwise an SMT-LIB operator or uninterpreted function.
type Term struct {
	Op    string
	Name  string
	Sort  string
	Args  []*Term
	Pats  []*Term // quantifier patterns
	ID    int
	bound bool // contains bound variables
	max   int  // largest symbol ordinal inside (for loop-invariance tests)
}

var (
	termTab  = map[string]*Term{}
	termSeq  = 0
	symSeq   = 0
	symSorts = map[string]string{} // declared constants
	funSigs  = map[string]*FunSig{}
)

type FunSig struct {
	Name string
	Args []string
	Ret  string
}

func resetTerms() {}

func mk(op, name, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{Op: op, Name: name, Sort: srt, Args: args, ID: termSeq}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		if a.max > t.max {
			t.max = a.max
		}
	}
	if op == "bvar" {
		t.bound = true
	}
	termTab[k] = t
	return t
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
	SF32  = "Float32"
	SF64  = "Float64"
	SAny  = "Any"
	SSli  = "Slice"
	SUnit = "Unit"
)

func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func splitArr(s string) (string, string) {
	// "(Array K V)"
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

var (
	True  = mk("true", "", SBool)
	False = mk("false", "", SBool)
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Int(n int64) *Term { return mk("int", strconv.FormatInt(n, 10), SInt) }
func BigInt(n *big.Int) *Term {
	return mk("int", n.String(), SInt)
}
func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) big() *big.Int {
	b, _ := new(big.Int).SetString(t.Name, 10)
	return b
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '!' || r == '@' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// Fresh makes a new free constant.
func Fresh(hint, srt string) *Term {
	symSeq++
	n := sanitize(hint) + "!" + strconv.Itoa(symSeq)
	t := mk("const", n, srt)
	t.max = symSeq
	symSorts[n] = srt
	return t
}

// Const is a named constant shared by name.
func Const(name, srt string) *Term {
	n := sanitize(name)
	if s, ok := symSorts[n]; ok && s != srt {
		n = n + "_" + sanitize(srt)
	}
	symSorts[n] = srt
	return mk("const", n, srt)
}

func BVar(name, srt string) *Term {
	symSeq++
	return mk("bvar", sanitize(name)+"?"+strconv.Itoa(symSeq), srt)
}

func App(f string, ret string, args ...*Term) *Term {
	f = sanitize(f)
	if _, ok := funSigs[f]; !ok {
		as := []string{}
		for _, a := range args {
			as = append(as, a.Sort)
		}
		funSigs[f] = &FunSig{f, as, ret}
	}
	sg := funSigs[f]
	if len(sg.Args) != len(args) {
		panic("arity mismatch for " + f)
	}
	for i, a := range args {
		if a.Sort != sg.Args[i] {
			panic(fmt.Sprintf("sort mismatch for %s arg %d: %s vs %s", f, i, a.Sort, sg.Args[i]))
		}
	}
	return mk("app", f, sg.Ret, args...)
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", "", SBool, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x == False {
			return False
		}
		if x == True {
			continue
		}
		if x.Op == "and" {
			for _, y := range x.Args {
				if !seen[y.ID] {
					seen[y.ID] = true
					out = append(out, y)
				}
			}
			continue
		}
		if !seen[x.ID] {
			seen[x.ID] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		if x.Op == "not" && seen[x.Args[0].ID] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x == True {
			return True
		}
		if x == False {
			continue
		}
		if x.Op == "or" {
			for _, y := range x.Args {
				if !seen[y.ID] {
					seen[y.ID] = true
					out = append(out, y)
				}
			}
			continue
		}
		if !seen[x.ID] {
			seen[x.ID] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		if x.Op == "not" && seen[x.Args[0].ID] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", "", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic("ite sorts " + a.Sort + " vs " + b.Sort)
	}
	if a == True && b == False {
		return c
	}
	if a == False && b == True {
		return Not(c)
	}
	if a.Sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	return mk("ite", "", a.Sort, c, a, b)
}

func isLit(t *Term) bool {
	return t.Op == "int" || t.Op == "true" || t.Op == "false" || t.Op == "strlit" || t.Op == "fplit"
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s vs %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	if isLit(a) && isLit(b) && a.Op == b.Op {
		return False // distinct literals of same kind (hash-consed)
	}
	if strings.HasPrefix(a.Op, "ctor:") && strings.HasPrefix(b.Op, "ctor:") {
		if a.Op != b.Op {
			return False
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	// ite with literal branches
	if a.Op == "ite" && isLit(b) && isLit(a.Args[1]) && isLit(a.Args[2]) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && isLit(a) {
		return Eq(b, a)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

func Add(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return BigInt(new(big.Int).Add(a.big(), b.big()))
	}
	if a.isInt() && a.Name == "0" {
		return b
	}
	if b.isInt() && b.Name == "0" {
		return a
	}
	// (x + c1) + c2
	if b.isInt() && a.Op == "+" && len(a.Args) == 2 && a.Args[1].isInt() {
		return Add(a.Args[0], Add(a.Args[1], b))
	}
	if a.isInt() {
		return Add(b, a)
	}
	return mk("+", "", SInt, a, b)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return Int(0)
	}
	if b.isInt() {
		return Add(a, BigInt(new(big.Int).Neg(b.big())))
	}
	return mk("-", "", SInt, a, b)
}

func Mul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return BigInt(new(big.Int).Mul(a.big(), b.big()))
	}
	if a.isInt() && a.Name == "1" {
		return b
	}
	if b.isInt() && b.Name == "1" {
		return a
	}
	if a.isInt() && a.Name == "0" || b.isInt() && b.Name == "0" {
		return Int(0)
	}
	return mk("*", "", SInt, a, b)
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.isInt() && b.isInt() {
		return Bool(a.big().Cmp(b.big()) <= 0)
	}
	return mk("<=", "", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.isInt() && b.isInt() {
		return Bool(a.big().Cmp(b.big()) < 0)
	}
	return mk("<", "", SBool, a, b)
}

// provablyDistinct is a cheap syntactic disequality test.
func provablyDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if isLit(a) && isLit(b) {
		return true
	}
	// x + c vs x + d
	base := func(t *Term) (*Term, *big.Int) {
		if t.Op == "+" && len(t.Args) == 2 && t.Args[1].isInt() {
			return t.Args[0], t.Args[1].big()
		}
		return t, big.NewInt(0)
	}
	if a.Sort == SInt && b.Sort == SInt {
		ba, ca := base(a)
		bb, cb := base(b)
		if ba == bb && ca.Cmp(cb) != 0 {
			return true
		}
	}
	if distinctHook != nil && (distinctHook(a, b) || distinctHook(b, a)) {
		return true
	}
	if strings.HasPrefix(a.Op, "ctor:") && strings.HasPrefix(b.Op, "ctor:") {
		return Eq(a, b) == False
	}
	return false
}

var distinctHook func(lit, t *Term) bool

func Select(a, i *Term) *Term {
	_, v := splitArr(a.Sort)
	cur := a
	for {
		if cur.Op == "store" {
			if cur.Args[1] == i {
				return cur.Args[2]
			}
			if provablyDistinct(cur.Args[1], i) {
				cur = cur.Args[0]
				continue
			}
		}
		if cur.Op == "constarr" {
			return cur.Args[0]
		}
		break
	}
	if cur.Op == "ite" {
		return Ite(cur.Args[0], Select(cur.Args[1], i), Select(cur.Args[2], i))
	}
	return mk("select", "", v, cur, i)
}

func Store(a, i, v *Term) *Term {
	_, vs := splitArr(a.Sort)
	if vs != v.Sort {
		panic(fmt.Sprintf("store: sort %s vs %s", vs, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", "", a.Sort, a, i, v)
}

func ConstArr(srt string, v *Term) *Term { return mk("constarr", "", srt, v) }

// ---- datatypes ----

type Ctor struct {
	Name   string
	Fields []string // sorts
	FNames []string
}
type DType struct {
	Name  string
	Ctors []*Ctor
}

var dtypes = map[string]*DType{}
var ctors = map[string]*Ctor{}
var ctorDT = map[string]*DType{}

func addCtor(dt string, c *Ctor) {
	d := dtypes[dt]
	if d == nil {
		d = &DType{Name: dt}
		dtypes[dt] = d
	}
	if _, ok := ctors[c.Name]; ok {
		return
	}
	d.Ctors = append(d.Ctors, c)
	ctors[c.Name] = c
	ctorDT[c.Name] = d
}

func MkCtor(c string, args ...*Term) *Term {
	ct := ctors[c]
	if ct == nil {
		panic("no ctor " + c)
	}
	if len(args) != len(ct.Fields) {
		panic("ctor arity " + c)
	}
	for i, a := range args {
		if a.Sort != ct.Fields[i] {
			panic(fmt.Sprintf("ctor %s field %d sort %s vs %s", c, i, a.Sort, ct.Fields[i]))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x  (single-constructor datatypes)
	if len(ctorDT[c].Ctors) == 1 && len(args) > 0 && strings.HasPrefix(args[0].Op, "sel:") {
		x := args[0].Args[0]
		ok := x.Sort == ctorDT[c].Name
		for i, a := range args {
			if !ok || a.Op != fmt.Sprintf("sel:%s:%d", c, i) || a.Args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mk("ctor:"+c, "", ctorDT[c].Name, args...)
}

func Sel(c string, i int, x *Term) *Term {
	ct := ctors[c]
	if x.Op == "ctor:"+c {
		return x.Args[i]
	}
	if x.Op == "ite" {
		return Ite(x.Args[0], Sel(c, i, x.Args[1]), Sel(c, i, x.Args[2]))
	}
	return mk(fmt.Sprintf("sel:%s:%d", c, i), "", ct.Fields[i], x)
}

func Is(c string, x *Term) *Term {
	if strings.HasPrefix(x.Op, "ctor:") {
		return Bool(x.Op == "ctor:"+c)
	}
	if len(ctorDT[c].Ctors) == 1 && ctorDT[c].Name != SAny {
		return True
	}
	if x.Op == "ite" {
		return Ite(x.Args[0], Is(c, x.Args[1]), Is(c, x.Args[2]))
	}
	return mk("is:"+c, "", SBool, x)
}

// ---- quantifiers ----

func Forall(vars []*Term, body *Term, pats ...*Term) *Term { return quant("forall", vars, body, pats) }
func Exists(vars []*Term, body *Term) *Term                { return quant("exists", vars, body, nil) }

func quant(op string, vars []*Term, body *Term, pats []*Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	args := append(append([]*Term{}, vars...), body)
	var covering []*Term // a pattern must mention every bound variable and not be a variable itself
	for _, p := range pats {
		all := p.Op != "bvar"
		for _, v := range vars {
			all = all && termMentions(p, v, map[int]bool{})
		}
		if all {
			covering = append(covering, p)
		}
	}
	pats = covering
	name := ""
	for _, p := range pats {
		name += fmt.Sprintf("p%d", p.ID)
	}
	t := mk(op, name, SBool, args...)
	t.Pats = pats
	// recompute bound: bound if body has bvars other than vars; conservative via free-var scan
	t.bound = hasFreeB(t)
	return t
}

func hasFreeB(t *Term) bool {
	free := map[int]bool{}
	collectB(t, map[int]bool{}, free, map[int]bool{})
	return len(free) > 0
}

func collectB(t *Term, boundHere map[int]bool, free map[int]bool, seen map[int]bool) {
	if t.Op == "bvar" {
		if !boundHere[t.ID] {
			free[t.ID] = true
		}
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		nb := map[int]bool{}
		for k := range boundHere {
			nb[k] = true
		}
		for _, v := range t.Args[:len(t.Args)-1] {
			nb[v.ID] = true
		}
		collectB(t.Args[len(t.Args)-1], nb, free, map[int]bool{})
		return
	}
	if !t.bound || seen[t.ID] {
		return
	}
	seen[t.ID] = true
	for _, a := range t.Args {
		collectB(a, boundHere, free, seen)
	}
}

// Subst replaces terms (by ID) in t.
func Subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.ID]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t.ID]; ok {
			return r
		}
		ch := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		memo[t.ID] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args[0], args[1])
	case "-":
		return Sub(args[0], args[1])
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "forall", "exists":
		var ps []*Term
		for _, p := range t.Pats {
			ps = append(ps, rec(p))
		}
		return quant(t.Op, args[:len(args)-1], args[len(args)-1], ps)
	}
	if strings.HasPrefix(t.Op, "ctor:") {
		return MkCtor(t.Op[5:], args...)
	}
	if strings.HasPrefix(t.Op, "sel:") {
		p := strings.LastIndex(t.Op, ":")
		i, _ := strconv.Atoi(t.Op[p+1:])
		return Sel(t.Op[4:p], i, args[0])
	}
	if strings.HasPrefix(t.Op, "is:") {
		return Is(t.Op[3:], args[0])
	}
	return mk(t.Op, t.Name, t.Sort, args...)
}

func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}

// strings literals
var strLits = map[string]*Term{}

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := mk("strlit", fmt.Sprintf("str_%d_%s", len(strLits), sanitize(trunc(s, 24))), SStr)
	strLits[s] = t
	return t
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func printTerm(t *Term, names map[int]string) string {
	var sb strings.Builder
	writeTerm(&sb, t, names)
	return sb.String()
}

func writeTerm(sb *strings.Builder, t *Term, names map[int]string) {
	if names != nil {
		if n, ok := names[t.ID]; ok {
			sb.WriteString(n)
			return
		}
	}
	writeTermTop(sb, t, names)
}

func writeTermTop(sb *strings.Builder, t *Term, names map[int]string) {
	switch t.Op {
	case "true", "false":
		sb.WriteString(t.Op)
		return
	case "int":
		if strings.HasPrefix(t.Name, "-") {
			sb.WriteString("(- " + t.Name[1:] + ")")
		} else {
			sb.WriteString(t.Name)
		}
		return
	case "const", "bvar", "strlit":
		sb.WriteString("|" + t.Name + "|")
		return
	case "fplit", "const_rm":
		sb.WriteString(t.Name)
		return
	case "constarr":
		sb.WriteString("((as const " + t.Sort + ") ")
		writeTerm(sb, t.Args[0], names)
		sb.WriteByte(')')
		return
	case "forall", "exists":
		sb.WriteString("(" + t.Op + " (")
		n := len(t.Args) - 1
		for _, v := range t.Args[:n] {
			sb.WriteString("(|" + v.Name + "| " + v.Sort + ")")
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
			writeTerm(sb, t.Args[n], names)
			for _, p := range t.Pats {
				sb.WriteString(" :pattern (")
				if p.Op == "multi" {
					for i, q := range p.Args {
						if i > 0 {
							sb.WriteByte(' ')
						}
						writeTerm(sb, q, nil)
					}
				} else {
					writeTerm(sb, p, nil)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			writeTerm(sb, t.Args[n], names)
		}
		sb.WriteByte(')')
		return
	case "app":
		if len(t.Args) == 0 {
			sb.WriteString("|" + t.Name + "|")
			return
		}
		sb.WriteString("(|" + t.Name + "|")
		for _, a := range t.Args {
			sb.WriteByte(' ')
			writeTerm(sb, a, names)
		}
		sb.WriteByte(')')
		return
	}
	op := t.Op
	if strings.HasPrefix(op, "ctor:") {
		if len(t.Args) == 0 {
			sb.WriteString("|" + op[5:] + "|")
			return
		}
		op = "|" + op[5:] + "|"
	} else if strings.HasPrefix(op, "sel:") {
		p := strings.LastIndex(op, ":")
		op = "|" + op[4:p] + "." + op[p+1:] + "|"
	} else if strings.HasPrefix(op, "is:") {
		op = "(_ is " + symq(op[3:]) + ")"
	}
	sb.WriteString("(" + op)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		writeTerm(sb, a, names)
	}
	sb.WriteByte(')')
}

// walk collects all subterms once.
func walk(t *Term, seen map[int]*Term, f func(*Term)) {
	if _, ok := seen[t.ID]; ok {
		return
	}
	seen[t.ID] = t
	for _, a := range t.Args {
		walk(a, seen, f)
	}
	for _, a := range t.Pats {
		walk(a, seen, f)
	}
	f(t)
}

// ScriptOf builds an SMT-LIB script asserting all of as.
func ScriptOf(as []*Term, getVals []*Term) string { return scriptOf(as, getVals, false) }

// QuickScriptOf leaves out the quantified background facts (for feasibility tests)
func QuickScriptOf(as []*Term) string { return scriptOf(as, nil, true) }

func scriptOf(as []*Term, getVals []*Term, quick bool) string {
	seen := map[int]*Term{}
	var order []*Term
	uses := map[int]int{}
	collect := func(t *Term) {
		walk(t, seen, func(x *Term) {
			order = append(order, x)
			for _, a := range x.Args {
				uses[a.ID]++
			}
		})
	}
	for _, a := range as {
		collect(a)
		uses[a.ID]++
	}
	for _, a := range getVals {
		collect(a)
		uses[a.ID] += 2
	}
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	sb.WriteString("(declare-sort Str 0)\n")
	// which extra sorts
	sorts := map[string]bool{}
	funs := map[string]bool{}
	consts := map[string]*Term{}
	strs := map[string]*Term{}
	needRank := false
	var addSort func(s string)
	addSort = func(s string) {
		if strings.HasPrefix(s, "(Array ") {
			k, v := splitArr(s)
			addSort(k)
			addSort(v)
			return
		}
		if sorts[s] {
			return
		}
		sorts[s] = true
		if d, ok := dtypes[s]; ok {
			for _, c := range d.Ctors {
				for _, f := range c.Fields {
					addSort(f)
				}
			}
		}
	}
	for _, t := range order {
		addSort(t.Sort)
		switch {
		case t.Op == "app":
			funs[t.Name] = true
			if t.Name == "srank" {
				needRank = true
			}
			sg := funSigs[t.Name]
			for _, a := range sg.Args {
				addSort(a)
			}
		case t.Op == "const":
			consts[t.Name] = t
		case t.Op == "strlit":
			strs[t.Name] = t
		case strings.HasPrefix(t.Op, "ctor:"):
			addSort(ctorDT[t.Op[5:]].Name)
		case strings.HasPrefix(t.Op, "is:"):
			addSort(ctorDT[t.Op[3:]].Name)
		case strings.HasPrefix(t.Op, "sel:"):
			p := strings.LastIndex(t.Op, ":")
			addSort(ctorDT[t.Op[4:p]].Name)
		}
	}
	// uninterpreted sorts
	var us []string
	var ds []*DType
	for s := range sorts {
		if d, ok := dtypes[s]; ok {
			ds = append(ds, d)
		} else if strings.HasPrefix(s, "U_") {
			us = append(us, s)
		}
	}
	sort.Strings(us)
	for _, u := range us {
		sb.WriteString("(declare-sort |" + u + "| 0)\n")
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].Name < ds[j].Name })
	if len(ds) > 0 {
		sb.WriteString("(declare-datatypes (")
		for _, d := range ds {
			sb.WriteString("(" + q(d.Name) + " 0)")
		}
		sb.WriteString(") (\n")
		for _, d := range ds {
			sb.WriteString(" (")
			for _, c := range d.Ctors {
				sb.WriteString("(|" + c.Name + "|")
				for i, f := range c.Fields {
					fmt.Fprintf(&sb, " (|%s.%d| %s)", c.Name, i, f)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")\n")
		}
		sb.WriteString("))\n")
	}
	var ns []string
	for n := range consts {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", n, consts[n].Sort)
	}
	ns = nil
	for n := range strs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&sb, "(declare-const |%s| Str)\n", n)
	}
	if len(ns) > 1 {
		sb.WriteString("(assert (distinct")
		for _, n := range ns {
			sb.WriteString(" |" + n + "|")
		}
		sb.WriteString("))\n")
	}
	var fs []string
	for f := range funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		sg := funSigs[f]
		fmt.Fprintf(&sb, "(declare-fun |%s| (%s) %s)\n", f, strings.Join(sg.Args, " "), sg.Ret)
	}
	if quick {
		needRank = false
	}
	if needRank {
		// an injective embedding of strings in the rationals: a strict total order
		sb.WriteString("(declare-fun sunrank (Real) Str)\n(assert (forall ((s Str)) (! (= (sunrank (srank s)) s) :pattern ((srank s)))))\n")
		// concrete order among literals
		type sl struct{ s, n string }
		var l []sl
		for s, t := range strLits {
			if _, ok := strs[t.Name]; ok {
				l = append(l, sl{s, t.Name})
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
		for i := 1; i < len(l); i++ {
			fmt.Fprintf(&sb, "(assert (< (srank |%s|) (srank |%s|)))\n", l[i-1].n, l[i].n)
		}
		for _, x := range l {
			if x.s == "" {
				fmt.Fprintf(&sb, "(assert (forall ((s Str)) (! (<= (srank |%s|) (srank s)) :pattern ((srank s)))))\n", x.n)
			}
		}
	}
	if funs["slen"] && !quick {
		sb.WriteString("(assert (forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s)))))\n")
		for s, t := range strLits {
			if _, ok := strs[t.Name]; ok {
				fmt.Fprintf(&sb, "(assert (= (slen |%s|) %d))\n", t.Name, len(s))
				if s == "" {
					fmt.Fprintf(&sb, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s |%s|)) :pattern ((slen s)))))\n", t.Name)
				}
			}
		}
	}
	// the nil map has no entries
	ns = nil
	for n := range consts {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if q := strings.Index(n, ".MD_"); q >= 0 && strings.HasPrefix(n, "H") && !strings.HasPrefix(n, "hv") {
			_, inner := splitArr(consts[n].Sort)
			fmt.Fprintf(&sb, "(assert (= (select |%s| 0) ((as const %s) false)))\n", n, inner)
		}
	}
	names := map[int]string{}
	for _, t := range order {
		if t.bound || len(t.Args) == 0 || uses[t.ID] < 2 {
			continue
		}
		if t.Op == "forall" || t.Op == "exists" || t.Op == "multi" {
			continue
		}
		n := fmt.Sprintf("?t%d", t.ID)
		sb.WriteString("(define-fun |" + n + "| () " + t.Sort + " ")
		writeTermTop(&sb, t, names)
		sb.WriteString(")\n")
		names[t.ID] = "|" + n + "|"
	}
	for _, a := range as {
		sb.WriteString("(assert ")
		writeTerm(&sb, a, names)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(getVals) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range getVals {
			sb.WriteByte(' ')
			writeTerm(&sb, v, names)
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func q(s string) string { return s }

// symq prints a symbol without bars when it is a simple one (cvc5 wants that for indices)
func symq(n string) string {
	for i, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '.' || c == '$' || i > 0 && c >= '0' && c <= '9') {
			return "|" + n + "|"
		}
	}
	return n
}

// litOf is the text of a string literal.
func litOf(t *Term) (string, bool) {
	if t.Op != "strlit" {
		return "", false
	}
	for s, u := range strLits {
		if u == t {
			return s, true
		}
	}
	return "", false
}

func termMentions(t, v *Term, seen map[int]bool) bool {
	if t == v {
		return true
	}
	if seen[t.ID] {
		return false
	}
	seen[t.ID] = true
	for _, a := range t.Args {
		if termMentions(a, v, seen) {
			return true
		}
	}
	return false
}
