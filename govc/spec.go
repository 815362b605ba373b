package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------- specification data ----------

type Clause struct {
	Label string
	Expr  *Ex
	Props []string // overriding properties
	Src   string
	File  string
	Line  int
}

type GhostSet struct {
	Name string
	Expr *Ex
	Cond *Ex
}

type CallbackSpec struct {
	Name     string
	Params   []string
	Result   string
	Requires []*Clause
	Ensures  []*Clause
	Sets     []*GhostSet
	Modifies []string
}

type CallsSpec struct { // higher-order contract: this function invokes its parameter
	Param string
	Vars  []string // "name type"
	Where []*Clause
	Yield []*Clause // what the callback's result ("ret") satisfies
	Mode  string // maybe | once | many
	Stop  bool   // stops when the callback returns false
	Cond  *Ex    // invoked only if
	All   bool   // mode many: every value satisfying the where clauses, unless stopped
	Dup   bool   // mode many: the same first value may be passed repeatedly
	Bind  string // ghost variable receiving the callback result (mode once/maybe)
}

type LoopSpec struct {
	N        int
	Inv      []*Clause
	Unroll   int
	Locals   []string // "name type"
	Havoc    []string
	Sets     []*GhostSet
	VarHints []string
}

type FuncSpec struct {
	Scope      string // package whose names the clauses use
	Pkg       string
	Key       string // as in source, e.g. "*bNode.find", "New", "BTree.Find"
	Params    []string
	Results   []string
	Extern    bool
	Props     []string
	Requires  []*Clause
	Ensures   []*Clause
	Modifies  []string
	Callbacks map[string]*CallbackSpec
	Calls     []*CallsSpec
	Returned  []*CallsSpec // function results: verified as run some time after the return
	Loops     map[int]*LoopSpec
	Sets      []*GhostSet
	Opts      map[string]string
	File      string
	Line      int
	Lets      []*GhostSet
	NoReturn  bool
}

type Define struct {
	Name   string
	Params []string // "name type"
	Ret    string
	Body   *Ex
	Pkg    string
}

type SpecDB struct {
	Funcs   map[string]*FuncSpec // pkg + "." + key
	Defines map[string]*Define
	Decls   map[string]*Define
	Axioms  []*Clause
	AxPkg   map[*Clause]string
	Lemmas  []*Clause
	LemPkg  map[*Clause]string
	Scoped  map[string][]string // key -> packages with a contract of their own
	Ghosts  map[string]string // name -> type
	GhostPk map[string]string
	Imports map[string]map[string]string // pkg -> alias -> path
	Types   map[string]bool
	Order   []*FuncSpec
}

func NewSpecDB() *SpecDB {
	return &SpecDB{Scoped: map[string][]string{}, Funcs: map[string]*FuncSpec{}, Defines: map[string]*Define{}, Decls: map[string]*Define{},
		AxPkg: map[*Clause]string{}, LemPkg: map[*Clause]string{}, Ghosts: map[string]string{}, GhostPk: map[string]string{},
		Imports: map[string]map[string]string{}, Types: map[string]bool{}}
}

// splitTop splits s at top-level commas.
func splitTop(s string) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if strings.TrimSpace(s[last:]) != "" {
		out = append(out, strings.TrimSpace(s[last:]))
	}
	return out
}

var keywords = map[string]bool{"package": true, "import": true, "define": true, "declare": true, "axiom": true, "lemma": true,
	"ghost": true, "func": true, "extern": true, "property": true, "option": true, "requires": true, "ensures": true, "modifies": true,
	"callback": true, "calls": true, "returned": true, "loop": true, "invariant": true, "local": true, "unroll": true, "set": true, "where": true, "yields": true, "end": true, "let": true, "usort": true, "noreturn": true}

func (db *SpecDB) LoadDir(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := db.LoadFile(f); err != nil {
			return err
		}
	}
	return nil
}

func (db *SpecDB) LoadFile(file string) (err error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type stmt struct {
		kw, rest string
		line     int
	}
	var stmts []stmt
	for i, ln := range strings.Split(string(data), "\n") {
		if p := strings.Index(ln, "#"); p >= 0 {
			ln = ln[:p]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		w := t
		if p := strings.IndexFunc(t, func(r rune) bool { return unicode.IsSpace(r) || r == '{' }); p >= 0 {
			w = t[:p]
		}
		if keywords[w] {
			stmts = append(stmts, stmt{w, strings.TrimSpace(t[len(w):]), i + 1})
		} else {
			if len(stmts) == 0 {
				return fmt.Errorf("%s:%d: unexpected %q", file, i+1, t)
			}
			stmts[len(stmts)-1].rest += " " + t
		}
	}
	pkg := ""
	var fn *FuncSpec
	var cb *CallbackSpec
	var calls *CallsSpec
	var loop *LoopSpec
	base := filepath.Base(file)
	cur := 0
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s:%d: %v", file, cur, r)
		}
	}()
	for _, s := range stmts {
		cur = s.line
		clause := func(def string) *Clause {
			r := s.rest
			c := &Clause{File: base, Line: s.line}
			if strings.HasPrefix(r, "{") {
				p := strings.Index(r, "}")
				c.Props = splitTop(r[1:p])
				r = strings.TrimSpace(r[p+1:])
			}
			if strings.HasPrefix(r, "[") {
				p := strings.Index(r, "]")
				c.Label = r[1:p]
				r = strings.TrimSpace(r[p+1:])
			}
			if c.Label == "" {
				c.Label = def
			}
			c.Src = r
			c.Expr = parseEx(r)
			return c
		}
		gset := func() *GhostSet {
			p := strings.Index(s.rest, "=")
			g := &GhostSet{Name: strings.TrimSpace(s.rest[:p])}
			e := s.rest[p+1:]
			if q := strings.Index(e, " when "); q >= 0 {
				g.Cond = parseEx(e[q+6:])
				e = e[:q]
			}
			g.Expr = parseEx(e)
			return g
		}
		switch s.kw {
		case "package":
			pkg = s.rest
			if !strings.Contains(pkg, ".") {
				pkg = modulePath + "/" + pkg
			}
			if db.Imports[pkg] == nil {
				db.Imports[pkg] = map[string]string{}
			}
			fn = nil
		case "import":
			f := strings.Fields(s.rest)
			path := strings.Trim(f[1], `"`)
			if strings.HasPrefix(path, "willow/") {
				path = modulePath + path[len("willow"):]
			} else if strings.HasPrefix(path, "pkg/") || strings.HasPrefix(path, "internal/") {
				path = modulePath + "/" + path
			}
			db.Imports[pkg][f[0]] = path
		case "define", "declare":
			r := s.rest
			p := strings.Index(r, "(")
			d := 0
			e := p
			for ; e < len(r); e++ {
				if r[e] == '(' {
					d++
				} else if r[e] == ')' {
					d--
					if d == 0 {
						break
					}
				}
			}
			df := &Define{Name: strings.TrimSpace(r[:p]), Params: splitTop(r[p+1 : e]), Pkg: pkg}
			r = strings.TrimSpace(r[e+1:])
			if s.kw == "define" {
				q := strings.Index(r, "=")
				df.Ret = strings.TrimSpace(r[:q])
				df.Body = parseEx(r[q+1:])
				db.Defines[df.Name] = df
			} else {
				df.Ret = r
				db.Decls[df.Name] = df
			}
		case "usort":
			db.Types[s.rest] = true
		case "axiom":
			c := clause("axiom")
			db.Axioms = append(db.Axioms, c)
			db.AxPkg[c] = pkg
		case "lemma":
			c := clause("lemma")
			db.Lemmas = append(db.Lemmas, c)
			db.LemPkg[c] = pkg
		case "ghost":
			f := strings.SplitN(s.rest, " ", 2)
			db.Ghosts[f[0]] = strings.TrimSpace(f[1])
			db.GhostPk[f[0]] = pkg
		case "func", "extern":
			r := s.rest
			fn = &FuncSpec{Pkg: pkg, Scope: pkg, Extern: s.kw == "extern", Callbacks: map[string]*CallbackSpec{}, Loops: map[int]*LoopSpec{}, Opts: map[string]string{}, File: base, Line: s.line}
			cb, calls, loop = nil, nil, nil
			p := strings.Index(r, "(")
			fn.Key = strings.TrimSpace(r[:p])
			if fn.Extern && strings.Contains(fn.Key, ":") { // path:Key
				q := strings.LastIndex(fn.Key, ":")
				fn.Pkg = fn.Key[:q]
				fn.Key = fn.Key[q+1:]
			}
			e := strings.Index(r, ")")
			fn.Params = splitTop(r[p+1 : e])
			r = strings.TrimSpace(r[e+1:])
			if strings.HasPrefix(r, "(") {
				e := strings.Index(r, ")")
				fn.Results = splitTop(r[1:e])
			}
			if i := strings.LastIndex(r, ")"); i >= 0 {
				r = strings.TrimSpace(r[i+1:])
			}
			k := fn.Pkg + "." + fn.Key
			if strings.HasPrefix(r, "for ") { // used only by functions of these packages
				sc := modulePath + "/" + strings.TrimSpace(r[4:])
				db.Scoped[k] = append(db.Scoped[k], sc)
				k += "@" + sc
			}
			if _, dup := db.Funcs[k]; dup {
				panic("duplicate contract for " + k)
			}
			db.Funcs[k] = fn
			db.Order = append(db.Order, fn)
		case "property":
			fn.Props = splitTop(s.rest)
		case "option":
			f := strings.Fields(s.rest)
			v := "on"
			if len(f) > 1 {
				v = f[1]
			}
			fn.Opts[f[0]] = v
		case "noreturn":
			fn.NoReturn = true
		case "requires":
			if cb != nil {
				cb.Requires = append(cb.Requires, clause(fmt.Sprintf("%s.requires%d", cb.Name, len(cb.Requires)+1)))
			} else {
				fn.Requires = append(fn.Requires, clause(fmt.Sprintf("requires%d", len(fn.Requires)+1)))
			}
		case "ensures":
			if cb != nil {
				cb.Ensures = append(cb.Ensures, clause(fmt.Sprintf("%s.ensures%d", cb.Name, len(cb.Ensures)+1)))
			} else {
				fn.Ensures = append(fn.Ensures, clause(fmt.Sprintf("ensures%d", len(fn.Ensures)+1)))
			}
		case "yields":
			calls.Yield = append(calls.Yield, clause("yields"))
		case "where":
			calls.Where = append(calls.Where, clause("where"))
		case "modifies":
			ms := splitTop(s.rest)
			if cb != nil {
				cb.Modifies = append(cb.Modifies, ms...)
			} else {
				fn.Modifies = append(fn.Modifies, ms...)
			}
		case "callback":
			cb = &CallbackSpec{}
			calls, loop = nil, nil
			r := s.rest
			p, e := strings.Index(r, "("), strings.Index(r, ")")
			cb.Name = strings.TrimSpace(r[:p])
			cb.Params = splitTop(r[p+1 : e])
			r = strings.TrimSpace(r[e+1:])
			if strings.HasPrefix(r, "(") {
				cb.Result = strings.Trim(r, "() ")
			}
			fn.Callbacks[cb.Name] = cb
		case "calls", "returned":
			// calls param(name type, ...) many|maybe|once [stop]
			calls = &CallsSpec{}
			cb, loop = nil, nil
			r := s.rest
			p, e := strings.Index(r, "("), strings.LastIndex(r, ")")
			if q := strings.Index(r, " if "); q >= 0 {
				calls.Cond = parseEx(r[q+4:])
				r = r[:q]
				e = strings.LastIndex(r, ")")
			}
			calls.Param = strings.TrimSpace(r[:p])
			calls.Vars = splitTop(r[p+1 : e])
			for _, w := range strings.Fields(r[e+1:]) {
				switch {
				case w == "stop":
					calls.Stop = true
				case w == "all":
					calls.All = true
				case w == "dup":
					calls.Dup = true
				case strings.HasPrefix(w, "bind:"):
					calls.Bind = w[5:]
				default:
					calls.Mode = w
				}
			}
			if s.kw == "returned" {
				fn.Returned = append(fn.Returned, calls)
			} else {
				fn.Calls = append(fn.Calls, calls)
			}
		case "loop":
			cb, calls = nil, nil
			loop = &LoopSpec{}
			fmt.Sscanf(s.rest, "%d", &loop.N)
			fn.Loops[loop.N] = loop
		case "invariant":
			loop.Inv = append(loop.Inv, clause(fmt.Sprintf("loop%d.inv%d", loop.N, len(loop.Inv)+1)))
		case "local":
			loop.Locals = append(loop.Locals, splitTop(s.rest)...)
		case "unroll":
			fmt.Sscanf(s.rest, "%d", &loop.Unroll)
		case "set":
			g := gset()
			switch {
			case cb != nil:
				cb.Sets = append(cb.Sets, g)
			case loop != nil:
				loop.Sets = append(loop.Sets, g)
			default:
				fn.Sets = append(fn.Sets, g)
			}
		case "let":
			fn.Lets = append(fn.Lets, gset())
		case "end":
			cb, calls, loop = nil, nil, nil
		}
	}
	return nil
}

// ---------- expressions ----------

type Ex struct {
	Op   string // id, int, str, float, call, sel, index, un, bin, forall, exists, cond, slice
	S    string
	A    []*Ex
	Bind []string // quantifier binders "x T"
	Pats []*Ex
}

type tok struct {
	k string // id int str op float
	s string
}

func lex(s string) []tok {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '_' || c == '$' || c == '@' || unicode.IsLetter(rune(c)):
			j := i + 1
			for j < len(s) && (s[j] == '_' || s[j] == '$' || unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j]))) {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(s) && (unicode.IsDigit(rune(s[j]))) {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for s[j] != '"' {
				j++
			}
			out = append(out, tok{"str", s[i+1 : j]})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||"}
			found := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return out
}

type parser struct {
	t []tok
	p int
	s string
}

func parseEx(s string) *Ex {
	p := &parser{t: lex(s), s: s}
	e := p.expr()
	if p.p != len(p.t) {
		panic(fmt.Sprintf("trailing tokens %v in %q", p.t[p.p:], s))
	}
	return e
}

func (p *parser) peek() string {
	if p.p < len(p.t) {
		if p.t[p.p].k == "str" {
			return "\"str"
		}
		return p.t[p.p].s
	}
	return ""
}
func (p *parser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *parser) want(s string) {
	if p.peek() != s {
		panic(fmt.Sprintf("expected %q got %q at token %d in %q", s, p.peek(), p.p, p.s))
	}
	p.p++
}

func (p *parser) expr() *Ex { return p.cond() }

func (p *parser) cond() *Ex {
	c := p.iff()
	if p.peek() == "?" {
		p.next()
		a := p.cond()
		p.want(":")
		b := p.cond()
		return &Ex{Op: "cond", A: []*Ex{c, a, b}}
	}
	return c
}
func (p *parser) iff() *Ex {
	l := p.imp()
	for p.peek() == "<==>" {
		p.next()
		l = &Ex{Op: "bin", S: "<==>", A: []*Ex{l, p.imp()}}
	}
	return l
}
func (p *parser) imp() *Ex {
	l := p.or()
	if p.peek() == "==>" {
		p.next()
		return &Ex{Op: "bin", S: "==>", A: []*Ex{l, p.imp()}}
	}
	return l
}
func (p *parser) or() *Ex {
	l := p.and()
	for p.peek() == "||" {
		p.next()
		l = &Ex{Op: "bin", S: "||", A: []*Ex{l, p.and()}}
	}
	return l
}
func (p *parser) and() *Ex {
	l := p.cmp()
	for p.peek() == "&&" {
		p.next()
		l = &Ex{Op: "bin", S: "&&", A: []*Ex{l, p.cmp()}}
	}
	return l
}
func (p *parser) cmp() *Ex {
	l := p.sum()
	switch o := p.peek(); o {
	case "==", "!=", "<", "<=", ">", ">=", "in":
		p.next()
		r := p.sum()
		e := &Ex{Op: "bin", S: o, A: []*Ex{l, r}}
		// chained comparisons a <= b < c
		for {
			o2 := p.peek()
			if o2 == "<" || o2 == "<=" {
				p.next()
				r2 := p.sum()
				e = &Ex{Op: "bin", S: "&&", A: []*Ex{e, {Op: "bin", S: o2, A: []*Ex{r, r2}}}}
				r = r2
			} else {
				break
			}
		}
		return e
	}
	return l
}
func (p *parser) sum() *Ex {
	l := p.mul()
	for p.peek() == "+" || p.peek() == "-" {
		o := p.next().s
		l = &Ex{Op: "bin", S: o, A: []*Ex{l, p.mul()}}
	}
	return l
}
func (p *parser) mul() *Ex {
	l := p.unary()
	for p.peek() == "*" || p.peek() == "/" || p.peek() == "%" {
		o := p.next().s
		l = &Ex{Op: "bin", S: o, A: []*Ex{l, p.unary()}}
	}
	return l
}
func (p *parser) unary() *Ex {
	switch p.peek() {
	case "!", "-", "*", "&":
		o := p.next().s
		return &Ex{Op: "un", S: o, A: []*Ex{p.unary()}}
	}
	return p.postfix()
}

func (p *parser) typeText() string {
	// type syntax up to ',' '::' ')' at depth 0
	var sb strings.Builder
	d := 0
	for p.p < len(p.t) {
		s := p.peek()
		if d == 0 && (s == "," || s == "::" || s == ")" || s == "{") {
			break
		}
		if s == "[" || s == "(" {
			d++
		}
		if s == "]" || s == ")" {
			d--
		}
		sb.WriteString(p.next().s)
	}
	return sb.String()
}

func (p *parser) postfix() *Ex {
	e := p.primary()
	for {
		switch p.peek() {
		case ".":
			p.next()
			e = &Ex{Op: "sel", S: p.next().s, A: []*Ex{e}}
		case "[":
			p.next()
			i := p.expr()
			p.want("]")
			e = &Ex{Op: "index", A: []*Ex{e, i}}
		case "(":
			p.next()
			var args []*Ex
			// type-argument builtins
			if e.Op == "id" && (e.S == "is" || e.S == "as" || e.S == "box" || e.S == "zero" || e.S == "fresh" || e.S == "emptyset") {
				if e.S != "zero" && e.S != "fresh" && e.S != "emptyset" {
					args = append(args, p.expr())
					p.want(",")
				}
				e = &Ex{Op: "call", S: e.S, A: args, Bind: []string{p.typeText()}}
				p.want(")")
				continue
			}
			for p.peek() != ")" {
				args = append(args, p.expr())
				if p.peek() == "," {
					p.next()
				}
			}
			p.want(")")
			if e.Op == "id" {
				e = &Ex{Op: "call", S: e.S, A: args}
			} else if e.Op == "sel" {
				e = &Ex{Op: "mcall", S: e.S, A: append([]*Ex{e.A[0]}, args...)}
			} else {
				panic("bad call in " + p.s)
			}
		default:
			return e
		}
	}
}

func (p *parser) primary() *Ex {
	if p.p >= len(p.t) {
		panic("unexpected end of expression: " + p.s)
	}
	t := p.next()
	switch t.k {
	case "int":
		return &Ex{Op: "int", S: t.s}
	case "str":
		return &Ex{Op: "str", S: t.s}
	case "id":
		if t.s == "forall" || t.s == "exists" {
			var binds []string
			for {
				n := p.next().s
				ty := p.typeText()
				binds = append(binds, n+" "+ty)
				if p.peek() == "," {
					p.next()
					continue
				}
				break
			}
			var pats []*Ex
			for p.peek() == "{" {
				p.next()
				pat := &Ex{Op: "multi"}
				for {
					pat.A = append(pat.A, p.expr())
					if p.peek() == "," {
						p.next()
						continue
					}
					break
				}
				pats = append(pats, pat)
				p.want("}")
			}
			p.want("::")
			return &Ex{Op: t.s, Bind: binds, A: []*Ex{p.expr()}, Pats: pats}
		}
		return &Ex{Op: "id", S: t.s}
	}
	if t.s == "(" {
		e := p.expr()
		p.want(")")
		return e
	}
	panic(fmt.Sprintf("unexpected token %q in %q", t.s, p.s))
}

var _ = types.Typ
