package main

import (
	"encoding/json"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
)

// Invariants name local variables. contracts/locals.json keeps the names and types of the local variables of the functions
// under contract as they were when the contracts were written: when a name is gone from the code, the variable that took
// its place (same type, same position among the new names of that type) stands in for it. Which variable an invariant is
// read over never matters for soundness: every invariant is proved for the one it is read over.

type localVar struct{ Name, Type string }

var localsLock sync.Mutex

func (g *Engine) localsOf(sp *FuncSpec) []localVar {
	key := sp.Pkg + "." + sp.Key
	localsLock.Lock()
	defer localsLock.Unlock()
	if l, ok := g.curLocals[key]; ok {
		return l
	}
	var out []localVar
	fn := g.funcs[key]
	if fn != nil && fn.Syntax() != nil && fn.Pkg != nil {
		if info := g.infos[fn.Pkg.Pkg]; info != nil {
			body := ast.Node(nil)
			if d, ok := fn.Syntax().(*ast.FuncDecl); ok && d.Body != nil {
				body = d.Body
			}
			seen := map[string]bool{}
			if body != nil {
				ast.Inspect(body, func(n ast.Node) bool {
					id, ok := n.(*ast.Ident)
					if !ok || id.Name == "_" {
						return true
					}
					v, ok := info.Defs[id].(*types.Var)
					if ok && !v.IsField() && !seen[id.Name] {
						seen[id.Name] = true
						out = append(out, localVar{id.Name, types.TypeString(v.Type(), nil)})
					}
					return true
				})
			}
		}
	}
	g.curLocals[key] = out
	return out
}

// renamed binds the names of local variables that the code no longer has.
func (x *Exec) renamed(e *Env, fr *Frame, vars map[string]SV) {
	base := x.g.baseLocals[x.spec.Pkg+"."+x.spec.Key]
	if len(base) == 0 {
		return
	}
	cur := x.g.localsOf(x.spec)
	had, has := map[string]bool{}, map[string]bool{}
	for _, b := range base {
		had[b.Name] = true
	}
	for _, c := range cur {
		has[c.Name] = true
	}
	fresh := map[string][]string{}
	for _, c := range cur {
		if !had[c.Name] {
			fresh[c.Type] = append(fresh[c.Type], c.Name)
		}
	}
	nth := map[string]int{}
	for _, b := range base {
		if has[b.Name] {
			continue
		}
		i := nth[b.Type]
		nth[b.Type]++
		if _, ok := e.vars[b.Name]; ok {
			continue
		}
		if l := fresh[b.Type]; i < len(l) {
			if v, ok := vars[l[i]]; ok {
				e.vars[b.Name] = v
				continue
			}
		}
		var cands []string
		for n, v := range vars {
			if !had[n] && v.ty != nil && v.ty.gt != nil && types.TypeString(v.ty.gt, nil) == b.Type && !x.isParamName(n) {
				cands = append(cands, n)
			}
		}
		sort.Slice(cands, func(i, j int) bool {
			a, b := bindRank(fr, cands[i]), bindRank(fr, cands[j])
			return a < b || a == b && cands[i] < cands[j]
		})
		if len(cands) > 0 {
			e.vars[b.Name] = vars[cands[0]]
		}
	}
}

func loadLocals(file string) map[string][]localVar {
	out := map[string][]localVar{}
	if b, err := os.ReadFile(file); err == nil {
		_ = json.Unmarshal(b, &out)
	}
	return out
}

// cmdLocals writes contracts/locals.json (run when contracts are written, never by a check).
func cmdLocals(args []string) {
	g, err := NewEngine(args[0], args[1]+"/contracts", patternsFor())
	if err != nil {
		panic(err)
	}
	out := map[string][]localVar{}
	for _, sp := range g.db.Order {
		if sp.Extern || strings.HasPrefix(sp.Key, "go ") || len(sp.Loops) == 0 {
			continue
		}
		if l := g.localsOf(sp); len(l) > 0 {
			out[sp.Pkg+"."+sp.Key] = l
		}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	_ = os.WriteFile(args[1]+"/contracts/locals.json", append(b, '\n'), 0o644)
}
