package main

import "fmt"

// Propositional abstraction: a first attempt at obligations whose hypotheses and goal share quantified
// statements nested in other quantifiers ("every element is valid", where valid is itself quantified).
// The goal's outer quantifiers are replaced by constants, the hypotheses are instantiated at these, and
// the quantified statements that remain are replaced by boolean variables, equal statements (up to the
// names of bound variables) by the same variable. What is left is weaker than the hypotheses, so an
// unsatisfiable result proves the obligation.

func nestedQuant(t *Term, in bool, memo map[int]int) bool {
	q := t.Op == "forall" || t.Op == "exists"
	if q && in {
		return true
	}
	k := t.ID * 2
	if in {
		k++
	}
	if v, ok := memo[k]; ok {
		return v == 1
	}
	r := false
	if q {
		r = nestedQuant(t.Args[len(t.Args)-1], true, memo)
	} else {
		for _, a := range t.Args {
			if nestedQuant(a, in, memo) {
				r = true
				break
			}
		}
	}
	memo[k] = 0
	if r {
		memo[k] = 1
	}
	return r
}

type absCtx struct {
	memo map[int]*Term
}

// canon renames the bound variables of a quantified term by position.
func canonQ(t *Term, depth int) *Term {
	if t.Op != "forall" && t.Op != "exists" {
		if len(t.Args) == 0 {
			return t
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = canonQ(a, depth)
			ch = ch || args[i] != a
		}
		if !ch {
			return t
		}
		return rebuild(t, args, nil)
	}
	n := len(t.Args) - 1
	m := map[int]*Term{}
	var vs []*Term
	for i, v := range t.Args[:n] {
		b := mk("bvar", fmt.Sprintf("cb%d_%d", depth, i), v.Sort)
		b.bound = true
		m[v.ID] = b
		vs = append(vs, b)
	}
	body := canonQ(Subst(t.Args[n], m), depth+1)
	return quant(t.Op, vs, body, nil)
}

func (c *absCtx) abs(t *Term) *Term {
	if r, ok := c.memo[t.ID]; ok {
		return r
	}
	r := t
	switch {
	case t.Op == "forall" || t.Op == "exists":
		q := canonQ(t, 0)
		if q.Op == "forall" || q.Op == "exists" {
			r = mk("const", fmt.Sprintf("absq!%d", q.ID), SBool)
		} else {
			r = q
		}
	case len(t.Args) > 0 && hasQ(t):
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = c.abs(a)
			ch = ch || args[i] != a
		}
		if ch {
			r = rebuild(t, args, nil)
		}
	}
	c.memo[t.ID] = r
	return r
}

var hasQMemo = map[int]bool{}

func hasQ(t *Term) bool {
	if v, ok := hasQMemo[t.ID]; ok {
		return v
	}
	r := t.Op == "forall" || t.Op == "exists"
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasQ(a)
	}
	hasQMemo[t.ID] = r
	return r
}

func flatAnd(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == "and" {
			out = append(out, flatAnd(t.Args)...)
		} else {
			out = append(out, t)
		}
	}
	return out
}

// abstracted returns the assumptions of the abstraction of (hyps |= goal), or nil when it does not apply.
func abstracted(hyps []*Term, goal *Term) []*Term {
	memo := map[int]int{}
	nested := nestedQuant(goal, false, memo)
	for _, h := range hyps {
		nested = nested || nestedQuant(h, false, memo)
	}
	if !nested {
		return nil
	}
	var hs []*Term
	var sk []*Term
	var eqs []*Term // the constant is one of the goal's bounds
	g := goal
	for {
		if g.Op == "=>" {
			hs = append(hs, g.Args[0])
			g = g.Args[1]
			continue
		}
		if g.Op == "forall" {
			m := map[int]*Term{}
			for _, v := range g.Args[:len(g.Args)-1] {
				c := Fresh("sk", v.Sort)
				m[v.ID] = c
				sk = append(sk, c)
			}
			g = Subst(g.Args[len(g.Args)-1], m)
			continue
		}
		break
	}
	hs = flatAnd(hs)
	hyps = flatAnd(hyps)
	// candidate equalities: sk < e  =>  sk = e-1
	for _, s := range sk {
		if s.Sort != SInt {
			continue
		}
		for _, h := range hs {
			switch {
			case h.Op == "<" && h.Args[0] == s:
				eqs = append(eqs, s, Sub(h.Args[1], Int(1)))
			case h.Op == "<=" && h.Args[0] == s:
				eqs = append(eqs, s, h.Args[1])
			case h.Op == "<=" && len(h.Args[0].Args) > 0: // sk+1 <= e
				d := Sub(h.Args[0], s)
				if d.isInt() {
					eqs = append(eqs, s, Sub(h.Args[1], d))
				}
			}
		}
	}
	inst := func(sk []*Term) []*Term {
		var out []*Term
		for _, h := range hyps {
			if h.Op != "forall" {
				continue
			}
			vs := h.Args[:len(h.Args)-1]
			if len(vs) != 1 {
				continue
			}
			for _, s := range sk {
				if s.Sort == vs[0].Sort {
					out = append(out, Subst(h.Args[len(h.Args)-1], map[int]*Term{vs[0].ID: s}))
				}
			}
		}
		return out
	}
	c := &absCtx{map[int]*Term{}}
	var out []*Term
	for _, h := range hyps {
		if h.Op == "forall" {
			if !nestedQuant(h, false, memo) {
				out = append(out, h)
			}
			continue
		}
		out = append(out, c.abs(h))
	}
	cas := append(append(inst(sk), hs...), Not(g))
	var alts []*Term
	var ne []*Term
	for i := 0; i+1 < len(eqs); i += 2 {
		if eqs[i] == eqs[i+1] {
			continue
		}
		m := map[int]*Term{eqs[i].ID: eqs[i+1]}
		var sub []*Term
		for _, t := range cas {
			sub = append(sub, c.abs(Subst(t, m)))
		}
		alts = append(alts, And(sub...))
		ne = append(ne, Not(Eq(eqs[i], eqs[i+1])))
	}
	var main []*Term
	for _, t := range cas {
		main = append(main, c.abs(t))
	}
	alts = append(alts, And(append(main, ne...)...))
	out = append(out, Or(alts...))
	return out
}
