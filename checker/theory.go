package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

var theoryDepth int

// theory is the conjunction of facts about the atoms of a condition that the boolean layer does not
// know: a value equals at most one constant, orderings against constants are monotone, an existential
// over a list implies that the list is not empty and is monotone in its condition.
func theory(b BDD) BDD {
	// knowledge about conditions within conditions only adds precision
	if theoryDepth > 4 {
		return bT
	}
	theoryDepth++
	defer func() { theoryDepth-- }()
	fx := firstAxioms(b)
	if fx != bT {
		return bAnd(fx, theory0(bAnd(b, fx)))
	}
	return theory0(b)
}

var firstCache = map[*Term]BDD{}

var firstBody = map[*Term]BDD{}

// firstAxioms: the element a traversal stopped at satisfies the condition it stopped for.
func firstAxioms(b BDD) BDD {
	r := bT
	seen := map[*Term]bool{}
	bHas(b, func(t *Term) bool {
		if !strings.HasPrefix(t.Op, "first") || seen[t] {
			return false
		}
		seen[t] = true
		c, ok := condTerms[t]
		if !ok {
			return false
		}
		ax, ok := firstCache[t]
		if !ok {
			firstCache[t] = bT
			L := t.Args[0]
			g := &Gate{}
			s := newSubst(g, L, func(x *Term) *Term {
				switch x.Op {
				case "elem":
					if x.Args[0] == L {
						return mkCond("first", c, "", x.Typ, L)
					}
				case "idx", "mapkey", "mapval":
					if x.Args[0] == L {
						return mkCond("first"+x.Op, c, "", x.Typ, L)
					}
				}
				return nil
			})
			firstBody[t] = s.bdd(c)
			ax = bImp(g.existsB(L, c), firstBody[t])
			firstCache[t] = ax
		}
		r = bAnd(r, ax)
		return false
	})
	return r
}

// firstFacts: where a traversal stopped early, the element it stopped at satisfies the condition it stopped
// for, also for elements the condition itself does not mention.
func firstFacts(G BDD, ts ...*Term) BDD {
	r := bT
	seen := map[*Term]bool{}
	for _, t := range ts {
		contains(t, func(x *Term) bool {
			if !strings.HasPrefix(x.Op, "first") || seen[x] {
				return false
			}
			seen[x] = true
			r = bAnd(r, firstAxioms(bddOf(mk("eq0", nil, "", nil, x))))
			if c, ok := condTerms[x]; ok {
				for _, a := range bSupport(G) {
					if a.Op == "stops" && a.Args[0] == x.Args[0] && condTerms[a] == c {
						if body, ok := firstBody[x]; ok {
							r = bAnd(r, bImp(bddOf(a), body))
						}
					}
				}
			}
			return false
		})
	}
	return r
}

func theory0(b BDD) BDD {
	atoms := bSupport(b)
	type ca struct {
		at *Term
		c  constant.Value
		lt bool
	}
	by := map[*Term][]ca{}
	var keys []*Term
	add := func(x *Term, a ca) {
		if _, ok := by[x]; !ok {
			keys = append(keys, x)
		}
		by[x] = append(by[x], a)
	}
	var ex []*Term
	kinds := map[*Term][]*Term{}
	empties := map[*Term]*Term{}
	for _, a := range atoms {
		switch {
		case a.Op == "bin" && a.Obj == "==":
			for i := 0; i < 2; i++ {
				if isConst(a.Args[i]) {
					add(a.Args[1-i], ca{a, a.Args[i].C, false})
					if a.Args[1-i].Op == "len" && a.Args[i] == mkInt(0) {
						empties[a.Args[1-i].Args[0]] = a
					}
				}
			}
		case a.Op == "bin" && a.Obj == "<":
			if isConst(a.Args[1]) {
				add(a.Args[0], ca{a, a.Args[1].C, true})
			}
		case a.Op == "exists":
			ex = append(ex, a)
		case a.Op == "tassertok":
			if ty, ok := a.Obj.(types.Type); ok && !types.IsInterface(ty) {
				kinds[a.Args[0]] = append(kinds[a.Args[0]], a)
			}
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	r := bT
	for _, k := range keys {
		l := by[k]
		for i := range l {
			for j := range l {
				if i == j {
					continue
				}
				p, q := l[i], l[j]
				if p.c.Kind() != q.c.Kind() {
					continue
				}
				ap, aq := bm.atom(p.at), bm.atom(q.at)
				switch {
				case !p.lt && !q.lt:
					if i < j && !constant.Compare(p.c, token.EQL, q.c) {
						r = bAnd(r, bNot(bAnd(ap, aq)))
					}
				case !p.lt && q.lt:
					if constant.Compare(p.c, token.LSS, q.c) {
						r = bAnd(r, bImp(ap, aq))
					} else {
						r = bAnd(r, bNot(bAnd(ap, aq)))
					}
				case p.lt && q.lt:
					if constant.Compare(p.c, token.LEQ, q.c) {
						r = bAnd(r, bImp(ap, aq))
					}
				}
			}
		}
	}
	r = bAnd(r, differences(atoms))
	// a value is of one kind only
	for _, l := range kinds {
		for i := range l {
			for j := 0; j < i; j++ {
				if !types.Identical(l[i].Obj.(types.Type), l[j].Obj.(types.Type)) {
					r = bAnd(r, bNot(bAnd(bm.atom(l[i]), bm.atom(l[j]))))
				}
			}
		}
	}
	for i, e := range ex {
		if z, ok := empties[e.Args[0]]; ok {
			r = bAnd(r, bNot(bAnd(bm.atom(e), bm.atom(z))))
		}
		for j, f := range ex {
			if i != j && e.Args[0] == f.Args[0] {
				if d := bAnd(condTerms[e], bNot(condTerms[f])); d == bF || bAnd(d, theory(d)) == bF {
					r = bAnd(r, bImp(bm.atom(e), bm.atom(f)))
				}
			}
		}
	}
	return r
}

// offset splits a whole number into a term and what is added to it; the term is nil for a constant.
func offset(t *Term) (*Term, int64, bool) {
	t = strip(t)
	if v, ok := constInt(t); ok {
		return nil, v, true
	}
	if t.Typ == nil {
		return nil, 0, false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, 0, false
	}
	if t.Op == "bin" && len(t.Args) == 2 && b.Info()&types.IsUnsigned == 0 && (t.Obj == any("+") || t.Obj == any("-")) {
		if k, ok := constInt(strip(t.Args[1])); ok {
			if t.Obj == any("-") {
				k = -k
			}
			if x, c, ok := offset(t.Args[0]); ok && k > -1<<40 && k < 1<<40 && c > -1<<40 && c < 1<<40 {
				return x, c + k, true
			}
		}
		if k, ok := constInt(strip(t.Args[0])); ok && t.Obj == any("+") {
			if x, c, ok := offset(t.Args[1]); ok && k > -1<<40 && k < 1<<40 && c > -1<<40 && c < 1<<40 {
				return x, c + k, true
			}
		}
	}
	return t, 0, true
}

// differences: what comparisons of the same two whole numbers say about each other.
func differences(atoms []*Term) BDD {
	type pair struct{ x, y *Term }
	type cmp struct {
		lit BDD // x - y < c, or x - y == c
		c   int64
	}
	less, same := map[pair][]cmp{}, map[pair][]cmp{}
	var order []pair
	seen := map[pair]bool{}
	for _, a := range atoms {
		if a.Op != "bin" || len(a.Args) != 2 || a.Obj != any("<") && a.Obj != any("==") {
			continue
		}
		x, k, ok1 := offset(a.Args[0])
		y, l, ok2 := offset(a.Args[1])
		if !ok1 || !ok2 || x == y || k < -1<<60 || k > 1<<60 || l < -1<<60 || l > 1<<60 {
			continue
		}
		swap := x == nil || y != nil && y.id < x.id
		p := pair{x, y}
		if swap {
			p = pair{y, x}
		}
		if !seen[p] {
			seen[p] = true
			order = append(order, p)
		}
		// x + k < y + l
		c, lit := l-k, bm.atom(a)
		switch {
		case a.Obj == any("==") && swap:
			same[p] = append(same[p], cmp{lit, -c})
		case a.Obj == any("=="):
			same[p] = append(same[p], cmp{lit, c})
		case swap:
			// x - y < c, so y - x > -c
			less[p] = append(less[p], cmp{bNot(lit), 1 - c})
		default:
			less[p] = append(less[p], cmp{lit, c})
		}
	}
	r := bT
	for _, p := range order {
		ls, es := less[p], same[p]
		sort.SliceStable(ls, func(i, j int) bool { return ls[i].c < ls[j].c })
		for i := 0; i+1 < len(ls); i++ {
			r = bAnd(r, bImp(ls[i].lit, ls[i+1].lit))
			if ls[i].c == ls[i+1].c {
				r = bAnd(r, bImp(ls[i+1].lit, ls[i].lit))
			}
		}
		for _, e := range es {
			for _, l := range ls {
				if e.c < l.c {
					r = bAnd(r, bImp(e.lit, l.lit))
				} else {
					r = bAnd(r, bNot(bAnd(e.lit, l.lit)))
				}
			}
			for _, f := range es {
				if e.c < f.c {
					r = bAnd(r, bNot(bAnd(e.lit, f.lit)))
				}
			}
			// just this number is below one bound and not below the other
			for _, l := range ls {
				for _, m := range ls {
					if l.c == e.c && m.c == e.c+1 {
						r = bAnd(r, bImp(bAnd(m.lit, bNot(l.lit)), e.lit))
					}
				}
			}
		}
		// lengths and counts are not negative
		if p.y == nil && (p.x.Op == "len" || p.x.Op == "count" || p.x.Op == "idx") {
			for _, l := range ls {
				if l.c <= 0 {
					r = bAnd(r, bNot(l.lit))
				}
			}
			for _, e := range es {
				if e.c < 0 {
					r = bAnd(r, bNot(e.lit))
				}
				for _, l := range ls {
					if l.c == 1 && e.c == 0 {
						r = bAnd(r, bImp(l.lit, e.lit))
					}
				}
			}
		}
	}
	return r
}

// sat removes impossible combinations of atoms from a condition (bF if nothing is left).
func sat(b BDD) BDD {
	if b <= bT {
		return b
	}
	return bAnd(b, theory(b))
}
