package main

import (
	"fmt"
	"sort"
	"strings"
)

// BDD is a canonical boolean function over atoms (terms of boolean type).
type BDD int32

const (
	bF BDD = 0
	bT BDD = 1
)

type bnode struct {
	v      int32
	lo, hi BDD
}

type bddMgr struct {
	limit int
	nodes []bnode
	uniq  map[bnode]BDD
	iteC  map[[3]BDD]BDD
	conC  map[[2]BDD]BDD
	atoms []*Term
	idx   map[*Term]int32
}

var bm = newBDD()

// nodeBudget bounds the size of the boolean functions of one check.
const nodeBudget = 6_000_000

// used is how much of its budget a check has used.
func (m *bddMgr) used() int { return len(m.nodes) - (m.limit - nodeBudget) }

// fresh gives the next check its own budget.
func (m *bddMgr) fresh() { m.limit = len(m.nodes) + nodeBudget }

func newBDD() *bddMgr {
	m := &bddMgr{limit: nodeBudget, uniq: map[bnode]BDD{}, iteC: map[[3]BDD]BDD{}, conC: map[[2]BDD]BDD{}, idx: map[*Term]int32{}}
	m.nodes = []bnode{{1 << 30, 0, 0}, {1 << 30, 1, 1}}
	return m
}

func (m *bddMgr) mk(v int32, lo, hi BDD) BDD {
	if lo == hi {
		return lo
	}
	k := bnode{v, lo, hi}
	if b, ok := m.uniq[k]; ok {
		return b
	}
	if len(m.nodes) > m.limit {
		panic(undecided{"boolean function too large"})
	}
	m.nodes = append(m.nodes, k)
	b := BDD(len(m.nodes) - 1)
	m.uniq[k] = b
	return b
}

func (m *bddMgr) atom(t *Term) BDD {
	i, ok := m.idx[t]
	if !ok {
		i = int32(len(m.atoms))
		m.atoms = append(m.atoms, t)
		m.idx[t] = i
	}
	return m.mk(i, bF, bT)
}

func (m *bddMgr) cof(b BDD, v int32) (BDD, BDD) {
	n := m.nodes[b]
	if n.v == v {
		return n.lo, n.hi
	}
	return b, b
}

func bIte(f, g, h BDD) BDD {
	m := bm
	if f == bT {
		return g
	}
	if f == bF {
		return h
	}
	if g == h {
		return g
	}
	if g == bT && h == bF {
		return f
	}
	k := [3]BDD{f, g, h}
	if r, ok := m.iteC[k]; ok {
		return r
	}
	v := m.nodes[f].v
	if x := m.nodes[g].v; x < v {
		v = x
	}
	if x := m.nodes[h].v; x < v {
		v = x
	}
	f0, f1 := m.cof(f, v)
	g0, g1 := m.cof(g, v)
	h0, h1 := m.cof(h, v)
	r := m.mk(v, bIte(f0, g0, h0), bIte(f1, g1, h1))
	m.iteC[k] = r
	return r
}

func bAnd(f, g BDD) BDD { return bIte(f, g, bF) }
func bOr(f, g BDD) BDD  { return bIte(f, bT, g) }
func bNot(f BDD) BDD    { return bIte(f, bF, bT) }
func bXor(f, g BDD) BDD { return bIte(f, bNot(g), g) }
func bImp(f, g BDD) BDD { return bIte(f, g, bT) }

func bAnds(fs ...BDD) BDD {
	r := bT
	for _, f := range fs {
		r = bAnd(r, f)
	}
	return r
}

func bOrs(fs ...BDD) BDD {
	r := bF
	for _, f := range fs {
		r = bOr(r, f)
	}
	return r
}

// bConstrain is the generalised cofactor of f by the care set c: equal to f wherever c holds.
func bConstrain(f, c BDD) BDD {
	if c == bF || c == bT || f == bF || f == bT {
		return f
	}
	if f == c {
		return bT
	}
	m := bm
	k := [2]BDD{f, c}
	if r, ok := m.conC[k]; ok {
		return r
	}
	v := m.nodes[f].v
	if x := m.nodes[c].v; x < v {
		v = x
	}
	f0, f1 := m.cof(f, v)
	c0, c1 := m.cof(c, v)
	var r BDD
	switch {
	case c1 == bF:
		r = bConstrain(f0, c0)
	case c0 == bF:
		r = bConstrain(f1, c1)
	default:
		r = m.mk(v, bConstrain(f0, c0), bConstrain(f1, c1))
	}
	m.conC[k] = r
	return r
}

// bSupport lists the atoms a function depends on.
func bSupport(b BDD) []*Term {
	seen := map[BDD]bool{}
	vs := map[int32]bool{}
	var rec func(b BDD)
	rec = func(b BDD) {
		if b <= bT || seen[b] {
			return
		}
		seen[b] = true
		n := bm.nodes[b]
		vs[n.v] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(b)
	var ids []int
	for v := range vs {
		ids = append(ids, int(v))
	}
	sort.Ints(ids)
	out := make([]*Term, len(ids))
	for i, v := range ids {
		out[i] = bm.atoms[v]
	}
	return out
}

// bRestrict fixes the value of atoms.
func bRestrict(b BDD, f func(*Term) (bool, bool)) BDD {
	memo := map[BDD]BDD{}
	var rec func(b BDD) BDD
	rec = func(b BDD) BDD {
		if b <= bT {
			return b
		}
		if r, ok := memo[b]; ok {
			return r
		}
		n := bm.nodes[b]
		var r BDD
		if v, ok := f(bm.atoms[n.v]); ok {
			if v {
				r = rec(n.hi)
			} else {
				r = rec(n.lo)
			}
		} else {
			r = bm.mk(n.v, rec(n.lo), rec(n.hi))
		}
		memo[b] = r
		return r
	}
	return rec(b)
}

// bExistsQ quantifies atoms away existentially.
func bExistsQ(b BDD, q func(*Term) bool) BDD {
	memo := map[BDD]BDD{}
	var rec func(b BDD) BDD
	rec = func(b BDD) BDD {
		if b <= bT {
			return b
		}
		if r, ok := memo[b]; ok {
			return r
		}
		n := bm.nodes[b]
		lo, hi := rec(n.lo), rec(n.hi)
		var r BDD
		if q(bm.atoms[n.v]) {
			r = bOr(lo, hi)
		} else {
			r = bIte(bm.mk(n.v, bF, bT), hi, lo)
		}
		memo[b] = r
		return r
	}
	return rec(b)
}

// bMap rebuilds a function with every atom replaced.
func bMap(b BDD, f func(*Term) BDD) BDD {
	memo := map[BDD]BDD{}
	var rec func(b BDD) BDD
	rec = func(b BDD) BDD {
		if b <= bT {
			return b
		}
		if r, ok := memo[b]; ok {
			return r
		}
		n := bm.nodes[b]
		r := bIte(f(bm.atoms[n.v]), rec(n.hi), rec(n.lo))
		memo[b] = r
		return r
	}
	return rec(b)
}

// bString shows the function as a disjunction of paths.
func bString(b BDD) string {
	if b == bT {
		return "always"
	}
	if b == bF {
		return "never"
	}
	var paths []string
	var rec func(b BDD, lits []string)
	rec = func(b BDD, lits []string) {
		if len(paths) > 4 || b == bF {
			return
		}
		if b == bT {
			paths = append(paths, strings.Join(lits, " && "))
			return
		}
		n := bm.nodes[b]
		a := brief(bm.atoms[n.v].String())
		rec(n.hi, append(append([]string{}, lits...), a))
		rec(n.lo, append(append([]string{}, lits...), "!"+a))
	}
	rec(b, nil)
	if len(paths) > 4 {
		paths = append(paths[:4], "...")
	}
	return strings.Join(paths, "  ||  ")
}

func brief(s string) string {
	if len(s) > 110 {
		return s[:60] + "…" + s[len(s)-45:]
	}
	return s
}

// bddOf converts a boolean term.
func bddOf(t *Term) BDD {
	t = strip(t)
	switch {
	case isTrue(t):
		return bT
	case isFalse(t):
		return bF
	case t.Op == "un" && t.Obj == "!":
		return bNot(bddOf(t.Args[0]))
	case t.Op == "bdd":
		return bddTerms[t]
	case t.Op == "gv":
		r := bF
		for _, l := range gvTerms[t].L {
			r = bOr(r, bAnd(l.g, bddOf(l.t)))
		}
		return r
	}
	return bm.atom(t)
}

var bddTerms = map[*Term]BDD{}

// bTerm is the term of a boolean function.
func bTerm(b BDD) *Term {
	switch b {
	case bT:
		return mkBool(true)
	case bF:
		return mkBool(false)
	}
	n := bm.nodes[b]
	if n.lo == bF && n.hi == bT {
		return bm.atoms[n.v]
	}
	if n.lo == bT && n.hi == bF {
		return mkNot(bm.atoms[n.v])
	}
	t := mk("bdd", fmt.Sprint(int(b)), "", mkBool(true).Typ)
	bddTerms[t] = b
	return t
}

// GV is a guarded value: a set of alternatives with disjoint guards.
type GV struct{ L []gl }

type gl struct {
	g BDD
	t *Term
}

var gvTerms = map[*Term]GV{}

func gvT(t *Term) GV {
	if t == nil {
		return GV{}
	}
	if t.Op == "gv" {
		return gvTerms[t]
	}
	if t.Op == "bdd" {
		return gvBool(bddTerms[t])
	}
	return GV{[]gl{{bT, t}}}
}

func gvBool(b BDD) GV {
	var r GV
	if b != bF {
		r.L = append(r.L, gl{b, mkBool(true)})
	}
	if b != bT {
		r.L = append(r.L, gl{bNot(b), mkBool(false)})
	}
	return r
}

func gvNorm(ls []gl) GV {
	m := map[*Term]BDD{}
	var order []*Term
	for _, l := range ls {
		if l.g == bF {
			continue
		}
		if l.t.Op == "gv" || l.t.Op == "bdd" {
			for _, x := range gvT(l.t).L {
				g := bAnd(l.g, x.g)
				if g == bF {
					continue
				}
				if o, ok := m[x.t]; ok {
					m[x.t] = bOr(o, g)
				} else {
					m[x.t] = g
					order = append(order, x.t)
				}
			}
			continue
		}
		if o, ok := m[l.t]; ok {
			m[l.t] = bOr(o, l.g)
		} else {
			m[l.t] = l.g
			order = append(order, l.t)
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var r GV
	for _, t := range order {
		r.L = append(r.L, gl{m[t], t})
	}
	return r
}

// gvUnder restricts a value to a guard.
func (a GV) under(g BDD) []gl {
	out := make([]gl, 0, len(a.L))
	for _, l := range a.L {
		if x := bAnd(l.g, g); x != bF {
			out = append(out, gl{x, l.t})
		}
	}
	return out
}

func (a GV) constrain(g BDD) GV {
	var ls []gl
	for _, l := range a.L {
		if bAnd(l.g, g) == bF {
			continue
		}
		ls = append(ls, gl{bConstrain(l.g, g), l.t})
	}
	return gvNorm(ls)
}

func gvIte(c BDD, a, b GV) GV {
	return gvNorm(append(a.under(c), b.under(bNot(c))...))
}

// bool converts a boolean guarded value to its function.
func (a GV) bool() BDD {
	r := bF
	for _, l := range a.L {
		r = bOr(r, bAnd(l.g, bddOf(l.t)))
	}
	return r
}

func isBoolTerm(t *Term) bool {
	t = strip(t)
	if isConst(t) {
		return isTrue(t) || isFalse(t)
	}
	return false
}

// term packs a guarded value into one term.
func (a GV) term() *Term {
	if len(a.L) == 0 {
		return mk("undef", nil, "", nil)
	}
	if len(a.L) == 1 {
		return a.L[0].t
	}
	if isBoolTerm(a.L[0].t) {
		all := true
		for _, l := range a.L {
			if !isBoolTerm(l.t) {
				all = false
			}
		}
		if all {
			return bTerm(a.bool())
		}
	}
	var b strings.Builder
	args := make([]*Term, len(a.L))
	for i, l := range a.L {
		fmt.Fprintf(&b, "%d:", int(l.g))
		args[i] = l.t
	}
	t := mk("gv", b.String(), "", a.L[0].t.Typ, args...)
	gvTerms[t] = a
	return t
}

func (a GV) single() *Term {
	if len(a.L) == 1 {
		return a.L[0].t
	}
	return nil
}

func (a GV) String() string {
	if t := a.single(); t != nil {
		return t.String()
	}
	var s []string
	for _, l := range a.L {
		s = append(s, fmt.Sprintf("%s when %s", l.t, bString(l.g)))
	}
	return "{" + strings.Join(s, "; ") + "}"
}

// when gives the guard under which the value satisfies the predicate.
func (a GV) when(pred func(*Term) bool) BDD {
	r := bF
	for _, l := range a.L {
		if pred(l.t) {
			r = bOr(r, l.g)
		}
	}
	return r
}

// bSubst replaces an atom by a condition.
func bSubst(b BDD, a *Term, by BDD) BDD {
	x := bddOf(a)
	return bIte(by, bConstrain(b, x), bConstrain(b, bNot(x)))
}
