package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fwrite is one write to a named struct field: its condition, the traversals around it and its value.
type fwrite struct {
	G     BDD
	Loops []*Term
	Val   GV
	Base  *Term
	Ev    *GEvent
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// fieldWrites lists the writes to a field of a struct type (separately or as part of a whole value).
func (g *Gate) fieldWrites(owner *types.Named, field string) []fwrite {
	if owner == nil {
		panic(undecided{"type of field " + field + " not found"})
	}
	st := structOf(owner)
	if st == nil || fieldIndex(st, field) < 0 {
		panic(undecided{"no field " + field + " in " + owner.String()})
	}
	fi := fieldIndex(st, field)
	fv := st.Field(fi)
	var out []fwrite
	for _, e := range g.Events {
		if e.Kind != "store" {
			continue
		}
		for _, a := range e.Args[0].L {
			gd := bAnd(e.G, a.g)
			if gd == bF {
				continue
			}
			if a.t.Op == "fieldaddr" && a.t.Obj == any(fv) {
				out = append(out, fwrite{gd, e.Loops, e.Args[1], a.t.Args[0], e})
				continue
			}
			for _, v := range e.Args[1].L {
				if v.t.Op == "struct" && v.t.Typ != nil && types.Identical(v.t.Typ, owner) {
					out = append(out, fwrite{bAnd(gd, v.g), e.Loops, g.field(v.t, fv), a.t, e})
				}
			}
		}
	}
	return out
}

// memField reads a field through a pointer in a given memory.
func (g *Gate) memField(mem GMem, p *Term, name string) GV {
	pt, ok := p.Typ.Underlying().(*types.Pointer)
	if !ok {
		panic(undecided{"not a pointer: " + p.String()})
	}
	st := structOf(pt)
	if st == nil {
		panic(undecided{"not a struct pointer: " + p.String()})
	}
	i := fieldIndex(st, name)
	if i < 0 {
		panic(undecided{"no field " + name})
	}
	f := st.Field(i)
	return g.load(mem, mk("fieldaddr", f, "", types.NewPointer(f.Type()), p))
}

// --- rendered text -----------------------------------------------------------------------------

// piece is a part of a rendered string: literal text or a value.
type piece struct {
	lit  string
	val  *Term
	verb string
}

// pieces splits a string term into literal text and rendered values.
func pieces(t *Term) []piece {
	t2 := strip(t)
	if s, ok := constStr(t2); ok {
		return []piece{{lit: s}}
	}
	switch t2.Op {
	case "bin":
		if t2.Obj == "+" {
			return joinPieces(append(pieces(t2.Args[0]), pieces(t2.Args[1])...))
		}
	case "call":
		if fn, ok := t2.Obj.(*ssa.Function); ok {
			switch funcQual(fn) {
			case "fmt.Sprintf":
				if ps, ok := sprintfPieces(t2.Args[0], t2.Args[1:]); ok {
					return ps
				}
			case "strconv.Itoa":
				return []piece{{val: t2.Args[0], verb: "d"}}
			case "fmt.Sprint":
				if len(t2.Args) == 1 {
					return []piece{{val: strip(t2.Args[0]), verb: "v"}}
				}
			}
		}
	}
	return []piece{{val: t2, verb: "s"}}
}

func joinPieces(ps []piece) []piece {
	var out []piece
	for _, p := range ps {
		if n := len(out); n > 0 && p.val == nil && out[n-1].val == nil {
			out[n-1].lit += p.lit
			continue
		}
		out = append(out, p)
	}
	return out
}

func sprintfPieces(format *Term, args []*Term) ([]piece, bool) {
	f, ok := constStr(strip(format))
	if !ok {
		return nil, false
	}
	var out []piece
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, piece{lit: string(f[i])})
			continue
		}
		i++
		j := i
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil, false
		}
		if f[j] == '%' {
			out = append(out, piece{lit: "%"})
			i = j
			continue
		}
		if n >= len(args) {
			return nil, false
		}
		a := strip(args[n])
		n++
		if f[i:j+1] == "s" || f[i:j+1] == "v" {
			if isStringTyped(a) {
				out = append(out, pieces(a)...)
			} else {
				out = append(out, piece{val: a, verb: f[i : j+1]})
			}
		} else {
			out = append(out, piece{val: a, verb: f[i : j+1]})
		}
		i = j
	}
	return joinPieces(out), n == len(args)
}

func isStringTyped(t *Term) bool {
	if _, ok := constStr(t); ok {
		return true
	}
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0 && types.Identical(t.Typ, types.Typ[types.String])
}

func showPieces(ps []piece) string {
	var b strings.Builder
	for _, p := range ps {
		if p.val == nil {
			b.WriteString(p.lit)
		} else {
			b.WriteString("<" + p.val.String() + ">")
		}
	}
	return b.String()
}

// caseSplit enumerates the alternatives of a value whose parts may be guarded, as fully resolved
// terms with their guards.
func caseSplit(v GV) []gl {
	var out []gl
	for _, a := range v.L {
		out = append(out, splitTerm(a.t, a.g)...)
	}
	return out
}

func splitTerm(t *Term, g BDD) []gl {
	if g == bF {
		return nil
	}
	// find an embedded guarded value
	var inner *Term
	contains(t, func(x *Term) bool {
		if x.Op == "gv" && inner == nil {
			inner = x
		}
		return inner != nil
	})
	if inner == nil {
		return []gl{{g, t}}
	}
	var out []gl
	for _, a := range gvTerms[inner].L {
		ng := bAnd(g, a.g)
		if ng == bF {
			continue
		}
		out = append(out, splitTerm(replaceTerm(t, inner, a.t), ng)...)
		if len(out) > 4096 {
			panic(undecided{"too many cases in a rendered value"})
		}
	}
	return out
}

func replaceTerm(t, old, by *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if t == old {
			return by
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// whenValue assumes a term equals a constant: conditions comparing it are decided.
func (g *Gate) whenValue(x, c *Term) func(BDD) BDD {
	return func(b BDD) BDD {
		return bMap(b, func(a *Term) BDD {
			s := newSubst(g, nil, func(t *Term) *Term {
				if t == x {
					return c
				}
				return nil
			})
			return bddOf(s.term(a))
		})
	}
}

// fixValue evaluates a guarded value under the assumption that term x equals constant c.
func (g *Gate) fixValue(v GV, x, c *Term) GV {
	s := newSubst(g, nil, func(t *Term) *Term {
		if t == x {
			return c
		}
		return nil
	})
	return s.gv(v)
}

// deComp replaces elements of plain filtered copies of a list by the elements of the list itself.
func (g *Gate) deComp(t *Term) *Term {
	s := newSubst(g, nil, nil)
	s.f = func(x *Term) *Term {
		if x.Op == "elem" && x.Args[0].Op == "comp" && isEmptyList(x.Args[0].Args[0]) {
			return s.term(x.Args[0].Args[2])
		}
		return nil
	}
	return s.term(t)
}

// rebuild is a term with other arguments.
func rebuild(t *Term, args []*Term) *Term {
	r := mk(t.Op, t.Obj, t.Ctx, t.Typ, args...)
	if c, ok := condTerms[t]; ok {
		condTerms[r] = c
	}
	if t.Op == "gv" {
		ls := gvTerms[t].L
		n := make([]gl, len(ls))
		for i := range ls {
			n[i] = gl{ls[i].g, args[i]}
		}
		r = gvNorm(n).term()
	}
	return r
}
