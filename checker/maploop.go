package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callClosure evaluates a function value that is a known closure on the given memory.
func (g *Gate) callClosure(v GV, mem GMem, args ...GV) GV {
	t := v.single()
	if t == nil {
		panic(undecided{"not one function value: " + v.String()})
	}
	t = strip(t)
	if t.Op == "func" || t.Op == "closure" {
		fn, ok := t.Obj.(*ssa.Function)
		if !ok {
			panic(undecided{"unknown function value " + t.String()})
		}
		var free []GV
		for _, a := range t.Args {
			free = append(free, gvT(a))
		}
		vals, _, _ := g.frame(fn, nil, nil, args, free, "closure", mem, 0)
		if len(vals) == 0 {
			return GV{}
		}
		return vals[0]
	}
	panic(undecided{"unknown function value " + t.String()})
}

// keysOf: the loop list enumerates every key of a map exactly once; the map is returned.
func keysOf(l *Term) *Term {
	if l == nil {
		return nil
	}
	if l.Op == "maprange" {
		return l.Args[0]
	}
	if l.Op == "call" {
		fn, ok := l.Obj.(*ssa.Function)
		if !ok || len(l.Args) == 0 {
			return nil
		}
		q := genericName(fn)
		switch q {
		case "maps.Keys":
			return l.Args[0]
		case "slices.Sorted", "slices.Collect":
			return keysOf(l.Args[0])
		}
		return nil
	}
	if l.Op == "comp" && isEmptyList(l.Args[0]) && condTerms[l] == bT {
		if m := keysOf(l.Args[1]); m != nil && l.Args[2].Op == "mapkey" {
			return m
		}
	}
	if l.Op == "sorted" {
		return keysOf(l.Args[0])
	}
	return nil
}

func genericName(fn *ssa.Function) string {
	q := funcQual(fn)
	if i := strings.Index(q, "["); i >= 0 {
		q = q[:i]
	}
	return q
}

// perKey rewrites what is computed in a traversal l of the keys of map m in terms of one key.
func perKey(t, l, m *Term) *Term {
	K := mk("thekey", nil, "", nil, m)
	V := mk("theval", nil, "", nil, m)
	if l.Op == "maprange" {
		return mapTerm(t, func(x *Term) *Term {
			switch {
			case x.Op == "mapkey" && x.Args[0] == l:
				return K
			case x.Op == "mapval" && x.Args[0] == l:
				return V
			case x.Op == "mapget" && x.Args[0] == m && x.Args[1] == K:
				return V
			}
			return x
		})
	}
	return mapTerm(t, func(x *Term) *Term {
		switch {
		case x.Op == "elem" && x.Args[0] == l:
			return K
		case x.Op == "mapget" && x.Args[0] == m && x.Args[1] == K:
			return V
		}
		return x
	})
}

// mapTerm rewrites a term bottom-up.
func mapTerm(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		if r := f(x); r != x {
			memo[x] = r
			return r
		}
		args := make([]*Term, len(x.Args))
		ch := false
		for i, a := range x.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := x
		if ch {
			r = rebuild(x, args)
		}
		r = f(r)
		memo[x] = r
		return r
	}
	return rec(t)
}
