package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nodeFlow decides which instructions of a function can be reached when one of its values is a
// node of a known dynamic type: constant propagation along executable edges, through calls.
type nodeFlow struct {
	p     *Program
	memo  map[string]*nodeRun
	kinds map[string]types.Type // dynamic types the node was compared with
	stop  map[*ssa.Function]bool
}

// nodeVal is what is known about a value: nothing reached it (bot), it is the constant, it is the
// node (of type typ, not nil), or anything.
type nodeVal struct {
	k     byte // 0 bot, 'c' constant, 'n' node, 't' tuple, '?' anything
	c     *ssa.Const
	typ   types.Type
	tuple []nodeVal
}

type nodeRun struct {
	rets   []nodeVal
	reach  map[ssa.Instruction]bool
	callee []*nodeRun
	busy   bool
}

var anyVal = nodeVal{k: '?'}

func (v nodeVal) key() string {
	switch v.k {
	case 'c':
		return "c" + v.c.String()
	case 'n':
		return "n" + v.typ.String()
	case 't':
		s := "("
		for _, x := range v.tuple {
			s += x.key() + ","
		}
		return s + ")"
	}
	return string(rune(v.k + 'A'))
}

func joinNode(a, b nodeVal) nodeVal {
	if a.k == 0 {
		return b
	}
	if b.k == 0 || a.key() == b.key() {
		return a
	}
	if a.k == 't' && b.k == 't' && len(a.tuple) == len(b.tuple) {
		r := nodeVal{k: 't'}
		for i := range a.tuple {
			r.tuple = append(r.tuple, joinNode(a.tuple[i], b.tuple[i]))
		}
		return r
	}
	return anyVal
}

func boolVal(b bool) nodeVal {
	return nodeVal{k: 'c', c: ssa.NewConst(constant.MakeBool(b), types.Typ[types.Bool])}
}

func (nf *nodeFlow) run(fn *ssa.Function, args []nodeVal, depth int) *nodeRun {
	key := fmt.Sprintf("%p", fn)
	for _, a := range args {
		key += "|" + a.key()
	}
	if r := nf.memo[key]; r != nil {
		return r
	}
	r := &nodeRun{reach: map[ssa.Instruction]bool{}, busy: true}
	nf.memo[key] = r
	vals := map[ssa.Value]nodeVal{}
	for i, a := range fn.Params {
		if i < len(args) {
			vals[a] = args[i]
		} else {
			vals[a] = anyVal
		}
	}
	get := func(v ssa.Value) nodeVal {
		switch x := v.(type) {
		case *ssa.Const:
			return nodeVal{k: 'c', c: x}
		case *ssa.Parameter, *ssa.Alloc:
		case *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.FreeVar:
			return anyVal
		}
		return vals[v]
	}
	edges := map[[2]*ssa.BasicBlock]bool{}
	live := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	calls := map[ssa.Instruction]*nodeRun{}
	for round := 0; ; round++ {
		changed := false
		set := func(v ssa.Value, x nodeVal) {
			n := joinNode(vals[v], x)
			if n.key() != vals[v].key() {
				vals[v] = n
				changed = true
			}
		}
		mark := func(b *ssa.BasicBlock, i int) {
			e := [2]*ssa.BasicBlock{b, b.Succs[i]}
			if !edges[e] || !live[b.Succs[i]] {
				edges[e] = true
				live[b.Succs[i]] = true
				changed = true
			}
		}
	blocks:
		for _, b := range fn.Blocks {
			if !live[b] {
				continue
			}
			for _, ins := range b.Instrs {
				if !r.reach[ins] {
					r.reach[ins] = true
					changed = true
				}
				switch x := ins.(type) {
				case *ssa.Phi:
					v := nodeVal{}
					for i, e := range x.Edges {
						if edges[[2]*ssa.BasicBlock{b.Preds[i], b}] {
							v = joinNode(v, get(e))
						}
					}
					set(x, v)
				case *ssa.MakeInterface:
					v := get(x.X)
					if v.k == 'n' {
						set(x, v)
					} else if v.k != 0 {
						set(x, anyVal)
					}
				case *ssa.ChangeInterface:
					set(x, get(x.X))
				case *ssa.ChangeType:
					set(x, get(x.X))
				case *ssa.TypeAssert:
					v := get(x.X)
					if v.k == 0 {
						break
					}
					out := anyVal
					ok := anyVal
					if v.k == 'n' {
						if !types.IsInterface(x.AssertedType) {
							nf.kinds[x.AssertedType.String()] = x.AssertedType
						}
						hit := types.Identical(x.AssertedType, v.typ)
						if it, is := x.AssertedType.Underlying().(*types.Interface); is {
							hit = types.Implements(v.typ, it)
						}
						if hit {
							out, ok = v, boolVal(true)
						} else {
							out, ok = nodeVal{k: 'c', c: ssa.NewConst(nil, x.AssertedType)}, boolVal(false)
							if _, basic := x.AssertedType.Underlying().(*types.Basic); basic {
								out = anyVal
							}
							if !x.CommaOk {
								continue blocks // panics
							}
						}
					}
					if x.CommaOk {
						set(x, nodeVal{k: 't', tuple: []nodeVal{out, ok}})
					} else {
						set(x, out)
					}
				case *ssa.Extract:
					v := get(x.Tuple)
					switch {
					case v.k == 't' && x.Index < len(v.tuple):
						set(x, v.tuple[x.Index])
					case v.k != 0:
						set(x, anyVal)
					}
				case *ssa.UnOp:
					v := get(x.X)
					if x.Op == token.NOT && v.k == 'c' && v.c.Value != nil && v.c.Value.Kind() == constant.Bool {
						set(x, boolVal(!constant.BoolVal(v.c.Value)))
					} else if x.Op == token.NOT && v.k == 0 {
					} else {
						set(x, anyVal)
					}
				case *ssa.BinOp:
					a, d := get(x.X), get(x.Y)
					if a.k == 0 || d.k == 0 {
						break
					}
					if y, ok := x.Y.(*ssa.Call); ok && x.Op == token.LSS && d.k == 'c' && d.c.Value != nil && isLenCall(y) {
						// no index is below the length of an empty list
						if n, exact := constant.Int64Val(d.c.Value); exact && n == 0 {
							set(x, boolVal(false))
							break
						}
					}
					set(x, nodeBin(x.Op, a, d))
				case *ssa.Call:
					set(x, nf.call(x, calls, get, depth))
				case *ssa.Defer:
					nf.call(x, calls, get, depth)
				case *ssa.Go:
					nf.call(x, calls, get, depth)
				case *ssa.MakeClosure:
					if f, ok := x.Fn.(*ssa.Function); ok && len(f.Blocks) > 0 && depth < 12 {
						calls[x] = nf.run(f, nil, depth+1)
					}
					set(x, anyVal)
				case *ssa.If:
					v := get(x.Cond)
					if v.k == 0 {
						break
					}
					if v.k == 'c' && v.c.Value != nil && v.c.Value.Kind() == constant.Bool {
						if constant.BoolVal(v.c.Value) {
							mark(b, 0)
						} else {
							mark(b, 1)
						}
						break
					}
					mark(b, 0)
					mark(b, 1)
				case *ssa.Jump:
					mark(b, 0)
				case *ssa.Return:
					for i, y := range x.Results {
						for len(r.rets) <= i {
							r.rets = append(r.rets, nodeVal{})
						}
						r.rets[i] = joinNode(r.rets[i], get(y))
					}
				default:
					if v, ok := ins.(ssa.Value); ok {
						set(v, anyVal)
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	for _, x := range calls {
		r.callee = append(r.callee, x)
	}
	r.busy = false
	return r
}

func isLenCall(x *ssa.Call) bool {
	b, ok := x.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

func nodeBin(op token.Token, a, b nodeVal) nodeVal {
	isNil := func(v nodeVal) bool { return v.k == 'c' && v.c.Value == nil }
	if op == token.EQL || op == token.NEQ {
		switch {
		case a.k == 'n' && isNil(b) || b.k == 'n' && isNil(a):
			return boolVal(op == token.NEQ)
		case isNil(a) && isNil(b):
			return boolVal(op == token.EQL)
		}
	}
	if a.k == 'c' && b.k == 'c' && a.c.Value != nil && b.c.Value != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.c.Value.Kind() == b.c.Value.Kind() && (a.c.Value.Kind() != constant.Bool || op == token.EQL || op == token.NEQ) {
				return boolVal(constant.Compare(a.c.Value, op, b.c.Value))
			}
		}
	}
	return anyVal
}

func (nf *nodeFlow) call(x ssa.CallInstruction, calls map[ssa.Instruction]*nodeRun, get func(ssa.Value) nodeVal, depth int) nodeVal {
	com := x.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		// no list has no elements
		switch v := get(com.Args[0]); {
		case v.k == 0:
			return v
		case v.k == 'c' && v.c.Value == nil:
			return nodeVal{k: 'c', c: ssa.NewConst(constant.MakeInt64(0), types.Typ[types.Int])}
		}
	}
	f := com.StaticCallee()
	if f == nil || com.IsInvoke() || nf.stop[f] || !nf.p.InModule(f) || len(f.Blocks) == 0 || depth > 12 {
		return anyVal
	}
	var args []nodeVal
	for _, a := range com.Args {
		v := get(a)
		if v.k == 0 {
			return nodeVal{} // not reached yet
		}
		if v.k == 't' {
			v = anyVal
		}
		args = append(args, v)
	}
	r := nf.run(f, args, depth+1)
	calls[x] = r
	if r.busy {
		return anyVal
	}
	if len(r.rets) == 0 {
		if f.Signature.Results().Len() == 0 {
			return anyVal
		}
		return nodeVal{} // does not return
	}
	if len(r.rets) == 1 {
		return r.rets[0]
	}
	return nodeVal{k: 't', tuple: r.rets}
}

// each visits the instructions reached by the run, in this function and the ones it calls.
func (r *nodeRun) each(visit func(ssa.Instruction)) {
	seen := map[*nodeRun]bool{}
	var rec func(r *nodeRun)
	rec = func(r *nodeRun) {
		if seen[r] {
			return
		}
		seen[r] = true
		for ins := range r.reach {
			visit(ins)
		}
		for _, c := range r.callee {
			rec(c)
		}
	}
	rec(r)
}

// nodeKinds are the kinds of syntax nodes of go/ast.
func (p *Program) nodeKinds() []types.Type {
	var out []types.Type
	pk := p.depPackage("go/ast")
	if pk == nil {
		return nil
	}
	it, _ := pk.Scope().Lookup("Node").Type().Underlying().(*types.Interface)
	for _, n := range pk.Scope().Names() {
		tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() || it == nil {
			continue
		}
		if _, st := tn.Type().Underlying().(*types.Struct); !st {
			continue
		}
		if t := types.NewPointer(tn.Type()); types.Implements(t, it) {
			out = append(out, t)
		}
	}
	return out
}

// stateWrite: the instruction changes something that outlives the function.
func stateWrite(ins ssa.Instruction) bool {
	var addr ssa.Value
	switch x := ins.(type) {
	case *ssa.Store:
		addr = x.Addr
	case *ssa.MapUpdate:
		addr = x.Map
	default:
		return false
	}
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.UnOp:
			addr = x.X
		case *ssa.Slice:
			addr = x.X
		case *ssa.Parameter, *ssa.Global, *ssa.FreeVar:
			return true
		default:
			return false
		}
	}
}

func nodeName(t types.Type) string {
	return strings.TrimPrefix(strings.TrimPrefix(t.String(), "*"), "go/")
}
