package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is a sparse conditional propagation over SSA: an interprocedural abstract
// interpretation whose values are Terms (constants, symbols, finite joins, top) and whose memory is
// a map from abstract addresses to Terms.  A branch whose condition folds to a constant keeps only
// that edge; any other branch keeps both and joins.  Rules seed it with facts about the predicates
// they quantify over (Hook) and then query the pruned supergraph of executable instructions.

// Mem is the abstract store.
type Mem map[*Term]*Term

// CallInfo describes the callee and arguments seen at an executed call site.
type CallInfo struct {
	Fn     *ssa.Function // static or resolved callee (may be nil)
	Method *types.Func   // interface method for unresolved invokes
	Name   string        // qualified name, builtins as "builtin.append"
	Recv   *Term
	Args   []*Term // as passed; the receiver of a static method call is Args[0]
	Var    []*Term // elements of the variadic slice when known
	VarOK  bool
	Result *Term
	Child  bool // inlined
}

// Frame is one (context-sensitive) activation of a function.
type Frame struct {
	Fn       *ssa.Function
	Key      string
	Parent   *Frame
	Site     ssa.Instruction
	env      map[ssa.Value]*Term
	free     []*Term
	reach    map[*ssa.BasicBlock]bool
	succ     map[*ssa.BasicBlock][]bool
	out      map[*ssa.BasicBlock]Mem
	children map[ssa.Instruction][]*Frame
	calls    map[ssa.Instruction]*CallInfo
	stores   map[ssa.Instruction][2]*Term
	returned bool
	Ret      *Term
	phiCount map[ssa.Value]int
	memSeen  map[*ssa.BasicBlock]map[*Term]map[*Term]bool
	depth    int
}

// Engine holds the configuration of one abstract run.
type Engine struct {
	P        *Program
	Hook     func(*Term) *Term           // rewrites a freshly computed term (seeding)
	Inline   func(fn *ssa.Function) bool // which resolved callees to analyse in place
	Opaque   func(ci *CallInfo) *Term    // models a call that is not inlined (nil: default)
	PreInit  Mem                         // initial memory
	MaxDepth int
	UseInit  bool // loads of never-reassigned package variables see their initialiser
	Pure     func(name string) bool
	steps    int
	Err      error
	exitMem  Mem
}

type undecided struct{ msg string }

func NewEngine(p *Program) *Engine {
	return &Engine{
		P:        p,
		Inline:   func(fn *ssa.Function) bool { return p.InModule(fn) },
		MaxDepth: 14,
		UseInit:  true,
	}
}

// Result is a finished abstract run.
type Result struct {
	E    *Engine
	Root *Frame
	Ret  *Term // joined return value (tuple for several results); nil if no return is reachable
	Mem  Mem
}

// Run analyses fn with the given abstract arguments (nil entries become symbols).
func (e *Engine) Run(fn *ssa.Function, args ...*Term) *Result {
	if fn == nil || fn.Blocks == nil {
		panic(undecided{"function to analyse not found"})
	}
	e.steps = 0
	mem := Mem{}
	for k, v := range e.PreInit {
		mem[k] = v
	}
	fr := e.newFrame(fn, nil, nil, args, nil, "")
	ret, out := e.eval(fr, mem)
	return &Result{E: e, Root: fr, Ret: ret, Mem: out}
}

func (e *Engine) hook(t *Term) *Term {
	if e.Hook == nil || t == nil {
		return t
	}
	switch t.Op {
	case "const", "nil", "top":
		return t
	}
	if t.Op == "un" && t.Obj == "!" {
		if r := e.Hook(t.Args[0]); r != nil {
			return mkNot(r)
		}
	}
	if r := e.Hook(t); r != nil {
		return r
	}
	return t
}

func (e *Engine) newFrame(fn *ssa.Function, parent *Frame, site ssa.Instruction, args, free []*Term, key string) *Frame {
	fr := &Frame{
		Fn: fn, Parent: parent, Site: site, Key: key, free: free,
		env: map[ssa.Value]*Term{}, reach: map[*ssa.BasicBlock]bool{}, succ: map[*ssa.BasicBlock][]bool{},
		out: map[*ssa.BasicBlock]Mem{}, children: map[ssa.Instruction][]*Frame{}, calls: map[ssa.Instruction]*CallInfo{},
		stores: map[ssa.Instruction][2]*Term{}, phiCount: map[ssa.Value]int{}, memSeen: map[*ssa.BasicBlock]map[*Term]map[*Term]bool{},
	}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	for i, p := range fn.Params {
		var a *Term
		if i < len(args) {
			a = args[i]
		}
		if a == nil {
			a = e.hook(mk("param", p, "", p.Type()))
		}
		fr.env[p] = a
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			fr.env[fv] = free[i]
		} else {
			fr.env[fv] = mk("freevar", fv, "", fv.Type())
		}
	}
	return fr
}

func copyMem(m Mem) Mem {
	n := make(Mem, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func memEq(a, b Mem) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// eval runs the intraprocedural fixpoint of a frame (callees are evaluated in place).
func (e *Engine) eval(fr *Frame, in Mem) (*Term, Mem) {
	order := rpo(fr.Fn)
	var ret *Term
	var retMem Mem
	for iter := 0; ; iter++ {
		if iter > 60 {
			panic(undecided{"no fixpoint in " + FuncName(fr.Fn)})
		}
		changed := false
		ret, retMem = nil, nil
		fr.returned = false
		for _, b := range order {
			var m Mem
			if b.Index == 0 {
				m = copyMem(in)
			}
			for _, p := range b.Preds {
				if !e.edgeTaken(fr, p, b) {
					continue
				}
				pm := fr.out[p]
				if m == nil {
					m = copyMem(pm)
				} else {
					m = e.joinMem(fr, b, m, pm)
				}
			}
			if m == nil {
				continue
			}
			if !fr.reach[b] {
				fr.reach[b] = true
				changed = true
			}
			e.steps++
			if e.steps > 400000 {
				panic(undecided{"analysis budget exceeded at " + FuncName(fr.Fn)})
			}
			stop := false
			for _, ins := range b.Instrs {
				if e.step(fr, b, ins, m, &changed) {
					stop = true
					break
				}
			}
			succ := make([]bool, len(b.Succs))
			if !stop {
				switch last := b.Instrs[len(b.Instrs)-1].(type) {
				case *ssa.If:
					c := e.val(fr, last.Cond)
					for _, a := range alts(c) {
						if isTrue(a) {
							succ[0] = true
						} else if isFalse(a) {
							succ[1] = true
						} else {
							succ[0], succ[1] = true, true
						}
					}
				case *ssa.Jump:
					succ[0] = true
				case *ssa.Return:
					fr.returned = true
					var r *Term
					if len(last.Results) == 1 {
						r = e.val(fr, last.Results[0])
					} else {
						as := make([]*Term, len(last.Results))
						for i, x := range last.Results {
							as[i] = e.val(fr, x)
						}
						r = mk("tuple", nil, "", nil, as...)
					}
					ret = e.joinRet(fr, ret, r)
					if retMem == nil {
						retMem = copyMem(m)
					} else {
						retMem = e.joinMem(fr, nil, retMem, m)
					}
				default:
					for i := range succ {
						succ[i] = true
					}
				}
			}
			old := fr.succ[b]
			if old != nil {
				for i := range succ {
					succ[i] = succ[i] || old[i]
				}
			}
			if old == nil || fmt.Sprint(old) != fmt.Sprint(succ) {
				fr.succ[b] = succ
				changed = true
			}
			if om, ok := fr.out[b]; !ok || !memEq(om, m) {
				fr.out[b] = m
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	fr.Ret = ret
	if !fr.returned {
		return nil, nil
	}
	return ret, retMem
}

func (e *Engine) joinRet(fr *Frame, a, b *Term) *Term {
	if a == nil {
		return b
	}
	if a.Op == "tuple" && b.Op == "tuple" && len(a.Args) == len(b.Args) {
		as := make([]*Term, len(a.Args))
		for i := range as {
			as[i] = joinT("ret:"+fr.Key+FuncName(fr.Fn)+fmt.Sprint(i), a.Args[i], b.Args[i])
		}
		return mk("tuple", nil, "", nil, as...)
	}
	return joinT("ret:"+fr.Key+FuncName(fr.Fn), a, b)
}

func (e *Engine) edgeTaken(fr *Frame, p, b *ssa.BasicBlock) bool {
	s := fr.succ[p]
	if s == nil {
		return false
	}
	for i, x := range p.Succs {
		if x == b && s[i] {
			return true
		}
	}
	return false
}

func (e *Engine) joinMem(fr *Frame, b *ssa.BasicBlock, m, n Mem) Mem {
	out := Mem{}
	do := func(k *Term) {
		if _, ok := out[k]; ok {
			return
		}
		v1, v2 := e.load(m, k), e.load(n, k)
		if v1 == v2 {
			out[k] = v1
			return
		}
		j := joinT("mem:"+fr.Key+fmt.Sprintf("%p:%d", b, k.id), v1, v2)
		if b != nil {
			seen := fr.memSeen[b]
			if seen == nil {
				seen = map[*Term]map[*Term]bool{}
				fr.memSeen[b] = seen
			}
			if seen[k] == nil {
				seen[k] = map[*Term]bool{}
			}
			seen[k][j] = true
			if len(seen[k]) > 14 {
				j = mkTop("mem:" + fr.Key + fmt.Sprintf("%p:%d", b, k.id))
			}
		}
		out[k] = j
	}
	for k := range m {
		do(k)
	}
	for k := range n {
		do(k)
	}
	return out
}

func rootOf(a *Term) *Term {
	for a.Op == "fieldaddr" || a.Op == "indexaddr" || a.Op == "mapaddr" {
		a = a.Args[0]
	}
	return a
}

// load reads an abstract address.
func (e *Engine) load(m Mem, a *Term) *Term {
	if v, ok := m[a]; ok {
		return v
	}
	switch a.Op {
	case "phi":
		var r *Term
		for _, x := range a.Args {
			r = joinT("load:"+a.key, r, e.load(m, x))
		}
		return r
	case "fieldaddr":
		f := a.Obj.(*types.Var)
		// a struct stored (or havocked) as a whole
		if v, ok := m[a.Args[0]]; ok {
			return e.hook(e.field(v, f))
		}
		if rootOf(a).Op == "alloc" && e.knownStorage(m, a.Args[0]) {
			if _, isAlloc := a.Args[0], true; isAlloc {
				base := e.load(m, a.Args[0])
				if base.Op == "top" || base.Op == "call" || base.Op == "phi" {
					return e.hook(e.field(base, f))
				}
			}
			return zeroOf(f.Type())
		}
		return e.hook(e.field(e.load(m, a.Args[0]), f))
	case "indexaddr":
		base := a.Args[0]
		idx := a.Args[1]
		if base.Op == "phi" {
			var r *Term
			for _, x := range base.Args {
				r = joinT("load:"+a.key, r, e.load(m, mk("indexaddr", nil, "", a.Typ, x, idx)))
			}
			return r
		}
		if base.Op == "alloc" {
			var r *Term
			star := idx.Op != "const"
			for k, v := range m {
				if k.Op == "indexaddr" && k.Args[0] == base {
					if star || k.Args[1] == idx || k.Args[1].Op != "const" {
						r = joinT("load:"+a.key, r, v)
					}
				}
			}
			if r == nil && star {
				// structs stored field by field
				r = e.aggregateElems(m, base, a)
			}
			if r != nil {
				return r
			}
			if st, ok := a.Typ.(types.Type); ok && st != nil {
				return e.aggregate(m, a, st)
			}
			return mkTop("elem:" + a.key)
		}
		if idx.Op == "const" {
			return e.hook(mk("index", nil, "", a.Typ, base, idx))
		}
		return e.hook(mk("elem", nil, "", a.Typ, base))
	case "alloc":
		if t := allocElem(a); t != nil {
			return e.aggregate(m, a, t)
		}
		return mkTop("alloc:" + a.key)
	case "global":
		g := a.Obj.(*ssa.Global)
		if e.UseInit {
			if v := e.P.globalValue(g); v != nil {
				return e.hook(v)
			}
		}
		return e.hook(mk("deref", nil, "", g.Type().Underlying().(*types.Pointer).Elem(), a))
	}
	var t types.Type
	if a.Typ != nil {
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
	}
	return e.hook(mk("deref", nil, "", t, a))
}

func allocElem(a *Term) types.Type {
	if v, ok := a.Obj.(ssa.Value); ok {
		if p, ok := v.Type().Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	if _, ok := a.Obj.(string); ok && a.Typ != nil {
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

func (e *Engine) knownStorage(m Mem, a *Term) bool { return true }

// aggregate builds the value of a variable of type t from its separately stored parts.
func (e *Engine) aggregate(m Mem, a *Term, t types.Type) *Term {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		if at, ok := t.Underlying().(*types.Array); ok {
			_ = at
			return mk("arr", nil, "", t, a)
		}
		return zeroOf(t)
	}
	args := make([]*Term, st.NumFields())
	for i := range args {
		f := st.Field(i)
		fa := mk("fieldaddr", f, "", types.NewPointer(f.Type()), a)
		if v, ok := m[fa]; ok {
			args[i] = v
		} else if _, isStruct := f.Type().Underlying().(*types.Struct); isStruct {
			args[i] = e.aggregate(m, fa, f.Type())
		} else {
			args[i] = zeroOf(f.Type())
		}
	}
	return mk("struct", t, "", t, args...)
}

func (e *Engine) aggregateElems(m Mem, base, a *Term) *Term {
	// element structs initialised in place: indexaddr(base,i).f
	idx := map[*Term]bool{}
	for k := range m {
		if k.Op == "fieldaddr" && k.Args[0].Op == "indexaddr" && k.Args[0].Args[0] == base {
			idx[k.Args[0]] = true
		}
	}
	var r *Term
	for ia := range idx {
		if ia.Typ != nil {
			r = joinT("load:"+a.key, r, e.aggregate(m, ia, ia.Typ))
		}
	}
	return r
}

// field selects a field of a struct value.
func (e *Engine) field(v *Term, f *types.Var) *Term {
	switch v.Op {
	case "struct":
		if st, ok := v.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == f {
					return v.Args[i]
				}
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f.Name() {
					return v.Args[i]
				}
			}
		}
	case "phi":
		var r *Term
		for _, x := range v.Args {
			r = joinT("field:"+v.key+f.Name(), r, e.field(x, f))
		}
		return r
	case "zero":
		return zeroOf(f.Type())
	case "top":
		return mk("field", f, "", f.Type(), v)
	}
	return e.hook(mk("field", f, "", f.Type(), v))
}

// store writes an abstract address.
func (e *Engine) store(m Mem, a, v *Term) {
	if a.Op == "phi" {
		for _, x := range a.Args {
			e.store1(m, x, joinT("weak:"+x.key, e.load(m, x), v))
		}
		return
	}
	if a.Op == "indexaddr" && a.Args[1].Op != "const" {
		if old, ok := m[a]; ok {
			v = joinT("weak:"+a.key, old, v)
		}
	}
	e.store1(m, a, v)
}

func (e *Engine) store1(m Mem, a, v *Term) {
	for k := range m {
		if k != a && (k.Op == "fieldaddr" || k.Op == "indexaddr") && within(k, a) {
			delete(m, k)
		}
	}
	if v.Op == "struct" {
		if st, ok := v.Typ.Underlying().(*types.Struct); ok {
			delete(m, a)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				fa := mk("fieldaddr", f, "", types.NewPointer(f.Type()), a)
				e.store1(m, fa, v.Args[i])
			}
			return
		}
	}
	m[a] = v
}

func within(k, a *Term) bool {
	for k.Op == "fieldaddr" || k.Op == "indexaddr" {
		k = k.Args[0]
		if k == a {
			return true
		}
	}
	return false
}

func (e *Engine) set(fr *Frame, v ssa.Value, t *Term, changed *bool) {
	if fr.env[v] != t {
		fr.phiCount[v]++
		if fr.phiCount[v] > 25 {
			t = mkTop("widen:" + fr.Key + fmt.Sprintf("%p", v))
			if fr.env[v] == t {
				return
			}
		}
		fr.env[v] = t
		*changed = true
	}
}

// val evaluates an operand.
func (e *Engine) val(fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return zeroOf(x.Type())
			}
			if _, ok := x.Type().Underlying().(*types.Array); ok {
				return zeroOf(x.Type())
			}
			if _, ok := x.Type().Underlying().(*types.Basic); ok {
				return zeroOf(x.Type())
			}
			return mkNil()
		}
		return mkConst(x.Value, x.Type())
	case *ssa.Global:
		return mk("global", x, "", x.Type())
	case *ssa.Function:
		return mk("func", x, "", x.Type())
	case *ssa.Builtin:
		return mk("builtin", x.Name(), "", x.Type())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	return mkTop("undef:" + fr.Key + fmt.Sprintf("%p", v))
}

// Val is the final abstract value of v in the frame.
func (fr *Frame) Val(e *Engine, v ssa.Value) *Term { return e.val(fr, v) }

func (e *Engine) alloc(fr *Frame, v ssa.Value) *Term { return mk("alloc", v, fr.Key, v.Type()) }

// step executes one instruction; it returns true when control cannot continue past it.
func (e *Engine) step(fr *Frame, b *ssa.BasicBlock, ins ssa.Instruction, m Mem, changed *bool) bool {
	switch x := ins.(type) {
	case *ssa.Phi:
		var r *Term
		for i, p := range b.Preds {
			// duplicate predecessor edges: consult the edge
			if fr.succ[p] == nil {
				continue
			}
			taken := false
			cnt := 0
			for j := 0; j <= i; j++ {
				if b.Preds[j] == p {
					cnt++
				}
			}
			k := 0
			for si, s := range p.Succs {
				if s == b {
					k++
					if k == cnt && fr.succ[p][si] {
						taken = true
					}
				}
			}
			if !taken {
				continue
			}
			ev := x.Edges[i]
			if _, isC := ev.(*ssa.Const); !isC {
				if _, known := fr.env[ev]; !known {
					switch ev.(type) {
					case *ssa.Global, *ssa.Function, *ssa.Builtin:
					default:
						continue
					}
				}
			}
			r = joinT("phi:"+fr.Key+fmt.Sprintf("%p", x), r, e.val(fr, ev))
		}
		if r == nil {
			r = mkTop("phi:" + fr.Key + fmt.Sprintf("%p", x))
		}
		e.set(fr, x, r, changed)
	case *ssa.Alloc:
		a := e.alloc(fr, x)
		for k := range m {
			if k == a || within(k, a) {
				delete(m, k)
			}
		}
		e.set(fr, x, a, changed)
	case *ssa.MakeMap, *ssa.MakeChan:
		v := x.(ssa.Value)
		a := e.alloc(fr, v)
		for k := range m {
			if k.Op == "mapaddr" && k.Args[0] == a {
				delete(m, k)
			}
		}
		e.set(fr, v, a, changed)
	case *ssa.MakeSlice:
		a := e.alloc(fr, x)
		for k := range m {
			if k == a || within(k, a) {
				delete(m, k)
			}
		}
		m[mk("lenof", nil, "", nil, a)] = e.val(fr, x.Len)
		e.set(fr, x, a, changed)
	case *ssa.MakeClosure:
		as := make([]*Term, len(x.Bindings))
		for i, bd := range x.Bindings {
			as[i] = e.val(fr, bd)
		}
		e.set(fr, x, mk("closure", x.Fn.(*ssa.Function), "", x.Type(), as...), changed)
	case *ssa.MakeInterface:
		v := e.val(fr, x.X)
		var r *Term
		for _, a := range alts(v) {
			r = joinT("mi:"+fr.Key+fmt.Sprintf("%p", x), r, mk("iface", x.X.Type(), "", x.Type(), a))
		}
		e.set(fr, x, r, changed)
	case *ssa.ChangeInterface:
		e.set(fr, x, e.val(fr, x.X), changed)
	case *ssa.ChangeType:
		e.set(fr, x, e.val(fr, x.X), changed)
	case *ssa.Convert:
		e.set(fr, x, e.convert(e.val(fr, x.X), x.X.Type(), x.Type()), changed)
	case *ssa.MultiConvert:
		e.set(fr, x, mk("conv", x.Type(), "", x.Type(), e.val(fr, x.X)), changed)
	case *ssa.SliceToArrayPointer:
		e.set(fr, x, mk("conv", x.Type(), "", x.Type(), e.val(fr, x.X)), changed)
	case *ssa.UnOp:
		v := e.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			e.set(fr, x, e.load(m, v), changed)
		case token.NOT:
			e.set(fr, x, e.hook(mkNot(v)), changed)
		case token.ARROW:
			r := mk("recv", nil, "", x.Type(), v)
			if x.CommaOk {
				r = mk("tuple", nil, "", nil, r, mk("recvok", x, fr.Key, types.Typ[types.Bool]))
			}
			e.set(fr, x, e.hook(r), changed)
		default:
			var r *Term
			for _, a := range alts(v) {
				var t *Term
				if isConst(a) {
					func() {
						defer func() { recover() }()
						t = mkConst(wrap(constant.UnaryOp(x.Op, a.C, 0), x.Type()), x.Type())
					}()
				}
				if t == nil {
					t = e.hook(mk("un", x.Op.String(), "", x.Type(), a))
				}
				r = joinT("un:"+fr.Key+fmt.Sprintf("%p", x), r, t)
			}
			e.set(fr, x, r, changed)
		}
	case *ssa.BinOp:
		t := binT(x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.Type(), x.X.Type())
		if t.Op == "phi" {
			var r *Term
			for _, a := range t.Args {
				r = joinT("bin:"+fr.Key+fmt.Sprintf("%p", x), r, e.hook(a))
			}
			t = r
		} else {
			t = e.hook(t)
		}
		e.set(fr, x, t, changed)
	case *ssa.FieldAddr:
		base := e.val(fr, x.X)
		f := fieldVar(x.X.Type(), x.Field)
		var r *Term
		for _, a := range alts(base) {
			r = joinT("fa:"+fr.Key+fmt.Sprintf("%p", x), r, mk("fieldaddr", f, "", x.Type(), a))
		}
		e.set(fr, x, r, changed)
	case *ssa.Field:
		f := fieldVar(x.X.Type(), x.Field)
		e.set(fr, x, e.field(e.val(fr, x.X), f), changed)
	case *ssa.IndexAddr:
		base := e.val(fr, x.X)
		idx := strip(e.val(fr, x.Index))
		if idx.Op != "const" {
			idx = mk("any", nil, "", nil)
		}
		et := x.Type().Underlying().(*types.Pointer).Elem()
		var r *Term
		for _, a := range alts(base) {
			if a.Op == "slice" {
				// a sub-slice: index position is relative, treat as any element
				a = a.Args[0]
				idx = mk("any", nil, "", nil)
			}
			r = joinT("ia:"+fr.Key+fmt.Sprintf("%p", x), r, mk("indexaddr", nil, "", et, a, idx))
		}
		e.set(fr, x, r, changed)
	case *ssa.Index:
		base := e.val(fr, x.X)
		idx := e.val(fr, x.Index)
		if s, ok := constStr(base); ok {
			if i, ok := constInt(idx); ok && i >= 0 && int(i) < len(s) {
				e.set(fr, x, mkInt(int64(s[i])), changed)
				break
			}
		}
		if base.Op == "arr" {
			if idx.Op != "const" {
				idx = mk("any", nil, "", nil)
			}
			e.set(fr, x, e.load(m, mk("indexaddr", nil, "", x.Type(), base.Args[0], idx)), changed)
			break
		}
		e.set(fr, x, e.hook(mk("index", nil, "", x.Type(), base, idx)), changed)
	case *ssa.Lookup:
		e.set(fr, x, e.lookup(fr, x, m), changed)
	case *ssa.Slice:
		base := e.val(fr, x.X)
		if x.Low == nil && x.High == nil && x.Max == nil {
			e.set(fr, x, base, changed)
			break
		}
		lo, hi := mkInt(0), mk("end", nil, "", nil)
		if x.Low != nil {
			lo = e.val(fr, x.Low)
		}
		if x.High != nil {
			hi = e.val(fr, x.High)
		}
		if s, ok := constStr(base); ok {
			l, ok1 := constInt(lo)
			h, ok2 := constInt(hi)
			if x.High == nil {
				h, ok2 = int64(len(s)), true
			}
			if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
				e.set(fr, x, mkString(s[l:h]), changed)
				break
			}
		}
		if base.Op == "alloc" {
			if _, isArr := allocElemT(base).(*types.Array); isArr && x.High != nil && lo == mkInt(0) {
				// make([]T, n) lowers to a slice of a fresh array
				if h, ok := constInt(hi); ok {
					m[mk("lenof", nil, "", nil, base)] = mkInt(h)
					e.set(fr, x, base, changed)
					break
				}
			}
		}
		e.set(fr, x, e.hook(mk("slice", nil, "", x.Type(), base, lo, hi)), changed)
	case *ssa.TypeAssert:
		e.set(fr, x, e.typeAssert(fr, x), changed)
	case *ssa.Extract:
		t := e.val(fr, x.Tuple)
		e.set(fr, x, e.extract(t, x.Index, x.Type()), changed)
	case *ssa.Range:
		e.set(fr, x, mk("range", nil, "", nil, e.val(fr, x.X)), changed)
	case *ssa.Next:
		it := e.val(fr, x.Iter)
		ok := mk("more", x, fr.Key, types.Typ[types.Bool])
		var k, v *Term
		var kt, vt types.Type
		if tp, ok := x.Type().(*types.Tuple); ok {
			kt, vt = tp.At(1).Type(), tp.At(2).Type()
		}
		if it.Op == "range" {
			base := it.Args[0]
			if !x.IsString && base.Op == "alloc" {
				for a, mv := range m {
					if a.Op == "mapaddr" && a.Args[0] == base {
						k = joinT("rk:"+fr.Key, k, a.Args[1])
						v = joinT("rv:"+fr.Key, v, mv)
					}
				}
			}
			if k == nil {
				k = mk("mapkey", nil, "", kt, base)
				v = mk("mapval", nil, "", vt, base)
			}
		} else {
			k, v = mkTop("next"+fr.Key), mkTop("next"+fr.Key)
		}
		e.set(fr, x, mk("tuple", nil, "", nil, ok, e.hook(k), e.hook(v)), changed)
	case *ssa.Select:
		n := 2
		for _, st := range x.States {
			if st.Dir == types.RecvOnly {
				n++
			}
		}
		as := make([]*Term, n)
		for i := range as {
			as[i] = mkTop(fmt.Sprintf("select:%s%p:%d", fr.Key, x, i))
		}
		e.set(fr, x, mk("tuple", nil, "", nil, as...), changed)
	case *ssa.Store:
		a, v := e.val(fr, x.Addr), e.val(fr, x.Val)
		e.store(m, a, v)
		fr.stores[x] = [2]*Term{a, v}
	case *ssa.MapUpdate:
		mp, k, v := e.val(fr, x.Map), e.val(fr, x.Key), e.val(fr, x.Value)
		for _, a := range alts(mp) {
			ad := mk("mapaddr", nil, "", nil, a, strip(k))
			if old, ok := m[ad]; ok && !isConst(strip(k)) {
				m[ad] = joinT("mu:"+fr.Key+fmt.Sprintf("%p", x), old, v)
			} else {
				m[ad] = v
			}
		}
		fr.stores[x] = [2]*Term{mk("mapaddr", nil, "", nil, mp, strip(k)), v}
	case *ssa.Send:
		fr.stores[x] = [2]*Term{e.val(fr, x.Chan), e.val(fr, x.X)}
	case *ssa.Call:
		t, cont := e.call(fr, x, &x.Call, m)
		if !cont {
			return true
		}
		e.set(fr, x, t, changed)
	case *ssa.Go:
		e.recordCall(fr, x, &x.Call, m)
	case *ssa.Defer:
		e.recordCall(fr, x, &x.Call, m)
	case *ssa.Panic:
		return true
	}
	return false
}

func allocElemT(a *Term) types.Type {
	if t := allocElem(a); t != nil {
		return t.Underlying()
	}
	return nil
}

func fieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i)
}

func (e *Engine) convert(v *Term, from, to types.Type) *Term {
	if v.Op == "phi" {
		return distribute(v, func(x *Term) *Term { return e.convert(x, from, to) })
	}
	if isConst(v) {
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 {
			switch {
			case isIntType(fb) && isIntType(tb):
				return mkConst(wrap(v.C, to), to)
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return v
			case isIntType(fb) && tb.Info()&types.IsFloat != 0:
				return mkConst(constant.ToFloat(v.C), to)
			}
		}
	}
	return mk("conv", to, "", to, v)
}

func (e *Engine) extract(t *Term, i int, typ types.Type) *Term {
	switch t.Op {
	case "tuple":
		return t.Args[i]
	case "phi":
		var r *Term
		for _, a := range t.Args {
			r = joinT("ex:"+t.key+fmt.Sprint(i), r, e.extract(a, i, typ))
		}
		return r
	}
	return e.hook(mk("extract", fmt.Sprint(i), "", typ, t))
}

func (e *Engine) typeAssert(fr *Frame, x *ssa.TypeAssert) *Term {
	v := e.val(fr, x.X)
	one := func(a *Term) *Term {
		var val, ok *Term
		if a.Op == "iface" {
			dyn := a.Obj.(types.Type)
			if types.IsInterface(x.AssertedType) {
				if types.Implements(dyn, x.AssertedType.Underlying().(*types.Interface)) {
					val, ok = a, mkBool(true)
				} else {
					val, ok = zeroOf(x.AssertedType), mkBool(false)
				}
			} else if types.Identical(dyn, x.AssertedType) {
				val, ok = a.Args[0], mkBool(true)
			} else {
				val, ok = zeroOf(x.AssertedType), mkBool(false)
			}
		} else if a.Op == "nil" {
			val, ok = zeroOf(x.AssertedType), mkBool(false)
		} else {
			val = e.hook(mk("tassert", x.AssertedType, "", x.AssertedType, a))
			ok = e.hook(mk("tassertok", x.AssertedType, "", types.Typ[types.Bool], a))
		}
		if x.CommaOk {
			return mk("tuple", nil, "", nil, val, ok)
		}
		return val
	}
	var r *Term
	for _, a := range alts(v) {
		t := one(a)
		if r == nil {
			r = t
		} else if r.Op == "tuple" && t.Op == "tuple" {
			r = mk("tuple", nil, "", nil, joinT("ta0"+fr.Key, r.Args[0], t.Args[0]), joinT("ta1"+fr.Key, r.Args[1], t.Args[1]))
		} else {
			r = joinT("ta"+fr.Key, r, t)
		}
	}
	return r
}

func (e *Engine) lookup(fr *Frame, x *ssa.Lookup, m Mem) *Term {
	base, k := e.val(fr, x.X), strip(e.val(fr, x.Index))
	if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
		// string index
		if s, ok := constStr(base); ok {
			if i, ok := constInt(k); ok && i >= 0 && int(i) < len(s) {
				return mkInt(int64(s[i]))
			}
		}
		return e.hook(mk("index", nil, "", x.Type(), base, k))
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	var val, ok *Term
	for _, b := range alts(base) {
		for _, kk := range alts(k) {
			v1, o1 := e.lookup1(fr, b, kk, vt, m, x)
			val = joinT("lk:"+fr.Key+fmt.Sprintf("%p", x), val, v1)
			ok = joinT("lo:"+fr.Key+fmt.Sprintf("%p", x), ok, o1)
		}
	}
	if x.CommaOk {
		return mk("tuple", nil, "", nil, val, ok)
	}
	return val
}

func (e *Engine) lookup1(fr *Frame, base, k *Term, vt types.Type, m Mem, x *ssa.Lookup) (*Term, *Term) {
	if base.Op == "nil" {
		return zeroOf(vt), mkBool(false)
	}
	if base.Op == "alloc" {
		if v, ok := m[mk("mapaddr", nil, "", nil, base, k)]; ok && !e.mapSummarised(m, base) {
			return v, mkBool(true)
		}
		allConst := isConst(k)
		var r *Term
		for a, v := range m {
			if a.Op == "mapaddr" && a.Args[0] == base {
				if !isConst(a.Args[1]) {
					allConst = false
				}
				r = joinT("lk1:"+fr.Key+fmt.Sprintf("%p", x), r, v)
			}
		}
		if allConst || r == nil {
			return zeroOf(vt), mkBool(false)
		}
		return joinT("lk2:"+fr.Key+fmt.Sprintf("%p", x), r, zeroOf(vt)), e.hook(mk("has", nil, "", types.Typ[types.Bool], base, k))
	}
	return e.hook(mk("mapget", nil, "", vt, base, k)), e.hook(mk("has", nil, "", types.Typ[types.Bool], base, k))
}

func (e *Engine) mapSummarised(m Mem, base *Term) bool { return false }

// --- calls -----------------------------------------------------------------------------------

func qualified(f *types.Func) string { return f.FullName() }

func (e *Engine) recordCall(fr *Frame, ins ssa.Instruction, c *ssa.CallCommon, m Mem) (*CallInfo, []callee) {
	ci := &CallInfo{}
	var cs []callee
	args := make([]*Term, len(c.Args))
	for i, a := range c.Args {
		args[i] = e.val(fr, a)
	}
	ci.Args = args
	if c.IsInvoke() {
		ci.Recv = e.val(fr, c.Value)
		ci.Method = c.Method
		ci.Name = qualified(c.Method)
		for _, a := range alts(ci.Recv) {
			if a.Op == "iface" {
				if fn := e.P.SSA.LookupMethod(a.Obj.(types.Type), c.Method.Pkg(), c.Method.Name()); fn != nil {
					cs = append(cs, callee{fn, append([]*Term{a.Args[0]}, args...), nil})
					continue
				}
			}
			cs = append(cs, callee{})
		}
	} else {
		switch f := c.Value.(type) {
		case *ssa.Builtin:
			ci.Name = "builtin." + f.Name()
		case *ssa.Function:
			ci.Fn = f
			ci.Name = funcQual(f)
			cs = append(cs, callee{f, args, nil})
		default:
			v := e.val(fr, c.Value)
			ci.Recv = v
			for _, a := range alts(v) {
				switch a.Op {
				case "func":
					cs = append(cs, callee{a.Obj.(*ssa.Function), args, nil})
				case "closure":
					fn := a.Obj.(*ssa.Function)
					cs = append(cs, callee{fn, args, a.Args})
				default:
					cs = append(cs, callee{})
				}
			}
			if len(cs) == 1 && cs[0].fn != nil {
				ci.Fn = cs[0].fn
				ci.Name = funcQual(ci.Fn)
			} else {
				ci.Name = "dynamic"
			}
		}
	}
	if sig := c.Signature(); sig.Variadic() && len(args) > 0 {
		ci.Var, ci.VarOK = e.sliceElems(m, args[len(args)-1])
	} else if ci.Name == "builtin.append" && len(args) == 2 {
		ci.Var, ci.VarOK = e.sliceElems(m, args[1])
	}
	fr.calls[ins] = ci
	return ci, cs
}

type callee struct {
	fn   *ssa.Function
	args []*Term
	free []*Term
}

func funcQual(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok && o != nil {
		return o.FullName()
	}
	if f.Origin() != nil {
		if o, ok := f.Origin().Object().(*types.Func); ok && o != nil {
			return o.FullName()
		}
	}
	return f.String()
}

// sliceElems lists the elements of a slice built from a local array.
func (e *Engine) sliceElems(m Mem, s *Term) ([]*Term, bool) {
	if s.Op == "nil" {
		return nil, true
	}
	if s.Op != "alloc" {
		return nil, false
	}
	at, ok := allocElemT(s).(*types.Array)
	if !ok {
		return nil, false
	}
	n := at.Len()
	if n > 4096 {
		return nil, false
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = e.load(m, mk("indexaddr", nil, "", at.Elem(), s, mkInt(int64(i))))
	}
	return out, true
}

var noReturn = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true,
	"(*log.Logger).Panic": true, "(*log.Logger).Panicf": true, "(*log.Logger).Panicln": true,
	"runtime.Goexit": true,
}

func (e *Engine) call(fr *Frame, ins ssa.Instruction, c *ssa.CallCommon, m Mem) (*Term, bool) {
	ci, cs := e.recordCall(fr, ins, c, m)
	rt := callResultType(c)
	if strings.HasPrefix(ci.Name, "builtin.") {
		t := e.builtin(fr, ins, ci, m, rt)
		if ci.Name == "builtin.panic" {
			return nil, false
		}
		ci.Result = t
		return t, true
	}
	if noReturn[ci.Name] {
		return nil, false
	}
	var res *Term
	cont := false
	var outMem Mem
	fr.children[ins] = nil
	for i, cl := range cs {
		if cl.fn != nil && cl.fn.Blocks != nil && fr.depth < e.MaxDepth && e.Inline(cl.fn) && !e.onStack(fr, cl.fn) {
			key := fmt.Sprintf("%s/%p.%d", fr.Key, ins, i)
			ch := e.newFrame(cl.fn, fr, ins, cl.args, cl.free, key)
			fr.children[ins] = append(fr.children[ins], ch)
			ci.Child = true
			r, om := e.eval(ch, m)
			if !ch.returned {
				continue
			}
			cont = true
			res = e.joinRetSite(fr, ins, res, r)
			if outMem == nil {
				outMem = om
			} else {
				outMem = e.joinMem(fr, nil, outMem, om)
			}
			continue
		}
		cont = true
		sub := *ci
		if cl.fn != nil {
			sub.Fn = cl.fn
			sub.Args = cl.args
			if ci.Method != nil {
				sub.Name = funcQual(cl.fn)
			}
		}
		om := copyMem(m)
		r := e.opaque(fr, ins, &sub, om, rt)
		res = e.joinRetSite(fr, ins, res, r)
		if outMem == nil {
			outMem = om
		} else {
			outMem = e.joinMem(fr, nil, outMem, om)
		}
	}
	if len(cs) == 0 {
		cont = true
		outMem = m
		res = e.opaque(fr, ins, ci, m, rt)
	}
	if !cont {
		return nil, false
	}
	if outMem != nil {
		for k := range m {
			if _, ok := outMem[k]; !ok {
				delete(m, k)
			}
		}
		for k, v := range outMem {
			m[k] = v
		}
	}
	ci.Result = res
	return res, true
}

func (e *Engine) joinRetSite(fr *Frame, ins ssa.Instruction, a, b *Term) *Term {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.Op == "tuple" && b.Op == "tuple" && len(a.Args) == len(b.Args) {
		as := make([]*Term, len(a.Args))
		for i := range as {
			as[i] = joinT(fmt.Sprintf("rs:%s%p:%d", fr.Key, ins, i), a.Args[i], b.Args[i])
		}
		return mk("tuple", nil, "", nil, as...)
	}
	return joinT(fmt.Sprintf("rs:%s%p", fr.Key, ins), a, b)
}

func callResultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

func (e *Engine) onStack(fr *Frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.Parent {
		if f.Fn == fn {
			return true
		}
	}
	return false
}

// purePkgs are packages whose functions depend only on their arguments' values.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "path": true, "unicode": true, "cmp": true, "math": true, "html": true, "errors": true, "slices": true, "maps": true, "regexp": true, "path/filepath": true, "fmt": true, "sort": true, "bytes": true}

func (e *Engine) opaque(fr *Frame, ins ssa.Instruction, ci *CallInfo, m Mem, rt types.Type) *Term {
	if e.Opaque != nil {
		if t := e.Opaque(ci); t != nil {
			return t
		}
	}
	if t := foldCall(ci); t != nil {
		return t
	}
	var obj any = ci.Name
	ctx := ""
	var pkg string
	if ci.Fn != nil {
		obj = ci.Fn
		if p := FuncPkg(ci.Fn); p != nil {
			pkg = p.Path()
		}
	} else if ci.Method != nil {
		obj = ci.Method
	}
	args := ci.Args
	if ci.Fn == nil && ci.Recv != nil {
		args = append([]*Term{ci.Recv}, args...)
	}
	pure := purePkgs[pkg] || (e.Pure != nil && e.Pure(ci.Name))
	if !pure {
		ctx = fr.Key + fmt.Sprintf("/%p", ins)
		// objects of this analysis handed to unknown code may be written by it
		for _, a := range args {
			e.havoc(m, a, ctx)
		}
	}
	cargs := args
	if ci.VarOK && len(args) > 0 {
		cargs = append(append([]*Term{}, args[:len(args)-1]...), ci.Var...)
	}
	return e.hook(mk("call", obj, ctx, rt, cargs...))
}

func (e *Engine) havoc(m Mem, a *Term, ctx string) {
	for _, x := range alts(a) {
		y := strip(x)
		switch y.Op {
		case "alloc":
			v, ok := y.Obj.(*ssa.Alloc)
			if !ok {
				continue
			}
			if _, isArr := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); isArr {
				continue // variadic argument arrays and literals are read by callees
			}
			for k := range m {
				if within(k, y) {
					delete(m, k)
				}
			}
			m[y] = mkTop("havoc:" + ctx + y.key)
		}
	}
}

func (e *Engine) builtin(fr *Frame, ins ssa.Instruction, ci *CallInfo, m Mem, rt types.Type) *Term {
	switch ci.Name {
	case "builtin.len", "builtin.cap":
		a := ci.Args[0]
		return e.lenOf(m, a)
	case "builtin.append":
		elems := ci.Var
		if !ci.VarOK {
			if len(ci.Args) > 1 {
				elems = []*Term{mk("spread", nil, "", nil, ci.Args[1])}
			}
		}
		return appendT(fr.Key+fmt.Sprintf("%p", ins), ci.Args[0], elems, rt)
	case "builtin.min", "builtin.max", "builtin.copy", "builtin.recover":
		return e.hook(mk("call", ci.Name, fr.Key+fmt.Sprintf("/%p", ins), rt, ci.Args...))
	case "builtin.delete":
		if len(ci.Args) == 2 {
			delete(m, mk("mapaddr", nil, "", nil, ci.Args[0], strip(ci.Args[1])))
		}
	}
	return mk("unit", nil, "", nil)
}

// appendT models append.  A straight-line append keeps element order; a list built over several
// iterations becomes (base, set of element values) with Obj "many".
func appendT(site string, base *Term, elems []*Term, typ types.Type) *Term {
	if base.Op == "top" {
		return base
	}
	as := alts(base)
	if len(as) == 1 && !(base.Op == "append") {
		return mk("append", nil, "", typ, append([]*Term{base}, elems...)...)
	}
	if base.Op == "append" && base.Obj == nil && len(base.Args)+len(elems) < 40 {
		// order is known only when the same site is not revisited
		for _, x := range elems {
			for _, y := range base.Args[1:] {
				if x == y {
					goto many
				}
			}
		}
		return mk("append", nil, "", typ, append(append([]*Term{}, base.Args...), elems...)...)
	}
many:
	var b *Term
	set := map[int]*Term{}
	for _, a := range as {
		if a.Op == "append" {
			b = joinT("app:"+site, b, a.Args[0])
			for _, x := range a.Args[1:] {
				set[x.id] = x
			}
		} else {
			b = joinT("app:"+site, b, a)
		}
	}
	for _, x := range elems {
		set[x.id] = x
	}
	if len(set) > 64 {
		return mkTop("append:" + site)
	}
	ids := make([]int, 0, len(set))
	for id := range set {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	args := []*Term{b}
	for _, id := range ids {
		args = append(args, set[id])
	}
	return mk("append", "many", "", typ, args...)
}

func (e *Engine) lenOf(m Mem, a *Term) *Term {
	if s, ok := constStr(a); ok {
		return mkInt(int64(len(s)))
	}
	switch a.Op {
	case "nil":
		return mkInt(0)
	case "phi":
		return distribute(a, func(x *Term) *Term { return e.lenOf(m, x) })
	case "alloc":
		if l, ok := m[mk("lenof", nil, "", nil, a)]; ok {
			return l
		}
		if at, ok := allocElemT(a).(*types.Array); ok {
			return mkInt(at.Len())
		}
		if _, isMap := a.Typ.Underlying().(*types.Map); isMap {
			n := int64(0)
			for k := range m {
				if k.Op == "mapaddr" && k.Args[0] == a {
					if !isConst(k.Args[1]) {
						return e.hook(mk("len", nil, "", types.Typ[types.Int], a))
					}
					n++
				}
			}
			return mkInt(n)
		}
	case "append":
		if len(a.Args) > 1 && a.Args[1].Op != "spread" && a.Obj == nil {
			if n, ok := constInt(e.lenOf(m, a.Args[0])); ok {
				return mkInt(n + int64(len(a.Args)-1))
			}
		}
	}
	return e.hook(mk("len", nil, "", types.Typ[types.Int], strip(a)))
}

// foldCall evaluates a few pure standard-library functions on constants.
func foldCall(ci *CallInfo) *Term {
	strs := func() ([]string, bool) {
		var out []string
		for _, a := range ci.Args {
			s, ok := constStr(strip(a))
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	switch ci.Name {
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold", "strings.TrimPrefix", "strings.TrimSuffix":
		if len(ci.Args) == 1 && ci.Args[0].Op == "phi" {
			return distribute(ci.Args[0], func(x *Term) *Term {
				c := *ci
				c.Args = []*Term{x}
				if r := foldCall(&c); r != nil {
					return r
				}
				return mkTop("fold")
			})
		}
		s, ok := strs()
		if !ok {
			return nil
		}
		switch ci.Name {
		case "strings.ToLower":
			return mkString(strings.ToLower(s[0]))
		case "strings.ToUpper":
			return mkString(strings.ToUpper(s[0]))
		case "strings.TrimSpace":
			return mkString(strings.TrimSpace(s[0]))
		case "strings.HasPrefix":
			return mkBool(strings.HasPrefix(s[0], s[1]))
		case "strings.HasSuffix":
			return mkBool(strings.HasSuffix(s[0], s[1]))
		case "strings.Contains":
			return mkBool(strings.Contains(s[0], s[1]))
		case "strings.EqualFold":
			return mkBool(strings.EqualFold(s[0], s[1]))
		case "strings.TrimPrefix":
			return mkString(strings.TrimPrefix(s[0], s[1]))
		case "strings.TrimSuffix":
			return mkString(strings.TrimSuffix(s[0], s[1]))
		}
	case "fmt.Sprintf":
		// known texts put together
		if len(ci.Args) == 0 {
			return nil
		}
		for _, a := range ci.Args {
			y := strip(a)
			if _, ok := constStr(y); !ok || y.Typ == nil || !types.Identical(types.Default(y.Typ), types.Typ[types.String]) {
				return nil
			}
		}
		ps, ok := sprintfPieces(ci.Args[0], ci.Args[1:])
		if !ok {
			return nil
		}
		out := ""
		for _, q := range ps {
			if q.val != nil {
				return nil
			}
			out += q.lit
		}
		return mkString(out)
	}
	return nil
}
