package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (g *Gate) set(fr *gframe, v ssa.Value, x GV) { fr.env[v] = x }

// step evaluates one instruction other than phis and control transfers.
func (g *Gate) step(fr *gframe, ins ssa.Instruction, st *gstate) {
	mem := st.mem
	if g.Accesses {
		g.access(fr, ins, st)
	}
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.RunDefers:
		g.runDefers(fr, st)
	case *ssa.Alloc:
		a := mk("alloc", x, fr.key, x.Type())
		for k := range mem {
			if k == a || within(k, a) {
				delete(mem, k)
			}
		}
		g.set(fr, x, gvT(a))
	case *ssa.MakeMap, *ssa.MakeChan:
		v := x.(ssa.Value)
		a := mk("alloc", v, fr.key, v.Type())
		for k := range mem {
			if k.Op == "mapaddr" && k.Args[0] == a {
				delete(mem, k)
			}
		}
		delete(mem, mk("mapdirty", nil, "", nil, a))
		if mc, ok := x.(*ssa.MakeChan); ok {
			mem[mk("capof", nil, "", nil, a)] = g.val(fr, mc.Size)
		}
		g.set(fr, v, gvT(a))
	case *ssa.MakeSlice:
		n := g.val(fr, x.Len).single()
		if n != nil && n == mkInt(0) {
			g.set(fr, x, gvT(mk("emptylist", nil, "", x.Type())))
			break
		}
		a := mk("alloc", x, fr.key, x.Type())
		for k := range mem {
			if k == a || within(k, a) {
				delete(mem, k)
			}
		}
		mem[mk("lenof", nil, "", nil, a)] = g.val(fr, x.Len)
		g.set(fr, x, gvT(a))
	case *ssa.MakeClosure:
		as := make([]*Term, len(x.Bindings))
		for i, bd := range x.Bindings {
			as[i] = g.val(fr, bd).term()
		}
		g.set(fr, x, gvT(mk("closure", x.Fn.(*ssa.Function), "", x.Type(), as...)))
	case *ssa.MakeInterface:
		g.set(fr, x, g.apply1(g.val(fr, x.X), func(a *Term) GV { return gvT(mk("iface", x.X.Type(), "", x.Type(), a)) }))
	case *ssa.ChangeInterface:
		g.set(fr, x, g.val(fr, x.X))
	case *ssa.ChangeType:
		g.set(fr, x, g.val(fr, x.X))
	case *ssa.Convert:
		g.set(fr, x, g.apply1(g.val(fr, x.X), func(a *Term) GV { return gvT((&Engine{}).convert(a, x.X.Type(), x.Type())) }))
	case *ssa.MultiConvert:
		g.set(fr, x, g.apply1(g.val(fr, x.X), func(a *Term) GV { return gvT(mk("conv", x.Type(), "", x.Type(), a)) }))
	case *ssa.SliceToArrayPointer:
		g.set(fr, x, g.apply1(g.val(fr, x.X), func(a *Term) GV { return gvT(mk("conv", x.Type(), "", x.Type(), a)) }))
	case *ssa.UnOp:
		v := g.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			g.set(fr, x, g.apply1(v, func(a *Term) GV { return g.load(mem, a) }))
		case token.NOT:
			g.set(fr, x, gvBool(bNot(v.bool())))
		case token.ARROW:
			r := mk("recv", nil, fmt.Sprintf("%s/%p", fr.key, x), x.Type(), v.term())
			if n := len(g.loops); n > 0 && g.loops[n-1].Op == "chanrange" && g.loops[n-1].Args[0] == v.term() {
				et := x.Type()
				if tp, ok := et.(*types.Tuple); ok {
					et = tp.At(0).Type()
				}
				r = elemOf(g.loops[n-1], et)
			}
			g.event(fr, st, &GEvent{Kind: "recv", Name: "recv", Args: []GV{v}, Result: r, Ins: x})
			if x.CommaOk {
				r = mk("tuple", nil, "", nil, r, mk("recvok", x, fr.key, types.Typ[types.Bool]))
			}
			g.set(fr, x, g.hook(r))
		default:
			g.set(fr, x, g.apply1(v, func(a *Term) GV {
				if isConst(a) {
					if t := foldUn(x, a); t != nil {
						return gvT(t)
					}
				}
				return g.hook(mk("un", x.Op.String(), "", x.Type(), a))
			}))
		}
	case *ssa.BinOp:
		a, b := g.val(fr, x.X), g.val(fr, x.Y)
		g.set(fr, x, g.apply2(a, b, func(p, q *Term) GV { return g.bin(x.Op, p, q, x.Type(), x.X.Type()) }))
	case *ssa.FieldAddr:
		f := fieldVar(x.X.Type(), x.Field)
		g.set(fr, x, g.apply1(g.val(fr, x.X), func(a *Term) GV { return gvT(mk("fieldaddr", f, "", x.Type(), a)) }))
	case *ssa.Field:
		f := fieldVar(x.X.Type(), x.Field)
		g.set(fr, x, g.apply1(g.val(fr, x.X), func(a *Term) GV { return g.field(a, f) }))
	case *ssa.IndexAddr:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		if bv := g.val(fr, x.X); len(bv.L) > 1 {
			if i := g.val(fr, x.Index).single(); i != nil && i.Op == "idx" && stripRev(i.Args[0]) == bv.term() {
				g.set(fr, x, gvT(mk("indexaddr", nil, "", et, bv.term(), i)))
				break
			}
		}
		g.set(fr, x, g.apply2(g.val(fr, x.X), g.val(fr, x.Index), func(a, i *Term) GV {
			i = strip(i)
			if a.Op == "slice" {
				if lo, ok := constInt(a.Args[1]); ok {
					if j, ok := constInt(i); ok {
						return gvT(mk("indexaddr", nil, "", et, a.Args[0], mkInt(lo+j)))
					}
				}
			}
			return gvT(mk("indexaddr", nil, "", et, a, i))
		}))
	case *ssa.Index:
		g.set(fr, x, g.apply2(g.val(fr, x.X), g.val(fr, x.Index), func(a, i *Term) GV {
			i = strip(i)
			if s, ok := constStr(a); ok {
				if j, ok := constInt(i); ok && j >= 0 && int(j) < len(s) {
					return gvT(mkInt(int64(s[j])))
				}
			}
			return g.index(a, i, x.Type())
		}))
	case *ssa.Lookup:
		g.set(fr, x, g.lookup(fr, x, mem))
	case *ssa.Slice:
		g.set(fr, x, g.slice(fr, x, mem))
	case *ssa.TypeAssert:
		g.set(fr, x, g.apply1(g.val(fr, x.X), func(a *Term) GV { return g.tassert(x, a) }))
	case *ssa.Extract:
		g.set(fr, x, g.apply1(g.val(fr, x.Tuple), func(t *Term) GV {
			if t.Op == "tuple" {
				return gvT(t.Args[x.Index])
			}
			return g.hook(mk("extract", fmt.Sprint(x.Index), "", x.Type(), t))
		}))
	case *ssa.Range:
		g.set(fr, x, g.apply1(g.val(fr, x.X), func(a *Term) GV { return gvT(mk("range", nil, "", nil, a)) }))
	case *ssa.Next:
		it := g.val(fr, x.Iter).term()
		var kt, vt types.Type
		if tp, ok := x.Type().(*types.Tuple); ok {
			kt, vt = tp.At(1).Type(), tp.At(2).Type()
		}
		ok := mk("more", x, fr.key, types.Typ[types.Bool])
		k, v := mk("nextkey", x, fr.key, kt), mk("nextval", x, fr.key, vt)
		if at, has := g.mapAt[x]; has && it.Op == "range" {
			if es, known := g.mapEntries(mem, it.Args[0]); known {
				if at >= len(es) {
					g.set(fr, x, gvT(mk("tuple", nil, "", nil, mkBool(false), k, v)))
				} else {
					g.set(fr, x, gvT(mk("tuple", nil, "", nil, mkBool(true), es[at].Args[1], mem[es[at]].term())))
				}
				return
			}
		}
		if it.Op == "range" && !x.IsString {
			L := mk("maprange", nil, "", nil, it.Args[0])
			k, v = mk("mapkey", nil, "", kt, L), mk("mapval", nil, "", vt, L)
		}
		g.set(fr, x, gvT(mk("tuple", nil, "", nil, ok, g.hook(k).term(), g.hook(v).term())))
	case *ssa.Select:
		n := 2
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				n++
			}
		}
		as := make([]*Term, n)
		for i := range as {
			var t types.Type
			if tp, ok := x.Type().(*types.Tuple); ok && i < tp.Len() {
				t = tp.At(i).Type()
			}
			as[i] = mk("select", fmt.Sprint(i), fmt.Sprintf("%s/%p", fr.key, x), t)
		}
		// the chosen case: one fresh atom per case, the last alternative (or the default) is the rest
		rest := bT
		var idx GV
		nr := 2
		for i, s := range x.States {
			c := rest
			if !x.Blocking || i+1 < len(x.States) {
				k := "selsend"
				if s.Dir == types.RecvOnly {
					k = "selrecv"
				}
				at := mk(k, fmt.Sprint(i), fmt.Sprintf("%s/%p", fr.key, x), types.Typ[types.Bool], g.val(fr, s.Chan).term())
				c = bAnd(rest, gvT(at).bool())
				rest = bAnd(rest, bNot(c))
			}
			idx.L = append(idx.L, gl{c, mkConst(constant.MakeInt64(int64(i)), types.Typ[types.Int])})
			if s.Dir == types.SendOnly {
				g.event(fr, &gstate{bAnd(st.g, c), st.mem}, &GEvent{Kind: "send", Name: "select-send", Args: []GV{g.val(fr, s.Chan), g.val(fr, s.Send)}, Ins: x})
			} else {
				var t types.Type
				if tp, ok := x.Type().(*types.Tuple); ok {
					t = tp.At(nr).Type()
				}
				as[nr] = mk("recv", nil, fmt.Sprintf("%s/%p", fr.key, x), t, g.val(fr, s.Chan).term())
				nr++
				g.event(fr, &gstate{bAnd(st.g, c), st.mem}, &GEvent{Kind: "recv", Name: "select-recv", Args: []GV{g.val(fr, s.Chan)}, Result: as[nr-1], Ins: x})
			}
		}
		if !x.Blocking {
			idx.L = append(idx.L, gl{rest, mkConst(constant.MakeInt64(-1), types.Typ[types.Int])})
		}
		as[0] = idx.term()
		g.set(fr, x, gvT(mk("tuple", nil, "", nil, as...)))
	case *ssa.Store:
		a, v := g.val(fr, x.Addr), g.val(fr, x.Val)
		g.event(fr, st, &GEvent{Kind: "store", Name: "store", Args: []GV{a, v}, Ins: x})
		g.store(st, a, v)
	case *ssa.MapUpdate:
		mp, k, v := g.val(fr, x.Map), g.val(fr, x.Key), g.val(fr, x.Value)
		g.event(fr, st, &GEvent{Kind: "mapstore", Name: "mapstore", Args: []GV{mp, k, v}, Ins: x})
		ad := g.apply2(mp, k, func(m, k *Term) GV { return gvT(mk("mapaddr", nil, "", nil, m, strip(k))) })
		g.storeMap(st, ad, v)
	case *ssa.Send:
		g.event(fr, st, &GEvent{Kind: "send", Name: "send", Args: []GV{g.val(fr, x.Chan), g.val(fr, x.X)}, Ins: x})
	case *ssa.Call:
		v := g.call(fr, x, &x.Call, st)
		g.set(fr, x, v)
	case *ssa.Go:
		e, _ := g.resolve(fr, x, &x.Call, st)
		e.Kind = "go"
		g.event(fr, st, e)
	case *ssa.Defer:
		e, cs := g.resolve(fr, x, &x.Call, st)
		e.Kind = "defer"
		g.event(fr, st, e)
		if _, ok := x.Call.Value.(*ssa.MakeClosure); ok && len(cs) == 1 && cs[0].fn != nil && cs[0].fn.Blocks != nil && !asksPanic(cs[0].fn) {
			fr.defers = append(fr.defers, gdefer{st.g, x, cs[0].fn, cs[0].args, cs[0].free})
		}
	default:
		panic(undecided{fmt.Sprintf("instruction %T not modelled", ins)})
	}
}

func foldUn(x *ssa.UnOp, a *Term) (t *Term) {
	defer func() {
		if recover() != nil {
			t = nil
		}
	}()
	return mkConst(wrap(constant.UnaryOp(x.Op, a.C, 0), x.Type()), x.Type())
}

func (g *Gate) storeMap(st *gstate, addr GV, v GV) {
	for _, a := range addr.L {
		nv := v
		if len(addr.L) > 1 {
			old, ok := st.mem[a.t]
			if !ok {
				old = gvT(mk("absent", nil, "", nil))
			}
			nv = gvIte(a.g, v, old)
		}
		st.mem[a.t] = nv
	}
}

// lookup reads a map: explicit updates first, the unknown rest symbolically.
func (g *Gate) lookup(fr *gframe, x *ssa.Lookup, mem GMem) GV {
	base, key := g.val(fr, x.X), g.val(fr, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		return g.apply2(base, key, func(a, i *Term) GV {
			i = strip(i)
			if s, ok := constStr(a); ok {
				if j, ok := constInt(i); ok && j >= 0 && int(j) < len(s) {
					return gvT(mkInt(int64(s[j])))
				}
			}
			return g.hook(mk("index", nil, "", x.Type(), a, i))
		})
	}
	return g.apply2(base, key, func(m, k *Term) GV {
		v, ok := g.mapRead(mem, m, strip(k), mt.Elem())
		if x.CommaOk {
			return gvT(mk("tuple", nil, "", nil, v.term(), bTerm(ok)))
		}
		return v
	})
}

func mapDirty(m *Term) *Term { return mk("mapdirty", nil, "", nil, m) }

func (g *Gate) mapRead(mem GMem, m, k *Term, et types.Type) (GV, BDD) {
	var v GV
	var ok BDD
	ver, dirty := "", false
	if d, has := mem[mapDirty(m)]; has {
		for _, a := range d.L {
			if a.t.Op != "clean" {
				dirty = true
				ver += a.t.Ctx
			}
		}
	}
	switch {
	case m.Op == "nil":
		return gvT(zeroOf(et)), bF
	case m.Op == "alloc" && !dirty:
		v, ok = gvT(zeroOf(et)), bF
	default:
		v, ok = g.hook(mk("mapget", nil, ver, et, m, k)), g.hook(mk("has", nil, ver, types.Typ[types.Bool], m, k)).bool()
	}
	keys := map[*Term]bool{}
	for a := range mem {
		if a.Op == "mapaddr" && a.Args[0] == m {
			keys[a] = true
		}
	}
	for _, a := range sortedTerms(keys) {
		same := g.eq1(a.Args[1], k)
		if same == bF {
			continue
		}
		w := mem[a]
		absent := w.when(func(t *Term) bool { return t.Op == "absent" })
		c := bAnd(same, bNot(absent))
		v = gvIte(c, w, v)
		ok = bOr(ok, c)
		// a deleted entry
		del := bAnd(same, w.when(func(t *Term) bool { return t.Op == "absent" && t.Ctx == "del" }))
		v = gvIte(del, gvT(zeroOf(et)), v)
		ok = bAnd(ok, bNot(del))
	}
	return v, ok
}

func (g *Gate) slice(fr *gframe, x *ssa.Slice, mem GMem) GV {
	base := g.val(fr, x.X)
	if x.Low == nil && x.High == nil && x.Max == nil {
		if b := base.single(); b != nil && b.Op == "alloc" {
			if at, isArr := allocElemT(b).(*types.Array); isArr && at.Len() == 0 {
				return gvT(mk("emptylist", nil, "", x.Type()))
			}
		}
		return base
	}
	lo, hi := mkInt(0), mk("end", nil, "", nil)
	if x.Low != nil {
		lo = g.val(fr, x.Low).term()
	}
	if x.High != nil {
		hi = g.val(fr, x.High).term()
	}
	return g.apply1(base, func(b *Term) GV {
		if s, ok := constStr(b); ok {
			l, ok1 := constInt(lo)
			h, ok2 := constInt(hi)
			if x.High == nil {
				h, ok2 = int64(len(s)), true
			}
			if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
				return gvT(mkString(s[l:h]))
			}
		}
		if b.Op == "alloc" && lo == mkInt(0) && x.High != nil {
			if _, isArr := allocElemT(b).(*types.Array); isArr {
				if h, ok := constInt(hi); ok {
					if h == 0 {
						return gvT(mk("emptylist", nil, "", x.Type()))
					}
					mem[mk("lenof", nil, "", nil, b)] = gvT(mkInt(h))
					return gvT(b)
				}
			}
		}
		if lo == mkInt(0) && x.High == nil && x.Max == nil {
			return gvT(b)
		}
		if hi == mkInt(0) && lo == mkInt(0) && x.Max == nil {
			return gvT(mk("emptylist", nil, "", x.Type()))
		}
		if els, ok := g.sliceElems(mem, b); ok && g.Concrete && x.Max == nil {
			l, ok1 := constInt(lo)
			h, ok2 := constInt(hi)
			if x.High == nil {
				h, ok2 = int64(len(els)), true
			}
			if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(els)) {
				as := []*Term{mk("emptylist", nil, "", x.Type())}
				for _, e := range els[l:h] {
					as = append(as, e.term())
				}
				if len(as) == 1 {
					return gvT(as[0])
				}
				return gvT(mk("append", nil, "", x.Type(), as...))
			}
		}
		return g.hook(mk("slice", nil, "", x.Type(), b, lo, hi))
	})
}

func (g *Gate) tassert(x *ssa.TypeAssert, a *Term) GV {
	var val, ok *Term
	switch {
	case a.Op == "iface":
		dyn := a.Obj.(types.Type)
		val, ok = zeroOf(x.AssertedType), mkBool(false)
		if types.IsInterface(x.AssertedType) {
			if types.Implements(dyn, x.AssertedType.Underlying().(*types.Interface)) {
				val, ok = a, mkBool(true)
			}
		} else if types.Identical(dyn, x.AssertedType) {
			val, ok = a.Args[0], mkBool(true)
		}
	case a.Op == "nil":
		val, ok = zeroOf(x.AssertedType), mkBool(false)
	default:
		val = g.hook(mk("tassert", x.AssertedType, "", x.AssertedType, a)).term()
		ok = bTerm(g.hook(mk("tassertok", x.AssertedType, "", types.Typ[types.Bool], a)).bool())
	}
	if x.CommaOk {
		// what is taken without asking is nothing unless the value is of that type
		if okB := gvT(ok).bool(); okB == bF {
			val = zeroOf(x.AssertedType)
		} else if okB != bT && !asksOk(x) {
			val = gvNorm([]gl{{okB, val}, {bNot(okB), zeroOf(x.AssertedType)}}).term()
		}
		return gvT(mk("tuple", nil, "", nil, val, ok))
	}
	return gvT(val)
}

// asksOk: whether there is a value of the type is looked at.
func asksOk(x *ssa.TypeAssert) bool {
	for _, r := range *x.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 && len(*e.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// --- calls ---------------------------------------------------------------------------------------

type gcallee struct {
	g    BDD
	fn   *ssa.Function
	args []GV
	free []GV
	recv *Term
}

func (g *Gate) resolve(fr *gframe, ins ssa.Instruction, c *ssa.CallCommon, st *gstate) (*GEvent, []gcallee) {
	e := &GEvent{Kind: "call", Ins: ins}
	args := make([]GV, len(c.Args))
	for i, a := range c.Args {
		args[i] = g.val(fr, a)
	}
	e.Args = args
	var cs []gcallee
	if c.IsInvoke() {
		e.Recv = g.val(fr, c.Value)
		e.Method = c.Method
		e.Name = c.Method.FullName()
		for _, a := range e.Recv.L {
			if a.t.Op == "iface" {
				if fn := g.P.SSA.LookupMethod(a.t.Obj.(types.Type), c.Method.Pkg(), c.Method.Name()); fn != nil {
					cs = append(cs, gcallee{a.g, fn, append([]GV{gvT(a.t.Args[0])}, args...), nil, a.t})
					continue
				}
			}
			cs = append(cs, gcallee{a.g, nil, args, nil, a.t})
		}
	} else {
		switch f := c.Value.(type) {
		case *ssa.Builtin:
			e.Name = "builtin." + f.Name()
		case *ssa.Function:
			e.Fn = f
			e.Name = funcQual(f)
			cs = append(cs, gcallee{bT, f, args, nil, nil})
		default:
			v := g.val(fr, c.Value)
			e.Recv = v
			e.Name = "dynamic"
			for _, a := range v.L {
				switch a.t.Op {
				case "func":
					cs = append(cs, gcallee{a.g, a.t.Obj.(*ssa.Function), args, nil, nil})
				case "closure":
					free := make([]GV, len(a.t.Args))
					for i, x := range a.t.Args {
						free[i] = gvT(x)
					}
					cs = append(cs, gcallee{a.g, a.t.Obj.(*ssa.Function), args, free, nil})
				default:
					cs = append(cs, gcallee{a.g, nil, args, nil, a.t})
				}
			}
			if len(cs) == 1 && cs[0].fn != nil {
				e.Fn = cs[0].fn
				e.Name = funcQual(e.Fn)
			}
		}
	}
	if sig := c.Signature(); sig.Variadic() && len(args) > 0 {
		e.Var, e.VarOK = g.sliceElems(st.mem, args[len(args)-1].term())
	} else if e.Name == "builtin.append" && len(args) == 2 {
		e.Var, e.VarOK = g.sliceElems(st.mem, args[1].term())
	}
	return e, cs
}

func (g *Gate) sliceElems(mem GMem, s *Term) ([]GV, bool) {
	switch s.Op {
	case "nil", "emptylist":
		return nil, true
	case "append":
		if isEmptyList(s.Args[0]) {
			var out []GV
			for _, a := range s.Args[1:] {
				if a.Op == "spread" {
					return nil, false
				}
				out = append(out, gvT(a))
			}
			return out, true
		}
	case "alloc":
		at, ok := allocElemT(s).(*types.Array)
		if !ok || at.Len() > 4096 {
			return nil, false
		}
		n := at.Len()
		if l, ok := mem[mk("lenof", nil, "", nil, s)]; ok {
			if t := l.single(); t != nil {
				if v, ok := constInt(t); ok && v < n {
					n = v
				}
			}
		}
		out := make([]GV, n)
		for i := range out {
			out[i] = g.load(mem, mk("indexaddr", nil, "", at.Elem(), s, mkInt(int64(i))))
		}
		return out, true
	}
	return nil, false
}

func (g *Gate) onStack(fr *gframe, fn *ssa.Function) bool {
	n := 0
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			if n++; n > g.Recurse {
				return true
			}
		}
	}
	return false
}

func packResults(rets []GV) GV {
	switch len(rets) {
	case 0:
		return gvT(mk("unit", nil, "", nil))
	case 1:
		return rets[0]
	}
	as := make([]*Term, len(rets))
	for i, r := range rets {
		as[i] = r.term()
	}
	return gvT(mk("tuple", nil, "", nil, as...))
}

func (g *Gate) call(fr *gframe, ins ssa.Instruction, c *ssa.CallCommon, st *gstate) GV {
	e, cs := g.resolve(fr, ins, c, st)
	rt := callResultType(c)
	if strings.HasPrefix(e.Name, "builtin.") {
		return g.builtin(fr, ins, e, st, rt)
	}
	if noReturn[e.Name] {
		e.Kind = "exit"
		g.event(fr, st, e)
		st.g = bF
		return gvT(mk("undef", nil, "", nil))
	}
	if r, ok := g.higherOrder(fr, e, st); ok {
		return r
	}
	if len(cs) == 0 {
		cs = []gcallee{{bT, nil, e.Args, nil, nil}}
	}
	var res []gl
	var sts []*gstate
	alive := bF
	for i, cl := range cs {
		if bAnd(st.g, cl.g) == bF && len(cs) > 1 {
			continue
		}
		if cl.fn != nil && cl.fn.Blocks != nil && fr.depth < g.MaxDepth && g.Inline(cl.fn) && !g.onStack(fr, cl.fn) {
			key := fmt.Sprintf("%s/%p.%d", fr.key, ins, i)
			n := len(g.Events)
			given := make([]GV, len(cl.args))
			for j, a := range cl.args {
				if given[j] = a; j < len(cl.fn.Params) {
					if _, isMap := cl.fn.Params[j].Type().Underlying().(*types.Map); isMap {
						given[j] = a.only(bAnd(st.g, cl.g))
					}
				}
			}
			rets, rg, m := g.frame(cl.fn, fr, ins, given, cl.free, key, cloneMem(st.mem), fr.depth+1)
			cg := bAnd(st.g, cl.g)
			kept := g.Events[:n]
			for _, ev := range g.Events[n:] {
				ev.G = bAnd(ev.G, cg)
				if ev.G != bF {
					kept = append(kept, ev)
				}
			}
			g.Events = kept
			ag := bAnd(cl.g, rg)
			if ag == bF {
				continue
			}
			alive = bOr(alive, ag)
			sts = append(sts, &gstate{ag, m})
			res = append(res, packResults(rets).under(ag)...)
			continue
		}
		sub := *e
		if cl.fn != nil {
			sub.Fn = cl.fn
			sub.Args = cl.args
			sub.Name = funcQual(cl.fn)
		}
		if noReturn[sub.Name] {
			s2 := &gstate{bAnd(st.g, cl.g), st.mem}
			sub.Kind = "exit"
			g.event(fr, s2, &sub)
			continue
		}
		alive = bOr(alive, cl.g)
		s2 := &gstate{bAnd(st.g, cl.g), cloneMem(st.mem)}
		v := g.opaque(fr, ins, &sub, s2, rt)
		sts = append(sts, &gstate{cl.g, s2.mem})
		res = append(res, v.under(cl.g)...)
	}
	if alive == bF {
		st.g = bF
		return gvT(mk("undef", nil, "", nil))
	}
	st.g = bAnd(st.g, alive)
	m := g.mergeMem(sts, alive)
	for k := range st.mem {
		delete(st.mem, k)
	}
	for k, v := range m {
		st.mem[k] = v
	}
	return gvNorm(res).constrain(alive)
}

// only is the one value there can be under the condition, when there is only one.
func (v GV) only(c BDD) GV {
	if len(v.L) < 2 || c == bF {
		return v
	}
	var out []gl
	for _, a := range v.L {
		if bAnd(a.g, c) != bF {
			out = append(out, a)
		}
	}
	if len(out) != 1 {
		return v
	}
	return GV{L: out}
}

// asksPanic: the function looks for a panic.
func asksPanic(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// runDefers runs the functions written here that are to run when the function returns, the last one first.
func (g *Gate) runDefers(fr *gframe, st *gstate) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		cond := bAnd(st.g, d.g)
		if cond == bF || fr.depth >= g.MaxDepth || !g.Inline(d.fn) || g.onStack(fr, d.fn) || fr.info.inner[d.ins.Block()] != nil {
			continue
		}
		n := len(g.Events)
		_, rg, m := g.frame(d.fn, fr, d.ins, d.args, d.free, fmt.Sprintf("%s/%p.d", fr.key, d.ins), cloneMem(st.mem), fr.depth+1)
		kept := g.Events[:n]
		for _, ev := range g.Events[n:] {
			if ev.G = bAnd(ev.G, cond); ev.G != bF {
				kept = append(kept, ev)
			}
		}
		g.Events = kept
		sts := []*gstate{{bAnd(d.g, rg), m}}
		if rest := bNot(d.g); bAnd(st.g, rest) != bF {
			sts = append(sts, &gstate{rest, cloneMem(st.mem)})
		}
		alive := bF
		for _, s := range sts {
			alive = bOr(alive, s.g)
		}
		if st.g = bAnd(st.g, alive); st.g == bF {
			return
		}
		all := g.mergeMem(sts, alive)
		for k := range st.mem {
			delete(st.mem, k)
		}
		for k, v := range all {
			st.mem[k] = v
		}
	}
}

func (g *Gate) opaque(fr *gframe, ins ssa.Instruction, e *GEvent, st *gstate, rt types.Type) GV {
	g.event(fr, st, e)
	if g.Opaque != nil {
		if v, ok := g.Opaque(g, e); ok {
			e.Result = v.term()
			return v
		}
	}
	if v, ok := g.buffer(e, st); ok {
		e.Result = v.term()
		return v
	}
	var obj any = e.Name
	var pkg string
	if e.Fn != nil {
		obj = e.Fn
		if p := FuncPkg(e.Fn); p != nil {
			pkg = p.Path()
		}
	} else if e.Method != nil {
		obj = e.Method
	}
	args := make([]*Term, 0, len(e.Args)+1)
	if e.Fn == nil && len(e.Recv.L) > 0 {
		args = append(args, e.Recv.term())
	}
	as := e.Args
	if e.VarOK && len(as) > 0 {
		as = append(append([]GV{}, as[:len(as)-1]...), e.Var...)
	}
	for _, a := range as {
		args = append(args, a.term())
	}
	pure := purePkgs[pkg] || (g.Pure != nil && g.Pure(e.Name))
	ctx := ""
	if !pure {
		ctx = fr.key + fmt.Sprintf("/%p", ins)
		for _, a := range e.Args {
			for _, l := range a.L {
				g.havoc(st.mem, l.t, ctx)
			}
		}
		for _, l := range e.Recv.L {
			g.havoc(st.mem, l.t, ctx)
		}
	}
	// constant folding per alternative
	if pure {
		if e.Fn == nil && len(e.Recv.L) > 0 {
			as = append([]GV{e.Recv}, as...)
		}
		if v, ok := g.foldPure(e, as, rt, obj); ok {
			e.Result = v.term()
			return v
		}
	}
	v := g.hook(mk("call", obj, ctx, rt, args...))
	e.Result = v.term()
	return v
}

// foldPure distributes a pure call over its guarded arguments and folds constants.
func (g *Gate) foldPure(e *GEvent, as []GV, rt types.Type, obj any) (GV, bool) {
	n := 1
	for _, a := range as {
		n *= len(a.L)
		if n > 48 || len(a.L) == 0 {
			return GV{}, false
		}
	}
	var rec func(i int, ts []*Term) GV
	rec = func(i int, ts []*Term) GV {
		if i == len(as) {
			ci := &CallInfo{Fn: e.Fn, Name: e.Name, Args: append([]*Term{}, ts...)}
			if t := foldCall(ci); t != nil && t.Op != "phi" && t.Op != "top" {
				return gvT(t)
			}
			return g.hook(mk("call", obj, "", rt, append([]*Term{}, ts...)...))
		}
		return g.apply1(as[i], func(t *Term) GV { return rec(i+1, append(ts[:i:i], t)) })
	}
	return rec(0, make([]*Term, 0, len(as))), true
}

func (g *Gate) havoc(mem GMem, a *Term, ctx string) {
	y := strip(a)
	switch y.Op {
	case "closure":
		for _, b := range y.Args {
			g.havoc(mem, b, ctx)
		}
		return
	case "alloc":
	default:
		return
	}
	if v, ok := y.Obj.(*ssa.Alloc); ok {
		if _, isArr := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); isArr {
			return
		}
		for k := range mem {
			if within(k, y) {
				delete(mem, k)
			}
		}
		mem[y] = gvT(mk("havoc", nil, ctx, v.Type().Underlying().(*types.Pointer).Elem(), y))
		return
	}
	if _, ok := y.Obj.(*ssa.MakeMap); ok {
		for k := range mem {
			if k.Op == "mapaddr" && k.Args[0] == y {
				delete(mem, k)
			}
		}
		mem[mapDirty(y)] = gvT(mk("dirty", nil, ctx, nil))
	}
}

func (g *Gate) builtin(fr *gframe, ins ssa.Instruction, e *GEvent, st *gstate, rt types.Type) GV {
	switch e.Name {
	case "builtin.len", "builtin.cap":
		return g.apply1(e.Args[0], func(a *Term) GV { return g.lenOf(st.mem, a) })
	case "builtin.append":
		elems := e.Var
		if !e.VarOK {
			if len(e.Args) < 2 {
				return e.Args[0]
			}
			if g.Concrete && len(e.Args[1].L) > 1 {
				return g.apply1(e.Args[1], func(t *Term) GV {
					one := *e
					one.Args = []GV{e.Args[0], gvT(t)}
					one.Var, one.VarOK = g.sliceElems(st.mem, t)
					return g.builtin(fr, ins, &one, st, rt)
				})
			}
			elems = []GV{gvT(mk("spread", nil, "", nil, e.Args[1].term()))}
		}
		es := make([]*Term, len(elems))
		for i, x := range elems {
			es[i] = x.term()
		}
		if len(es) == 0 {
			return e.Args[0]
		}
		return g.apply1(e.Args[0], func(b *Term) GV {
			if b.Op != "append" && g.Concrete && !isEmptyList(b) {
				if old, ok := g.sliceElems(st.mem, b); ok {
					as := []*Term{mk("emptylist", nil, "", rt)}
					for _, x := range old {
						as = append(as, x.term())
					}
					b = mk("append", nil, "", rt, as...)
				}
			}
			if b.Op == "append" && len(b.Args)+len(es) < 200 {
				return gvT(mk("append", nil, "", rt, append(append([]*Term{}, b.Args...), es...)...))
			}
			return gvT(mk("append", nil, "", rt, append([]*Term{b}, es...)...))
		})
	case "builtin.panic":
		e.Kind = "panic"
		g.event(fr, st, e)
		st.g = bF
		return gvT(mk("undef", nil, "", nil))
	case "builtin.delete":
		g.event(fr, st, e)
		for _, m := range e.Args[0].L {
			for _, k := range e.Args[1].L {
				st.mem[mk("mapaddr", nil, "", nil, m.t, strip(k.t))] = gvT(mk("absent", nil, "del", nil))
			}
		}
		return gvT(mk("unit", nil, "", nil))
	case "builtin.close", "builtin.print", "builtin.println", "builtin.copy", "builtin.recover", "builtin.clear":
		g.event(fr, st, e)
	case "builtin.min", "builtin.max":
		if len(e.Args) == 2 {
			return g.apply2(e.Args[0], e.Args[1], func(a, b *Term) GV {
				c := g.lt(b, a, rt)
				if e.Name == "builtin.max" {
					c = g.lt(a, b, rt)
				}
				return gvIte(c, gvT(b), gvT(a))
			})
		}
	}
	args := make([]*Term, len(e.Args))
	for i, a := range e.Args {
		args[i] = a.term()
	}
	return g.hook(mk("call", e.Name, fr.key+fmt.Sprintf("/%p", ins), rt, args...))
}

// higherOrder models list searches of the standard library.
func (g *Gate) higherOrder(fr *gframe, e *GEvent, st *gstate) (GV, bool) {
	name := e.Name
	switch name {
	case "slices.Contains", "slices.ContainsFunc", "slices.IndexFunc", "slices.DeleteFunc":
	default:
		return GV{}, false
	}
	isTest := name == "slices.Contains" || name == "slices.ContainsFunc"
	if isTest && len(e.Args[0].L) > 1 {
		out := bF
		for _, a := range e.Args[0].L {
			one := *e
			one.Args = append([]GV{gvT(a.t)}, e.Args[1:]...)
			r, ok := g.higherOrder(fr, &one, st)
			if !ok {
				return GV{}, false
			}
			out = bOr(out, bAnd(a.g, r.bool()))
		}
		return gvBool(out), true
	}
	L := e.Args[0].single()
	if L == nil {
		return GV{}, false
	}
	if name == "slices.DeleteFunc" {
		// of a copy, so that the list itself stays as it is
		as, ok := isCallTo(L, "slices.Clone")
		if !ok && genericNameOf2Term(L, "slices.Clone") {
			as, ok = L.Args, true
		}
		if !ok || len(as) != 1 {
			return GV{}, false
		}
		L = as[0]
	}
	each := false
	pred := func(x GV) (BDD, bool) {
		if name == "slices.Contains" {
			return g.apply2(x, e.Args[1], func(a, b *Term) GV { return gvBool(g.eq1(a, b)) }).bool(), true
		}
		f := e.Args[1].single()
		if f == nil || (f.Op != "closure" && f.Op != "func") {
			return bF, false
		}
		fn := f.Obj.(*ssa.Function)
		if fn.Blocks == nil || fr.depth >= g.MaxDepth || g.onStack(fr, fn) {
			return bF, false
		}
		free := make([]GV, len(f.Args))
		for i, a := range f.Args {
			free[i] = gvT(a)
		}
		n, depth := len(g.Events), len(g.loops)
		if each {
			g.loops = append(g.loops, L)
		}
		rets, rg, _ := g.frame(fn, fr, e.Ins, []GV{x}, free, fmt.Sprintf("%s/%p.h", fr.key, e.Ins), cloneMem(st.mem), fr.depth+1)
		g.loops = g.loops[:depth]
		// what is called for each element
		kept := g.Events[:n]
		for _, ev := range g.Events[n:] {
			if each && ev.Kind == "call" {
				ev.G = bAnd(ev.G, st.g)
				kept = append(kept, ev)
			}
		}
		g.Events = kept
		if rg != bT || len(rets) != 1 {
			return bF, false
		}
		return rets[0].bool(), true
	}
	if es, ok := g.sliceElems(st.mem, L); ok {
		if !isTest {
			return GV{}, false
		}
		r := bF
		for _, x := range es {
			b, ok := pred(x)
			if !ok {
				return GV{}, false
			}
			r = bOr(r, b)
		}
		return gvBool(r), true
	}
	var et types.Type
	if s, ok := e.Fn.Signature.Params().At(0).Type().Underlying().(*types.Slice); ok {
		et = s.Elem()
	}
	each = isTest
	el := g.index(L, mk("idx", nil, "", types.Typ[types.Int], L), et)
	b, ok := pred(el)
	if !ok {
		return GV{}, false
	}
	switch name {
	case "slices.IndexFunc":
		met := g.existsB(L, b)
		return gvNorm([]gl{
			{met, mkCond("firstidx", b, "", types.Typ[types.Int], L)},
			{bNot(met), mkConst(constant.MakeInt64(-1), types.Typ[types.Int])},
		}), true
	case "slices.DeleteFunc":
		return g.hook(mkCond("comp", bNot(b), "", e.Args[0].L[0].t.Typ, mkNil(), L, el.term())), true
	}
	return gvBool(g.existsB(L, b)), true
}

// access records an operation that panics unless what it works on is there.
func (g *Gate) access(fr *gframe, ins ssa.Instruction, st *gstate) {
	ev := func(name string, args ...GV) {
		g.event(fr, st, &GEvent{Kind: "access", Name: name, Args: args, Ins: ins})
	}
	switch x := ins.(type) {
	case *ssa.FieldAddr:
		ev("nil", g.val(fr, x.X))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			ev("nil", g.val(fr, x.X))
		}
	case *ssa.Store:
		ev("nil", g.val(fr, x.Addr))
	case *ssa.IndexAddr:
		b := g.val(fr, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			ev("nil", b)
		}
		ev("index", b, g.val(fr, x.Index), g.lenGV(st.mem, b))
	case *ssa.Index:
		b := g.val(fr, x.X)
		ev("index", b, g.val(fr, x.Index), g.lenGV(st.mem, b))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			b := g.val(fr, x.X)
			ev("index", b, g.val(fr, x.Index), g.lenGV(st.mem, b))
		}
	case *ssa.Slice:
		b := g.val(fr, x.X)
		lo, hi := gvT(mkInt(0)), GV{}
		if x.Low != nil {
			lo = g.val(fr, x.Low)
		}
		l := g.lenGV(st.mem, b)
		if x.High != nil {
			hi = g.val(fr, x.High)
		} else {
			hi = l
		}
		ev("slice", b, lo, hi, l)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			a := g.val(fr, x.X)
			ev("assert", a, g.apply1(a, func(t *Term) GV {
				switch t.Op {
				case "iface":
					dyn := t.Obj.(types.Type)
					if types.IsInterface(x.AssertedType) {
						return gvT(mkBool(types.Implements(dyn, x.AssertedType.Underlying().(*types.Interface))))
					}
					return gvT(mkBool(types.Identical(dyn, x.AssertedType)))
				case "nil":
					return gvT(mkBool(false))
				}
				return g.hook(mk("tassertok", x.AssertedType, "", types.Typ[types.Bool], t))
			}))
		}
	case *ssa.MapUpdate:
		ev("mapnil", g.val(fr, x.Map))
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ev("div", g.val(fr, x.Y))
			}
		}
	case *ssa.SliceToArrayPointer:
		ev("slice", g.val(fr, x.X))
	}
}

func (g *Gate) lenGV(mem GMem, v GV) GV {
	return g.apply1(v, func(t *Term) GV { return g.lenOf(mem, t) })
}

// buffer follows the text put piece by piece into a local strings.Builder or bytes.Buffer, outside loops.
func (g *Gate) buffer(e *GEvent, st *gstate) (GV, bool) {
	if len(g.loops) > 0 || len(e.Args) == 0 {
		return GV{}, false
	}
	b := e.Args[0].single()
	if b == nil {
		return GV{}, false
	}
	b = strip(b)
	if v, ok := b.Obj.(*ssa.Alloc); b.Op != "alloc" || !ok || !inMemory(v.Type()) {
		return GV{}, false
	}
	str := types.Typ[types.String]
	var held GV
	zero := zeroOf(allocElem(b))
	for _, l := range g.load(st.mem, b).L {
		switch {
		case l.t == zero:
			held.L = append(held.L, gl{l.g, mkString("")})
		case l.t.Op == "buffer":
			held.L = append(held.L, gl{l.g, l.t.Args[0]})
		default:
			return GV{}, false
		}
	}
	switch strings.TrimPrefix(strings.TrimPrefix(e.Name, "(*strings.Builder)."), "(*bytes.Buffer).") {
	case "String":
		return gvNorm(held.L), true
	case "Grow":
		return gvT(mk("undef", nil, "", nil)), true
	case "WriteString":
		if len(e.Args) != 2 {
			return GV{}, false
		}
		text := g.apply2(gvNorm(held.L), e.Args[1], func(x, y *Term) GV {
			if isEmptyText(x) {
				return gvT(y)
			}
			if isEmptyText(y) {
				return gvT(x)
			}
			return g.bin(token.ADD, x, y, str, str)
		})
		st.mem[b] = g.apply1(text, func(x *Term) GV { return gvT(mk("buffer", nil, "", allocElem(b), x)) })
		n := mk("len", nil, "", types.Typ[types.Int], e.Args[1].term())
		return gvT(mk("tuple", nil, "", nil, n, mkNil())), true
	}
	return GV{}, false
}
