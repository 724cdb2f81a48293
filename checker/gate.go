package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The gated value graph: every SSA value of a function (callees included) is expressed as a guarded
// set of terms over the function's inputs, every effect (call, store, exit) is listed with the exact
// boolean condition under which it happens, and list traversals are summarised into comprehension
// terms: exists/count/comp/last over the traversed list.  Conditions are canonical boolean functions
// over atoms, so two ways of writing the same decision give the same result.

type GMem map[*Term]GV

type gstate struct {
	g   BDD
	mem GMem
}

// GEvent is an effect with the condition under which it happens.
type GEvent struct {
	G      BDD
	Kind   string // call, store, mapstore, send, go, defer, panic, exit
	Name   string
	Fn     *ssa.Function
	Method *types.Func
	Recv   GV
	Args   []GV
	Var    []GV
	VarOK  bool
	Result *Term
	Ins    ssa.Instruction
	Frame  *gframe
	Loops  []*Term // lists being traversed, outermost first
	Depth  int
	Mem    GMem // memory before the event, when asked for
}

type gframe struct {
	fn    *ssa.Function
	key   string
	env   map[ssa.Value]GV
	depth int
	up    *gframe
	info  *cfgInfo
	site  ssa.Instruction
	// defers are the functions written here which run when this one returns
	defers []gdefer
}

type gdefer struct {
	g    BDD
	ins  ssa.Instruction
	fn   *ssa.Function
	args []GV
	free []GV
}

type Gate struct {
	P       *Program
	Inline  func(*ssa.Function) bool
	Hook    func(*Term) *Term
	Opaque  func(*Gate, *GEvent) (GV, bool)
	Pure    func(string) bool
	PreInit GMem
	// UnrollMaps goes through the entries of maps made here one by one
	UnrollMaps bool
	mapAt      map[*ssa.Next]int
	Globals    bool // read package variables from their initialisers
	// Accesses records every operation that can panic as an event of kind access
	Accesses bool
	MaxDepth int
	Events   []*GEvent

	loops  []*Term
	steps  int
	sumN   int
	Unroll int
	// Recurse is how many times a function is evaluated inside itself
	Recurse int
	// Concrete is for evaluation on data that is laid out: a part of a list whose elements are known is a
	// list of its own, and every loop is gone through step by step as long as that comes to an end
	Concrete bool
	KeepMem  func(*GEvent) bool
	Rounds   map[*Term]gl2 // loop-carried symbol -> its value at the end of a round, of any loop
	LoopInit map[*Term]GV  // loop-carried symbol -> its value before the loop
	Latch    map[*Term]gl2 // loop-carried symbol -> its value after one more iteration
}

type gl2 struct {
	Val  GV
	G    BDD
	Init GV
	List *Term
}

type GResult struct {
	G    *Gate
	Rets []GV
	RetG BDD
	Mem  GMem
}

func NewGate(p *Program) *Gate {
	return &Gate{P: p, MaxDepth: 16, Unroll: 14, Inline: func(f *ssa.Function) bool { return p.InModule(f) }}
}

func (g *Gate) hook(t *Term) GV {
	if g.Hook != nil {
		if r := g.Hook(t); r != nil {
			return gvT(r)
		}
	}
	return gvT(t)
}

// param is the term of the i-th parameter.
func gparam(fn *ssa.Function, i int) *Term {
	return mk("param", fn.Params[i], "", fn.Params[i].Type())
}

// Run evaluates fn on the given arguments (nil: symbolic parameter).
func (g *Gate) Run(fn *ssa.Function, args ...GV) *GResult {
	if fn == nil || fn.Blocks == nil {
		panic(undecided{"function to analyse not found"})
	}
	as := make([]GV, len(fn.Params))
	for i := range as {
		if i < len(args) && len(args[i].L) > 0 {
			as[i] = args[i]
		} else {
			as[i] = g.hook(gparam(fn, i))
		}
	}
	mem := GMem{}
	for k, v := range g.PreInit {
		mem[k] = v
	}
	rets, rg, m := g.frame(fn, nil, nil, as, nil, "", mem, 0)
	return &GResult{G: g, Rets: rets, RetG: rg, Mem: m}
}

func cloneMem(m GMem) GMem {
	n := make(GMem, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// --- control flow ------------------------------------------------------------------------------

type gloop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *gloop
}

type cfgInfo struct {
	order []*ssa.BasicBlock
	pos   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*gloop // by header
	inner map[*ssa.BasicBlock]*gloop // innermost loop of a block
}

var cfgCache = map[*ssa.Function]*cfgInfo{}

func cfgOf(fn *ssa.Function) *cfgInfo {
	if c, ok := cfgCache[fn]; ok {
		return c
	}
	c := &cfgInfo{pos: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*gloop{}, inner: map[*ssa.BasicBlock]*gloop{}}
	c.order = rpo(fn)
	for i, b := range c.order {
		c.pos[b] = i
	}
	for _, b := range c.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loops[s]
				if l == nil {
					l = &gloop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
				}
				// natural loop of the back edge
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			} else if c.pos[s] <= c.pos[b] {
				panic(undecided{"irreducible control flow in " + FuncName(fn)})
			}
		}
	}
	var ls []*gloop
	for _, b := range c.order {
		if l := c.loops[b]; l != nil {
			ls = append(ls, l)
		}
	}
	sort.SliceStable(ls, func(i, j int) bool { return len(ls[i].blocks) > len(ls[j].blocks) })
	for _, l := range ls {
		for _, o := range ls {
			if o != l && o.blocks[l.header] && (l.parent == nil || len(o.blocks) < len(l.parent.blocks)) {
				l.parent = o
			}
		}
		for b := range l.blocks {
			if cur := c.inner[b]; cur == nil || len(l.blocks) < len(cur.blocks) {
				c.inner[b] = l
			}
		}
	}
	cfgCache[fn] = c
	return c
}

// edge is a control-flow edge with the state on it.
type gedge struct {
	from, to *ssa.BasicBlock
	idx      int // index in to.Preds
	st       *gstate
}

func predIndex(from, to *ssa.BasicBlock, succ int) int {
	// the n-th edge from->to corresponds to the n-th occurrence in to.Preds
	n := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			n++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return -1
}

type gret struct {
	g    BDD
	vals []GV
	mem  GMem
}

type region struct {
	g      *Gate
	fr     *gframe
	loop   *gloop // nil: whole function
	in     map[*ssa.BasicBlock][]gedge
	latch  []gedge // edges back to the loop header
	exits  []gedge // edges leaving the loop
	rets   []gret
	died   BDD
	forceT bool // the header's condition is known to hold inside the body
}

func (g *Gate) frame(fn *ssa.Function, up *gframe, site ssa.Instruction, args, free []GV, key string, mem GMem, depth int) ([]GV, BDD, GMem) {
	fr := &gframe{fn: fn, key: key, env: map[ssa.Value]GV{}, depth: depth, up: up, info: cfgOf(fn), site: site}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			fr.env[fv] = free[i]
		} else {
			fr.env[fv] = gvT(mk("freevar", fv, "", fv.Type()))
		}
	}
	r := &region{g: g, fr: fr, in: map[*ssa.BasicBlock][]gedge{}}
	st := &gstate{g: bT, mem: mem}
	r.run(fn.Blocks[0], st)
	var rg BDD = bF
	nres := fn.Signature.Results().Len()
	lists := make([][]gl, nres)
	for _, x := range r.rets {
		rg = bOr(rg, x.g)
		for i, v := range x.vals {
			lists[i] = append(lists[i], v.under(x.g)...)
		}
	}
	vals := make([]GV, nres)
	for i := range vals {
		vals[i] = gvNorm(lists[i]).constrain(rg)
	}
	ms := make([]*gstate, len(r.rets))
	for i, x := range r.rets {
		ms[i] = &gstate{x.g, x.mem}
	}
	return vals, rg, g.mergeMem(ms, rg)
}

func (g *Gate) mergeMem(sts []*gstate, total BDD) GMem {
	if len(sts) == 0 {
		return GMem{}
	}
	if len(sts) == 1 {
		return cloneMem(sts[0].mem)
	}
	keys := map[*Term]bool{}
	for _, s := range sts {
		for k := range s.mem {
			keys[k] = true
		}
	}
	out := GMem{}
	for _, k := range sortedTerms(keys) {
		same := true
		var first GV
		var ls []gl
		for i, s := range sts {
			v, ok := s.mem[k]
			if !ok {
				v = g.loadDefault(s.mem, k)
			}
			if i == 0 {
				first = v
			} else if !gvEq(first, v) {
				same = false
			}
			ls = append(ls, v.under(s.g)...)
		}
		if same {
			out[k] = first
			continue
		}
		out[k] = gvNorm(ls).constrain(total)
	}
	return out
}

func gvEq(a, b GV) bool {
	if len(a.L) != len(b.L) {
		return false
	}
	for i := range a.L {
		if a.L[i] != b.L[i] {
			return false
		}
	}
	return true
}

func sortedTerms(m map[*Term]bool) []*Term {
	out := make([]*Term, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// run evaluates the region starting at its entry block.
func (r *region) run(entry *ssa.BasicBlock, st *gstate) {
	g := r.g
	info := r.fr.info
	start := info.pos[entry]
	for _, b := range info.order[start:] {
		if r.loop != nil && !r.loop.blocks[b] {
			continue
		}
		// innermost loop nested directly below this region that contains b
		if l := info.inner[b]; l != r.loop && b != entry {
			for l != nil && l.parent != r.loop {
				l = l.parent
			}
			if l == nil {
				continue
			}
			if l.header == b {
				r.evalLoop(l)
			}
			continue
		} else if l != r.loop && b == entry && l != nil {
			// the function's entry block is never a loop header in go/ssa
			panic(undecided{"entry block is a loop header"})
		}
		var s *gstate
		if b == entry {
			s = &gstate{st.g, cloneMem(st.mem)}
		} else {
			es := r.in[b]
			s = g.merge(r.fr, b, es)
			if s == nil {
				continue
			}
		}
		r.evalBlock(b, s)
	}
}

// merge joins incoming edges and evaluates the block's phis.
func (g *Gate) merge(fr *gframe, b *ssa.BasicBlock, es []gedge) *gstate {
	tot := bF
	sts := make([]*gstate, 0, len(es))
	for _, e := range es {
		if e.st.g == bF {
			continue
		}
		tot = bOr(tot, e.st.g)
		sts = append(sts, e.st)
	}
	if tot == bF {
		return nil
	}
	var phis []*ssa.Phi
	var vals []GV
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var ls []gl
		for _, e := range es {
			if e.st.g == bF {
				continue
			}
			ls = append(ls, g.val(fr, ph.Edges[e.idx]).under(e.st.g)...)
		}
		phis = append(phis, ph)
		vals = append(vals, gvNorm(ls).constrain(tot))
	}
	for i, ph := range phis {
		fr.env[ph] = vals[i]
	}
	return &gstate{tot, g.mergeMem(sts, tot)}
}

func (r *region) send(from *ssa.BasicBlock, succ int, st *gstate) {
	if st.g == bF {
		return
	}
	to := from.Succs[succ]
	e := gedge{from, to, predIndex(from, to, succ), st}
	r.route(e)
}

func (r *region) route(e gedge) {
	if r.loop != nil {
		if e.to == r.loop.header {
			r.latch = append(r.latch, e)
			return
		}
		if !r.loop.blocks[e.to] {
			r.exits = append(r.exits, e)
			return
		}
	}
	r.in[e.to] = append(r.in[e.to], e)
}

func (r *region) evalBlock(b *ssa.BasicBlock, st *gstate) {
	g := r.g
	g.steps++
	if g.steps > 60000 {
		panic(undecided{"analysis budget exceeded in " + FuncName(r.fr.fn)})
	}
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		switch x := ins.(type) {
		case *ssa.If:
			c := g.val(r.fr, x.Cond).bool()
			if r.forceT && r.loop != nil && b == r.loop.header {
				// body side only; the other edge is the regular end of the traversal
				in := 0
				if !r.loop.blocks[b.Succs[0]] {
					in = 1
				}
				r.send(b, in, &gstate{st.g, st.mem})
				return
			}
			t := &gstate{bAnd(st.g, c), st.mem}
			f := &gstate{bAnd(st.g, bNot(c)), cloneMem(st.mem)}
			r.send(b, 0, t)
			r.send(b, 1, f)
			return
		case *ssa.Jump:
			r.send(b, 0, st)
			return
		case *ssa.Return:
			vals := make([]GV, len(x.Results))
			for i, v := range x.Results {
				vals[i] = g.val(r.fr, v)
			}
			r.rets = append(r.rets, gret{st.g, vals, st.mem})
			return
		case *ssa.Panic:
			g.event(r.fr, st, &GEvent{Kind: "panic", Name: "panic", Args: []GV{g.val(r.fr, x.X)}, Ins: x})
			r.died = bOr(r.died, st.g)
			return
		default:
			before := st.g
			g.step(r.fr, ins, st)
			if st.g != before {
				r.died = bOr(r.died, bAnd(before, bNot(st.g)))
			}
			if st.g == bF {
				return
			}
		}
	}
}

func (g *Gate) event(fr *gframe, st *gstate, e *GEvent) *GEvent {
	e.G = st.g
	e.Frame = fr
	e.Loops = append([]*Term{}, g.loops...)
	e.Depth = fr.depth
	if g.KeepMem != nil && g.KeepMem(e) {
		e.Mem = cloneMem(st.mem)
	}
	g.Events = append(g.Events, e)
	return e
}

// --- loops ---------------------------------------------------------------------------------------

type exitInst struct {
	e   gedge
	env map[ssa.Value]GV
}

func (r *region) loopValues(l *gloop) []ssa.Value {
	var out []ssa.Value
	for _, b := range r.fr.info.order {
		if l.blocks[b] {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					out = append(out, v)
				}
			}
		}
	}
	return out
}

func (r *region) snapshot(l *gloop) map[ssa.Value]GV {
	m := map[ssa.Value]GV{}
	for _, v := range r.loopValues(l) {
		if x, ok := r.fr.env[v]; ok {
			m[v] = x
		}
	}
	return m
}

func (r *region) evalLoop(l *gloop) {
	g, fr := r.g, r.fr
	es := r.in[l.header]
	base := g.merge(fr, l.header, es)
	if base == nil {
		return
	}
	for _, v := range r.loopValues(l) {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.header {
			continue
		}
		delete(fr.env, v)
	}
	inits := map[*ssa.Phi]GV{}
	var phis []*ssa.Phi
	for _, ins := range l.header.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, ph)
			inits[ph] = fr.env[ph]
		}
	}
	G0 := base.g
	nEv := len(g.Events)
	defer func() {
		kept := g.Events[:nEv]
		for _, ev := range g.Events[nEv:] {
			if ev.G = bAnd(ev.G, G0); ev.G != bF {
				kept = append(kept, ev)
			}
		}
		g.Events = kept
	}()
	// what a value cannot be when the loop is entered it is not inside
	for v, x := range fr.env {
		if ins, ok := v.(ssa.Instruction); len(x.L) < 2 || ok && l.blocks[ins.Block()] {
			continue
		}
		for _, a := range x.L {
			if bAnd(a.g, G0) == bF {
				v, x := v, x
				fr.env[v] = gvNorm(x.under(G0)).constrain(G0)
				defer func() { fr.env[v] = x }()
				break
			}
		}
	}
	// inside, conditions are relative to the loop being entered
	rel := &gstate{bT, base.mem}

	if insts, rets, died, ok := r.unrollLoop(l, phis, inits, rel); ok {
		r.finishLoop(l, G0, insts, rets, died)
		return
	}
	insts, rets, died := r.summariseLoop(l, phis, inits, rel)
	r.finishLoop(l, G0, insts, rets, died)
}

// finishLoop makes the exits of a loop visible to the enclosing region.
func (r *region) finishLoop(l *gloop, G0 BDD, insts []exitInst, rets []gret, died BDD) {
	fr := r.fr
	r.died = bOr(r.died, bAnd(G0, died))
	for _, x := range rets {
		x.g = bAnd(x.g, G0)
		if x.g != bF {
			r.rets = append(r.rets, x)
		}
	}
	// values defined in the loop, seen after it
	tot := map[ssa.Value]BDD{}
	acc := map[ssa.Value][]gl{}
	for _, v := range r.loopValues(l) {
		for _, in := range insts {
			if x, ok := in.env[v]; ok {
				ge := bAnd(in.e.st.g, G0)
				if ge == bF {
					continue
				}
				acc[v] = append(acc[v], x.under(ge)...)
				if _, ok := tot[v]; !ok {
					tot[v] = bF
				}
				tot[v] = bOr(tot[v], ge)
			}
		}
	}
	// slices made before it and filled by it
	filled := map[ssa.Value]bool{}
	for _, in := range insts {
		for v := range in.env {
			if ms, ok := v.(*ssa.MakeSlice); !ok || l.blocks[ms.Block()] || filled[v] {
				continue
			}
			filled[v] = true
			var ls []gl
			all := bF
			for _, x := range insts {
				ge := bAnd(x.e.st.g, G0)
				y, ok := x.env[v]
				if !ok {
					y = fr.env[v]
				}
				ls = append(ls, y.under(ge)...)
				all = bOr(all, ge)
			}
			if all != bF {
				fr.env[v] = gvNorm(ls).constrain(all)
			}
		}
	}
	for _, v := range r.loopValues(l) {
		if ls, ok := acc[v]; ok {
			fr.env[v] = gvNorm(ls).constrain(tot[v])
		} else {
			delete(fr.env, v)
		}
	}
	for _, in := range insts {
		e := in.e
		e.st = &gstate{bAnd(e.st.g, G0), e.st.mem}
		if e.st.g != bF {
			r.route(e)
		}
	}
}

// unrollLoop evaluates a loop whose number of iterations is fixed by constants.
func (r *region) unrollLoop(l *gloop, phis []*ssa.Phi, inits map[*ssa.Phi]GV, st *gstate) (insts []exitInst, rets []gret, died BDD, ok bool) {
	g, fr := r.g, r.fr
	last, isIf := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !isIf && !g.Concrete {
		return nil, nil, bF, false
	}
	open := 0
	nEv := len(g.Events)
	cur := inits
	s := &gstate{st.g, cloneMem(st.mem)}
	next := g.mapLoop(l)
	if next != nil {
		if g.mapAt == nil {
			g.mapAt = map[*ssa.Next]int{}
		}
		defer delete(g.mapAt, next)
	}
	// what is made in different turns is different
	key := fr.key
	defer func() { fr.key = key }()
	for it := 0; ; it++ {
		if it > 0 {
			fr.key = fmt.Sprintf("%s~%d", key, it)
		}
		for _, ph := range phis {
			fr.env[ph] = cur[ph]
		}
		if next != nil {
			g.mapAt[next] = it
		}
		sub := &region{g: g, fr: fr, loop: l, in: map[*ssa.BasicBlock][]gedge{}}
		if it == 0 && !g.Concrete {
			// cheap test first: is the header condition constant?
			probe := &region{g: g, fr: fr, loop: l, in: map[*ssa.BasicBlock][]gedge{}}
			ps := &gstate{s.g, cloneMem(s.mem)}
			pe := len(g.Events)
			probe.headerOnly(l.header, ps)
			g.Events = g.Events[:pe]
			c := g.val(fr, last.Cond).bool()
			if c != bT && c != bF {
				return nil, nil, bF, false
			}
			// constant first test: require the bound to be a constant as well
			if next == nil && !g.constantBound(fr, last.Cond) {
				return nil, nil, bF, false
			}
		}
		sub.run(l.header, s)
		if isIf {
			if c := g.val(fr, last.Cond).bool(); c != bT && c != bF {
				if open++; !g.Concrete || open > 8 {
					g.Events = g.Events[:nEv]
					return nil, nil, bF, false
				}
			}
		}
		snap := r.snapshot(l)
		for _, e := range sub.exits {
			insts = append(insts, exitInst{e, snap})
		}
		rets = append(rets, sub.rets...)
		died = bOr(died, sub.died)
		if len(sub.latch) == 0 {
			return insts, rets, died, true
		}
		if it >= g.Unroll {
			g.Events = g.Events[:nEv]
			return nil, nil, bF, false
		}
		next := map[*ssa.Phi]GV{}
		tot := bF
		var sts []*gstate
		for _, e := range sub.latch {
			tot = bOr(tot, e.st.g)
			sts = append(sts, e.st)
		}
		for _, ph := range phis {
			var ls []gl
			for _, e := range sub.latch {
				ls = append(ls, g.val(fr, ph.Edges[e.idx]).under(e.st.g)...)
			}
			next[ph] = gvNorm(ls).constrain(tot)
		}
		cur = next
		s = &gstate{tot, g.mergeMem(sts, tot)}
	}
}

// mapLoop is the step of a loop over a map.
func (g *Gate) mapLoop(l *gloop) *ssa.Next {
	if !g.UnrollMaps {
		return nil
	}
	for _, ins := range l.header.Instrs {
		if n, ok := ins.(*ssa.Next); ok && !n.IsString {
			return n
		}
	}
	return nil
}

// mapEntries are the entries of a map whose contents are known.
func (g *Gate) mapEntries(mem GMem, m *Term) ([]*Term, bool) {
	if m.Op == "nil" {
		return nil, true
	}
	if m.Op != "alloc" {
		return nil, false
	}
	if d, has := mem[mapDirty(m)]; has {
		for _, a := range d.L {
			if a.t.Op != "clean" {
				return nil, false
			}
		}
	}
	keys := map[*Term]bool{}
	for a, v := range mem {
		if a.Op == "mapaddr" && a.Args[0] == m {
			if !isConst(a.Args[1]) || v.when(func(t *Term) bool { return t.Op == "absent" }) != bF {
				return nil, false
			}
			keys[a] = true
		}
	}
	return sortedTerms(keys), true
}

// constantBound: the loop condition compares two constants.
func (g *Gate) constantBound(fr *gframe, cond ssa.Value) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{bo.X, bo.Y} {
		v := g.val(fr, o).single()
		if v == nil || !isConst(strip(v)) {
			return false
		}
	}
	return true
}

func (r *region) headerOnly(b *ssa.BasicBlock, st *gstate) {
	for _, ins := range b.Instrs {
		switch ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
			return
		}
		r.g.step(r.fr, ins, st)
		if st.g == bF {
			return
		}
	}
}

func termHas(t *Term, set map[*Term]bool) bool {
	return deepContains(t, func(x *Term) bool { return set[x] })
}

// condList is the list a comprehension term binds.
func condList(t *Term) *Term {
	if t.Op == "comp" || t.Op == "flat" {
		return t.Args[1]
	}
	if len(t.Args) == 0 {
		return nil
	}
	return t.Args[0]
}

// boundIn: t depends on the bound variables of a traversal of l (comprehensions over the same list
// bind their own).
func boundIn(t, l *Term) bool {
	return scoped(t, l, func(x *Term) bool { return isBound(x, l) })
}

func bBoundIn(b BDD, l *Term) bool {
	for _, a := range bSupport(b) {
		if boundIn(a, l) {
			return true
		}
	}
	return false
}

// deepContains also looks inside conditions of packed terms.
func deepContains(t *Term, pred func(*Term) bool) bool { return scoped(t, nil, pred) }

func scoped(t, own *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	var recB func(b BDD) bool
	recB = func(b BDD) bool {
		for _, a := range bSupport(b) {
			if rec(a) {
				return true
			}
		}
		return false
	}
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		switch t.Op {
		case "bdd":
			if recB(bddTerms[t]) {
				return true
			}
		case "gv":
			for _, l := range gvTerms[t].L {
				if recB(l.g) || rec(l.t) {
					return true
				}
			}
		}
		if c, ok := condTerms[t]; ok {
			if own != nil && condList(t) == own {
				if t.Op == "comp" || t.Op == "flat" {
					return rec(t.Args[0]) || rec(t.Args[1])
				}
				return rec(t.Args[0])
			}
			if recB(c) {
				return true
			}
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func bHas(b BDD, pred func(*Term) bool) bool {
	for _, a := range bSupport(b) {
		if deepContains(a, pred) {
			return true
		}
	}
	return false
}

func gvHas(v GV, pred func(*Term) bool) bool {
	for _, l := range v.L {
		if bHas(l.g, pred) || deepContains(l.t, pred) {
			return true
		}
	}
	return false
}

// condTerms gives the condition of a comprehension term.
var condTerms = map[*Term]BDD{}

func mkCond(op string, c BDD, ctx string, typ types.Type, args ...*Term) *Term {
	t := mk(op, fmt.Sprintf("c%d", int(c)), ctx, typ, args...)
	condTerms[t] = c
	return t
}

func stripRev(l *Term) *Term {
	for l.Op == "rev" {
		l = l.Args[0]
	}
	return l
}

func elemOf(l *Term, typ types.Type) *Term { return mk("elem", nil, "", typ, l) }

// isBound: x is the bound variable (element, index, key, value) of a traversal of l.
func isBound(x, l *Term) bool {
	switch x.Op {
	case "elem", "idx", "idxm1", "mapkey", "mapval":
		return x.Args[0] == l
	}
	return false
}

// existsB: some element of l satisfies c.
func (g *Gate) existsB(l *Term, c BDD) BDD {
	l = stripRev(l)
	if c == bF || isEmptyList(l) {
		return bF
	}
	if l.Op == "comp" && isEmptyList(l.Args[0]) {
		l0, c0, _ := g.fuse(l, c, nil)
		return g.existsB(l0, c0)
	}
	if !bBoundIn(c, l) {
		return bAnd(c, g.nonEmpty(l))
	}
	replElem := func(by *Term) BDD {
		return newSubst(g, l, func(t *Term) *Term {
			if t.Op == "elem" && t.Args[0] == l {
				return by
			}
			if isBound(t, l) {
				return mk("undef", "index", "", t.Typ)
			}
			return nil
		}).bdd(c)
	}
	onlyElem := !bHas(c, func(x *Term) bool { return isBound(x, l) && x.Op != "elem" })
	var et types.Type
	bHas(c, func(x *Term) bool {
		if x.Op == "elem" && x.Args[0] == l {
			et = x.Typ
		}
		return false
	})
	if l.Op == "gv" && onlyElem {
		r := bF
		for _, a := range gvTerms[l].L {
			r = bOr(r, bAnd(a.g, g.existsB(a.t, replElem(elemOf(a.t, et)))))
		}
		return r
	}
	if l.Op == "append" && onlyElem {
		r := bF
		for i, a := range l.Args {
			switch {
			case i == 0:
				r = bOr(r, g.existsB(a, replElem(elemOf(a, et))))
			case a.Op == "spread":
				r = bOr(r, g.existsB(a.Args[0], replElem(elemOf(a.Args[0], et))))
			default:
				r = bOr(r, replElem(a))
			}
		}
		return r
	}
	// atoms that do not vary over the traversal are moved out
	for _, a := range bSupport(c) {
		if boundIn(a, l) {
			continue
		}
		hi := bRestrict(c, func(t *Term) (bool, bool) { return true, t == a })
		lo := bRestrict(c, func(t *Term) (bool, bool) { return false, t == a })
		return bIte(bm.atom(a), g.existsB(l, hi), g.existsB(l, lo))
	}
	return bddOf(mkCond("exists", c, "", types.Typ[types.Bool], l))
}

func (g *Gate) nonEmpty(l *Term) BDD {
	l = stripRev(l)
	switch l.Op {
	case "maprange", "upto", "chanrange":
		if l.Op == "maprange" {
			return bNot(g.eq(g.lenOf(nil, l.Args[0]), mkInt(0)))
		}
		if l.Op == "upto" {
			return bddOf(ltT(mkInt(0), l.Args[0], types.Typ[types.Int]))
		}
		return bddOf(mk("nonempty", nil, "", types.Typ[types.Bool], l))
	}
	return bNot(g.eq(g.lenOf(nil, l), mkInt(0)))
}

// countT: how many elements of l satisfy c.
func (g *Gate) countT(l *Term, c BDD) *Term {
	l = stripRev(l)
	if c == bF {
		return mkInt(0)
	}
	if l.Op == "comp" && isEmptyList(l.Args[0]) {
		l0, c0, _ := g.fuse(l, c, nil)
		return g.countT(l0, c0)
	}
	if c == bT && l.Op != "maprange" && l.Op != "upto" && l.Op != "chanrange" {
		if t := g.lenOf(nil, l).single(); t != nil {
			return t
		}
	}
	return mkCond("count", c, "", types.Typ[types.Int], l)
}

// fuse expresses a condition (and element function) on the elements of a comprehension over the
// elements of its source.
func (g *Gate) fuse(l *Term, c BDD, f *Term) (*Term, BDD, *Term) {
	src, fn := l.Args[1], l.Args[2]
	sb := newSubst(g, l, func(t *Term) *Term {
		if t.Op == "elem" && t.Args[0] == l {
			return fn
		}
		return nil
	})
	nc := bAnd(condTerms[l], sb.bdd(c))
	if f != nil {
		f = sb.term(f)
	}
	return src, nc, f
}

type traversal struct {
	list  *Term // list term
	cond  BDD   // restriction of a traversed comprehension
	phi   *ssa.Phi
	bind  *Term // value of the index phi inside the body
	elemV *Term
}

func (r *region) summariseLoop(l *gloop, phis []*ssa.Phi, inits map[*ssa.Phi]GV, st *gstate) ([]exitInst, []gret, BDD) {
	g, fr := r.g, r.fr
	g.sumN++
	hkey := fmt.Sprintf("%s/%p", fr.key, l.header)
	lv := map[*ssa.Phi]*Term{}
	syms := map[*Term]bool{}
	for _, ph := range phis {
		t := mk("loopvar", ph, hkey, ph.Type())
		lv[ph] = t
		syms[t] = true
		if g.LoopInit == nil {
			g.LoopInit = map[*Term]GV{}
		}
		g.LoopInit[t] = inits[ph]
	}
	nEv := len(g.Events)
	havoc := map[*Term]*Term{}  // address -> symbol
	dirtied := map[*Term]bool{} // maps written under keys that differ between iterations
	var tr *traversal

	var sub *region
	var bodySnap map[ssa.Value]GV
	entry := func() *gstate {
		m := cloneMem(st.mem)
		for a, s := range havoc {
			m[a] = gvT(s)
		}
		for a := range dirtied {
			m[mapDirty(a)] = gvT(mk("dirty", nil, hkey, nil))
			for k := range m {
				if k.Op == "mapaddr" && k.Args[0] == a {
					delete(m, k)
				}
			}
		}
		return &gstate{bT, m}
	}
	for pass := 0; ; pass++ {
		if pass > 6 {
			panic(undecided{"loop memory does not stabilise in " + FuncName(fr.fn)})
		}
		g.Events = g.Events[:nEv]
		for _, ph := range phis {
			fr.env[ph] = gvT(lv[ph])
		}
		tr = r.findTraversal(l, phis, lv, inits, entry())
		g.Events = g.Events[:nEv]
		for _, ph := range phis {
			fr.env[ph] = gvT(lv[ph])
		}
		s := entry()
		sub = &region{g: g, fr: fr, loop: l, in: map[*ssa.BasicBlock][]gedge{}}
		if tr != nil {
			if tr.phi != nil {
				fr.env[tr.phi] = gvT(tr.bind)
			}
			s.g = tr.cond
			sub.forceT = true
			g.loops = append(g.loops, tr.list)
		} else {
			g.loops = append(g.loops, mk("while", nil, hkey, nil))
		}
		sub.run(l.header, s)
		g.loops = g.loops[:len(g.loops)-1]
		// which memory does an iteration change?
		changed := false
		for _, e := range sub.latch {
			for a, v := range e.st.mem {
				if _, ok := havoc[a]; ok {
					continue
				}
				if a.Op == "mapdirty" && dirtied[a.Args[0]] {
					continue
				}
				if a.Op == "mapaddr" {
					// a map that survives the iteration and is written in it
					m := a.Args[0]
					if dirtied[m] || r.definedInTerm(l, m) {
						continue
					}
					old, ok := st.mem[a]
					if !ok {
						old = g.loadDefault(st.mem, a)
					}
					if !gvEq(old, v) {
						dirtied[m] = true
						changed = true
					}
					continue
				}
				if deepContains(a, func(x *Term) bool {
					return syms[x] || tr != nil && isBound(x, tr.list) || x.Op == "alloc" && r.definedIn(l, x)
				}) {
					continue
				}
				old, ok := st.mem[a]
				if !ok {
					old = g.loadDefault(st.mem, a)
				}
				if !gvEq(old, v) {
					t := mk("loopmem", nil, hkey, a.Typ, a)
					havoc[a] = t
					syms[t] = true
					changed = true
				}
			}
		}
		if !changed {
			bodySnap = r.snapshot(l)
			break
		}
	}

	latchG := bF
	var lst []*gstate
	for _, e := range sub.latch {
		latchG = bOr(latchG, e.st.g)
		lst = append(lst, e.st)
	}
	latchVal := map[*ssa.Phi]GV{}
	for _, ph := range phis {
		var ls []gl
		for _, e := range sub.latch {
			ls = append(ls, g.val(fr, ph.Edges[e.idx]).under(e.st.g)...)
		}
		latchVal[ph] = gvNorm(ls)
	}
	var latchMem GMem
	if len(lst) > 0 {
		latchMem = g.mergeMem(lst, bT)
	}

	// conditions that end the traversal early
	stop := sub.died
	for _, e := range sub.exits {
		stop = bOr(stop, e.st.g)
	}
	for _, x := range sub.rets {
		stop = bOr(stop, x.g)
	}
	var insts []exitInst
	var rets []gret

	if g.Rounds == nil {
		g.Rounds = map[*Term]gl2{}
	}
	for _, ph := range phis {
		g.Rounds[lv[ph]] = gl2{latchVal[ph], latchG, inits[ph], nil}
	}
	if tr == nil {
		// no recognised traversal: everything the loop computes is unknown afterwards
		for _, e := range sub.exits {
			fresh := bm.atom(mk("leaves", e.from, hkey+fmt.Sprint(e.idx), types.Typ[types.Bool]))
			_ = fresh
			insts = append(insts, exitInst{gedge{e.from, e.to, e.idx, &gstate{e.st.g, e.st.mem}}, bodySnap})
		}
		rets = append(rets, sub.rets...)
		return insts, rets, sub.died
	}

	L := tr.list
	if g.Latch == nil {
		g.Latch = map[*Term]gl2{}
	}
	for _, ph := range phis {
		if ph != tr.phi {
			g.Latch[lv[ph]] = gl2{latchVal[ph], latchG, inits[ph], L}
		}
	}
	for a, sym := range havoc {
		if latchMem != nil {
			if x, ok := latchMem[a]; ok {
				old, had := st.mem[a]
				if !had {
					old = g.loadDefault(st.mem, a)
				}
				g.Latch[sym] = gl2{x, latchG, old, L}
			}
		}
	}
	isSym := func(x *Term) bool { return syms[x] }
	var any BDD
	if bHas(stop, isSym) {
		any = bddOf(mkCond("stops", stop, hkey, types.Typ[types.Bool], L))
	} else {
		any = g.existsB(L, stop)
	}
	if any != bF {
		// the traversal may end before its last element
		g.Events = append(g.Events, &GEvent{Kind: "earlystop", Name: "earlystop", G: any, Args: []GV{gvT(L)}, Frame: fr, Ins: l.header.Instrs[len(l.header.Instrs)-1], Loops: append([]*Term{}, g.loops...), Depth: fr.depth})
	}
	first := func(t *Term) *Term {
		if stop == tr.cond {
			// the traversal always stops at its first element
			return mkCond("first", tr.cond, "", t.Typ, stripRev(L))
		}
		return mkCond("first", stop, "", t.Typ, L)
	}
	toFirst := func(t *Term) *Term {
		switch t.Op {
		case "elem":
			if t.Args[0] == L {
				return first(t)
			}
		case "idx", "mapkey", "mapval":
			if t.Args[0] == L {
				return mkCond("first"+t.Op, stop, "", t.Typ, L)
			}
		}
		return nil
	}
	sb := newSubst(g, L, toFirst)
	// normal end
	endEnv := map[ssa.Value]GV{}
	done := bNot(any)
	endMem := cloneMem(st.mem)
	if latchMem != nil {
		for a, v := range latchMem {
			if _, ok := havoc[a]; !ok {
				if _, had := st.mem[a]; !had && deepContains(a, func(x *Term) bool { return x.Op == "alloc" && r.definedIn(l, x) }) {
					continue
				}
				endMem[a] = v
			}
		}
	}
	for m := range dirtied {
		for k := range endMem {
			if k.Op == "mapaddr" && k.Args[0] == m {
				delete(endMem, k)
			}
		}
		endMem[mapDirty(m)] = gvT(mk("dirty", nil, "end"+hkey, nil))
	}
	for _, a := range sortedTerms(boolKeys(havoc)) {
		old, ok := st.mem[a]
		if !ok {
			old = g.loadDefault(st.mem, a)
		}
		lvv := gvT(havoc[a])
		if latchMem != nil {
			if x, ok := latchMem[a]; ok {
				lvv = x
			}
		}
		endMem[a] = g.solveAcc(L, havoc[a], old, gvNorm(lvv.under(latchG)), latchG, tr.cond, syms, hkey)
	}
	for _, ph := range phis {
		if ph == tr.phi {
			endEnv[ph] = gvT(mk("endidx", nil, "", ph.Type(), L))
			continue
		}
		endEnv[ph] = g.solveAcc(L, lv[ph], inits[ph], latchVal[ph], latchG, tr.cond, syms, hkey)
	}
	// header-defined values other than phis, at the end of the traversal
	for _, ins := range l.header.Instrs {
		if v, ok := ins.(ssa.Value); ok {
			if _, isPhi := v.(*ssa.Phi); !isPhi {
				if x, ok := bodySnap[v]; ok && !gvHas(x, func(t *Term) bool { return syms[t] || isBound(t, L) }) {
					endEnv[v] = x
				}
			}
		}
	}
	r.filled(l, L, latchMem, latchG, endMem, endEnv)
	for i, s := range l.header.Succs {
		if !l.blocks[s] {
			e := gedge{l.header, s, predIndex(l.header, s, i), &gstate{done, endMem}}
			insts = append(insts, exitInst{e, endEnv})
		}
	}
	// early exits
	if stop != bF {
		env := map[ssa.Value]GV{}
		for v, x := range bodySnap {
			env[v] = sb.gv(x)
		}
		for _, e := range sub.exits {
			// once it is known that the traversal stops, which exit is taken depends on the first
			// stopping element
			cond := sb.bdd(bConstrain(e.st.g, stop))
			if e.st.g == stop {
				cond = bT
			}
			m := GMem{}
			for a, v := range e.st.mem {
				m[sb.term(a)] = sb.gv(v)
			}
			insts = append(insts, exitInst{gedge{e.from, e.to, e.idx, &gstate{bAnd(any, cond), m}}, env})
		}
		for _, x := range sub.rets {
			cond := sb.bdd(bConstrain(x.g, stop))
			if x.g == stop {
				cond = bT
			}
			vals := make([]GV, len(x.vals))
			for i, v := range x.vals {
				vals[i] = sb.gv(v.constrain(x.g))
			}
			m := GMem{}
			for a, v := range x.mem {
				m[sb.term(a)] = sb.gv(v)
			}
			rets = append(rets, gret{bAnd(any, cond), vals, m})
		}
	}
	died := bF
	if sub.died != bF {
		cond := sb.bdd(bConstrain(sub.died, stop))
		if sub.died == stop {
			cond = bT
		}
		died = bAnd(any, cond)
	}
	return insts, rets, died
}

// filled: a slice made as long as the list before a traversal which sets each of its elements is, after it, the
// list of what was set.
func (r *region) filled(l *gloop, L *Term, latchMem GMem, latchG BDD, endMem GMem, endEnv map[ssa.Value]GV) {
	g, fr := r.g, r.fr
	if latchMem == nil || latchG == bF || strings.HasPrefix(L.Op, "rev") || strings.HasSuffix(L.Op, "range") || L.Op == "upto" {
		return
	}
	idx := mk("idx", nil, "", types.Typ[types.Int], L)
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ms, ok := ia.X.(*ssa.MakeSlice)
			if !ok || l.blocks[ms.Block()] || endEnv[ms].L != nil || r.loop != nil && !r.loop.blocks[ms.Block()] {
				continue
			}
			t := g.val(fr, ms).single()
			if t == nil || t.Op != "alloc" || g.val(fr, ms.Len).single() != g.lenOf(nil, L).single() || !fillsOnly(ms, l) {
				continue
			}
			for a, v := range latchMem {
				if a.Op != "indexaddr" || a.Args[0] != t || a.Args[1] != idx {
					continue
				}
				ls := v.under(latchG)
				all := bF
				for _, x := range ls {
					if contains(x.t, func(y *Term) bool { return y == t }) {
						all = bF
						break
					}
					all = bOr(all, x.g)
				}
				if all != latchG {
					continue
				}
				list, c, f := L, latchG, gvNorm(ls).constrain(latchG).term()
				for list.Op == "comp" && isEmptyList(list.Args[0]) {
					list, c, f = g.fuse(list, c, f)
				}
				delete(endMem, a)
				endEnv[ms] = g.hook(mkCond("comp", c, "", ms.Type(), mkNil(), list, f))
			}
		}
	}
}

// fillsOnly: the elements of the slice are set in the loop only, which does nothing else with it.
func fillsOnly(ms *ssa.MakeSlice, l *gloop) bool {
	for _, ref := range *ms.Referrers() {
		in := l.blocks[ref.Block()]
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			if in {
				return false
			}
			continue
		}
		for _, use := range *ia.Referrers() {
			_, isStore := use.(*ssa.Store)
			_, isLoad := use.(*ssa.UnOp)
			if in != isStore || !in && !isLoad {
				return false
			}
		}
	}
	return true
}

func boolKeys(m map[*Term]*Term) map[*Term]bool {
	o := map[*Term]bool{}
	for k := range m {
		o[k] = true
	}
	return o
}

func (r *region) definedInTerm(l *gloop, t *Term) bool {
	return deepContains(t, func(x *Term) bool { return x.Op == "alloc" && r.definedIn(l, x) })
}

func (r *region) definedIn(l *gloop, a *Term) bool {
	v, ok := a.Obj.(ssa.Value)
	if !ok {
		return false
	}
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	rest, ok := strings.CutPrefix(a.Ctx, r.fr.key)
	// in a turn of an unrolled loop
	for ok && strings.HasPrefix(rest, "~") {
		rest = strings.TrimLeft(rest[1:], "0123456789")
	}
	if ok && rest == "" && ins.Parent() == r.fr.fn {
		return l.blocks[ins.Block()]
	}
	// allocated by a callee activated from inside the loop
	return ok && strings.HasPrefix(rest, "/") && r.calleeSiteIn(l, rest[1:])
}

func (r *region) calleeSiteIn(l *gloop, rest string) bool {
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if strings.HasPrefix(rest, fmt.Sprintf("%p", ins)) {
				return true
			}
		}
	}
	return false
}

// findTraversal recognises a loop that visits every element of a list (or map, or channel) once.
func (r *region) findTraversal(l *gloop, phis []*ssa.Phi, lv map[*ssa.Phi]*Term, inits map[*ssa.Phi]GV, st *gstate) *traversal {
	g, fr := r.g, r.fr
	last, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	s := &gstate{bT, cloneMem(st.mem)}
	(&region{g: g, fr: fr, loop: l}).headerOnly(l.header, s)
	bodyFirst := l.blocks[last.Block().Succs[0]]
	// map traversal
	if ex, ok := last.Cond.(*ssa.Extract); ok && bodyFirst {
		if nx, ok := ex.Tuple.(*ssa.Next); ok && !nx.IsString {
			it := g.val(fr, nx.Iter).single()
			if it != nil && it.Op == "range" {
				return &traversal{list: mk("maprange", nil, "", nil, it.Args[0]), cond: bT}
			}
		}
		if un, ok := ex.Tuple.(*ssa.UnOp); ok && un.Op == token.ARROW {
			ch := g.val(fr, un.X).term()
			return &traversal{list: mk("chanrange", nil, "", nil, ch), cond: bT}
		}
		return nil
	}
	bo, ok := last.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	op := bo.Op
	if !bodyFirst {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		default:
			return nil
		}
	}
	x, y := g.val(fr, bo.X).term(), g.val(fr, bo.Y).term()
	xv, yv := bo.X, bo.Y
	if op == token.GTR {
		x, y, xv, yv, op = y, x, yv, xv, token.LSS
	}
	if op == token.NEQ {
		op = token.LSS // i != len with unit steps from zero
	}
	step := func(ph *ssa.Phi) (int64, bool) {
		var d int64
		n := 0
		for i, p := range l.header.Preds {
			if !l.blocks[p] {
				continue
			}
			b, ok := ph.Edges[i].(*ssa.BinOp)
			if !ok || b.X != ssa.Value(ph) {
				return 0, false
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return 0, false
			}
			v, ok := constant.Int64Val(c.Value)
			if !ok {
				return 0, false
			}
			if b.Op == token.SUB {
				v = -v
			} else if b.Op != token.ADD {
				return 0, false
			}
			if n > 0 && d != v {
				return 0, false
			}
			d = v
			n++
		}
		return d, n > 0
	}
	for _, ph := range phis {
		if !isIntType(ph.Type()) {
			continue
		}
		init := inits[ph].single()
		if init == nil {
			continue
		}
		d, ok := step(ph)
		if !ok {
			continue
		}
		sym := lv[ph]
		if op == token.LSS && d == 1 {
			i0, isC := constInt(init)
			if !isC {
				continue
			}
			var bind string
			switch {
			case x == sym && i0 == 0:
				bind = "idx"
			case i0 == -1 && x.Op == "bin" && x.Obj == "+" && (x.Args[0] == sym && x.Args[1] == mkInt(1) || x.Args[1] == sym && x.Args[0] == mkInt(1)):
				bind = "idxm1"
			default:
				continue
			}
			if deepContains(y, func(t *Term) bool { return t == sym }) {
				continue
			}
			L := r.listOfBound(y, yv)
			if L == nil {
				return nil
			}
			return r.traverse(L, ph, bind)
		}
		if d == -1 && (op == token.GEQ && x == sym && y == mkInt(0) || op == token.LSS && y == sym && x == mkInt(-1)) {
			// for i := len(L)-1; i >= 0; i--
			if init.Op == "bin" && (init.Obj == "-" && init.Args[1] == mkInt(1) || init.Obj == "+" && (init.Args[0] == mkInt(-1) || init.Args[1] == mkInt(-1))) {
				var lt *Term
				for _, a := range init.Args {
					if a.Op == "len" || a.Op == "count" {
						lt = a
					}
				}
				if lt != nil {
					var iv ssa.Value
					for i, p := range l.header.Preds {
						if !l.blocks[p] {
							iv = ph.Edges[i]
						}
					}
					var lenV ssa.Value
					if b, ok := iv.(*ssa.BinOp); ok {
						lenV = b.X
					}
					if L := r.listOfBound(lt, lenV); L != nil {
						return r.traverse(mk("rev", nil, "", nil, L), ph, "idx")
					}
				}
			}
		}
	}
	return nil
}

func (r *region) listOfBound(y *Term, yv ssa.Value) *Term {
	// the SSA value of the length tells the list even when the length was simplified
	if c, ok := yv.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return r.g.val(r.fr, c.Call.Args[0]).term()
		}
	}
	if y.Op == "len" {
		return y.Args[0]
	}
	if y.Op == "gv" {
		return nil
	}
	return mk("upto", nil, "", nil, y)
}

func (r *region) traverse(L *Term, ph *ssa.Phi, bind string) *traversal {
	cond := bT
	return &traversal{list: L, cond: cond, phi: ph, bind: mk(bind, nil, "", types.Typ[types.Int], L)}
}

// solveAcc gives the value of a loop-carried variable after a complete traversal.
func (g *Gate) solveAcc(L, sym *Term, init, latch GV, latchG, cond BDD, syms map[*Term]bool, hkey string) GV {
	unknown := func() GV {
		return g.hook(mk("loopval", nil, hkey, sym.Typ, sym))
	}
	keep := bF
	var rest []gl
	for _, x := range latch.L {
		if x.t == sym {
			keep = bOr(keep, x.g)
			continue
		}
		rest = append(rest, x)
	}
	if len(rest) == 0 {
		return init
	}
	isSym := func(x *Term) bool { return syms[x] }
	// counters
	allInc := true
	incG := bF
	for _, x := range rest {
		if x.t.Op == "bin" && x.t.Obj == "+" && (x.t.Args[0] == sym && x.t.Args[1] == mkInt(1) || x.t.Args[1] == sym && x.t.Args[0] == mkInt(1)) && !bHas(x.g, isSym) {
			incG = bOr(incG, x.g)
		} else {
			allInc = false
		}
	}
	if allInc && len(rest) == 1 {
		c := g.countFuse(L, incG)
		return g.apply2(init, gvT(c), func(a, b *Term) GV { return g.bin(token.ADD, a, b, sym.Typ, sym.Typ) })
	}
	// sums of something the elements have
	if len(rest) == 1 && rest[0].t.Op == "bin" && rest[0].t.Obj == "+" && !bHas(rest[0].g, isSym) && sym.Typ != nil {
		typ := sym.Typ
		if pt, ok := typ.Underlying().(*types.Pointer); ok && sym.Op == "loopmem" {
			typ = pt.Elem()
		}
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			f := rest[0].t.Args[1]
			if f == sym {
				f = rest[0].t.Args[0]
			}
			if f != sym && !deepContains(f, isSym) && (rest[0].t.Args[0] == sym || rest[0].t.Args[1] == sym) {
				sum := g.hook(mkCond("sum", rest[0].g, "", typ, L, f))
				return g.apply2(init, sum, func(a, b *Term) GV { return g.bin(token.ADD, a, b, typ, typ) })
			}
		}
	}
	// constant flags and "last match" variables
	if len(rest) == 1 && !bHas(rest[0].g, isSym) && !deepContains(rest[0].t, isSym) {
		c := rest[0].g
		v := rest[0].t
		if deepContains(v, func(x *Term) bool { return isBound(x, L) }) {
			sb := newSubst(g, L, func(t *Term) *Term {
				if isBound(t, L) && t.Op != "idxm1" {
					return mkCond("last"+t.Op, c, "", t.Typ, L)
				}
				return nil
			})
			v = sb.term(v)
		}
		return gvIte(g.existsB(L, c), gvT(v), init)
	}
	// a flag that may also depend on its own value: acc || c
	if sym.Typ != nil {
		if b, ok := sym.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			f := latch.bool()
			at := bm.atom(sym)
			f1 := bRestrict(f, func(t *Term) (bool, bool) { return true, t == sym })
			f0 := bRestrict(f, func(t *Term) (bool, bool) { return false, t == sym })
			_ = at
			if !bHas(f1, isSym) && !bHas(f0, isSym) {
				full := latchG
				if bConstrain(f1, full) == bT { // sticky true
					return gvBool(bOr(init.bool(), g.existsB(L, f0)))
				}
				if f0 == bF { // sticky false
					return gvBool(bAnd(init.bool(), bNot(g.existsB(L, bAnd(full, bNot(f1))))))
				}
			}
		}
	}
	// lists
	allApp := true
	appG := bF
	var ft []gl
	for _, x := range rest {
		if x.t.Op == "append" && x.t.Args[0] == sym && len(x.t.Args) == 2 && !bHas(x.g, isSym) && !deepContains(x.t.Args[1], isSym) {
			appG = bOr(appG, x.g)
			ft = append(ft, gl{x.g, x.t.Args[1]})
		} else {
			allApp = false
		}
	}
	if allApp {
		f := gvNorm(ft).constrain(appG).term()
		base := init.single()
		if base == nil {
			return unknown()
		}
		op := "comp"
		if f.Op == "spread" {
			op, f = "flat", f.Args[0]
		}
		if isEmptyList(base) {
			base = mkNil()
		}
		for op == "comp" && L.Op == "comp" && isEmptyList(L.Args[0]) {
			L, appG, f = g.fuse(L, appG, f)
		}
		return g.hook(mkCond(op, appG, "", sym.Typ, base, L, f))
	}
	return unknown()
}

// countFuse counts over a comprehension by counting over its source.
func (g *Gate) countFuse(L *Term, c BDD) *Term { return g.countT(L, c) }

// isEmptyList: nil, or a freshly made empty slice.
func isEmptyList(t *Term) bool {
	return t.Op == "nil" || t.Op == "emptylist"
}

// --- substitution --------------------------------------------------------------------------------

type subst struct {
	g    *Gate
	own  *Term // the list whose bound variables are replaced
	f    func(*Term) *Term
	memo map[*Term]*Term
	bmem map[BDD]BDD
}

func newSubst(g *Gate, l *Term, f func(*Term) *Term) *subst {
	return &subst{g: g, f: f, own: l, memo: map[*Term]*Term{}, bmem: map[BDD]BDD{}}
}

func (s *subst) bdd(b BDD) BDD {
	if b <= bT {
		return b
	}
	if r, ok := s.bmem[b]; ok {
		return r
	}
	r := bMap(b, func(a *Term) BDD { return bddOf(s.term(a)) })
	s.bmem[b] = r
	return r
}

func (s *subst) gv(v GV) GV {
	ls := make([]gl, 0, len(v.L))
	for _, l := range v.L {
		ls = append(ls, gl{s.bdd(l.g), s.term(l.t)})
	}
	return gvNorm(ls)
}

func (s *subst) term(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := s.term1(t)
	s.memo[t] = r
	return r
}

func (s *subst) term1(t *Term) *Term {
	if r := s.f(t); r != nil {
		return r
	}
	switch t.Op {
	case "bdd":
		return bTerm(s.bdd(bddTerms[t]))
	case "gv":
		return s.gv(gvTerms[t]).term()
	}
	changed := false
	args := make([]*Term, len(t.Args))
	c, isC := condTerms[t]
	binds := isC && s.own != nil && condList(t) == s.own
	for i, a := range t.Args {
		if binds && i == 2 {
			args[i] = a
			continue
		}
		args[i] = s.term(a)
		if args[i] != a {
			changed = true
		}
	}
	if isC {
		nc := c
		if !binds {
			nc = s.bdd(c)
		}
		if nc == c && !changed {
			return t
		}
		if t.Op == "exists" {
			return bTerm(s.g.existsB(args[0], nc))
		}
		return mkCond(t.Op, nc, t.Ctx, t.Typ, args...)
	}
	if !changed {
		return t
	}
	switch t.Op {
	case "bin":
		switch t.Obj {
		case "==":
			return bTerm(s.g.eq(gvT(args[0]), args[1]))
		case "<":
			return bTerm(s.g.lt(args[0], args[1], types.Typ[types.Int]))
		}
	case "un":
		if t.Obj == "!" {
			return mkNot(args[0])
		}
	case "field":
		return s.g.field(args[0], t.Obj.(*types.Var)).term()
	case "len":
		return s.g.lenOf(nil, args[0]).term()
	}
	n := mk(t.Op, t.Obj, t.Ctx, t.Typ, args...)
	return n
}

// --- lifting operations to guarded values --------------------------------------------------------

func (g *Gate) apply1(a GV, f func(*Term) GV) GV {
	if len(a.L) == 1 {
		r := f(a.L[0].t)
		return r
	}
	var ls []gl
	for _, x := range a.L {
		ls = append(ls, f(x.t).under(x.g)...)
	}
	return gvNorm(ls)
}

func (g *Gate) apply2(a, b GV, f func(x, y *Term) GV) GV {
	if len(a.L)*len(b.L) > 400 {
		return f(a.term(), b.term())
	}
	return g.apply1(a, func(x *Term) GV { return g.apply1(b, func(y *Term) GV { return f(x, y) }) })
}

func (g *Gate) eq(a GV, b *Term) BDD {
	return g.apply1(a, func(x *Term) GV { return gvBool(g.eq1(x, b)) }).bool()
}

func (g *Gate) eq1(x, y *Term) BDD {
	x, y = strip(x), strip(y)
	for i := 0; i < 2; i++ {
		if x.Op == "count" && y == mkInt(0) {
			return bNot(g.existsB(x.Args[0], condTerms[x]))
		}
		if y.Op == "bdd" || y.Op == "gv" {
			return g.eq(gvT(y), x)
		}
		x, y = y, x
	}
	if isBoolTyped(x) && isBoolTyped(y) {
		return bNot(bXor(bddOf(x), bddOf(y)))
	}
	// numbers written the same are the same
	if a, ok := isCallTo(x, "strconv.Itoa"); ok {
		if b, ok := isCallTo(y, "strconv.Itoa"); ok {
			return g.eq1(a[0], b[0])
		}
	}
	for i := 0; i < 2; i++ {
		if x.Op == "nil" && nonNilCall(y) {
			return bF
		}
		// 0 == n + m with lengths
		if x == mkInt(0) && y.Op == "bin" && y.Obj == "+" && isLength(y.Args[0]) && isLength(y.Args[1]) {
			return bAnd(g.eq1(x, y.Args[0]), g.eq1(x, y.Args[1]))
		}
		// 0 == k + n with k > 0 and n a length
		if v, ok := constInt(x); ok && y.Op == "bin" && y.Obj == "+" {
			for j := 0; j < 2; j++ {
				if k, ok := constInt(y.Args[j]); ok && (y.Args[1-j].Op == "len" || y.Args[1-j].Op == "count") && v < k {
					return bF
				}
			}
		}
		x, y = y, x
	}
	return g.hook(eqT(x, y)).bool()
}

func isLength(t *Term) bool {
	t = strip(t)
	return t.Op == "len" || t.Op == "count"
}

// nonNilCall: calls that never return nil.
func nonNilCall(t *Term) bool {
	if t.Op != "call" {
		return false
	}
	fn, ok := t.Obj.(*ssa.Function)
	if !ok {
		return false
	}
	switch funcQual(fn) {
	case "fmt.Errorf", "errors.New", "log.New":
		return true
	}
	return false
}

func isBoolTyped(t *Term) bool {
	if isConst(t) {
		return isTrue(t) || isFalse(t)
	}
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (g *Gate) lt(x, y *Term, typ types.Type) BDD {
	x, y = strip(x), strip(y)
	if y.Op == "count" {
		if v, ok := constInt(x); ok {
			if v < 0 {
				return bT
			}
			return bNot(g.lt(y, mkInt(v+1), typ))
		}
	}
	if x.Op == "count" {
		if v, ok := constInt(y); ok {
			if v <= 0 {
				return bF
			}
			if v == 1 {
				return g.eq1(x, mkInt(0))
			}
		}
	}
	// the index of a traversal is within its list
	if x.Op == "idx" && y.Op == "len" && stripRev(x.Args[0]) == y.Args[0] {
		return bT
	}
	if x.Op == "idx" {
		if v, ok := constInt(y); ok && v <= 0 {
			return bF
		}
	}
	return g.hook(ltT(x, y, typ)).bool()
}

func (g *Gate) bin(op token.Token, x, y *Term, typ, opTyp types.Type) GV {
	switch op {
	case token.EQL:
		return gvBool(g.eq1(x, y))
	case token.NEQ:
		return gvBool(bNot(g.eq1(x, y)))
	case token.LSS:
		return gvBool(g.lt(x, y, opTyp))
	case token.GTR:
		return gvBool(g.lt(y, x, opTyp))
	case token.GEQ:
		return gvBool(bNot(g.lt(x, y, opTyp)))
	case token.LEQ:
		return gvBool(bNot(g.lt(y, x, opTyp)))
	}
	if isBoolTyped(x) && isBoolTyped(y) {
		switch op {
		case token.AND, token.LAND:
			return gvBool(bAnd(bddOf(x), bddOf(y)))
		case token.OR, token.LOR:
			return gvBool(bOr(bddOf(x), bddOf(y)))
		}
	}
	if op == token.ADD {
		sx, sy := strip(x), strip(y)
		if sx.Op == "idxm1" && sy == mkInt(1) {
			return gvT(mk("idx", nil, "", types.Typ[types.Int], sx.Args[0]))
		}
		if sy.Op == "idxm1" && sx == mkInt(1) {
			return gvT(mk("idx", nil, "", types.Typ[types.Int], sy.Args[0]))
		}
	}
	return g.hook(binT(op, x, y, typ, opTyp))
}

// --- values, memory ------------------------------------------------------------------------------

func (g *Gate) val(fr *gframe, v ssa.Value) GV {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Basic:
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
					return gvT(mkNil())
				}
				return gvT(zeroOf(x.Type()))
			}
			return gvT(mkNil())
		}
		return gvT(mkConst(x.Value, x.Type()))
	case *ssa.Global:
		return gvT(mk("global", x, "", x.Type()))
	case *ssa.Function:
		return gvT(mk("func", x, "", x.Type()))
	case *ssa.Builtin:
		return gvT(mk("builtin", x.Name(), "", x.Type()))
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	return gvT(mk("undef", v, fr.key, v.Type()))
}

func (g *Gate) load(mem GMem, a *Term) GV {
	if v, ok := mem[a]; ok {
		return v
	}
	return g.loadDefault(mem, a)
}

func (g *Gate) loadDefault(mem GMem, a *Term) GV {
	switch a.Op {
	case "mapaddr":
		return gvT(mk("absent", nil, "", nil))
	case "mapdirty":
		return gvT(mk("clean", nil, "", nil))
	}
	switch a.Op {
	case "gv":
		return g.apply1(gvTerms[a], func(x *Term) GV { return g.load(mem, x) })
	case "lenof":
		return gvT(mk("len", nil, "", types.Typ[types.Int], a.Args[0]))
	case "fieldaddr":
		f := a.Obj.(*types.Var)
		if g.Globals {
			if gl := termGlobal(a); gl != nil && g.P.immutableGlobal(gl) {
				if v := g.P.initState(gl.Pkg)[a]; v != nil {
					return g.hook(v)
				}
			}
		}
		if v, ok := mem[a.Args[0]]; ok {
			return g.apply1(v, func(x *Term) GV { return g.field(x, f) })
		}
		if rootOf(a).Op == "alloc" && a.Args[0].Op != "indexaddr" {
			base := g.load(mem, a.Args[0])
			return g.apply1(base, func(x *Term) GV { return g.field(x, f) })
		}
		return g.apply1(g.load(mem, a.Args[0]), func(x *Term) GV { return g.field(x, f) })
	case "indexaddr":
		base, idx := a.Args[0], a.Args[1]
		et := a.Typ
		if base.Op == "alloc" {
			if st := g.structFields(mem, a, et); st != nil {
				return gvT(st)
			}
			if isConst(idx) {
				// never written: zero value, unless some unknown index was
				for k := range mem {
					if k.Op == "indexaddr" && k.Args[0] == base && !isConst(k.Args[1]) {
						return g.hook(mk("index", nil, "", et, base, idx))
					}
				}
				if et != nil {
					return gvT(zeroOf(et))
				}
			}
		}
		return g.index(base, idx, et)
	case "alloc":
		if t := allocElem(a); t != nil {
			if st := g.structFields(mem, a, t); st != nil {
				return gvT(st)
			}
			return gvT(zeroOf(t))
		}
	case "global":
		gl := a.Obj.(*ssa.Global)
		if g.Globals {
			if v := g.P.globalValue(gl); v != nil {
				return g.hook(v)
			}
		}
		return g.hook(mk("deref", nil, "", gl.Type().Underlying().(*types.Pointer).Elem(), a))
	}
	var t types.Type
	if a.Typ != nil {
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
	}
	if t != nil {
		if st := g.structFields(mem, a, t); st != nil {
			return gvT(st)
		}
	}
	return g.hook(mk("deref", nil, "", t, a))
}

// termGlobal: the variable an address lies in.
func termGlobal(a *Term) *ssa.Global {
	for a.Op == "fieldaddr" {
		a = a.Args[0]
	}
	if a.Op == "global" {
		return a.Obj.(*ssa.Global)
	}
	return nil
}

// structFields assembles a struct value from fields stored separately.
func (g *Gate) structFields(mem GMem, a *Term, t types.Type) *Term {
	if t == nil {
		return nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	any := a.Op == "alloc"
	for k := range mem {
		if k.Op == "fieldaddr" && within(k, a) {
			any = true
			break
		}
	}
	if !any {
		return nil
	}
	args := make([]*Term, st.NumFields())
	for i := range args {
		f := st.Field(i)
		fa := mk("fieldaddr", f, "", types.NewPointer(f.Type()), a)
		v, ok := mem[fa]
		if !ok {
			if inner := g.structFields(mem, fa, f.Type()); inner != nil && (a.Op != "alloc" || hasWithin(mem, fa)) {
				v = gvT(inner)
			} else if a.Op == "alloc" || a.Op == "indexaddr" && a.Args[0].Op == "alloc" {
				v = gvT(zeroOf(f.Type()))
			} else {
				v = g.hook(mk("field", f, "", f.Type(), mk("deref", nil, "", t, a)))
			}
		}
		args[i] = v.term()
	}
	return mk("struct", t, "", t, args...)
}

func hasWithin(mem GMem, a *Term) bool {
	for k := range mem {
		if k == a || within(k, a) {
			return true
		}
	}
	return false
}

// index selects an element of a list value.
func (g *Gate) index(base, idx *Term, et types.Type) GV {
	if base.Op == "gv" && idx.Op == "idx" && stripRev(idx.Args[0]) == base {
		return g.hook(elemOf(idx.Args[0], et))
	}
	if base.Op == "gv" {
		return g.apply1(gvTerms[base], func(b *Term) GV { return g.index(b, idx, et) })
	}
	if idx.Op == "idx" && stripRev(idx.Args[0]) == base {
		L := idx.Args[0]
		switch base.Op {
		case "comp":
			if base.Args[0].Op == "nil" {
				// element of a comprehension: keep it abstract but remember its shape
				return g.hook(elemOf(L, et))
			}
		}
		return g.hook(elemOf(L, et))
	}
	if i, ok := constInt(idx); ok {
		switch base.Op {
		case "append":
			if isEmptyList(base.Args[0]) && i >= 0 && int(i)+1 < len(base.Args) {
				return gvT(base.Args[i+1])
			}
		case "slice":
			if lo, ok := constInt(base.Args[1]); ok {
				return g.index(base.Args[0], mkInt(lo+i), et)
			}
		}
	}
	return g.hook(mk("index", nil, "", et, base, idx))
}

func (g *Gate) field(v *Term, f *types.Var) GV {
	switch v.Op {
	case "gv":
		return g.apply1(gvTerms[v], func(x *Term) GV { return g.field(x, f) })
	case "struct":
		if st, ok := v.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == f {
					return gvT(v.Args[i])
				}
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f.Name() {
					return gvT(v.Args[i])
				}
			}
		}
	case "zero":
		return gvT(zeroOf(f.Type()))
	}
	return g.hook(mk("field", f, "", f.Type(), v))
}

func (g *Gate) store(st *gstate, addr GV, v GV) {
	// inside a guard of this state every address alternative is possible
	if len(addr.L) == 1 {
		g.store1(st.mem, addr.L[0].t, v)
		return
	}
	for _, a := range addr.L {
		old := g.load(st.mem, a.t)
		g.store1(st.mem, a.t, gvIte(a.g, v, old))
	}
}

func (g *Gate) store1(mem GMem, a *Term, v GV) {
	for k := range mem {
		if k != a && (k.Op == "fieldaddr" || k.Op == "indexaddr") && within(k, a) {
			delete(mem, k)
		}
	}
	if len(v.L) == 1 && v.L[0].t.Op == "struct" {
		s := v.L[0].t
		if stt, ok := s.Typ.Underlying().(*types.Struct); ok {
			delete(mem, a)
			for i := 0; i < stt.NumFields(); i++ {
				f := stt.Field(i)
				g.store1(mem, mk("fieldaddr", f, "", types.NewPointer(f.Type()), a), gvT(s.Args[i]))
			}
			return
		}
	}
	mem[a] = v
}

func (g *Gate) lenOf(mem GMem, a *Term) GV {
	if s, ok := constStr(a); ok {
		return gvT(mkInt(int64(len(s))))
	}
	switch a.Op {
	case "gv":
		return g.apply1(gvTerms[a], func(x *Term) GV { return g.lenOf(mem, x) })
	case "nil", "emptylist":
		return gvT(mkInt(0))
	case "rev":
		return g.lenOf(mem, a.Args[0])
	case "alloc":
		if mem != nil {
			if l, ok := mem[mk("lenof", nil, "", nil, a)]; ok {
				return l
			}
		}
		if at, ok := allocElemT(a).(*types.Array); ok {
			return gvT(mkInt(at.Len()))
		}
	case "append":
		n := int64(len(a.Args) - 1)
		for _, x := range a.Args[1:] {
			if x.Op == "spread" {
				return g.hook(mk("len", nil, "", types.Typ[types.Int], a))
			}
		}
		return g.apply1(g.lenOf(mem, a.Args[0]), func(x *Term) GV {
			return g.bin(token.ADD, x, mkInt(n), types.Typ[types.Int], types.Typ[types.Int])
		})
	case "comp":
		c := g.countT(a.Args[1], condTerms[a])
		return g.apply1(g.lenOf(mem, a.Args[0]), func(x *Term) GV {
			return g.bin(token.ADD, x, c, types.Typ[types.Int], types.Typ[types.Int])
		})
	}
	return g.hook(mk("len", nil, "", types.Typ[types.Int], strip(a)))
}
