package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C13", checkC13) }

const (
	wgAdd  = "(*sync.WaitGroup).Add"
	wgDone = "(*sync.WaitGroup).Done"
	wgWait = "(*sync.WaitGroup).Wait"
)

func checkC13(c *Ctx) {
	c.Rule("structure", "the scan has workers, a queue, a results channel and a wait group")
	c.Rule("queue", "filling the queue never blocks")
	c.Rule("count", "each worker is added to the wait group once before it starts, and nothing else is")
	c.Rule("done", "each worker reports done exactly once on every path, after its last result")
	c.Rule("send", "a worker that hands over a result can always be told to stop")
	c.Rule("stop", "the scan never waits for workers which still wait for it")
	c.Rule("idle", "a worker that finds the queue empty ends")
	c.Rule("close", "the results channel is closed once, after every worker is done")
	c.Rule("return", "the scan returns only after all results were consumed or all workers stopped")
	c.Rule("block", "no goroutine of the scan waits for anything else")
	c.Rule("locks", "every lock taken is released on every path")
	c.Rule("shared", "what goroutines share is read only or serialised")
	c.Guard("structure", "Process", func() { checkConc(c) })
	c.Guard("shared", "module", func() { checkShared(c) })
	c.Guard("locks", "module", func() { checkLocks(c) })
	for _, r := range []string{"structure", "queue", "count", "done", "send", "stop", "idle", "close", "return", "block", "locks", "shared"} {
		c.Min(r, 1)
	}
}

func checkConc(c *Ctx) {
	p := c.P
	fn := p.Method("", "Analyzer", "Process")
	if fn == nil {
		c.Fail("structure", "Process", "-", "no Process method")
		return
	}
	mf := &fframe{fn: fn}
	mg := p.flowGraph(mf, isChanOp)
	pos := func(n *fnode) string { return p.InstrPos(n.ins) }
	type gor struct {
		n *fnode
		g *fgraph
	}
	var workers, others []gor
	// the results channel: received from by the scan itself
	recvs := map[any]bool{}
	for _, n := range mg.nodes {
		if u, ok := n.ins.(*ssa.UnOp); ok && n.kind == "" && u.Op == token.ARROW {
			recvs[p.place(fval{n.fr, u.X})] = true
		}
	}
	var all []gor
	for _, n := range mg.find(func(n *fnode) bool { _, ok := n.ins.(*ssa.Go); return ok && n.kind == "" }) {
		x := n.ins.(*ssa.Go)
		cal, clo, cfr := p.calleeOf(n.fr, &x.Call)
		if cal == nil || len(cal.Blocks) == 0 || !p.InModule(cal) {
			c.Fail("structure", "goroutine", pos(n), "the body of a goroutine is not known")
			continue
		}
		all = append(all, gor{n, p.flowGraph(&fframe{fn: cal, up: n.fr, call: &x.Call, clo: clo, cfr: cfr}, isChanOp)})
	}
	var results any
	for _, w := range all {
		is := false
		for _, n := range w.g.nodes {
			for _, ch := range w.g.sends(n) {
				if recvs[ch] {
					is = true
					results = ch
				}
			}
		}
		if is {
			workers = append(workers, w)
		} else {
			others = append(others, w)
		}
	}
	if !c.Check(len(workers) > 0, "structure", "workers", p.Pos(fn.Pos()), fmt.Sprintf("%d worker goroutine(s)", len(workers))) {
		return
	}
	isGoWorker := func(n *fnode) bool {
		for _, w := range workers {
			if n == w.n {
				return true
			}
		}
		return false
	}
	// the wait group the workers report to
	var wg any
	for _, w := range workers {
		for _, n := range w.g.nodes {
			if pl, ok := w.g.method(n, wgDone); ok {
				wg = pl
			}
		}
	}
	if !c.Check(wg != nil, "structure", "wait group", p.Pos(fn.Pos()), "the workers report to no wait group") {
		return
	}
	isM := func(g *fgraph, name string) func(*fnode) bool {
		return func(n *fnode) bool { pl, ok := g.method(n, name); return ok && pl == wg }
	}
	isClose := func(g *fgraph, ch any) func(*fnode) bool {
		return func(n *fnode) bool { pl, ok := g.builtin(n, "close"); return ok && pl == ch }
	}
	exhausted := func(n *fnode) bool { return n.kind == "edge" && mg.closedEdge(n) == results }
	isExit := func(g *fgraph) func(*fnode) bool { return func(n *fnode) bool { return n == g.exit } }

	// workers
	for _, w := range workers {
		wp := pos(w.n)
		g := w.g
		cs := g.counts(g.entry, isExit(g), isM(g, wgDone))
		if len(cs) > 0 {
			c.Check(only(cs, 1), "done", "once", wp, "paths of a worker report done "+countsString(cs)+" times")
		} else {
			c.Fail("done", "once", wp, "a worker never ends")
		}
		for _, n := range g.find(isM(g, wgDone)) {
			late := g.reach([]*fnode{n}, func(x *fnode) bool { return len(g.sends(x)) > 0 }, nil)
			c.Check(late == nil, "done", "after the last result", pos(n), "a result may be handed over after the worker reported done")
		}
		c.Check(len(g.find(isM(g, wgAdd))) == 0, "count", "in the worker", wp, "a worker adds to the wait group itself")

		// channel operations of the worker
		for _, n := range g.nodes {
			if n.kind != "" {
				continue
			}
			switch x := n.ins.(type) {
			case *ssa.Send:
				c.Fail("send", "stoppable", pos(n), "a worker sends without a way to be stopped")
			case *ssa.Select:
				if !x.Blocking {
					for i, st := range x.States {
						c.checkRecvFrom(g, n, st, i, mg, results)
					}
					continue
				}
				send, stop := false, false
				for i, st := range x.States {
					pl := p.place(fval{n.fr, st.Chan})
					if st.Dir == types.SendOnly {
						send = send || pl == results
						c.Check(pl == results, "block", "select", pos(n), "a worker sends to an unknown channel")
						continue
					}
					if c.checkRecvFrom(g, n, st, i, mg, results) == "stop" {
						stop = true
					}
				}
				if send {
					// needed only when the scan may end early
					c.Check(stop || len(earlyEnds(mg, isGoWorker, exhausted)) == 0, "send", "stoppable", pos(n), "a worker that hands over a result cannot be told to stop")
				}
				if !send && stop {
					c.OK("block", "select", pos(n))
				}
			case *ssa.UnOp:
				if x.Op != token.ARROW {
					continue
				}
				pl := p.place(fval{n.fr, x.X})
				// a receive without alternative: the queue must have been closed
				if isQueue(mg, pl) {
					ok := mg.reach([]*fnode{w.n}, func(k *fnode) bool {
						u, isU := k.ins.(*ssa.UnOp)
						return k.kind == "" && isU && u.Op == token.ARROW && p.place(fval{k.fr, u.X}) == results
					}, isClose(mg, pl)) == nil || len(closedBefore(mg, w.n, isClose(mg, pl))) > 0
					c.Check(ok, "idle", "closed queue", pos(n), "a worker waits for the queue, which is not closed before the results are awaited")
					// at the end of the queue the worker ends
					for _, e := range g.find(func(e *fnode) bool { return e.kind == "edge" && g.closedEdge(e) == pl }) {
						back := g.reach([]*fnode{e}, func(k *fnode) bool { return k == n }, nil)
						c.Check(back == nil, "idle", "end of queue", pos(n), "a worker goes on after the end of the queue")
					}
					if !x.CommaOk {
						c.Fail("idle", "end of queue", pos(n), "a worker does not notice the end of the queue")
					}
				} else {
					c.Fail("block", "receive", pos(n), "a worker waits for an unknown channel")
				}
			case *ssa.Go:
				c.Fail("structure", "nested", pos(n), "a worker starts another goroutine")
			}
		}
		// a poll of the queue that finds nothing ends the worker
		for _, e := range g.nodes {
			if s, k, ok := e.selectEdge(); ok && k == -1 {
				polls := false
				for _, st := range s.States {
					if st.Dir == types.RecvOnly && isQueue(mg, p.place(fval{e.fr, st.Chan})) {
						polls = true
					}
				}
				if polls {
					back := g.reach([]*fnode{e}, func(k *fnode) bool { return k.ins == s && k.kind == "" }, nil)
					c.Check(back == nil, "idle", "empty queue", pos(e), "a worker that finds the queue empty may go on")
				}
			}
		}
		for _, n := range g.nodes {
			cc := n.callOf()
			if cc == nil || cc.StaticCallee() == nil {
				continue
			}
			if nm := funcQual(cc.StaticCallee()); strings.HasSuffix(nm, ".Wait") && strings.HasPrefix(nm, "(*sync.") {
				c.Fail("block", "wait", pos(n), "a worker waits for "+nm)
			}
		}

		// started once per Add
		adds := func(n *fnode) bool {
			if !isM(mg, wgAdd)(n) {
				return false
			}
			k, ok := n.callOf().Args[1].(*ssa.Const)
			return ok && constant.Compare(k.Value, token.EQL, constant.MakeInt64(1))
		}
		other := mg.find(func(n *fnode) bool { return isM(mg, wgAdd)(n) && !adds(n) })
		if len(other) == 0 {
			stop := func(n *fnode) bool { return isGoWorker(n) }
			c1 := mg.counts(mg.entry, stop, adds)
			c2 := mg.counts(w.n, stop, adds)
			c.Check(only(c1, 1) && (len(c2) == 0 || only(c2, 1)), "count", "before the start", wp, "additions before the first worker "+countsString(c1)+", between two workers "+countsString(c2))
			// no addition without a worker
			for _, a := range mg.find(adds) {
				lost := mg.reach([]*fnode{a}, func(n *fnode) bool { return n == mg.exit || adds(n) }, isGoWorker)
				c.Check(lost == nil, "count", "per worker", pos(a), "the wait group may be increased without a worker")
			}
		} else {
			ok := len(other) == 1 && len(mg.find(adds)) == 0 && len(workers) == 1 && boundOfLoop(w.n.ins, p, w.n.fr) != nil &&
				sameVal(p, fval{other[0].fr, other[0].callOf().Args[1]}, fval{w.n.fr, boundOfLoop(w.n.ins, p, w.n.fr)}) &&
				mg.reach([]*fnode{mg.entry}, isGoWorker, func(n *fnode) bool { return n == other[0] }) == nil
			c.Check(ok, "count", "before the start", wp, "the number added to the wait group is not the number of workers started")
		}
	}

	// the queue
	queues := map[any]bool{}
	for _, n := range mg.nodes {
		for _, ch := range mg.sends(n) {
			queues[ch] = true
		}
	}
	m := p.processModel()
	paths := gparam(m.Fn, len(m.Fn.Params)-1)
	for _, w := range m.Workers {
		jobs, _, _ := m.jobsOf(w)
		if jobs == nil {
			continue
		}
		n := 0
		for _, e := range m.Main {
			if e.Kind == "send" && e.Args[0].single() == jobs {
				n++
				ok := len(e.Loops) == 1 && stripRev(e.Loops[0]) == paths
				c.Check(ok, "queue", "one per package", p.InstrPos(e.Ins), "the queue is filled in a way that is not understood")
			}
		}
		capOK := false
		for _, mem := range []GMem{w.Ev.Mem} {
			if v, ok := mem[mk("capof", nil, "", nil, jobs)]; ok {
				t := v.single()
				t = strip(t)
				capOK = t != nil && t.Op == "len" && t.Args[0] == paths
			}
		}
		c.Check(n == 1 && capOK, "queue", "capacity", p.InstrPos(w.Ev.Ins), "the queue cannot be shown to hold every package: filling it may block")
	}
	for _, n := range mg.nodes {
		if n.kind != "" {
			continue
		}
		if s, ok := n.ins.(*ssa.Select); ok && s.Blocking {
			c.Fail("block", "select", pos(n), "the scan waits in a select that is not understood")
		}
		if u, ok := n.ins.(*ssa.UnOp); ok && u.Op == token.ARROW {
			pl := p.place(fval{n.fr, u.X})
			c.Check(pl == results && u.CommaOk, "block", "receive", pos(n), "the scan waits for a channel other than the results")
		}
	}

	// closing the results
	closes := 0
	var closer *gor
	for i := range others {
		w := &others[i]
		g := w.g
		cl := g.find(isClose(g, results))
		if len(cl) == 0 {
			// some other helper: it must end
			for _, n := range g.nodes {
				if n.ins != nil && n.kind == "" && blocksForever(n) {
					c.Fail("block", "helper", pos(n), "a helper goroutine may wait for ever")
				}
			}
			continue
		}
		closes += len(cl)
		closer = w
		for _, n := range cl {
			early := g.reach([]*fnode{g.entry}, func(x *fnode) bool { return x == n }, isM(g, wgWait))
			c.Check(early == nil, "close", "after the workers", pos(n), "the results may be closed while workers still run")
		}
		cs := g.counts(g.entry, isExit(g), isClose(g, results))
		c.Check(only(cs, 1), "close", "on every path", pos(w.n), "paths of the helper close the results "+countsString(cs)+" times")
		for _, n := range g.nodes {
			if n.ins != nil && n.kind == "" && blocksForever(n) {
				c.Fail("block", "helper", pos(n), "the helper goroutine waits for something else")
			}
		}
		// started after every worker was added, before the results are awaited
		late := mg.reach([]*fnode{w.n}, func(x *fnode) bool { return isM(mg, wgAdd)(x) || isGoWorker(x) }, nil)
		c.Check(late == nil, "close", "workers counted", pos(w.n), "a worker may be added after the helper started to wait")
		first := mg.reach([]*fnode{mg.entry}, func(x *fnode) bool {
			u, ok := x.ins.(*ssa.UnOp)
			return x.kind == "" && ok && u.Op == token.ARROW
		}, func(x *fnode) bool { return x == w.n })
		c.Check(first == nil, "close", "helper started", pos(w.n), "the results may be awaited without the helper that closes them")
		again := mg.reach([]*fnode{w.n}, func(x *fnode) bool { return x == w.n }, nil)
		c.Check(again == nil, "close", "one helper", pos(w.n), "several helpers may close the results")
	}
	inMain := mg.find(isClose(mg, results))
	for _, w := range workers {
		inMain = append(inMain, w.g.find(isClose(w.g, results))...)
	}
	c.Check(closer != nil && closes == 1 && len(inMain) == 0, "close", "once", p.Pos(fn.Pos()), fmt.Sprintf("%d place(s) close the results", closes+len(inMain)))

	// returning
	for _, w := range workers {
		bad := mg.reach([]*fnode{w.n}, isExit(mg), func(n *fnode) bool { return exhausted(n) || isM(mg, wgWait)(n) })
		c.Check(bad == nil, "return", "workers ended", pos(w.n), "the scan may return while workers run")
	}
	for _, n := range mg.find(isM(mg, wgWait)) {
		// before waiting, the workers are told to stop
		var stopCh []any
		for _, w := range workers {
			stopCh = append(stopCh, stopsOf(w.g, results, mg)...)
		}
		told := func(x *fnode) bool {
			if exhausted(x) {
				return true
			}
			for _, s := range stopCh {
				if isClose(mg, s)(x) {
					return true
				}
			}
			return false
		}
		bad := mg.reach([]*fnode{mg.entry}, func(x *fnode) bool { return x == n }, told)
		c.Check(bad == nil, "stop", "told before waiting", pos(n), "the scan may wait for workers which wait to hand over a result")
	}
	if len(mg.find(isM(mg, wgWait))) == 0 {
		c.OK("stop", "no waiting", p.Pos(fn.Pos()))
	}
	// channels closed at most once
	for _, n := range mg.nodes {
		if pl, ok := mg.builtin(n, "close"); ok {
			again := mg.reach([]*fnode{n}, func(x *fnode) bool { q, ok := mg.builtin(x, "close"); return ok && q == pl }, nil)
			c.Check(again == nil, "stop", "closed once", pos(n), "a channel may be closed twice")
		}
	}
}

// checkRecvFrom classifies a receive of a select in a worker: the queue or a stop signal.
func (c *Ctx) checkRecvFrom(g *fgraph, n *fnode, st *ssa.SelectState, i int, mg *fgraph, results any) string {
	if st.Dir != types.RecvOnly {
		return ""
	}
	pl := c.P.place(fval{n.fr, st.Chan})
	if isQueue(mg, pl) {
		return "queue"
	}
	closed := mg.find(func(x *fnode) bool { q, ok := mg.builtin(x, "close"); return ok && q == pl })
	if len(closed) > 0 {
		// told to stop: the worker ends without another result
		s := n.ins.(*ssa.Select)
		for _, e := range g.nodes {
			if q, k, ok := e.selectEdge(); ok && q == s && k == i && e.fr == n.fr {
				on := g.reach([]*fnode{e}, func(x *fnode) bool { return len(g.sends(x)) > 0 && x.kind == "" }, nil)
				c.Check(on == nil, "send", "stops when told", c.P.InstrPos(n.ins), "a worker told to stop goes on")
			}
		}
		return "stop"
	}
	if n.ins.(*ssa.Select).Blocking {
		c.Fail("block", "select", c.P.InstrPos(n.ins), "a worker waits for a channel nobody closes or fills")
	}
	return ""
}

// stopsOf: the stop channels offered at every handing over of a result.
func stopsOf(g *fgraph, results any, mg *fgraph) []any {
	var out []any
	for _, n := range g.nodes {
		s, ok := n.ins.(*ssa.Select)
		if !ok || n.kind != "" {
			continue
		}
		send := false
		for _, st := range s.States {
			if st.Dir == types.SendOnly && g.p.place(fval{n.fr, st.Chan}) == results {
				send = true
			}
		}
		if !send {
			continue
		}
		for _, st := range s.States {
			if st.Dir == types.RecvOnly {
				out = append(out, g.p.place(fval{n.fr, st.Chan}))
			}
		}
	}
	return out
}

// sends lists the channels an instruction sends to.
func (g *fgraph) sends(n *fnode) []any {
	if n.kind != "" {
		return nil
	}
	switch x := n.ins.(type) {
	case *ssa.Send:
		return []any{g.p.place(fval{n.fr, x.Chan})}
	case *ssa.Select:
		var out []any
		for _, st := range x.States {
			if st.Dir == types.SendOnly {
				out = append(out, g.p.place(fval{n.fr, st.Chan}))
			}
		}
		return out
	}
	return nil
}

func isQueue(mg *fgraph, pl any) bool {
	for _, n := range mg.nodes {
		for _, ch := range mg.sends(n) {
			if ch == pl {
				return true
			}
		}
	}
	return false
}

// closedBefore: places which close the queue on every path before the worker starts.
func closedBefore(mg *fgraph, w *fnode, isClose func(*fnode) bool) []*fnode {
	if mg.reach([]*fnode{mg.entry}, func(n *fnode) bool { return n == w }, isClose) == nil {
		return mg.find(isClose)
	}
	return nil
}

// earlyEnds: ends of the scan before the results are exhausted.
func earlyEnds(mg *fgraph, started, exhausted func(*fnode) bool) []*fnode {
	if n := mg.reach(mg.find(started), func(n *fnode) bool { return n == mg.exit }, exhausted); n != nil {
		return []*fnode{n}
	}
	return nil
}

func blocksForever(n *fnode) bool {
	switch x := n.ins.(type) {
	case *ssa.Send:
		return true
	case *ssa.Select:
		return x.Blocking
	case *ssa.UnOp:
		return x.Op == token.ARROW
	}
	return false
}

// boundOfLoop: the n of `for i := 0; i < n; i++` around the instruction.
func boundOfLoop(ins ssa.Instruction, p *Program, fr *fframe) ssa.Value {
	for b := ins.Block(); b != nil; b = b.Idom() {
		if len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		lt, ok := i.Cond.(*ssa.BinOp)
		if ok && lt.Op == token.LSS {
			if ph, ok := lt.X.(*ssa.Phi); ok && len(ph.Edges) == 2 {
				if k, ok := ph.Edges[0].(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
					return lt.Y
				}
			}
		}
	}
	return nil
}

func sameVal(p *Program, a, b fval) bool {
	x, y := p.origin(a), p.origin(b)
	if x.v == y.v {
		return true
	}
	k, ok1 := x.v.(*ssa.Const)
	l, ok2 := y.v.(*ssa.Const)
	return ok1 && ok2 && k.Value != nil && l.Value != nil && constant.Compare(k.Value, token.EQL, l.Value)
}

// ---- locks

type lockset map[any]bool

func (l lockset) key() string {
	var s []string
	for k := range l {
		s = append(s, fmt.Sprintf("%p", k))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func lockOf(p *Program, fr *fframe, cc *ssa.CallCommon) (any, int) {
	f := cc.StaticCallee()
	if f == nil || len(cc.Args) == 0 {
		return nil, 0
	}
	switch funcQual(f) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return p.place(fval{fr, cc.Args[0]}), 1
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return p.place(fval{fr, cc.Args[0]}), -1
	case "(*sync.RWMutex).RLock":
		return p.place(fval{fr, cc.Args[0]}), 2
	case "(*sync.RWMutex).RUnlock":
		return p.place(fval{fr, cc.Args[0]}), -1
	}
	return nil, 0
}

// locksAt computes the locks certainly held before each instruction, given those held at entry.
func locksAt(p *Program, fr *fframe, entry lockset) map[ssa.Instruction]lockset {
	fn := fr.fn
	in := map[*ssa.BasicBlock]lockset{fn.Blocks[0]: entry}
	out := map[ssa.Instruction]lockset{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := lockset{}
		for k := range in[b] {
			cur[k] = true
		}
		for _, ins := range b.Instrs {
			cp := lockset{}
			for k := range cur {
				cp[k] = true
			}
			out[ins] = cp
			switch x := ins.(type) {
			case *ssa.Call:
				l, d := lockOf(p, fr, &x.Call)
				if d == 1 || d == 2 {
					cur[l] = true
				} else if d < 0 {
					delete(cur, l)
				}
			}
		}
		for _, s := range b.Succs {
			old, ok := in[s]
			if !ok {
				in[s] = cur
				work = append(work, s)
				continue
			}
			nw := lockset{}
			for k := range old {
				if cur[k] {
					nw[k] = true
				}
			}
			if len(nw) != len(old) {
				in[s] = nw
				work = append(work, s)
			}
		}
	}
	return out
}

// checkLocks: in each function which locks, the lock is released on every path and not taken twice.
func checkLocks(c *Ctx) {
	p := c.P
	for _, f := range p.Funcs {
		locks := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if _, d := lockOf(p, nil, ci.Common()); d > 0 {
						locks = true
					}
				}
			}
		}
		if !locks {
			continue
		}
		g := p.flowGraph(&fframe{fn: f}, func(ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return false
			}
			_, d := lockOf(p, nil, ci.Common())
			return d != 0
		})
		for _, n := range g.nodes {
			cc := n.callOf()
			if cc == nil {
				continue
			}
			l, d := lockOf(p, n.fr, cc)
			if d <= 0 {
				continue
			}
			is := func(want int) func(*fnode) bool {
				return func(x *fnode) bool {
					cc := x.callOf()
					if cc == nil {
						return false
					}
					k, e := lockOf(p, x.fr, cc)
					return k == l && (e > 0) == (want > 0) && e != 0
				}
			}
			c.Check(g.reach([]*fnode{n}, func(x *fnode) bool { return x == g.exit }, is(-1)) == nil, "locks", FuncName(f), p.InstrPos(n.ins), "the lock may still be held when the function returns")
			c.Check(g.reach([]*fnode{n}, is(1), is(-1)) == nil, "locks", FuncName(f), p.InstrPos(n.ins), "the lock may be taken again while it is held")
			// a panic while the lock is held without a deferred release is the business of C17
			// calls to other functions of the module while holding the lock must not take it again
			for _, x := range heldCalls(p, g, n, is(-1)) {
				for r := range p.reachableFrom(x) {
					for _, b := range r.Blocks {
						for _, ins := range b.Instrs {
							if ci, ok := ins.(ssa.CallInstruction); ok {
								if k, e := lockOf(p, &fframe{fn: r}, ci.Common()); e > 0 && k == l {
									c.Fail("locks", FuncName(f), p.InstrPos(n.ins), "the lock is taken again by "+FuncName(r))
								}
							}
						}
					}
				}
			}
		}
	}
}

func heldCalls(p *Program, g *fgraph, n *fnode, release func(*fnode) bool) []*ssa.Function {
	var out []*ssa.Function
	g.reach([]*fnode{n}, func(x *fnode) bool {
		if cc := x.callOf(); cc != nil && x.kind != "inlined" && !release(x) {
			if f := cc.StaticCallee(); f != nil && p.InModule(f) && len(f.Blocks) > 0 {
				out = append(out, f)
			}
		}
		return false
	}, release)
	return out
}

// ---- sharing

type shAccess struct {
	loc, base any
	write     bool
	pos       string
	fn        string
	locks     lockset
	worker    string
	ins       ssa.Instruction
}

func safeType(t types.Type) bool {
	for {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "log", "context":
		return true
	}
	return n.Obj().Pkg().Path() == "go/token" && n.Obj().Name() == "FileSet"
}

// sharedAccesses lists the accesses of one activation to what it did not make itself.  top is the first
// activation that belongs to the goroutine (nil: nothing made here is shared).
func sharedAccesses(p *Program, fr *fframe, inside func(*fframe) bool, entry lockset, calls bool, seen map[string]bool, out *[]shAccess) {
	key := fr.fn.String() + "@" + entry.key()
	for f := fr; f != nil; f = f.up {
		if f != fr && f.fn == fr.fn {
			return
		}
		key += fmt.Sprintf("/%p", f.call)
	}
	if seen[key] || len(seen) > 20000 {
		return
	}
	seen[key] = true
	held := locksAt(p, fr, entry)
	add := func(ins ssa.Instruction, v ssa.Value, write, content bool) {
		loc, base, own := sharedLoc(p, fval{fr, v}, inside)
		if own {
			return
		}
		if content {
			loc = contents{loc}
		}
		*out = append(*out, shAccess{loc: loc, base: base, write: write, ins: ins, pos: p.InstrPos(ins), fn: FuncName(fr.fn), locks: held[ins]})
	}
	for _, b := range fr.fn.Blocks {
		for _, ins := range b.Instrs {
			if _, ok := held[ins]; !ok {
				continue // unreachable
			}
			switch x := ins.(type) {
			case *ssa.Store:
				add(ins, x.Addr, true, false)
			case *ssa.UnOp:
				if x.Op == token.MUL && !safeType(x.Type()) {
					add(ins, x.X, false, false)
				}
			case *ssa.MapUpdate:
				add(ins, x.Map, true, false)
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					add(ins, x.X, false, false)
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					add(ins, x.X, false, false)
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear", "copy":
						add(ins, cc.Args[0], true, true)
					case "append":
						add(ins, cc.Args[0], true, true)
					}
					continue
				}
				if cc.IsInvoke() || cc.StaticCallee() == nil {
					cal, clo, cfr := p.calleeOf(fr, cc)
					if cal != nil && p.InModule(cal) && len(cal.Blocks) > 0 && calls {
						sharedAccesses(p, &fframe{fn: cal, up: fr, call: cc, clo: clo, cfr: cfr, d: fr.d + 1}, inside, held[ins], calls, seen, out)
						continue
					}
					if calls {
						for _, m := range p.calledBy(fr.fn) {
							sharedAccesses(p, &fframe{fn: m, d: fr.d + 1}, func(f *fframe) bool { return true }, held[ins], calls, seen, out)
						}
					}
					continue
				}
				cal := cc.StaticCallee()
				if p.InModule(cal) && len(cal.Blocks) > 0 {
					if _, isGo := ins.(*ssa.Go); isGo {
						continue
					}
					if calls {
						_, clo, cfr := p.calleeOf(fr, cc)
						sharedAccesses(p, &fframe{fn: cal, up: fr, call: cc, clo: clo, cfr: cfr, d: fr.d + 1}, inside, held[ins], calls, seen, out)
					}
					continue
				}
				// library code: a method may change its receiver, other arguments are read
				for i, a := range cc.Args {
					switch a.Type().Underlying().(type) {
					case *types.Pointer, *types.Map:
					default:
						continue
					}
					if safeType(a.Type()) {
						continue
					}
					recv := i == 0 && cal.Signature.Recv() != nil
					add(ins, a, recv, false)
				}
			}
		}
	}
}

// sharedLoc: the location an address or reference belongs to, the allocation it lies in if that is known,
// and whether it was made by the goroutine itself.
func sharedLoc(p *Program, x fval, inside func(*fframe) bool) (loc, base any, own bool) {
	for i := 0; i < 60; i++ {
		o := p.origin(x)
		switch v := o.v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Const, *ssa.Function:
			return v, v, inside(o.fr)
		case *ssa.Global:
			return v, v, false
		case *ssa.FieldAddr:
			_, b, mine := sharedLoc(p, fval{o.fr, v.X}, inside)
			return addrField(v), b, mine
		case *ssa.IndexAddr:
			if _, isArr := v.X.Type().Underlying().(*types.Pointer); isArr {
				x = fval{o.fr, v.X}
				continue
			}
			l, b, mine := sharedLoc(p, fval{o.fr, v.X}, inside)
			return contents{l}, b, mine
		case *ssa.UnOp:
			if v.Op == token.MUL {
				l, b, mine := sharedLoc(p, fval{o.fr, v.X}, inside)
				if mine {
					// what a private location refers to: private only if everything stored there is
					return l, b, mine && privateContents(p, o.fr, v.X, inside, 0)
				}
				return contents{l}, nil, false
			}
			return v, nil, true
		case *ssa.Slice:
			x = fval{o.fr, v.X}
			continue
		case *ssa.Phi:
			own = true
			for _, e := range v.Edges {
				if e == v {
					continue
				}
				l, b, mine := sharedLocD(p, fval{o.fr, e}, inside, 1)
				if !mine {
					return l, b, false
				}
			}
			return v, nil, true
		case *ssa.Call, *ssa.Extract, *ssa.Lookup, *ssa.TypeAssert:
			// results of calls: taken as made for the caller unless it is an accessor of the module
			return v, nil, true
		case *ssa.Parameter, *ssa.FreeVar:
			return v, nil, false
		case *ssa.MakeInterface:
			x = fval{o.fr, v.X}
			continue
		default:
			return v, nil, true
		}
	}
	return x.v, nil, false
}

func sharedLocD(p *Program, x fval, inside func(*fframe) bool, d int) (any, any, bool) {
	if _, ok := x.v.(*ssa.Phi); ok {
		return x.v, nil, true
	}
	return sharedLoc(p, x, inside)
}

func privateContents(p *Program, fr *fframe, addr ssa.Value, inside func(*fframe) bool, d int) bool {
	al, ok := addr.(*ssa.Alloc)
	if !ok || d > 2 {
		return true
	}
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if ph, isPhi := s.Val.(*ssa.Phi); isPhi {
				_ = ph
				continue
			}
			if _, _, mine := sharedLoc(p, fval{fr, s.Val}, inside); !mine {
				return false
			}
		}
	}
	return true
}

func checkShared(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		var gos []*ssa.Go
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if g, ok := ins.(*ssa.Go); ok {
					gos = append(gos, g)
				}
			}
		}
		if len(gos) == 0 || f.Parent() != nil {
			continue
		}
		n++
		var acc []shAccess
		bodies := map[*ssa.Function]bool{}
		main := &fframe{fn: f}
		for _, g := range gos {
			cal, clo, cfr := p.calleeOf(main, &g.Call)
			if cal == nil || !p.InModule(cal) || len(cal.Blocks) == 0 {
				c.Fail("shared", FuncName(f), p.InstrPos(g), "the body of a goroutine is not known")
				continue
			}
			bodies[cal] = true
			top := &fframe{fn: cal, up: main, call: &g.Call, clo: clo, cfr: cfr, d: 1}
			inside := func(x *fframe) bool {
				for ; x != nil; x = x.up {
					if x == top {
						return true
					}
				}
				return false
			}
			var as []shAccess
			sharedAccesses(p, top, inside, lockset{}, true, map[string]bool{}, &as)
			for i := range as {
				as[i].worker = FuncName(cal)
			}
			acc = append(acc, as...)
		}
		// the starting side
		var mine []shAccess
		reach := p.reachableExcept(bodies, f)
		first := map[ssa.Instruction]bool{}
		for _, g := range gos {
			for _, ins := range after(g) {
				first[ins] = true
			}
		}
		for r := range reach {
			if bodies[r] {
				continue
			}
			var as []shAccess
			fr := &fframe{fn: r}
			ins := func(x *fframe) bool { return r != f }
			held := map[string]bool{}
			sharedAccesses(p, fr, ins, lockset{}, false, held, &as)
			if r == f {
				// only what happens after a goroutine was started
				as = nil
				sharedAccesses2(p, fr, ins, first, &as)
			}
			mine = append(mine, as...)
		}
		overlap := func(a, b shAccess) bool {
			if a.loc == b.loc {
				return true
			}
			return a.base != nil && a.base == b.loc || b.base != nil && b.base == a.loc
		}
		protected := func(a, b shAccess) bool {
			for l := range a.locks {
				if b.locks[l] {
					return true
				}
			}
			return false
		}
		bad := map[string]bool{}
		for i, a := range acc {
			okA := true
			for _, b := range acc[i:] {
				if (a.write || b.write) && overlap(a, b) && !protected(a, b) {
					k := "workers"
					if !bad[k+a.pos+b.pos] {
						bad[k+a.pos+b.pos] = true
						c.Fail("shared", locName(a.loc), a.pos, fmt.Sprintf("goroutines of %s change %s (%s) without a common lock (%s)", FuncName(f), locName(a.loc), a.pos, b.pos))
					}
					okA = false
				}
			}
			for _, b := range mine {
				if (a.write || b.write) && overlap(a, b) && !protected(a, b) {
					k := "main"
					if !bad[k+a.pos+locName(a.loc)] {
						bad[k+a.pos+locName(a.loc)] = true
						c.Fail("shared", locName(a.loc), a.pos, fmt.Sprintf("a goroutine of %s uses %s while %s uses it at %s, one of them writing", FuncName(f), locName(a.loc), b.fn, b.pos))
					}
					okA = false
				}
			}
			if okA {
				c.OK("shared", locName(a.loc), a.pos)
			}
		}
		c.Stat("shared accesses of goroutines", len(acc))
		c.Stat("functions on the consuming side", len(reach))
	}
	c.Check(n > 0, "shared", "goroutines", "-", "no goroutines found")
}

// sharedAccesses2 keeps the accesses of one function after its goroutines were started.
func sharedAccesses2(p *Program, fr *fframe, inside func(*fframe) bool, keep map[ssa.Instruction]bool, out *[]shAccess) {
	var as []shAccess
	sharedAccesses(p, fr, inside, lockset{}, false, map[string]bool{}, &as)
	for _, a := range as {
		if keep[a.ins] {
			*out = append(*out, a)
		}
	}
}

// after lists the instructions which may execute after the given one.
func after(ins ssa.Instruction) []ssa.Instruction {
	var out []ssa.Instruction
	b := ins.Block()
	seen := map[*ssa.BasicBlock]bool{}
	on := false
	for _, x := range b.Instrs {
		if on {
			out = append(out, x)
		}
		if x == ins {
			on = true
		}
	}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, k.Instrs...)
		work = append(work, k.Succs...)
	}
	return out
}

func locName(l any) string {
	switch x := l.(type) {
	case *types.Var:
		return "field " + x.Name()
	case *ssa.Global:
		return x.RelString(nil)
	case *ssa.Alloc:
		return "variable " + x.Comment
	case contents:
		return "contents of " + locName(x.Loc)
	case ssa.Value:
		return x.Name() + " " + x.Type().String()
	}
	return fmt.Sprint(l)
}
