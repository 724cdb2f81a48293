package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Node is one executable instruction in one activation.
type Node struct {
	Fr    *Frame
	Ins   ssa.Instruction
	Succ  []*Node
	After *Node // for inlined calls: pseudo node after the call returns
	Kind  string
}

// Graph is the pruned interprocedural flow graph of a Result.
type Graph struct {
	R     *Result
	Nodes []*Node
	at    map[*Frame]map[ssa.Instruction]*Node
	Entry *Node
	Exit  *Node            // normal return of the root
	Dead  map[*Node]string // nodes where the process or goroutine ends
}

// Graph builds the supergraph of executed instructions.
func (r *Result) Graph() *Graph {
	g := &Graph{R: r, at: map[*Frame]map[ssa.Instruction]*Node{}, Dead: map[*Node]string{}}
	g.Exit = &Node{Kind: "exit"}
	g.Entry = g.frame(r.Root, g.Exit)
	g.Nodes = append(g.Nodes, g.Exit)
	return g
}

func (g *Graph) frame(fr *Frame, ret *Node) *Node {
	idx := map[ssa.Instruction]*Node{}
	g.at[fr] = idx
	for b := range fr.reach {
		for _, ins := range b.Instrs {
			n := &Node{Fr: fr, Ins: ins}
			idx[ins] = n
			g.Nodes = append(g.Nodes, n)
		}
	}
	first := func(b *ssa.BasicBlock) *Node { return idx[b.Instrs[0]] }
	for b := range fr.reach {
		for i, ins := range b.Instrs {
			n := idx[ins]
			var next *Node
			if i+1 < len(b.Instrs) {
				next = idx[b.Instrs[i+1]]
			}
			switch x := ins.(type) {
			case *ssa.Return:
				n.Succ = append(n.Succ, ret)
				continue
			case *ssa.Panic:
				g.Dead[n] = "panic"
				continue
			case *ssa.If, *ssa.Jump:
				if s := fr.succ[b]; s != nil {
					for k, t := range b.Succs {
						if s[k] {
							n.Succ = append(n.Succ, first(t))
						}
					}
				}
				continue
			case *ssa.Call:
				ci := fr.calls[x]
				if ci != nil && (noReturn[ci.Name] || ci.Name == "builtin.panic") {
					g.Dead[n] = ci.Name
					continue
				}
				if chs := fr.children[x]; len(chs) > 0 {
					after := &Node{Fr: fr, Kind: "after", Ins: x}
					g.Nodes = append(g.Nodes, after)
					n.After = after
					for _, ch := range chs {
						n.Succ = append(n.Succ, g.frame(ch, after))
					}
					if next != nil {
						after.Succ = append(after.Succ, next)
					}
					// some callees may have been opaque
					if ci != nil && !ci.Child && next != nil {
						n.Succ = append(n.Succ, next)
					}
					if callHasOpaque(fr, x) && next != nil {
						n.Succ = append(n.Succ, next)
					}
					continue
				}
			}
			if next != nil {
				n.Succ = append(n.Succ, next)
			}
		}
	}
	return first(fr.Fn.Blocks[0])
}

func callHasOpaque(fr *Frame, c *ssa.Call) bool {
	ci := fr.calls[c]
	if ci == nil || ci.Recv == nil {
		return false
	}
	for _, a := range alts(ci.Recv) {
		switch a.Op {
		case "iface", "func", "closure":
		default:
			return true
		}
	}
	return false
}

// Find lists nodes satisfying the predicate.
func (g *Graph) Find(pred func(*Node) bool) []*Node {
	var out []*Node
	for _, n := range g.Nodes {
		if n.Ins != nil && n.Kind == "" && pred(n) {
			out = append(out, n)
		}
	}
	return out
}

// Call returns the call information of a node that executes a call (or go/defer).
func (n *Node) Call() *CallInfo {
	if n.Fr == nil || n.Kind != "" {
		return nil
	}
	return n.Fr.calls[n.Ins]
}

// Store returns address and value of a node that writes memory or a map, or sends.
func (n *Node) Store() (addr, val *Term, ok bool) {
	if n.Fr == nil || n.Kind != "" {
		return nil, nil, false
	}
	s, ok := n.Fr.stores[n.Ins]
	return s[0], s[1], ok
}

func (n *Node) Val(e *Engine, v ssa.Value) *Term { return e.val(n.Fr, v) }

// ReachAvoid reports whether `to` can be reached from the successors of `from` without passing a node
// that satisfies avoid.
func (g *Graph) ReachAvoid(from *Node, to func(*Node) bool, avoid func(*Node) bool) bool {
	seen := map[*Node]bool{}
	work := append([]*Node{}, from.Succ...)
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		if avoid != nil && avoid(n) {
			continue
		}
		if to(n) {
			return true
		}
		work = append(work, n.Succ...)
	}
	return false
}

// Counts computes, over all executable paths from the successors of `from` to a stop node, how often
// (0, 1, 2=more) the event occurs.  The stop node itself is not counted.
func (g *Graph) Counts(from *Node, stop func(*Node) bool, event func(*Node) bool) map[int]bool {
	type st struct {
		n *Node
		c int
	}
	out := map[int]bool{}
	seen := map[st]bool{}
	var work []st
	for _, s := range from.Succ {
		work = append(work, st{s, 0})
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[s] {
			continue
		}
		seen[s] = true
		if stop(s.n) {
			out[s.c] = true
			continue
		}
		c := s.c
		if event(s.n) && c < 2 {
			c++
		}
		for _, x := range s.n.Succ {
			work = append(work, st{x, c})
		}
	}
	return out
}

// CountsFromEntry is Counts starting at (and including) the entry.
func (g *Graph) CountsFromEntry(stop func(*Node) bool, event func(*Node) bool) map[int]bool {
	return g.Counts(&Node{Succ: []*Node{g.Entry}}, stop, event)
}

func (g *Graph) isExit(n *Node) bool { return n == g.Exit }

func countsString(m map[int]bool) string {
	s := ""
	for i := 0; i <= 2; i++ {
		if m[i] {
			if s != "" {
				s += ","
			}
			if i == 2 {
				s += "2+"
			} else {
				s += fmt.Sprint(i)
			}
		}
	}
	return "{" + s + "}"
}

func only(m map[int]bool, c int) bool { return len(m) == 1 && m[c] }
