package main

import (
	"go/ast"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"text/template/parse"
)

func structTag(tag, key string) string { return reflect.StructTag(tag).Get(key) }

func flatPieces(format *Term, args []*Term) ([]piece, bool) { return sprintfPieces(format, args) }

func (g *Gate) deCompGV(v GV) GV {
	var out []gl
	for _, a := range v.L {
		out = append(out, gl{a.g, g.deComp(a.t)})
	}
	return gvNorm(out)
}

type embeddedFile struct {
	path string // relative to the repository
	text string
}

// embedded finds the file with the given suffix that a package embeds.
func (p *Program) embedded(rel, suffix string) embeddedFile {
	pk := p.ByID[sub(rel)]
	if pk == nil {
		panic(undecided{"package " + rel + " not found"})
	}
	for _, f := range pk.Syntax {
		dir := filepath.Dir(p.Fset.Position(f.Pos()).Filename)
		var groups []*ast.CommentGroup
		groups = append(groups, f.Comments...)
		for _, cg := range groups {
			for _, cm := range cg.List {
				if !strings.HasPrefix(cm.Text, "//go:embed ") {
					continue
				}
				for _, n := range strings.Fields(strings.TrimPrefix(cm.Text, "//go:embed ")) {
					if !strings.HasSuffix(n, suffix) {
						continue
					}
					b, err := os.ReadFile(filepath.Join(dir, n))
					if err != nil {
						panic(undecided{"embedded file " + n + ": " + err.Error()})
					}
					r, err := filepath.Rel(p.Dir, filepath.Join(dir, n))
					if err != nil {
						r = n
					}
					return embeddedFile{r, string(b)}
				}
			}
		}
	}
	panic(undecided{"package " + rel + " embeds no " + suffix + " file"})
}

func (e embeddedFile) parse(l, r string) *parse.ListNode {
	t := parse.New("t")
	t.Mode = parse.SkipFuncCheck
	set := map[string]*parse.Tree{}
	if _, err := t.Parse(e.text, l, r, set); err != nil {
		panic(undecided{e.path + ": " + err.Error()})
	}
	return t.Root
}

// templateLabels pairs each output action of a template with the literal text before it.
func templateLabels(e embeddedFile) [][2]string {
	var out [][2]string
	walkTemplate(e.parse("", ""), nil, func(n parse.Node, ctx []parse.Node, before string) {
		if a, ok := n.(*parse.ActionNode); ok {
			out = append(out, [2]string{before, a.Pipe.String()})
		}
	})
	return out
}

// walkTemplate visits the nodes of a template with their enclosing control nodes and the text
// directly before them.
func walkTemplate(l *parse.ListNode, ctx []parse.Node, f func(n parse.Node, ctx []parse.Node, before string)) {
	if l == nil {
		return
	}
	before := ""
	for _, n := range l.Nodes {
		f(n, ctx, before)
		switch n := n.(type) {
		case *parse.TextNode:
			before = string(n.Text)
			continue
		case *parse.RangeNode:
			walkTemplate(n.List, append(ctx[:len(ctx):len(ctx)], n), f)
			walkTemplate(n.ElseList, append(ctx[:len(ctx):len(ctx)], n), f)
		case *parse.IfNode:
			walkTemplate(n.List, append(ctx[:len(ctx):len(ctx)], n), f)
			walkTemplate(n.ElseList, append(ctx[:len(ctx):len(ctx)], n), f)
		case *parse.WithNode:
			walkTemplate(n.List, append(ctx[:len(ctx):len(ctx)], n), f)
			walkTemplate(n.ElseList, append(ctx[:len(ctx):len(ctx)], n), f)
		}
		before = ""
	}
}

func sortStrings(s []string) { sort.Strings(s) }
