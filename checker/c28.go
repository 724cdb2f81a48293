package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C28", checkC28) }

// methods of the encoders of the structured formats: what they write is encoded
var encoderMethod = regexp.MustCompile(`^\(\*(encoding/csv\.Writer|encoding/json\.Encoder|encoding/xml\.Encoder|[^ ]*yaml[^ ]*\.Encoder)\)\.`)

var structuredFormats = []string{"report/json", "report/yaml", "report/csv", "report/junit", "report/html", "report/sonar", "report/sarif"}

func checkC28(c *Ctx) {
	p := c.P
	c.Rule("xml-tags", "no field of an XML document is written raw (innerxml or comment)")
	c.Rule("encoder-only", "writers of structured formats write only literal text and what the format's encoder produced")
	c.Rule("html", "the page receives the data in a script context of an auto-escaping template and never as markup")
	c.Rule("no-bypass", "no conversion or setting switches escaping off")
	c.Rule("marshalers", "hand-written encodings are produced by the encoder")

	// XML tags
	n := 0
	for _, pk := range p.Pkgs {
		for id, o := range pk.TypesInfo.Defs {
			tn, ok := o.(*types.TypeName)
			if !ok || id == nil {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				tag := structTag(st.Tag(i), "xml")
				if tag == "" {
					continue
				}
				n++
				bad := false
				for _, o := range strings.Split(tag, ",")[1:] {
					bad = bad || o == "innerxml" || o == "comment"
				}
				c.Check(!bad, "xml-tags", tn.Name()+"."+st.Field(i).Name(), p.Pos(st.Field(i).Pos()), "tag "+tag)
			}
		}
	}
	c.Min("xml-tags", 8)

	for _, rel := range structuredFormats {
		c.Guard("encoder-only", rel, func() {
			m := p.reportModel(rel, "WriteReport", nil)
			var w *Term
			for i, q := range m.Fn.Params {
				if types.TypeString(q.Type(), nil) == "io.Writer" {
					w = gparam(m.Fn, i)
				}
			}
			if w == nil {
				panic(undecided{"no writer parameter"})
			}
			k := 0
			for _, e := range m.G.Events {
				if e.Kind != "call" && e.Kind != "defer" {
					continue
				}
				uses := gvHas(e.Recv, func(x *Term) bool { return x == w })
				for _, a := range e.Args {
					uses = uses || gvHas(a, func(x *Term) bool { return x == w })
				}
				if !uses {
					continue
				}
				k++
				pos := p.InstrPos(e.Ins)
				n := e.Name
				switch {
				case n == "encoding/csv.NewWriter" || n == "encoding/json.NewEncoder" || n == "encoding/xml.NewEncoder" || strings.Contains(n, "yaml") && strings.HasSuffix(n, ".NewEncoder"):
					c.OK("encoder-only", rel+" writes through "+n, pos)
					continue
				case encoderMethod.MatchString(n):
					c.OK("encoder-only", rel+" writes through "+n, pos)
					continue
				case n == "(*html/template.Template).Execute" || n == "(*html/template.Template).ExecuteTemplate":
					c.OK("encoder-only", rel+" writes through "+n, pos)
					continue
				}
				// what else is written: constants and encoded bytes
				as := append([]GV{}, e.Args...)
				if e.VarOK {
					as = append(as, e.Var...)
				}
				ok := true
				det := ""
				for _, a := range as {
					for _, x := range a.L {
						if !m.encoded(x.t, w) {
							ok = false
							det = brief(x.t.String())
						}
					}
				}
				c.Check(ok, "encoder-only", rel+" writes through "+shortName(n), pos, det)
			}
			c.Check(k > 0, "encoder-only", rel+" writes its report", p.Pos(m.Fn.Pos()), fmt.Sprint(k))
		})
	}

	c.Guard("html", "template", func() {
		e := p.embedded("report/html", ".html")
		root := e.parse("", "")
		before := ""
		k := 0
		for _, nd := range root.Nodes {
			switch nd := nd.(type) {
			case *parse.TextNode:
				before += string(nd.Text)
			case *parse.ActionNode:
				k++
				i := strings.LastIndex(before, "<script")
				in := i >= 0 && !strings.Contains(before[i:], "</script")
				tag := ""
				if in {
					tag = before[i:]
					if j := strings.Index(tag, ">"); j >= 0 {
						tag = tag[:j+1]
					}
				}
				js := in && (!strings.Contains(tag, "type=") || regexp.MustCompile(`type=["']?(text/javascript|application/javascript|module|application/json)`).MatchString(tag))
				pre := strings.TrimRight(before, " \t\n")
				c.Check(!in && !strings.HasSuffix(pre, "=") || js && !strings.HasSuffix(pre, `"`) && !strings.HasSuffix(pre, "'") && !strings.HasSuffix(pre, "`"), "html", "position of "+nd.String(), e.path, "inside "+tag+" after "+tail(pre, 20))
				c.Check(len(nd.Pipe.Cmds) == 1, "html", "no functions on "+nd.String(), e.path, "")
				before += "X"
			}
		}
		c.Check(k >= 1, "html", "template inserts the data", e.path, fmt.Sprint(k))
		for _, bad := range []string{"dangerouslySetInnerHTML", "innerHTML", "outerHTML", "document.write", "insertAdjacentHTML", "eval(", "new Function", "srcdoc", "__html", "createContextualFragment"} {
			c.Check(!strings.Contains(e.text, bad), "html", "page script does not use "+bad, e.path, "")
		}
	})

	// bypasses
	conv := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface:
					conv++
					var t types.Type
					switch y := x.(type) {
					case *ssa.ChangeType:
						t = y.Type()
					case *ssa.Convert:
						t = y.Type()
					case *ssa.MakeInterface:
						t = y.X.Type()
					}
					s := types.TypeString(t, nil)
					if strings.HasPrefix(s, "html/template.") && s != "html/template.FuncMap" && !strings.HasPrefix(s, "html/template.Template") {
						c.Fail("no-bypass", FuncName(fn), p.InstrPos(ins), "converts to "+s)
					}
					if s == "encoding/json.RawMessage" {
						c.Fail("no-bypass", FuncName(fn), p.InstrPos(ins), "raw JSON")
					}
				case ssa.CallInstruction:
					f := x.Common().StaticCallee()
					if f == nil {
						continue
					}
					q := funcQual(f)
					if q == "(*encoding/json.Encoder).SetEscapeHTML" && FuncPkg(fn) != nil && strings.Contains(FuncPkg(fn).Path(), "/report") {
						if k, ok := x.Common().Args[1].(*ssa.Const); !ok || k.Value.String() != "true" {
							c.Fail("no-bypass", FuncName(fn), p.InstrPos(ins), "JSON is written without escaping markup")
						}
					}
					if q == "(*html/template.Template).Funcs" || q == "(*html/template.Template).Delims" {
						c.Fail("no-bypass", FuncName(fn), p.InstrPos(ins), q)
					}
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X.Type().String() == "*encoding/csv.Writer" {
						c.Fail("no-bypass", FuncName(fn), p.InstrPos(ins), "changes the CSV dialect")
					}
				}
			}
		}
	}
	c.OK("no-bypass", "conversions of the whole module", fmt.Sprintf("%d conversions", conv))

	// the HTML writer uses the auto-escaping engine
	hp := p.ByID[sub("report/html")]
	imp := false
	if hp != nil {
		_, imp = hp.Imports["html/template"]
		_, txt := hp.Imports["text/template"]
		c.Check(imp && !txt, "html", "template engine of the HTML writer", "report/html", "html/template")
	}

	// hand-written encodings
	k := 0
	for _, fn := range p.Funcs {
		if fn.Signature.Recv() == nil || fn.Synthetic != "" {
			continue
		}
		switch fn.Name() {
		case "MarshalJSON", "MarshalText", "MarshalYAML", "MarshalXML":
		default:
			continue
		}
		k++
		c.Guard("marshalers", FuncName(fn), func() {
			if fn.Name() == "MarshalYAML" || fn.Name() == "MarshalText" {
				c.OK("marshalers", FuncName(fn), "its value is encoded again")
				return
			}
			g := NewGate(p)
			r := g.Run(fn)
			for _, a := range r.Rets[0].L {
				t := a.t
				if t.Op == "nil" {
					continue
				}
				ok := false
				for _, e := range g.Events {
					if e.Kind == "call" && (e.Name == "encoding/json.Marshal" || e.Name == "encoding/json.MarshalIndent") && res(e, 0) == t {
						ok = true
					}
				}
				if _, isC := constStr(strip(t)); isC {
					ok = true
				}
				c.Check(ok, "marshalers", FuncName(fn), p.Pos(fn.Pos()), brief(t.String()))
			}
		})
	}
	c.Check(k >= 2, "marshalers", "hand-written encodings", "-", fmt.Sprint(k))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// encoded: literal text, the writer itself, or bytes the encoder produced.
func (m *reportModel) encoded(t, w *Term) bool {
	t = strip(t)
	if t == w || isConst(t) || t.Op == "nil" {
		return true
	}
	if t.Op == "convert" {
		return m.encoded(t.Args[0], w)
	}
	if t.Op == "append" || t.Op == "spread" || t.Op == "bin" {
		for _, a := range t.Args {
			if !m.encoded(a, w) {
				return false
			}
		}
		return true
	}
	for _, e := range m.G.Events {
		if e.Kind == "call" && e.Result != nil && strings.Contains(e.Name, ".Marshal") && res(e, 0) == t {
			return true
		}
	}
	if t.Op == "alloc" {
		// a local array of values: every element written
		ok := false
		for _, e := range m.G.Events {
			if e.Kind == "store" {
				for _, a := range e.Args[0].L {
					if contains(a.t, func(x *Term) bool { return x == t }) {
						ok = true
						for _, v := range e.Args[1].L {
							if !m.encoded(v.t, w) {
								return false
							}
						}
					}
				}
			}
		}
		return ok
	}
	return false
}
