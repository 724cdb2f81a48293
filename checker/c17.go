package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C17", checkC17) }

// Every operation of rule code that can panic is an obligation: what it works on is there under the condition
// under which the operation happens. What may be missing follows from what the parser and the type checker
// promise about programs with errors.

// missing: fields of syntax and type information which may be nil.
var missing = map[string]bool{
	"go/ast.Ident.Obj": true, "go/ast.Object.Decl": true, "go/ast.Object.Data": true, "go/ast.Object.Type": true,
	"go/ast.CompositeLit.Type": true, "go/ast.TypeAssertExpr.Type": true, "go/ast.FuncDecl.Recv": true, "go/ast.FuncDecl.Body": true,
	"go/ast.FuncType.Results": true, "go/ast.FuncType.TypeParams": true, "go/ast.ValueSpec.Type": true, "go/ast.Field.Tag": true,
	"go/ast.RangeStmt.Key": true, "go/ast.RangeStmt.Value": true, "go/ast.ForStmt.Init": true, "go/ast.ForStmt.Cond": true,
	"go/ast.ForStmt.Post": true, "go/ast.IfStmt.Init": true, "go/ast.IfStmt.Else": true, "go/ast.SwitchStmt.Init": true,
	"go/ast.SwitchStmt.Tag": true, "go/ast.TypeSwitchStmt.Init": true, "go/ast.CommClause.Comm": true, "go/ast.BranchStmt.Label": true,
	"go/ast.ImportSpec.Name": true, "go/ast.ImportSpec.Doc": true, "go/ast.ImportSpec.Comment": true, "go/ast.Ellipsis.Elt": true,
	"go/ast.SliceExpr.Low": true, "go/ast.SliceExpr.High": true, "go/ast.SliceExpr.Max": true, "go/ast.ArrayType.Len": true,
	"go/ast.GenDecl.Doc": true, "go/ast.FuncDecl.Doc": true, "go/ast.ValueSpec.Doc": true, "go/ast.ValueSpec.Comment": true,
	"go/ast.TypeSpec.Doc": true, "go/ast.TypeSpec.Comment": true, "go/ast.TypeSpec.TypeParams": true, "go/ast.Field.Doc": true,
	"go/ast.Field.Comment": true, "go/ast.File.Doc": true, "go/ast.Scope.Outer": true,
	"golang.org/x/tools/go/ssa.Const.Value": true, "golang.org/x/tools/go/ssa.Function.Pkg": true, "golang.org/x/tools/go/ssa.Function.Recover": true,
	"golang.org/x/tools/go/ssa.CallCommon.Method": true, "golang.org/x/tools/go/ssa.Slice.Low": true, "golang.org/x/tools/go/ssa.Slice.High": true,
	"golang.org/x/tools/go/ssa.Slice.Max": true, "golang.org/x/tools/go/ssa.Function.Signature": false,
	"github.com/google/generative-ai-go/genai.Candidate.Content": true, "github.com/google/generative-ai-go/genai.GenerateContentResponse.PromptFeedback": true,
	"go/types.TypeAndValue.Value": true, "go/types.TypeAndValue.Type": true,
}

// missingResult: functions outside the module whose result may be nil.
var missingResult = map[string]bool{
	"(*go/types.Info).TypeOf": true, "(*go/types.Info).ObjectOf": true, "(*go/types.Info).PkgNameOf": true,
	"(go/types.Object).Parent": true, "(go/types.Object).Pkg": true, "(*go/types.Var).Pkg": true,
	"(*go/types.object).Pkg": true, "(*go/types.Func).Pkg": true, "(*go/types.Const).Pkg": true, "(*go/types.TypeName).Pkg": true,
	"(*go/types.Scope).Lookup": true, "(*go/types.Scope).Parent": true, "(*go/types.Scope).Innermost": true, "(*go/types.Scope).LookupParent": true,
	"(*go/types.Signature).Recv": true, "(*go/types.Signature).TypeParams": true, "(*go/types.MethodSet).Lookup": true,
	"(*golang.org/x/tools/go/ssa.CallCommon).StaticCallee": true, "(golang.org/x/tools/go/ssa.Value).Parent": true, "(golang.org/x/tools/go/ssa.Value).Referrers": true,
	"(golang.org/x/tools/go/ssa.Node).Referrers": true, "(golang.org/x/tools/go/ssa.Node).Parent": true,
	"(*golang.org/x/tools/go/ssa.Function).Object": true, "(*golang.org/x/tools/go/ssa.Function).Package": true, "(*golang.org/x/tools/go/ssa.Function).Parent": true,
	"(*golang.org/x/tools/go/ssa.Function).Syntax": true, "(*golang.org/x/tools/go/ssa.Program).Package": true, "(*golang.org/x/tools/go/ssa.Package).Func": true,
	"(*golang.org/x/tools/go/ssa.Package).Var": true, "(*golang.org/x/tools/go/ssa.Package).Type": true, "(*golang.org/x/tools/go/ssa.Package).Const": true,
	"(*golang.org/x/tools/go/ssa.Const).Parent": true, "(*golang.org/x/tools/go/ssa.Const).Referrers": true, "(*golang.org/x/tools/go/ssa.Global).Parent": true,
	"(*golang.org/x/tools/go/ssa.Global).Referrers": true, "(*golang.org/x/tools/go/ssa.Function).Referrers": true, "(*golang.org/x/tools/go/ssa.Program).FuncValue": true,
	"(*golang.org/x/tools/go/ssa.Builtin).Parent": true, "(*golang.org/x/tools/go/ssa.Builtin).Referrers": true, "(*golang.org/x/tools/go/ssa.Program).VarValue": true,
	"(*golang.org/x/tools/go/ssa.CallCommon).Signature": false,
	"(*go/ast.Scope).Lookup":                            true, "go/types.Universe.Lookup": true,
	"(*go/types.Func).Scope": true, "go/constant.Val": true,
}

// leastLen: lists of syntax which are never empty.
var leastLen = map[string]int64{
	"go/ast.AssignStmt.Lhs": 1, "go/ast.AssignStmt.Rhs": 1, "go/ast.ValueSpec.Names": 1, "go/ast.BasicLit.Value": 1, "go/ast.CommentGroup.List": 1,
	"go/ast.IndexListExpr.Indices": 1, "golang.org/x/tools/go/ssa.Phi.Edges": 1,
}

// nilSafe: methods which may be called on nil.
var nilSafe = map[string]bool{
	"(*go/ast.CommentGroup).Text": true, "(*go/ast.FieldList).NumFields": true, "(*go/ast.Ident).String": true, "(*go/ast.File).Pos": false,
	"(*go/types.Tuple).Len": true, "(*go/types.TypeParamList).Len": true, "(*go/types.TypeList).Len": true,
}

func fieldKey(v *types.Var, owner types.Type) string {
	if n := namedName(owner); n != "" {
		return n + "." + v.Name()
	}
	return v.Name()
}

type panics struct {
	// inline, when it is set, says which functions are evaluated as a part of their callers.
	inline func(root, h *ssa.Function) bool
	// known, when it is set, says which values are there for reasons outside of the function, absent which of
	// them may not be, and kindOf which assertions succeed for values which are there.
	known  func(t *Term) bool
	absent func(t *Term) string
	kindOf func(x *panics, t *Term) bool
	// as is the rule the obligations are reported under, when it is not the kind of the operation.
	as      string
	p       *Program
	c       *Ctx
	work    []*ssa.Function
	done    map[*ssa.Function]*pfunc
	sep     map[*ssa.Function]bool // evaluated on their own
	dirty   bool
	results map[*ssa.Function]map[int]bool
	given   map[*Term]bool
	unset   map[*types.Var]string // fields which a rule is made without
}

type pfunc struct {
	fn     *ssa.Function
	g      *Gate
	res    *GResult
	needs  map[int]bool // parameters which must not be nil
	params []*Term
}

// ownOf: the type whose field a term reads.
func ownOf(t *Term) string {
	f, _ := t.Obj.(*types.Var)
	if f == nil || len(t.Args) == 0 {
		return ""
	}
	ty := t.Args[0].Typ
	if ty == nil {
		return ownerName(f)
	}
	if pt, ok := ty.Underlying().(*types.Pointer); ok {
		ty = pt.Elem()
	}
	if n := namedName(ty); n != "" {
		return n + "." + f.Name()
	}
	return ownerName(f)
}

var ownerNames = map[*types.Var]string{}

// ownerName finds the type a field is declared in.
func ownerName(f *types.Var) string {
	if f.Pkg() == nil || !f.IsField() {
		return ""
	}
	if s, ok := ownerNames[f]; ok {
		return s
	}
	sc := f.Pkg().Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			ownerNames[st.Field(i)] = f.Pkg().Path() + "." + n + "." + st.Field(i).Name()
		}
	}
	return ownerNames[f]
}

// mayBeNil: why a value may be nil, apart from the condition; "" when it never is.
func (x *panics) mayBeNil(t *Term, G BDD, depth int) string {
	if depth > 8 {
		return ""
	}
	t = strip(t)
	switch t.Op {
	case "nil":
		return "nil"
	case "tassert":
		return "the type assertion may have failed"
	case "field":
		if f, ok := t.Obj.(*types.Var); ok && x.unset[f] != "" {
			return x.unset[f] + " is made without " + f.Name()
		}
		if missing[ownOf(t)] && !ofOperand(t) {
			return ownOf(t) + " may be nil"
		}
		return ""
	case "mapget":
		return "the key may be missing"
	case "loopvar":
		return "loopvar"
	case "call", "extract":
		call, idx := t, 0
		if t.Op == "extract" {
			call = t.Args[0]
			fmt.Sscan(fmt.Sprint(t.Obj), &idx)
		}
		if call.Op == "tassert" || call.Op != "call" {
			return ""
		}
		n := callName(call)
		if missingResult[n] {
			return n + " may return nil"
		}
		if n == "(*go/token.FileSet).File" && len(call.Args) > 1 && !ofSyntax(call.Args[1]) {
			return n + " may return nil"
		}
		if fn, ok := call.Obj.(*ssa.Function); ok {
			if x.p.InModule(fn) {
				if x.resultNil(fn, idx) {
					return FuncName(fn) + " may return nil"
				}
				return ""
			}
			if x.errIndex(fn.Signature) >= 0 && idx != x.errIndex(fn.Signature) {
				return n + " may have failed"
			}
		}
		return ""
	case "param":
		// the scanner hands rules a node and a context; both are passed on
		if n := namedName(deref2(t.Typ)); n == sub("")+".Context" || x.given[t] {
			return ""
		}
		return "param"
	}
	return ""
}

func (x *panics) errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 1 && sig.Results().At(n-1).Type().String() == "error" {
		return n - 1
	}
	return -1
}

// facts adds what a function evaluated on its own says about the call its outcome is asked of.
func (x *panics) facts(G BDD) BDD {
	r := G
	for _, a := range bSupport(G) {
		call, idx := a, 0
		var eq *Term
		if isEq(a) {
			v := strip(a.Args[0])
			if isNilT(v) {
				v = strip(a.Args[1])
			} else if !isNilT(strip(a.Args[1])) {
				continue
			}
			call, eq = v, mkNil()
		}
		if call.Op == "extract" {
			fmt.Sscan(fmt.Sprint(call.Obj), &idx)
			call = call.Args[0]
		}
		fn, ok := call.Obj.(*ssa.Function)
		if !ok || call.Op != "call" {
			continue
		}
		h := x.done[fn]
		if h == nil || h.res == nil || idx >= len(h.res.Rets) || len(call.Args) != len(h.params) {
			continue
		}
		c := bF
		for _, l := range h.res.Rets[idx].L {
			if eq != nil {
				c = bOr(c, bAnd(l.g, h.g.eq1(l.t, eq)))
			} else {
				c = bOr(c, bAnd(l.g, bddOf(l.t)))
			}
		}
		// what the outcome follows from, in terms of the arguments
		at := map[*Term]*Term{}
		for i, p := range h.params {
			at[p] = strip(call.Args[i])
		}
		s := newSubst(h.g, nil, func(y *Term) *Term {
			if y.Op == "tassert" {
				if v := at[y.Args[0]]; v != nil && v.Typ != nil && types.Identical(v.Typ, y.Obj.(types.Type)) {
					return v
				}
			}
			return at[y]
		})
		c = bRestrict(s.bdd(c), func(a *Term) (bool, bool) {
			// the arguments are handed over without their conversion to interfaces
			if a.Op != "tassertok" || a.Args[0].Typ == nil || types.IsInterface(a.Args[0].Typ) {
				return false, false
			}
			want := a.Obj.(types.Type)
			if it, ok := want.Underlying().(*types.Interface); ok {
				return types.Implements(a.Args[0].Typ, it), true
			}
			return types.Identical(a.Args[0].Typ, want), true
		})
		r = bAnd(r, bImp(bm.atom(a), c))
		if h.res.RetG != bT {
			// however its loops went
			c = bNot(bExistsQ(bNot(c), func(a *Term) bool {
				return a.Op == "stops" || a.Op == "exists" || deepContains(a, func(y *Term) bool { return strings.HasPrefix(y.Op, "loop") })
			}))
		}
		r = bAnd(r, bImp(c, bm.atom(a)))
	}
	return r
}

// resultNil: a function of the module may return nil there.
func (x *panics) resultNil(fn *ssa.Function, idx int) bool {
	if m, ok := x.results[fn]; ok {
		if v, ok := m[idx]; ok {
			return v
		}
	} else {
		x.results[fn] = map[int]bool{}
	}
	x.results[fn][idx] = false
	// a function which recovers from a panic returns what its results are set to at that point
	out := fn.Recover != nil
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok && idx < len(r.Results) {
				if x.valueNil(r.Results[idx], map[ssa.Value]bool{}) {
					out = true
				}
			}
		}
	}
	x.results[fn][idx] = out
	return out
}

func (x *panics) valueNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.Phi:
		for _, e := range v.Edges {
			if x.valueNil(e, seen) {
				return true
			}
		}
	case *ssa.Lookup:
		return true
	case *ssa.Call:
		if fn := v.Call.StaticCallee(); fn != nil {
			if x.p.InModule(fn) {
				return x.resultNil(fn, 0)
			}
			return missingResult[funcQual(fn)]
		}
		if v.Call.IsInvoke() {
			return missingResult[methodQual(v.Call.Method)]
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if fn := c.Call.StaticCallee(); fn != nil && x.p.InModule(fn) {
				return x.resultNil(fn, v.Index)
			}
		}
	case *ssa.ChangeInterface:
		return x.valueNil(v.X, seen)
	case *ssa.MakeInterface:
		return false
	}
	return false
}

func methodQual(m *types.Func) string { return m.FullName() }

// without: the condition with the value nil, and everything that follows from it.
// possible: a condition may hold.
func (x *panics) possible(G BDD) bool {
	if sat(G) == bF {
		return false
	}
	H := x.facts(G)
	return H == G || sat(H) != bF
}

func (x *panics) without(f *pfunc, G BDD, t *Term) BDD {
	r := x.without1(f, G, t)
	if r != bF {
		if H := x.facts(G); H != G {
			r = x.without1(f, H, t)
		}
	}
	return r
}

func (x *panics) without1(f *pfunc, G BDD, t *Term) BDD {
	s := newSubst(f.g, nil, func(y *Term) *Term {
		if y == t {
			return mkNil()
		}
		return nil
	})
	r := s.bdd(G)
	r = bRestrict(r, func(a *Term) (bool, bool) {
		switch {
		case a.Op == "tassertok" && isNilT(strip(a.Args[0])):
			return false, true
		case isEq(a) && isNilT(strip(a.Args[0])) && isNilT(strip(a.Args[1])):
			return true, true
		}
		return false, false
	})
	// how the value was come by
	if t.Op == "tassert" {
		r = bAnd(r, bNot(bm.atom(mk("tassertok", t.Obj, "", types.Typ[types.Bool], t.Args[0]))))
	}
	if t.Op == "mapget" {
		r = bAnd(r, bNot(bm.atom(mk("has", nil, t.Ctx, types.Typ[types.Bool], t.Args[0], t.Args[1]))))
	}
	if t.Op == "extract" {
		call := t.Args[0]
		fn, _ := call.Obj.(*ssa.Function)
		if n := resultCount(call); n > 1 && (fn == nil || fn.Recover == nil) {
			r = bRestrict(r, func(a *Term) (bool, bool) {
				// with the error nil, or with true, the value is there
				last := func(y *Term) bool {
					y = strip(y)
					return y.Op == "extract" && y.Args[0] == call && fmt.Sprint(y.Obj) == fmt.Sprint(n-1)
				}
				if isEq(a) && (last(a.Args[0]) && isNilT(strip(a.Args[1])) || last(a.Args[1]) && isNilT(strip(a.Args[0]))) {
					return false, true
				}
				if last(a) && isBoolTyped(a) {
					return false, true
				}
				return false, false
			})
		}
	}
	return sat(r)
}

func resultCount(call *Term) int {
	switch o := call.Obj.(type) {
	case *ssa.Function:
		return o.Signature.Results().Len()
	case *types.Func:
		return o.Type().(*types.Signature).Results().Len()
	}
	return 0
}

// isNilable: the type has a nil whose use panics.
func isNilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// present reports when a value may be nil; own collects the parameters that have to be there.
func (x *panics) present(f *pfunc, v GV, G BDD) string {
	for _, l := range v.L {
		c := bAnd(G, l.g)
		if c == bF {
			continue
		}
		t := strip(l.t)
		if t.Op == "gv" {
			if w := x.present(f, gvTerms[t], c); w != "" {
				return w
			}
			continue
		}
		why := x.mayBeNil(t, c, 0)
		if why == "" && x.absent != nil {
			why = x.absent(t)
		}
		if why == "" || x.known != nil && x.known(t) {
			continue
		}
		if t.Op == "loopvar" {
			why = x.loopNil(f, t)
			if why == "" {
				continue
			}
		}
		if t.Op == "nil" {
			if x.possible(c) {
				return "it is nil when " + brief(bString(sat(c)))
			}
			continue
		}
		if r := x.without(f, c, t); r != bF {
			if why == "param" {
				for i, p := range f.params {
					if p == t && !f.needs[i] {
						f.needs[i] = true
						x.dirty = true
					}
				}
				continue
			}
			return why + ": " + brief(t.String())
		}
	}
	return ""
}

// loopNil: a value carried around a loop may be nil when what it starts with or goes on with may be.
func (x *panics) loopNil(f *pfunc, t *Term) string {
	vals := []GV{f.g.LoopInit[t]}
	if r, ok := f.g.Rounds[t]; ok {
		vals = append(vals, r.Val)
	}
	for i, v := range vals {
		G := bT
		if i == 1 {
			G = f.g.Rounds[t].G
		}
		for _, l := range v.L {
			y := strip(l.t)
			if y == t || y.Op == "loopvar" || y.Op == "param" {
				continue
			}
			if why := x.mayBeNil(y, l.g, 1); why != "" && x.without(f, bAnd(G, l.g), y) != bF {
				return why + " in a loop: " + brief(y.String())
			}
		}
	}
	return ""
}

// ofSyntax: the position of a piece of syntax, which is in a file; that of an instruction may be unknown.
func ofSyntax(t *Term) bool {
	t = strip(t)
	// a file which could not be parsed at all has none
	return t.Op == "call" && strings.Contains(callName(t), "go/ast.") && callName(t) != "(*go/ast.File).Pos" && strings.HasSuffix(callName(t), "Pos")
}

// ofOperand: the value of a constant which is an operand. Analyzers compare and convert numbers only: neither
// a comparison of a length nor a conversion between integer types has nil as its operand.
func ofOperand(t *Term) bool {
	if ownOf(t) != "golang.org/x/tools/go/ssa.Const.Value" || len(t.Args) == 0 {
		return false
	}
	return deepContains(t.Args[0], func(y *Term) bool {
		switch ownOf(y) {
		case "golang.org/x/tools/go/ssa.BinOp.X", "golang.org/x/tools/go/ssa.BinOp.Y", "golang.org/x/tools/go/ssa.Convert.X":
			return true
		}
		return false
	})
}

// endsBlock: the successors of the block which an If ends.
func endsBlock(t *Term) bool {
	if ownOf(t) != "golang.org/x/tools/go/ssa.BasicBlock.Succs" || len(t.Args) == 0 {
		return false
	}
	b := strip(t.Args[0])
	if b.Op == "deref" {
		b = strip(b.Args[0])
	}
	return b.Op == "call" && strings.HasSuffix(callName(b), ".Block") && len(b.Args) > 0 && deepContains(b.Args[0], func(y *Term) bool {
		return y.Typ != nil && namedName(deref2(y.Typ)) == "golang.org/x/tools/go/ssa.If"
	})
}

// least is the smallest length that is known of a list.
func least(t *Term) int64 {
	t = strip(t)
	if t.Op == "field" || t.Op == "load" {
		if endsBlock(t) {
			return 2
		}
		return leastLen[ownOf(t)]
	}
	if t.Op == "call" {
		switch callName(t) {
		case sub("") + ".GetBinaryExprOperands":
			// every operation has operands
			return 1
		case "strings.Split", "strings.SplitAfter":
			if len(t.Args) == 2 && leastText(t.Args[1]) > 0 {
				return 1
			}
		case "strings.SplitN", "strings.SplitAfterN":
			if k, ok := constInt(strip(t.Args[2])); ok && k != 0 && leastText(t.Args[1]) > 0 {
				return 1
			}
		case "(*regexp.Regexp).Split":
			if k, ok := constInt(strip(t.Args[2])); ok && k != 0 {
				return 1
			}
		}
	}
	if t.Op == "elem" && len(t.Args) > 0 {
		// every match has all groups
		l := strip(t.Args[0])
		if l.Op == "gv" {
			n := int64(-1)
			for _, a := range gvTerms[l].L {
				if k := least(mk("elem", nil, "", t.Typ, strip(a.t))); n < 0 || k < n {
					n = k
				}
			}
			return max(n, 0)
		}
		if l.Op == "call" && strings.HasPrefix(callName(l), "(*regexp.Regexp).FindAll") && strings.Contains(callName(l), "Submatch") {
			if re := patternIn(l.Args[0]); re != nil {
				return int64(re.NumSubexp()) + 1
			}
		}
	}
	return 0
}

// unlessEmpty is the smallest length a list has when it is not empty.
func unlessEmpty(t *Term) int64 {
	t = strip(t)
	if t.Op == "call" && callName(t) == "(*regexp.Regexp).FindStringSubmatch" {
		if r := patternIn(t.Args[0]); r != nil {
			return int64(r.NumSubexp()) + 1
		}
	}
	return 1
}

// patternIn is the regular expression made by a term.
func patternIn(t *Term) *regexp.Regexp {
	if re := strip(t); re.Op == "call" && len(re.Args) > 0 {
		if s, ok := constStr(strip(re.Args[0])); ok {
			if r, err := regexp.Compile(s); err == nil {
				return r
			}
		}
	}
	return nil
}

// tableValue: a list kept in a map which is made here.
func tableValue(ts ...*Term) *Term {
	var found *Term
	for _, t := range ts {
		walkTerm(t, func(y *Term) bool {
			switch y.Op {
			case "mapval", "mapget":
				m := y.Args[0]
				if m.Op == "maprange" {
					m = m.Args[0]
				}
				if _, ok := y.Typ.Underlying().(*types.Slice); ok && strip(m).Op == "alloc" && found == nil {
					found = y
				}
			}
			return true
		})
	}
	return found
}

// rows are the lists which are put into a map.
func (x *panics) rows(f *pfunc, t *Term) ([][]*Term, bool) {
	m := t.Args[0]
	if m.Op == "maprange" {
		m = m.Args[0]
	}
	m = strip(m)
	var out [][]*Term
	// a table of the package, set when the program starts
	pre := map[*Term]bool{}
	for a := range f.g.PreInit {
		pre[a] = true
	}
	for _, a := range sortedTerms(pre) {
		if a.Op != "mapaddr" || strip(a.Args[0]) != m {
			continue
		}
		for _, v := range f.g.PreInit[a].L {
			es, ok := f.g.sliceElems(f.g.PreInit, strip(v.t))
			if !ok {
				return nil, false
			}
			row := make([]*Term, len(es))
			for i, el := range es {
				if row[i] = el.single(); row[i] == nil {
					return nil, false
				}
			}
			out = append(out, row)
		}
	}
	for _, e := range f.g.Events {
		if e.Kind != "mapstore" || len(e.Args) < 3 {
			continue
		}
		for _, a := range e.Args[0].L {
			if strip(a.t) != m {
				continue
			}
			for _, v := range e.Args[2].L {
				l := strip(v.t)
				n, ok := constInt(f.g.lenOf(nil, l).term())
				if l.Op != "alloc" || !ok {
					return nil, false
				}
				row := make([]*Term, n)
				for _, s := range f.g.Events {
					if s.Kind != "store" || len(s.Args) < 2 {
						continue
					}
					if at := s.Args[0].single(); at != nil && at.Op == "indexaddr" && strip(at.Args[0]) == l {
						k, ok := constInt(strip(at.Args[1]))
						val := s.Args[1].single()
						if !ok || val == nil || k >= n || row[k] != nil {
							return nil, false
						}
						row[k] = val
					}
				}
				for _, y := range row {
					if y == nil {
						return nil, false
					}
				}
				out = append(out, row)
			}
		}
	}
	return out, len(out) > 0
}

// atLeast: the list has at least n elements under the condition.
func (x *panics) atLeast(f *pfunc, G BDD, list, length *Term, n int64) bool {
	if n <= 0 || n <= least(list) {
		return true
	}
	length = strip(length)
	if fx := firstFacts(G, list, length); fx != bT {
		G = bAnd(G, fx)
	}
	if x.found(f, G, list, n) {
		return true
	}
	if v, ok := constInt(length); ok {
		return v >= n
	}
	switch length.Op {
	case "gv":
		for _, l := range gvTerms[length].L {
			if c := bAnd(G, l.g); c != bF && !x.atLeast(f, c, list, l.t, n) {
				return false
			}
		}
		return true
	case "bin":
		if length.Obj == "+" {
			for i := 0; i < 2; i++ {
				if k, ok := constInt(strip(length.Args[i])); ok {
					return x.atLeast(f, G, list, length.Args[1-i], n-k)
				}
			}
		}
	}
	for v := least(list); v < n; v++ {
		if v > 0 && v < unlessEmpty(list) {
			continue
		}
		k := mkInt(v)
		s := newSubst(f.g, nil, func(y *Term) *Term {
			if y == length {
				return k
			}
			return nil
		})
		r := s.bdd(G)
		r = bRestrict(r, constCompare)
		if v == 0 {
			// nothing is found in an empty list
			r = bRestrict(r, func(a *Term) (bool, bool) {
				if isEq(a) && (strip(a.Args[0]) == list && isNilT(strip(a.Args[1])) || strip(a.Args[1]) == list && isNilT(strip(a.Args[0]))) {
					// the parser leaves a list out when there is nothing in it
					return true, strings.HasPrefix(ownOf(list), "go/ast.") || list.Op == "call" && callName(list) == "(*regexp.Regexp).FindStringSubmatch"
				}
				return false, a.Op == "exists" && len(a.Args) > 0 && stripRev(a.Args[0]) == list
			})
		}
		if x.possible(r) {
			return false
		}
	}
	return true
}

// found: the condition says of a text that another one is in it, so that it is at least as long, and that it
// has parts when it is split there.
func (x *panics) found(f *pfunc, G BDD, list *Term, n int64) bool {
	text, sep := list, (*Term)(nil)
	if list.Op == "call" {
		switch callName(list) {
		case "strings.SplitN", "strings.SplitAfterN":
			k, ok := constInt(strip(list.Args[2]))
			if !ok || k >= 0 && k < 2 || n > 2 || leastText(list.Args[1]) == 0 {
				return false
			}
			text, sep = strip(list.Args[0]), strip(list.Args[1])
		case "strings.Split", "strings.SplitAfter":
			if n > 2 || leastText(list.Args[1]) == 0 {
				return false
			}
			text, sep = strip(list.Args[0]), strip(list.Args[1])
		}
	}
	if sep == nil {
		b, ok := text.Typ, text.Typ != nil
		if ok {
			var bt *types.Basic
			bt, ok = b.Underlying().(*types.Basic)
			ok = ok && bt.Info()&types.IsString != 0
		}
		if !ok {
			return false
		}
	}
	any := false
	r := bRestrict(G, func(a *Term) (bool, bool) {
		a = strip(a)
		if a.Op != "call" || len(a.Args) < 2 {
			return false, false
		}
		switch callName(a) {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			if strip(a.Args[0]) != text {
				return false, false
			}
			if sep != nil && strip(a.Args[1]) == sep || sep == nil && leastText(a.Args[1]) >= n {
				any = true
				return false, true
			}
		case "(*regexp.Regexp).MatchString":
			if strip(a.Args[1]) != text || sep == nil {
				return false, false
			}
			if re := strip(a.Args[0]); re.Op == "call" && strings.HasSuffix(callName(re), "Compile") && len(re.Args) > 0 && matchHas(strip(re.Args[0]), sep) {
				any = true
				return false, true
			}
		}
		return false, false
	})
	return any && !x.possible(r)
}

// leastText is the smallest length that is known of a text.
func leastText(t *Term) int64 {
	n := int64(0)
	for _, q := range pieces(strip(t)) {
		if q.val == nil {
			n += int64(len(q.lit))
		}
	}
	return n
}

// matchHas: whatever the expression matches contains the text.
func matchHas(expr, text *Term) bool {
	has := false
	for i, q := range pieces(expr) {
		if q.val == nil {
			if i > 0 && strings.HasPrefix(q.lit, "*") {
				return false
			}
			if strings.ContainsAny(q.lit, "|()?[]\\{}") {
				return false
			}
			continue
		}
		v := strip(q.val)
		if v.Op != "call" || callName(v) != "regexp.QuoteMeta" {
			return false
		}
		if strip(v.Args[0]) == text {
			has = true
		}
	}
	return has
}

// constCompare decides a comparison of numbers which are known.
func constCompare(a *Term) (bool, bool) {
	if a.Op != "bin" || len(a.Args) != 2 {
		return false, false
	}
	l, ok1 := knownInt(a.Args[0])
	r, ok2 := knownInt(a.Args[1])
	if !ok1 || !ok2 {
		return false, false
	}
	switch {
	case isEq(a):
		return l == r, true
	case a.Obj == any("<"):
		return l < r, true
	}
	return false, false
}

func knownInt(t *Term) (int64, bool) {
	t = strip(t)
	if v, ok := constInt(t); ok {
		return v, true
	}
	if t.Op == "bin" && len(t.Args) == 2 && (t.Obj == any("+") || t.Obj == any("-")) {
		l, ok1 := knownInt(t.Args[0])
		r, ok2 := knownInt(t.Args[1])
		if t.Obj == any("-") {
			r = -r
		}
		return l + r, ok1 && ok2
	}
	return 0, false
}

// arrayOf: the term is an array, or its address.
func arrayOf(t *Term) (*types.Array, bool) {
	if t.Typ == nil {
		return nil, false
	}
	at, ok := deref2(t.Typ).Underlying().(*types.Array)
	return at, ok
}

// inRange: the index is within the list.
func (x *panics) inRange(f *pfunc, e *GEvent, G BDD, list, idx, length *Term) string {
	if at, ok := arrayOf(list); ok {
		length = mkInt(at.Len())
	}
	list, idx, length = strip(list), strip(idx), strip(length)
	for _, l := range []*Term{list, idx, length} {
		if l.Op == "gv" {
			for _, a := range gvTerms[l].L {
				c := bAnd(G, a.g)
				if c == bF {
					continue
				}
				sub := func(t *Term) *Term {
					if t == l {
						return a.t
					}
					return t
				}
				if w := x.inRange(f, e, c, sub(list), sub(idx), sub(length)); w != "" {
					return w
				}
			}
			return ""
		}
	}
	if m := tableValue(list, idx, length); m != nil {
		if rows, ok := x.rows(f, m); ok {
			for _, row := range rows {
				row := row
				s := newSubst(f.g, nil, func(y *Term) *Term {
					if y.Op == "index" && strip(y.Args[0]) == m {
						if k, ok := constInt(strip(y.Args[1])); ok && k >= 0 && k < int64(len(row)) {
							return row[k]
						}
					}
					if y.Op == "len" && strip(y.Args[0]) == m {
						return mkInt(int64(len(row)))
					}
					return nil
				})
				if list == m {
					if k, ok := constInt(idx); !ok || k < 0 || k >= int64(len(row)) {
						return "the rows of a table are shorter"
					}
					continue
				}
				if w := x.inRange(f, e, s.bdd(G), s.term(list), s.term(idx), s.term(length)); w != "" {
					return w
				}
			}
			return ""
		}
	}
	// a position of a named group is one of them
	if idx.Op == "call" && callName(idx) == "(*regexp.Regexp).SubexpIndex" {
		if re := patternIn(idx.Args[0]); re != nil {
			if n, ok := constStr(strip(idx.Args[1])); ok {
				idx = mkInt(int64(re.SubexpIndex(n)))
			}
		}
	}
	if k, ok := constInt(idx); ok {
		if k < 0 {
			return "the index is negative"
		}
		for _, l := range e.Loops {
			if stripRev(l) == list && k == 0 {
				return ""
			}
		}
		if x.atLeast(f, G, list, length, k+1) {
			return ""
		}
		return fmt.Sprintf("%s may have fewer than %d elements", brief(list.String()), k+1)
	}
	// within a loop over the list, or over the numbers below its length
	if idx.Op == "idx" || idx.Op == "rangeidx" {
		L := stripRev(idx.Args[0])
		if L == list || L.Op == "upto" && strip(L.Args[0]) == length {
			return ""
		}
		if L.Op == "gv" {
			all := true
			for _, a := range gvTerms[L].L {
				if stripRev(a.t) != list && sat(bAnd(G, a.g)) != bF {
					all = false
				}
			}
			if all {
				return ""
			}
		}
	}
	// the place of the one at which a loop over the list ended
	if idx.Op == "firstidx" && stripRev(idx.Args[0]) == list {
		met := f.g.existsB(list, condTerms[idx])
		if !x.possible(bAnd(G, bNot(met))) {
			return ""
		}
	}
	// within a loop over a list which is as long
	if idx.Op == "idx" || idx.Op == "rangeidx" {
		other := f.g.lenOf(nil, stripRev(idx.Args[0]))
		if length == strip(other.term()) || len(other.L) > 0 && sat(bAnd(G, bNot(f.g.eq(gvT(length), other.term())))) == bF {
			return ""
		}
	}
	// counted from the end
	if idx.Op == "bin" && (idx.Obj == "-" || idx.Obj == "+") && strip(idx.Args[0]) == length {
		if k, ok := constInt(strip(idx.Args[1])); ok {
			if idx.Obj == "+" {
				k = -k
			}
			if k >= 1 && x.atLeast(f, G, list, length, k) {
				return ""
			}
			return fmt.Sprintf("%s may have fewer than %d elements", brief(list.String()), k)
		}
	}
	// one of what was just added behind the others
	if list.Op == "append" {
		base, k := idx, int64(0)
		if base.Op == "bin" && base.Obj == any("+") {
			if v, ok := constInt(strip(base.Args[1])); ok {
				base, k = strip(base.Args[0]), v
			}
		}
		added := list.Args[1:]
		if base.Op == "len" && strip(base.Args[0]) == strip(list.Args[0]) && k >= 0 && k < int64(len(added)) {
			plain := true
			for _, a := range added[:k+1] {
				plain = plain && a.Op != "spread"
			}
			if plain {
				return ""
			}
		}
	}
	in := f.g.lt(idx, length, types.Typ[types.Int])
	if !x.possible(bAnd(G, bNot(in))) || x.kept(f, G, list, idx) {
		return ""
	}
	return fmt.Sprintf("the index %s may be beyond %s", brief(idx.String()), brief(list.String()))
}

// kept: the index is one of those kept in a map made here, each of which was that of the last element of the same
// list when it was kept, and the list only grows.
func (x *panics) kept(f *pfunc, G BDD, list, idx *Term) bool {
	if idx.Op != "mapget" || list.Op != "loopmem" {
		return false
	}
	m, at := strip(idx.Args[0]), list.Args[0]
	if m.Op != "alloc" {
		return false
	}
	has := mk("has", nil, idx.Ctx, types.Typ[types.Bool], idx.Args...)
	if x.possible(bAnd(G, bNot(bddOf(has)))) {
		return false
	}
	n := 0
	for _, e := range f.g.Events {
		switch {
		case e.Kind == "mapstore" && strip(e.Args[0].single()) == m:
			n++
			for _, l := range e.Args[2].L {
				// the length of the list as it was, or after something was added to it
				k, base := int64(0), strip(l.t)
				for base.Op == "bin" && (base.Obj == any("+") || base.Obj == any("-")) {
					a, b := strip(base.Args[0]), strip(base.Args[1])
					if v, ok := constInt(b); ok {
						if base.Obj == any("-") {
							v = -v
						}
						k, base = k+v, a
					} else if v, ok := constInt(a); ok && base.Obj == any("+") {
						k, base = k+v, b
					} else {
						return false
					}
				}
				// what is added on the way to the end of the round
				grown := bF
				for _, s := range f.g.Events {
					if s.Kind == "store" && s.Args[0].single() == at {
						for _, v := range s.Args[1].L {
							if y := strip(v.t); y.Op == "append" && int64(len(y.Args)-1) > k {
								grown = bOr(grown, bAnd(s.G, v.g))
							}
						}
					}
				}
				if base.Op != "len" || strip(base.Args[0]) != list || k < 0 || x.possible(bAnds(e.G, l.g, bNot(grown))) {
					return false
				}
			}
		case e.Kind == "store" && e.Args[0].single() == at:
			for _, l := range e.Args[1].L {
				if y := strip(l.t); y.Op != "append" || strip(y.Args[0]) != list {
					return false
				}
			}
		}
	}
	return n > 0
}

func checkC17(c *Ctx) {
	p := c.P
	c.Rule("nil", "what is dereferenced or called is there")
	c.Rule("index", "an index or a slice bound is within the list")
	c.Rule("kind", "an unchecked type assertion holds")
	c.Rule("other", "nothing is divided by zero or stored in a map which is not there")
	x := newPanics(c)
	roots := p.ruleMatches()
	for _, d := range p.ruleTable("analyzers") {
		if fn := p.analyzerRun(d); fn != nil {
			roots = append(roots, fn)
		}
	}
	x.made()
	for _, s := range separately {
		if fn := p.Func("", s); fn != nil {
			x.sep[fn] = true
		}
	}
	if fn := p.Method("", "Context", "NewIssue"); fn != nil {
		x.sep[fn] = true
	}
	for _, r := range roots {
		x.want(r)
		for i := range r.Params {
			x.given[gparam(r, i)] = true
		}
	}
	x.run()
}

func newPanics(c *Ctx) *panics {
	return &panics{p: c.P, c: c, done: map[*ssa.Function]*pfunc{}, sep: map[*ssa.Function]bool{}, results: map[*ssa.Function]map[int]bool{}, given: map[*Term]bool{}, unset: map[*types.Var]string{}}
}

// run evaluates the functions that are wanted and those they need, and judges what they do.
func (x *panics) run() {
	c := x.c
	rule := "nil"
	if x.as != "" {
		rule = x.as
	}
	for len(x.work) > 0 {
		fn := x.work[0]
		x.work = x.work[1:]
		c.Guard(rule, FuncName(fn), func() { x.eval(fn) })
	}
	var fns []*ssa.Function
	for fn := range x.done {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	// which parameters have to be there
	for x.dirty = true; x.dirty; {
		x.dirty = false
		for _, fn := range fns {
			x.judge(x.done[fn], nil)
		}
	}
	for _, fn := range fns {
		x.judge(x.done[fn], c)
	}
	c.Stat("functions", len(fns))
}

// made collects the fields which the rules are made without.
func (x *panics) made() {
	for _, d := range x.p.ruleTable("rules") {
		if d.Create == nil {
			continue
		}
		g := NewGate(x.p)
		r := g.Run(d.Create)
		for _, l := range r.Rets[0].L {
			rule := strip(l.t)
			if rule.Typ == nil {
				continue
			}
			var walk func(at *Term, st *types.Struct)
			walk = func(at *Term, st *types.Struct) {
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					a := mk("fieldaddr", f, "", types.NewPointer(f.Type()), at)
					switch f.Type().Underlying().(type) {
					case *types.Struct:
						walk(a, f.Type().Underlying().(*types.Struct))
					case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
						for _, v := range g.load(r.Mem, a).L {
							if isNilT(strip(v.t)) && sat(bAnd(l.g, v.g)) != bF {
								x.unset[f] = d.ID
							}
						}
					}
				}
			}
			if st := structOf(rule.Typ); st != nil {
				walk(rule, st)
			}
		}
	}
}

// separately are functions evaluated on their own: what they return is not a construct.
var separately = []string{"GetCallInfo", "GetImportPath", "GetImportedNames", "TryResolve", "GetBinaryExprOperands", "GetCallStringArgsValues", "ConcatString", "FindVarIdentities", "GetLocation", "GetPkgRelativePath", "GoVersion", "FindModuleRootDir", "RootPath"}

// inlineBlocks bounds the size of the functions of analyzers which are evaluated as a part of their callers.
const inlineBlocks = 16

func (x *panics) want(fn *ssa.Function) {
	if fn == nil || fn.Blocks == nil || x.done[fn] != nil {
		return
	}
	x.done[fn] = &pfunc{fn: fn, needs: map[int]bool{}}
	x.work = append(x.work, fn)
}

// makesFinding: the result is a finding, which is handed on as it is.
func makesFinding(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if namedName(deref2(r.At(i).Type())) == sub("issue")+".Issue" {
			return true
		}
	}
	return false
}

func (x *panics) eval(fn *ssa.Function) {
	p := x.p
	f := x.done[fn]
	g := NewGate(p)
	g.Accesses = true
	g.PreInit = p.tablesOf(relPath(FuncPkg(fn)))
	g.Inline = func(h *ssa.Function) bool {
		if x.inline != nil {
			return x.inline(fn, h)
		}
		return p.InModule(h) && !x.sep[h] && !makesFinding(h) && (relPath(FuncPkg(h)) != "analyzers" || len(h.Blocks) <= inlineBlocks)
	}
	g.Pure = func(n string) bool {
		return strings.Contains(n, "go/types.") || strings.Contains(n, "go/ast.") || strings.Contains(n, "go/token.") || strings.Contains(n, "go/constant.") ||
			strings.Contains(n, "golang.org/x/tools/go/ssa.") || strings.Contains(n, "regexp.")
	}
	f.g = g
	for i := range fn.Params {
		f.params = append(f.params, gparam(fn, i))
	}
	f.res = g.Run(fn)
	for _, e := range g.Events {
		if e.Kind == "call" && e.Fn != nil && p.InModule(e.Fn) {
			x.want(e.Fn)
		}
	}
}

// judge decides the obligations of a function; c is nil while the needs are collected.
func (x *panics) judge(f *pfunc, c *Ctx) {
	p := x.p
	if f.g == nil {
		return
	}
	seen := map[string]bool{}
	report := func(rule string, e *GEvent, why string) {
		if c == nil {
			return
		}
		if x.as != "" {
			rule = x.as
		}
		at := p.InstrPos(e.Ins)
		k := rule + at + why
		if seen[k] {
			return
		}
		seen[k] = true
		name := FuncName(e.Frame.fn)
		if why == "" {
			c.OK(rule, name, at)
		} else {
			c.Fail(rule, name, at, why)
		}
	}
	for _, e := range f.g.Events {
		if e.G == bF {
			continue
		}
		switch e.Kind {
		case "access":
			switch e.Name {
			case "nil":
				report("nil", e, x.present(f, e.Args[0], e.G))
			case "index":
				why := ""
				for _, a := range e.Args[0].L {
					for _, b := range e.Args[1].L {
						G := bAnd(e.G, bAnd(a.g, b.g))
						if G == bF {
							continue
						}
						for _, l := range e.Args[2].L {
							if G2 := bAnd(G, l.g); G2 != bF && why == "" {
								why = x.inRange(f, e, G2, a.t, b.t, l.t)
							}
						}
					}
				}
				report("index", e, why)
			case "slice":
				report("index", e, x.sliced(f, e))
			case "assert":
				why := ""
				for _, a := range e.Args[1].L {
					if x.kindOf != nil && x.kindOf(x, a.t) {
						// it is of the kind when it is there
						if w := x.present(f, gvT(strip(a.t.Args[0])), bAnd(e.G, a.g)); w != "" && why == "" {
							why = w
						}
						continue
					}
					if x.possible(bAnd(bAnd(e.G, a.g), bNot(bddOf(a.t)))) {
						why = "it may be of another kind: " + brief(e.Args[0].String())
					}
				}
				report("kind", e, why)
			case "div":
				why := ""
				for _, a := range e.Args[0].L {
					if sat(bAnd(bAnd(e.G, a.g), f.g.eq1(a.t, mkInt(0)))) != bF {
						why = "the divisor may be zero"
					}
				}
				report("other", e, why)
			case "mapnil":
				report("other", e, x.present(f, e.Args[0], e.G))
			}
		case "call", "go", "defer":
			if len(e.Recv.L) > 0 && e.Fn == nil && e.Method != nil {
				report("nil", e, x.present(f, e.Recv, e.G))
				continue
			}
			if e.Fn == nil {
				continue
			}
			if o := x.done[e.Fn]; o != nil {
				for i := range o.fn.Params {
					if o.needs[i] && i < len(e.Args) {
						report("nil", e, x.present(f, e.Args[i], e.G))
					}
				}
				continue
			}
			// a method of the library on a pointer
			if r := e.Fn.Signature.Recv(); r != nil && !p.InModule(e.Fn) && len(e.Args) > 0 && !nilSafe[funcQual(e.Fn)] {
				if _, ok := r.Type().(*types.Pointer); ok {
					report("nil", e, x.present(f, e.Args[0], e.G))
				}
			}
			if strings.HasPrefix(funcQual(e.Fn), "go/constant.") {
				for i := range e.Args {
					if i < e.Fn.Signature.Params().Len() && e.Fn.Signature.Params().At(i).Type().String() == "go/constant.Value" {
						report("nil", e, x.present(f, e.Args[i], e.G))
					}
				}
			}
		}
	}
}

// behind: the position is that of something found in a string, or just behind it.
func (x *panics) behind(f *pfunc, G BDD, at, s *Term) bool {
	k := int64(0)
	if at.Op == "bin" && at.Obj == "+" {
		for i := 0; i < 2; i++ {
			if v, ok := constInt(strip(at.Args[i])); ok {
				k, at = v, strip(at.Args[1-i])
				break
			}
		}
	}
	if at.Op != "call" || len(at.Args) < 2 || strip(at.Args[0]) != s || k < 0 {
		return false
	}
	switch callName(at) {
	case "strings.Index", "strings.LastIndex":
		if c, ok := constStr(strip(at.Args[1])); !ok || k > int64(len(c)) {
			return false
		}
		if k == 1 {
			return true // the beginning when it is not found
		}
	case "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune":
		if k > 1 {
			return false
		}
		if k == 1 {
			return true
		}
	default:
		return false
	}
	return !x.possible(bAnd(G, f.g.lt(at, mkInt(0), types.Typ[types.Int])))
}

func (x *panics) sliced(f *pfunc, e *GEvent) string {
	if len(e.Args) < 4 {
		return ""
	}
	for _, b := range e.Args[0].L {
		for _, lo := range e.Args[1].L {
			for _, hi := range e.Args[2].L {
				for _, n := range e.Args[3].L {
					G := bAnds(e.G, b.g, lo.g, hi.g, n.g)
					if sat(G) == bF {
						continue
					}
					l, h, ln := strip(lo.t), strip(hi.t), strip(n.t)
					// lower bound against the upper, the upper against the length
					if k, ok := constInt(l); ok && h == ln {
						if !x.atLeast(f, G, strip(b.t), ln, k) {
							return fmt.Sprintf("%s may have fewer than %d elements", brief(b.t.String()), k)
						}
						continue
					}
					if k, ok := constInt(h); ok {
						if j, is := constInt(l); is && j <= k && x.atLeast(f, G, strip(b.t), ln, k) {
							continue
						}
					}
					if h == ln && x.behind(f, G, l, strip(b.t)) {
						continue
					}
					if j, ok := constInt(l); ok && h.Op == "bin" && h.Obj == any("-") && strip(h.Args[0]) == ln {
						if k, ok := constInt(strip(h.Args[1])); ok && j >= 0 && k >= 0 && x.atLeast(f, G, strip(b.t), ln, j+k) {
							continue
						}
					}
					over := bOr(f.g.lt(ln, h, types.Typ[types.Int]), f.g.lt(h, l, types.Typ[types.Int]))
					if h == ln {
						over = f.g.lt(ln, l, types.Typ[types.Int])
					}
					if sat(bAnd(G, over)) != bF {
						return fmt.Sprintf("the bounds %s:%s may be beyond %s", brief(l.String()), brief(h.String()), brief(b.t.String()))
					}
				}
			}
		}
	}
	return ""
}
