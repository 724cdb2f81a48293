package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value: a constant, a symbol (parameter, allocation site, opaque
// call result, field of a symbolic object, ...), an operation on those, a finite join ("phi") or top.
type Term struct {
	Op   string
	Args []*Term
	C    constant.Value
	Obj  any
	Ctx  string
	Typ  types.Type
	id   int
	key  string
}

type interner struct {
	m map[string]*Term
}

var terms = &interner{m: map[string]*Term{}}

func objKey(o any) string {
	switch x := o.(type) {
	case nil:
		return ""
	case string:
		return x
	case types.Type:
		return x.String()
	default:
		return fmt.Sprintf("%p", x)
	}
}

func mk(op string, obj any, ctx string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(objKey(obj))
	b.WriteByte('|')
	b.WriteString(ctx)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if t, ok := terms.m[k]; ok {
		return t
	}
	t := &Term{Op: op, Obj: obj, Ctx: ctx, Typ: typ, Args: args, id: len(terms.m) + 1, key: k}
	terms.m[k] = t
	return t
}

func mkConst(c constant.Value, typ types.Type) *Term {
	// The type is not part of the identity: a named constant and a plain one with the same value are
	// the same abstract value (operations carry their own types).
	k := "const|" + c.Kind().String() + "|" + c.ExactString()
	if t, ok := terms.m[k]; ok {
		return t
	}
	t := &Term{Op: "const", C: c, Typ: typ, id: len(terms.m) + 1, key: k}
	terms.m[k] = t
	return t
}

func mkBool(b bool) *Term       { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkInt(i int64) *Term       { return mkConst(constant.MakeInt64(i), types.Typ[types.Int]) }
func mkString(s string) *Term   { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkNil() *Term              { return mk("nil", nil, "", nil) }
func mkSym(name string) *Term   { return mk("sym", name, "", nil) }
func mkZero(t types.Type) *Term { return zeroOf(t) }

func isConst(t *Term) bool { return t.Op == "const" }
func isTrue(t *Term) bool {
	return t.Op == "const" && t.C.Kind() == constant.Bool && constant.BoolVal(t.C)
}
func isFalse(t *Term) bool {
	return t.Op == "const" && t.C.Kind() == constant.Bool && !constant.BoolVal(t.C)
}
func constStr(t *Term) (string, bool) {
	if t != nil && t.Op == "const" && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func constInt(t *Term) (int64, bool) {
	if t != nil && t.Op == "const" && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}

// zeroOf gives the zero value of a type.
func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0), t)
		}
		return mk("zero", t, "", t)
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mk("struct", t, "", t, args...)
	case *types.Array:
		return mk("zero", t, "", t)
	}
	return mkNil()
}

// join of abstract values: equal terms, a small flat set, or top.
func joinT(site string, a, b *Term) *Term {
	if a == b || b == nil {
		return a
	}
	if a == nil {
		return b
	}
	if a.Op == "top" {
		return a
	}
	if b.Op == "top" {
		return b
	}
	set := map[int]*Term{}
	for _, t := range []*Term{a, b} {
		if t.Op == "phi" {
			for _, x := range t.Args {
				set[x.id] = x
			}
		} else {
			set[t.id] = t
		}
	}
	if len(set) > 12 {
		return mkTop(site)
	}
	return mkPhi(set)
}

func mkPhi(set map[int]*Term) *Term {
	ids := make([]int, 0, len(set))
	for id := range set {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	args := make([]*Term, len(ids))
	for i, id := range ids {
		args[i] = set[id]
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("phi", nil, "", args[0].Typ, args...)
}

func mkTop(site string) *Term { return mk("top", site, "", nil) }

// alts lists the alternatives of a joined value.
func alts(t *Term) []*Term {
	if t == nil {
		return nil
	}
	if t.Op == "phi" {
		return t.Args
	}
	return []*Term{t}
}

// strip removes interface boxing and representation-preserving conversions.
func strip(t *Term) *Term {
	for t != nil && (t.Op == "iface" || t.Op == "conv") {
		t = t.Args[0]
	}
	return t
}

// walkTerm visits t and all its sub-terms once.
func walkTerm(t *Term, f func(*Term) bool) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t.id] {
			return
		}
		seen[t.id] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

// contains reports whether a sub-term satisfies the predicate.
func contains(t *Term, pred func(*Term) bool) bool {
	found := false
	walkTerm(t, func(x *Term) bool {
		if found {
			return false
		}
		if pred(x) {
			found = true
			return false
		}
		return true
	})
	return found
}

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 7 {
		return "..."
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.show(d+1))
	}
	j := strings.Join(as, ", ")
	switch t.Op {
	case "const":
		return t.C.String()
	case "nil":
		return "nil"
	case "sym":
		return t.Obj.(string)
	case "param":
		return t.Obj.(*ssa.Parameter).Name()
	case "alloc":
		if v, ok := t.Obj.(ssa.Value); ok {
			if al, ok := v.(*ssa.Alloc); ok && al.Comment != "" {
				return "&" + al.Comment
			}
			return "&" + v.Name() + "@" + FuncName(v.Parent())
		}
		return "&alloc"
	case "global":
		return "&" + t.Obj.(*ssa.Global).Name()
	case "field":
		return t.Args[0].show(d+1) + "." + t.Obj.(*types.Var).Name()
	case "fieldaddr":
		return "&" + t.Args[0].show(d+1) + "." + t.Obj.(*types.Var).Name()
	case "deref":
		return "*" + t.Args[0].show(d+1)
	case "call":
		n := ""
		switch f := t.Obj.(type) {
		case *ssa.Function:
			n = FuncName(f)
		case *types.Func:
			n = f.FullName()
		case string:
			n = f
		}
		return n + "(" + j + ")"
	case "func":
		return FuncName(t.Obj.(*ssa.Function))
	case "closure":
		return "closure:" + FuncName(t.Obj.(*ssa.Function)) + "[" + j + "]"
	case "extract":
		return t.Args[0].show(d+1) + "#" + t.Obj.(string)
	case "bin":
		return "(" + t.Args[0].show(d+1) + " " + t.Obj.(string) + " " + t.Args[1].show(d+1) + ")"
	case "un":
		return t.Obj.(string) + t.Args[0].show(d+1)
	case "top":
		return "⊤"
	case "phi":
		return "φ{" + j + "}"
	case "iface":
		return t.Args[0].show(d)
	case "conv":
		return t.Args[0].show(d)
	}
	o := ""
	switch x := t.Obj.(type) {
	case string:
		o = x
	case types.Type:
		o = types.TypeString(x, func(p *types.Package) string { return p.Name() })
	}
	return t.Op + "<" + o + ">(" + j + ")"
}

// --- algebra -------------------------------------------------------------------------------

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "func", "closure", "iface", "struct", "global", "fieldaddr", "indexaddr", "append", "make", "emptylist":
		return true
	case "const":
		return true
	}
	return false
}

func mkNot(t *Term) *Term {
	if isTrue(t) {
		return mkBool(false)
	}
	if isFalse(t) {
		return mkBool(true)
	}
	if t.Op == "un" && t.Obj == "!" {
		return t.Args[0]
	}
	if t.Op == "phi" {
		set := map[int]*Term{}
		for _, a := range t.Args {
			n := mkNot(a)
			set[n.id] = n
		}
		return mkPhi(set)
	}
	return mk("un", "!", "", types.Typ[types.Bool], t)
}

// wrap reduces an integer constant to the range of its type (two's complement).
func wrap(v constant.Value, typ types.Type) constant.Value {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok || v.Kind() != constant.Int {
		return v
	}
	bits, signed := intBits(b)
	if bits == 0 {
		return v
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
	// v mod 2^bits
	q := constant.BinaryOp(v, token.QUO_ASSIGN, mod)
	r := constant.BinaryOp(v, token.SUB, constant.BinaryOp(q, token.MUL, mod))
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if signed {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

// eqT is the canonical equality atom.
func eqT(a, b *Term) *Term {
	sa, sb := strip(a), strip(b)
	if sa == sb && sa.Op != "top" && sa.Op != "phi" {
		return mkBool(true)
	}
	if isConst(sa) && isConst(sb) {
		if sa.C.Kind() == sb.C.Kind() || (sa.C.Kind() == constant.Int && sb.C.Kind() == constant.Float) || (sa.C.Kind() == constant.Float && sb.C.Kind() == constant.Int) {
			return mkBool(constant.Compare(sa.C, token.EQL, sb.C))
		}
		return mkBool(false)
	}
	if a.Op == "nil" && b.Op == "nil" {
		return mkBool(true)
	}
	if a.Op == "nil" && isNonNil(b) || b.Op == "nil" && isNonNil(a) {
		return mkBool(false)
	}
	// distribute over finite joins
	if sa.Op == "phi" {
		return distribute(sa, func(x *Term) *Term { return eqT(x, sb) })
	}
	if sb.Op == "phi" {
		return distribute(sb, func(x *Term) *Term { return eqT(sa, x) })
	}
	// allocations are distinct objects
	if sa.Op == "alloc" && sb.Op == "alloc" && sa != sb {
		return mkBool(false)
	}
	if isConst(sb) && sb.C.Kind() == constant.Bool {
		sa, sb = sb, sa
	}
	if isConst(sa) && sa.C.Kind() == constant.Bool {
		if isTrue(sa) {
			return sb
		}
		return mkNot(sb)
	}
	// len(s)==0 on strings is s==""
	for i := 0; i < 2; i++ {
		if v, ok := constInt(sb); ok && v == 0 && sa.Op == "len" && sa.Args[0].Typ != nil {
			if bt, ok := sa.Args[0].Typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				return eqT(sa.Args[0], mkString(""))
			}
		}
		sa, sb = sb, sa
	}
	if sa.id > sb.id {
		sa, sb = sb, sa
	}
	return mk("bin", "==", "", types.Typ[types.Bool], sa, sb)
}

func distribute(p *Term, f func(*Term) *Term) *Term {
	set := map[int]*Term{}
	for _, a := range p.Args {
		r := f(a)
		for _, x := range alts(r) {
			set[x.id] = x
		}
	}
	if len(set) > 12 {
		return mkTop("distribute")
	}
	return mkPhi(set)
}

// ltT is the canonical strict order atom a<b.
func ltT(a, b *Term, typ types.Type) *Term {
	sa, sb := strip(a), strip(b)
	if isConst(sa) && isConst(sb) {
		return mkBool(constant.Compare(sa.C, token.LSS, sb.C))
	}
	if sa == sb && sa.Op != "top" && sa.Op != "phi" {
		return mkBool(false)
	}
	if sa.Op == "phi" {
		return distribute(sa, func(x *Term) *Term { return ltT(x, sb, typ) })
	}
	if sb.Op == "phi" {
		return distribute(sb, func(x *Term) *Term { return ltT(sa, x, typ) })
	}
	if isIntType(typ) || sa.Op == "len" || sb.Op == "len" {
		// c < x  ==>  !(x < c+1)
		if isConst(sa) && sa.C.Kind() == constant.Int {
			return mkNot(ltT(sb, mkConst(constant.BinaryOp(sa.C, token.ADD, constant.MakeInt64(1)), sa.Typ), typ))
		}
		if sa.Op == "len" {
			if v, ok := constInt(sb); ok {
				if v <= 0 {
					return mkBool(false)
				}
				if v == 1 {
					return eqT(sa, mkInt(0))
				}
			}
		}
	}
	return mk("bin", "<", "", types.Typ[types.Bool], sa, sb)
}

func binT(op token.Token, a, b *Term, typ types.Type, opTyp types.Type) *Term {
	switch op {
	case token.EQL:
		return eqT(a, b)
	case token.NEQ:
		return mkNot(eqT(a, b))
	case token.LSS:
		return ltT(a, b, opTyp)
	case token.GTR:
		return ltT(b, a, opTyp)
	case token.GEQ:
		return mkNot(ltT(a, b, opTyp))
	case token.LEQ:
		return mkNot(ltT(b, a, opTyp))
	}
	sa, sb := strip(a), strip(b)
	if sa.Op == "phi" && len(sa.Args) <= 12 {
		return distribute(sa, func(x *Term) *Term { return binT(op, x, sb, typ, opTyp) })
	}
	if sb.Op == "phi" {
		return distribute(sb, func(x *Term) *Term { return binT(op, sa, x, typ, opTyp) })
	}
	if isConst(sa) && isConst(sb) {
		if r := foldBin(op, sa, sb, typ); r != nil {
			return r
		}
	}
	// commutative normalisation for integer operations
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if isIntType(typ) && sa.id > sb.id {
			sa, sb = sb, sa
		}
	}
	if op == token.ADD && isIntType(typ) {
		if v, ok := constInt(sa); ok && v == 0 {
			return sb
		}
		if v, ok := constInt(sb); ok && v == 0 {
			return sa
		}
	}
	return mk("bin", op.String(), "", typ, sa, sb)
}

func foldBin(op token.Token, a, b *Term, typ types.Type) (res *Term) {
	defer func() {
		if recover() != nil {
			res = nil
		}
	}()
	switch op {
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(b.C)
		if !ok || s > 1024 {
			return nil
		}
		return mkConst(wrap(constant.Shift(a.C, op, uint(s)), typ), typ)
	case token.QUO:
		if isIntType(typ) {
			if constant.Sign(b.C) == 0 {
				return nil
			}
			return mkConst(wrap(constant.BinaryOp(a.C, token.QUO_ASSIGN, b.C), typ), typ)
		}
		return mkConst(constant.BinaryOp(a.C, op, b.C), typ)
	case token.REM:
		if constant.Sign(b.C) == 0 {
			return nil
		}
		return mkConst(constant.BinaryOp(a.C, op, b.C), typ)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return mkConst(wrap(constant.BinaryOp(a.C, op, b.C), typ), typ)
	default:
		return mkConst(wrap(constant.BinaryOp(a.C, op, b.C), typ), typ)
	}
}
