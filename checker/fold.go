package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// folder computes the constant a term stands for when some of its parts are fixed. Pure functions of
// the standard library are folded as the compiler folds operators.
type folder struct {
	p    *Program
	env  map[*Term]any
	memo map[*Term]any
	hook func(*Term) (any, bool) // decides a term itself
	why  *Term                   // the first term nothing is known about
}

// values: constant.Value, []string, foldNil, foldErr, *regexp.Regexp, foldTuple, foldStruct
type foldNil struct{}
type foldErr struct{}
type foldTuple []any

type foldUnknown struct{}

func newFolder(p *Program, env map[*Term]any) *folder {
	return &folder{p: p, env: env, memo: map[*Term]any{}}
}

func fInt(i int64) any  { return constant.MakeInt64(i) }
func fStr(s string) any { return constant.MakeString(s) }
func fBool(b bool) any  { return constant.MakeBool(b) }
func fErr(err error) any {
	if err != nil {
		return foldErr{}
	}
	return foldNil{}
}

// wrap reduces an integer to the range of its type.
func wrapInt(v constant.Value, t types.Type) constant.Value {
	if t == nil || v.Kind() != constant.Int {
		return v
	}
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	size := constant.BinaryOp(constant.BinaryOp(hi, token.SUB, lo), token.ADD, constant.MakeInt64(1))
	off := constant.BinaryOp(v, token.SUB, lo)
	q := constant.BinaryOp(off, token.QUO_ASSIGN, size) // integer division
	r := constant.BinaryOp(off, token.SUB, constant.BinaryOp(q, token.MUL, size))
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, size)
	}
	return constant.BinaryOp(r, token.ADD, lo)
}

// intRange is the range of values of an integer type, on a 64-bit platform.
func intRange(t types.Type) (lo, hi constant.Value, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUntyped != 0 {
		return nil, nil, false
	}
	bits := map[types.BasicKind]uint{types.Int8: 8, types.Uint8: 8, types.Int16: 16, types.Uint16: 16, types.Int32: 32, types.Uint32: 32}[b.Kind()]
	if bits == 0 {
		bits = 64
	}
	one := constant.MakeInt64(1)
	if b.Info()&types.IsUnsigned != 0 {
		return constant.MakeInt64(0), constant.BinaryOp(constant.Shift(one, token.SHL, bits), token.SUB, one), true
	}
	h := constant.Shift(one, token.SHL, bits-1)
	return constant.UnaryOp(token.SUB, h, 0), constant.BinaryOp(h, token.SUB, one), true
}

func (f *folder) fold(t *Term) any {
	if t == nil {
		return foldUnknown{}
	}
	if v, ok := f.env[t]; ok {
		return v
	}
	if v, ok := f.memo[t]; ok {
		return v
	}
	if f.hook != nil {
		if v, ok := f.hook(t); ok {
			f.memo[t] = v
			return v
		}
	}
	f.memo[t] = foldUnknown{}
	v := f.fold1(t)
	if _, unknown := v.(foldUnknown); unknown && f.why == nil {
		f.why = t
	}
	f.memo[t] = v
	return v
}

func (f *folder) fold1(t *Term) any {
	unknown := any(foldUnknown{})
	num := func(v any) (constant.Value, bool) {
		c, ok := v.(constant.Value)
		return c, ok && c.Kind() == constant.Int
	}
	str := func(v any) (string, bool) {
		c, ok := v.(constant.Value)
		if !ok || c.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(c), true
	}
	switch t.Op {
	case "const":
		return t.C
	case "nil":
		return foldNil{}
	case "iface":
		return f.fold(t.Args[0])
	case "conv":
		v := f.fold(t.Args[0])
		if c, ok := num(v); ok {
			return wrapInt(c, t.Typ)
		}
		return v
	case "extract":
		v := f.fold(t.Args[0])
		i, err := strconv.Atoi(fmt.Sprint(t.Obj))
		if tu, ok := v.(foldTuple); ok && err == nil && i < len(tu) {
			return tu[i]
		}
		return unknown
	case "gv":
		var got any
		for _, l := range gvTerms[t].L {
			switch f.cond(l.g) {
			case 1:
				got = f.fold(l.t)
				return got
			case -1:
				return unknown
			}
		}
		return unknown
	case "deref", "load":
		// a variable of the package which is only set when the program starts
		if gl := f.global(t); gl != nil {
			gi, mi := f.p.gateInit(gl.Pkg)
			if v := gi.load(mi, mk("global", gl, "", gl.Type())).single(); v != nil && v != t {
				return f.fold(v)
			}
		}
		return unknown
	case "has", "mapget":
		gl := f.global(t.Args[0])
		key, ok := f.fold(t.Args[1]).(constant.Value)
		if gl == nil || !ok {
			return unknown
		}
		gi, mi := f.p.gateInit(gl.Pkg)
		m := gi.load(mi, mk("global", gl, "", gl.Type())).single()
		if m == nil {
			return unknown
		}
		found := any(nil)
		for _, e := range gi.Events {
			if e.Kind != "mapstore" || e.Args[0].single() != m {
				continue
			}
			k, ok := f.fold(e.Args[1].single()).(constant.Value)
			if !ok || len(e.Loops) > 0 {
				return unknown
			}
			if k.Kind() == key.Kind() && constant.Compare(k, token.EQL, key) {
				found = f.fold(e.Args[2].single())
			}
		}
		if t.Op == "has" {
			return fBool(found != nil)
		}
		if found == nil {
			return f.fold(zeroOf(t.Typ))
		}
		return found
	case "bdd":
		if k := f.cond(bddTerms[t]); k >= 0 {
			return fBool(k == 1)
		}
		return unknown
	case "struct":
		var out foldTuple
		for _, a := range t.Args {
			out = append(out, f.fold(a))
		}
		return out
	case "len":
		switch v := f.fold(t.Args[0]).(type) {
		case []string:
			return fInt(int64(len(v)))
		case foldNil:
			return fInt(0)
		case constant.Value:
			if s, ok := str(v); ok {
				return fInt(int64(len(s)))
			}
		}
		return unknown
	case "index":
		i, ok := num(f.fold(t.Args[1]))
		if !ok {
			return unknown
		}
		n, _ := constant.Int64Val(i)
		switch v := f.fold(t.Args[0]).(type) {
		case []string:
			if n >= 0 && n < int64(len(v)) {
				return fStr(v[n])
			}
		case constant.Value:
			if s, ok := str(v); ok && n >= 0 && n < int64(len(s)) {
				return fInt(int64(s[n]))
			}
		}
		return unknown
	case "slice":
		if len(t.Args) < 3 {
			return unknown
		}
		v := f.fold(t.Args[0])
		size := int64(-1)
		text, isText := str(v)
		list, isList := v.([]string)
		switch {
		case isText:
			size = int64(len(text))
		case isList:
			size = int64(len(list))
		default:
			return unknown
		}
		lo, hi := int64(0), size
		for i, b := range []*int64{&lo, &hi} {
			if x := strip(t.Args[i+1]); x.Op != "end" && x.Op != "nil" && x.Op != "none" {
				k, ok := num(f.fold(x))
				if !ok {
					return unknown
				}
				*b, _ = constant.Int64Val(k)
			}
		}
		if lo < 0 || hi < lo || hi > size {
			return unknown
		}
		if isText {
			return fStr(text[lo:hi])
		}
		return list[lo:hi]
	case "un":
		v := f.fold(t.Args[0])
		c, ok := v.(constant.Value)
		if !ok {
			return unknown
		}
		switch fmt.Sprint(t.Obj) {
		case "!":
			if c.Kind() == constant.Bool {
				return fBool(!constant.BoolVal(c))
			}
		case "-":
			if c.Kind() == constant.Int {
				return wrapInt(constant.UnaryOp(token.SUB, c, 0), t.Typ)
			}
		case "^":
			if c.Kind() == constant.Int {
				return wrapInt(constant.UnaryOp(token.XOR, c, 0), t.Typ)
			}
		}
		return unknown
	case "bin":
		return f.bin(t)
	case "call":
		return f.call(t, str, num)
	}
	return unknown
}

// global is the package variable a term reads, if it is only set at initialisation.
func (f *folder) global(t *Term) *ssa.Global {
	t = unverT(t)
	if (t.Op != "deref" && t.Op != "load") || len(t.Args) == 0 || t.Args[0].Op != "global" || f.p == nil {
		return nil
	}
	gl, _ := t.Args[0].Obj.(*ssa.Global)
	if gl == nil || !f.p.immutableGlobal(gl) {
		return nil
	}
	return gl
}

func (f *folder) bin(t *Term) any {
	a, b := f.fold(t.Args[0]), f.fold(t.Args[1])
	op := fmt.Sprint(t.Obj)
	isNil := func(v any) bool { _, ok := v.(foldNil); return ok }
	known := func(v any) bool { _, ok := v.(foldUnknown); return !ok }
	if !known(a) || !known(b) {
		return foldUnknown{}
	}
	ca, ok1 := a.(constant.Value)
	cb, ok2 := b.(constant.Value)
	if !ok1 || !ok2 {
		if op == "==" && (isNil(a) || isNil(b)) {
			return fBool(isNil(a) && isNil(b))
		}
		return foldUnknown{}
	}
	switch op {
	case "==", "<":
		if ca.Kind() != cb.Kind() {
			return foldUnknown{}
		}
		tok := token.EQL
		if op == "<" {
			tok = token.LSS
		}
		return fBool(constant.Compare(ca, tok, cb))
	case "<<", ">>":
		n, ok := constant.Uint64Val(cb)
		if !ok || n > 4096 {
			return foldUnknown{}
		}
		tok := token.SHL
		if op == ">>" {
			tok = token.SHR
		}
		return wrapInt(constant.Shift(ca, tok, uint(n)), t.Typ)
	case "+":
		if ca.Kind() == constant.String && cb.Kind() == constant.String {
			return fStr(constant.StringVal(ca) + constant.StringVal(cb))
		}
	case "/":
		if ca.Kind() == constant.Int && cb.Kind() == constant.Int && constant.Sign(cb) != 0 {
			return wrapInt(constant.BinaryOp(ca, token.QUO_ASSIGN, cb), t.Typ)
		}
		return foldUnknown{}
	}
	toks := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT}
	tok, ok := toks[op]
	if !ok || ca.Kind() != constant.Int || cb.Kind() != constant.Int {
		return foldUnknown{}
	}
	return wrapInt(constant.BinaryOp(ca, tok, cb), t.Typ)
}

func (f *folder) call(t *Term, str func(any) (string, bool), num func(any) (constant.Value, bool)) any {
	name := callName(t)
	var args []any
	for _, a := range t.Args {
		args = append(args, f.fold(a))
	}
	strs := func() ([]string, bool) {
		var out []string
		for _, a := range args {
			s, ok := str(a)
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		return foldErr{}
	case "regexp.MustCompile":
		if s, ok := str(args[0]); ok {
			if re, err := regexp.Compile(s); err == nil {
				return re
			}
		}
	case "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).MatchString", "(*regexp.Regexp).SubexpIndex", "(*regexp.Regexp).FindString":
		re, ok1 := args[0].(*regexp.Regexp)
		s, ok2 := str(args[1])
		if !ok1 || !ok2 {
			break
		}
		switch {
		case strings.HasSuffix(name, "Submatch"):
			m := re.FindStringSubmatch(s)
			if m == nil {
				return foldNil{}
			}
			return m
		case strings.HasSuffix(name, "MatchString"):
			return fBool(re.MatchString(s))
		case strings.HasSuffix(name, "FindString"):
			return fStr(re.FindString(s))
		}
		return fInt(int64(re.SubexpIndex(s)))
	case "strconv.Atoi":
		if s, ok := str(args[0]); ok {
			i, err := strconv.Atoi(s)
			return foldTuple{fInt(int64(i)), fErr(err)}
		}
	case "strconv.ParseInt", "strconv.ParseUint":
		s, ok := str(args[0])
		b, ok2 := num(args[1])
		z, ok3 := num(args[2])
		if ok && ok2 && ok3 {
			base, _ := constant.Int64Val(b)
			bits, _ := constant.Int64Val(z)
			if name == "strconv.ParseInt" {
				i, err := strconv.ParseInt(s, int(base), int(bits))
				return foldTuple{fInt(i), fErr(err)}
			}
			u, err := strconv.ParseUint(s, int(base), int(bits))
			return foldTuple{constant.MakeUint64(u), fErr(err)}
		}
	case "strings.ContainsRune", "strings.IndexByte":
		s, ok := str(args[0])
		r, ok2 := num(args[1])
		if ok && ok2 {
			i, _ := constant.Int64Val(r)
			if name == "strings.IndexByte" {
				return fInt(int64(strings.IndexByte(s, byte(i))))
			}
			return fBool(strings.ContainsRune(s, rune(i)))
		}
	case "strings.SplitN":
		s, ok := str(args[0])
		sep, ok2 := str(args[1])
		n, ok3 := num(args[2])
		if ok && ok2 && ok3 {
			i, _ := constant.Int64Val(n)
			return strings.SplitN(s, sep, int(i))
		}
	case "strings.LastIndexByte", "strings.IndexRune":
		s, ok := str(args[0])
		r, ok2 := num(args[1])
		if ok && ok2 {
			i, _ := constant.Int64Val(r)
			if name == "strings.IndexRune" {
				return fInt(int64(strings.IndexRune(s, rune(i))))
			}
			return fInt(int64(strings.LastIndexByte(s, byte(i))))
		}
	case "strings.Split", "strings.SplitAfter", "strings.Fields", "strings.LastIndex", "strings.Cut", "strings.CutSuffix", "path.Base", "path.Dir", "strings.Count":
		ss, ok := strs()
		if !ok {
			break
		}
		switch name {
		case "strings.Split":
			return strings.Split(ss[0], ss[1])
		case "strings.SplitAfter":
			return strings.SplitAfter(ss[0], ss[1])
		case "strings.Fields":
			return strings.Fields(ss[0])
		case "strings.LastIndex":
			return fInt(int64(strings.LastIndex(ss[0], ss[1])))
		case "strings.Count":
			return fInt(int64(strings.Count(ss[0], ss[1])))
		case "strings.Cut":
			a, b, found := strings.Cut(ss[0], ss[1])
			return foldTuple{fStr(a), fStr(b), fBool(found)}
		case "strings.CutSuffix":
			a, found := strings.CutSuffix(ss[0], ss[1])
			return foldTuple{fStr(a), fBool(found)}
		case "path.Base":
			return fStr(path.Base(ss[0]))
		case "path.Dir":
			return fStr(path.Dir(ss[0]))
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToLower", "strings.TrimSpace", "strings.CutPrefix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strconv.Unquote", "strings.Index", "strings.EqualFold":
		ss, ok := strs()
		if !ok {
			break
		}
		switch name {
		case "strings.HasPrefix":
			return fBool(strings.HasPrefix(ss[0], ss[1]))
		case "strings.HasSuffix":
			return fBool(strings.HasSuffix(ss[0], ss[1]))
		case "strings.Contains":
			return fBool(strings.Contains(ss[0], ss[1]))
		case "strings.TrimPrefix":
			return fStr(strings.TrimPrefix(ss[0], ss[1]))
		case "strings.TrimSuffix":
			return fStr(strings.TrimSuffix(ss[0], ss[1]))
		case "strings.ToLower":
			return fStr(strings.ToLower(ss[0]))
		case "strings.TrimSpace":
			return fStr(strings.TrimSpace(ss[0]))
		case "strings.Trim":
			return fStr(strings.Trim(ss[0], ss[1]))
		case "strings.TrimLeft":
			return fStr(strings.TrimLeft(ss[0], ss[1]))
		case "strings.TrimRight":
			return fStr(strings.TrimRight(ss[0], ss[1]))
		case "strings.Index":
			return fInt(int64(strings.Index(ss[0], ss[1])))
		case "strings.EqualFold":
			return fBool(strings.EqualFold(ss[0], ss[1]))
		case "strconv.Unquote":
			r, err := strconv.Unquote(ss[0])
			return foldTuple{fStr(r), fErr(err)}
		case "strings.CutPrefix":
			r, ok := strings.CutPrefix(ss[0], ss[1])
			return foldTuple{fStr(r), fBool(ok)}
		}
	}
	return foldUnknown{}
}

// cond decides a condition: 1 it holds, 0 it does not, -1 unknown.
func (f *folder) cond(b BDD) int {
	var open *Term
	r := bRestrict(b, func(a *Term) (bool, bool) {
		v := f.fold(a)
		if c, ok := v.(constant.Value); ok && c.Kind() == constant.Bool {
			return constant.BoolVal(c), true
		}
		open = a
		return false, false
	})
	switch r {
	case bT:
		return 1
	case bF:
		return 0
	}
	if f.why == nil {
		f.why = open
	}
	return -1
}
