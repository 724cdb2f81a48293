package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C19", checkC19) }

func checkC19(c *Ctx) {
	c.Rule("flags", "every documented option is registered once, with its documented default")
	c.Rule("enabled", "a global option is on exactly when its stored value is \"true\" or \"enabled\"")
	c.Rule("store", "setting a global option stores its value under its name, in the global section that is read back")
	c.Rule("file", "the configuration file is read exactly when -conf names one, before the options, and its global settings are kept under their names with their values")
	c.Rule("override", "an option given on the command line is stored over the configuration file, and nothing is stored when it is not given")
	c.Rule("scanner", "the scanner gets the loaded configuration and ignores annotations or shows ignored findings exactly when those global options are on")
	c.Rule("options", "the scan options are those of the command line")
	c.Rule("precedence", "the include and exclude options override the configuration file and are read back for both engines")
	c.Rule("sort", "findings are sorted exactly when -sort is on")
	c.Rule("output", "the report is printed exactly when there is no output file or -stdout is given, saved exactly when there is an output file, each in its own format and colour")
	c.Rule("log", "log messages go nowhere with -quiet or -terse, else to the log file or standard error")
	c.Rule("version", "-version ends the command successfully and nothing else happens")
	c.Rule("only", "a switch which only concerns presentation or judgement does not decide whether the scan and its report happen")
	c.Rule("audit", "the audit option switches the additional checks, and only those")

	c.Guard("flags", "registry", func() { checkFlagRegistry(c) })
	c.Guard("enabled", "config", func() { checkGlobalOptions(c) })
	c.Guard("file", "config", func() { checkConfigFile(c) })
	c.Guard("override", "main", func() { checkOverrides(c) })
	c.Guard("scanner", "NewAnalyzer", func() { checkScannerGlobals(c) })
	c.Guard("options", "main", func() { checkScanOptions(c) })
	c.Guard("precedence", "main", func() { checkPrecedence(c) })
	c.Guard("output", "main", func() { checkOutputOptions(c) })
	c.Guard("audit", "G104", func() { checkAuditOption(c) })
	c.Min("flags", 25)
	c.Min("override", 9)
}

// The options described in README.md and the usage text, with their defaults; "" is no default check.
var documentedFlags = map[string]string{
	"nosec": "false", "show-ignored": "false", "fmt": "text", "nosec-tag": "", "enable-audit": "false", "out": "",
	"conf": "", "quiet": "false", "include": "", "exclude-generated": "false", "log": "", "sort": "true", "tags": "",
	"severity": "low", "confidence": "low", "concurrency": "runtime.NumCPU", "no-fail": "false", "tests": "false",
	"version": "false", "stdout": "false", "color": "true", "r": "false", "verbose": "", "track-suppressions": "false",
	"terse": "false", "ai-api-provider": "", "ai-api-key": "", "ai-endpoint": "", "exclude": "-", "exclude-dir": "-",
}

// checkFlagRegistry looks at the registrations and at every other write to an option's variable.
func checkFlagRegistry(c *Ctx) {
	p := c.P
	reg := map[string][]*ssa.Call{}
	vars := map[*ssa.Global]string{}
	fns := p.PkgFuncs(cmdRel)
	if in := p.SPkg[modPath+"/"+cmdRel].Func("init"); in != nil {
		fns = append([]*ssa.Function{in}, fns...)
	}
	seenFn := map[*ssa.Function]bool{}
	for _, f := range fns {
		if seenFn[f] {
			continue
		}
		seenFn[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					continue
				}
				q := funcQual(call.Call.StaticCallee())
				i, isPtr := flagPtrFns[q]
				j, isVar := flagVarFns[q]
				if isVar {
					i = j
				} else if !isPtr {
					continue
				}
				if k, ok := call.Call.Args[i].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					n := constant.StringVal(k.Value)
					reg[n] = append(reg[n], call)
				}
				for _, r := range *call.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Val == ssa.Value(call) {
						if gl, ok := st.Addr.(*ssa.Global); ok {
							vars[gl] = q
						}
					}
				}
			}
		}
	}
	var names []string
	for n := range documentedFlags {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		want := documentedFlags[n]
		cs := reg[n]
		if !c.Check(len(cs) == 1, "flags", "-"+n, "cmd/gosec/main.go", fmt.Sprintf("registered %d times", len(cs))) {
			continue
		}
		if want == "-" {
			continue
		}
		call := cs[0]
		i := flagPtrFns[funcQual(call.Call.StaticCallee())] + 1
		if j, ok := flagVarFns[funcQual(call.Call.StaticCallee())]; ok {
			i = j + 1
		}
		got := "?"
		switch a := call.Call.Args[i].(type) {
		case *ssa.Const:
			got = a.Value.ExactString()
			if a.Value.Kind() == constant.String {
				got = constant.StringVal(a.Value)
			}
		case *ssa.Call:
			if a.Call.StaticCallee() != nil {
				got = funcQual(a.Call.StaticCallee())
			}
		}
		c.Check(got == want, "flags", "-"+n, p.InstrPos(call), fmt.Sprintf("default %q, documented %q", got, want))
	}
	// the variables and what they point at are not assigned anywhere else
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				if gl, ok := a.(*ssa.Global); ok && vars[gl] != "" {
					if _, isCall := st.Val.(*ssa.Call); !isCall || f.Name() != "init" {
						c.Fail("flags", gl.Name(), p.InstrPos(ins), "the option's variable is replaced")
					}
				}
				if u, ok := a.(*ssa.UnOp); ok {
					if gl, ok := u.X.(*ssa.Global); ok && vars[gl] != "" {
						c.Fail("flags", gl.Name(), p.InstrPos(ins), "the option's value is overwritten by the command")
					}
				}
			}
		}
	}
}

func checkGlobalOptions(c *Ctx) {
	p := c.P
	get, en, set := p.Method("", "Config", "GetGlobal"), p.Method("", "Config", "IsGlobalEnabled"), p.Method("", "Config", "SetGlobal")
	g := NewGate(p)
	cfg, opt, val := mk("cfg", nil, "", get.Params[0].Type()), mk("opt", nil, "", get.Params[1].Type()), mk("val", nil, "", types.Typ[types.String])
	r := g.Run(get, gvT(cfg), gvT(opt))
	pos := p.Pos(get.Pos())
	// reading: the value stored under the option in the global section, and no error exactly then
	noErr := bF
	for _, a := range caseSplit(r.Rets[1]) {
		if isNilT(a.t) {
			noErr = bOr(noErr, a.g)
		}
	}
	vGood := r.Rets[0].constrain(noErr).single()
	key := mkString("global")
	isSec := func(t *Term) bool {
		t = unverT(t)
		return t.Op == "tassert" && t.Args[0].Op == "mapget" && t.Args[0].Args[0] == cfg && t.Args[0].Args[1] == key
	}
	okv := vGood != nil && unverT(vGood).Op == "mapget" && isSec(vGood.Args[0]) && vGood.Args[1] == opt
	if !c.Check(okv, "store", "GetGlobal value", pos, "returns "+r.Rets[0].String()) {
		return
	}
	hasOpt := bF
	for _, a := range bSupport(noErr) {
		if a.Op == "has" && isSec(a.Args[0]) && a.Args[1] == opt {
			hasOpt = bddOf(a)
		}
	}
	typed := bF
	for _, a := range bSupport(noErr) {
		if a.Op == "tassertok" {
			typed = bddOf(a)
		}
	}
	var hasSec BDD = bT
	for _, a := range bSupport(noErr) {
		if a.Op == "has" && a.Args[0] == cfg && a.Args[1] == key {
			hasSec = bddOf(a)
		}
	}
	want := bAnd(bAnd(hasSec, typed), hasOpt)
	ok, d := sameCond(noErr, want)
	c.Check(ok && hasOpt != bF && typed != bF, "store", "GetGlobal finds exactly the stored options", pos, d)

	// on exactly with the two values
	e := g.Run(en, gvT(cfg), gvT(opt))
	on := e.Rets[0].bool()
	wantOn := bAnd(noErr, bOr(g.eq(gvT(vGood), mkString("true")), g.eq(gvT(vGood), mkString("enabled"))))
	ok, d = sameCond(on, wantOn)
	c.Check(ok, "enabled", "IsGlobalEnabled", p.Pos(en.Pos()), d)
	eNoErr := bF
	for _, a := range caseSplit(e.Rets[1]) {
		if isNilT(a.t) {
			eNoErr = bOr(eNoErr, a.g)
		}
	}
	ok, d = implies(noErr, eNoErr)
	c.Check(ok, "enabled", "IsGlobalEnabled fails only for an unknown option", p.Pos(en.Pos()), d)

	// writing
	g2 := NewGate(p)
	g2.Run(set, gvT(cfg), gvT(opt), gvT(val))
	spos := p.Pos(set.Pos())
	// every path stores the value under the option in the section that is in the configuration afterwards
	stored := bF
	inCfg := map[*Term]BDD{} // fresh section put into the configuration
	for _, ev := range g2.Events {
		if ev.Kind == "mapstore" && ev.Args[0].single() == cfg {
			if ev.Args[1].single() != key {
				c.Fail("store", "SetGlobal", p.InstrPos(ev.Ins), "changes another section: "+ev.Args[1].String())
				continue
			}
			if t := ev.Args[2].single(); t != nil {
				inCfg[strip(t)] = bOr(inCfg[strip(t)], ev.G)
			}
		}
	}
	replaced := bF
	for _, b := range inCfg {
		replaced = bOr(replaced, b)
	}
	for _, ev := range g2.Events {
		if ev.Kind != "mapstore" || ev.Args[0].single() == cfg {
			continue
		}
		if len(ev.Loops) > 0 || ev.Args[1].single() != opt || ev.Args[2].single() != val {
			// copying the old section into a new one is fine as long as it cannot overwrite the new value
			c.Fail("store", "SetGlobal", p.InstrPos(ev.Ins), "stores "+ev.Args[2].String()+" under "+ev.Args[1].String())
			continue
		}
		for _, a := range caseSplit(ev.Args[0].constrain(ev.G)) {
			t := strip(unverT(a.t))
			when := bAnd(a.g, ev.G)
			if isSec(t) {
				// the section present, used only where it has the right type and was not replaced
				ok := false
				for _, x := range bSupport(when) {
					if x.Op == "tassertok" && x.Args[0] == t.Args[0] {
						i, _ := implies(when, bddOf(x))
						ok = ok || i
					}
				}
				if ok && sat(bAnd(when, replaced)) == bF {
					stored = bOr(stored, when)
					continue
				}
			}
			if b, ok := inCfg[t]; ok {
				stored = bOr(stored, bAnd(when, b))
				continue
			}
			c.Fail("store", "SetGlobal", p.InstrPos(ev.Ins), "stores into "+a.t.String())
		}
	}
	// the only case left out: the section is missing or of another type, where it must be replaced
	ok, d = implies(bT, stored)
	c.Check(ok, "store", "SetGlobal stores on every path", spos, d)
	// a section of the right type is never thrown away
	for t, b := range inCfg {
		kept := bT
		for _, x := range bSupport(b) {
			if x.Op == "tassertok" {
				kept = bddOf(x)
			}
		}
		c.Check(sat(bAnd(b, kept)) == bF, "store", "SetGlobal keeps the other options", spos, "replaces the section by "+t.String()+" when "+bString(b))
	}
	// a new configuration has an empty global section
	nc := p.Func("", "NewConfig")
	g3 := NewGate(p)
	nr := g3.Run(nc)
	found := false
	for _, ev := range g3.Events {
		if ev.Kind == "mapstore" {
			if ev.Args[0].single() == nr.Rets[0].single() && ev.Args[1].single() == key && ev.G == bT {
				found = true
			} else {
				c.Fail("store", "NewConfig", p.InstrPos(ev.Ins), "presets "+ev.Args[1].String())
			}
		}
	}
	c.Check(found, "store", "NewConfig", p.Pos(nc.Pos()), "has an empty global section")
	// names of the options in a configuration file
	for name, want := range map[string]string{"Nosec": "nosec", "ShowIgnored": "show-ignored", "Audit": "audit", "NoSecAlternative": "#nosec", "ExcludeRules": "exclude", "IncludeRules": "include"} {
		k, _ := p.SPkg[modPath].Pkg.Scope().Lookup(name).(*types.Const)
		c.Check(k != nil && constant.StringVal(k.Val()) == want, "store", "name of "+name, "config.go", want)
	}
}

func checkConfigFile(c *Ctx) {
	p := c.P
	rf, cv := p.Method("", "Config", "ReadFrom"), p.Method("", "Config", "convertGlobals")
	g := NewGate(p)
	cfg := mk("cfg", nil, "", rf.Params[0].Type())
	r := g.Run(rf, gvT(cfg), gvT(mk("src", nil, "", rf.Params[1].Type())))
	pos := p.Pos(rf.Pos())
	um := gateCalls(g, "encoding/json.Unmarshal")
	if !c.Check(len(um) == 1, "file", "ReadFrom parses the file as JSON", pos, fmt.Sprint(len(um))) {
		return
	}
	rd := gateCalls(g, "io.ReadAll")
	if c.Check(len(rd) == 1, "file", "ReadFrom reads everything", pos, "") {
		c.Check(um[0].Args[0].single() == res(rd[0], 0), "file", "ReadFrom parses what was read", pos, um[0].Args[0].String())
	}
	// success means parsed
	parsed := g.eq(gvT(um[0].Result), mkNil())
	for _, a := range caseSplit(r.Rets[1]) {
		if isNilT(a.t) {
			ok, d := implies(a.g, parsed)
			c.Check(ok, "file", "ReadFrom succeeds only with a parsed file", pos, d)
		}
	}
	// every global setting is kept under its name, with its value
	var conv []*GEvent
	for _, e := range g.Events {
		if e.Kind == "mapstore" && len(e.Loops) > 0 {
			conv = append(conv, e)
		}
	}
	if c.Check(len(conv) == 1, "file", "global settings are converted", p.Pos(cv.Pos()), fmt.Sprint(len(conv))) {
		e := conv[0]
		k, v := e.Args[1].single(), e.Args[2].single()
		L := e.Loops[len(e.Loops)-1]
		okK := k != nil && strip(k).Op == "mapkey" && strip(k).Args[0] == L
		c.Check(okK, "file", "a setting keeps its name", p.InstrPos(e.Ins), e.Args[1].String())
		okV := false
		if v != nil && v.Op == "call" && funcNameOf(v) == "fmt.Sprintf" {
			f, isC := constStr(v.Args[0])
			okV = isC && f == "%v" && contains(v, func(x *Term) bool { return x.Op == "mapval" && x.Args[0] == L })
		} else if v != nil && v.Op == "call" && funcNameOf(v) == "fmt.Sprint" {
			okV = contains(v, func(x *Term) bool { return x.Op == "mapval" && x.Args[0] == L })
		}
		c.Check(okV, "file", "a setting keeps its value", p.InstrPos(e.Ins), e.Args[2].String())
		// no condition besides the section being there
		for _, a := range bSupport(e.G) {
			if a == L || contains(a, func(x *Term) bool { return x.Op == "mapkey" || x.Op == "mapval" }) {
				c.Fail("file", "every setting is kept", p.InstrPos(e.Ins), "depends on "+a.String())
			}
		}
		// the converted settings become the global section
		okS := false
		for _, x := range g.Events {
			if x.Kind == "mapstore" && len(x.Loops) == 0 {
				if s, ok := constStr(x.Args[1].single()); ok && s == "global" && x.Args[2].single() != nil && strip(x.Args[2].single()) == strip(e.Args[0].single()) && sat(bXor(x.G, e.G)) == bF {
					okS = true
				} else {
					c.Fail("file", "sections are left alone", p.InstrPos(x.Ins), x.Args[1].String())
				}
			}
		}
		c.Check(okS, "file", "converted settings become the global section", p.InstrPos(e.Ins), "")
	}
}

func checkOverrides(c *Ctx) {
	p := c.P
	m := p.mainModel()
	g := m.G
	na := m.one("gosec.NewAnalyzer")
	// file
	opens, reads := m.calls("os.Open"), m.calls("(gosec.Config).ReadFrom")
	conf := m.flagTerm("conf")
	given := bNot(g.eq(gvT(conf), mkString("")))
	if c.Check(len(reads) == 1, "file", "the configuration file is read", "-", fmt.Sprint(len(reads))) {
		e := reads[0]
		pos := p.InstrPos(e.Ins)
		ok, d := implies(e.G, given)
		c.Check(ok, "file", "read only with -conf", pos, d)
		ok, d = implies(bAnd(na.G, given), bAnd(e.G, g.eq(gvT(res(e, 1)), mkNil())))
		c.Check(ok, "file", "read successfully before the scan, with -conf", pos, d)
		src := e.Args[1].single()
		okO := false
		for _, o := range opens {
			if src != nil && strip(src) == res(o, 0) && o.Args[0].single() == conf {
				okO = true
			}
		}
		if !okO {
			// read at once and handed over as a reader
			okO = src != nil && contains(src, func(x *Term) bool { return x == conf })
		}
		c.Check(okO, "file", "the file named by -conf", pos, e.Args[1].String())
		for _, s := range m.calls("(gosec.Config).SetGlobal") {
			c.Check(eventIndex(g, s) > eventIndex(g, e), "file", "options are stored after the file was read", p.InstrPos(s.Ins), "")
			c.Check(gvEq(s.Args[0].constrain(s.G), na.Args[0].constrain(bAnd(na.G, s.G))) || s.Args[0].constrain(bAnd(s.G, na.G)).single() == na.Args[0].constrain(bAnd(s.G, na.G)).single(), "override", "stored in the configuration the scanner gets", p.InstrPos(s.Ins), "")
		}
	}
	flagOf := map[string]string{"nosec": "nosec", "show-ignored": "show-ignored", "audit": "enable-audit", "#nosec": "nosec-tag", "include": "include", "exclude": "exclude"}
	isBool := map[string]bool{"nosec": true, "show-ignored": true, "audit": true}
	by := map[string][]*GEvent{}
	for _, e := range m.calls("(gosec.Config).SetGlobal") {
		pos := p.InstrPos(e.Ins)
		o := e.Args[1].term()
		s, ok := "", false
		if o != nil {
			s, ok = constStr(o)
		}
		if !ok || flagOf[s] == "" {
			c.Fail("override", "SetGlobal", pos, "stores the option "+e.Args[1].String()+", which has no command-line option")
			continue
		}
		by[s] = append(by[s], e)
	}
	for _, e := range m.calls("(gosec.Config).Set") {
		c.Fail("override", "Set", p.InstrPos(e.Ins), "a section of the configuration is replaced by the command")
	}
	for _, e := range g.Events {
		if e.Kind == "mapstore" && strings.HasSuffix(namedName(e.Args[0].L[0].t.Typ), ".Config") {
			c.Fail("override", "section", p.InstrPos(e.Ins), "a section of the configuration is replaced by the command")
		}
	}
	for o, f := range flagOf {
		es := by[o]
		if !c.Check(len(es) > 0, "override", "-"+f, "cmd/gosec/main.go", "stored as "+o) {
			continue
		}
		stored := bF
		ft := m.flagTerm(f)
		var set BDD
		if isBool[o] {
			set = bddOf(ft)
		} else {
			set = bNot(g.eq(gvT(ft), mkString("")))
		}
		for _, e := range es {
			pos := p.InstrPos(e.Ins)
			stored = bOr(stored, e.G)
			if o == "include" || o == "exclude" {
				continue // see precedence
			}
			ok, d := implies(e.G, set)
			c.Check(ok, "override", "-"+f+" is stored only when it is given", pos, d)
			v := e.Args[2].constrain(e.G).single()
			if isBool[o] {
				s, isC := "", false
				if v != nil {
					s, isC = constStr(v)
				}
				c.Check(isC && (s == "true" || s == "enabled"), "override", "-"+f+" switches the option on", pos, e.Args[2].String())
			} else {
				c.Check(v == ft, "override", "-"+f+" is stored with its value", pos, e.Args[2].String())
			}
		}
		ok, d := implies(bAnd(na.G, set), stored)
		c.Check(ok, "override", "-"+f+" is stored whenever it is given", p.InstrPos(es[0].Ins), d)
	}
}

func checkScannerGlobals(c *Ctx) {
	p := c.P
	fn := p.Func("", "NewAnalyzer")
	g := NewGate(p)
	en := p.Method("", "Config", "IsGlobalEnabled")
	g.noInline(en)
	r := g.Run(fn)
	pos := p.Pos(fn.Pos())
	for field, opt := range map[string]string{"ignoreNosec": "nosec", "showIgnored": "show-ignored"} {
		v := g.fieldOfValue(r, r.Rets[0], field).bool()
		var src *Term
		for _, e := range g.Events {
			if e.Kind == "call" && e.Fn == en && e.Args[0].single() == gparam(fn, 0) {
				if s, ok := constStr(e.Args[1].single()); ok && s == opt {
					src = e.Result
				}
			}
		}
		if !c.Check(src != nil, "scanner", field, pos, "read from the option "+opt) {
			continue
		}
		on := bF
		errNil := bT
		for _, a := range bSupport(v) {
			if a.Op == "extract" && a.Args[0] == src {
				on = bddOf(a)
			} else if contains(a, func(x *Term) bool { return x.Op == "extract" && x.Args[0] == src }) {
				errNil = bddOf(a)
			} else {
				c.Fail("scanner", field, pos, "depends on "+a.String())
			}
		}
		ok, d := sameCond(bAnd(v, errNil), bAnd(on, errNil))
		c.Check(ok && on != bF, "scanner", field+" iff "+opt+" is on", pos, d)
		// an option which is not there is off (the value reported with an error is false)
		ok, d = implies(v, on)
		c.Check(ok, "scanner", field+" is off when not configured", pos, d)
		fv := p.FieldVar("", "Analyzer", field)
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && addrField(fa) == fv && f != fn && !isLocalAlloc(fa.X) {
							c.Fail("scanner", field, p.InstrPos(ins), "changed after construction")
						}
					}
				}
			}
		}
	}
	v := g.fieldOfValue(r, r.Rets[0], "config")
	c.Check(v.single() == gparam(fn, 0), "scanner", "config", pos, "the configuration given: "+v.String())
	// rules are built with that configuration
	for _, n := range []string{"LoadRules"} {
		lr := p.Method("", "Analyzer", n)
		lg := NewGate(p)
		lg.Run(lr)
		cnt := 0
		for _, e := range lg.Events {
			if e.Kind != "call" {
				continue
			}
			for i, a := range e.Args {
				t := a.single()
				if t != nil && strings.HasSuffix(namedName(t.Typ), "v2.Config") && i > 0 {
					cnt++
					c.Check(t == lg.ptrField(gparam(lr, 0), "config"), "scanner", n+" builds the rules with the configuration", p.InstrPos(e.Ins), t.String())
				}
			}
		}
		c.Check(cnt > 0, "scanner", n, p.Pos(lr.Pos()), fmt.Sprintf("%d builder calls", cnt))
	}
}

func checkOutputOptions(c *Ctx) {
	p := c.P
	m := p.mainModel()
	g := m.G
	na, rep := m.one("gosec.NewAnalyzer"), m.one("(*gosec.Analyzer).Report")
	npos := p.InstrPos(na.Ins)
	// version
	ver := m.flagB("version")
	ok, d := implies(na.G, bNot(ver))
	c.Check(ok, "version", "no scan with -version", npos, d)
	okV := false
	for _, e := range m.calls("os.Exit") {
		if z, isC := constInt(e.Args[0].single()); isC && z == 0 && sat(bAnd(ver, bNot(e.G))) == bF {
			okV = true
		}
		if z, isC := constInt(e.Args[0].single()); !isC || z != 0 {
			ok, d := implies(e.G, bNot(ver))
			c.Check(ok, "version", "no failure with -version", p.InstrPos(e.Ins), d)
		}
	}
	c.Check(okV, "version", "-version ends successfully", "-", "")
	// log
	lg := na.Args[5].constrain(na.G)
	silent := bOr(m.flagB("quiet"), m.flagB("terse"))
	for _, e := range m.calls("log.New") {
		w := e.Args[0].constrain(e.G)
		for _, a := range caseSplit(w) {
			when := bAnd(bAnd(a.g, e.G), g.eqTermGuard(lg, e.Result))
			if sat(when) == bF {
				continue
			}
			t := strip(a.t)
			pos := p.InstrPos(e.Ins)
			lf := m.flagTerm("log")
			switch {
			case isGlobalRead(t, "Discard"):
				ok, d := implies(when, silent)
				c.Check(ok, "log", "messages are discarded", pos, d)
			case isGlobalRead(t, "Stderr"):
				ok, d := implies(when, bAnd(bNot(silent), g.eq(gvT(lf), mkString(""))))
				c.Check(ok, "log", "messages go to standard error", pos, d)
			case contains(t, func(x *Term) bool { return x == lf }):
				ok, d := implies(when, bNot(silent))
				c.Check(ok, "log", "messages go to the log file", pos, d)
			default:
				c.Fail("log", "log writer", pos, t.String())
			}
		}
	}
	c.Min("log", 3)
	// sort
	var sorts []*GEvent
	L := res(rep, 0)
	for _, e := range g.Events {
		if e.Kind != "call" || e.Fn == nil || len(e.Args) == 0 {
			continue
		}
		switch funcQual(originFn(e.Fn)) {
		case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort":
			if gvHas(e.Args[0], func(t *Term) bool { return t == L }) {
				sorts = append(sorts, e)
			}
		}
	}
	if c.Check(len(sorts) > 0, "sort", "findings are sorted", "-", fmt.Sprint(len(sorts))) {
		all := bF
		for _, e := range sorts {
			ok, d := implies(e.G, m.flagB("sort"))
			c.Check(ok, "sort", "only with -sort", p.InstrPos(e.Ins), d)
			all = bOr(all, e.G)
		}
		for _, e := range m.calls("gosec.NewReportInfo") {
			ok, d := implies(bAnd(e.G, m.flagB("sort")), all)
			c.Check(ok, "sort", "always with -sort", p.InstrPos(e.Ins), d)
		}
	}
	// output
	out := m.flagTerm("out")
	noOut := g.eq(gvT(out), mkString(""))
	verbose, format := m.flagTerm("verbose"), m.flagTerm("fmt")
	noVerbose := g.eq(gvT(verbose), mkString(""))
	printed, saved := bF, bF
	lastP, lastS := -1, -1
	unprinted := bF
	for _, e := range m.calls("report.CreateReport") {
		pos := p.InstrPos(e.Ins)
		w := e.Args[0].constrain(e.G)
		for _, a := range caseSplit(w) {
			when := bAnd(a.g, e.G)
			if sat(when) == bF {
				continue
			}
			t := strip(a.t)
			f := e.Args[1].constrain(when)
			col := e.Args[2].constrain(when)
			if isGlobalRead(t, "Stdout") {
				ok, d := implies(when, bOr(noOut, m.flagB("stdout")))
				c.Check(ok, "output", "printed only without an output file or with -stdout", pos, d)
				c.Check(f.constrain(noVerbose).single() == format, "output", "printed in the format given by -fmt", pos, f.String())
				c.Check(f.constrain(bAnd(bNot(noVerbose), bNot(noOut))).single() == verbose, "output", "printed in the format given by -verbose when saved as well", pos, f.String())
				c.Check(col.single() == m.flagTerm("color"), "output", "printed in colour as -color says", pos, col.String())
				printed = bOr(printed, when)
				unprinted = bOr(unprinted, bAnd(when, g.notNil(res(e, 0))))
				lastP = max(lastP, eventIndex(g, e))
				continue
			}
			isFile := t.Op == "extract" && funcNameOf(t.Args[0]) == "os.Create" && t.Args[0].Args[0] == out ||
				t.Op == "extract" && funcNameOf(t.Args[0]) == "os.OpenFile" && t.Args[0].Args[0] == out
			if isFile {
				ok, d := implies(when, bNot(noOut))
				c.Check(ok, "output", "saved only with an output file", pos, d)
				c.Check(f.single() == format, "output", "saved in the format given by -fmt", pos, f.String())
				c.Check(col.bool() == bF, "output", "saved without colour", pos, col.String())
				saved = bOr(saved, when)
				lastS = max(lastS, eventIndex(g, e))
				continue
			}
			c.Fail("output", "destination", pos, "the report goes to "+t.String())
		}
	}
	// whatever ends the command after the reports: they were written as asked
	for i, e := range g.Events {
		isEnd := e.Kind == "exit" || e.Kind == "call" && shortName(e.Name) == "os.Exit"
		if !isEnd {
			continue
		}
		if i > lastP {
			ok, d := implies(bAnd(e.G, bOr(noOut, m.flagB("stdout"))), printed)
			c.Check(ok, "output", "printed whenever there is no output file or -stdout is given", p.InstrPos(e.Ins), d)
		}
		if i > lastS && i > lastP {
			// a report which could not be written ends the command as well
			fail := unprinted
			for _, a := range bSupport(e.G) {
				if contains(a, func(x *Term) bool {
					return x.Op == "extract" && funcNameOf(x.Args[0]) == "os.Create" && x.Args[0].Args[0] == out
				}) {
					fail = bOr(fail, bNot(bddOf(a)))
				}
			}
			ok, d := implies(bAnd(bAnd(e.G, bNot(noOut)), bNot(fail)), saved)
			c.Check(ok, "output", "saved whenever there is an output file", p.InstrPos(e.Ins), d)
		}
	}
	c.Check(lastP >= 0 && lastS >= 0, "output", "reports", "-", "")
	// switches which decide nothing else
	for _, f := range []string{"nosec", "show-ignored", "enable-audit", "exclude-generated", "sort", "no-fail", "tests", "stdout", "color", "terse", "quiet"} {
		a := m.flagTerm(f)
		for _, n := range []string{"gosec.NewAnalyzer", "(*gosec.Analyzer).Process", "(*gosec.Analyzer).Report"} {
			for _, e := range m.calls(n) {
				c.Check(!dependsOn(e.G, a), "only", "-"+f+" and "+n, p.InstrPos(e.Ins), "the call depends on the option")
			}
		}
		for _, e := range m.calls("report.CreateReport") {
			if f == "stdout" || f == "quiet" {
				continue
			}
			c.Check(!dependsOn(e.G, a), "only", "-"+f+" and the report", p.InstrPos(e.Ins), "the report depends on the option")
		}
	}
}

func dependsOn(b BDD, a *Term) bool {
	set := func(v bool) BDD {
		return bRestrict(b, func(x *Term) (bool, bool) { return v, x == a })
	}
	return sat(bXor(set(true), set(false))) != bF
}

func isGlobalRead(t *Term, name string) bool {
	t = strip(t)
	if t.Op == "deref" {
		t = t.Args[0]
	}
	gl, ok := t.Obj.(*ssa.Global)
	return ok && gl.Name() == name && (gl.Pkg.Pkg.Path() == "os" || gl.Pkg.Pkg.Path() == "io")
}

// eqTermGuard: the condition under which v is the term t.
func (g *Gate) eqTermGuard(v GV, t *Term) BDD {
	r := bF
	for _, a := range v.L {
		if a.t == t {
			r = bOr(r, a.g)
		}
	}
	return r
}

// checkAuditOption: who reads the audit option, and what it switches.
func checkAuditOption(c *Ctx) {
	p := c.P
	en := p.Method("", "Config", "IsGlobalEnabled")
	n := 0
	for _, f := range p.callersOf(en) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != en {
					continue
				}
				k, ok := call.Call.Args[1].(*ssa.Const)
				if !ok || constant.StringVal(k.Value) != "audit" {
					continue
				}
				n++
				checkAuditRule(c, f, call)
			}
		}
	}
	c.Check(n > 0, "audit", "readers", "-", fmt.Sprintf("%d readers of the audit option", n))
}

func checkAuditRule(c *Ctx, f *ssa.Function, call *ssa.Call) {
	p := c.P
	var match *ssa.Function
	for _, m := range p.ruleMatches() {
		if p.reachesStatically(m, f) {
			match = m
		}
	}
	if match == nil {
		c.Fail("audit", FuncName(f), p.Pos(f.Pos()), "not part of a rule")
		return
	}
	g := NewGate(p)
	g.noInline(call.Call.StaticCallee(), p.Method("", "Context", "NewIssue"))
	g.Run(match)
	var on BDD = bF
	for _, e := range g.Events {
		if e.Kind == "call" && e.Fn == call.Call.StaticCallee() {
			for _, x := range g.Events {
				for _, a := range bSupport(x.G) {
					if a.Op == "extract" && a.Args[0] == e.Result && isBoolType(a.Typ) {
						on = bddOf(a)
					}
				}
			}
		}
	}
	if !c.Check(on != bF, "audit", FuncName(match), p.Pos(match.Pos()), "reports something only in audit mode") {
		return
	}
	var withAudit, without int
	for _, e := range g.Events {
		if e.Kind != "call" || !strings.HasSuffix(shortName(e.Name), ".NewIssue") {
			continue
		}
		ifOff := bAnd(e.G, bNot(on))
		if sat(ifOff) == bF {
			withAudit++
			// an assignment which drops the error explicitly
			c.Check(typeGuard(e.G, "AssignStmt"), "audit", FuncName(match)+" audit finding", p.InstrPos(e.Ins), "concerns assignments")
			continue
		}
		without++
		c.Check(!dependsOn(e.G, bSupport(on)[0]), "audit", FuncName(match)+" other finding", p.InstrPos(e.Ins), "must not depend on the audit option")
		c.Check(typeGuard(e.G, "ExprStmt"), "audit", FuncName(match)+" other finding", p.InstrPos(e.Ins), "concerns call statements")
	}
	c.Check(withAudit > 0 && without > 0, "audit", FuncName(match), p.Pos(match.Pos()), fmt.Sprintf("%d audit findings, %d others", withAudit, without))
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// typeGuard: the condition requires a node of that kind.
func typeGuard(b BDD, kind string) bool {
	for _, a := range bSupport(b) {
		if a.Op == "tassertok" {
			if pt, ok := a.Obj.(types.Type); ok && strings.HasSuffix(pt.String(), "ast."+kind) {
				if ok, _ := implies(b, bddOf(a)); ok {
					return true
				}
			}
		}
	}
	return false
}

func originFn(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

// reachesStatically: f is from or is called by it through direct calls.
func (p *Program) reachesStatically(from, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var up func(x *ssa.Function) bool
	up = func(x *ssa.Function) bool {
		if x == from {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range p.callersOf(x) {
			if up(y) {
				return true
			}
		}
		return false
	}
	return up(f)
}
