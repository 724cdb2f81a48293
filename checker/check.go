package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Ctx collects the obligations of one property's check.
type Ctx struct {
	P    *Program
	ID   string
	Tier string

	obls   []obl
	fails  []failure
	rules  map[string]string
	order  []string
	counts map[string]int
	notes  []string
	assume []string
	stats  map[string]int
}

type obl struct{ rule, construct, detail string }

type failure struct {
	rule, construct, pos, detail string
}

// Rule declares a rule and what it demands.
func (c *Ctx) Rule(name, text string) {
	if _, ok := c.rules[name]; !ok {
		c.order = append(c.order, name)
	}
	c.rules[name] = text
}

// OK discharges one obligation.
func (c *Ctx) OK(rule, construct, detail string) {
	c.obls = append(c.obls, obl{rule, construct, detail})
	c.counts[rule]++
}

// Fail reports a violated obligation.
func (c *Ctx) Fail(rule, construct, pos, detail string) {
	if len(detail) > 3000 {
		detail = detail[:3000] + " ..."
	}
	c.fails = append(c.fails, failure{rule, construct, pos, detail})
	c.counts[rule]++
}

// Check is OK or Fail depending on the condition.
func (c *Ctx) Check(cond bool, rule, construct, pos, detail string) bool {
	if cond {
		c.OK(rule, construct, detail)
	} else {
		c.Fail(rule, construct, pos, detail)
	}
	return cond
}

// Min demands that a rule had at least n instances (a rule that matches nothing would pass vacuously).
func (c *Ctx) Min(rule string, n int) {
	if c.counts[rule] < n {
		c.Fail(rule, "instances", "-", fmt.Sprintf("rule examined %d constructs, expected at least %d: its anchor was not found", c.counts[rule], n))
	}
}

func (c *Ctx) Stat(k string, n int) { c.stats[k] += n }

// Guard runs a part of a check; an analysis that cannot decide counts as a failed obligation.
func (c *Ctx) Guard(rule, construct string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				c.Fail(rule, construct, "-", "undecided: "+u.msg)
				return
			}
			c.Fail(rule, construct, "-", fmt.Sprintf("undecided: internal failure %v\n%s", r, firstLines(string(debug.Stack()), 14)))
		}
	}()
	f()
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type checkDef struct {
	id        string
	run       func(c *Ctx)
	technique string
	note      string
}

var checks = map[string]*checkDef{}

func register(id string, run func(c *Ctx)) { checks[id] = &checkDef{id: id, run: run} }

type known struct{ prop, key, text string }

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C01 key=<rule>|<construct> :: text
		l = strings.TrimPrefix(l, "finding: ")
		parts := strings.SplitN(l, " :: ", 2)
		f := strings.SplitN(parts[0], " key=", 2)
		if len(f) != 2 || len(parts) != 2 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(f[0], "property="), f[1], parts[1]})
	}
	return out
}

func runCheck(p *Program, id, tier, verif string, start time.Time, loadErr error) int {
	c := &Ctx{P: p, ID: id, Tier: tier, rules: map[string]string{}, counts: map[string]int{}, stats: map[string]int{}}
	def := checks[id]
	bm.fresh()
	if def == nil {
		fmt.Printf("no check for property %s\n", id)
		return 2
	}
	if loadErr != nil {
		c.Rule("load", "the program loads and type-checks")
		c.Fail("load", "program", "-", loadErr.Error())
	} else {
		c.Guard("internal", "check", func() { def.run(c) })
		c.Stat("boolean function nodes", bm.used())
	}
	kn := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var viol []failure
	var knownHit []string
	seenKey := map[string]bool{}
	for _, f := range c.fails {
		key := f.rule + "|" + f.construct
		hit := false
		for _, k := range kn {
			if k.prop == id && k.key == key {
				hit = true
				if !seenKey[key] {
					knownHit = append(knownHit, fmt.Sprintf("%s (%s at %s): %s", k.text, key, f.pos, oneLine(f.detail)))
				}
				seenKey[key] = true
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	// replay / report file
	var rep strings.Builder
	fmt.Fprintf(&rep, "property %s: %d obligations, %d discharged, %d violated\n\n", id, len(c.obls)+len(c.fails), len(c.obls), len(c.fails))
	for _, f := range viol {
		fmt.Fprintf(&rep, "VIOLATED rule %s: %s\n  construct: %s\n  at:        %s\n  detail:    %s\n\n", f.rule, c.rules[f.rule], f.construct, f.pos, f.detail)
	}
	for _, r := range c.order {
		fmt.Fprintf(&rep, "rule %s: %s\n", r, c.rules[r])
		for _, o := range c.obls {
			if o.rule == r {
				fmt.Fprintf(&rep, "  ok   %s  %s\n", o.construct, oneLine(o.detail))
			}
		}
	}
	_ = os.MkdirAll(filepath.Join(verif, "out"), 0o755)
	repPath := filepath.Join("out", id+".report.txt")
	_ = os.WriteFile(filepath.Join(verif, repPath), []byte(rep.String()), 0o644)

	// evidence
	var ruleLines []map[string]any
	for _, r := range c.order {
		ruleLines = append(ruleLines, map[string]any{"rule": r, "text": c.rules[r], "instances": c.counts[r]})
	}
	samples := []string{}
	perRule := map[string]int{}
	for _, o := range c.obls {
		if perRule[o.rule] < 3 && len(samples) < 24 {
			perRule[o.rule]++
			samples = append(samples, o.rule+": "+o.construct+" — "+oneLine(o.detail))
		}
	}
	cov := map[string]any{
		"explanation": fmt.Sprintf("Static analysis of /repo's current source: %d rules, %d obligations, %d discharged; every obligation names a construct (function, call site, table entry or decision-table row).", len(c.order), len(c.obls)+len(c.fails), len(c.obls)),
		"obligations": len(c.obls) + len(c.fails),
		"discharged":  len(c.obls),
		"rules":       ruleLines,
		"samples":     samples,
	}
	if p != nil {
		cov["packages_analysed"] = len(p.Pkgs)
		cov["functions_in_ssa"] = len(p.Funcs)
	}
	for k, v := range c.stats {
		cov[k] = v
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	if len(knownHit) > 0 {
		cov["known_findings"] = knownHit
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	sort.Strings(knownHit)
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(viol) > 0 {
		for _, f := range viol {
			fmt.Printf("%s: rule %s violated by %s: %s\n", f.pos, f.rule, f.construct, oneLine(f.detail))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, repPath)
		return 1
	}
	fmt.Printf("ok property=%s obligations=%d rules=%d\n", id, len(c.obls), len(c.order))
	return 0
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " / ")
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}
