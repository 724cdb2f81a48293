INTRO = '''# Static verification of securego/gosec: design

This file is written by `tools/design.py` from `properties.jsonl`, the rules in `checker/`, `tools/claims.py`,
`tools/notes.py`, `known_findings.txt` and `seeded/`.

## What decides

One Go program, `checker/`, loads `/repo` from source on every run with `go/packages` (the toolchain of the
project's build), type-checks it, builds `go/ssa` and decides every property from that. It never runs gosec
code, concretely or symbolically with a solver: the deciding steps are dataflow over SSA, comparison of boolean
functions represented as BDDs, call-graph reachability, effect and lock-set analyses, and syntax queries
(struct tags, templates, regular expressions parsed into trees). `run.sh ID` builds the checker (cached) and
runs one check; `setup.sh` builds it once and warms the export data of the dependencies. Each run writes
`evidence/ID.json` (what was analysed: functions, obligations per rule) and `out/ID.report.txt`; a failed
obligation names file:line, rule and construct. Quick and thorough command are the same program: an analysis is
complete for its rules in one run, there is nothing that exploring longer would add. Most checks take about a
second; C23 takes 20 s, as it asks every rule about every function.

### The engines

- **Gated value graph** (`gate.go`, `gatestep.go`, `bdd.go`): every function is evaluated once over abstract
  values; each value is a set of (condition, term) pairs, each effect (call, store, send, exit) carries the
  condition under which it happens as a BDD over atoms such as comparisons of terms. Calls into the module are
  inlined, so that a helper extracted or a condition turned around leaves the same condition. Loops over lists
  become comprehensions (which elements, under which condition, give which entries), counts, sums and
  existential conditions; loops the summary does not cover make the obligation undecided, which is a failure.
  Conditions are compared as functions, never as text.
- **Constant propagation and abstract syntax** (`sccp.go`, `fold.go`, `c23.go`, `c31.go`): a function is
  evaluated with part of its input fixed (the kind of a node, the called function, the shape of a literal) and
  the rest symbolic.
- **Value origins** (`origins.go`, `flowgraph.go`): backward flow over SSA and the call graph: where the
  rule of a finding, its position, its file come from.
- **Effects, locks, order** (`effects.go`, `c13.go`, `maploop.go`, `comparators.go`): what code reachable from a
  root may write or call; what goroutines share; whether what a loop over a map leaves depends on the order;
  whether a comparator is a lexicographic order.
- **Termination** (`c18.go`): each loop and each recursive group needs a descent, a bound or a visited set.

An obligation that an engine cannot decide is reported as violated with the word "undecided": a change which
moves the code out of reach of the analysis is not passed over. Each rule also has a minimum number of
instances, so that an anchor that is no longer found is reported too.

### What is trusted throughout

The Go type checker, `go/ssa`, the standard library and the dependencies do what they document; a call outside
the module is an unknown value which has no effect on memory of the module other than what it is handed. No
unsafe, no reflection in the module (C25 reports new uses of outside functions). Integers do not overflow in
counters.
'''
NOTES = {
'C01': '''The two routes (rules, analyzers) are taken from the point where a finding is available: all stores to the result list reachable from it are counted on each path for each of the 16 settings. *Why tests do not settle it:* the sixteen settings times two routes times the error paths are never combined in a test.''',
'C02': '''Patterns (directive, rule list) are compared as parsed regular expressions. Assumption: comments are associated with nodes by `ast.CommentMap`.''',
'C04': '''Every call that ends the process is found in the call graph of main; the status of the last one is compared with the function of (no-fail, findings left, errors) in the statement. Known limits: a path that does not exist is skipped by gosec with a log message, by design.''',
'C09': '''Nine writers. For each, the list of entries is a comprehension over the findings; its condition has to be "always" (not suppressed, in a scanned root for SonarQube) and each place of the entry is traced back to a field of the same finding. Limits decided not to be defects: SARIF URIs outside every root stay absolute; a `//line` directive moves the file.''',
'C12': '''A loop over a map is accepted when each round only touches what belongs to its own key, accumulates with a commutative operation, or its product is sorted by a total order before use. Equal keys of a sort are accepted only if the elements are then equal in everything that is used.''',
'C13': '''Protocol obligations on the control-flow graph (each path of a worker: Done once, after the last send; close after Wait; buffered queue as large as what is put in). Shared accesses: everything a goroutine reaches that it did not make itself.''',
'C14': '''Positions are parsed from the text go/packages gives; a file name with a colon is mis-parsed by gosec, by design of that format (not judged).''',
'C15': '''Packages go/packages returns without a name have no parsed files and are skipped.''',
'C16': '''Decided not to be defects: default `.git/` pattern only excludes what is below .git, the vendor pattern is unanchored, values of -exclude-dir are regular expressions, `gosec ...` walks the empty root.''',
'C17': '''Roots are Match of every registered rule and Run of every analyzer; functions which are called and evaluated on their own (`separately` in `c17.go`, makers of findings, larger functions of analyzers) hand their requirements on parameters to their callers until nothing changes. What may be nil: the fields and functions listed in `missing` and `missingResult` (taken from the documentation of go/ast, go/types and go/ssa, for programs with type errors too), results of failed assertions and lookups, fields a rule is made without, and whatever a function of the module returns as nil. Lists which are never empty are listed in `leastLen`. Assumptions: the operands of integer comparisons and conversions which are constants have a value; an *ssa.If ends a block with two successors; a position taken from syntax lies in a file. Not judged: constructors of rules (a setting of the wrong type in the configuration panics in some), stack depth (C18), panics inside the library on values that are present.''',
'C18': '''A worklist instead of recursion in `GetBinaryExprOperands` would be reported (the rule for loops knows counted, descending, finite and visited-set loops). Time is not judged.''',
'C19': '''The oracle is README's option table and the flag descriptions. Limits: include and exclude lists are not trimmed; a `"nosec"` configuration value is also used as the default tag; the help of -nosec-tag shows tags with a leading `#`.''',
'C20': '''State of a rule is any field or global that a call of Match writes and a later call may read. It is accepted when it is keyed by an object or position of the scanned program, or written before it is read on every path.''',
'C22': '''64-bit platform. Whether a constant fits is decided between all boundary constants (a comparison with a limit is constant between two boundaries).''',
'C23': '''What belongs on a list is defined in `c23.go` by the signature of functions in the library (results, parameter types and names): e.g. G401 everything of crypto/md5 and crypto/sha1 that returns a hash.Hash or an array of bytes; G114 every net/http function with a Handler parameter that returns an error; G201/G202 every method of an exported database/sql type with a parameter `query`. Excluded on purpose: sources and distributions of math/rand (they are drawn from through a generator), net.ListenPacket, methods of http.Client.''',
'C24': '''The mode is compared as a bit vector: for every bit position the condition is compared with "mode has it and maximum lacks it". Limits: modes that are constants or conversions are not read by gosec; `os` is recognised by its name.''',
'C25': '''Every function outside the module that module code calls is classified by package and name (computes, reads, writes, starts programs, network, ends the process); a new one that is in no class is reported.''',
'C28': '''The text of a source line longer than 64 KB is replaced by the scanner's message in the snippet; not a defect of escaping.''',
'C31': '''The rule is evaluated on syntax laid out in abstract memory (literal with one or two settings in either order, assignment, by value or through a pointer, with or without a type), names and numbers being symbols; the fields that Match writes start as symbols "left over", and no verdict may depend on them. The versions' values and the suites' names come from crypto/tls; recommended suites are those of TLS 1.3 and, below it, ECDHE with GCM or ChaCha20. Limits: of `var a, b = x, y` the first value is taken for both; a variable given for MaxVersion is not resolved; a setting overwritten later is still flagged.''',
'C32': '''A panic while building SSA drops the analyzers' part of a package with a log line (decided not to judge).''',
'C33': '''`go list -m` runs in the working directory, as the statement says.''',
'C36': '''Entropy and patterns are uninterpreted; comparisons of entropy are decided with difference bounds. Limits: a struct field as target is not looked at (gosec does not), an assignment of several values may pair a name with another's text, and the texts of the secret patterns are data.''',
'C37': '''The functions are evaluated once on symbols; what comes out for a path, a selector or a list is then found by folding strings and regular expressions over the representative forms named in the report (quotes, versions, vendor directories, pointers). Limits: names of packages that differ from their path are guessed by gosec and not judged, dot imports have no name to look up, and a package-level variable declared in another file is taken for a package by gosec itself.''',
'C38': '''Each rule is evaluated on a syntax tree which the checker lays out (calls, literals, concatenations, variables with their declarations); recursion and loops over it are gone through step by step, and whether a variable is resolved stays a symbol, so the result is a condition and not a sample. What a call is said to call is given (C37 decides that). Limits: trees beyond the listed forms are not judged; what gosec deliberately leaves out (parameters in G204, identifiers declared in other files, arguments other than identifiers, concatenations and joined paths in G304) is not asked.''',
}
GENERAL = '''## Limits that hold for all checks

- A check judges gosec's code, not its verdicts on programs: heuristics (what counts as tainted, as secret, as
  a sufficient range check) are not properties of the source text; see C34 and C35.
- Comparisons with documentation use the tables in README and in the checker; a changed table has to be changed
  in the checker too.
- Defects seen and deliberately left: `isStringToIntConversion` takes ParseInt with bit size 0 for safe and goes
  by the name only; G104 looks at the first call of an assignment's right side only; a configuration value of the
  wrong type makes G101 and G111 fail at construction, as a compile-time pattern would.
'''
REFACTORINGS = '''## Behaviour-preserving edits tried

For each check a script applied edits that keep the behaviour (helper extracted or inlined, condition inverted
or split, loop turned into another form, statements reordered, switch for if chain, table for switch, a comment or
a statement without effect) to a copy and the checks had to stay quiet; where one did not, the engine was extended
(not the check loosened). A few forms remain outside what the engines recognise and would be reported: see the
notes of C18.
'''
