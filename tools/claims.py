# property -> (technique, what is decided and what is not)
CLAIMS = {
 "C01": ("static analysis: conditional constant propagation over SSA, decision table on every executable path",
         "Decides, for both finding routes and all 16 settings, how often a finding is appended, what suppressions and mark it gets; assumes the suppression lookup is a function of file, line and rule id (C02)."),
 "C02": ("static analysis: gated value graph of annotation collection, recording and lookup; guards compared as boolean functions, patterns compared as syntax trees",
         "Decides for arbitrary comments, ranges and rules what is recorded, under which range, and which findings it answers; which node a comment belongs to is decided by go/ast and trusted."),
 "C03": ("static analysis: gated value graph of suppression records, append bases checked for aliasing, write effects on the attached lists",
         "Decides the records attached to a finding for every combination of annotations and external suppression, and that no list is shared or changed later."),
 "C04": ("static analysis: gated value graph of the command's main function, exit-call guards compared as boolean functions",
         "Decides the guard of every process exit and of the final status as a function of flags, errors and counts; fatal conditions are read off call results."),
 "C05": ("static analysis: gated value graph of the command's main function, filter and count conditions compared as boolean functions",
         "Decides the filter condition, score parsing and count as boolean functions of one finding's fields; assumes the flag package stores what was passed."),
 "C06": ("static analysis: gated value graph of rule selection; filters, lists and suppression marks compared as boolean functions and comprehensions",
         "Decides for every include list, exclude list and tracking option which rules are loaded under which mark, in both engines; the documented rule identifiers are the oracle for the tables."),
 "C09": ("static analysis: gated value graph of report assembly and of every report writer; the entries written are compared with the list of findings as gated comprehensions",
         "Decides for every writer under which condition each finding reaches an entry and which field of the finding each place shows; the encoders of the standard library and yaml are trusted."),
 "C10": ("static analysis: gated value graph of the format dispatch and of the report steps of main; mutation effects on the report data",
         "Decides the writer for every format name, the findings passed to it, and that producing one report changes nothing a later one shows."),
 "C11": ("static analysis: error-flow over the gated value graph: every write, close and encode step of report output ends in a reported error",
         "Decides for every report writer and for main that a failed step makes the returned error non-nil and ends in a fatal exit; what the standard library reports is trusted."),
 "C12": ("static analysis: order-independence analysis of every loop over a map (effects, accumulators, early exits) plus evaluation of every comparator over all outcomes of its comparisons",
         "Decides for every loop over a map in the module that what it leaves behind does not depend on the order, for every sort that its comparator is a lexicographic order, and which order findings and errors get; the order in which the standard library hands things out is trusted."),
 "C13": ("static analysis: inter-procedural control-flow paths of the scan and of its goroutines (wait group, channel and lock protocol), lockset and access analysis of what goroutines share",
         "Decides on every control-flow path the wait-group, queue, stop and close protocol of package loading, and for every access of a goroutine to memory it did not make that the scan side never conflicts without a common lock; library code is trusted to end and to be safe for concurrent use where documented."),
 "C14": ("static analysis: error-flow over the gated value graph of package loading and of the consumer loop; recorded error positions compared with the positions they were parsed from",
         "Decides for every failed step of loading which error is handed over and recorded, and for every error list of a package that each element is recorded with file, line, column and message; what go/packages reports is trusted."),
 "C15": ("static analysis: gated value graph of package loading, file selection and the per-file checks; lists compared as gated comprehensions, skip conditions as boolean functions",
         "Decides which files are handed to the loader, with which build tags, and under which condition a loaded file is skipped by the rules or its findings by the analyzers; a package go/packages returns without a name is skipped (nothing was parsed)."),
 "C16": ("static analysis: gated value graph of directory expansion and its walk callback, of the exclusion patterns and of their use in main",
         "Decides for every entry of the tree whether its directory is kept, for every exclusion list how it is matched, and that main scans every directory found; filepath.Walk is trusted to visit every readable entry."),
 "C17": ("static analysis: gated value graph of every rule and analyzer with its helpers; every dereference, index, slice bound, unchecked assertion, division and map store an obligation discharged from the condition under which it happens",
         "Decides for every operation of rule and analyzer code that can panic that what it works on is present under the condition of the operation; what syntax trees, type information and SSA may leave out is a table of the parser's and type checker's promises, and the library is trusted not to panic on values that are present."),
 "C19": ("static analysis: gated value graph of the command and of the configuration methods; call conditions and arguments compared with the documented meaning of each option",
         "Decides for arbitrary option values and configuration files how every option reaches the scanner, the rule selection and the reports; the flag package and JSON decoding are trusted."),
 "C20": ("static analysis: gated value graph of the per-file loop and of reset; state analysis of rules: every write that outlives a call classified, scalar state checked on all control-flow paths of Match",
         "Decides that per-file context is new and complete before every walk, that a reset empties every field a scan changes, and that what a rule keeps is keyed by a construct or re-initialised before it is read."),
 "C21": ("static analysis: gated value graph of the per-file loop, annotation scan and recording; final counter values compared as counts and sums over the walked files",
         "Decides for arbitrary file lists, annotations and settings what each counter grows by; every other write of a counter in the module is reported."),
 "C25": ("static analysis: effect analysis: every use of a function outside the module classified; output files and the started program read off the gated value graph",
         "Decides which outside functions any scan code can reach, which files are opened for writing and under which name, and which program is started; that the listed libraries only compute or read is trusted."),
 "C26": ("static analysis: gated value graph of main and of the suggestion feature: call guards, contents of the request, cache and store effects, release of context and client; panic obligations of everything an answer may lack",
         "Decides for every combination of provider, keys and findings when a request is made, what it contains, how often, under which time limit, and what it may change; the client library is trusted to honour its context."),
 "C27": ("static analysis: gated value graph, the translation tables read off as guarded constants and compared case by case",
         "Decides every severity and confidence translation of the eight formats for all three scores."),
 "C28": ("static analysis: struct-tag, conversion and template-position lint plus gated value graph of what reaches the output writer",
         "Decides that only literal text and encoder output reaches structured reports; the encoders themselves are trusted; the page script is checked for raw-markup sinks only."),
 "C22": ("static analysis: gated value graph of the conversion analyzer, constant-folded for every pair of integer types and every boundary constant",
         "Decides the judgement for all pairs of integer types, the limits read off every type name, and for every constant (between boundaries the comparisons are constant) whether it is taken to fit; 64-bit platform; the checks of values in the scanned code are left out."),
 "C23": ("static analysis: abstract evaluation of each rule's constructor and Match with only the called function fixed, against lists derived from the library's types",
         "Decides for every function, type and method of the packages that a deny-list names whether the rule acts on it, which argument it looks at, that each entry exists, and which package an import rule blocks; the classes of functions (what makes a hash, serves without timeouts, takes a query and so on) are defined by signature in the checker, and the heuristics applied after a call was recognised are not judged."),
 "C24": ("static analysis: gated value graph of the permission rules; the mode comparison decided bit by bit, covered functions and defaults read off construction",
         "Decides for every mode, maximum and covered function whether a finding is made, and where the maximum comes from for every form of configured value; which integer literal the mode is, is decided by strconv and trusted."),
 "C31": ("static analysis: abstract evaluation of the TLS rule on syntax shapes with symbolic names and numbers, conditions compared as boolean functions",
         "Decides for each setting, alone and combined in either order, in literals (typed or not) and assignments (by value or pointer), the exact condition under which it is flagged, with the state left by earlier constructs symbolic; what a variable holds is only decided where its declaration gives a number, and whether a literal's settings are overwritten later is not followed."),
 "C32": ("static analysis: constant propagation of the node's dynamic type through every rule, joined with its registration; gated value graph of visit, registration and lookup",
         "Decides for every rule and kind of syntax node whether the rule acts on it and is registered for it, and that visiting, registration, lookup and recording leave nothing out; go/ast's traversal is trusted."),
 "C33": ("static analysis: gated value graph of the version lookup, compared case by case; the version pattern as a syntax tree; the gate evaluated at its boundary",
         "Decides the source of each version part for every combination of environment and go command outcome, and for which versions G601 is active; the go command's answer is trusted."),
 "C30": ("static analysis: gated value graph of SARIF generation, index and descriptor lists compared as comprehensions over the findings",
         "Decides rule index, descriptors, taxonomy entries and per-result fields for arbitrary finding lists."),
 "C07": ("static analysis: backward value-origin analysis of every finding construction, constructors evaluated as gated value graphs, ownership of the identifying fields",
         "Decides identifier, severity, confidence and description of each finding for every rule, analyzer and construction site; the wording of descriptions is not judged beyond being non-empty."),
 "C08": ("static analysis: tables read off package initialisation (gated value graph), rule registration joined with the CWE table, field ownership",
         "Decides that every registered rule has a catalogued CWE whose entry is complete, and that findings carry it and render it; whether the weakness chosen is apt is not judged."),
 "C29": ("static analysis: backward value-origin analysis of the position fields of every finding, gated value graph of the snippet window",
         "Decides which node and file the position and snippet of a finding come from, and the window arithmetic; does not judge whether the flagged node is the best one."),
 "C18": ("static analysis: termination argument for every loop and every recursive group of functions the scan can reach (descent through finite structures, depth bounds, visited sets) over SSA and the call graph",
         "Decides termination of all module code run per package; library code called with callbacks is trusted to terminate, and the time taken is not judged."),
 "C36": ("static analysis: abstract evaluation of the credentials rule on syntax shapes with symbolic settings, names and texts, verdicts compared as boolean functions",
         "Decides for assignments, declarations and comparisons of every form the exact condition of a finding, and where each setting comes from for every form of configured value; the entropy estimator and the content of the secret patterns are data and trusted."),
    "C37": ("static analysis: abstract evaluation of import tracking, call description and list lookup on symbols, outcomes determined by folding the library calls in them for every form of path, receiver and list",
         "Decides which names an import gets, which import a name stands for, what every form of call is said to call, and when a list has it; dot imports and variables of other files have no entry, as in gosec today."),
    "C39": ("static analysis: gated value graph of every function around the rules, one obligation per dereference, call, index, slice, assertion, division and map store, discharged under the condition of the operation",
         "Decides for every package, configuration and set of findings that no such operation can fail; what the library promises about its syntax trees, positions and type information is taken from tables, that findings carry weaknesses of the catalogue from C08."),
 "C38": ("static analysis: abstract evaluation of the rules on calls laid out as syntax, resolution of variables symbolic, the condition of a finding compared with the documented one",
         "Decides, for each form of argument in the report, under which conditions G102, G107, G111, G201, G202, G203, G204, G303, G304 and G403 flag a call, and what TryResolve takes for known."),
}
NOT_APPLICABLE = {
 "C34": "which values an outsider can influence and how they travel through arbitrary scanned programs is a question about gosec's verdicts on unbounded inputs; the rules use deliberate heuristics (string concatenation, tracked variables) whose accuracy no property of gosec's source text fixes",
 "C35": "soundness of range-check recognition quantifies over the run-time values of scanned programs; gosec's recogniser is heuristic and its correct verdicts are not visible in the shape of its code",
}
