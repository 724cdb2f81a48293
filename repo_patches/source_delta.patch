From f9e2a4bb343371909ca0e350c4b6c30f8c9d53cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 01/64] fix: do not exit quietly with status zero when Go
 errors were found

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 2753ea4..03fc1a0 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -494,7 +494,7 @@ func main() {
 	}
 
 	// Exit quietly if nothing was found
-	if len(issues) == 0 && *flagQuiet {
+	if len(issues) == 0 && len(errors) == 0 && *flagQuiet {
 		os.Exit(0)
 	}
 
-- 
2.43.0


From 0c03e5bbdc5281b650d98a6719147d1b94e195d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 02/64] fix: do not fail the scan because of ignored issues
 which are shown

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 03fc1a0..c554da3 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -348,7 +348,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 func exit(issues []*issue.Issue, errors map[string][]gosec.Error, noFail bool) {
 	nsi := 0
 	for _, issue := range issues {
-		if len(issue.Suppressions) == 0 {
+		if len(issue.Suppressions) == 0 && !issue.NoSec {
 			nsi++
 		}
 	}
-- 
2.43.0


From 21fc6823f45201c08678b787407f0b8d6cdf9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 03/64] fix: keep the rule index of SARIF results valid when
 further rules are added

---
 report/sarif/formatter.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index f47c250..4829c9c 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -67,24 +67,15 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		WithRuns(run), nil
 }
 
-// addRuleInOrder inserts a rule into the rules slice keeping the rules IDs order, it returns the new rules
-// slice and the position where the rule was inserted
+// addRuleInOrder adds a rule to the rules slice unless it is already there. New rules are appended, so that
+// the positions handed out earlier stay valid. It returns the new rules slice and the position of the rule
 func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) ([]*ReportingDescriptor, int) {
-	position := 0
 	for i, r := range rules {
-		if r.ID < rule.ID {
-			continue
-		}
 		if r.ID == rule.ID {
 			return rules, i
 		}
-		position = i
-		break
 	}
-	rules = append(rules, nil)
-	copy(rules[position+1:], rules[position:])
-	rules[position] = rule
-	return rules, position
+	return append(rules, rule), len(rules)
 }
 
 // parseSarifRule return SARIF rule field struct
-- 
2.43.0


From 0153aa30a0eb7949f4e95d9769a9279e3c792db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 04/64] fix: use the scanned paths as root paths when only -r
 was given

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index c554da3..9f02e0d 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -499,7 +499,7 @@ func main() {
 	}
 
 	// Create output report
-	rootPaths := getRootPaths(flag.Args())
+	rootPaths := getRootPaths(paths)
 
 	reportInfo := gosec.NewReportInfo(issues, metrics, errors).WithVersion(Version)
 
-- 
2.43.0


From 91346897b4bab2f25fb5ba1a31cafebeb402c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 05/64] fix: show code lines of any length in the text report

---
 report/text/writer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/report/text/writer.go b/report/text/writer.go
index d839a43..4588de0 100644
--- a/report/text/writer.go
+++ b/report/text/writer.go
@@ -1,7 +1,6 @@
 package text
 
 import (
-	"bufio"
 	"bytes"
 	_ "embed" // use go embed to import template
 	"fmt"
@@ -79,11 +78,13 @@ func highlight(t string, s issue.Score, ignored bool) string {
 // printCodeSnippet prints the code snippet from the issue by adding a marker to the affected line
 func printCodeSnippet(issue *issue.Issue) string {
 	start, end := parseLine(issue.Line)
-	scanner := bufio.NewScanner(strings.NewReader(issue.Code))
 	var buf bytes.Buffer
 	line := start
-	for scanner.Scan() {
-		codeLine := scanner.Text()
+	for _, codeLine := range strings.SplitAfter(issue.Code, "\n") {
+		if codeLine == "" {
+			continue
+		}
+		codeLine = strings.TrimSuffix(strings.TrimSuffix(codeLine, "\n"), "\r")
 		if strings.HasPrefix(codeLine, strconv.Itoa(line)) && line <= end {
 			codeLine = "  > " + codeLine + "\n"
 			line++
-- 
2.43.0


From dedb7a51153ba90e57e134da85a1466852d121e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 06/64] fix: report read errors of the code snippet

---
 issue/issue.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/issue/issue.go b/issue/issue.go
index b7c804e..a869504 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -165,6 +165,9 @@ func CodeSnippet(file *os.File, start int64, end int64) (string, error) {
 			buf.WriteString(code)
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return "", err
+	}
 	return buf.String(), nil
 }
 
-- 
2.43.0


From c6d1411bd8f67688c083692f12a844d43bca12d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 07/64] fix: return the error of flushing the CSV report

---
 report/csv/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/report/csv/writer.go b/report/csv/writer.go
index 40bb6a1..0b15715 100644
--- a/report/csv/writer.go
+++ b/report/csv/writer.go
@@ -10,7 +10,6 @@ import (
 // WriteReport write a report in csv format to the output writer
 func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 	out := csv.NewWriter(w)
-	defer out.Flush()
 	for _, issue := range data.Issues {
 		err := out.Write([]string{
 			issue.File,
@@ -25,5 +24,6 @@ func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 			return err
 		}
 	}
-	return nil
+	out.Flush()
+	return out.Error()
 }
-- 
2.43.0


From 6a9f15aa3e6bbc0158c6561c9f07a9dd7455db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 08/64] fix: keep suppressed findings for reports written later

---
 report/formatter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/report/formatter.go b/report/formatter.go
index 3e83dc6..0524c68 100644
--- a/report/formatter.go
+++ b/report/formatter.go
@@ -55,7 +55,10 @@ const (
 func CreateReport(w io.Writer, format string, enableColor bool, rootPaths []string, data *gosec.ReportInfo) error {
 	var err error
 	if format != "json" && format != "sarif" {
-		data.Issues = filterOutSuppressedIssues(data.Issues)
+		// work on a copy: the same data may be used for another report
+		filtered := *data
+		filtered.Issues = filterOutSuppressedIssues(data.Issues)
+		data = &filtered
 	}
 	switch format {
 	case "json":
-- 
2.43.0


From 615b52929fc990d840caec9810eae131b3984779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 09/64] fix: use the -ai-api-key option when the environment
 has no key

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 9f02e0d..b267de0 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -505,7 +505,7 @@ func main() {
 
 	// Call AI request to solve the issues
 	aiAPIKey := os.Getenv(aiAPIKeyEnv)
-	if aiAPIKeyEnv == "" {
+	if aiAPIKey == "" {
 		aiAPIKey = *flagAiAPIKey
 	}
 	if *flagAiAPIProvider != "" && aiAPIKey != "" {
-- 
2.43.0


From 476373a63c35705c0cc91260d054a2a836ca41d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 10/64] fix: return the error of closing the report file

---
 cmd/gosec/main.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index b267de0..8ef6176 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -309,12 +309,11 @@ func saveReport(filename, format string, rootPaths []string, reportInfo *gosec.R
 	if err != nil {
 		return err
 	}
-	defer outfile.Close() // #nosec G307
 	err = report.CreateReport(outfile, format, false, rootPaths, reportInfo)
-	if err != nil {
-		return err
+	if closeErr := outfile.Close(); err == nil {
+		err = closeErr
 	}
-	return nil
+	return err
 }
 
 func convertToScore(value string) (issue.Score, error) {
-- 
2.43.0


From 814c8e1aef6df5764570141c8e8ef31c5838e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 11/64] fix: escape all text of JUnit failures

---
 report/junit/formatter.go | 3 +--
 report/junit/types.go     | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/report/junit/formatter.go b/report/junit/formatter.go
index 3b974fd..c27a7d2 100644
--- a/report/junit/formatter.go
+++ b/report/junit/formatter.go
@@ -1,7 +1,6 @@
 package junit
 
 import (
-	"html"
 	"strconv"
 
 	"github.com/securego/gosec/v2"
@@ -17,7 +16,7 @@ func generatePlaintext(issue *issue.Issue) string {
 		"[" + issue.File + ":" + issue.Line + "] - " +
 		issue.What + " (Confidence: " + strconv.Itoa(int(issue.Confidence)) +
 		", Severity: " + strconv.Itoa(int(issue.Severity)) +
-		", CWE: " + cweID + ")\n" + "> " + html.EscapeString(issue.Code) +
+		", CWE: " + cweID + ")\n" + "> " + issue.Code +
 		"\n Autofix: " + issue.Autofix
 }
 
diff --git a/report/junit/types.go b/report/junit/types.go
index bac3218..f19e763 100644
--- a/report/junit/types.go
+++ b/report/junit/types.go
@@ -29,5 +29,5 @@ type Testcase struct {
 type Failure struct {
 	XMLName xml.Name `xml:"failure"`
 	Message string   `xml:"message,attr"`
-	Text    string   `xml:",innerxml"`
+	Text    string   `xml:",chardata"`
 }
-- 
2.43.0


From f58ba2fcc28e823f6bd8cb2f8eee31a315af2fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 12/64] fix: keep the build tags for all packages of a run

---
 analyzer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 34ac82b..168ba07 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -361,11 +361,12 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		}
 	}
 
-	// step 3/3 remove build tags from conf to proceed build correctly.
+	// step 3/3 remove build tags from a copy of conf to proceed build correctly.
 	gosec.mu.Lock()
-	conf.BuildFlags = nil
 	defer gosec.mu.Unlock()
-	pkgs, err := packages.Load(conf, packageFiles...)
+	loadConf := *conf
+	loadConf.BuildFlags = nil
+	pkgs, err := packages.Load(&loadConf, packageFiles...)
 	if err != nil {
 		return []*packages.Package{}, fmt.Errorf("loading files from package %q: %w", pkgPath, err)
 	}
-- 
2.43.0


From cf74b033345580e769233d71ef9cfd39c07d0989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 13/64] fix: do not share suppressions between findings

---
 analyzer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 168ba07..70fc544 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -705,7 +705,8 @@ func (gosec *Analyzer) getSuppressionsAtLineInFile(file string, line string, id
 	generalSuppressions, generalIgnored := ignoredRules[aliasOfAllRules]
 	ruleSuppressions, ruleIgnored := ignoredRules[id]
 	ignored := generalIgnored || ruleIgnored
-	suppressions := append(generalSuppressions, ruleSuppressions...)
+	suppressions := append([]issue.SuppressionInfo{}, generalSuppressions...)
+	suppressions = append(suppressions, ruleSuppressions...)
 
 	// Track external suppressions of this rule.
 	if gosec.ruleset.IsRuleSuppressed(id) || gosec.analyzerSet.IsSuppressed(id) {
-- 
2.43.0


From 27792e8c5a73bcef5e190489c3ff47135de0daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 14/64] fix: apply every annotation which covers a finding and
 only to the code it covers

---
 analyzer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 70fc544..40a5053 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -94,7 +94,7 @@ func (i ignores) add(file string, line string, suppressions map[string]issue.Sup
 	found := false
 	start, end := i.parseLine(line)
 	for _, ig := range is {
-		if ig.start <= start && ig.end >= end {
+		if ig.start == start && ig.end == end {
 			found = true
 			for r, s := range suppressions {
 				ss, ok := ig.suppressions[r]
@@ -123,14 +123,17 @@ func (i ignores) add(file string, line string, suppressions map[string]issue.Sup
 
 func (i ignores) get(file string, line string) map[string][]issue.SuppressionInfo {
 	start, end := i.parseLine(line)
+	suppressions := map[string][]issue.SuppressionInfo{}
 	if is, ok := i[file]; ok {
 		for _, i := range is {
 			if i.start <= start && i.end >= end || start <= i.start && end >= i.end {
-				return i.suppressions
+				for r, ss := range i.suppressions {
+					suppressions[r] = append(suppressions[r], ss...)
+				}
 			}
 		}
 	}
-	return map[string][]issue.SuppressionInfo{}
+	return suppressions
 }
 
 // The Context is populated with data parsed from the source code as it is scanned.
-- 
2.43.0


From 8fcb8976aab10f5f3ae2fd2c1c89b7f9d957ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 15/64] fix: collect annotations in a fixed order

---
 analyzer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 40a5053..83d9f5f 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -16,6 +16,7 @@
 package gosec
 
 import (
+	"cmp"
 	"errors"
 	"fmt"
 	"go/ast"
@@ -28,6 +29,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -681,7 +683,15 @@ func (gosec *Analyzer) Visit(n ast.Node) ast.Visitor {
 }
 
 func (gosec *Analyzer) updateIgnores() {
+	// visit the annotated nodes in the order of their comments
+	nodes := make([]ast.Node, 0, len(gosec.context.Comments))
 	for n := range gosec.context.Comments {
+		nodes = append(nodes, n)
+	}
+	slices.SortFunc(nodes, func(a, b ast.Node) int {
+		return cmp.Compare(gosec.context.Comments[a][0].Pos(), gosec.context.Comments[b][0].Pos())
+	})
+	for _, n := range nodes {
 		gosec.updateIgnoredRulesForNode(n)
 	}
 }
-- 
2.43.0


From 88ea265154356e0be26c1aa0e38e274a4cda7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 16/64] fix: register rules and analyzers in a fixed order

---
 analyzer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 83d9f5f..716fcd9 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -24,6 +24,7 @@ import (
 	"go/token"
 	"go/types"
 	"log"
+	"maps"
 	"os"
 	"path"
 	"path/filepath"
@@ -238,8 +239,8 @@ func (gosec *Analyzer) Config() Config {
 // LoadRules instantiates all the rules to be used when analyzing source
 // packages
 func (gosec *Analyzer) LoadRules(ruleDefinitions map[string]RuleBuilder, ruleSuppressed map[string]bool) {
-	for id, def := range ruleDefinitions {
-		r, nodes := def(id, gosec.config)
+	for _, id := range slices.Sorted(maps.Keys(ruleDefinitions)) {
+		r, nodes := ruleDefinitions[id](id, gosec.config)
 		gosec.ruleset.Register(r, ruleSuppressed[id], nodes...)
 	}
 }
@@ -247,7 +248,8 @@ func (gosec *Analyzer) LoadRules(ruleDefinitions map[string]RuleBuilder, ruleSup
 // LoadAnalyzers instantiates all the analyzers to be used when analyzing source
 // packages
 func (gosec *Analyzer) LoadAnalyzers(analyzerDefinitions map[string]analyzers.AnalyzerDefinition, analyzerSuppressed map[string]bool) {
-	for id, def := range analyzerDefinitions {
+	for _, id := range slices.Sorted(maps.Keys(analyzerDefinitions)) {
+		def := analyzerDefinitions[id]
 		r := def.Create(def.ID, def.Description)
 		gosec.analyzerSet.Register(r, analyzerSuppressed[id])
 	}
-- 
2.43.0


From 9cea02f2694fa863ef35314dbeece6c5d76af0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 17/64] fix: expand directories in a fixed order

---
 helpers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/helpers.go b/helpers.go
index 33e2b4a..a87edff 100644
--- a/helpers.go
+++ b/helpers.go
@@ -28,6 +28,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -466,6 +467,7 @@ func PackagePaths(root string, excludes []*regexp.Regexp) ([]string, error) {
 	for path := range paths {
 		result = append(result, path)
 	}
+	sort.Strings(result)
 	return result, nil
 }
 
-- 
2.43.0


From 4ad274ebe7399527c1f19a9b26c6435d35adea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 18/64] fix: sort errors with a consistent and stable order

---
 errors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/errors.go b/errors.go
index 2f66727..5a9de1f 100644
--- a/errors.go
+++ b/errors.go
@@ -23,9 +23,9 @@ func NewError(line, column int, err string) *Error {
 // sortErrors sorts the golang errors by line
 func sortErrors(allErrors map[string][]Error) {
 	for _, errors := range allErrors {
-		sort.Slice(errors, func(i, j int) bool {
+		sort.SliceStable(errors, func(i, j int) bool {
 			if errors[i].Line == errors[j].Line {
-				return errors[i].Column <= errors[j].Column
+				return errors[i].Column < errors[j].Column
 			}
 			return errors[i].Line < errors[j].Line
 		})
-- 
2.43.0


From 1c4fb6a80b3021b0769cc490515cebb40a95e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 19/64] fix: use at least one worker to load the packages

---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 716fcd9..eaab21c 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -301,7 +301,7 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 		jobs <- pkgPath
 	}
 
-	for i := 0; i < gosec.concurrency; i++ {
+	for i := 0; i < max(gosec.concurrency, 1); i++ {
 		wg.Add(1)
 		go worker(jobs, results, quit)
 	}
-- 
2.43.0


From 162951f1d38292a844f43fa9c5fe0ef1549e1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 20/64] fix: clear the errors when the analyzer is reset

---
 analyzer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analyzer.go b/analyzer.go
index eaab21c..29c4e34 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -762,6 +762,7 @@ func (gosec *Analyzer) Reset() {
 	gosec.context = &Context{}
 	gosec.issues = make([]*issue.Issue, 0, 16)
 	gosec.stats = &Metrics{}
+	gosec.errors = make(map[string][]Error)
 	gosec.ruleset = NewRuleSet()
 	gosec.analyzerSet = analyzers.NewAnalyzerSet()
 }
-- 
2.43.0


From 22d5014f1f0a108ea5599f5cc8fd8873903065c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 21/64] fix: apply all annotations of a node

---
 analyzer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 29c4e34..21a23e4 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -591,6 +591,8 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		noSecAlternativeTag = NoSecTag(noSecAlternativeTag)
 	}
 
+	// Find the rule IDs to ignore in all annotations of the node.
+	ignores := make(map[string]issue.SuppressionInfo)
 	for _, group := range groups {
 		found, args := findNoSecDirective(group, noSecDefaultTag, noSecAlternativeTag)
 		if !found {
@@ -616,19 +618,18 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 			Justification: justification,
 		}
 
-		// Find the rule IDs to ignore.
-		ignores := make(map[string]issue.SuppressionInfo)
 		for _, v := range matches {
-			ignores[v[1]] = suppression
+			if _, ok := ignores[v[1]]; !ok {
+				ignores[v[1]] = suppression
+			}
 		}
 
 		// If no specific rules were given, ignore everything.
-		if len(matches) == 0 {
+		if _, ok := ignores[aliasOfAllRules]; !ok && len(matches) == 0 {
 			ignores[aliasOfAllRules] = suppression
 		}
-		return ignores
 	}
-	return nil
+	return ignores
 }
 
 // findNoSecDirective checks if the comment group contains `#nosec` or `//gosec:disable` directive.
-- 
2.43.0


From 40adf2079879961777e9e8e0c5ceb70ab0dd00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 22/64] fix: match the annotation tag literally

---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 21a23e4..9b74462 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -656,7 +656,7 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
 	comment := strings.TrimSpace(group.Text())
 
-	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+tag).MatchString(comment) {
+	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+regexp.QuoteMeta(tag)).MatchString(comment) {
 		// Discard what's in front of the nosec tag.
 		return true, strings.SplitN(comment, tag, 2)[1]
 	}
-- 
2.43.0


From 7eacc2c1dbafad31ae085e93c603a90487cd4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 23/64] fix: report an AI response without content instead of
 crashing

---
 autofix/ai.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/autofix/ai.go b/autofix/ai.go
index 3535f7e..6c4c318 100644
--- a/autofix/ai.go
+++ b/autofix/ai.go
@@ -67,12 +67,14 @@ func (w *genAIGenerativeModelWrapper) GenerateContent(ctx context.Context, promp
 		return "", errors.New("no autofix returned by gemini")
 	}
 
-	if len(resp.Candidates[0].Content.Parts) == 0 {
+	// the content is missing when the response was blocked or cut short
+	content := resp.Candidates[0].Content
+	if content == nil || len(content.Parts) == 0 {
 		return "", errors.New("nothing found in the first autofix returned by gemini")
 	}
 
 	// Return the first candidate
-	return fmt.Sprintf("%+v", resp.Candidates[0].Content.Parts[0]), nil
+	return fmt.Sprintf("%+v", content.Parts[0]), nil
 }
 
 // NewGenAIClient creates a new gemini API client.
-- 
2.43.0


From 09a50110368c2f83582a35250fc0ea2da0863e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 24/64] fix: reset the TLS versions before every configuration
 is checked

---
 rules/tls.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 65a0b5a..4dca3bb 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -212,15 +212,15 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
 		actualType := c.Info.TypeOf(complit.Type)
 		if actualType != nil && actualType.String() == t.requiredType {
+			// the versions set in another construct say nothing about this one
+			t.resetVersion()
 			for _, elt := range complit.Elts {
 				issue := t.processTLSConf(elt, c)
 				if issue != nil {
 					return issue, nil
 				}
 			}
-			issue := t.checkVersion(complit, c)
-			t.resetVersion()
-			return issue, nil
+			return t.checkVersion(complit, c), nil
 		}
 	} else {
 		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
-- 
2.43.0


From 1a05d6c60e3a860e5d305df4b119dbe6029c52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 25/64] fix: track cleaned file paths by variable, not by its
 declaration

---
 rules/readfile.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/readfile.go b/rules/readfile.go
index da6b9c9..8f26562 100644
--- a/rules/readfile.go
+++ b/rules/readfile.go
@@ -61,7 +61,7 @@ func (r *readfile) isJoinFunc(n ast.Node, c *gosec.Context) bool {
 
 // isFilepathClean checks if there is a filepath.Clean for given variable
 func (r *readfile) isFilepathClean(n *ast.Ident, c *gosec.Context) bool {
-	if _, ok := r.cleanedVar[n.Obj.Decl]; ok {
+	if _, ok := r.cleanedVar[n.Obj]; ok {
 		return true
 	}
 	if n.Obj.Kind != ast.Var {
@@ -84,7 +84,7 @@ func (r *readfile) trackFilepathClean(n ast.Node) {
 			// ident.Obj may be nil if the referenced declaration is in another file. It also may be incorrect.
 			// if it is nil, do not follow it.
 			if ident.Obj != nil {
-				r.cleanedVar[ident.Obj.Decl] = n
+				r.cleanedVar[ident.Obj] = n
 			}
 		}
 	}
-- 
2.43.0


From 3334d6dddb40bf41532214aec0dad846ab29045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 26/64] fix: forget the loops of other files when checking for
 implicit aliasing

---
 rules/implicit_aliasing.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rules/implicit_aliasing.go b/rules/implicit_aliasing.go
index ee2358c..610c5d3 100644
--- a/rules/implicit_aliasing.go
+++ b/rules/implicit_aliasing.go
@@ -13,6 +13,7 @@ type implicitAliasing struct {
 	issue.MetaData
 	aliases         map[*ast.Object]struct{}
 	rightBrace      token.Pos
+	file            *ast.File
 	acceptableAlias []*ast.UnaryExpr
 }
 
@@ -53,6 +54,14 @@ func (r *implicitAliasing) Match(n ast.Node, c *gosec.Context) (*issue.Issue, er
 		return nil, nil
 	}
 
+	// The loops of another file say nothing about this one.
+	if r.file != c.Root {
+		r.file = c.Root
+		r.aliases = make(map[*ast.Object]struct{})
+		r.rightBrace = token.NoPos
+		r.acceptableAlias = make([]*ast.UnaryExpr, 0)
+	}
+
 	switch node := n.(type) {
 	case *ast.RangeStmt:
 		// When presented with a range statement, get the underlying Object bound to
-- 
2.43.0


From 341f27b644d32742bf05330bbf5436b966148f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 27/64] fix: do not count ignored issues which are not recorded

---
 analyzer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 9b74462..886db69 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -741,7 +741,8 @@ func (gosec *Analyzer) updateIssues(issue *issue.Issue) {
 		if gosec.showIgnored {
 			issue.NoSec = ignored
 		}
-		if !ignored || !gosec.showIgnored {
+		// ignored issues which are not recorded, or only shown, are not counted
+		if !ignored || !gosec.showIgnored && (gosec.trackSuppressions || gosec.ignoreNosec) {
 			gosec.stats.NumFound++
 		}
 		if ignored && gosec.trackSuppressions {
-- 
2.43.0


From 468e116b5ebeffc7e629e52dc26679c51b88d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 28/64] fix: do not count ignored issues shown because of the
 configuration file

---
 cmd/gosec/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 8ef6176..c33c7e1 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -336,7 +336,8 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 	for _, issue := range issues {
 		if issue.Severity >= severity && issue.Confidence >= confidence {
 			result = append(result, issue)
-			if (!issue.NoSec || !*flagShowIgnored) && len(issue.Suppressions) == 0 {
+			// NoSec is set for ignored issues which are shown, also if the configuration asks for them
+			if !issue.NoSec && len(issue.Suppressions) == 0 {
 				trueIssues++
 			}
 		}
-- 
2.43.0


From b5667b8ebfce4d73526cd93e9974be754d04b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 29/64] fix: set global options also without a valid global
 section

---
 config.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/config.go b/config.go
index fc355d8..3bafd08 100644
--- a/config.go
+++ b/config.go
@@ -120,11 +120,12 @@ func (c Config) GetGlobal(option GlobalOption) (string, error) {
 
 // SetGlobal associates a value with a global configuration option
 func (c Config) SetGlobal(option GlobalOption, value string) {
-	if globals, ok := c[Globals]; ok {
-		if settings, ok := globals.(map[GlobalOption]string); ok {
-			settings[option] = value
-		}
+	settings, ok := c[Globals].(map[GlobalOption]string)
+	if !ok {
+		settings = make(map[GlobalOption]string)
+		c[Globals] = settings
 	}
+	settings[option] = value
 }
 
 // IsGlobalEnabled checks if a global option is enabled
-- 
2.43.0


From abfc66208085eca218b4e1f062717d6149fca0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 30/64] fix: map rule G307 to its CWE

---
 issue/issue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/issue/issue.go b/issue/issue.go
index a869504..96150a1 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -77,6 +77,7 @@ var ruleToCWE = map[string]string{
 	"G304": "22",
 	"G305": "22",
 	"G306": "276",
+	"G307": "276",
 	"G401": "328",
 	"G402": "295",
 	"G403": "310",
-- 
2.43.0


From 422264e33cf08cc6dca315730e8f43c0b4afb3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 31/64] fix: do not report issues without a position

---
 analyzer.go       | 4 ++++
 analyzers/util.go | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 886db69..b1e451f 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -462,6 +462,10 @@ func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 		if result != nil {
 			if passIssues, ok := result.([]*issue.Issue); ok {
 				for _, iss := range passIssues {
+					if iss == nil {
+						// skip issues which cannot be located
+						continue
+					}
 					if gosec.excludeGenerated {
 						if _, ok := generatedFiles[iss.File]; ok {
 							continue
diff --git a/analyzers/util.go b/analyzers/util.go
index 57cc42b..4005b9b 100644
--- a/analyzers/util.go
+++ b/analyzers/util.go
@@ -57,14 +57,14 @@ func getSSAResult(pass *analysis.Pass) (*SSAAnalyzerResult, error) {
 	return ssaResult, nil
 }
 
-// newIssue creates a new gosec issue
+// newIssue creates a new gosec issue, or nil when the position is not in any file
 func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 	pos token.Pos, severity, confidence issue.Score,
 ) *issue.Issue {
 	file := fileSet.File(pos)
 	// This can occur when there is a compilation issue into the code.
 	if file == nil {
-		return &issue.Issue{}
+		return nil
 	}
 	line := file.Line(pos)
 	col := file.Position(pos).Column
-- 
2.43.0


From 1bddd8a6240f8fa9e514bb045361c6c8617ff9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:09 +0000
Subject: [PATCH 32/64] fix: follow each nonce parameter only once

---
 analyzers/hardcoded_nonce.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index c9c5395..0d6047a 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -63,7 +63,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 		if arg == nil {
 			continue
 		}
-		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "")
+		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "", make(map[*ssa.Parameter]bool))
 		if err != nil {
 			return issues, fmt.Errorf("raising issue error: %w", err)
 		}
@@ -73,7 +73,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 }
 
 func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
-	pass *analysis.Pass, issueDescription string,
+	pass *analysis.Pass, issueDescription string, visited map[*ssa.Parameter]bool,
 ) ([]*issue.Issue, error) {
 	if issueDescription == "" {
 		issueDescription = defaultIssueDescription
@@ -124,7 +124,9 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 		// }
 		// save parameter position, by checking the name of the variable used in
 		// tracked functions and comparing it with the name of the arg
-		if valType.Parent() != nil {
+		// a recursive function passes its parameters on to itself, so each one is followed only once
+		if valType.Parent() != nil && !visited[valType] {
+			visited[valType] = true
 			trackedFunctions := make(map[string][]int)
 			for index, funcArgs := range valType.Parent().Params {
 				if funcArgs.Name() == valType.Name() && funcArgs.Type() == valType.Type() {
@@ -139,7 +141,7 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 				if arg == nil {
 					continue
 				}
-				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription)
+				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription, visited)
 				allIssues = append(allIssues, issues...)
 			}
 		}
-- 
2.43.0


From 9373364f9ecdb847641176fdac153d867bbe396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 33/64] fix: do not follow the values of a loop around forever

---
 analyzers/conversion_overflow.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 42e1867..d57a8a5 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -211,6 +211,7 @@ func isConstantInRange(constVal *ssa.Const, dstType string) bool {
 func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
 	// Traverse the SSA instructions to find the original variable.
 	original := instr.X
+	visited := make(map[*ssa.Phi]bool)
 	for {
 		switch v := original.(type) {
 		case *ssa.Call:
@@ -238,6 +239,11 @@ func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
 			}
 			return false
 		case *ssa.Phi:
+			// the values of a loop may depend on each other
+			if visited[v] {
+				return false
+			}
+			visited[v] = true
 			original = v.Edges[0]
 		case *ssa.Extract:
 			original = v.Tuple
-- 
2.43.0


From cbb56c53dd1f69d0271775f505ed09f98dfb9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:15 +0000
Subject: [PATCH 34/64] fix: resolve variables which are initialized with each
 other

---
 resolve.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/resolve.go b/resolve.go
index a201b8d..3a40871 100644
--- a/resolve.go
+++ b/resolve.go
@@ -16,54 +16,60 @@ package gosec
 
 import "go/ast"
 
-func resolveIdent(n *ast.Ident, c *Context) bool {
+func resolveIdent(n *ast.Ident, c *Context, resolved map[*ast.Object]bool) bool {
 	if n.Obj == nil || n.Obj.Kind != ast.Var {
 		return true
 	}
+	if known, ok := resolved[n.Obj]; ok {
+		return known
+	}
 	if node, ok := n.Obj.Decl.(ast.Node); ok {
-		return TryResolve(node, c)
+		// A variable which is initialized by means of itself has no known value.
+		resolved[n.Obj] = false
+		resolved[n.Obj] = tryResolve(node, c, resolved)
+		return resolved[n.Obj]
 	}
 	return false
 }
 
-func resolveValueSpec(n *ast.ValueSpec, c *Context) bool {
+func resolveValueSpec(n *ast.ValueSpec, c *Context, resolved map[*ast.Object]bool) bool {
 	if len(n.Values) == 0 {
 		return false
 	}
 	for _, value := range n.Values {
-		if !TryResolve(value, c) {
+		if !tryResolve(value, c, resolved) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveAssign(n *ast.AssignStmt, c *Context) bool {
+func resolveAssign(n *ast.AssignStmt, c *Context, resolved map[*ast.Object]bool) bool {
 	if len(n.Rhs) == 0 {
 		return false
 	}
 	for _, arg := range n.Rhs {
-		if !TryResolve(arg, c) {
+		if !tryResolve(arg, c, resolved) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveCompLit(n *ast.CompositeLit, c *Context) bool {
+func resolveCompLit(n *ast.CompositeLit, c *Context, resolved map[*ast.Object]bool) bool {
 	if len(n.Elts) == 0 {
 		return false
 	}
 	for _, arg := range n.Elts {
-		if !TryResolve(arg, c) {
+		if !tryResolve(arg, c, resolved) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveBinExpr(n *ast.BinaryExpr, c *Context) bool {
-	return (TryResolve(n.X, c) && TryResolve(n.Y, c))
+func resolveBinExpr(n *ast.BinaryExpr, c *Context, resolved map[*ast.Object]bool) bool {
+	return (tryResolve(n.X, c, resolved) && tryResolve(n.Y, c, resolved))
 }
 
 func resolveCallExpr(_ *ast.CallExpr, _ *Context) bool {
@@ -75,21 +81,26 @@ func resolveCallExpr(_ *ast.CallExpr, _ *Context) bool {
 // all values contained within to a known constant. It is used to check for any
 // unknown values in compound expressions.
 func TryResolve(n ast.Node, c *Context) bool {
+	return tryResolve(n, c, make(map[*ast.Object]bool))
+}
+
+// tryResolve remembers the variables it has met already, and whether they could be resolved.
+func tryResolve(n ast.Node, c *Context, resolved map[*ast.Object]bool) bool {
 	switch node := n.(type) {
 	case *ast.BasicLit:
 		return true
 	case *ast.CompositeLit:
-		return resolveCompLit(node, c)
+		return resolveCompLit(node, c, resolved)
 	case *ast.Ident:
-		return resolveIdent(node, c)
+		return resolveIdent(node, c, resolved)
 	case *ast.ValueSpec:
-		return resolveValueSpec(node, c)
+		return resolveValueSpec(node, c, resolved)
 	case *ast.AssignStmt:
-		return resolveAssign(node, c)
+		return resolveAssign(node, c, resolved)
 	case *ast.CallExpr:
 		return resolveCallExpr(node, c)
 	case *ast.BinaryExpr:
-		return resolveBinExpr(node, c)
+		return resolveBinExpr(node, c, resolved)
 	}
 	return false
 }
-- 
2.43.0


From cc8e9d9a9c5326a9b236d408e50aa91d46a714a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 35/64] fix: report hardcoded nonces in the order of the code

---
 analyzers/hardcoded_nonce.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index 0d6047a..274500b 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -209,19 +209,21 @@ func isContainedInMap(value ssa.Value, mapToCheck map[string]*ssa.Value) bool {
 	return contained
 }
 
-func getArgsFromTrackedFunctions(ssaFuncs []*ssa.Function, trackedFunc map[string][]int) map[string]*ssa.Value {
+// getArgsFromTrackedFunctions returns the arguments in the order in which they are found in the code.
+func getArgsFromTrackedFunctions(ssaFuncs []*ssa.Function, trackedFunc map[string][]int) []*ssa.Value {
 	values := make(map[string]*ssa.Value)
+	args := make([]*ssa.Value, 0)
 	for _, pkgFunc := range ssaFuncs {
 		for _, funcBlock := range pkgFunc.Blocks {
 			for _, funcBlocInstr := range funcBlock.Instrs {
-				iterateTrackedFunctionsAndAddArgs(funcBlocInstr, trackedFunc, values)
+				args = iterateTrackedFunctionsAndAddArgs(funcBlocInstr, trackedFunc, values, args)
 			}
 		}
 	}
-	return values
+	return args
 }
 
-func iterateTrackedFunctionsAndAddArgs(funcBlocInstr ssa.Instruction, trackedFunc map[string][]int, values map[string]*ssa.Value) {
+func iterateTrackedFunctionsAndAddArgs(funcBlocInstr ssa.Instruction, trackedFunc map[string][]int, values map[string]*ssa.Value, args []*ssa.Value) []*ssa.Value {
 	if funcCall, ok := (funcBlocInstr).(*ssa.Call); ok {
 		for trackedFuncName, trackedFuncArgsInfo := range trackedFunc {
 			// only process functions that have the same number of arguments as the ones we track
@@ -232,14 +234,17 @@ func iterateTrackedFunctionsAndAddArgs(funcBlocInstr ssa.Instruction, trackedFun
 					if methodFullname := funcCall.Call.Method.FullName(); methodFullname == trackedFuncName {
 						if !isContainedInMap(tmpArg, values) {
 							addToVarsMap(tmpArg, values)
+							args = append(args, &tmpArg)
 						}
 					}
 				} else if funcCall.Call.Value.String() == trackedFuncName {
 					if !isContainedInMap(tmpArg, values) {
 						addToVarsMap(tmpArg, values)
+						args = append(args, &tmpArg)
 					}
 				}
 			}
 		}
 	}
+	return args
 }
-- 
2.43.0


From a1a2c8ad69e899e642865efeaa029ad1abe88292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 36/64] fix: report slice bounds violations in the order of the
 code

---
 analyzers/slice_bounds.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 968102f..39927c0 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -56,6 +56,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	}
 
 	issues := map[ssa.Instruction]*issue.Issue{}
+	order := []ssa.Instruction{}
 	ifs := map[ssa.If]*ssa.BinOp{}
 	for _, mcall := range ssaResult.SSA.SrcFuncs {
 		for _, block := range mcall.DomPreorder() {
@@ -79,6 +80,9 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 									violations := []ssa.Instruction{}
 									trackSliceBounds(0, newCap, slice, &violations, ifs)
 									for _, s := range violations {
+										if _, ok := issues[s]; !ok {
+											order = append(order, s)
+										}
 										switch s := s.(type) {
 										case *ssa.Slice:
 											issue := newIssue(
@@ -161,8 +165,10 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	}
 
 	foundIssues := []*issue.Issue{}
-	for _, issue := range issues {
-		foundIssues = append(foundIssues, issue)
+	for _, instr := range order {
+		if issue, ok := issues[instr]; ok {
+			foundIssues = append(foundIssues, issue)
+		}
 	}
 	if len(foundIssues) > 0 {
 		return foundIssues, nil
-- 
2.43.0


From 93d65829314cd87b32f419fc59e504ebb31cf30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 37/64] fix: look up import names in a fixed order

---
 helpers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index a87edff..c2ed0b3 100644
--- a/helpers.go
+++ b/helpers.go
@@ -22,12 +22,14 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
+	"maps"
 	"os"
 	"os/exec"
 	"os/user"
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -310,7 +312,8 @@ func GetImportedNames(path string, ctx *Context) (names []string, found bool) {
 // GetImportPath resolves the full import path of an identifier based on
 // the imports in the current context(including aliases).
 func GetImportPath(name string, ctx *Context) (string, bool) {
-	for path := range ctx.Imports.Imported {
+	// look at the imports in a fixed order, since the names of some of them are only guessed from their path
+	for _, path := range slices.Sorted(maps.Keys(ctx.Imports.Imported)) {
 		if imported, ok := GetImportedNames(path, ctx); ok {
 			for _, n := range imported {
 				if n == name {
-- 
2.43.0


From 637f0aa364e665eb49c899db955f8a40823b65f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:16 +0000
Subject: [PATCH 38/64] fix: accept file permissions configured as numbers

---
 rules/fileperms.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index bf2a959..410e690 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -41,6 +41,9 @@ func getConfiguredMode(conf map[string]interface{}, configKey string, defaultMod
 		switch value := value.(type) {
 		case int64:
 			mode = value
+		case float64:
+			// numbers of a JSON configuration
+			mode = int64(value)
 		case string:
 			if m, e := strconv.ParseInt(value, 0, 64); e != nil {
 				mode = defaultMode
-- 
2.43.0


From 78c7bd4b32453066eedde5e235f19bf5ed240b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 39/64] fix: judge os.ModePerm by the configured maximum

---
 rules/fileperms.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index 410e690..73e9e7a 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"os"
 	"strconv"
 
 	"github.com/securego/gosec/v2"
@@ -64,7 +65,11 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 	for _, pkg := range r.pkgs {
 		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched {
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
-			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg) {
+			mode, err := gosec.GetInt(modeArg)
+			if err != nil && isOsPerm(modeArg) {
+				mode, err = int64(os.ModePerm), nil
+			}
+			if err == nil && !modeIsSubset(mode, r.mode) {
 				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
-- 
2.43.0


From 7ae4c07e49f5cf6234c1b6b1112a6a08faf6ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:21 +0000
Subject: [PATCH 40/64] fix: compare the whole Go version when gating the loop
 variable check

---
 rules/implicit_aliasing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/implicit_aliasing.go b/rules/implicit_aliasing.go
index 610c5d3..214d041 100644
--- a/rules/implicit_aliasing.go
+++ b/rules/implicit_aliasing.go
@@ -50,7 +50,7 @@ func doGetIdentExpr(expr ast.Expr, hasSelector bool) (*ast.Ident, bool) {
 func (r *implicitAliasing) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	// This rule does not apply for Go 1.22, see https://go.dev/doc/go1.22#language.
 	major, minor, _ := gosec.GoVersion()
-	if major >= 1 && minor >= 22 {
+	if major > 1 || major == 1 && minor >= 22 {
 		return nil, nil
 	}
 
-- 
2.43.0


From 59236d2e8487c77cd9076a7c5d4229d2b89fb0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 41/64] fix: only separate the parts of a Go version at dots

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index c2ed0b3..44c7fa0 100644
--- a/helpers.go
+++ b/helpers.go
@@ -546,7 +546,7 @@ func goModVersion() (string, error) {
 // - 1.19.4
 // - 1.19
 func parseGoVersion(version string) (int, int, int) {
-	exp := regexp.MustCompile(`(\d+).(\d+)(?:.(\d+))?.*`)
+	exp := regexp.MustCompile(`(\d+)\.(\d+)(?:\.(\d+))?.*`)
 	parts := exp.FindStringSubmatch(version)
 	if len(parts) <= 1 {
 		return 0, 0, 0
-- 
2.43.0


From 66ab7a7023b19012bd3214b6bdd7860bca10f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 42/64] fix: read the module version from the standard output
 of go list only

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 44c7fa0..d326762 100644
--- a/helpers.go
+++ b/helpers.go
@@ -525,7 +525,7 @@ type goListOutput struct {
 func goModVersion() (string, error) {
 	cmd := exec.Command("go", "list", "-m", "-json")
 
-	raw, err := cmd.CombinedOutput()
+	raw, err := cmd.Output()
 	if err != nil {
 		return "", fmt.Errorf("command go list: %w: %s", err, string(raw))
 	}
-- 
2.43.0


From 43d53c7f1398294623bdf955a7bc3720acf6482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 43/64] fix: compare constants with the largest value of 64 bit
 unsigned types

---
 analyzers/conversion_overflow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index d57a8a5..60d6cde 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -205,7 +205,7 @@ func isConstantInRange(constVal *ssa.Const, dstType string) bool {
 	if dstInt.signed {
 		return value >= -(1<<(dstInt.size-1)) && value <= (1<<(dstInt.size-1))-1
 	}
-	return value >= 0 && value <= (1<<dstInt.size)-1
+	return value >= 0 && uint64(value) <= uint64(dstInt.max)
 }
 
 func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
-- 
2.43.0


From 5d0a0a9907f03a432a38cd11ceb5c6496cefaaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 44/64] fix: judge conversions of byte and rune as those of
 uint8 and int32

---
 analyzers/conversion_overflow.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 60d6cde..3083c25 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -116,6 +116,14 @@ func isIntOverflow(src string, dst string) bool {
 }
 
 func parseIntType(intType string) (integer, error) {
+	// these types are known under another name
+	switch intType {
+	case "byte":
+		intType = "uint8"
+	case "rune":
+		intType = "int32"
+	}
+
 	re := regexp.MustCompile(`^(?P<type>u?int)(?P<size>\d{1,2})?$`)
 	matches := re.FindStringSubmatch(intType)
 	if matches == nil {
-- 
2.43.0


From 6c93018ad23d5edd57d60d743f183d986f78787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:14 +0000
Subject: [PATCH 45/64] fix: judge integer conversions of uintptr

---
 analyzers/conversion_overflow.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 3083c25..2c3f386 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -116,12 +116,14 @@ func isIntOverflow(src string, dst string) bool {
 }
 
 func parseIntType(intType string) (integer, error) {
-	// these types are known under another name
+	// these types are known under another name, or are as large as another type
 	switch intType {
 	case "byte":
 		intType = "uint8"
 	case "rune":
 		intType = "int32"
+	case "uintptr":
+		intType = "uint"
 	}
 
 	re := regexp.MustCompile(`^(?P<type>u?int)(?P<size>\d{1,2})?$`)
-- 
2.43.0


From c2925bfd7c9f5da9e630218d42a34ced94df6771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:06 +0000
Subject: [PATCH 46/64] fix: report every random number function of math/rand
 in G404

Perm, Shuffle and ExpFloat64 of math/rand and math/rand/v2 and Uint of
math/rand/v2 draw from the same weak generators as the listed functions.
---
 rules/rand.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rules/rand.go b/rules/rand.go
index fe34ca9..829e1b6 100644
--- a/rules/rand.go
+++ b/rules/rand.go
@@ -44,12 +44,12 @@ func (w *weakRand) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 func NewWeakRandCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	calls := make(map[string][]string)
 	calls["math/rand"] = []string{
-		"New", "Read", "Float32", "Float64", "Int", "Int31", "Int31n",
-		"Int63", "Int63n", "Intn", "NormFloat64", "Uint32", "Uint64",
+		"New", "Read", "ExpFloat64", "Float32", "Float64", "Int", "Int31", "Int31n",
+		"Int63", "Int63n", "Intn", "NormFloat64", "Perm", "Shuffle", "Uint32", "Uint64",
 	}
 	calls["math/rand/v2"] = []string{
-		"New", "Float32", "Float64", "Int", "Int32", "Int32N",
-		"Int64", "Int64N", "IntN", "N", "NormFloat64", "Uint32", "Uint32N", "Uint64", "Uint64N", "UintN",
+		"New", "ExpFloat64", "Float32", "Float64", "Int", "Int32", "Int32N", "Int64", "Int64N", "IntN", "N",
+		"NormFloat64", "Perm", "Shuffle", "Uint", "Uint32", "Uint32N", "Uint64", "Uint64N", "UintN",
 	}
 	return &weakRand{
 		blocklist: calls,
-- 
2.43.0


From 45f42d87de354bc0144c6b2c32e01b8664da6d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:07 +0000
Subject: [PATCH 47/64] fix: judge the key size of rsa.GenerateMultiPrimeKey in
 G403

---
 rules/rsa.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rules/rsa.go b/rules/rsa.go
index 331e7fc..2b4f005 100644
--- a/rules/rsa.go
+++ b/rules/rsa.go
@@ -34,7 +34,8 @@ func (w *weakKeyStrength) ID() string {
 
 func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil {
-		if bits, err := gosec.GetInt(callExpr.Args[1]); err == nil && bits < (int64)(w.bits) {
+		// The size of the key is the last argument
+		if bits, err := gosec.GetInt(callExpr.Args[len(callExpr.Args)-1]); err == nil && bits < (int64)(w.bits) {
 			return c.NewIssue(n, w.ID(), w.What, w.Severity, w.Confidence), nil
 		}
 	}
@@ -44,7 +45,7 @@ func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 // NewWeakKeyStrength builds a rule that detects RSA keys < 2048 bits
 func NewWeakKeyStrength(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	calls := gosec.NewCallList()
-	calls.Add("crypto/rsa", "GenerateKey")
+	calls.AddAll("crypto/rsa", "GenerateKey", "GenerateMultiPrimeKey")
 	bits := 2048
 	return &weakKeyStrength{
 		calls: calls,
-- 
2.43.0


From 2519d8dbb5c5425015f890ba30f0d3263cea56f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:09 +0000
Subject: [PATCH 48/64] fix: report unsafe.Add in G103

---
 rules/unsafe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/unsafe.go b/rules/unsafe.go
index 2e2adca..acbdc17 100644
--- a/rules/unsafe.go
+++ b/rules/unsafe.go
@@ -43,7 +43,7 @@ func (r *usingUnsafe) Match(n ast.Node, c *gosec.Context) (gi *issue.Issue, err
 func NewUsingUnsafe(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	return &usingUnsafe{
 		pkg:   "unsafe",
-		calls: []string{"Pointer", "String", "StringData", "Slice", "SliceData"},
+		calls: []string{"Add", "Pointer", "String", "StringData", "Slice", "SliceData"},
 		MetaData: issue.MetaData{
 			ID:         id,
 			What:       "Use of unsafe calls should be audited",
-- 
2.43.0


From 8202d9f1f9d320ea7bfb0f97887198211f50fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:26 +0000
Subject: [PATCH 49/64] fix: report os.StartProcess in G204 like
 syscall.StartProcess

---
 rules/subproc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rules/subproc.go b/rules/subproc.go
index 1e2ceda..2e11d0b 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -112,6 +112,7 @@ func (r *subprocess) isContext(n ast.Node, ctx *gosec.Context) bool {
 // NewSubproc detects cases where we are forking out to an external process
 func NewSubproc(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	rule := &subprocess{issue.MetaData{ID: id}, gosec.NewCallList()}
+	rule.Add("os", "StartProcess")
 	rule.Add("os/exec", "Command")
 	rule.Add("os/exec", "CommandContext")
 	rule.Add("syscall", "Exec")
-- 
2.43.0


From 9df2ae8bf696dcb29f47852ff71f81ab4503063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 50/64] fix: report queries built for a database/sql.Conn in
 G201 and G202

---
 rules/sql.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rules/sql.go b/rules/sql.go
index 61222bf..42ace6c 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -32,6 +32,12 @@ type sqlStatement struct {
 }
 
 var sqlCallIdents = map[string]map[string]int{
+	"*database/sql.Conn": {
+		"ExecContext":     1,
+		"QueryContext":    1,
+		"QueryRowContext": 1,
+		"PrepareContext":  1,
+	},
 	"*database/sql.DB": {
 		"Exec":            0,
 		"ExecContext":     1,
-- 
2.43.0


From fedb880c218e9aa0d149450332a44588012d0333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 51/64] fix: recognise import paths written in back quotes

An import spec may be a raw string literal. The blocklisted imports, the
profiling endpoint and every rule which goes by the imported packages
did not see such an import.
---
 import_tracker.go  | 2 +-
 rules/blocklist.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/import_tracker.go b/import_tracker.go
index 0d9ebfe..0d2a01d 100644
--- a/import_tracker.go
+++ b/import_tracker.go
@@ -52,7 +52,7 @@ func (t *ImportTracker) TrackPackages(pkgs ...*types.Package) {
 
 // TrackImport tracks imports.
 func (t *ImportTracker) TrackImport(imported *ast.ImportSpec) {
-	importPath := strings.Trim(imported.Path.Value, `"`)
+	importPath := strings.Trim(imported.Path.Value, "\"`")
 	if imported.Name != nil {
 		if imported.Name.Name != "_" {
 			// Aliased import
diff --git a/rules/blocklist.go b/rules/blocklist.go
index a4376b1..c474b1a 100644
--- a/rules/blocklist.go
+++ b/rules/blocklist.go
@@ -29,8 +29,7 @@ type blocklistedImport struct {
 
 func unquote(original string) string {
 	cleaned := strings.TrimSpace(original)
-	cleaned = strings.TrimLeft(cleaned, `"`)
-	return strings.TrimRight(cleaned, `"`)
+	return strings.Trim(cleaned, "\"`")
 }
 
 func (r *blocklistedImport) ID() string {
-- 
2.43.0


From 81f9866d76550d376fe6de2b0027b1afb17b767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:25 +0000
Subject: [PATCH 52/64] fix: do not panic on a TLS version which is not
 declared in the package

The minimum version may be a dot-imported name, or a variable
initialised with a field of a field.
---
 rules/tls.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 4dca3bb..43bdd61 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -118,13 +118,17 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 						}
 					}
 				}
+				if obj == nil {
+					// declared outside of the package
+					return nil
+				}
 				if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
 					if s, ok := vs.Values[0].(*ast.SelectorExpr); ok {
-						x := s.X.(*ast.Ident).Name
+						x, isName := s.X.(*ast.Ident)
 						sel := s.Sel.Name
 
 						for _, imp := range c.Pkg.Imports() {
-							if imp.Name() == x {
+							if isName && imp.Name() == x.Name {
 								tObj := imp.Scope().Lookup(sel)
 								if cst, ok := tObj.(*types.Const); ok {
 									// ..got the value check if this can be translated
-- 
2.43.0


From a20e7815174b8cc48e8be040f54d7673096a1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:27 +0000
Subject: [PATCH 53/64] fix: judge a maximum TLS version of tls.VersionSSL30

It was taken for an unset maximum version.
---
 rules/tls.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rules/tls.go b/rules/tls.go
index 43bdd61..05e73e9 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -189,6 +189,8 @@ func (t *insecureConfigTLS) mapVersion(version string) int64 {
 		v = tls.VersionTLS11
 	case "VersionTLS10":
 		v = tls.VersionTLS10
+	case "VersionSSL30":
+		v = 0x0300 // tls.VersionSSL30 is deprecated
 	}
 	return v
 }
-- 
2.43.0


From 37161cc60c27ff05be6625a51b6799771554045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 54/64] fix: check TLS settings behind a pointer and in
 literals without a type

cfg.InsecureSkipVerify = true was not reported when cfg is a pointer, and
[]tls.Config{{InsecureSkipVerify: true}} never was.
---
 rules/tls.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 05e73e9..068a9e1 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -214,10 +214,17 @@ func (t *insecureConfigTLS) resetVersion() {
 	t.actualMinVersion = 0
 }
 
+// isConfig tells whether the type is the TLS configuration or a pointer to it.
+func (t *insecureConfigTLS) isConfig(typ types.Type) bool {
+	if ptr, ok := typ.(*types.Pointer); ok {
+		typ = ptr.Elem()
+	}
+	return typ != nil && typ.String() == t.requiredType
+}
+
 func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
-		actualType := c.Info.TypeOf(complit.Type)
-		if actualType != nil && actualType.String() == t.requiredType {
+	if complit, ok := n.(*ast.CompositeLit); ok {
+		if t.isConfig(c.Info.TypeOf(complit)) {
 			// the versions set in another construct say nothing about this one
 			t.resetVersion()
 			for _, elt := range complit.Elts {
@@ -231,8 +238,7 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 	} else {
 		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
 			if selector, ok := assign.Lhs[0].(*ast.SelectorExpr); ok {
-				actualType := c.Info.TypeOf(selector.X)
-				if actualType != nil && actualType.String() == t.requiredType {
+				if t.isConfig(c.Info.TypeOf(selector.X)) {
 					issue := t.processTLSConf(assign, c)
 					if issue != nil {
 						return issue, nil
-- 
2.43.0


From 3455a95e77e39413d82041d804740210b4498733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:51 +0000
Subject: [PATCH 55/64] fix: report TLS versions below the baseline which are
 assigned

cfg.MinVersion = tls.VersionTLS10 was not reported, unlike the same
version in a literal.
---
 rules/tls.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rules/tls.go b/rules/tls.go
index 068a9e1..04a5bda 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -209,6 +209,17 @@ func (t *insecureConfigTLS) checkVersion(n ast.Node, c *gosec.Context) *issue.Is
 	return nil
 }
 
+// checkAssignedVersion checks a version which is set by an assignment, where the other one is not known.
+func (t *insecureConfigTLS) checkAssignedVersion(n ast.Node, c *gosec.Context) *issue.Issue {
+	if t.actualMinVersion != 0 && t.actualMinVersion < t.MinVersion {
+		return c.NewIssue(n, t.ID(), "TLS MinVersion too low.", issue.High, issue.High)
+	}
+	if t.actualMaxVersion != 0 && t.actualMaxVersion < t.MaxVersion {
+		return c.NewIssue(n, t.ID(), "TLS MaxVersion too low.", issue.High, issue.High)
+	}
+	return nil
+}
+
 func (t *insecureConfigTLS) resetVersion() {
 	t.actualMaxVersion = 0
 	t.actualMinVersion = 0
@@ -239,10 +250,12 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
 			if selector, ok := assign.Lhs[0].(*ast.SelectorExpr); ok {
 				if t.isConfig(c.Info.TypeOf(selector.X)) {
+					t.resetVersion()
 					issue := t.processTLSConf(assign, c)
 					if issue != nil {
 						return issue, nil
 					}
+					return t.checkAssignedVersion(assign, c), nil
 				}
 			}
 		}
-- 
2.43.0


From 209d88397f3344610f799b32abd60e3317a0bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:03 +0000
Subject: [PATCH 56/64] fix: do not panic on calls without arguments

Programs with type errors are analysed as well, so that a call may have
fewer arguments than the function has parameters.
---
 rules/fileperms.go        | 2 +-
 rules/integer_overflow.go | 2 +-
 rules/rsa.go              | 2 +-
 rules/subproc.go          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index 73e9e7a..64536c1 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -63,7 +63,7 @@ func modeIsSubset(subset int64, superset int64) bool {
 // Match checks if the rule is matched.
 func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	for _, pkg := range r.pkgs {
-		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched {
+		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched && len(callexpr.Args) > 0 {
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
 			mode, err := gosec.GetInt(modeArg)
 			if err != nil && isOsPerm(modeArg) {
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index 1d57906..bf3a782 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -60,7 +60,7 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 		}
 	case *ast.CallExpr:
 		if fun, ok := n.Fun.(*ast.Ident); ok {
-			if fun.Name == "int32" || fun.Name == "int16" {
+			if (fun.Name == "int32" || fun.Name == "int16") && len(n.Args) > 0 {
 				if idt, ok := n.Args[0].(*ast.Ident); ok {
 					if _, ok := atoiVarObj[idt.Obj]; ok {
 						// Detect int32(v) and int16(v)
diff --git a/rules/rsa.go b/rules/rsa.go
index 2b4f005..0d22128 100644
--- a/rules/rsa.go
+++ b/rules/rsa.go
@@ -33,7 +33,7 @@ func (w *weakKeyStrength) ID() string {
 }
 
 func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil {
+	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil && len(callExpr.Args) > 0 {
 		// The size of the key is the last argument
 		if bits, err := gosec.GetInt(callExpr.Args[len(callExpr.Args)-1]); err == nil && bits < (int64)(w.bits) {
 			return c.NewIssue(n, w.ID(), w.What, w.Severity, w.Confidence), nil
diff --git a/rules/subproc.go b/rules/subproc.go
index 2e11d0b..80433b2 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -43,7 +43,7 @@ func (r *subprocess) ID() string {
 func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := r.ContainsPkgCallExpr(n, c, false); node != nil {
 		args := node.Args
-		if r.isContext(n, c) {
+		if r.isContext(n, c) && len(args) > 0 {
 			args = args[1:]
 		}
 		for _, arg := range args {
-- 
2.43.0


From 19bf40d43569bc75a8d23916dda5f2904aea9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:05 +0000
Subject: [PATCH 57/64] fix: do not panic on a file created in the join of
 nothing

path.Join() is valid, and joins no elements.
---
 rules/tempfiles.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index 6fef52a..29f5bab 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -50,14 +50,14 @@ func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.
 		}
 		return nil
 	}
-	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil {
+	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil && len(ce.Args) > 0 {
 		return t.findTempDirArgs(n, c, ce.Args[0])
 	}
 	return nil
 }
 
 func (t *badTempFile) Match(n ast.Node, c *gosec.Context) (gi *issue.Issue, err error) {
-	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil {
+	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil && len(node.Args) > 0 {
 		return t.findTempDirArgs(n, c, node.Args[0]), nil
 	}
 	return nil, nil
-- 
2.43.0


From 9df827e08080047c5bb501a56bfd13eb176d862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:08 +0000
Subject: [PATCH 58/64] fix: do not panic on a copy whose arguments are the
 results of a call

io.Copy(f()) has one argument expression.
---
 rules/decompression-bomb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index 7e57f1a..c1b46cd 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -69,7 +69,7 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 			}
 		}
 	case *ast.CallExpr:
-		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil {
+		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil && len(n.Args) > 1 {
 			if idt, ok := n.Args[1].(*ast.Ident); ok {
 				if _, ok := readerVarObj[idt.Obj]; ok {
 					// Detect io.Copy(x, r)
-- 
2.43.0


From 9a26382a7d0c7fe4633b4b4397db3ab8044e9cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:10 +0000
Subject: [PATCH 59/64] fix: do not panic on a formatted print whose arguments
 are the results of a call

fmt.Fprintf(f()) has one argument expression.
---
 rules/sql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/sql.go b/rules/sql.go
index 42ace6c..76d9c1a 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -295,7 +295,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 	if node := s.fmtCalls.ContainsPkgCallExpr(n, ctx, false); node != nil {
 		// if the function is fmt.Fprintf, search for SQL statement in Args[1] instead
 		if sel, ok := node.Fun.(*ast.SelectorExpr); ok {
-			if sel.Sel.Name == "Fprintf" {
+			if sel.Sel.Name == "Fprintf" && len(node.Args) > 0 {
 				// if os.Stderr or os.Stdout is in Arg[0], mark as no issue
 				if arg, ok := node.Args[0].(*ast.SelectorExpr); ok {
 					if ident, ok := arg.X.(*ast.Ident); ok {
@@ -310,7 +310,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		}
 
 		// no formatter
-		if len(node.Args) == 0 {
+		if len(node.Args) <= argIndex {
 			return nil
 		}
 
-- 
2.43.0


From 35a64545d690661b367512ad39f40c588d08d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 60/64] fix: do not panic on a negative truncate setting of the
 credentials rule

---
 rules/hardcoded_credentials.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index c10d18b..f5c601a 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -197,7 +197,7 @@ func (r *credentials) ID() string {
 }
 
 func truncate(s string, n int) string {
-	if n > len(s) {
+	if n < 0 || n > len(s) {
 		return s
 	}
 	return s[:n]
-- 
2.43.0


From 3d556215ee5d8c85d4b8dbc041208ee404839482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 61/64] fix: do not panic on a constant passed as the nonce

A constant, such as nil, does not belong to a function.
---
 analyzers/hardcoded_nonce.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index 274500b..b54b433 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -198,13 +198,22 @@ func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
 	return false, nil
 }
 
+// varKey identifies a value. A value such as a constant does not belong to a function.
+func varKey(value ssa.Value) string {
+	key := value.Name() + value.Type().String() + value.String()
+	if parent := value.Parent(); parent != nil {
+		key += parent.String()
+	}
+	return key
+}
+
 func addToVarsMap(value ssa.Value, mapToAddTo map[string]*ssa.Value) {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
+	key := varKey(value)
 	mapToAddTo[key] = &value
 }
 
 func isContainedInMap(value ssa.Value, mapToCheck map[string]*ssa.Value) bool {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
+	key := varKey(value)
 	_, contained := mapToCheck[key]
 	return contained
 }
-- 
2.43.0


From 98229025c072257a295efb2620d57bebe0a518ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:53 +0000
Subject: [PATCH 62/64] fix: do not panic on a conversion of the result of
 another ParseInt

The third argument of a function of this name may be nil.
---
 analyzers/conversion_overflow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 2c3f386..23bbd2d 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -227,7 +227,7 @@ func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
 		case *ssa.Call:
 			if v.Call.StaticCallee() != nil && (v.Call.StaticCallee().Name() == "ParseInt" || v.Call.StaticCallee().Name() == "ParseUint") {
 				if len(v.Call.Args) == 3 {
-					if bitSize, ok := v.Call.Args[2].(*ssa.Const); ok {
+					if bitSize, ok := v.Call.Args[2].(*ssa.Const); ok && bitSize.Value != nil {
 						signed := v.Call.StaticCallee().Name() == "ParseInt"
 						bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
 						if err != nil {
-- 
2.43.0


From a7d8449811606b85f0dc808eb3c4a9544a9efe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:57 +0000
Subject: [PATCH 63/64] fix: judge each variable of an assignment by its own
 value when looking for cleaned paths

---
 rules/readfile.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rules/readfile.go b/rules/readfile.go
index 8f26562..903b691 100644
--- a/rules/readfile.go
+++ b/rules/readfile.go
@@ -68,7 +68,16 @@ func (r *readfile) isFilepathClean(n *ast.Ident, c *gosec.Context) bool {
 		return false
 	}
 	if node, ok := n.Obj.Decl.(*ast.AssignStmt); ok {
-		if call, ok := node.Rhs[0].(*ast.CallExpr); ok {
+		value := node.Rhs[0]
+		if len(node.Lhs) == len(node.Rhs) {
+			// each variable is set to its own value
+			for i, lhs := range node.Lhs {
+				if ident, ok := lhs.(*ast.Ident); ok && ident.Obj == n.Obj {
+					value = node.Rhs[i]
+				}
+			}
+		}
+		if call, ok := value.(*ast.CallExpr); ok {
 			if clean := r.clean.ContainsPkgCallExpr(call, c, false); clean != nil {
 				return true
 			}
-- 
2.43.0


From 43d409d5b4b9ab9cea587afb607db7bc74f3ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:41 +0000
Subject: [PATCH 64/64] fix: do not crash on a rule configuration which is not
 an object

---
 rules/directory-traversal.go   | 3 +--
 rules/hardcoded_credentials.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 47bcb2d..5631d23 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -44,8 +44,7 @@ func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*is
 // NewDirectoryTraversal attempts to find the use of http.Dir("/")
 func NewDirectoryTraversal(id string, conf gosec.Config) (gosec.Rule, []ast.Node) {
 	pattern := `http\.Dir\("\/"\)|http\.Dir\('\/'\)`
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
 				pattern = cfgPattern
diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index f5c601a..a43fa21 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -342,8 +342,7 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 	perCharThreshold := 3.0
 	ignoreEntropy := false
 	truncateString := 16
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
 				pattern = cfgPattern
-- 
2.43.0

