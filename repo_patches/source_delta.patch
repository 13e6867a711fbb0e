From 28eececa315e349c250ace4f2f7dd7722265f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:15 +0000
Subject: [PATCH 01/23] fix: analyze methods of generic types and unused
 methods of unexported types

Such methods were left out of the set of functions to analyze, so their
capabilities were never reported for the package that declares them.
---
 analyzer/util.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 836da8f..b7d499e 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -205,10 +205,45 @@ func buildGraph(pkgs []*packages.Package, populateSyntax bool) (*callgraph.Graph
 	ssaProg, _ := ssautil.AllPackages(pkgs, ssaBuilderMode)
 	ssaProg.Build()
 	allFunctions := ssautil.AllFunctions(ssaProg)
+	addDeclaredMethods(allFunctions, ssaProg, pkgs)
 	graph := vta.CallGraph(allFunctions, nil)
 	return graph, ssaProg, allFunctions
 }
 
+// addDeclaredMethods adds to fns the methods declared in pkgs, and the functions
+// they refer to.  ssautil.AllFunctions leaves out methods of generic types, and
+// methods of unexported types that are not used within the program, but these
+// are part of the package and may be called by its users.
+func addDeclaredMethods(fns map[*ssa.Function]bool, prog *ssa.Program, pkgs []*packages.Package) {
+	var add func(fn *ssa.Function)
+	add = func(fn *ssa.Function) {
+		if fn == nil || fns[fn] {
+			return
+		}
+		fns[fn] = true
+		var buf [10]*ssa.Value
+		for _, b := range fn.Blocks {
+			for _, instr := range b.Instrs {
+				for _, op := range instr.Operands(buf[:0]) {
+					if f, ok := (*op).(*ssa.Function); ok {
+						add(f)
+					}
+				}
+			}
+		}
+	}
+	for _, pkg := range pkgs {
+		scope := pkg.Types.Scope()
+		for _, name := range scope.Names() {
+			if named, ok := scope.Lookup(name).Type().(*types.Named); ok {
+				for i := 0; i < named.NumMethods(); i++ {
+					add(prog.FuncValue(named.Method(i)))
+				}
+			}
+		}
+	}
+}
+
 // functionsToRewrite lists the functions and methods like (*sync.Once).Do that
 // rewriteCallsToOnceDoEtc will rewrite to calls to their arguments.
 var functionsToRewrite = []matcher{
-- 
2.43.0


From c729b08f4255d0f2cc755501ce2ab5320354d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:33 +0000
Subject: [PATCH 02/23] fix: honor ignore_edge entries of the classifier in use

IncludeCall looked up ignored edges in the builtin capability map only.
Entries of a user-supplied map had no effect, and the builtin ones still
applied when the builtin map was disabled.
---
 interesting/interesting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 19770be..5be9707 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -183,7 +183,7 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 func (c *Classifier) IncludeCall(edge *callgraph.Edge) bool {
 	caller := edge.Caller.Func.String()
 	callee := edge.Callee.Func.String()
-	_, ok := internalMap.ignoredEdges[[2]string{caller, callee}]
+	_, ok := c.ignoredEdges[[2]string{caller, callee}]
 	return !ok
 }
 
-- 
2.43.0


From 83f482c0df1c2121ec87447d76d46ed20a2a00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:33 +0000
Subject: [PATCH 03/23] fix: report errors encountered while reading a
 capability map

A read error or an overlong line ended the scan early, and the rest of the
map was silently dropped.
---
 interesting/interesting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 5be9707..00437bb 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -115,6 +115,9 @@ func parseCapabilityMap(source string, r io.Reader) (*Classifier, error) {
 			return nil, fmt.Errorf("%v:%v: unsupported keyword %q", source, line, args[0])
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("%v:%v: %w", source, line+1, err)
+	}
 	return ret, nil
 }
 
-- 
2.43.0


From d00570f48e083b83436b6cc03b11e32cd4cc7ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:57 +0000
Subject: [PATCH 04/23] fix: keep calls made by other arguments of rewritten
 calls

A call such as sort.Slice(f(), less) was replaced with a call to less, and
the call to f was lost from the call graph.
---
 analyzer/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index b7d499e..38e6764 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -318,6 +318,14 @@ func (m *packageFunctionMatcher) match(typeInfo *types.Info, call *ast.CallExpr)
 		// The function call doesn't have enough arguments.
 		return nil
 	}
+	for i, arg := range call.Args {
+		if i != m.functionTypedParameterIndex && mayHaveSideEffects(arg) {
+			// The call may be something like sort.Slice(foo(), bar), which we can't
+			// rewrite to a call to bar because then the analysis would not see the
+			// call to foo.
+			return nil
+		}
+	}
 	return call.Args[m.functionTypedParameterIndex]
 }
 
-- 
2.43.0


From dd9b8c733d34da7c78fb9159b076d615fe1fb500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:57 +0000
Subject: [PATCH 05/23] fix: compare intermediate packages when call paths are
 omitted

Packages were taken from the call paths only, so comparing at intermediate
granularity with -omit_paths never found a difference.
---
 analyzer/compare.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analyzer/compare.go b/analyzer/compare.go
index 2cc3c9e..dfbaab3 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -87,6 +87,10 @@ func populateMap(cil *cpb.CapabilityInfoList, g Granularity) capabilitiesMap {
 				m[mk] = ci
 			}
 		case GranularityIntermediate:
+			// The path is missing if it was omitted from the output.
+			if mk.key = ci.GetPackageDir(); mk.key != "" {
+				m[mk] = ci
+			}
 			for _, f := range ci.Path {
 				mk.key = f.GetPackage()
 				if mk.key != "" {
-- 
2.43.0


From a3c5961cabe7569fb2aa512095be319e7f4d1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:57 +0000
Subject: [PATCH 06/23] fix: escape backslashes in graph output

Function names that include struct tags can contain backslashes.  A backslash
before a quote ended the quoted DOT string early.
---
 analyzer/graph.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/analyzer/graph.go b/analyzer/graph.go
index e3de0da..f810f0c 100644
--- a/analyzer/graph.go
+++ b/analyzer/graph.go
@@ -102,6 +102,9 @@ func graphOutput(pkgs []*packages.Package, queriedPackages map[*types.Package]st
 	return w.Flush()
 }
 
+// dotEscaper escapes the characters that are special in a quoted DOT string.
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 type graphBuilder struct {
 	io.Writer
 	nodeNamer func(any) string
@@ -123,9 +126,9 @@ func (gb *graphBuilder) Edge(from, to interface{}) {
 	}
 	gb.Write([]byte("\t"))
 	gb.Write([]byte(`"`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(from), `"`, `\"`)))
+	gb.Write([]byte(dotEscaper.Replace(gb.nodeNamer(from))))
 	gb.Write([]byte(`" -> "`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(to), `"`, `\"`)))
+	gb.Write([]byte(dotEscaper.Replace(gb.nodeNamer(to))))
 	gb.Write([]byte("\"\n"))
 }
 
-- 
2.43.0


From ba688217aaaf2da45918a6524363046d1fc7fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:30 +0000
Subject: [PATCH 07/23] fix: make the order of graph output deterministic

Capabilities were visited in map order, so the order of edges in the graph
output varied between runs.
---
 analyzer/analyzer.go | 8 ++++----
 analyzer/util.go     | 7 +++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 6e24058..567056b 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -359,8 +359,8 @@ func searchForwardsFromQueriedFunctions(
 			outputNode(bfsFromQueries, v, bfsFromCapabilities)
 		}
 		if outputCapability != nil {
-			for c, nodes := range nodesByCapability {
-				if _, ok := nodes[v]; ok {
+			for _, c := range nodesByCapability.sortedCapabilities() {
+				if _, ok := nodesByCapability[c][v]; ok {
 					outputCapability(v, c)
 				}
 			}
@@ -468,9 +468,9 @@ func CapabilityGraph(pkgs []*packages.Package,
 	}
 	if filter != nil {
 		// Consider each capability individually.
-		for c, ns := range nodesByCapability {
+		for _, c := range nodesByCapability.sortedCapabilities() {
 			if filter(c) {
-				search(nodesetPerCapability{c: ns})
+				search(nodesetPerCapability{c: nodesByCapability[c]})
 			}
 		}
 	} else {
diff --git a/analyzer/util.go b/analyzer/util.go
index 38e6764..af2f316 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -10,8 +10,10 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
+	"maps"
 	"os"
 	"path"
+	"slices"
 	"strings"
 
 	cpb "github.com/google/capslock/proto"
@@ -53,6 +55,11 @@ func (nc nodesetPerCapability) add(cap cpb.Capability, node *callgraph.Node) {
 	m[node] = struct{}{}
 }
 
+// sortedCapabilities returns the capabilities in nc in increasing order.
+func (nc nodesetPerCapability) sortedCapabilities() []cpb.Capability {
+	return slices.Sorted(maps.Keys(nc))
+}
+
 // byFunction is a slice of *callgraph.Node that can be sorted using sort.Sort.
 // The ordering is first by package name, then function name.
 type byFunction []*callgraph.Node
-- 
2.43.0


From 69b505061c41c4eecf4592411133d53799e39227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:04 +0000
Subject: [PATCH 08/23] fix: include module and package information at
 intermediate granularity

The report listed the modules and packages that were analyzed at package and
function granularity only.
---
 analyzer/analyzer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 567056b..6d37e40 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -868,5 +868,9 @@ func intermediatePackages(pkgs []*packages.Package, queriedPackages map[*types.P
 		}
 		return strings.Compare(a.GetPackageDir(), b.GetPackageDir())
 	})
-	return &cpb.CapabilityInfoList{CapabilityInfo: cis}
+	return &cpb.CapabilityInfoList{
+		CapabilityInfo: cis,
+		ModuleInfo:     collectModuleInfo(pkgs),
+		PackageInfo:    collectPackageInfo(pkgs),
+	}
 }
-- 
2.43.0


From 99c79b6517e2c5b31a7916b66321812ce9c0f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:05 +0000
Subject: [PATCH 09/23] fix: remove temporary clones made by capslock-git-diff

Each analyzed revision left a clone of the repository in the temporary
directory.
---
 cmd/capslock-git-diff/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index d2189e4..5333398 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -92,6 +92,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	if err != nil {
 		return nil, fmt.Errorf("creating temporary directory: %w", err)
 	}
+	defer os.RemoveAll(tmpdir)
 	// Get the location of the .git directory, so we can make a temporary clone.
 	var b bytes.Buffer
 	if err = run(&b, "git", "rev-parse", "--git-dir"); err != nil {
-- 
2.43.0


From 05fe3623221dd7d111c02e561d01bf9e429f6dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:05 +0000
Subject: [PATCH 10/23] fix: resolve revisions in the user's repository in
 capslock-git-diff

Revision names were resolved in a temporary clone.  There, remote-tracking
branches of the user's repository do not exist, and names such as
"origin/main" refer to the user's local branches instead.
---
 cmd/capslock-git-diff/main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 5333398..e1ecc58 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -108,6 +108,14 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	prefix := strings.TrimSuffix(b.String(), "\n")
 	vlog("current path in repository: %q", prefix)
 	b.Reset()
+	// Find the commit.  We do this before making the clone, because names like
+	// "origin/main" have a different meaning there.
+	if err = run(&b, "git", "rev-parse", "--verify", rev+"^{commit}"); err != nil {
+		return nil, err
+	}
+	commit := strings.TrimSuffix(b.String(), "\n")
+	vlog("commit: %q", commit)
+	b.Reset()
 	// Clone the repo.
 	if err = run(nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
 		return nil, err
@@ -130,7 +138,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	}
 	vlog("switched to directory %q", tmpdir)
 	// Checkout the revision.
-	if err = run(nil, "git", "checkout", rev, "--"); err != nil {
+	if err = run(nil, "git", "checkout", commit, "--"); err != nil {
 		return nil, err
 	}
 	// Go to the same directory in the clone.
-- 
2.43.0


From 7e192ae65c83d0983311a58cb4b805ac9425ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:09 +0000
Subject: [PATCH 11/23] fix: ignore git's environment in the clones of
 capslock-git-diff

When the tool is run by git, for example from a hook, GIT_DIR and similar
variables refer to the user's repository.  The checkout in the temporary
clone then moved the HEAD of the user's repository, and the analysis saw
other files than those of the revision.
---
 cmd/capslock-git-diff/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index e1ecc58..07d5764 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -116,6 +116,14 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	commit := strings.TrimSuffix(b.String(), "\n")
 	vlog("commit: %q", commit)
 	b.Reset()
+	// If git ran us, for example from a hook, its environment variables refer to
+	// the user's repository.  They must not apply to the clone.
+	for _, name := range []string{"GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_OBJECT_DIRECTORY", "GIT_COMMON_DIR", "GIT_PREFIX"} {
+		if value, ok := os.LookupEnv(name); ok {
+			os.Unsetenv(name)
+			defer os.Setenv(name, value)
+		}
+	}
 	// Clone the repo.
 	if err = run(nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
 		return nil, err
-- 
2.43.0


From 4d99cf45b3a3de84e772d9a38f3ce9246f32bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:13 +0000
Subject: [PATCH 12/23] fix: resolve revision names as given in
 capslock-git-diff

With ^{commit} appended, git takes main@{1}~2 for a date in the log of main
if that commit does not exist, and resolves it to some other commit.
---
 cmd/capslock-git-diff/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 07d5764..c77e085 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -110,7 +110,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	b.Reset()
 	// Find the commit.  We do this before making the clone, because names like
 	// "origin/main" have a different meaning there.
-	if err = run(&b, "git", "rev-parse", "--verify", rev+"^{commit}"); err != nil {
+	if err = run(&b, "git", "rev-parse", "--verify", rev); err != nil {
 		return nil, err
 	}
 	commit := strings.TrimSuffix(b.String(), "\n")
-- 
2.43.0


From 3c9d2abc0ec75ec1edaaac216c4f0409d91a7e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:29 +0000
Subject: [PATCH 13/23] fix: report errors writing the output

In the json, machine and compare modes the program ignored errors writing to
the standard output, and exited as if the report had been written.
---
 analyzer/compare.go | 34 +++++++++++++++++++---------------
 analyzer/scan.go    |  8 +++++---
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/analyzer/compare.go b/analyzer/compare.go
index dfbaab3..077cf5c 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -7,8 +7,10 @@
 package analyzer
 
 import (
+	"bufio"
 	"fmt"
 	"go/types"
+	"io"
 	"os"
 	"sort"
 	"text/tabwriter"
@@ -57,7 +59,9 @@ func compare(baselineFilename string, pkgs []*packages.Package, queriedPackages
 		return false, fmt.Errorf("Comparison file should include output from running `%s -output=j`. Error from parsing comparison file: %v", programName(), err.Error())
 	}
 	cil := GetCapabilityInfo(pkgs, queriedPackages, config)
-	return diffCapabilityInfoLists(baseline, cil, config.Granularity), nil
+	w := bufio.NewWriter(os.Stdout)
+	different = diffCapabilityInfoLists(w, baseline, cil, config.Granularity)
+	return different, w.Flush()
 }
 
 type mapKey struct {
@@ -102,7 +106,7 @@ func populateMap(cil *cpb.CapabilityInfoList, g Granularity) capabilitiesMap {
 	return m
 }
 
-func diffCapabilityInfoLists(baseline, current *cpb.CapabilityInfoList, g Granularity) (different bool) {
+func diffCapabilityInfoLists(w io.Writer, baseline, current *cpb.CapabilityInfoList, g Granularity) (different bool) {
 	baselineMap := populateMap(baseline, g)
 	currentMap := populateMap(current, g)
 	var keys []mapKey
@@ -125,34 +129,34 @@ func diffCapabilityInfoLists(baseline, current *cpb.CapabilityInfoList, g Granul
 		ciCurrent, inCurrent := currentMap[key]
 		if !inBaseline && inCurrent {
 			if different {
-				fmt.Println()
+				fmt.Fprintln(w)
 			}
 			different = true
-			fmt.Printf("Package %s has new capability %s compared to the baseline.\n",
+			fmt.Fprintf(w, "Package %s has new capability %s compared to the baseline.\n",
 				key.key, key.capability)
-			printCallPath(ciCurrent.Path)
+			printCallPath(w, ciCurrent.Path)
 		}
 		if inBaseline && !inCurrent {
 			if different {
-				fmt.Println()
+				fmt.Fprintln(w)
 			}
 			different = true
-			fmt.Printf("Package %s no longer has capability %s which was in the baseline.\n",
+			fmt.Fprintf(w, "Package %s no longer has capability %s which was in the baseline.\n",
 				key.key, key.capability)
-			printCallPath(ciBaseline.Path)
+			printCallPath(w, ciBaseline.Path)
 		}
 	}
 	return different
 }
 
-func printCallPath(fns []*cpb.Function) {
+func printCallPath(w io.Writer, fns []*cpb.Function) {
 	tw := tabwriter.NewWriter(
-		os.Stdout, // output
-		10,        // minwidth
-		8,         // tabwidth
-		2,         // padding
-		' ',       // padchar
-		0)         // flags
+		w,   // output
+		10,  // minwidth
+		8,   // tabwidth
+		2,   // padding
+		' ', // padchar
+		0)   // flags
 	for _, f := range fns {
 		if f.Site != nil {
 			fmt.Fprint(tw, f.Site.GetFilename(), ":", f.Site.GetLine(), ":", f.Site.GetColumn())
diff --git a/analyzer/scan.go b/analyzer/scan.go
index d603b75..2147e13 100644
--- a/analyzer/scan.go
+++ b/analyzer/scan.go
@@ -57,8 +57,8 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		if err != nil {
 			return fmt.Errorf("internal error: couldn't marshal protocol buffer: %s", err.Error())
 		}
-		fmt.Println(string(b))
-		return nil
+		_, err = fmt.Println(string(b))
+		return err
 	} else if output == "m" || output == "machine" {
 		var cs []string
 		cil := GetCapabilityCounts(pkgs, queriedPackages, config)
@@ -67,7 +67,9 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		}
 		sort.Strings(cs)
 		for _, c := range cs {
-			fmt.Println(c)
+			if _, err := fmt.Println(c); err != nil {
+				return err
+			}
 		}
 		return nil
 	} else if output == "v" || output == "verbose" {
-- 
2.43.0


From 41bdf7d6574be4e7679858b745aa37f39382a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:29 +0000
Subject: [PATCH 14/23] fix: create the memory profile before the analysis

If the file could not be created, the program printed a report and then
exited with an error.
---
 cmd/capslock/capslock.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cmd/capslock/capslock.go b/cmd/capslock/capslock.go
index 5de09d4..659b39b 100644
--- a/cmd/capslock/capslock.go
+++ b/cmd/capslock/capslock.go
@@ -73,6 +73,14 @@ func run() error {
 		}
 		defer pprof.StopCPUProfile()
 	}
+	var memprofileFile *os.File
+	if *memprofile != "" {
+		f, err := os.Create(*memprofile)
+		if err != nil {
+			return fmt.Errorf("could not create memory profile file: %w", err)
+		}
+		memprofileFile = f
+	}
 
 	packageNames := strings.Split(*packageList, ",")
 	g, err := analyzer.GranularityFromString(*granularity)
@@ -179,11 +187,7 @@ func run() error {
 		OmitPaths:      *omitPaths,
 	})
 
-	if *memprofile != "" {
-		f, err := os.Create(*memprofile)
-		if err != nil {
-			return fmt.Errorf("could not create memory profile file: %w", err)
-		}
+	if f := memprofileFile; f != nil {
 		runtime.GC()
 		if err := pprof.WriteHeapProfile(f); err != nil {
 			return fmt.Errorf("could not write memory profile: %w", err)
-- 
2.43.0


From 94c1f4b0e14acc8260164ea8a4e29994edb801e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:44 +0000
Subject: [PATCH 15/23] fix: leave standard library packages of other systems
 out of the package list

With -goos=windows, packages such as internal/syscall/windows were listed,
because the standard library was listed for the host's operating system.
---
 analyzer/load.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/analyzer/load.go b/analyzer/load.go
index 5f30575..07d500d 100644
--- a/analyzer/load.go
+++ b/analyzer/load.go
@@ -10,7 +10,9 @@ import (
 	"go/types"
 	"os"
 	"path"
+	"path/filepath"
 	"sort"
+	"strings"
 	"sync"
 
 	cpb "github.com/google/capslock/proto"
@@ -21,6 +23,7 @@ import (
 var (
 	standardLibraryPackagesOnce sync.Once
 	standardLibraryPackagesMap  map[string]struct{}
+	standardLibraryDir          string
 )
 
 // LoadConfig specifies the build tags, GOOS value, and GOARCH value to use
@@ -85,11 +88,25 @@ func standardLibraryPackages() map[string]struct{} {
 		standardLibraryPackagesMap = make(map[string]struct{})
 		for _, p := range pkgs {
 			standardLibraryPackagesMap[p.PkgPath] = struct{}{}
+			if p.PkgPath == "unsafe" && len(p.GoFiles) > 0 {
+				standardLibraryDir = filepath.Dir(filepath.Dir(p.GoFiles[0]))
+			}
 		}
 	})
 	return standardLibraryPackagesMap
 }
 
+// inStandardLibrary returns whether pkg is part of the Go standard library.
+// Some of its packages exist only for a GOOS or GOARCH other than the one for
+// which we listed them, so we also look at where pkg was loaded from.
+func inStandardLibrary(pkg *packages.Package) bool {
+	if _, ok := standardLibraryPackages()[pkg.PkgPath]; ok {
+		return true
+	}
+	return pkg.Module == nil && standardLibraryDir != "" && len(pkg.GoFiles) > 0 &&
+		strings.HasPrefix(pkg.GoFiles[0], standardLibraryDir+string(filepath.Separator))
+}
+
 func collectModuleInfo(pkgs []*packages.Package) []*cpb.ModuleInfo {
 	pathToModule := make(map[string]*cpb.ModuleInfo)
 	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
@@ -123,9 +140,8 @@ func collectModuleInfo(pkgs []*packages.Package) []*cpb.ModuleInfo {
 
 func collectPackageInfo(pkgs []*packages.Package) []*cpb.PackageInfo {
 	var out []*cpb.PackageInfo
-	std := standardLibraryPackages()
 	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
-		if _, ok := std[pkg.PkgPath]; ok {
+		if inStandardLibrary(pkg) {
 			// Skip this package since it is part of the Go standard library.
 			return
 		}
-- 
2.43.0


From c6a25938f2e3384442684dba6db7231ba9de584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:09 +0000
Subject: [PATCH 16/23] fix: do not look for relative package patterns in a
 temporary module

A pattern such as ./... given together with a package that cannot be
loaded was resolved in the directory of the temporary module, so the
packages that were asked for were silently left out of the report.
---
 cmd/capslock/capslock.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cmd/capslock/capslock.go b/cmd/capslock/capslock.go
index 659b39b..71f9836 100644
--- a/cmd/capslock/capslock.go
+++ b/cmd/capslock/capslock.go
@@ -17,6 +17,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"go/build"
 	"log"
 	"os"
 	"os/exec"
@@ -118,7 +119,7 @@ func run() error {
 		GOARCH:    *goarch,
 	}
 	pkgs, listFailed, failedPackage, err := loadPackages(packageNames, loadConfig)
-	if (listFailed || len(pkgs) == 0) && !*forceLocalModule {
+	if (listFailed || len(pkgs) == 0) && !*forceLocalModule && !anyLocalPatterns(packageNames) {
 		// Either:
 		// - `go list` returned an error for one of the packages, perhaps because
 		//   it is not a dependency of the current workspace; or
@@ -129,7 +130,8 @@ func run() error {
 		// each package.
 		//
 		// -force_local_module disables this behavior, and returns an error
-		// instead.
+		// instead.  So does a pattern like "./...", which would match something
+		// else in the temporary module's directory.
 		if listFailed {
 			fmt.Fprintf(os.Stderr, "Couldn't load package %q in the current module.", failedPackage)
 		} else {
@@ -216,6 +218,17 @@ func loadPackages(packageNames []string, loadConfig analyzer.LoadConfig) (pkgs [
 	return pkgs, false, "", err
 }
 
+// anyLocalPatterns returns true if any of the package patterns is relative to
+// the current directory.
+func anyLocalPatterns(packageNames []string) bool {
+	for _, p := range packageNames {
+		if build.IsLocalImport(p) {
+			return true
+		}
+	}
+	return false
+}
+
 // makeTemporaryModule switches to a new temporary directory, creates a module
 // there, and adds the specified packages to that module with `go get`.
 //
-- 
2.43.0


From aacf9eb10c5f23d03240e38941aa683407c8811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:43 +0000
Subject: [PATCH 17/23] fix: find conversions of unsafe pointers whose type is
 a type parameter

A conversion of a value whose type parameter is constrained to
unsafe.Pointer was not reported.  A conversion to a type parameter
constrained to uintptr was reported although it is an integer.
---
 analyzer/util.go | 53 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index af2f316..abd9f10 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -496,6 +496,55 @@ func containsReflectValue(t types.Type) bool {
 	return rec(t)
 }
 
+// mayHaveKind returns true if the underlying type of t is the given basic type,
+// or if t is a type parameter that can be instantiated with such a type.
+func mayHaveKind(t types.Type, kind types.BasicKind) bool {
+	return slices.ContainsFunc(underlyingTypes(t), func(u types.Type) bool {
+		b, ok := u.(*types.Basic)
+		return ok && b.Kind() == kind
+	})
+}
+
+// mayHaveKindOtherThan returns true if the underlying type of t is not the
+// given basic type, or if t is a type parameter that can be instantiated with
+// such a type.
+func mayHaveKindOtherThan(t types.Type, kind types.BasicKind) bool {
+	us := underlyingTypes(t)
+	return len(us) == 0 || slices.ContainsFunc(us, func(u types.Type) bool {
+		b, ok := u.(*types.Basic)
+		return !ok || b.Kind() != kind
+	})
+}
+
+// underlyingTypes returns the underlying type of t.  If t is a type parameter,
+// it returns the underlying types of the types in its constraint instead.
+func underlyingTypes(t types.Type) []types.Type {
+	tp, ok := types.Unalias(t).(*types.TypeParam)
+	if !ok {
+		return []types.Type{t.Underlying()}
+	}
+	var us []types.Type
+	var add func(t types.Type)
+	add = func(t types.Type) {
+		switch t := types.Unalias(t).(type) {
+		case *types.Union:
+			for i := 0; i < t.Len(); i++ {
+				add(t.Term(i).Type())
+			}
+		default:
+			if iface, ok := t.Underlying().(*types.Interface); ok {
+				for i := 0; i < iface.NumEmbeddeds(); i++ {
+					add(iface.EmbeddedType(i))
+				}
+			} else {
+				us = append(us, t.Underlying())
+			}
+		}
+	}
+	add(tp.Constraint())
+	return us
+}
+
 func (v *visitor) Visit(node ast.Node) ast.Visitor {
 	if node == nil {
 		return v // the return value is ignored if node == nil.
@@ -520,7 +569,7 @@ func (v *visitor) Visit(node ast.Node) ast.Visitor {
 			// The callee is not a type; it's probably a function or method.
 			break
 		}
-		if b, ok := funType.Type.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
+		if !mayHaveKindOtherThan(funType.Type, types.Uintptr) {
 			// The conversion is to a uintptr, not a pointer.  On its own, this is
 			// safe.
 			break
@@ -535,7 +584,7 @@ func (v *visitor) Visit(node ast.Node) ast.Visitor {
 			// The argument has no type information.
 			break
 		}
-		if b, ok := argType.Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
+		if !mayHaveKind(argType, types.UnsafePointer) {
 			// The argument's type is not equivalent to unsafe.Pointer.
 			break
 		}
-- 
2.43.0


From 94ac8d2f3c1e982fc4a9e6cdf00f324b1a97ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:31 +0000
Subject: [PATCH 18/23] fix: order functions with the same name by the types
 they were created for

Types declared in different functions can have the same name, so wrappers
and generic instances for them can too.  Their order varied between runs,
and with it the choice of call paths.
---
 analyzer/util.go | 74 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 72 insertions(+), 2 deletions(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index abd9f10..97de319 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -107,7 +107,8 @@ func nodeCompare(a, b *callgraph.Node) int {
 }
 
 // funcCompare orders by package path, then by whether the function is a
-// method, then by name.  Returns {-1, 0, +1} in the manner of strings.Compare.
+// method, then by name, then by the positions of the types it was created for.
+// Returns {-1, 0, +1} in the manner of strings.Compare.
 func funcCompare(a, b *ssa.Function) int {
 	// Put nils last.
 	if a == nil && b == nil {
@@ -129,7 +130,76 @@ func funcCompare(a, b *ssa.Function) int {
 	} else if ar && !br {
 		return +1
 	}
-	return strings.Compare(a.String(), b.String())
+	if c := strings.Compare(a.String(), b.String()); c != 0 || a == b {
+		return c
+	}
+	// Wrappers and instances for types that are declared inside functions can
+	// have the same name.
+	return slices.CompareFunc(typePositions(a), typePositions(b), func(p, q token.Position) int {
+		if positionLess(p, q) {
+			return -1
+		} else if positionLess(q, p) {
+			return +1
+		}
+		return 0
+	})
+}
+
+// typePositions returns the positions of the declarations of the named types
+// in the signature, receiver and type arguments of fn, and of the functions it
+// is nested in.
+func typePositions(fn *ssa.Function) []token.Position {
+	var positions []token.Position
+	seen := make(map[types.Type]struct{})
+	var visit func(types.Type)
+	visitTuple := func(t *types.Tuple) {
+		for i := 0; i < t.Len(); i++ {
+			visit(t.At(i).Type())
+		}
+	}
+	visit = func(t types.Type) {
+		t = types.Unalias(t)
+		if _, ok := seen[t]; ok {
+			return
+		}
+		seen[t] = struct{}{}
+		switch t := t.(type) {
+		case *types.Named:
+			positions = append(positions, fn.Prog.Fset.Position(t.Obj().Pos()))
+			for i := 0; i < t.TypeArgs().Len(); i++ {
+				visit(t.TypeArgs().At(i))
+			}
+		case *types.Struct:
+			for i := 0; i < t.NumFields(); i++ {
+				visit(t.Field(i).Type())
+			}
+		case *types.Signature:
+			visitTuple(t.Params())
+			visitTuple(t.Results())
+		case *types.Interface:
+			for i := 0; i < t.NumMethods(); i++ {
+				visit(t.Method(i).Type())
+			}
+		case *types.Map:
+			visit(t.Key())
+			visit(t.Elem())
+		case interface{ Elem() types.Type }: // pointer, slice, array or channel
+			visit(t.Elem())
+		}
+	}
+	for f := fn; f != nil; f = f.Parent() {
+		for _, t := range f.TypeArgs() {
+			visit(t)
+		}
+		if recv := f.Signature.Recv(); recv != nil {
+			visit(recv.Type())
+		}
+		for _, v := range f.FreeVars {
+			visit(v.Type())
+		}
+		visit(f.Signature)
+	}
+	return positions
 }
 
 // positionLess implements an ordering on token.Position.
-- 
2.43.0


From f995748ce7c8d908cd9ecb86048dad462ad25ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:24 +0000
Subject: [PATCH 19/23] fix: order wrappers of the same method value by where
 they are called

---
 analyzer/util.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index 97de319..062f012 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -7,6 +7,7 @@
 package analyzer
 
 import (
+	"cmp"
 	"go/ast"
 	"go/token"
 	"go/types"
@@ -102,8 +103,41 @@ func (s byCallee) Swap(i, j int) {
 	s[i], s[j] = s[j], s[i]
 }
 
+// nodeCompare orders by function, then by the calls of the function.
+// Returns {-1, 0, +1} in the manner of strings.Compare.
 func nodeCompare(a, b *callgraph.Node) int {
-	return funcCompare(a.Func, b.Func)
+	if a == b {
+		return 0
+	}
+	if c := funcCompare(a.Func, b.Func); c != 0 {
+		return c
+	}
+	// Each method value expression, like x.M, has its own wrapper function, and
+	// those for the same method can only be told apart by where they are used.
+	if c := slices.CompareFunc(sortedCalls(a), sortedCalls(b), callCompare); c != 0 {
+		return c
+	}
+	// It makes no difference which one is first.
+	return cmp.Compare(a.ID, b.ID)
+}
+
+// sortedCalls returns the incoming edges of v, ordered by callCompare.
+func sortedCalls(v *callgraph.Node) []*callgraph.Edge {
+	return slices.SortedFunc(slices.Values(v.In), callCompare)
+}
+
+// callCompare orders by callsite position, then by calling function.
+// Returns {-1, 0, +1} in the manner of strings.Compare.
+func callCompare(a, b *callgraph.Edge) int {
+	if a.Pos() != b.Pos() {
+		p, q := callsitePosition(a), callsitePosition(b)
+		if positionLess(p, q) {
+			return -1
+		} else if positionLess(q, p) {
+			return +1
+		}
+	}
+	return funcCompare(a.Caller.Func, b.Caller.Func)
 }
 
 // funcCompare orders by package path, then by whether the function is a
@@ -111,7 +145,7 @@ func nodeCompare(a, b *callgraph.Node) int {
 // Returns {-1, 0, +1} in the manner of strings.Compare.
 func funcCompare(a, b *ssa.Function) int {
 	// Put nils last.
-	if a == nil && b == nil {
+	if a == b {
 		return 0
 	} else if b == nil {
 		return -1
@@ -130,7 +164,7 @@ func funcCompare(a, b *ssa.Function) int {
 	} else if ar && !br {
 		return +1
 	}
-	if c := strings.Compare(a.String(), b.String()); c != 0 || a == b {
+	if c := strings.Compare(a.String(), b.String()); c != 0 {
 		return c
 	}
 	// Wrappers and instances for types that are declared inside functions can
-- 
2.43.0


From b1e76901ec7859ddc35f594c027857c6fdc1d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:10 +0000
Subject: [PATCH 20/23] fix: build packages in a fixed order so that names of
 instances do not vary

---
 analyzer/util.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index 062f012..a1744a1 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -314,7 +314,16 @@ func buildGraph(pkgs []*packages.Package, populateSyntax bool) (*callgraph.Graph
 		ssaBuilderMode |= ssa.GlobalDebug
 	}
 	ssaProg, _ := ssautil.AllPackages(pkgs, ssaBuilderMode)
-	ssaProg.Build()
+	// Build the packages in a fixed order rather than using ssaProg.Build.  If
+	// packages use different aliases for the type arguments of an instance, its
+	// name depends on which of them is built first.
+	ssaPkgs := ssaProg.AllPackages()
+	slices.SortFunc(ssaPkgs, func(a, b *ssa.Package) int {
+		return strings.Compare(a.Pkg.Path(), b.Pkg.Path())
+	})
+	for _, p := range ssaPkgs {
+		p.Build()
+	}
 	allFunctions := ssautil.AllFunctions(ssaProg)
 	addDeclaredMethods(allFunctions, ssaProg, pkgs)
 	graph := vta.CallGraph(allFunctions, nil)
-- 
2.43.0


From dfc5a5ce4fcf4533816c50a711d2c56cc3f5735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:07 +0000
Subject: [PATCH 21/23] fix: order wrappers of interface method values by what
 they call

---
 analyzer/util.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index a1744a1..4aa5db2 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -103,7 +103,7 @@ func (s byCallee) Swap(i, j int) {
 	s[i], s[j] = s[j], s[i]
 }
 
-// nodeCompare orders by function, then by the calls of the function.
+// nodeCompare orders by function, then by the calls to and from the function.
 // Returns {-1, 0, +1} in the manner of strings.Compare.
 func nodeCompare(a, b *callgraph.Node) int {
 	if a == b {
@@ -113,17 +113,24 @@ func nodeCompare(a, b *callgraph.Node) int {
 		return c
 	}
 	// Each method value expression, like x.M, has its own wrapper function, and
-	// those for the same method can only be told apart by where they are used.
-	if c := slices.CompareFunc(sortedCalls(a), sortedCalls(b), callCompare); c != 0 {
+	// those for the same method can only be told apart by where they are called,
+	// and if it is an interface method also by what they call.
+	if c := compareEdges(a.In, b.In, callCompare); c != 0 {
+		return c
+	}
+	if c := compareEdges(a.Out, b.Out, calleeCompare); c != 0 {
 		return c
 	}
 	// It makes no difference which one is first.
 	return cmp.Compare(a.ID, b.ID)
 }
 
-// sortedCalls returns the incoming edges of v, ordered by callCompare.
-func sortedCalls(v *callgraph.Node) []*callgraph.Edge {
-	return slices.SortedFunc(slices.Values(v.In), callCompare)
+// compareEdges compares two sets of edges using the ordering compare.
+// Returns {-1, 0, +1} in the manner of strings.Compare.
+func compareEdges(a, b []*callgraph.Edge, compare func(x, y *callgraph.Edge) int) int {
+	a = slices.SortedFunc(slices.Values(a), compare)
+	b = slices.SortedFunc(slices.Values(b), compare)
+	return slices.CompareFunc(a, b, compare)
 }
 
 // callCompare orders by callsite position, then by calling function.
@@ -140,6 +147,12 @@ func callCompare(a, b *callgraph.Edge) int {
 	return funcCompare(a.Caller.Func, b.Caller.Func)
 }
 
+// calleeCompare orders by called function.
+// Returns {-1, 0, +1} in the manner of strings.Compare.
+func calleeCompare(a, b *callgraph.Edge) int {
+	return funcCompare(a.Callee.Func, b.Callee.Func)
+}
+
 // funcCompare orders by package path, then by whether the function is a
 // method, then by name, then by the positions of the types it was created for.
 // Returns {-1, 0, +1} in the manner of strings.Compare.
-- 
2.43.0


From 870a6f6d781752c5bd5d4ac07501860d535b3a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:45 +0000
Subject: [PATCH 22/23] fix: count vendored packages of the standard library as
 standard

The standard library has copies of some golang.org/x packages, with paths like
vendor/golang.org/x/net/http/httpguts.  Paths that went through one of them
were labelled transitive, because the path contains a dot.
---
 analyzer/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 4aa5db2..a52587a 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -309,6 +309,10 @@ func callsitePosition(edge *callgraph.Edge) token.Position {
 }
 
 func isStdLib(p string) bool {
+	if strings.HasPrefix(p, "vendor/") {
+		// A copy of another package that is part of the standard library.
+		return true
+	}
 	if strings.Contains(p, ".") {
 		return false
 	}
-- 
2.43.0


From 86bd2aa6986c5d344b96f129fd47886dc42bd562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:02:45 +0000
Subject: [PATCH 23/23] fix: list the commits of revisions that are also names
 of files

If a branch or tag has the same name as a file or directory, git log refuses
to guess which one is meant, and the list of commits between the revisions
was empty.  Say that they are revisions.
---
 cmd/capslock-git-diff/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index c77e085..792c6a3 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -458,7 +458,7 @@ func printCallPath(fns []*cpb.Function) {
 
 func listCommits(revisions [2]string) {
 	var b bytes.Buffer
-	run(&b, "git", "log", "--no-decorate", "--oneline", "^"+revisions[0], revisions[1])
+	run(&b, "git", "log", "--no-decorate", "--oneline", "^"+revisions[0], revisions[1], "--")
 	lines := strings.Split(b.String(), "\n")
 	if len(lines) <= 120 {
 		os.Stdout.Write(b.Bytes())
-- 
2.43.0

