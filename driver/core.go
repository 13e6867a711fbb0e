package main

import (
	"errors"
	"flag"
	"fmt"
	"go/types"
	"io"
	"maps"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func init() { commands["core"] = coreMain }

// scenarioClassifier classifies functions as the abstract program says.
type scenarioClassifier struct{ r *rendered }

func capNumber(name string) cpb.Capability {
	n, ok := cpb.Capability_value["CAPABILITY_"+name]
	if !ok {
		panic("unknown capability " + name)
	}
	return cpb.Capability(n)
}

func capName(c cpb.Capability) string { return strings.TrimPrefix(c.String(), "CAPABILITY_") }

func (c scenarioClassifier) FunctionCategory(pkg string, name string) cpb.Capability {
	f := c.r.id(name)
	if f == 0 || f > c.r.p.N || c.r.paths[c.r.p.pkgOf(f)] != pkg {
		return cpb.Capability_CAPABILITY_UNSPECIFIED
	}
	return capNumber(c.r.p.Cls[f-1])
}

func (c scenarioClassifier) IncludeCall(edge *callgraph.Edge) bool {
	if edge.Caller.Func == nil || edge.Callee.Func == nil {
		return true
	}
	f, g := c.r.id(edge.Caller.Func.String()), c.r.id(edge.Callee.Func.String())
	for _, i := range c.r.p.Ign {
		if i[0] == f && i[1] == g {
			return false
		}
	}
	return true
}

// guarded runs f, which calls the code under test, and returns a description
// of a panic or hang in it.
func guarded(f func()) (problem string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				done <- fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(4 * time.Minute):
		return "hang: no result after 4 minutes"
	}
}

// setGOPATH makes root the only source of packages for the go command.
func setGOPATH(root string) {
	os.Setenv("GOPATH", root)
	os.Setenv("GO111MODULE", "off")
	os.Setenv("GOFLAGS", "")
	os.Setenv("GOWORK", "off")
	os.Setenv("GOPROXY", "off")
}

// loadGOPATH loads packages from below root.
func loadGOPATH(root string, paths []string) (map[string]*packages.Package, error) {
	setGOPATH(root)
	pkgs, err := analyzer.LoadPackages(paths, analyzer.LoadConfig{})
	if err != nil {
		return nil, err
	}
	out := map[string]*packages.Package{}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%d errors in generated packages: %s", len(errs), strings.Join(errs[:min(5, len(errs))], "; "))
	}
	for _, p := range pkgs {
		out[p.PkgPath] = p
	}
	return out, nil
}

// captureStdout returns what f writes to standard output.
func captureStdout(f func()) (string, error) {
	tmp, err := os.CreateTemp("", "stdout")
	if err != nil {
		return "", err
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	old := os.Stdout
	os.Stdout = tmp
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	if _, err := tmp.Seek(0, io.SeekStart); err != nil {
		return "", err
	}
	b, err := io.ReadAll(tmp)
	return string(b), err
}

// coreRun has what is needed to analyse one program: with the API, or with the
// command exe.
type coreRun struct {
	r    *rendered
	pkgs []*packages.Package
	rec  sink
	exe  string
	dir  string // GOPATH for exe
}

// reportConfig says what to report.
type reportConfig struct {
	output      string
	granularity analyzer.Granularity
	omit        bool
	sel         bool
	baseline    string // for output "compare"
}

var granularityFlag = map[analyzer.Granularity]string{
	analyzer.GranularityUnset:        "",
	analyzer.GranularityFunction:     "function",
	analyzer.GranularityPackage:      "package",
	analyzer.GranularityIntermediate: "intermediate",
}

// capabilityMap writes the categories and excluded calls of the program as a
// capability map.
func (c *coreRun) capabilityMap(cls []string, ign [][]int) string {
	var b strings.Builder
	for i, x := range cls {
		if x != "UNSPECIFIED" {
			fmt.Fprintf(&b, "func %s CAPABILITY_%s\n", c.r.genericName(i+1), x)
		}
	}
	seen := map[string]bool{}
	for _, e := range ign {
		ln := fmt.Sprintf("ignore_edge %s %s\n", c.r.names[e[0]], c.r.names[e[1]])
		if !seen[ln] {
			b.WriteString(ln)
		}
		seen[ln] = true
	}
	return b.String()
}

// command runs the command on the program.
func (c *coreRun) command(rc reportConfig) (result, error) {
	cm := filepath.Join(c.dir, c.r.p.ID+".cm")
	if err := os.WriteFile(cm, []byte(c.capabilityMap(c.r.p.Cls, c.r.p.Ign)), 0o666); err != nil {
		return result{}, err
	}
	var paths []string
	for _, k := range c.r.p.Query {
		paths = append(paths, c.r.paths[k])
	}
	args := []string{"-packages=" + strings.Join(paths, ","), "-capability_map=" + cm, "-disable_builtin", "-output=" + rc.output}
	if g := granularityFlag[rc.granularity]; g != "" {
		args = append(args, "-granularity="+g)
	}
	if rc.omit {
		args = append(args, "-omit_paths")
	}
	if rc.sel {
		args = append(args, "-capabilities="+c.selectionString())
	}
	if rc.baseline != "" {
		args = append(args, rc.baseline)
	}
	return run(c.dir, moduleEnv("GO111MODULE=off", "GOPATH="+c.dir), c.exe, args...)
}

// apiConfig returns the configuration for the API.
func (c *coreRun) apiConfig(rc reportConfig) *analyzer.Config {
	cfg := c.config()
	cfg.Granularity, cfg.OmitPaths = rc.granularity, rc.omit
	if rc.sel {
		cfg.CapabilitySet = c.selection()
	}
	return cfg
}

// text returns the output of one of the output modes.
func (c *coreRun) text(rc reportConfig) (string, error) {
	if c.exe == "" {
		return c.runOutput(rc.output, c.apiConfig(rc))
	}
	r, err := c.command(rc)
	if err == nil && r.status != 0 {
		err = fmt.Errorf("status %d: %s", r.status, r.stderr)
	}
	return r.stdout, err
}

// list returns a report.
func (c *coreRun) list(rc reportConfig) (*cpb.CapabilityInfoList, error) {
	if c.exe == "" {
		return analyzer.GetCapabilityInfo(c.pkgs, c.queried(), c.apiConfig(rc)), nil
	}
	rc.output = "json"
	text, err := c.text(rc)
	if err != nil {
		return nil, err
	}
	out := new(cpb.CapabilityInfoList)
	return out, protojson.Unmarshal([]byte(text), out)
}

func (c *coreRun) config() *analyzer.Config {
	return &analyzer.Config{Classifier: c.classifier(), DisableBuiltin: !c.r.p.Builtin}
}

func (c *coreRun) classifier() analyzer.Classifier {
	if !c.r.p.Map {
		return scenarioClassifier{c.r}
	}
	m := c.capabilityMap(c.r.p.Cls, c.r.p.Ign)
	cl, err := interesting.LoadClassifier("map", strings.NewReader(m), !c.r.p.Builtin)
	if err != nil {
		panic(err)
	}
	return cl
}

func (c *coreRun) queried() map[*types.Package]struct{} { return analyzer.GetQueriedPackages(c.pkgs) }

// funcs converts a path to function numbers, package numbers and sites.
func (c *coreRun) funcs(fns []*cpb.Function) (ids, pkgs []int, sites []ev) {
	ids, pkgs, sites = []int{}, []int{}, []ev{}
	for _, fn := range fns {
		ids = append(ids, c.r.id(fn.GetName()))
		pkgs = append(pkgs, c.r.pkgID(fn.GetPackage()))
		if s := fn.GetSite(); s != nil {
			sites = append(sites, ev{"file": s.GetFilename(), "line": s.GetLine(), "col": s.GetColumn()})
		} else {
			sites = append(sites, ev{"file": "", "line": 0, "col": 0})
		}
	}
	return
}

func (c *coreRun) infoEntry(ci *cpb.CapabilityInfo) ev {
	ids, pkgs, sites := c.funcs(ci.GetPath())
	dep := []int{}
	if ci.GetDepPath() != "" {
		for _, n := range splitNames(ci.GetDepPath()) {
			dep = append(dep, c.r.id(n))
		}
	}
	k := c.r.pkgID(ci.GetPackageDir())
	return ev{
		"e": "entry", "cap": capName(ci.GetCapability()),
		"pkg": k, "nameok": ci.GetPackageName() == c.r.p.pkgName(k),
		"path": ids, "ppkg": pkgs, "sites": sites, "dep": dep,
		"type": strings.TrimPrefix(ci.GetCapabilityType().String(), "CAPABILITY_TYPE_"),
	}
}

// mode runs f, which emits the events for one mode, between a start and a
// done event.
func (c *coreRun) mode(name string, f func() []ev) {
	c.rec.event(ev{"e": "mode", "mode": name})
	var evs []ev
	if problem := guarded(func() { evs = f() }); problem != "" {
		c.rec.event(ev{"e": "problem", "what": problem})
		return
	}
	for _, e := range evs {
		c.rec.event(e)
	}
	c.rec.event(ev{"e": "done"})
}

func (c *coreRun) info(granularity analyzer.Granularity, omit bool, sel bool) func() []ev {
	return func() (out []ev) {
		list, err := c.list(reportConfig{granularity: granularity, omit: omit, sel: sel})
		if err != nil {
			return []ev{{"e": "error", "what": err.Error()}}
		}
		for _, ci := range list.GetCapabilityInfo() {
			out = append(out, c.infoEntry(ci))
		}
		return out
	}
}

func (c *coreRun) selectionString() string {
	var s []string
	for _, x := range c.r.p.Sel {
		if c.r.p.Neg {
			x = "-" + x
		}
		s = append(s, x)
	}
	return strings.Join(s, ",")
}

func (c *coreRun) selection() *analyzer.CapabilitySet {
	cs, err := analyzer.NewCapabilitySet(c.selectionString())
	if err != nil {
		panic(err)
	}
	return cs
}

func (c *coreRun) counts() (out []ev) {
	m := analyzer.GetCapabilityCounts(c.pkgs, c.queried(), c.config()).GetCapabilityCounts()
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		out = append(out, ev{"e": "count", "cap": strings.TrimPrefix(k, "CAPABILITY_"), "n": m[k]})
	}
	return out
}

func (c *coreRun) stats(omit bool) func() []ev {
	return func() (out []ev) {
		cfg := c.config()
		cfg.OmitPaths = omit
		for _, s := range analyzer.GetCapabilityStats(c.pkgs, c.queried(), cfg).GetCapabilityStats() {
			ids, pkgs, sites := c.funcs(s.GetExampleCallpath())
			out = append(out, ev{
				"e": "stat", "cap": capName(s.GetCapability()), "n": s.GetCount(),
				"direct": s.GetDirectCount(), "transitive": s.GetTransitiveCount(),
				"path": ids, "ppkg": pkgs, "sites": sites,
			})
		}
		return out
	}
}

func (c *coreRun) graph(sel bool) func() []ev {
	return func() (out []ev) {
		var filter func(cpb.Capability) bool
		cfg := c.config()
		if sel {
			filter = c.selection().Has
		}
		analyzer.CapabilityGraph(c.pkgs, c.queried(), cfg, nil,
			func(edge *callgraph.Edge) {
				out = append(out, ev{"e": "call",
					"f": c.r.id(edge.Caller.Func.String()), "g": c.r.id(edge.Callee.Func.String())})
			},
			func(fn *callgraph.Node, cap cpb.Capability) {
				out = append(out, ev{"e": "capedge", "f": c.r.id(fn.Func.String()), "cap": capName(cap)})
			}, filter)
		return out
	}
}

// dotGraph runs the textual graph output and reads it as DOT.
func (c *coreRun) dotGraph() (out []ev) {
	text, err := c.text(reportConfig{output: "graph", sel: len(c.r.p.Sel) > 0})
	if err != nil {
		return []ev{{"e": "error", "what": err.Error()}}
	}
	edges, err := parseDOT(text)
	if err != nil {
		return []ev{{"e": "malformed", "what": err.Error()}}
	}
	for _, e := range edges {
		if strings.HasPrefix(e[1], "CAPABILITY_") {
			out = append(out, ev{"e": "capedge", "f": c.r.id(e[0]), "cap": strings.TrimPrefix(e[1], "CAPABILITY_")})
		} else {
			out = append(out, ev{"e": "call", "f": c.r.id(e[0]), "g": c.r.id(e[1])})
		}
	}
	if c.exe == "" {
		out = append(out, ev{"e": "names", "same": maps.Equal(pairSet(edges), c.graphNames())})
	}
	return out
}

func pairSet(edges [][2]string) map[[2]string]bool {
	m := map[[2]string]bool{}
	for _, e := range edges {
		m[e] = true
	}
	return m
}

// graphNames returns the graph with the full names of functions, which tell
// the instances of a generic function apart.
func (c *coreRun) graphNames() map[[2]string]bool {
	m := map[[2]string]bool{}
	var filter func(cpb.Capability) bool
	if len(c.r.p.Sel) > 0 {
		filter = c.selection().Has
	}
	analyzer.CapabilityGraph(c.pkgs, c.queried(), c.config(), nil,
		func(edge *callgraph.Edge) { m[[2]string{edge.Caller.Func.String(), edge.Callee.Func.String()}] = true },
		func(fn *callgraph.Node, cap cpb.Capability) { m[[2]string{fn.Func.String(), cap.String()}] = true }, filter)
	return m
}

// machine runs the machine list output.
func (c *coreRun) machine() (out []ev) {
	text, err := c.text(reportConfig{output: "m"})
	if err != nil {
		return []ev{{"e": "error", "what": err.Error()}}
	}
	for _, ln := range strings.Split(strings.TrimSpace(text), "\n") {
		if ln != "" {
			out = append(out, ev{"e": "name", "cap": strings.TrimPrefix(ln, "CAPABILITY_")})
		}
	}
	return out
}

var (
	countLine = regexp.MustCompile(`^CAPABILITY_(\w+): (\d+) references$`)
	statLine  = regexp.MustCompile(`^CAPABILITY_(\w+): (\d+) references \((\d+) direct, (\d+) transitive\)$`)
	stepLine  = regexp.MustCompile(`^  (?:([^:]*):(\d+):(\d+):)?(.*)$`)
)

func num(s string) int { n, _ := strconv.Atoi(s); return n }

// counted reads the default text output.
func (c *coreRun) counted() (out []ev) {
	text, err := c.text(reportConfig{output: ""})
	if err != nil {
		return []ev{{"e": "error", "what": err.Error()}}
	}
	for _, ln := range strings.Split(text, "\n") {
		if m := countLine.FindStringSubmatch(ln); m != nil {
			out = append(out, ev{"e": "count", "cap": m[1], "n": num(m[2])})
		}
	}
	return out
}

// verbose reads the verbose text output.
func (c *coreRun) verbose(omit bool) func() []ev {
	return func() (out []ev) {
		text, err := c.text(reportConfig{output: "v", omit: omit})
		if err != nil {
			return []ev{{"e": "error", "what": err.Error()}}
		}
		var path []*cpb.Function
		flush := func() {
			if n := len(out); n > 0 {
				ids, _, sites := c.funcs(path)
				out[n-1]["path"], out[n-1]["sites"] = ids, sites
			}
			path = nil
		}
		for _, ln := range strings.Split(text, "\n") {
			if m := statLine.FindStringSubmatch(ln); m != nil {
				flush()
				out = append(out, ev{"e": "stat", "cap": m[1], "n": num(m[2]), "direct": num(m[3]), "transitive": num(m[4])})
			} else if m := stepLine.FindStringSubmatch(ln); m != nil && len(out) > 0 {
				fn := &cpb.Function{Name: proto.String(m[4])}
				if m[2] != "" {
					fn.Site = &cpb.Function_Site{Filename: proto.String(m[1]), Line: proto.Int64(int64(num(m[2]))), Column: proto.Int64(int64(num(m[3])))}
				}
				path = append(path, fn)
			}
		}
		flush()
		return out
	}
}

// runOutput returns the output of one of the textual output modes.
func (c *coreRun) runOutput(output string, cfg *analyzer.Config) (string, error) {
	var err error
	text, err2 := captureStdout(func() {
		err = analyzer.RunCapslock(nil, output, c.pkgs, c.queried(), cfg)
	})
	return text, errors.Join(err, err2)
}

func coreMain(args []string) error {
	fs := flag.NewFlagSet("core", flag.ExitOnError)
	in := fs.String("in", "", "scenarios")
	out := fs.String("out", "", "trace")
	dir := fs.String("dir", "", "scratch directory")
	modes := fs.String("modes", "function", "comma-separated modes to run")
	exe := fs.String("capslock", "", "run this command instead of using the API")
	fs.Parse(args)
	progs, err := readLines[*Prog](*in)
	if err != nil {
		return err
	}
	src := filepath.Join(*dir, "src")
	var paths []string
	var rs []*rendered
	for i, p := range progs {
		p.ID = fmt.Sprintf("s%d", i)
		r, err := p.render(src)
		if err != nil {
			return err
		}
		rs = append(rs, r)
		for _, k := range p.Query {
			paths = append(paths, r.paths[k])
		}
	}
	var loaded map[string]*packages.Package
	if *exe == "" {
		if loaded, err = loadGOPATH(*dir, paths); err != nil {
			return err
		}
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	if *exe != "" {
		all := make([]events, len(progs))
		if err := inParallel(len(progs), 6, func(i int) error {
			c := &coreRun{r: rs[i], rec: &all[i], exe: *exe, dir: *dir}
			c.emitProg()
			for _, m := range strings.Split(*modes, ",") {
				c.runMode(m)
			}
			return nil
		}); err != nil {
			return err
		}
		for _, es := range all {
			for _, e := range es {
				rec.event(e)
			}
		}
		return rec.close()
	}
	for i, p := range progs {
		c := &coreRun{r: rs[i], rec: rec, dir: *dir}
		for _, k := range p.Query {
			c.pkgs = append(c.pkgs, loaded[rs[i].paths[k]])
		}
		c.emitProg()
		for _, m := range strings.Split(*modes, ",") {
			c.runMode(m)
		}
	}
	return rec.close()
}

func (c *coreRun) emitProg() {
	p := c.r.p
	sites := c.r.sites
	if sites == nil {
		sites = []Site{}
	}
	c.rec.event(ev{"e": "prog", "p": p, "sites": sites})
}

func (c *coreRun) runMode(m string) {
	switch m {
	case "function":
		c.mode(m, c.info(analyzer.GranularityUnset, false, false))
	case "functionomit":
		c.mode(m, c.info(analyzer.GranularityFunction, true, false))
	case "package":
		c.mode(m, c.info(analyzer.GranularityPackage, false, false))
	case "packageomit":
		c.mode(m, c.info(analyzer.GranularityPackage, true, false))
	case "intermediate":
		c.mode(m, c.info(analyzer.GranularityIntermediate, false, true))
	case "intermediateomit":
		c.mode(m, c.info(analyzer.GranularityIntermediate, true, true))
	case "counts":
		c.mode(m, c.counts)
	case "stats":
		c.mode(m, c.stats(false))
	case "statsomit":
		c.mode(m, c.stats(true))
	case "graph":
		c.mode(m, c.graph(false))
	case "graphsel":
		c.mode(m, c.graph(true))
	case "dot":
		c.mode(m, c.dotGraph)
	case "machine":
		c.mode(m, c.machine)
	case "text":
		c.mode(m, c.counted)
	case "verbose":
		c.mode(m, c.verbose(false))
	case "verboseomit":
		c.mode(m, c.verbose(true))
	case "compare":
		c.mode(m, c.compare)
	default:
		panic("unknown mode " + m)
	}
}

// parseDOT reads the subset of DOT that consists of edges between quoted
// identifiers, one or more per line.
func parseDOT(s string) ([][2]string, error) {
	pos := 0
	space := func() {
		for pos < len(s) && strings.ContainsRune(" \t\r\n;", rune(s[pos])) {
			pos++
		}
	}
	want := func(tok string) error {
		space()
		if !strings.HasPrefix(s[pos:], tok) {
			return fmt.Errorf("offset %d: want %q, have %q", pos, tok, s[pos:min(len(s), pos+40)])
		}
		pos += len(tok)
		return nil
	}
	str := func() (string, error) {
		if err := want(`"`); err != nil {
			return "", err
		}
		var b strings.Builder
		for pos < len(s) {
			switch c := s[pos]; {
			case c == '"':
				pos++
				return b.String(), nil
			case c == '\\' && pos+1 < len(s) && (s[pos+1] == '"' || s[pos+1] == '\\'):
				b.WriteByte(s[pos+1])
				pos += 2
			default:
				b.WriteByte(c)
				pos++
			}
		}
		return "", fmt.Errorf("unterminated string")
	}
	if err := want("digraph"); err != nil {
		return nil, err
	}
	if err := want("{"); err != nil {
		return nil, err
	}
	var out [][2]string
	for {
		space()
		if strings.HasPrefix(s[pos:], "}") {
			pos++
			space()
			if pos != len(s) {
				return nil, fmt.Errorf("trailing text %q", s[pos:])
			}
			return out, nil
		}
		a, err := str()
		if err != nil {
			return nil, err
		}
		if err := want("->"); err != nil {
			return nil, err
		}
		b, err := str()
		if err != nil {
			return nil, err
		}
		out = append(out, [2]string{a, b})
	}
}
