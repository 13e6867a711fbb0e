package main

import (
	"flag"
	"fmt"
	"slices"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
)

func init() { commands["real"] = realMain }

// numbering gives numbers to strings, from 1.
type numbering struct {
	ids  map[string]int
	list []string
}

func (n *numbering) id(s string) int {
	if s == "" {
		return 0
	}
	k, ok := n.ids[s]
	if !ok {
		if n.ids == nil {
			n.ids = map[string]int{}
		}
		n.list = append(n.list, s)
		k = len(n.list)
		n.ids[s] = k
	}
	return k
}

// realRun has what is needed to analyse packages that were not generated.
type realRun struct {
	pkgs  []*packages.Package
	names numbering // of functions
	paths numbering // of packages
	home  map[int]int
	cl    *interesting.Classifier
	scan  bool
}

func (r *realRun) config() *analyzer.Config {
	return &analyzer.Config{Classifier: r.cl, DisableBuiltin: !r.scan}
}

func (r *realRun) funcID(n *callgraph.Node) int { return r.names.id(n.Func.String()) }

type realGraph struct {
	Cap     string
	Succ    map[int]map[int]bool
	Holders map[int]bool
	Nodes   map[*callgraph.Node]bool
	Own     map[int]int
}

func newRealGraph(c string) *realGraph {
	return &realGraph{c, map[int]map[int]bool{}, map[int]bool{}, map[*callgraph.Node]bool{}, map[int]int{}}
}

func (g *realGraph) link(a, b int) {
	if g.Succ[a] == nil {
		g.Succ[a] = map[int]bool{}
	}
	g.Succ[a][b] = true
}

// graphs returns the graph for each capability, or the graph for all of them.
func (r *realRun) graphs(each bool) []*realGraph {
	queried := analyzer.GetQueriedPackages(r.pkgs)
	var out []*realGraph
	var filter func(cpb.Capability) bool
	if each {
		filter = func(c cpb.Capability) bool {
			out = append(out, newRealGraph(capName(c)))
			return true
		}
	} else {
		out = append(out, newRealGraph("all"))
	}
	// The type of the states of the searches is not exported, so that a node
	// callback cannot be written down; every node has an edge.
	node := func(n *callgraph.Node) int {
		g := out[len(out)-1]
		k := r.funcID(n)
		if !g.Nodes[n] {
			g.Nodes[n] = true
			r.home[k] = 0
			if p := n.Func.Package(); p != nil && p.Pkg != nil {
				r.home[k] = r.paths.id(p.Pkg.Path())
				if _, ok := queried[p.Pkg]; ok {
					g.Own[k]++
				}
			}
		}
		return k
	}
	analyzer.CapabilityGraph(r.pkgs, queried, r.config(), nil,
		func(e *callgraph.Edge) {
			g := out[len(out)-1]
			g.link(node(e.Caller), node(e.Callee))
		},
		func(n *callgraph.Node, c cpb.Capability) {
			g := out[len(out)-1]
			g.Holders[node(n)] = true
		}, filter)
	return out
}

func sortedKeys[V any](m map[int]V) []int {
	out := []int{}
	for k := range m {
		out = append(out, k)
	}
	slices.Sort(out)
	return out
}

func (r *realRun) graphEvent(kind string, g *realGraph) ev {
	succ := make([][]int, len(r.names.list))
	for i := range succ {
		succ[i] = sortedKeys(g.Succ[i+1])
	}
	total := 0
	for _, n := range g.Own {
		total += n
	}
	nodes := map[int]bool{}
	for n := range g.Nodes {
		nodes[r.funcID(n)] = true
	}
	return ev{"e": kind, "cap": g.Cap, "succ": succ, "holders": sortedKeys(g.Holders), "nodes": sortedKeys(nodes),
		"own": sortedKeys(g.Own), "total": total, "twins": len(nodes) != len(g.Nodes)}
}

func (r *realRun) path(fns []*cpb.Function) (ids, pkgs []int) {
	ids, pkgs = []int{}, []int{}
	for _, f := range fns {
		ids = append(ids, r.names.id(f.GetName()))
		pkgs = append(pkgs, r.paths.id(f.GetPackage()))
	}
	return ids, pkgs
}

func (r *realRun) report(mode string, g analyzer.Granularity) ev {
	cfg := r.config()
	cfg.Granularity = g
	entries := []ev{}
	for _, ci := range analyzer.GetCapabilityInfo(r.pkgs, analyzer.GetQueriedPackages(r.pkgs), cfg).GetCapabilityInfo() {
		ids, pkgs := r.path(ci.GetPath())
		var names []string
		for _, f := range ci.GetPath() {
			names = append(names, f.GetName())
		}
		entries = append(entries, ev{"cap": capName(ci.GetCapability()), "pkg": r.paths.id(ci.GetPackageDir()), "path": ids, "ppkg": pkgs,
			"dep":  g == analyzer.GranularityIntermediate || ci.GetDepPath() == strings.Join(names, " "),
			"type": strings.TrimPrefix(ci.GetCapabilityType().String(), "CAPABILITY_TYPE_")})
	}
	return ev{"e": mode, "entries": entries}
}

func (r *realRun) counts() ev {
	entries := []ev{}
	for k, n := range analyzer.GetCapabilityCounts(r.pkgs, analyzer.GetQueriedPackages(r.pkgs), r.config()).GetCapabilityCounts() {
		entries = append(entries, ev{"cap": strings.TrimPrefix(k, "CAPABILITY_"), "n": n})
	}
	return ev{"e": "counts", "entries": entries}
}

func (r *realRun) stats() ev {
	entries := []ev{}
	for _, s := range analyzer.GetCapabilityStats(r.pkgs, analyzer.GetQueriedPackages(r.pkgs), r.config()).GetCapabilityStats() {
		ids, pkgs := r.path(s.GetExampleCallpath())
		entries = append(entries, ev{"cap": capName(s.GetCapability()), "n": s.GetCount(), "direct": s.GetDirectCount(),
			"transitive": s.GetTransitiveCount(), "path": ids, "ppkg": pkgs})
	}
	return ev{"e": "stats", "entries": entries}
}

// realScenario is a request for an analysis.
type realScenario struct {
	Targets []string `json:"targets"`
	Map     []string `json:"map"`     // lines of a capability map
	Builtin bool     `json:"builtin"` // use the built-in map, too
	Scan    bool     `json:"scan"`    // look for unsafe pointers etc.
}

// realMain analyses packages of the module in the current directory.
func realMain(args []string) error {
	fs := flag.NewFlagSet("real", flag.ExitOnError)
	in := fs.String("in", "", "scenario")
	out := fs.String("out", "", "trace")
	modes := fs.String("modes", "", "comma-separated modes to run")
	fs.Parse(args)
	scs, err := readLines[*realScenario](*in)
	if err != nil {
		return err
	}
	sc := scs[0]
	pkgs, err := analyzer.LoadPackages(sc.Targets, analyzer.LoadConfig{})
	if err != nil {
		return err
	}
	if len(pkgs) == 0 {
		return fmt.Errorf("no packages")
	}
	if n := packages.PrintErrors(pkgs); n > 0 {
		return fmt.Errorf("%d errors in packages", n)
	}
	cl, err := interesting.LoadClassifier("map", strings.NewReader(strings.Join(sc.Map, "\n")), !sc.Builtin)
	if err != nil {
		return err
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	r := &realRun{pkgs: pkgs, home: map[int]int{}, cl: cl, scan: sc.Scan}
	var graphs []*realGraph
	var all *realGraph
	var evs []ev
	problem := guarded(func() {
		graphs = r.graphs(true)
		for _, m := range strings.Split(*modes, ",") {
			switch m {
			case "all":
				all = r.graphs(false)[0]
			case "function":
				evs = append(evs, r.report(m, analyzer.GranularityFunction))
			case "package":
				evs = append(evs, r.report(m, analyzer.GranularityPackage))
			case "intermediate":
				evs = append(evs, r.report(m, analyzer.GranularityIntermediate))
			case "counts":
				evs = append(evs, r.counts())
			case "stats":
				evs = append(evs, r.stats())
			default:
				panic("unknown mode " + m)
			}
		}
	})
	home := make([]int, len(r.names.list))
	for k, p := range r.home {
		home[k-1] = p
	}
	paths := append([]string{}, r.paths.list...)
	rec.event(ev{"e": "prog", "scenario": sc, "n": len(home), "home": home, "paths": paths})
	if problem != "" {
		rec.event(ev{"e": "problem", "what": problem})
		return rec.close()
	}
	for _, g := range graphs {
		rec.event(r.graphEvent("graph", g))
	}
	if all != nil {
		rec.event(r.graphEvent("all", all))
	}
	for _, e := range evs {
		rec.event(e)
	}
	return rec.close()
}
