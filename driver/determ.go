package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/packages"
	"google.golang.org/protobuf/encoding/protojson"
)

func init() { commands["determ"] = determMain }

// determStep is one analysis of a program.
type determStep struct {
	Proc   int    `json:"proc"`
	Load   int    `json:"load"`
	Order  string `json:"order"`
	Query  string `json:"query"`
	Output string `json:"output"`
	Gran   string `json:"gran"`
	Omit   bool   `json:"omit"`
	Sel    bool   `json:"sel"`
}

type determScenario struct {
	Source string          `json:"source"`
	Prog   json.RawMessage `json:"prog"`
	Plan   []determStep    `json:"plan"`

	paths []string // of the packages that can be analysed
	cls   analyzer.Classifier
	off   bool // capabilities from the source are off
}

type twinBlock struct {
	Pkg  int    `json:"pkg"`
	Fun  int    `json:"fun"`
	Emb  int    `json:"emb"`
	Ints int    `json:"ints"`
	Use  string `json:"use"`
}

const twinPkgs = 4 // besides the first

// writeTwins writes a program in which several functions have the same name, or
// functions have several names.  There are local types of the same name in the
// first package, and aliases for the same type in the others.
func writeTwins(src, path string, blocks []twinBlock) error {
	files := map[string]string{}
	for k := 1; k <= twinPkgs; k++ {
		var b strings.Builder
		fmt.Fprintf(&b, "package x%d\n\nimport %q\n\ntype A1 = m.E1\ntype A2 = m.E2\n", k, path)
		for i, t := range blocks {
			if t.Pkg == k {
				typ := fmt.Sprintf("A%d", t.Emb)
				use := map[string]string{
					"instance": "m.G(T(0))", "iface": "var i m.I = T(0); i.M()", "mexpr": "h := T.M; h(0)", "mvalue": "h := T(0).M; h()",
					"closure": "m.GC(T(0))", "ptr": "m.G(new(T))", "nested": "m.GM(map[string]*[2]T{})", "slice": "m.GS(T(0), T(0))",
					"gtype": "m.Box[T]{}.Run()", "func": "m.GF(func(T) {})",
					"ivalue": "var i m.I = T(0); m.Hook(i.M)", "hook": "m.Hook(T(0).M)", "iexpr": "m.HookI(m.I.M); var i m.I = T(0); i.M()",
				}[t.Use]
				fmt.Fprintf(&b, "\nfunc F%d_%d() { %s }\n", i, t.Fun, strings.ReplaceAll(use, "T", typ))
			}
		}
		b.WriteString("\nvar _ m.I\n")
		files[fmt.Sprintf("x%d/x.go", k)] = b.String()
	}
	var b strings.Builder
	b.WriteString(`package m

type I interface{ M() }
type E1 int

func (E1) M() { Leaf1() }

type E2 int

func (E2) M() { Leaf2() }
func Leaf1()  {}
func Leaf2()  {}

func G[T I](x T)         { x.M() }
func GC[T I](x T)        { func() { x.M() }() }
func GS[T I](x ...T)     { for _, y := range x { y.M() } }
func GF[T I](f func(T))  { var x T; f(x); x.M() }
func GM[T I](x map[string]*[2]T) { for _, y := range x { y[1].M() } }

func Hook(f func())    { f() }
func HookI(f func(I))  { f(nil) }

type Box[T I] struct{ x T }

func (b Box[T]) Run() { b.x.M() }
`)
	for f := 1; f <= 3; f++ {
		fmt.Fprintf(&b, "\nfunc F%d() {\n", f)
		for _, k := range blocks {
			if k.Fun != f || k.Pkg > 0 {
				continue
			}
			use := map[string]string{
				"instance": "G(T{})", "iface": "var i I = T{}; i.M()", "mexpr": "h := T.M; h(T{})", "mvalue": "h := T{}.M; h()",
				"closure": "GC(T{})", "ptr": "G(&T{})", "nested": "GM(map[string]*[2]T{})", "slice": "GS(T{}, T{})",
				"gtype": "Box[T]{}.Run()", "func": "GF(func(T) {})",
				"ivalue": "var i I = T{}; Hook(i.M)", "hook": "Hook(T{}.M)", "iexpr": "HookI(I.M); var i I = T{}; i.M()",
			}[k.Use]
			fmt.Fprintf(&b, "\t{\n\t\ttype T struct { a [%d]int; E%d }\n\t\t%s\n\t}\n", k.Ints, k.Emb, use)
		}
		b.WriteString("}\n")
	}
	files["m.go"] = b.String()
	return writeFiles(filepath.Join(src, filepath.FromSlash(path)), files)
}

// prepare writes the program.
func (s *determScenario) prepare(src, id string) error {
	switch s.Source {
	case "twins":
		var blocks []twinBlock
		if err := json.Unmarshal(s.Prog, &blocks); err != nil {
			return err
		}
		path := "ex.test/" + id + "/m"
		s.paths = []string{path}
		for k := 1; k <= twinPkgs; k++ {
			s.paths = append(s.paths, fmt.Sprintf("%s/x%d", path, k))
		}
		s.cls = scanClassifier{map[string]cpb.Capability{
			path + ".Leaf1": cpb.Capability_CAPABILITY_FILES, path + ".Leaf2": cpb.Capability_CAPABILITY_FILES}}
		return writeTwins(src, path, blocks)
	case "prog":
		p := new(Prog)
		if err := json.Unmarshal(s.Prog, p); err != nil {
			return err
		}
		p.ID = id
		r, err := p.render(src)
		if err != nil {
			return err
		}
		for _, k := range p.Query {
			s.paths = append(s.paths, r.paths[k])
		}
		s.cls, s.off = scenarioClassifier{r}, !p.Builtin
		return nil
	case "flow":
		p := new(flowProg)
		if err := json.Unmarshal(s.Prog, p); err != nil {
			return err
		}
		if err := p.write(src, id); err != nil {
			return err
		}
		s.paths = []string{p.path + "/m", p.path + "/l"}
		cls := scanClassifier{map[string]cpb.Capability{}}
		for name, n := range p.ids {
			if c := p.Funs[n-1].Cap; c != "" {
				cls.cls[name] = capNumber(c)
			}
		}
		s.cls = cls
		return nil
	case "helpers":
		p := new(helperProg)
		if err := json.Unmarshal(s.Prog, p); err != nil {
			return err
		}
		if err := p.write(src, id); err != nil {
			return err
		}
		s.paths = []string{p.path}
		cls := scanClassifier{map[string]cpb.Capability{}}
		for name, c := range p.leaves {
			cls.cls[name] = capNumber(c)
		}
		s.cls = cls
		return nil
	case "scan":
		p := new(scanProg)
		if err := json.Unmarshal(s.Prog, p); err != nil {
			return err
		}
		if err := p.write(src, id); err != nil {
			return err
		}
		s.paths = p.paths[1:]
		cls := scanClassifier{map[string]cpb.Capability{}}
		for name, j := range p.ids {
			if j <= len(p.Decls) && p.Decls[j-1].Cls != "UNSPECIFIED" {
				cls.cls[name] = capNumber(p.Decls[j-1].Cls)
			}
		}
		s.cls, s.off = cls, !p.Builtin
		return nil
	}
	return fmt.Errorf("unknown source %q", s.Source)
}

// reorder returns the paths in another order.
func reorder(paths []string, order string) []string {
	paths = slices.Clone(paths)
	switch order {
	case "reverse":
		slices.Reverse(paths)
	case "rotate":
		k := len(paths) / 2
		paths = append(paths[k:len(paths):len(paths)], paths[:k]...)
	}
	return paths
}

// ranks numbers strings in their order.
func ranks(names []string) map[string]int {
	names = slices.Compact(slices.Sorted(slices.Values(names)))
	out := map[string]int{}
	for i, n := range names {
		out[n] = i
	}
	return out
}

// entries returns what is needed to judge the order of a report.
func determEntries(list *cpb.CapabilityInfoList) []ev {
	var pkgs, funs []string
	name := func(ci *cpb.CapabilityInfo) string {
		if len(ci.Path) == 0 {
			return ""
		}
		return ci.Path[0].GetName()
	}
	for _, ci := range list.CapabilityInfo {
		pkgs = append(pkgs, ci.GetPackageDir())
		funs = append(funs, name(ci))
	}
	pr, fr := ranks(pkgs), ranks(funs)
	out := []ev{}
	for _, ci := range list.CapabilityInfo {
		n := name(ci)
		out = append(out, ev{"cap": int(ci.GetCapability()), "pkg": pr[ci.GetPackageDir()], "fun": fr[n], "meth": strings.HasPrefix(n, "(") && !strings.Contains(n, "$")})
	}
	return out
}

func (s *determScenario) analyse(st determStep, loaded map[string]*packages.Package, baseline string) (string, []ev, error) {
	paths := s.paths
	switch st.Query {
	case "first":
		paths = paths[:1]
	case "last":
		paths = paths[len(paths)-1:]
	}
	var pkgs []*packages.Package
	for _, p := range reorder(paths, st.Order) {
		pkgs = append(pkgs, loaded[p])
	}
	cfg := &analyzer.Config{Classifier: s.cls, DisableBuiltin: s.off, OmitPaths: st.Omit}
	var err error
	if st.Gran != "" {
		if cfg.Granularity, err = analyzer.GranularityFromString(st.Gran); err != nil {
			return "", nil, err
		}
	}
	if st.Sel {
		if cfg.CapabilitySet, err = analyzer.NewCapabilitySet("-FILES,-REFLECT"); err != nil {
			return "", nil, err
		}
	}
	var args []string
	if st.Output == "compare" {
		args = []string{baseline}
	}
	var text string
	if problem := guarded(func() {
		text, err = captureStdout(func() {
			if err := analyzer.RunCapslock(args, st.Output, pkgs, analyzer.GetQueriedPackages(pkgs), cfg); err != nil && !errors.As(err, new(analyzer.DifferenceFoundError)) {
				panic(err)
			}
		})
	}); problem != "" {
		return "", nil, fmt.Errorf("analysis failed: %s", problem)
	}
	if err != nil {
		return "", nil, err
	}
	entries := []ev{}
	if st.Output == "json" {
		list := new(cpb.CapabilityInfoList)
		if err := protojson.Unmarshal([]byte(text), list); err != nil {
			return "", nil, err
		}
		entries = determEntries(list)
		if st.Gran == "package" || st.Gran == "intermediate" {
			for _, e := range entries { // one entry for each package
				e["fun"], e["meth"] = 0, false
			}
		}
	}
	return text, entries, nil
}

func determMain(args []string) error {
	fl := flag.NewFlagSet("determ", flag.ExitOnError)
	in := fl.String("in", "", "scenarios")
	out := fl.String("out", "", "trace")
	dir := fl.String("dir", "", "scratch directory")
	proc := fl.Int("proc", 1, "run the steps of this process")
	loads := fl.Int("loads", 2, "how often to load the packages")
	keep := fl.String("keep", "", "directory for outputs")
	fl.Parse(args)
	scs, err := readLines[determScenario](*in)
	if err != nil {
		return err
	}
	var paths []string
	for i := range scs {
		if err := scs[i].prepare(filepath.Join(*dir, "src"), fmt.Sprintf("s%d", i)); err != nil {
			return err
		}
		paths = append(paths, scs[i].paths...)
	}
	baseline := filepath.Join(*dir, "baseline.json")
	if err := os.WriteFile(baseline, []byte("{}"), 0o666); err != nil {
		return err
	}
	loaded := make([]map[string]*packages.Package, *loads+1)
	for k := 1; k <= *loads; k++ {
		if loaded[k], err = loadGOPATH(*dir, reorder(paths, []string{"plain", "reverse", "rotate"}[(k+*proc)%3])); err != nil {
			return err
		}
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	for i := range scs {
		for k, st := range scs[i].Plan {
			if st.Proc != *proc {
				continue
			}
			text, entries, err := scs[i].analyse(st, loaded[st.Load], baseline)
			if err != nil {
				return err
			}
			sum := fmt.Sprintf("%x", sha256.Sum256([]byte(text)))
			rec.event(ev{"e": "out", "prog": i, "n": k, "step": st, "digest": sum[:16], "entries": entries, "size": len(text)})
			if *keep != "" {
				if err := os.WriteFile(filepath.Join(*keep, fmt.Sprintf("s%d-%d.txt", i, k)), []byte(text), 0o666); err != nil {
					return err
				}
			}
		}
	}
	return rec.close()
}
