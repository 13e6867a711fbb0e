package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/google/capslock/interesting"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	commands["classifier"] = classifierMain
	commands["mapcommand"] = mapCommandMain
}

type universe struct {
	Funcs []struct{ Name, Pkg string } `json:"funcs"`
	Edges [][2]string                  `json:"edges"`
}

type mapLine struct {
	Lead  string   `json:"lead"`
	Sep   string   `json:"sep"`
	Trail string   `json:"trail"`
	Words []string `json:"words"`
}

type classifierOp struct {
	Op      string    `json:"op"`
	Lines   []mapLine `json:"lines"`
	Text    string    `json:"text"`
	Exclude bool      `json:"exclude"`
	Reader  string    `json:"reader"`
	At      int       `json:"at"`
	Pad     int       `json:"pad"`
	Long    int       `json:"long"`
	Fill    int       `json:"fill"`
	Of      int       `json:"of"`
	Map     bool      `json:"map"`
	Disable bool      `json:"disable"`
	Noisy   bool      `json:"noisy"`
}

type classifierScenario struct {
	Ops []classifierOp `json:"ops"`
}

// splitFuncName splits names like pkg.F, pkg.F$1, (pkg.T).M and (*pkg.T).M.
func splitFuncName(name string) (pkg, typ, fn string, ptr bool) {
	if strings.HasPrefix(name, "(") {
		i := strings.LastIndex(name, ").")
		recv := name[1:i]
		fn = name[i+2:]
		if recv[0] == '*' {
			ptr, recv = true, recv[1:]
		}
		j := strings.LastIndex(recv, ".")
		return recv[:j], recv[j+1:], fn, ptr
	}
	j := strings.LastIndex(name, ".")
	return name[:j], "", name[j+1:], false
}

var simpleFuncName = regexp.MustCompile(`^(\(\*?[\w/.-]+\)|[\w/.-]+)\.\w+(\$\d+)?$`)

// makeFunctions builds SSA functions with the given names, as far as these are
// names of ordinary functions, methods and closures.
func makeFunctions(names []string) (map[string]*ssa.Function, error) {
	out := map[string]*ssa.Function{}
	byPkg := map[string][]string{}
	for _, n := range names {
		if !simpleFuncName.MatchString(n) || strings.HasSuffix(n, ".init") {
			continue
		}
		byPkg[n] = []string{n} // each in a package of its own, as they need not fit together
	}
	for _, names := range byPkg {
		path, _, _, _ := splitFuncName(names[0])
		closures := map[string]int{}   // function or method to number of closures
		value := map[string]bool{}     // type.method with value receiver
		types_ := map[string]bool{}    //
		methods := map[string]string{} // type.method to receiver
		for _, n := range names {
			_, t, f, ptr := splitFuncName(n)
			base, idx, _ := strings.Cut(f, "$")
			k := 0
			if idx != "" {
				k, _ = strconv.Atoi(idx)
			}
			key := base
			if t != "" {
				key = t + "." + base
				types_[t] = true
				if !ptr {
					value[key] = true
				}
				methods[key] = t
			}
			closures[key] = max(closures[key], k)
		}
		var src strings.Builder
		src.WriteString("package p\n")
		for t := range types_ {
			fmt.Fprintf(&src, "type %s struct{}\n", t)
		}
		for key, k := range closures {
			body := strings.Repeat("func(){}();", k)
			if t, ok := methods[key]; ok {
				if !value[key] {
					t = "*" + t
				}
				fmt.Fprintf(&src, "func (%s) %s() {%s}\n", t, key[strings.Index(key, ".")+1:], body)
			} else {
				fmt.Fprintf(&src, "func %s() {%s}\n", key, body)
			}
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, "p.go", src.String(), 0)
		if err != nil {
			return nil, err
		}
		sp, _, err := ssautil.BuildPackage(&types.Config{Importer: importer.Default()}, fset,
			types.NewPackage(path, "p"), []*ast.File{file}, 0)
		if err != nil {
			return nil, err
		}
		for _, n := range names {
			_, t, f, ptr := splitFuncName(n)
			base, idx, _ := strings.Cut(f, "$")
			var fn *ssa.Function
			if t == "" {
				fn = sp.Func(base)
			} else {
				var typ types.Type = sp.Type(t).Type()
				if ptr {
					typ = types.NewPointer(typ)
				}
				fn = sp.Prog.LookupMethod(typ, sp.Pkg, base)
			}
			if idx != "" {
				k, _ := strconv.Atoi(idx)
				if fn == nil || k > len(fn.AnonFuncs) {
					continue
				}
				fn = fn.AnonFuncs[k-1]
			}
			if fn != nil && fn.String() == n {
				out[n] = fn
			}
		}
	}
	return out, nil
}

// slowReader returns nothing at all now and then, as readers may.
type slowReader struct {
	r    io.Reader
	even bool
}

func (s *slowReader) Read(p []byte) (int, error) {
	s.even = !s.even
	if s.even {
		return 0, nil
	}
	if len(p) > 700 {
		p = p[:700]
	}
	return s.r.Read(p)
}

func (op *classifierOp) open(text string) (r io.Reader, fault bool) {
	all := bytes.NewReader([]byte(text))
	switch op.Reader {
	case "onebyte":
		return iotest.OneByteReader(all), false
	case "half":
		return iotest.HalfReader(all), false
	case "dataeof":
		return iotest.DataErrReader(all), false
	case "pause":
		return &slowReader{r: all}, false
	case "fault":
		n := len(text) * op.At / 1000
		return io.MultiReader(strings.NewReader(text[:n]), iotest.ErrReader(errors.New("read failed"))), true
	case "faultend":
		return io.MultiReader(all, iotest.ErrReader(errors.New("read failed at the end"))), true
	}
	return all, false
}

func classifierMain(args []string) error {
	fs := flag.NewFlagSet("classifier", flag.ExitOnError)
	in := fs.String("in", "", "scenarios")
	out := fs.String("out", "", "trace")
	ufile := fs.String("universe", "", "functions to ask about")
	fs.Parse(args)
	scenarios, err := readLines[classifierScenario](*in)
	if err != nil {
		return err
	}
	var u universe
	b, err := os.ReadFile(*ufile)
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, &u); err != nil {
		return err
	}
	var names []string
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			names = append(names, n)
		}
	}
	for _, f := range u.Funcs {
		add(f.Name)
	}
	for _, e := range u.Edges {
		add(e[0])
		add(e[1])
	}
	sort.Strings(names)
	fns, err := makeFunctions(names)
	if err != nil {
		return err
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	for _, s := range scenarios {
		rec.event(ev{"e": "start"})
		var cls []*interesting.Classifier
		var asked [][][2]string // calls in the map of the classifier
		longs := map[int]bool{} // lengths of overlong names
		longName := func(n int) string { return "ex.test/a." + strings.Repeat("x", n) }
		query := func(i int) {
			c := cls[i]
			funcs, calls := [][]any{}, [][]any{}
			for _, f := range u.Funcs {
				funcs = append(funcs, []any{f.Pkg, f.Name, c.FunctionCategory(f.Pkg, f.Name).String()})
			}
			for n := range longs {
				funcs = append(funcs, []any{"ex.test/a", fmt.Sprint("ex.test/a.LONG", n), c.FunctionCategory("ex.test/a", longName(n)).String()})
			}
			for _, pairs := range [][][2]string{u.Edges, asked[i]} {
				for _, p := range pairs {
					for _, q := range [][2]string{p, {p[1], p[0]}} {
						if fns[q[0]] == nil || fns[q[1]] == nil {
							continue
						}
						e := &callgraph.Edge{Caller: &callgraph.Node{Func: fns[q[0]]}, Callee: &callgraph.Node{Func: fns[q[1]]}}
						calls = append(calls, []any{q[0], q[1], c.IncludeCall(e)})
					}
				}
			}
			rec.event(ev{"e": "query", "of": i + 1, "funcs": funcs, "calls": calls})
		}
		problem := guarded(func() {
			for _, op := range s.Ops {
				switch op.Op {
				case "default":
					cls, asked = append(cls, interesting.DefaultClassifier()), append(asked, nil)
					rec.event(ev{"e": "default"})
				case "exclude":
					if len(cls) == 0 {
						continue
					}
					i := op.Of % len(cls)
					cls, asked = append(cls, interesting.ClassifierExcludingUnanalyzed(cls[i])), append(asked, asked[i])
					rec.event(ev{"e": "exclude", "of": i + 1})
				case "load":
					text, lines := op.Text, op.Lines
					if op.Pad > 0 {
						text = "#" + strings.Repeat("x", op.Pad) + "\n" + text
					}
					if op.Long > 0 {
						longs[op.Long] = true
						text = "unanalyzed " + longName(op.Long) + "\n" + text
						lines = append([]mapLine{{Words: []string{"unanalyzed", fmt.Sprint("ex.test/a.LONG", op.Long)}}}, lines...)
					}
					text = strings.Repeat("# "+strings.Repeat("y", 997)+"\n", op.Fill) + text
					r, fault := op.open(text)
					c, err := interesting.LoadClassifier("map", r, op.Exclude)
					rec.event(ev{"e": "load", "lines": lines, "exclude": op.Exclude, "ok": err == nil, "fault": fault,
						"overlong": max(op.Pad, op.Long) > 60000, "reader": op.Reader, "at": op.At, "text": op.Text,
						"pad": op.Pad, "long": op.Long, "fill": op.Fill})
					if err != nil {
						continue
					}
					var pairs [][2]string
					for _, ln := range op.Lines {
						if len(ln.Words) >= 3 && ln.Words[0] == "ignore_edge" {
							pairs = append(pairs, [2]string{ln.Words[1], ln.Words[2]})
						}
					}
					cls, asked = append(cls, c), append(asked, pairs)
				}
				if len(cls) > 0 {
					query(len(cls) - 1)
				}
			}
			for i := range cls[:max(0, len(cls)-1)] {
				query(i)
			}
		})
		if problem != "" {
			rec.event(ev{"e": "problem", "problem": problem})
		}
	}
	return rec.close()
}

// mapProgram is the program described in Classifier.tla.
var mapProgram = map[string]string{
	"go.mod": "module golang.org/x\n\ngo 1.23\n",
	"m/m.go": `package m

import (
	"sort"
	"unsafe"

	"golang.org/x/crypto/argon2"
	"golang.org/x/sys/cpu"
	"golang.org/x/sys/unix"
	"golang.org/x/text/currency"
)

func Sys()               { unix.Do() }
func Cpu()               { cpu.Do() }
func Arg()               { argon2.Wrap() }
func Region()            { currency.Region() }
func Find() int          { return sort.Search(1, nil) }
func Ints() int          { return sort.SearchInts(nil, 1) }
func Cgo()               { call_Cfunc_CBytes() }
func call_Cfunc_CBytes() {}
func Ptr(x *int) *uint8  { return (*uint8)(unsafe.Pointer(x)) }
func Leaf()              {}
func All()               { Sys(); Find(); Cgo(); Ptr(nil); Leaf() }

type T struct{}

func (*T) M() { Leaf() }
`,
	"sys/unix/unix.go": "package unix\n\nfunc Do() {}\n",
	"sys/cpu/cpu.go":   "package cpu\n\nimport \"golang.org/x/sys/unix\"\n\nfunc Do() { unix.Do() }\n",
	"crypto/argon2/argon2.go": "package argon2\n\nimport \"golang.org/x/sys/unix\"\n\nfunc Wrap() { blamkaSSE4() }\n" +
		"func blamkaSSE4() { unix.Do() }\n",
	"text/currency/currency.go": "package currency\n\nimport \"sort\"\n\nfunc Region() { sort.Search(1, nil) }\n" +
		"func Other() { sort.Search(2, nil) }\n",
}

// reportPairs returns the functions and capabilities in function-level JSON
// output, except those of package initialisers.
func reportPairs(text string) ([][]string, error) {
	var list struct {
		CapabilityInfo []struct {
			Capability string
			Path       []struct{ Name string }
		}
	}
	if err := json.Unmarshal([]byte(text), &list); err != nil {
		return nil, err
	}
	pairs := [][]string{}
	for _, ci := range list.CapabilityInfo {
		name := ""
		if len(ci.Path) > 0 {
			name = ci.Path[0].Name
		}
		if !strings.HasSuffix(name, ".init") {
			pairs = append(pairs, []string{name, ci.Capability})
		}
	}
	return pairs, nil
}

func mapCommandMain(args []string) error {
	fs := flag.NewFlagSet("mapcommand", flag.ExitOnError)
	in := fs.String("in", "", "scenarios")
	out := fs.String("out", "", "trace")
	dir := fs.String("dir", "", "scratch directory")
	exe := fs.String("capslock", "", "command to run")
	fs.Parse(args)
	scenarios, err := readLines[classifierScenario](*in)
	if err != nil {
		return err
	}
	if err := writeFiles(*dir, mapProgram); err != nil {
		return err
	}
	events := make([]ev, len(scenarios))
	err = inParallel(len(scenarios), 6, func(i int) error {
		op := scenarios[i].Ops[0]
		args := []string{"-packages=./...", "-output=json", "-granularity=function"}
		if op.Map {
			name := fmt.Sprintf("%s/%d.cm", *dir, i)
			if err := os.WriteFile(name, []byte(op.Text), 0o666); err != nil {
				return err
			}
			args = append(args, "-capability_map="+name)
		}
		if op.Disable {
			args = append(args, "-disable_builtin")
		}
		if op.Noisy {
			args = append(args, "-noisy")
		}
		r, err := run(*dir, nil, *exe, args...)
		if err != nil {
			return err
		}
		e := ev{"e": "command", "map": op.Map, "lines": op.Lines, "disable": op.Disable, "noisy": op.Noisy,
			"status": r.status, "stderr": r.stderr, "pairs": [][]string{}}
		if r.status == 0 {
			pairs, err := reportPairs(r.stdout)
			if err != nil {
				pairs = [][]string{{"unreadable", err.Error()}}
			}
			e["pairs"] = pairs
		}
		events[i] = e
		return nil
	})
	if err != nil {
		return err
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	for _, e := range events {
		rec.event(e)
	}
	return rec.close()
}
