package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"
)

func init() {
	commands["command"] = commandRuns
}

type cons struct {
	Op  string `json:"op"`
	Tag string `json:"tag"`
	A   *cons  `json:"a"`
	B   *cons  `json:"b"`
}

func (c *cons) String() string {
	switch c.Op {
	case "tag":
		return c.Tag
	case "not":
		if c.A.Op == "tag" {
			return "!" + c.A.String()
		}
		return "!(" + c.A.String() + ")"
	case "and":
		return "(" + c.A.String() + ") && (" + c.B.String() + ")"
	case "or":
		return "(" + c.A.String() + ") || (" + c.B.String() + ")"
	}
	return ""
}

type loadFile struct {
	Elems   []string `json:"elems"`
	Ext     string   `json:"ext"`
	Under   bool     `json:"under"`
	Cons    cons     `json:"cons"`
	Kind    string   `json:"kind"`
	Imports []string `json:"imports"`
}

type loadPkg struct {
	Dir   string     `json:"dir"`
	Name  string     `json:"name"`
	Files []loadFile `json:"files"`
}

type modVersion struct {
	Path string `json:"path"`
	Ver  int    `json:"ver"`
}

func (m modVersion) version() string { return fmt.Sprintf("v1.%d.0", m.Ver) }

type loadMod struct {
	modVersion
	Reqs []modVersion `json:"reqs"`
	Pkgs []loadPkg    `json:"pkgs"`
}

type commandScenario struct {
	W struct {
		Mods      []loadMod `json:"mods"`
		Published []loadMod `json:"published"`
	} `json:"w"`
	Layout string `json:"layout"`
	Pats   []struct {
		Kind string `json:"kind"`
		Arg  string `json:"arg"`
	} `json:"pats"`
	O struct {
		Output  string   `json:"output"`
		Gran    string   `json:"gran"`
		Caps    string   `json:"caps"`
		Map     string   `json:"map"`
		Disable bool     `json:"disable"`
		CPU     string   `json:"cpu"`
		Mem     string   `json:"mem"`
		Extra   int      `json:"extra"`
		Base    string   `json:"base"`
		Force   bool     `json:"force"`
		Omit    bool     `json:"omit"`
		Noisy   bool     `json:"noisy"`
		Stdout  string   `json:"stdout"`
		Flag    string   `json:"flag"`
		GOOS    string   `json:"goos"`
		GOARCH  string   `json:"goarch"`
		Tags    []string `json:"tags"`
		Names   string   `json:"names"`
	} `json:"o"`
	Env struct {
		GOOS   string `json:"goos"`
		GOARCH string `json:"goarch"`
	} `json:"env"`
	Fault fault    `json:"fault"`
	Items []string `json:"items"`
}

func (f *loadFile) name() string {
	n := strings.Join(f.Elems, "_") + "." + f.Ext
	if f.Under {
		n = "_" + n
	}
	return n
}

func (f *loadFile) text(pkg string) string {
	var b strings.Builder
	if f.Cons.Op != "true" {
		fmt.Fprintf(&b, "//go:build %s\n\n", f.Cons.String())
	}
	if f.Ext == "s" {
		b.WriteString("// nothing\n")
		return b.String()
	}
	if f.Kind == "clause" {
		pkg = "zzz"
	}
	fmt.Fprintf(&b, "package %s\n\n", pkg)
	for _, i := range f.Imports {
		fmt.Fprintf(&b, "import _ %q\n", i)
	}
	id := f.Elems[0]
	switch f.Kind {
	case "fn", "clause":
		fmt.Fprintf(&b, "import \"unsafe\"\n\nfunc F_%s(p unsafe.Pointer) *int { return (*int)(p) }\n", id)
	case "plain":
		fmt.Fprintf(&b, "func G_%s() {}\n", id)
	case "plat":
		b.WriteString("func plat() {}\n")
	case "useplat":
		fmt.Fprintf(&b, "func U_%s() { plat() }\n", id)
	case "syntax":
		fmt.Fprintf(&b, "func S_%s( {\n", id)
	case "type":
		fmt.Fprintf(&b, "var t_%s int = \"s\"\n", id)
	case "undefined":
		fmt.Fprintf(&b, "var u_%s = nosuchname\n", id)
	case "many":
		for i := range 60 {
			fmt.Fprintf(&b, "var m%d_%s = nosuchname%d\n", i, id, i)
		}
	case "unused":
		fmt.Fprintf(&b, "import \"errors\"\n")
	case "redeclared":
		fmt.Fprintf(&b, "func R_%s() {}\nfunc R_%s() {}\n", id, id)
	case "embed":
		fmt.Fprintf(&b, "import _ \"embed\"\n\n//go:embed missing.txt\nvar e_%s string\n", id)
	case "cgo":
		fmt.Fprintf(&b, "import \"C\"\n\nfunc C_%s() {}\n", id)
	default:
		panic("unknown kind " + f.Kind)
	}
	return b.String()
}

// files returns the files of a module, with the given requirements and lines
// added to go.mod.
func (m *loadMod) files(modPath string, more string) map[string]string {
	var mod strings.Builder
	// Later versions of the language prune the module graph.
	fmt.Fprintf(&mod, "module %s\n\ngo 1.16\n", modPath)
	for _, r := range m.Reqs {
		fmt.Fprintf(&mod, "\nrequire %s %s\n", r.Path, r.version())
	}
	mod.WriteString(more)
	files := map[string]string{"go.mod": mod.String()}
	for _, p := range m.Pkgs {
		for _, f := range p.Files {
			files[filepath.Join(p.Dir, f.name())] = f.text(p.Name)
		}
	}
	return files
}

// escaped returns a module path as in names of files.
func escaped(path string) string {
	var b strings.Builder
	for _, r := range path {
		if 'A' <= r && r <= 'Z' {
			b.WriteByte('!')
			r += 'a' - 'A'
		}
		b.WriteRune(r)
	}
	return b.String()
}

// publish adds a module to a file proxy.
func publish(proxy, path, version string, files map[string]string) error {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w, err := z.Create(path + "@" + version + "/" + n)
		if err != nil {
			return err
		}
		if _, err := w.Write([]byte(files[n])); err != nil {
			return err
		}
	}
	if err := z.Close(); err != nil {
		return err
	}
	dir := filepath.Join(proxy, escaped(path), "@v")
	list, _ := os.ReadFile(filepath.Join(dir, "list"))
	return writeFiles(dir, map[string]string{
		"list":            string(list) + version + "\n",
		version + ".info": fmt.Sprintf(`{"Version":%q,"Time":"2024-01-01T00:00:00Z"}`, version),
		version + ".mod":  files["go.mod"],
		version + ".zip":  buf.String(),
	})
}

func commandRuns(args []string) error {
	fl := flag.NewFlagSet("command", flag.ExitOnError)
	in := fl.String("in", "", "scenarios")
	out := fl.String("out", "", "trace")
	exe := fl.String("exe", "", "capslock")
	dir := fl.String("dir", "", "scratch directory")
	fl.Parse(args)
	scs, err := readLines[commandScenario](*in)
	if err != nil {
		return err
	}
	raw, err := readLines[json.RawMessage](*in)
	if err != nil {
		return err
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	res := make([][]any, len(scs))
	if err := inParallel(len(scs), 6, func(i int) error {
		root := filepath.Join(*dir, strconv.Itoa(i))
		evs, err := scs[i].run(*exe, root)
		if err != nil {
			return fmt.Errorf("%w\n%s", err, raw[i])
		}
		res[i] = append([]any{ev{"e": "run", "sc": raw[i]}}, evs...)
		return os.RemoveAll(root)
	}); err != nil {
		return err
	}
	for _, evs := range res {
		for _, e := range evs {
			rec.event(e)
		}
	}
	return rec.close()
}

func (sc *commandScenario) env(root string, extra ...string) []string {
	var env []string
	for _, kv := range moduleEnv() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOMODCACHE", "HOME", "TMPDIR":
			continue
		}
		env = append(env, kv)
	}
	if sc.Layout != "work" {
		env = append(env, "GOWORK=off")
	}
	env = append(env, "GOFLAGS=-modcacherw", "GOPROXY=file://"+filepath.Join(root, "proxy"), "GONOSUMDB=*", "GOTOOLCHAIN=local",
		"GOMODCACHE="+filepath.Join(root, "modcache"), "GOPATH="+filepath.Join(root, "gopath"),
		"HOME="+filepath.Join(root, "home"), "TMPDIR="+filepath.Join(root, "tmp"))
	if sc.Layout == "gopath" {
		env = append(env, "GO111MODULE=off")
	}
	return append(env, extra...)
}

// make writes the modules.
func (sc *commandScenario) make(root string) (user string, err error) {
	user = filepath.Join(root, "user")
	if sc.Layout == "gopath" {
		user = filepath.Join(root, "gopath", "src", sc.W.Mods[0].Path)
	}
	if err := os.MkdirAll(filepath.Join(user, "empty"), 0o777); err != nil {
		return "", err
	}
	for _, d := range []string{"tmp", "home", "out", "none", "proxy"} {
		if err := os.MkdirAll(filepath.Join(root, d), 0o777); err != nil {
			return "", err
		}
	}
	proxy := filepath.Join(root, "proxy")
	for _, m := range sc.W.Published {
		if err := publish(proxy, m.Path, m.version(), m.files(m.Path, "")); err != nil {
			return "", err
		}
	}
	more := ""
	for i, m := range sc.W.Mods[1:] {
		switch sc.Layout {
		case "work":
			dir := fmt.Sprintf("work%d", i)
			if err := writeFiles(filepath.Join(root, dir), m.files(m.Path, "")); err != nil {
				return "", err
			}
			if err := writeFiles(root, map[string]string{"go.work": "go 1.21\n\nuse ./user\nuse ./" + dir + "\n"}); err != nil {
				return "", err
			}
		case "gopath":
			files := m.files(m.Path, "")
			delete(files, "go.mod")
			if err := writeFiles(filepath.Join(root, "gopath", "src", m.Path), files); err != nil {
				return "", err
			}
		case "replacedir":
			dir := fmt.Sprintf("dir%d", i)
			if err := writeFiles(filepath.Join(root, dir), m.files(m.Path, "")); err != nil {
				return "", err
			}
			more += fmt.Sprintf("\nreplace %s => ../%s\n", m.Path, dir)
		case "replacemod":
			path := fmt.Sprintf("fork.test/m%d", i)
			if err := publish(proxy, path, "v1.9.0", m.files(path, "")); err != nil {
				return "", err
			}
			more += fmt.Sprintf("\nreplace %s => %s v1.9.0\n", m.Path, path)
		default:
			if err := publish(proxy, m.Path, m.version(), m.files(m.Path, "")); err != nil {
				return "", err
			}
		}
	}
	files := sc.W.Mods[0].files(sc.W.Mods[0].Path, more)
	files["testdata/bad/x.go"] = "package bad\n\nfunc (\n"
	files["_skip/x.go"] = "package bad\n\nfunc (\n"
	files["nested/go.mod"] = "module ex.test/nested\n\ngo 1.21\n"
	files["nested/x.go"] = "package bad\n\nfunc (\n"
	if sc.Layout == "gopath" {
		delete(files, "go.mod")
		delete(files, "nested/go.mod")
		delete(files, "nested/x.go")
	}
	if err := writeFiles(user, files); err != nil {
		return "", err
	}
	if len(sc.W.Mods) > 1 && sc.Layout != "work" && sc.Layout != "gopath" {
		if err := goIn(user, sc.env(root), "mod", "tidy", "-e"); err != nil {
			return "", err
		}
		if sc.Layout == "vendor" {
			if err := goIn(user, sc.env(root), "mod", "vendor", "-e"); err != nil {
				return "", err
			}
		}
	}
	return user, nil
}

func goIn(dir string, env []string, args ...string) error {
	r, err := run(dir, env, "go", args...)
	if err != nil {
		return err
	}
	return r.ok(fmt.Sprintf("go %q", args))
}

func (sc *commandScenario) run(exe, root string) ([]any, error) {
	user, err := sc.make(root)
	if err != nil {
		return nil, err
	}
	out := filepath.Join(root, "out")
	if err := writeFiles(root, map[string]string{
		"ok.cm":      "# a map\npackage nosuch.test/x CAPABILITY_FILES\n",
		"bad.cm":     "func nosuch.test/x.F CAPABILITY_NOSUCH\n",
		"empty.json": "{}",
		"bad.json":   "{\"capabilityInfo\": [",
	}); err != nil {
		return nil, err
	}
	// name gives the name of a file as the command is told it.
	name := func(elem ...string) string {
		n := filepath.Join(elem...)
		if sc.O.Names == "relative" {
			if rel, err := filepath.Rel(user, n); err == nil {
				return rel
			}
		}
		return n
	}
	pick := func(kind, suffix string) string {
		switch kind {
		case "missing":
			return name(root, "nosuch", "x"+suffix)
		case "dir":
			return name(user)
		}
		return name(root, kind+suffix)
	}
	var pats []string
	for _, p := range sc.Pats {
		switch p.Kind {
		case "dir":
			pats = append(pats, "."+strings.TrimSuffix("/"+p.Arg, "/"))
		case "path":
			pats = append(pats, p.Arg)
		case "all":
			pats = append(pats, "./"+filepath.Join(p.Arg, "..."))
		case "allpath":
			pats = append(pats, p.Arg+"/...")
		}
	}
	o := &sc.O
	args := []string{"-packages=" + strings.Join(pats, ","), "-output=" + o.Output, "-granularity=" + o.Gran}
	addIf := func(ok bool, arg string) {
		if ok {
			args = append(args, arg)
		}
	}
	addIf(o.Caps != "", "-capabilities="+o.Caps)
	addIf(o.Map != "none", "-capability_map="+pick(o.Map, ".cm"))
	addIf(o.Disable, "-disable_builtin")
	addIf(o.CPU == "ok", "-cpuprofile="+name(out, "cpu"))
	addIf(o.CPU == "bad", "-cpuprofile="+name(out, "nosuch", "cpu"))
	addIf(o.Mem == "ok", "-memprofile="+name(out, "mem"))
	addIf(o.Mem == "bad", "-memprofile="+name(out, "nosuch", "mem"))
	addIf(o.Force, "-force_local_module")
	addIf(o.Omit, "-omit_paths")
	addIf(o.Noisy, "-noisy")
	addIf(len(o.Tags) > 0, "-buildtags="+strings.Join(o.Tags, ","))
	addIf(o.GOOS != "", "-goos="+o.GOOS)
	addIf(o.GOARCH != "", "-goarch="+o.GOARCH)
	addIf(o.Flag == "unknown", "-nosuch")
	addIf(o.Flag == "badvalue", "-omit_paths=maybe")
	if o.Output == "compare" {
		base := pick(o.Base, ".json")
		if o.Base == "same" {
			cil := new(cpb.CapabilityInfoList)
			for _, it := range sc.Items {
				ci := &cpb.CapabilityInfo{Capability: cpb.Capability_CAPABILITY_UNSAFE_POINTER.Enum(), PackageDir: &it,
					Path: []*cpb.Function{{Name: &it}}}
				cil.CapabilityInfo = append(cil.CapabilityInfo, ci)
			}
			b, err := protojson.Marshal(cil)
			if err != nil {
				return nil, err
			}
			if err := writeFiles(root, map[string]string{"same.json": string(b)}); err != nil {
				return nil, err
			}
		}
		args = append(args, base)
	}
	for i := 0; i < o.Extra; i++ {
		args = append(args, "extra")
	}
	var extra []string
	if sc.Env.GOOS != "" {
		extra = append(extra, "GOOS="+sc.Env.GOOS)
	}
	if sc.Env.GOARCH != "" {
		extra = append(extra, "GOARCH="+sc.Env.GOARCH)
	}
	switch sc.Fault.Kind {
	case "none":
	case "no-go":
		extra = append(extra, "PATH="+filepath.Join(root, "none"))
	default:
		self, err := os.Executable()
		if err != nil {
			return nil, err
		}
		if err := os.MkdirAll(filepath.Join(root, "bin"), 0o777); err != nil {
			return nil, err
		}
		if err := os.Symlink(self, filepath.Join(root, "bin", "go")); err != nil {
			return nil, err
		}
		goCmd, err := exec.LookPath("go")
		if err != nil {
			return nil, err
		}
		b, err := json.Marshal(stubPlan{Go: goCmd, Fault: sc.Fault})
		if err != nil {
			return nil, err
		}
		if err := writeFiles(root, map[string]string{"stub/plan.json": string(b)}); err != nil {
			return nil, err
		}
		extra = append(extra, stubVar+"="+filepath.Join(root, "stub"), "PATH="+filepath.Join(root, "bin")+":"+os.Getenv("PATH"))
	}
	before, err := snapshot(user)
	if err != nil {
		return nil, err
	}
	env := sc.env(root, extra...)
	var r result
	if o.Stdout == "full" {
		sh := append([]string{"-c", `exec "$@" >/dev/full`, "sh", exe}, args...)
		r, err = run(user, env, "/bin/sh", sh...)
	} else {
		r, err = run(user, env, exe, args...)
	}
	if err != nil {
		return nil, err
	}
	after, err := snapshot(user)
	if err != nil {
		return nil, err
	}
	left, err := os.ReadDir(filepath.Join(root, "tmp"))
	if err != nil {
		return nil, err
	}
	var evs []any
	if sc.Fault.Kind == "no-go" {
		evs = append(evs, ev{"e": "go", "ok": false})
	}
	if b, err := os.ReadFile(filepath.Join(root, "stub", "broken")); err == nil {
		return nil, fmt.Errorf("stub: %s", b)
	}
	if _, err := os.Stat(filepath.Join(root, "stub", "events")); err == nil {
		lines, err := readLines[json.RawMessage](filepath.Join(root, "stub", "events"))
		if err != nil {
			return nil, err
		}
		for _, l := range lines {
			evs = append(evs, l)
		}
	}
	e := ev{"e": "end", "status": r.status, "text": strings.TrimSpace(r.stdout) != "", "message": strings.TrimSpace(r.stderr) != "",
		"same": before == after, "left": len(left), "args": args, "stderr": r.stderr[:min(len(r.stderr), 600)]}
	if err := commandReport(o.Output, o.Gran, r, e); err != nil {
		return nil, err
	}
	return append(evs, e), nil
}

// commandReport adds what the output says to e.
func commandReport(mode, gran string, r result, e ev) error {
	items, packages, caps := []string{}, []string{}, []string{}
	modules, infos := []ev{}, []ev{}
	sorted := true
	if mode == "json" && r.status == 0 && r.stdout != "" {
		cil := new(cpb.CapabilityInfoList)
		if err := protojson.Unmarshal([]byte(r.stdout), cil); err != nil {
			e["bad"] = err.Error()
			items = append(items, "?")
		}
		for _, ci := range cil.CapabilityInfo {
			packages = append(packages, ci.GetPackageDir())
			if gran == "package" || gran == "intermediate" {
				items = append(items, ci.GetPackageDir())
			} else if len(ci.Path) > 0 {
				items = append(items, ci.Path[0].GetName())
			}
		}
		last := ""
		for _, m := range cil.ModuleInfo {
			modules = append(modules, ev{"path": m.GetPath(), "version": m.GetVersion()})
			sorted = sorted && last < m.GetPath()
			last = m.GetPath()
		}
		last = ""
		for _, p := range cil.PackageInfo {
			ign := p.IgnoredFiles
			if ign == nil {
				ign = []string{}
			}
			infos = append(infos, ev{"path": p.GetPath(), "ignored": ign})
			sorted = sorted && last < p.GetPath()
			last = p.GetPath()
		}
	}
	if mode == "m" {
		for _, l := range strings.Fields(r.stdout) {
			caps = append(caps, strings.TrimPrefix(l, "CAPABILITY_"))
		}
	}
	e["items"], e["packages"], e["caps"] = items, packages, caps
	e["modules"], e["infos"], e["sorted"] = modules, infos, sorted
	return nil
}
