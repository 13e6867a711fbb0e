package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
)

func init() {
	commands["revdiff"] = revDiff
	commands["gitrun"] = gitRun
	commands["commits"] = commits
}

// The driver also stands in for git and capslock, when the tool under test
// runs it by those names.  The directory named by stubVar has the plan and the
// log of the calls.
const stubVar = "VERIF_STUB"

type stubPlan struct {
	Git   string `json:"git"` // the real ones
	Go    string `json:"go"`
	Fault fault  `json:"fault"`
	// Report is a file to print, relative to the current directory, if the
	// reports do not follow from the commit.
	Report string `json:"report"`
}

type fault struct {
	Kind string `json:"kind"`
	At   int    `json:"at"`
}

// stub acts as the command name, and returns false if it is not one that
// the driver stands in for.
func stub(name string) bool {
	dir := os.Getenv(stubVar)
	if dir == "" || (name != "git" && name != "go" && name != "capslock") {
		return false
	}
	fail := func(err error) {
		fmt.Fprintln(os.Stderr, "stub:", err)
		os.WriteFile(filepath.Join(dir, "broken"), []byte(err.Error()), 0o666)
		os.Exit(99)
	}
	var plan stubPlan
	b, err := os.ReadFile(filepath.Join(dir, "plan.json"))
	if err == nil {
		err = json.Unmarshal(b, &plan)
	}
	if err != nil {
		fail(err)
	}
	logName := filepath.Join(dir, name+".log")
	old, _ := os.ReadFile(logName)
	n := strings.Count(string(old), "\n") + 1
	appendTo := func(file string, v any) {
		f, err := os.OpenFile(file, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o666)
		if err != nil {
			fail(err)
		}
		e := json.NewEncoder(f)
		e.SetEscapeHTML(false)
		if err := e.Encode(v); err != nil {
			fail(err)
		}
		f.Close()
	}
	kind := plan.Fault.Kind
	hit := plan.Fault.At == n
	if name != "capslock" {
		hit = hit && strings.HasPrefix(kind, name+"-")
		appendTo(logName, n)
		sub := ""
		if len(os.Args) > 1 {
			sub = os.Args[1]
		}
		appendTo(filepath.Join(dir, "events"), ev{"e": name, "ok": !hit, "list": sub == "log", "args": os.Args[1:]})
		if hit && strings.HasSuffix(kind, "-before") {
			fmt.Fprintln(os.Stderr, "fatal: fault")
			os.Exit(128)
		}
		real := plan.Git
		if name == "go" {
			real = plan.Go
		}
		cmd := exec.Command(real, os.Args[1:]...)
		cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
		err := cmd.Run()
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) {
			fail(err)
		}
		if hit {
			os.Exit(1)
		}
		os.Exit(cmd.ProcessState.ExitCode())
	}
	hit = hit && strings.HasPrefix(kind, "capslock-")
	appendTo(logName, n)
	if plan.Report != "" {
		b, err := os.ReadFile(plan.Report)
		if err != nil {
			fail(err)
		}
		os.Stdout.Write(b)
		os.Exit(0)
	}
	commit, sub := -1, "?"
	if b, err := os.ReadFile("id"); err == nil {
		if c, d, ok := strings.Cut(strings.TrimSuffix(string(b), "\n"), " "); ok {
			commit, _ = strconv.Atoi(c)
			sub = d
		}
	}
	opts := ev{"packages": "", "output": "", "granularity": "", "capabilities": ""}
	other := []string{}
	for i := 1; i < len(os.Args); i++ {
		a := strings.TrimPrefix(strings.TrimPrefix(os.Args[i], "-"), "-")
		k, v, ok := strings.Cut(a, "=")
		if !ok && i+1 < len(os.Args) {
			i++
			v = os.Args[i]
		}
		if _, ok := opts[k]; ok && strings.HasPrefix(os.Args[i], "-") {
			opts[k] = v
		} else {
			other = append(other, os.Args[i])
		}
	}
	opts["other"] = other
	appendTo(filepath.Join(dir, "events"), ev{"e": "capslock", "ok": !hit, "commit": commit, "dir": sub, "opts": opts})
	var entries []any
	for k := 1; k <= commit && k < 9; k++ {
		p := fmt.Sprintf("ex.test/p%d", k)
		entries = append(entries, reportEntry("FILES", p, []reportFn{{Name: p + ".F", Pkg: p}}))
	}
	report, err := json.Marshal(map[string]any{"capabilityInfo": entries})
	if err != nil {
		fail(err)
	}
	if !hit {
		os.Stdout.Write(report)
		os.Exit(0)
	}
	switch kind {
	case "capslock-1", "capslock-2":
		fmt.Fprintln(os.Stderr, "fault")
		os.Exit(int(kind[len(kind)-1] - '0'))
	case "capslock-kill":
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
	case "capslock-garbage":
		fmt.Println("there are no capabilities")
	case "capslock-cut":
		os.Stdout.Write(report[:len(report)-1])
	case "capslock-empty":
	case "capslock-partial":
		os.Stdout.Write(report)
		os.Exit(1)
	default:
		fail(fmt.Errorf("unknown fault %q", kind))
	}
	os.Exit(0)
	return true
}

type reportFn struct {
	Name string `json:"name"`
	Pkg  string `json:"pkg"`
	Site string `json:"site"`
}

type reportItem struct {
	Cap  string     `json:"cap"`
	Pkg  string     `json:"pkg"`
	Path []reportFn `json:"path"`
}

// reportEntry returns an entry of a report as capslock prints it.
func reportEntry(cap, pkg string, path []reportFn) any {
	var fns []any
	dep := pkg
	for _, f := range path {
		fn := map[string]any{"name": f.Name, "package": f.Pkg}
		if f.Site != "" {
			parts := strings.Split(f.Site, ":")
			fn["site"] = map[string]any{"filename": parts[0], "line": parts[1], "column": parts[2]}
		}
		dep += " " + f.Name
		fns = append(fns, fn)
	}
	return map[string]any{
		"packageName": pkg[strings.LastIndex(pkg, "/")+1:], "capability": "CAPABILITY_" + cap, "depPath": dep,
		"path": fns, "packageDir": pkg, "capabilityType": "CAPABILITY_TYPE_DIRECT",
	}
}

// gitEnv is the environment for git and for the tool, below root.
func gitEnv(root string, extra ...string) []string {
	var env []string
	for _, kv := range moduleEnv() {
		k, _, _ := strings.Cut(kv, "=")
		if strings.HasPrefix(k, "GIT_") || strings.HasPrefix(k, "XDG_") || k == "HOME" || k == "TMPDIR" || k == "PATH" ||
			k == "CAPSLOCKTOOLSTMPDIR" {
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "HOME="+filepath.Join(root, "home"), "GIT_CONFIG_NOSYSTEM=1", "LC_ALL=C")
	return append(env, extra...)
}

func (r result) ok(what string) error {
	if r.status != 0 {
		return fmt.Errorf("%s: status %d: %s", what, r.status, r.stderr)
	}
	return nil
}

// gitIn runs the real git for setting things up.
func gitIn(root, dir, stdin string, args ...string) (string, error) {
	cmd := exec.Command("git", args...)
	cmd.Dir = dir
	cmd.Env = gitEnv(root, "PATH="+os.Getenv("PATH"), "PWD="+dir)
	cmd.Stdin = strings.NewReader(stdin)
	b, err := cmd.Output()
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			return "", fmt.Errorf("git %q: %w: %s", args, err, ee.Stderr)
		}
		return "", fmt.Errorf("git %q: %w", args, err)
	}
	return strings.TrimSuffix(string(b), "\n"), nil
}

// stubDir makes a directory with stand-ins for git and capslock.
func stubDir(root string, plan stubPlan) error {
	git, err := exec.LookPath("git")
	if err != nil {
		return err
	}
	self, err := os.Executable()
	if err != nil {
		return err
	}
	plan.Git = git
	b, err := json.Marshal(plan)
	if err != nil {
		return err
	}
	if err := writeFiles(root, map[string]string{
		"stub/plan.json": string(b),
		"home/.gitconfig": "[user]\n\tname = u\n\temail = u@ex.test\n[init]\n\tdefaultBranch = main\n[safe]\n\tdirectory = *\n" +
			"[core]\n\tlogAllRefUpdates = false\n[advice]\n\tdetachedHead = false\n",
	}); err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Join(root, "bin"), 0o777); err != nil {
		return err
	}
	for _, name := range []string{"git", "capslock"} {
		if name == "git" && plan.Fault.Kind == "no-git" || name == "capslock" && plan.Fault.Kind == "no-capslock" {
			continue
		}
		if err := os.Symlink(self, filepath.Join(root, "bin", name)); err != nil {
			return err
		}
	}
	return nil
}

// -- comparing scripted reports -------------------------------------------

type diffScenario struct {
	Gran string       `json:"gran"`
	Base []reportItem `json:"base"`
	Cur  []reportItem `json:"cur"`
}

func revDiff(args []string) error {
	fl := flag.NewFlagSet("revdiff", flag.ExitOnError)
	in := fl.String("in", "", "scenarios")
	out := fl.String("out", "", "trace")
	exe := fl.String("exe", "", "capslock-git-diff")
	dir := fl.String("dir", "", "scratch directory")
	fl.Parse(args)
	scs, err := readLines[diffScenario](*in)
	if err != nil {
		return err
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	const chunk = 25
	res := make([]any, len(scs))
	if err := inParallel((len(scs)+chunk-1)/chunk, 8, func(i int) error {
		lo := i * chunk
		hi := min(lo+chunk, len(scs))
		return diffReports(*exe, filepath.Join(*dir, strconv.Itoa(i)), scs[lo:hi], res[lo:hi])
	}); err != nil {
		return err
	}
	for _, r := range res {
		rec.event(r)
	}
	return rec.close()
}

// diffReports makes a repository with a revision for each report, and compares
// them in pairs.
func diffReports(exe, root string, scs []diffScenario, res []any) error {
	if err := stubDir(root, stubPlan{Report: "report.json"}); err != nil {
		return err
	}
	var s strings.Builder
	commit := func(ref string, items []reportItem) error {
		var entries []any
		for _, it := range items {
			entries = append(entries, reportEntry(it.Cap, it.Pkg, it.Path))
		}
		b, err := json.MarshalIndent(map[string]any{"capabilityInfo": entries}, "", " ")
		if err != nil {
			return err
		}
		fmt.Fprintf(&s, "commit refs/heads/%s\ncommitter u <u@ex.test> 1700000000 +0000\ndata 1\nx\nM 100644 inline report.json\ndata %d\n%s\n",
			ref, len(b), b)
		return nil
	}
	for i, sc := range scs {
		if err := commit(fmt.Sprint("a", i), sc.Base); err != nil {
			return err
		}
		if err := commit(fmt.Sprint("b", i), sc.Cur); err != nil {
			return err
		}
	}
	user := filepath.Join(root, "user")
	if err := os.Mkdir(user, 0o777); err != nil {
		return err
	}
	if _, err := gitIn(root, user, "", "init", "-q"); err != nil {
		return err
	}
	if _, err := gitIn(root, user, s.String(), "fast-import", "--quiet"); err != nil {
		return err
	}
	tmp := filepath.Join(root, "tmp")
	if err := os.Mkdir(tmp, 0o777); err != nil {
		return err
	}
	env := gitEnv(root, "TMPDIR="+tmp, stubVar+"="+filepath.Join(root, "stub"), "PATH="+filepath.Join(root, "bin")+":"+os.Getenv("PATH"))
	for i, sc := range scs {
		r, err := run(user, env, exe, "-granularity="+sc.Gran, fmt.Sprint("a", i), fmt.Sprint("b", i))
		if err != nil {
			return err
		}
		if b, err := os.ReadFile(filepath.Join(root, "stub", "broken")); err == nil {
			return fmt.Errorf("stub: %s", b)
		}
		res[i] = ev{"e": "diff", "gran": sc.Gran, "base": sc.Base, "cur": sc.Cur, "out": diffOutput(r)}
	}
	return nil
}

var (
	groupRE   = regexp.MustCompile(`^(?:Package|Function)s? (\S.*) (?:has|have) capability (?:CAPABILITY_)?(\w+):$`)
	summaryRE = regexp.MustCompile(`^Added (\d+) new (capability|capabilities|use of existing capability|uses of existing capabilities):$`)
	capLineRE = regexp.MustCompile(`^\s+CAPABILITY_(\w+):(\s|$)`)
	pathRE    = regexp.MustCompile(`^(?:(\S+:\d+:\d+))?\s+(\S.*)$`)
)

type pathStep struct {
	Name string `json:"name"`
	Site string `json:"site"`
}

type diffGroup struct {
	Items []string   `json:"items"`
	Cap   string     `json:"cap"`
	Path  []pathStep `json:"path"`
}

// diffOutput reads the output of the tool.
func diffOutput(r result) ev {
	groups := []*diffGroup{}
	newcaps, oldcaps := []string{}, []string{}
	nnew, nuses := 0, 0
	var g *diffGroup
	var list *[]string
	for _, line := range strings.Split(r.stdout, "\n") {
		if m := groupRE.FindStringSubmatch(line); m != nil {
			g = &diffGroup{strings.Split(m[1], ", "), m[2], []pathStep{}}
			groups = append(groups, g)
			list = nil
		} else if m := summaryRE.FindStringSubmatch(line); m != nil {
			n, _ := strconv.Atoi(m[1])
			g = nil
			if strings.HasPrefix(m[2], "cap") {
				nnew += n
				list = &newcaps
			} else {
				nuses += n
				list = &oldcaps
			}
		} else if strings.TrimSpace(line) == "" {
			g, list = nil, nil
		} else if g != nil {
			if m := pathRE.FindStringSubmatch(line); m != nil {
				g.Path = append(g.Path, pathStep{m[2], m[1]})
			} else {
				g.Path = append(g.Path, pathStep{line, "?"})
			}
		} else if list != nil {
			if m := capLineRE.FindStringSubmatch(line); m != nil {
				*list = append(*list, m[1])
			}
		}
	}
	return ev{"groups": groups, "newcaps": newcaps, "oldcaps": oldcaps, "nnew": nnew, "nuses": nuses, "status": r.status}
}

// -- obtaining the revisions ----------------------------------------------

type gitScenario struct {
	Repo struct {
		N       int   `json:"n"`
		Parent  []int `json:"parent"`
		Second  []int `json:"second"`
		Late    int   `json:"late"`
		MainWas int   `json:"mainwas"`
		Refs    []struct {
			Ref string `json:"ref"`
			At  int    `json:"at"`
		} `json:"refs"`
		Head struct {
			Kind   string `json:"kind"`
			Branch string `json:"branch"`
			At     int    `json:"at"`
		} `json:"head"`
	} `json:"repo"`
	Revs []struct {
		Base struct {
			Kind string `json:"kind"`
			Name string `json:"name"`
			At   int    `json:"at"`
		} `json:"base"`
		Steps []string `json:"steps"`
	} `json:"revs"`
	Cwd     string `json:"cwd"`
	Layout  string `json:"layout"`
	Dirty   string `json:"dirty"`
	Env     string `json:"env"`
	Tmp     string `json:"tmp"`
	Verbose bool   `json:"verbose"`
	Gran    string `json:"gran"`
	Caps    string `json:"caps"`
	Pkg     string `json:"pkg"`
	Usage   string `json:"usage"`
	Msgs    string `json:"msgs"`
	Still   []bool `json:"still"`
	Fault   fault  `json:"fault"`
}

func gitRun(args []string) error {
	fl := flag.NewFlagSet("gitrun", flag.ExitOnError)
	in := fl.String("in", "", "scenarios")
	out := fl.String("out", "", "trace")
	exe := fl.String("exe", "", "capslock-git-diff")
	dir := fl.String("dir", "", "scratch directory")
	fl.Parse(args)
	scs, err := readLines[gitScenario](*in)
	if err != nil {
		return err
	}
	raw, err := readLines[json.RawMessage](*in)
	if err != nil {
		return err
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	res := make([][]any, len(scs))
	if err := inParallel(len(scs), 8, func(i int) error {
		root := filepath.Join(*dir, strconv.Itoa(i))
		evs, err := scs[i].run(*exe, root)
		if err != nil {
			return fmt.Errorf("%w\n%s", err, raw[i])
		}
		res[i] = append([]any{ev{"e": "run", "sc": raw[i]}}, evs...)
		return os.RemoveAll(root)
	}); err != nil {
		return err
	}
	for _, evs := range res {
		for _, e := range evs {
			rec.event(e)
		}
	}
	return rec.close()
}

// dirs lists the directories that commit c has.
func (sc *gitScenario) dirs(c int) []string {
	d := []string{"", "sub", "sub/d e", " in/-x "}
	if c >= sc.Repo.Late {
		d = append(d, "late")
	}
	return d
}

// make creates the repository and returns the working directory.
func (sc *gitScenario) make(root string) (user, gitDir string, shas []string, err error) {
	user = filepath.Join(root, "user")
	switch sc.Layout {
	case "space":
		user = filepath.Join(root, "my user: -x")
	case "worktree":
		user = filepath.Join(root, "main")
	}
	if err = os.MkdirAll(user, 0o777); err != nil {
		return
	}
	git := func(args ...string) string {
		if err != nil {
			return ""
		}
		var s string
		s, err = gitIn(root, user, "", args...)
		return s
	}
	if sc.Layout == "separate" {
		git("init", "-q", "--separate-git-dir", filepath.Join(root, "gd "))
	} else {
		git("init", "-q")
	}
	var s strings.Builder
	for c := 1; c <= sc.Repo.N; c++ {
		msg, _ := sc.message(c)
		fmt.Fprintf(&s, "commit refs/verif/c%d\nmark :%d\ncommitter u <u@ex.test> %d +0000\ndata %d\n%s\n", c, c, 1700000000+c*1000, len(msg), msg)
		if p := sc.Repo.Parent[c-1]; p != 0 {
			fmt.Fprintf(&s, "from :%d\n", p)
		}
		if p := sc.Repo.Second[c-1]; p != 0 {
			fmt.Fprintf(&s, "merge :%d\n", p)
		}
		s.WriteString("deleteall\n")
		// Some commits change nothing.
		id := c
		for len(sc.Still) > 0 && sc.Still[id-1] && sc.Repo.Parent[id-1] != 0 {
			id = sc.Repo.Parent[id-1]
		}
		for _, d := range sc.dirs(id) {
			text := fmt.Sprintf("%d %s\n", id, d)
			fmt.Fprintf(&s, "M 100644 inline \"%s\"\ndata %d\n%s\n", filepath.Join(d, "id"), len(text), text)
		}
	}
	for _, r := range sc.Repo.Refs {
		if r.Ref == "FETCH_HEAD" {
			continue
		}
		if name, ok := strings.CutPrefix(r.Ref, "refs/tags/"); ok && strings.Contains(name, "annotated") {
			fmt.Fprintf(&s, "tag %s\nfrom :%d\ntagger u <u@ex.test> 1700900000 +0000\ndata 3\ntag\n", name, r.At)
		} else {
			fmt.Fprintf(&s, "reset %s\nfrom :%d\n\n", r.Ref, r.At)
		}
	}
	if err != nil {
		return
	}
	if _, err = gitIn(root, user, s.String(), "fast-import", "--quiet"); err != nil {
		return
	}
	shas = make([]string, sc.Repo.N+1)
	var drop strings.Builder
	for _, line := range strings.Split(git("for-each-ref", "--format=%(objectname) %(refname)", "refs/verif"), "\n") {
		sha, ref, _ := strings.Cut(line, " ")
		c, err := strconv.Atoi(strings.TrimPrefix(ref, "refs/verif/c"))
		if err != nil {
			return user, gitDir, shas, err
		}
		shas[c] = sha
		fmt.Fprintf(&drop, "delete %s\n", ref)
	}
	if _, err = gitIn(root, user, drop.String(), "update-ref", "--stdin"); err != nil {
		return
	}
	h := sc.Repo.Head
	if sc.Layout == "worktree" {
		// The main working tree stays on a commit of its own.
		git("checkout", "-q", "--detach", shas[1])
		user2 := filepath.Join(root, "user")
		if h.Kind == "branch" {
			git("worktree", "add", "-q", user2, h.Branch)
		} else {
			git("worktree", "add", "-q", "--detach", user2, shas[h.At])
		}
		user = user2
	} else if h.Kind == "branch" {
		git("symbolic-ref", "HEAD", "refs/heads/"+h.Branch)
		git("reset", "-q", "--hard")
	} else {
		git("checkout", "-q", "--detach", shas[h.At])
	}
	if sc.Layout == "packed" {
		git("pack-refs", "--all")
	}
	gitDir = git("rev-parse", "--absolute-git-dir")
	common := git("rev-parse", "--path-format=absolute", "--git-common-dir")
	if err != nil {
		return
	}
	for _, r := range sc.Repo.Refs {
		if r.Ref == "FETCH_HEAD" {
			err = writeFiles(gitDir, map[string]string{"FETCH_HEAD": shas[r.At] + "\t\tbranch 'main' of ../other\n"})
		}
		if r.Ref == "refs/heads/main" && sc.Repo.MainWas != 0 && err == nil {
			was := shas[sc.Repo.MainWas]
			err = writeFiles(common, map[string]string{"logs/refs/heads/main": fmt.Sprintf(
				"%040d %s u <u@ex.test> 1700000001 +0000\ta\n%s %s u <u@ex.test> 1700000002 +0000\tb\n", 0, was, was, shas[r.At])})
		}
	}
	if sc.Dirty != "no" && err == nil {
		at := h.At
		if h.Kind == "branch" {
			for _, r := range sc.Repo.Refs {
				if r.Ref == "refs/heads/"+h.Branch {
					at = r.At
				}
			}
		}
		for _, d := range sc.dirs(at) {
			if err == nil {
				err = writeFiles(user, map[string]string{filepath.Join(d, "id"): "99 " + d + "\n", filepath.Join(d, "untracked"): "x\n"})
			}
		}
		if sc.Dirty == "staged" {
			git("add", "--", ":(top)*id")
		}
	}
	return
}

// message returns the message of commit c and its subject.
func (sc *gitScenario) message(c int) (msg, subject string) {
	msg = fmt.Sprintf("commit %d here", c)
	switch sc.Msgs {
	case "format":
		msg += ` 100% %d %s \n`
	case "lines":
		return msg + "\nand more\n\nCommits between the two revisions:\n\n0000000 text\n", msg + " and more"
	case "blank":
		return "\n\n" + msg + "\n\n\n", msg
	case "gap":
		msg += " (...7 commits omitted...)"
	}
	return msg, msg
}

func (sc *gitScenario) run(exe, root string) ([]any, error) {
	evs, _, _, err := sc.runTool(exe, root)
	return evs, err
}

// runTool makes the repository and runs the tool in it.  It returns the
// events, the output and the hashes of the commits.
func (sc *gitScenario) runTool(exe, root string) ([]any, string, []string, error) {
	if err := stubDir(root, stubPlan{Fault: sc.Fault}); err != nil {
		return nil, "", nil, err
	}
	user, gitDir, shas, err := sc.make(root)
	if err != nil {
		return nil, "", nil, err
	}
	cwd := filepath.Join(user, sc.Cwd)
	tmp := filepath.Join(root, "tmp")
	if err := os.Mkdir(tmp, 0o777); err != nil {
		return nil, "", nil, err
	}
	use := tmp
	switch sc.Fault.Kind {
	case "temp-missing":
		use = filepath.Join(tmp, "missing")
	case "temp-file":
		use = filepath.Join(root, "file")
		if err := writeFiles(root, map[string]string{"file": "x"}); err != nil {
			return nil, "", nil, err
		}
	case "temp-relative":
		if use, err = filepath.Rel(cwd, tmp); err != nil {
			return nil, "", nil, err
		}
	}
	path := filepath.Join(root, "bin")
	env := gitEnv(root, stubVar+"="+filepath.Join(root, "stub"), "PATH="+path)
	if sc.Tmp == "tool" {
		env = append(env, "CAPSLOCKTOOLSTMPDIR="+use, "TMPDIR="+tmp)
	} else {
		env = append(env, "TMPDIR="+use)
	}
	switch sc.Env {
	case "dir":
		env = append(env, "GIT_DIR="+gitDir)
	case "reldir":
		env = append(env, "GIT_DIR=.git", "GIT_INDEX_FILE=.git/index")
	case "full":
		env = append(env, "GIT_DIR="+gitDir, "GIT_WORK_TREE="+user, "GIT_INDEX_FILE="+filepath.Join(gitDir, "index"), "GIT_PREFIX=")
	}
	var args []string
	if sc.Verbose {
		args = append(args, "-v=true")
	}
	if sc.Gran != "none" {
		args = append(args, "-granularity="+sc.Gran)
	}
	if sc.Caps != "none" {
		args = append(args, "-capabilities="+sc.Caps)
	}
	if sc.Usage == "flag" {
		args = append(args, "-nosuch")
	}
	for _, r := range sc.Revs {
		var s string
		switch r.Base.Kind {
		case "dot":
			s = "."
		case "sha":
			s = shas[r.Base.At]
		case "short":
			s = shas[r.Base.At][:9]
		case "message":
			s = fmt.Sprintf(":/commit %d here", r.Base.At)
		case "reflog":
			s = "main@{1}"
		default:
			s = r.Base.Name
		}
		for _, st := range r.Steps {
			if st == "2" {
				s += "^2"
			} else {
				s += "~"
			}
		}
		args = append(args, s)
		if sc.Usage == "one" {
			break
		}
	}
	if sc.Usage != "one" && (sc.Pkg != "none" || sc.Usage == "four") {
		args = append(args, sc.Pkg)
	}
	if sc.Usage == "four" {
		args = append(args, "x")
	}
	before, err := snapshot(root)
	if err != nil {
		return nil, "", nil, err
	}
	r, err := run(cwd, env, exe, args...)
	if err != nil {
		return nil, "", nil, err
	}
	if b, err := os.ReadFile(filepath.Join(root, "stub", "broken")); err == nil {
		return nil, "", nil, fmt.Errorf("stub: %s", b)
	}
	after, err := snapshot(root)
	if err != nil {
		return nil, "", nil, err
	}
	left, err := os.ReadDir(tmp)
	if err != nil {
		return nil, "", nil, err
	}
	var evs []any
	if _, err := os.Stat(filepath.Join(root, "stub", "events")); err == nil {
		lines, err := readLines[json.RawMessage](filepath.Join(root, "stub", "events"))
		if err != nil {
			return nil, "", nil, err
		}
		for _, l := range lines {
			evs = append(evs, l)
		}
	}
	return append(evs, ev{"e": "end", "status": r.status, "printed": strings.TrimSpace(r.stdout) != "",
		"left": len(left), "same": before == after, "args": args, "stderr": r.stderr}), r.stdout, shas, nil
}

// -- saying what is compared ----------------------------------------------

var (
	comparingRE = regexp.MustCompile(`^Comparing capabilities in (".*") between revisions (".*") and (".*")$`)
	commitRE    = regexp.MustCompile(`^([0-9a-f]{4,40}) (.*)$`)
	omittedRE   = regexp.MustCompile(`^\(\.\.\.(\d+) commits? omitted\.\.\.\)$`)
)

func commits(args []string) error {
	fl := flag.NewFlagSet("commits", flag.ExitOnError)
	in := fl.String("in", "", "scenarios")
	out := fl.String("out", "", "trace")
	exe := fl.String("exe", "", "capslock-git-diff")
	dir := fl.String("dir", "", "scratch directory")
	fl.Parse(args)
	scs, err := readLines[gitScenario](*in)
	if err != nil {
		return err
	}
	raw, err := readLines[json.RawMessage](*in)
	if err != nil {
		return err
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	res := make([]any, len(scs))
	if err := inParallel(len(scs), 8, func(i int) error {
		root := filepath.Join(*dir, strconv.Itoa(i))
		evs, stdout, shas, err := scs[i].runTool(*exe, root)
		if err != nil {
			return fmt.Errorf("%w\n%s", err, raw[i])
		}
		end := evs[len(evs)-1].(ev)
		given := []string{}
		for _, a := range end["args"].([]string) {
			if (len(given) > 0 || !strings.HasPrefix(a, "-")) && len(given) < 2 {
				given = append(given, a)
			}
		}
		e := scs[i].said(stdout, shas)
		e["e"], e["sc"], e["status"], e["given"] = "said", raw[i], end["status"], given
		res[i] = e
		return os.RemoveAll(root)
	}); err != nil {
		return err
	}
	for _, e := range res {
		rec.event(e)
	}
	return rec.close()
}

// said reads what the tool says before it lists capabilities.
func (sc *gitScenario) said(stdout string, shas []string) ev {
	packages, named, listing := "", []string{}, []int{}
	in := false
	for _, line := range strings.Split(stdout, "\n") {
		if m := comparingRE.FindStringSubmatch(line); m != nil {
			packages, _ = strconv.Unquote(m[1])
			for _, q := range m[2:] {
				s, _ := strconv.Unquote(q)
				named = append(named, s)
			}
		} else if line == "Commits between the two revisions:" {
			in = true
		} else if strings.TrimSpace(line) == "" {
			in = false
		} else if m := omittedRE.FindStringSubmatch(line); m != nil {
			n, _ := strconv.Atoi(m[1])
			listing = append(listing, -n)
		} else if m := commitRE.FindStringSubmatch(line); m != nil {
			at := 0
			for c := 1; c <= sc.Repo.N; c++ {
				if _, subject := sc.message(c); strings.HasPrefix(shas[c], m[1]) && subject == m[2] {
					at = c
				}
			}
			listing = append(listing, at)
		} else if in {
			listing = append(listing, 0)
		}
	}
	return ev{"packages": packages, "named": named, "listing": listing}
}

// snapshot summarises all files below root, except those of the stand-ins and
// temporary ones.
func snapshot(root string) (string, error) {
	h := sha256.New()
	err := filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if path == filepath.Join(root, "stub") || path == filepath.Join(root, "tmp") {
			return filepath.SkipDir
		}
		info, err := d.Info()
		if err != nil {
			return err
		}
		fmt.Fprintf(h, "%q %v\n", path, info.Mode())
		switch {
		case info.Mode().IsRegular():
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			fmt.Fprintf(h, "%x\n", sha256.Sum256(b))
		case info.Mode()&fs.ModeSymlink != 0:
			l, err := os.Readlink(path)
			if err != nil {
				return err
			}
			fmt.Fprintf(h, "%q\n", l)
		}
		return nil
	})
	return string(h.Sum(nil)), err
}
