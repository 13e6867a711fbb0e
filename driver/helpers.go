package main

import (
	"flag"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/packages"
)

func init() { commands["helpers"] = helpersMain }

// helperUser calls a helper.
type helperUser struct {
	Helper string            `json:"helper"`
	Place  string            `json:"place"`
	Form   string            `json:"form"`
	Arg    string            `json:"arg"`
	Fn     string            `json:"fn"`
	Imp    string            `json:"imp"`
	In     int               `json:"in"`
	Dep    bool              `json:"dep"`
	Caps   map[string]string `json:"caps"`
}

type helperProg struct {
	Users []*helperUser `json:"users"`

	path   string
	ids    map[string]int
	leaves map[string]string // capabilities of functions
}

// helperText collects the source for a user.
type helperText struct {
	p     *helperProg
	pkg   string // path of the package
	decls strings.Builder
	files map[string]string // other files
}

// userText is the source of one call.
type userText struct {
	*helperText
	i      int
	u      *helperUser
	pre    strings.Builder // statements before the call
	params []string        // of a function that contains the call
	args   []string
	tparam string
}

func (t *userText) id(prefix string) string { return fmt.Sprintf("%s%d", prefix, t.i) }
func (t *userText) decl(format string, args ...any) {
	fmt.Fprintf(&t.decls, format+"\n", args...)
}
func (t *userText) before(format string, args ...any) {
	fmt.Fprintf(&t.pre, format+"\n", args...)
}

// leaf returns a call of the function that has the capability of a part.
func (t *userText) leaf(part string) string {
	c := t.u.Caps[part]
	if c == "" {
		return ""
	}
	name := fmt.Sprintf("leaf%d%s", t.i, part)
	full := t.pkg + "." + name
	if _, ok := t.p.leaves[full]; !ok {
		t.p.leaves[full] = c
		t.decl("func %s() {}", name)
	}
	return name + "(); "
}

// qualifier returns the qualifier for names in package sort, sync or slices.
func (t *userText) qualifier(pkg string) string {
	switch t.u.Imp {
	case "alias":
		return map[string]string{"sort": "srt.", "sync": "sn.", "slices": "sl."}[pkg]
	case "dot":
		if pkg != "slices" { // has functions of the same names as sort
			return ""
		}
	}
	return pkg + "."
}

// function returns the function that is passed.
func (t *userText) function() string {
	var params, args, result, ret string
	switch t.u.Helper {
	case "Do", "OwnOnce", "OnceFunc":
	case "Slice", "SliceStable", "OwnSlice":
		params, args, result, ret = "i, j int", "i, j", "bool", "return i < j"
	case "SortFunc", "SortStableFunc":
		params, args, result, ret = "i, j int", "i, j", "int", "return i - j"
	case "Search":
		params, args, result, ret = "i int", "i", "bool", "return i > 1"
	case "OnceValue":
		result, ret = "int", "return 1"
	default:
		panic("no function for " + t.u.Helper)
	}
	sig := "(" + params + ") " + result
	body := " { " + t.leaf("fn") + ret + " }"
	f := t.id("f")
	if t.u.Fn != "flit" && t.u.Fn != "mval" && t.u.Fn != "ginst" {
		t.decl("func %s%s%s", f, sig, body)
	}
	switch t.u.Fn {
	case "flit":
		var b strings.Builder
		b.WriteString("func" + sig + " {\n" + t.leaf("fn") + "\n")
		for j, v := range t.p.Users {
			if v.In == t.i {
				b.WriteString("{\n" + t.p.statements(t.helperText, j+1, true) + "}\n")
			}
		}
		return b.String() + ret + "\n}"
	case "named":
		return f
	case "mval":
		t.decl("type %s struct{ n int }\nfunc (%s) fn%s%s", t.id("m"), t.id("m"), sig, body)
		t.before("var %s %s", t.id("mv"), t.id("m"))
		return t.id("mv") + ".fn"
	case "phi":
		t.decl("func %s%s { %s }", t.id("other"), sig, ret)
		t.before("%s := %s\nif yes { %s = %s }", t.id("phi"), f, t.id("phi"), t.id("other"))
		return t.id("phi")
	case "gvar":
		t.decl("var %s = %s", t.id("gv"), f)
		return t.id("gv")
	case "ffield":
		t.decl("type %s struct { n int; f func%s }", t.id("fs"), sig)
		t.before("%s := %s{1, %s}", t.id("fv"), t.id("fs"), f)
		return t.id("fv") + ".f"
	case "fparam":
		t.params = append(t.params, "cb func"+sig)
		t.args = append(t.args, f)
		return "cb"
	case "res":
		t.decl("func %s() func%s { %sreturn %s }", t.id("mkf"), sig, t.leaf("mk"), f)
		return t.id("mkf") + "()"
	case "ginst":
		t.decl("func %s[T any]%s%s", t.id("gf"), sig, body)
		return t.id("gf") + "[string]"
	case "fparen":
		return "(" + f + ")"
	case "fconv":
		return "(func" + sig + ")(" + f + ")"
	case "capt":
		t.before("%s := %s", t.id("capt"), f)
		call := t.id("capt") + "(" + args + ")"
		if result != "" {
			call = "return " + call
		}
		return "func" + sig + " { " + call + " }"
	case "falias":
		t.decl("type %s = func%s", t.id("fa"), sig)
		return t.id("fa") + "(" + f + ")"
	case "namedtype":
		t.decl("type %s func%s", t.id("nt"), sig)
		return t.id("nt") + "(" + f + ")"
	}
	panic("unknown function " + t.u.Fn)
}

// onceCall returns a call of Do.
func (t *userText) onceCall() string {
	fn := t.function()
	typ := t.qualifier("sync") + "Once"
	o := t.id("o")
	local := func(typ string) { t.before("var %s %s", o, typ) }
	pointer := false
	var x string
	switch t.u.Arg {
	case "global":
		t.decl("var %s %s", t.id("once"), typ)
		x = t.id("once")
	case "local":
		local(typ)
		x = o
	case "ptr":
		t.before("%s := new(%s)", o, typ)
		x, pointer = o, true
	case "field":
		local("struct { n int; once " + typ + " }")
		x = o + ".once"
	case "pfield":
		t.before("%s := new(struct { n int; once %s })", o, typ)
		x = o + ".once"
	case "paren":
		local(typ)
		x = "(" + o + ")"
	case "addr":
		local(typ)
		x, pointer = "(&"+o+")", true
	case "deref":
		t.before("%s := new(%s)", o, typ)
		x = "(*" + o + ")"
	case "elem":
		local("[3]" + typ)
		x = o + "[1]"
	case "alias":
		t.decl("type %s = %s", t.id("oa"), typ)
		local(t.id("oa"))
		x = o
	case "param":
		t.params = append(t.params, "po *"+typ)
		t.args = append(t.args, "new("+typ+")")
		x, pointer = "po", true
	case "embedded":
		t.decl("type %s struct { n int; %s }", t.id("em"), typ)
		local(t.id("em"))
		x = o
	case "call":
		t.decl("func %s() *%s { %sreturn new(%s) }", t.id("get"), typ, t.leaf("op"), typ)
		x, pointer = t.id("get")+"()", true
	case "idxcall":
		local("[3]" + typ)
		x = o + "[" + t.index() + "]"
	case "litcallrecv":
		x = "(&struct { n int; once " + typ + " }{n: " + t.index() + "}).once"
	case "iface":
		t.before("var %s interface{ Do(func()) } = new(%s)", o, typ)
		x = o
	default:
		panic("unknown receiver " + t.u.Arg)
	}
	switch t.u.Form {
	case "parenfun":
		return "(" + x + ".Do)(" + fn + ")"
	case "value":
		t.before("%s := %s.Do", t.id("do"), x)
		return t.id("do") + "(" + fn + ")"
	case "mexpr":
		if !pointer {
			x = "&" + x
		}
		return "(*" + typ + ").Do(" + x + ", " + fn + ")"
	}
	return x + ".Do(" + fn + ")"
}

// index returns a call of a function that returns an index.
func (t *userText) index() string {
	t.decl("func %s() int { %sreturn 1 }", t.id("idx"), t.leaf("op"))
	return t.id("idx") + "()"
}

func (t *userText) sliceCall(name string) string {
	fn := t.function()
	x, op := t.id("x"), t.leaf("op")
	get := func(typ, value string) string {
		t.decl("func %s() %s { %sreturn %s }", t.id("get"), typ, op, value)
		return t.id("get") + "()"
	}
	local := func(value string) string {
		t.before("%s := %s", x, value)
		return x
	}
	var e string
	switch t.u.Arg {
	case "ident":
		e = local("[]int{1, 2}")
	case "slice":
		e = local("[]int{1, 2}") + "[:1]"
	case "index":
		e = local("[][]int{{1}, {2}}") + "[1]"
	case "sfield":
		e = local("struct{ f []int }{}") + ".f"
	case "lit":
		e = "[]int{2, 1}"
	case "star":
		e = "*" + local("&[]int{1}")
	case "assert":
		e = local("any([]int{1})") + ".([]int)"
	case "mapindex":
		e = local(`map[string][]int{"a": {1}}`) + `["a"]`
	case "parenid":
		e = "(" + local("[]int{1}") + ")"
	case "recv":
		e = "<-" + local("make(chan []int, 1)")
	case "kvlit":
		e = "[]struct{ a int }{{a: 1}}"
	case "scall":
		e = get("[]int", "nil")
	case "sidxcall":
		e = local("[][]int{{1}, {2}}") + "[" + t.index() + "]"
	case "sconv":
		e = "any(" + local("[]int{1}") + ")"
	case "litcall":
		e = "[]int{1, " + t.index() + "}"
	case "kvcall":
		e = "[]struct{ a int }{{a: " + t.index() + "}}"
	case "slicecall":
		e = local("[]int{1, 2}") + "[:" + t.index() + "]"
	case "assertcall":
		e = get("any", "[]int{1}") + ".([]int)"
	case "starcall":
		e = "*" + get("*[]int", "&[]int{1}")
	case "slice3":
		e = local("[]int{1, 2}") + "[0:1:2]"
	case "addrlit":
		e = "*(&[]int{1})"
	case "keylit":
		e = "[]map[int]int{{1: 2}}"
	case "maxcall":
		e = local("[]int{1, 2}") + "[:1:" + t.index() + "]"
	case "lowcall":
		e = local("[]int{1, 2}") + "[" + t.index() + ":]"
	case "keycall":
		e = "[]map[int]int{{" + t.index() + ": 2}}"
	case "addrcall":
		e = "*(&[]int{" + t.index() + "})"
	case "bincall":
		e = local("[]int{1, 2}") + "[1-" + t.index() + ":]"
	case "arridxcall":
		e = local("[2][]int{{1}, {2}}") + "[(" + t.index() + ")]"
	case "fieldcall":
		e = get("struct{ f []int }", "struct{ f []int }{}") + ".f"
	default:
		panic("unknown collection " + t.u.Arg)
	}
	return t.form(t.qualifier("sort")+name) + "(" + e + ", " + fn + ")"
}

// form returns a way to name the function f.
func (t *userText) form(f string) string {
	switch t.u.Form {
	case "parenfun":
		return "(" + f + ")"
	case "value":
		t.before("%s := %s", t.id("fun"), f)
		return t.id("fun")
	}
	return f
}

const sortInterface = "interface { Len() int; Less(i, j int) bool; Swap(i, j int) }"

func (t *userText) sortCall(name string) string {
	typ := t.id("t")
	iface := t.qualifier("sort") + "Interface"
	if t.u.Helper == "Shadowed" {
		iface = t.id("if")
		t.decl("type %s %s", iface, sortInterface)
	}
	recv, value := typ, typ+"{1, 2}"
	under := "[]int"
	if t.u.Arg == "pptr" || t.u.Arg == "pprom" {
		recv, value, under = "*"+typ, "&"+typ+"{}", "struct{ n int }"
	}
	t.decl("type %s %s", typ, under)
	t.decl("func (%s) Len() int { %sreturn 2 }", recv, t.leaf("len"))
	t.decl("func (%s) Less(i, j int) bool { %sreturn i < j }", recv, t.leaf("less"))
	t.decl("func (%s) Swap(i, j int) { %s}", recv, t.leaf("swap"))
	x, op := t.id("x"), t.leaf("op")
	var e string
	switch t.u.Arg {
	case "value", "pptr":
		e = value
	case "var":
		t.before("%s := %s", x, value)
		e = x
	case "ivar":
		t.before("var %s %s = %s", x, iface, value)
		e = x
	case "phi":
		other := t.id("other")
		t.decl("type %s []int\nfunc (%s) Len() int { return 2 }\nfunc (%s) Less(i, j int) bool { return false }\nfunc (%s) Swap(i, j int) {}",
			other, other, other, other)
		t.before("var %s %s = %s\nif yes { %s = %s{} }", x, iface, value, x, other)
		e = x
	case "sparam":
		t.params = append(t.params, "px "+typ)
		t.args = append(t.args, value)
		e = "px"
	case "tparam":
		t.tparam = "[X " + iface + "]"
		t.params = append(t.params, "px X")
		t.args = append(t.args, value)
		e = "px"
	case "prom":
		t.decl("type %s struct { n int; %s }", t.id("pt"), typ)
		e = t.id("pt") + "{}"
	case "pprom":
		t.decl("type %s struct { n int; *%s }", t.id("pt"), typ)
		e = "&" + t.id("pt") + "{}"
	case "eiface":
		t.decl("type %s struct { n int; %s }", t.id("ei"), iface)
		e = t.id("ei") + "{1, " + value + "}"
	case "salias":
		t.decl("type %s = %s", t.id("sa"), typ)
		e = t.id("sa") + "{}"
	case "mkcall":
		t.decl("func %s() %s { %sreturn nil }", t.id("get"), typ, op)
		e = t.id("get") + "()"
	case "mklit":
		e = "func() " + typ + " { " + op + "return nil }()"
	case "conv":
		t.before("%s := []int{1}", x)
		e = typ + "(" + x + ")"
	case "tfield":
		t.before("%s := struct { n int; f %s }{}", x, typ)
		e = x + ".f"
	case "elemcall":
		e = "[]" + typ + "{nil, nil}[" + t.index() + "]"
	case "iassert":
		t.before("var %s any = %s", x, value)
		e = x + ".(" + iface + ")"
	case "reverse":
		e = t.qualifier("sort") + "Reverse(" + value + ")"
	default:
		panic("unknown collection " + t.u.Arg)
	}
	q := t.qualifier("sort")
	if t.u.Helper == "Shadowed" {
		t.decl("type %s struct{}\nfunc (%s) Sort(x any) { %s}", t.id("sh"), t.id("sh"), t.leaf("decoy"))
		t.before("sort := %s{}", t.id("sh"))
		q = "sort."
	}
	return t.form(q+name) + "(" + e + ")"
}

// place returns statements containing a call.
func (t *userText) place(call string) string {
	l := t.id("L")
	switch t.u.Place {
	case "top", "varlit", "method":
		return call
	case "block":
		return "{ " + call + " }"
	case "if":
		return "if yes { " + call + " }"
	case "else":
		return "if yes { } else { " + call + " }"
	case "for":
		return "for yes { " + call + " }"
	case "range":
		return "for range few { " + call + " }"
	case "switch":
		return "switch { case yes: " + call + " }"
	case "default":
		return "switch { case yes: default: " + call + " }"
	case "tswitch":
		return "switch anyv.(type) { case int: " + call + "; case bool: }"
	case "select":
		return "select { case <-ch: " + call + "; default: }"
	case "selectdef":
		return "select { case <-ch: default: " + call + " }"
	case "label":
		return "if yes { goto " + l + " }\n" + l + ": " + call
	case "labelblock":
		return l + ": for yes { " + call + "; break " + l + " }"
	case "closure":
		return "func() { " + call + " }()"
	case "closurevar":
		return t.id("cv") + " := func() { " + call + " }\n" + t.id("cv") + "()"
	case "deferlit":
		return "defer func() { " + call + " }()"
	case "golit":
		return "go func() { " + call + " }()"
	case "forpost":
		return "for ; yes; " + call + " { }"
	case "forinit":
		return "for " + call + "; yes; { }"
	case "ifinit":
		return "if " + call + "; yes { }"
	case "switchinit":
		return "switch " + call + "; { }"
	case "defer", "go":
		return t.u.Place + " " + call
	case "assign":
		return "_ = " + call
	case "cond":
		if t.u.Helper == "Search" {
			return "if " + call + " > 1 { yes = true }"
		}
		return "if " + call + " { yes = true }"
	case "arg":
		return "use(" + call + ")"
	}
	panic("unknown place " + t.u.Place)
}

// inner returns the call without the parentheses that a composite literal
// needs in the head of a statement.
func (t *userText) call() string {
	switch h := t.u.Helper; h {
	case "Do", "OwnOnce":
		return t.onceCall()
	case "Slice", "SliceStable":
		return t.sliceCall(h)
	case "OwnSlice":
		return t.sliceCall("Slice")
	case "Sort", "Stable", "IsSorted":
		return t.sortCall(h)
	case "OwnSort", "Shadowed":
		return t.sortCall("Sort")
	case "OnceFunc", "OnceValue":
		return t.qualifier("sync") + h + "(" + t.function() + ")()"
	case "SortFunc", "SortStableFunc":
		return t.qualifier("slices") + h + "([]int{1}, " + t.function() + ")"
	case "Search":
		return t.qualifier("sort") + "Search(3, " + t.function() + ")"
	}
	panic("unknown helper " + t.u.Helper)
}

// statements returns the statements of user i, and adds the declarations.
func (p *helperProg) statements(h *helperText, i int, nested bool) string {
	t := &userText{helperText: h, i: i, u: p.Users[i-1]}
	s := t.place(t.call())
	s = t.pre.String() + s + "\n"
	if t.params != nil {
		// Functions of the same type are confused with each other when called
		// as values, which is not of interest here.
		t.decl("type %s struct{}\nfunc %s%s(_ %s, %s) {\n%s}", t.id("only"), t.id("inner"), t.tparam, t.id("only"), strings.Join(t.params, ", "), s)
		return fmt.Sprintf("%s(%s{}, %s)\n", t.id("inner"), t.id("only"), strings.Join(t.args, ", "))
	}
	return s
}

// write writes the packages of the program below src.
func (p *helperProg) write(src, id string) error {
	p.path = "ex.test/" + id + "/m"
	p.ids = map[string]int{p.path + ".init": 0}
	p.leaves = map[string]string{}
	const common = "\n\nvar yes bool\nvar anyv any\nvar ch chan int\nvar few [2]int\n\nfunc use(x any) {}\n"
	files := map[string]string{"common.go": "package m" + common}
	depPath := "ex.test/" + id + "/n"
	depFiles := map[string]string{"common.go": "package n" + common}
	for k, u := range p.Users {
		if u.In != 0 {
			continue
		}
		i := k + 1
		h := &helperText{p: p, pkg: p.path}
		if u.Dep {
			h.pkg = depPath
		}
		body := p.statements(h, i, false)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", h.pkg[len(h.pkg)-1:])
		std := func(pkg, alias, use string) {
			q := pkg + "."
			name := ""
			switch {
			case u.Imp == "alias":
				name, q = alias, alias+"."
			case u.Imp == "dot" && pkg != "slices":
				name, q = ".", ""
			}
			fmt.Fprintf(&b, "import %s %q\n", name, pkg)
			h.decls.WriteString(strings.ReplaceAll(use, "@", q) + "\n")
		}
		dpath := fmt.Sprintf("ex.test/%s/d%d/", id, i)
		decoy := func(pkg, text string) error {
			fmt.Fprintf(&b, "import %q\n", dpath+pkg)
			leaf := ""
			if c := u.Caps["decoy"]; c != "" {
				p.leaves[dpath+pkg+".leaf"] = c
				leaf = "leaf()"
			}
			text = "package " + pkg + "\n\nfunc leaf() {}\n\n" + strings.ReplaceAll(text, "@", leaf)
			return writeFiles(filepath.Join(src, filepath.FromSlash(dpath+pkg)), map[string]string{"d.go": text})
		}
		var err error
		switch u.Helper {
		case "OwnOnce":
			err = decoy("sync", "type Once struct{ n int }\n\nfunc (*Once) Do(f func()) { @ }\n")
		case "OwnSort", "OwnSlice":
			err = decoy("sort", "type Interface "+sortInterface+"\n\nfunc Sort(x Interface) { @ }\nfunc Slice(x any, f func(i, j int) bool) { @ }\nfunc Reverse(x Interface) Interface { return x }\n")
			h.decls.WriteString("var _ sort.Interface\n")
		case "Shadowed":
		default:
			std("sort", "srt", "var _ @Interface")
			std("sync", "sn", "var _ @Mutex")
			std("slices", "sl", "var _ = @Max[[]int]")
		}
		if err != nil {
			return err
		}
		text := ""
		switch u.Place {
		case "varlit":
			text = "var _ = func() bool {\n" + body + "return true\n}()\n"
		case "method":
			text = fmt.Sprintf("type U%d struct{}\n\nfunc (U%d) M() {\n%s}\n", i, i, body)
			p.ids[fmt.Sprintf("(%s.U%d).M", p.path, i)] = i
		default:
			text = fmt.Sprintf("func U%d() {\n%s}\n", i, body)
			p.ids[fmt.Sprintf("%s.U%d", p.path, i)] = i
		}
		text = b.String() + h.decls.String() + text
		file := fmt.Sprintf("u%d.go", i)
		if u.Dep {
			depFiles[file] = text
			call := fmt.Sprintf("n.U%d()", i)
			if u.Place == "method" {
				call = fmt.Sprintf("n.U%d{}.M()", i)
				delete(p.ids, fmt.Sprintf("(%s.U%d).M", p.path, i))
				p.ids[fmt.Sprintf("%s.U%d", p.path, i)] = i
			}
			text = fmt.Sprintf("package m\n\nimport %q\n\nfunc U%d() { %s }\n", depPath, i, call)
		}
		files[file] = text
	}
	if err := writeFiles(filepath.Join(src, filepath.FromSlash(depPath)), depFiles); err != nil {
		return err
	}
	return writeFiles(filepath.Join(src, filepath.FromSlash(p.path)), files)
}

func helpersMain(args []string) error {
	fl := flag.NewFlagSet("helpers", flag.ExitOnError)
	in := fl.String("in", "", "scenarios")
	out := fl.String("out", "", "trace")
	dir := fl.String("dir", "", "scratch directory")
	fl.Parse(args)
	progs, err := readLines[helperProg](*in)
	if err != nil {
		return err
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	var paths []string
	for i := range progs {
		if err := progs[i].write(filepath.Join(*dir, "src"), fmt.Sprintf("s%d", i)); err != nil {
			return err
		}
		paths = append(paths, progs[i].path)
	}
	pkgs, err := loadGOPATH(*dir, paths)
	if err != nil {
		return err
	}
	for i := range progs {
		p := &progs[i]
		cls := scanClassifier{map[string]cpb.Capability{}}
		for name, c := range p.leaves {
			cls.cls[name] = capNumber(c)
		}
		one := []*packages.Package{pkgs[p.path]}
		var cil *cpb.CapabilityInfoList
		if problem := guarded(func() {
			cil = analyzer.GetCapabilityInfo(one, analyzer.GetQueriedPackages(one), &analyzer.Config{Classifier: cls, DisableBuiltin: true})
		}); problem != "" {
			return fmt.Errorf("analysis failed: %s", problem)
		}
		pairs := []ev{}
		for _, ci := range cil.CapabilityInfo {
			if u, ok := p.ids[ci.Path[0].GetName()]; ok {
				pairs = append(pairs, ev{"u": u, "c": capName(ci.GetCapability()), "dep": ci.GetDepPath()})
			}
		}
		sort.Slice(pairs, func(a, b int) bool { return fmt.Sprint(pairs[a]) < fmt.Sprint(pairs[b]) })
		rec.event(ev{"e": "prog", "users": p.Users})
		rec.event(ev{"e": "report", "pairs": pairs})
	}
	return rec.close()
}
