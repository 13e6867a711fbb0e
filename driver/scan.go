package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
)

func init() { commands["scan"] = scanMain }

type scanItem struct {
	What string   `json:"what"`
	To   string   `json:"to"`
	From string   `json:"from"`
	Ctx  string   `json:"ctx"`
	Root string   `json:"root"`
	Type string   `json:"type"`
	Path []string `json:"path"`
	How  string   `json:"how"`
}

type scanDecl struct {
	Kind  string     `json:"kind"`
	Pkg   int        `json:"pkg"`
	Par   int        `json:"par"`
	Use   string     `json:"use"`
	Cls   string     `json:"cls"`
	Items []scanItem `json:"items"`
	Sig   string     `json:"sig"` // of a function without a body

	params []string // names of parameters and their types, for items
	ptypes []string
	result [2]string // name and type of a result, for an item
	text   string    // name in the source
}

type scanProg struct {
	Pkgs    int         `json:"pkgs"`
	Decls   []*scanDecl `json:"decls"`
	Calls   []Call      `json:"calls"`
	Builtin bool        `json:"builtin"`
	Main    bool        `json:"main"` // package 1 is a program

	paths []string
	ids   map[string]int
	lits  map[int]int // number of literals written for each declaration; -k for package k
	names []string
	tmp   int
}

const scanPreamble = `
type NP *int
type AP = *int
type NU unsafe.Pointer
type AU = unsafe.Pointer
type NI uintptr
type AI = uintptr
type ST struct{ p unsafe.Pointer }

var (
	up  unsafe.Pointer
	nu  NU
	au  AU
	ui  uintptr
	ip  *int
	st  ST
	ups []unsafe.Pointer
	pup *unsafe.Pointer
	ch  chan any
	mm  map[any]int
	yes bool
	fup func() unsafe.Pointer
)

func mkp() unsafe.Pointer   { return up }
func use(x ...any) bool     { return yes }
func each(x any) func(func(int) bool) { return func(f func(int) bool) { f(1) } }
`

// The types that stores are made of.
var scanTypes = []struct{ name, text, def string }{
	{"V", "reflect.Value", ""},
	{"AV", "AV", "type AV = reflect.Value"},
	{"I", "int", ""},
	{"S", "S", "type S struct { N int; V reflect.Value }"},
	{"NS", "NS", "type NS S"},
	{"E", "E", "type E struct { reflect.Value; N int }"},
	{"SS", "SS", "type SS struct { N int; S S }"},
	{"A", "A", "type A [2]reflect.Value"},
	{"A1", "A1", "type A1 [1]reflect.Value"},
	{"AS", "AS", "type AS [2]S"},
	{"AA", "AA", "type AA [2]A"},
	{"SA", "SA", "type SA struct { A A; P *S; L []S; Q *A }"},
	{"G", "GT[reflect.Value]", "type GT[T any] struct { X T; N int }"},
	{"GI", "GT[int]", ""},
	{"R", "R", "type R struct { Next *R; V reflect.Value }"},
	{"SP", "SP", "type SP struct { P *reflect.Value; L []reflect.Value; N int }"},
	{"AP", "AP", "type AP [2]*reflect.Value"},
	{"X", "Value", "type Value struct { N int }"},
	{"B1", "B1", "type B1 struct { N int; M SS }"},
	{"B2", "B2", "type B2 struct { M B1; N int }"},
	{"B3", "B3", "type B3 [2]B2"},
	{"B4", "B4", "type B4 struct { N int; P *S; M B3 }"},
	{"B5", "B5", "type B5 struct { M B4; N int }"},
	{"W", "W", "type W struct { F1, F2 int; F3 *reflect.Value; F4 int; F5 []reflect.Value; F6, F7, F8 int; F9 reflect.Value; F0 int }"},
	{"PV", "*reflect.Value", ""},
	{"PS", "*S", ""},
	{"PA", "*A", ""},
	{"PR", "*R", ""},
	{"LV", "[]reflect.Value", ""},
	{"LS", "[]S", ""},
	{"MV", "map[int]reflect.Value", ""},
	{"CV", "chan reflect.Value", ""},
	{"FV", "func(reflect.Value)", ""},
	{"Any", "any", ""},
	{"T", "reflect.Type", ""},
	{"K", "reflect.Kind", ""},
}

// Types D1 to D16 are a tower of structs and arrays on top of B5.
func init() {
	below := "B5"
	for i := 1; i <= 16; i++ {
		d := fmt.Sprintf("D%d", i)
		def := fmt.Sprintf("type %s struct { N int; M %s }", d, below)
		if i%2 == 0 {
			def = fmt.Sprintf("type %s [2]%s", d, below)
		}
		scanTypes = append(scanTypes, struct{ name, text, def string }{d, d, def})
		below = d
	}
}

func scanType(t string) string {
	for _, s := range scanTypes {
		if s.name == t {
			return s.text
		}
	}
	panic("unknown type " + t)
}

func scanReflectPreamble() string {
	var b strings.Builder
	b.WriteString("\nvar yes bool\nvar anyv any\nvar up unsafe.Pointer\nfunc use(x ...any) bool { return yes }\nfunc gst[T any](p *T, x T) { *p = x }\n")
	for _, t := range scanTypes {
		fmt.Fprintf(&b, "%s\n", t.def)
		if strings.HasPrefix(t.def, "type "+t.name+" ") && !strings.Contains(t.def, "=") && t.name != "G" || t.name == "X" {
			fmt.Fprintf(&b, "func (*%s) pm() {}\n", t.text)
		}
		n, x := t.name, t.text
		fmt.Fprintf(&b, "var (\n\tg%s %s\n\th%s %s\n\tl%s []%s\n\tc%s chan %s\n\tm%s map[int]%s\n\tp%s *%s\n\tZ%s %s\n)\n", n, x, n, x, n, x, n, x, n, x, n, x, n, x)
		fmt.Fprintf(&b, "func f%s() %s { return g%s }\nfunc d%s() (%s, int) { return g%s, 1 }\nfunc v%s(x ...%s) {}\n", n, x, n, n, x, n, n, x)
	}
	return b.String()
}

func (sp *scanProg) reflect() bool {
	for _, d := range sp.Decls {
		for _, it := range d.Items {
			if it.What != "conv" {
				return true
			}
		}
	}
	return false
}

const genParams = "[T ~*int, Q ~unsafe.Pointer, U ~uintptr, M ~*int | ~uintptr, X ~unsafe.Pointer | ~uintptr]"

// convExpr returns the conversion of an item.
func (it *scanItem) convExpr(kind string) string {
	to := map[string]string{
		"ptr": "(*int)", "nptr": "NP", "aptr": "AP", "sptr": "(*struct{ a, b int })", "fptr": "(*func())", "arrptr": "(*[4]int)", "pptr": "(**int)",
		"uptr": "unsafe.Pointer", "nuptr": "NU", "auptr": "AU", "uintptr": "uintptr", "nuintptr": "NI", "auintptr": "AI",
		"tpptr": "T", "tpmix": "M", "tpuint": "U", "tpuptr": "Q",
	}[it.To]
	tp, tpx := "q", "*new(X)"
	if kind == "gmeth" {
		tp, tpx = "t.q", "t.xx"
	}
	from := map[string]string{
		"uptr": "up", "nuptr": "nu", "auptr": "au", "tp": tp, "tpx": tpx, "call": "mkp()", "conv": "unsafe.Pointer(ip)", "add": "unsafe.Add(up, 1)",
		"field": "st.p", "index": "ups[0]", "deref": "*pup", "closure": "fup()", "uintptr": "ui", "ptr": "ip", "nil": "nil",
	}[it.From]
	if to == "" || from == "" {
		panic("unknown conversion " + it.To + " " + it.From)
	}
	return to + "(" + from + ")"
}

// convText returns the statement of an item.  The literals of some contexts
// are numbered; they do nothing themselves.
func (it *scanItem) convText(d *scanDecl, n int) (text string, lits int) {
	x := it.convExpr(d.Kind)
	switch it.Ctx {
	case "stmt":
		return "_ = " + x, 0
	case "paren":
		return "_ = ((" + x + "))", 0
	case "arg":
		return "use(" + x + ")", 0
	case "var":
		return fmt.Sprintf("var y%d = %s\n_ = y%d", n, x, n), 0
	case "cond":
		return "if use(" + x + ") { yes = false }", 0
	case "forcond":
		return "for use(" + x + ") { break }", 0
	case "forpost":
		return "for ; yes; use(" + x + ") { }", 0
	case "switch":
		return "switch use(" + x + ") { case true: yes = true }", 0
	case "case":
		return "switch { case yes: case use(" + x + "): yes = true }", 0
	case "select":
		return "select { case ch <- " + x + ": default: }", 0
	case "defer":
		return "defer use(" + x + ")", 0
	case "go":
		return "go use(" + x + ")", 0
	case "lit":
		return "_ = []any{1, " + x + "}", 0
	case "mapkey":
		return "_ = map[any]int{" + x + ": 1}", 0
	case "index":
		return "_ = mm[" + x + "]", 0
	case "ret":
		if d.noReturn() {
			return "use(" + x + ")", 0
		}
		return "if yes { return " + x + " }", 0
	case "label":
		return fmt.Sprintf("L%d: for { _ = %s; break L%d }", n, x, n), 0
	case "dead":
		return "if false { _ = " + x + " }", 0
	case "sizeof":
		return "_ = unsafe.Sizeof(" + x + ")", 0
	case "range":
		return "for range []any{" + x + "} { yes = true }", 0
	case "send":
		return "ch <- " + x, 0
	case "ifinit":
		return fmt.Sprintf("if z%d := use(%s); z%d { yes = true }", n, x, n), 0
	case "block":
		return "{ { _ = " + x + " } }", 0
	case "rangefunc":
		return "use(each(" + x + "))", 0
	case "closurearg":
		return "func(any) { yes = true }(" + x + ")", 1
	}
	panic("unknown context " + it.Ctx)
}

// storeText returns the statements of an item.
func (it *scanItem) storeText(d *scanDecl, n int) (text string, lits int) {
	typ := scanType(it.Type)
	end, et := it.Type, ""
	path := ""
	root := fmt.Sprintf("x%d", n)
	var before, after []string
	switch it.Root {
	case "local", "addr", "addrpart", "captured", "sliced", "pmethod":
		if it.How != "define" && it.How != "vardecl" {
			before = append(before, fmt.Sprintf("var %s %s", root, typ))
		}
		after = append(after, "_ = "+root)
	case "result":
		if d.result[0] != root {
			before = append(before, fmt.Sprintf("var %s %s", root, typ))
			after = append(after, "_ = "+root)
		}
	case "param", "escparam":
	case "global":
		root = "h" + it.Type
	case "ptr":
		before = append(before, fmt.Sprintf("%s := &h%s", root, it.Type))
		root = "(*" + root + ")"
	case "ptrptr":
		before = append(before, fmt.Sprintf("%s := &p%s", root, it.Type))
		root = "(**" + root + ")"
	case "slice":
		root = "l" + it.Type + "[1]"
	case "ofarray":
		before = append(before, fmt.Sprintf("var y%s [2]%s; %s := y%s[:]", root, typ, root, root))
		root += "[1]"
	case "made":
		before = append(before, fmt.Sprintf("%s := make([]%s, 3)", root, typ))
		root += "[1]"
	case "fresh":
		before = append(before, fmt.Sprintf("%s := new(%s)", root, typ))
		root = "(*" + root + ")"
	case "mapptr":
		before = append(before, fmt.Sprintf("%s := map[int]*%s{0: &h%s}", root, typ, it.Type))
		root = "(*" + root + "[0])"
	case "outer":
		root = fmt.Sprintf("o%d", n)
	default:
		panic("unknown root " + it.Root)
	}
	lhs := root
	for _, s := range it.Path {
		switch s {
		case "[]":
			lhs += "[0]"
		case "*":
			lhs = "(*" + lhs + ")"
		default:
			lhs += "." + s
		}
		path += s
		end = scanStep(end, s)
	}
	et = scanType(end)
	switch it.Root {
	case "addr", "escparam":
		after = append(after, "use(&"+root+")")
	case "addrpart":
		after = append(after, "use(&"+lhs+")")
	case "captured":
		after = append(after, "_ = func() { use("+root+") }")
		lits++
	case "sliced":
		after = append(after, "use("+root+"[:])")
	case "pmethod":
		after = append(after, root+".pm()")
	}
	if it.Root == "addrpart" && scanLeaves(it.Type, it.Path) {
		after = append(after, "use(&"+root+")")
	}
	var s string
	switch it.How {
	case "assign":
		s = lhs + " = g" + end
	case "multi":
		s = lhs + ", _ = g" + end + ", 1"
	case "range":
		s = "for _, " + lhs + " = range l" + end + " { }"
	case "recv":
		s = lhs + " = <-c" + end
	case "commaok":
		s = lhs + ", _ = <-c" + end
	case "mapok":
		s = lhs + ", _ = m" + end + "[0]"
	case "assertok":
		s = lhs + ", _ = anyv.(" + et + ")"
	case "call":
		s = lhs + " = f" + end + "()"
	case "call2":
		s = lhs + ", _ = d" + end + "()"
	case "zero":
		s = lhs + " = " + et + "{}"
	case "select":
		s = "select { case " + lhs + " = <-c" + end + ": default: }"
	case "define":
		s = lhs + " := g" + end
	case "vardecl":
		s = "var " + lhs + " " + et + " = g" + end
	default:
		panic("unknown how " + it.How)
	}
	return strings.Join(append(append(before, s), after...), "\n"), lits
}

// scanStep returns the type of a part of a variable.
func scanStep(t, s string) string {
	if n, ok := strings.CutPrefix(t, "D"); ok {
		if s == "N" {
			return "I"
		}
		if n == "1" {
			return "B5"
		}
		return fmt.Sprintf("D%d", num(n)-1)
	}
	switch t + "." + s {
	case "S.N", "NS.N", "E.N", "SS.N", "G.N", "GI.N", "GI.X", "SP.N", "X.N", "B1.N", "B2.N", "B4.N", "B5.N", "W.F1", "W.F2", "W.F4", "W.F6", "W.F7", "W.F8", "W.F0":
		return "I"
	case "S.V", "NS.V", "E.Value", "A.[]", "A1.[]", "R.V", "PV.*", "LV.[]", "G.X", "W.F9":
		return "V"
	case "SS.S", "AS.[]", "PS.*", "LS.[]":
		return "S"
	case "AA.[]", "SA.A", "PA.*":
		return "A"
	case "B1.M":
		return "SS"
	case "B2.M":
		return "B1"
	case "B3.[]":
		return "B2"
	case "B4.M":
		return "B3"
	case "B5.M":
		return "B4"
	case "SA.P", "B4.P":
		return "PS"
	case "SA.L":
		return "LS"
	case "SA.Q":
		return "PA"
	case "R.Next":
		return "PR"
	case "PR.*":
		return "R"
	case "SP.P", "AP.[]", "W.F3":
		return "PV"
	case "SP.L", "W.F5":
		return "LV"
	}
	panic("no step " + t + "." + s)
}

func scanLeaves(t string, path []string) bool {
	for _, s := range path {
		if s == "*" || s == "[]" && strings.HasPrefix(t, "L") {
			return true
		}
		t = scanStep(t, s)
	}
	return false
}

// noReturn reports whether the function does not return a value of type any.
func (d *scanDecl) noReturn() bool { return d.Kind == "init" || d.result[0] != "" }

func (it *scanItem) useText(d *scanDecl) string {
	t := it.Type
	switch it.How {
	case "arg":
		return "use(g" + t + ")"
	case "ret":
		if d.noReturn() {
			return "_ = g" + t
		}
		return "if yes { return g" + t + " }"
	case "mapset":
		return "m" + t + "[0] = g" + t
	case "send":
		return "c" + t + " <- g" + t
	case "iface":
		return "anyv = g" + t
	case "new":
		return "use(new(" + scanType(t) + "))"
	case "load":
		return "_ = g" + t
	case "defer":
		return "defer use(g" + t + ")"
	case "go":
		return "go use(g" + t + ")"
	case "append":
		return "use(append(l" + t + ", g" + t + "))"
	case "slicelit":
		return "use([]" + scanType(t) + "{g" + t + "})"
	case "variadic":
		return "v" + t + "(g" + t + ")"
	case "gstore":
		return "gst(&h" + t + ", g" + t + ")"
	}
	panic("unknown use " + it.How)
}

// writeItems writes the items, literals and calls of a declaration.
func (sp *scanProg) writeItems(w *strings.Builder, i int) {
	d := sp.Decls[i-1]
	// Variables that literals in this one assign.
	for j, e := range sp.Decls {
		if e.Kind == "lit" && e.Par == i {
			for k, it := range e.Items {
				if it.Root == "outer" {
					fmt.Fprintf(w, "var o%d %s\n", 100*(j+1)+k, scanType(it.Type))
					if d.Kind != "var" {
						fmt.Fprintf(w, "_ = o%d\n", 100*(j+1)+k)
					}
				}
			}
		}
	}
	for k := range d.Items {
		it := &d.Items[k]
		n := 100*i + k
		var s string
		lits := 0
		switch it.What {
		case "conv":
			s, lits = it.convText(d, n)
		case "store":
			s, lits = it.storeText(d, n)
		default:
			s = it.useText(d)
		}
		sp.lits[i] += lits
		w.WriteString(s + "\n")
	}
	for j, e := range sp.Decls {
		if e.Kind == "lit" && e.Par == i {
			sp.lits[i]++
			sp.names[j+1] = fmt.Sprintf("%s$%d", sp.names[i], sp.lits[i])
			sp.writeLit(w, j+1)
		}
	}
	for _, c := range sp.Calls {
		if c.F == i {
			w.WriteString(sp.callText(c))
		}
	}
}

func (sp *scanProg) body(i int) string {
	var b strings.Builder
	sp.writeItems(&b, i)
	return b.String()
}

// writeLit writes a literal, inside its parent.
func (sp *scanProg) writeLit(w *strings.Builder, i int) {
	d := sp.Decls[i-1]
	body := sp.body(i)
	lit := "func" + d.signature() + " {\n" + body + d.end() + "}"
	args := "(" + d.args("") + ")"
	if sp.Decls[d.Par-1].Kind == "var" {
		sp.tmp++
		if d.Use == "kept" {
			fmt.Fprintf(w, "var W%d = %s\n", sp.tmp, lit)
		} else {
			fmt.Fprintf(w, "var W%d = use(%s%s)\n", sp.tmp, lit, args)
		}
		return
	}
	switch d.Use {
	case "called":
		w.WriteString(lit + args + "\n")
	case "var":
		fmt.Fprintf(w, "w%d := %s\nw%d%s\n", i, lit, i, args)
	case "defer":
		w.WriteString("defer " + lit + args + "\n")
	case "go":
		w.WriteString("go " + lit + args + "\n")
	case "kept":
		w.WriteString("_ = " + lit + "\n")
	default:
		panic("unknown use " + d.Use)
	}
}

// qualify returns a type as written in a package that calls the one with the
// type q.
func qualify(q, t string) string {
	text := scanType(t)
	if q != "" && strings.HasPrefix(text, "GT[") {
		return q + text
	} else if i := strings.LastIndexAny(text, "*]") + 1; q != "" && !strings.Contains(text, ".") && text != "any" && text != "int" {
		return text[:i] + q + text[i:]
	}
	return text
}

// Signatures of functions without a body.
var scanSigs = map[string]struct{ params, args, result string }{
	"none":     {"", "", ""},
	"two":      {"", "", " (any, error)"},
	"three":    {"x int", "1", " (a, b int, c any)"},
	"params":   {"x, y int, z string", `1, 2, ""`, " any"},
	"variadic": {"x string, y ...any", `"", 1, 2`, " any"},
}

func (d *scanDecl) args(q string) string {
	if s, ok := scanSigs[d.Sig]; ok {
		return s.args
	}
	var as []string
	for i, n := range d.params {
		if n == "q" {
			as = append(as, "up")
		} else {
			as = append(as, q+"Z"+d.ptypes[i])
		}
	}
	return strings.Join(as, ", ")
}

// types returns the types of the parameters and of the result.
func (d *scanDecl) types(q string) string {
	if s, ok := scanSigs[d.Sig]; ok {
		return "(" + s.params + ")" + s.result
	}
	var ts []string
	for i, n := range d.params {
		if n == "q" {
			ts = append(ts, "unsafe.Pointer")
		} else {
			ts = append(ts, qualify(q, d.ptypes[i]))
		}
	}
	res := "any"
	if d.result[0] != "" {
		res = qualify(q, d.result[1])
	}
	return "(" + strings.Join(ts, ", ") + ") " + res
}

func (d *scanDecl) signature() string {
	if s, ok := scanSigs[d.Sig]; ok {
		return "(" + s.params + ")" + s.result
	}
	var ps []string
	for i, n := range d.params {
		if n == "q" {
			ps = append(ps, "q Q")
		} else {
			ps = append(ps, n+" "+scanType(d.ptypes[i]))
		}
	}
	res := " any"
	if d.result[0] != "" {
		res = " (" + d.result[0] + " " + scanType(d.result[1]) + ")"
	}
	return "(" + strings.Join(ps, ", ") + ")" + res
}

func (d *scanDecl) end() string {
	switch {
	case d.result[0] != "":
		return "return\n"
	case d.Kind == "init":
		return ""
	}
	return "return nil\n"
}

// callText returns the statements of a call.
func (sp *scanProg) callText(c Call) string {
	f, g := sp.Decls[c.F-1], sp.Decls[c.G-1]
	q := ""
	if f.Pkg != g.Pkg {
		q = fmt.Sprintf("n%d.", g.Pkg)
	}
	var x, recv, typ string
	args := g.args(q)
	targs := "[*int, unsafe.Pointer, uintptr, *int, unsafe.Pointer]"
	switch g.Kind {
	case "func", "ufunc", "nobody", "nobodyu", "nobodylink":
		x = q + g.text
	case "gen":
		x = q + g.text + targs
	case "pmeth", "nobodypm":
		recv, typ = "(&"+q+g.text+"{})", "(*"+q+g.text+")"
	case "umeth":
		recv, typ = "(&"+g.text+"{})", "(*"+g.text+")"
	case "vmeth", "nobodyvm":
		recv, typ = q+g.text+"{}", q+g.text
	case "gmeth":
		recv = "(&" + q + g.text + targs + "{})"
	default:
		panic("cannot call " + g.Kind)
	}
	if x == "" {
		x = recv + ".M"
	}
	id := fmt.Sprintf("%d_%d", c.F, c.G)
	call := x + "(" + args + ")"
	if f.Kind == "var" {
		sp.tmp++
		return fmt.Sprintf("var W%d = use(%s)\n", sp.tmp, call)
	}
	switch c.Via {
	case "static":
		return call + "\n"
	case "defer", "go":
		return c.Via + " " + call + "\n"
	case "value":
		return fmt.Sprintf("r%s := %s\nif yes { r%s = nil }\nr%s(%s)\n", id, x, id, id, args)
	case "iface":
		return fmt.Sprintf("type I%s interface{ M%s }\nvar r%s I%s = %s\nr%s.M(%s)\n", id, g.types(q), id, id, recv, id, args)
	case "mexpr":
		return fmt.Sprintf("r%s := %s.M\nr%s(%s)\n", id, typ, id, strings.TrimSuffix(recv+", "+args, ", "))
	case "mval":
		return fmt.Sprintf("r%s := %s.M\nr%s(%s)\n", id, recv, id, args)
	case "prom":
		return fmt.Sprintf("type P%s struct { n int; %s%s }\nvar r%s P%s\nr%s.M(%s)\n", id, q, g.text, id, id, id, args)
	}
	panic("unknown via " + c.Via)
}

// write writes the packages of the program below src and names the functions.
func (sp *scanProg) write(src, id string) error {
	n := len(sp.Decls)
	sp.lits = map[int]int{}
	sp.ids = map[string]int{}
	sp.names = make([]string, n+1+sp.Pkgs)
	sp.paths = []string{""}
	for k := 1; k <= sp.Pkgs; k++ {
		sp.paths = append(sp.paths, fmt.Sprintf("ex.test/%s/p%d", id, k))
		sp.names[n+k] = sp.paths[k] + ".init"
	}
	inits := map[int]int{}
	for i, d := range sp.Decls {
		path := sp.paths[d.Pkg]
		switch d.Kind {
		case "func", "gen", "nobody", "nobodylink":
			d.text = fmt.Sprintf("F%d", i+1)
			sp.names[i+1] = path + "." + d.text
		case "ufunc", "nobodyu":
			d.text = fmt.Sprintf("f%d", i+1)
			sp.names[i+1] = path + "." + d.text
		case "pmeth", "nobodypm", "gmeth":
			d.text = fmt.Sprintf("T%d", i+1)
			sp.names[i+1] = "(*" + path + "." + d.text + ").M"
		case "umeth":
			d.text = fmt.Sprintf("t%d", i+1)
			sp.names[i+1] = "(*" + path + "." + d.text + ").M"
		case "vmeth", "nobodyvm":
			d.text = fmt.Sprintf("T%d", i+1)
			sp.names[i+1] = "(" + path + "." + d.text + ").M"
		case "init":
			inits[d.Pkg]++
			sp.names[i+1] = fmt.Sprintf("%s.init#%d", path, inits[d.Pkg])
		case "var", "blank", "lit":
		default:
			panic("unknown kind " + d.Kind)
		}
		if d.Kind == "var" {
			sp.names[i+1] = path + ".init"
		}
		if d.Kind == "gen" {
			d.params, d.ptypes = []string{"q"}, []string{""}
		}
	}
	// Parameters must be known before calls are written.
	for i, d := range sp.Decls {
		for k := range d.Items {
			name := fmt.Sprintf("x%d", 100*(i+1)+k)
			switch d.Items[k].Root {
			case "param", "escparam":
				d.params = append(d.params, name)
				d.ptypes = append(d.ptypes, d.Items[k].Type)
			case "result":
				if d.result[0] == "" {
					d.result = [2]string{name, d.Items[k].Type}
				}
			}
		}
	}
	refl := sp.reflect()
	for k := 1; k <= sp.Pkgs; k++ {
		files := map[string]string{"a.go": sp.header(k, refl), "b.go": sp.header(k, refl), "x.s": ""}
		files["a.go"] += "const Dummy = 1\n"
		if sp.Main && k == 1 {
			files["a.go"] += "func main() {}\n"
		}
		if refl {
			files["a.go"] += scanReflectPreamble()
		} else {
			files["a.go"] += scanPreamble
		}
		literals := 0 // in initialisers of variables
		for i, d := range sp.Decls {
			if d.Pkg == k && d.Kind != "lit" {
				// The order of the declarations is kept.
				name := "a.go"
				if 2*i > n {
					name = "b.go"
				}
				files[name] += sp.declText(i, &literals)
			}
		}
		if err := writeFiles(filepath.Join(src, filepath.FromSlash(sp.paths[k])), files); err != nil {
			return err
		}
	}
	for i, name := range sp.names {
		if i > 0 && name != "" && (i > n || sp.Decls[i-1].Kind != "var") {
			sp.ids[name] = i
		}
	}
	return nil
}

// header returns the start of a file of package k.
func (sp *scanProg) header(k int, refl bool) string {
	name := fmt.Sprintf("p%d", k)
	if sp.Main && k == 1 {
		name = "main"
	}
	text := "package " + name + "\n\nimport \"unsafe\"\n"
	use := "var _ unsafe.Pointer\n"
	if refl {
		text += "import \"reflect\"\n"
		use += "var _ reflect.Value\n"
	}
	for j := 2; k == 1 && j <= sp.Pkgs; j++ {
		text += fmt.Sprintf("import n%d %q\n", j, sp.paths[j])
		use += fmt.Sprintf("const _ = n%d.Dummy\n", j)
	}
	return text + use
}

// declText returns a declaration other than a literal.
func (sp *scanProg) declText(i int, literals *int) string {
	var b strings.Builder
	d := sp.Decls[i]
	switch d.Kind {
	case "var":
		// Literals of all initialisers are numbered together.
		sp.lits[i+1] = *literals
		for x := range d.Items {
			it := &d.Items[x]
			sp.tmp++
			switch {
			case it.What == "use":
				fmt.Fprintf(&b, "var W%d = g%s\n", sp.tmp, it.Type)
			case it.Ctx == "stmt":
				fmt.Fprintf(&b, "var _ = %s\n", it.convExpr(d.Kind))
			case it.Ctx == "var" || it.Ctx == "paren":
				fmt.Fprintf(&b, "var W%d = (%s)\n", sp.tmp, it.convExpr(d.Kind))
			default:
				fmt.Fprintf(&b, "var W%d = use(%s)\n", sp.tmp, it.convExpr(d.Kind))
			}
		}
		items := d.Items
		d.Items = nil
		b.WriteString(sp.body(i + 1))
		d.Items = items
		*literals = sp.lits[i+1]
		return b.String()
	case "nobody", "nobodyu":
		return fmt.Sprintf("func %s%s\n", d.text, d.signature())
	case "nobodylink":
		return fmt.Sprintf("//go:linkname %s ex.test/elsewhere.%s\nfunc %s%s\n", d.text, d.text, d.text, d.signature())
	case "nobodypm":
		return fmt.Sprintf("type %s struct{ x int }\nfunc (*%s) M%s\n", d.text, d.text, d.signature())
	case "nobodyvm":
		return fmt.Sprintf("type %s struct{ x int }\nfunc (%s) M%s\n", d.text, d.text, d.signature())
	}
	sig := d.signature()
	switch d.Kind {
	case "func", "ufunc":
		fmt.Fprintf(&b, "func %s%s {\n", d.text, sig)
	case "gen":
		fmt.Fprintf(&b, "func %s%s%s {\n", d.text, genParams, sig)
	case "pmeth", "umeth":
		fmt.Fprintf(&b, "type %s struct{ x int }\nfunc (t *%s) M%s {\n", d.text, d.text, sig)
	case "vmeth":
		fmt.Fprintf(&b, "type %s struct{ x int }\nfunc (t %s) M%s {\n", d.text, d.text, sig)
	case "gmeth":
		fmt.Fprintf(&b, "type %s%s struct{ q Q; xx X }\nfunc (t *%s[T, Q, U, M, X]) M%s {\n", d.text, genParams, d.text, sig)
	case "init":
		b.WriteString("func init() {\n")
	case "blank":
		fmt.Fprintf(&b, "func _%s {\n", sig)
	}
	b.WriteString(sp.body(i + 1))
	b.WriteString(d.end())
	b.WriteString("}\n")
	return b.String()
}

// scanClassifier classifies the functions of several programs.
type scanClassifier struct{ cls map[string]cpb.Capability }

func (c scanClassifier) FunctionCategory(pkg, name string) cpb.Capability {
	if name == pkg+".init" && !strings.HasPrefix(pkg, "ex.test/") {
		// What the initialisation of the standard library does is not of interest.
		return cpb.Capability_CAPABILITY_SAFE
	}
	return c.cls[stripTypeArgs(name)]
}
func (c scanClassifier) IncludeCall(edge *callgraph.Edge) bool { return true }

func scanMain(args []string) error {
	fl := flag.NewFlagSet("scan", flag.ExitOnError)
	in := fl.String("in", "", "scenarios")
	out := fl.String("out", "", "trace")
	dir := fl.String("dir", "", "scratch directory")
	fl.Parse(args)
	progs, err := readLines[scanProg](*in)
	if err != nil {
		return err
	}
	raw, err := readLines[json.RawMessage](*in)
	if err != nil {
		return err
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	cls := scanClassifier{map[string]cpb.Capability{}}
	var paths []string
	for i := range progs {
		if err := progs[i].write(filepath.Join(*dir, "src"), fmt.Sprintf("s%d", i)); err != nil {
			return err
		}
		paths = append(paths, progs[i].paths[1:]...)
		for name, j := range progs[i].ids {
			if j <= len(progs[i].Decls) && progs[i].Decls[j-1].Cls != "UNSPECIFIED" {
				cls.cls[name] = capNumber(progs[i].Decls[j-1].Cls)
			}
		}
	}
	pkgs, err := loadGOPATH(*dir, paths)
	if err != nil {
		return err
	}
	// Programs of both settings are analysed in one go each.
	pairs := make([][]ev, len(progs))
	for _, builtin := range []bool{true, false} {
		var some []*packages.Package
		owner := map[string]int{}
		for i := range progs {
			if progs[i].Builtin == builtin {
				for _, p := range progs[i].paths[1:] {
					some = append(some, pkgs[p])
					owner[p] = i
				}
			}
		}
		if len(some) == 0 {
			continue
		}
		var cil *cpb.CapabilityInfoList
		if problem := guarded(func() {
			cil = analyzer.GetCapabilityInfo(some, analyzer.GetQueriedPackages(some),
				&analyzer.Config{Classifier: cls, DisableBuiltin: !builtin, CapabilitySet: nil})
		}); problem != "" {
			return fmt.Errorf("analysis failed: %s", problem)
		}
		for _, ci := range cil.CapabilityInfo {
			i := owner[ci.GetPackageDir()]
			name := ci.Path[0].GetName()
			pairs[i] = append(pairs[i], ev{"f": progs[i].ids[stripTypeArgs(name)], "c": capName(ci.GetCapability()), "name": name})
		}
	}
	for i := range progs {
		rec.event(ev{"e": "prog", "sc": raw[i]})
		if pairs[i] == nil {
			pairs[i] = []ev{}
		}
		sort.Slice(pairs[i], func(a, b int) bool { return fmt.Sprint(pairs[i][a]) < fmt.Sprint(pairs[i][b]) })
		rec.event(ev{"e": "report", "pairs": pairs[i]})
	}
	return rec.close()
}
