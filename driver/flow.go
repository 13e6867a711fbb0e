package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/packages"
)

func init() { commands["flow"] = flowMain }

type flowSrc struct {
	S   string `json:"s"`
	I   int    `json:"i"`
	How string `json:"how"`
}

type flowStmt struct {
	Op  string  `json:"op"`
	Src flowSrc `json:"src"`
	Dst struct {
		D string `json:"d"`
		I int    `json:"i"`
	} `json:"dst"`
	G    int    `json:"g"`
	Keep bool   `json:"keep"`
	Via  string `json:"via"`
}

type flowFun struct {
	Kind  string     `json:"kind"`
	Param string     `json:"param"`
	Ret   string     `json:"ret"`
	Loc   string     `json:"loc"`
	Cap   string     `json:"cap"`
	Body  []flowStmt `json:"body"`
}

// flowProg is a program whose functions store and call functions.
type flowProg struct {
	Funs  []flowFun `json:"funs"`
	Cells []struct {
		Cls  string `json:"cls"`
		Kind string `json:"kind"`
	} `json:"cells"`

	path string
	ids  map[string]int
	run  bool               // the program is to be executed
	decl [2]strings.Builder // declarations of packages m and l
	done map[string]bool    // what has been declared
}

// Types of the values of each class.
var flowType = map[string]string{"func": "func()", "iface": "l.I"}

func (p *flowProg) pkg(f int) int {
	if p.Funs[f-1].Kind == "there" {
		return 1
	}
	return 0
}

// once declares something in the package of function f.  In the text, @ is
// the number of the function and $ is an expression for it.
func (p *flowProg) once(f int, text string) {
	text = strings.ReplaceAll(text, "@", fmt.Sprint(f))
	k := p.pkg(f)
	fun := p.callee(f)
	if k == 1 {
		fun = strings.TrimPrefix(fun, "l.")
		text = strings.ReplaceAll(text, "l.I", "I")
	}
	text = strings.ReplaceAll(text, "$", fun)
	if !p.done[text] {
		p.done[text] = true
		p.decl[k].WriteString(text + "\n")
	}
}

// callee returns an expression for function f.
func (p *flowProg) callee(f int) string {
	switch p.Funs[f-1].Kind {
	case "there":
		return fmt.Sprintf("l.F%d", f)
	case "method":
		return fmt.Sprintf("R%d(0).F", f)
	case "pmethod":
		return fmt.Sprintf("new(R%d).F", f)
	case "generic":
		return fmt.Sprintf("F%d[int]", f)
	}
	return fmt.Sprintf("F%d", f)
}

// function returns an expression for a value that runs f, and its class.
func (p *flowProg) function(f int, how string) (string, string) {
	q := ""
	if p.pkg(f) == 1 {
		q = "l."
	}
	x := func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, "@", fmt.Sprint(f)), "%", q) }
	valueType := func() { p.once(f, "type T@ int\n\nfunc (T@) M() { $() }") }
	ptrType := func() { p.once(f, "type P@ struct{ n int }\n\nfunc (p *P@) M() { $() }") }
	embType := func() { valueType(); p.once(f, "type E@ struct { n int; T@ }") }
	switch how {
	case "name":
		return p.callee(f), "func"
	case "lit":
		return "func() { " + p.callee(f) + "() }", "func"
	case "mval":
		valueType()
		return x("%T@(0).M"), "func"
	case "pmval":
		ptrType()
		return x("new(%P@).M"), "func"
	case "mexpr":
		valueType()
		return x("func() { e := %T@.M; e(1) }"), "func"
	case "emb":
		embType()
		return x("(%E@{}).M"), "func"
	case "ginst":
		p.once(f, "func Gen@[T any]() { $() }")
		return x("%Gen@[string]"), "func"
	case "gmeth":
		p.once(f, "type G@[T any] struct{ x T }\n\nfunc (g *G@[T]) M() { $() }")
		return x("new(%G@[int]).M"), "func"
	case "ival":
		valueType()
		return x("l.I(%T@(0)).M"), "func"
	case "clos":
		return "func() func() { v := " + p.callee(f) + "; return func() { v() } }()", "func"
	case "res":
		p.once(f, "func Get@() (func(), error) { return $, nil }")
		return x("func() func() { v, _ := %Get@(); return v }()"), "func"
	case "gval": // see known_findings.txt
		p.once(f, "type G@[T any] struct{ x T }\n\nfunc (g *G@[T]) M() { $() }")
		return x("l.I(new(%G@[int]))"), "iface"
	case "val":
		valueType()
		return x("l.I(%T@(0))"), "iface"
	case "ptr":
		ptrType()
		return x("l.I(new(%P@))"), "iface"
	case "embv":
		embType()
		return x("l.I(%E@{})"), "iface"
	case "embp":
		ptrType()
		p.once(f, "type EP@ struct { N int; *P@ }")
		return x("l.I(&%EP@{1, nil})"), "iface"
	case "embi":
		valueType()
		return x("l.I(l.EI{1, %T@(0)})"), "iface"
	case "adapt":
		return "l.I(l.Fn(" + p.callee(f) + "))", "iface"
	case "anon":
		valueType()
		return x("l.I(struct{ %T@ }{})"), "iface"
	case "deep":
		embType()
		p.once(f, "type D@ struct { N int; *E@ }")
		return x("l.I(%D@{1, new(%E@)})"), "iface"
	}
	panic("unknown value " + how)
}

// conv converts an expression of class from to class to.
func conv(e, from, to string) string {
	switch {
	case from == to:
		return e
	case to == "iface":
		return "l.I(l.Fn(" + e + "))"
	}
	return e + ".M"
}

// cell declares cell i.
func (p *flowProg) cell(i int) {
	c := p.Cells[i-1]
	text := map[string]string{
		"var":       "var c@ TT",
		"field":     "var c@ struct { n int; f TT }",
		"pfield":    "type S@ struct { n int; f TT }\n\nvar c@ = &S@{}",
		"elem":      "var c@ = make([]TT, 2)",
		"app":       "var c@ []TT",
		"arr":       "var c@ [2]TT",
		"map":       "var c@ = map[string]TT{}",
		"mapstruct": "var c@ = map[int]struct{ f TT }{}",
		"chan":      "var c@ = make(chan TT, 1)",
		"ptr":       "var c@ = new(TT)",
		"capt":      "var set@, get@ = func() (func(TT), func() TT) { var c TT; return func(x TT) { c = x }, func() TT { return c } }()",
		"gbox":      "var c@ = l.NewBox[TT]()",
		"any":       "var c@ any",
		"setter":    "type H@ struct{ f TT }\n\nfunc (h *H@) Set(x TT) { h.f = x }\nfunc (h *H@) Get() TT { return h.f }\n\nvar c@ H@",
		"iset":      "type H@ struct{ f TT }\n\nfunc (h *H@) Set(x TT) { h.f = x }\nfunc (h *H@) Get() TT { return h.f }\n\nvar c@ interface { Set(TT); Get() TT } = new(H@)",
		"nest":      "var c@ struct{ xs []struct{ f [1]TT } }",
		"emb":       "type In@ struct { n int; F TT }\n\nvar c@ struct { *In@ }",
		"gfun":      "var c@ TT",
		"local":     "func put@(x TT) {\n\tvar c TT\n\tp := &c\n\t*p = x\n\tv@ = p\n}\n\nvar v@ *TT",
	}[c.Kind]
	if text == "" {
		panic("unknown cell " + c.Kind)
	}
	p.decl[0].WriteString(p.cellText(i, text) + "\n")
}

// cellText fills in the name and type of a cell.
func (p *flowProg) cellText(i int, s string) string {
	s = strings.ReplaceAll(s, "@", fmt.Sprint(i))
	return strings.ReplaceAll(s, "TT", flowType[p.Cells[i-1].Cls])
}

func (p *flowProg) store(i int, v string) string {
	s := map[string]string{
		"var": "c@ = V", "field": "c@.f = V", "pfield": "c@.f = V", "elem": "c@[1] = V", "app": "c@ = append(c@, V)", "arr": "c@[1] = V",
		"map": `c@["a"] = V`, "mapstruct": "c@[1] = struct{ f TT }{V}",
		"chan": "select { case c@ <- V: default: }", "ptr": "*c@ = V", "capt": "set@(V)", "gbox": "c@.Put(V)", "any": "c@ = (TT)(V)",
		"setter": "c@.Set(V)", "iset": "c@.Set(V)", "nest": "c@.xs = append(c@.xs, struct{ f [1]TT }{[1]TT{V}})",
		"emb": "c@.In@ = &In@{1, V}", "gfun": "l.Put(&c@, V)", "local": "put@(V)",
	}[p.Cells[i-1].Kind]
	if s == "" {
		panic("no store")
	}
	return strings.ReplaceAll(p.cellText(i, s), "V", v)
}

// load returns statements that set v to the content of cell i, and an
// expression for it if there is one.
func (p *flowProg) load(i int, how string) (stmts, expr string) {
	k := p.Cells[i-1].Kind
	expr = map[string]string{
		"var": "c@", "field": "c@.f", "pfield": "c@.f", "elem": "c@[1]", "arr": "c@[1]", "map": `c@["a"]`, "mapstruct": "c@[1].f",
		"ptr": "*c@", "capt": "get@()", "gbox": "c@.Get()", "setter": "c@.Get()", "iset": "c@.Get()", "gfun": "l.Get(&c@)",
	}[k]
	if expr == "*c@" {
		expr = "(*c@)"
	}
	alt := map[string]string{
		"app": "for _, v = range c@ { }", "elem": "for _, v = range c@ { }", "arr": "for i := range c@ { v = c@[i] }",
		"map": `if w, ok := c@["a"]; ok { v = w }`, "mapstruct": "for _, w := range c@ { v = w.f }", "chan": "select { case v = <-c@: default: }",
		"any": "v, _ = c@.(TT)", "nest": "for _, w := range c@.xs { v = w.f[0] }", "emb": "if c@.In@ != nil { v = c@.F }",
		"local": "if v@ != nil { v = *v@ }", "var": "q := &c@; v = *q", "field": "w := c@; v = w.f", "pfield": "w := *c@; v = w.f",
		"ptr": "q := c@; v = *q", "setter": "g := c@.Get; v = g()", "iset": "g := c@.Get; v = g()", "gbox": "g := c@.Get; v = g()",
		"gfun": "l.Copy(&v, &c@)", "capt": "func() { v = get@() }()",
	}[k]
	if how == "alt" {
		switch k {
		case "any":
			alt = "switch w := c@.(type) { case TT: v = w }"
		case "chan":
			alt = "for len(c@) > 0 { v = <-c@ }"
		case "app":
			alt = "if len(c@) > 0 { v = c@[len(c@)-1] }"
		case "nest":
			alt = "if n := len(c@.xs); n > 0 { w := &c@.xs[n-1].f; v = w[0] }"
		}
	}
	if expr != "" {
		expr = p.cellText(i, expr)
	}
	switch {
	case expr == "" || how == "alt":
		return p.cellText(i, alt), ""
	case how == "tmp":
		return "v = " + expr, ""
	}
	return "", expr
}

// use returns a statement that uses the value of a source of function f.
func (p *flowProg) value(f int, s flowSrc, use func(e, cls string) string) string {
	var e, cls string
	switch s.S {
	case "fun":
		e, cls = p.function(s.I, s.How)
		return use(e, cls)
	case "local":
		e, cls = "loc", p.Funs[f-1].Loc
	case "param":
		e, cls = "par", p.Funs[f-1].Param
	case "cell":
		cls = p.Cells[s.I-1].Cls
		var pre string
		pre, e = p.load(s.I, s.How)
		if e == "" {
			return "var v " + flowType[cls] + "\n" + pre + "\nif v != nil { " + use("v", cls) + " }"
		}
	}
	return "if " + e + " != nil { " + use(e, cls) + " }"
}

// goes starts a goroutine; when the program is executed, it is run at once.
func (p *flowProg) goes() string {
	if p.run {
		return ""
	}
	return "go "
}

func (p *flowProg) call(e, cls, via string) string {
	if cls == "func" {
		switch via {
		case "defer":
			return "defer " + e + "()"
		case "go":
			return p.goes() + e + "()"
		case "deferlit":
			return "defer func(g func()) { g() }(" + e + ")"
		case "golit":
			return "g := " + e + "; " + p.goes() + "func() { g() }()"
		case "helper":
			return "l.Call(" + e + ")"
		case "ghelper":
			return "l.GCall(" + e + ")"
		case "rangef":
			return "for range func(yield func() bool) { if yield() { (" + e + ")() } } { }"
		case "vari":
			return "l.CallAll(" + e + ", func() {})"
		case "opts":
			return "(&l.Op{F: " + e + "}).Do()"
		case "tmp":
			return "g := " + e + "; g()"
		case "iife":
			return "func(g func()) { g() }(" + e + ")"
		case "chain":
			return "func() func() { return " + e + " }()()"
		case "sw":
			return "switch g := any(" + e + ").(type) { case func(): g() }"
		case "assert":
			return "g, _ := any(" + e + ").(func()); g()"
		case "other":
			return "l.Fn(" + e + ").M()"
		}
		return "(" + e + ")()"
	}
	switch via {
	case "defer":
		return "defer " + e + ".M()"
	case "go":
		return p.goes() + e + ".M()"
	case "deferlit":
		return "defer func() { " + e + ".M() }()"
	case "golit":
		return "g := " + e + "; " + p.goes() + "func() { g.M() }()"
	case "helper":
		return "l.CallI(" + e + ")"
	case "ghelper":
		return "l.GCallI(" + e + ")"
	case "rangef":
		return "for range func(yield func() bool) { if yield() { " + e + ".M() } } { }"
	case "vari":
		return "l.CallAllI(" + e + ", " + e + ")"
	case "opts":
		return "(&l.OpI{I: " + e + "}).Do()"
	case "tmp":
		return "g := " + e + ".M; g()"
	case "iife":
		return "func(g interface{ M() }) { g.M() }(" + e + ")"
	case "chain":
		return "l.I.M(" + e + ")"
	case "sw":
		return "switch g := any(" + e + ").(type) { case l.I: g.M() }"
	case "assert":
		return "any(" + e + ").(interface{ M() }).M()"
	case "other":
		return "(&l.EI{1, " + e + "}).M()"
	}
	return e + ".M()"
}

// pass returns an expression or statement calling g with argument e.
func (p *flowProg) pass(g int, e, via string) string {
	f := p.Funs[g-1]
	param, arg, ret, back := "", "", "", ""
	if f.Param != "none" {
		param, arg = "x "+flowType[f.Param], "x"
	}
	if f.Ret != "none" {
		ret, back = " "+flowType[f.Ret], "return "
	}
	c := p.callee(g)
	method := func() {
		p.once(g, fmt.Sprintf("type K@ int\n\nfunc (K@) Run(%s)%s { %s$(%s) }", param, ret, back, arg))
	}
	n := fmt.Sprint(g)
	switch via {
	case "defer":
		return "defer " + c + "(" + e + ")"
	case "go":
		return p.goes() + c + "(" + e + ")"
	case "fvar":
		return "func() func(" + param + ")" + ret + " { return " + c + " }()(" + e + ")"
	case "iface":
		method()
		return "(interface { Run(" + param + ")" + ret + " }(K" + n + "(0))).Run(" + e + ")"
	case "lit":
		return "func(" + param + ")" + ret + " { " + back + c + "(" + arg + ") }(" + e + ")"
	case "mexpr":
		method()
		if e == "" {
			return "K" + n + ".Run(1)"
		}
		return "K" + n + ".Run(1, " + e + ")"
	case "mval":
		method()
		return "func(g func(" + param + ")" + ret + ")" + ret + " { " + back + "g(" + e + ") }(K" + n + "(1).Run)"
	case "vari":
		if f.Param == "none" {
			break
		}
		if f.Ret != "none" {
			p.once(g, fmt.Sprintf("func vari@(xs ...%s) (r%s) { for _, x := range xs { r = $(x) }; return }", flowType[f.Param], ret))
		} else {
			p.once(g, fmt.Sprintf("func vari@(xs ...%s) { for _, x := range xs { $(x) } }", flowType[f.Param]))
		}
		return "vari" + n + "(" + e + ")"
	case "gen":
		if f.Param == "none" {
			p.once(g, fmt.Sprintf("func gen@[X any]()%s { %s$() }", ret, back))
			return "gen" + n + "[string]()"
		}
		p.once(g, fmt.Sprintf("func gen@[X %s](x X)%s { %s$(x) }", map[string]string{"func": "~func()", "iface": "l.I"}[f.Param], ret, back))
		return "gen" + n + "(" + e + ")"
	case "opts":
		if f.Param == "none" {
			break
		}
		p.once(g, fmt.Sprintf("type Opt@ struct { n int; x %s }\n\nfunc opt@(o *Opt@)%s { %s$(o.x) }", flowType[f.Param], ret, back))
		return "opt" + n + "(&Opt" + n + "{1, " + e + "})"
	}
	return c + "(" + e + ")"
}

func (p *flowProg) stmt(f int, s flowStmt) string {
	fn := p.Funs[f-1]
	switch s.Op {
	case "set":
		return p.value(f, s.Src, func(e, cls string) string {
			switch s.Dst.D {
			case "cell":
				return p.store(s.Dst.I, conv(e, cls, p.Cells[s.Dst.I-1].Cls))
			case "local":
				return "loc = " + conv(e, cls, fn.Loc)
			}
			return "ret = " + conv(e, cls, fn.Ret)
		})
	case "call":
		return p.value(f, s.Src, func(e, cls string) string { return p.call(e, cls, s.Via) })
	}
	g := p.Funs[s.G-1]
	done := func(call string) string {
		if !s.Keep {
			return call
		}
		return "if r := " + call + "; r != nil { loc = " + conv("r", g.Ret, fn.Loc) + " }"
	}
	if s.Src.S == "nil" {
		return done(p.pass(s.G, "", s.Via))
	}
	return p.value(f, s.Src, func(e, cls string) string { return done(p.pass(s.G, conv(e, cls, g.Param), s.Via)) })
}

const flowLib = `
type I interface{ M() }

type Fn func()

func (f Fn) M() { f() }

type EI struct {
	N int
	I
}

type Op struct{ F func() }

func (o *Op) Do() { o.F() }

type OpI struct{ I I }

func (o *OpI) Do() { o.I.M() }

type Box[T any] struct{ x T }

func NewBox[T any]() *Box[T]    { return &Box[T]{} }
func (b *Box[T]) Put(x T)       { b.x = x }
func (b *Box[T]) Get() T        { return b.x }
func Put[T any](p *T, x T)      { *p = x }
func Get[T any](p *T) T         { return *p }
func Copy[T any](p, q *T)       { *p = *q }
func Call(f func())             { f() }
func GCall[T ~func()](f T)      { f() }
func CallAll(fs ...func())      { for _, f := range fs { f() } }
func CallI(x I)                 { x.M() }
func GCallI[T I](x T)           { x.M() }
func CallAllI(xs ...I)          { for _, x := range xs { x.M() } }
`

// write writes the packages of the program below src.
func (p *flowProg) write(src, id string) error {
	p.path = "ex.test/" + id
	p.ids = map[string]int{}
	p.done = map[string]bool{}
	p.decl = [2]strings.Builder{}
	rt := ""
	if p.run {
		rt = "import \"ex.test/rt\"\n"
	}
	for i := range p.Cells {
		p.cell(i + 1)
	}
	for i, f := range p.Funs {
		n := i + 1
		b := &p.decl[p.pkg(n)]
		sig := "("
		if f.Param != "none" {
			sig += "par " + flowType[f.Param]
		}
		sig += ") "
		if f.Ret != "none" {
			sig += "(ret " + flowType[f.Ret] + ") "
		}
		var text strings.Builder
		name := fmt.Sprintf("%s/m.F%d", p.path, n)
		switch f.Kind {
		case "method":
			fmt.Fprintf(&text, "type R%d int\n\nfunc (R%d) F%s{\n", n, n, sig)
			name = fmt.Sprintf("(%s/m.R%d).F", p.path, n)
		case "pmethod":
			fmt.Fprintf(&text, "type R%d struct{ n int }\n\nfunc (r *R%d) F%s{\n", n, n, sig)
			name = fmt.Sprintf("(*%s/m.R%d).F", p.path, n)
		case "generic":
			fmt.Fprintf(&text, "func F%d[T any]%s{\n", n, sig)
		case "there":
			name = fmt.Sprintf("%s/l.F%d", p.path, n)
			fallthrough
		default:
			fmt.Fprintf(&text, "func F%d%s{\n", n, sig)
		}
		p.ids[name] = n
		if p.run {
			fmt.Fprintf(&text, "defer rt.Enter(%d, %v)()\nif !rt.Ok() { return }\n", n, f.Cap != "")
		}
		if f.Cap == "" {
			fmt.Fprintf(&text, "var loc %s\n_ = loc\n", flowType[f.Loc])
		}
		for _, s := range f.Body {
			yes := "yes"
			if p.run {
				yes = "rt.Yes()"
			}
			fmt.Fprintf(&text, "if %s {\n%s\n}\n", yes, p.stmt(n, s))
		}
		text.WriteString("return\n}\n\n")
		b.WriteString(text.String())
	}
	if p.run {
		p.decl[0].WriteString("var Roots = []func(){\n")
		for i, f := range p.Funs {
			if f.Cap == "" {
				arg := ""
				if f.Param != "none" {
					arg = "nil"
				}
				fmt.Fprintf(&p.decl[0], "func() { %s(%s) },\n", p.callee(i+1), arg)
			}
		}
		p.decl[0].WriteString("}\n")
	}
	m := fmt.Sprintf("package m\n\nimport %q\n%s\nvar yes bool\nvar _ l.I\n\n%s", p.path+"/l", rt, p.decl[0].String())
	l := "package l\n\n" + rt + flowLib + "\n" + p.decl[1].String()
	if p.run {
		l += "var _ = rt.Ok\n"
		m += "var _ = rt.Ok\n"
	}
	if err := writeFiles(filepath.Join(src, filepath.FromSlash(p.path+"/m")), map[string]string{"m.go": m}); err != nil {
		return err
	}
	return writeFiles(filepath.Join(src, filepath.FromSlash(p.path+"/l")), map[string]string{"l.go": l})
}

// flowRT watches programs that are executed.  Choices are random.
const flowRT = `package rt

import (
	"encoding/json"
	"math/rand"
	"os"
)

const maxDepth = DEPTH

var stack []int
var seen map[[2]int]bool
var rnd *rand.Rand

func Enter(f int, leaf bool) func() {
	stack = append(stack, f)
	if leaf && Ok() {
		for _, g := range stack {
			seen[[2]int{g, f}] = true
		}
	}
	return func() { stack = stack[:len(stack)-1] }
}

func Ok() bool { return len(stack) <= maxDepth }

func Yes() bool { return rnd.Intn(3) > 0 }

// Run calls the functions many times in random order.
func Run(roots []func(), calls int, seed int64) {
	seen = map[[2]int]bool{}
	rnd = rand.New(rand.NewSource(seed))
	for i := 0; i < calls; i++ {
		roots[rnd.Intn(len(roots))]()
	}
	pairs := [][2]int{}
	for p := range seen {
		pairs = append(pairs, p)
	}
	if err := json.NewEncoder(os.Stdout).Encode(pairs); err != nil {
		panic(err)
	}
}
`

// execute builds and runs the programs and returns what was seen to run.
func flowExecute(progs []flowProg, dir string, depth, calls int, seed int64) ([][]ev, error) {
	src := filepath.Join(dir, "src")
	var imports, runs strings.Builder
	for i := range progs {
		p := progs[i]
		p.run = true
		if err := p.write(src, fmt.Sprintf("s%d", i)); err != nil {
			return nil, err
		}
		fmt.Fprintf(&imports, "\tm%d %q\n", i, p.path+"/m")
		fmt.Fprintf(&runs, "\trt.Run(m%d.Roots, %d, %d)\n", i, calls, seed+int64(i))
	}
	rt := strings.ReplaceAll(flowRT, "DEPTH", fmt.Sprint(depth))
	if err := writeFiles(filepath.Join(src, "ex.test/rt"), map[string]string{"rt.go": rt}); err != nil {
		return nil, err
	}
	main := "package main\n\nimport (\n\t\"ex.test/rt\"\n" + imports.String() + ")\n\nfunc main() {\n" + runs.String() + "}\n"
	if err := writeFiles(filepath.Join(src, "ex.test/main"), map[string]string{"main.go": main}); err != nil {
		return nil, err
	}
	setGOPATH(dir)
	exe := filepath.Join(dir, "prog")
	if out, err := exec.Command("go", "build", "-o", exe, "ex.test/main").CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building programs: %v\n%s", err, out)
	}
	cmd := exec.Command(exe)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("running programs: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	var res [][]ev
	for range progs {
		var pairs [][2]int
		if err := dec.Decode(&pairs); err != nil {
			return nil, err
		}
		sort.Slice(pairs, func(a, b int) bool {
			return pairs[a][0] < pairs[b][0] || pairs[a][0] == pairs[b][0] && pairs[a][1] < pairs[b][1]
		})
		evs := []ev{}
		for _, x := range pairs {
			evs = append(evs, ev{"f": x[0], "leaf": x[1]})
		}
		res = append(res, evs)
	}
	return res, nil
}

func flowMain(args []string) error {
	fl := flag.NewFlagSet("flow", flag.ExitOnError)
	in := fl.String("in", "", "scenarios")
	out := fl.String("out", "", "trace")
	dir := fl.String("dir", "", "scratch directory")
	depth := fl.Int("depth", 4, "active functions when executing")
	calls := fl.Int("calls", 1000, "calls when executing")
	seed := fl.Int64("seed", 1, "seed for executing")
	fl.Parse(args)
	progs, err := readLines[flowProg](*in)
	if err != nil {
		return err
	}
	raw, err := readLines[json.RawMessage](*in)
	if err != nil {
		return err
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	observed, err := flowExecute(progs, filepath.Join(*dir, "run"), *depth, *calls, *seed)
	if err != nil {
		return err
	}
	var paths []string
	for i := range progs {
		if err := progs[i].write(filepath.Join(*dir, "read", "src"), fmt.Sprintf("s%d", i)); err != nil {
			return err
		}
		paths = append(paths, progs[i].path+"/m")
	}
	pkgs, err := loadGOPATH(filepath.Join(*dir, "read"), paths)
	if err != nil {
		return err
	}
	for i := range progs {
		p := &progs[i]
		cls := scanClassifier{map[string]cpb.Capability{}}
		for name, n := range p.ids {
			if c := p.Funs[n-1].Cap; c != "" {
				cls.cls[name] = capNumber(c)
			}
		}
		one := []*packages.Package{pkgs[p.path+"/m"]}
		var cil *cpb.CapabilityInfoList
		if problem := guarded(func() {
			cil = analyzer.GetCapabilityInfo(one, analyzer.GetQueriedPackages(one), &analyzer.Config{Classifier: cls, DisableBuiltin: true})
		}); problem != "" {
			return fmt.Errorf("analysis failed: %s", problem)
		}
		pairs := []ev{}
		for _, ci := range cil.CapabilityInfo {
			if n, ok := p.ids[stripTypeArgs(ci.Path[0].GetName())]; ok {
				pairs = append(pairs, ev{"f": n, "c": capName(ci.GetCapability())})
			}
		}
		for n, f := range p.Funs {
			if f.Kind == "there" { // not in the queried package
				pairs = append(pairs, ev{"f": n + 1, "c": f.Cap})
			}
		}
		sort.Slice(pairs, func(a, b int) bool { return fmt.Sprint(pairs[a]) < fmt.Sprint(pairs[b]) })
		rec.event(ev{"sc": raw[i], "report": pairs, "observed": observed[i]})
	}
	return rec.close()
}
