package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Prog is an abstract program, as generated by ProgGen.tla.  Functions are
// numbered from 1; function N+k is the initialisation of package k.
type Prog struct {
	ID      string     `json:"id"`
	N       int        `json:"n"`
	Kind    []string   `json:"kind"`
	Pkg     []int      `json:"pkg"`
	Home    []int      `json:"home"`
	Par     []int      `json:"par"`
	Cls     []string   `json:"cls"`
	Ext     [][]string `json:"ext"`
	Calls   []Call     `json:"calls"`
	Ign     [][]int    `json:"ign"`
	Query   []int      `json:"query"`
	PkgKind []string   `json:"pkgkind"`
	// Under is the package whose path the path of each package begins with,
	// or 0, and Glue is what stands between the two parts.
	Under []int    `json:"under,omitempty"`
	Glue  []string `json:"glue,omitempty"`
	// Tail is the end of the path of each package.
	Tail []string `json:"tail,omitempty"`
	// Vend says which packages are copies in a vendor directory.
	Vend []bool `json:"vend,omitempty"`
	// Top says that the last package is a program.
	Top bool `json:"top,omitempty"`
	// Bare says which packages have a path of one element.
	Bare    []bool `json:"bare,omitempty"`
	Builtin bool   `json:"builtin"`
	// Map says that the categories are given by a capability map.
	Map bool `json:"map,omitempty"`
	// Sel is a capability selection for the modes that take one.
	Sel []string `json:"sel"`
	Neg bool     `json:"neg"`
	// Cmp describes a comparison, if there is one.
	Cmp *Cmp `json:"cmp,omitempty"`
}

// Call is a call from function F to function G.
type Call struct {
	F   int    `json:"f"`
	G   int    `json:"g"`
	Via string `json:"via"`
}

// Site is a call site, as written to the source.
type Site struct {
	F    int    `json:"f"`
	G    int    `json:"g"`
	File string `json:"file"`
	Line int    `json:"line"`
	Col  int    `json:"col"`
	End  int    `json:"end"`
}

// rendered is what is known about the source written for a Prog.
type rendered struct {
	p     *Prog
	paths []string       // package paths, indexed from 1
	names []string       // function names, indexed from 1
	ids   map[string]int // function number by name
	sites []Site
	rank  []int // number of each function within its package
}

func (p *Prog) pkgPath(k int) string {
	tail := ""
	if k <= len(p.Tail) {
		tail = p.Tail[k-1]
	}
	if k <= len(p.Under) && p.Under[k-1] != 0 {
		return fmt.Sprintf("%s%sp%d%s", p.pkgPath(p.Under[k-1]), p.Glue[k-1], k, tail)
	}
	if k <= len(p.Bare) && p.Bare[k-1] {
		if p.PkgKind[k-1] == "std" {
			return fmt.Sprintf("stdlk-%s-p%d%s", p.ID, k, tail)
		}
		return fmt.Sprintf("%s-p%d.test%s", p.ID, k, tail)
	}
	root := "ex.test"
	if p.PkgKind[k-1] == "std" {
		root = "stdlk"
		if k <= len(p.Vend) && p.Vend[k-1] {
			root = "vendor/ex.test"
		}
	}
	return fmt.Sprintf("%s/%s/p%d%s", root, p.ID, k, tail)
}

// importPath returns the path with which a package is imported.
func (p *Prog) importPath(k int) string { return strings.TrimPrefix(p.pkgPath(k), "vendor/") }

func (p *Prog) pkgOf(f int) int {
	if f > p.N {
		return f - p.N
	}
	return p.Pkg[f-1]
}

func (p *Prog) kindOf(f int) string {
	if f > p.N {
		return "pinit"
	}
	return p.Kind[f-1]
}

// homeOf returns the package that function f comes into being in.
func (p *Prog) homeOf(f int) int {
	if f > p.N {
		return f - p.N
	}
	return p.Home[f-1]
}

// pkgName returns the name of a package.  Names are not unique.
func (p *Prog) pkgName(k int) string {
	if p.Top && k == len(p.PkgKind) {
		return "main"
	}
	return [...]string{"na", "nb"}[k%2]
}

func isWrapper(kind string) bool { return kind == "thunk" || kind == "bound" || kind == "prom" }

// writer accumulates one source file and knows its current position.
type fileWriter struct {
	strings.Builder
	name string
	line int
}

func (w *fileWriter) ln(indent int, s string) (line, col, end int) {
	w.WriteString(strings.Repeat("\t", indent))
	w.WriteString(s)
	w.WriteByte('\n')
	line = w.line
	w.line += 1 + strings.Count(s, "\n")
	return line, indent + 1, indent + 1 + len(s)
}

// render writes the packages of p below the directory src.
func (p *Prog) render(src string) (*rendered, error) {
	np := len(p.PkgKind)
	r := &rendered{p: p, paths: make([]string, np+1), names: make([]string, p.N+np+1), ids: map[string]int{}}
	for k := 1; k <= np; k++ {
		r.paths[k] = p.pkgPath(k)
		r.names[p.N+k] = r.paths[k] + ".init"
	}
	// Closures are numbered in the order in which they are written, so names
	// of closures are assigned while writing.
	inits := map[int]int{}
	r.rank = make([]int, p.N+1)
	count := map[int]int{}
	for i := 1; i <= p.N; i++ {
		count[p.Home[i-1]]++
		r.rank[i] = count[p.Home[i-1]]
	}
	for i := 1; i <= p.N; i++ {
		path := r.paths[p.Home[i-1]]
		switch p.Kind[i-1] {
		case "func", "gen", "asm":
			r.names[i] = fmt.Sprintf("%s.F%d", path, r.rank[i])
		case "ufunc":
			r.names[i] = fmt.Sprintf("%s.f%d", path, r.rank[i])
		case "pmeth", "gmeth":
			r.names[i] = fmt.Sprintf("(*%s.T%d).M", path, r.rank[i])
		case "umeth":
			r.names[i] = fmt.Sprintf("(*%s.t%d).M", path, r.rank[i])
		case "vmeth":
			r.names[i] = fmt.Sprintf("(%s.T%d).M", path, r.rank[i])
		case "prom":
			r.names[i] = fmt.Sprintf("(*%s.W%d).M", path, r.rank[i])
		case "init":
			inits[p.Pkg[i-1]]++
			r.names[i] = fmt.Sprintf("%s.init#%d", path, inits[p.Pkg[i-1]])
		case "clos", "thunk", "bound":
		default:
			return nil, fmt.Errorf("unknown kind %q", p.Kind[i-1])
		}
	}
	for i := 1; i <= p.N; i++ {
		if k := p.Kind[i-1]; k == "thunk" || k == "bound" {
			r.names[i] = r.names[p.Par[i-1]] + "$" + k
		}
	}
	for k := 1; k <= np; k++ {
		if err := p.renderPackage(src, k, r); err != nil {
			return nil, err
		}
	}
	for i, n := range r.names {
		if i > 0 {
			r.ids[n] = i
		}
	}
	return r, nil
}

func (p *Prog) renderPackage(src string, k int, r *rendered) error {
	dir := filepath.Join(src, filepath.FromSlash(r.paths[k]))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	// Functions with an odd number go to a.go and the others to b.go.  Package
	// initialisation and everything needing a stable order is in a.go.
	files := []*fileWriter{{name: "a.go", line: 1}, {name: "b.go", line: 1}}
	for fi, w := range files {
		w.ln(0, "package "+p.pkgName(k))
		// Distinct line numbers in distinct files.
		for i := 0; i < 200*(2*k+fi)-1; i++ {
			w.ln(0, "")
		}
		var usesUnsafe bool
		used := map[int]bool{}
		var top []int // functions at top level of this file
		root := func(f int) int {
			for p.kindOf(f) == "clos" {
				f = p.Par[f-1]
			}
			return f
		}
		inFile := func(f int) bool {
			f = root(f)
			if kind := p.kindOf(f); kind == "pinit" || kind == "init" {
				return fi == 0
			}
			return f%2 == 1 == (fi == 0)
		}
		for i := 1; i <= p.N; i++ {
			if p.Home[i-1] != k || !inFile(i) {
				continue
			}
			switch p.Kind[i-1] {
			case "thunk", "bound":
				continue
			case "clos":
			case "prom":
				if m := p.pkgOf(i); m != k {
					used[m] = true
				}
				top = append(top, i)
			default:
				top = append(top, i)
			}
			if p.Kind[i-1] != "asm" {
				for _, x := range p.Ext[i-1] {
					usesUnsafe = usesUnsafe || x == "UNSAFE_POINTER"
				}
			}
		}
		for _, c := range p.Calls {
			if c.Via == "hook" {
				if f := p.pkgOf(c.F); p.pkgOf(c.G) == k && inFile(c.G) && f != k {
					used[f] = true
				}
			} else if g := p.homeOf(c.G); !isWrapper(p.kindOf(c.F)) && p.pkgOf(c.F) == k && inFile(c.F) && g != k {
				used[g] = true
			}
		}
		if usesUnsafe {
			w.ln(0, `import "unsafe"`)
		}
		for g := 1; g < len(r.paths); g++ {
			if used[g] {
				w.ln(0, fmt.Sprintf("import n%d %q", g, p.importPath(g)))
			}
		}
		if fi == 0 {
			w.ln(0, "var xx int8")
			if p.pkgName(k) == "main" {
				w.ln(0, "func main() {}")
			}
			for ci, c := range p.Calls {
				if c.F == p.N+k {
					x := p.callee(c.G, k, ci, r)
					line, col, end := w.ln(0, fmt.Sprintf("var V%d = %s()", ci, x))
					r.sites = append(r.sites, Site{c.F, c.G, w.name, line, col, end})
				}
				if c.Via == "hook" && p.pkgOf(c.F) == k {
					w.ln(0, fmt.Sprintf("var H%d func() int", ci))
				}
			}
		}
		for _, f := range top {
			n := r.rank[f]
			switch p.Kind[f-1] {
			case "func":
				w.ln(0, fmt.Sprintf("func F%d() int {", n))
			case "ufunc":
				w.ln(0, fmt.Sprintf("func f%d() int {", n))
			case "gen":
				w.ln(0, fmt.Sprintf("func F%d[T any]() int {", n))
			case "asm":
				w.ln(0, fmt.Sprintf("func F%d() int", n))
				continue
			case "prom":
				m := p.Par[f-1]
				q := ""
				if pk := p.pkgOf(m); pk != k {
					q = fmt.Sprintf("n%d.", pk)
				}
				w.ln(0, fmt.Sprintf("type W%d struct{ %sT%d }", n, q, r.rank[m]))
				continue
			case "pmeth":
				w.ln(0, fmt.Sprintf("type T%d struct{ x int }", n))
				w.ln(0, fmt.Sprintf("func (*T%d) M() int {", n))
			case "umeth":
				w.ln(0, fmt.Sprintf("type t%d struct{ x int }", n))
				w.ln(0, fmt.Sprintf("func (*t%d) M() int {", n))
			case "vmeth":
				w.ln(0, fmt.Sprintf("type T%d struct{ x int }", n))
				w.ln(0, fmt.Sprintf("func (T%d) M() int {", n))
			case "gmeth":
				w.ln(0, fmt.Sprintf("type T%d[T any] struct{ x int }", n))
				w.ln(0, fmt.Sprintf("func (*T%d[T]) M() int {", n))
			case "init":
				w.ln(0, "func init() {")
			}
			p.renderBody(w, f, 1, r)
			if p.Kind[f-1] != "init" {
				w.ln(1, "return 0")
			}
			w.ln(0, "}")
		}
		if err := os.WriteFile(filepath.Join(dir, w.name), []byte(w.String()), 0o644); err != nil {
			return err
		}
	}
	// An assembly file allows functions without a body.
	return os.WriteFile(filepath.Join(dir, "x.s"), nil, 0o644)
}

// typeArgs make names with all kinds of characters.
var typeArgs = []string{
	"int", "struct{ A int `a\"b` }", "string", "struct{ A, B string \"c\\\\\" }", "map[string][]int", "struct{ A int `\\\"][\\` }",
}

// callee returns an expression denoting function g which can be called with no
// arguments, for use in package k.
func (p *Prog) callee(g, k, ci int, r *rendered) string {
	n := r.rank[g]
	targ := typeArgs[ci%len(typeArgs)]
	q := ""
	if pk := p.pkgOf(g); pk != k {
		q = fmt.Sprintf("n%d.", pk)
	}
	switch p.kindOf(g) {
	case "func", "asm":
		return fmt.Sprintf("%sF%d", q, n)
	case "ufunc":
		return fmt.Sprintf("f%d", n)
	case "gen":
		return fmt.Sprintf("%sF%d[%s]", q, n, targ)
	case "pmeth":
		return fmt.Sprintf("(&%sT%d{}).M", q, n)
	case "umeth":
		return fmt.Sprintf("(&t%d{}).M", n)
	case "vmeth":
		return fmt.Sprintf("(%sT%d{}).M", q, n)
	case "gmeth":
		return fmt.Sprintf("(&%sT%d[%s]{}).M", q, n, targ)
	}
	panic("no expression for " + p.kindOf(g))
}

// receiver returns the receiver expression and type of a method.
func (p *Prog) receiver(g, k int, r *rendered) (expr, typ string) {
	n := r.rank[g]
	q := ""
	if pk := p.homeOf(g); pk != k {
		q = fmt.Sprintf("n%d.", pk)
	}
	switch p.kindOf(g) {
	case "pmeth":
		return fmt.Sprintf("&%sT%d{}", q, n), fmt.Sprintf("(*%sT%d)", q, n)
	case "umeth":
		return fmt.Sprintf("&t%d{}", n), fmt.Sprintf("(*t%d)", n)
	case "vmeth":
		return fmt.Sprintf("%sT%d{}", q, n), fmt.Sprintf("%sT%d", q, n)
	case "gmeth":
		return fmt.Sprintf("&%sT%d[int]{}", q, n), fmt.Sprintf("(*%sT%d[int])", q, n)
	case "prom":
		return fmt.Sprintf("&%sW%d{}", q, n), fmt.Sprintf("(*%sW%d)", q, n)
	}
	panic("not a method: " + p.kindOf(g))
}

func isMethod(kind string) bool {
	return kind == "pmeth" || kind == "umeth" || kind == "vmeth" || kind == "gmeth" || kind == "prom"
}

func (p *Prog) renderBody(w *fileWriter, f, indent int, r *rendered) {
	k := p.pkgOf(f)
	for _, x := range p.Ext[f-1] {
		if x == "UNSAFE_POINTER" {
			w.ln(indent, "_ = *(*int8)(unsafe.Pointer(&xx))")
		}
	}
	for ci, c := range p.Calls {
		if c.Via == "hook" && c.G == f {
			name := p.callee(f, k, ci, r)
			if h := p.pkgOf(c.F); h != k {
				w.ln(indent, fmt.Sprintf("n%d.H%d = %s", h, ci, name))
			} else {
				w.ln(indent, fmt.Sprintf("H%d = %s", ci, name))
			}
		}
	}
	closures := 0
	for ci, c := range p.Calls {
		if c.F != f {
			continue
		}
		site := func(line, col, end int) {
			r.sites = append(r.sites, Site{c.F, c.G, w.name, line, col, end})
		}
		switch kind := p.kindOf(c.G); kind {
		case "clos":
			closures++
			r.names[c.G] = fmt.Sprintf("%s$%d", r.names[f], closures)
			w.ln(indent, "func() {")
			p.renderBody(w, c.G, indent+1, r)
			site(w.ln(indent, "}()"))
			continue
		case "thunk":
			m := p.Par[c.G-1]
			recv, typ := p.receiver(m, k, r)
			w.ln(indent, fmt.Sprintf("v%d := %s.M", ci, typ))
			site(w.ln(indent, fmt.Sprintf("v%d(%s)", ci, recv)))
			continue
		case "bound":
			m := p.Par[c.G-1]
			recv, _ := p.receiver(m, k, r)
			w.ln(indent, fmt.Sprintf("v%d := (%s).M", ci, recv))
			site(w.ln(indent, fmt.Sprintf("v%d()", ci)))
			continue
		}
		via := c.Via
		if p.kindOf(c.G) == "prom" {
			via = "value"
		}
		if via == "hook" {
			site(w.ln(indent, fmt.Sprintf("H%d()", ci)))
			continue
		}
		x := ""
		if p.kindOf(c.G) != "prom" {
			x = p.callee(c.G, k, ci, r)
		}
		switch via {
		case "static":
			if ci%6 == 5 {
				// A call can be far from the beginning of its line.
				x = "/*" + strings.Repeat(" far", 40*(1+ci%5)) + " */ " + x
			}
			site(w.ln(indent, x+"()"))
		case "defer":
			site(w.ln(indent, "defer "+x+"()"))
		case "go":
			site(w.ln(indent, "go "+x+"()"))
		case "value":
			if isMethod(p.kindOf(c.G)) {
				// The method is called through an interface.
				recv, _ := p.receiver(c.G, k, r)
				w.ln(indent, fmt.Sprintf("type I%d interface{ M() int }", ci))
				w.ln(indent, fmt.Sprintf("var v%d I%d = %s", ci, ci, recv))
				site(w.ln(indent, fmt.Sprintf("v%d.M()", ci)))
				continue
			}
			// The function is called through an element of a slice.
			w.ln(indent, fmt.Sprintf("type ft%d func() int", ci))
			w.ln(indent, fmt.Sprintf("v%d := []ft%d{%s}", ci, ci, x))
			site(w.ln(indent, fmt.Sprintf("v%d[0]()", ci)))
		default:
			panic("unknown via " + c.Via)
		}
	}
}

// outside calls f for each byte of a name that is not inside brackets or
// quotes.
func outside(s string, f func(i int)) {
	depth, quoted := 0, false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case quoted:
			if c == '\\' {
				i++
			} else if c == '"' {
				quoted = false
			}
		case c == '"':
			quoted = true
		case c == '[':
			depth++
		case c == ']':
			depth--
		case depth == 0:
			f(i)
		}
	}
}

// stripTypeArgs removes the type arguments from a function name.
func stripTypeArgs(s string) string {
	var b strings.Builder
	outside(s, func(i int) { b.WriteByte(s[i]) })
	return b.String()
}

// splitNames splits names that are separated by single spaces.
func splitNames(s string) []string {
	var out []string
	last := 0
	outside(s, func(i int) {
		if s[i] == ' ' {
			out = append(out, s[last:i])
			last = i + 1
		}
	})
	return append(out, s[last:])
}

// id returns the number of the function with the given name, or 0.
func (r *rendered) id(name string) int { return r.ids[stripTypeArgs(name)] }

// genericName returns the name of a function as written in capability maps,
// which have the names of generic functions, not of their instances.
func (r *rendered) genericName(f int) string {
	root := f
	for r.p.kindOf(root) == "clos" {
		root = r.p.Par[root-1]
	}
	if r.p.kindOf(root) != "gmeth" {
		return r.names[f]
	}
	return strings.Replace(r.names[f], ").M", "[T]).M", 1)
}

// pkgID returns the number of the package with the given path, or 0.
func (r *rendered) pkgID(path string) int {
	for k, p := range r.paths {
		if k > 0 && p == path {
			return k
		}
	}
	return 0
}
