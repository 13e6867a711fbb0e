package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

// Cmp describes a comparison of a program with the report made from it with
// other categories and excluded calls, as generated by CompareGen.tla.
type Cmp struct {
	Cls      []string `json:"cls"`
	Ign      [][]int  `json:"ign"`
	Gran     string   `json:"gran"`     // granularity of the comparison
	Omit     bool     `json:"omit"`     // whether it omits paths
	BaseGran string   `json:"basegran"` // granularity of the baseline
	BaseOmit bool     `json:"baseomit"`
	Extra    []string `json:"extra"`  // capabilities of things not in the program
	Damage   string   `json:"damage"` // what is wrong with the baseline file
	At       int      `json:"at"`
}

func granularityNamed(s string) analyzer.Granularity {
	g, err := analyzer.GranularityFromString(s)
	if err != nil {
		panic(err)
	}
	return g
}

// item returns the number of the thing with this name.
func (c *coreRun) item(name string) string {
	if f := c.r.id(name); f != 0 {
		return fmt.Sprint("f", f)
	}
	if k := c.r.pkgID(name); k != 0 {
		return fmt.Sprint("p", k)
	}
	if s, ok := strings.CutPrefix(name, "gone.test/x"); ok {
		return "x" + strings.TrimSuffix(s, ".F")
	}
	return "?" + name
}

var compareLine = regexp.MustCompile(`^Package (\S+) (has new|no longer has) capability CAPABILITY_(\w+) `)

// damage returns a damaged form of a baseline.
func damage(kind string, b []byte, at int) []byte {
	s := string(b)
	switch kind {
	case "empty":
		return nil
	case "truncated":
		s = strings.TrimRight(s, " \t\n")
		return []byte(s[:(len(s)-1)*at/1000])
	case "notjson":
		return []byte("Capslock is an experimental tool\n" + s)
	case "array":
		return []byte("[" + s + "]")
	case "trailing":
		return []byte(s + "\n{}")
	case "capability":
		return []byte(`{"capabilityInfo": [{"capability": "CAPABILITY_NOT_KNOWN", "packageDir": "a"}]}`)
	case "wrongtype":
		return []byte(`{"capabilityInfo": [{"capability": "CAPABILITY_FILES", "packageDir": 12}]}`)
	case "otherjson":
		return []byte(`{"results": []}`)
	case "binary":
		return []byte{0, 1, 2, 3, 255, 254}
	case "null":
		return []byte(`{"capabilityInfo": 3}`)
	}
	panic("unknown damage " + kind)
}

func (c *coreRun) compare() []ev {
	m := c.r.p.Cmp
	// Make the baseline.
	p := *c.r.p
	p.Cls, p.Ign = m.Cls, m.Ign
	r := *c.r
	r.p = &p
	b := *c
	b.r = &r
	rc := reportConfig{granularity: granularityNamed(m.BaseGran), omit: m.BaseOmit, sel: m.BaseGran == "intermediate"}
	list, err := b.list(rc)
	if err != nil {
		return []ev{{"e": "error", "what": err.Error()}}
	}
	for i, x := range m.Extra {
		dir := fmt.Sprint("gone.test/x", i+1)
		list.CapabilityInfo = append(list.CapabilityInfo, &cpb.CapabilityInfo{
			PackageName: proto.String("x"), PackageDir: proto.String(dir), Capability: capNumber(x).Enum(),
			Path: []*cpb.Function{{Name: proto.String(dir + ".F"), Package: proto.String(dir)}},
		})
	}
	text, err := protojson.MarshalOptions{Multiline: true, Indent: "\t"}.Marshal(list)
	if err != nil {
		return []ev{{"e": "error", "what": err.Error()}}
	}
	name := filepath.Join(c.dir, c.r.p.ID+".baseline")
	os.Remove(name)
	switch m.Damage {
	case "missing":
	case "directory":
		err = os.Mkdir(name, 0o777)
	case "none":
		err = os.WriteFile(name, text, 0o666)
	default:
		err = os.WriteFile(name, damage(m.Damage, text, m.At), 0o666)
	}
	if err != nil {
		panic(err)
	}
	// Compare.
	rc = reportConfig{output: "compare", granularity: granularityNamed(m.Gran), omit: m.Omit, sel: m.Gran == "intermediate", baseline: name}
	e := ev{"e": "compare", "gained": [][]string{}, "lost": [][]string{}}
	var out, outcome string
	if c.exe != "" {
		res, err := c.command(rc)
		if err != nil {
			return []ev{{"e": "error", "what": err.Error()}}
		}
		out = res.stdout
		outcome = map[int]string{0: "same", 1: "different", 2: "error"}[res.status]
		if outcome == "error" && res.stderr == "" {
			outcome = "error without a message"
		}
	} else {
		var rerr error
		out, err = captureStdout(func() {
			rerr = analyzer.RunCapslock([]string{name}, "compare", c.pkgs, c.queried(), c.apiConfig(rc))
		})
		if err != nil {
			panic(err)
		}
		var d analyzer.DifferenceFoundError
		switch {
		case rerr == nil:
			outcome = "same"
		case errors.As(rerr, &d):
			outcome = "different"
		default:
			outcome = "error"
		}
	}
	e["outcome"] = outcome
	for _, ln := range strings.Split(out, "\n") {
		if x := compareLine.FindStringSubmatch(ln); x != nil {
			k := "gained"
			if x[2] != "has new" {
				k = "lost"
			}
			e[k] = append(e[k].([][]string), []string{x[3], c.item(x[1])})
		}
	}
	e["output"] = out != ""
	return []ev{e}
}
