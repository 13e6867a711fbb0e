package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
)

func init() { commands["capset"] = capsetMain }

type capsetScenario struct {
	Items json.RawMessage `json:"items"`
	Text  string          `json:"text"`
}

func capsetMain(args []string) error {
	fs := flag.NewFlagSet("capset", flag.ExitOnError)
	in := fs.String("in", "", "scenarios")
	out := fs.String("out", "", "trace")
	dir := fs.String("dir", "", "scratch directory")
	exe := fs.String("capslock", "", "run this command instead of using the API")
	fs.Parse(args)
	scenarios, err := readLines[capsetScenario](*in)
	if err != nil {
		return err
	}
	rec, err := newRecorder(*out)
	if err != nil {
		return err
	}
	if *exe != "" {
		err = capsetCommand(scenarios, rec, *dir, *exe)
	} else {
		err = capsetAPI(scenarios, rec)
	}
	if err != nil {
		return err
	}
	return rec.close()
}

func capsetAPI(scenarios []capsetScenario, rec *recorder) error {
	for _, s := range scenarios {
		e := ev{"e": "api", "items": s.Items, "text": s.Text, "ok": false}
		if problem := guarded(func() {
			cs, err := analyzer.NewCapabilitySet(s.Text)
			if err != nil {
				return
			}
			e["ok"] = true
			has := []string{}
			for n := range cpb.Capability_name {
				if c := cpb.Capability(n); cs.Has(c) {
					has = append(has, capName(c))
				}
			}
			e["has"] = has
		}); problem != "" {
			e = ev{"e": "problem", "text": s.Text, "problem": problem}
		}
		rec.event(e)
	}
	return nil
}

var dotCapability = regexp.MustCompile(`-> "CAPABILITY_(\w+)"`)

// capsetCommand runs the command on a program with a function for each
// capability.
func capsetCommand(scenarios []capsetScenario, rec *recorder, dir, exe string) error {
	var caps []string
	for n, name := range cpb.Capability_name {
		if n > 1 {
			caps = append(caps, strings.TrimPrefix(name, "CAPABILITY_"))
		}
	}
	sort.Strings(caps)
	var src, m strings.Builder
	src.WriteString("package m\n")
	for _, c := range caps {
		fmt.Fprintf(&src, "func X%s() {}\nfunc Y%s() { X%s() }\n", c, c, c)
		fmt.Fprintf(&m, "func ex.test/m.X%s CAPABILITY_%s\n", c, c)
	}
	if err := writeFiles(dir, map[string]string{
		"go.mod": "module ex.test/m\n\ngo 1.23\n", "m.go": src.String(), "m.cm": m.String()}); err != nil {
		return err
	}
	events := make([]ev, len(scenarios))
	err := inParallel(len(scenarios), 6, func(i int) error {
		s := scenarios[i]
		args := []string{"-packages=.", "-capability_map=m.cm", "-disable_builtin", "-capabilities=" + s.Text}
		graph := i%2 == 0
		if graph {
			args = append(args, "-output=graph")
		} else {
			args = append(args, "-output=json", "-granularity=intermediate")
		}
		r, err := run(dir, nil, exe, args...)
		if err != nil {
			return err
		}
		reported := map[string]bool{}
		if graph {
			for _, x := range dotCapability.FindAllStringSubmatch(r.stdout, -1) {
				reported[x[1]] = true
			}
		} else if r.status == 0 {
			var list struct{ CapabilityInfo []struct{ Capability string } }
			if err := json.Unmarshal([]byte(r.stdout), &list); err != nil {
				reported["unreadable: "+err.Error()] = true
			}
			for _, x := range list.CapabilityInfo {
				reported[strings.TrimPrefix(x.Capability, "CAPABILITY_")] = true
			}
		}
		rep := []string{}
		for c := range reported {
			rep = append(rep, c)
		}
		sort.Strings(rep)
		events[i] = ev{"e": "cli", "items": s.Items, "text": s.Text, "status": r.status, "output": r.stdout != "",
			"message": r.stderr != "", "reported": rep, "caps": caps, "graph": graph}
		return nil
	})
	if err != nil {
		return err
	}
	for _, e := range events {
		rec.event(e)
	}
	return nil
}
