// The driver turns scenarios produced by the TLA+ generators into real inputs
// for capslock, runs the real code on them, and records what it did as
// newline-delimited JSON for the trace specifications to judge.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
)

var commands = map[string]func(args []string) error{}

func main() {
	if stub(filepath.Base(os.Args[0])) {
		return
	}
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: driver COMMAND ...")
		os.Exit(64)
	}
	if err := commands[os.Args[1]](os.Args[2:]); err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(65)
	}
}

// readLines decodes each line of an ndjson file into a T.
func readLines[T any](name string) ([]T, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []T
	dec := json.NewDecoder(bufio.NewReader(f))
	for dec.More() {
		var t T
		if err := dec.Decode(&t); err != nil {
			return nil, fmt.Errorf("%s: %w", name, err)
		}
		out = append(out, t)
	}
	return out, nil
}

// recorder writes events to an ndjson file.
type recorder struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	e  *json.Encoder
}

func newRecorder(name string) (*recorder, error) {
	f, err := os.Create(name)
	if err != nil {
		return nil, err
	}
	r := &recorder{f: f, w: bufio.NewWriter(f)}
	r.e = json.NewEncoder(r.w)
	r.e.SetEscapeHTML(false)
	return r, nil
}

func (r *recorder) event(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if err := r.e.Encode(v); err != nil {
		panic(err)
	}
}

func (r *recorder) close() error {
	if err := r.w.Flush(); err != nil {
		return err
	}
	return r.f.Close()
}

type ev map[string]any

// sink receives events.
type sink interface{ event(v any) }

// events keeps events in memory.
type events []any

func (e *events) event(v any) { *e = append(*e, v) }
