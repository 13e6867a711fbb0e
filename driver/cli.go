package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// moduleEnv returns an environment for running commands in a scratch module,
// with the given variables added.
func moduleEnv(extra ...string) []string {
	var env []string
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GO111MODULE", "GOWORK", "GOPATH", "GOOS", "GOARCH", "GOPROXY", "PWD", "CGO_ENABLED":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=", "GO111MODULE=on", "GOWORK=off", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0", "NO_COLOR=1")
	return append(env, extra...)
}

type result struct {
	status         int
	stdout, stderr string
}

// run executes a command, which must end within a few minutes.
func run(dir string, env []string, name string, args ...string) (result, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	if env == nil {
		env = moduleEnv()
	}
	cmd.Env = append(env, "PWD="+dir)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return result{status: -2, stdout: out.String(), stderr: errb.String()}, nil
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		return result{}, err
	}
	return result{cmd.ProcessState.ExitCode(), out.String(), errb.String()}, nil
}

// writeFiles writes files below dir.
func writeFiles(dir string, files map[string]string) error {
	for name, text := range files {
		name = filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(name), 0o777); err != nil {
			return err
		}
		if err := os.WriteFile(name, []byte(text), 0o666); err != nil {
			return err
		}
	}
	return nil
}

// inParallel calls f for 0 to n-1, several at a time.
func inParallel(n, workers int, f func(i int) error) error {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first error
	next := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				if err := f(i); err != nil {
					mu.Lock()
					if first == nil {
						first = fmt.Errorf("scenario %d: %w", i, err)
					}
					mu.Unlock()
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	return first
}
