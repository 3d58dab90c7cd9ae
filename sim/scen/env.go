// Package scen holds the workloads and oracles.
package scen

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

var (
	scratch  string // per-process scratch directory
	origPath string
)

var fixedEnv = map[string]string{
	"COLUMNS": "60", "TERM": "dumb", "NO_COLOR": "", "JOE_CLI_DEBUG_TEMPLATES": "",
}

// Start prepares the process for simulated runs.
func Start() {
	dir, err := os.MkdirTemp("", "joesim-")
	if err != nil {
		panic(err)
	}
	scratch = dir
	origPath = os.Getenv("PATH")
	for k, v := range fixedEnv {
		os.Setenv(k, v)
	}
	if Solo >= 0 {
		return // nothing can have run before
	}
	// text/template and reflect build caches on first use; warm them so that
	// they do not differ between the first run of a process and later ones.
	app := &cli.App{Name: "warm", Stdout: new(nullWriter), Stderr: new(nullWriter),
		Flags: []*cli.Flag{{Name: "f"}}, Commands: []*cli.Command{{Name: "x"}}}
	app.RunContext(context.Background(), []string{"warm", "--help"})
}

// Stop removes what Start made.
func Stop() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

type nullWriter struct{}

func (*nullWriter) Write(p []byte) (int, error) { return len(p), nil }

func init() {
	core.ResetGlobals = func() {
		cli.ExitHandler = nil
		cli.SetCurrentApp(nil)
		for k, v := range fixedEnv {
			if os.Getenv(k) != v {
				os.Setenv(k, v)
			}
		}
	}
}

// SetEnv sets a variable for the duration of the run.
func SetEnv(w *core.World, k, v string) {
	old, ok := os.LookupEnv(k)
	os.Setenv(k, v)
	w.Cleanup(func() {
		if ok {
			os.Setenv(k, old)
		} else {
			os.Unsetenv(k)
		}
	})
}

var scratchN int

// Scratch makes an empty directory for the run.
func Scratch(w *core.World) string {
	scratchN++
	dir := filepath.Join(scratch, "run")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	w.Cleanup(func() { os.RemoveAll(dir) })
	w.Scrub = strings.NewReplacer(dir, "$D")
	return dir
}

var registry []*core.Property

func register(p *core.Property) { registry = append(registry, p) }

// All lists the properties with a simulation.
func All() []*core.Property { return registry }

// simErr is an injected failure; identity matters.
type simErr struct{ id string }

func (e *simErr) Error() string { return "injected failure " + e.id }

// simPanic is an injected panic value.
type simPanic struct{ id string }

func (e simPanic) String() string { return "injected panic " + e.id }

func errName(err error) string {
	if err == nil {
		return "nil"
	}
	return fmt.Sprintf("%T(%v)", err, err)
}
