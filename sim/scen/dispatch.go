package scen

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// dnode is a command of the tree (or one that a handler makes).
type dnode struct {
	id        string
	name      string
	first     string // name before its initialization, if it differs
	aliases   []string
	late      bool // the aliases are added by the initializer
	kids      []*dnode
	leaf      string // flags, rest, none
	flag      bool   // -v of a group
	inherit   bool   // -f of a group, for those in it that have no such flag
	own       bool   // a group with an action of its own
	regs      []dreg
	intercept *dhandler // ExecuteSubcommand is used explicitly
	named     bool      // and its arg has a name of its own
	fail      map[string]*dfault
	cmd       *cli.Command
}

type dfault struct {
	err error
	pv  any
}

// dreg registers a handler; none is the reset.
type dreg struct {
	h      *dhandler
	before bool
}

type dhandler struct {
	id     string
	kind   string // give, fresh, none, error, both, skip, skipboth, panic, implicit
	target *dnode
	name   string
	err    error
}

type disp struct {
	w     *core.World
	n     int
	all   []*dnode
	names []string
	log   []string
	fault int
}

func (d *disp) id(prefix string) string {
	d.n++
	return fmt.Sprintf("%s%d", prefix, d.n)
}

func (d *disp) drawNode(depth int, name string) *dnode {
	w := d.w
	n := &dnode{id: d.id("c"), name: name, fail: map[string]*dfault{}}
	if depth == 0 || depth < 3 && w.Chance(1, 2) {
		pool := []string{"a", "b", "cc", "d", "A", "ab", "c c", "e-e"}
		w.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		for range w.Range(1, 3) {
			k := d.drawNode(depth+1, pool[0])
			pool = pool[1:]
			for w.Chance(1, 4) && len(pool) > 4 {
				k.aliases = append(k.aliases, pool[0])
				pool = pool[1:]
			}
			k.late = w.Chance(1, 3)
			if w.Chance(1, 6) && len(pool) > 2 {
				k.first = pool[0]
				pool = pool[1:]
			}
			n.kids = append(n.kids, k)
		}
		n.flag = w.Chance(1, 3)
		n.inherit = w.Chance(1, 6)
		n.own = w.Chance(2, 3)
	} else {
		n.leaf = core.Pick(w, "flags", "rest", "none")
	}
	for _, at := range []string{"before", "action", "after"} {
		if d.fault > 0 && w.Chance(1, 40) {
			d.fault--
			id := n.id + "." + at
			if w.Chance(1, 3) {
				n.fail[at] = &dfault{pv: simPanic{id}}
			} else {
				n.fail[at] = &dfault{err: core.Pick[error](w, &simErr{id}, cli.ErrSkipCommand, &simErr{id})}
			}
		}
	}
	d.all = append(d.all, n)
	d.names = append(append(d.names, name), n.aliases...)
	return n
}

func (d *disp) drawHandler(at *dnode) *dhandler {
	w := d.w
	h := &dhandler{id: d.id("h")}
	h.err = &simErr{h.id}
	switch w.Weighted(5, 3, 4, 3, 2, 2, 1, 1, 4) {
	case 0:
		h.kind, h.target = "give", core.Pick(w, d.all...)
	case 1:
		h.kind = "fresh"
		sub := &disp{w: w, n: d.n + 100*(d.n+1)}
		h.target = sub.drawNode(w.Range(1, 3), core.Pick(w, "a", "fresh"))
		if h.target.leaf == "" {
			for _, k := range h.target.kids {
				k.leaf, k.kids = "rest", nil
			}
		}
		if w.Chance(1, 8) {
			id := h.target.id + ".uses"
			h.target.fail["uses"] = &dfault{err: &simErr{id}}
			if w.Chance(1, 3) {
				h.target.fail["uses"] = &dfault{pv: simPanic{id}}
			}
		}
	case 2:
		h.kind = "none"
	case 3:
		h.kind = "error"
	case 4:
		h.kind, h.target = "both", core.Pick(w, d.all...)
	case 5:
		h.kind = "skip"
	case 6:
		h.kind, h.target = "skipboth", core.Pick(w, d.all...)
	case 7:
		h.kind = "panic"
	default:
		h.kind = "implicit"
		h.name = core.Pick(w, d.names...)
		if len(at.kids) > 0 && w.Chance(3, 4) {
			k := core.Pick(w, at.kids...)
			h.name = core.Pick(w, append([]string{k.name}, k.aliases...)...)
		}
	}
	return h
}

func (d *disp) note(format string, args ...any) {
	d.log = append(d.log, fmt.Sprintf(format, args...))
	d.w.Ev("%s", d.log[len(d.log)-1])
	d.w.Step()
}

func derr(err error) string {
	var se *simErr
	switch {
	case err == nil:
		return "nil"
	case err == cli.ErrSkipCommand:
		return "skip"
	case errors.As(err, &se) && err == error(se):
		return "injected " + se.id
	}
	if pe, ok := err.(*cli.ParseError); ok && pe.Code != cli.CommandNotFound {
		return "the line is refused"
	}
	return err.Error()
}

// ---- the real thing

func (d *disp) handler(h *dhandler) func(*cli.Context, error) (*cli.Command, error) {
	return func(c *cli.Context, err error) (*cli.Command, error) {
		d.note("handler %s in %s given %s words %q", h.id, strings.Join(d.path(c), "/"), derr(err), c.Args())
		switch h.kind {
		case "give", "both", "skipboth":
			var cmd *cli.Command
			if !slices.Contains(d.path(c), h.target.id) {
				cmd = h.target.cmd
			}
			switch h.kind {
			case "both":
				return cmd, h.err
			case "skipboth":
				return cmd, cli.ErrSkipCommand
			}
			return cmd, nil
		case "fresh":
			return d.build(h.target), nil
		case "error":
			return nil, h.err
		case "skip":
			return nil, cli.ErrSkipCommand
		case "panic":
			panic(simPanic{h.id})
		}
		return nil, nil
	}
}

const dnodeKey = "joesim-node"

// path is the commands that led here.
func (d *disp) path(c *cli.Context) []string {
	var res []string
	for ; c != nil; c = c.Parent() {
		if cmd, ok := c.Target().(*cli.Command); ok {
			id := "app"
			if x, ok := cmd.Data[dnodeKey]; ok {
				id = x.(string)
			}
			res = append([]string{id}, res...)
		}
	}
	return res
}

func (d *disp) step(n *dnode, at string) cli.Action {
	return cli.ActionOf(func(c *cli.Context) error {
		x := ""
		if at == "action" {
			switch {
			case n.leaf == "":
				if n.flag {
					x = fmt.Sprintf(" v=%v", c.Bool("v"))
				}
			case n.leaf == "flags":
				x = fmt.Sprintf(" f=%v list=%q", c.Bool("f"), c.List("list"))
			case n.leaf == "rest":
				x = fmt.Sprintf(" list=%q", c.List("list"))
			}
			if n.leaf != "" {
				x += fmt.Sprintf(" as=%q", c.Args()[:1])
			}
		}
		d.note("%s %s%s", at, strings.Join(d.path(c), "/"), x)
		if f := n.fail[at]; f != nil {
			d.w.Fault("failing step")
			if f.pv != nil {
				panic(f.pv)
			}
			return f.err
		}
		return nil
	})
}

func (d *disp) build(n *dnode) *cli.Command {
	cmd := &cli.Command{Name: n.name, Data: map[string]any{dnodeKey: n.id}}
	n.cmd = cmd
	if n.first != "" {
		cmd.Name = n.first
		cmd.Use(cli.Named(n.name))
	}
	if n.late && len(n.aliases) > 0 {
		cmd.Use(cli.Alias(n.aliases...))
	} else {
		cmd.Aliases = n.aliases
	}
	if f := n.fail["uses"]; f != nil {
		cmd.Use(cli.ActionOf(func(c *cli.Context) error {
			d.note("uses %s", n.id)
			d.w.Fault("failing step")
			if f.pv != nil {
				panic(f.pv)
			}
			return f.err
		}))
	}
	var before []any
	for _, r := range n.regs {
		var a cli.Action
		switch {
		case r.h == nil:
			a = cli.HandleCommandNotFound(nil)
		case r.h.kind == "implicit":
			a = cli.ImplicitCommand(r.h.name)
		default:
			a = cli.HandleCommandNotFound(d.handler(r.h))
		}
		if r.before {
			before = append(before, a)
		} else {
			cmd.Use(a)
		}
	}
	cmd.Before = cli.Pipeline(append(before, d.step(n, "before"))...)
	cmd.After = d.step(n, "after")
	if n.own || n.leaf != "" {
		cmd.Action = d.step(n, "action")
	}
	switch n.leaf {
	case "flags":
		cmd.Flags = []*cli.Flag{{Name: "f", Value: new(bool)}}
		cmd.Args = []*cli.Arg{{Name: "list", Value: new([]string), NArg: cli.TakeExceptForFlags, Options: cli.DisableSplitting}}
	case "rest":
		cmd.Options = cli.SkipFlagParsing
		cmd.Args = []*cli.Arg{{Name: "list", Value: new([]string), NArg: cli.TakeRemaining, Options: cli.DisableSplitting}}
	case "":
		if n.flag {
			cmd.Flags = []*cli.Flag{{Name: "v", Value: new(bool), Options: cli.NonPersistent}}
		}
		if n.inherit {
			cmd.Flags = append(cmd.Flags, &cli.Flag{Name: "f", Value: new(bool)})
		}
		if n.intercept != nil {
			a := &cli.Arg{Uses: cli.ExecuteSubcommand(d.handler(n.intercept))}
			if n.named {
				a.Name = "sub"
			}
			cmd.Args = []*cli.Arg{a}
		}
	}
	for _, k := range n.kids {
		cmd.Subcommands = append(cmd.Subcommands, d.build(k))
	}
	return cmd
}

// ---- the model

type dmodel struct {
	log   []string
	help  string
	again bool // a command is run within itself
}

type dframe struct {
	n        *dnode
	handlers []*dhandler
	set      bool // has any, or the reset
}

type dend struct {
	err string
	pv  any
}

func (m *dmodel) note(format string, args ...any) {
	m.log = append(m.log, fmt.Sprintf(format, args...))
}

func dpath(chain []*dframe) string {
	var res []string
	for _, f := range chain {
		res = append(res, f.n.id)
	}
	return strings.Join(res, "/")
}

func (m *dmodel) step(chain []*dframe, at, x string) *dend {
	n := chain[len(chain)-1].n
	m.note("%s %s%s", at, dpath(chain), x)
	if f := n.fail[at]; f != nil {
		return &dend{derr(f.err), f.pv}
	}
	return nil
}

// exec runs the command with the words, of which the first is how it is called.
func (m *dmodel) exec(n *dnode, words []string, chain []*dframe) *dend {
	refused := &dend{err: "the line is refused"}
	f := &dframe{n: n}
	m.again = m.again || slices.ContainsFunc(chain, func(f *dframe) bool { return f.n == n })
	chain = append(slices.Clip(chain), f)
	x := ""
	var rest []string
	inherit := slices.ContainsFunc(chain, func(f *dframe) bool { return f.n.inherit })
	switch n.leaf {
	case "":
		v := false
		rest = words[1:]
		for len(rest) > 0 && strings.HasPrefix(rest[0], "-") && rest[0] != "-" {
			if rest[0] == "-f" && inherit {
				rest = rest[1:]
				continue
			}
			if rest[0] != "-v" || !n.flag {
				return refused
			}
			v, rest = true, rest[1:]
		}
		if n.flag {
			x = fmt.Sprintf(" v=%v", v)
		}
	case "flags":
		set := false
		list := []string{}
		for _, s := range words[1:] {
			if !strings.HasPrefix(s, "-") || s == "-" {
				list = append(list, s)
			} else if s == "-f" {
				set = true
			} else {
				return refused
			}
		}
		x = fmt.Sprintf(" f=%v list=%q as=%q", set, list, words[:1])
	case "rest":
		x = fmt.Sprintf(" list=%q as=%q", words[1:], words[:1])
	case "none":
		for _, s := range words[1:] {
			if s != "-f" || !inherit {
				return refused
			}
		}
		x = fmt.Sprintf(" as=%q", words[:1])
	}
	for _, before := range []bool{false, true} {
		for _, r := range n.regs {
			if r.before == before {
				f.set = true
				if r.h == nil {
					f.handlers = nil
				} else {
					f.handlers = append(f.handlers, r.h)
				}
			}
		}
	}
	if e := m.step(chain, "before", ""); e != nil {
		return e
	}
	ran := false
	if n.leaf == "" && len(rest) > 0 {
		var e *dend
		if ran, e = m.dispatch(rest, chain); e != nil {
			return e
		}
	}
	if !ran {
		if n.leaf == "" && !n.own {
			var names []string
			for _, f := range chain {
				names = append(names, f.n.name)
			}
			m.help = "usage: " + strings.Join(names, " ") + " "
		} else if e := m.step(chain, "action", x); e != nil {
			return e
		}
	}
	return m.step(chain, "after", "")
}

func dfind(n *dnode, name string) *dnode {
	for _, k := range n.kids {
		if k.name == name || slices.Contains(k.aliases, name) {
			return k
		}
	}
	return nil
}

func dmissing(s string) string { return fmt.Sprintf("%q is not a command", s) }

func (m *dmodel) dispatch(words []string, chain []*dframe) (bool, *dend) {
	n := chain[len(chain)-1].n
	if k := dfind(n, words[0]); k != nil {
		return true, m.exec(k, words, chain)
	}
	var hs []*dhandler
	if n.intercept != nil {
		hs = []*dhandler{n.intercept}
	} else {
		for i := len(chain) - 1; i >= 0; i-- {
			if chain[i].set {
				hs = chain[i].handlers
				break
			}
		}
	}
	err := dmissing(words[0])
	for i := len(hs) - 1; i >= 0; i-- {
		h := hs[i]
		if h.kind == "implicit" {
			if k := dfind(n, h.name); k != nil {
				return true, m.exec(k, append([]string{h.name}, words...), chain)
			}
			err = dmissing(h.name)
			continue
		}
		m.note("handler %s in %s given %s words %q", h.id, dpath(chain), err, words)
		switch h.kind {
		case "give":
			on := slices.ContainsFunc(chain, func(f *dframe) bool { return f.n == h.target })
			if !on {
				return true, m.exec(h.target, words, chain)
			}
		case "fresh":
			if f := h.target.fail["uses"]; f != nil {
				m.note("uses %s", h.target.id)
				return true, &dend{derr(f.err), f.pv}
			}
			return true, m.exec(h.target, words, chain)
		case "error", "both":
			err = derr(h.err)
		case "skip", "skipboth":
			return false, nil
		case "panic":
			return false, &dend{pv: simPanic{h.id}}
		}
	}
	return false, &dend{err: err}
}

// runDispatch runs an app with commands and handlers of commands not found.
func runDispatch(w *core.World) {
	d := &disp{w: w, fault: 2}
	root := d.drawNode(0, "app")
	nh := 0
	for _, n := range d.all {
		if n.leaf != "" {
			continue
		}
		for w.Chance(11, 20) {
			r := dreg{before: w.Chance(1, 4)}
			if !w.Chance(1, 8) {
				r.h = d.drawHandler(n)
			}
			n.regs = append(n.regs, r)
			nh++
		}
		if w.Chance(1, 12) {
			n.intercept = d.drawHandler(n)
			if n.intercept.kind == "implicit" {
				n.intercept.kind = "none"
			}
			n.named = w.Chance(1, 2)
			nh++
		}
	}
	words := []string{"app"}
	at := root
	for range w.Range(0, 5) {
		if at != nil && at.flag && w.Chance(1, 5) {
			words = append(words, "-v")
		}
		var next *dnode
		if at != nil && len(at.kids) > 0 && w.Chance(2, 5) {
			next = core.Pick(w, at.kids...)
			words = append(words, core.Pick(w, append([]string{next.name}, next.aliases...)...))
		} else {
			var more []string
			for _, n := range d.all {
				if n.first != "" {
					more = append(more, n.first)
				}
			}
			words = append(words, core.Pick(w, append(append(more, d.names...), "nope", "", "-f", "nope", "-f", "-", "x y", "a,b", "0")...))
		}
		at = next
	}
	m := &dmodel{}
	end := m.exec(root, words, nil)
	if m.again {
		return // it has the values of the run around it
	}
	if end == nil {
		end = &dend{err: "nil"}
	}
	cmd := d.build(root)
	so, se := &simWriter{w: w, failAt: -1}, &simWriter{w: w, failAt: -1}
	app := &cli.App{Name: cmd.Name, Flags: cmd.Flags, Args: cmd.Args, Commands: cmd.Subcommands, Data: cmd.Data,
		Uses: cmd.Uses, Before: cmd.Before, Action: cmd.Action, After: cmd.After, Stdout: so, Stderr: se}
	var err error
	pv, site := w.CallStack(func() { err = app.RunContext(context.Background(), words) })
	if w.Exceeded() {
		panic(pv)
	}
	if end.pv != nil {
		w.Fault("panicking step or handler")
	}
	switch {
	case pv != end.pv:
		w.Fail("panic", "%q ended with panic %v at %s, expected %v", words, pv, site, end.pv)
		return
	}
	i := 0
	for i < len(d.log) && i < len(m.log) && d.log[i] == m.log[i] {
		i++
	}
	switch {
	case i < len(d.log) && i < len(m.log):
		w.Fail("dispatch", "%q: step %d is %q, expected %q", words, i, d.log[i], m.log[i])
	case i < len(d.log):
		w.Fail("extra", "%q: %q is run as step %d, but nothing should", words, d.log[i], i)
	case i < len(m.log):
		w.Fail("missing", "%q: %q is not run as step %d (the run ends with %v)", words, m.log[i], i, errName(err))
	case pv == nil && derr(err) != end.err:
		w.Fail("result", "%q ends with %s, expected %s", words, errName(err), end.err)
	case m.help == "" && se.buf.Len() > 0 || !strings.HasPrefix(se.buf.String(), m.help):
		w.Fail("help", "%q: wrote %q to standard error, expected %q", words, se.buf.String(), m.help)
	}
	for _, l := range m.log {
		if strings.HasPrefix(l, "handler") {
			w.Probe("handler asked")
			break
		}
	}
	w.Nontrivial = len(m.log) > 2
}

func init() {
	register(&core.Property{
		ID:        "C15",
		QuickRuns: 150000, ThoroughRuns: 3000000,
		Rule:      "a command line runs the command its words name, or the one that the handlers of commands not found give",
		Real:      []string{"parser, command tree, sub-command dispatch, handlers, ImplicitCommand, ExecuteSubcommand, help screen"},
		Stub:      []string{"the steps and handlers (recorded, may fail or panic)", "standard output and error (in memory)"},
		Scenarios: []core.Scenario{{Name: "dispatch", Weight: 1, Run: runDispatch}},
	})
}
