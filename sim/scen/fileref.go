package scen

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"reflect"
	"strconv"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/value"

	"joesim/core"
)

type refDoc struct {
	A string
	B int
}

// refReader is a value that reads its data itself.
type refReader struct {
	got string
	err error
}

func (r *refReader) Set(s string) error { r.got += s; return r.err }
func (r *refReader) String() string     { return r.got }
func (r *refReader) SetData(in io.Reader) error {
	var b strings.Builder
	p := make([]byte, 7)
	for {
		n, err := in.Read(p)
		b.Write(p[:n])
		if err == io.EOF {
			r.got += b.String()
			return r.err
		}
		if err != nil {
			return err
		}
	}
}

// refPlain is a value without SetData.
type refPlain struct{ got string }

func (r *refPlain) Set(s string) error { r.got = s; return nil }
func (r *refPlain) String() string     { return r.got }

const (
	rtString = iota
	rtList
	rtBytes
	rtInt
	rtMap
	rtNV
	rtJSON
	rtFileSet
	rtReader
	rtPlain
	rtCount
)

type refOpt struct {
	name   string
	typ    int
	arg    bool
	opt    bool // literal unless @
	how    int  // field, Uses, transform with its own file system
	each   bool
	valErr error
	val    any
	occ    [][]string // values of each occurrence
	raw    []string   // the texts each occurrence resolves to
}

type refRun struct {
	w       *core.World
	fs, fs2 *simFS
	std     *simReader
	stdText string
	names   int
	missing bool // a file that doesn't exist is named
	useStd  bool
	stdUsed bool
	steps   []string
	atFault int
	faulty  bool
}

func (r *refRun) content(typ int) string {
	w := r.w
	switch typ {
	case rtInt:
		if w.Chance(1, 12) {
			return "x1"
		}
		return strconv.Itoa(w.Int(1000))
	case rtMap:
		var kv []string
		for i := w.Range(1, 2); i > 0; i-- {
			kv = append(kv, fmt.Sprintf("k%d=v%d", w.Int(3), w.Int(9)))
		}
		return kv[0]
	case rtJSON:
		pad := ""
		if w.Chance(1, 6) {
			pad = strings.Repeat("p", w.Range(500, 1200))
		}
		return fmt.Sprintf(`{"A":"t%d%s","B":%d}`, w.Int(9), pad, w.Int(99))
	case rtFileSet:
		var b strings.Builder
		for i := w.Int(5); i > 0; i-- {
			switch w.Int(5) {
			case 0:
				b.WriteString("\n")
			case 1:
				b.WriteString("# comment\n")
			case 2:
				b.WriteString("  ; also a comment \r\n")
			case 3:
				b.WriteString("  dir/p" + strconv.Itoa(w.Int(9)) + "\t\r\n")
			default:
				b.WriteString("q" + strconv.Itoa(w.Int(9)) + "\n")
			}
		}
		return b.String()
	}
	if w.Chance(1, 10) {
		return strings.Repeat("0123456789abcde\n", w.Range(30, 400))
	}
	var b strings.Builder
	for i := w.Int(14); i > 0; i-- {
		b.WriteString(core.Pick(w, "a", "b", " ", "=", ",", "\\", "\n", "@", "é", "\x00", "'"))
	}
	if typ == rtNV {
		return strings.ReplaceAll(b.String(), "\\", "")
	}
	return b.String()
}

// file makes a file and returns its name; the second value is its content.
func (r *refRun) file(o *refOpt) (string, string) {
	w := r.w
	if r.useStd && !r.stdUsed && !o.each && o.how != 2 && (o.typ < rtInt || o.typ >= rtReader) && w.Chance(1, 3) {
		r.stdUsed = true
		return "-", r.stdText
	}
	s := r.fs
	if o.how == 2 {
		s = r.fs2
	}
	r.names++
	name := core.Pick(w, "", "d/", "d/e/") + core.Pick(w, "f", "f", "f", "f ", " f", "@f") + strconv.Itoa(r.names) + core.Pick(w, "", "", "", "", " ", ",x", "=e", ".txt", "\n")
	if o.typ == rtNV {
		// the syntax of pairs trims spaces
		name = strings.TrimSpace(name)
	}
	text := r.content(o.typ)
	n := s.add(name, text)
	n.benign(w)
	if r.faulty && w.Chance(1, 6) {
		switch w.Int(4) {
		case 0:
			n.openErr = &simErr{"open " + name}
		case 1:
			n.openErr, n.openAfter = &simErr{"reopen " + name}, w.Range(1, 2)
		default:
			n.readErr, n.readAt, n.errData = &simErr{"read " + name}, w.Int(len(text)+1), w.Chance(1, 3)
			if o.typ == rtJSON {
				// nothing needs to be read after the document
				n.readAt = w.Int(len(text) - 1)
			}
		}
	}
	if r.faulty && w.Chance(1, 12) {
		r.missing = true
		return name + ".missing", ""
	}
	// the same name under another spelling
	switch w.Int(4) {
	case 0:
		name = "./" + name
	}
	return name, text
}

func (r *refRun) mkOpt(i int, arg bool) *refOpt {
	w := r.w
	o := &refOpt{name: fmt.Sprintf("o%d", i), arg: arg, typ: w.Int(rtCount), how: w.Int(3)}
	if o.typ == rtNV {
		o.opt, o.how = true, 0
	} else {
		o.opt = w.Chance(1, 2)
	}
	if o.typ == rtMap && arg {
		o.typ = rtString
	}
	o.each = w.Chance(1, 4) && o.typ != rtJSON && o.typ != rtMap && o.typ != rtNV && o.typ != rtFileSet && o.typ != rtReader && o.typ != rtPlain
	if o.typ == rtReader && w.Chance(1, 12) {
		o.valErr = &simErr{"value"}
	}
	return o
}

func (r *refRun) occurrences(o *refOpt) {
	w := r.w
	n := w.Int(4)
	if o.arg || o.typ == rtJSON {
		n = w.Int(2)
	}
	for i := 0; i < n; i++ {
		k := 1
		if !o.arg && o.typ == rtList {
			k = w.Range(1, 3)
		}
		var vals []string
		text := ""
		for j := 0; j < k; j++ {
			if o.opt && w.Chance(1, 3) {
				lit := r.content(o.typ)
				if o.typ == rtJSON || strings.HasPrefix(lit, "@") || strings.HasPrefix(lit, "-") || lit == "" || o.typ == rtNV && strings.ContainsAny(lit, "=\\") {
					lit = core.Pick(w, "lit", "x@y", "f1")
					switch o.typ {
					case rtInt:
						lit = "7"
					case rtMap:
						lit = "k1=z"
					case rtJSON:
						lit = `{"A":"lit"}`
					case rtFileSet:
						lit = "lit\n"
					}
				}
				vals = append(vals, lit)
				text += lit
				continue
			}
			name, content := r.file(o)
			if o.opt {
				name = "@" + name
			}
			vals = append(vals, name)
			text += content
		}
		if o.typ == rtNV {
			key := "n" + strconv.Itoa(w.Int(4))
			if w.Chance(1, 3) {
				vals = []string{key, vals[0]}
			} else {
				vals = []string{key + "=" + vals[0]}
			}
			text = key + "=" + text
		}
		o.occ = append(o.occ, vals)
		o.raw = append(o.raw, text)
	}
}

func (o *refOpt) expect(raw []string) any {
	switch o.typ {
	case rtString:
		if len(raw) == 0 {
			return ""
		}
		return raw[len(raw)-1]
	case rtPlain:
		if len(raw) == 0 {
			return ""
		}
		return raw[len(raw)-1]
	case rtList:
		return append([]string(nil), raw...)
	case rtBytes:
		return []byte(strings.Join(raw, ""))
	case rtReader:
		return strings.Join(raw, "")
	case rtInt:
		if len(raw) == 0 {
			return 0
		}
		v, _ := strconv.Atoi(raw[len(raw)-1])
		return v
	case rtMap:
		m := map[string]string{}
		for _, t := range raw {
			for _, kv := range strings.SplitN(t, "k", -1)[1:] {
				k, v, _ := strings.Cut("k"+kv, "=")
				m[k] = v
			}
		}
		return m
	case rtNV:
		if len(raw) == 0 {
			return "="
		}
		// the pair is subject to the syntax of pairs
		return strings.TrimSpace(raw[len(raw)-1])
	case rtJSON:
		var d refDoc
		if len(raw) > 0 && raw[len(raw)-1] != "" {
			t := raw[len(raw)-1]
			a := strings.Index(t, `":"`) + 3
			d.A = t[a : a+strings.Index(t[a:], `"`)]
			if b := strings.Index(t, `"B":`); b >= 0 {
				d.B, _ = strconv.Atoi(strings.TrimSuffix(t[b+4:], "}"))
			}
		}
		return d
	case rtFileSet:
		var l []string
		for _, t := range raw {
			for _, s := range strings.Split(t, "\n") {
				s = strings.TrimSpace(s)
				if s != "" && s[0] != '#' && s[0] != ';' {
					l = append(l, s)
				}
			}
		}
		return l
	}
	panic("type")
}

func (o *refOpt) read(v any) any {
	switch p := v.(type) {
	case *string:
		return *p
	case string:
		return p
	case *[]string:
		return append([]string(nil), (*p)...)
	case []string:
		return append([]string(nil), p...)
	case *[]byte:
		return append([]byte(nil), (*p)...)
	case []byte:
		return append([]byte(nil), p...)
	case *int:
		return *p
	case int:
		return p
	case *map[string]string:
		m := map[string]string{}
		for k, v := range *p {
			m[k] = v
		}
		return m
	case map[string]string:
		if p == nil {
			return map[string]string{}
		}
		return p
	case *cli.NameValue:
		return p.Name + "=" + p.Value
	case *refDoc:
		return *p
	case *cli.FileSet:
		return append([]string(nil), p.Files...)
	case *refReader:
		return p.got
	case *refPlain:
		return p.got
	}
	return fmt.Sprintf("%T", v)
}

func (o *refOpt) target() any {
	switch o.typ {
	case rtString:
		o.val = new(string)
	case rtList:
		o.val = new([]string)
	case rtBytes:
		o.val = new([]byte)
	case rtInt:
		o.val = new(int)
	case rtMap:
		o.val = new(map[string]string)
	case rtNV:
		o.val = &cli.NameValue{AllowFileReference: true}
	case rtJSON:
		d := new(refDoc)
		o.val = d
		return value.JSON(d)
	case rtFileSet:
		o.val = new(cli.FileSet)
	case rtReader:
		o.val = &refReader{err: o.valErr}
	case rtPlain:
		o.val = new(refPlain)
	}
	return o.val
}

func fileReferences(w *core.World) {
	r := &refRun{w: w, fs: newSimFS(w), fs2: newSimFS(w), faulty: w.Chance(1, 2), useStd: w.Chance(1, 4)}
	// the second file system has other content under the same names
	r.stdText = r.content(rtString)
	stdin := &simReader{w: w, n: &simNode{name: "-", data: []byte(r.stdText)}}
	stdin.n.benign(w)
	if r.faulty && w.Chance(1, 4) {
		stdin.n.readErr, stdin.n.readAt = &simErr{"stdin"}, w.Int(len(r.stdText)+1)
	}
	root := &cli.Command{}
	_ = root
	nCmd := 1 + w.Int(2)
	var cmds [][]*refOpt
	argv := []string{"app"}
	id := 0
	step := func(name string) { r.steps = append(r.steps, name); w.Ev("step %s", name) }
	var firstErr func() (error, bool)
	seen := map[string][]any{}
	var flags [][]*cli.Flag
	var args [][]*cli.Arg
	wantEach := map[string][]any{}
	invalid := false
	for ci := 0; ci < nCmd; ci++ {
		var opts []*refOpt
		var fl []*cli.Flag
		var ar []*cli.Arg
		last := ci == nCmd-1
		var words [][]string
		for i := w.Range(1, 3); i > 0; i-- {
			id++
			o := r.mkOpt(id, false)
			r.occurrences(o)
			opts = append(opts, o)
			for _, vals := range o.occ {
				words = append(words, append([]string{"--" + o.name}, vals...))
			}
		}
		w.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
		// occurrences of one option keep their own order
		pos := map[string]int{}
		byName := map[string]*refOpt{}
		for _, o := range opts {
			byName["--"+o.name] = o
		}
		for _, wd := range words {
			o := byName[wd[0]]
			vals := o.occ[pos[wd[0]]]
			pos[wd[0]]++
			if len(vals) == 1 && w.Chance(1, 2) {
				argv = append(argv, wd[0]+"="+vals[0])
				if o.typ == rtList {
					argv = append(argv, "--fence")
				}
				continue
			}
			argv = append(argv, wd[0])
			argv = append(argv, vals...)
		}
		if last && w.Chance(1, 2) {
			argv = append(argv, "--fence")
			for i := w.Range(1, 2); i > 0; i-- {
				id++
				o := r.mkOpt(id, true)
				if o.typ == rtList || o.typ == rtFileSet || o.typ == rtNV {
					o.typ, o.opt = rtString, o.typ != rtNV
				}
				r.occurrences(o)
				if len(o.occ) == 0 && i > 1 {
					continue // a later arg can't be given without this one
				}
				opts = append(opts, o)
				for _, vals := range o.occ {
					argv = append(argv, vals...)
				}
			}
		} else {
			argv = append(argv, "--fence")
		}
		for _, o := range opts {
			o := o
			for _, t := range o.raw {
				if o.typ == rtInt && t == "x1" {
					invalid = true
				}
			}
			var options cli.Option
			var uses any
			switch {
			case o.typ == rtNV:
			case o.how == 0 && o.opt:
				options = cli.AllowFileReference
			case o.how == 0:
				options = cli.FileReference
			case o.how == 1 && o.opt:
				uses = cli.AllowFileReference
			case o.how == 1:
				uses = cli.FileReference
			case o.opt:
				uses = cli.Transform(cli.TransformOptionalFileReference(r.fs2))
			default:
				uses = cli.Transform(cli.TransformFileReference(simStatFS{r.fs2}))
			}
			var act any = func(c *cli.Context) {
				seen[o.name] = append(seen[o.name], o.read(unjson(c.Value(""))))
				step("option " + o.name)
			}
			if o.each {
				options |= cli.EachOccurrence
				for i := range o.raw {
					wantEach[o.name] = append(wantEach[o.name], o.expect(o.raw[i:i+1]))
				}
			} else if len(o.raw) > 0 {
				wantEach[o.name] = []any{o.expect(o.raw)}
			}
			if o.arg {
				a := &cli.Arg{Name: o.name, Value: o.target(), Options: options, Uses: uses, Action: act}
				ar = append(ar, a)
			} else {
				fl = append(fl, &cli.Flag{Name: o.name, Value: o.target(), Options: options, Uses: uses, Action: act})
			}
			w.Ev("cmd%d %s arg=%v type=%d opt=%v how=%d each=%v occ=%q raw=%.200q", ci, o.name, o.arg, o.typ, o.opt, o.how, o.each, o.occ, o.raw)
		}
		fl = append(fl, &cli.Flag{Name: "fence", Value: new(bool)})
		cmds, flags, args = append(cmds, opts), append(flags, fl), append(args, ar)
		if !last {
			argv = append(argv, "sub")
		}
	}
	var faults []error
	mark := func() {
		if len(faults) == 0 {
			r.atFault = len(r.steps)
		}
	}
	r.fs.onFault = func(err error) { mark(); faults = append(faults, err) }
	r.fs2.onFault = r.fs.onFault
	stdin.onFault = r.fs.onFault

	check := func(ci int) {
		for _, o := range cmds[ci] {
			if got, want := o.read(o.val), o.expect(o.raw); !refEqual(got, want) {
				w.Fail("value", "%s: the action saw %.300q, expected %.300q", o.name, fmt.Sprint(got), fmt.Sprint(want))
			}
		}
	}
	app := &cli.App{Name: "app", Stdin: stdin, Stdout: io.Discard, Stderr: io.Discard,
		Flags: flags[0], Args: args[0],
		Before: func() { step("before root") },
		After:  func() { step("after root") },
	}
	app.FS = r.fs.variant()
	if r.useStd {
		app.FS = cli.NewSysFS(cli.NewFS(app.FS), stdin, new(bytes.Buffer))
	}
	if nCmd == 1 {
		app.Action = func() { step("action root"); check(0) }
	} else {
		app.Commands = []*cli.Command{{Name: "sub", Flags: flags[1], Args: args[1],
			Before: func() { step("before sub") },
			Action: func() { step("action sub"); check(0); check(1) },
			After:  func() { step("after sub") },
		}}
	}
	w.Ev("argv %.300q", argv)
	var err error
	pv, site := w.CallStack(func() { err = app.RunContext(context.Background(), argv) })
	w.Ev("run: %v", err)
	if pv != nil {
		w.Fail("panic", "run panicked: %v at %s", pv, site)
		return
	}
	_ = firstErr
	var valErr error
	for _, c := range cmds {
		for _, o := range c {
			if o.valErr != nil && len(o.raw) > 0 {
				valErr = o.valErr
			}
		}
	}
	switch {
	case len(faults) > 0 && !r.missing && errors.Is(faults[0], fs.ErrNotExist):
		w.Fail("other-file", "every file named exists, but one was opened that does not: %v", faults[0])
		return
	case len(faults) > 0:
		ok := errors.Is(err, faults[0]) || valErr != nil && errors.Is(err, valErr) || invalid && err != nil
		if !ok {
			w.Fail("error-lost", "a file could not be used (%v), but the run ended with %v", faults[0], err)
			return
		}
		if len(r.steps) != r.atFault {
			w.Fail("step-after-failure", "after a file could not be used (%v), steps %v ran", faults[0], r.steps[r.atFault:])
		}
		if err == nil {
			w.Fail("error-lost", "nil")
		}
		return
	case valErr != nil || invalid:
		if err == nil {
			w.Fail("error-lost", "a value was refused (%v), but the run ended well", valErr)
		}
		for _, s := range r.steps {
			if s == "action sub" || s == "action root" {
				w.Fail("step-after-failure", "the action ran although a value was refused")
			}
		}
		return
	case err != nil:
		w.Fail("spurious-error", "every file could be read, but the run ended with %v", err)
		return
	}
	for ci, c := range cmds {
		check(ci)
		for _, o := range c {
			if got, want := seen[o.name], wantEach[o.name]; len(got) != len(want) {
				w.Fail("action-count", "the action of %s ran %d times, expected %d", o.name, len(got), len(want))
			} else {
				for i := range got {
					if !refEqual(got[i], want[i]) {
						w.Fail("action-value", "the action of %s saw %.300q at occurrence %d, expected %.300q", o.name, fmt.Sprint(got[i]), i, fmt.Sprint(want[i]))
					}
				}
			}
		}
	}
	want := "before root, action root, after root"
	if nCmd == 2 {
		want = "before root, before sub, action sub, after sub, after root"
	}
	var main []string
	for _, s := range r.steps {
		if !strings.HasPrefix(s, "option") {
			main = append(main, s)
		}
	}
	if got := strings.Join(main, ", "); got != want {
		w.Fail("steps", "steps %s, expected %s", got, want)
	}
	if r.stdUsed {
		w.Probe("standard-input-as-file")
	}
	if r.names > 0 {
		w.Nontrivial = true
	}
}

func unjson(v any) any {
	if g, ok := v.(interface{ Get() any }); ok {
		return g.Get()
	}
	return v
}

func refEqual(a, b any) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	return va.Kind() == vb.Kind() && (va.Kind() == reflect.Slice || va.Kind() == reflect.Map) && va.Len() == 0 && vb.Len() == 0
}

var _ fs.FS

func init() {
	register(&core.Property{
		ID: "C07", QuickRuns: 150000, ThoroughRuns: 2000000,
		Rule:      "Random flags and args of ten value types refer to files of a simulated file system (or standard input) by options, transforms and @file syntax; files are delivered in odd pieces, and fail to open, re-open or read at random places.",
		Real:      []string{"cli package: FileReference, AllowFileReference, transforms, SetData and value parsing, binding", "value.JSON"},
		Stub:      []string{"the file system and standard input (in memory, with faults)"},
		Scenarios: []core.Scenario{{Name: "file-references", Run: fileReferences}},
	})
}
