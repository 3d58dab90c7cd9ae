package scen

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"

	"joesim/core"
)

// openedWithContext transfers the bytes of a real file, opened with a context,
// by a random sequence of reads on a slow device, while the context ends at a
// random instant.
func openedWithContext(w *core.World) {
	o := newOsWorld(w)
	o.stop()
	n := w.Int(80)
	data := make([]byte, n)
	for i := range data {
		data[i] = byte('a' + i%26)
	}
	name := core.Pick(w, "f", "d/f", "d/e/f")
	full := filepath.Join(o.dir, name)
	must(os.MkdirAll(filepath.Dir(full), 0o755))
	must(os.WriteFile(full, data, 0o644))

	f := &osFile{chunk: w.Int(20), deadlineOK: w.Chance(1, 2)}
	if w.Chance(3, 4) {
		f.delay = time.Duration(w.Range(0, 5)) * 10 * time.Millisecond
	}
	if w.Chance(1, 8) && n > 0 {
		f.readErr, f.readAt = &simErr{"read"}, w.Int(n)
	}
	if w.Chance(1, 16) {
		f.openErr = &simErr{"open"}
	}
	o.files[filepath.Clean(name)] = f

	start := time.Now()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cancelAt, deadline := time.Duration(-1), time.Duration(-1)
	if w.Chance(1, 2) {
		cancelAt = time.Duration(w.Range(0, 20))*10*time.Millisecond + 7*time.Millisecond
		t := time.AfterFunc(cancelAt, func() { w.Fault("context-cancel"); cancel() })
		defer t.Stop()
	}
	if w.Chance(1, 2) {
		deadline = time.Duration(w.Range(0, 20))*10*time.Millisecond + 5*time.Millisecond
		c, cancel2 := context.WithDeadline(ctx, start.Add(deadline))
		defer cancel2()
		ctx = c
	}
	ended := func() error {
		now := time.Since(start)
		c, d := cancelAt >= 0 && now >= cancelAt, deadline >= 0 && now >= deadline
		switch {
		case c && (!d || cancelAt < deadline):
			return context.Canceled
		case d:
			return context.DeadlineExceeded
		}
		return nil
	}
	ownErr := func(err, want error) bool {
		return errors.Is(err, want) || deadline >= 0 && time.Since(start) >= deadline && errors.Is(err, os.ErrDeadlineExceeded)
	}
	late := 0
	o.onOp = func(op *os.JoesimOp) {
		if op.Op == "read" && ended() != nil {
			late++
		}
	}
	os.JoesimHook, os.JoesimDone = o.before, o.after

	w.Ev("file %s of %d bytes, chunk %d, delay %v, deadlines %v, readErr %v@%d; cancel %v deadline %v", name, n, f.chunk, f.delay, f.deadlineOK, f.readErr, f.readAt, cancelAt, deadline)

	var body func(open func(context.Context) (fs.File, error))
	via := w.Int(7)
	rel := name
	abs := full
	body = func(open func(context.Context) (fs.File, error)) {
		if w.Chance(1, 4) {
			time.Sleep(time.Duration(w.Range(0, 20)) * 10 * time.Millisecond)
		}
		file, err := open(ctx)
		if f.openErr != nil {
			if !errors.Is(err, f.openErr) {
				w.Fail("open-error", "opening failed with an injected error, which was not reported: %v", err)
			}
			return
		}
		if err != nil {
			if e := ended(); e != nil && errors.Is(err, e) {
				return
			}
			w.Fail("open-error", "opening an existing file failed: %v", err)
			return
		}
		defer file.Close()
		readThrough(w, o, f, file, data, ended, ownErr, &late, deadline, start)
	}

	switch via {
	case 0:
		body(func(c context.Context) (fs.File, error) {
			return (&cli.File{Name: rel, FS: cli.DirFS(o.dir)}).OpenContext(c)
		})
	case 1:
		body(func(c context.Context) (fs.File, error) {
			return cli.NewFS(cli.DirFS(o.dir)).OpenContext(c, rel)
		})
	case 2:
		body(func(c context.Context) (fs.File, error) {
			return cli.NewSysFS(cli.DirFS(o.dir), new(bytes.Buffer), io.Discard).OpenContext(c, rel)
		})
	case 3:
		body(func(c context.Context) (fs.File, error) {
			return (&cli.File{Name: abs}).OpenContext(c)
		})
	case 4:
		body(func(c context.Context) (fs.File, error) {
			if filepath.Dir(rel) == "." {
				return cli.DirFS(o.dir).OpenContext(c, rel)
			}
			sub, err := fs.Sub(cli.DirFS(o.dir), filepath.Dir(rel))
			if err != nil {
				return nil, err
			}
			return (&cli.File{Name: filepath.Base(rel), FS: sub}).OpenContext(c)
		})
	default:
		// the context of the running action
		app := &cli.App{
			Name: "app", Stdin: new(bytes.Buffer), Stdout: io.Discard, Stderr: io.Discard,
			Args: []*cli.Arg{{Name: "file", Value: new(cli.File)}},
			Action: func(c *cli.Context) error {
				body(func(cc context.Context) (fs.File, error) {
					if via == 5 {
						return c.File("file").OpenContext(c)
					}
					return c.File("file").OpenContext(c.Context())
				})
				return nil
			},
		}
		arg := abs
		if w.Chance(1, 2) {
			app.FS, arg = cli.DirFS(o.dir), rel
		}
		if err := app.RunContext(ctx, []string{"app", arg}); err != nil && ended() == nil {
			w.Fail("run-error", "the run failed: %v", err)
		}
	}
}

type ctxRecorder struct {
	simStatFS
	got *context.Context
}

func (s ctxRecorder) OpenContext(c context.Context, name string) (fs.File, error) {
	*s.got = c
	if err := c.Err(); err != nil {
		return nil, err
	}
	return s.Open(name)
}

// passedContext opens files of a file system that has its own OpenContext, which
// must be given the context and be believed.
func passedContext(w *core.World) {
	s := newSimFS(w)
	n := s.add("d/f", "content")
	if w.Chance(1, 4) {
		n.openErr = &simErr{"open"}
	}
	var got context.Context
	base := fs.FS(ctxRecorder{simStatFS{s}, &got})
	for i := w.Int(4); i > 0; i-- {
		switch w.Int(3) {
		case 0:
			base = cli.NewFS(base)
		case 1:
			base = cli.NewSysFS(cli.NewFS(base), new(bytes.Buffer), io.Discard)
		}
	}
	ctx := context.WithValue(context.Background(), callerKey{}, "v")
	if w.Chance(2, 3) {
		// otherwise it is a context that only carries a value and can't end
		c, cancel := context.WithCancel(ctx)
		defer cancel()
		ctx = c
		if w.Chance(1, 2) {
			w.Fault("context-cancel")
			cancel()
		}
	}
	name := core.Pick(w, "d/f", "d/none")
	judge := func(f fs.File, err error) {
		var want error
		switch {
		case ctx.Err() != nil:
			want = ctx.Err()
		case name == "d/none":
			want = fs.ErrNotExist
		case n.openErr != nil:
			want = n.openErr
		}
		w.Ev("open %s: %v, expected %v", name, err, want)
		if got == nil {
			w.Fail("context-not-passed", "opening %s did not use the file system's OpenContext", name)
			return
		}
		if got.Value(callerKey{}) != "v" || got.Err() != ctx.Err() {
			w.Fail("context-not-passed", "OpenContext was given another context")
			return
		}
		if want != nil {
			if !errors.Is(err, want) {
				w.Fail("open-error", "expected %v, got %v", want, err)
			}
			return
		}
		if err != nil {
			w.Fail("open-error", "expected success, got %v", err)
			return
		}
		bb, err := io.ReadAll(f)
		f.Close()
		if err != nil || string(bb) != "content" {
			w.Fail("bytes", "read %q, %v", bb, err)
		}
	}
	if w.Chance(1, 2) {
		judge((&cli.File{Name: name, FS: base}).OpenContext(ctx))
		return
	}
	app := &cli.App{
		Name: "app", Stdin: new(bytes.Buffer), Stdout: io.Discard, Stderr: io.Discard, FS: base,
		Args:   []*cli.Arg{{Name: "file", Value: new(cli.File)}},
		Action: func(c *cli.Context) error { return nil },
	}
	ran := false
	app.Args[0].Action = func(c *cli.Context) error {
		ran = true
		if w.Chance(1, 2) {
			judge(c.File("").OpenContext(c))
		} else {
			judge(c.Value("").(*cli.File).OpenContext(ctx))
		}
		return nil
	}
	run := ctx
	if ctx.Err() != nil {
		// a run needs a live context to reach the action
		run = context.Background()
		app.Args[0].Action = func(c *cli.Context) error {
			ran = true
			judge(c.File("").OpenContext(ctx))
			return nil
		}
	}
	if err := app.RunContext(run, []string{"app", name}); err != nil || !ran {
		w.Fail("run-error", "the run failed: %v", err)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func readThrough(w *core.World, o *osWorld, f *osFile, file fs.File, data []byte, ended func() error, ownErr func(err, want error) bool, late *int, deadline time.Duration, start time.Time) {
	// check judges a transfer that started when the context was in state before
	check := func(what string, before error, got []byte, off int, err error, wholeFile bool) bool {
		after := ended()
		w.Ev("%s at %v: %d bytes, %v (ended before: %v, after: %v)", what, w.Elapsed(), len(got), err, before, after)
		if off > len(data) || off+len(got) > len(data) || string(got) != string(data[off:off+len(got)]) {
			w.Fail("bytes", "%s at offset %d returned %q", what, off, got)
			return false
		}
		if *late > 0 && (before != nil || !strings.HasPrefix(what, "ReadAt")) {
			w.Fail("read-after-end", "%s: the device was read after the context had ended", what)
			return false
		}
		if before != nil {
			if len(got) > 0 {
				w.Fail("bytes-after-end", "%s transferred %d bytes after the context had ended", what, len(got))
				return false
			}
			if !ownErr(err, before) {
				w.Fail("error-after-end", "%s after the context had ended returned error %v, expected %v", what, err, before)
				return false
			}
			return true
		}
		if after != nil {
			w.Probe("ended-during-transfer")
			if f.readErr != nil && errors.Is(err, f.readErr) {
				return true
			}
			complete := off+len(got) == len(data)
			if !ownErr(err, after) && !(complete && (err == io.EOF || wholeFile && err == nil)) {
				w.Fail("error-during", "%s, during which the context ended, returned error %v, expected %v", what, err, after)
				return false
			}
			return true
		}
		// the context is alive: the plain file's behaviour
		switch {
		case f.readErr != nil && errors.Is(err, f.readErr):
		case err != nil && err != io.EOF:
			w.Fail("spurious-error", "%s failed with %v while the context had not ended", what, err)
			return false
		case wholeFile && off+len(got) != len(data):
			w.Fail("short", "%s transferred %d of %d bytes without error", what, len(got), len(data)-off)
			return false
		case err == io.EOF && off+len(got) != len(data):
			w.Fail("short", "%s reported the end of the file after %d of %d bytes", what, off+len(got), len(data))
			return false
		}
		return true
	}
	off := 0
	for i := w.Range(1, 5); i > 0; i-- {
		if w.Chance(1, 4) {
			time.Sleep(time.Duration(w.Range(0, 12)) * 10 * time.Millisecond)
		}
		before := ended()
		t0 := time.Since(start)
		*late = 0
		switch w.Int(9) {
		case 0, 1:
			p := make([]byte, w.Range(1, 30))
			k, err := file.Read(p)
			if !check(fmt.Sprintf("Read(%d)", len(p)), before, p[:k], off, err, false) {
				return
			}
			off += k
		case 2:
			got, err := io.ReadAll(file)
			if !check("ReadAll", before, got, off, err, true) {
				return
			}
			off += len(got)
		case 3:
			var buf bytes.Buffer
			_, err := io.Copy(&buf, file)
			if !check("Copy", before, buf.Bytes(), off, err, true) {
				return
			}
			off += buf.Len()
		case 4:
			// a destination that is not a buffer
			var buf writeLog
			_, err := io.Copy(&buf, file)
			if !check("Copy to plain writer", before, buf.data, off, err, true) {
				return
			}
			off += len(buf.data)
		case 5:
			if f.readErr != nil {
				continue
			}
			ra, ok := file.(io.ReaderAt)
			if !ok {
				continue
			}
			at := w.Int(len(data) + 1)
			p := make([]byte, w.Range(1, 30))
			k, err := ra.ReadAt(p, int64(at))
			if !check(fmt.Sprintf("ReadAt(%d,%d)", len(p), at), before, p[:k], at, err, false) {
				return
			}
		case 6:
			// seeking does not transfer anything
			sk, ok := file.(io.Seeker)
			if !ok {
				continue
			}
			if _, err := sk.Seek(0, io.SeekStart); err != nil {
				if before == nil {
					w.Fail("seek", "seek failed: %v", err)
					return
				}
				continue
			}
			off = 0
		case 7:
			r := bufio.NewReaderSize(file, 16)
			var got []byte
			var err error
			for {
				var b byte
				if b, err = r.ReadByte(); err != nil {
					break
				}
				got = append(got, b)
			}
			if !check("bufio", before, got, off, err, true) {
				return
			}
			off += len(got)
		case 8:
			// it was opened for reading
			var k int64
			var err error
			what := core.Pick(w, "Write", "WriteAt", "WriteString", "ReadFrom")
			switch what {
			case "Write":
				x, ok := file.(io.Writer)
				if !ok {
					continue
				}
				var n int
				n, err = x.Write([]byte("x"))
				k = int64(n)
			case "WriteAt":
				x, ok := file.(io.WriterAt)
				if !ok {
					continue
				}
				var n int
				n, err = x.WriteAt([]byte("x"), 0)
				k = int64(n)
			case "WriteString":
				x, ok := file.(io.StringWriter)
				if !ok {
					continue
				}
				var n int
				n, err = x.WriteString("x")
				k = int64(n)
			case "ReadFrom":
				x, ok := file.(io.ReaderFrom)
				if !ok {
					continue
				}
				k, err = x.ReadFrom(strings.NewReader("xy"))
			}
			w.Ev("%s at %v: %d, %v", what, w.Elapsed(), k, err)
			switch {
			case err == nil || k != 0:
				w.Fail("write", "%s of a file opened for reading wrote %d bytes and returned %v", what, k, err)
				return
			case before != nil && !ownErr(err, before):
				w.Fail("error-after-end", "%s after the context had ended returned error %v, expected %v", what, err, before)
				return
			case ended() == nil && (errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)):
				w.Fail("spurious-error", "%s failed with %v while the context had not ended", what, err)
				return
			}
			continue // the simulated device is slow to refuse a write, whatever the deadline
		}
		// a read that blocks on a device with deadlines ends in time
		if f.deadlineOK && deadline >= 0 && before == nil && t0 < deadline && time.Since(start) > deadline+time.Millisecond {
			w.Fail("blocked-past-deadline", "a read that started at %v returned at %v, the deadline was %v", t0, time.Since(start), deadline)
			return
		}
	}
}

type writeLog struct{ data []byte }

func (l *writeLog) Write(p []byte) (int, error) { l.data = append(l.data, p...); return len(p), nil }

func init() {
	register(&core.Property{
		ID: "C06", QuickRuns: 150000, ThoroughRuns: 2000000,
		Rule:      "A real file in a scratch directory, opened with a context through each of the library's file systems, is read by random sequences of Read, ReadAt, Copy, ReadAll, buffered reads and seeks on a simulated slow device with short reads and read errors, while the context is cancelled or its deadline passes at a random simulated instant.",
		Real:      []string{"cli package: File, DirFS, NewFS, NewSysFS, Sub, contextFile", "package os on a scratch directory", "io, bufio"},
		Stub:      []string{"the clock", "duration, splitting and failure of each read (hooked in package os)", "device deadlines"},
		Scenarios: []core.Scenario{{Name: "context-file", Weight: 8, Run: openedWithContext}, {Name: "context-passed", Run: passedContext}},
	})
}
