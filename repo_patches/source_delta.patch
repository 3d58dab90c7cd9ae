From 015bc3b2647562ecdf060ff375f3f41873d1b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 01/88] fix: run Before and After of a flag exactly once, by
 the command that defines it

---
 context.go | 10 +++-------
 option.go  |  4 ----
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/context.go b/context.go
index ac1809e..abfc539 100644
--- a/context.go
+++ b/context.go
@@ -1563,13 +1563,9 @@ func (c *Context) setTiming(t Timing) *Context {
 
 func triggerOptionsHO(t Timing, on func(*Context) error) ActionFunc {
 	return func(ctx *Context) error {
-		for _, f := range ctx.Flags() {
-			if f.internalFlags().persistent() {
-				// This is a persistent flag that was cloned into the flag set of the current
-				// command; don't process it again
-				continue
-			}
-
+		// Only the flags defined by the command itself; flags defined by an ancestor command
+		// are processed when that command is
+		for _, f := range ctx.LocalFlags() {
 			err := on(ctx.newChild(f).setTiming(t))
 			if err != nil {
 				return err
diff --git a/option.go b/option.go
index f9fa999..49ab024 100644
--- a/option.go
+++ b/option.go
@@ -381,10 +381,6 @@ func (f internalFlags) optional() bool {
 	return f&internalFlagOptional == internalFlagOptional
 }
 
-func (f internalFlags) persistent() bool {
-	return f&internalFlagPersistent == internalFlagPersistent
-}
-
 func (f internalFlags) destinationImplicitlyCreated() bool {
 	return f&internalFlagDestinationImplicitlyCreated == internalFlagDestinationImplicitlyCreated
 }
-- 
2.43.0


From 2590e7e9af82155773753705a479565cf89712bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 02/88] fix: don't repeat the action of an ancestor's flag in
 the sub-command

---
 context.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index abfc539..e86bbfe 100644
--- a/context.go
+++ b/context.go
@@ -2129,7 +2129,19 @@ func executeUserPipeline(at Timing) actionFunc {
 func triggerOptions(ctx *Context) error {
 	// Invoke the Before action on all flags and args, but only the actual
 	// Action when the flag or arg was set
-	for _, f := range ctx.Flags() {
+	for _, f := range ctx.PersistentFlags() {
+		// The command which defines the flag triggers it unless it is being set
+		// by the arguments to this command
+		if len(ctx.internal.Bindings(f.Name)) == 0 {
+			continue
+		}
+		err := triggerOption(ctx, f)
+		if err != nil {
+			return err
+		}
+	}
+
+	for _, f := range ctx.LocalFlags() {
 		err := triggerOption(ctx, f)
 		if err != nil {
 			return err
-- 
2.43.0


From 7d9eaa4a1814b9426c1e43f3b8fb417143d4a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 03/88] fix: report a panic that was recovered in the action of
 a flag or arg

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index dfb42d6..4fbeb6c 100644
--- a/action.go
+++ b/action.go
@@ -506,7 +506,7 @@ func Recover(a Action) Action {
 	return actionFunc(func(c context.Context) error {
 		defer func() {
 			if rvr := recover(); rvr != nil {
-				FromContext(c).SetData(panicDataKey, &panicData{
+				FromContext(c).Command().SetData(panicDataKey, &panicData{
 					recovered: fmt.Sprint(rvr),
 					stack:     formatStack(),
 				})
-- 
2.43.0


From 7380eaca4822a11c59b3232d2ac26c09808bacd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 04/88] fix: don't treat the message of a recovered panic as a
 format string

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 4fbeb6c..ed71031 100644
--- a/action.go
+++ b/action.go
@@ -524,7 +524,7 @@ func failWithContextError(c *Context) error {
 	if r, ok := c.LookupData(panicDataKey); ok {
 		rvr := r.(*panicData)
 		fmt.Fprint(c.Stderr, rvr.stack)
-		return c.internalError(fmt.Errorf(rvr.recovered))
+		return c.internalError(errors.New(rvr.recovered))
 	}
 	return nil
 }
-- 
2.43.0


From c2a83c1dd071fd2c44e93f0e586672aaece97462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 05/88] fix: keep the winning value and count of an option
 during EachOccurrence

---
 arg.go    |  7 +++++++
 flag.go   |  8 ++++++++
 option.go | 16 ++++++++++++----
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/arg.go b/arg.go
index 6e2bf70..b27e5c5 100644
--- a/arg.go
+++ b/arg.go
@@ -487,6 +487,13 @@ func (a *Arg) nextOccur() {
 	optionApplyValueConventions(a.Value, a.flags, a.count == 1)
 }
 
+func (a *Arg) saveValue() func() {
+	value, count := a.Value, a.count
+	return func() {
+		a.Value, a.count = value, count
+	}
+}
+
 func (a *Arg) reset() {
 	optionReset(a.Value, a.internalFlags())
 }
diff --git a/flag.go b/flag.go
index ea4a266..b5b3431 100644
--- a/flag.go
+++ b/flag.go
@@ -178,6 +178,7 @@ type option interface {
 	setTransform(fn TransformFunc)
 	cloneZero()
 	nextOccur()
+	saveValue() func()
 }
 
 type wrapOccurrenceContext struct {
@@ -354,6 +355,13 @@ func (f *Flag) cloneZero() {
 	f.Value = valueCloneZero(f.Value)
 }
 
+func (f *Flag) saveValue() func() {
+	value, count := f.Value, f.count
+	return func() {
+		f.Value, f.count = value, count
+	}
+}
+
 func (f *Flag) reset() {
 	optionReset(f.Value, f.internalFlags())
 }
diff --git a/option.go b/option.go
index 49ab024..b6849a3 100644
--- a/option.go
+++ b/option.go
@@ -557,6 +557,10 @@ func eachOccurrenceOpt(c1 *Context) error {
 
 		scope := c.copy(opt, mini)
 
+		// Named lookups keep using the winning value
+		restoreWinner := opt.saveValue()
+		var restorePrevious func()
+
 		// Obtain either the zero value or Reset() the value
 		resetOnFirstOccur := !opt.internalFlags().merge()
 		for i := range mini.numOccurs() {
@@ -565,6 +569,8 @@ func eachOccurrenceOpt(c1 *Context) error {
 			// are in place)
 			if i == 0 || resetOnFirstOccur {
 				opt.cloneZero()
+			} else {
+				restorePrevious()
 			}
 
 			mini.index = i
@@ -572,16 +578,18 @@ func eachOccurrenceOpt(c1 *Context) error {
 			// Pretend this is the first occurrence
 			opt.reset()
 
-			if err := rawApplyToOption(
+			err := rawApplyToOption(
 				[][]string{mini.Raw("")},
 				opt.transformFunc(),
 				opt,
-			); err != nil {
+			)
+			mini.val = opt.value()
+			restorePrevious = opt.saveValue()
+			restoreWinner()
+			if err != nil {
 				return err
 			}
 
-			mini.val = c.option().value()
-
 			if err := next.Execute(scope); err != nil {
 				return err
 			}
-- 
2.43.0


From ec7ccc9926c3d83a9acf0ae818dd9aa4a1dd8e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 06/88] fix: check the context of an opened file in every
 method that transfers bytes

---
 file.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/file.go b/file.go
index 6689e26..744eada 100644
--- a/file.go
+++ b/file.go
@@ -646,6 +646,43 @@ func (c *contextFile) Write(p []byte) (n int, err error) {
 	return
 }
 
+func (c *contextFile) ReadAt(p []byte, off int64) (n int, err error) {
+	if err = c.ctx.Err(); err != nil {
+		return
+	}
+	if n, err = c.File.ReadAt(p, off); err != nil {
+		return
+	}
+	err = c.ctx.Err()
+	return
+}
+
+func (c *contextFile) WriteAt(p []byte, off int64) (n int, err error) {
+	if err = c.ctx.Err(); err != nil {
+		return
+	}
+	if n, err = c.File.WriteAt(p, off); err != nil {
+		return
+	}
+	err = c.ctx.Err()
+	return
+}
+
+func (c *contextFile) WriteString(s string) (n int, err error) {
+	return c.Write([]byte(s))
+}
+
+// ReadFrom and WriteTo must not be promoted from os.File, because
+// io.Copy would use these and never check the context
+
+func (c *contextFile) ReadFrom(r io.Reader) (n int64, err error) {
+	return io.Copy(struct{ io.Writer }{c}, r)
+}
+
+func (c *contextFile) WriteTo(w io.Writer) (n int64, err error) {
+	return io.Copy(w, struct{ io.Reader }{c})
+}
+
 func (d dirFS) Stat(name string) (fs.FileInfo, error) {
 	full, err := d.path(name)
 	if err != nil {
-- 
2.43.0


From d906c80a1a00283cde34c4a1dcb51449ef943f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:10 +0000
Subject: [PATCH 07/88] fix: keep the value of a name-value pair given in
 separate arguments when file references are allowed

---
 action.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/action.go b/action.go
index ed71031..15a16e0 100644
--- a/action.go
+++ b/action.go
@@ -1217,8 +1217,13 @@ func Transform(fn TransformFunc) Action {
 func ValueTransform(valueFn TransformFunc) Action {
 	return Transform(func(raw []string) (any, error) {
 		name, value, hasValue := splitValuePair(raw[1])
+		rest := raw[2:]
+		if !hasValue && len(rest) > 0 {
+			// name and value were specified in separate arguments
+			value, rest, hasValue = rest[0], rest[1:], true
+		}
 		if hasValue {
-			values := append([]string{name, value}, raw[2:]...)
+			values := append([]string{name, value}, rest...)
 			f, err := valueFn(values)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From fceb124cb40e7bfd200dd1eb5be58c60eef9f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:06 +0000
Subject: [PATCH 08/88] fix: replace the default of an option when its value is
 implied

---
 context.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/context.go b/context.go
index e86bbfe..34f1f91 100644
--- a/context.go
+++ b/context.go
@@ -921,6 +921,10 @@ func (c *Context) SetValue(arg any) error {
 		}
 
 		c.target.setInternalFlags(internalFlagSeenImplied, true)
+
+		// As with the first occurrence, the implied value replaces the default
+		opt := c.target.(option)
+		optionApplyValueConventions(opt.value(), opt.internalFlags(), true)
 	}
 	return c.target.(option).Set(arg)
 }
-- 
2.43.0


From 822f598c1a609a6295e148f2fc7a9a5bbf67a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 09/88] fix: find the file system again in each run for
 FromFilePath

---
 action.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/action.go b/action.go
index 15a16e0..f2cb593 100644
--- a/action.go
+++ b/action.go
@@ -1344,14 +1344,15 @@ func flagScreamingSnakeCase(o option) string {
 // Alternatively, you can set the Flag or Arg field FilePath.
 func FromFilePath(f fs.FS, filePath string) Action {
 	return Implicitly(ActionFunc(func(c *Context) error {
-		if f == nil {
-			f = c.actualFS()
-		}
 		if c.ImplicitlySet() {
 			return nil
 		}
+		fileSystem := f
+		if fileSystem == nil {
+			fileSystem = c.actualFS()
+		}
 		if len(filePath) > 0 {
-			data, err := fs.ReadFile(f, filePath)
+			data, err := fs.ReadFile(fileSystem, filePath)
 			if err == nil {
 				c.SetValue(string(data))
 				return nil
-- 
2.43.0


From 9de655d2649175f5a171ceb30641243653202d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 10/88] fix: render the flags of the help screen when it uses
 tables

---
 extensions/table/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 86b7133..dab603c 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -132,7 +132,7 @@ const (
 const (
 	flagTemplate = `
 {{- Row -}}
-{{- Execute "FlagSynopsis" .Synopsis | ExtraSpaceBeforeFlag | Cell -}}
+{{- .Synopsis | print | ExtraSpaceBeforeFlag | Cell -}}
 {{- Cell .HelpText -}}
 `
 
-- 
2.43.0


From ef56bbd1616077af713923c1cfc2b821ae03d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 11/88] fix: don't enable color when SetColor(false) is used
 early

---
 usage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usage.go b/usage.go
index cd66d46..4fdbc53 100644
--- a/usage.go
+++ b/usage.go
@@ -164,7 +164,7 @@ func SetColor(enabled bool) Action {
 		// It is possible if this is called early, it will need to be
 		// deferred
 		if c.IsInitializing() && c.Stdout == nil {
-			return c.Before(SetColor(true))
+			return c.Before(SetColor(enabled))
 		}
 
 		c.SetColor(enabled)
-- 
2.43.0


From 728a5ae0074dd81a57552e2ba81c06c13ef6556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 12/88] fix: report a failure to write the help screen

---
 usage.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/usage.go b/usage.go
index 4fdbc53..edda72c 100644
--- a/usage.go
+++ b/usage.go
@@ -235,9 +235,10 @@ func DisplayHelpScreen(command ...string) Action {
 
 			w := ansiterm.NewTabWriter(c.Stderr, 1, 8, 2, ' ', tabwriter.StripEscape)
 
-			_ = tpl.Execute(w, data)
-			_ = w.Flush()
-			return nil
+			if err := tpl.Execute(w, data); err != nil {
+				return err
+			}
+			return w.Flush()
 		}),
 		))
 }
-- 
2.43.0


From 88e3d024b09efe1ead7066be7e23a20e1558d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 13/88] fix: don't take a flag as the value of an optional
 argument

---
 arg.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index b27e5c5..7172ddb 100644
--- a/arg.go
+++ b/arg.go
@@ -554,10 +554,13 @@ func (d *discreteCounter) Usage() (optional, multi bool) {
 	return false, d.count > 1
 }
 
-func (d *defaultCounter) Take(_ string, _ bool) error {
+func (d *defaultCounter) Take(arg string, possibleFlag bool) error {
 	if d.seen {
 		return EndOfArguments
 	}
+	if !d.requireSeen && allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	d.seen = true
 	return nil
 }
-- 
2.43.0


From 7fa3513cecf74822d56895b2f79152c3498497ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 14/88] fix: restore the arguments of an expression operator
 after it yields

---
 extensions/expr/expr.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 21021ed..e81936a 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -663,14 +663,28 @@ func (b *boundExpr) Reset() {
 
 func (b *boundExpr) Evaluate(c context.Context, v any, yield func(any) error) error {
 	ctx := cli.FromContext(c).ValueContextOf(b.Expr().Name, b)
-	tryResetIfSupported(b)
 
-	err := b.BindingMap().ApplyTo(b.exprSet)
+	err := b.applyArgs()
 	if err != nil {
 		return err
 	}
 
-	return EvaluatorOf(b.expr.Evaluate).Evaluate(ctx, v, yield)
+	return EvaluatorOf(b.expr.Evaluate).Evaluate(ctx, v, func(v any) error {
+		err := yield(v)
+		if err != nil {
+			b.applyArgs()
+			return err
+		}
+
+		// The values are shared with other uses of the same operator, which
+		// could have been evaluated by yield
+		return b.applyArgs()
+	})
+}
+
+func (b *boundExpr) applyArgs() error {
+	b.Reset()
+	return b.BindingMap().ApplyTo(b.exprSet)
 }
 
 func tryResetIfSupported(v any) {
-- 
2.43.0


From b141851c0ed6b4f49aa37bb3a8e21889b9b33e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:36 +0000
Subject: [PATCH 15/88] fix: don't panic when an expression starts with an
 empty argument

---
 extensions/expr/expr.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index e81936a..54d3355 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -793,8 +793,9 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		arg := args[0]
 		args = args[1:]
 
-		expr, ok := exprs[arg[1:]]
-		if !ok {
+		name, hasPrefix := strings.CutPrefix(arg, "-")
+		expr, ok := exprs[name]
+		if !ok || !hasPrefix {
 			return nil, nil, unknownExpr(arg)
 		}
 
-- 
2.43.0


From 1c6283aa46b400345fd4a5fa203ff438539c4e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 16/88] fix: report a missing argument that isn't the first one
 missing

---
 set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index daf8bb5..7ca868f 100644
--- a/set.go
+++ b/set.go
@@ -373,7 +373,9 @@ Parsing:
 		}
 	}
 
-	err = positionalOpts.Done()
+	for ok := true; ok && err == nil; ok = positionalOpts.next() {
+		err = positionalOpts.Done()
+	}
 	return
 }
 
-- 
2.43.0


From 12c240963242a17088288f76a07669f485e8833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:25 +0000
Subject: [PATCH 17/88] fix: don't discard all but the last file of a file set

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 72b88f8..274a715 100644
--- a/value.go
+++ b/value.go
@@ -785,12 +785,12 @@ func optionReset(p any, flags internalFlags) {
 func optionApplyValueConventions(p any, flags internalFlags, firstOccur bool) {
 	resetOnFirstOccur := !flags.merge()
 	if !firstOccur {
-		// string will reset on every occurrence unless Merge is turned on
+		// string and name-value will reset on every occurrence unless Merge is turned on
 		if resetOnFirstOccur {
 			switch p := p.(type) {
 			case *string:
 				*p = ""
-			case valueResetOrMerge:
+			case *NameValue:
 				p.Reset()
 			}
 		}
-- 
2.43.0


From f2bc1f650cd496abbc84215f40609c7f08c4484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:25 +0000
Subject: [PATCH 18/88] fix: don't panic when the standard stream named by -
 isn't a file

---
 file.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/file.go b/file.go
index 744eada..13c0a75 100644
--- a/file.go
+++ b/file.go
@@ -98,6 +98,9 @@ type stdFile struct {
 	out io.Writer
 }
 
+// stdFileInfo describes a standard stream which isn't a file
+type stdFileInfo struct{}
+
 type defaultFS struct {
 	FS
 	std *stdFile
@@ -423,14 +426,14 @@ func (d defaultFS) OpenFile(name string, flag int, perm os.FileMode) (fs.File, e
 	if name == "-" && d.std != nil {
 		switch flag & readWriteMask {
 		case os.O_RDONLY:
-			return d.std.in.(*os.File), nil
+			return d.std.file(d.std.in), nil
 		case os.O_RDWR:
 			if (flag & (os.O_APPEND | os.O_CREATE)) > 0 {
-				return d.std.out.(*os.File), nil
+				return d.std.file(d.std.out), nil
 			}
 			return nil, errors.New("open not supported: O_RDWR must be specified with O_APPEND or O_CREATE")
 		case os.O_WRONLY:
-			return d.std.out.(*os.File), nil
+			return d.std.file(d.std.out), nil
 		}
 	}
 	return d.FS.OpenFile(name, flag, perm)
@@ -581,13 +584,29 @@ func (f fsExtensionWrapper) OpenFile(name string, flag int, perm fs.FileMode) (f
 	}
 }
 
+// file gets the file for one of the streams, which can be other than
+// a file when it was set up by the app
+func (s *stdFile) file(stream any) fs.File {
+	if f, ok := stream.(*os.File); ok {
+		return f
+	}
+	return s
+}
+
 func (s *stdFile) Stat() (fs.FileInfo, error) {
 	if f, ok := s.in.(*os.File); ok {
 		return f.Stat()
 	}
-	return nil, nil
+	return stdFileInfo{}, nil
 }
 
+func (stdFileInfo) Name() string       { return "-" }
+func (stdFileInfo) Size() int64        { return 0 }
+func (stdFileInfo) Mode() fs.FileMode  { return fs.ModeIrregular }
+func (stdFileInfo) ModTime() time.Time { return time.Time{} }
+func (stdFileInfo) IsDir() bool        { return false }
+func (stdFileInfo) Sys() any           { return nil }
+
 func (s *stdFile) Read(d []byte) (int, error) {
 	return s.in.Read(d)
 }
-- 
2.43.0


From 57445a3fe7dde0241e4a641f99f1d660ca84013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:13 +0000
Subject: [PATCH 19/88] fix: check files in a file system that doesn't have
 Stat

---
 file.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/file.go b/file.go
index 13c0a75..4427a61 100644
--- a/file.go
+++ b/file.go
@@ -552,14 +552,7 @@ func (f fsExtensionWrapper) MkdirAll(name string, mode fs.FileMode) error {
 }
 
 func (f fsExtensionWrapper) Stat(name string) (fs.FileInfo, error) {
-	if s, ok := f.FS.(fs.StatFS); ok {
-		return s.Stat(name)
-	}
-	return nil, &fs.PathError{
-		Op:   "stat",
-		Path: name,
-		Err:  errors.New("not supported"),
-	}
+	return fs.Stat(f.FS, name)
 }
 
 func (f fsExtensionWrapper) OpenContext(c context.Context, name string) (fs.File, error) {
-- 
2.43.0


From e2ce6ac7a26887a9f0477ff7ee1beabb9fc94882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 20/88] fix: give a template each of its names and values

---
 extensions/template/template.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/template/template.go b/extensions/template/template.go
index 6da5b9c..e61f3a0 100644
--- a/extensions/template/template.go
+++ b/extensions/template/template.go
@@ -155,8 +155,8 @@ func someData(namevalues ...any) Generator {
 
 	res := make([]Generator, 0, len(namevalues)/2)
 	for i := 0; i < len(namevalues); i += 2 {
-		name := namevalues[0].(string)
-		value := namevalues[0]
+		name := namevalues[i].(string)
+		value := namevalues[i+1]
 		res = append(res, Data(name, value))
 	}
 
-- 
2.43.0


From cd3491e63e1cfdff720b5b7c377924be2df6d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 21/88] fix: apply the working directory of a generated file
 once

---
 extensions/template/context.go | 15 ++++++---------
 extensions/template/file.go    |  7 +++----
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index 1194756..eb7bd4f 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -52,10 +52,11 @@ func (c *OutputContext) Exists(name string) bool {
 }
 
 func (c *OutputContext) File(name string) string {
+	name = c.expandName(name)
 	if strings.HasPrefix(name, "/") {
 		return name
 	}
-	return filepath.Join(c.WorkDir(), c.expandName(name))
+	return filepath.Join(c.WorkDir(), name)
 }
 
 // WorkDir is the path to the working directory
@@ -122,7 +123,7 @@ func (c *OutputContext) reportChange(original []byte, name string, created bool)
 	}
 
 	newContents, _ := func() ([]byte, error) {
-		f, err := c.actualFS().Open(c.File(name))
+		f, err := c.actualFS().Open(name)
 		if err != nil {
 			return nil, nil
 		}
@@ -233,20 +234,16 @@ func (c *OutputContext) Rename(oldpath, newpath string) error {
 }
 
 func (c *OutputContext) pathEnsure(name string) (string, error) {
-	name = c.expandName(name)
-	if strings.HasPrefix(name, "/") {
-		return name, nil
-	}
-
+	name = c.File(name)
 	dir := filepath.Dir(name)
 	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
 		err = c.actualFS().MkdirAll(dir, 0755)
 		if err != nil {
-			return c.File(name), err
+			return name, err
 		}
 	}
 
-	return c.File(name), nil
+	return name, nil
 }
 
 func (c *OutputContext) actualFS() cli.FS {
diff --git a/extensions/template/file.go b/extensions/template/file.go
index cf43969..7e1db78 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -137,14 +137,13 @@ func Gofmt() FileGenerator {
 			return err
 		}
 
-		_, err = doFileGenerate(ctx, c, name, Contents(result))
-		return err
+		return Contents(result).GenerateFile(ctx, c, name)
 	})
 }
 
 func Mode(mode fs.FileMode) FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
-		return c.Chmod(name, mode)
+		return c.actualFS().Chmod(name, mode)
 	})
 }
 
@@ -156,7 +155,7 @@ func (f FileGeneratorFunc) GenerateFile(ctx context.Context, c *OutputContext, n
 }
 
 func (m FileMode) GenerateFile(_ context.Context, c *OutputContext, name string) error {
-	return c.Chmod(name, fs.FileMode(int(m)))
+	return c.actualFS().Chmod(name, fs.FileMode(int(m)))
 }
 
 func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
-- 
2.43.0


From 54310a22ca365a699211cfd4f3807df2745e583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 22/88] fix: don't change the file system in a dry run

---
 extensions/template/context.go |  4 ++++
 extensions/template/file.go    | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index eb7bd4f..a4a4882 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -235,6 +235,10 @@ func (c *OutputContext) Rename(oldpath, newpath string) error {
 
 func (c *OutputContext) pathEnsure(name string) (string, error) {
 	name = c.File(name)
+	if c.DryRun {
+		return name, nil
+	}
+
 	dir := filepath.Dir(name)
 	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
 		err = c.actualFS().MkdirAll(dir, 0755)
diff --git a/extensions/template/file.go b/extensions/template/file.go
index 7e1db78..647dd64 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -86,6 +86,10 @@ func Contents(contents any) FileGenerator {
 // Touch touches the file.
 func Touch() FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
+		if c.DryRun {
+			return nil
+		}
+
 		f := c.actualFS()
 		fileName := name
 		_, err := f.Stat(fileName)
@@ -123,6 +127,10 @@ func Template(tt Interface, namedata ...any) FileGenerator {
 
 func Gofmt() FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
+		if c.DryRun {
+			return nil
+		}
+
 		file, err := c.FS.OpenContext(ctx, name)
 		if err != nil {
 			return err
@@ -143,7 +151,7 @@ func Gofmt() FileGenerator {
 
 func Mode(mode fs.FileMode) FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
-		return c.actualFS().Chmod(name, mode)
+		return chmod(c, name, mode)
 	})
 }
 
@@ -155,7 +163,15 @@ func (f FileGeneratorFunc) GenerateFile(ctx context.Context, c *OutputContext, n
 }
 
 func (m FileMode) GenerateFile(_ context.Context, c *OutputContext, name string) error {
-	return c.actualFS().Chmod(name, fs.FileMode(int(m)))
+	return chmod(c, name, fs.FileMode(int(m)))
+}
+
+// chmod changes the mode of the file with the given full name
+func chmod(c *OutputContext, name string, mode fs.FileMode) error {
+	if c.DryRun {
+		return nil
+	}
+	return c.actualFS().Chmod(name, mode)
 }
 
 func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
-- 
2.43.0


From 326f43d45539f5f1f098e1f69390aa710dc761c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 23/88] fix: close generated files, and report when that fails

---
 extensions/template/context.go | 1 +
 extensions/template/file.go    | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index a4a4882..5b4e1cd 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -127,6 +127,7 @@ func (c *OutputContext) reportChange(original []byte, name string, created bool)
 		if err != nil {
 			return nil, nil
 		}
+		defer f.Close()
 		return io.ReadAll(f)
 	}()
 	if bytes.Equal(original, newContents) {
diff --git a/extensions/template/file.go b/extensions/template/file.go
index 647dd64..d5fe816 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -54,6 +54,9 @@ func newGenerateContents(f generateFile) FileGeneratorFunc {
 		}
 
 		_, err = file.(io.Writer).Write(data)
+		if closeErr := file.Close(); err == nil {
+			err = closeErr
+		}
 		return err
 	}
 }
@@ -99,8 +102,7 @@ func Touch() FileGenerator {
 			if err != nil {
 				return err
 			}
-			defer file.Close()
-			return nil
+			return file.Close()
 		}
 
 		currentTime := time.Now().Local()
@@ -137,6 +139,7 @@ func Gofmt() FileGenerator {
 		}
 
 		src, err := io.ReadAll(file)
+		file.Close()
 		if err != nil {
 			return err
 		}
@@ -185,6 +188,7 @@ func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
 	var original []byte
 	if err == nil {
 		original, _ = io.ReadAll(file)
+		file.Close()
 	}
 
 	if len(f.ops) == 0 {
-- 
2.43.0


From 52353671ff6fa39a58ad9d8fcb7e77816f4b9375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 24/88] fix: leave the directory of a template when its
 contents fail

---
 extensions/template/dir.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/extensions/template/dir.go b/extensions/template/dir.go
index 4f2f585..488e094 100644
--- a/extensions/template/dir.go
+++ b/extensions/template/dir.go
@@ -15,12 +15,9 @@ func Dir(name string, contents ...Generator) Generator {
 
 func (d *dirGenerator) Generate(ctx context.Context, c *OutputContext) error {
 	c.PushDir(d.name)
-	for _, g := range d.contents {
-		err := c.Do(ctx, g)
-		if err != nil {
-			return err
-		}
+	err := c.Do(ctx, d.contents...)
+	if popErr := c.PopDir(); err == nil {
+		err = popErr
 	}
-
-	return c.PopDir()
+	return err
 }
-- 
2.43.0


From 1f586a1e0c621445880e0bd0930e0a09674a28d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:50 +0000
Subject: [PATCH 25/88] fix: apply bindings in a fixed order

---
 set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 7ca868f..afc6ed7 100644
--- a/set.go
+++ b/set.go
@@ -1,6 +1,8 @@
 package cli
 
 import (
+	"maps"
+	"slices"
 	"strings"
 )
 
@@ -500,7 +502,8 @@ func (m BindingMap) RawOccurrences(name string) []string {
 // ApplyTo uses the given binding to apply the values in the
 // map
 func (m BindingMap) ApplyTo(b Binding) error {
-	for name, v := range m {
+	for _, name := range slices.Sorted(maps.Keys(m)) {
+		v := m[name]
 		transform, _, value, ok := b.LookupOption(name)
 		if !ok {
 			continue
@@ -529,6 +532,7 @@ func (m BindingMap) BindingNames() []string {
 		}
 		keys = append(keys, k)
 	}
+	slices.Sort(keys)
 	return keys
 }
 
-- 
2.43.0


From defe27cd0f625e3f73556aaac8eff8f469b722f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:50 +0000
Subject: [PATCH 26/88] fix: name providers and report their unknown arguments
 in a fixed order

---
 extensions/provider/provider.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 5c45806..365e1c7 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -23,6 +23,7 @@ import (
 	"fmt"
 	"maps"
 	"reflect"
+	"slices"
 	"sort"
 	"strings"
 
@@ -330,7 +331,7 @@ func validateProviderExists(c *cli.Context) error {
 	if !exists {
 		return fmt.Errorf("unknown %q %s", v.Name, provider)
 	}
-	for k := range v.rawArgs {
+	for _, k := range slices.Sorted(maps.Keys(v.rawArgs)) {
 		if _, exists := p[k]; !exists {
 			return fmt.Errorf("unknown argument %q for %q %s", k, v.Name, provider)
 		}
@@ -369,13 +370,7 @@ func (r *Registry) Execute(c context.Context) error {
 }
 
 func (m Map) ProviderNames() []string {
-	keys := make([]string, len(m))
-	var i int
-	for k := range m {
-		keys[i] = k
-		i++
-	}
-	return keys
+	return slices.Sorted(maps.Keys(m))
 }
 
 func (m Map) LookupProvider(name string) (d Detail, ok bool) {
@@ -384,13 +379,7 @@ func (m Map) LookupProvider(name string) (d Detail, ok bool) {
 }
 
 func (d Details) ProviderNames() []string {
-	keys := make([]string, len(d))
-	var i int
-	for k := range d {
-		keys[i] = k
-		i++
-	}
-	return keys
+	return slices.Sorted(maps.Keys(d))
 }
 
 func (d Details) LookupProvider(name string) (Detail, bool) {
-- 
2.43.0


From 0406f2316ac1f871035e8c40750e72b21b237233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:50 +0000
Subject: [PATCH 27/88] fix: don't keep the width of the first table for all
 tables

---
 extensions/table/table.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index dab603c..175015e 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -214,7 +214,10 @@ func newTableContext(f ...*Format) *tableContext {
 		panic("expected zero or one arg")
 	}
 	if format.ColWidth <= 0 {
-		format.ColWidth = support.GuessWidth()
+		// don't change the format, which other tables also use
+		copied := *format
+		copied.ColWidth = support.GuessWidth()
+		format = &copied
 	}
 	format.apply(c)
 
-- 
2.43.0


From 10dbdc905d7ee8e452e33acc841e67b0f013e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:50 +0000
Subject: [PATCH 28/88] fix: restore the current app when a nested app ends

---
 app.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/app.go b/app.go
index dbc8596..4a0216b 100644
--- a/app.go
+++ b/app.go
@@ -116,13 +116,21 @@ type App struct {
 	rootCommand        *Command
 }
 
+// appRun is the run of an app, or an app which was set as the current one
+type appRun struct {
+	app   *App
+	run   bool
+	done  atomic.Bool
+	outer *appRun
+}
+
 var (
 	// ExitHandler defines how to handle exiting the process.  This function
 	// takes the context, error message, and exit status.  By default, text is
 	// written to stderr and the exit status is returned via os.Exit
 	ExitHandler func(*Context, string, int)
 
-	currentApp atomic.Value
+	currentApp atomic.Pointer[appRun]
 
 	osExit = os.Exit
 
@@ -158,14 +166,16 @@ func NewApp(cmd *Command) *App {
 // CurrentApp contains the current app.  If the app was run with Run or RunContext, this will contain
 // the app.
 func CurrentApp() *App {
-	a, _ := currentApp.Load().(*App)
-	return a
+	if r := currentApp.Load(); r != nil {
+		return r.app
+	}
+	return nil
 }
 
 // SetCurrentApp sets the current app directly so that tools, extensions, and plug-ins
 // can discover which app to analyze.
 func SetCurrentApp(a *App) {
-	currentApp.Store(a)
+	currentApp.Store(&appRun{app: a})
 }
 
 // Run the application and exit using the exit handler.  This function exits using the
@@ -268,10 +278,23 @@ func (a *App) Initialize(c context.Context) (context.Context, error) {
 }
 
 func provideCurrentApp(a *App) func() {
-	SetCurrentApp(a)
-	return func() {
-		SetCurrentApp(nil)
+	r := &appRun{app: a, run: true, outer: currentApp.Load()}
+	currentApp.Store(r)
+	return r.end
+}
+
+// end restores the app that was current before the run, unless another run
+// is in progress
+func (r *appRun) end() {
+	r.done.Store(true)
+	if cur := currentApp.Load(); cur != nil && cur != r && cur.run && !cur.done.Load() {
+		return
+	}
+	outer := r.outer
+	for outer != nil && outer.done.Load() {
+		outer = outer.outer
 	}
+	currentApp.Store(outer)
 }
 
 func newRootCommandData() *rootCommandData {
-- 
2.43.0


From ce6b406c14ddaa534d4af59d0862154b613a37b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:16 +0000
Subject: [PATCH 29/88] fix: don't share the color of the help screen between
 apps

---
 templates.go | 28 ++++++++++++++--------------
 usage.go     | 18 +++++++-----------
 2 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/templates.go b/templates.go
index 85bbbb6..ee6d401 100644
--- a/templates.go
+++ b/templates.go
@@ -210,11 +210,11 @@ Expressions:
 	}
 )
 
-func (c *commandData) withLineage(lineage string, persistent []*Flag) *commandData {
+func (c *commandData) withLineage(lineage string, persistent []*Flag, color bool) *commandData {
 	c.Lineage = lineage
 	c.Persistent = &persistentCommandData{
-		VisibleFlags:    visibleFlags(persistent),
-		FlagsByCategory: visibleFlagCategories(groupFlagsByCategory(persistent)),
+		VisibleFlags:    visibleFlags(persistent, color),
+		FlagsByCategory: visibleFlagCategories(groupFlagsByCategory(persistent), color),
 	}
 	c.HangingIndent = len("usage: ") + len(lineage) + 1 + len(c.Name)
 	return c
@@ -228,21 +228,21 @@ func (e flagDataList) Names() []string {
 	return res
 }
 
-func visibleFlags(items []*Flag) []*flagData {
+func visibleFlags(items []*Flag, color bool) []*flagData {
 	res := make([]*flagData, 0, len(items))
 	for _, a := range items {
-		res = append(res, flagAdapter(a))
+		res = append(res, flagAdapter(a, color))
 	}
 	return res
 }
 
-func visibleFlagCategories(items flagsByCategory) []*flagDataCategory {
+func visibleFlagCategories(items flagsByCategory, color bool) []*flagDataCategory {
 	res := make([]*flagDataCategory, 0, len(items))
 	for _, a := range items {
 		res = append(res, &flagDataCategory{
 			Category:     a.Category,
 			Undocumented: a.Undocumented(),
-			VisibleFlags: visibleFlags(a.VisibleFlags()),
+			VisibleFlags: visibleFlags(a.VisibleFlags(), color),
 		})
 	}
 	if len(res) == 1 && res[0].Category == "" {
@@ -251,7 +251,7 @@ func visibleFlagCategories(items flagsByCategory) []*flagDataCategory {
 	return res
 }
 
-func commandAdapter(val *Command) *commandData {
+func commandAdapter(val *Command, color bool) *commandData {
 	var (
 		visibleArgs = func(items []*Arg) []*flagData {
 			res := make([]*flagData, 0, len(items))
@@ -264,7 +264,7 @@ func commandAdapter(val *Command) *commandData {
 		visibleCommands = func(items []*Command) []*commandData {
 			res := make([]*commandData, 0, len(items))
 			for _, a := range items {
-				res = append(res, commandAdapter(a))
+				res = append(res, commandAdapter(a, color))
 			}
 			return res
 		}
@@ -287,12 +287,12 @@ func commandAdapter(val *Command) *commandData {
 		Description:        val.Description,
 		HelpText:           val.HelpText,
 		ManualText:         val.ManualText,
-		Synopsis:           wrapSynopsis(val.newSynopsis()),
+		Synopsis:           wrapSynopsis(val.newSynopsis(), color),
 		VisibleArgs:        visibleArgs(val.VisibleArgs()),
-		VisibleFlags:       visibleFlags(val.VisibleFlags()),
+		VisibleFlags:       visibleFlags(val.VisibleFlags(), color),
 		VisibleCommands:    visibleCommands(val.VisibleSubcommands()),
 		CommandsByCategory: visibleCategories(groupedByCategory(val.Subcommands)),
-		FlagsByCategory:    visibleFlagCategories(groupFlagsByCategory(val.Flags)),
+		FlagsByCategory:    visibleFlagCategories(groupFlagsByCategory(val.Flags), color),
 		Persistent: &persistentCommandData{
 			VisibleFlags: []*flagData{},
 		},
@@ -306,14 +306,14 @@ func renderHelp(us *synopsis.Usage) string {
 	return sb.String()
 }
 
-func flagAdapter(val *Flag) *flagData {
+func flagAdapter(val *Flag, color bool) *flagData {
 	syn := val.newSynopsis()
 	return &flagData{
 		Name:        val.Name,
 		HelpText:    renderHelp(syn.Value.Usage),
 		ManualText:  val.ManualText,
 		Description: val.Description,
-		Synopsis:    wrapSynopsis(syn),
+		Synopsis:    wrapSynopsis(syn, color),
 		Data:        val.Data,
 	}
 }
diff --git a/usage.go b/usage.go
index edda72c..e362cf5 100644
--- a/usage.go
+++ b/usage.go
@@ -20,7 +20,6 @@ import (
 
 var (
 	controlCodes = regexp.MustCompile("\u001B\\[\\d+m")
-	usageColor   = false
 )
 
 // Template provides a wrapper around text templates to support some additional configuration
@@ -93,7 +92,8 @@ type wrapper struct {
 }
 
 type synopsisWrapper[T synopsis.Stringer] struct {
-	s T
+	s     T
+	color bool
 }
 
 // ANSI terminal styles
@@ -211,11 +211,7 @@ func DisplayHelpScreen(command ...string) Action {
 				panic("help template not registered")
 			}
 
-			// HACK Using global state to set up the usage screen rather
-			// than propagating it (quite a distance) through to synopsis
-			// wrapper
-			usageColor = c.Stdout.ColorCapable()
-
+			color := c.Stdout.ColorCapable()
 			current := ctxt.Command()
 			persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
 
@@ -228,7 +224,7 @@ func DisplayHelpScreen(command ...string) Action {
 				App             *App
 				Debug           bool
 			}{
-				SelectedCommand: commandAdapter(current).withLineage(lineage, persistentFlags),
+				SelectedCommand: commandAdapter(current, color).withLineage(lineage, persistentFlags, color),
 				App:             c.App(),
 				Debug:           tpl.Debug,
 			}
@@ -565,13 +561,13 @@ func (w *stringHelper) Styled(style Style, v ...any) (int, error) {
 	return n, err
 }
 
-func wrapSynopsis[T synopsis.Stringer](s T) *synopsisWrapper[T] {
-	return &synopsisWrapper[T]{s}
+func wrapSynopsis[T synopsis.Stringer](s T, color bool) *synopsisWrapper[T] {
+	return &synopsisWrapper[T]{s, color}
 }
 
 func (s *synopsisWrapper[T]) String() string {
 	buf := NewBuffer()
-	buf.SetColorCapable(usageColor)
+	buf.SetColorCapable(s.color)
 	s.s.WriteTo(buf)
 	return buf.String()
 }
-- 
2.43.0


From f41496293dad54e8a8e1c81dec1dedbb4485fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:42 +0000
Subject: [PATCH 30/88] fix: report a customization that fails on a renamed
 flag or command

---
 command.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index 1c955f7..ee04332 100644
--- a/command.go
+++ b/command.go
@@ -635,7 +635,9 @@ func initializeFlagsArgs(ctx *Context) error {
 			// The name has changed, so hooks need to run again
 			// on the flag
 			if sub.Name != originalName {
-				ctx.newChild(sub).reinitialize()
+				if err := ctx.newChild(sub).reinitialize(); err != nil {
+					return err
+				}
 			}
 		}
 		anyFlags = len(flags) > 0
@@ -674,7 +676,9 @@ func initializeSubcommands(ctx *Context) error {
 		// The name has changed, so hooks need to run again
 		// on the flag
 		if sub.Name != originalName {
-			ctx.newChild(sub).reinitialize()
+			if err := ctx.newChild(sub).reinitialize(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 6135d2280d0039a57509afc7844095e27c496fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 31/88] fix: customize an arg that is named during its
 initialization

---
 command.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/command.go b/command.go
index ee04332..45a23ad 100644
--- a/command.go
+++ b/command.go
@@ -649,10 +649,16 @@ func initializeFlagsArgs(ctx *Context) error {
 			if sub.internalFlags().initialized() {
 				continue
 			}
+			originalName := sub.Name
 			err := ctx.newChild(sub).initialize()
 			if err != nil {
 				return err
 			}
+			if sub.Name != originalName {
+				if err := ctx.newChild(sub).reinitialize(); err != nil {
+					return err
+				}
+			}
 		}
 		anyArgs = len(args) > 0
 	}
-- 
2.43.0


From 645573b7686ec296ed65d14cf96c5d50f9e6f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:41 +0000
Subject: [PATCH 32/88] fix: don't report the previous name in the path of a
 renamed target

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 34f1f91..78e453a 100644
--- a/context.go
+++ b/context.go
@@ -862,6 +862,7 @@ func (c *Context) SetOptionalValue(v any) error {
 
 // SetName sets the name on the current target
 func (c *Context) SetName(name string) error {
+	c.pathCache = nil
 	switch o := c.target.(type) {
 	case *Arg:
 		o.Name = name
-- 
2.43.0


From 0f47335a38724ef9ab167d694b9b7a33e877ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:13 +0000
Subject: [PATCH 33/88] fix: let the action of a flag observe the value given
 by its mirror flag

---
 option.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/option.go b/option.go
index b6849a3..2847dfd 100644
--- a/option.go
+++ b/option.go
@@ -529,6 +529,7 @@ func noOption(c *Context) error {
 	syn := f.synopsis()
 	syn.WithNo()
 
+	owner := c.Command()
 	return Do(c, AddFlag(&Flag{
 		HelpText:  f.HelpText,
 		UsageText: f.UsageText,
@@ -537,13 +538,27 @@ func noOption(c *Context) error {
 		Value:     Bool(),
 		Options:   Hidden,
 		Before: func(c *Context) error {
-			if c.Seen("") {
-				return c.ContextOf(f).Trigger()
+			if !c.Seen("") {
+				return nil
 			}
-			return nil
+			// Set the value first so that the action being triggered observes it
+			mirrored := c.ContextOf(f)
+			if err := mirrored.SetValue(false); err != nil {
+				return err
+			}
+			return mirrored.Trigger()
 		},
 		Action: func(c *Context) error {
-			return c.ContextOf(f).SetValue(false)
+			if c.Command() == owner {
+				return nil
+			}
+			// The mirror flag was given to a sub-command, where the original
+			// flag isn't triggered otherwise
+			mirrored := c.ContextOf(f)
+			if err := mirrored.SetValue(false); err != nil {
+				return err
+			}
+			return mirrored.executeSelf()
 		},
 	}))
 }
-- 
2.43.0


From 5bd85714481477b585f8cb7aa0368314d8542bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:56 +0000
Subject: [PATCH 34/88] fix: don't accept the mirror of a non-persistent flag
 in sub-commands

---
 option.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index 2847dfd..44f001a 100644
--- a/option.go
+++ b/option.go
@@ -529,6 +529,11 @@ func noOption(c *Context) error {
 	syn := f.synopsis()
 	syn.WithNo()
 
+	opts := Hidden
+	if f.internalFlags().nonPersistent() || f.Options&NonPersistent == NonPersistent {
+		opts |= NonPersistent
+	}
+
 	owner := c.Command()
 	return Do(c, AddFlag(&Flag{
 		HelpText:  f.HelpText,
@@ -536,7 +541,7 @@ func noOption(c *Context) error {
 		Name:      "no-" + f.Name,
 		Category:  f.Category,
 		Value:     Bool(),
-		Options:   Hidden,
+		Options:   opts,
 		Before: func(c *Context) error {
 			if !c.Seen("") {
 				return nil
-- 
2.43.0


From 7131e8eac69a1752282ff10aa69879ea39282b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:49 +0000
Subject: [PATCH 35/88] fix: replace the default of a string arg by the value
 given

---
 arg.go     | 7 ++++++-
 context.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/arg.go b/arg.go
index 7172ddb..9600b32 100644
--- a/arg.go
+++ b/arg.go
@@ -484,7 +484,12 @@ func (a *Arg) cloneZero() {
 
 func (a *Arg) nextOccur() {
 	a.count++
-	optionApplyValueConventions(a.Value, a.flags, a.count == 1)
+	if a.count == 1 {
+		// The default value is replaced; the values given are merged
+		optionReset(a.Value, a.flags)
+		return
+	}
+	optionApplyValueConventions(a.Value, a.flags, false)
 }
 
 func (a *Arg) saveValue() func() {
diff --git a/context.go b/context.go
index 78e453a..7b57a71 100644
--- a/context.go
+++ b/context.go
@@ -925,7 +925,7 @@ func (c *Context) SetValue(arg any) error {
 
 		// As with the first occurrence, the implied value replaces the default
 		opt := c.target.(option)
-		optionApplyValueConventions(opt.value(), opt.internalFlags(), true)
+		optionReset(opt.value(), opt.internalFlags())
 	}
 	return c.target.(option).Set(arg)
 }
-- 
2.43.0


From 76dfc74d845ddc469f304bd5c05b9c777f711772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:49 +0000
Subject: [PATCH 36/88] fix: reset the count and default of expression
 arguments for each use

---
 arg.go                  |  1 +
 extensions/expr/expr.go | 33 +++++++++++++++++++++++++++++++--
 flag.go                 |  1 +
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/arg.go b/arg.go
index 9600b32..96568ed 100644
--- a/arg.go
+++ b/arg.go
@@ -500,6 +500,7 @@ func (a *Arg) saveValue() func() {
 }
 
 func (a *Arg) reset() {
+	a.count = 0
 	optionReset(a.Value, a.internalFlags())
 }
 
diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 54d3355..41a6074 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"iter"
+	"reflect"
 	"regexp"
 	"slices"
 	"sort"
@@ -165,6 +166,9 @@ type Yielder func(any) error
 type boundExpr struct {
 	*exprSet
 	expr *Expr
+
+	// restoreDefaults restores the values that the args had before parsing
+	restoreDefaults func()
 }
 
 type exprBinding struct {
@@ -192,8 +196,32 @@ var (
 func newBoundExpr(e *Expr) *boundExpr {
 	set := newExprSet(cli.NewBinding(nil, e.Args, nil), nil)
 	return &boundExpr{
-		expr:    e,
-		exprSet: set,
+		expr:            e,
+		exprSet:         set,
+		restoreDefaults: saveDefaults(e.Args),
+	}
+}
+
+// saveDefaults obtains a function that restores the values of the args.  Values
+// that are structures are expected to support being reset instead.
+func saveDefaults(args []*cli.Arg) func() {
+	var restore []func()
+	for _, a := range args {
+		p := reflect.ValueOf(a.Value)
+		if p.Kind() != reflect.Pointer || p.IsNil() || p.Elem().Kind() == reflect.Struct {
+			continue
+		}
+		v := p.Elem()
+		saved := reflect.New(v.Type()).Elem()
+		saved.Set(v)
+		restore = append(restore, func() {
+			v.Set(saved)
+		})
+	}
+	return func() {
+		for _, r := range restore {
+			r()
+		}
 	}
 }
 
@@ -659,6 +687,7 @@ func (b *boundExpr) BindingMap() cli.BindingMap {
 
 func (b *boundExpr) Reset() {
 	b.exprSet.Binding.Reset()
+	b.restoreDefaults()
 }
 
 func (b *boundExpr) Evaluate(c context.Context, v any, yield func(any) error) error {
diff --git a/flag.go b/flag.go
index b5b3431..8792210 100644
--- a/flag.go
+++ b/flag.go
@@ -363,6 +363,7 @@ func (f *Flag) saveValue() func() {
 }
 
 func (f *Flag) reset() {
+	f.count = 0
 	optionReset(f.Value, f.internalFlags())
 }
 
-- 
2.43.0


From b7caffff9f80af5968ccd5305cb43e2b48eaba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:33 +0000
Subject: [PATCH 37/88] fix: pass on errors and skips between handlers of
 commands not found

---
 command.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/command.go b/command.go
index 45a23ad..baea8bc 100644
--- a/command.go
+++ b/command.go
@@ -186,10 +186,17 @@ func HandleCommandNotFound(fn func(*Context, error) (*Command, error)) Action {
 				newFn := fn
 				fn = func(c *Context, err1 error) (*Command, error) {
 					cmd, err := newFn(c, err1)
-					if cmd != nil && err == nil {
-						return cmd, nil
+					if err == ErrSkipCommand || (cmd != nil && err == nil) {
+						return cmd, err
 					}
-					return existingFn(c, err)
+					if err == nil {
+						err = err1
+					}
+					cmd, existingErr := existingFn(c, err)
+					if cmd == nil && existingErr == nil {
+						return nil, err
+					}
+					return cmd, existingErr
 				}
 			}
 		}
-- 
2.43.0


From d86876bdb856d80f6c5afec812fbbaafb76c5e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:34 +0000
Subject: [PATCH 38/88] fix: don't treat the error of an implicit command as
 its not being found

---
 command.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/command.go b/command.go
index baea8bc..a37f337 100644
--- a/command.go
+++ b/command.go
@@ -153,7 +153,7 @@ func ExecuteSubcommand(interceptErr func(*Context, error) (*Command, error)) Act
 }
 
 func subcommandCore(c *Context, invoke []string, interceptErr func(*Context, error) (*Command, error)) error {
-	cmd, err := tryFindCommandOrIntercept(c, c.Command(), invoke[0], interceptErr)
+	cmd, invoke, err := resolveSubcommand(c, invoke, interceptErr)
 	if err == ErrSkipCommand {
 		return nil
 	}
@@ -189,6 +189,9 @@ func HandleCommandNotFound(fn func(*Context, error) (*Command, error)) Action {
 					if err == ErrSkipCommand || (cmd != nil && err == nil) {
 						return cmd, err
 					}
+					if _, ok := err.(*implicitCommand); ok {
+						return nil, err
+					}
 					if err == nil {
 						err = err1
 					}
@@ -214,16 +217,35 @@ func HandleCommandNotFound(fn func(*Context, error) (*Command, error)) Action {
 //   - cloud tail -f /var/output/log
 func ImplicitCommand(name string) Action {
 	return HandleCommandNotFound(func(c *Context, _ error) (*Command, error) {
-		invoke := append([]string{name}, c.Args()...)
-		err := subcommandCore(c, invoke, nil)
-		if err != nil {
-			return nil, err
+		cmd, ok := c.Command().Command(name)
+		if !ok {
+			return nil, commandMissing(name)
 		}
 
-		return nil, ErrSkipCommand
+		return nil, &implicitCommand{cmd: cmd, name: name}
 	})
 }
 
+// implicitCommand is the error which ImplicitCommand uses to give a command that is
+// invoked as if it had been named
+type implicitCommand struct {
+	cmd  *Command
+	name string
+}
+
+func (i *implicitCommand) Error() string {
+	return fmt.Sprintf("implicit command %q", i.name)
+}
+
+// resolveSubcommand finds the command to invoke and the arguments it is invoked with
+func resolveSubcommand(c *Context, invoke []string, interceptErr func(*Context, error) (*Command, error)) (*Command, []string, error) {
+	cmd, err := tryFindCommandOrIntercept(c, c.Command(), invoke[0], interceptErr)
+	if implicit, ok := err.(*implicitCommand); ok {
+		return implicit.cmd, append([]string{implicit.name}, invoke...), nil
+	}
+	return cmd, invoke, err
+}
+
 func groupedByCategory(cmds []*Command) commandsByCategory {
 	res := commandsByCategory{}
 	for _, command := range cmds {
@@ -394,7 +416,7 @@ func completeSubCommand(c *Context) []CompletionItem {
 		return res
 	}
 
-	cmd, err := tryFindCommandOrIntercept(c, c.Command(), invoke[0], nil)
+	cmd, invoke, err := resolveSubcommand(c, invoke, nil)
 	if err != nil {
 		return nil
 	}
-- 
2.43.0


From 4a8efc58159c60ba423750599d78a992e40e8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:18 +0000
Subject: [PATCH 39/88] fix: allow ExecuteSubcommand to be used explicitly on
 an arg

---
 action.go  |  2 +-
 command.go | 21 ++++++++++++++++++---
 option.go  |  5 +++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/action.go b/action.go
index f2cb593..2212bb1 100644
--- a/action.go
+++ b/action.go
@@ -308,8 +308,8 @@ var (
 					actionFunc(setupCompletion),
 				),
 			),
-			actionFunc(ensureSubcommands),
 			ActionFunc(initializeFlagsArgs),
+			actionFunc(ensureSubcommands),
 			ActionFunc(initializeSubcommands),
 			ActionFunc(initializeValueTargets),
 			ActionFunc(finalizeArgsAndFlags),
diff --git a/command.go b/command.go
index a37f337..66f5a23 100644
--- a/command.go
+++ b/command.go
@@ -146,7 +146,12 @@ func ExecuteSubcommand(interceptErr func(*Context, error) (*Command, error)) Act
 		NArg:       -1,
 		Options:    DisableSplitting,
 		Completion: CompletionFunc(completeSubCommand),
-	}, At(ActionTiming, ActionFunc(func(c *Context) error {
+	}, ActionFunc(func(c *Context) error {
+		if c.IsInitializing() {
+			c.target.setInternalFlags(internalFlagExecutesSubcommand, true)
+		}
+		return nil
+	}), At(ActionTiming, ActionFunc(func(c *Context) error {
 		invoke := c.List("")
 		return subcommandCore(c, invoke, interceptErr)
 	})))
@@ -376,16 +381,26 @@ func (c *Command) buildSet(ctx *Context) *set {
 }
 
 func ensureSubcommands(ctx context.Context) error {
-	cmd := FromContext(ctx).target.(*Command)
+	c := FromContext(ctx)
+	cmd := c.target.(*Command)
 
 	if len(cmd.Subcommands) > 0 {
 		if cmd.Action == nil {
 			cmd.Action = DisplayHelpScreen()
 		}
-		return Do(ctx, AddArg(&Arg{
+		for _, a := range c.LocalArgs() {
+			if a.internalFlags().executesSubcommand() {
+				return nil
+			}
+		}
+		err := Do(ctx, AddArg(&Arg{
 			Name: "command",
 			Uses: ExecuteSubcommand(nil),
 		}))
+		if err != nil {
+			return err
+		}
+		return initializeFlagsArgs(c)
 	}
 	return nil
 }
diff --git a/option.go b/option.go
index 44f001a..2464fe0 100644
--- a/option.go
+++ b/option.go
@@ -222,6 +222,7 @@ const (
 	internalFlagDisableAutoVisibility
 	internalFlagVisibleExplicitlyRequested
 	internalFlagTriggerRequested
+	internalFlagExecutesSubcommand // true for an arg using ExecuteSubcommand
 )
 
 var (
@@ -425,6 +426,10 @@ func (f internalFlags) triggerRequested() bool {
 	return f&internalFlagTriggerRequested == internalFlagTriggerRequested
 }
 
+func (f internalFlags) executesSubcommand() bool {
+	return f&internalFlagExecutesSubcommand == internalFlagExecutesSubcommand
+}
+
 func (f internalFlags) toRaw() RawParseFlag {
 	var flags RawParseFlag
 	if f.disallowFlagsAfterArgs() {
-- 
2.43.0


From c47f88b6b54b02787c328732c790ddbbdba98034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:36 +0000
Subject: [PATCH 40/88] fix: initialize commands made by handlers of commands
 not found

---
 command.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/command.go b/command.go
index 66f5a23..653a0fd 100644
--- a/command.go
+++ b/command.go
@@ -167,9 +167,25 @@ func subcommandCore(c *Context, invoke []string, interceptErr func(*Context, err
 	}
 	c.Parent().target.setInternalFlags(internalFlagDidSubcommandExecute, true)
 	newCtx := c.Parent().newChild(cmd)
+	if !cmd.internalFlags().initialized() && !hasSubcommand(c.Root().Command(), cmd) {
+		// The handler made the command, so nothing has initialized it
+		cmd.setInternalFlags(internalFlagInitialized, true)
+		if err := newCtx.initialize(); err != nil {
+			return err
+		}
+	}
 	return newCtx.Execute(invoke)
 }
 
+func hasSubcommand(parent, cmd *Command) bool {
+	if parent == cmd {
+		return true
+	}
+	return slices.ContainsFunc(parent.Subcommands, func(sub *Command) bool {
+		return hasSubcommand(sub, cmd)
+	})
+}
+
 // HandleCommandNotFound assigns a default function to invoke when a command cannot be found.
 // The specified function is invoked if a command cannot be found.  It contains the context of the
 // parent attempting to invoke a command and the error previously encountered.  It returns the
-- 
2.43.0


From 65be3367583c1309e61325be41d77d1bf5db4df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:54 +0000
Subject: [PATCH 41/88] fix: display help for the command itself when no
 sub-command is given

---
 command.go |  2 +-
 usage.go   | 72 ++++++++++++++++++++++++++++++------------------------
 2 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/command.go b/command.go
index 653a0fd..57184f3 100644
--- a/command.go
+++ b/command.go
@@ -402,7 +402,7 @@ func ensureSubcommands(ctx context.Context) error {
 
 	if len(cmd.Subcommands) > 0 {
 		if cmd.Action == nil {
-			cmd.Action = DisplayHelpScreen()
+			cmd.Action = displayHelpScreen(nil)
 		}
 		for _, a := range c.LocalArgs() {
 			if a.internalFlags().executesSubcommand() {
diff --git a/usage.go b/usage.go
index e362cf5..cf314aa 100644
--- a/usage.go
+++ b/usage.go
@@ -200,43 +200,47 @@ func DisplayHelpScreen(command ...string) Action {
 				)),
 			},
 		},
-		At(ActionTiming, ActionFunc(func(c *Context) error {
-			ctxt, path, err := findCommandToDisplayHelpFor(c, command)
-			if err != nil {
-				return err
-			}
+		At(ActionTiming, displayHelpScreen(command)),
+	)
+}
 
-			tpl := c.Template("Help")
-			if tpl == nil {
-				panic("help template not registered")
-			}
+func displayHelpScreen(command []string) Action {
+	return ActionFunc(func(c *Context) error {
+		ctxt, path, err := findCommandToDisplayHelpFor(c, command)
+		if err != nil {
+			return err
+		}
 
-			color := c.Stdout.ColorCapable()
-			current := ctxt.Command()
-			persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
+		tpl := c.Template("Help")
+		if tpl == nil {
+			panic("help template not registered")
+		}
 
-			if len(path) > 0 {
-				path = path[0 : len(path)-1]
-			}
-			lineage := strings.Join(path, " ")
-			data := struct {
-				SelectedCommand *commandData
-				App             *App
-				Debug           bool
-			}{
-				SelectedCommand: commandAdapter(current, color).withLineage(lineage, persistentFlags, color),
-				App:             c.App(),
-				Debug:           tpl.Debug,
-			}
+		color := c.Stdout.ColorCapable()
+		current := ctxt.Command()
+		persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
 
-			w := ansiterm.NewTabWriter(c.Stderr, 1, 8, 2, ' ', tabwriter.StripEscape)
+		if len(path) > 0 {
+			path = path[0 : len(path)-1]
+		}
+		lineage := strings.Join(path, " ")
+		data := struct {
+			SelectedCommand *commandData
+			App             *App
+			Debug           bool
+		}{
+			SelectedCommand: commandAdapter(current, color).withLineage(lineage, persistentFlags, color),
+			App:             c.App(),
+			Debug:           tpl.Debug,
+		}
 
-			if err := tpl.Execute(w, data); err != nil {
-				return err
-			}
-			return w.Flush()
-		}),
-		))
+		w := ansiterm.NewTabWriter(c.Stderr, 1, 8, 2, ' ', tabwriter.StripEscape)
+
+		if err := tpl.Execute(w, data); err != nil {
+			return err
+		}
+		return w.Flush()
+	})
 }
 
 func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, ContextPath, error) {
@@ -259,6 +263,10 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 				return c.Parent(), c.Parent().Path(), nil
 			}
 
+		} else if len(c.Command().Subcommands) > 0 {
+			// This is the action of a command which was not given a sub-command
+			return c, c.Path(), nil
+
 		} else {
 			list, _ := c.Value("command").([]string)
 			command = append(c.Parent().Path(), list...)
-- 
2.43.0


From 9ff57c7aaea250afe730d80542e5c51af42c762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:42 +0000
Subject: [PATCH 42/88] fix: keep the lines after the one ReadString returns

---
 cli.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/cli.go b/cli.go
index 4a87d7c..126cfe6 100644
--- a/cli.go
+++ b/cli.go
@@ -18,7 +18,6 @@
 package cli
 
 import (
-	"bufio"
 	"encoding"
 	"encoding/hex"
 	"fmt"
@@ -131,18 +130,32 @@ func ReadString(in io.Reader) (string, error) {
 	if f, ok := in.(interface{ Fd() uintptr }); ok {
 		fd := int(f.Fd())
 		if fd == 0 {
-			reader := bufio.NewReader(in)
-			s, err := reader.ReadString('\n')
-			if err != nil {
-				return "", err
-			}
-			return s[0 : len(s)-1], nil
+			return readLine(in)
 		}
 	}
 
 	return "", errorNotTty
 }
 
+// readLine reads through the end of the line and not beyond it, so that
+// the next lines can be read later
+func readLine(in io.Reader) (string, error) {
+	var line []byte
+	var buf [1]byte
+	for {
+		n, err := in.Read(buf[:])
+		if n > 0 {
+			if buf[0] == '\n' {
+				return string(line), nil
+			}
+			line = append(line, buf[0])
+		}
+		if err != nil {
+			return "", err
+		}
+	}
+}
+
 // Shell detects the shell which is running.
 func Shell() string {
 	return support.DetermineShell()
-- 
2.43.0


From f952384ebbd3bf2979387fbe154739efd882ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:49 +0000
Subject: [PATCH 43/88] fix: report when a prompt cannot be written

---
 context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 7b57a71..e6d8d9c 100644
--- a/context.go
+++ b/context.go
@@ -1380,7 +1380,9 @@ func (c *Context) ReadString(prompt string) (string, error) {
 }
 
 func (c *Context) displayPrompt(prompt string, fn func(io.Reader) (string, error)) (string, error) {
-	fmt.Fprint(c.Stderr, prompt)
+	if _, err := fmt.Fprint(c.Stderr, prompt); err != nil {
+		return "", err
+	}
 	return fn(c.Stdin)
 }
 
-- 
2.43.0


From c7d58caf75697dbcb87c99b61ecf9c22976cb1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:33 +0000
Subject: [PATCH 44/88] fix: complete apps that require args or flags

---
 completion.go | 6 ++++++
 context.go    | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/completion.go b/completion.go
index 4e1ed3b..b7d3fb3 100644
--- a/completion.go
+++ b/completion.go
@@ -245,6 +245,12 @@ func (c *Context) robustParsingMode() bool {
 	return c.flagSetOrAncestor((internalFlags).robustParseModeEnabled)
 }
 
+// completionRequested is whether the run writes completions, so that it is
+// normal for the rest of the command line to be missing
+func (c *Context) completionRequested() bool {
+	return c.robustParsingMode() && c.App() != nil && newCompletionData(c).ShellComplete != nil
+}
+
 func (c *Context) shellCompletes() map[string]ShellComplete {
 	l, ok := c.LookupData(shellCompletesKey)
 	if !ok {
diff --git a/context.go b/context.go
index e6d8d9c..828ea86 100644
--- a/context.go
+++ b/context.go
@@ -173,7 +173,7 @@ func (c *Context) Execute(args []string) error {
 		}
 	}
 	res := c.parse(args)
-	if res.err != nil {
+	if res.err != nil && !c.completionRequested() {
 		return res.err
 	}
 
@@ -2205,7 +2205,7 @@ func setupOptionFromEnv(c context.Context) error {
 
 func checkForRequiredOption(c *Context) error {
 	if c.option().internalFlags().required() {
-		if !c.Seen("") {
+		if !c.Seen("") && !c.completionRequested() {
 			return expectedRequiredOption(c.Name())
 		}
 	}
-- 
2.43.0


From 96fc2f051ff321c88b58e5c022835f831f32701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:33 +0000
Subject: [PATCH 45/88] fix: don't run deferred or implied actions when
 completing

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 2212bb1..eeea16e 100644
--- a/action.go
+++ b/action.go
@@ -316,12 +316,12 @@ var (
 			ActionFunc(copyContextToParent),
 		),
 		Action: actions(
+			actionFunc(triggerRobustParsingAndCompletion),
 			ActionFunc(triggerOptions),
 			ActionFunc(triggerValueTargets),
 			IfMatch(subcommandDidNotExecute,
 				actions(
 					executeDeferredPipeline(ActionTiming),
-					actionFunc(triggerRobustParsingAndCompletion),
 					executeUserPipeline(ActionTiming),
 				),
 			),
-- 
2.43.0


From 5571db694c93209b1612733e960534be4c5f06c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:46 +0000
Subject: [PATCH 46/88] fix: complete the sub-command, flag, or arg in whose
 place the word is

---
 command.go | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/command.go b/command.go
index 57184f3..cf9ca00 100644
--- a/command.go
+++ b/command.go
@@ -423,7 +423,7 @@ func ensureSubcommands(ctx context.Context) error {
 
 func completeSubCommand(c *Context) []CompletionItem {
 	cc := c.CompletionRequest()
-	invoke := c.List("")
+	invoke := cc.Bindings.RawOccurrences(c.Target().(*Arg).Name)
 	detect := func(s string) bool {
 		return strings.HasPrefix(s, cc.Incomplete)
 	}
@@ -468,6 +468,13 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	cmd := c.Target().(*Command)
 	var items []CompletionItem
 
+	// The sub-command that was named completes the rest
+	for _, a := range cmd.Args {
+		if a.internalFlags().executesSubcommand() && len(cc.Bindings[a.Name]) > 0 {
+			return actualCompletion(a.completion()).Complete(c.newChild(a))
+		}
+	}
+
 	if strings.HasPrefix(cc.Incomplete, "-") {
 		// If a search only finds one match, then complete the flag
 		items = findSolitaryMatch(c)
@@ -475,7 +482,7 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 			return items
 		}
 
-		for _, f := range cmd.VisibleFlags() {
+		for _, f := range completableFlags(c) {
 			for _, n := range f.synopsis().Names {
 				if strings.HasPrefix(n, cc.Incomplete) {
 					items = append(items, CompletionItem{Value: n, HelpText: f.HelpText})
@@ -486,23 +493,21 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	}
 
 	if cc.Err != nil {
-		name := cc.Err.(*ParseError).Name
+		var name string
+		if pe, ok := cc.Err.(*ParseError); ok {
+			name = pe.Name
+		}
 
 		if strings.HasPrefix(name, "-") {
-			flag, ok := cmd.Flag(name)
+			flag, ok := c.LookupFlag(name)
 			if ok {
 				return actualCompletion(flag.completion()).Complete(c)
 			}
 		}
 
-		arg, ok := cmd.Arg(name)
-		if !ok && len(cmd.Args) > 0 {
-			arg = cmd.Args[0]
+		if arg, ok := cmd.Arg(name); ok {
+			return actualCompletion(arg.completion()).Complete(c.newChild(arg))
 		}
-		if arg == nil {
-			return nil
-		}
-		return actualCompletion(arg.completion()).Complete(c)
 	}
 
 	// Request completion of the last argument that was seen
@@ -520,14 +525,26 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	return items
 }
 
+// completableFlags gets the flags that the command accepts, including the persistent
+// flags of the commands that contain it
+func completableFlags(c *Context) []*Flag {
+	cmd := c.Target().(*Command)
+	res := cmd.VisibleFlags()
+	for _, f := range filterInVisibleFlags(c.PersistentFlags()) {
+		if _, shadowed := cmd.Flag(f.Name); !shadowed && !f.internalFlags().nonPersistent() {
+			res = append(res, f)
+		}
+	}
+	return res
+}
+
 func findSolitaryMatch(c *Context) []CompletionItem {
 	cc := c.CompletionRequest()
-	cmd := c.Target().(*Command)
 	flagName, _, hasArg := strings.Cut(cc.Incomplete, "=")
 	var match *Flag
 	var matchName string
 
-	for _, f := range cmd.VisibleFlags() {
+	for _, f := range completableFlags(c) {
 		for _, n := range f.synopsis().Names {
 			if n == cc.Incomplete || (hasArg && strings.HasPrefix(n, flagName)) {
 				return actualCompletion(f.completion()).Complete(c.newChild(f))
-- 
2.43.0


From 9979011c42699342ccd6c7e442bf0f2bacbcbe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:46 +0000
Subject: [PATCH 47/88] fix: complete the value of the flag named, not of one
 with a longer name

---
 command.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command.go b/command.go
index cf9ca00..83314c1 100644
--- a/command.go
+++ b/command.go
@@ -546,7 +546,7 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 
 	for _, f := range completableFlags(c) {
 		for _, n := range f.synopsis().Names {
-			if n == cc.Incomplete || (hasArg && strings.HasPrefix(n, flagName)) {
+			if n == cc.Incomplete || (hasArg && n == flagName) {
 				return actualCompletion(f.completion()).Complete(c.newChild(f))
 			}
 			if strings.HasPrefix(n, cc.Incomplete) {
-- 
2.43.0


From df8de38e1ce29700b7e3e0ebf8a1313123470a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 48/88] fix: report when completions cannot be written

---
 command.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 83314c1..a4c4148 100644
--- a/command.go
+++ b/command.go
@@ -894,7 +894,9 @@ func triggerRobustParsingAndCompletion(ctx context.Context) error {
 
 		args, incomplete := comp.GetCompletionRequest()
 		items := c.Complete(args, incomplete)
-		c.Print(comp.FormatCompletions(items))
+		if _, err := c.Print(comp.FormatCompletions(items)); err != nil {
+			return err
+		}
 		return Exit(0)
 	}
 	return nil
-- 
2.43.0


From 6404e37c402aad802fb8c957ae2afa3a0ff1cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:47 +0000
Subject: [PATCH 49/88] fix: keep completions of help text with several lines
 apart

---
 completion_zsh.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/completion_zsh.go b/completion_zsh.go
index 9615206..51052b6 100644
--- a/completion_zsh.go
+++ b/completion_zsh.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"strconv"
+	"strings"
 )
 
 type zshComplete struct {
@@ -57,10 +58,10 @@ func (*zshComplete) GetCompletionRequest() (args []string, incomplete string) {
 	cwords, _ := Split(os.Getenv("COMP_WORDS"))
 	cword, _ := strconv.Atoi(os.Getenv("COMP_CWORD"))
 
-	if cword <= len(cwords) {
+	if 0 <= cword && cword <= len(cwords) {
 		args = cwords[0:cword]
 	}
-	if cword < len(cwords) {
+	if 0 <= cword && cword < len(cwords) {
 		incomplete = cwords[cword]
 	}
 	return
@@ -79,7 +80,8 @@ func (z *zshComplete) FormatCompletions(items []CompletionItem) string {
 }
 
 func (z *zshComplete) formatCompletion(item CompletionItem) string {
-	itemDesc := item.HelpText
+	// One line for each field
+	itemDesc := strings.Join(strings.Fields(item.HelpText), " ")
 	if itemDesc == "" {
 		itemDesc = "_"
 	}
-- 
2.43.0


From 8455731fff753e64ea5f0729320095dcfb44edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:43 +0000
Subject: [PATCH 50/88] fix: complete the flag named even when others have
 longer names

---
 command.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/command.go b/command.go
index a4c4148..9e4af9e 100644
--- a/command.go
+++ b/command.go
@@ -540,24 +540,26 @@ func completableFlags(c *Context) []*Flag {
 
 func findSolitaryMatch(c *Context) []CompletionItem {
 	cc := c.CompletionRequest()
-	flagName, _, hasArg := strings.Cut(cc.Incomplete, "=")
+	flagName, _, _ := strings.Cut(cc.Incomplete, "=")
 	var match *Flag
 	var matchName string
+	var matches int
 
 	for _, f := range completableFlags(c) {
-		for _, n := range f.synopsis().Names {
-			if n == cc.Incomplete || (hasArg && n == flagName) {
-				return actualCompletion(f.completion()).Complete(c.newChild(f))
-			}
+		names := f.synopsis().Names
+		if slices.Contains(names, flagName) {
+			return actualCompletion(f.completion()).Complete(c.newChild(f))
+		}
+		for _, n := range names {
 			if strings.HasPrefix(n, cc.Incomplete) {
-				if match != nil && match != f {
-					return nil
+				if match != f {
+					matches++
 				}
 				match, matchName = f, n
 			}
 		}
 	}
-	if match == nil {
+	if matches != 1 {
 		return nil
 	}
 
-- 
2.43.0


From 2fecfaa97d8332f8116c1a4ecee30b197f88040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:15 +0000
Subject: [PATCH 51/88] fix: complete a flag once when several commands define
 it

---
 command.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/command.go b/command.go
index 9e4af9e..b5ed01a 100644
--- a/command.go
+++ b/command.go
@@ -528,14 +528,18 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 // completableFlags gets the flags that the command accepts, including the persistent
 // flags of the commands that contain it
 func completableFlags(c *Context) []*Flag {
-	cmd := c.Target().(*Command)
-	res := cmd.VisibleFlags()
-	for _, f := range filterInVisibleFlags(c.PersistentFlags()) {
-		if _, shadowed := cmd.Flag(f.Name); !shadowed && !f.internalFlags().nonPersistent() {
-			res = append(res, f)
+	var res []*Flag
+	for p := c; p != nil; p = p.Parent() {
+		for _, f := range p.LocalFlags() {
+			if p != c && f.internalFlags().nonPersistent() {
+				continue
+			}
+			if _, _, shadowed := findFlagByName(res, f.Name); !shadowed {
+				res = append(res, f)
+			}
 		}
 	}
-	return res
+	return filterInVisibleFlags(res)
 }
 
 func findSolitaryMatch(c *Context) []CompletionItem {
-- 
2.43.0


From b7347ae5eab794d7b23f9ca592945e659f49f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:05 +0000
Subject: [PATCH 52/88] fix: prefer a command's own flag to a persistent flag
 with its name

---
 set.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/set.go b/set.go
index afc6ed7..7a8bd96 100644
--- a/set.go
+++ b/set.go
@@ -94,20 +94,25 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 
 		positionalOptions: []string{},
 	}
-	for _, f := range flags {
-		b.defineFlag(f)
-	}
 
 	if parent != nil {
 		for _, f := range parent.Flags() {
 			if f.internalFlags().nonPersistent() {
 				continue
 			}
-			b.defineFlag(f)
 			f.setInternalFlags(internalFlagPersistent, true)
+			if slices.ContainsFunc(flags, func(own *Flag) bool { return own.Name == f.Name }) {
+				continue
+			}
+			b.defineFlag(f)
 		}
 	}
 
+	// Defined last so that they have precedence over the names of persistent flags
+	for _, f := range flags {
+		b.defineFlag(f)
+	}
+
 	for _, a := range args {
 		b.defineArg(a)
 	}
-- 
2.43.0


From c8e61f036020f6213508a67ac2240f9f30051661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:52 +0000
Subject: [PATCH 53/88] fix: refuse a lone dash that no arg takes, instead of
 panicking

---
 set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 7a8bd96..53c291d 100644
--- a/set.go
+++ b/set.go
@@ -242,7 +242,7 @@ Parsing:
 				if err != nil {
 					// Not accepted as an argument, possibly a flag per usual out of
 					// order
-					if len(arg) > 0 && arg[0] == '-' && state == flagsOrArgs {
+					if len(arg) > 1 && arg[0] == '-' && state == flagsOrArgs {
 						break
 					}
 					if isHardArgCountErr(err) {
-- 
2.43.0


From b23eaeea5f6e6569cee870f5266bf7ad0acb4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:34 +0000
Subject: [PATCH 54/88] fix: report when there is no display to open a file

---
 extensions/exec/open.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/exec/open.go b/extensions/exec/open.go
index 135a4f9..aebbcd5 100644
--- a/extensions/exec/open.go
+++ b/extensions/exec/open.go
@@ -3,6 +3,7 @@
 package exec
 
 import (
+	"errors"
 	"os"
 	"os/exec"
 )
@@ -12,5 +13,5 @@ func openUsingApp(input, app string) (*exec.Cmd, error) {
 		return exec.Command("xdg-open", input), nil
 	}
 
-	return nil, nil
+	return nil, errors.New("cannot open without a display")
 }
-- 
2.43.0


From ac8d12cfa0df81865f88087f315df135e0d25fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:03 +0000
Subject: [PATCH 55/88] fix: run an action at its timing for each occurrence of
 a flag

---
 option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/option.go b/option.go
index 2464fe0..f45509d 100644
--- a/option.go
+++ b/option.go
@@ -581,6 +581,7 @@ func eachOccurrenceOpt(c1 *Context) error {
 		}
 
 		scope := c.copy(opt, mini)
+		scope.timing = c.timing
 
 		// Named lookups keep using the winning value
 		restoreWinner := opt.saveValue()
-- 
2.43.0


From fa923763923b1afb57a6bb715dfb6df1270eab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:20 +0000
Subject: [PATCH 56/88] fix: keep every argument given to a provider by its own
 flag

---
 extensions/provider/provider.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 365e1c7..9901075 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -189,7 +189,8 @@ func (v *Value) ArgumentFlag() cli.Prototype {
 		Value: new(string),
 		Setup: cli.Setup{
 			Uses: cli.Pipeline(
-				cli.Bind(v.Set),
+				cli.EachOccurrence,
+				cli.Bind(v.setArgument),
 				func(c *cli.Context) {
 					c.SetHelpText(fmt.Sprintf("Sets an argument for %s", c.Data()["DependentFlag"]))
 				},
@@ -226,7 +227,8 @@ func SetArgument(name string) cli.Action {
 		Value:    new(string),
 		HelpText: fmt.Sprintf("Sets an argument for %s", name),
 		Setup: cli.Setup{
-			Action: cli.BindIndirect(name, (*Value).Set),
+			Uses:   cli.EachOccurrence,
+			Action: cli.BindIndirect(name, (*Value).setArgument),
 		},
 	}
 }
@@ -294,6 +296,12 @@ func (v *Value) Set(arg string) error {
 	return cli.Set(v.Args, args...)
 }
 
+// setArgument sets one or more arguments but never the name
+func (v *Value) setArgument(arg string) error {
+	v.setName = true
+	return v.Set(arg)
+}
+
 // String obtains the textual representation
 func (v *Value) String() string {
 	var buf bytes.Buffer
-- 
2.43.0


From 68fb24e5e87058365dd928cd20990c34cebb59d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:20 +0000
Subject: [PATCH 57/88] fix: use the value of a provider that has no factory

---
 extensions/provider/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 9901075..82ff2b0 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -367,6 +367,9 @@ func (r *Registry) New(name string, opts map[string]string) (any, error) {
 	if !ok {
 		return nil, fmt.Errorf("provider not found: %q", name)
 	}
+	if fac == nil {
+		return pro.Value, nil
+	}
 	return fac(mergedOpts)
 }
 
-- 
2.43.0


From 432cf19cdad4cf46832afe1d823c5ed9e7136108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:50 +0000
Subject: [PATCH 58/88] fix: find the registry of providers that a flag uses

---
 extensions/provider/provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 82ff2b0..c84e612 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -375,6 +375,10 @@ func (r *Registry) New(name string, opts map[string]string) (any, error) {
 
 func (r *Registry) Execute(c context.Context) error {
 	return cli.Do(c, cli.Before(cli.ActionFunc(func(c1 *cli.Context) error {
+		// A registry used by a flag serves the command that contains it
+		for c1.Parent() != nil && !c1.IsCommand() {
+			c1 = c1.Parent()
+		}
 		Services(c1).registries[r.Name] = r
 		return nil
 	})))
-- 
2.43.0


From 03866642d47ead22ec52a41447dae38dadafbe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:36 +0000
Subject: [PATCH 59/88] fix: split a list with escapes into just its items

---
 internal/support/support.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/internal/support/support.go b/internal/support/support.go
index 732845d..d0cb2b1 100644
--- a/internal/support/support.go
+++ b/internal/support/support.go
@@ -2,7 +2,6 @@ package support
 
 import (
 	"os"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -47,25 +46,25 @@ func SplitList(s, sep string, n int) []string {
 		return nil
 	}
 	if strings.Contains(s, "\\") {
-		regex := regexp.MustCompile(`(^|[^\\])` + regexp.QuoteMeta(sep))
-		matches := regex.FindAllStringSubmatchIndex(s, n)
-
-		if len(matches) == 0 {
-			return []string{s}
-		}
-
+		res := make([]string, 0)
 		unquote := func(x string) string {
 			return strings.ReplaceAll(x, "\\", "")
 		}
-		res := make([]string, 0)
 
+		// A separator that follows a backslash is part of the item
 		var last int
-		for _, match := range matches {
-			res = append(res, unquote(s[last:match[1]-1]))
-			res = append(res, unquote(s[match[2]+1+1:]))
-			last = match[2] + 1 + 1
+		for i := 0; i+len(sep) <= len(s) && len(res) != n-1; i++ {
+			if s[i:i+len(sep)] != sep || i > 0 && s[i-1] == '\\' {
+				continue
+			}
+			res = append(res, unquote(s[last:i]))
+			last = i + len(sep)
+			i = last - 1
+		}
+		if last == 0 {
+			return []string{strings.ReplaceAll(s, "\\"+sep, sep)}
 		}
-		return res
+		return append(res, unquote(s[last:]))
 	}
 	return strings.SplitN(s, sep, n)
 }
-- 
2.43.0


From 20a77d5b0ef3c0f0dc899f8c17e539fd7067242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:24 +0000
Subject: [PATCH 60/88] fix: let -- reach the sub-command, and whichever arg
 takes the remaining tokens

---
 set.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 53c291d..5c65f7a 100644
--- a/set.go
+++ b/set.go
@@ -26,6 +26,7 @@ type argBinding struct {
 	names  []string
 	takers []ArgCounter
 	index  int
+	taken  bool // whether the current arg has taken a value
 }
 
 type argList []string
@@ -229,7 +230,7 @@ Parsing:
 		// end of options?
 		if arg == "" || arg == "-" || arg[0] != '-' || state == argsOnly {
 			for {
-				if arg == "--" {
+				if arg == "--" && !positionalOpts.takesRemaining() {
 					state = argsOnly
 					if err = positionalOpts.Done(); err != nil {
 						return
@@ -631,6 +632,7 @@ func (a *argList) take(name string, opt ArgCounter) (output []string, err error)
 
 func (a *argBinding) next() bool {
 	a.index++
+	a.taken = false
 	return a.index < len(a.takers)
 }
 
@@ -652,6 +654,13 @@ func (a *argBinding) Done() error {
 	return nil
 }
 
+// takesRemaining tests whether the current arg has started to take all of the
+// remaining tokens, including --
+func (a *argBinding) takesRemaining() bool {
+	v, ok := a.current().(*varArgsCounter)
+	return ok && !v.stopOnFlags && a.taken
+}
+
 func (a *argBinding) SetArg(arg string, remainder []string, possibleFlag bool) error {
 	for {
 		t := a.current()
@@ -661,6 +670,7 @@ func (a *argBinding) SetArg(arg string, remainder []string, possibleFlag bool) e
 
 		err := t.Take(arg, possibleFlag)
 		if err == nil {
+			a.taken = true
 			return nil
 		}
 
-- 
2.43.0


From c1fb317234fed416a2ec38938a7ffb7eaf19afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:24 +0000
Subject: [PATCH 61/88] fix: create the binders for IP addresses and any value
 by their type

---
 extensions/bind/binder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/bind/binder.go b/extensions/bind/binder.go
index 84fbf26..595a36c 100644
--- a/extensions/bind/binder.go
+++ b/extensions/bind/binder.go
@@ -503,7 +503,7 @@ func For[T any](nameopt ...any) Binder[T] {
 			return URL(nameopt...)
 		case *regexp.Regexp:
 			return Regexp(nameopt...)
-		case *net.IP:
+		case net.IP:
 			return IP(nameopt...)
 		case *big.Int:
 			return BigInt(nameopt...)
@@ -511,7 +511,7 @@ func For[T any](nameopt ...any) Binder[T] {
 			return BigFloat(nameopt...)
 		case []byte:
 			return Bytes(nameopt...)
-		case any:
+		case nil:
 			return Interface(nameopt...)
 		default:
 			panic(fmt.Sprintf("unexpected target type %T", t))
-- 
2.43.0


From fb0941824b85ceceb08e41ae493510e7ac1f8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:24 +0000
Subject: [PATCH 62/88] fix: keep the type of the arg at the index of an exact
 value

---
 extensions/bind/binder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extensions/bind/binder.go b/extensions/bind/binder.go
index 595a36c..15331a0 100644
--- a/extensions/bind/binder.go
+++ b/extensions/bind/binder.go
@@ -98,11 +98,11 @@ func (b *exactBinder[V]) Bind(_ context.Context) (V, error) {
 
 func (b *exactBinder[V]) Initializer() cli.Action {
 	return cli.ActionFunc(func(c *cli.Context) error {
-		ctx := c.ContextOf(b.name())
-		if ctx == nil {
+		// The exact value isn't taken from the arg at its index
+		if !c.IsFlag() && !c.IsArg() {
 			return nil
 		}
-		return ctx.Do(&cli.Prototype{Value: new(bool)})
+		return c.Do(&cli.Prototype{Value: new(bool)})
 	})
 }
 
-- 
2.43.0


From 3f8bfdc7ee0a3e9c17efc6076271f5559ea2dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:38 +0000
Subject: [PATCH 63/88] fix: bind the args of an expression operator rather
 than those of its command

---
 extensions/bind/binder.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/extensions/bind/binder.go b/extensions/bind/binder.go
index 15331a0..60c68c4 100644
--- a/extensions/bind/binder.go
+++ b/extensions/bind/binder.go
@@ -134,7 +134,7 @@ func (b *binderSupport[_]) SetName(name any) {
 
 func (b *binderSupport[V]) Initializer() cli.Action {
 	return cli.ActionFunc(func(c *cli.Context) error {
-		ctx := c.ContextOf(b.name())
+		ctx := boundContext(c, b.name())
 		if ctx == nil {
 			return nil
 		}
@@ -142,6 +142,21 @@ func (b *binderSupport[V]) Initializer() cli.Action {
 	})
 }
 
+// boundContext obtains the context of the flag or arg to bind.  Other values
+// that have args, such as expression operators, bind their own.
+func boundContext(c *cli.Context, name any) *cli.Context {
+	if name == "" || c.IsCommand() || c.IsFlag() || c.IsArg() {
+		return c.ContextOf(name)
+	}
+	if a, ok := c.LookupArg(name); ok {
+		return c.ContextOf(a)
+	}
+	if _, ok := name.(int); ok {
+		return nil
+	}
+	return c.ContextOf(name)
+}
+
 func (b *binderSupport[_]) name() any {
 	if b.impliedName == nil {
 		return ""
-- 
2.43.0


From dd35f4b2abea92ba80bee98ef13b614ca94abfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:30 +0000
Subject: [PATCH 64/88] fix: close only the standard stream that was opened

---
 file.go | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/file.go b/file.go
index 4427a61..dfcc143 100644
--- a/file.go
+++ b/file.go
@@ -98,6 +98,12 @@ type stdFile struct {
 	out io.Writer
 }
 
+// stdStream is one of the standard streams, which was opened as a file
+type stdStream struct {
+	*stdFile
+	stream any
+}
+
 // stdFileInfo describes a standard stream which isn't a file
 type stdFileInfo struct{}
 
@@ -441,7 +447,7 @@ func (d defaultFS) OpenFile(name string, flag int, perm os.FileMode) (fs.File, e
 
 func (d defaultFS) OpenContext(c context.Context, name string) (fs.File, error) {
 	if name == "-" && d.std != nil {
-		return d.std, nil
+		return stdStream{d.std, d.std.in}, nil
 	}
 	return d.FS.OpenContext(c, name)
 }
@@ -583,7 +589,7 @@ func (s *stdFile) file(stream any) fs.File {
 	if f, ok := stream.(*os.File); ok {
 		return f
 	}
-	return s
+	return stdStream{s, stream}
 }
 
 func (s *stdFile) Stat() (fs.FileInfo, error) {
@@ -604,25 +610,34 @@ func (s *stdFile) Read(d []byte) (int, error) {
 	return s.in.Read(d)
 }
 
-func (s *stdFile) Close() error {
-	var err error
-	if c, ok := s.in.(io.Closer); ok {
-		err = c.Close()
-	}
-	if c, ok := s.out.(io.Closer); ok {
-		if e := c.Close(); e != nil {
-			err = e
-		}
+// Close only closes the stream which was opened
+func (s stdStream) Close() error {
+	if c, ok := s.stream.(io.Closer); ok {
+		return c.Close()
 	}
-	return err
+	return nil
 }
 
 func (s *stdFile) ReadAt(p []byte, off int64) (n int, err error) {
-	return s.in.(io.ReaderAt).ReadAt(p, off)
+	if r, ok := s.in.(io.ReaderAt); ok {
+		return r.ReadAt(p, off)
+	}
+	return 0, stdFileNotSupported("readat")
 }
 
 func (s *stdFile) Seek(offset int64, whence int) (int64, error) {
-	return s.in.(io.Seeker).Seek(offset, whence)
+	if r, ok := s.in.(io.Seeker); ok {
+		return r.Seek(offset, whence)
+	}
+	return 0, stdFileNotSupported("seek")
+}
+
+func stdFileNotSupported(op string) error {
+	return &fs.PathError{
+		Op:   op,
+		Path: "-",
+		Err:  errors.New("not supported"),
+	}
 }
 
 func (s *stdFile) WriteString(str string) (n int, err error) {
@@ -862,7 +877,7 @@ func ignoreBlankPathError(err error) error {
 }
 
 var (
-	_ fileExtension    = &stdFile{}
+	_ fileExtension    = stdStream{}
 	_ fileExtension    = &contextFile{}
 	_ flag.Value       = (*File)(nil)
 	_ flag.Value       = (*FileSet)(nil)
-- 
2.43.0


From 20667d13c70c0716970c0bbb338b529ba77090cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:25 +0000
Subject: [PATCH 65/88] fix: check that an implied file exists

---
 option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/option.go b/option.go
index f45509d..a90cd28 100644
--- a/option.go
+++ b/option.go
@@ -232,7 +232,7 @@ var (
 		DisableAutoVisibility:  setInternalFlag(internalFlagDisableAutoVisibility),
 		Required:               ActionFunc(requiredOption),
 		Exits:                  ActionFunc(wrapWithExit),
-		MustExist:              Before(ActionFunc(mustExistOption)),
+		MustExist:              At(justBeforeTiming, ActionFunc(mustExistOption)),
 		SkipFlagParsing:        setInternalFlag(internalFlagSkipFlagParsing),
 		WorkingDirectory:       Pipeline(DirectoryCompletion, Before(ActionFunc(workingDirectoryOption))),
 		Optional:               ActionFunc(optionalOption),
-- 
2.43.0


From 2e541003b4dbb46c776fb73b852a26364366fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:13 +0000
Subject: [PATCH 66/88] fix: validate the flags of ancestors that are given to
 a sub-command

---
 action.go  |  1 +
 context.go | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/action.go b/action.go
index eeea16e..8d1ecbe 100644
--- a/action.go
+++ b/action.go
@@ -332,6 +332,7 @@ var (
 				actionFunc(executeBeforeHooks),
 				executeDeferredPipeline(BeforeTiming),
 				executeUserPipeline(BeforeTiming),
+				ActionFunc(validatePersistentFlags),
 				ActionFunc(triggerBeforeOptions),
 				ActionFunc(triggerBeforeValueTargets),
 			),
diff --git a/context.go b/context.go
index 828ea86..e1c05a0 100644
--- a/context.go
+++ b/context.go
@@ -1568,6 +1568,27 @@ func (c *Context) setTiming(t Timing) *Context {
 	return c
 }
 
+// validatePersistentFlags validates the flags of ancestor commands which are set by
+// the arguments to this command.  The command which defines the flag ran its validators
+// before these arguments were bound.
+func validatePersistentFlags(ctx *Context) error {
+	for _, f := range ctx.PersistentFlags() {
+		if len(ctx.internal.Bindings(f.Name)) == 0 {
+			continue
+		}
+
+		before := f.uses().Before
+		err := execute(ctx.newChild(f).setTiming(BeforeTiming), Pipeline(
+			before[actualBeforeIndexValidatorTiming],
+			before[actualBeforeIndexJustBeforeTiming],
+		))
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func triggerOptionsHO(t Timing, on func(*Context) error) ActionFunc {
 	return func(ctx *Context) error {
 		// Only the flags defined by the command itself; flags defined by an ancestor command
-- 
2.43.0


From c1bec1eaaed570cd45344945fed7b4d983371a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:13 +0000
Subject: [PATCH 67/88] fix: imply the value of a flag with a short name

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index 8d1ecbe..e43d47d 100644
--- a/action.go
+++ b/action.go
@@ -1142,7 +1142,7 @@ func Implies(name, value string) Action {
 		return nil
 	}
 	if name[0] != '-' {
-		name = "--" + name
+		name = optionName(name)
 	}
 	return ActionFunc(func(c *Context) error {
 		return c.Parent().HookBefore(name, ImplicitValue(func(_ *Context) (string, bool) {
-- 
2.43.0


From 8d35ba0298ec542fda328555949706421482a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:45 +0000
Subject: [PATCH 68/88] fix: change to the working directory that is given to a
 sub-command

---
 context.go | 2 +-
 option.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index e1c05a0..e308c9c 100644
--- a/context.go
+++ b/context.go
@@ -1569,7 +1569,7 @@ func (c *Context) setTiming(t Timing) *Context {
 }
 
 // validatePersistentFlags validates the flags of ancestor commands which are set by
-// the arguments to this command.  The command which defines the flag ran its validators
+// the arguments to this command, and applies options which depend upon their values.  The command which defines the flag ran its validators
 // before these arguments were bound.
 func validatePersistentFlags(ctx *Context) error {
 	for _, f := range ctx.PersistentFlags() {
diff --git a/option.go b/option.go
index a90cd28..b631a66 100644
--- a/option.go
+++ b/option.go
@@ -234,7 +234,7 @@ var (
 		Exits:                  ActionFunc(wrapWithExit),
 		MustExist:              At(justBeforeTiming, ActionFunc(mustExistOption)),
 		SkipFlagParsing:        setInternalFlag(internalFlagSkipFlagParsing),
-		WorkingDirectory:       Pipeline(DirectoryCompletion, Before(ActionFunc(workingDirectoryOption))),
+		WorkingDirectory:       Pipeline(DirectoryCompletion, At(justBeforeTiming, ActionFunc(workingDirectoryOption))),
 		Optional:               ActionFunc(optionalOption),
 		DisallowFlagsAfterArgs: setInternalFlag(internalFlagDisallowFlagsAfterArgs),
 		No:                     ActionFunc(noOption),
-- 
2.43.0


From 5bab937f78ab73f78422bc9930f36cc6367b691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:50 +0000
Subject: [PATCH 69/88] fix: don't process a flag of an ancestor in place of
 one with its name

---
 context.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/context.go b/context.go
index e308c9c..5d3d064 100644
--- a/context.go
+++ b/context.go
@@ -414,6 +414,28 @@ func (c *Context) PersistentFlags() []*Flag {
 	return c.Parent().Flags()
 }
 
+// boundPersistentFlags obtains the persistent flags which are set by the arguments
+// to this command.
+func (c *Context) boundPersistentFlags() []*Flag {
+	cc, ok := c.internal.(*commandContext)
+	if !ok || cc.Binding == nil {
+		return nil
+	}
+
+	var res []*Flag
+	for _, f := range c.PersistentFlags() {
+		if len(cc.Bindings(f.Name)) == 0 {
+			continue
+		}
+
+		// Another flag or arg which has the same name could be the one that is set
+		if _, _, opt, ok := cc.Binding.LookupOption(f.Name); ok && opt == BindingState(f) {
+			res = append(res, f)
+		}
+	}
+	return res
+}
+
 // ValueContextOf creates a context for the use with values that
 // may have initialization steps.
 func (c *Context) ValueContextOf(name string, v any) *Context {
@@ -1572,11 +1594,7 @@ func (c *Context) setTiming(t Timing) *Context {
 // the arguments to this command, and applies options which depend upon their values.  The command which defines the flag ran its validators
 // before these arguments were bound.
 func validatePersistentFlags(ctx *Context) error {
-	for _, f := range ctx.PersistentFlags() {
-		if len(ctx.internal.Bindings(f.Name)) == 0 {
-			continue
-		}
-
+	for _, f := range ctx.boundPersistentFlags() {
 		before := f.uses().Before
 		err := execute(ctx.newChild(f).setTiming(BeforeTiming), Pipeline(
 			before[actualBeforeIndexValidatorTiming],
@@ -2157,12 +2175,9 @@ func executeUserPipeline(at Timing) actionFunc {
 func triggerOptions(ctx *Context) error {
 	// Invoke the Before action on all flags and args, but only the actual
 	// Action when the flag or arg was set
-	for _, f := range ctx.PersistentFlags() {
-		// The command which defines the flag triggers it unless it is being set
-		// by the arguments to this command
-		if len(ctx.internal.Bindings(f.Name)) == 0 {
-			continue
-		}
+	// The command which defines a persistent flag triggers it unless it is being set
+	// by the arguments to this command
+	for _, f := range ctx.boundPersistentFlags() {
 		err := triggerOption(ctx, f)
 		if err != nil {
 			return err
-- 
2.43.0


From 58552ec081ba5c7b65c33a11eeb1325a922571fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:18 +0000
Subject: [PATCH 70/88] fix: look up the raw text of another option in the
 context of an option

---
 arg.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arg.go b/arg.go
index 96568ed..4d16ad8 100644
--- a/arg.go
+++ b/arg.go
@@ -513,6 +513,9 @@ func (o *optionContext) argHandling() ([]string, bool) {
 }
 
 func (o *optionContext) Raw(name string) []string {
+	if name != "" && name != o.option.name() {
+		return o.parentLookup.Raw(name)
+	}
 	if arg, ok := o.argHandling(); ok {
 		return arg
 	}
@@ -520,6 +523,9 @@ func (o *optionContext) Raw(name string) []string {
 }
 
 func (o *optionContext) RawOccurrences(name string) []string {
+	if name != "" && name != o.option.name() {
+		return o.parentLookup.RawOccurrences(name)
+	}
 	if arg, ok := o.argHandling(); ok {
 		return arg
 	}
-- 
2.43.0


From 3011e7c6cc2b0c25fc36fd154bf23a2a07de3c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:18 +0000
Subject: [PATCH 71/88] fix: look up the value and raw text of a flag by its
 aliases

---
 context.go |  7 ++++---
 set.go     | 20 +++++++++++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/context.go b/context.go
index 5d3d064..2cd3180 100644
--- a/context.go
+++ b/context.go
@@ -724,9 +724,10 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 
 	switch f := name.(type) {
 	case rune, string, nil, int, *Arg, *Flag:
-		d := occurs(c.internal, c.nameToString(f))
-		if f != "" && len(d) == 0 {
-			return c.Parent().rawCore(c.nameToString(f), occurs)
+		n := withoutDecorators(c.nameToString(f))
+		d := occurs(c.internal, n)
+		if n != "" && len(d) == 0 {
+			return c.Parent().rawCore(n, occurs)
 		}
 
 		return d
diff --git a/set.go b/set.go
index 5c65f7a..c01cc17 100644
--- a/set.go
+++ b/set.go
@@ -467,12 +467,30 @@ func (s *set) lookupValue(name string) (any, bool) {
 	if s.Binding == nil {
 		return nil, false
 	}
-	if _, _, g, ok := s.Binding.LookupOption(name); ok {
+	if _, _, g, ok := s.Binding.LookupOption(s.resolveName(name)); ok {
 		return g.(option).value(), true
 	}
 	return nil, false
 }
 
+func (s *set) resolveName(name string) string {
+	if s.Binding == nil {
+		return name
+	}
+	if r, ok := s.Binding.ResolveAlias(name); ok {
+		return r
+	}
+	return name
+}
+
+func (s *set) Raw(name string) []string {
+	return s.BindingMap.Raw(s.resolveName(name))
+}
+
+func (s *set) RawOccurrences(name string) []string {
+	return s.BindingMap.RawOccurrences(s.resolveName(name))
+}
+
 func (m BindingMap) appendOutput(name string, args []string) {
 	if e, ok := m[name]; ok {
 		m[name] = append(e, args)
-- 
2.43.0


From 34ff467dfb057e4cca5ea85e00eaa07ec163741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:05 +0000
Subject: [PATCH 72/88] fix: look up an arg by its index or itself in any
 context

---
 context.go | 53 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/context.go b/context.go
index 2cd3180..2114a4f 100644
--- a/context.go
+++ b/context.go
@@ -693,8 +693,14 @@ func (c *Context) Value(name any) any {
 	}
 
 	switch v := name.(type) {
-	case rune, string, nil, *Arg, *Flag, int:
-		it, _ := tryLookup(c.lookupCore, c.nameToString(v), true)
+	case int:
+		arg := c.logicalArg(v)
+		if arg == nil {
+			return nil
+		}
+		return c.Value(arg)
+	case rune, string, nil, *Arg, *Flag:
+		it, _ := tryLookup(c.lookupCore, nameToString(v), true)
 		return it
 	case contextKeyType:
 		return c
@@ -723,8 +729,14 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 	}
 
 	switch f := name.(type) {
-	case rune, string, nil, int, *Arg, *Flag:
-		n := withoutDecorators(c.nameToString(f))
+	case int:
+		arg := c.logicalArg(f)
+		if arg == nil {
+			return []string{}
+		}
+		return c.rawCore(arg, occurs)
+	case rune, string, nil, *Arg, *Flag:
+		n := withoutDecorators(nameToString(f))
 		d := occurs(c.internal, n)
 		if n != "" && len(d) == 0 {
 			return c.Parent().rawCore(n, occurs)
@@ -862,17 +874,6 @@ func (c *Context) SetData(name string, v any) error {
 	return nil
 }
 
-func (c *Context) nameToString(name any) string {
-	switch v := name.(type) {
-	case rune, string, nil, *Arg, *Flag:
-		return nameToString(name)
-	case int:
-		return c.logicalArg(v).Name
-	default:
-		panic(fmt.Sprintf("unexpected type: %T", name))
-	}
-}
-
 // SetOptionalValue sets the optional value for the flag
 func (c *Context) SetOptionalValue(v any) error {
 	err := c.requireInit()
@@ -1172,6 +1173,12 @@ func (c *Context) lineageFunc(f func(*Context)) {
 }
 
 func (c *Context) logicalArg(index int) *Arg {
+	if c == nil {
+		return nil
+	}
+	if c.isOption() {
+		return c.Parent().logicalArg(index)
+	}
 	args := c.LocalArgs()
 	_, idx, _ := findArgByName(args, index)
 	if idx < 0 || idx >= len(args) {
@@ -1828,6 +1835,15 @@ func (c *Context) flow() *actionPipelines {
 }
 
 func (c *Context) lookupOption(name any) (option, bool) {
+	switch v := name.(type) {
+	case nil:
+		name = ""
+	case int:
+		name = c.logicalArg(v)
+	}
+	if a, ok := name.(*Arg); ok {
+		return a, a != nil
+	}
 	if name == "" {
 		o, ok := c.target.(option)
 		return o, ok
@@ -1986,6 +2002,13 @@ func (c *Context) Bytes(name any) []byte {
 
 // Interface obtains a value by the name of the flag, arg, or other value in scope
 func (c *Context) Interface(name any) (any, bool) {
+	if index, ok := name.(int); ok {
+		arg := c.logicalArg(index)
+		if arg == nil {
+			return nil, false
+		}
+		name = arg
+	}
 	return tryLookup(c, name, false)
 }
 
-- 
2.43.0


From 44e1c19ab13171305fd1a4988061f95bb7a0dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:03 +0000
Subject: [PATCH 73/88] fix: don't take the raw text of a flag of an ancestor
 for one with its name

---
 context.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 2114a4f..0e46372 100644
--- a/context.go
+++ b/context.go
@@ -738,7 +738,7 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 	case rune, string, nil, *Arg, *Flag:
 		n := withoutDecorators(nameToString(f))
 		d := occurs(c.internal, n)
-		if n != "" && len(d) == 0 {
+		if n != "" && len(d) == 0 && !c.definesOption(n) {
 			return c.Parent().rawCore(n, occurs)
 		}
 
@@ -749,6 +749,16 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 	}
 }
 
+// definesOption is whether the target of this context itself has the named flag or arg,
+// which therefore isn't one of its ancestors
+func (c *Context) definesOption(name string) bool {
+	if _, _, ok := findFlagByName(c.LocalFlags(), name); ok {
+		return true
+	}
+	_, _, ok := findArgByName(c.LocalArgs(), name)
+	return ok
+}
+
 // BindingLookup returns the parse data for the context.  Note that this lookup
 // only applies to the current context and does not traverse inherited contexts.
 // Compare Raw and RawOccurrences which perform this for you.
-- 
2.43.0


From 21f00457ed12289fe6e3fc21601769e988617f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:14 +0000
Subject: [PATCH 74/88] fix: name an option once in the path of an occurrence
 of it

---
 option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/option.go b/option.go
index b631a66..2b2cef1 100644
--- a/option.go
+++ b/option.go
@@ -581,6 +581,7 @@ func eachOccurrenceOpt(c1 *Context) error {
 		}
 
 		scope := c.copy(opt, mini)
+		scope.parent = c.Parent() // not within the option itself
 		scope.timing = c.timing
 
 		// Named lookups keep using the winning value
-- 
2.43.0


From 640ecbd899869bafb3c199c000cda3a5dcec4a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:45 +0000
Subject: [PATCH 75/88] fix: don't take a non-persistent flag for one of the
 flags of a sub-command

---
 context.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 0e46372..33f1483 100644
--- a/context.go
+++ b/context.go
@@ -411,7 +411,13 @@ func (c *Context) PersistentFlags() []*Flag {
 	if c.Parent() == nil {
 		return nil
 	}
-	return c.Parent().Flags()
+	var res []*Flag
+	for _, f := range c.Parent().Flags() {
+		if !f.internalFlags().nonPersistent() {
+			res = append(res, f)
+		}
+	}
+	return res
 }
 
 // boundPersistentFlags obtains the persistent flags which are set by the arguments
-- 
2.43.0


From db00d701d678ac9b406fd34b955bc8c3fcab7461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:58 +0000
Subject: [PATCH 76/88] fix: remove flags and commands by index

---
 command.go | 9 +++++++++
 flag.go    | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/command.go b/command.go
index b5ed01a..bbb5bdd 100644
--- a/command.go
+++ b/command.go
@@ -850,6 +850,15 @@ func findCommandByName(cmds []*Command, v any) (*Command, int, bool) {
 		return nil, -1, false
 	}
 
+	if index, ok := v.(int); ok {
+		if index < 0 {
+			index = len(cmds) + index
+		}
+		if index >= 0 && index < len(cmds) {
+			return cmds[index], index, true
+		}
+		return nil, -1, false
+	}
 	name := v.(string)
 	for index, sub := range cmds {
 		if sub.Name == name {
diff --git a/flag.go b/flag.go
index 8792210..2b1a25b 100644
--- a/flag.go
+++ b/flag.go
@@ -603,6 +603,15 @@ func findFlagByName(items []*Flag, v any) (*Flag, int, bool) {
 		}
 		return nil, -1, false
 	}
+	if index, ok := v.(int); ok {
+		if index < 0 {
+			index = len(items) + index
+		}
+		if index >= 0 && index < len(items) {
+			return items[index], index, true
+		}
+		return nil, -1, false
+	}
 	name := strings.TrimLeft(v.(string), "-")
 	for index, sub := range items {
 		if sub.Name == name {
-- 
2.43.0


From 04d0b31d39bdbbf77926bceb157b655f783552aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:36 +0000
Subject: [PATCH 77/88] fix: initialize the remaining flags and args after one
 is removed by another

---
 command.go | 29 ++++++++++++-----------------
 context.go |  6 +++---
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/command.go b/command.go
index bbb5bdd..5f2e64b 100644
--- a/command.go
+++ b/command.go
@@ -693,23 +693,20 @@ func (c *Command) contextName() string {
 
 func initializeFlagsArgs(ctx *Context) error {
 	var (
-		flagStart int
-		argStart  int
-		anyFlags  = true
-		anyArgs   = true
+		anyFlags = true
+		anyArgs  = true
 	)
 
 	// New flags and/or args may have been introduced, so allow these to also initialize.
-	// They can ONLY be appended to the slice, not inserted elsewhere
+	// Those that have been removed in the meantime don't.
 	for anyFlags || anyArgs {
-		flags := ctx.LocalFlags()[flagStart:]
-		flagStart = len(ctx.LocalFlags())
-
-		for _, sub := range flags {
-			if sub.internalFlags().initialized() {
+		anyFlags = false
+		for _, sub := range slices.Clone(ctx.LocalFlags()) {
+			if sub.internalFlags().initialized() || !slices.Contains(ctx.LocalFlags(), sub) {
 				continue
 			}
 
+			anyFlags = true
 			originalName := sub.Name
 			err := ctx.newChild(sub).initialize()
 			if err != nil {
@@ -723,15 +720,14 @@ func initializeFlagsArgs(ctx *Context) error {
 				}
 			}
 		}
-		anyFlags = len(flags) > 0
-
-		args := ctx.LocalArgs()[argStart:]
-		argStart = len(ctx.LocalArgs())
 
-		for _, sub := range args {
-			if sub.internalFlags().initialized() {
+		anyArgs = false
+		for _, sub := range slices.Clone(ctx.LocalArgs()) {
+			if sub.internalFlags().initialized() || !slices.Contains(ctx.LocalArgs(), sub) {
 				continue
 			}
+
+			anyArgs = true
 			originalName := sub.Name
 			err := ctx.newChild(sub).initialize()
 			if err != nil {
@@ -743,7 +739,6 @@ func initializeFlagsArgs(ctx *Context) error {
 				}
 			}
 		}
-		anyArgs = len(args) > 0
 	}
 
 	return nil
diff --git a/context.go b/context.go
index 33f1483..6d229b4 100644
--- a/context.go
+++ b/context.go
@@ -1237,7 +1237,7 @@ func (c *Context) AddArg(v *Arg) error {
 func (c *Context) RemoveArg(name any) error {
 	return c.updateArgs(func(args []*Arg) []*Arg {
 		if _, index, ok := findArgByName(args, name); ok {
-			return append(args[0:index], args[index+1:]...)
+			return slices.Concat(args[:index], args[index+1:])
 		}
 		return args
 	})
@@ -1251,7 +1251,7 @@ func (c *Context) RemoveArg(name any) error {
 func (c *Context) RemoveCommand(name any) error {
 	return c.updateSubcommands(func(cmds []*Command) []*Command {
 		if _, index, ok := findCommandByName(cmds, name); ok {
-			return slices.Delete(cmds, index, index+1)
+			return slices.Concat(cmds[:index], cmds[index+1:])
 		}
 		return cmds
 	})
@@ -1265,7 +1265,7 @@ func (c *Context) RemoveCommand(name any) error {
 func (c *Context) RemoveFlag(name any) error {
 	return c.updateFlags(func(flags []*Flag) []*Flag {
 		if _, index, ok := findFlagByName(flags, name); ok {
-			return slices.Delete(flags, index, index+1)
+			return slices.Concat(flags[:index], flags[index+1:])
 		}
 		return flags
 	})
-- 
2.43.0


From 3d08182b9ff738a50cd8137117f478f73d5494a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:03 +0000
Subject: [PATCH 78/88] fix: use the help, manual and usage texts of the app

---
 app.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app.go b/app.go
index 4a0216b..82b5c28 100644
--- a/app.go
+++ b/app.go
@@ -246,6 +246,9 @@ func (a *App) createRoot() *Command {
 				Uses:        a.Uses,
 				Before:      a.Before,
 				Options:     a.Options,
+				HelpText:    a.HelpText,
+				ManualText:  a.ManualText,
+				UsageText:   a.UsageText,
 			}
 		}
 		return a.rootCommandCreator()
-- 
2.43.0


From feb6fd0f5fe6ba924b3038b8a8c8678765ae6507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:59 +0000
Subject: [PATCH 79/88] fix: allow EachOccurrence to be specified more than
 once

---
 option.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/option.go b/option.go
index 2b2cef1..047ea57 100644
--- a/option.go
+++ b/option.go
@@ -575,6 +575,10 @@ func noOption(c *Context) error {
 
 func eachOccurrenceOpt(c1 *Context) error {
 	return c1.At(ActionTiming, middlewareFunc(func(c *Context, next Action) error {
+		if _, ok := c.internal.(*wrapOccurrenceContext); ok {
+			return next.Execute(c) // the option was specified more than once
+		}
+
 		opt := c.option()
 		mini := &wrapOccurrenceContext{
 			optionContext: c.internal.(*optionContext),
-- 
2.43.0


From 0081fc3865724f1f11952b72dd9b32a87ea27681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:08 +0000
Subject: [PATCH 80/88] fix: copy the data of a prototype to what has none

---
 action.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/action.go b/action.go
index e43d47d..eff559c 100644
--- a/action.go
+++ b/action.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
-	"maps"
 	"os"
 	"os/signal"
 	"regexp"
@@ -1526,7 +1525,9 @@ func (p *Prototype) copyToCommand(o *Command) {
 	}
 
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	for k, v := range p.Data {
+		o.SetData(k, v)
+	}
 	if o.Completion == nil {
 		o.Completion = p.Completion
 	}
@@ -1557,7 +1558,9 @@ func (p *Prototype) copyToArg(c *Context) {
 
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	for k, v := range p.Data {
+		o.SetData(k, v)
+	}
 }
 
 func (p *Prototype) copyToFlag(c *Context) {
@@ -1583,7 +1586,9 @@ func (p *Prototype) copyToFlag(c *Context) {
 	o.Aliases = append(o.Aliases, p.Aliases...)
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	for k, v := range p.Data {
+		o.SetData(k, v)
+	}
 }
 
 func (p *Prototype) copyToValue(c *Context) error {
-- 
2.43.0


From 10e3b3a02d2fb8a3cb29751233324434a7ba924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:41 +0000
Subject: [PATCH 81/88] fix: replace the default of a flag of bytes, as that of
 a list

The value that a []byte option is initialized with, and one from its
environment variable or file, was kept and what the command line gives was
appended to it.
---
 value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value.go b/value.go
index 274a715..0dabe8a 100644
--- a/value.go
+++ b/value.go
@@ -814,6 +814,9 @@ func optionApplyValueConventions(p any, flags internalFlags, firstOccur bool) {
 		case *[]string:
 			*p = nil
 
+		case *[]byte:
+			*p = nil
+
 		case *[]*NameValue:
 			*p = []*NameValue{}
 
-- 
2.43.0


From d27178c21e420337ba4a2b5bf11717db244299ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:11 +0000
Subject: [PATCH 82/88] fix: accept a long flag with =value as the last word
 after arguments

---
 set.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/set.go b/set.go
index c01cc17..3849c12 100644
--- a/set.go
+++ b/set.go
@@ -244,6 +244,7 @@ Parsing:
 					// Not accepted as an argument, possibly a flag per usual out of
 					// order
 					if len(arg) > 1 && arg[0] == '-' && state == flagsOrArgs {
+						err = nil
 						break
 					}
 					if isHardArgCountErr(err) {
-- 
2.43.0


From fde964d2f3d21bfff4b804f8a487cbb2798f025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:11 +0000
Subject: [PATCH 83/88] fix: don't split the letter of a short flag that isn't
 ASCII

---
 set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 3849c12..672eab2 100644
--- a/set.go
+++ b/set.go
@@ -4,6 +4,7 @@ import (
 	"maps"
 	"slices"
 	"strings"
+	"unicode/utf8"
 )
 
 // BindingMap contains the occurrences of the values passed to each flag and arg.
@@ -335,7 +336,8 @@ Parsing:
 			}
 
 			_, opt, _, _ := b.LookupOption(flag)
-			value := arg[1+i:]
+			_, size := utf8.DecodeRuneInString(arg[i:])
+			value := arg[i+size:]
 
 			if value != "" {
 				err = instanceTake(value, false, opt)
-- 
2.43.0


From b3778766c2495919d5266c89e8afbc8603494d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:11 +0000
Subject: [PATCH 84/88] fix: finish the counter of an argument that is followed
 by another

---
 set.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/set.go b/set.go
index 672eab2..be30d6d 100644
--- a/set.go
+++ b/set.go
@@ -699,6 +699,11 @@ func (a *argBinding) SetArg(arg string, remainder []string, possibleFlag bool) e
 			return err
 		}
 
+		// The counter has ended, which could be too early
+		if err := t.Done(); err != nil {
+			return err
+		}
+
 		a.next()
 	}
 }
-- 
2.43.0


From 840a8d479c46c03f6685d97d15ccabbac71579c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:12 +0000
Subject: [PATCH 85/88] fix: accept an empty name-value pair instead of
 panicking

---
 value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 0dabe8a..793b447 100644
--- a/value.go
+++ b/value.go
@@ -768,7 +768,10 @@ func parseBool(value string) (bool, error) {
 
 func splitValuePair(arg string) (k, v string, hasValue bool) {
 	a := SplitList(arg, "=", 2)
-	if len(a) == 1 {
+	switch len(a) {
+	case 0:
+		return "", "true", false
+	case 1:
 		return a[0], "true", false
 	}
 	return a[0], a[1], true
-- 
2.43.0


From d26841811067d0db61c87f622913c9cc112aaf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:35 +0000
Subject: [PATCH 86/88] fix: report the errors of counters of the args of
 expression operators

---
 extensions/expr/expr.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 41a6074..654d204 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -836,13 +836,16 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 
 		var pe *cli.ParseError
 		if err != nil {
-			pe = err.(*cli.ParseError)
+			var ok bool
+			if pe, ok = err.(*cli.ParseError); !ok {
+				return nil, nil, err
+			}
 			args = pe.Remaining
 
 			switch pe.Code {
 			case cli.UnexpectedArgument:
 				return nil, nil, argsMustPrecedeExprs(args[0])
-			case cli.ExpectedArgument:
+			case cli.ExpectedArgument, cli.InvalidArgument:
 				return nil, nil, pe
 			}
 		}
-- 
2.43.0


From 4bf3ce33481f506fcdcd2a7b1e58a65db4703d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:34 +0000
Subject: [PATCH 87/88] fix: require the args of an expression operator that is
 followed by another

---
 extensions/expr/expr.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 654d204..cb04e98 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -177,6 +177,12 @@ type exprBinding struct {
 	expr *Expr
 }
 
+// parseBinding keeps the counters of the args of an operator
+type parseBinding struct {
+	cli.Binding
+	counters []cli.ArgCounter
+}
+
 type exprSet struct {
 	cli.Lookup
 	cli.Binding
@@ -832,7 +838,8 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		// use of the expression operator.
 		boundExpr := newBoundExpr(expr)
 		results = append(results, boundExpr)
-		bin, err := cli.RawParse(args, boundExpr.exprSet, boundExpr.expr.internalFlags().toRaw())
+		parsing := &parseBinding{Binding: boundExpr.exprSet}
+		bin, err := cli.RawParse(args, parsing, boundExpr.expr.internalFlags().toRaw())
 
 		var pe *cli.ParseError
 		if err != nil {
@@ -847,6 +854,14 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 				return nil, nil, argsMustPrecedeExprs(args[0])
 			case cli.ExpectedArgument, cli.InvalidArgument:
 				return nil, nil, pe
+			case cli.UnknownOption:
+				// No arg was tried when another operator follows
+				// directly
+				if len(bin.BindingNames()) == 0 {
+					if err := parsing.done(); err != nil {
+						return nil, nil, err
+					}
+				}
 			}
 		}
 
@@ -865,6 +880,24 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 	return results, all, nil
 }
 
+func (b *parseBinding) LookupOption(name string) (cli.TransformFunc, cli.ArgCounter, cli.BindingState, bool) {
+	transform, counter, state, ok := b.Binding.LookupOption(name)
+	if ok {
+		b.counters = append(b.counters, counter)
+	}
+	return transform, counter, state, ok
+}
+
+// done reports whether all args have what they require
+func (b *parseBinding) done() error {
+	for _, c := range b.counters {
+		if err := c.Done(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (b *exprBinding) Expr() *Expr {
 	return b.expr
 }
-- 
2.43.0


From 6a8a84af186f17f03e8a9712f31153ef6d6ac2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:47 +0000
Subject: [PATCH 88/88] fix: count the arguments of each run anew when NArg is
 a counter

---
 arg.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 4d16ad8..c7e5c1c 100644
--- a/arg.go
+++ b/arg.go
@@ -311,7 +311,7 @@ func (a *Arg) SetOccurrenceData(v any) error {
 
 func (a Arg) actualArgCounter() ArgCounter {
 	if a.NArg != nil {
-		return ArgCount(a.NArg)
+		return unusedCounter(ArgCount(a.NArg))
 	}
 	return argCounterImpliedFromValue(a.Value, false)
 }
@@ -619,6 +619,20 @@ func (*matchesArgsCounter) Done() error {
 	return nil
 }
 
+// unusedCounter gets a counter that hasn't taken any arguments yet, because the
+// counter could have been used in an earlier run
+func unusedCounter(c ArgCounter) ArgCounter {
+	switch c := c.(type) {
+	case *discreteCounter:
+		return &discreteCounter{c.total, c.total}
+	case *defaultCounter:
+		return &defaultCounter{requireSeen: c.requireSeen}
+	case *matchesArgsCounter:
+		return &matchesArgsCounter{fn: c.fn, max: c.max}
+	}
+	return c
+}
+
 func argCounterImpliedFromValue(value any, requireSeen bool) ArgCounter {
 	switch value := value.(type) {
 	case *[]string:
-- 
2.43.0

