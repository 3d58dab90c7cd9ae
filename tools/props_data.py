SAMPLED = "Seeded sampling of simulated runs, not exhaustive: a clean batch is evidence within the generated space. "

prop("C01", "Lifecycle steps run in the documented order, each exactly as often as due",
 "Initialization visits the whole command tree parent first; then, for each command along the invoked path, its Before steps, the actions of the options given to it, its sub-command or else its own action, and its After steps run in that order, once each (the validators of an ancestor's flag run once more, after the command's own Before steps, for a sub-command whose words give that flag). This holds for every way a step can be attached: directly, deferred from an earlier phase, by a hook or customization pattern, by a prototype or setup, or on a flag added during initialization. Within one phase of one command or option the steps run in registration order, middleware encloses the steps it precedes, and every step is told the command, option and phase it was attached to.",
 ["programs", "fault_sequences"], "all command trees, attachments of steps, command lines, and instants at which the caller's context is cancelled",
 "The tests fix a handful of small programs; the order is a relation over all compositions of deferral, hooks, middleware, dynamic flags and nesting.",
 ["context.go", "action.go", "command.go", "app.go", "option.go"],
 [("pipelines per target kind", "action.go"), ("hook tunnelling and option triggers", "context.go"), ("sub-command dispatch", "command.go")],
 note=SAMPLED+"Random programs on random command lines compared step by step with a reference model of the lifecycle; the caller's cancellation is injected at random steps. Trusts the model in sim/scen/lifecycle.go; help/version commands the library adds itself are not compared.")

prop("C02", "A failing step ends the run with exactly its own error",
 "When any step of the lifecycle fails, whichever phase, option, hook, deferred step or sub-command it belongs to, no later step runs, except as an enclosing error suppression or middleware decides, and the run returns that very error value, even when the value has a meaning to the library elsewhere. A panic in a step reaches the caller of the run unchanged, or, when the step is wrapped for recovery, the run goes on and then ends in an internal error that carries the panic's text.",
 ["programs", "fault_sequences"], "all programs and command lines of C01, all steps as the point of failure, errors of every kind and panics",
 "The tests inject a failure at a few places; which steps are skipped and which error comes back depends on the whole composition.",
 ["context.go", "action.go", "command.go", "app.go", "error.go"],
 [("pipeline execution", "action.go"), ("recover and deferred report", "action.go")],
 note=SAMPLED+"One randomly chosen executed step of a random program fails with one of 13 errors or a panic; the recorded steps and the returned error value are compared with the reference model.")

prop("C03", "An action for each occurrence sees exactly its own occurrence, in order",
 "An action taken for each occurrence of a flag or argument runs exactly once per occurrence, in command-line order, and while it runs the value, the count, the raw text and the name used are those of that occurrence alone, however deeply the action is nested or deferred. Outside of it, before, between and after, and in every other command, the option has its final merged value and total count, also when the action fails, panics or ends early.",
 ["programs", "inputs", "fault_sequences"], "all value types, merging or replacing, spellings, counts of occurrences over two levels of command, and the occurrence at which the action fails or panics",
 "The tests iterate two or three occurrences of a list without any failure; the state that has to be restored shows only in what later steps read after an early end.",
 ["action.go", "context.go", "flag.go", "arg.go", "option.go", "set.go"],
 [("per-occurrence iteration", "action.go"), ("occurrence reset of values", "option.go")],
 note=SAMPLED+"Random flags and args with random occurrences; the observation made by every step is compared with a model of the occurrences; an injected failure or panic at a random occurrence.")

prop("C04", "Deadlines, cancellation and context values reach exactly the steps they cover",
 "A timeout attached to a command or option covers the steps that follow it in scope and nothing outside that scope; the earliest of the deadlines in force and the caller's own cancellation is what a step observes, with the right cause, and the caller's own context is never altered. Context values and replacement contexts are visible to exactly the steps of the phases and sub-commands that inherit them. A step running after its deadline ends the run with that deadline's error, and no context that was created for a run outlives it.",
 ["programs", "schedules"], "all programs with steps that take time, all placements of timeouts, values and replacement contexts, and all instants of the caller's deadline or cancellation",
 "The tests check a timeout once in real time; the placement of deadlines relative to every other step needs a controlled clock.",
 ["context.go", "action.go", "command.go"],
 [("timeout and context value actions", "context.go"), ("context reference shared along the lineage", "context.go")],
 note=SAMPLED+"Random programs in simulated time; each step's own view of its context (value, deadline, error, cause) is compared with a model at each step and after the run.")

prop("C05", "A handled signal cancels exactly the run that handles it, and is released after",
 "A signal that a command was told to handle, arriving at any instant of that command's run, cancels the context of that command and of its sub-commands with a cause naming it, and never terminates the process; a signal that is not handled keeps its default effect. A handled signal that never arrives has no effect, and once a run ends successfully no signal stays registered and no watcher stays behind.",
 ["schedules", "programs"], "all programs with handlers at random commands, and all instants and kinds of signals including repeated ones",
 "The tests send one signal at one instant to one program; the delivery relative to registration, release and nested commands depends on the schedule.",
 ["action.go", "context.go"],
 [("signal registration and release", "action.go")],
 note=SAMPLED+"Signals are delivered through the standard library's dispatcher at random steps and random simulated instants; kernel registration is simulated.")

prop("C06", "Reading an opened file stops with its context, and changes no byte before",
 "Once the context a file was opened with has ended, every operation that transfers bytes through that file returns the context's error, whichever of the file's methods is used, and an operation that overlaps the end reports it rather than success. Until then the operations transfer exactly the bytes of the plain file. An operation blocked on a device that supports deadlines returns by the context's deadline, and a file system that opens with a context of its own is given the caller's very context.",
 ["schedules", "fault_sequences", "inputs"], "all file contents, methods, buffer sizes, delays, device kinds, and instants of the deadline or cancellation relative to the transfers",
 "The tests read one short file with a live context; what happens depends on the instant the context ends relative to each transfer.",
 ["file.go"], [("context-aware file handle (contextFile)", "file.go")],
 note=SAMPLED+"Real files in a scratch directory behind intercepted os calls, in simulated time; random sequences of transfers against the plain bytes and the context's own state.")

prop("C07", "A file reference delivers exactly the file's bytes, or ends the run",
 "An argument that refers to a file - a file reference, @file with file references allowed, a transform, a name-value pair or JSON text that names a file, a file set, or \"-\" for the standard input - receives exactly the bytes of the named files, in the order given, however the reads are split. If any of the files cannot be opened or read to its end, the run ends with that error before any later step, and no partial content is ever delivered.",
 ["inputs", "fault_sequences", "configurations"], "all contents, kinds of reference and file systems, all splittings of reads, and open, stat and read failures at every position of every file",
 "The tests read small in-memory files that never fail and always answer one read with everything.",
 ["action.go", "file.go", "value.go", "flag.go", "set.go"],
 [("file reference transforms", "action.go"), ("file set and standard input", "file.go")],
 note=SAMPLED+"In-memory file systems and standard input with persistent faults per file (open, stat, read at any offset, short and zero-length reads, data with EOF) and four file-system interfaces; the value seen by the action is compared with the bytes.")

prop("C08", "An option not given takes its value from the first source that has one",
 "An option that is not given on the command line takes its value from the first source that has one - sources registered as initializers in their order, then its environment variables in order, then its file, then what another given option implies - exactly as if that text had been given once on the command line. A value given on the command line always wins, and a source that is missing, empty or unreadable contributes nothing, not even in part. Its action runs only when asked to for implied values.",
 ["configurations", "inputs", "fault_sequences"], "all combinations of sources, value types, environments, file contents and failures of the sources",
 "The tests check one source at a time; precedence, partial failure and the merge with defaults depend on the combination.",
 ["flag.go", "context.go", "action.go", "option.go"],
 [("implied values", "action.go"), ("environment and file fields", "flag.go")],
 note=SAMPLED+"Random environments and in-memory files with faults; each run is compared with a control run of the same program that is given the winning text on the command line.")

prop("C09", "Requested output is written completely or the run reports the failure",
 "What a program is asked to write - the help screen, version, license, completion script, lists, templates and printed text - reaches the standard output or error in exactly the order and bytes of its steps, with styles exactly when color is on. If a write fails, in the middle or only once, the run ends with that error, no later step runs, and what was written before is a prefix of the full output.",
 ["fault_sequences", "configurations", "programs"], "all programs that print, kinds of writer, and byte offsets at which a write fails for good or once",
 "The tests write to buffers that never fail.",
 ["usage.go", "context.go", "action.go", "templates.go", "completion.go", "extensions/table/table.go", "extensions/provider/provider.go"],
 [("help, version and print actions", "usage.go"), ("formatted output of the context", "context.go")],
 note=SAMPLED+"Each program runs once unfaulted (compared with the expected text of its operations) and once with an output failing at a random byte, through plain writers, wrapped writers and real files.")

prop("C10", "The process ends exactly once iff the run failed, with its status and message",
 "When an app is run as the process, the process is ended exactly once if the run failed, and not at all if it succeeded: with status 2 for a command line that cannot be parsed, the error's own exit status if it has one, and 1 otherwise. Before that, exactly the error's message is written to standard error (nothing for status 0 or an empty message), even a failure to write it leaves the status unchanged, and an exit handler replaces both and is told the same. No step runs afterwards.",
 ["programs", "inputs", "fault_sequences"], "all error kinds, phases of failure, bad command lines, exit handlers, and failing standard errors",
 "The tests replace the exit function for a few errors; the mapping has to hold for every phase, error kind and output failure.",
 ["app.go", "error.go"], [("exit handling", "app.go"), ("exit errors", "error.go")],
 note=SAMPLED+"os.Exit is recorded and unwinds the simulated process; the error, phase and command line are drawn and the expected status and message are known.")
prop("C11", "An expression runs each item through its operators, each with its own arguments",
 "Evaluating an expression passes every item through the operators in command line order, depth first: each value an operator yields goes through all later operators before the operator continues, and an operator that yields nothing drops the item. Every use of an operator sees exactly the arguments given to that use, before, between and after its yields and in every evaluation. The first error stops the evaluation and is its result, and a malformed expression (unknown operator, missing, stray or invalid argument) is an error before anything is evaluated.",
 ["programs", "inputs", "fault_sequences"], "all pipelines of operators with int, string, list and optional arguments, repeated operators, aliases, yield patterns and errors",
 "The tests evaluate a few fixed expressions; the interplay of repeated operators, yields and errors is unbounded.",
 ["extensions/expr/expr.go", "set.go", "arg.go"], [("expression pipeline", "extensions/expr/expr.go"), ("raw parsing", "set.go")],
 note=SAMPLED+"The trace of evaluations, the arguments seen at each moment and results are compared to a recursive model; errors are injected at any evaluation.")

prop("C12", "Files and file sets reach exactly the named files of the file system in use",
 "Every operation on a file has the effect and result of that operation on the file of that name in the file system in use, and on no other: relative to a DirFS, through NewFS and NewSysFS, and with \"-\" as the standard streams. An operation that the file system doesn't offer is refused with a path error, and has no effect. A file set presents each file that was named, in order, and when recursive every file and directory below it exactly once, parents first in lexical order, with whatever failed; an error or an early stop by the program ends the iteration with it.",
 ["inputs", "fault_sequences", "histories"], "all trees, named files, faults of files and directories, sequences of operations, wrappers, and stopping points",
 "The tests delegate single calls to a fake; the walk is tested on no failing or changing directory, and the standard streams only as real files.",
 ["file.go", "option.go", "value.go"], [("File, FileSet and the file system adaptors", "file.go"), ("must-exist option", "option.go")],
 note=SAMPLED+"Four scenarios: walks of faulty, changing in-memory trees against a reference walk; sequences of operations against the os functions on a twin directory with the same injected faults; delegation to a recording file system; the dash file over faulty streams.")


prop("C13", "A template generates exactly its files at their places, or reports why not",
 "Running a template puts every file it lists at its place below the working directory and the directories around it, creating directories that are missing, with exactly the contents and mode that its operations give, in order, and changes no other file; the report has a line for each file that tells whether it was created, overwritten or identical. The first failure - of a generator, a content, a process or the file system - ends the run with that error and nothing is generated after it; running the template again completes it. A dry run changes nothing and starts no process.",
 ["programs", "fault_sequences", "configurations"], "all templates of nested directories, files, operations and variables, all trees they start from, and all failures of files, contents and generators",
 "The tests generate one file per test in an in-memory file system that never fails, mostly in the top directory.",
 ["extensions/template/template.go", "extensions/template/context.go", "extensions/template/file.go", "extensions/template/dir.go", "extensions/template/go_get.go"],
 [("output context", "extensions/template/context.go"), ("file operations", "extensions/template/file.go")],
 note=SAMPLED+"The tree, the report, the order of the generators and the result are compared with a reference generator; faults belong to paths; after a failure the same template runs again without faults.")

prop("C14", "Runs in one process do not influence each other, and repeat exactly",
 "Apps that run in one process - interleaved in any order at their steps and their input and output, one within a step of another, or one after another - each do exactly what they do alone: the same steps seeing the same values, the same output, and the same error. What a run does depends on its program, command line, environment and files, and not on the order in which a map happens to be iterated. The current app is the one whose step runs, and after a nested run it is the outer app again.",
 ["schedules", "programs", "histories"], "all sets of programs, all interleavings at steps and I/O operations, all nestings and orders, and all map iteration orders",
 "The tests run one app at a time, and an unlucky order of a map or of two runs shows in few of many executions.",
 ["app.go", "context.go", "usage.go", "templates.go", "set.go", "extensions/table/table.go", "extensions/provider/provider.go"],
 [("current app", "app.go"), ("application of bindings", "set.go"), ("help rendering", "usage.go")],
 note=SAMPLED+"Every program runs first alone; its complete history is compared with that of runs under a seeded schedule of goroutines parked at every simulated operation, and with map iteration order drawn anew. Preemption between two such points is not explored.")

prop("C15", "A command line runs exactly the command its words or fallback handlers choose",
 "The first word in the place of a sub-command runs the sub-command with that name or alias, once, with the words from there on. When there is none, the handlers for commands not found of the nearest command of the path that has any are asked, latest first, each with the error of the one before (at first, that the word is not a command), until one gives a command, names an implicit one, or skips: the command given runs with those words, the implicit one as if its name had been written before them, and after a skip the command's own action runs. If none does, or a handler given to ExecuteSubcommand itself fails, the run ends with the last error; without any word the command's own action runs or else its own help is displayed.",
 ["programs", "histories", "fault_sequences"], "all trees of commands, aliases and renames, all command lines, all sets of handlers and what they answer, and all failing or panicking steps",
 "The tests dispatch on a few fixed lines with one or two handlers; which command runs depends on how handlers of several commands, errors, skips and implicit commands combine.",
 ["command.go", "context.go", "usage.go"],
 [("dispatch", "command.go"), ("composition of handlers", "command.go"), ("help of a command without words", "usage.go")],
 note=SAMPLED+"Every step and every handler call is recorded, with the path, words and error it sees, and compared with the reference model in sim/scen/dispatch.go. Handlers answer with commands of the tree, commands they make, errors, skips or panics; a handler does not give a command that is being run already.")

prop("C16", "Each prompt is shown once, then takes exactly the next line of standard input",
 "A prompt is written to standard error exactly once, before standard input is read, and the answer is exactly the next line without its newline, however the input arrives in pieces. Whatever reads standard input in turn - prompts, steps that read it directly, the file named - or a file reference - gets the bytes after those already taken: none is lost or given twice. When the prompt cannot be written, the input fails or ends within the line, or standard input is not the terminal, no answer is returned but that error, and a prompt that could not be shown takes no input.",
 ["schedules", "inputs", "fault_sequences"], "all inputs, all ways of delivering them in pieces, all orders of readers, and all points of failure of input and of standard error",
 "The tests give one prompt one line in a single piece; lost lines show only when more than one reader follows and input arrives at particular boundaries.",
 ["cli.go", "context.go", "file.go"],
 [("ReadString", "cli.go"), ("prompts", "context.go"), ("the file -", "file.go")],
 note=SAMPLED+"Standard input is simulated with short, empty and failing reads; each reader's bytes are compared with the one stream. Reading a password from a real terminal is not simulated, only its refusal.")

prop("C17", "Completing a line offers exactly what fits the word, and runs nothing of it",
 "When the shell asks for completions, the run writes the candidates for the word at the cursor and ends with exit status 0: after the app's own Before, no action, deferred step or After of the app, its flags and args, or the commands of the line runs, whatever the line is; a Before that fails, or candidates that cannot be written, end the run with that error. The candidates are exactly the sub-commands and aliases of the command reached that begin with the word; for a word that begins with a dash, the names of the flags that command accepts, its own and the persistent ones around it; and in the place of the value of an arg, or of a flag (as the next word or after =), what the completion set for it gives, asked once with the word and the words before it. A line that is wrong or unfinished causes no panic, and nothing is offered that doesn't begin with the word typed.",
 ["programs", "inputs", "fault_sequences"], "all trees of commands, flags and args with their completions, all lines and cursors of the shell, all failing steps, completion functions and outputs",
 "The tests complete a handful of words in small apps without required args or flags, and none where the output fails or a step would run.",
 ["completion.go", "completion_zsh.go", "command.go", "context.go", "set.go"],
 [("completion request and zsh integration", "completion_zsh.go"), ("what a command completes", "command.go"), ("parsing of unfinished lines", "set.go")],
 note=SAMPLED+"Candidates, their help texts, the functions asked and the steps run are compared with a model of lines built to be right; lines disturbed at random get the weaker checks. The shells are the zsh integration, through its variables, and one of the scenario's own. Not decided: how zsh uses the mark for the space, what is offered after all args are given, and for flags that take several words.")
prop("C18", "Opening a file or address reports how the opener that it started fared",
 "On Linux, opening a file or an address starts the opener (xdg-open, found on the path) exactly once, with the name that was given as its only argument, whatever the name contains; if there is no display, or no opener that can be run, or it can't be started, that failure is returned at once and nothing is left running. If the opener ends within three seconds, the call returns as soon as it does: success if it exited cleanly, and otherwise its exit status, signal, or the failure to learn it; an opener still running after three seconds counts as opened, and the call returns success at that time, neither earlier nor later and whatever becomes of it. Each opener started is waited for exactly once and never signalled, and several opened at once or one after another don't affect each other.",
 ["schedules", "fault_sequences", "inputs"], "all names, all instants and ways for the process to end, all failures to start it or to learn its end, all environments",
 "The tests never start an opener: the duration, the outcome and the environment of the process are out of their control.",
 ["extensions/exec/exec.go", "extensions/exec/open.go"],
 [("opening and judging the process", "extensions/exec/exec.go"), ("the opener on Linux", "extensions/exec/open.go")],
 note=SAMPLED+"Processes are simulated through os/exec's calls into os; their ends are placed in virtual time, on both sides of the limit. Not decided: the app argument, which Linux's opener ignores, and the other systems' openers.")
prop("C19", "Providers get the names and arguments that the command line gives them",
 "A provider value takes its name from the first use of its flag and its arguments from the rest of that word, from further uses, and from each use of its argument flag, all of them kept, the last one given for a key winning and the argument flag's winning over the flag's own; the argument flag never sets the name, and a flag that isn't used leaves the initial name and arguments. Unless the registry that the flag, or a command around it, uses allows unknown ones, a name it doesn't have, or an argument in the flag's words that the named provider has no default for, fails the run with an error that names it before the command's action runs. Creating a provider calls its factory exactly once, with its defaults overridden by the arguments (decoded, for a factory that takes a structure), returns its result or its error unchanged, and changes neither the arguments nor what later creations get; a provider without a factory yields its value, an unknown one an error; and the listing flag writes each provider with its defaults and exits, or ends the run with the output's failure.",
 ["histories", "inputs", "fault_sequences"], "all registries, factories and their failures, all sequences of uses of the flags, over several runs and creations",
 "The tests give one use of each flag in one run, and none has a factory that fails or that changes what it was given.",
 ["extensions/provider/provider.go", "extensions/provider/context_services.go", "extensions/structure/structure.go", "option.go", "internal/support/support.go"],
 [("provider values, registries, factories", "extensions/provider/provider.go"), ("structures as arguments", "extensions/structure/structure.go"), ("actions for each occurrence", "option.go")],
 note=SAMPLED+"Histories of several runs and creations over the same registries; factories record what they get, change it, fail or panic. Not decided: arguments of the argument flag that are unknown, and words with disabled splitting there.")
prop("C20", "Bound functions get the values of the line once, or aren't called at all",
 "A function bound with bind.Call or bind.Action (or their two- and three-parameter forms), added to the Uses, Before or Action of a command or an option, is called exactly once per run, in the action timing of that command when it is the one that runs, or of that option when it is on the command line, with the values that the line gives to the options its binders name (a binder without a name takes its own option's value, or on a command the arg at the parameter's position), or with the exact value, context or custom value of its binder; functions of one pipeline are called in order, and Indirect and Redirect affect the option they name in the same way, with the flag's value or with a constant, as cli.Bind, BindIndirect and BindContext do in the Uses of an option or on one that has a value. Binders are used from left to right and once; the first that fails, or the function or the action that it makes, ends the run with that error and nothing bound is called after it, and a value on the line that doesn't parse, or a failing Before action, means that no function of that command is called. A bound evaluator of an expression operator is made and evaluated anew for each value that reaches each use of the operator, with the arguments of that use, and binders in Uses give an option without a value one of their type and change no other option.",
 ["histories", "inputs", "fault_sequences"], "all sets of bound functions, of binders and their failures, and of words on the line", "The tests call one function with binders that never fail, on one option or command.",
 ["extensions/bind/func.go", "extensions/bind/binder.go", "internal/support/bind_support.go", "extensions/expr/expr.go", "context.go", "set.go", "action.go"],
 [("Call, Action, Evaluator, Indirect, Redirect", "extensions/bind/func.go"), ("binders and their implied names and types", "extensions/bind/binder.go"), ("names to contexts", "context.go")],
 note=SAMPLED+"Any order of calls between different options and the command is accepted (C01 decides it). Not decided: the actions Bind, BindIndirect and BindContext in the Action of an option without a value, indices used by options, aliases as names, one nameless binder used by several hosts, Redirect to a string that already has a value.")
prop("C21", "An action runs only on lines that satisfy what the options declare",
 "The action of a command, and those of the options in its words, run when the line satisfies what the options declare, and otherwise don't: the run fails with an error for one of the violations in the first words that have any - a required option that isn't given in its own command's words, a value given that isn't one of its Enum or that a ValidatorFunc refuses, an option given together with or after one that it excludes (Mutex), a file that must exist but doesn't (whether given, the default, or from the environment), a working directory that can't be changed to, an unknown or another command's non-persistent flag, text of the wrong type, missing or excess arguments, or a flag after arguments where that is disallowed. A flag of an ancestor that is given in a sub-command's words is held to its Enum, ValidatorFunc, Mutex, MustExist and WorkingDirectory as it is in those of its own command. How a constraint is attached - an Option of the flag or arg, the Uses pipeline, a Prototype, or Customize - makes no difference, and neither do the spelling of the flag, its aliases, the order of flags that don't name the same one, and a flag of the same name that an ancestor has.",
 ["inputs", "histories", "configurations", "fault_sequences"], "all chains of commands, options with constraints, lines, environments, file systems and failures to examine a file or to change the directory", "The tests violate one constraint of a single option on a single command.",
 ["action.go", "option.go", "context.go", "set.go", "flag.go", "arg.go", "error.go"],
 [("validators Enum, Mutex, ValidatorFunc", "action.go"), ("MustExist, WorkingDirectory, Required", "option.go"), ("flags of ancestors in a sub-command's words", "context.go"), ("order of flags and arguments", "set.go")],
 note=SAMPLED+"In-memory file systems with failing Stat; the change of directory is recorded and refused on demand. Not decided: a required flag that only a sub-command's words give, an exclusion by an option given only in an earlier command's words, lists with separators under Enum, values that Implies gives.")
prop("C22", "Looking up an option anywhere finds the one in scope and its current state",
 "At every step of a run, in the context of a command, an option or an occurrence, looking an option up by its name, an alias (as text, rune, or with its dashes or brackets), its position, or itself finds the option in scope - the command's own, or else that of the nearest ancestor that has one - and a name that isn't in scope finds nothing. Its value (also typed, or from a context made for it), whether and how often it was seen, and its raw text are those of the words processed so far - the raw text that of the nearest command whose words give it - and never those of another option with its name or of a sibling command. The path, lineage and root of a context name the commands followed and the option, the flags of a command are its own and the persistent ones around it, the values of its args are in order, and a walk visits the command and those below it once each, parents first, without those skipped, and returns the visitor's first error.",
 ["inputs", "histories", "configurations"], "all chains of commands and options, lines, steps at which options are looked up, and ways to do so", "The tests look up one option from the action of one command.",
 ["context.go", "lookup.go", "set.go", "arg.go", "flag.go", "option.go"],
 [("lookups of options, raw text, contexts and paths", "context.go"), ("lookup by name through the contexts", "lookup.go"), ("names and aliases of what is bound", "set.go"), ("contexts of options and occurrences", "arg.go")],
 note=SAMPLED+"Not decided: names that are at once an alias of one option and the name of another, a flag that is not persistent hiding one that is, the raw text of an arg in its own context, values that an option's sources give before its own Before steps end, args of commands that have sub-commands.")
prop("C23", "An app changed while it initializes runs as if it had been written that way",
 "Flags, args and commands that an initializer adds or removes (by name, alias, position or itself), and the names, aliases, texts, data, options and prototype defaults that it gives to an element - in the uses of a command or of an option, or by customizing an element below by its name, before the element's own initializer and again once it has changed its name - take effect as though the app had been written so: every line then runs the same steps, with the same values, definitions, result and output. What is added is initialized in turn, what is removed before its turn is not, and an initializer's failure is what the run ends with, before any step. Once initialization is over, adding, removing, customizing and changing aliases are refused with ErrTimingTooLate and change nothing.",
 ["inputs", "histories", "configurations"], "all definitions, changes by initializers, lines, and failing initializers and steps", "The tests make one change to an app and look at the lists of its elements.",
 ["context.go", "action.go", "command.go", "flag.go", "arg.go", "app.go"],
 [("adding, removing and customizing", "context.go"), ("initialization of flags, args and commands", "command.go"), ("prototypes and the order of initialization", "action.go")],
 note=SAMPLED+"Not decided: commands added to or removed from the root by its options or by customization (whether it has the built-in commands is settled by then), names and texts set after initialization, prototypes where setup is prevented.")
prop("C24", "A transform makes an option's value from its words, or its error ends the run",
 "The transform that a flag or arg has - from its Transform field, Transform in its Uses, the function itself as an action, Customize, SetTransform (the last one set counts), or ValueTransform for the value part of name=value - is called for each occurrence once, each option's in the order of the words, with the option's name as written followed by the words (ValueTransform: the name and the value), before the Before steps of the command in whose words it is. Text, bytes or the content of a reader that it returns become the option's value as its type takes data, accumulating or replacing like words do; with EachOccurrence, each occurrence is transformed again for its own action and then is the value. If the transform fails or panics, the reader it returned fails, or the text isn't of the option's type, the run ends with that failure and no further transform, step or action runs.",
 ["inputs", "faults"], "all types of options, lines, results of transforms and places where they and their readers fail", "The tests have one transform, one occurrence and no reader that fails.",
 ["set.go", "value.go", "action.go", "option.go"],
 [("applying the transform to occurrences", "set.go rawApplyToOption"), ("data of values", "value.go SetData"), ("ValueTransform, Transform", "action.go"), ("occurrences", "option.go eachOccurrenceOpt")],
 note=SAMPLED+"Not decided: transforms of values from the environment or defaults (there are none), results of other types.")
prop("C25", "Every word of a line reaches the one option it is for, or the run is refused",
 "The words of a command are given, in order and each exactly once, to its flags and args as their counters take them: a flag, named by its name or an alias, its own or a persistent one, takes the text after = or behind its letter, or else the next words (a switch none, a value one, a list those before the next flag, an optional value one that isn't a flag and only after a long name, the program's own counter what it takes), the letters of flags that take nothing combine, and all other words go to the args in their order, each taking what its NArg or counter says, with flags between them where that is allowed. -- ends the flags and the arg that it follows (unless that takes all that remains), so that every later word is an arg's, and with RightToLeft, on a line without flags, the last args are those that are filled. A word without a place, an unknown flag, too few words, and a counter (in Take or Done) or value (in Set) of the program that fails end the run with an error, in the latter cases that very error, before any step, and no value is given a word after one refused its own.",
 ["inputs", "faults"], "all flags, args and counters, all lines, and all places where a counter or value fails", "The tests have a few lines for each kind of counter, and none where the program's counters or values fail in the middle.",
 ["set.go", "arg.go", "flag.go"],
 [("parsing", "set.go RawParse"), ("counting of args", "set.go argBinding, arg.go counters"), ("binding", "set.go BindingMap.ApplyTo")],
 note=SAMPLED+"Not decided: a word that looks like a flag where an arg still needs one of a fixed number, right-to-left binding where flags are given, and splitting of lists (C03 has it).")
PURE = "A pure function of its input: no schedule, clock, I/O, fault or history that a simulator could decide. Only generating inputs would remain, which is property-based testing and another technique. "

prop("N01", "Quoting, joining and splitting words are inverses of each other",
 "Words joined or quoted for a shell and split again are the same words, whatever characters they contain, and text that isn't well quoted is refused.",
 ["inputs"], "all texts and lists of words", "The tests have a few examples.",
 ["cli.go"], [("Split, Join, Quote", "cli.go")], na=PURE)
prop("N02", "The text of a value parses back to the same value",
 "For every type of value that an option can have, the text that shows a value is accepted where the option is given and yields an equal value, and text outside of the type's syntax or range is refused.",
 ["inputs"], "all types of value and all texts", "The tests have a few examples for each type.",
 ["value.go", "value/value.go", "internal/support/support.go"], [("conversions", "value.go")], na=PURE+"Where values are part of a history (their occurrences, sources, references), C03, C07, C08 and C19 compare them.")
prop("N03", "Help and usage describe exactly the visible options and commands",
 "The help of a command has each of its visible commands, args and flags, and those it inherits, once, in its category and order and with its names, synopsis and text, and nothing hidden.",
 ["configurations"], "all definitions of apps", "The tests compare a few screens.",
 ["templates.go", "usage.go", "internal/synopsis/synopsis.go"], [("templates of help", "templates.go")], na=PURE+"That help is written completely or reports why not, and doesn't depend on other runs, is decided by C09 and C14.")
prop("N04", "A context path pattern matches exactly the paths that it denotes",
 "Matching a path of commands and options against a pattern depends on their names alone, and selects those and only those elements that the pattern's segments, wildcards and alternatives denote.",
 ["inputs"], "all paths and patterns", "The tests have a few dozen pairs.",
 ["context.go"], [("path patterns", "context.go")], na=PURE+"What is run by customizations for a pattern is part of C01.")
