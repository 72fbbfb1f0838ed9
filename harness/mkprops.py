"""Writes properties.jsonl (kept as a program so that the JSON stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in state],
                     mechanism=[dict(name=mechanism, where=", ".join(files))], observe_at=list(observe), hook_needed=None)))
ALL_P = "pieshell/pipeline/"
prop("P01", "Data flows between stages complete, in order, exactly once, unmodified",
 "Whatever a stage of a pipeline (command, function or iterator) writes reaches whatever is connected to its output completely, unmodified, in order and exactly once, whatever its volume, the chunks it is written and read in, and how writers and readers interleave. Commands and byte/text readers get the exact bytes; functions and line iteration get exactly the lines, split at newlines only, decoded as UTF-8, including empty lines and a last line without a newline; a reader that gives up waiting takes nothing from those after it.",
 ["inputs", "schedules", "configurations"],
 "All byte contents, volumes beyond every buffer size, write/read chunkings, producer/consumer kinds and interleavings of their steps.",
 "Tests push one or two short lines through; chunk boundaries, multi-byte characters split by a read, values above the pipe capacity and backpressure never occur in them.",
 ["pieshell/iterio.py", "pieshell/pipeline/function.py", "pieshell/pipeline/running.py", "pieshell/pipeline/base.py", "pieshell/utils/asyncutils.py"],
 "Input handlers buffer what they read in fixed-size chunks and hand out one buffer or line per iteration step; output handlers pull one item per writable event and write it out in pieces.",
 [("buffer/pending", "bytes read but not yet handed out / pulled but not yet written")],
 ["iteration over a pipeline", "bytes(pipeline)", "str(pipeline)", "what a command reads on its descriptors"])
prop("P02", "End of input and broken pipe are seen exactly when due; pipelines terminate",
 "A reader sees end of input when, and only when, every stage that feeds it has finished or closed its output, and a writer whose readers have all gone is told so instead of blocking forever. So every pipeline whose stages would each finish by themselves terminates, including when a consumer stops early and whichever mix of commands, functions, iterators and groups it is made of.",
 ["schedules", "configurations", "histories"],
 "All pipeline shapes, all orders in which stages write, read, close, exit or die.",
 "Tests only run tiny well-behaved pipelines to the end; a leaked pipe end only shows when a particular stage finishes first.",
 ["pieshell/pipeline/pipe.py", "pieshell/pipeline/group.py", "pieshell/pipeline/command.py", "pieshell/pipeline/function.py", "pieshell/redir.py", "pieshell/iterio.py"],
 "Each run wires stages with pipes; the calling process must close its copy of every pipe end exactly once, and every child all ends that are not its own.",
 [("redirects", "which descriptors each stage holds")],
 ["end of iteration", "read() returning 0 / write() failing in a stage"])
prop("P03", "Waiting ends exactly when all stages have; failures are reported exactly",
 "Waiting for a pipeline, iterating it to its end or running it in the foreground returns only after every stage has ended, and always does then; it raises a failure if and only if some stage failed (non-zero exit, death by signal, a command that could not be started, a function that raised), and the failed stages and exit statuses it reports are exactly the real ones. This holds in whatever order and however batched stages end, before, while or after anyone waits, and with either way of receiving signals.",
 ["schedules", "fault_sequences", "configurations"],
 "All combinations of stage outcomes, orders and batchings of their ends relative to the event loop and to waiting, both signal backends.",
 "Tests check one failing command; coalesced SIGCHLDs, deaths by signal, functions that fail and ends before waiting need particular schedules.",
 ["pieshell/pipeline/running.py", "pieshell/signalio/__init__.py", "pieshell/signalio/signalutils.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py"],
 "Child state changes are collected on SIGCHLD (possibly several per signal), dispatched to the handler of that pid, which marks the process done and notifies its pipeline, which wakes waiters.",
 [("is_running/last_event", "what is known about a stage"), ("finish_future", "what waiters wait for")],
 ["RunningPipeline.wait/failed_processes/is_running", "RunningItem.is_failed/exit_code/iohandler.last_event"])
prop("P04", "Commands start with exactly the descriptors their redirections ask for",
 "A command starts with exactly the descriptors its redirections ask for and no others: each refers to the right file (created, opened for the right access) or the right pipe or descriptor, as if all redirections were made simultaneously, a later one replacing an earlier one for the same descriptor. If any of them cannot be made the command is not run at all and counts as failed. Signals that the shell ignores or blocks for its own purposes are not passed on (but for SIGTSTP, which stays blocked so that Ctrl-Z does not stop jobs in the background).",
 ["inputs", "configurations", "fault_sequences"],
 "All sets of redirections over all descriptor numbers (overlapping, swapped, shared, colliding with ones in use), source kinds and access modes, and failures to open.",
 "There is one redirection test; descriptor collisions, swaps and failures are not exercised.",
 ["pieshell/redir.py", "pieshell/pipeline/redirect.py", "pieshell/pipeline/command.py", "pieshell/log.py"],
 "In the forked child, existing source descriptors are first moved out of the way, then each redirect is opened/duplicated onto its target and everything else is closed.",
 [("redirects", "target descriptor -> source, flags, mode, borrowed")],
 ["/proc/self/fd of the command", "content of files"])
prop("P05", "Running pipelines leaves nothing behind",
 "Once a pipeline has ended and its output has been read to the end, the calling process has no more open descriptors, child processes (zombies included), temporary files, watched event sources or entries in its list of running pipelines than before, except temporary files it was explicitly asked to keep. This holds however the pipeline ended (success, failure, kill, early exit, broken pipe) and however often it is repeated.",
 ["histories", "fault_sequences", "configurations"],
 "All pipeline shapes, ways of ending and sequences of runs.",
 "No test looks at descriptors, zombies or temporary files; leaks depend on shape and way of ending.",
 ["pieshell/redir.py", "pieshell/iterio.py", "pieshell/pipeline/running.py", "pieshell/pipeline/base.py", "pieshell/signalio/__init__.py"],
 "Every descriptor, temporary file, signal handler and list entry created by a run has one owner responsible for releasing it.",
 [("open descriptors", "of the calling process"), ("running_pipelines", "pipelines not finished yet")],
 ["/proc/self/fd", "child processes", "temporary directory", "Environment.running_pipelines"])
prop("P06", "Captured output is complete, per process and per descriptor",
 "When a pipeline has ended, output redirected to memory is available for each process and each such descriptor, and is exactly what was written there (by that process and its children) with nothing lost, added or mixed up between processes or runs; the temporary files behind it are gone. Output redirected to temporary files is there, complete, in a distinct file per process and descriptor, until removed, and removing it deletes exactly those files.",
 ["configurations", "schedules", "inputs"],
 "All assignments of capture/temporary-file/pipe redirections to descriptors of several processes, all contents, orders of writing and ending, several runs.",
 "One test captures one short string of one process.",
 ["pieshell/pipeline/running.py", "pieshell/redir.py"],
 "Each capture is a temporary file made when the process starts and read, then removed, when the whole pipeline has ended.",
 [("output_content", "descriptor -> captured text"), ("output_files", "descriptor -> kept temporary file")],
 ["RunningItem.output_content", "RunningItem.output_files", "RunningPipeline.remove_output_files", "temporary directory"])
prop("P07", "Job control stops, resumes and interrupts exactly the right processes",
 "Suspending (from code or by Ctrl-Z while waiting in the foreground) stops all live processes of that pipeline and of no other, and waiting reports the suspension; resuming, in the background or in the foreground, continues all of them, after which the pipeline ends and reports as if never stopped, any number of times (if there is nothing to continue, that is said). Ctrl-C reports which pipeline was interrupted, and no signal is ever sent to a process that has been collected already (a terminal itself sends its Ctrl-C to background pipelines, too, as all share its process group).",
 ["schedules", "histories", "configurations"],
 "All sequences of suspend, Ctrl-Z, restart, bg, fg, wait, Ctrl-C and process ends over several pipelines.",
 "No test suspends anything.",
 ["pieshell/pipeline/running.py", "pieshell/pipeline/builtins.py", "pieshell/pipeline/base.py", "pieshell/signalio/manager_signalfd.py", "pieshell/signalio/manager_asyncio.py"],
 "A stop signal marks the foreground pipeline and wakes its waiter, which stops its processes; restart clears the mark and continues them; fg wraps waiting for another pipeline in a pipeline of its own.",
 [("pipeline_suspended", "suspension requested"), ("current_pipeline", "foreground pipeline"), ("last_pipeline", "default job")],
 ["process states in /proc", "exceptions of wait/run_interactive", "Environment.last_pipeline"])
prop("P08", "Pipelines are values: composing and running never changes them",
 "Building pipelines from other pipelines, adding arguments and running any of them never changes the operands: each can be printed, run, iterated and combined again, any number of times, also concurrently with itself and twice in the same pipeline, and behaves each time as a freshly written one would (apart from iterators passed in, which are consumed). What a run reports belongs to that run only.",
 ["histories", "programs"],
 "All sequences of building, running and reusing pipelines and their parts.",
 "Tests build every pipeline afresh and use it once.",
 ["pieshell/pipeline/base.py", "pieshell/pipeline/command.py", "pieshell/utils/copy.py", "pieshell/pipeline/redirect.py", "pieshell/redir.py"],
 "Combining makes new objects that refer to the operands; running works on a deep copy that carries the run state.",
 [("argument lists, redirects", "of each pipeline value")],
 ["output, repr and argv of each run"])
prop("P09", "Environments are isolated and set up their commands exactly",
 "Every command runs with exactly the working directory, exported variables and default redirections of the environment it was made from, as they are when it is run; changing one environment (cd, exports, default redirections) affects neither other environments, also ones derived from it or that it was derived from, nor (unless it is interactive, and then only the directory) the calling process. A failed change of directory changes nothing, and cd completes to the directories it could go to from there. (In a pipeline made from several environments the default redirections are those of the one it was composed in; an environment created from scratch without variables of its own uses those of the calling process.)",
 ["histories", "inputs"],
 "All sequences of deriving environments, changing directory (relative, absolute, home, through links, missing), changing exports and running commands in them.",
 "Tests use one environment.",
 ["pieshell/environ.py", "pieshell/pipeline/builtins.py", "pieshell/pipeline/command.py"],
 "Environments hold directory, exports and redirections; deriving copies them; commands enter the directory and get the exports in the forked child.",
 [("_cwd", "directory"), ("_exports", "variables"), ("_redirects", "defaults")],
 ["cwd and environment of commands", "os.getcwd()", "os.environ"])
prop("P10", "Commands get exactly the argument vector that was written",
 "The argument vector a command receives is exactly the sequence of arguments written for it (attributes, positional arguments, options from keyword arguments), each passed through the documented expansions (~, variables, patterns) exactly once and never re-split, re-quoted or dropped. Raw-marked strings and bytes arrive unchanged; a pattern is replaced by exactly the matching paths relative to the environment's directory, or kept if nothing matches.",
 ["inputs", "programs"],
 "All ways of composing calls, attribute chains, keywords and dictionaries, all argument strings and directory contents.",
 "Tests look at the printed form of a few commands and one pattern.",
 ["pieshell/pipeline/command.py", "pieshell/environ.py"],
 "Arguments are accumulated in a list; at run time each is expanded to zero or more strings and passed to exec.",
 [("_arg", "accumulated arguments")],
 ["argv of the command", "repr of the pipeline"])
prop("P11", "Names resolve by fixed precedence and assignments are read back",
 "In shell scope a name means, in this order, a variable assigned there, an exported variable, a name of the enclosing Python scope, a Python builtin, and otherwise a command; a value assigned to a name is what the name then means, until it is assigned again. Assigning to an exported name changes the exported variable (seen by commands and argument expansion from then on), any other assignment exports nothing, and exporting or removing variables takes effect immediately.",
 ["histories", "programs"],
 "All sequences of assigning, exporting, deleting, looking up and expanding names, at top level, in functions and in nested scopes.",
 "Two tests assign and read two names.",
 ["pieshell/environ.py"],
 "A dictionary subclass used as globals that falls back to exports, parent scope, builtins and commands.",
 [("scope dictionary", "locals"), ("_exports", "exported variables")],
 ["evaluated expressions", "environment and argv of commands"])
prop("P12", "Pipelines, iterators and functions as arguments are connected correctly",
 "A pipeline or iterator passed as an argument is run alongside the command, which can read exactly its output from the path it receives in that argument's place; a function passed as an argument receives exactly what the command writes to its path, and its output joins the command's. Any number of them, nested, mixed with ordinary arguments, options and redirections, work independently, each ends exactly when its writers do, and all are part of the pipeline's completion and failure report.",
 ["configurations", "schedules"],
 "All numbers, kinds, nestings and positions of such arguments combined with redirections, and all interleavings of their use.",
 "One or two tests pass a single pipeline argument to cat.",
 ["pieshell/pipeline/command.py", "pieshell/redir.py"],
 "For each such argument a pipe to a free descriptor of the command is made, the argument run on its other end and the argument replaced by the descriptor's path.",
 [("redirects", "of the command, extended per argument")],
 ["argv of the command", "what it reads/writes at those paths"])
prop("P13", "Functions and iterators of every kind work as stages",
 "Generators, plain functions returning one value or an iterable, coroutines returning one value, async generators, and iterables or iterators, synchronous or not, all work as stages in any position their kind allows: each value they produce becomes exactly one line (text as UTF-8, bytes as they are, None nothing, anything else its string form). Functions run once per run with the input lines and their own extra arguments (values of every kind, as they are when it is run, and unharmed by earlier runs), see end of input properly, and what they raise makes exactly that stage fail without disturbing others.",
 ["programs", "inputs", "configurations"],
 "All kinds of callables/iterables x value types x positions x points of failure.",
 "Tests use one synchronous generator and a list.",
 ["pieshell/pipeline/function.py", "pieshell/pipeline/base.py", "pieshell/utils/asyncutils.py", "pieshell/iterio.py"],
 "Whatever is given is normalised to an async iterator of byte strings that an output handler pulls from.",
 [("function", "the callable/iterable")],
 ["output lines of the pipeline", "failed stages"])
prop("P14", "Sourcing a shell script imports its exported variables exactly",
 "After sourcing shell scripts, every variable exported when the last of them ended has, in the exports of that environment, exactly the value it had in the shell, whatever characters it contains and whatever attributes or functions are defined beside it; variables of other environments and of the calling process are unchanged. Scripts whose names contain special characters are found, they run in order in the same shell, and the scripts' own output and failure do not corrupt the import (a script that exits the shell ends it, and then nothing is imported).",
 ["inputs", "histories"],
 "All values (quotes, backslashes, newlines, control and non-ASCII bytes, declaration look-alikes), numbers of variables, functions and scripts.",
 "No test sources anything.",
 ["pieshell/pipeline/builtins.py"],
 "A shell sources the scripts and writes its declarations to a function argument that parses them.",
 [("_exports", "variables of the environment")],
 ["exports of the environment", "environment of later commands"])
prop("P15", "Subshells and remote shells are equivalent and contained",
 "Running a pipeline in a subshell, or through a remote shell that starts the same software, gives the output, end-of-input behaviour and success or failure that running it directly gives. A subshell has no effect on the calling process or its environments: no code of the caller runs twice, nothing the caller has buffered is printed twice, and changes made inside stay inside, also when it fails.",
 ["programs", "histories", "fault_sequences"],
 "All pipelines (commands, functions, builtins, nested subshells), positions and outcomes, after any earlier use of the environment.",
 "No test uses a subshell or remote shell.",
 ["pieshell/pipeline/builtins.py", "pieshell/pipeline/command.py", "pieshell/environ.py", "pieshell/pipeline/base.py", "pieshell/shell.py"],
 "A subshell is a forked copy of the process with a fresh event loop that never returns; a remote shell gets the pickled pipeline on its command line.",
 [("forked child", "must never return into the caller")],
 ["output, exit status", "side effects in the caller"])
prop("P16", "Pipelines running at the same time do not affect each other",
 "Any number of pipelines can run at the same time, started from one or several environments and tasks, nested inside each other's functions or waited for by several tasks: each delivers exactly its own output and outcome to every one of its waiters and readers, however their steps interleave. Cancelling or timing out one waiter affects neither the pipeline nor other waiters.",
 ["schedules", "configurations"],
 "All interleavings of steps of several pipelines, readers and waiters, including cancellation.",
 "Tests run one pipeline at a time.",
 ["pieshell/pipeline/running.py", "pieshell/signalio/__init__.py", "pieshell/iterio.py", "pieshell/pipeline/base.py"],
 "All pipelines share one event loop, one signal dispatcher keyed by pid and one descriptor table.",
 [("signal handlers", "pid -> process"), ("finish_future", "shared by waiters")],
 ["results of wait/iteration in each task"])
prop("P17", "Every process can be reached by a unique name derived from its command",
 "Every process of a running or finished pipeline can be reached from it through the names it lists, and different names lead to different processes: a unique command name leads directly to its process, and further levels separate processes only when they share the name. The same holds for the children of any process on the system, which also lead to its parent, group leader and session leader as far as these exist. Names never depend on anything but the processes themselves, and stay the same when processes end (those that are attributes of running pipelines anyhow, or Python keywords, only lead to processes through the mapping).",
 ["inputs", "configurations"],
 "All multisets of commands, arguments and functions in a pipeline.",
 "No test looks up a process by name.",
 ["pieshell/tree.py", "pieshell/pipeline/running.py", "pieshell/ps.py"],
 "Processes are grouped by a key that gets more specific with each level until groups have one member.",
 [("TreeGroup", "name -> process or subgroup")],
 ["dir() and attributes of a running pipeline"])
prop("P18", "Nothing runs until asked to, and then exactly once",
 "Writing, combining, naming or completing pipelines, and asking for their text (repr), runs none of their stages (only looking up a command's documentation or signature runs it, with --help); each way of running one runs every stage exactly once. In an interactive shell a pipeline that is the value of a statement runs exactly once, in the foreground and with the shell's own input and output, and results, running pipelines and non-interactive pipelines are displayed without running anything, with a text that depends only on what was written (with its arguments expanded).",
 ["programs", "histories"],
 "All pipelines and sequences of building, displaying and running them in interactive and non-interactive environments.",
 "Tests check the text of a few pipelines, not what runs.",
 ["pieshell/pipeline/base.py", "pieshell/environ.py", "pieshell/shell.py"],
 "The display hook runs a pipeline when its environment is interactive, it has not been started, and it is not being shown as part of something else.",
 [("_started", "this copy has been run"), ("in_repr", "nested display")],
 ["side effects of commands", "text of repr"])
prop("P19", "Shell modules, scripts and shell functions run in a scope of their own",
 "Code in shell modules, scripts and decorated shell functions can use the full shell syntax: names resolve as in the shell, and its variables, exports and the directory of its commands belong to its own environment (modules are interactive, so changing directory in one also moves the process), so importing or calling it changes nothing of its importer beyond what Python itself does. Modules run once however often they are imported, their variables are attributes that stay in step with their functions, and arguments, defaults and closures work as in Python.",
 ["programs", "histories"],
 "All sequences of importing, calling and assigning, with all name kinds.",
 "No test imports a shell module or decorates a function.",
 ["pieshell/module.py", "pieshell/environ.py", "pieshell/shell.py"],
 "A meta path finder loads *.pysh files into a scope over a fresh environment; decorating rebinds a function's globals to such a scope.",
 [("module scope", "variables of the module")],
 ["module attributes", "results of functions", "cwd/exports of caller and module"])
prop("P20", "The shell runs what it is given, statement by statement, and reports failures",
 "At a terminal, in files and with --cmd, the shell runs its startup file (or the default one) and then every statement exactly once, in order and in the shell's current directory and environment, each seeing the effects of those before it. A statement that fails is reported and changes nothing else: at a terminal the prompt comes back, and of a file only the rest is skipped. What waits can be stopped or interrupted with Ctrl-Z and Ctrl-C, after which the shell goes on, and the value of a statement is shown as in Python, or, if it is a pipeline, run with the shell's own input and output.",
 ["programs", "histories", "configurations"],
 "All sequences of statements (commands, assignments, exports, cd, jobs, functions, errors) in all three kinds of sessions, with keys pressed whenever something waits.",
 "No test starts the shell.",
 ["pieshell/shell.py", "pieshell/__main__.py", "pieshell/environ.py", "pieshell/jedi_completion.py", "pieshell/pipeline/builtins.py"],
 "The program makes a scope over an environment, executes the startup file, then a console, files or a command line in it, with a display hook that runs pipelines.",
 [("scope", "the shell's variables"), ("last_pipeline", "default job"), ("displayhook", "runs pipelines")],
 ["terminal output and prompts", "side effects of commands", "process states", "exit of the shell"])
prop("P21", "A name runs the program that its environment's PATH stands for",
 "A command runs the first executable file of its name in the directories of PATH of its own environment at the time it is started (relative and empty parts from the environment's directory, anything not executable skipped), or, if its name has a slash, the file of that path from there. If there is none, the command fails like any that fails, and says so on its standard error. Completion offers exactly such names, together with the builtins, as of when they were last looked up.",
 ["histories", "configurations"],
 "All contents of directories, values of PATH (set, changed, inherited, unset) and current directories, at any time between making and running a command.",
 "Tests run programs that are in /bin, with the PATH of the test runner.",
 ["pieshell/environ.py", "pieshell/pipeline/command.py", "pieshell/pipeline/builtin.py"],
 "A command's child moves to the directory of its environment and then executes its name with the environment's exports; completion lists the directories of PATH once and caches that.",
 [("_exports", "variables of the environment"), ("_dir_cache", "cached completions")],
 ["which program ran", "failure of the command and its message", "dir() of environments"])
prop("P22", "Commands of one's own stand for the pipelines they run",
 "A name that is registered (from Python, under a name of one's choice, or by the entry points of an installed package) stands for the Python that is registered for it when the word is written, and keeps doing so whatever is added to it or registered later. When, and only when, it is run, that Python is run once for each time the word stands in the pipeline, with the arguments and the environment of the word, and the pipeline it runs takes the word's place: in pipes, groups, redirections, as an argument, within another of one's own, in subshells and several at once, output, exit statuses and failures are those of writing that pipeline there. Environments complete to registered names, and such commands to what they offer themselves.",
 ["programs", "histories", "configurations"],
 "All commands of one's own (bodies of every shape, nested, registered again), expressions they stand in, ways of running them and orders of registering, writing and running.",
 "No test registers a builtin; the README's example is the only one there is.",
 [ALL_P + "builtin.py", ALL_P + "command.py", ALL_P + "base.py", ALL_P + "running.py", "pieshell/environ.py", "pieshell/__init__.py"],
 "Making a command looks its name up in the registry and makes an object of the registered class, whose _run runs another pipeline with the redirections it was given.",
 [("builtins", "name -> class"), ("_cmd", "the pipeline that is run in the place of the command")],
 ["output, exit codes and failures", "calls of one's own _run", "dir() of environments and commands"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
