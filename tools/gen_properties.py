#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, **extra):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": ", ".join(files)} for m in mechanism.split(";")]}
    a.update(extra)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

R, H, X, PR, PI, U, C, RS, PT, W = ["shellous/%s.py" % n for n in
  "runner harvest redirect prompt pipeline util command result pty_util watcher".split()]

p("C01", "No child process outlives its command",
  "When a run of a command ends for any reason (normal completion, an exception in the `async with` body, a failing redirection, a timeout, or cancellation of the caller at any instant, including while the process is being launched or already being killed), every child process it started has exited and been reaped before control returns to the caller. The only exception is a process that survives SIGKILL, which is reported as an error.",
  ["schedules", "fault_sequences"],
  "Every relative order of process exit, exit notification, output EOF, stdin progress, timer expiry and up to two cancellations delivered at any callback boundary, for processes that honour, delay or ignore the cancel signal.",
  "Tests cancel at a few wall-clock instants against well-behaved children; the window between two event-loop callbacks is never hit deliberately.",
  [R, H, U], "Runner.__aenter__/_start/_subprocess_spawn (shielded launch), _finish/_wait/_kill/_kill_wait and harvest's cancel-and-wait")

p("C02", "Graceful-then-forced termination of a stopped command",
  "Stopping a running command first sends exactly the configured cancel signal (SIGKILL if none is configured) and sends SIGKILL afterwards only if the process has still not finished after the configured cancel timeout, or if waiting for it was itself interrupted or failed. A command that is never stopped is never signalled, and no signal is sent once its exit is known.",
  ["schedules", "inputs", "configurations"],
  "Every cancel signal setting, every real-valued cancel timeout and timeout, every process reaction delay, and every instant of cancellation or body failure.",
  "Tests use two or three concrete timeouts and one stubborn child; they cannot compare the instant of SIGKILL with every exit instant.",
  [R, C], "Runner._kill sends cancel_signal, harvests tasks and waiter with cancel_timeout, then _kill_wait sends SIGKILL")

p("C03", "Timeout and cancellation outcomes are exact",
  "An awaited command raises TimeoutError only if its timeout, measured from the end of launch, expired before the command completed; it raises CancelledError only if its caller was cancelled, and does (also when its output is iterated over) when that happens before the timeout expires; it returns its normal result or ResultError only if it completed before the timeout expired. When a run is stopped by a timeout, a cancellation or an exception of the caller, input that the process left unread does not replace that outcome. Once a run has ended, no timer belonging to it can cancel the caller.",
  ["schedules", "inputs"],
  "All real-valued timeouts (including none and zero), launch durations, exit/EOF instants, and at most one external cancellation at any callback boundary.",
  "Wall-clock tests keep a wide margin between the timeout and the exit instant, so ties and near-ties are never exercised.",
  [R, RS], "Runner._start_timer/_set_timer_expired/_stop_timer, __aexit__'s TimeoutError, check_result")

p("C04", "Audit callback sees exactly one start and one stop per run",
  "For every run with an audit callback, the callback is called with 'start' exactly once before anything else, 'stop' exactly once as the last event, and 'signal' exactly once, in order, for every signal sent, naming that signal ('SIGKILL' for a forced kill). The 'stop' event carries a failure name exactly when launching failed, and that name is the type of the exception raised.",
  ["schedules", "fault_sequences"],
  "Every launch failure point and exception type, every cancellation instant, every outcome of the run.",
  "Tests look at a handful of success and failure scenarios; a double or missing stop only appears when cancellation hits a particular await.",
  [R], "Runner._audit_callback called from __aenter__, __aexit__ and _signal")

p("C05", "Exit status decides result versus error",
  "For a command that was not cancelled, `await` returns normally exactly when the exit status is one of the allowed exit codes (only 0 when none are configured) and otherwise raises ResultError carrying the very result; with the `.result` modifier every status from -255 to 255 returns a Result. A process killed by signal N reports exit status -N (also when the system lost the status of a process we had signalled with N), truth of a Result is `exit status == 0`, and its exit signal is N exactly when the status is -N and the platform names signal N (none for a status >= 0; a negative status that names no signal raises ValueError).",
  ["inputs", "configurations"],
  "All integer exit statuses in [-255, 255], arbitrary allowed-code containers, all cancelled/timed-out flags, all last-signal values.",
  "Tests use a few exit codes; which of the flag and status combinations raises what is only sampled.",
  [RS, R], "check_result, Result.__bool__/exit_signal, Runner.returncode/result/run_command")

p("C06", "Pipeline status follows pipefail",
  "The result of a completed pipeline takes its exit status and error text from the first command that failed on its own (that is, was not merely cancelled as a consequence), or from a command with status 0 if none failed (if every command was cancelled, from one of them), while output and encoding always come from the last command. If any command ended with an exception other than an error status, the first such exception is raised instead of a result.",
  ["inputs", "histories"],
  "All pipelines of up to four commands with arbitrary exit statuses, cancelled flags, and result/error/exception outcomes in each position.",
  "Tests cover a few two- or three-command pipelines with one failing element.",
  [RS, R], "convert_result_list, _find_key_result, _compare_result, PipeRunner.result")

p("C07", "Pipelines fail as a unit and never hang",
  "If any command of a pipeline cannot be launched, fails, or the pipeline is cancelled at any instant, the other commands are stopped, all child processes have exited before the pipeline ends, and the underlying error (or cancellation) is raised to whoever awaits the pipeline or asks for its result (a cancellation also to whoever iterates over its output); input left unread by a command that was stopped does not replace it. Awaiting or entering a pipeline always finishes when its processes do: there is no order of launches, failures and exits that leaves it waiting forever.",
  ["schedules", "fault_sequences"],
  "Two- and three-command pipelines, any subset of commands failing to launch, any exit order, one cancellation at any callback boundary, awaited and used as context manager.",
  "Tests cover one failing position at a time when awaited, and no launch failures when entered as a context manager.",
  [R, PI, H], "PipeRunner._start/_setup_capturing/_finish/_wait with harvest_results")

p("C08", "Descriptors of a command are closed exactly once",
  "By the time a run of a command has ended, every descriptor the library opened for it (files named by path, process-substitution pipes, pseudo-terminal ends) and every descriptor handed over with a close option has been closed exactly once in the parent, whichever step of the setup, launch or run failed or was cancelled. Descriptors not handed over are never closed, and redirection descriptors stay open until the child has been launched.",
  ["fault_sequences", "configurations", "schedules"],
  "Every combination of descriptor-bearing redirections, close flags, pass_fds, process substitution and pty, with a failure injected at any single system call of setup and launch, or one cancellation.",
  "Tests check the descriptor table after successful runs and a couple of failures; the failure points are many and individually rare.",
  [R, U, PT], "_RunOptions.__enter__/__exit__/_setup_*, _cleanup, close_fds, PtyFds.close, ChildFd.close")

p("C09", "Pipeline pipes are closed exactly once",
  "Every pipe descriptor a pipeline creates between its commands is closed exactly once in the parent by the time the pipeline has ended, for every way the pipeline can end: success, a failing pipe creation, a command that cannot be launched, or cancellation at any instant.",
  ["fault_sequences", "schedules"],
  "Two- and three-command pipelines, failure of any pipe creation or launch, one cancellation at any callback boundary, awaited and entered as context manager.",
  "A double close is invisible unless another thread or task reuses the number in between; tests cannot see it.",
  [R, PI], "PipeRunner._setup_pipeline/_start clean-up plus the close flags passed to each command's redirections")

p("C10", "Standard input is delivered completely and then closed",
  "Whatever input is attached to a command (bytes, str, bytearray, StringIO, BytesIO, StreamReader), exactly its bytes are written to the process in order and then end-of-file is signalled exactly once: by closing the pipe, or on a pseudo-terminal by one EOF character when the data ends a line and two when it does not. Closing a prompt session, or leaving it, ends the input of its process. A process that stops reading early never makes the run hang: the pipe is still closed, what was written is a prefix of the input, and the run either completes or raises BrokenPipeError or ConnectionResetError; it raises no such error when all of the input was written, and for an in-memory input (bytes, str, buffers) on a pipe it never completes quietly with part of the input unwritten. On a pseudo-terminal, a process that exits without reading its input does not make the run hang or spin either, and both ends of the terminal are closed.",
  ["inputs", "schedules"],
  "All input contents of any length, every chunking of a stream source, up to a stated number of chunks, with the consumer disappearing at any write.",
  "Tests use a few strings; line-ending and chunk-boundary combinations on a pty are not sampled.",
  [X, R], "write_stream, write_reader, Runner._setup_input_source, _RunOptions._setup_input")

p("C11", "Captured output is complete, in order, unmodified",
  "Everything a process writes to a stream redirected to a buffer, bytearray, BytesIO, StringIO, logger or StreamWriter arrives in that target exactly once and in order, however the bytes are split into reads and whatever their number, before the run returns. If the output cannot be read to its end, or the target StreamWriter cannot take it, the run ends with an error and never returns quietly with part of the output missing. Text targets receive the decoding of the whole byte sequence, so characters split between reads are never corrupted, and a logger receives one message per line.",
  ["inputs", "schedules"],
  "All output contents and lengths, every partition into reads up to a stated number of reads, any suspension between reads.",
  "Tests cannot control how the kernel partitions the output and sample a few sizes.",
  [X, R], "copy_stringio, copy_bytesio, copy_bytearray, copy_logger, copy_streamwriter, Runner._setup_output_sink")

p("C12", "Buffered standard error is exactly the first error_limit bytes",
  "When standard error is buffered, the stored bytes are exactly the first `error_limit` bytes of what the process wrote (everything when there is no limit), for any limit including zero and any partition into reads. The stream is still read to its end after the limit is reached, so the process never blocks on a full pipe.",
  ["inputs", "configurations"],
  "All integer limits >= 0 and no limit, all stream lengths, every partition into reads up to a stated number of reads.",
  "Tests try two limits with one chunk pattern; the boundary where a read crosses or exactly meets the limit is only one pattern among many.",
  [X, R], "copy_bytearray_limit, Runner._start's choice of limit")

p("C13", "Redirections connect each stream as documented",
  "For every combination of documented stdin, stdout and stderr targets, with or without a pty, the process is started with exactly the documented descriptors (pipe, null device, inherited stream, given descriptor or file, merged stderr, terminal), and the run exposes a stream for manual use exactly for captured streams. Unsupported targets are rejected with TypeError or ValueError before any process is started.",
  ["configurations"],
  "The full product of redirect target kinds for the three streams and the pty flag, with symbolic descriptor numbers and close/append flags.",
  "The product has thousands of combinations; tests take a few dozen.",
  [X, R, C], "Redirect.from_default and its table, _RunOptions._setup_redirects/_setup_input/_setup_output/_setup_pty1, Runner._start")

p("C14", "Redirect with | replaces and with >> appends",
  "Redirecting output to a file path, bytearray, StringIO, BytesIO or seekable file with `|` leaves exactly the new output in the target, and with `>>` leaves the previous contents followed by the new output, regardless of the previous contents or the current position of the target.",
  ["inputs", "configurations"],
  "All prior contents lengths and positions, all new outputs, append and replace, stdout and stderr, every supported target type.",
  "Tests use one prior content and position per type.",
  [R, C, PI], "_set_position, _RunOptions._setup_output open modes, __or__/__rshift__ on commands and pipelines")

p("C15", "Command arguments are flattened and coerced faithfully",
  "Building a command keeps str, bytes, path-like, command and pipeline arguments unchanged, converts other scalars with str(), bytes-like and in-memory-file objects to their contents, and splices nested lists and tuples in order at any depth; so the argument vector is the left-to-right flattening of what was given. Dicts, sets, generators, ranges, None and Ellipsis are rejected with TypeError wherever they appear, and a coercion hook is applied exactly once to each top-level argument.",
  ["inputs", "programs"],
  "All argument trees up to a stated depth and width over all documented argument types, with and without a coercion hook.",
  "Tests list some examples; nesting and type combinations multiply beyond what is listed.",
  [C], "coerce, CmdContext.__call__, Command.__call__")

p("C16", "Commands are immutable and updates are exact",
  "Every modifier of a command, context or pipeline returns a new object in which exactly the named settings have the given values and all others are unchanged, and never alters the object it was called on or one derived earlier. Adding arguments appends them after the existing ones.",
  ["histories", "inputs"],
  "All sequences of up to a stated number of modifier calls with arbitrary values, on commands, contexts and pipelines.",
  "Tests check single modifiers; leaks between derived objects need particular sequences.",
  [C, PI], "frozen dataclasses and dataclasses.replace in Options.set*/add_env, CmdContext, Command, Pipeline")

p("C17", "Environment passed to a command is exact",
  "The environment of a started process is the parent's environment overridden by the command's variables when inheritance is on, and exactly the command's variables when it is off; successive env() calls accumulate with later values winning, set(env=...) replaces, and values are converted with str(). Command environments that compare equal have equal hashes whatever order they were built in.",
  ["histories", "inputs"],
  "All histories of up to a stated number of env()/set(env=)/inherit_env updates over a small set of names with arbitrary values.",
  "Tests use fixed two-step histories and never compare hashes of equal environments.",
  [C, U], "Options.add_env/set/runtime_env, EnvironmentDict")

p("C18", "Pipeline composition with | is associative and routes settings",
  "Joining commands and pipelines with `|` yields the flat left-to-right sequence of commands however it is parenthesised; an input on the left is attached to the first command's stdin only, and a target on the right, stderr redirections and result/writable modifiers affect the last command only. Redirecting to plain text is rejected.",
  ["programs"],
  "All expressions with up to four commands, every parenthesisation, with and without an input and an output, over all documented operand types.",
  "Tests check a few expressions.",
  [PI, C], "Command.__or__/__ror__/__rshift__, Pipeline.__or__/__ror__/__rshift__/_add/stdin/stdout/stderr")

p("C19", "Prompt output is conserved, regardless of chunking",
  "Across any sequence of expect, command, read_all and read_pending calls, the text returned before each match, the matched text, text removed by read_pending/read_all, and the text still pending always concatenate to exactly the decoded output received so far, however the output is split into reads, even inside a multi-byte character. Timeouts, cancellation and EOF lose nothing: unread text stays pending.",
  ["inputs", "histories", "schedules"],
  "All outputs and prompt patterns up to a stated length over a symbolic alphabet, every split into reads, all call sequences up to a stated length, with timeout or cancellation at any read.",
  "Tests cannot control read boundaries and use fixed transcripts.",
  [PR], "Prompt._read_to_pattern/_search_pending/_read_some/read_pending and the incremental decoder")

p("C20", "expect matches exactly the first occurrence of its prompt",
  "expect() returns at the first read after which the prompt pattern occurs in the pending text, splitting at the leftmost occurrence; a string prompt matches only itself literally, and a list matches any of its strings literally. It raises EOFError only when the output has ended without a match, TimeoutError only when its timeout (or the default) expired first, and TypeError when there is no pattern at all.",
  ["inputs", "schedules"],
  "All texts and literal prompts up to a stated length, including all regular-expression metacharacters, every split into reads, EOF and timeout at any point.",
  "Tests use a few prompts and rely on the shell's own chunking.",
  [PR], "Prompt.expect, _regex_compile_exact, _search_pending")

p("C21", "Prompt send delivers text once and cannot deadlock",
  "send() writes exactly the encoded text followed by the line ending, once, and returns when the process has accepted it (but for what fits the write buffer), raising TimeoutError only if its timeout expires first and an OSError such as BrokenPipeError only if the process stopped reading. While it waits it keeps reading the process's output into the pending buffer, so it completes whenever the process needs its output drained first, and everything read meanwhile is still available to later calls; with no_echo nothing is written before terminal echo is off and the text is never logged.",
  ["schedules", "inputs"],
  "All texts, line endings and default/explicit timeouts, every interleaving of output arrival, backpressure release, timeout and cancellation up to stated bounds.",
  "Backpressure in both directions depends on kernel buffer sizes and timing; tests cover one large transfer.",
  [PR], "Prompt.send/_drain/_read_some/_wait_no_echo/_log_send")

p("C22", "harvest leaves nothing running and reports the failure",
  "When harvesting a group of awaitables ends, every one of them is done. It raises an exception raised by a member if one fails, after cancelling the others; TimeoutError exactly when the time limit passes with nobody failed; CancelledError when the caller is cancelled, also while the other members are being collected after a failure or timeout; and the result-collecting form returns whether it was cancelled and one entry per awaitable in order with cancellations and failures in place.",
  ["schedules", "inputs"],
  "Groups of up to three tasks that finish, fail, are cancelled, or take time to react to cancellation at symbolic instants; symbolic timeouts; up to two cancellations of the caller.",
  "Tests use fixed sleep times; ties and cancellations during clean-up are not reached.",
  [H], "harvest, harvest_results, harvest_wait, _cancel_wait, _cancel_waiter, _to_result")

p("C23", "Every watched child is reported exactly once",
  "For every process registered with the child watcher, its callback is invoked exactly once, with that process's pid, its exit status and the registered arguments, whatever the order of registrations, process exits and notifications; a callback that fails because its loop is closed does not stop other processes from being reported, and a process that cannot be watched because the system has no descriptor left is killed and reported too. When the watcher has been closed, it has released every descriptor it opened, each exactly once.",
  ["schedules", "histories", "fault_sequences"],
  "Up to three processes, registration before or after exit, any notification grouping, failure of descriptor allocation, each strategy available on this platform.",
  "Exit/registration races are not controllable from a test.",
  [W], "DefaultChildWatcher, EPollStrategy, ThreadStrategy, _poll_dead_pid, _invoke_callback")

p("C24", "Wait status is decoded faithfully",
  "Reaping a process yields its exit code if it exited, minus the signal number if it was killed, 255 if its status is no longer available, and nothing at all while it is still running; polling a process records that status exactly once and never changes a status already known.",
  ["inputs"],
  "All 16-bit wait statuses, all pids, all waitpid outcomes.",
  "Tests use one or two real children.",
  [U], "wait_pid, poll_wait_pid")

p("C25", "Re-entrant async with pairs each exit with its own run",
  "The same command or pipeline object may be entered any number of times, nested in one task or overlapping in several tasks including child tasks, and every exit finishes exactly the run started by the matching entry, in last-in first-out order within a task; an entry that fails leaves the runs entered earlier to their own exits. Leaving a block that was not entered is reported as an error.",
  ["histories", "schedules"],
  "All interleavings of enter/exit operations up to a stated length over up to three tasks and two command objects.",
  "Tests cover one nested and one overlapping case.",
  [U, C, PI], "context_aenter/context_aexit and the context-variable stack keyed by object and task")

p("C26", "Process substitution wires each sub-command to its own pipe",
  "Each command or pipeline used as an argument is replaced by a /dev/fd path naming one end of a fresh pipe that the main process inherits, while the sub-command is connected to the other end: its output normally, its input when it is writable; the calling process keeps neither end open, so that each side sees the other end closing. Sub-commands start only after the main process was launched, are awaited with it, and if one fails or the main command cannot be launched everything is stopped and the error raised.",
  ["configurations", "fault_sequences"],
  "Up to two substitutions in any argument position, readable or writable, commands or pipelines, with any single launch or pipe failure and any exit order.",
  "Tests cover single substitutions that succeed and a few failures.",
  [R], "_RunOptions._setup_process_substitution, _is_writable, Runner._subprocess_spawn")

p("C27", "Line iteration yields each output line exactly once",
  "`async for` over a command or pipeline yields the lines of its output in order, each exactly once with its line ending and as soon as it is complete, and their concatenation is the whole output, however it is split into reads; iteration captures stdout (or stderr when only stderr is wanted) automatically, and capturing both is rejected. Leaving the loop early still stops the process.",
  ["inputs", "schedules", "configurations"],
  "All outputs up to a stated length, every split into reads, every redirect combination, early exit after any line.",
  "Tests read fixed outputs whose chunking they do not control.",
  [X, R, C, PI], "aiter_preflight, read_lines, Runner._readlines, PipeRunner._readlines, Command._readlines")

p("C28", "Program lookup uses the configured search path",
  "A program name without a directory part is resolved with the command's search path when one is set and otherwise with PATH, and the process is started from exactly the file found; a name with a directory part is used as given. If nothing is found FileNotFoundError is raised and no process is started, and find_command agrees with what running the command would execute.",
  ["inputs", "configurations"],
  "All program names up to a stated length over a symbolic alphabet including separators, str, bytes and path-like, every search-path setting, found or not found.",
  "Tests use a couple of names.",
  [R, C], "_RunOptions.__enter__, Options.which, CmdContext.find_command")

p("C29", "Terminal settings change only what was asked",
  "Setting echo on a terminal changes the echo flag only, leaves every other terminal attribute as it was, and reading it back gives the value set; without a terminal echo reads as off and setting it raises RuntimeError. The end-of-file character is used only in canonical mode and is the terminal's own. The pty helpers set the requested size when rows or columns are given, and leave it alone otherwise.",
  ["inputs"],
  "All 32-bit local-mode words, all control-character tables, all row/column values, echo on/off.",
  "Tests see the one terminal configuration of the host.",
  [PT], "set_term_echo/get_term_echo/_get_eof, raw/cbreak/cooked, _set_term_size")

p("C30", "A shielded step completes even when its caller is cancelled",
  "A step run as uninterruptible always runs to completion when its caller is cancelled once, its effects are complete before the cancellation is reported to the caller, and its own result or exception is passed on unchanged when there is no cancellation.",
  ["schedules"],
  "Every number of suspension points up to a stated bound, one cancellation at any callback boundary, success or failure of the step.",
  "Tests cancel at one fixed instant.",
  [U, R], "uninterrupted")

p("C31", "A process inherits exactly what it was given",
  "The process of a command is started with exactly the descriptors given by pass_fds (any iterable) and those of its own process substitutions, and with the rest closed unless close_fds is turned off and nothing is passed; in a new session exactly when that is asked for or it runs on a pseudo-terminal, which is then its controlling terminal; running the given function before it executes, if any. Nothing else of its process attributes is changed, other commands of the same pipeline or process substitution get none of it, and every run of the same command object gets the same.",
  ["configurations"],
  "Every combination of close_fds, new session, function, terminal and up to two passed descriptors in any kind of iterable; awaited, entered, iterated, prompted; in pipelines, with process substitution; up to two runs.",
  "Tests try single options; the combinations with process substitution, terminals, pipelines and repeated runs are not sampled.",
  [R, C], "_RunOptions._setup_pass_fds/_setup_redirects/_setup_proc_sub, pty_util.open_pty, Runner._subprocess_exec")

p("C32", "Turning on detailed logging changes nothing",
  "With the library's own detailed logging switched on (SHELLOUS_TRACE), every run behaves as without it: the same results and exceptions, the same processes stopped, the same descriptors closed, no data lost or held back, no warning or error from the logging itself.",
  ["schedules", "inputs", "fault_sequences"],
  "The scenarios of the other properties (lifecycle, faults, pipelines, data, prompts, harvest, watcher, iteration, launch) within their bounds, executed with every trace option on and every record formatted.",
  "The test suite runs with tracing on or off as a whole; the combinations of tracing with cancellation, faults and generator clean-up are not sampled.",
  ["shellous/log.py", R, H], "log_method, log_timer and the wrappers around coroutines, async generators and functions; __repr__ of Runner, PipeRunner, Command")

p("C33", "Runs of the same command or pipeline are independent",
  "A command, pipeline or context can be run any number of times, one after the other or at the same time, in any mix of modes. Every run starts its own processes with the same arguments, environment and complete input, reports exactly its own output, errors, status and process id (also to the audit callback), ends when its own processes do, and is unaffected when another run is cancelled, times out, fails to start or raises: the processes of one run are never signalled, awaited or closed on account of another. The same holds for a run of an object derived from one that is running.",
  ["schedules", "inputs", "histories"],
  "Two or three runs of one object (or of one derived from it), each in any mode, started 0..10 s apart or in sequence, processes ending at any real instant with any of two statuses; one run cancelled at any callback boundary, failing to start at any fallible operation, raising, or running into the common time limit.",
  "Tests run an object once, or several times without interference; overlapping runs with faults, limits and cancellation are a product of schedules.",
  [R, C, PI], "Runner/_RunOptions per-run state, Command/Pipeline as immutable values, PipeRunner._setup_pipeline, audit callback")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
