From 7d2459958fb65b740dd3bee1c59cdd8e8ce8c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 01/29] fix: uninterrupted() completes its step even if
 cancelled more than once

---
 shellous/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index e3e23b3..7183834 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -145,8 +145,14 @@ async def uninterrupted(coro: Coroutine[Any, Any, _T]) -> _T:
         return await asyncio.shield(task)
 
     except asyncio.CancelledError:
+        # Wait for the task to finish, even if we are cancelled again.
+        while not task.done():
+            try:
+                await asyncio.wait([task])
+            except asyncio.CancelledError:
+                pass
         if not task.cancelled():
-            await task
+            task.result()
         raise
 
 
-- 
2.43.0


From 1731c7d15230b6af2c7f8593e183fd234e4d123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 02/29] fix: reap a killed process even if the caller is
 cancelled again

---
 shellous/runner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0d74355..0c567ca 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -613,7 +613,10 @@ class Runner:
 
         try:
             self._signal(None)
-            await harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+            # Always reap the killed process, even if we are cancelled.
+            await uninterrupted(
+                harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+            )
         except asyncio.TimeoutError as ex:
             # Manually check if the process is still running.
             if poll_wait_pid(self._proc):
-- 
2.43.0


From 9fc841b3825cb91ce6203ff02a3d77d1de1f6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 03/29] fix: equal EnvironmentDict objects have equal hashes

---
 shellous/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index 7183834..f8bc5af 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -214,7 +214,7 @@ class EnvironmentDict(abc.Mapping[str, str]):
         return iter(self._data)
 
     def __hash__(self) -> int:
-        return hash(tuple((key, value) for key, value in self._data.items()))
+        return hash(frozenset(self._data.items()))
 
     def __eq__(self, rhs: object) -> bool:
         if isinstance(rhs, dict):
-- 
2.43.0


From 3d0c293ea0f8c018a8df080965bd44aca613ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 04/29] fix: close every descriptor exactly once when command
 setup fails

---
 shellous/runner.py | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0c567ca..4d57dbc 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -121,7 +121,11 @@ class _RunOptions:
         except Exception as ex:
             if LOG_DETAIL:
                 LOGGER.debug("_RunOptions.enter %r ex=%r", self.command.name, ex)
-            _cleanup(self.command)
+            # Close everything that was opened so far, and the descriptors that
+            # `command` was asked to close (`open_fds` may include them).
+            _cleanup(self.command, self.open_fds)
+            for subcmd in self.subcmds:
+                _cleanup(subcmd)
             raise
 
         assert _cmd is self.command, "self.command should remain unchanged"
@@ -165,19 +169,20 @@ class _RunOptions:
             if _is_writable(arg):
                 new_args.append(f"/dev/fd/{write_fd}")
                 new_fds.append(write_fd)
+                self.open_fds.append(write_fd)
                 subcmd = arg.stdin(read_fd, close=True)
             else:
                 new_args.append(f"/dev/fd/{read_fd}")
                 new_fds.append(read_fd)
+                self.open_fds.append(read_fd)
                 subcmd = arg.stdout(write_fd, close=True)
 
             self.subcmds.append(subcmd)
 
-        # We need to include `new_fds` in our `pass_fds` list. We also need
-        # to close them after process launch.
+        # We need to include `new_fds` in our `pass_fds` list. They are also in
+        # `open_fds`, because we need to close them after process launch.
         self.kwd_args["pass_fds"] = new_fds
         self.kwd_args["close_fds"] = True
-        self.open_fds.extend(new_fds)
 
         if BSD_DERIVED:
             verify_dev_fd(new_fds[0])
@@ -1258,22 +1263,33 @@ def _is_multiple_capture(cmd: "shellous.Command[Any]"):
     return output == Redirect.CAPTURE and error == Redirect.CAPTURE
 
 
-def _cleanup(command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]"):
-    "Close remaining file descriptors that need to be closed."
+def _cleanup(
+    command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
+    open_fds: Optional[list[Any]] = None,
+):
+    """Close remaining file descriptors that need to be closed.
+
+    If `open_fds` is given, it lists the descriptors that are already scheduled
+    to be closed. All descriptors are closed exactly once.
+    """
+    if open_fds is None:
+        open_fds = []
 
     def _add_close(close: bool, fdesc: Any):
         if close:
-            if isinstance(fdesc, (int, io.IOBase)):
+            if isinstance(fdesc, (int, io.IOBase)) and fdesc not in open_fds:
                 open_fds.append(fdesc)
 
-    open_fds: list[Any] = []
+    is_pipe = isinstance(command, shellous.Pipeline)
 
-    _add_close(command.options.input_close, command.options.input)
-    _add_close(command.options.output_close, command.options.output)
-    _add_close(command.options.error_close, command.options.error)
+    for cmd in command.commands if is_pipe else (command,):
+        _add_close(cmd.options.input_close, cmd.options.input)
+        _add_close(cmd.options.output_close, cmd.options.output)
+        _add_close(cmd.options.error_close, cmd.options.error)
 
-    if command.options.pass_fds_close:
-        open_fds.extend(command.options.pass_fds)
+        if cmd.options.pass_fds_close:
+            for fdesc in cmd.options.pass_fds:
+                _add_close(True, fdesc)
 
     close_fds(open_fds)
 
-- 
2.43.0


From 9d4581293d5967b2c38a2bb41383c9384f2565d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 05/29] fix: support file objects as standard input, as
 documented

---
 shellous/runner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 4d57dbc..f74216a 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -290,6 +290,11 @@ class _RunOptions:
             # Shellous-supported input classes.
             assert stdin == asyncio.subprocess.PIPE
             assert input_bytes is None
+        elif isinstance(input_, io.IOBase):
+            # Client-managed File-like object.
+            stdin = input_
+            if close:
+                self.open_fds.append(stdin)
         else:
             raise TypeError(f"unsupported input type: {input_!r}")
 
-- 
2.43.0


From 2cfef31ab13bacdf87d0ba6eadca0198f2cead21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 06/29] fix: close a redirected file object after launch when
 close=True

---
 shellous/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index f74216a..5fd1c03 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -345,6 +345,8 @@ class _RunOptions:
             # Client-managed File-like object.
             _set_position(output, append)
             stdout = output
+            if close:
+                self.open_fds.append(stdout)
         else:
             raise TypeError(f"unsupported output type: {output!r}")
 
-- 
2.43.0


From 2bee398b4ca8709f611d8c2003b299927d4e372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 07/29] fix: close both ends of the pty when launching fails or
 is cancelled

---
 shellous/pty_util.py | 54 +++++++++++++++++++++++++++++---------------
 shellous/runner.py   | 13 ++++++++---
 2 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index b3413d0..82fb4ae 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -57,7 +57,7 @@ class PtyFds(NamedTuple):
 
     @log_method(LOG_DETAIL)
     async def open_streams(self) -> "PtyFds":
-        "Open pty reader/writer streams."
+        "Open pty reader/writer streams. Closes `parent_fd` if this fails."
         reader, writer = await _open_pty_streams(self.parent_fd, self.child_fd)
         return PtyFds(
             self.parent_fd,
@@ -82,16 +82,20 @@ def open_pty(pty_func: PtyAdapterOrBool) -> PtyFds:
     "Open pseudo-terminal (pty) descriptors. Returns (PtyFds, child_fd)."
     parent_fd, child_fd = pty.openpty()
 
-    # If pty_func is a callable, call it here with `child_fd` as argument. This
-    # gives the client an opportunity to configure the tty.
-    if callable(pty_func):
-        pty_func(child_fd)
+    try:
+        # If pty_func is a callable, call it here with `child_fd` as argument.
+        # This gives the client an opportunity to configure the tty.
+        if callable(pty_func):
+            pty_func(child_fd)
 
-    return PtyFds(
-        parent_fd,
-        ChildFd(child_fd),
-        _get_eof(child_fd),
-    )
+        return PtyFds(
+            parent_fd,
+            ChildFd(child_fd),
+            _get_eof(child_fd),
+        )
+    except BaseException:
+        close_fds([parent_fd, child_fd])
+        raise
 
 
 def set_ctty(ttypath: str) -> None:
@@ -158,15 +162,29 @@ async def _open_pty_streams(parent_fd: int, child_fd: ChildFd):
     # first data is received on BSD systems.
     reader_protocol.pty__child_fd = child_fd
 
-    reader_transport, _ = await loop.connect_read_pipe(
-        lambda: reader_protocol,
-        os.fdopen(parent_fd, "rb", 0, closefd=False),
-    )
+    try:
+        writer_file = os.fdopen(parent_fd, "wb", 0, closefd=True)
+    except BaseException:
+        close_fds([parent_fd])
+        raise
+
+    reader_transport = None
+    try:
+        reader_transport, _ = await loop.connect_read_pipe(
+            lambda: reader_protocol,
+            os.fdopen(parent_fd, "rb", 0, closefd=False),
+        )
+
+        writer_transport, writer_protocol = await loop.connect_write_pipe(
+            asyncio.streams.FlowControlMixin,
+            writer_file,
+        )
+    except BaseException:
+        if reader_transport is not None:
+            reader_transport.close()
+        writer_file.close()
+        raise
 
-    writer_transport, writer_protocol = await loop.connect_write_pipe(
-        asyncio.streams.FlowControlMixin,
-        os.fdopen(parent_fd, "wb", 0, closefd=True),
-    )
     writer = asyncio.StreamWriter(writer_transport, writer_protocol, reader, loop)
 
     # Patch writer_transport.close so it also closes the reader_transport.
diff --git a/shellous/runner.py b/shellous/runner.py
index 5fd1c03..ac66bc1 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -705,8 +705,13 @@ class Runner:
             LOGGER.debug("Runner._start %r ex=%r", self, ex)
             if _is_cancelled(ex):
                 self._set_cancelled()
-            if self._proc:
-                await self._kill()
+            try:
+                if self._proc:
+                    await self._kill()
+            finally:
+                # `_close` is not called when launching fails.
+                if self._options.pty_fds:
+                    self._options.pty_fds.close()
             raise
 
         # Make final streams available. These may be different from `self.proc`
@@ -731,7 +736,9 @@ class Runner:
 
         # Second half of pty setup.
         if opts.pty_fds:
-            opts.pty_fds = await opts.pty_fds.open_streams()
+            # If this fails, `open_streams` has closed the parent fd.
+            pty_fds, opts.pty_fds = opts.pty_fds, None
+            opts.pty_fds = await pty_fds.open_streams()
 
         # Check for task cancellation and yield right before exec'ing. If the
         # current task is already cancelled, this will raise a CancelledError,
-- 
2.43.0


From 36e65b1b485a042b90dac76cee97060460515818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 08/29] fix: a pipeline does not close pipe descriptors owned
 by its commands

---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index ac66bc1..50372b8 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1161,6 +1161,9 @@ class PipeRunner:
 
             cmds = self._setup_pipeline(open_fds)
 
+            # From here on, each command closes its own file descriptors.
+            open_fds.clear()
+
             if self._capturing:
                 stdin, stdout, stderr = await self._setup_capturing(cmds)
             else:
-- 
2.43.0


From 7cda163188d275ec64dde012ff302b78904609a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 09/29] fix: entering a pipeline fails if its first or last
 command cannot be launched

---
 shellous/runner.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 50372b8..ad6736b 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1214,10 +1214,14 @@ class PipeRunner:
         middle_coros = [cmd.coro() for cmd in cmds[1:-1]]
 
         # Tag each task name with the index of the command in the pipe.
-        self.add_task(first_coro, "0")
+        first_task = self.add_task(first_coro, "0")
         for i, coro in enumerate(middle_coros):
             self.add_task(coro, str(i + 1))
-        self.add_task(last_coro, str(len(cmds) - 1))
+        last_task = self.add_task(last_coro, str(len(cmds) - 1))
+
+        # If a command finishes before it is ready, stop waiting for it.
+        first_task.add_done_callback(lambda task: _set_not_ready(task, first_fut))
+        last_task.add_done_callback(lambda task: _set_not_ready(task, last_fut))
 
         # When capturing, we need the first and last commands in the
         # pipe to signal when they are ready.
@@ -1266,6 +1270,18 @@ class PipeRunner:
         return result.output
 
 
+def _set_not_ready(task: asyncio.Task[Any], ready: asyncio.Future[Runner]):
+    "Called when `task` is done; fail the `ready` future if it's still pending."
+    if ready.done():
+        return
+    if task.cancelled():
+        ready.cancel()
+    else:
+        ready.set_exception(
+            task.exception() or RuntimeError("command finished before ready")
+        )
+
+
 def _uses_process_substitution(cmd: "shellous.Command[Any]") -> bool:
     "Return True if command uses process substitution."
     return any(
-- 
2.43.0


From a41d1641a800ece3b79d655229d5064dcd2b326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 10/29] fix: a pipeline whose pipe cannot be created raises
 that error

---
 shellous/runner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index ad6736b..1a9ef66 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1103,6 +1103,11 @@ class PipeRunner:
             for task in self._tasks:
                 task.cancel()
 
+        if not self._tasks:
+            # Nothing was started.
+            self._results = []
+            return
+
         cancelled, self._results = await harvest_results(*self._tasks, trustee=self)
         if cancelled:
             self._cancelled = True
-- 
2.43.0


From 93f2a7e1acc98d4eac682ffc25796874bd92b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 11/29] fix: close handed-over descriptors when the pipes of a
 pipeline cannot be created

---
 shellous/runner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 1a9ef66..afb8a85 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1164,7 +1164,12 @@ class PipeRunner:
             stdout = None
             stderr = None
 
-            cmds = self._setup_pipeline(open_fds)
+            try:
+                cmds = self._setup_pipeline(open_fds)
+            except BaseException:
+                # No command will run; also close what they were asked to close.
+                _cleanup(self._pipe, open_fds)
+                raise
 
             # From here on, each command closes its own file descriptors.
             open_fds.clear()
-- 
2.43.0


From baf6db6a78945ac644d76e85d42584c2aec7eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 12/29] fix: harvest waits for its tasks to be done even if
 cancelled repeatedly

---
 shellous/harvest.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 0e71288..a426eb7 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -171,9 +171,14 @@ async def _cancel_wait(
         await _cancel_waiter(tasks, trustee, cancel_timeout)
 
     except asyncio.CancelledError:
-        # Retry once if _cancel_wait is itself cancelled.
-        LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
-        await _cancel_waiter(tasks, trustee, cancel_timeout)
+        # Keep waiting, even if _cancel_wait is itself cancelled repeatedly.
+        while True:
+            LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
+            try:
+                await _cancel_waiter(tasks, trustee, cancel_timeout)
+                break
+            except asyncio.CancelledError:
+                pass
 
 
 async def _cancel_waiter(
-- 
2.43.0


From abc6f7dcd546f9ac2183540f34a87a1e67b438c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 13/29] fix: report a killed process as killed even if its
 status was lost

---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index afb8a85..6c50c51 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -3,6 +3,7 @@
 import asyncio
 import io
 import os
+import signal
 import sys
 from logging import Logger
 from pathlib import Path
@@ -610,6 +611,8 @@ class Runner:
 
         if sig is None:
             self._proc.kill()
+            if sys.platform != "win32":
+                self._last_signal = signal.SIGKILL
         else:
             self._proc.send_signal(sig)
             self._last_signal = sig
-- 
2.43.0


From 13c88feeaacfb4cea13381139e432b71ab0bf974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 14/29] fix: expect loses no output when it is cancelled right
 after a match

---
 shellous/prompt.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 21e45af..acd0fa5 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -327,7 +327,7 @@ class Prompt:
         if isinstance(result, Exception):
             raise result
 
-        return result
+        return self._take_pending(result)
 
     async def read_all(
         self,
@@ -426,10 +426,11 @@ class Prompt:
     async def _read_to_pattern(
         self,
         pattern: re.Pattern[str],
-    ) -> tuple[str, re.Match[str]]:
-        """Read text up to part that matches the pattern.
+    ) -> re.Match[str]:
+        """Read text into `pending` buffer until it matches the pattern.
 
-        Returns 2-tuple with (text, match).
+        Returns the match. The `pending` buffer is left unchanged, so nothing
+        is lost if the caller is cancelled before it can use the match.
         """
         stdout = self._runner.stdout
         assert stdout is not None
@@ -461,9 +462,9 @@ class Prompt:
                 continue
             self._pending += data
 
-            result = self._search_pending(pattern)
-            if result is not None:
-                return result
+            found = pattern.search(self._pending)
+            if found:
+                return found
 
             assert self._at_eof or len(self._pending) > _prev_len  # debug check
 
@@ -481,19 +482,23 @@ class Prompt:
         """
         found = pattern.search(self._pending)
         if found:
-            result = self._pending[0 : found.start(0)]
-            self._pending = self._pending[found.end(0) :]
-            if LOG_PROMPT:
-                LOGGER.info(
-                    "Prompt[pid=%s] found: %r [%s CHARS PENDING]",
-                    self._runner.pid,
-                    found,
-                    len(self._pending),
-                )
-            return (result, found)
+            return self._take_pending(found)
 
         return None
 
+    def _take_pending(self, found: re.Match[str]) -> tuple[str, re.Match[str]]:
+        "Remove everything up to the end of the match from the `pending` buffer."
+        result = self._pending[0 : found.start(0)]
+        self._pending = self._pending[found.end(0) :]
+        if LOG_PROMPT:
+            LOGGER.info(
+                "Prompt[pid=%s] found: %r [%s CHARS PENDING]",
+                self._runner.pid,
+                found,
+                len(self._pending),
+            )
+        return (result, found)
+
     async def _drain(self, stream: asyncio.StreamWriter) -> None:
         "Drain stream while reading into buffer concurrently."
         read_task = asyncio.create_task(
-- 
2.43.0


From 063c162de5d7f6eb3a83d4fb02feee93c06d1a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 15/29] fix: send reports a broken pipe while it waits for the
 pipe to drain

---
 shellous/prompt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index acd0fa5..5ba2a6d 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -510,7 +510,8 @@ class Prompt:
         finally:
             if not read_task.done():
                 read_task.cancel()
-                await read_task
+                # Don't replace an exception from `drain` by CancelledError.
+                await asyncio.wait([read_task])
 
     async def _read_some(
         self,
-- 
2.43.0


From 0a4ba49a6f3f65535e34e907f8b0087fcda1c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:07 +0000
Subject: [PATCH 16/29] fix: with a pty, honour redirections of stdin, stdout
 and stderr

A stream that is redirected away from the terminal is no longer exposed as
run.stdin/run.stdout, stderr=STDOUT follows stdout when stdout is redirected,
and stdout=DEVNULL with stderr=STDOUT no longer fails with AssertionError.
---
 shellous/runner.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 6c50c51..7c6affc 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -82,6 +82,8 @@ class _RunOptions:
     output_bytes: Optional[bytearray]
     error_bytes: Optional[bytearray]
     is_stderr_only: bool = False
+    is_pty_stdin: bool = False
+    is_pty_stdout: bool = False
 
     def __init__(self, command: "shellous.Command[Any]"):
         self.command = command
@@ -380,12 +382,14 @@ class _RunOptions:
 
         if stdin == asyncio.subprocess.PIPE:
             stdin = child_fd
+            self.is_pty_stdin = True
 
         if stdout == asyncio.subprocess.PIPE:
             stdout = child_fd
+            self.is_pty_stdout = True
 
         if stderr == asyncio.subprocess.STDOUT:
-            stderr = child_fd
+            stderr = stdout
 
         ttyname = os.ttyname(child_fd)
         return stdin, stdout, stderr, lambda: pty_util.set_ctty(ttyname)
@@ -671,10 +675,13 @@ class Runner:
             stdout = self._proc.stdout
             stderr = self._proc.stderr
 
-            # Assign pty streams.
+            # Assign pty streams (unless stdin/stdout is redirected elsewhere).
             if opts.pty_fds:
                 assert (stdin, stdout) == (None, None)
-                stdin, stdout = opts.pty_fds.writer, opts.pty_fds.reader
+                if opts.is_pty_stdin:
+                    stdin = opts.pty_fds.writer
+                if opts.is_pty_stdout:
+                    stdout = opts.pty_fds.reader
 
             if stderr is not None:
                 limit = None
-- 
2.43.0


From c834d16648111ce94e2e5c45abcca80d0c140675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 17/29] fix: run the program found through an empty entry of
 the search path

---
 shellous/runner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 7c6affc..7e41f70 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -119,6 +119,10 @@ class _RunOptions:
                 found_executable = _cmd.options.which(executable)
                 if found_executable is None:
                     raise FileNotFoundError(executable)
+                if not os.path.dirname(found_executable):
+                    # An empty entry in PATH names the current directory. Add
+                    # the directory, or the PATH is searched again at launch.
+                    found_executable = os.path.abspath(found_executable)
                 self.pos_args[0] = found_executable
 
         except Exception as ex:
-- 
2.43.0


From a3c6c244c30908184151610c8c2a9029b1f84b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 18/29] fix: do not send an end-of-file character that the
 terminal has disabled

---
 shellous/pty_util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index 82fb4ae..93f0724 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -26,6 +26,7 @@ from .util import BSD_DERIVED, BSD_FREEBSD, close_fds
 _STDOUT_FILENO = 1
 _LFLAG = 3
 _CC = 6
+_VDISABLE = b"\xff" if BSD_DERIVED else b"\x00"  # _POSIX_VDISABLE
 
 PtyAdapter = Callable[[int], None]
 PtyAdapterOrBool = Union[PtyAdapter, bool]
@@ -271,6 +272,8 @@ def _get_eof(fdesc: int):
     attrs = termios.tcgetattr(fdesc)
     if attrs[_LFLAG] & termios.ICANON:
         eof = attrs[_CC][termios.VEOF]
+        if eof == _VDISABLE:
+            eof = b""  # there is no EOF character
 
     return eof
 
-- 
2.43.0


From 3a857c931b1a5ceaca83db2201c71a0243f1527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:31 +0000
Subject: [PATCH 19/29] fix: close the watcher's pipe when its thread cannot be
 set up

---
 shellous/watcher.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/shellous/watcher.py b/shellous/watcher.py
index 36f3cf6..1dfb457 100644
--- a/shellous/watcher.py
+++ b/shellous/watcher.py
@@ -267,14 +267,18 @@ class EPollStrategy(ChildStrategy):
         self._pidfds = {}  # pidfd -> (pid, callback, args)
         self._epoll = select.epoll()
         self._selfpipe = os.pipe()
-        self._epoll.register(self._selfpipe[0], select.EPOLLIN)
-        self._tasks = _TaskSet()
-        self._thread = threading.Thread(
-            target=self._run,
-            name="EPollStrategy.run",
-            daemon=True,
-        )
-        self._thread.start()
+        try:
+            self._epoll.register(self._selfpipe[0], select.EPOLLIN)
+            self._tasks = _TaskSet()
+            self._thread = threading.Thread(
+                target=self._run,
+                name="EPollStrategy.run",
+                daemon=True,
+            )
+            self._thread.start()
+        except BaseException:
+            close_fds(self._selfpipe)
+            raise
 
     def close(self) -> None:
         "Tell the epoll thread to exit."
-- 
2.43.0


From e1cd4ad9e9c8d2e9099a0332cb24ece5675ad89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:40 +0000
Subject: [PATCH 20/29] fix: close a descriptor that is handed over twice only
 once

---
 shellous/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index f8bc5af..21964e3 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -58,11 +58,14 @@ class SupportsClose(Protocol):
 
 def close_fds(open_fds: Iterable[Union[SupportsClose, int]]) -> None:
     "Close open file descriptors or file objects."
+    closed: set[int] = set()
     with log_timer("close_fds"):
         try:
             for obj in open_fds:
                 if isinstance(obj, int):
-                    if obj >= 0:
+                    # The same descriptor may be listed more than once.
+                    if obj >= 0 and obj not in closed:
+                        closed.add(obj)
                         try:
                             os.close(obj)
                         except OSError as ex:
-- 
2.43.0


From b0d4a97f69c58cc9d8fb6850cede18e3f12bb89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:32 +0000
Subject: [PATCH 21/29] fix: give up writing to a terminal that nothing reads
 any more

---
 shellous/pty_util.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index 93f0724..3c08f6e 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -75,6 +75,9 @@ class PtyFds(NamedTuple):
         self.child_fd.close()
         if self.writer:
             self.writer.close()
+            if self.writer.transport.get_write_buffer_size() > 0:
+                # Discard unwritten input. It may never be possible to write it.
+                self.writer.transport.abort()
         else:
             close_fds([self.parent_fd])
 
@@ -113,6 +116,7 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
 
     pty__child_fd: Optional[ChildFd] = None
     pty__timer: Optional[asyncio.TimerHandle] = None  # Issue #378
+    pty__writer_transport: Optional[asyncio.WriteTransport] = None
 
     def connection_lost(self, exc: Optional[Exception]) -> None:
         "Intercept EIO error and treat it as EOF."
@@ -123,6 +127,11 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
         if isinstance(exc, OSError) and exc.errno == errno.EIO:
             exc = None
         super().connection_lost(exc)
+        # When nothing has the child side open any more, writing blocks forever
+        # instead of failing. Give up writing unless it's already being closed.
+        writer_transport = self.pty__writer_transport
+        if writer_transport is not None and not writer_transport.is_closing():
+            writer_transport.abort()
 
     if BSD_DERIVED:
         # BSD only: On Linux, use the default behavior.
@@ -186,6 +195,7 @@ async def _open_pty_streams(parent_fd: int, child_fd: ChildFd):
         writer_file.close()
         raise
 
+    reader_protocol.pty__writer_transport = writer_transport
     writer = asyncio.StreamWriter(writer_transport, writer_protocol, reader, loop)
 
     # Patch writer_transport.close so it also closes the reader_transport.
-- 
2.43.0


From 0bf653bf8bdc7647009d0524e18f02fbf1a09993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:42 +0000
Subject: [PATCH 22/29] fix: unread input does not replace the reason why a
 process was stopped

---
 shellous/runner.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 7e41f70..66cf164 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -918,6 +918,7 @@ class Runner:
         "Finish the run. Return True only if `exc_value` should be suppressed."
         assert self._proc
 
+        stopped = True
         try:
             if exc_value is not None:
                 if _is_cancelled(exc_value):
@@ -926,13 +927,14 @@ class Runner:
                 return self._cancelled
 
             await self._wait()
+            stopped = self._cancelled
             return False
 
         finally:
-            await self._close()
+            await self._close(stopped=stopped)
 
     @log_method(LOG_DETAIL)
-    async def _close(self):
+    async def _close(self, *, stopped: bool):
         "Make sure that our resources are properly closed."
         assert self._proc is not None
 
@@ -963,6 +965,11 @@ class Runner:
         except asyncio.TimeoutError:
             LOGGER.critical("Runner._close %r timeout stdin=%r", self, self._proc.stdin)
 
+        except (BrokenPipeError, ConnectionResetError):
+            # Don't replace the reason why the process was stopped.
+            if not stopped:
+                raise
+
     def _audit_callback(
         self,
         phase: str,
-- 
2.43.0


From 3ca1d9b65d5f6dc5f2fe7721cf13c621a826acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:20 +0000
Subject: [PATCH 23/29] fix: report the status of a process that had exited
 before it was signalled

---
 shellous/runner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 66cf164..0baf6c2 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -462,6 +462,13 @@ class Runner:
             return None
         code = self._proc.returncode
         if code == _UNKNOWN_EXIT_CODE and self._last_signal is not None:
+            # `Popen.send_signal` polls the process first. If it has reaped the
+            # process, it knows the status (but 0 may also mean "not found").
+            transport = self._proc._transport  # pyright: ignore
+            popen = transport.get_extra_info("subprocess")
+            status = getattr(popen, "returncode", None)
+            if status and status != _UNKNOWN_EXIT_CODE:
+                return status
             # After sending a signal, `waitpid` may fail to locate the child
             # process. In this case, map the status to the last signal we sent.
             # For more on this, see https://github.com/python/cpython/issues/87744
-- 
2.43.0


From 856fe64b883219f955e840819b867c62878c85f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 24/29] fix: close the descriptors of pass_fds given as an
 iterator

---
 shellous/runner.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0baf6c2..0d81927 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -258,9 +258,11 @@ class _RunOptions:
             # Setting pass_fds causes close_fds to be True. Set close_fds to
             # True manually to avoid a RuntimeWarning.
             self.kwd_args["close_fds"] = True
-            self.kwd_args.setdefault("pass_fds", []).extend(options.pass_fds)
+            # `pass_fds` may be an iterator.
+            pass_fds = list(options.pass_fds)
+            self.kwd_args.setdefault("pass_fds", []).extend(pass_fds)
             if options.pass_fds_close:
-                self.open_fds.extend(options.pass_fds)
+                self.open_fds.extend(pass_fds)
         elif "close_fds" not in self.kwd_args:
             # Only set close_fds if it is not already set.
             self.kwd_args["close_fds"] = options.close_fds
-- 
2.43.0


From ddd59128bcaf12d7200e3ce1770882e38371701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:05 +0000
Subject: [PATCH 25/29] fix: a cancellation while iterating over lines is not
 swallowed

---
 shellous/command.py  | 2 ++
 shellous/pipeline.py | 2 ++
 shellous/runner.py   | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/shellous/command.py b/shellous/command.py
index 2b896a2..079727d 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -734,6 +734,8 @@ class Command(Generic[_RT]):
         async with Runner(self) as run:
             async for line in run:
                 yield line
+        if run.cancelled:
+            run.result()  # raises CancelledError
 
     def __call__(self, *args: Any) -> "Command[_RT]":
         "Apply more arguments to the end of the command."
diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 7f5b608..6bfc00d 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -240,3 +240,5 @@ class Pipeline(Generic[_RT]):
         async with PipeRunner(self, capturing=True) as run:
             async for line in run:
                 yield line
+        if run.cancelled:
+            run.result()  # raises CancelledError
diff --git a/shellous/runner.py b/shellous/runner.py
index 0d81927..9c46a3b 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1102,6 +1102,11 @@ class PipeRunner:
             return None
         return self._pid
 
+    @property
+    def cancelled(self) -> bool:
+        "Return True if the pipeline was cancelled."
+        return self._cancelled
+
     def result(self, *, check: bool = True) -> Result:
         "Return `Result` object for PipeRunner."
         assert self._results is not None
-- 
2.43.0


From c4d9f40e227ad1973ef5bf54fe1829b7d555d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 26/29] fix: pass_fds given as an iterator serves every run of
 the command

---
 shellous/command.py | 3 +++
 shellous/runner.py  | 6 ++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/shellous/command.py b/shellous/command.py
index 079727d..18e759d 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -251,6 +251,9 @@ class Options:  # pylint: disable=too-many-instance-attributes
                 kwds["env"] = EnvironmentDict(None, new_env)
             else:
                 kwds["env"] = None
+        if kwds.get("pass_fds"):
+            # `pass_fds` may be an iterator.
+            kwds["pass_fds"] = tuple(kwds["pass_fds"])
         return dataclasses.replace(self, **kwds)
 
     @overload
diff --git a/shellous/runner.py b/shellous/runner.py
index 9c46a3b..0a199a5 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -258,11 +258,9 @@ class _RunOptions:
             # Setting pass_fds causes close_fds to be True. Set close_fds to
             # True manually to avoid a RuntimeWarning.
             self.kwd_args["close_fds"] = True
-            # `pass_fds` may be an iterator.
-            pass_fds = list(options.pass_fds)
-            self.kwd_args.setdefault("pass_fds", []).extend(pass_fds)
+            self.kwd_args.setdefault("pass_fds", []).extend(options.pass_fds)
             if options.pass_fds_close:
-                self.open_fds.extend(pass_fds)
+                self.open_fds.extend(options.pass_fds)
         elif "close_fds" not in self.kwd_args:
             # Only set close_fds if it is not already set.
             self.kwd_args["close_fds"] = options.close_fds
-- 
2.43.0


From 9e350a79fa11609fbd0a0fc648d0f106185e2ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 27/29] fix: a cancellation while collecting the other tasks is
 not swallowed

---
 shellous/harvest.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index a426eb7..7e1f836 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -139,12 +139,19 @@ async def harvest_wait(
                 cancel_finish,
                 ex,
             )
-        await _cancel_wait(tasks, trustee, cancel_timeout, cancel_finish)
+        try:
+            await _cancel_wait(tasks, trustee, cancel_timeout, cancel_finish)
+        except asyncio.CancelledError:
+            pass
         _consume_exceptions(tasks)
         raise
 
     if pending:
-        await _cancel_wait(pending, trustee, cancel_timeout)
+        try:
+            await _cancel_wait(pending, trustee, cancel_timeout)
+        except asyncio.CancelledError:
+            _consume_exceptions(tasks)
+            raise
 
     assert all(task.done() for task in tasks)
 
@@ -179,6 +186,7 @@ async def _cancel_wait(
                 break
             except asyncio.CancelledError:
                 pass
+        raise
 
 
 async def _cancel_waiter(
-- 
2.43.0


From 2066dd2cf2e4f1a0c7e1d58a9452c457fccb34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:38 +0000
Subject: [PATCH 28/29] fix: close the pipes of a process whose launch failed
 even if its child has them open

---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0a199a5..5f94fc3 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -733,6 +733,9 @@ class Runner:
                 # `_close` is not called when launching fails.
                 if self._options.pty_fds:
                     self._options.pty_fds.close()
+                if self._proc:
+                    # The pipes may still be open in a child of the process.
+                    self._proc._transport.close()  # pyright: ignore
             raise
 
         # Make final streams available. These may be different from `self.proc`
-- 
2.43.0


From 7521a13944d4fa695c51af157e71fac85fa1055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:43 +0000
Subject: [PATCH 29/29] fix: a stopped run does not leave its input pipe open
 if a child of the process does not read it

---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 5f94fc3..9e45052 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -974,6 +974,9 @@ class Runner:
 
         except asyncio.TimeoutError:
             LOGGER.critical("Runner._close %r timeout stdin=%r", self, self._proc.stdin)
+            if stopped and self._proc.stdin is not None:
+                # A child of the process has the pipe open and doesn't read it.
+                self._proc.stdin.transport.abort()
 
         except (BrokenPipeError, ConnectionResetError):
             # Don't replace the reason why the process was stopped.
-- 
2.43.0

