From 29064edc0ebf0e734ea5507ba4cdc45ed34fbc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 01/68] fix: treat a process killed by a signal as finished

A killed or core-dumped child never resolved its handler, so waiting for its
pipeline hung forever; a continued child was also reported as dumped.
---
 pieshell/signalio/__init__.py    |  2 +-
 pieshell/signalio/signalutils.py | 11 ++++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/pieshell/signalio/__init__.py b/pieshell/signalio/__init__.py
index 3755118..507ff18 100644
--- a/pieshell/signalio/__init__.py
+++ b/pieshell/signalio/__init__.py
@@ -52,7 +52,7 @@ class ProcessSignalHandler(SignalHandler):
     def handle_event(self, event):
         log.log("Process event %s" % self.pid, "signal")
         self.last_event = event
-        if event["ssi_code"] == CLD_EXITED:
+        if event["ssi_code"] in (CLD_EXITED, CLD_KILLED, CLD_DUMPED):
             log.log("EXIT %s" % self.pid, "signal")
             #if exception is not None:
             #    self.done_future.set_exception(exception)
diff --git a/pieshell/signalio/signalutils.py b/pieshell/signalio/signalutils.py
index e134f1e..6f72ebf 100644
--- a/pieshell/signalio/signalutils.py
+++ b/pieshell/signalio/signalutils.py
@@ -68,17 +68,14 @@ def get_sigchlds():
             if os.WIFEXITED(status):
                 res["ssi_code"] = CLD_EXITED
                 res["ssi_status"] = os.WEXITSTATUS(status)
-            elif os.WCOREDUMP(status):
-                res["ssi_code"] = CLD_DUMPED
+            elif os.WIFSIGNALED(status):
+                res["ssi_code"] = CLD_DUMPED if os.WCOREDUMP(status) else CLD_KILLED
                 res["ssi_status"] = os.WTERMSIG(status)
-            elif os.WIFCONTINUED(status):
-                res["ssi_code"] = CLD_CONTINUED
             elif os.WIFSTOPPED(status):
                 res["ssi_code"] = CLD_STOPPED
                 res["ssi_status"] = os.WSTOPSIG(status)
-            elif os.WIFSIGNALED(status):
-                res["ssi_code"] = CLD_KILLED
-                res["ssi_status"] = os.WTERMSIG(status)
+            elif os.WIFCONTINUED(status):
+                res["ssi_code"] = CLD_CONTINUED
 
             yield res
     except OSError:
-- 
2.43.0


From 412923513944d76770225216bdf868c836c3011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 02/68] fix: notify the pipeline when a function in it fails

The exception ended await_finish() before the pipeline was told, so a pipeline
whose last function to finish raised an exception was waited for forever and
never cleaned up.
---
 pieshell/pipeline/running.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 2bbe1b4..38a0bd5 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -194,7 +194,10 @@ class RunningItem(BaseRunningItem):
         self.output_content = {}
         asyncio.get_event_loop().create_task(self.await_finish())
     async def await_finish(self):
-        await self.iohandler.wait()
+        try:
+            await self.iohandler.wait()
+        except Exception:
+            pass # Available through is_failed and the iohandler
         self.running_pipeline.handle_finish()
     @property
     def is_running(self):
-- 
2.43.0


From 0b2774812b962d57507f8703e690642c85c2ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 03/68] fix: read captured output whatever bytes it contains

Output that was not valid in the locale's encoding raised an exception that
left the pipeline unfinished, and carriage returns were rewritten.
---
 pieshell/pipeline/running.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 38a0bd5..ba0de73 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -212,7 +212,7 @@ class RunningItem(BaseRunningItem):
             if not isinstance(redirect.pipe, redir.STRING): continue
             # Yes, reread the STRING pipe, it can have been modified
             # by another part of the pipeline since we finished.
-            with open(redirect.pipe.path) as f:
+            with open(redirect.pipe.path, errors="replace", newline="") as f:
                 self.output_content[fd] = f.read()
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
-- 
2.43.0


From 32057a4b3e0febf7068f28ec6fccf35e1c5a80ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 04/68] fix: never block the event loop writing a large value
 to a pipe

---
 pieshell/iterio.py | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 1fcc593..9beb18c 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -70,6 +70,7 @@ class OutputHandler(IOHandler):
     def __init__(self, fd, iter, borrowed = False, usage = None):
         self.iter = iter
         self.recursion_lock = False
+        self.pending = b""
         self.done_future = asyncio.get_event_loop().create_future()
         IOHandler.__init__(self, fd, borrowed, usage)
 
@@ -103,16 +104,26 @@ class OutputHandler(IOHandler):
             self.iter = self.iter.__aiter__()
         return self.iter
             
+    def format_item(self, val):
+        return val
+
     async def send_output(self):
-        if self.recursion_lock: return
-        iter = self.get_iter()
+        if self.recursion_lock or self.destroyed: return
         try:
-            self.recursion_lock = True
-            val = await iter.__anext__()
-            self.recursion_lock = False
-            if val is not None:
-                os.write(self.fd, val)                
+            if not self.pending:
+                iter = self.get_iter()
+                self.recursion_lock = True
+                val = await iter.__anext__()
+                self.recursion_lock = False
+                if val is None: return
+                self.pending = memoryview(self.format_item(val))
+            # A writable pipe only promises room for this much, and
+            # blocking here would block the reader too if that is us.
+            written = os.write(self.fd, self.pending[:select.PIPE_BUF])
+            self.pending = self.pending[written:]
+            log.log("WRITE %s, %s bytes" % (self.fd, written), "io")
         except StopAsyncIteration:
+            log.log("STOP ITERATION %s" % self.fd, "ioevent")
             self.destroy()
         except Exception as e:
             self.destroy(e)
@@ -125,21 +136,8 @@ class OutputHandler(IOHandler):
 
 
 class LineOutputHandler(OutputHandler):
-    async def send_output(self):
-        if self.recursion_lock: return
-        iter = self.get_iter()
-        try:
-            self.recursion_lock = True
-            val = await iter.__anext__()
-            self.recursion_lock = False
-            if val is not None:
-                os.write(self.fd, val + b"\n")
-            log.log("WRITE %s, %s" % (self.fd, repr(val)), "io")
-        except StopAsyncIteration:
-            log.log("STOP ITERATION %s" % self.fd, "ioevent")
-            self.destroy()
-        except Exception as e:
-            self.destroy(e)
+    def format_item(self, val):
+        return val + b"\n"
 
 class InputHandler(IOHandler):
     events = select.POLLIN | select.POLLHUP | select.POLLERR
-- 
2.43.0


From 009244af67dc89e4d6fe0c743f9b8af460eee217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 05/68] fix: wire redirects that share a source, or open
 straight onto their target fd

---
 pieshell/redir.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 2aedc8a..186a325 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -103,7 +103,9 @@ class Redirect(object):
             os.close(self.source)
     def perform(self):
         source = self.open()
-        assert source != self.fd
+        if source == self.fd:
+            os.set_inheritable(source, True)
+            return
         log.log("perform dup2(%s, %s)" % (source, self.fd), "fd")
         os.dup2(source, self.fd)
         log.log("perform close(%s)" % (source), "fd")
@@ -113,8 +115,6 @@ class Redirect(object):
         if isinstance(self.source, int):
             log.log("move dup2(%s, %s)" % (self.source, fd), "fd")
             os.dup2(self.source, fd)
-            log.log("move close(%s)" % (self.source), "fd")
-            os.close(self.source)
             self.source = fd
         return self
     def make_pipe(self):
@@ -200,6 +200,12 @@ class Redirects(object):
         for redirect in self.redirects.values():
             redirects.append(redirect.move(new_fd))
             new_fd += 1
+        # Two redirects can share the same source
+        for source in set(redirect.source
+                          for redirect in self.redirects.values()
+                          if isinstance(redirect.source, int)):
+            log.log("move close(%s)" % (source,), "fd")
+            os.close(source)
         log.log("After move: %s" % repr(Redirects(*redirects)), "fd")
         return redirects
     def perform(self):
-- 
2.43.0


From e4315365e671fe5cc474b38ad498934ec8414178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 06/68] fix: do not run a command whose redirects could not be
 set up

---
 pieshell/redir.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 186a325..a52730f 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -217,6 +217,7 @@ class Redirects(object):
             import traceback
             log.log(e, "fd")
             log.log(traceback.format_exc(), "fd")
+            raise
     def close_other_fds(self):
         # FIXME: Use os.closerange if available
         for i in range(0, MAXFD):
-- 
2.43.0


From a13e22f1710fec26c67f0f67e8bf5e9e4b9e1917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 07/68] fix: do not leak the log file descriptor into every
 command

---
 pieshell/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/log.py b/pieshell/log.py
index c3cbb21..89a00df 100644
--- a/pieshell/log.py
+++ b/pieshell/log.py
@@ -30,6 +30,6 @@ elif hasattr(sys.stderr, "fileno"):
 else:
     outfd = 1
 logfd = resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 1
-os.dup2(outfd, logfd)
+os.dup2(outfd, logfd, inheritable=False)
 def log(msg, category="misc"):
     logging.getLogger(category).error(msg)
-- 
2.43.0


From e5440ae209fd08b341a7d402576c610ad53295d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 08/68] fix: close the input of a function that has finished

---
 pieshell/pipeline/function.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index e14921d..509c826 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -84,10 +84,10 @@ class Function(base.Pipeline):
                 return str(x).encode("utf-8")
 
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
+        stdin = None
         if isinstance(thing, (types.FunctionType, types.MethodType)):
-            thing = thing(
-                iterio.LineInputHandler(redirects.stdin.open(False), usage=self),
-                *self._arg, **self._kw)
+            stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
+            thing = thing(stdin, *self._arg, **self._kw)
 
         if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
             if isinstance(thing, types.CoroutineType):
@@ -108,6 +108,9 @@ class Function(base.Pipeline):
                 redirects.stdout.open(False),
                 thing,
                 usage=self))
+        if stdin is not None:
+            # Let whoever writes to us know that nobody is reading anymore
+            self._running_process.iohandler.done_future.add_done_callback(lambda future: stdin.destroy())
         self._running_processes = [self._running_process]
         self._redirects = self._running_process.redirects = redirects
 
-- 
2.43.0


From 637c57813fcbd54ddc42858519bbc6d0dfa6d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 09/68] fix: accept async iterators and iterables in pipelines

---
 pieshell/pipeline/base.py     | 3 ++-
 pieshell/pipeline/command.py  | 2 +-
 pieshell/pipeline/function.py | 2 ++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index c32aea3..9ab69db 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -97,7 +97,8 @@ class Pipeline(DescribableObject):
             thing = redir.Redirects(thing, defaults=False)
         if not isinstance(thing, Pipeline) and (isinstance(thing, (types.FunctionType, types.MethodType))
                                                 or hasattr(thing, "__iter__")
-                                                or hasattr(thing, "__next__")):
+                                                or hasattr(thing, "__next__")
+                                                or hasattr(thing, "__aiter__")):
             thing = function.Function(self._env, thing)
         if not isinstance(thing, (Pipeline, redir.Redirects)):
             raise ValueError(type(thing))
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 5729027..6a0b8a0 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -186,7 +186,7 @@ class Command(command.BaseCommand):
         elif isinstance(thing, (types.FunctionType, types.MethodType)):
             thing = function.Function(self._env, thing)
             direction = "stdin"
-        elif hasattr(thing, "__iter__") or hasattr(thing, "__next__"):
+        elif hasattr(thing, "__iter__") or hasattr(thing, "__next__") or hasattr(thing, "__aiter__"):
             thing = function.Function(self._env, thing)
             direction = "stdout"
         else:
diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 509c826..6b957d3 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -100,6 +100,8 @@ class Function(base.Pipeline):
                 thing = [thing]
         if hasattr(thing, "__iter__"):
             thing = itertoasync(thing)
+        elif not hasattr(thing, "__anext__"):
+            thing = thing.__aiter__()
         thing = convert(thing)
             
         self._running_process = running.RunningFunction(
-- 
2.43.0


From a430e67f137618563ebf655021a3f46430b4e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 10/68] fix: let functions read and write regular files

---
 pieshell/iterio.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 9beb18c..2ead95e 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -41,10 +41,18 @@ class IOHandler(object):
         loop = asyncio.get_event_loop()
         def callback(event):
             self.handle_event(event)
-        if self.events & select.POLLIN:
-            loop.add_reader(self.fd, callback, select.POLLIN)
-        if self.events & select.POLLOUT:
-            loop.add_writer(self.fd, callback, select.POLLOUT)
+        def poll(event):
+            if not self.enabled: return
+            callback(event)
+            loop.call_soon(poll, event)
+        try:
+            if self.events & select.POLLIN:
+                loop.add_reader(self.fd, callback, select.POLLIN)
+            if self.events & select.POLLOUT:
+                loop.add_writer(self.fd, callback, select.POLLOUT)
+        except PermissionError:
+            # Files can not be polled, but are always ready
+            loop.call_soon(poll, self.events)
         log.log("REGISTER %s, %s, %s" % (self.fd, events_to_str(self.events), self), "ioreg")
     def disable(self):
         self.enabled = False
-- 
2.43.0


From d7775056bfbf65a9e49945ce229499f93522a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 11/68] fix: respect an environment with no variables at all

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 605fb63..ad1991b 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -61,7 +61,7 @@ class Environment(object):
         self.running_pipelines = utils.LineList()
     @property
     def _exports(self):
-        return self._exports_value or os.environ
+        return self._exports_value if self._exports_value is not None else os.environ
     @_exports.setter
     def _exports(self, exports):
         self._exports_value = exports
-- 
2.43.0


From 4f23a914ab2ceab31b72bd2e654776e7f8592015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 12/68] fix: stay in the current directory when changing
 directory fails

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index ad1991b..127a964 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -96,9 +96,11 @@ class Environment(object):
         cwd = self._expand_path(cwd)
         if not os.path.exists(cwd):
             raise IOError("Path does not exist: %s" % cwd)
-        self._cwd = cwd
+        if not os.path.isdir(cwd):
+            raise NotADirectoryError("Path is not a directory: %s" % cwd)
         if self._interactive:
             os.chdir(cwd)
+        self._cwd = cwd
         return self
     def __call__(self, cwd = None, exports = None, interactive = None, redirects = None):
         """Creates a new environment based on the current ones. All
-- 
2.43.0


From 262893ad586c0faf0515771ecd7cb067110e74e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 13/68] fix: do not glob the path of the current directory

---
 pieshell/environ.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 127a964..0f94267 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -85,7 +85,11 @@ class Environment(object):
         arg = os.path.expanduser(arg)
         if ("*" not in arg) and ("?" not in arg) and ("[" not in arg):
             return [arg]
-        res = glob.glob(self._expand_path(arg))
+        pth = arg
+        if not arg.startswith("/"):
+            # Only the argument is a pattern, not the path to where we are
+            pth = os.path.join(glob.escape(self._cwd), arg)
+        res = glob.glob(os.path.abspath(pth))
         if not res: return [arg]
         if self._cwd != "/":
             for idx in range(0, len(res)):
-- 
2.43.0


From 6d9626e0417e5a162584670911cf6f706b2032a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 14/68] fix: import every value bashsource finds, exactly as it
 is

---
 pieshell/pipeline/builtins.py | 74 +++++++++++++++++------------------
 1 file changed, 36 insertions(+), 38 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 9dacdda..42e145a 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -1,7 +1,7 @@
 import os
 import os.path
+import re
 import shlex
-import io
 import asyncio
 import sys
 import base64
@@ -99,45 +99,43 @@ class ClearDirCacheBuiltin(builtin.Builtin):
         except:
             return []
 
-def parse_declares(data):
-    l = shlex.shlex(io.StringIO(data), posix=True)
-
-    l.whitespace_split = True
-
-    lastlineno = 1
-    line = []
-    lines = []
-    while True:
-        if l.lineno != lastlineno:
-            lines.append((lastlineno, line))
-            line = []
-        lastlineno = l.lineno
-        token = l.get_token()
-        if token is None:
-            break
-        line.append(token)
+ansi_c_escapes = {
+    b"a": b"\a", b"b": b"\b", b"E": b"\x1b", b"f": b"\f", b"n": b"\n",
+    b"r": b"\r", b"t": b"\t", b"v": b"\v"}
+
+def unquote_declare(value):
+    value = os.fsencode(value)
+    if value.startswith(b"$"):
+        def unescape(match):
+            char = match.group(1)
+            if char.isdigit():
+                return bytes([int(char, 8)])
+            return ansi_c_escapes.get(char, char)
+        value = re.sub(rb"\\([0-7]{3}|.)", unescape, value[2:-1], flags=re.DOTALL)
+    else:
+        value = re.sub(rb"\\(.)", rb"\1", value[1:-1], flags=re.DOTALL)
+    return os.fsdecode(value)
 
+def parse_declares(data):
+    """Parses the output of declare -x; declare -f"""
     vars = {}
-    funcstarts = []
-    for (lineno, line) in lines:
-        if line[0] == "declare":
-            name = line[2]
-            if "=" in name:
-                name, value = name.split("=", 1)
-            else:
-                value = ""
-            vars[name] = value
-        elif len(line) == 3 and line[1] == '()' and line[2] == '{':
-            funcstarts.append((lineno, line[0]))
-
-    lines = data.split("\n")
+    declare = re.compile(
+        r"""declare -\S+ (?P<name>[^\s=]+)(?:=(?P<value>"""
+        r""""[^"\\]*(?:\\.[^"\\]*)*"|\$'[^'\\]*(?:\\.[^'\\]*)*')|(?P<array>=\([^\n]*))?(?:\n|$)""",
+        re.DOTALL)
+    pos = 0
+    while True:
+        match = declare.match(data, pos)
+        if not match: break
+        if not match["array"]: # Arrays are never part of the environment
+            vars[match["name"]] = unquote_declare(match["value"]) if match["value"] else ""
+        pos = match.end()
+
+    data = data[pos:]
+    funcstarts = list(re.finditer(r"^(\S+) \(\) *\n\{ *$", data, re.MULTILINE))
     funcs = {}
-    for i in range(len(funcstarts)):
-        if i >= len(funcstarts) - 1:
-            flines = lines[funcstarts[i][0]-1:]
-        else:
-            flines = lines[funcstarts[i][0]-1:funcstarts[i+1][0]-1]
-        funcs[funcstarts[i][1]] = "\n".join(flines)
+    for start, end in zip(funcstarts, funcstarts[1:] + [None]):
+        funcs[start[1]] = data[start.start():end and end.start()].rstrip("\n")
 
     return vars, funcs
 
@@ -152,7 +150,7 @@ class BashSource(builtin.Builtin):
         args = []
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
-                args.append("source '%s'" % (exp,))
+                args.append("source %s" % (shlex.quote(exp),))
         args.append("{ declare -x; declare -f; } > $0")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
-- 
2.43.0


From 204511b1665d15a24ea342b537ecad841d2adc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 15/68] fix: let several tasks wait for the same pipeline

---
 pieshell/pipeline/running.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index ba0de73..e5120ac 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -91,8 +91,10 @@ class RunningPipeline(object):
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
-                    future = self.finish_future = asyncio.get_event_loop().create_future()
-                    await future
+                    if self.finish_future is None:
+                        self.finish_future = asyncio.get_event_loop().create_future()
+                    # Shared with anyone else waiting, cancelled or not
+                    await asyncio.shield(self.finish_future)
             except KeyboardInterrupt as e:
                 raise PipelineInterrupted(self)
             if self.pipeline_suspended:
@@ -101,7 +103,8 @@ class RunningPipeline(object):
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-            stop_signal_handler.current_pipeline = None
+            if stop_signal_handler.current_pipeline is self:
+                stop_signal_handler.current_pipeline = None
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From 4862e0e04fe95e9314b41d5804b48508680ba03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 16/68] fix: collect the output of both sides of a group

---
 pieshell/pipeline/group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 9ed6b1c..6834599 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -36,6 +36,10 @@ class Group(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
+        # Both sides share the same pipe, but not the same temporary files
+        redirects = redir.Redirects(*[
+            redirect.make_pipe() if redirect.source is redir.PIPE else redirect
+            for redirect in redirects.redirects.values()])
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
-- 
2.43.0


From 28d0592646e549e2d2a7c3402431e051ba3d91b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 17/68] fix: keep a forked child, and what it does, apart from
 its parent

A subshell unwound into the code of its parent, could print what the
parent had buffered, and succeeded when only its last process did.
---
 pieshell/pipeline/builtins.py | 16 +++++++++++++---
 pieshell/pipeline/command.py  |  9 +++++----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 42e145a..a5b9a4f 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -177,19 +177,29 @@ class SubShell(command.Command, builtin.Builtin):
     def _handle_arg_pipes_wrapper(self, item, orig_redirects, redirects, sess, indentation):
         return item
                        
+    def _run(self, redirects, sess, indentation = ""):
+        # Or the subshell would print what we have buffered, too
+        sys.stdout.flush()
+        sys.stderr.flush()
+        return command.Command._run(self, redirects, sess, indentation)
+
     def _child(self, redirects, args):
         redirects.perform()
         os.chdir(self._env._cwd)
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
+        ecode = 0
         try:
             self._arg[1].run_interactive()
         except Exception as e:
             sys.stderr.write(str(e))
+            ecode = 1
             if isinstance(e, running.PipelineError):
-                sys.exit(e.pipeline.exit_code)
-            sys.exit(1)
-        sys.exit(0)
+                ecode = e.pipeline.exit_code or ecode
+        # Do not unwind into the code of our parent
+        sys.stdout.flush()
+        sys.stderr.flush()
+        os._exit(ecode)
 
 class Remote(builtin.Builtin):
     name = "remote"
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 6a0b8a0..dc23517 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -226,11 +226,12 @@ class Command(command.BaseCommand):
             ecode = -1
             try:
                 self._child(redirects, args)
-            except Exception as e:
+            except BaseException as e:
+                ecode = getattr(e, "errno", None) or ecode
                 sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
-                ecode = getattr(e, "errno", ecode)
-            # If we ever get to here, all is lost...
-            os._exit(ecode)
+            finally:
+                # If we ever get to here, all is lost...
+                os._exit(ecode)
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
-- 
2.43.0


From b1de386dd917498efb40176073ecea4a54a8abbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 18/68] fix: do not make commands ignore SIGPIPE or block
 SIGCHLD

---
 pieshell/pipeline/command.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index dc23517..7d06d62 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -175,6 +175,10 @@ class Command(command.BaseCommand):
     def _child(self, redirects, args):
         redirects.perform()
         os.chdir(self._env._cwd)
+        # What we ignore and block is our business, not that of the command
+        for signo in (signal.SIGPIPE, signal.SIGXFSZ):
+            signal.signal(signo, signal.SIG_DFL)
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGCHLD])
         os.execvpe(args[0], args, self._env._exports)
 
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
-- 
2.43.0


From c34216c3cfd243b728d1c56205852da4807edc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 19/68] fix: only signal processes that are still our own

---
 pieshell/pipeline/running.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index e5120ac..c819af9 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -267,11 +267,13 @@ class RunningProcess(RunningItem):
             pass
         RunningItem.__init__(self, cmd, signalio.ProcessSignalHandler(pid))
     def restart(self):
+        if not self.is_running: return # Its pid might be someone else by now
         try:
             os.kill(self.iohandler.pid, signal.SIGCONT)
         except ProcessLookupError:
             pass
     def suspend(self):
+        if not self.is_running: return
         try:
             os.kill(self.iohandler.pid, signal.SIGSTOP)
         except ProcessLookupError:
-- 
2.43.0


From 8b03c3f9aed0d7db2706bb12ea1ed32021d00829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 20/68] fix: tell the signals apart without signalfd

---
 pieshell/signalio/manager_asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index 6eb38b6..8237368 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -12,7 +12,7 @@ class SignalManager(object):
         self.mask = mask
         self.signal_handlers = {}
         for signo in mask:
-            asyncio.get_event_loop().add_signal_handler(signo, lambda: self.handle_event(signo))
+            asyncio.get_event_loop().add_signal_handler(signo, lambda signo=signo: self.handle_event(signo))
         
     def filter_to_key(self, flt):
         key = sorted(flt.items(), key=lambda item: item[0])
@@ -60,7 +60,7 @@ class SignalManager(object):
         # gets squashed into just one delivered signal event by
         # Linux...
         siginfos = [siginfo]
-        if siginfo["ssi_signo"] == signal.SIGCHLD or siginfo["ssi_signo"] == signal.SIGTSTP:
+        if siginfo["ssi_signo"] == signal.SIGCHLD:
             siginfos = signalutils.get_sigchlds()
 
         for siginfo in siginfos:
-- 
2.43.0


From dd5c45a3ccfd7f9194688660212d51c45416321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 21/68] fix: do not list pipelines without any processes as
 running

---
 pieshell/pipeline/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 9ab69db..55afc24 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -150,8 +150,9 @@ class Pipeline(DescribableObject):
             self = copy.deepcopy(self)
             processes = self._run(redirects, sess)
         pipeline = running.RunningPipeline(processes, self)
-        self._env.last_pipeline = pipeline
-        self._env.running_pipelines.append(pipeline)
+        if processes: # As opposed to e.g. cd or bg, that are already done
+            self._env.last_pipeline = pipeline
+            self._env.running_pipelines.append(pipeline)
         return pipeline
     
     async def async_run_interactive(self):
-- 
2.43.0


From c0379a219870642d4fb1234396771f8ccfb2f400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 22/68] fix: let fg finish when its pipeline fails or is
 suspended

---
 pieshell/pipeline/builtins.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index a5b9a4f..ba65ade 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -57,17 +57,30 @@ class BgBuiltin(builtin.Builtin):
 class RunnningFg(running.BaseRunningItem):
     def __init__(self, pipeline):
         self.wrapped_pipeline = pipeline
+        self.is_running = True
         asyncio.get_event_loop().create_task(self.await_finish())
     @property
-    def is_running(self):
-        return self.wrapped_pipeline.is_running
-    @property
     def is_failed(self):
         return self.wrapped_pipeline.is_failed
+    @property
+    def exit_code(self):
+        return self.wrapped_pipeline.exit_code
+    def __repr__(self, display_output=False):
+        if display_output and self.is_failed:
+            return str(running.PipelineFailed(self.wrapped_pipeline))
+        return repr(self.wrapped_pipeline)
     async def await_finish(self):
-        await self.wrapped_pipeline.wait()
+        try:
+            await self.wrapped_pipeline.wait()
+        except running.PipelineSuspended:
+            self.running_pipeline.pipeline_suspended = True
+            # So that it can be brought back again
+            self.running_pipeline.pipeline._env.last_pipeline = self.wrapped_pipeline
+        except running.PipelineFailed:
+            pass # Available through is_failed
+        self.is_running = False
         self.running_pipeline.handle_finish()
-    
+
 class FgBuiltin(builtin.Builtin):
     """Continue running the last pipeline in the background.
     """
-- 
2.43.0


From 3db1149acd1cbf4f07f22314aae5bd34f40943d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 23/68] fix: say which pipeline was interrupted

---
 pieshell/pipeline/base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 55afc24..1bb18db 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -161,7 +161,19 @@ class Pipeline(DescribableObject):
         return pipeline
     
     def run_interactive(self):
-        return asyncio.get_event_loop().run_until_complete(self.async_run_interactive())
+        loop = asyncio.get_event_loop()
+        pipeline = self.run()
+        task = loop.create_task(pipeline.wait())
+        try:
+            loop.run_until_complete(task)
+        except running.PipelineInterrupted:
+            raise
+        except KeyboardInterrupt as e:
+            # This hits the event loop, not the task
+            task.cancel()
+            loop.run_until_complete(asyncio.wait([task]))
+            raise running.PipelineInterrupted(pipeline)
+        return pipeline
         
     def __pos__(self):
         return self.run_interactive()
-- 
2.43.0


From d30560bf64e81f75af19af0317c782f484847e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 24/68] fix: let an assignment to an exported variable be seen

---
 pieshell/environ.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 0f94267..0fd085e 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -216,6 +216,7 @@ class EnvScope(dict):
         env = dict.__getitem__(self, 'env')
         if name in env._exports:
             env._exports[name] = value
+            dict.pop(self, name, None) # Or it would hide the new value
         else:
             dict.__setitem__(self, name, value)
     def __getitem__(self, name):
-- 
2.43.0


From 215e6ed978b04448def82c60bc5cb76deddd48d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 25/68] fix: let environments have default redirects of their
 own

---
 pieshell/environ.py | 4 ++--
 pieshell/redir.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 0fd085e..5f02d7b 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -125,7 +125,7 @@ class Environment(object):
         if interactive is None:
             interactive = self._interactive
         if redirects is None:
-            redirects = self._redirects
+            redirects = redir.Redirects(self._redirects)
         res = type(self)(cwd = self._cwd, exports = exports, interactive = interactive, redirects = redirects)
         if cwd is not None:
             res._cd(cwd)
@@ -145,7 +145,7 @@ class Environment(object):
     def _coerce(self, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, (str, bytes)):
             thing = redir.Redirect(direction, thing)
         if isinstance(thing, redir.Redirect):
             thing = redir.Redirects(thing, defaults=False)
diff --git a/pieshell/redir.py b/pieshell/redir.py
index a52730f..ff73ece 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -243,7 +243,7 @@ class Redirects(object):
     def _coerce(cls, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, (str, bytes)):
             thing = Redirect(direction, thing)
         if isinstance(thing, Redirect):
             thing = Redirects(thing)
-- 
2.43.0


From e9aeda14e88158d132ab66c2e481fa3f6d0885a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 26/68] fix: send only the pipeline itself to a remote shell

---
 pieshell/environ.py | 5 +++--
 pieshell/redir.py   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 5f02d7b..00b5b38 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -197,9 +197,10 @@ class Environment(object):
     def __getstate__(self):
         def mangle(k, v):
             if k == "_scope": return None
-            if k == "last_pipeline": return v.pipeline
+            if k == "running_pipelines": return utils.LineList() # They are all here
             return v
-        return {k: mangle(k, v) for k, v in self.__dict__.items()}
+        return {k: mangle(k, v) for k, v in self.__dict__.items()
+                if k != "last_pipeline"}
 
 env = Environment()
 
diff --git a/pieshell/redir.py b/pieshell/redir.py
index ff73ece..5a27e3a 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -25,7 +25,7 @@ class SpecialRedirect(object):
     def __init__(self, **kws):
         object.__setattr__(self, "kws", kws)
     def __getattr__(self, name):
-        if name not in self.kws:
+        if name == "kws" or name not in self.kws:
             raise AttributeError(name)
         return self.kws[name]
     def __setattr__(self, name):
-- 
2.43.0


From 800d0ed1630cdecfe75b255353d692176e7ca77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 27/68] fix: connect a group even if one side of it is
 redirected elsewhere

---
 pieshell/pipeline/group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 6834599..f5c859d 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -47,7 +47,8 @@ class Group(base.Pipeline):
         a = self.a._run(child_redirects, sess, indentation + "  ")
         b = self.b._run(child_redirects, sess, indentation + "  ")
 
-        self._redirects = self.a._redirects.merge(self.b._redirects)
+        # Not those of a or b, which might have been redirected elsewhere
+        self._redirects = redirects
 
         redirects.close_source_fds()
 
-- 
2.43.0


From 5c8ce88e1eb807702a3870b7c421e30a5b85a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 28/68] fix: let those who wait for a pipeline know that it was
 suspended

---
 pieshell/pipeline/running.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index c819af9..60dd1f6 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -84,6 +84,9 @@ class RunningPipeline(object):
         self.pipeline_suspended = True
         for process in self.processes:
             process.suspend()
+        if self.finish_future is not None:
+            self.finish_future.set_result(None)
+            self.finish_future = None
     async def wait(self):
         try:
             if self.pipeline._env._interactive:
-- 
2.43.0


From a835dff56c893eeeb8293ce1d7523de81b1136b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 29/68] fix: suspend what fg waits for on Ctrl-Z

---
 pieshell/pipeline/builtins.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index ba65ade..afb4c3a 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -69,13 +69,20 @@ class RunnningFg(running.BaseRunningItem):
         if display_output and self.is_failed:
             return str(running.PipelineFailed(self.wrapped_pipeline))
         return repr(self.wrapped_pipeline)
+    def _make_last(self):
+        # So that it can be brought back again
+        self.running_pipeline.pipeline._env.last_pipeline = self.wrapped_pipeline
+    def suspend(self):
+        # Suspending fg means suspending what it waits for
+        if self.is_running:
+            self.wrapped_pipeline.suspend()
+            self._make_last()
     async def await_finish(self):
         try:
             await self.wrapped_pipeline.wait()
         except running.PipelineSuspended:
             self.running_pipeline.pipeline_suspended = True
-            # So that it can be brought back again
-            self.running_pipeline.pipeline._env.last_pipeline = self.wrapped_pipeline
+            self._make_last()
         except running.PipelineFailed:
             pass # Available through is_failed
         self.is_running = False
-- 
2.43.0


From 715dff179e297acb739c7e3f3d15784371c092ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 30/68] fix: keep track of the foreground pipeline while others
 are waited for

---
 pieshell/pipeline/running.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 60dd1f6..0ea9d0a 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -28,8 +28,12 @@ except:
 
 class StopSignalHandler(signalio.SignalHandler):
     def __init__(self):
-        self.current_pipeline = None
+        self.waiting = []
         signalio.SignalHandler.__init__(self, {"ssi_signo": signal.SIGTSTP})
+    @property
+    def current_pipeline(self):
+        # There might be others being waited for in the background
+        return self.waiting[-1] if self.waiting else None
     def handle_event(self, event):
         if self.current_pipeline is not None:
             self.current_pipeline.pipeline_suspended = True
@@ -90,7 +94,7 @@ class RunningPipeline(object):
     async def wait(self):
         try:
             if self.pipeline._env._interactive:
-                stop_signal_handler.current_pipeline = self
+                stop_signal_handler.waiting.append(self)
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
@@ -106,8 +110,8 @@ class RunningPipeline(object):
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-            if stop_signal_handler.current_pipeline is self:
-                stop_signal_handler.current_pipeline = None
+            if self in stop_signal_handler.waiting:
+                stop_signal_handler.waiting.remove(self)
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From a6326e7449ac0f16b5433f2ca5394df64be0706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 31/68] fix: do not block when a pipe was filled since it was
 writable

---
 pieshell/iterio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 2ead95e..e1e8c05 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -127,6 +127,10 @@ class OutputHandler(IOHandler):
                 self.pending = memoryview(self.format_item(val))
             # A writable pipe only promises room for this much, and
             # blocking here would block the reader too if that is us.
+            # It might have been filled since we were told, too.
+            poll = select.poll()
+            poll.register(self.fd, select.POLLOUT)
+            if not poll.poll(0): return
             written = os.write(self.fd, self.pending[:select.PIPE_BUF])
             self.pending = self.pending[written:]
             log.log("WRITE %s, %s bytes" % (self.fd, written), "io")
-- 
2.43.0


From cd41f80a84fc910ccb72bed24d4ce48b56fea2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 32/68] fix: complete the finish of a pipeline before telling
 those who wait for it

---
 pieshell/pipeline/running.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 0ea9d0a..5e28e79 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -107,6 +107,8 @@ class RunningPipeline(object):
             if self.pipeline_suspended:
                 self.suspend()
                 raise PipelineSuspended(self)
+            # We might know before everyone else has been told
+            self.handle_finish()
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-- 
2.43.0


From 28965aef0758dd111e380cfb82d4784b8c23c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 33/68] fix: two redirects can share a source that is not
 borrowed

---
 pieshell/redir.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 5a27e3a..ac56d97 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -230,7 +230,10 @@ class Redirects(object):
             else:
                 log.log("CLOSE OTHER FDS %s" % (i,), "fd")
     def close_source_fds(self):
-        for redirect in self.redirects.values():
+        # Two redirects can share the same source
+        for redirect in {redirect.source: redirect
+                         for redirect in self.redirects.values()
+                         if not redirect.borrowed}.values():
             redirect.close_source_fd()
     def __getattr__(self, name):
         if name == "redirects":
-- 
2.43.0


From f243fd6e5fc613cbd51b0c3716fa0159c76960c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 34/68] fix: bytes as arguments are not iterators to be read
 from a pipe

---
 pieshell/pipeline/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 7d06d62..7c4ecd6 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -123,7 +123,7 @@ class BaseCommand(base.Pipeline):
         return u"%s%s" % (prefix, running_process)
 
     def _handle_arg_pipes_wrapper(self, item, orig_redirects, redirects, sess, indentation):
-        if isinstance(item, (str, environ.R)):
+        if isinstance(item, (str, bytes, environ.R)):
             return item
         elif redirects is not None:
             return self._handle_arg_pipes(item, orig_redirects, redirects, sess, indentation)
@@ -146,6 +146,8 @@ class BaseCommand(base.Pipeline):
                             args.append("--%s" % (name.replace("_", "-"),))
                         else:
                             for match in self._env._expand_argument(handle_arg_pipes(value)):
+                                if isinstance(match, bytes):
+                                    match = os.fsdecode(match)
                                 args.append("--%s=%s" % (name.replace("_", "-"), match))
                 else:
                     for match in self._env._expand_argument(handle_arg_pipes(arg)):
-- 
2.43.0


From 34ff06161e8ee1966fcadf897375f409084b7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 35/68] fix: files redirected to or from are relative to the
 directory of the environment

---
 pieshell/pipeline/command.py  |  2 +-
 pieshell/pipeline/function.py |  4 ++--
 pieshell/redir.py             | 11 ++++++-----
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 7c4ecd6..f5e49ae 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -175,7 +175,7 @@ class Command(command.BaseCommand):
     find). """
 
     def _child(self, redirects, args):
-        redirects.perform()
+        redirects.perform(self._env._cwd)
         os.chdir(self._env._cwd)
         # What we ignore and block is our business, not that of the command
         for signo in (signal.SIGPIPE, signal.SIGXFSZ):
diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 6b957d3..8a5d963 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -86,7 +86,7 @@ class Function(base.Pipeline):
         thing = self.__dict__["function"] # Don't wrap functions as instance methods
         stdin = None
         if isinstance(thing, (types.FunctionType, types.MethodType)):
-            stdin = iterio.LineInputHandler(redirects.stdin.open(False), usage=self)
+            stdin = iterio.LineInputHandler(redirects.stdin.open(False, self._env._cwd), usage=self)
             thing = thing(stdin, *self._arg, **self._kw)
 
         if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
@@ -107,7 +107,7 @@ class Function(base.Pipeline):
         self._running_process = running.RunningFunction(
             self,
             iterio.LineOutputHandler(
-                redirects.stdout.open(False),
+                redirects.stdout.open(False, self._env._cwd),
                 thing,
                 usage=self))
         if stdin is not None:
diff --git a/pieshell/redir.py b/pieshell/redir.py
index ac56d97..d90aa18 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -86,9 +86,10 @@ class Redirect(object):
     def __deepcopy__(self, memo = {}):
         return type(self)(self.fd, copy.deepcopy(self.source), self.flag, self.mode, self.pipe, self.borrowed)
 
-    def open(self, borrow = True):
+    def open(self, borrow = True, cwd = ""):
         source = self.source
         if not isinstance(source, int):
+            source = os.path.join(cwd, os.fsdecode(source))
             log.log("Opening %s in %s for %s" % (self.source, self.flag, self.fd), "fd")
             source = os.open(source, self.flag, self.mode)
             log.log("Done opening %s in %s for %s" % (self.source, self.flag, self.fd), "fd")
@@ -101,8 +102,8 @@ class Redirect(object):
         if isinstance(self.source, int) and not self.borrowed:
             log.log("CLOSE SOURCE %s" % (self.source,), "fd")
             os.close(self.source)
-    def perform(self):
-        source = self.open()
+    def perform(self, cwd = ""):
+        source = self.open(cwd = cwd)
         if source == self.fd:
             os.set_inheritable(source, True)
             return
@@ -208,10 +209,10 @@ class Redirects(object):
             os.close(source)
         log.log("After move: %s" % repr(Redirects(*redirects)), "fd")
         return redirects
-    def perform(self):
+    def perform(self, cwd = ""):
         try:
             for redirect in self.move_existing_fds():
-                redirect.perform()
+                redirect.perform(cwd)
             self.close_other_fds()
         except Exception as e:
             import traceback
-- 
2.43.0


From fbbc9b3bcc6cdeb8532dce1783c1241826ada505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 36/68] fix: files redirected to or from by a subshell are
 relative to the directory of its environment

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index afb4c3a..a399979 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -204,7 +204,7 @@ class SubShell(command.Command, builtin.Builtin):
         return command.Command._run(self, redirects, sess, indentation)
 
     def _child(self, redirects, args):
-        redirects.perform()
+        redirects.perform(self._env._cwd)
         os.chdir(self._env._cwd)
         asyncio.set_event_loop(asyncio.new_event_loop())
         init.initialize()
-- 
2.43.0


From 4f9ba0dd83df833db2a76d3e226399321a1d08f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 37/68] fix: clear_dir_cache cleared nothing

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index a399979..81ee90f 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -105,7 +105,7 @@ class ClearDirCacheBuiltin(builtin.Builtin):
     name = "clear_dir_cache"
 
     def _run(self, redirects, sess, indentation = ""):
-        self.env._clear_dir_cache()
+        self._env._clear_dir_cache()
         return []
 
     def __dir__(self):
-- 
2.43.0


From ae7c40dee17b816b514e4eea9d88106bf392abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 38/68] fix: arguments of a command shared its temporary files,
 mixing up captured output

---
 pieshell/pipeline/command.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index f5e49ae..b83548e 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -130,8 +130,8 @@ class BaseCommand(base.Pipeline):
         else:
             return "/dev/fd/X"
     
-    def _arg_list(self, redirects = None, sess = None, indentation = ""):
-        orig_redirects = redir.Redirects(redirects) if redirects is not None else redir.Redirects()
+    def _arg_list(self, redirects = None, sess = None, indentation = "", shared_redirects = None):
+        orig_redirects = redir.Redirects(shared_redirects or redirects) if redirects is not None else redir.Redirects()
         orig_redirects.borrow()
         def handle_arg_pipes(item):
             return self._handle_arg_pipes_wrapper(item, orig_redirects, redirects, sess, indentation)
@@ -221,10 +221,14 @@ class Command(command.BaseCommand):
 
         self._running_processes = []
 
-        redirects = redirects.make_pipes()
+        # Our arguments share our pipes, but not our temporary files
+        shared_redirects = redir.Redirects(*[
+            redirect.make_pipe() if redirect.source is redir.PIPE else redirect
+            for redirect in redirects.redirects.values()])
+        redirects = shared_redirects.make_pipes()
         log.log(indentation + "Running %s with %s" % (repr(self), repr(redirects)), "cmd")
 
-        args = self._arg_list(redirects, sess, indentation)
+        args = self._arg_list(redirects, sess, indentation, shared_redirects)
         log.log(indentation + "222Running %s with %s" % (repr(self), repr(redirects)), "cmd")
 
         pid = os.fork()
-- 
2.43.0


From a47d0c49dbfb1dc92228db6518263be330e81430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 39/68] fix: deriving an interactive environment with a
 directory that does not exist changed the directory of the process

---
 pieshell/environ.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 00b5b38..27c3f1a 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -126,10 +126,9 @@ class Environment(object):
             interactive = self._interactive
         if redirects is None:
             redirects = redir.Redirects(self._redirects)
-        res = type(self)(cwd = self._cwd, exports = exports, interactive = interactive, redirects = redirects)
-        if cwd is not None:
-            res._cd(cwd)
-        return res
+        # Not to here first, we might not even get any further
+        cwd = self._expand_path(cwd) if cwd is not None else self._cwd
+        return type(self)(cwd = cwd, exports = exports, interactive = interactive, redirects = redirects)
     def __getitem__(self, name):
         """env[path] is equivalent to env(path)"""
         return self(name)
-- 
2.43.0


From 4758b606cbb9fa68793e875cfdeae62ba60b1800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 40/68] fix: pysh functions lost the defaults of their
 keyword-only arguments

---
 pieshell/environ.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 27c3f1a..dc63385 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -187,11 +187,13 @@ class Environment(object):
         finally:
             self._scope["env"] = self    
     def pyshfunction(self, fn):
-        return types.FunctionType(
+        res = types.FunctionType(
             fn.__code__, EnvScope(env=self, _parent_scope=fn.__globals__),
             name=fn.__name__,
             argdefs=fn.__defaults__,
             closure=fn.__closure__)
+        res.__kwdefaults__ = fn.__kwdefaults__
+        return res
 
     def __getstate__(self):
         def mangle(k, v):
-- 
2.43.0


From 332d04833c788e65458f19d13c1b7b8a21512df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 41/68] fix: arguments expanded no variables of modules and of
 scopes made for an environment

---
 pieshell/environ.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index dc63385..f0622c9 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -209,6 +209,14 @@ class EnvScope(dict):
     """EnvScope can be used instead of a globals() dictionary to allow
     global lookup of command names, without the env.COMMAND
     prefixing."""
+    def __init__(self, *arg, **kw):
+        dict.__init__(self, *arg, **kw)
+        # The constructor does not go through __setitem__; pysh
+        # functions have a scope of their own over the one of env
+        if dict.__contains__(self, "env") and not dict.__contains__(self, "_parent_scope"):
+            env = dict.__getitem__(self, "env")
+            if env._scope is None:
+                env._scope = self
     def __setitem__(self, name, value):
         # Hack for ptpython
         if name == "_":
-- 
2.43.0


From d789d3cd795fea2e4af393123680afa9a1504d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 42/68] fix: a function that fails when it is called fails its
 stage, not run()

---
 pieshell/pipeline/function.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/function.py b/pieshell/pipeline/function.py
index 8a5d963..fb002f6 100644
--- a/pieshell/pipeline/function.py
+++ b/pieshell/pipeline/function.py
@@ -24,7 +24,11 @@ from . import base
 from . import command
 import types
 
-    
+def failing(exception):
+    """What a function that could not even be called results in"""
+    raise exception
+    yield
+
 class Function(base.Pipeline):
     """Encapsulates a function or iterator so that it can be used
     inside a pipeline. An iterator can only have its output piped into
@@ -87,7 +91,10 @@ class Function(base.Pipeline):
         stdin = None
         if isinstance(thing, (types.FunctionType, types.MethodType)):
             stdin = iterio.LineInputHandler(redirects.stdin.open(False, self._env._cwd), usage=self)
-            thing = thing(stdin, *self._arg, **self._kw)
+            try:
+                thing = thing(stdin, *self._arg, **self._kw)
+            except (Exception, asyncio.CancelledError) as e:
+                thing = failing(e)
 
         if not hasattr(thing, "__iter__") and not hasattr(thing, "__aiter__"):
             if isinstance(thing, types.CoroutineType):
-- 
2.43.0


From 807684fe83707bfdd7ae29d3bc2230d394317d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 43/68] fix: a function that is cancelled, or cancels itself,
 has ended

---
 pieshell/iterio.py           | 2 +-
 pieshell/pipeline/running.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index e1e8c05..22ae1c0 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -137,7 +137,7 @@ class OutputHandler(IOHandler):
         except StopAsyncIteration:
             log.log("STOP ITERATION %s" % self.fd, "ioevent")
             self.destroy()
-        except Exception as e:
+        except (Exception, asyncio.CancelledError) as e:
             self.destroy(e)
 
     def _repr_args(self):
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 5e28e79..711a465 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -208,7 +208,7 @@ class RunningItem(BaseRunningItem):
     async def await_finish(self):
         try:
             await self.iohandler.wait()
-        except Exception:
+        except (Exception, asyncio.CancelledError):
             pass # Available through is_failed and the iohandler
         self.running_pipeline.handle_finish()
     @property
-- 
2.43.0


From 11b2abaf834743eecb897ed9eddcd62472477a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 44/68] fix: bashsource does not expand the names of scripts
 twice

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 81ee90f..69e78c0 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -174,7 +174,7 @@ class BashSource(builtin.Builtin):
         args.append("{ declare -x; declare -f; } > $0")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
-            "; ".join(args),
+            environ.R("; ".join(args)), # Already expanded above
             self.parse_decls)
         res = self._cmd._run(redirects, sess, indentation)
         #self._pid = self._cmd._pid
-- 
2.43.0


From fb2e96d4e6bc8cd84fedf7ee256b69deb34488b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 45/68] fix: bashsource does not import variables that are
 exported but have no value

---
 pieshell/pipeline/builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 69e78c0..1493ff4 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -147,8 +147,8 @@ def parse_declares(data):
     while True:
         match = declare.match(data, pos)
         if not match: break
-        if not match["array"]: # Arrays are never part of the environment
-            vars[match["name"]] = unquote_declare(match["value"]) if match["value"] else ""
+        if match["value"]: # Arrays are never part of the environment, nor is what has no value
+            vars[match["name"]] = unquote_declare(match["value"])
         pos = match.end()
 
     data = data[pos:]
-- 
2.43.0


From f9d8518f1e723d60d634c824d6d8492d8e49e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 46/68] fix: bashsource works with any script name, and
 whatever the script leaves behind

---
 pieshell/pipeline/builtins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 1493ff4..427438a 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -170,8 +170,10 @@ class BashSource(builtin.Builtin):
         args = []
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
-                args.append("source %s" % (shlex.quote(exp),))
-        args.append("{ declare -x; declare -f; } > $0")
+                args.append("source -- %s" % (shlex.quote(exp),))
+        # Scripts might have left traps, functions and separators behind
+        args.append("trap - DEBUG")
+        args.append("{ builtin declare -x; builtin declare -f; } > \"$0\"")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
             environ.R("; ".join(args)), # Already expanded above
-- 
2.43.0


From 64a144b8729e8fd0f891448bc1571c8aeb136cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 47/68] fix: name processes also when some have ended, belong
 to others or have no name

---
 pieshell/ps.py | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/pieshell/ps.py b/pieshell/ps.py
index b33a8c3..3b51bc6 100644
--- a/pieshell/ps.py
+++ b/pieshell/ps.py
@@ -44,29 +44,26 @@ class PstreeProcess(object):
             self.INFO = pid
 
     def _getkey(self, level):
-        if level == None:
-            realattr = attr = "pid"
-        else:
-            realattr = attr = self._keys[level]
-        if attr == "name":
-            attr = "exe"
+        attr = "pid" if level is None else self._keys[level]
+        if attr == "pid":
+            return "pid_%s" % (self.INFO.pid,)
         try:
-            key = getattr(self.INFO, attr)
-            if attr != "pid":
-                key = key()
-        except psutil.AccessDenied:
-            key = self._getkey(level+1)
-            if attr == "exe" and isinstance(key, list):
-                key = key[0]
-        else:
-            if realattr == "name":
-                key = key.split("/")[-1]            
-        if isinstance(key, int):
-            key = attr + "_" + str(key)
-        elif isinstance(key, list):
-            key = " ".join(key)
-        return key
-    
+            try:
+                if attr == "cmdline":
+                    return " ".join(self.INFO.cmdline())
+                try:
+                    key = self.INFO.exe()
+                except psutil.AccessDenied:
+                    key = (self.INFO.cmdline() or [""])[0]
+                if attr == "name":
+                    key = key.split("/")[-1]
+            except (psutil.AccessDenied, psutil.ZombieProcess):
+                key = ""
+            # Zombies and threads of the kernel have only this one
+            return key or self.INFO.name()
+        except psutil.NoSuchProcess: # It ended meanwhile
+            return ""
+
     @property
     def _children(self):
         children = self.INFO.children()
@@ -77,10 +74,10 @@ class PstreeProcess(object):
         return PstreeProcess(self.INFO.parent())
     @property
     def GROUP(self):
-        return PstreeProcess(os.getpgid(self.pid))
+        return PstreeProcess(os.getpgid(self.INFO.pid))
     @property
     def SESS(self):
-        return PstreeProcess(os.getsid(self.pid))
+        return PstreeProcess(os.getsid(self.INFO.pid))
     def __dir__(self):
         return dir(self._children)
     def __getattr__(self, key):
-- 
2.43.0


From 19519ebbf4c64de69e62ef44677baa2910eb0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 48/68] fix: reach processes whose names start with a digit or
 are called children

---
 pieshell/tree.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pieshell/tree.py b/pieshell/tree.py
index d204a28..ee8fc89 100644
--- a/pieshell/tree.py
+++ b/pieshell/tree.py
@@ -7,19 +7,19 @@ class TreeGroup(object):
         for child in children:
             key = child._getkey(level)
             key = slugify.slugify(key, separator="_")
-            if re.match(r"^[0-9]", key):
+            if not re.match(r"^[a-z]", key):
                 key = "n" + key
             if key not in procs: procs[key] = {}
             procs[key][child._getkey(None)] = child
-        self.children = {}
+        self._children = {}
         for key, value in procs.items():
             if len(value) == 1:
-                self.children[key] = next(iter(value.values()))
+                self._children[key] = next(iter(value.values()))
             else:
-                self.children[key] = TreeGroup(value.values(), level+1)        
+                self._children[key] = TreeGroup(value.values(), level+1)        
     def __dir__(self):
-        return self.children.keys()
+        return self._children.keys()
     def __getattr__(self, key):
-        if key not in self.children:
+        if key not in self._children:
             raise AttributeError(key)
-        return self.children[key]
+        return self._children[key]
-- 
2.43.0


From a6f3b3c0181c86a2b25a89454c442785c46bf53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 49/68] fix: show bytes, empty and multi-line arguments as what
 they are

---
 pieshell/pipeline/command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index b83548e..eb4c3d9 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -98,12 +98,12 @@ class BaseCommand(base.Pipeline):
         for prefix_idx in range(0, len(args) + 1):
             if prefix_idx == len(args):
                 break
-            if not isinstance(args[prefix_idx], (bytes, str)) or not re.match(r"^[a-zA-Z]*$", args[prefix_idx]):
+            if not isinstance(args[prefix_idx], str) or not re.match(r"^[a-zA-Z]+\Z", args[prefix_idx]):
                 break
 
         return args[:prefix_idx], args[prefix_idx:]
         
-    def _repr(self):
+    def _repr_args(self):
         prefix, suffix = self._split_args
 
         if prefix:
-- 
2.43.0


From 40060d21edc91f6576e088210ff6ba3ddb196c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 50/68] fix: keep the names of processes while they run and end

---
 pieshell/pipeline/command.py | 19 ++++++++++++++-----
 pieshell/pipeline/running.py | 16 ++++++++++++----
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index eb4c3d9..43d4f08 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -113,14 +113,17 @@ class BaseCommand(base.Pipeline):
 
         args = [repr(arg) for arg in suffix]
 
+        if args:
+            prefix = u"%s(%s)" % (prefix, ', '.join(args))
+
+        return prefix
+
+    def _repr(self):
         running_process = ''
         if self._running_process:
             running_process = ' as ' + self._running_process._repr()
 
-        if args:
-            prefix = u"%s(%s)" % (prefix, ', '.join(args))
-            
-        return u"%s%s" % (prefix, running_process)
+        return u"%s%s" % (self._repr_args(), running_process)
 
     def _handle_arg_pipes_wrapper(self, item, orig_redirects, redirects, sess, indentation):
         if isinstance(item, (str, bytes, environ.R)):
@@ -259,9 +262,15 @@ class Command(command.BaseCommand):
         cmd = self._arg_list_sh() + " "
         return (item.strip() for item in self._env.get_completions(cmd))
 
+    def _help(self):
+        # Only the command itself, nothing that is to be run for its arguments
+        return Command(
+            self._env,
+            [arg for arg in self._arg if isinstance(arg, (str, bytes, environ.R))] + ["--help"])
+
     @property
     def __signature__(self):
-        hlp = str(self("--help"))
+        hlp = str(self._help())
         args = []
 
         params = {}
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 711a465..fc9f633 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -241,6 +241,11 @@ class RunningItem(BaseRunningItem):
         return str(id(self))
 
 class RunningFunction(RunningItem):
+    def __init__(self, cmd, iohandler):
+        RunningItem.__init__(self, cmd, iohandler)
+        # What we iterate over might change later on
+        self._name = cmd._function_name()
+        self._description = cmd._repr()
     @property
     def is_failed(self):
         return self.iohandler.exception is not None
@@ -258,13 +263,13 @@ class RunningFunction(RunningItem):
                 self.iohandler.exception.__traceback__))
         return status
     def _getkey(self, level):
-        name = self.cmd._function_name()
+        name = self._name
         if level == 0:
             return name.split(".")[-1]
         elif level == 1:
             return name
         elif level == 2:
-            return repr(self.cmd)
+            return self._description
         return str(id(self))
 
 class RunningProcess(RunningItem):
@@ -275,6 +280,9 @@ class RunningProcess(RunningItem):
         except:
             pass
         RunningItem.__init__(self, cmd, signalio.ProcessSignalHandler(pid))
+        # Our arguments might expand to something else later on
+        self._name = cmd._split_args[0]
+        self._description = "%s as %s" % (cmd._repr_args(), pid)
     def restart(self):
         if not self.is_running: return # Its pid might be someone else by now
         try:
@@ -339,7 +347,7 @@ class RunningProcess(RunningItem):
     def _getkey(self, level):
         if level is None:
             return str(id(self))
-        prefix, suffix = self.cmd._split_args
+        prefix = self._name
         if len(prefix) == 1 and level >= 1:
             level += 1
         elif len(prefix) == 0:
@@ -349,5 +357,5 @@ class RunningProcess(RunningItem):
         elif level == 1:
             return ".".join(prefix)
         elif level == 2:
-            return repr(self.cmd)
+            return self._description
         return str(id(self))
-- 
2.43.0


From 278f3f8288e05fee4373d72a7d87aa2a426a20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 51/68] fix: run nothing but the command itself when describing
 it

---
 pieshell/pipeline/builtins.py | 7 ++++++-
 pieshell/pipeline/command.py  | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 427438a..4c782fe 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -195,7 +195,12 @@ class BashSource(builtin.Builtin):
         
 class SubShell(command.Command, builtin.Builtin):
     name = "subshell"
-    
+
+    # There is no program to ask
+    __dir__ = builtin.Builtin.__dir__
+    __doc__ = builtin.Builtin.__doc__
+    __signature__ = builtin.Builtin.__signature__
+
     def _handle_arg_pipes_wrapper(self, item, orig_redirects, redirects, sess, indentation):
         return item
                        
diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 43d4f08..c62533e 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -330,4 +330,4 @@ class Command(command.BaseCommand):
 
     @property
     def __doc__(self):
-        return "\n".join(self("--help"))
+        return "\n".join(self._help())
-- 
2.43.0


From 49d4afd898fcf37882ef457f32b46a9907190c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 52/68] fix: show the version when asked for it

---
 pieshell/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/shell.py b/pieshell/shell.py
index 0b0763c..4bea3d4 100644
--- a/pieshell/shell.py
+++ b/pieshell/shell.py
@@ -57,7 +57,7 @@ Where OPTIONS are any of
     Do not run ~/.config/pieshell at startup
 """)
     elif kws.get("version", False):
-        print(version.version)
+        print(version)
     else:
         if 'log' in kws:
             for name in kws['log'].split(','):
-- 
2.43.0


From bc9d479e221fb80618bb32b2eee8639909907653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 53/68] fix: report a script that ends in the middle of a
 statement

---
 pieshell/environ.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index f0622c9..a1fbaa5 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -275,7 +275,14 @@ class EnvScope(dict):
             f = open(filename)
         with f as f:
             content = f.read()
-        code.InteractiveConsole(locals=self).runsource(content, filename, "exec")
+        console = code.InteractiveConsole(locals=self)
+        try:
+            # Not runsource(), which would wait for the rest of an incomplete file
+            compiled = compile(content, filename, "exec")
+        except (OverflowError, SyntaxError, ValueError):
+            console.showsyntaxerror(filename)
+        else:
+            console.runcode(compiled)
 
     def execute_expr(self, expr):
         code.InteractiveConsole(locals=self).runsource(expr, "<expr>")
-- 
2.43.0


From 98d7ea70f2cb97976e99059880643df5322756b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 54/68] fix: complete commands also when a directory of PATH
 does not exist

---
 pieshell/environ.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index a1fbaa5..948c85b 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -175,7 +175,10 @@ class Environment(object):
             for pth in paths:
                 if not pth.startswith("/"):
                     pth = os.path.join(self._cwd, pth)
-                self._dir_cache.extend(os.listdir(os.path.abspath(pth)))
+                try:
+                    self._dir_cache.extend(os.listdir(os.path.abspath(pth)))
+                except OSError:
+                    pass # There might be no such directory
             self._dir_cache.extend(pipeline.BuiltinRegistry.builtins.keys())
             self._dir_cache.sort()
         return self._dir_cache
-- 
2.43.0


From 5a87081194fb07e176ac5a7948ef4ec7113d7a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 55/68] fix: let Ctrl-Z stop only the pipeline in the
 foreground without signalfd, too

---
 pieshell/pipeline/command.py         | 2 ++
 pieshell/signalio/manager_asyncio.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index c62533e..eeaa729 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -184,6 +184,8 @@ class Command(command.BaseCommand):
         for signo in (signal.SIGPIPE, signal.SIGXFSZ):
             signal.signal(signo, signal.SIG_DFL)
         signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGCHLD])
+        # Apart from Ctrl-Z, which we turn into stopping the right pipeline
+        signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGTSTP])
         os.execvpe(args[0], args, self._env._exports)
 
     def _handle_arg_pipes(self, thing, orig_redirects, redirects, sess, indentation):
diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index 8237368..83e0952 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -13,6 +13,8 @@ class SignalManager(object):
         self.signal_handlers = {}
         for signo in mask:
             asyncio.get_event_loop().add_signal_handler(signo, lambda signo=signo: self.handle_event(signo))
+        # We might have been started by someone who blocks them
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, mask)
         
     def filter_to_key(self, flt):
         key = sorted(flt.items(), key=lambda item: item[0])
-- 
2.43.0


From e94565711c9bcfe094db863f41265e028f0ebe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 56/68] fix: bg and fg resume the pipeline that was stopped
 last, also after fg

---
 pieshell/pipeline/builtins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 4c782fe..fd41ebc 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -81,8 +81,9 @@ class RunnningFg(running.BaseRunningItem):
         try:
             await self.wrapped_pipeline.wait()
         except running.PipelineSuspended:
-            self.running_pipeline.pipeline_suspended = True
-            self._make_last()
+            if not self.running_pipeline.pipeline_suspended: # Or it was us, maybe a while ago
+                self.running_pipeline.pipeline_suspended = True
+                self._make_last()
         except running.PipelineFailed:
             pass # Available through is_failed
         self.is_running = False
-- 
2.43.0


From 7750074ba86d99ebe9df38a46fc3658d7d8db594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 57/68] fix: completing a line does not run the pipelines it
 mentions

---
 pieshell/jedi_completion.py | 14 ++++++++------
 pieshell/pipeline/base.py   | 11 +++++++++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/pieshell/jedi_completion.py b/pieshell/jedi_completion.py
index b3ec49b..7ae4b95 100644
--- a/pieshell/jedi_completion.py
+++ b/pieshell/jedi_completion.py
@@ -1,6 +1,7 @@
 import os
 import sys
 import jedi
+from .pipeline import base
 
 
 def setup_readline(scopes, **kw):
@@ -10,12 +11,13 @@ def setup_readline(scopes, **kw):
                 sys.path.insert(0, os.getcwd())
                 # Calling python doesn't have a path, so add to sys.path.
                 try:
-                    interpreter = jedi.Interpreter(text, scopes)
-                    completions = interpreter.complete(**kw)
-                    self.matches = [
-                        text[:len(text) - c._like_name_length] + c.name_with_symbols
-                        for c in completions
-                    ]
+                    with base.not_running(): # Error messages contain what they are about
+                        interpreter = jedi.Interpreter(text, scopes)
+                        completions = interpreter.complete(**kw)
+                        self.matches = [
+                            text[:len(text) - c._like_name_length] + c.name_with_symbols
+                            for c in completions
+                        ]
                 finally:
                     sys.path.pop(0)
             try:
diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 1bb18db..92cfcbe 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -11,6 +11,7 @@ import signal
 import operator
 import re
 import builtins        
+import contextlib
 import functools
 import asyncio
 import io
@@ -41,6 +42,16 @@ def pipeline_repr(obj):
         repr_state.in_repr -= 1
 builtins.repr = pipeline_repr
 
+@contextlib.contextmanager
+def not_running():
+    """Pipelines only ever show their text in here, whoever asks for
+    their representation."""
+    repr_state.in_repr = getattr(repr_state, "in_repr", 0) + 1
+    try:
+        yield
+    finally:
+        repr_state.in_repr -= 1
+
 # help() doesn't let you override help on objects, only on classes, so
 # make everything a class...
 # The metaclass and custom reducer / copyreg is to make these objects
-- 
2.43.0


From f2e1d4461c26260848f5a2e808e1fe614e46ec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 58/68] fix: the message that a command could not be executed
 got lost in a buffer

---
 pieshell/pipeline/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index eeaa729..69ee35e 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -243,7 +243,9 @@ class Command(command.BaseCommand):
                 self._child(redirects, args)
             except BaseException as e:
                 ecode = getattr(e, "errno", None) or ecode
-                sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
+                # Not sys.stderr: what is in its buffer is lost, or, if it
+                # was there before, not ours to write
+                os.write(2, ("Unable to execute %s: %s\n" % (repr(self), e)).encode("utf-8", "backslashreplace"))
             finally:
                 # If we ever get to here, all is lost...
                 os._exit(ecode)
-- 
2.43.0


From 1f91ce8cb4e0cb602019f1f1f4dfdec57f6efc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 59/68] fix: displaying the pipeline of a run of a builtin does
 not run it again

---
 pieshell/pipeline/base.py     | 1 +
 pieshell/pipeline/builtins.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 92cfcbe..880c2b9 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -159,6 +159,7 @@ class Pipeline(DescribableObject):
             redirects = redir.Redirects(self._env._redirects, *redirects)
         with copy.copy_session() as sess:
             self = copy.deepcopy(self)
+            self._started = True # Builtins might not do this
             processes = self._run(redirects, sess)
         pipeline = running.RunningPipeline(processes, self)
         if processes: # As opposed to e.g. cd or bg, that are already done
diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index fd41ebc..9cf5b84 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -7,6 +7,7 @@ import sys
 import base64
 import pickle
 
+from . import base
 from . import command
 from . import builtin
 from . import running
@@ -179,6 +180,7 @@ class BashSource(builtin.Builtin):
             "-l", "-i", "-c",
             environ.R("; ".join(args)), # Already expanded above
             self.parse_decls)
+        base.Pipeline._run(self, redirects, sess, indentation)
         res = self._cmd._run(redirects, sess, indentation)
         #self._pid = self._cmd._pid
         self._redirects = self._cmd._redirects
@@ -237,6 +239,7 @@ class Remote(builtin.Builtin):
         sshcmd = "pieshell --pcmd='%s'" % cmd
         self._cmd = self._env.ssh(
             *self._arg[1:-1], sshcmd)
+        base.Pipeline._run(self, redirects, sess, indentation)
         res = self._cmd._run(redirects, sess, indentation)
         self._redirects = self._cmd._redirects
         return res
-- 
2.43.0


From 2b302f52ee366138807cfa6851adf4a3eb09b413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 60/68] fix: builtins written as documented can be piped and
 iterated over

---
 pieshell/pipeline/builtin.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pieshell/pipeline/builtin.py b/pieshell/pipeline/builtin.py
index 0d7edaa..3d9e955 100644
--- a/pieshell/pipeline/builtin.py
+++ b/pieshell/pipeline/builtin.py
@@ -14,5 +14,12 @@ class BuiltinRegistry(object):
         return cls.builtins[name]
 
 class Builtin(command.BaseCommand):
+    def __getattr__(self, name):
+        # A builtin that runs some other pipeline, kept as _cmd, reads
+        # and writes what that one does
+        if name == "_redirects" and "_cmd" in vars(self):
+            return self._cmd._redirects
+        return command.BaseCommand.__getattr__(self, name)
+
     def _run(self, redirects, sess, indentation = ""):
         raise NotImplemented
-- 
2.43.0


From 1bd1aab63e63628509b6b4fc9dccb946d85a8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 61/68] fix: piping to or from builtins that run nothing left
 what was started before them behind

---
 pieshell/pipeline/builtin.py  | 8 ++++++++
 pieshell/pipeline/builtins.py | 6 +++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/builtin.py b/pieshell/pipeline/builtin.py
index 3d9e955..c1f7b12 100644
--- a/pieshell/pipeline/builtin.py
+++ b/pieshell/pipeline/builtin.py
@@ -21,5 +21,13 @@ class Builtin(command.BaseCommand):
             return self._cmd._redirects
         return command.BaseCommand.__getattr__(self, name)
 
+    def _without_io(self, redirects):
+        """For builtins that do not run anything: nothing is ever
+        written to their output, and their input is not read"""
+        self._started = True
+        self._redirects = redirects.make_pipes()
+        self._redirects.close_source_fds()
+        return []
+
     def _run(self, redirects, sess, indentation = ""):
         raise NotImplemented
diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 9cf5b84..660db9b 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -30,7 +30,7 @@ class CdBuiltin(builtin.Builtin):
 
     def _run(self, redirects, sess, indentation = ""):
         self._env._cd(self._path)
-        return []
+        return self._without_io(redirects)
 
     def __dir__(self):
         if self._arg[1:]:
@@ -53,7 +53,7 @@ class BgBuiltin(builtin.Builtin):
         if len(self._arg) > 1:
             pipeline = self._arg[1]
         pipeline.restart()
-        return []
+        return self._without_io(redirects)
 
 class RunnningFg(running.BaseRunningItem):
     def __init__(self, pipeline):
@@ -108,7 +108,7 @@ class ClearDirCacheBuiltin(builtin.Builtin):
 
     def _run(self, redirects, sess, indentation = ""):
         self._env._clear_dir_cache()
-        return []
+        return self._without_io(redirects)
 
     def __dir__(self):
         if self._arg[1:]:
-- 
2.43.0


From 2b49f4c9216c20b192e617e770138ee51b9c8d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 62/68] fix: completion of an environment without PATH

---
 pieshell/environ.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 948c85b..7184080 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -169,9 +169,8 @@ class Environment(object):
         self._dir_cache = None
     def __dir__(self):
         if self._dir_cache is None:
-            e = self._exports
             self._dir_cache = []
-            paths = e["PATH"].split(":")
+            paths = os.get_exec_path(self._exports)
             for pth in paths:
                 if not pth.startswith("/"):
                     pth = os.path.join(self._cwd, pth)
-- 
2.43.0


From 04fb860db0cf30afce7cb6d06ea3756fb773d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:26 +0000
Subject: [PATCH 63/68] fix: no temporary files for builtins that run nothing

---
 pieshell/pipeline/builtin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtin.py b/pieshell/pipeline/builtin.py
index c1f7b12..383a10a 100644
--- a/pieshell/pipeline/builtin.py
+++ b/pieshell/pipeline/builtin.py
@@ -1,4 +1,5 @@
 from . import command
+from .. import redir
 
 class BuiltinRegistry(object):
     builtins = {}
@@ -25,7 +26,9 @@ class Builtin(command.BaseCommand):
         """For builtins that do not run anything: nothing is ever
         written to their output, and their input is not read"""
         self._started = True
-        self._redirects = redirects.make_pipes()
+        self._redirects = redir.Redirects(*[
+            redirect.make_pipe() if redirect.source is redir.PIPE else redirect
+            for redirect in redirects.redirects.values()])
         self._redirects.close_source_fds()
         return []
 
-- 
2.43.0


From f7a0600533cc297f75972e6f1f5961d56e04694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:35 +0000
Subject: [PATCH 64/68] fix: starting without a place for the startup file

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 7184080..34edffb 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -323,7 +323,7 @@ class EnvScope(dict):
         try:
             if not os.path.exists(conf):
                 self._copy_resource(conf_resource, conf)
-        except PermissionError:
+        except OSError:
             self.execute_file(conf_resource)
         else:
             if os.path.exists(conf):
-- 
2.43.0


From 05b7943636a15a1124102747286fdb9011e2c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:01 +0000
Subject: [PATCH 65/68] fix: pass named tuples, default dictionaries and
 decimals to functions

---
 pieshell/utils/copy.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pieshell/utils/copy.py b/pieshell/utils/copy.py
index a8ff154..ee39aeb 100644
--- a/pieshell/utils/copy.py
+++ b/pieshell/utils/copy.py
@@ -1,5 +1,6 @@
 # Minimal reimplementation of copy.deepcopy that happily copies
 # objects inheriting from type...
+import collections
 import threading
 import contextlib
 
@@ -22,15 +23,22 @@ def deepcopy(obj):
         key = id(obj)
         if key not in memo:
             if isinstance(obj, (list, tuple)):
-                memo[key] = type(obj)(deepcopy(item) for item in obj)
+                items = [deepcopy(item) for item in obj]
+                if isinstance(obj, tuple) and all(new is old for new, old in zip(items, obj)):
+                    memo[key] = obj
+                else:
+                    # Named tuples take their fields one by one
+                    memo[key] = getattr(type(obj), "_make", type(obj))(items)
+            elif isinstance(obj, collections.defaultdict):
+                memo[key] = type(obj)(obj.default_factory, {deepcopy(key):deepcopy(value) for key, value in obj.items()})
             elif isinstance(obj, dict):
                 memo[key] = type(obj)({deepcopy(key):deepcopy(value) for key, value in obj.items()})
             elif isinstance(obj, bytes):
                 memo[key] = bytes(obj)
             elif isinstance(obj, str):
                 memo[key] = str(obj)
-            elif hasattr(obj, "__deepcopy__"):
-                memo[key] = obj.__deepcopy__()
+            elif hasattr(type(obj), "__deepcopy__"):
+                memo[key] = obj.__deepcopy__(memo)
             else:
                 memo[key] = obj
         return memo[key]
-- 
2.43.0


From b007cfc40d731696bec84e2b9e1a6c18b7cabe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:01 +0000
Subject: [PATCH 66/68] fix: no error when a reader that gave up gets its input

---
 pieshell/iterio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 22ae1c0..8925803 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -168,7 +168,8 @@ class InputHandler(IOHandler):
                 self.eof = True
                 self.destroy()
         if self.future is not None:
-            self.future.set_result(None)
+            if not self.future.done(): # Whoever asked might have given up
+                self.future.set_result(None)
             self.future = None
 
     def __aiter__(self):
@@ -207,7 +208,8 @@ class LineInputHandler(InputHandler):
                 self.eof = True
                 self.destroy()
             if self.future is not None:
-                self.future.set_result(None)
+                if not self.future.done():
+                    self.future.set_result(None)
                 self.future = None
 
     def __aiter__(self):
-- 
2.43.0


From b4381c32789df2e1416a136244f62d05b288923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:20 +0000
Subject: [PATCH 67/68] fix: fg and bg with nothing to continue say so

---
 pieshell/environ.py           |  2 ++
 pieshell/pipeline/builtins.py | 14 ++++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 34edffb..96c6780 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -41,6 +41,8 @@ class Environment(object):
         Command(env, "COMMAND_NAME")
     """
 
+    last_pipeline = None # Nothing has been run yet
+
     def __init__(self, cwd = None, exports = None, interactive = False, redirects = None):
         """Creates a new environment from scratch. Takes the same
         arguments as __call__."""
diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 660db9b..ff27fba 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -43,15 +43,19 @@ class CdBuiltin(builtin.Builtin):
         except:
             return list(self._replacements.keys())
 
+def to_continue(env, args):
+    pipeline = args[1] if len(args) > 1 else env.last_pipeline
+    if pipeline is None:
+        raise ValueError("There is no pipeline to continue")
+    return pipeline
+
 class BgBuiltin(builtin.Builtin):
     """Continue running the last pipeline in the background.
     """
     name = "bg"
 
     def _run(self, redirects, sess, indentation = ""):
-        pipeline = self._env.last_pipeline
-        if len(self._arg) > 1:
-            pipeline = self._arg[1]
+        pipeline = to_continue(self._env, self._arg)
         pipeline.restart()
         return self._without_io(redirects)
 
@@ -96,9 +100,7 @@ class FgBuiltin(builtin.Builtin):
     name = "fg"
 
     def _run(self, redirects, sess, indentation = ""):
-        pipeline = self._env.last_pipeline
-        if len(self._arg) > 1:
-            pipeline = self._arg[1]
+        pipeline = to_continue(self._env, self._arg)
         return [RunnningFg(pipeline)]
 
 class ClearDirCacheBuiltin(builtin.Builtin):
-- 
2.43.0


From f64343b854b7e39879ede90cb64ea5822b2e1df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:14 +0000
Subject: [PATCH 68/68] fix: cd completes to the directories of its environment

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index ff27fba..8f9ca6d 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -36,7 +36,7 @@ class CdBuiltin(builtin.Builtin):
         if self._arg[1:]:
             pth = self._env._expand_path(self._path)
         else:
-            pth = "."
+            pth = self._env._cwd
         try:
             return [name for name in os.listdir(pth)
                     if os.path.isdir(os.path.join(pth, name))] + list(self._replacements.keys())
-- 
2.43.0

