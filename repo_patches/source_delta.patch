From b08ac928372a60c83a74f8a23933e4e84b6b4344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 01/37] fix: an include_role followed by a task outside of any
 role aborted the play

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 9daf0ab..6efa80a 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -531,7 +531,7 @@ class AnsibleDebugState(DebugState):
                 parent_task
                 and last_frame.task
                 and last_frame.task.action in C._ACTION_INCLUDE_ROLE
-                and hasattr(task, "_role")
+                and task._role
             ):
                 task_handlers = task._role.get_task_blocks()
                 role_handlers = task._role.get_handler_blocks(task.play)
-- 
2.43.0


From 59a93f50e212ab11f49849ec39cc5e776355ac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 02/37] fix: includes that ended stayed on the stack and
 includes with blocks left it

---
 .../ansibug/dap/plugins/strategy/debug.py     | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 6efa80a..b972735 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -514,23 +514,31 @@ class AnsibleDebugState(DebugState):
         if not thread:
             thread = self._add_thread(host)
 
-        if thread.stack_frames:
-            # The parent is the implicit block and we want the parent of that.
-            parent_task = task._parent._parent
+        # Only the includes this task comes from stay on the stack, any other
+        # include that is left has ended.
+        parent_uuids = set()
+        parent = task._parent
+        while parent:
+            if isinstance(parent, Task):
+                parent_uuids.add(parent._uuid)
+            parent = parent._parent
+
+        while thread.stack_frames:
             last_frame_id = thread.stack_frames[0]
             last_frame = self.stackframes[last_frame_id]
-            if not parent_task or (last_frame.task and last_frame.task._uuid != parent_task._uuid):
-                thread.stack_frames.pop(0)
-                self.stackframes.pop(last_frame_id)
-                for variable_id in last_frame.variables:
-                    del self.variables[variable_id]
+            if last_frame.task._uuid in parent_uuids:
+                break
+
+            thread.stack_frames.pop(0)
+            self.stackframes.pop(last_frame_id)
+            for variable_id in last_frame.variables:
+                del self.variables[variable_id]
 
+        if thread.stack_frames:
             # If this is the first task in a role included by include_role we
             # need to scan the tasks and handlers to validate the breakpoints
             if (
-                parent_task
-                and last_frame.task
-                and last_frame.task.action in C._ACTION_INCLUDE_ROLE
+                last_frame.task.action in C._ACTION_INCLUDE_ROLE
                 and task._role
             ):
                 task_handlers = task._role.get_task_blocks()
-- 
2.43.0


From 358f95753d060d5981e35d6d0c39e0912f019804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 03/37] fix: stepping from an exception stop was relative to an
 earlier stop

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index b972735..972a4d5 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -224,6 +224,7 @@ class AnsibleThread:
                 details = get_on_skipped_details(result._result)
 
         if details:
+            self._stopped_task = result._task
             self.state = ThreadState.WAIT
             return ansibug.dap.StoppedEvent(
                 reason=ansibug.dap.StoppedReason.EXCEPTION,
-- 
2.43.0


From a0eec797ef349edd48c2a60b007b6030170ff4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 04/37] fix: stepping out stopped in an include nested in the
 one being left

---
 .../ansibug/dap/plugins/strategy/debug.py           | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 972a4d5..344ff19 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -264,11 +264,16 @@ class AnsibleThread:
         if self.state != ThreadState.STEP_OUT or not self._stopped_task:
             return False
 
-        # If step out, we only want to break if the current task's parent does
-        # not match the stopped task stored at state change (the include). If
-        # the parent matches it means we are still in the same include scope.
+        # If step out, we only want to break if none of the current task's
+        # parents match the stopped task stored at state change (the include).
+        # If one matches it means we are still in the same include scope.
         task_parent = self._get_parent_task(task)
-        return getattr(task_parent, "_uuid", None) != self._stopped_task._uuid
+        while task_parent:
+            if task_parent._uuid == self._stopped_task._uuid:
+                return False
+            task_parent = self._get_parent_task(task_parent)
+
+        return True
 
     def _get_parent_task(
         self,
-- 
2.43.0


From 75c26d88edd013c1295c8d7922491b249c81faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 05/37] fix: failures in rescue and always sections did not
 stop as uncaught

---
 .../ansibug/dap/plugins/strategy/debug.py                  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 344ff19..f9ebeb3 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -206,11 +206,14 @@ class AnsibleThread:
         if result.is_failed() and not result._task_fields.get("ignore_errors", None):
             is_rescued = False
 
+            # A failure is only rescued when it is in the block section itself
+            # and not in its rescue or always section.
             task = result._task
-            while task := task._parent:
-                if isinstance(task, Block) and task.rescue:
+            while parent := task._parent:
+                if isinstance(parent, Block) and parent.rescue and any(t._uuid == task._uuid for t in parent.block):
                     is_rescued = True
                     break
+                task = parent
 
             if should_stop_on_error and not is_rescued:
                 details = get_on_failed_details(result._result)
-- 
2.43.0


From 39a100c58feef0b05fa28d77e8773609b658f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 06/37] fix: a breakpoint with a false condition hid other
 breakpoints on the same task

---
 src/ansibug/_debuggee.py                                 | 4 ++++
 .../ansibug/dap/plugins/strategy/debug.py                | 9 +--------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 95bde9a..294ba4e 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -349,6 +349,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         path: str,
         line: int,
+        eval_condition: t.Callable[[str], bool],
     ) -> AnsibleLineBreakpoint | None:
         """Gets the breakpoint for the path/line specified.
 
@@ -359,6 +360,8 @@ class AnsibleDebugger(metaclass=Singleton):
         Args:
             path: The path of the file to check.
             line: The line in the file to check.
+            eval_condition: Evaluates the condition of a breakpoint, one whose
+                condition is not met is ignored.
 
         Returns:
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
@@ -369,6 +372,7 @@ class AnsibleDebugger(metaclass=Singleton):
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
                 and (b.breakpoint.end_line is None or b.breakpoint.end_line >= line)
+                and (not b.source_breakpoint.condition or eval_condition(b.source_breakpoint.condition))
             ):
                 return b
 
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index f9ebeb3..e590cea 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -601,14 +601,7 @@ class AnsibleDebugState(DebugState):
         with self._waiting_condition:
             tid = thread.id
 
-            line_breakpoint = self._debugger.get_breakpoint(path, line)
-            if (
-                line_breakpoint
-                and line_breakpoint.source_breakpoint.condition
-                and not eval_condition(line_breakpoint.source_breakpoint.condition)
-            ):
-                line_breakpoint = None
-
+            line_breakpoint = self._debugger.get_breakpoint(path, line, eval_condition)
             stopped_event = thread.should_break(task, line_breakpoint)
 
             if stopped_event:
-- 
2.43.0


From 27496bab65e1da6a161362426874fd69e97dc784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 07/37] fix: breakpoints and filters were replaced piecemeal
 while the playbook used them

---
 src/ansibug/_debuggee.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 294ba4e..82afcb2 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -243,7 +243,9 @@ class AnsibleDebugger(metaclass=Singleton):
         self._stackframe_counter = 1
         self._variable_counter = 1
 
-        # Stores all the client breakpoints, key is the breakpoint number/id
+        # Stores all the client breakpoints, key is the breakpoint number/id.
+        # These are set by the connection thread while Ansible is running.
+        self._breakpoint_lock = threading.Lock()
         self._breakpoint_exceptions: dict[str, bool] = {}
         self._breakpoints: dict[int, AnsibleLineBreakpoint] = {}
         self._breakpoint_counter = 1
@@ -367,7 +369,10 @@ class AnsibleDebugger(metaclass=Singleton):
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
             args if present.
         """
-        for b in self._breakpoints.values():
+        with self._breakpoint_lock:
+            breakpoints = list(self._breakpoints.values())
+
+        for b in breakpoints:
             if (
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
@@ -548,6 +553,15 @@ class AnsibleDebugger(metaclass=Singleton):
             bp_type: Set to 1 for a valid breakpoint and 0 for an invalid
                 breakpoint section.
         """
+        with self._breakpoint_lock:
+            self._register_path_breakpoint(path, line, bp_type)
+
+    def _register_path_breakpoint(
+        self,
+        path: str,
+        line: int,
+        bp_type: int,
+    ) -> None:
         # Ensure each new entry has a starting value of 0 which denotes that
         # a breakpoint cannot be set at the start of the file. It can only be
         # set when a line was registered.
@@ -661,9 +675,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.SetExceptionBreakpointsRequest,
     ) -> None:
-        self._breakpoint_exceptions = {}
-        for breakpoint_type in msg.filters:
-            self._breakpoint_exceptions[breakpoint_type] = True
+        self._breakpoint_exceptions = {breakpoint_type: True for breakpoint_type in msg.filters}
 
         resp = dap.SetExceptionBreakpointsResponse(request_seq=msg.seq)
         self.queue_msg(resp)
@@ -672,6 +684,16 @@ class AnsibleDebugger(metaclass=Singleton):
     def _(
         self,
         msg: dap.SetBreakpointsRequest,
+    ) -> None:
+        # The response is queued with the lock held so that no changed event of
+        # these breakpoints can be sent before it or one of the replaced ones
+        # after it.
+        with self._breakpoint_lock:
+            self._set_breakpoints(msg)
+
+    def _set_breakpoints(
+        self,
+        msg: dap.SetBreakpointsRequest,
     ) -> None:
         # FIXME: Deal with source_reference if set
         source_path = msg.source.path or ""
-- 
2.43.0


From 525cd872a902a9327738d8305bfb8ce6fa1216f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 08/37] fix: requests raced with threads and variables that
 come and go

---
 src/ansibug/_debuggee.py                      |  6 ++++--
 .../ansibug/dap/plugins/strategy/debug.py     | 20 +++++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 82afcb2..f1d7633 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -242,6 +242,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self._thread_counter = 2  # 1 is always the main thread
         self._stackframe_counter = 1
         self._variable_counter = 1
+        self._variable_lock = threading.Lock()
 
         # Stores all the client breakpoints, key is the breakpoint number/id.
         # These are set by the connection thread while Ansible is running.
@@ -327,8 +328,9 @@ class AnsibleDebugger(metaclass=Singleton):
         return sfid
 
     def next_variable_id(self) -> int:
-        vid = self._variable_counter
-        self._variable_counter += 1
+        with self._variable_lock:
+            vid = self._variable_counter
+            self._variable_counter += 1
 
         return vid
 
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index e590cea..e734f14 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -667,7 +667,9 @@ class AnsibleDebugState(DebugState):
             if tid == 1:
                 continue
 
-            del self.threads[tid]
+            with self._waiting_condition:
+                del self.threads[tid]
+
             self._debugger.queue_msg(
                 ansibug.dap.ThreadEvent(
                     reason="exited",
@@ -683,7 +685,7 @@ class AnsibleDebugState(DebugState):
             self._resume_threads([request.thread_id], ThreadState.CONTINUE)
             all_threads_continued = False
         else:
-            self._resume_threads(self.threads.keys(), ThreadState.CONTINUE)
+            self._resume_threads(None, ThreadState.CONTINUE)
             all_threads_continued = True
 
         return ansibug.dap.ContinueResponse(
@@ -696,7 +698,7 @@ class AnsibleDebugState(DebugState):
         request: ansibug.dap.DisconnectRequest,
     ) -> None:
         state = ThreadState.END if request.terminate_debuggee else ThreadState.CONTINUE
-        self._resume_threads(list(self.threads.keys()), state)
+        self._resume_threads(None, state)
 
     def get_scopes(
         self,
@@ -882,7 +884,7 @@ class AnsibleDebugState(DebugState):
     ) -> ansibug.dap.ThreadsResponse:
         return ansibug.dap.ThreadsResponse(
             request_seq=request.seq,
-            threads=[t.to_dap() for t in self.threads.values()],
+            threads=[t.to_dap() for t in list(self.threads.values())],
         )
 
     def get_variables(
@@ -974,10 +976,13 @@ class AnsibleDebugState(DebugState):
     ) -> AnsibleThread:
         tid = self._debugger.next_thread_id()
 
-        thread = self.threads[tid] = AnsibleThread(
+        thread = AnsibleThread(
             id=tid,
             host=host,
         )
+        with self._waiting_condition:
+            self.threads[tid] = thread
+
         self._debugger.queue_msg(
             ansibug.dap.ThreadEvent(
                 reason="started",
@@ -1011,10 +1016,13 @@ class AnsibleDebugState(DebugState):
 
     def _resume_threads(
         self,
-        thread_ids: collections.abc.Iterable[int],
+        thread_ids: collections.abc.Iterable[int] | None,
         thread_state: ThreadState,
     ) -> None:
         with self._waiting_condition:
+            if thread_ids is None:
+                thread_ids = list(self.threads.keys())
+
             for tid in thread_ids:
                 self.threads[tid].set_state(thread_state)
 
-- 
2.43.0


From b03aae7433bc0497da00de8742aa9dc0cf3db504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 09/37] fix: requests outside of a play blocked every later
 one, a disconnect included

---
 src/ansibug/_debuggee.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index f1d7633..8b6745b 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -607,9 +607,13 @@ class AnsibleDebugger(metaclass=Singleton):
             debugpy.wait_for_client()
 
     def _get_strategy(self) -> DebugState:
-        with self._strategy_connected:
-            self._strategy_connected.wait_for(lambda: self._strategy is not None)
-            return t.cast(DebugState, self._strategy)
+        strategy = self._strategy
+        if not strategy:
+            # This is the case before the first, between two, and after the
+            # last play, waiting for the next one could take forever.
+            raise RuntimeError("There is no play running that can process this request")
+
+        return strategy
 
     @functools.singledispatchmethod
     def process_message(
@@ -816,8 +820,15 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.ThreadsRequest,
     ) -> None:
-        strategy = self._get_strategy()
-        resp = strategy.get_threads(msg)
+        strategy = self._strategy
+        if strategy:
+            resp = strategy.get_threads(msg)
+        else:
+            # Outside of a play there is only the main thread.
+            resp = dap.ThreadsResponse(
+                request_seq=msg.seq,
+                threads=[dap.Thread(id=1, name="main")],
+            )
         self.queue_msg(resp)
 
     @process_message.register
@@ -891,8 +902,12 @@ class AnsibleDebugger(metaclass=Singleton):
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
 
-        strategy = self._get_strategy()
-        strategy.disconnect(msg)
+        with self._strategy_connected:
+            if self._strategy:
+                self._strategy.disconnect(msg)
+
+        # The playbook might still be waiting to be started.
+        self._configuration_done.set()
 
     def _send_task(
         self,
-- 
2.43.0


From ea0c851c7e0808ae3525232cc3b56f29251f2ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 10/37] fix: a request to end the playbook was forgotten when
 no thread was stopped

---
 src/ansibug/_debuggee.py                              | 11 ++++++++++-
 .../ansibug/dap/plugins/strategy/debug.py             |  9 +++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 8b6745b..0e3b055 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -277,6 +277,11 @@ class AnsibleDebugger(metaclass=Singleton):
         #     just have to use the last entry
         self._source_info: dict[str, list[int | None]] = {}
 
+    @property
+    def terminated(self) -> bool:
+        """Whether the client has requested the playbook to end."""
+        return self._terminated
+
     @property
     def should_stop_on_error(self) -> bool:
         return self._breakpoint_exceptions.get(ExceptionBreakpointType.ON_ERROR.value, False)
@@ -481,6 +486,7 @@ class AnsibleDebugger(metaclass=Singleton):
         # breakpoints and our debug config no longer applies
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         # Ensure the callback plugin isn't stuck waiting for this
         self._configuration_done.set()
@@ -810,7 +816,6 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.TerminateRequest,
     ) -> None:
-        self._terminated = True
         self._disconnect(dap.DisconnectRequest(terminate_debuggee=True))
         self.queue_msg(dap.TerminateResponse(request_seq=msg.seq))
         self._send_queue.put(None)
@@ -899,8 +904,12 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.DisconnectRequest,
     ) -> None:
+        if msg.terminate_debuggee:
+            self._terminated = True
+
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         with self._strategy_connected:
             if self._strategy:
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index e734f14..d938527 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -516,6 +516,9 @@ class AnsibleDebugState(DebugState):
             task: The task to process.
             task_vars: The task variables.
         """
+        if self._debugger.terminated:
+            raise EndStrategy()
+
         thread: AnsibleThread | None = next(
             iter([t for t in self.threads.values() if t.host == host]),
             None,
@@ -601,6 +604,9 @@ class AnsibleDebugState(DebugState):
         with self._waiting_condition:
             tid = thread.id
 
+            if self._debugger.terminated:
+                raise EndStrategy()
+
             line_breakpoint = self._debugger.get_breakpoint(path, line, eval_condition)
             stopped_event = thread.should_break(task, line_breakpoint)
 
@@ -631,6 +637,9 @@ class AnsibleDebugState(DebugState):
         thread = next(iter([t for t in self.threads.values() if t.host == host]))
 
         with self._waiting_condition:
+            if self._debugger.terminated:
+                raise EndStrategy()
+
             stopped_event = thread.should_stop_on_exception(
                 result,
                 should_stop_on_error=self._debugger.should_stop_on_error,
-- 
2.43.0


From f659367c24abfdc6866e559c2d1046b7db345378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 11/37] fix: a peer that dropped or stalled the handshake
 blocked the connection for good

---
 src/ansibug/_mp_queue.py      | 81 +++++++++++++++++++----------------
 src/ansibug/_socket_helper.py | 27 +++++++++++-
 2 files changed, 71 insertions(+), 37 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 5275979..9228f4b 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -23,6 +23,9 @@ from .dap import ProtocolMessage
 
 log = logging.getLogger(__name__)
 
+# The time, in seconds, a peer has to complete the TLS handshake.
+HANDSHAKE_TIMEOUT = 10.0
+
 
 class MPProtocol:
     def on_msg_received(self, msg: ProtocolMessage) -> None:
@@ -181,20 +184,26 @@ class ClientMPQueue(MPQueue):
         else:
             raise error
 
+        self._socket.settimeout(timeout)
         if self._ssl_context:
             self._socket.wrap_tls(
                 self._ssl_context,
                 server_side=False,
                 server_hostname=ssl_hostname,
+                cancel_token=self._cancel_token,
             )
             # TLS 1.3 won't validate their cert was accepted until its first
             # read. This ensures the connection is validated before it is
             # going to be used.
-            self._socket.recv(1, self._cancel_token)
+            ack = self._socket.recv(1, self._cancel_token)
         else:
             # Ensures that the server is actually connected to us and we aren't
             # in the backlog waiting for an accept().
-            self._socket.recv(1, self._cancel_token)
+            ack = self._socket.recv(1, self._cancel_token)
+
+        if not ack:
+            raise ConnectionError("The connection was closed before the server accepted it")
+        self._socket.settimeout(0)
 
         super().start()
 
@@ -245,47 +254,47 @@ class ServerMPQueue(MPQueue):
         if cancel_queue:
             cancel_socket = cancel_queue._socket
 
-        conn = self._socket.accept(
-            self._cancel_token,
-            timeout=timeout,
-            cancel_socket=cancel_socket,
-        )
+        # If the server fails to complete the handshake we don't want to
+        # shutdown the socket, instead this will accept the next connection
+        # allowing a new client to connect. This allows an attach request to be
+        # retried if the server mandates a certificate but the client does
+        # not offer one (or is rejected).
+        while True:
+            conn = self._socket.accept(
+                self._cancel_token,
+                timeout=timeout,
+                cancel_socket=cancel_socket,
+            )
 
-        if self._ssl_context:
-            # If the server fails to complete the TLS handshake we don't want
-            # to shutdown the socket, instead this will recreate it allowing a
-            # new client to connect. This allows an attach request to be
-            # retried if the server mandates a certificate but the client does
-            # not offer one (or is rejected).
-            while True:
-                try:
+            try:
+                if self._ssl_context:
+                    # A peer that doesn't continue the handshake must not block
+                    # the others.
+                    conn.settimeout(HANDSHAKE_TIMEOUT)
                     conn.wrap_tls(
                         self._ssl_context,
                         server_side=True,
+                        cancel_token=self._cancel_token,
                     )
-                    # The client will read a single byte after the handshake to
-                    # verify it was able to auth correctly. TLS 1.3 only errors
-                    # on the client side on the first recv/send call after the
-                    # handshake.
-                    conn.send(b"\x00", self._cancel_token)
-
-                except ssl.SSLError:
-                    log.exception("Server TLS handshake failed, trying again")
-                    conn.close()
-                    conn = self._socket.accept(
-                        self._cancel_token,
-                        timeout=timeout,
-                        cancel_socket=cancel_socket,
-                    )
+                    conn.settimeout(0)
 
-                else:
-                    break
+                # The client will read a single byte after the connection to
+                # verify it is actually connected to a server and not just part
+                # of the backlog. With TLS this also verifies it was able to
+                # auth correctly. TLS 1.3 only errors on the client side on the
+                # first recv/send call after the handshake.
+                conn.send(b"\x00", self._cancel_token)
 
-        else:
-            # The client will read a single byte after the connection to verify
-            # it is actually connected to a server and not just part of the
-            # backlog.
-            conn.send(b"\x00", self._cancel_token)
+            except OSError:
+                log.exception("Server handshake failed, trying again")
+                conn.close()
+
+            except CancelledError:
+                conn.close()
+                raise
+
+            else:
+                break
 
         # The original server socket is no longer needed, replace it with the
         # client connection one.
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index facca38..f369cb1 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -215,19 +215,29 @@ class SocketHelper:
         except OSError:
             pass
 
+    def settimeout(
+        self,
+        timeout: float,
+    ) -> None:
+        """Sets the timeout of the following operations, 0 is no timeout."""
+        self._sock.settimeout(timeout or None)
+
     def wrap_tls(
         self,
         ssl_context: ssl.SSLContext,
+        cancel_token: SocketCancellationToken,
         *,
         server_side: bool = True,
         server_hostname: str | None = None,
     ) -> None:
         log.debug("Wrapping socket with TLS context")
-        self._sock = ssl_context.wrap_socket(
+        self._sock = ssl_sock = ssl_context.wrap_socket(
             self._sock,
             server_side=server_side,
             server_hostname=server_hostname,
+            do_handshake_on_connect=False,
         )
+        cancel_token.do_handshake(ssl_sock)
 
 
 class SocketCancellationToken:
@@ -306,6 +316,21 @@ class SocketCancellationToken:
 
             sock.setblocking(True)
 
+    def do_handshake(
+        self,
+        sock: ssl.SSLSocket,
+    ) -> None:
+        # SSLSocket.shutdown() removes the TLS state that is used by the
+        # handshake, only the underlying socket must be shutdown.
+        with self.with_cancel(lambda: socket.socket.shutdown(sock, socket.SHUT_RDWR)):
+            try:
+                sock.do_handshake()
+            except OSError:
+                if self._cancelled:
+                    raise CancelledError()
+                else:
+                    raise
+
     def recv_into(
         self,
         sock: socket.socket,
-- 
2.43.0


From ee5dde82355a911fd42d9cb90a4a5d7638caa889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 12/37] fix: the playbook waited forever for a debugger whose
 connection failed

---
 src/ansibug/_debuggee.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 0e3b055..465b665 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -951,4 +951,8 @@ class AnsibleDebugger(metaclass=Singleton):
             mp_queue.stop()
             self._adapter_connected = False
 
+            # When the connection failed there is no receive thread that does
+            # this, the playbook must not wait for something that cannot come.
+            self.shutdown(from_send_thread=True)
+
         log.debug("Debuggee server send thread ended")
-- 
2.43.0


From 3b2389a86e346a2d1acb00198bdeb7622c67d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 13/37] fix: requests could be answered twice, interleaved or
 not at all once the playbook had ended

---
 src/ansibug/_debug_adapter.py | 114 ++++++++++++++++++++++++----------
 1 file changed, 82 insertions(+), 32 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 4ea010a..77aca26 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -13,6 +13,7 @@ import pathlib
 import shlex
 import sys
 import tempfile
+import threading
 import traceback
 import types
 import typing as t
@@ -255,6 +256,11 @@ class DAServer:
         self._run_in_response_data: dict[int, _RunInTerminalDetails] = {}
         self._temp_dir = temp_dir
         self._terminated_sent = False
+        self._debuggee_closed = False
+
+        # Messages are sent by the thread reading from the client and the one
+        # reading from the debuggee.
+        self._client_lock = threading.RLock()
 
     def __enter__(self) -> DAServer:
         return self
@@ -290,17 +296,25 @@ class DAServer:
                 # Trace each request from the client so we can return an
                 # ErrorMessage if there was a critical failure.
                 if isinstance(msg, dap.Request):
-                    self._incoming_requests[msg.seq] = msg
+                    with self._client_lock:
+                        self._incoming_requests[msg.seq] = msg
 
-                if isinstance(msg, dap.Request) and self._debuggee:
-                    if isinstance(msg, dap.DisconnectRequest):
-                        is_connected = False
+                if isinstance(msg, dap.DisconnectRequest):
+                    is_connected = False
+                    if self._debuggee:
                         self._send_disconnect(msg, self._debuggee)
-                    else:
-                        self._debuggee.send(msg)
+
+                elif isinstance(msg, dap.Request) and self._debuggee:
+                    self._send_request(msg, self._debuggee)
 
                 else:
-                    self._process_msg(msg)
+                    try:
+                        self._process_msg(msg)
+                    except NotImplementedError:
+                        if not isinstance(msg, dap.Request):
+                            raise
+
+                        self._send_error(msg, traceback.format_exc())
 
     def stop(
         self,
@@ -318,22 +332,23 @@ class DAServer:
             from_debuggee: The stop is being called as the debuggee has
                 disconnected.
         """
-        # Ensure the DisconnectResponse is sent if there is an outstanding
-        # request.
-        for req in list(self._incoming_requests.values()):
-            if isinstance(req, dap.DisconnectRequest):
-                self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))
-
         if exp:
             # For every incoming request relay the exception back to the client
             # for it to display to the end user.
+            error = f"Critical DAServer exception received\n{traceback.format_exc()}"
+        else:
+            error = "The playbook is not or no longer connected"
+
+        with self._client_lock:
+            if from_debuggee:
+                self._debuggee_closed = True
+
+            # There is nothing left that would answer the outstanding requests.
             for req in list(self._incoming_requests.values()):
-                resp = dap.ErrorResponse(
-                    command=req.command,
-                    request_seq=req.seq,
-                    message=f"Critical DAServer exception received\n{traceback.format_exc()}",
-                )
-                self.send_to_client(resp)
+                if isinstance(req, dap.DisconnectRequest):
+                    self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))
+                else:
+                    self._send_error(req, error)
 
         if not from_debuggee and self._debuggee:
             self._debuggee.stop()
@@ -343,11 +358,7 @@ class DAServer:
             self._launch_queue.stop()
             self._launch_queue = None
 
-        if not self._terminated_sent:
-            # Both the debuggee or start() end will hit the code here. We only
-            # need to send one TerminatedEvent() for whichever was first.
-            self.send_to_client(dap.TerminatedEvent())
-            self._terminated_sent = True
+        self._send_terminated()
 
     def send_to_client(
         self,
@@ -355,19 +366,55 @@ class DAServer:
     ) -> int:
         stdout = sys.stdout.buffer
 
-        req_no = self._adapter.queue_msg(msg)
-        data = self._adapter.data_to_send() or b""
-        if log.isEnabledFor(logging.DEBUG):
-            log.debug("STDOUT: %s", data.decode())
+        with self._client_lock:
+            if isinstance(msg, dap.Response) and not self._incoming_requests.pop(msg.request_seq, None):
+                log.debug("Ignoring response for request %d that was already answered", msg.request_seq)
+                return -1
 
-        stdout.write(data)
-        stdout.flush()
+            req_no = self._adapter.queue_msg(msg)
+            data = self._adapter.data_to_send() or b""
+            if log.isEnabledFor(logging.DEBUG):
+                log.debug("STDOUT: %s", data.decode())
 
-        if isinstance(msg, dap.Response):
-            self._incoming_requests.pop(msg.request_seq, None)
+            stdout.write(data)
+            stdout.flush()
 
         return req_no
 
+    def _send_terminated(self) -> None:
+        with self._client_lock:
+            if not self._terminated_sent:
+                # Both the debuggee or start() end will hit the code here. We only
+                # need to send one TerminatedEvent() for whichever was first.
+                self._terminated_sent = True
+                self.send_to_client(dap.TerminatedEvent())
+
+    def _send_error(
+        self,
+        msg: dap.Request,
+        error: str,
+    ) -> None:
+        self.send_to_client(
+            dap.ErrorResponse(
+                command=msg.command,
+                request_seq=msg.seq,
+                message=error,
+            )
+        )
+
+    def _send_request(
+        self,
+        msg: dap.Request,
+        debuggee: MPQueue,
+    ) -> None:
+        try:
+            if self._debuggee_closed:
+                raise ConnectionError("The playbook is no longer connected")
+
+            debuggee.send(msg)
+        except OSError:
+            self._send_error(msg, f"Failed to send the request to the playbook\n{traceback.format_exc()}")
+
     def _send_disconnect(
         self,
         msg: dap.DisconnectRequest,
@@ -565,6 +612,9 @@ rm -f "$0"
 
         except CancelledError:
             log.debug("Launch cancel socket was connected, launched process has ended")
+            # The reason is shown in the terminal, ending the session first
+            # stops the client from showing the failure of the launch request.
+            self._send_terminated()
             self.stop()
 
         else:
-- 
2.43.0


From 66d796a1857152f1446125d895ab662cd01c03fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 14/37] fix: the debug adapter ran in a busy loop when its
 client had gone

---
 src/ansibug/_debug_adapter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 77aca26..089f882 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -287,9 +287,13 @@ class DAServer:
         is_connected = True
         while is_connected:
             data = stdin.read(4096)
+            if not data:
+                log.info("The client closed its connection")
+                break
 
             if log.isEnabledFor(logging.DEBUG):
-                log.debug("STDIN: %s", data.decode())
+                # A read can end in the middle of a character.
+                log.debug("STDIN: %s", data.decode(errors="replace"))
             adapter.receive_data(data)
 
             while msg := adapter.next_message():
@@ -412,7 +416,7 @@ class DAServer:
                 raise ConnectionError("The playbook is no longer connected")
 
             debuggee.send(msg)
-        except OSError:
+        except (CancelledError, OSError):
             self._send_error(msg, f"Failed to send the request to the playbook\n{traceback.format_exc()}")
 
     def _send_disconnect(
-- 
2.43.0


From b3fda46f4d6618e2e38abca50d55c937881d393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 15/37] fix: a disconnect could close the connection before the
 playbook had read it

---
 src/ansibug/_debug_adapter.py | 6 ++++++
 src/ansibug/_mp_queue.py      | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 089f882..cc9fc6d 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -33,6 +33,9 @@ from ._tls import create_client_tls_context
 
 log = logging.getLogger(__name__)
 
+# The time, in seconds, the debuggee has to react to a disconnect request.
+DISCONNECT_TIMEOUT = 5.0
+
 
 @dataclasses.dataclass(frozen=True)
 class AttachArguments:
@@ -430,6 +433,9 @@ class DAServer:
             # The debuggee might have been disconnected during the send.
             pass
 
+        # The debuggee closes the connection once it has processed the request,
+        # closing it first can have it miss the request.
+        debuggee.join(DISCONNECT_TIMEOUT)
         debuggee.stop()
 
         # No response is sent back to the client, is it done as part of the
diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 9228f4b..368e9e0 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -93,6 +93,14 @@ class MPQueue:
         )
         self._recv_thread.start()
 
+    def join(
+        self,
+        timeout: float,
+    ) -> None:
+        """Waits until the peer has closed the connection."""
+        if self._recv_thread:
+            self._recv_thread.join(timeout)
+
     def stop(self) -> None:
         self._cancel_token.cancel()
         if self._recv_thread:
-- 
2.43.0


From 6d2c36ffce4843b51818f251738c71c0a0d01f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 16/37] fix: a failed runInTerminal request or a playbook that
 ends at once crashed the adapter

---
 src/ansibug/_debug_adapter.py | 39 ++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index cc9fc6d..c2cb4f8 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -441,6 +441,23 @@ class DAServer:
         # No response is sent back to the client, is it done as part of the
         # shutdown to ensure it's sent before the TerminatedEvent.
 
+    def _send_config(
+        self,
+        debuggee: MPQueue,
+        path_mappings: list[PathMapping],
+    ) -> None:
+        try:
+            debuggee.send(
+                dap.OutputEvent(
+                    category=DebugConfiguration.OUTPUT_CATEGORY,
+                    output="",
+                    data=DebugConfiguration(path_mappings=path_mappings),
+                )
+            )
+        except OSError:
+            # The playbook has ended already, the client is told by stop().
+            log.exception("Failed to send the configuration to the debuggee")
+
     @functools.singledispatchmethod
     def _process_msg(self, msg: dap.ProtocolMessage) -> None:
         # This should never happen.
@@ -509,13 +526,7 @@ class DAServer:
 
         self._debuggee.start(timeout=attach_args.connect_timeout)
         self.send_to_client(dap.AttachResponse(request_seq=msg.seq))
-        self._debuggee.send(
-            dap.OutputEvent(
-                category=DebugConfiguration.OUTPUT_CATEGORY,
-                output="",
-                data=DebugConfiguration(path_mappings=attach_args.path_mappings),
-            )
-        )
+        self._send_config(self._debuggee, attach_args.path_mappings)
 
     @_process_msg.register
     def _(self, msg: dap.LaunchRequest) -> None:
@@ -633,10 +644,10 @@ rm -f "$0"
             self._launch_queue = None
 
             self.send_to_client(dap.LaunchResponse(request_seq=details.request.seq))
-            details.debuggee.send(
-                dap.OutputEvent(
-                    category=DebugConfiguration.OUTPUT_CATEGORY,
-                    output="",
-                    data=DebugConfiguration(path_mappings=details.arguments.path_mappings),
-                )
-            )
+            self._send_config(details.debuggee, details.arguments.path_mappings)
+
+    @_process_msg.register
+    def _(self, msg: dap.ErrorResponse) -> None:
+        # The only request sent to the client is the one to launch the playbook.
+        self._run_in_response_data.pop(msg.request_seq)
+        raise RuntimeError(f"The client failed to launch the playbook: {msg.message}")
-- 
2.43.0


From 5dc7b599524270cb103250af208fd54adcf303ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 17/37] fix: the launch script stayed behind when it was never
 started

---
 src/ansibug/_debug_adapter.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index c2cb4f8..a2129b5 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -255,6 +255,7 @@ class DAServer:
         self._proto = DAProtocol(self)
         self._debuggee: MPQueue | None = None
         self._launch_queue: MPQueue | None = None
+        self._launch_script: pathlib.Path | None = None
         self._incoming_requests: dict[int, dap.Request] = {}
         self._run_in_response_data: dict[int, _RunInTerminalDetails] = {}
         self._temp_dir = temp_dir
@@ -365,7 +366,15 @@ class DAServer:
             self._launch_queue.stop()
             self._launch_queue = None
 
-        self._send_terminated()
+        if self._launch_script:
+            # Normally done by the script but it might not have been started.
+            self._launch_script.unlink(missing_ok=True)
+            self._launch_script = None
+
+        try:
+            self._send_terminated()
+        except OSError:
+            log.exception("Failed to send the terminated event, the client is gone")
 
     def send_to_client(
         self,
@@ -594,6 +603,7 @@ rm -f "$0"
 
         # Default permissions are 0o600, we need the executable bit.
         launch_fd, launch_file = tempfile.mkstemp(prefix="ansibug-launch-", dir=self._temp_dir)
+        self._launch_script = pathlib.Path(launch_file)
         os.fchmod(launch_fd, 0o700)
         with os.fdopen(launch_fd, mode="w") as launch_writer:
             launch_writer.write(launch_script)
-- 
2.43.0


From 90fe00cc55291757afe2825a1610b7371749a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 18/37] fix: the playbook was not released when its debug
 adapter could not reach the client

---
 src/ansibug/_debug_adapter.py | 23 +++++++++++++----------
 src/ansibug/_mp_queue.py      |  2 ++
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index a2129b5..b0d17a5 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -347,16 +347,19 @@ class DAServer:
         else:
             error = "The playbook is not or no longer connected"
 
-        with self._client_lock:
-            if from_debuggee:
-                self._debuggee_closed = True
-
-            # There is nothing left that would answer the outstanding requests.
-            for req in list(self._incoming_requests.values()):
-                if isinstance(req, dap.DisconnectRequest):
-                    self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))
-                else:
-                    self._send_error(req, error)
+        try:
+            with self._client_lock:
+                if from_debuggee:
+                    self._debuggee_closed = True
+
+                # There is nothing left that would answer the outstanding requests.
+                for req in list(self._incoming_requests.values()):
+                    if isinstance(req, dap.DisconnectRequest):
+                        self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))
+                    else:
+                        self._send_error(req, error)
+        except OSError:
+            log.exception("Failed to answer the outstanding requests, the client is gone")
 
         if not from_debuggee and self._debuggee:
             self._debuggee.stop()
diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 368e9e0..1627b30 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -128,6 +128,8 @@ class MPQueue:
             self._proto.connection_closed(None)
 
         except Exception as e:
+            # Nothing is received anymore, the peer must not wait for us.
+            self._socket.shutdown(socket.SHUT_RDWR)
             self._proto.connection_closed(e)
 
         else:
-- 
2.43.0


From 673eb60a1d3d2b0d1539d7e768a8fc6b1b87dd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 19/37] fix: a playbook that ended with an error or was
 interrupted kept the process and its session

---
 src/ansibug/_debuggee.py | 6 ++++++
 src/ansibug/_mp_queue.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 465b665..f15568c 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -3,6 +3,7 @@
 
 from __future__ import annotations
 
+import atexit
 import collections.abc
 import contextlib
 import dataclasses
@@ -450,9 +451,14 @@ class AnsibleDebugger(metaclass=Singleton):
             target=self._send_task,
             args=(mp_queue,),
             name="ansibug-debugger",
+            daemon=True,
         )
         self._send_thread.start()
 
+        # Ansible doesn't tell the callback plugins about the end when it fails
+        # with an error or is interrupted.
+        atexit.register(self.shutdown)
+
         return addr
 
     def shutdown(
diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 1627b30..1a4a337 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -90,6 +90,7 @@ class MPQueue:
         self._recv_thread = threading.Thread(
             target=self._recv_handler,
             name=f"{type(self).__name__} Recv",
+            daemon=True,
         )
         self._recv_thread.start()
 
-- 
2.43.0


From 1b4cfd091410ee961be986bcb0c9237287981dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 20/37] fix: the process information file was visible before it
 was complete

---
 src/ansibug/_debuggee.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index f15568c..8c45a8b 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -443,7 +443,16 @@ class AnsibleDebugger(metaclass=Singleton):
                 playbook_file=playbook_file,
             )
             proc_json = json.dumps(proc_info.to_json())
-            self._proc_pid_file.write_text(proc_json)
+
+            # The file must not be visible to others until it is complete.
+            tmp_file = self._proc_pid_file.with_name(f".{self._proc_pid_file.name}")
+            try:
+                tmp_file.write_text(proc_json)
+                os.replace(tmp_file, self._proc_pid_file)
+            except OSError:
+                tmp_file.unlink(missing_ok=True)
+                mp_queue.stop()
+                raise
 
         log.debug("MPQueue set on address %s", addr)
 
-- 
2.43.0


From 08d69fd1152fdf5945bfc3413bf377d52e35fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 21/37] fix: cancelling could raise, skip the other operations
 or miss a connect

---
 src/ansibug/_socket_helper.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index f369cb1..a14056d 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -306,6 +306,10 @@ class SocketCancellationToken:
             except BlockingIOError:
                 pass
 
+            # Shutting down the socket has no effect before connect is called.
+            if self._cancelled:
+                raise CancelledError()
+
             _, wd, _ = select.select([], [sock], [], timeout or None)
             if not wd:
                 raise TimeoutError("Timed out waiting for socket.connect")
@@ -364,7 +368,12 @@ class SocketCancellationToken:
 
             for cancel_id, func in self._cancel_funcs.items():
                 log.debug("Cancelling function with id %d", cancel_id)
-                func()
+                try:
+                    func()
+                except OSError:
+                    # The socket isn't connected yet or anymore, the others
+                    # still need to be cancelled.
+                    log.debug("Failed to cancel function with id %d", cancel_id, exc_info=True)
 
             self._cancel_funcs = {}
 
-- 
2.43.0


From ce292b1d0c2d49fcc99b6c9fe6874f27b504d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 22/37] fix: a request that isn't supported, like pause,
 crashed the debug adapter

---
 src/ansibug/_debug_adapter.py | 13 ++++++++++++-
 src/ansibug/dap/__init__.py   |  3 ++-
 src/ansibug/dap/_adapter.py   | 29 +++++++++++++++++++++++------
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index b0d17a5..3d79152 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -300,7 +300,7 @@ class DAServer:
                 log.debug("STDIN: %s", data.decode(errors="replace"))
             adapter.receive_data(data)
 
-            while msg := adapter.next_message():
+            while msg := self._next_message():
                 # Trace each request from the client so we can return an
                 # ErrorMessage if there was a critical failure.
                 if isinstance(msg, dap.Request):
@@ -400,6 +400,17 @@ class DAServer:
 
         return req_no
 
+    def _next_message(self) -> dap.ProtocolMessage | None:
+        while True:
+            try:
+                return self._adapter.next_message()
+            except dap.InvalidRequestError as e:
+                # Not every request a client can send is supported, the session
+                # continues without it.
+                with self._client_lock:
+                    self._incoming_requests[e.request.seq] = e.request
+                self._send_error(e.request, traceback.format_exc())
+
     def _send_terminated(self) -> None:
         with self._client_lock:
             if not self._terminated_sent:
diff --git a/src/ansibug/dap/__init__.py b/src/ansibug/dap/__init__.py
index 9305df9..df08c01 100644
--- a/src/ansibug/dap/__init__.py
+++ b/src/ansibug/dap/__init__.py
@@ -1,7 +1,7 @@
 # Copyright (c) 2022 Jordan Borean
 # GNU General Public License v3.0+ (see COPYING or https://www.gnu.org/licenses/gpl-3.0.txt)
 
-from ._adapter import DebugAdapterConnection
+from ._adapter import DebugAdapterConnection, InvalidRequestError
 from ._events import (
     BreakpointEvent,
     ExitedEvent,
@@ -116,6 +116,7 @@ __all__ = [
     "InitializedEvent",
     "InitializeRequest",
     "InitializeResponse",
+    "InvalidRequestError",
     "LaunchRequest",
     "LaunchResponse",
     "Message",
diff --git a/src/ansibug/dap/_adapter.py b/src/ansibug/dap/_adapter.py
index 6ffcb83..422a3c3 100644
--- a/src/ansibug/dap/_adapter.py
+++ b/src/ansibug/dap/_adapter.py
@@ -5,7 +5,15 @@ from __future__ import annotations
 
 import json
 
-from ._messages import DAPEncoder, ProtocolMessage
+from ._messages import DAPEncoder, MessageType, ProtocolMessage, Request
+
+
+class InvalidRequestError(ValueError):
+    """A request that isn't known or has invalid arguments."""
+
+    def __init__(self, message: str, request: Request) -> None:
+        super().__init__(message)
+        self.request = request
 
 
 class DebugAdapterConnection:
@@ -66,12 +74,21 @@ class DebugAdapterConnection:
         self._in_buffer = self._in_buffer[header_idx + length :]
 
         msg_data = json.loads(raw_msg.decode())
-        msg = ProtocolMessage.unpack(msg_data)
+        seq = msg_data["seq"]
         expected_seq_no_in = self._seq_no_in
-        if expected_seq_no_in != msg.seq:
-            raise ValueError(f"Expected seq {expected_seq_no_in} but received {msg.seq}")
-
-        return msg
+        if expected_seq_no_in != seq:
+            raise ValueError(f"Expected seq {expected_seq_no_in} but received {seq}")
+
+        try:
+            return ProtocolMessage.unpack(msg_data)
+        except Exception as e:
+            if msg_data["type"] != MessageType.REQUEST.value:
+                raise
+
+            request = Request()
+            request.seq = seq
+            request.command = msg_data["command"]
+            raise InvalidRequestError(str(e), request) from e
 
     def queue_msg(
         self,
-- 
2.43.0


From e0b72985ad18d086ca71a841f5e551803dce2e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 23/37] fix: breakpoints in handlers of roles imported by
 included tasks were never hit

A role that is imported in a file that is included at runtime, or in an
included role, adds its handlers to the play at that time but these were
never registered as breakpoint locations.
---
 .../ansibug/dap/plugins/strategy/debug.py            | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index d938527..c5ca3ff 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -32,6 +32,7 @@ from ansible.inventory.host import Host
 from ansible.parsing.dataloader import DataLoader
 from ansible.playbook.block import Block
 from ansible.playbook.conditional import Conditional
+from ansible.playbook.included_file import IncludedFile
 from ansible.playbook.play_context import PlayContext
 from ansible.playbook.task import Task
 from ansible.plugins.strategy.linear import StrategyModule as LinearStrategy
@@ -558,6 +559,10 @@ class AnsibleDebugState(DebugState):
                 register_block_breakpoints(self._debugger, task_handlers)
                 register_block_breakpoints(self._debugger, role_handlers)
 
+                # A role imported by the included one adds its handlers to the
+                # play when the role is included.
+                register_block_breakpoints(self._debugger, task.play.handlers)
+
         sfid = self._debugger.next_stackframe_id()
 
         sf = self.stackframes[sfid] = AnsibleStackFrame(
@@ -1132,14 +1137,19 @@ class StrategyModule(LinearStrategy):
 
     def _load_included_file(
         self,
+        included_file: IncludedFile,
+        iterator: PlayIterator,
         *args: t.Any,
         **kwargs: t.Any,
     ) -> list[Block]:
-        included_blocks = super()._load_included_file(*args, **kwargs)
+        included_blocks = super()._load_included_file(included_file, iterator, *args, **kwargs)
 
         # Need to register these blocks as valid breakpoints and update the client bps
         register_block_breakpoints(self._debug_state._debugger, included_blocks)
 
+        # A role imported by the included tasks adds its handlers to the play.
+        register_block_breakpoints(self._debug_state._debugger, iterator._play.handlers)
+
         return included_blocks
 
     def _queue_task(
-- 
2.43.0


From efcc56ac425dfc978a2487c0611cad56e9a6913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 24/37] fix: flushing handlers in an include dropped it from
 the stack

The handlers are no children of the include that flushes them. It was
removed from the stack and the remaining tasks of the include had a stack
without it.
---
 .../ansibug/dap/plugins/strategy/debug.py                 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index c5ca3ff..15fd08b 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -32,6 +32,7 @@ from ansible.inventory.host import Host
 from ansible.parsing.dataloader import DataLoader
 from ansible.playbook.block import Block
 from ansible.playbook.conditional import Conditional
+from ansible.playbook.handler import Handler
 from ansible.playbook.included_file import IncludedFile
 from ansible.playbook.play_context import PlayContext
 from ansible.playbook.task import Task
@@ -528,7 +529,8 @@ class AnsibleDebugState(DebugState):
             thread = self._add_thread(host)
 
         # Only the includes this task comes from stay on the stack, any other
-        # include that is left has ended.
+        # include that is left has ended. A handler runs on top of the includes
+        # its flush_handlers task comes from.
         parent_uuids = set()
         parent = task._parent
         while parent:
@@ -539,7 +541,9 @@ class AnsibleDebugState(DebugState):
         while thread.stack_frames:
             last_frame_id = thread.stack_frames[0]
             last_frame = self.stackframes[last_frame_id]
-            if last_frame.task._uuid in parent_uuids:
+            if last_frame.task._uuid in parent_uuids or (
+                isinstance(task, Handler) and not isinstance(last_frame.task, Handler)
+            ):
                 break
 
             thread.stack_frames.pop(0)
-- 
2.43.0


From c7632140f268ec8481fdee48c0ac997b0cdea0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 25/37] fix: the response to the request that released the
 playbook could be lost

The playbook could end and close the connection before the response was
queued, for example to the last continue request.
---
 src/ansibug/_debuggee.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 8c45a8b..31d9541 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -122,7 +122,8 @@ class DAProtocol(MPProtocol):
     ) -> None:
         log.info("Processing msg %r", msg)
         try:
-            self._debugger.process_message(msg)
+            with self._debugger.process_lock:
+                self._debugger.process_message(msg)
         except Exception:
             log.exception("Exception while processing msg seq %d", msg.seq)
 
@@ -235,6 +236,8 @@ class AnsibleDebugger(metaclass=Singleton):
         self._proc_pid_file = get_pid_info_path(os.getpid())
         self._proto = DAProtocol(self)
         self._send_queue: queue.Queue[dap.ProtocolMessage | None] = queue.Queue()
+        # Held while a message is processed
+        self.process_lock = threading.Lock()
         self._send_thread: threading.Thread | None = None
         self._strategy_connected = threading.Condition()
         self._strategy: DebugState | None = None
@@ -493,7 +496,10 @@ class AnsibleDebugger(metaclass=Singleton):
             if not self._adapter_connected:
                 self._cancel_token.cancel()
 
-            self.queue_msg(None)
+            # A request being processed, like the one that released Ansible, is
+            # answered before.
+            with self.process_lock:
+                self.queue_msg(None)
             self._send_thread.join()
             self._send_thread = None
 
-- 
2.43.0


From c20cf4ff2d2bc2cd6d63648098687caa4d3c9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 26/37] fix: references of threads that exited were answered
 and the connection closed while it was set up

Refreshing the inventory exits all threads, the frames and variables of
what they were running stayed behind. A playbook that ended while a
debugger attached could close the connection after some of the events.
---
 src/ansibug/_debuggee.py                                 | 9 ++++++---
 .../ansibug/dap/plugins/strategy/debug.py                | 9 ++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 31d9541..656ffcc 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -232,6 +232,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self._cancel_token = SocketCancellationToken()
         self._configuration_done = threading.Event()
         self._adapter_connected = False
+        self._adapter_lock = threading.Lock()
         self._debug_config: DebugConfiguration = DebugConfiguration()
         self._proc_pid_file = get_pid_info_path(os.getpid())
         self._proto = DAProtocol(self)
@@ -493,8 +494,9 @@ class AnsibleDebugger(metaclass=Singleton):
             # before trying to join the thread. If we are connected we want to
             # add None to the queue for the thread to exit gracefully once all
             # messages have been sent.
-            if not self._adapter_connected:
-                self._cancel_token.cancel()
+            with self._adapter_lock:
+                if not self._adapter_connected:
+                    self._cancel_token.cancel()
 
             # A request being processed, like the one that released Ansible, is
             # answered before.
@@ -956,7 +958,8 @@ class AnsibleDebugger(metaclass=Singleton):
         try:
             mp_queue.start()
             log.debug("Debuggee socket is connected and ready for use.")
-            self._adapter_connected = True
+            with self._adapter_lock:
+                self._adapter_connected = True
 
             while msg := self._send_queue.get():
                 log.info("Sending to debug adapter %r", msg)
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 15fd08b..c82d1f4 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -686,7 +686,14 @@ class AnsibleDebugState(DebugState):
                 continue
 
             with self._waiting_condition:
-                del self.threads[tid]
+                thread = self.threads.pop(tid)
+
+                # What was still running, like refresh_inventory or an include
+                # it is in, isn't there anymore either.
+                for sfid in thread.stack_frames:
+                    sf = self.stackframes.pop(sfid)
+                    for variable_id in sf.variables:
+                        self.variables.pop(variable_id, None)
 
             self._debugger.queue_msg(
                 ansibug.dap.ThreadEvent(
-- 
2.43.0


From b1ce9f34dc12a18271dadb0d35f2f770499eba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 27/37] fix: breakpoints in an included role were not hit when
 its role dependency refreshed the inventory

---
 .../ansibug/dap/plugins/strategy/debug.py     | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index c82d1f4..44df54c 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -531,13 +531,15 @@ class AnsibleDebugState(DebugState):
         # Only the includes this task comes from stay on the stack, any other
         # include that is left has ended. A handler runs on top of the includes
         # its flush_handlers task comes from.
-        parent_uuids = set()
+        parent_tasks: list[Task] = []
         parent = task._parent
         while parent:
             if isinstance(parent, Task):
-                parent_uuids.add(parent._uuid)
+                parent_tasks.append(parent)
             parent = parent._parent
 
+        parent_uuids = {p._uuid for p in parent_tasks}
+
         while thread.stack_frames:
             last_frame_id = thread.stack_frames[0]
             last_frame = self.stackframes[last_frame_id]
@@ -551,21 +553,20 @@ class AnsibleDebugState(DebugState):
             for variable_id in last_frame.variables:
                 del self.variables[variable_id]
 
-        if thread.stack_frames:
-            # If this is the first task in a role included by include_role we
-            # need to scan the tasks and handlers to validate the breakpoints
-            if (
-                last_frame.task.action in C._ACTION_INCLUDE_ROLE
-                and task._role
-            ):
-                task_handlers = task._role.get_task_blocks()
-                role_handlers = task._role.get_handler_blocks(task.play)
-                register_block_breakpoints(self._debugger, task_handlers)
-                register_block_breakpoints(self._debugger, role_handlers)
-
-                # A role imported by the included one adds its handlers to the
-                # play when the role is included.
-                register_block_breakpoints(self._debugger, task.play.handlers)
+        # If this is the first task in a role included by include_role we need
+        # to scan the tasks and handlers to validate the breakpoints. The thread
+        # may have no stack frame for it, the threads are restarted by
+        # refresh_inventory.
+        include = next((p for p in parent_tasks if not getattr(p, "statically_loaded", False)), None)
+        if include and include.action in C._ACTION_INCLUDE_ROLE and task._role:
+            task_handlers = task._role.get_task_blocks()
+            role_handlers = task._role.get_handler_blocks(task.play)
+            register_block_breakpoints(self._debugger, task_handlers)
+            register_block_breakpoints(self._debugger, role_handlers)
+
+            # A role imported by the included one adds its handlers to the play
+            # when the role is included.
+            register_block_breakpoints(self._debugger, task.play.handlers)
 
         sfid = self._debugger.next_stackframe_id()
 
-- 
2.43.0


From c2e939c51c8cd67d0e87c8d611553c42590ea091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 28/37] fix: the process information stayed behind when the
 playbook was interrupted right after it was written

---
 src/ansibug/_debuggee.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 656ffcc..65c4ceb 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -431,6 +431,10 @@ class AnsibleDebugger(metaclass=Singleton):
             "cancel_token": self._cancel_token,
         }
 
+        # Ansible doesn't tell the callback plugins about the end when it fails
+        # with an error or is interrupted.
+        atexit.register(self.shutdown)
+
         mp_queue: MPQueue
         if mode == "connect":
             mp_queue = ClientMPQueue(**queue_kwargs)
@@ -468,10 +472,6 @@ class AnsibleDebugger(metaclass=Singleton):
         )
         self._send_thread.start()
 
-        # Ansible doesn't tell the callback plugins about the end when it fails
-        # with an error or is interrupted.
-        atexit.register(self.shutdown)
-
         return addr
 
     def shutdown(
-- 
2.43.0


From fd25ce01570b90945f9091770595a63afbce26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:37 +0000
Subject: [PATCH 29/37] fix: a breakpoint condition that fails with any error
 is not met

A condition like '1 // 0 == 1' raises something that isn't an AnsibleError
which aborted the playbook.
---
 .../ansibug/dap/plugins/strategy/debug.py              | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 44df54c..994524b 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -24,7 +24,7 @@ import traceback
 import typing as t
 
 from ansible import constants as C
-from ansible.errors import AnsibleError, AnsibleUndefinedVariable
+from ansible.errors import AnsibleUndefinedVariable
 from ansible.executor.play_iterator import PlayIterator
 from ansible.executor.task_queue_manager import TaskQueueManager
 from ansible.executor.task_result import TaskResult
@@ -46,7 +46,6 @@ from ansible.vars.manager import VariableManager
 # minimum supported version.
 POST_DATATAGGING = False
 try:
-    from ansible.errors import AnsibleBrokenConditionalError
     from ansible.template import trust_as_template
     from ansible.utils.display import _DeferredWarningContext
 
@@ -597,7 +596,8 @@ class AnsibleDebugState(DebugState):
 
                 try:
                     return templar.evaluate_conditional(template)
-                except (AnsibleBrokenConditionalError, AnsibleUndefinedVariable):
+                except Exception:
+                    log.debug("Failed to evaluate the condition '%s'", condition, exc_info=True)
                     return False
 
         else:
@@ -608,7 +608,9 @@ class AnsibleDebugState(DebugState):
 
                 try:
                     return cond.evaluate_conditional(templar, templar.available_variables)
-                except AnsibleError:
+                except Exception:
+                    # Not only an AnsibleError, like a division by zero.
+                    log.debug("Failed to evaluate the condition '%s'", condition, exc_info=True)
                     return False
 
         with self._waiting_condition:
-- 
2.43.0


From 4a0dc7bd1edb077a66d36e9798fb50617465b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 30/37] fix: Report a cancellation when the socket is closed
 before it is selected

---
 src/ansibug/_socket_helper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index a14056d..fa1203c 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -280,8 +280,9 @@ class SocketCancellationToken:
 
                 return rd[0].accept()
 
-            except OSError:
-                # On macOS, the socket fd is closed on cancel
+            except (OSError, ValueError):
+                # On macOS, the socket fd is closed on cancel. The same is done
+                # by stop(), select fails with a ValueError on such a socket.
                 if self._cancelled:
                     raise CancelledError()
                 else:
-- 
2.43.0


From 99f9dde6c2934fb104c2bf7387af8ee6c3a25fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 31/37] fix: Do not fail to stop a queue that is just being
 started

---
 src/ansibug/_mp_queue.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 1a4a337..d153533 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -87,12 +87,15 @@ class MPQueue:
         self,
         timeout: float = 0,
     ) -> None:
-        self._recv_thread = threading.Thread(
+        recv_thread = threading.Thread(
             target=self._recv_handler,
             name=f"{type(self).__name__} Recv",
             daemon=True,
         )
-        self._recv_thread.start()
+        # It can be stopped by another thread, one that isn't started yet cannot
+        # be joined.
+        recv_thread.start()
+        self._recv_thread = recv_thread
 
     def join(
         self,
-- 
2.43.0


From ec9a3bfe2ea758ed84db43f3252383a13be651a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:21 +0000
Subject: [PATCH 32/37] fix: Report a cancellation when the socket is closed
 while it is set up

---
 src/ansibug/_mp_queue.py      | 48 ++++++++++++++++++++---------------
 src/ansibug/_socket_helper.py |  4 +++
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index d153533..3a20001 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -198,26 +198,34 @@ class ClientMPQueue(MPQueue):
         else:
             raise error
 
-        self._socket.settimeout(timeout)
-        if self._ssl_context:
-            self._socket.wrap_tls(
-                self._ssl_context,
-                server_side=False,
-                server_hostname=ssl_hostname,
-                cancel_token=self._cancel_token,
-            )
-            # TLS 1.3 won't validate their cert was accepted until its first
-            # read. This ensures the connection is validated before it is
-            # going to be used.
-            ack = self._socket.recv(1, self._cancel_token)
-        else:
-            # Ensures that the server is actually connected to us and we aren't
-            # in the backlog waiting for an accept().
-            ack = self._socket.recv(1, self._cancel_token)
-
-        if not ack:
-            raise ConnectionError("The connection was closed before the server accepted it")
-        self._socket.settimeout(0)
+        try:
+            self._socket.settimeout(timeout)
+            if self._ssl_context:
+                self._socket.wrap_tls(
+                    self._ssl_context,
+                    server_side=False,
+                    server_hostname=ssl_hostname,
+                    cancel_token=self._cancel_token,
+                )
+                # TLS 1.3 won't validate their cert was accepted until its first
+                # read. This ensures the connection is validated before it is
+                # going to be used.
+                ack = self._socket.recv(1, self._cancel_token)
+            else:
+                # Ensures that the server is actually connected to us and we aren't
+                # in the backlog waiting for an accept().
+                ack = self._socket.recv(1, self._cancel_token)
+
+            if not ack:
+                raise ConnectionError("The connection was closed before the server accepted it")
+            self._socket.settimeout(0)
+
+        except (OSError, ValueError):
+            # The socket can be closed by stop() at any time.
+            if self._cancel_token.cancelled:
+                raise CancelledError()
+            else:
+                raise
 
         super().start()
 
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index fa1203c..29b1917 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -247,6 +247,10 @@ class SocketCancellationToken:
         self._cancelled = False
         self._lock = threading.Lock()
 
+    @property
+    def cancelled(self) -> bool:
+        return self._cancelled
+
     def accept(
         self,
         sock: socket.socket,
-- 
2.43.0


From 1f8892eff3a4ce4f025a9188882107c517936086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 33/37] fix: Make a change of a nested value take effect and
 only there

---
 .../ansibug/dap/plugins/strategy/debug.py     | 86 +++++++++++--------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 994524b..52154d5 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -14,6 +14,7 @@ author: Jordan Borean (@jborean93)
 """
 
 import collections.abc
+import copy
 import dataclasses
 import enum
 import inspect
@@ -329,15 +330,25 @@ class AnsibleStackFrame:
 
 
 class AnsibleVariable:
-    """Structure needed for an AnsibleVariable implementation."""
+    """Structure needed for an AnsibleVariable implementation.
+
+    A variable that is nested in another one has that as its parent and its
+    name in there as the index.
+    """
 
     def __init__(
         self,
         id: int,
         stackframe: AnsibleStackFrame,
+        value: t.Any,
+        parent: AnsibleVariable | None = None,
+        index: str = "",
     ) -> None:
         self.id = id
         self.stackframe = stackframe
+        self._ds = value
+        self._parent = parent
+        self._index = index
 
     @property
     def named_variables(self) -> int:
@@ -350,6 +361,19 @@ class AnsibleVariable:
     def get(self) -> collections.abc.Iterable[tuple[str, t.Any]]:
         raise NotImplementedError()  # pragma: nocover
 
+    def get_key(
+        self,
+        index: str,
+    ) -> t.Any:
+        raise NotImplementedError()  # pragma: nocover
+
+    def get_value(self) -> t.Any:
+        """Gets the current value, a parent might have changed since."""
+        if self._parent:
+            return self._parent.get_value()[self._parent.get_key(self._index)]
+
+        return self._ds
+
     def remove(
         self,
         index: str,
@@ -361,21 +385,21 @@ class AnsibleVariable:
         index: str,
         value: t.Any,
     ) -> None:
-        raise NotImplementedError()  # pragma: nocover
+        if self._parent:
+            # A nested value is either shared with other tasks and hosts or is
+            # just the templated copy. Change a copy and replace it in the
+            # variable it is part of.
+            self._ds = copy.copy(self.get_value())
+
+        self._ds[self.get_key(index)] = value
+
+        if self._parent:
+            self._parent.set(self._index, self._ds)
 
 
 class AnsibleListVariable(AnsibleVariable):
     """AnsibleVariable with a list datastore."""
 
-    def __init__(
-        self,
-        id: int,
-        stackframe: AnsibleStackFrame,
-        value: collections.abc.Sequence[t.Any],
-    ) -> None:
-        super().__init__(id, stackframe)
-        self._ds = value
-
     @property
     def indexed_variables(self) -> int:
         return len(self._ds)
@@ -383,26 +407,16 @@ class AnsibleListVariable(AnsibleVariable):
     def get(self) -> collections.abc.Iterable[tuple[str, t.Any]]:
         return iter((str(k), v) for k, v in enumerate(self._ds))
 
-    def set(
+    def get_key(
         self,
         index: str,
-        value: t.Any,
-    ) -> None:
-        self._ds[int(index)] = value  # type: ignore[index]
+    ) -> t.Any:
+        return int(index)
 
 
 class AnsibleDictVariable(AnsibleVariable):
     """AnsibleVariable with a dict datastore."""
 
-    def __init__(
-        self,
-        id: int,
-        stackframe: AnsibleStackFrame,
-        value: collections.abc.Mapping[t.Any, t.Any],
-    ) -> None:
-        super().__init__(id, stackframe)
-        self._ds = value
-
     @property
     def named_variables(self) -> int:
         return len(self._ds)
@@ -410,19 +424,19 @@ class AnsibleDictVariable(AnsibleVariable):
     def get(self) -> collections.abc.Iterable[tuple[str, t.Any]]:
         return iter((str(k), v) for k, v in self._ds.items())
 
-    def remove(
+    def get_key(
         self,
         index: str,
-    ) -> None:
-        if index in self._ds:
-            del self._ds[index]  # type: ignore[attr-defined]
+    ) -> t.Any:
+        # The keys are only known to the client as strings.
+        return next((k for k in self._ds if str(k) == index), index)
 
-    def set(
+    def remove(
         self,
         index: str,
-        value: t.Any,
     ) -> None:
-        self._ds[index] = value  # type: ignore[index]
+        if index in self._ds:
+            del self._ds[index]
 
 
 class AnsibleDictWithRawStoreVariable(AnsibleDictVariable):
@@ -925,7 +939,7 @@ class AnsibleDebugState(DebugState):
         for name, value in variable.get():
             child_var: AnsibleVariable | None = None
             if isinstance(value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(value, str):
-                child_var = self._add_variable(variable.stackframe, value)
+                child_var = self._add_variable(variable.stackframe, value, parent=variable, index=name)
             elif dataclasses.is_dataclass(value) and not isinstance(value, type):
                 child_var = self._add_variable(variable.stackframe, dataclasses.asdict(value))
 
@@ -969,7 +983,7 @@ class AnsibleDebugState(DebugState):
         if isinstance(new_value, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(
             new_value, str
         ):
-            new_container = self._add_variable(variable.stackframe, new_value)
+            new_container = self._add_variable(variable.stackframe, new_value, parent=variable, index=request.name)
 
         return ansibug.dap.SetVariableResponse(
             request_seq=request.seq,
@@ -1025,6 +1039,8 @@ class AnsibleDebugState(DebugState):
         stackframe: AnsibleStackFrame,
         value: collections.abc.Mapping[t.Any, t.Any] | collections.abc.Sequence[t.Any],
         var_factory: t.Callable[[int], AnsibleVariable] | None = None,
+        parent: AnsibleVariable | None = None,
+        index: str = "",
     ) -> AnsibleVariable:
         var_id = self._debugger.next_variable_id()
 
@@ -1032,10 +1048,10 @@ class AnsibleDebugState(DebugState):
             var = var_factory(var_id)
 
         elif isinstance(value, collections.abc.Mapping):
-            var = AnsibleDictVariable(var_id, stackframe, value)
+            var = AnsibleDictVariable(var_id, stackframe, value, parent, index)
 
         else:
-            var = AnsibleListVariable(var_id, stackframe, value)
+            var = AnsibleListVariable(var_id, stackframe, value, parent, index)
 
         self.variables[var_id] = var
         stackframe.variables.append(var_id)
-- 
2.43.0


From 915721a7ec90ee70cae03cf11366252a8e0f2ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 34/37] fix: Do not leak changed module options to other hosts

---
 .../ansibug/dap/plugins/strategy/debug.py     | 38 +++++++++++++++----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 52154d5..63bca9f 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -14,6 +14,7 @@ author: Jordan Borean (@jborean93)
 """
 
 import collections.abc
+import contextlib
 import copy
 import dataclasses
 import enum
@@ -303,6 +304,7 @@ class AnsibleStackFrame:
         self.id = id
         self.task = task
         self.task_vars = task_vars
+        self.task_args: dict[str, t.Any] = task.args
         self.scopes: list[int] = []
         self.variables: list[int] = []
         self.variables_options_id = 0
@@ -748,15 +750,20 @@ class AnsibleDebugState(DebugState):
     ) -> ansibug.dap.ScopesResponse:
         sf = self.stackframes[request.frame_id]
 
+        # A stopped host has its own options, otherwise they are the ones of
+        # the task as it is about to run on the next host.
+        stopped = any(sf.id in t.stack_frames and t.state == ThreadState.WAIT for t in list(self.threads.values()))
+        raw_args = sf.task_args if stopped else sf.task.args
+
         # This is a very basic templating of the args and doesn't handle loops.
         templar = Templar(loader=self._loader, variables=sf.task_vars)
-        task_args = templar.template(sf.task.args, fail_on_undefined=False)
+        task_args = templar.template(raw_args, fail_on_undefined=False)
         module_opts = self._add_variable(
             sf,
             task_args,
             # Any changes to our templated var also needs to reflect back onto
             # the raw datastore so use a custom variable class.
-            var_factory=lambda i: AnsibleDictWithRawStoreVariable(i, sf, task_args, sf.task.args),
+            var_factory=lambda i: AnsibleDictWithRawStoreVariable(i, sf, task_args, raw_args),
         )
         sf.variables_options_id = module_opts.id
 
@@ -1111,6 +1118,21 @@ class AnsibleDebugState(DebugState):
         return templar.template(expression)
 
 
+@contextlib.contextmanager
+def _own_task_args(task: Task) -> collections.abc.Iterator[None]:
+    """Gives the task its own copy of the options.
+
+    The task is shared with other hosts, an option the client changes is only
+    for the host the task is about to run on.
+    """
+    original_args = task.args
+    task.args = original_args.copy()
+    try:
+        yield
+    finally:
+        task.args = original_args
+
+
 class StrategyModule(LinearStrategy):
     def __init__(
         self,
@@ -1147,10 +1169,11 @@ class StrategyModule(LinearStrategy):
         # locals.
 
         task_vars = inspect.currentframe().f_back.f_locals["task_vars"]  # type: ignore[union-attr]  # I know this is bad
-        self._debug_state.start_task(target_host, task, task_vars)
-        res = super()._execute_meta(task, play_context, iterator, target_host)
+        with _own_task_args(task):
+            self._debug_state.start_task(target_host, task, task_vars)
+            res = super()._execute_meta(task, play_context, iterator, target_host)
+            meta_action = task.args.get("_raw_params", None)
 
-        meta_action = task.args.get("_raw_params", None)
         if meta_action == "refresh_inventory":
             # refresh_inventory will update the uuid on the host object, we
             # need to mark the existing threads as exited so the next run will
@@ -1190,9 +1213,10 @@ class StrategyModule(LinearStrategy):
         play_context: PlayContext,
     ) -> None:
         """Called just as a task is about to be queue"""
-        self._debug_state.start_task(host, task, task_vars)
+        with _own_task_args(task):
+            self._debug_state.start_task(host, task, task_vars)
 
-        return super()._queue_task(host, task, task_vars, play_context)
+            return super()._queue_task(host, task, task_vars, play_context)
 
     def _process_pending_results(
         self,
-- 
2.43.0


From ed6dab882a7a644fd31c3a14a92fcc10339b9c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:55 +0000
Subject: [PATCH 35/37] fix: Notice that the terminal of a launch was closed

The launch script tells the debug adapter that it has ended but not when it
was ended by a hangup, the launch only failed after its timeout, or never.
---
 src/ansibug/_debug_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 3d79152..484a49f 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -605,7 +605,7 @@ except OSError:
 "
 }}
 
-trap cleanup EXIT INT ABRT KILL TERM
+trap cleanup EXIT HUP INT ABRT KILL TERM
 
 rm -f "$0"
 {python} {ansibug_args} "$@"
-- 
2.43.0


From 4c0e286e841c44ab67333c4ef17d1694ea995eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:22 +0000
Subject: [PATCH 36/37] fix: Make a change of a host variable that is a fact
 take effect

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 63bca9f..6393935 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -483,6 +483,10 @@ class AnsibleHostVarsVariable(AnsibleDictVariable):
         # Persisting hostvars need to be done as a host_variable.
         self._variable_manager.set_host_variable(self._host, index, value)
 
+        # A fact that was set or a registered result takes precedence over it.
+        if index in self._variable_manager._nonpersistent_fact_cache.get(self._host, {}):
+            self._variable_manager.set_nonpersistent_facts(self._host, {index: value})
+
 
 class AnsibleDebugState(DebugState):
     """Ansible Debug State.
-- 
2.43.0


From 10f8a6659f9e94a1d77fa5c1cd75abb5fc51b5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:53 +0000
Subject: [PATCH 37/37] fix: Do not leave process info behind when the debugger
 thread cannot start

---
 src/ansibug/_debuggee.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 65c4ceb..3899f93 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -464,13 +464,19 @@ class AnsibleDebugger(metaclass=Singleton):
 
         log.debug("MPQueue set on address %s", addr)
 
-        self._send_thread = threading.Thread(
+        send_thread = threading.Thread(
             target=self._send_task,
             args=(mp_queue,),
             name="ansibug-debugger",
             daemon=True,
         )
-        self._send_thread.start()
+        try:
+            send_thread.start()
+        except RuntimeError:
+            self._proc_pid_file.unlink(missing_ok=True)
+            mp_queue.stop()
+            raise
+        self._send_thread = send_thread
 
         return addr
 
-- 
2.43.0

