"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os

DA = "src/ansibug/_debug_adapter.py"
DE = "src/ansibug/_debuggee.py"
MP = "src/ansibug/_mp_queue.py"
SH = "src/ansibug/_socket_helper.py"
TLS = "src/ansibug/_tls.py"
EX = "src/ansibug/_exec_playbook.py"
MAIN = "src/ansibug/__main__.py"
AD = "src/ansibug/dap/_adapter.py"
MSG = "src/ansibug/dap/_messages.py"
ST = "src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py"
CB = "src/ansibug/ansible_collections/ansibug/dap/plugins/callback/debug.py"
BP = "src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_breakpoints.py"
RU = "src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))


STREAM = "the debug adapter's standard output, as a DAP client reads it"
JOURNAL = "the tasks Ansible starts and finishes, per host"
PROCS = "process exits, open sockets and files in the temporary directory"

prop("C01", "Every request is answered exactly once",
     "Every request a client sends before it disconnects is answered by exactly one response that names the request's sequence number and command, whatever the playbook is doing at that moment - running, stopped, between plays, ending, crashed or already gone. No response is ever sent for something that was not requested.",
     ["schedules", "histories", "fault_sequences", "crash_points"],
     "All interleavings of the adapter's, the debuggee's and Ansible's threads, all request histories, and a loss of the playbook at any point.",
     "The tests send one request at a time and wait for its answer; they never have a request in flight while the playbook ends, the connection drops or the strategy is between plays.",
     [DA, DE, MP], [("request tracking and error relay on stop", DA + " DAServer.start/stop/send_to_client"), ("dispatch with error fallback", DE + " DAProtocol.on_msg_received"), ("strategy routing", DE + " AnsibleDebugger.process_message/_get_strategy")],
     [("_incoming_requests", "requests not answered yet", DA)], [STREAM])
prop("C02", "The DAP output stream is well framed and consecutively numbered",
     "The bytes the debug adapter writes are always a sequence of complete DAP messages whose sequence numbers start at 1 and increase by one, and a message that was begun is never interleaved with another.",
     ["schedules", "histories", "fault_sequences"],
     "All interleavings of the two adapter threads that write to the client, all pipe capacities and short writes.",
     "Two threads write to the same stream; the tests only see the few interleavings the OS happens to schedule and read with a large pipe buffer.",
     [DA, AD], [("serialised output", DA + " DAServer.send_to_client"), ("sequence numbering and framing", AD + " DebugAdapterConnection.queue_msg/data_to_send")],
     [("_out_buffer", "bytes not written yet", AD)], [STREAM])
prop("C03", "Input is understood whatever the chunking and timing",
     "What the adapter does with a session depends only on the bytes the client sent, not on how they were split into reads, delayed or batched, including splits inside headers and inside multi-byte characters and with debug logging enabled.",
     ["inputs", "schedules", "configurations"],
     "All splits of the byte stream into reads, all batchings of requests, log level on or off, any text in the requests.",
     "Tests write whole frames to a pipe, so a read nearly always returns exactly one frame.",
     [DA, AD], [("incremental parsing", AD + " receive_data/next_message"), ("stdin loop", DA + " DAServer.start")], [("_in_buffer", "bytes not parsed yet", AD)], [STREAM])
prop("C04", "Debugging without changes leaves the playbook's behaviour unchanged",
     "A playbook run under the debugger, however often it is stopped, stepped and inspected, executes for every host the same tasks with the same arguments and outcomes in the same order, and exits with the same code, as it does without the debugger, as long as the client neither changes values nor ends the session with a termination.",
     ["programs", "schedules", "histories"],
     "All generated playbooks, all debug histories without modifications, all schedules, and loss of the debugger at any point.",
     "Tests check hand-written playbooks with one fixed debug script and never compare with an undebugged run.",
     [ST, CB, DE], [("strategy wrapper around linear", ST + " StrategyModule"), ("state handling", ST + " AnsibleDebugState.start_task/end_task")], [], [JOURNAL])
prop("C05", "The playbook survives the loss of its debugger",
     "When the client disconnects without termination, or the adapter or the connection dies, at any point from start-up to the end, the playbook stops at no further point, completes as it would have undebugged and its process exits.",
     ["crash_points", "schedules", "fault_sequences"],
     "Every point of a session at which the client, the adapter or the connection may disappear.",
     "Tests disconnect at one or two fixed points (stopped at a breakpoint); the dangerous points are between plays, before the configuration is done, and while messages are in flight.",
     [DE, ST, MP], [("release on disconnect", DE + " AnsibleDebugger._disconnect/shutdown"), ("thread release", ST + " AnsibleDebugState.disconnect"), ("closed connection notification", MP + " MPQueue._recv_handler")],
     [("_configuration_done", "start-up gate", DE)], [JOURNAL, PROCS])
prop("C06", "Terminating ends the playbook",
     "After a terminate request, or a disconnect that asks for termination, no further task starts once the request has taken effect beyond those already being started, and the ansible-playbook process exits in bounded time, wherever the playbook was when the request arrived.",
     ["crash_points", "schedules", "histories"],
     "Every point of a session at which the request may arrive.",
     "Tests terminate only while stopped at a breakpoint.",
     [DE, ST, DA], [("termination state", ST + " ThreadState.END / EndStrategy"), ("terminate handling", DE + " process_message(TerminateRequest/DisconnectRequest)")], [("_terminated", "termination requested", DE)], [JOURNAL, PROCS, STREAM])
prop("C07", "A finished playbook ends the session cleanly",
     "When the playbook ends by itself - successfully, with failures, aborted by an error or interrupted - the client receives every event queued before the end and then exactly one terminated event, the ansible-playbook process exits, and neither sockets, files nor processes of the session remain.",
     ["schedules", "programs", "crash_points", "fault_sequences"],
     "All ways and moments in which a playbook can end, all schedules of the threads involved.",
     "Tests cover the success path; abort paths that bypass the final statistics callback are not exercised.",
     [DE, CB, DA, MP], [("shutdown on stats", CB + " v2_playbook_on_stats"), ("drain then close", DE + " shutdown/_send_task"), ("single terminated event", DA + " DAServer.stop")], [("_terminated_sent", "terminated event sent", DA)], [STREAM, PROCS])
prop("C08", "An adapter whose client vanished exits and lets go of the playbook",
     "When the client goes away without a disconnect, closing the adapter's input, output or both at any moment, the playbook is released and runs to completion, the adapter process ends in bounded time (once its input has ended), and leaves no sockets or temporary files behind.",
     ["crash_points", "fault_sequences", "schedules"],
     "Every point of a session at which either pipe to the client may close.",
     "Tests always end with an orderly disconnect.",
     [DA, MP], [("stdin loop", DA + " DAServer.start"), ("cleanup", DA + " DAServer.stop/__exit__")], [], [PROCS, JOURNAL])
prop("C09", "Every stop is faithful",
     "A stopped event names a thread of the running play and a reason that really applies - a breakpoint that is set there with a true condition, a step that was requested on that thread, or an enabled exception filter matching the result - and from then until the client resumes that thread no task starts; the reported location is the task that starts next (or, for an exception, that just ended) on that host.",
     ["programs", "histories", "schedules"],
     "All generated playbooks and debug histories, including breakpoints changed while running.",
     "Tests look at the stop they expect, not at the absence of wrong or early ones over many histories.",
     [ST, DE], [("stop decision", ST + " AnsibleThread.should_break/should_stop_on_exception"), ("wait", ST + " AnsibleDebugState.start_task")], [], [STREAM, JOURNAL])
prop("C10", "A set breakpoint is never missed",
     "Whenever a task is about to run on a host at a location covered by a breakpoint whose setting was acknowledged, whose condition holds for that host and that was not removed, the playbook stops before the task runs on that host, in every play, loop, include, role, handler and host, unless that thread is stepping out.",
     ["programs", "histories", "schedules"],
     "All generated playbooks, breakpoints set before and during the run, conditions, and any number of hosts.",
     "Tests set a few breakpoints in fixed playbooks before the run starts.",
     [DE, ST], [("lookup", DE + " AnsibleDebugger.get_breakpoint"), ("check before queueing", ST + " start_task")], [("_breakpoints", "breakpoints set by the client", DE)], [STREAM, JOURNAL])
prop("C11", "Concurrent client requests never break a running playbook",
     "Requests that arrive while tasks are running - breakpoint and exception filter updates, thread and inspection requests, valid or not - neither raise inside Ansible nor abort, block or alter the play, and a replacement of breakpoints or filters takes effect as a whole.",
     ["schedules", "histories"],
     "All interleavings of the receive thread with Ansible's main thread.",
     "The race windows are a few bytecodes wide; tests send requests while everything is idle.",
     [DE, ST], [("shared state", DE + " _breakpoints/_breakpoint_exceptions/_source_info"), ("shared state", ST + " AnsibleDebugState.threads/stackframes/variables")], [], [STREAM, JOURNAL])
prop("C12", "Stepping follows the structure of the playbook",
     "Step over stops at the next task of the same host in the same include (never inside a deeper one), step in at the first task of an include, step out at the first task after the current include, continue at no step at all; a breakpoint or exception in between stops first except that breakpoints are ignored while stepping out.",
     ["programs", "histories", "schedules"],
     "All generated playbooks with nested includes, blocks, roles and handlers, all step histories on several hosts.",
     "Tests step through fixed short playbooks on one host.",
     [ST], [("step automaton", ST + " AnsibleThread.set_state/should_break/_break_step_*")], [("_stopped_task", "origin of the step", ST)], [STREAM, JOURNAL])
prop("C13", "Exception filters stop exactly on matching results",
     "With the matching filter enabled, each task result that is an unhandled failure, an unreachable host or a skip stops that host's thread right after the task with the result available for inspection, and no result that is ignored, rescued or of a disabled kind causes a stop.",
     ["programs", "histories", "schedules"],
     "All generated playbooks mixing failures, rescue and always sections, ignores, loops, unreachable hosts and skips; all filter sets and changes.",
     "Tests cover one failing task per filter, not failures inside rescue and always sections, handlers, loops and nested blocks.",
     [ST, DE, BP], [("filters", DE + " SetExceptionBreakpointsRequest handling"), ("decision", ST + " should_stop_on_exception")], [], [STREAM, JOURNAL])
prop("C14", "Breakpoint verification converges to the truth",
     "After any order of breakpoint requests and file loads, what the client was last told about each of its breakpoints, by response or changed event, is what the loaded files imply - verified on the task that covers the requested line, or not settable there - and no event ever concerns a breakpoint the client no longer has.",
     ["schedules", "histories", "programs"],
     "All interleavings of breakpoint requests with the loading of playbooks, includes and roles.",
     "A request racing with the load of the same file is never exercised by the tests.",
     [DE, BP], [("registration", DE + " register_path_breakpoint"), ("calculation", DE + " _calculate_breakpoint"), ("request handling", DE + " process_message(SetBreakpointsRequest)")], [("_source_info", "line table per file", DE)], [STREAM])
prop("C15", "Thread events describe the hosts of the play",
     "Each host that runs a task in a play is announced by exactly one started event with a fresh id before any stop on it, the threads response lists exactly the main thread and the live host threads under their host names, and every started thread is reported as exited once when its play or inventory generation ends.",
     ["programs", "schedules", "histories"],
     "All generated multi-play, multi-host playbooks including inventory refreshes, all schedules.",
     "Tests check ids in fixed playbooks only.",
     [ST], [("thread table", ST + " AnsibleDebugState._add_thread/exit_threads/get_threads")], [], [STREAM, JOURNAL])
prop("C16", "Inspection while stopped shows the stopped task",
     "While a thread is stopped, its stack trace is the stopped task followed by the includes that lead to it, every scope and variable reference obtained during the stop resolves to the values the task will run with (and, at an exception stop, its result), references are never reused, and a request with a stale or unknown reference is answered with an error.",
     ["programs", "histories", "schedules"],
     "All generated playbooks with nested includes and roles, all inspection histories, several hosts.",
     "Tests inspect one shallow stop; nested includes ending together are not covered.",
     [ST], [("stack frames", ST + " start_task/end_task/get_stacktrace"), ("scopes and variables", ST + " get_scopes/get_variables")], [("stack_frames", "frame stack per host", ST)], [STREAM])
prop("C17", "Changes made while stopped take effect and only there",
     "A module option or task variable, also a value nested in one, that is set or removed while stopped before a task is what that task runs with on that host, and neither another host nor a later run of the task is affected; a host variable set while stopped is in force for the later tasks of that host and of no other; and whatever was changed is reported back by later inspection and evaluation of that stop.",
     ["programs", "histories", "schedules"],
     "All generated playbooks, values, ways to make the change, and hosts.",
     "Tests set one value in one task on one host.",
     [ST, RU], [("variables", ST + " AnsibleVariable.set/remove subclasses"), ("repl", ST + " evaluate")], [], [STREAM, JOURNAL])
prop("C18", "The debug channel delivers every message intact, in order, once",
     "Between adapter and playbook every message sent is received exactly once, unchanged and in order, whatever its size, the socket buffers and the splitting of reads and writes; if the connection breaks the receiver has a prefix, and each side learns of the end exactly once.",
     ["schedules", "fault_sequences", "inputs"],
     "All message sizes, short reads and writes, delays, resets and closes at any byte.",
     "Loopback sockets in the tests deliver whole small messages and never break mid-message.",
     [MP, SH], [("length framing", MP + " MPQueue.send/_recv_handler"), ("full reads and writes", SH + " SocketHelper.recv/send")], [], ["messages handed to both ends of the channel"])
prop("C19", "Cancelling always releases a blocked socket operation",
     "Stopping a channel, from any thread and at any moment, makes every pending or later accept, connect, receive or send on it end promptly with a cancellation, never raises in the thread that cancels, and may be repeated.",
     ["schedules", "crash_points", "fault_sequences"],
     "All interleavings of cancel with the operation's entry, wait and exit, and with the peer's actions.",
     "Tests cancel after a sleep, when the operation is surely blocked.",
     [SH, MP], [("token", SH + " SocketCancellationToken.cancel/with_cancel"), ("stop", MP + " MPQueue.stop")], [("_cancel_funcs", "pending operations", SH)], ["return or exception of the blocked call and of stop()"])
prop("C20", "A launch always resolves",
     "Every launch request is answered with success if and only if the playbook connected within the requested timeout; if the launched process ends early, never starts or connects too late the client gets a failure or a terminated event within bounded time, and no script, socket or process of a failed launch stays behind.",
     ["schedules", "fault_sequences", "configurations"],
     "All delays and failures of the terminal, the script and the playbook start-up, and of the files involved.",
     "Tests launch through a cooperative terminal; early exit is covered at one point only.",
     [DA, MP, EX, MAIN], [("launch handling", DA + " _process_msg(LaunchRequest/RunInTerminalResponse)"), ("cancel socket", MP + " ServerMPQueue.start"), ("script", DA + " launch_script")], [("_launch_queue", "early exit signal", DA)], [STREAM, PROCS])
prop("C21", "An attach always resolves",
     "Every attach request is answered - with success only if a listening playbook accepted this adapter, with an error for a missing, stale, refused, busy or silent target - within a small multiple of the requested timeout, which applies to each step (every address of the target, the handshake, the acceptance) - and a failed attempt disturbs neither the target nor its current debugger.",
     ["schedules", "fault_sequences", "configurations"],
     "All targets: ready, not yet listening, already attached, gone, unresponsive; all timeouts and delays.",
     "Tests attach to a ready listener, or to nothing.",
     [DA, MP, SH, DE], [("attach handling", DA + " _process_msg(AttachRequest)"), ("acceptance byte", MP + " ClientMPQueue.start/ServerMPQueue.start")], [], [STREAM, PROCS])
prop("C22", "A bad TLS peer neither gets in nor blocks others",
     "With TLS enabled, a peer that fails, stalls or drops the handshake at any byte, speaks no TLS or lacks a required certificate never reaches the debug session and never prevents a later valid adapter from attaching or the playbook from finishing.",
     ["fault_sequences", "schedules", "configurations"],
     "All points of a handshake at which a peer may misbehave, several such peers in a row.",
     "Tests use one well-behaved peer with the wrong certificate.",
     [MP, TLS, SH], [("handshake retry", MP + " ServerMPQueue.start"), ("contexts", TLS)], [], [STREAM, PROCS, "bytes seen by the misbehaving peer"])
prop("C23", "An advertised playbook can be attached to",
     "A playbook that waits for a debugger is advertised, and a process-information file that is visible under its published name is complete, names a live process and the address it listens on, and it disappears once the process stops being attachable by ending, whichever way it ends short of a kill.",
     ["crash_points", "schedules", "fault_sequences"],
     "Every moment at which another process may look at the file, and every way of ending; disk errors while writing.",
     "Tests read the file after waiting for it to be complete.",
     [DE, DA], [("write", DE + " AnsibleDebugger.start"), ("remove", DE + " shutdown"), ("read", DA + " get_connection_tuple")], [], ["the temporary directory as another process sees it"])
prop("C24", "Path mappings apply in both directions, consistently",
     "With path mappings a breakpoint set at a client path acts on the mapped playbook file, and every location reported to the client - stack frames, breakpoint responses and events - is the client's path again, for the whole session and for whichever requests were in flight when the mapping was established.",
     ["histories", "schedules", "configurations"],
     "All mapping lists including overlapping roots, launch and attach, all interleavings of the configuration with the first requests.",
     "Tests use one non-overlapping mapping.",
     [DE, ST, DA], [("client to playbook", DE + " process_message(SetBreakpointsRequest)"), ("playbook to client", DE + " convert_to_client_path")], [("_debug_config", "mappings", DE)], [STREAM])
prop("C25", "Address strings are parsed as documented",
     "Every documented TCP and UDS address form, and only those, yields the endpoint it names.",
     ["inputs"], "All address strings.", "A handful of literals is tested.", [SH], [("parser", SH + " parse_addr_string")])
prop("C26", "Debug console commands are parsed as documented",
     "Every console command line is either parsed into the command, name and expression the user wrote, quoting preserved, or answered with the usage text.",
     ["inputs"], "All command lines.", "A handful of literals is tested.", [RU], [("parser", RU + " parse_repl_args")])
prop("C27", "TLS settings are never weaker than asked for",
     "The TLS contexts built for the listener and for attach enforce exactly the verification the options ask for: peer verification unless explicitly ignored, and a client certificate whenever a client CA is configured.",
     ["configurations"], "All option combinations.", "Some combinations are tested.", [TLS], [("contexts", TLS)])
prop("C28", "The user's own Ansible configuration is preserved",
     "Running through the debugger prepends its callback, collection and module paths to the user's configured ones and loses none of them.",
     ["configurations"], "All configurations.", "Two configurations are tested.", [EX], [("merge", EX + " _configure_ansible_env")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
