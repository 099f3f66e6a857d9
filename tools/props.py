#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

p("C01", "A restricted executable is never bypassed",
  "When procstar runs with an executable restriction, it never executes any program other than exactly the restricted path, whether the program is named explicitly or taken from the first argument. A process asking for another program is refused with a reported error and its child ends without executing anything; one asking for exactly the restricted path is executed.",
  ["inputs", "configurations"], "every restricted path, requested executable and first argument, for every process of a request",
  "The integration tests try a couple of fixed paths; a comparison that accepts a prefix, suffix, case variant or a later process of the same request passes them.",
  ["src/procs.rs", "src/main.rs"], [("start_procs child branch", "src/procs.rs"), ("restrict_exe", "src/procs.rs"), ("get_exe", "src/procs.rs")])
p("C02", "A process gets exactly the environment its spec describes",
  "A started process's environment is exactly procstar's own environment restricted as its spec says (everything, nothing, or only the listed names), without the agent's certificate, key and token variables, then with every variable the spec sets set to its value and every variable the spec sets to null removed. Nothing else is added, dropped or altered.",
  ["inputs", "configurations"], "every parent environment, inherit mode, list of inherited names and map of set or removed variables",
  "Unit tests build four fixed environments and never with the agent's credentials present.",
  ["src/environ.rs", "src/sys.rs", "src/procs.rs"], [("environ::build", "src/environ.rs"), ("execve NAME=val list", "src/sys.rs")])
p("C03", "The program runs as specified: executable, argument vector, own session",
  "A started process executes the explicitly given executable, or its first argument if none is given, with exactly the argument vector of its spec, and does so in a session of its own. This holds for every process of a request independently of the others.",
  ["inputs"], "every executable name and argument vector, in every position of a request",
  "Tests run a few fixed commands; dropped, reordered or truncated arguments and mixed-up processes need particular vectors.",
  ["src/procs.rs", "src/sys.rs"], [("start_procs", "src/procs.rs"), ("execve, CStringVec", "src/sys.rs"), ("setsid", "src/sys.rs")])
p("C04", "Starting processes is all or nothing, and no request crashes the server",
  "A start request that names a process id already in use, an invalid or repeated file descriptor (under any spelling), or a pipe end without exactly one matching other end, or that arrives when procstar is shutting down, is rejected with an error and creates no process. Every other request starts every one of its processes, each of which is visible under its id with its own pid. No start request crashes procstar.",
  ["inputs", "histories"], "every set of process ids and existing ids, every combination of descriptor names and kinds, every shutdown state",
  "Tests cover one duplicate and one unmatched pipe; crashes and partial starts need particular combinations of names and kinds.",
  ["src/procs.rs", "src/spec.rs"], [("validate_procs_fds", "src/spec.rs"), ("start_procs checks", "src/procs.rs"), ("parse_fd", "src/spec.rs")])
p("C05", "A program starts with exactly the file descriptors its spec describes",
  "When a program is executed, every descriptor its spec lists is connected to what the spec says, applied in the order listed: inherited, closed, opened to the null device or the given file, a duplicate of another descriptor, the capture, or the pipe end. Descriptors the spec does not list are those procstar itself was started with; no internal descriptor of procstar and no descriptor belonging to another process is open in the program.",
  ["inputs", "configurations"], "every combination and order of descriptor kinds and numbers, also numbers that coincide with descriptors procstar uses internally, with one or more processes",
  "Tests use the standard three descriptors with one kind each and never look at which further descriptors are open in the program.",
  ["src/fd.rs", "src/procs.rs", "src/sys.rs", "src/err_pipe.rs"], [("SharedFdHandler::in_child", "src/fd.rs"), ("SharedFdHandler::new", "src/fd.rs"), ("ErrorPipe::new", "src/err_pipe.rs"), ("Pipes", "src/fd.rs")])
p("C06", "Pipes connect the right processes and readers see end of file",
  "A pipe named in a request connects exactly the writing descriptor and the reading descriptor that name it, whichever process is started first. Once the request's processes have been started, procstar holds neither end of such a pipe and the reading process does not hold its write end, nor does a third process, so that end of file arrives when the writer ends; for a captured pipe procstar holds only the read end.",
  ["inputs", "configurations"], "every assignment of pipe ends to descriptors and processes in a request, in either order",
  "One integration test connects one pair of processes; a leaked write end shows only as a reader that never ends.",
  ["src/fd.rs", "src/procs.rs"], [("Pipes::get_read_fd/get_write_fd/close", "src/fd.rs"), ("SharedFdHandler::in_parent/in_child", "src/fd.rs")])
p("C07", "Captured output is returned byte for byte",
  "Everything a process writes to a captured descriptor, and nothing else, is returned in order and unaltered, whatever the capture mode and however the data arrives in pieces. Attached results carry it as UTF-8 text with invalid sequences replaced, or base64 if no encoding is given; detached results carry its exact length and no data.",
  ["inputs", "schedules"], "every output within the bound, every split into chunks, both modes, with and without encoding, attached or detached, read while running or afterwards",
  "Tests capture a few short texts that arrive in one piece.",
  ["src/fd.rs", "src/res.rs", "src/sys.rs"], [("run_capture_memory", "src/fd.rs"), ("read_from_file", "src/sys.rs"), ("FdRes::from_bytes/detached", "src/res.rs")])
p("C08", "Requests for ranges of captured data are exact and harmless",
  "A request for captured data from a start to a stop position (or the end) returns exactly the bytes of the output in that range, clipped to what there is, with matching positions; a negative or reversed range yields an error or no data. No such request crashes procstar, breaks the capture, disturbs what the process itself writes, or changes the answer to later requests.",
  ["inputs", "histories"], "every start and stop (64-bit, negative and beyond the end included), both capture modes, sequences of requests, unknown processes and descriptors",
  "Tests request two ranges inside the data.",
  ["src/fd.rs", "src/sys.rs", "src/proto.rs", "src/http.rs"], [("get_data", "src/fd.rs"), ("read_from_file", "src/sys.rs"), ("ProcFdDataRequest", "src/proto.rs")])
p("C09", "Every failure to start a program is reported and never half-starts it",
  "If any step between forking and executing fails (setting up a descriptor, the session, or the execution itself), the program is not executed, the child ends with a failure status, and the process is reported in the error state with a message for each failed step. Messages arrive complete and in order however the pipe delivers them; procstar itself keeps running.",
  ["fault_sequences", "inputs", "schedules"], "a failure at every system call, in parent and child, with every kind of descriptor; every way the message bytes are split up",
  "Tests provoke a missing executable and a missing file; failures of individual calls and split messages cannot be provoked from outside.",
  ["src/procs.rs", "src/err_pipe.rs", "src/fd.rs", "src/fdio.rs"], [("ErrorWriter::write", "src/err_pipe.rs"), ("ErrorPipe::get_errors", "src/err_pipe.rs"), ("start_procs child branch", "src/procs.rs"), ("make_fd_handler", "src/fd.rs")])
p("C10", "How a process ended is decoded correctly for every wait status",
  "For every wait status of a terminated process the result reports either its exit code or the signal that killed it, with the signal's name if it has one and whether it dumped core, never both, together with the resource usage the kernel reported in the documented units. No status makes procstar crash.",
  ["inputs"], "every exit code 0-255, every signal 1-64, with and without core dump; every usage value",
  "Tests see exit codes 0, 1 and a few signals; real-time signals never occur.",
  ["src/res.rs", "src/sig.rs"], [("Status::new", "src/res.rs"), ("ResourceUsage::new", "src/res.rs"), ("get_abbrev", "src/sig.rs")])
p("C11", "Every process exit is noticed once, and results are consistent at all times",
  "Whatever the order and coalescing of child signals, every process that ends is reaped by its own pid, recorded with its own status exactly once, and announced as not running exactly once, after its status and errors are recorded. Until then it is reported running without a status; afterwards its result never changes.",
  ["schedules", "histories"], "all interleavings of child exits, signal deliveries (lost to coalescing, spurious, early), task scheduling and error-pipe data for one or two processes",
  "Tests see the schedules the runtime happens to produce.",
  ["src/procs.rs", "src/sig.rs", "src/sys.rs"], [("wait_for_proc", "src/procs.rs"), ("run_proc", "src/procs.rs"), ("SignalWatcher::watch", "src/sig.rs"), ("wait", "src/sys.rs")])
p("C12", "A process record can be deleted exactly when the process is not running",
  "Deleting a process succeeds exactly if it is known and not running; it then disappears from all listings, its id becomes free, and one deletion is announced. Deleting a running process fails and changes nothing; deleting an unknown one reports that it is unknown.",
  ["histories", "inputs"], "every combination of ids and process states, and sequences of deletions, by either interface",
  "Tests delete a process that has ended and one that runs, never in the error state or in sequences.",
  ["src/procs.rs", "src/proto.rs", "src/http.rs"], [("remove_if_not_running", "src/procs.rs"), ("ProcDeleteRequest", "src/proto.rs"), ("procs_id_delete", "src/http.rs")])
p("C13", "Signals go only to the live process asked for",
  "A signal request delivers exactly the requested signal to exactly the requested process while it has not been reaped. A process that has ended, or an id that is unknown, is never signalled: no signal reaches another process that may have got its pid, and the requester is told of the failure; a signal to all reaches every running process once and no other.",
  ["histories", "inputs"], "every signal number, every process state (running, in error but alive, terminated, unknown), every kill outcome",
  "Tests signal only running processes; pid reuse cannot be provoked in a test.",
  ["src/procs.rs", "src/sys.rs", "src/proto.rs", "src/http.rs"], [("Proc::send_signal", "src/procs.rs"), ("send_signal_all", "src/procs.rs"), ("kill", "src/sys.rs")])
p("C14", "Shutdown signals follow their protocol",
  "On SIGTERM or SIGINT procstar sends SIGTERM to all running processes, and SIGKILL to those still running after the 60 s grace period and only then, waits at most 5 s more for the records to be deleted, and then shuts down; SIGQUIT kills at once; SIGUSR1 sends no signal and lets procstar shut down when the last record is deleted. Shutdown always completes within these limits.",
  ["schedules", "histories"], "every signal style, every time or never at which processes end and are deleted, every order of events",
  "The integration tests use one process and default timing; stragglers and deadlines take more than a minute.",
  ["src/shutdown.rs", "src/procs.rs", "src/main.rs"], [("install_signal_handler", "src/shutdown.rs"), ("set_shutdown, check_idling", "src/procs.rs")])
p("C15", "Shutdown only moves forward, and admits no new process",
  "The shutdown state only ever advances from active to idling to done and every advance is announced. Once procstar is idling or done no start request creates a process, and an idling procstar becomes done exactly when its last process record is gone, however it goes.",
  ["histories"], "every sequence of shutdown requests, starts, deletions and collections within the bound",
  "Tests request one shutdown each.",
  ["src/procs.rs", "src/shutdown.rs"], [("set_shutdown", "src/procs.rs"), ("check_idling", "src/procs.rs"), ("start_procs state check", "src/procs.rs")])
p("C16", "Waiting for processes ends exactly when it should",
  "Waiting until nothing runs ends once no process is running and not before; waiting until idle ends once no process record is left and not before; waiting for shutdown ends once shutdown is done and not before. No order of starts, exits, deletions and polls makes a waiter miss its wake-up or crash.",
  ["schedules", "histories"], "all interleavings of two processes ending, being deleted and being waited for, before, during and after the wait starts",
  "Tests see the schedules the runtime happens to produce.",
  ["src/procs.rs"], [("wait_running, wait_idle, wait_for_shutdown", "src/procs.rs"), ("NotificationSub::recv", "src/procs.rs"), ("notify", "src/procs.rs")])
p("C17", "The agent registers first, reconnects, backs off and gives up as configured",
  "As an agent procstar sends its registration before anything else on every connection and uses the connection only after it was accepted. Failed attempts are separated by an interval that starts at the configured start, grows by the configured factor and never exceeds the configured maximum; after the configured number of consecutive failures it gives up with an error, and a successful connection resets both. A lost connection is re-established until shutdown is done, and shutdown being done always ends the loop.",
  ["fault_sequences", "schedules", "configurations"], "every sequence of connection outcomes and disconnections, every configuration, shutdown at any point",
  "Tests connect to a healthy server; the sequence of failures and the moment of shutdown are not controlled.",
  ["src/agent.rs", "src/argv.rs", "src/main.rs"], [("run", "src/agent.rs"), ("connect", "src/agent.rs"), ("get_connect_config", "src/argv.rs")])
p("C18", "Every agent request gets its right answer, and bad messages are harmless",
  "Each request from the agent server is answered according to its kind and the state of the process it names: the list of ids, the result, the data, an unknown-process or error reply that carries the request, or nothing where the effect itself is announced. A message that cannot be decoded is ignored without losing the connection; pings are answered; no message crashes procstar.",
  ["inputs", "histories"], "every request kind, with known and unknown processes in every state, undecodable and unexpected messages, in every order within the bound",
  "Tests send a handful of well-formed requests.",
  ["src/proto.rs", "src/agent.rs"], [("handle_incoming", "src/proto.rs"), ("handle", "src/agent.rs")])
p("C19", "The HTTP interface answers every request with the right status and effect",
  "Each HTTP request is dispatched by method and path exactly as documented: listing, fetching, starting, deleting and signalling processes and fetching captured output, with the effect performed only then. Unknown processes and paths give 404, wrong methods 405, malformed requests and requests that cannot be carried out a 4xx error with a message; no request crashes procstar.",
  ["inputs"], "every method and path of up to six segments, known and unknown processes in every state, every body kind",
  "Tests make a few well-formed requests.",
  ["src/http.rs"], [("route", "src/http.rs"), ("handlers", "src/http.rs")])
p("C20", "Kernel process statistics are parsed correctly for every process",
  "Each field of the kernel's process statistics is reported with the value the kernel gave, in the documented unit or decoded form: program names with any characters, device numbers, signal sets by signal name, exit signal, times and sizes. No line the kernel can produce crashes procstar.",
  ["inputs"], "every program name (spaces and parentheses included), every value of every field",
  "Two unit tests parse two fixed lines.",
  ["src/procinfo.rs"], [("ProcStat::parse", "src/procinfo.rs"), ("expand_sig_bitmap", "src/procinfo.rs"), ("ProcStatm::parse", "src/procinfo.rs")])
p("C21", "Signal names and numbers agree with the system",
  "The name of every standard signal (1 to 31) is accepted and yields its system number, every decimal number yields that number, and everything else is rejected; the name reported for the number of a standard signal is the system's name for it and parses back to the same number.",
  ["inputs"], "every signal number and every string within the bound",
  "No test covers the table; integration tests use three signals.",
  ["src/sig.rs"], [("parse_signum", "src/sig.rs"), ("get_abbrev", "src/sig.rs"), ("SIGNAL_NUMS", "src/sig.rs")])
p("C22", "Files are opened in the child exactly as the spec's flags say",
  "A descriptor opened to a file is opened at the given path with the given mode and exactly the access, creation, truncation, exclusivity and append behaviour its flag documents, the default depending on the descriptor number; the null device likewise.",
  ["inputs"], "every open flag, descriptor number, mode and path",
  "Integration tests use two or three of the flags with standard descriptors.",
  ["src/fd.rs", "src/sys.rs"], [("get_oflags", "src/fd.rs"), ("new_unmanaged_file", "src/fd.rs"), ("open", "src/sys.rs")])
p("C23", "Process specs are read as documented, and unknown content is rejected",
  "A process spec, from a file, HTTP or the agent server, is read with every field taking its given value and every omitted field its documented default. A spec with an unknown field, an unknown kind or value, or a wrong type is rejected as a whole.",
  ["inputs"], "every subset and order of fields, every value of every enumerated field, one unknown or ill-typed field anywhere",
  "Unit tests read a few fixed documents.",
  ["src/spec.rs"], [("Deserialize for Proc, Env, EnvInherit, Fd, OpenFlag, CaptureMode", "src/spec.rs")])
p("C24", "Descriptor names are parsed exactly and reported consistently",
  "Each of the standard descriptor names and every decimal descriptor number denotes its descriptor and any other text is rejected; the name under which a descriptor is reported in results parses back to the same descriptor, and distinct descriptors have distinct names.",
  ["inputs"], "every descriptor number and every string within the bound",
  "No test covers the parsing beyond the three names.",
  ["src/spec.rs", "src/fd.rs"], [("parse_fd", "src/spec.rs"), ("get_fd_name", "src/fd.rs")])
p("C25", "The agent server (Python) keeps consistent process records",
  "The Python agent server applies every message of a connected instance to the process it names: it keeps the latest result, reports unknown processes to those waiting, removes deleted ones, and delivers every update to every subscriber in order. No message of one instance affects the processes of another.",
  ["histories", "schedules"], "every sequence of messages from one or more instances within the bound",
  "The Python tests run single scenarios against a real agent.",
  ["python/procstar/agent/proc.py", "python/procstar/agent/server.py", "python/procstar/agent/conn.py"], [("Processes.on_message", "python/procstar/agent/proc.py"), ("Connections", "python/procstar/agent/conn.py")])
p("C26", "With --exit, procstar reports the final results of all its processes",
  "Run with an input file to print or write results, procstar starts the processes of the file, waits until none is running, and then outputs the result of every one of them exactly once, each in its final state, and ends. Its options imply each other as documented, and an invalid invocation or input starts nothing.",
  ["schedules", "configurations"], "every combination of the options, one or two processes, every order of their ends, shutdown signals at any point",
  "Integration tests run one or two short processes with one option combination.",
  ["src/main.rs", "src/argv.rs", "src/procs.rs", "src/res.rs"], [("maybe_run_until_exit", "src/main.rs"), ("argv::parse", "src/argv.rs"), ("collect_results", "src/procs.rs"), ("dump_file, print", "src/res.rs")])
p("C27", "The agent server learns of every change",
  "While connected, the agent sends for every process that starts, ends or is deleted, and for every shutdown change, the corresponding message, in order, with the process's result as it then is. A change that happens before or during connecting is reflected in the registration or announced afterwards; none is lost.",
  ["schedules", "histories"], "every interleaving of process changes and shutdown with connecting, registration and reconnection within the bound",
  "Tests observe changes on an established connection only.",
  ["src/agent.rs", "src/procs.rs"], [("notification_to_message", "src/agent.rs"), ("run select loop", "src/agent.rs"), ("subscribe, notify", "src/procs.rs")])

NA = {}
exec(open(V + "/tools/na.py").read())
with open(V + "/properties.jsonl", "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d in P:
    i = d["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    else:
        checks.append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i, thorough_cmd="bin/check %s --tier thorough" % i,
            technique=TECH.get(i, "bounded symbolic execution of the Rust sources (Kani lowering, CBMC symex, CaDiCaL SAT)"),
            level="other", level_note=NOTE.get(i, "Decided by the solver for all values within the stated bounds; see evidence and DESIGN.md.")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na, notes=NOTES)
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
