import glob
HOOKS = None
TECH = {}
NOTE = {}
NOTES = "Every check regenerates its encoding from /repo/src; see DESIGN.md."
WHY = {
    "C04": "no harness of its own: refusal under shutdown is decided by C15, by an unknown or repeated id by C18, failures of system calls by C09; the rest was not reached in the time available",
    "C07": "no harness of its own: byte ranges, captures and arrival in pieces are decided by C08; text replacement needs the lossy UTF-8 decoder, which is stubbed here",
    "C11": "the model polls every task unconditionally, so lost wake-ups of the child signal, which this property is about, are not represented",
    "C14": "no harness of its own: the stages are decided by C15 and the signals by C13; the timed protocol was not reached in the time available",
    "C16": "the model polls every waiter unconditionally, so missed wake-ups, which this property is about, are not represented",
    "C19": "no harness of its own: the operations behind the routes are decided by C08, C12, C13, C15; routing, status codes and bodies were not reached in the time available",
    "C20": "the parser's cost is dominated by formatting and numeric parsing of 50 symbolic fields; not reached in the time available",
    "C23": "deserialization is generated by serde over a document model; only its use in starts is exercised; not reached in the time available",
    "C25": "Python: the client library needs msgpack, websockets and an event loop; CrossHair cannot execute the real coroutine code symbolically, and the modules do not import under the installed Python 3.12",
    "C26": "no harness of its own; not reached in the time available",
}
HAVE = {os.path.basename(x)[1:3] for x in glob.glob(V + "/mc/hx/c[0-9]*.rs")}
for d in P:
    if d["id"][1:] not in HAVE:
        NA[d["id"]] = WHY.get(d["id"], "no check built yet")
