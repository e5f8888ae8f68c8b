#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files)} for m in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

SRV = "crates/styx-lsp/src/server.rs"
EXT = "crates/styx-lsp/src/extensions.rs"
CLI = "crates/styx-cli/src/main.rs"

prop("E01", "Editor answers come from the text the editor last sent",
 "Every answer the language server gives to an editor request (hover, completion, symbols, definition, references, formatting, indentation, semantic tokens, links, hints, actions) is the answer a freshly started server would give for one single state of the open documents, and that state is never older than what the editor had already sent when it made the request. "
 "Text that was replaced by a later change, or a document that was closed, never comes back. "
 "This holds whatever order notifications, requests, cancellations and slow extension replies overlap in.",
 ["schedules", "histories", "fault_sequences"],
 "every history of open/change/close/reopen over several documents, several changes per notification, requests in flight at the same time, every interleaving of handlers, extension replies of any delay and message fragmentation",
 "The unit tests call handlers or helper functions one at a time; the few end-to-end tests send one document and one request. Overlapping handlers around an await point, reordered completion and long edit histories are never exercised.",
 [SRV, EXT],
 ["The document map behind an async read-write lock; notification handlers parse, consult extensions, publish and store; up to four handlers are interleaved by the protocol runtime"],
 [("documents", "uri -> latest text, CST, tree, version")],
 ["JSON-RPC responses on the server's output stream"],
 "simulated stdio in place of the process's stdin/stdout, simulated extension processes")

prop("E02", "Diagnostics settle on the latest text and never go backwards",
 "For each open document the versions of the diagnostics the server publishes never decrease, every published set is the one a freshly started server would publish for that version's text, and once the editor stops typing and extensions answer, the last set published belongs to the latest version and omits nothing, including syntax errors after other documents or settings changed. "
 "After a document is closed its diagnostics end up cleared and stay cleared until it is opened again.",
 ["schedules", "histories", "fault_sequences"],
 "every history of open/change/close/reopen and allow-extension commands, every interleaving of handlers and delay of extension replies",
 "Tests check the diagnostics computed for one text; none overlaps two changes of one document, closes a document while its diagnostics are being computed, or republishes after an allow command.",
 [SRV],
 ["publish after an await on the extension; republish of all open documents after an allow command; empty set on close"],
 [("published diagnostics", "per uri: version and set last sent to the editor")],
 ["textDocument/publishDiagnostics notifications"],
 "simulated stdio and extension processes")

prop("E03", "No extension program starts without the user's consent",
 "The language server starts an extension program only if exactly that program name (the first element of the schema's launch command) is listed as allowed in the user's configuration or was allowed by the user in this session; a name that merely resembles an allowed one, an unreadable, damaged or missing configuration, or an unrelated command from the editor never leads to a start. "
 "When an extension is held back the editor receives a diagnostic that names the program and lets the user allow exactly it, and after the user allows it, and only then, it is started with the schema's arguments.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "every allowlist, every launch command, every order of opening documents, allowing, closing and reopening, damaged or unreadable configuration files, concurrent handlers",
 "No test starts an extension at all; consent is a negative property over histories and configurations.",
 [EXT, SRV, "crates/styx-lsp/src/config.rs"],
 ["the allowlist check before spawning; the allow command handler"],
 [("allowlist", "programs the user consented to")],
 ["process launches requested by the server"],
 "process spawning replaced by a recording simulator")

prop("E04", "One live extension process per schema, and none outlives the session",
 "However many documents use a schema and however their handlers overlap, at most one live extension process exists for that schema at any time, it is reused for the whole session while it works, and it is initialised exactly once before any other call. "
 "A process that failed to start up properly is terminated, and when the session ends, by an orderly shutdown or by the editor disconnecting, every process that was started has exited or been terminated within a bounded time even if it ignores being asked.",
 ["schedules", "histories", "fault_sequences"],
 "every overlap of documents opening and changing, extensions that are slow, refuse the handshake, crash, hang or ignore shutdown, sessions that end by shutdown+exit, exit, or abrupt end of input at any point",
 "No test spawns an extension; the race is between two handlers that both find no process, and the leak shows only when the session ends.",
 [EXT, SRV],
 ["get-or-spawn; shutdown of the extension manager; end of the serve loop"],
 [("extensions", "schema id -> running process and its client")],
 ["simulated process table: starts, calls, exits, kills"],
 "process spawning replaced by a simulated process")

prop("E05", "A faulty extension never blocks the editor",
 "Whatever an allowed extension does (answers slowly, never answers, calls back into the server while a request is in flight, crashes, disconnects, returns garbage), every editor request is answered within 60 simulated seconds of being sent, the diagnostics of a text the editor leaves standing are published in the same time, and the server keeps serving; there is no deadlock. "
 "An extension that asks the server something during a call gets its answer while that call is in flight, whatever the editor changes meanwhile. "
 "Requests the extension does not contribute to keep giving their normal answer, and those it would contribute to give either the answer with its contribution or the answer without it.",
 ["schedules", "fault_sequences", "histories"],
 "every placement of extension delays, stalls, crashes, disconnects, garbage and callbacks relative to editor notifications and requests",
 "Tests never run an extension, so neither the lock/callback cycle nor an unanswered call can occur in them; liveness is about all schedules.",
 [EXT, SRV],
 ["RPC calls to the extension from request handlers; host callbacks that read the document map; the runtime's limit of four concurrent handlers"],
 [("extension session", "RPC connection that may be slow, dead or re-entrant")],
 ["virtual time between each request and its response"],
 "simulated extension process over an in-memory pipe, virtual clock")

prop("E06", "One response per request, and the server survives any session",
 "For every sequence of messages an editor can send, split and delayed in any way, the server gives each request exactly one response, answers nothing that was not asked, and keeps running until it is told to exit or its input ends; a document, position, range or argument that is unusual, out of range or malformed gives an empty answer or an error for that request only. "
 "It ends promptly and cleanly when the editor exits or disconnects at any point.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "every message sequence including out-of-range positions, multi-byte and malformed text, unknown documents, unknown methods, cancellations, duplicate opens, malformed JSON, arbitrary fragmentation, slow readers, and disconnection at any byte",
 "A panic in one handler ends the whole process, so the property quantifies over every document, cursor and order of messages; tests sample a handful of cursor positions in ASCII documents.",
 [SRV, EXT, "crates/styx-lsp/src/semantic_tokens.rs", "crates/styx-lsp/src/schema_validation.rs"],
 ["handlers run inside the serve loop; any panic unwinds it"],
 None, ["JSON-RPC framing on the output stream, termination of the server"],
 "simulated stdio")

prop("E07", "Positions and edits mean to the editor what they mean to the server",
 "Every position and range the server sends lies inside the text it was computed from when read as the protocol prescribes (UTF-16 code units), and names the text it is about: a symbol's name range is its key, a token covers its source text, a definition or reference covers the field, a diagnostic covers its culprit. "
 "Applying an edit the server offers (format document, indent after newline, add schema line, rename misspelled field, fill fields, reorder fields, completion) to that text gives exactly the intended document: formatting yields the formatter's own output for that text and asking again offers nothing more, and the other edits change what they announce and leave all other entries and comments as they were.",
 ["inputs", "histories"],
 "every editing session in which the editor applies what the server offers and continues from the result, over documents with multi-byte text, CRLF, missing or repeated final newlines, comments and nesting",
 "Tests compare returned edits with expected numbers on ASCII samples; none applies an edit the way an editor does and continues the session with the result.",
 [SRV, "crates/styx-lsp/src/semantic_tokens.rs"],
 ["byte offset <-> protocol position conversion; construction of text edits"],
 None, ["edits applied by a simulated editor; the text it ends up with"],
 "simulated stdio")

prop("E08", "Extensions see the document the editor has",
 "What the server tells an extension about a document, in a request's parameters or in reply to the extension's own questions (source, tree, subtree, schema, offset to position, position to offset), is correct for the text the editor sent: never older than the text already sent when the request or question was handled, offsets and positions convert consistently in both directions for every character of the document, and a question about an unknown document or impossible offset gets an empty reply rather than an error that ends the session.",
 ["schedules", "histories", "inputs"],
 "every interleaving of editor changes with extension calls and callbacks, every offset and position of documents with multi-byte text and empty lines",
 "No test exercises the host callbacks; they run concurrently with document changes and only through an extension session.",
 [EXT, SRV],
 ["host service implementation reading the shared document map"],
 [("documents", "shared between handlers and host callbacks")],
 ["RPC traffic between server and simulated extension"],
 "simulated extension process")

prop("D01", "Allowing an extension is durable and never destroys the configuration",
 "Once the server has acknowledged an allow command without reporting an error, the program is allowed in every later session, through process crashes and power loss, and so is every program that was allowed before. "
 "At every crash point and under every disk error the configuration file on disk is either the complete old or the complete new one, a file that cannot be read or understood is never overwritten, other settings, and programs allowed meanwhile by another server process, are kept, and what is saved is what is loaded back.",
 ["crash_points", "fault_sequences", "histories", "schedules"],
 "every sequence of allow commands, restarts and concurrent server processes, a crash or power loss at every I/O step, every single or repeated disk error, short write, full disk, and every readable or damaged initial file",
 "No test injects a disk error or crash into saving, or runs two servers on one configuration.",
 ["crates/styx-lsp/src/config.rs", EXT],
 ["load at start-up; rewrite of the file after each allow"],
 [("config.styx", "the user's configuration file")],
 ["contents of the simulated disk after each step and crash"],
 "file system calls intercepted at the libc boundary")

prop("D02", "The schema cache holds exactly the schema, inside its own directory",
 "The cached copy of a schema that the server hands out or leaves behind contains exactly that schema's text or is not handed out at all, through process crashes, power loss, disk errors, short writes and several servers writing the same entry at once; a damaged entry is repaired or ignored, never trusted. "
 "Whatever names a document or binary supplies, the cache writes and removes files only inside its own directory, distinct schemas never share an entry, and clearing the cache and its statistics cover exactly its entries.",
 ["crash_points", "fault_sequences", "inputs", "schedules"],
 "every schema text and name pair, every crash point and disk error while an entry is written, every pre-existing damaged entry, repeated and concurrent use",
 "Tests write one entry to a healthy disk and read it back.",
 ["crates/styx-lsp/src/cache.rs", "crates/styx-lsp/src/schema_validation.rs"],
 ["content-addressed file per schema; existence check as validity check"],
 [("cache directory", "one file per cached schema")],
 ["contents of the simulated disk"],
 "file system calls intercepted at the libc boundary")

prop("D03", "Rewriting a file is all or nothing",
 "When the command-line tool writes a result over an existing file (in place, to an output file, or as JSON), the file afterwards holds either its complete previous content or the complete new content, at every crash point, power loss, disk error, short write or full disk, and if the input has a syntax or validation error, is unreadable, or the write fails, the previous content is still there (if only the final flush to disk fails, the complete new content may be there instead). "
 "No stray files remain after the tool has ended by itself, the file keeps its permissions and stays the same link target, and the tool never writes to any file it was not asked to.",
 ["crash_points", "fault_sequences", "inputs"],
 "every input file, output mode and pre-existing target, a crash or power loss at every I/O step, every single or repeated disk error at every step",
 "Tests run the tool on a healthy disk to completion; the destructive window is between truncation and the last write.",
 [CLI],
 ["reading, formatting and writing of files in file mode"],
 [("target file", "the user's only copy of the document")],
 ["contents of the simulated disk after each step and crash"],
 "file system calls intercepted at the libc boundary (preloaded simulator)")

prop("D04", "The exit status tells the truth",
 "The command-line tool exits 0 only if all output it was asked for has been completely delivered, to the terminal, pipe or files; it exits 1 for a syntax error, 2 for a validation failure and 3 whenever reading its input or delivering its output failed, with a message on standard error, and never crashes. "
 "This holds for every command and every I/O fault, including broken pipes, full disks, interrupted and partial reads and writes, and errors that surface only on the last write.",
 ["fault_sequences", "inputs", "configurations"],
 "every subcommand and option combination on files, every I/O error kind at every I/O step, on inputs that are valid, syntactically wrong, invalid against the schema, unreadable or not UTF-8",
 "Tests check exit codes on a healthy system only; the codes under failure are decided by where in the run an error lands.",
 [CLI],
 ["error mapping to exit codes; printing; process exit"],
 None, ["exit status, bytes delivered to the simulated stdout and files, stderr"],
 "read/write/open calls intercepted at the libc boundary (preloaded simulator)")

prop("D05", "Results do not depend on how input and output bytes are delivered",
 "For the same input bytes the command-line tool and the language server produce the same output, whether the bytes come from a file or a pipe, in one piece or in arbitrarily small pieces that split characters, with interruptions, and whether output is accepted whole or piecemeal. "
 "Input that ends early because reading failed is never treated as complete input.",
 ["fault_sequences", "inputs", "schedules"],
 "every document, every segmentation of input and output, every placement of EINTR, short reads and short writes, and read errors after any prefix",
 "Tests deliver input in one piece.",
 [CLI, SRV],
 ["reading of stdin and files; printing; message framing of the language server"],
 None, ["stdout bytes, exit status, JSON-RPC responses"],
 "read/write calls intercepted at the libc boundary; simulated stdio")

prop("D06", "Embedded schemas are extracted exactly or not at all",
 "Extracting from a binary returns exactly the schemas that were embedded in it, each unchanged and in order of position, wherever they lie and whatever surrounds them; if stored bytes were flipped, torn, zeroed, duplicated or cut off, each schema returned is still byte for byte one that was embedded, undamaged ones are still found as long as the file's own section table is undamaged, and damage only makes damaged ones disappear. "
 "Extraction never crashes, hangs, or uses memory out of proportion to the file, and reports an error when nothing intact is found.",
 ["fault_sequences", "inputs"],
 "every set of schemas, every container (bare bytes, object file with section, unknown format), every corruption of stored bytes, truncation point and I/O error while reading",
 "Tests cover intact blobs and one flipped hash byte.",
 ["crates/styx-embed/src/lib.rs"],
 ["magic scan, section lookup, length and hash verification, decompression"],
 None, ["returned schemas or error, memory use, exit status of the extract command"],
 "stored bytes corrupted by the simulator; allocation accounting; read/mmap at the libc boundary")

prop("D07", "The same input always gives the same output",
 "Running any command of the tool on the same files with the same arguments, or replaying the same editor session, produces byte for byte the same output, the same diagnostics in the same order, the same generated files and the same exit status, whatever random seeds, process ids, clock, memory addresses or directory listing order the operating system supplies.",
 ["schedules", "configurations", "inputs"],
 "every source of environment randomness (hash seeds, clock, pid, directory order), every command and document",
 "A test runs once with one set of random hash seeds; nondeterminism shows as a difference between runs.",
 [CLI, "crates/facet-styx/src/schema_validate.rs", "crates/facet-styx/src/schema_types.rs", "crates/styx-gen-go/src", "crates/styx-lsp/src/schema_hints.rs", SRV],
 ["iteration over hash maps in validation, comparison, generation and the server"],
 None, ["stdout, stderr, files, exit status, JSON-RPC traffic"],
 "getrandom, clock and pid intercepted at the libc boundary")

prop("D08", "Publishing and comparing never act on a failed download",
 "When the registry cannot be reached, answers with an error, is cut off, stalls the download or delivers something unusable, the publish and diff commands fail with a non-zero exit status and publish nothing; a schema is published at most once per run, only after a confirmation (or the explicit yes option), with the version that follows from comparing against the complete latest published schema, or as a first version only when the registry positively says the schema does not exist. "
 "Temporary files are removed in every case in which the tool ends by itself, and the access token reaches only the publishing program.",
 ["fault_sequences", "inputs", "histories"],
 "every outcome of each helper process (missing, error status, killed, truncated or garbage output) at every step, every pair of schema versions, answers to the prompt, and disk errors while preparing the package",
 "No test runs publish or diff against a registry, let alone a failing one.",
 [CLI],
 ["version lookup, download and unpacking through helper programs, version computation, publish helper"],
 None, ["helper program invocations and their environment, exit status, temporary directory"],
 "helper programs replaced through PATH; file system calls intercepted at the libc boundary")

prop("D09", "Generated directories are complete when success is reported",
 "When the code-generation or package command exits 0, every file of the result is on disk with exactly the content a fault-free run produces; when anything fails it exits non-zero, and it never damages its schema input or files it does not generate. "
 "Running the command again after any failure or crash gives the same result as a first run on a clean directory.",
 ["crash_points", "fault_sequences", "histories"],
 "every schema, output location and pre-existing directory content, every I/O error or crash at every step, followed by repeated runs",
 "Tests generate once into an empty directory on a healthy disk.",
 [CLI, "crates/styx-gen-go/src"],
 ["creation of directories and sequential writes of several files"],
 None, ["contents of the output directory, exit status"],
 "file system calls intercepted at the libc boundary (preloaded simulator)")

# ---- properties of pure functions: listed, not applicable to this technique
prop("N01", "Formatting preserves meaning and comments and is idempotent",
 "For every document, formatting with any options keeps the same data and every comment, produces a document that parses without new errors, and formatting the result again changes nothing.",
 ["inputs", "configurations"], "every document and every formatting option",
 "Tests and property tests sample documents; the claim is about all documents.",
 ["crates/styx-format/src"], ["CST-based formatter"])
prop("N02", "Every byte sequence is either parsed or rejected with a located error",
 "For every input the parsers terminate without crashing, accept exactly the documents of the specification, give the specified value for them, and report rejected input with a position inside it; the event, tree and CST parsers agree on which documents are valid.",
 ["inputs"], "every string",
 "Tests sample the grammar.", ["crates/styx-tokenizer/src", "crates/styx-parse/src", "crates/styx-tree/src", "crates/styx-cst/src"], ["tokenizer, event parser, tree builder, CST parser"])
prop("N03", "The concrete syntax tree is lossless",
 "For every input, valid or not, the text of the concrete syntax tree is the input, byte for byte.",
 ["inputs"], "every string", "Tests sample inputs.", ["crates/styx-cst/src"], ["rowan green tree builder"])
prop("N04", "Values survive a round trip through Styx text",
 "For every supported Rust value, serialising it and parsing the text back gives an equal value, with either serialisation library, and the two agree on each other's output.",
 ["inputs", "programs"], "every value of every supported type", "Tests sample types and values.",
 ["crates/facet-styx/src", "crates/serde_styx/src"], ["serializer and deserializer"])
prop("N05", "Schema validation accepts exactly the documents the schema describes",
 "Validation of a document against a schema reports no error exactly when the document conforms to the schema under the schema specification, and a schema generated from a type accepts exactly the documents that parse into the type.",
 ["inputs", "programs"], "every schema and document", "Tests sample schema features one at a time.",
 ["crates/facet-styx/src/schema_validate.rs", "crates/facet-styx/src/schema_gen.rs"], ["recursive validator, schema generator"])
prop("N06", "All implementations agree",
 "The Rust, Go, JavaScript and Python parsers and the editor grammars accept the same documents and give the same value for each.",
 ["inputs"], "every document", "The compliance corpus is finite.",
 ["implementations", "crates/tree-sitter-styx", "compliance"], ["independent parser implementations"])
prop("N07", "Generated Go code matches its schema",
 "For every schema the generated Go code compiles and its types decode exactly the documents the schema accepts.",
 ["inputs", "programs"], "every schema", "Tests sample schemas.", ["crates/styx-gen-go/src"], ["code generator"])
prop("N08", "The C interface is memory safe for every correct call sequence",
 "Any sequence of documented calls with valid handles neither reads nor writes out of bounds nor leaks nor double-frees, and reports errors through its documented channel.",
 ["programs", "histories"], "every call sequence", "Tests sample call sequences without a memory checker.",
 ["crates/styx-ffi/src"], ["immutable document handles over raw pointers"])
prop("N09", "Schema comparison classifies every change correctly",
 "For every pair of schema versions the reported change class is breaking whenever some document valid before is invalid after, and additive or patch only otherwise.",
 ["inputs"], "every pair of schemas", "Tests sample pairs.", [CLI], ["structural comparison of two schema trees"])
prop("N10", "The WebAssembly build behaves like the native library",
 "Every function of the WebAssembly build returns the same result as the native library function it wraps.",
 ["inputs"], "every document", "Tests run natively only.", ["crates/styx-wasm/src"], ["thin bindings"])

for p in P:
    assert len(p["title"]) <= 80, p["id"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
