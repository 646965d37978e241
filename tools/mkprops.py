#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as code so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append(d)

RS = "cli/src/protocol/render/rust/"
TS = "cli/src/protocol/render/typescript/"
WF = "cli/src/workflow/render/"

prop("C01", "Rust: every message survives pack and read unchanged",
 "For every valid protocol and every value of every struct and enum it declares, packing the value with the generated Rust code and feeding the bytes to the generated Rust reader yields exactly one message of the same type with an equal value. The received header carries the message's own id, the protocol's signature, the sequence given to pack and the length of the body.",
 ["programs", "inputs"], "all protocols the generator accepts (nested groups, references, optional and repeated fields, enums with any payload) x all values (empty, extreme, NaN, non-ASCII, long) x all u32 sequence numbers",
 "The repository's codec tests use one fixed protocol with a handful of hand written values; layouts, nesting, field ids and boundary values are not sampled.",
 [RS + "mod.rs", RS + "static/protocol.encode.rs", RS + "static/protocol.decode.rs", RS + "static/protocol.storage.rs", RS + "static/protocol.packing.rs"],
 [("per-field encode/decode", RS + "static/protocol.encode.rs, protocol.decode.rs"), ("field table", RS + "static/protocol.storage.rs")],
 ["result of pack()", "messages taken from Buffer::next()"])

prop("C02", "TypeScript: every message survives pack and read unchanged",
 "For every valid protocol and every value of every struct and enum it declares, packing the value with the generated TypeScript code and feeding the bytes to the generated TypeScript reader yields exactly one message of the same type with an equal value, id and sequence. Constructing a message from a well-typed plain object is accepted and an object with a wrongly typed or missing required field is rejected with an error instead of being sent.",
 ["programs", "inputs"], "all protocols the generator accepts x all values representable in the declared types x all u32 sequences; all single-field type confusions for the validation half",
 "TypeScript output is generated by the test run but never compiled or executed there.",
 [TS + "mod.rs", TS + "static"], [("Primitive/Convertor/Enum encode and decode", TS + "static"), ("validate()", TS + "static/protocol.validator.ts")],
 ["result of pack()", "messages taken from BufferReaderMessages.next()", "result of from(obj)"])

prop("C03", "Rust and TypeScript outputs are wire compatible both ways",
 "For every protocol, a message packed by the generated Rust code is read by the generated TypeScript code (and the other way round) as the same message type with the same field values, id and sequence. Both sides emit the same documented byte layout for the message body.",
 ["programs", "inputs"], "all protocols x all values, both directions, against an independently written codec of the wire format",
 "No test exchanges bytes between the two targets; each target's tests only talk to itself.",
 [RS + "static", TS + "static", RS + "mod.rs", TS + "mod.rs"], [("shared layout: id u16, rank, size, body", RS + "static/protocol.storage.rs and " + TS + "static"), ("ids from one sequence", "cli/src/protocol/store.rs")],
 ["packed bytes on either side"])

prop("C04", "Stream reader yields every message exactly once for any chunking",
 "However a stream of packed messages is cut into chunks (including one byte at a time, many messages per chunk and empty chunks), the reader yields exactly the packed messages, once each and in order, and none before its last byte has arrived. The pending count and the buffered length it reports always agree with what has been fed and taken.",
 ["inputs", "schedules", "histories"], "all message sequences x all chunkings x all interleavings of feeding, taking and counting, for both targets",
 "Existing tests feed a few concatenated messages in a few fixed chunk sizes.",
 [RS + "static/protocol.buffer.rs", RS + "static/protocol.packing.rs", TS + "static"],
 [("incremental reader", RS + "static/protocol.buffer.rs"), ("BufferReader.chunk", TS + "static")],
 ["chunk()", "next()", "len()", "pending()"])

prop("C05", "Hostile bytes never crash, hang or wedge a reader",
 "Feeding arbitrary bytes to a generated reader never panics, throws, aborts, loops forever or allocates memory out of proportion to the bytes received. A complete but unreadable message (unknown id, foreign signature, malformed body) is reported as an error and dropped: every valid message before and after it in the stream is still delivered exactly once and in order.",
 ["inputs", "fault_sequences"], "all byte strings: random, mutated valid messages, truncated and oversized length fields at every nesting level, bad ids, bad ranks; placed anywhere in a stream of valid messages; both targets",
 "Tests only feed well-formed messages; the decoder's error paths are not exercised.",
 [RS + "static/protocol.storage.rs", RS + "static/protocol.decode.rs", RS + "static/protocol.buffer.rs", RS + "static/protocol.packing.rs", TS + "static"],
 [("length checks before slicing", RS + "static/protocol.storage.rs, protocol.decode.rs"), ("error is local to one message", RS + "static/protocol.buffer.rs; " + TS + "static")],
 ["chunk() result", "panics, allocations, CPU time", "next()"])

prop("C06", "Packing middleware sees every message body exactly once",
 "A user-installed packing middleware is called exactly once for each message packed and exactly once for each message received, with that message's body, id, sequence and the connection identity supplied by the caller, and what it returns is what is sent or decoded. An error from it surfaces as an error of that one message and never blocks or alters other messages.",
 ["inputs", "histories", "fault_sequences"], "all message streams and chunkings x middlewares that change length, encrypt, or fail on chosen messages; both targets",
 "The shipped tests install at most one pass-through middleware and never one that fails or changes the length.",
 [RS + "static/protocol.packing.rs", RS + "static/protocol.buffer.rs", TS + "static"],
 [("encode hook in pack", RS + "static/protocol.packing.rs"), ("decode hook in the reader", RS + "static/protocol.packing.rs; " + TS + "static")],
 ["calls received by the middleware", "header length vs body"])

prop("C07", "Message ids are unique, stable and equal in both targets",
 "Within one protocol every struct and enum gets an id distinct from all others, every field id is distinct within its message, and these ids are the same in the Rust and the TypeScript output and in every regeneration from the same description, also when generated together with a workflow. A received message is always dispatched to the type and group path that declares its id.",
 ["programs"], "all protocols (any order of structs, enums, groups, nesting depth and size, more than 255 fields) x both targets x protocol-only and workflow generation",
 "The test protocol has one fixed shape with few entities.",
 ["cli/src/protocol/store.rs", "cli/src/protocol/parser.rs", RS + "mod.rs", TS + "mod.rs"],
 [("single id sequence", "cli/src/protocol/store.rs"), ("dispatch by id", RS + "mod.rs buffer(); " + TS + "mod.rs")],
 ["ids in packed headers and bodies of both targets"])

prop("C08", "Generated code compiles and declares exactly what was described",
 "Whenever the generator reports success for a protocol or workflow, the Rust output compiles with the Rust compiler and the TypeScript output loads and has no unresolved names, syntax or type errors. The generated types have exactly the described structs, enums and fields, with optional and repeated markers preserved.",
 ["programs"], "all protocols and workflows the generator accepts, including references into other groups in any direction, forward declared groups, enums in optional and repeated positions",
 "Only the fixed test and example descriptions are compiled; TypeScript output is never compiled.",
 [RS + "mod.rs", TS + "mod.rs", WF], [("type path rendering", RS + "mod.rs get_type_ref; " + TS + "mod.rs")],
 ["rustc, tsc and node on the generated files"])

prop("C09", "A wrong description is refused and writes nothing",
 "A protocol or workflow description that is syntactically or semantically wrong (unknown type, duplicate name, reference to an undeclared message, unclosed block, missing mandatory configuration) is always reported as an error with a failing exit status. In that case no output file is created or modified. A correct description is accepted.",
 ["inputs", "programs"], "all single mutations of valid descriptions that make them invalid: token deletions, truncations, renamed references, duplicated declarations, in protocol and workflow files",
 "Eleven fixed error files are checked, only for the printed message.",
 ["cli/src/protocol/parser.rs", "cli/src/protocol/store.rs", "cli/src/protocol/fields.rs", "cli/src/workflow/parser.rs", "cli/src/workflow/store.rs", "cli/src/workflow/request.rs", "cli/src/workflow/event.rs", "cli/src/workflow/beacon.rs", "cli/src/workflow/config.rs", "cli/src/main.rs"],
 [("expectation state machine", "cli/src/protocol/parser.rs"), ("reference resolution", "cli/src/protocol/store.rs, cli/src/workflow/store.rs")],
 ["exit status", "output and file tree after the run"])

prop("C10", "Regeneration never touches user-owned files",
 "Running the generator again over an existing project leaves every user-owned file (request, event, beacon and broadcast handlers, context, and any file the generator does not own) byte for byte as the user left it, while generator-owned files are brought up to date with the descriptions. Without the overwrite option an existing protocol output is not overwritten, and nothing outside the given destinations is created, changed or removed, except that the generator sets the dependencies it needs in the project manifest.",
 ["histories", "programs"], "all histories of generate, edit user files, extend or shrink the description, generate again; all target combinations",
 "The test run generates once into a fixed tree and never checks preservation.",
 [WF, "cli/src/helpers/fs.rs", "cli/src/helpers/render.rs", "cli/src/arguments/args_option_overwrite.rs"],
 [("write with/without overwrite", "cli/src/helpers/fs.rs"), ("user stubs written only when absent", WF)],
 ["file tree snapshots before and after each run"])

prop("C11", "Generation is deterministic and insensitive to layout",
 "Generating twice from the same descriptions yields byte-identical files, in the same or another directory, and a repeated run into the same place changes nothing. Changing only whitespace or line breaks (or, in a workflow, comments) in a description changes nothing in the output except the protocol and workflow fingerprints.",
 ["programs", "inputs", "histories"], "all descriptions x all whitespace re-layouts x repeated runs and process environments",
 "No test generates twice or re-lays out a description.",
 ["cli/src/protocol/parser.rs", "cli/src/workflow/parser.rs", "cli/src/protocol/store.rs", WF],
 [("ordered stores", "cli/src/protocol/store.rs, cli/src/workflow/store.rs"), ("tokenizers", "cli/src/protocol/parser.rs, cli/src/workflow/parser.rs")],
 ["generated file trees"])

prop("C12", "Consumer and producer agree on the description fingerprint",
 "The protocol and workflow fingerprints embedded in a generated consumer and in a generated producer are equal when both were generated from the same descriptions, in any combination of targets, and differ whenever the description files differ in content. A peer presenting a different fingerprint is refused and never becomes usable.",
 ["programs", "inputs"], "all pairs of descriptions that differ in at least one byte; all target combinations; all corrupted fingerprints presented to a producer",
 "Tests always generate both sides together from the same files.",
 ["cli/src/helpers/hash.rs", "cli/src/protocol/store.rs", "cli/src/workflow/store.rs", WF],
 [("content hash of source files", "cli/src/helpers/hash.rs"), ("hash request handling", WF + "producer/rust/render_mod.rs, " + WF + "producer/typescript/render_mod.rs")],
 ["hash constants in generated code", "handshake messages on the wire"])

PR = [WF + "producer/rust/render_mod.rs", WF + "producer/rust/render_identification.rs", WF + "producer/rust/render_request_handler.rs", WF + "producer/rust/static/implementation"]
prop("C13", "Rust producer serves only connections that completed the handshake",
 "A generated Rust producer never runs a request or beacon handler for, and never sends a response to, a connection that has not been confirmed, presented matching fingerprints and a key, and (when required) been assigned. A connection presenting a wrong fingerprint or data before confirmation is reported and disconnected, and nothing it sends afterwards is served.",
 ["histories", "schedules", "fault_sequences"], "all orders of handshake messages, requests, beacons and garbage per connection, all interleavings of connections, all chunkings",
 "Integration tests only use well-behaved consumers.",
 PR, [("per-connection gate", WF + "producer/rust/render_mod.rs process_received_data"), ("assignment flags", WF + "producer/rust/render_identification.rs")],
 ["messages sent per connection", "handler invocation log", "disconnect calls"])

prop("C14", "Rust producer answers each request once, then broadcasts in order",
 "For every request from an accepted connection the producer invokes the described handler exactly once and sends the requester exactly one answer, of the described type and with the request's sequence, before any broadcast of that request. Each described broadcast reaches exactly the connections the handler listed, once each, in the described order; a handler error is sent as the described error message and causes no broadcasts.",
 ["histories", "schedules", "programs"], "all workflows (single response, conditional responses, required and optional broadcasts, several requests) x all handler decisions x all interleavings of connections",
 "Integration tests run a few scenarios once with a real socket and check counts of some messages.",
 PR, [("request handler", WF + "producer/rust/render_request_handler.rs"), ("dispatch", WF + "producer/rust/render_mod.rs")],
 ["messages sent per connection with sequence and order", "handler invocation log"])

prop("C15", "Rust producer keeps connections and lifecycle events separate",
 "Connected and disconnected are reported exactly once per connection, connected before any other activity of it and disconnected last; beacons are confirmed with their own sequence and delivered to the application exactly once per beacon. A fault of one connection (garbage, failed send, sudden disconnect) is reported and never stops the producer or loses, duplicates or misroutes traffic of other connections.",
 ["histories", "fault_sequences", "schedules"], "all interleavings of connects, disconnects, faults and traffic over several connections, including failing transport operations",
 "Integration tests have no failing transport and do not interleave faults with traffic.",
 PR, [("connection map", WF + "producer/rust/render_mod.rs"), ("emitters", WF + "producer/rust/static/implementation/emitters")],
 ["handler invocation log", "messages sent per connection"])

prop("C16", "Rust producer identifies connections as configured",
 "The identity visible to handlers is the key that connection presented and the key its application assigned, and is never mixed with another connection's. Under each configured identification policy a connection lacking the required key or assignment is ignored, warned about, reported or disconnected exactly as configured, and recipient filters return exactly the connections matching their predicate.",
 ["configurations", "histories"], "all combinations of the identification policies x all orders of presenting a key, assigning and sending requests x several connections",
 "Integration tests use one configuration.",
 PR, [("strategies", WF + "producer/rust/render_mod.rs"), ("filter", WF + "producer/rust/render_identification.rs")],
 ["identity values passed to handlers", "messages and disconnects per connection"])

prop("C17", "Rust producer control operations take effect completely",
 "Application-initiated send, broadcast and disconnect reach exactly the named connections once, and application-triggered events deliver their described broadcasts in the described order to exactly the listed connections. After shutdown completes, the producer and its transport are stopped, the run call has returned, and no handler runs or message is sent any more.",
 ["histories", "schedules"], "all orders of control calls against traffic, several concurrent control clones, shutdown at any point",
 "Integration tests call shutdown once at the end.",
 PR + [WF + "producer/rust/render_event_emitter.rs"], [("control channel", WF + "producer/rust/render_mod.rs")],
 ["messages sent", "return of run", "log after shutdown"])

CR = [WF + "consumer/rust/render_consumer.rs", WF + "consumer/rust/render_controller.rs", WF + "consumer/rust/static/implementation"]
prop("C18", "Rust consumer gives every request its own answer",
 "Each request call on a generated Rust consumer returns exactly one outcome: the response carrying that request's sequence, converted to the described type, or a timeout or connection error, whatever the order in which answers arrive. Late, duplicate or unexpected answers never reach another caller, and never stop the consumer from serving later requests.",
 ["schedules", "histories", "fault_sequences"], "all numbers of concurrent requests x all answer orders, delays, drops, duplicates, wrong types and chunkings",
 "Integration tests issue requests against a well-behaved producer that answers promptly in order.",
 CR, [("pending request table by sequence", WF + "consumer/rust/render_consumer.rs"), ("request timeout", WF + "consumer/rust/render_consumer.rs")],
 ["return value of each request call", "messages on the wire"])

prop("C19", "Rust consumer delivers broadcasts and lifecycle events faithfully",
 "Every broadcast received while the connection lives is passed to its described handler exactly once, in arrival order and with its value, also when it arrives during the handshake, between requests or next to unreadable data. The consumer reports connected only after the producer accepted its fingerprints and key, reports disconnection exactly once per connection, and when a connection ended without an error reconnects or stops as configured; after shutdown it stops. Data and messages it cannot use are reported as errors and nothing else, and a refused handshake is reported and ends the consumer.",
 ["schedules", "histories", "fault_sequences", "configurations"], "all arrival orders and chunkings of broadcasts, answers, garbage and disconnects relative to the handshake; both reconnection settings",
 "Integration tests see a handful of broadcasts on one healthy connection.",
 CR, [("message dispatch", WF + "consumer/rust/render_consumer.rs"), ("handshake", WF + "consumer/rust/render_consumer.rs")],
 ["broadcast and event handler log", "messages on the wire"])

prop("C20", "TypeScript producer serves only accepted peers and answers them correctly",
 "A generated TypeScript producer runs handlers only for connections that completed the handshake and meet the configured identification policy, sends each request exactly one answer with its sequence before that request's broadcasts, and sends each described broadcast to exactly the listed connections, once and in the described order, and no broadcast that is not described for the answer. Each connection is confirmed once when its connected handler has ended. Events and beacons reach their handlers exactly once and a peer's malformed data never throws out of the producer or affects other peers.",
 ["histories", "schedules", "configurations", "fault_sequences"], "all workflows x orders of handshake, requests, beacons and garbage x policies x connections",
 "The TypeScript producer is generated but never run by the tests.",
 [WF + "producer/typescript/render_mod.rs", WF + "producer/typescript/render_identification.rs", WF + "producer/typescript/render_request_handler.rs", WF + "producer/typescript/static"],
 [("per-connection gate", WF + "producer/typescript/render_mod.rs"), ("response/broadcast wrapper", WF + "producer/typescript/render_request_handler.rs")],
 ["messages sent per connection", "handler log"])

prop("C21", "TypeScript consumer pairs answers and delivers broadcasts faithfully",
 "Each request sent through a generated TypeScript consumer settles exactly once, with the answer carrying its own sequence routed to the matching described callback, whatever the arrival order; an unexpected answer type, a failed transmission, a lost connection or the end of the consumer settles it with an error. Every received broadcast is emitted exactly once and in order to its subscribers, unreadable data does not disturb the messages around it; the key is presented once the producer has confirmed the connection, and ready is reported once per connection and only after the producer accepted the key and the fingerprint.",
 ["schedules", "histories", "fault_sequences"], "all numbers of concurrent requests x answer orders, wrong answers, garbage, chunkings, disconnects; all workflows",
 "The TypeScript consumer is generated but never run by the tests.",
 [WF + "consumer/typescript/render_consumer.rs", WF + "consumer/typescript/render_request.rs", WF + "consumer/typescript/render_beacon.rs"],
 [("pending table by sequence", WF + "consumer/typescript/render_consumer.rs"), ("case routing", WF + "consumer/typescript/render_request.rs")],
 ["promise outcomes", "callback log", "subject log"])

prop("C22", "A generated consumer and producer work together end to end",
 "A consumer and a producer generated from the same descriptions, each into Rust or TypeScript, complete the handshake in all combinations; every request, beacon and broadcast of the workflow makes the full round with the values put in: it is served once, in the order in which the consumer's application issued it, and its outcome is the one the producer's application decided. Each application is told once of a connection's begin and end, and none of this is lost, duplicated, mixed up between consumers or reordered while a connection lives; what a lost connection cuts off is never served twice or answered wrongly.",
 ["schedules", "programs", "histories"], "all workflows x several consumers x concurrent requests, beacons and events over an in-memory transport that cuts and delays the byte stream",
 "The one integration test uses one workflow over a local socket without hostile chunking.",
 [WF + "producer/rust", WF + "consumer/rust", WF + "producer/typescript", WF + "consumer/typescript"], [("handshake on both sides", WF + "producer/rust/render_mod.rs; " + WF + "producer/typescript/render_mod.rs; " + WF + "consumer/rust/render_consumer.rs; " + WF + "consumer/typescript/render_consumer.rs")],
 ["application-level logs on both sides"])

prop("C23", "The generated diagram shows every described interaction",
 "When a diagram is requested it contains every request with all of its responses, error and broadcasts, every event with all of its broadcasts, and every beacon described in the workflow, each with the described message names and direction, and nothing that is not described.",
 ["programs"], "all workflows",
 "Tests generate a diagram for one workflow and do not read it.",
 [WF + "puml"], [("diagram rendering", WF + "puml/mod.rs, render_request.rs, render_event.rs, render_beacon.rs")],
 ["the diagram file"])

prop("C24", "The command line does exactly what it asks for",
 "With a status of success the generator has written exactly the outputs its command line asks for - Rust and TypeScript protocol, consumer and producer sources, diagram - at the paths given, relative to the working directory or absolute; spelling (short or long keys), order and working directory do not change the content of any output, embedding of the reader into a protocol output follows its key, a protocol output named without a path takes the place and name of the source, and a diagram is generated instead of the consumer and producer. A command line with an unknown or repeated key or argument, a key lacking its required value, a missing description, a destination missing or impossible, or an existing output without the overwrite key ends with a failing status and leaves every file as it was. Help names every key.",
 ["inputs", "programs"], "all combinations, orders and spellings of keys x relative and absolute paths x working directories x existing outputs; single mistakes in each",
 "No test runs the generator with more than one form of its command line.",
 ["cli/src/main.rs", "cli/src/ctrlargs.rs", "cli/src/arguments/args_option_files.rs", "cli/src/arguments/args_option_overwrite.rs", "cli/src/arguments/args_option_embedded.rs", "cli/src/arguments/args_option_help.rs"],
 [("keys and values", "cli/src/arguments/args_option_files.rs"), ("unknown arguments", "cli/src/ctrlargs.rs")],
 ["exit status", "file trees before and after", "help text"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
