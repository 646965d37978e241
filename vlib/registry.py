"""Which function decides which property, the evidence rule, and the assumptions."""
PROD = ["handlers of the application are serialised by the producer; the order in which transport events, application events, identity changes and confirmations "
        "waiting at the same time are served is not specified"]
REG = {
    "C01": ("codec:c01", "protocols: two fixed ones with every member kind and more than 512 ids, and random ones; values random with boundary "
            "values, written by the generated Rust code and read back by its reader; distinct: structural shape of the value per protocol", []),
    "C02": ("codec:c02", "as C01 for the generated TypeScript code run in node, plus from() with well typed plain objects, bodies and objects with one "
            "wrong member; distinct: structural shapes of values, and (kind of fault, member kind)", []),
    "C03": ("codec:c03", "each value packed by either output and read by the other, bodies compared with an independent codec of the documented "
            "layout; distinct: direction, protocol and structural shape", []),
    "C04": ("codec:c04", "streams of packed messages cut at message, header and random borders, byte by byte, with empty chunks and interleaved reads; "
            "after every chunk counts, lengths and messages are compared with a model; distinct: (reader, protocol, partition)", []),
    "C05": ("codec:c05", "streams mixing good messages with unknown ids, foreign signatures and mutated bodies, and arbitrary bytes; allocation guard "
            "64 MiB + 64 x input, CPU limit 20 s, panic and exception catcher; distinct: (reader, protocol, kinds of bad messages, chunk count)", []),
    "C06": ("codec:c06", "a recording, length changing middleware that refuses some messages, in all drivers; call log compared with the expected one; "
            "distinct: direction, value shape, group size, refusals, identity given", []),
    "C07": ("types:c07", "random descriptions (some with more than 255 and 512 ids) generated as protocol and as workflow, into both targets, twice; ids read from "
            "the packages every distinct output packs; every output reads what every other one packed; distinct: (output, number of messages), pairs of outputs", []),
    "C08": ("types:c08", "random protocols and workflows: programs that compile only against exactly the described types (exhaustive destructuring and matching, "
            "type equality in TypeScript), whole consumers and producers compiled by rustc and type checked by tsc, modules loaded in node; distinct: shape of the description",
            ["errors tsc reports only because the installed typings are younger than the code (ArrayBufferLike, Buffer<...>) are not counted"]),
    "C09": ("gen:c09", "correct random descriptions put through every mutator of the grammar and of the semantic rules (tokens, truncations, names, "
            "references, types, nesting, encoding, command line); the real generator runs on each in an existing and in an empty project; exit "
            "status and a snapshot of the whole directory are compared; distinct: (mutator, existing output or not, description size or targets)", []),
    "C10": ("outputs:c10", "histories of generating, editing, damaging and deleting files of both owners, adding own files inside and outside of the destinations, "
            "changing descriptions and targets, generating again; after each run every file is compared with its owner's last content or with a "
            "generation into an empty project, manifests as values; distinct: (targets, step, workflow size), protocol outputs with and without -o", []),
    "C11": ("outputs:c11", "all outputs (projects, protocols, embedded or not, diagram) generated twice in place, elsewhere, under other environments and from other "
            "layouts of the same descriptions; trees compared byte for byte, fingerprints masked for other layouts; distinct: (kind, targets, layout, size)", []),
    "C12": ("producer:c12", "all target combinations generated from the same, from separately placed and from slightly edited descriptions (whitespace, comments, line ends, large "
            "files), embedded fingerprints compared as sets; then producers running with a recording transport and peers presenting corrupted "
            "fingerprints; distinct: (kind, edit, targets), observed behaviours of a run", []),
    "C13": ("producer:c13", "random workflows; generated producers compiled with recording handlers and an in-memory transport; handshakes in all orders, incomplete, repeated, with wrong fingerprints, before confirmation; random chunking and interleaving; "
            "every record of the run checked against a model that searches over the order in which queues are served; distinct: sets of behaviours observed in a run", PROD),
    "C14": ("producer:c14", "random workflows; generated producers compiled with recording handlers and an in-memory transport; requests of several connections with all decisions of handlers, single and conditional answers, required and optional broadcasts, deferred calls; random chunking and interleaving; "
            "every record of the run checked against a model that searches over the order in which queues are served; distinct: sets of behaviours observed in a run", PROD),
    "C15": ("producer:c15", "random workflows; generated producers compiled with recording handlers and an in-memory transport; connects, sudden disconnects, failing transmissions and disconnects, transport errors and garbage between beacons and requests; random chunking and interleaving; "
            "every record of the run checked against a model that searches over the order in which queues are served; distinct: sets of behaviours observed in a run", PROD),
    "C16": ("producer:c16", "random workflows; generated producers compiled with recording handlers and an in-memory transport; all policies, keys presented and replaced, identities set and merged by handlers, recipient filters; random chunking and interleaving; "
            "every record of the run checked against a model that searches over the order in which queues are served; distinct: sets of behaviours observed in a run", PROD),
    "C17": ("producer:c17", "random workflows; generated producers compiled with recording handlers and an in-memory transport; send, broadcast, disconnect, events and shutdown called by the application at any point, also while a handler runs; random chunking and interleaving; "
            "every record of the run checked against a model that searches over the order in which queues are served; distinct: sets of behaviours observed in a run", PROD),
    "C18": ("rscons:c18", "random workflows; generated Rust consumers compiled and run on an in-memory transport under a virtual clock: concurrent calls (from the application and from handlers, dropped, on dead handles), "
            "answers in any order, wrong, twice, after the timeout, broken, in pieces, lost connections, refused transmissions; every record checked against a reference model; distinct: sets of behaviours observed in a run",
            ["one runtime thread and a virtual clock", "a handler does not wait for the shutdown of its own consumer", "sequences do not wrap around"]),
    "C19": ("rscons:c19", "random workflows; generated Rust consumers on an in-memory transport under a virtual clock: broadcasts around and within the handshake, between answers and garbage, in pieces; blocked handlers, "
            "refused and broken handshakes, connections closed, reset and refused, reconnection allowed, refused and disabled, shutdown; every record checked against a reference model; distinct: sets of behaviours observed in a run",
            ["one runtime thread and a virtual clock", "data is read before the connection ends", "the producer confirms a connection once"]),
    "C20": ("tsprod:c20", "random workflows; generated TypeScript producers bundled with recording handlers and an in-memory transport of varying promptness; handshakes in all orders, wrong fingerprints, garbage, "
            "all policies, requests, beacons, events, gates, failing handlers and transmissions, disconnects, application calls; every record checked against a reference model in its order; "
            "distinct: sets of behaviours observed in a run",
            ["the npm package clibri is replaced by ts/clibri (its interfaces, synchronous subjects, options)", "answers of one request are different messages (see known findings)"]),
    "C21": ("tscons:c21", "random workflows; generated TypeScript consumers bundled and run on an in-memory transport that answers in any order, wrongly, twice, late, in pieces, loses the connection, refuses transmissions; "
            "requests and beacons sent concurrently, again, from callbacks, destroyed; own and global consumers; every record checked against a reference model; distinct: sets of behaviours observed in a run",
            ["the npm package clibri is replaced by ts/clibri (its interfaces, synchronous subjects, options)", "the transport delivers no data within a transmission"]),
    "C22": ("e2e:c22", "random workflows generated for Rust and TypeScript at both ends; one producer and up to four consumers of both platforms run in their own processes and a hub carries their bytes in pieces "
            "and late: requests and beacons from applications and handlers, events, gated handlers, lost connections, reconnections, disconnects by either end; what the applications see is compared; "
            "distinct: platforms and set of behaviours observed in a run",
            ["the transports are in memory and deliver in order", "outcomes of a request are different messages (see known findings)", "the npm package clibri is replaced by ts/clibri"]),
    "C23": ("outputs:c23", "diagrams of random workflows parsed and compared with the workflow model as multisets of arrows per section; distinct: shape of a group", []),
    "C24": ("cmdline:c24", "the same request in random spellings, orders, paths and working directories, outputs and whole trees compared with the canonical command line; every kind of "
            "mistake in each, status and tree compared; distinct: (kind of request, embedded), (mistake, kind of request)", []),
}

TECH = {
    "C12": "runtime monitoring: fingerprints observed in all outputs of differential runs; model based trace checking of producers under corrupted fingerprints",
    "C13": "runtime monitoring: model based checking of recorded producer traces under hostile handshakes",
    "C14": "runtime monitoring: model based checking of recorded producer traces (exactly once, order, recipients)",
    "C15": "runtime monitoring: model based checking of recorded producer traces under transport faults",
    "C16": "runtime monitoring: model based checking of recorded producer traces (identities, filters, policies)",
    "C17": "runtime monitoring: model based checking of recorded producer traces and control call results",
    "C18": "runtime monitoring: model based checking of recorded traces of Rust consumers",
    "C19": "runtime monitoring: model based checking of recorded traces of Rust consumers",
    "C20": "runtime monitoring: model based checking of recorded traces of TypeScript producers",
    "C21": "runtime monitoring: model based checking of recorded traces of TypeScript consumers",
    "C22": "runtime monitoring: offline comparison of what the applications at both ends observe in systems of generated programs",
    "C07": "runtime monitoring: ids observed in packages of all outputs, cross dispatch between outputs",
    "C08": "runtime monitoring: observing rustc, tsc and node on generated code and on programs that use exactly the described types",
    "C01": "runtime monitoring: round trips of generated Rust code against the values put in; panic hook",
    "C02": "runtime monitoring: round trips and from() of generated TypeScript code against the values put in",
    "C03": "runtime monitoring: differential execution of both outputs and an independent codec",
    "C04": "runtime monitoring: online model of the reader's queue over random chunkings",
    "C05": "runtime monitoring: fuzzing under an allocation guard, CPU limit and panic/exception monitor, with a recovery oracle",
    "C10": "runtime monitoring: snapshots of the whole project before and after each run of a history, ownership oracle and reference generation",
    "C11": "runtime monitoring: differential runs of the generator, byte comparison of all outputs",
    "C24": "runtime monitoring: differential runs of the generator under equivalent and wrong command lines, exit status and file tree snapshots",
    "C23": "runtime monitoring: parsing the produced diagrams and comparing them with the workflow model",
    "C09": "runtime monitoring: differential runs of the generator on mutated descriptions, exit status and file tree snapshots, CPU and memory limit",
    "C06": "runtime monitoring: recorded middleware call log against the expected log",
}
