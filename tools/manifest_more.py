WIRE = GEN + "random definitions are generated, compiled and run; "
MORE = {
 "C07": (GEN + "random histories of analyses compared with the same analysis in a process of its own", "Histories of valid, truncated and damaged texts and definition files in one process; the oracle is a fresh process, so any state carried over shows."),
 "C08": (GEN + "random proto3 definitions compiled by protoc; differential against its descriptors and protogen's Go names", "Thousands of generated definitions; every message, enum, field attribute and reference is compared with what the compiler says."),
 "C09": (GEN + "random services compiled by protoc; differential against its descriptors", "As C08, for the service, its unary rpcs and their types."),
 "C10": (GEN + "random annotations against the location rule applied to the abstract definition", "Every binding of every generated rpc is compared, parameter by parameter."),
 "C11": (GEN + "random identifiers; differential against protoc and protogen", "Tens of thousands of identifiers per run in all positions, compared with the compiler's own names."),
 "C29": (GEN + "random definition file sets looked up by path and by content, against protogen's name", "File orders, names, relative and absolute paths, content lookups; directory listings before and after."),
 "C13": (GEN + "random user service files regenerated in process; the oracle is the same file with the current types substituted, compared as tokens and comments", "Thousands of generated service files with code, comments and odd layout everywhere; every kept declaration and comment is accounted for."),
 "C14": (GEN + "random service files and definitions, regenerated twice; invariant over the exported functions of the result", "As C13; handlers added, removed and retyped in the same file, then once more from another definition."),
 "C15": (GEN + "random definitions and configurations, generated repeatedly from fresh models, in other processes and on top of the own output; metamorphic relation (byte equality)", "Map orders and processes vary between repetitions; definitions with missing handlers included."),
 "C16": (GEN + "random definitions, configurations and previous files, in process and through the built command; the oracle is the documented file set and a fresh run", "User-owned files with arbitrary content, corrupted generator-owned files and unrelated files, before and after."),
 "C17": (GEN + "random damaged definitions and service files given to the built command in scratch modules; protoc and go/parser as the oracles of validity, file trees compared", "About a thousand runs of the command, most of them failing, each over a tree with user files."),
 "C27": (GEN + "random path templates and values; round trip and reference model", "Hundreds of thousands of templates; expressions for clients are parsed, not compared as text."),
 "C28": (GEN + "random names and directories given to the built command; protoc and the command itself as the oracles", "Hundreds of starters, each compiled, generated from and written a second time."),
 "C12": (GEN + "random definitions, transports and client flags; every generated package is compiled and formatted", "About eighty services per run with all field kinds, oneofs, streaming rpcs and awkward names; compiled against the real protobuf and gRPC libraries, with stand-ins for go-kit, gorilla/mux and nats (none is installed). Names that clash with generated identifiers are probed and listed as known findings."),
 "C18": (WIRE + "concurrent calls through the generated HTTP client; round-trip oracle (protobuf equality at the service and at the caller)", "Thousands of calls of dozens of generated services with extreme values of every field kind. Uses stand-ins for go-kit's HTTP transport and gorilla/mux."),
 "C19": (WIRE + "hand-made HTTP requests written from the annotation by an independent encoder; the oracle is the message they were written from", "Every binding, all spellings of repeated parameters and both JSON name forms. Same stand-ins as C18."),
 "C20": (WIRE + "every binding and generated near misses; the oracle is a reference matcher over the annotated paths", "Every binding of every generated service with random path values, six near misses per pass."),
 "C21": (WIRE + "valid requests damaged in one random way; the oracle is the expected rejection, and the next valid request must be served", "Wrong types, out-of-range values, broken bodies and oneof conflicts at random positions."),
 "C22": (WIRE + "random errors (status code, headers, own JSON) and responses; reference model of the answer", "All combinations of the optional error interfaces with random messages, header sets and codes."),
 "C23": (WIRE + "random context values and selections; reference model of what must and must not arrive", "Over HTTP and gRPC; names and values as HTTP header syntax allows."),
 "C24": (WIRE + "concurrent calls through the generated gRPC client; round-trip oracle (protobuf equality, status code and message)", "As C18, with the real gRPC library over an in-memory connection."),
 "C25": (WIRE + "concurrent calls through the generated NATS client; round-trip oracle", "As C18, with a stand-in for the NATS client library and go-kit's NATS transport."),
 "C26": (WIRE + "random histories of wrappings and exclusions; reference model of the call trace", "Every rpc is called after each history, over a random transport; service hooks included."),
 "C36": (WIRE + "random calls given up at random moments by their callers, followed by further calls; invariant over the caller's error, the service's context and the following answer", "Thousands of calls over four transports and dozens of generated services; judged by contexts and errors, generous time limits."),
 "C41": (WIRE + "random lists of transport options for every server and client, then calls of every rpc and requests of every binding; reference model of which option does what, in which order", "Thousands of calls with up to five options on each side, every kind of option and of outcome. Uses stand-ins for go-kit's transports, which keep its order of events."),
 "C42": (WIRE + "requests and responses written by an independent encoder in random spellings with unknown members and fields; round-trip oracle (protobuf equality of the known fields)", "Thousands of messages with extreme values of every field kind. Uses stand-ins for go-kit's transports and NATS, the real gRPC library."),
 "C37": (WIRE + "random groups of simultaneous calls over all transports, compiled with Go's race detector; round-trip oracle for every call, and no data race", "Groups of up to twelve calls; interleavings are those the machine produces, the race detector also sees races that did not change a result."),
 "C30": (GEN + "random combinations of flags and environment variables given to generated server commands run as processes; reference model of the precedence", "Over a thousand combinations per run, in every flag spelling, repeated and empty; judged by who listens where on the loopback network. NATS is a stand-in over TCP."),
 "C31": (GEN + "random histories (calls, malformed traffic, client command runs, taken addresses, signals) with generated commands run as processes; invariant over the responses and the processes", "Hundreds of histories with sixteen generated services per run. Uses stand-ins for go-kit, gorilla/mux and NATS, the real gRPC library."),
 "C32": ("fault injection at random points (file size limits, kills and failing system calls through strace, kills at random times) in runs of the built command over generated projects; the oracle is the tree before and the tree of an undisturbed run", "Hundreds of disturbed runs, most over services with edited user files; then a run again, compared with the undisturbed one. Without a usable strace only limits and random kills remain (the evidence says so)."),
 "C33": (GEN + "random layouts of modules, working directories, definition paths and svcout values given to the built command; reference model of the places and import paths, and a metamorphic relation to the plainest layout", "Hundreds of layouts per run, nested modules, workspaces and GOPATH included; a rerun must change nothing."),
 "C34": (GEN + "random histories of runs in one module; differential against a run in a new module after every step", "Hundreds of runs with moving services, changing files, failing runs and user edits."),
 "C38": (GEN + "random options in random spellings given to the built command; metamorphic relation to the plainest spelling, and a model of what each option means", "Hundreds of command lines per run, in new modules and over services made before; wrong ones and those that only ask must change nothing."),
 "C39": (GEN + "random histories of runs; the report of each run against a comparison of the files before and after", "Hundreds of runs per check, with definitions that change and user edits."),
 "C40": (GEN + "random arguments and answers given to a command built without version data, with stand-ins for make and the installed baron that record and fail at random; reference model of what is run and how it ends", "Hundreds of starts per run; every way of answering, of failing and of being built without version data."),
 "C35": (GEN + "random groups of simultaneous runs of the built command; differential against the same runs one after another", "Hundreds of runs in groups of up to sixteen; the interleavings are those the machine produces."),
 "C43": (GEN + "random definitions rewritten in random equivalent ways and given to the built command; metamorphic relation (the generated files are the same)", "Hundreds of pairs per run: comments and blanks between any two tokens, CRLF, quotes, byte order marks, unrelated declarations, custom options."),
}
