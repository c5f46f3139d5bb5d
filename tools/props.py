# Source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/gen.py).
AI = "abstract interpretation of the type-checked SSA"
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, claimed=claimed, reason=reason))

p("C01", "Malformed or hostile input never panics the decoders",
  "Whatever bytes arrive on a connection, in a datagram or in a buffer handed to a decoding function, decoding ends in a value or an error; it never panics with an out-of-range index, a nil map or pointer, a failed type assertion or an impossible allocation. This covers every exported function that splits, inspects or unpacks a message and the server's own reading of framed connections and datagrams.",
  ["inputs"], "All byte strings of any length, all declared lengths, all decoded header contents.",
  "The tests decode a handful of well-formed messages; every truncated, oversized or type-confused message is outside them.",
  ["packx.go", "pack-type.go", "utils.go", "context.go", "tcpx.go"],
  [("length checks before every slice of a received buffer", "packx.go HeaderBytesOf, BodyBytesOf, FirstBlockOfBytes"), ("declared length checked before allocation", "packx.go UnpackToBlockFromReader*"), ("checked assertions on header values", "tcpx.go isPipe, utils.go headerGetString")],
  AI + ": interval/linear-relational facts discharge every index, slice, allocation, assertion and nil obligation",
  "Every index, slice, allocation, type assertion and dereference reachable from an exported decoding entry point, and from the goroutines that read connections, is discharged for all inputs, or reported with its call site.")

p("C02", "Every encoder emits, and every decoder reads, the same wire layout",
  "A packed message is exactly: four big-endian 32-bit fields (total length that follows, message id, header length, body length), then the JSON of the header, then the body bytes; the length fields always equal the parts that follow, and every encoding function (including raw-body, header-less and heartbeat messages) obeys it. For every well-formed message, each decoding accessor returns exactly the part it names: the id, the lengths, the header and the body that were encoded, including empty headers and bodies. Optional header maps given to a packer are all merged, later keys winning.",
  ["inputs"], "All message ids, headers, bodies and marshallers, empty ones included.",
  "Tests round-trip a few small messages; a length or offset that is wrong only for empty or unusual parts is not sampled.",
  ["packx.go", "message.go", "pack-type.go", "marshaller.go"],
  [("field layout 0/4/8/12/16", "packx.go PackWithMarshaller, PackWithMarshallerAndBody"), ("accessors", "packx.go MessageIDOf, LengthOf, HeaderLengthOf, BodyLengthOf, HeaderBytesOf, BodyBytesOf")],
  AI + ": symbolic byte-sequence domain for buffers, compared with the documented layout",
  "The abstract content of each encoder's result buffer is compared field by field with the layout; each decoder is analysed on an abstract well-formed message with arbitrary part sizes and contents.")

p("C03", "One message per read: framing never splits, merges, drops or reorders",
  "Taking the next message off a stream consumes exactly the bytes of that one message, however the transport splits or coalesces them, and returns exactly those bytes, including when the last bytes arrive together with end-of-stream. A framed server hands to its handlers exactly the messages of the stream, each whole, in order, none skipped and none twice. An incomplete message is an error, never a short or padded message.",
  ["inputs", "schedules"], "All streams, all ways the transport cuts them into reads, all message sizes.",
  "Loopback tests receive each message in one read; partial reads and data-with-EOF are never produced.",
  ["packx.go", "tcpx.go"],
  [("read until the declared length is filled", "packx.go readUntil, UnpackToBlockFromReader*"), ("server read loop", "tcpx.go ListenAndServeTCP connection goroutine")],
  AI + ": stream-position domain; the consumed and returned stream regions are compared with the declared length",
  "Reads are modelled as returning any prefix with any error allowed by io.Reader; loops are analysed to a fixpoint, so every segmentation is covered.")

p("C04", "The configured message size limit bounds every framed read",
  "With a maximum message size configured, a framed server never allocates for or accepts a message whose size (the length it declares: everything after the length field) exceeds it: such a message, whether a single one or a member of a pipelined group, ends in an error before its content is buffered. Messages within the limit are accepted. With no limit configured (zero) no well-formed message is refused for its size.",
  ["inputs", "configurations"], "All limits, all declared lengths, first messages and pipeline members.",
  "The tests never configure a limit smaller than a message they send.",
  ["packx.go", "tcpx.go"],
  [("limit check before allocation", "packx.go UnpackToBlockFromReaderLimitMaxLengthOfByte"), ("limit passed on every read", "tcpx.go ListenAndServeTCP")],
  AI + ": relational facts at every allocation and message acceptance after a length is read",
  "For each allocation sized by received data the fact 'size <= configured limit or no limit' must hold; success outcomes must not be excluded within the limit.")

p("C05", "A panic in user code never takes the server down",
  "A panic raised by any user-supplied callback or handler (connect, message, close, heartbeat-loss, middleware, handlers, raw handler, codec) is contained in the goroutine of the connection or message it happened on: it never propagates out of a goroutine and never ends a serving loop. Other connections, and later messages of the same connection, keep being served.",
  ["programs", "histories"], "All user callbacks panicking at any call.",
  "Tests only use well-behaved callbacks.",
  ["tcpx.go", "utils.go"],
  [("recovering defers", "tcpx.go handleMiddleware, handleOnConnect, connection goroutines")],
  AI + ": every user callback may panic; panics are propagated through the deferred calls to the goroutine's root",
  "No goroutine started by a server may end in an unrecovered panic, and a user panic must not leave the accept loop or the read loop.")

p("C06", "Connection teardown happens on every exit, exactly once",
  "Whatever ends a connection (peer close, malformed or oversized data, read error, or a panic in a callback), the server closes the network connection and marks it closed, and runs the close callback once per accepted connection whose handling was started. A connection whose connect callback panicked is closed as well. The accept loop never leaves an accepted connection both unserved and open.",
  ["fault_sequences", "inputs", "programs"], "All exits of a connection's handling, including callback panics.",
  "Tests close connections cleanly at most.",
  ["tcpx.go", "context.go"],
  [("deferred close and OnClose", "tcpx.go connection goroutines"), ("CloseConn", "context.go CloseConn")],
  AI + ": typestate (open/closed, close-callback count) over all exits including unwinding",
  "Every outcome of a connection goroutine, normal or panicking, must have closed the connection and invoked the close callback exactly once when configured.")

p("C07", "Per-connection goroutines end with the connection; signals never block",
  "Every background goroutine the server keeps for a connection can be ended by the connection's end: each place it waits also waits for that end and then returns. Reporting a heartbeat or an authentication result from a handler never blocks, however often it is done and whether or not anything is listening. Messages handled over datagrams start no such goroutines.",
  ["schedules", "histories"], "All schedules of closing, heartbeats, auth signals and server stop.",
  "Leaks and blocked senders are invisible to tests that end the process.",
  ["tcpx.go", "context.go"],
  [("connection-end channel closed by CloseConn and awaited in every watcher", "tcpx.go heartBeatWatch, broadcastSignalWatch, authWatch; context.go CloseConn"), ("non-blocking sends", "context.go RecvHeartBeat, RecvAuthPass, RecvAuthDeny")],
  AI + ": enumeration of blocking operations with channel identity and the branch taken after the end signal",
  "Each blocking select or receive in a per-connection goroutine is checked to include the connection's end channel and to leave the goroutine when it fires; exported signalling methods are checked to perform no blocking send.")

p("C08", "The client pool reflects live connections only",
  "Bringing a connection online under a name makes that name resolve to it, and a renamed connection is no longer found under its former name. A connection going offline or closing removes its own entry and never another connection's entry of the same name, and a connection that is already closed is never left in the pool. Sending to a name reaches only the connection registered under it and fails when there is none.",
  ["histories", "schedules"], "All orders of online, offline, rename and close on several connections.",
  "Tests use one client per name.",
  ["client-pool.go", "context.go"],
  [("conditional removal under the pool lock", "client-pool.go offline"), ("re-check after publishing", "context.go Online"), ("offline on close", "context.go CloseConn")],
  AI + ": symbolic map domain for the pool content before and after each operation",
  "The abstract effect of each operation on an arbitrary pool is compared with the stated one on every path.")

p("C09", "Locks are always released and never deadlock",
  "No call of the API returns, panics or blocks forever while still holding one of the library's internal locks, and none locks one it already holds or unlocks one it does not hold. Two internal locks are never taken in conflicting orders. No user callback and no network or channel wait happens while an internal lock is held.",
  ["schedules", "programs"], "All paths of all exported operations, including panicking ones.",
  "A leaked or re-entered lock shows only on rare paths or interleavings.",
  ["tcpx.go", "context.go", "mux.go", "client-pool.go"],
  [("lock/defer unlock pairs", "client-pool.go, mux.go, tcpx.go state and property list, context.go")],
  AI + ": lock-set typestate and lock-order graph over all exported entry points and goroutines",
  "The set of held locks is tracked on every path including unwinding; must be empty at every return of an entry point or goroutine.")

p("C10", "State shared between goroutines is only touched under its lock",
  "The pool's content, the server's run state, its list of listeners and its close-all signal, the connection's online/offline state, are read and written only while holding the lock that guards them, with the exclusive mode for writes; the routing tables (ids, urls, middlewares and anchors) are modified by the server's registration methods only while holding the routing lock exclusively. Copies handed out to callers never alias the guarded structure.",
  ["schedules"], "All schedules of concurrent API calls.",
  "The race needs a specific interleaving; tests are run without contention.",
  ["tcpx.go", "context.go", "mux.go", "client-pool.go"],
  [("guarded-by discipline", "client-pool.go m; tcpx.go pLock; context.go L; mux.go Mutex")],
  AI + ": lock-set at every access of the guarded fields (guarded-by analysis)",
  "Each load and store of a guarded location on an object that may be shared must happen with the guarding lock held in a sufficient mode.")

p("C11", "Middleware runs in the documented order and set for every message",
  "For a message routed by id or by url pattern the chain is: every global middleware in registration order, then every anchored middleware in use at the point the handler was registered, in order, then the middlewares registered with the handler, then the handler itself; nothing is skipped, repeated or added. With a catch-all message callback, and on raw servers, the chain is all global middlewares, all anchored middlewares, then that callback. Only the built-in heartbeat and authentication messages may bypass middleware, only when the feature is on and configured so, and then the handler alone runs.",
  ["configurations", "inputs"], "All registrations and all messages.",
  "Tests register one or two middlewares and look at printed output.",
  ["tcpx.go", "mux.go", "context.go"],
  [("chain composition", "tcpx.go handleMessageIDHandlers, handleURLPatternHandlers, handleOnMessage, handleRaw")],
  AI + ": symbolic sequence domain for the composed chain, loop summaries for the registered lists",
  "The chain at the moment it starts running is compared, as a symbolic sequence, with the documented concatenation.")

p("C12", "Abort stops the chain; otherwise every link runs exactly once",
  "Once a handler has aborted, no later link of that message's chain runs. If nobody aborts, each link runs exactly once and in order, whether links call on to the next one explicitly or not. A new message always starts its chain from the first link, whatever happened to previous messages.",
  ["programs", "histories"], "All combinations of aborting and advancing in all links.",
  "Tests check one abort at one position.",
  ["context.go", "tcpx.go"],
  [("offset/abort protocol", "context.go Next, Abort, Reset, copyContext")],
  AI + ": inductive transition relation of the chain index for one step of advancing and aborting",
  "The step from one link to the next is analysed for an arbitrary chain and position; chains are assumed shorter than the abort sentinel (2019).")

p("C13", "Messages on one connection do not share request state",
  "Each message is handled with its own stream, its own request-scoped key/value store and its own chain position, so concurrent messages of one connection never see or overwrite each other's; connection-scoped values, the connection itself and its online state are shared by all of them. The received bytes a handler sees are never overwritten by later reads.",
  ["schedules", "histories"], "All interleavings of concurrently handled messages.",
  "Needs overlapping handlers on one connection.",
  ["context.go", "tcpx.go"],
  [("per-message copy", "context.go copyContext"), ("fresh buffers", "packx.go UnpackToBlockFromReader*")],
  AI + ": ownership/escape analysis of what is handed to each message goroutine",
  "At each dispatch the handed-over context, request store, chain array and buffer must be fresh since the previous dispatch and unshared with the reading goroutine.")

p("C14", "Heartbeat: three silent intervals close the connection, a beat resets",
  "With heartbeats on, a connection is closed, after the heartbeat-loss callback if one is set, when three consecutive intervals pass without a heartbeat, and not sooner. A received heartbeat restarts the count. The connection is closed even if the loss callback panics, and heartbeats reported on any message context of the connection reach its watcher.",
  ["schedules", "histories"], "All sequences of beats and silent intervals.",
  "Tests cannot wait for, and do not order, beats and time-outs.",
  ["tcpx.go", "context.go"],
  [("miss counter", "tcpx.go heartBeatWatch"), ("one channel per connection", "context.go HeartBeatChan")],
  AI + ": counter typestate of the watch loop against a reference automaton",
  "The watch loop's transitions on beat, time-out, server stop and connection end are compared with the automaton; real time is abstracted to events.")

p("C15", "An unauthenticated connection is closed by the deadline",
  "When authentication is required, each framed connection is closed by the server if no result is reported within the configured time or a denial is reported, and stays open when acceptance is reported in time. The first reported result counts.",
  ["schedules", "configurations"], "All orders of result, deadline, close and stop.",
  "Tests exercise acceptance only.",
  ["tcpx.go", "context.go"],
  [("auth watcher", "tcpx.go authWatch, ListenAndServeTCP"), ("result channel", "context.go RecvAuthPass, RecvAuthDeny")],
  AI + ": case analysis of the watcher's select with channel identity and sent constants",
  "The watcher must exist for each connection when configured; each case must close, or not close, as stated.")

p("C16", "Stop ends every listener and, on request, every connection",
  "Stopping closes every listener and datagram socket the server has opened, so each serving call returns and no connection is accepted afterwards; stopping an already stopped server is an error and has no effect, also when several stops race. Stopping with close-all closes every connection accepted before it and takes it out of the pool; without it, connections, their heartbeats and their pool entries live on. Connections accepted after a restart are not affected by an earlier close-all.",
  ["schedules", "histories"], "All orders of listen, accept, stop and restart.",
  "Tests stop an idle server once.",
  ["tcpx.go"],
  [("state under lock, listener list, close-all channel swap", "tcpx.go Stop, stopState, closeAllConnection, openState")],
  AI + ": effect analysis of Stop per argument and path; channel identity between signal and watchers",
  "The effects of Stop on servers with 0 to 3 endpoints are enumerated per path; state test and signal swap must be atomic under the lock; every serving call must have its listener in the list before it waits, end after a failure once stopped, and hand each accepted connection to a watcher that closes it on the signal of its time.")

p("C17", "Start serves again exactly what was stopped",
  "Starting a stopped server listens again on each network and address it was serving before, with the same kind of server (framed, raw or datagram) and buffer size; starting a running server is an error and has no effect. Restart is stop, then the given functions in order, then start, and gives up with the error if stopping fails.",
  ["histories"], "All histories of listening, stopping and starting.",
  "Tests restart one tcp listener at most.",
  ["tcpx.go"],
  [("remembered serve functions", "tcpx.go fillProperty, Start")],
  AI + ": data-flow of the remembered listen parameters into the restarted serving call",
  "The list entry left by each serving call (0 to 2 other entries) must hold its network, address and a function which, when analysed, makes the same serving call with the same arguments; Start (0 to 3 entries) must start one goroutine per entry that calls it once; Restart's effects are compared in order.")

p("C18", "A reply is one whole message, written once to the right peer",
  "Every reply or send writes exactly one complete packed message, in a single write, to the connection (or datagram peer) it is addressed to, and nothing when packing fails. A packing or write error is returned to the caller; no error means the message was handed to the transport.",
  ["inputs", "fault_sequences"], "All messages, marshallers, headers and write errors.",
  "Write errors and interleaved writers are not produced by the tests.",
  ["context.go", "utils.go"],
  [("reply path", "context.go Reply, JSON..., SendToUsername, replyBuf; utils.go WriteJSON")],
  AI + ": effect sequence (writes) of each reply function with symbolic buffer content",
  "On each path the list of writes and their abstract content is compared with one frame; returned errors are compared with the failing operation.")

p("C19", "Marshaller names select the same codec everywhere",
  "Each marshaller's own name and its documented aliases select that marshaller, by every function that accepts a marshaller name; an unknown name is an error. Each marshaller encodes and decodes with the same format, and binding or replying in a named format uses that format whatever the connection's default is.",
  ["configurations", "inputs"], "All marshaller names and values.",
  "Tests cover some names with one value each.",
  ["marshaller.go", "packx.go", "pack-type.go", "context.go"],
  [("name tables", "marshaller.go GetMarshallerByMarshalName; packx.go PackWithMarshallerName, UnpackWithMarshallerName")],
  AI + ": per-name constant propagation; codec calls identified by library function",
  "Each name is propagated through each by-name function; the codec library call reached must be the format's.")

p("C20", "Anchored middleware applies exactly to handlers added while in use",
  "A middleware applies to exactly the handlers registered between each of its uses and the following un-use (or the end of registration), for any number of use/un-use rounds and any handler kind. Using a middleware that is still in use, or un-using one that is not, is refused and changes nothing.",
  ["histories", "configurations"], "All sequences of use, un-use and handler registration.",
  "Tests cover one or two rounds.",
  ["anchor.go", "mux.go", "tcpx.go"],
  [("index ranges", "anchor.go Contains, callUse, callUnUse"), ("shared increasing index", "mux.go CurrentAnchorIndex")],
  AI + ": symbolic sequences and loop summaries for the ranges; strictly increasing index",
  "Effects of use and un-use on an arbitrary history, and the membership test, are compared with the interval specification.")

p("C21", "Pipelined messages run in order, one at a time, all of them",
  "The members of a pipelined group are handled strictly in the order sent, each to completion before the next starts, all of them, and by one goroutine; a panic in one does not keep the others from being handled. A truncated group is handled as far as it was received and then ends the connection. A client-side pipeline of n messages is sent as one write of n consecutive messages whose first announces n.",
  ["inputs", "schedules"], "All group sizes, all truncations and panics.",
  "Tests send one small group.",
  ["tcpx.go", "utils.go"],
  [("group reading and sequential handling", "tcpx.go ListenAndServeTCP, handlePipe, isPipe"), ("client side", "utils.go PipeJSON")],
  AI + ": loop summaries for reading and handling the group; symbolic content of the client's write",
  "The collected sequence must be the consecutive messages of the stream and the handling loop must call the message handler for each in order synchronously.")

p("C22", "Each datagram is handled on its own, a bad one is skipped",
  "Every received datagram is handled as one message with its own context whose replies go to the sender of that datagram. An undecodable or failed datagram is skipped without affecting later ones; only the socket's closing or the server's stop ends the loop. No datagram's bytes are overwritten by a later one while being handled.",
  ["inputs", "fault_sequences"], "All datagrams, senders and read errors.",
  "Tests send one datagram.",
  ["tcpx.go", "context.go"],
  [("datagram loop", "tcpx.go ListenAndServeUDP, ReadAllUDP; context.go NewUDPContext")],
  AI + ": loop typestate and ownership of buffer and address per iteration",
  "Per loop iteration: fresh buffer and context, sender address flows into the context, decode errors continue, closed-socket errors and stop end the loop.")

p("C23", "Messages reach exactly the handler registered for them",
  "A message is routed by its header's router kind: to the handler registered for its id, or to the handlers registered for its url pattern; messages for which none is registered are dropped without effect. Registering a second handler for an id is refused; each handler of a url pattern is registered once and in order. A catch-all message callback takes precedence over both.",
  ["configurations", "inputs"], "All registrations and messages.",
  "Tests register a few ids.",
  ["mux.go", "url-mux.go", "tcpx.go", "context.go"],
  [("routing", "tcpx.go handleMiddleware; context.go routerType; mux.go AddHandleFunc; url-mux.go AddURLPatternHandler")],
  AI + ": symbolic map domain for the routing tables; key data-flow from the message to the lookup",
  "Lookups must use the id / pattern of this message; registration effects are compared with the stated map updates.")

p("C24", "TLS, once configured, is never silently dropped",
  "When a TLS configuration is set, framed and raw servers accept only TLS connections made with that configuration, also after a restart; they never fall back to plain text. Loading certificate files either installs exactly that certificate or returns an error and leaves the configuration unchanged.",
  ["configurations"], "All configurations and all serving kinds.",
  "The tests' TLS server is not part of the reliable suite.",
  ["tcpx.go", "tls.go"],
  [("listener construction", "tls.go newListener; tcpx.go ListenAndServeTCP, ListenAndServeRaw, LoadTLSFile")],
  AI + ": data-flow from the configuration to the listener whose connections are accepted",
  "On every path on which the configuration may be set, the accepting listener must come from the TLS constructor with that configuration.")

p("C25", "Configured deadlines are applied to every connection before use",
  "Every accepted connection, and the datagram socket, has the configured general, read and write deadlines set before anything is read from or written to it; a specific read or write deadline is never overridden by the general one, and an unset one does not clear it. Changing a deadline through a message's context applies it to that connection.",
  ["configurations"], "All combinations of configured deadlines.",
  "Tests set one deadline at most.",
  ["tcpx.go", "context.go"],
  [("deadline calls", "tcpx.go accept loops, ListenAndServeUDP; context.go SetDeadline...")],
  AI + ": ordered effect analysis of deadline calls per accepted connection",
  "The last effective value of each deadline at the time the connection is first used is compared with the configuration.")

p("C26", "Exit jobs all run, in order, before the process exits",
  "On a termination signal every registered exit job runs once, in order, each even if an earlier one panicked, and only then does the process exit with success. Nothing runs and nothing exits without a signal. Registering never blocks the caller.",
  ["fault_sequences", "programs"], "All job lists with any job panicking.",
  "Tests never deliver a signal.",
  ["tcpx.go", "utils.go"],
  [("signal goroutine", "tcpx.go BeforeExit; utils.go Defer")],
  AI + ": effect sequence of the signal goroutine with panicking jobs",
  "Order of signal receipt, job calls (loop summary over the list) and exit is compared with the specification.")

p("C27", "Decoding a marshalled value gives the value back",
  "For every value a marshaller accepts, encoding it and decoding the result gives an equal value.",
  ["inputs"], "All values of all types, for each marshaller.",
  "Tests round-trip a few structs.",
  ["marshal.go"], [("codec libraries", "marshal.go")], "none", "",
  claimed=False, reason="The property is about the encoding/json, encoding/xml, toml, yaml and protobuf libraries' treatment of arbitrary run-time values (reflection); it does not hold for some of them by design (e.g. unexported fields, json numbers) and no static argument over this repository's source bounds it. What the repository adds, that both directions use the same library and the buffer is passed on unchanged, is decided by C19 and C18.")

p("C28", "Heartbeat and authentication time-outs are met in real time",
  "A silent connection is closed no later than a fixed slack after three heartbeat intervals, and an unauthenticated one no later than that slack after its deadline.",
  ["schedules"], "All schedules and loads.",
  "Tests measure unloaded time-outs only.",
  ["tcpx.go"], [("timers", "tcpx.go heartBeatWatch, authWatch")], "none", "",
  claimed=False, reason="Elapsed real time depends on the scheduler and on how long user callbacks run: a run-time quantity no static argument bounds. The event-level behaviour (which events lead to closing) is decided by C14 and C15.")
