package main

// generated by tools/gen.py

var explain = map[string]string{
	"C01": "abstract interpretation of the type-checked SSA: interval/linear-relational facts discharge every index, slice, allocation, assertion and nil obligation. Every index, slice, allocation, type assertion and dereference reachable from an exported decoding entry point, and from the goroutines that read connections, is discharged for all inputs, or reported with its call site.",
	"C02": "abstract interpretation of the type-checked SSA: symbolic byte-sequence domain for buffers, compared with the documented layout. The abstract content of each encoder's result buffer is compared field by field with the layout; each decoder is analysed on an abstract well-formed message with arbitrary part sizes and contents.",
	"C03": "abstract interpretation of the type-checked SSA: stream-position domain; the consumed and returned stream regions are compared with the declared length. Reads are modelled as returning any prefix with any error allowed by io.Reader; loops are analysed to a fixpoint, so every segmentation is covered.",
	"C04": "abstract interpretation of the type-checked SSA: relational facts at every allocation and message acceptance after a length is read. For each allocation sized by received data the fact 'size <= configured limit or no limit' must hold; success outcomes must not be excluded within the limit.",
	"C05": "abstract interpretation of the type-checked SSA: every user callback may panic; panics are propagated through the deferred calls to the goroutine's root. No goroutine started by a server may end in an unrecovered panic, and a user panic must not leave the accept loop or the read loop.",
	"C06": "abstract interpretation of the type-checked SSA: typestate (open/closed, close-callback count) over all exits including unwinding. Every outcome of a connection goroutine, normal or panicking, must have closed the connection and invoked the close callback exactly once when configured.",
	"C07": "abstract interpretation of the type-checked SSA: enumeration of blocking operations with channel identity and the branch taken after the end signal. Each blocking select or receive in a per-connection goroutine is checked to include the connection's end channel and to leave the goroutine when it fires; exported signalling methods are checked to perform no blocking send.",
	"C08": "abstract interpretation of the type-checked SSA: symbolic map domain for the pool content before and after each operation. The abstract effect of each operation on an arbitrary pool is compared with the stated one on every path.",
	"C09": "abstract interpretation of the type-checked SSA: lock-set typestate and lock-order graph over all exported entry points and goroutines. The set of held locks is tracked on every path including unwinding; must be empty at every return of an entry point or goroutine.",
	"C10": "abstract interpretation of the type-checked SSA: lock-set at every access of the guarded fields (guarded-by analysis). Each load and store of a guarded location on an object that may be shared must happen with the guarding lock held in a sufficient mode.",
	"C11": "abstract interpretation of the type-checked SSA: symbolic sequence domain for the composed chain, loop summaries for the registered lists. The chain at the moment it starts running is compared, as a symbolic sequence, with the documented concatenation.",
	"C12": "abstract interpretation of the type-checked SSA: inductive transition relation of the chain index for one step of advancing and aborting. The step from one link to the next is analysed for an arbitrary chain and position; chains are assumed shorter than the abort sentinel (2019).",
	"C13": "abstract interpretation of the type-checked SSA: ownership/escape analysis of what is handed to each message goroutine. At each dispatch the handed-over context, request store, chain array and buffer must be fresh since the previous dispatch and unshared with the reading goroutine.",
	"C14": "abstract interpretation of the type-checked SSA: counter typestate of the watch loop against a reference automaton. The watch loop's transitions on beat, time-out, server stop and connection end are compared with the automaton; real time is abstracted to events.",
	"C15": "abstract interpretation of the type-checked SSA: case analysis of the watcher's select with channel identity and sent constants. The watcher must exist for each connection when configured; each case must close, or not close, as stated.",
	"C16": "abstract interpretation of the type-checked SSA: effect analysis of Stop per argument and path; channel identity between signal and watchers. The effects of Stop on servers with 0 to 3 endpoints are enumerated per path; state test and signal swap must be atomic under the lock; every serving call must have its listener in the list before it waits, end after a failure once stopped, and hand each accepted connection to a watcher that closes it on the signal of its time.",
	"C17": "abstract interpretation of the type-checked SSA: data-flow of the remembered listen parameters into the restarted serving call. The list entry left by each serving call (0 to 2 other entries) must hold its network, address and a function which, when analysed, makes the same serving call with the same arguments; Start (0 to 3 entries) must start one goroutine per entry that calls it once; Restart's effects are compared in order.",
	"C18": "abstract interpretation of the type-checked SSA: effect sequence (writes) of each reply function with symbolic buffer content. On each path the list of writes and their abstract content is compared with one frame; returned errors are compared with the failing operation.",
	"C19": "abstract interpretation of the type-checked SSA: per-name constant propagation; codec calls identified by library function. Each name is propagated through each by-name function; the codec library call reached must be the format's.",
	"C20": "abstract interpretation of the type-checked SSA: symbolic sequences and loop summaries for the ranges; strictly increasing index. Effects of use and un-use on an arbitrary history, and the membership test, are compared with the interval specification.",
	"C21": "abstract interpretation of the type-checked SSA: loop summaries for reading and handling the group; symbolic content of the client's write. The collected sequence must be the consecutive messages of the stream and the handling loop must call the message handler for each in order synchronously.",
	"C22": "abstract interpretation of the type-checked SSA: loop typestate and ownership of buffer and address per iteration. Per loop iteration: fresh buffer and context, sender address flows into the context, decode errors continue, closed-socket errors and stop end the loop.",
	"C23": "abstract interpretation of the type-checked SSA: symbolic map domain for the routing tables; key data-flow from the message to the lookup. Lookups must use the id / pattern of this message; registration effects are compared with the stated map updates.",
	"C24": "abstract interpretation of the type-checked SSA: data-flow from the configuration to the listener whose connections are accepted. On every path on which the configuration may be set, the accepting listener must come from the TLS constructor with that configuration.",
	"C25": "abstract interpretation of the type-checked SSA: ordered effect analysis of deadline calls per accepted connection. The last effective value of each deadline at the time the connection is first used is compared with the configuration.",
	"C26": "abstract interpretation of the type-checked SSA: effect sequence of the signal goroutine with panicking jobs. Order of signal receipt, job calls (loop summary over the list) and exit is compared with the specification.",
}
