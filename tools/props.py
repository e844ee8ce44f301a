"""What each check decides, assumes and trusts; MANIFEST.json is generated from this table (mkmanifest.py)."""
ENGINE = "abstract interpretation of rustc MIR (interprocedural dataflow with linear facts, variant sets and summarised collections)"
T = ["rustc's type checker and MIR construction", "the analyser in /verif/sa (abstract semantics of MIR)", "the models of std functions in sa/src/models.rs and sa_rt/lib.rs"]
AI = "Every path of the functions listed was interpreted abstractly, from the entry points listed, with unknown inputs; loops were taken to a fixed point, so the verdict covers every number of iterations. "
PROPS = {}


def p(id, technique, rule, explanation, assumes=(), level="proof", floor=None, bins=False, trusted=()):
    PROPS[id] = dict(technique=technique, rule=rule, explanation=AI + explanation, assumes=list(assumes), level=level, floor=floor or {}, bins=bins, trusted=T + list(trusted))


CONTRACT_READ = "the outcome of DnsRead::read is any of its four variants; a fully read message has counts equal to its section lengths (decided by C10's decoding part)"
INZONE = "Name::is_in_zone is treated as an uninterpreted relation (its body is decided by C18)"
ZGET = "Zone::get returns only records of the type asked for, stored under the name asked for, and loaded zones have NS records at every subzone top and an SOA at the zone (C31, C32)"
LOOK = "the resolver's lookup is any outcome of its result type (its inside is the business of C17, C19-C26)"
H = ENGINE + " from DnsHandler::handle_request of both servers, checking the message given to every DnsWrite::reply call"
p("C10", H, "at every reply, for each section: header count == section length, entailed by the path facts; the same for decoded messages and queries; encoded bytes hold as many entries as the header written counts", "Counts of replies of both handlers; of every message a decoding function returns; of what an encoding function writes for a message with right counts, cut or whole; of every message given to an encoder elsewhere (queries).", [CONTRACT_READ, INZONE, ZGET, LOOK, "a section has at most 65535 entries"], floor={"obligations": 8, "functions": 15})
p("C11", ENGINE + " with a ghost reply counter over the request handlers", "on every path of handle_request: exactly one reply when the read outcome is FullMessage or HeaderOnly, none otherwise", "Reply counts per outcome.", [CONTRACT_READ, INZONE, ZGET, LOOK], floor={"obligations": 8, "functions": 15})
p("C12", H, "at every reply: id, opcode, recursion-desired equal the request's, response flag true, questions equal the request's", "Echoed fields.", [CONTRACT_READ, INZONE, ZGET, LOOK], floor={"obligations": 10, "functions": 15})
p("C13", H, "at every reply: the response code is the one the path condition (decode error kind, request validity, zone membership, data found, lookup outcome) calls for", "Response codes.", [CONTRACT_READ, INZONE, ZGET, LOOK], floor={"obligations": 11, "functions": 15})
p("C14", H, "at every reply: AA and RA have the value the path condition calls for", "Flags.", [CONTRACT_READ, INZONE, ZGET, LOOK], floor={"obligations": 5, "functions": 15})
p("C15", H, "at every nameserver reply: the sections hold only records of the collection the path condition calls for; authoritative data only after the scan over all subzones excluded each", "Data of nameserver replies.", [CONTRACT_READ, INZONE, ZGET], floor={"obligations": 10, "functions": 15})
p("C36", H, "at every referral: authorities are exactly the NS records of the subzone, additionals are address records looked up under an NS target of that subzone, no answers", "Referrals.", [CONTRACT_READ, INZONE, ZGET], floor={"obligations": 4, "functions": 15})
p("C04", ENGINE + " of every code table function, one run per code and per variant, compared with the standard tables", "for each function from a number (or text) to a wire type and back, found by its signature: each assigned code maps to its variant and back, every other number to an error", "Code tables; all 65536 (256) numbers covered by intervals between assigned codes.", floor={"obligations": 180, "functions": 12})

p("C01", ENGINE + " of every decoding entry point over an arbitrary byte string, and of every buffer read for every bit offset and width", "each panic-like operation (index, slice, unwrap, overflow, out-of-range cursor) reachable from a decoding function is excluded by the path facts; the buffer's read methods meet the contracts used", "Decoders: every function from the buffer to a result, each analysed once with the others taken by contract (position moves forward, stays inside, bytes unchanged), the contract being an obligation of each.", ["the input is shorter than 2^56 bytes"], floor={"obligations": 60, "functions": 30, "roots": 90})
p("C02", ENGINE + " of every decoding entry point, with a ranking argument for every loop", "for each loop reachable from a decoding function a linear quantity that every iteration lowers and the loop condition bounds; decoding functions do not recurse", "Loop ranks over the position, the jump counter and the counts.", ["the input is shorter than 2^56 bytes"], floor={"obligations": 25, "functions": 30, "loops": 4})
p("C34", ENGINE + " of every method of the bit buffer against its contract, enumerated over the 8 bit offsets and all widths, with bit-exact expansion of the data moved", "each method: inside or refused with the position kept; position moves by exactly the bits asked for; the bits read or written are those at the position, most significant first; positions and lengths stay consistent", "Methods of the buffer; read_bytes for arrays of 1, 2, 3, 4, 8 and 16 bytes.", ["read_bytes::<N> for other N behaves as for the enumerated ones", "buffers are shorter than 2^56 bytes"], floor={"obligations": 100, "functions": 12})

p("C05", ENGINE + " of the header's writer and reader; every bit written or read is named symbolically and compared with the layout", "the writer's log of each path is 96 bits back to back and bit i is bit i of the header value's field of that place (operation and response codes enumerated); the reader takes every field from its place", "Every function that writes a header to the buffer or reads one from it.", ["the buffer's methods meet their contracts (their bodies are re-checked here as far as this property uses them)"], floor={"obligations": 25, "functions": 12})
p("C06", ENGINE + " of the writers and readers of questions and records, one run per kind of record; the log of the writes of each path is compared with the layout", "writer: name, type, class, TTL, data length, data fields, back to back, and the length written times 8 is the distance from after the length to the end; reader: every field comes from its place, given by the lengths of the parts before it", "Every function between the buffer and a question or a record. TXT records are taken with up to 3 strings of any length; the bitmap of WKS records is only checked for its length.", ["Name -> bytes is taken by contract (its length and content are C03's)", "TXT records of more than 3 strings behave as those with up to 3"], floor={"obligations": 70, "functions": 40})
p("C07", ENGINE + " of the reader of records", "on every path that returns a record, the read position is after the 16-bit data length by exactly 8 times the value read there; on the paths that report an unknown type, likewise", "Every function from the buffer to a question or a record, over arbitrary bytes.", ["Name::from_bytes is taken by contract (verified under C01/C02)"], floor={"obligations": 15, "functions": 25})

p("C08", ENGINE + " of the UDP reply, from DnsWrite::reply to the socket, with ghost variables for the entries and header written", "at every datagram sent: it is the whole of the bytes made from the buffer, at most 512 of them; when the bytes are made: either every entry is in and the flag is the message's, or they end after an entry, the flag is set, and an entry is missing", "Every implementation of DnsWrite that sends datagrams.", ["entries and header are encoded as C05 and C06 say (each entry at least one byte)", "a datagram socket sends all bytes given or fails", "the message handed over has right counts (C10)"], floor={"obligations": 20, "functions": 12})
p("C09", ENGINE + " of the TCP reply and the TCP request reader, with ghost variables for the bytes written and the position in the stream", "at every write: what was written so far is the beginning of (high byte of the length, low byte, the encoded bytes), the length being at most 65535; a reply that succeeds wrote all of it; at every decode of a request: its bytes are exactly those from 2 to 2 + the big-endian value of the first two, and nothing after them was read", "Every implementation of DnsWrite that does not send datagrams, and of DnsRead that holds a stream.", ["write_all and read_exact do what std documents"], floor={"obligations": 15, "functions": 12})

MUTEX = "Mutex::lock succeeds (no thread panics while holding the lock: C17, C01, C20 and the panic checks of the functions run under it)"
p("C19", ENGINE + " of the cache's operations, the table being a summarised map of arbitrary content; the clock is a fresh later value at every reading", "at every exit that hands out an entry (or gives it to a callback): its expiry is later than a clock reading made after entry; at every removal: the entry is expired or under the key being inserted; stores keep the time-to-live given", "Every function that takes the lock of the cache, for every content of the table.", [MUTEX, "Instant::now never goes back (guaranteed by std)"], floor={"obligations": 12, "functions": 6})
p("C39", ENGINE + " of the cache's cleaner and of the thread that runs it, and of the resolver program up to the start of that thread", "after a clean no entry is expired at the time the clean began; the thread's loop has no exit and each turn sleeps the configured period and cleans; the resolver program starts it for the cache it hands to the handler", "The cleaning function for every content; the loop of the cleaning thread; main of the resolver.", [MUTEX, "the scheduler runs the cleaning thread"], floor={"obligations": 4, "functions": 3}, bins=True)
p("C22", ENGINE + " with a ghost for the lock held (typestate of guards, implicit drops included), from every function that takes a lock; call-graph search from the functions run under a lock", "a lock is taken only when none is held; no blocking call (socket, file, sleep, join, channel) and no job is reached while a guard lives, the wait for a job under the queue's lock apart; every guard is dropped on every return; a callback run under the lock reaches neither", "Every function of the crate that takes a lock, every closure given to a function that runs it under a lock.", ["blocking operations are those of std::net, std::io, std::fs, std::process, thread::sleep, join, channels, condition variables and barriers", MUTEX], floor={"obligations": 10, "functions": 6})
p("C27", ENGINE + " with per-socket typestate (read time-out set, write time-out set), from the TCP accept loop and from the upstream exchange; backward slices of every time-out field", "every read, write or hand-over of a TCP stream, and every send or receive of an upstream socket, is on a path where both set_*_timeout calls succeeded on that socket with Some of the configured duration; a read (write) time-out field is filled from a read (write) time-out", "Every path from accept and from the upstream socket's creation; all places where a struct with time-outs is built, in the library and both programs.", ["try_clone shares the time-outs of the socket (POSIX)"], floor={"obligations": 8, "functions": 4}, bins=True)
p("C28", ENGINE + " of the pool's constructor, job submission, worker loop and destructor, with ghosts for the message taken, jobs queued, stop messages and joins", "worker: each message taken is run exactly once before the next is taken, a stop message ends the loop, nothing else does; submission queues exactly one message, carrying the job given; the destructor queues >= n stop messages before the first join, and joins n handles; the constructor makes n workers", "Every interleaving, because the checks are per thread and the queue is std's channel (each message received once); every number of workers.", ["std::sync::mpsc hands each message to one receiver, in order", "jobs do not panic (C01, C10-C17)", "a worker's handle is there until the pool is dropped"], floor={"obligations": 8, "functions": 3})
p("C29", ENGINE + " of the two server loops and of the function that starts both, with ghosts for the stop flag and the event order", "loops: the flag is read between every take and the next, and no take follows a read that saw it set; starter: each server runs in its own thread, which reports once the server ended; after the first report the shared flag is set, both servers are woken at their own address, and the second report is waited for with a bound", "All paths of both loops and of the starting function.", ["a wake-up datagram or connection reaches the server (when the socket for it can be made)", "std::sync::mpsc delivers what is sent"], floor={"obligations": 10, "functions": 4})
p("C30", ENGINE + " of every function that loads a configuration, with ghosts for zero values and unreadable files seen, and of both programs' start-up with the loaders kept opaque", "loaders: at every Ok result every numeric setting other than a port (thread counts, time-outs, limits) is proved non-zero, for every element of a list of settings as well, and zone texts were parsed as names; a failed read, parse or validation ends in Err. programs: nothing is built from a configuration other than one a loader returned as Ok, servers are started only after it, and each server gets the settings of its own section", "Every configuration; list elements by induction over the validating loop.", ["serde_json fails on text that does not describe the configuration's type", "ports and default TTLs may be zero"], floor={"obligations": 15, "functions": 3}, bins=True)
p("C35", ENGINE + " of every function that appends to a trace or runs a traced request or resolution, once with tracing disabled and once with it enabled", "disabled: the list of lines at every exit is the one at entry, and every trace handed to a request or nested resolution is disabled as well; enabled: a line is appended before each request is sent, what came back is appended after it, a reply and a failure under different kinds of line, and a nested resolution's trace is kept", "Every public function that takes a trace mutably, and every caller of the request and nested lookup functions.", ["only the functions that name the field of trace lines write it (checked: it is private to its module)"], floor={"obligations": 25, "functions": 15})
p("C23", ENGINE + " of the function that performs a request to an upstream server, sockets modelled as returning anything, with ghosts for the address connected or sent to, the message sent, the datagram received, its sender and the message decoded last", "at every exit that uses a reply: a message was decoded from what was received since the last query went out; its id is proved equal to the id of that query; it came over a socket connected to the address the query went to (or its sender was compared with it); that address is one of the server asked", "Every outcome of every socket call, every number of retries, every message decoded.", ["a connected UDP socket delivers only datagrams from the address it is connected to (the kernel)", "the encoder writes the id of the message (C05)"], floor={"obligations": 5, "functions": 5})
p("C16", ENGINE + " of the request handler, the servers' accept loops and jobs, request readers, reply writers, decoders, encoders and log formatting, keeping every operation that can panic", "each panic-like operation (index, slice, unwrap, expect, assert, overflow, explicit panic) reachable while a request is served is excluded by the path facts; entries read from the wire are given to the writers again to show that no writer refuses what a reader returns", "From the receipt of a datagram or connection to the reply; every socket call may fail; decoders and encoders as for C01, C05, C06, C08, C09.", [CONTRACT_READ, INZONE, ZGET, "records of a loaded zone are of a kind and class the writers accept (C31)", "starting and stopping the pool of workers is no part of serving a request", "TXT records of more than 3 strings behave as those with up to 3", "the input is shorter than 2^56 bytes"], floor={"obligations": 100, "functions": 90})

p("C03", ENGINE + " of every function that makes a name, plus a MIR query for writes into one; the validator is decided by refutation over an arbitrary malformed text", "each construction of the name type is reached only with a text its validator accepted on that path (or that of another name, or a well-formed literal); no place inside a name is written; the field is private; and for each defect (over 255 bytes, no final dot, a label over 63 bytes, an empty label first or inside, a character of any class outside letters, digits and hyphens) the validator returns no Ok on any path when an arbitrary text with that defect at an arbitrary label and position is assumed", "All constructors, including the derived deserialiser; the defect sits at an arbitrary index, so loops are covered for every iteration.", ["the character classes of std (is_ascii_alphanumeric etc.) are as documented", "str::split yields the text between separators"], floor={"obligations": 100, "functions": 5})
p("C18", ENGINE + " of each containment predicate by refutation, plus a taint query over MIR for suffix and substring tests between texts of two names", "assuming an arbitrary label (counted from the root) at which name and zone differ, or a name with fewer labels, no path answers true; assuming the zone's labels end the name, or the root zone, no path answers false; nowhere else is the text of one name searched for that of another", "All predicates over two names (and over a name, a zone and its subzones) that do not just delegate to another; the taint query covers every function and closure of the crate.", ["names are well formed (C03)", "that the predicates are asked with the right names is for C13-C15, C24"], floor={"obligations": 8, "functions": 2})

RESOLVE = "the function that makes a request is analysed on its own for what every kind of its results is known to satisfy, and used elsewhere for that; so is the function that asks servers zone by zone; functions that only look at what they are given are taken as returning anything"
p("C21", ENGINE + " of the resolution, of every function it is made of, and of the functions that fill and search the cache, with what a request was shown to give used for what it gives", "at every store into the cache: each record has the name and the type in the key; at every call of a function that caches a list: an arbitrary two of its records have one name and one type; what a search of the cache returns has the name and the type looked for, given that the cache does (the induction over its history)", "The public resolution functions, every function between them and the cache, for every reply, every content of the cache and every list length.", [RESOLVE, "the cache is filled by the resolver only (its methods are public; what other users store is theirs)"], floor={"obligations": 14, "functions": 35})
p("C24", ENGINE + " of the functions that make a request, for every kind of result; then of the resolution, with ghosts for the last reply, its question and the zone of the server asked", "every server of a referral is of a zone that contains the name asked for and is longer than the zone of the server asked; one sent with an alias is of a zone that contains the target, inside the zone of the server asked; addresses taken are A records under the name of the server they are used for; whatever is cached after a reply is what was asked for, its alias, the servers of a zone around the name, or lies inside the zone whose server was asked", "Every function that makes a request or resolves, for every content of the reply.", [RESOLVE, INZONE, "of two zones around one name the longer is inside the other (names are compared by labels, C18)", "the server asked is of a zone that contains the name asked for (the root, one found by walking up from the name, or one admitted by this check)"], floor={"obligations": 15, "functions": 35})
p("C20", ENGINE + " of the cache, of the functions that fill and search it with one arbitrary record of the list pinned, and of the resolution", "at every store into the cache: the time to live handed over is no longer than the TTL each of the records came with; storing puts the expiry no later than that time from a reading of the clock; every record a search returns carries as TTL the seconds left until the expiry of what was found (no more than were left when the call began, no less than when it ended); the resolution gives records from the cache with the TTL they were found with", "The cache's methods, every function that fills or searches it, and the public resolution functions, for every list length, TTL, expiry and clock.", [RESOLVE, "an entry's expiry is at most 2^32-1 seconds ahead, as TTLs are 32 bits wide", "the cache is filled by the resolver only (its methods are public; what other users store is theirs)"], floor={"obligations": 10, "functions": 45})
p("C26", ENGINE + " of the resolution with the list of aliases followed as a ghost value (where it leads, and how many records of that name come after it)", "the list starts empty and grows only by an alias record of the name it leads to (which becomes the next such name) or, at its end, by records of that name and of the type asked for; upstream servers are asked for the name it leads to and for the type asked for; what a resolution gives as answers is that list, ending in records unless none were found; the reply to the client carries these answers in the same order", "Every path through the public resolution functions (any number of redirections, any replies and cache contents), the nested resolutions they start, and the handler's construction of the reply.", [RESOLVE], floor={"obligations": 12, "functions": 40})
p("C25", ENGINE + " of the resolution and of what sends queries, with ghosts counting the servers tried for a zone, the rounds of redirections and the queries sent, and a rank (a bounded quantity that moves one way) sought for every loop", "at every place where the name of a server is resolved or a request made, fewer than the configured number were tried since the last referral; a request carries no more retries than configured, and at every send fewer queries than that were sent for it; upstream servers are asked for at most the configured number of names; a nested resolution carries no wider limits, and a quantity of it that starts fixed moves towards a constant bound; the servers asked after a referral are of a longer zone than the one that referred, and every other way round a loop moves towards a bound", "Every path through the public resolution functions, all functions they are made of, and the function that makes a request, for any replies, cache contents and configuration.", [RESOLVE, "the names of a chain of zones that contain the searched name have bounded length (C03), so strictly longer zones are finitely many", "loops inside the request function are bounded by their sends only (a loop that sends nothing is covered under C16's loops where the bytes are decoded)"], floor={"obligations": 16, "functions": 50})

NOT_APPLICABLE = {
    "C17": "the path from a reply to an abort runs through invariants of lists that pass between functions and through the cache (all of one type, never empty), and through a configuration checked elsewhere; an analysis of the resolver's functions one by one still leaves 15 of its asserts and unwraps undecided, each needing such a contract of its own. The parts decided are claimed separately: what readers and decoders of replies do (C01, C02, C16), what may be used of a reply (C23, C24), what is cached (C20, C21), bounds on the work (C25).",
    "C31": "whether a record is kept depends on which of the parser's checks guards the step that stores it, across a tokenizer, a dozen record parsers, included files and tables nested in tables; the analysis keeps element-wise facts of lists but none of the values of nested tables, so what a zone holds cannot be told from what was checked. What is answered from a zone once loaded is claimed under C12-C15.",
    "C32": "quantifies over the whole of a loaded zone (for every subzone there is a record, for every server inside it an address): a relation between nested maps of unbounded size, beyond the element-wise facts about collections the analysis keeps.",
    "C33": "termination and index safety of the tokenizer rest on relations between a position and a line that is replaced underneath it, across mutually recursive parsers of included files, and on the depth of inclusion; no check of them was finished. The decoders of messages, where the same question was decided, are claimed under C01, C02.",
    "C37": "equality of a message with the decoding of its encoding composes two loops over unbounded lists, with name compression looking back into the bytes written; no static argument in reach relates the two runs as a whole. The parts that decide it are claimed separately: the layout of header, questions and records on both sides (C05, C06), the code tables (C04), counts (C10), bit-exact reads and writes (C34).",
    "C38": "quantifies over the behaviour of every upstream server and of the data they hold, which is no part of the source; what the code itself does with any reply is claimed under C23-C26 where decided.",
}
