import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="src/shared/dns/"; N="src/nameserver/"; Z="src/nameserver/zones/"; R="src/resolver/"; B="src/resolver/back_end/"; S="src/shared/"
NT="The only existing tests are 11 unit tests of the bit buffer on fixed data; "
p("C01","Decoding arbitrary bytes never aborts","Decoding a DNS message from any byte sequence either yields a message or a decoding error; it never aborts the thread (out-of-range cursor, out-of-range index, failed unwrap) and its position and length arithmetic never overflows.",["inputs"],"every byte string of every length, as header only or as a full message",NT+"no test decodes a message, and no sample reaches every pointer, length and truncation combination.",[S+"buffer/buffer.rs",D+"message.rs",D+"name.rs",D+"records.rs",D+"header.rs",D+"questions.rs"],[("bounds checks before each cursor move and read",S+"buffer/buffer.rs read_*"),("pointer and length validation",D+"name.rs decode_from_buf, "+D+"records.rs decode_*_data")],["Message::decode_from_buf","Header::decode_from_buf"])
p("C02","Decoding work is bounded by the input size","Decoding a DNS message terminates on every byte sequence: compression pointers cannot be followed for ever, and every loop of the decoder either consumes input or counts down a bounded number of items.",["inputs"],"every byte string, including pointer cycles and inflated counts",NT+"no test contains a pointer loop; termination quantifies over all inputs.",[D+"name.rs",D+"message.rs",D+"records.rs"],[("pointer jump limit",D+"name.rs"),("length-bounded data loops",D+"records.rs")],["Message::decode_from_buf"])
p("C03","Every domain name value is well formed","However a domain name comes into being (from text, from wire labels, from a configuration file, from concatenation or truncation of another), a name that is accepted is at most 255 characters long, ends in a dot, and is either the root or consists of labels of 1 to 63 ASCII letters, digits or hyphens; anything else is rejected with an error.",["inputs"],"every text or byte sequence offered as a name, through every constructor",NT+"no test constructs a name.",[D+"name.rs"],[("label and length validation before construction",D+"name.rs"),("private representation","Name fields")],["every construction site of a name value"])
p("C04","Wire code tables are the standard ones and invertible","The numeric codes of record types, classes, query types/classes, opcodes and response codes used on the wire are the standard ones: encoding a supported value gives its assigned code, decoding an assigned code gives that value, decoding after encoding is the identity, and unassigned codes are reported as unknown.",["inputs"],"every 16-bit (4-bit) code and every supported value",NT+"no code table is tested.",[D+"types.rs",D+"class.rs",D+"header.rs",D+"questions.rs"],[("code tables",D+"types.rs, class.rs, header.rs")],["from/to integer conversions"])
p("C05","Message header layout","A message header is written and read as exactly 96 bits in the standard order (id 16, QR 1, opcode 4, AA 1, TC 1, RD 1, RA 1, Z 3, rcode 4, four 16-bit counts), each field carrying the header value of that name; the reader and the writer agree field by field.",["inputs"],"every header value and every 12-byte header",NT+"the header codec is untested.",[D+"header.rs"],[("header codec",D+"header.rs")],["sequence of bit reads/writes"])
p("C06","Question and record layout; record data length is exact","Questions are written and read as name, type, class; records as name, type, class, 32-bit TTL, 16-bit data length, data, and the reader and writer of each record type agree on the order and width of its data fields. The data length written before the data equals the number of data bytes that follow, for every record type.",["inputs"],"every question and record of every supported type",NT+"the record codecs are untested.",[D+"questions.rs",D+"records.rs"],[("record codecs",D+"records.rs")],["sequence of buffer reads/writes per record type"])
p("C07","Decoded record data must fill its declared length","When a record is decoded, its data is accepted only if decoding it consumed exactly the number of bytes its declared data length announces; records of unknown type are skipped by exactly that length.",["inputs"],"every record of every type and declared length",NT+"record decoding is untested.",[D+"records.rs",D+"message.rs"],[("position check after data decode",D+"records.rs")],["record decode exits"])
p("C08","UDP replies fit in 512 bytes and flag truncation","A reply sent over UDP is at most 512 bytes long; a reply that had to be cut carries the truncation flag, and a reply that was not cut is sent whole without it.",["inputs"],"every reply message of any size",NT+"no server code is tested.",[S+"net/udp_server.rs"],[("truncation before send",S+"net/udp_server.rs reply")],["the UDP send of a reply"])
p("C09","TCP framing","Each TCP reply is preceded by a 16-bit big-endian length that equals the number of message bytes written after it, and each TCP request is read as exactly the number of bytes its 16-bit length prefix announces, whatever that number is; a reply too long for the prefix is an error, not a wrong prefix.",["inputs"],"every reply length and every request length prefix",NT+"no server code is tested.",[S+"net/tcp_server.rs",B+"requests.rs"],[("length prefix",S+"net/tcp_server.rs reply/read"),("upstream TCP framing",B+"requests.rs send_tcp_packet")],["socket reads and writes"])
p("C10","Header counts match the sections","In every message the system decodes from the wire or builds as a query or reply, the four header counts equal the number of entries in the four sections.",["inputs"],"every request, every upstream response and every reply kind",NT+"no message is built or decoded by a test.",[D+"message.rs",N+"handler.rs",R+"handler.rs",B+"requests.rs"],[("count assignment next to section assignment","message decode, reply builders, request builder")],["message at decode exit, at reply, at upstream send"])
p("C11","One reply per readable request","For every request whose header could be decoded, the nameserver and the resolver hand exactly one reply to the transport; when nothing could be decoded or the socket failed, they hand over none.",["inputs","fault_sequences"],"every request outcome (full message, header only, undecodable, I/O failure) and every path through the request handler",NT+"the handlers are untested.",[N+"handler.rs",R+"handler.rs"],[("reply consumes the replier",S+"net/traits.rs"),("handler dispatch","handler.rs handle")],["calls to reply on every handler path"])
p("C12","Replies echo the request","Every reply carries the id, the opcode and the recursion-desired flag of its request, has the response bit set, and when the request's question was decoded, carries the same question.",["inputs"],"every request and reply kind of both servers",NT+"the handlers are untested.",[N+"handler.rs",R+"handler.rs"],[("reply built from the request","handler.rs")],["message passed to reply"])
p("C13","Response codes say what happened","Undecodable or invalid requests (response flag set, answers or authorities present, or not exactly one question) are answered with a format error, unsupported opcodes, classes and types with not-implemented, names outside every served zone with refused, names that do not exist in an authoritative zone with name-error, failed resolutions with server-failure, and answered ones with no-error.",["inputs"],"every request and outcome of both servers",NT+"the handlers are untested.",[N+"handler.rs",R+"handler.rs"],[("reply builders","handler.rs")],["message passed to reply with the path facts"])
p("C14","Authority and recursion flags","The nameserver sets the authoritative flag on every reply taken from its own zone data (answers and authoritative name errors) and never on delegations; it never advertises recursion. The resolver advertises recursion in every reply and never claims authority.",["inputs"],"every reply of both servers",NT+"the handlers are untested.",[N+"handler.rs",R+"handler.rs"],[("flag assignment","handler.rs")],["message passed to reply"])
p("C15","The nameserver answers only for its zones","A query is answered from authoritative data only if the queried name is in a served zone and not in one of its delegated subzones; a name in a delegated subzone gets a referral to that subzone; a name outside every zone gets neither data nor referral.",["inputs","configurations"],"every query name against every zone set",NT+"the handlers are untested.",[N+"handler.rs"],[("zone lookup before answering",N+"handler.rs handle_query")],["message passed to reply with the path facts"])
p("C16","No client request can abort a nameserver worker","Handling a request, over UDP or TCP, from reading it to sending the reply, never aborts the worker thread, whatever the client sends and whatever the socket does.",["inputs","fault_sequences"],"every request and socket outcome",NT+"the servers are untested.",[N+"handler.rs",S+"net/udp_server.rs",S+"net/tcp_server.rs"],[("error returns instead of unwraps","handlers and servers")],["every potentially aborting operation reachable from the request entry points"])
p("C17","No request or upstream response can abort a resolver worker","Handling a request in the resolver, including every upstream exchange it triggers, never aborts the worker thread, whatever clients and upstream servers send and whatever the sockets do.",["inputs","fault_sequences"],"every request, upstream response and socket outcome",NT+"the resolver is untested.",[R+"handler.rs",B+"recursive.rs",B+"requests.rs",B+"cache.rs",B+"utils.rs",B+"trace.rs"],[("error returns instead of unwraps","resolver back end")],["every potentially aborting operation reachable from the request entry points"])
p("C18","Zone containment is decided label by label","Every decision that a name lies in a zone (serving a query, accepting a zone record, trusting an upstream record) compares whole labels: a name is in a zone only if it equals the zone or ends with a dot followed by the zone, and every name is in the root zone.",["inputs"],"every pair of names",NT+"containment is untested.",[D+"name.rs",D+"utils.rs",N+"handler.rs",B+"requests.rs",B+"recursive.rs",Z+"utils.rs"],[("label-wise comparison",D+"name.rs is_in_zone / is_sub_domain")],["containment predicates and raw suffix tests on name text"])
p("C19","The cache never serves expired data and keeps live data","A cache read never returns an entry whose expiry has passed at the time of the read; a stored entry is dropped only when it has expired or is replaced by an insertion under the same key.",["inputs","schedules","histories"],"every interleaving of reads, writes and cleanups and every clock value",NT+"the cache is untested.",[B+"cache.rs"],[("expiry comparison on every read",B+"cache.rs")],["every exit of the cache operations that hands out or removes an entry"])
p("C20","TTLs served from cache never exceed the time left","Records answered from the cache carry as TTL the number of seconds left until the entry expires, and an entry expires no later than the smallest TTL of the records stored in it.",["inputs","histories"],"every set of record TTLs and every elapsed time",NT+"cache use is untested.",[B+"utils.rs",B+"recursive.rs",B+"cache.rs"],[("minimum TTL at insertion, remaining time at lookup",B+"utils.rs save_*/search_*")],["cache insertion and lookup sites"])
p("C21","Cached records match the key they are found under","Records are cached only under the name and type they actually carry, so that a cache lookup for a name and type returns only records of that name and type.",["inputs","histories"],"every upstream response",NT+"cache use is untested.",[B+"recursive.rs",B+"utils.rs",B+"cache.rs"],[("grouping before insertion",B+"utils.rs save_records_in_cache")],["cache insertion sites"])
p("C22","No lock is held across blocking work","No lock (cache, job queue) is held while a job runs, while the network is used, or while sleeping; every acquired lock is released on every path, and no thread acquires a lock it already holds.",["schedules"],"every schedule of worker threads, the cache cleaner and the servers",NT+"locking depends on interleavings no test explores.",[S+"thread_pool.rs",B+"cache.rs"],[("guard scope","thread_pool.rs worker loop, cache.rs operations")],["guard live ranges against blocking calls"])
p("C23","Upstream responses must match the query","An upstream response is used only if its id equals the id of the query it answers and it was received from the address that was queried; every retry waits for a matching response or fails.",["inputs","fault_sequences"],"every datagram or stream an attacker or upstream can deliver",NT+"upstream exchange is untested.",[B+"requests.rs"],[("id comparison",B+"requests.rs"),("connected socket",B+"requests.rs send_udp_packet")],["exits of the upstream exchange"])
p("C24","Delegations must stay in bailiwick and go deeper","A referral from an upstream server is followed only to a zone that contains the searched name, lies inside the zone whose servers were queried and is strictly deeper than it; glue addresses are taken only for the name servers of that referral, and cached only if they lie inside the zone whose servers supplied them; the same limits apply to name servers sent along with an alias.",["inputs"],"every upstream response",NT+"the resolver is untested.",[B+"requests.rs",B+"recursive.rs"],[("referral filters",B+"requests.rs extract_*")],["nameserver lists produced from a response"])
p("C25","Resolution work is bounded","Resolving one query performs a bounded number of upstream exchanges: alias redirections, name servers tried per zone, retries per server, and nested lookups of name server addresses are each limited by configuration or by strict progress towards the searched name.",["inputs","configurations"],"every behaviour of upstream servers",NT+"the resolver is untested.",[B+"recursive.rs",B+"requests.rs"],[("caps and loop detection",B+"recursive.rs")],["every loop and recursive call reachable from resolution"])
p("C26","Alias chains are answered in order","When a queried name is an alias, the answer lists every alias record followed from the queried name, in order, before the records of the final name, and each alias record's target is the next name looked up; nothing unrelated is added.",["inputs"],"every alias chain in zones, cache and upstream responses",NT+"the resolver is untested.",[B+"recursive.rs",N+"handler.rs"],[("accumulation of aliases",B+"recursive.rs")],["answers of a successful resolution"])
p("C27","Network waits are bounded","Every blocking read or write on a TCP connection and every upstream exchange happens only after the configured read and write time-outs were set on that socket; a socket on which they cannot be set is not used.",["inputs","fault_sequences","configurations"],"every connection and every time-out configuration",NT+"no server code is tested.",[S+"net/tcp_server.rs",S+"net/setup.rs",B+"requests.rs"],[("set_read_timeout/set_write_timeout before use","tcp_server.rs, requests.rs")],["blocking socket calls"])
p("C28","The thread pool runs every job once and shuts down","Every submitted job is handed to exactly one worker and run once; dropping the pool tells every worker to stop and waits for every worker.",["schedules","histories"],"every number of workers and jobs and every interleaving",NT+"the pool is untested and schedules are not explored.",[S+"thread_pool.rs"],[("stop message per worker, then join",S+"thread_pool.rs")],["worker loop and pool shutdown"])
p("C29","Servers stop together","When one of the two servers (UDP, TCP) of a process stops for whatever reason, the other is told to stop and waited for (for a bounded time) before the process ends; a stop request makes each server leave its loop.",["schedules","fault_sequences"],"every order of server failures and stop requests",NT+"the servers are untested.",[S+"net/setup.rs",S+"net/udp_server.rs",S+"net/tcp_server.rs","src/bin/nameserver.rs","src/bin/resolver.rs"],[("shared stop flag",S+"net/setup.rs")],["server loops and start-up code"])
p("C30","Only validated configurations are used","A configuration that is accepted has non-zero thread counts, time-outs and limits, is validated before anything is started, and an invalid or unreadable one ends the program with an error.",["configurations"],"every configuration file",NT+"configuration is untested.",[N+"conf.rs",R+"conf.rs","src/bin/nameserver.rs","src/bin/resolver.rs"],[("validate on load","conf.rs")],["exits of configuration loading"])
p("C31","Zone records are accepted only where they belong","A zone is loaded only if every record of the authoritative part is in the zone and outside its subzones, has the zone's class, a supported type and a TTL no smaller than the zone minimum, and every record of a subzone part is an NS record of the subzone or an address of a name server of some subzone.",["configurations","inputs"],"every zone file",NT+"zone loading is untested.",[Z+"parser.rs",Z+"parser_auth.rs",Z+"parser_sub.rs",Z+"utils.rs"],[("per-record validation",Z+"parser_auth.rs, parser_sub.rs")],["records added to a zone"])
p("C32","A loaded zone is complete","A zone is loaded only if it starts with exactly one SOA record for the zone itself, has NS records at its top, and every subzone has NS records, with an address for each name server that lies inside a delegated subzone of the served zone.",["configurations","inputs"],"every zone file",NT+"zone loading is untested.",[Z+"parser.rs",Z+"parser_auth.rs",Z+"parser_sub.rs"],[("zone-level validation",Z+"parser_auth.rs, parser_sub.rs")],["exits of zone loading"])
p("C33","Zone file parsing terminates without aborting","Parsing any zone file text either succeeds or reports an error; it never aborts (index out of range, failed unwrap, overflow) and always terminates, also with escapes, quotes, unusual white space and files that include each other.",["inputs","configurations"],"every zone file text and include structure",NT+"the parser is untested.",[Z+"tokens.rs",Z+"parser.rs",Z+"parser_auth.rs",Z+"parser_sub.rs",Z+"utils.rs"],[("cursor checks",Z+"tokens.rs"),("include depth limit",Z+"parser_auth.rs")],["tokeniser and parser loops"])
p("C34","The bit buffer stays inside its bytes","Every read from or write to the message buffer either happens entirely inside it or reports an error and leaves the position unchanged, and each advances the position by exactly the number of bits asked for.",["inputs","histories"],"every buffer length, position and width",NT+"they fix one buffer length and a handful of positions and widths.",[S+"buffer/buffer.rs"],[("bounds checks",S+"buffer/buffer.rs")],["exits of every buffer operation"])
p("C35","Disabled tracing records nothing","When tracing is disabled, resolution records no trace entries and nested traces are not kept; when it is enabled, every upstream request, reply and failure is recorded.",["configurations"],"every resolution with tracing on or off",NT+"tracing is untested.",[B+"trace.rs",B+"recursive.rs"],[("silent switch",B+"trace.rs")],["writes to the trace"])
p("C36","Referrals list the subzone's servers and their addresses","A referral reply carries in its authority section exactly the NS records of the delegated subzone and in its additional section only address records of those name servers, and no answer.",["inputs","configurations"],"every query for a delegated name",NT+"the handlers are untested.",[N+"handler.rs",N+"zones/parser_sub.rs"],[("referral builder",N+"handler.rs handle_subzone")],["message passed to reply"])
p("C37","Messages survive an encode/decode round trip","Encoding any well-formed message and decoding the bytes gives back an equal message.",["inputs"],"every message",NT+"no message is encoded or decoded by a test.",[D+"message.rs",D+"records.rs",D+"name.rs"],[("codecs",D)],["encode then decode"])
p("C38","Resolution results agree with the DNS hierarchy","When upstream servers are honest and reachable, a resolved answer equals the data the authoritative servers of the name hold.",["histories","fault_sequences"],"every DNS hierarchy and server behaviour",NT+"the resolver is untested.",[B+"recursive.rs"],[("iterative resolution",B+"recursive.rs")],["answers"])
p("C39","Expired cache entries are eventually removed","The cache does not grow for ever: an entry that has expired is removed within a bounded time.",["histories","schedules"],"every history of insertions and every schedule of the cleaner",NT+"the cache is untested.",[B+"cache.rs"],[("periodic cleaner",B+"cache.rs")],["cache cleaner"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+"\n")
print(len(P))
