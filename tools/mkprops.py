#!/usr/bin/env python3
import os; ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Source of /verif/properties.jsonl (kept as code so that edits stay consistent).
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=state,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
p("P01","A reply reaches only the client that asked, for the question it asked",
 "Every DNS reply the forwarder emits goes to the address (UDP) or connection (TCP) of a client that has an outstanding query, leaves through the interface that query arrived on, and carries that query's ID and question (name and type). No history of queries, upstream answers, duplicates, reordered or late answers, and no thread interleaving, may hand one client's answer to another client or answer one question with the answer to another one.",
 ["histories","schedules","inputs"],"all interleavings of several clients' queries (equal or different IDs, names, types) with upstream answers in any order, duplicated, late or unsolicited, over all thread schedules up to a delay bound",
 "Misdelivery needs specific collisions of ID/name/type between concurrent clients, a particular answer order, or a preemption between worker, sweeper and frontend; the existing tests never run two clients at once.",
 ["udpfrontend.c","tcpfrontend.c","iheader.c","mcontext.c","udpm.c","tcpm.c","hosts.c"],["pending-query context of each upstream module","per-query header (return address, socket, id)"],
 [("pending query store and lookup","mcontext.c"),("header construction","iheader.c"),("answer dispatch","udpm.c, tcpm.c")],["datagrams and TCP bytes leaving the program"])
p("P02","Each answered query gets exactly one reply, identical to the upstream answer",
 "When a forwarded query is answered by one of its upstream servers within two seconds, the client receives exactly one reply, and that reply is byte for byte the first acceptable answer that arrived for it. Further answers to the same query, and answers nobody asked for, are dropped without a trace and without disturbing other outstanding queries.",
 ["histories","schedules"],"all orders of up to a bounded number of queries, answers, duplicate answers and unsolicited answers, parallel and non-parallel groups, over all thread schedules up to a delay bound",
 "Losing, duplicating or altering an answer depends on the order in which answers interleave with queries and on the set of other pending queries.",
 ["udpm.c","tcpm.c","mcontext.c","iheader.c","bst.c"],["pending-query context"],[("match-and-remove of pending query","mcontext.c"),("parallel querying","udpm.c")],["datagrams leaving the program"])
p("P03","Unanswered queries are forgotten and the upstream is rotated",
 "A query no upstream answers stays pending for at least two seconds and is forgotten within about twelve more; after that an answer to it is never delivered and it cannot capture the answer to a newer query. In a non-parallel group (of one address family), queries keep going to the same server until a query to it times out and then go to the next server of the group in order, wrapping around; after many consecutive timeouts the upstream socket is renewed and service continues.",
 ["histories","schedules"],"all sequences of query / answer / passage-of-time events up to a depth, including answers arriving just before and after the timeout",
 "Timeout behaviour plays out over tens of seconds and depends on the exact position of sweeps relative to queries and answers.",
 ["udpm.c","mcontext.c","addresslist.c"],["pending-query context","upstream address cursor","timeout counter"],[("timeout sweep","mcontext.c, udpm.c"),("server rotation","addresslist.c")],["datagrams leaving the program under a virtual clock"])
p("P04","TCP clients: framing, pipelining and isolation",
 "A query sent over TCP is recognised by its two-byte length prefix however the byte stream is cut into segments, several queries on one connection are all processed, and each reply is sent on the same connection as one length-prefixed message. A client that connects and stays silent, stops in the middle of a message, sends garbage or disconnects does not keep other clients from being served and never receives another client's data. (Beyond about 512 connections, or when descriptors run out, the least recently active clients may be dropped; a client that has closed its sending side still gets its replies for ten seconds.)",
 ["inputs","histories","schedules"],"all segmentations of one or two queries into up to a few segments with pauses, combined with silent, half-sending, garbage-sending and disconnecting other clients, in all orders",
 "Segmentation and misbehaving peers are adversarial environment choices; loopback tests always deliver a message in one piece.",
 ["tcpfrontend.c","iheader.c","socketpuller.c","socketpool.c"],["set of client connections"],[("TCP accept/receive loop","tcpfrontend.c"),("reply framing","iheader.c")],["bytes on TCP connections"])
p("P05","TCP upstreams: framing, connection reuse, retry and SOCKS5",
 "A query forwarded over TCP is sent as one length-prefixed message (after a correct SOCKS5 handshake when a proxy is configured), and an upstream answer is relayed complete and unaltered however the server cuts it into segments. An idle connection is reused only within the keep-alive time; a query on a reused connection that the server closes is retried on a fresh connection, and a refused, silent or misbehaving server or proxy never corrupts later queries and delays them by no more than the connection and receive time limits (a few seconds for each failure). The keep-alive time counts until the connection is taken for the next query; SOCKS5 proxies are given as textual addresses.",
 ["inputs","histories","fault_sequences"],"all segmentations of upstream answers, all sequences of connection outcomes (accept, refuse, black hole, close before/after answer, partial answer) over several queries and times",
 "Server and proxy behaviour is an unbounded fault space over multi-step connection histories.",
 ["tcpm.c","socketpuller.c","utils.c","mmgr.c"],["pool of upstream connections","pending-query context"],[("connect/reuse/retry","tcpm.c"),("SOCKS5 handshake","tcpm.c")],["bytes on upstream TCP connections, datagrams to the client"])
p("P06","Queries are routed to the server group their domain selects",
 "A query is forwarded only to servers of one group: the group whose domain list contains the longest suffix of the queried name (whole labels, case-insensitive, the name itself included), the one configured last if several list it, and wildcard patterns and the catch-all pattern only if no plain domain matches. Groups whose transport does not fit the client's transport are skipped unless the corresponding cross-transport option is enabled; if then no group fits, one single configured group gets the query whatever its transport, and group files mean the same as the equivalent group options.",
 ["configurations","inputs"],"all small sets of groups over a domain alphabet (plain domains, wildcards, catch-all; UDP and TCP; option and group-file form) and all query names over the alphabet, for both client transports",
 "The selection rule ranges over all combinations of lists and names; tests exercise the matcher on a handful of strings.",
 ["mmgr.c","stringchunk.c","simpleht.c","stringlist.c"],["domain-to-group map"],[("group selection","mmgr.c"),("domain matching","stringchunk.c")],["destination of forwarded datagrams / connections"])
p("P07","Disabled types and domains are refused locally and never forwarded",
 "A query whose type is listed as disabled, or whose name equals or lies under a disabled domain (from the options or the disabled-list files; wildcards allowed, letter case irrelevant), is answered at once by the forwarder itself with an empty successful reply that repeats its ID and question, and nothing about it is sent upstream. Every other query is unaffected.",
 ["configurations","inputs"],"all small sets of disabled types/domains from options and list files, and all query names and types over an alphabet, over both transports",
 "Both directions (nothing listed leaks, nothing unlisted is refused) quantify over all names, types and list contents.",
 ["filter.c","iheader.c","stringchunk.c"],["disabled type set","disabled domain set"],[("query filter","filter.c")],["replies to clients, datagrams to upstreams"])
p("P08","Hosts entries answer exactly the names and types they define",
 "For a name with a hosts entry the forwarder itself answers an A query with the most recently listed IPv4 address and an AAAA query with the most recently listed IPv6 address, or else that IPv4 address in IPv4-mapped form (or, if so configured, an empty reply). Configured entries are consulted before the hosts file, entries for the exact name (in any letter case) before the first matching wildcard; among the entries so selected an exclusion (@@) makes the name be treated as having none, and addresses go before aliases. A type the entries do not provide is not answered from them, and nothing answered from hosts is sent upstream; a reply repeats the ID and question of the query and carries an OPT record exactly if the query did.",
 ["configurations","inputs"],"all small combinations of static and file hosts entries (IPv4, IPv6, CNAME, exclusion, wildcard) and all query names and types over an alphabet, with and without EDNS",
 "Precedence and selection are statements about all combinations of entries and queries.",
 ["hosts.c","statichosts.c","dynamichosts.c","hostscontainer.c","hostsutils.c"],["static and dynamic hosts tables"],[("hosts lookup","hostsutils.c"),("hosts container","hostscontainer.c")],["replies to clients, datagrams to upstreams"])
p("P09","A hosts alias is resolved and answered as one complete chain",
 "If hosts map a name to another name, an address query for it is resolved by querying the target name, and the client receives one reply with its own ID and question containing an alias record from the queried name to the target followed by all alias and address records of the target's answer. The chain may pass through further hosts entries, the cache or an upstream; concurrent alias queries, target failures, timeouts and late answers never mix up clients, and an alias that leads back to itself does not hang, crash or exhaust the forwarder.",
 ["histories","configurations","schedules"],"all interleavings of several clients' alias queries with upstream answers in any order, late or missing, for alias chains of length 1..3 incl. loops, UDP and TCP clients",
 "The recursion runs through internal sockets and two threads; mix-ups need concurrent queries and particular answer orders.",
 ["hosts.c","hostsutils.c","mcontext.c"],["pending alias queries"],[("alias recursion through loopback socket","hosts.c"),("combination of replies","hostsutils.c")],["replies to clients"])
p("P10","The cache returns exactly the stored, still valid records",
 "A query answered from the cache gets the same records (owner, type, class, data, complete set) an upstream answer delivered earlier for that name and type, following cached alias chains, with the remaining time-to-live; it is never answered with records of another name or type, with an incomplete set (all still valid records received for that name and type, in whatever section; a set with a record too large for the cache is not served at all), or with records that have expired or were never received. A query that the cache cannot answer is forwarded upstream unchanged.",
 ["histories","inputs"],"all sequences up to a depth of queries and upstream answers over an alphabet of names (incl. letter-case variants), record types and record sets, and passage of time",
 "Wrong cache content only shows after specific store/expire/refetch histories and for specific record types.",
 ["dnscache.c","cacheht.c","dnsgenerator.c","dnsparser.c"],["cached record store"],[("store","dnscache.c"),("fetch","dnscache.c"),("expiry","dnscache.c")],["replies to clients, datagrams to upstreams under a virtual clock"])
p("P11","Cache lifetimes follow the configured TTL rules",
 "How long a record may be served from the cache and the time-to-live shown to clients are exactly determined by the record's TTL and the configuration (ignore/override/multiply TTL options and the per-domain rules: original, no caching, fixed, computed, with their inheritance along alias chains, the most specific domain rule winning). A record is never served from the cache after that lifetime has elapsed and the shown value never grows while a record stays cached.",
 ["configurations","histories"],"all small TTL configurations and rule sets, all TTL classes (0, 1, small, huge), query times at and around every boundary",
 "Boundary and rule-combination behaviour over time is not sampled by any test.",
 ["dnscache.c","cachettlcrtl.c"],["cached record TTLs","TTL rule table"],[("TTL rules","cachettlcrtl.c"),("countdown","dnscache.c")],["replies to clients, datagrams to upstreams under a virtual clock"])
p("P12","The cache store stays consistent and bounded for every history",
 "For every sequence of insertions, expirations and lookups the cache never stores more than its configured size, never lets two live records overlap or corrupt each other, always finds a live record that was stored, and space of expired records becomes usable again. Running out of space only means that new records are not cached.",
 ["histories"],"all operation sequences up to a depth over records of different sizes and lifetimes on a small cache",
 "Allocator and hash-chain corruption needs particular sequences of inserts, expiries and reuse.",
 ["dnscache.c","cacheht.c","array.c"],["cache memory area","slot table","free lists"],[("node allocation and reuse","cacheht.c"),("record storage","dnscache.c")],["replies to clients, datagrams to upstreams"])
p("P13","A persisted cache survives restarts and is never trusted when unusable",
 "With the file cache enabled, records stored before a clean stop are served after a restart with the same cache settings. A cache file that is missing, truncated, of another version or size, or left by a crash of the process at any point of an update never makes the restarted forwarder crash, answer with records that were not received or, unless it is a file of other settings that it was told not to overwrite, fail to serve.",
 ["crash_points","histories"],"all crash points (after every individual memory write to the file-backed area) of store/expire histories, all truncations and header corruptions of the file, then restart and query",
 "Crash points inside an update and damaged files cannot be hit by unit tests.",
 ["dnscache.c","cacheht.c"],["file-backed cache area and its header"],[("file mapping and reload","dnscache.c"),("reload of node table","cacheht.c")],["replies after restart"])
p("P14","Upstream answers are filtered by the blocking and substitution rules",
 "An upstream answer containing an address that matches a blocking rule (single address or range, IPv4 or IPv6), or, with negative blocking on, an answer with an error code, is discarded as if it had not arrived (over TCP the client then waits for other servers); an address matching a substitution rule is replaced by the configured address, and everything else in the answer is left unchanged. Rules for the single address go before rules for ranges, narrower ranges before wider ones; apart from several rules for exactly the same address or range (one of them acts), the outcome does not depend on the order of rules or on rules that do not cover the address.",
 ["configurations","inputs"],"all small rule sets (overlapping and nested ranges, block and substitute, IPv4 and IPv6, both listing orders) and all answers with up to a few addresses at range boundaries",
 "Correctness over overlapping rule sets and boundary addresses is a universally quantified statement.",
 ["ipmisc.c","ipchunk.c","utils.c"],["address rule table"],[("answer filter","ipmisc.c"),("address range lookup","ipchunk.c")],["replies to clients"])
p("P15","Reloading is atomic: every query sees the old or the new configuration",
 "While hosts, disabled lists, address rules or group files are reloaded, each query is treated, with respect to each of these tables, entirely according to its old or its new content (the target of an alias is looked up as a query of its own); queries that start after the reload completed see the new content; and a download that fails (also with an HTTP error), a hosts source that cannot be read, or group files that are invalid leave the old hosts or groups in force. The hosts script runs once after each complete download, and the files are loaded as it left them. Queries pending when groups are replaced still get the answers which arrive in time. No interleaving of queries and reload crashes, deadlocks, uses released data or loses the service.",
 ["schedules","fault_sequences"],"all thread interleavings (up to a delay bound) of queries with one or two reloads, with successful and failing sources",
 "Swap-under-lock errors only show in specific interleavings.",
 ["dynamichosts.c","filter.c","ipmisc.c","mmgr.c","downloader.c"],["current hosts / filter / address-rule / group tables and their locks"],[("swap of tables under read-write locks","dynamichosts.c, filter.c, ipmisc.c, mmgr.c")],["replies to clients, datagrams to upstreams, memory safety"])
p("P16","Malformed or hostile packets are harmless",
 "No datagram or TCP message from a client or an upstream, however malformed, makes the forwarder read or write outside the message, loop, hang or stop serving. A query that cannot be parsed is never answered or forwarded on behalf of another query, and afterwards well-formed queries are handled as usual.",
 ["inputs","histories"],"every truncation, every single-byte value replacement from a hostile value set at every offset, all small adversarial constructions (compression loops, length overruns, count overflows) of queries and answers through every processing path",
 "Memory safety for all inputs cannot be sampled; the parser is only tested on well-formed input.",
 ["dnsparser.c","dnsgenerator.c","iheader.c","udpfrontend.c","udpm.c","dnscache.c","ipmisc.c"],["message buffers"],[("message parser","dnsparser.c"),("header fill","iheader.c")],["memory-safety monitor, replies, liveness probe"])
p("P17","Messages the forwarder builds are well-formed and mean what was asked",
 "Every message composed locally (from hosts, cache, alias chains, refusals, added EDNS) is a well-formed DNS message whose section counts, record lengths and compressed names decode to exactly the intended question and records, for every combination of names, record types and buffer sizes. When something does not fit, the message is not sent in a truncated or inconsistent form: a reply is complete or not sent. (Names whose labels contain a dot or a zero byte are outside this property.)",
 ["inputs"],"all sequences of record additions up to a bound over a set of names with shared suffixes and record types, all buffer sizes around the needed size",
 "Compression offsets and length fields depend on the whole combination of names and sizes.",
 ["dnsgenerator.c","dnsparser.c","dnsrelated.c"],["message under construction"],[("message generator","dnsgenerator.c"),("name compression","dnsgenerator.c")],["generated bytes decoded by an independent decoder"])
p("P18","Domain lists match by exact name, parent domain and wildcard",
 "A domain list answers whether a name, one of its parent domains, or a wildcard pattern covering it was added, returning the data of the most specific plain entry and of the most recently added one among equals, falling back to wildcards only if no plain entry matches (which of several matching wildcards is unspecified, except that the catch-all \"*\" comes last); names never added are never matched. This holds for any number of entries, including across growth of the table and hash collisions.",
 ["inputs","histories"],"all insertion sequences up to a bound over an alphabet of names and patterns including constructed hash collisions and table-growth sizes, queried with every name",
 "Hash-chain order, table growth and suffix walking interact; only exhaustive combinations expose errors.",
 ["stringchunk.c","simpleht.c"],["hash table of names","wildcard list"],[("lookup","stringchunk.c"),("hash table growth","simpleht.c")],["library interface"])
p("P19","Core containers behave like their abstract counterparts",
 "The ordered tree, stable buffer, string list, priority queue, array and pending-query set behave like the corresponding mathematical multiset, sequence or map for every sequence of operations: nothing added is lost before it is deleted, nothing deleted is found, enumeration visits each element once, order is as specified, and references to stored elements stay valid while other elements are added or removed. (Resuming an enumeration of equal keys after deletions is not promised.)",
 ["histories"],"all operation sequences up to a depth over small key sets, including duplicate keys, on every container",
 "Pointer-structure errors need particular shapes (e.g. deleting a node with two children among duplicates).",
 ["bst.c","stablebuffer.c","stringlist.c","linkedqueue.c","array.c","mcontext.c"],["container internals"],[("tree delete","bst.c"),("buffer growth","stablebuffer.c")],["library interface"])
p("P20","Timed tasks run when due, in order, and periodic ones keep running",
 "A scheduled task never runs before its delay has elapsed and runs promptly after it, tasks run in order of due time (tasks due at the same instant in any order; tasks with their own thread need only be started in order, and a task running inline may delay the others), a periodic task runs again after every period and a one-shot task exactly once, for every combination of delays, periods and arrival times and whether tasks run inline or in their own thread.",
 ["histories","schedules"],"all combinations of up to a few tasks with delays/periods from a small set, added at different virtual times, immediate or not, inline or asynchronous",
 "Ordering errors depend on the relation of remaining times when a new task arrives.",
 ["timedtask.c","linkedqueue.c"],["task queue"],[("timer loop","timedtask.c")],["task invocations under a virtual clock"])
p("P21","Configuration text means what its documentation says",
 "Options take the values written in the configuration file regardless of spacing, comments, line endings and option order; later values of a single-valued option replace earlier ones, list options accumulate, omitted or empty options keep their defaults, booleans accept the documented spellings, and unknown options or overlong lines do not affect other options. Paths are expanded like shell words (first word taken); overlong paths are ignored; the value of a number or boolean on a line cut by the line limit is unspecified.",
 ["configurations","inputs"],"all configuration texts up to a bounded number of lines over an alphabet of line forms (options of each kind, comments, blanks, spacing, CRLF, missing final newline, overlong lines)",
 "The meaning is a function over all texts; interactions of neighbouring lines matter.",
 ["readconfig.c","readline.c"],["option table"],[("line reader","readline.c"),("option parser","readconfig.c")],["library interface"])
p("P22","Statistics count every query outcome exactly once",
 "With statistics enabled, the report shows for each queried domain exactly the numbers of queries answered from hosts, from the cache, over UDP and over TCP, refused or timed out, and of blocked answers that really happened since start, and the totals equal their sums. An answered query for a hosts alias counts as answered from hosts and the query for its target counts for the target; alias queries that remain unanswered, and queries whose client has gone before the reply, are not counted.",
 ["histories"],"all sequences up to a depth of query outcomes (hosts, cache, UDP, refused, timeout, blocked) over a few domains and report times",
 "Counts over histories and report intervals are not tested.",
 ["domainstatistic.c"],["per-domain counters"],[("counting","domainstatistic.c")],["statistic report file"])
p("P23","Textual addresses convert without loss or confusion",
 "Every IPv4 and IPv6 address, with or without port and brackets, in any accepted spelling (compressed, full, mixed case, embedded IPv4) is understood as exactly that address and port, printing an address and reading it back yields the same address, and text that is not an address is not taken for one.",
 ["inputs"],"all IPv6 zero-run patterns (2^8 group masks) with several spellings, all boundary IPv4 octets, all ports classes, and all short strings over the address alphabet",
 "Conversion is a function over all spellings; a handful is tested.",
 ["utils.c","addresslist.c"],[],[("text to number","utils.c"),("number to text","utils.c"),("address with port","addresslist.c")],["library interface"])
p("P24","Good-IP lists put the fastest reachable address first",
 "A hosts name bound to a good-IP list is answered with addresses of that list only; after each check round the address that accepted a connection first (within five seconds; ties either way) comes first, and when no address is reachable the list is kept as it was.",
 ["histories","fault_sequences"],"all combinations of per-address outcomes (latency order, refusal, silence) over several rounds for lists of up to a few addresses",
 "Outcome depends on timing of concurrent connection attempts.",
 ["goodiplist.c","hostsutils.c","dynamichosts.c"],["good-IP lists"],[("connection race","goodiplist.c")],["replies to clients"])
p("P25","Concurrent operation is free of crashes, deadlocks and corruption",
 "With clients, upstream answers, timeouts, cache expiry and reloads all active at once, no thread schedule leads to a crash, a deadlock, use of released memory, or damage to shared tables, and the forwarder keeps answering.",
 ["schedules"],"all schedules up to a delay bound at every synchronisation and I/O operation and, in the access-level mode, at every shared memory access of the concurrent sections",
 "Schedules are not controllable in tests.",
 ["udpm.c","dnscache.c","domainstatistic.c","mmgr.c","hosts.c","logs.c"],["all shared tables"],[("locks","common.h, rwlock.h")],["memory-safety and lock monitors, replies"])
p("P26","Resources stay bounded over any history",
 "Descriptors, threads and pending entries are released when the query, connection or configuration they belong to is gone, so that repeating any finite history of client, upstream and reload events does not make them (or the memory held) grow, once backlogs (a TCP group works through a few queries per second) have drained.",
 ["histories","fault_sequences"],"all short event histories repeated several times, comparing resource counts after equal numbers of repetitions",
 "Leaks only show over repetition of particular histories.",
 ["tcpfrontend.c","tcpm.c","udpm.c","mmgr.c","goodiplist.c"],["open descriptors","threads"],[("connection cleanup","tcpfrontend.c, tcpm.c"),("module cleanup","mmgr.c")],["descriptor and thread tables of the controlled environment"])
p("P27","Log files keep every message and rotate at the size limit",
 "With logging to file on, every message is written completely and in order to the current log or, after the size threshold is passed, to a numbered older log; no message is lost or overwritten by rotation, whatever log files already exist. (Messages during which the operating system refuses to open or rename the log are excused.)",
 ["histories"],"all sequences of messages of different sizes around the threshold and all sets of pre-existing log files",
 "Rotation happens only at particular cumulative sizes.",
 ["logs.c"],["current log file and its length"],[("rotation","logs.c")],["log files"])
p("P28","EDNS false-packet protection accepts only answers that carry EDNS",
 "With the anti-pollution option on, every query forwarded carries an EDNS OPT record (added once if the client sent none, and the rest of the query unchanged), an upstream answer without an OPT record is discarded as if it had not arrived, and the first answer carrying one is relayed. With the option off queries are forwarded byte for byte and answers are accepted with or without EDNS. (Malformed answers may be passed on with the option off; a TCP upstream connection carries one answer per query.)",
 ["histories","inputs"],"all sequences of answers with/without OPT for queries with/without OPT, option on and off, all name lengths",
 "Depends on order of forged and genuine answers and on message layout.",
 ["iheader.c","udpm.c","tcpm.c","dnsgenerator.c"],["pending-query context"],[("EDNS addition","iheader.c"),("false packet check","udpm.c")],["datagrams to upstreams and clients"])
if __name__=="__main__":
    with open(ROOT+"/properties.jsonl","w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
