# Per-property remarks for DESIGN.md: oracle, corrected false alarms, limits. COST: seconds of the quick check on 8 cores.
COST={}
try:
    import os
    for l in open(os.path.dirname(os.path.abspath(__file__))+'/cost.txt'):
        a,b=l.split(); COST[a]=b
except OSError: pass
N={}
def n(id,oracle=None,false=None,limits=None):
    N[id]=dict(cost=f"quick about {COST.get(id,'200')} s, thorough up to 600 s (wall, 8 cores).")
    if oracle: N[id]['oracle']=oracle
    if false: N[id]['false']=false
    if limits: N[id]['limits']=limits
n('P01',"every reply leaving the program must belong to an outstanding query of exactly that client address/connection, interface, ID, name and type; the answers' data name the query they were made for, so an answer to another question is recognised by content.")
n('P02',"an own list of pending queries: each delivered answer matching one produces exactly one reply with identical bytes, each other answer none; forwarded queries are unchanged.",
  "answers that arrive in the same instant as the sweep; equal queries of one client are two queries that may share an answer order.")
n('P03',"a reference clock per query (sure pending < 2 s, surely forgotten > 14 s, in between both outcomes allowed) and a reference server cursor.")
n('P04',"per client a list of owed replies; every received frame must be one of them; a well-behaving TCP client and a UDP client elsewhere are served at once after every step.")
n('P05',"a byte-level automaton for each upstream connection (handshake, frames of pending queries only), a reference idle timer, and liveness probes after every disturbance.",
  "idle time is measured until the connection is taken for use; stalls of several failures add up; answers of servers outside the time limits.",
  "SOCKS5 proxies given by name are outside.")
n('P06',"an independent routing function over the configured pattern lists (longest suffix, last of equals, wildcards, catch-all), compared with the server each forwarded query reaches.",
  "the fallback when no group fits ignores the transport (documented nowhere; accepted, and now in the statement).")
n('P07',"set membership computed from the lists.")
n('P08',"an independent evaluation of the hosts entries.")
n('P09',"a reference resolver of the chain over hosts, cache and scripted upstream answers; the reply is decoded by the independent codec and compared record by record.",
  "the reply to equal queries (same client, ID and question) need be given once only; answers later than the documented wait may be dropped.")
n('P10',"a reference cache (checks/cache.h) of all answers received, with every record's expiry.",
  "records too large for the cache need not be kept (then the set must not be served).")
n('P11',"the reference cache with the TTL rules computed independently from the configuration text.")
n('P12',"the reference cache plus the measured capacity: the cache must again hold as many records after expiry as a fresh one, and everything found must be right; overlap is found by comparing all records after each operation.",
  "an early version compared cache-full histories byte for byte with a model of the allocator; now only observable effects are judged.")
n('P13',"the reference cache after restart (nothing never received, nothing of other names; everything stored before a clean stop), plus memory safety and serving new queries.",
  "after a crash, TTLs may lack up to one countdown period; parallel branches shared one scratch directory.",
  "page-level torn writes of a power loss are outside (process crash only).")
n('P14',"a predicate over the rule set and each address, evaluated with Python-like clarity in the check (mask compare), and byte comparison of everything else in the answer.",
  "over TCP another answer on the same connection after a discarded one is not waited for (one answer per connection); among rules for the same address one is used.")
n('P15',None,"an empty group file is valid; a comma in Hosts separates sources; queries for an alias target are queries of their own.")
n('P16',None,"overlong names were first required to be refused although they are handled harmlessly; counters of the report were compared without normalisation; the log directory was shared between branches.")
n('P17',"an independent decoder; the sequence of decoded records must equal the sequence of requested ones, byte budget exact.",
  "unanswered alias queries may reuse an internal ID; names with dots or NUL inside labels are excluded.")
n('P18',"linear search over the list of additions.",
  "data-less wildcards in the random-match function; names with empty labels.")
n('P19',"std::multiset/map/vector counterparts, compared in full after every operation; pointer stability is checked by keeping all references and by AddressSanitizer.")
n('P20',"a reference agenda of due times under virtual time.",
  "the order in which tasks with own threads get going cannot be promised beyond their start.")
n('P21',"an independent reader of the configuration syntax written from default.en.config.",
  "text after a boolean, expansion of several words in paths, a carriage return exactly at the end of a chunk, numbers cut by the line limit.")
n('P22',"an own count per domain and outcome; the report is parsed as HTML/JSON.",
  "branches shared one report file.")
n('P23',"inet_pton/inet_ntop of the C library (the check's own, not redirected).")
n('P24',"the model of the list (winner rotated to the front).",
  "mapped IPv6 addresses compared as text.")
n('P25',None,"repeated queries (same client and ID) may be answered by one or several answers.",
  "two delays at access level for pairs of events only in thorough.")
n('P26',None,"counts were sampled while a reload was going on; sockets opened at first use were taken for growth; a TCP group's backlog takes long to drain.")
n('P27',"all log files are read after every step; concatenated in order of number they must contain every message once, in order and in one piece.",
  "file offsets shared between forked branches.")
n('P28',"decoded forwarded queries (client's query plus exactly one OPT), first acceptable answer relayed byte for byte.",
  "malformed answers with AP off may be relayed.")
