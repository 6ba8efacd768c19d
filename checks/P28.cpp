// P28: EDNS protection (AP). All query forms x answer sequences x transports, with the option on and off.
#include "scn.h"
using namespace dns;
static bytes frame(const bytes &b) { bytes f; p16(f, b.size()); return f + b; }
struct W28 {
    bool ap, ctcp; int ups; bool cache; // ups: 0 UDP, 1 UDP parallel, 2 TCP, 3 TCP parallel
    Conn *cc = nullptr; size_t o0 = 0; int id = 1;
    struct Up { Sent s; Conn *c; bytes q; };
    W28(bool ap_, bool ctcp_, int ups_, bool cache_, const std::string &more = "") : ap(ap_), ctcp(ctcp_), ups(ups_), cache(cache_)
    {
        on_connect = [](const Addr &, int64_t *d) { *d = 0; return (int)ACCEPT; };
        static const char *G[] = {"UDPGroup 1.1.1.1 * off\n", "UDPGroup 1.1.1.1,2.2.2.2 * on\n", "TCPGroup 1.1.1.1 * off no\n", "TCPGroup 1.1.1.1,2.2.2.2 * on no\n"};
        private_files = true;
        boot(std::string("LogOn false\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\n") + G[ups] + (ap ? "AP true\n" : "") + (cache ? "UseCache true\nMemoryCache true\nCacheSize 200000\n" : "UseCache false\n") + more);
        if (ctcp) { cc = tcp_connect("9.9.9.1:1111", "127.0.0.1:53"); run(); }
        o0 = out.size();
    }
    std::vector<Up> ask(const bytes &q)
    {
        for (auto c : conns) if (c->outgoing) tcp_take(c);
        o0 = out.size(); if (ctcp) tcp_push(cc, frame(q)); else udp_in("9.9.9.1:1111", "127.0.0.1:53", q);
        run(); return forwarded();
    }
    std::vector<Up> forwarded()
    {
        std::vector<Up> r;
        if (ups >= 2) { for (int k = 0; k < 20; k++, advance(50)) { for (auto c : conns) if (c->outgoing) { bytes t = tcp_take(c); if (t.size() > 2) { REQUIRE(t.size() == 2u + g16(t, 0), "TCP upstream got something else than one message: %s", hex(t).c_str()); r.push_back({Sent(), c, t.substr(2)}); } } if (r.size() == (ups == 3 ? 2u : 1u)) break; } }
        else for (size_t i = o0; i < out.size(); i++) if (out[i].dst == "1.1.1.1:53" || out[i].dst == "2.2.2.2:53") r.push_back({out[i], nullptr, out[i].data});
        return r;
    }
    void reply(const Up &u, const bytes &a) { if (u.c) tcp_push(u.c, frame(a)); else udp_reply(u.s, a); run(); }
    std::vector<bytes> got()
    {
        std::vector<bytes> r;
        if (ctcp) { bytes b = tcp_take(cc); while (b.size() > 1) { r.push_back(b.substr(2, g16(b, 0))); b.erase(0, 2 + g16(b, 0)); } }
        else { for (size_t i = o0; i < out.size(); i++) if (out[i].dst == "9.9.9.1:1111") r.push_back(out[i].data); o0 = out.size(); }
        return r;
    }
};
static int opts(const Msg &m) { int n = 0; for (auto &r : m.ar) n += r.type == OPT; return n; }
// what goes upstream for the query q
static void sent_ok(bool ap, const bytes &q, const bytes &f)
{
    Msg a, b; REQUIRE(decode(q, a), "bad test query"); count_eval(1);
    if (!ap || opts(a)) { REQUIRE(f == q, "query %s was forwarded as %s", show(q).c_str(), show(f).c_str()); return; }
    REQUIRE(decode(f, b), "query %s was forwarded malformed: %s", show(q).c_str(), hex(f).c_str());
    REQUIRE(opts(b) == 1, "with AP the query %s was forwarded with %d OPT records: %s", show(q).c_str(), opts(b), str(b).c_str());
    for (size_t i = 0; i < b.ar.size(); i++) if (b.ar[i].type == OPT) { REQUIRE(b.ar[i].name == "" && b.ar[i].klass >= 512 && b.ar[i].ttl == 0 && b.ar[i].rdata == "", "odd OPT record: %s", str(b).c_str()); b.ar.erase(b.ar.begin() + i); break; }
    REQUIRE(a.id == b.id && a.flags == b.flags && a.qd.size() == b.qd.size() && a.qd[0].name == b.qd[0].name && a.qd[0].type == b.qd[0].type && a.qd[0].klass == b.qd[0].klass && a.an == b.an && a.ns == b.ns && a.ar == b.ar, "query %s was forwarded as %s", show(q).c_str(), show(f).c_str());
}
static RR rec(const std::string &n, int type, const bytes &d, int klass = 1) { RR r; r.name = n; r.type = type; r.klass = klass; r.ttl = 0; r.rdata = d; return r; }
static Msg form(int id, const std::string &n, int k)
{
    Msg q = dns::query(id, n, k % 3 == 0 ? A : k % 3 == 1 ? AAAA : MX);
    switch (k) {
    case 0: case 1: case 2: break;
    case 3: q.ar.push_back(opt(512)); break;
    case 4: { RR o = opt(4096); o.ttl = 0x8000; q.ar.push_back(o); break; }
    case 5: { RR o = opt(1232); o.rdata = bytes("\0\x0a\0\x08" "abcdefgh", 12); q.ar.push_back(o); break; }
    case 6: q.ar.push_back(rec("key.org", 250, bytes(40, 'k'), 255)); break;            // TSIG
    case 7: q.ar.push_back(opt(4096)); q.ar.push_back(rec("key.org", 250, bytes(40, 'k'), 255)); break;
    case 8: q.ar.push_back(rrA("glue.org", "1.2.3.4")); q.ar.push_back(opt(4096)); break;
    case 9: q.flags = 0x0010; break;                                                        // CD, no RD
    case 10: q.ar.push_back(rrA("a.b.c.org", "1.2.3.4")); q.ar.push_back(rrTXT("a.b.c.org", "x")); break;
    case 11: q.ns.push_back(rrName(NS, "org", "ns.org")); break;                           // notify like
    case 12: q.flags |= 0x20; q.qd[0].type = 255; break;
    case 13: { RR o = opt(4096); o.rdata = bytes("\0\x0c", 2); p16(o.rdata, 900); o.rdata += bytes(900, '\0'); q.ar.push_back(o); break; }
    case 14: q.ns.push_back(rec("x.org", 16, bytes(1, (char)200) + bytes(200, 'x'))); q.ar.push_back(rec("y.org", 99, bytes(900, 'y'))); break;
    case 15: q.qd[0].type = 65; break;
    }
    return q;
}
static const int FORMS = 16;
static void queries()
{
    W28 w(choose(2, "ap"), choose(2, "tcp client"), choose(4, "upstreams"), choose(2, "cache")); static const char *N[] = {"a.org", "x", "WwW.EXAMPLE.com", "", "l"};
    int ni = choose(5, "name"); std::string n = ni < 4 ? N[ni] : std::string(63, 'p') + "." + std::string(63, 'q') + "." + std::string(63, 'r') + "." + std::string(55, 's');
    for (int k = 0; k < FORMS; k++) {
        bytes q = encode(form(w.id++, n, k)); auto f = w.ask(q); REQUIRE((int)f.size() == (w.ups & 1 ? 2 : 1), "query %s was forwarded %zu times", show(q).c_str(), f.size());
        for (auto &u : f) sent_ok(w.ap, q, u.q);
        Msg m; decode(q, m); Msg a = dns::answer(m, {}); a.flags |= 2; a.ar.push_back(opt()); for (auto &u : f) w.reply(u, encode(a)); REQUIRE(w.got().size() == 1, "an answer with OPT was not relayed once");
    }
    exec_done("");
}
// answers: kind, whether it is one with EDNS
struct Ans { bytes b; bool edns, ok; };
static const int KINDS = 12;
static Ans mk(const Msg &q, int k, int serial)
{
    std::string ip = "5.6.7." + std::to_string(1 + serial); const std::string &n = q.qd[0].name; Msg a = dns::answer(q, {rrA(n, ip.c_str())});
    switch (k) {
    case 0: return {encode(a), false, true};
    case 1: a.ar.push_back(opt(1232)); break;
    case 2: a.ns.push_back(rrName(NS, "org", "ns.org")); a.ar.push_back(rrA("ns.org", "9.9.9.9")); return {encode(a), false, true};
    case 3: a.ns.push_back(rrName(NS, "org", "ns.org")); a.ar.push_back(rrA("ns.org", "9.9.9.9")); a.ar.push_back(opt()); break;
    case 4: a.ar.push_back(opt()); a.ar.push_back(rrA("ns.org", "9.9.9.9")); return {encode_c(a), true, true};
    case 5: a.an.clear(); a.flags |= 3; a.ns.push_back(rrTXT("org", "x")); return {encode(a), false, true};
    case 6: a.an.clear(); a.flags |= 3; a.ar.push_back(opt()); break;
    case 7: { RR o = opt(); o.rdata = bytes("\0\x0f\0\x02\0\x03", 6); o.ttl = 0x8000; a.ar.push_back(o); break; }
    case 8: a.ar.push_back(opt()); a.id ^= 1; return {encode(a), true, false};
    case 9: a.ar.push_back(rec("", 40, "")); a.an.push_back(rec("", 42, "")); return {encode(a), false, true};
    case 10: { bytes b = encode(a); b[11] = 1; return {b, false, false}; }        // promises an additional record
    case 11: a.an.push_back(rrTXT(n, bytes("\0\0\x29\x05\0\0\0\0\0\0\0", 11))); return {encode(a), false, true}; // looks like one
    }
    return {encode(a), true, true};
}
static void answers(int depth)
{
    bool ap = choose(2, "ap"), ctcp = choose(2, "tcp client"); int ups = choose(4, "upstreams"); W28 w(ap, ctcp, ups, choose(2, "cache")); int form_ = choose(3, "form"); std::string obs;
    Msg q = dns::query(77, "www.org", A, form_ == 1); if (form_ == 2) q.ar.push_back(rrA("glue.org", "1.1.1.1"));
    auto f = w.ask(encode(q)); REQUIRE(f.size() == (ups & 1 ? 2u : 1u), "forwarded %zu times", f.size()); for (auto &u : f) sent_ok(ap, encode(q), u.q);
    bool done = false; bytes rel; std::map<Conn *, bool> dead;
    for (int i = 0; i < depth; i++) {
        int k = choose(KINDS, "answer"); const auto &u = f[ups & 1 ? choose(2, "from") : 0]; Ans a = mk(q, k, i);
        if (u.c && u.c->prog_closed) break;
        bool want = !done && a.ok && (a.edns || !ap); w.reply(u, a.b); auto g = w.got(); count_eval(1); count_transitions(1);
        if (u.c && done) { REQUIRE(g.empty(), "a second answer was relayed"); break; }
        if (k == 10 && !ap && !done && g.size() == 1 && g[0] == a.b) { done = true; rel.clear(); } // malformed: may be passed on as it is
        else if (want) { REQUIRE(g.size() == 1 && g[0] == a.b, "AP %d: answer %s was %s", ap, show(a.b).c_str(), g.empty() ? "not relayed" : ("relayed as " + show(g[0])).c_str()); done = true; rel = a.b; }
        else REQUIRE(g.empty(), "AP %d: answer %s was relayed as %s", ap, show(a.b).c_str(), show(g[0]).c_str());
        obs += want ? 'r' : '.';
        if (u.c) break; // one answer per connection: what follows would be read as the answer to a later query
    }
    if (!done && f[0].c) { // later queries are served all the same
        advance(8000); }
    if (done && rel.empty()) exec_done(obs + "m");
    // discarded answers are not cached
    Msg q2 = dns::query(78, "www.org", A, form_ == 1); auto f2 = w.ask(encode(q2)); auto g = w.got();
    if (w.cache && done && f2.empty() && rel.size()) { Msg r, m; REQUIRE(g.size() == 1 && decode(g[0], r) && decode(rel, m) && r.an.size() >= 1, "no answer from the cache"); bool in = false; for (auto &x : m.an) in |= x.rdata == r.an[0].rdata; REQUIRE(in, "a discarded answer was cached: %s", str(r).c_str()); obs += 'c'; }
    else { REQUIRE(g.empty() && f2.size() == f.size(), "after discarded answers the query was %s", g.size() ? ("answered: " + show(g[0])).c_str() : "not forwarded"); Msg a = dns::answer(q2, {rrA("www.org", "6.6.6.6")}); a.ar.push_back(opt()); w.reply(f2[0], encode(a)); g = w.got(); REQUIRE(g.size() == 1 && g[0] == encode(a), "an answer with OPT was not relayed later"); }
    exec_done(obs);
}
// hosts aliases resolved upstream
static void aliases()
{
    bool ap = choose(2, "ap"); int ups = choose(4, "upstreams"); bool ctcp = choose(2, "tcp client"); bool edns = choose(2, "edns"), v6 = choose(2, "type"); W28 w(ap, ctcp, ups, choose(2, "cache"), "AppendHosts target.org alias.org\n"); int k = choose(3, "answer");
    Msg q = dns::query(77, "alias.org", v6 ? AAAA : A, edns); auto f = w.ask(encode(q)); REQUIRE(f.size() == (ups & 1 ? 2u : 1u), "target query forwarded %zu times", f.size());
    Msg tq; REQUIRE(decode(f[0].q, tq) && tq.qd.size() == 1 && tq.qd[0].name == "target.org", "target query: %s", show(f[0].q).c_str()); if (ap) REQUIRE(opts(tq) == 1, "with AP the target query was forwarded with %d OPT records", opts(tq));
    auto reply = [&](bool o) { Msg a = dns::answer(tq, {v6 ? rrAAAA("target.org", bytes(16, o ? '6' : '5')) : rrA("target.org", o ? "6.6.6.6" : "5.5.5.5")}); if (o) a.ar.push_back(opt()); return encode(a); };
    std::vector<bytes> g; bool first = k > 0; w.reply(f[0], reply(first)); g = w.got();
    if (ap && !first) { REQUIRE(g.empty(), "a target answer without OPT was used: %s", show(g[0]).c_str()); if (ups & 1) w.reply(f[1], reply(true)); else if (ups == 0) w.reply(f[0], reply(true)); else exec_done("-"); g = w.got(); }
    count_eval(1); REQUIRE(g.size() == 1, "%zu replies to the alias query", g.size()); Msg r; REQUIRE(decode(g[0], r) && r.id == 77 && r.an.size() == 2 && opts(r) == (edns ? 1 : 0), "reply to the alias query: %s", show(g[0]).c_str());
    if (ap) REQUIRE(r.an[1].rdata[0] == 6 || r.an[1].rdata[0] == '6', "not the answer with OPT: %s", str(r).c_str());
    exec_done("r");
}
void check_main()
{
    explore("queries", queries);
    explore("answers", [] { answers(g_thorough ? 3 : 2); });
    explore("aliases", aliases);
    explore("ipv6", [] { ipv6_clients = true; switch (choose(3, "part")) { case 0: queries(); break; case 1: aliases(); break; case 2: answers(2); } });
}
