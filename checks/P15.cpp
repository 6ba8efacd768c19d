// P15: reloading hosts, disabled lists, address rules and group files is atomic for every query, loses no pending query and never harms the service.
#include "scn.h"
using namespace dns;
extern "C" int sim_usleep(unsigned);
#ifndef ACC
#define ACC 0
#endif

static const Addr CLI = "9.9.9.1:1111", IF = "127.0.0.1:53";
struct Src { const char *hosts, *dis, *sub, *grp; };
// the program with all four tables read from files and read again every 100 s; servers answer at once
struct R15 : World {
    std::string conf_extra; bool groupfile = true; int id = 100; std::map<int, bytes> tx; std::map<Conn *, bytes> tb; std::vector<std::string> log; bool hold = false; std::vector<Sent> held; std::vector<std::pair<Conn *, bytes>> heldt;
    static void put(const Src &s) { write_file("src.txt", s.hosts); write_file("dis.txt", s.dis); write_file("sub.txt", s.sub); write_file("grp.txt", *s.grp ? s.grp : "PROTOCOL UDP\nSERVER 2.2.2.2\nunused.net\n"); }
    bytes reply_for(const std::string &srv, const bytes &qb) {
        Msg q; if (!decode(qb, q) || q.qd.size() != 1) fail("malformed upstream query %s", hex(qb).c_str()); const std::string &n = q.qd[0].name; std::vector<RR> an;
        if (q.qd[0].type == A) an.push_back(rrA(n, n.substr(0, 3) == "sub" ? "5.5.5.5" : (srv.substr(0, srv.find(':'))).c_str()));
        else if (q.qd[0].type == AAAA) an.push_back(rrAAAA(n, bytes(16, srv[0])));
        return encode(answer(q, an));
    }
    void start(const Src &s) {
        private_files = true; write_file(".dnsforwarder/x", ""); put(s); upstreams = {"1.1.1.1:53", "2.2.2.2:53", "3.3.3.3:53", "4.4.4.4:53"};
        on_sendto = [this](const Sent &x) { if (!is_up(x.dst)) return 0; log.push_back("U" + std::string(1, x.dst[0])); if (hold) held.push_back(x); else udp_reply(x, reply_for(x.dst, x.data)); return 0; };
        on_connect = [](const Addr &, int64_t *d) { *d = 0; return (int)ACCEPT; };
        boot("LogOn true\nUseCache false\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nEnableUDPtoTCP true\nUDPGroup 1.1.1.1 * off\nHosts file://" + path("src.txt") + "\nHostsDownloadPath " + path("h.txt") + "\nModulesUpdateInterval 100\nDisabledList " + path("dis.txt") + "\nReloadDisabledList true\nIPSubstitutingFile " + path("sub.txt") + "\nReloadIPSubstituting true\n" + (groupfile ? "GroupFile " + path("grp.txt") + "\nReloadGroupFile true\n" : "") + conf_extra);
    }
    void send(const char *n, int type, int i) { udp_in(CLI, IF, encode(query(i, n, type))); }
    void tcp_serve() { for (size_t k = 0; k < conns.size(); k++) { Conn *c = conns[k]; if (!c->outgoing || c->prog_closed) continue; bytes &b = tb[c]; b += tcp_take(c); while (b.size() >= 2 && b.size() >= 2u + g16(b, 0)) { bytes q = b.substr(2, g16(b, 0)); b.erase(0, 2 + q.size()); log.push_back("T" + std::string(1, c->peer[0])); bytes r = reply_for(c->peer, q), f; p16(f, r.size()); f += r; if (hold) heldt.push_back({c, f}); else tcp_push(c, f); } } }
    void settle(int ms) { for (int t = 0; t < ms; t += 100) { tcp_serve(); advance(100); } tcp_serve(); run(); }
    // what happened to query i: which servers were asked, what was replied
    std::string outcome(const char *n, int type, int i) {
        std::string s; for (auto &l : log) s += l + " "; log.clear(); int replies = 0; std::vector<Sent> nc; drain(nullptr, &nc);
        for (auto &r : nc) { Msg m; REQUIRE(decode(r.data, m), "malformed reply"); REQUIRE(r.dst == CLI && m.id == i && m.qd.size() == 1 && lower(m.qd[0].name) == n && m.qd[0].type == type, "a reply to something else: %s", str(m).c_str()); REQUIRE(++replies == 1, "two replies"); s += "rcode" + std::to_string(m.rcode()); for (auto &rr : m.an) { char b[64] = ""; if (rr.type == A && rr.rdata.size() == 4) snprintf(b, sizeof b, "%d.%d.%d.%d", (uint8_t)rr.rdata[0], (uint8_t)rr.rdata[1], (uint8_t)rr.rdata[2], (uint8_t)rr.rdata[3]); s += " " + rr.name + "/" + std::to_string(rr.type) + (b[0] ? b : ":" + hex(rr.rdata)); } }
        if (!replies) s += "none"; count_eval(1); return s;
    }
    std::string ask(const char *n, int type) { int i = ++id; send(n, type, i); run(); settle(1000); return outcome(n, type, i); }
};
struct Kind { const char *what, *name; int type; Src old, neu; const char *eo, *en; const char *extra; };
#define NO ""
static const Kind KINDS[] = {
    {"address changed", "h.org", A, {"1.0.0.1 h.org\n", NO, NO, NO}, {"2.0.0.2 h.org\n", NO, NO, NO}, "rcode0 h.org/11.0.0.1", "rcode0 h.org/12.0.0.2", ""},
    {"address gone", "h.org", A, {"1.0.0.1 h.org\n", NO, NO, NO}, {"\n", NO, NO, NO}, "rcode0 h.org/11.0.0.1", "U1 rcode0 h.org/11.1.1.1", ""},
    {"address new", "h.org", A, {"\n", NO, NO, NO}, {"2.0.0.2 h.org\n", NO, NO, NO}, "U1 rcode0 h.org/11.1.1.1", "rcode0 h.org/12.0.0.2", ""},
    {"alias gone", "h.org", A, {"t.org h.org\n", NO, NO, NO}, {"\n", NO, NO, NO}, nullptr, "U1 rcode0 h.org/11.1.1.1", ""},
    {"alias to address", "h.org", A, {"t.org h.org\n", NO, NO, NO}, {"2.0.0.2 h.org\n", NO, NO, NO}, nullptr, "rcode0 h.org/12.0.0.2", ""},
    {"address to alias", "h.org", A, {"1.0.0.1 h.org\n", NO, NO, NO}, {"t.org h.org\n", NO, NO, NO}, "rcode0 h.org/11.0.0.1", nullptr, ""},
    {"alias retargeted", "h.org", A, {"t.org h.org\n", NO, NO, NO}, {"tt.org h.org\n", NO, NO, NO}, nullptr, nullptr, ""},
    {"exclusion new", "h.org", A, {"1.0.0.1 h.org\n", NO, NO, NO}, {"1.0.0.1 h.org\n@@ h.org\n", NO, NO, NO}, "rcode0 h.org/11.0.0.1", "U1 rcode0 h.org/11.1.1.1", ""},
    {"exclusion gone", "h.org", A, {"@@ h.org\n", NO, NO, NO}, {"1.0.0.1 h.org\n", NO, NO, NO}, "U1 rcode0 h.org/11.1.1.1", "rcode0 h.org/11.0.0.1", ""},
    {"families swapped 1", "h.org", AAAA, {"fe80::1 h.org\n", NO, NO, NO}, {"1.0.0.1 h.org\n", NO, NO, NO}, nullptr, "rcode0", "BlockIpv6WhenIpv4Exists true\n"},
    {"families swapped 2", "h.org", AAAA, {"1.0.0.1 h.org\n", NO, NO, NO}, {"fe80::1 h.org\n", NO, NO, NO}, "rcode0", nullptr, "BlockIpv6WhenIpv4Exists true\n"},
    {"disabled stays", "d.org", A, {"\n", "d.org\n", NO, NO}, {"\n", "x.net\nd.org\n", NO, NO}, "rcode0", "rcode0", ""},
    {"disabled gone", "d.org", A, {"\n", "d.org\n", NO, NO}, {"\n", "x.net\n", NO, NO}, "rcode0", "U1 rcode0 d.org/11.1.1.1", ""},
    {"disabled new", "d.org", A, {"\n", NO, NO, NO}, {"\n", "d.org\n", NO, NO}, "U1 rcode0 d.org/11.1.1.1", "rcode0", ""},
    {"rule changed", "sub.org", A, {"\n", NO, "5.5.5.5 6.6.6.6\n", NO}, {"\n", NO, "5.5.5.5 7.7.7.7\n", NO}, "U1 rcode0 sub.org/16.6.6.6", "U1 rcode0 sub.org/17.7.7.7", ""},
    {"rule gone", "sub.org", A, {"\n", NO, "5.5.5.0/24 6.6.6.6\n", NO}, {"\n", NO, NO, NO}, "U1 rcode0 sub.org/16.6.6.6", "U1 rcode0 sub.org/15.5.5.5", ""},
    {"rule new", "sub.org", A, {"\n", NO, NO, NO}, {"\n", NO, "5.5.5.5 7.7.7.7\n", NO}, "U1 rcode0 sub.org/15.5.5.5", "U1 rcode0 sub.org/17.7.7.7", ""},
    {"group changed", "g.org", A, {"\n", NO, NO, "PROTOCOL UDP\nSERVER 2.2.2.2\nPARALLEL OFF\ng.org\n"}, {"\n", NO, NO, "PROTOCOL UDP\nSERVER 3.3.3.3\nPARALLEL ON\ng.org\n"}, "U2 rcode0 g.org/12.2.2.2", "U3 rcode0 g.org/13.3.3.3", ""},
    {"group gone", "g.org", A, {"\n", NO, NO, "PROTOCOL UDP\nSERVER 2.2.2.2\nPARALLEL ON\ng.org\n"}, {"\n", NO, NO, "PROTOCOL UDP\nSERVER 2.2.2.2\nPARALLEL ON\nx.org\n"}, "U2 rcode0 g.org/12.2.2.2", "U1 rcode0 g.org/11.1.1.1", ""},
    {"group to TCP", "g.org", A, {"\n", NO, NO, "PROTOCOL UDP\nSERVER 2.2.2.2\nPARALLEL OFF\ng.org\n"}, {"\n", NO, NO, "PROTOCOL TCP\nSERVER 3.3.3.3\nPARALLEL OFF\nPROXY NO\ng.org\n"}, "U2 rcode0 g.org/12.2.2.2", "T3 rcode0 g.org/13.3.3.3", ""},
    {"group to UDP", "g.org", A, {"\n", NO, NO, "PROTOCOL TCP\nSERVER 2.2.2.2,4.4.4.4\nPARALLEL OFF\ng.org\n"}, {"\n", NO, NO, "PROTOCOL UDP\nSERVER 3.3.3.3\ng.org\n"}, nullptr, "U3 rcode0 g.org/13.3.3.3", ""},
};
static const int NK = sizeof KINDS / sizeof *KINDS;
// one query (of every kind) while one table changes, at every point of the reload
static void race(int budget, int rounds) {
    int k = choose(NK, "kind"); const Kind &K = KINDS[k]; R15 w; w.conf_extra = K.extra; note("%s", K.what);
    w.start(K.old); advance(1000); std::string o = w.ask(K.name, K.type); if (K.eo) REQUIRE(o == K.eo, "before the reload: %s instead of %s", o.c_str(), K.eo);
    std::string n = o; const Src *from = &K.old, *to = &K.neu; int64_t next = 100000;
    for (int r = 0; r < rounds; r++) {
        advance(next - 1 - now_ms); REQUIRE(now_ms == next - 1, "clock"); R15::put(*to); int at = r + 1 < rounds ? r + 1 : choose(5, "query-at"), i = ++w.id; int seen = 0;
        if (at == 0) spawn([&w, &K, i] { sim_usleep(1000); w.send(K.name, K.type, i); }, "client");
        else on_file = [&, at, i](const char *op, const char *p) { static const char *F[] = {"src.txt", "dis.txt", "sub.txt", "grp.txt"}; if (!strcmp(op, "read") && strstr(p, F[at - 1]) && !seen) { seen = 1; w.send(K.name, K.type, i); } return 0; };
        sched_explore = true; delay_budget = r + 1 < rounds ? 0 : budget; acc_points = ACC; lock_points = 1; advance(2); sched_explore = false; acc_points = 0; on_file = nullptr; w.settle(1500); std::string d = w.outcome(K.name, K.type, i), b = w.ask(K.name, K.type);
        if (r == 0) { n = b; if (K.en) REQUIRE(b == K.en, "%s: after the reload: %s instead of %s", K.what, b.c_str(), K.en); REQUIRE(K.eo == K.en || o != b, "harness: %s shows no difference", o.c_str()); }
        else REQUIRE(b == (r & 1 ? o : n), "%s: after reload %d: %s", K.what, r + 1, b.c_str());
        REQUIRE(d == o || d == n, "%s: a query during the reload is treated neither by the old nor by the new content: '%s' (old '%s', new '%s')", K.what, d.c_str(), o.c_str(), n.c_str());
        note("outcome %s", d == o ? "old" : "new"); std::swap(from, to); next += 100000; while (next <= now_ms + 1) next += 100000;
        advance(12000); b = w.ask(K.name, K.type); REQUIRE(b == (r & 1 ? o : n), "%s: later: %s", K.what, b.c_str());
        if (r + 1 < rounds) { // when does the next reload happen? the task starts 100 s after the end of the last
            next = 0; int64_t guess = 100000 * (r + 2); next = guess; }
    }
    exec_done(std::to_string(k) + n);
}
// queries pending in the groups when these are replaced (or fail to be) still get their answers
static void pending() {
    R15 w; static const char *G[] = {"PROTOCOL UDP\nSERVER 2.2.2.2\nPARALLEL OFF\ng.org\n", "PROTOCOL UDP\nSERVER 2.2.2.2\nPARALLEL ON\ng.org\n", "PROTOCOL TCP\nSERVER 2.2.2.2\nPARALLEL OFF\ng.org\n", "PROTOCOL TCP\nSERVER 2.2.2.2\nPARALLEL ON\ng.org\n"};
    static const char *N[] = {"PROTOCOL UDP\nSERVER 3.3.3.3\ng.org\n", "PROTOCOL TCP\nSERVER 3.3.3.3\ng.org\n", "PROTOCOL NOPE\nSERVER 3.3.3.3\ng.org\n", "SERVER 3.3.3.3\ng.org\n"};
    int g = choose(4, "group"), nk = choose(4, "new"), cnt = 1 + choose(3, "count"), before = choose(3, "before"), after = choose(4, "after"); bool tcp = g >= 2; Src a = {"\n", NO, NO, G[g]}, b = {"\n", NO, NO, N[nk]};
    w.start(a); advance(1000); int64_t t0 = 100000 - (before == 0 ? 1 : before == 1 ? 600 : 1300); advance(t0 - now_ms); w.hold = true; R15::put(b);
    for (int i = 0; i < cnt; i++) { w.send(("q" + std::to_string(i) + ".g.org").c_str(), A, 50 + i); run(); }
    int64_t ans = 100000 + (after == 0 ? 0 : after == 1 ? 1 : after == 2 ? 200 : 600); if (tcp) ans += 400;
    while (now_ms < ans) { w.tcp_serve(); int64_t d = ans - now_ms; advance(d > 100 ? 100 : d); } w.tcp_serve();
    size_t h = w.held.size() + w.heldt.size(); if (!tcp) REQUIRE(h == (size_t)cnt, "%zu of %d queries forwarded", h, cnt); int got = 0;
    for (auto &x : w.held) { udp_reply(x, w.reply_for(x.dst, x.data)); run(); } for (auto &x : w.heldt) { tcp_push(x.first, x.second); run(); }
    w.held.clear(); w.heldt.clear(); w.hold = false; std::vector<Sent> nc; w.settle(2500); w.drain(nullptr, &nc); std::set<int> ids; for (auto &r : nc) { Msg m; REQUIRE(decode(r.data, m) && m.an.size() == 1, "malformed reply"); ids.insert(m.id); got++; }
    count_eval(cnt); REQUIRE(got == cnt && (int)ids.size() == cnt, "%d queries were pending when the groups were %s; only %d got the answer the server gave", cnt, nk < 2 ? "replaced" : "kept (new ones unusable)", got);
    w.log.clear(); std::string o = w.ask("g.org", A), e = nk == 0 ? "U3 rcode0 g.org/13.3.3.3" : nk == 1 ? "T3 rcode0 g.org/13.3.3.3" : tcp ? "T2 rcode0 g.org/12.2.2.2" : "U2 rcode0 g.org/12.2.2.2"; REQUIRE(o == e, "afterwards: %s instead of %s", o.c_str(), e.c_str());
    advance(30000); o = w.ask("g.org", A); REQUIRE(o == e, "30 s later: %s", o.c_str()); exec_done(e);
}
// sequences of good and unusable sources: what is in force is the last usable content; nothing is leaked
static void sources(int rounds) {
    R15 w; w.conf_extra = ""; static const char *HS[] = {"1.0.0.1 h.org\n", "2.0.0.2 h.org\n", nullptr}; static const char *GS[] = {"PROTOCOL UDP\nSERVER 2.2.2.2\nPARALLEL ON\ng.org\n", "PROTOCOL TCP\nSERVER 3.3.3.3,4.4.4.4\nPARALLEL ON\nPROXY NO\ng.org\n", "PROTOCOL *\nSERVER 3.3.3.3\nPARALLEL OFF\ng.org\n", "PROTOCOL TCP\nSERVER 3.3.3.3\nPARALLEL OFF\nPROXY 4.4.4.4:1080\ng.org\n", "PROTOCOL NOPE\ng.org\n", "g.org\n", "PROTOCOL *\nPARALLEL ON\ng.org\n", "PROTOCOL TCP\nSERVER nonsense\ng.org\n", "PROTOCOL UDP\nSERVER nonsense\nPARALLEL OFF\ng.org\n"};
    auto works = [](int g) { return g < 4; }; std::string h = "rcode0 h.org/11.0.0.1"; int g = 0; Src s = {HS[0], NO, NO, GS[0]}; w.start(s); advance(2000); int thr0 = 0, fd0 = 0; int64_t next = 100000; std::string obs;
    for (int r = 0; r < rounds; r++) {
        int hk = choose(3, "hosts"), gk = choose(9, "groups"); R15::put({hk == 2 ? "" : HS[hk], NO, NO, GS[gk]}); if (hk == 2) remove_file("src.txt"); advance(101500);
        if (hk != 2) { h = hk ? "rcode0 h.org/12.0.0.2" : "rcode0 h.org/11.0.0.1"; if (works(gk)) g = gk; } // an unusable source of hosts leaves everything as it is
        std::string o = w.ask("h.org", A); REQUIRE(o == h, "hosts after reload %d: %s instead of %s", r + 1, o.c_str(), h.c_str()); obs += std::to_string(hk) + std::to_string(gk);
        if (g != 3 && g != 2) { o = w.ask("g.org", A); REQUIRE(g == 0 ? o == "U2 rcode0 g.org/12.2.2.2" : o.find("T3") != o.npos && o.find("rcode0 g.org") != o.npos && o.find("U1") == o.npos, "groups after reload %d: %s instead of those of group %d", r + 1, o.c_str(), g); }
        o = w.ask("other.org", A); REQUIRE(o == "U1 rcode0 other.org/11.1.1.1", "service after reload %d: %s", r + 1, o.c_str());
    }
    exec_done(obs);
}
// a download which fails leaves the old content in force until it succeeds
static void downloads() {
    R15 w; private_files = true; write_file(".dnsforwarder/x", ""); bool two = choose(2, "two"), had = choose(2, "had"); int fails = choose(4, "fails"), mode = choose(4, "mode"); std::string cont = "1.0.0.1 h.org\n"; int left = 0, calls = 0;
    on_http = [&](const char *u, bytes *b) { calls++; if (!strcmp(u, "http://b/b")) { *b = "3.0.0.3 b.org\n"; return 0; } if (left > 0) { left--; *b = mode == 0 ? "" : mode == 1 ? "9.9.9.9 h.org\n9.9.9.9 x.o" : "<html>\n9.9.9.9 h.org\n</html>\n"; return mode == 0 ? 6 : mode == 1 ? 18 : mode == 2 ? 404 : 500; } *b = cont; return 0; };
    if (had) write_file("h.txt", "4.0.0.4 h.org\n"); else left = fails; w.upstreams = {"1.1.1.1:53"}; on_sendto = [&](const Sent &x) { if (w.is_up(x.dst)) { w.log.push_back("U" + std::string(1, x.dst[0])); udp_reply(x, w.reply_for(x.dst, x.data)); } return 0; };
    if (had) left = fails; boot("LogOn true\nUseCache false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\nHosts http://a/a" + std::string(two ? "\nHosts http://b/b" : "") + "\nHostsDownloadPath " + path("h.txt") + "\nModulesUpdateInterval 100\nHostsRetryInterval 5\n");
    const std::string o0 = had ? "rcode0 h.org/14.0.0.4" : "U1 rcode0 h.org/11.1.1.1"; std::string o;
    advance(99500); o = w.ask("h.org", A); REQUIRE(o == o0 || (fails == 0 && false) || o == "rcode0 h.org/11.0.0.1", "before: %s", o.c_str());
    // first attempt(s)
    int64_t t = now_ms; bool now_ok = false; for (int k = 0; k < 60 && !now_ok; k++) { o = w.ask("h.org", A); now_ok = o == "rcode0 h.org/11.0.0.1"; if (!now_ok) { REQUIRE(o == o0, "while the download fails: %s instead of %s", o.c_str(), o0.c_str()); advance(1000); } } (void)t;
    REQUIRE(now_ok, "the download succeeded after %d failures, but its content is not in force: %s", fails, o.c_str()); if (two) { o = w.ask("b.org", A); REQUIRE(o == "rcode0 b.org/13.0.0.3", "second source: %s", o.c_str()); }
    cont = "2.0.0.2 h.org\n"; left = fails; now_ok = false; for (int k = 0; k < 100 && !now_ok; k++) { o = w.ask("h.org", A); now_ok = o == "rcode0 h.org/12.0.0.2"; if (!now_ok) { REQUIRE(o == "rcode0 h.org/11.0.0.1", "while the second download fails: %s", o.c_str()); advance(1000); } }
    REQUIRE(now_ok, "second download not in force"); exec_done(std::to_string(calls)); }
// the hosts script: it runs once after every complete download and before anything is loaded; what it leaves in the files is what counts
static void script() {
    R15 w; private_files = true; write_file(".dnsforwarder/x", ""); int edit = choose(6, "edit"), res = choose(4, "result"), dur = choose(3, "duration") * 2500, two = choose(2, "sources"), had = choose(2, "had"), fails = choose(3, "failures"); int runs = 0, calls = 0, left = fails, ver = 1; bool ours = false, running = false; const char *why = nullptr;
    auto src = [&] { return std::string(ver == 1 ? "1" : "2") + ".0.0.1 h.org\n"; };
    on_http = [&](const char *u, bytes *b) { if (running) why = "a download while the script runs"; if (!strcmp(u, "http://b/b")) { *b = "3.0.0.3 b.org\n"; return 0; } calls++; if (left > 0) { left--; *b = ""; return 6; } *b = src(); return 0; };
    on_system = [&](const char *c) { runs++; running = true; ours = std::string(c) == path("script.sh"); if (!ours) why = "another command is run"; std::string f = read_file("h.txt"); if (f.find(src()) == f.npos || (two && f.find("3.0.0.3 b.org") == f.npos)) why = "the script runs before the download is complete"; if (left) why = "the script runs although the download failed"; if (dur) sim_usleep(dur * 1000);
        char v = ver == 1 ? '7' : '8'; std::string ip = std::string(1, v) + ".0.0.9"; switch (edit) { case 1: write_file("h.txt", ip + " h.org\n"); break; case 2: write_file("h.txt", f + ip + " late.org\n"); break; case 3: write_file("dis.txt", ver == 1 ? "d.org\n" : "dd.org\n"); break; case 4: write_file("sub.txt", "5.5.5.5 " + ip + "\n"); break; case 5: write_file("grp.txt", std::string("PROTOCOL UDP\nSERVER ") + (ver == 1 ? "2.2.2.2" : "3.3.3.3") + "\nPARALLEL OFF\ng.org\n"); } running = false; return res == 0 ? 0 : res == 1 ? 1 << 8 : res == 2 ? -1 : 9; };
    w.upstreams = {"1.1.1.1:53", "2.2.2.2:53", "3.3.3.3:53"}; on_sendto = [&](const Sent &x) { if (w.is_up(x.dst)) { w.log.push_back("U" + std::string(1, x.dst[0])); udp_reply(x, w.reply_for(x.dst, x.data)); } return 0; };
    R15::put({NO, NO, NO, NO}); remove_file("src.txt"); if (had) write_file("h.txt", "4.0.0.4 h.org\n");
    boot("LogOn true\nUseCache false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\nHosts http://a/a\n" + std::string(two ? "Hosts http://b/b\n" : "") + "HostsDownloadPath " + path("h.txt") + "\nHostsScript " + path("script.sh") + "\nModulesUpdateInterval 100\nHostsRetryInterval 5\nDisabledList " + path("dis.txt") + "\nReloadDisabledList true\nIPSubstitutingFile " + path("sub.txt") + "\nReloadIPSubstituting true\nGroupFile " + path("grp.txt") + "\nReloadGroupFile true\n");
    struct Ask { const char *n; std::string v[3]; }; auto A0 = [&](const char *n, const char *ip) { return "rcode0 " + std::string(n) + "/1" + ip; }; auto U = [&](const char *n, char s, const char *ip) { return std::string("U") + s + " rcode0 " + n + "/1" + ip; };
    std::string h0 = had ? A0("h.org", "4.0.0.4") : U("h.org", '1', "1.1.1.1");
    std::vector<Ask> Q = {{"h.org", {h0, A0("h.org", edit == 1 ? "7.0.0.9" : "1.0.0.1"), A0("h.org", edit == 1 ? "8.0.0.9" : "2.0.0.1")}}, {"late.org", {U("late.org", '1', "1.1.1.1"), edit == 2 ? A0("late.org", "7.0.0.9") : U("late.org", '1', "1.1.1.1"), edit == 2 ? A0("late.org", "8.0.0.9") : U("late.org", '1', "1.1.1.1")}}, {"d.org", {U("d.org", '1', "1.1.1.1"), edit == 3 ? "rcode0" : U("d.org", '1', "1.1.1.1"), U("d.org", '1', "1.1.1.1")}}, {"sub.org", {U("sub.org", '1', "5.5.5.5"), U("sub.org", '1', edit == 4 ? "7.0.0.9" : "5.5.5.5"), U("sub.org", '1', edit == 4 ? "8.0.0.9" : "5.5.5.5")}}, {"g.org", {U("g.org", '1', "1.1.1.1"), U("g.org", edit == 5 ? '2' : '1', edit == 5 ? "2.2.2.2" : "1.1.1.1"), U("g.org", edit == 5 ? '3' : '1', edit == 5 ? "3.3.3.3" : "1.1.1.1")}}};
    int r0 = 0; auto stage = [&](int round) { return runs == r0 || running ? round - 1 : round; };
    auto all = [&](int round) { for (auto &q : Q) { int v = stage(round); int i = ++w.id; w.send(q.n, A, i); run(); advance(20); std::string o = w.outcome(q.n, A, i); count_states(1); REQUIRE(o == q.v[v] || o == q.v[stage(round)], "%s in stage %d (script run %d times): %s instead of %s", q.n, v, runs, o.c_str(), q.v[v].c_str()); } };
    // rounds: the tables change when the script has ended, and not before
    for (int round = 1; round <= 2; round++) { r0 = round == 1 ? 0 : runs; int64_t end = now_ms + 125000; bool in_force = false; while (now_ms < end) { int v = stage(round); all(round); if (v == round) in_force = true; advance(now_ms % 100000 < 20000 || now_ms < 3000 ? 400 : 3000); if (why) fail("%s", why); if (in_force && runs == r0 + 1 && now_ms > end - 100000 + 40000) break; }
        REQUIRE(runs == r0 + 1 && in_force, "round %d: the script ran %d times", round, runs - r0); ver = 2; left = fails; }
    exec_done(std::to_string(edit) + std::to_string(res) + std::to_string(calls)); }
void check_main()
{
    if (ACC) { explore("access", [] { race(g_thorough ? 2 : 1, 1); }); return; }
    explore("race", [] { race(g_thorough ? 2 : 1, 1); });
    explore("twice", [] { race(1, 2); });
    explore("pending", pending);
    explore("sources", [] { sources(g_thorough ? 3 : 2); });
    explore("downloads", downloads);
    explore("script", script);
}
