// P25: clients, upstream answers, timeouts, cache expiry, statistics, address checks and reloads all at the same instant, under every schedule within the bounds.
#include "scn.h"
#include <algorithm>
using namespace dns;
extern "C" int sim_usleep(unsigned);
#ifndef ACC
#define ACC 0
#endif
static bytes frame(const bytes &b) { bytes f; p16(f, b.size()); return f + b; }
static const Addr IF = "127.0.0.1:53", CLI = "9.1.1.1:1000";
enum Act { NEW, CACHED, EXPIRING, ALIAS, TCPQ, ANSWER, TANSWER, SWEPT, GONE, HOST, GROUP, AGAIN, TCLOSE, TGROUP, FILL, TCPC, DISABLED, SUBST, NACT };
static const char *const ACTS[] = {"new query", "cached query", "query for an expiring record", "alias query", "query for a TCP group", "answer arrives", "TCP answer arrives", "answer to a query being given up", "TCP client leaves while its answer arrives", "query for a hosts entry", "query for a group of the group file", "query repeated", "TCP upstream closes", "query over TCP for a group of the group file", "answer fills the cache", "TCP client connects and asks", "disabled name", "answer with a substituted address"};
struct W25 : World {
    int T; std::vector<Sent> held; std::vector<std::pair<Conn *, bytes>> theld; bool hold = false; std::map<Conn *, bytes> tb; std::map<std::string, std::vector<std::string>> got; int id = 0; std::map<Conn *, bytes> cb; std::vector<std::pair<std::string, std::string>> want; bool second = false; std::vector<Conn *> mine;
    static bytes ans(const bytes &qb) { Msg q; if (!decode(qb, q) || q.qd.size() != 1) fail("malformed upstream query %s", hex(qb).c_str()); const std::string &n = q.qd[0].name; RR r = rrA(n, n.substr(0, 3) == "sub" ? "5.5.5.5" : "1.2.3.4"); r.ttl = n.find("exp") != n.npos ? 30 : 600; std::vector<RR> v = {r}; if (n.substr(0, 4) == "fill") for (int i = 0; i < 25; i++) v.push_back(rrTXT(n, std::string(100, 'a' + i))); return encode(answer(q, v)); }
    void tables(int v) { write_file("src.txt", (v ? "2.0.0.2 h.org\n" : "1.0.0.1 h.org\n") + std::string("t.u.org a.u.org\nt2.u.org a2.u.org\n")); write_file("dis.txt", v ? "d.org\nx.net\n" : "d.org\n"); write_file("sub.txt", v ? "5.5.5.5 7.7.7.7\n" : "5.5.5.5 6.6.6.6\n"); write_file("grp.txt", v ? "PROTOCOL UDP\nSERVER 2.2.2.3\nPARALLEL ON\ng.org\nPROTOCOL TCP\nSERVER 8.8.8.9\nPARALLEL ON\nPROXY NO\ntg.org\n" : "PROTOCOL UDP\nSERVER 2.2.2.2\nPARALLEL OFF\ng.org\nPROTOCOL TCP\nSERVER 8.8.8.8\nPARALLEL OFF\nPROXY NO\ntg.org\n"); }
    void start(int t) {
        T = t; private_files = true; write_file(".dnsforwarder/x", ""); write_file("tpl.html", "<html><!-- INSERT HERE --></html>"); tables(0); upstreams = {"1.1.1.1:53", "2.2.2.2:53", "2.2.2.3:53"}; std::string S = std::to_string(t);
        on_sendto = [this](const Sent &x) { if (!is_up(x.dst)) return 0; if (hold) held.push_back(x); else udp_reply(x, ans(x.data)); return 0; }; on_connect = [](const Addr &, int64_t *d) { *d = 0; return (int)ACCEPT; };
        boot("LogOn true\nUseCache true\nMemoryCache true\nCacheSize 102400\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nEnableUDPtoTCP true\nEnableTCPtoUDP true\nUDPGroup 1.1.1.1 * off\nTCPGroup 4.4.4.4 t.org off no\nGoodIPList l " + S + "000\nGoodIPListAddIP l 9.9.9.1:80\nGoodIPListAddIP l 9.9.9.2:80\nDisabledList " + path("dis.txt") + "\nReloadDisabledList true\nIPSubstitutingFile " + path("sub.txt") + "\nReloadIPSubstituting true\nHosts file://" + path("src.txt") + "\nHostsDownloadPath " + path("h.txt") + "\nModulesUpdateInterval " + S + "\nGroupFile " + path("grp.txt") + "\nReloadGroupFile true\nDomainStatistic true\nDomainStatisticTempletFile " + path("tpl.html") + "\nStatisticUpdateInterval " + S + "\n");
    }
    void serve() { for (size_t k = 0; k < conns.size(); k++) { Conn *c = conns[k]; if (c->prog_closed && !c->tx.size()) continue; if (c->outgoing) { if (c->prog_closed || c->peer[0] == '9') continue; bytes &b = tb[c]; b += tcp_take(c); while (b.size() >= 2 && b.size() >= 2u + g16(b, 0)) { bytes q = b.substr(2, g16(b, 0)); b.erase(0, 2 + q.size()); if (hold) theld.push_back({c, frame(ans(q))}); else tcp_push(c, frame(ans(q))); } } else { bytes &b = cb[c]; b += tcp_take(c); while (b.size() >= 2 && b.size() >= 2u + g16(b, 0)) { reply(b.substr(2, g16(b, 0))); b.erase(0, 2 + g16(b, 0)); } } } }
    void reply(const bytes &r0) { bytes r = r0; Msg m; if (r.size() > 12 && r[2] & 2) { size_t e = r.find(bytes("\1\2\3\4", 4)); REQUIRE(e != r.npos, "truncated reply without its first record"); r = r.substr(0, e + 4); r[7] = 1; } REQUIRE(decode(r, m) && m.qd.size() == 1, "malformed reply %s", hex(r).c_str()); std::string s = m.rcode() ? "rcode" + std::to_string(m.rcode()) : ""; for (auto &rr : m.an) if (rr.type == A && rr.rdata.size() == 4) { char b[64]; snprintf(b, sizeof b, "%d.%d.%d.%d", (uint8_t)rr.rdata[0], (uint8_t)rr.rdata[1], (uint8_t)rr.rdata[2], (uint8_t)rr.rdata[3]); s += b; } got[m.qd[0].name + "#" + std::to_string(m.id)].push_back(s); }
    void settle(int ms) { for (int t = 0; t <= ms; t += 100) { serve(); advance(100); } serve(); run(); for (; seen < out.size(); seen++) if (!is_up(out[seen].dst)) reply(out[seen].data); }
    void ask(const std::string &n, const std::string &expect) { int i = ++id; udp_in(CLI, IF, encode(query(i, n, A))); want.push_back({n + "#" + std::to_string(i), expect}); }
    void check(const char *when, const std::set<std::string> &optional = {}) { for (auto &w : want) { auto &g = got[w.first]; count_eval(1); if (optional.count(w.first) && g.empty()) continue; REQUIRE(g.size() == 1, "%s: %zu replies to %s", when, g.size(), w.first.c_str()); REQUIRE(("|" + w.second + "|").find("|" + g[0] + "|") != std::string::npos, "%s: %s got the reply '%s' instead of '%s'", when, w.first.c_str(), g[0].c_str(), w.second.c_str()); } for (auto &g : got) if (!g.second.empty()) { bool k = false; for (auto &w : want) k |= w.first == g.first; REQUIRE(k, "%s: a reply to something not asked: %s", when, g.first.c_str()); } want.clear(); got.clear(); }
    void probe(const char *when, int v) { for (const char *n : {"p.u.org", "p.t.org", "cached.u.org", "p.g.org", "p.tg.org", "a.u.org"}) ask(n, "1.2.3.4"); ask("h.org", v ? "2.0.0.2" : "1.0.0.1"); ask("d.org", ""); ask("sub.u.org", "7.7.7.7|6.6.6.6"); settle(2500); check(when); }
};
static void instant(const std::vector<int> &acts, int T, int budget, int points) {
    W25 w; std::string h; for (int a : acts) { note("%s", ACTS[a]); h += std::string(h.empty() ? "" : " + ") + ACTS[a]; } w.start(T); std::set<std::string> opt; std::set<int> has(acts.begin(), acts.end());
    // records in the cache
    advance(1000); w.ask("cached.u.org", "1.2.3.4"); w.ask("exp1.u.org", "1.2.3.4"); w.ask("exp2.u.org", "1.2.3.4"); w.ask("warm.t.org", "1.2.3.4"); w.settle(1500); w.check("before"); 
    if (has.count(FILL)) { for (int i = 0; i < 24; i++) { w.ask("fill" + std::to_string(i) + ".u.org", "1.2.3.4"); w.settle(0); } w.settle(500); w.check("before"); }
    advance(T * 1000 - 4000 - now_ms); w.hold = true; Conn *leaver = nullptr; int again = 0; 
    if (has.count(SWEPT)) { w.ask("swept.u.org", "1.2.3.4"); opt.insert(w.want.back().first); run(); }
    if (has.count(TCLOSE)) { w.hold = false; w.ask("warm2.t.org", "1.2.3.4"); w.settle(1000); w.hold = true; }
    advance(T * 1000 - 1000 - now_ms);
    if (has.count(ANSWER)) { w.ask("late.u.org", "1.2.3.4"); run(); } if (has.count(FILL)) { w.ask("fillx.u.org", "1.2.3.4"); run(); }
    if (has.count(TANSWER)) { w.ask("late.t.org", "1.2.3.4"); for (int i = 0; i < 7; i++) { w.serve(); advance(100); } w.serve(); }
    if (has.count(GONE)) { leaver = tcp_connect("9.1.1.2:77", IF); int i = ++w.id; tcp_push(leaver, frame(encode(query(i, "gone.u.org", A)))); w.want.push_back({"gone.u.org#" + std::to_string(i), "1.2.3.4"}); opt.insert(w.want.back().first); run(); }
    if (has.count(AGAIN)) { w.ask("again.u.org", "1.2.3.4"); again = w.id; run(); }
    advance(T * 1000 - 1 - now_ms); w.tables(1); std::vector<Sent> held; held.swap(w.held); auto theld = w.theld; w.theld.clear(); w.hold = false;
    auto give = [&](const std::string &n) { for (auto &s : held) { Msg m; if (decode(s.data, m) && m.qd[0].name == n) udp_reply(s, W25::ans(s.data)); } };
    int nth = 0; for (int a : acts) { std::string k = std::to_string(nth++); std::function<void()> f;
        switch (a) {
        case NEW: f = [&w, k] { w.ask("new" + k + ".u.org", "1.2.3.4"); }; break; case CACHED: f = [&w] { w.ask("cached.u.org", "1.2.3.4"); }; break; case EXPIRING: f = [&w] { w.ask("exp1.u.org", "1.2.3.4"); }; break; case ALIAS: f = [&w, k] { w.ask(k == "0" ? "a.u.org" : "a2.u.org", "1.2.3.4"); }; break; case TCPQ: f = [&w, k] { w.ask("q" + k + ".t.org", "1.2.3.4"); }; break;
        case ANSWER: f = [&] { give("late.u.org"); }; break; case FILL: f = [&] { give("fillx.u.org"); }; break; case SWEPT: f = [&] { give("swept.u.org"); }; break; case TANSWER: f = [&] { for (auto &x : theld) tcp_push(x.first, x.second); }; break;
        case GONE: f = [&] { leaver->rst = true; give("gone.u.org"); }; break; case HOST: f = [&w] { w.ask("h.org", "1.0.0.1|2.0.0.2"); }; break; case GROUP: f = [&w, k] { w.ask("q" + k + ".g.org", "1.2.3.4"); }; break; case TGROUP: f = [&w, k] { w.ask("q" + k + ".tg.org", "1.2.3.4"); }; break; case DISABLED: f = [&w] { w.ask("d.org", ""); }; break; case SUBST: f = [&w, k] { w.ask("sub" + k + ".u.org", "6.6.6.6|7.7.7.7"); }; break;
        case AGAIN: f = [&] { udp_in(CLI, IF, encode(query(again, "again.u.org", A))); give("again.u.org"); }; break;
        case TCLOSE: f = [&w, k] { for (auto c : conns) if (c->outgoing && !c->prog_closed && c->peer[0] == '4') tcp_eof(c); w.ask("r" + k + ".t.org", "1.2.3.4"); }; break;
        case TCPC: f = [&w, k] { Conn *c = tcp_connect("9.1.1." + std::to_string(3 + atoi(k.c_str())) + ":78", IF); int i = ++w.id; tcp_push(c, frame(encode(query(i, "c" + k + ".u.org", A)))); w.want.push_back({"c" + k + ".u.org#" + std::to_string(i), "1.2.3.4"}); w.mine.push_back(c); }; break;
        }
        spawn([f] { sim_usleep(1000); f(); }, "event"); }
    sched_explore = true; delay_budget = budget; lock_points = points; acc_points = ACC; advance(2); sched_explore = false; acc_points = 0; 
    w.settle(2500);
    // a repeated query may be answered twice
    for (auto &g : w.got) while (g.first.compare(0, 5, "again") == 0 && g.second.size() > 1 && g.second.size() <= 1u + std::count(acts.begin(), acts.end(), AGAIN) && g.second.back() == g.second[0]) g.second.pop_back();
    w.check("at that instant", opt); for (auto c : w.mine) tcp_eof(c); w.probe("afterwards", 1); w.tables(0); advance(T * 2000 + 1000 - now_ms); w.settle(500); w.probe("a reload later", 0);
    exec_done(h);
}
void check_main()
{
    int B = g_thorough ? 2 : 1;
    if (!ACC) {
        explore("all", [&] { static const int S[] = {NEW, CACHED, EXPIRING, ALIAS, ANSWER, TANSWER, HOST, GROUP, TCPC}; static const int S2[] = {SWEPT, GONE, AGAIN, TCLOSE, TGROUP, FILL, DISABLED, SUBST, NEW}; int k = choose(2, "set"); instant(std::vector<int>(k ? S2 : S, (k ? S2 : S) + 9), choose(2, "instant") ? 60 : 59, B, 1); });
        explore("pairs", [&] { int a = choose(NACT, "first"), b = choose(NACT, "second"); if (b < a) exec_done("-"); instant({a, b}, choose(2, "instant") ? 60 : 59, B, 1); });
    } else explore("access", [&] { int a = choose(NACT, "event"); std::vector<int> v = {a}; if (g_thorough) { int b = choose(NACT, "second"); if (b < a) exec_done("-"); v.push_back(b); } instant(v, choose(2, "instant") ? 60 : 59, 1, 1); });
}
