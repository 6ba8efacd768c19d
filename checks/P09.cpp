// P09: hosts aliases. Histories, timing windows, alias loops and schedules; every reply is compared with the chain the configuration prescribes.
#include "scn.h"
static std::map<std::string, std::string> AL; static std::map<std::string, std::string> HA; // alias -> target, name -> address
struct AQ { int client; int id; const char *name; int type; bool edns; };
static const char *CLA[] = {"9.9.9.1:1111", "9.9.9.2:2222"};
static const std::vector<AQ> QS = {{0, 1, "al1.org", 1, false}, {1, 1, "al1.org", 1, true}, {0, 1, "al2.org", 1, false}, {0, 1, "al1.org", 28, false}, {1, 1, "ch2.org", 1, true}, {0, 2, "mid.org", 1, true}, {1, 3, "end.org", 1, false}, {1, 1, "adezhs.com", 1, false}, {1, 1, "yjvxth.com", 1, false}, {2, 1, "al1.org", 1, false}, {2, 9, "ch2.org", 28, true}};
static std::string conf(bool cache) {
    AL = {{"al1.org", "t.net"}, {"al2.org", "t2.net"}, {"ch1.org", "t.net"}, {"ch2.org", "ch1.org"}, {"mid.org", "ch2.org"}, {"end.org", "h.net"}, {"adezhs.com", "jeyvuw.com"}, {"yjvxth.com", "ktdpan.com"}}; HA = {{"h.net", "1.2.3.4"}};
    std::string c = std::string("LogOn false\nUseCache ") + (cache ? "true\nMemoryCache true\n" : "false\n") + "UDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nEnableTCPtoUDP true\nUDPGroup 8.8.8.8 * off\n"; for (auto &a : AL) c += "AppendHosts " + a.second + " " + a.first + "\n"; for (auto &a : HA) c += "AppendHosts " + a.second + " " + a.first + "\n"; return c; }
// the answer number idx to question q
static dns::Msg mk(const dns::Msg &q, int idx, int v) {
    const std::string n = q.qd[0].name; std::string x = "x" + std::to_string(idx) + "." + n; std::vector<dns::RR> an; char ip[32]; snprintf(ip, sizeof ip, "10.%d.%d.%d", idx, v, (int)n.size());
    auto adr = [&](const std::string &o, int k) { dns::RR r = q.qd[0].type == 28 ? dns::rrAAAA(o, bytes(11, (char)k) + (char)1 + dns::ip4(ip)) : dns::rrA(o, ip); r.rdata.back() += k; r.ttl = 100 + k; return r; };
    int rc = 0; switch (v) { case 0: an = {adr(n, 0)}; break; case 1: an = {dns::rrName(5, n, x, 77), adr(x, 1), adr(x, 2)}; break; case 2: an = {adr(x, 1), dns::rrName(5, n, x, 77), adr(x, 2)}; break; case 3: rc = 3; break; case 4: rc = 2; break; case 5: break;
    case 6: an = {dns::rrName(5, n, x, 50), dns::rrName(5, x, "y.example.net", 60), adr("y.example.net", 3)}; break; case 7: for (int k = 0; k < 20; k++) an.push_back(adr(n, k)); break; case 8: an = {dns::rrTXT(n, "hi"), adr(n, 4)}; break; case 9: an = {adr(n, 1), adr("other.net", 2)}; break; }
    dns::Msg a = dns::answer(q, an, rc); if (v == 3) { dns::RR s; s.name = "net"; s.type = 6; s.ttl = 60; s.rdata = dns::ename("a.net") + dns::ename("b.net") + bytes(20, '\1'); a.ns.push_back(s); } if (v == 1 && idx & 1) a.ar.push_back(dns::opt()); return a; }
static std::string target(std::string n, std::vector<dns::RR> *cn) { int h = 0; while (AL.count(n) && h++ < 40) { if (cn) cn->push_back(dns::rrName(5, n, AL[n], 60)); n = AL[n]; } return n; }
struct W9 : World {
    Conn *tc[2] = {nullptr, nullptr}; bytes tb; std::vector<dns::Msg> upq; std::vector<int> upp; std::string obs; bool cache = false;
    bool hosts_end(const Pending &p) { return HA.count(target(dns::lower(p.q.qd[0].name), nullptr)); }
    void ask(const AQ &a) { dns::Msg q = dns::query(a.id, a.name, a.type, a.edns); bytes b = dns::encode(q); size_t u0 = up.size(); int uid = pend.size();
        if (a.client == 2) { if (!tc[0]) tc[0] = tcp_connect("9.9.9.3:3333", "127.0.0.1:53"); pend.push_back({uid, "tcp", "tcp", tc[0], q, now_ms}); bytes f; dns::p16(f, b.size()); tcp_push(tc[0], f + b); } else { pend.push_back({uid, CLA[a.client], "127.0.0.1:53", nullptr, q, now_ms}); udp_in(CLA[a.client], "127.0.0.1:53", b); }
        note("query #%d %s", uid, dns::str(q).c_str()); }
    // settle: replies since last call against the answers delivered (index, variant, message)
    struct Del { int up; dns::Msg m; bool strict; };
    dns::Msg expected(const Pending &p, const dns::Msg *ans) { std::vector<dns::RR> cn; std::string t = target(dns::lower(p.q.qd[0].name), &cn); dns::Msg e = dns::answer(p.q, cn, ans ? ans->rcode() : 0); if (ans) { for (auto &r : ans->an) if (r.type == 5 || r.type == 1 || r.type == 28) e.an.push_back(r); } else { dns::RR r = dns::rrA(t, HA[t].c_str(), 60); if (p.q.qd[0].type == 28) { r.type = 28; r.rdata = bytes(10, '\0') + "\xff\xff" + r.rdata; } e.an.push_back(r); } if (p.q.ar.size()) e.ar.push_back(dns::opt()); return e; }
    static bool same(const dns::Msg &a, const dns::Msg &b, bool ttl) { if (!same_q(a, b) || !b.qr() || a.rcode() != b.rcode() || a.an.size() != b.an.size() || b.ns.size() || a.ar.size() != b.ar.size()) return false; for (auto &r : b.ar) if (r.type != 41) return false; for (size_t i = 0; i < a.an.size(); i++) { const dns::RR &x = a.an[i], &y = b.an[i]; if (dns::lower(x.name) != dns::lower(y.name) || x.type != y.type || x.klass != y.klass || x.rdata != y.rdata || (ttl && x.ttl != y.ttl)) return false; } return true; }
    void settle(std::vector<Del> dl, bool hosts_strict = true) {
        std::vector<Sent> nu, nc; drain(&nu, &nc); for (auto &s : nu) { dns::Msg m; REQUIRE(dns::decode(s.data, m) && m.qd.size() == 1 && !m.qr() && m.an.empty(), "malformed query sent upstream: %s", dns::hex(s.data).c_str()); upq.push_back(m);
            bool wanted = false; for (auto &p : pend) { std::string t = target(dns::lower(p.q.qd[0].name), nullptr); if (t == dns::lower(m.qd[0].name) && p.q.qd[0].type == m.qd[0].type && !HA.count(t)) wanted = true; } REQUIRE(wanted, "query for something no client asked for sent upstream: %s", dns::str(m).c_str()); }
        std::vector<std::pair<Sent, Conn *>> rs; for (auto &s : nc) rs.push_back({s, nullptr}); if (tc[0]) { tb += tcp_take(tc[0]); while (tb.size() >= 2) { size_t n = dns::g16(tb, 0); if (tb.size() < 2 + n) break; Sent s; s.dst = "tcp"; s.data = tb.substr(2, n); tb.erase(0, 2 + n); note("tcp reply %s", dns::show(s.data).c_str()); rs.push_back({s, tc[0]}); } REQUIRE(tb.empty(), "stray bytes on the TCP connection"); }
        count_eval(1 + rs.size());
        for (auto &r : rs) { dns::Msg m; std::string why; REQUIRE(dns::decode(r.first.data, m, &why), "undecodable reply (%s) %s", why.c_str(), dns::hex(r.first.data).c_str()); Pending *best = nullptr; int bd = -1; bool own = false;
            for (size_t pi = pend.size(); pi--;) { Pending &p = pend[pi]; if (!p.replies && p.client == r.first.dst && p.conn == r.second && same_q(p.q, m)) { own = true; if (hosts_end(p)) { dns::Msg e = expected(p, nullptr); if (same(e, m, true)) best = &p; } else for (size_t i = 0; i < dl.size(); i++) { dns::Msg e = expected(p, &dl[i].m); if (dns::lower(dl[i].m.qd[0].name) == target(dns::lower(p.q.qd[0].name), nullptr) && dl[i].m.qd[0].type == p.q.qd[0].type && same(e, m, true)) { best = &p; bd = i; break; } } if (best) break; } }
            REQUIRE(own, "reply without an outstanding query of that client: to %s %s", r.first.dst.c_str(), dns::str(m).c_str());
            std::string ds; for (auto &d : dl) ds += " | " + dns::str(d.m); REQUIRE(best, "reply is not the alias chain followed by the target's answer: %s; answers just received:%s", dns::str(m).c_str(), ds.c_str()); best->replies++; obs += "r" + std::to_string(best->uid); if (bd >= 0) dl.erase(dl.begin() + bd); }
        for (auto &d : dl) if (d.strict) for (auto &p : pend) if (!p.replies && !hosts_end(p) && dns::lower(d.m.qd[0].name) == target(dns::lower(p.q.qd[0].name), nullptr) && d.m.qd[0].type == p.q.qd[0].type && now_ms - p.t < 2000) fail("answer for outstanding alias query #%d was not passed on: %s", p.uid, dns::str(d.m).c_str());
        if (hosts_strict) for (auto &p : pend) if (!p.replies && hosts_end(p)) fail("query #%d ends at a hosts address but was not answered", p.uid); }
    void answer_up(int i, int v, std::vector<Del> &dl, bool first) { dns::Msg m = mk(upq[i], i, v); note("answer upstream datagram %d variant %d: %s", i, v, dns::str(m).c_str()); bool ok = udp_reply(up[i], v & 1 ? dns::encode_c(m) : dns::encode(m)); up_answered[i]++; if (ok) dl.push_back({i, m, first}); }
};
static void histories(int maxq, int steps, int nq, int nv, bool adv)
{
    W9 w; w.upstreams = {"8.8.8.8:53"}; static int rn; rn = 0; if (choose(2, "rand")) on_rand = [] { return 7; }; else on_rand = [] { return 1000 + rn++; }; boot(conf(false)); int sent = 0;
    for (int s = 0; s < steps; s++) { struct E { int k, a, v; }; std::vector<E> ev; if (s) ev.push_back({0, 0, 0}); if (sent < maxq) for (int i = 0; i < nq; i++) ev.push_back({1, i, 0});
        for (size_t i = 0; i < w.up.size(); i++) if (w.up_answered[i] == 0) { if (nv > 3) for (int v = 0; v < nv; v++) ev.push_back({2, (int)i, v}); else ev.push_back({2, (int)i, ((int)i + s) % 7}); } else if (w.up_answered[i] == 1 && s < 4) ev.push_back({2, (int)i, 0}); if (adv && s) ev.push_back({3, 0, 0});
        E e = ev[choose(ev.size(), "event")]; if (e.k == 0) break; std::vector<W9::Del> dl;
        if (e.k == 1) { size_t u = w.up.size(); w.ask(QS[e.a]); sent++; run(); w.settle(dl); REQUIRE(w.up.size() == u + !w.hosts_end(w.pend.back()), "alias query led to %zu upstream queries", w.up.size() - u); }
        else if (e.k == 2) { bool first = !w.up_answered[e.a] && now_ms - w.up[e.a].t < 2000; w.answer_up(e.a, e.v, dl, first); run(); w.settle(dl); } else { advance(11000); w.settle(dl); w.obs += "t"; } }
    exec_done(w.obs);
}
// an answer that comes after its alias query was given up while another alias query is outstanding
static void late(int depth)
{
    static const int ph[] = {0, 1500, 4000, 7000, 7500, 7990, 9990}; static const int gap[] = {1000, 2500, 2990, 9000, 9990, 10020, 11000, 12500, 19000};
    W9 w; w.upstreams = {"8.8.8.8:53"}; static int rn; rn = 0; if (choose(2, "rand")) on_rand = [] { return 7; }; else on_rand = [] { return 1000 + rn++; }; boot(conf(false)); advance(1 + ph[choose(7, "phase")]);
    int first = choose(5, "q1"); static const int q1s[] = {0, 2, 4, 5, 9}; w.ask(QS[q1s[first]]); run(); w.settle({}); advance(gap[choose(9, "gap")]); w.settle({});
    int n = 1 + choose(depth, "more"); for (int i = 0; i < n; i++) { w.ask(QS[choose(6, "q2")]); run(); w.settle({}); }
    std::vector<int> left; for (size_t i = 0; i < w.up.size(); i++) left.push_back(i);
    while (left.size()) { int k = choose(left.size(), "answer"); int i = left[k]; left.erase(left.begin() + k); std::vector<W9::Del> dl; w.answer_up(i, i % 3, dl, w.pend[i].t + 1999 > now_ms); run(); w.settle(dl); }
    exec_done(w.obs);
}
static void loops()
{
    int kind = choose(6, "loop"), type = choose(2, "type") ? 28 : 1, tcp = choose(2, "tcp"), n = 1 + choose(3, "times"); W9 w; w.upstreams = {"8.8.8.8:53"}; std::string c = conf(false); static const char *L[] = {"l.org l.org", "l2.org l.org\nAppendHosts l.org l2.org", "l2.org l.org\nAppendHosts l3.org l2.org\nAppendHosts l.org l3.org", "l2.org l.org\nAppendHosts l3.org l2.org\nAppendHosts l2.org l3.org", "x.l.org *.l.org\nAppendHosts x.l.org l.org", "l.org *.org"};
    boot(c + "AppendHosts " + L[kind] + "\n"); size_t th = live_threads(), fds = open_fds();
    for (int i = 0; i < n; i++) { if (tcp) { Conn *t = tcp_connect("9.9.9.4:4444", "127.0.0.1:53"); bytes b = dns::encode(dns::query(5, "l.org", type)), f; dns::p16(f, b.size()); tcp_push(t, f + b); } else udp_in("9.9.9.7:1", "127.0.0.1:53", dns::encode(dns::query(5 + i, "l.org", type))); run(); }
    std::vector<Sent> nu, nc; w.drain(&nu, &nc); REQUIRE(nu.empty(), "an alias loop was sent upstream: %s", dns::show(nu[0].data).c_str()); REQUIRE(nc.size() <= (size_t)n, "%zu replies to %d queries", nc.size(), n); for (auto &s : nc) { dns::Msg m; REQUIRE(s.dst == "9.9.9.7:1" && dns::decode(s.data, m) && m.qd.size() == 1 && m.qd[0].name == "l.org", "bad reply %s", dns::show(s.data).c_str()); } REQUIRE(live_threads() == (int)th, "threads changed");
    for (int i = 0; i < 3; i++) { w.ask(QS[(size_t[]){0, 4, 6}[i]]); run(); w.settle({}); std::vector<W9::Del> dl; if (i < 2) { REQUIRE(w.up.size() == (size_t)i + 1, "after an alias loop, alias queries are not resolved any more"); w.answer_up(i, 1, dl, true); run(); w.settle(dl); } } exec_done(w.obs);
}
static void longchains()
{
    int n = 1 + choose(g_thorough ? 10 : 8, "length"), type = choose(2, "type") ? 28 : 1, end = choose(2, "end"); W9 w; w.upstreams = {"8.8.8.8:53"}; std::string c = conf(false); for (int i = 0; i < n; i++) { char a[32], b[32]; snprintf(a, 32, "c%d.org", i); snprintf(b, 32, "c%d.org", i + 1); AL[a] = b; c += std::string("AppendHosts ") + b + " " + a + "\n"; } if (end) { char a[32]; snprintf(a, 32, "c%d.org", n); HA[a] = "4.3.2.1"; c += std::string("AppendHosts 4.3.2.1 ") + a + "\n"; }
    boot(c); for (int i = 0; i < 3; i++) { w.ask({i, 3, "c0.org", type, i == 1}); run(); w.settle({}); if (!end) { REQUIRE(w.up.size() == (size_t)i + 1, "chain of %d aliases was not resolved", n); std::vector<W9::Del> dl; w.answer_up(i, 1 + i, dl, true); run(); w.settle(dl); } } exec_done(w.obs);
}
// the cache in the middle: the target's answer comes from the cache the second time
static void cached()
{
    W9 w; w.upstreams = {"8.8.8.8:53"}; boot(conf(true)); int v = choose(10, "variant"), qi = choose(6, "q1"), dt = choose(3, "later") * 900; if (v == 8 || v == 9 || v == 2) {} w.ask(QS[qi]); run(); w.settle({}); if (w.up.empty()) exec_done("-"); std::vector<W9::Del> dl; w.answer_up(0, v, dl, true); run(); w.settle(dl); advance(dt); w.settle({});
    int qj = choose(11, "q2"); AQ b = QS[qj]; b.id = 77; size_t u0 = w.up.size(); w.ask(b); run(); size_t nup = 0; for (size_t i = w.seen; i < out.size(); i++) nup += w.is_up(out[i].dst); dns::Msg tq = w.upq[0]; Pending &p = w.pend.back(); bool samet = target(b.name, nullptr) == tq.qd[0].name && b.type == tq.qd[0].type;
    if (nup) { w.settle({}); dl.clear(); w.answer_up(u0, 0, dl, true); run(); w.settle(dl); exec_done("u"); }
    if (w.hosts_end(p)) { w.settle({}); exec_done("h"); }
    REQUIRE(samet, "%s answered although its target was never asked", b.name); // from the cache: the records that lead from the target to its addresses
    dns::Msg e = w.expected(p, &dl[0].m), m; std::vector<Sent> nc; std::string why; bytes raw; if (p.conn) { raw = tcp_take(p.conn); REQUIRE(raw.size() > 2, "no reply"); raw = raw.substr(2); } else { w.drain(nullptr, &nc); REQUIRE(nc.size() == 1, "%zu replies", nc.size()); raw = nc[0].data; } REQUIRE(dns::decode(raw, m, &why), "undecodable %s", why.c_str());
    std::vector<dns::RR> cn; std::string n = target(b.name, &cn); auto find = [&](const std::string &o, int t) { std::vector<dns::RR> r; for (auto &x : dl.size() ? w.upq[0].an : w.upq[0].an) r.push_back(x); return r; }; (void)find;
    dns::Msg a0 = mk(tq, 0, v); std::vector<dns::RR> exp = cn; std::string o = n; for (int h = 0; h < 8; h++) { bool f = false; for (auto &r : a0.an) if (r.type == 5 && dns::lower(r.name) == dns::lower(o)) { exp.push_back(r); dns::RR t; size_t off = 0; std::string nm; dns::dname(r.rdata, off, nm); o = nm; f = true; break; } if (!f) break; }
    std::vector<dns::RR> ad; for (auto &r : a0.an) if (r.type == b.type && dns::lower(r.name) == dns::lower(o)) ad.push_back(r); REQUIRE(ad.size(), "answered from the cache without address records: %s", dns::str(m).c_str()); REQUIRE(m.an.size() == exp.size() + ad.size(), "cache reply %s has other records than expected", dns::str(m).c_str());
    for (size_t i = 0; i < exp.size(); i++) REQUIRE(dns::lower(m.an[i].name) == dns::lower(exp[i].name) && m.an[i].type == 5 && m.an[i].rdata == exp[i].rdata, "chain broken at %s in %s", dns::str(m.an[i]).c_str(), dns::str(m).c_str());
    for (auto &r : ad) { int k = 0; for (auto &y : m.an) k += y.type == r.type && y.rdata == r.rdata && dns::lower(y.name) == dns::lower(r.name) && y.ttl <= r.ttl && y.ttl + (dt + 999) / 1000 >= r.ttl; REQUIRE(k == 1, "record %s missing in %s", dns::str(r).c_str(), dns::str(m).c_str()); }
    REQUIRE(same_q(p.q, m) && m.rcode() == 0 && m.ar.size() == p.q.ar.size(), "ID, question or EDNS wrong: %s", dns::str(m).c_str()); exec_done("c");
}
static void schedules(int budget)
{
    W9 w; w.upstreams = {"8.8.8.8:53"}; boot(conf(false)); static int rn; rn = 0; if (choose(2, "rand")) on_rand = [] { return 7; }; else on_rand = [] { return 1000 + rn++; }; std::vector<W9::Del> dl; int a = choose(6, "q1"); w.ask(QS[a]); run(); w.settle({}); size_t n1 = w.up.size();
    sched_explore = true; delay_budget = budget; for (size_t i = 0; i < n1; i++) w.answer_up(i, 1, dl, false); w.ask(QS[choose(11, "q2")]); w.ask(QS[choose(4, "q3")]); run(); sched_explore = false; w.settle(dl); dl.clear();
    for (size_t i = n1; i < w.up.size(); i++) { w.answer_up(i, i % 2, dl, false); run(); w.settle(dl); dl.clear(); } for (auto &p : w.pend) REQUIRE(p.replies == 1, "query #%d got %d replies", p.uid, p.replies); exec_done(w.obs);
}
void check_main()
{
    explore("single", [] { histories(1, 3, 11, 10, false); });
    explore("ipv6", [] { ipv6_clients = true; switch (choose(4, "part")) { case 0: histories(1, 3, 11, 10, false); break; case 1: late(1); break; case 2: loops(); break; case 3: histories(2, 4, 11, 3, true); } });
    explore("histories/2", [] { histories(2, g_thorough ? 6 : 5, 11, g_thorough ? 10 : 3, true); });
    explore("histories/3", [] { histories(3, 6, g_thorough ? 9 : 4, 3, g_thorough); });
    explore("late", [] { late(g_thorough ? 3 : 1); });
    explore("loops", [] { loops(); });
    explore("long-chains", [] { longchains(); });
    explore("cached", [] { cached(); });
    explore("schedules", [] { schedules(g_thorough ? 3 : 1); });
}
