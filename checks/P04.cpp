// P04: TCP clients. Segmentations, histories of connections, slow readers, races with replies; other clients are probed after every step.
#include "scn.h"
using namespace dns;
static const char *BASE = "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\nAppendHosts 1.2.3.4 h.org\nAppendHosts al.b.org alias.org\nDisabledDomain dis.org\n";
static bytes frame(const bytes &b) { bytes f; p16(f, b.size()); return f + b; }
struct Cl { Conn *c = nullptr; bool gone = false, odd = false; std::vector<bytes> exp; bytes rest; bytes buf; int got = 0; };
struct W4 {
    std::vector<Cl *> all; std::vector<std::pair<Sent, std::pair<Cl *, Msg>>> pend; size_t seen = 0; int serial = 0, nconn = 0; Cl *probe = nullptr; bool strict = true; std::string obs; std::vector<std::pair<Cl *, Msg>> expect_up;
    W4() { on_rand = [] { static int k = 0; return k++ * 7919 & 0x7fff; }; }
    Cl *connect() { Cl *k = new Cl; nconn++; k->c = tcp_connect("9.9.9." + std::to_string(1 + nconn % 200) + ":" + std::to_string(2000 + nconn), "127.0.0.1:53"); REQUIRE(k->c, "cannot connect"); all.push_back(k); run(); return k; }
    Msg next(const char *base = ".org", int type = A, bool edns = false) { return dns::query(7 + serial % 2, "n" + std::to_string(serial++) + base, type, edns); }
    Msg local(const Msg &q) { Msg a = dns::answer(q, {rrA(q.qd[0].name, "1.2.3.4", 60)}); return a; }
    // replies a client received: each must be one expected there
    void check(Cl *k) { k->buf += tcp_take(k->c); while (k->buf.size() >= 2 && k->buf.size() >= 2u + g16(k->buf, 0)) { bytes m = k->buf.substr(2, g16(k->buf, 0)); k->buf.erase(0, 2 + m.size()); bool ok = false; for (size_t i = 0; i < k->exp.size(); i++) { Msg a, b; if (k->exp[i] == m || (decode(k->exp[i], a) && decode(m, b) && a.id == b.id && a.qd.size() == 1 && b.qd.size() == 1 && a.qd[0].name == b.qd[0].name && a.qd[0].type == b.qd[0].type && a.an == b.an)) { k->exp.erase(k->exp.begin() + i); ok = true; k->got++; break; } } REQUIRE(ok, "a TCP client received what is no reply to its queries: %s", show(m).c_str()); } if (k->c->window == (size_t)-1) REQUIRE(k->buf.empty() || k->gone || k->odd || k->c->prog_closed, "a TCP client received half a message: %s", hex(k->buf).c_str()); }
    // queries that should just have been forwarded
    void forwarded() { run(); for (; seen < out.size(); seen++) { const Sent &s = out[seen]; if (s.dst != "1.1.1.1:53") continue; Msg f; REQUIRE(decode(s.data, f), "malformed forwarded query"); bool ok = false; for (size_t i = 0; i < expect_up.size(); i++) if (encode(expect_up[i].second) == s.data) { pend.push_back({s, expect_up[i]}); expect_up.erase(expect_up.begin() + i); ok = true; break; } REQUIRE(ok, "a query nobody sent was forwarded: %s", str(f).c_str()); } count_eval(1);
        for (auto &e : expect_up) REQUIRE(e.first->odd || e.first->gone, "query %s of a TCP client was not forwarded", str(e.second).c_str()); expect_up.clear(); settle(); }
    void settle() { for (auto k : all) { check(k); if (!k->gone && !k->odd && !k->c->rst) { REQUIRE(!k->c->prog_closed, "the connection of a well-behaving client was closed"); if (k->c->window == (size_t)-1 && strict) for (auto &e : k->exp) { bool waiting = false; for (auto &p : pend) waiting |= p.second.first == k && g16(e, 0) == p.second.second.id && show(e).find(p.second.second.qd[0].name) != std::string::npos; REQUIRE(waiting, "reply %s is missing", show(e).c_str()); } } } }
    bytes ask(Cl *k, const Msg &q) { if (q.qd[0].name == "h.org") k->exp.push_back(encode(local(q))); else if (q.qd[0].name == "dis.org") k->exp.push_back(encode(dns::answer(q, {}))); else expect_up.push_back({k, q}); return frame(encode(q)); }
    void answer(size_t i) { auto p = pend[i]; pend.erase(pend.begin() + i); Msg a = dns::answer(p.second.second, {rrA(p.second.second.qd[0].name, "5.6.7.8"), rrTXT(p.second.second.qd[0].name, "for" + std::to_string(p.second.first->c->id))}); p.second.first->exp.push_back(encode(a)); udp_reply(p.first, encode(a)); run(); settle(); }
    // other clients are served at once
    void probes() { static int id = 100; Msg q = dns::query(id = (id + 1) & 0x7fff, "h.org", A); size_t o = out.size(); udp_in("9.9.8.1:99", "127.0.0.1:53", encode(q)); run(); bool ok = false; for (size_t i = o; i < out.size(); i++) if (out[i].dst == "9.9.8.1:99") { Msg m; ok = decode(out[i].data, m) && m.id == q.id && m.an.size() == 1; } REQUIRE(ok, "a UDP client is not served any more"); if (probe) { tcp_push(probe->c, ask(probe, q)); run(); REQUIRE(!probe->c->prog_closed, "the connection of another client was closed"); settle(); REQUIRE(probe->exp.empty(), "another TCP client is not served any more"); } count_eval(2); }
    void newclient() { Cl *k = connect(); tcp_push(k->c, ask(k, dns::query(55, "h.org", A))); run(); settle(); REQUIRE(k->exp.empty() && k->got == 1, "a new TCP client is not served"); tcp_eof(k->c); k->gone = true; run(); }
    void end() { while (!pend.empty()) answer(0); probes(); newclient(); int left = 0; for (auto k : all) { if (k->c->rst || k->gone) continue; if (k->c->window != (size_t)-1) { k->gone = true; k->c->window = (size_t)-1; tcp_eof(k->c); continue; } if (k->odd) { tcp_eof(k->c); k->gone = true; } else left++; } run(); advance(25000); settle(); REQUIRE(open_conn_fds() == left, "%d connections are open but %d descriptors of connections", left, open_conn_fds()); for (auto k : all) obs += std::to_string(k->got) + (k->c->prog_closed ? "x" : ""); }
};
// three queries in one stream, cut in every pair of places
static void segments(int nq, bool dribble) {
    W4 w; boot(BASE); w.probe = w.connect(); std::string lng = std::string(60, 'a') + "." + std::string(60, 'b') + "." + std::string(60, 'c') + ".x.org"; auto mk = [&](Cl *k) { bytes s; for (int i = 0; i < nq; i++) { Msg q = i == 1 ? dns::query(9, "h.org", A) : i == 2 ? dns::query(9, lng, AAAA, true) : w.next(); s += w.ask(k, q); } return s; };
    Cl tmp; size_t L; { bytes s = mk(&tmp); w.expect_up.clear(); L = s.size(); w.serial = 0; } if (dribble) { int step = 1 + choose(40, "step"); Cl *k = w.connect(); bytes s = mk(k); auto e = w.expect_up; for (size_t i = 0; i < s.size(); i += step) { tcp_push(k->c, s.substr(i, step)); run(); } w.forwarded(); while (!w.pend.empty()) w.answer(0); REQUIRE(k->exp.empty() && k->got == nq, "%d of %d queries answered", k->got, nq); exec_done(std::to_string(step)); }
    size_t a = 1 + choose(L, "cut"); for (size_t b = a; b <= L + 1; b++) { w.serial = 0; Cl *k = w.connect(); bytes s = mk(k); auto e = w.expect_up; w.expect_up.clear(); size_t c1 = a < s.size() ? a : s.size(), c2 = b < s.size() ? b : s.size(); tcp_push(k->c, s.substr(0, c1)); w.strict = false; run(); w.probes(); tcp_push(k->c, s.substr(c1, c2 - c1)); run(); if ((a + b) % 5 == 0) w.probes(); tcp_push(k->c, s.substr(c2)); w.strict = true; w.expect_up = e; w.forwarded(); while (!w.pend.empty()) w.answer(w.pend.size() - 1); REQUIRE(k->exp.empty() && k->got == nq, "stream cut at %zu and %zu: %d of %d queries answered", c1, c2, k->got, nq); tcp_eof(k->c); run(); k->gone = true; w.all.pop_back(); if (w.all.size() > 1) w.all.resize(1); }
    w.probes(); exec_done(std::to_string(a)); }
// many queries at once, in chunks of any size; large messages
static void pipeline() {
    W4 w; boot(BASE); w.probe = w.connect(); int n = 1 << choose(8, "queries"), chunk = choose(7, "chunk"); static const size_t CH[] = {1, 7, 64, 512, 4096, 5000, 100000}; int kind = choose(4, "kind"); int order = choose(2, "order"); Cl *k = w.connect(); bytes s; for (int i = 0; i < n; i++) { Msg q = kind == 1 || (kind == 2 && i % 2) ? dns::query(i, i % 3 ? "h.org" : "dis.org", A) : w.next(); q.id = i; if (kind == 3) { RR o = opt(4096); o.rdata = bytes("\0\x0c", 2); int pad = (i * 613) % 3000; p16(o.rdata, pad); o.rdata += bytes(pad, '\0'); q.ar.push_back(o); } s += w.ask(k, q); }
    if (CH[chunk] == 1 && n > 16) exec_done("skip"); w.strict = false; for (size_t i = 0; i < s.size(); i += CH[chunk]) { tcp_push(k->c, s.substr(i, CH[chunk])); if (CH[chunk] < 5000) run(); } w.strict = true; w.forwarded(); w.probes(); while (!w.pend.empty()) w.answer(order ? w.pend.size() - 1 : 0); REQUIRE(k->exp.empty() && k->got == n, "%d of %d pipelined queries answered", k->got, n); w.end(); exec_done(w.obs); }
// histories of two TCP clients
static void histories(int depth, bool full) {
    W4 w; boot(BASE); w.probe = w.connect(); Cl *cl[2] = {nullptr, nullptr}; Msg half[2]; std::string h;
    static const bytes G[] = {bytes("\xff\xff", 2) + bytes(50, 'x'), bytes("\0\x05hello", 7), bytes("\0\x0c", 2) + bytes(12, '\0'), bytes("\0\0", 2), bytes("GET / HTTP/1.1\r\nHost: a\r\n\r\n")};
    enum { CONNECT, QUERY, HALF, REST, PAIR, HALFCLOSE, RESET, ANSWER0, ANSWERN, GIVEUP, GARBAGE };
    struct Op { int op, i; };
    for (int d = 0; d < depth; d++) {
        std::vector<Op> en;
        for (int i = 0; i < 2; i++) {
            if (!cl[i]) { if (i == 0 || w.nconn > 1) en.push_back({CONNECT, i}); continue; }
            if (cl[i]->rest.size()) en.push_back({REST, i}); else if (!cl[i]->odd) { en.push_back({QUERY, i}); en.push_back({HALF, i}); if (full && i) en.push_back({PAIR, i}); if (i == 0) for (int g = 0; g < (full ? 5 : 2); g++) en.push_back({GARBAGE + g, i}); }
            en.push_back({HALFCLOSE, i}); if (full) en.push_back({RESET, i});
        }
        if (w.pend.size()) { en.push_back({ANSWER0, 0}); if (full) en.push_back({GIVEUP, 0}); } if (w.pend.size() > 1) en.push_back({ANSWERN, 0});
        Op o = en[choose(en.size(), "op")]; h += (char)('a' + o.op); h += (char)('0' + o.i); Cl *&k = cl[o.i];
        switch (o.op) {
        case CONNECT: k = w.connect(); break;
        case QUERY: tcp_push(k->c, w.ask(k, w.next())); w.forwarded(); break;
        case PAIR: { bytes s = w.ask(k, dns::query(5, "dis.org", A)); tcp_push(k->c, s + w.ask(k, w.next())); w.forwarded(); break; }
        case HALF: { half[o.i] = d & 1 ? dns::query(3, "h.org", A) : w.next(); bytes s = frame(encode(half[o.i])); size_t c = d % 3 == 0 ? 1 : s.size() / 2; tcp_push(k->c, s.substr(0, c)); k->rest = s.substr(c); w.forwarded(); break; }
        case REST: w.ask(k, half[o.i]); tcp_push(k->c, k->rest); k->rest.clear(); w.forwarded(); break;
        case HALFCLOSE: tcp_eof(k->c); k->gone = true; k = nullptr; w.forwarded(); break;
        case RESET: k->c->rst = true; k->gone = true; k = nullptr; w.forwarded(); break;
        case ANSWER0: w.answer(0); break;
        case ANSWERN: w.answer(w.pend.size() - 1); break;
        case GIVEUP: advance(4000); w.pend.clear(); break;
        default: k->odd = true; tcp_push(k->c, G[o.op - GARBAGE]); w.forwarded();
        }
        count_transitions(1); w.probes();
    }
    for (int j = 0; j < 2; j++) if (cl[j] && cl[j]->rest.size()) { w.ask(cl[j], half[j]); tcp_push(cl[j]->c, cl[j]->rest); w.forwarded(); }
    w.end(); exec_done(h + "|" + w.obs);
}
// a client that does not read its replies
static void slow_reader() {
    static const int WIN[] = {0, 1, 2, 10, 46, 47, 100, 300}; static const int NQ[] = {1, 3, 40};
    W4 w; boot(BASE); w.probe = w.connect(); int win = WIN[choose(8, "window")], n = NQ[choose(3, "queries")], kind = choose(3, "kind"), later = choose(4, "later");
    Cl *k = w.connect(); k->c->window = win; k->odd = true; bytes s; for (int i = 0; i < n; i++) { Msg q = kind == 1 || (kind == 2 && i % 2) ? dns::query(i, "h.org", A) : w.next(); q.id = i; s += w.ask(k, q); }
    tcp_push(k->c, s); w.forwarded(); w.probes(); int a = 0; while (!w.pend.empty()) { w.answer(0); if (a++ % 7 == 0) w.probes(); } w.newclient();
    if (later == 0) { k->c->window = (size_t)-1; run(); w.settle(); advance(3000); w.probes(); } else if (later == 1) { advance(20000); w.probes(); } else if (later == 2) { k->c->rst = true; run(); w.probes(); } else { k->c->window = win + 60; bytes more = w.ask(k, dns::query(77, "h.org", A)); tcp_push(k->c, more); run(); w.probes(); }
    k->c->window = (size_t)-1; w.end(); exec_done(w.obs);
}
// many idle connections
static void crowd() {
    int half = choose(3, "idle"), n = choose(2, "number") ? 900 : 200, how = choose(3, "leave"); fd_max = choose(2, "descriptors") ? 500 : 1000; W4 w; boot(BASE); w.probe = w.connect(); Msg q = dns::query(3, "h.org", A); std::vector<Conn *> idle;
    for (int i = 0; i < n; i++) { Conn *c = tcp_connect("9.9.7." + std::to_string(1 + i % 250) + ":" + std::to_string(3000 + i), "127.0.0.1:53"); if (!c) continue; idle.push_back(c); if (half == 1) tcp_push(c, frame(encode(q)).substr(0, 9)); if (half == 2) tcp_push(c, frame(encode(q))); if (i % 20 == 19) { run(); w.probes(); } }
    advance(200); w.probes(); Msg f = w.next(); w.ask(w.probe, f); tcp_push(w.probe->c, frame(encode(f))); w.forwarded(); REQUIRE(w.pend.size() == 1, "a query was not forwarded while many clients are connected"); w.answer(0);
    for (size_t i = 0; i < idle.size(); i++) { if (how == 0) tcp_eof(idle[i]); else if (how == 1) idle[i]->rst = true; else if (i % 2) tcp_eof(idle[i]); else idle[i]->rst = true; } run(); advance(15000); run();
    w.newclient(); w.end(); exec_done(std::to_string(idle.size()));
}
// a client leaves while the reply arrives and the next one connects: all schedules
static void races(int budget) {
    int leave = choose(3, "leave"), nx = choose(2, "next"), when = choose(2, "when"); W4 w; boot(BASE); w.probe = w.connect(); Cl *k = w.connect(); tcp_push(k->c, w.ask(k, w.next())); if (when) tcp_push(k->c, w.ask(k, w.next())); w.forwarded();
    sched_explore = true; delay_budget = budget;
    if (leave == 0) tcp_eof(k->c); else if (leave == 1) k->c->rst = true; else { tcp_push(k->c, bytes("\xff\xff\0\0", 4)); } k->gone = leave < 2; k->odd = true;
    auto p = w.pend[0]; w.pend.erase(w.pend.begin()); Msg a = dns::answer(p.second.second, {rrA(p.second.second.qd[0].name, "5.6.7.8")}); k->exp.push_back(encode(a)); udp_reply(p.first, encode(a)); run();
    Cl *b = w.connect(); Msg qb = nx ? dns::query(8, "h.org", A) : w.next(); tcp_push(b->c, w.ask(b, qb)); advance(2); sched_explore = false; w.forwarded(); if (leave == 0) tcp_eof(k->c); w.end(); exec_done(w.obs);
}
void check_main()
{
    explore("segments", [] { segments(3, false); });
    explore("dribble", [] { segments(3, true); });
    explore("ipv6", [] { ipv6_clients = true; switch (choose(3, "part")) { case 0: segments(2, false); break; case 1: pipeline(); break; case 2: histories(g_thorough ? 5 : 4, false); } });
    explore("pipeline", pipeline);
    explore("histories", [] { histories(g_thorough ? 8 : 7, false); });
    explore("histories-full", [] { histories(g_thorough ? 7 : 6, true); });
    explore("slow-reader", slow_reader);
    explore("crowd", crowd);
    explore("races", [] { races(g_thorough ? 4 : 3); });
}
