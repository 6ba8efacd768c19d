// P26: repeating any short history of client, upstream and reload events does not make descriptors, threads or memory grow.
#include "scn.h"
using namespace dns;
static bytes frame(const bytes &b) { bytes f; p16(f, b.size()); return f + b; }
struct Kind { const char *what, *zone; int act, mode; };
// what the client does
enum { C_UDP, C_BAD, C_TCP, C_TCP2, C_OPEN, C_HALF, C_RESET, C_FIN, C_IDLE, C_LONG, C_PIPE, C_RSTQ, C_BURST, R_GROUP, R_BROKEN, R_NOHOSTS, R_BADDIS, G_MODE };
// what the servers do
enum { OK, SILENT, GARBAGE, LATE, TWICE, SENDERR, FINAFTER, FINIDLE, FIN, RST, HALFRST, REFUSED_, HOLE, SLOWCONN, HSREF, HSSIL, HSFIN, HSBAD, OKDUP, BIGLEN };
static const Kind K[] = {
    {"udp answered", "u.org", C_UDP, OK}, {"udp unanswered", "u.org", C_UDP, SILENT}, {"udp garbage answer", "u.org", C_UDP, GARBAGE}, {"udp late answer", "u.org", C_UDP, LATE}, {"udp answered twice", "u.org", C_UDP, TWICE}, {"udp unreachable", "u.org", C_UDP, SENDERR}, {"udp burst unanswered", "u.org", C_BURST, SILENT},
    {"parallel answered", "p.org", C_UDP, OK}, {"parallel one late", "p.org", C_UDP, TWICE},
    {"alias answered", "a.org", C_UDP, OK}, {"alias unanswered", "a.org", C_UDP, SILENT}, {"in hosts", "h.org", C_UDP, OK}, {"disabled", "d.org", C_UDP, OK}, {"garbage from client", "u.org", C_BAD, OK},
    {"client tcp", "u.org", C_TCP, OK}, {"client tcp two queries", "u.org", C_TCP2, OK}, {"client tcp unanswered", "u.org", C_TCP, SILENT}, {"client connects and closes", "", C_OPEN, OK}, {"client half a query", "", C_HALF, OK}, {"client resets", "u.org", C_RESET, LATE}, {"client half-closes", "u.org", C_FIN, LATE}, {"client half-closes, unanswered", "u.org", C_FIN, SILENT}, {"client idle", "", C_IDLE, OK}, {"client announces too much", "", C_LONG, OK}, {"client pipelines", "t.org", C_PIPE, OK}, {"client sends and resets", "t.org", C_RSTQ, OK},
    {"tcp answered", "t.org", C_UDP, OK}, {"tcp answered and closed", "t.org", C_UDP, FINAFTER}, {"tcp closed when idle", "t.org", C_UDP, FINIDLE}, {"tcp unanswered", "t.org", C_UDP, SILENT}, {"tcp closes", "t.org", C_UDP, FIN}, {"tcp resets", "t.org", C_UDP, RST}, {"tcp half an answer", "t.org", C_UDP, HALFRST}, {"tcp refuses", "t.org", C_UDP, REFUSED_}, {"tcp black hole", "t.org", C_UDP, HOLE}, {"tcp slow to connect", "t.org", C_UDP, SLOWCONN}, {"tcp garbage", "t.org", C_UDP, GARBAGE}, {"tcp twice", "t.org", C_UDP, TWICE}, {"tcp too long", "t.org", C_UDP, BIGLEN}, {"tcp burst unanswered", "t.org", C_BURST, SILENT}, {"tcp burst refused", "t.org", C_BURST, REFUSED_}, {"tcp burst closed", "t.org", C_BURST, FIN},
    {"proxy ok", "s.org", C_UDP, OK}, {"proxy refuses", "s.org", C_UDP, REFUSED_}, {"proxy black hole", "s.org", C_UDP, HOLE}, {"proxy slow", "s.org", C_UDP, SLOWCONN}, {"proxy handshake refused", "s.org", C_UDP, HSREF}, {"proxy handshake silent", "s.org", C_UDP, HSSIL}, {"proxy handshake closed", "s.org", C_UDP, HSFIN}, {"proxy handshake bad", "s.org", C_UDP, HSBAD}, {"proxy closes after", "s.org", C_UDP, FINAFTER}, {"proxy unanswered", "s.org", C_UDP, SILENT}, {"proxy burst", "s.org", C_BURST, SILENT},
    {"tcp parallel ok", "tp.org", C_UDP, OK}, {"tcp parallel refused", "tp.org", C_UDP, REFUSED_}, {"tcp parallel closes", "tp.org", C_UDP, FINAFTER}, {"tcp parallel silent", "tp.org", C_UDP, SILENT},
    {"reload groups", "", R_GROUP, OK}, {"reload broken groups", "", R_BROKEN, OK}, {"reload without hosts", "", R_NOHOSTS, OK}, {"reload other tables", "", R_BADDIS, OK},
    {"checked addresses refuse", "", G_MODE, REFUSED_}, {"checked addresses black hole", "", G_MODE, HOLE}, {"checked addresses slow", "", G_MODE, SLOWCONN},
};
static const int NK = sizeof K / sizeof *K;
static const Addr IF = "127.0.0.1:53";
struct W26 : World {
    struct Srv { bytes rx; int st = 0; bool proxy; }; std::map<Conn *, Srv> srv; int mode[NK]; int cur = OK, gmode = OK, id = 0, serial = 0; struct Ev { int64_t t; std::function<void()> f; }; std::vector<Ev> evs; size_t cseen = 0; std::set<std::string> reps; std::vector<Conn *> mine; bool reload; int grp = 0;
    void at(int64_t d, std::function<void()> f) { evs.push_back({now_ms + d, f}); }
    static bytes ans(const bytes &qb, const char *ip = "1.2.3.4") { Msg q; if (!decode(qb, q) || q.qd.size() != 1) fail("malformed upstream query %s", hex(qb).c_str()); return encode(answer(q, {rrA(q.qd[0].name, ip)})); }
    int mode_of(const bytes &qb) { Msg q; if (!decode(qb, q) || q.qd.size() != 1) return OK; int k = atoi(q.qd[0].name.c_str() + 1); return q.qd[0].name[0] == 'e' && k < NK ? K[k].mode : cur; }
    void tables() { write_file("src.txt", "1.0.0.1 h.org\n1.0.0.1 e11.h.org\n" + alias()); write_file("dis.txt", "d.org\n"); write_file("grp.txt", "PROTOCOL TCP\nSERVER 8.8.8.8,8.8.8.9\nPARALLEL OFF\nPROXY NO\ng.org\n"); }
    std::string alias() { std::string s; for (int i = 0; i < NK; i++) if (!strcmp(K[i].zone, "a.org")) s += "e" + std::to_string(i) + ".u.org e" + std::to_string(i) + ".a.org\n"; return s; }
    void start(bool rl) {
        reload = rl; private_files = true; write_file(".dnsforwarder/x", ""); tables(); upstreams = {"1.1.1.1:53", "1.1.1.2:53", "3.3.3.3:53", "3.3.3.4:53", "2.2.2.2:53"};
        on_sendto = [this](const Sent &x) { if (!is_up(x.dst)) return 0; int m = mode_of(x.data); switch (m) { case SILENT: return 0; case SENDERR: return ENETUNREACH; case GARBAGE: udp_reply(x, "garbage"); udp_reply(x, ans(x.data)); return 0; case LATE: at(1500, [x] { udp_reply(x, ans(x.data)); }); at(6000, [x] { udp_reply(x, ans(x.data)); }); return 0; case TWICE: udp_reply(x, ans(x.data)); udp_reply(x, ans(x.data)); return 0; } udp_reply(x, ans(x.data)); return 0; };
        on_connect = [this](const Addr &a, int64_t *d) { int m = a[0] == '9' ? gmode : cur; *d = 0; if (getenv("T26")) note("t=%lld connect %s, %d open", (long long)now_ms, a.c_str(), open_fds()); switch (m) { case REFUSED_: return (int)sim::REFUSE; case HOLE: return (int)BLACKHOLE; case SLOWCONN: *d = 700; } return (int)ACCEPT; };
        boot("LogOn true\nUseCache false\nDomainStatistic true\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nEnableUDPtoTCP true\nEnableTCPtoUDP true\nUDPGroup 1.1.1.1,1.1.1.2 * off\nUDPGroup 3.3.3.3,3.3.3.4 p.org on\nTCPGroup 4.4.4.4,4.4.4.5 t.org off no\nTCPGroup 5.5.5.5,5.5.5.6 s.org off 7.7.7.7:1080,7.7.7.8:1080\nTCPGroup 6.6.6.6,6.6.6.7 tp.org on no\nGoodIPList l 5000\nGoodIPListAddIP l 9.9.9.1:80\nGoodIPListAddIP l 9.9.9.2:80\nDisabledList " + path("dis.txt") + "\nReloadDisabledList true\nHosts file://" + path("src.txt") + "\nHostsDownloadPath " + path("h.txt") + "\nModulesUpdateInterval " + (reload ? "30" : "-1") + "\nGroupFile " + path("grp.txt") + "\nReloadGroupFile true\n");
    }
    void conn_bytes(Conn *c, Srv &s) {
        for (;;) {
            int m = cur;
            if (s.proxy && s.st < 2) { // SOCKS5 handshake
                size_t need = s.st == 0 ? 3 : s.rx.size() < 5 ? 5 : 7 + (uint8_t)s.rx[4]; if (s.rx.size() < need) return; s.rx.erase(0, need);
                if (m == HSSIL) { s.st = 9; return; } if (m == HSFIN) { tcp_eof(c); s.st = 9; return; } if (m == HSBAD) { tcp_push(c, "\x04\x04\x04\x04"); s.st = 9; return; }
                if (s.st == 1 && m == HSREF) { tcp_push(c, bytes("\x05\x05\x00\x01\0\0\0\0\0\0", 10)); s.st = 9; return; }
                tcp_push(c, s.st == 0 ? bytes("\x05\x00", 2) : bytes("\x05\x00\x00\x01\0\0\0\0\0\0", 10)); s.st++; continue;
            }
            if (s.st == 9 || s.rx.size() < 2 || s.rx.size() < 2u + g16(s.rx, 0)) return;
            bytes q = s.rx.substr(2, g16(s.rx, 0)); s.rx.erase(0, 2 + q.size()); m = mode_of(q); bytes a = frame(ans(q));
            switch (m) {
            case SILENT: break; case FIN: tcp_eof(c); break; case RST: c->rst = true; break; case HALFRST: tcp_push(c, a.substr(0, a.size() / 2)); at(50, [c] { c->rst = true; }); break;
            case FINAFTER: tcp_push(c, a); tcp_eof(c); break; case FINIDLE: tcp_push(c, a); at(1000, [c] { tcp_eof(c); }); break; case GARBAGE: tcp_push(c, frame("junkjunkjunkjunk")); break; case TWICE: tcp_push(c, a + a); break; case BIGLEN: tcp_push(c, bytes("\xff\xff", 2) + bytes(3000, 'x')); break;
            case LATE: at(1500, [c, a] { tcp_push(c, a); }); break;
            default: tcp_push(c, a);
            }
        }
    }
    size_t dead = 0; void servers() { while (dead < conns.size() && conns[dead]->prog_closed) dead++; for (size_t j = dead; j < conns.size(); j++) { auto i = &conns[j]; Conn *c = *i; if (!c->outgoing || c->prog_closed || c->peer[0] == '9') continue; auto k = srv.find(c); if (k == srv.end()) { Srv s; s.proxy = c->peer[0] == '7'; k = srv.emplace(c, s).first; } bytes b = tcp_take(c); if (b.empty()) continue; k->second.rx += b; conn_bytes(c, k->second); } }
    void step(int ms) { // let time pass, everybody acting
        int64_t end = now_ms + ms;
        for (;;) { run(); servers(); run(); for (size_t i = 0; i < evs.size();) if (evs[i].t <= now_ms) { auto f = evs[i].f; evs.erase(evs.begin() + i); f(); } else i++; run(); servers(); run(); if (now_ms >= end) break; advance(std::min<int64_t>(100, end - now_ms)); }
        for (; seen < out.size(); seen++) if (!is_up(out[seen].dst)) { Msg m; if (decode(out[seen].data, m) && m.qd.size() == 1) reps.insert(m.qd[0].name + "#" + std::to_string(m.id)); }
    }
    int live() { int n = 0; for (auto c : conns) if (c->outgoing && !c->prog_closed) n++; return n; }
    static bytes q(int id, const std::string &n) { return encode(query(id, n, A)); }
    void event(int k) {
        const Kind &e = K[k]; std::string n = "e" + std::to_string(k) + "." + e.zone; cur = e.mode; const Addr cl = "9.1.1.1:" + std::to_string(2000 + k); note("%s", e.what);
        auto conn = [&] { Conn *c = tcp_connect(cl, IF); REQUIRE(c, "harness: no listener"); mine.push_back(c); return c; };
        switch (e.act) {
        case C_UDP: udp_in(cl, IF, q(++id & 0xffff, n)); break; case C_BAD: udp_in(cl, IF, "xx"); udp_in(cl, IF, q(7, n).substr(0, 20)); break;
        case C_BURST: for (int i = 0; i < 4; i++) udp_in(cl, IF, q(++id & 0xffff, "e" + std::to_string(k) + ".b" + std::to_string(i) + "." + e.zone)); break;
        case C_TCP: { Conn *c = conn(); tcp_push(c, frame(q(++id & 0xffff, n))); at(1000, [c] { tcp_take(c); tcp_eof(c); }); break; }
        case C_TCP2: { Conn *c = conn(); bytes b = frame(q(++id & 0xffff, n)), d = frame(q(++id & 0xffff, "e" + std::to_string(k) + ".t.org")); tcp_push(c, b); at(300, [c, d] { tcp_push(c, d); }); at(1500, [c] { tcp_eof(c); }); break; }
        case C_OPEN: { Conn *c = conn(); at(300, [c] { tcp_eof(c); }); break; } case C_HALF: { Conn *c = conn(); tcp_push(c, q(1, "half.u.org").substr(0, 9)); at(300, [c] { tcp_eof(c); }); break; }
        case C_RESET: { Conn *c = conn(); tcp_push(c, frame(q(++id & 0xffff, n))); at(500, [c] { c->rst = true; }); break; }
        case C_RSTQ: { Conn *c = conn(); tcp_push(c, frame(q(++id & 0xffff, n))); c->rst = true; break; }
        case C_FIN: { Conn *c = conn(); tcp_push(c, frame(q(++id & 0xffff, n))); tcp_eof(c); break; }
        case C_IDLE: { Conn *c = conn(); at(9000, [c] { tcp_eof(c); }); break; } case C_LONG: { Conn *c = conn(); tcp_push(c, bytes("\xff\xff", 2) + bytes(2500, 'y')); at(400, [c] { tcp_eof(c); }); break; }
        case C_PIPE: { Conn *c = conn(); bytes b; for (int i = 0; i < 3; i++) b += frame(q(++id & 0xffff, "e" + std::to_string(k) + (i ? ".v" : ".w") + std::to_string(i) + "." + e.zone)); tcp_push(c, b); at(3000, [c] { tcp_eof(c); }); break; }
        case R_GROUP: { static const char *G[] = {"PROTOCOL UDP\nSERVER 2.2.2.2\nPARALLEL ON\ng.org\n", "PROTOCOL TCP\nSERVER 8.8.8.8,8.8.8.9\nPARALLEL OFF\nPROXY 7.7.7.7:1080\ng.org\n", "PROTOCOL TCP\nSERVER 8.8.8.8\nPARALLEL ON\nPROXY NO\ng.org\nh.net\n"}; for (int i = 0; i < 3; i++) at(30000 * i, [i] { write_file("grp.txt", G[i]); }); break; }
        case R_BROKEN: { static const char *G[] = {"PROTOCOL NOPE\ng.org\n", "SERVER 1.1.1.1\n", "PROTOCOL TCP\nSERVER nonsense\ng.org\n", "PROTOCOL UDP\nPARALLEL ON\ng.org\n"}; for (int i = 0; i < 4; i++) at(20000 * i, [i] { write_file("grp.txt", G[i]); }); at(75000, [this] { tables(); }); break; }
        case R_NOHOSTS: remove_file("src.txt"); at(31000, [this] { tables(); }); break; case R_BADDIS: write_file("dis.txt", "d.org\nx.net\n*.wild.net\n"); write_file("src.txt", "2.0.0.2 x.org\n" + alias()); at(31000, [this] { tables(); }); break;
        case G_MODE: gmode = e.mode; at(12000, [this] { gmode = OK; }); break;
        }
    }
};
struct Use { int thr, fds; size_t bytes, blocks; };
static const int CYCLE = 90000;
// the least that is in use at any second of one repetition
static Use cycle(W26 &w, const std::vector<int> &ev, int gap) {
    int64_t t0 = now_ms; for (int e : ev) { w.event(e); w.step(gap); if (gap < 1000) { run(); } } w.step(6000); w.cur = OK; w.step(100);
    // everything works
    static const char *Z[] = {"probe.u.org", "probe.p.org", "probe.t.org", "probe.s.org", "probe.tp.org", "h.org"}; 
    int64_t rest = t0 + CYCLE - 8000 - now_ms; Use m = {1 << 30, 1 << 30, (size_t)-1, (size_t)-1};
    auto look = [&] { m.thr = std::min(m.thr, live_threads()); m.fds = std::min(m.fds, open_fds()); m.bytes = std::min(m.bytes, mem_bytes); m.blocks = std::min(m.blocks, mem_blocks); };
    while (rest > 0) { int64_t d = std::min<int64_t>(rest, 1000); advance(d); rest -= d; if (!w.evs.empty()) w.step(0); look(); }
    w.reps.clear(); std::vector<std::string> want; for (const char *z : Z) { int i = ++w.id & 0xffff; udp_in("9.2.2.2:999", IF, W26::q(i, z)); want.push_back(std::string(z) + "#" + std::to_string(i)); } w.step(3500);
    for (auto &x : want) { count_eval(1); REQUIRE(w.reps.count(x), "the history stopped the service: no answer to %s", x.c_str()); }
    while (now_ms < t0 + CYCLE) { advance(std::min<int64_t>(1000, t0 + CYCLE - now_ms)); look(); } 
    REQUIRE(stat_badclose == 0, "a descriptor is closed that is not open"); return m;
}
static const bool MEMORY = true;
static void history(int n, int reps, bool rl, const std::vector<int> &set) {
    W26 w; std::vector<int> ev; for (int i = 0; i < n; i++) ev.push_back(set[choose(set.size(), "event")]); int gap = n > 1 && (!g_thorough || choose(2, "gap") == 0) ? 50 : 3000;
    w.start(rl); advance(1000); std::vector<Use> u; for (int r = 0; r < reps; r++) { u.push_back(cycle(w, ev, gap)); note("repetition %d: %d threads, %d descriptors, %zu bytes in %zu blocks", r + 1, u[r].thr, u[r].fds, u[r].bytes, u[r].blocks); if (r == reps / 2) mem_mark(); count_transitions(ev.size()); }
    int a = reps / 2 - 1, b = a + (reps - 1 - a) / 2, c = reps - 1; count_eval(4); std::string h; for (int e : ev) h += std::string(h.empty() ? "" : ", ") + K[e].what;
    if (g_verbose) fputs(mem_report().c_str(), stderr);
    REQUIRE(u[c].thr <= u[a].thr, "threads grow: %d, %d, %d after %d, %d, %d repetitions of [%s]", u[a].thr, u[b].thr, u[c].thr, a + 1, b + 1, c + 1, h.c_str());
    REQUIRE(u[c].fds <= u[a].fds + 1, "descriptors grow: %d, %d, %d after %d, %d, %d repetitions of [%s]", u[a].fds, u[b].fds, u[c].fds, a + 1, b + 1, c + 1, h.c_str());
    REQUIRE(!(u[c].blocks > u[b].blocks && u[b].blocks > u[a].blocks), "blocks of memory grow: %zu, %zu, %zu after %d, %d, %d repetitions of [%s]", u[a].blocks, u[b].blocks, u[c].blocks, a + 1, b + 1, c + 1, h.c_str());
    REQUIRE(!(u[c].bytes > u[b].bytes && u[b].bytes > u[a].bytes), "memory grows: %zu, %zu, %zu bytes after %d, %d, %d repetitions of [%s]", u[a].bytes, u[b].bytes, u[c].bytes, a + 1, b + 1, c + 1, h.c_str());
    exec_done(std::to_string(u[c].thr) + "/" + std::to_string(u[c].fds) + "/" + std::to_string(u[c].blocks) + h);
}
// many events at once, up to the limits of the process: afterwards everything works again with as much in use as before
static void crowd() {
    static const int Z[] = {0, 1, 8, 10, 14, 16, 20, 21, 22, 25, 26, 27, 29, 30, 33, 34, 35, 36, 42, 43, 44, 47, 51, 53, 54, 56}; static const int LIM[] = {400, 1024, 4000}, N[] = {150, 1200};
    int k = Z[choose(sizeof Z / sizeof *Z, "event")]; fd_max = LIM[choose(3, "limit")]; int n = N[choose(2, "count")]; W26 w; w.start(false); advance(1000); note("%d x %s", n, K[k].what); Use a = (cycle(w, {}, 0), cycle(w, {}, 0)), b;
    for (int r = 0; r < 2; r++) {
        w.cur = K[k].mode; for (int i = 0; i < n; i++) { std::string nm = "e" + std::to_string(k) + ".c" + std::to_string(i) + "." + K[k].zone; Addr cl = "9.3." + std::to_string(i / 200) + "." + std::to_string(i % 200) + ":4000"; bytes q = W26::q(i + 1, nm);
            if (K[k].act == C_UDP || K[k].act == C_BURST) udp_in(cl, IF, q); else { Conn *c = tcp_connect(cl, IF); REQUIRE(c, "harness: no listener"); if (K[k].act != C_IDLE) tcp_push(c, frame(q)); if (K[k].act == C_FIN) tcp_eof(c); else w.at(8000, [c] { tcp_eof(c); }); }
            if (i % 8 == 7) { run(); w.servers(); run(); advance(5); } }
        w.step(100); w.cur = OK; w.step(n > 1000 ? 900000 : 120000); b = cycle(w, {}, 0);
    }
    count_eval(3); REQUIRE(b.thr <= a.thr, "threads left over: %d instead of %d after %d x %s", b.thr, a.thr, n, K[k].what); REQUIRE(b.fds <= a.fds, "descriptors left over: %d instead of %d after %d x %s", b.fds, a.fds, n, K[k].what);
    exec_done(std::to_string(k) + "/" + std::to_string(b.fds) + "/" + std::to_string(n) + "/" + std::to_string(fd_max));
}
// descriptors run out during an event; afterwards everything works again with as much in use as before
static void exhausted(int reps) {
    int k = choose(NK, "event"), left = choose(3, "left"); bool rl = K[k].act >= R_GROUP && K[k].act < G_MODE; W26 w; w.start(rl); advance(1000); note("%s with %d descriptors left", K[k].what, left); Use a = (cycle(w, {}, 0), cycle(w, {}, 0)), b, c;
    for (int r = 0; r < reps; r++) { fd_max = 300 + open_fds() + left; w.event(k); w.step(rl ? 35000 : 4000); fd_max = 1000; w.cur = OK; if (rl) w.evs.clear(); w.tables(); w.step(CYCLE - (rl ? 35000 : 4000)); c = b; b = cycle(w, {}, 0); note("%d threads, %d descriptors, %zu blocks", b.thr, b.fds, b.blocks); }
    count_eval(3); REQUIRE(b.thr <= a.thr, "threads left over: %d instead of %d", b.thr, a.thr); REQUIRE(b.fds <= a.fds, "descriptors left over: %d instead of %d", b.fds, a.fds);
    exec_done(std::to_string(k) + "/" + std::to_string(b.fds) + "/" + std::to_string(left));
}
// traffic that never pauses, of which nothing (or every other query only) is answered: what is in use reaches a bound
static void steady(int n) {
    static const int Z[] = {1, 10, 29, 34, 51, 53, 16, 2, 27}, GAP[] = {100, 1000, 5000}; int k = Z[choose(sizeof Z / sizeof *Z, "event")], gap = GAP[K[k].mode == HOLE || K[k].mode == HSSIL ? 2 : choose(3, "gap")]; // (a module that waits for a connection takes nothing else)
     bool half = choose(2, "half"); W26 w; w.start(false); advance(1000); note("a %s each %d ms%s", K[k].what, gap, half ? ", every other one answered" : "");
    Use m[3] = {}; int i = 0; for (int r = 0; r < 3; r++) { for (int e = 0; e < n; e++, i++) { if (w.cur = half && i % 2 ? (int)OK : K[k].mode, K[k].act == C_TCP) w.event(k); else { std::string nm = std::string(half && i % 2 ? "o" : "e") + std::to_string(k) + "." + K[k].zone; udp_in("9.1.1.1:2000", IF, W26::q(++w.id & 0xffff, nm)); }
            int64_t end = now_ms + gap; w.step(gap > 1500 ? 200 : gap); while (now_ms < end) advance(std::min<int64_t>(end - now_ms, 1000)); m[r].thr = std::max(m[r].thr, live_threads()); m[r].fds = std::max(m[r].fds, open_fds()); m[r].blocks = std::max(m[r].blocks, mem_blocks); m[r].bytes = std::max(m[r].bytes, mem_bytes); count_transitions(1); }
        note("%d queries: up to %d threads, %d descriptors, %zu bytes in %zu blocks", i, m[r].thr, m[r].fds, m[r].bytes, m[r].blocks); if (r == 1) mem_mark(); }
    if (g_verbose) fputs(mem_report().c_str(), stderr);
    count_eval(4); REQUIRE(m[2].thr <= m[1].thr, "threads grow: up to %d, then %d, with %s", m[1].thr, m[2].thr, K[k].what); REQUIRE(m[2].fds <= m[1].fds + 1, "descriptors grow: up to %d, then %d, with %s", m[1].fds, m[2].fds, K[k].what);
    REQUIRE(m[2].blocks <= m[1].blocks + n / 20, "blocks of memory grow: up to %zu, then %zu, with %s each %d ms", m[1].blocks, m[2].blocks, K[k].what, gap); REQUIRE(m[2].bytes <= std::max<size_t>(m[1].bytes + n * 20, 5500000), /* a thousand unanswered queries may be remembered */ "memory grows: up to %zu, then %zu bytes, with %s each %d ms", m[1].bytes, m[2].bytes, K[k].what, gap);
    exec_done(std::to_string(k) + "/" + std::to_string(gap) + "/" + std::to_string(m[2].fds) + "/" + std::to_string(half));
}
void check_main()
{
    std::vector<int> all, some; for (int i = 0; i < NK; i++) { all.push_back(i); }
    explore("single", [&] { history(1, 12, choose(2, "reload"), all); });
    explore("crowd", crowd);
    explore("steady", [] { steady(g_thorough ? 3000 : 1300); });
    explore("exhausted", [] { exhausted(g_thorough ? 4 : 2); });
    explore("pairs", [&] { history(2, g_thorough ? 8 : 7, true, all); });
}
