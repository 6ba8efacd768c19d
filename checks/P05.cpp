// P05: TCP upstreams. Every sequence of connection outcomes and server (or SOCKS5 proxy) behaviours over several queries.
#include "scn.h"
using namespace dns;
static bytes frame(const bytes &b) { bytes f; p16(f, b.size()); return f + b; }
enum Reaction { WHOLE, SPLIT, WHOLE_FIN, FIN, RST, PARTIAL_FIN, PARTIAL, SILENT, HUGE, JUNK, WRONGID, EMPTY, TWICE, TRICKLE, ONEBYTE_FIN, NREACT };
enum Hs { H_OK, H_SPLIT, H_REFUSED, H_FIN, H_SILENT, H_BAD, H_RST, H_V6, H_NAME, H_FAIL, NHS };
struct Srv { // one connection seen by the environment
    Conn *c; bytes rx; int stage = 0; bool proxy = false; int frames = 0; int64_t last = 0; bool dead = false; Addr target; };
struct Ev { int64_t t; Srv *s; bytes b; int what; }; // what: 0 bytes, 1 FIN, 2 RST
struct Ask { Msg q; int64_t t; Addr from; std::vector<int64_t> seen; bool good = false; int64_t good_t = 0; bytes ans; int replies = 0; bool killed = false; int64_t killed_t = 0; bool reused = false; std::vector<bytes> may; };
struct W5 {
    bool proxy = false; int keep = 5; std::vector<Addr> servers = {"1.1.1.1:53"}; bool par = false; std::string group;
    std::map<Conn *, Srv *> srv; std::vector<Ev> evs; std::vector<Ask> asks; size_t seen = 0; std::string obs; int rnd = 0; int64_t slack = 0; size_t window = -1; int64_t deaf_until = -1;
    std::function<int(const Addr &)> conn_choice = [](const Addr &) { return 0; };
    std::function<int(const Addr &, int)> react = [](const Addr &, int) { return (int)WHOLE; };
    std::function<int(int)> hs = [](int) { return (int)H_OK; };
    bool expecting_socks(const Addr &a) { return proxy && a == "7.7.7.7:1080"; }
    void start()
    {
        on_rand = [this] { return rnd++; };
        on_connect = [this](const Addr &a, int64_t *d) { switch (conn_choice(a)) { case 0: *d = 0; return (int)ACCEPT; case 1: *d = 300; return (int)ACCEPT; case 2: *d = 0; return (int)REFUSE; case 3: *d = 200; return (int)REFUSE; } return (int)BLACKHOLE; };
        std::string s; for (auto &a : servers) s += (s.empty() ? "" : ",") + a;
        boot("LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nTCPKeepAlive " + std::to_string(keep) + "\nTCPGroup " + s + " * " + (par ? "on" : "off") + (proxy ? " 7.7.7.7:1080" : " no") + "\n");
    }
    void push(Srv *s, const bytes &b, int64_t delay = 0) { note("t=%lld server sends %zu bytes", (long long)now_ms, b.size()); evs.push_back({now_ms + delay, s, b, 0}); }
    void closing(Srv *s, int what, int64_t delay = 0) { evs.push_back({now_ms + delay, s, "", what}); }
    bytes answer_of(const Msg &q) { int n = q.id % 3; std::vector<RR> v; for (int i = 0; i < n * 9 + 1; i++) v.push_back(rrTXT(q.qd[0].name, std::string(80, 'a' + i) + std::to_string(q.id))); return encode(dns::answer(q, v)); }
    void on_frame(Srv *s, const bytes &m)
    {
        Ask *a = nullptr; for (auto &x : asks) if (encode(x.q) == m) a = &x; REQUIRE(a, "the server got a message that is no client's query: %s", show(m).c_str());
        count_eval(1); if (s->frames) { REQUIRE(now_ms - s->last < (keep + 1) * 1000 + 100 + slack, "a connection idle for %lld ms was reused (TCPKeepAlive %d)", (long long)(now_ms - s->last), keep); a->reused = true; }
        REQUIRE(!s->dead, "a query was sent on a connection whose server answered garbage"); s->frames++; s->last = now_ms; a->seen.push_back(now_ms); a->killed = false; bytes ans = frame(answer_of(a->q)); int r = react(s->c->peer, s->frames); obs += 'A' + r;
        auto good = [&](int64_t t) { if (!a->good) { a->good = true; a->good_t = t; } }; auto kill = [&](int64_t d) { a->killed = s->frames > 1; a->killed_t = now_ms + d; };
        switch (r) {
        case WHOLE: push(s, ans); good(now_ms); break;
        case SPLIT: push(s, ans.substr(0, 1)); push(s, ans.substr(1, 1), 50); push(s, ans.substr(2, 5), 100); push(s, ans.substr(7), 150); good(now_ms + 150); break;
        case WHOLE_FIN: push(s, ans); closing(s, 1); good(now_ms); break;
        case FIN: closing(s, 1); kill(0); break;
        case RST: closing(s, 2); kill(0); break;
        case PARTIAL_FIN: push(s, ans.substr(0, ans.size() / 2)); closing(s, 1, 50); break;
        case PARTIAL: push(s, ans.substr(0, ans.size() / 2)); s->dead = true; break;
        case SILENT: s->dead = true; break;
        case HUGE: push(s, bytes("\xff\xff", 2) + bytes(4000, 'x')); s->dead = true; break;
        case JUNK: push(s, frame("junkjunkjunkjunkjunk")); break;
        case WRONGID: { Msg w = a->q; w.id ^= 0x100; push(s, frame(encode(dns::answer(w, {rrA(w.qd[0].name, "6.6.6.6")})))); break; }
        case EMPTY: push(s, bytes("\0\0", 2)); break;
        case TWICE: push(s, ans + ans); good(now_ms); break;
        case TRICKLE: for (size_t i = 0; i < ans.size(); i++) push(s, ans.substr(i, 1), 900 * i); s->dead = true; break;
        case ONEBYTE_FIN: push(s, ans.substr(0, 1)); closing(s, 1, 50); break;
        }
    }
    void on_bytes(Srv *s)
    {
        for (;;) {
            if (s->proxy && s->stage == 0) { if (s->rx.size() < 3) { REQUIRE(bytes("\x05\x01\x00", 3).compare(0, s->rx.size(), s->rx) == 0, "bad SOCKS greeting %s", hex(s->rx).c_str()); return; } REQUIRE(s->rx.substr(0, 3) == bytes("\x05\x01\x00", 3), "bad SOCKS greeting %s", hex(s->rx).c_str()); s->rx.erase(0, 3); s->stage = 1; int h = hs(0); obs += 'a' + h; reply_hs(s, h, bytes("\x05\x00", 2)); }
            else if (s->proxy && s->stage == 1) {
                if (s->rx.empty()) return; REQUIRE(!s->dead, "the handshake went on after the proxy failed"); if (s->rx.size() < 5 || s->rx.size() < 7u + (s->rx[3] == 3 ? (unsigned char)s->rx[4] : 0)) return;
                REQUIRE(s->rx.substr(0, 3) == bytes("\x05\x01\x00", 3) && (s->rx[3] == 1 || s->rx[3] == 3), "bad SOCKS request %s", hex(s->rx).c_str()); size_t L;
                if (s->rx[3] == 3) { L = 7 + (unsigned char)s->rx[4]; s->target = s->rx.substr(5, L - 7) + ":" + std::to_string(g16(s->rx, L - 2)); } else { if (s->rx.size() < 10) return; L = 10; s->target = std::to_string((unsigned char)s->rx[4]) + "." + std::to_string((unsigned char)s->rx[5]) + "." + std::to_string((unsigned char)s->rx[6]) + "." + std::to_string((unsigned char)s->rx[7]) + ":" + std::to_string(g16(s->rx, 8)); }
                bool ok = false; if (ipv6_servers) { unsigned x, y, p; int n = 0; char t[64]; if (sscanf(s->target.c_str(), "64:ff9b::%x:%x:%u%n", &x, &y, &p, &n) == 3 && n == (int)s->target.size()) { snprintf(t, sizeof t, "%u.%u.%u.%u:%u", x >> 8, x & 255, y >> 8, y & 255, p); s->target = t; } } for (auto &a : servers) ok |= a == s->target; REQUIRE(ok, "the proxy is asked to connect to %s", s->target.c_str()); s->rx.erase(0, L); s->stage = 2; int h = hs(1); obs += 'a' + h; bytes rep("\x05\x00\x00\x01\x7f\x00\x00\x01\x12\x34", 10); if (h == H_V6) { rep = bytes("\x05\x00\x00\x04", 4) + bytes(16, '\x11') + bytes("\x00\x35", 2); h = H_OK; } if (h == H_NAME) { rep = bytes("\x05\x00\x00\x03\x0bproxy.local\x00\x35", 18); h = H_OK; } reply_hs(s, h, rep);
            } else { if (s->rx.size() < 2 || s->rx.size() < 2u + g16(s->rx, 0)) return; REQUIRE(!s->proxy || !s->dead, "a query was sent although the handshake failed"); bytes m = s->rx.substr(2, g16(s->rx, 0)); s->rx.erase(0, 2 + m.size()); on_frame(s, m); }
        }
    }
    void reply_hs(Srv *s, int h, bytes rep)
    {
        switch (h) {
        case H_SPLIT: for (size_t i = 0; i < rep.size(); i++) push(s, rep.substr(i, 1), 50 * i); break;
        case H_REFUSED: rep[1] = rep.size() == 2 ? '\xff' : '\x05'; push(s, rep); s->dead = true; break;
        case H_FIN: closing(s, 1); s->dead = true; break;
        case H_RST: closing(s, 2); s->dead = true; break;
        case H_SILENT: s->dead = true; break;
        case H_BAD: push(s, rep.size() == 2 ? bytes("\x04\x00", 2) : bytes("\x05\x00\x00\x09zzzzzz", 10)); s->dead = true; break;
        case H_FAIL: push(s, rep.substr(0, 1)); closing(s, 1, 50); s->dead = true; break;
        default: push(s, rep);
        }
    }
    // the environment acts, then 50 ms pass
    void pump()
    {
        for (int k = 0; k < 50; k++) {
            bool any = false; run();
            for (size_t i = 0; i < conns.size(); i++) { Conn *c = conns[i]; if (!c->outgoing) continue; Srv *&s = srv[c]; if (!s) { note("t=%lld connect %s", (long long)now_ms, c->peer.c_str()); s = new Srv; s->c = c; s->proxy = expecting_socks(c->peer); c->window = window; } if (now_ms < deaf_until) continue; if (!c->rx.empty()) s->last = now_ms; bytes b = tcp_take(c); if (b.size()) { note("t=%lld %s got %s", (long long)now_ms, c->peer.c_str(), hex(b).c_str()); s->rx += b; on_bytes(s); any = true; } }
            for (size_t i = 0; i < evs.size();) { if (evs[i].t <= now_ms) { Ev e = evs[i]; evs.erase(evs.begin() + i); any = true; if (e.what == 0) { if (!e.s->c->prog_closed && !e.s->c->rst && !e.s->c->eof) { tcp_push(e.s->c, e.b); e.s->last = now_ms; } } else { if (e.what == 1) tcp_eof(e.s->c); else e.s->c->rst = true; } run(); } else i++; }
            if (!any) break;
        }
        for (; seen < out.size(); seen++) { const Sent &o = out[seen]; if (o.dst.compare(0, 6, "9.9.9.")) continue; Ask *a = nullptr; for (auto &x : asks) if (x.from == o.dst) a = &x; REQUIRE(a, "reply to nobody"); REQUIRE(o.data == answer_of(a->q), "client got %s instead of the answer to %s", show(o.data).c_str(), str(a->q).c_str()); REQUIRE(++a->replies == 1, "client got two replies to one query"); REQUIRE(a->good, "client got an answer before the server sent it"); obs += '!'; }
    }
    void wait(int64_t ms) { int64_t e = now_ms + ms; pump(); while (now_ms < e) { advance(std::min<int64_t>(50, e - now_ms)); pump(); } }
    int ask(const char *nm = nullptr) { int n = asks.size(); Ask a; a.q = dns::query(40 + n, std::string(nm ? nm : "q" + std::to_string(n)) + ".org", A, n % 2); a.t = now_ms; a.from = "9.9.9." + std::to_string(1 + n % 250) + ":" + std::to_string(1000 + n); asks.push_back(a); udp_in(a.from, "127.0.0.1:53", encode(a.q)); pump(); return n; }
    // what must have happened by now
    void judge(int64_t stall)
    {
        for (auto &a : asks) { if (a.good && a.good_t - a.t < 1500 && now_ms - a.good_t > stall) REQUIRE(a.replies == 1, "query %s was answered by the server %lld ms after it was asked, but %lld ms later the client has no reply", str(a.q).c_str(), (long long)(a.good_t - a.t), (long long)(now_ms - a.good_t)); }
    }
    // a query in good conditions is answered within ms
    void probe(int64_t ms, const char *when) { conn_choice = [](const Addr &) { return 0; }; react = [](const Addr &, int) { return (int)WHOLE; }; hs = [](int) { return (int)H_OK; }; int n = ask(); int64_t t0 = now_ms; while (now_ms - t0 < ms && !asks[n].replies) wait(50); REQUIRE(asks[n].replies, "%s a query was not answered within %lld ms by a server that answers at once (forwarded %zu times)", when, (long long)ms, asks[n].seen.size()); obs += "p"; }
};
static const int64_t STALL = 8000;
// histories of queries, connection outcomes and server reactions
static void histories(int nq, bool proxy, const std::vector<int> &co, const std::vector<int> &re, const std::vector<int> &gaps, int nsrv, bool par)
{
    W5 w; w.proxy = proxy; if (proxy || nsrv > 1) w.slack = STALL; if (nsrv == 2) w.servers.push_back("2.2.2.2:5353"); w.par = par; w.start(); int budget = nq * 2;
    w.conn_choice = [&](const Addr &) { return budget-- > 0 ? co[choose(co.size(), "connect")] : co[0]; }; w.react = [&](const Addr &, int) { return budget-- > -2 ? re[choose(re.size(), "reaction")] : (int)WHOLE; };
    for (int i = 0; i < nq; i++) { w.ask(); w.wait(gaps[choose(gaps.size(), "gap")]); w.judge(STALL * nq); count_transitions(1); }
    w.probe(STALL * nq, "soon after the disturbances"); w.wait(13000); w.judge(STALL * nq); w.probe(1500, "long after the disturbances"); w.wait(3000);
    exec_done(w.obs);
}
// answers cut into segments everywhere, on fresh and on reused connections
static void segments()
{
    W5 w; int proxy = choose(2, "proxy"); w.proxy = proxy; w.start(); int id = choose(3, "size"); for (int i = 0; i < id; i++) w.asks.push_back({}), w.asks.back().from = "-" + std::to_string(i), w.asks.back().q = dns::query(1, "-", A);
    int step = choose(2, "reused"); if (step) { w.ask(); w.wait(800); w.asks.push_back({}); w.asks.back().q = dns::query(2, "-", A); w.asks.back().from = "--"; w.asks.push_back(w.asks.back()); }
    size_t L = frame(w.answer_of(dns::query(40 + w.asks.size(), "q" + std::to_string(w.asks.size()) + ".org", A))).size(); bool big = L > 400; size_t a = 1 + choose(big ? 40 : L - 1, "cut"); if (big) a = a < 20 ? a : L - 1 - (40 - a) * 11; std::vector<size_t> bs; for (size_t b = a; b < L; b += big ? 97 : 7) bs.push_back(b); size_t b = bs[choose(bs.size(), "cut2")]; int d = choose(2, "pause");
    w.react = [&](const Addr &, int) { return (int)SILENT; }; int n = w.ask(); w.wait(800); Ask &k = w.asks[n]; REQUIRE(k.seen.size() == 1, "forwarded %zu times", k.seen.size()); Srv *s = nullptr; for (auto &x : w.srv) if (x.second && x.second->frames) s = x.second; bytes f = frame(w.answer_of(k.q)); k.good = true; int64_t g = d ? 700 : 0;
    tcp_push(s->c, f.substr(0, a)); run(); w.wait(g); REQUIRE(!k.replies, "reply before the answer is complete"); if (b > a) { tcp_push(s->c, f.substr(a, b - a)); run(); w.wait(g); REQUIRE(!k.replies, "reply before the answer is complete"); } tcp_push(s->c, f.substr(b)); run(); w.pump();
    REQUIRE(k.replies == 1, "an answer cut at %zu and %zu was not relayed", a, b); s->dead = false; w.probe(1000, "after a cut answer"); exec_done(w.obs);
}
// a SOCKS proxy behaving in every way at both stages of the handshake
static void handshakes(int n)
{
    W5 w; w.proxy = true; w.slack = STALL; bool two = choose(2, "servers"); if (two) w.servers.push_back("2.2.2.2:5353"); w.par = choose(2, "parallel"); w.start(); int budget = n * 2; static const int CO[] = {0, 2, 4}; w.conn_choice = [&](const Addr &) { return budget > 0 ? CO[choose(3, "connect")] : 0; };
    w.hs = [&](int st) { return budget-- > 0 ? choose(st ? (int)NHS : (int)H_RST + 1, "handshake") : (int)H_OK; };
    for (int i = 0; i < n; i++) { w.ask(); w.wait(6000); w.judge(STALL); } w.probe(3 * STALL, "soon after proxy failures"); w.wait(13000); w.judge(STALL); w.probe(1500, "long after proxy failures"); exec_done(w.obs);
}
// concurrent queries
static void concurrent()
{
    W5 w; bool two = choose(2, "servers"); if (two) w.servers.push_back("2.2.2.2:5353"); w.par = choose(2, "parallel"); w.start(); int r1 = choose(NREACT, "first"), r2 = choose(NREACT, "second"), c1 = choose(2, "connect"), dl = choose(2, "apart"); int k = 0;
    w.conn_choice = [&](const Addr &) { return c1; }; w.react = [&](const Addr &, int) { k++; return k == 1 ? r1 : k == 2 ? r2 : (int)WHOLE; };
    w.ask(); if (dl) w.wait(100); w.ask(); w.ask(); bool slow = r1 == TRICKLE || r2 == TRICKLE || r1 == PARTIAL || r2 == PARTIAL; w.wait(slow ? 8600 : 3000); w.judge(slow ? STALL : 2000); w.probe(STALL, "soon after"); w.wait(13000); w.judge(STALL); w.probe(1500, "long after"); exec_done(w.obs);
}
// time between uses of a connection; retry when the server closes it
static void reuse()
{
    W5 w; static const int KEEP[] = {0, 1, 2, 5, 30}; w.keep = KEEP[choose(5, "keepalive")]; w.proxy = choose(2, "proxy"); w.start(); int r = choose(4, "server"); static const int GAP[] = {0, 400, 900, 1500, 2100, 2900, 3500, 5200, 6500, 8000, 29000, 32000}; int k = 0;
    w.react = [&](const Addr &, int f) { k++; return f == 1 ? (int)WHOLE : r == 0 ? (int)WHOLE : r == 1 ? (int)FIN : r == 2 ? (int)RST : (f == 2 ? (int)WHOLE : (int)FIN); };
    w.ask(); w.wait(GAP[choose(12, "gap1")]); w.ask(); w.wait(GAP[choose(12, "gap2")]); w.ask(); w.wait(3000);
    for (auto &a : w.asks) { REQUIRE(a.replies == 1, "query %s was not answered although the server answers every query on a fresh connection (forwarded %zu times)", str(a.q).c_str(), a.seen.size()); REQUIRE(a.seen.size() == 1 || r, "a query was sent %zu times", a.seen.size()); }
    // idle closing by the server
    bool idle = choose(2, "idle close"); if (idle) { for (auto &x : w.srv) if (x.second && !x.second->c->prog_closed) tcp_eof(x.second->c); w.wait(choose(2, "later") ? 300 : 0); } w.probe(1500, "after the server closed idle connections"); exec_done(w.obs + std::to_string(k));
}
// a server (or proxy) that reads slowly
static void windows()
{
    static const int WIN[] = {0, 1, 2, 3, 7, 20, 30, 100}; W5 w; w.proxy = choose(2, "proxy"); w.start(); w.window = WIN[choose(8, "window")]; w.deaf_until = choose(2, "deaf") ? 1200 : -1; int n = 1 + choose(3, "queries"); if (w.window == 0) w.deaf_until = 3000;
    for (int i = 0; i < n; i++) { w.ask(i == 1 ? "a.rather.long.name.that.needs.several.windows.of.the.server.to.get.through" : nullptr); w.wait(choose(2, "gap") ? 1000 : 0); } w.wait(4000); w.judge(3000);
    if (w.window >= 7 && w.deaf_until < 0) for (auto &a : w.asks) REQUIRE(a.replies == 1, "a query was not answered by a slowly reading server (forwarded %zu times)", a.seen.size());
    w.window = -1; for (auto c : conns) c->window = -1; w.probe(STALL * n, "after slow reading"); w.wait(13000); w.judge(STALL); w.probe(1500, "long after slow reading"); exec_done(w.obs);
}
void check_main()
{
    std::vector<int> allre; for (int i = 0; i < NREACT; i++) allre.push_back(i);
    explore("segments", segments);
    explore("reuse", reuse);
    explore("concurrent", concurrent);
    explore("windows", windows);
    explore("handshakes", [] { handshakes(g_thorough ? 3 : 2); });
    explore("ipv6", [&] { int f = choose(3, "family"); ipv6_clients = f != 1; ipv6_servers = f != 0; if (choose(2, "part")) concurrent(); else windows(); });
    explore("ipv6/histories", [&] { ipv6_servers = true; histories(2, choose(2, "proxy"), {0, 4}, {WHOLE, FIN, SILENT, TWICE}, {700, 3000}, 1, false); });
    explore("histories-1", [&] { histories(1, false, {0, 1, 2, 3, 4}, allre, {0, 3000}, 1, false); });
    explore("histories-2", [&] { histories(2, false, {0, 1, 2, 4}, allre, {0, 700, 3000}, 1, false); });
    explore("histories-3", [&] { histories(g_thorough ? 4 : 3, false, {0, 4}, {WHOLE, FIN, SILENT, PARTIAL, JUNK, TWICE, WHOLE_FIN}, {700, 3000}, 1, false); });
    explore("histories-proxy", [&] { histories(g_thorough ? 3 : 2, true, {0, 2, 4}, allre, {700, 3000}, 1, false); });
    explore("histories-par", [&] { histories(g_thorough ? 3 : 2, false, {0, 2, 4}, {WHOLE, FIN, SILENT, PARTIAL, WRONGID}, {700, 3000}, 2, true); });
    explore("histories-two", [&] { histories(g_thorough ? 3 : 2, false, {0, 2, 4}, {WHOLE, FIN, SILENT, PARTIAL, WRONGID}, {700, 3000}, 2, false); });
}
