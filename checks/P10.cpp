// P10: every answer from the cache is exactly the set of still valid records received; everything else is forwarded.
#include "cache.h"
static const int TY[] = {1, 28, 5, 16, 15, 2, 12, 65, 6, 255};
static const char *NM[] = {"a.org", "b.org", "x.a.org", "A.org", "c1.a.org"};
static std::string conf(int k) { static const char *C[] = {"MemoryCache true\n", "MemoryCache false\nCacheFile %s\n", "MemoryCache true\nCacheParallel true\n", "MemoryCache true\nCacheSize 102400\n"}; char b[512]; std::string f = path("cache.bin"); snprintf(b, sizeof b, C[k], f.c_str()); return std::string("LogOn false\nUseCache true\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nUDPGroup 8.8.8.8 * off\nOverrideTTL -1\n") + b; }
enum { NV = 17 };
static dns::Msg mk(const dns::Msg &q, int v) {
    std::string n = q.qd[0].name; int t = q.qd[0].type; std::vector<dns::RR> an, ar, ns; int rc = 0; bool tc = false; auto R = [&](const std::string &o, int k, uint32_t ttl = 100) { return crec(o, t, k, ttl); };
    switch (v) { case 0: an = {R(n, 1)}; break; case 1: an = {R(n, 2), R(n, 1), R(n, 3)}; break; case 2: an = {dns::rrName(5, n, "b.org", 100), R("b.org", 1), R("b.org", 2)}; break; case 3: an = {dns::rrName(5, n, "b.org", 50)}; break; case 4: rc = 3; ns = {crec("org", 6, 0, 100)}; break; case 5: an = {R(n, 1)}; ns = {dns::rrName(2, "org", "b.org", 100)}; ar = {crec("b.org", 1, 7, 100), crec("b.org", 28, 7, 100)}; break;
    case 6: an = {R(n, 1, 5), R(n, 2, 100)}; break; case 7: an = {dns::rrName(5, n, n, 100)}; break; case 8: an = {dns::rrName(5, n, "b.org", 100), dns::rrName(5, "b.org", n, 100)}; break; case 9: an = {R("y.net", 1), dns::rrName(5, "b.org", "y.net", 100), dns::rrName(5, n, "b.org", 30)}; break; case 10: an = {R(n, 1)}; tc = true; break; case 11: an = {R(n, 1, 0), R(n, 2, 100)}; break;
    case 12: { dns::RR l = R(n, 1); l.type = 16; l.rdata.clear(); for (int i = 0; i < 5; i++) l.rdata += bytes(1, (char)200) + bytes(200, (char)('a' + i)); dns::RR s = crec(n, 16, 1, 100); an = {s, l}; break; } case 13: an = {R(n, 1), R(n, 1), R(n, 2)}; break; case 14: { dns::RR c = R(n, 1); c.klass = 3; an = {c, R(n, 2)}; break; } case 15: for (int k = 0; k < 40; k++) { dns::RR r = crec(n, 1, k, 100); an.push_back(r); } break; case 16: an = {R(n, 1, 60)}; ar = {dns::opt()}; break; }
    dns::Msg a = dns::answer(q, an, rc); a.ns = ns; a.ar = ar; if (tc) a.flags |= 0x0200; return a; }
static void fill(CWorld &w, int ni, int ti, int v) { Sent up; if (w.ask(NM[ni], TY[ti], false, &up)) { w.obs += "h"; return; } dns::Msg q; dns::decode(up.data, q); dns::Msg a = mk(q, v); w.reply(up, a, v & 1); if (!(a.flags & 0x0200)) w.M.add(a); w.obs += "m"; }
static void probes(CWorld &w) { uint64_t h0 = w.hits; for (auto n : NM) for (int t : TY) w.ask(n, t, (t + w.id) & 1, nullptr); w.obs += std::to_string(w.hits - h0); }
static const int DT[] = {0, 4400, 6500, 31000, 61500, 98000, 102500};
static void one() { CWorld w; int c = choose(4, "config"); boot(conf(c)); w.M.parallel = c == 2; advance(c ? 300 : choose(2, "phase") * 700); fill(w, choose(5, "name"), choose(10, "type"), choose(NV, "variant")); probes(w); int64_t t = 0; for (int d : DT) { advance(d - t); t = d; probes(w); } exec_done(w.obs); }
static void two(int nt2, int nv2) { static const int V2[] = {0, 2, 3, 1, 5, 9, 6, 8, 10, 12}; static const int T2[] = {0, 2, 3, 1, 6}; static const int D[] = {0, 70000, 130000, 40000}; CWorld w; int c = choose(g_thorough ? 4 : 1, "config"); boot(conf(c)); w.M.parallel = c == 2; fill(w, choose(3, "name"), choose(g_thorough ? 10 : 3, "type"), choose(NV, "variant")); advance(D[choose(g_thorough ? 4 : 2, "gap")]); fill(w, choose(g_thorough ? 3 : 2, "name2"), T2[choose(nt2, "type2")], V2[choose(nv2, "variant2")]); probes(w); advance(45000); probes(w); advance(50000); probes(w); exec_done(w.obs); }
// histories of chains: three names, alias answers in every combination
static void chains() { CWorld w; boot(conf(0)); int n = 3; static const char *N[] = {"a.org", "b.org", "c.org"}; for (int i = 0; i < n; i++) { int k = choose(3, "name"), v = choose(g_thorough ? 5 : 4, "target"); Sent up; if (!w.ask(N[k], 1, false, &up)) { dns::Msg q; dns::decode(up.data, q); uint32_t ttl = (g_thorough ? choose(2, "ttl") : v & 1) ? 40 : 100; dns::Msg a = dns::answer(q, {v < 3 ? dns::rrName(5, N[k], N[v], ttl) : crec(N[k], 1, v, ttl)}); w.reply(up, a); w.M.add(a); } advance(choose(2, "pause") * 45000); } for (int d = 0; d < 3; d++) { for (auto x : N) { w.ask(x, 1, true, nullptr); w.ask(x, 5, false, nullptr); w.ask(x, 28, false, nullptr); } advance(30000); } exec_done(w.obs + std::to_string(w.hits)); }
// answers nobody waits for: late, repeated, of another server, with another ID or question; their records are not stored (CacheParallel off)
static void unasked() {
    int g = choose(3, "group"), kind = choose(7, "kind"), when = choose(3, "when"), memo = choose(2, "records"); CWorld w; on_connect = [](const Addr &, int64_t *d) { *d = 0; return (int)ACCEPT; };
    boot(std::string("LogOn false\nUseCache true\nMemoryCache true\nCacheParallel false\nOverrideTTL -1\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\n") + (g == 0 ? "UDPGroup 8.8.8.8 * off\n" : g == 1 ? "UDPGroup 8.8.8.8,9.8.8.8 * on\n" : "TCPGroup 8.8.8.8 * off no\n")); advance(300);
    struct In { bytes q; Sent s; Conn *c = nullptr; }; std::vector<In> in; size_t seen = 0; std::vector<bytes> rep; std::map<Conn *, bytes> tb; int id = 500;
    auto drain = [&] { run(); for (; seen < out.size(); seen++) if (out[seen].dst.find("8.8.8:53") != std::string::npos) { In x; x.q = out[seen].data; x.s = out[seen]; in.push_back(x); } else rep.push_back(out[seen].data); for (size_t k = 0; k < conns.size(); k++) { Conn *c = conns[k]; if (!c->outgoing || c->prog_closed) continue; bytes &b = tb[c]; b += tcp_take(c); while (b.size() >= 2 && b.size() >= 2u + dns::g16(b, 0)) { In x; x.q = b.substr(2, dns::g16(b, 0)); x.c = c; b.erase(0, 2 + x.q.size()); in.push_back(x); } } };
    auto ask = [&](const char *n) { udp_in("9.9.9.1:1111", "127.0.0.1:53", dns::encode(dns::query(id++, n, 1))); for (int i = 0; i < 5; i++) { drain(); if (g == 2) advance(100); } drain(); };
    auto give = [&](const In &x, const bytes &b) { if (x.c) { if (x.c->prog_closed) return; bytes f; dns::p16(f, b.size()); tcp_push(x.c, f + b); } else udp_reply(x.s, b); drain(); };
    auto ans = [&](const bytes &q, int k, const char *name = nullptr, int type = 0, int dx = 0) { dns::Msg m; dns::decode(q, m); m.id += dx; if (name) m.qd[0].name = name; if (type) m.qd[0].type = type; dns::Msg a = dns::answer(m, {crec(m.qd[0].name, m.qd[0].type, k, 100)}); if (memo && k > 1) a.ar = {crec("other.org", 1, k, 100)}; return dns::encode(a); };
    ask("www.org"); REQUIRE(in.size() == (g == 1 ? 2u : 1u) && rep.empty(), "the query was forwarded %zu times", in.size()); In a = in[0], b = in.back(); auto odd = [&] { bytes x; switch (kind) { case 0: x = ans(a.q, 2); break; case 1: x = ans(b.q, 2); break; case 2: x = ans(a.q, 2, nullptr, 0, 1); break; case 3: x = ans(a.q, 2, "wwx.org"); break; case 4: x = ans(a.q, 2, nullptr, 28); break; case 5: x = ans(b.q, 2, "other.org", 0, 256); break; default: x = ans(b.q, 2, "www.org.x"); } give(kind == 1 || kind > 4 ? b : a, x); };
    bool late = kind < 2; if ((late || (g == 2 && kind == 4)) && when == 0) when = 1; // an answer to the query itself counts when it comes first (over TCP one with its ID and name ends the wait on that connection)
    if (when == 0) odd(); size_t r0 = rep.size(); REQUIRE(r0 == 0, "an answer to something else was relayed"); bytes good = ans(a.q, 1); give(a, good); REQUIRE(rep.size() == 1 && rep[0] == good, "the answer was not relayed"); rep.clear();
    if (when == 2) advance(3000); if (when) odd(); REQUIRE(rep.empty(), "a second reply"); count_eval(1); const char *P[] = {"www.org", "other.org", "wwx.org", "www.org.x"};
    for (int r = 0; r < 2; r++) { for (auto n : P) for (int t : {1, 28}) { size_t n0 = in.size(); rep.clear(); udp_in("9.9.9.1:1111", "127.0.0.1:53", dns::encode(dns::query(id++, n, t))); for (int i = 0; i < 5; i++) { drain(); if (g == 2) advance(100); } count_eval(1); bool first = n == P[0] && t == 1; if (first) { REQUIRE(in.size() == n0 && rep.size() == 1, "%s is not answered from the cache", n); dns::Msg m; REQUIRE(dns::decode(rep[0], m) && m.an.size() == 1 && m.an[0].rdata == crec(n, 1, 1, 100).rdata, "%s is answered from the cache with records of an answer nobody was waiting for: %s", n, dns::show(rep[0]).c_str()); } else REQUIRE(rep.empty() && in.size() > n0, "%s/%d is answered from the cache with records of an answer nobody was waiting for: %s", n, t, rep.empty() ? "" : dns::show(rep[0]).c_str()); } advance(4000); }
    exec_done(std::to_string(g) + std::to_string(kind) + std::to_string(when)); }
void check_main()
{
    explore("one", [] { one(); });
    explore("two", [] { two(g_thorough ? 5 : 2, g_thorough ? 10 : 4); });
    explore("chains", [] { chains(); });
    explore("unasked", [] { unasked(); });
}
