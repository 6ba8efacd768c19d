// P11: lifetimes of cached records follow the configured rules.
#include "cache.h"
enum { ORIG, NOCACHE, FIXED, VARI };
struct Rule { std::string dom; int kind; uint64_t a, b; int inf; std::string text() const { static const char *I[] = {"", "$", "$$"}, *K[] = {"orig", "nocache", "fixed", "vari"}; std::string s = "CacheControl " + dom + " " + I[inf] + K[kind]; if (kind == FIXED) s += " " + std::to_string(b); if (kind == VARI) s += " " + std::to_string(a) + "x+" + std::to_string(b); return s + "\n"; } };
struct Rules { std::vector<Rule> v; // the last equal plain entry wins, plain before wildcard, longer before shorter
    static bool wild(const char *p, const char *s) { if (!*p) return !*s; if (*p == '*') return wild(p + 1, s) || (*s && wild(p, s + 1)); return *s && (*p == '?' || *p == *s) && wild(p + 1, s + 1); }
    const Rule *find(const std::string &name) const { for (std::string n = name;;) { for (size_t i = v.size(); i--;) { std::string d = dns::lower(v[i].dom); if (d[0] == '.') d.erase(0, 1); if (d.find_first_of("*?") == d.npos && d == n) return &v[i]; } size_t k = n.find('.'); if (k == n.npos) break; n.erase(0, k + 1); } for (auto &r : v) { std::string d = dns::lower(r.dom); if (d.find_first_of("*?") != d.npos && wild(d.c_str(), name.c_str())) return &r; } return nullptr; }
    uint64_t eff(const std::string &q, const std::string &owner, uint32_t ttl) const { const Rule *r = find(q), *own = find(owner), *u = !r ? own : r->inf == 0 ? r : own ? own : r->inf == 1 ? r : nullptr; if (!u || u->kind == ORIG) return ttl; if (u->kind == NOCACHE) return 0; return std::min<uint64_t>(u->kind == FIXED ? u->b : u->a * ttl + u->b, 0x7fffffff); } };
static std::string conf(const Rules &r, const char *opt, int mode) { std::string s = "LogOn false\nUseCache true\nMemoryCache true\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nUDPGroup 8.8.8.8 * off\n"; s += opt; if (mode & 1) s += "IgnoreTTL true\n"; if (mode & 2) s += "CacheParallel true\n"; for (auto &x : r.v) s += x.text(); return s; }
static Rule kindrule(const std::string &d, int k, int inf, int alt = 0) { switch (k) { case 0: return {d, FIXED, 0, (uint64_t)(alt ? 11 : 30), inf}; case 1: return {d, VARI, 2, 7, inf}; case 2: return {d, NOCACHE, 0, 0, inf}; case 3: return {d, ORIG, 0, 0, inf}; default: return {d, VARI, 0, 40, inf}; } }
static dns::Msg answer_to(const Sent &up, int shape, int k) { dns::Msg q; dns::decode(up.data, q); std::string n = q.qd[0].name; dns::Msg a; switch (shape) { case 0: a = dns::answer(q, {dns::rrName(5, n, "alias.b.net", 100), dns::rrName(5, "alias.b.net", "host.c.com", 50), crec("host.c.com", 1, 1 + k, 20), crec("host.c.com", 1, 2 + k, 20)}); break; case 1: a = dns::answer(q, {crec(n, 1, 1 + k, 100), crec(n, 1, 2 + k, 50)}); break; case 2: a = dns::answer(q, {crec(n, 1, 1 + k, 20)}); a.ns = {dns::rrName(2, "a.org", "host.c.com", 100)}; a.ar = {crec("host.c.com", 1, 4, 50)}; break; default: a = dns::answer(q, {dns::rrName(5, n, "alias.b.net", 20), crec("alias.b.net", 1, 1 + k, 100)}); } return a; }
static const char *PN[] = {"www.a.org", "alias.b.net", "host.c.com"};
static void probes(CWorld &w) { uint64_t h0 = w.hits; for (auto n : PN) { w.ask(n, 1, w.id & 1, nullptr); w.ask(n, 5, w.id & 1, nullptr); } w.ask("a.org", 2, false, nullptr); w.obs += char('0' + w.hits - h0); }
static const int64_t TS[] = {0, 5000, 9500, 10000, 11000, 12500, 18500, 20000, 21500, 28500, 30000, 31500, 38500, 40000, 41500, 45500, 47000, 48500, 50000, 51500, 58500, 60000, 61500, 98500, 100000, 101500, 105500, 107000, 108500, 148500, 150000, 151500, 205500, 207000, 208500, 298500, 300000, 301500, 598500, 600000, 601500, 606000};
static void history(Rules R, const char *opt, int mode, int shape) {
    CWorld w; std::string c = conf(R, opt, mode); note("%s", c.c_str()); w.obs = c; boot(c); int over = -1, mul = 1; sscanf(opt, "OverrideTTL %d", &over); if (const char *m = strstr(opt, "MultipleTTL")) sscanf(m, "MultipleTTL %d", &mul); if (over > -1) R.v.push_back({"*", FIXED, 0, (uint64_t)over, 0}); else if (mul > 1) R.v.push_back({"*", VARI, (uint64_t)mul, 0, 0});
    w.M.ignore_ttl = mode & 1; w.M.parallel = mode & 2; w.M.eff = [R](const std::string &q, const std::string &o, uint32_t t) { return R.eff(q, o, t); }; advance(300); Sent up;
    auto ask = [&](const char *n, int t, int sh, int k) { if (!w.ask(n, t, false, &up)) { dns::Msg a = answer_to(up, sh, k); w.reply(up, a); w.M.add(a); } };
    ask("www.a.org", 1, shape, 0); int64_t t = 0; for (int64_t x : TS) { advance(x - t); t = x; probes(w); if (x == 61500) { ask("www.a.org", 1, shape, 5); ask("host.c.com", 1, 1, 5); probes(w); } } exec_done(w.obs); }
static const char *OPT[] = {"OverrideTTL -1\n", "OverrideTTL -1\nMultipleTTL 3\n", "OverrideTTL 600\n", "OverrideTTL 0\n", "OverrideTTL 10\nMultipleTTL 3\n", ""};
// rules of every type and contagion for the name asked for, with independent rules for the names it leads to
static void contagion() { Rules R; int k = choose(6, "rule"); if (k < 5) R.v.push_back(kindrule("www.a.org", k, choose(3, "contagion"))); int o = choose(4, "own"); if (o) { R.v.push_back(kindrule("alias.b.net", o - 1, g_thorough ? choose(3, "contagion2") : o - 1, 1)); } if (g_thorough ? choose(2, "own3") : o == 2) R.v.push_back({"host.c.com", FIXED, 0, 40, 0}); int op = choose(g_thorough ? 6 : 3, "option"); history(R, OPT[op], choose(g_thorough ? 4 : 2, "mode"), choose(g_thorough ? 4 : 2, "shape") * (g_thorough ? 1 : 3)); }
// how rules are matched to names
static void matching() { static const char *D[] = {"www.a.org", "a.org", "org", "WWW.A.ORG", ".a.org", "*.a.org", "?ww.a.org", "*", "w.a.org", "ww.a.org", "www.a.or", "b.org", "www.a.org.x", "*.org.x", "A.org", "com", "C.COM", "*.c.*"}; int n = sizeof D / sizeof *D; Rules R; int a = choose(n, "domain"); R.v.push_back({D[a], FIXED, 0, 30, choose(2, "contagion") * 2}); int b = choose(n + 1, "domain2"); if (b) R.v.push_back({D[b - 1], VARI, 2, 7, 0}); auto amb = [&](const std::string &x) { return x.find_first_of("*?") != x.npos; }; if (b && amb(D[a]) && amb(D[b - 1])) { exec_done("two wildcards"); return; } history(R, OPT[0], 0, choose(2, "shape") * 2); }
static void options() { history({}, OPT[choose(6, "option")], choose(4, "mode"), choose(4, "shape")); }
// large results do not wrap around
static void large() { static const Rule L[] = {{"a.org", VARI, 70000, 5, 0}, {"a.org", VARI, 2, 4294967200u, 0}, {"a.org", VARI, 4294967295u, 4294967295u, 0}, {"a.org", VARI, 4294968, 0, 0}, {"a.org", FIXED, 0, 2147483647, 0}}; static const uint32_t T[] = {1000000, 1, 1000, 2147483647}; Rules R; R.v.push_back(L[choose(5, "rule")]); uint32_t ttl = T[choose(4, "ttl")]; uint64_t want = R.eff("a.org", "a.org", ttl); CWorld w; boot(conf(R, OPT[0], 0)); Sent up; REQUIRE(!w.ask("a.org", 1, false, &up), "answered before any answer arrived"); dns::Msg q; dns::decode(up.data, q); w.reply(up, dns::answer(q, {crec("a.org", 1, 1, ttl)})); uint32_t last = 0xffffffffu;
    for (int i = 0; i < 4; i++) { dns::Msg x = dns::query(7 + i, "a.org", 1); size_t n = out.size(); udp_in("9.9.9.1:1111", "127.0.0.1:53", dns::encode(x)); run(); count_eval(1); dns::Msg m; REQUIRE(out.size() == n + 1, "no reply or query"); REQUIRE(out[n].dst != "8.8.8.8:53", "record with lifetime %llu was forwarded after %d s", (unsigned long long)want, i * 70); REQUIRE(dns::decode(out[n].data, m) && m.an.size() == 1, "bad reply"); uint64_t got = m.an[0].ttl; REQUIRE(got + i * 70 + 1 >= want && got <= last, "lifetime %llu is shown as %llu after %d s, previously %u", (unsigned long long)want, (unsigned long long)got, i * 70, last); if (want < 0x7fffffff) REQUIRE(got <= want - i * 70 + 1, "lifetime %llu is shown as %llu", (unsigned long long)want, (unsigned long long)got); last = got; advance(70000); } exec_done(std::to_string(want)); }
void check_main() { explore("options", [] { options(); }); explore("large", [] { large(); }); explore("matching", [] { matching(); }); explore("contagion", [] { contagion(); }); }
