// P12: the record store stays consistent and bounded for every history.
#include "cache.h"
static std::string conf(int file) { char b[512]; std::string f = path("cache.bin"); snprintf(b, sizeof b, file ? "MemoryCache false\nCacheFile %s\n" : "MemoryCache true\n", f.c_str()); return std::string("LogOn false\nUseCache true\nCacheSize 102400\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nUDPGroup 8.8.8.8 * off\nOverrideTTL -1\n") + b; }
// record classes: size of data, number of records of a set
struct Cls { int type; size_t data; int set; int per; };
static const Cls CL[] = {{1, 4, 1, 40}, {16, 90, 1, 20}, {16, 440, 1, 7}, {16, 60, 3, 12}, {28, 16, 1, 40}, {16, 105, 1, 20}};
static dns::RR rec(const std::string &n, const Cls &c, int k, uint32_t ttl) { dns::RR r; r.name = n; r.type = c.type; r.ttl = ttl; if (c.type != 16) { r.rdata = bytes(c.data - 1, (char)k) + bytes(1, n[1]); return r; } size_t left = c.data; while (left > 1) { size_t l = std::min<size_t>(left - 1, 200); r.rdata += (char)l; for (size_t i = 0; i < l; i++) r.rdata += (char)('a' + (k * 7 + i + n[3] + n[2]) % 26); left -= l + 1; } return r; }
struct Name { std::string n; const Cls *c; uint32_t ttl; bool live; int set; };
struct Full { CWorld w; std::vector<Name> names; int serial = 0;
    int state(const Name &n) { auto v = w.M.find(n.n, n.c->type); if (v.size() != (size_t)n.c->set) return v.empty() ? 0 : 2; for (auto *r : v) if (w.M.state(*r) == 2) return 2; return 1; }
    // store a batch of names, the first of them by asking for it
    int batch(const Cls &c, std::function<uint32_t(int)> ttl) { Sent up; char b[32]; size_t first = names.size(); int n = c.per / c.set; for (int i = 0; i < n; i++, serial++) { snprintf(b, sizeof b, "r%05d.x.org", serial); names.push_back({b, &c, ttl(serial), false, 0}); } if (w.ask(names[first].n, c.type, false, &up)) fail("%s was never received but answered", names[first].n.c_str()); dns::Msg q, a; dns::decode(up.data, q); a = dns::answer(q, {}); for (size_t i = first; i < names.size(); i++) for (int k = 0; k < c.set; k++) (i == first ? a.an : a.ar).push_back(rec(names[i].n, c, k + 1, names[i].ttl)); w.reply(up, a); w.M.add(a); int hits = 0; for (size_t i = first; i < names.size(); i++) { names[i].live = w.ask(names[i].n, c.type, false, nullptr, false); hits += names[i].live; } return hits; }
    int fill(const Cls &c, std::function<uint32_t(int)> ttl) { int n = 0, zero = 0; for (int i = 0; i < 400 && zero < 2; i++) { int h = batch(c, ttl); n += h; zero = h ? 0 : zero + 1; } w.obs += "+" + std::to_string(n); return n; }
    // every record once served is served until it expires, and none after
    int verify() { int n = 0; size_t total = 0; for (auto &x : names) if (x.live) { int s = state(x); bool hit = w.ask(x.n, x.c->type, true, nullptr, false); if (s == 1 && !hit) fail("%s was in the cache and is lost before its expiry", x.n.c_str()); if (s == 0 && hit) fail("%s is served after its expiry", x.n.c_str()); if (!hit) x.live = false; else { n++; total += x.c->set * (x.c->data + x.n.size()); } } REQUIRE(total <= 102400, "more than the configured size is stored: %zu bytes", total); for (auto it = names.begin(); it != names.end();) if (!it->live) it = names.erase(it); else ++it; w.obs += "=" + std::to_string(n); count_states(1); return n; } };
static size_t cap(const Cls &c) { size_t item = 1 + 12 + 6 + c.data + 2; return (102400 - 400) / (((item + 15) / 16 * 16 + 16 + 40) * c.set); }
static void full(int na) { Full f; int ai = choose(na, "class"), bi = choose(na, "class2"), pat = choose(7, "expiry pattern"), file = g_thorough ? choose(2, "file") : 0; const Cls &A = CL[ai], &B = CL[bi]; boot(conf(file)); advance(300); size_t ca = cap(A);
    auto ttl = [&](int i) -> uint32_t { bool l = false; switch (pat) { case 0: break; case 1: l = i & 1; break; case 2: l = i == 0; break; case 3: l = i >= (int)ca * 9 / 10; break; case 4: l = i < (int)ca / 2; break; case 5: l = i >= (int)ca / 2; break; case 6: l = i % 3 == 1; } return l ? 4000 : 900; };
    int k = f.fill(A, ttl); REQUIRE(k * 10 >= (int)ca * 8, "only %d of about %zu records fit into an empty cache", k, ca); int n = f.verify(); REQUIRE(n == k, "harness: %d %d", n, k); int lng = 0; for (auto &x : f.names) lng += x.ttl == 4000;
    advance(900000 + 125000); n = f.verify(); REQUIRE(n == lng, "%d records left instead of %d", n, lng); int k2 = f.fill(A, [](int) { return 1000; }); REQUIRE(k2 >= (k - lng) * 8 / 10, "only %d of %d places of expired records became usable again", k2, k - lng); f.verify(); f.batch(B, [](int) { return 5000; }); f.verify();
    advance(1000000 + 125000); f.verify(); f.fill(B, [](int) { return 700; }); f.verify(); advance(5200000); n = f.verify(); REQUIRE(n == 0, "%d records never expire", n);
    k = f.fill(B, [](int i) { return i & 1 ? 100 : 50; }); REQUIRE(k * 10 >= (int)cap(B) * 8, "all records expired, but only %d of about %zu new records fit", k, cap(B)); f.verify(); advance(300000); f.verify(); k = f.fill(A, [](int) { return 50; }); REQUIRE(k * 10 >= (int)ca * 8, "all records expired again, but only %d of about %zu new records fit", k, ca); f.verify(); f.w.obs += std::to_string(pat); exec_done(f.w.obs); }
// all short histories of additions and pauses far from being full
static void ops(int depth) { Full f; boot(conf(g_thorough ? choose(2, "file") : 0)); advance(300); std::string hist; for (int d = 0; d < depth; d++) { int o = choose(8, "operation"); hist += char('0' + o); char b[32]; count_transitions(1); if (o >= 6) { advance(o == 6 ? 65000 : 25000); for (auto &x : f.names) { Sent up; f.w.ask(x.n, x.c->type, d & 1, &up); } } else { static const int C[] = {0, 2, 3}; const Cls &c = CL[C[o % 3]]; snprintf(b, sizeof b, "r%05d.x.org", f.serial++); Sent up; if (f.w.ask(b, c.type, false, &up)) fail("%s was never received", b); dns::Msg q; dns::decode(up.data, q); dns::Msg a = dns::answer(q, {}); for (int k = 0; k < c.set; k++) a.an.push_back(rec(b, c, k + 1, o < 3 ? 80 : 30)); f.w.reply(up, a); f.w.M.add(a); f.names.push_back({b, &c, 0, true, 0}); } } for (int r = 0; r < 2; r++) { for (auto &x : f.names) f.w.ask(x.n, x.c->type, false, nullptr); advance(28000); } exec_done(hist + std::to_string(f.w.hits)); }
// a full cache with names that share hash slots; records added while others expire in between
static void churn() { Full f; boot(conf(0)); advance(300); int ai = choose(4, "class"), mix = choose(4, "mix"); for (int round = 0; round < (g_thorough ? 40 : 14); round++) { for (int i = 0; i < 12; i++) f.batch(CL[(ai + (round & 1) * mix) % 4], [&](int s) { return 40 + 60 * ((s * 7 + round) % 5); }); f.verify(); advance(47000); if (round & 1) f.verify(); } exec_done(f.w.obs); }
// records of four lengths fill the store; once all have expired, as many of every length fit again, in whatever order they come
static void mixed() { Full f; int p1 = choose(24, "order of lengths"), p2 = choose(g_thorough ? 24 : 4, "order after that"), il = choose(g_thorough ? 3 : 2, "interleaving"); boot(conf(g_thorough ? choose(2, "file") : 0)); advance(300); static const int C[] = {0, 1, 2, 5}; auto perm = [](int k) { std::vector<int> s = {0, 1, 2, 3}; while (k--) std::next_permutation(s.begin(), s.end()); return s; };
    int64_t anchor = -1; auto put = [&](const std::vector<int> &cls) { for (size_t b = 0; b < cls.size();) { Sent up; size_t first = f.names.size(), size = 0; for (; b < cls.size() && f.names.size() - first < 16 && size < 3000; b++, f.serial++) { char nm[32]; snprintf(nm, sizeof nm, "r%05d.x.org", f.serial); f.names.push_back({nm, &CL[cls[b]], f.serial == anchor ? 9000u : 300u, false, 0}); size += CL[cls[b]].data + 40; } if (f.w.ask(f.names[first].n, f.names[first].c->type, false, &up)) fail("%s was never received but answered", f.names[first].n.c_str()); dns::Msg q; dns::decode(up.data, q); dns::Msg a = dns::answer(q, {}); for (size_t i = first; i < f.names.size(); i++) (i == first ? a.an : a.ar).push_back(rec(f.names[i].n, *f.names[i].c, 1, f.names[i].ttl)); f.w.reply(up, a); f.w.M.add(a); for (size_t i = first; i < f.names.size(); i++) f.names[i].live = f.w.ask(f.names[i].n, f.names[i].c->type, false, nullptr, false); } };
    auto s = perm(p1); std::vector<int> seq; int n[6] = {0};
    if (il == 0) for (int i = 0; i < 800; i++) seq.push_back(C[s[i % 4]]); else if (il == 1) for (int k = 0; k < 4; k++) seq.insert(seq.end(), 100, C[s[k]]); else for (int i = 0; i < 800; i++) seq.push_back(C[s[i / 7 % 4]]);
    size_t sum = 0; for (size_t i = 0; i < seq.size() && anchor < 0; i++) { sum += CL[seq[i]].data + 90; if (sum > 80000) anchor = i; }
    put(seq); for (auto &x : f.names) if (x.live && x.ttl == 300) n[x.c - CL]++; f.verify();
    for (int round = 0; round < 4; round++) { advance(300000 + 125000); int left = f.verify(); REQUIRE(left == 1, "%d records are left where 1 lives", left); auto o = perm((p1 * (round + 1) + 7 * p2 + 5 * round) % 24); seq.clear(); if (round & 1) { int m[6]; std::copy(n, n + 6, m); for (bool any = true; any;) { any = false; for (int k = 0; k < 4; k++) if (m[C[o[k]]] > 0) { m[C[o[k]]]--; seq.push_back(C[o[k]]); any = true; } } } else for (int k = 0; k < 4; k++) seq.insert(seq.end(), n[C[o[k]]], C[o[k]]); put(seq); int bad[6] = {0}, t = 0; for (auto &x : f.names) { t++; if (!x.live) bad[x.c - CL]++; } t--; for (int k = 0; k < 4; k++) REQUIRE(bad[C[k]] == 0, "all %d records expired, but %d of %d records of %zu bytes do not fit any more (round %d)", t, bad[C[k]], n[C[k]], CL[C[k]].data, round); f.verify(); } f.w.obs += std::to_string(p1); exec_done(f.w.obs); }
void check_main() { explore("mixed", [] { mixed(); }); explore("ops", [] { ops(g_thorough ? 6 : 5); }); explore("full", [] { full(g_thorough ? 6 : 4); }); explore("churn", [] { churn(); }); }
