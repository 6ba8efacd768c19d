// P13: a persisted cache survives restarts and is never trusted when unusable.
#include "cache.h"
#include "crash.h"
#include <sstream>
static std::string conf(bool reload, bool over, int size = 102400, const char *more = "") { char b[512]; std::string f = path("cache.bin"); snprintf(b, sizeof b, "MemoryCache false\nCacheFile %s\nCacheSize %d\nReloadCache %s\nOverwriteCache %s\n%s", f.c_str(), size, reload ? "true" : "false", over ? "true" : "false", more); return std::string("LogOn false\nUseCache true\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nUDPGroup 8.8.8.8 * off\nOverrideTTL -1\n") + b; }
static const struct { int type, set; size_t data; } CL[] = {{1, 1, 4}, {16, 2, 60}, {5, 1, 0}, {16, 1, 300}};
static dns::Msg make(const dns::Msg &q, int c, uint32_t ttl) { dns::Msg a = dns::answer(q, {}); std::string n = q.qd[0].name; for (int k = 0; k < CL[c].set; k++) { dns::RR r; r.name = n; r.type = CL[c].type; r.ttl = ttl; if (r.type == 1) r.rdata = bytes("\x0a\x01", 2) + bytes(1, n[1]) + bytes(1, n[2]); else if (r.type == 5) r.rdata = dns::ename("to-" + n); else { size_t left = CL[c].data; while (left > 1) { size_t l = std::min<size_t>(left - 1, 200); r.rdata += (char)l + bytes(l, (char)(n[1] + k)); left -= l + 1; } } a.an.push_back(r); } return a; }
struct Life { CWorld w; std::vector<std::pair<std::string, int>> names; int serial; bool strict = false;
    Life(int s = 0) : serial(s) { w.M.multi = true; w.M.partial_ok = true; }
    void learn(const std::string &n, int type, int c, uint32_t ttl) { Sent up; if (!w.ask(n, type, false, &up, strict)) { dns::Msg q; dns::decode(up.data, q); dns::Msg a = make(q, c, ttl); w.reply(up, a); w.M.add(a); } }
    void op(int o) { char b[32]; if (o == 8) { advance(65000); return; } if (o == 9) { advance(20000); return; } int c = o % 4; snprintf(b, sizeof b, "n%c%c.org", 'a' + serial / 20, 'a' + serial % 20); serial++; names.push_back({b, CL[c].type}); learn(b, CL[c].type, c, o < 4 ? 50 : 400); }
    int lookup(bool must) { int h = 0; for (auto &x : names) { bool hit = w.ask(x.first, x.second, h & 1, nullptr, must); h += hit; } return h; } };
static const int PRE[][8] = {{-1}, {0, 4, 1, 5, -1}, {4, 1, 6, 3, 7, 8, -1}, {1, 1, 5, 0, 0, 4, 8, -1}, {0, 1, 2, 3, 8, 4, -1}, {5, 2, 5, 2, 7, 8, 1, -1}, {3, 3, 3, 7, 8, 3, 8, -1}};
enum { NPRE = 7 };
// text form of what was received so far
static void save(const CModel &m) { std::string s; for (auto &r : m.recs) { char b[128]; snprintf(b, sizeof b, " %d %u %lld ", r.type, r.ttl, (long long)r.added); s += r.owner + b + (r.rdata.empty() ? "-" : dns::hex(r.rdata)) + "\n"; } REQUIRE(s.size() < sizeof crash::L->text, "harness: text"); memcpy(crash::L->text, s.data(), s.size()); crash::L->textn = s.size(); }
static bytes unhex(const std::string &h) { bytes b; if (h == "-") return b; for (size_t i = 0; i + 1 < h.size(); i += 2) b += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16); return b; }
static void load(CModel &m) { std::istringstream is(std::string(crash::L->text, crash::L->textn)); std::string o, h; int t; uint32_t ttl; long long ad; while (is >> o >> t >> ttl >> ad >> h) m.recs.push_back({o, t, unhex(h), ttl, ad}); }
static void load_names(Life &l) { std::set<std::pair<std::string, int>> s; for (auto &r : l.w.M.recs) s.insert({r.owner, r.type}); for (auto &x : s) l.names.push_back(x); }
// first life: the prefix, then the last operation with its stores recorded
static void first_life(const int *pre, std::vector<int> ops, bool rec_boot, const char *more, bool final_exit, int64_t *t_end) {
    subrun([=] { Life l; if (!final_exit) { if (rec_boot) { sim_hook_map = [](void *p, size_t n) { crash::start(p, n); }; } } boot(conf(false, false, 102400, more)); advance(300); crash::stop(); if (rec_boot) { crash::L->textn = 0; *t_end = now_ms; return; }
        for (int i = 0; pre[i] >= 0; i++) l.op(pre[i]); void *p; size_t n; REQUIRE(map_region(&p, &n), "the cache file is not mapped");
        for (size_t i = 0; i < ops.size(); i++) { if (i + 1 == ops.size() && !final_exit) crash::start(p, n); l.op(ops[i]); } if (final_exit) { shutdown_exit(); bytes f = read_file("cache.bin"); REQUIRE(f.size() >= 102400 && f.size() <= 102401, "the cache file has %zu bytes", f.size()); memcpy(crash::L->init, f.data(), crash::L->size = std::min(f.size(), sizeof crash::L->init)); crash::L->n = 0; } else crash::stop(); REQUIRE(!crash::L->overflow, "harness: log overflow"); save(l.w.M); *t_end = now_ms; }); }
static int64_t *shared_t() { return (int64_t *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
// second life: everything still there is right, and the store goes on working
static void second_life(Life &l, bool strict, const std::string &tag) {
    int h = l.lookup(strict); l.w.obs += tag + std::to_string(h); std::vector<std::pair<std::string, int>> old = l.names; l.serial = 200; static const int OPS[] = {0, 1, 5, 4, 3, 7, 2, 6, 1, 0, 3, 5}; for (int o : OPS) l.op(o); l.lookup(false); advance(65000); l.lookup(false); for (int o : OPS) l.op(o); for (int o : OPS) l.op(o); l.lookup(false); advance(500000); int left = 0; for (auto &x : l.names) left += l.w.ask(x.first, x.second, false, nullptr, false); REQUIRE(left == 0, "%d records are served after everything expired", left); for (auto &x : old) { l.w.ask(x.first, x.second, false, nullptr, false); } for (int o : OPS) l.op(o); l.lookup(false); }
static void crashes(int nops, bool parallel) {
    int pi = choose(NPRE, "prefix"); std::vector<int> ops; for (int i = 0; i < nops; i++) { int o = choose(9, "operation"); ops.push_back(o == 8 ? 8 : o); } crash::alloc(); int64_t *te = shared_t(); const char *more = parallel ? "CacheParallel true\n" : ""; first_life(PRE[pi], ops, false, more, false, te); size_t n = crash::L->n; count_states(n + 1); int at = choose((int)n + 1, "stores before the crash"); bytes img = crash::image(at); Life l; load(l.w.M); l.w.M.parallel = false; load_names(l); now_ms = (at ? crash::L->rec[at - 1].t : *te) / 1000 * 1000 + 1000; if (now_ms < *te - 66000) now_ms = *te; int64_t down = choose(2, "down") ? 45000 : 2000; now_ms += down; write_file("cache.bin", img); boot(conf(true, false, 102400, more)); REQUIRE(!exited, "the program does not start any more"); if (parallel) { l.w.M.ignore_ttl = false; } second_life(l, false, "c"); exec_done(l.w.obs); }
static void creation() { int old = choose(3, "old file"); crash::alloc(); int64_t *te = shared_t(); first_life(PRE[0], {}, true, "", false, te); if (old) { /* a file of an earlier life is there: it is cleared first */ StoreLog *c = crash::L; crash::alloc(); StoreLog *w = crash::L; int64_t *t2 = shared_t(); first_life(PRE[old == 1 ? 2 : 5], {5, 4}, false, "", false, t2); bytes f = crash::image(crash::L->n); Life tmp; load(tmp.w.M); std::string text(w->text, w->textn); int64_t t0 = *t2; crash::L = c; c->n = 0; subrun([=] { write_file("cache.bin", f); now_ms = t0 + 1000; sim_hook_map = [](void *p, size_t n) { crash::start(p, n); }; boot(conf(false, true)); crash::stop(); memcpy(c->text, text.data(), text.size()); c->textn = text.size(); *te = now_ms; }); }
    size_t n = crash::L->n; count_states(n + 1); int step = g_thorough || n < 400 ? 1 : (int)(n / 400); int at = choose((int)(n / step) + 1, "stores before the crash") * step; bytes img = crash::image(at); Life l; load(l.w.M); load_names(l); now_ms = *te + 3000; bool over = choose(2, "overwrite"); write_file("cache.bin", img); boot(conf(true, over)); REQUIRE(!exited, "the program does not start after creating the cache file was interrupted"); second_life(l, false, "k"); exec_done(l.w.obs); }
static void clean(int nops) { int pi = choose(NPRE, "prefix"); std::vector<int> ops; for (int i = 0; i < nops; i++) ops.push_back(choose(10, "operation")); crash::alloc(); int64_t *te = shared_t(); first_life(PRE[pi], ops, false, "", true, te); Life l; load(l.w.M); load_names(l); l.strict = true; l.w.M.partial_ok = false; l.w.M.multi = false; now_ms = *te + (choose(2, "down") ? 45000 : 2000); bool over = choose(2, "overwrite"); write_file("cache.bin", bytes((char *)crash::L->init, crash::L->size)); boot(conf(true, over)); REQUIRE(!exited, "the program does not start again"); second_life(l, true, "r"); exec_done(l.w.obs); }
// files that cannot be used, or only in part
static void unusable() { int pi = choose(NPRE, "prefix"), down = 0; crash::alloc(); int64_t *te = shared_t(); first_life(PRE[pi], {5, 0}, false, "", true, te); Life l; load(l.w.M); load_names(l); now_ms = *te + 2000; bytes f((char *)crash::L->init, 102401); int kind = choose(8, "kind"), size = 102400; bool over = choose(2, "overwrite"), may_refuse = false; auto u32 = [&](size_t o, uint32_t v) { memcpy(&f[o], &v, 4); };
    switch (kind) { case 0: { std::vector<size_t> cut; for (size_t i = 0; i <= 160; i += 4) cut.push_back(i); for (size_t i = 192; i < 4096; i += 64) cut.push_back(i); for (size_t i = 4096; i < 101000; i += 4096) cut.push_back(i); for (size_t i = 102400 - 68 - 32 * 14; i <= 102400; i += 4) cut.push_back(i); size_t c = cut[choose((int)cut.size(), "length")]; f.resize(c); may_refuse = c > 0 && c < 8; break; }
    case 1: { static const uint32_t V[] = {22, 24, 0xffffffffu, 0x17000000, 1}; u32(0, V[choose(5, "version")]); may_refuse = true; break; } case 2: size = 204800; may_refuse = true; break; case 3: { static const uint32_t V[] = {204800, 0, 0xffffffffu, 102416}; u32(4, V[choose(4, "size field")]); may_refuse = true; break; } case 4: f.assign(102401, (char)(choose(2, "fill") ? 0xff : 'x')); may_refuse = true; break; case 5: f = "this is not a cache\n"; may_refuse = true; break; case 6: f.clear(); break; case 7: break; }
    if (kind != 7) write_file("cache.bin", f); boot(conf(true, over, size)); if (exited) { REQUIRE(may_refuse && !over, "the program does not start with this cache file"); exec_done("refused"); } second_life(l, false, "u"); exec_done(l.w.obs + std::to_string(kind)); }
void check_main() { expect_exit = true; explore("clean", [] { clean(g_thorough ? 3 : 2); }); explore("unusable", [] { unusable(); }); explore("creation", [] { creation(); }); explore("crash", [] { crashes(g_thorough ? 2 : 1, false); }); explore("crash/parallel", [] { crashes(1, true); }); }
