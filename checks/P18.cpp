// P18: domain lists. Every sequence of additions up to a depth (and long ones across growth and hash collisions), every query, against a list searched linearly.
#include "scn.h"
#include <string.h>
#include <fnmatch.h>
#define HAVE_CONFIG_H 1
extern "C" {
#include "stringchunk.h"
#include "utils.h"
}
using namespace sim;
typedef std::string S;
struct Ent { S s; int data; bool has; };             // one addition
static std::vector<Ent> M; static StringChunk C; static bool live = false;
static const uint32_t *mask; static BOOL accept_cb(const void **d, const void *) { return d != NULL && (*mask >> (*(const int *)d & 31) & 1); }
static bool wild(const S &s) { return s.find_first_of("*?[") != s.npos; }
static void reset() { if (live) StringChunk_Free(&C, TRUE); M.clear(); REQUIRE(StringChunk_Init(&C, NULL) == 0, "the list cannot be created"); live = true; }
static void add(const S &s, bool domain, int data, bool has) { int r = domain ? StringChunk_Add_Domain(&C, s.c_str(), has ? &data : NULL, has ? sizeof data : 0) : StringChunk_Add(&C, s.c_str(), has ? &data : NULL, has ? sizeof data : 0); REQUIRE(r == 0, "adding %s failed", s.c_str()); M.push_back({domain && s[0] == '.' ? s.substr(1) : s, data, has}); count_transitions(1); }
static S hist() { S r; for (auto &e : M) { r += e.s + (e.has ? "=" + std::to_string(e.data) : S("")) + " "; if (r.size() > 200) { r += "..."; break; } } return r; }
enum { EXACT = 1, PARENT = 2, PLAIN = 4, WILD = 8, WEQ = 16, ONE = 32 };
// what may come out: -1 nothing, -2 an entry without data, otherwise the data
static std::set<int> expect(const S &q, int how, uint32_t acc, bool cb) {
    auto ok = [&](const Ent &e) { return !cb || (e.has && (acc >> (e.data & 31) & 1)); }; S n = q;
    for (;;) { for (int i = M.size() - 1; i >= 0; i--) if (!wild(M[i].s) && M[i].s == n && ok(M[i])) return {M[i].has ? M[i].data : -2}; if (!(how & PARENT)) break; size_t d = n.size() ? n.find('.', 1) : n.npos; if (d == n.npos) break; n = n.substr(d + 1); }
    std::set<int> r, any; if (how & (WILD | WEQ)) for (auto &e : M) if (wild(e.s) && ok(e) && (how & WEQ ? e.s == q : !fnmatch(e.s.c_str(), q.c_str(), FNM_NOESCAPE))) { (how & ONE && e.s == "*" ? any : r).insert(e.has ? e.data : how & ONE ? -1 : -2); }
    if (r.empty()) r = any; if (r.empty()) r.insert(-1); return r; }
static void query(const S &q, bool hv, bool cb, uint32_t acc, bool data = true) {
    uint32_t h = HASH(q.c_str(), 0), *ph = hv ? &h : NULL; mask = &acc; void *no = (void *)&no; DataCompare f = cb ? (DataCompare)accept_cb : NULL;
    struct { const char *n; int how; BOOL (*f)(StringChunk *, const char *, const uint32_t *, void **, DataCompare, void *); } F[] = {{"Domain_Match", PARENT | WILD, StringChunk_Domain_Match}, {"Domain_Match_NoWildCard", PARENT, StringChunk_Domain_Match_NoWildCard}, {"Domain_Match_WildCardRandom", PARENT | WILD | ONE, StringChunk_Domain_Match_WildCardRandom}, {"Match", WILD, StringChunk_Match}, {"Match_NoWildCard", 0, StringChunk_Match_NoWildCard}, {"Match_Exactly", WEQ, StringChunk_Match_Exactly}};
    for (auto &x : F) { if (!data && x.how & ONE) continue; void *d = no; bool r = x.f(&C, q.c_str(), ph, data ? &d : NULL, f, NULL); auto want = expect(q, x.how, acc, cb && data); int got = !r ? -1 : !data || d == NULL ? -2 : d == no ? -3 : *(int *)d; count_eval(1);
        if (!data) { REQUIRE(r == !want.count(-1), "%s(%s) says %s; the list holds %s", x.n, q.c_str(), r ? "found" : "not found", hist().c_str()); continue; }
        S w; for (int v : want) w += " " + std::to_string(v); REQUIRE(want.count(got), "%s(%s)%s gives %d instead of%s (-1: nothing, -2: an entry without data); the list holds %s", x.n, q.c_str(), cb ? " with a condition" : "", got, w.c_str(), hist().c_str()); } }
static void enumerate_all() { std::multiset<S> want, got; for (auto &e : M) if (!wild(e.s)) want.insert(e.s + (e.has ? std::to_string(e.data) : S("-"))); int32_t i = 0; void *d; const char *s; while ((s = StringChunk_Enum_NoWildCard(&C, &i, &d))) { got.insert(S(s) + (d ? std::to_string(*(int *)d) : S("-"))); REQUIRE(got.size() <= want.size(), "enumeration visits more entries than were added"); } REQUIRE(got == want, "enumeration does not visit each plain entry once; the list holds %s", hist().c_str()); count_eval(1); }
static const std::vector<S> ADD = {"com", "a.com", "b.a.com", "ba.com", "adezhs.com", "yjvxth.com", ".a.com", "*.com", "*", "a.?om", "[ab].com", "*.a.com", ""}, Q = {"com", "a.com", "b.a.com", "c.b.a.com", "ba.com", "xa.com", "aacom", "adezhs.com", "yjvxth.com", "z.yjvxth.com", "om", "a.co", "a.comm", "b.com", "*.com", "", "a.", "net", "com.net", "b.a"};
static void sequences(int depth, bool domain) {
    int first = choose(ADD.size(), "first"), second = choose(ADD.size() + 1, "second"), third = choose(ADD.size() + 1, "third"); if (second == (int)ADD.size() && third != second) exec_done("-"); std::vector<int> v = {first}; if (second < (int)ADD.size()) v.push_back(second); if (third < (int)ADD.size() && v.size() == 2) v.push_back(third); uint64_t n = 0;
    std::function<void()> rec = [&] { for (int nodata = 0; nodata < 2; nodata++) { reset(); for (size_t i = 0; i < v.size(); i++) add(ADD[v[i]], domain, i, !(nodata && i % 2 == v.size() % 2)); n++; for (auto &q : Q) { query(q, n & 1, false, 0); if (!nodata) { query(q, !(n & 1), true, ~(1u << (v.size() - 1))); query(q, false, true, 5); } else query(q, n & 1, false, 0, false); } } enumerate_all();
        if (v.size() >= 3 && (int)v.size() < depth) for (int i = 0; i < (int)ADD.size(); i++) { v.push_back(i); rec(); v.pop_back(); } };
    rec(); count_states(n); exec_done(hist()); }
// long lists: family of names, order, number of times each is added
static S nm(int fam, int i) { char b[600]; switch (fam) { case 0: snprintf(b, sizeof b, "n%d.com", i); return b; case 1: { S s; for (int k = 0; k < 11; k++) s += S(i >> k & 1 ? "adezhs" : "yjvxth") + "."; return s + "com"; } case 2: snprintf(b, sizeof b, "%d.sub%d.example.org", i % 7, i / 7); return b; case 3: { S s = "x"; for (int k = 0; k < i % 60; k++) s += "." + std::to_string(k + i / 60); return s; } default: snprintf(b, sizeof b, "%c%c%c", 'a' + i % 26, 'a' + i / 26 % 26, 'a' + i / 676 % 26); return b; } }
static void growth(int max) {
    int fam = choose(5, "family"), rep = choose(3, "times added"), part = choose(4, "order"); if (fam == 1 && max > 2048) max = 2048; reset(); std::vector<S> names; std::map<S, int> last; int n = max / (rep + 1), cnt = 0; bool wm = part & 1;
    auto chk = [&](const S &s, int want) { void *d = NULL; uint32_t h = HASH(s.c_str(), 0); bool r = StringChunk_Match_NoWildCard(&C, s.c_str(), cnt & 1 ? &h : NULL, &d, NULL, NULL); int got = r ? *(int *)d : -1; count_eval(1); REQUIRE(got == want, "after %d additions %s gives %d instead of %d", cnt, s.c_str(), got, want); };
    for (int i = 0; i < n * (rep + 1); i++) { int k = part & 2 ? i / (rep + 1) : i % n; S s = nm(fam, k); cnt++; int r = StringChunk_Add_Domain(&C, s.c_str(), &cnt, sizeof cnt); REQUIRE(r == 0, "addition %d failed", cnt); if (wm && i % 10 == 0) { int no = -7; StringChunk_Add(&C, ("*." + s).c_str(), &no, sizeof no); } count_transitions(1); if (!last.count(s)) names.push_back(s); last[s] = cnt; chk(s, cnt);
        size_t m = names.size(); bool full = cnt < 80 || (cnt & (cnt - 1)) == 0 || cnt % 35 < 2 || i + 1 == n * (rep + 1); if (full) { if (fam == 1 && m > 300 && i + 1 < n * (rep + 1) && cnt % 35 < 2) continue; for (auto &x : names) chk(x, last[x]); for (int j = 0; j < 40; j++) { S x = nm(fam, n + j); if (!last.count(x)) chk(x, -1); x = names[(j * 37) % m]; S y = x.substr(1); if (!last.count(y)) chk(y, -1); y = x + "m"; if (!last.count(y)) chk(y, -1); void *d = NULL; y = "w." + x; bool r = StringChunk_Domain_Match_NoWildCard(&C, y.c_str(), NULL, &d, NULL, NULL); if (fam != 1) REQUIRE(r && *(int *)d == last[x], "after %d additions %s does not match through its parent domain", cnt, y.c_str()); } } }
    int32_t it = 0; void *d; std::map<int, S> seen; const char *s; while ((s = StringChunk_Enum_NoWildCard(&C, &it, &d))) REQUIRE(seen.insert({*(int *)d, s}).second, "enumeration visits an entry twice"); REQUIRE((int)seen.size() == cnt, "enumeration visits %zu of %d entries", seen.size(), cnt); for (auto &x : last) REQUIRE(seen[x.second] == x.first, "enumeration gives the wrong data"); count_states(cnt); exec_done(std::to_string(cnt) + nm(fam, 1)); }
// every wildcard pattern and name over a small alphabet
static void patterns(int pl, int ql) {
    static const char al[] = "*?.ab"; int f = choose(5, "p0"), g = choose(6, "p1"); std::vector<S> ps, qs; std::function<void(S)> gp = [&](S p) { ps.push_back(p); if ((int)p.size() < pl && p.size() >= 2) for (int i = 0; i < 5; i++) gp(p + al[i]); }; S p0(1, al[f]); gp(g < 5 ? p0 + al[g] : p0); std::function<void(S)> gq = [&](S q) { if (q.size() && q[0] != '.' && q.find("..") == q.npos) qs.push_back(q); if ((int)q.size() < ql) for (int i = 2; i < 5; i++) gq(q + al[i]); }; gq("");
    for (auto &p : ps) { reset(); add(p, false, 3, true); count_states(1); for (auto &q : qs) { auto w = expect(q, PARENT | WILD, 0, false); void *d = NULL; bool r = StringChunk_Domain_Match(&C, q.c_str(), NULL, &d, NULL, NULL); count_eval(1); REQUIRE(r ? d && w.count(*(int *)d) : w.count(-1), "the pattern %s %s %s", p.c_str(), r ? "matches" : "does not match", q.c_str()); } } exec_done(ps[0]); }
// the same through the program: a list of disabled domains of every size around the growth of the table
static void program() {
    static const int N[] = {1, 2, 7, 34, 35, 36, 37, 69, 70, 71, 72, 139, 140, 141, 142, 279, 280, 281, 300}; int n = N[choose(sizeof N / sizeof *N, "entries")], fam = choose(3, "family"), how = choose(2, "how"); if (fam == 1) fam = 4; std::string c = "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\n"; auto name = [&](int i) { return fam == 2 ? S(i & 1 ? "adezhs" : "yjvxth") + "." + (i & 2 ? "adezhs" : "yjvxth") + "." + (i & 4 ? "adezhs" : "yjvxth") + "." + (i & 8 ? "adezhs" : "yjvxth") + "." + (i & 16 ? "adezhs" : "yjvxth") + "." + (i & 32 ? "adezhs" : "yjvxth") + "." + (i & 64 ? "adezhs" : "yjvxth") + "." + (i & 128 ? "adezhs" : "yjvxth") + "." + (i & 256 ? "adezhs" : "yjvxth") + ".com" : nm(fam, i) + ".org"; };
    for (int i = 0; i < n; i++) if (how == 0) c += "DisabledDomain " + name(i) + "\n"; else c += i % 40 ? "," + name(i) : "\nDisabledDomain " + name(i);
    boot(c + "\n"); sim::run(); int id = 0; auto ask = [&](const S &x) { size_t o = out.size(); udp_in("9.9.9.1:1111", "127.0.0.1:53", dns::encode(dns::query(++id, x, dns::A))); sim::run(); count_eval(1); REQUIRE(out.size() == o + 1, "%s: %zu datagrams", x.c_str(), out.size() - o); return out.back().dst == "9.9.9.1:1111"; };
    for (int i = 0; i < n; i++) { REQUIRE(ask(name(i)), "%s is disabled but was forwarded (%d entries)", name(i).c_str(), n); REQUIRE(ask("w." + name(i)), "w.%s lies under a disabled domain but was forwarded (%d entries)", name(i).c_str(), n); S y = "x" + name(i); REQUIRE(!ask(y), "%s was never disabled but was refused (%d entries)", y.c_str(), n); } for (int i = n; i < n + 30 && i < 512; i++) REQUIRE(!ask(name(i)), "%s was never disabled but was refused (%d entries)", name(i).c_str(), n); count_states(n); exec_done(std::to_string(n) + "/" + std::to_string(fam) + std::to_string(how)); }
void check_main() { explore("program", program); explore("sequences", [] { sequences(g_thorough ? 5 : 4, false); }); explore("sequences/domain", [] { sequences(g_thorough ? 5 : 4, true); }); explore("growth", [] { growth(g_thorough ? 6000 : 1200); }); explore("patterns", [] { patterns(g_thorough ? 6 : 5, g_thorough ? 6 : 5); }); }
