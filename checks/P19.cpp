// P19: the containers. Every sequence of operations up to a depth against the abstract container, with the memory checked by AddressSanitizer.
#include "scn.h"
#include <string.h>
#include <algorithm>
#include <stdarg.h>
#define HAVE_CONFIG_H 1
extern "C" {
#include "array.h"
#include "bst.h"
#include "linkedqueue.h"
#include "mcontext.h"
#include "simpleht.h"
#include "stablebuffer.h"
#include "stringlist.h"
#include "utils.h"
}
using namespace sim;
typedef std::string S; typedef std::vector<int> V;
// enumerate all sequences up to length depth; ops(): number of operations possible now, apply(op); start() makes the empty container. The first two operations are choices of the explorer.
struct Seq { std::function<void()> start; std::function<int()> ops; std::function<void(int)> apply; std::function<void()> check; std::function<S(int)> name; };
static V cur; static S hist;
static int redo(Seq &s, int n) { s.start(); hist.clear(); for (int i = 0; i < n; i++) { hist += s.name(cur[i]) + " "; s.apply(cur[i]); } count_transitions(n); s.check(); count_eval(1); count_states(1); return s.ops(); }
static void all(Seq s, int depth) { cur.clear(); uint64_t n = 0; int k = redo(s, 0); for (int i = 0; i < 2; i++) { int c = choose(k + (i > 0), "op"); if (c == k) exec_done("-"); cur.push_back(c); k = redo(s, i + 1); n++; }
    std::function<void(int)> rec = [&](int k) { if ((int)cur.size() >= depth) return; for (int i = 0; i < k; i++) { cur.push_back(i); n++; rec(redo(s, cur.size())); cur.pop_back(); } }; rec(k); exec_done(std::to_string(n) + "/" + std::to_string(cur[0]) + std::to_string(cur[1])); }
#define CHECK(c, ...) REQUIRE(c, "%s: after: %s", fmt(__VA_ARGS__).c_str(), hist.c_str())
static S fmt(const char *f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// ---- ordered tree: add one of K keys, delete the i-th living element (by insertion age)
struct Node { int key, id; char pad[5]; };
static int ncmp(const void *a, const void *b) { return ((Node *)a)->key - ((Node *)b)->key; }
static void bst(int K, int depth) {
    static Bst t; static bool live; static std::vector<std::pair<const Node *, Node>> m; static int id; live = false; Seq s;
    s.start = [] { if (live) t.Free(&t); live = true; m.clear(); id = 0; CHECK(Bst_Init(&t, sizeof(Node), ncmp) == 0, "no tree"); };
    s.ops = [=] { return K + 1 + (int)m.size(); }; s.name = [=](int o) { return o < K ? "add(" + std::to_string(o) + ")" : o == K ? S("reset") : "delete(#" + std::to_string(o - K - 1) + ")"; };
    s.apply = [=](int o) { if (o < K) { Node n = {o, ++id, "pad"}; const Node *p = (const Node *)t.Add(&t, &n); CHECK(p, "add failed"); m.push_back({p, n}); } else if (o == K) { t.Reset(&t); m.clear(); } else { t.Delete(&t, m[o - K - 1].first); m.erase(m.begin() + (o - K - 1)); } };
    s.check = [=] { for (auto &x : m) CHECK(!memcmp(x.first, &x.second, sizeof(Node)), "element %d is damaged", x.second.id); std::set<const void *> seen; struct A { std::set<const void *> *s; int stop; } a = {&seen, -1}; t.Enum(&t, [](Bst *, const void *d, void *a) { A *x = (A *)a; CHECK(x->s->insert(d).second, "enumerated twice"); CHECK(x->s->size() < 100, "endless"); return (int)(--x->stop == 0); }, &a); CHECK(seen.size() == m.size(), "%zu of %zu elements are enumerated", seen.size(), m.size()); for (auto &x : m) CHECK(seen.count(x.first), "element %d is not enumerated", x.second.id);
        if (m.size() > 1) { seen.clear(); a.stop = 1; t.Enum(&t, [](Bst *, const void *d, void *a) { A *x = (A *)a; x->s->insert(d); return (int)(--x->stop == 0); }, &a); CHECK(seen.size() == 1, "enumeration does not stop when told to"); }
        size_t n = 0; seen.clear(); const Node *prev = 0; for (const Node *p = (const Node *)t.Minimum(&t, NULL); p; p = (const Node *)t.Successor(&t, p)) { CHECK(seen.insert(p).second, "visited twice in order"); CHECK(!prev || prev->key <= p->key, "out of order: %d before %d", prev->key, p->key); prev = p; n++; } CHECK(n == m.size(), "%zu of %zu elements in order", n, m.size());
        for (int k = -1; k <= K; k++) { Node key = {k}; const Node *p = (const Node *)t.Search(&t, &key, NULL); bool want = false, is = false; for (auto &x : m) { want |= x.second.key == k; is |= x.first == p; } CHECK(want == (p != NULL), "key %d %s", k, p ? "is found but not there" : "is there but not found"); if (!p) continue; CHECK(is && p->key == k, "searching %d finds something else", k); for (int g = 0; (p = (const Node *)t.Search(&t, &key, p)); g++) { is = false; for (auto &x : m) is |= x.first == p; CHECK(is && p->key == k && g < 50, "searching on for %d finds something else", k); } } };
    all(s, depth); }
// ---- stable buffer
static void stable(int depth) {
    static StableBuffer b; static bool live; struct B { char *p; S c; bool al; }; static std::vector<B> m; live = false; static const int L[] = {1, 3, 8, 13, 40}; Seq s;
    s.start = [] { if (live) b.Free(&b); live = true; m.clear(); CHECK(StableBuffer_Init(&b) == 0, "no buffer"); }; s.ops = [] { return 11; }; s.name = [](int o) { return o == 10 ? S("clear") : "add(" + std::to_string(L[o % 5]) + (o < 5 ? ")" : ",aligned)"); };
    s.apply = [](int o) { if (o == 10) { b.Clear(&b); m.clear(); return; } S c(L[o % 5], 0); for (size_t i = 0; i < c.size(); i++) c[i] = 'a' + (m.size() * 7 + i) % 50; bool null = m.size() % 5 == 4; char *p = (char *)b.Add(&b, null ? NULL : c.data(), c.size(), o >= 5); CHECK(p, "add failed"); if (null) memcpy(p, c.data(), c.size()); m.push_back({p, c, o >= 5}); };
    s.check = [] { for (size_t i = 0; i < m.size(); i++) { CHECK(!memcmp(m[i].p, m[i].c.data(), m[i].c.size()), "block %zu changed", i); for (size_t j = 0; j < i; j++) CHECK(m[j].p + m[j].c.size() <= m[i].p || m[i].p + m[i].c.size() <= m[j].p, "blocks %zu and %zu overlap", j, i); } StableBufferIterator it; StableBufferIterator_Init(&it, &b); size_t found = 0, last = 0; char *p; std::set<char *> blocks; while ((p = (char *)it.NextBlock(&it))) { CHECK(blocks.insert(p).second, "a block is visited twice"); int u = it.CurrentBlockUsed(&it); CHECK(u <= it.CurrentBlockSize(&it), "used more than there is"); last = 0; for (auto &x : m) if (x.p >= p && x.p < p + u) { CHECK(x.p + x.c.size() <= p + u, "an item passes the end"); CHECK(it.IsInCurrentBlock(&it, x.p), "not in its block"); found++; last++; } else CHECK(!it.IsInCurrentBlock(&it, x.p), "in a foreign block"); } CHECK(found == m.size(), "%zu of %zu items are in the blocks", found, m.size()); if (m.size()) CHECK(it.ToLast(&it) && it.IsInCurrentBlock(&it, m.back().p), "the last item is not in the last block"); };
    all(s, depth); }
// ---- string list
static std::vector<S> split(const S &x, const char *d) { std::vector<S> r = {""}; for (char c : x) if (d && *d && strchr(d, c)) r.push_back(""); else r.back() += c; return r; }
static void strlist(int depth, int init) {
    static StringList l; static bool live; static std::vector<S> m; live = false; static int ini; ini = init; Seq s; struct O { int k; const char *s, *d; }; static const O T[] = {{0, "ab", NULL}, {0, "", NULL}, {0, "Cd, ,e,", ","}, {0, ",", ","}, {1, "x", NULL}, {1, ",Y z", ","}, {1, "", ","}, {2, NULL}, {2, "b "}, {3}, {4}, {5, 0, 0}, {5, "1", 0}, {5, "2", 0}, {0, " long long long string \t", NULL}}; const int N = sizeof T / sizeof *T;
    s.start = [] { if (live) l.Free(&l); live = true; m.clear(); CHECK(StringList_Init(&l, ini ? ini == 1 ? "q" : ",r," : NULL, ",") == 0, "no list"); if (ini) m = split(ini == 1 ? "q" : ",r,", ","); };
    s.ops = [=] { return N; }; s.name = [=](int o) { static const char *n[] = {"add", "append-last", "trim", "lowercase", "clear", "remove"}; return S(n[T[o].k]) + "(" + (T[o].s ? "\"" + S(T[o].s) + "\"" : S("")) + (T[o].d ? ",split" : "") + ")"; };
    s.apply = [](int o) { const O &t = T[o]; const char *g; switch (t.k) {
        case 0: { char *p = (char *)l.Add(&l, t.s, t.d); auto v = split(t.s, t.d); CHECK(p && v[0] == p, "add returned something else"); m.insert(m.end(), v.begin(), v.end()); break; }
        case 1: { int r = l.AppendLast(&l, t.s, t.d); if (m.empty()) { CHECK(r < 0, "appending to nothing succeeded"); break; } CHECK(r > 0, "append failed: %d", r); S x = m.back() + t.s; m.pop_back(); auto v = split(x, t.d); m.insert(m.end(), v.begin(), v.end()); break; }
        case 2: { l.TrimAll(&l, t.s); g = t.s ? t.s : "\t \r\n"; std::vector<S> r; for (auto &x : m) { size_t a = x.find_first_not_of(g); if (a == x.npos) continue; r.push_back(x.substr(a, x.find_last_not_of(g) - a + 1)); } m = r; break; }
        case 3: l.LowercaseAll(&l); for (auto &x : m) for (auto &c : x) c = tolower(c); break;
        case 4: l.Clear(&l); m.clear(); break;
        case 5: { int how = t.s ? *t.s - '0' : 0; StringListIterator i; StringListIterator_Init(&i, &l); std::vector<S> r; const char *p = i.Next(&i); size_t k = 0; while (p) { CHECK(k < m.size() && m[k] == p, "iteration at %zu gives \"%s\"", k, p); bool del = how == 0 ? k == 0 : how == 1 ? k % 2 == 1 : k + 1 == m.size(); if (del) p = i.Remove(&i); else { r.push_back(m[k]); p = i.Next(&i); } k++; } CHECK(k == m.size(), "iteration ends at %zu of %zu", k, m.size()); m = r; break; } } };
    s.check = [] { CHECK(l.Count(&l) == (int)m.size(), "count is %d instead of %zu", l.Count(&l), m.size()); StringListIterator i; StringListIterator_Init(&i, &l); for (int pass = 0; pass < 2; pass++) { size_t k = 0; const char *p; while ((p = i.Next(&i))) { CHECK(k < m.size() && m[k] == p, "string %zu is \"%s\" instead of \"%s\"", k, p, k < m.size() ? m[k].c_str() : "(none)"); k++; } CHECK(k == m.size(), "only %zu of %zu strings", k, m.size()); i.Reset(&i); } const char **a = l.ToCharPtrArray(&l); CHECK(a, "no array"); size_t k = 0; for (; a[k]; k++) { CHECK(k < m.size() && m[k] == a[k], "array element %zu is \"%s\"", k, a[k]); } CHECK(k == m.size(), "array has %zu of %zu", k, m.size()); FreeCharPtrArray((char **)a); free(a); };
    all(s, depth); }
// ---- priority queue
static void queue(int depth) {
    static LinkedQueue q; static bool live; static std::vector<std::pair<int, int>> m; static int id; live = false; const int K = 4; Seq s; struct E { int key, id; };
    s.start = [] { if (live) q.Free(&q); live = true; m.clear(); id = 0; LinkedQueue_Init(&q, sizeof(E), [](const void *a, const void *b) { return ((E *)a)->key - ((E *)b)->key; }); }; s.ops = [=] { return K + 1; }; s.name = [=](int o) { return o < K ? "add(" + std::to_string(o) + ")" : S("get"); };
    s.apply = [=](int o) { if (o < K) { E e = {o, ++id}; CHECK(q.Add(&q, &e) == 0, "add failed"); m.push_back({o, id}); return; } E *e = (E *)q.Get(&q); CHECK(m.empty() == !e, e ? "got something from nothing" : "got nothing"); if (!e) return; auto i = std::find(m.begin(), m.end(), std::pair<int, int>(e->key, e->id)); CHECK(i != m.end(), "got (%d,%d), which is not queued", e->key, e->id); for (auto &x : m) CHECK(x.first >= e->key, "got %d before %d", e->key, x.first); m.erase(i); LinkedQueue_FreeNode(e); };
    s.check = [] { LinkedQueueIterator i; LinkedQueueIterator_Init(&i, &q); std::multiset<std::pair<int, int>> got; int prev = -1; while (E *e = (E *)i.Next(&i)) { CHECK(prev <= e->key, "out of order"); prev = e->key; got.insert({e->key, e->id}); CHECK(got.size() < 100, "endless"); } CHECK(got == decltype(got)(m.begin(), m.end()), "%zu of %zu elements", got.size(), m.size()); };
    all(s, depth); }
// ---- array, growing up (with elements of 3 bytes) or down within bounds
struct T3 { char c[3]; bool operator==(const T3 &o) const { return !memcmp(c, o.c, 3); } };
static void array(int depth, bool down, int initial) {
    static Array a; static bool live; static std::vector<std::pair<bool, T3>> m; static char *mem; static int n, room; static bool dn; dn = down; live = false; Seq s; const int SUB[] = {0, 1, 2, 4, 7};
    s.start = [=] { if (live) Array_Free(&a); live = true; m.clear(); n = 0; room = 6; if (down) { free(mem); mem = (char *)malloc(room * 3); CHECK(Array_Init(&a, 3, 5, TRUE, mem + (room - 1) * 3) == 0, "no array"); } else CHECK(Array_Init(&a, 3, initial, FALSE, NULL) == 0, "no array"); };
    s.ops = [=] { return 10; }; s.name = [=](int o) { return o == 0 ? S("push") : o == 1 ? S("push-nothing") : o < 7 ? "set(" + std::to_string(SUB[o - 2]) + ")" : o == 7 ? "clear" : o == 8 ? "sort" : "fill(3)"; };
    s.apply = [=](int o) { T3 v; snprintf(v.c, 3, "%02d", (n++ * 37) % 100); v.c[2] = 'x'; int r; switch (o) {
        case 0: case 1: r = Array_PushBack(&a, o ? NULL : &v, dn ? mem : NULL); if (dn && (int)m.size() >= room) { CHECK(r < 0, "pushed past the boundary"); return; } CHECK(r == (int)m.size(), "push gives subscript %d", r); m.push_back({!o, v}); break;
        case 2: case 3: case 4: case 5: case 6: { int k = SUB[o - 2]; if (dn && k >= room) return; T3 *p = (T3 *)Array_SetToSubscript(&a, k, &v); CHECK(p && *p == v, "set failed"); if ((int)m.size() <= k) m.resize(k + 1, {false, v}); m[k] = {true, v}; break; }
        case 7: Array_Clear(&a); m.clear(); break;
        case 8: for (auto &x : m) if (!x.first) return; Array_Sort(&a, [](const void *x, const void *y) { return memcmp(x, y, 3); }); if (dn) { for (size_t i = 0; i < m.size(); i++) { T3 *p = (T3 *)Array_GetBySubscript(&a, i); CHECK(p, "lost"); auto j = std::find_if(m.begin() + i, m.end(), [&](auto &y) { return y.second == *p; }); CHECK(j != m.end(), "sorting lost an element"); std::swap(m[i], *j); } for (size_t i = 2; i < m.size(); i++) { int c1 = memcmp(m[i - 2].second.c, m[i - 1].second.c, 3), c2 = memcmp(m[i - 1].second.c, m[i].second.c, 3); CHECK((c1 <= 0) == (c2 <= 0) || !c1 || !c2, "not sorted"); } } else std::sort(m.begin(), m.end(), [](auto &x, auto &y) { return memcmp(x.second.c, y.second.c, 3) < 0; }); break;
        case 9: Array_Fill(&a, 3, &v); if (m.size() < 3) m.resize(3, {true, v}); for (int i = 0; i < 3; i++) m[i] = {true, v}; break; } };
    s.check = [=] { CHECK(Array_GetUsed(&a) == (int)m.size(), "%d elements instead of %zu", Array_GetUsed(&a), m.size()); CHECK(Array_IsEmpty(&a) == m.empty(), "emptiness"); for (size_t i = 0; i < m.size(); i++) { T3 *p = (T3 *)Array_GetBySubscript(&a, i); CHECK(p && (!m[i].first || *p == m[i].second), "element %zu is wrong", i); char c = *(volatile char *)&p->c[2]; (void)c; if (!dn) { CHECK(Array_GetThis(&a, p) == p && Array_GetThis(&a, (char *)p + 2) == p, "this"); CHECK(Array_GetNext(&a, p) == Array_GetBySubscript(&a, i + 1), "next of %zu", i); } else CHECK((char *)p >= mem && (char *)p + 3 <= mem + room * 3, "element %zu out of its bounds", i); } CHECK(!Array_GetBySubscript(&a, -1) && !Array_GetBySubscript(&a, m.size()), "an element outside"); if (!dn) CHECK(Array_GetNext(&a, NULL) == Array_GetBySubscript(&a, 0), "first"); };
    all(s, depth); }
// ---- hash table: add with one of some hash values; long runs across growth
static void hasht(int max) {
    int lf = choose(3, "load") + 1, fam = choose(4, "hashes"); if (lf == 3) lf = 5; SimpleHT h; REQUIRE(SimpleHT_Init(&h, sizeof(int), lf, HASH) == 0, "no table"); std::map<uint32_t, std::vector<int>> m; auto hv = [&](int i) -> uint32_t { return fam == 0 ? i % 5 : fam == 1 ? i * 7 : fam == 2 ? i * 2654435761u : 0xffffffffu - i % 3 * 14; };
    for (int i = 0; i < max; i++) { uint32_t x = hv(i); const int *p = (const int *)SimpleHT_Add(&h, "k", 0, (const char *)&i, &x); REQUIRE(p && *p == i, "addition %d failed", i); m[x].push_back(i); count_transitions(1); if (i > 60 && (i & (i - 1)) && i % 7 && i != max - 1) continue; for (auto &e : m) { std::vector<int> got; const char *c = NULL; while ((c = SimpleHT_Find(&h, "k", 0, &e.first, c))) { got.push_back(*(int *)c); REQUIRE((int)got.size() <= i + 1, "the chain of hash %u is endless after %d additions", e.first, i + 1); } std::set<int> g(got.begin(), got.end()); REQUIRE(g.size() == got.size(), "an element is found twice after %d additions", i + 1); int prev = 1 << 30; for (int v : got) if (hv(v) == e.first) { REQUIRE(v < prev, "older element %d found before the newer %d", prev, v); prev = v; } for (int v : e.second) REQUIRE(g.count(v), "element %d is not found after %d additions", v, i + 1); count_eval(1); } int32_t k = 0; for (int j = 0; j <= i; j++) { const int *q = (const int *)SimpleHT_Enum(&h, &k); REQUIRE(q && *q == j, "enumeration at %d", j); } REQUIRE(!SimpleHT_Enum(&h, &k), "enumerates too much"); } SimpleHT_Free(&h); count_states(max); exec_done(std::to_string(lf) + "/" + std::to_string(fam)); }
// ---- pending queries: add (id, name, type), find, answer, delete, time and sweep
struct Ctx { IHeader h; char e[64]; };
static Ctx mkctx(int k, int uid) { static const char *N[] = {"adezhs.com", "yjvxth.com", "b.com"}; Ctx c; memset(&c, 0, sizeof c); int id = k / 4 % 2 ? 0x0102 : 0x0201; snprintf(c.h.Domain, sizeof c.h.Domain, "%s", N[k % 2]); c.h.HashValue = HASH(c.h.Domain, 0); c.h.Type = k / 2 % 2 ? (DNSRecordType)28 : (DNSRecordType)1; c.e[0] = id >> 8; c.e[1] = id; c.h.EntityLength = 20 + k; c.h.Serial = uid; return c; }
static void pending(int depth, int K) {
    static ModuleContext c; static bool live; struct P { int k, uid; int64_t t; MsgContext *p; }; static std::vector<P> m; static int uid; static std::vector<int> swept; live = false; Seq s; static int64_t T0; T0 = sim::now_ms;
    s.start = [] { if (live) ModuleContext_Free(&c); live = true; m.clear(); uid = 0; now_ms = T0; CHECK(ModuleContext_Init(&c, sizeof(Ctx)) == 0, "no set"); }; s.ops = [=] { return 2 * K + 2 + (int)m.size(); }; s.name = [=](int o) { return o < K ? "add(" + std::to_string(o) + ")" : o < 2 * K ? "answer(" + std::to_string(o - K) + ")" : o == 2 * K ? S("sweep") : o == 2 * K + 1 ? S("1s") : "delete(#" + std::to_string(o - 2 * K - 2) + ")"; };
    s.apply = [=](int o) { if (o < K) { Ctx x = mkctx(o, ++uid); MsgContext *p = c.Add(&c, (MsgContext *)&x); CHECK(p && ((IHeader *)p)->Serial == (uint32_t)uid && ((char *)p)[sizeof(IHeader)] == x.e[0], "add failed"); m.push_back({o, uid, now_ms / 1000, p}); }
        else if (o < 2 * K) { Ctx in = mkctx(o - K, 0), res; in.h.EntityLength = 33; in.h.EDNSEnabled = TRUE; memset(&res, 0, sizeof res); int r = c.GenAnswerHeaderAndRemove(&c, (MsgContext *)&in, (MsgContext *)&res); size_t i = 0; while (i < m.size() && !(m[i].k == o - K && (r != 0 || m[i].uid == (int)res.h.Serial))) i++; CHECK((r == 0) == (i < m.size()), r == 0 ? "an answer nobody waits for was accepted" : "a waiting query was not found"); if (r == 0) { CHECK(res.h.EntityLength == 33 && res.h.EDNSEnabled && !strcmp(res.h.Domain, in.h.Domain) && res.h.Type == in.h.Type, "the answer's header is wrong"); m.erase(m.begin() + i); } }
        else if (o == 2 * K) { swept.clear(); c.Sweep(&c, [](const MsgContext *x, int n, void *) { swept.push_back(((IHeader *)x)->Serial); CHECK(n == (int)swept.size(), "numbering"); }, NULL); std::vector<int> w; for (size_t i = 0; i < m.size();) if (now_ms / 1000 - m[i].t > 2) { w.push_back(m[i].uid); m.erase(m.begin() + i); } else i++; std::sort(swept.begin(), swept.end()); std::sort(w.begin(), w.end()); CHECK(swept == w, "%zu instead of %zu expired", swept.size(), w.size()); }
        else if (o == 2 * K + 1) now_ms += 1500; else { c.Del(&c, m[o - 2 * K - 2].p); m.erase(m.begin() + (o - 2 * K - 2)); } };
    s.check = [=] { for (auto &x : m) CHECK(((IHeader *)x.p)->Serial == (uint32_t)x.uid && ((IHeader *)x.p)->EntityLength == 20 + x.k, "pending query %d is damaged", x.uid); for (int k = 0; k < 8; k++) { Ctx in = mkctx(k, 0); const MsgContext *p = c.Find(&c, (MsgContext *)&in); bool want = false, is = false; for (auto &x : m) { want |= x.k == k; is |= x.p == p && x.k == k; } CHECK(want == (p != NULL), "query %d %s", k, p ? "is found but not pending" : "is pending but not found"); CHECK(!p || is, "another query is found"); } };
    all(s, depth); }
void check_main() {
    int t = g_thorough; explore("tree/2", [=] { bst(2, 9 + t); }); explore("tree/4", [=] { bst(4, 8 + t); }); explore("buffer", [=] { stable(6 + t); });
    for (int i = 0; i < 3; i++) explore("strings/" + std::to_string(i), [=] { strlist(5 + t, i); });
    explore("queue", [=] { queue(9 + t); }); for (int i : {0, 1, 3}) explore("array/" + std::to_string(i), [=] { array(6 + t, false, i); }); explore("array/down", [=] { array(6 + t, true, 0); }); explore("table", [=] { hasht(t ? 3000 : 600); }); explore("pending/2", [=] { pending(7 + t, 2); }); explore("pending/8", [=] { pending(5 + t, 8); });
}
