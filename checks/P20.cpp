// P20: timed tasks. The real task loop under a virtual clock, every combination of tasks up to bounds, against the interval each run must fall in; and the program's own periodic work.
#include "scn.h"
extern "C" int sim_usleep(unsigned us);
#include <algorithm>
#define HAVE_CONFIG_H 1
extern "C" {
#include "timedtask.h"
}
using namespace sim;
typedef std::string S;
struct Task { int post; int64_t delay; bool pers, async, imm; int dur; int64_t posted = -1; };
struct Run { int task; int64_t start, end, seq; };
static std::vector<Task> T; static std::vector<Run> R; static int64_t T0, seqno; static int64_t HOR;
static int body(void *a, void *b) { int i = (int)(intptr_t)a; REQUIRE(b == (void *)(intptr_t)(i * 7 + 1), "second argument of task %d changed", i); size_t k = R.size(); R.push_back({i, now_ms - T0, -1, seqno++}); if (T[i].dur) sim_usleep(T[i].dur * 1000); R[k].end = now_ms - T0; return (int)((k + i) % 3) - 1; /* a failed run is not a reason to give up */ }
static S show() { S r; for (size_t i = 0; i < T.size(); i++) { auto &t = T[i]; r += "task " + std::to_string(i) + " added at " + std::to_string(t.posted) + " delay " + std::to_string(t.delay) + (t.pers ? " periodic" : " once") + (t.async ? " own thread" : " inline") + (t.imm ? " immediate" : "") + " lasting " + std::to_string(t.dur) + ", runs:"; for (auto &x : R) if (x.task == (int)i) r += " " + std::to_string(x.start) + ".." + (x.end < 0 ? "" : std::to_string(x.end)); r += "\n"; } return r; }
static void judge() {
    struct Due { int64_t lo, hi; const Run *r; int task; }; std::vector<Due> d;
    for (size_t i = 0; i < T.size(); i++) { auto &t = T[i]; REQUIRE(t.posted >= 0, "task was not accepted"); int64_t w = t.imm ? 0 : t.delay, lo = t.posted + w, hi = lo; int n = 0; bool over = false; for (auto &x : R) if (x.task == (int)i) { REQUIRE(!over, "a one-shot task ran again\n%s", show().c_str()); d.push_back({lo, hi, &x, (int)i}); n++; count_eval(1); REQUIRE(x.start >= lo, "task %d ran at %ld, before it was due at %ld\n%s", (int)i, (long)x.start, (long)lo, show().c_str());
            if (!t.pers) over = true; else if (x.end < 0) { over = true; lo = hi = INT64_MAX / 2; } else { lo = x.start + t.delay; hi = x.end + t.delay; } }
        if (!over) d.push_back({lo, hi, nullptr, (int)i}); }
    for (auto &x : d) { int64_t s = x.r ? x.r->start : HOR; if (x.hi >= s) continue; int64_t at = x.hi; for (bool more = true; more && at < s;) { more = false; for (auto &y : R) if (!T[y.task].async && &y != x.r && y.start <= at && (y.end < 0 ? HOR + 1 : y.end) > at) { at = y.end < 0 ? HOR + 1 : y.end; more = true; } } REQUIRE(at >= s, "task %d %s, though it was due at %ld and nothing else ran\n%s", x.task, x.r ? ("ran at " + std::to_string(s)).c_str() : "did not run", (long)x.hi, show().c_str()); }
    for (auto &x : d) for (auto &y : d) if (x.r && (!y.r || y.r->start > x.r->start || (y.r->seq > x.r->seq && !T[x.task].async && !T[y.task].async)) && y.hi < x.lo && x.r->start < HOR) fail("task %d ran at %ld before task %d, which was due earlier\n%s", x.task, (long)x.r->start, y.task, show().c_str()); }
static void go(bool split = false) { // add the tasks and let time pass; split: one thread per task
    T0 = now_ms; spawn([] { REQUIRE(TimedTask_Init() == 0, "no timed tasks"); }, "init"); sim::run();
    auto post = [](int i) { if (TimedTask_Add(T[i].pers, T[i].async, T[i].delay, body, (void *)(intptr_t)i, (void *)(intptr_t)(i * 7 + 1), T[i].imm) == 0 && T[i].posted < 0) T[i].posted = now_ms - T0; };
    if (split) for (size_t i = 0; i < T.size(); i++) spawn([=] { sim_usleep(T[i].post * 1000); post(i); }, "poster"); else spawn([=] { for (size_t i = 0; i < T.size(); i++) { if (now_ms - T0 < T[i].post) sim_usleep((T[i].post - (now_ms - T0)) * 1000); post(i); } }, "poster");
    sim::run(); advance(HOR - (now_ms - T0)); judge(); S o; for (auto &x : R) o += std::to_string(x.task) + "@" + std::to_string(x.start) + " "; count_transitions(R.size()); exec_done(o); }
// intervals of weeks
static void weeks() { static const int64_t D[] = {2147483000, 2147483647, 2147484000, 2592000000, 4294967296, 4294968000}; Task a, b; a.post = 0; a.delay = D[choose(6, "delay 1")]; b.post = 100; b.delay = choose(2, "delay 2") ? 86400000 : D[choose(6, "delay")]; a.pers = choose(2, "periodic 1"); b.pers = choose(2, "periodic 2"); a.async = choose(2, "thread"); b.async = !a.async; a.imm = choose(2, "immediate"); b.imm = false; a.dur = 0; b.dur = 700; T = {a, b}; HOR = a.delay * 3 + 100000; go(); }
static void pick(const std::vector<int> &posts, const std::vector<int> &delays, const std::vector<int> &durs, bool imm) { Task t; t.post = posts[choose(posts.size(), "added at")]; t.delay = delays[choose(delays.size(), "delay")]; t.pers = choose(2, "periodic"); t.async = choose(2, "thread"); t.imm = imm ? choose(2, "immediate") : 0; t.dur = durs[choose(durs.size(), "lasting")]; if (T.size() && t.post < T.back().post) t.post = T.back().post; T.push_back(t); }
static void pairs() { HOR = 1234; for (int i = 0; i < 2; i++) pick({0, 100}, {20, 100, 250}, {0, 150, 400}, true); go(); }
static void triples() { HOR = 1234; for (int i = 0; i < 3; i++) if (g_thorough) pick({0, 130}, {100, 250}, {0, 70, 400}, false); else pick({0}, {100, 250}, {0, 70, 400}, false); go(); }
static void four() { HOR = 1234; for (int i = 0; i < 4; i++) if (g_thorough) pick({0}, {100, 250}, {0, 170}, false); else { Task t; t.post = i * 40; t.delay = choose(2, "delay") ? 250 : 110; t.pers = choose(2, "periodic"); t.async = choose(2, "thread"); t.imm = 0; t.dur = choose(2, "lasting") ? 170 : 0; T.push_back(t); } go(); }
// long delays and fine ones: seconds and milliseconds carry over
static void carry() { HOR = 400000; static const int D[] = {1, 999, 1000, 1001, 1500, 1999, 2000, 59000, 60001, 100000}; Task a, b; a.post = 0; a.delay = D[choose(10, "delay 1")]; b.post = D[choose(10, "added 2")] - 1; b.delay = D[choose(10, "delay 2")]; a.pers = a.delay >= 900 && choose(2, "periodic 1"); b.pers = b.delay >= 900 && choose(2, "periodic 2"); a.async = choose(2, "thread"); b.async = a.async; a.imm = b.imm = false; a.dur = 0; b.dur = choose(2, "lasting") ? 700 : 0; T = {a, b}; go(); }
// several threads add tasks at the same time, in every order within a delay budget
static void threads() { HOR = 700; sched_explore = true; delay_budget = g_thorough ? 3 : 2; lock_points = 1; int k = choose(8, "kinds"); for (int i = 0; i < 3; i++) { Task t; t.post = i == 2 ? 100 : 0; t.delay = 100; t.pers = k & 1; t.async = i < 2 ? k >> 1 & 1 : !(k >> 1 & 1); t.imm = i == 0; t.dur = k & 4 ? 100 : 0; T.push_back(t); } go(true); }
// the program's own periodic work keeps its period while other tasks are slow
static void program() {
    static const int IV[] = {100, 333, 18000, 2147483, 2147484, 2592000, 4294968}; int iv = IV[choose(7, "interval")], good = choose(4, "good-IP lists"), stat = choose(3, "statistics"), cache = choose(2, "cache"); if (good && iv >= 18000 && (iv > 18000 || good < 3)) exec_done("-"); if (!g_thorough && ((iv == 18000 && (stat || !cache)) || (iv == 333 && stat == 2) || (iv == 2147483 && stat))) exec_done("-"); private_files = true; std::vector<int64_t> at; S c = "LogOn false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\nHosts http://h.test/x\nHostsDownloadPath " + path("hosts.txt") + "\nModulesUpdateInterval " + std::to_string(iv) + "\nUseCache " + (cache ? "true" : "false") + "\n"; on_http = [&](const char *, bytes *b) { at.push_back(now_ms); *b = "4.5.6.7 h" + std::to_string(at.size()) + ".org\n"; return 0; };
    std::map<S, std::vector<int64_t>> tries; on_connect = [&](const Addr &a, int64_t *d) { tries[a].push_back(now_ms); *d = 10; return good == 1 ? ACCEPT : BLACKHOLE; }; if (good >= 1) c += "GoodIPList l1 1000\nGoodIPListAddIP l1 5.5.5.1:80\n"; if (good >= 2) c += "GoodIPList l2 3000\nGoodIPListAddIP l2 5.5.5.2:80\nGoodIPListAddIP l2 5.5.5.3:80\n"; if (good == 3) c += "GoodIPList l3 7000\nGoodIPListAddIP l3 5.5.5.4:80\n"; if (stat) { c += "DomainStatistic true\nStatisticUpdateInterval " + std::to_string(stat == 1 ? 29 : 2147484) + "\n"; write_file(".dnsforwarder/x", ""); write_file("StatisticTemplate.html", "<!-- INSERT HERE -->"); c += "DomainStatisticTempletFile " + path("StatisticTemplate.html") + "\n"; }
    int64_t start = now_ms; boot(c); sim::run(); int n = iv > 100000 ? 0 : 10; int64_t step = (int64_t)iv * 1000 / 4; if (iv == 18000 && good) n = 1; int64_t slack = good == 3 ? 15100 : good == 2 ? 10100 : good ? 100 : 100, end = start + (int64_t)iv * 1000 * n + slack * (n + 1) + 1000; if (iv > 100000) end = start + 300000; step = std::min<int64_t>(step, 1000000); int id = 0; while (now_ms < end) { advance(std::min(step, end - now_ms)); size_t o = out.size(); udp_in("9.9.9.1:1", "127.0.0.1:53", encode(dns::query(++id, "q" + std::to_string(id) + ".org", 1))); sim::run(); REQUIRE(out.size() == o + 1, "no reaction to a query"); }
    count_eval(at.size()); REQUIRE((int)at.size() >= n + 1, "%zu reloads within %ld s at an interval of %d s", at.size(), (long)(end - start) / 1000, iv); for (int i = 0; i < (int)at.size(); i++) { int64_t lo = start + (int64_t)i * iv * 1000, hi = lo + slack * (i + 1); if (i) { lo = at[i - 1] + (int64_t)iv * 1000; hi = lo + slack; } REQUIRE(at[i] >= lo && at[i] <= hi, "reload %d at %ld ms, expected from %ld to %ld", i, (long)(at[i] - start), (long)(lo - start), (long)(hi - start)); }
    for (auto &x : tries) { int64_t iv2 = x.first == "5.5.5.1:80" ? 1000 : x.first == "5.5.5.4:80" ? 7000 : 3000; for (size_t i = 1; i < x.second.size(); i++) { int64_t d = x.second[i] - x.second[i - 1]; REQUIRE(d >= iv2 && d <= iv2 + 5100 * (good == 1 ? 0 : good) + 100, "%s was tried again after %ld ms", x.first.c_str(), (long)d); } REQUIRE(x.second.size() * (iv2 + 5100 * good + 100) + iv2 + 20000 >= (uint64_t)(now_ms - start), "%s was tried only %zu times", x.first.c_str(), x.second.size()); } if (good) REQUIRE(tries.size() == (size_t)(good == 1 ? 1 : good == 2 ? 3 : 4), "only %zu addresses were tried", tries.size());
    exec_done(std::to_string(iv) + "/" + std::to_string(good) + std::to_string(stat) + std::to_string(cache)); }
void check_main() { explore("pairs", pairs); explore("triples", triples); explore("four", four); explore("carry", carry); explore("weeks", weeks); explore("threads", threads); explore("program", program); }
