// P27: log files. The real logging code over every set of existing files, history of sessions and messages, single file fault and thread schedule up to bounds; the files on disk are checked before every file operation.
#include "scn.h"
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <algorithm>
#define HAVE_CONFIG_H 1
extern "C" {
#include "logs.h"
#include "readconfig.h"
}
using namespace sim;
typedef std::string S;
static int T; static const char *DIR_ = "logs";
struct Exp { S text; bool must; };
static std::vector<Exp> sent; // messages of all sessions, in order
static std::map<int, S> old; static S oldcur; static bool hadcur;
static S cut(const S &s) { return s.size() > 1500 ? s.substr(0, 700) + "..." + s.substr(s.size() - 700) : s; }
static std::map<int, S> disk(S *cur, bool *have) { std::map<int, S> r; *have = false; DIR *d = opendir((scratch + "/" + DIR_).c_str()); REQUIRE(d, "log folder gone"); while (dirent *e = readdir(d)) { S n = e->d_name; if (n[0] == '.') continue; S c = n == "keep" ? "" : read_file(S(DIR_) + "/" + n); if (n == "keep") continue; if (n == "dnsforwarder.log") { *cur = c; *have = true; continue; } REQUIRE(n.find("dnsforwarder.log.") == 0, "file %s appeared", n.c_str()); S k = n.substr(17); REQUIRE(k.size() && k.find_first_not_of("0123456789") == S::npos, "file %s appeared", n.c_str()); r[atoi(k.c_str())] = c; } closedir(d); return r; }
static bool stamp(const S &s, size_t p) { static const char *P = "dddd/dd/dd dd:dd:dd "; for (size_t i = 0; i < 20; i++) if (p + i >= s.size() || (P[i] == 'd' ? !isdigit((unsigned char)s[p + i]) : s[p + i] != P[i])) return false; return true; }
// every message so far is there once, complete and in order, and every older file is as it was; complete: sizes too
static void verify(const char *when, bool sizes) {
    S cur; bool have; auto f = disk(&cur, &have); S all; count_eval(1); std::vector<S> segs; for (auto &x : old) { REQUIRE(f.count(x.first), "%s: the old log .%d is gone", when, x.first); REQUIRE(f[x.first] == x.second, "%s: the old log .%d was changed to\n%s", when, x.first, cut(f[x.first]).c_str()); f.erase(x.first); }
    for (auto &x : f) segs.push_back(x.second); if (have) segs.push_back(cur); for (auto &x : segs) all += x; size_t p = 0; REQUIRE(all.compare(0, oldcur.size(), oldcur) == 0, "%s: the log's earlier content is lost, the logs are\n%s", when, cut(all).c_str()); p = oldcur.size(); std::vector<size_t> at = {0, p};
    for (auto &m : sent) { bool ok = stamp(all, p) && all.compare(p + 20, m.text.size(), m.text) == 0; if (!ok && !m.must) continue; REQUIRE(ok, "%s: message \"%s\" is missing or incomplete, the logs go on with\n%s", when, cut(m.text).c_str(), cut(all.substr(p)).c_str()); p += 20 + m.text.size(); at.push_back(p); }
    REQUIRE(p == all.size(), "%s: the logs contain something else:\n%s", when, cut(all.substr(p)).c_str());
    if (sizes) { size_t b = 0; for (size_t i = 0; i < segs.size(); i++) { size_t e = b + segs[i].size(); bool boundary = i + 1 == segs.size(); for (size_t q : at) if (q == e) boundary = true; REQUIRE(boundary, "%s: a message is split over files", when); size_t lastm = b; for (size_t q : at) if (q < e && q > lastm) lastm = q; if (i + 1 < segs.size()) REQUIRE(segs[i].size() >= (size_t)T, "%s: a log of %zu bytes was rotated, the threshold is %d", when, segs[i].size(), T); if (lastm > b && lastm - b > (size_t)T) fail("%s: a log of %zu bytes was not rotated before the next message, the threshold is %d", when, lastm - b, T); b = e; } } }
static int init() { ConfigFileInfo ci; ConfigInitInfo(&ci); VType v; v.boolean = TRUE; ConfigAddOption(&ci, "LogOn", STRATEGY_DEFAULT, TYPE_BOOLEAN, v); v.INT32 = T; ConfigAddOption(&ci, "LogFileThresholdLength", STRATEGY_DEFAULT, TYPE_INT32, v); static S p; p = path(DIR_); v.str = p.c_str(); ConfigAddOption(&ci, "LogFileFolder", STRATEGY_REPLACE, TYPE_PATH, v); return Log_Init(&ci, FALSE, FALSE); }
static S text(int k, int len) { S s = "m" + std::to_string(k) + "-"; while ((int)s.size() < len) s += (char)('a' + s.size() % 26); return s; }
static void say(const S &t, int kind) { if (kind == 0) Log_Print(NULL, "%s\n", t.c_str()); else if (kind == 1) INFO("%s\n", t.c_str()); else if (kind == 2) ERRORMSG("%s:%d\n", t.c_str(), 7); else WARNING("%s\nsecond line %s\n", t.c_str(), t.c_str()); }
static S wrote(const S &t, int kind) { return kind == 0 ? t + "\n" : kind == 1 ? "[INFO] " + t + "\n" : kind == 2 ? "[ERROR] " + t + ":7\n" : "[WARN] " + t + "\nsecond line " + t + "\n"; }
static void prepare(int mask, int cur) { mkdir((scratch + "/" + DIR_).c_str(), 0700); write_file(S(DIR_) + "/keep", ""); for (int i = 0; i < 4; i++) if (mask >> i & 1) { int n = i == 3 ? 10 : i + 1; old[n] = "old log " + std::to_string(n) + "\n"; write_file(S(DIR_) + "/dnsforwarder.log." + std::to_string(n), old[n]); } static const int L[] = {-1, 0, 10, -2, -3, -4}; int l = L[cur]; if (l == -1) return; hadcur = true; if (l == -2) l = T - 1; if (l == -3) l = T; if (l == -4) l = T + 50; oldcur = l ? S(l - 1, 'p') + "\n" : S(); write_file(S(DIR_) + "/dnsforwarder.log", oldcur); }
// sessions of messages; a fault at one file operation
static void history(bool faults, const std::vector<int> &lens, int maxs, int maxm) {
    private_files = true; static const int TT[] = {1, 40, 120, 400}; T = TT[choose(4, "threshold")]; int mask = choose(16, "old logs"), cur = choose(6, "current log"), s = 1 + choose(maxs, "sessions"); std::vector<std::vector<int>> ses(s); for (auto &x : ses) { int m = 1 + choose(maxm, "messages"); for (int i = 0; i < m; i++) x.push_back(choose(lens.size(), "length")); } static const int ER[] = {EACCES, EMFILE, ENOENT, ENOSPC}; int at = faults ? choose(8, "fault at") : 99, err = faults ? ER[choose(4, "fault")] : 0, lasting = faults ? choose(2, "lasting") : 0; prepare(mask, cur); int k = 0; bool failed = false;
    for (int i = 0; i < s; i++) { auto life = [&, i] { int ops = 0, kk = k; bool down = false, started = false; on_file = [&](const char *op, const char *p) { if (S(p).find("dnsforwarder.log") == S::npos) return 0; int o = ops++; if (!started) return 0; if (!down) verify("before a file operation", false); if (o >= at && (o == at || (lasting && o < at + 4)) && i + 1 == (int)ses.size()) { if (!strcmp(op, "read") && err == ENOENT) return 0; failed = true; count_transitions(1); return err; } return 0; };
            spawn([&] { int r = init(); REQUIRE(r == 0, "logging did not start: %d", r); started = true; for (int l : ses[i]) { S t = text(kk, lens[l]); int kind = kk % 4; failed = false; sent.push_back({wrote(t, kind), true}); sent.back().must = false; down = true; say(t, kind); down = false; if (!failed) sent.back().must = true; kk++; verify(failed ? "after a failed file operation" : "after a message", at == 99); } }, "logger"); sim::run(); on_file = nullptr; };
        if (i + 1 < s) { private_files = false; subrun(life); for (int l : ses[i]) { sent.push_back({wrote(text(k, lens[l]), k % 4), true}); k++; } } else life(); verify("after a session", at == 99); }
    S c; bool h; auto f = disk(&c, &h); S o = std::to_string(T); for (auto &x : f) o += "/" + std::to_string(x.first) + ":" + std::to_string(x.second.size()); exec_done(o + "|" + std::to_string(c.size())); }
// long histories: hundreds of rotations
static void lengthy() { private_files = true; T = choose(2, "threshold") ? 100 : 1; int mask = choose(16, "old logs"), len = choose(3, "length"), n = g_thorough ? 400 : 120; prepare(mask, choose(6, "current log")); spawn([&] { REQUIRE(init() == 0, "logging did not start"); for (int i = 0; i < n; i++) { int kind = i % 4; S t = text(i, len == 0 ? 5 : len == 1 ? 90 : i * 3); sent.push_back({wrote(t, kind), true}); say(t, kind); if (i % 40 == 39) verify("after a message", true); } }, "logger"); sim::run(); verify("at the end", true); exec_done(std::to_string(T) + std::to_string(mask) + std::to_string(len)); }
// several threads
static void threads() { private_files = true; T = choose(2, "threshold") ? 100 : 1; int mask = choose(4, "old logs"); prepare(mask, choose(3, "current log")); spawn([] { REQUIRE(init() == 0, "logging did not start"); }, "init"); sim::run(); sched_explore = true; delay_budget = g_thorough ? 3 : 2; lock_points = 1; std::vector<S> said[3]; for (int t = 0; t < 3; t++) { for (int j = 0; j < 2; j++) said[t].push_back(wrote(text(t * 10 + j, 30), (t + j) % 4)); spawn([t] { for (int j = 0; j < 2; j++) say(text(t * 10 + j, 30), (t + j) % 4); }, "logger"); } sim::run();
    S cur; bool have; auto f = disk(&cur, &have); S all; for (auto &x : f) if (!old.count(x.first)) all += x.second; all += cur; size_t p = oldcur.size(), nx[3] = {0, 0, 0}; S order; while (p < all.size()) { bool ok = false; for (int t = 0; t < 3 && !ok; t++) if (nx[t] < 2 && stamp(all, p) && all.compare(p + 20, said[t][nx[t]].size(), said[t][nx[t]]) == 0) { p += 20 + said[t][nx[t]].size(); nx[t]++; order += (char)('0' + t); sent.push_back({said[t][nx[t] - 1], true}); ok = true; } REQUIRE(ok, "messages of different threads are mixed up:\n%s", all.c_str()); } REQUIRE(order.size() == 6, "only %zu of 6 messages logged\n%s%s", order.size(), all.c_str(), [&] { S l; for (auto &x : f) l += std::to_string(x.first) + ":" + std::to_string(x.second.size()) + " "; return l + "cur " + std::to_string(cur.size()); }().c_str()); verify("at the end", true); exec_done(order); }
// the program: every query leaves its line, over restarts
static void program() {
    private_files = true; static const int TT[] = {200, 1000, 30000}; T = TT[choose(3, "threshold")]; int mask = choose(8, "old logs"), cur = choose(3, "current log"), lives = 1 + choose(3, "lives"); prepare(mask, cur); std::vector<S> want; auto life = [&](int l) { S c = "LogOn true\nLogFileThresholdLength " + std::to_string(T) + "\nLogFileFolder " + path(DIR_) + "\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\nUseCache true\nDisabledDomain dis.org\nAppendHosts 4.5.6.7 h.org\nBlockIP 6.6.6.6\n"; boot(c); sim::run(); for (int i = 0; i < 20; i++) { S u = std::to_string(l) + "-" + std::to_string(i), n = i % 5 == 0 ? u + ".h.org" : i % 5 == 1 ? u + ".dis.org" : u + ".org"; if (i % 5 == 0) n = "h.org"; size_t o = out.size(); dns::Msg q = dns::query(i + 1, n, dns::A); udp_in("9.9.9." + std::to_string(i + 1) + ":1111", "127.0.0.1:53", encode(q)); sim::run(); if (i % 5 >= 2 && i % 5 <= 3 && out.size() == o + 1) { udp_reply(out[o], encode(dns::answer(q, {dns::rrA(n, i % 5 == 3 ? "6.6.6.6" : "1.2.3.4")}))); sim::run(); } if (i % 5 == 4) advance(7000); } advance(15000); };
    auto names = [&](int l) { for (int i = 0; i < 20; i++) { S u = std::to_string(l) + "-" + std::to_string(i); want.push_back(i % 5 == 0 ? "[H][9.9.9." + std::to_string(i + 1) + "][IPv4 Address][h.org]" : i % 5 == 1 ? "[R][9.9.9." + std::to_string(i + 1) + "][IPv4 Address][" + u + ".dis.org]" : i % 5 == 2 ? "][9.9.9." + std::to_string(i + 1) + "][IPv4 Address][" + u + ".org] : " : i % 5 == 3 ? "[B][IPv4 Address][" + u + ".org]" : "][9.9.9." + std::to_string(i + 1) + "][IPv4 Address][" + u + ".org] Timed out"); } };
    private_files = false; for (int l = 0; l + 1 < lives; l++) subrun([&] { life(l); }); life(lives - 1); for (int l = 0; l < lives; l++) names(l); S c; bool have; auto f = disk(&c, &have); S all; for (auto &x : old) { REQUIRE(f.count(x.first) && f[x.first] == x.second, "the old log .%d was changed", x.first); f.erase(x.first); } int small = 0; for (auto &x : f) { all += x.second; if (x.second.size() < (size_t)T) small++; } all += c; REQUIRE(!small, "%d logs were rotated below the threshold", small); REQUIRE(c.size() < (size_t)T + 1300, "the current log has %zu bytes, the threshold is %d", c.size(), T); REQUIRE(all.compare(0, oldcur.size(), oldcur) == 0, "the log's earlier content is lost"); size_t p = 0; for (auto &w : want) { size_t q = all.find(w, p); if (w.find("Timed") != S::npos || w[0] == ']') { REQUIRE(all.find(w) != S::npos, "no line with %s in the logs", w.c_str()); continue; } REQUIRE(q != S::npos, "no line with %s in the logs%s:\n%s", w.c_str(), all.find(w) != S::npos ? " at its place" : "", cut(all).c_str()); p = q; count_eval(1); } exec_done(std::to_string(all.size()) + "/" + std::to_string(f.size())); }
void check_main() { explore("history", [] { history(false, g_thorough ? std::vector<int>{6, 60, 130} : std::vector<int>{6, 130}, g_thorough ? 3 : 2, g_thorough ? 2 : 2); }); explore("one-session", [] { history(false, {3, 50, 100}, 1, g_thorough ? 5 : 4); }); explore("faults", [] { history(true, {60}, g_thorough ? 2 : 1, g_thorough ? 4 : 4); }); explore("lengthy", lengthy); explore("threads", threads); explore("program", program); }
