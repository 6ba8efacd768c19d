// Exhaustive explorer: process tree, one fork per untaken branch.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <ftw.h>
#include <atomic>
#include <fstream>

extern "C" {
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
const char *__asan_default_options()
{ return "detect_leaks=0:handle_abort=1:detect_stack_use_after_return=0:allocator_may_return_null=1:max_malloc_fill_size=8192:malloc_fill_byte=190:log_path=/dev/null:quarantine_size_mb=4:malloc_context_size=8:max_free_fill_size=64:strict_string_checks=0:replace_intrin=1:detect_odr_violation=0:intercept_tls_get_addr=0:symbolize=0"; }
const char *__ubsan_default_options() { return "halt_on_error=1"; }
}

struct KF { char key[96]; char what[256]; };
struct Shared {
    std::atomic<int> tokens;
    std::atomic<int> stop;       // violation found
    std::atomic<int> truncated;  // deadline hit
    std::atomic<uint64_t> execs, nodes, transitions, states_extra, trans_extra, evals, distinct, forks;
    std::atomic<int> samples_n;
    char samples[8][1024];
    char viol[65536];
    char viol_trace[65536];
    char viol_scn[256];
    std::atomic<int> kf_n; KF kf[64];
    std::atomic<int> fatal;
    std::atomic<uint64_t> bloom[1 << 18]; // 2^24 bits of observed-outcome hashes
};
static Shared *S;
static double g_deadline;
int g_thorough; bool g_verbose;
static std::vector<int> g_trace; static std::vector<std::string> g_labels;
static std::vector<int> g_replay; static bool g_replaying; static size_t g_pos;
static std::vector<pid_t> kids; static bool have_token;
static std::string g_scn, g_reptext, g_only;
int outfd = 1;
static std::vector<std::pair<std::string,std::string>> g_known; // key, what
std::function<void()> before_fork, on_leaf;   // set by sim
std::function<void()> after_fork_child;

static double rwall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

void count_states(uint64_t n) { S->states_extra += n; }
void count_transitions(uint64_t n) { S->trans_extra += n; }
void count_eval(uint64_t n) { S->evals += n; }
static uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return h; }
void count_obs(const std::string &o)
{
    uint64_t h = fnv(g_scn + "|" + o); uint64_t bit = h & ((1u << 24) - 1);
    uint64_t m = 1ull << (bit & 63);
    uint64_t old = S->bloom[bit >> 6].fetch_or(m);
    if (!(old & m)) {
        S->distinct++;
        int n = S->samples_n.load();
        if (n < 8 && S->samples_n.compare_exchange_strong(n, n + 1)) {
            std::string t; for (size_t i = 0; i < g_labels.size(); i++) t += g_labels[i] + "=" + std::to_string(g_trace[i]) + " ";
            snprintf(S->samples[n], sizeof S->samples[n], "%s: [%.500s] -> %.400s", g_scn.c_str(), t.c_str(), o.c_str());
        }
    }
}
static void arm_timer()
{
    struct itimerval it = {{0, 0}, {20, 0}};
    setitimer(ITIMER_PROF, &it, NULL);
}
static void record_violation(const char *msg)
{
    int z = 0;
    if (S->stop.compare_exchange_strong(z, 1)) {
        snprintf(S->viol, sizeof S->viol, "%s", msg);
        std::string t; for (size_t i = 0; i < g_trace.size(); i++) { t += std::to_string(g_trace[i]) + " " + g_labels[i] + "\n"; }
        snprintf(S->viol_trace, sizeof S->viol_trace, "%s", t.c_str());
        snprintf(S->viol_scn, sizeof S->viol_scn, "%s", g_scn.c_str());
    }
}
static std::string g_notes;
void note(const char *fmt, ...)
{
    char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (g_notes.size() < 20000) { g_notes += b; g_notes += "\n"; }
    if (g_verbose) dprintf(outfd, "  | %s\n", b);
}
static void wait_kid(pid_t p)
{
    int st; 
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        char b[128]; snprintf(b, sizeof b, "execution died unexpectedly (wait status 0x%x)", st);
        record_violation(b);
    }
}
[[noreturn]] static void leaf_exit()
{
    if (have_token) { S->tokens++; have_token = false; }
    for (pid_t p : kids) wait_kid(p);
    kids.clear();
    if (on_leaf) on_leaf();
    _exit(0);
}
void exec_done(const std::string &obs)
{
    if (g_verbose) dprintf(outfd, "  = done: %s\n", obs.c_str());
    S->execs++;
    count_obs(obs);
    leaf_exit();
}
void fail(const char *fmt, ...)
{
    static char b[60000]; va_list a; va_start(a, fmt); int n = vsnprintf(b, 30000, fmt, a); va_end(a);
    if (n > 29999) n = 29999;
    snprintf(b + n, sizeof b - n, "\n--- notes:\n%s", g_notes.c_str());
    if (g_verbose) dprintf(outfd, "  ! VIOLATION: %s\n", b);
    record_violation(b);
    leaf_exit();
}
static void on_death() {
    static int once; if (once++) return;
    std::string m = "program crashed / memory error: " + g_reptext.substr(0, 6000) + "\n--- notes:\n" + g_notes;
    if (g_verbose) dprintf(outfd, "  ! %s\n", m.c_str());
    record_violation(m.c_str()); leaf_exit(); }
static void on_report(const char *t) { g_reptext = t ? t : ""; }
static void on_prof(int) { static const char m[] = "program hangs: more than 20 s of CPU without reaching quiescence"; if (g_verbose) { ssize_t r = write(outfd, m, sizeof m - 1); (void)r; } record_violation(m); leaf_exit(); }
static void on_abrt(int s) { char b[64]; snprintf(b, sizeof b, "program died of signal %d", s); g_reptext = b; on_death(); }

static bool g_sub;
int choose(int n, const char *label)
{
    if (n <= 1 || g_sub) return 0;
    if (g_replaying) {
        int c = g_pos < g_replay.size() ? g_replay[g_pos] : 0; g_pos++;
        if (c >= n) c = n - 1;
        g_trace.push_back(c); g_labels.push_back(label);
        dprintf(outfd, "  choose %s/%d = %d\n", label, n, c);
        return c;
    }
    S->nodes++; S->transitions += n;
    for (int i = 0; i < n - 1; i++) {
        if (S->stop) leaf_exit();
        if (rwall() > g_deadline) { S->truncated = 1; leaf_exit(); }
        bool async = false;
        int t = S->tokens.load();
        while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { async = true; break; }
        if (before_fork) before_fork();
        S->forks++;
        pid_t p = fork();
        if (p < 0) {
            if (async) S->tokens++;
            // try reaping then retry
            for (pid_t k : kids) wait_kid(k); kids.clear();
            usleep(1000); i--; continue;
        }
        if (p == 0) {
            kids.clear(); have_token = async;
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            arm_timer();
            if (after_fork_child) after_fork_child();
            g_trace.push_back(i + 1); g_labels.push_back(label);
            return i + 1;
        }
        if (async) { kids.push_back(p); if (kids.size() > 64) { wait_kid(kids[0]); kids.erase(kids.begin()); } } else wait_kid(p);
    }
    if (S->stop) leaf_exit();
    if (rwall() > g_deadline) { S->truncated = 1; leaf_exit(); }
    g_trace.push_back(0); g_labels.push_back(label);
    return 0; // the default goes on here: chains of forks stay as short as the number of deviations
}

// an earlier life of the program: fn runs in a process of its own, without branching
void subrun(const std::function<void()> &fn)
{
    if (before_fork) before_fork();
    pid_t p = fork();
    if (p < 0) { fail("harness: fork"); }
    if (p == 0) { kids.clear(); have_token = false; g_sub = true; prctl(PR_SET_PDEATHSIG, SIGKILL); arm_timer(); if (after_fork_child) after_fork_child(); fn(); leaf_exit(); }
    wait_kid(p);
    if (S->stop) leaf_exit();
}

void explore(const std::string &name, const std::function<void()> &scenario)
{
    if (!g_only.empty() && g_only != name) return;
    if (S->stop || S->truncated) { return; }
    uint64_t e0 = S->execs; double t0 = rwall();
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        g_scn = name; arm_timer(); kids.clear(); have_token = false;
        g_trace.clear(); g_labels.clear();
        scenario();
        exec_done("end");
    }
    wait_kid(p);
    dprintf(outfd, "  scenario %-40s executions=%llu (%.1fs)\n", name.c_str(), (unsigned long long)(S->execs - e0), rwall() - t0);
}
bool known_finding(const std::string &key, const std::string &what)
{
    for (auto &k : g_known) if (k.first == key) {
        int n = S->kf_n.load();
        for (int i = 0; i < n; i++) if (key == S->kf[i].key) return true;
        while (n < 64) if (S->kf_n.compare_exchange_weak(n, n + 1)) {
            snprintf(S->kf[n].key, 96, "%s", key.c_str()); snprintf(S->kf[n].what, 256, "%s", what.c_str()); break; }
        return true;
    }
    return false;
}
static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
void rm_tree(const std::string &d) { if (d.compare(0, 9, "/dev/shm/") == 0 || d.compare(0, 5, "/tmp/") == 0) nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS); }
static std::string jesc(const std::string &s)
{
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}
extern std::string g_scratch_base;
std::string g_scratch_base;

int main(int argc, char **argv)
{
    std::string sumfile, violfile, replay, known; double budget = 600; int cores = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough") g_thorough = 1;
        else if (a == "--summary") sumfile = argv[++i];
        else if (a == "--violation") violfile = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--cores") cores = atoi(argv[++i]);
        else if (a == "--known") known = argv[++i];
        else if (a == "--scenario") g_only = argv[++i];
        else if (a == "-v") g_verbose = true;
    }
    setenv("TZ", "UTC", 1);
    S = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (S) Shared();
    S->tokens = cores - 1;
    g_deadline = rwall() + budget;
    double t0 = rwall();
    if (!known.empty()) { std::ifstream f(known); std::string l; while (std::getline(f, l)) { size_t p = l.find('\t'); if (p != std::string::npos) g_known.push_back({l.substr(0, p), l.substr(p + 1)}); } }
    if (!replay.empty()) {
        std::ifstream f(replay); std::string l; bool in = false; g_verbose = true; g_replaying = true;
        while (std::getline(f, l)) {
            if (l.compare(0, 9, "scenario ") == 0) g_only = l.substr(9);
            else if (l == "trace:") in = true; else if (l == "end") in = false;
            else if (in) g_replay.push_back(atoi(l.c_str()));
        }
    }
    outfd = dup(1);
    if (!getenv("SIM_STDOUT")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
    char tmpl[] = "/dev/shm/dfsimXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
    g_scratch_base = tmpl;
    signal(SIGPROF, on_prof);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    else { for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, on_abrt); }
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(on_report);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    check_main();
    while (waitpid(-1, NULL, 0) > 0) {}
    rm_tree(g_scratch_base);
    double el = rwall() - t0;
    if (!sumfile.empty()) {
        FILE *f = fopen(sumfile.c_str(), "w");
        fprintf(f, "{\"executions\":%llu,\"choice_points\":%llu,\"states\":%llu,\"transitions\":%llu,\"evaluations\":%llu,\"distinct\":%llu,\"truncated\":%d,\"wall\":%.2f,\"violations\":%d,\"samples\":[",
            (unsigned long long)S->execs, (unsigned long long)S->nodes,
            (unsigned long long)(S->nodes + S->execs + S->states_extra), (unsigned long long)(S->transitions + S->trans_extra + S->execs),
            (unsigned long long)(S->evals + S->execs), (unsigned long long)S->distinct, S->truncated.load(), el, S->stop.load());
        int n = S->samples_n; if (n > 8) n = 8;
        for (int i = 0; i < n; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(S->samples[i]).c_str());
        fprintf(f, "],\"known\":[");
        for (int i = 0; i < S->kf_n; i++) fprintf(f, "%s[\"%s\",\"%s\"]", i ? "," : "", jesc(S->kf[i].key).c_str(), jesc(S->kf[i].what).c_str());
        fprintf(f, "]}\n"); fclose(f);
    }
    dprintf(outfd, "executions=%llu choice_points=%llu evals=%llu distinct=%llu truncated=%d wall=%.1fs\n", (unsigned long long)S->execs, (unsigned long long)S->nodes, (unsigned long long)S->evals.load(), (unsigned long long)S->distinct, S->truncated.load(), el);
    if (S->stop) {
        if (!violfile.empty()) {
            FILE *f = fopen(violfile.c_str(), "w");
            fprintf(f, "scenario %s\ntrace:\n%send\n\n%s\n", S->viol_scn, S->viol_trace, S->viol); fclose(f);
        }
        dprintf(outfd, "VIOLATED in scenario %s\n%s\ntrace:\n%s", S->viol_scn, S->viol, S->viol_trace);
        _exit(1);
    }
    _exit(0);
}
