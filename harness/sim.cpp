// libc-boundary replacement for the program under test.
// Repo objects get these through objcopy --redefine-sym X=sim_X.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <pwd.h>
#include <pthread.h>
#include <ucontext.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>

extern "C" {
void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
void __asan_report_store_n(unsigned long, unsigned long) __attribute__((weak));
int df_main(int argc, char **argv) __attribute__((weak));
}
extern std::function<void()> before_fork, on_leaf, after_fork_child;
extern std::string g_scratch_base;
extern int outfd;
void rm_tree(const std::string &d);
// schedule hook for the instrumented (memory access) build
void (*sim_hook_switch)(int from, int to);
void (*sim_hook_lock)(void *l, int op); // 0 lock 1 unlock 2 rdlock 3 rdunlock
void (*sim_hook_create)(int child);
void (*sim_hook_map)(void *p, size_t n); // a file was mapped

// switch stacks: callee-saved registers only, no system call
#if defined(__x86_64__)
asm(".text\n.type sim_switch,@function\nsim_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n.size sim_switch,.-sim_switch\n");
#else
#error "x86-64 only"
#endif
extern "C" void sim_switch(void **save, void *load);
extern "C" char __data_start, _end;
namespace sim {
const bytes *stale = nullptr;
int64_t now_ms = 0; static int64_t now_us_extra = 0;
std::deque<Sent> out; std::vector<Conn *> conns; static std::vector<Conn *> pending; // conns that will connect
std::function<int(const Addr &, int64_t *)> on_connect;
std::function<int()> on_rand; std::function<int(const Sent &)> on_sendto;
std::function<int(const char *, bytes *)> on_http;
std::function<int(const char *)> on_system;
bool ipv6_clients = false, ipv6_servers = false;
std::function<void(const Addr &, bool)> on_bind;
std::function<int(const char *, const char *)> on_file;
bool sched_explore = false; int delay_budget = 0; int fd_max = 1000; int lock_points = 1;
std::string scratch; bool exited; int exit_code; bool expect_exit; uint64_t stat_switches;

// ------------------------------------------------------------ coroutines
struct Thr {
    int id; std::string name; void *ctx; char *stk; size_t stksz; void *fake = nullptr;
    enum { READY, BLOCKED, DEAD } st = READY;
    std::function<bool()> pred; int64_t deadline = -1; bool lockwait = false; const char *what = "";
    std::function<void()> fn;
};
static std::vector<Thr *> thr, alive; static Thr *cur; static void *sched_ctx; static void *sched_fake;
static const void *sched_stk; static size_t sched_stksz; static Thr *forced; static int last_id = -1;
int cur_id() { return cur ? cur->id : -1; }

static void dead(Thr *t) { t->st = Thr::DEAD; for (size_t i = 0; i < alive.size(); i++) if (alive[i] == t) { alive.erase(alive.begin() + i); break; } }
static void tramp()
{
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(nullptr, &sched_stk, &sched_stksz);
    Thr *me = cur;
    me->fn();
    dead(me);
    if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(nullptr, sched_stk, sched_stksz);
    sim_switch(&me->ctx, sched_ctx);
}
static Thr *new_thr(const std::function<void()> &fn, const char *name)
{
    Thr *t = new Thr; t->id = (int)thr.size(); t->name = name; t->stksz = 512 * 1024;
    t->stk = (char *)mmap(NULL, t->stksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    t->fn = fn; void **sp = (void **)(t->stk + t->stksz - 64); *--sp = nullptr; *--sp = (void *)tramp; for (int i = 0; i < 6; i++) *--sp = nullptr; t->ctx = sp;
    thr.push_back(t); alive.push_back(t);
    return t;
}
static void to_thr(Thr *t)
{
    cur = t; stat_switches++; last_id = t->id;
    if (sim_hook_switch) sim_hook_switch(-1, t->id);
    if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&sched_fake, t->stk, t->stksz);
    sim_switch(&sched_ctx, t->ctx);
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
    cur = nullptr;
}
static void to_sched()
{
    Thr *me = cur;
    if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&me->fake, sched_stk, sched_stksz);
    sim_switch(&me->ctx, sched_ctx);
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(me->fake, &sched_stk, &sched_stksz);
}
static bool runnable(Thr *t)
{
    if (t->st == Thr::READY) return true;
    if (t->st == Thr::DEAD) return false;
    if (t->deadline >= 0 && t->deadline <= now_ms) return true;
    return t->pred && t->pred();
}
// true if predicate, false if timeout
static bool block(const std::function<bool()> &p, int64_t deadline, const char *what, bool lockwait = false)
{
    if (p()) return true;
    if (!cur) fail("harness: blocking call '%s' outside a program thread", what);
    cur->st = Thr::BLOCKED; cur->pred = p; cur->deadline = deadline; cur->what = what; cur->lockwait = lockwait;
    to_sched();
    cur->st = Thr::READY; cur->lockwait = false; cur->deadline = -1;
    bool r = p(); cur->pred = nullptr;
    return r;
}
// the threads take turns: index of the one after that which ran last
static size_t after_last() { size_t i = 0; while (i < alive.size() && alive[i]->id <= last_id) i++; return i; }
static std::vector<Thr *> others_runnable()
{
    std::vector<Thr *> v; size_t n = alive.size(), f = after_last();
    for (size_t k = 0; k < n; k++) { Thr *t = alive[(f + k) % n]; if (t != cur && runnable(t)) v.push_back(t); }
    return v;
}
void sched_point_force(const char *what)
{
    if (!cur || !sched_explore || delay_budget <= 0) return;
    auto v = others_runnable(); if (v.empty()) return;
    int n = (int)v.size(); if (n > delay_budget) n = delay_budget;
    int c = choose(n + 1, what);
    if (c == 0) return;
    delay_budget -= c; forced = v[c - 1];
    note("preempt %s at %s -> %s", cur->name.c_str(), what, forced->name.c_str());
    to_sched();
}
static void sched_point(const char *what) { if (lock_points) sched_point_force(what); }
// access-level mode: a point before every access to a variable several threads accessed and to other memory another thread accessed last

int acc_points = 0; static uint8_t acc_last[1 << 20];
static void acc(uintptr_t a)
{
    if (!cur) return;
    uint8_t &l = acc_last[(a >> 3) * 0x9E3779B97F4A7C15ull >> 44]; uint8_t me = (uint8_t)(cur->id + 1); bool shared; if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) { if (l == 0) l = me; else if (l != me) l = 255; shared = l == 255; } else { shared = l && l != me; l = me; }
    if (!shared || !acc_points || !sched_explore || delay_budget <= 0) return;
    char here; uintptr_t sp = (uintptr_t)&here; if (a - sp < 65536 || sp - a < 4096) return;
    sched_point_force("access");
}
static std::vector<int> die_list;
void check_deadlock()
{
    for (auto t : alive) if (t->st == Thr::BLOCKED && t->lockwait && !runnable(t))
        fail("deadlock: thread %d (%s) waits forever for a lock at %s", t->id, t->name.c_str(), t->what);
}
void run()
{
    uint64_t steps = 0;
    while (!exited) {
        if (++steps > 200000) fail("livelock: no quiescence after %llu scheduling steps", (unsigned long long)steps);
        Thr *t = forced; forced = nullptr;
        if (!t) {
            Thr *v[16]; int m = 0, want = sched_explore && delay_budget > 0 ? std::min(delay_budget + 1, 16) : 1; size_t n = alive.size(), f = after_last();
            for (size_t k = 0; k < n && m < want; k++) { Thr *x = alive[(f + k) % n]; if (runnable(x)) v[m++] = x; }
            if (!m) break;
            int c = m > 1 ? choose(m, "sched") : 0; delay_budget -= c; t = v[c];
        }
        if (getenv("SIM_TRACE")) dprintf(outfd, "    [sched] %d %s (%s) t=%lld\n", t->id, t->name.c_str(), t->what, (long long)now_ms);
        to_thr(t);
    }
    if (exited) { if (!expect_exit) fail("the program terminated unexpectedly with code %d", exit_code); return; }
    check_deadlock();
}
void advance(int64_t ms)
{
    int64_t end = now_ms + ms;
    run();
    while (!exited) {
        int64_t d = -1;
        for (auto t : alive) if (t->st == Thr::BLOCKED && t->deadline >= 0 && (d < 0 || t->deadline < d)) d = t->deadline;
        for (auto c : pending) if (c->st == Conn::CONNECTING && (d < 0 || c->ready_at < d)) d = c->ready_at;
        if (d < 0 || d > end) break;
        if (d > now_ms) now_ms = d;
        run();
        bool again = false; for (auto c : pending) if (c->st == Conn::CONNECTING && c->ready_at <= now_ms) { c->st = c->will_refuse ? Conn::REFUSED : Conn::ESTABLISHED; again = true; }
        pending.erase(std::remove_if(pending.begin(), pending.end(), [](Conn *c) { return c->st != Conn::CONNECTING; }), pending.end());
        if (again) run();
    }
    if (now_ms < end) now_ms = end;
    run();
}
void spawn(const std::function<void()> &fn, const char *name) { new_thr(fn, name); }
int live_threads() { int n = 0; for (auto t : alive) if (t->st != Thr::DEAD) n++; return n; }

// ------------------------------------------------------------ sockets
struct Sock {
    int fd; uint64_t uid; enum { UDP, LISTEN, STREAM, TCPNEW, PIPER, PIPEW } kind; int af; bool nonblock = false; bool bound = false;
    Addr local; int rcvtimeo = 0, sndtimeo = 0;
    std::deque<std::pair<Addr, bytes>> rx; std::deque<Conn *> acceptq; Conn *conn = nullptr; Sock *peer = nullptr; bytes pbuf;
};
static std::map<int, Sock *> socks; static uint64_t next_uid = 1; static int next_eph = 40000; static int next_conn = 1;
static const int FD0 = 300;
int stat_badclose;
static Sock *mk(decltype(Sock::kind) k, int af)
{
    int fd = FD0; while (socks.count(fd)) fd++;
    if (fd >= fd_max) { errno = EMFILE; return nullptr; }
    Sock *s = new Sock; s->fd = fd; s->uid = next_uid++; s->kind = k; s->af = af; socks[fd] = s; return s;
}
static Sock *get(int fd) { auto i = socks.find(fd); return i == socks.end() ? nullptr : i->second; }
static Addr to_addr(const struct sockaddr *a, socklen_t len = sizeof(struct sockaddr_in6))
{
    char b[80], o[120];
    if (a->sa_family == AF_INET) { auto *p = (const sockaddr_in *)a; inet_ntop(AF_INET, &p->sin_addr, b, sizeof b); snprintf(o, sizeof o, "%s:%d", b, ntohs(p->sin_port)); }
    else if (a->sa_family == AF_INET6) { if (len < sizeof(sockaddr_in6)) return "?short"; auto *p = (const sockaddr_in6 *)a; static const uint8_t PF[12] = {0, 0x64, 0xff, 0x9b}; if ((ipv6_clients || ipv6_servers) && !memcmp(&p->sin6_addr, PF, 12)) { inet_ntop(AF_INET, (const char *)&p->sin6_addr + 12, b, sizeof b); snprintf(o, sizeof o, "%s:%d", b, ntohs(p->sin6_port)); return o; }
        inet_ntop(AF_INET6, &p->sin6_addr, b, sizeof b); snprintf(o, sizeof o, "[%s]:%d", b, ntohs(p->sin6_port)); }
    else snprintf(o, sizeof o, "?af%d", a->sa_family);
    return o;
}
static void from_addr(const Addr &s, struct sockaddr *out, socklen_t *len, int af)
{
    if (!out) return;
    size_t c = s.rfind(':'); int port = atoi(s.c_str() + c + 1); std::string h = s.substr(0, c);
    struct sockaddr_in6 buf; memset(&buf, 0, sizeof buf); socklen_t n;
    if (h[0] != '[' && (ipv6_clients || ipv6_servers) && af == AF_INET6) h = "[64:ff9b::" + h + "]";
    if (h[0] == '[') { buf.sin6_family = AF_INET6; buf.sin6_port = htons(port); inet_pton(AF_INET6, h.substr(1, h.size() - 2).c_str(), &buf.sin6_addr); n = sizeof(sockaddr_in6); }
    else { auto *p = (sockaddr_in *)&buf; p->sin_family = AF_INET; p->sin_port = htons(port); inet_pton(AF_INET, h.c_str(), &p->sin_addr); n = sizeof(sockaddr_in); }
    memcpy(out, &buf, n < *len ? n : *len); *len = n;
}
static std::string port_of(const Addr &a) { return a.substr(a.rfind(':') + 1); }
static std::string host_of(const Addr &a) { return a.substr(0, a.rfind(':')); }
static Sock *find_udp(const Addr &dst)
{
    for (auto &kv : socks) if (kv.second->kind == Sock::UDP && kv.second->bound) {
        const Addr &l = kv.second->local;
        if (l == dst) return kv.second;
        std::string h = host_of(l);
        if (port_of(l) == port_of(dst) && (h == "0.0.0.0" || h == "[::]")) return kv.second;
    }
    return nullptr;
}
static void ensure_bound(Sock *s)
{
    if (s->bound) return;
    s->bound = true; s->local = (s->af == AF_INET6 ? "[fd00::1]:" : "10.0.0.1:") + std::to_string(next_eph++);
}
static void chkbuf(void *b, size_t n, const char *what)
{
    if (__asan_region_is_poisoned && n && __asan_region_is_poisoned(b, n)) fail("memory error: %s given a buffer of %zu bytes that is not entirely valid memory", what, n);
}
static void conn_tick(Conn *c) { if (c->st == Conn::CONNECTING && c->ready_at >= 0 && c->ready_at <= now_ms) c->st = c->will_refuse ? Conn::REFUSED : Conn::ESTABLISHED; }
static size_t conn_space(Conn *c) { size_t u = c->tx.size() - c->tx_seen; return u < c->window ? c->window - u : 0; }
static bool can_read(Sock *s)
{
    switch (s->kind) {
    case Sock::UDP: return !s->rx.empty();
    case Sock::LISTEN: return !s->acceptq.empty();
    case Sock::STREAM: conn_tick(s->conn); if (s->conn->st == Conn::REFUSED) return true; return s->conn->st == Conn::ESTABLISHED && (!s->conn->rx.empty() || s->conn->eof || s->conn->rst || s->conn->shut_rd);
    case Sock::PIPER: return !s->pbuf.empty();
    default: return false;
    }
}
static bool can_write(Sock *s)
{
    switch (s->kind) {
    case Sock::STREAM: conn_tick(s->conn); return s->conn->st != Conn::CONNECTING && (s->conn->rst || s->conn->prog_closed || conn_space(s->conn) > 0);
    case Sock::PIPER: case Sock::LISTEN: return false;
    case Sock::TCPNEW: return true;
    default: return true;
    }
}
void udp_in(const Addr &from, const Addr &to, const bytes &data)
{
    Sock *s = find_udp(to); if (!s) fail("harness: no program socket bound to %s", to.c_str());
    s->rx.push_back({from, data});
}
bool udp_reply(const Sent &x, const bytes &data)
{
    Sock *s = get(x.fd); if (!s || s->uid != x.sock_uid) return false;
    s->rx.push_back({x.dst, data}); return true;
}
Conn *tcp_connect(const Addr &from, const Addr &to)
{
    for (auto &kv : socks) if (kv.second->kind == Sock::LISTEN) {
        Sock *s = kv.second; std::string h = host_of(s->local);
        if (s->local == to || (port_of(s->local) == port_of(to) && (h == "0.0.0.0" || h == "[::]"))) {
            Conn *c = new Conn(); c->id = next_conn++; c->fd = -1; c->outgoing = false; c->local = to; c->peer = from; c->st = Conn::ESTABLISHED;
            conns.push_back(c); s->acceptq.push_back(c); return c;
        }
    }
    return nullptr;
}
void tcp_push(Conn *c, const bytes &d) { c->rx += d; }
void tcp_eof(Conn *c) { c->eof = true; }
bytes tcp_take(Conn *c) { bytes r = c->tx.substr(c->tx_seen); c->tx_seen = c->tx.size(); return r; }
int open_fds() { return (int)socks.size(); }
int open_conn_fds() { int n = 0; for (auto &k : socks) if (k.second->kind == Sock::STREAM) n++; return n; }

// ------------------------------------------------------------ files
static std::string real(const char *p)
{
    static const char pre[] = "/simroot/";
    if (strncmp(p, pre, sizeof pre - 1) == 0) return scratch + "/" + (p + sizeof pre - 1);
    if (strcmp(p, "/simroot") == 0) return scratch;
    return p;
}
static bool own_dir; static std::string pending_dir; bool private_files = false;
static void copy_tree(const std::string &a, const std::string &b)
{
    mkdir(b.c_str(), 0700);
    DIR *d = opendir(a.c_str()); if (!d) return; struct dirent *e;
    while ((e = readdir(d))) { std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string s = a + "/" + n, t = b + "/" + n; struct stat st; if (stat(s.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { copy_tree(s, t); continue; }
        FILE *f = fopen(s.c_str(), "rb"), *g = fopen(t.c_str(), "wb"); char buf[8192]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, k, g); fclose(f); fclose(g); }
    closedir(d);
}
// files the program has open belong to the copy from now on; where they are is taken before the fork, as the position is shared
struct OpenFile { int fd, flags; off_t at; std::string rel; };
static std::vector<OpenFile> open_files;
static void note_open(const std::string &from)
{
    open_files.clear(); DIR *d = opendir("/proc/self/fd"); if (!d) return; struct dirent *e; std::vector<int> fds; while ((e = readdir(d))) if (isdigit((unsigned char)e->d_name[0]) && atoi(e->d_name) != dirfd(d)) fds.push_back(atoi(e->d_name)); closedir(d);
    for (int fd : fds) { char l[512]; ssize_t n = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), l, sizeof l - 1); if (n <= 0) continue; std::string t(l, n); if (t.compare(0, from.size() + 1, from + "/")) continue; open_files.push_back({fd, fcntl(fd, F_GETFL), lseek(fd, 0, SEEK_CUR), t.substr(from.size())}); }
}
static void reopen(const std::string &to)
{
    for (auto &f : open_files) { int k = open((to + f.rel).c_str(), f.flags & (O_ACCMODE | O_APPEND)); if (k < 0) continue; lseek(k, f.at, SEEK_SET); dup2(k, f.fd); close(k); }
}
static void init_scratch()
{
    static int seq; static bool hooked;
    scratch = g_scratch_base + "/p" + std::to_string(getpid()) + "_" + std::to_string(seq++);
    mkdir(scratch.c_str(), 0700); own_dir = true;
    if (!hooked) {
        hooked = true;
        on_leaf = [] { if (own_dir) { rm_tree(scratch); own_dir = false; } };
        before_fork = [] { if (private_files) { static int k; pending_dir = g_scratch_base + "/c" + std::to_string(getpid()) + "_" + std::to_string(k++); copy_tree(scratch, pending_dir); note_open(scratch); } };
        after_fork_child = [] { if (private_files) { reopen(pending_dir); scratch = pending_dir; own_dir = true; } else own_dir = false; };
    }
}
std::string path(const std::string &rel) { return "/simroot/" + rel; }
static void need_scratch() { if (scratch.empty()) init_scratch(); }
bytes read_file(const std::string &rel) { need_scratch(); FILE *f = fopen((scratch + "/" + rel).c_str(), "rb"); bytes r; if (!f) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
void write_file(const std::string &rel, const bytes &c) { need_scratch(); for (size_t k = 0; (k = rel.find('/', k)) != std::string::npos; k++) mkdir((scratch + "/" + rel.substr(0, k)).c_str(), 0700); FILE *f = fopen((scratch + "/" + rel).c_str(), "wb"); if (!f) fail("harness: cannot write %s", rel.c_str()); fwrite(c.data(), 1, c.size(), f); fclose(f); }
bool file_exists(const std::string &rel) { need_scratch(); return access((scratch + "/" + rel).c_str(), F_OK) == 0; }
void remove_file(const std::string &rel) { need_scratch(); remove((scratch + "/" + rel).c_str()); }

// mmap'd files: kept as private memory, written back on munmap / sync_maps
struct Map { void *p; size_t n; std::string file; };
static std::vector<Map> maps;
void sync_maps() { for (auto &m : maps) { FILE *f = fopen(m.file.c_str(), "r+b"); if (f) { fwrite(m.p, 1, m.n, f); fclose(f); } } }
bool map_region(void **p, size_t *n) { if (maps.empty()) return false; *p = maps[0].p; *n = maps[0].n; return true; }

// ------------------------------------------------------------ program start
static std::vector<void (*)()> atexits;
struct ExitEx {};
static void do_exit(int code)
{
    if (exited) { for (;;) to_sched(); }
    exit_code = code;
    while (!atexits.empty()) { auto f = atexits.back(); atexits.pop_back(); f(); }
    exited = true;
    for (;;) { dead(cur); to_sched(); }
}
void boot(const std::string &config, const std::vector<std::string> &args)
{
    need_scratch();
    std::string cf = config;
    if (ipv6_clients || ipv6_servers) { std::string r; for (size_t i = 0; i < cf.size();) { size_t e = cf.find('\n', i); if (e == cf.npos) e = cf.size() - 1; std::string l = cf.substr(i, e + 1 - i); i = e + 1; if (!ipv6_clients) ; else if (!l.compare(0, 9, "UDPLocal ") || !l.compare(0, 9, "TCPLocal ")) { std::string m; for (size_t k = 0; k < l.size();) { int a, b, c, d, p, n = 0; if (isdigit(l[k]) && sscanf(l.c_str() + k, "%d.%d.%d.%d:%d%n", &a, &b, &c, &d, &p, &n) == 5 && n) { char t[64]; snprintf(t, sizeof t, "[64:ff9b::%x:%x]:%d", a << 8 | b, c << 8 | d, p); m += t; k += n; } else m += l[k++]; } l = m; }
            if (ipv6_servers && (!l.compare(0, 9, "UDPGroup ") || !l.compare(0, 9, "TCPGroup "))) { size_t se = l.find(' ', 9); if (se == l.npos) se = l.size(); std::string m = l.substr(0, 9); for (size_t k = 9; k < se;) { int a, b, c, d, n = 0; if (isdigit(l[k]) && (l[k - 1] == ' ' || l[k - 1] == ',') && sscanf(l.c_str() + k, "%d.%d.%d.%d%n", &a, &b, &c, &d, &n) == 4 && n) { char t[64]; snprintf(t, sizeof t, "[64:ff9b::%x:%x]", a << 8 | b, c << 8 | d); m += t; k += n; } else m += l[k++]; } l = m + l.substr(se); }
            r += l; } cf = r; }
    write_file("config", cf);
    static std::vector<std::string> av; av = {"dnsforwarder", "-f", path("config")};
    for (auto &a : args) av.push_back(a);
    new_thr([] { std::vector<char *> v; for (auto &s : av) v.push_back(strdup(s.c_str())); v.push_back(nullptr); int r = df_main((int)v.size() - 1, v.data()); do_exit(r); }, "main");
    bool e = sched_explore; sched_explore = false;
    run();
    sched_explore = e;
}
void shutdown_exit()
{
    new_thr([] { do_exit(0); }, "exit"); expect_exit = true; run();
}
// ------------------------------------------------------------ locks
struct Lk { int owner = -1; int readers = 0; std::map<int,int> rd; bool destroyed = false; };
static std::map<void *, Lk> lks;
static Lk &lk(void *l, const char *op)
{
    Lk &k = lks[l]; if (k.destroyed) fail("lock discipline: %s on a destroyed lock", op);
    return k;
}
static void lk_init(void *l) { lks[l] = Lk(); }
static void lk_destroy(void *l) { Lk &k = lk(l, "destroy"); if (k.owner >= 0 || k.readers) fail("lock discipline: lock destroyed while held"); k.destroyed = true; }
static void lk_lock(void *l, const char *what)
{
    lk(l, what); sched_point(what); if (!cur) { lks[l].owner = -2; return; }
    if (lks[l].owner == cur->id) fail("deadlock: thread re-acquires a lock it already holds (%s)", what);
    block([l] { Lk &k = lks[l]; return k.owner == -1 && k.readers == 0; }, -1, what, true);
    lk(l, what).owner = cur->id;
    if (sim_hook_lock) sim_hook_lock(l, 0);
}
static void lk_rd(void *l)
{
    lk(l, "rdlock"); sched_point("rdlock"); if (!cur) return;
    if (lks[l].owner == cur->id) fail("deadlock: read-acquiring a lock held for writing by the same thread");
    block([l] { return lks[l].owner == -1; }, -1, "rdlock", true);
    Lk &k = lk(l, "rdlock"); k.readers++; k.rd[cur->id]++;
    if (sim_hook_lock) sim_hook_lock(l, 2);
}
static void lk_unlock(void *l, const char *what)
{
    Lk &k = lk(l, what); int me = cur ? cur->id : -2;
    if (k.owner == me) { if (sim_hook_lock) sim_hook_lock(l, 1); k.owner = -1; }
    else if (cur && k.rd.count(me) && k.rd[me] > 0) { if (sim_hook_lock) sim_hook_lock(l, 3); k.rd[me]--; k.readers--; }
    else if (cur) fail("lock discipline: %s of a lock the thread does not hold", what);
    sched_point(what);
}
} // namespace sim
using namespace sim;

// the program compiled with -fsanitize=thread reports every access; addresses are checked by AddressSanitizer's runtime
#define ACCF(k) extern "C" void __asan_load##k(uintptr_t); extern "C" void __asan_store##k(uintptr_t); \
    extern "C" void __tsan_read##k(uintptr_t a) { acc(a); __asan_load##k(a); } extern "C" void __tsan_write##k(uintptr_t a) { acc(a); __asan_store##k(a); } \
    extern "C" void __tsan_unaligned_read##k(uintptr_t a) { acc(a); __asan_load##k(a); } extern "C" void __tsan_unaligned_write##k(uintptr_t a) { acc(a); __asan_store##k(a); }
ACCF(1) ACCF(2) ACCF(4) ACCF(8) ACCF(16)
extern "C" void __asan_loadN(uintptr_t, size_t); extern "C" void __asan_storeN(uintptr_t, size_t);
extern "C" void __tsan_read_range(uintptr_t a, size_t n) { acc(a); __asan_loadN(a, n); } extern "C" void __tsan_write_range(uintptr_t a, size_t n) { acc(a); __asan_storeN(a, n); }
extern "C" void __tsan_init() {} extern "C" void __tsan_func_entry(void *) {} extern "C" void __tsan_func_exit(void *) {}
extern "C" {
// ---- threads
int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a)
{
    Thr *n = new_thr([f, a] { f(a); }, "thread"); n->name = "thread" + std::to_string(n->id);
    if (sim_hook_create) sim_hook_create(n->id);
    if (t) *t = (pthread_t)(0x1000 + n->id);
    sched_point("pthread_create");
    return 0;
}
int sim_pthread_detach(pthread_t) { return 0; }
int sim_pthread_join(pthread_t t, void **r) { int id = (int)((uintptr_t)t - 0x1000); Thr *x = thr[id]; block([x] { return x->st == Thr::DEAD; }, -1, "join"); if (r) *r = nullptr; return 0; }
void sim_pthread_exit(void *) { for (;;) { dead(cur); to_sched(); } }
pthread_t sim_pthread_self(void) { return (pthread_t)(0x1000 + (cur ? cur->id : 0xfff)); }
int sim_sched_yield(void) { sched_point_force("yield"); return 0; }
// ---- locks
int sim_pthread_spin_init(pthread_spinlock_t *l, int) { lk_init((void *)l); return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *l) { lk_destroy((void *)l); return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *l) { lk_lock((void *)l, "spin_lock"); return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *l) { Lk &k = lk((void *)l, "trylock"); sched_point("trylock"); if (k.owner != -1) return EBUSY; k.owner = cur ? cur->id : -2; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *l) { lk_unlock((void *)l, "spin_unlock"); return 0; }
int sim_pthread_mutex_init(pthread_mutex_t *l, const pthread_mutexattr_t *) { lk_init(l); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *l) { lk_destroy(l); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *l) { lk_lock(l, "mutex_lock"); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *l) { Lk &k = lk(l, "trylock"); sched_point("trylock"); if (k.owner != -1) return EBUSY; k.owner = cur ? cur->id : -2; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *l) { lk_unlock(l, "mutex_unlock"); return 0; }
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { lk_init(l); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { lk_destroy(l); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { lk_rd(l); return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { lk_lock(l, "wrlock"); return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { Lk &k = lk(l, "tryrdlock"); if (k.owner != -1) return EBUSY; k.readers++; k.rd[cur ? cur->id : -2]++; return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { Lk &k = lk(l, "trywrlock"); if (k.owner != -1 || k.readers) return EBUSY; k.owner = cur ? cur->id : -2; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) { lk_unlock(l, "rwunlock"); return 0; }
// ---- time
static const int64_t EPOCH = 1700000000;
time_t sim_time(time_t *t) { time_t r = EPOCH + now_ms / 1000; if (t) *t = r; return r; }
int sim_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = EPOCH + now_ms / 1000; t->tv_nsec = (now_ms % 1000) * 1000000; return 0; }
int sim_gettimeofday(struct timeval *t, void *) { t->tv_sec = EPOCH + now_ms / 1000; t->tv_usec = (now_ms % 1000) * 1000; return 0; }
static void vsleep(int64_t ms) { int64_t d = now_ms + (ms < 0 ? 0 : ms); block([d] { return now_ms >= d; }, d, "sleep"); }
int sim_usleep(useconds_t us) { if (us == 0) { sched_point_force("usleep0"); return 0; } vsleep((us + 999) / 1000); return 0; }
unsigned sim_sleep(unsigned s) { vsleep((int64_t)s * 1000); return 0; }
int sim_nanosleep(const struct timespec *r, struct timespec *) { vsleep(r->tv_sec * 1000 + (r->tv_nsec + 999999) / 1000000); return 0; }
int sim_clock_nanosleep(clockid_t, int, const struct timespec *r, struct timespec *) { vsleep(r->tv_sec * 1000 + (r->tv_nsec + 999999) / 1000000); return 0; }
int sim_rand(void) { return on_rand ? on_rand() : 0; }
void sim_srand(unsigned) {}
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned) {}
// ---- process
void sim_exit(int c) { do_exit(c); for (;;) {} }
int sim_atexit(void (*f)(void)) { atexits.push_back(f); return 0; }
pid_t sim_fork(void) { errno = ENOSYS; return -1; }
int sim_system(const char *c) { sched_point("system"); note("system(%s)", c); return on_system ? on_system(c) : 0; }
struct passwd *sim_getpwuid(uid_t) { static struct passwd p; static char home[] = "/simroot"; memset(&p, 0, sizeof p); p.pw_dir = home; p.pw_name = home; return &p; }
// ---- sockets
int sim_socket(int af, int type, int) { sched_point("socket"); Sock *s = mk((type & 0xf) == SOCK_DGRAM ? Sock::UDP : Sock::TCPNEW, af); if (!s) return -1; if (type & SOCK_NONBLOCK) s->nonblock = true; return s->fd; }
int sim_close(int fd)
{
    if (fd < FD0) { return close(fd); }
    sched_point("close");
    Sock *s = get(fd); if (!s) { stat_badclose++; note("close of fd %d which is not open", fd); errno = EBADF; return -1; }
    if (s->conn) { s->conn->prog_closed = true; s->conn->fd = -1; }
    if (s->peer) s->peer->peer = nullptr;
    for (auto c : s->acceptq) c->prog_closed = true;
    socks.erase(fd); return 0; // Sock object leaked on purpose (other threads may hold it)
}
int sim_shutdown(int fd, int how) { Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } if (s->conn) { if (how != 0) s->conn->prog_closed = true; if (how != 1) s->conn->shut_rd = true; } return 0; }
int sim_bind(int fd, const struct sockaddr *a, socklen_t n)
{
    Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } Addr x = to_addr(a, n);
    if (x[0] == '?') { errno = EINVAL; return -1; }
    if (on_bind) on_bind(x, s->kind != Sock::UDP);
    if (port_of(x) == "0") x = host_of(x) + ":" + std::to_string(next_eph++);
    for (auto &kv : socks) if (kv.second != s && kv.second->bound && kv.second->local == x && (kv.second->kind == Sock::UDP) == (s->kind == Sock::UDP)) { errno = EADDRINUSE; return -1; }
    s->bound = true; s->local = x; return 0;
}
int sim_listen(int fd, int) { Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } s->kind = Sock::LISTEN; return 0; }
int sim_accept(int fd, struct sockaddr *a, socklen_t *n)
{
    sched_point("accept"); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; }
    if (s->acceptq.empty()) { if (s->nonblock) { errno = EWOULDBLOCK; return -1; } if (!block([s] { return !s->acceptq.empty(); }, -1, "accept")) { errno = EINTR; return -1; } }
    Conn *c = s->acceptq.front(); s->acceptq.pop_front(); Sock *k = mk(Sock::STREAM, s->af); if (!k) return -1;
    k->conn = c; c->fd = k->fd; c->accepted = true; k->local = c->local; k->bound = true; if (a && n) from_addr(c->peer, a, n, s->af); return k->fd;
}
int sim_accept4(int fd, struct sockaddr *a, socklen_t *n, int) { return sim_accept(fd, a, n); }
int sim_connect(int fd, const struct sockaddr *a, socklen_t n)
{
    sched_point("connect"); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } Addr d = to_addr(a, n);
    if (d[0] == '?') { errno = EAFNOSUPPORT; return -1; }
    if (s->kind == Sock::UDP) { errno = EOPNOTSUPP; return -1; }
    Conn *c = new Conn(); c->id = next_conn++; c->fd = fd; c->outgoing = true; c->peer = d; c->st = Conn::CONNECTING; c->accepted = true;
    int64_t delay = 0; int dec = on_connect ? on_connect(d, &delay) : REFUSE;
    c->ready_at = dec == BLACKHOLE ? -1 : now_ms + delay; c->will_refuse = dec == REFUSE; conns.push_back(c); if (c->ready_at >= 0) pending.push_back(c);
    s->kind = Sock::STREAM; s->conn = c; ensure_bound(s); c->local = s->local;
    if (s->nonblock) { errno = EINPROGRESS; return -1; }
    block([c] { conn_tick(c); return c->st != Conn::CONNECTING; }, c->ready_at >= 0 ? c->ready_at : now_ms + 130000, "connect");
    conn_tick(c); if (c->st == Conn::ESTABLISHED) return 0; errno = c->st == Conn::REFUSED ? ECONNREFUSED : ETIMEDOUT; return -1;
}
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al)
{
    sched_point("send"); chkbuf((void *)b, n, "send");
    Sock *s = get(fd); if (!s) { errno = EBADF; return -1; }
    if (s->kind == Sock::PIPEW) { s->peer->pbuf.append((const char *)b, n); return n; }
    if (s->kind == Sock::STREAM) {
        Conn *c = s->conn; conn_tick(c);
        if (c->st == Conn::CONNECTING) { errno = EAGAIN; return -1; }
        if (c->st == Conn::REFUSED) { errno = ECONNREFUSED; return -1; }
        if (c->rst) { errno = EPIPE; return -1; }
        if (c->prog_closed) { errno = EPIPE; return -1; }
        size_t done = 0;
        while (done < n) {
            if (!conn_space(c)) {
                if (s->nonblock || (fl & MSG_DONTWAIT)) { if (done) return done; errno = EAGAIN; return -1; }
                if (!block([s] { return can_write(s); }, s->sndtimeo > 0 ? now_ms + s->sndtimeo : -1, "send")) { if (done) return done; errno = EAGAIN; return -1; }
                if (c->rst || c->prog_closed) { if (done) return done; errno = EPIPE; return -1; }
            }
            size_t k = conn_space(c) < n - done ? conn_space(c) : n - done; c->tx.append((const char *)b + done, k); done += k;
        }
        return n;
    }
    if (s->kind != Sock::UDP) { errno = ENOTCONN; return -1; }
    if (!a) { errno = EDESTADDRREQ; return -1; }
    ensure_bound(s);
    Sent x{now_ms, fd, s->uid, s->local, to_addr(a, al), bytes((const char *)b, n)};
    if (x.dst[0] == '?') { errno = EAFNOSUPPORT; return -1; }
    if (a->sa_family != s->af) { errno = EAFNOSUPPORT; return -1; }
    if (n > 65507) { errno = EMSGSIZE; return -1; }
    Sock *d = find_udp(x.dst);
    if (d) { d->rx.push_back({s->local, x.data}); return n; }
    if (on_sendto) { int e = on_sendto(x); if (e) { errno = e; return -1; } }
    out.push_back(x); return n;
}
ssize_t sim_send(int fd, const void *b, size_t n, int fl) { return sim_sendto(fd, b, n, fl, NULL, 0); }
// what lies behind a received message in the caller's buffer is unspecified
static void stale_fill(char *b, size_t n) { if (!stale) return; for (size_t i = 0; i < n; i++) b[i] = (*stale)[i % stale->size()]; }
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al)
{
    sched_point("recv"); chkbuf(b, n, "recv"); bool peek = fl & MSG_PEEK; bool dontwait = fl & MSG_DONTWAIT;
    Sock *s = get(fd); if (!s) { errno = EBADF; return -1; }
    if (s->kind == Sock::TCPNEW || s->kind == Sock::LISTEN) { errno = ENOTCONN; return -1; }
    size_t done = 0;
    for (;;) {
        if (!can_read(s)) {
            if (s->nonblock || dontwait) { if (done) return done; errno = EAGAIN; return -1; }
            int64_t dl = s->rcvtimeo > 0 ? now_ms + s->rcvtimeo : -1;
            if (!block([s] { return can_read(s); }, dl, "recv")) { if (done) return done; errno = EAGAIN; return -1; }
        }
        if (s->kind == Sock::UDP) {
            auto x = s->rx.front(); if (!peek) s->rx.pop_front(); size_t k = x.second.size() < n ? x.second.size() : n; memcpy(b, x.second.data(), k); stale_fill((char *)b + k, n - k); if (a && al) from_addr(x.first, a, al, s->af); return k;
        }
        if (s->kind == Sock::PIPER) { size_t k = s->pbuf.size() < n ? s->pbuf.size() : n; memcpy(b, s->pbuf.data(), k); s->pbuf.erase(0, k); return k; }
        Conn *c = s->conn;
        if (c->st == Conn::REFUSED) { errno = ECONNREFUSED; return -1; }
        if (!c->rx.empty()) {
            size_t k = c->rx.size() < n - done ? c->rx.size() : n - done; memcpy((char *)b + done, c->rx.data(), k); if (!peek) c->rx.erase(0, k); done += k;
            if ((fl & MSG_WAITALL) && done < n && !peek) continue;
            stale_fill((char *)b + done, n - done); return done;
        }
        if (c->rst) { if (done) return done; errno = ECONNRESET; return -1; }
        return done; // eof
    }
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) { return sim_recvfrom(fd, b, n, fl, NULL, NULL); }
ssize_t sim_read(int fd, void *b, size_t n) { if (fd < FD0) return read(fd, b, n); return sim_recvfrom(fd, b, n, 0, NULL, NULL); }
ssize_t sim_write(int fd, const void *b, size_t n) { if (fd < FD0) return write(fd, b, n); return sim_sendto(fd, b, n, 0, NULL, 0); }
int sim_pipe(int *p) { Sock *r = mk(Sock::PIPER, 0), *w = mk(Sock::PIPEW, 0); w->peer = r; r->peer = w; p[0] = r->fd; p[1] = w->fd; return 0; }
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    sched_point("select");
    if (n > FD_SETSIZE) fail("select() with descriptor %d, which does not fit into a fd_set: memory behind it is used", n - 1);
    fd_set ri, wi; FD_ZERO(&ri); FD_ZERO(&wi); if (r) ri = *r; if (w) wi = *w;
    std::vector<Sock *> rs, ws;
    for (int i = 0; i < n; i++) {
        if (r && FD_ISSET(i, &ri)) { Sock *s = get(i); if (!s) { errno = EBADF; return -1; } rs.push_back(s); }
        if (w && FD_ISSET(i, &wi)) { Sock *s = get(i); if (!s) { errno = EBADF; return -1; } ws.push_back(s); }
    }
    int64_t start = now_ms; int64_t to = -1;
    if (tv) { if (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec >= 1000000) { errno = EINVAL; return -1; } to = (int64_t)tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000; }
    auto ready = [rs, ws] { for (auto s : rs) if (can_read(s)) return true; for (auto s : ws) if (can_write(s)) return true; return false; };
    if (!ready() && to != 0) block(ready, to < 0 ? -1 : now_ms + to, "select");
    int k = 0; if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
    for (auto s : rs) if (get(s->fd) == s && can_read(s)) { FD_SET(s->fd, r); k++; }
    for (auto s : ws) if (get(s->fd) == s && can_write(s)) { FD_SET(s->fd, w); k++; }
    if (tv) { int64_t left = to - (now_ms - start); if (left < 0) left = 0; tv->tv_sec = left / 1000; tv->tv_usec = (left % 1000) * 1000; }
    return k;
}
int sim_poll(struct pollfd *p, nfds_t n, int to)
{
    sched_point("poll");
    std::vector<std::pair<Sock *, short>> v; for (nfds_t i = 0; i < n; i++) { Sock *s = p[i].fd >= 0 ? get(p[i].fd) : nullptr; v.push_back({s, p[i].events}); }
    auto ready = [v] { for (auto &x : v) if (x.first && (((x.second & POLLIN) && can_read(x.first)) || ((x.second & POLLOUT) && can_write(x.first)))) return true; return false; };
    if (!ready() && to != 0) block(ready, to < 0 ? -1 : now_ms + to, "poll");
    int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; Sock *s = v[i].first; if (!s) { if (p[i].fd >= 0) { p[i].revents = POLLNVAL; k++; } continue; } if ((p[i].events & POLLIN) && can_read(s)) p[i].revents |= POLLIN; if ((p[i].events & POLLOUT) && can_write(s)) p[i].revents |= POLLOUT; if (p[i].revents) k++; }
    return k;
}
int sim_fcntl(int fd, int cmd, ...)
{
    va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
    if (fd < FD0) return fcntl(fd, cmd, arg);
    Sock *s = get(fd); if (!s) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
    return 0;
}
int sim_ioctl(int fd, unsigned long req, ...) { va_list a; va_start(a, req); int *p = va_arg(a, int *); va_end(a); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } s->nonblock = p && *p; return 0; }
int sim_setsockopt(int fd, int lv, int opt, const void *v, socklen_t n)
{
    Sock *s = get(fd); if (!s) { errno = EBADF; return -1; }
    if (lv == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) { int ms = 0; if (n >= sizeof(struct timeval)) { auto *t = (const struct timeval *)v; ms = t->tv_sec * 1000 + t->tv_usec / 1000; } (opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = ms; }
    return 0;
}
int sim_getsockopt(int fd, int lv, int opt, void *v, socklen_t *n)
{
    Sock *s = get(fd); if (!s) { errno = EBADF; return -1; }
    if (lv == SOL_SOCKET && opt == SO_ERROR && s->conn) { conn_tick(s->conn); *(int *)v = s->conn->st == Conn::REFUSED ? ECONNREFUSED : 0; } else if (v && n && *n >= 4) *(int *)v = 0;
    return 0;
}
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *n) { Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } ensure_bound(s); from_addr(s->local, a, n, s->af); return 0; }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *n) { Sock *s = get(fd); if (!s || !s->conn) { errno = ENOTCONN; return -1; } from_addr(s->conn->peer, a, n, s->af); return 0; }
// ---- files
FILE *sim_fopen(const char *p, const char *m) { sched_point("fopen"); if (sim::on_file) if (int e = sim::on_file(m[0] == 'r' ? "read" : m[0] == 'a' ? "append" : "write", p)) { errno = e; return nullptr; } return fopen(real(p).c_str(), m); }
int sim_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a); return open(real(p).c_str(), fl, mode); }
int sim_remove(const char *p) { if (sim::on_file) if (int e = sim::on_file("remove", p)) { errno = e; return -1; } return remove(real(p).c_str()); }
int sim_unlink(const char *p) { return unlink(real(p).c_str()); }
int sim_rename(const char *a, const char *b) { if (sim::on_file) if (int e = sim::on_file("rename", b)) { errno = e; return -1; } return rename(real(a).c_str(), real(b).c_str()); }
int sim_mkdir(const char *p, mode_t m) { return mkdir(real(p).c_str(), m); }
int sim_access(const char *p, int m) { return access(real(p).c_str(), m); }
int sim_stat(const char *p, struct stat *b) { return stat(real(p).c_str(), b); }
void *sim_mmap(void *addr, size_t n, int prot, int fl, int fd, off_t off)
{
    if (fl & MAP_ANONYMOUS || fd < 0) return mmap(addr, n, prot, fl, fd, off);
    char lnk[64], buf[1024]; snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd); ssize_t k = readlink(lnk, buf, sizeof buf - 1); if (k < 0) return MAP_FAILED; buf[k] = 0;
    void *m = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); 
    struct stat st; fstat(fd, &st); size_t have = (size_t)st.st_size < n ? st.st_size : n; ssize_t got = pread(fd, m, have, off); (void)got;
    maps.push_back({m, n, buf}); if (sim_hook_map) sim_hook_map(m, n); return m;
}
int sim_munmap(void *p, size_t n) { for (size_t i = 0; i < maps.size(); i++) if (maps[i].p == p) { sync_maps(); maps.erase(maps.begin() + i); return 0; } return munmap(p, n); }
int sim_msync(void *, size_t, int) { sync_maps(); return 0; }
// ---- curl stand-in
struct CurlS { std::string url; bool failonerror = false; size_t (*wf)(void *, size_t, size_t, void *); void *wd; };
int curl_global_init(long) { return 0; }
void curl_global_cleanup(void) {}
void *curl_easy_init(void) { return new CurlS(); }
void curl_easy_cleanup(void *c) { delete (CurlS *)c; }
int curl_easy_setopt(void *h, int opt, ...)
{
    CurlS *c = (CurlS *)h; va_list a; va_start(a, opt);
    if (opt == 45) c->failonerror = va_arg(a, long) != 0; else if (opt == 10002) c->url = va_arg(a, char *); else if (opt == 20011) c->wf = va_arg(a, size_t (*)(void *, size_t, size_t, void *)); else if (opt == 10001) c->wd = va_arg(a, void *);
    va_end(a); return 0;
}
int curl_easy_perform(void *h)
{
    CurlS *c = (CurlS *)h; bytes b; sched_point("http"); int r = on_http ? on_http(c->url.c_str(), &b) : 7; if (r >= 400) { if (c->failonerror) return 22; r = 0; } // an HTTP status
   
    if (!b.empty() && c->wf) { size_t k = c->wf((void *)b.data(), 1, b.size(), c->wd); if (k != b.size()) return 23; }
    return r;
}
const char *curl_easy_strerror(int) { return "error"; }
}

// ------------------------------------------------------------ memory held by the program (MEM=1)
#include <unordered_map>
#include <execinfo.h>
namespace sim { size_t mem_bytes, mem_blocks; }
struct MemBlk { size_t n; uint64_t seq; void *pc[6]; int k; };
static std::unordered_map<void *, MemBlk> &memtab() { static auto *m = new std::unordered_map<void *, MemBlk>; return *m; }
static uint64_t mem_seq, mem_from;
extern "C" {
static void *mem_add(void *p, size_t n) { if (!p) return p; MemBlk b; b.n = n; b.seq = ++mem_seq; void *f = __builtin_frame_address(0); b.k = g_verbose ? backtrace(b.pc, 6) : 0; memtab()[p] = b; sim::mem_bytes += n; sim::mem_blocks++; return p; }
static void mem_del(void *p) { auto i = memtab().find(p); if (i == memtab().end()) return; sim::mem_bytes -= i->second.n; sim::mem_blocks--; memtab().erase(i); }
void *sim_malloc(size_t n) { return mem_add(malloc(n), n); }
void *sim_calloc(size_t a, size_t b) { return mem_add(calloc(a, b), a * b); }
void *sim_realloc(void *p, size_t n) { MemBlk old; bool had = false; auto i = memtab().find(p); if (p && i != memtab().end()) { old = i->second; had = true; mem_del(p); } void *q = realloc(p, n); if (!q && n && had) { memtab()[p] = old; sim::mem_bytes += old.n; sim::mem_blocks++; return q; } return mem_add(q, n); }
void sim_free(void *p) { mem_del(p); free(p); }
char *sim_strdup(const char *s) { char *p = strdup(s); mem_add(p, strlen(s) + 1); return p; }
}
namespace sim {
void mem_mark() { mem_from = mem_seq; }
std::string mem_report() { std::string s; for (auto &b : memtab()) if (b.second.seq > mem_from) { char t[400]; int n = snprintf(t, sizeof t, "%zu bytes from", b.second.n); for (int k = 0; k < b.second.k; k++) n += snprintf(t + n, sizeof t - n, " %p", b.second.pc[k]); s += t; s += "\n"; } return s; }
}
