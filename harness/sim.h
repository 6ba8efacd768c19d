// Controlled execution environment ("sim") for model checking the real
// dnsforwarder program: every libc boundary that carries nondeterminism
// (threads, locks, sockets, pipes, clock, randomness) is replaced, program
// threads are coroutines, and every nondeterministic step is a choose().
#pragma once
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>

typedef std::string bytes;

// ---------------------------------------------------------------- explorer
// choose(n): nondeterministic choice in 0..n-1; all branches are explored.
int choose(int n, const char *label);
// One complete execution finished (never returns). obs = observable outcome.
[[noreturn]] void exec_done(const std::string &obs);
// Property violated on this execution (never returns).
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define REQUIRE(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
// Free-form note kept in the trace of this execution
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Run `scenario` exhaustively; returns when all executions were explored.
void explore(const std::string &name, const std::function<void()> &scenario);
// run fn in a process of its own (an earlier life of the program); choose() does not branch there
void subrun(const std::function<void()> &fn);
// count extra work inside one execution (e.g. in-process enumerated inputs)
void count_states(uint64_t n);
void count_transitions(uint64_t n);
void count_eval(uint64_t n);          // oracle evaluations
void count_obs(const std::string &o);  // distinct observable outcomes
bool known_finding(const std::string &key, const std::string &what); // true if listed -> suppress
extern int g_thorough;
extern bool g_verbose;
// main entry implemented by each check
void check_main();

// ---------------------------------------------------------------- sim
typedef std::string Addr; // "1.2.3.4:53" / "[::1]:53"

struct Sent {            // datagram leaving the program towards the environment
    int64_t t; int fd; uint64_t sock_uid; Addr src, dst; bytes data;
};
struct Conn {            // TCP connection between program and environment
    int id; int fd; bool outgoing; Addr local, peer;
    enum { CONNECTING, ESTABLISHED, REFUSED } st;
    int64_t ready_at;    // when CONNECTING resolves
    bool will_refuse;
    bytes rx; bool eof, rst; // env -> program
    bytes tx;            // program -> env (accumulated)
    bool prog_closed; bool accepted;
    size_t tx_seen;
    size_t window = (size_t)-1;  // bytes the peer accepts before it reads (tcp_take)
    bool shut_rd = false;
};
namespace sim {
extern int64_t now_ms;
extern std::deque<Sent> out;             // all datagrams sent to environment
extern std::vector<Conn*> conns;
enum ConnDecision { ACCEPT, REFUSE, BLACKHOLE };
extern std::function<int(const Addr &dst, int64_t *delay_ms)> on_connect;
extern std::function<int()> on_rand;
extern std::function<int(const Sent&)> on_sendto; // return 0 ok, else errno to fail with
extern std::function<int(const char*url, bytes*content)> on_http; // 0 = ok
extern bool ipv6_servers; /* the same for the servers of UDPGroup and TCPGroup lines */
extern bool ipv6_clients; /* UDPLocal and TCPLocal are IPv6 addresses (64:ff9b::a.b.c.d for a.b.c.d) and so are the clients' */
extern std::function<int(const char*command)> on_system; // gives the wait status
extern std::function<void(const Addr &local, bool tcp)> on_bind; // tells what the program binds to
extern std::function<int(const char *op, const char *path)> on_file; // before a file is opened ("read"/"write"/"append"), renamed or removed; 0 = go on, else errno
extern std::vector<std::string> console;  // captured? (unused)
extern int fd_max;         // descriptors of sockets are below
extern bool sched_explore; extern int delay_budget;
extern int acc_points;    // access-level mode (build with ACCESS=1): points before accesses to shared memory
extern int lock_points;   // scheduling points at lock operations too
extern std::string scratch;               // private scratch dir
std::string path(const std::string &rel); // virtual path handed to the program
bytes read_file(const std::string &rel);
void write_file(const std::string &rel, const bytes &c);
bool file_exists(const std::string &rel);
void remove_file(const std::string &rel);
void boot(const std::string &config, const std::vector<std::string> &args = {});
void spawn(const std::function<void()> &fn, const char *name); // extra coroutine
void run();                 // until quiescent (no time passes)
void advance(int64_t ms);   // let virtual time pass
int live_threads();
int open_fds();
int open_conn_fds();
extern int stat_badclose;    // closes of descriptors which were not open
extern size_t mem_bytes, mem_blocks; // memory the program holds (build with MEM=1)
std::string mem_report();  // blocks allocated since mem_mark()
void mem_mark();
// client side
void udp_in(const Addr &from, const Addr &to, const bytes &data); // env -> bound program socket
bool udp_reply(const Sent &s, const bytes &data);   // env answers the socket that sent s
Conn *tcp_connect(const Addr &from, const Addr &to); // env client connects
void tcp_push(Conn *c, const bytes &data);
void tcp_eof(Conn *c);
bytes tcp_take(Conn *c);    // bytes the program wrote since last take
void check_deadlock();      // called automatically in run()
bool map_region(void **p, size_t *n); // the mapped file
void shutdown_exit();       // program calls exit handlers
extern bool exited; extern int exit_code;
extern bool expect_exit; extern bool private_files;
extern const bytes *stale;   // pattern written behind every received message (buffer tail contents are unspecified)
extern uint64_t stat_switches;
}
