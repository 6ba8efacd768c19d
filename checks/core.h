// Event-history and schedule exploration of plain forwarding, shared by P01 and P02.
#include "scn.h"
#ifndef ORACLE
#error
#endif
#define ISO(c, ...)  do { if (ORACLE == 1 && !(c)) fail(__VA_ARGS__); } while (0)
#define ONCE(c, ...) do { if (ORACLE == 2 && !(c)) fail(__VA_ARGS__); } while (0)
struct QDef { int client; int id; const char *name; int type; bool edns; };
static int net = 0; // 0: IPv4, 1: IPv6, 2: clients of both
static const Client CLS[3][3] = {{{"9.9.9.1:1111", "127.0.0.1:53"}, {"9.9.9.2:2222", "127.0.0.1:53"}, {"9.9.9.1:1111", "127.0.0.2:53"}}, {{"[2001:db8::9:1]:1111", "[::1]:53"}, {"[2001:db8::9:2]:1111", "[::1]:53"}, {"[2001:db8::9:1]:1111", "[::2]:53"}}, {{"9.9.9.1:1111", "127.0.0.1:53"}, {"[2001:db8::9:1]:1111", "[::1]:53"}, {"[::ffff:9.9.9.1]:1111", "[::1]:53"}}};
#define CL CLS[net]
static const Addr TCPIF[] = {"127.0.0.1:53", "[::1]:53", "[::1]:53"}, TCPCL[] = {"9.9.9.3:3333", "[2001:db8::9:3]:3333", "[2001:db8::9:3]:3333"};
static std::set<Addr> servers() { if (net == 1) return {"[1::1]:53", "[2::1]:53"}; return {"1.1.1.1:53", "2.2.2.2:53"}; }
static bool second(const Addr &a) { return a[a[0] == '['] == '2'; }
static const char *C1 = "adezhs.com", *C2 = "yjvxth.com"; // equal name hash
static std::vector<QDef> QS = {
    {0, 0x0001, "adezhs.com", dns::A}, {1, 0x0001, "adezhs.com", dns::A}, {1, 0x0001, "adezhs.com", dns::AAAA}, {0, 0x0001, "yjvxth.com", dns::A},
    {1, 0x0100, "adezhs.com", dns::A}, {2, 0x0001, "adezhs.com", dns::A}, {1, 0x0001, "b.com", dns::A}, {0, 0x0001, "ADezhs.com", dns::AAAA}};
static bytes mk_answer(const bytes &qb, int variant, int rcode = 0)
{
    dns::Msg q; if (!dns::decode(qb, q) || q.qd.size() != 1) fail("forwarded query is not well-formed: %s", dns::hex(qb).c_str());
    std::vector<dns::RR> an; const std::string &n = q.qd[0].name; char ip[32];
    snprintf(ip, sizeof ip, "10.%d.%d.%d", variant, q.qd[0].type, (int)n.size());
    if (q.qd[0].type == dns::A) an.push_back(dns::rrA(n, ip)); else if (q.qd[0].type == dns::AAAA) an.push_back(dns::rrAAAA(n, bytes(12, (char)variant) + dns::ip4(ip)));
    dns::Msg a = dns::answer(q, an, rcode); if (rcode) a.an.clear();
    return variant & 1 ? dns::encode_c(a) : dns::encode(a);
}
struct Core : World {
    int uid = 0; std::vector<bytes> relayed; std::string obs;
    Conn *tcp = nullptr; size_t tcpoff = 0; bytes tcpbuf;
    void query(const QDef &d) {
        dns::Msg q = dns::query(d.id, d.name, d.type, d.edns); bytes b = dns::encode(q); const Client &c = CL[d.client];
        pend.push_back({uid++, c.addr, c.iface, nullptr, q, now_ms}); udp_in(c.addr, c.iface, b);
        note("query #%d from %s via %s: %s", uid - 1, c.addr.c_str(), c.iface.c_str(), dns::str(q).c_str()); obs += "q";
    }
    void query_tcp(const QDef &d) {
        dns::Msg q = dns::query(d.id, d.name, d.type, d.edns); bytes b = dns::encode(q), f; dns::p16(f, b.size()); f += b;
        if (!tcp) tcp = tcp_connect(TCPCL[net], TCPIF[net]);
        pend.push_back({uid++, "tcp", "tcp", tcp, q, now_ms}); tcp_push(tcp, f); note("tcp query #%d %s", uid - 1, dns::str(q).c_str()); obs += "t";
    }
    // the replies produced since the last call
    std::vector<std::pair<Sent, Conn *>> replies() {
        std::vector<Sent> nc; drain(nullptr, &nc); std::vector<std::pair<Sent, Conn *>> r; for (auto &s : nc) r.push_back({s, nullptr});
        if (tcp) { tcpbuf += tcp_take(tcp); while (tcpbuf.size() >= 2) { size_t n = dns::g16(tcpbuf, 0); if (tcpbuf.size() < 2 + n) break; Sent s; s.dst = "tcp"; s.src = "tcp"; s.data = tcpbuf.substr(2, n); tcpbuf.erase(0, 2 + n); note("tcp reply %s", dns::show(s.data).c_str()); r.push_back({s, tcp}); } ISO(tcpbuf.empty(), "stray bytes on the TCP connection: %s", dns::hex(tcpbuf).c_str()); }
        return r;
    }
    // check replies against the set of answers delivered in this step
    void settle(std::vector<bytes> delivered, bool strict = true) {
        auto rs = replies(); count_eval(1 + rs.size());
        for (auto &r : rs) {
            dns::Msg m; bool ok = dns::decode(r.first.data, m);
            ISO(ok, "undecodable reply %s", dns::hex(r.first.data).c_str());
            Pending *best = nullptr;
            for (auto &p : pend) if (!p.replies && p.client == r.first.dst && p.iface == r.first.src && p.conn == r.second && same_q(p.q, m)) { best = &p; break; }
            ISO(best, "reply to %s via %s does not belong to any outstanding query of that client on that interface: %s", r.first.dst.c_str(), r.first.src.c_str(), dns::show(r.first.data).c_str());
            ONCE(best, "a reply nobody is waiting for (second reply?): %s", dns::show(r.first.data).c_str());
            bool from = false; for (size_t i = 0; i < delivered.size(); i++) if (delivered[i] == r.first.data) { from = true; delivered.erase(delivered.begin() + i); break; }
            ONCE(from, "reply is not an answer that was just received, or answers twice: %s", dns::show(r.first.data).c_str());
            if (best) best->replies++;
            obs += "r" + std::to_string(best ? best->uid : -1);
        }
        // what should have been relayed: an answer with an outstanding matching query
        if (strict) for (auto &d : delivered) { dns::Msg m; dns::decode(d, m); for (auto &p : pend) if (!p.replies && same_q(p.q, m)) ONCE(false, "answer to outstanding query #%d was not relayed: %s", p.uid, dns::show(d).c_str()); }
    }
};
static std::string base_conf(bool parallel) { static const char *L[] = {"UDPLocal 127.0.0.1:53,127.0.0.2:53\nTCPLocal 127.0.0.1:53\n", "UDPLocal [::1]:53,[::2]:53\nTCPLocal [::1]:53\n", "UDPLocal 127.0.0.1:53,[::1]:53\nTCPLocal 127.0.0.1:53,[::1]:53\n"}; return std::string("LogOn false\nUseCache false\n") + L[net] + "EnableTCPtoUDP true\nUDPGroup " + (net == 1 ? "[1::1]" : "1.1.1.1") + (parallel ? net == 1 ? ",[2::1] * on\n" : ",2.2.2.2 * on\n" : " * off\n"); }

static void histories(bool parallel, int maxq, int maxsteps, int nq)
{
    Core w; w.upstreams = servers();
    boot(base_conf(parallel));
    int nsent = 0;
    for (int step = 0; step < maxsteps; step++) {
        std::vector<std::pair<int, int>> ev; // kind,arg
        ev.push_back({0, 0});
        if (nsent < maxq) for (int i = 0; i < nq; i++) ev.push_back({1, i});
        if (nsent < maxq) ev.push_back({4, 0});
        for (size_t i = 0; i < w.up.size(); i++) if (w.up_answered[i] == 0) ev.push_back({2, (int)i});
        bool dup = false; for (size_t i = 0; i < w.up.size(); i++) if (w.up_answered[i] == 1 && !dup) { ev.push_back({2, (int)i}); dup = true; }
        if (step == 0) ev.erase(ev.begin());
        auto e = ev[choose((int)ev.size(), "event")];
        if (e.first == 0) break;
        size_t before = w.up.size(); std::vector<bytes> delivered;
        if (e.first == 1) { w.query(QS[e.second]); nsent++; }
        else if (e.first == 4) { w.query_tcp({0, 0x0001, "adezhs.com", dns::A}); nsent++; }
        else { bytes a = mk_answer(w.up[e.second].data, w.up_answered[e.second] + (second(w.up[e.second].dst) ? 2 : 0), (step * 2 + e.second) % 5); w.up_answered[e.second]++; note("answer upstream datagram %d: %s", e.second, dns::show(a).c_str()); if (udp_reply(w.up[e.second], a)) delivered.push_back(a); w.obs += "a"; }
        run(); w.settle(delivered);
        if (e.first == 1 || e.first == 4) {
            ONCE(w.up.size() == before + (parallel ? 2 : 1), "query was forwarded %zu times", w.up.size() - before);
            for (size_t i = before; i < w.up.size(); i++) ONCE(w.up[i].data == dns::encode(w.pend.back().q), "query not forwarded unchanged: %s", dns::hex(w.up[i].data).c_str());
        } else ONCE(w.up.size() == before, "an answer caused an upstream query");
    }
    exec_done(w.obs);
}
// many pending queries sharing one ID: removal in every order must keep all others findable
static void same_id_many(int n)
{
    static const char *names[] = {"a.com", "zzz.net", "mmmmmm.org", "q1x.de", "kk.example", "wwwwwwww.jp", "x0.eu", "t.cn"};
    Core w; w.upstreams = servers(); boot(base_conf(false));
    for (int i = 0; i < n; i++) { w.query({i & 1, 7, names[i], dns::A}); run(); w.settle({}); }
    std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i);
    while (!left.empty()) {
        int k = choose((int)left.size(), "answer"); int i = left[k]; left.erase(left.begin() + k);
        bytes a = mk_answer(w.up[i].data, 0); udp_reply(w.up[i], a); run(); w.settle({a});
    }
    for (auto &p : w.pend) ONCE(p.replies == 1, "query #%d got %d replies", p.uid, p.replies);
    exec_done(w.obs);
}
// concurrent arrivals under all schedules within the delay budget
static void schedules(bool parallel, int budget)
{
    Core w; w.upstreams = servers(); boot(base_conf(parallel));
    int a = choose((int)QS.size(), "q1"); w.query(QS[a]); run(); w.settle({});
    size_t n1 = w.up.size();
    int b = choose((int)QS.size(), "q2"); int sw = choose(2, "near-sweep");
    if (sw) { advance(9999 - now_ms % 10000); w.settle({}); }
    // q2 by UDP (and a TCP client) arrive while the answers to q1 arrive
    sched_explore = true; delay_budget = budget;
    std::vector<bytes> dl; if (!sw) { for (size_t i = 0; i < n1; i++) { bytes x = mk_answer(w.up[i].data, (int)i * 2); udp_reply(w.up[i], x); dl.push_back(x); } }
    w.query(QS[b]); w.query_tcp({0, 0x0001, "adezhs.com", dns::AAAA});
    if (sw) advance(2); else run();
    sched_explore = false; if (sw) w.pend[0].replies = 1; // swept
    w.settle(dl, false); // arrivals raced: an answer may have been processed before the new query was registered
    size_t n2 = w.up.size(); dl.clear();
    ONCE(n2 == n1 * 3, "%zu datagrams forwarded upstream instead of %zu", n2, n1 * 3);
    for (size_t i = n1; i < n2; i++) { bytes x = mk_answer(w.up[i].data, (i & 1) * 2 + 4); udp_reply(w.up[i], x); run(); w.settle({x}); }
    for (auto &p : w.pend) if (!(sw && p.uid == 0)) ONCE(p.replies == 1, "query #%d got %d replies", p.uid, p.replies);
    exec_done(w.obs);
}
// servers that answer before the sending thread can take another step
static void instant(bool parallel, int budget)
{
    Core w; w.upstreams = servers(); boot(base_conf(parallel)); std::vector<bytes> dl; int n = 0;
    on_sendto = [&](const Sent &s) { if (w.is_up(s.dst)) { bytes x = mk_answer(s.data, second(s.dst) ? 2 : 0); if (!parallel || !second(s.dst)) { udp_reply(s, x); dl.push_back(x); } } return 0; };
    sched_explore = true; delay_budget = budget;
    int k = 1 + choose(2, "count"); for (int i = 0; i < k; i++) w.query(QS[choose((int)QS.size(), "q")]); if (choose(2, "tcp")) w.query_tcp({0, 0x0001, "adezhs.com", dns::AAAA});
    run(); sched_explore = false; on_sendto = nullptr; w.settle(dl, false);
    for (auto &p : w.pend) ONCE(p.replies == 1, "query #%d got %d replies from a server that answers at once", p.uid, p.replies);
    exec_done(w.obs);
}
void check_main()
{
    explore("single/2", [] { histories(false, 2, 5, 8); });
    explore("single/3", [] { histories(false, 3, g_thorough ? 7 : 6, g_thorough ? 8 : 5); });
    explore("ipv6/single", [] { net = 1 + choose(2, "both"); histories(false, g_thorough ? 3 : 2, g_thorough ? 6 : 5, g_thorough ? 5 : 8); });
    explore("ipv6/parallel", [] { net = 1 + choose(2, "both"); histories(true, 2, 4, g_thorough ? 8 : 6); });
    explore("ipv6/instant", [] { net = 1 + choose(2, "both"); instant(true, 1); });
    explore("ipv6/same-id", [] { net = 1 + choose(2, "both"); same_id_many(g_thorough ? 6 : 5); });
    explore("parallel", [] { histories(true, g_thorough ? 3 : 2, g_thorough ? 6 : 5, 8); });
    explore("same-id", [] { same_id_many(g_thorough ? 7 : 6); });
    explore("instant/single", [] { instant(false, g_thorough ? 3 : 2); });
    explore("instant/parallel", [] { instant(true, g_thorough ? 3 : 1); });
    explore("schedules/single", [] { schedules(false, g_thorough ? 3 : 2); });
    explore("schedules/parallel", [] { schedules(true, g_thorough ? 3 : 1); });
}
