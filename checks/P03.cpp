// P03: timeouts and rotation. Oracle: an answer up to 2 s after the query must be relayed, from 14 s on never; in
// between either is fine. The server of each query moves by exactly the steps its timed-out predecessors imply.
#include "scn.h"
static const char *SRV[] = {"1.1.1.1:53", "2.2.2.2:53", "3.3.3.3:53"};
static const Addr CLI[] = {"9.9.9.1:1111", "9.9.9.2:2222"};
struct Q { dns::Msg q; Addr cli; int64_t t; Sent up; bool answered = false; bool done = false; };
static bytes ans(const dns::Msg &q, int n) { char ip[32]; snprintf(ip, sizeof ip, "10.0.%d.%d", n >> 8, n & 255); dns::Msg a = dns::answer(q, {dns::rrA(q.qd[0].name, ip)}); return dns::encode(a); }
struct W3 : World {
    std::vector<Q> qs; int nsrv; int idx = 0; int64_t obs_t = 0; int uid = 0; std::string obs; bool nstart = true;
    W3(int n, bool v6 = false) : nsrv(n) { for (int i = 0; i < n; i++) upstreams.insert(SRV[i]); }
    void query(int cli, int id, const char *name) {
        std::vector<Sent> nu, nc; drain(&nu, &nc); REQUIRE(nu.empty() && nc.empty(), "unexpected traffic before the query");
        Q k; k.q = dns::query(id, name, dns::A); k.cli = CLI[cli]; k.t = now_ms; udp_in(k.cli, "127.0.0.1:53", dns::encode(k.q)); run();
        drain(&nu, &nc); REQUIRE(nc.empty(), "reply without an answer: %s", dns::show(nc[0].data).c_str());
        REQUIRE(nu.size() == 1, "the query was forwarded %zu times", nu.size()); k.up = nu[0];
        int s = -1; for (int i = 0; i < nsrv; i++) if (nu[0].dst == SRV[i]) s = i; REQUIRE(s >= 0, "forwarded to %s", nu[0].dst.c_str());
        int lo = 0; std::set<int64_t> may;
        for (auto &o : qs) if (!o.answered) { int64_t an = now_ms - o.t, ao = obs_t - o.t; if (an >= 14000 && ao <= 2000) lo = 1; if (an > 2000 && ao < 14000) may.insert(o.t); }
        int hi = (int)may.size(); bool ok = false; for (int d = lo; d <= hi; d++) ok |= (idx + d) % nsrv == s;
        REQUIRE(ok, "query went to %s; expected %d..%d steps on from %s", SRV[s], lo, hi, SRV[idx]); count_eval(1);
        idx = s; obs_t = now_ms; qs.push_back(k); obs += "q" + std::to_string(s);
    }
    // answer number i; stale duplicates allowed
    void answer(size_t i) {
        Q &a = qs[i]; bytes b = ans(a.q, ++uid); bool got = udp_reply(a.up, b); run();
        std::vector<Sent> nu, nc; drain(&nu, &nc); REQUIRE(nu.empty(), "an answer caused an upstream query"); REQUIRE(nc.size() <= 1, "%zu replies to one answer", nc.size());
        // candidates: pending queries with the same key
        Q *must = nullptr; std::vector<Q *> may;
        for (auto &o : qs) if (!o.answered && same_q(o.q, a.q)) { int64_t age = now_ms - o.t; if (age <= 2000 && o.up.sock_uid == a.up.sock_uid) must = &o; if (age < 14000) may.push_back(&o); }
        if (!got) must = nullptr;
        count_eval(1);
        if (nc.empty()) { REQUIRE(!must, "answer to a query pending for %lld ms was not relayed", (long long)(now_ms - must->t)); obs += "-"; return; }
        Q *hit = nullptr; for (auto o : may) if (o->cli == nc[0].dst) { hit = o; if (o == &a) break; }
        REQUIRE(hit, "answer relayed to %s although its query was answered or forgotten (sent %lld ms ago)", nc[0].dst.c_str(), (long long)(now_ms - a.t));
        REQUIRE(nc[0].data == b, "relayed answer altered"); hit->answered = true; obs += "r";
    }
    void pass(int64_t ms) { advance(ms); std::vector<Sent> nu, nc; drain(&nu, &nc); REQUIRE(nu.empty() && nc.empty(), "traffic out of nothing"); obs += ms > 5000 ? "T" : ms < 1500 ? "s" : "t"; }
};
static std::string conf(int n, bool par = false) { std::string s = "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1"; if (n > 1) s += ",2.2.2.2"; if (n > 2) s += ",3.3.3.3"; return s + (par ? " * on\n" : " * off\n"); }
static void histories(int nsrv, int depth, int phase)
{
    W3 w(nsrv); boot(conf(nsrv)); if (phase) advance(phase);
    for (int step = 0; step < depth; step++) {
        struct E { int k, a; }; std::vector<E> ev; int n = (int)w.qs.size();
        if (n < 4) { ev.push_back({0, 0}); if (n) { ev.push_back({0, 1}); ev.push_back({0, 2}); } } // fresh key, same key same client, same key other client
        if (n) { ev.push_back({1, n - 1}); if (n > 1) ev.push_back({1, 0}); if (n > 2) ev.push_back({1, n - 2}); ev.push_back({2, 1000}); ev.push_back({2, 2000}); ev.push_back({2, 15000}); }
        E e = ev[choose((int)ev.size(), "event")];
        if (e.k == 0) { static const char *names[] = {"a.com", "b.org", "www.c.net", "d.de"}; if (e.a == 0) w.query(0, 1 + n, names[n]); else { Q o = w.qs.back(); w.query(e.a == 1 ? (o.cli == CLI[1]) : (o.cli == CLI[0]), o.q.id, o.q.qd[0].name.c_str()); } }
        else if (e.k == 1) w.answer(e.a); else w.pass(e.a);
    }
    exec_done(w.obs);
}
// every arrival phase relative to the sweep, every answering delay in steps of half a second
static void window(int phase_ms, int step_ms)
{
    W3 w(2); boot(conf(2)); int ph = choose(10000 / phase_ms, "phase"); advance(ph * (int64_t)phase_ms); w.query(0, 7, "a.com");
    int d = choose(16000 / step_ms, "delay"); advance(d * (int64_t)step_ms); w.answer(0); w.query(1, 7, "a.com"); w.answer(1); if (!w.qs[1].answered && w.qs[0].answered) fail("the query's own answer was not delivered"); exec_done(w.obs);
}
// rounds of timeouts until the socket must be renewed
static void renewal(int rounds)
{
    W3 w(3); boot(conf(3)); int since = 0; int id = 1; uint64_t sock = 0; int sockq = 0;
    for (int r = 0; r < rounds; r++) {
        int n = 1 + 4 * choose(3, "queries"); for (int i = 0; i < n; i++) { char nm[32]; snprintf(nm, sizeof nm, "n%d.example", id); w.query(i & 1, id++, nm); }
        bool an = choose(2, "answer-one"); if (an) { size_t k = w.qs.size() - 1; w.answer(k); REQUIRE(w.qs[k].answered, "service stopped"); }
        uint64_t u = w.qs.back().up.sock_uid;
        if (since > 8) REQUIRE(u != sock, "%d consecutive timeouts but the upstream socket was not renewed", since);
        sock = u; if (an) since = n - 1; else { if (w.qs.size() && since > 8) since = 0; since += n; }
        if (since > 8 && false) sockq = 0;
        w.pass(25000);
    }
    w.query(0, id++, "last.example"); w.answer(w.qs.size() - 1); REQUIRE(w.qs.back().answered, "service stopped after %d rounds of timeouts", rounds);
    exec_done(w.obs);
}
// the sweep racing with an answer and a new query, under all schedules
static void race(bool same, int budget)
{
    W3 w(2); boot(conf(2)); int pre = choose(3, "pre") * 1000; advance(pre ? pre : 1); w.query(0, 5, "a.com"); if (choose(2, "two")) { w.query(1, 6, "b.com"); }
    size_t n0 = w.qs.size(); advance(9999 - now_ms % 10000);
    sched_explore = true; delay_budget = budget; bool a = choose(2, "answer");
    bytes b = ans(w.qs[0].q, 99); if (a) udp_reply(w.qs[0].up, b);
    dns::Msg nq = dns::query(same ? 5 : 9, same ? "a.com" : "n.com", dns::A); udp_in(CLI[1], "127.0.0.1:53", dns::encode(nq)); int64_t tq = now_ms;
    advance(2); sched_explore = false;
    std::vector<Sent> nu, nc; w.drain(&nu, &nc); REQUIRE(nu.size() == 1, "new query forwarded %zu times", nu.size()); REQUIRE(nc.size() <= (size_t)a, "%zu replies", nc.size());
    bool newdone = false; for (auto &s : nc) { REQUIRE(s.data == b, "altered"); if (s.dst == CLI[1]) { REQUIRE(same, "answer delivered to another client"); newdone = true; } else REQUIRE(s.dst == CLI[0], "delivered to %s", s.dst.c_str()); }
    if (!newdone) { bytes c = ans(nq, 77); udp_reply(nu[0], c); run(); nu.clear(); nc.clear(); w.drain(&nu, &nc); REQUIRE(nc.size() == 1 && nc[0].data == c && (same || nc[0].dst == CLI[1]), "the new query's answer was not delivered"); }
    advance(15000); nu.clear(); nc.clear(); for (auto &q : w.qs) { udp_reply(q.up, ans(q.q, 55)); } run(); w.drain(&nu, &nc); REQUIRE(nc.empty(), "answer to a forgotten query delivered");
    exec_done(std::to_string(newdone));
}
// a parallel group forgets, too
static void parallel(int depth)
{
    World w; w.upstreams = {SRV[0], SRV[1]}; boot(conf(2, true)); struct P { dns::Msg q; std::vector<Sent> up; int64_t t; bool done; }; std::vector<P> ps; int u = 0; std::string obs;
    for (int s = 0; s < depth; s++) {
        int n = (int)ps.size(); int e = n == 0 ? 0 : choose(n < 3 ? 5 : 4, "event");
        if (n && e == 0) advance(15000); else if (n && e == 1) advance(1500);
        else if (n && e < 4) { int srv = choose(2, "srv"); P &p = e == 2 ? ps.back() : ps[0]; bytes b = ans(p.q, ++u); udp_reply(p.up[srv], b); run(); std::vector<Sent> nc; w.drain(nullptr, &nc); int64_t age = now_ms - p.t; count_eval(1);
            if (age <= 2000 && !p.done) REQUIRE(nc.size() == 1 && nc[0].data == b, "answer after %lld ms not relayed", (long long)age); if (age >= 14000 || p.done) REQUIRE(nc.empty(), "answer after %lld ms relayed", (long long)age); if (nc.size()) p.done = true; obs += nc.size() ? "r" : "-"; }
        else { P p; p.q = dns::query(1 + n, n & 1 ? "b.com" : "a.com", dns::A); p.t = now_ms; p.done = false; udp_in(CLI[0], "127.0.0.1:53", dns::encode(p.q)); run(); w.drain(&p.up, nullptr); REQUIRE(p.up.size() == 2 && p.up[0].dst != p.up[1].dst, "parallel query forwarded %zu times", p.up.size()); ps.push_back(p); obs += "q"; }
        if (n && e < 2) { std::vector<Sent> nu, nc; w.drain(&nu, &nc); REQUIRE(nu.empty() && nc.empty(), "traffic out of nothing"); obs += "t"; }
    }
    exec_done(obs);
}
void check_main()
{
    explore("rotation/3", [] { histories(3, g_thorough ? 7 : 6, 0); });
    explore("rotation/2", [] { histories(2, g_thorough ? 6 : 5, 7300); });
    explore("window", [] { window(g_thorough ? 250 : 500, g_thorough ? 250 : 1000); });
    explore("renewal", [] { renewal(g_thorough ? 5 : 4); });
    explore("parallel", [] { parallel(g_thorough ? 7 : 6); });
    explore("race/same", [] { race(true, g_thorough ? 3 : 2); });
    explore("race/other", [] { race(false, g_thorough ? 3 : 2); });
}
