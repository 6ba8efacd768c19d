// P24: good-IP lists. Every outcome of every connection attempt over several check rounds, against a model of the list; and every way of binding names to lists.
#include "scn.h"
using namespace sim;
typedef std::string S;
enum { K_ACC, K_REF, K_BH };
struct Out { int kind; int64_t d; };
static int qid = 0;
static S ask(const S &n, int type = dns::A) { // the answered address, "up" when forwarded
    size_t o = out.size(); udp_in("9.9.9.1:1111", "127.0.0.1:53", encode(dns::query(++qid, n, type))); sim::run(); count_eval(1); REQUIRE(out.size() == o + 1, "no reaction to the query for %s", n.c_str()); if (out[o].dst != "9.9.9.1:1111") return "up"; dns::Msg m; REQUIRE(dns::decode(out[o].data, m), "malformed answer"); REQUIRE(m.rcode() == 0 && m.id == qid && m.qd.size() == 1, "wrong answer"); S r; for (auto &x : m.an) { REQUIRE(x.type == type, "record of type %d in the answer to a query of type %d", x.type, type); r += (r.size() ? "," : "") + (x.rdata.size() == 4 ? std::to_string((uint8_t)x.rdata[0]) + "." + std::to_string((uint8_t)x.rdata[1]) + "." + std::to_string((uint8_t)x.rdata[2]) + "." + std::to_string((uint8_t)x.rdata[3]) : dns::hex(x.rdata)); } return r; }
static const char *BASE = "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\n";
static void rounds(const std::vector<Out> &kinds, int n, int R) {
    std::vector<std::vector<Out>> oc(R); S tag; for (int r = 0; r < R; r++) for (int i = 0; i < n; i++) { int k = choose(kinds.size(), "outcome"); oc[r].push_back(kinds[k]); tag += std::to_string(k); }
    int round = 0; std::set<Addr> seen; auto ip = [](int i) { return (i == 1 ? "5.5.5." : "205.215.225.20") + std::to_string(i + 1); }; auto addr = [&](int i) { return ip(i) + ":" + std::to_string(80 + i); };
    on_connect = [&](const Addr &a, int64_t *d) { for (int i = 0; i < n; i++) if (a == addr(i)) { REQUIRE(seen.insert(a).second, "%s tried twice in a round", a.c_str()); if (round >= R) { *d = 1; return BLACKHOLE; } *d = oc[round][i].d; return oc[round][i].kind == K_ACC ? ACCEPT : oc[round][i].kind == K_REF ? REFUSE : BLACKHOLE; } fail("connection to %s, which is not in the list", a.c_str()); };
    S c = S(BASE) + "GoodIPList l1 10000\n"; for (int i = 0; i < n; i++) c += "GoodIPListAddIP l1 " + addr(i) + "\n"; c += "AppendHosts <l1> g.org\n"; std::vector<S> order; for (int i = 0; i < n; i++) order.push_back(ip(i)); int fds = -1;
    for (; round < R; round++) {
        seen.clear(); int64_t t0 = now_ms; if (round == 0) { boot(c); sim::run(); } REQUIRE((int)seen.size() == n || round, "%zu of %d addresses tried", seen.size(), n);
        int64_t best = 5000, last = 0; std::set<int> win; bool all = true; for (int i = 0; i < n; i++) { auto &o = oc[round][i]; if (o.kind == K_ACC && o.d < best) { best = o.d; win.clear(); } if (o.kind == K_ACC && o.d == best && best < 5000) win.insert(i); if (o.kind != K_REF) all = false; last = std::max(last, o.d); }
        if (round) { // wait for the round to start: the period begins at the latest when the previous round's 5 s are over
            for (int k = 0; k < 151 && seen.empty(); k++) advance(100); REQUIRE((int)seen.size() == n, "round %d: %zu of %d addresses tried within the interval", round, seen.size(), n); t0 = -1; for (auto x : conns) (void)x; t0 = now_ms - now_ms % 1; }
        S first = order[0]; if (best > 200 || win.empty()) { S a = ask("g.org"); REQUIRE(a == first || (round && win.size()), "while round %d goes on the answer is %s instead of %s", round, a.c_str(), first.c_str()); }
        (void)all; (void)last; advance(5200); S a = ask("g.org"); if (win.empty()) REQUIRE(a == first, "round %d: no address was reachable, but the answer changed from %s to %s", round, first.c_str(), a.c_str()); else { bool ok = false; for (int i : win) ok |= a == ip(i); REQUIRE(ok, "round %d: the answer is %s though %s accepted first (outcomes %s)", round, a.c_str(), ip(*win.begin()).c_str(), tag.c_str()); auto it = std::find(order.begin(), order.end(), a); std::swap(*order.begin(), *it); }
        REQUIRE(open_conn_fds() == 0, "round %d: %d connections left open", round, open_conn_fds()); if (fds < 0) fds = open_fds(); REQUIRE(open_fds() == fds, "round %d: descriptors grow from %d to %d", round, fds, open_fds()); count_transitions(1); }
    exec_done(tag); }
// how names and lists are bound
static void binding() {
    int form = choose(14, "form"), dyn = choose(2, "hosts file"), reach = choose(3, "reachable"); private_files = true; on_connect = [=](const Addr &a, int64_t *d) { *d = 10; return reach == 0 ? BLACKHOLE : reach == 1 ? ACCEPT : a.find("6.6.6.2") == 0 ? ACCEPT : REFUSE; };
    S c = BASE, h; auto host = [&](const S &v, const S &n) { if (dyn) h += v + " " + n + "\n"; else c += "AppendHosts " + v + " " + n + "\n"; }; std::map<S, std::set<S>> ok; std::set<S> one = {"6.6.6.1"}, two = {"6.6.6.1", "6.6.6.2"}; const S L1 = "GoodIPList l1 1000\nGoodIPListAddIP l1 6.6.6.1:80\n", L2 = "GoodIPList list-2.x 1500\nGoodIPListAddIP list-2.x 6.6.6.1:443\nGoodIPListAddIP list-2.x 6.6.6.2:65535\n";
    switch (form) { case 0: c += L1; host("<l1>", "a.org"); ok["a.org"] = one; break; case 1: c += L1 + L2; host("<l1>", "a.org"); host("<list-2.x>", "b.org"); ok["a.org"] = one; ok["b.org"] = two; break; case 2: c += L2; host("<list-2.x>", "*.w.org"); ok["x.w.org"] = two; ok["y.z.w.org"] = two; ok["w.org"] = {"up"}; break; case 3: host("<l1>", "a.org"); ok["a.org"] = {"up"}; break; case 4: c += "GoodIPList l1 1000\n"; host("<l1>", "a.org"); ok["a.org"] = {"up"}; break; case 5: c += L1; host("<>", "a.org"); host("<l2>", "b.org"); ok["a.org"] = {"up"}; ok["b.org"] = {"up"}; break; case 6: c += L1 + "GoodIPListAddIP l1 6.6.6.300:80\nGoodIPListAddIP l1 6.6.6.4:70000\nGoodIPListAddIP l1 junk\nGoodIPListAddIP nolist 7.7.7.7:80\nGoodIPListAddIP l1 6.6.6.5\n"; host("<l1>", "a.org"); ok["a.org"] = one; break; case 7: c += "GoodIPListAddIP l1 6.6.6.1:80\n"; host("<l1>", "a.org"); ok["a.org"] = {"up"}; break; case 8: c += "GoodIPList l1 0\nGoodIPList l3 -5\nGoodIPList l4\nGoodIPListAddIP l1 6.6.6.1:80\n"; host("<l1>", "a.org"); ok["a.org"] = {"up"}; break; case 9: c += L1; host("<l1>", "a.org"); host("4.5.6.7", "a.org"); ok["a.org"] = {"4.5.6.7"}; break; case 10: c += L1; host("<l1>", "a.org"); host("@@", "a.org"); ok["a.org"] = {"up"}; break; case 11: c += L1; host("<l1>", "a.org"); host("a.org", "b.org"); ok["a.org"] = one; break; case 12: { c += "GoodIPList big 1000\n"; std::set<S> all; for (int i = 1; i <= 60; i++) { S p = "6.6." + std::to_string(i) + ".2"; c += "GoodIPListAddIP big " + p + ":1\n"; all.insert(p); } host("<big>", "a.org"); ok["a.org"] = all; break; } case 13: c += "GoodIPListAddIP l1 6.6.6.1:80\n" + L2; host("<list-2.x>", "A.oRg"); ok["a.org"] = ok["A.ORG"] = two; break; }
    if (dyn) { write_file("src.txt", h); write_file("Hosts.txt", h); c += "Hosts file://" + path("src.txt") + "\nHostsDownloadPath " + path("Hosts.txt") + "\n"; } boot(c); sim::run(); advance(50); S o; for (int k = 0; k < 3; k++) { for (auto &x : ok) { S a = ask(x.first); o += a + " "; REQUIRE(x.second.count(a), "%s is answered with %s", x.first.c_str(), a.c_str()); if (k && reach == 2 && x.second == two) REQUIRE(a == "6.6.6.2", "%s is answered with %s, which refuses connections, instead of 6.6.6.2", x.first.c_str(), a.c_str()); S b = ask(x.first, dns::AAAA); REQUIRE(b == "up" || b.find("04050607") != b.npos, "an AAAA query for %s is answered with %s", x.first.c_str(), b.c_str()); } advance(7000); } REQUIRE(open_conn_fds() == 0 || reach == 0, "%d connections left open", open_conn_fds()); exec_done(std::to_string(form) + o); }
// descriptors run out during a round; queries arrive while the list changes
static void scarce() { int room = choose(8, "descriptors"), n = 5; on_connect = [](const Addr &a, int64_t *d) { *d = 1 + (a.find("5.5.5.1:") == 0 ? 50 : 10); return ACCEPT; }; S c = S(BASE) + "GoodIPList l1 1000\nAppendHosts <l1> g.org\n"; for (int i = 1; i <= n; i++) c += "GoodIPListAddIP l1 5.5.5." + std::to_string(i) + ":80\n"; boot(c); sim::run(); advance(100); int base = 300 + open_fds(); fd_max = base + room; for (int k = 0; k < 5; k++) { advance(1300); S a = ask("g.org"); REQUIRE(a.find("5.5.5.") == 0, "answer %s", a.c_str()); REQUIRE(open_conn_fds() == 0, "connections left open"); } fd_max = 1000; advance(2000); REQUIRE(ask("g.org") != "5.5.5.1", "the slowest address comes first"); exec_done(std::to_string(room)); }
static void race() { sched_explore = false; int fast = choose(2, "fast"); on_connect = [=](const Addr &a, int64_t *d) { *d = a.find(fast ? "5.5.5.2" : "5.5.5.1") == 0 ? 10 : 60; return ACCEPT; }; boot(S(BASE) + "GoodIPList l1 100\nGoodIPListAddIP l1 5.5.5.1:80\nGoodIPListAddIP l1 5.5.5.2:80\nAppendHosts <l1> g.org\n"); sim::run(); sched_explore = true; delay_budget = g_thorough ? 4 : 3; lock_points = 1; S o; for (int k = 0; k < 3; k++) { size_t b = out.size(); udp_in("9.9.9.1:1111", "127.0.0.1:53", encode(dns::query(++qid, "g.org", dns::A))); advance(10); sim::run(); REQUIRE(out.size() == b + 1, "no answer"); dns::Msg m; REQUIRE(dns::decode(out[b].data, m) && m.an.size() == 1 && (m.an[0].rdata == dns::ip4("5.5.5.1") || m.an[0].rdata == dns::ip4("5.5.5.2")), "answer with an address outside the list"); o += m.an[0].rdata; count_eval(1); } exec_done(o); }
void check_main() { std::vector<Out> all = {{K_ACC, 20}, {K_ACC, 300}, {K_ACC, 4900}, {K_ACC, 5100}, {K_REF, 5}, {K_REF, 400}, {K_BH, 0}}, few = {{K_ACC, 20}, {K_ACC, 300}, {K_REF, 5}, {K_BH, 0}, {K_ACC, 5100}}, three = {{K_ACC, 20}, {K_ACC, 300}, {K_REF, 5}, {K_BH, 0}};
    explore("one", [=] { rounds(all, 1, 3); }); explore("two", [=] { rounds(all, 2, g_thorough ? 3 : 2); }); explore("three", [=] { rounds(g_thorough ? all : few, 3, 2); }); explore("three-rounds", [=] { rounds(three, 2, g_thorough ? 4 : 3); }); explore("binding", binding); explore("scarce", scarce); explore("race", race); }
