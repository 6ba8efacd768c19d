// P06: routing of queries to server groups, compared with a reference selection for all small group configurations.
#include "scn.h"
struct Group { bool tcp; std::vector<std::string> pats; int form; }; // form 0 option, 1 file, 2 file using LIST
static std::vector<Group> G; static bool U2T, T2U; static int anyproto = -1; // index of a group given as PROTOCOL *
static std::string ip_of(int i, bool) { char b[32]; snprintf(b, sizeof b, "%d.%d.%d.%d", i + 1, i + 1, i + 1, i + 1); return b; }
static bool wm(const char *p, const char *s) { if (!*p) return !*s; if (*p == '*') return wm(p + 1, s) || (*s && wm(p, s + 1)); return *s && (*p == '?' || *p == *s) && wm(p + 1, s + 1); }
static std::string norm(std::string p) { p = dns::lower(p); while (p.size() && (p[0] == '.' || p[0] == ' ')) p.erase(0, 1); while (p.size() && (p.back() == '.' || p.back() == ' ')) p.pop_back(); return p; }
static bool wild(const std::string &p) { return p.find_first_of("*?") != std::string::npos; }
struct Tgt { int g; bool tcp; };
// acceptable destinations
static std::set<std::pair<int, bool>> route(std::string name, bool tcpclient)
{
    name = dns::lower(name); std::set<std::pair<int, bool>> r, any; std::vector<std::pair<int, bool>> mods;
    for (int i = 0; i < (int)G.size(); i++) if (i == anyproto) { mods.push_back({i, false}); mods.push_back({i, true}); } else mods.push_back({i, G[i].tcp});
    for (auto m : mods) any.insert(m);
    std::vector<std::pair<int, bool>> fit; for (auto m : mods) if (tcpclient ? (m.second || T2U) : (!m.second || U2T)) fit.push_back(m);
    for (std::string s = name; s.size();) {
        for (auto m = fit.rbegin(); m != fit.rend(); ++m) for (auto &p : G[m->first].pats) if (!wild(p) && norm(p) == s) { r.insert(*m); if (m->first == anyproto) for (auto &k : fit) if (k.first == anyproto) r.insert(k); return r; }
        size_t d = s.find('.'); if (d == std::string::npos) break; s = s.substr(d + 1);
    }
    for (auto m : fit) for (auto &p : G[m.first].pats) if (wild(p) && norm(p) != "*" && wm(norm(p).c_str(), name.c_str())) r.insert(m);
    if (r.empty()) for (auto m : fit) for (auto &p : G[m.first].pats) if (norm(p) == "*") r.insert(m);
    return r.empty() ? any : r;
}
static std::string config()
{
    std::string c = "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\n"; c += std::string("EnableUDPtoTCP ") + (U2T ? "true" : "false") + "\nEnableTCPtoUDP " + (T2U ? "true" : "false") + "\n";
    for (int i = 0; i < (int)G.size(); i++) {
        Group &g = G[i]; std::string l; for (auto &p : g.pats) l += (l.empty() ? "" : ",") + p;
        if (g.form == 0) c += std::string(g.tcp ? "TCPGroup " : "UDPGroup ") + ip_of(i, g.tcp) + " " + l + (g.tcp ? " off no\n" : " off\n");
        else {
            std::string n = "g" + std::to_string(i) + ".txt", t = std::string("# group\nPROTOCOL ") + (i == anyproto ? "*" : g.tcp ? "TCP" : "udp") + "\nServer = " + ip_of(i, g.tcp) + "\r\nPARALLEL OFF ; x\n";
            std::string ds; for (auto &p : g.pats) ds += "  " + p + (g.form == 2 ? "\r\n" : " # comment\n\n");
            if (g.form == 2) { write_file("l" + std::to_string(i) + ".txt", ds.substr(0, ds.size() - 2)); t += "LIST " + path("l" + std::to_string(i) + ".txt") + "\n"; } else t += "\n" + ds;
            write_file(n, t); c += "GroupFile " + path(n) + "\n";
        }
    }
    return c;
}
struct R6 {
    World w; int id = 1; Conn *tc = nullptr; std::vector<Addr> connected; int rnd = 0; std::string obs;
    R6() { private_files = true; on_rand = [this] { return rnd; }; on_connect = [this](const Addr &d, int64_t *) { connected.push_back(d); return (int)ACCEPT; }; boot(config()); }
    void query(const std::string &name, bool tcp, int type = dns::A) {
        connected.clear(); size_t o0 = out.size(); std::vector<size_t> tx0; for (auto c : conns) tx0.push_back(c->tx.size());
        dns::Msg q = dns::query(id++, name, type); bytes b = dns::encode(q);
        if (tcp) { tc = tcp_connect("9.9.9.3:3333", "127.0.0.1:53"); bytes f; dns::p16(f, b.size()); f += b; tcp_push(tc, f); } else udp_in("9.9.9.1:1111", "127.0.0.1:53", b);
        run(); auto ok = route(name, tcp); std::set<std::pair<Addr, bool>> dst; bytes sent;
        for (int k = 0; k < 40; k++) {
            dst.clear(); for (size_t i = o0; i < out.size(); i++) { dst.insert({out[i].dst, false}); sent = out[i].data; }
            for (size_t i = 0; i < conns.size(); i++) if (conns[i]->outgoing && conns[i]->tx.size() > (i < tx0.size() ? tx0[i] : 0)) { dst.insert({conns[i]->peer, true}); sent = conns[i]->tx.substr(i < tx0.size() ? tx0[i] : 0); if (sent.size() > 2) sent = sent.substr(2); }
            for (auto &d : connected) dst.insert({d, true});
            if (!dst.empty() && sent.size()) break; advance(50);
        }
        count_eval(1); REQUIRE(!dst.empty(), "query for '%s' over %s was not forwarded", name.c_str(), tcp ? "TCP" : "UDP");
        REQUIRE(dst.size() == 1, "query for '%s' was forwarded to %zu servers of different groups", name.c_str(), dst.size());
        bool good = false; std::string exp; for (auto &m : ok) { std::string a = ip_of(m.first, m.second) + ":53"; exp += " " + a + (m.second ? "/tcp" : "/udp"); good |= dst.begin()->first == a && dst.begin()->second == m.second; }
        REQUIRE(good, "query for '%s' (%s client) went to %s over %s; allowed:%s\n%s", name.c_str(), tcp ? "TCP" : "UDP", dst.begin()->first.c_str(), dst.begin()->second ? "TCP" : "UDP", exp.c_str(), config().c_str());
        REQUIRE(sent == b, "query altered on the way"); obs += dst.begin()->first[0]; if (dst.begin()->second) obs += "t";
        if (tcp) { tcp_eof(tc); run(); }
    }
};
static const char *PAT[] = {"b.org", "a.b.org", "*.b.org", "org", "*", "A.B.org", ".b.org", "?.b.*", "xa.b.org", "b.*"};
static const char *NAMES[] = {"a.b.org", "b.org", "x.A.b.org", "org", "xa.b.org", "xb.org", "b.orgx", "y.b.org", "bb.b.org", "a.b.com", "c.net", "B.ORG", "", "a.b.org.b.org"};
static void udp3(int n)
{
    G.clear(); U2T = T2U = false; anyproto = -1; for (int i = 0; i < n; i++) G.push_back({false, {PAT[choose(10, "pattern")]}, 0}); int f = choose(2, "form"); for (int i = 0; i < n; i++) G[i].form = f == 0 ? 0 : 1 + ((i + 1) & 1);
    R6 r; for (auto nm : NAMES) for (r.rnd = 0; r.rnd < n; r.rnd++) r.query(nm, false); exec_done(r.obs);
}
static void udp2x2()
{
    G.clear(); U2T = T2U = false; anyproto = -1; for (int i = 0; i < 2; i++) { int a = choose(10, "p1"), b = choose(10, "p2"); Group g{false, {PAT[a]}, (a + b + i) % 3}; if (a != b) g.pats.push_back(PAT[b]); G.push_back(g); }
    R6 r; for (auto nm : NAMES) for (r.rnd = 0; r.rnd < 2; r.rnd++) r.query(nm, false); exec_done(r.obs);
}
static void transports(int n)
{
    static const char *P[] = {"b.org", "a.b.org", "*.b.org", "*"}; static const char *N[] = {"a.b.org", "B.org", "q.b.org", "z.net"};
    G.clear(); int fl = choose(4, "flags"); U2T = fl & 1; T2U = fl & 2; int form = choose(2, "form"); for (int i = 0; i < n; i++) { int k = choose(8, "group"); G.push_back({k >= 4, {P[k & 3]}, form}); }
    anyproto = form == 1 ? choose(n + 1, "anyproto") - 1 : -1;
    R6 r; for (auto nm : N) { r.query(nm, false); r.query(nm, true); } r.rnd = 1; r.query(N[3], true); r.query(N[0], false); exec_done(r.obs);
}
// long lists: table growth, many entries per group, the last group listing a name wins
static void longlists()
{
    G.clear(); U2T = T2U = false; anyproto = -1; int n = 5 << choose(7, "size"); int form = choose(3, "form"); if (form == 0 && n > 80) n = 80; std::vector<std::string> all;
    G.push_back({false, {}, form}); G.push_back({false, {}, form}); G.push_back({false, {"*"}, 0});
    for (int i = 0; i < n; i++) { std::string d = (i % 3 ? "d" + std::to_string(i) + ".example" : "w" + std::to_string(i) + ".d1.example"); all.push_back(d); if (i % 4 != 1) G[0].pats.push_back(d); if (i % 5 != 2) G[1].pats.push_back(i % 2 ? d : "S" + d); }
    R6 r; for (auto &d : all) { r.query(d, false); r.query("x." + d, false); r.query("s" + d, false); } exec_done(r.obs.substr(0, 30));
}
// several servers in a group: parallel goes to all of them, non-parallel to one, never elsewhere
static void whole_group()
{
    int par = choose(3, "parallel"), tcp = choose(2, "tcp"), form = choose(2, "form"); static const char *PS[] = {"on", "off", "ON"}; std::string c = "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nEnableUDPtoTCP true\n"; private_files = true;
    if (form) { write_file("g.txt", std::string("protocol ") + (tcp ? "TCP" : "UDP") + "\nserver 1.1.1.1:5301,2.2.2.2\n" + (par == 2 ? "" : std::string("parallel ") + PS[par] + "\n") + "b.org\n"); c += "GroupFile " + path("g.txt") + "\n"; }
    else c += tcp ? std::string("TCPGroup 1.1.1.1:5301,2.2.2.2 b.org ") + PS[par] + " no\n" : std::string("UDPGroup 1.1.1.1:5301,2.2.2.2 b.org ") + PS[par] + "\n";
    c += "UDPGroup 3.3.3.3 * on\n"; std::set<Addr> con; on_connect = [&](const Addr &d, int64_t *) { con.insert(d); return (int)ACCEPT; }; boot(c);
    udp_in("9.9.9.1:1", "127.0.0.1:53", dns::encode(dns::query(1, "a.b.org", dns::A))); run(); for (int i = 0; i < 10; i++) advance(50);
    std::set<Addr> u; for (auto &s : out) u.insert(s.dst); std::set<Addr> t; for (auto x : conns) if (x->outgoing && x->tx.size()) t.insert(x->peer); std::set<Addr> &d = tcp ? t : u;
    REQUIRE((tcp ? u : t).empty() && !u.count("3.3.3.3:53"), "forwarded outside the group"); std::set<Addr> all = {"1.1.1.1:5301", "2.2.2.2:53"};
    if (par == 1) REQUIRE(d.size() == 1 && all.count(*d.begin()), "non-parallel query went to %zu servers", d.size()); else REQUIRE(d == all, "parallel query went to %zu servers", d.size());
    exec_done(par == 1 ? "one" : "all");
}
void check_main()
{
    explore("udp/3", [] { udp3(3); });
    explore("udp/2x2", [] { udp2x2(); });
    explore("transports/2", [] { transports(2); });
    if (g_thorough) explore("transports/3", [] { transports(3); });
    if (g_thorough) explore("udp/4", [] { udp3(4); });
    explore("longlists", [] { longlists(); });
    explore("whole-group", [] { whole_group(); });
}
