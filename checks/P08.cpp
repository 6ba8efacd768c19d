// P08: answers from hosts, compared with a reference lookup for all small combinations of entries.
#include "scn.h"
#include <arpa/inet.h>
static bool wm(const char *p, const char *s) { if (!*p) return !*s; if (*p == '*') return wm(p + 1, s) || (*s && wm(p, s + 1)); return *s && (*p == '?' || *p == *s) && wm(p + 1, s + 1); }
struct Ent { std::string target, pat; };
static const char *T[] = {"1.1.1.1", "10.2.2.255", "fd00::1", "2001:DB8:0:1::fe", "@@", "t.net", "feed.beef.de"};
static const char *N[] = {"a.org", "*.org", "B.org", "?.org"};
static bytes v6(const std::string &t) { unsigned char b[16]; if (inet_pton(AF_INET6, t.c_str(), b) != 1) fail("harness: %s", t.c_str()); return bytes((char *)b, 16); }
enum K { KA, K6, KEX, KCN }; static K kind(const std::string &t) { return t == "@@" ? KEX : t.find(':') != std::string::npos ? K6 : t.find_first_of("nf") != std::string::npos ? KCN : KA; }
static std::vector<Ent> match(const std::vector<Ent> &c, std::string n) { n = dns::lower(n); std::vector<Ent> r; for (auto &e : c) if (dns::lower(e.pat) == n) r.push_back(e); if (!r.empty()) return r; for (auto &e : c) if (e.pat.find_first_of("*?") != std::string::npos && wm(dns::lower(e.pat).c_str(), n.c_str())) { for (auto &f : c) if (f.pat == e.pat) r.push_back(f); return r; } return r; }
static const std::string *last(const std::vector<Ent> &e, K k) { for (size_t i = e.size(); i--;) if (kind(e[i].target) == k) return &e[i].target; return nullptr; }
struct Exp { int what = 0; dns::RR rr; std::string alias; }; // 0 forward, 1 record, 2 refuse, 3 alias
static Exp expect(const std::vector<Ent> &st, const std::vector<Ent> &dy, const std::string &name, int type, bool block)
{
    Exp x; auto s = match(st, name), d = match(dy, name); if (last(s, KEX) || last(d, KEX)) return x;
    if (block && type == dns::AAAA && (last(s, KA) || last(d, KA))) { x.what = 2; return x; }
    for (auto *c : {&s, &d}) { const std::string *v; x.rr.name = name; x.rr.type = type; x.rr.ttl = 60; x.what = 1;
        if (type == dns::A && (v = last(*c, KA))) { x.rr.rdata = dns::ip4(v->c_str()); return x; }
        if (type == dns::AAAA && (v = last(*c, K6))) { x.rr.rdata = v6(*v); return x; }
        if (type == dns::AAAA && (v = last(*c, KA))) { x.rr.rdata = bytes(10, '\0') + "\xff\xff" + dns::ip4(v->c_str()); return x; }
        if (type == dns::CNAME && (v = last(*c, KCN))) { x.rr.rdata = dns::ename(*v); return x; }
        if (type != dns::CNAME && (v = last(*c, KCN))) { x.what = 3; x.alias = *v; return x; } }
    x.what = 0; return x;
}
static int tcp_turn = 0;
static std::string ask(const std::vector<Ent> &st, const std::vector<Ent> &dy, const std::string &name, int type, bool block, bool edns, int id)
{
    bool tcp = (id % 4) == 3; Exp x = expect(st, dy, name, type, block); dns::Msg q = dns::query(id, name, type, edns); bytes b = dns::encode(q); size_t o0 = out.size(); Conn *tc = nullptr;
    if (tcp) { tc = tcp_connect("9.9.9.3:3333", "127.0.0.1:53"); bytes f; dns::p16(f, b.size()); tcp_push(tc, f + b); } else udp_in("9.9.9.1:1111", "127.0.0.1:53", b); run();
    std::vector<bytes> rep; std::vector<Sent> up; for (size_t i = o0; i < out.size(); i++) if (out[i].dst == "8.8.8.8:53") up.push_back(out[i]); else if (out[i].dst == "9.9.9.1:1111") rep.push_back(out[i].data);
    if (tcp) { bytes t = tcp_take(tc); if (t.size()) { REQUIRE(t.size() > 2 && dns::g16(t, 0) == (int)t.size() - 2, "bad TCP framing"); rep.push_back(t.substr(2)); } }
    count_eval(1); std::string qs = dns::str(q);
    if (x.what == 0) { REQUIRE(rep.empty(), "%s answered from hosts without an entry: %s", qs.c_str(), dns::show(rep[0]).c_str()); REQUIRE(up.size() == 1 && up[0].data == b, "%s not forwarded unchanged", qs.c_str()); }
    else if (x.what == 3) { REQUIRE(rep.empty() && up.size() == 1, "%s: alias not resolved by one upstream query (%zu replies, %zu queries)", qs.c_str(), rep.size(), up.size()); dns::Msg m; REQUIRE(dns::decode(up[0].data, m) && m.qd.size() == 1 && m.qd[0].name == x.alias && m.qd[0].type == type, "%s: alias target %s expected, sent %s", qs.c_str(), x.alias.c_str(), dns::show(up[0].data).c_str()); }
    else {
        REQUIRE(up.empty(), "%s has a hosts entry but was forwarded", qs.c_str()); REQUIRE(rep.size() == 1, "%s: %zu replies", qs.c_str(), rep.size()); dns::Msg m; REQUIRE(dns::decode(rep[0], m), "malformed reply %s", dns::hex(rep[0]).c_str());
        REQUIRE(m.qr() && m.rcode() == 0 && m.id == id && m.qd.size() == 1 && m.qd[0].type == type && m.qd[0].klass == 1 && dns::lower(m.qd[0].name) == dns::lower(name) && m.ns.empty(), "reply does not repeat ID and question: %s", dns::str(m).c_str());
        if (x.what == 2) REQUIRE(m.an.empty(), "AAAA query not refused: %s", dns::str(m).c_str());
        else { REQUIRE(m.an.size() == 1, "%s: %zu records: %s", qs.c_str(), m.an.size(), dns::str(m).c_str()); dns::RR r = m.an[0]; r.ttl = 60; REQUIRE(dns::lower(r.name) == dns::lower(name) && r.type == type && r.klass == 1 && r.rdata == x.rr.rdata, "%s: got %s, expected %s", qs.c_str(), dns::str(r).c_str(), dns::str(x.rr).c_str());
            size_t o = 0; for (auto &r2 : m.ar) o += r2.type == dns::OPT; REQUIRE(m.ar.size() == (edns ? 1u : 0u) && o == m.ar.size(), "%s: EDNS %s but the reply has %zu additional records", qs.c_str(), edns ? "on" : "off", m.ar.size()); }
    }
    if (tc) { tcp_eof(tc); run(); } char c[3] = {(char)('0' + x.what), 0}; return c;
}
static void combos(int n, bool small)
{
    std::vector<Ent> st, dy; private_files = true; int nt = small ? 5 : 7, nn = small ? 2 : 4; static const int smallT[] = {0, 1, 2, 4, 5};
    for (int i = 0; i < n; i++) { int k = choose(nt * nn * 2, "entry"); Ent e{T[small ? smallT[k % nt] : k % nt], N[(k / nt) % nn]}; (k / nt / nn ? dy : st).push_back(e); }
    bool block = choose(2, "block"); std::string c = "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nEnableTCPtoUDP true\nUDPGroup 8.8.8.8 * off\nModulesUpdateInterval -1\n"; if (block) c += "BlockIpv6WhenIpv4Exists true\n";
    bool one = (st.size() & 1); if (st.size() && !one) { c += "AppendHosts "; for (size_t i = 0; i < st.size(); i++) c += (i ? "," : "") + st[i].target + " " + st[i].pat; c += "\n"; } else for (auto &e : st) c += "AppendHosts " + e.target + "  " + e.pat + "\n";
    if (dy.size()) { std::string f = "# hosts\r\n"; for (auto &e : dy) f += e.target + "\t" + e.pat + " # x\n\n"; write_file("src.txt", f); write_file("hosts.txt", f); c += "Hosts file://" + path("src.txt") + "\nHostsDownloadPath " + path("hosts.txt") + "\n"; }
    boot(c); run(); std::string obs; int id = 1; static const char *names[] = {"a.org", "A.ORG", "b.org", "cc.org", "x.a.org", "a.orgx"}; static const int types[] = {1, 28, 5, 15};
    for (auto nm : names) for (int t : types) { obs += ask(st, dy, nm, t, block, id % 3 == 0, id); id++; }
    exec_done(obs);
}
// many entries: the shared address table and the name table grow; every name keeps its own address
static void many()
{
    int n = 4 << choose(8, "n"); bool dup = choose(2, "dup"), dyn = choose(2, "dynamic"); private_files = true; std::vector<Ent> es; std::string f;
    for (int i = 0; i < n; i++) { char t[64], p[64]; if (i % 3 == 2) { int h[8] = {0xfd00, 1, 1, 1, 1, 1, 1, 1}, k = i / 3, v = 2 + k / 8 % 200; if (!dup) h[k % 8] = k / 8 & 1 ? v << 8 | 1 : k % 8 ? v : 0xfd00 + v; snprintf(t, sizeof t, "%x:%x:%x:%x:%x:%x:%x:%x", h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]); } else if (i % 3) snprintf(t, sizeof t, "10.%d.%d.%d", dup ? 0 : i >> 8, dup ? 0 : i & 255, dup ? i % 4 : 7); else snprintf(t, sizeof t, "10.7.%d.%d", dup ? 0 : i >> 8, dup ? 1 : i & 255); snprintf(p, sizeof p, "h%d.example.org", i); es.push_back({t, p}); f += std::string(t) + " " + p + "\n"; }
    std::string c = "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nUDPGroup 8.8.8.8 * off\nModulesUpdateInterval -1\n";
    if (dyn) { write_file("src.txt", f); write_file("hosts.txt", f); c += "Hosts file://" + path("src.txt") + "\nHostsDownloadPath " + path("hosts.txt") + "\n"; } else for (auto &e : es) c += "AppendHosts " + e.target + " " + e.pat + "\n";
    boot(c); run(); std::vector<Ent> none; for (int i = 0; i < n; i++) { ask(dyn ? none : es, dyn ? es : none, es[i].pat, i & 1 ? 1 : 28, false, false, 4 * i + 1); } exec_done("");
}
// long and odd names
static void longnames()
{
    int len = 1 + choose(127, "len"); std::string n; while ((int)n.size() < len) { n += (n.size() % 40 == 39 && (int)n.size() + 1 < len) ? '.' : (char)('a' + n.size() % 26); } int kindsel = choose(3, "target");
    std::vector<Ent> st = {{T[kindsel == 0 ? 0 : kindsel == 1 ? 2 : 5], n}}, none; boot("LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nEnableTCPtoUDP true\nUDPGroup 8.8.8.8 * off\nAppendHosts " + st[0].target + " " + n + "\n"); int id = 1; for (int t : {1, 28, 5}) for (int e = 0; e < 2; e++) ask(st, none, n, t, false, e, id++); exec_done("");
}
void check_main()
{
    explore("combos/2", [] { combos(2, false); });
    explore("combos/3", [] { combos(3, !g_thorough); });
    explore("many", [] { many(); });
    explore("longnames", [] { longnames(); });
}
