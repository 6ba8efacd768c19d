// P07: disabled types and domains. Reference predicate over all small list contents x names x types x transports.
#include "scn.h"
static bool wm(const char *p, const char *s) { if (!*p) return !*s; if (*p == '*') return wm(p + 1, s) || (*s && wm(p, s + 1)); return *s && (*p == '?' || *p == *s) && wm(p + 1, s + 1); }
static bool covers(std::string p, std::string n) { p = dns::lower(p); n = dns::lower(n); if (p[0] == '.') p.erase(0, 1); if (p.find_first_of("*?") != std::string::npos) return wm(p.c_str(), n.c_str()); return n == p || (n.size() > p.size() && n.compare(n.size() - p.size(), p.size(), p) == 0 && n[n.size() - p.size() - 1] == '.'); }
static const char *PAT[] = {"b.org", "a.b.org", "*.b.org", "org", "AB.org", ".c.net", "?.b.org", "b.*", "xx.b.org"};
static const char *NAMES[] = {"b.org", "a.b.org", "B.org", "ab.org", "ab.ORG", "x.a.b.org", "bb.org", "b.orgs", "org", "c.net", "q.c.net", "xx.b.org", "xxx.b.org", "b.com", "d.de", ""};
static const int TYPES[] = {1, 28, 15, 255, 65};
struct W7 : World {
    std::vector<std::string> pats; std::set<int> types; int id = 1; std::string obs;
    void query(const std::string &name, int type, bool tcp, bool edns) {
        bool dis = types.count(type) > 0; for (auto &p : pats) dis |= covers(p, name);
        dns::Msg q = dns::query(id++, name, type, edns); bytes b = dns::encode(q); Conn *tc = nullptr; size_t o0 = out.size();
        if (tcp) { tc = tcp_connect("9.9.9.3:3333", "127.0.0.1:53"); bytes f; dns::p16(f, b.size()); f += b; tcp_push(tc, f); } else udp_in("9.9.9.1:1111", "127.0.0.1:53", b);
        run(); bytes rep; int nrep = 0, nup = 0; Sent us;
        for (size_t i = o0; i < out.size(); i++) if (out[i].dst == "1.1.1.1:53") { nup++; us = out[i]; } else { nrep++; rep = out[i].data; REQUIRE(out[i].dst == "9.9.9.1:1111" && out[i].src == "127.0.0.1:53", "reply sent to %s", out[i].dst.c_str()); }
        if (tcp) { bytes t = tcp_take(tc); if (t.size()) { REQUIRE(t.size() > 2 && dns::g16(t, 0) == (int)t.size() - 2, "bad TCP framing of a refusal"); rep = t.substr(2); nrep++; } }
        count_eval(1);
        if (dis) {
            REQUIRE(nup == 0, "disabled query %s was forwarded", dns::str(q).c_str()); REQUIRE(nrep == 1, "disabled query %s got %d replies", dns::str(q).c_str(), nrep);
            dns::Msg m; REQUIRE(dns::decode(rep, m), "malformed refusal %s", dns::hex(rep).c_str());
            REQUIRE(m.qr() && m.rcode() == 0 && m.an.empty() && m.ns.empty() && m.id == q.id && m.qd.size() == 1 && m.qd[0].name == name && m.qd[0].type == type && m.qd[0].klass == 1, "refusal is not the expected empty reply: %s", dns::str(m).c_str());
        } else {
            REQUIRE(nrep == 0, "query %s is not disabled but was answered locally", dns::str(q).c_str()); REQUIRE(nup == 1, "query %s is not disabled but was forwarded %d times", dns::str(q).c_str(), nup); REQUIRE(us.data == b, "query altered");
            dns::Msg a = dns::answer(q, {dns::rrTXT(name, "x")}); bytes ab = dns::encode(a); o0 = out.size(); udp_reply(us, ab); run();
            bytes got = tcp ? tcp_take(tc) : out.size() == o0 + 1 ? out[o0].data : ""; if (tcp) got = got.size() > 2 ? got.substr(2) : ""; REQUIRE(got == ab, "answer to a query that is not disabled was not relayed");
        }
        obs += dis ? "x" : "."; if (tc) { tcp_eof(tc); run(); }
    }
    void all(bool types_too) { int k = 0; for (auto n : NAMES) for (int t : TYPES) { if (!types_too && t != 1 && t != 28) continue; query(n, t, (k % 3) == 1, (k % 5) == 2); k++; } }
};
static std::string base() { return "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nEnableTCPtoUDP true\nUDPGroup 1.1.1.1 * off\n"; }
// two patterns, each given by option or file, in one or two statements
static void domains(int n)
{
    W7 w; private_files = true; std::string opt, file; std::vector<std::string> o, f;
    for (int i = 0; i < n; i++) { int k = choose(19, "pattern"); if (k == 18) break; w.pats.push_back(PAT[k % 9]); (k < 9 ? o : f).push_back(PAT[k % 9]); }
    int style = choose(2, "style"); std::string c = base();
    if (style == 0) { if (o.size()) { c += "DisabledDomain "; for (size_t i = 0; i < o.size(); i++) c += (i ? "," : "") + o[i]; c += "\n"; } } else for (auto &x : o) c += "DisabledDomain " + x + "\n";
    for (size_t i = 0; i < f.size(); i++) { if (style == 1) { write_file("d" + std::to_string(i), "# c\n\n  " + f[i] + " # x"); c += "DisabledList " + path("d" + std::to_string(i)) + "\n"; } else file += f[i] + "\r\n"; }
    if (file.size()) { write_file("dl", file); c += "DisabledList " + path("dl") + "\n"; }
    boot(c); w.all(false); exec_done(w.obs);
}
static void types()
{
    W7 w; std::string c = base(), l; for (int t : TYPES) if (choose(2, "type")) { w.types.insert(t); l += (l.empty() ? "" : ",") + std::to_string(t); } int st = choose(2, "style");
    if (l.size()) { if (st) for (int t : w.types) c += "DisabledType " + std::to_string(t) + "\n"; else c += "DisabledType " + l + "\n"; }
    if (choose(2, "domain")) { w.pats.push_back("b.org"); c += "DisabledDomain b.org\n"; }
    boot(c); w.all(true); for (int t = 1; t < 70; t++) w.query("d.de", t, false, false); for (int t : {256, 257, 511, 32769, 65281}) w.query("d.de", t, false, false); exec_done(w.obs);
}
// disabling comes before hosts and the cache
static void precedence()
{
    W7 w; int what = choose(3, "what"); std::string c = base(); c.replace(c.find("UseCache false"), 14, "UseCache true\nMemoryCache true"); c += "AppendHosts 1.2.3.4 h.org\n";
    if (what == 0) { w.types.insert(1); c += "DisabledType 1\n"; } else if (what == 1) { w.pats.push_back("org"); c += "DisabledDomain org\n"; } else { w.pats.push_back("h.org"); c += "DisabledDomain h.org\n"; }
    boot(c); for (int i = 0; i < 2; i++) { w.query("h.org", 1, i, false); if (what == 0) w.query("z.org", 1, i, false); else if (what == 1) w.query("h.org", 15, i, false); else w.query("b.com", 15, i, false), w.id--; if (what == 2) break; } exec_done(w.obs);
}
// long list files: every entry counts, nothing else does
static void longlist()
{
    W7 w; private_files = true; int n = 8 << choose(7, "size"); std::string f; for (int i = 0; i < n; i++) { std::string d = "d" + std::to_string(i * 7919 % 10007) + (i % 2 ? ".example.net" : ".example.org"); w.pats.push_back(d); f += d + "\n"; }
    write_file("dl", f); boot(base() + "DisabledList " + path("dl") + "\n"); for (int i = 0; i < n; i++) { std::string d = w.pats[i]; w.query(i % 3 ? d : "www." + d, 1, false, false); w.query(d.substr(1), 1, false, false); } exec_done("");
}
void check_main()
{
    explore("domains", [] { domains(g_thorough ? 4 : 3); });
    explore("types", [] { types(); });
    explore("ipv6", [] { ipv6_clients = true; if (choose(2, "part")) types(); else domains(2); });
    explore("precedence", [] { precedence(); });
    explore("longlist", [] { longlist(); });
}
