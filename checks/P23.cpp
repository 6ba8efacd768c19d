// P23: texts and addresses. Every text of bounded families, read by the program from its configuration and hosts files, against inet_pton.
#include "scn.h"
#include <arpa/inet.h>
using namespace dns;
enum { BAD, GOOD, UNSURE };
static bool alld(const std::string &s) { return !s.empty() && s.find_first_not_of("0123456789") == s.npos; }
static int parse4(const std::string &s, bytes &b) { unsigned char x[4]; if (inet_pton(AF_INET, s.c_str(), x) == 1) { b = bytes((char *)x, 4); return GOOD; } size_t p = 0; for (int i = 0; i < 4; i++) { size_t q = s.find('.', p); if ((q == s.npos) != (i == 3)) return BAD; std::string c = s.substr(p, q == s.npos ? q : q - p); if (!alld(c) || strtoul(c.c_str(), 0, 10) > 255) return BAD; p = q + 1; } return UNSURE; } // leading zeros
static int parse6(const std::string &s, bytes &b) { unsigned char x[16]; if (inet_pton(AF_INET6, s.c_str(), x) == 1) { b = bytes((char *)x, 16); return GOOD; } size_t c = s.rfind(':'); bytes t; if (c != s.npos && s.find('.') != s.npos && parse4(s.substr(c + 1), t) == UNSURE) return UNSURE; if (s.find('%') != s.npos) return UNSURE; return BAD; }
// host part with optional port, as in server addresses
static int parse_server(const std::string &s, int defport, Addr &out) {
    bytes b; std::string h = s, p; bool six = s[0] == '[', hasp = false; if (six) { size_t e = s.find(']'); if (e == s.npos) return BAD; h = s.substr(1, e - 1); p = s.substr(e + 1); if (!p.empty()) { if (p[0] != ':') return UNSURE; p.erase(0, 1); hasp = true; } } else { size_t e = s.find(':'); if (e != s.npos) { h = s.substr(0, e); p = s.substr(e + 1); hasp = true; } }
    int r = six ? parse6(h, b) : parse4(h, b); if (r != GOOD) return r; int port = defport; if (hasp) { if (p.empty()) return UNSURE; if (!alld(p)) return p[0] == '-' || p[0] == '+' || isdigit(p[0]) ? UNSURE : BAD; if (p.size() > 9 || atoi(p.c_str()) > 65535) return BAD; port = atoi(p.c_str()); }
    char t[64]; inet_ntop(six ? AF_INET6 : AF_INET, b.data(), t, sizeof t); out = (six ? "[" + std::string(t) + "]:" : std::string(t) + ":") + std::to_string(port); return GOOD; }
typedef std::vector<std::string> L;
static void all(L &l, const std::string &al, int n) { for (int len = 1; len <= n; len++) { std::string s(len, al[0]); std::vector<int> d(len, 0); for (;;) { for (int i = 0; i < len; i++) s[i] = al[d[i]]; l.push_back(s); int i = len - 1; while (i >= 0 && ++d[i] == (int)al.size()) d[i--] = 0; if (i < 0) break; } } }
static void mutate(L &l, const std::string &s, const char *al = ":.0g1%/f]9") { for (size_t i = 0; i <= s.size(); i++) { if (i < s.size()) { std::string t = s; t.erase(i, 1); l.push_back(t); } for (const char *c = al; *c; c++) { std::string t = s; t.insert(i, 1, *c); l.push_back(t); if (i < s.size()) { t = s; t[i] = *c; l.push_back(t); } } } }
static L v4texts() { L l; all(l, "25.", g_thorough ? 12 : 10); all(l, "1.", g_thorough ? 16 : 13); all(l, "019.", g_thorough ? 8 : 7); const char *C[] = {"0", "1", "9", "10", "99", "100", "127", "128", "199", "200", "249", "250", "255", "256", "260", "300", "999", "1000", "", "01", "a", "0x1", "65537", "4294967297", "-1", "+1", "1a"}; const int NC = sizeof C / sizeof *C;
    for (int p = 0; p < 4; p++) for (int q = p; q < 4; q++) for (int i = 0; i < NC; i++) for (int j = 0; j < NC; j++) { if (p == q && i != j) continue; std::string s; for (int k = 0; k < 4; k++) s += std::string(k ? "." : "") + (k == p ? C[i] : k == q ? C[j] : k == 0 ? "192" : k == 1 ? "0" : k == 2 ? "34" : "251"); l.push_back(s); }
    for (int i = 0; i < NC; i++) { l.push_back(std::string("1.2.3.4.") + C[i]); l.push_back(std::string(C[i]) + ".2.3"); l.push_back(C[i]); l.push_back(std::string("1.") + C[i]); } for (auto m : {"1.2.3.4", "200.10.255.0"}) mutate(l, m); for (int v = 0; v < 256; v++) { std::string t = std::to_string(v); l.push_back(t + ".0.0.1"); l.push_back("9." + t + ".0.1"); l.push_back("9.0." + t + ".1"); l.push_back("9.0.0." + t); } return l; }
// all spellings of an address: groups as written, which run of zeros is compressed (also single zeros and parts of a run), case, padding, embedded IPv4
static void spell(L &l, const int *g, bool few) { for (int st = 0; st < (few ? 2 : 4); st++) for (int v4 = 0; v4 < 2; v4++) { int n = v4 ? 6 : 8; auto wr = [&](int i) { char b[24]; if (v4 && i == 6) { sprintf(b, "%d.%d.%d.%d", g[6] >> 8, g[6] & 255, g[7] >> 8, g[7] & 255); return std::string(b); } sprintf(b, st == 0 ? "%x" : st == 1 ? "%04X" : st == 2 ? "%X" : "%03x", g[i]); return std::string(b); }; int N = v4 ? 7 : 8;
    for (int a = -1; a < n; a++) for (int b = a; b < n; b++) { if (a < 0 && b >= 0) break; bool z = true; for (int i = a; a >= 0 && i <= b; i++) z &= g[i] == 0; if (a >= 0 && !z) break; if (few && a >= 0 && (a > 0 && g[a - 1] == 0)) continue; std::string s; for (int i = 0; i < N; i++) { if (a >= 0 && i == a) { s += "::"; i = b; continue; } if (i && s.back() != ':') s += ":"; s += wr(i); } l.push_back(s); } } }
static L v6texts() { L l; all(l, "1:", g_thorough ? 18 : 16); all(l, "1f:.", g_thorough ? 10 : 8); all(l, ":0a", g_thorough ? 11 : 9); const int V[] = {1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0xa0b0, 0xcdef}; for (int m = 0; m < 256; m++) { int g[8]; for (int i = 0; i < 8; i++) g[i] = m >> i & 1 ? V[(i * 3 + m) % 10] : 0; spell(l, g, !g_thorough && m % 5); }
    for (int i = 0; i < 8; i++) for (int v : {0, 1, 9, 0xa, 0x10, 0x99, 0xab, 0x100, 0x7ff, 0x1234, 0x7fff, 0x8000, 0xfffe, 0xffff}) { int g[8] = {0x2001, 0xdb8, 0, 0x42, 0, 0, 0x9, 1}; g[i] = v; spell(l, g, true); }
    for (auto s : {"2001:db8::1", "::ffff:1.2.3.4", "1:2:3:4:5:6:7:8", "::", "fe80::", "1:2:3:4:5:6:1.2.3.4"}) mutate(l, s); for (auto s : {"12345::", "::12345", "1::2::3", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7", "::1.2.3", "::1.2.3.4.5", "::300.1.1.1", "1.2.3.4::", "1.2.3.4:1::", "::1.2.3.4:5", ":1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8:", "1:2:3:4:5:6:7::8", "1:2:3:4:5:6:7:1.2.3.4", "1:2:3:4:5:1.2.3.4", ":::", "::::", ":", "1", "abcd", "g::", "::g", "1::-1", "0x1::", "::1/64", "00001::"}) l.push_back(s); return l; }
static L servers() { L l, a = v4texts(), b = v6texts(); for (auto &s : a) l.push_back(s); for (auto &s : b) { l.push_back("[" + s + "]"); if (s.size() < 10) l.push_back(s); } for (auto h : {"1.2.3.4", "[2001:db8::1]", "[::]", "255.255.255.255", "[1:2:3:4:5:6:7:8]", "[::ffff:1.2.3.4]"}) { for (auto p : {":0", ":1", ":53", ":053", ":65535", ":65536", ":99999", ":4294967349", ":-1", ":+53", ":", ":x", ":5x", "::53", ":53:53", "53", " 53", ".53", "/53", "]", "[:53"}) l.push_back(std::string(h) + p); for (int p = 1; p < 65536; p = p < 300 ? p + 1 : p * 5 / 4) l.push_back(std::string(h) + ":" + std::to_string(p)); }
    for (auto h : {"[1.2.3.4]", "[1.2.3.4]:53", "[::1", "::1]", "[]", "[]:53", "[:53", "x[::1]", "[[::1]]", "[::1]]", "1.2.3.4[::1]", "localhost", "[localhost]", "a.b.c.d", "[1:2:3:4:5:6:7:8:9]:53", "[1:2]:53", "1.2.3:53", "300.1.1.1:53", "1.2.3.4x:53", "1.2.3.400"}) l.push_back(h); return l; }
static bool clean(const std::string &s) { return s.size() && s.find_first_of("#;, \t\"") == s.npos && s.size() < 80; }
static L SRV, HOST; enum { PER = 300 };
// local addresses, as given by UDPLocal or TCPLocal
static void locals(bool tcp, size_t step) {
    size_t n = (SRV.size() + PER * step - 1) / (PER * step); size_t from = choose(n, "batch") * PER * step; std::string c = std::string("LogOn false\nUseCache false\nUDPGroup 1.1.1.1 * off\n") + (tcp ? "UDPLocal 127.9.9.9:5\n" : ""), kw = tcp ? "TCPLocal " : "UDPLocal "; L txt; std::vector<Addr> want; int un = 0; auto add = [&](const std::string &s) { if (!clean(s)) return; Addr a; int r = parse_server(s, 53, a); if (r == UNSURE) { un++; return; } c += kw + s + "\n"; if (r == GOOD) { want.push_back(a); txt.push_back(s); } else { want.push_back("none"); txt.push_back(s); } };
    add("127.0.0.9:1"); for (size_t i = from; i < from + PER * step && i < SRV.size(); i += step) add(SRV[i]); add("127.0.0.9:2"); std::vector<Addr> got; on_bind = [&](const Addr &a, bool t) { if (t == tcp && a.find("127.0.0.1:10") == a.npos && a != "[::1]:0" && a.find("[::1]:10") == a.npos) got.push_back(a); }; boot(c); run(); size_t g = 0; count_eval(want.size());
    std::string lastbad; for (size_t i = 0; i < want.size(); i++) { if (want[i] == "none") { lastbad = txt[i]; continue; } REQUIRE(g < got.size(), "\"%s\" was not understood as the address %s", txt[i].c_str(), want[i].c_str()); REQUIRE(got[g] == want[i], "\"%s\" was understood as %s, not as %s (or \"%s\", which is no address, was taken for one)", txt[i].c_str(), got[g].c_str(), want[i].c_str(), lastbad.c_str()); g++; } REQUIRE(g == got.size(), "%s bound although no address was given", got[g].c_str()); exec_done(std::to_string(want.size()) + "/" + std::to_string(got.size()) + "/" + std::to_string(un) + got[got.size() / 2]); }
// hosts items
static void hosts(bool dyn) {
    const size_t per = 200; size_t n = (HOST.size() + per - 1) / per; size_t from = choose(n, "batch") * per; private_files = true; std::string c = "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\n", f; L t; for (size_t i = from; i < from + per && i < HOST.size(); i++) if (clean(HOST[i])) t.push_back(HOST[i]);
    for (size_t i = 0; i < t.size(); i++) { std::string l = t[i] + " h" + std::to_string(i) + ".org\n"; if (dyn) f += l; else c += "AppendHosts " + l; } if (dyn) { write_file("src.txt", f); write_file("hosts.txt", f); c += "Hosts file://" + path("src.txt") + "\nHostsDownloadPath " + path("hosts.txt") + "\n"; } boot(c); run(); int ans = 0;
    for (size_t i = 0; i < t.size(); i++) for (int type : {A, AAAA}) { bytes b; int r4 = parse4(t[i], b), r6 = r4 == BAD ? parse6(t[i], b) : BAD; if (r4 == UNSURE || r6 == UNSURE) continue; bool six = type == AAAA; if (r4 == GOOD && six) continue; Msg q = dns::query(i + 1, "h" + std::to_string(i) + ".org", type); size_t o0 = out.size(); udp_in("9.9.9.1:1111", "127.0.0.1:53", encode(q)); run(); count_eval(1); Msg m; bool loc = false; for (size_t k = o0; k < out.size(); k++) if (out[k].dst == "9.9.9.1:1111") { loc = true; REQUIRE(decode(out[k].data, m), "malformed reply"); }
        bool want = six ? r6 == GOOD : r4 == GOOD; size_t addrs = 0; if (loc) for (auto &r : m.an) addrs += r.type == A || r.type == AAAA; if (!want) { REQUIRE(!addrs, "\"%s\" was taken for an address: %s", t[i].c_str(), str(m).c_str()); continue; } REQUIRE(loc && m.an.size() == 1 && m.an[0].type == type && m.an[0].rdata == b, "\"%s\" was not understood as %s: %s", t[i].c_str(), hex(b).c_str(), loc ? str(m).c_str() : "not in the hosts"); ans++; }
    exec_done(std::to_string(t.size()) + "/" + std::to_string(ans) + t[t.size() / 2]); }
// upstream servers and proxies: the address a query goes to
static void upstream() { static const L T = {"1.2.3.4", "1.2.3.4:5353", "[2001:DB8::1]", "[2001:db8:0:0:0:0:0:1]:5353", "[::ffff:1.2.3.4]:54", "[::1]", "[1:2:3:4:5:6:7:8]:65535", "255.254.253.252:1", "[fe80::abcd:0:0:1]", "[1::]", "[0:0:0:0:0:0:0:0]:9", "[12:0:0:34::56]:99"}; int k = choose(T.size(), "address"), how = choose(4, "how"), bad = choose(4, "bad"); const char *B[] = {"", "300.1.1.1", "[1:2]:53", "nowhere"}; Addr want; if (parse_server(T[k], how == 3 ? 1080 : 53, want) != GOOD) abort(); std::string list = bad ? std::string(B[bad]) + "," + T[k] : T[k]; std::set<Addr> con; on_connect = [&](const Addr &d, int64_t *t) { *t = 0; con.insert(d); return (int)ACCEPT; };
    std::string c = "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\n" + (how == 0 ? "UDPGroup " + list + " * off\n" : how == 1 ? "UDPGroup " + list + " * on\n" : how == 2 ? "TCPGroup " + list + " * off no\n" : "TCPGroup 9.8.7.6 * off " + list + "\n"); boot(c); for (int i = 0; i < 3; i++) { udp_in("9.9.9.1:1111", "127.0.0.1:53", encode(dns::query(i + 1, "a.org", A))); run(); for (int j = 0; j < 10; j++) advance(50); } std::set<Addr> d = con; if (how < 2) { d.clear(); for (auto &s : out) if (s.dst != "9.9.9.1:1111") d.insert(s.dst); } count_eval(1);
    REQUIRE(d.size() == 1 && d.count(want), "server \"%s\": queries went to %s instead of %s", list.c_str(), d.empty() ? "nowhere" : d.begin()->c_str(), want.c_str()); exec_done(want); }
// addresses printed (log, socks request) and read back
static std::vector<bytes> values() { std::vector<bytes> v; const int V[] = {1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0xa0b0, 0xcdef}; for (int rot = 0; rot < 10; rot++) for (int m = 0; m < 256; m++) { bytes b; for (int i = 0; i < 8; i++) p16(b, m >> i & 1 ? V[(i + rot) % 10] : 0); v.push_back(b); } for (int i = 0; i < 128; i++) { bytes b(16, 0); b[i / 8] |= 0x80 >> (i % 8); v.push_back(b); for (auto &c : b) c = ~c; v.push_back(b); } return v; }
static void log_print() { auto v = values(); int per = 120; int k = choose((v.size() + per - 1) / per, "batch"); private_files = true; write_file("log/x", ""); boot("LogOn true\nLogFileFolder " + path("log") + "\nUseCache false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\n"); std::vector<bytes> sent, got;
    for (int i = k * per; i < (k + 1) * per && i < (int)v.size(); i += 6) { Msg q = dns::query(i + 1 & 0xffff, "p.org", AAAA), a = dns::answer(q, {}); for (int j = i; j < i + 6 && j < (int)v.size(); j++) { a.an.push_back(rrAAAA("p.org", v[j])); sent.push_back(v[j]); RR r = rrA("p.org", "0.0.0.0"); r.rdata = v[j].substr(j % 13, 4); a.an.push_back(r); sent.push_back(r.rdata); } size_t o = out.size(); udp_in("9.9.9.1:1111", "127.0.0.1:53", encode(q)); run(); REQUIRE(out.size() > o, "not forwarded"); udp_reply(out[o], encode(a)); run(); }
    advance(2000); std::string s = read_file("log/dnsforwarder.log"); for (size_t p = 0; (p = s.find(" Address: ", p)) != s.npos;) { p += 10; std::string t = s.substr(p, s.find('\n', p) - p); while (t.size() && t.back() <= ' ') t.pop_back(); bytes b; int r = t.find(':') != t.npos ? parse6(t, b) : parse4(t, b); REQUIRE(r == GOOD, "\"%s\" was printed for an address", t.c_str()); got.push_back(b); }
    count_eval(sent.size()); for (size_t i = 0; i < sent.size(); i++) REQUIRE(i < got.size() && got[i] == sent[i], "address %s was printed as %s", hex(sent[i]).c_str(), i < got.size() ? hex(got[i]).c_str() : "nothing"); exec_done(hex(sent[0])); }
static void socks() { auto v = values(); int k = choose(g_thorough ? v.size() : 256 + 1, "address"); bool four = choose(2, "four"); bytes a = k == 256 ? v[v.size() - 1] : v[k]; if (four) a = a.substr(k % 13, 4); char t[64]; inet_ntop(four ? AF_INET : AF_INET6, a.data(), t, sizeof t); on_connect = [&](const Addr &, int64_t *d) { *d = 0; return (int)ACCEPT; }; boot("LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nTCPGroup " + (four ? std::string(t) : "[" + std::string(t) + "]") + ":853 * off 5.5.5.5\n"); udp_in("9.9.9.1:1111", "127.0.0.1:53", encode(dns::query(1, "a.org", A))); run(); Conn *c = nullptr; for (int i = 0; i < 40; i++) { for (auto x : conns) if (x->outgoing) c = x; if (c && c->tx.size() >= 3) break; advance(50); } REQUIRE(c && c->peer == "5.5.5.5:1080", "proxy not contacted"); tcp_push(c, bytes("\x05\x00", 2)); run(); for (int i = 0; i < 40 && c->tx.size() < 10; i++) advance(50);
    bytes r = c->tx.substr(3); count_eval(1); REQUIRE(r.size() > 5, "no request to the proxy"); bytes b; int port = 0; if (r[3] == 3) { int n = (unsigned char)r[4]; REQUIRE((int)r.size() >= 7 + n, "short request"); std::string h = r.substr(5, n); REQUIRE((four ? parse4(h, b) : parse6(h, b)) == GOOD, "\"%s\" was sent for %s", h.c_str(), t); port = g16(r, 5 + n); } else { int n = r[3] == 1 ? 4 : 16; b = r.substr(4, n); port = g16(r, 4 + n); } REQUIRE(b == a && port == 853, "proxy was asked for %s:%d instead of %s:853", hex(b).c_str(), port, t); exec_done(hex(a)); }
void check_main() {
    SRV = servers(); HOST = v4texts(); for (auto &s : v6texts()) HOST.push_back(s); 
    explore("upstream", upstream); explore("log", log_print); explore("socks", socks); explore("hosts/static", [] { hosts(false); }); explore("hosts/dynamic", [] { hosts(true); }); explore("locals/udp", [] { locals(false, 1); }); explore("locals/tcp", [] { locals(true, g_thorough ? 1 : 7); });
}
