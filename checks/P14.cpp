// P14: blocking and substitution of addresses in upstream answers. Reference predicate over rule sets x answers x transports.
#include "scn.h"
#include <arpa/inet.h>
using namespace dns;
static bytes ip(const std::string &s) { unsigned char b[16]; bool six = s.find(':') != std::string::npos; if (inet_pton(six ? AF_INET6 : AF_INET, s.c_str(), b) != 1) { fprintf(stderr, "bad %s\n", s.c_str()); abort(); } return bytes((char *)b, six ? 16 : 4); }
static std::string txt(const bytes &b) { char t[64]; inet_ntop(b.size() == 16 ? AF_INET6 : AF_INET, b.data(), t, sizeof t); return t; }
struct Rule { std::string addr, to; }; // to empty: blocked
static bool covers(const std::string &r, const bytes &a, bool *single) { size_t s = r.find('/'); bytes b = ip(r.substr(0, s)); if (b.size() != a.size()) return false; int n = s == r.npos ? (int)b.size() * 8 : atoi(r.c_str() + s + 1); *single = n == (int)b.size() * 8; for (int i = 0; i < n; i++) if (((b[i / 8] ^ a[i / 8]) >> (7 - i % 8)) & 1) return false; return true; }
// what may happen with an address; "" = blocked. Which of several rules of one kind takes effect is not specified.
static std::set<bytes> outcomes(const std::vector<Rule> &rs, const bytes &a) { std::set<bytes> one, cidr; for (auto &r : rs) { bool s = false; if (covers(r.addr, a, &s)) (s ? one : cidr).insert(r.to.empty() ? "" : ip(r.to)); } if (one.size()) return one; if (cidr.size()) return cidr; return {a}; }
struct W14 {
    std::vector<Rule> rules; bool neg = false, tcp = false, cache = false, par = false; int id = 1; std::string obs; int64_t nblock = 0, nsub = 0;
    W14() { private_files = true; on_connect = [](const Addr &, int64_t *d) { *d = 0; return (int)ACCEPT; }; }
    std::string conf() { return std::string("LogOn false\nUseCache ") + (cache ? "true\nMemoryCache true\nCacheSize 200000\n" : "false\n") + "UDPLocal 127.0.0.1:53\n" + (tcp ? par ? "TCPGroup 1.1.1.1,2.2.2.2 * on no\n" : "TCPGroup 1.1.1.1 * off no\n" : "UDPGroup 1.1.1.1 * off\n") + (neg ? "BlockNegativeResponse true\n" : ""); }
    // send the query, return the bytes sent upstream
    size_t o0, c0; Conn *uc = nullptr, *uc2 = nullptr; Sent us;
    bytes ask(const Msg &q) { o0 = out.size(); for (auto c : conns) tcp_take(c); udp_in("9.9.9.1:1111", "127.0.0.1:53", encode(q)); run(); uc = nullptr;
        if (tcp) { bytes r; uc2 = nullptr; for (int k = 0; k < 20; k++, advance(50)) { for (auto c : conns) if (c->outgoing) { bytes t = tcp_take(c); if (t.size() > 2) { (uc ? uc2 : uc) = c; r = t.substr(2); } } if (uc && (uc2 || !par)) break; } return r; }
        for (size_t i = o0; i < out.size(); i++) if (out[i].dst == "1.1.1.1:53") { us = out[i]; return us.data; } return ""; }
    void reply(const bytes &b) { o0 = out.size(); if (tcp) { bytes f; p16(f, b.size()); tcp_push(uc, f + b); } else udp_reply(us, b); run(); }
    bool got(bytes &b) { int n = 0; for (size_t i = o0; i < out.size(); i++) if (out[i].dst == "9.9.9.1:1111") { n++; b = out[i].data; } REQUIRE(n <= 1, "%d replies for one answer", n); return n == 1; }
    // the answer's records: relayed as they should be, or not at all
    char answer(const Msg &q, const bytes &ab, bool compressed = false) {
        Msg a; REQUIRE(decode(ab, a), "bad test answer"); bool maynot = false, may = true; std::vector<std::set<bytes>> oc;
        for (auto &r : a.an) { std::set<bytes> o; if (r.klass == 1 && (r.type == A || r.type == AAAA)) { o = outcomes(rules, r.rdata); if (o.count("")) { maynot = true; o.erase(""); if (o.empty()) may = false; } } else o = {r.rdata}; oc.push_back(o); }
        if (neg && a.rcode()) { may = false; maynot = true; }
        reply(ab); bytes g; bool rel = got(g); count_eval(1);
        REQUIRE(rel || maynot, "answer %s was not relayed although no rule blocks it%s", str(a).c_str(), rs().c_str()); REQUIRE(!rel || may, "answer %s was relayed although it is blocked%s", str(a).c_str(), rs().c_str());
        if (!rel) { nblock++; return 'b'; }
        Msg m; REQUIRE(g.size() == ab.size() && decode(g, m) && m.an.size() == a.an.size(), "answer %s changed into %s%s", str(a).c_str(), show(g).c_str(), rs().c_str()); char c = '.'; bytes want = ab;
        for (size_t i = 0; i < a.an.size(); i++) { REQUIRE(oc[i].count(m.an[i].rdata), "address %s in %s became %s%s", hex(a.an[i].rdata).c_str(), str(a).c_str(), hex(m.an[i].rdata).c_str(), rs().c_str()); if (m.an[i].rdata != a.an[i].rdata) { c = 's'; nsub++; } a.an[i].rdata = m.an[i].rdata; }
        REQUIRE(a.flags == m.flags && a.id == m.id && a.an == m.an && a.ns == m.ns && a.ar == m.ar && m.qd.size() == 1 && a.qd[0].name == m.qd[0].name && a.qd[0].type == m.qd[0].type, "answer %s changed into %s%s", str(a).c_str(), str(m).c_str(), rs().c_str());
        if (!compressed) REQUIRE(g == encode(a), "bytes of the answer %s changed: %s", str(a).c_str(), hex(g).c_str());
        return c; }
    std::string rs() { std::string s = "; rules:"; for (auto &r : rules) s += " " + r.addr + (r.to.empty() ? " blocked" : " -> " + r.to); return s; }
    char probe(const bytes &a) { std::string n = "n" + std::to_string(id) + ".org"; Msg q = dns::query(id++ & 0xffff, n, a.size() == 4 ? A : AAAA); REQUIRE(ask(q).size(), "query not forwarded"); RR r; r.name = n; r.type = a.size() == 4 ? A : AAAA; r.ttl = 77; r.rdata = a; Msg m = dns::answer(q, {r}); char c = answer(q, encode(m)); obs += c; return c; }
    std::string statements(int style) { std::string b, s, f; for (auto &r : rules) { if (r.to.empty()) b += style == 1 ? "BlockIP " + r.addr + "\n" : (b.empty() ? "BlockIP " : ",") + r.addr; else if (style == 1) s += "IPSubstituting " + r.addr + " " + r.to + "\n"; else if (style == 0) s += (s.empty() ? "IPSubstituting " : ",") + r.addr + " " + r.to; else f += "  " + r.addr + (f.size() % 2 ? "\t" : "  ") + r.to + (f.size() % 3 ? "\n" : "  # comment\r\n"); } if (f.size()) { write_file("sub", f); s = "IPSubstitutingFile " + path("sub"); } return b + "\n" + s + "\n"; }
};
static const Rule POOL[] = {{"1.2.3.4", ""}, {"1.2.3.4", "4.4.4.4"}, {"1.2.3.0/24", "5.5.5.5"}, {"1.2.0.0/16", ""}, {"1.2.3.5/30", "6.6.6.6"}, {"1.2.3.199/26", ""}, {"0.0.0.0/0", "7.7.7.7"}, {"128.0.0.0/1", ""}, {"1.2.128.0/17", "8.8.8.8"}, {"1.128.0.0/9", ""}, {"9.9.9.9/32", ""}, {"1.2.3.254", "3.3.3.3"},
    {"2001:db8::1", ""}, {"2001:db8::/32", "fe80::1"}, {"2001:db8:8000::/33", ""}, {"::/0", "fe80::2"}, {"2001:db8::f0/124", "fe80::3"}, {"::ffff:1.2.3.0/120", ""}, {"2001:DB8::5", "1:2:3:4:5:6:7:8"}, {"2001:db8:0:1::/64", ""}, {"2001:db8::1:ffff/111", "::"}};
static const int NP = sizeof POOL / sizeof *POOL;
static const char *PROBE[] = {"1.2.3.4", "1.2.3.5", "1.2.3.7", "1.2.3.8", "1.2.3.191", "1.2.3.192", "1.2.3.254", "1.2.4.4", "1.2.127.255", "1.2.128.0", "1.2.255.255", "1.3.0.0", "1.127.255.255", "1.128.0.0", "1.255.1.1", "127.255.255.255", "128.0.0.0", "255.255.255.255", "0.0.0.0", "9.9.9.9", "9.9.9.8", "2.1.4.3",
    "2001:db8::1", "2001:db8::2", "2001:db8::5", "2001:db8::ef", "2001:db8::f0", "2001:db8::ff", "2001:db8::100", "2001:db8:7fff:ffff::", "2001:db8:8000::", "2001:db9::", "2001:db7:ffff::", "::", "ffff::", "::ffff:1.2.3.4", "2001:db8:0:1::9", "2001:db8:0:2::9", "2001:db8::2:0", "2001:db8::1:1"};
// every ordered set of up to 3 rules (thorough: 4 of the rules of one version)
static void rulesets(int n, int lo, int hi) { W14 w; for (int i = 0; i < n; i++) { int k = choose(hi - lo + 1, "rule"); if (k == hi - lo) break; w.rules.push_back(POOL[lo + k]); } int st = (w.rules.size() + (w.rules.size() ? w.rules[0].addr.size() : 0)) % 3; boot(w.conf() + w.statements(st)); for (auto p : PROBE) { bytes a = ip(p); if (lo == 0 && hi == 12 && a.size() == 16) continue; if (lo == 12 && a.size() == 4) continue; w.probe(a); } exec_done(w.obs); }
// every prefix length: addresses differing in one bit
static void prefixes(bool six, bool second) {
    W14 w; int L = six ? 128 : 32; bytes base = ip(six ? "2a5b:c4d3:81fe:7a5c:96e1:b83d:27f4:5ca9" : "202.91.164.213"); int n = choose(L + 1, "prefix"); bool blk = choose(2, "block"); w.rules.push_back({txt(base) + "/" + std::to_string(n), blk ? "" : six ? "::5" : "5.5.5.5"});
    if (second) { int m = six ? choose(17, "second") * 8 : choose(33, "second"); bytes b2 = base; int fl = choose(4, "variant"); if (fl == 1) b2[b2.size() - 1] ^= 1; if (fl == 2) b2[b2.size() / 2] ^= 0x10; if (fl == 3) b2[0] ^= 0x80; Rule r{txt(b2) + "/" + std::to_string(m), choose(2, "block2") ? "" : six ? "::6" : "6.6.6.6"}; if (choose(2, "order")) w.rules.push_back(r); else w.rules.insert(w.rules.begin(), r); }
    boot(w.conf() + w.statements(n % 3)); w.probe(base); for (int i = 0; i < L; i++) { bytes a = base; a[i / 8] ^= 0x80 >> (i % 8); w.probe(a); if (i + 1 < L && !second) { for (int j = i + 1; j < L; j++) a[j / 8] ^= (0x80 >> (j % 8)) * (j % 3 == 0); w.probe(a); } } exec_done(w.obs); }
// shapes of answers
static void shapes() {
    W14 w; w.tcp = choose(2, "tcp"); w.neg = choose(2, "negative"); w.rules = {{"1.2.3.4", ""}, {"10.0.0.0/8", "4.4.4.4"}, {"2001:db8::/32", "fe80::1"}, {"2001:db8::bad", ""}}; if (w.neg && choose(2, "onlyneg")) w.rules.clear();
    boot(w.conf() + w.statements(1)); int k = choose(8, "rec1"), rot = choose(3, "rot"); static const char *BAD4 = "1.2.3.4", *SUB4 = "10.1.2.3", *OK4 = "11.1.1.1"; bytes BAD6 = ip("2001:db8::bad"), SUB6 = ip("2001:db8::1"), OK6 = ip("2002::1");
    for (int j = 0; j < 8; j++) for (int l = 0; l < 8; l++) for (int qt : {1, 28, 255}) for (int rc : {0, 2, 3, 5}) for (int sec = 0; sec < 4; sec++) { if (rc && sec) continue; if (qt == 255 && sec) continue;
        std::string n = "s" + std::to_string(w.id % 9000) + ".org"; auto rec = [&](int x) -> RR { switch (x) { case 0: return rrA(n, BAD4); case 1: return rrA("al." + n, SUB4); case 2: return rrA(n, OK4, 1); case 3: return rrAAAA(n, SUB6); case 4: return rrAAAA("x.y", BAD6); case 5: return rrAAAA(n, OK6); case 6: return rrName(CNAME, n, "al." + n); } RR r = rrTXT(n, "\x01\x02\x03\x04zz"); return r; };
        Msg q = dns::query(w.id++ & 0xffff, n, qt), a = dns::answer(q, {}, rc); std::vector<RR> v = {rec(k), rec(j), rec(l)}; for (int i = 0; i < 3; i++) a.an.push_back(v[(i + rot) % 3]); if (l == k) a.an.pop_back(); if (j == 7 && l == 7) { a.an.clear(); }
        if (sec == 1) { a.ns.push_back(rrA(n, BAD4)); a.ar.push_back(rrA(n, SUB4)); } if (sec == 2) a.ar.push_back(opt()), a.ar.push_back(rrAAAA(n, SUB6)); if (sec == 3) { RR c = rrA(n, BAD4); c.klass = 3; a.an.push_back(c); c = rrA(n, "1.2.3.4"); c.type = 99; a.an.insert(a.an.begin(), c); }
        w.ask(q); bool comp = (j + l + sec) % 2; w.obs += w.answer(q, comp ? encode_c(a) : encode(a), comp); if (w.obs.size() > 400) w.obs.erase(0, 200);
    }
    exec_done(w.obs + std::to_string(w.nblock) + "/" + std::to_string(w.nsub)); }
// a discarded answer is as if it had not arrived: a later one is relayed, nothing of it is stored; all response codes
static void discard() {
    W14 w; w.tcp = choose(2, "tcp"); w.neg = choose(2, "negative"); w.cache = choose(2, "cache"); w.par = w.tcp; w.rules = {{"1.2.3.4", ""}, {"10.0.0.0/8", "4.4.4.4"}}; boot(w.conf() + w.statements(choose(3, "style")));
    int first = choose(20, "first"), second = choose(20, "second"); bool again = choose(2, "again"); std::string n = "d.org"; Msg q = dns::query(9, n, A); w.ask(q);
    auto ans = [&](int k) { if (k < 16) return dns::answer(q, {}, k); std::vector<RR> an; if (k == 16) an = {rrA(n, "1.2.3.4")}; if (k == 17) an = {rrA(n, "10.0.0.1")}; if (k == 18) an = {rrA(n, "5.6.7.8")}; if (k == 19) an = {rrName(CNAME, n, "e.org"), rrA("e.org", "1.2.3.4")}; return dns::answer(q, an); };
    char c = w.answer(q, encode(ans(first))); w.obs += c; bool open = c == 'b'; if (open) { if (w.tcp) { REQUIRE(w.uc2, "query not sent to the second server"); w.uc = w.uc2; } c = w.answer(q, encode(ans(second))); w.obs += c; open = c == 'b'; }
    if (again) { q.id = 10; bytes u = w.ask(q); bytes g; bool hit = w.got(g); REQUIRE(!hit || w.cache, "answered locally without a cache"); if (hit) { Msg m; REQUIRE(decode(g, m), "malformed cache answer"); for (auto &r : m.an) REQUIRE(r.rdata != ip("1.2.3.4") && r.rdata != ip("10.0.0.1"), "a blocked or replaced address is served from the cache: %s", str(m).c_str()); w.obs += "h"; REQUIRE(!open, "the cache knows a discarded answer: %s", str(m).c_str()); } else { REQUIRE(u.size(), "query not forwarded"); w.obs += "f"; w.obs += w.answer(q, encode(ans(18))); } }
    exec_done(w.obs); }
// texts which are no rules have no effect and don't disturb others; records with impossible lengths are left alone
static void odd() {
    static const char *BAD[] = {"1.2.3.0/x 9.9.9.1", "1.2.3 9.9.9.1", "1.2.3.0/-1 9.9.9.1", "300.2.3.4 9.9.9.1", "1.2.3.4 2001::1", "2001:db8::1 9.9.9.1", "1.2.3.4.5 9.9.9.1", "abc 9.9.9.1", "1.2.3.4 300.1.1.1", "1.2.3.4 x", "2001:db8:::1 fe80::9", "/8 9.9.9.1", "1.2.3.0/24x 9.9.9.1", "2001:db8::g fe80::9", "1.2.3.4 1.2.3", "0/0 9.9.9.1", "12345::1 fe80::9", "2001:db8::1 fe80:9", "1.2.3.0/ 9.9.9.999"};
    const int NB = sizeof BAD / sizeof *BAD; W14 w; int k = choose(NB, "bad"), where = choose(3, "where"); bool file = choose(2, "file"), blk = !file && choose(2, "block"); std::vector<Rule> good = {{"1.2.4.0/24", "5.5.5.5"}, {"2001:db8:1::/48", "fe80::1"}}; std::string s, bad = BAD[k]; w.rules = good;
    for (int i = 0; i < 3; i++) { if (i == where && !blk) s += (file ? "" : "IPSubstituting ") + bad + "\n"; if (i < 2) s += (file ? "" : "IPSubstituting ") + good[i].addr + " " + good[i].to + "\n"; }
    if (file) { write_file("sub", s); s = "IPSubstitutingFile " + path("sub") + "\n"; } if (blk) { std::string t = bad.substr(0, bad.find(' ')); if (t.find_first_not_of("0123456789") != t.npos && !(k == 4 || k == 5 || k == 8 || k == 9 || k == 14 || k == 17 || k == 18)) s = "BlockIP " + t + "\n" + s; }
    boot(w.conf() + s); for (auto p : PROBE) w.probe(ip(p)); for (auto p : {"1.2.4.1", "2001:db8:1::5"}) w.probe(ip(p));
    w.rules.clear(); exec_done(w.obs); }
static void lengths() {
    W14 w; w.rules = {{"0.0.0.0/0", "5.5.5.5"}, {"::/0", "fe80::1"}}; if (choose(2, "block")) for (auto &r : w.rules) r.to = ""; w.tcp = choose(2, "tcp"); boot(w.conf() + w.statements(1)); int len = choose(20, "length"); bool six = choose(2, "six"), last = choose(2, "last"); bool fits = len == (six ? 16 : 4);
    Msg q = dns::query(5, "l.org", six ? AAAA : A), a = dns::answer(q, {}); RR r; r.name = "l.org"; r.type = six ? AAAA : A; r.ttl = 9; r.rdata = bytes(len, 'a'); a.an.push_back(r); if (!last) a.an.push_back(rrTXT("l.org", "tail")); w.ask(q); bytes b = encode(a); w.reply(b); bytes g; bool rel = w.got(g); count_eval(1);
    if (!fits && rel) REQUIRE(g == b, "an answer with a record of %d bytes was changed: %s -> %s", len, hex(b).c_str(), hex(g).c_str()); if (fits) REQUIRE(rel == !w.rules[0].to.empty() && (!rel || g != b), "rule not applied"); exec_done(rel ? fits ? "sub" : "same" : "none"); }
// files read again: the new content applies, and only it
static void reload() {
    W14 w; w.cache = false; static const std::vector<Rule> SETS[] = {{}, {{"1.2.3.4", "4.4.4.4"}}, {{"1.2.3.0/24", "5.5.5.5"}, {"2001:db8::1", "fe80::1"}}, {{"1.2.3.4", "6.6.6.6"}, {"1.2.0.0/16", "7.7.7.7"}}}; bool on = choose(2, "reload"); int blk = choose(2, "block"); write_file("src.txt", "9.8.7.6 h.org\n");
    auto put = [&](int k) { std::string f; for (auto &r : SETS[k]) f += r.addr + " " + r.to + "\n"; write_file("sub", f); }; auto use = [&](int k) { w.rules = SETS[k]; if (blk) w.rules.push_back({"1.2.3.5", ""}); };
    int cur = choose(4, "content"); put(cur); use(cur); boot(w.conf() + "IPSubstitutingFile " + path("sub") + "\n" + (blk ? "BlockIP 1.2.3.5\n" : "") + "Hosts file://" + path("src.txt") + "\nHostsDownloadPath " + path("hosts.txt") + "\nModulesUpdateInterval 100\nReloadIPSubstituting " + (on ? "true\n" : "false\n")); advance(5000);
    for (int i = 0; i < 3; i++) { for (auto p : {"1.2.3.4", "1.2.3.5", "1.2.3.6", "1.2.4.1", "2001:db8::1", "5.5.5.5"}) w.probe(ip(p)); int k = choose(4, "content"); put(k); advance(101000); if (on) { use(k); } }
    for (auto p : {"1.2.3.4", "1.2.3.5", "1.2.3.6", "1.2.4.1", "2001:db8::1", "5.5.5.5"}) w.probe(ip(p)); exec_done(w.obs); }
void check_main() {
    explore("rules", [] { rulesets(3, 0, NP); }); explore("rules4", [] { rulesets(g_thorough ? 5 : 4, 0, 12); }); explore("rules6", [] { rulesets(g_thorough ? 6 : 4, 12, NP); });
    explore("prefix4", [] { prefixes(false, false); }); explore("prefix6", [] { prefixes(true, false); }); explore("nested4", [] { prefixes(false, true); }); if (g_thorough) explore("nested6", [] { prefixes(true, true); });
    explore("shapes", shapes); explore("discard", discard); explore("odd", odd); explore("lengths", lengths); explore("reload", reload);
}
