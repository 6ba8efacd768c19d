// P17: composed messages. (1) the real message generator over every sequence of calls and every buffer size, decoded by an independent decoder, also after compression;
// (2) replies and queries composed by the program for names of every length from every source.
#include "scn.h"
#define HAVE_CONFIG_H 1
extern "C" {
#include "dnsgenerator.h"
#include "dnsparser.h"
}
using namespace dns;
typedef std::string S;
static bytes labels(const S &n) { return ename(n); }
static S longname(int len, int style, const S &tail) // presentation length len, ends in tail
{
    S n; int left = len - (int)tail.size(); if (left < 0) return tail.substr(tail.size() - len); static const int W[] = {63, 1, 10}; int w = W[style]; S head; char c = 'a';
    while (left > 0) { int k = std::min(w, left - 1); if (k < 1) { head[head.size() > 1 ? 0 : 0] = 'z'; break; } if (left - 1 - k == 1) { if (k < 63) k++; else k--; } head += S(k, c) + "."; left -= k + 1; c = c == 'y' ? 'a' : c + 1; }
    return head + tail;
}
// ---- (1) generator
struct Call { int k, n, m; };
static const char *NMS[] = {"", "a", "a.org", "B.a.org", "x-1.b.a.org", "A.ORG", nullptr, nullptr};
static S L1, L2; static std::vector<bytes> SRC; // messages to copy from
static void setup() { L1 = longname(253, 0, "a.org"); L2 = longname(253, 1, "org"); NMS[6] = L1.c_str(); NMS[7] = L2.c_str(); SRC.clear();
    for (int v = 0; v < 3; v++) { Msg q = query(5, v == 2 ? L1 : "c.a.org", A); Msg a = dns::answer(q, {rrName(5, q.qd[0].name, "A.org", 300), rrA("a.ORG", "1.2.3.4", 7), rrAAAA(q.qd[0].name, bytes(16, '\x11'), 0xffffffffu), rrName(5, "a.org", L2, 0)}); SRC.push_back(v == 0 ? encode(a) : encode_c(a)); } }
static const char *IP4[] = {"1.2.3.4", "255.0.128.9"}; static const char *IP6[] = {"1::2", "fe80:1:2:3:4:5:6:7"}; static const bytes IP6B[] = {bytes("\0\1\0\0\0\0\0\0\0\0\0\0\0\0\0\2", 16), bytes("\xfe\x80\0\1\0\2\0\3\0\4\0\5\0\6\0\7", 16)};
// the record a call stands for; section it belongs to: 0 question, 1 any record, 3 additional only
static RR made(const Call &c, int *sec)
{
    RR r; r.name = NMS[c.n]; r.klass = 1; *sec = 1; static const uint32_t TT[] = {0, 60, 0x7fffffff}; r.ttl = TT[(c.n + c.m) % 3];
    switch (c.k) {
    case 0: *sec = 0; r.type = c.m ? 255 : A; break; case 1: r.type = 5; r.rdata = labels(NMS[c.m]); break; case 2: r.type = 15; p16(r.rdata, c.m * 257 + c.n); r.rdata += labels(NMS[c.m]); break;
    case 3: r.type = A; r.rdata = ip4(IP4[c.m & 1]); break; case 4: r.type = AAAA; r.rdata = IP6B[c.m & 1]; break; case 5: *sec = 3; r = opt(c.m ? 4096 : 1280); break;
    case 6: { static const int LN[] = {1, 2, 255, 256, 600, 16, 4, 12}; r.type = 16; r.rdata = bytes(LN[c.m], (char)(0xc0 + c.m)); break; } case 7: r.type = 65; r.rdata = bytes(3 + c.m, '\0'); break;
    case 9: case 10: case 11: case 12: { Msg s; REQUIRE(decode(SRC[c.m], s), "source"); r = s.an[c.k - 9]; break; }
    case 13: r.type = c.m & 1 ? 2 : 12; r.rdata = labels(NMS[c.m]); break; }
    return r;
}
static int apply(DnsGenerator &g, const Call &c)
{
    int sec; RR r = made(c, &sec);
    switch (c.k) {
    case 0: return g.Question(&g, NMS[c.n], (DNSRecordType)r.type, DNS_CLASS_IN); case 1: return g.CName(&g, NMS[c.n], NMS[c.m], r.ttl); case 2: return g.MX(&g, NMS[c.n], c.m * 257 + c.n, NMS[c.m], r.ttl); case 3: return g.A(&g, NMS[c.n], IP4[c.m & 1], r.ttl); case 4: return g.AAAA(&g, NMS[c.n], IP6[c.m & 1], r.ttl);
    case 5: return g.EDns(&g, r.klass); case 6: case 7: return g.RawData(&g, NMS[c.n], (DNSRecordType)r.type, DNS_CLASS_IN, r.rdata.data(), r.rdata.size(), r.ttl); case 13: return g.Generate(&g, NMS[c.n], (DNSRecordType)r.type, DNS_CLASS_IN, NMS[c.m], strlen(NMS[c.m]), r.ttl);
    default: { DnsSimpleParser p; DnsSimpleParserIterator i; bytes s = SRC[c.m]; DnsSimpleParser_Init(&p, (char *)s.data(), s.size(), FALSE); DnsSimpleParserIterator_Init(&i, &p); i.GotoAnswers(&i); for (int k = 0; k <= c.k - 9; k++) i.Next(&i); return c.k == 9 || c.k == 12 ? g.CopyCName(&g, &i) : c.k == 10 ? g.CopyA(&g, &i) : g.CopyAAAA(&g, &i); }
    }
}
static bool fits_sec(int sec, int at) { return sec == 0 ? at == 0 : sec == 3 ? at == 3 : at >= 1 && at <= 3; }
static bool same(const Msg &a, const Msg &b, S *why) {
    if (a.qd.size() != b.qd.size() || a.an.size() != b.an.size() || a.ns.size() != b.ns.size() || a.ar.size() != b.ar.size()) { *why = "record counts"; return false; }
    for (size_t i = 0; i < a.qd.size(); i++) if (lower(a.qd[i].name) != lower(b.qd[i].name) || a.qd[i].type != b.qd[i].type || a.qd[i].klass != b.qd[i].klass) { *why = "question"; return false; }
    auto eq = [](const RR &x, const RR &y) { return lower(x.name) == lower(y.name) && x.type == y.type && x.klass == y.klass && x.ttl == y.ttl && lower(x.rdata) == lower(y.rdata); };
    for (int s = 0; s < 3; s++) { auto &u = s == 0 ? a.an : s == 1 ? a.ns : a.ar; auto &v = s == 0 ? b.an : s == 1 ? b.ns : b.ar; for (size_t i = 0; i < u.size(); i++) if (!eq(u[i], v[i])) { *why = "record " + str(v[i]); return false; } }
    return true; }
// one sequence of calls with one buffer size; purpose changes are k == 8. Returns the length needed up to the end
static int sequence(const std::vector<Call> &cs, int size, const bytes *from, bool strip, bool compress)
{
    // a buffer of exactly this size: the sanitizer sees anything behind it
    char *b = (char *)malloc(size > 0 ? size : 1); memset(b, 0xAA, size > 0 ? size : 1); DnsGenerator g; Msg want; int at = 0, need = 12;
    if (from) { decode(*from, want); if (strip) { want.ns.clear(); want.ar.clear(); } at = want.ar.size() ? 3 : want.ns.size() ? 2 : want.an.size() ? 1 : 0; need = strip ? -1 : (int)from->size(); }
    int r0 = DnsGenerator_Init(&g, b, size, from ? from->data() : nullptr, from ? from->size() : 0, strip); if (from && strip && r0 == 0) need = g.Length(&g);
    if (r0 != 0) { REQUIRE((from ? (int)from->size() : 12) > size, "the generator refuses a buffer of %d bytes", size); free(b); return 0; }
    REQUIRE(need <= size, "a message of %d bytes accepted into a buffer of %d", need, size); bool failed = false; std::vector<std::pair<Call, int>> ok;
    for (auto &c : cs) {
        if (c.k == 8) { int p = g.NextPurpose(&g); if (at <= 3) at++; REQUIRE(p == (at == 1 ? DNS_RECORD_PURPOSE_ANSWER : at == 2 ? DNS_RECORD_PURPOSE_NAME_SERVER : at == 3 ? DNS_RECORD_PURPOSE_ADDITIONAL : DNS_RECORD_PURPOSE_UNKNOWN), "wrong section after NextPurpose"); continue; }
        int sec; RR r = made(c, &sec); bool fit = fits_sec(sec, at); int len = labels(r.name).size() + (sec == 0 ? 4 : 10 + (int)r.rdata.size()); int ret = apply(g, c); bool should = fit && need + len <= size; count_eval(1);
        REQUIRE((ret == 0) == should, "call %d (names %s, %s) in section %d of a buffer of %d bytes with %d used returns %d, needing %d bytes", c.k, NMS[c.n], NMS[c.m], at, size, need, ret, len);
        if (ret) { if (fit) { failed = true; break; } continue; } need += len; if (sec == 0) want.qd.push_back({r.name, r.type, 1}); else (at == 1 ? want.an : at == 2 ? want.ns : want.ar).push_back(r); }
    if (!failed) {
        REQUIRE(g.Length(&g) == need, "length %d instead of %d", g.Length(&g), need); Msg got; S why; REQUIRE(decode(bytes(b, need), got, &why), "the composed message is malformed (%s): %s", why.c_str(), hex(bytes(b, need)).c_str()); REQUIRE(same(want, got, &why), "the composed message differs (%s)\n want %s\n got  %s", why.c_str(), str(want).c_str(), str(got).c_str());
        if (compress && want.qd.size()) { int n = DNSCompress(b, need); Msg z; REQUIRE(n > 0 && n <= need, "compression of a well-formed message returns %d", n); REQUIRE(decode(bytes(b, n), z, &why), "the compressed message is malformed (%s): %s from %s", why.c_str(), hex(bytes(b, n)).c_str(), str(want).c_str()); REQUIRE(same(want, z, &why), "compression changed the message (%s)\n want %s\n got  %s", why.c_str(), str(want).c_str(), str(z).c_str()); count_eval(1); } }
    free(b); return need;
}
static std::vector<Call> alphabet(bool big) { std::vector<Call> a; for (int k = 0; k <= 13; k++) { if (k == 8 || k == 5) { a.push_back({k, 0, 0}); continue; } if (k >= 9 && k <= 12) { for (int m = 0; m < 3; m++) a.push_back({k, 0, m}); continue; }
        if (big) { for (int n = 0; n < 8; n++) for (int m = 0; m < 8; m++) a.push_back({k, n, m}); } else { static const int P[][2] = {{2, 3}, {5, 2}, {6, 7}, {0, 0}}; for (auto &p : P) a.push_back({k, p[0], p[1]}); } } return a; }
static void sizes(const std::vector<Call> &cs, const bytes *from, bool strip) { int n = sequence(cs, 8192, from, strip, true); if (n <= 0) return; for (int s : {n - 1, n, n + 1}) sequence(cs, s, from, strip, s == n); }
// every sequence of calls after question, with section changes
static void generator(int depth) { setup(); std::vector<Call> a = alphabet(false); int f = choose((int)a.size(), "first call"), q = choose(3, "question"); std::vector<Call> cs; if (q) cs.push_back({0, q == 1 ? 2 : 6, 0}), cs.push_back({8, 0, 0}); cs.push_back(a[f]); size_t base = cs.size(); uint64_t n = 0;
    std::function<void(int)> rec = [&](int d) { sizes(cs, nullptr, false); n++; if (d == 0) return; for (auto &c : a) { cs.push_back(c); rec(d - 1); cs.pop_back(); } }; rec(depth - 1); count_states(n); exec_done(std::to_string(f) + "/" + std::to_string(q)); (void)base; }
// pairs of calls with all names; every buffer size
static void everysize() { setup(); std::vector<Call> a = alphabet(true); int f = choose((int)a.size(), "call"); std::vector<Call> cs = {{0, a[f].n, 0}, {8, 0, 0}, {1, a[f].n, a[f].m}, a[f], {3, a[f].m, 0}, {8, 0, 0}, {8, 0, 0}, {5, 0, 0}}; if (a[f].k == 0 || a[f].k == 5 || a[f].k == 8) cs.erase(cs.begin() + 3); int n = sequence(cs, 8192, nullptr, false, true); for (int s = 0; s <= n + 2; s++) sequence(cs, s, nullptr, false, s == n); exec_done(std::to_string(n)); }
// continuing a given message, whole or without its authority and additional records
static void append() { setup(); std::vector<Call> a = alphabet(false); int f = choose((int)a.size(), "call"), src = choose(6, "message"), strip = choose(2, "strip"); Msg m = query(7, "a.org", A, src & 1); if (src >= 2) m = dns::answer(m, {rrName(5, "a.org", "B.a.org", 5), rrA("b.a.org", "1.1.1.1", 9)}); if (src >= 4) { m.ns.push_back(rrName(2, "org", "ns.org", 5)); m.ar.push_back(rrA("ns.org", "2.2.2.2", 9)); } if ((src & 1) && m.ar.empty()) m.ar.push_back(opt()); bytes fr = src == 5 ? encode_c(m) : encode(m);
    for (auto &c : a) { std::vector<Call> cs = {a[f], c}; sizes(cs, &fr, strip); cs.insert(cs.begin(), {8, 0, 0}); sizes(cs, &fr, strip); cs.insert(cs.begin() + 2, {8, 0, 0}); sizes(cs, &fr, strip); } exec_done(std::to_string(f)); }
// ---- (2) the program
static const char *ME = "9.9.9.1:1111", *SRV = "127.0.0.1:53";
static bytes ask(const bytes &q, std::vector<Sent> *up, Conn *c = nullptr) { size_t o = out.size(); if (c) { bytes f; p16(f, q.size()); tcp_push(c, f + q); } else udp_in(ME, SRV, q); run(); bytes r; int n = 0; for (; o < out.size(); o++) { if (out[o].dst == ME) { r = out[o].data; n++; } else if (up) up->push_back(out[o]); } REQUIRE(n <= 1, "more than one reply"); if (c) { bytes t = tcp_take(c); if (!t.empty()) { REQUIRE(t.size() >= 2 && (int)t.size() == 2 + g16(t, 0), "TCP reply of %zu bytes is not one message", t.size()); r = t.substr(2); } } return r; }
static Msg good(const bytes &r, const Msg &q, const char *what) { Msg m; S why; REQUIRE(decode(r, m, &why), "%s: malformed reply (%s) %s", what, why.c_str(), hex(r).c_str()); count_eval(1); REQUIRE(m.id == q.id && m.qr() && m.qd.size() == 1 && lower(m.qd[0].name) == lower(q.qd[0].name) && m.qd[0].type == q.qd[0].type && m.qd[0].klass == 1, "%s: the reply is to another question: %s", what, str(m).c_str()); return m; }
static S recs(const Msg &m, bool ttl) { S s; for (auto &r : m.an) { RR x = r; x.name = lower(x.name); x.rdata = x.type == CNAME ? lower(x.rdata) : x.rdata; if (!ttl) x.ttl = 0; s += str(x) + " "; } s += "|"; for (auto &r : m.ns) s += str(r) + " "; s += "|"; for (auto &r : m.ar) s += r.type == OPT ? "OPT " : str(r) + " "; return s; }
static S W(const std::vector<RR> &an, bool e, bool ttl = false) { Msg m; m.an = an; if (e) m.ar.push_back(opt()); return recs(m, ttl); }
// names of every length from hosts, refusals, cache, with EDNS added
static void lengths()
{
    on_connect = [](const Addr &, int64_t *d) { *d = 0; return (int)ACCEPT; }; int style = choose(3, "labels"), tcp = choose(2, "tcp"), from = choose(8, "lengths"); private_files = true;
    boot("LogOn false\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\nEnableTCPtoUDP true\nUseCache true\nMemoryCache true\nCacheSize 3000000\nAppendHosts 5.5.5.5 *h4\nAppendHosts 1:2:3:4:5:6:7:8 *h6\nDisabledDomain *rr\nAP true\n"); run(); Conn *c = nullptr; if (tcp) { c = tcp_connect("9.9.9.2:2222", SRV); run(); }
    int id = 1; const bytes v6("\0\1\0\2\0\3\0\4\0\5\0\6\0\7\0\x8", 16); bytes map4(10, '\0'); map4 += "\xff\xff"; map4 += ip4("5.5.5.5");
    for (int len = 2 + from; len <= 253; len += 8) for (int e = 0; e < 2; e++) { S n; Msg q, m; bytes r; std::vector<Sent> up; auto tail = [&](const char *t) { return len >= (int)strlen(t) + 2 ? S(".") + t : S(t); };
        auto nm = [&](const char *t) { S x = longname(len, style, len >= (int)strlen(t) + 2 ? t : t); return x; };
        q = query(id++, nm("h4"), A, e); r = ask(encode(q), &up, c); REQUIRE(up.empty() && !r.empty(), "hosts name of %d bytes not answered", len); m = good(r, q, "hosts A"); REQUIRE(recs(m, false) == W({rrA(q.qd[0].name, "5.5.5.5", 0)}, e) || recs(m, false) == W({rrA(lower(q.qd[0].name), "5.5.5.5", 0)}, e), "hosts A reply for %d bytes: %s", len, str(m).c_str());
        q = query(id++, nm("h4"), AAAA, e); r = ask(encode(q), &up, c); REQUIRE(up.empty() && !r.empty(), "hosts name of %d bytes not answered", len); m = good(r, q, "hosts mapped"); REQUIRE(recs(m, false) == W({rrAAAA(lower(q.qd[0].name), map4, 0)}, e), "mapped reply for %d bytes: %s", len, str(m).c_str());
        q = query(id++, nm("h6"), AAAA, e); r = ask(encode(q), &up, c); REQUIRE(up.empty() && !r.empty(), "hosts name of %d bytes not answered", len); m = good(r, q, "hosts AAAA"); REQUIRE(recs(m, false) == W({rrAAAA(lower(q.qd[0].name), v6, 0)}, e), "hosts AAAA reply for %d bytes: %s", len, str(m).c_str());
        q = query(id++, nm("rr"), A, e); r = ask(encode(q), &up, c); REQUIRE(up.empty() && !r.empty(), "refused name of %d bytes not answered", len); m = good(r, q, "refusal"); REQUIRE(m.an.empty() && m.ns.empty() && m.rcode() == 0, "refusal for %d bytes: %s", len, str(m).c_str());
        // forwarded: OPT added, stored, then answered from the cache
        q = query(id++, nm(e ? "ce" : "cn"), A, e); r = ask(encode(q), &up, c); REQUIRE(up.size() == 1 && r.empty(), "name of %d bytes not forwarded", len); Msg f; S why; REQUIRE(decode(up[0].data, f, &why), "query of %d bytes forwarded malformed (%s): %s", len, why.c_str(), hex(up[0].data).c_str()); count_eval(1); REQUIRE(f.id == q.id && f.qd.size() == 1 && f.qd[0].name == q.qd[0].name && f.qd[0].type == A && f.an.empty() && f.ns.empty() && f.ar.size() == 1 && f.ar[0].type == OPT, "query forwarded as %s", str(f).c_str());
        S t = longname(253 - len + 3 > 253 ? 253 : 253 - len + 3, (style + 1) % 3, "ct"); Msg a = dns::answer(f, {rrName(5, q.qd[0].name, t, 600), rrA(t, "7.7.7.1", 600), rrA(t, "7.7.7.2", 600)}); a.ar.push_back(opt()); bytes w = len & 1 ? encode_c(a) : encode(a); size_t o = out.size(); udp_reply(up[0], w); run(); bytes got; if (c) { got = tcp_take(c); if (got.size() > 1) got.erase(0, 2); } else for (; o < out.size(); o++) if (out[o].dst == ME) got = out[o].data; REQUIRE(got == w, "answer not relayed unchanged");
        for (int k = 0; k < 2; k++) { Msg q2 = query(id++, q.qd[0].name, k ? 5 : 1, e); up.clear(); r = ask(encode(q2), &up, c); REQUIRE(up.empty() && !r.empty(), "name of %d bytes is not answered from the cache", len); m = good(r, q2, "cache"); std::vector<RR> an = {rrName(5, lower(q.qd[0].name), t, 0)}; if (!k) { an.push_back(rrA(t, "7.7.7.1", 0)); an.push_back(rrA(t, "7.7.7.2", 0)); } S x = recs(m, false); if (!k) { std::vector<RR> b = {an[0], an[2], an[1]}; REQUIRE(x == W(an, e) || x == W(b, e), "cache reply for %d bytes: %s", len, str(m).c_str()); } else REQUIRE(x == W(an, e), "cache reply for %d bytes: %s", len, str(m).c_str()); } up.clear(); }
    exec_done(std::to_string(style) + std::to_string(from));
}
// alias chains with answers of growing size: complete or not at all
static void aliases()
{
    int style = choose(3, "labels"), comp = choose(2, "compressed"), v6 = choose(2, "type"), ln = choose(6, "lengths"), e = choose(2, "edns"); static const int LA[] = {5, 64, 127, 60, 100, 20}, LT[] = {5, 64, 127, 100, 40, 120}; S al = longname(LA[ln], style, "al"), tg = longname(LT[ln], (style + 1) % 3, "tg"); private_files = true;
    boot("LogOn false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\nUseCache false\nAppendHosts " + tg + " " + al + "\n"); run(); int id = 1, answered = 0, not_ = 0;
    for (int extra = 0; extra < 3; extra++) for (int n = 0; n <= 250; n += n < 12 || n > 225 ? 1 : g_thorough ? 3 : 11) {
        Msg q = query(id++, al, v6 ? AAAA : A, e); size_t o = out.size(); udp_in(ME, SRV, encode(q)); run(); std::vector<Sent> up; for (size_t i = o; i < out.size(); i++) if (out[i].dst == "1.1.1.1:53") up.push_back(out[i]); REQUIRE(up.size() == 1, "alias target not queried"); Msg f; REQUIRE(decode(up[0].data, f) && lower(f.qd[0].name) == lower(tg) && f.qd[0].type == q.qd[0].type, "alias target queried as %s", show(up[0].data).c_str());
        std::vector<RR> an; S owner = tg; if (extra == 1) { an.push_back(rrName(5, tg, "b." + S("short.org"), 30)); owner = "b.short.org"; } if (extra == 2) { S z = longname(253, 0, "zz"); an.push_back(rrName(5, tg, z, 30)); an.push_back(rrName(5, z, "y.org", 30)); owner = "y.org"; }
        for (int i = 0; i < n; i++) { bytes d(v6 ? 16 : 4, (char)i); d[0] = 1; an.push_back(v6 ? rrAAAA(owner, d, i) : rrA(owner, ("1.2.3." + std::to_string(i)).c_str(), i)); } if (n % 5 == 4) an.push_back(rrTXT(owner, "ignored"));
        Msg a = dns::answer(f, an); bytes w = comp ? encode_c(a) : encode(a); if (w.size() > 3700) { udp_reply(up[0], encode(dns::answer(f, {}))); run(); break; } o = out.size(); udp_reply(up[0], w); run(); bytes r; for (; o < out.size(); o++) if (out[o].dst == ME) r = out[o].data;
        std::vector<RR> ex = {rrName(5, al, tg, 60)}; for (auto &x : an) if (x.type != 16) ex.push_back(x); Msg ms; ms.qd.push_back({al, 1, 1}); ms.an = ex; if (e) ms.ar.push_back(opt()); size_t plain = encode(ms).size();
        if (r.empty()) { not_++; REQUIRE(plain > 3700, "an alias reply of %zu bytes is not sent", plain); continue; } answered++; Msg m = good(r, q, "alias"); REQUIRE(recs(m, true) == W(ex, e, true), "alias reply\n got  %s\n want %s", recs(m, true).c_str(), W(ex, e, true).c_str()); }
    exec_done(std::to_string(answered) + "/" + std::to_string(not_));
}
// cached record sets of growing size: complete from the cache or forwarded
static void cached()
{
    int style = choose(3, "labels"), comp = choose(2, "compressed"), ty = choose(4, "type"), ln = choose(4, "length"), e = choose(2, "edns"), tail = choose(8, "length of the last"); static const int LN[] = {4, 60, 130, 253}; static const int TY[] = {A, AAAA, 16, 15}; private_files = true;
    boot("LogOn false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\nUseCache true\nMemoryCache true\nCacheSize 9000000\n"); run(); int id = 1, hit = 0, miss = 0;
    for (int n = 1; n <= 250; n += n < 16 ? 1 : 7) { char b[16]; snprintf(b, sizeof b, "n%d", n); S nm = longname(std::max(LN[ln], (int)strlen(b)), style, b); std::vector<RR> an; for (int i = 0; i < n; i++) { RR r; r.name = nm; r.type = TY[ty]; r.ttl = 900; if (ty == 0) r.rdata = bytes("\1\2\3", 3) + (char)i; else if (ty == 1) r.rdata = bytes(15, '\1') + (char)i; else if (ty == 2) r.rdata = bytes(1, 20) + bytes(19, 'a') + (char)i; else { p16(r.rdata, i); r.rdata += ename(i & 1 ? "m.org" : "mail.x.org"); } an.push_back(r); } if (ty == 2 && tail) { an[0].rdata = bytes(1, (char)(tail * 31)) + bytes(tail * 31, 'z'); }
        Msg q = query(id++, nm, TY[ty], e); std::vector<Sent> up; bytes r = ask(encode(q), &up); REQUIRE(up.size() == 1 && r.empty(), "not forwarded"); Msg f; decode(up[0].data, f); Msg a = dns::answer(f, an); bytes w = comp ? encode_c(a) : encode(a); if (w.size() > 3700) break; udp_reply(up[0], w); run();
        Msg q2 = query(id++, nm, TY[ty], e); up.clear(); r = ask(encode(q2), &up); if (!up.empty()) { REQUIRE(r.empty() && up[0].data == encode(q2), "query changed after a cache attempt"); miss++; udp_reply(up[0], encode(dns::answer(q2, {}))); run(); continue; } hit++; REQUIRE(!r.empty(), "no reply"); Msg m = good(r, q2, "cache"); std::multiset<S> x, y; for (auto &t : m.an) { RR u = t; u.ttl = 0; u.name = lower(u.name); x.insert(str(u)); } for (auto &t : an) { RR u = t; u.ttl = 0; u.name = lower(u.name); y.insert(str(u)); } REQUIRE(x == y, "the cache answers with %zu of %zu records: %s", x.size(), y.size(), str(m).substr(0, 500).c_str()); REQUIRE(m.ns.empty() && m.ar.size() == (size_t)e, "cache reply: %s", str(m).substr(0, 300).c_str()); }
    exec_done(std::to_string(hit) + "/" + std::to_string(miss));
}
// names from the configuration that are no valid names must not end up in messages
static void badnames()
{
    static const char *F[] = {"a..b", "a.org.", ".a.org", ".", "..", "a.org..", "L64.org", "L63.org", "T253", "T254", "T127", "T128", "T129", "x.L64", "-", "a b"}; int f = choose(16, "target"), v6 = choose(2, "type"), file = choose(2, "hosts file"); S t = F[f]; bool valid = f == 7 || f == 10 || f == 14; if (t[0] == 'T') t = longname(atoi(t.c_str() + 1), 2, "tt"); else { size_t p; if ((p = t.find("L64")) != S::npos) t.replace(p, 3, S(64, 'q')); if ((p = t.find("L63")) != S::npos) t.replace(p, 3, S(63, 'q')); } private_files = true;
    write_file(".dnsforwarder/h.txt", t + " al.org\n5.5.5.5 ok.org\n"); boot("LogOn false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\nUseCache false\n" + (file ? "Hosts file://" + path(".dnsforwarder/h.txt") + "\nHostsDownloadPath " + path(".dnsforwarder/d.txt") + "\n" : "AppendHosts " + t + " al.org\nAppendHosts 5.5.5.5 ok.org\n")); run(); advance(1000);
    size_t o = out.size(); Msg q = query(3, "al.org", v6 ? AAAA : A); udp_in(ME, SRV, encode(q)); run(); std::vector<Sent> up; S obs; bytes own = encode(q);
    for (size_t i = o; i < out.size(); i++) { Msg m; S why; REQUIRE(decode(out[i].data, m, &why), "alias to \"%s\": malformed message to %s (%s): %s", t.c_str(), out[i].dst.c_str(), why.c_str(), hex(out[i].data).c_str()); if (out[i].dst == "1.1.1.1:53") { up.push_back(out[i]); S n = lower(m.qd[0].name), want = lower(t); while (!want.empty() && want.back() == '.') want.pop_back(); while (!want.empty() && want[0] == '.') want.erase(0, 1); if (f == 15) want = "a"; REQUIRE(n == want || n == "al.org", "alias to \"%s\" queried as %s", t.c_str(), n.c_str()); obs += "q"; } else obs += "r"; }
    REQUIRE(!valid || (up.size() == 1 && out[out.size() - 1].data != own), "valid alias target \"%s\" not queried", t.c_str());
    for (auto &u : up) { Msg m; decode(u.data, m); o = out.size(); udp_reply(u, encode(dns::answer(m, {rrA(m.qd[0].name, "7.7.7.7", 5)}))); run(); for (; o < out.size(); o++) { Msg r; S why; REQUIRE(decode(out[o].data, r, &why), "alias to \"%s\": malformed reply (%s): %s", t.c_str(), why.c_str(), hex(out[o].data).c_str()); obs += "a"; } }
    o = out.size(); Msg k = query(4, "ok.org", A); udp_in(ME, SRV, encode(k)); run(); REQUIRE(out.size() == o + 1 && out.back().dst == ME, "another hosts entry is not answered"); good(out.back().data, k, "other entry"); exec_done(std::to_string(f) + obs);
}
void check_main()
{
    explore("generator", [] { generator(3); }); explore("every-size", everysize); explore("append", append); explore("lengths", lengths); explore("aliases", aliases); explore("cached", cached); explore("bad-names", badnames);
}
