// P16: hostile packets. Every truncation, every hostile value at every offset and a family of
// adversarial constructions of queries and answers are sent through every processing path of
// the real program. Oracles: memory safety / hang monitor, outcome independent of the bytes
// that happen to lie behind the message, unparseable queries stay without effect, and a
// well-formed probe query is still served afterwards.
#include "scn.h"
using namespace dns;
static const unsigned char VALS[] = {0, 1, 2, 4, 0x0c, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xfe, 0xff};
static bytes rep(const std::string &s, int n) { bytes b; for (int i = 0; i < n; i++) b += s; return b; }
static const std::vector<bytes> FILLS = {bytes(1, '\0'), bytes(1, '\x01') + bytes(1, '\xff'), bytes("\xc0\x0c\x00\x01\x00\x01\x00\x00\x0e\x10\x00\x04\x01\x02\x03\x04", 16)};
static std::string conf(bool ap, bool log, bool cache) { return std::string(log ? "LogOn true\nLogFileFolder " + path("log") + "\n" : "LogOn false\n") + "UseCache " + (cache ? "true" : "false") + "\nMemoryCache true\nCacheParallel false\nOverrideTTL -1\nCacheSize 1048576\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\nEnableTCPtoUDP true\nEnableUDPtoTCP true\nUDPGroup 1.1.1.1 * off\nTCPGroup 3.3.3.3 tcp.net off no\n"
    "AppendHosts 1.2.3.4 h.com\nAppendHosts ::5 h6.com\nAppendHosts up.org al.com\nAppendHosts 1.2.3.5 *.w.com\nDisabledType 33\nDisabledDomain dis.com\nBlockIP 66.66.66.66\nIPSubstituting 77.77.77.77 78.78.78.78\n" + (ap ? "AP true\n" : ""); }

struct H16 : World {
    Conn *c = nullptr; int n = 0; bool ap;
    H16(bool ap_, bool cache = true, bool log = true) : ap(ap_) { upstreams = {"1.1.1.1:53"}; on_connect = [](const Addr &, int64_t *d) { *d = 0; return (int)ACCEPT; }; if (log) write_file("log/x", ""); boot(conf(ap, log, cache)); }
    // feed one client message, return everything the program emitted
    std::vector<std::string> feed(const bytes &m, bool tcp) {
        size_t o = out.size(), nc = conns.size(); std::vector<std::string> r; Conn *cl = nullptr;
        if (tcp) { cl = tcp_connect("9.9.9.3:3333", "127.0.0.1:53"); bytes f; p16(f, m.size()); tcp_push(cl, f + m); } else udp_in("9.9.9.1:1111", "127.0.0.1:53", m);
        run();
        for (; o < out.size(); o++) r.push_back((is_up(out[o].dst) ? "up " : "to " + out[o].dst + " ") + out[o].data);
        for (size_t i = nc; i < conns.size(); i++) if (conns[i]->outgoing && !conns[i]->tx.empty()) r.push_back("up " + conns[i]->tx.substr(2));
        if (cl) { bytes t = tcp_take(cl); if (!t.empty()) r.push_back("to tcp " + t.substr(2)); tcp_eof(cl); run(); }
        seen = out.size(); count_eval(1); return r;
    }
    // a plain query must still be forwarded and its answer relayed
    void probe(const char *after) {
        char nm[32]; snprintf(nm, sizeof nm, "probe%d.org", n++); Msg q = query(0x7700 + n % 200, nm, A, ap); size_t o = out.size();
        udp_in("9.9.9.9:999", "127.0.0.1:53", encode(q)); run();
        REQUIRE(out.size() == o + 1 && out[o].dst == "1.1.1.1:53" && out[o].data == encode(q), "probe query not forwarded after %s", after);
        Msg am = answer(q, {rrA(nm, "10.0.0.1")}); if (ap) am.ar.push_back(opt()); bytes a = encode(am);
        udp_reply(out[o], a); run(); REQUIRE(out.size() == o + 2 && out[o + 1].dst == "9.9.9.9:999" && out[o + 1].data == a, "probe answer not relayed after %s", after); count_eval(1);
    }
};
static bool question_ok(const bytes &m, std::string *nm, bytes *qsec) {
    if (m.size() < 12 || g16(m, 4) < 1) return false; size_t o = 12; if (!dname(m, o, *nm) || o + 4 > m.size()) return false; *qsec = m.substr(12, o + 4 - 12); return true; }
// names longer than DNS allows: dropping and relaying are both harmless
static bool overlong(const bytes &m) { size_t p = 12, n = 0; int hops = 0; while (p < m.size()) { unsigned c = (unsigned char)m[p]; if (c == 0) return n > 253; if ((c & 0xC0) == 0xC0) { if (p + 1 >= m.size() || ++hops > 64) return n > 253; p = (c & 0x3f) << 8 | (unsigned char)m[p + 1]; continue; } n += c + 1; if (n > 253) return true; p += c + 1; } return false; }
static void check_query(H16 &w, const bytes &m, bool tcp, const char *what) {
    std::vector<std::string> first; 
    for (size_t f = 0; f < FILLS.size(); f++) { stale = &FILLS[f]; auto r = w.feed(m, tcp); 
        if (f == 0) first = r; else REQUIRE(r == first, "treatment of %s depends on bytes behind the message (%zu vs %zu outputs): %s", what, first.size(), r.size(), hex(m).c_str()); }
    stale = nullptr; std::string nm; bytes qs; bool ok = question_ok(m, &nm, &qs);
    REQUIRE(first.size() <= 1, "%s caused %zu outputs: %s", what, first.size(), hex(m).c_str());
    for (auto &r : first) {
        std::string who = r.substr(0, r.find(' ') + 1); bytes d = r.substr(r[0] == 'u' ? 3 : tcp ? 7 : strlen("to 9.9.9.1:1111 "));
        if (overlong(m)) continue; REQUIRE(ok, "unparseable query caused output: %s -> %s", hex(m).c_str(), r.substr(0, 24).c_str());
        if (r[0] == 'u') { bytes al = m; bool same = w.ap ? d.substr(0, 2) == m.substr(0, 2) && d.size() >= m.size() : d == m; 
            if (!same) { Msg am; bool isal = decode(d, am) && lower(nm) == "al.com" && am.qd.size() == 1 && am.qd[0].name == "up.org"; REQUIRE(isal, "%s not forwarded unchanged: %s -> %s", what, hex(m).c_str(), hex(d).c_str()); } }
        else { REQUIRE(tcp || r.substr(3, 12) == "9.9.9.1:1111", "reply to a wrong address %s", r.substr(0, 20).c_str()); REQUIRE(d.size() >= 12 && d.substr(0, 2) == m.substr(0, 2) && d.size() >= 12 + qs.size() && lower(d.substr(12, qs.size())) == lower(qs), "reply to %s has another ID or question: %s -> %s", what, hex(m).c_str(), hex(d).c_str()); }
        count_obs((r[0] == 'u' ? "fwd" : "rep") + std::to_string(d.size()));
    }
}
static std::vector<bytes> base_queries() {
    std::vector<bytes> v; auto q = [&](const char *n, int t, bool e) { v.push_back(encode(query(0x1234, n, t, e))); };
    q("q.w.com", A, true); q("h6.com", AAAA, false); q("al.com", A, true); q("c.dis.com", A, false); q("plain.net", TXT, false); q("a.tcp.net", MX, true); q("hit.com", A, true); q("", NS, false); return v; }
static void mutated_queries(bool tcp, bool ap) {
    H16 w(ap); auto b = base_queries(); 
    { Msg q = query(1, "hit.com", A, true); auto r = w.feed(encode(q), false); Msg a = answer(q, {rrName(CNAME, "hit.com", "t.hit.com"), rrA("t.hit.com", "9.1.1.1")}); a.ar.push_back(opt()); REQUIRE(r.size() == 1, "prime"); udp_reply(out.back(), encode_c(a)); run(); w.seen = out.size(); }
    int k = choose((int)b.size(), "base"); bytes m0 = b[k]; int mode = choose(3, "mode"); 
    if (mode == 0) { for (size_t l = 0; l < m0.size(); l++) check_query(w, m0.substr(0, l), tcp, "truncated query"); w.probe("truncated queries"); }
    else if (mode == 1) { int o = choose((int)m0.size(), "offset"); for (unsigned char v : VALS) { bytes m = m0; m[o] = v; check_query(w, m, tcp, "mutated query"); } { bytes m = m0; m[o] ^= 0x80; check_query(w, m, tcp, "mutated query"); m = m0; m[o] ^= 1; check_query(w, m, tcp, "mutated query"); } w.probe("mutated queries"); }
    else { int o = choose((int)m0.size() - 1, "offset"); if (o >= 11) for (int t = 0; t < (int)m0.size() + 3; t++) { bytes m = m0; m[o] = 0xC0 | t >> 8; m[o + 1] = t; check_query(w, m, tcp, "query with pointer"); } w.probe("queries with pointers"); }
    exec_done("");
}
// adversarial constructions
static std::vector<bytes> evil_names(int at) { std::vector<bytes> v; auto ptr = [](int t) { bytes b; b += (char)(0xC0 | t >> 8); b += (char)t; return b; };
    v.push_back(ptr(at)); v.push_back(bytes("\x01""a", 2) + ptr(at)); v.push_back(ptr(at + 2) + ptr(at)); v.push_back(bytes(1, '\x3f') + rep("x", 63) + ptr(at)); v.push_back(ptr(0)); v.push_back(ptr(2)); v.push_back(ptr(0x3fff)); v.push_back(ptr(at + 1));
    v.push_back(rep(bytes("\x01") + "y", 126) + bytes(1, '\0')); v.push_back(rep(bytes("\x01") + "y", 127) + bytes(1, '\0')); v.push_back(rep(bytes("\x01") + "y", 128) + bytes(1, '\0')); v.push_back(rep(bytes("\x01") + "y", 400) + bytes(1, '\0'));
    v.push_back(rep(bytes(1, '\x3f') + rep("z", 63), 3) + bytes(1, '\x3d') + rep("z", 61) + bytes(1, '\0')); v.push_back(rep(bytes(1, '\x3f') + rep("z", 63), 3) + bytes(1, '\x3e') + rep("z", 62) + bytes(1, '\0')); v.push_back(rep(bytes(1, '\x3f') + rep("z", 63), 4) + bytes(1, '\0')); v.push_back(rep(bytes(1, '\x3f') + rep("z", 63), 6) + bytes(1, '\0'));
    v.push_back(bytes("\x03%v%\x02%s", 7) + bytes(1, '\0')); v.push_back(bytes("\x04%n%n\x02%t", 8) + bytes(1, '\0')); v.push_back(bytes("\x01\x20\x03 1 ", 6) + bytes(1, '\0')); v.push_back(bytes("\x40""a", 2) + bytes(70, 'q') + bytes(1, '\0')); v.push_back(bytes("\x80\x01\x00", 3)); v.push_back(bytes("\x05""a\x00.bc", 6) + bytes(1, '\0')); v.push_back(bytes("\x3f", 1)); v.push_back(""); return v; }
static bytes hdr(int id, int fl, int q, int a, int n, int r) { bytes b; p16(b, id); p16(b, fl); p16(b, q); p16(b, a); p16(b, n); p16(b, r); return b; }
static void evil_queries(bool tcp, bool ap) {
    H16 w(ap); int qc = choose(4, "qdcount"), rc = choose(4, "others"); static const int QC[] = {0, 1, 2, 65535}, RC[] = {0, 1, 2, 65535};
    for (auto &n : evil_names(12)) for (int type : std::initializer_list<int>{A, AAAA, TXT, 0, 33, 255}) for (int tail = 0; tail < 4; tail++) {
        bytes b = hdr(0x2222, 0x100, QC[qc], rc == 3 ? 65535 : 0, rc == 2 ? 2 : 0, RC[rc]) + n; if (tail > 0) { p16(b, type); p16(b, 1); } if (tail > 1) { b += bytes("\0\0\x29\x10\0\0\0\0\0", 9); } if (tail > 2) b += bytes("\xff\xff", 2);
        if (b.size() > 3400) continue; check_query(w, b, tcp, "constructed query"); }
    // additional section without OPT (TSIG-like record)
    for (int t : {250, 41, 1, 28, 5}) for (int dl : {0, 3, 4, 16}) { bytes b = hdr(0x2223, 0x100, 1, 0, 0, 1) + ename("plain.net"); p16(b, A); p16(b, 1); b += ename("k"); p16(b, t); p16(b, 255); p32(b, 0); p16(b, dl); b += bytes(dl, 'k'); check_query(w, b, tcp, "query with additional record"); }
    // maximum size
    for (int pad : {512, 3000, 3500, 4096 - 12 - 15 - 480, 4080, 9000}) { bytes b = hdr(0x2224, 0x100, 1, 0, 0, 1) + ename("q.w.com"); p16(b, A); p16(b, 1); b += bytes(1, '\0'); p16(b, 41); p16(b, 4096); p32(b, 0); p16(b, pad); b += bytes(pad, 'p'); 
        w.feed(b, tcp); Msg q = query(0x2224, "hit2.com", A, false); bytes c = encode(q) + bytes(pad, '\0'); w.feed(c, tcp); }
    w.probe("constructed queries"); exec_done("");
}
// ---- answers
struct ABase { const char *name; int type; std::function<bytes(const Msg &)> mk; };
static std::vector<ABase> answers_() { std::vector<ABase> v;
    auto soa = [](const std::string &n) { RR r; r.name = n; r.type = SOA; r.ttl = 60; r.rdata = ename("ns.x") + ename("m.x") + bytes(20, '\x01'); return r; };
    v.push_back({"A", A, [](const Msg &q) { Msg a = answer(q, {rrName(CNAME, q.qd[0].name, "t." + q.qd[0].name), rrA("t." + q.qd[0].name, "77.77.77.77"), rrA("t." + q.qd[0].name, "1.1.1.2")}); a.ar.push_back(opt()); return encode_c(a); }});
    v.push_back({"AAAA+SOA", AAAA, [soa](const Msg &q) { Msg a = answer(q, {rrAAAA(q.qd[0].name, bytes(16, '\x20'))}); a.ns.push_back(soa("x")); a.ar.push_back(opt()); return encode_c(a); }});
    v.push_back({"MX", MX, [](const Msg &q) { Msg a = answer(q, {rrMX(q.qd[0].name, 10, "mail.x")}); a.ns.push_back(rrName(NS, "x", "ns.x")); a.ar.push_back(rrA("mail.x", "1.1.1.3")); a.ar.push_back(opt()); return encode_c(a); }});
    v.push_back({"TXT", TXT, [](const Msg &q) { RR t = rrTXT(q.qd[0].name, "%v%t%s hello"); t.rdata += bytes("\x02hi\x00", 4); Msg a = answer(q, {t}); RR h; h.name = q.qd[0].name; h.type = 65; h.ttl = 9; h.rdata = bytes("\0\1\0\0\1\0\3\2h2", 10); a.an.push_back(h); a.ar.push_back(opt()); return encode_c(a); }});
    return v; }
static const char *cnt(int n) { static char b[8]; b[0] = 'a' + n / 17576 % 26; b[1] = 'a' + n / 676 % 26; b[2] = 'a' + n / 26 % 26; b[3] = 'a' + n % 26; b[4] = 0; return b; }
// equal up to the run-specific counter letters in the names
static bool same_but(const std::vector<std::string> &a, const std::string &ca, const std::vector<std::string> &b, const std::string &cb) { if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return false; for (size_t k = 0; k < a[i].size(); k++) if (a[i][k] != b[i][k]) { bool ok = false; for (int j = 0; j < 4; j++) ok |= a[i][k] == ca[j] && b[i][k] == cb[j]; if (!ok) return false; } } return true; }
struct AnsRun { H16 &w; int path; int seq = 0; // path 0: udp, 1: tcp upstream, 2: alias
    // send one query, answer it with mutate(base answer); return normalised outputs incl. later cache lookups
    std::vector<std::string> go(const ABase &ab, const std::function<bytes(const bytes &)> &mut, bool *relayed = nullptr) {
        std::string c = cnt(seq++), nm = c + (path == 1 ? ".tcp.net" : ".org"); if (path == 2) nm = "al.com";
        Msg q = query(0x0101, nm, ab.type, true); size_t o = out.size(), nc = conns.size(); std::vector<std::string> r;
        for (auto *x : conns) if (x->outgoing) tcp_take(x);
        udp_in("9.9.9.1:1111", "127.0.0.1:53", encode(q)); run();
        if (path == 1) { Conn *k = nullptr; for (int t = 0; t < 20 && !k; t++) { for (auto *x : conns) if (x->outgoing && !tcp_take(x).empty()) k = x; if (!k) advance(50); } REQUIRE(k, "query %d not sent over TCP t=%lld conns=%zu", seq, (long long)now_ms, conns.size()); bytes m = mut(ab.mk(q)), f; p16(f, m.size()); tcp_push(k, f + m); run(); }
        else { REQUIRE(out.size() == o + 1 && w.is_up(out[o].dst), "query for %s not forwarded", nm.c_str()); Msg fq; decode(out[o].data, fq); bytes m = mut(ab.mk(fq)); udp_reply(out[o], m); run(); o++; }
        for (size_t i = o; i < out.size(); i++) r.push_back(out[i].dst + " " + out[i].data); o = out.size();
        if (path != 2) { // what did it leave in the cache?
            for (auto &x : std::vector<std::pair<std::string, int>>{{nm, ab.type}, {nm, CNAME}, {"t." + nm, A}, {"mail.x", A}, {"x", NS}, {nm, 65}}) { if (path == 1 && x.first.find("tcp.net") != std::string::npos) continue; udp_in("9.9.9.2:2222", "127.0.0.1:53", encode(query(0x0202, x.first, x.second))); run(); for (size_t i = o; i < out.size(); i++) { bool hit = !w.is_up(out[i].dst); if (hit) { Msg hm; std::string why; REQUIRE(decode(out[i].data, hm, &why), "reply from the cache is malformed (%s): %s", why.c_str(), hex(out[i].data).c_str()); } r.push_back((hit ? "hit " : "miss ") + out[i].data); } o = out.size(); } }
        w.seen = out.size(); count_eval(1); return r; }
    void check(const ABase &ab, const std::function<bytes(const bytes &)> &mut, const char *what) {
        std::vector<std::string> first; std::string c0; for (size_t f = 0; f < FILLS.size(); f++) { stale = &FILLS[f]; std::string c = cnt(seq); auto r = go(ab, mut); if (f == 0) { first = r; c0 = c; count_obs(std::to_string(r.size())); } else if (path != 2 || r.size() == first.size()) { if (path == 2 || ab.type == MX) continue; REQUIRE(same_but(r, c, first, c0), "treatment of %s (%s) depends on bytes behind the message: %s", what, ab.name, hex(mut(ab.mk(query(1, "####.org", ab.type)))).c_str()); } else fail("treatment of %s (%s) depends on bytes behind the message", what, ab.name); } stale = nullptr; }
};
static void mutated_answers(int path, bool ap) {
    H16 w(ap, path != 2); AnsRun a{w, path}; auto b = answers_(); auto &ab = b[choose((int)b.size(), "base")]; size_t L = ab.mk(query(1, path == 1 ? "aaaa.tcp.net" : path == 2 ? "up.org" : "aaaa.org", ab.type)).size(); int mode = choose(3, "mode");
    if (mode == 0) { int part = choose(4, "part"); for (size_t l = part; l < L; l += 4) a.check(ab, [l](const bytes &m) { return m.substr(0, l); }, "truncated answer"); }
    else if (mode == 1) { size_t o = choose((int)L, "offset"); for (unsigned char v : VALS) a.check(ab, [=](const bytes &m0) { bytes m = m0; if (o < m.size()) m[o] = v; return m; }, "mutated answer"); }
    else { size_t o = 11 + choose((int)L - 12, "offset"); for (size_t t = 0; t < L + 2; t += g_thorough ? 1 : 3) a.check(ab, [=](const bytes &m0) { bytes m = m0; if (o + 1 < m.size()) { m[o] = 0xC0 | t >> 8; m[o + 1] = t; } return m; }, "answer with pointer"); }
    if (path == 2) advance(15000); w.probe("mutated answers"); exec_done("");
}
static void evil_answers(int path, bool ap) {
    H16 w(ap, path != 2); AnsRun a{w, path}; ABase ab = answers_()[0]; int t = choose(8, "type"); static const int T[] = {A, AAAA, CNAME, MX, SOA, TXT, 65, NS}; int where = choose(2, "owner/rdata"); int cntv = choose(3, "ancount"); static const int C[] = {1, 7, 65535};
    ab.type = T[t] == CNAME || T[t] == SOA || T[t] == NS ? A : T[t];
    auto mk = [&](const bytes &n, int dl) { return [=](const bytes &m0) { size_t o = 12; std::string nm; dname(m0, o, nm); bytes b = m0.substr(0, o + 4); int c = C[cntv]; b[6] = c >> 8; b[7] = c; b[8] = b[9] = 0; b[11] = 1; b[10] = 0;
        bytes rd; int at = 12; bytes own = where == 0 ? n : bytes("\xc0\x0c", 2); rd = where == 1 ? n : bytes(20, 'r'); if (T[t] == MX && where == 1) rd = bytes("\0\5", 2) + n; if (T[t] == SOA && where == 1) rd = n + n + bytes(8, 's');
        b += own; p16(b, T[t]); p16(b, 1); p32(b, 100); p16(b, dl < 0 ? rd.size() : dl); b += rd; b += bytes("\0\0\x29\x10\0\0\0\0\0\0\0", 11); return b; }; };
    std::vector<bytes> names = evil_names(12); for (auto &x : evil_names(12 + 10 + 4 + 12)) names.push_back(x); for (auto &x : evil_names(12 + 10 + 4)) names.push_back(x);
    for (auto &n : names) for (int dl : {-1, 0, 1, 3, 5, 17, 200, 65535}) { if (n.size() > 1500) continue; a.check(ab, mk(n, dl), "constructed answer"); }
    // TXT with many empty strings and an overrunning one; huge answers
    if (T[t] == TXT && where == 0) { for (int k : {0, 1, 5, 100, 254, 255, 256, 300, 490}) for (int over : {0, 1, 5, 255}) a.check(ab, [=](const bytes &m0) { size_t o = 12; std::string nm; dname(m0, o, nm); bytes b = m0.substr(0, o + 4); b[6] = 0; b[7] = 1; b[9] = 0; b[10] = 0; b[11] = 0; bytes rd = bytes(k, '\0') + bytes(1, (char)over); b += bytes("\xc0\x0c", 2); p16(b, 16); p16(b, 1); p32(b, 100); p16(b, rd.size()); return b + rd; }, "TXT answer"); }
    if (T[t] == A && where == 0) for (int k : {10, 60, 100, 150, 200, 220}) a.check(ab, [=](const bytes &m0) { size_t o = 12; std::string nm; dname(m0, o, nm); bytes b = m0.substr(0, o + 4); b[6] = k >> 8; b[7] = k; b[9] = 0; b[10] = 0; b[11] = 1; for (int i = 0; i < k; i++) { b += bytes("\xc0\x0c", 2); p16(b, A); p16(b, 1); p32(b, 100); p16(b, 4); b += bytes("\x05\x06", 2); b += (char)i; b += (char)cntv; } b += bytes("\0\0\x29\x10\0\0\0\0\0\0\0", 11); return b; }, "large answer");
    if (path == 2) advance(15000); w.probe("constructed answers"); exec_done("");
}
static void odd_datagrams() { H16 w(false); int k = choose(6, "size"); static const int SZ[] = {0, 1, 11, 12, 4096, 5000}; bytes b(SZ[k], '\xff'); w.feed(b, false); w.probe("odd client datagram");
    Msg q = query(5, "z.org", A); udp_in("9.9.9.1:1111", "127.0.0.1:53", encode(q)); run(); udp_reply(out.back(), b); run(); REQUIRE(out.back().dst == "1.1.1.1:53", "junk relayed"); bytes a = encode(answer(q, {rrA("z.org", "4.4.4.4")})); udp_reply(out.back(), a); run(); REQUIRE(out.back().data == a, "answer after junk datagram not relayed"); w.probe("odd server datagram"); exec_done(""); }
void check_main() {
    sim::private_files = true;
    explore("odd", odd_datagrams);
    for (int tcp = 0; tcp < 2; tcp++) for (int ap = 0; ap < 2; ap++) { std::string s = std::string(tcp ? "tcp" : "udp") + (ap ? "/ap" : ""); explore("mutated-queries/" + s, [=] { mutated_queries(tcp, ap); }); explore("evil-queries/" + s, [=] { evil_queries(tcp, ap); }); }
    for (int path = 0; path < 3; path++) for (int ap = 0; ap < 2; ap++) { std::string s = std::string(path == 0 ? "udp" : path == 1 ? "tcp" : "alias") + (ap ? "/ap" : ""); if (ap && !g_thorough) continue; explore("mutated-answers/" + s, [=] { mutated_answers(path, ap); }); explore("evil-answers/" + s, [=] { evil_answers(path, ap); }); }
}
