// P22: statistics. Every history of query outcomes on the real program; the report file is read back and compared with what really happened.
#include "scn.h"
#include <unistd.h>
using namespace dns;
typedef std::string S;
struct Cnt { int total = 0, raf = 0, hosts = 0, cache = 0, udp = 0, tcp = 0, blocked = 0;
    bool operator==(const Cnt &o) const { return total == o.total && raf == o.raf && hosts == o.hosts && cache == o.cache && udp == o.udp && tcp == o.tcp && blocked == o.blocked; }
    void add(const Cnt &o) { total += o.total; raf += o.raf; hosts += o.hosts; cache += o.cache; udp += o.udp; tcp += o.tcp; blocked += o.blocked; }
    S str() const { char b[160]; snprintf(b, sizeof b, "total %d refused/failed %d hosts %d cache %d udp %d tcp %d blocked %d", total, raf, hosts, cache, udp, tcp, blocked); return b; } };
typedef std::map<S, Cnt> Rep;
struct Report { Rep r; Cnt sum; long start = 0, last = 0; };
// ---- the report: template head, a script with StartUpTime, LastStatistic, InfoArray and Sum, template tail
struct Js { const S &s; size_t p; Js(const S &s_) : s(s_), p(0) {}
    void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
    void lit(const char *t) { ws(); REQUIRE(s.compare(p, strlen(t), t) == 0, "the report does not read \"%s\" at: %.120s", t, s.c_str() + std::min(p, s.size())); p += strlen(t); }
    bool peek(const char *t) { ws(); return s.compare(p, strlen(t), t) == 0; }
    long num() { ws(); size_t e = p; if (e < s.size() && s[e] == '-') e++; while (e < s.size() && isdigit((unsigned char)s[e])) e++; REQUIRE(e > p, "no number in the report at: %.80s", s.c_str() + p); long v = atol(s.substr(p, e - p).c_str()); p = e; return v; }
    S text() { lit("\""); S r; for (;; p++) { REQUIRE(p < s.size(), "a domain in the report does not end"); unsigned char c = s[p]; REQUIRE(c >= 32, "control character in a string of the report"); if (c == '"') { p++; return r; }
        if (s.compare(p, 2, "</") == 0 || s.compare(p, 4, "<!--") == 0) fail("a domain name gets out of the report's script: %.80s", s.c_str() + p);
        if (c != '\\') { r += (char)c; continue; } char k = s[++p]; if (k == 'x' || k == 'u') { int n = k == 'x' ? 2 : 4; r += (char)strtol(s.substr(p + 1, n).c_str(), nullptr, 16); p += n; } else if (k == 'n') r += '\n'; else if (k == 'r') r += '\r'; else if (k == 't') r += '\t'; else if (k == 'b') r += '\b'; else if (k == 'f') r += '\f'; else r += k; } } };
static void field(Js &j, const char *k, int &v) { j.lit(k); j.lit(":"); v = j.num(); }
static void counts(Js &j, Cnt &c) { field(j, "Total", c.total); j.lit(","); field(j, "RaF", c.raf); j.lit(","); field(j, "Hosts", c.hosts); j.lit(","); field(j, "Cache", c.cache); j.lit(","); field(j, "UDP", c.udp); j.lit(","); field(j, "TCP", c.tcp); j.lit(","); field(j, "BlockedMsg", c.blocked); }
static S HEAD = "<html>\n%d 100%% <head>\n", TAIL = "\n</html>%s\n";
static Report parse(const S &f)
{
    Report R; REQUIRE(f.compare(0, HEAD.size(), HEAD) == 0, "the report does not begin like the template: %.100s", f.c_str());
    REQUIRE(f.size() >= HEAD.size() + TAIL.size() && f.compare(f.size() - TAIL.size(), TAIL.size(), TAIL) == 0, "the report does not end like the template: %s", f.substr(f.size() > 120 ? f.size() - 120 : 0).c_str());
    S m = f.substr(HEAD.size(), f.size() - HEAD.size() - TAIL.size()); Js j(m);
    j.lit("<script"); while (j.p < m.size() && m[j.p] != '>') j.p++; j.lit(">"); j.lit("var"); j.lit("StartUpTime"); j.lit("="); R.start = j.num(); j.lit(";"); j.lit("var"); j.lit("LastStatistic"); j.lit("="); R.last = j.num(); j.lit(";"); j.lit("var"); j.lit("InfoArray"); j.lit("="); j.lit("[");
    while (j.peek("{")) { j.lit("{"); j.lit("Domain"); j.lit(":"); S d = j.text(); j.lit(","); Cnt c; counts(j, c); j.lit("}"); if (j.peek(",")) j.lit(","); REQUIRE(!R.r.count(d), "%s is in the report twice", d.c_str()); R.r[d] = c; }
    j.lit("]"); j.lit(";"); j.lit("var"); j.lit("Sum"); j.lit("="); j.lit("{"); counts(j, R.sum); j.lit("}"); j.lit(";"); j.lit("</script>"); j.ws(); REQUIRE(j.p == m.size(), "unexpected text in the report: %.80s", m.c_str() + j.p);
    Cnt s; for (auto &x : R.r) s.add(x.second); REQUIRE(s == R.sum, "the totals are %s, the sums over the domains %s", R.sum.str().c_str(), s.str().c_str()); count_eval(1); return R;
}
static void same(const Rep &want, const Report &R, const char *when)
{
    for (auto &x : want) { auto it = R.r.find(x.first); REQUIRE(it != R.r.end(), "%s: %s (%s) is not in the report", when, x.first.c_str(), x.second.str().c_str()); REQUIRE(it->second == x.second, "%s: %s is reported with %s, really %s", when, x.first.c_str(), it->second.str().c_str(), x.second.str().c_str()); }
    for (auto &x : R.r) REQUIRE(want.count(x.first), "%s: the report has %s which nobody asked for", when, x.first.c_str());
}
static const char *ME = "9.9.9.1:1111", *SRV = "127.0.0.1:53";
struct W22 {
    Rep want; int id = 1; size_t o0 = 0; int64_t t0; int every; bool started = false;
    W22(const S &groups, const S &more = "", int every_ = 20, const S &marker = "<!-- INSERT HERE -->") : every(every_)
    {
        private_files = true;         on_connect = [](const Addr &, int64_t *d) { *d = 0; return (int)ACCEPT; }; write_file(".dnsforwarder/tpl.html", HEAD + marker + TAIL); t0 = now_ms;
        boot("LogOn false\nUDPLocal 127.0.0.1:53\nTCPLocal 127.0.0.1:53\n" + groups + "DomainStatistic true\nDomainStatisticTempletFile " + path(".dnsforwarder/tpl.html") + "\nStatisticUpdateInterval " + std::to_string(every) + "\n" + more); run(); o0 = out.size();
    }
    // until after the next report
    void report(const char *when) { int64_t e = every * 1000LL; advance((t0 + ((now_ms - t0) / e + 1) * e) - now_ms + 300); check(when); }
    void check(const char *when) { Report R = parse(read_file(".dnsforwarder/statistic.html")); same(want, R, when); REQUIRE(!R.start || (R.last >= R.start && R.last - R.start <= (now_ms - t0) / 1000 + 1), "odd times in the report: %ld %ld", R.start, R.last); }
    void report_time(long *l) { *l = parse(read_file(".dnsforwarder/statistic.html")).last; }
    void ask(const S &n, int type = A) { udp_in(ME, SRV, encode(query(id++, n, type))); run(); }
    std::vector<Sent> ups() { std::vector<Sent> r; for (size_t i = o0; i < out.size(); i++) if (out[i].dst != ME) r.push_back(out[i]); return r; }
    int replies() { int r = 0; for (size_t i = o0; i < out.size(); i++) r += out[i].dst == ME; return r; }
    void fin() { o0 = out.size(); }
    Conn *tcp(bytes *q) { for (int k = 0; k < 40; k++, advance(50)) for (auto c : conns) if (c->outgoing) { bytes t = tcp_take(c); if (t.size() > 2) { *q = t.substr(2); return c; } } fail("no TCP query upstream"); }
    void answer_udp(const Sent &s, const char *ip, int rc = 0, int ttl = 600) { Msg q; REQUIRE(decode(s.data, q), "bad query upstream"); udp_reply(s, encode(dns::answer(q, rc ? std::vector<RR>{} : std::vector<RR>{rrA(q.qd[0].name, ip, ttl)}, rc))); run(); }
};
static const char *BASE = "EnableUDPtoTCP true\nUDPGroup 1.1.1.1 * off\nTCPGroup 3.3.3.3 t.org off no\nUDPGroup 1.1.1.1,2.2.2.2 p.org on\nUseCache true\nMemoryCache true\nCacheControl u.org nocache\nDisabledDomain r.org\nDisabledType 33\nAppendHosts 5.5.5.5 h.org\nAppendHosts u.org al.org\nAppendHosts h.org al2.org\nBlockIP 6.6.6.6\nBlockNegativeResponse true\nUDPLocal 127.0.0.1:53\n";
static void addc(Rep &r, const S &d, int Cnt::*k) { Cnt &c = r[lower(d)]; c.*k += 1; if (k != &Cnt::blocked) c.total++; }
enum { NOPS = 15 };
static void op(W22 &w, int k)
{
    Rep &R = w.want; w.fin();
    switch (k) {
    case 0: w.ask("h.org"); addc(R, "h.org", &Cnt::hosts); break;
    case 1: w.ask("U.org"); REQUIRE(w.ups().size() == 1, "u.org not forwarded"); w.answer_udp(w.ups()[0], "7.7.7.7"); addc(R, "u.org", &Cnt::udp); break;
    case 2: w.ask("u.org", AAAA); { advance(16000); addc(R, "u.org", &Cnt::raf); } break;
    case 3: w.ask("u.org"); w.answer_udp(w.ups()[0], "6.6.6.6"); addc(R, "u.org", &Cnt::blocked); w.answer_udp(w.ups()[0], "x", 3); addc(R, "u.org", &Cnt::blocked); w.answer_udp(w.ups()[0], "7.7.7.8"); addc(R, "u.org", &Cnt::udp); break;
    case 4: w.ask("x.u.org"); w.answer_udp(w.ups()[0], "6.6.6.6"); addc(R, "x.u.org", &Cnt::blocked); advance(16000); addc(R, "x.u.org", &Cnt::raf); break;
    case 5: w.ask("c.org"); if (w.ups().empty()) { addc(R, "c.org", &Cnt::cache); break; } w.answer_udp(w.ups()[0], "7.7.7.9", 0, 60000); addc(R, "c.org", &Cnt::udp); break;
    case 6: w.ask("r.org"); addc(R, "r.org", &Cnt::raf); w.ask("S.r.org", 16); addc(R, "s.r.org", &Cnt::raf); w.ask("u.org", 33); addc(R, "u.org", &Cnt::raf); break;
    case 7: { w.ask("t.org"); bytes q; Conn *c = w.tcp(&q); Msg m; REQUIRE(decode(q, m), "bad"); bytes a = encode(dns::answer(m, {rrA("t.org", "7.7.7.7", 1)})), f; p16(f, a.size()); tcp_push(c, f + a); run(); addc(R, "t.org", &Cnt::tcp); advance(2500); break; }
    case 8: { w.ask("y.t.org"); bytes q; w.tcp(&q); advance(16000); addc(R, "y.t.org", &Cnt::raf); break; }
    case 9: { w.ask("p.org", 16); auto u = w.ups(); REQUIRE(u.size() == 2, "p.org not sent to both servers"); w.answer_udp(u[1], "6.6.6.6"); addc(R, "p.org", &Cnt::blocked); Msg q; decode(u[0].data, q); udp_reply(u[0], encode(dns::answer(q, {rrTXT("p.org", "x", 1)}))); run(); udp_reply(u[1], encode(dns::answer(q, {rrTXT("p.org", "x", 1)}))); run(); addc(R, "p.org", &Cnt::udp); advance(2500); break; }
    case 10: { w.ask("al.org"); auto u = w.ups(); REQUIRE(u.size() == 1, "the target of al.org not forwarded"); w.answer_udp(u[0], "7.7.7.7"); addc(R, "u.org", &Cnt::udp); addc(R, "al.org", &Cnt::hosts); w.ask("al2.org"); addc(R, "h.org", &Cnt::hosts); addc(R, "al2.org", &Cnt::hosts); REQUIRE(w.replies() == 2, "alias not answered"); break; }
    case 11: w.ask("*.u.org"); w.answer_udp(w.ups()[0], "7.7.7.7", 0, 1); addc(R, "*.u.org", &Cnt::udp); advance(2500); break;
    case 12: { Conn *c = tcp_connect("9.9.9.2:2222", SRV); bytes q = encode(query(w.id++, "h.org", A)), f; p16(f, q.size()); tcp_push(c, f + q); run(); addc(R, "h.org", &Cnt::hosts); q = encode(query(w.id++, "r.org", A)); f.clear(); p16(f, q.size()); tcp_push(c, f + q); run(); addc(R, "r.org", &Cnt::raf); tcp_eof(c); run(); break; }
    case 13: { udp_in(ME, SRV, "garbage"); udp_in(ME, SRV, encode(query(9, "u.org", A)).substr(0, 15)); if (w.id > 2) { Msg q = query(1, "u.org", A); for (auto &s : out) if (s.dst == "1.1.1.1:53") { udp_reply(s, encode(dns::answer(q, {rrA("u.org", "7.7.7.7")}))); break; } } run(); break; }
    case 14: w.report("at a report in between"); break;
    }
}
static void history(int depth) { W22 w(BASE); S o; for (int i = 0; i < depth; i++) { int k = choose(NOPS, "operation"); op(w, k); } w.report("at the report"); for (auto &x : w.want) o += x.first + x.second.str(); w.report("at a later report"); exec_done(o); }
// repetition and many domains
static void many() { static const int N[] = {1, 2, 3, 5, 31, 32, 33, 200, 700}; int n = N[choose(g_thorough ? 9 : 8, "domains")], rep = 1 + choose(3, "times"), ord = choose(3, "order"), form = choose(4, "names"); W22 w("UDPGroup 1.1.1.1 * off\nUseCache false\nDisabledDomain *x*\n"); std::vector<S> nm; for (int i = 0; i < n; i++) { char b[300]; snprintf(b, sizeof b, form == 0 ? "x%d.org" : form == 1 ? "x.%d" : form == 2 ? "%d.x" : "x%d.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", i); nm.push_back(b); }
    for (int r = 0; r < rep; r++) { for (int i = 0; i < n; i++) { const S &s = nm[ord == 0 ? i : ord == 1 ? n - 1 - i : (i * 7) % n]; w.ask(s); addc(w.want, s, &Cnt::raf); } if (r == 0) w.report("after the first round"); } w.report("at the end"); exec_done(std::to_string(n) + "/" + std::to_string(rep) + "/" + std::to_string(form)); }
// odd names
static void odd() { W22 w("UDPGroup 1.1.1.1 * off\nUseCache false\n"); int a = choose(256, "byte"); if (a == 0 || a == '.') exec_done("-"); static const char *F[] = {"%s.org", "a%s.org", "</script%sscript>.org", "%s", "<!--%s.org", "\\%s.org", "%s*.org"}; S n; int f = choose(7, "form"); char b[100]; S ch(1, (char)a); snprintf(b, sizeof b, F[f], ch.c_str()); n = b; Msg q = query(1, n, A);
    for (int i = 0; i < 2; i++) { w.fin(); w.ask(n); REQUIRE(w.ups().size() == 1, "not forwarded"); w.answer_udp(w.ups()[0], "7.7.7.7"); addc(w.want, n, &Cnt::udp); w.fin(); w.ask("plain.org"); w.answer_udp(w.ups()[0], "7.7.7.7"); addc(w.want, "plain.org", &Cnt::udp); w.fin(); w.ask("aa.org"); w.answer_udp(w.ups()[0], "7.7.7.7"); addc(w.want, "aa.org", &Cnt::udp); }
    w.report("odd name"); exec_done(n); }
// templates and settings
static void settings() { int m = choose(5, "marker"), head = choose(4, "head"), tail = choose(4, "tail"), iv = choose(3, "interval"); static const int I[] = {1, 7, 60}; static const char *M[] = {"<!-- INSERT HERE -->", "@@HERE@@", "x", "<!-- a b c -->", "%s%n"}; static const char *H[] = {"", "<head>", "%n%s%d", "line 1\nline 2\n\n"}; static const char *T[] = {"", "</html>", "%s\n", "<!-- INSERT HERE -->@@HERE@@x"}; HEAD = H[head]; TAIL = T[tail]; if (m == 2) HEAD += "";
    W22 w("UDPGroup 1.1.1.1 * off\nUseCache false\nAppendHosts 5.5.5.5 h.org\n", m ? S("StatisticInsertionPosition ") + M[m] + "\n" : "", I[iv], M[m]); for (int i = 0; i < 3; i++) { w.ask("h.org"); addc(w.want, "h.org", &Cnt::hosts); w.report("setting"); } long l1, l2; w.report_time(&l1); advance(I[iv] * 3000); w.report_time(&l2); REQUIRE(l2 - l1 >= I[iv] * 3 - 1 && l2 - l1 <= I[iv] * 3 + 1, "reports are not written every %d s", I[iv]); w.check("later"); exec_done(std::to_string(m * 100 + head * 10 + tail)); }
// no usable template: service without statistics
static void without() { int k = choose(5, "kind"); on_connect = [](const Addr &, int64_t *d) { *d = 0; return (int)ACCEPT; }; if (k == 1) write_file(".dnsforwarder/tpl.html", ""); if (k == 2) write_file(".dnsforwarder/tpl.html", "no marker"); if (k >= 3) write_file(".dnsforwarder/tpl.html", "a<!-- INSERT HERE -->b"); else write_file(".dnsforwarder/x", "");
    boot("LogOn false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\nAppendHosts 5.5.5.5 h.org\nUseCache false\nDomainStatistic " + S(k == 3 ? "false" : "true") + "\nDomainStatisticTempletFile " + (k == 4 ? path("none/tpl.html") : path(".dnsforwarder/tpl.html")) + "\nStatisticUpdateInterval 20\n"); run(); size_t o = out.size();
    for (int i = 0; i < 3; i++) { udp_in(ME, SRV, encode(query(i + 1, i == 1 ? "u.org" : "h.org", A))); run(); advance(21000); } int n = 0; for (size_t i = o; i < out.size(); i++) n++; REQUIRE(n == 3, "the service does not work without statistics"); exec_done(std::to_string(k)); }
// queries while the report is written
extern "C" int sim_usleep(unsigned);
static void during() {
    int kind = choose(4, "kind"); W22 w("UDPGroup 1.1.1.1 * off\nUseCache false\nDisabledDomain r.org\nAppendHosts 5.5.5.5 h.org\n"); w.ask("h.org"); addc(w.want, "h.org", &Cnt::hosts); w.ask("r.org"); addc(w.want, "r.org", &Cnt::raf); w.report("first");
    int64_t e = w.every * 1000LL, rest = (w.t0 + ((now_ms - w.t0) / e + 1) * e) - now_ms; advance(rest - 500); w.fin(); w.ask("u.org"); REQUIRE(w.ups().size() == 1, "not forwarded"); Sent s = w.ups()[0]; Msg q; decode(s.data, q); Rep before = w.want;
    spawn([&] { sim_usleep(500 * 1000); udp_in("9.9.9.2:2222", SRV, encode(query(77, kind == 0 ? "h.org" : kind == 1 ? "n.r.org" : kind == 2 ? "r.org" : "*.r.org", A))); udp_reply(s, encode(dns::answer(q, {rrA("u.org", "7.7.7.7")}))); }, "world");
    sched_explore = true; delay_budget = g_thorough ? 4 : 2; lock_points = 1; advance(500); run(); addc(w.want, "u.org", &Cnt::udp); S third = kind == 0 ? "h.org" : kind == 1 ? "n.r.org" : kind == 2 ? "r.org" : "*.r.org"; addc(w.want, third, kind == 0 ? &Cnt::hosts : &Cnt::raf);
    // the report written meanwhile shows each of the two either before or after
    Report R = parse(read_file(".dnsforwarder/statistic.html")); int seen = 0; for (int k = 0; k < 4; k++) { Rep x = before; if (k & 1) x["u.org"] = w.want["u.org"]; if (k & 2) x[third] = w.want[third]; bool eq = x.size() == R.r.size(); for (auto &y : x) if (!R.r.count(y.first) || !(R.r[y.first] == y.second)) eq = false; if (eq) seen = k + 1; }
    REQUIRE(seen, "the report written while queries were handled is of no moment in between"); sched_explore = false; size_t n = 0; for (auto &o : out) n += o.dst == "9.9.9.2:2222"; REQUIRE(n == 1, "query not answered"); w.report("after the concurrent report"); exec_done(std::to_string(kind * 10 + seen)); }
void check_main() { explore("history", [] { history(g_thorough ? 4 : 3); }); explore("many", many); explore("odd-names", odd); explore("settings", settings); explore("without", without); explore("during", during); }
