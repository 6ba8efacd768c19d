// P21: configuration text. The real reader on every combination of lines and formats up to bounds, against the documented meaning; and the program on differently written configuration, hosts, list and group files.
#include "scn.h"
#include <string.h>
#include <algorithm>
#define HAVE_CONFIG_H 1
extern "C" {
#include "readconfig.h"
#include "utils.h"
}
using namespace sim;
typedef std::string S; typedef std::vector<S> L;
enum { NUM, BOOL_, LIST, ONE, PATH, PATHS };
struct Opt { const char *n; int k; MultilineStrategy st; };
static const Opt OPTS[] = {{"Num", NUM, STRATEGY_DEFAULT}, {"Neg", NUM, STRATEGY_DEFAULT}, {"Flag", BOOL_, STRATEGY_DEFAULT}, {"On", BOOL_, STRATEGY_DEFAULT}, {"List", LIST, STRATEGY_APPEND}, {"Dis", LIST, STRATEGY_APPEND_DISCARD_DEFAULT}, {"Grp", LIST, STRATEGY_APPEND_DISCARD_DEFAULT}, {"One", ONE, STRATEGY_DEFAULT}, {"Path", PATH, STRATEGY_REPLACE}, {"Paths", PATHS, STRATEGY_APPEND}};
enum { NO = sizeof OPTS / sizeof *OPTS };
struct Cfg { long num[NO]; L list[NO]; S raw[NO]; bool operator==(const Cfg &o) const { return !memcmp(num, o.num, sizeof num) && std::equal(list, list + NO, o.list); } };
static S show(const Cfg &c) { S r; for (int i = 0; i < NO; i++) { r += S(OPTS[i].n) + "="; if (OPTS[i].k <= BOOL_) r += std::to_string(c.num[i]); else for (auto &x : c.list[i]) r += "[" + (x.size() > 60 ? x.substr(0, 30) + "..(" + std::to_string(x.size()) + ").." + x.substr(x.size() - 20) : x) + "]"; r += " "; } return r; }
static Cfg defaults() { Cfg c; memset(c.num, 0, sizeof c.num); c.num[0] = 7; c.num[1] = -1; c.num[3] = 1; c.list[5] = {"d1", "d2"}; c.list[6] = {"UDP", "9.9.9.9", "*", "on"}; c.list[7] = {"one"}; c.list[8] = {"/p/d"}; return c; }
static Cfg actual(const S &text) {
    ConfigFileInfo ci; ConfigInitInfo(&ci); VType v; auto add = [&](const char *n, MultilineStrategy st, OptionType t) { REQUIRE(ConfigAddOption(&ci, n, st, t, v) == 0, "no option"); }; v.INT32 = 7; add("Num", STRATEGY_DEFAULT, TYPE_INT32); v.INT32 = -1; add("Neg", STRATEGY_DEFAULT, TYPE_INT32); v.boolean = FALSE; add("Flag", STRATEGY_DEFAULT, TYPE_BOOLEAN); v.boolean = TRUE; add("On", STRATEGY_DEFAULT, TYPE_BOOLEAN); v.str = NULL; add("List", STRATEGY_APPEND, TYPE_STRING); add("Dis", STRATEGY_APPEND_DISCARD_DEFAULT, TYPE_STRING); ConfigSetStringDelimiters(&ci, "Dis", ","); v.str = "d1,d2"; ConfigSetDefaultValue(&ci, v, "Dis"); v.str = NULL; add("Grp", STRATEGY_APPEND_DISCARD_DEFAULT, TYPE_STRING); ConfigSetStringDelimiters(&ci, "Grp", "\t "); v.str = "UDP 9.9.9.9 * on"; ConfigSetDefaultValue(&ci, v, "Grp"); ConfigAddAlias(&ci, "Grp", "GFile", "FILE", ""); ConfigAddAlias(&ci, "Grp", "GUdp", "UDP", NULL); v.str = "one"; add("One", STRATEGY_DEFAULT, TYPE_STRING); v.str = "/p/d"; add("Path", STRATEGY_REPLACE, TYPE_PATH); v.str = NULL; add("Paths", STRATEGY_APPEND, TYPE_PATH);
    static char none[2] = "\n"; ci.fp = fmemopen(text.size() ? (void *)text.data() : none, text.size() ? text.size() : 1, "r"); ConfigRead(&ci); ConfigCloseFile(&ci); Cfg c; memset(c.num, 0, sizeof c.num);
    for (int i = 0; i < NO; i++) { if (OPTS[i].k == NUM) c.num[i] = ConfigGetInt32(&ci, OPTS[i].n); else if (OPTS[i].k == BOOL_) c.num[i] = !!ConfigGetBoolean(&ci, OPTS[i].n); else { StringList *l = ConfigGetStringList(&ci, OPTS[i].n); const char *raw = ConfigGetRawString(&ci, OPTS[i].n); if (l) { StringListIterator it; StringListIterator_Init(&it, l); const char *s; while ((s = it.Next(&it))) c.list[i].push_back(s); REQUIRE(raw && c.list[i].size() && c.list[i][0] == raw, "single value and list differ"); REQUIRE(ConfigGetNumberOfStrings(&ci, OPTS[i].n) == (int)c.list[i].size(), "number of strings"); } else REQUIRE(!raw, "a value in an empty list"); } }
    for (int i = 0; i < NO; i++) if (OPTS[i].k >= PATH) { StringList *l = ConfigGetStringList(&ci, OPTS[i].n); if (l) l->Free(l); } ConfigFree(&ci); return c; }
static S trim(const S &s, const char *ws = " \t\r\n\v\f") { size_t a = s.find_first_not_of(ws); return a == s.npos ? "" : s.substr(a, s.find_last_not_of(ws) - a + 1); }
static L split(const S &x, const char *d) { L r = {""}; for (char c : x) if (d && *d && strchr(d, c)) r.push_back(""); else r.back() += c; L t; for (auto &y : r) { S z = trim(y, " \t\r\n"); if (z.size()) t.push_back(z); } return t; }
static const size_t CHUNK = 2047;
static bool unspecified; // a number or boolean cut by the end of the buffer
static void meaning(Cfg &c, bool *special, const S &raw, bool last) { // one line without its line end
    bool lng = raw.size() + (last || (raw.size() == CHUNK && raw.back() == '\r') ? 0 : 1) > CHUNK; S s = raw; size_t k = s.find_first_of("#;"); if (k != s.npos) { s = s.substr(0, k); lng = k >= CHUNK; } s = trim(s); size_t lead = raw.find_first_not_of(" \t"); if (lead >= CHUNK) return; size_t e = s.find_first_of(" \t="); if (e == s.npos || lead + e >= CHUNK) return; S n = s.substr(0, e), v = trim(s.substr(e + 1)); if (v.empty()) return; size_t vpos = lead + s.find_first_not_of(" \t", e + 1); if (vpos >= CHUNK) return;
    L pre; const char *d = ","; if (n == "GFile") { pre = {"FILE"}; d = ""; n = "Grp"; } else if (n == "GUdp") { pre = {"UDP"}; n = "Grp"; d = " \t"; } else if (n == "Grp") d = " \t"; 
    for (int i = 0; i < NO; i++) if (n == OPTS[i].n) if (OPTS[i].k <= BOOL_ && vpos + std::min(v.find_first_of(" \t"), v.size()) > CHUNK) { unspecified = true; break; } else switch (OPTS[i].k) { case NUM: c.num[i] = strtol(v.c_str(), 0, 10); break; case BOOL_: { S w; for (char x : v.substr(0, v.find_first_of(" \t"))) w += tolower(x); c.num[i] = w == "true" || w == "yes" || w == "1"; break; }
        case PATH: case PATHS: { if (lng) break; S w = trim(v, "\""); w = w.substr(0, w.find_first_of(" \t")); if (OPTS[i].k == PATH) c.list[i].clear(); c.list[i].push_back(w); break; }
        default: { L x = split(v, d); pre.insert(pre.end(), x.begin(), x.end()); if (OPTS[i].st != STRATEGY_APPEND && !(OPTS[i].st == STRATEGY_APPEND_DISCARD_DEFAULT && special[i])) c.list[i].clear(); c.list[i].insert(c.list[i].end(), pre.begin(), pre.end()); special[i] = true; } } }
static Cfg expected(const S &text) { Cfg c = defaults(); bool sp[NO] = {}; size_t p = 0; while (p < text.size()) { size_t e = text.find('\n', p); bool last = e == text.npos; meaning(c, sp, text.substr(p, (last ? text.size() : e) - p), last); if (last) break; p = e + 1; } return c; }
static S brief(const S &t) { S r; for (size_t i = 0; i < t.size(); i++) { size_t j = i; while (j < t.size() && t[j] == t[i]) j++; if (j - i > 12) { r += S(1, t[i]) + "{" + std::to_string(j - i) + "}"; i = j - 1; continue; } r += t[i] == '\n' ? S("\\n\n") : t[i] == '\r' ? S("\\r") : t[i] == '\t' ? S("\\t") : S(1, t[i]); } return r.size() > 700 ? r.substr(0, 350) + " ... " + r.substr(r.size() - 350) : r; }
static void same(const S &t) { unspecified = false; Cfg w = expected(t), g = actual(t); if (unspecified) return; count_eval(1); count_states(1); REQUIRE(w == g, "the options are\n  %s\ninstead of\n  %s\nafter reading\n%s", show(g).c_str(), show(w).c_str(), brief(t).c_str()); }
static const L LINES = {"Num 5", "Num 12345", "Neg -3", "Neg 0", "Flag true", "Flag false", "On false", "On TRUE", "On no", "Flag yes", "Flag 1", "On 0", "List a", "List b,c d, e", "Dis x", "Dis y,z", "Grp UDP 1.1.1.1 a.com,b.com off", "GUdp 2.2.2.2 * on", "GFile /a/b.txt", "One two", "Path /x/y.txt", "Path \"/q/z\"", "Paths /h1", "Paths http://a/b", "Unknown 1", "Num", "Flag", "List", "Dis", "Path", "Numx 9", "num 9", "XNum 9", "", "Grp"};
static void formats() { // every way to write a line, before and after another
    int k = choose(LINES.size(), "line"), o = choose(6, "neighbour"); const char *NB[] = {"", "Num 3\n", "List n1,n2\n", "Dis n\n", "Unknown x\n", "# Num 4\n\n;Num 6\n"}; L lead = {"", " ", "\t ", "  \t"}, sep = {" ", "\t", " \t  ", "="}, trail = {"", " ", "\t \t"}, com = {"", "#", "#c", " # Num 8", ";Num 8", " ; a # b", "# a ; b", " ; a ; b"}, eol = {"\n", "\r\n", "\n\n", "\r\n\r\n"};
    for (auto &a : lead) for (auto &b : sep) for (auto &c : trail) for (auto &d : com) for (auto &e : eol) { S l = LINES[k]; size_t p = l.find(' '); if (p != l.npos) l = l.substr(0, p) + b + l.substr(p + 1); S t = a + l + c + d; same(NB[o] + t + e + NB[(o + 1) % 6]); same(S(NB[o]) + t); count_transitions(1); } exec_done(LINES[k] + "/" + std::to_string(o)); }
static void sequences(int n) { int a = choose(LINES.size(), "first"), b = choose(LINES.size(), "second"); std::vector<int> v = {a, b}; uint64_t c = 0; static const L E = {"\n", "\r\n", " # x\n", "\t;y\n\n"}; std::function<void()> rec = [&] { S t; for (int i : v) t += LINES[i] + E[(c / 3 + i) % 4]; if (c % 3 == 0) t.pop_back(); c++; same(t); if ((int)v.size() < n) for (int i = 0; i < (int)LINES.size(); i++) { v.push_back(i); rec(); v.pop_back(); } }; rec(); count_transitions(c); exec_done(LINES[a] + LINES[b]); }
// overlong lines of every length around the multiples of the buffer
static void overlong(int chunks) {
    static const L HEAD = {"Num 5 ", "Flag true ", "List a", "List ", "List ,", "List ,,", "Dis x", "Grp UDP 1.1.1.1 a", "GFile /a", "GUdp 1.1.1.1 a", "One two", "Path /x", "Paths /y", "Unknown q", "Unknown ", "q", " ", "#", ";", " Num 6 ", "  List u", "Num 5 #"}, FILL = {"z", " ", ",", "b,", "c ", "\t", "# ", "; "}, TAIL = {"", " Num 99", "Num 99", ",t", " on", " # c", ";c", " ", "\r"}, NEXT = {"", "\n", "\nNum 42\n", "\nList n\n", "\n\nDis n"}; int h = choose(HEAD.size(), "head"), f = choose(FILL.size(), "fill"), c = 1 + choose(chunks, "chunks");
    for (auto &t : TAIL) for (auto &n : NEXT) for (int d = -6; d <= 6; d++) { size_t len = CHUNK * c + d; if (c > 1 && (d < -2 || d > 3) && !g_thorough) continue; for (int at = 0; at < 2; at++) { S s = HEAD[h]; size_t body = len - (at ? t.size() : 0); while (s.size() < body) s += FILL[f]; s.resize(body); s += t; same(s + n); count_transitions(1); } } exec_done(HEAD[h] + "/" + std::to_string(f) + "/" + std::to_string(c)); }
// booleans and numbers
static void values() { static const L V = {"true", "false", "TRUE", "False", "tRuE", "fALSE", "yes", "no", "YES", "No", "1", "0"}, N = {"0", "1", "-1", "5", "007", "65536", "2147483647", "-2147483648", "+3", "18000"}; int k = choose(V.size() + N.size(), "value"); for (S pad : {"", " ", "\t", " # x"}) for (S e : {"", "\n", "\r\n"}) for (int again = 0; again < 3; again++) { if (k < (int)V.size()) { for (S o : {"Flag ", "On "}) same((again == 1 ? o + "true\n" : again == 2 ? o + "false\n" : "") + o + V[k] + pad + e); } else for (S o : {"Num ", "Neg "}) same((again ? o + "77\n" : S("")) + o + N[k - V.size()] + pad + e); } exec_done(std::to_string(k)); }
// ---- the program: the same configuration written differently behaves the same
static const L PROG = {"LogOn false", "UDPLocal 127.0.0.1:53,127.0.0.2:54", "TCPLocal 127.0.0.3:55", "UDPGroup 1.1.1.1 * off", "UDPGroup 2.2.2.2:99 u.org,v.org off", "DisabledType 28,16", "DisabledDomain dis.org,dat.org", "AppendHosts 4.5.6.7 h.org,4.5.6.8 i.org", "BlockIP 6.6.6.6", "IPSubstituting 7.7.7.7 8.8.8.8", "UseCache true", "OverrideTTL 500", "CacheSize 204800", "CacheControl c.org fixed 900", "BlockNegativeResponse true"};
static S behave() {
    S r; int id = 0; auto ask = [&](const char *n, int t, const char *ip, int rcode) { size_t o = out.size(); dns::Msg q = dns::query(++id, n, t); udp_in("9.9.9.1:1111", "127.0.0.2:54", encode(q)); sim::run(); r += S(n) + std::to_string(t) + ":"; if (out.size() == o) { r += "nothing "; return; } Sent s = out[o]; if (s.dst != "9.9.9.1:1111") { r += "to " + s.dst; if (ip) { dns::Msg a = dns::answer(q, {dns::rrA(n, ip, 100)}, rcode); if (rcode) a.an.clear(); o = out.size(); udp_reply(s, encode(a)); sim::run(); if (out.size() == o) { r += " dropped "; return; } s = out[o]; } else return; } dns::Msg m; REQUIRE(dns::decode(s.data, m), "malformed reply"); r += " rcode" + std::to_string(m.rcode()); for (auto &x : m.an) r += "," + (x.rdata.size() == 4 ? dns::hex(x.rdata) : S("?")) + "/" + std::to_string(x.ttl); r += " "; };
    ask("a.org", 1, "1.2.3.4", 0); ask("a.org", 1, "1.2.3.5", 0); ask("u.org", 1, "1.2.3.4", 0); ask("w.v.org", 1, "1.2.3.4", 0); ask("c.org", 1, "1.2.3.4", 0); ask("c.org", 1, "1.2.3.5", 0); ask("b.org", 28, "1.2.3.4", 0); ask("b.org", 16, "1.2.3.4", 0); ask("dis.org", 1, "1.2.3.4", 0); ask("x.dat.org", 1, "1.2.3.4", 0); ask("h.org", 1, "1.2.3.4", 0); ask("i.org", 1, "1.2.3.4", 0); ask("d.org", 1, "6.6.6.6", 0); ask("e.org", 1, "7.7.7.7", 0); ask("f.org", 1, "1.2.3.4", 3); advance(200000); ask("a.org", 1, "1.2.3.6", 0); advance(330000); ask("a.org", 1, "1.2.3.6", 0); ask("c.org", 1, "1.2.3.7", 0); return r; }
static const char *FULL = "t127.0.0.3:55 u127.0.0.1:53 u127.0.0.2:54 | a.org1:to 1.1.1.1:53 rcode0,01020304/100 a.org1: rcode0,01020304/500 u.org1:to 2.2.2.2:99 rcode0,01020304/100 w.v.org1:to 2.2.2.2:99 rcode0,01020304/100 c.org1:to 1.1.1.1:53 rcode0,01020304/100 c.org1: rcode0,01020304/900 b.org28: rcode0 b.org16: rcode0 dis.org1: rcode0 x.dat.org1: rcode0 h.org1: rcode0,04050607/60 i.org1: rcode0,04050608/60 d.org1:to 1.1.1.1:53 dropped e.org1:to 1.1.1.1:53 rcode0,08080808/100 f.org1:to 1.1.1.1:53 dropped a.org1: rcode0,01020304/300 a.org1:to 1.1.1.1:53 rcode0,01020306/100 c.org1: rcode0,01020304/370 ";
static void program() {
    int way = choose(40, "way"); std::vector<Addr> b; on_bind = [&](const Addr &a, bool tcp) { if (a.find("127.0.0.1:10") == a.npos && a != "[::1]:0" && a.find("[::1]:10") == a.npos) b.push_back((tcp ? "t" : "u") + a); }; S c; L l = PROG; int n = l.size();
    if (way >= 1 && way <= 14) std::rotate(l.begin(), l.begin() + way, l.end()); if (way == 15) std::reverse(l.begin(), l.end());
    if (way == 16) { l.push_back("UDPLocal"); l.push_back("TCPLocal"); l.push_back("UDPGroup"); l.push_back("DisabledType"); l.push_back("UseCache"); l.push_back("OverrideTTL"); l.push_back("CacheSize"); l.push_back("BlockIP"); l.push_back("TCPGroup"); l.push_back("GroupFile"); l.push_back("Hosts"); l.push_back("DisabledList"); l.push_back("BlockNegativeResponse"); }
    if (way == 17) for (S x : {"OverrideTTL 3", "UseCache false", "CacheSize 102400", "LogOn true", "BlockNegativeResponse false"}) l.insert(l.begin(), x); // replaced later
    if (way == 18) { L m; for (auto &x : l) { size_t sp = x.find(' '), co = x.find(',', sp); if (co == x.npos || x.find("Group") != x.npos || x.find("Cache") != x.npos) { m.push_back(x); continue; } S name = x.substr(0, sp); size_t p = sp + 1; while (p != S::npos) { size_t e = x.find(',', p); m.push_back(name + " " + x.substr(p, e == S::npos ? e : e - p)); p = e == S::npos ? e : e + 1; } } l = m; }
    for (int i = 0; i < (int)l.size(); i++) { S x = l[i], e = "\n"; size_t sp = x.find(' '); switch (way) { case 19: x = "  " + x; break; case 20: x = "\t" + x; break; case 21: if (sp != x.npos) x.insert(sp, "\t \t"); break; case 22: x += "  \t"; break; case 23: x += " # comment"; break; case 24: x += ";comment"; break; case 25: x += " ; comment # more"; break; case 26: e = "\r\n"; break; case 27: e = "\n\n# Num\n"; break; case 28: e = i + 1 == (int)l.size() ? "" : "\n"; break; case 29: e = "\nUnknownOption 5\nOverrideTTLx 5\nXUDPLocal 127.0.0.9:9\n"; break; case 30: e = "\n#" + S(3000, 'x') + "\n"; break; case 31: e = "\nUnknownOption " + S(2031, 'x') + "\n"; break; case 32: e = "\nUnknownOption " + S(2032, 'x') + "\n"; break; case 33: e = "\nUnknownOption " + S(2033, 'x') + "\n"; break; case 34: e = "\nUnknownOption " + S(2032, 'y') + "UseCache false\n"; break; case 35: e = "\nUnknownOption " + S(4079, 'y') + " \n"; break; case 36: if (x == "OverrideTTL 500" || x.find("UseCache") == 0) x += S(2040, ' ') + "CacheSize 1"; break; case 37: if (x.find("DisabledDomain") == 0) { for (int k = 0; k < 300; k++) x += ",name" + std::to_string(k) + ".net"; } break; case 38: for (auto &ch : x) if (ch == ',' && x.find("Group") == S::npos) { size_t p = 0; while ((p = x.find(',', p)) != S::npos) { x.replace(p, 1, " , "); p += 3; } break; } break; case 39: if (x.find("UDPGroup 2.2.2.2") == 0) { S d; for (int k = 0; k < 300; k++) d += ",name" + std::to_string(k) + ".net"; x = "UDPGroup 2.2.2.2:99 u.org" + d + ",v.org off"; } break; } c += x + e; }
    note("%s", brief(c).c_str()); boot(c); sim::run(); S r; std::sort(b.begin(), b.end()); for (auto &x : b) r += x + " "; r += "| " + behave(); count_eval(1); note("%s", r.c_str());
    REQUIRE(r == FULL, "written in way %d, the configuration behaves as\n%s\ninstead of\n%s", way, r.c_str(), FULL); exec_done(r + std::to_string(way)); }
// ---- lists in files: overlong lines of every length and shape leave the other lines alone
static void files() {
    int kind = choose(5, "kind"), style = choose(9, "shape"), crlf = choose(2, "crlf"), part = choose(8, "lengths"); private_files = true; std::vector<int> len; static const int B[] = {128, 320, 384, 512}; std::set<int> all; if (g_thorough) for (int n = 100; n < 1700; n++) all.insert(n); else for (int b : B) for (int c : B) for (int k : {0, 1, 2}) for (int d = -5; d <= 5; d++) if (b * k + c <= 1300) all.insert(b * k + c + d); for (int n : all) if (n % 8 == part) len.push_back(n); 
    S t, e = crlf ? "\r\n" : "\n"; auto name = [&](int i) { return "g" + std::to_string(i) + ".org"; }; auto rule = [&](int i) { S n = name(i); return kind == 0 ? "4.5.6.7 " + n : kind == 4 ? "10.0." + std::to_string(i / 256) + "." + std::to_string(i % 256) + " 4.5.6.7" : n; };
    std::set<int> both; int idx = 0; for (int n : len) { t += rule(idx++) + e; S l, fill(n, 'x'); switch (style) { case 0: l = fill; break; case 1: l = fill.substr(0, n / 2) + S(n - n / 2, ' '); break; case 2: l = S(n, ' '); break; case 3: for (int i = 0; i < n; i++) l += i % 2 ? ' ' : 'x'; break; case 4: l = rule(idx++) + " #" + fill; l.resize(n); break; case 5: l = "#" + fill.substr(1); break; case 6: l = fill.substr(0, n - 1) + "#"; break; case 7: l = fill.substr(0, n - 3) + "  ;"; break; case 8: l = rule(idx++) + " ;" + fill; l.resize(n); break; } t += l + e; } t += rule(idx++); if (part & 1) t += e;
    S c = "LogOn false\nUseCache false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1 * off\n"; write_file("SubDir/x", ""); if (kind == 0) { write_file("src.txt", t); write_file("Hosts.txt", t); c += "Hosts file://" + path("src.txt") + "\nHostsDownloadPath " + path("Hosts.txt") + "\n"; } else if (kind == 1) { write_file("Dis.txt", t); c += "DisabledList " + path("Dis.txt") + "\n"; } else if (kind == 4) { write_file("Sub.txt", t); c += "IPSubstitutingFile \"" + path("Sub.txt") + "\"\n"; } else { S g = "PROTOCOL UDP" + e + "; c" + e + " SERVER\t3.3.3.3 # x" + e + "PARALLEL=off" + e; if (kind == 3) { write_file("DomList.txt", t); g += "LIST " + path("DomList.txt") + e; } else g += t; write_file("Group.txt", g); c += "GroupFile " + path("Group.txt") + "\n"; }
    boot(c); sim::run(); count_states(len.size()); for (int i = 0; i < idx; i++) { S n = kind == 4 ? S("q.org") : name(i); size_t o = out.size(); dns::Msg q = dns::query(i + 1, n, dns::A); udp_in("9.9.9.1:1111", "127.0.0.1:53", encode(q)); sim::run(); count_eval(1); REQUIRE(out.size() == o + 1, "%s: no reaction", n.c_str()); Sent s = out[o]; dns::Msg m; bool ok = false; switch (kind) { case 0: ok = s.dst == "9.9.9.1:1111" && dns::decode(s.data, m) && m.an.size() == 1; break; case 1: ok = s.dst == "9.9.9.1:1111" && dns::decode(s.data, m) && m.an.empty(); break; case 2: case 3: ok = s.dst == "3.3.3.3:53"; break; case 4: udp_reply(s, encode(dns::answer(q, {dns::rrA("q.org", ("10.0." + std::to_string(i / 256) + "." + std::to_string(i % 256)).c_str())}))); sim::run(); ok = out.size() == o + 2 && dns::decode(out[o + 1].data, m) && m.an.size() == 1 && m.an[0].rdata == dns::ip4("4.5.6.7"); break; }
        REQUIRE(ok, "rule %d (\"%s\") of the file has no effect\n%s", i, rule(i).c_str(), brief(t).c_str()); } exec_done(std::to_string(kind) + std::to_string(style) + std::to_string(crlf) + std::to_string(part)); }
void check_main() { explore("values", values); explore("formats", formats); explore("sequences", [] { sequences(g_thorough ? 4 : 3); }); explore("overlong", [] { overlong(g_thorough ? 4 : 3); }); explore("program", program); explore("files", files); }
