// Independent reference DNS codec used by the oracles.
#pragma once
#include "sim.h"
#include <string.h>
#include <stdio.h>
namespace dns {
enum { A = 1, NS = 2, CNAME = 5, SOA = 6, PTR = 12, MX = 15, TXT = 16, AAAA = 28, OPT = 41 };
struct RR { std::string name; int type = A; int klass = 1; uint32_t ttl = 0; bytes rdata; // names inside rdata are kept uncompressed
    bool operator==(const RR &o) const { return name == o.name && type == o.type && klass == o.klass && ttl == o.ttl && rdata == o.rdata; }
    bool operator<(const RR &o) const { if (name != o.name) return name < o.name; if (type != o.type) return type < o.type; if (rdata != o.rdata) return rdata < o.rdata; return ttl < o.ttl; } };
struct Q { std::string name; int type = A; int klass = 1; };
struct Msg { int id = 0; int flags = 0; std::vector<Q> qd; std::vector<RR> an, ns, ar;
    bool qr() const { return flags & 0x8000; } int rcode() const { return flags & 15; } bool ra() const { return flags & 0x80; } };
inline void p16(bytes &b, int v) { b += (char)(v >> 8); b += (char)v; }
inline void p32(bytes &b, uint32_t v) { p16(b, v >> 16); p16(b, v & 0xffff); }
inline int g16(const bytes &b, size_t o) { return (unsigned char)b[o] << 8 | (unsigned char)b[o + 1]; }
inline uint32_t g32(const bytes &b, size_t o) { return (uint32_t)g16(b, o) << 16 | g16(b, o + 2); }
inline bytes ename(const std::string &n) { bytes b; size_t i = 0; if (n.empty() || n == ".") return bytes(1, '\0'); while (i <= n.size()) { size_t j = n.find('.', i); if (j == std::string::npos) j = n.size(); b += (char)(j - i); b += n.substr(i, j - i); if (j == n.size()) break; i = j + 1; if (i == n.size()) break; } b += '\0'; return b; }
inline bytes err(const RR &r) { bytes b = ename(r.name); p16(b, r.type); p16(b, r.klass); p32(b, r.ttl); p16(b, r.rdata.size()); return b + r.rdata; }
inline bytes encode(const Msg &m) { bytes b; p16(b, m.id); p16(b, m.flags); p16(b, m.qd.size()); p16(b, m.an.size()); p16(b, m.ns.size()); p16(b, m.ar.size());
    for (auto &q : m.qd) { b += ename(q.name); p16(b, q.type); p16(b, q.klass); } for (auto &r : m.an) b += err(r); for (auto &r : m.ns) b += err(r); for (auto &r : m.ar) b += err(r); return b; }
// encode with compression pointers to the question name for owner names equal to it
inline bytes encode_c(const Msg &m) { bytes b; p16(b, m.id); p16(b, m.flags); p16(b, m.qd.size()); p16(b, m.an.size()); p16(b, m.ns.size()); p16(b, m.ar.size()); std::map<std::string,int> off;
    auto nm = [&](const std::string &s) { std::string r = s; while (!r.empty()) { auto it = off.find(r); if (it != off.end()) { p16(b, 0xC000 | it->second); return; } if (b.size() < 0x3fff) off[r] = b.size(); size_t d = r.find('.'); std::string l = r.substr(0, d); b += (char)l.size(); b += l; if (d == std::string::npos) r = ""; else r = r.substr(d + 1); } b += '\0'; };
    auto rr = [&](const RR &x) { nm(x.name); p16(b, x.type); p16(b, x.klass); p32(b, x.ttl); p16(b, x.rdata.size()); b += x.rdata; };
    for (auto &q : m.qd) { nm(q.name); p16(b, q.type); p16(b, q.klass); } for (auto &r : m.an) rr(r); for (auto &r : m.ns) rr(r); for (auto &r : m.ar) rr(r); return b; }
inline bool dname(const bytes &b, size_t &o, std::string &out) { out.clear(); size_t p = o; bool jumped = false; int hops = 0; size_t total = 0;
    for (;;) { if (p >= b.size()) return false; unsigned c = (unsigned char)b[p]; if ((c & 0xC0) == 0xC0) { if (p + 1 >= b.size()) return false; size_t t = (c & 0x3f) << 8 | (unsigned char)b[p + 1]; if (!jumped) o = p + 2; jumped = true; if (t >= p || ++hops > 64) return false; p = t; continue; } if (c & 0xC0) return false; if (c == 0) { if (!jumped) o = p + 1; return true; } if (p + 1 + c > b.size()) return false; total += c + 1; if (total > 255) return false; if (!out.empty()) out += '.'; out += b.substr(p + 1, c); p += c + 1; } }
inline bool drr(const bytes &b, size_t &o, RR &r) { if (!dname(b, o, r.name)) return false; if (o + 10 > b.size()) return false; r.type = g16(b, o); r.klass = g16(b, o + 2); r.ttl = g32(b, o + 4); size_t n = g16(b, o + 8); o += 10; if (o + n > b.size()) return false; size_t e = o + n;
    if (r.type == CNAME || r.type == NS || r.type == PTR) { std::string s; size_t q = o; if (!dname(b, q, s) || q != e) return false; r.rdata = ename(s); }
    else if (r.type == MX) { if (n < 3) return false; std::string s; size_t q = o + 2; if (!dname(b, q, s) || q != e) return false; r.rdata = b.substr(o, 2) + ename(s); }
    else if (r.type == SOA) { std::string s, t; size_t q = o; if (!dname(b, q, s) || !dname(b, q, t) || q + 20 != e) return false; r.rdata = ename(s) + ename(t) + b.substr(q, 20); }
    else { if (r.type == A && r.klass == 1 && n != 4) return false; if (r.type == AAAA && r.klass == 1 && n != 16) return false; r.rdata = b.substr(o, n); }
    o = e; return true; }
inline bool decode(const bytes &b, Msg &m, std::string *why = nullptr) { m = Msg(); if (b.size() < 12) { if (why) *why = "short header"; return false; } m.id = g16(b, 0); m.flags = g16(b, 2); size_t o = 12; int n[4]; for (int i = 0; i < 4; i++) n[i] = g16(b, 4 + 2 * i);
    for (int i = 0; i < n[0]; i++) { Q q; if (!dname(b, o, q.name) || o + 4 > b.size()) { if (why) *why = "bad question"; return false; } q.type = g16(b, o); q.klass = g16(b, o + 2); o += 4; m.qd.push_back(q); }
    for (int s = 0; s < 3; s++) for (int i = 0; i < n[s + 1]; i++) { RR r; if (!drr(b, o, r)) { if (why) *why = "bad record in section " + std::to_string(s); return false; } (s == 0 ? m.an : s == 1 ? m.ns : m.ar).push_back(r); }
    if (o != b.size()) { if (why) *why = "trailing bytes"; return false; } return true; }
inline RR opt(int size = 1280) { RR r; r.name = ""; r.type = OPT; r.klass = size; r.ttl = 0; return r; }
inline Msg query(int id, const std::string &name, int type, bool edns = false) { Msg m; m.id = id; m.flags = 0x0100; m.qd.push_back({name, type, 1}); if (edns) m.ar.push_back(opt(4096)); return m; }
inline bytes ip4(const char *s) { unsigned a, b, c, d; sscanf(s, "%u.%u.%u.%u", &a, &b, &c, &d); bytes r; r += (char)a; r += (char)b; r += (char)c; r += (char)d; return r; }
inline RR rrA(const std::string &n, const char *ip, uint32_t ttl = 300) { RR r; r.name = n; r.type = A; r.ttl = ttl; r.rdata = ip4(ip); return r; }
inline RR rrAAAA(const std::string &n, const bytes &ip, uint32_t ttl = 300) { RR r; r.name = n; r.type = AAAA; r.ttl = ttl; r.rdata = ip; return r; }
inline RR rrName(int type, const std::string &n, const std::string &t, uint32_t ttl = 300) { RR r; r.name = n; r.type = type; r.ttl = ttl; r.rdata = ename(t); return r; }
inline RR rrTXT(const std::string &n, const std::string &t, uint32_t ttl = 300) { RR r; r.name = n; r.type = TXT; r.ttl = ttl; r.rdata = bytes(1, (char)t.size()) + t; return r; }
inline RR rrMX(const std::string &n, int pref, const std::string &t, uint32_t ttl = 300) { RR r; r.name = n; r.type = MX; r.ttl = ttl; p16(r.rdata, pref); r.rdata += ename(t); return r; }
inline Msg answer(const Msg &q, const std::vector<RR> &an, int rcode = 0) { Msg m; m.id = q.id; m.flags = 0x8180 | rcode; m.qd = q.qd; m.an = an; return m; }
inline std::string hex(const bytes &b) { std::string s; char t[4]; for (unsigned char c : b) { snprintf(t, 4, "%02x", c); s += t; } return s; }
inline std::string str(const RR &r) { return r.name + "/" + std::to_string(r.type) + "/" + std::to_string(r.klass) + "/" + std::to_string(r.ttl) + "/" + hex(r.rdata); }
inline std::string str(const Msg &m) { char b[64]; snprintf(b, sizeof b, "id=%04x fl=%04x", m.id, m.flags); std::string s = b; for (auto &q : m.qd) s += " Q:" + q.name + "/" + std::to_string(q.type); for (auto &r : m.an) s += " AN:" + str(r); for (auto &r : m.ns) s += " NS:" + str(r); for (auto &r : m.ar) s += " AR:" + str(r); return s; }
inline std::string show(const bytes &b) { Msg m; std::string w; if (decode(b, m, &w)) return str(m); return "undecodable(" + w + ") " + hex(b); }
inline std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
}
