// Reference model of the record cache, shared by P10..P13.
#pragma once
#include "scn.h"
struct CRec { std::string owner; int type; bytes rdata; uint32_t ttl; int64_t added; };
struct CModel {
    std::vector<CRec> recs; std::map<std::pair<std::string,int>, std::vector<bytes>> last; /* what the latest message with such records held */ bool ignore_ttl = false, parallel = false, multi = false /* keep every reception: the store may have forgotten some */, partial_ok = false; int64_t slack = 1000, late = 0 /* how long after its expiry a record may still be served */; std::function<uint64_t(const std::string &, const std::string &, uint32_t)> eff; /* lifetime from the question, owner and received TTL */
    static bool cacheable(int t) { return t == 1 || t == 28 || t == 65 || t == 16 || t == 5 || t == 12 || t == 2 || t == 15; }
    // state of a record: 1 valid, 0 expired, 2 either (less than a second before its expiry)
    int state(const CRec &r) const { if (r.ttl == 0) return 0; if (ignore_ttl) return 1; int64_t e = now_ms - r.added; if (e >= (int64_t)r.ttl * 1000 + (parallel ? slack : late)) return 0; if (e < (int64_t)r.ttl * 1000 - slack) return 1; return 2; }
    void add(dns::RR r, const std::string &qn) { if (eff) r.ttl = (uint32_t)eff(qn, dns::lower(r.name), r.ttl); if (!cacheable(r.type) || r.klass != 1 || !r.ttl) return; for (auto &x : recs) if (!multi && x.owner == r.name && x.type == r.type && x.rdata == r.rdata) { int s = state(x); if (s == 1) return; if (s == 0) { x.ttl = r.ttl; x.added = now_ms; return; } } uint32_t ttl = r.ttl; if (parallel) { for (auto &x : recs) if (x.owner == r.name && x.type == r.type && state(x)) { int64_t left = ((int64_t)x.ttl * 1000 - (now_ms - x.added)) / 1000; if (left < 0) left = 0; if (left < ttl) ttl = left; } for (auto &x : recs) if (x.owner == r.name && x.type == r.type && state(x)) { x.ttl = ttl; x.added = now_ms; } } recs.push_back({r.name, r.type, r.rdata, ttl, now_ms}); }
    void add(const dns::Msg &m) { for (auto *s : {&m.an, &m.ns, &m.ar}) for (auto &r : *s) last[{r.name, r.type}].clear(); for (auto *s : {&m.an, &m.ns, &m.ar}) for (auto &r : *s) { last[{r.name, r.type}].push_back(r.rdata); add(r, m.qd.size() ? dns::lower(m.qd[0].name) : ""); } }
    std::vector<const CRec *> find(const std::string &n, int t) const { std::vector<const CRec *> v; for (auto &r : recs) if (r.type == t && r.owner == n && state(r)) v.push_back(&r); return v; }
    static std::string cname_of(const bytes &rd) { size_t o = 0; std::string s; dns::dname(rd, o, s); return s; }
    // can / must the cache answer this question
    bool must(const std::string &name, int type) const { std::string n = name; for (int h = 0; h < 20; h++) { auto c = type == 5 ? std::vector<const CRec *>() : find(n, 5); if (c.empty()) { auto f = find(n, type); if (f.empty()) return false; for (auto *r : f) if (state(*r) == 2 || r->rdata.size() > 200) return false; return true; } if (c.size() > 1 || state(*c[0]) == 2) return false; n = cname_of(c[0]->rdata); } return false; }
    // is m an acceptable answer from the cache? returns "" or the complaint
    std::string judge(const dns::Msg &q, const dns::Msg &m) const {
        if (!same_q(q, m) || !m.qr()) return "ID or question differ"; if (m.rcode()) return "response code"; if (m.ns.size()) return "authority records"; size_t o = 0; for (auto &r : m.ar) o += r.type == 41; if (o != m.ar.size() || o != (q.ar.size() ? 1u : 0u)) return "EDNS differs from the query";
        std::string n = dns::lower(q.qd[0].name); int type = q.qd[0].type; size_t i = 0; auto eq = [&](const CRec &c, const dns::RR &r) { return dns::lower(c.owner) == dns::lower(r.name) && c.type == r.type && r.klass == 1 && c.rdata == r.rdata; };
        auto ttl_ok = [&](const CRec &c, const dns::RR &r) { if (ignore_ttl) return r.ttl == c.ttl; int64_t left = (int64_t)c.ttl * 1000 - (now_ms - c.added); return (int64_t)r.ttl * 1000 <= left + slack && (partial_ok || (int64_t)r.ttl * 1000 >= left - slack); };
        if (type != 5) for (int h = 0; i < m.an.size() && m.an[i].type == 5; h++, i++) { const dns::RR &r = m.an[i]; if (dns::lower(r.name) != n) return "alias chain broken at " + dns::str(r); bool f = false; for (auto &c : recs) if (state(c) && eq(c, r) && ttl_ok(c, r)) f = true; if (!f) return "alias record was not received, has expired or shows another time-to-live: " + dns::str(r); n = dns::lower(cname_of(r.rdata)); if (h > 30) return "endless alias chain"; }
        if (i == m.an.size()) return "no record of the type asked for";
        std::vector<const CRec *> used; for (; i < m.an.size(); i++) { const dns::RR &r = m.an[i]; if (dns::lower(r.name) != n || r.type != type) return "record of another name or type: " + dns::str(r); const CRec *f = nullptr; for (auto &c : recs) if (state(c) && eq(c, r) && ttl_ok(c, r)) f = &c; if (!f) return "record was not received, has expired or shows another time-to-live: " + dns::str(r); for (auto *u : used) if (u->rdata == f->rdata) return "record given twice: " + dns::str(r); used.push_back(f); }
        if (!partial_ok) for (auto &c : recs) if (state(c) == 1 && c.type == type && c.owner == (used[0]->owner)) { bool f = false; for (auto *u : used) f |= u == &c || u->rdata == c.rdata; if (!f && c.rdata.size() > 200) { /* may be too large to be kept: only a set it was last received in is incomplete without it */ auto l = last.find({c.owner, c.type}); f = l == last.end() || std::find(l->second.begin(), l->second.end(), c.rdata) == l->second.end(); } if (!f) return "incomplete: " + c.owner + "/" + std::to_string(type) + " lacks " + dns::hex(c.rdata); }
        return ""; }
};
// one client query through the running program; if it is forwarded the datagram is left in *up
struct CWorld {
    CModel M; std::string obs; int id = 100; size_t seen = 0; uint64_t hits = 0, misses = 0; std::string upstream = "8.8.8.8:53";
    bool ask(const std::string &n, int t, bool edns, Sent *up, bool want_hit = true) {
        dns::Msg q = dns::query(id++, n, t, edns); bytes b = dns::encode(q); udp_in("9.9.9.1:1111", "127.0.0.1:53", b); run(); std::vector<Sent> ups; std::vector<bytes> rep; for (; seen < out.size(); seen++) if (out[seen].dst == upstream) ups.push_back(out[seen]); else rep.push_back(out[seen].data);
        count_eval(1); if (rep.size() + ups.size() != 1) for (auto &o : out) note("datagram at %lld to %s: %s", (long long)o.t, o.dst.c_str(), dns::hex(o.data).c_str()); REQUIRE(rep.size() + ups.size() == 1, "%s: %zu replies and %zu upstream queries", dns::str(q).c_str(), rep.size(), ups.size());
        if (ups.size()) { misses++; REQUIRE(ups[0].data == b, "%s was not forwarded unchanged: %s", dns::str(q).c_str(), dns::hex(ups[0].data).c_str()); if (want_hit && M.must(n, t)) fail("%s is in the cache but was forwarded", dns::str(q).c_str()); if (up) *up = ups[0]; return false; }
        hits++; dns::Msg m; std::string why; REQUIRE(dns::decode(rep[0], m, &why), "undecodable reply (%s): %s", why.c_str(), dns::hex(rep[0]).c_str()); note("t=%lld from cache: %s", (long long)now_ms, dns::str(m).c_str()); std::string c = M.judge(q, m); REQUIRE(c.empty(), "%s answered from the cache with %s: %s", dns::str(q).c_str(), dns::str(m).c_str(), c.c_str()); return true; }
    void reply(const Sent &s, const dns::Msg &m, bool comp = true) { note("t=%lld upstream answers %s", (long long)now_ms, dns::str(m).c_str()); bytes b = comp ? dns::encode_c(m) : dns::encode(m); REQUIRE(udp_reply(s, b), "harness: answer not deliverable"); run(); bool got = false; for (; seen < out.size(); seen++) if (out[seen].data == b) got = true; else fail("unexpected datagram to %s: %s", out[seen].dst.c_str(), dns::show(out[seen].data).c_str()); REQUIRE(got, "answer was not relayed: %s", dns::str(m).c_str()); }
};
// record number k of the type
inline dns::RR crec(const std::string &n, int t, int k, uint32_t ttl) {
    dns::RR r; r.name = n; r.type = t; r.ttl = ttl; char ip[32]; snprintf(ip, sizeof ip, "10.0.%d.%d", (int)n.size(), k);
    switch (t) { case 1: r.rdata = dns::ip4(ip); break; case 28: r.rdata = bytes(12, '\x20') + dns::ip4(ip); break; case 5: r.rdata = dns::ename("c" + std::to_string(k) + "." + n); break; case 2: r.rdata = dns::ename("ns" + std::to_string(k) + ".example.net"); break; case 12: r.rdata = dns::ename("Host" + std::to_string(k) + ".example.net"); break;
    case 15: dns::p16(r.rdata, 10 + k); r.rdata += dns::ename("mx" + std::to_string(k) + "." + n); break; case 16: r.rdata = bytes(1, '\x03') + "abc"; for (int i = 0; i < k; i++) r.rdata += bytes(1, '\x02') + "de"; break; case 65: dns::p16(r.rdata, 1); r.rdata += '\0'; for (int i = 0; i < k; i++) { dns::p16(r.rdata, 1 + i); dns::p16(r.rdata, 3); r.rdata += bytes(1, '\x02') + "h2"; } break;
    case 6: r.rdata = dns::ename("a.net") + dns::ename("b.net") + bytes(20, '\1'); break; default: r.rdata = "xyz"; } return r; }
