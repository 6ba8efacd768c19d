// Reference model of plain forwarding, shared by several checks.
#pragma once
#include "sim.h"
#include "dns.h"
using namespace sim;
struct Client { Addr addr; Addr iface; };
struct Pending { int uid; Addr client, iface; Conn *conn; dns::Msg q; int64_t t; int replies = 0; };
struct World {
    std::vector<Pending> pend;                    // every query ever sent, in order
    size_t seen = 0;                              // outbox position
    std::vector<Sent> up;                         // datagrams to upstreams
    std::vector<int> up_answered;
    std::vector<Sent> cli;                        // datagrams to clients
    std::set<Addr> upstreams;
    bool is_up(const Addr &a) const { return upstreams.count(a) > 0; }
    // classify new outputs
    void drain(std::vector<Sent> *new_up, std::vector<Sent> *new_cli) {
        for (; seen < out.size(); seen++) { const Sent &s = out[seen]; note("t=%lld %s -> %s %s", (long long)s.t, s.src.c_str(), s.dst.c_str(), dns::show(s.data).c_str());
            if (is_up(s.dst)) { up.push_back(s); up_answered.push_back(0); if (new_up) new_up->push_back(s); } else { cli.push_back(s); if (new_cli) new_cli->push_back(s); } } }
};
inline bool same_q(const dns::Msg &a, const dns::Msg &b) { return a.id == b.id && a.qd.size() == 1 && b.qd.size() == 1 && dns::lower(a.qd[0].name) == dns::lower(b.qd[0].name) && a.qd[0].type == b.qd[0].type && a.qd[0].klass == b.qd[0].klass; }
