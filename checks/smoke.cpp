#include "sim.h"
#include "dns.h"
using namespace sim;
void check_main()
{
    explore("relay", [] {
        boot("LogOn false\nUDPLocal 127.0.0.1:53\nUDPGroup 1.1.1.1,2.2.2.2 * on\nUseCache false\n");
        note("threads=%d fds=%d", live_threads(), open_fds());
        int n = choose(2, "n");
        udp_in("9.9.9.9:1234", "127.0.0.1:53", dns::encode(dns::query(0x1234, "www.example.com", 1)));
        run();
        for (auto &s : out) note("out %s -> %s %s", s.src.c_str(), s.dst.c_str(), dns::show(s.data).c_str());
        REQUIRE(out.size() == 2, "expected 2 got %zu", out.size());
        dns::Msg q; dns::decode(out[n].data, q);
        udp_reply(out[n], dns::encode(dns::answer(q, {dns::rrA("www.example.com", "5.5.5.5")})));
        run();
        REQUIRE(out.size() == 3, "no reply");
        note("reply %s -> %s %s", out[2].src.c_str(), out[2].dst.c_str(), dns::show(out[2].data).c_str());
        exec_done(dns::show(out[2].data));
    });
}
