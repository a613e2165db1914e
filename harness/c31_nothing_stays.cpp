// C31: serving costs nothing that lasts. Histories of the other checks, each of them
// repeated in the same server: what is still allocated afterwards must not grow.
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include "stack.hpp"
#include "tsref.hpp"
#include <errno.h>
#include <fakesrt.hpp>
#include <sps_avformat_rtmpdec.hpp>
#include <sps_avformat_rtmpenc.hpp>
#include <sps_io_socket.hpp>
#include <sps_rtmp_module.hpp>
#include <sps_srt_module.hpp>
#include <sps_sys_st_io_srt.hpp>
#include <sps_sys_st_io_ssl.hpp>
#include <sps_sys_st_io_udp.hpp>
#include <sys/mman.h>
#include <unistd.h>
#define main main_of_part
namespace relay_ {
#include "c03_relay.cpp"
}
namespace publish_ {
#include "c04_publish.cpp"
}
namespace edge_ {
#include "c05_edge.cpp"
}
namespace proxy_ {
#include "c13_proxy.cpp"
}
namespace accept_ {
#include "c21_accept.cpp"
}
namespace srt_ {
#include "c24_srt_gateway.cpp"
}
namespace srtio_ {
#include "c25_srt_socket.cpp"
}
namespace tls_ {
#include "c26_tls.cpp"
}
namespace upload_ {
#include "c27_request_bodies.cpp"
}
namespace udp_ {
#include "c28_udp.cpp"
}
namespace rtmp_ {
#include "c30_rtmp_relay.cpp"
}
#undef main

using stack::boot;
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    bool T = mc::tier;
    std::vector<mc::Scenario> v;
    auto add = [&](const char* name, std::string bound, std::function<void()> body, int split, std::function<void()> init) {
        mc::Scenario s; s.name = name; s.bound = bound; s.body = body; s.split = split; s.init = init; s.repeat = true; v.push_back(s);
    };
    auto n = [&](int quick, int thorough) { return std::to_string(T ? thorough : quick); };
    { auto in = [] { boot(relay_::SETUP); };
      add("relay", "every history of " + n(4, 5) + " operations of a publisher and up to 2 players over HTTP", [=] { relay_::histories(T ? 5 : 4); }, 3, in);
      add("relay faults", "every write to one of two players fails with 3 errors", relay_::faults, 3, in);
      add("relay slow", "players that read late, in pieces or never", relay_::slow, 3, in); }
    { auto in = [] { boot(publish_::SETUP); };
      add("publish", "every history of " + n(5, 6) + " operations on one name, publishers ending in 5 ways", [=] { publish_::histories(T ? 6 : 5, false); }, 3, in);
      add("publish two", "every history of " + n(4, 5) + " operations on two names", [=] { publish_::histories(T ? 5 : 4, true); }, 3, in);
      add("publish starts", "publishers that break off at each of the first 60 bytes or send a wrong one", publish_::starts, 3, in); }
    { auto in = [] { boot(edge_::SETUP); };
      add("edge", "every history of " + n(6, 7) + " operations of players and origins", [=] { edge_::histories(T ? 7 : 6, false); }, 3, in);
      add("edge two", "every history of " + n(4, 5) + " operations on two streams", [=] { edge_::histories(T ? 5 : 4, true); }, 3, in);
      add("edge answers", "answers of an origin: statuses, framings, delays, waiting players", edge_::answers, 3, in); }
    { auto in = [] { boot(proxy_::SETUP); };
      add("proxy", "every response (status, framing, headers, size, segmentation)", [] { proxy_::responses(1); }, 3, in);
      add("proxy truncated", "the origin closes, resets or falls silent after every prefix of 6 responses", proxy_::truncated, 3, in);
      add("proxy unreachable", "the origin refuses, times out or is unknown", proxy_::unreachable, 2, in);
      add("proxy bodiless", "responses without a body", proxy_::bodiless, 2, in);
      add("proxy faults", "every write towards client or origin fails", proxy_::faults, 3, in); }
    { auto in = [] { boot(upload_::SETUP); };
      add("upload broken", "the client closes, resets or falls silent at every place of 4 requests", upload_::broken, 3, in);
      add("upload malformed", "18 malformed chunks", upload_::malformed, 2, in);
      add("upload refused", "requests that are not forwarded", upload_::refused, 3, in);
      add("upload early", "the origin answers, closes, stalls or resets while the body is on its way", upload_::early, 2, in);
      add("upload faults", "each of the first 24 reads and writes fails with each of 3 errors", upload_::faults, 3, in); }
    { auto in = [] { boot(accept_::SETUP); };
      add("accept", "every history of 2 clients of 6 behaviours and up to " + n(1, 2) + " failing accepts", [=] { accept_::accepts(2, T ? 2 : 1, 0); }, 5, in);
      add("accept resources", "clients without coroutine or address", [] { accept_::resources(3); }, 3, in); }
    add("srt", "every history of " + n(4, 5) + " operations over SRT and HTTP", [=] { srt_::histories(T ? 5 : 4, false); }, 3, srt_::init);
    add("srt ids", "25 stream ids", srt_::ids, 2, srt_::init);
    add("srt slow", "SRT players with little room", srt_::slow, 3, srt_::init);
    add("srt http", "HTTP over SRT", srt_::http, 3, srt_::init);
    add("srt duplex", "a reader and a writer on one SRT connection, every history of " + n(6, 7) + " events", [=] { srtio_::duplex(T ? 7 : 6); }, 3, srtio_::init);
    add("srt connects", "outgoing SRT connections", srtio_::connects, 3, srtio_::init);
    add("srt accepts", "every history of " + n(5, 6) + " of {connect, dead connection, connect and close, time}", [=] { srtio_::accepts(T ? 6 : 5); }, 3, srtio_::init);
    add("srt timeouts", "waits that end around a timeout", srtio_::timeouts, 3, srtio_::init);
    add("tls handshakes", "every " + n(2, 3) + " of 10 kinds of TLS clients", [=] { tls_::handshakes(T ? 3 : 2, 0, tls_::NBAD); }, 3, tls_::init_own);
    add("tls relay", "every sequence of 2 packets, players over either transport", [] { tls_::relay(2); }, 4, tls_::init_server);
    add("tls answers", "10 requests over TCP and TLS", tls_::answers, 2, tls_::init_server);
    add("tls refused", "outgoing TLS connections whose server fails at every byte", tls_::refused, 2, tls_::far_init);
    add("udp", "every history of " + n(5, 6) + " operations over 2 addresses", [=] { udp_::history(T ? 6 : 5, 2, true); }, 4, udp_::boot_udp);
    add("udp waits", "timeouts of UDP readers", udp_::waits, 2, udp_::boot_udp);
    add("udp faults", "up to " + n(4, 5) + " failing receives", [=] { udp_::faults(T ? 5 : 4); }, 5, udp_::boot_udp);
    add("rtmp", "every history of " + n(4, 5) + " operations of publishers and players of two names over RTMP and HTTP", [=] { rtmp_::histories(T ? 5 : 4); }, 4, rtmp_::init);
    add("rtmp vanish", "RTMP clients that end or fall silent at any byte", [=] { rtmp_::vanish(T); }, 3, rtmp_::init);
    add("rtmp edge", "every history of " + n(4, 5) + " operations of players of an edge whose origin is asked over RTMP, and of the publisher there", [=] { rtmp_::edges(T ? 5 : 4); }, 3, rtmp_::init);
    add("rtmp shorts", "RTMP messages of 16 types and up to 7 bytes", [] { rtmp_::shorts(); }, 3, rtmp_::init);
    add("rtmp slow", "RTMP players that stop reading", rtmp_::slow, 3, rtmp_::init);
    return mc::run(argc, argv, "C31", v);
}
