// C21: the server keeps accepting and serving whatever happens to single connections.
#include "stack.hpp"
using namespace stack;
static const char* SETUP =
    "http {\nserver s {\nlisten_port 80;\nrecv_timeout 5000000;\nhost h.com {\nrole source;\ntype stream;\nedge_avformat all;\n}\n}\n"
    "server t {\nlisten_port 81;\nrecv_timeout 5000000;\nhost h.com {\nrole source;\ntype stream;\nedge_avformat all;\n}\n}\n}\n";
static const int errs[] = {EMFILE, ECONNABORTED, EINTR, ENOMEM};
static const fst::usec SEC = 1000000;
static void settle(fst::usec us = 0) { fst::run(fst::now() + us); }

// what a client does once it is connected
enum { ASK, TWICE, HALF, GARBAGE, GONE, IDLE, NKIND_ };
static const char* const kinds[] = {"asks", "asks twice at once", "sends half a head and leaves", "sends garbage", "leaves", "stays silent"};
static void act(Peer& p, int k) {
    std::string g = get("none.com", "/x");
    if (k == ASK) p.send(g);
    else if (k == TWICE) p.send(g + g);
    else if (k == HALF) { p.send(g.substr(0, 20)); p.close(); }
    else if (k == GARBAGE) p.send("\x16\x03\x01 nothing\r\n\r\n");
    else if (k == GONE) p.close();
}
static void judge(Peer& p, int k, int i) {
    p.poll();
    Reply r = parse_reply(p.got, p.eof);
    if (k == ASK || k == TWICE) {
        MC_CHECK(r.head && r.bad.empty() && r.status == 404 && r.complete, "client %d was not served: %s", i, mc::quote(p.got).c_str());
        if (k == TWICE) {
            Reply q = parse_reply(r.rest, p.eof);
            MC_CHECK(q.head && q.bad.empty() && q.status == 404 && q.complete && q.rest.empty(), "second request of client %d was not served", i);
        } else MC_CHECK(r.rest.empty(), "client %d got more than its answer", i);
        mc::nontrivial();
    } else if (k == GARBAGE) MC_CHECK(fst::peer_closed(p.e), "client %d sent garbage and stays connected", i);
    else MC_CHECK(p.got.empty(), "client %d asked nothing and got %s", i, mc::quote(p.got).c_str());
}
static void reset() { quiet(); fst::reset(); fst::set_delay_bound(0); }

// every history of clients with accept failing at any point
static void accepts(int n, int maxfail, int delay) {
    reset(); fst::set_delay_bound(delay); fst::reset();
    int left = maxfail;
    fst::on_accept = [&]() -> int {
        if (left == 0) return 0;
        int k = mc::choose(5, "accept");
        if (k == 0) { return 0; }
        --left; return errs[k - 1];
    };
    std::vector<Peer> ps(n); std::vector<int> ks;
    for (int i = 0; i < n; ++i) {
        int k = mc::choose(NKIND_, "client"); ks.push_back(k);
        mc::note("client %d %s", i, kinds[k]);
        ps[i].dial(mc::flip("port") ? 81 : 80); act(ps[i], k);
        if (mc::flip("settle")) settle();
    }
    settle(SEC);
    for (int i = 0; i < n; ++i) judge(ps[i], ks[i], i);
    settle(10 * SEC);
    for (int i = 0; i < n; ++i) if (ks[i] == IDLE) MC_CHECK(fst::peer_closed(ps[i].e), "silent client %d outlives the receive timeout", i);
    mc::validated(); mc::state(mc::hash_str(std::string((char*) ks.data(), ks.size() * sizeof(int)), left));
    std::vector<Peer*> all; for (auto& p : ps) all.push_back(&p);
    finish(all);
}
// accept keeps failing for a long while: those connected are served meanwhile, those waiting afterwards
static void exhausted() {
    reset();
    int err = mc::pick(errs, "errno"), waiting = 1 + mc::choose(3, "waiting");
    Peer a; a.dial(80); settle();
    int calls = 0; bool failing = true;
    fst::on_accept = [&]() -> int { mc::step(); ++calls; return failing ? err : 0; };
    std::vector<Peer> w(waiting);
    for (auto& p : w) { p.dial(80); p.send(get("none.com", "/x")); }
    for (int i = 0; i < 3; ++i) {
        a.got.clear(); a.send(get("none.com", "/x")); settle(SEC);
        Reply r = a.reply();
        MC_CHECK(r.status == 404 && r.complete, "a connected client is not served while accept fails");
    }
    MC_CHECK(calls < 3000, "busy loop: %d failing accepts in 3 s", calls);
    for (auto& p : w) { p.poll(); MC_CHECK(p.got.empty() && !p.eof, "a client was answered before it was accepted"); }
    failing = false;
    settle(SEC);
    for (auto& p : w) { Reply r = p.reply(); MC_CHECK(r.status == 404 && r.complete, "a waiting client was not served after accept recovered"); }
    mc::validated(); mc::nontrivial(); mc::state(err * 10 + waiting);
    std::vector<Peer*> all{&a}; for (auto& p : w) all.push_back(&p);
    finish(all);
}
// no coroutine, or no address, for some of the clients
static void resources(int n) {
    reset();
    bool sock = mc::flip("address");
    std::vector<bool> hit; 
    auto f = [&]() -> int { bool b = mc::flip("fails"); hit.push_back(b); return b ? (sock ? ENOBUFS : EAGAIN) : 0; };
    if (sock) fst::on_getsockname = f; else fst::on_thread_create = f;
    std::vector<Peer> ps(n);
    for (auto& p : ps) { p.dial(80); p.send(get("none.com", "/x")); if (mc::flip("settle")) settle(); }
    settle(SEC);
    MC_CHECK((int) hit.size() == n, "%zu connections for %d clients", hit.size(), n);
    for (int i = 0; i < n; ++i) {
        Reply r = ps[i].reply();
        if (hit[i]) MC_CHECK(ps[i].eof || (r.status == 404 && r.complete), "client %d neither served nor closed", i);
        else MC_CHECK(r.status == 404 && r.complete && !ps[i].eof, "client %d not served because another one could not be", i);
    }
    fst::on_thread_create = nullptr; fst::on_getsockname = nullptr;
    Peer l; l.dial(80); l.send(get("none.com", "/x")); settle(SEC);
    Reply r = l.reply();
    MC_CHECK(r.status == 404 && r.complete, "server stopped serving");
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(std::string(hit.begin(), hit.end()), sock));
    std::vector<Peer*> all{&l}; for (auto& p : ps) all.push_back(&p);
    finish(all);
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    auto init = [] { boot(SETUP); };
    return mc::run(argc, argv, "C21", {
        {"accept", t ? "every history of 3 clients (6 behaviours, 2 ports, settled or not), up to 2 failing accepts with 4 errors at every point" : "every history of 2 clients (6 behaviours, 2 ports, settled or not), up to 2 failing accepts with 4 errors at every point",
         [t] { accepts(t ? 3 : 2, 2, 0); }, 5, init},
        {"three", "every history of 3 clients without failures", [] { accepts(3, 0, 0); }, 4, init},
        {"schedules", "2 clients, one failing accept, every schedule with one deviation from FIFO", [t] { accepts(2, 1, t ? 3 : 1); }, 5, init},
        {"exhausted", "accept fails with each of 4 errors for 3 s while one client is connected and 1-3 wait", exhausted, 2, init},
        {"resources", t ? "5 clients, every subset of them without coroutine or address" : "3 clients, every subset of them without coroutine or address", [t] { resources(t ? 5 : 3); }, 3, init},
    });
}
