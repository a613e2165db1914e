// C28: the UDP server's sessions: who gets which datagram.
#include "common.hpp"
#include <errno.h>
#include <sps_sys_st_io_udp.hpp>
using namespace sps;
static const fst::usec SEC = 1000000, MS = 1000;
static const int PORT = 7000;
static std::shared_ptr<StUdpServerSocket> server;
static std::vector<PSocket> accepted;            // by the server, not yet taken by the harness
static int base_fds;
struct Addr { const char* ip; int port; const char* own; };
// differ in one of address, port, own address; the last ones have the same text without the separators
static const Addr addrs[] = {{"10.0.0.1", 5000, "192.168.0.1"}, {"10.0.0.2", 5000, "192.168.0.1"}, {"10.0.0.1", 5001, "192.168.0.1"},
                             {"10.0.0.1", 5000, "192.168.0.2"}, {"10.0.0.15", 5000, "192.168.0.1"}};
static void boot_udp() {
    quiet(); fst::set_delay_bound(0);
    ICoFactory::get_instance(); IConditionFactory::get_instance();
    server = std::make_shared<StUdpServerSocket>();
    if (server->listen("", PORT, true, 1024) != SUCCESS) mc::broken("listen");
    fst::spawn("acceptor", [] { for (;;) { PSocket s = server->accept(); if (!s) mc::fail("accept returned nothing"); accepted.push_back(s); } });
    fst::run(fst::now());
    fst::mark_persistent();
    base_fds = fst::open_fds();
}
static void reset(int delay = 0) { quiet(); accepted.clear(); fst::set_delay_bound(delay); fst::reset(); }
static void settle() { fst::run(fst::now()); }
static std::string body(size_t n, int tag) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char) (tag * 31 + i * 7 + i / 251); return s; }
static void post(const Addr& a, const std::string& d) { if (!fst::udp_send({a.ip, a.port, a.own, PORT, d})) mc::fail("the server does not listen"); }
static void in(const std::function<void()>& f) { bool done = false; fst::spawn("user", [&] { f(); done = true; }); settle(); if (!done) mc::fail("the operation did not end"); }
static std::vector<char> room(66000);
struct Got { error_t ret; std::string d; };
static Got take(PSocket s, size_t n) {
    Got g; size_t nr = 0; memset(room.data(), 0x5a, n + 1);
    g.ret = s->read(room.data(), n, nr);
    if (room[n] != 0x5a) mc::fail("read wrote behind the buffer");
    if (g.ret == SUCCESS) { if (nr > n) mc::fail("read gave %zu bytes into %zu", nr, n); g.d.assign(room.data(), nr); }
    return g;
}
static int index_of(PSocket s) {
    for (int i = 0; i < 5; ++i) if (s->get_peer_ip() == addrs[i].ip && s->get_peer_port() == addrs[i].port && s->get_self_ip() == addrs[i].own && s->get_self_port() == PORT) return i;
    mc::fail("a session of %s:%d at %s:%d was accepted, nobody has that address", s->get_peer_ip().c_str(), s->get_peer_port(), s->get_self_ip().c_str(), s->get_self_port());
}
static void finish() {
    accepted.clear();
    fst::run(fst::now() + 100 * SEC);
    if (fst::alive_env()) mc::fail("a reader never returns: %s", fst::stuck().c_str());
    MC_CHECK(fst::open_fds() == base_fds, "%d sockets are left open", fst::open_fds() - base_fds);
    accepted.clear();
}

// every history of datagrams, reads, writes and dropped sessions against queues per address
static void history(int len, int na, bool lazy) {
    reset();
    struct Sess { PSocket s; std::deque<std::string> q; };
    Sess ss[5]; std::deque<std::pair<int, std::string>> wire;
    static const size_t sizes[] = {1, 4096, 700};
    int tag = 0;
    auto deliver = [&] {
        settle();
        std::set<int> fresh;
        while (!wire.empty()) {
            auto w = wire.front(); wire.pop_front();
            if (!ss[w.first].s) fresh.insert(w.first);
            ss[w.first].q.push_back(w.second);
        }
        for (auto& s : accepted) {
            int i = index_of(s);
            MC_CHECK(fresh.count(i), "session of address %d was accepted again", i);
            fresh.erase(i); ss[i].s = s;
        }
        accepted.clear();
        MC_CHECK(fresh.empty(), "address %d has no session", *fresh.begin());
    };
    for (int k = 0; k < len; ++k) {
        int op = mc::choose(4, "op"), i = mc::choose(na, "address");
        mc::step();
        if (op == 0) {
            std::string d = body(sizes[(tag + i) % 3], ++tag);
            mc::note("datagram %d of %zu bytes from %d", tag, d.size(), i);
            post(addrs[i], d); wire.push_back({i, d});
            if (!lazy || mc::flip("settle")) deliver();
        } else if (op == 1) {
            deliver();
            if (!ss[i].s) return;                       // nothing to do: same as a shorter history
            bool small = !ss[i].q.empty() && ss[i].q.front().size() > 1 && mc::flip("small");
            size_t n = small ? ss[i].q.front().size() - 1 : ss[i].q.empty() ? 4096 : ss[i].q.front().size();
            ss[i].s->set_recv_timeout(50 * MS);
            Got g; fst::usec t0 = fst::now(), t1 = 0; bool done = false;
            fst::spawn("reader", [&] { g = take(ss[i].s, n); t1 = fst::now(); done = true; });
            fst::run(fst::now() + 50 * MS);
            MC_CHECK(done, "a read outlasts its timeout");
            mc::note("read %zu of %d: %d", n, i, (int) g.ret);
            if (ss[i].q.empty()) MC_CHECK(g.ret == ERROR_SOCKET_TIMEOUT && t1 - t0 == 50 * MS, "read without data returns %d after %llu us", (int) g.ret, t1 - t0);
            else if (small) MC_CHECK(g.ret == ERROR_SOCKET_BUFFER_SMALL, "read into a small buffer returns %d", (int) g.ret);
            else {
                MC_CHECK(g.ret == SUCCESS && g.d == ss[i].q.front(), "read of address %d returns %d and %zu bytes instead of the %zu sent", i, (int) g.ret, g.d.size(), ss[i].q.front().size());
                ss[i].q.pop_front(); mc::nontrivial();
            }
            mc::validated();
        } else if (op == 2) {
            deliver();
            if (!ss[i].s) return;
            std::string d = body(sizes[tag % 3], ++tag);
            error_t r = SUCCESS; size_t n0 = fst::udp_sent.size();
            in([&] { r = ss[i].s->write(&d[0], d.size()); });
            MC_CHECK(r == SUCCESS && fst::udp_sent.size() == n0 + 1, "write returns %d, %zu datagrams went out", (int) r, fst::udp_sent.size() - n0);
            auto& o = fst::udp_sent.back();
            MC_CHECK(o.to == addrs[i].ip && o.to_port == addrs[i].port, "written to %s:%d instead of %s:%d", o.to.c_str(), o.to_port, addrs[i].ip, addrs[i].port);
            MC_CHECK(o.from_port == PORT && o.data == d, "wrong datagram from port %d", o.from_port);
            mc::validated(); mc::nontrivial();
        } else {
            if (!ss[i].s) return;
            if (!lazy) deliver();
            // what is still on the wire meets no session
            ss[i].s = nullptr; ss[i].q.clear();
        }
    }
    deliver();
    // whatever is left comes out
    uint64_t h = 7;
    for (int i = 0; i < na; ++i) {
        h = h * 31 + ss[i].q.size() * 2 + (ss[i].s != nullptr);
        while (!ss[i].q.empty()) {
            Got g; in([&] { g = take(ss[i].s, 4096); });
            MC_CHECK(g.ret == SUCCESS && g.d == ss[i].q.front(), "datagram of address %d lost or changed (%d)", i, (int) g.ret);
            ss[i].q.pop_front();
        }
        if (ss[i].s) { ss[i].s->set_recv_timeout(MS); Got g; fst::spawn("reader", [&] { g = take(ss[i].s, 4096); }); fst::run(fst::now() + MS); MC_CHECK(g.ret == ERROR_SOCKET_TIMEOUT, "address %d gets more than was sent", i); }
    }
    mc::state(h); mc::validated();
    for (auto& s : ss) s.s = nullptr;
    finish();
}
// senders and readers, interleaved in every way
static void schedules(int na, int each, int delay, bool late) {
    reset(delay); 
    std::vector<std::string> got[5]; int over = 0, ends = 0, started = 0; bool taken[5] = {};
    std::vector<std::vector<std::string>> want(na);
    for (int i = 0; i < na; ++i) {
        for (int k = 0; k < each; ++k) want[i].push_back(body(3 + k, i * 10 + k + 1));
        fst::spawn("sender", [&, i] { for (auto& d : want[i]) { post(addrs[i], d); if (late) fst::sleep(10 * MS); else fst::yield(); } });
    }
    fst::spawn("taker", [&] {
        while (started < na) {
            while (!accepted.empty()) {
                PSocket s = accepted.front(); accepted.erase(accepted.begin());
                int i = index_of(s);
                if (taken[i]) mc::fail("two sessions of address %d", i);
                taken[i] = true; ++started;
                fst::spawn("reader", [&, s, i] {
                    s->set_recv_timeout(20 * MS);
                    for (;;) { Got g = take(s, 4096); if (g.ret != SUCCESS) { if (g.ret != ERROR_SOCKET_TIMEOUT) mc::fail("read: %d", (int) g.ret); break; } got[i].push_back(g.d); }
                    ++ends;
                });
            }
            fst::sleep(MS);
            if (++over > 100) mc::fail("%d of %d sessions accepted", started, na);
        }
    });
    fst::run(fst::now() + 10 * SEC);
    MC_CHECK(ends == na, "%d of %d readers ended", ends, na);
    uint64_t h = 3;
    for (int i = 0; i < na; ++i) {
        MC_CHECK(got[i] == want[i], "address %d: %zu of %zu datagrams, or in another order", i, got[i].size(), want[i].size());
        h = h * 31 + got[i].size();
    }
    mc::state(h); mc::validated(); mc::nontrivial();
    finish();
}
// a read returns when data comes or when its time is over
static void waits() {
    reset();
    static const int64_t tms[] = {1 * MS, 200 * MS, 5 * SEC, -1};
    static const int64_t offs[] = {0, 500, 1 * MS - 1, 150 * MS, 200 * MS + 1, 4 * SEC, 6 * SEC};
    int64_t tm = mc::pick(tms, "timeout"), at = mc::pick(offs, "arrival");
    int other = mc::choose(2, "other");          // somebody else's datagrams come in between
    post(addrs[0], "x"); settle();
    MC_CHECK(accepted.size() == 1, "no session");
    PSocket s = accepted[0]; accepted.clear();
    in([&] { take(s, 100); });
    s->set_recv_timeout((utime_t) tm);
    MC_CHECK(s->get_recv_timeout() == (utime_t) tm, "the receive timeout is not kept");
    fst::usec t0 = fst::now(), t1 = 0; Got g; bool done = false;
    fst::spawn("reader", [&] { g = take(s, 100); t1 = fst::now(); done = true; });
    if (other) fst::spawn("other", [&] { for (int i = 0; i < 8; ++i) { post(addrs[1 + i % 3], "y"); fst::sleep(at / 8 + 1); } });
    fst::spawn("sender", [&] { fst::sleep(at); post(addrs[0], "hello"); });
    fst::run(t0 + 20 * SEC);
    MC_CHECK(done, "the read never returns");
    if (tm < 0 || at < tm) MC_CHECK(g.ret == SUCCESS && g.d == "hello" && t1 - t0 == (fst::usec) at, "data after %lld us: read returns %d after %llu us", (long long) at, (int) g.ret, t1 - t0);
    else {
        MC_CHECK(g.ret == ERROR_SOCKET_TIMEOUT && t1 - t0 == (fst::usec) tm, "timeout %lld us: read returns %d after %llu us", (long long) tm, (int) g.ret, t1 - t0);
        in([&] { g = take(s, 100); });
        MC_CHECK(g.ret == SUCCESS && g.d == "hello", "what came after the timeout is lost");
    }
    mc::state(tm * 7 + at + other); mc::validated(); mc::nontrivial();
    s = nullptr; finish();
}
// one session that nobody reads
static void backlog() {
    reset();
    static const int counts[] = {3999, 4000, 4001, 4003};
    int n = mc::pick(counts, "count"), rd = mc::choose(3, "read"), more = mc::choose(3, "more");
    bool burst = mc::flip("burst");
    for (int i = 0; i < n; ++i) { post(addrs[0], body(5, i) + std::to_string(i)); if (!burst) settle(); }
    for (int i = 0; i < 3; ++i) post(addrs[1], "other" + std::to_string(i));
    settle();
    MC_CHECK(accepted.size() == 2, "%zu sessions", accepted.size());
    PSocket a, b; for (auto& s : accepted) (index_of(s) ? b : a) = s;
    accepted.clear();
    MC_CHECK(a && b, "wrong sessions");
    a->set_recv_timeout(MS); b->set_recv_timeout(MS);
    std::deque<std::string> want; for (int i = 0; i < std::min(n, 4000); ++i) want.push_back(body(5, i) + std::to_string(i));
    Got g;
    for (int i = 0; i < 3; ++i) { in([&] { g = take(b, 100); }); MC_CHECK(g.ret == SUCCESS && g.d == "other" + std::to_string(i), "another session suffers"); }
    for (int i = 0; i < rd; ++i) { in([&] { g = take(a, 100); }); MC_CHECK(g.ret == SUCCESS && g.d == want.front(), "wrong datagram"); want.pop_front(); }
    for (int i = 0; i < more; ++i) { std::string d = "more" + std::to_string(i); post(addrs[0], d); settle(); if (want.size() < 4000) want.push_back(d); }
    size_t k = 0; bool ok = true;
    fst::spawn("reader", [&] { for (;;) { g = take(a, 100); if (g.ret != SUCCESS) break; if (want.empty() || g.d != want.front()) { ok = false; break; } want.pop_front(); ++k; } });
    fst::run(fst::now() + 10 * MS);
    MC_CHECK(ok && want.empty() && g.ret == ERROR_SOCKET_TIMEOUT, "backlog of %d: wrong after %zu datagrams, %zu missing", n, k, want.size());
    post(addrs[0], "last"); in([&] { g = take(a, 100); });
    MC_CHECK(g.ret == SUCCESS && g.d == "last", "the session is dead after its backlog was read");
    mc::state(n * 9 + rd * 3 + more); mc::validated(); mc::nontrivial();
    a = b = nullptr; finish();
}
// receiving fails
static void faults(int len) {
    reset();
    static const int errs[] = {EINTR, ECONNREFUSED, ENOMEM, EAGAIN};
    bool storm = mc::flip("storm"); int left = len, calls = 0, err = mc::pick(errs, "errno"); bool on = true;
    fst::on_udp_recv = [&](int) -> int { mc::step(); ++calls; if (calls > 100000) mc::fail("the server spins when receiving fails"); if (storm) return on ? err : 0; if (left && mc::flip("fails")) { --left; return err; } return 0; };
    std::vector<std::string> want[2];
    for (int k = 0; k < 4; ++k) {
        want[k % 2].push_back(body(9, k)); post(addrs[k % 2], body(9, k)); fst::run(fst::now() + (mc::flip("wait") ? 100 * MS : 0));
    }
    fst::run(fst::now() + 3 * SEC);
    MC_CHECK(calls < 2000, "busy loop: %d failing receives in 3 s", calls);
    on = false; left = 0;
    fst::run(fst::now() + SEC);
    MC_CHECK(accepted.size() == 2, "%zu sessions after receiving recovered", accepted.size());
    auto ss = accepted; accepted.clear();
    for (auto& s : ss) {
        auto& w = want[index_of(s)];
        s->set_recv_timeout(MS);
        for (auto& d : w) { Got g; in([&] { g = take(s, 100); }); MC_CHECK(g.ret == SUCCESS && g.d == d, "a datagram was lost"); }
        Got g; fst::spawn("reader", [&] { g = take(s, 100); }); fst::run(fst::now() + MS); MC_CHECK(g.ret == ERROR_SOCKET_TIMEOUT, "a datagram came twice");
    }
    mc::state(calls); mc::validated(); mc::nontrivial();
    ss.clear(); finish();
}
// the client side
static void client() {
    reset();
    static const Addr peers[] = {{"10.0.0.9", 6000, ""}, {"10.9.0.0", 1, ""}, {"255.254.253.252", 65535, ""}};
    static const size_t sizes[] = {1, 1316, 4096, 65507, 65508};
    const Addr& p = mc::pick(peers, "peer"); size_t n = mc::pick(sizes, "size");
    bool bound = mc::flip("bound"), conn = mc::flip("connect"); int fail = mc::choose(3, "fail");
    static const int errs[] = {0, EINTR, ENETUNREACH};
    std::string d = body(n, 3);
    in([&] {
        PUdpFd fd;
        MC_CHECK((bound ? UdpFd::create_fd(7100, fd) : UdpFd::create_fd(fd)) == SUCCESS && fd, "no socket");
        if (bound) { PUdpFd f2; MC_CHECK(UdpFd::create_fd(7100, f2) == ERROR_SOCKET_BIND && !f2, "two sockets on one port"); }
        StUdpClientSocket s(p.ip, p.port, fd);
        if (conn) MC_CHECK(s.connect() == SUCCESS, "connect");
        int c = 0;
        if (fail) fst::on_udp_send = [&](const fst::Dgram&) -> int { return c++ == 0 ? errs[fail] : 0; };
        error_t r = s.write(&d[0], d.size());
        size_t want = 1;
        if (n > 65507) { MC_CHECK(r == ERROR_SOCKET_WRITE, "a write no datagram can hold returns %d", (int) r); want = 0; }
        else if (fail) { MC_CHECK(r == (fail == 1 ? ERROR_SOCKET_EINTR : ERROR_SOCKET_WRITE), "a failed write returns %d", (int) r); want = 0; }
        else MC_CHECK(r == SUCCESS, "write returns %d", (int) r);
        MC_CHECK(fst::udp_sent.size() == want, "%zu datagrams for one write", fst::udp_sent.size());
        int own = 7100;
        if (want) {
            auto& o = fst::udp_sent[0];
            MC_CHECK(o.to == p.ip && o.to_port == p.port && o.data == d, "written to %s:%d instead of %s:%d", o.to.c_str(), o.to_port, p.ip, p.port);
            MC_CHECK(!bound || o.from_port == 7100, "from port %d", o.from_port);
            own = o.from_port;
        }
        if (!want && !bound) return;
        std::string a = body(std::min(n, (size_t) 4096), 5);
        fst::udp_send({p.ip, p.port, "127.0.0.1", own, a});
        std::vector<char> b(5000); size_t nr = 0; std::string ip; int port = 0;
        s.set_recv_timeout(MS);
        r = s.read(b.data(), b.size(), nr, ip, port);
        MC_CHECK(r == SUCCESS && std::string(b.data(), nr) == a, "the answer is lost or changed (%d)", (int) r);
        MC_CHECK(ip == p.ip && port == p.port, "the answer is said to come from %s:%d", ip.c_str(), port);
        mc::nontrivial();
    });
    Got g; error_t r = SUCCESS; fst::usec t0 = fst::now(), t1 = 0;
    fst::spawn("reader", [&] { PUdpFd fd; UdpFd::create_fd(7100, fd); StUdpClientSocket s(p.ip, p.port, fd); s.set_recv_timeout(70 * MS); char b[10]; size_t nr = 0; r = s.read(b, 10, nr); t1 = fst::now(); });
    fst::run(fst::now() + SEC);
    MC_CHECK(r == ERROR_SOCKET_TIMEOUT && t1 - t0 == 70 * MS, "reading nothing returns %d after %llu us", (int) r, t1 - t0);
    mc::state(n + bound + conn * 2 + fail * 4); mc::validated();
    finish();
}
// sizes through a session, both ways
static void sizes(int step) {
    reset();
    int n = 1 + mc::choose(4096 / step, "size") * step; int slack = mc::choose(3, "buffer");
    std::string d = body(n, n);
    post(addrs[0], d); post(addrs[0], "after"); settle();
    MC_CHECK(accepted.size() == 1, "no session");
    PSocket s = accepted[0]; accepted.clear(); Got g;
    if (slack == 0 && n > 1) { in([&] { g = take(s, n - 1); }); MC_CHECK(g.ret == ERROR_SOCKET_BUFFER_SMALL, "read into %d of %d returns %d", n - 1, n, (int) g.ret); }
    in([&] { g = take(s, slack == 2 ? 65536 : n); });
    MC_CHECK(g.ret == SUCCESS && g.d == d, "%d bytes came as %zu (%d)", n, g.d.size(), (int) g.ret);
    in([&] { g = take(s, 100); });
    MC_CHECK(g.ret == SUCCESS && g.d == "after", "the next datagram is lost (%d)", (int) g.ret);
    error_t r = SUCCESS; in([&] { r = s->write(&d[0], d.size()); });
    MC_CHECK(r == SUCCESS && fst::udp_sent.size() == 1 && fst::udp_sent[0].data == d, "%d bytes written as %zu datagrams", n, fst::udp_sent.size());
    mc::state(n); mc::validated(); mc::nontrivial();
    s = nullptr; finish();
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C28", {
        {"history", t ? "every history of 7 operations (datagram, read, write, drop) over 3 addresses" : "every history of 6 operations (datagram, read, write, drop) over 3 addresses", [t] { history(t ? 7 : 6, 3, false); }, 4, boot_udp},
        {"five", t ? "every history of 5 operations over 5 addresses that differ in one part, the server slow or not" : "every history of 4 operations over 5 addresses that differ in one part, the server slow or not", [t] { history(t ? 5 : 4, 5, true); }, 4, boot_udp},
        {"pending", t ? "every history of 8 operations over 2 addresses, the server slow or not" : "every history of 6 operations over 2 addresses, the server slow or not", [t] { history(t ? 8 : 6, 2, true); }, 4, boot_udp},
        {"schedules", t ? "2 senders of 2 datagrams, their readers: every schedule with up to 6 deviations from FIFO" : "2 senders of 2 datagrams, their readers: every schedule with up to 4 deviations from FIFO", [t] { schedules(2, 2, t ? 6 : 4, mc::flip("late")); }, 6, boot_udp},
        {"three", t ? "3 senders of 3 datagrams: every schedule with up to 5 deviations" : "3 senders of 3 datagrams: every schedule with up to 3 deviations", [t] { schedules(3, 3, t ? 5 : 3, mc::flip("late")); }, 6, boot_udp},
        {"waits", "4 timeouts, 7 arrival times, with and without traffic of others", waits, 2, boot_udp},
        {"backlog", "3999 to 4003 unread datagrams, 0-2 reads, 0-2 more, one by one or at once", backlog, 3, boot_udp},
        {"faults", t ? "up to 8 failing receives at every point, or failing for 3 s, 4 errors" : "up to 5 failing receives at every point, or failing for 3 s, 4 errors", [t] { faults(t ? 8 : 5); }, 5, boot_udp},
        {"client", "3 peers, 5 sizes, bound or not, connected or not, 2 send errors", client, 3, boot_udp},
        {"sizes", "every size to 4096, 3 buffers", [] { sizes(1); }, 2, boot_udp},
    });
}
