// C25: an SRT connection is a faithful byte stream in both directions.
#include "common.hpp"
#include <sps_io_socket.hpp>
#include <sps_sys_st_io_srt.hpp>
#include <fakesrt.hpp>
using namespace sps;
typedef std::string S;
enum { PORT = 6000 };
static const fst::usec MS = 1000;
static std::deque<PSocket>* accepted = new std::deque<PSocket>();   // outlives everything
static StSrtServerSocket* server;

static void init() {
    quiet(); fst::set_delay_bound(0);
    server = new StSrtServerSocket();
    if (server->listen("", PORT, true, 16) != SUCCESS) mc::broken("cannot listen");
    fst::spawn("acceptor", [] { for (;;) { auto s = server->accept(); accepted->push_back(s); } });
    fst::run(fst::now() + 50 * MS);
    fst::mark_persistent();
    MC_CHECK(fsrt::listening(PORT), "the server does not listen");
}
static void start() { quiet(); fst::reset(); fsrt::reset(); accepted->clear(); fst::set_delay_bound(0); }
static S fill(size_t n, int salt) { S s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char) (1 + (i * 7 + salt * 31) % 250); return s; }
static PSocket open(fsrt::Ep*& e, int window = 8192) {
    e = fsrt::dial(PORT, "#!::h=a.com/live/x,m=publish", window);
    MC_CHECK(e, "connection refused");
    for (int i = 0; i < 5 && accepted->empty(); ++i) fst::run(fst::now() + 10 * MS);
    MC_CHECK(accepted->size() == 1, "connection not accepted within 50 ms");
    PSocket s = accepted->front(); accepted->pop_front();
    MC_CHECK(s->get_peer_ip() == "127.0.0.1" && s->get_peer_port() == 40001, "peer is %s:%d instead of 127.0.0.1:40001", s->get_peer_ip().c_str(), s->get_peer_port());
    MC_CHECK(dynamic_cast<StSrtSocket*>(s->get_io().get())->get_streamid() == "#!::h=a.com/live/x,m=publish", "stream id");
    return s;
}
static void end() {
    accepted->clear();
    fst::run(fst::now() + 30 * MS);
    MC_CHECK(fst::alive() == 0, "blocked for ever: %s", fst::stuck().c_str());
    MC_CHECK(fsrt::open_socks() == 0, "%d SRT sockets leaked", fsrt::open_socks());
    MC_CHECK(fsrt::watched() == 0, "%d closed sockets are still watched", fsrt::watched());
    mc::validated(); mc::nontrivial();
}
static const size_t msgs[] = {1, 188, 1316, 1315, 564};
static const size_t rsizes[] = {1316, 188, 100, 4096, 1315, 1};

// what the peer sends, in messages of any size and at any moment, is what is read
static void reads(int n) {
    start();
    fsrt::Ep* e; PSocket s = open(e);
    std::vector<size_t> m; std::vector<int> when;
    int k = 1 + mc::choose(n, "messages");
    for (int i = 0; i < k; ++i) { m.push_back(mc::pick(msgs, "size")); when.push_back(mc::choose(3, "before, during or long after")); }
    S sent, got; error_t end_ret = SUCCESS; bool done = false;
    size_t rs = mc::pick(rsizes, "read size"); int how = mc::choose(3, "read, read_fully, socket read_fully"); bool ends = mc::flip("peer closes right after");
    for (int i = 0; i < k && when[i] == 0; ++i) { S d = fill(m[i], i); fsrt::send(e, d); sent += d; when[i] = -1; }
    auto io = s->get_io();
    std::vector<uint8_t> b(rs + 1, 0xee);
    fst::spawn("reader", [&] {
        size_t total = 0; for (auto x : m) total += x;
        while (got.size() < total + ends) {
            size_t nr = 0; ssize_t nf = 0; error_t r;
            std::fill(b.begin(), b.end(), 0xee);
            if (how == 0) { r = io->read(b.data(), rs, nr); if (r == SUCCESS) MC_CHECK(nr > 0 && nr <= rs, "read of %zu bytes returned %zu", rs, nr); }
            else if (total - got.size() < rs && !ends) break;            // would wait for more
            else if (how == 1) { r = io->read_fully(b.data(), rs, &nf); MC_CHECK(r != SUCCESS || nf == (ssize_t) rs, "read_fully of %zu returned %zd", rs, nf); nr = nf; }
            else { r = s->read_fully(b.data(), rs, &nf); nr = r == SUCCESS ? nf : 0; MC_CHECK(r != SUCCESS || nf == (ssize_t) rs, "read_fully of %zu returned %zd", rs, nf); }
            MC_CHECK(b[rs] == 0xee, "wrote past the buffer");
            got.append((char*) b.data(), nr);
            if (r != SUCCESS) { end_ret = r; break; }
        }
        done = true;
    });
    fst::run(fst::now() + 1);
    for (int i = 0; i < k; ++i) if (when[i] >= 0) {
        if (when[i] == 2) fst::run(fst::now() + 500 * MS);
        S d = fill(m[i], i); fsrt::send(e, d); sent += d;
    }
    fst::usec t = fst::now();
    if (ends) fsrt::shut(e);
    fst::run(t + 100 * MS);
    MC_CHECK(done, "reader still waits 100 ms after the last message (got %zu of %zu bytes)", got.size(), sent.size());
    MC_CHECK(got == sent.substr(0, got.size()), "the bytes read differ from the bytes sent");
    size_t least = how == 0 ? sent.size() : how == 1 && ends ? sent.size() : sent.size() - sent.size() % rs;
    MC_CHECK(got.size() >= least, "%zu of %zu bytes read", got.size(), sent.size());
    MC_CHECK(!ends || end_ret != SUCCESS, "the end of the connection is not noticed");
    mc::state(got.size() * 64 + how * 2 + ends);
    s.reset(); io.reset();
    if (!ends) { MC_CHECK(fsrt::peer_closed(e), "connection not closed"); }
    end();
}
static const size_t wsizes[] = {1316, 1, 1317, 2632, 3000, 188, 10000};
// what is written arrives complete and in order however slowly the peer takes it
static void writes() {
    start();
    static const int windows[] = {8192, 1, 2};
    fsrt::Ep* e; PSocket s = open(e, mc::pick(windows, "window"));
    int k = 1 + mc::choose(2, "writes"); std::vector<size_t> w; for (int i = 0; i < k; ++i) w.push_back(mc::pick(wsizes, "size"));
    int drain = mc::choose(3, "peer takes every 10 ms, every 300 ms, after two takes no more");
    S sent; int oks = 0; error_t ret = SUCCESS; bool done = false; fst::usec t0 = fst::now(), t1 = 0;
    s->set_send_timeout(1000 * MS);
    MC_CHECK(s->get_send_timeout() == 1000 * MS, "send timeout not kept");
    S all; for (int i = 0; i < k; ++i) all += fill(w[i], i);
    fst::spawn("writer", [&] {
        for (int i = 0; i < k; ++i) {
            S d = fill(w[i], i);
            if ((ret = s->write(&d[0], d.size())) != SUCCESS) break;
            ++oks; sent += d;
        }
        t1 = fst::now(); done = true;
    });
    S got; int taken = 0; fst::usec last = fst::now();
    for (int i = 0; i < 40 && !done; ++i) {
        fst::run(fst::now() + (drain == 1 ? 300 * MS : 10 * MS));
        if (drain == 2 && ++taken > 2) { fst::run(fst::now() + 1200 * MS); break; }
        for (auto& x : fsrt::taken(e)) { MC_CHECK(x.size() <= 1316, "message of %zu bytes", x.size()); got += x; last = fst::now(); }
    }
    fst::run(fst::now() + 20 * MS);
    for (auto& x : fsrt::taken(e)) got += x;
    MC_CHECK(done, "writer blocked for ever");
    if (drain != 2) { MC_CHECK(ret == SUCCESS, "write failed with %d though the peer takes what arrives", ret); }
    if (ret == SUCCESS) MC_CHECK(got == all, "peer received %zu bytes that differ from the %zu written", got.size(), all.size());
    else { MC_CHECK(ret == ERROR_SRT_SOCKET_TIMEOUT, "write failed with %d instead of a timeout", ret); MC_CHECK(t1 >= last + 900 * MS && t1 <= last + 1100 * MS, "a stalled peer is given up after %llu ms instead of 1000", (t1 - last) / 1000); }
    MC_CHECK(got == all.substr(0, got.size()), "the bytes sent differ from the bytes written");
    mc::state(got.size() * 4 + drain);
    s.reset(); end();
    (void) t0;
}
// nobody waits longer than its timeout, or shorter; a broken connection ends the wait
static void timeouts() {
    start();
    fsrt::Ep* e; PSocket s = open(e, 1);
    static const fst::usec tms[] = {20 * MS, 1000 * MS, 5 * MS, 30000 * MS, 7200000 * MS};
    fst::usec tm = mc::pick(tms, "timeout"); bool rd = mc::flip("reader"); int what = mc::choose(5, "nothing, data just before, data after, close just before, close after");
    fst::usec when = what == 1 || what == 3 ? tm - 1 : tm + 1;
    s->set_recv_timeout(tm); s->set_send_timeout(tm);
    MC_CHECK(s->get_recv_timeout() == tm, "recv timeout not kept");
    S first = "x"; if (!rd) MC_CHECK(s->write(&first[0], 1) == SUCCESS, "cannot write");
    bool done = false; error_t ret = SUCCESS; fst::usec t0 = fst::now(), t1 = 0; S got;
    fst::spawn(rd ? "reader" : "writer", [&] {
        char b[2000]; size_t n = 0;
        if (rd) { ret = s->read(b, sizeof b, n); if (ret == SUCCESS) got.assign(b, n); } else { b[0] = 'y'; ret = s->write(b, 1); }
        t1 = fst::now(); done = true;
    });
    fst::spawn("peer", [&] {
        if (what == 0) return;
        fst::sleep(when);
        if (what < 3) { if (rd) fsrt::send(e, "data"); else fsrt::taken(e); } else fsrt::shut(e);
    });
    fst::run(t0 + tm + 5000 * MS);
    MC_CHECK(done, "%s blocked for ever", rd ? "reader" : "writer");
    MC_CHECK(t1 <= t0 + tm + 20 * MS, "waited %llu us for a timeout of %llu", t1 - t0, tm);
    if (ret == ERROR_SRT_SOCKET_TIMEOUT) MC_CHECK(t1 >= t0 + tm, "timed out after %llu us instead of %llu", t1 - t0, tm);
    if (what == 0 || what == 2 || what == 4) MC_CHECK(ret == ERROR_SRT_SOCKET_TIMEOUT, "result %d instead of a timeout", ret);
    else if (what == 1) MC_CHECK(ret == ERROR_SRT_SOCKET_TIMEOUT || (ret == SUCCESS && (!rd || got == "data")), "result %d", ret);
    else MC_CHECK(ret != SUCCESS, "success on a closed connection");
    // the connection is as usable as before
    if (what < 3) {
        if (what == 0) { if (rd) fsrt::send(e, "data"); else fsrt::taken(e); }
        bool again = rd && ret == ERROR_SRT_SOCKET_TIMEOUT; done = false;
        if (again || !rd) {
            fst::spawn("again", [&] { char b[2000]; size_t n = 0; if (rd) { ret = s->read(b, sizeof b, n); got.assign(b, n); } else { fsrt::taken(e); b[0] = 'z'; ret = s->write(b, 1); } done = true; });
            fst::run(fst::now() + 100 * MS);
            MC_CHECK(done && ret == SUCCESS, "after a timeout the connection gives %d", ret);
            if (rd) MC_CHECK(got == "data", "data lost after a timeout");
        }
        // and waiting works as before
        done = false; ret = SUCCESS; s->set_recv_timeout(200 * MS);
        fst::spawn("again", [&] { char b[2000]; size_t n = 0; ret = s->read(b, sizeof b, n); got.assign(b, n); done = true; });
        fst::run(fst::now() + 50 * MS); MC_CHECK(!done, "read returned %d without data", ret);
        fsrt::send(e, "more"); fst::run(fst::now() + 50 * MS);
        MC_CHECK(done && ret == SUCCESS && got == "more", "waiting after a timeout gives %d", ret);
    }
    mc::state(tm * 16 + what * 2 + rd);
    s.reset(); end();
}
// one coroutine reads and another writes: neither disturbs the other
static void duplex(int depth) {
    start();
    fsrt::Ep* e; PSocket s = open(e, 1);
    s->set_recv_timeout(300 * MS); s->set_send_timeout(300 * MS);
    S got, sent, put, out; int rto = 0, wto = 0; bool stop = false; error_t rerr = SUCCESS, werr = SUCCESS; bool rwait = false, wwait = false;
    int wleft = 0;
    fst::spawn("reader", [&] {
        while (!stop) {
            char b[1316]; size_t n = 0; rwait = true; error_t r = s->read(b, sizeof b, n); rwait = false;
            if (r == ERROR_SRT_SOCKET_TIMEOUT) { ++rto; continue; }
            if (r != SUCCESS) { rerr = r; break; }
            got.append(b, n);
        }
    });
    fst::spawn("writer", [&] {
        while (!stop) {
            if (!wleft) { fst::sleep(MS); continue; }
            S d = fill(5, (int) put.size()); wwait = true; error_t r = s->write(&d[0], d.size()); wwait = false;
            if (r == ERROR_SRT_SOCKET_TIMEOUT) { ++wto; continue; }
            if (r != SUCCESS) { werr = r; break; }
            --wleft; put += d;
        }
    });
    fst::run(fst::now() + MS);
    bool closed = false;
    for (int i = 0; i < depth && !closed; ++i) {
        int op = mc::choose(6, "data arrives, write asked, peer takes, 15 ms, 350 ms, peer closes");
        mc::step();
        switch (op) {
            case 0: { S d = fill(3, i); fsrt::send(e, d); sent += d; break; }
            case 1: ++wleft; break;
            case 2: for (auto& x : fsrt::taken(e)) out += x; break;
            case 3: fst::run(fst::now() + 15 * MS); break;
            case 4: fst::run(fst::now() + 350 * MS); break;
            default: fsrt::shut(e); closed = true;
        }
        fst::run(fst::now() + MS);
        mc::state(got.size() * 1000 + put.size() * 10 + wleft);
    }
    fst::run(fst::now() + 30 * MS);
    MC_CHECK(got == sent, "read %zu bytes of the %zu that arrived", got.size(), sent.size());
    if (!closed) {
        for (auto& x : fsrt::taken(e)) out += x;
        for (int i = 0; i < 20 && wleft; ++i) { fst::run(fst::now() + 30 * MS); for (auto& x : fsrt::taken(e)) out += x; }
        fst::run(fst::now() + 30 * MS); for (auto& x : fsrt::taken(e)) out += x;
        MC_CHECK(wleft == 0, "writer blocked though the peer takes everything");
        MC_CHECK(out == put, "peer received %zu of the %zu bytes written", out.size(), put.size());
        MC_CHECK(rerr == SUCCESS && werr == SUCCESS, "errors %d %d", rerr, werr);
    } else MC_CHECK(rerr != SUCCESS, "reader does not notice the end");
    stop = true;
    fst::run(fst::now() + 700 * MS);
    s.reset(); end();
}
// outgoing connections: accepted, refused, unanswered
static void connects() {
    start();
    int what = mc::choose(3, "accepted, refused, unanswered"); int delay = mc::choose(3, "at once, after 5 ms, after 500 ms"); bool bind = mc::flip("from a given address");
    PSocket s; bool done = false; fst::usec t0 = fst::now(), t1 = 0; error_t ret = SUCCESS;
    fst::spawn("client", [&] {
        if (bind) {
            auto fd = st_srt_create_fd();
            ret = st_srt_connect(fd, "127.0.0.1", 7000, "127.0.0.1", 7001, 1000 * MS);
            if (ret == SUCCESS) s = std::make_shared<Socket>(std::make_shared<StSrtSocket>(fd), "127.0.0.1", 7000); else st_srt_close(fd);
        } else s = SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::SRT, "127.0.0.1", 7000, 1000 * MS);
        t1 = fst::now(); done = true;
    });
    fst::run(fst::now());
    auto c = fsrt::connecting();
    MC_CHECK(c.size() == 1 && fsrt::port_of(c[0]) == 7000, "no connection attempt");
    fst::run(fst::now() + (delay == 0 ? 0 : delay == 1 ? 5 * MS : 500 * MS));
    fsrt::Ep* e = c[0];
    if (what < 2) fsrt::answer(e, what == 0);
    fst::usec ta = fst::now();
    fst::run(t0 + 3000 * MS);
    MC_CHECK(done, "connecting for ever");
    MC_CHECK((s != nullptr) == (what == 0), "connection that was %s is reported as %s", what == 0 ? "accepted" : what == 1 ? "refused" : "not answered", s ? "open" : "failed");
    if (what == 2) MC_CHECK(t1 >= t0 + 1000 * MS && t1 <= t0 + 1030 * MS, "gave up after %llu us", t1 - t0);
    else MC_CHECK(t1 <= ta + 20 * MS, "answer noticed %llu us late", t1 - ta);
    if (s) {
        S d = "hello", got; fst::usec tm = s->get_recv_timeout();
        if (!bind) MC_CHECK(tm == 1000 * MS && s->get_send_timeout() == 1000 * MS, "the connection has no timeouts");
        done = false;
        fst::spawn("client", [&] { MC_CHECK(s->write(&d[0], d.size()) == SUCCESS, "write failed"); char b[100]; size_t n = 0; ret = s->read(b, sizeof b, n); got.assign(b, n); done = true; });
        fst::run(fst::now() + 20 * MS);
        auto t = fsrt::taken(e); MC_CHECK(t.size() == 1 && t[0] == "hello", "request not sent");
        fsrt::send(e, "world"); fst::run(fst::now() + 20 * MS);
        MC_CHECK(done && ret == SUCCESS && got == "world", "answer not received");
    }
    mc::state(what * 8 + delay * 2 + bind);
    s.reset(); end();
}
// connections arrive in any pattern, some dead before they are accepted: every live one is accepted, in order
static void accepts(int n) {
    start();
    std::vector<fsrt::Ep*> live;
    for (int i = 0; i < n; ++i) {
        int op = mc::choose(4, "connect, dies before it is accepted, connects and closes, time");
        mc::step();
        if (op == 3) { fst::run(fst::now() + 15 * MS); continue; }
        if (op == 1) { fst::run(fst::now() + 15 * MS); fsrt::accept_errors(PORT, 1); }
        auto e = fsrt::dial(PORT, "#" + std::to_string(i));
        MC_CHECK(e, "the server no longer listens");
        if (op == 0) live.push_back(e);
        if (op == 2) fsrt::shut(e);
        if (op == 1) fst::run(fst::now() + 15 * MS);
    }
    fst::run(fst::now() + 50 * MS);
    size_t k = 0;
    for (auto& s : *accepted) {
        if (!s) continue;
        auto io = dynamic_cast<StSrtSocket*>(s->get_io().get());
        for (size_t j = k; j < live.size(); ++j) if (io->get_streamid().size() && !fsrt::peer_closed(live[j])) { fsrt::send(live[j], "x"); }
    }
    std::vector<S> ids; for (auto& s : *accepted) { auto io = dynamic_cast<StSrtSocket*>(s->get_io().get()); char b[1316]; size_t nr = 0; s->set_recv_timeout(1000); if (io->get_streamid().empty()) continue; bool ok = false; fst::spawn("r", [&] { ok = s->read(b, sizeof b, nr) == SUCCESS; }); fst::run(fst::now() + 20 * MS); if (ok) ids.push_back(io->get_streamid()); }
    MC_CHECK(ids.size() == live.size(), "%zu of %zu connections accepted", ids.size(), live.size());
    mc::state(live.size());
    end();
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C25", {
        {"reads", "up to 4 (quick: 3) messages of 5 sizes, each sent before the read, while it waits or 500 ms later, 6 read sizes x 3 ways of reading x peer closing right after", [t] { reads(t ? 4 : 3); }, 4, init},
        {"writes", "up to 2 writes of 7 sizes x window of 1, 2 or 8192 messages x 3 ways the peer takes them", writes, 3, init},
        {"timeouts", "5 timeouts x reader and writer x data or close 1 us before or after", timeouts, 3, init},
        {"duplex", "a reader and a writer on one socket, every history of 8 (quick: 7) events of {data, write, peer takes, 15 ms, 350 ms, peer closes}", [t] { duplex(t ? 8 : 7); }, 3, init},
        {"connects", "outgoing connection accepted, refused or unanswered at 3 moments x 2 ways of connecting", connects, 3, init},
        {"accepts", "every history of 8 (quick: 6) of {connect, dead connection, connect and close, time}", [t] { accepts(t ? 8 : 6); }, 3, init},
    });
}
