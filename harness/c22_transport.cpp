// C22: TCP, memory and file transports deliver the written bytes exactly and say so when they cannot.
#include "stack.hpp"
#include <sps_io_socket.hpp>
#include <sps_sys_st_io_tcp.hpp>
#include <sys/mman.h>
#include <unistd.h>
using namespace stack;
static std::string stream(size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += (char) ("a\n\0b\xff"[i % 5] + i / 5 % 3); return s; }
static const size_t sizes[] = {1, 2, 3, 5, 100};
static const fst::usec SEC = 1000000;

// one read operation of any transport; what it may return is a function of `avail` bytes being there
struct Op { bool full; size_t n; };
static Op op() { Op o; o.full = mc::flip("fully"); o.n = mc::pick(sizes, "size"); return o; }
static error_t run(IReader& r, const Op& o, std::string& out) {
    std::vector<char> b(o.n);                 // exactly as large as asked: overruns are seen
    memset(b.data(), 'Z', o.n);
    size_t got = 0; ssize_t gotf = -1;
    error_t e = o.full ? r.read_fully(b.data(), o.n, &gotf) : r.read(b.data(), o.n, got);
    out.clear();
    if (e != SUCCESS) return e;
    if (o.full) { MC_CHECK(gotf == (ssize_t) o.n, "read_fully of %zu bytes reports %zd", o.n, gotf); got = o.n; }
    MC_CHECK(got >= 1 && got <= o.n, "read of up to %zu bytes succeeded with %zu", o.n, got);
    out.assign(b.data(), got);
    return e;
}
// ---- TCP between the server's sockets and a peer
// what the peer does, in order
struct Step { int kind; size_t n; };          // 0 data, 1 pause 2 s, 2 close, 3 reset, 4 interrupt
static void tcp_read(int nsteps, int nops, int delay) {
    quiet(); fst::reset(); fst::set_delay_bound(delay); fst::reset();
    bool raw = mc::flip("raw");               // below or through Socket
    bool client = mc::flip("client");         // connected by the server, or accepted by it
    std::vector<Step> plan; std::string all; 
    for (int i = 0; i < nsteps; ++i) {
        Step s{mc::choose(5, "peer"), 0};
        if (s.kind == 0) s.n = 1 + mc::choose(3, "bytes");
        plan.push_back(s);
        if (s.kind == 2 || s.kind == 3) break;
    }
    PSocket sock;
    fst::Listener* l = nullptr; fst::Ep* e = nullptr;
    int armed = 0;
    fst::on_read = [&](fst::Ep*, size_t) { int k = armed; armed = 0; return k; };
    if (client) {
        l = fst::listen(7000);
        fst::spawn("dial", [&] { sock = SingleInstance<ClientSocketFactory>::get_instance().create_ss(TCP, "127.0.0.1", 7000, SEC); });
        fst::run(fst::now());
        MC_CHECK(sock && (e = fst::accept(l, 0)), "no connection");
    } else {
        auto ss = SingleInstance<ServerSocketFactory>::get_instance().create_ss(TCP);
        MC_CHECK(ss->listen("", 7001, false, 10) == SUCCESS, "listen failed");
        fst::spawn("accept", [&] { sock = ss->accept(); });
        e = fst::dial(7001); fst::run(fst::now());
        MC_CHECK(sock, "not accepted");
        MC_CHECK(sock->get_peer_ip() == "127.0.0.1" && sock->get_peer_port() == 40000 && sock->get_self_port() == 7001, "addresses %s:%d -> %d", sock->get_peer_ip().c_str(), sock->get_peer_port(), sock->get_self_port());
    }
    sock->set_recv_timeout(SEC); sock->set_send_timeout(SEC);
    MC_CHECK(sock->get_recv_timeout() == SEC && sock->get_send_timeout() == SEC, "timeouts not kept");
    std::string seen; bool dead = false;
    bool reset_done = false, closed = false; std::string sent;
    fst::spawn("peer", [&] {
        for (auto& s : plan) {
            if (s.kind == 0) { std::string d = stream(sent.size() + s.n).substr(sent.size()); sent += d; fst::send(e, d); }
            else if (s.kind == 1) fst::sleep(2 * SEC);
            else if (s.kind == 2) { closed = true; fst::shut(e); }
            else if (s.kind == 3) { reset_done = true; armed = ECONNRESET; }
            else armed = EINTR;
            fst::yield();
        }
    });
    fst::spawn("reader", [&] {
        IReader& r = raw ? (IReader&) *sock->get_io() : (IReader&) *sock;
        for (int i = 0; i < nops && !dead; ++i) {
            Op o = op(); std::string got;
            size_t before = seen.size();
            fst::usec t0 = fst::now();
            int was = armed;
            error_t ret = run(r, o, got);
            mc::note("read%s(%zu) -> %d %s", o.full ? "_fully" : "", o.n, ret, mc::quote(got).c_str());
            if (ret == SUCCESS) { seen += got; MC_CHECK(sent.compare(0, seen.size(), seen) == 0, "bytes %s are not the bytes sent %s", mc::quote(seen).c_str(), mc::quote(sent).c_str()); mc::nontrivial(); continue; }
            if (!o.full) {
                // a failed read consumed nothing and says why
                if (ret == ERROR_SOCKET_TIMEOUT) MC_CHECK(fst::now() - t0 == SEC, "timeout after %llu us", fst::now() - t0);
                else if (ret == ERROR_SOCKET_CLOSED) { MC_CHECK(closed && before == sent.size(), "end reported early"); dead = true; }
                else if (ret == ERROR_SOCKET_EINTR) MC_CHECK(was == EINTR || armed == 0, "interrupt out of nowhere");
                else { MC_CHECK(ret == ERROR_SOCKET_READ && reset_done, "error %d", ret); dead = true; }
            } else {
                MC_CHECK(ret == ERROR_SOCKET_TIMEOUT || ret == ERROR_SOCKET_CLOSED || ret == ERROR_SOCKET_EINTR || ret == ERROR_SOCKET_READ || ret == ERROR_SOCKET_READ_FULLY, "error %d", ret);
                if (ret == ERROR_SOCKET_TIMEOUT) MC_CHECK(fst::now() > t0, "immediate timeout");
                dead = true;                    // how much a failed read_fully took is unspecified
            }
        }
        MC_CHECK(!dead || true, "-");
    });
    fst::run();
    mc::validated(); mc::state(mc::hash_str(seen, plan.size() * 8 + dead));
    sock.reset();
    MC_CHECK(fst::peer_closed(e), "the connection outlives its socket");
    fst::shut(e);
    fst::run();
    MC_CHECK(fst::alive() == 0 && fst::open_fds() == 0, "leaked a connection");
    fst::abandon();
}
static void tcp_write() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(7000);
    PSocket sock; fst::spawn("dial", [&] { sock = SingleInstance<ClientSocketFactory>::get_instance().create_ss(TCP, "127.0.0.1", 7000, SEC); });
    fst::run(fst::now());
    fst::Ep* e = fst::accept(l, 0); MC_CHECK(e && sock, "no connection");
    std::string want; int pending = 0;
    static const int errs[] = {0, ETIME, EPIPE, ECONNRESET};
    fst::on_write = [&](fst::Ep*, size_t) { return pending; };
    fst::spawn("writer", [&] {
        for (int i = 0; i < 4; ++i) {
            size_t n = mc::pick(sizes, "size"); pending = mc::pick(errs, "error");
            std::string d = stream(want.size() + n).substr(want.size());
            error_t ret = sock->write((void*) d.data(), n);
            MC_CHECK(ret == (pending == 0 ? SUCCESS : pending == ETIME ? ERROR_SOCKET_TIMEOUT : ERROR_SOCKET_WRITE), "write with errno %d returned %d", pending, ret);
            if (ret == SUCCESS) { want += d; mc::nontrivial(); }
        }
    });
    fst::run();
    std::string got = fst::taken(e);
    MC_CHECK(got == want, "peer received %s instead of %s", mc::quote(got).c_str(), mc::quote(want).c_str());
    mc::validated(); mc::state(mc::hash_str(want));
    sock.reset(); fst::shut(e);
    MC_CHECK(fst::open_fds() == 0, "leaked a connection");
}
// ---- connecting
static void tcp_connect() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    static const char* const hosts[] = {"127.0.0.1", "no.such.host.invalid", ""};
    std::string h = mc::pick(hosts, "host"); bool up = mc::flip("listening");
    static const int errs[] = {0, ECONNREFUSED, ETIME, ENETUNREACH};
    int err = mc::pick(errs, "error");
    if (up) fst::listen(7000);
    fst::on_connect = [&](int) { return err; };
    PSocket sock; bool done = false;
    fst::spawn("dial", [&] { sock = SingleInstance<ClientSocketFactory>::get_instance().create_ss(TCP, h, 7000, SEC); done = true; });
    fst::run(fst::now() + 10 * SEC);
    MC_CHECK(done, "connect never returns");
    MC_CHECK((sock != nullptr) == (up && err == 0 && h == "127.0.0.1"), "connection to %s with errno %d: %s", h.c_str(), err, sock ? "made" : "not made");
    if (sock) MC_CHECK(sock->get_peer_ip() == h && sock->get_peer_port() == 7000, "peer %s:%d", sock->get_peer_ip().c_str(), sock->get_peer_port());
    mc::validated(); mc::nontrivial(); mc::state(err * 4 + up);
    sock.reset();
    MC_CHECK(fst::open_fds() == 0, "a failed connect leaked its descriptor");
}
// ---- memory
static void memory(int nops) {
    quiet();
    size_t len = mc::choose(9, "length");
    std::vector<char> buf(len); std::string d = stream(len); if (mc::flip("returns")) for (char& ch : d) if (ch == 'b' || ch == 'c') ch = '\r';
    memcpy(buf.data(), d.data(), len);
    MemoryReaderWriter m(buf.data(), (int) len);
    size_t pos = 0; int lines = 0;
    for (int i = 0; i < nops; ++i) {
        int k = mc::choose(4, "op");
        size_t n = 1 + mc::choose(4, "n");
        std::string got;
        if (k < 2) {
            error_t r = run(m, Op{k == 1, n}, got);
            size_t left = len - pos;
            if (k == 0) MC_CHECK(left ? r == SUCCESS && got == d.substr(pos, n) : r == ERROR_IO_EOF, "read(%zu) of %zu left: %d %s", n, left, r, mc::quote(got).c_str());
            else MC_CHECK(left >= n ? r == SUCCESS && got == d.substr(pos, n) : r == ERROR_IO_EOF, "read_fully(%zu) of %zu left: %d", n, left, r);
            pos += got.size();
        } else if (k == 2) {
            error_t r = m.read_line(got);
            if (pos >= len) MC_CHECK(r == ERROR_IO_EOF, "line after the end");
            else {
                size_t q = d.find('\n', pos);
                std::string want = d.substr(pos, q == std::string::npos ? q : q - pos);
                MC_CHECK(r == SUCCESS && got == want, "line %s is %s", mc::quote(want).c_str(), mc::quote(got).c_str());
                pos = q == std::string::npos ? len : q + 1;
                MC_CHECK(m.cur_line_num() == ++lines, "line number %d", m.cur_line_num());
            }
        } else {
            std::string w(n, (char) ('P' + i));
            error_t r = m.write((void*) w.data(), n);
            if (len - pos < n) MC_CHECK(r != SUCCESS, "write past the end of the memory");
            else { MC_CHECK(r == SUCCESS, "write failed with %d", r); d.replace(pos, n, w); pos += n; }
        }
        MC_CHECK(std::string(buf.begin(), buf.end()) == d, "memory is %s instead of %s", mc::quote(std::string(buf.begin(), buf.end())).c_str(), mc::quote(d).c_str());
        mc::step();
    }
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(d, pos));
}
// ---- file, backed by memory
static int memfd = -1;
static void mkscratch() { memfd = memfd_create("c22", 0); if (memfd < 0) mc::broken("memfd_create"); }
static void file(int nops) {
    quiet();
    std::string path = "/proc/self/fd/" + std::to_string(memfd), d;
    if (ftruncate(memfd, 0)) mc::broken("ftruncate");
    {
        int mode = mc::choose(3, "mode");       // create; overwrite; append
        if (mode) { FileURLProtocol f(true, false); MC_CHECK(f.open(path) == SUCCESS, "open"); std::string x = "old"; MC_CHECK(f.write((void*) x.data(), 3) == SUCCESS, "write"); f.close(); }
        FileURLProtocol f(mode < 2, mode == 2);
        MC_CHECK(f.open(path) == SUCCESS, "open for writing");
        if (mode == 2) d = "old";
        int n = mc::choose(3, "writes"); bool cr = n && mc::flip("returns");
        for (int i = 0; i < n; ++i) { size_t k = 1 + mc::choose(3, "n"); std::string w = stream(d.size() + k).substr(d.size()); for (char& ch : w) if (cr && (ch == 'b' || ch == 'a')) ch = '\r';
              MC_CHECK(f.write((void*) w.data(), k) == SUCCESS, "write"); d += w; }
        if (mc::flip("close")) f.close();
    }
    FileURLProtocol f;
    MC_CHECK(f.open(path) == SUCCESS, "open for reading");
    size_t pos = 0; bool over = false; int lines = 0;
    for (int i = 0; i < nops && !over; ++i) {
        int k = mc::choose(3, "op");
        size_t n = k < 2 ? 1 + mc::choose(4, "n") : 0, left = d.size() - pos;
        std::string got;
        if (k < 2) {
            error_t r = run(f, Op{k == 1, n}, got);
            if (k == 0) MC_CHECK(left ? r == SUCCESS && got == d.substr(pos, n) : r == ERROR_IO_EOF, "read(%zu) of %zu left: %d %s", n, left, r, mc::quote(got).c_str());
            else MC_CHECK(left >= n ? r == SUCCESS && got == d.substr(pos, n) : r == ERROR_IO_EOF, "read_fully(%zu) of %zu left: %d", n, left, r);
            pos += got.size(); over = r != SUCCESS;
        } else {
            error_t r = f.read_line(got);
            if (!left) { MC_CHECK(r == ERROR_IO_EOF, "line after the end: %d", r); over = true; }
            else {
                size_t q = d.find('\n', pos); std::string want = d.substr(pos, q == std::string::npos ? q : q - pos);
                MC_CHECK(r == SUCCESS && got == want, "line %s is %s (%d)", mc::quote(want).c_str(), mc::quote(got).c_str(), r);
                MC_CHECK(f.cur_line_num() == ++lines, "line number");
                pos = q == std::string::npos ? d.size() : q + 1;
            }
        }
        mc::step();
    }
    // at the end it stays at the end
    if (over) { std::string got; MC_CHECK(run(f, Op{false, 2}, got) != SUCCESS, "bytes after the end of the file"); }
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(d, pos));
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C22", {
        {"tcp-read", t ? "every peer behaviour of up to 4 steps (segments of 1-3 bytes, pauses, close, reset, interrupt), 4 reads of 5 sizes, plain and full, 2 layers, accepted and connected sockets" : "every peer behaviour of up to 3 steps (segments of 1-3 bytes, pauses, close, reset, interrupt), 3 reads of 5 sizes, plain and full, 2 layers, accepted and connected sockets",
         [t] { tcp_read(t ? 4 : 3, t ? 4 : 3, 0); }, 5},
        {"tcp-schedules", "2 peer steps, 2 reads, every schedule with up to 2 deviations from FIFO", [t] { tcp_read(2, 2, t ? 4 : 2); }, 5},
        {"tcp-write", "every sequence of 4 writes of 5 sizes with 3 errors", tcp_write, 4},
        {"tcp-connect", "every outcome of resolving and connecting", tcp_connect, 2},
        {"memory", t ? "memory of 0-8 bytes, every sequence of 5 operations" : "memory of 0-8 bytes, every sequence of 4 operations", [t] { memory(t ? 5 : 4); }, 4},
        {"file", t ? "files written in 3 modes and up to 2 writes, every sequence of 5 reads" : "files written in 3 modes and up to 2 writes, every sequence of 4 reads", [t] { file(t ? 5 : 4); }, 4, mkscratch},
    });
}
