// C26: TLS carries the same bytes as TCP, between the right ends, whatever other connections do.
#include "stack.hpp"
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <sps_io_socket.hpp>
#include <sps_sys_st_io_ssl.hpp>
#include <sys/mman.h>
#include <unistd.h>
using namespace stack;
static const fst::usec SEC = 1000000;
static void settle(fst::usec us = 0) { fst::usec t = fst::now() + us; fst::run(t); if (fst::now() < t) fst::sleep(t - fst::now()); }
static std::string pattern(size_t n, int seed) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char) ((i * 7 + i / 251 + seed * 31) & 0xff); return s; }

// ---- certificates, kept in memory files
struct Cert { std::string crt, key; EVP_PKEY* k = nullptr; X509* x = nullptr; };
static std::string memfile(BIO* b) {
    char* d; long n = BIO_get_mem_data(b, &d);
    int fd = memfd_create("pem", 0);
    if (fd < 0 || write(fd, d, n) != n) mc::broken("memfd");
    BIO_free(b);
    return "/proc/self/fd/" + std::to_string(fd);
}
static Cert make(const std::string& cn) {
    Cert c;
    c.k = EVP_RSA_gen(2048); c.x = X509_new();
    if (!c.k || !c.x) mc::broken("no key");
    X509_set_version(c.x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(c.x), 7);
    X509_gmtime_adj(X509_getm_notBefore(c.x), -1000000); X509_gmtime_adj(X509_getm_notAfter(c.x), 1000000000);
    X509_set_pubkey(c.x, c.k);
    auto nm = X509_get_subject_name(c.x);
    X509_NAME_add_entry_by_txt(nm, "CN", MBSTRING_ASC, (const unsigned char*) cn.c_str(), -1, -1, 0);
    X509_set_issuer_name(c.x, nm);
    if (!X509_sign(c.x, c.k, EVP_sha256())) mc::broken("no certificate");
    BIO* b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, c.x); c.crt = memfile(b);
    b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, c.k, nullptr, nullptr, 0, nullptr, nullptr); c.key = memfile(b);
    return c;
}
static std::map<std::string, Cert> certs;

// ---- randomness: one reproducible stream for the environment, one for the code under test
static uint64_t rnd[2]; static int rndside;
static int rnd_bytes(unsigned char* b, int n) {
    for (int i = 0; i < n; ++i) { uint64_t z = (rnd[rndside] += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; b[i] = (unsigned char) ((z ^ (z >> 31)) >> 24); }
    return 1;
}
static int rnd_status() { return 1; }
static int rnd_seed(const void*, int) { return 1; }
static int rnd_add(const void*, int, double) { return 1; }
static void reseed() { rnd[0] = 1; rnd[1] = 2; }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
static void determinism() { static RAND_METHOD m = {rnd_seed, rnd_bytes, nullptr, rnd_add, rnd_bytes, rnd_status}; RAND_set_rand_method(&m); reseed(); }
#pragma GCC diagnostic pop

// ---- a TLS end of the environment. Its OpenSSL calls leave no errors behind: the error queue
// is shared with the code under test, which is alone with it in its own process.
struct Mark { int was; Mark() { ERR_set_mark(); was = rndside; rndside = 1; } ~Mark() { ERR_pop_to_mark(); rndside = was; } };
struct Tls {
    SSL_CTX* ctx = nullptr; SSL* ssl = nullptr; BIO *in = nullptr, *out = nullptr;
    bool up = false, failed = false, eof = false, bye = false;   // handshake done; failed; connection closed; close_notify seen
    std::string got;                   // plain text received
    std::string pending;               // encrypted, not handed to the network
    void init(bool client, const char* sni, int minv, int maxv, const Cert* c) {
        Mark m;
        ctx = SSL_CTX_new(client ? TLS_client_method() : TLS_server_method());
        SSL_CTX_set_min_proto_version(ctx, minv); SSL_CTX_set_max_proto_version(ctx, maxv);
        SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, nullptr);
        if (c) { SSL_CTX_use_certificate(ctx, c->x); SSL_CTX_use_PrivateKey(ctx, c->k); }
        ssl = SSL_new(ctx); in = BIO_new(BIO_s_mem()); out = BIO_new(BIO_s_mem());
        SSL_set_bio(ssl, in, out);
        if (client) SSL_set_connect_state(ssl); else SSL_set_accept_state(ssl);
        if (sni) SSL_set_tlsext_host_name(ssl, sni);
    }
    void feed(const std::string& d) { if (d.size()) BIO_write(in, d.data(), d.size()); }
    // advance as far as the bytes received allow
    void turn() {
        Mark m;
        if (!up && !failed) {
            int r = SSL_do_handshake(ssl);
            if (r == 1) up = true; else if (SSL_want(ssl) != SSL_READING) failed = true;
        }
        if (up && !failed) for (;;) {
            char b[65536];
            int r = SSL_read(ssl, b, sizeof b);
            if (r > 0) { got.append(b, r); continue; }
            if (SSL_get_shutdown(ssl) & SSL_RECEIVED_SHUTDOWN) bye = true;
            else if (!SSL_want_read(ssl)) failed = true;
            break;
        }
        drain();
    }
    void drain() { char* d; long n = BIO_get_mem_data(out, &d); if (n > 0) { pending.append(d, n); Mark m; (void) BIO_reset(out); } }
    void put(const std::string& d) { Mark m; if (d.size() && SSL_write(ssl, d.data(), d.size()) != (int) d.size()) mc::broken("harness cannot write"); drain(); }
    void notify() { Mark m; SSL_shutdown(ssl); drain(); }
    std::string cn() {
        X509* x = SSL_get0_peer_certificate(ssl);
        if (!x) return "";
        char b[64] = ""; X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, b, sizeof b);
        return b;
    }
    ~Tls() { if (ssl) SSL_free(ssl); if (ctx) SSL_CTX_free(ctx); }
    Tls() = default; Tls(const Tls&) = delete;
};
// a client, driven from the main context
enum Cut { WHOLE, BYTES, AT };
struct Client {
    fst::Ep* e = nullptr; Tls t; Peer peer;
    int cut = WHOLE; size_t at = 0, out = 0, seg = 1;   // AT: one cut after `at` bytes of all we send
    void dial(int port, const char* sni = nullptr, int minv = 0, int maxv = TLS1_2_VERSION) { e = fst::dial(port); if (!e) mc::fail("connection to port %d refused", port); peer.e = e; t.init(true, sni, minv, maxv, nullptr); }
    void raw(const std::string& d) { if (!fst::peer_closed(e)) fst::send(e, d); mc::step(); }
    void emit() {
        std::string d; d.swap(t.pending);
        if (d.empty()) return;
        if (cut == BYTES) { for (size_t i = 0; i < d.size(); i += seg) raw(d.substr(i, seg)); }
        else if (cut == AT && out < at && at < out + d.size()) { raw(d.substr(0, at - out)); settle(); raw(d.substr(at - out)); }
        else raw(d);
        out += d.size();
    }
    void pull() { t.feed(fst::taken(e)); if (fst::peer_closed(e)) t.eof = true; }
    bool step() { pull(); t.turn(); bool any = !t.pending.empty(); emit(); return any; }
    void go() { for (int i = 0; i < 200; ++i) { bool a = step(); settle(); pull(); if (!a && BIO_ctrl_pending(t.in) == 0) { t.turn(); if (t.pending.empty()) return; } } mc::fail("handshake never settles"); }
    void say(const std::string& d) { t.put(d); emit(); }
    Reply reply() { pull(); t.turn(); return parse_reply(t.got, t.eof); }
};
static void quit(std::vector<Client*> cs) { std::vector<Peer*> ps; for (auto c : cs) ps.push_back(&c->peer); finish(ps); }
static void reset(int delay = 0) { quiet(); reseed(); ERR_clear_error(); fst::reset(); fst::set_delay_bound(delay); fst::reset(); }

// ---- a server of our own on the server's sockets
static std::function<void(PSocket)> serve;
static const int OWN = 7443;
static void init_own() {
    quiet(); fst::set_delay_bound(0);
    determinism(); certs["own"] = make("own");
    static auto ss = SingleInstance<ServerSocketFactory>::get_instance().create_ss(Transport::HTTPS);
    SSLConfig c; c.crt_file = certs["own"].crt; c.key_file = certs["own"].key;
    dynamic_cast<StSSLServerSocket*>(ss.get())->init_config(c);
    if (ss->listen("", OWN, false, 10) != SUCCESS) mc::broken("listen");
    fst::spawn("accept", [] { for (;;) { PSocket s = ss->accept(); if (!s) mc::fail("accept gave nothing"); s->set_recv_timeout(5 * SEC); s->set_send_timeout(5 * SEC); fst::spawn("serve", [s] { serve(s); }); } });
    fst::run(); fst::mark_persistent();
    certs["far"] = make("far");
}
// what the server does with one connection: read a message of n bytes in reads of `rd` (0: read_fully), answer, wait for the end
struct Seen { std::string msg; error_t end = -1; bool over = false; error_t wr = -1; };
static void exchange(PSocket s, size_t n, size_t rd, const std::string& answer, Seen& seen) {
    if (rd == 0) {                     // the socket's own, below the loop of Socket
        std::vector<char> b(n); ssize_t g = -1;
        error_t e = s->get_io()->read_fully(b.data(), n, &g);
        if (e != SUCCESS) { seen.end = e; return; }
        MC_CHECK(g == (ssize_t) n, "read_fully of %zu bytes reports %zd", n, g);
        seen.msg.assign(b.data(), n);
    } else while (seen.msg.size() < n) {
        std::vector<char> b(rd); size_t g = 0;
        error_t e = s->read(b.data(), rd, g);
        if (e != SUCCESS) { seen.end = e; return; }
        MC_CHECK(g >= 1 && g <= rd, "read of up to %zu bytes succeeded with %zu", rd, g);
        seen.msg.append(b.data(), g);
    }
    MC_CHECK(s->get_self_port() == OWN && s->get_peer_port() == 40000 && s->get_self_ip() == "127.0.0.1" && s->get_peer_ip() == "127.0.0.1", "addresses %s:%d -> %s:%d", s->get_peer_ip().c_str(), s->get_peer_port(), s->get_self_ip().c_str(), s->get_self_port());
    std::string w = answer;
    seen.wr = w.empty() ? SUCCESS : s->write(&w[0], w.size());
    char b[16]; size_t g = 0;
    seen.end = s->read(b, sizeof b, g);
    seen.over = seen.end == SUCCESS;
}
static void check(Client& c, const Seen& seen, const std::string& msg, const std::string& answer) {
    MC_CHECK(c.t.up && !c.t.failed, "the handshake of a proper client failed");
    MC_CHECK(c.t.cn() == "own", "certificate of %s", c.t.cn().c_str());
    MC_CHECK(seen.msg == msg, "server received %zu bytes that are not the %zu sent (%s... / %s...)", seen.msg.size(), msg.size(), mc::hex(seen.msg.substr(0, 20)).c_str(), mc::hex(msg.substr(0, 20)).c_str());
    MC_CHECK(c.t.got == answer, "client received %zu bytes that are not the %zu written", c.t.got.size(), answer.size());
    mc::validated(2); mc::nontrivial();
}
static const char MSG[] = "hello, this is a message";
// every place where the network may cut what the client sends
static void cuts() {
    reset();
    size_t rd = mc::pick(std::vector<size_t>{0, 1, 7, 64, 4096}, "read size");
    Client c; c.cut = mc::choose(3, "cut");
    if (c.cut == BYTES) c.seg = 1 + mc::choose(3, "segment"); else if (c.cut == AT) c.at = 1 + mc::choose(470, "at");
    std::string msg = MSG, answer = pattern(300, 1); Seen seen;
    serve = [&](PSocket s) { exchange(s, msg.size(), rd, answer, seen); };
    c.dial(OWN); c.go(); 
    if (c.t.up) { c.say(msg); c.go(); }
    check(c, seen, msg, answer);
    MC_CHECK(c.cut != AT || c.out <= 470, "harness: %zu bytes sent, cut places stop at 470", c.out);
    bool n = mc::flip("notify");
    if (n) { c.t.notify(); c.emit(); settle(); }
    c.peer.close(); settle();
    MC_CHECK(seen.end > 0 && !seen.over, "the server read on after the end");
    mc::state(mc::hash_str("cuts", c.cut * 1000 + c.at + rd * 100000));
    quit({&c});
}
// a client that does not wait for the end of the handshake: its request follows its half of it at once.
// (OpenSSL's client always waits, so what it sends is recorded first and played back on the same randomness.)
static void early() {
    size_t rd = mc::pick(std::vector<size_t>{0, 1, 7, 4096}, "read size"), m = mc::pick(std::vector<size_t>{1, 24, 900, 1024, 5000, 40000}, "message");
    if (rd == 1 && m > 1024) return;
    std::string flight[3], hello, msg = pattern(m, 4), answer = pattern(300, 1), rest;
    for (int pass = 0; pass < 2; ++pass) {
        reset();
        Seen seen;
        serve = [&](PSocket s) { exchange(s, m, rd, answer, seen); };
        Client c; c.dial(OWN);
        if (pass == 0) {
            for (auto& f : flight) { std::string d = fst::taken(c.e); if (hello.empty()) hello = d; c.t.feed(d); c.t.turn(); if (c.t.up) c.t.put(msg); f = c.t.pending; c.emit(); settle(); }
            c.go();
            check(c, seen, msg, answer);
        } else {
            c.raw(flight[0]); settle();
            if (fst::taken(c.e) != hello) { quit({&c}); return; }      // the recording does not fit this handshake
            rest = flight[1] + flight[2];
            int cut = mc::choose(3, "cut"); size_t k = flight[1].size();
            if (cut == 0) c.raw(rest);
            else if (cut == 1) { k = std::min(k + mc::choose(40, "at"), rest.size() - 1); c.raw(rest.substr(0, k)); settle(); c.raw(rest.substr(k)); }
            else for (size_t i = 0; i < rest.size(); i += 11) c.raw(rest.substr(i, 11));
            settle();
            MC_CHECK(seen.msg == msg, "server received %zu bytes that are not the %zu sent right behind the handshake", seen.msg.size(), m);
            mc::validated(); mc::nontrivial(); mc::state(mc::hash_str("early", rd * 100000 + m + k * 7 + cut));
        }
        quit({&c});
    }
}
// every size of message, answer and read
static void sizes() {
    static const size_t ms[] = {1, 100, 1023, 1024, 1025, 16383, 16384, 16385, 40000}, as[] = {1, 16384, 16385, 100000}, rs[] = {0, 1, 7, 1000, 65536}, segs[] = {0, 1, 1400};
    reset();
    size_t m = mc::pick(ms, "message"), a = mc::pick(as, "answer"), rd = mc::pick(rs, "read size"), seg = mc::pick(segs, "segment");
    if ((seg == 1 || rd == 1) && m > 1025) return;
    size_t win = mc::flip("slow") ? 5000 : 0;
    Client c; std::string msg = pattern(m, 1), answer = pattern(a, 2); Seen seen;
    serve = [&](PSocket s) { exchange(s, m, rd, answer, seen); };
    c.dial(OWN); c.go();
    if (seg) { c.cut = BYTES; c.seg = seg; }
    if (win) fst::window(c.e, win);
    if (c.t.up) { c.say(msg); for (int i = 0; i < 40; ++i) c.go(); }
    check(c, seen, msg, answer);
    c.peer.close(); settle();
    MC_CHECK(seen.wr == SUCCESS && seen.end > 0 && !seen.over, "write gave %d, the read at the end %d", seen.wr, seen.end);
    mc::state(mc::hash_str("sizes", m * 1000003 + a * 7 + rd));
    quit({&c});
}
// connections whose bytes must not mix, and whose failures must not reach the others
static void isolation(int nconn, int len) {
    enum { SMALL, LARGE, CLOSE, JUNK, ALERT, NEWCOMER, NOPS };
    static const char* const names[] = {"sends 5 bytes", "sends 20000 bytes", "closes", "sends a forged record", "sends a fatal alert", "is joined by a client that fails its handshake"};
    reset();
    serve = [](PSocket s) { std::vector<char> b(4096); size_t g = 0; while (s->read(b.data(), b.size(), g) == SUCCESS) if (s->write(b.data(), g) != SUCCESS) break; };
    std::vector<Client> cs(nconn); std::vector<std::string> want(nconn); std::vector<bool> live(nconn, true);
    std::vector<std::unique_ptr<Peer>> extra;
    for (auto& c : cs) { c.dial(OWN); c.go(); MC_CHECK(c.t.up, "the handshake of a proper client failed"); }
    std::string hist;
    for (int i = 0; i < len; ++i) {
        std::vector<std::pair<int, int>> ops;
        for (int k = 0; k < nconn; ++k) if (live[k]) for (int o = 0; o < NOPS; ++o) if (o != NEWCOMER || k == 0) ops.push_back({k, o});
        if (ops.empty()) break;
        auto op = mc::pick(ops, "op"); Client& c = cs[op.first];
        mc::note("connection %d %s", op.first, names[op.second]);
        hist += (char) (op.first * 8 + op.second);
        std::string junk("\x17\x03\x03\x00\x20", 5); junk += std::string(32, 'j');
        switch (op.second) {
            case SMALL: case LARGE: { std::string d = pattern(op.second == SMALL ? 5 : 20000, op.first * 10 + i); want[op.first] += d; c.say(d); break; }
            case CLOSE: c.peer.close(); live[op.first] = false; break;
            case JUNK: c.raw(junk); live[op.first] = false; break;
            case ALERT: { c.raw(std::string("\x15\x03\x03\x00\x02\x02\x50", 7)); live[op.first] = false; break; }
            case NEWCOMER: { extra.emplace_back(new Peer()); extra.back()->dial(OWN); extra.back()->send("GET / HTTP/1.1\r\n\r\n"); break; }
        }
        if (mc::flip("settle")) for (int k = 0; k < nconn; ++k) if (live[k]) cs[k].go(); else settle();
    }
    settle();
    for (int k = 0; k < nconn; ++k) if (live[k]) {
        cs[k].go();
        MC_CHECK(!cs[k].t.eof && !cs[k].t.failed, "connection %d ended although only others did", k);
        MC_CHECK(cs[k].t.got == want[k], "connection %d: %zu bytes came back that are not the %zu sent", k, cs[k].t.got.size(), want[k].size());
        cs[k].say("last"); cs[k].go();
        MC_CHECK(cs[k].t.got == want[k] + "last" && !cs[k].t.eof, "connection %d does not work any more", k);
        mc::validated(2); mc::nontrivial();
    } else MC_CHECK(want[k].compare(0, cs[k].t.got.size(), cs[k].t.got) == 0, "connection %d: bytes came back that it did not send", k);
    mc::state(mc::hash_str(hist));
    std::vector<Client*> all; for (auto& c : cs) all.push_back(&c);
    for (auto& p : extra) p->close();
    quit(all);
}
// what clients do instead of a handshake
enum Kind_ { GOOD, SILENT, NOISE, HALF, LEAVES, STALLS, TLS13, FORGED, PLAIN, WARNS, NBAD };
static const char* const bads[] = {"is proper", "stays silent", "sends noise", "sends half a hello", "sends a hello and leaves", "sends a hello and stalls", "speaks TLS 1.3 only", "forges the end of the handshake", "asks in plain text", "sends a fatal alert after the hello"};
static void act(Client& c, int k, int port) {
    c.dial(port, nullptr, k == TLS13 ? TLS1_3_VERSION : 0, k == TLS13 ? TLS1_3_VERSION : TLS1_2_VERSION);
    if (k == SILENT) return;
    if (k == NOISE) { c.raw(pattern(50, 3)); return; }
    if (k == PLAIN) { c.raw("GET / HTTP/1.1\r\nHost: a\r\n\r\n"); return; }
    c.t.turn();
    if (k == HALF) { c.raw(c.t.pending.substr(0, 60)); c.t.pending.clear(); return; }
    c.emit();
    if (k == LEAVES) c.peer.close();
    if (k == WARNS) c.raw(std::string("\x15\x03\x03\x00\x02\x02\x50", 7));
}
static void handshakes(int n, int delay, int nkind) {
    reset(delay);
    serve = [](PSocket s) { std::vector<char> b(4096); size_t g = 0; while (s->read(b.data(), b.size(), g) == SUCCESS) if (s->write(b.data(), g) != SUCCESS) break; };
    std::vector<Client> cs(n); std::vector<int> ks; bool together = mc::flip("together");
    int good = 0;
    for (int i = 0; i < n; ++i) {
        int k = mc::choose(nkind, "client"); ks.push_back(k); good += k == GOOD;
        mc::note("client %d %s", i, bads[k]);
        act(cs[i], k, OWN);
        if (!together) settle(SEC / 10);
    }
    auto forge = [&](Client& c) { c.pull(); c.t.turn(); if (c.t.pending.size()) { c.t.pending.back() ^= 1; c.emit(); } };
    // those that speak TLS take turns
    for (int r = 0; r < 4; ++r) {
        settle(SEC / 10);
        for (int i = 0; i < n; ++i) { if (ks[i] == GOOD) cs[i].step(); else if (ks[i] == FORGED) forge(cs[i]); else if (ks[i] == TLS13) { cs[i].pull(); } }
    }
    settle(SEC / 10);
    for (int i = 0; i < n; ++i) if (ks[i] == GOOD) {
        cs[i].go();
        MC_CHECK(cs[i].t.up && !cs[i].t.failed && !cs[i].t.eof, "client %d could not connect within a second", i);
        cs[i].say(MSG); cs[i].go();
        MC_CHECK(cs[i].t.got == MSG, "client %d was not served", i);
        mc::validated(); mc::nontrivial();
    } else { cs[i].pull(); MC_CHECK(cs[i].t.got.empty() && !cs[i].t.up, "client %d %s and was served", i, bads[ks[i]]); }
    // the others are let go, this one stays as long as it says something
    for (int s = 0; s < 20; ++s) { settle(3 * SEC); for (int i = 0; i < n; ++i) if (ks[i] == GOOD) { cs[i].t.got.clear(); cs[i].say(MSG); cs[i].go(); MC_CHECK(cs[i].t.got == MSG, "client %d was cut off after %d s", i, 3 * (s + 1)); } }
    for (int i = 0; i < n; ++i) if (ks[i] != GOOD) MC_CHECK(fst::peer_closed(cs[i].e), "client %d %s and is still connected a minute later", i, bads[ks[i]]);
    mc::validated(n); if (n > good) mc::nontrivial();
    mc::state(mc::hash_bytes(ks.data(), ks.size() * sizeof(int), together));
    Client last; last.dial(OWN); last.go(); MC_CHECK(last.t.up, "a later client could not connect"); last.say(MSG); last.go(); MC_CHECK(last.t.got == MSG, "a later client was not served");
    std::vector<Client*> all{&last}; for (auto& c : cs) all.push_back(&c);
    quit(all);
}

// ---- the whole server
static void init_server() {
    determinism();
    for (auto n : {"server", "a.com", "b.com", "wild"}) certs[n] = make(n);
    auto ssl = [](const char* n) { return "ssl_key_file " + certs[n].key + ";\nssl_crt_file " + certs[n].crt + ";\n"; };
    std::string own = "recv_timeout 5000000;\nsend_timeout 5000000;\n", st = "role source;\ntype stream;\nedge_avformat all;\n";
    std::string hosts = "host a.com {\n" + st + ssl("a.com") + "}\nhost b.com {\n" + st + ssl("b.com") + "}\nhost c.com {\n" + st + "}\nhost *.w.com {\n" + st + ssl("wild") + "}\n";
    boot("http {\nserver p {\nlisten_port 80;\n" + own + hosts + "}\n"
         "server s {\nlisten_port 443;\ntransport https;\n" + own + ssl("server") + hosts + "}\n"
         "server u {\nlisten_port 444;\ntransport https;\n" + own + hosts + "}\n}\n");
}
// which certificate is shown: the host's, else the server's, else none
static void names(int n) {
    static const char* const snis[] = {nullptr, "a.com", "b.com", "c.com", "x.w.com", "none.com"};
    reset();
    std::vector<Client> cs(n); std::vector<std::string> want(n); std::string h;
    for (int i = 0; i < n; ++i) {
        int port = mc::flip("port") ? 444 : 443; const char* s = mc::pick(snis, "name");
        std::string nm = s ? s : "";
        want[i] = nm == "a.com" || nm == "b.com" ? nm : nm == "x.w.com" ? "wild" : port == 443 ? "server" : "";
        h += (char) port + nm;
        mc::note("client %d asks port %d for %s", i, port, s ? s : "no name");
        cs[i].dial(port, s);
    }
    bool alternate = n > 1 && mc::flip("alternate");
    if (alternate) for (int r = 0; r < 6; ++r) { for (auto& c : cs) c.step(); settle(); }
    for (auto& c : cs) c.go();
    for (int i = 0; i < n; ++i) {
        Client& c = cs[i];
        if (want[i].empty()) { MC_CHECK(!c.t.up, "a client was given a certificate of %s where none is configured", c.t.cn().c_str()); MC_CHECK(c.t.eof, "a client without certificate stays connected"); continue; }
        MC_CHECK(c.t.up && !c.t.failed, "handshake with the certificate of %s failed", want[i].c_str());
        MC_CHECK(c.t.cn() == want[i], "certificate of %s instead of %s", c.t.cn().c_str(), want[i].c_str());
        c.say(get("none.com", "/x")); c.go();
        Reply r = c.reply();
        MC_CHECK(r.status == 404 && r.complete && r.bad.empty(), "client %d was not served: %s", i, mc::quote(c.t.got).c_str());
        mc::nontrivial();
    }
    mc::validated(n); mc::state(mc::hash_str(h, alternate));
    std::vector<Client*> all; for (auto& c : cs) all.push_back(&c);
    quit(all);
}
// a request gets the same answer over TLS as without
static void answers() {
    static const std::string reqs[] = {get("a.com", "/live/x.flv"), get("none.com", "/x"), get("a.com", "/live/x.flv") + get("none.com", "/y"), "GET /\r\n\r\n", "nothing at all\r\n\r\n", std::string(5000, 'x'),
        "GET / HTTP/1.1\r\n", post("a.com", "/live/y.flv", "Content-Length: 3\r\n") + "FLV", post("none.com", "/x", "Transfer-Encoding: chunked\r\n") + chunk("abc") + chunk(""), get("none.com", "/x", "Connection: close\r\n")};
    reset();
    std::string rq = mc::pick(reqs, "request"); int seg = mc::pick(std::vector<int>{0, 1, 100}, "segment");
    std::string a, b; bool ae, be_;
    {
        Peer p; p.dial(80); settle();
        if (seg) for (size_t i = 0; i < rq.size(); i += seg) p.send(rq.substr(i, seg)); else p.send(rq);
        settle(20 * SEC); p.poll(); a = p.got; ae = p.eof; finish({&p});
    }
    Client c; c.dial(mc::flip("port") ? 444 : 443, "a.com"); c.go();
    MC_CHECK(c.t.up, "the handshake of a proper client failed");
    if (seg) for (size_t i = 0; i < rq.size() && !c.t.eof; i += seg) { c.say(rq.substr(i, seg)); if (i % 7 == 0) c.pull(); } else c.say(rq);
    settle(20 * SEC); c.pull(); c.t.turn(); b = c.t.got; be_ = c.t.eof;
    MC_CHECK(a == b && ae == be_, "over TLS the answer is %s%s, without it is %s%s", mc::quote(b).c_str(), be_ ? " and the end" : "", mc::quote(a).c_str(), ae ? " and the end" : "");
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(rq, seg));
    quit({&c});
}
// publish and play over either transport
static void relay(int n) {
    reset();
    bool ptls = mc::flip("publish over tls"); int plays = mc::choose(3, "players");        // plain, tls, both
    std::vector<FlvPkt> v; std::vector<int> ks;
    for (int i = 0; i < n; ++i) { int k = mc::choose(NKIND, "packet"); ks.push_back(k); v.push_back(media(k, i)); if (mc::tier && mc::flip("large")) v.back().body += pattern(20000, i); }
    int join = mc::choose(n + 1, "join");
    Client pc, lc; Peer pp, lp; std::vector<Client*> cs; std::vector<Peer*> ps;
    std::string head = post("a.com", "/live/r.flv", "Transfer-Encoding: chunked\r\n") + chunk(flv_header());
    auto send = [&](const std::string& d) { if (ptls) { pc.say(d); pc.go(); } else { pp.send(d); settle(); } };
    if (ptls) { pc.dial(443, "a.com"); pc.go(); MC_CHECK(pc.t.up, "publisher: handshake failed"); cs.push_back(&pc); } else { pp.dial(80); ps.push_back(&pp); }
    send(head);
    auto joinup = [&] {
        if (plays != 0) { lc.dial(443, "a.com"); lc.go(); MC_CHECK(lc.t.up, "player: handshake failed"); lc.say(get("a.com", "/live/r.flv")); lc.go(); cs.push_back(&lc); }
        if (plays != 1) { lp.dial(80); lp.send(get("a.com", "/live/r.flv")); settle(); ps.push_back(&lp); }
    };
    uint32_t prev = 0;
    for (int i = 0; i < n; ++i) { if (i == join) joinup(); std::string t = v[i].tagbytes(); send(chunk(be(prev, 4) + t)); prev = t.size(); }
    if (join == n) joinup();
    settle(SEC);
    auto want = view(v, ks, join, n);
    auto judge = [&](const Reply& r, const char* who) {
        MC_CHECK(r.status == 200 && r.bad.empty(), "%s player was not served", who);
        std::string w = flv_bytes(want);
        MC_CHECK(r.body == w, "%s player received %zu bytes that are not the %zu of the %zu packets it must have", who, r.body.size(), w.size(), want.size());
        mc::validated(); mc::nontrivial();
    };
    if (plays != 0) { lc.go(); judge(lc.reply(), "TLS"); }
    if (plays != 1) { lp.poll(); judge(lp.reply(), "plain"); }
    mc::state(mc::hash_bytes(ks.data(), ks.size() * sizeof(int), join * 100 + plays * 10 + ptls));
    for (auto p : ps) p->close();
    for (auto c : cs) ps.push_back(&c->peer);
    finish(ps);
}

// ---- outgoing connections: the environment plays the server
struct Far { fst::Listener* l; fst::Ep* e = nullptr; Tls t; int cut = WHOLE; size_t at = 0, seg = 1, out = 0, made = 0, stop = (size_t) -1; bool ended = false, hold = false;
    void raw(const std::string& d) { if (fst::peer_closed(e)) return; fst::send(e, d); }
    void emit() {
        std::string d; d.swap(t.pending);
        made += d.size();
        if (ended || d.empty()) return;
        bool last = out + d.size() >= stop;
        if (last) d.resize(stop - out);
        if (cut == BYTES) { for (size_t i = 0; i < d.size(); i += seg) raw(d.substr(i, seg)); }
        else if (cut == AT && out < at && at < out + d.size()) { raw(d.substr(0, at - out)); fst::sleep(1000); raw(d.substr(at - out)); }
        else raw(d);
        out += d.size();
        if (last) { if (!hold) fst::shut(e); ended = true; }
    }
    // until the peer says nothing for a while
    void run(fst::usec wait, std::function<void()> each) {
        for (;;) { std::string d; bool eof; if (!fst::recv(e, d, wait, eof)) return; t.feed(d); t.turn(); each(); emit(); }
    }
};
static void far_init() { determinism(); quiet(); fst::set_delay_bound(0); certs["far"] = make("far"); }
static const int FAR = 7500;
static PSocket out(int port, fst::usec tm) { return SingleInstance<ClientSocketFactory>::get_instance().create_ss(Transport::HTTPS, "127.0.0.1", port, tm); }
// every place where the network may cut what the server sends; the server may speak first
static void outgoing() {
    reset();
    Far f; f.l = fst::listen(FAR);
    f.cut = mc::choose(3, "cut");
    if (f.cut == BYTES) f.seg = 1 + mc::choose(3, "segment"); else if (f.cut == AT) f.at = 1 + mc::choose(1500, "at");
    bool first = mc::flip("server speaks first"); size_t rd = mc::pick(std::vector<size_t>{0, 1, 50, 4096}, "read size");
    std::string banner = first ? pattern(30, 5) : "", msg = MSG, answer = pattern(200, 1), text;
    fst::spawn("far", [&] {
        f.e = fst::accept(f.l, SEC);
        f.t.init(false, nullptr, 0, TLS1_2_VERSION, &certs["far"]);
        bool greeted = false, answered = false;
        f.run(3 * SEC, [&] {
            if (f.t.up && !greeted && first) { greeted = true; f.t.put(banner); }
            if (f.t.got.size() >= msg.size() && !answered) { answered = true; f.t.put(answer); }
        });
        fst::shut(f.e);
    });
    error_t wr = -1; bool conn = false;
    fst::spawn("near", [&] {
        PSocket s = out(FAR, SEC);
        if (!(conn = s != nullptr)) return;
        wr = s->write(&msg[0], msg.size());
        size_t n = banner.size() + answer.size();
        if (rd == 0) { std::vector<char> b(n); ssize_t g = 0; if (s->read_fully(b.data(), n, &g) == SUCCESS) text.assign(b.data(), n); }
        else while (text.size() < n) { std::vector<char> b(rd); size_t g = 0; if (s->read(b.data(), rd, g) != SUCCESS) break; text.append(b.data(), g); }
    });
    settle(10 * SEC);
    MC_CHECK(conn, "no connection to a proper server");
    MC_CHECK(wr == SUCCESS && f.t.got == msg, "server received %zu bytes that are not the %zu written", f.t.got.size(), msg.size());
    MC_CHECK(text == banner + answer, "received %zu bytes that are not the %zu the server sent", text.size(), banner.size() + answer.size());
    MC_CHECK(f.cut != AT || f.out <= 2000, "harness: %zu bytes", f.out);
    mc::validated(2); mc::nontrivial(); mc::state(mc::hash_str("out", f.cut * 10000 + f.at + first * 100000 + rd));
    finish({});
}
// servers that end, stall or break the handshake at every byte: no connection, and in time
static void refused() {
    reset();
    Far f; f.l = fst::listen(FAR);
    enum { ENDS, STALLS_, NOISE_, OLD, TAMPER, NONE, N };
    int k = mc::choose(N, "server"); size_t at = 0;
    if (k == ENDS || k == STALLS_ || k == TAMPER) at = mc::choose(1400, "at");
    if (k == ENDS || k == STALLS_) f.stop = at;
    f.hold = k == STALLS_;
    fst::spawn("far", [&] {
        if (k == NONE) return;
        f.e = fst::accept(f.l, SEC);
        f.t.init(false, nullptr, k == OLD ? TLS1_3_VERSION : 0, k == OLD ? TLS1_3_VERSION : TLS1_2_VERSION, &certs["far"]);
        if (k == NOISE_) { f.raw(pattern(100, 2)); fst::sleep(5 * SEC); fst::shut(f.e); return; }
        if (k == ENDS && at == 0) { fst::shut(f.e); return; }
        f.run(5 * SEC, [&] {
            if (k == TAMPER && at >= f.made && at < f.made + f.t.pending.size()) f.t.pending[at - f.made] ^= 1;
        });
        fst::shut(f.e);
    });
    bool done = false, conn = false; fst::usec t0 = fst::now(), took = 0;
    fst::spawn("near", [&] { PSocket s = out(k == NONE ? 7999 : FAR, SEC); done = true; conn = s != nullptr; took = fst::now() - t0; });
    settle(30 * SEC);
    MC_CHECK(done, "connecting never ends");
    // (the minor version in the first record's header is not looked at: every client takes it)
    bool whole = k == TAMPER ? at >= f.made || at == 2 : f.t.up && f.out == f.made;
    if (!whole) MC_CHECK(!conn, "a handshake that the server did not complete (%d at %zu) gave a connection", k, at);
    if (!conn) MC_CHECK(took <= 5 * SEC, "gave up after %llu us", took);
    if (!conn) mc::nontrivial();
    mc::validated(); mc::state(k * 10000 + at);
    finish({});
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C26", {
        {"cuts", "a connection whose client's bytes are cut whole, in 1-3 byte segments or at each single place, 5 read sizes, with and without close_notify", cuts, 3, init_own},
        {"early", "a client's data right behind its half of the handshake, 6 sizes, 4 read sizes, in one piece, cut at 40 places or in 11 byte segments", early, 3, init_own},
        {"sizes", "9 message sizes up to 40000, 4 answers up to 100000, 5 read sizes, 3 segmentations, peer with a small window or not", sizes, 3, init_own},
        {"isolation", t ? "3 connections echoing, every history of 4 of 6 operations, settled or not" : "2 connections echoing, every history of 3 of 6 operations, settled or not", [t] { isolation(t ? 3 : 2, t ? 4 : 3); }, 4, init_own},
        {"handshakes", t ? "every 4 of 10 kinds of clients, at once or one after the other" : "every 3 of 10 kinds of clients, at once or one after the other", [t] { handshakes(t ? 4 : 3, 0, NBAD); }, 3, init_own},
        {"schedules", t ? "2 clients of 10 kinds, every schedule within 2 deviations from FIFO" : "2 clients of 6 kinds, every schedule within 1 deviation from FIFO", [t] { handshakes(2, t ? 2 : 1, t ? (int) NBAD : 6); }, 4, init_own},
        {"names", t ? "3 clients, each of 6 names on 2 servers, in turn or one after the other" : "2 clients, each of 6 names on 2 servers, in turn or one after the other", [t] { names(t ? 3 : 2); }, 3, init_server},
        {"answers", "10 requests in 3 segmentations over TCP and over TLS", answers, 2, init_server},
        {"relay", t ? "every sequence of 4 packets of 6 kinds, player joining anywhere, each transport" : "every sequence of 3 packets of 6 kinds, player joining anywhere, each transport", [t] { relay(t ? 4 : 3); }, 4, init_server},
        {"outgoing", "outgoing connection whose server's bytes are cut whole, in 1-3 byte segments or at each single place, 4 read sizes, server speaking first or not", outgoing, 3, far_init},
        {"refused", "outgoing connection to a server that ends, stalls or corrupts its handshake at every byte, sends noise, speaks TLS 1.3 only or is not there", refused, 2, far_init},
    });
}
