// C11: HTTP bodies are delivered exactly and end exactly where their framing says.
#include "common.hpp"
#include <sps_http_socket.hpp>
#include <sps_io_url_http.hpp>
using namespace sps;

// strict reference of chunked framing: 1 complete, 0 incomplete, -1 malformed, -2 implementation limits apply
static int ref_chunked(const std::string& w, std::string& body, size_t& end) {
    size_t p = 0;
    for (;;) {
        size_t lf = w.find('\n', p);
        if (lf == std::string::npos) return w.size() - p >= 33 ? -2 : 0;
        std::string line = w.substr(p, lf - p);
        if (line.size() + 1 > 33) return -2;
        if (line.empty() || line.back() != '\r') return -1;
        line.pop_back();
        if (line.find('\0') != std::string::npos || line.find('\r') != std::string::npos) return -2;
        size_t k = 0;
        while (k < line.size() && isxdigit((unsigned char) line[k])) ++k;
        if (k == 0) return -1;
        if (k < line.size() && line[k] != ';' && line[k] != ' ' && line[k] != '\t') return -1;
        if (k > 15) return -2;
        unsigned long long n = strtoull(line.substr(0, k).c_str(), nullptr, 16);
        p = lf + 1;
        size_t have = std::min<unsigned long long>(n, w.size() - p);
        body += w.substr(p, have);
        p += have;
        if (have < n) return 0;
        if (w.size() - p < 2) return (w.size() - p == 1 && w[p] != '\r') ? -1 : 0;
        if (w[p] != '\r' || w[p + 1] != '\n') return n == 0 ? -2 : -1;   // n == 0: trailers, not supported
        p += 2;
        if (n == 0) { end = p; return 1; }
    }
}
struct Got { std::string body; int ret = 0; int zero = 0; };
template <class R> static Got drain(R& r, size_t sz) {
    Got g;
    std::vector<char> buf(sz);
    for (;;) {
        size_t n = 0;
        g.ret = r.read(buf.data(), sz, n);
        if (g.ret != SUCCESS) return g;
        MC_CHECK(n <= sz, "%zu bytes reported for a read of %zu", n, sz);
        MC_CHECK(n > 0 || ++g.zero <= 1, "reads of a body keep returning nothing");
        g.body.append(buf.data(), n);
    }
}
static std::function<size_t(size_t)> cutter(ScriptReader* r, int cut) {
    if (cut == -2) return [](size_t) { return (size_t) 1; };
    if (cut < 0) return nullptr;
    return [r, cut](size_t max) { return r->at < (size_t) cut ? std::min(max, cut - r->at) : max; };
}
static std::string payload(size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += (char) ("\r\n0aF;\n\x80z\0"[i % 10]); return s; }
static std::string spell(size_t n, int how) {
    char b[40];
    if (how == 0) snprintf(b, sizeof b, "%zx", n);
    if (how == 1) snprintf(b, sizeof b, "%zX", n);
    if (how == 2) snprintf(b, sizeof b, "000%zx", n);
    if (how == 3) snprintf(b, sizeof b, "%zx;name=val", n);
    if (how == 4) snprintf(b, sizeof b, "%zx ;q=\"1\"", n);
    return std::string(b) + "\r\n";
}
static const size_t SIZES[] = {1, 2, 3, 7, 64, 4096};
static const char* TAIL = "GET / HTTP/1.1\r\n\r\n";

static void verify_server(const std::string& w, size_t limit, bool chunked, int64_t cl, int cut, size_t rs, const std::string& body, bool complete) {
    auto r = std::make_shared<ScriptReader>(w.substr(0, limit), 4444);
    r->cut = cutter(r.get(), cut);
    HttpRequestSocket s(r, "1.2.3.4", 1, chunked, cl);
    Got g = drain(s, rs);
    if (complete) {
        MC_CHECK(g.body == body && g.ret == ERROR_HTTP_RES_EOF, "%zu bytes then %d, the body has %zu: %s", g.body.size(), g.ret, body.size(), mc::quote(w).c_str());
        MC_CHECK(r->at == w.size() - strlen(TAIL), "body ends at %zu, %zu bytes consumed: %s", w.size() - strlen(TAIL), r->at, mc::quote(w).c_str());
        size_t n = 0; char c;
        MC_CHECK(s.read(&c, 1, n) == ERROR_HTTP_RES_EOF && r->at == w.size() - strlen(TAIL), "reading on after the end consumes what follows");
    } else {
        MC_CHECK(g.ret != ERROR_HTTP_RES_EOF, "a body cut after %zu bytes ends regularly: %s", limit, mc::quote(w.substr(0, limit)).c_str());
        MC_CHECK(body.compare(0, g.body.size(), g.body) == 0, "bytes that were not sent: %s", mc::quote(g.body).c_str());
    }
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(w, limit * 31 + rs));
}
static std::string build(int maxchunks, const std::vector<size_t>& sizes, std::string& body, bool spellings) {
    int n = mc::choose(maxchunks + 1, "chunks");
    std::string w;
    for (int i = 0; i < n; ++i) {
        size_t k = mc::pick(sizes, "chunk size");
        std::string d = payload(k + i).substr(i);
        w += spell(k, spellings ? mc::choose(5, "spelling") : 0) + d + "\r\n";
        body += d;
    }
    w += (spellings && mc::flip("padded end") ? "000;x=y\r\n\r\n" : "0\r\n\r\n");
    return w;
}
static void server_chunked(int maxchunks) {
    quiet();
    std::string body, w = build(maxchunks, {1, 2, 10, 17, 300}, body, true) + TAIL;
    size_t rs = mc::pick(SIZES, "read size");
    verify_server(w, w.size(), true, -1, -1 - mc::choose(2, "reads"), rs, body, true);
}
static void server_chunked_cuts() {
    quiet();
    std::string body, w = build(3, {1, 4, 16}, body, false) + TAIL;
    size_t rs = mc::pick(SIZES, "read size");
    verify_server(w, w.size(), true, -1, mc::choose((int) w.size(), "first read ends at"), rs, body, true);
}
static void server_truncated() {
    quiet();
    std::string body, w = build(3, {1, 4, 16}, body, true);
    size_t rs = mc::pick(SIZES, "read size");
    int lim = mc::choose((int) w.size(), "connection ends at");
    verify_server(w + TAIL, lim, true, -1, -1 - mc::choose(2, "reads"), rs, body, false);
}
static void server_length() {
    quiet();
    size_t n = mc::choose(40, "length");
    if (n >= 20) n = (n - 20) * 333 + 1000;
    std::string body = payload(n);
    size_t rs = mc::pick(SIZES, "read size");
    bool cutoff = mc::flip("truncated") && n;
    int miss = cutoff ? 1 + mc::choose((int) std::min<size_t>(n, 3), "missing") : 0;
    size_t lim = cutoff ? n - miss : n + strlen(TAIL);
    verify_server(body + TAIL, lim, false, n, mc::choose(8, "cut") - 2, rs, body, !cutoff);
}
static void server_unframed() {
    quiet();
    std::string body = payload(mc::choose(30, "bytes"));
    auto r = std::make_shared<ScriptReader>(body, 4444);
    r->cut = cutter(r.get(), mc::choose(12, "cut") - 2);
    HttpRequestSocket s(r, "1.2.3.4", 1, false, -1);
    size_t rs = mc::pick(SIZES, "read size");
    Got g = drain(s, rs);
    MC_CHECK(g.body == body && g.ret == 4444, "%zu of %zu bytes then %d", g.body.size(), body.size(), g.ret);
    mc::validated(); mc::nontrivial(); mc::state(body.size() * 7 + rs);
}
// a transport error at any read
static void server_faults() {
    quiet();
    std::string body, w = build(2, {1, 5}, body, false) + TAIL;
    int at = mc::choose(40, "failing read"), n = 0;
    size_t rs = mc::pick(SIZES, "read size");
    auto r = std::make_shared<ScriptReader>(w, 4444);
    r->cut = cutter(r.get(), -1 - mc::choose(2, "reads"));
    r->fault = [&] { return n++ == at ? 7777 : 0; };
    HttpRequestSocket s(r, "1.2.3.4", 1, true, -1);
    Got g = drain(s, rs);
    if (n > at) {
        MC_CHECK(g.ret == 7777, "transport error reported as %d", g.ret);
        MC_CHECK(body.compare(0, g.body.size(), g.body) == 0, "bytes that were not sent");
    } else MC_CHECK(g.ret == ERROR_HTTP_RES_EOF && g.body == body, "body lost without an error");
    mc::validated(); mc::nontrivial();
}
// arbitrary framing bytes against the reference
template <class F> static void against_ref(const std::string& w, F run) {
    std::string body; size_t end = 0;
    int v = ref_chunked(w, body, end);
    Got g; size_t at = 0;
    run(g, at);
    if (v == 1) {
        MC_CHECK(g.ret == ERROR_HTTP_RES_EOF && g.body == body, "%zu bytes then %d, must be %zu and the end: %s", g.body.size(), g.ret, body.size(), mc::quote(w).c_str());
        MC_CHECK(at == (size_t) -1 || at == end, "%zu bytes consumed, the body ends at %zu: %s", at, end, mc::quote(w).c_str());
        mc::nontrivial();
    } else if (v != -2) {
        MC_CHECK(g.ret != ERROR_HTTP_RES_EOF, "%s framing taken for the end of the body after %zu bytes: %s", v ? "malformed" : "incomplete", g.body.size(), mc::quote(w).c_str());
        MC_CHECK(body.compare(0, g.body.size(), g.body) == 0 || g.body.compare(0, body.size(), body) == 0, "bytes that were not sent: %s", mc::quote(w).c_str());
    }
    mc::validated(); mc::state(mc::hash_str(w));
}
static void server_on(const std::string& w, size_t rs) {
    against_ref(w, [&](Got& g, size_t& at) {
        auto r = std::make_shared<ScriptReader>(w, 4444);
        HttpRequestSocket s(r, "1.2.3.4", 1, true, -1);
        g = drain(s, rs); at = r->at;
    });
}
static void server_mutated() {
    quiet();
    std::string w = std::string("3\r\nabc\r\n") + (mc::flip("extension") ? "2;e=1\r\nxy\r\n" : "11\r\n12345678901234567\r\n") + "0\r\n\r\n";
    w[mc::choose((int) w.size(), "position")] = (char) mc::choose(256, "byte");
    server_on(w + TAIL, mc::flip("small reads") ? 2 : 64);
}
static void server_noise(int len) {
    quiet();
    static const char abc[] = {'0', '1', 'a', 'x', '\r', '\n', ';', '-'};
    std::string w;
    for (int i = 0; i < len; ++i) w += mc::pick(abc, "byte");
    server_on(w, 64);
}
static const std::vector<std::string>& badsizes() {
    static const std::vector<std::string> b = {"", "zz", "-1", "+3", "0x3", "3g", " 3", "g3", ";3", "\t3", "-0", "x", "3\r", std::string("0\0", 2)};
    return b;
}
static void server_badsize() {
    quiet();
    std::string w, body;
    if (mc::flip("after a good chunk")) w = "3\r\nabc\r\n";
    const std::string& b = mc::pick(badsizes(), "size");
    w += b + "\r\n" + (mc::flip("data") ? "abc\r\n0\r\n\r\n" : "\r\n") + TAIL;
    auto r = std::make_shared<ScriptReader>(w, 4444);
    HttpRequestSocket s(r, "1.2.3.4", 1, true, -1);
    Got g = drain(s, 64);
    MC_CHECK(g.ret != ERROR_HTTP_RES_EOF, "chunk size %s taken for a number: %s", mc::quote(b).c_str(), mc::quote(w).c_str());
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(w));
}

// ---- the client (upstream) side, over the server's own TCP sockets
static const char* H_CHUNKED = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n";
static Got client(const std::string& head, const std::string& wire, int cut, bool close, size_t rs, int* opened = nullptr) {
    fst::reset();
    fst::set_delay_bound(0);
    fst::Listener* l = fst::listen(8080);
    Got g;
    g.ret = -1;
    bool done = false;
    fst::spawn("origin", [&] {
        fst::Ep* e = fst::accept(l, 1000000);
        if (!e) return;
        std::string req; bool eof = false;
        while (req.find("\r\n\r\n") == std::string::npos) if (!fst::recv(e, req, 1000000, eof)) return;
        std::string all = head + wire;
        if (cut == -2) for (char c : all) fst::send(e, std::string(1, c));
        else if (cut >= 0) { size_t k = std::min(all.size(), head.size() + cut); fst::send(e, all.substr(0, k)); fst::sleep(10); if (k < all.size()) fst::send(e, all.substr(k)); }
        else fst::send(e, all);
        if (close) fst::shut(e);
    });
    fst::spawn("client", [&] {
        PRequestUrl url;
        int ret = RequestUrl::from("http://127.0.0.1:8080/a.flv", url);
        if (ret != SUCCESS) mc::broken("url refused %d", ret);
        HttpUrlProtocol p;
        ret = p.open(url, TCP);
        if (opened) *opened = ret;
        if (ret != SUCCESS) { g.ret = ret; done = true; return; }
        g = drain(p, rs);
        done = true;
    });
    fst::run();
    if (close) MC_CHECK(done, "client blocked although the origin closed the connection: %s", fst::stuck().c_str());
    if (!done) g.ret = -2;   // still waiting
    return g;
}
// chunk lines of every length up to 33 bytes, by leading zeros or by an extension
static void chunk_lines() {
    quiet();
    int len = 3 + mc::choose(31, "length of the line"), how = mc::choose(4, "filled with"), which = mc::choose(3, "of chunk");
    std::string body, w;
    for (int i = 0; i < 3; ++i) {
        size_t n = i == 2 ? 0 : i ? 10 : 3;
        char hex[8]; snprintf(hex, sizeof hex, "%zx", n);
        std::string line = hex;
        if (i == which) {
            if (how == 0) { if (len - 2 > 15) return; line = std::string(len - 2 - line.size(), '0') + line; }
            else if (how == 1) { if (len < 6) return; line += ";" + std::string(len - 4, 'e'); }
            else if (how == 2) { if (len < 8) return; line += " ; a=\"" + std::string(len - 4 - 6 < 0 ? 0 : len - 4 - 6, 'v') + "\""; if ((int) line.size() + 2 > 33) return; }
            else { if (len < 5) return; line += std::string(len - 3, ' '); }
        }
        std::string d = payload(n); w += line + "\r\n" + d + "\r\n"; body += d;
    }
    size_t rs = mc::pick(SIZES, "read size");
    int cut = -1 - mc::choose(2, "reads");
    if (mc::flip("client side")) {
        int opened = -1;
        Got g = client(H_CHUNKED, w, cut, false, rs, &opened);
        MC_CHECK(opened == SUCCESS, "response refused %d", opened);
        MC_CHECK(g.ret == ERROR_HTTP_RES_EOF && g.body == body, "%zu bytes then %d, must be %zu and the end: %s", g.body.size(), g.ret, body.size(), mc::quote(w).c_str());
        mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(w, rs));
    } else verify_server(w + TAIL, (w + TAIL).size(), true, -1, cut, rs, body, true);
}
static void client_chunked(int maxchunks) {
    quiet();
    std::string body, w = build(maxchunks, {1, 5, 16, 1030}, body, true);
    size_t rs = mc::pick(SIZES, "read size");
    int cut = mc::choose(2 + 8, "cut") - 2;
    int opened = -1;
    Got g = client(H_CHUNKED, w + (mc::flip("more bytes") ? TAIL : ""), cut, mc::flip("closed after"), rs, &opened);
    MC_CHECK(opened == SUCCESS, "response refused %d", opened);
    MC_CHECK(g.ret == ERROR_HTTP_RES_EOF && g.body == body, "%zu bytes then %d, must be %zu and the end: %s", g.body.size(), g.ret, body.size(), mc::quote(w).c_str());
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(w, rs));
}
static void client_truncated() {
    quiet();
    std::string body, w = build(2, {1, 5, 16}, body, true);
    size_t rs = mc::pick(SIZES, "read size");
    int lim = mc::choose((int) w.size(), "connection ends at");
    Got g = client(H_CHUNKED, w.substr(0, lim), -1 - mc::choose(2, "segments"), true, rs);
    MC_CHECK(g.ret != ERROR_HTTP_RES_EOF, "a body cut after %d bytes ends regularly: %s", lim, mc::quote(w.substr(0, lim)).c_str());
    MC_CHECK(body.compare(0, g.body.size(), g.body) == 0, "bytes that were not sent: %s", mc::quote(g.body).c_str());
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(w, lim * 31 + rs));
}
static void client_length() {
    quiet();
    static const int lens[] = {0, 1, 2, 5, 64, 1023, 1024, 1025, 5000};
    size_t n = mc::pick(lens, "length");
    std::string body = payload(n);
    size_t rs = mc::pick(SIZES, "read size");
    int miss = mc::choose(n ? 3 : 1, "missing");
    std::string head = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(n) + "\r\n\r\n";
    if (miss > (int) n) return;
    Got g = client(head, miss ? body.substr(0, n - miss) : body + (mc::flip("more bytes") ? TAIL : ""), mc::choose(6, "cut") - 2, miss || mc::flip("closed after"), rs);
    if (miss) {
        MC_CHECK(g.ret != ERROR_HTTP_RES_EOF, "a body short of %d bytes ends regularly", miss);
        MC_CHECK(g.body == body.substr(0, n - miss), "%zu of the %zu bytes that arrived", g.body.size(), n - miss);
    } else MC_CHECK(g.ret == ERROR_HTTP_RES_EOF && g.body == body, "%zu bytes then %d, must be %zu and the end", g.body.size(), g.ret, n);
    mc::validated(); mc::nontrivial(); mc::state(n * 64 + rs + miss * 8);
}
static void client_unframed() {
    quiet();
    std::string body = payload(mc::choose(20, "bytes") * 7);
    size_t rs = mc::pick(SIZES, "read size");
    Got g = client("HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n", body, mc::choose(6, "cut") - 2, true, rs);
    MC_CHECK(g.body == body && g.ret == ERROR_SOCKET_CLOSED, "%zu of %zu bytes then %d", g.body.size(), body.size(), g.ret);
    mc::validated(); mc::nontrivial(); mc::state(body.size() * 7 + rs);
}
static void client_mutated() {
    quiet();
    std::string w = std::string("3\r\nabc\r\n") + (mc::flip("extension") ? "2;e=1\r\nxy\r\n" : "11\r\n12345678901234567\r\n") + "0\r\n\r\n";
    w[mc::choose((int) w.size(), "position")] = (char) mc::choose(256, "byte");
    size_t rs = mc::flip("small reads") ? 2 : 64;
    against_ref(w, [&](Got& g, size_t& at) { g = client(H_CHUNKED, w, -1, true, rs); at = -1; });
}
static void client_badsize() {
    quiet();
    std::string w;
    if (mc::flip("after a good chunk")) w = "3\r\nabc\r\n";
    const std::string& b = mc::pick(badsizes(), "size");
    w += b + "\r\n" + (mc::flip("data") ? "abc\r\n0\r\n\r\n" : "\r\n") + TAIL;
    Got g = client(H_CHUNKED, w, -1, true, 64);
    MC_CHECK(g.ret != ERROR_HTTP_RES_EOF, "chunk size %s taken for a number: %s", mc::quote(b).c_str(), mc::quote(w).c_str());
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(w));
}
// sizes and lengths beyond 31, 32 and 63 bits announce what they say
static void beyond_words() {
    quiet();
    static const uint64_t ns[] = {0x7fffffffULL, 0x80000000ULL, 0x80000003ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x100000003ULL, 0x180000003ULL, 0x200000000ULL, 0x1000000000003ULL, 0x7fffffffffffffffULL};
    uint64_t n = mc::pick(ns, "size"); bool chunked = mc::flip("chunked"), up = mc::flip("client side"), behind = chunked && mc::flip("after a good chunk");
    char hex[32]; snprintf(hex, sizeof hex, "%llx", (unsigned long long) n);
    std::string data = std::string("abc\r\n0\r\n\r\n") + TAIL;
    std::string w = !chunked ? data : std::string(behind ? "3\r\nxyz\r\n" : "") + hex + "\r\n" + data;
    size_t rs = mc::pick(SIZES, "read size");
    Got g;
    if (up) g = client(chunked ? H_CHUNKED : "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(n) + "\r\n\r\n", w, -1 - mc::choose(2, "reads"), true, rs);
    else {
        auto r = std::make_shared<ScriptReader>(w, mc::flip("reads") ? 1 : 4444);
        HttpRequestSocket s(r, "1.2.3.4", 1, chunked, chunked ? -1 : (int64_t) n);
        g = drain(s, rs);
    }
    std::string want = (behind ? "xyz" : "") + data;
    MC_CHECK(g.ret != ERROR_HTTP_RES_EOF, "a body of %llu bytes is complete after %zu", (unsigned long long) n, g.body.size());
    if (n >> 48 || (up && chunked)) MC_CHECK(want.compare(0, g.body.size(), g.body) == 0, "bytes that were not sent");
    else MC_CHECK(g.body == want, "%zu of the %zu bytes that arrived of %llu", g.body.size(), want.size(), (unsigned long long) n);
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(w, n * 4 + up));
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C11", {
        {"server-chunked", "all sequences of up to 4 (quick: 3) chunks of 5 sizes in 5 spellings x 6 read sizes x 2 fragmentations", [t] { server_chunked(t ? 4 : 3); }},
        {"chunk-lines", "chunk lines of 3 to 33 bytes filled in 4 ways, on the first, a later or the last chunk, on both sides, 6 read sizes x 2 fragmentations", chunk_lines},
        {"server-chunked-cuts", "all sequences of up to 3 chunks of 3 sizes x 6 read sizes x every split into two reads", server_chunked_cuts},
        {"server-truncated", "all sequences of up to 3 chunks of 3 sizes in 5 spellings x every truncation x 6 read sizes x 2 fragmentations", server_truncated},
        {"server-length", "40 content lengths up to 7327 x 6 read sizes x 8 cuts, complete or truncated", server_length},
        {"server-unframed", "30 bodies without framing x 6 read sizes x cuts", server_unframed},
        {"server-faults", "up to 2 chunks, a transport error at every read", server_faults},
        {"server-mutated", "every byte of a chunked body replaced by every value, against the reference decoder", server_mutated},
        {"server-noise", "all strings of 6 (quick) or 7 structural bytes, against the reference decoder", [t] { server_noise(t ? 7 : 6); }},
        {"beyond-words", "11 sizes and lengths around 31, 32 and 63 bits, both sides, chunked or by length, 6 read sizes", beyond_words},
        {"server-bad-size", "14 malformed chunk sizes", server_badsize},
        {"client-chunked", "all sequences of up to 3 (quick: 2) chunks of 4 sizes in 5 spellings x 6 read sizes x 10 cuts", [t] { client_chunked(t ? 3 : 2); }},
        {"client-truncated", "all sequences of up to 2 chunks x every truncation x 6 read sizes", client_truncated},
        {"client-length", "9 content lengths x 6 read sizes x cuts, complete or truncated", client_length},
        {"client-unframed", "20 bodies ended by the connection", client_unframed},
        {"client-mutated", "every byte of a chunked body replaced by every value", client_mutated},
        {"client-bad-size", "14 malformed chunk sizes", client_badsize},
    });
}
