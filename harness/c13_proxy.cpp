// C13: the reverse proxy hands requests and responses through unchanged.
#include "stack.hpp"
using namespace stack;
static const char* SETUP =
    "http {\nserver s {\nlisten_port 80;\n"
    "host p.com {\nrole proxy;\ntype proxy;\npass_proxy 127.0.0.1:9000;\n}\n"
    "host q.com {\nrole proxy;\ntype proxy;\npass_proxy 127.0.0.1:9001;\n}\n"
    "host down.com {\nrole proxy;\ntype proxy;\npass_proxy 127.0.0.1:9009;\n}\n"
    "host *.wild.com {\nrole proxy;\ntype proxy;\npass_proxy 127.0.0.1:9000;\n}\n}\n}\n";

typedef std::vector<std::pair<std::string, std::string>> Headers;
static bool ieq(const std::string& a, const char* b) { return !strcasecmp(a.c_str(), b); }
static std::string payload(size_t n, int seed) { std::string s; for (size_t i = 0; i < n; ++i) s += (char) ("\r\n0HTTP/1.1 \0\xff;"[(i * 7 + seed) % 16]); return s; }

struct Origin {            // a response of the origin server
    int spelling = 0; int status = 200; int framing = 1;   // 0 close, 1 length, 2 chunked
    Headers headers; std::string body; size_t piece = 3;
    std::string head() const {
        std::string s = "HTTP/1.1 " + std::to_string(status) + " X\r\n";
        for (auto& h : headers) s += h.first + ": " + h.second + "\r\n";
        if (framing == 1) s += "Content-Length: " + std::to_string(body.size()) + "\r\n";
        if (framing == 2) s += "Transfer-Encoding: chunked\r\n";
        return s + "\r\n";
    }
    std::string framed() const {
        if (framing != 2) return body;
        std::string s;
        for (size_t o = 0; o < body.size(); o += piece) {
            std::string d = body.substr(o, piece); char h[64];
            static const char* const f[] = {"%zx\r\n", "%06zX\r\n", "%zx;name=\"a value\"\r\n", "00000%zx ; x\r\n"};
            snprintf(h, sizeof h, f[spelling], d.size()); s += h + d + "\r\n";
        }
        return s + (spelling ? "000;last\r\n\r\n" : "0\r\n\r\n");
    }
    std::string bytes() const { return head() + framed(); }
};
// what the client has so far must be a response with these properties
static void check_reply(const Reply& r, const Origin& o, bool no_body = false) {
    MC_CHECK(r.bad.empty() && r.head, "client got a malformed response: %s", r.bad.c_str());
    MC_CHECK(r.status == o.status, "status %d arrived as %d", o.status, r.status);
    Headers got, want = o.headers;
    bool server = false;
    for (auto& h : o.headers) server |= ieq(h.first, "server");
    for (auto& h : r.headers) if (!ieq(h.first, "content-length") && !ieq(h.first, "transfer-encoding") && (server || !ieq(h.first, "server"))) got.push_back(h);
    MC_CHECK(got == want, "response headers changed on the way");
    MC_CHECK(r.count("content-length") == (o.framing == 1) && r.count("transfer-encoding") == (o.framing == 2), "response framing changed on the way");
    if (no_body) return;
    MC_CHECK(r.complete, "the response never ends for the client");
    MC_CHECK(r.body == o.body, "body of %zu bytes arrived as %zu bytes", o.body.size(), r.body.size());
    MC_CHECK(r.rest.empty(), "%zu bytes follow the response", r.rest.size());
}
static void settle() { fst::run(fst::now()); }

static const Headers hsets[] = {{}, {{"Content-Type", "a/b"}}, {{"Server", "x"}, {"X-1", ""}, {"Set-Cookie", "a=1"}, {"Set-Cookie", "b=2"}}, {{"server", "y; z"}, {"ETag", "\"q: r\""}}};

// every status, headers of all kinds and sizes, chunk spellings, bytes beyond the end of a response
static void kinds() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    Peer c; c.dial(80);
    int what = mc::choose(4, "kind");
    Origin o; o.body = payload(1500, 2); std::string extra;
    if (what == 0) { o.status = 200 + mc::choose(800, "status"); if (o.status == 204 || o.status == 304) return; o.framing = mc::choose(3, "framing"); o.body = "b"; }
    if (what == 1) {
        o.framing = 1 + mc::choose(2, "framing");
        int h = mc::choose(12, "headers");
        if (h < 4) for (int i = 0; i < (h == 0 ? 20 : h == 1 ? 40 : h == 2 ? 60 : 100); ++i) o.headers.push_back({"X-" + std::to_string(i % 7), std::to_string(i)});
        else if (h < 8) { static const size_t n[] = {200, 900, 1100, 1800}; o.headers = {{"Long", std::string(n[h - 4], 'v')}}; }
        else if (h == 8) o.headers = {{"Set-Cookie", "a=1"}, {"Set-Cookie", "a=1"}, {"Set-Cookie", "b=2"}, {"Via", "x"}, {"Via", "y"}};
        else if (h == 9) o.headers = {{std::string(300, 'n'), "v"}};
        else if (h == 10) o.headers = {{"Connection", "keep-alive"}, {"Keep-Alive", "timeout=5"}, {"Date", "Thu, 01 Jan 1970 00:00:00 GMT"}};
        else o.headers = {{"Content-Range", "bytes 0-9/100"}, {"Content-Encoding", "gzip"}, {"Content-Length-X", "5"}, {"X-Transfer-Encoding", "chunked"}, {"Serverx", "1"}};
    }
    if (what == 2) { o.framing = 2; o.spelling = mc::choose(4, "spelling"); static const size_t ps[] = {1, 10, 15, 16, 255, 256, 1000, 1024, 1500}; o.piece = mc::pick(ps, "chunk size"); }
    if (what == 3) { o.framing = 1 + mc::choose(2, "framing"); o.body = payload(mc::flip("long") ? 1030 : 5, 1); o.piece = 512; static const char* const x[] = {"X", "HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nZ", "0\r\n\r\n"}; extra = mc::pick(x, "bytes beyond the end"); }
    int how = mc::choose(3, "segments");
    c.send(get("p.com", "/k")); settle();
    fst::Ep* e = fst::accept(l, 0); MC_CHECK(e, "no connection to the origin"); settle();
    std::string b = o.bytes() + extra;
    if (how == 0) fst::send(e, b);
    else if (how == 1) { fst::send(e, o.head()); settle(); fst::send(e, b.substr(o.head().size())); }
    else for (size_t k = 0; k < b.size(); k += 61) { fst::send(e, b.substr(k, 61)); settle(); }
    if (o.framing == 0) fst::shut(e);
    settle();
    check_reply(c.reply(), o);
    fst::shut(e); settle();
    if (o.framing) {
        c.got.clear();
        c.send(get("p.com", "/next")); settle();
        fst::Ep* e2 = fst::accept(l, 0); MC_CHECK(e2, "the next request does not reach the origin"); settle();
        Origin o2; o2.body = "second"; fst::send(e2, o2.bytes()); settle();
        check_reply(c.reply(), o2);
        fst::shut(e2);
    }
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(b, how));
    finish({&c});
}
static void responses(int rounds) {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    std::vector<Peer*> all; Peer c; c.dial(80); all.push_back(&c);
    static const size_t sizes[] = {0, 1, 1023, 1024, 1025, 3000};
    static const int statuses[] = {200, 404, 500};
    bool open = true;
    for (int i = 0; i < rounds && open; ++i) {
        Origin o;
        o.status = i ? 200 : mc::pick(statuses, "status"); o.framing = mc::choose(3, "framing");
        o.headers = i ? hsets[1] : mc::pick(hsets, "headers");
        o.body = payload(mc::pick(sizes, "size"), i);
        int cut = mc::choose(4, "segments");
        o.piece = o.framing == 2 ? (mc::flip("large chunks") ? 2000 : 7) : 1;
        mc::note("origin answers %d framing %d, %zu bytes", o.status, o.framing, o.body.size());
        c.got.clear();
        c.send(get("p.com", "/r" + std::to_string(i))); settle();
        fst::Ep* e = fst::accept(l, 0);
        MC_CHECK(e, "no connection to the origin");
        settle();
        std::string rq = fst::taken(e);
        MC_CHECK(rq.find("\r\n\r\n") != std::string::npos, "origin got %s", mc::quote(rq).c_str());
        std::string b = o.bytes();
        if (cut == 0) fst::send(e, b);
        else if (cut == 1) for (char ch : b) fst::send(e, std::string(1, ch));
        else if (cut == 2) { fst::send(e, o.head()); settle(); fst::send(e, o.framed()); }
        else for (size_t k = 0; k < b.size(); k += 100) { fst::send(e, b.substr(k, 100)); settle(); }
        if (o.framing == 0) fst::shut(e);
        settle();
        Reply r = c.reply();
        check_reply(r, o);
        if (o.framing == 0) { MC_CHECK(c.eof, "response until close, but the connection stays open"); open = false; }
        else MC_CHECK(!c.eof, "connection closed after a complete response");
        if (o.framing) MC_CHECK(fst::peer_closed(e), "connection to the origin left open after the response");
        fst::shut(e); settle();
        mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(b, i));
    }
    finish(all);
}
// requests arrive at the origin as the client wrote them
static const std::string long1 = "/" + std::string(1100, 'p'), long2 = "/a?q=" + std::string(700, 'q');
static const char* const TLONG1 = long1.c_str(); static const char* const TLONG2 = long2.c_str();
static void requests() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    static const char* const methods[] = {"GET", "HEAD", "DELETE", "OPTIONS", "POST", "PUT"};
    static const char* const targets[] = {"/", "/a/b.flv", "/a?x=1&y=%20", "/a.b/c", "/?q", "/x.m3u8?a=b=c", TLONG1, TLONG2};
    static const char* const hosts[] = {"p.com", "q.com", "a.wild.com"};
    static const Headers hs[] = {{}, {{"User-Agent", "u/1 (x; y)"}}, {{"Cookie", "a=b"}, {"X", ""}, {"x", "2"}}, {{"Range", "bytes=0-"}, {"Authorization", "Basic a:b"}, {"If-None-Match", "\"e\""}},
        {{"Cookie", "a=1"}, {"Cookie", "a=1"}, {"Cookie", "b=2"}, {"Accept", "*/*"}, {"Accept", "a/b"}}, {{"Connection", "keep-alive"}, {"Accept-Encoding", "gzip"}, {"Long", std::string(1200, 'l')}},
        {{"A", "1"}, {"B", "2"}, {"C", "3"}, {"D", "4"}, {"E", "5"}, {"F", "6"}, {"G", "7"}, {"H", "8"}, {"I", "9"}, {"J", "10"}, {"K", "11"}, {"L", "12"}, {"M", "13"}, {"N", "14"}, {"O", "15"}, {"P", "16"}, {"Q", "17"}, {"R", "18"},
         {"S", "19"}, {"T", "20"}, {"U", "21"}, {"V", "22"}, {"W", "23"}, {"X", "24"}, {"Y", "25"}, {"Z", "26"}, {"a", "27"}, {"b", "28"}, {"c", "29"}, {"d", "30"}, {"e", "31"}, {"f", "32"}, {"g", "33"}, {"h", "34"}}};
    std::string m = mc::pick(methods, "method"), t = mc::pick(targets, "target"), h = mc::pick(hosts, "host");
    const Headers& hd = mc::pick(hs, "headers");
    auto l0 = fst::listen(9000), l1 = fst::listen(9001);
    Peer c; c.dial(80);
    std::string rq = m + " " + t + " HTTP/1.1\r\nHost: " + h + "\r\n";
    for (auto& x : hd) rq += x.first + ": " + x.second + "\r\n";
    if (rq.size() + 2 > 2000) { finish({&c}); return; }     // heads are limited to 2048 bytes
    c.send(rq + "\r\n"); settle();
    fst::Ep* e = fst::accept(h == "q.com" ? l1 : l0, 0);
    MC_CHECK(e, "request for %s did not reach its origin", h.c_str());
    settle();
    MC_CHECK(!fst::accept(h == "q.com" ? l0 : l1, 0), "request reached the origin of another host");
    std::string got = fst::taken(e);
    std::string first = m + " " + t + " HTTP/1.1\r\n";
    MC_CHECK(got.compare(0, first.size(), first) == 0, "%s arrived as %s", mc::quote(first).c_str(), mc::quote(got).c_str());
    MC_CHECK(got.size() >= 4 && got.find("\r\n\r\n") == got.size() - 4, "request is not exactly one head: %s", mc::quote(got).c_str());
    // the client's headers in order, at most joined by others; exactly one Host
    std::vector<std::pair<std::string, std::string>> have;
    size_t p = first.size();
    int nhost = 0, nlen = 0;
    while (p < got.size() - 2) {
        size_t q = got.find("\r\n", p); std::string ln = got.substr(p, q - p); p = q + 2;
        size_t k = ln.find(':');
        MC_CHECK(k != std::string::npos && k > 0, "request header %s", mc::quote(ln).c_str());
        std::string v = ln.substr(k + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1);
        have.push_back({ln.substr(0, k), v});
        if (ieq(have.back().first, "host")) { ++nhost; MC_CHECK(v == h, "host arrived as %s", v.c_str()); }
        if (ieq(have.back().first, "content-length")) { ++nlen; MC_CHECK(v == "0", "a body was announced"); }
        MC_CHECK(!ieq(have.back().first, "transfer-encoding"), "a body was announced");
    }
    MC_CHECK(nhost == 1 && nlen <= 1, "%d host headers, %d lengths", nhost, nlen);
    size_t at = 0;
    for (auto& x : have) if (at < hd.size() && x == hd[at]) ++at;
    MC_CHECK(at == hd.size(), "header %s lost on the way to the origin", at < hd.size() ? hd[at].first.c_str() : "");
    Origin o; o.body = m == "HEAD" ? "" : "ok";
    fst::send(e, o.bytes()); settle();
    check_reply(c.reply(), o);
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(got));
    fst::shut(e);
    finish({&c});
}
// responses that have no body whatever their headers say; the connection is usable afterwards
static void bodiless() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    Peer c; c.dial(80);
    int kind = mc::choose(3, "kind");      // HEAD, 204, 304
    int fr = mc::choose(3, "framing header");
    Origin o; o.status = kind == 0 ? 200 : kind == 1 ? 204 : 304; o.framing = kind == 1 ? 0 : fr; o.body = "hello"; o.headers = {{"ETag", "1"}};
    c.send(kind == 0 ? "HEAD /a HTTP/1.1\r\nHost: p.com\r\n\r\n" : get("p.com", "/a")); settle();
    fst::Ep* e = fst::accept(l, 0); MC_CHECK(e, "no connection to the origin"); settle();
    fst::send(e, o.head()); settle();
    Reply r = c.reply();
    check_reply(r, o, true);
    MC_CHECK(c.got.find("\r\n\r\n") == c.got.size() - 4, "a response without body is followed by %s", mc::quote(c.got.substr(c.got.find("\r\n\r\n") + 4)).c_str());
    MC_CHECK(!c.eof, "connection closed after a response without body");
    fst::shut(e); settle();
    c.got.clear();
    c.send(get("p.com", "/b")); settle();
    fst::Ep* e2 = fst::accept(l, 0); MC_CHECK(e2, "second request on the connection did not reach the origin"); settle();
    Origin o2; o2.body = "second";
    fst::send(e2, o2.bytes()); settle();
    check_reply(c.reply(), o2);
    mc::validated(); mc::nontrivial(); mc::state(kind * 3 + fr);
    fst::shut(e2);
    finish({&c});
}
// the origin dies or falls silent after every prefix of its response
static void truncated() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    Origin o; o.framing = mc::choose(3, "framing"); o.headers = {{"A", "b"}}; o.body = payload(mc::flip("long") ? 1200 : 9, 1); o.piece = 4;
    if (o.body.size() > 100) o.piece = 700;
    std::string b = o.bytes();
    std::vector<size_t> cuts;
    for (size_t i = 0; i < b.size(); ++i) if (b.size() < 200 || i < 80 || i + 20 > b.size() || i % 97 == 0) cuts.push_back(i);
    size_t n = mc::pick(cuts, "cut");
    int how = mc::choose(3, "origin");     // closes, silent, resets
    Peer c; c.dial(80);
    c.send(get("p.com", "/a")); settle();
    fst::Ep* e = fst::accept(l, 0); MC_CHECK(e, "no connection to the origin"); settle();
    if (n) fst::send(e, b.substr(0, n));
    settle();
    if (how == 0) fst::shut(e);
    if (how == 2) { fst::on_read = [&](fst::Ep* p, size_t) { return fst::port_of(p) == 9000 ? ECONNRESET : 0; }; fst::send(e, ""); fst::shut(e); }
    fst::run(how == 1 ? fst::now() + 60000000ULL : fst::now());
    c.poll();
    size_t head = o.head().size();
    Reply r = parse_reply(c.got, c.eof);
    MC_CHECK(c.eof, "the client is left waiting although the origin %s after %zu bytes", how == 1 ? "has been silent for a minute" : "is gone", n);
    if (r.head && r.status == o.status) {
        MC_CHECK(n >= head, "a response was made up from %zu bytes of its head", n);
        MC_CHECK(r.bad.empty(), "malformed response: %s", r.bad.c_str());
        MC_CHECK(o.framing == 0 || !r.complete, "a truncated response is complete for the client");
        MC_CHECK(o.body.compare(0, r.body.size(), r.body) == 0, "wrong bytes in a truncated response");
        if (o.framing == 0) MC_CHECK(r.body.size() == n - head, "bytes received from the origin withheld: %zu of %zu", r.body.size(), n - head);
    } else MC_CHECK(n < head || c.got.empty() || r.status >= 500, "answer %s", mc::quote(c.got).c_str());
    fst::on_read = nullptr;
    // the server goes on
    Peer d; d.dial(80); d.send(get("p.com", "/b")); settle();
    fst::Ep* e2 = fst::accept(l, 0); MC_CHECK(e2, "no connection to the origin afterwards"); settle();
    Origin o2; o2.body = "fine"; fst::send(e2, o2.bytes()); settle();
    check_reply(d.reply(), o2);
    mc::validated(); mc::nontrivial(); mc::state(n * 9 + o.framing * 3 + how);
    fst::shut(e); fst::shut(e2);
    finish({&c, &d});
}
static void unreachable() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    int k = mc::choose(3, "host");
    auto l = fst::listen(9000);
    Peer c; c.dial(80);
    static const int errs[] = {ECONNREFUSED, ETIME, EHOSTUNREACH};
    int err = mc::pick(errs, "error");
    if (k == 1) fst::on_connect = [&](int) { return err; };
    c.send(k == 2 ? get("nobody.org", "/") : get(k ? "p.com" : "down.com", "/")); 
    fst::run(fst::now() + 60000000ULL);
    Reply r = c.reply();
    if (k == 2) { MC_CHECK(r.head && r.status == 404 && r.complete && r.rest.empty(), "unknown host answered with %s", mc::quote(c.got).c_str()); }
    else {
        MC_CHECK(c.eof || (r.head && r.status >= 500 && r.complete), "client of an unreachable origin is left waiting");
        MC_CHECK(c.got.empty() || (r.head && r.status >= 500), "client of an unreachable origin got %s", mc::quote(c.got).c_str());
    }
    fst::on_connect = nullptr;
    Peer d; d.dial(80); d.send(get("p.com", "/b")); settle();
    fst::Ep* e2 = fst::accept(l, 0); MC_CHECK(e2, "no connection to the origin afterwards"); settle();
    Origin o2; o2.body = "fine"; fst::send(e2, o2.bytes()); settle();
    check_reply(d.reply(), o2);
    mc::validated(); mc::nontrivial(); mc::state(k);
    fst::shut(e2);
    finish({&c, &d});
}
// two clients at once, with pipelining, every schedule within the delay bound; a client may vanish
static void concurrent(int delays) {
    quiet(); fst::reset();
    auto l0 = fst::listen(9000), l1 = fst::listen(9001);
    int fr0 = 1 + mc::choose(2, "framing of the first"), fr1 = mc::choose(3, "framing of the second");
    int vanish = mc::choose(2, "first client vanishes");
    int pipe = mc::choose(2, "second pipelines");
    int same = mc::choose(2, "same origin");
    fst::set_delay_bound(delays);
    Origin o[2]; o[0].framing = fr0; o[1].framing = pipe ? 1 + fr1 % 2 : fr1; o[0].body = payload(1500, 3); o[1].body = payload(1100, 5); o[0].headers = {{"W", "0"}}; o[1].headers = {{"W", "1"}};
    o[0].piece = o[1].piece = 600;
    auto serve = [&](fst::Listener* l) {
        for (;;) {
            fst::Ep* e = fst::accept(l, 1000000);
            if (!e) return;
            fst::spawn("origin", [&, e] {
                std::string rq; bool eof = false;
                while (rq.find("\r\n\r\n") == std::string::npos) if (!fst::recv(e, rq, 1000000, eof)) { fst::shut(e); return; }
                const Origin& x = o[rq.find("GET /one") == 0 ? 0 : 1];
                std::string b = x.bytes();
                fst::send(e, b.substr(0, 700)); fst::yield(); fst::send(e, b.substr(700));
                if (x.framing == 0) { fst::shut(e); return; }
                std::string rest; fst::recv(e, rest, 2000000, eof); fst::shut(e);
            });
        }
    };
    fst::spawn("origins", [&] { serve(l0); });
    fst::spawn("origins", [&] { serve(l1); });
    Peer c[2];
    fst::spawn("client", [&] { c[0].dial(80); c[0].send(get("p.com", "/one")); if (vanish) { fst::yield(); fst::yield(); c[0].close(); } });
    fst::spawn("client", [&] { c[1].dial(80); std::string r = get(same ? "p.com" : "q.com", "/two"); c[1].send(pipe ? r + r : r); });
    fst::run(fst::now() + 5000000);
    if (!vanish) check_reply(c[0].reply(), o[0]);
    Reply r = c[1].reply();
    if (pipe) { std::string rest = r.rest; r.rest.clear(); check_reply(r, o[1]); check_reply(parse_reply(rest, c[1].eof), o[1]); } else check_reply(r, o[1]);
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(c[0].got));
    finish({&c[0], &c[1]});
}
// every write to the client fails once
static void faults() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    static const int errs[] = {ETIME, EPIPE, ECONNRESET};
    int err = mc::pick(errs, "error"), at = mc::choose(12, "failing write"), fr = mc::choose(3, "framing"), n = 0; bool failed = false;
    Peer c; c.dial(80);
    c.send(get("p.com", "/a"));
    bool up = mc::flip("towards the origin");
    fst::on_write = [&](fst::Ep* e, size_t) { if ((fst::port_of(e) == 9000) == up && n++ == at) { failed = true; return err; } return 0; };
    settle();
    fst::Ep* e = fst::accept(l, 0);
    Origin o; o.framing = fr; o.body = payload(2500, 2); o.piece = 900;
    MC_CHECK(e, "no connection to the origin");
    fst::send(e, o.bytes()); if (fr == 0) fst::shut(e);
    settle();
    Reply r = c.reply();
    if (failed) {
        MC_CHECK(c.eof, "connection stays open after a failed write");
        MC_CHECK(fst::peer_closed(e), "connection to the origin stays open after a failed write");
        if (r.head && fr) MC_CHECK(!r.complete, "response complete although a write failed");
        mc::nontrivial();
    } else check_reply(r, o);
    mc::validated(); mc::state(at * 3 + fr);
    fst::shut(e);
    finish({&c});
}
// a request with a body: the origin must receive that body
static void request_body() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    Peer c; c.dial(80);
    bool chunked = mc::flip("chunked");
    c.send(post("p.com", "/u", chunked ? "Transfer-Encoding: chunked\r\n" : "Content-Length: 3\r\n") + (chunked ? chunk("abc") + "0\r\n\r\n" : "abc"));
    settle();
    fst::Ep* e = fst::accept(l, 0); MC_CHECK(e, "no connection to the origin"); settle();
    std::string got = fst::taken(e);
    size_t h = got.find("\r\n\r\n");
    MC_CHECK(h != std::string::npos, "origin got %s", mc::quote(got).c_str());
    MC_CHECK(got.substr(h + 4) == (chunked ? "3\r\nabc\r\n0\r\n\r\n" : "abc"), "the origin does not receive the body of the request: %s", mc::quote(got).c_str());
    mc::validated(); mc::state(chunked);
    fst::shut(e);
    finish({&c});
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    auto init = [] { boot(SETUP); };
    return mc::run(argc, argv, "C13", {
        {"responses", "every sequence of 2 responses (status, 3 framings, 4 header lists, 6 sizes, 4 segmentations, 2 chunk sizes) on one connection", [] { responses(2); }, 4, init},
        {"kinds", "every status from 200 to 999, 12 header lists, 4 chunk spellings x 9 chunk sizes, 3 kinds of bytes beyond the end, 3 segmentations, followed by another request", kinds, 3, init},
        {"requests", "6 methods, 8 targets (up to 1100 bytes), 3 hosts, 7 header lists (up to 34 headers), heads of up to 2000 bytes", requests, 3, init},
        {"bodiless", "HEAD, 204 and 304 responses with every framing header, followed by another request", bodiless, 2, init},
        {"truncated", "origin closes, resets or falls silent after every prefix of 6 responses", truncated, 3, init},
        {"unreachable", "origin refuses, times out or is unknown", unreachable, 2, init},
        {"concurrent", "two clients, one pipelining, one vanishing, on one or two origins, every schedule with up to 4 (quick: 2) deviations from FIFO", [t] { concurrent(t ? 4 : 2); }, 5, init},
        {"request-body", "a request with a body of known length or chunked", request_body, 1, init},
        {"faults", "every write towards client or origin fails with each of 3 errors", faults, 3, init},
    });
}
