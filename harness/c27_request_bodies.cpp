// C27: the body of a request reaches the origin exactly, and is never taken for requests.
#include "stack.hpp"
using namespace stack;
static const char* SETUP =
    "http {\nserver s {\nlisten_port 80;\nrecv_timeout 20000000;\nsend_timeout 20000000;\n"
    "host p.com {\nrole proxy;\ntype proxy;\npass_proxy 127.0.0.1:9000;\n}\n"
    "host down.com {\nrole proxy;\ntype proxy;\npass_proxy 127.0.0.1:9009;\n}\n"
    "host live.com {\nrole source;\ntype stream;\nedge_avformat all;\n}\n"
    "host none.com {\nrole source;\ntype stream;\n}\n"
    "host api.com {\nrole api;\ntype api;\n}\n}\n}\n";

static void settle() { fst::run(fst::now()); }
static std::string lower(std::string s) { for (auto& c : s) c = tolower(c); return s; }

// ---- a strict reader of requests: what any standard origin makes of the bytes it gets
struct Req { std::string method, target, host, body; bool complete = false; std::vector<std::pair<std::string, std::string>> headers; };
struct Reqs { std::vector<Req> v; std::string bad; };      // the last one may be incomplete
static Reqs read_requests(const std::string& s) {
    Reqs out;
    size_t at = 0;
    while (at < s.size()) {
        size_t e = s.find("\r\n\r\n", at);
        if (e == std::string::npos) { out.bad = "unfinished head"; return out; }
        Req r;
        size_t p = s.find("\r\n", at);
        std::string first = s.substr(at, p - at);
        size_t a = first.find(' '), b = first.rfind(' ');
        if (a == std::string::npos || a == b || first.substr(b + 1) != "HTTP/1.1" || first.find(' ', a + 1) != b) { out.bad = "request line " + mc::quote(first); return out; }
        r.method = first.substr(0, a); r.target = first.substr(a + 1, b - a - 1);
        int nl = 0, nt = 0, nh = 0; std::string len;
        for (p += 2; p < e + 2;) {
            size_t q = s.find("\r\n", p); std::string ln = s.substr(p, q - p); p = q + 2;
            size_t k = ln.find(':');
            if (k == std::string::npos || k == 0 || ln[k - 1] == ' ') { out.bad = "header line " + mc::quote(ln); return out; }
            std::string key = lower(ln.substr(0, k)), val = ln.substr(k + 1);
            while (!val.empty() && (val[0] == ' ' || val[0] == '\t')) val.erase(0, 1);
            while (!val.empty() && (val.back() == ' ' || val.back() == '\t')) val.pop_back();
            r.headers.push_back({key, val});
            if (key == "content-length") { ++nl; len = val; }
            if (key == "transfer-encoding") { ++nt; if (lower(val) != "chunked") out.bad = "transfer encoding " + mc::quote(val); }
            if (key == "host") { ++nh; r.host = val; }
        }
        if (nh != 1) out.bad = "number of host headers";
        if (nl > 1 || nt > 1 || (nl && nt)) out.bad = "contradictory framing";
        if (nl && (len.empty() || len.size() > 20 || len.find_first_not_of("0123456789") != std::string::npos)) out.bad = "length " + mc::quote(len);
        if (!out.bad.empty()) return out;
        at = e + 4;
        if (nt) {
            for (;;) {
                size_t q = s.find("\r\n", at);
                if (q == std::string::npos) { out.v.push_back(r); return out; }
                std::string sz = s.substr(at, q - at); sz = sz.substr(0, sz.find(';'));
                if (sz.empty() || sz.size() > 8 || sz.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) { out.bad = "chunk size " + mc::quote(sz); return out; }
                size_t n = strtoul(sz.c_str(), nullptr, 16);
                at = q + 2;
                r.body += s.substr(at, n);
                if (s.size() - at < n + 2) { out.v.push_back(r); return out; }
                if (s.compare(at + n, 2, "\r\n")) { out.bad = "chunk end"; return out; }
                at += n + 2;
                if (n == 0) { r.complete = true; break; }
            }
        } else {
            size_t n = nl ? strtoul(len.c_str(), nullptr, 10) : 0;
            r.body = s.substr(at, n);
            if (s.size() - at < n) { out.v.push_back(r); return out; }
            at += n; r.complete = true;
        }
        out.v.push_back(r);
    }
    return out;
}

static const std::string SMUGGLED = "GET /smuggled HTTP/1.1\r\nHost: p.com\r\n\r\n";
// bytes that look like chunks, like the end of a body and like requests
static std::string tricky(size_t n, int seed) {
    std::string unit = std::string("\r\n0\r\n\r\n") + SMUGGLED + std::string("\0\xff\r\n\r\n5\r\n", 9), s;
    while (s.size() < n + seed) s += unit;
    return s.substr(seed, n);
}
struct Body { std::string data; int framing = 1; size_t piece = 1; int style = 0; };     // framing 1 length, 2 chunked
static std::string head_of(const Body& b) { return b.framing == 1 ? "Content-Length: " + std::to_string(b.data.size()) + "\r\n" : "Transfer-Encoding: chunked\r\n"; }
static std::string framed(const Body& b) {
    if (b.framing == 1) return b.data;
    std::string s;
    for (size_t o = 0; o < b.data.size(); o += b.piece) {
        std::string d = b.data.substr(o, b.piece); char h[40];
        if (b.style == 1) snprintf(h, sizeof h, "%04zX\r\n", d.size());
        else if (b.style == 2) snprintf(h, sizeof h, "%zx;name=val\r\n", d.size());
        else snprintf(h, sizeof h, "%zx\r\n", d.size());
        s += h + d + "\r\n";
    }
    return s + "0\r\n\r\n";
}
static std::string request(const std::string& m, const std::string& host, const std::string& t, const Body& b, const std::string& more = "") {
    return m + " " + t + " HTTP/1.1\r\nHost: " + host + "\r\n" + head_of(b) + more + "\r\n" + framed(b);
}
static void deliver(Peer& c, const std::string& s, int how, size_t head) {
    if (how == 0) { c.send(s); return; }
    if (how == 1) { c.send(s.substr(0, head)); settle(); c.send(s.substr(head)); return; }
    if (how == 2) { for (char ch : s) c.send(std::string(1, ch)); return; }
    size_t step = how == 3 ? 97 : 1460;
    for (size_t k = 0; k < s.size(); k += step) { c.send(s.substr(k, step)); settle(); }
}
static std::string answer(const std::string& b, const std::string& more = "") { return "HTTP/1.1 200 OK\r\n" + more + "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; }
static void check_answer(const Reply& r, const std::string& b) { MC_CHECK(r.bad.empty() && r.head && r.status == 200 && r.complete && r.body == b, "client got %d %s %s instead of the answer %s", r.status, r.bad.c_str(), mc::quote(r.body.substr(0, 60)).c_str(), b.c_str()); }
static void check_request(const Reqs& q, const std::string& m, const std::string& t, const std::string& body) {
    MC_CHECK(q.bad.empty(), "the origin gets a malformed request: %s", q.bad.c_str());
    MC_CHECK(q.v.size() == 1, "the origin gets %zu requests instead of one", q.v.size());
    const Req& r = q.v[0];
    MC_CHECK(r.method == m && r.target == t && r.host == "p.com", "the origin gets %s %s of %s instead of %s %s", r.method.c_str(), r.target.c_str(), r.host.c_str(), m.c_str(), t.c_str());
    MC_CHECK(r.complete, "the origin never sees the end of the body (%zu of %zu bytes)", r.body.size(), body.size());
    MC_CHECK(r.body == body, "body of %zu bytes reaches the origin as %zu bytes%s", body.size(), r.body.size(), r.body.size() == body.size() ? " with other content" : "");
}
// the server goes on for another client
static void goes_on(fst::Listener* l, Peer& d) {
    d.dial(80); d.send(get("p.com", "/after")); settle();
    fst::Ep* e = nullptr;
    std::string rq;
    while ((e = fst::accept(l, 0))) { settle(); rq = fst::taken(e); if (rq.find("GET /after") == 0) break; MC_CHECK(rq.find("/smuggled") == std::string::npos || rq.find("GET /smuggled"), "a body was taken for a request"); fst::shut(e); }
    MC_CHECK(e, "later requests do not reach the origin");
    fst::send(e, answer("fine")); settle();
    check_answer(d.reply(), "fine");
    fst::shut(e);
}

static const size_t sizes[] = {0, 1, 5, 1023, 1024, 1025, 2049, 5000, 70000};
static void forward(int rounds) {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    static const char* const methods[] = {"POST", "PUT", "GET", "DELETE", "PATCH"};
    Peer c; c.dial(80);
    for (int i = 0; i < rounds; ++i) {
        Body b;
        size_t n = i ? (mc::flip("larger") ? 1500 : 3) : mc::pick(sizes, "size");
        b.framing = 1 + mc::choose(2, "chunked");
        if (b.framing == 2) { static const size_t pieces[] = {1, 7, 1000, 1024, 5000, 100000}; b.piece = i ? 900 : mc::pick(pieces, "chunk size"); b.style = i ? 0 : mc::choose(3, "style"); if (n > 5000 && b.piece < 1000) return; }
        b.data = tricky(n, i * 5);
        std::string m = i ? "PUT" : mc::pick(methods, "method");
        int how = n > 5000 ? (mc::flip("pieces") ? 4 : 0) : mc::choose(i ? 2 : 5, "segments");
        bool expect = !i && mc::flip("expect");
        std::string t = "/f" + std::to_string(i), rq = request(m, "p.com", t, b, expect ? "Expect: 100-continue\r\n" : "");
        bool pipelined = i + 1 == rounds && mc::flip("pipelined");
        if (pipelined) rq += get("p.com", "/next");
        mc::note("%s of %zu bytes framing %d, segments %d", m.c_str(), n, b.framing, how);
        c.got.clear();
        deliver(c, rq, how, rq.find("\r\n\r\n") + 4); settle();
        fst::Ep* e = fst::accept(l, 0);
        MC_CHECK(e, "request with a body does not reach the origin");
        check_request(read_requests(fst::taken(e)), m, t, b.data);
        fst::send(e, answer("r" + std::to_string(i))); settle();
        Reply r = c.reply();
        check_answer(r, "r" + std::to_string(i));
        MC_CHECK(!c.eof, "connection closed behind a complete exchange");
        fst::Ep* e2 = nullptr;
        if (pipelined) {
            e2 = fst::accept(l, 0);
            MC_CHECK(e2, "the request behind a body does not reach the origin");
            check_request(read_requests(fst::taken(e2)), "GET", "/next", "");
            fst::send(e2, answer("n")); settle();
            c.poll();
            check_answer(parse_reply(c.reply().rest, c.eof), "n");
        }
        fst::shut(e); if (e2) fst::shut(e2);
        settle();
        MC_CHECK(!fst::accept(l, 0), "the origin gets a request nobody made");
        mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(rq, i));
    }
    finish({&c});
}

// the body breaks off after every prefix, in several ways, or its chunks are malformed
static void broken() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    Body b; b.framing = 1 + mc::choose(2, "chunked"); b.piece = 5; b.data = "abcdefghijkl";
    if (mc::flip("long")) { b.data = tricky(1500, 0); b.piece = 700; }
    std::string rq = request("POST", "p.com", "/u", b);
    size_t head = rq.find("\r\n\r\n") + 4;
    std::vector<size_t> cuts;
    for (size_t k = 1; k < rq.size(); ++k) if (rq.size() < 300 || k < head + 30 || k + 30 > rq.size() || k % 61 == 0) cuts.push_back(k);
    size_t cut = mc::pick(cuts, "cut");
    int how = mc::choose(3, "client");       // closes, resets, silent
    bool bytes = mc::flip("bytewise");
    Peer c; c.dial(80);
    if (bytes && cut < 300) for (size_t k = 0; k < cut; ++k) c.send(rq.substr(k, 1)); else c.send(rq.substr(0, cut));
    settle();
    if (how == 0) c.close();
    if (how == 1) { fst::on_read = [&](fst::Ep* p, size_t) { return fst::port_of(p) == 80 ? ECONNRESET : 0; }; c.close(); }
    fst::run(how == 2 ? fst::now() + 90000000ULL : fst::now());
    fst::on_read = nullptr;
    c.poll();
    MC_CHECK(c.eof || how != 2, "a client whose body never comes is not let go");
    fst::Ep* e = fst::accept(l, 0);
    if (e) {
        std::string got = fst::taken(e);
        Reqs q = read_requests(got);
        MC_CHECK(cut >= head, "a request is made up from a part of its head");
        MC_CHECK(q.bad.empty() && q.v.size() == 1 && q.v[0].target == "/u", "the origin gets a malformed request: %s", q.bad.c_str());
        MC_CHECK(!q.v[0].complete, "the origin takes a body of %zu bytes that broke off after %zu of %zu for complete", b.data.size(), cut - head, rq.size() - head);
        MC_CHECK(b.data.compare(0, q.v[0].body.size(), q.v[0].body) == 0, "the origin gets bytes that were not sent");
        MC_CHECK(fst::peer_closed(e), "the origin's connection stays open behind a body that broke off");
    }
    MC_CHECK(!fst::accept(l, 0), "a body was taken for a request");
    if (e) fst::shut(e);
    Peer d; goes_on(l, d);
    mc::validated(); mc::nontrivial(); mc::state(cut * 8 + how * 2 + b.framing);
    finish({&c, &d});
}
static void malformed() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    static const std::string bad[] = {"x\r\nabc\r\n", "-1\r\nabc\r\n", "\r\nabc\r\n", "3\nabc\r\n", "3\r\nabcd\r\n", "3\r\nabc\n\r", "3\r\nabcX\r\n", "3 3\r\nabc\r\n0\r", "0x3\r\nabc\r\n", "ffffffffffffffffff\r\nabc\r\n",
        "3,\r\nabc\r\n", "0\r\nX: y\r\n\r\n", "0\r\nGET /smuggled HTTP/1.1\r\nHost: p.com\r\n\r\n", "+3\r\nabc\r\n", " 3\r\nabc\r\n", std::string("3\0\r\nabc\r\n", 9), "3;" + std::string(100, 'x') + "\r\nabc\r\n", "fffffffffffffff\r\nabc\r\n" };
    int k = mc::choose(sizeof bad / sizeof bad[0], "malformation");
    bool good = mc::flip("behind a good chunk"), tail = mc::flip("request behind"), bytes = mc::flip("bytewise");
    std::string rq = post("p.com", "/u", "Transfer-Encoding: chunked\r\n") + (good ? chunk("hello") : "") + bad[k] + "0\r\n\r\n" + (tail ? SMUGGLED : "");
    Peer c; c.dial(80);
    deliver(c, rq, bytes ? 2 : 0, 0);
    fst::run(fst::now() + 90000000ULL);
    c.poll();
    MC_CHECK(c.eof, "a client that sends a malformed body is not let go");
    fst::Ep* e = fst::accept(l, 0);
    MC_CHECK(e, "no request at all");
    std::string got = fst::taken(e);
    Reqs q = read_requests(got);
    MC_CHECK(q.bad.empty() && q.v.size() == 1, "the origin gets %s: %s", mc::quote(got).c_str(), q.bad.c_str());
    MC_CHECK(!q.v[0].complete, "a malformed body (%s) is complete for the origin", mc::quote(bad[k]).c_str());
    MC_CHECK(!fst::accept(l, 0), "what follows a malformed body was taken for a request");
    fst::shut(e);
    Peer d; goes_on(l, d);
    mc::validated(); mc::nontrivial(); mc::state(k * 8 + good * 4 + tail * 2 + bytes);
    finish({&c, &d});
}
// refused requests: their body is skipped or ends the connection, and is never a request
static void refused() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    struct R { const char *name, *method, *host, *target; int status; };
    static const R rs[] = {{"unknown host", "POST", "nobody.org", "/u", 404}, {"GET of an unknown host", "GET", "nobody.org", "/u", 404}, {"stream that does not exist", "GET", "live.com", "/x.flv", 404},
        {"publishing not allowed", "POST", "none.com", "/x.flv", 403}, {"second publisher", "POST", "live.com", "/busy.flv", 0}, {"api", "POST", "api.com", "/x", 0}, {"origin down", "POST", "down.com", "/x", 0}, {"unknown format", "POST", "live.com", "/x.zzz", 0}};
    const R& r = mc::pick(rs, "request");
    int framing = mc::choose(6, "framing");      // length, chunked, chunked with the request as a chunk, until close, chunked with a size line like a request line, the same later
    std::string body = framing == 2 ? "" : SMUGGLED; if (mc::flip("twice")) body += body;
    Body b; b.framing = framing == 0 ? 1 : 2; b.data = framing == 2 ? SMUGGLED : body; b.piece = framing == 2 ? SMUGGLED.size() : 10;
    std::string rq = framing == 3 ? std::string(r.method) + " " + r.target + " HTTP/1.1\r\nHost: " + r.host + "\r\n\r\n" + SMUGGLED : request(r.method, r.host, r.target, b);
    if (framing >= 4) {                          // the rest of such a line is an extension of the chunk size
        Body none; none.framing = 2;
        rq = request(r.method, r.host, r.target, none); rq.resize(rq.find("\r\n\r\n") + 4);
        if (framing == 5) rq += chunk("ab");
        rq += "11 /smuggled HTTP/1.1\r\nHost: p.com\r\n\r\n\r\n0\r\n\r\n";
    }
    if (framing == 3 && !(r.status == 403 || (r.status == 0 && std::string(r.host) == "live.com"))) return;   // elsewhere a request without a length has no body
    int how = mc::choose(4, "segments"); bool next = mc::flip("next");
    Peer pub;
    if (std::string(r.name) == "second publisher") { pub.dial(80); pub.send(post("live.com", "/busy.flv") + flv_bytes({}, true)); settle(); }
    Peer c; c.dial(80);
    size_t h = rq.find("\r\n\r\n") + 4;
    deliver(c, rq, how, h);
    settle();
    c.poll();
    Reply first = c.reply();
    if (r.status) MC_CHECK(first.head && first.status == r.status && first.complete, "%s: answered with %s", r.name, mc::quote(c.got).c_str());
    if (next && !c.eof) c.send(get("p.com", "/true"));
    fst::run(fst::now() + 1000000);
    c.poll();
    bool served = false;
    for (fst::Ep* e; (e = fst::accept(l, 0));) {
        settle();
        Reqs q = read_requests(fst::taken(e));
        for (auto& x : q.v) { MC_CHECK(x.target == "/true", "%s: its body was taken for the request %s", r.name, x.target.c_str()); served = true; }
        fst::send(e, answer("true")); settle(); fst::shut(e);
    }
    c.poll();
    if (served) check_answer(parse_reply(first.head ? parse_reply(c.got, c.eof).rest : c.got, c.eof), "true");
    else MC_CHECK(c.eof || !next, "%s: neither ends the connection nor serves its next request", r.name);
    if (first.head && !served) MC_CHECK(parse_reply(c.got, true).rest.empty(), "%s: the body is answered with %s", r.name, mc::quote(parse_reply(c.got, true).rest).c_str());
    Peer d; goes_on(l, d);
    mc::validated(); mc::nontrivial(); mc::state((&r - rs) * 64 + framing * 16 + how * 2 + next);
    if (pub.e) finish({&c, &d, &pub}); else finish({&c, &d});
}
// heads that leave the end of the body open to interpretation
static void framings() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    struct V { const char* lines; int legal; };       // 1: chunked, 2: length of the body, 0: must be refused, -1: chunked or refused
    static const V vs[] = {
        {"Transfer-Encoding: chunked\r\nContent-Length: 5\r\n", 0}, {"Content-Length: 5\r\nTransfer-Encoding: chunked\r\n", 0}, {"Transfer-Encoding: chunked\r\nContent-Length: 0\r\n", 0},
        {"Content-Length: 5\r\nContent-Length: 6\r\n", 0}, {"Content-Length: 5\r\nContent-Length: 5\r\n", -2}, {"Transfer-Encoding: gzip\r\n", 0}, {"Transfer-Encoding: identity\r\n", 0}, {"Transfer-Encoding: gzip\r\nContent-Length: 5\r\n", 0},
        {"Transfer-Encoding: gzip, chunked\r\n", -1}, {"Transfer-Encoding: chunked, gzip\r\n", 0}, {"Transfer-Encoding: chunked\r\nTransfer-Encoding: gzip\r\n", 0}, {"Transfer-Encoding: gzip\r\nTransfer-Encoding: chunked\r\n", -1},
        {"Transfer-Encoding: chunked\r\nTransfer-Encoding: chunked\r\n", 0}, {"Transfer-Encoding: xchunked\r\n", 0}, {"Transfer-Encoding: chunkedx\r\n", 0}, {"Transfer-Encoding : chunked\r\n", 0}, {"Transfer-Encoding:\tchunked\r\n", -1},
        {"Transfer-Encoding: CHUNKED\r\n", 1}, {"transfer-encoding:chunked\r\n", 1}, {"Transfer-Encoding: chunked  \r\n", -1}, {"Transfer-Encoding:\r\n chunked\r\n", -1}, {"X: y\r\n Transfer-Encoding: chunked\r\n", -3}, {"Transfer-Encoding: \r\n", 0}, {"Transfer-Encoding: chun\r\n ked\r\n", 0},
        {"Content-Length: -5\r\n", 0}, {"Content-Length: +5\r\n", 0}, {"Content-Length: 5a\r\n", 0}, {"Content-Length: 0x5\r\n", 0}, {"Content-Length: 5, 5\r\n", -2}, {"Content-Length: 5 5\r\n", 0}, {"Content-Length: 5\r\n 5\r\n", 0}, {"Content-Length:\r\n", 0}, {"Content-Length: \r\n", 0},
        {"Content-Length: 18446744073709551621\r\n", 0}, {"Content-Length: 18446744073709551616\r\n", 0}, {"Content-Length: 99999999999999999999999\r\n", 0}, {"Content-Length: 00000000005\r\n", 2}, {"content-length:5\r\n", 2}, {"Content-Length :5\r\n", 0}, {"CONTENT-LENGTH: 5 \r\n", -2}, {"Content-Length:\r\n 5\r\n", -2},
        {"Content_Length: 5\r\nContent-Length: 0\r\n", -4}, {"X-Content-Length: 5\r\n", -4}, {"Content-Length: 0\r\nX: Content-Length: 5\r\n", -4}, {"Content-Length: 4294967301\r\n", -5}, {"Content-Length: 9223372036854775808\r\n", -5}, {"Content-Length: 18446744073709551615\r\n", -5}, {"Content-Length: 9223372036854775807\r\n", -5}};
    const V& v = mc::pick(vs, "head");
    int where = mc::choose(3, "lines around it"), bd = mc::choose(2, "body"), how = mc::choose(3, "segments");
    std::string lines = v.lines;
    std::string hd = "POST /u HTTP/1.1\r\n" + (where == 1 ? lines + "Host: p.com\r\n" : "Host: p.com\r\n" + lines) + (where == 2 ? "X-Z: z\r\n" : "") + "\r\n";
    // five bytes, or five bytes in chunks; then another request
    std::string body = bd ? chunk("abcde") + "0\r\n\r\n" : "abcde";
    Peer c; c.dial(80);
    deliver(c, hd + body + SMUGGLED, how, hd.size());
    settle();
    std::vector<Req> all;
    bool partial = false;
    for (fst::Ep* e; (e = fst::accept(l, 0));) {
        std::string got = fst::taken(e);
        Reqs q = read_requests(got);
        MC_CHECK(q.bad.empty(), "the origin gets %s: %s", mc::quote(got).c_str(), q.bad.c_str());
        for (auto& r : q.v) { if (r.complete) all.push_back(r); else partial = true; }
        fst::send(e, answer("a")); settle(); fst::shut(e);
    }
    fst::run(fst::now() + 90000000ULL);
    c.poll();
    MC_CHECK(c.eof || all.size() == 2, "%s: the connection is neither served nor ended", mc::quote(lines).c_str());
    bool chunked = v.legal == 1 || v.legal == -1, length = v.legal == 2 || v.legal == -2;
    if (v.legal == 0) MC_CHECK(all.empty() && !partial, "an ambiguous request (%s) is passed on", mc::quote(lines).c_str());
    else if (v.legal == -3) { for (auto& r : all) MC_CHECK(r.body.empty(), "a folded header is obeyed"); }
    else if (v.legal == -4) { MC_CHECK(!all.empty() && all[0].body.empty(), "%s is taken for a length", mc::quote(lines).c_str()); }
    else if (v.legal == -5) MC_CHECK(all.empty(), "a request is complete long before its announced end");
    else if (!all.empty()) {
        MC_CHECK(all[0].target == "/u", "first request is %s", all[0].target.c_str());
        if (chunked && bd) MC_CHECK(all[0].body == "abcde" && all.size() == 2 && all[1].target == "/smuggled", "chunked request (%s) read wrongly", mc::quote(lines).c_str());
        if (chunked && !bd) mc::fail("%s: a body without chunks is complete", mc::quote(lines).c_str());
        if (length) MC_CHECK(all[0].body == (hd + body).substr(hd.size(), 5), "body of 5 bytes read as %s", mc::quote(all[0].body).c_str());
        if (length && !bd) MC_CHECK(all.size() == 2 && all[1].target == "/smuggled", "the request behind a body of 5 bytes is lost");
    } else if (v.legal > 0) MC_CHECK(v.legal == 1 && !bd, "a correct request (%s) is refused", mc::quote(lines).c_str());
    Peer d; goes_on(l, d);
    mc::validated(); mc::nontrivial(); mc::state((&v - vs) * 18 + where * 6 + bd * 3 + how);
    finish({&c, &d});
}
// interim responses of the origin come before its answer and are not the answer
static void interim() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    static const std::string is[] = {"HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 102 Processing\r\nX-I: 1\r\n\r\n", "HTTP/1.1 103 Early Hints\r\nLink: </a>\r\nLink: </b>\r\n\r\n"};
    Peer c; c.dial(80);
    bool body = mc::flip("body");
    Body b; b.data = "data"; 
    c.send(body ? request("PUT", "p.com", "/i", b, "Expect: 100-continue\r\n") : get("p.com", "/i")); settle();
    fst::Ep* e = fst::accept(l, 0); MC_CHECK(e, "no connection to the origin"); settle();
    check_request(read_requests(fst::taken(e)), body ? "PUT" : "GET", "/i", body ? "data" : "");
    int n = 1 + mc::choose(3, "how many"); std::string s;
    for (int i = 0; i < n; ++i) s += mc::pick(is, "interim");
    std::string last = mc::flip("chunked") ? "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + chunk("ans") + chunk("wer") + "0\r\n\r\n" : answer("answer");
    int how = mc::choose(4, "segments");
    size_t cut = 0;
    if (mc::flip("breaks off")) { cut = mc::choose(s.size(), "cut"); s.resize(cut); last.clear(); cut = 1; }
    if (how == 0) fst::send(e, s + last);
    else if (how == 1) { fst::send(e, s); settle(); if (!last.empty()) fst::send(e, last); }
    else if (how == 2) for (char ch : s + last) fst::send(e, std::string(1, ch));
    else { std::string x = s + last; for (size_t k = 0; k < x.size(); k += 9) { fst::send(e, x.substr(k, 9)); settle(); } }
    if (cut) fst::shut(e);
    settle();
    Reply r = c.reply();
    if (cut) MC_CHECK(c.eof && !(r.head && r.status < 500), "no answer, but the client got %s", mc::quote(c.got).c_str());
    else {
        check_answer(r, "answer");
        MC_CHECK(r.rest.empty() && r.count("x-i") == 0 && r.count("link") == 0, "the answer is mixed up with interim responses");
        c.got.clear();
        c.send(get("p.com", "/j")); settle();
        fst::Ep* e2 = fst::accept(l, 0); MC_CHECK(e2, "the next request does not reach the origin"); settle();
        fst::send(e2, answer("second")); settle();
        check_answer(c.reply(), "second");
        fst::shut(e2);
    }
    fst::shut(e);
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(s + last, how));
    finish({&c});
}
// the origin answers, closes, stalls or resets while the body is still on its way
static void early() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    Body b; b.framing = 1 + mc::choose(2, "chunked"); b.data = tricky(6000, 3); b.piece = 1500;
    std::string rq = request("POST", "p.com", "/u", b);
    size_t head = rq.find("\r\n\r\n") + 4;
    static const size_t parts[] = {0, 1, 700, 1024, 1030, 3000};
    size_t part = mc::pick(parts, "sent before");
    int what = mc::choose(5, "origin");       // answers, answers and closes, closes, stops reading, refuses more (reset)
    bool rest = mc::flip("rest is sent");
    Peer c; c.dial(80);
    c.send(rq.substr(0, head + part)); settle();
    fst::Ep* e = fst::accept(l, 0); MC_CHECK(e, "no connection to the origin");
    std::string got = fst::taken(e);
    if (what == 3) fst::window(e, 100);
    if (what <= 1) fst::send(e, answer("early"));
    if (what == 1 || what == 2) fst::shut(e);
    if (what == 4) fst::on_write = [&](fst::Ep* p, size_t) { return fst::port_of(p) == 9000 ? ECONNRESET : 0; };
    settle();
    if (rest) c.send(rq.substr(head + part));
    fst::run(fst::now() + 90000000ULL);
    fst::on_write = nullptr;
    Reply r = c.reply();
    got += fst::taken(e);
    Reqs q = read_requests(got);
    if (what == 0 || what == 3) {
        MC_CHECK(q.bad.empty() && q.v.size() == 1, "the origin gets a malformed request: %s", q.bad.c_str());
        MC_CHECK(b.data.compare(0, q.v[0].body.size(), q.v[0].body) == 0, "the origin gets bytes that were not sent");
        MC_CHECK(!q.v[0].complete || (rest && q.v[0].body == b.data), "a part of the body is complete for the origin");
    }
    if (what == 0 && rest) { check_answer(r, "early"); MC_CHECK(q.v[0].complete, "the rest of the body is withheld from the origin"); }
    else MC_CHECK(c.eof, "the client is left waiting");
    if (r.head && r.status < 500) check_answer(r, "early");
    MC_CHECK(!fst::accept(l, 0), "a body was taken for a request");
    fst::shut(e);
    Peer d; goes_on(l, d);
    mc::validated(); mc::nontrivial(); mc::state(part * 32 + what * 4 + rest * 2 + b.framing);
    finish({&c, &d});
}
// every read and write fails once
static void faults() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    static const int errs[] = {ETIME, EPIPE, ECONNRESET};
    int err = mc::pick(errs, "error"), at = mc::choose(24, "failing operation"), side = mc::choose(4, "which"), n = 0; bool failed = false;
    Body b; b.framing = 1 + mc::choose(2, "chunked"); b.data = tricky(3000, 1); b.piece = 1100;
    bool pieces = mc::flip("pieces");
    auto f = [&](fst::Ep* e, bool write) { if ((side & 1) == write && ((side >> 1) ? 80 : 9000) == fst::port_of(e) && n++ == at) { failed = true; return err; } return 0; };
    fst::on_write = [&](fst::Ep* e, size_t) { return f(e, true); };
    fst::on_read = [&](fst::Ep* e, size_t) { return f(e, false); };
    std::string rq = request("POST", "p.com", "/u", b);
    Peer c; c.dial(80);
    deliver(c, rq, pieces ? 4 : 0, 0); settle();
    fst::Ep* e = fst::accept(l, 0);
    if (e) { fst::send(e, answer("yes")); settle(); }
    fst::on_write = nullptr; fst::on_read = nullptr;
    fst::run(fst::now() + 90000000ULL);
    Reply r = c.reply();
    std::string got = e ? fst::taken(e) : "";
    Reqs q = read_requests(got);
    if (!failed) { check_answer(r, "yes"); check_request(q, "POST", "/u", b.data); }
    else {
        for (auto& x : q.v) { MC_CHECK(x.target == "/u", "a body was taken for a request"); MC_CHECK(!x.complete || x.body == b.data, "a wrong body is complete for the origin"); }
        MC_CHECK(c.eof, "the connection stays open behind a failure");
        if (r.head && r.status < 500) { if (r.complete) check_answer(r, "yes"); else MC_CHECK(r.bad.empty() && r.status == 200 && std::string("yes").compare(0, r.body.size(), r.body) == 0, "the client gets %s", mc::quote(c.got).c_str()); }
        if (e) MC_CHECK(fst::peer_closed(e), "the connection to the origin stays open behind a failure");
        mc::nontrivial();
    }
    MC_CHECK(!fst::accept(l, 0), "a body was taken for a request");
    if (e) fst::shut(e);
    Peer d; goes_on(l, d);
    mc::validated(); mc::state(at * 8 + side * 2 + pieces);
    finish({&c, &d});
}
// two uploads at once, a slow origin, every schedule within the bound
static void concurrent(int delays) {
    quiet(); fst::reset();
    auto l = fst::listen(9000);
    Body b[2];
    b[0].framing = 1 + mc::choose(2, "first"); b[1].framing = 1 + mc::choose(2, "second");
    b[0].data = tricky(1500, 2); b[1].data = tricky(1300, 7); b[0].piece = b[1].piece = 600;
    int room = mc::choose(2, "origin has little room"), vanish = mc::choose(2, "first client vanishes");
    fst::set_delay_bound(delays);
    std::string seen[2]; int conns = 0;
    fst::spawn("origins", [&] {
        for (;;) {
            fst::Ep* e = fst::accept(l, 1000000);
            if (!e) return;
            ++conns;
            if (room) fst::window(e, 400);
            fst::spawn("origin", [&, e] {
                std::string rq; bool eof = false;
                for (;;) {
                    Reqs q = read_requests(rq);
                    if (!q.v.empty() && q.v[0].complete) { fst::send(e, answer(q.v[0].target)); break; }
                    if (!fst::recv(e, rq, 1000000, eof)) break;
                    if (room) fst::window(e, 400);
                }
                int who = rq.find("PUT /one") == 0 ? 0 : 1; seen[who] = rq;
                std::string more; fst::recv(e, more, 2000000, eof); seen[who] += more; fst::shut(e);
            });
        }
    });
    Peer c[2];
    auto up = [&](int i, const char* t) {
        std::string rq = request("PUT", "p.com", t, b[i]);
        c[i].dial(80); c[i].send(rq.substr(0, 700)); fst::yield();
        if (vanish && i == 0) { c[i].close(); return; }
        c[i].send(rq.substr(700));
    };
    fst::spawn("client", [&] { up(0, "/one"); });
    fst::spawn("client", [&] { up(1, "/two"); });
    fst::run(fst::now() + 30000000);
    for (int i = vanish; i < 2; ++i) {
        check_request(read_requests(seen[i]), "PUT", i ? "/two" : "/one", b[i].data);
        check_answer(c[i].reply(), i ? "/two" : "/one");
    }
    if (vanish && !seen[0].empty()) { Reqs q = read_requests(seen[0]); MC_CHECK(q.bad.empty() && q.v.size() == 1 && !q.v[0].complete, "an unfinished body is complete for the origin"); }
    MC_CHECK(conns <= 2, "%d requests from 2 clients", conns);
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(seen[1]));
    finish({&c[0], &c[1]});
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    auto init = [] { boot(SETUP); };
    return mc::run(argc, argv, "C27", {
        {"forward", "every sequence of 2 (thorough: 3) requests with bodies on one connection: 9 sizes, length or chunked (6 chunk sizes, 3 spellings), 5 methods, 5 segmentations, expectation of 100, pipelining", [t] { forward(t ? 3 : 2); }, 4, init},
        {"broken", "client closes, resets or falls silent at every place of 4 requests", broken, 3, init},
        {"malformed", "18 malformed chunks, first or behind a good one, followed by a request or not", malformed, 2, init},
        {"refused", "8 kinds of requests that are not forwarded, with a body that reads as requests", refused, 3, init},
        {"framings", "48 unusual or contradictory ways to announce a body, 3 places, 2 bodies, 3 segmentations", framings, 3, init},
        {"interim", "up to 3 interim responses of 3 kinds before the answer, 4 segmentations, every place to break off", interim, 3, init},
        {"early", "the origin answers, closes, stalls or resets while the body is on its way", early, 2, init},
        {"faults", "each of the first 24 reads and writes towards client and origin fails with each of 3 errors", faults, 3, init},
        {"concurrent", "two uploads, one vanishing, origins with little room, every schedule with up to 5 (quick: 3) deviations from FIFO", [t] { concurrent(t ? 5 : 3); }, 5, init},
    });
}
