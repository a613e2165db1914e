// C10: request and response heads are parsed exactly, consume exactly the head, and anything malformed is an error.
#include "common.hpp"
#include <sps_http_parser.hpp>
using namespace sps;

typedef std::vector<std::pair<std::string, std::string>> Hdrs;

static std::string lower(std::string s) { for (auto& c : s) c = tolower(c); return s; }
static std::string wire(const std::string& first, const Hdrs& h, const char* sep = ": ") {
    std::string s = first + "\r\n";
    for (auto& p : h) s += p.first + sep + p.second + "\r\n";
    return s + "\r\n";
}
// cut: -1 whole, -2 byte by byte, k: [0,k) then the rest
static PScriptReader reader(const std::string& s, int cut) {
    auto r = std::make_shared<ScriptReader>(s, 4444);
    ScriptReader* raw = r.get();
    if (cut == -2) r->cut = [](size_t) { return (size_t) 1; };
    else if (cut >= 0) r->cut = [raw, cut](size_t max) { return raw->at < (size_t) cut ? std::min(max, cut - raw->at) : max; };
    return r;
}
static bool same(const std::list<RequestHeader>& got, const Hdrs& want) {
    if (got.size() != want.size()) return false;
    size_t i = 0;
    for (auto& g : got) { if (g.key != want[i].first || g.value != want[i].second) return false; ++i; }
    return true;
}
static std::string show(const std::list<RequestHeader>& l) { std::string s; for (auto& h : l) s += "[" + h.key + "=" + h.value + "]"; return s; }

struct Url { const char *target, *path, *params, *ext; Hdrs pp; };
static const std::vector<Url>& urls() {
    static const std::vector<Url> u = {
        {"/", "/", "", "", {}}, {"/a", "/a", "", "", {}}, {"/live/s.flv", "/live/s.flv", "", "flv", {}},
        {"/live/s.flv?k=v", "/live/s.flv", "k=v", "flv", {{"k", "v"}}},
        {"/l.x/s.b.ts?a=1&b=&c=3=4&d", "/l.x/s.b.ts", "a=1&b=&c=3=4&d", "ts", {{"a", "1"}, {"b", ""}, {"c", "3=4"}}},
        {"/p?q=/x.flv&u=%20+", "/p", "q=/x.flv&u=%20+", "", {{"q", "/x.flv"}, {"u", "%20+"}}},
        {"/live/", "/live/", "", "", {}}, {"/a%2fb~_-;:@!$&'()*,=", "/a%2fb~_-;:@!$&'()*,=", "", "", {}},
    };
    return u;
}
static const char* METHODS[] = {"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS"};
static const Hdrs POOL = {{"Host", "h.example"}, {"Content-Length", "5"}, {"X-Empty", ""}, {"User-Agent", "a b/1 (c; d)"},
                          {"A", "1"}, {"Accept", "*/*"}, {"X-Colon", "a: b:c"}, {"cookie", "k=v; w=\"q\""}};

static void check_request(const std::string& method, const Url& u, const Hdrs& h, const std::string& host, int port, int cut, const std::string& body) {
    std::string head = wire(method + " " + u.target + " HTTP/1.1", h);
    auto r = reader(head + body, cut);
    HttpParser p;
    mc::step();
    int n = p.parse_header(r, HttpType::REQUEST);
    MC_CHECK(n > 0, "well formed request refused (%d): %s", n, mc::quote(head).c_str());
    MC_CHECK(n == (int) head.size() && r->at == head.size(), "head of %zu bytes: %zu consumed, %d reported", head.size(), r->at, n);
    auto q = p.get_request();
    MC_CHECK(q != nullptr, "no request");
    MC_CHECK(q->method == method, "method %s reported as %s", method.c_str(), q->method.c_str());
    MC_CHECK(same(q->headers, h), "headers reported as %s, sent %s", show(q->headers).c_str(), mc::quote(head).c_str());
    MC_CHECK(q->host == host && q->port == port, "host reported as %s:%d, must be %s:%d", q->host.c_str(), q->port, host.c_str(), port);
    MC_CHECK(q->path == u.path && q->params == u.params && q->ext == u.ext && q->url == u.target, "target %s reported as path %s params %s ext %s url %s",
             u.target, q->path.c_str(), q->params.c_str(), q->ext.c_str(), q->url.c_str());
    for (auto& kv : u.pp) MC_CHECK(q->get_param(kv.first) == kv.second, "parameter %s reported as %s", kv.first.c_str(), q->get_param(kv.first).c_str());
    MC_CHECK(q->get_param("absent") == "", "a parameter from nowhere");
    for (auto& kv : h) {
        std::string first;
        for (auto& x : h) if (lower(x.first) == lower(kv.first)) { first = x.second; break; }
        MC_CHECK(q->get_header(kv.first) == first, "header %s looked up as %s", kv.first.c_str(), q->get_header(kv.first).c_str());
        std::string up = kv.first; for (auto& c : up) c = toupper(c);
        MC_CHECK(q->get_header(lower(kv.first)) == first && q->get_header(up) == first, "header name %s is matched case-sensitively", kv.first.c_str());
    }
    MC_CHECK(q->get_header("Absent") == "", "a header from nowhere");
    mc::state(mc::hash_str(head));
    mc::validated();
    mc::nontrivial();
}

static void requests(int maxh) {
    quiet();
    std::string method = mc::pick(METHODS, "method");
    const Url& u = mc::pick(urls(), "target");
    Hdrs h = {POOL[0]};
    int n = mc::choose(maxh + 1, "further headers");
    for (int i = 0; i < n; ++i) h.push_back(POOL[1 + mc::choose((int) POOL.size() - 1, "header")]);
    int cl = 0; for (auto& x : h) cl += x.first == "Content-Length";
    if (cl > 1) return;   // a repeated length is not well formed
    int at = mc::choose(2, "host position");
    if (at) std::swap(h.front(), h.back());
    check_request(method, u, h, "h.example", 80, -1 - mc::choose(2, "reads"), mc::flip("bytes after the head") ? "BODY1GET / HTTP/1.1\r\n\r\n" : "");
}
// every length of every part, so that the end of the head falls on every alignment, with every split into two reads
static void alignments(int max) {
    quiet();
    std::string pad(1 + mc::choose(max, "value length"), 'v'), tp(mc::choose(5, "target length"), 't');
    Url u{"", "", "", "", {}};
    std::string t = "/" + tp;
    u.target = u.path = t.c_str();
    Hdrs h = {{"Host", "a"}, {"K", pad}};
    if (mc::flip("empty last value")) h.push_back({"E", ""});
    std::string head = wire("GET " + t + " HTTP/1.1", h);
    int cut = mc::choose((int) head.size() + 2, "first read ends at") - 2;
    check_request("GET", u, h, "a", 80, cut, mc::flip("body follows") ? "\r\n\r\nbody" : "");
}
static void host_forms() {
    quiet();
    struct H { const char* v; const char* host; int port; };
    static const H hs[] = {{"a.b", "a.b", 80}, {"a.b:8080", "a.b", 8080}, {"127.0.0.1", "127.0.0.1", 80}, {"127.0.0.1:1", "127.0.0.1", 1},
                           {"localhost:65535", "localhost", 65535}, {"x-y.z:80", "x-y.z", 80}};
    static const char* names[] = {"Host", "host", "HOST", "hOST"};
    const H& x = mc::pick(hs, "host");
    Hdrs h = {{mc::pick(names, "spelling"), x.v}};
    if (mc::flip("more")) h.insert(h.begin(), {"A", "1"});
    check_request("GET", mc::pick(urls(), "target"), h, x.host, x.port, mc::flip("byte by byte") ? -2 : -1, "tail");
}
// framing facts a request head states
static void request_framing() {
    quiet();
    static const char* names[][2] = {{"Content-Length", "Transfer-Encoding"}, {"content-length", "transfer-encoding"}, {"CONTENT-LENGTH", "TRANSFER-ENCODING"}};
    struct L { const char* v; long long n; };
    static const L ls[] = {{"0", 0}, {"1", 1}, {"5", 5}, {"010", 10}, {"08", 8}, {"000000000000000000000000012", 12}, {"2147483647", 2147483647LL}, {"2147483648", 2147483648LL}, {"4294967301", 4294967301LL}, {"1099511627776", 1099511627776LL}};
    static const char* tes[] = {"chunked", "Chunked", "CHUNKED"};
    auto& nm = mc::pick(names, "spelling");
    int kind = mc::choose(3, "framing");
    Hdrs h = {{"Host", "a"}};
    long long want = -1; bool chunked = false;
    if (kind == 1) { const L& l = mc::pick(ls, "length"); h.push_back({nm[0], l.v}); want = l.n; }
    if (kind == 2) { h.push_back({nm[1], mc::pick(tes, "coding")}); chunked = true; }
    std::string head = wire("POST /a.flv HTTP/1.1", h);
    auto r = reader(head, -1);
    HttpParser p;
    mc::step();
    int n = p.parse_header(r, HttpType::REQUEST);
    MC_CHECK(n > 0, "well formed request refused: %s", mc::quote(head).c_str());
    auto q = p.get_request();
    MC_CHECK((long long) q->get_content_length() == want, "content length %lld reported as %lld: %s", want, (long long) q->get_content_length(), mc::quote(head).c_str());
    MC_CHECK(q->is_chunked() == chunked, "chunked reported as %d: %s", q->is_chunked(), mc::quote(head).c_str());
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(head));
}
static void responses(int maxh) {
    quiet();
    static const int codes[] = {200, 206, 302, 403, 404, 500, 599};
    static const char* reasons[] = {"OK", "", "Not Found At All"};
    static const Hdrs pool = {{"Server", "x"}, {"Connection", "close"}, {"X", ""}, {"Content-Type", "video/x-flv; a=b"}};
    struct L { const char* v; long long n; };
    static const L ls[] = {{"0", 0}, {"7", 7}, {"2147483647", 2147483647LL}, {"2147483648", 2147483648LL}, {"4294967301", 4294967301LL}};
    int code = mc::pick(codes, "status");
    Hdrs h;
    int n = mc::choose(maxh + 1, "headers");
    for (int i = 0; i < n; ++i) h.push_back(mc::pick(pool, "header"));
    int framing = mc::choose(3, "framing");
    long long want = -1; bool chunked = false;
    if (framing == 1) { const L& l = mc::pick(ls, "length"); h.push_back({mc::flip("lower case") ? "content-length" : "Content-Length", l.v}); want = l.n; }
    if (framing == 2) { h.push_back({mc::flip("lower case") ? "transfer-encoding" : "Transfer-Encoding", "chunked"}); chunked = true; }
    std::string head = wire("HTTP/1.1 " + std::to_string(code) + " " + mc::pick(reasons, "reason"), h);
    auto r = reader(head + "payload\r\n\r\n", mc::choose((int) 6, "cut") * 9 - 2);
    HttpParser p;
    mc::step();
    int k = p.parse_header(r, HttpType::RESPONSE);
    MC_CHECK(k == (int) head.size() && r->at == head.size(), "response head of %zu bytes: %zu consumed, %d reported: %s", head.size(), r->at, k, mc::quote(head).c_str());
    auto q = p.get_response();
    MC_CHECK(q && q->status_code == code, "status %d reported as %d", code, q ? q->status_code : -1);
    MC_CHECK(q->success() == (code == 200), "status %d counts as %s", code, q->success() ? "success" : "failure");
    MC_CHECK(same(q->headers, h), "headers reported as %s, sent %s", show(q->headers).c_str(), mc::quote(head).c_str());
    MC_CHECK(q->chunked == chunked, "chunked reported as %d: %s", q->chunked, mc::quote(head).c_str());
    if (!chunked) MC_CHECK((long long) q->content_length == want, "content length %lld reported as %lld", want, (long long) q->content_length);
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(head));
}
// heads that are cut short or too large
static void incomplete() {
    quiet();
    bool res = mc::flip("response");
    std::string head = res ? wire("HTTP/1.1 200 OK", {{"Content-Length", "3"}, {"A", "b"}}) : wire("GET /a.flv?x=1 HTTP/1.1", {{"Host", "h"}, {"A", "b"}});
    int n = mc::choose((int) head.size(), "bytes before the end of the connection");
    auto r = reader(head.substr(0, n), mc::flip("byte by byte") ? -2 : -1);
    HttpParser p;
    mc::step();
    int k = p.parse_header(r, res ? HttpType::RESPONSE : HttpType::REQUEST);
    MC_CHECK(k <= 0, "head cut after %d bytes accepted: %s", n, mc::quote(head.substr(0, n)).c_str());
    mc::validated(); mc::nontrivial(); mc::state(n * 2 + res);
}
static void sizes() {
    quiet();
    static const int fixed[] = {100, 300, 600, 1000, 1100, 1500, 2000, 3000, 4096, 10000};
    int a = mc::choose(20 + 10, "head size");
    int total = a < 20 ? 2048 - 10 + a : fixed[a - 20];
    int shape = mc::choose(5, "shape"); bool res = mc::flip("response");
    std::string first = res ? "HTTP/1.1 200 OK" : "GET / HTTP/1.1", url = "/";
    Hdrs h = {{"Host", "a"}};
    if (res && shape == 2) return;
    size_t base = wire(first, h).size();
    auto fill = [&](size_t n) { std::string x; for (size_t i = 0; i < n; ++i) x += (char) ('a' + (i * 7 + i / 26) % 26); return x; };
    if (shape == 0) h.push_back({"L", fill(total - base - 5)});                   // one long value
    else if (shape == 1) {                                                         // many headers
        int left = total - base, i = 0;
        while (left >= 12 + 6) { h.push_back({"K", std::to_string(1000000 + i++)}); left -= 12; }
        h.push_back({"Z", std::string(left - 5, 'z')});
    } else if (shape == 2) { url += fill(total - base); first = "GET " + url + " HTTP/1.1"; }
    else if (shape == 3) h.push_back({fill(total - base - 5), "v"});              // one long name
    else { int left = total - base, i = 0; while (left >= 7 + 6) { h.push_back({"k", std::string(1, (char) ('0' + i++ % 10)) + "x"}); h.back().second.resize(2); left -= 7; } h.push_back({"Z", std::string(left - 5, 'z')}); }
    std::string head = wire(first, h);
    if ((int) head.size() != total) mc::broken("head of %zu bytes, wanted %d", head.size(), total);
    auto r = reader(head + "GET", mc::flip("byte by byte") ? -2 : -1);
    HttpParser p;
    mc::step();
    int k = p.parse_header(r, res ? HttpType::RESPONSE : HttpType::REQUEST);
    if (total <= 2048) MC_CHECK(k == total && r->at == (size_t) total, "head of %d bytes: %d", total, k);
    else MC_CHECK(k <= 0 || k == total, "head of %d bytes neither refused nor parsed whole: %d", total, k);
    if (k > 0) {
        MC_CHECK(same(res ? p.get_response()->headers : p.get_request()->headers, h), "%zu headers of a head of %d bytes are not reported as sent", h.size(), total);
        if (!res) MC_CHECK(p.get_request()->url == url && p.get_request()->path == url, "a target of %zu characters is reported as one of %zu", url.size(), p.get_request()->url.size());
    }
    mc::validated(); mc::nontrivial(); mc::state(total * 10 + shape * 2 + res);
}
// definitely malformed: never a request / response
static void malformed() {
    quiet();
    static const std::vector<std::string> bad = {
        "GET / HTTP/1.1\r\nNoColon\r\nHost: a\r\n\r\n", "GET / HTTP/1.1\r\nHost a\r\n\r\n", "G@T / HTTP/1.1\r\nHost: a\r\n\r\n",
        "GET / HTTP/x.1\r\nHost: a\r\n\r\n", "GET /\x01 HTTP/1.1\r\nHost: a\r\n\r\n", "\r\n\r\n", "\r\n\r\n\r\n\r\n",
        "FOO / HTTP/1.1\r\nHost: a\r\n\r\n", "GET / HTTP/1.1\r\nHost: a\r\nContent-Length: x\r\n\r\n", "GET / HTTP/1.1\r\nHost: a\r\nContent-Length: -5\r\n\r\n",
        "POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 5 6\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 6\r\nHost: a\r\n\r\n",
        "POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 5\r\nTransfer-Encoding: chunked\r\n\r\n", "GET / HTTP/1.1\r\nHost: a\r\n: novalue\r\n\r\n",
        "GET / HTTP/1.1\r\nHost: a\r\nB@d(name: x\r\n\r\n", "HTTP/1.1 200 OK\r\nA: b\r\n\r\n", "{\"json\": 1}\r\n\r\n", "FLV\x01\x05\r\n\r\n\r\n\r\n",
        "POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 99999999999999999999999\r\n\r\n",
    };
    static const std::vector<std::string> badr = {
        "HTTP/1.1 xyz OK\r\nA: b\r\n\r\n", "FTTP/1.1 200 OK\r\nA: b\r\n\r\n", "GET / HTTP/1.1\r\nHost: a\r\n\r\n",
        "HTTP/1.1 200 OK\r\nbad line\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: q\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\n",
        "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nTransfer-Encoding: chunked\r\n\r\n", "\r\n\r\n\r\n\r\n", "HTTP/1.1 -00 OK\r\n\r\n",
    };
    bool res = mc::flip("response");
    const std::string& s = mc::pick(res ? badr : bad, "head");
    auto r = reader(s + "rest", mc::flip("byte by byte") ? -2 : -1);
    HttpParser p;
    mc::step();
    int k = p.parse_header(r, res ? HttpType::RESPONSE : HttpType::REQUEST);
    MC_CHECK(k <= 0, "malformed head accepted (%d): %s", k, mc::quote(s).c_str());
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(s));
}
// arbitrary bytes: never reads past the first empty line, never crashes
static void noise(int len) {
    quiet();
    static const char abc[] = {'a', '\r', '\n', ':', ' '};
    static const char* pre[] = {"GET / HTTP/1.1\r\n", "", "HTTP/1.1 200 OK\r\nK: v"};
    std::string s = mc::pick(pre, "prefix");
    for (int i = 0; i < len; ++i) s += mc::pick(abc, "byte");
    s += "\r\n\r\nbody!";
    size_t end = s.find("\r\n\r\n") + 4;
    auto r = reader(s, -1);
    HttpParser p;
    mc::step();
    int k = p.parse_header(r, s[0] == 'H' ? HttpType::RESPONSE : HttpType::REQUEST);
    if (end >= 5 || s[0] != '\r') MC_CHECK(k <= 0 || r->at <= end, "%zu bytes consumed, the head ends at %zu: %s", r->at, end, mc::quote(s).c_str());
    MC_CHECK(k <= 0 || k <= (int) r->at, "%d bytes parsed of %zu received", k, r->at);
    mc::state(mc::hash_str(s)); mc::validated();
}
// every single-byte change of a valid head: an error, or a head that ends where it ended
static void mutated() {
    quiet();
    bool res = mc::flip("response");
    std::string s = res ? wire("HTTP/1.1 200 OK", {{"Content-Length", "3"}, {"A", "b"}}) : wire("GET /a.flv?x=1 HTTP/1.1", {{"Host", "h"}, {"A", "b"}});
    size_t at = mc::choose((int) s.size(), "position");
    s[at] = (char) mc::choose(256, "byte");
    std::string all = s + "rest of the connection\r\n\r\n";
    size_t end = all.find("\r\n\r\n") + 4;
    auto r = reader(all, -1);
    HttpParser p;
    mc::step();
    int k = p.parse_header(r, res ? HttpType::RESPONSE : HttpType::REQUEST);
    MC_CHECK(k <= 0 || r->at <= end, "%zu bytes consumed, the head ends at %zu: %s", r->at, end, mc::quote(s).c_str());
    if (k > 0 && res && p.get_response()) (void) p.get_response()->status_code;
    mc::state(mc::hash_str(s)); mc::validated();
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C10", {
        {"requests", "6 methods x 8 targets x all lists of up to 4 (quick: 3) further headers x host position x fragmentation x pipelined bytes", [t] { requests(t ? 4 : 3); }},
        {"alignments", "value lengths 1-40, target lengths 0-4, every split of the head into two reads", [t] { alignments(40); }},
        {"host-forms", "6 host values x 4 spellings x 8 targets", host_forms},
        {"request-framing", "no body length, 10 lengths, chunked, in 3 spellings", request_framing},
        {"responses", "7 statuses x 3 reasons x all lists of up to 5 (quick: 4) headers x body framing x fragmentation", [t] { responses(t ? 5 : 4); }},
        {"incomplete", "every truncation of a request and of a response head", incomplete, 2},
        {"sizes", "30 head sizes up to and around the 2048 byte limit and beyond, made of one long value, name or target or of many headers", sizes, 2},
        {"malformed", "30 malformed heads", malformed, 2},
        {"arbitrary", "all strings of 8 bytes (quick) or 9 bytes from {a CR LF : space} after 3 prefixes", [t] { noise(t ? 9 : 8); }},
        {"one-byte-changed", "every byte of a request and of a response head replaced by every value", mutated, 2},
    });
}
