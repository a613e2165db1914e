// C12: responses written by the server are framed exactly.
#include "stack.hpp"
#include <sps_http_socket.hpp>
using namespace stack;

struct H { const char* k; const char* v; };
static bool framing(const std::string& k) { return !strcasecmp(k.c_str(), "content-length") || !strcasecmp(k.c_str(), "transfer-encoding"); }

// mode 0 until close, 1 length, 2 chunked
static void run_one(int status, int mode, const std::vector<H>& hs, const std::vector<size_t>& writes, int explicit_head, int fail_at, int err, bool end) {
    quiet();
    size_t total = 0; for (auto n : writes) total += n;
    auto raw = std::make_shared<ScriptReader>("");
    int n = 0; std::string at_fail; bool failed = false;
    raw->wfault = [&](size_t) { if (failed) mc::fail("wrote on after a failed write"); if (n++ == fail_at) { failed = true; return err; } return 0; };
    HttpResponseSocket rsp(raw, "1.2.3.4", 80);
    std::list<RequestHeader> hd;
    for (auto& h : hs) hd.push_back(RequestHeader(h.k, h.v));
    error_t ret = rsp.init(status, hs.empty() ? nullptr : &hd, mode == 1 ? (int64_t) total : -1, mode == 2);
    MC_CHECK(ret == SUCCESS, "init: %d", ret);
    auto verdict = [&](error_t r) {   // an operation reports exactly the failure of one of its writes
        if (failed) MC_CHECK(r == err, "a failed write (%d) is reported as %d", err, r);
        else MC_CHECK(r == SUCCESS, "a successful write is reported as %d", r);
        return failed;
    };
    std::string body; bool stop = false;
    if (explicit_head) stop = verdict(rsp.write_header());
    for (size_t i = 0; i < writes.size() && !stop; ++i) {
        std::string d;
        for (size_t k = 0; k < writes[i]; ++k) d += (char) ("\r\n0;x\0\xff"[(i + k) % 7]);
        stop = verdict(rsp.write((void*) d.data(), d.size()));
        if (!stop) body += d;
        if (!stop && !body.empty()) {   // everything accepted so far is on the wire
            Reply r = parse_reply(raw->written, false);
            MC_CHECK(r.bad.empty() && r.body == body, "after a successful write the client sees %zu bytes of %zu (%s)", r.body.size(), body.size(), r.bad.c_str());
        }
    }
    if (!stop && mode == 2 && end) stop = verdict(rsp.write(nullptr, 0));
    if (!stop && raw->written.empty()) return;      // nothing asked for
    Reply r = parse_reply(raw->written, true);
    mc::validated(); mc::state(mc::hash_str(raw->written));
    if (failed) {
        if (r.head) MC_CHECK(r.bad.empty() && body.compare(0, r.body.size(), r.body) == 0 || r.body.compare(0, body.size(), body) == 0, "a failed response shows wrong bytes");
        if (r.head && mode == 2) MC_CHECK(!r.complete, "a response that failed is complete for the client");
        return;
    }
    mc::nontrivial();
    MC_CHECK(r.bad.empty() && r.head, "malformed response: %s in %s", r.bad.c_str(), mc::quote(raw->written).c_str());
    MC_CHECK(r.status == status, "status %d sent as %d", status, r.status);
    MC_CHECK(r.count("Content-Length") == (mode == 1) && r.count("Transfer-Encoding") == (mode == 2), "framing headers of %s", mc::quote(raw->written).c_str());
    MC_CHECK(r.body == body, "body of %zu bytes sent as %zu", body.size(), r.body.size());
    MC_CHECK(r.complete == (mode != 2 || end), "end of the body not where it is");
    MC_CHECK(r.rest.empty(), "bytes after the response");
    if (mode == 1) MC_CHECK(r.header("Content-Length") == std::to_string(total), "length %s", r.header("Content-Length").c_str());
    if (mode == 2) MC_CHECK(!strcasecmp(r.header("Transfer-Encoding").c_str(), "chunked"), "encoding");
    // the given headers, in order and unchanged, apart from framing; a Server header exactly if ... at least one
    std::vector<std::pair<std::string, std::string>> want, got;
    bool server = false;
    for (auto& h : hs) if (!framing(h.k)) { want.push_back({h.k, h.v}); server |= !strcasecmp(h.k, "server"); }
    for (auto& h : r.headers) if (!framing(h.first) && (server || strcasecmp(h.first.c_str(), "server"))) got.push_back(h);
    MC_CHECK(want == got, "headers of the response differ: %s", mc::quote(raw->written).c_str());
}
static const H hdrs[] = {{"Content-Type", "video/x-flv"}, {"content-length", "3"}, {"Content-Length", "77"}, {"Transfer-Encoding", "chunked"}, {"TRANSFER-ENCODING", "chunked"},
                         {"Server", "nginx"}, {"server", "n"}, {"Server", ""}, {"X-A", ""}, {"Set-Cookie", "a=b; c"}, {"Set-Cookie", "Content-Length: 5"}, {"Connection", "close"}};
static const int statuses[] = {200, 206, 301, 403, 404, 500, 502};

// headers that contradict "until close" framing belong to no message the callers build: leave those to the delimited modes
static bool sane(int mode, const H& h) { return mode != 0 || !framing(h.k); }

static void heads(int nh) {
    int mode = mc::choose(3, "framing"); int st = mc::pick(statuses, "status");
    std::vector<H> hs;
    for (int i = 0; i < nh; ++i) { int k = mc::choose(12, "header"); if (k == 11) break; if (sane(mode, hdrs[k])) hs.push_back(hdrs[k]); }
    int ex = mc::choose(2, "head first");
    int w = mc::choose(3, "body");
    run_one(st, mode, hs, w == 0 ? std::vector<size_t>{} : w == 1 ? std::vector<size_t>{5} : std::vector<size_t>{1, 2}, ex || w == 0, -1, 0, mc::flip("end"));
}
static void bodies(int nw) {
    static const size_t sizes[] = {1, 2, 9, 10, 15, 16, 17, 255, 256, 4096, 70000};
    int mode = mc::choose(3, "framing");
    std::vector<size_t> w;
    for (int i = 0; i < nw; ++i) { int k = mc::choose(12, "size"); if (k == 11) break; w.push_back(sizes[k]); }
    run_one(200, mode, {}, w, mc::choose(2, "head first"), -1, 0, mc::flip("end"));
}
static void every_status() {
    int st = 200 + mc::choose(800, "status");
    run_one(st, mc::choose(3, "framing"), {{"X-A", "b"}}, {5}, mc::choose(2, "head first"), -1, 0, true);
}
static void large() {
    static const size_t sizes[] = {65535, 65536, 65537, 0xfffff, 0x100000, 0x100001, 0x123456, 0x1000000, 0x1000001};
    size_t n = mc::pick(sizes, "size"); int before = mc::choose(3, "before");
    std::vector<size_t> w; if (before == 1) w.push_back(3); if (before == 2) w.push_back(70000); w.push_back(n); if (n < 0x200000) w.push_back(2);
    run_one(200, mc::choose(3, "framing"), {}, w, mc::choose(2, "head first"), -1, 0, true);
}
static void faults(int nw) {
    int mode = mc::choose(3, "framing");
    static const int errs[] = {ERROR_SOCKET_TIMEOUT, ERROR_SOCKET_WRITE, ERROR_SOCKET_CLOSED};
    static const size_t sizes[] = {1, 16, 300};
    std::vector<size_t> w;
    for (int i = 0; i < nw; ++i) w.push_back(mc::pick(sizes, "size"));
    run_one(200, mode, {{"X-A", "b"}}, w, mc::choose(2, "head first"), mc::choose(1 + 3 * (nw + 1), "failing write"), mc::pick(errs, "error"), mc::flip("end"));
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C12", {
        {"heads", "3 framings, 7 statuses, every list of up to 4 (quick: 3) of 11 headers including contradicting framing headers in any case, 3 bodies", [t] { heads(t ? 4 : 3); }, 3},
        {"bodies", "3 framings, every sequence of up to 4 (quick: 3) writes of 11 sizes, head sent first or with the body, ended or not", [t] { bodies(t ? 4 : 3); }, 3},
        {"statuses", "every status from 200 to 999 in 3 framings", every_status, 2},
        {"large", "writes of 9 sizes up to 16 MB behind others, 3 framings", large, 2},
        {"faults", "every write fails with each of 3 errors, up to 4 (quick: 3) writes of 3 sizes", [t] { faults(t ? 4 : 3); }, 3},
    });
}
