#ifndef VERIF_STACK_HPP
#define VERIF_STACK_HPP
// The whole HTTP server (config, routing, handlers, stream cache, edge, proxy) on
// the controlled runtime: everything but the sockets' other ends is real code.
#include "flvref.hpp"
#include <sps_avformat_dec.hpp>
#include <sps_avformat_enc.hpp>
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
#include <sps_host_global_module.hpp>
#include <sps_host_loc_module.hpp>
#include <sps_host_module.hpp>
#include <sps_http_module.hpp>
#include <sps_io_memory.hpp>
#include <sps_io_url_file.hpp>
#include <sps_io_url_http.hpp>
#include <sps_io_url_protocol.hpp>
#include <sps_root_module.hpp>
#include <sps_server_module.hpp>
#include <sps_stream_cache.hpp>
#include <sps_stream_edge.hpp>
#include <sps_stream_module.hpp>
#include <sps_upstream_module.hpp>

namespace stack {
using namespace sps;
// line-by-line reader of a configuration text
class TextReader : public IReader {
 public:
    std::vector<std::string> lines; size_t at = 0;
    explicit TextReader(const std::string& s) {
        std::string cur;
        for (char c : s) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
        if (!cur.empty()) lines.push_back(cur);
    }
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    error_t read_fully(void*, size_t, ssize_t*) override { return ERROR_IO_EOF; }
    error_t read(void*, size_t, size_t&) override { return ERROR_IO_EOF; }
    error_t read_line(std::string& l) override { if (at >= lines.size()) return ERROR_IO_EOF; l = lines[at++]; return SUCCESS; }
    error_t cur_line_num() override { return (int) at; }
};
inline void reg_all() {
    static bool done = false;
    if (done) return;
    done = true;
    auto& m = SingleInstance<ModuleFactoryRegister>::get_instance();
    PIModuleFactory fs[] = {std::make_shared<RootModuleFactory>(), std::make_shared<HttpModuleFactory>(), std::make_shared<ServerModuleFactory>(),
                            std::make_shared<HostModuleFactory>(), std::make_shared<GlobalHostModuleFactory>(), std::make_shared<LocationModuleFactory>(),
                            std::make_shared<StreamModuleFactory>(), std::make_shared<UpStreamModuleFactory>()};
    for (auto& f : fs) m.reg(f->module, f);
    auto& p = SingleInstance<UrlProtocol>::get_instance();
    p.reg(std::make_shared<HttpURLProtocolFactory>());
    p.reg(std::make_shared<FileURLProtocolFactory>());
    SingleInstance<AVDemuxerFactory>::get_instance().reg(std::make_shared<FlvAVInputFormat>());
    SingleInstance<AVEncoderFactory>::get_instance().reg(std::make_shared<FlvAVOutputFormat>());
}
inline PIModule load(const std::string& conf, error_t& ret) {
    reg_all();
    auto root = SingleInstance<ModuleFactoryRegister>::get_instance().create("root", "", nullptr);
    ret = root->init_conf(std::make_shared<TextReader>(conf));
    return root;
}
// load the configuration, start the servers and park their accept loops
inline void boot(const std::string& conf) {
    quiet();
    fst::set_delay_bound(0);
    error_t ret = SUCCESS;
    static PIModule root;
    root = load(conf, ret);
    if (ret != SUCCESS) mc::broken("configuration refused: %d", ret);
    ret = root->install();
    if (ret != SUCCESS) mc::broken("servers did not start: %d", ret);
    fst::run();
    fst::mark_persistent();
}

// ---- HTTP response as a client sees it
struct Reply {
    bool head = false;                 // a complete, well formed head arrived
    int status = 0;
    std::vector<std::pair<std::string, std::string>> headers;
    std::string body;                  // after removing the framing
    bool complete = false;             // the end of the body is known to have been reached
    bool delimited = false;            // length or chunked (else until close)
    std::string rest;                  // bytes after a complete delimited response
    std::string bad;                   // why it is malformed
    std::string header(std::string k) const {
        for (auto& c : k) c = tolower(c);
        for (auto& h : headers) { std::string x = h.first; for (auto& c : x) c = tolower(c); if (x == k) return h.second; }
        return "";
    }
    int count(std::string k) const {
        int n = 0;
        for (auto& c : k) c = tolower(c);
        for (auto& h : headers) { std::string x = h.first; for (auto& c : x) c = tolower(c); n += x == k; }
        return n;
    }
};
inline Reply parse_reply(const std::string& raw, bool closed) {
    Reply r;
    size_t e = raw.find("\r\n\r\n");
    if (e == std::string::npos) { if (!raw.empty() && closed) r.bad = "no complete head"; return r; }
    size_t p = raw.find("\r\n");
    std::string first = raw.substr(0, p);
    if (first.compare(0, 9, "HTTP/1.1 ") || first.size() < 12) { r.bad = "status line " + first; return r; }
    r.status = atoi(first.c_str() + 9);
    p += 2;
    while (p < e + 2) {
        size_t q = raw.find("\r\n", p);
        std::string l = raw.substr(p, q - p);
        size_t c = l.find(": ");
        if (c == std::string::npos && !(l.size() && l.back() == ':')) { r.bad = "header line " + mc::quote(l); return r; }
        if (c == std::string::npos) r.headers.push_back({l.substr(0, l.size() - 1), ""}); else r.headers.push_back({l.substr(0, c), l.substr(c + 2)});
        p = q + 2;
    }
    r.head = true;
    std::string b = raw.substr(e + 4);
    int nl = r.count("Content-Length"), nt = r.count("Transfer-Encoding");
    if (nl > 1 || nt > 1 || (nl && nt)) { r.bad = "contradictory framing headers"; return r; }
    if (nt) {
        r.delimited = true;
        size_t at = 0;
        for (;;) {
            size_t q = b.find("\r\n", at);
            if (q == std::string::npos) return r;
            std::string sz = b.substr(at, q - at);
            if (sz.empty() || sz.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) { r.bad = "chunk size " + mc::quote(sz); return r; }
            size_t n = strtoul(sz.c_str(), nullptr, 16);
            at = q + 2;
            r.body += b.substr(at, n);
            if (b.size() - at < n + 2) return r;
            if (b.compare(at + n, 2, "\r\n")) { r.bad = "chunk end"; return r; }
            at += n + 2;
            if (n == 0) { r.complete = true; r.rest = b.substr(at); return r; }
        }
    }
    if (nl) {
        r.delimited = true;
        size_t n = strtoul(r.header("Content-Length").c_str(), nullptr, 10);
        r.body = b.substr(0, n);
        if (b.size() >= n) { r.complete = true; r.rest = b.substr(n); }
        return r;
    }
    r.body = b;
    r.complete = closed;
    return r;
}
// A peer of the server driven by the environment
struct Peer {
    fst::Ep* e = nullptr;
    std::string got;
    bool eof = false;
    void dial(int port) { e = fst::dial(port); if (!e) mc::fail("connection to port %d refused", port); }
    void send(const std::string& s) { if (!fst::peer_closed(e)) fst::send(e, s); }
    // collect what is there (between scheduler runs)
    void poll() { got += fst::taken(e); if (fst::peer_closed(e)) eof = true; }
    void close() { fst::shut(e); }
    Reply reply() { poll(); return parse_reply(got, eof); }
};
inline std::string get(const std::string& host, const std::string& target, const std::string& more = "") {
    return "GET " + target + " HTTP/1.1\r\nHost: " + host + "\r\n" + more + "\r\n";
}
inline std::string post(const std::string& host, const std::string& target, const std::string& more = "") {
    return "POST " + target + " HTTP/1.1\r\nHost: " + host + "\r\n" + more + "\r\n";
}
inline std::string chunk(const std::string& s) { char b[24]; snprintf(b, sizeof b, "%zx\r\n", s.size()); return b + s + "\r\n"; }

// ---- media
enum Kind { SCRIPT, AHDR, VHDR, KEY, INTER, AUDIO, NKIND };
static const char* const kind_names[] = {"script", "aac-header", "avc-header", "keyframe", "interframe", "audio"};
inline FlvPkt media(int k, int id) {
    FlvPkt p;
    p.dts = id * 40; p.cts = 0;
    p.body = std::string("b") + (char) id + (char) k + std::string(id % 5, 'x');
    switch (k) {
        case SCRIPT: p.tag = 18; p.flags = 0; break;
        case AHDR: p.tag = 8; p.flags = 0xaf; p.ptype = 0; break;
        case VHDR: p.tag = 9; p.flags = 0x17; p.ptype = 0; break;
        case KEY: p.tag = 9; p.flags = 0x17; p.ptype = 1; p.cts = 80; break;
        case INTER: p.tag = 9; p.flags = 0x27; p.ptype = 1; p.cts = 40; break;
        default: p.tag = 8; p.flags = 0xaf; p.ptype = 1; break;
    }
    return p;
}
// what a player that joins after the first j of the published packets receives, over all n
inline std::vector<FlvPkt> view(const std::vector<FlvPkt>& v, const std::vector<int>& kinds, size_t j, size_t n) {
    const FlvPkt *s = nullptr, *a = nullptr, *h = nullptr;
    std::vector<FlvPkt> gop, out;
    for (size_t i = 0; i < j; ++i) {
        int k = kinds[i];
        if (k == SCRIPT) s = &v[i]; else if (k == AHDR) a = &v[i]; else if (k == VHDR) h = &v[i];
        else if (k == KEY) { gop.clear(); gop.push_back(v[i]); }
        else if (!gop.empty()) gop.push_back(v[i]);
    }
    if (s) out.push_back(*s);
    if (a) out.push_back(*a);
    if (h) out.push_back(*h);
    out.insert(out.end(), gop.begin(), gop.end());
    for (size_t i = j; i < n; ++i) out.push_back(v[i]);
    return out;
}
// end of an execution: every peer is gone, the server must have let go of everything
inline void finish(std::vector<Peer*> ps) {
    for (auto p : ps) if (p->e) p->close();
    fst::run();
    MC_CHECK(fst::alive() == 0, "connections are gone but coroutines are not: %s", fst::stuck().c_str());
    MC_CHECK(fst::open_fds() == 0, "%d connections leaked", fst::open_fds());
}
}  // namespace stack
#endif
