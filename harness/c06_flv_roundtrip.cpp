// C06: muxing gives exactly the FLV reference bytes; demuxing them, cut anywhere, gives the packets back.
#include "flvref.hpp"
#include <sps_avformat_flvdec.hpp>
#include <sps_avformat_flvenc.hpp>
using namespace sps;

static std::string body(size_t n, int salt) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char) (i * 7 + salt * 31 + (i >> 8)); return s; }

static std::string mux(const std::vector<FlvPkt>& v, int filters, std::vector<FlvPkt>& kept) {
    auto w = std::make_shared<ScriptReader>("");
    FlvAVMuxer m(w);
    m.filter_video = filters & 1; m.filter_audio = filters & 2; m.filter_metadata = filters & 4;
    PAVPacket none;
    MC_CHECK(m.write_header(none) == SUCCESS, "header not written");
    for (auto& p : v) {
        auto a = to_av(p);
        mc::step();
        MC_CHECK(m.write_packet(a) == SUCCESS, "packet refused: %s", p.str().c_str());
        bool dropped = (p.tag == 9 && (filters & 1)) || (p.tag == 8 && (filters & 2)) || (p.tag == 18 && (filters & 4));
        if (!dropped) kept.push_back(p);
        std::string want = flv_bytes(kept);
        MC_CHECK(w->written == want, "after %s the stream is %s, must be %s", p.str().c_str(),
                 mc::hex(w->written.substr(0, 120)).c_str(), mc::hex(want.substr(0, 120)).c_str());
    }
    return w->written;
}
static void demux(const std::string& s, const std::vector<FlvPkt>& v, std::function<size_t(size_t)> cut) {
    auto r = std::make_shared<ScriptReader>(s, 4321);
    r->cut = cut;
    FlvDemuxer d(r);
    PAVPacket p;
    MC_CHECK(d.read_header(p) == SUCCESS, "header refused");
    MC_CHECK(p && p->size() == 9 && !memcmp(p->buffer(), s.data(), 9), "header packet is not the header");
    for (auto& want : v) {
        PAVPacket a;
        mc::step();
        error_t e = d.read_packet(a);
        MC_CHECK(e == SUCCESS, "demux of %s fails with %d", want.str().c_str(), e);
        std::string df = diff_av(want, a);
        MC_CHECK(df.empty(), "demux of %s: %s", want.str().c_str(), df.c_str());
        mc::validated();
    }
    PAVPacket a;
    error_t e = d.read_packet(a);
    MC_CHECK(e == 4321, "end of stream reported as %d, must be the reader's error", e);
    mc::nontrivial();
}

static void single() {
    quiet();
    FlvPkt p;
    static const int tags[] = {9, 8, 18};
    static const uint32_t dts[] = {0, 1, 40, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000u, 0xffffffffu};
    static const int32_t cts[] = {0, 1, 40, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffff, -1, -40, -128, -256, -32768, -65536, -0x800000};
    static const int sizes[] = {1, 2, 10, 255, 256, 300, 65530, 65535, 65536, 70000};
    p.tag = mc::pick(tags, "tag");
    p.dts = mc::pick(dts, "dts");
    if (p.tag == 9) {
        static const int ft[] = {1, 2, 3, 4, 5};
        p.flags = mc::pick(ft, "frame type") << 4 | (mc::flip("codec") ? 12 : 7);
        if (!p.command()) { p.ptype = mc::choose(3, "packet type"); p.cts = mc::pick(cts, "cts"); }
    } else if (p.tag == 8) {
        p.flags = 0xa0 | mc::choose(16, "audio flags"); p.ptype = mc::choose(2, "packet type");
    }
    p.body = body(mc::pick(sizes, "size"), p.tag);
    mc::note("%s", p.str().c_str());
    std::vector<FlvPkt> kept;
    std::string s = mux({p}, 0, kept);
    demux(s, kept, nullptr);
    mc::state(mc::hash_str(s));
}

static std::vector<FlvPkt> alphabet() {
    std::vector<FlvPkt> v;
    auto add = [&](int tag, int flags, int pt, uint32_t dts, int32_t cts, int n) {
        FlvPkt p; p.tag = tag; p.flags = flags; p.ptype = pt; p.dts = dts; p.cts = cts; p.body = body(n, v.size()); v.push_back(p); };
    add(18, 0, 0, 0, 0, 3);
    add(9, 0x17, 0, 0, 0, 4);
    add(8, 0xaf, 0, 0, 0, 2);
    add(9, 0x17, 1, 0x1000040, 80, 5);
    add(9, 0x27, 1, 40, -40, 1);
    add(8, 0xaf, 1, 23, 0, 300);
    add(9, 0x57, 0, 7, 0, 1);
    return v;
}
static void sequences(int n) {
    quiet();
    auto al = alphabet();
    std::vector<FlvPkt> v, kept;
    int len = 1 + mc::choose(n, "length");
    for (int i = 0; i < len; ++i) { v.push_back(mc::pick(al, "packet")); mc::note("%s", v.back().str().c_str()); }
    int f = mc::choose(8, "filters");
    std::string s = mux(v, f, kept);
    demux(s, kept, nullptr);
    mc::state(mc::hash_str(s));
}
static void cuts(int n, bool triple) {
    quiet();
    auto al = alphabet(); al.erase(al.begin() + 5);
    std::vector<FlvPkt> v;
    for (int i = 0; i < n; ++i) v.push_back(mc::pick(al, "packet"));
    std::string s = flv_bytes(v);
    // every way to cut the stream at up to two (three) places
    int a = mc::choose(s.size(), "first cut"), b = a + mc::choose(s.size() - a, "second cut"), c = b;
    if (triple) c = b + mc::choose(s.size() - b, "third cut");
    mc::note("stream of %zu bytes cut at %d %d %d", s.size(), a, b, c);
    std::set<size_t> at{(size_t) a, (size_t) b, (size_t) c};
    size_t pos = 0;
    demux(s, v, [&](size_t max) { auto it = at.upper_bound(pos); size_t k = it == at.end() ? max : std::min(max, *it - pos); pos += k; return k; });
    mc::state(mc::hash_str(s, a * 1000003 + b * 1009 + c));
}
static void trickle() {   // k bytes at a time, long stream wrapping the demuxer's window several times
    quiet();
    static const int big[] = {300, 70000, 262144, 524288, 1048000, 1048560, 1048570, 1048571};
    static const int step[] = {0, 1000, 65536, 333333};
    int n = mc::pick(big, "payload"), st = mc::pick(step, "read size");
    std::vector<FlvPkt> v;
    auto al = alphabet();
    int k = 1 + mc::choose(3, "small packets between");
    for (int i = 0; i < 5; ++i) {
        for (int j = 0; j < k; ++j) v.push_back(al[(i + j) % al.size()]);
        FlvPkt p = al[3]; p.body = body(n, i); v.push_back(p);
    }
    mc::note("payload %d, read size %d", n, st);
    std::string s = flv_bytes(v);
    demux(s, v, [st](size_t max) { return st ? std::min<size_t>(max, st) : max; });
    mc::state(mc::hash_str(s, st));
}

static void large() {     // what other sources (TS) may hand to the muxer
    quiet();
    static const int tags[] = {9, 8, 18};
    static const int sizes[] = {1048560, 1048575, 1048576, 1048577, 0x123456, 0x200000, 0x7fffff, 0x800000, 0xfffff0};
    FlvPkt p, q;
    p.tag = mc::pick(tags, "tag"); p.dts = 40;
    if (p.tag == 8) p.flags = 0xaf; else if (p.tag == 9) { p.flags = 0x17; p.ptype = 1; } else p.flags = 0;
    p.body = body(mc::pick(sizes, "size"), 3);
    q = p; q.body = "x"; q.dts = 80;
    std::vector<FlvPkt> kept;
    std::string s = mux({p, q}, 0, kept);
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(s));
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C06", {
        {"one-packet-fields", "full product of tag kind, flags, packet type, 13 dts, 18 composition offsets, 10 payload sizes", single},
        {"packet-sequences", t ? "all sequences of <=5 of 7 packets x 8 filters" : "all sequences of <=4 of 7 packets x 8 filters", [t] { sequences(t ? 5 : 4); }},
        {"cut-anywhere", t ? "3 packets, every set of <=3 cut positions" : "2 packets, every set of <=3 cut positions", [t] { cuts(t ? 3 : 2, true); }, 4},
        {"large", "muxing of packets of 9 sizes up to 16 MB", large, 2},
        {"window-wrap", "5-15 packets with payloads up to the demuxer's window, 4 read sizes", trickle, 2},
    });
}
