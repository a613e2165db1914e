// C07: demuxing any byte stream gives exactly the well-formed leading packets, then an error; never a memory error.
#include "flvref.hpp"
#include <sps_avformat_flvdec.hpp>
using namespace sps;

static void run1(const std::string& s, std::function<size_t(size_t)> cut = nullptr) {
    bool hok;
    auto want = flv_ref_demux(s, hok);
    auto r = std::make_shared<ScriptReader>(s, 4321);
    r->cut = cut;
    FlvDemuxer d(r);
    PAVPacket p;
    error_t e = d.read_header(p);
    MC_CHECK((e == SUCCESS) == hok, "header %s: result %d", hok ? "valid" : "invalid", e);
    if (!hok) return;
    for (auto& w : want) {
        PAVPacket a;
        mc::step();
        e = d.read_packet(a);
        MC_CHECK(e == SUCCESS, "packet %s refused with %d", w.str().c_str(), e);
        std::string df = diff_av(w, a);
        MC_CHECK(df.empty(), "%s: %s", w.str().c_str(), df.c_str());
        mc::validated();
    }
    PAVPacket a;
    e = d.read_packet(a);
    MC_CHECK(e != SUCCESS, "a packet of %u bytes came out of malformed or missing data", a ? a->size() : 0);
    mc::nontrivial();
    mc::state(mc::hash_str(s));
}
static std::string rawtag(int tag, uint32_t size, const std::string& data) {
    return be(0, 4) + (char) tag + be(size, 3) + be(0x10203, 3) + (char) 4 + be(0, 3) + data;
}

static void first_bytes() {   // every tag byte, every flags byte, every declared size around the real one
    quiet();
    int tag = mc::choose(256, "tag byte");
    bool known = tag == 8 || tag == 9 || tag == 18;
    int flags = known ? mc::choose(256, "flags byte") : 0x17;
    int have = mc::choose(9, "data bytes present");
    std::string data; if (have) data += (char) flags;
    while ((int) data.size() < have) data += (char) (0x80 + data.size());
    int declared = mc::choose(10, "declared size");
    mc::note("tag %d flags %02x present %d declared %d", tag, flags, have, declared);
    // a well-formed tag may or may not follow
    FlvPkt ok; ok.tag = 8; ok.flags = 0xaf; ok.ptype = 1; ok.body = "abc";
    std::string s = flv_header() + rawtag(tag, declared, data);
    if (mc::flip("followed by a good tag")) s += be(0, 4) + ok.tagbytes();
    run1(s);
}
static void offsets() {   // the composition offset and timestamp at their ends
    quiet();
    static const uint32_t c[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffffe, 0x7fffff, 0x800000, 0x800001, 0xff7fff, 0xff8000, 0xffff7f, 0xffff80, 0xfffffe, 0xffffff};
    static const uint32_t t[] = {0, 1, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000u, 0xffffffffu};
    uint32_t cts = mc::pick(c, "offset"), dts = mc::pick(t, "timestamp"); int pt = mc::choose(4, "packet type"), codec = mc::flip("codec") ? 0x1c : 0x17;
    std::string s = flv_header() + be(0, 4) + (char) 9 + be(8, 3) + be(dts & 0xffffff, 3) + (char) (dts >> 24) + be(mc::flip("stream id") ? 0x123456 : 0, 3) + (char) codec + (char) pt + be(cts, 3) + "abc";
    run1(s);
}
static void truncated(int n) {
    quiet();
    std::vector<FlvPkt> v;
    for (int i = 0; i < n; ++i) {
        FlvPkt p;
        switch (mc::choose(4, "packet")) {
            case 0: p.tag = 18; p.body = "meta"; break;
            case 1: p.tag = 8; p.flags = 0xaf; p.ptype = 0; p.body = "\x12\x10"; break;
            case 2: p.flags = 0x17; p.ptype = 0; p.body = "seq"; break;
            default: p.flags = 0x27; p.cts = -3; p.dts = 0x2000001; p.body = "x"; break;
        }
        v.push_back(p);
    }
    std::string s = flv_bytes(v);
    int cut = mc::choose(s.size() + 1, "truncated at");
    s.resize(cut);
    int seg = mc::choose(4, "read size");
    mc::note("stream of %zu bytes, reads of %d", s.size(), seg);
    run1(s, [seg](size_t max) { return seg ? std::min<size_t>(seg, max) : max; });
}
static void flipped() {   // any single byte of a two-tag stream replaced by any value
    quiet();
    FlvPkt a, b; a.tag = 8; a.flags = 0xaf; a.ptype = 1; a.body = "A"; b.flags = 0x17; b.ptype = 1; b.cts = 1; b.body = "BB";
    std::string s = flv_bytes({a, b});
    int at = mc::choose(s.size(), "position");
    s[at] = (char) mc::choose(256, "value");
    if (mc::flip("large tail")) s += std::string(70000, 'z');
    run1(s);
}
static void window_edge() {   // tag headers ending exactly at (or near) the end of the demuxer's window
    quiet();
    int k = mc::choose(12, "distance to the end of the window");
    int declared = mc::choose(7, "declared size");
    static const int tags[] = {8, 9, 18};
    int tag = mc::pick(tags, "tag");
    static const int fl[] = {0xaf, 0x17, 0x57, 0x00};
    int flags = mc::pick(fl, "flags");
    bool tail = mc::flip("data follows");
    FlvPkt big; big.tag = 18;
    // 9 header + 15 tag head + n body + 15 tag head == window - k
    big.body = std::string(FLV_REF_CAP - 9 - 15 - 15 - k, 'q');
    std::string data; if (tail) { data += (char) flags; data += std::string(8, 'd'); }
    std::string s = flv_header() + be(0, 4) + big.tagbytes() + rawtag(tag, declared, data);
    mc::note("tag %d flags %02x declared %d, head ends %d before the window end, tail %d", tag, flags, declared, k, tail);
    run1(s);
}
static void huge() {
    quiet();
    static const uint32_t sz[] = {1048560, 1048575, 1048576, 1048577, 1048590, 2000000, 0xfffffe, 0xffffff};
    uint32_t n = mc::pick(sz, "declared");
    static const int tags[] = {8, 9, 18, 1};
    int tag = mc::pick(tags, "tag");
    bool full = mc::flip("all data present");
    std::string data(full ? n : 100, 'h'); data[0] = tag == 8 ? (char) 0xaf : 0x17;
    run1(flv_header() + rawtag(tag, n, data) + rawtag(18, 1, "x"));
}

int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C07", {
        {"first-bytes", "every tag byte, flags byte, 0-8 data bytes present, 0-9 declared", first_bytes},
        {"offsets", "20 composition offsets, 7 timestamps, 4 packet types, 2 codecs", offsets, 3},
        {"truncated", "every truncation of 1-3 packet streams, 4 read sizes", [t] { truncated(1 + mc::choose(t ? 4 : 3, "packets")); }},
        {"one-byte-changed", "every byte of a 2-tag stream replaced by every value", flipped, 2},
        {"window-edge", "tag heads ending 0-11 bytes before the end of the demuxer's window, 7 declared sizes", window_edge, 3},
        {"huge-tags", "declared sizes around and beyond the window", huge, 2},
    });
}
