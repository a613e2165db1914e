// C20: elementary streams (ADTS AAC, Annex-B H.264) become FLV packets that
// carry exactly the frames of the stream, and configuration before them.
#include "esref.hpp"

static Adts frame() {
    static const int kinds[][5] = {{1, 4, 2, 0, 0}, {1, 4, 2, 1, 0}, {0, 4, 2, 0, 0}, {1, 3, 2, 0, 0}, {1, 4, 1, 0, 0}, {1, 4, 2, 0, 1}, {3, 12, 7, 1, 1}};
    static const S pay[] = {"\x21", S("\x00\x00\x01\xff\xf1", 5), S(300, 'p')};
    auto& k = mc::pick(kinds, "header");
    return {k[0], k[1], k[2], k[3], k[4], mc::pick(pay, "payload")};
}
static void aac(int calls, int frames) {
    quiet();
    AacAVCodecParser p; AacModel m; 
    int n = 1 + mc::choose(calls, "calls");
    for (int c = 0; c < n; ++c) {
        S in; int k = 1 + mc::choose(frames, "frames");
        for (int i = 0; i < k; ++i) {
            in += adts(frame());
        }
        auto& t = times[c % 5]; AVCodecContext ctx(t[0], t[1], 90);
        Exact e(in); Pkts pk; std::vector<Out> want;
        mc::step();
        error_t r = p.encode_avc(&ctx, e.p, (int) in.size(), pk);
        MC_CHECK(r == SUCCESS, "%s refused: %d", mc::hex(in).c_str(), r);
        if (!m.run(in, t[0] / 90, want)) mc::broken("reference refuses");
        expect(in, outs(pk), want);
        mc::state(mc::hash_str(in));
    }
    mc::nontrivial();
}
static void aac_bad(const S& in) {
    AacAVCodecParser p; AacModel m; AVCodecContext ctx(900, 900, 90);
    Exact e(in); Pkts pk; std::vector<Out> want;
    mc::step(); quiet();
    error_t r = p.encode_avc(&ctx, e.p, (int) in.size(), pk);
    bool ok = m.run(in, 10, want);
    mc::state(mc::hash_str(in));
    MC_CHECK((r == SUCCESS) == ok, "%s %s", mc::hex(in).c_str(), ok ? "refused" : "accepted");
    auto g = outs(pk);
    if (!ok) {                              // what precedes the broken frame may or may not be passed on
        MC_CHECK(g.size() <= want.size(), "%s: packets out of nothing", mc::hex(in).c_str());
        want.resize(g.size());
    }
    expect(in, g, want);
    if (!ok) mc::nontrivial();
}
static S two() { return adts({1, 4, 2, 0, 0, "abcd"}) + adts({1, 4, 2, 1, 0, "efg"}); }
static void aac_cut() { S in = two(); aac_bad(in.substr(0, mc::choose((int) in.size() + 1, "length"))); }
static void aac_byte() { S in = two(); int at = mc::choose((int) in.size(), "position"); in[at] = (char) mc::choose(256, "byte"); aac_bad(in); }
static void aac_len() {                     // every frame length against every amount of data
    int len = mc::choose(24, "frame length"), have = mc::choose(24, "bytes"), crc = mc::choose(2, "crc");
    if (len == 23) len = 8191; if (len == 22) len = 4096;
    S in = adts({1, 4, 2, crc, 0, S(24, 'z')}, len); in.resize(have);
    if (mc::flip("second frame")) in = adts({1, 4, 2, 0, 0, "first"}) + in;
    aac_bad(in);
}
static void aac_raw() {                     // frames that came without ADTS header
    static const S pay[] = {"", "\x21", S("\xff\xf1\x00", 3), S(5000, 'r')};
    AacAVCodecParser p; auto& t = mc::pick(times, "time"); S in = mc::pick(pay, "payload"); static const int tb[] = {1, 90}; int b = mc::pick(tb, "timebase");
    AVCodecContext ctx(t[0], t[1], b); Exact e(in); Pkts pk; AdtsFixedHeader h; quiet(); mc::step();
    MC_CHECK(p.encode_raw_avc(&ctx, &h, e.p, (int) in.size(), pk) == SUCCESS, "raw frame refused");
    expect(in, outs(pk), {{AV_STREAM_TYPE_AUDIO, AV_AUDIO_TYPE_SEQUENCE_DATA, 0xaf, AAC, t[0] / b, t[0] / b, in}});
    mc::nontrivial(); mc::state(mc::hash_str(in, b));
}

// ---------------------------------------------------------------- H.264
static const S& sps_() { static const S s[] = {S("\x67\x42\xc0\x1e\xd9", 5), S("\x27\x64\x00\x28\xac\x2b\x40\x3c\x80", 9), S("\x67\x64\x00\x28", 4) + S(295, '\x55') + "\x80"}; return s[mc::choose(3, "sps")]; }
static S pps_() { return nal(8, S("\xce\x38\x80", 3) + (mc::flip("long pps") ? S(300, '\x33') : S())); }
static S unit_nal(int kinds) {
    switch (mc::choose(kinds, "nal")) {
        case 0: return nal(5, S("\x88\x84\x00\x00\x03\x00\x00\x03\x01\x80", 10));
        case 1: return nal(1, "\x9a");
        case 2: return nal(6, S("\x05\x01\x00\x80", 4));
        case 3: return nal(9, "\xf0");
        case 4: return nal(12, S(3, '\xff') + "\x80");
        case 5: return nal(5, "");
        case 6: return nal(1, S(70000, '\x55'));
        default: return nal(5, S("\x00\x01\x00\x02\x01", 5));
    }
}
static S lead() { static const S s[] = {S("\0\0\1", 3), S("\0\0\0\1", 4), S("\0\0\0\0\0\0\1", 7)}; return s[mc::choose(3, "start code")]; }
// an access unit: [AUD] [SPS PPS] NALs
static void annexb(int units, int nals, int kinds) {
    quiet();
    H264AVCodecParser p; int u = 1 + mc::choose(units, "units"); S all;
    for (int i = 0; i < u; ++i) {
        S in; std::vector<S> list;
        auto add = [&](const S& n) { in += lead() + n; list.push_back(n); };
        if (mc::flip("aud")) add(nal(9, "\xf0"));
        if (mc::flip("parameter sets")) { add(sps_()); add(pps_()); }
        int k = mc::choose(nals + 1, "nals");
        for (int j = 0; j < k; ++j) add(unit_nal(kinds));
        if (list.empty()) return;
        static const int zeros[] = {0, 3, 1, 5, 12}; in += S(mc::pick(zeros, "trailing zeros"), '\0');
        auto& t = times[(i + list.size()) % 5]; AVCodecContext ctx(t[0], t[1], 90);
        Exact e(in); Pkts pk; mc::step();
        error_t r = p.encode_avc(&ctx, e.p, (int) in.size(), pk);
        MC_CHECK(r == SUCCESS, "%s refused: %d", mc::hex(in.substr(0, 100)).c_str(), r);
        expect(in.substr(0, 100), outs(pk), video(list, t[0] / 90, t[1] / 90));
        all += in;
    }
    mc::state(mc::hash_str(all)); mc::nontrivial();
}
// any bytes
static void annexb_any(const S& in) {
    quiet(); mc::step(); mc::state(mc::hash_str(in));
    H264AVCodecParser p; AVCodecContext ctx(900, 1800, 90); Exact e(in); Pkts pk;
    error_t r = p.encode_avc(&ctx, e.p, (int) in.size(), pk);
    std::vector<S> list; std::vector<size_t> sc; bool bad = false, loose = false;
    for (size_t i = 0; i + 3 <= in.size(); ++i) if (!in.compare(i, 3, S("\0\0\1", 3))) sc.push_back(i);
    for (size_t i = 0; i < sc.size(); ++i) {
        size_t b = sc[i] + 3, e2 = i + 1 < sc.size() ? sc[i + 1] : in.size();
        S n = in.substr(b, e2 - b); while (!n.empty() && !n.back()) n.pop_back();
        if (n.empty()) { if (i + 1 == sc.size()) loose = true; else bad = true; continue; }   // a start code before nothing
        if (n[0] & 0x80) bad = true;
        list.push_back(n);
    }
    S sps; for (auto& n : list) if ((n[0] & 31) == 7) sps = n;                    // the record is made of the last one
    if (!sps.empty() && sps.size() < 4) bad = true;
    if (sc.empty()) { MC_CHECK(pk.empty(), "%s: packets out of nothing", mc::hex(in).c_str()); if (in.size() >= 4) MC_CHECK(r != SUCCESS, "%s accepted", mc::hex(in).c_str()); return; }
    if (bad || r != SUCCESS) {
        MC_CHECK(r != SUCCESS, "%s accepted", mc::hex(in).c_str());
        MC_CHECK(bad || loose, "%s refused", mc::hex(in).c_str());
        MC_CHECK(pk.empty(), "%s refused with packets", mc::hex(in).c_str());
        mc::validated(); return;
    }
    // parameter sets out of which no record can be made are not compared
    expect(in, outs(pk), video(list, 10, 20));
    mc::nontrivial();
}
static void annexb_tokens(int n) {
    static const S tok[] = {S("\0", 1), "\x01", S("\0\0\1", 3), "\x65", "\x41", "\x67", "\x06", "\xe5", "\x68"};
    S in; int k = mc::choose(n + 1, "length");
    for (int i = 0; i < k; ++i) in += mc::pick(tok, "token");
    annexb_any(in);
}
static void annexb_cut() {
    S in = S("\0\0\0\1\x09\xf0\0\0\1\x67\x42\xc0\x1e\xd9\0\0\1\x68\xce\x38\x80\0\0\1\x65\x88\x84\0\0\3\1", 32);
    int at = mc::choose((int) in.size() + 1, "length");
    if (at == (int) in.size() || mc::flip("cut")) in.resize(at); else in[at] = (char) mc::choose(256, "byte");
    annexb_any(in);
}
static void raw() {                          // NALs handed over one by one
    quiet();
    static const int tb[] = {1, 90}; int b = mc::pick(tb, "timebase"); auto& t = mc::pick(times, "time");
    H264AVCodecParser p; int n = 1 + mc::choose(3, "nals"); S sps;
    for (int i = 0; i < n; ++i) {
        int k = mc::choose(3, "kind"); S in = k == 1 ? sps_() : k == 2 ? pps_() : unit_nal(mc::tier ? 8 : 5); AVCodecContext ctx(t[0], t[1], b); Exact e(in); Pkts pk; mc::step();
        MC_CHECK(p.encode_raw_nalu(&ctx, e.p, (int) in.size(), pk) == SUCCESS, "NAL refused");
        // the record carries a picture parameter set and the sequence parameter set before it
        if (k == 1) { sps = in; expect(in, outs(pk), {}); }
        else if (k == 2) { if (sps.empty()) expect(in, outs(pk), {}); else expect(in, outs(pk), {avcc(sps, in)}); }
        else expect(in.substr(0, 64), outs(pk), video({in}, t[0] / b, t[1] / b));
        mc::state(mc::hash_str(in, b));
    }
    mc::nontrivial();
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (S(argv[i]) == "--tier" && S(argv[i + 1]) == "thorough") mc::tier = 1;
    bool T = mc::tier;
    return mc::run(argc, argv, "C20", {
        {"aac", S("up to ") + (T ? "2 buffers of 2 ADTS frames" : "2 buffers, 1 ADTS frame each or 1 of 2") + ", 7 header kinds x 3 payloads", [=] { if (T) aac(2, 2); else if (mc::flip("split")) aac(2, 1); else aac(1, 2); }, 4},
        {"aac-cut", "two frames cut at every byte", [] { aac_cut(); }, 1},
        {"aac-byte", "two frames with every byte replaced by every value", [] { aac_byte(); }, 2},
        {"aac-length", "every frame length 0..22, 8191 against every amount of data", [] { aac_len(); }, 2},
        {"aac-raw", "raw AAC frames x times x timebases", [] { aac_raw(); }, 2},
        {"annexb", T ? "up to 2 access units of up to 2 of 8 NALs, 3 start codes, parameter sets, trailing zeros" : "access unit of up to 3 of 3 / 2 of 8 NALs, 3 start codes, parameter sets, trailing zeros", [=] { if (T && mc::flip("two")) annexb(2, 1, 5); else if (mc::flip("kinds")) annexb(1, 2, 8); else annexb(1, T ? 3 : 2, T ? 5 : 3); }, 5},
        {"annexb-any", T ? "all sequences of up to 7 of 9 tokens" : "all sequences of up to 5 of 9 tokens", [=] { annexb_tokens(T ? 7 : 5); }, 3},
        {"annexb-byte", "an access unit cut at, or replaced at, every byte", [] { annexb_cut(); }, 2},
        {"raw-nal", "one or two raw NALs x times x timebases", [] { raw(); }, 3},
    });
}
