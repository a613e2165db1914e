// C19: no datagram makes the RTP/RTCP decoders touch memory outside of it, hang
// or abort, and the media that follows is still read; reports are read as sent.
#include "rtpref.hpp"
using namespace rtpref;
static S fill(size_t n, int salt) { S s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char) (1 + (i * 7 + salt * 31 + (i >> 8)) % 250); return s; }
static const S SPS("\x67\x42\xc0\x1e\xd9", 5), PPS("\x68\xce\x38\x80", 4);
struct Sample { const char* name; int codec; std::vector<S> pk; };
static const std::vector<Sample>& samples() {
    static const std::vector<Sample> all = [] {
        std::vector<Sample> v; Head h; h.ts = 1800; S idr = nal(5, fill(9, 1));
        auto one = [&](const char* n, int c, const S& p) { v.push_back({n, c, {rtp(h, p)}}); };
        one("single", AVCODEC_H264, idr); one("stap-a", AVCODEC_H264, stap({SPS, PPS, idr}, false)); one("stap-b", AVCODEC_H264, stap({SPS, PPS}, true));
        one("mtap16", AVCODEC_H264, mtap({SPS, PPS, idr}, {0, 0, 90}, false)); one("mtap24", AVCODEC_H264, mtap({SPS, idr}, {0, 90}, true));
        for (int b = 0; b < 2; ++b) { Sample s{b ? "fu-b" : "fu-a", AVCODEC_H264, {}}; h.seq = 5; for (auto& p : fu(idr, {3, 3}, b)) { s.pk.push_back(rtp(h, p)); ++h.seq; } v.push_back(s); }
        one("aac", AVCODEC_AAC, aac({"abc", "de", "f"}));
        h.csrc = 2; h.ext = 2; h.pad = 5; one("header", AVCODEC_H264, idr); one("header", AVCODEC_AAC, aac({"abc"})); h.csrc = 0; h.ext = -1; h.pad = 0;
        tsref::Mux m; h.pt = 33; tsref::Unit u; u.pid = 0x100; u.dts = u.pts = 900; u.data = S("\0\0\0\1", 4) + idr;
        Sample t{"ts", 0, {}}; t.pk.push_back(rtp(h, m.psi(0, m.pat({{1, 0x1000}})) + m.psi(0x1000, m.pmt(0x100, {{0x1b, 0x100, ""}})))); t.pk.push_back(rtp(h, m.unit(u, 0xe0)[0] + m.unit(u, 0xe0)[0])); v.push_back(t);
        for (int c : {AVCODEC_H264, AVCODEC_AAC}) {
            auto r = [&](const char* n, const S& p) { v.push_back({n, c, {p}}); };
            r("sr", sr(2)); r("rr", rr(2)); r("sdes", rtcp(2, 202, chunk(7, {{1, "user@host"}, {2, "name"}}) + chunk(8, {{1, ""}}))); r("bye", bye(2, "why")); r("app", app("data")); r("compound", sr(1) + rtcp(1, 202, chunk(7, {{1, "cname"}})) + bye(1, ""));
        }
        return v;
    }();
    return all;
}
// decoders that get the datagram alone, in memory of exactly its size
static void direct(const Sample& s, const std::vector<S>& pk) {
    quiet();
    PIRtpDecoder d; if (s.codec == AVCODEC_H264) d = std::make_shared<H264RtpDecoder>(); else if (s.codec == AVCODEC_AAC) d = std::make_shared<AacRtpDecoder>(); else d = std::make_shared<MpegtsRtpDecodder>();
    RtcpRtpDecoder rtcp; Pkts out; size_t n = 0, got = 0;
    for (auto& p : pk) { Exact e(p); mc::step(); n += p.size(); if (p.size() > 1 && is_rtcp((uint8_t) p[1])) rtcp.decode(e.p, (int) p.size(), out); else d->decode(e.p, (int) p.size(), out); }
    for (auto& k : out) got += k->size();
    MC_CHECK(got <= 4 * n + 64, "%s: %zu bytes out of %zu", s.name, got, n);
}
// and the demuxer, which goes on with what follows
static void through(const Sample& s, std::vector<S> pk) {
    Head h; h.seq = 1000; h.ts = 90 * 5000; Out last;
    if (s.codec == AVCODEC_H264) { S n = nal(5, "the next unit"); pk.push_back(rtp(h, n)); last = video({n}, 5000, 5000)[0]; }
    else if (s.codec == AVCODEC_AAC) { pk.push_back(rtp(h, aac({"the next frame"}))); last = {AV_STREAM_TYPE_AUDIO, AV_AUDIO_TYPE_SEQUENCE_DATA, 0xaf, AAC, 5000, 5000, "the next frame"}; }
    auto r = receive(pk, s.codec);
    if (s.codec) MC_CHECK(!r.got.empty() && r.got.back() == last, "%s %s: what follows is lost", s.name, mc::hex(pk[0]).substr(0, 300).c_str());
    mc::validated();
}
static void both(const Sample& s, const std::vector<S>& pk) { S all; for (auto& p : pk) all += p + "|"; mc::state(mc::hash_str(all, s.codec)); direct(s, pk); through(s, pk); mc::nontrivial(); }
static void cut() {
    auto& s = mc::pick(samples(), "datagram"); auto pk = s.pk; int i = mc::choose((int) pk.size(), "packet");
    pk[i].resize(mc::choose((int) pk[i].size() + 1, "length")); if (pk[i].empty()) return; both(s, pk);
}
static void bytes(bool more) {
    auto& s = mc::pick(samples(), "datagram"); auto pk = s.pk; int i = mc::choose((int) pk.size(), "packet"), n = (int) pk[i].size(); if (n > 120) n = 120;
    int at = mc::choose(n, "position"); pk[i][at] = (char) mc::choose(256, "byte");
    if (more) { static const int few[] = {0, 1, 0x7c, 0x80, 0xff}; int b = mc::choose(std::min(n, 40), "second"); if (b >= at) return; pk[i][b] = (char) mc::pick(few, "byte"); }
    both(s, pk);
}
static void cutbytes() {                    // a changed byte in a shortened datagram
    static const int few[] = {0, 1, 3, 0x1f, 0x7c, 0x80, 0x9f, 0xff};
    auto& s = mc::pick(samples(), "datagram"); auto pk = s.pk; S& p = pk[mc::choose((int) pk.size(), "packet")]; if (p.size() > 90) return;
    p.resize(1 + mc::choose((int) p.size(), "length")); int at = mc::choose((int) p.size(), "position"); p[at] = (char) mc::pick(few, "byte"); both(s, pk);
}
static void payloads(int n) {               // every short payload
    static const int b[] = {0x00, 0x01, 0x02, 0x10, 0x65, 0x67, 0x18, 0x1a, 0x1b, 0x1c, 0x7c, 0x9d, 0xff};
    int c = mc::choose(4, "decoder"); S p; int k = mc::choose(n + 1, "bytes"); for (int i = 0; i < k; ++i) p += (char) mc::pick(b, "byte");
    static const Sample h{"payload", AVCODEC_H264, {}}, a{"payload", AVCODEC_AAC, {}}, t{"payload", 0, {}}; Head hd;
    if (c == 0) both(h, {rtp(hd, p)}); else if (c == 1) both(a, {rtp(hd, p)}); else if (c == 2) { hd.pt = 33; both(t, {rtp(hd, p)}); }
    else { static const int ty[] = {200, 201, 202, 203, 204}, cnt[] = {0, 1, 2, 31}; S q = rtcp(mc::pick(cnt, "count"), mc::pick(ty, "type"), ""); q[3] = (char) (p.size() / 4); if (mc::flip("wrong length")) q[2] = (char) 0xff; both(h, {q + p}); }
}
static void extremes() {                    // lengths at their ends
    Head h; int c = mc::choose(6, "kind"); static const int len[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x1fff, 0x7fff, 0x8000, 0xffff}; int l = mc::pick(len, "length"); S body = fill(mc::choose(3, "bytes") * 300, 4); Sample s{"extreme", AVCODEC_H264, {}};
    S p;
    switch (c) {
        case 0: p = rtp(h, "\x18" + be(l, 2) + body); break;
        case 1: p = rtp(h, S("\x1a\0\0", 3) + be(l, 2) + S(3, '\0') + body); break;
        case 2: s.codec = AVCODEC_AAC; p = rtp(h, be(l, 2) + body); break;
        case 3: s.codec = AVCODEC_AAC; p = rtp(h, be(16, 2) + be(l, 2) + body); break;
        case 4: h.ext = 0; p = rtp(h, body); p[14] = (char) (l >> 8); p[15] = (char) l; break;
        case 5: h.csrc = l & 15; p = rtp(h, ""); p.resize(12 + (l >> 8)); p += body; break;
    }
    both(s, {p});
}
// long histories of fragments that never end or begin
static void fragments() {
    Sample s{"fragments", AVCODEC_H264, {}}; std::vector<S> pk; Head h; int n = 2 + mc::choose(mc::tier ? 4 : 3, "fragments");
    for (int i = 0; i < n; ++i) {
        static const int fl[] = {0, 0x80, 0x40, 0xc0}; S body = mc::flip("empty") ? S() : fill(5, i);
        pk.push_back(rtp(h, S("\x7c", 1) + (char) (mc::pick(fl, "flags") | 5) + body)); h.seq += 1 + mc::choose(2, "gap");
    }
    both(s, pk);
}
static void endless() {                     // a unit without end
    Sample s{"endless", AVCODEC_H264, {}}; std::vector<S> pk; Head h; int step = mc::flip("large") ? 2900 : 1000;
    for (size_t n = 0; n < 2500000; n += step) { pk.push_back(rtp(h, S("\x7c", 1) + (char) ((n ? 0 : 0x80) | 5) + fill(step, 1))); h.seq = (h.seq + 1) & 0xffff; }
    direct(s, pk); through(s, pk); mc::state(step); mc::nontrivial();
}
static void reports() {                     // sender and receiver reports
    quiet();
    static const uint32_t v[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x01020304}; int n = mc::choose(32, "blocks"), k = mc::choose(8, "values"); auto val = [&](int i) { return k < 6 ? v[(k + i) % 6] : k == 6 ? 0xffffffffu : 4000000000u + i; };
    bool snd = mc::flip("sender"); S p = be(val(0), 4); if (snd) for (int i = 1; i < 6; ++i) p += be(val(i), 4);
    for (int i = 0; i < n; ++i) p += be(val(i), 4) + be(val(i + 1), 4) + be(val(i + 2), 4) + be(val(i + 3), 4) + be(val(i + 4), 4) + be(val(i + 5), 4);
    int cut = mc::choose(3, "cut"); size_t full = p.size(); if (cut) p.resize(p.size() - (cut == 1 ? 1 : 4)); mc::state(mc::hash_str(p, snd)); mc::step();
    Exact e(p); BitContext bc(e.p, p.size()); RtcpHead h{}; h.version = 2; h.cflag = n; h.payload_type = snd ? 200 : 201; h.length = full / 4;
    RtcpSRDecoder s; RtcpRRDecoder r; error_t ret = snd ? s.decode(h, bc) : r.decode(h, bc);
    MC_CHECK((ret == SUCCESS) == !cut, "report with %d blocks, %zu of %zu bytes: %d", n, p.size(), full, ret);
    if (cut) { mc::nontrivial(); return; }
    auto& bl = snd ? s.report_blocks : r.report_blocks;
    MC_CHECK((snd ? s.ssrc : r.ssrc) == val(0), "ssrc %x", snd ? s.ssrc : r.ssrc);
    if (snd) MC_CHECK(s.ntp_ts_msw == val(1) && s.ntp_ts_lsw == val(2) && s.rtp_ts == val(3) && s.send_pkt_count == val(4) && s.send_oct_count == val(5), "sender info read wrongly");
    MC_CHECK((int) bl.size() == n, "%zu blocks of %d", bl.size(), n); int i = 0;
    for (auto& b : bl) { MC_CHECK(b.fraction_lost == val(i + 1) >> 24 && b.cum_number_pkt_lost == (val(i + 1) & 0xffffff) && b.extend_high_seq_num_recv == val(i + 2) && b.inter_arrival_jitter == val(i + 3) && b.last_sr == val(i + 4) && b.delay_since_last_sr == val(i + 5), "report block %d of %d read wrongly", i, n); ++i; }
    // what is logged of a report is text about it and nothing else
    S d = snd ? s.debug() : r.debug(); char ss[16]; snprintf(ss, sizeof ss, "%x", val(0));
    for (char c : d) MC_CHECK((unsigned char) c >= 0x20 && (unsigned char) c < 0x7f, "the log line of a report holds bytes that are not text: %s", mc::hex(d).c_str());
    MC_CHECK(d.find(ss) != S::npos, "the log line %s does not name ssrc %s", d.c_str(), ss);
    mc::validated(n + 1); mc::nontrivial();
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (S(argv[i]) == "--tier" && S(argv[i + 1]) == "thorough") mc::tier = 1;
    bool T = mc::tier;
    return mc::run(argc, argv, "C19", {
        {"cut", "every sample cut at every byte", [] { cut(); }, 2},
        {"bytes", T ? "every byte replaced by every value, with every second byte replaced by 5" : "every byte replaced by every value", [=] { bytes(T); }, 3},
        {"cut-bytes", "every byte replaced by 8 values, cut at every byte", [] { cutbytes(); }, 3},
        {"payloads", S("every payload of up to ") + (T ? "5" : "4") + " of 13 bytes, 4 decoders", [=] { payloads(T ? 5 : 4); }, 4},
        {"extremes", "12 lengths in every length field", [] { extremes(); }, 2},
        {"fragments", S("every run of 2..") + (T ? "5" : "4") + " fragments: start, end, both, none, with and without gap", [] { fragments(); }, 4},
        {"endless", "2.5 MB of fragments without end", [] { endless(); }, 1},
        {"reports", "SR and RR with 0..31 blocks, 6 values in each field, cut", [] { reports(); }, 2},
    });
}
