// Reference RTP packetizer (RFC 3550, 6184, 3640), independent of the code under test.
#ifndef VERIF_RTPREF_HPP
#define VERIF_RTPREF_HPP
#include <sps_avformat_rtpdec.hpp>
#include <sps_avformat_rtpdec_aac.hpp>
#include <sps_avformat_rtpdec_h264_hevc.hpp>
#include <sps_avformat_rtpdec_rtcp.hpp>
#include <sps_avformat_rtpdec_ts.hpp>
#include "tsref.hpp"

namespace rtpref {
enum { END = 4321 };
struct Head { int pt = 96; bool mark = false; int seq = 0; uint32_t ts = 0, ssrc = 0x11223344; int csrc = 0, ext = -1, pad = 0; };
inline S rtp(const Head& h, const S& payload) {
    S r = S(1, (char) (0x80 | (h.pad ? 0x20 : 0) | (h.ext >= 0 ? 0x10 : 0) | h.csrc)) + (char) ((h.mark ? 0x80 : 0) | h.pt) + be(h.seq & 0xffff, 2) + be(h.ts, 4) + be(h.ssrc, 4);
    for (int i = 0; i < h.csrc; ++i) r += be(0x65000000u + i, 4);
    if (h.ext >= 0) { r += S("\xbe\xde", 2) + be(h.ext, 2); for (int i = 0; i < h.ext; ++i) r += S("\x65\x88\x00\x41", 4); }
    r += payload;
    if (h.pad) r += S(h.pad - 1, '\0') + (char) h.pad;
    return r;
}
// one datagram per read
class Datagrams : public IReader {
 public:
    std::vector<S> in; size_t at = 0;
    explicit Datagrams(const std::vector<S>& v) : in(v) {}
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    error_t read_fully(void*, size_t, ssize_t*) override { mc::broken("read_fully on datagrams"); return END; }
    error_t read(void* buf, size_t size, size_t& nr) override {
        if (at >= in.size()) return END;
        nr = std::min(size, in[at].size()); memcpy(buf, in[at].data(), nr); ++at; return SUCCESS;
    }
};
struct Result { std::vector<Out> got; int errors = 0; };
// dts of RTP video is the clock of the receiver: not compared
inline Result receive(const std::vector<S>& in, int codec) {
    quiet();
    Result r; auto rd = std::make_shared<Datagrams>(in);
    RtpDemuxer d(rd);
    if (codec) MC_CHECK(d.init_codec(codec) == SUCCESS, "codec %d refused", codec);
    for (int n = 0;; ++n) {
        PAVPacket p; mc::step();
        size_t before = rd->at;
        error_t e = d.read_packet(p);
        if (e == END) break;
        MC_CHECK(n < 100000, "neither packets nor end");
        if (e != SUCCESS) { MC_CHECK(rd->at > before, "error %d without reading on", e); ++r.errors; continue; }
        MC_CHECK(p != nullptr, "no packet");
        Out o{p->stream_type, p->pkt_type.pkt_type, p->flags, p->codecid, p->dts, p->pts, S((char*) p->buffer(), p->size())};
        if (codec == AVCODEC_H264) o.dts = o.pts;
        r.got.push_back(o);
    }
    return r;
}
inline void same(const char* what, const std::vector<Out>& got, const std::vector<Out>& want) {
    for (size_t i = 0; i < got.size() || i < want.size(); ++i) {
        MC_CHECK(i < got.size(), "%s: packet %zu missing: %s", what, i, show(want[i]).substr(0, 200).c_str());
        MC_CHECK(i < want.size(), "%s: extra packet %zu: %s", what, i, show(got[i]).substr(0, 200).c_str());
        MC_CHECK(got[i] == want[i], "%s: packet %zu is %s instead of %s", what, i, show(got[i]).substr(0, 200).c_str(), show(want[i]).substr(0, 200).c_str());
    }
    mc::validated(want.size() + 1);
}
// H.264: what the NAL units that arrived mean
struct Video {
    S sps;
    void nal(const S& n, uint32_t ts, std::vector<Out>& out) {
        int t = n[0] & 31; int64_t p = ts / 90;
        if (t == 7) sps = n;
        else if (t == 8) { if (!sps.empty()) out.push_back(avcc(sps, n)); }
        else for (auto o : video({n}, p, p)) out.push_back(o);
    }
};
struct Frag { std::vector<S> payloads; };
inline std::vector<S> fu(const S& n, const std::vector<size_t>& cuts, bool b = false) {       // cuts: sizes of all but the last
    std::vector<S> r; size_t at = 1;
    for (size_t i = 0; i <= cuts.size(); ++i) {
        size_t l = i < cuts.size() ? cuts[i] : n.size() - at;
        int f = (i == 0 ? 0x80 : 0) | (i == cuts.size() ? 0x40 : 0) | (n[0] & 31);
        bool don = b && i == 0;
        r.push_back(S(1, (char) ((n[0] & 0xe0) | (don ? 29 : 28))) + (char) f + (don ? be(0xfffe, 2) : "") + n.substr(at, l));
        at += l;
    }
    return r;
}
inline S stap(const std::vector<S>& v, bool b) { S r = S(1, (char) (0x60 | (b ? 25 : 24))) + (b ? be(0x0501, 2) : ""); for (auto& n : v) r += be(n.size(), 2) + n; return r; }
inline S mtap(const std::vector<S>& v, const std::vector<uint32_t>& off, bool wide) {
    S r = S(1, (char) (0x60 | (wide ? 27 : 26))) + be(0x0102, 2);
    for (size_t i = 0; i < v.size(); ++i) r += be(v[i].size(), 2) + (char) i + be(off[i], wide ? 3 : 2) + v[i];
    return r;
}
inline S aac(const std::vector<S>& aus) { S r = be(aus.size() * 16, 2); for (auto& a : aus) r += be(a.size() << 3, 2); for (auto& a : aus) r += a; return r; }
// RTCP
inline S rtcp(int count, int type, const S& body, bool pad = false) { return S(1, (char) (0x80 | (pad ? 0x20 : 0) | count)) + (char) type + be(body.size() / 4, 2) + body; }
inline S block(uint32_t ssrc) { return be(ssrc, 4) + be(0x10000020u + ssrc % 7, 4) + be(0x00010203u, 4) + be(7, 4) + be(0xaabbccddu, 4) + be(0x10000, 4); }
inline S blocks(int n) { S r; for (int i = 0; i < n; ++i) r += block(0x01000000u + i); return r; }
inline S sr(int n) { return rtcp(n, 200, be(0x11223344, 4) + be(0xe0000001u, 4) + be(0x80000000u, 4) + be(0xfffffff0u, 4) + be(1234, 4) + be(99999, 4) + blocks(n)); }
inline S rr(int n) { return rtcp(n, 201, be(0x11223344, 4) + blocks(n)); }
inline S chunk(uint32_t ssrc, const std::vector<std::pair<int, S>>& items) {
    S r = be(ssrc, 4); for (auto& i : items) r += S(1, (char) i.first) + (char) i.second.size() + i.second;
    r += '\0'; while (r.size() % 4) r += '\0';
    return r;
}
inline S bye(int n, const S& why) { S r; for (int i = 0; i < n; ++i) r += be(0x11223344 + i, 4); if (!why.empty()) { r += (char) why.size() + why; while (r.size() % 4) r += '\0'; } return rtcp(n, 203, r); }
inline S app(const S& data) { return rtcp(1, 204, be(0x11223344, 4) + "NAME" + data); }
}  // namespace rtpref
#endif
