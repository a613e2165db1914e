#ifndef VERIF_FLVREF_HPP
#define VERIF_FLVREF_HPP
// Independent FLV reference (Adobe FLV 10.1, annex E) used as the oracle.
#include "common.hpp"
#include <sps_avformat_packet.hpp>

struct FlvPkt {
    int tag = 9;              // 8 audio 9 video 18 script
    int flags = 0x27, ptype = 1;
    uint32_t dts = 0;
    int32_t cts = 0;
    std::string body;
    bool command() const { return tag == 9 && (flags & 0xf0) == 0x50; }
    std::string data() const {
        std::string d;
        if (tag == 8) { d += (char) flags; d += (char) ptype; }
        if (tag == 9) { d += (char) flags; if (!command()) { d += (char) ptype; d += be((uint32_t) cts & 0xffffff, 3); } }
        return d + body;
    }
    std::string tagbytes() const {
        std::string d = data();
        std::string s;
        s += (char) tag; s += be(d.size(), 3); s += be(dts & 0xffffff, 3); s += (char) (dts >> 24); s += be(0, 3);
        return s + d;
    }
    std::string str() const {
        char b[160]; snprintf(b, sizeof b, "tag=%d flags=%02x ptype=%d dts=%u cts=%d body=%zu", tag, flags, ptype, dts, cts, body.size());
        return b;
    }
};
static const char FLVHDR[] = "FLV\x01\x05\x00\x00\x00\x09";
inline std::string flv_header() { return std::string(FLVHDR, 9); }
inline std::string flv_bytes(const std::vector<FlvPkt>& v, bool header = true) {
    std::string s = header ? flv_header() : "";
    uint32_t prev = 0;
    for (auto& p : v) { std::string t = p.tagbytes(); s += be(prev, 4) + t; prev = t.size(); }
    return s;
}
inline sps::PAVPacket to_av(const FlvPkt& p) {
    using namespace sps;
    return AVPacket::create(AV_MESSAGE_DATA,
        p.tag == 8 ? AV_STREAM_TYPE_AUDIO : p.tag == 9 ? AV_STREAM_TYPE_VIDEO : AV_STREAM_TYPE_SUBTITLE,
        AVPacketType{p.tag == 18 ? 0 : p.ptype}, (uint8_t*) p.body.data(), p.body.size(), p.dts, (int64_t) p.dts + (p.tag == 9 ? p.cts : 0),
        p.tag == 18 ? 0 : p.flags, p.tag == 8 ? p.flags >> 4 : p.tag == 9 ? p.flags & 15 : 0);
}
inline std::string diff_av(const FlvPkt& p, const sps::PAVPacket& a) {
    using namespace sps;
    if (!a) return "no packet";
    char b[200];
#define D(name, got, want) if ((long long) (got) != (long long) (want)) { snprintf(b, sizeof b, "%s is %lld, must be %lld", name, (long long) (got), (long long) (want)); return b; }
    D("stream type", a->stream_type, p.tag == 8 ? AV_STREAM_TYPE_AUDIO : p.tag == 9 ? AV_STREAM_TYPE_VIDEO : AV_STREAM_TYPE_SUBTITLE)
    D("decode time", a->dts, p.dts)
    if (p.tag != 18) { D("flags", a->flags, p.flags) }
    if (p.tag == 8 || (p.tag == 9 && !p.command())) { D("packet type", a->pkt_type.pkt_type, p.ptype) }
    if (p.tag == 9 && !p.command()) { D("presentation time", a->pts, (int64_t) p.dts + p.cts) }
    if (p.tag == 8) { D("presentation time", a->pts, p.dts) }
    D("payload size", a->size(), p.body.size())
#undef D
    if (memcmp(a->buffer(), p.body.data(), p.body.size())) return "payload bytes differ";
    return "";
}
#define FLV_REF_CAP (1024 * 1024)
// Reference demux: consumes the stream after the header; returns packets until the
// stream ends or is malformed.
inline std::vector<FlvPkt> flv_ref_demux(const std::string& s, bool& header_ok) {
    std::vector<FlvPkt> out;
    header_ok = s.size() >= 9 && s.compare(0, 3, "FLV") == 0;
    if (!header_ok) return out;
    size_t at = 9;
    auto u = [&](size_t o, int n) { uint32_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (uint8_t) s[o + i]; return v; };
    for (;;) {
        if (s.size() - at < 15) return out;
        FlvPkt p;
        p.tag = u(at + 4, 1);
        size_t n = u(at + 5, 3);
        p.dts = u(at + 8, 3) | u(at + 11, 1) << 24;
        at += 15;
        if (n > FLV_REF_CAP || s.size() - at < n) return out;
        if (p.tag != 8 && p.tag != 9 && p.tag != 18) return out;
        size_t h = 0;
        if (p.tag == 8) {
            if (n < 2) return out;
            p.flags = u(at, 1);
            if (p.flags >> 4 != 10) return out;
            p.ptype = u(at + 1, 1); h = 2;
        } else if (p.tag == 9) {
            if (n < 1) return out;
            p.flags = u(at, 1);
            if ((p.flags & 15) != 7 && (p.flags & 15) != 12) return out;
            h = 1;
            if (!p.command()) {
                if (n < 5) return out;
                p.ptype = u(at + 1, 1);
                p.cts = (int32_t) (u(at + 2, 3) << 8) >> 8; h = 5;
            }
        }
        if (n <= h) return out;
        p.body = s.substr(at + h, n - h);
        at += n;
        out.push_back(p);
    }
}
#endif
