// Reference reading of elementary streams: what C17, C18 and C20 expect.
#ifndef VERIF_ESREF_HPP
#define VERIF_ESREF_HPP
#include "common.hpp"
#include <sps_avcodec_aac_parser.hpp>
#include <sps_avcodec_h264_parser.hpp>
using namespace sps;
typedef std::list<PAVPacket> Pkts;
typedef std::string S;

struct Out { int stream, type, flags, codec; int64_t dts, pts; S data; };
inline bool operator==(const Out& a, const Out& b) { return a.stream == b.stream && a.type == b.type && a.flags == b.flags && a.codec == b.codec && a.dts == b.dts && a.pts == b.pts && a.data == b.data; }
inline S show(const Out& o) { return "stream " + std::to_string(o.stream) + " type " + std::to_string(o.type) + " flags " + std::to_string(o.flags) + " dts " + std::to_string(o.dts) + " pts " + std::to_string(o.pts) + " " + mc::hex(o.data); }
inline std::vector<Out> outs(const Pkts& p) {
    std::vector<Out> r;
    for (auto& k : p) r.push_back({k->stream_type, k->pkt_type.pkt_type, k->flags, k->codecid, k->dts, k->pts, S((char*) k->buffer(), k->size())});
    return r;
}
inline void expect(const S& in, const std::vector<Out>& got, const std::vector<Out>& want) {
    for (size_t i = 0; i < got.size() || i < want.size(); ++i) {
        MC_CHECK(i < got.size(), "%s: packet %zu missing: %s", mc::hex(in).c_str(), i, show(want[i]).c_str());
        MC_CHECK(i < want.size(), "%s: extra packet %zu: %s", mc::hex(in).c_str(), i, show(got[i]).c_str());
        MC_CHECK(got[i] == want[i], "%s: packet %zu is %s instead of %s", mc::hex(in).c_str(), i, show(got[i]).c_str(), show(want[i]).c_str());
    }
    mc::validated(want.size() + 1);
}
// a buffer of exactly this size, so that reading past it is noticed
struct Exact {
    uint8_t* p; Exact(const S& s) : p((uint8_t*) malloc(s.size() ? s.size() : 1)) { memcpy(p, s.data(), s.size()); }
    ~Exact() { free(p); }
};
static const int64_t times[][2] = {{0, 0}, {90, 90}, {90000, 93600}, {89, 179}, {0x1ffffffffLL, 0x1ffffffffLL}};

// ---------------------------------------------------------------- AAC
struct Adts { int profile, freq, chan, crc, orig; S payload; };
inline S adts(const Adts& a, int len = -1) {
    int n = 7 + (a.crc ? 2 : 0) + (int) a.payload.size(); if (len >= 0) n = len;
    uint64_t h = 0; auto put = [&](uint64_t v, int b) { h = (h << b) | (v & ((1ull << b) - 1)); };
    put(0xfff, 12); put(0, 1); put(0, 2); put(!a.crc, 1); put(a.profile, 2); put(a.freq, 4); put(0, 1); put(a.chan, 3); put(a.orig, 1); put(0, 1);
    put(0, 2); put(n, 13); put(0x7ff, 11); put(0, 2);
    return be(h, 7) + (a.crc ? S("\xab\xcd") : "") + a.payload;
}
struct AacModel {
    bool has = false; int profile = 0, freq = 0, chan = 0;
    // reference reading of a run of frames; false: malformed
    bool run(const S& in, int64_t dts, std::vector<Out>& out) {
        size_t at = 0;
        while (at < in.size()) {
            const uint8_t* p = (const uint8_t*) in.data() + at; size_t left = in.size() - at;
            if (left < 7) return false;
            if (p[0] != 0xff || (p[1] & 0xf0) != 0xf0) return false;
            size_t head = (p[1] & 1) ? 7 : 9, len = ((p[3] & 3) << 11) | (p[4] << 3) | (p[5] >> 5);
            int pr = p[2] >> 6, fr = (p[2] >> 2) & 15, ch = ((p[2] & 1) << 2) | (p[3] >> 6);
            if (!has || pr != profile || fr != freq || ch != chan) {
                has = true; profile = pr; freq = fr; chan = ch;
                int c = ((pr + 1) << 11) | (fr << 7) | (ch << 3);
                out.push_back({AV_STREAM_TYPE_AUDIO, AV_AUDIO_TYPE_SEQUENCE_HEADER, 0xaf, AAC, 0, 0, be(c, 2)});
            }
            if (len < head || len > left) return false;
            out.push_back({AV_STREAM_TYPE_AUDIO, AV_AUDIO_TYPE_SEQUENCE_DATA, 0xaf, AAC, dts, dts, in.substr(at + head, len - head)});
            at += len;
        }
        return true;
    }
};
// ---------------------------------------------------------------- H.264
inline Out avcc(const S& sps, const S& pps) {
    S d = S("\x01") + sps[1] + sps[2] + sps[3] + "\xff\xe1" + be(sps.size(), 2) + sps + (pps.empty() ? S(1, '\0') : "\x01" + be(pps.size(), 2) + pps);
    return {AV_STREAM_TYPE_VIDEO, AV_VIDEO_TYPE_SEQUENCE_HEADER, 0x17, H264, 0, 0, d};
}
inline std::vector<Out> video(const std::vector<S>& nals, int64_t dts, int64_t pts) {
    std::vector<Out> r; S sps, pps;
    for (auto& n : nals) { int t = n[0] & 31; if (t == 7) sps = n; if (t == 8) pps = n; }
    if (!sps.empty()) r.push_back(avcc(sps, pps));
    for (auto& n : nals) {
        int t = n[0] & 31, f = t == 5 ? 0x17 : t == 1 ? 0x27 : t == 6 ? 0x57 : 0;
        if (f) r.push_back({AV_STREAM_TYPE_VIDEO, AV_VIDEO_TYPE_DATA, f, H264, dts, pts, be(n.size(), 4) + n});
    }
    return r;
}
inline S nal(int type, const S& body) { return S(1, (char) (type == 5 || type == 7 || type == 8 ? 0x60 | type : type == 1 ? 0x41 : type)) + body; }
#endif
