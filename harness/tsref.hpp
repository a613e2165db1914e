// Reference MPEG-TS muxer (ISO 13818-1), independent of the code under test.
#ifndef VERIF_TSREF_HPP
#define VERIF_TSREF_HPP
#include "esref.hpp"

namespace tsref {
struct Adapt {               // adaptation field asked for, besides stuffing
    bool pcr = false, opcr = false, splice = false, priv = false, ext = false, rai = false; int stuff = 0; int plen = 3;
    bool any() const { return pcr || opcr || splice || priv || ext || rai || stuff; }
    S bytes() const {
        if (!any()) return "";
        S r(1, (char) ((rai ? 0x40 : 0) | (pcr ? 0x10 : 0) | (opcr ? 8 : 0) | (splice ? 4 : 0) | (priv ? 2 : 0) | (ext ? 1 : 0)));
        if (pcr) r += S("\x80\x00\x00\x10\x7e\x05", 6);
        if (opcr) r += S("\x00\x00\x47\x11\xfe\x55", 6);
        if (splice) r += "\x07";
        if (priv) r += plen == 3 ? S("\x03\x00\x01\x47", 4) : S(1, (char) plen) + S(plen, '\xff');
        if (ext) r += S("\x0b\xff\x80\x01\x40\x00\x01\x21\x00\x01\x00\x01", 12);
        return r + S(stuff, '\xff');
    }
};
inline S pts_(int64_t v, int tag) {
    uint64_t x = ((uint64_t) tag << 36) | (((uint64_t) v >> 30 & 7) << 33) | (1ull << 32) | (((uint64_t) v >> 15 & 0x7fff) << 17) | (1 << 16) | ((v & 0x7fff) << 1) | 1;
    return be(x, 5);
}
struct Unit { int pid = 0; S data; int64_t dts = 0, pts = 0; bool sized = false; int head = 0; Adapt ad; };
inline S pes(const Unit& u, int sid) {
    bool d = u.dts != u.pts || u.head == 1;
    S opt = pts_(u.pts, d ? 3 : 2) + (d ? pts_(u.dts, 1) : "");
    int flags = d ? 0xc0 : 0x80;
    if (u.head >= 5) { opt.clear(); flags = 0; if (u.head == 6) opt = S(10, '\xff'); }   // no times
    if (u.head == 2) opt += S(5, '\xff');
    if (u.head == 3) { flags |= 0x3e; opt += S("\x44\x00\x04\x00\x04\x01", 6) + S("\x80\x00\x03", 3) + "\x20" + "\x81" + S("\x00\x01", 2); }
    if (u.head == 4) { flags |= 1; opt += S("\xff", 1) + S(16, 'q') + S("\x02xy", 3) + S("\x81\x42", 2) + S("\x60\x20", 2) + S("\x83" "abc", 4) + S(3, '\xff'); }
    S body = S("\x84", 1) + (char) flags + (char) opt.size() + opt + u.data;
    size_t n = u.sized && body.size() < 65536 ? body.size() : 0;
    return S("\0\0\1", 3) + (char) sid + be(n, 2) + body;
}
inline S packet(int pid, bool start, int cc, const S& adapt, bool has_adapt, const S& payload) {
    S r = "\x47" + be((start ? 0x4000 : 0) | pid, 2) + (char) ((has_adapt ? 0x20 : 0) | (payload.empty() ? 0 : 0x10) | (cc & 15));
    if (has_adapt) r += (char) adapt.size() + adapt;
    r += payload;
    if (r.size() != 188) mc::broken("TS packet of %zu bytes", r.size());
    return r;
}
struct Mux {
    std::map<int, int> cc;
    int first = 0;
    int next(int pid) { if (!cc.count(pid)) cc[pid] = first; int c = cc[pid]; cc[pid] = (c + 1) & 15; return c; }
    std::vector<S> split(int pid, const S& data, const Adapt& ad) {
        std::vector<S> r; size_t at = 0; bool start = true;
        while (at < data.size()) {
            S a = start ? ad.bytes() : ""; bool has = start && ad.any();
            size_t room = 184 - (has ? 1 + a.size() : 0), n = std::min(room, data.size() - at);
            if (n < room) {                                      // stuffing
                size_t pad = room - n;
                if (!has) { has = true; --pad; if (pad) { a = S(1, '\0'); --pad; } }
                a += S(pad, '\xff');
            }
            r.push_back(packet(pid, start, next(pid), a, has, data.substr(at, n)));
            at += n; start = false;
        }
        return r;
    }
    std::vector<S> unit(const Unit& u, int sid) { return split(u.pid, pes(u, sid), u.ad); }
    S idle(int pid) { return packet(pid, false, cc.count(pid) ? (cc[pid] + 15) & 15 : first, S("\x10\x80\x00\x00\x10\x7e\x05", 7) + S(176, '\xff'), true, ""); }
    static S null() { return packet(0x1fff, false, 0, "", false, S(184, '\xff')); }
    static S crc(const S& s) {
        uint32_t c = 0xffffffff;
        for (unsigned char b : s) { c ^= (uint32_t) b << 24; for (int i = 0; i < 8; ++i) c = (c << 1) ^ (c & 0x80000000u ? 0x04c11db7u : 0); }
        return be(c, 4);
    }
    static S section(int table, int id, const S& body) { S s = S(1, (char) table) + be(0xb000 | (body.size() + 9), 2) + be(id, 2) + "\xc1" + S(2, '\0') + body; return s + crc(s); }
    S psi(int pid, const S& sec, int pointer = 0, const Adapt& ad = Adapt()) {
        S a = ad.bytes(); size_t room = 184 - (ad.any() ? 1 + a.size() : 0);
        S p = S(1, (char) pointer) + S(pointer, '\xff') + sec; p += S(room - p.size(), '\xff');
        return packet(pid, true, next(pid), a, ad.any(), p);
    }
    static S pat(const std::vector<std::pair<int, int>>& progs) { S b; for (auto& p : progs) b += be(p.first, 2) + be(0xe000 | p.second, 2); return section(0, 1, b); }
    struct Es { int type, pid; S desc; };
    static S pmt(int pcr, const std::vector<Es>& es, const S& info = "", int prog = 1) {
        S b = be(0xe000 | pcr, 2) + be(0xf000 | info.size(), 2) + info;
        for (auto& e : es) b += S(1, (char) e.type) + be(0xe000 | e.pid, 2) + be(0xf000 | e.desc.size(), 2) + e.desc;
        return section(2, prog, b);
    }
    static S sdt() { return section(0x42, 1, S("\xff\x01\xff\x00\x01\xfc\x80\x14\x48\x12\x01\x06", 12) + "FFmpeg\x09Service01"); }
};
}  // namespace tsref
#endif
