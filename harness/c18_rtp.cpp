// C18: RTP packets are read as exactly the NAL units, AAC frames and TS frames
// they carry, and loss costs only what was lost.
#include "rtpref.hpp"
using namespace rtpref;
static S fill(size_t n, int salt) { S s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char) (1 + (i * 7 + salt * 31 + (i >> 8)) % 250); return s; }
static const S SPS("\x67\x42\xc0\x1e\xd9", 5), PPS("\x68\xce\x38\x80", 4);

struct Nal { S data; uint32_t ts; };
struct Case {                               // datagrams, and for every NAL unit which of them it needs
    Head h; std::vector<S> pk;
    struct Sent { Nal n; std::vector<int> needs; };
    std::vector<Sent> sent;
    int put(const S& payload, uint32_t ts) { h.ts = ts; pk.push_back(rtp(h, payload)); h.seq = (h.seq + 1) & 0xffff; return (int) pk.size() - 1; }
    void single(const Nal& n) { sent.push_back({n, {put(n.data, n.ts)}}); }
    void frags(const Nal& n, const std::vector<size_t>& cuts, bool b = false) { Sent s{n, {}}; for (auto& p : fu(n.data, cuts, b)) s.needs.push_back(put(p, n.ts)); sent.push_back(s); }
    void aggregate(const std::vector<Nal>& v, int kind) {
        std::vector<S> d; std::vector<uint32_t> off; uint32_t base = v[0].ts; for (auto& n : v) base = std::min(base, n.ts);
        for (auto& n : v) { d.push_back(n.data); off.push_back(n.ts - base); }
        int i = put(kind == 24 ? stap(d, false) : kind == 25 ? stap(d, true) : mtap(d, off, kind == 27), base);
        for (auto& n : v) sent.push_back({n, {i}});
    }
    std::vector<Out> want(const std::vector<bool>& arrived) const {
        Video m; std::vector<Out> r;
        for (auto& s : sent) { bool all = true; for (int i : s.needs) all &= arrived[i]; if (all) m.nal(s.n.data, s.n.ts, r); }
        return r;
    }
    void check(const char* what) const {
        S all; for (auto& p : pk) all += p; mc::state(mc::hash_str(all));
        auto r = receive(pk, AVCODEC_H264);
        MC_CHECK(r.errors == 0, "%s: %d datagrams refused", what, r.errors);
        same(what, r.got, want(std::vector<bool>(pk.size(), true))); mc::nontrivial();
    }
};
static std::vector<Nal> stream() {
    return {{SPS, 9000}, {PPS, 9000}, {nal(6, S("\x05\x01\x00\x80", 4)), 9000}, {nal(5, fill(40, 1)), 9000}, {nal(5, fill(3, 2)), 9000}, {nal(9, "\xf0"), 12600}, {nal(1, fill(300, 3)), 12600}, {nal(1, "\x9a"), 16200}};
}
// every way of putting the NAL units of a stream into packets
static void packetize(int n) {
    Case c; static const int seqs[] = {65533, 0, 65530, 65535}; c.h.seq = seqs[mc::choose(mc::tier ? 4 : 2, "first sequence number")];
    auto v = stream(); v.erase(v.begin() + n, v.end());
    if (n < 8 && mc::flip("later part")) { v = stream(); v.erase(v.begin() + 2, v.begin() + 2 + (8 - n)); }
    size_t i = 0;
    while (i < v.size()) {
        int k = mc::choose(11, "packet");
        size_t left = v.size() - i;
        bool together = left >= 2;
        if (k == 0) { c.single(v[i++]); continue; }
        if (k <= 3) { if (v[i].data.size() < (size_t) k + 2) { c.single(v[i++]); continue; } c.frags(v[i], std::vector<size_t>((size_t) k, v[i].data.size() / (k + 2) ? v[i].data.size() / (k + 2) : 1), k == 3); ++i; continue; }
        int kind = 24 + (k - 4) % 4, m = k < 8 ? 1 : k == 8 ? 2 : k == 9 ? 3 : 4;
        if (k >= 8) kind = 24 + mc::choose(4, "aggregation");
        if (m > 1 && !together) return;
        std::vector<Nal> g(v.begin() + i, v.begin() + i + std::min<size_t>(m, left));
        if (kind <= 25) { while (g.size() > 1 && g.back().ts != g[0].ts) g.pop_back(); }
        c.aggregate(g, kind); i += g.size();
    }
    c.check("packets");
}
// fragment sizes, sequence numbers, timestamps
static void fragments() {
    static const int sizes[] = {3, 4, 5, 254, 255, 256, 257, 1400, 2900}; static const uint32_t ts[] = {0, 89, 90, 0x7fffffff, 0x80000000u, 0xffffffffu}; static const int seqs[] = {0, 255, 65533, 65534, 65535};
    Case c; c.h.seq = mc::pick(seqs, "sequence number"); int n = mc::pick(sizes, "size"); uint32_t t = mc::pick(ts, "timestamp");
    size_t a = 1 + mc::choose(3, "first"), b = 1 + mc::choose(3, "second"); if (mc::flip("long first")) a = n - 2;
    std::vector<size_t> cuts = {a}; if (a + b < (size_t) n) cuts.push_back(b);
    c.h.mark = mc::flip("mark");
    c.frags({nal(5, fill(n, 1)), t}, cuts, mc::flip("FU-B"));
    c.single({nal(1, fill(n, 2)), t}); c.aggregate({{nal(1, fill(n, 3)), t}}, 24);
    c.check("fragments");
}
static void aggregates() {                  // sizes of aggregated units
    static const int sizes[] = {1, 2, 127, 128, 255, 256, 257, 700}; static const uint32_t off[] = {0, 1, 89, 90, 0xff, 0x100, 0xffff};
    Case c; int kind = 24 + mc::choose(4, "kind"), n = 1 + mc::choose(3, "units"); std::vector<Nal> v;
    for (int i = 0; i < n; ++i) { uint32_t o = kind >= 26 && i ? mc::pick(off, "offset") : 0; if (kind == 27 && o == 0xffff) o = 0xabcdef; v.push_back({nal(i % 2 ? 1 : 5, fill(mc::pick(sizes, "size") - 1, i)), 900000 + o}); }
    c.h.mark = mc::flip("mark"); c.aggregate(v, kind); c.single({nal(1, "\x9a"), 1000000});
    c.check("aggregates");
}
static void many() {                        // many units in one packet
    Case c; int kind = 24 + mc::choose(4, "kind"), n = 4 + mc::choose(37, "units"), size = 1 + mc::choose(3, "size") * 9; std::vector<Nal> v;
    for (int i = 0; i < n; ++i) v.push_back({nal(i % 2 ? 1 : 5, fill(i % 3 ? size : size - 1, i)), 900000u + (kind >= 26 ? i * 90 : 0)});
    c.aggregate(v, kind); c.aggregate(v, kind); c.single({nal(1, "\x9a"), 1000000});
    c.check("many");
}
static void large() {                       // larger units than memory is set aside for cost nothing else
    static const int sizes[] = {65535, 65536, 200000, 1048575, 1048576, 1048577, 1100000};
    Case c; int n = mc::pick(sizes, "size"); size_t step = mc::flip("large packets") ? 2900 : 1200;
    c.single({nal(5, "a"), 900}); std::vector<size_t> cuts; for (size_t at = 1; at + step < (size_t) n; at += step) cuts.push_back(step);
    c.frags({nal(5, fill(n - 1, 3)), 1800}, cuts); c.single({nal(1, "b"), 2700}); c.frags({nal(1, "fragments"), 2800}, {3, 3});
    if (n <= 1048576) { c.check("large"); return; }
    auto r = receive(c.pk, AVCODEC_H264); mc::state(mc::hash_bytes(&n, sizeof n, step));
    std::vector<bool> a(c.pk.size(), true); auto full = c.want(a); a[c.sent[1].needs[0]] = false;
    if (r.got.size() == full.size()) same("large", r.got, full); else same("large", r.got, c.want(a));
    mc::nontrivial();
}
// RTP headers of every legal form in front of every kind of payload
static void headers() {
    static const int ext[] = {-1, 0, 1, 2, 5, 20}, pads[] = {0, 1, 2, 4, 5, 255}, pts[] = {96, 97, 111, 127}, cs[] = {0, 1, 2, 15};
    Head h; h.ext = mc::pick(ext, "extension"); h.pad = mc::pick(pads, "padding"); h.pt = mc::pick(pts, "payload type"); h.csrc = mc::pick(cs, "csrc"); h.mark = mc::flip("mark"); h.ssrc = mc::flip("ssrc") ? 0xffffffffu : 0;
    int kind = mc::choose(7, "payload");
    if (kind < 5) {
        Case c; c.h = h; c.h.seq = 65534; std::vector<Nal> g = {{SPS, 900}, {PPS, 900}, {nal(5, fill(30, 1)), 900}};
        switch (kind) { case 0: for (auto& n : g) c.single(n); break; case 1: c.aggregate(g, 24); break; case 2: c.aggregate(g, 26); break; case 3: for (auto& n : g) c.frags(n, {1}); break; case 4: for (auto& n : g) c.frags(n, {1, 1}, true); break; }
        c.check("headers"); return;
    }
    if (kind == 5) {
        h.ts = 1800; std::vector<S> pk = {rtp(h, aac({"abc", "d"}))}; h.seq++; h.ts = 2700; pk.push_back(rtp(h, aac({S(200, 'e')})));
        auto r = receive(pk, AVCODEC_AAC); mc::state(mc::hash_str(pk[0]));
        MC_CHECK(!r.errors, "%d AAC datagrams refused", r.errors);
        auto au = [](const S& d, int64_t t) { return Out{AV_STREAM_TYPE_AUDIO, AV_AUDIO_TYPE_SEQUENCE_DATA, 0xaf, AAC, t, t, d}; };
        same("AAC headers", r.got, {au("abc", 20), au("d", 20), au(S(200, 'e'), 30)}); mc::nontrivial(); return;
    }
    tsref::Mux m; std::vector<S> ts = {m.psi(0, m.pat({{1, 0x1000}})), m.psi(0x1000, m.pmt(0x100, {{0x1b, 0x100, ""}}))}; std::vector<Out> want;
    for (int i = 0; i < 3; ++i) { tsref::Unit u; u.pid = 0x100; u.dts = 90 * i; u.pts = 90 * i + 180; S n = nal(i ? 1 : 5, fill(250, i)); u.data = S("\0\0\0\1", 4) + n; for (auto& p : m.unit(u, 0xe0)) ts.push_back(p); if (i < 2) for (auto& o : video({n}, i, i + 2)) want.push_back(o); }
    h.pt = 33; std::vector<S> pk; int per = 1 + mc::choose(7, "TS packets per datagram");
    for (size_t i = 0; i < ts.size(); i += per) { S p; for (size_t j = i; j < ts.size() && j < i + per; ++j) p += ts[j]; pk.push_back(rtp(h, p)); ++h.seq; }
    auto r = receive(pk, 0); mc::state(mc::hash_str(pk[0], per)); MC_CHECK(!r.errors, "%d TS datagrams refused", r.errors);
    same("TS headers", r.got, want); mc::nontrivial();
}
static Case sample(int first, bool small = false) {
    Case c; c.h.seq = first;
    c.aggregate({{SPS, 900}, {PPS, 900}}, 24); c.frags({nal(5, fill(30, 1)), 900}, {10, 10}); c.single({nal(1, fill(5, 2)), 1800});
    if (!small) { c.frags({nal(1, fill(20, 3)), 2700}, {10}); c.aggregate({{nal(6, "sei"), 3600}, {nal(1, fill(8, 4)), 3600}}, 25); }
    c.frags({nal(1, fill(20, 5)), 4500}, {10}); c.frags({nal(5, fill(9, 6)), 4600}, {3, 3});
    return c;
}
// every set of packets lost
static void loss() {
    Case c = sample(mc::flip("wrap") ? 65531 : 7); std::vector<bool> a; std::vector<S> in;
    for (auto& p : c.pk) { a.push_back(!mc::flip("lost")); if (a.back()) in.push_back(p); }
    auto r = receive(in, AVCODEC_H264); S all; for (auto& p : in) all += p; mc::state(mc::hash_str(all));
    MC_CHECK(r.errors == 0, "%d datagrams refused", r.errors);
    same("loss", r.got, c.want(a)); mc::nontrivial();
}
// any order, with one packet twice: never anything but a unit that was sent
static void order(bool twice, int far) {
    Case c = sample(far > 5 || ((!twice || mc::tier) && mc::flip("wrap")) ? 65531 : 7, true); std::vector<int> left; for (size_t i = 0; i < c.pk.size(); ++i) left.push_back((int) i);
    if (twice) left.push_back(mc::choose((int) c.pk.size(), "twice"));
    std::vector<S> in; std::vector<int> seq;
    while (!left.empty()) { int k = mc::choose(std::min<int>(far, (int) left.size()), "next"); seq.push_back(left[k]); in.push_back(c.pk[left[k]]); left.erase(left.begin() + k); }
    auto r = receive(in, AVCODEC_H264); mc::state(mc::hash_bytes(seq.data(), seq.size() * sizeof(int)));
    std::set<S> ok; for (auto& o : c.want(std::vector<bool>(c.pk.size(), true))) ok.insert(show(o));
    std::multiset<S> got; for (auto& o : r.got) { got.insert(show(o)); MC_CHECK(ok.count(show(o)), "order: packet %s was never sent", show(o).c_str()); }
    for (auto& s : c.sent) if (s.needs.size() == 1) { Video m; std::vector<Out> w; m.sps = SPS; m.nal(s.n.data, s.n.ts, w); for (auto& o : w) MC_CHECK(got.count(show(o)), "order: packet %s missing", show(o).c_str()); }
    // fragments that came one after the other in order make their unit
    for (auto& s : c.sent) if (s.needs.size() > 1) for (size_t i = 0; i + s.needs.size() <= seq.size(); ++i) if (std::equal(s.needs.begin(), s.needs.end(), seq.begin() + i)) {
        std::vector<Out> w; Video m; m.nal(s.n.data, s.n.ts, w); MC_CHECK(got.count(show(w[0])), "order: unit of consecutive fragments missing: %s", show(w[0]).c_str());
    }
    mc::validated(r.got.size() + 1); mc::nontrivial();
}
// other datagrams on the way: RTCP, keep-alives, other payload types
static void others(int n) {
    struct O { S d; bool fine; };
    Head f; f.pt = 8; f.seq = 9; f.mark = true; Head g = f; g.pt = 72; g.mark = false; Head ts; ts.pt = 33;
    static const std::vector<O> kinds = {
        {sr(0), true}, {sr(1), true}, {sr(2) + rtcp(1, 202, chunk(7, {{1, "cname"}})), true}, {rr(0), true}, {rr(1), true}, {rr(31), true}, {rtcp(1, 202, chunk(7, {{1, "cname"}})), true},
        {rtcp(2, 202, chunk(7, {{1, "user@host"}, {2, "name"}}) + chunk(8, {{1, ""}})), true}, {rtcp(0, 202, ""), true}, {bye(1, ""), true}, {bye(2, "teardown"), true}, {bye(0, ""), true}, {app(""), true}, {app("data"), true},
        {S(1, '\0'), false}, {S(4, '\0'), false}, {S("\0\1\0\0\x21\x12\xa4\x42", 8), false}, {S("\r\n\r\n"), false}, {rtp(f, "G711 payload"), false}, {rtp(g, S(40, 'x')), false}, {rtp(ts, S(188, 'G')), false}, {rtp(Head(), ""), false}};
    Case c = sample(100, true); std::vector<S> in = c.pk; bool fine = true;
    int codec = AVCODEC_H264; std::vector<Out> want = c.want(std::vector<bool>(c.pk.size(), true));
    if (mc::flip("AAC")) { codec = AVCODEC_AAC; in.clear(); want.clear(); Head h; for (int i = 0; i < 4; ++i) { h.seq = i; h.ts = 90 * i; S d = fill(20, i); in.push_back(rtp(h, aac({d}))); want.push_back({AV_STREAM_TYPE_AUDIO, AV_AUDIO_TYPE_SEQUENCE_DATA, 0xaf, AAC, i, i, d}); } }
    for (int i = 0; i < n; ++i) { auto& k = kinds[mc::choose((int) kinds.size(), "datagram")]; if (!k.fine) fine = false; if (codec == AVCODEC_AAC && k.d == rtp(Head(), "")) return; in.insert(in.begin() + mc::choose((int) in.size() + 1, "position"), k.d); }
    auto r = receive(in, codec); S all; for (auto& p : in) all += p; mc::state(mc::hash_str(all));
    MC_CHECK(!fine || r.errors == 0, "RTCP: %d datagrams refused", r.errors);
    same("others", r.got, want); mc::nontrivial();
}
static void aus(int max) {
    static const int sizes[] = {1, 2, 31, 32, 255, 256, 700}; int n = 1 + mc::choose(max, "frames"), packets = 1 + mc::choose(2, "packets");
    static const uint32_t ts[] = {0, 89, 90, 0x7fffffff, 0xffffffffu};
    Head h; h.mark = true; std::vector<S> in; std::vector<Out> want; uint32_t t = mc::pick(ts, "timestamp");
    for (int p = 0; p < packets; ++p) {
        std::vector<S> v; for (int i = 0; i < n; ++i) { v.push_back(fill(p ? sizes[(i + n) % 7] : mc::pick(sizes, "size"), i)); want.push_back({AV_STREAM_TYPE_AUDIO, AV_AUDIO_TYPE_SEQUENCE_DATA, 0xaf, AAC, t / 90, t / 90, v.back()}); }
        h.ts = t; in.push_back(rtp(h, aac(v))); ++h.seq; t += 1024;
    }
    auto r = receive(in, AVCODEC_AAC); mc::state(mc::hash_str(in[0], packets)); MC_CHECK(!r.errors, "%d datagrams refused", r.errors);
    same("AAC", r.got, want); mc::nontrivial();
}
static void many_aus() {
    int n = 4 + mc::choose(37, "frames"), size = 1 + mc::choose(3, "size") * 30; uint32_t t = 9000; Head h; h.mark = true; std::vector<S> in; std::vector<Out> want;
    for (int p = 0; p < 2; ++p) {
        std::vector<S> v; for (int i = 0; i < n; ++i) { v.push_back(fill(size + (i % 3 == 0), i)); want.push_back({AV_STREAM_TYPE_AUDIO, AV_AUDIO_TYPE_SEQUENCE_DATA, 0xaf, AAC, t / 90, t / 90, v.back()}); }
        h.ts = t; in.push_back(rtp(h, aac(v))); ++h.seq; t += 1024 * n;
    }
    auto r = receive(in, AVCODEC_AAC); mc::state(mc::hash_str(in[0])); MC_CHECK(!r.errors, "%d datagrams of %d frames refused", r.errors, n);
    same("many AAC", r.got, want); mc::nontrivial();
}
static void huge_au() {                      // a frame as large as a datagram takes
    static const int sizes[] = {1400, 2047, 2048, 2800}; int n = mc::pick(sizes, "size"); Head h; h.mark = true; h.ts = 9000;
    std::vector<S> v = {fill(n, 1)}; if (mc::flip("two")) v.push_back("x");
    std::vector<Out> want; for (auto& d : v) want.push_back({AV_STREAM_TYPE_AUDIO, AV_AUDIO_TYPE_SEQUENCE_DATA, 0xaf, AAC, 100, 100, d});
    auto r = receive({rtp(h, aac(v))}, AVCODEC_AAC); mc::state(n); MC_CHECK(!r.errors, "a frame of %d bytes refused", n);
    same("huge AAC", r.got, want); mc::nontrivial();
}
// MPEG-TS with datagrams lost: the frames that arrived whole, and no others
static void ts_loss(int most) {
    tsref::Mux m; std::vector<S> ts = {m.psi(0, m.pat({{1, 0x1000}})), m.psi(0x1000, m.pmt(0x100, {{0x1b, 0x100, ""}, {0x0f, 0x101, ""}}))};
    struct U { int s; std::vector<int> at; std::vector<S> nals; S es; int64_t dts; }; std::vector<U> us;
    static const int vs[] = {400, 3, 200, 170, 600, 3}, as[] = {30, 300, 30, 30, 200, 3};
    auto put = [&](U u, const tsref::Unit& t) { for (auto& p : m.unit(t, u.s ? 0xc0 : 0xe0)) { u.at.push_back((int) ts.size()); ts.push_back(p); } us.push_back(u); };
    for (int i = 0; i < 6; ++i) {
        int64_t d = 90 * (10 + i); tsref::Unit v; v.pid = 0x100; v.dts = d; v.pts = d + 90; U u{0, {}, {nal(i ? 1 : 5, fill(vs[i], i))}, "", d}; if (i == 0 || i == 4) { u.nals.insert(u.nals.begin(), PPS); u.nals.insert(u.nals.begin(), SPS); }
        for (auto& n : u.nals) v.data += S("\0\0\0\1", 4) + n; v.sized = i % 2; put(u, v);
        tsref::Unit a; a.pid = 0x101; a.dts = a.pts = d; a.sized = true; a.data = adts({1, 4, 2, 0, 0, fill(as[i], i)}); put({1, {}, {}, a.data, d}, a);
    }
    static const int pers[] = {1, 2, 3, 7}; int per = mc::pick(pers, "TS packets per datagram"); Head h; h.pt = 33; std::vector<bool> a(ts.size(), true); std::vector<S> in; int lost = 0; size_t first = (2 + per - 1) / per;
    for (size_t i = 0; i < ts.size(); i += per) {
        S p; for (size_t j = i; j < ts.size() && j < i + per; ++j) p += ts[j];
        bool l = i / per >= first && lost < most && mc::flip("lost");
        if (l) { ++lost; for (size_t j = i; j < ts.size() && j < i + per; ++j) a[j] = false; } else in.push_back(rtp(h, p));
        h.seq = (h.seq + 1) & 0xffff; h.ts += 90;
    }
    S key; for (bool b : a) key += b ? '1' : '0'; mc::state(mc::hash_str(key, per));
    auto r = receive(in, 0);
    MC_CHECK(r.errors == 0, "%d datagrams refused", r.errors);
    // sure: the unit and the start of the next one arrived. maybe: the unit did.
    for (int s = 0; s < 2; ++s) {
        std::vector<Out> got; for (auto& o : r.got) if ((o.stream == AV_STREAM_TYPE_AUDIO) == (s == 1)) got.push_back(o);
        std::vector<U*> mine; for (auto& u : us) if (u.s == s) mine.push_back(&u);
        size_t g = 0; AacModel am;
        for (size_t i = 0; i < mine.size(); ++i) {
            bool all = true; for (int k : mine[i]->at) all &= a[k];
            bool sure = all && i + 1 < mine.size() && a[mine[i + 1]->at[0]];
            if (!all) continue;
            std::vector<Out> w; AacModel before = am;
            if (s) { if (!am.run(mine[i]->es, mine[i]->dts / 90, w)) mc::broken("reference refuses"); } else w = video(mine[i]->nals, mine[i]->dts / 90, mine[i]->dts / 90 + 1);
            bool there = g + w.size() <= got.size() && std::equal(w.begin(), w.end(), got.begin() + g);
            MC_CHECK(there || !sure, "TS loss (%s by %d): %s unit %zu missing, next is %s", key.c_str(), per, s ? "audio" : "video", i, g < got.size() ? show(got[g]).substr(0, 120).c_str() : "the end");
            if (there) g += w.size(); else am = before;
        }
        MC_CHECK(g == got.size(), "TS loss (%s by %d): packet %s is in no frame that arrived", key.c_str(), per, g < got.size() ? show(got[g]).substr(0, 160).c_str() : "");
    }
    mc::validated(r.got.size() + 1); mc::nontrivial();
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (S(argv[i]) == "--tier" && S(argv[i + 1]) == "thorough") mc::tier = 1;
    bool T = mc::tier;
    return mc::run(argc, argv, "C18", {
        {"packetize", S("every way to put ") + (T ? "6" : "5") + " NAL units into single, STAP-A/B, MTAP16/24 and FU-A/B packets, 2..4 first sequence numbers", [=] { packetize(T ? 6 : 5); }, 5},
        {"fragments", "9 sizes x 5 sequence numbers x 6 timestamps x fragment sizes x FU-A/B", [] { fragments(); }, 3},
        {"aggregates", "1..3 units of 8 sizes in STAP-A/B and MTAP16/24, 7 offsets", [] { aggregates(); }, 3},
        {"many", "4..40 units of 3 sizes in STAP-A/B and MTAP16/24", [] { many(); }, 2},
        {"large", "fragmented units up to and past the limit of 1 MB", [] { large(); }, 1},
        {"headers", "csrc, extension, padding, mark, payload type x 5 packetizations, AAC, TS with 1..7 packets", [] { headers(); }, 4},
        {"loss", "every subset of the packets of a stream lost", [] { loss(); }, 4},
        {"order", T ? "every order of the packets of a stream" : "every order of the packets of a stream, delayed by up to 3", [=] { order(false, T ? 10 : 4); }, 4},
        {"twice", T ? "every packet twice, delayed by up to 3" : "every packet twice, delayed by up to 1", [=] { order(true, T ? 4 : 2); }, 4},
        {"others", T ? "every two of 22 other datagrams at every position" : "each of 22 other datagrams at every position", [=] { others(T ? 2 : 1); }, 3},
        {"aac", S("1..") + (T ? "4" : "3") + " frames of 7 sizes in a packet, 5 timestamps", [=] { aus(T ? 4 : 3); }, 3},
        {"many-aac", "4..40 frames of 3 sizes in a packet; frames of up to 2800 bytes", [] { if (mc::flip("huge")) huge_au(); else many_aus(); }, 2},
        {"ts-loss", S("every ") + (T ? "4" : "2") + " datagrams of a transport stream lost, 4 datagram sizes", [=] { ts_loss(T ? 4 : 2); }, 4},
    });
}
