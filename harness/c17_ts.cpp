// C17: an MPEG-TS stream is read as exactly the frames its elementary streams carry.
#include <sps_avformat_tsdec.hpp>
#include "tsref.hpp"
using namespace tsref;
enum { VID = 0x100, AUD = 0x101, PMT = 0x1000, END = 4321 };

static S fill(size_t n, int salt) { S s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char) (1 + (i * 7 + salt * 31 + (i >> 8)) % 250); return s; }
static S sc(const S& n) { return S("\0\0\0\1", 4) + n; }
static const S SPS("\x67\x42\xc0\x1e\xd9", 5), PPS("\x68\xce\x38\x80", 4);

struct Case {
    Mux mux; std::vector<S> pk;
    std::vector<std::vector<Out>> want[2];
    std::set<std::pair<int, int>> untimed;      // units (stream, number) whose header gives no time
    AacModel aac;
    void add(const std::vector<S>& v) { pk.insert(pk.end(), v.begin(), v.end()); }
    void psi() { pk.push_back(mux.psi(0, Mux::pat({{1, PMT}}))); pk.push_back(mux.psi(PMT, Mux::pmt(VID, {{0x1b, VID, ""}, {0x0f, AUD, ""}}))); }
    // an access unit with a NAL of n bytes
    Unit video(size_t n, bool key, int64_t dts, int64_t pts) {
        Unit u; u.pid = VID; u.dts = dts; u.pts = pts;
        std::vector<S> nals = {S("\x09\xf0")};
        if (key) { nals.push_back(SPS); nals.push_back(PPS); }
        S slice = S(1, key ? 0x65 : 0x41) + fill(n, (int) dts); nals.push_back(slice);
        for (auto& x : nals) u.data += sc(x);
        want[0].push_back(::video(nals, dts / 90, pts / 90));
        return u;
    }
    Unit audio(size_t n, int frames, int64_t dts) {
        Unit u; u.pid = AUD; u.dts = u.pts = dts; u.sized = true;
        for (int i = 0; i < frames; ++i) u.data += adts({1, 4, 2, 0, 0, fill(n, i)});
        want[1].emplace_back(); if (!aac.run(u.data, dts / 90, want[1].back())) mc::broken("reference refuses");
        return u;
    }
    std::vector<S> ts(const Unit& u) { return mux.unit(u, u.pid == VID ? 0xe0 : 0xc0); }
    S bytes() const { S r; for (auto& p : pk) r += p; return r; }
};
struct Result { std::vector<Out> got[2]; int end = 0; };
static Result demux(const S& in, std::function<size_t(size_t)> cut = nullptr) {
    quiet();
    auto r = std::make_shared<ScriptReader>(in, END); r->cut = cut;
    Result res; TsDemuxer d(r); PAVPacket p;
    MC_CHECK(d.read_header(p) == SUCCESS, "header refused");
    for (int n = 0;; ++n) {
        p.reset(); mc::step();
        if ((res.end = d.read_packet(p)) != SUCCESS) break;
        MC_CHECK(p != nullptr, "no packet");
        MC_CHECK(n < 100000, "packets without end");
        Out o{p->stream_type, p->pkt_type.pkt_type, p->flags, p->codecid, p->dts, p->pts, S((char*) p->buffer(), p->size())};
        res.got[p->is_audio()].push_back(o);
    }
    return res;
}
// All units but, perhaps, the last of a stream (which nothing ends) are there.
static void compare(const Case& c, const Result& r, const char* what) {
    for (int s = 0; s < 2; ++s) {
        std::vector<Out> all; size_t least = 0; std::set<size_t> free;
        for (size_t k = 0; k < c.want[s].size(); ++k) { auto& u = c.want[s][k]; least = all.size(); if (c.untimed.count({s, (int) k})) for (size_t i = 0; i < u.size(); ++i) free.insert(least + i); all.insert(all.end(), u.begin(), u.end()); }
        auto g = r.got[s];
        for (size_t i : free) if (i < g.size()) { g[i].dts = all[i].dts; g[i].pts = all[i].pts; }
        for (size_t i = 0; i < g.size(); ++i) {
            MC_CHECK(i < all.size(), "%s: extra packet %s", what, show(g[i]).substr(0, 200).c_str());
            MC_CHECK(g[i] == all[i], "%s: %s packet %zu is %s (%zu bytes) instead of %s (%zu bytes)", what, s ? "audio" : "video", i, show(g[i]).substr(0, 160).c_str(), g[i].data.size(), show(all[i]).substr(0, 160).c_str(), all[i].data.size());
        }
        MC_CHECK(g.size() == all.size() || g.size() == least, "%s: %zu %s packets instead of %zu", what, g.size(), s ? "audio" : "video", least);
        mc::validated(g.size() + 1);
    }
}
static void whole(const Case& c, const char* what, std::function<size_t(size_t)> cut = nullptr) {
    S in = c.bytes(); mc::state(mc::hash_str(in));
    auto r = demux(in, cut);
    MC_CHECK(r.end == END, "%s: refused with %d", what, r.end);
    compare(c, r, what); mc::nontrivial();
}
static Adapt adapt() {
    Adapt a;
    switch (mc::choose(10, "adaptation")) {
        case 1: a.pcr = true; break;
        case 2: a.pcr = a.opcr = a.splice = true; break;
        case 3: a.priv = true; break;
        case 4: a.ext = true; break;
        case 5: a.priv = a.ext = a.pcr = a.rai = true; break;
        case 6: a.rai = true; break;
        case 7: a.stuff = 20; break;
        case 8: a.pcr = a.priv = a.ext = true; a.plen = 40; break;
        case 9: a.priv = a.ext = true; a.plen = 0; break;
    }
    return a;
}
// sizes around every packet boundary, every header and adaptation field
static void sizes(int from, int to) {
    Case c; c.mux.first = mc::choose(2, "first counter") * 15; c.psi();
    int n = from + mc::choose(to - from, "size"); bool sized = mc::flip("length given");
    int head = mc::choose(7, "PES header"); if (head >= 5) c.untimed.insert({0, 0});
    Unit v = c.video(n, true, 90000, 93600); v.sized = sized; v.head = head; v.ad = adapt(); c.add(c.ts(v));
    c.add(c.ts(c.video(3, false, 97200, 97200)));
    whole(c, "sizes");
}
static void audio_sizes(int from, int to) {
    Case c; c.psi(); int n = from + mc::choose(to - from, "size"), k = 1 + mc::choose(3, "frames");
    Unit a = c.audio(n, k, 900); a.head = mc::choose(7, "PES header"); if (a.head >= 5) c.untimed.insert({1, 0}); a.sized = mc::flip("length given"); a.ad = adapt(); c.add(c.ts(a));
    c.add(c.ts(c.audio(2, 1, 1800)));
    whole(c, "audio sizes");
}
static void large() {
    static const int sz[] = {65500, 65515, 65516, 65517, 65518, 65520, 65535, 65536, 65537, 70000, 131072, 200000, 1000000};
    Case c; c.psi();
    Unit v = c.video(mc::pick(sz, "size"), true, 90000, 90000); v.sized = mc::flip("length given"); c.add(c.ts(v));
    c.add(c.ts(c.video(3, false, 97200, 97200)));
    whole(c, "large");
}
static void times_() {
    static const int64_t t[] = {0, 1, 89, 90, 0x7fff, 0x8000, 0x3fffffff, 0x40000000, 0x1ffffffff, 0x155555555};
    Case c; c.psi();
    int64_t d = mc::pick(t, "dts"), p = mc::pick(t, "pts");
    Unit v = c.video(10, true, d, p); v.head = mc::choose(5, "PES header"); c.add(c.ts(v));
    c.add(c.ts(c.audio(10, 1, d)));
    c.add(c.ts(c.video(3, false, 90, 90))); c.add(c.ts(c.audio(10, 1, 90)));
    whole(c, "times");
}
// packets of the two streams and of the tables merged in every order
static void merges(int nv, int na) {
    Case c; std::vector<S> v, a, t;
    c.psi();
    for (int i = 0; i < nv; ++i) for (auto& p : c.ts(c.video(i == 0 ? 200 : 5, i == 0, 90 * (10 + i), 90 * (12 + i)))) v.push_back(p);
    for (int i = 0; i < na; ++i) for (auto& p : c.ts(c.audio(i == 0 ? 190 : 5, 1, 90 * (10 + i)))) a.push_back(p);
    switch (mc::choose(5, "third")) {
        case 0: t = {Mux::null()}; break;
        case 1: t = {c.mux.idle(VID)}; break;
        case 2: t = {c.mux.psi(0, Mux::pat({{1, PMT}})), c.mux.psi(PMT, Mux::pmt(VID, {{0x1b, VID, ""}, {0x0f, AUD, ""}}))}; break;
        case 3: t = {c.mux.psi(0x11, Mux::sdt()), packet(0x1abc, true, 3, "", false, S("\0\0\1\xe0\0\0\x80\0\0", 9) + S(175, 'x'))}; break;
        case 4: t = {c.mux.idle(0), c.mux.idle(PMT)}; break;
    }
    size_t i = 0, j = 0, k = 0;
    while (i < v.size() || j < a.size() || k < t.size()) {
        std::vector<int> can; if (i < v.size()) can.push_back(0); if (j < a.size()) can.push_back(1); if (k < t.size()) can.push_back(2);
        int w = can[mc::choose((int) can.size(), "stream")];
        // an idle packet repeats the counter before it
        if (w == 2 && t[k].size() && (t[k][3] & 0x30) == 0x20 && ((t[k][1] & 0x1f) << 8 | (uint8_t) t[k][2]) == VID) t[k][3] = (char) (0x20 | ((i ? v[i - 1][3] : 15) & 15));
        c.pk.push_back(w == 0 ? v[i++] : w == 1 ? a[j++] : t[k++]);
    }
    whole(c, "merges");
}
static const S NIT = Mux::section(0x40, 1, S("\xf0\x08\x40\x06mynet1\xf0\x0c\x00\x01\x0f\xff\xf0\x06\x41\x04\x00\x01\x01\x00", 24));
// program tables in every legal form
static void tables() {
    Case c; Mux& m = c.mux;
    auto none = [&] { c.pk.push_back(Mux::null()); };
    std::vector<std::pair<int, int>> progs;
    switch (mc::choose(4, "programs")) {
        case 0: progs = {{1, PMT}}; break;
        case 1: progs = {{0, 0x10}, {1, PMT}}; break;
        case 2: progs = {{1, PMT}, {0, 0x10}}; break;
        case 3: progs = {{7, PMT}}; break;
    }
    std::vector<Mux::Es> es; S d = mc::flip("descriptors") ? S("\x0a\x04" "eng\0", 6) : "";
    switch (mc::choose(6, "streams")) {
        case 5: es = {{0x00, 0x105, d}, {0x1b, VID, ""}, {0x0f, AUD, d}}; break;
        case 0: es = {{0x1b, VID, d}, {0x0f, AUD, d}}; break;
        case 1: es = {{0x0f, AUD, d}, {0x1b, VID, d}}; break;
        case 2: es = {{0x06, 0x102, d}, {0x1b, VID, ""}, {0x81, 0x103, ""}, {0x0f, AUD, d}}; break;
        case 3: es = {{0x1b, VID, ""}, {0x0f, AUD, ""}, {0x15, 0x104, d}}; break;
        case 4: es = {{0x1b, VID, d}, {0x0f, AUD, ""}}; break;
    }
    static const int ptr[] = {0, 1, 60};
    int p1 = mc::pick(ptr, "PAT pointer"), p2 = mc::pick(ptr, "PMT pointer");
    Adapt ad; switch (mc::choose(3, "adaptation")) { case 1: ad.stuff = 20; break; case 2: ad.pcr = ad.priv = true; break; }
    static const S infos[] = {"", "\x05\x04HDMV", S("\x05\x04HDMV") + "\x0f\x2e" + S(46, 'z'), S("\x0f\x7f") + S(127, 'z')};
    S info = mc::pick(infos, "program info");
    { size_t n = 1 + p2 + 16 + info.size() + (ad.any() ? 1 + ad.bytes().size() : 0); for (auto& e : es) n += 5 + e.desc.size(); if (n > 184) return; }   // tables that take two packets are not read
    if (mc::flip("idle first")) { c.pk.push_back(m.idle(0)); none(); }
    S pat = m.psi(0, Mux::pat(progs), p1, ad), pmt_ = Mux::pmt(mc::flip("pcr elsewhere") ? 0x1ff : VID, es, info, progs[0].first ? progs[0].first : 1), pmt = m.psi(PMT, pmt_, p2, ad);
    int order = mc::choose(3, "order");
    if (order == 1) c.pk.push_back(pmt);                 // not announced yet: nothing
    c.pk.push_back(pat); if (order == 2) { c.pk.push_back(m.idle(PMT)); c.pk.push_back(m.psi(0x10, NIT)); }
    if (order == 1) m.cc[PMT] = 1;
    c.pk.push_back(pmt);
    auto frame = c.ts(c.video(300, true, 900, 900));
    if (order != 1) frame.insert(frame.begin() + 1, m.psi(PMT, pmt_, p2));      // repeated within a frame
    if (mc::flip("priority")) for (auto& p : frame) p[1] |= 0x20;
    c.add(frame); c.add(c.ts(c.audio(20, 1, 900)));
    if (order == 2) { c.pk.push_back(m.psi(0x10, NIT)); c.pk.push_back(m.psi(0, Mux::pat(progs), p1)); }
    c.add(c.ts(c.video(3, false, 1800, 1800))); c.add(c.ts(c.audio(5, 1, 1800)));
    whole(c, "tables");
}
static Case sample(int units) {
    Case c; c.psi();
    for (int i = 0; i < units; ++i) { c.add(c.ts(c.video(i % 2 ? 5 : 400, i == 0, 90 * (100 + i), 90 * (102 + i)))); c.add(c.ts(c.audio(i % 2 ? 5 : 200, 1 + i % 2, 90 * (100 + i)))); }
    return c;
}
// a publisher is joined at any packet
static void join() {
    Case c; c.mux.first = mc::choose(16, "first counter");
    Case full; full.mux.first = c.mux.first; full.psi();
    std::vector<S> head = full.pk; full.pk.clear();
    auto unit = [&](const Unit& u) { full.add(full.ts(u)); };
    unit(full.video(600, true, 900, 900)); size_t n = full.pk.size();
    int skip = mc::choose((int) n, "packets missed");
    Case rest; rest.mux = full.mux; rest.pk = head; rest.pk.insert(rest.pk.end(), full.pk.begin() + skip, full.pk.end());
    if (skip == 0) rest.want[0] = full.want[0];
    rest.add(rest.ts(rest.video(300, true, 1800, 1800))); rest.add(rest.ts(rest.audio(30, 1, 1800)));
    rest.add(rest.ts(rest.video(3, false, 2700, 2700))); rest.add(rest.ts(rest.audio(3, 1, 2700)));
    whole(rest, "join");
}
// a unit that lost packets is never passed on as if it were whole
static void loss() {
    Case c = sample(mc::tier ? 6 : 4); int from = 2 + mc::choose((int) c.pk.size() - 2, "lost packet"), n = 1 + mc::choose(mc::tier ? 12 : 5, "how many");
    Case l = c; for (int i = 0; i < n && from < (int) l.pk.size(); ++i) l.pk.erase(l.pk.begin() + from);
    auto r = demux(l.bytes()); mc::state(mc::hash_str(l.bytes()));
    MC_CHECK(r.end == END, "loss of %d packets at %d: refused with %d", n, from, r.end);
    for (int k = 0; k < 2; ++k) {
        struct U { bool all = true, first = true; }; std::vector<U> us;
        for (int i = 0; i < (int) c.pk.size(); ++i) {
            auto& p = c.pk[i]; if ((((p[1] & 0x1f) << 8) | (uint8_t) p[2]) != (k ? AUD : VID)) continue;
            bool lost = i >= from && i < from + n; if (p[1] & 0x40) { us.emplace_back(); us.back().first = !lost; } if (lost) us.back().all = false;
        }
        if (us.size() != c.want[k].size()) mc::broken("units");
        std::vector<Out> g; for (auto& o : r.got[k]) if (!(k && o.type == AV_AUDIO_TYPE_SEQUENCE_HEADER)) g.push_back(o);
        size_t at = 0;
        for (size_t i = 0; i < us.size(); ++i) {
            if (!us[i].all) continue;
            std::vector<Out> w; for (auto& o : c.want[k][i]) if (!(k && o.type == AV_AUDIO_TYPE_SEQUENCE_HEADER)) w.push_back(o);
            bool sure = i + 1 < us.size() && us[i + 1].first, there = at + w.size() <= g.size() && std::equal(w.begin(), w.end(), g.begin() + at);
            MC_CHECK(there || !sure, "loss of %d packets at %d: %s unit %zu, which lost nothing, is missing", n, from, k ? "audio" : "video", i);
            if (there) at += w.size();
        }
        MC_CHECK(at == g.size(), "loss of %d packets at %d: packet %s is in no frame that arrived whole", n, from, at < g.size() ? show(g[at]).substr(0, 200).c_str() : "");
    }
    mc::validated(); mc::nontrivial();
}
static void cuts() {                       // reads return what they like; the stream ends anywhere
    Case c = sample(2); S in = c.bytes();
    static const int seg[] = {1, 7, 187, 188, 189, 1316}; int a = mc::pick(seg, "segment"), b = mc::pick(seg, "segment");
    int n = 0; auto cut = [&](size_t) { return (size_t) (n++ % 2 ? a : b); };
    if (!mc::flip("truncated")) { whole(c, "cuts", cut); return; }
    size_t len = mc::choose((int) in.size(), "length"); in.resize(len); mc::state(mc::hash_bytes(&len, sizeof len, a * 2000 + b));
    auto r = demux(in, cut);
    MC_CHECK(r.end == END, "truncated at %zu: error %d", len, r.end);
    // exactly the units followed by another start of the same stream
    size_t starts[2] = {0, 0};
    for (size_t i = 0; i + 188 <= len; i += 188) { int pid = ((in[i + 1] & 0x1f) << 8) | (uint8_t) in[i + 2]; if (in[i + 1] & 0x40) { if (pid == VID) ++starts[0]; if (pid == AUD) ++starts[1]; } }
    Case t; for (int s = 0; s < 2; ++s) t.want[s].assign(c.want[s].begin(), c.want[s].begin() + starts[s]);
    compare(t, r, "truncated");
}
// anything else ends in an error, never outside of the data
static void bytes(bool all) {
    static Case c = [] { Case k; k.psi(); Unit u = k.video(200, true, 900, 1800); u.head = 4; u.ad.pcr = u.ad.priv = u.ad.ext = true; k.add(k.ts(u)); u = k.audio(5, 1, 900); u.head = 3; k.add(k.ts(u)); k.add(k.ts(k.video(5, false, 1800, 1800))); k.add(k.ts(k.audio(5, 1, 1800))); return k; }();
    S in = c.bytes(); std::vector<int> pos;
    for (size_t i = 0; i < in.size(); ++i) if ((uint8_t) in[i] != 0xff || (i && (uint8_t) in[i - 1] != 0xff)) pos.push_back((int) i);
    static const int few[] = {0, 1, 2, 0x40, 0x47, 0x7f, 0x80, 0xb0, 0xff};
    int at = pos[mc::choose((int) pos.size(), "position")], v = all ? mc::choose(256, "byte") : mc::pick(few, "byte");
    in[at] = (char) v; mc::state(mc::hash_str(in));
    auto r = demux(in); size_t n = 0; for (auto& g : r.got) for (auto& o : g) n += o.data.size();
    MC_CHECK(n <= in.size() + 64, "byte %d = %02x: %zu bytes out of %zu", at, v, n, in.size());
    if (r.end != END) mc::nontrivial();
}
static void headers(int n) {                // every short payload behind every header
    static const int b[] = {0x00, 0x01, 0xb0, 0xe0, 0x80, 0xff, 0x0d};
    Mux m; S in; in += m.psi(0, Mux::pat({{1, PMT}})) + m.psi(PMT, Mux::pmt(VID, {{0x1b, VID, ""}, {0x0f, AUD, ""}}));
    static const int pids[] = {0, PMT, VID, 0x11}; int pid = mc::pick(pids, "pid"), alen = mc::choose(3, "adaptation");
    S pay; for (int i = 0; i < n; ++i) pay += (char) mc::pick(b, "byte");
    if (mc::flip("pes")) pay = S("\0\0\1\xe0", 4) + pay;
    S p = "\x47" + be(0x4000 | pid, 2) + (char) (0x30 | m.next(pid));
    int a = 188 - 5 - (int) pay.size(); if (alen == 1) a += 3; if (alen == 2) a = 0;
    p += (char) a; p += S(std::max(0, (int) (188 - p.size() - pay.size())), '\0'); p += pay;
    in += p; mc::state(mc::hash_str(in));
    demux(in); mc::nontrivial();
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (S(argv[i]) == "--tier" && S(argv[i + 1]) == "thorough") mc::tier = 1;
    bool T = mc::tier;
    return mc::run(argc, argv, "C17", {
        {"sizes", S("video units of every size ") + (T ? "1..600" : "100..380") + " x length given or not x 7 PES headers x 10 adaptation fields x 2 counters", [=] { if (T) sizes(1, 600); else sizes(100, 380); }, 3},
        {"audio", S("1..3 ADTS frames of every size ") + (T ? "1..400" : "100..200") + " x 7 PES headers x 10 adaptation fields", [=] { if (T) audio_sizes(1, 400); else audio_sizes(100, 200); }, 3},
        {"large", "video units of 64 kB to 1 MB around the boundaries", [] { large(); }, 2},
        {"times", "all pairs of 10 timestamps x 5 PES headers", [] { times_(); }, 2},
        {"merges", S("all orders of the packets of ") + (T ? "3 video and 3" : "2 video and 2") + " audio units, tables, idle and foreign packets", [=] { if (T) merges(3, 3); else merges(2, 2); }, 4},
        {"tables", "program tables: 4 program lists x 5 stream lists x descriptors x pointer fields x adaptation x orders", [] { tables(); }, 4},
        {"join", "joined at every packet with every counter", [] { join(); }, 2},
        {"loss", "every run of 1..5 (thorough: 12) packets lost", [] { loss(); }, 2},
        {"cuts", "two read sizes of six, ended at every byte", [] { cuts(); }, 3},
        {"bytes", T ? "every byte replaced by every value" : "every byte replaced by 9 values", [=] { bytes(T); }, 1},
        {"headers", S("every payload of ") + (T ? "7" : "5") + " of 7 bytes on every table and stream", [=] { headers(T ? 7 : 5); }, 4},
    });
}
