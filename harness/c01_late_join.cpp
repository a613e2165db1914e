// C01: what a player receives = latest headers + GOP at join + every later packet.
#include "common.hpp"
#include <sps_stream_cache.hpp>
using namespace sps;

enum Kind { SCRIPT, AHDR, VHDR, KEY, INTER, AUDIO, NKIND };
static const char* names[] = {"script", "aac-header", "avc-header", "keyframe", "interframe", "audio"};

// What a player can observe of a packet.
struct Seen {
    int kind = -1; std::string v;
    bool operator==(const Seen& o) const { return v == o.v; }
};
static Seen see(const PAVPacket& p) {
    Seen s;
    if (!p) { s.v = "null"; return s; }
    char b[160];
    snprintf(b, sizeof b, "%d/%d/%d/%d dts %lld pts %lld flags %x codec %d body ", (int) p->msg_type, (int) p->stream_type,
             (int) p->pkt_type.pkt_type, 0, (long long) p->dts, (long long) p->pts, (int) p->flags, (int) p->codecid);
    s.v = b + mc::hex(p->buffer(), p->size());
    if (p->size() > 2) s.kind = p->buffer()[2];
    return s;
}

// 0 increasing times and sizes; 1 decreasing ones, H.265; 2 equal times, other frame types (restarted encoder, broken clock);
// 3 packets of a kind that are all alike
enum { MODES = 4 };
static int stamps = 0;
static PAVPacket mk(int k, int id) {
    if (stamps == 3) id = 0;
    uint8_t b[64] = {(uint8_t) id, (uint8_t) (id >> 8), (uint8_t) k, 0x5a};
    int t = stamps == 0 ? id : stamps == 1 ? 100000 - id : 7;
    int len = 4 + (stamps == 0 ? std::min(id, 60) : stamps == 1 ? std::max(0, 30 - id) : 0);
    int codec = stamps == 1 ? H265 : H264, inter = stamps == 2 ? 0x30 : stamps == 3 ? 0x40 : 0x20;
    switch (k) {
        case SCRIPT: return AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_SUBTITLE, AVPacketType{0}, b, len, t, t);
        case AHDR:  return AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_AUDIO, AVPacketType{AV_AUDIO_TYPE_SEQUENCE_HEADER}, b, len, t, t, 0xaf, AAC);
        case VHDR:  return AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_VIDEO, AVPacketType{AV_VIDEO_TYPE_SEQUENCE_HEADER}, b, len, t, t, 0x10 | codec, codec);
        case KEY:   return AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_VIDEO, AVPacketType{AV_VIDEO_TYPE_DATA}, b, len, t, t + 2, 0x10 | codec, codec);
        case INTER: return AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_VIDEO, AVPacketType{AV_VIDEO_TYPE_DATA}, b, len, t, t + 1, inter | codec, codec);
        default:    return AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_AUDIO, AVPacketType{AV_AUDIO_TYPE_SEQUENCE_DATA}, b, len, t, t, 0xaf, AAC);
    }
}

struct Model {   // one stream
    Seen script, ahdr, vhdr;
    std::vector<Seen> gop;
    void put(int k, const Seen& p) {
        if (k == SCRIPT) script = p;
        else if (k == AHDR) ahdr = p;
        else if (k == VHDR) vhdr = p;
        else if (k == KEY) { gop.clear(); gop.push_back(p); }
        else if (!gop.empty()) gop.push_back(p);
    }
    std::vector<Seen> snapshot() {
        std::vector<Seen> v;
        if (script.kind >= 0) v.push_back(script);
        if (ahdr.kind >= 0) v.push_back(ahdr);
        if (vhdr.kind >= 0) v.push_back(vhdr);
        v.insert(v.end(), gop.begin(), gop.end());
        return v;
    }
};
struct Client { PAVDumpCacheStream c; std::vector<Seen> expect; int stream = 0; };

static std::string show(const std::vector<Seen>& v) {
    std::string s;
    size_t n = 0;
    for (auto& p : v) { if (++n > 8) { s += "... " + std::to_string(v.size()) + " packets"; break; } s += "{" + std::string(p.kind >= 0 && p.kind < NKIND ? names[p.kind] : "?") + " " + p.v + "} "; }
    return s.empty() ? "(nothing)" : s;
}
static std::vector<Seen> seen(const std::list<PAVPacket>& l) { std::vector<Seen> v; for (auto& p : l) v.push_back(see(p)); return v; }

struct World {
    std::string url[2] = {"live.example/live/a", "live.example/live/b"};
    StreamCache::PICacheStream cs[2];
    Model m[2];
    std::vector<Client> cl;
    int id = 1, nstreams;
    explicit World(int n) : nstreams(n) {
        for (int i = 0; i < n; ++i) cs[i] = StreamCache::create_av_streamcache(url[i]);
    }
    ~World() { for (int i = 0; i < nstreams; ++i) StreamCache::release_av_streamcache(url[i]); }
    void put(int s, int k) {
        auto p = mk(k, id++);
        mc::note("publish %d:%s on stream %d", id - 1, names[k], s);
        mc::step();
        Seen v = see(p);
        StreamCache::get_streamcache(url[s])->put(p);
        m[s].put(k, v);
        for (auto& c : cl) if (c.stream == s) c.expect.push_back(v);
    }
    void join(int s) {
        mc::note("player %zu joins stream %d", cl.size(), s);
        mc::step();
        Client c;
        c.c = StreamCache::get_client_streamcache(url[s], 10 * 1000 * 1000);
        MC_CHECK(c.c != nullptr, "join of a live stream failed");
        c.expect = m[s].snapshot();
        c.stream = s;
        cl.push_back(c);
    }
    void leave(int i, bool cancel) {
        mc::note("player %d leaves (%s)", i, cancel ? "detach" : "vanish");
        mc::step();
        if (cancel) cs[cl[i].stream]->cancel(cl[i].c);
        cl.erase(cl.begin() + i);
    }
    // mid: packet kind arriving while the player is waiting for data (-1: none)
    void drain(int i, int mid = -1) {
        Client& c = cl[i];
        bool waited = false;
        fst::on_main_wait = [&](fst::usec) -> int {
            waited = true;
            if (mid >= 0) { put(c.stream, mid); return 0; }
            errno = ETIME; return -1;
        };
        std::list<PAVPacket> got;
        mc::step();
        int n = c.c->dump(got, false);
        fst::on_main_wait = nullptr;
        std::vector<Seen> g = seen(got);
        mc::note("player %d receives: %s", i, show(g).c_str());
        MC_CHECK(g == c.expect, "player %d received [%s], must receive [%s]", i, show(g).c_str(), show(c.expect).c_str());
        MC_CHECK(n == (int) g.size() , "delivery count %d differs from the %zu packets handed out", n, g.size());
        MC_CHECK(!waited || mid >= 0 || n == 0, "data although none was published");
        if (n > 0) mc::nontrivial();
        mc::validated();
        uint64_t h = 17;
        for (auto& p : g) h = mc::hash_str(p.v, h);
        mc::state(h * 131 + cl.size());
        c.expect.clear();
    }
};

static void all_joins(int depth) {   // history then join, then tail
    quiet();
    stamps = mc::choose(MODES, "shape of the packets");
    World w(1);
    int n = mc::choose(depth + 1, "history length");
    for (int i = 0; i < n; ++i) w.put(0, mc::choose(NKIND, "packet"));
    w.join(0);
    if (mc::flip("more before first read")) w.put(0, mc::choose(NKIND, "packet"));
    w.drain(0, mc::choose(NKIND + 1, "arrival while waiting") - 1);
    w.put(0, mc::choose(NKIND, "packet"));
    w.drain(0);
    w.drain(0);
}

static void mixed(int depth, int streams, int maxc) {
    quiet();
    stamps = 0;
    World w(streams);
    for (int s = 0; s < depth; ++s) {
        int nc = (int) w.cl.size();
        int njoin = nc < maxc ? streams : 0;
        int a = mc::choose(streams * NKIND + njoin + nc * 3, "action");
        if (a < streams * NKIND) { w.put(a / NKIND, a % NKIND); continue; }
        a -= streams * NKIND;
        if (a < njoin) { w.join(a); continue; }
        a -= njoin;
        int i = a / 3;
        if (a % 3 == 0) w.drain(i); else w.leave(i, a % 3 == 1);
    }
    for (size_t i = 0; i < w.cl.size(); ++i) w.drain(i);
    for (size_t i = 0; i < w.cl.size(); ++i) { w.put(w.cl[i].stream, INTER); w.put(w.cl[i].stream, KEY); }
    for (size_t i = 0; i < w.cl.size(); ++i) w.drain(i);
    // a newcomer at the end
    for (int s = 0; s < streams; ++s) { w.join(s); w.drain(w.cl.size() - 1); }
}

// republish under the same name: nothing of the former stream may leak
static void republish() {
    quiet();
    stamps = mc::choose(MODES, "shape of the packets");
    World w(1);
    int n = mc::choose(4, "first history");
    for (int i = 0; i < n; ++i) w.put(0, mc::choose(NKIND, "packet"));
    bool had = mc::flip("player on the old stream");
    if (had) w.join(0);
    mc::note("stream ends and is published again");
    StreamCache::release_av_streamcache(w.url[0]);
    MC_CHECK(StreamCache::get_streamcache(w.url[0]) == nullptr, "stream still known after release");
    MC_CHECK(StreamCache::get_client_streamcache(w.url[0], 1) == nullptr, "join of an ended stream succeeded");
    auto old = w.cs[0];
    w.cs[0] = StreamCache::create_av_streamcache(w.url[0]);
    w.m[0] = Model();
    std::vector<Client> keep; keep.swap(w.cl);
    w.join(0);
    n = mc::choose(4, "second history");
    for (int i = 0; i < n; ++i) w.put(0, mc::choose(NKIND, "packet"));
    w.drain(0);
    w.join(0);
    w.drain(1);
    if (had) {
        std::list<PAVPacket> got;
        keep[0].c->dump(got, false);
        std::vector<Seen> g = seen(got);
        MC_CHECK(g == keep[0].expect, "player of the former stream got [%s], must get [%s]", show(g).c_str(), show(keep[0].expect).c_str());
    }
}

// long GOPs, long backlogs of a player that does not read, many streams at once
static void large() {
    quiet();
    stamps = 0;
    static const int sizes[] = {1, 30, 63, 64, 65, 127, 129, 255, 257, 500, 513, 1000, 1025, 2049, 5000, 10001};
    World w(1);
    int n = mc::pick(sizes, "GOP length"), back = mc::pick(sizes, "backlog");
    w.put(0, SCRIPT); w.put(0, AHDR); w.put(0, VHDR);
    w.put(0, KEY);
    for (int i = 1; i < n; ++i) w.put(0, i % 3 ? INTER : AUDIO);
    w.join(0);
    int other = mc::choose(3, "headers in the backlog");
    for (int i = 0; i < back; ++i) w.put(0, i % 7 == 3 ? AUDIO : i % 64 == 63 ? (other == 1 ? KEY : other == 2 ? VHDR : INTER) : INTER);
    w.drain(0);
    w.put(0, INTER);
    w.drain(0);
    w.join(0);
    w.drain(1);
}
static void many_streams() {
    quiet();
    stamps = 0;
    static const int ns[] = {2, 3, 10, 63, 65, 100, 129, 257, 1000, 1025};
    int n = mc::pick(ns, "streams"), gone = mc::choose(3, "which ends");
    std::vector<std::string> url;
    for (int i = 0; i < n; ++i) { url.push_back("h/live/" + std::to_string(i)); StreamCache::create_av_streamcache(url[i]); }
    int dead = gone == 0 ? -1 : gone == 1 ? 0 : n - 1;
    if (dead >= 0) StreamCache::release_av_streamcache(url[dead]);
    std::vector<std::vector<Seen>> want(n);
    for (int i = 0; i < n; ++i) {
        auto c = StreamCache::get_streamcache(url[i]);
        mc::step();
        MC_CHECK((c != nullptr) == (i != dead), "stream %d of %d is %s", i, n, c ? "still there after its end" : "not found");
        if (!c) continue;
        auto p = mk(KEY, i), q = mk(INTER, i + 20000);
        want[i] = {see(p), see(q)};
        c->put(p); c->put(q);
    }
    for (int i = 0; i < n; ++i) {
        auto c = StreamCache::get_client_streamcache(url[i], 1000);
        MC_CHECK((c != nullptr) == (i != dead), "join of stream %d of %d", i, n);
        if (!c) continue;
        std::list<PAVPacket> got; c->dump(got, false);
        auto g = seen(got);
        MC_CHECK(g == want[i], "player of stream %d of %d received [%s], must receive [%s]", i, n, show(g).c_str(), show(want[i]).c_str());
        mc::validated(); mc::nontrivial();
    }
    mc::state(n * 8 + gone);
    for (auto& u : url) StreamCache::release_av_streamcache(u);
}

int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C01", {
        {"join-after-history", t ? "all histories of <=6 packets of 6 kinds, join, packet before/while/after the first read"
                                 : "all histories of <=4 packets of 6 kinds, join, packet before/while/after the first read",
         [t] { all_joins(t ? 6 : 4); }},
        {"one-stream-mixed", t ? "all 7-step mixes of publish/join/read/detach/vanish, 2 players" : "all 6-step mixes of publish/join/read/detach/vanish, 2 players",
         [t] { mixed(t ? 7 : 6, 1, 2); }},
        {"two-streams-mixed", "all mixes over 2 streams and 2 players", [t] { mixed(t ? 5 : 4, 2, 2); }},
        {"large", "every pair of GOP length and player backlog from 16 values up to 10001 packets, three mixes", large, 2},
        {"many-streams", "up to 1025 streams at once, with none, the first or the last ended", many_streams, 1},
        {"republish", "all <=3-packet histories of the old and of the new stream", [] { republish(); }},
    });
}
