// C30: what is published over RTMP is what RTMP and HTTP players of that name receive, and the other way round.
#include "stack.hpp"
#include <sps_avformat_rtmpdec.hpp>
#include <sps_avformat_rtmpenc.hpp>
#include <sps_rtmp_module.hpp>
using namespace stack;
typedef std::string S;
static const fst::usec MS = 1000;
static const char* SETUP =
    "globalhost {\nhost a.com {\nrole source;\ntype stream;\nedge_avformat all;\n}\n"
    "host b.com {\nrole source;\ntype stream;\nedge_avformat all;\n}\n"
    "host 127.0.0.1 {\nrole source;\ntype stream;\nedge_avformat all;\n}\n"
    "host e.com {\nrole edge;\ntype stream;\nedge_avformat all;\npass_proxy 127.0.0.1:1935;\n}\n"
    "host g.com {\nrole edge;\ntype stream;\nedge_avformat all;\npass_proxy 127.0.0.1:1935;\npass_url rtmp://127.0.0.1/live/x;\n}\n}\n"
    "http {\nserver s {\nlisten_port 80;\nrecv_timeout 20000000;\nsend_timeout 20000000;\n}\n}\n"
    "rtmp {\nserver r {\nlisten_port 1935;\nrecv_timeout 10000000;\nsend_timeout 5000000;\n}\n}\n";
static void init() {
    quiet(); fst::set_delay_bound(0);
    reg_all();
    SingleInstance<AVDemuxerFactory>::get_instance().reg(std::make_shared<RtmpAVInputFormat>());
    SingleInstance<AVEncoderFactory>::get_instance().reg(std::make_shared<RtmpAVOutputFormat>());
    SingleInstance<UrlProtocol>::get_instance().reg(std::make_shared<RtmpURLProtocolFactory>());
    auto& m = SingleInstance<ModuleFactoryRegister>::get_instance();
    auto f = std::make_shared<RtmpModuleFactory>(); m.reg(f->module, f);
    boot(SETUP);
}
static void wait(fst::usec t = 5 * MS) { fst::run(fst::now() + t); }

static void pass(fst::usec t) { fst::spawn("clock", [t] { fst::sleep(t); }); fst::run(fst::now() + t); }    // time passes although nothing is due

// ---- AMF 0 and chunks, written independently of the code under test
static S num(double d) { uint64_t u; memcpy(&u, &d, 8); return S(1, '\0') + be(u, 8); }
static S str(const S& s) { return S("\2") + be(s.size(), 2) + s; }
static S prop(const S& k, const S& v) { return be(k.size(), 2) + k + v; }
static S obj(const S& members) { return S("\3") + members + S("\0\0\x09", 3); }
static const S NUL = "\5";
static S le(uint32_t v) { S s; for (int i = 0; i < 4; ++i) s += (char) (v >> (8 * i)); return s; }
struct Msg { int type = 0; uint32_t ts = 0; S body; uint32_t sid = 0; int cid = 3; };

struct Chunker {                       // what a client sends
    size_t size = 128;
    struct St { bool any = false; uint32_t ts = 0, len = 0, type = 0, sid = 0, delta = 0; bool delta_ok = false; bool ext = false; };
    std::map<int, St> st;
    static S basic(int fmt, int cid, int form) {
        S s; if (form == 0 && cid < 64) s += (char) (fmt << 6 | cid);
        else if (cid < 320 && form < 2) { s += (char) (fmt << 6); s += (char) (cid - 64); }
        else { s += (char) (fmt << 6 | 1); s += (char) ((cid - 64) & 255); s += (char) ((cid - 64) >> 8); }
        return s;
    }
    // chunks of a message with the smallest header allowed (want: at most this small)
    std::vector<S> cut(const Msg& m, int want = 0, int form = 0) {
        St& c = st[m.cid]; uint32_t delta = m.ts - c.ts;
        int fmt = 0;
        if (c.any && c.sid == m.sid && m.ts >= c.ts && want >= 1) {
            fmt = 1;
            if (want >= 2 && c.len == m.body.size() && c.type == (uint32_t) m.type) { fmt = 2; if (want >= 3 && c.delta_ok && c.delta == delta) fmt = 3; }
        }
        uint32_t t = fmt == 0 ? m.ts : delta; bool ext = t >= 0xffffff; S h;
        if (fmt <= 2) h += be(ext ? 0xffffff : t, 3);
        if (fmt <= 1) { h += be(m.body.size(), 3); h += (char) m.type; }
        if (fmt == 0) h += le(m.sid);
        if (ext) h += be(t, 4);
        c.delta_ok = fmt != 0; c.delta = delta; c.any = true; c.ts = m.ts; c.len = m.body.size(); c.type = m.type; c.sid = m.sid; c.ext = ext;
        std::vector<S> out; size_t at = 0;
        do {
            size_t n = std::min(size, m.body.size() - at);
            out.push_back((at ? basic(3, m.cid, form) + (ext ? be(t, 4) : "") : basic(fmt, m.cid, form) + h) + m.body.substr(at, n)); at += n;
        } while (at < m.body.size());
        return out;
    }
    S all(const Msg& m, int want = 0, int form = 0) { S s; for (auto& c : cut(m, want, form)) s += c; return s; }
};
struct Dechunker {                     // what a client reads
    S buf; size_t size = 128; S bad;
    struct St { uint32_t ts = 0, field = 0, len = 0; int type = 0; uint32_t sid = 0; S body; bool any = false; };
    std::map<int, St> st;
    bool step(std::vector<Msg>& out) {
        size_t at = 0; auto need = [&](size_t n) { return buf.size() - at >= n; };
        auto u = [&](size_t n) { uint32_t v = 0; for (size_t i = 0; i < n; ++i) v = v << 8 | (uint8_t) buf[at + i]; at += n; return v; };
        if (!bad.empty() || !need(1)) return false;
        int b = u(1), fmt = b >> 6, cid = b & 63;
        if (cid == 0) { if (!need(1)) return false; cid = u(1) + 64; } else if (cid == 1) { if (!need(2)) return false; cid = u(1) + 64; cid += u(1) * 256; }
        St& c0 = st[cid]; St c = c0; bool fresh = c.body.empty();
        if (!fresh && fmt != 3) { bad = "a message starts inside another"; return false; }
        if (fmt != 0 && !c.any) { bad = "a first chunk without header"; return false; }
        static const size_t len[] = {11, 7, 3, 0};
        if (!need(len[fmt])) return false;
        if (fmt <= 2) c.field = u(3);
        if (fmt <= 1) { c.len = u(3); c.type = u(1); }
        if (fmt == 0) { c.sid = 0; for (int i = 0; i < 4; ++i) c.sid |= u(1) << (8 * i); }
        uint32_t t = c.field; if (c.field == 0xffffff) { if (!need(4)) return false; t = u(4); }
        if (fresh) c.ts = fmt == 0 ? t : c.ts + t;
        size_t n = std::min(size, c.len - c.body.size());
        if (!need(n)) return false;
        c.body += buf.substr(at, n); at += n; c.any = true;
        if (c.body.size() == c.len) {
            Msg m; m.type = c.type; m.ts = c.ts; m.body = c.body; m.sid = c.sid; m.cid = cid; out.push_back(m); c.body.clear();
            if (m.type == 1) { if (m.body.size() != 4) { bad = "chunk size message"; return false; } size = 0; for (char x : m.body) size = size << 8 | (uint8_t) x; }
        }
        c0 = c; buf.erase(0, at); return true;
    }
};
struct Client {
    Peer p; S key; Chunker out; Dechunker in; std::vector<Msg> got; size_t seen = 0; bool shaken = false, lenient = false; S s1;
    S c1 = be(0x01020304, 4) + be(0, 4) + S(1528, 'c');
    S pending;                          // bytes not yet handed to the network
    bool eof() { p.poll(); return p.eof; }
    void read() {
        p.poll(); S s = p.got.substr(seen); seen = p.got.size(); in.buf += s;
        if (!shaken) {
            if (in.buf.size() < 3073) return;
            MC_CHECK(in.buf[0] == 3, "handshake of version %d", in.buf[0]);
            MC_CHECK(in.buf.compare(1537, 1536, c1) == 0, "S2 is not C1");
            s1 = in.buf.substr(1, 1536); in.buf.erase(0, 3073); shaken = true;
        }
        while (in.step(got)) ;
        MC_CHECK(lenient || in.bad.empty(), "malformed chunks: %s", in.bad.c_str());
    }
    void say(const S& s) { p.send(s); wait(); }
    void shake() { p.dial(1935); say(S("\3") + c1); read(); MC_CHECK(shaken, "no handshake"); say(s1); }
};
static Msg cmd(double, const S& body, uint32_t sid = 0) { Msg m; m.type = 20; m.body = body; m.sid = sid; m.cid = 3; return m; }
static Msg connect(const S& app, const S& url, double t = 1) { return cmd(0, str("connect") + num(t) + obj(prop("app", str(app)) + prop("flashVer", str("v")) + prop("tcUrl", str(url)))); }
static Msg create(double t) { return cmd(0, str("createStream") + num(t) + NUL); }
static Msg play(const S& name, double t) { auto m = cmd(0, str("play") + num(t) + NUL + str(name), 1); m.cid = 8; return m; }
static Msg publish(const S& name, double t) { auto m = cmd(0, str("publish") + num(t) + NUL + str(name) + str("live"), 1); m.cid = 8; return m; }
static Msg ctl(int type, const S& body) { Msg m; m.type = type; m.body = body; m.cid = 2; return m; }
static Msg wrap(const FlvPkt& f, int channels = 0) { Msg m; m.type = f.tag; m.ts = f.dts; m.body = f.data(); m.sid = 1; m.cid = channels ? (f.tag == 9 ? 6 : 4) : 4; return m; }
static S result(double t, const S& rest) { return str("_result") + num(t) + rest; }

struct Source { std::vector<FlvPkt> v; std::vector<int> kinds; bool ended = false; };
// a started player or publisher: the answers the protocol prescribes
static void answers(Client& c, bool pub, double base) {
    c.read(); size_t i = 0;
    auto next = [&](const char* what) -> Msg& { MC_CHECK(i < c.got.size(), "no %s", what); return c.got[i++]; };
    bool ack = false, bw = false, conn = false;
    while (!conn) { auto& m = next("answer to connect"); if (m.type == 5) { ack = true; MC_CHECK(m.body.size() == 4, "window"); } else if (m.type == 6) { bw = true; MC_CHECK(m.body.size() == 5, "bandwidth"); } else if (m.type == 20) { MC_CHECK(m.body.compare(0, result(base, "").size(), result(base, "")) == 0 && m.body.find("NetConnection.Connect.Success") != S::npos, "connect is answered otherwise"); conn = true; } else MC_CHECK(m.type == 1, "message %d before the answer to connect", m.type); }
    MC_CHECK(ack && bw, "no window size or bandwidth");
    if (pub) for (int k = 1; k <= 2; ++k) { auto& m = next("answer to releaseStream or FCPublish"); MC_CHECK(m.type == 20 && m.body.compare(0, result(base + k, "").size(), result(base + k, "")) == 0, "releaseStream or FCPublish is answered otherwise"); }
    auto& cs = next("answer to createStream");
    MC_CHECK(cs.type == 20 && cs.body == result(base + 3, NUL + num(1)), "createStream is answered otherwise");
    auto& st = next("answer to publish or play");
    MC_CHECK(st.type == 20 && st.body.compare(0, str("onStatus").size(), str("onStatus")) == 0 && st.body.find(pub ? "NetStream.Publish.Start" : "NetStream.Play.Start") != S::npos, "publish or play is answered otherwise");
    if (!pub) { auto& m = next("access"); MC_CHECK(m.type == 18, "no access message"); }
    auto& sb = next("stream begin"); MC_CHECK(sb.type == 4 && sb.body == be(0, 2) + be(1, 4), "stream begin is missing");
    c.got.erase(c.got.begin(), c.got.begin() + i);
}
static std::vector<Msg> opening(bool pub, const S& url, const S& app, const S& name, double base = 1) {
    std::vector<Msg> v = {connect(app, url, base)};
    if (pub) { v.push_back(cmd(0, str("releaseStream") + num(base + 1) + NUL + str(name))); v.push_back(cmd(0, str("FCPublish") + num(base + 2) + NUL + str(name))); }
    v.push_back(create(base + 3)); v.push_back(pub ? publish(name, base + 4) : play(name, base + 4));
    return v;
}
static void start(Client& c, bool pub, const S& name, const S& host = "a.com", const S& app = "live") {
    c.shake(); for (auto& m : opening(pub, "rtmp://" + host + "/" + app, app, name)) c.say(c.out.all(m));
    answers(c, pub, 1);
}
struct HttpPlay { Peer p; Source* src; size_t lo, hi = 0; bool over = false; };
struct RtmpPlay { Client c; Source* src; size_t lo, hi = 0; bool over = false; };
static void check(HttpPlay& h) {
    Reply r = h.p.reply();
    MC_CHECK(r.bad.empty() && r.head && r.status == 200, "HTTP player of an RTMP stream got %d %s", r.status, r.bad.c_str());
    S want = flv_bytes(view(h.src->v, h.src->kinds, h.lo, h.over ? h.hi : h.src->v.size()));
    MC_CHECK(r.body == want, "HTTP player received %zu bytes that are not the %zu bytes published", r.body.size(), want.size());
    mc::validated();
}
static void check(RtmpPlay& r) {
    r.c.read();
    auto want = view(r.src->v, r.src->kinds, r.lo, r.over ? r.hi : r.src->v.size());
    std::vector<Msg> got; for (auto& m : r.c.got) if (m.type != 3) got.push_back(m);
    if (r.c.p.eof && !got.empty() && got.back().type == 20 && got.back().body.compare(0, 15, str("deleteStream")) == 0) got.pop_back();   // librtmp's goodbye
    for (size_t i = 0; i < want.size() && i < got.size(); ++i) {
        auto& g = got[i]; auto& w = want[i];
        MC_CHECK(g.type == w.tag && g.sid == 1, "message %zu: type %d on stream %u instead of %d on 1", i, g.type, g.sid, w.tag);
        MC_CHECK(g.ts == w.dts, "message %zu: time %u instead of %u", i, g.ts, w.dts);
        MC_CHECK(g.body == w.data(), "message %zu (%s): %zu bytes %s that are not the %zu bytes %s published", i, w.str().c_str(), g.body.size(), mc::quote(g.body.substr(0, 12)).c_str(), w.data().size(), mc::quote(w.data().substr(0, 12)).c_str());
    }
    MC_CHECK(got.size() == want.size(), "RTMP player received %zu messages instead of %zu (the last: type %d, %s)", got.size(), want.size(), got.empty() ? -1 : got.back().type, got.empty() ? "" : mc::quote(got.back().body.substr(0, 60)).c_str());
    mc::validated();
}
static void join_http(HttpPlay& h, Source& s, const S& target = "/live/x.flv", const S& host = "a.com") { h.src = &s; h.lo = s.v.size(); h.p.dial(80); h.p.send(get(host, target)); wait(); }
static void join_rtmp(RtmpPlay& r, Source& s, const S& name = "x", const S& host = "a.com") { r.src = &s; r.lo = s.v.size(); start(r.c, false, name, host); }
static void begin() { quiet(); fst::reset(); fst::set_delay_bound(0); }
static void over(std::vector<Peer*> ps) {
    for (auto p : ps) if (p->e) p->close();
    wait(25000 * MS);
    MC_CHECK(fst::alive() == 0, "connections are gone but coroutines are not: %s", fst::stuck().c_str());
    MC_CHECK(fst::open_fds() == 0, "%d connections leaked", fst::open_fds());
    for (auto n : {"a.com/live/x", "a.com/live/y", "b.com/live/x"}) MC_CHECK(!StreamCache::get_streamcache(n), "stream %s outlives its publisher", n);
    mc::nontrivial();
}
static void emit(Client& c, Source& s, const FlvPkt& f, int kind, int want = 0) { s.v.push_back(f); s.kinds.push_back(kind); c.say(c.out.all(wrap(f), want)); }

// every sequence of media, joined at every place
static void sequences(int n) {
    begin();
    bool over_http = mc::flip("published over HTTP"); Source s; Client c; Peer hp;
    if (over_http) { hp.dial(80); hp.send(post("a.com", "/live/x.flv", "Transfer-Encoding: chunked\r\n")); hp.send(chunk(flv_header())); wait(); } else start(c, true, "x");
    int at = mc::choose(n, "join after"); HttpPlay h; RtmpPlay r; bool joined = false; uint32_t prev = 0;
    for (int i = 0; i <= n; ++i) {
        if (i == at) { join_rtmp(r, s); join_http(h, s); joined = true; check(r); }
        if (i == n) break;
        int k = mc::choose(NKIND, "kind"); mc::step(); FlvPkt f = media(k, i + 1);
        if (over_http) { s.v.push_back(f); s.kinds.push_back(k); S t = f.tagbytes(); hp.send(chunk(be(prev, 4) + t)); prev = t.size(); wait(); } else emit(c, s, f, k, 3);
        if (joined) { check(r); }
    }
    check(h); mc::state(mc::hash_str(flv_bytes(s.v), at * 2 + over_http));
    over({&c.p, &hp, &h.p, &r.c.p});
}
// times, sizes and offsets at every limit
static void values(bool full) {
    begin();
    Source s; Client c; start(c, true, "x"); HttpPlay h; RtmpPlay r; join_http(h, s); join_rtmp(r, s);
    static const uint32_t times[] = {0, 1, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff}; static const int32_t ctss[] = {0, 1, 0x0f, 0xf0, 0xf00, 0x1234, 8388607, -1, -40, -8388608};
    static const size_t sizes[] = {1, 122, 123, 124, 127, 128, 250, 251, 252, 4096, 70000};
    static const size_t chunks[] = {1, 127, 128, 129, 4096, 100000, 0x7fffffff};
    size_t cs = mc::pick(chunks, "chunk size"); if (cs != 128) { c.say(c.out.all(ctl(1, be(cs, 4)))); c.out.size = cs; }
    for (int i = 0; i < 2; ++i) {
        FlvPkt f = media(i ? INTER : KEY, 1); f.dts = (i ? s.v.back().dts : 0) + mc::pick(times, "time"); if (f.dts > 0x7fffffff) { f.dts = 0x7fffffff; }
        int z = mc::choose(i ? 3 : 11, "size"), o = !i && z > (full ? 2 : 0) ? 9 : mc::choose(i ? 2 : 10, "offset");
        if (i && z) z += 6; f.cts = ctss[o]; if (i && o) f.cts = -f.dts > -8388608 ? -(int32_t) f.dts : -5;
        if ((int64_t) f.dts + f.cts < 0) f.cts = 0;
        f.body = S(sizes[z], 'v'); for (size_t q = 0; q < f.body.size(); q += 7) f.body[q] = (char) (q >> 3);
        emit(c, s, f, i ? INTER : KEY, mc::choose(i ? 4 : 1, "header"));
    }
    { FlvPkt f = media(AUDIO, 9); f.dts = s.v.back().dts; if (full) f.flags = mc::flip("mono") ? 0xa2 : 0xaf; emit(c, s, f, AUDIO, 0); }
    check(h); check(r); mc::state(mc::hash_str(flv_bytes(s.v), cs));
    over({&c.p, &h.p, &r.c.p});
}
// a stream that has been running for long: times beyond 24 bits in every header form
static void late(int n) {
    begin(); Source s; Client c; start(c, true, "x"); HttpPlay h; RtmpPlay r; join_http(h, s); join_rtmp(r, s);
    static const uint32_t from[] = {0xfffff0, 0x1000000, 0x7ffffe00}; static const uint32_t by[] = {0, 40};
    uint32_t t = mc::pick(from, "begins at");
    for (int i = 0; i < n; ++i) {
        int k = mc::flip("audio") ? AUDIO : INTER; FlvPkt f = media(k, i + 1); f.dts = t += mc::pick(by, "later by");
        emit(c, s, f, k, mc::choose(4, "header"));
    }
    check(h); check(r); mc::state(mc::hash_str(flv_bytes(s.v), c.p.e ? fst::now() : 0)); over({&c.p, &h.p, &r.c.p});
}
// every frame type, codec and packet type there is, over both protocols
static void forms() {
    begin(); bool over_http = mc::flip("published over HTTP"); Source s; Client c; Peer hp; uint32_t prev = 0;
    if (over_http) { hp.dial(80); hp.send(post("a.com", "/live/x.flv", "Transfer-Encoding: chunked\r\n")); hp.send(chunk(flv_header())); wait(); } else start(c, true, "x");
    HttpPlay h; RtmpPlay r; join_http(h, s); join_rtmp(r, s);
    for (int i = 0; i < 2; ++i) {
        FlvPkt f = media(INTER, i + 1); static const int vf[] = {1, 2, 3, 4, 5}; static const size_t sizes[] = {3, 0, 200};
        switch (mc::choose(4, "what")) {
            case 0: f.flags = mc::pick(vf, "frame type") << 4 | 7; f.ptype = mc::choose(3, "packet type"); break;
            case 1: f.flags = mc::pick(vf, "frame type") << 4 | 12; f.ptype = mc::choose(3, "packet type"); break;
            case 2: f = media(AUDIO, i + 1); f.flags = 0xa0 | mc::choose(16, "audio flags"); f.ptype = mc::choose(2, "packet type"); break;
            case 3: f = media(SCRIPT, i + 1); break;
        }
        size_t n = i ? 3 : mc::pick(sizes, "size"); f.body = S(n, 'f'); if (f.command()) f.cts = 0; if (f.body.empty() && (over_http || f.tag == 18 || f.command())) f.body = "0";    // an empty FLV tag is refused
        if (over_http) { s.v.push_back(f); s.kinds.push_back(INTER); S t = f.tagbytes(); hp.send(chunk(be(prev, 4) + t)); prev = t.size(); wait(); } else emit(c, s, f, INTER, 3);
        check(r); check(h);
    }
    mc::state(mc::hash_str(flv_bytes(s.v), over_http)); over({&c.p, &hp, &h.p, &r.c.p});
}
// chunks of audio and video interleaved in every way, every header form and chunk stream id, chunk size changed on the way
static void layouts(bool full) {
    begin();
    Source s; Client c; start(c, true, "x"); HttpPlay h; RtmpPlay r; join_http(h, s); join_rtmp(r, s);
    static const int ids[] = {4, 63, 64, 319, 320, 65599}; static const size_t chunks[] = {128, 40, 65};
    int va = mc::choose(6, "video chunk stream"), form = mc::choose(3, "form"), want = mc::choose(4, "header");
    if (ids[va] < 64 && form) form = 0; if (ids[va] >= 320 && form == 1) form = 2;
    size_t cs = mc::pick(chunks, "chunk size"); if (cs != 128) { c.say(c.out.all(ctl(1, be(cs, 4)))); c.out.size = cs; }
    S wire; std::vector<S> cv, ca;
    auto mk = [&](int k, int id, size_t n) { FlvPkt f = media(k, id); f.dts = 40 * id; f.body = S(n, 'a' + id); return f; };
    int rounds = full ? 3 : 2;
    for (int i = 0; i < rounds; ++i) {
        FlvPkt v = mk(i ? INTER : KEY, 2 * i + 1, 150), a = mk(AUDIO, 2 * i + 2, 90);
        Msg mv = wrap(v), ma = wrap(a); mv.cid = ids[va]; ma.cid = 5; if (mv.cid == ma.cid) ma.cid = 7;
        cv = c.out.cut(mv, want, form); ca = c.out.cut(ma, want, 0);
        size_t x = 0, y = 0; bool vdone = false, adone = false;
        while (x < cv.size() || y < ca.size()) {
            bool video = y >= ca.size() || (x < cv.size() && (i > (full ? 1 : 0) ? x == y : mc::flip("video chunk")));
            wire += video ? cv[x++] : ca[y++];
            if (x == cv.size() && !vdone) { vdone = true; s.v.push_back(v); s.kinds.push_back(i ? INTER : KEY); }
            if (y == ca.size() && !adone) { adone = true; s.v.push_back(a); s.kinds.push_back(AUDIO); }
        }
        if (i == 0) switch (mc::choose(7, "between")) {
            case 1: wire += c.out.all(ctl(1, be(200, 4))); c.out.size = 200; break;
            case 2: wire += c.out.all(ctl(4, be(3, 2) + be(1, 4) + be(3000, 4))); break;
            case 3: wire += c.out.all(ctl(5, be(100000, 4))); break;
            case 4: wire += c.out.all(ctl(3, be(12345, 4))); break;
            case 5: wire += c.out.all(ctl(6, be(100000, 4) + "\2")); break;
            case 6: { Msg m = wrap(media(AUDIO, 3)); m.body.clear(); m.cid = 9; wire += c.out.all(m); break; }      // an empty audio message is nothing
        }
    }
    c.say(wire); check(h); check(r); mc::state(mc::hash_str(wire, va));
    over({&c.p, &h.p, &r.c.p});
}
// the whole of what a publisher sends, cut where it likes; everything after the handshake may come at once
static void cuts(bool two) {
    begin();
    Source s; Client c; c.p.dial(1935); S wire;
    bool pub = mc::flip("publisher"); Client other; HttpPlay h; RtmpPlay r; bool with = false;
    int amf3 = mc::choose(2, "amf 3");
    auto ms = opening(pub, "rtmp://a.com/live", "live", "x");
    if (amf3) for (auto& m : ms) { m.type = 17; m.body = S(1, '\0') + m.body; }
    if (!pub) { start(other, true, "x"); emit(other, s, media(VHDR, 1), VHDR); emit(other, s, media(KEY, 2), KEY); }
    bool big = mc::flip("chunk size first");
    for (size_t i = 0; i < ms.size(); ++i) { wire += c.out.all(ms[i]); if (i == 0 && big) { wire += c.out.all(ctl(1, be(300, 4))); c.out.size = 300; } }
    if (pub) for (int i = 0; i < 3; ++i) { FlvPkt f = media(i == 0 ? VHDR : i == 1 ? KEY : AUDIO, i + 1); f.body = S(140 + i, 'm'); wire += c.out.all(wrap(f, 1), 3); s.v.push_back(f); s.kinds.push_back(i == 0 ? VHDR : i == 1 ? KEY : AUDIO); }
    c.say(S("\3") + c.c1); c.read(); MC_CHECK(c.shaken, "no handshake");
    int ca = mc::choose((int) wire.size() + 1, "cut"), cb = two ? mc::choose((int) wire.size() / 40 + 1, "second cut") * 40 : 0; bool early = mc::flip("with C2");
    size_t a = std::min((size_t) ca, wire.size()), b = std::max(a, std::min((size_t) cb, wire.size()));
    if (early) c.say(c.s1 + wire.substr(0, a)); else { c.say(c.s1); if (a) c.say(wire.substr(0, a)); }
    if (b > a) c.say(wire.substr(a, b - a)); if (b < wire.size()) c.say(wire.substr(b));
    answers(c, pub, 1);
    if (pub) { Source cp = s; size_t n = s.v.size(); join_http(h, s); join_rtmp(r, s); with = true; (void) n; check(h); check(r); FlvPkt f = media(INTER, 7); emit(c, s, f, INTER, 0); check(h); check(r); }
    else { RtmpPlay q; q.src = &s; q.lo = s.v.size(); q.c = c; check(q); emit(other, s, media(INTER, 3), INTER); check(q); c = q.c; }
    mc::state(mc::hash_str(wire, ca * 4 + pub)); (void) with;
    over({&c.p, &other.p, &h.p, &r.c.p});
}
// handshakes cut anywhere
static void handshakes(bool full) {
    begin();
    Source s; Client c; c.p.dial(1935); S w = S("\3") + c.c1; static const int marks[] = {0, 1, 2, 4, 5, 8, 9, 10, 1000, 1535, 1536, 1537};
    size_t at = full ? mc::choose((int) w.size() + 1, "cut") : mc::pick(marks, "cut");
    if (mc::flip("zero time")) { c.c1.replace(0, 4, 4, '\0'); w = S("\3") + c.c1; }
    if (at) c.say(w.substr(0, at)); c.say(w.substr(at)); c.read(); MC_CHECK(c.shaken, "no handshake");
    S c2 = c.s1; switch (mc::choose(3, "C2")) { case 1: c2 = S(1536, 'z'); break; case 2: c2 = c.c1; break; }
    size_t k = mc::pick(marks, "second cut"); if (k > 1536) k = 1536; if (k) c.say(c2.substr(0, k)); c.say(c2.substr(k));
    if (c2 != c.s1) { mc::validated(); over({&c.p}); return; }        // may be refused
    for (auto& m : opening(true, "rtmp://a.com/live", "live", "x")) c.say(c.out.all(m));
    answers(c, true, 1); emit(c, s, media(KEY, 1), KEY); RtmpPlay r; join_rtmp(r, s); check(r);
    over({&c.p, &r.c.p});
}
// names in every form reach the stream HTTP calls so
static void names() {
    begin();
    static const struct { S url, app; } urls[] = {{"rtmp://a.com/live", "live"}, {"rtmp://a.com:1935/live", "live"}, {"rtmp://a.com:19350/live", "live"}, {"rtmp://b.com/live", "live"}, {"rtmp://a.com/live/x", "live/x"}};
    static const S streams[] = {"x", "y", "x?token=1&a=b", "x?a=/../y", "y/z", "x-y_z"};
    int ua = mc::choose(5, "publisher's url"), ub = mc::choose(5, "player's url"), na = mc::choose(6, "publisher's name"), nb = mc::choose(6, "player's name");
    auto key = [&](int u, int n) { S h = u == 3 ? "b.com" : "a.com", s = streams[n]; s = s.substr(0, s.find('?')); return h + "/" + urls[u].app + "/" + s; };
    Source s; Client c; c.shake(); for (auto& m : opening(true, urls[ua].url, urls[ua].app, streams[na])) c.say(c.out.all(m));
    answers(c, true, 1); emit(c, s, media(KEY, 1), KEY);
    S k = key(ua, na), host = k.substr(0, 5), path = k.substr(5);
    HttpPlay h; join_http(h, s, path + ".flv", host); check(h);
    HttpPlay h2; join_http(h2, s, (path == "/live/x" ? "/live/y" : "/live/x") + S(".flv"), host); Reply none = h2.p.reply(); MC_CHECK(none.status != 200, "another stream is played");
    RtmpPlay r; r.src = &s; r.lo = 1; r.c.shake(); for (auto& m : opening(false, urls[ub].url, urls[ub].app, streams[nb])) r.c.say(r.c.out.all(m));
    if (key(ub, nb) == k) { answers(r.c, false, 1); check(r); emit(c, s, media(INTER, 2), INTER); check(r); check(h); }
    else { wait(); r.c.read(); for (auto& m : r.c.got) MC_CHECK(m.type != 8 && m.type != 9, "media of another stream"); MC_CHECK(r.c.eof(), "a player of a stream that is not there stays"); mc::validated(); }
    over({&c.p, &h.p, &h2.p, &r.c.p});
}
// unknown hosts, hosts' names shared by nobody
static void refusals() {
    begin();
    static const S urls[] = {"rtmp://c.com/live", "rtmp://", "", "x", "rtmp:///live", "rtmp://c.com", "http://c.com/live", S("rtmp://c.com/\0x", 14)};
    S url = mc::pick(urls, "url"); bool pub = mc::flip("publish"); Source s; Client c, o; start(o, true, "x"); emit(o, s, media(KEY, 1), KEY); RtmpPlay r; join_rtmp(r, s);
    c.shake(); for (auto& m : opening(pub, url, "live", mc::flip("name") ? "x" : "")) if (!c.eof()) c.say(c.out.all(m));
    wait(20 * MS); MC_CHECK(c.eof(), "a %s of %s is accepted", pub ? "publisher" : "player", mc::quote(url).c_str());
    emit(o, s, media(INTER, 2), INTER); check(r);
    over({&c.p, &o.p, &r.c.p});
}
// histories of publishers and players of one or two names over both protocols
static void histories(int depth) {
    begin();
    struct Pb { bool http; Client c; Peer p; uint32_t prev = 0; int n = 0; Source s; };
    std::list<Pb> pubs; std::list<HttpPlay> hs; std::list<RtmpPlay> rs; std::list<Client> losers; std::list<Peer> hl; Pb* own[2] = {nullptr, nullptr}; int id = 0;
    static const char* nm[] = {"x", "y"}; static const S path[] = {"/live/x.flv", "/live/y.flv"};
    for (int i = 0; i < depth; ++i) {
        int k = mc::choose(2, "name"); Pb* p = own[k]; std::vector<int> ops = {0, 1, 2, 3}; if (p) for (int o : {4, 5, 6, 7}) ops.push_back(o); if (!hs.empty() || !rs.empty()) ops.push_back(8);
        if (i == 0) ops = {0, 1};
        int o = mc::pick(ops, "operation"); mc::step(); mc::note("op %d on %s", o, nm[k]);
        auto end = [&] { for (auto& h : hs) if (h.src == &p->s && !h.over) { h.over = true; h.hi = p->s.v.size(); } for (auto& r : rs) if (r.src == &p->s && !r.over) { r.over = true; r.hi = p->s.v.size(); } own[k] = nullptr; };
        switch (o) {
            case 0: if (p) { losers.emplace_back(); Client& c = losers.back(); start(c, true, nm[k]); wait(20 * MS); MC_CHECK(c.eof(), "a second publisher is accepted"); }
                else { pubs.emplace_back(); pubs.back().http = false; start(pubs.back().c, true, nm[k]); own[k] = &pubs.back(); } break;
            case 1: { if (p) { hl.emplace_back(); hl.back().dial(80); hl.back().send(post("a.com", path[k], "Transfer-Encoding: chunked\r\n") + chunk(flv_header())); wait(); hl.back().poll(); MC_CHECK(hl.back().reply().status != 200, "a second publisher is accepted"); }
                else { pubs.emplace_back(); Pb& q = pubs.back(); q.http = true; q.p.dial(80); q.p.send(post("a.com", path[k], "Transfer-Encoding: chunked\r\n")); q.p.send(chunk(flv_header())); wait(); own[k] = &q; } break; }
            case 2: if (p) { rs.emplace_back(); join_rtmp(rs.back(), p->s, nm[k]); } else { losers.emplace_back(); Client& c = losers.back(); start(c, false, nm[k]); wait(20 * MS); MC_CHECK(c.eof(), "a player of a stream that is not there stays"); } break;
            case 3: if (p) { hs.emplace_back(); join_http(hs.back(), p->s, path[k]); } else { hl.emplace_back(); hl.back().dial(80); hl.back().send(get("a.com", path[k])); wait(); MC_CHECK(hl.back().reply().status == 404, "status %d", hl.back().reply().status); } break;
            case 4: case 5: case 6: { int kind = o == 4 ? KEY : o == 5 ? INTER : AHDR; FlvPkt f = media(kind, ++id); if (!p->http) { f.dts = id * 40; emit(p->c, p->s, f, kind, 3); } else { p->s.v.push_back(f); p->s.kinds.push_back(kind); S t = f.tagbytes(); p->p.send(chunk(be(p->prev, 4) + t)); p->prev = t.size(); wait(); } break; }
            case 7: end(); if (p->http) p->p.close(); else p->c.p.close(); wait(); break;
            case 8: if (!rs.empty()) { rs.front().c.p.close(); rs.pop_front(); } else { hs.front().p.close(); hs.pop_front(); } wait(); break;
        }
        for (auto& h : hs) check(h); for (auto& r : rs) check(r);
    }
    mc::state(mc::hash_str(std::to_string(id), pubs.size() * 16 + rs.size() * 4 + hs.size()));
    std::vector<Peer*> ps; for (auto& p : pubs) { ps.push_back(&p.p); ps.push_back(&p.c.p); } for (auto& h : hs) ps.push_back(&h.p); for (auto& r : rs) ps.push_back(&r.c.p); for (auto& c : losers) ps.push_back(&c.p); for (auto& h : hl) ps.push_back(&h);
    // gone players that were popped are closed already
    over(ps);
}
// players of an edge whose origin is asked over RTMP: it plays there once and hands on what it receives
static int kind_of(const FlvPkt& f) { return f.tag == 18 ? SCRIPT : f.tag == 8 ? (f.ptype ? AUDIO : AHDR) : f.ptype == 0 ? VHDR : f.flags == 0x17 ? KEY : INTER; }
static void edges(int depth) {
    begin(); Source s, e; Client c; std::list<RtmpPlay> rs; std::list<HttpPlay> hs; std::list<Client> gone; int id = 0; bool pub = false, on = false; uint32_t sum = 0; bool direct = mc::flip("pass_url"); S host = direct ? "g.com" : "e.com", key = host + "/live/x";
    auto target = [&](Client& x) { x.shake(); for (auto& m : opening(false, "rtmp://" + host + "/live", "live", mc::flip("query") ? "x?token=1&a=b" : "x")) if (!x.eof()) x.say(x.out.all(m)); wait(20 * MS); };
    for (int i = 0; i < depth; ++i) {
        std::vector<int> ops = {1}; if (on || direct) ops.push_back(3); if (!pub) ops.push_back(0); else for (int o : {4, 5, 6, 7}) ops.push_back(o); if (!rs.empty()) ops.push_back(2);
        int o = mc::pick(ops, "operation"); mc::step(); sum = sum * 8 + o;
        auto pull = [&] { if (!on) { on = true; e = Source(); FlvPkt a; a.tag = 18; a.flags = 0; a.body = str("|RtmpSampleAccess") + S("\1\1\1\1", 4); e.v.push_back(a); for (auto& f : view(s.v, s.kinds, s.v.size(), s.v.size())) e.v.push_back(f); for (auto& f : e.v) e.kinds.push_back(kind_of(f)); return true; } return false; };
        switch (o) {
            case 0: pub = true; s = Source(); c = Client(); start(c, true, "x", "127.0.0.1"); break;
            case 1: { if (!pub) { gone.emplace_back(); target(gone.back()); wait(20 * MS); MC_CHECK(gone.back().eof(), "a player of a stream the origin does not have stays"); break; }
                rs.emplace_back(); RtmpPlay& r = rs.back(); r.src = &e; target(r.c); bool first = pull(); r.lo = first ? 0 : e.v.size(); if (first) r.lo = 0; answers(r.c, false, 1); break; }
            case 2: rs.front().c.p.close(); rs.pop_front(); wait(); break;
            case 3: { HttpPlay h; h.p.dial(80); h.p.send(get(host, "/live/x.flv")); wait(20 * MS); Reply r = h.p.reply(); if (!pub) { wait(20 * MS); r = h.p.reply(); MC_CHECK(r.status == 404, "status %d", r.status); h.p.close(); wait(); break; } h.src = &e; h.lo = pull() ? 0 : e.v.size(); hs.push_back(h); break; }
            case 4: case 5: case 6: { int k = o == 4 ? KEY : o == 5 ? INTER : AHDR; FlvPkt f = media(k, ++id); f.dts = id * 40; emit(c, s, f, k, 3); wait(); if (on) { e.v.push_back(f); e.kinds.push_back(k); } break; }
            case 7: pub = false; c.p.close(); wait(); for (auto& r : rs) { check(r); r.c.p.close(); } for (auto& h : hs) { check(h); h.p.close(); } rs.clear(); hs.clear(); on = false; wait(25000 * MS); break;
        }
        for (auto& r : rs) check(r); for (auto& h : hs) check(h);
    }
    mc::state(mc::hash_str(std::to_string(id), sum));
    MC_CHECK(!on == !StreamCache::get_streamcache(key), "the edge %s the stream", on ? "has lost" : "keeps");
    std::vector<Peer*> ps{&c.p}; for (auto& r : rs) ps.push_back(&r.c.p); for (auto& h : hs) ps.push_back(&h.p); for (auto& x : gone) ps.push_back(&x.p);
    over(ps); MC_CHECK(!StreamCache::get_streamcache(key), "the edge keeps a stream that ended");
}
// players that come to an edge at once: one pull, which all of them share, whatever the order
static void edge_races(int bound) {
    begin(); bool direct = mc::flip("pass_url"); S host = direct ? "g.com" : "e.com"; int order = mc::choose(6, "order"); Source s, e; Client c; start(c, true, "x", "127.0.0.1"); emit(c, s, media(KEY, 1), KEY);
    Client a, b; HttpPlay h; a.shake(); b.shake(); h.p.dial(80); wait(); bool late = mc::flip("a message meanwhile");
    S w; for (auto& m : opening(false, "rtmp://" + host + "/live", "live", "x")) { Chunker k; w += k.all(m); }
    fst::set_delay_bound(bound);
    static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int i : orders[order]) switch (i) { case 0: a.p.send(w); break; case 1: b.p.send(w); break; case 2: if (direct) h.p.send(get(host, "/live/x.flv")); else c.p.send(c.out.all(ctl(3, be(1, 4)))); break; }
    FlvPkt f = media(INTER, 2); if (late) { s.v.push_back(f); s.kinds.push_back(INTER); c.p.send(c.out.all(wrap(f))); }
    fst::run(fst::now() + 50 * MS); fst::set_delay_bound(0); wait(50 * MS);
    FlvPkt x; x.tag = 18; x.flags = 0; x.body = str("|RtmpSampleAccess") + S("\1\1\1\1", 4); e.v.push_back(x); for (auto& q : s.v) e.v.push_back(q); for (auto& q : e.v) e.kinds.push_back(kind_of(q));
    RtmpPlay ra, rb; for (auto* r : {&ra, &rb}) { r->src = &e; r->lo = 0; r->c = r == &ra ? a : b; answers(r->c, false, 1); check(*r); }
    if (direct) { h.src = &e; h.lo = 0; check(h); }
    FlvPkt l = media(INTER, 3); emit(c, s, l, INTER); wait(); e.v.push_back(l); e.kinds.push_back(INTER); check(ra); check(rb); if (direct) check(h);
    mc::state(order * 4 + direct * 2 + late); over({&c.p, &ra.c.p, &rb.c.p, &h.p}); MC_CHECK(!StreamCache::get_streamcache(host + "/live/x"), "the edge keeps a stream that ended");
}
static S wire_of(Client& c, bool pub, bool chunk_first) {
    S w; auto ms = opening(pub, "rtmp://a.com/live", "live", "y");
    for (size_t i = 0; i < ms.size(); ++i) { w += c.out.all(ms[i]); if (i == 0 && chunk_first) { w += c.out.all(ctl(1, be(300, 4))); c.out.size = 300; } }
    if (pub) for (int i = 0; i < 2; ++i) w += c.out.all(wrap(media(i ? AUDIO : KEY, i + 1)));
    return w;
}
struct Others { Source s; Client o; RtmpPlay r; HttpPlay h;
    void open() { start(o, true, "x"); emit(o, s, media(KEY, 1), KEY); join_rtmp(r, s); join_http(h, s); }
    void verify() { emit(o, s, media(INTER, 2), INTER); check(r); check(h); } };
// connections that end at any byte
static void vanish(bool full) {
    begin();
    Others x; x.open(); Client c; c.p.dial(1935); bool pub = mc::flip("publisher"); S hand = S("\3") + c.c1; size_t at;
    static const int marks[] = {0, 1, 2, 100, 1536, 1537, 2000, 3072};
    if (mc::flip("during the handshake")) {
        at = mc::pick(marks, "end"); c.say(hand.substr(0, std::min(at, hand.size()))); if (at >= hand.size()) { c.read(); c.say(c.s1.substr(0, at - hand.size())); }
    } else {
        c.say(hand); c.read(); c.say(c.s1); S w = wire_of(c, pub, false); at = full ? mc::choose((int) w.size() + 1, "end") : std::min((int) w.size(), mc::choose((int) w.size() / 3 + 2, "end") * 3); c.say(w.substr(0, at));
    }
    bool silent = mc::flip("silent"); if (!silent) c.p.close(); else { x.verify(); for (int i = 0; i < 11 && !c.eof(); ++i) { pass(1000 * MS); x.o.say(x.o.out.all(ctl(3, be(1, 4)))); } if (!c.eof() && !(!pub && at)) mc::fail("a silent client is kept for 11 s"); }
    wait(); if (!silent) x.verify();
    mc::validated(); over({&c.p, &x.o.p, &x.r.c.p, &x.h.p});
}
// damaged bytes anywhere: nobody else is affected
static void damage(bool full) {
    begin();
    Others x; x.open(); Client c; c.shake(); bool pub = mc::flip("publisher"); S w = wire_of(c, pub, mc::flip("chunk size"));
    static const int few[] = {0, 1, 2, 3, 4, 5, 8, 9, 17, 20, 0x7f, 0x80, 0xc3, 0xff}; size_t at = mc::choose((int) w.size(), "position");
    w[at] = full ? (char) mc::choose(256, "byte") : (char) mc::pick(few, "byte");
    c.say(w); x.verify(); mc::state(mc::hash_str(w, pub));
    if (!c.eof()) c.read();
    mc::validated(); over({&c.p, &x.o.p, &x.r.c.p, &x.h.p});
}
// messages that say less than they should, and other codecs
static void shorts() {
    begin();
    Others x; x.open(); Client c; Source s; start(c, true, "y"); emit(c, s, media(KEY, 1), KEY); RtmpPlay r; join_rtmp(r, s, "y"); check(r);
    Msg m; m.sid = 1; m.cid = 6; m.ts = 80; int types[] = {8, 9, 15, 18, 20, 17, 22, 16, 19, 1, 2, 3, 4, 5, 6, 0}; m.type = mc::pick(types, "type"); int n = mc::choose(8, "length"); static const int firsts[] = {0xaf, 0x17, 0x27, 0x57, 0x2f, 0x12, 0, 0xff};
    if (n) { m.body = S(n, '\0'); m.body[0] = (char) mc::pick(firsts, "first"); if (n > 1) m.body[1] = (char) mc::choose(3, "second"); }
    if (m.type == 1 && n >= 4) switch (mc::choose(4, "chunk size")) { case 0: m.body = be(0, 4); break; case 1: m.body = be(0x80000000u, 4); break; case 2: m.body = be(0xffffffffu, 4); break; case 3: m.body = be(0xffffff, 4); break; }
    S w = c.out.all(m); Msg again = wrap(media(AUDIO, 4)); w += c.out.all(again); c.say(w); x.verify(); if (!c.eof()) c.read();
    mc::validated(); over({&c.p, &r.c.p, &x.o.p, &x.r.c.p, &x.h.p});
}
// pings are answered with their time, the window is acknowledged
static void pings() {
    begin(); Source s; Client c; start(c, true, "x"); static const uint32_t ts[] = {0, 1, 0x12345678, 0xffffffff}; uint32_t t = mc::pick(ts, "time"), win = mc::pick(std::vector<uint32_t>{0, 1000, 5000}, "window");
    RtmpPlay r; join_rtmp(r, s);
    if (win) c.say(c.out.all(ctl(mc::flip("bandwidth") ? 6 : 5, be(win, 4) + "\2")));
    for (int i = 0; i < 3; ++i) { FlvPkt f = media(i ? INTER : KEY, i + 1); f.body = S(1500, 'w'); emit(c, s, f, i ? INTER : KEY); }
    c.say(c.out.all(ctl(4, be(6, 2) + be(t, 4)))); c.read(); int pongs = 0;
    for (auto& m : c.got) if (m.type == 4) { MC_CHECK(m.body == be(7, 2) + be(t, 4), "a ping of %u is answered otherwise", t); ++pongs; } else MC_CHECK(m.type == 3 && m.body.size() == 4, "message %d to a publisher", m.type);
    MC_CHECK(pongs == 1, "%d pongs", pongs); check(r); over({&c.p, &r.c.p});
}
// a player that stops reading: everything once it goes on within the send timeout, and nobody else notices
static void slow() {
    begin(); Source s; Client c; start(c, true, "x"); RtmpPlay r, q; HttpPlay h; join_rtmp(r, s); join_rtmp(q, s); join_http(h, s);
    static const size_t wins[] = {1, 100, 2000, 20000}; static const int stalls[] = {0, 1000, 4900, 5100, 9000}; size_t w = mc::pick(wins, "room"), n = mc::flip("large") ? 5000 : 100; int st = mc::pick(stalls, "stall, ms"), k = mc::choose(4, "media before");
    auto put = [&](int i) { FlvPkt f = media(i % 3 ? INTER : KEY, i + 1); f.body = S(n, 's'); emit(c, s, f, i % 3 ? INTER : KEY, 1); check(q); check(h); };
    for (int i = 0; i < k; ++i) put(i);
    check(r); fst::window(r.c.p.e, w); for (int i = k; i < k + 4; ++i) put(i);
    for (int t = 0; t < st; t += 700) { pass(std::min(700, st - t) * MS); put(k + 4 + t / 700); }
    bool blocked = 4 * n > w, maybe = 13 * n > w; r.c.lenient = st > 5000 && maybe;      // it is dropped in the middle of a message
    fst::window(r.c.p.e, (size_t) 1 << 40); for (int i = 0; i < 8; ++i) { r.c.read(); wait(); }
    if (st < 5000 || !maybe) { MC_CHECK(!r.c.p.eof, "a player that stalled %d ms is dropped", st); check(r); put(30); check(r); }
    else if (st > 5000 && blocked) { auto want = view(s.v, s.kinds, r.lo, s.v.size()); MC_CHECK(r.c.eof(), "a player that stalled %d ms is kept", st); for (size_t i = 0; i < r.c.got.size() && i < want.size(); ++i) MC_CHECK(i + 1 == r.c.got.size() || r.c.got[i].body == want[i].data(), "a stalled player received something else"); put(30); }
    check(h); check(q); mc::state(w * 100 + st * 7 + k); over({&c.p, &r.c.p, &q.c.p, &h.p});
}
// publishers and players of one name that come at once
static void races(int bound) {
    begin(); bool http2 = mc::flip("second publisher over HTTP"); int order = mc::choose(6, "order"); Client a, b, v; Peer hb, hv; a.shake(); v.shake(); if (!http2) b.shake(); else hb.dial(80); hv.dial(80); wait();
    auto open = [](bool pub, Client& c) { S w; for (auto& m : opening(pub, "rtmp://a.com/live", "live", "x")) w += c.out.all(m); return w; };
    fst::set_delay_bound(bound);
    static const int orders[6][4] = {{0, 1, 2, 3}, {2, 0, 3, 1}, {0, 2, 1, 3}, {3, 1, 0, 2}, {2, 3, 0, 1}, {1, 0, 3, 2}};
    for (int i : orders[order]) switch (i) { case 0: a.p.send(open(true, a)); break; case 1: if (http2) hb.send(post("a.com", "/live/x.flv", "Transfer-Encoding: chunked\r\n") + chunk(flv_header())); else b.p.send(open(true, b)); break; case 2: v.p.send(open(false, v)); break; case 3: hv.send(get("a.com", "/live/x.flv")); break; }
    fst::run(fst::now() + 50 * MS); fst::set_delay_bound(0); wait(50 * MS);
    a.read(); bool ea = a.eof(), eb = http2 ? (hb.poll(), hb.eof) : b.eof(); if (http2 && !eb) { Reply x = hb.reply(); if (x.head && x.status != 200) eb = true; }
    MC_CHECK(ea != eb, "%s publishers of one name are accepted", ea ? "no" : "two");
    Source s; uint32_t prev = 0;
    for (int i = 0; i < 2; ++i) { FlvPkt f = media(i ? INTER : KEY, i + 1); if (!ea) emit(a, s, f, i ? INTER : KEY); else if (!http2) emit(b, s, f, i ? INTER : KEY); else { s.v.push_back(f); s.kinds.push_back(i ? INTER : KEY); S t = f.tagbytes(); hb.send(chunk(be(prev, 4) + t)); prev = t.size(); wait(); } }
    v.read(); if (!v.eof()) { RtmpPlay r; r.src = &s; r.lo = 0; answers(v, false, 1); r.c = v; check(r); } else for (auto& m : v.got) MC_CHECK(m.type != 8 && m.type != 9, "media to a refused player");
    Reply y = hv.reply(); if (y.status == 200) { MC_CHECK(y.body == flv_bytes(s.v), "HTTP player received something else"); } else MC_CHECK(y.status == 404, "status %d", y.status);
    mc::validated(3); mc::state(order * 16 + ea * 8 + v.p.eof * 4 + (y.status == 200) * 2 + http2); over({&a.p, &b.p, &v.p, &hb, &hv});
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (S(argv[i]) == "--tier" && S(argv[i + 1]) == "thorough") mc::tier = 1;
    bool T = mc::tier;
    return mc::run(argc, argv, "C30", {
        {"sequences", T ? "every sequence of 5 of 6 kinds of media over RTMP or HTTP, RTMP and HTTP players that join at every place" : "every sequence of 4 of 6 kinds of media over RTMP or HTTP, RTMP and HTTP players that join at every place", [=] { sequences(T ? 5 : 4); }, 4, init},
        {"values", "times, composition offsets, sizes, chunk sizes and headers at their limits", [=] { values(T); }, 4, init},
        {"late", T ? "every sequence of 4 messages at times around 2^24 and 2^31 in every header form" : "every sequence of 3 messages at times around 2^24 and 2^31 in every header form", [=] { late(T ? 4 : 3); }, 3, init},
        {"forms", "every pair of messages of every frame type, codec, packet type and audio format, over RTMP or HTTP", forms, 3, init},
        {"layouts", "every interleaving of chunks of audio and video, header forms, chunk stream ids, chunk sizes and messages in between", [=] { layouts(T); }, 4, init},
        {"cuts", T ? "every two segments, and three at every fortieth byte" : "every two segments", [=] { cuts(T); }, 4, init},
        {"handshakes", "handshakes cut in segments", [=] { handshakes(T); }, 3, init},
        {"names", "5 urls and 6 names of publishers and of players", [] { names(); }, 4, init},
        {"refusals", "8 urls nothing is configured for", [] { refusals(); }, 3, init},
        {"histories", T ? "every history of 6 operations of publishers and players of two names over both protocols" : "every history of 5 operations of publishers and players of two names over both protocols", [=] { histories(T ? 6 : 5); }, 4, init},
        {"vanish", "clients that end or fall silent at any byte", [=] { vanish(T); }, 3, init},
        {"damage", "every byte of what a publisher or player sends replaced", [=] { damage(T); }, 3, init},
        {"shorts", "messages of 16 types and up to 7 bytes", [] { shorts(); }, 3, init},
        {"slow", "players that stop reading with room for 1 to 20000 bytes, for up to 9 s", slow, 3, init},
        {"races", T ? "two publishers and two players at once, all schedules within 3 delays" : "two publishers and two players at once, all schedules within 2 delays", [=] { races(T ? 3 : 2); }, 3, init},
        {"edges", T ? "every history of 7 operations of RTMP and HTTP players of an edge whose origin is asked over RTMP, and of the publisher there" : "every history of 6 operations of RTMP and HTTP players of an edge whose origin is asked over RTMP, and of the publisher there", [=] { edges(T ? 7 : 6); }, 3, init},
        {"edge races", T ? "two RTMP players and an HTTP player that come to an edge at once, all schedules within 6 delays" : "two RTMP players and an HTTP player that come to an edge at once, all schedules within 4 delays", [=] { edge_races(T ? 6 : 4); }, 3, init},
        {"pings", "pings and windows", [] { pings(); }, 2, init},
    });
}
