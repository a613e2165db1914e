// C29: RTMP commands are read as they were sent.
#include "common.hpp"
#include <sps_avformat_librtmp_packet.hpp>
using namespace sps;
typedef std::string S;
// ---- AMF 0, written independently of the code under test
static S num(double d) { uint64_t u; memcpy(&u, &d, 8); return S(1, '\0') + be(u, 8); }
static S boolean(bool b) { return S("\1", 1) + (char) b; }
static S str(const S& s) { return s.size() < 65536 ? S("\2") + be(s.size(), 2) + s : S("\x0c") + be(s.size(), 4) + s; }
static S lstr(const S& s) { return S("\x0c") + be(s.size(), 4) + s; }
static const S NUL = "\5", UNDEF = "\6";
typedef std::vector<std::pair<S, S>> Props;
static S members(const Props& p) { S r; for (auto& x : p) r += be(x.first.size(), 2) + x.first + x.second; return r + S("\0\0\x09", 3); }
static S obj(const Props& p) { return S("\3") + members(p); }
static S ecma(const Props& p) { return S("\x08") + be(p.size(), 4) + members(p); }
static S date() { return S("\x0b") + be(0x4274000000000000ull, 8) + be(0x00ff, 2); }
static S array(const std::vector<S>& v) { S r = S("\x0a") + be(v.size(), 4); for (auto& x : v) r += x; return r; }

struct Msg {                  // in memory of exactly its size
    char* p; WrapRtmpPacket w; PIRTMPPacket result; error_t ret;
    Msg(int type, const S& body) : w(false) {
        p = (char*) malloc(body.size() ? body.size() : 1); memcpy(p, body.data(), body.size());
        w.packet.m_packetType = type; w.packet.m_nBodySize = body.size(); w.packet.m_body = p;
        mc::step(); mc::state(mc::hash_str(body, type));
        ret = RtmpPacketDecoder::decode(w, result);
    }
    ~Msg() { result.reset(); free(p); }
    S text(const AVal& v) {
        MC_CHECK(v.av_len >= 0 && (v.av_len == 0 || (v.av_val >= p && v.av_val + v.av_len <= p + w.packet.m_nBodySize)), "a string outside of the message");
        return v.av_len ? S(v.av_val, v.av_len) : S();
    }
};
template <class T> static T* as(Msg& m, const char* what) {
    MC_CHECK(m.ret == SUCCESS, "%s refused with %d", what, (int) m.ret);
    T* t = dynamic_cast<T*>(m.result.get());
    MC_CHECK(t != nullptr, "%s is read as something else", what);
    return t;
}
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static const double txns[] = {0, 1, 2.5, 4294967296.0, -1};
// the type byte and what precedes AMF 0 there
struct Kind { int type; S lead; };
static Kind kind() { return mc::flip("amf3") ? Kind{RTMP_PACKET_TYPE_AMF3_CMD, S(1, '\0')} : Kind{RTMP_PACKET_TYPE_AMF0_CMD, ""}; }
static std::vector<S> texts() { return {"", "a", "live/stream?x=1&y=\xe4\xbd\xa0", S("nul\0in", 6), S(255, 'b'), S(256, 'c'), S(65535, 'd'), S(65536, 'e')}; }

static void other_members(Props& p, size_t at) {
    switch (mc::choose(11, "other member")) {
        case 0: return;
        case 1: p.insert(p.begin() + at, {"flashVer", str("FMLE/3.0")}); return;
        case 2: p.insert(p.begin() + at, {"capabilities", num(239)}); return;
        case 3: p.insert(p.begin() + at, {"fpad", boolean(false)}); return;
        case 4: p.insert(p.begin() + at, {"pageUrl", NUL}); return;
        case 5: p.insert(p.begin() + at, {"swfUrl", UNDEF}); return;
        case 6: p.insert(p.begin() + at, {"nested", obj({{"app", str("wrong")}, {"tcUrl", str("wrong")}})}); return;
        case 7: p.insert(p.begin() + at, {"nested", ecma({{"tcUrl", str("wrong")}})}); return;
        case 8: p.insert(p.begin() + at, {"appl", str("wrong")}); return;
        case 9: p.insert(p.begin() + at, {"ap", str("wrong")}); p.insert(p.begin() + at, {"tcUrlx", num(1)}); return;
        case 10: p.insert(p.begin() + at, {"when", date()}); return;
    }
}
static void connects() {
    quiet();
    static const auto ts = texts();
    S app = mc::pick(ts, "app"), url = mc::pick(ts, "tcUrl"); double t = mc::pick(txns, "transaction");
    Props p = {{"app", str(app)}, {"tcUrl", str(url)}}; if (mc::flip("order")) std::swap(p[0], p[1]);
    other_members(p, mc::choose(3, "where"));
    Kind k = kind(); S tail;
    switch (mc::choose(3, "extra")) { case 1: tail = str("user"); break; case 2: tail = obj({{"app", str("wrong")}}); break; }
    Msg m(k.type, k.lead + str("connect") + num(t) + obj(p) + tail);
    auto c = as<ConnectRtmpPacket>(m, "connect");
    MC_CHECK(m.text(c->app) == app, "app of %zu bytes is read as %zu bytes", app.size(), m.text(c->app).size());
    MC_CHECK(m.text(c->tc_url) == url, "tcUrl of %zu bytes is read as %zu bytes", url.size(), m.text(c->tc_url).size());
    MC_CHECK(same(c->transaction_id, t) && m.text(c->name) == "connect", "transaction %f instead of %f", c->transaction_id, t);
    mc::validated(4); mc::nontrivial();
}
static void incomplete() {                    // connects that say too little are refused
    quiet();
    S o;
    switch (mc::choose(11, "object")) {
        case 0: o = NUL; break; case 1: o = UNDEF; break; case 2: o = obj({}); break;
        case 3: o = obj({{"app", str("a")}}); break; case 4: o = obj({{"tcUrl", str("a")}}); break;
        case 5: o = obj({{"app", num(1)}, {"tcUrl", str("a")}}); break; case 6: o = obj({{"app", str("a")}, {"tcUrl", NUL}}); break;
        case 7: o = str("app"); break; case 8: o = num(3); break; case 9: o = ""; break;
        case 10: o = obj({{"x", obj({{"app", str("a")}, {"tcUrl", str("b")}})}}); break;
    }
    S name, t;
    switch (mc::choose(4, "name")) { case 0: name = str("connect"); break; case 1: name = num(1); break; case 2: name = NUL; break; case 3: name = lstr("connect"); break; }
    switch (mc::choose(6, "transaction")) { case 4: t = num(1.0000000000000004); break; case 5: t = num(1.0000000000001); break; case 0: t = num(1); break; case 1: t = str("1"); break; case 2: t = NUL; break; case 3: t = boolean(true); break; }
    Kind k = kind(); if (mc::flip("stack")) { volatile char junk[4096]; for (size_t i = 0; i < sizeof junk; ++i) junk[i] = (char) 0xff; }
    Msg m(k.type, k.lead + name + t + o);
    MC_CHECK(m.ret != SUCCESS && !m.result, "an incomplete connect is accepted");
    mc::validated(); mc::nontrivial();
}
// commands about a stream
static void streams() {
    quiet();
    static const auto ts = texts(); static const char* names[] = {"play", "publish", "releaseStream", "FCPublish", "createStream"};
    int n = mc::choose(5, "command"); S s = mc::pick(ts, "stream"); double t = mc::pick(txns, "transaction");
    S third; switch (mc::choose(4, "object")) { case 0: third = NUL; break; case 1: third = UNDEF; break; case 2: third = obj({}); break; case 3: third = obj({{"app", str("x")}, {"y", num(0)}}); break; }
    S type; S tail;
    int e = mc::choose(6, "extra"); if (n == 1) { if (e) type = e == 1 ? "live" : e == 2 ? "record" : e == 3 ? "append" : e == 4 ? "" : "live"; if (e) tail = str(type); if (e == 5) tail += num(1); }
    else switch (e) { case 1: tail = num(-2000); break; case 2: tail = num(0) + num(-1) + boolean(true); break; case 3: tail = str("live"); break; case 4: tail = NUL; break; case 5: tail = obj({{"z", NUL}}); break; }
    Kind k = kind();
    Msg m(k.type, k.lead + (mc::flip("long name") ? lstr(names[n]) : str(names[n])) + num(t) + third + (n == 4 ? "" : str(s)) + tail);
    CommandRtmpPacket* c = nullptr; S got = s;
    if (n == 0) { auto p = as<PlayRtmpPacket>(m, "play"); got = p->stream_params; c = p; }
    if (n == 1) { auto p = as<PublishRtmpPacket>(m, "publish"); got = p->stream_params; c = p; MC_CHECK(p->publish_type == type, "publish type %s instead of %s", mc::quote(p->publish_type).c_str(), mc::quote(type).c_str()); }
    if (n == 2) { auto p = as<ReleaseStreamRtmpPacket>(m, "releaseStream"); got = p->stream_params; c = p; }
    if (n == 3) { auto p = as<FCPublishRtmpPacket>(m, "FCPublish"); got = p->stream_params; c = p; }
    if (n == 4) c = as<CreateStreamRtmpPacket>(m, "createStream");
    MC_CHECK(got == s, "%s: stream name of %zu bytes is read as %zu bytes", names[n], s.size(), got.size());
    MC_CHECK(same(c->transaction_id, t) && m.text(c->name) == names[n], "%s: transaction %f instead of %f", names[n], c->transaction_id, t);
    mc::validated(4); mc::nontrivial();
}
// every sequence of values after a name: read as that command, or not at all
static void values(int n) {
    quiet();
    static const S vals[] = {num(7), boolean(true), str("s"), str(""), NUL, UNDEF, obj({}), obj({{"app", str("a")}, {"tcUrl", str("t")}}), ecma({{"app", str("a")}, {"tcUrl", str("t")}}), date(), array({num(1), str("x")}), lstr("l")};
    enum { NUM, BOOL, STR, EMPTY, NULL_, UND, OBJ, CONN, ECMA, DATE, ARR, LSTR };
    static const char* names[] = {"connect", "createStream", "play", "publish", "releaseStream", "FCPublish", "deleteStream", "Play", "playx", "pla", "", "_result", "onStatus"};
    int w = mc::choose(13, "name"), k = mc::choose(n + 1, "values"); S body = str(names[w]); std::vector<int> v;
    for (int i = 0; i < k; ++i) { v.push_back(mc::choose(12, "value")); body += vals[v.back()]; }
    Msg m(RTMP_PACKET_TYPE_AMF0_CMD, body);
    auto is_obj = [](int x) { return x == NULL_ || x == UND || x == OBJ || x == CONN; };
    auto is_str = [](int x) { return x == STR || x == EMPTY || x == LSTR; };
    if (w >= 6) { MC_CHECK(!m.result, "%s is read as a command", names[w]); mc::validated(); return; }
    if (k >= 2 && (v[1] == ECMA || v[1] == ARR)) { mc::validated(); return; }    // an array where an object belongs: as it likes
    bool ok = k >= 2 && v[0] == NUM && is_obj(v[1]);
    if (ok && w == 0) ok = v[1] == CONN;
    if (ok && w >= 2) ok = k >= 3 && is_str(v[2]);
    if (ok && w == 3 && k > 3 && !is_str(v[3])) return;             // a publish type that is none: as it likes
    MC_CHECK(ok == (m.ret == SUCCESS && m.result), "%s with %d values: %s (%d)", names[w], k, ok ? "refused" : "accepted", (int) m.ret);
    if (ok) { auto c = dynamic_cast<CommandRtmpPacket*>(m.result.get()); MC_CHECK(c && c->transaction_id == 7 && m.text(c->name) == names[w], "%s is read wrongly", names[w]); mc::nontrivial(); }
    mc::validated();
}
static std::vector<std::pair<int, S>> samples() {
    Props p = {{"app", str("live")}, {"flashVer", str("FMLE")}, {"tcUrl", str("rtmp://h/live")}, {"cap", num(15)}, {"n", obj({{"a", boolean(true)}})}, {"e", ecma({{"b", NUL}})}, {"d", date()}};
    S z(1, '\0');
    return {{20, str("connect") + num(1) + obj(p)}, {17, z + str("connect") + num(1) + ecma({{"app", str("a")}, {"tcUrl", str("b")}})}, {20, str("createStream") + num(2) + NUL}, {20, str("play") + num(3) + NUL + str("stream") + num(-2)},
            {17, z + str("publish") + num(4) + NUL + str("stream") + str("live")}, {18, str("@setDataFrame") + str("onMetaData") + ecma({{"width", num(1)}})}, {15, z + str("onMetaData") + ecma({{"width", num(1)}})},
            {1, be(4096, 4)}, {3, be(1, 4)}, {4, be(3, 2) + be(1, 4) + be(3000, 4)}, {5, be(2500000, 4)}, {6, be(2500000, 4) + "\2"}, {8, "\xaf\1abc"}, {9, "\x17\1abc"}, {20, array({num(1), lstr("x")})}};
}
// whatever a message consists of
static void damage(bool two) {
    quiet();
    static const auto ss = samples(); auto s = ss[mc::choose((int) ss.size(), "sample")]; S b = s.second; int type = s.first;
    switch (mc::choose(4, "damage")) {
        case 0: b.resize(mc::choose((int) b.size() + 1, "length")); break;
        case 1: b[mc::choose((int) b.size(), "position")] = (char) mc::choose(256, "byte"); break;
        case 2: { static const int few[] = {0, 1, 2, 3, 5, 8, 9, 10, 11, 12, 17, 0x7f, 0x80, 0xff}; int i = mc::choose((int) b.size(), "position"), j = two ? mc::choose((int) b.size(), "second position") : (int) b.size() - 1; b[i] = (char) mc::pick(few, "byte"); b[j] = (char) mc::pick(few, "second byte"); break; }
        case 3: type = mc::choose(23, "type"); break;
    }
    Msg m(type, b);
    MC_CHECK(!m.result || m.ret == SUCCESS, "refused and read");
    if (auto c = dynamic_cast<CommandRtmpPacket*>(m.result.get())) { m.text(c->name); if (auto k = dynamic_cast<ConnectRtmpPacket*>(c)) { m.text(k->app); m.text(k->tc_url); } if (auto k = dynamic_cast<NetStreamRtmpPacket*>(c)) MC_CHECK(k->stream_params.size() <= b.size(), "a stream name longer than the message"); mc::nontrivial(); }
}
static void tiny() {
    quiet(); static const int b[] = {0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 16, 17, 0xff};
    static const int types[] = {1, 15, 17, 18, 20}; S s; int n = mc::choose(6, "length"); for (int i = 0; i < n; ++i) s += (char) mc::pick(b, "byte");
    Msg m(mc::pick(types, "type"), s); MC_CHECK(!dynamic_cast<CommandRtmpPacket*>(m.result.get()), "a command out of %d bytes", n);
    mc::nontrivial();
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (S(argv[i]) == "--tier" && S(argv[i + 1]) == "thorough") mc::tier = 1;
    bool T = mc::tier;
    return mc::run(argc, argv, "C29", {
        {"connect", "connect: app and tcUrl of 8 lengths, both orders, 11 other members at 3 places, 3 tails, 5 transactions, AMF 0 and 3", [] { connects(); }, 4},
        {"incomplete", "connects without an object, or with a part missing or of another type", [] { incomplete(); }, 3},
        {"streams", "play, publish, releaseStream, FCPublish, createStream: names of 8 lengths, 4 objects, 6 tails, 5 transactions, AMF 0 and 3", [] { streams(); }, 4},
        {"values", T ? "13 names, every sequence of up to 5 of 12 values" : "13 names, every sequence of up to 4 of 12 values", [=] { values(T ? 5 : 4); }, 3},
        {"damage", T ? "15 messages, cut at every byte, every byte replaced by every value, every two bytes by 14 values, every type" : "15 messages, cut at every byte, every byte replaced by every value, every byte and the last by 14 values, every type", [=] { damage(T); }, 3},
        {"tiny", "every message of up to 5 of 14 bytes, 5 types", [] { tiny(); }, 3},
    });
}
