// C24: a transport stream published over SRT is what HTTP and SRT players of that name receive.
#include "stack.hpp"
#include <sps_srt_module.hpp>
#include "tsref.hpp"
#include <fakesrt.hpp>
using namespace stack;
using namespace tsref;
static const fst::usec MS = 1000;
static const char* SETUP =
    "globalhost {\nhost a.com {\nrole source;\ntype stream;\nedge_avformat all;\n}\n}\n"
    "http {\nserver s {\nlisten_port 80;\nrecv_timeout 20000000;\nsend_timeout 20000000;\n}\n"
    "server t {\nlisten_port 8001;\ntransport srt;\nrecv_timeout 20000000;\nsend_timeout 20000000;\n}\n}\n"
    "srt {\nserver r {\nlisten_port 6000;\ntransport srt;\nrecv_timeout 10000000;\nsend_timeout 5000000;\n}\n}\n";
static void init() {
    quiet(); fst::set_delay_bound(0);
    reg_all();
    auto& m = SingleInstance<ModuleFactoryRegister>::get_instance();
    auto f = std::make_shared<SrtModuleFactory>(); m.reg(f->module, f);
    error_t ret = SUCCESS;
    static PIModule root;
    root = load(SETUP, ret);
    if (ret != SUCCESS) mc::broken("configuration refused: %d", ret);
    if ((ret = root->install()) != SUCCESS) mc::broken("servers did not start: %d", ret);
    fst::run(fst::now() + 50 * MS);
    fst::mark_persistent();
    if (!fsrt::listening(6000) || !fsrt::listening(8001)) mc::fail("the SRT servers do not listen");
}
static void wait(fst::usec t = 25 * MS) { fst::run(fst::now() + t); }

enum { VID = 0x100, AUD = 0x101, PMTP = 0x1000 };
static S sc(const S& n) { return S("\0\0\0\1", 4) + n; }
static S fill(size_t n, int salt) { S s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char) (1 + (i * 7 + salt * 31 + (i >> 8)) % 250); return s; }
static const S SPS("\x67\x42\xc0\x1e\xd9", 5), PPS("\x68\xce\x38\x80", 4);

struct Conn_ { fsrt::Ep* e = nullptr; S got; bool open = false; void poll() { for (auto& m : fsrt::taken(e)) got += m; } bool closed() { return fsrt::peer_closed(e); } };
struct Pub : Conn_ {
    Mux mux; int t = 1; int name = 0; int group = 7;
    std::vector<S> pk; std::vector<int> cls;             // packets relayed to SRT players; 0 PAT 1 PMT 2 other 3 unit start
    std::vector<FlvPkt> fr; std::vector<int> kinds;      // frames complete by now
    std::vector<FlvPkt> open_fr; std::vector<int> open_kinds;   // frames of the access unit nothing has ended yet
    S pend; size_t npend = 0;
    void packet(const S& p, int c) { pk.push_back(p); cls.push_back(c); pend += p; if (++npend == (size_t) group) flush(); }
    void flush() { if (npend) fsrt::send(e, pend); pend.clear(); npend = 0; }
    void psi() { packet(mux.psi(0, Mux::pat({{1, PMTP}})), 0); packet(mux.psi(PMTP, Mux::pmt(VID, {{0x1b, VID, ""}, {0x0f, AUD, ""}})), 1); }
    void sdt() { packet(mux.psi(0x11, Mux::sdt()), 2); }
    void unit(bool key, size_t n, bool cts = false) {
        fr.insert(fr.end(), open_fr.begin(), open_fr.end()); kinds.insert(kinds.end(), open_kinds.begin(), open_kinds.end());
        open_fr.clear(); open_kinds.clear();
        Unit u; u.pid = VID; u.dts = 3600 * t; u.pts = u.dts + (cts ? 7200 : 0);
        std::vector<S> nals = {S("\x09\xf0")};
        if (key) { nals.push_back(SPS); nals.push_back(PPS); }
        nals.push_back(S(1, key ? 0x65 : 0x41) + fill(n, t));
        for (auto& x : nals) u.data += sc(x);
        for (auto& o : ::video(nals, u.dts / 90, u.pts / 90)) {
            FlvPkt p; p.tag = 9; p.flags = o.flags; p.ptype = o.type == AV_VIDEO_TYPE_SEQUENCE_HEADER ? 0 : 1; p.dts = o.dts; p.cts = o.pts - o.dts; p.body = o.data;
            open_fr.push_back(p); open_kinds.push_back(p.ptype == 0 ? VHDR : key ? KEY : INTER);
        }
        ++t;
        bool st = true; for (auto& p : mux.unit(u, 0xe0)) { packet(p, st ? 3 : 2); st = false; }
    }
};
// what an SRT player that joins after n packets receives in the end
static S relay(const Pub& p, size_t n) {
    S pat, pmt, r; std::vector<const S*> cur;
    for (size_t i = 0; i < n; ++i) {
        if (p.cls[i] == 0) pat = p.pk[i]; else if (p.cls[i] == 1) pmt = p.pk[i];
        else { if (p.cls[i] == 3) cur.clear(); cur.push_back(&p.pk[i]); }
    }
    r = pat + pmt; for (auto c : cur) r += *c;
    for (size_t i = n; i < p.pk.size(); ++i) r += p.pk[i];
    return r;
}
static S id(int name, bool play) { return S("#!::h=a.com/live/") + (name ? "y" : "x") + (play ? ",m=request" : ",m=publish"); }
static const char* NAMES[] = {"/live/x.flv", "/live/y.flv"};
struct SrtPlay : Conn_ { Pub* src = nullptr; size_t at = 0; bool on = false, ended = false; S want; };
struct HttpPlay : Peer { Pub* src = nullptr; size_t lo = 0; bool on = false, ended = false; size_t upto = 0; };
static void check(SrtPlay& p) {
    p.poll();
    if (!p.ended) p.want = relay(*p.src, p.at);
    MC_CHECK(p.got == p.want, "SRT player received %zu bytes that are not the %zu bytes (%zu packets) it must have: first difference at packet %zu", p.got.size(), p.want.size(), p.want.size() / 188,
             (size_t) (std::mismatch(p.got.begin(), p.got.begin() + std::min(p.got.size(), p.want.size()), p.want.begin()).first - p.got.begin()) / 188);
    mc::validated();
}
static void check(HttpPlay& p) {
    Reply r = p.reply();
    MC_CHECK(r.bad.empty() && r.head && r.status == 200, "HTTP player of an SRT stream got %d %s", r.status, r.bad.c_str());
    S want = flv_bytes(view(p.src->fr, p.src->kinds, p.lo, p.ended ? p.upto : p.src->fr.size()));
    MC_CHECK(r.body == want, "HTTP player received %zu bytes, must be the %zu bytes of the frames published", r.body.size(), want.size());
    mc::validated();
}
static void begin() { quiet(); fst::reset(); fsrt::reset(); fst::set_delay_bound(0); }
static void end_all(std::vector<Conn_*> cs, std::vector<Peer*> ps) {
    for (auto c : cs) if (c->e) fsrt::shut(c->e);
    for (auto p : ps) if (p->e) p->close();
    wait(11000 * MS);
    MC_CHECK(fst::alive() == 0, "connections are gone but coroutines are not: %s", fst::stuck().c_str());
    MC_CHECK(fst::open_fds() == 0 && fsrt::open_socks() == 0, "%d TCP and %d SRT connections leaked", fst::open_fds(), fsrt::open_socks());
    for (auto n : {"x", "y"}) MC_CHECK(!StreamCache::get_streamcache(S("a.com/live/") + n) && !StreamCache::get_streamcache(S("ts://a.com/live/") + n), "stream outlives its publisher");
}
static void dial(Conn_& c, const S& sid, int port = 6000, int window = 8192) {
    c.e = fsrt::dial(port, sid, window); MC_CHECK(c.e, "connection refused"); c.open = true; wait();
}
// all histories of publishers and players
static void histories(int depth, bool two) {
    begin();
    std::vector<std::unique_ptr<Pub>> pubs; std::vector<std::unique_ptr<SrtPlay>> sp; std::vector<std::unique_ptr<HttpPlay>> hp; std::vector<std::unique_ptr<Pub>> losers; std::vector<std::unique_ptr<Peer>> hl;
    Pub* owner[2] = {nullptr, nullptr};
    auto ended = [&](int nm) {
        for (auto& x : sp) if (x->on && x->src == owner[nm]) { x->want = relay(*x->src, x->at); x->ended = true; }
        for (auto& x : hp) if (x->on && x->src == owner[nm]) { x->ended = true; x->upto = x->src->fr.size(); }
        owner[nm] = nullptr;
    };
    for (int i = 0; i < depth; ++i) {
        int nm = two ? mc::choose(2, "name") : 0;
        Pub* p = owner[nm];
        std::vector<std::pair<int, const char*>> ops = {{0, "publish"}, {1, "play over SRT"}, {2, "play over HTTP"}, {3, "publish over HTTP"}};
        if (!p) ops.resize(i == 0 ? 1 : 4);
        if (p) { ops.push_back({4, "keyframe"}); ops.push_back({5, "frame of 3 packets"}); ops.push_back({6, "tables again"}); ops.push_back({10, "PAT again"}); ops.push_back({7, "publisher leaves"}); ops.push_back({8, "garbage"}); ops.push_back({9, "silence"}); }
        int k = mc::choose((int) ops.size(), "operation");
        mc::note("%s %s", ops[k].second, NAMES[nm]); mc::step();
        switch (ops[k].first) {
            case 0: {
                auto q = new Pub(); q->name = nm; q->group = 1;
                dial(*q, id(nm, false));
                if (p) { losers.emplace_back(q); MC_CHECK(q->closed(), "a second publisher of a live stream stays connected"); break; }
                pubs.emplace_back(q); MC_CHECK(!q->closed(), "publisher of a free name refused");
                owner[nm] = q; q->psi(); q->unit(true, 40); break;
            }
            case 1: {
                auto q = new SrtPlay(); sp.emplace_back(q); dial(*q, id(nm, true));
                if (!p) MC_CHECK(q->closed(), "player of a stream nobody publishes stays connected"); else { q->on = true; q->src = p; q->at = p->pk.size(); }
                break;
            }
            case 2: {
                auto q = new HttpPlay(); hp.emplace_back(q); q->dial(80); q->send(get("a.com", NAMES[nm])); wait();
                if (!p) { Reply r = q->reply(); MC_CHECK(r.head && r.status == 404, "play of a stream nobody publishes: status %d", r.status); } else { q->on = true; q->src = p; q->lo = p->fr.size(); }
                break;
            }
            case 3: {
                auto q = new Peer(); hl.emplace_back(q); q->dial(80); q->send(post("a.com", NAMES[nm]) + flv_header()); wait();
                if (p) MC_CHECK(fst::peer_closed(q->e), "a second publisher, over HTTP, of a live SRT stream stays connected");
                else {
                    MC_CHECK(!fst::peer_closed(q->e), "HTTP publisher of a free name refused");
                    Pub l; dial(l, id(nm, false)); MC_CHECK(l.closed(), "an SRT publisher of a live HTTP stream stays connected");
                }
                q->close(); wait();
                break;
            }
            case 4: p->unit(true, 40); break;
            case 5: p->unit(false, 400, true); break;
            case 6: p->psi(); p->sdt(); break;
            case 10: p->packet(p->mux.psi(0, Mux::pat({{1, PMTP}})), 0); break;
            case 7: fsrt::shut(p->e); wait(); MC_CHECK(p->closed(), "a publisher that left keeps its connection"); ended(nm); break;
            case 8: { fsrt::send(p->e, S(376, 'g')); wait(); MC_CHECK(p->closed(), "publisher of garbage stays connected"); ended(nm); break; }
            default: {
                wait(10100 * MS);
                for (int j = 0; j < 2; ++j) if (owner[j]) { MC_CHECK(owner[j]->closed(), "silent publisher holds its name for ever"); ended(j); }
                wait(11000 * MS);
                for (auto& x : sp) if (x->on) { check(*x); MC_CHECK(x->closed(), "SRT player of an ended stream still connected after 11 s"); x->on = false; }
                for (auto& x : hp) if (x->on) { check(*x); MC_CHECK(fst::peer_closed(x->e), "HTTP player of an ended stream still connected after 11 s"); x->on = false; x->close(); }
            }
        }
        wait(35 * MS);
        for (auto& x : sp) if (x->on) { check(*x); if (!x->ended) MC_CHECK(!x->closed(), "SRT player of a live stream disconnected"); mc::nontrivial(); }
        for (auto& x : hp) if (x->on) { check(*x); mc::nontrivial(); }
        for (int j = 0; j < 2; ++j) if (owner[j]) MC_CHECK(!owner[j]->closed(), "a publisher in good standing was disconnected");
        uint64_t h = (owner[0] != nullptr) * 2 + (owner[1] != nullptr);
        for (auto& x : sp) h = h * 31 + x->on * 2 + x->ended + x->got.size() * 7;
        for (auto& x : hp) h = h * 37 + x->on * 2 + x->ended + x->got.size() * 7;
        mc::state(h);
    }
    std::vector<Conn_*> cs; std::vector<Peer*> ps;
    for (auto& x : pubs) cs.push_back(x.get()); for (auto& x : losers) cs.push_back(x.get()); for (auto& x : sp) cs.push_back(x.get());
    for (auto& x : hp) ps.push_back(x.get()); for (auto& x : hl) ps.push_back(x.get());
    end_all(cs, ps);
}
// how a stream id is read
static void ids() {
    begin();
    struct I { const char* id; int want; };          // 1 publish x, 2 play x, 0 refused
    static const I is[] = {
        {"#!::h=a.com/live/x,m=publish", 1}, {"#!::m=publish,h=a.com/live/x", 1}, {"#!::h=a.com/live/x", 1}, {"#!::h=a.com/live/x,", 1}, {"#!::h=srt://a.com/live/x,m=publish", 1},
        {"#!::u=me,h=a.com/live/x,s=1,m=publish,", 1}, {"#!::h=a.com/live/x,m=publish,u=me", 1}, {"#!::h=a.com:6000/live/x,m=publish", 1}, {"#!::h=a.com/live/x,m=other", 1},
        {"#!::h=a.com/live/x,m=request", 2}, {"#!::m=request,h=a.com/live/x", 2}, {"#!::h=a.com/live/x,m=request,", 2}, {"#!::m=request,h=srt://a.com/live/x", 2}, {"#!::u=me,m=request,h=a.com/live/x,s=1", 2},
        {"", 0}, {"#!::", 0}, {"#!::m=publish", 0}, {"#!::m=publish,", 0}, {"#!::h=,m=publish", 0}, {"#!::h=unknown.com/live/x,m=publish", 0}, {"#!::h=unknown.com/live/x,m=request", 0}, {"#!:", 0}, {"#!::,,,", 0}, {"#!::=", 0}, {"#!::h", 0}};
    const I& x = mc::pick(is, "stream id");
    bool busy = mc::flip("x is published already");
    Pub first; if (busy) { dial(first, "#!::h=a.com/live/x,m=publish,"); MC_CHECK(!first.closed(), "publisher refused"); first.psi(); first.unit(true, 40); first.unit(false, 20); first.flush(); wait(35 * MS); }
    Pub c; dial(c, x.id);
    if (x.want == 1 && !busy) {
        MC_CHECK(!c.closed(), "%s: publisher refused", x.id);
        c.psi(); c.unit(true, 40); c.unit(false, 20); c.flush(); wait(35 * MS);
    } else if (x.want == 2 && busy) {
        MC_CHECK(!c.closed(), "%s: player refused", x.id);
        wait(35 * MS); c.poll(); S want = relay(first, first.pk.size());
        MC_CHECK(c.got == want, "%s: player received %zu bytes instead of %zu", x.id, c.got.size(), want.size());
    } else MC_CHECK(c.closed(), "%s: stays connected%s", x.id, busy ? " though x is published already" : "");
    HttpPlay h; h.dial(80); h.send(get("a.com", NAMES[0])); wait();
    if (busy || x.want == 1) { h.src = busy ? &first : &c; h.lo = h.src->fr.size(); check(h); }
    else { Reply r = h.reply(); MC_CHECK(r.head && r.status == 404, "%s: left a stream behind (%d)", x.id, r.status); }
    mc::nontrivial(); mc::state(mc::hash_str(x.id) + busy);
    end_all({&first, &c}, {&h});
}
// how the packets are grouped into messages, and where a message ends, makes no difference
static void grouping() {
    begin();
    static const int groups[] = {1, 2, 3, 5, 7};
    int g = mc::pick(groups, "packets per message"); int cut = mc::choose(4, "cut: whole packets, 187, 189, 1000 bytes per message");
    bool late = mc::flip("paced"); int player = mc::choose(3, "players join first, in the middle, at the end");
    Pub p; dial(p, id(0, false)); MC_CHECK(!p.closed(), "publisher refused"); p.group = 100000;
    SrtPlay s; HttpPlay h;
    auto join = [&](int w) { if (w != player) return; wait(35 * MS); dial(s, id(0, true)); s.src = &p; s.at = p.pk.size(); h.dial(80); h.send(get("a.com", NAMES[0])); wait(); h.src = &p; h.lo = p.fr.size(); };
    size_t step = cut == 0 ? 188 * g : cut == 1 ? 187 : cut == 2 ? 189 : 1000;
    auto out = [&] { S d = p.pend; p.pend.clear(); p.npend = 0; for (size_t at = 0; at < d.size(); at += step) { fsrt::send(p.e, d.substr(at, step)); if (late) wait(11 * MS); } wait(35 * MS); };
    p.psi(); p.sdt(); out(); join(0);
    p.unit(true, 3000); p.unit(false, 170); p.unit(false, 1, true); out(); join(1);
    p.unit(true, 200); p.psi(); p.unit(false, 1500); out(); join(2);
    p.unit(false, 10); out();
    wait(35 * MS);
    check(s); check(h);
    mc::nontrivial(); mc::state(g * 100 + cut * 10 + late * 4 + player);
    end_all({&p, &s}, {&h});
}
// a slow or stalled SRT player neither loses packets nor holds up anyone else
static void slow() {
    begin();
    int window = 1 + mc::choose(3, "window"); int rate = mc::choose(4, "takes every 20 ms, every 100 ms, nothing for 4 s, nothing");
    int frames = 3 + 3 * mc::choose(2, "frames"); bool leaves = mc::flip("publisher leaves before the slow player is done");
    Pub p; dial(p, id(0, false)); p.group = 1; p.psi(); p.unit(true, 400); wait(35 * MS);
    SrtPlay s, f; HttpPlay h;
    dial(s, id(0, true), 6000, window); s.src = &p; s.at = p.pk.size();
    dial(f, id(0, true)); f.src = &p; f.at = p.pk.size();
    h.dial(80); h.send(get("a.com", NAMES[0])); wait(); h.src = &p; h.lo = p.fr.size();
    fst::usec t0 = fst::now();
    for (int i = 0; i < frames; ++i) {
        p.unit(i % 3 == 2, 400); wait(35 * MS); check(f); check(h);
        MC_CHECK(!p.closed(), "publisher disconnected because a player is slow");
        if (rate == 0) { s.poll(); }
    }
    S want = relay(p, s.at);
    if (leaves) fsrt::shut(p.e);
    if (rate == 2) wait(4000 * MS - (fst::now() - t0)); else if (rate == 3) wait(5200 * MS);
    for (int i = 0; i < 200 && !s.closed() && s.got.size() < want.size(); ++i) { s.poll(); wait(rate == 1 ? 100 * MS : 20 * MS); }
    s.poll();
    if (rate < 3) MC_CHECK(s.got == want, "slow player received %zu of %zu bytes", s.got.size(), want.size());
    else { MC_CHECK(s.got == want.substr(0, s.got.size()), "stalled player received other bytes"); MC_CHECK(s.closed(), "player that takes nothing for 5 s stays connected"); }
    if (!leaves) { p.unit(true, 20); wait(35 * MS); check(f); check(h); }
    mc::nontrivial(); mc::state(window * 64 + rate * 4 + frames + leaves);
    end_all({&p, &s, &f}, {&h});
}
// HTTP over SRT: the same requests, the same answers
static S chop(const S& s, size_t at, size_t n) { return s.substr(at, n); }
static void http() {
    begin();
    static const size_t cuts[] = {1316, 1, 7, 100, 188};
    size_t cut = mc::pick(cuts, "bytes per message"); bool paced = cut > 50 && mc::flip("paced");
    auto send = [&](Conn_& c, const S& d) { for (size_t at = 0; at < d.size(); at += cut) { fsrt::send(c.e, chop(d, at, cut)); if (paced) wait(11 * MS); } wait(35 * MS); };
    int via = mc::choose(3, "publisher over HTTP/TCP, HTTP/SRT, SRT"), kindp = mc::choose(2, "player over HTTP/SRT, both"), first = mc::choose(2, "publisher sends more");
    std::vector<FlvPkt> v; std::vector<int> kinds; Peer tp; Conn_ cp; Pub p; uint32_t prev = 0;
    auto body = [&](int k, int i) { FlvPkt q = media(k, i); v.push_back(q); kinds.push_back(k); S t = q.tagbytes(); S r = be(prev, 4) + t; prev = t.size(); return r; };
    if (via == 0) { tp.dial(80); tp.send(post("a.com", NAMES[0]) + flv_header()); tp.send(body(KEY, 1)); wait(); }
    else if (via == 1) { dial(cp, "", 8001); send(cp, post("a.com", NAMES[0]) + flv_header()); send(cp, body(KEY, 1)); }
    else { dial(p, id(0, false)); p.psi(); p.unit(true, 300); p.unit(false, 1300); p.flush(); wait(35 * MS); }
    if (via == 2) { v = p.fr; kinds = p.kinds; }
    Conn_ c; dial(c, "", 8001); send(c, get("a.com", NAMES[0]));
    size_t lo = v.size(); Peer h; if (kindp) { h.dial(80); h.send(get("a.com", NAMES[0])); wait(); }
    if (first) {
        if (via == 0) { tp.send(body(INTER, 2)); tp.send(body(AUDIO, 3)); wait(35 * MS); }
        else if (via == 1) { send(cp, body(INTER, 2)); send(cp, body(AUDIO, 3)); }
        else { p.unit(false, 5); p.unit(true, 2000); p.flush(); wait(60 * MS); v = p.fr; kinds = p.kinds; }
    }
    c.poll(); Reply r = parse_reply(c.got, c.closed()); S want = flv_bytes(view(v, kinds, lo, v.size()));
    MC_CHECK(r.bad.empty() && r.head && r.status == 200, "HTTP over SRT player got %d %s", r.status, r.bad.c_str());
    MC_CHECK(r.body == want, "HTTP over SRT player received %zu bytes, must be %zu", r.body.size(), want.size());
    if (kindp) { Reply q = h.reply(); MC_CHECK(q.body == want, "HTTP player received %zu bytes, must be %zu", q.body.size(), want.size()); }
    // a request nobody can serve, over the same transport
    Conn_ n; dial(n, "", 8001); send(n, get("a.com", "/live/none.flv")); n.poll(); Reply q = parse_reply(n.got, n.closed());
    MC_CHECK(q.head && q.status == 404 && q.complete, "missing stream over SRT: %d", q.status);
    mc::validated(2); mc::nontrivial(); mc::state(cut * 100 + via * 10 + kindp * 2 + first);
    end_all({&cp, &p, &c, &n}, {&tp, &h});
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C24", {
        {"histories", "all histories of 6 (quick: 5) operations on one name", [t] { histories(t ? 6 : 5, false); }, 3, init},
        {"two-names", "all histories of 5 (quick: 4) operations on two names", [t] { histories(t ? 5 : 4, true); }, 3, init},
        {"ids", "25 stream ids x name free or taken", ids, 2, init},
        {"grouping", "5 groupings x 4 message boundaries x pacing x 3 moments of joining", grouping, 3, init},
        {"slow", "SRT player with a window of 1 to 3 messages x 4 rates x 3 or 6 frames x publisher leaving", slow, 3, init},
        {"http", "HTTP over SRT: 5 message sizes x pacing x 3 publishers x players", http, 3, init},
    });
}
