// C04: one publisher per stream name, for exactly as long as it is connected.
#include "stack.hpp"
using namespace stack;
static const char* SETUP =
    "http {\nserver s {\nlisten_port 80;\nrecv_timeout 20000000;\nsend_timeout 20000000;\n"
    "host a.com {\nrole source;\ntype stream;\nedge_avformat all;\n}\n"
    "host f.com {\nrole source;\ntype stream;\nedge_avformat flv;\n}\n"
    "host ts.com {\nrole source;\ntype stream;\nedge_avformat ts;\n}\n"
    "host none.com {\nrole source;\ntype stream;\n}\n"
    "host p.com {\nrole proxy;\ntype stream;\nedge_avformat all;\n}\n}\n}\n";

struct Pub : Peer { bool live = false, sent_header = false; uint32_t prev = 0; int name = 0; int framing = 0; std::vector<FlvPkt> v; std::vector<int> kinds; };
struct Play : Peer { bool on = false; Pub* src = nullptr; size_t lo = 0; size_t upto = 0; bool ended = false; };
static const char* NAMES[] = {"/live/x.flv", "/live/y.flv"};

static void check_play(Play& p) {
    Reply r = p.reply();
    MC_CHECK(r.bad.empty() && r.head && r.status == 200, "player of a live stream got %d %s", r.status, r.bad.c_str());
    size_t n = p.ended ? p.upto : p.src->v.size();
    std::string want = flv_bytes(view(p.src->v, p.src->kinds, p.lo, n));
    MC_CHECK(r.body == want, "player received %zu bytes, must be the %zu bytes of its own publisher", r.body.size(), want.size());
    mc::validated();
}
static std::string wrap(Pub& p, const std::string& s) { return p.framing == 1 ? chunk(s) : s; }

static void histories(int depth, bool two) {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    std::vector<std::unique_ptr<Pub>> pubs; std::vector<std::unique_ptr<Play>> plays;
    Pub* owner[2] = {nullptr, nullptr};
    int id = 1;
    auto settle = [&] { fst::run(fst::now()); };
    auto ended = [&](Pub* p) {
        p->live = false;
        if (owner[p->name] == p) owner[p->name] = nullptr;
        for (auto& x : plays) if (x->on && x->src == p) { x->ended = true; x->upto = p->v.size(); }
    };
    auto send_pkt = [&](Pub* p, int k) {
        FlvPkt q = media(k, id++);
        std::string t = q.tagbytes();
        p->v.push_back(q); p->kinds.push_back(k);
        p->send(wrap(*p, be(p->prev, 4) + t)); p->prev = t.size();
        settle();
    };
    for (int i = 0; i < depth; ++i) {
        int nm = two ? mc::choose(2, "name") : 0;
        std::vector<std::pair<int, const char*>> ops = {{0, "publish"}, {1, "publish chunked"}, {2, "play"}};
        if (owner[nm]) {
            ops.push_back({3, "packet"}); ops.push_back({4, "publisher disconnects"}); ops.push_back({5, "publisher disconnects inside a packet"});
            ops.push_back({6, "publisher sends garbage"});
            if (owner[nm]->framing == 1) ops.push_back({7, "publisher ends its body"});
            ops.push_back({8, "publisher falls silent"});
        }
        for (auto& x : plays) if (x->on && x->ended) { ops.push_back({9, "time passes"}); break; }
        int k = mc::choose((int) ops.size(), "operation");
        mc::note("%s %s", ops[k].second, NAMES[nm]);
        mc::step();
        switch (ops[k].first) {
            case 0: case 1: {
                pubs.emplace_back(new Pub());
                Pub* p = pubs.back().get();
                p->name = nm; p->framing = ops[k].first;
                p->dial(80);
                p->send(post("a.com", NAMES[nm], p->framing ? "Transfer-Encoding: chunked\r\n" : "") + wrap(*p, flv_header()));
                settle();
                if (owner[nm]) {
                    MC_CHECK(fst::peer_closed(p->e), "a second publisher of a live stream stays connected");
                    p->close(); settle();
                } else {
                    MC_CHECK(!fst::peer_closed(p->e), "publisher of a free name refused");
                    p->live = true; owner[nm] = p;
                    send_pkt(p, KEY);
                }
                break;
            }
            case 2: {
                plays.emplace_back(new Play());
                Play* p = plays.back().get();
                p->dial(80); p->send(get("a.com", NAMES[nm]));
                settle();
                if (owner[nm]) { p->on = true; p->src = owner[nm]; p->lo = owner[nm]->v.size(); }
                else {
                    Reply r = p->reply();
                    MC_CHECK(r.bad.empty() && r.head && r.status == 404, "play of a stream nobody publishes: status %d %s", r.status, r.bad.c_str());
                    MC_CHECK(r.complete && r.body.empty() && r.rest.empty(), "the end of the 404 response is not visible to the player");
                    p->close(); settle();
                }
                break;
            }
            case 3: send_pkt(owner[nm], mc::flip("keyframe") ? KEY : AUDIO); break;
            case 4: { Pub* p = owner[nm]; p->close(); settle(); ended(p); break; }
            case 5: { Pub* p = owner[nm]; FlvPkt q = media(KEY, id); std::string t = be(p->prev, 4) + q.tagbytes(); p->send(wrap(*p, t.substr(0, t.size() - 2))); p->close(); settle(); ended(p); break; }
            case 6: { Pub* p = owner[nm]; int g = p->framing == 1 ? mc::choose(3, "garbage") : 0;
                      if (g) p->send(g == 1 ? std::string("zz\r\n") : "4\r\n" + be(p->prev, 4) + "no end");
                      else p->send(wrap(*p, be(p->prev, 4) + "\x09\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x2f" + std::string(40, '\0'))); settle(); p->poll();
                      MC_CHECK(p->eof, "publisher of a malformed stream stays connected"); p->close(); settle(); ended(p); break; }
            case 7: { Pub* p = owner[nm]; p->send("0\r\n\r\n"); settle(); p->poll(); MC_CHECK(p->eof, "publisher that ended its body stays connected"); p->close(); settle(); ended(p); break; }
            case 8: {
                // 20 s without a byte: both publishers time out, and the players with them
                fst::run(fst::now() + 21000000);
                for (int j = 0; j < 2; ++j) if (owner[j]) { Pub* p = owner[j]; MC_CHECK(fst::peer_closed(p->e), "silent publisher holds its name for ever"); p->close(); settle(); ended(p); }
            }   // fall through: the players are gone as well
            case 9: {
                fst::run(fst::now() + 11000000);
                for (auto& x : plays) if (x->on) {
                    check_play(*x);
                    if (x->ended || fst::peer_closed(x->e)) { MC_CHECK(fst::peer_closed(x->e), "player of an ended stream still connected after 11 s"); x->on = false; x->close(); settle(); }
                }
                break;
            }
        }
        for (auto& x : plays) if (x->on) { check_play(*x); mc::nontrivial(); }
        for (int j = 0; j < 2; ++j) if (owner[j]) MC_CHECK(!fst::peer_closed(owner[j]->e), "a publisher in good standing was disconnected");
        uint64_t h = (owner[0] != nullptr) * 2 + (owner[1] != nullptr);
        for (auto& x : plays) h = h * 31 + x->on * 2 + x->ended + x->got.size() * 7;
        mc::state(h);
    }
    std::vector<Peer*> all;
    for (auto& p : pubs) all.push_back(p.get());
    for (auto& p : plays) all.push_back(p.get());
    finish(all);
    for (int j = 0; j < 2; ++j) MC_CHECK(!StreamCache::get_streamcache(std::string("a.com") + (j ? "/live/y" : "/live/x")), "stream outlives its publisher");
}
// publishers racing for one name
static void race(int npub, int delays) {
    quiet(); fst::reset();
    std::vector<std::unique_ptr<Pub>> pubs;
    fst::set_delay_bound(delays);
    int leave = mc::choose(2, "winner leaves early");
    for (int i = 0; i < npub; ++i) {
        pubs.emplace_back(new Pub());
        Pub* p = pubs.back().get();
        fst::spawn("publisher", [&, p, i] {
            p->dial(80);
            p->send(post("a.com", NAMES[0]));
            fst::yield();
            p->send(flv_header());
            for (int k = 0; k < 2; ++k) {
                FlvPkt q = media(k ? AUDIO : KEY, 1 + i * 10 + k);
                std::string t = q.tagbytes();
                p->v.push_back(q); p->kinds.push_back(k ? AUDIO : KEY);
                p->send(be(p->prev, 4) + t); p->prev = t.size();
                fst::yield();
            }
        });
    }
    fst::run(fst::now() + 1000);
    int alive = 0; Pub* win = nullptr;
    for (auto& p : pubs) if (!fst::peer_closed(p->e)) { ++alive; win = p.get(); }
    MC_CHECK(alive == 1, "%d publishers of one name are connected", alive);
    fst::set_delay_bound(0);
    Play pl; pl.dial(80); pl.send(get("a.com", NAMES[0])); fst::run(fst::now());
    pl.on = true; pl.src = win; pl.lo = win->v.size();
    check_play(pl);
    if (leave) {
        win->close(); fst::run(fst::now());
        Pub* n = new Pub(); pubs.emplace_back(n);
        n->dial(80); n->send(post("a.com", NAMES[0])); n->send(flv_header()); fst::run(fst::now());
        MC_CHECK(!fst::peer_closed(n->e), "name not reusable after its publisher left");
        FlvPkt q = media(KEY, 77); n->send(be(0, 4) + q.tagbytes()); n->v = {q}; n->kinds = {KEY};
        fst::run(fst::now());
        check_play(pl);
        Play p2; p2.dial(80); p2.send(get("a.com", NAMES[0])); fst::run(fst::now());
        p2.on = true; p2.src = n; p2.lo = 1;
        check_play(p2);
        p2.close(); fst::run(fst::now());
    }
    mc::nontrivial(); mc::state(win->v[0].dts);
    std::vector<Peer*> all{&pl};
    for (auto& p : pubs) all.push_back(p.get());
    finish(all);
}
// which names are the same name
static void names() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    static const struct { const char *h1, *t1, *h2, *t2; bool same; } prs[] = {
        {"a.com", "/live/x.flv", "a.com", "/live/x.flv", true}, {"a.com", "/live/x.flv", "a.com", "/live/x.flv?a=b.flv", true}, {"a.com", "/live/x.flv?x=1", "a.com", "/live/x.flv?x=2", true},
        {"a.com", "/live/x.flv", "f.com", "/live/x.flv", false}, {"a.com", "/live/cam.1.flv", "a.com", "/live/cam.2.flv", false}, {"a.com", "/a.b/x.flv", "a.com", "/a.c/x.flv", false},
        {"a.com", "/live/x.flv.flv", "a.com", "/live/x.flv", false}, {"a.com", "/x.flv", "a.com", "/live/x.flv", false}, {"a.com", "/live/x.flv", "a.com", "/live/X.flv", false},
        {"a.com", "/live/1.flv", "a.com", "/live/11.flv", false}, {"a.com", "/live/x/y.flv", "a.com", "/live/x.flv", false}, {"a.com", "/live/cam.1.flv", "a.com", "/live/cam.flv", false},
        {"a.com", "/live/a-b_c.flv", "a.com", "/live/a-b.flv", false}, {"a.com", "/live/.flv", "a.com", "/live/x.flv", false}, {"a.com", "/live/flv.flv", "a.com", "/live/flv", false},
        {"a.com", "/live/x.flv", "a.com", "/live//x.flv", false}, {"a.com", "/live%20/x.flv", "a.com", "/live/x.flv", false},
#define T10 "abcdefghij"
#define T100 T10 T10 T10 T10 T10 T10 T10 T10 T10 T10
        {"a.com", "/live/" T10 "1.flv", "a.com", "/live/" T10 "2.flv", false}, {"a.com", "/live/" T10 T10 "1.flv", "a.com", "/live/" T10 T10 "2.flv", false}, {"a.com", "/live/1" T10 T10 T10 ".flv", "a.com", "/live/2" T10 T10 T10 ".flv", false},
        {"a.com", "/live/" T100 "1.flv", "a.com", "/live/" T100 "2.flv", false}, {"a.com", "/" T100 "/1/x.flv", "a.com", "/" T100 "/2/x.flv", false}, {"a.com", "/1/" T100 T100 T100 T100 T100 "/x.flv", "a.com", "/2/" T100 T100 T100 T100 T100 "/x.flv", false},
        {"a.com", "/live/" T100 T100 T100 T100 T100 T100 T100 T100 "1.flv", "a.com", "/live/" T100 T100 T100 T100 T100 T100 T100 T100 "2.flv", false}, {"a.com", "/live/" T100 ".flv?" T100, "a.com", "/live/" T100 ".flv", true}};
    auto& n = mc::pick(prs, "names"); bool swap = mc::flip("other order");
    const char* h[2] = {swap ? n.h2 : n.h1, swap ? n.h1 : n.h2}; const char* t[2] = {swap ? n.t2 : n.t1, swap ? n.t1 : n.t2};
    if (!strstr(t[0], ".flv") || !strstr(t[1], ".flv")) return;
    Pub p[2]; Play pl[2], late[2]; int ends = mc::choose(2, "the one that ends");
    for (int i = 0; i < 2; ++i) { mc::step(); p[i].dial(80); p[i].send(post(h[i], t[i]) + flv_header()); fst::run(fst::now()); if (i && n.same) break; MC_CHECK(!fst::peer_closed(p[i].e), "publisher of %s%s refused while %s%s is live", h[i], t[i], h[0], t[0]); }
    if (n.same) {
        MC_CHECK(fst::peer_closed(p[1].e), "%s and %s are one name: the second publisher stays connected", t[0], t[1]);
        MC_CHECK(!fst::peer_closed(p[0].e), "the first publisher was disconnected"); ends = 0;
    }
    auto packet = [&](int i, int k, int id) { FlvPkt q = media(k, id); std::string b = q.tagbytes(); p[i].v.push_back(q); p[i].kinds.push_back(k); p[i].send(be(p[i].prev, 4) + b); p[i].prev = b.size(); fst::run(fst::now()); };
    int np = n.same ? 1 : 2;
    for (int i = 0; i < np; ++i) packet(i, KEY, 1 + i * 10);
    for (int i = 0; i < 2; ++i) { pl[i].src = &p[n.same ? 0 : i]; pl[i].lo = 1; pl[i].dial(80); pl[i].send(get(h[i], t[i])); fst::run(fst::now()); }
    for (int i = 0; i < np; ++i) packet(i, AUDIO, 2 + i * 10);
    for (int i = 0; i < 2; ++i) check_play(pl[i]);
    p[ends].close(); fst::run(fst::now());
    for (int i = 0; i < 2; ++i) {
        late[i].dial(80); late[i].send(get(h[i], t[i])); fst::run(fst::now()); Reply r = late[i].reply();
        bool gone = n.same || i == ends;
        MC_CHECK(r.head && r.status == (gone ? 404 : 200), "play of %s%s after the publisher of %s%s left: status %d", h[i], t[i], h[ends], t[ends], r.status);
    }
    if (!n.same) { packet(1 - ends, AUDIO, 5); check_play(pl[1 - ends]); }
    mc::nontrivial(); mc::state(mc::hash_str(std::string(t[0]) + t[1], ends));
    finish({&p[0], &p[1], &pl[0], &pl[1], &late[0], &late[1]});
}
// who may publish what
static void rights() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    struct R { const char* host; const char* ext; int want; };   // 200 accepted, 403, 404, -1 disconnected
    static const R rs[] = {{"a.com", "flv", 200}, {"f.com", "flv", 200}, {"ts.com", "flv", 403}, {"none.com", "flv", 403}, {"p.com", "flv", 403}, {"unknown.com", "flv", 404},
                           {"a.com", "xyz", -1}, {"a.com", "flvx", -1}, {"a.com", "fl", -1}, {"a.com", "", -1}, {"f.com", "ts", 403}, {"f.com", "xyz", 403}, {"f.com", "flvx", 403}, {"a.com", "FLV", -1}, {"f.com", "f", 403}, {"f.com", "fl", 403}, {"f.com", "", 403}, {"f.com", "FLV", 403}, {"f.com", "lv", 403}, {"ts.com", "t", 403}, {"ts.com", "", 403}, {"none.com", "", 403}, {"none.com", "all", 403}, {"f.com", "all", 403}};
    const R& r = mc::pick(rs, "host and format");
    std::string target = std::string("/live/x") + (*r.ext ? "." : "") + r.ext;
    bool chunked = mc::flip("chunked");
    int later = mc::choose(2, "body sent at once");
    Pub p; p.framing = chunked;
    p.dial(80);
    std::string head = post(r.host, target, chunked ? "Transfer-Encoding: chunked\r\n" : "");
    FlvPkt q = media(KEY, 1);
    std::string body = wrap(p, flv_header() + be(0, 4) + q.tagbytes());
    if (later) { p.send(head + body); fst::run(fst::now()); } else { p.send(head); fst::run(fst::now()); }
    p.poll();
    if (r.want == 200) {
        if (!later) { p.send(body); fst::run(fst::now()); }
        MC_CHECK(!fst::peer_closed(p.e), "publisher of %s%s refused", r.host, target.c_str());
        Play pl; pl.dial(80); pl.send(get(r.host, target)); fst::run(fst::now());
        p.v = {q}; p.kinds = {KEY}; pl.src = &p; pl.lo = 1;
        check_play(pl);
        pl.close();
    } else if (r.want > 0) {
        Reply rep = p.reply();
        MC_CHECK(rep.head && rep.status == r.want, "publish of %s%s answered with %d", r.host, target.c_str(), rep.status);
        MC_CHECK(rep.complete, "the end of the %d response is not visible to the publisher", r.want);
    } else {
        MC_CHECK(fst::peer_closed(p.e), "publisher of unsupported format %s stays connected", r.ext);
    }
    if (r.want != 200) {
        Play pl; pl.dial(80); pl.send(get(r.host, "/live/x.flv")); fst::run(fst::now());
        Reply rep = pl.reply();
        MC_CHECK(rep.head && rep.status == 404, "a refused publish left a stream behind: play answers %d", rep.status);
        pl.close();
    }
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(std::string(r.host) + r.ext));
    finish({&p});
}
// a publish that goes wrong from its first byte on: the name is free again
static void starts() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    int framing = mc::choose(3, "framing");      // until close, chunked, length
    FlvPkt q = media(KEY, 1), q2 = media(AUDIO, 2);
    std::string body = flv_header() + be(0, 4) + q.tagbytes() + be(q.tagbytes().size(), 4) + q2.tagbytes();
    int kind = mc::choose(2, "how"); size_t at = 0; int end = 0;
    if (kind == 0) { at = mc::choose((int) body.size(), "breaks off behind"); end = mc::choose(framing ? 4 : 3, "by"); }
    else { at = mc::choose(9, "byte"); static const char to[] = {0, 'F', 'f', 'L', 'V', (char) 0xff, 1}; char c = mc::pick(to, "becomes"); if (c == body[at]) return; body[at] = c; }
    auto head = [&](size_t n) { return post("a.com", NAMES[0], framing == 0 ? "" : framing == 1 ? "Transfer-Encoding: chunked\r\n" : "Content-Length: " + std::to_string(n) + "\r\n"); };
    auto wrapped = [&](const std::string& b) { return framing == 1 && !b.empty() ? chunk(b) : b; };
    Pub p; p.dial(80);
    if (kind == 0) {
        bool split = mc::flip("in pieces");
        std::string b = wrapped(body.substr(0, at));
        p.send(head(end == 3 ? at : body.size()));
        if (split) for (char c : b) { p.send(std::string(1, c)); fst::run(fst::now()); } else p.send(b);
        fst::run(fst::now());
        if (at < 9 && end != 3) MC_CHECK(!fst::peer_closed(p.e), "publisher dropped inside its header");
        if (end == 0) p.close();
        if (end == 1) { fst::on_read = [&](fst::Ep*, size_t) { return ECONNRESET; }; p.close(); }
        if (end == 2) fst::run(fst::now() + 21000000);
        if (end == 3 && framing == 1) p.send("0\r\n\r\n");
        fst::run(fst::now());
        fst::on_read = nullptr;
        MC_CHECK(end < 2 || fst::peer_closed(p.e), "a publisher whose stream broke off after %zu bytes stays connected", at);
    } else {
        p.send(head(body.size() + 100) + wrapped(body)); fst::run(fst::now());
        MC_CHECK(fst::peer_closed(p.e) == (at < 3), "publisher with byte %zu of its header changed: %s", at, at < 3 ? "stays connected" : "dropped");
        p.close(); fst::run(fst::now());
    }
    MC_CHECK(!StreamCache::get_streamcache("a.com/live/x"), "the stream outlives a publisher that ended after %zu bytes", at);
    Play no; no.dial(80); no.send(get("a.com", NAMES[0])); fst::run(fst::now());
    Reply r = no.reply();
    MC_CHECK(r.head && r.status == 404, "play after a publish that went wrong: status %d", r.status);
    Pub n; n.dial(80); n.send(post("a.com", NAMES[0]) + flv_header()); fst::run(fst::now());
    MC_CHECK(!fst::peer_closed(n.e), "the name stays taken behind a publish that went wrong after %zu bytes", at);
    FlvPkt k = media(KEY, 7); n.send(be(0, 4) + k.tagbytes()); n.v = {k}; n.kinds = {KEY}; fst::run(fst::now());
    Play pl; pl.dial(80); pl.send(get("a.com", NAMES[0])); fst::run(fst::now());
    pl.on = true; pl.src = &n; pl.lo = 1;
    check_play(pl);
    mc::nontrivial(); mc::state(kind * 100000 + at * 64 + end * 8 + framing);
    finish({&p, &no, &n, &pl});
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    auto init = [] { boot(SETUP); };
    return mc::run(argc, argv, "C04", {
        {"one-name", "all histories of 8 (quick: 6) operations of {publish, publish chunked, play, packet, five ways for a publisher to end, time} on one name", [t] { histories(t ? 8 : 6, false); }, 3, init},
        {"two-names", "all histories of 6 (quick: 5) such operations on two names", [t] { histories(t ? 6 : 5, true); }, 3, init},
        {"race", "3 publishers racing for one name, every schedule with up to 6 (quick: 5) deviations from FIFO", [t] { race(3, t ? 6 : 5); }, 3, init},
        {"starts", "the stream breaks off behind each of its first 60 bytes in 4 ways, or any byte of its header is wrong, in 3 framings", starts, 3, init},
        {"names", "25 pairs of names up to 800 characters, both orders: same or different, play and end of each", names, 2, init},
        {"rights", "24 combinations of host role and format", rights, 2, init},
    });
}
