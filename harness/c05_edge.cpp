// C05: an edge pulls each stream once, shares it, and recovers from every origin failure.
#include "stack.hpp"
using namespace stack;
static const char* SETUP =
    "http {\nserver s {\nlisten_port 80;\n"
    "host e.com {\nrole edge;\ntype stream;\nedge_avformat flv;\npass_proxy 127.0.0.1:9000;\n}\n"
    "host f.com {\nrole edge;\ntype stream;\nedge_avformat flv;\npass_proxy 127.0.0.1:9001;\n}\n}\n}\n";

struct Pull {                 // one connection of the edge to its origin
    fst::Ep* e = nullptr; int name = 0; bool live = false, pending = false, chunked = false; uint32_t prev = 0;
    std::vector<FlvPkt> v; std::vector<int> kinds;
};
struct Play : Peer { int name = 0; Pull* src = nullptr; size_t lo = 0; bool on = false, waiting = false, ended = false; size_t upto = 0; };
static const char* NAMES[] = {"/live/x.flv", "/live/y.flv"};
static void settle() { fst::run(fst::now()); }

static void check_play(Play& p) {
    Reply r = p.reply();
    MC_CHECK(r.bad.empty() && r.head && r.status == 200, "player of a pulled stream got %s", mc::quote(p.got.substr(0, 60)).c_str());
    size_t n = p.ended ? p.upto : p.src->v.size();
    std::string want = flv_bytes(view(p.src->v, p.src->kinds, p.lo, n));
    MC_CHECK(r.body == want, "player received %zu bytes, must be %zu of the origin's stream", r.body.size(), want.size());
    mc::validated();
}
static void check_404(Play& p) {
    Reply r = p.reply();
    MC_CHECK(r.bad.empty() && r.head && r.status == 404 && r.complete && r.rest.empty(), "player of a stream the origin does not deliver got %s", mc::quote(p.got.substr(0, 80)).c_str());
    mc::validated();
}
static void histories(int depth, bool two) {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    std::vector<std::unique_ptr<Pull>> pulls; std::vector<std::unique_ptr<Play>> plays;
    Pull* act[2] = {nullptr, nullptr};
    int id = 1;
    auto packet = [&](Pull* p, int k) {
        FlvPkt q = media(k, id++); std::string t = q.tagbytes();
        p->v.push_back(q); p->kinds.push_back(k);
        std::string b = be(p->prev, 4) + t; p->prev = t.size();
        fst::send(p->e, p->chunked ? chunk(b) : b); settle();
    };
    auto ended = [&](Pull* p) {
        p->live = p->pending = false; act[p->name] = nullptr;
        for (auto& x : plays) if (x->on && x->src == p) { x->ended = true; x->upto = p->v.size(); }
    };
    auto failed = [&](Pull* p) {        // the pull never became a stream
        ended(p);
        for (auto& x : plays) if (x->waiting && x->name == p->name) { x->waiting = false; check_404(*x); x->close(); settle(); }
    };
    auto answer = [&](Pull* p) {
        static const char* const how[] = {"200", "200 chunked", "404", "302", "closes", "garbage", "200 and closes", "silence"};
        int k = mc::choose(8, "origin answers"); mc::note("origin answers %s", how[k]);
        p->chunked = k == 1;
        switch (k) {
            case 0: case 1:
                fst::send(p->e, std::string("HTTP/1.1 200 OK\r\n") + (k ? "Transfer-Encoding: chunked\r\n" : "") + "\r\n" + (k ? chunk(flv_header()) : flv_header()));
                settle(); p->pending = false; p->live = true;
                for (auto& x : plays) if (x->waiting && x->name == p->name) { x->waiting = false; x->on = true; x->src = p; x->lo = 0; }
                packet(p, KEY);
                return;
            case 2: fst::send(p->e, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"); break;
            case 3: fst::send(p->e, "HTTP/1.1 302 Found\r\nContent-Length: 0\r\nLocation: /\r\n\r\n"); break;
            case 4: fst::shut(p->e); break;
            case 5: fst::send(p->e, "SSH-2.0-x\r\n\r\n"); break;
            case 6:     // the stream opens and ends at once: a player may get an empty 200 or a 404, then its end
                fst::send(p->e, "HTTP/1.1 200 OK\r\n\r\n"); fst::shut(p->e); settle(); ended(p);
                for (auto& x : plays) if (x->waiting && x->name == p->name) {
                    x->waiting = false; Reply r = x->reply();
                    MC_CHECK(r.head && r.bad.empty() && (r.status == 404 || r.status == 200), "player got %s", mc::quote(x->got).c_str());
                    x->close(); settle();
                }
                fst::shut(p->e); return;
            case 7: {
                fst::run(fst::now() + 12000000);
                for (auto& x : plays) if (x->on) { x->on = false; x->close(); settle(); }
                for (int j = 0; j < 2; ++j) if (act[j] && act[j] != p) { Pull* q = act[j]; MC_CHECK(fst::peer_closed(q->e), "edge still holds a connection to a silent origin after 12 s"); fst::shut(q->e); settle(); failed(q); }
            }
        }
        settle(); MC_CHECK(fst::peer_closed(p->e), "edge keeps a connection to an origin that does not deliver");
        fst::shut(p->e); settle(); failed(p);
    };
    for (int i = 0; i < depth; ++i) {
        int nm = two ? mc::choose(2, "name") : 0;
        std::vector<std::pair<int, const char*>> ops = {{0, "play"}};
        if (!act[nm]) ops.push_back({1, "play while the origin is down"});
        if (act[nm] && act[nm]->pending) ops.push_back({2, "origin answers"});
        if (act[nm] && act[nm]->live) { ops.push_back({3, "packet"}); ops.push_back({4, "origin ends"}); ops.push_back({5, "origin falls silent"}); ops.push_back({6, "origin sends garbage"}); }
        for (auto& x : plays) if (x->on && x->name == nm) { ops.push_back({7, "player leaves"}); break; }
        for (auto& x : plays) if (x->waiting && x->name == nm) { ops.push_back({8, "waiting player leaves"}); break; }
        int k = mc::choose((int) ops.size(), "operation");
        mc::note("%s %s", ops[k].second, NAMES[nm]); mc::step();
        switch (ops[k].first) {
            case 0: case 1: {
                bool down = ops[k].first == 1;
                plays.emplace_back(new Play()); Play* p = plays.back().get(); p->name = nm;
                if (down) fst::on_connect = [](int) { return ECONNREFUSED; };
                p->dial(80); p->send(get("e.com", NAMES[nm])); settle();
                fst::on_connect = nullptr;
                fst::Ep* e = fst::accept(l, 0);
                if (down) { MC_CHECK(!e, "?"); check_404(*p); p->close(); settle(); break; }
                if (act[nm]) {
                    MC_CHECK(!e, "a second connection to the origin for one stream");
                    if (act[nm]->live) { p->on = true; p->src = act[nm]; p->lo = p->src->v.size(); } else p->waiting = true;
                } else {
                    MC_CHECK(e, "edge does not ask the origin");
                    pulls.emplace_back(new Pull()); Pull* q = pulls.back().get(); q->e = e; q->name = nm; q->pending = true; act[nm] = q;
                    settle();
                    std::string rq = fst::taken(e), first = std::string("GET ") + NAMES[nm] + " HTTP/1.1\r\n";
                    MC_CHECK(rq.compare(0, first.size(), first) == 0 && rq.find("\r\n\r\n") == rq.size() - 4, "origin was asked %s", mc::quote(rq).c_str());
                    p->waiting = true;
                }
                break;
            }
            case 2: answer(act[nm]); break;
            case 3: packet(act[nm], mc::flip("keyframe") ? KEY : AUDIO); break;
            case 4: { Pull* p = act[nm]; fst::shut(p->e); settle(); ended(p); break; }
            case 6: { Pull* p = act[nm]; std::string g = be(p->prev, 4) + std::string("\x09\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x2f", 12) + std::string(40, '\0'); fst::send(p->e, p->chunked ? chunk(g) : g); settle();
                      MC_CHECK(fst::peer_closed(p->e), "edge goes on with a malformed stream"); fst::shut(p->e); settle(); ended(p); break; }
            case 5: {
                fst::run(fst::now() + 12000000);
                for (int j = 0; j < 2; ++j) if (act[j]) { Pull* p = act[j]; MC_CHECK(fst::peer_closed(p->e), "edge holds a connection to a silent origin for ever"); fst::shut(p->e); settle(); if (p->live) ended(p); else failed(p); }
                fst::run(fst::now() + 11000000);
                for (auto& x : plays) if (x->on) { check_play(*x); MC_CHECK(fst::peer_closed(x->e), "player of an ended stream still connected after 11 s"); x->on = false; x->close(); settle(); }
                break;
            }
            case 7: for (auto& x : plays) if (x->on && x->name == nm) { check_play(*x); x->on = false; x->close(); settle(); break; } break;
            case 8: for (auto& x : plays) if (x->waiting && x->name == nm) { x->waiting = false; x->close(); settle(); break; } break;
        }
        for (auto& x : plays) if (x->on) { check_play(*x); mc::nontrivial(); }
        for (auto& x : plays) if (x->waiting) { x->poll(); MC_CHECK(x->got.empty() && !x->eof, "a player was answered before the origin"); }
        for (int j = 0; j < 2; ++j) if (act[j]) MC_CHECK(!fst::peer_closed(act[j]->e), "the pull was dropped without cause");
        MC_CHECK(!fst::accept(l, 0), "unexpected connection to the origin");
        uint64_t h = 0;
        for (int j = 0; j < 2; ++j) h = h * 3 + (act[j] ? act[j]->live + 1 : 0);
        for (auto& x : plays) h = h * 31 + x->on * 2 + x->waiting + x->got.size() * 7;
        mc::state(h);
    }
    for (auto& p : pulls) fst::shut(p->e);
    std::vector<Peer*> all; for (auto& p : plays) all.push_back(p.get());
    finish(all);
    for (int j = 0; j < 2; ++j) MC_CHECK(!StreamCache::get_streamcache(std::string("e.com") + (j ? "/live/y" : "/live/x")), "stream outlives its pull");
}
// players race for a stream whose first pulls fail or end at once; every schedule within the delay bound
static void race(int nplay, int delays) {
    quiet(); fst::reset();
    auto l = fst::listen(9000);
    std::vector<std::unique_ptr<Play>> plays; std::vector<std::unique_ptr<Pull>> pulls;
    static const char* const modes[] = {"404", "closes", "200 and ends", "200 with a packet and ends", "serves"};
    int first = mc::choose(5, "first pull"), second = mc::choose(2, "second pull") * 4;
    mc::note("first pull: origin %s; second: %s", modes[first], modes[second]);
    int gap = mc::choose(4, "gap between players");
    fst::set_delay_bound(delays);
    int n = 0;
    std::vector<FlvPkt> v; std::vector<int> kinds{KEY, AUDIO, AUDIO};
    for (int i = 0; i < 3; ++i) v.push_back(media(kinds[i], i + 1));
    fst::spawn("origin", [&] {
        for (;;) {
            fst::Ep* e = fst::accept(l, 1000000);
            if (!e) return;
            int mode = n == 0 ? first : n == 1 ? second : 4; ++n;
            // the edge must have let go of the previous pull before it opens the next one
            for (auto& p : pulls) MC_CHECK(!p->live || fst::peer_closed(p->e), "two pulls of one stream at the same time");
            pulls.emplace_back(new Pull()); pulls.back()->e = e; pulls.back()->live = true;
            Pull* me = pulls.back().get();
            fst::spawn("origin connection", [&, e, mode, me] {
                if (mode >= 1 && mode <= 3) me->live = false;      // will end by itself
                std::string rq; bool eof = false;
                while (rq.find("\r\n\r\n") == std::string::npos) if (!fst::recv(e, rq, 1000000, eof)) { fst::shut(e); return; }
                if (mode == 0) { fst::send(e, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"); return; }
                if (mode == 1) { fst::shut(e); return; }
                std::string b = "HTTP/1.1 200 OK\r\n\r\n";
                if (mode == 2) { fst::send(e, b); fst::shut(e); return; }
                std::string f = flv_bytes(v);
                if (mode == 3) { fst::send(e, b + flv_header() + be(0, 4) + v[0].tagbytes()); fst::shut(e); return; }
                fst::send(e, b + flv_header() + be(0, 4) + v[0].tagbytes());
                fst::sleep(5);
                for (size_t i = 1; i < v.size(); ++i) { fst::send(e, be(v[i - 1].tagbytes().size(), 4) + v[i].tagbytes()); fst::yield(); }
            });
        }
    });
    for (int i = 0; i < nplay; ++i) {
        plays.emplace_back(new Play()); Play* p = plays.back().get();
        fst::spawn("player", [p, i, gap] { for (int k = 0; k < i * gap; ++k) fst::yield(); p->dial(80); p->send(get("e.com", NAMES[0])); });
    }
    fst::run(fst::now() + 5000000);
    // settled: every player is either refused or plays; if a pull is up, it is shared by all who came while it was
    bool up = !pulls.empty() && pulls.back()->live && !fst::peer_closed(pulls.back()->e);
    for (auto& p : plays) {
        Reply r = p->reply();
        MC_CHECK(r.head && r.bad.empty() && (r.status == 404 || r.status == 200), "player got %s", mc::quote(p->got.substr(0, 60)).c_str());
        if (r.status == 404) { MC_CHECK(r.complete, "open 404"); continue; }
        bool ok = false;
        for (size_t j = 0; j <= v.size(); ++j) for (size_t m = j; m <= v.size(); ++m) if (flv_bytes(view(v, kinds, j, m)) == r.body) ok = true;
        if (r.body == "") ok = true;
        MC_CHECK(ok, "player received %zu bytes that are not the origin's stream", r.body.size());
    }
    // a player that comes now shares the running pull, or starts the one and only new one
    fst::set_delay_bound(0);
    Play late; size_t before = pulls.size();
    fst::spawn("origin again", [&] {
        if (up) return;
        fst::Ep* e = fst::accept(l, 1000000);
        if (!e) return;
        pulls.emplace_back(new Pull()); pulls.back()->e = e;
        std::string rq; bool eof = false;
        while (rq.find("\r\n\r\n") == std::string::npos) if (!fst::recv(e, rq, 1000000, eof)) return;
        fst::send(e, "HTTP/1.1 200 OK\r\n\r\n" + flv_header() + be(0, 4) + v[0].tagbytes());
    });
    late.dial(80); late.send(get("e.com", NAMES[0])); settle();
    Reply r = late.reply();
    MC_CHECK(pulls.size() == before + !up, "%zu new pulls, %s running", pulls.size() - before, up ? "one" : "none");
    MC_CHECK(r.head && r.status == 200, "a player that comes later gets %s", mc::quote(late.got.substr(0, 60)).c_str());
    std::string want = up ? flv_bytes(view(v, kinds, v.size(), v.size())) : flv_bytes(view(v, kinds, 0, 1));
    MC_CHECK(r.body == want, "a player that comes later gets %zu bytes instead of %zu", r.body.size(), want.size());
    mc::validated(); mc::nontrivial(); mc::state(pulls.size() * 10 + up);
    for (auto& p : pulls) fst::shut(p->e);
    std::vector<Peer*> all{&late}; for (auto& p : plays) all.push_back(p.get());
    finish(all);
    MC_CHECK(!StreamCache::get_streamcache("e.com/live/x"), "stream outlives its pull");
}
// bursts: several events reach the server before any of its coroutines runs
static void bursts(int depth) {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    std::vector<std::unique_ptr<Play>> plays; std::vector<std::unique_ptr<Pull>> pulls;
    FlvPkt k0 = media(KEY, 1), k1 = media(AUDIO, 2);
    std::vector<FlvPkt> v{k0, k1}; std::vector<int> kinds{KEY, AUDIO};
    auto look = [&] {
        settle();
        while (fst::Ep* e = fst::accept(l, 0)) {
            for (auto& p : pulls) MC_CHECK(!p->live || fst::peer_closed(p->e), "two pulls of one stream at the same time");
            pulls.emplace_back(new Pull()); pulls.back()->e = e; pulls.back()->live = pulls.back()->pending = true;
            settle();
        }
    };
    bool dirty = false;
    for (int i = 0; i < depth; ++i) {
        std::vector<int> ops;
        Pull* p = pulls.empty() || !pulls.back()->live ? nullptr : pulls.back().get();
        if (plays.size() < 4) ops.push_back(0);
        if (dirty) ops.push_back(1);
        if (p && p->pending) { ops.push_back(2); ops.push_back(3); ops.push_back(4); ops.push_back(5); }
        if (p && !p->pending) ops.push_back(6);
        if (ops.empty()) break;
        static const char* const nm[] = {"request", "settle", "origin 404", "origin closes", "origin 200 and closes", "origin serves", "origin ends"};
        int op = mc::pick(ops, "event"); mc::note("%s", nm[op]); mc::step();
        if (op != 1) dirty = true;
        switch (op) {
            // an environment coroutine would run last: dial and let the accept loop start the connection's coroutine first
            case 0: { plays.emplace_back(new Play()); Play* q = plays.back().get(); q->dial(80); q->send(get("e.com", NAMES[0])); break; }
            case 1: look(); dirty = false; break;
            case 2: fst::send(p->e, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"); p->live = false; break;
            case 3: fst::shut(p->e); p->live = false; break;
            case 4: fst::send(p->e, "HTTP/1.1 200 OK\r\n\r\n"); fst::shut(p->e); p->live = false; break;
            case 5: fst::send(p->e, "HTTP/1.1 200 OK\r\n\r\n" + flv_header() + be(0, 4) + k0.tagbytes()); p->pending = false; break;
            case 6: fst::shut(p->e); p->live = false; break;
        }
    }
    look();
    // serve whatever is pending, then everybody who waits must play it and a newcomer shares it
    if (!pulls.empty() && pulls.back()->live && pulls.back()->pending) { fst::send(pulls.back()->e, "HTTP/1.1 200 OK\r\n\r\n" + flv_header() + be(0, 4) + k0.tagbytes()); pulls.back()->pending = false; settle(); }
    size_t before = pulls.size(); bool up = before && pulls.back()->live;
    if (up) MC_CHECK(!fst::peer_closed(pulls.back()->e), "the pull was dropped without cause");
    Play late; late.dial(80); late.send(get("e.com", NAMES[0])); look();
    MC_CHECK(pulls.size() == before + !up, "%zu new pulls, %s running", pulls.size() - before, up ? "one" : "none");
    if (!up) { fst::send(pulls.back()->e, "HTTP/1.1 200 OK\r\n\r\n" + flv_header() + be(0, 4) + k0.tagbytes()); settle(); }
    fst::send(pulls.back()->e, be(k0.tagbytes().size(), 4) + k1.tagbytes()); settle();
    Reply r = late.reply();
    MC_CHECK(r.head && r.status == 200 && r.body == flv_bytes(v), "a later player gets %s", mc::quote(late.got.substr(0, 60)).c_str());
    for (auto& p : plays) {
        Reply q = p->reply();
        MC_CHECK(q.head && q.bad.empty() && (q.status == 404 || q.status == 200), "player got %s", mc::quote(p->got.substr(0, 60)).c_str());
        if (q.status == 404) { MC_CHECK(q.complete, "open 404"); continue; }
        MC_CHECK(q.body == flv_bytes(v) || q.body == flv_bytes({k0}) || q.body == flv_bytes({}) || q.body.empty(), "player received %zu bytes that are not the origin's stream", q.body.size());
    }
    mc::validated(); mc::nontrivial(); mc::state(pulls.size() * 100 + plays.size() * 10 + up);
    for (auto& p : pulls) fst::shut(p->e);
    std::vector<Peer*> all{&late}; for (auto& p : plays) all.push_back(p.get());
    finish(all);
    MC_CHECK(!StreamCache::get_streamcache("e.com/live/x"), "stream outlives its pull");
}
// other names: unsupported formats, two hosts with the same path
static void odd() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l0 = fst::listen(9000), l1 = fst::listen(9001);
    static const char* const targets[] = {"/a.xyz", "/a", "/a.", "/live.d/x", "/a.flvx", "/a.flv?token=1", "/a.flv?x=/b.c&y=%20&z", "/p/q/r/a.flv"};
    std::string t = mc::pick(targets, "target"); int h = mc::choose(2, "host"); int ans = mc::choose(3, "origin answers");
    Peer c; c.dial(80); c.send(get(h ? "f.com" : "e.com", t)); settle();
    fst::Ep* e = fst::accept(h ? l1 : l0, 0);
    MC_CHECK(!fst::accept(h ? l0 : l1, 0), "asked the origin of another host");
    FlvPkt k = media(KEY, 1);
    if (e) {
        settle();
        std::string rq = fst::taken(e), first = "GET " + t + " HTTP/1.1\r\n";
        MC_CHECK(rq.compare(0, first.size(), first) == 0, "asked for %s the edge asks the origin %s", t.c_str(), mc::quote(rq).c_str());
        if (ans == 0) fst::send(e, "HTTP/1.1 200 OK\r\n\r\n" + flv_header() + be(0, 4) + k.tagbytes());
        else if (ans == 1) fst::send(e, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n");
        else fst::shut(e);
    }
    settle();
    Reply r = c.reply();
    if (ans == 0 && ((t.compare(0, 6, "/a.flv") == 0 && t[6] != 'x') || t == "/p/q/r/a.flv")) MC_CHECK(r.status == 200 && r.body == flv_bytes({k}), "player got %s", mc::quote(c.got.substr(0, 60)).c_str());
    else { MC_CHECK(c.eof || (r.head && r.complete && r.status >= 400), "player of %s is left waiting", t.c_str()); MC_CHECK(!r.head || r.status >= 400, "player of %s got status %d", t.c_str(), r.status); }
    if (e) fst::shut(e);
    settle();
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(t, ans));
    finish({&c});
}
// every kind of status, given at once or after seconds, to players that came meanwhile
static void answers() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    auto l = fst::listen(9000);
    static const int statuses[] = {200, 201, 202, 203, 204, 206, 226, 299, 300, 301, 302, 304, 307, 399, 400, 401, 403, 404, 410, 416, 429, 499, 500, 502, 503, 504, 599, 999};
    static const unsigned delays[] = {0, 900000, 1100000, 4000000, 9000000};
    int status = mc::pick(statuses, "status"), framing = mc::choose(3, "framing"), players = 1 + mc::choose(3, "players"), pieces = mc::choose(3, "pieces");
    unsigned wait = mc::pick(delays, "after"); int interim = mc::choose(3, "interim responses");
    FlvPkt k = media(KEY, 1), k2 = media(AUDIO, 2);
    std::vector<FlvPkt> v{k, k2};
    std::vector<std::unique_ptr<Play>> ps; std::vector<Peer*> all;
    fst::Ep* e = nullptr;
    for (int i = 0; i < players; ++i) {
        ps.emplace_back(new Play()); all.push_back(ps.back().get());
        ps[i]->dial(80); ps[i]->send(get("e.com", NAMES[0], i ? "X: y\r\n" : "")); settle();
        fst::Ep* n = fst::accept(l, 0);
        MC_CHECK(!n == (i > 0), "player %d: %s", i, n ? "a second connection to the origin" : "edge does not ask the origin");
        if (n) e = n;
        if (wait) fst::run(fst::now() + wait / players);
    }
    settle();
    std::string body = flv_header() + be(0, 4) + k.tagbytes() + be(k.tagbytes().size(), 4) + k2.tagbytes();
    std::string s = interim ? interim == 1 ? "HTTP/1.1 100 Continue\r\n\r\n" : "HTTP/1.1 102 X\r\nA: b\r\n\r\nHTTP/1.1 103 Y\r\n\r\n" : "";
    s += "HTTP/1.1 " + std::to_string(status) + " X\r\n" + (framing == 1 ? "Content-Length: " + std::to_string(body.size() + 1000) + "\r\n" : framing == 2 ? "Transfer-Encoding: chunked\r\n" : "") + "\r\n";
    std::string b = framing == 2 ? chunk(body.substr(0, 40)) + chunk(body.substr(40)) : body;
    MC_CHECK(!fst::peer_closed(e), "the edge gives up on an origin that takes %u ms", wait / 1000);
    if (pieces == 0) fst::send(e, s + b);
    else if (pieces == 1) { fst::send(e, s); settle(); fst::send(e, b); }
    else for (size_t i = 0; i < (s + b).size(); i += 33) { fst::send(e, (s + b).substr(i, 33)); settle(); }
    settle();
    for (auto& p : ps) {
        if (status == 200) { Reply r = p->reply(); MC_CHECK(r.head && r.bad.empty() && r.status == 200 && r.body == flv_bytes(v), "origin answers 200 after %u ms, the player gets %s", wait / 1000, mc::quote(p->got.substr(0, 80)).c_str()); }
        else check_404(*p);
    }
    if (status != 200) MC_CHECK(fst::peer_closed(e), "edge keeps the connection of a refused pull");
    mc::validated(); mc::nontrivial(); mc::state(mc::hash_str(s, wait + players));
    fst::shut(e);
    finish(all);
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    auto init = [] { boot(SETUP); };
    return mc::run(argc, argv, "C05", {
        {"one-name", "all histories of 9 (quick: 7) operations of {play, play while the origin is down, origin answers in one of 8 ways, packet, origin ends, falls silent or sends garbage, player leaves} on one stream", [t] { histories(t ? 9 : 7, false); }, 3, init},
        {"two-names", "all histories of 7 (quick: 5) such operations on two streams", [t] { histories(t ? 7 : 5, true); }, 3, init},
        {"race", "3 players racing for a stream whose first pulls fail, end or serve, every schedule with up to 4 (quick: 3) deviations from FIFO", [t] { race(3, t ? 4 : 3); }, 4, init},
        {"bursts", "all sequences of 13 (quick: 11) events of {request, origin refuses, closes, serves or ends, server runs until idle}: any number of events can reach the server at once", [t] { bursts(t ? 13 : 11); }, 4, init},
        {"answers", "28 statuses, 3 framings, up to 3 waiting players, 5 delays up to 9 s, interim responses, 3 segmentations", answers, 3, init},
        {"odd", "unsupported formats, parameters, two hosts", odd, 3, init},
    });
}
