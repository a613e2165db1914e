// C03: what a publisher sends over HTTP-FLV is what every player receives.
#include "stack.hpp"
using namespace stack;
static const char* SETUP = "http {\nserver s {\nlisten_port 80;\nhost a.com {\nrole source;\ntype stream;\nedge_avformat all;\n}\nhost b.com {\nrole source;\ntype stream;\nedge_avformat all;\n}\n}\nserver t {\nlisten_port 81;\nsend_timeout 5000000;\nrecv_timeout 20000000;\nhost a.com {\nrole source;\ntype stream;\nedge_avformat all;\n}\n}\n}\n";

struct Player : Peer { std::string host, target; size_t lo = 0; bool left = false; int stream = 0; };

static std::string show(const std::string& body) {
    bool ok; auto v = flv_ref_demux(body, ok);
    std::string s = ok ? "" : "(no flv header) ";
    for (auto& p : v) s += "[" + p.str() + "]";
    return s;
}
// the player's bytes must be the late-join view of some instant in [lo, hi], complete up to n packets (prefix: not nec. complete)
static void check_player(Player& p, const std::vector<FlvPkt>& v, const std::vector<int>& kinds, size_t hi, size_t n, bool prefix) {
    Reply r = p.reply();
    if (prefix && !r.head && std::string("HTTP/1.1 200").compare(0, std::min<size_t>(12, p.got.size()), p.got, 0, 12) == 0) return;     // cut within the head
    MC_CHECK(r.bad.empty(), "player got a malformed response: %s", r.bad.c_str());
    if (!r.head) { MC_CHECK(prefix, "player got no response"); return; }
    MC_CHECK(r.status == 200, "player got status %d", r.status);
    for (size_t j = p.lo; j <= hi; ++j) {
        std::string want = flv_bytes(view(v, kinds, j, n));
        if (prefix ? want.compare(0, r.body.size(), r.body) == 0 : want == r.body) { mc::state(mc::hash_str(r.body, j)); mc::nontrivial(); mc::validated(); return; }
    }
    mc::fail("player that joined after packet %zu..%zu of %zu received %s, must be e.g. %s", p.lo, hi, n, show(r.body).substr(0, 1500).c_str(), show(flv_bytes(view(v, kinds, p.lo, n))).substr(0, 1500).c_str());
}
// ---- sequential histories: after every operation the server settles; exact join instants
static void histories(int depth) {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    Peer pub; std::vector<std::unique_ptr<Player>> pl;
    std::vector<FlvPkt> v; std::vector<int> kinds;
    bool chunked = mc::flip("publisher sends chunks");
    int frag = mc::choose(3, "fragmentation");   // 0 whole tag, 1 byte by byte, 2 cut in the tag header
    auto out = [&](const std::string& s) {
        std::string w = chunked ? chunk(s) : s;
        if (frag == 1) for (char c : w) pub.send(std::string(1, c));
        else if (frag == 2) { size_t k = std::min<size_t>(7, w.size()); pub.send(w.substr(0, k)); fst::run(fst::now()); pub.send(w.substr(k)); }
        else pub.send(w);
        fst::run(fst::now());
    };
    pub.dial(80);
    pub.send(post("a.com", "/live/s.flv", chunked ? "Transfer-Encoding: chunked\r\n" : ""));
    fst::run(fst::now());
    out(flv_header());
    uint32_t prev = 0;
    for (int i = 0; i < depth; ++i) {
        std::vector<int> ops;
        for (int k = 0; k < NKIND; ++k) ops.push_back(k);
        if (pl.size() < 2) ops.push_back(NKIND);
        for (auto& x : pl) if (!x->left) { ops.push_back(NKIND + 1); break; }
        int op = mc::pick(ops, "operation");
        if (op < NKIND) {
            FlvPkt p = media(op, v.size() + 1);
            mc::note("publish %s", kind_names[op]);
            std::string t = p.tagbytes();
            v.push_back(p); kinds.push_back(op);
            out(be(prev, 4) + t);
            prev = t.size();
        } else if (op == NKIND) {
            mc::note("player joins");
            pl.emplace_back(new Player());
            Player& p = *pl.back();
            p.lo = v.size();
            p.dial(80); p.send(get("a.com", "/live/s.flv"));
            fst::run(fst::now());
        } else {
            Player* p = nullptr;
            for (auto& x : pl) if (!x->left) { p = x.get(); break; }
            mc::note("player leaves");
            check_player(*p, v, kinds, p->lo, v.size(), false);
            p->left = true; p->close();
            fst::run(fst::now());
        }
        for (auto& p : pl) if (!p->left) check_player(*p, v, kinds, p->lo, v.size(), false);
    }
    std::vector<Peer*> all{&pub};
    for (auto& p : pl) all.push_back(p.get());
    finish(all);
}
// ---- concurrent: publisher, players and leavers as threads, schedules explored
static void schedules(int npk, int nplayers, int delays) {
    quiet(); fst::reset();
    static const std::vector<std::vector<int>> streams = {{VHDR, KEY, INTER, AUDIO}, {SCRIPT, AHDR, VHDR, KEY, AUDIO, INTER, KEY}, {AHDR, AUDIO, AUDIO}, {KEY, AHDR, KEY, INTER, KEY, SCRIPT}, {VHDR, KEY, AHDR, INTER, SCRIPT}};
    std::vector<int> kinds = mc::pick(streams, "stream");
    if ((int) kinds.size() > npk) kinds.resize(npk);
    std::vector<FlvPkt> v;
    for (size_t i = 0; i < kinds.size(); ++i) v.push_back(media(kinds[i], i + 1));
    int leaver = mc::choose(nplayers + 1, "player that leaves") - 1;
    Peer pub; std::vector<std::unique_ptr<Player>> pl;
    
    fst::set_delay_bound(delays);
    fst::spawn("publisher", [&] {
        pub.dial(80);
        pub.send(post("a.com", "/live/s.flv"));
        pub.send(flv_header());
        fst::sleep(2);
        uint32_t prev = 0;
        for (auto& p : v) { std::string t = p.tagbytes(); pub.send(be(prev, 4) + t); prev = t.size(); fst::yield(); }
    });
    for (int i = 0; i < nplayers; ++i) {
        pl.emplace_back(new Player());
        Player* p = pl.back().get();
        int after = i ? mc::choose(2, "second joins after") * 3 : mc::choose(npk + 1, "first joins after");
        fst::spawn("player", [&, p, i, after] {
            fst::sleep(2);
            for (int k = 0; k < after; ++k) fst::yield();
            p->dial(80);
            p->send(get("a.com", "/live/s.flv"));
            if (i == leaver) { fst::yield(); fst::yield(); p->poll(); p->left = true; p->close(); }
        });
    }
    fst::run(fst::now() + 1000000);
    for (auto& p : pl) check_player(*p, v, kinds, v.size(), v.size(), p->left);
    std::vector<Peer*> all{&pub};
    for (auto& p : pl) all.push_back(p.get());
    finish(all);
}
// ---- two streams of different names: nothing crosses over
static void isolation() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    static const struct { const char *h1, *t1, *h2, *t2; } names[] = {
        {"a.com", "/live/cam.1.flv", "a.com", "/live/cam.2.flv"}, {"a.com", "/a.b/x.flv", "a.com", "/a.c/x.flv"},
        {"a.com", "/live/s.flv", "b.com", "/live/s.flv"}, {"a.com", "/live/s.flv", "a.com", "/live/t.flv"}, {"a.com", "/live/s.flv", "a.com", "/live/s.flv.flv"},
        {"a.com", "/s.flv", "a.com", "/live/s.flv"}, {"a.com", "/live/s.flv", "a.com", "/live/S.flv"}, {"a.com", "/live/1.flv", "a.com", "/live/11.flv"}};
    auto& nm = mc::pick(names, "names");
    int order = mc::choose(2, "order");
    Peer pub[2]; Player pl[2];
    std::vector<FlvPkt> v[2]; std::vector<int> kinds[2]; uint32_t prev[2] = {0, 0};
    const char* h[2] = {nm.h1, nm.h2}; const char* t[2] = {nm.t1, nm.t2};
    for (int k = 0; k < 2; ++k) {
        int i = k ^ order;
        pub[i].dial(80); pub[i].send(post(h[i], t[i])); pub[i].send(flv_header());
        fst::run(fst::now());
        MC_CHECK(!fst::peer_closed(pub[i].e), "publisher of %s%s refused", h[i], t[i]);
    }
    int joined = mc::choose(3, "players join after");
    for (int n = 0; n < 4; ++n) {
        if (n == joined) for (int i = 0; i < 2; ++i) { pl[i].lo = v[i].size(); pl[i].dial(80); pl[i].send(get(h[i], std::string(t[i]) + "?x=" + std::to_string(i))); fst::run(fst::now()); }
        int i = mc::choose(2, "stream");
        int k = mc::choose(3, "kind") + 3;
        FlvPkt p = media(k, 10 * (i + 1) + v[i].size());
        std::string b = p.tagbytes();
        v[i].push_back(p); kinds[i].push_back(k);
        pub[i].send(be(prev[i], 4) + b); prev[i] = b.size();
        fst::run(fst::now());
    }
    for (int i = 0; i < 2; ++i) check_player(pl[i], v[i], kinds[i], pl[i].lo, v[i].size(), false);
    finish({&pub[0], &pub[1], &pl[0], &pl[1]});
}
// ---- a failing write to one player never reaches the others or the publisher
static void faults() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    static const int errs[] = {ETIME, EPIPE, ECONNRESET};
    int err = mc::pick(errs, "error");
    int at = mc::choose(14, "failing write"), n = 0;
    std::vector<int> kinds = {VHDR, KEY, INTER, AUDIO, KEY};
    std::vector<FlvPkt> v;
    for (size_t i = 0; i < kinds.size(); ++i) v.push_back(media(kinds[i], i + 1));
    int join1 = mc::choose(4, "first joins after"), join2 = mc::choose(4, "second joins after");
    Peer pub; Player a, b;
    pub.dial(80); pub.send(post("a.com", "/live/s.flv")); pub.send(flv_header());
    fst::run(fst::now());
    uint32_t prev = 0; bool failed = false;
    fst::on_write = [&](fst::Ep*, size_t) { return 0; };
    fst::Ep* victim = nullptr;
    for (size_t i = 0; i < v.size(); ++i) {
        auto join = [&](Player& p) { p.lo = i; p.dial(80); p.send(get("a.com", "/live/s.flv")); fst::run(fst::now()); };
        if ((int) i == join2) join(b);
        if ((int) i == join1) {
            // the writes of connection a are the ones that are not b's: fail the at-th of them
            fst::on_write = [&](fst::Ep* e, size_t) {
                if (!victim) victim = e;
                if (e == victim && n++ == at) { failed = true; return err; }
                return 0;
            };
            join(a);
        }
        std::string t = v[i].tagbytes();
        pub.send(be(prev, 4) + t); prev = t.size();
        fst::run(fst::now());
    }
    if (failed) { fst::run(fst::now()); MC_CHECK(fst::peer_closed(a.e), "connection stays open after a failed write"); }
    MC_CHECK(!fst::peer_closed(pub.e), "the publisher was disconnected by a failing player");
    check_player(b, v, kinds, b.lo, v.size(), false);
    check_player(a, v, kinds, a.lo, v.size(), failed);
    finish({&pub, &a, &b});
}
// ---- a player that reads slowly or not at all: it gets everything or is dropped, and nobody else notices
static void slow() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    static const int stalls[] = {0, 1, 7, 1100, 5000};
    static const size_t wins[] = {1, 100, 3000};
    int how = mc::choose(4, "the slow player"), n = mc::pick(stalls, "packets while it reads nothing"), before = mc::choose(4, "packets before it joins");   // 0 reads all at once, 1 in pieces, 2 never, 3 leaves
    size_t win = mc::pick(wins, "window"); bool timed = how == 2 || mc::flip("send timeout");
    Peer pub; Player a, b; std::vector<FlvPkt> v; std::vector<int> kinds; uint32_t prev = 0;
    pub.dial(80); pub.send(post("a.com", "/live/s.flv")); pub.send(flv_header()); fst::run(fst::now());
    b.dial(80); b.send(get("a.com", "/live/s.flv")); fst::run(fst::now());
    auto put = [&](int k) {
        FlvPkt p = media(k, v.size() % 200 + 1); v.push_back(p); kinds.push_back(k); std::string t = p.tagbytes(); pub.send(be(prev, 4) + t); prev = t.size(); mc::step();
        if (v.size() % 50 < 10) fst::run(fst::now());
    };
    static const int mix[] = {VHDR, KEY, INTER, AUDIO, INTER, AHDR, AUDIO};
    for (int i = 0; i < before; ++i) put(mix[i]);
    fst::run(fst::now());
    a.lo = v.size(); a.dial(timed ? 81 : 80); fst::window(a.e, win); a.send(get("a.com", "/live/s.flv")); fst::run(fst::now());
    for (int i = 0; i < n; ++i) put(i % 400 == 399 ? KEY : mix[i % 7]);
    fst::run(fst::now());
    MC_CHECK(!fst::peer_closed(pub.e) && !fst::peer_closed(b.e), "a player that does not read disconnects others");
    check_player(b, v, kinds, 0, v.size(), false);
    if (how == 0) { fst::window(a.e, 1 << 30); fst::run(fst::now()); }
    else if (how == 1) for (size_t last = 0; ; last = a.got.size()) {        // each piece before the timeout
        a.poll(); if (win == 1 && a.got.size() > 40) { win = 700; fst::window(a.e, win); }
        fst::run(fst::now() + (a.got.size() < 2000 ? 4000000 : 1)); if (a.got.size() < 2000) put(AUDIO);
        if (a.got.size() == last && !last) mc::fail("a slow player is served nothing"); if (a.got.size() == last) break;
    }
    else if (how == 2) {
        fst::run(fst::now() + 5000001); Reply r = b.reply();
        bool full = flv_bytes(view(v, kinds, a.lo, v.size())).size() + 20 > win;      // what there was to send did not fit
        if (full) MC_CHECK(fst::peer_closed(a.e), "a player that read nothing for longer than the send timeout is still connected");
        put(AUDIO); fst::run(fst::now());
    } else { a.poll(); a.left = true; a.close(); fst::run(fst::now()); put(AUDIO); fst::run(fst::now()); }
    fst::run(fst::now());
    MC_CHECK(!fst::peer_closed(pub.e) && !fst::peer_closed(b.e), "a slow player disconnects others");
    check_player(b, v, kinds, 0, v.size(), false);
    if (how < 2) { for (int i = 0; i < 50; ++i) { a.poll(); fst::run(fst::now()); } check_player(a, v, kinds, a.lo, v.size(), false); } else { a.poll(); check_player(a, v, kinds, a.lo, v.size(), true); }
    finish({&pub, &a, &b});
}
// ---- large packets
static void large() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    static const size_t sizes[] = {1, 4096, 65535, 65536, 200000, 1000000};
    Peer pub; Player p;
    pub.dial(80); pub.send(post("a.com", "/live/s.flv")); pub.send(flv_header());
    fst::run(fst::now());
    p.dial(80); p.send(get("a.com", "/live/s.flv"));
    fst::run(fst::now());
    std::vector<FlvPkt> v; std::vector<int> kinds; uint32_t prev = 0;
    size_t seg = mc::flip("segments of 1400") ? 1400 : 1 << 30;
    for (int i = 0; i < 3; ++i) {
        int k = mc::flip("audio") ? AUDIO : KEY;
        FlvPkt q = media(k, i + 1);
        q.body = std::string(mc::pick(sizes, "size"), (char) ('a' + i));
        v.push_back(q); kinds.push_back(k);
        std::string t = be(prev, 4) + q.tagbytes(); prev = t.size() - 4;
        for (size_t o = 0; o < t.size(); o += seg) pub.send(t.substr(o, seg));
        fst::run(fst::now());
    }
    check_player(p, v, kinds, 0, v.size(), false);
    finish({&pub, &p});
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    auto init = [] { boot(SETUP); };
    return mc::run(argc, argv, "C03", {
        {"histories", "all histories of 6 (quick: 5) operations of {publish one of 6 packet kinds, player joins, player leaves}, up to 2 players, plain or chunked publisher, 3 fragmentations", [t] { histories(t ? 6 : 5); }, 3, init},
        {"schedules", "5 streams of up to 7 (quick: 5) packets, 2 players of which one may vanish, every schedule with up to 3 (quick: 2) deviations from FIFO", [t] { schedules(t ? 7 : 5, 2, t ? 3 : 2); }, 3, init},
        {"isolation", "8 pairs of stream names, every order of 4 packets on two streams, players of both", isolation, 3, init},
        {"faults", "every write to one of two players fails with timeout, pipe or reset error", faults, 3, init},
        {"slow", "a player that reads late, in pieces, never, or leaves, with room for 1-3000 bytes, while 0-5000 packets are published, with and without send timeout", slow, 3, init},
        {"large", "packets of up to 1000000 bytes, in one or many segments", large, 3, init},
    });
}
