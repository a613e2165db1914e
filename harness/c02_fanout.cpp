// C02: attach/detach/vanish histories; every attached subscriber gets each event once.
#include "common.hpp"
#include <new>
#include <sps_stream_cache.hpp>
using namespace sps;

typedef std::shared_ptr<int> Msg;
struct Sub : public Subscriber<Msg> {
    std::vector<int> got;
    int do_event(Msg& m) override { got.push_back(*m); return SUCCESS; }
};

// Fixed addresses, so that relative pointer order (which containers may use) is
// enumerated by the choice of slot and does not depend on the allocator.
static const int N = 4;
alignas(64) static char arena[N][512];
static_assert(sizeof(Sub) <= 512, "arena slot");

static void raw(int depth, int n) {
    quiet();
    Publisher<Msg> pub;
    std::shared_ptr<Sub> s[N];
    bool attached[N] = {};
    std::vector<int> expect[N];
    auto fresh = [&](int i) {
        s[i] = std::shared_ptr<Sub>(new (arena[i]) Sub(), [](Sub* p) { p->~Sub(); });
        expect[i].clear(); attached[i] = false;
    };
    for (int i = 0; i < n; ++i) fresh(i);
    int ev = 0;
    auto publish = [&] {
        Msg m = std::make_shared<int>(++ev);
        mc::note("publish %d", ev);
        pub.publish(m);
        mc::step();
        uint64_t h = 7;
        for (int i = 0; i < n; ++i) if (s[i]) {
            if (attached[i]) expect[i].push_back(ev);
            MC_CHECK(s[i]->got == expect[i], "subscriber %d (%s) has received %zu events, must have %zu (last published %d)", i,
                     attached[i] ? "attached" : "detached", s[i]->got.size(), expect[i].size(), ev);
            h = h * 31 + attached[i] * 7 + expect[i].size();
        } else h = h * 31;
        mc::state(h);
        mc::validated();
    };
    for (int k = 0; k < depth; ++k) {
        int a = mc::choose(1 + 3 * n, "action");
        if (a == 0) { publish(); continue; }
        int i = (a - 1) / 3, op = (a - 1) % 3;
        mc::step();
        if (op == 0) { if (!s[i]) fresh(i); mc::note("attach %d", i); pub.sub(s[i]); attached[i] = true; }
        else if (op == 1) { if (!s[i]) continue; mc::note("detach %d", i); pub.cancel(s[i]); attached[i] = false; mc::nontrivial(); }
        else { if (!s[i]) continue; mc::note("vanish %d", i); s[i].reset(); attached[i] = false; mc::nontrivial(); }
    }
    publish();
    publish();
}

// up to 40 subscribers, any of which is gone, left or is added later
static void many() {
    quiet();
    static const int counts[] = {1, 2, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40};
    int n = mc::pick(counts, "subscribers"), who = mc::choose(4, "which"), op = mc::choose(4, "what"), more = mc::choose(3, "then");
    std::vector<std::shared_ptr<Sub>> s, left; std::vector<std::vector<int>> expect;
    Publisher<Msg> pub;
    int ev = 0;
    auto publish = [&] {
        Msg m = std::make_shared<int>(++ev); pub.publish(m); mc::step();
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i]) { expect[i].push_back(ev); MC_CHECK(s[i]->got == expect[i], "subscriber %zu of %zu has received %zu events, must have %zu", i, s.size(), s[i]->got.size(), expect[i].size()); }
        }
        for (auto& x : left) MC_CHECK(x->got.empty() || x->got.back() < ev, "a subscriber that left received event %d", ev);
        mc::validated();
    };
    auto add = [&] { s.push_back(std::make_shared<Sub>()); expect.push_back({}); pub.sub(s.back()); };
    // what happens to some of them: nothing, vanish, leave, vanish between attachments
    auto hit = [&](int i) { return who == 0 ? i == 0 : who == 1 ? i == n - 1 : who == 2 ? i % 2 == 0 : i < n / 2; };
    for (int i = 0; i < n; ++i) {
        add();
        if (op == 3 && hit(i)) s[i].reset();
    }
    publish();
    for (int i = 0; i < n; ++i) if (s[i] && hit(i)) { if (op == 1) s[i].reset(); if (op == 2) { pub.cancel(s[i]); left.push_back(s[i]); s[i].reset(); } }
    if (more == 0) publish();
    for (int i = 0; i < (more == 2 ? 20 : 1); ++i) add();
    publish(); publish();
    mc::nontrivial(); mc::state(n * 64 + who * 16 + op * 4 + more);
}

// the same through live streams and their players, waiting included
static void players(int depth) {
    quiet();
    auto cs = StreamCache::create_av_streamcache("h/s");
    std::vector<PAVDumpCacheStream> pl(3);
    std::vector<int> expect[3];
    int id = 0;
    auto put = [&] {
        uint8_t b[1] = {0};
        auto p = AVPacket::create(AV_MESSAGE_DATA, AV_STREAM_TYPE_AUDIO, AVPacketType{1}, b, 1, ++id, id);
        cs->put(p);
        mc::step();
        for (int i = 0; i < 3; ++i) if (pl[i]) expect[i].push_back(id);
    };
    auto drain = [&](int i) {
        std::list<PAVPacket> l;
        pl[i]->dump(l, false);
        std::vector<int> g;
        for (auto& p : l) g.push_back(p->dts);
        MC_CHECK(g == expect[i], "player %d drained %zu packets, must get %zu", i, g.size(), expect[i].size());
        expect[i].clear();
        mc::validated();
    };
    for (int k = 0; k < depth; ++k) {
        int a = mc::choose(1 + 9, "action");
        if (a == 0) { put(); continue; }
        int i = (a - 1) / 3, op = (a - 1) % 3;
        if (op == 0) { if (pl[i]) { drain(i); continue; } pl[i] = StreamCache::get_client_streamcache("h/s", 1000); expect[i].clear(); }
        else if (!pl[i]) continue;
        else { if (op == 1) cs->cancel(pl[i]); pl[i].reset(); mc::nontrivial(); }
    }
    put();
    for (int i = 0; i < 3; ++i) if (pl[i]) drain(i);
    StreamCache::release_av_streamcache("h/s");
}

int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C02", {
        {"four-subscribers", t ? "all 7-step attach/detach/vanish/publish histories of 4 subscribers in every address order"
                               : "all 6-step attach/detach/vanish/publish histories of 4 subscribers in every address order", [t] { raw(t ? 7 : 6, 4); }},
        {"three-subscribers-deep", t ? "all 8-step histories of 3 subscribers" : "all 7-step histories of 3 subscribers", [t] { raw(t ? 8 : 7, 3); }},
        {"many", "13 numbers of subscribers up to 40, 4 choices of some of them that leave or vanish at 3 instants, newcomers", many, 2},
        {"players", t ? "all 7-step join/read/leave/vanish/publish histories of 3 players" : "all 6-step join/read/leave/vanish/publish histories of 3 players", [t] { players(t ? 7 : 6); }},
    });
}
