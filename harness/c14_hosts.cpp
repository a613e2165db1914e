// C14: requests are served by the host block their Host header selects.
#include "stack.hpp"
using namespace stack;

struct HostConf { std::string name; int place; bool on; };
// where a host block stands
enum { FIRST, SECOND, OTHER, GLOBAL, BLOCK2, NPLACE };
static const char* const places[] = {"server on port 80", "second server block on port 80", "server on port 81", "globalhost", "server on port 80 in a second http block"};

static std::string host_text(const HostConf& h, size_t i) {
    return "host " + h.name + " {\n" + (h.on ? "" : "enabled off;\n") + "role proxy;\ntype proxy;\npass_proxy 127.0.0.1:" + std::to_string(9000 + i) + ";\n}\n";
}
static std::string text(const std::vector<HostConf>& v, bool global_last) {
    std::string at[NPLACE];
    bool used[NPLACE] = {true};
    for (size_t i = 0; i < v.size(); ++i) { at[v[i].place] += host_text(v[i], i); used[v[i].place] = true; }
    std::string g = used[GLOBAL] ? "globalhost {\n" + at[GLOBAL] + "}\n" : "";
    std::string s = "http {\nserver a {\nlisten_port 80;\n" + at[FIRST] + "}\n";
    if (used[SECOND]) s += "server b {\nlisten_port 80;\n" + at[SECOND] + "}\n";
    if (used[OTHER]) s += "server c {\nlisten_port 81;\n" + at[OTHER] + "}\n";
    s += "}\n";
    if (used[BLOCK2]) s += "http {\nserver d {\nlisten_port 80;\n" + at[BLOCK2] + "}\n}\n";
    return global_last ? s + g : g + s;
}
// the reference: which hosts a port serves, and which of them a name selects
static bool on_port(const HostConf& h, int port) { return h.on && (h.place == GLOBAL || (h.place == OTHER) == (port == 81)); }
static bool has81(const std::vector<HostConf>& v) { for (auto& h : v) if (h.place == OTHER) return true; return false; }
static bool valid(const std::vector<HostConf>& v) {
    for (int port = 80; port <= 81; ++port) {
        if (port == 81 && !has81(v)) continue;
        std::set<std::string> seen;
        for (auto& h : v) if (on_port(h, port) && !seen.insert(h.name).second) return false;
    }
    for (auto& h : v) if (h.on && h.name[0] == '*' && h.name != "*" && (h.name[1] != '.' || h.name.size() < 3)) return false;
    return true;
}
static int select(const std::vector<HostConf>& v, int port, const std::string& q) {
    int wild = -1, def = -1;
    size_t dot = q.find('.');
    for (size_t i = 0; i < v.size(); ++i) {
        if (!on_port(v[i], port)) continue;
        if (v[i].name == q) return i;
        if (v[i].name == "*") def = i;
        else if (v[i].name[0] == '*' && dot != std::string::npos && v[i].name.substr(1) == q.substr(dot)) wild = i;
    }
    return wild >= 0 ? wild : def;
}
static void body(const std::vector<HostConf>& v, bool global_last, const std::vector<std::string>& queries) {
    quiet();
    fst::abandon(); fst::reset(); fst::set_delay_bound(0);
    HttpModule::http_servers.clear(); ServerModule::server_modules.clear(); GlobalHostModule::global_hosts.clear();
    for (auto& h : v) mc::note("host %s%s in %s", h.name.c_str(), h.on ? "" : " (off)", places[h.place]);
    error_t ret = SUCCESS;
    auto root = load(text(v, global_last), ret);
    if (ret == SUCCESS) { ret = root->install(); fst::run(); fst::mark_persistent(); }
    bool ok = valid(v);
    if (!ok) {
        MC_CHECK(ret != SUCCESS, "ambiguous or malformed host names accepted");
        mc::validated(); return;
    }
    MC_CHECK(ret == SUCCESS, "configuration refused with %d", ret);
    std::vector<int> dialled;
    fst::on_connect = [&](int port) { dialled.push_back(port); return ECONNREFUSED; };
    for (int port = 80; port <= 81; ++port) {
        if (port == 81 && !has81(v)) continue;
        for (auto& q : queries) {
            int want = select(v, port, q);
            dialled.clear();
            Peer c; c.dial(port); c.send(get(q, "/x")); fst::run(fst::now());
            Reply r = c.reply();
            if (want < 0) {
                MC_CHECK(dialled.empty(), "%s on port %d is nobody's but was served by host block %d", q.c_str(), port, dialled[0] - 9000);
                MC_CHECK(r.head && r.bad.empty() && r.status == 404 && r.complete, "%s on port %d is nobody's but got no 404", q.c_str(), port);
            } else {
                MC_CHECK(!dialled.empty(), "%s on port %d was not served by %s (status %d)", q.c_str(), port, v[want].name.c_str(), r.status);
                for (int d : dialled) MC_CHECK(d == 9000 + want, "%s on port %d was served by %s instead of %s", q.c_str(), port, v[d - 9000].name.c_str(), v[want].name.c_str());
                mc::nontrivial();
            }
            mc::validated();
            finish({&c});
        }
    }
    mc::state(mc::hash_str(text(v, global_last)));
}
// where the requests of a host go: its address, the upstream block its pass_proxy names, or its own upstream block
struct Target { const char* proxy; bool own; int port; };     // port -1: nowhere
static const Target targets[] = {{"127.0.0.1:9100", false, 9100}, {"127.0.0.1", false, 80}, {"up1", false, 9101}, {"up2", false, 9102}, {"", true, 9103}, {"up1", true, 9104}, {"up1.nowhere.invalid:9105", false, -1}};
static void upstreams(int nhosts) {
    quiet();
    fst::abandon(); fst::reset(); fst::set_delay_bound(0);
    HttpModule::http_servers.clear(); ServerModule::server_modules.clear(); GlobalHostModule::global_hosts.clear();
    auto& ups = SingleInstance<UpStreamModules>::get_instance().ups; ups.clear();
    std::string u = "upstream up1 {\nserver 127.0.0.1:9101;\n}\nupstream up2 {\nserver 127.0.0.1:9102;\nkeepalive 3;\n}\n", h = "http {\nserver a {\nlisten_port 8080;\n";
    std::vector<int> tg, edge;
    for (int i = 0; i < nhosts; ++i) {
        int t = mc::choose(7, "target"); bool e = mc::flip("edge"); tg.push_back(t); edge.push_back(e);
        h += "host h" + std::to_string(i) + ".com {\nrole " + (e ? "edge;\ntype stream;\nedge_avformat all;\n" : "proxy;\ntype proxy;\n");
        if (*targets[t].proxy) h += std::string("pass_proxy ") + targets[t].proxy + ";\n";
        if (targets[t].own) h += "upstream own" + std::to_string(i) + " {\nserver 127.0.0.1:" + std::to_string(targets[t].port) + ";\n}\n";
        h += "}\n";
    }
    h += "}\n}\n";
    error_t ret = SUCCESS;
    auto root = load(mc::flip("upstreams last") ? h + u : u + h, ret);
    MC_CHECK(ret == SUCCESS && root->install() == SUCCESS, "configuration refused");
    fst::run(); fst::mark_persistent();
    std::vector<int> dialled;
    fst::on_connect = [&](int port) { dialled.push_back(port); return ECONNREFUSED; };
    for (int i = 0; i < nhosts; ++i) {
        dialled.clear();
        Peer c; c.dial(8080); c.send(get("h" + std::to_string(i) + ".com", "/live/s.flv")); fst::run(fst::now() + 30000000ull);
        int want = targets[tg[i]].port;
        if (want < 0) MC_CHECK(dialled.empty(), "an unknown upstream was dialled at port %d", dialled[0]);
        else {
            MC_CHECK(!dialled.empty(), "host %d: upstream %s was not contacted", i, targets[tg[i]].proxy);
            for (int d : dialled) MC_CHECK(d == want, "host %d: upstream at port %d contacted instead of %d", i, d, want);
            mc::nontrivial();
        }
        mc::validated();
        finish({&c});
    }
    mc::state(mc::hash_str(h));
}
static const char* const names[] = {"a.com", "b.a.com", "*.a.com", "*", "*.b.a.com", "com", "*.com"};
static const std::vector<std::string> all_q = {"a.com", "b.a.com", "c.a.com", "x.b.a.com", "c.b.a.com", "com", "b.com", "z", "z.org", "ba.com", "a.com.b", "127.0.0.1"};

int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    bool th = mc::tier;
    std::vector<mc::Scenario> s;
    auto gen = [](int n, int nn, int np, bool flags) {
        std::vector<HostConf> v;
        for (int i = 0; i < n; ++i) {
            HostConf h{names[mc::choose(nn, "name")], mc::choose(np, "place"), true};
            if (flags) h.on = mc::flip("enabled");
            v.push_back(h);
        }
        return v;
    };
    s.push_back({"names", "every sequence of 0-3 host blocks over 7 names (exact, one-label wildcards, default, duplicates) in one server, 12 requested names",
                 [gen] { int n = mc::choose(4, "hosts"); body(gen(n, 7, 1, false), false, all_q); }, 3});
    s.push_back({"places", "two host blocks over 7 names in every combination of 5 places (two server blocks of one port, another port, globalhost before or after, second http block), enabled or not, 12 requested names on both ports",
                 [gen] { auto v = gen(2, 7, NPLACE, true); body(v, mc::flip("globalhost last"), all_q); }, 3});
    s.push_back({"three", "three host blocks over 4 names in every combination of 5 places, 12 requested names on both ports",
                 [gen, th] { auto v = gen(3, th ? 7 : 4, NPLACE, false); body(v, true, all_q); }, 3});
    s.push_back({"upstreams", "2 hosts (quick) or 3 (thorough), proxies or edges, with each of 7 upstream forms (address with and without port, named blocks before or after, own block, unknown name)", [th] { upstreams(th ? 3 : 2); }, 3});
    s.push_back({"long names", "two host blocks over 6 names of up to 70 bytes, 8 requested names",
                 [] { static const std::string big(60, 'n');
                      static const std::string ln[] = {"cam.very-long-name.example-domain.com", "*.very-long-name.example-domain.com", "*.example-domain.com", big + ".a.com", "*." + big + ".com", "*"};
                      static const std::vector<std::string> q = {"cam.very-long-name.example-domain.com", "x.very-long-name.example-domain.com", "very-long-name.example-domain.com", "a.cam.very-long-name.example-domain.com",
                          big + ".a.com", "x." + big + ".com", big + ".com", "y" + big + ".a.com"};
                      std::vector<HostConf> v; for (int i = 0; i < 2; ++i) v.push_back({ln[mc::choose(6, "name")], mc::choose(NPLACE, "place"), true});
                      body(v, false, q); }, 1});
    s.push_back({"malformed", "wildcards that are not of the form *.name",
                 [] { static const char* const bad[] = {"*x", "*.", "**", "*a.com", "*.a.com"}; static const char* const g[] = {"a.com", "*"};
                      std::vector<HostConf> v{{mc::pick(bad, "name"), mc::choose(NPLACE, "place"), true}, {mc::pick(g, "other"), mc::choose(NPLACE, "place"), true}};
                      body(v, false, all_q); }, 1});
    return mc::run(argc, argv, "C14", s);
}
