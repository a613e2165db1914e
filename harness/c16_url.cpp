// C16: a URL names exactly the server, stream, format and parameters it spells.
#include <sys/stat.h>
#include <unistd.h>
#include "stack.hpp"
using namespace stack;
typedef std::vector<std::pair<std::string, std::string>> Params;
static PRequestUrl parsed(const std::string& u) {
    PRequestUrl q; quiet(); mc::step();
    return RequestUrl::from(u, q) == SUCCESS ? q : nullptr;
}
static int default_port(const std::string& schema) { return schema == "http" ? 80 : schema == "https" ? 443 : schema == "rtmp" ? 1935 : 0; }
static std::string ext_of(const std::string& path) {
    std::string last = path.substr(path.rfind('/') == std::string::npos ? 0 : path.rfind('/') + 1);
    auto d = last.rfind('.');
    return d == std::string::npos ? "" : last.substr(d + 1);
}
static Params params_of(const std::string& q) {
    Params r; std::string cur;
    auto end = [&] { if (cur.empty()) return; auto e = cur.find('='); r.push_back(e == std::string::npos ? std::make_pair(cur, std::string()) : std::make_pair(cur.substr(0, e), cur.substr(e + 1))); cur.clear(); };
    for (char c : q) { if (c == '&') end(); else cur += c; }
    end();
    return r;
}
static void same(const std::string& text, PRequestUrl q, const std::string& schema, const std::string& host, int port, const std::string& path, const std::string& query) {
    MC_CHECK(q->get_schema() == schema && q->get_host() == host && q->get_port() == port, "%s: server %s://%s:%d instead of %s://%s:%d", text.c_str(), q->get_schema(), q->get_host(), q->get_port(), schema.c_str(), host.c_str(), port);
    MC_CHECK(q->get_path() == path && q->get_params() == query, "%s: path %s params %s", text.c_str(), q->get_path(), q->get_params());
    MC_CHECK(q->get_url() == path + (query.empty() ? "" : "?" + query), "%s: target %s", text.c_str(), q->get_url());
    std::string e = ext_of(path);
    MC_CHECK(q->get_ext() == e, "%s: extension %s instead of %s", text.c_str(), q->get_ext(), e.c_str());
    Params pp = params_of(query); std::set<std::string> seen; size_t i = 0;
    for (auto& p : pp) {
        if (seen.insert(p.first).second) MC_CHECK(q->get_param(p.first) == p.second, "%s: parameter %s is %s instead of %s", text.c_str(), p.first.c_str(), q->get_param(p.first).c_str(), p.second.c_str());
    }
    MC_CHECK(q->pp.size() == pp.size(), "%s: %zu parameters instead of %zu", text.c_str(), q->pp.size(), pp.size());
    for (auto& p : q->pp) { MC_CHECK(p.key == pp[i].first && p.value == pp[i].second, "%s: parameter %zu is %s=%s", text.c_str(), i, p.key.c_str(), p.value.c_str()); ++i; }
    MC_CHECK(q->get_param("absent").empty(), "%s: parameter out of nothing", text.c_str());
    mc::validated(); mc::nontrivial();
}
static std::string path_() {
    static const char* const seg[] = {"live", "a.b", "x.flv", ".", "..flv", "s.ts.flv", "x.", ""};
    std::string p; int n = 1 + mc::choose(3, "segments");
    for (int i = 0; i < n; ++i) p += std::string("/") + mc::pick(seg, "segment");
    return p;
}
static std::string query_(int n) {
    static const char* const par[] = {"k=v", "k=", "k", "m=publish", "=v", "k=a=b", "k=%26", ""};
    std::string q; int k = mc::choose(n + 1, "parameters");
    for (int i = 0; i < k; ++i) q += std::string(i ? "&" : "") + mc::pick(par, "parameter");
    return q;
}
static void parts() {
    static const char* const schema[] = {"http", "https", "rtmp", "srt", "ts", "tcp"};
    static const char* const hosts[] = {"a", "live.example.com", "127.0.0.1", "a-b_c.d", "localhost"};
    static const char* const ports[] = {"", ":1", ":80", ":443", ":1935", ":65535"};
    std::string s = mc::pick(schema, "schema"), h = mc::pick(hosts, "host"), p = mc::pick(ports, "port");
    std::string path = path_(), q = query_(1);
    std::string frag = mc::flip("fragment") ? "#f?x=1" : "";
    std::string u = s + "://" + h + p + path + (q.empty() ? "" : "?" + q) + frag;
    auto r = parsed(u);
    MC_CHECK(r != nullptr, "%s refused", u.c_str());
    same(u, r, s, h, p.empty() ? default_port(s) : atoi(p.c_str() + 1), path, q);
    mc::state(mc::hash_str(u));
}
static void queries(int n) {
    std::string q = query_(n), u = "http://h/live/s.flv?" + q;
    auto r = parsed(u);
    MC_CHECK(r != nullptr, "%s refused", u.c_str());
    same(u, r, "http", "h", 80, "/live/s.flv", q);
    mc::state(mc::hash_str(u));
}
// what a text that parses at all must mean
static void any(const std::string& u) {
    mc::state(mc::hash_str(u));
    auto r = parsed(u);
    if (!r) return;
    auto c = u.find("://");
    if (u[0] == '/' || u[0] == '*' || c == std::string::npos) {           // a plain path
        auto h = u.find('#'); std::string t = u.substr(0, h); auto q = t.find('?');
        same(u, r, "", "", 0, t.substr(0, q), q == std::string::npos ? "" : t.substr(q + 1));
        return;
    }
    std::string s = u.substr(0, c), rest = u.substr(c + 3);
    auto e = rest.find_first_of("/?#");
    std::string auth = rest.substr(0, e), tail = e == std::string::npos ? "" : rest.substr(e);
    auto at = auth.rfind('@'); if (at != std::string::npos) auth = auth.substr(at + 1);
    auto col = auth.rfind(':'); std::string host = auth.substr(0, col);
    int port = col == std::string::npos ? default_port(s) : atoi(auth.c_str() + col + 1);
    auto h = tail.find('#'); tail = tail.substr(0, h); auto q = tail.find('?');
    if (s == "file") return;
    same(u, r, s, host, port, tail.substr(0, q), q == std::string::npos ? "" : tail.substr(q + 1));
}
static void texts(int n) {
    static const char* const tok[] = {"http", "://", "/", ":", "1", "?", "=", "&", "#", ".", "a", "@", " "};
    std::string u; int k = mc::choose(n + 1, "length");
    for (int i = 0; i < k; ++i) u += mc::pick(tok, "token");
    any(u);
}
// one byte of a URL replaced by any other
static void bytes() {
    std::string u = "rtmp://u@ab.c:1935/li.ve/s.flv?k=v&m=x#f";
    int at = mc::choose((int) u.size(), "position"), v = mc::choose(256, "byte");
    if (mc::flip("delete rest")) u.resize(at); else u[at] = (char) v;
    if (u.find('\0') != std::string::npos) { parsed(u); return; }
    any(u);
}
static void files() {
    reg_all();
    static const char* const names[] = {"c16-a.conf", "c16.d/sps.conf", "c16 b_c", "+c16-a.conf", "+c16.d/sps.conf", "+c16 b_c", "c16-missing", "+c16.d/none", "", "c16.d/a.b/c?x=1#2"};
    char dir[4096]; if (!getcwd(dir, sizeof dir)) mc::broken("cwd");          // the check's own scratch directory
    std::set<std::string> exists;
    for (auto f : {"c16-a.conf", "c16.d/sps.conf", "c16 b_c"}) {
        mkdir("c16.d", 0700);                                                  // several workers share the directory: put complete files there only
        std::string own = "c16-tmp" + std::to_string(getpid()); { std::ofstream(own) << "text"; } rename(own.c_str(), f);
        exists.insert(f); exists.insert(std::string(dir) + "/" + f); }
    std::string n = mc::pick(names, "name"); if (n[0] == '+') n = std::string(dir) + "/" + n.substr(1);
    std::string u = "file://" + n;
    auto r = parsed(u);
    MC_CHECK((r != nullptr) == !n.empty(), "%s %s", u.c_str(), r ? "accepted" : "refused");
    if (r) {
        MC_CHECK(std::string(r->get_schema()) == "file" && n == r->get_path(), "%s names %s", u.c_str(), r->get_path());
        MC_CHECK(ext_of(n) == r->get_ext(), "%s has extension %s", u.c_str(), r->get_ext());
        // and that file is opened
        auto p = SingleInstance<UrlProtocol>::get_instance().create(u);
        MC_CHECK(p != nullptr, "%s: no file protocol", u.c_str());
        MC_CHECK((p->open(r, DEFAULT) == SUCCESS) == exists.count(n), "%s: %s opened", u.c_str(), exists.count(n) ? "not" : "missing file");
        if (exists.count(n)) { char b[8] = {}; size_t k = 0; MC_CHECK(p->read(b, 7, k) == SUCCESS && k == 4 && !strcmp(b, "text"), "%s: wrong file", u.c_str()); mc::nontrivial(); }
    }
    mc::validated(); mc::state(mc::hash_str(u));
}
// two requests reach the same stream exactly if host and path agree
static const char* SETUP = "http {\nserver s {\nlisten_port 80;\nrecv_timeout 20000000;\nsend_timeout 20000000;\n"
    "host * {\nrole source;\ntype stream;\nedge_avformat all;\n}\n}\n}\n";
static void streams() {
    quiet(); fst::reset(); fst::set_delay_bound(0);
    static const char* const hosts[] = {"a", "b.c"};
    static const char* const paths[] = {"/live/s", "/live/s.1", "/live.x/s", "/live.x/s.1", "/l.i/v.e/s", "/live.flv/s", "/live", "/live/s.flv", "/s", "/a/live/s"};
    static const char* const more[] = {"", "?t=1.flv", "?x=/y.flv&k", "?a=b/c.ts"};
    std::string h1 = mc::pick(hosts, "host"), p1 = mc::pick(paths, "path"), h2 = mc::pick(hosts, "host"), p2 = mc::pick(paths, "path");
    Peer pub, play;
    pub.dial(80); pub.send(post(h1, p1 + ".flv" + mc::pick(more, "query")));
    fst::run(fst::now());
    std::string flv = flv_bytes({media(KEY, 1)});
    pub.send(flv); fst::run(fst::now());
    MC_CHECK(!fst::peer_closed(pub.e), "publisher of %s%s.flv turned away", h1.c_str(), p1.c_str());
    play.dial(80); play.send(get(h2, p2 + ".flv" + mc::pick(more, "query")));
    fst::run(fst::now());
    Reply r = play.reply();
    bool want = h1 == h2 && p1 == p2;
    MC_CHECK(r.head && r.bad.empty() && r.status == (want ? 200 : 404), "%s%s.flv is published, playing %s%s.flv is answered %d %s", h1.c_str(), p1.c_str(), h2.c_str(), p2.c_str(), r.status, r.bad.c_str());
    if (want) { MC_CHECK(r.body == flv, "player received %zu of %zu bytes", r.body.size(), flv.size()); mc::nontrivial(); }
    mc::step(2); mc::validated(); mc::state(mc::hash_str(h1 + p1 + " " + h2 + p2));
    finish({&pub, &play});
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C16", {
        {"parts", "6 schemas, 5 hosts, 6 ports, every path of up to 3 of 8 segments, 9 queries, with and without fragment", parts, 4},
        {"queries", t ? "every query of up to 6 of 8 parameters" : "every query of up to 5 of 8 parameters", [t] { queries(t ? 6 : 5); }, 3},
        {"texts", t ? "every text of up to 6 tokens over 13" : "every text of up to 5 tokens over 13", [t] { texts(t ? 6 : 5); }, 3},
        {"bytes", "every byte of a URL replaced by every value, every prefix", bytes, 2},
        {"files", "file names", files, 1},
        {"streams", "every pair of a publisher and a player over 2 hosts, 10 paths, 4 queries, through the whole server", streams, 2, [] { boot(SETUP); }},
    });
}
