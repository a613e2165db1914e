// C15: a configuration file means exactly what it says, or is refused.
#include <csetjmp>
#include "stack.hpp"
using namespace stack;
static void split_ws(const std::string& l, std::vector<std::string>& out) {
    std::string cur;
    for (char c : l) { if (c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f') { if (!cur.empty()) out.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) out.push_back(cur);
}
// ---- the reference reading of a configuration
struct Node { std::string type, name; std::vector<std::pair<std::string, std::string>> items; std::vector<std::shared_ptr<Node>> kids; };
typedef std::shared_ptr<Node> PNode;
enum Kind_ { BAD, NOTHING, ITEM_, OPEN, CLOSE };
static Kind_ line_kind(const std::string& l, std::string& name, std::string& arg) {
    std::vector<std::string> t; split_ws(l, t);
    if (t.empty() || t[0][0] == '#') return NOTHING;
    size_t e = 0;
    while (e < t.size() && !strchr(";{}", t[e].back())) ++e;
    if (e == t.size()) return BAD;                              // neither item nor block
    if (e + 1 < t.size() && t[e + 1][0] != '#') return BAD;     // something follows
    char k = t[e].back();
    if (k == '}') return e == 0 ? (t[0] == "}" ? CLOSE : CLOSE) : BAD;
    if (e == 0) return BAD;                                     // "name;" or "name{" or ";"
    t[e].pop_back();
    name = t[0]; arg.clear();
    for (size_t i = 1; i <= e; ++i) if (!t[i].empty()) arg += (arg.empty() ? "" : " ") + t[i];
    return k == ';' ? ITEM_ : OPEN;
}
static bool has(std::initializer_list<const char*> l, const std::string& s) { for (auto x : l) if (s == x) return true; return false; }
static bool may_contain(const std::string& p, const Node& k) {
    if (!has({"http", "server", "host", "globalhost", "upstream", "stream", "location", "root"}, k.type)) return false;
    if (p == "root") return true;
    if (p == "http") return k.type == "server";
    if (p == "server" || p == "globalhost") return k.type == "host" && !k.name.empty();
    if (p == "host") return k.type == "stream" || k.type == "upstream";
    return true;                       // blocks without a say keep whatever stands in them
}
static bool is_block_option(const std::string& p, const std::string& n) { return (p == "http" && n == "server") || ((p == "server" || p == "globalhost") && n == "host"); }
static std::vector<PNode> servers;          // of all http blocks, in the order they end
static bool read_block(const std::vector<std::string>& ls, size_t& at, Node& n) {
    while (at < ls.size()) {
        std::string name, arg;
        Kind_ k = line_kind(ls[at++], name, arg);
        if (k == BAD) return false;
        if (k == NOTHING) continue;
        if (k == CLOSE) return n.type != "root";
        if (k == ITEM_) { if (is_block_option(n.type, name)) return false; n.items.push_back({name, arg}); continue; }
        auto c = std::make_shared<Node>(); c->type = name; c->name = arg;
        if (!has({"http", "server", "host", "globalhost", "upstream", "stream", "location", "root"}, name)) return false;
        if (name == "root") return false;                      // a root never ends
        if (!read_block(ls, at, *c)) return false;
        if (!may_contain(n.type, *c)) return false;
        n.kids.push_back(c);
        if (n.type == "http") servers.push_back(c);
    }
    return n.type == "root";
}
static std::vector<std::string> lines_of(const std::string& s) {
    std::vector<std::string> v; std::string c;
    for (char ch : s) { if (ch == '\n') { v.push_back(c); c.clear(); } else c += ch; }
    if (!c.empty()) v.push_back(c);
    return v;
}
// ---- comparison with what was loaded
static std::string val(const Node& n, const char* key, const char* dflt) { std::string v = dflt; for (auto& i : n.items) if (i.first == key) v = i.second; return v; }
static void eq(const Node& n, const char* key, const char* dflt, const std::string& got) {
    std::string w = val(n, key, dflt);
    MC_CHECK(got == w, "%s %s: %s is %s instead of %s", n.type.c_str(), n.name.c_str(), key, mc::quote(got).c_str(), mc::quote(w).c_str());
}
static void eqn(const Node& n, const char* key, const char* dflt, long long got, bool wide) {
    std::string v = val(n, key, dflt);
    long long w = wide ? atoll(v.c_str()) : atoi(v.c_str());
    MC_CHECK(got == w, "%s %s: %s is %lld instead of %s", n.type.c_str(), n.name.c_str(), key, got, v.c_str());
}
static void eqb(const Node& n, const char* key, const char* dflt, bool got) {
    bool w = val(n, key, dflt) == "on";
    MC_CHECK(got == w, "%s %s: %s %s is %s", n.type.c_str(), n.name.c_str(), key, val(n, key, dflt).c_str(), got ? "on" : "off");
}
template <class M, class C> static M* as(const Node& n, const PIModule& m, C*& c) {
    auto x = dynamic_cast<M*>(m.get());
    MC_CHECK(x && m->module_type == n.type && m->module_name == n.name, "block %s %s loaded as %s %s", n.type.c_str(), n.name.c_str(), m->module_type.c_str(), m->module_name.c_str());
    c = static_cast<C*>(m->conf.get());
    return x;
}
static void same(const Node& n, const PIModule& m);
static void same_subs(const Node& n, const PIModule& m) {
    std::map<std::string, std::vector<PNode>> w;
    for (auto& k : n.kids) w[k->type].push_back(k);
    MC_CHECK(m->subs.size() == w.size(), "%s has %zu kinds of blocks instead of %zu", n.type.c_str(), m->subs.size(), w.size());
    for (auto& s : w) {
        auto& l = m->subs[s.first];
        MC_CHECK(l.size() == s.second.size(), "%zu %s blocks instead of %zu", l.size(), s.first.c_str(), s.second.size());
        size_t i = 0; for (auto& x : l) same(*s.second[i++], x);
    }
}
template <class V> static void same_list(const Node& n, const V& l) {
    MC_CHECK(l.size() == n.kids.size(), "%s %s has %zu blocks instead of %zu", n.type.c_str(), n.name.c_str(), l.size(), n.kids.size());
    size_t i = 0; for (auto& x : l) same(*n.kids[i++], x);
}
static void same(const Node& n, const PIModule& m) {
    mc::step();
    if (n.type == "root") same_subs(n, m);
    else if (n.type == "http") {
        MC_CHECK(dynamic_cast<HttpModule*>(m.get()), "http block loaded as something else");
    } else if (n.type == "server") {
        ServerConfCtx* c; auto s = as<ServerModule>(n, m, c);
        eqn(n, "listen_port", "80", c->listen_port, false); eq(n, "server_name", "", c->server_name); eq(n, "transport", "tcp", c->transport);
        eqn(n, "recv_timeout", "-1", (long long) c->recv_timeout, true); eqn(n, "send_timeout", "-1", (long long) c->send_timeout, true);
        eqb(n, "reuse_port", "off", c->reuse_port); eqn(n, "backlog", "1024", c->backlog, false);
        eq(n, "ssl_key_file", "", c->ssl_key_file); eq(n, "ssl_crt_file", "", c->ssl_crt_file);
        std::vector<PHostModule> own;
        for (auto& h : s->host_modules) if (h->parent == m) own.push_back(h);
        same_list(n, own);
    } else if (n.type == "globalhost") {
        auto g = dynamic_cast<GlobalHostModule*>(m.get()); MC_CHECK(g, "globalhost"); same_list(n, g->host_modules);
    } else if (n.type == "host") {
        HostConfCtx* c; auto h = as<HostModule>(n, m, c);
        eqb(n, "enabled", "on", c->enabled); eq(n, "pass_proxy", "", c->pass_proxy); eq(n, "pass_url", "", c->pass_url); eq(n, "role", "edge", c->role);
        eq(n, "type", "proxy", c->type); eq(n, "edge_avformat", "-", c->edge_avformat); eq(n, "ssl_key_file", "", c->ssl_key_file); eq(n, "ssl_crt_file", "", c->ssl_crt_file);
        PNode st, up; for (auto& k : n.kids) (k->type == "stream" ? st : up) = k;
        MC_CHECK((st != nullptr) == (h->stream_module != nullptr) && (up != nullptr) == (h->upstream_module != nullptr), "blocks of host %s", n.name.c_str());
        if (st) same(*st, h->stream_module);
        if (up) same(*up, h->upstream_module);
    } else if (n.type == "upstream") {
        UpStreamConfCtx* c; as<UpStreamModule>(n, m, c);
        eq(n, "name", "unknown upstream name", c->name); eq(n, "server", "unknown upstream server", c->server); eqn(n, "keepalive", "10", c->keepalive, false);
        same_subs(n, m);
    } else if (n.type == "stream") {
        StreamConfCtx* c; as<StreamModule>(n, m, c);
        eq(n, "avformat", "-", c->avformat); eqb(n, "edge", "on", c->edge); eq(n, "pass_proxy", "-", c->pass_proxy);
        same_subs(n, m);
    } else if (n.type == "location") {
        LocationConfCtx* c; as<LocationModule>(n, m, c);
        eqb(n, "enabled", "on", c->enabled); eq(n, "role", "edge", c->role); eq(n, "pass_proxy", "", c->pass_proxy);
        same_subs(n, m);
    }
}
static jmp_buf gave_up;       // the loader gave up with exit()
static void judge(const std::string& text, bool expect_accept = false) {
    quiet(); reg_all();
    HttpModule::http_servers.clear(); GlobalHostModule::global_hosts.clear(); SingleInstance<UpStreamModules>::get_instance().ups.clear();
    fst::on_program_exit = [](int) { longjmp(gave_up, 1); };
    servers.clear();
    Node ref; ref.type = "root"; size_t at = 0;
    auto ls = lines_of(text);
    bool want = read_block(ls, at, ref);
    if (expect_accept && !want) mc::broken("reference refuses a valid text: %s", text.c_str());
    // exactly as long as the text
    std::vector<char> mem(text.begin(), text.end());
    std::shared_ptr<IReader> rd = mc::flip("memory") ? std::static_pointer_cast<IReader>(std::make_shared<MemoryReaderWriter>(mem.data(), (int) mem.size())) : std::static_pointer_cast<IReader>(std::make_shared<TextReader>(text));
    auto root = SingleInstance<ModuleFactoryRegister>::get_instance().create("root", "", nullptr);
    volatile bool ok = false;
    if (!setjmp(gave_up)) ok = root->init_conf(rd) == SUCCESS;
    fst::on_program_exit = nullptr;
    MC_CHECK(ok == want, "%s configuration %s:\n%s", want ? "valid" : "malformed", ok ? "accepted" : "refused", text.c_str());
    if (ok) {
        same(ref, root);
        MC_CHECK(HttpModule::http_servers.size() == servers.size(), "%zu servers instead of %zu", HttpModule::http_servers.size(), servers.size());
        size_t i = 0; for (auto& x : HttpModule::http_servers) same(*servers[i++], x);
        mc::nontrivial();
    }
    mc::validated(); mc::state(mc::hash_str(text));
}
static const char* const TEXT[] = {
    "upstream u1 {", "server 127.0.0.1:8080;", "keepalive 80;", "}",
    "globalhost {", "host a.com {", "role source;", "type stream;", "}", "}",
    "http {", "server s1 {", "listen_port 8000;", "recv_timeout 10000000;", "reuse_port on;",
    "host b.com {", "enabled off;", "pass_proxy u1;", "}", "}", "}"};
static const int NT = sizeof TEXT / sizeof *TEXT;
// every option with every value
static void values() {
    struct O { const char* block; const char* opt; };
    static const O opts[] = {{"server", "listen_port"}, {"server", "server_name"}, {"server", "transport"}, {"server", "recv_timeout"}, {"server", "send_timeout"}, {"server", "reuse_port"}, {"server", "backlog"}, {"server", "ssl_key_file"}, {"server", "ssl_crt_file"},
        {"host", "enabled"}, {"host", "pass_proxy"}, {"host", "pass_url"}, {"host", "role"}, {"host", "type"}, {"host", "edge_avformat"}, {"host", "ssl_key_file"}, {"host", "ssl_crt_file"},
        {"upstream", "name"}, {"upstream", "server"}, {"upstream", "keepalive"}, {"stream", "avformat"}, {"stream", "edge"}, {"stream", "pass_proxy"}, {"server", "nonsense"}, {"host", "nonsense"}, {"location", "role"}, {"location", "enabled"}};
    static const char* const vals[] = {"on", "off", "once", "onoff", "o", "On", "1", "0", "-1", "65535", "4294967295", "9999999999", "a", "a b  c", "x#y", "#!::h=1", "a{b", "\"q\"", "127.0.0.1:80", ""};
    static const char* const seps[] = {" ", "\t", "   "};
    static const char* const ends[] = {";", " ;", "; # c", ";\t#x; y {"};
    const O& o = mc::pick(opts, "option");
    auto item = [&] { return std::string(mc::pick(seps, "space")) + o.opt + std::string(mc::pick(seps, "space")) + mc::pick(vals, "value") + mc::pick(ends, "end") + "\n"; };
    std::string body = item();
    if (mc::flip("again")) body += std::string(o.opt) + " zz;\n";
    std::string b = o.block, t;
    if (b == "server") t = "http {\nserver s {\n" + body + "}\n}\n";
    else if (b == "host") t = "http {\nserver s {\nhost h {\n" + body + "}\n}\n}\n";
    else if (b == "stream") t = "globalhost {\nhost h {\nstream {\n" + body + "}\n}\n}\n";
    else t = b + " n {\n" + body + "}\n";
    judge(t);
}
// every line laid out in every way, two lines at a time
static std::string relayed(const std::string& l, int how) {
    std::string x = l;
    char e = l.back();
    switch (how) {
        case 0: return x + "\n";
        case 1: return "  \t" + x + "  \n";
        case 2: return x + " # note; with { and } \n";
        case 3: return "\n# a; b {\n" + x + "\n\n";
        case 4: if (e == ';') x.insert(x.size() - 1, " "); else if (e == '{' && l.find(' ') != l.size() - 2) x.erase(x.size() - 2, 1); return x + "\n";
        case 5: { std::string y; for (char c : x) { y += c; if (c == ' ') y += "\t "; } return y + "\r\n"; }
        case 6: return "    #" + std::string("whole line }") + "\n" + x + "#\n" ;      // glued: not an end any more
        default: return x + "\n#\n";
    }
}
static void layout() {
    int a = mc::choose(NT, "line"), ha = mc::choose(8, "how"), b = a, hb = ha;
    if (mc::flip("second")) { b = mc::choose(NT, "line"); hb = mc::choose(8, "how"); }
    std::string t;
    for (int i = 0; i < NT; ++i) t += relayed(TEXT[i], i == a ? ha : i == b ? hb : 0);
    if (mc::flip("no newline at the end")) t.pop_back();
    judge(t, ha != 6 && hb != 6);
}
// a valid text with one or two tokens deleted, replaced or inserted
static void corrupt(int n) {
    static const char* const toks[] = {"{", "}", ";", "#", "x", "x;", "x{", "x}", "\n", "}\n", "host", "server"};
    std::vector<std::string> t;
    for (int i = 0; i < NT; ++i) { std::vector<std::string> v; split_ws(TEXT[i], v); for (auto& x : v) t.push_back(x); t.push_back("\n"); }
    for (int k = 0; k < n; ++k) {
        int at = mc::choose((int) t.size(), "token"), how = mc::choose(25, "change");
        if (how == 0) t.erase(t.begin() + at);
        else if (how <= 12) t[at] = toks[how - 1];
        else t.insert(t.begin() + at, toks[how - 13]);
    }
    std::string s;
    for (auto& x : t) { if (!s.empty() && s.back() != '\n' && x != "\n") s += " "; s += x; }
    judge(s);
}
// every short text
static void tokens(int n) {
    static const char* const toks[] = {"upstream", "server", "a", "a;", ";", "{", "}", "#", "\n", "a{"};
    std::string s; int k = mc::choose(n + 1, "length");
    for (int i = 0; i < k; ++i) { std::string x = mc::pick(toks, "token"); if (!s.empty() && s.back() != '\n' && x != "\n") s += " "; s += x; }
    judge(s);
}
// every tree of blocks
static std::string tree(int depth, int& budget) {
    static const char* const heads[] = {"http {", "server s {", "host h {", "globalhost {", "upstream u {", "stream {", "bogus {", "host {", "location / {"};
    std::string s;
    while (budget > 0) {
        int k = mc::choose(depth ? 11 : 10, "block");
        if (k == 9) { --budget; s += "role x;\nserver 1;\n"; continue; }
        if (k == 10) break;
        --budget;
        s += std::string(heads[k]) + "\n" + tree(depth + 1, budget) + "}\n";
    }
    return s;
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") mc::tier = 1;
    int t = mc::tier;
    return mc::run(argc, argv, "C15", {
        {"values", "27 options of 5 blocks with 20 values, 4 ends, 9 spacings, given once or twice", values, 3},
        {"layout", "a configuration of 21 lines with every pair of lines in 8 layouts, with and without final newline", layout, 3},
        {"corrupt", t ? "every two token deletions, replacements and insertions in that configuration" : "every token deletion, replacement and insertion in that configuration", [t] { corrupt(t ? 2 : 1); }, 2},
        {"tokens", t ? "every text of up to 6 tokens over 10" : "every text of up to 5 tokens over 10", [t] { tokens(t ? 6 : 5); }, 3},
        {"blocks", t ? "every tree of up to 5 blocks and items over 10" : "every tree of up to 4 blocks and items over 10", [t] { int b = t ? 5 : 4; judge(tree(0, b)); }, 4},
    });
}
