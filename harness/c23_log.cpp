// C23: what peers send and files hold shows up in the log as the text it is.
#include "stack.hpp"
#include <regex>
#include <sys/mman.h>
#include <unistd.h>
using namespace stack;
typedef std::string S;
static const char* SETUP =
    "http {\nserver s {\nlisten_port 80;\nrecv_timeout 20000000;\nsend_timeout 20000000;\n"
    "host a.com {\nrole source;\ntype stream;\nedge_avformat all;\n}\n"
    "host e.com {\nrole edge;\ntype stream;\nedge_avformat all;\nupstream {\nurl http://o.com:90/~;\n}\n}\n}\n}\n";

// the console logger, its output caught
static int mem = -1, saved = -1;
static void begin() {
    fst::reset(); fst::set_delay_bound(0);
    static ConsoleLog c; sps::log = &c;
}
static S caught(const std::function<void()>& f) {
    if (mem < 0) mem = memfd_create("log", 0);
    fflush(stdout);
    if (ftruncate(mem, 0) || lseek(mem, 0, SEEK_SET)) mc::broken("memfd");
    saved = dup(1); dup2(mem, 1);
    f();
    fflush(stdout);
    dup2(saved, 1); close(saved);
    S s; char b[65536]; ssize_t n; lseek(mem, 0, SEEK_SET);
    while ((n = read(mem, b, sizeof b)) > 0) s.append(b, n);
    quiet();
    return s;
}
static S stamp() {                          // TZ is UTC
    unsigned long long us = 1600000000000000ULL + fst::now(); time_t t = us / 1000000; struct tm tm; gmtime_r(&t, &tm);
    char b[64]; snprintf(b, sizeof b, "[%04d-%02d-%02d %02d:%02d:%02d.%03d] ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int) (us / 1000 % 1000));
    return b;
}
static S show(const S& s) { S r; for (char c : s) if (c >= 32 && c < 127) r += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", (uint8_t) c); r += b; } return r.substr(0, 600); }
static void is(const S& got, const S& text) {
    S want = stamp() + text;
    if (want.size() <= 4000) MC_CHECK(got == want, "logged %s, must be %s", show(got).c_str(), show(want).c_str());
    else MC_CHECK(got.size() >= 4000 && want.compare(0, got.size(), got) == 0, "a long message is logged as %zu bytes that are not its start: ...%s", got.size(), show(got.substr(got.size() > 300 ? got.size() - 300 : 0)).c_str());
    mc::validated(); mc::nontrivial();
}
// every short text
static void texts(int n) {
    begin();
    static const char* const tok[] = {"%", "s", "n", "d", "0", "9", "$", "*", "l", "\\", " ", "x", "c", "1"};
    S t; int k = mc::choose(n + 1, "length"); for (int i = 0; i < k; ++i) t += mc::pick(tok, "character");
    mc::step(); mc::state(mc::hash_str(t));
    // one char in front of a sentinel in memory of its own
    std::unique_ptr<char[]> p(new char[t.size() + 1]); memcpy(p.get(), t.c_str(), t.size() + 1);
    is(caught([&] { sps::log->printf(LOG_LEVEL::INFO, "<%s>", p.get()); }), "<" + t + ">");
}
// levels, argument kinds and the sp_ macros
static void kinds() {
    // years, months, days, seconds and thousandths turning over
    static const unsigned long long second[] = {0, 19, 20, 41599, 41600, 9462799, 9462800, 9462801, 109168399, 109168400, 109254799, 109254800}, part[] = {0, 1, 499, 500, 999, 1000, 9999, 10000, 99999, 100000, 499999, 500000, 999000, 999499, 999500, 999999};
    begin(); unsigned long long at = mc::pick(second, "second") * 1000000; fst::sleep(at + mc::pick(part, "microseconds"));
    static const LOG_LEVEL lv[] = {LOG_LEVEL::DEBUG, LOG_LEVEL::INFO, LOG_LEVEL::TRACE, LOG_LEVEL::WARN, LOG_LEVEL::ERROR};
    LOG_LEVEL l = mc::pick(lv, "level"); int k = mc::choose(8, "message"); mc::step(); mc::state(k * 8 + (int) l);
    char b[256];
    S out = caught([&] {
        switch (k) {
            case 0: sps::log->printf(l, "plain"); break;
            case 1: sps::log->printf(l, "100%%"); break;
            case 2: sps::log->printf(l, "%d %5u %-4x| %lld %s", -1, 7u, 0xabu, 1LL << 40, "t%s"); break;
            case 3: sps::log->printf(l, "%.3f %c %%s %s", 1.5, '%', "%n"); break;
            case 4: sp_warn("w %s", "%s%n"); break;
            case 5: errno = EPIPE; sp_error("e %s", "%d"); break;
            case 6: sp_append("%s", "%x %x"); break;
            default: sps::log->printf(l, "%s", ""); break;
        }
    });
    switch (k) {
        case 0: is(out, "plain"); break; case 1: is(out, "100%"); break;
        case 2: snprintf(b, sizeof b, "%d %5u %-4x| %lld %s", -1, 7u, 0xabu, 1LL << 40, "t%s"); is(out, b); break;
        case 3: is(out, "1.500 % %s %n"); break;
        case 4: MC_CHECK(out.find("c23_log.cpp:") != S::npos && out.find("] w %s%n\r\n") != S::npos, "%s", show(out).c_str()); mc::validated(); break;
        case 5: MC_CHECK(out.find("] e %d (32 Broken pipe)\r\n") != S::npos, "%s", show(out).c_str()); mc::validated(); break;
        case 6: is(out, "%x %x "); break; default: is(out, ""); break;
    }
    mc::nontrivial();
}
// messages around the size of the logger's buffer: cut, never past it; the next one is whole
static void lengths() {
    begin();
    static const char* const pat[] = {"a", "%", "%s", "%n%d", "\xff"};
    static const int base[] = {0, 1, 100, 4000, 4040, 4060, 4080, 4090, 4100, 5000, 65536, 1000000};
    S p = mc::pick(pat, "pattern"); size_t n = mc::pick(base, "length") + mc::choose(20, "more"); S t; while (t.size() < n) t += p; t.resize(n);
    mc::step(); mc::state(n * 8 + p.size());
    is(caught([&] { sps::log->printf(LOG_LEVEL::INFO, "%s", t.c_str()); }), t);
    begin(); is(caught([&] { sps::log->printf(LOG_LEVEL::INFO, "next %s", "%s"); }), "next %s");
}
// the server: hostile text at every place of a request, its log and its answers
static void requests() {
    begin();
    static const char* const evil[] = {"%s%s%s%s%s%s%s%s", "%n%n%n%n", "%5$n", "%99999d", "%.9999999f", "%*d", "%", "%%", "%lln%hhn", "%ls"};
    static const char* const where[] = {"path", "query", "extension", "host", "header name", "header value", "stream name", "method", "edge path", "config"};
    int w = mc::choose(10, "where"); S e = mc::pick(evil, "text"), x = "MARK" + e + "END"; bool pub = mc::flip("post"); mc::note("%s in %s", e.c_str(), where[w]); mc::step(); mc::state(w * 100 + mc::hash_str(e, pub));
    S host = "a.com", target = "/live/s.flv", more; 
    switch (w) { case 0: target = "/" + x + "/s.flv"; break; case 1: target += "?k=" + x + "&" + x + "=1"; break; case 2: target = "/live/s." + x; break; case 3: host = x; break; case 4: more = x + ": v\r\n"; break;
                 case 5: more = "X-A: " + x + "\r\n"; break; case 6: target = "/live/" + x + ".flv"; break; case 8: host = "e.com"; target = "/" + x + ".flv"; break; default: break; }
    Peer a, b; S out = caught([&] {
        if (w == 9) { error_t r; load("http {\nserver " + x + " {\n" + x + " " + x + ";\n}\n}\n", r); load(x, r); return; }
        a.dial(80); b.dial(80);
        a.send(w == 7 ? x + " / HTTP/1.1\r\nHost: a.com\r\n\r\n" : pub ? post(host, target, more) + flv_header() + be(0, 4) + media(KEY, 1).tagbytes() : get(host, target, more)); fst::run(fst::now());
        b.send(get("a.com", target)); fst::run(fst::now());
        a.poll(); b.poll();
    });
    size_t n = 0;
    for (size_t p = 0; (p = out.find("MARK", p)) != S::npos; ++p) { ++n; MC_CHECK(out.compare(p, x.size(), x) == 0, "%s was logged as %s", x.c_str(), show(out.substr(p, 100)).c_str()); }
    // every message carries its time; nothing else is printed
    static const std::regex head("^\\[\\d{4}-\\d\\d-\\d\\d \\d\\d:\\d\\d:\\d\\d\\.\\d{3}\\] ");
    size_t lines = 0, p = 0;
    while (p < out.size()) { size_t q = out.find("\r\n", p); S l = out.substr(p, q == S::npos ? S::npos : q - p); MC_CHECK(q != S::npos, "the last message is cut: %s", show(l).c_str()); MC_CHECK(std::regex_search(l, head), "output that is no message: %s", show(l).c_str()); ++lines; p = q + 2; }
    if (w != 9) {
        if (pub && (w == 0 || w == 1 || w == 4 || w == 5 || w == 6)) { MC_CHECK(!fst::peer_closed(a.e), "publisher refused"); Reply r = b.reply(); MC_CHECK(r.head && r.status == 200, "player of %s got %d", target.c_str(), r.status); }
        else if (!pub && w != 7 && w != 8) { Reply r = a.reply(); MC_CHECK(r.head && (r.status == 404 || (w == 2 && (r.status == 403 || r.status == 404))), "%s%s answered with %d", host.c_str(), target.c_str(), r.status); }
        finish({&a, &b});
    }
    mc::validated(n + lines); mc::nontrivial();
}
// each connection's messages carry a number of its own
static void contexts(int delays) {
    begin();
    Peer c[3]; int n = 2 + mc::choose(2, "connections"); bool again = mc::flip("one more later");
    static const std::regex line("\\] \\[[^\\]]*:\\d+\\] \\[(-?\\d+)\\] .*MARK(\\d)");
    fst::set_delay_bound(delays); fst::reset();
    Peer d;
    S out = caught([&] {
        for (int i = 0; i < n; ++i) fst::spawn("client", [&, i] { c[i].dial(80); c[i].send("GET /live/MARK" + std::to_string(i)); fst::yield(); c[i].send(".flv HTTP/1.1\r\nHost: a.com\r\n"); fst::yield(); c[i].send("\r\n"); });
        fst::run(fst::now() + 1000);
        if (again) { fst::set_delay_bound(0); c[0].close(); fst::run(fst::now()); d.dial(80); d.send(get("a.com", "/live/MARK9.flv")); fst::run(fst::now()); }
    });
    std::map<int, std::set<int>> ids; size_t p = 0;
    while (p < out.size()) { size_t q = out.find("\r\n", p); if (q == S::npos) break; S l = out.substr(p, q - p); std::smatch m; if (std::regex_search(l, m, line)) ids[atoi(m[2].str().c_str())].insert(atoi(m[1].str().c_str())); p = q + 2; }
    if (!ids.empty()) mc::nontrivial();
    std::set<int> all; for (auto& i : ids) { MC_CHECK(i.second.size() == 1, "connection %d logs under %zu numbers", i.first, i.second.size()); MC_CHECK(*i.second.begin() >= 0, "connection %d logs without a number", i.first); MC_CHECK(all.insert(*i.second.begin()).second, "two connections log under the number %d", *i.second.begin()); }
    mc::validated(ids.size()); mc::state(n * 2 + again);
    std::vector<Peer*> v; for (int i = 0; i < n; ++i) v.push_back(&c[i]); if (d.e) v.push_back(&d);
    finish(v);
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (S(argv[i]) == "--tier" && S(argv[i + 1]) == "thorough") mc::tier = 1;
    bool T = mc::tier;
    auto init = [] { boot(SETUP); };
    return mc::run(argc, argv, "C23", {
        {"texts", S("every text of up to ") + (T ? "6" : "5") + " of 14 characters as an argument", [=] { texts(T ? 6 : 5); }, 3},
        {"messages", "5 levels, 8 kinds of message, 192 times", kinds, 2},
        {"lengths", "240 lengths from 0 to 1000019, 5 patterns", lengths, 2},
        {"requests", "10 format directives at 10 places of requests and configuration", requests, 2, init},
        {"contexts", S("2-3 connections, every schedule with up to ") + (T ? "5" : "4") + " deviations from FIFO", [=] { contexts(T ? 5 : 4); }, 3, init},
    });
}
