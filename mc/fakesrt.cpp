#include "fakesrt.hpp"
#include "mc.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <srtcore/srt.h>
#include <srtcore/udt.h>
#include <deque>
#include <map>

namespace fsrt {
struct Sock {
    int id = 0, port = 0;
    bool listener = false, broken = false;
    SRT_SOCKSTATUS st = SRTS_INIT;
    std::deque<Ep*> backlog; int bad_accepts = 0;
    Ep* ep = nullptr;
};
struct Ep {
    Sock* s = nullptr; int port = 0;               // s: the server's socket, while it is open
    std::deque<std::string> to_server, to_env;
    std::string streamid; size_t window = 8192;
    bool shut = false, gone = false;               // we closed; the server closed
};
std::function<int()> on_recv, on_send;
uint64_t calls;
static std::map<int, Sock*> socks;
static std::map<int, Sock*> ports;
static std::map<int, int> watch;
static std::vector<Ep*> eps;
static std::vector<Sock*> wait_answer;
static int next_id = 0x20000000, eids, last_err;
static int fail(int e) { last_err = e; return SRT_ERROR; }
static Sock* get(int u) { auto it = socks.find(u); return it == socks.end() ? nullptr : it->second; }
static Sock* make() { auto s = new Sock(); s->id = next_id--; socks[s->id] = s; return s; }

bool listening(int port) { return ports.count(port) != 0; }
Ep* dial(int port, const std::string& id, int window) {
    auto it = ports.find(port);
    if (it == ports.end()) return nullptr;
    auto e = new Ep(); e->streamid = id; e->window = window; e->port = port;
    eps.push_back(e);
    if (it->second->bad_accepts > 0) e->shut = true;
    it->second->backlog.push_back(e);
    return e;
}
void send(Ep* e, const std::string& m) {
    if (m.empty() || m.size() > SRT_LIVE_DEF_PLSIZE) mc::broken("SRT message of %zu bytes", m.size());
    if (!e->shut && !e->gone) e->to_server.push_back(m);
}
std::vector<std::string> taken(Ep* e) { std::vector<std::string> r(e->to_env.begin(), e->to_env.end()); e->to_env.clear(); return r; }
void shut(Ep* e) { e->shut = true; if (e->s) { e->s->broken = true; e->s->st = SRTS_BROKEN; } }
bool peer_closed(Ep* e) { return e->gone; }
int port_of(Ep* e) { return e->port; }
int accept_errors(int port, int n) { return ports.at(port)->bad_accepts = n; }
std::vector<Ep*> connecting() { std::vector<Ep*> r; for (auto s : wait_answer) r.push_back(s->ep); return r; }
void answer(Ep* e, bool ok) {
    for (size_t i = 0; i < wait_answer.size(); ++i) if (wait_answer[i]->ep == e) {
        Sock* s = wait_answer[i]; wait_answer.erase(wait_answer.begin() + i);
        if (ok) s->st = SRTS_CONNECTED; else { s->st = SRTS_BROKEN; s->broken = true; }
        return;
    }
    mc::broken("no such connection attempt");
}
int open_socks() { int n = 0; for (auto& s : socks) n += !s.second->listener && s.second->ep; return n; }
int watched() { int n = 0; for (auto& w : watch) { auto s = get(w.first); n += !s || !s->listener; } return n; }
void reset() {
    if (open_socks()) mc::broken("server still holds %d SRT connections at reset", open_socks());
    for (auto& p : ports) { p.second->backlog.clear(); p.second->bad_accepts = 0; }
    for (auto e : eps) delete e;
    eps.clear(); wait_answer.clear();
    on_recv = nullptr; on_send = nullptr;
}
static int ready(Sock* s) {
    int r = 0;
    if (s->listener) return s->backlog.empty() ? 0 : SRT_EPOLL_IN;
    if (s->broken) return SRT_EPOLL_IN | SRT_EPOLL_OUT | SRT_EPOLL_ERR;
    if (s->st != SRTS_CONNECTED) return 0;
    if (!s->ep->to_server.empty()) r |= SRT_EPOLL_IN;
    if (s->ep->to_env.size() < s->ep->window) r |= SRT_EPOLL_OUT;
    return r;
}
}  // namespace fsrt
using namespace fsrt;

extern "C" {
SRTSOCKET srt_create_socket(void) { ++calls; return make()->id; }
int srt_setsockflag(SRTSOCKET u, SRT_SOCKOPT, const void*, int) { return get(u) ? 0 : fail(SRT_EINVSOCK); }
int srt_setsockopt(SRTSOCKET u, int, SRT_SOCKOPT, const void*, int) { return get(u) ? 0 : fail(SRT_EINVSOCK); }
static int bind_port(SRTSOCKET u, int port) {
    Sock* s = get(u);
    if (!s || s->st != SRTS_INIT) return fail(SRT_EINVPARAM);
    s->port = port; s->st = SRTS_OPENED;
    return 0;
}
int srt_bind(SRTSOCKET u, const struct sockaddr* a, int len) {
    if (len < (int) sizeof(sockaddr_in)) return fail(SRT_EINVPARAM);
    int port = ntohs(((const sockaddr_in*) a)->sin_port);
    if (ports.count(port)) return fail(SRT_ESOCKFAIL);
    return bind_port(u, port);
}
int srt_bind_acquire(SRTSOCKET u, UDPSOCKET fd) { int p = fst::bound_port(fd); return p < 0 ? fail(SRT_EINVPARAM) : bind_port(u, p); }
int srt_listen(SRTSOCKET u, int) {
    Sock* s = get(u);
    if (!s || s->st != SRTS_OPENED) return fail(SRT_EUNBOUNDSOCK);
    s->st = SRTS_LISTENING; s->listener = true; ports[s->port] = s;
    return 0;
}
SRTSOCKET srt_accept(SRTSOCKET u, struct sockaddr* addr, int* len) {
    ++calls; mc::step();
    Sock* s = get(u);
    if (!s || !s->listener) return fail(SRT_ENOLISTEN);
    if (s->backlog.empty()) return fail(SRT_EASYNCRCV);
    Ep* e = s->backlog.front(); s->backlog.pop_front();
    if (s->bad_accepts > 0) { --s->bad_accepts; e->gone = true; return fail(SRT_ESCLOSED); }
    Sock* c = make(); c->ep = e; e->s = c; c->st = e->shut ? SRTS_BROKEN : SRTS_CONNECTED; c->broken = e->shut;
    if (addr && len) {
        sockaddr_in a; memset(&a, 0, sizeof a);
        a.sin_family = AF_INET; a.sin_port = htons(40001); a.sin_addr.s_addr = htonl(0x7f000001);
        memcpy(addr, &a, std::min((size_t) *len, sizeof a)); *len = sizeof a;
    }
    return c->id;
}
static int start_connect(SRTSOCKET u, const struct sockaddr* a) {
    Sock* s = get(u);
    if (!s || s->ep) return fail(SRT_EINVSOCK);
    auto e = new Ep(); e->port = ntohs(((const sockaddr_in*) a)->sin_port); e->s = s; s->ep = e; s->st = SRTS_CONNECTING;
    eps.push_back(e); wait_answer.push_back(s);
    return 0;
}
int srt_connect(SRTSOCKET u, const struct sockaddr* a, int) { ++calls; return start_connect(u, a); }
int srt_connect_bind(SRTSOCKET u, const struct sockaddr*, const struct sockaddr* a, int) { ++calls; return start_connect(u, a); }
int srt_recv(SRTSOCKET u, char* buf, int len) {
    ++calls; mc::step();
    Sock* s = get(u);
    if (!s) return fail(SRT_EINVSOCK);
    if (!s->ep || (s->st != SRTS_CONNECTED && !s->broken)) return fail(SRT_ENOCONN);
    if (len < SRT_LIVE_DEF_PLSIZE) return fail(SRT_EINVALMSGAPI);
    if (on_recv) if (int e = on_recv()) return fail(e);
    if (s->ep->to_server.empty()) return fail(s->broken ? SRT_ECONNLOST : SRT_EASYNCRCV);
    std::string m = s->ep->to_server.front(); s->ep->to_server.pop_front();
    memcpy(buf, m.data(), m.size());
    return m.size();
}
int srt_sendmsg(SRTSOCKET u, const char* buf, int len, int, int) {
    ++calls; mc::step();
    Sock* s = get(u);
    if (!s) return fail(SRT_EINVSOCK);
    if (s->broken) return fail(SRT_ECONNLOST);
    if (!s->ep || s->st != SRTS_CONNECTED) return fail(SRT_ENOCONN);
    if (len <= 0 || len > SRT_LIVE_DEF_PLSIZE) return fail(SRT_EINVALMSGAPI);
    if (on_send) if (int e = on_send()) return fail(e);
    if (s->ep->to_env.size() >= s->ep->window) return fail(SRT_EASYNCSND);
    s->ep->to_env.push_back(std::string(buf, len));
    return len;
}
int srt_close(SRTSOCKET u) {
    Sock* s = get(u);
    if (!s) return fail(SRT_EINVSOCK);
    if (s->ep) { s->ep->gone = true; s->ep->s = nullptr; }
    if (s->listener) ports.erase(s->port);
    for (size_t i = 0; i < wait_answer.size(); ++i) if (wait_answer[i] == s) { wait_answer.erase(wait_answer.begin() + i); break; }
    watch.erase(u); socks.erase(u); delete s;
    return 0;
}
int srt_getlasterror(int* e) { if (e) *e = 0; return last_err; }
const char* srt_getlasterror_str(void) { return "fake srt error"; }
void srt_clearlasterror(void) { last_err = 0; }
SRT_SOCKSTATUS srt_getsockstate(SRTSOCKET u) { Sock* s = get(u); return s ? s->st : SRTS_NONEXIST; }
int srt_bstats(SRTSOCKET u, SRT_TRACEBSTATS* p, int) { if (!get(u)) return fail(SRT_EINVSOCK); memset(p, 0, sizeof *p); return 0; }
int srt_epoll_create(void) { return ++eids; }
int32_t srt_epoll_set(int, int32_t f) { return f; }
static int set_watch(SRTSOCKET u, const int* ev) {
    ++calls;
    if (!get(u)) return fail(SRT_EINVSOCK);
    int e = ev ? *ev : SRT_EPOLL_IN | SRT_EPOLL_OUT | SRT_EPOLL_ERR;
    if (e) watch[u] = e; else watch.erase(u);
    return 0;
}
int srt_epoll_add_usock(int, SRTSOCKET u, const int* ev) { return set_watch(u, ev); }
int srt_epoll_update_usock(int, SRTSOCKET u, const int* ev) { return set_watch(u, ev); }
int srt_epoll_remove_usock(int, SRTSOCKET u) { ++calls; if (!get(u)) return fail(SRT_EINVSOCK); watch.erase(u); return 0; }
int srt_epoll_remove_ssock(int, SYSSOCKET) { return 0; }
int srt_epoll_uwait(int, SRT_EPOLL_EVENT* ev, int n, int64_t ms) {
    if (ms) mc::broken("blocking epoll");
    int k = 0;
    for (auto& w : watch) {
        Sock* s = get(w.first);
        int r = s ? fsrt::ready(s) & (w.second | SRT_EPOLL_ERR) : 0;
        if (r && k < n) { ev[k].fd = w.first; ev[k].events = r; ++k; }
    }
    return k;
}
}
namespace UDT {
int epoll_add_usock(int e, SRTSOCKET u, const int* ev) { return srt_epoll_add_usock(e, u, ev); }
int epoll_update_usock(int e, SRTSOCKET u, const int* ev) { return srt_epoll_update_usock(e, u, ev); }
int epoll_remove_usock(int e, SRTSOCKET u) { return srt_epoll_remove_usock(e, u); }
int epoll_remove_ssock(int e, SYSSOCKET s) { return srt_epoll_remove_ssock(e, s); }
int epoll_uwait(int e, SRT_EPOLL_EVENT* ev, int n, int64_t ms) { return srt_epoll_uwait(e, ev, n, ms); }
}
namespace srt { std::string getstreamid(SRTSOCKET u) { Sock* s = get(u); return s && s->ep ? s->ep->streamid : ""; } }
