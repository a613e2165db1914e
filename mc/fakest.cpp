#include "fakest.hpp"
#include "mc.hpp"

#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <public.h>
#include <sys/mman.h>
#include <sys/time.h>

#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <set>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define HAVE_ASAN 1
#endif

struct _st_thread {
    void* sp = nullptr;
    char* stack = nullptr;
    void* fake = nullptr;
    std::function<void()> fn;
    std::string name;
    bool done = false, persistent = false, env = false;
    bool runnable = true;
    bool timed_out = false;
    fst::usec deadline = (fst::usec) -1;
    std::set<_st_thread*>* waitset = nullptr;
    std::vector<_st_thread*>* waitq = nullptr;
    uint64_t seq = 0;
};
struct _st_cond { std::vector<_st_thread*> waiters; };
struct _st_mutex { int dummy; };

// Own context switch: libc's saves the signal mask with a system call, and the
// sanitizer's wrapper of it forgets what it knows about the target's stack.
extern "C" void mc_switch(void** save, void* load);
__asm__(".text\n.globl mc_switch\n.type mc_switch,@function\nmc_switch:\n"
        "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
        "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
        "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nretq\n.size mc_switch,.-mc_switch\n");

namespace fst {

std::function<int(Ep*, size_t)> on_write, on_read;
std::function<int()> on_accept, on_thread_create, on_getsockname;
std::function<int(int)> on_connect;
std::function<void(int)> on_program_exit;
std::function<int(usec)> on_main_wait;

static const size_t STACK = 512 * 1024;
static std::vector<char*> stacks;
static std::vector<_st_thread*> threads;      // live
static std::deque<_st_thread*> ready;
static _st_thread* cur;
static void* sched_sp;
static void* sched_fake;
static const void* sched_bottom; static size_t sched_size;
static usec clock_us;
static uint64_t seqno, nswitch;
static int delay_bound = -1, delays_left = -1;
static size_t nconds;

usec now() { return clock_us; }
uint64_t switches() { return nswitch; }
void set_delay_bound(int n) { delay_bound = n; delays_left = n; }
size_t conditions_alive() { return nconds; }

static void to_sched() {
    _st_thread* t = cur;
#ifdef HAVE_ASAN
    __sanitizer_start_switch_fiber(t->done ? nullptr : &t->fake, sched_bottom, sched_size);
#endif
    mc_switch(&t->sp, sched_sp);
#ifdef HAVE_ASAN
    __sanitizer_finish_switch_fiber(t->fake, &sched_bottom, &sched_size);
#endif
}
static void entry() {
    _st_thread* t = cur;
#ifdef HAVE_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
#endif
    t->fn();
    t->fn = nullptr;
    t->done = true;
    to_sched();
    abort();
}
static _st_thread* create(const std::string& name, std::function<void()> fn, bool env) {
    auto t = new _st_thread();
    t->fn = std::move(fn); t->name = name; t->env = env; t->seq = seqno++;
    if (stacks.empty()) {
        t->stack = (char*) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    } else { t->stack = stacks.back(); stacks.pop_back(); }
    void** top = (void**) (t->stack + STACK);
    top[-1] = nullptr; top[-2] = (void*) entry;
    for (int i = 3; i <= 8; ++i) top[-i] = nullptr;
    t->sp = top - 8;
    threads.push_back(t);
    ready.push_back(t);
    return t;
}
void spawn(const std::string& name, std::function<void()> fn) { create(name, std::move(fn), true); }

static void make_ready(_st_thread* t) {
    if (t->runnable) return;
    if (t->waitq) {
        auto& q = *t->waitq;
        q.erase(std::remove(q.begin(), q.end(), t), q.end());
        t->waitq = nullptr;
    }
    t->runnable = true; t->deadline = (usec) -1;
    ready.push_back(t);
}
// block the current thread on queue q; true if woken, false on timeout
static bool block(std::vector<_st_thread*>* q, usec timeout) {
    _st_thread* t = cur;
    t->runnable = false; t->timed_out = false; t->waitq = q;
    if (q) q->push_back(t);
    t->deadline = timeout == (usec) -1 ? (usec) -1 : clock_us + timeout;
    to_sched();
    return !t->timed_out;
}
void yield() {
    if (!cur) return;
    cur->runnable = true;
    ready.push_back(cur);
    to_sched();
}
void sleep(usec us) { if (cur) { if (us == 0) yield(); else block(nullptr, us); } else clock_us += us; }

void run(usec until) {
    if (cur) mc::broken("fst::run from a thread");
    for (unsigned long turns = 0;;) {
        if (ready.empty()) {
            _st_thread* best = nullptr;
            for (auto t : threads) if (!t->runnable && t->deadline != (usec) -1)
                if (!best || t->deadline < best->deadline) best = t;
            if (!best || best->deadline > until) break;
            clock_us = std::max(clock_us, best->deadline);
            // every thread due at this instant becomes ready
            usec d = best->deadline;
            std::vector<_st_thread*> due;
            for (auto t : threads) if (!t->runnable && t->deadline == d) due.push_back(t);
            for (auto t : due) { t->timed_out = true; make_ready(t); }
            continue;
        }
        int n = (int) ready.size();
        if (delay_bound >= 0) n = std::min(n, delays_left + 1);
        int k = n > 1 ? mc::choose(n, "schedule") : 0;
        if (delay_bound >= 0) delays_left -= k;
        _st_thread* t = ready[k];
        ready.erase(ready.begin() + k);
        if (mc::replaying) mc::note("      t=%llu run %s", clock_us, t->name.c_str());
        if (++turns > 1000000) mc::fail("the server does not come to rest: after %lu turns coroutines still run: %s", turns, stuck().c_str());
        cur = t; ++nswitch;
        size_t base = ready.size();
        mc::step();
#ifdef HAVE_ASAN
        __sanitizer_start_switch_fiber(&sched_fake, t->stack, STACK);
#endif
        mc_switch(&sched_sp, t->sp);
#ifdef HAVE_ASAN
        __sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
#endif
        cur = nullptr;
        // threads woken within one step: by age, so that the base order does not depend on addresses
        // (subscribers are kept in a set ordered by address)
        if (ready.size() > base + 1)
            std::stable_sort(ready.begin() + base, ready.end() - (ready.back() == t ? 1 : 0),
                             [](const _st_thread* a, const _st_thread* b) { return a->seq < b->seq; });
        if (t->done) {
            threads.erase(std::find(threads.begin(), threads.end(), t));
#ifdef HAVE_ASAN
            __asan_unpoison_memory_region(t->stack, STACK);
#endif
            stacks.push_back(t->stack);
            delete t;
        }
    }
}
int alive() { int n = 0; for (auto t : threads) if (!t->persistent) ++n; return n; }
int alive_env() { int n = 0; for (auto t : threads) if (!t->persistent && t->env) ++n; return n; }
std::string stuck() { std::string s; for (auto t : threads) if (!t->persistent) s += t->name + " "; return s; }
void mark_persistent() { for (auto t : threads) t->persistent = true; }

// ------------------------------------------------------------------ network
struct Conn;
struct Half {
    std::deque<std::string> rx;
    size_t off = 0;
    bool closed = false;          // this side closed by its owner
    size_t queued = 0, window = (size_t) -1;   // what the owner has not taken yet, and how much of it fits
    std::vector<_st_thread*> readers, writers;
};
struct Conn { Half h[2]; int refs = 2; int port = 0; };
struct Ep { Conn* c; int side; bool env; };

}  // namespace fst

struct _st_netfd {
    int kind = 0;                 // 1 tcp unconnected, 2 listener, 3 connected
    int fileno = -1;
    fst::Ep* ep = nullptr;
    fst::Listener* l = nullptr;
};

namespace fst {
struct Listener {
    int port;
    std::deque<Ep*> backlog;
    std::vector<_st_thread*> acceptors;
    bool env;
};
static std::map<int, Listener*> listeners;
static std::map<int, int> bound;   // fake fileno -> port
static std::set<_st_netfd*> fds;
static std::vector<Ep*> env_eps;
static std::vector<Conn*> conns;
static int next_fd = 1000;
struct Udp { int port = 0; bool connected = false, pktinfo = false; std::string peer; int peer_port = 0; std::deque<Dgram> rx; std::vector<_st_thread*> readers; };
static std::map<int, Udp*> udps;
static int next_udp_port = 50000;
std::vector<Dgram> udp_sent;
std::function<int(const Dgram&)> on_udp_send;
std::function<int(int)> on_udp_recv;
static void wake_all(std::vector<_st_thread*>& q);
bool udp_send(const Dgram& d) {
    for (auto& u : udps) if (u.second->port == d.to_port && d.to_port && (!u.second->connected || (u.second->peer == d.from && u.second->peer_port == d.from_port))) {
        u.second->rx.push_back(d); wake_all(u.second->readers); return true;
    }
    return false;
}
size_t udp_queued(int port) { size_t n = 0; for (auto& u : udps) if (u.second->port == port) n += u.second->rx.size(); return n; }
int bound_port(int fd) { auto it = bound.find(fd); return it == bound.end() ? -1 : it->second; }

static void wake_all(std::vector<_st_thread*>& q) { auto c = q; for (auto t : c) make_ready(t); }

static bool owner_closed(Ep* e) { return e->c->h[e->side].closed; }
static void ep_close(Ep* e) {
    Half& h = e->c->h[e->side];
    if (h.closed) return;
    h.closed = true;
    wake_all(e->c->h[1 - e->side].readers);
    wake_all(h.writers);
}
void window(Ep* e, size_t bytes) { Half& h = e->c->h[e->side]; h.window = bytes; wake_all(h.writers); }
bool peer_closed(Ep* e) { return e->c->h[1 - e->side].closed; }
static Ep* connect_to(int port, bool env) {
    auto it = listeners.find(port);
    if (it == listeners.end()) return nullptr;
    auto c = new Conn(); c->port = port;
    conns.push_back(c);
    auto a = new Ep{c, 0, env}; auto b = new Ep{c, 1, it->second->env};
    env_eps.push_back(a); env_eps.push_back(b);
    it->second->backlog.push_back(b);
    if (!it->second->acceptors.empty()) make_ready(it->second->acceptors.front());
    return a;
}
Ep* dial(int port) { return connect_to(port, true); }
Listener* listen(int port) {
    if (listeners.count(port)) mc::broken("port %d already listened on", port);
    return listeners[port] = new Listener{port, {}, {}, true};
}
Ep* accept(Listener* l, usec timeout) {
    while (l->backlog.empty()) if (!cur || !block(&l->acceptors, timeout)) return nullptr;
    Ep* e = l->backlog.front(); l->backlog.pop_front(); return e;
}
static void push(Ep* from, const std::string& d) {
    if (d.empty()) return;
    Half& o = from->c->h[1 - from->side];
    o.rx.push_back(d);
    o.queued += d.size();
    wake_all(o.readers);
}
void send(Ep* e, const std::string& d) { push(e, d); }
// 1 data, 0 eof, -1 timeout
static int rx(Ep* e, void* buf, size_t n, size_t& got, usec timeout) {
    Half& h = e->c->h[e->side];
    while (h.rx.empty()) {
        if (peer_closed(e)) return 0;
        if (!cur) return -1;
        if (!block(&h.readers, timeout)) return -1;
    }
    std::string& s = h.rx.front();
    got = std::min(n, s.size() - h.off);
    memcpy(buf, s.data() + h.off, got);
    h.off += got; h.queued -= got;
    wake_all(h.writers);
    if (h.off == s.size()) { h.rx.pop_front(); h.off = 0; }
    return 1;
}
bool recv(Ep* e, std::string& out, usec timeout, bool& eof) {
    char b[65536]; size_t got = 0; eof = false;
    int r = rx(e, b, sizeof b, got, timeout);
    if (r == 1) { out.append(b, got); return true; }
    eof = r == 0;
    return false;
}
std::string taken(Ep* e) {
    Half& h = e->c->h[e->side];
    std::string s;
    for (size_t i = 0; i < h.rx.size(); ++i) s += i ? h.rx[i] : h.rx[i].substr(h.off);
    h.rx.clear(); h.off = 0; h.queued = 0;
    wake_all(h.writers);
    return s;
}
void shut(Ep* e) { ep_close(e); }
int port_of(Ep* e) { return e->c->port; }
int open_fds() { int n = 0; for (auto f : fds) if (f->kind != 2) ++n; return n; }
int pending_accepts() { int n = 0; for (auto& l : listeners) n += l.second->backlog.size(); return n; }

// The coroutines are not unwound: what they hold stays allocated.
void abandon() {
    if (cur) mc::broken("fst::abandon from a thread");
    for (auto t : threads) {
#ifdef HAVE_ASAN
        __asan_unpoison_memory_region(t->stack, STACK);
#endif
        stacks.push_back(t->stack);
        if (t->waitq) { auto& q = *t->waitq; q.erase(std::remove(q.begin(), q.end(), t), q.end()); }
        delete t;
    }
    threads.clear(); ready.clear();
    for (auto& l : listeners) delete l.second;
    listeners.clear(); bound.clear();
    for (auto f : fds) f->l = nullptr;
    for (auto& u : udps) delete u.second;
    udps.clear();
}
void reset() {
    if (alive()) mc::fail("still running although everything ended: %s", stuck().c_str());
    on_write = nullptr; on_read = nullptr; on_accept = nullptr; on_thread_create = nullptr; on_connect = nullptr; on_main_wait = nullptr; on_getsockname = nullptr;
    on_udp_send = nullptr; on_udp_recv = nullptr; udp_sent.clear();
    for (auto& u : udps) u.second->rx.clear();
    for (auto it = listeners.begin(); it != listeners.end();) {
        it->second->backlog.clear();
        if (it->second->env) { delete it->second; it = listeners.erase(it); } else ++it;
    }
    for (auto f : fds) if (f->kind == 3) mc::fail("the server still holds a connection although everything ended");
    for (auto e : env_eps) delete e;
    for (auto c : conns) delete c;
    env_eps.clear(); conns.clear();
    // the virtual clock keeps running; what matters are differences
    delays_left = delay_bound;
}
}  // namespace fst

using namespace fst;
extern "C" {
int st_init(void) { return 0; }
int st_set_eventsys(int) { return 0; }
st_thread_t st_thread_self(void) { static _st_thread m; return cur ? cur : &m; }
st_thread_t st_thread_create(void* (*start)(void*), void* arg, int, int) {
    if (on_thread_create && on_thread_create()) { errno = EAGAIN; return nullptr; }
    char nm[32]; snprintf(nm, sizeof nm, "co%llu", (unsigned long long) seqno);
    return create(nm, [start, arg] { start(arg); }, false);
}
void st_thread_exit(void*) { mc::broken("st_thread_exit"); }
int st_thread_join(st_thread_t, void**) { mc::broken("st_thread_join"); }
void st_thread_interrupt(st_thread_t) { mc::broken("st_thread_interrupt"); }
st_utime_t st_utime(void) { return 1600000000000000ULL + clock_us; }
st_utime_t st_utime_last_clock(void) { return st_utime(); }
time_t st_time(void) { return st_utime() / 1000000; }
int st_usleep(st_utime_t us) { fst::sleep(us); return 0; }
int st_sleep(int s) { if (s < 0) { if (cur) block(nullptr, (usec) -1); return 0; } fst::sleep((usec) s * 1000000); return 0; }
st_cond_t st_cond_new(void) { ++nconds; return new _st_cond(); }
int st_cond_destroy(st_cond_t c) {
    if (!c->waiters.empty()) { errno = EBUSY; return -1; }
    --nconds; delete c; return 0;
}
int st_cond_timedwait(st_cond_t c, st_utime_t tm) {
    if (!cur) { if (on_main_wait) return on_main_wait(tm); errno = ETIME; return -1; }
    if (block(&c->waiters, tm)) return 0;
    errno = ETIME; return -1;
}
int st_cond_wait(st_cond_t c) { return st_cond_timedwait(c, (st_utime_t) -1); }
int st_cond_signal(st_cond_t c) { if (!c->waiters.empty()) make_ready(c->waiters.front()); return 0; }
int st_cond_broadcast(st_cond_t c) { auto w = c->waiters; for (auto t : w) make_ready(t); return 0; }
st_mutex_t st_mutex_new(void) { return new _st_mutex(); }
int st_mutex_destroy(st_mutex_t m) { delete m; return 0; }
int st_mutex_lock(st_mutex_t) { return 0; }
int st_mutex_unlock(st_mutex_t) { return 0; }

st_netfd_t st_netfd_open(int osfd) { auto f = new _st_netfd(); f->kind = 1; f->fileno = osfd; fds.insert(f); return f; }
st_netfd_t st_netfd_open_socket(int osfd) {
    auto f = st_netfd_open(osfd);
    auto it = bound.find(osfd);
    if (it != bound.end()) { f->kind = 2; }
    return f;
}
int st_netfd_close(st_netfd_t f) {
    if (!fds.count(f)) mc::fail("double close of a connection handle");
    if (f->ep) ep_close(f->ep);
    if (f->kind == 2 && f->l) { listeners.erase(f->l->port); delete f->l; }
    bound.erase(f->fileno);
    auto u = udps.find(f->fileno);
    if (u != udps.end()) { wake_all(u->second->readers); delete u->second; udps.erase(u); }
    fds.erase(f); delete f; return 0;
}
void st_netfd_free(st_netfd_t f) { fds.erase(f); delete f; }
int st_netfd_fileno(st_netfd_t f) { return f->fileno; }
int st_netfd_poll(st_netfd_t, int, st_utime_t) { mc::broken("st_netfd_poll"); }
st_netfd_t st_accept(st_netfd_t f, struct sockaddr* addr, int* len, st_utime_t tm) {
    if (!f->l) {
        auto it = bound.find(f->fileno);
        if (it == bound.end()) { errno = EINVAL; return nullptr; }
        f->kind = 2; f->l = listeners[it->second];
    }
    if (!cur) mc::broken("accept outside a thread");
    int e = 0;
    for (;;) {
        if (on_accept && !f->l->backlog.empty() && (e = on_accept())) { errno = e; return nullptr; }
        if (!f->l->backlog.empty()) break;
        if (!block(&f->l->acceptors, tm)) { errno = ETIME; return nullptr; }
    }
    Ep* ep = f->l->backlog.front(); f->l->backlog.pop_front();
    if (addr && len) {
        sockaddr_in a; memset(&a, 0, sizeof a);
        a.sin_family = AF_INET; a.sin_port = htons(40000); a.sin_addr.s_addr = htonl(0x7f000001);
        memcpy(addr, &a, std::min((size_t) *len, sizeof a)); *len = sizeof a;
    }
    auto n = st_netfd_open(next_fd++);
    n->kind = 3; n->ep = ep;
    return n;
}
int st_connect(st_netfd_t f, const struct sockaddr* a, int, st_utime_t) {
    int port = ntohs(((const sockaddr_in*) a)->sin_port);
    int e = 0;
    if (udps.count(f->fileno)) {
        Udp* u = udps[f->fileno]; char b[INET_ADDRSTRLEN];
        u->connected = true; u->peer = inet_ntop(AF_INET, &((const sockaddr_in*) a)->sin_addr, b, sizeof b); u->peer_port = port;
        if (!u->port) u->port = next_udp_port++;
        return 0;
    }
    fst::yield();
    if (on_connect && (e = on_connect(port))) { errno = e; return -1; }
    Ep* ep = connect_to(port, false);
    if (!ep) { errno = ECONNREFUSED; return -1; }
    f->kind = 3; f->ep = ep;
    return 0;
}
ssize_t st_read(st_netfd_t f, void* buf, size_t n, st_utime_t tm) {
    if (!f || !fds.count(f) || !f->ep) { errno = EBADF; return -1; }
    int e = 0;
    if (on_read && (e = on_read(f->ep, n))) { errno = e; return -1; }
    size_t got = 0;
    int r = rx(f->ep, buf, n, got, tm);
    if (r == 1) return got;
    if (r == 0) return 0;
    errno = ETIME; return -1;
}
ssize_t st_read_fully(st_netfd_t f, void* buf, size_t n, st_utime_t tm) {
    size_t have = 0;
    while (have < n) {
        ssize_t r = st_read(f, (char*) buf + have, n - have, tm);
        if (r < 0) return -1;
        if (r == 0) break;
        have += r;
    }
    return have;
}
ssize_t st_write(st_netfd_t f, const void* buf, size_t n, st_utime_t tm) {
    if (!f || !fds.count(f) || !f->ep) { errno = EBADF; return -1; }
    int e = 0;
    if (on_write && (e = on_write(f->ep, n))) { errno = e; return -1; }
    if (peer_closed(f->ep)) { errno = EPIPE; return -1; }
    // as libst does: what fits goes out at once, the rest waits for room, each wait up to the timeout
    size_t put = 0;
    while (put < n) {
        Half& o = f->ep->c->h[1 - f->ep->side];
        size_t room = o.window > o.queued ? o.window - o.queued : 0;
        if (!room) {
            if (!cur) mc::broken("write blocks outside a thread");
            if (!block(&o.writers, tm)) { errno = ETIME; return -1; }
            if (!fds.count(f)) { errno = EBADF; return -1; }
            if (peer_closed(f->ep)) { errno = EPIPE; return -1; }
            continue;
        }
        size_t k = std::min(room, n - put);
        push(f->ep, std::string((const char*) buf + put, k));
        put += k;
    }
    return n;
}
ssize_t st_writev(st_netfd_t f, const struct iovec* iov, int k, st_utime_t tm) {
    std::string s; for (int i = 0; i < k; ++i) s.append((char*) iov[i].iov_base, iov[i].iov_len);
    return st_write(f, s.data(), s.size(), tm);
}
static Udp* udp_of(st_netfd_t f) { if (!f || !fds.count(f)) return nullptr; auto it = udps.find(f->fileno); return it == udps.end() ? nullptr : it->second; }
static std::string ip_text(const struct sockaddr_in* a) { char b[INET_ADDRSTRLEN]; return inet_ntop(AF_INET, &a->sin_addr, b, sizeof b); }
static int udp_rx(st_netfd_t f, Dgram& d, st_utime_t tm) {
    Udp* u = udp_of(f);
    if (!u) { errno = EBADF; return -1; }
    int e = 0;
    if (on_udp_recv && (e = on_udp_recv(u->port))) { errno = e; return -1; }
    while (u->rx.empty()) {
        if (!cur || !block(&u->readers, tm)) { errno = ETIME; return -1; }
        u = udp_of(f);
        if (!u) { errno = EBADF; return -1; }
    }
    d = u->rx.front(); u->rx.pop_front();
    return 0;
}
static void put_addr(const std::string& ip, int port, void* out, size_t room) {
    sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_port = htons(port);
    if (inet_pton(AF_INET, ip.c_str(), &a.sin_addr) != 1) mc::broken("datagram from %s", ip.c_str());
    memcpy(out, &a, std::min(room, sizeof a));
}
int st_recvfrom(st_netfd_t f, void* buf, int n, struct sockaddr* from, int* len, st_utime_t tm) {
    Dgram d;
    if (udp_rx(f, d, tm)) return -1;
    int k = std::min((size_t) n, d.data.size());     // the rest of a datagram is lost
    memcpy(buf, d.data.data(), k);
    if (from && len) { put_addr(d.from, d.from_port, from, *len); *len = sizeof(sockaddr_in); }
    return k;
}
int st_recvmsg(st_netfd_t f, struct msghdr* m, int, st_utime_t tm) {
    Dgram d;
    Udp* u = udp_of(f); bool info = u && u->pktinfo;
    if (udp_rx(f, d, tm)) return -1;
    size_t at = 0;
    for (size_t i = 0; i < m->msg_iovlen; ++i) {
        size_t k = std::min(m->msg_iov[i].iov_len, d.data.size() - at);
        memcpy(m->msg_iov[i].iov_base, d.data.data() + at, k); at += k;
    }
    m->msg_flags = at < d.data.size() ? MSG_TRUNC : 0;
    if (m->msg_name) { put_addr(d.from, d.from_port, m->msg_name, m->msg_namelen); m->msg_namelen = sizeof(sockaddr_in); }
    size_t need = CMSG_SPACE(sizeof(in_pktinfo));
    if (info && m->msg_control && m->msg_controllen >= need) {
        m->msg_controllen = need;
        cmsghdr* c = CMSG_FIRSTHDR(m);
        c->cmsg_level = IPPROTO_IP; c->cmsg_type = IP_PKTINFO; c->cmsg_len = CMSG_LEN(sizeof(in_pktinfo));
        in_pktinfo pi; memset(&pi, 0, sizeof pi); pi.ipi_ifindex = 1;
        if (inet_pton(AF_INET, d.to.c_str(), &pi.ipi_addr) != 1) mc::broken("datagram to %s", d.to.c_str());
        pi.ipi_spec_dst = pi.ipi_addr;
        memcpy(CMSG_DATA(c), &pi, sizeof pi);
    } else m->msg_controllen = 0;
    return (int) at;
}
int st_sendto(st_netfd_t f, const void* buf, int n, const struct sockaddr* to, int, st_utime_t) {
    Udp* u = udp_of(f);
    if (!u) { errno = EBADF; return -1; }
    if (!u->port) u->port = next_udp_port++;
    Dgram d; d.from = "127.0.0.1"; d.from_port = u->port; d.data.assign((const char*) buf, n);
    if (to) { d.to = ip_text((const sockaddr_in*) to); d.to_port = ntohs(((const sockaddr_in*) to)->sin_port); }
    else if (u->connected) { d.to = u->peer; d.to_port = u->peer_port; }
    else { errno = EDESTADDRREQ; return -1; }
    if (n > 65507) { errno = EMSGSIZE; return -1; }
    int e = 0;
    if (on_udp_send && (e = on_udp_send(d))) { errno = e; return -1; }
    udp_sent.push_back(d);
    return n;
}
int st_sendmsg(st_netfd_t, const struct msghdr*, int, st_utime_t) { mc::broken("st_sendmsg"); }

// ---- libc calls of the code under test (linked with -Wl,--wrap)
[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_exit(int c) { if (on_program_exit) on_program_exit(c); __real_exit(c); }
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void*) {
    usec t = 1600000000000000ULL + clock_us;
    tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000;
    return 0;
}
int __wrap_socket(int, int type, int) { if ((type & 15) == SOCK_DGRAM) udps[next_fd] = new Udp(); return next_fd++; }
int __wrap_setsockopt(int fd, int level, int opt, const void* v, socklen_t) { if (level == IPPROTO_IP && opt == IP_PKTINFO && udps.count(fd)) udps[fd]->pktinfo = *(const int*) v; return 0; }
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t) {
    int port = ntohs(((const sockaddr_in*) a)->sin_port);
    if (udps.count(fd)) {
        for (auto& u : udps) if (u.second->port == port && port) { errno = EADDRINUSE; return -1; }
        udps[fd]->port = port; bound[fd] = port; return 0;
    }
    if (listeners.count(port)) { errno = EADDRINUSE; return -1; }
    bound[fd] = port; return 0;
}
int __wrap_listen(int fd, int) {
    auto it = bound.find(fd);
    if (it == bound.end()) { errno = EINVAL; return -1; }
    listeners[it->second] = new Listener{it->second, {}, {}, false};
    for (auto f : fds) if (f->fileno == fd) { f->kind = 2; f->l = listeners[it->second]; }
    return 0;
}
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* len) {
    int e = 0;
    if (on_getsockname && (e = on_getsockname())) { errno = e; return -1; }
    if (udps.count(fd)) {
        sockaddr_in s; memset(&s, 0, sizeof s);
        s.sin_family = AF_INET; s.sin_port = htons(udps[fd]->port);
        memcpy(a, &s, std::min((size_t) *len, sizeof s)); *len = sizeof s;
        return 0;
    }
    for (auto f : fds) if (f->fileno == fd && f->ep) {
        sockaddr_in s; memset(&s, 0, sizeof s);
        s.sin_family = AF_INET; s.sin_port = htons(f->ep->c->port); s.sin_addr.s_addr = htonl(0x7f000001);
        memcpy(a, &s, std::min((size_t) *len, sizeof s)); *len = sizeof s;
        return 0;
    }
    errno = EBADF; return -1;
}
}
