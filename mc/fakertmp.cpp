// The socket hooks of the librtmp sps uses, for the installed one: its sockets
// are numbers that recv and send below take for the hooks of their connection.
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <map>
#include <librtmp/rtmp.h>
static std::map<int, RTMP*>& conns() { static auto m = new std::map<int, RTMP*>(); return *m; }
static const int BASE = 1 << 20;
void RTMP_Init(RTMP* r) { RTMP_Init((RTMP_sys*) r); r->hook = nullptr; r->m_pktReadonly = 0; r->sb = nullptr; }
void RTMP_Init_Hook(RTMP* r, RTMP_HOOK* h) {
    r->hook = h; r->sb = (RTMPSockBuf*) calloc(1, sizeof(RTMPSockBuf)); r->sb->rtmp = r;
    int fd = BASE; while (conns().count(fd)) ++fd;
    conns()[fd] = r; r->m_sb.sb_socket = fd;
}
void RTMP_Close(RTMP* r) {
    RTMP_Close((RTMP_sys*) r);
    for (auto i = conns().begin(); i != conns().end();) if (i->second == r) i = conns().erase(i); else ++i;
    free(r->sb); r->sb = nullptr;
}
int RTMP_Connect(RTMP* r, RTMPPacket* cp) { return r->hook->RTMP_Connect(r, cp) ? RTMP_Connect1(r, cp) : 0; }
int RTMP_SendPacket(RTMP* r, RTMPPacket* p, int queue) {
    if (!r->m_pktReadonly || !p->m_body || !p->m_nBodySize) return RTMP_SendPacket((RTMP_sys*) r, p, queue);
    RTMPPacket c = *p; char* b = (char*) malloc(RTMP_MAX_HEADER_SIZE + p->m_nBodySize);
    c.m_body = b + RTMP_MAX_HEADER_SIZE; memcpy(c.m_body, p->m_body, p->m_nBodySize);
    int ret = RTMP_SendPacket((RTMP_sys*) r, &c, queue);
    free(b); return ret;
}
static RTMP* of(int fd) { if (fd < BASE) return nullptr; auto i = conns().find(fd); return i == conns().end() ? nullptr : i->second; }
extern "C" ssize_t recv(int fd, void* b, size_t n, int flags) {
    if (RTMP* r = of(fd)) { int k = r->hook->RTMPSockBuf_Fill(r->sb, (char*) b, (int) n); if (k < 0) errno = ECONNRESET; return k; }
    static auto f = (ssize_t (*)(int, void*, size_t, int)) dlsym(RTLD_NEXT, "recv"); return f(fd, b, n, flags);
}
extern "C" ssize_t send(int fd, const void* b, size_t n, int flags) {
    if (RTMP* r = of(fd)) { int k = r->hook->RTMPSockBuf_Send(r->sb, (const char*) b, (int) n); if (k < 0) errno = ECONNRESET; return k; }
    static auto f = (ssize_t (*)(int, const void*, size_t, int)) dlsym(RTLD_NEXT, "send"); return f(fd, b, n, flags);
}
