// The librtmp interface sps is written against (byrcoder/rtmpdump, a submodule
// that is not there) on top of the installed librtmp: the same library with a
// hook for the socket of each connection and packets that are not written to.
#ifndef VERIF_RTMP_H
#define VERIF_RTMP_H
#ifndef CRYPTO
#define CRYPTO            // how the installed library was built
#endif
#define RTMP RTMP_sys
#define sb_ssl rtmp       // unused without TLS
#include_next <librtmp/rtmp.h>
#undef sb_ssl
#undef RTMP
#ifdef __cplusplus
#include <string.h>
struct RTMP;
struct RTMP_HOOK {
    void* rtmp_obj;
    int (*RTMP_Connect)(RTMP*, RTMPPacket*);
    int (*RTMP_TLS_Accept)(RTMP*, void*);
    int (*RTMPSockBuf_Send)(RTMPSockBuf*, const char*, int);
    int (*RTMPSockBuf_Fill)(RTMPSockBuf*, char*, int);
    int (*RTMPSockBuf_Close)(RTMPSockBuf*);
    int (*RTMP_IsConnected)(RTMP*);
    int (*RTMP_Socket)(RTMP*);
};
struct RTMP : RTMP_sys { RTMP_HOOK* hook; int m_pktReadonly; RTMPSockBuf* sb; };
void RTMP_Init(RTMP* r);
void RTMP_Init_Hook(RTMP* r, RTMP_HOOK* hook);
void RTMP_Close(RTMP* r);
int RTMP_Connect(RTMP* r, RTMPPacket* cp);
int RTMP_SendPacket(RTMP* r, RTMPPacket* p, int queue);
#endif
#endif
