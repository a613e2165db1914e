// Controlled replacement of libsrt (live mode, message API, non-blocking sockets,
// srt_epoll) for the code under test: connections are in memory, time is virtual.
#ifndef VERIF_FAKESRT_HPP
#define VERIF_FAKESRT_HPP
#include "fakest.hpp"

namespace fsrt {
struct Ep;                                                       // the environment's end of an SRT connection
Ep*  dial(int port, const std::string& streamid, int window = 8192);   // null: nobody listens; window: messages the server may have unread
void send(Ep* e, const std::string& msg);                        // one message (at most 1316 bytes)
std::vector<std::string> taken(Ep* e);                           // messages the server wrote; frees its window
void shut(Ep* e);                                                // we close; what we sent before stays readable
bool peer_closed(Ep* e);
int  accept_errors(int port, int n);                             // the next n accepted connections fail (they died in the backlog)
bool listening(int port);
std::vector<Ep*> connecting();                                   // outgoing connections waiting for an answer
int  port_of(Ep* e);
void answer(Ep* e, bool ok);
int  open_socks();                                               // sockets the server holds, without listeners
int  watched();                                                  // sockets registered with the epoll, without listeners
void reset();
extern std::function<int()> on_recv;                             // nonzero: this srt_recv fails with that error code
extern std::function<int()> on_send;
extern uint64_t calls;
}
#endif
