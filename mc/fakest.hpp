// Controlled replacement of the State Threads runtime: the same C interface the
// server is written against (st_thread_create, st_cond_timedwait, st_read, ...),
// with a deterministic scheduler whose every decision is an mc::choose(), a
// virtual clock and an in-memory network with fault injection.
#ifndef VERIF_FAKEST_HPP
#define VERIF_FAKEST_HPP
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace fst {

typedef unsigned long long usec;

// ---- scheduler
void reset();                                   // start of an execution
void spawn(const std::string& name, std::function<void()> fn);
void run(usec until = (usec) -1);               // schedule until quiescent (or virtual time)
void yield();                                   // schedule point (lets any runnable thread go first)
void sleep(usec us);
usec now();
int  alive();                                   // live non-persistent threads
int  alive_env();
void mark_persistent();                         // threads alive now outlive executions (accept loops)
void abandon();                                 // drop persistent threads and the server's listeners (a new server starts)
void set_delay_bound(int n);                    // -1: every schedule; n: at most n deviations from FIFO
std::string stuck();                            // names of live non-persistent threads
uint64_t switches();

// ---- network
struct Ep;      // one end of a connection, owned by the environment
struct Listener;
Ep*  dial(int port);                            // connect to a listening port; null if refused
Listener* listen(int port);                     // the environment plays a server
Ep*  accept(Listener* l, usec timeout);         // null on timeout
void send(Ep* e, const std::string& data);      // one segment
// blocks until data/eof/timeout. returns false on eof or timeout (eof set accordingly)
bool recv(Ep* e, std::string& out, usec timeout, bool& eof);
void window(Ep* e, size_t bytes);               // a peer that has this much room: writes to it wait once it is full
void shut(Ep* e);                               // close our end
bool peer_closed(Ep* e);
std::string taken(Ep* e);                       // everything the server wrote so far and not yet received
int  open_fds();                                // netfds the server holds (without listeners)
int  pending_accepts();
// fault injection: called for every server-side operation; return 0 or an errno
extern std::function<int(Ep* peer, size_t n)> on_write;
extern std::function<int(Ep* peer, size_t n)> on_read;
extern std::function<void(int)> on_program_exit;         // the code under test calls exit(); must not return
extern std::function<int()> on_getsockname;
extern std::function<int()> on_accept;          // errno: accept fails
extern std::function<int(int port)> on_connect; // errno: connect fails
extern std::function<int()> on_thread_create;   // nonzero: creation fails
// called when the main context (not a thread) waits on a condition
extern std::function<int(usec timeout)> on_main_wait;
int  port_of(Ep* e);
size_t conditions_alive();
// ---- datagrams
struct Dgram { std::string from; int from_port; std::string to; int to_port; std::string data; };
bool udp_send(const Dgram& d);                  // to the socket bound to d.to_port; false: nobody has it
extern std::vector<Dgram> udp_sent;             // what the code under test sent
extern std::function<int(const Dgram&)> on_udp_send;     // errno: sending fails
extern std::function<int(int port)> on_udp_recv;         // errno: receiving fails
size_t udp_queued(int port);
int bound_port(int fd);                          // port a socket was bound to, or -1
}
#endif
