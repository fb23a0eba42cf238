// mcrt: a controlled world for the code under test.
//  * threads are fibers under an exhaustively explored scheduler (preemptions are
//    deviations charged to mc::set_deviations), with virtual time;
//  * sockets, epoll, pipes and eventfds are a virtual kernel whose peers are the
//    harness and whose faults are explored choices.
// Everything is done by symbol interposition, so the code under test is the
// unmodified source.
#ifndef VERIF_MCRT_H
#define VERIF_MCRT_H
#include <stdint.h>
#include <string>
#include <vector>
#include <deque>
#include <functional>
#include "mc.h"
namespace rt {
void begin();                       // start a simulated world (resets everything)
void end();                         // leave it: unwinds fibers still blocked
bool active();
void quiet(bool q);                 // suspend scheduling points (harness bookkeeping)
struct Quiet { bool old; Quiet(); ~Quiet(); };

int spawn(const std::function<void()> &f, const char *name = "t");
void join(int tid);                 // harness-side join
bool finished(int tid);
int self();
int nfibers();
void yield();                       // explicit scheduling point
void wait_until(const std::function<bool()> &pred);
// Called when no fiber can run: the environment takes a step. Return true if it
// did something. When it returns false, virtual time advances to the earliest
// timeout; with none left the world is quiescent: wait_quiescent() returns, or,
// if nobody waits for that, it is a deadlock.
void set_idle(const std::function<bool()> &f);
void wait_quiescent();              // block the caller until nothing else can happen
void set_deadlock(const std::function<void()> &f);  // default: mc::fail("deadlock")
void allow_time(bool b);            // may timeouts fire when everything is blocked (default true)
void spurious(bool b);              // explore spurious condition wakeups as deviations
void ordered(bool b);               // no preemption, threads run in a fixed order (only the environment varies)
void delay_bounded(bool b);        // every departure from round-robin order is a deviation, also when a fiber blocks
void timeouts_race(bool b);         // explore timeouts firing although others could run
extern int file_faults;              // so many writes to real files fail with ENOSPC
extern uint64_t now_us;             // virtual clock
extern uint64_t steps;              // scheduling points passed
extern int max_steps;               // livelock guard (default 200000)
std::string blocked_report();
int live_fibers();                  // created and not finished (without main)
std::vector<int> blocked_in_mutex();
extern int threads_created, threads_finished, threads_unjoined;

// memory-access instrumentation (mode "mem")
void watch(const void *p, size_t n); // accesses in the range are scheduling points
void watch_heap(bool on);            // every heap/global access shared by 2 fibers is one
void race_detect(bool on);           // happens-before race detection, fails with "race"
void race_ignore(const void *p, size_t n);
extern std::function<void(const void *, size_t)> before_write; // called before each instrumented write in a watched range
void mem_access(const void *p, size_t n, bool w, bool atomic, void *pc);
void hb_acquire(const void *obj); void hb_release(const void *obj);
}

namespace vk {
struct Conn {
    int id; int fd;                 // fd: -1 once the application closed it
    std::string in; bool eof, rst;  // towards the application
    std::string sent;               // what the application sent
    long wnd;                       // bytes it may still send before blocking
    bool connected, connecting; int conn_err;
    bool accepted, outgoing, app_shutdown;
    uint32_t ip; uint16_t port;     // peer address, host order
    int closes; bool peer_gone;     // peer closed: sends fail after the RST
    uint64_t ready_seq;
};
struct Dgram { uint32_t ip; uint16_t port; std::string data; };
void reset();
Conn *incoming(uint16_t port, uint32_t ip, uint16_t peer_port);  // NULL without a listener
void deliver(Conn *, const std::string &);
void fin(Conn *);
void rst(Conn *);
void set_wnd(Conn *, long);
void complete(Conn *, int err);     // finish an EINPROGRESS connect
// result of an outgoing connect(): 0 now, EINPROGRESS, or an errno
extern std::function<int(Conn *)> on_connect;
// fault hook: called for call = "recv","send","accept","epoll_ctl","socket","pipe","eventfd","bind","listen","sendto","recvfrom","epoll_wait","read","write","close".
// Return 0 for normal behaviour, a negative errno, or (send/recv) a positive limit of bytes.
extern std::function<long(const char *call, int fd, size_t n)> fault;
bool udp_deliver(uint16_t port, uint32_t ip, uint16_t peer_port, const std::string &d);
extern std::vector<Dgram> udp_sent;
extern std::function<void(const char *what, int fd)> on_misuse;  // close of a closed fd, use after close
uint32_t udp_addr(uint16_t port);   // address a UDP socket is bound to
extern std::vector<uint32_t> ifaces; // addresses of the network interfaces (0: none)
std::vector<int> open_fds();
std::vector<Conn *> &conns();
Conn *by_fd(int fd);
bool listening(uint16_t port);
int open_count(const char *kind);   // "tcp","listen","udp","pipe","event","epoll"
extern int max_fds;                 // EMFILE beyond
extern int pipe_capacity;
extern uint64_t sigpipes;           // sends that would have raised SIGPIPE
long raw_pending(Conn *c);
uint32_t fd_ready(int fd);           // epoll bits that hold now (0 for a closed descriptor)
bool is_open(int fd);
bool is_nonblock(int fd);
}
#endif
