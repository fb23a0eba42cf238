// Process set-up (daemon, resource limits) and the socket helpers, against a
// model kernel: the calls they make are redirected by the linker (--wrap).
#include <errno.h>
#include <stdarg.h>
#include <set>
#include <map>
#include <vector>
#include "mc.h"
#include "Utils.h"
using namespace std;
namespace {
struct Call { string name; int fd; long a, b; };
struct Kern {
    bool on; rlimit lim[RLIM_NLIMITS]; bool root; int getfail, setfail, sets, gets; map<int, bool> ign; set<int> restored;
    int depth; bool leader, session, daemon, exited; int exitcode; vector<int> forks; int forkfail;
    vector<Call> calls; int fail; int err; string sent; sockaddr_in addr; int flags; map<pair<int, int>, int> opts; int type, dom, open, fl;
    int clog;
} K;
void reset() { K.on = true; K.root = false; K.getfail = K.setfail = K.sets = K.gets = 0; K.ign.clear(); K.restored.clear(); K.depth = 0; K.leader = K.session = K.daemon = K.exited = false; K.exitcode = -1; K.forks.clear(); K.forkfail = 0; K.calls.clear(); K.fail = 0; K.err = 0; K.sent.clear(); memset(&K.addr, 0, sizeof K.addr); K.flags = 0; K.opts.clear(); K.type = K.dom = 0; K.open = 0; K.fl = 0; K.clog = 0; }
struct Ended {};
bool sim() { return K.on && mc::in_body(); }
int ans(int ok) { if (K.fail) { errno = K.err; return -1; } return ok; }
}
#define REAL(r, n, ...) extern "C" r __real_##n(__VA_ARGS__)
REAL(pid_t, fork, void); REAL(void, exit, int); REAL(void, _exit, int); REAL(pid_t, setsid, void); REAL(sighandler_t, signal, int, sighandler_t); REAL(int, sigaction, int, const struct sigaction *, struct sigaction *);
REAL(int, getrlimit, int, rlimit *); REAL(int, setrlimit, int, const rlimit *);
extern "C" {
// fork: every outcome; the pid tells which process the execution goes on in
pid_t __wrap_fork() { if (!sim()) return __real_fork(); int k = mc::choose(3); K.forks.push_back(k); if (k == 2) { K.forkfail++; errno = EAGAIN; mc::op("fork fails"); return -1; } mc::op("fork: going on as the %s", k ? "parent" : "child"); mc::step(); if (k) return 4711; K.depth++; K.leader = false; return 0; }
void __wrap_exit(int c) { if (!sim()) __real_exit(c); mc::op("exit(%d)", c); K.exited = true; K.exitcode = c; throw Ended(); }
void __wrap__exit(int c) { if (!sim()) __real__exit(c); mc::op("_exit(%d)", c); K.exited = true; K.exitcode = c; throw Ended(); }
pid_t __wrap_setsid() { if (!sim()) return __real_setsid(); mc::op("setsid"); mc::step(); if (K.depth == 0) { errno = EPERM; return -1; } K.session = K.leader = true; return 4712; }
static void disp(int s, bool ig) { if (s < 1 || s > 64 || s == SIGKILL || s == SIGSTOP) return; K.ign[s] = ig; }
sighandler_t __wrap_signal(int s, sighandler_t h) { if (!sim()) return __real_signal(s, h); disp(s, h == SIG_IGN); mc::step(); return SIG_DFL; }
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (!sim()) return __real_sigaction(s, a, o); if (o) memset(o, 0, sizeof *o); if (a) disp(s, a->sa_handler == SIG_IGN); mc::step(); return 0; }
int __wrap_getrlimit(int r, rlimit *l) { if (!sim()) return __real_getrlimit(r, l); mc::step(); K.gets++; if (K.getfail) { errno = EFAULT; return -1; } *l = K.lim[r]; return 0; }
int __wrap_setrlimit(int r, const rlimit *l) { if (!sim()) return __real_setrlimit(r, l); mc::step(); K.sets++; mc::op("setrlimit(%d, soft %ld, hard %ld)", r, (long)l->rlim_cur, (long)l->rlim_max); if (K.setfail) { errno = EPERM; return -1; } if (l->rlim_cur > l->rlim_max) { errno = EINVAL; return -1; } if (l->rlim_max > K.lim[r].rlim_max && !K.root) { errno = EPERM; return -1; } K.lim[r] = *l; return 0; }
int __real_getrlimit64(int, rlimit *); int __real_setrlimit64(int, const rlimit *); int __real_prlimit(pid_t, int, const rlimit *, rlimit *);
int __wrap_getrlimit64(int r, rlimit *l) { return sim() ? __wrap_getrlimit(r, l) : __real_getrlimit64(r, l); }
int __wrap_setrlimit64(int r, const rlimit *l) { return sim() ? __wrap_setrlimit(r, l) : __real_setrlimit64(r, l); }
int __wrap_prlimit(pid_t p, int r, const rlimit *n, rlimit *o) { if (!sim()) return __real_prlimit(p, r, n, o); if (o && __wrap_getrlimit(r, o)) return -1; return n ? __wrap_setrlimit(r, n) : 0; }
// sockets
static void note(const char *n, int fd, long a = 0, long b = 0) { Call c = { n, fd, a, b }; K.calls.push_back(c); mc::op("%s(%d, %ld, %ld)", n, fd, a, b); mc::step(); }
int __wrap_socket(int d, int t, int p) { note("socket", d, t, p); K.dom = d; K.type = t; if (t & SOCK_NONBLOCK) K.fl |= O_NONBLOCK; return ans(77); }
int __wrap_bind(int fd, const sockaddr *a, socklen_t n) { note("bind", fd, n); memcpy(&K.addr, a, sizeof K.addr); return ans(0); }
int __wrap_connect(int fd, const sockaddr *a, socklen_t n) { note("connect", fd, n); memcpy(&K.addr, a, sizeof K.addr); return ans(0); }
int __wrap_listen(int fd, int n) { note("listen", fd, n); return ans(0); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { note("send", fd, n, f); K.flags = f; K.sent.assign((const char *)b, n); return ans((int)(n > 3 ? 3 : n)); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const sockaddr *a, socklen_t l) { note("sendto", fd, n, f); K.flags = f; if (a) memcpy(&K.addr, a, sizeof K.addr); K.sent.assign((const char *)b, n); return ans((int)n); }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { note("setsockopt", fd, l, o); int x = 0; if (n != sizeof(int)) { errno = EINVAL; return -1; } memcpy(&x, v, sizeof x); if (K.fail) { errno = K.err; return -1; } K.opts[make_pair(l, o)] = x; return 0; }
int __real_close(int); int __wrap_close(int fd) { if (!sim()) return __real_close(fd); note("close", fd); K.open--; return ans(0); }
int __real_fcntl(int, int, ...); int __wrap_fcntl(int fd, int c, ...) { va_list a; va_start(a, c); long v = va_arg(a, long); va_end(a); if (!sim()) return __real_fcntl(fd, c, v); note("fcntl", fd, c, v); if (K.fail) { errno = K.err; return -1; } if (c == F_SETFL) K.fl = (int)v & (O_NONBLOCK | O_APPEND | O_ASYNC | O_DIRECT | O_NOATIME); return c == F_GETFL ? K.fl | O_RDWR : 0; }
int __real_fcntl64(int, int, ...); int __wrap_fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); long v = va_arg(a, long); va_end(a); return sim() ? __wrap_fcntl(fd, c, v) : __real_fcntl64(fd, c, v); }
}
static const rlim_t LV[] = { 0, 1, 1024, 1025, 4096, 1048576, RLIM_INFINITY - 1, RLIM_INFINITY };
// every soft and hard limit, wish, privilege and failure; then a second call
static void s_limits() {
    reset(); mc::nontrivial(); int what = mc::choose(2), r = what ? RLIMIT_CORE : RLIMIT_NOFILE, other = what ? RLIMIT_NOFILE : RLIMIT_CORE; int s = mc::choose(8), h = mc::choose(8); if (s > h) mc::prune(); K.root = mc::choose(2);
    for (int i = 0; i < RLIM_NLIMITS; i++) K.lim[i].rlim_cur = K.lim[i].rlim_max = 777; K.lim[r].rlim_cur = LV[s]; K.lim[r].rlim_max = LV[h];
    for (int step = 0; step < 2; step++) {
        size_t want = LV[mc::choose(8)]; int f = mc::choose(3); K.getfail = f == 1; K.setfail = f == 2; rlimit was = K.lim[r];
        bool ok = what ? lce::SetCoreLimit(want) : lce::SetFileLimit(want); mc::op("%s(%ld) with %ld/%ld, %s: %d, now %ld/%ld", what ? "SetCoreLimit" : "SetFileLimit", (long)want, (long)was.rlim_cur, (long)was.rlim_max, K.root ? "privileged" : "unprivileged", ok, (long)K.lim[r].rlim_cur, (long)K.lim[r].rlim_max);
        bool enough = was.rlim_cur >= want, may = want <= was.rlim_max || K.root; bool can = !f && (enough || may); if (f == 2 && enough) can = true;
        MC_CHECK(ok == can, "setup:limit result", "raising %ld/%ld to %ld answers %d", (long)was.rlim_cur, (long)was.rlim_max, (long)want, ok);
        rlim_t cur = ok && !enough ? want : was.rlim_cur, mx = ok && want > was.rlim_max ? want : was.rlim_max;
        MC_CHECK(K.lim[r].rlim_cur == cur, "setup:soft limit", "the soft limit is %ld instead of %ld", (long)K.lim[r].rlim_cur, (long)cur);
        MC_CHECK(K.lim[r].rlim_max == mx, "setup:hard limit", "the hard limit is %ld instead of %ld", (long)K.lim[r].rlim_max, (long)mx);
        for (int i = 0; i < RLIM_NLIMITS; i++) if (i != r) MC_CHECK(K.lim[i].rlim_cur == 777 && K.lim[i].rlim_max == 777, "setup:other limit", "limit %d changes", i);
        mc::state(mc::hmix(mc::hmix(K.lim[r].rlim_cur, K.lim[r].rlim_max), what * 4 + ok * 2 + K.root)); (void)other;
    }
    K.on = false;
}
// every process that a call of InitDaemon makes, as one execution each
static void s_daemon() {
    reset(); mc::nontrivial(); bool back = false; try { lce::InitDaemon(); back = true; } catch (Ended &) {} K.on = false;
    string path; for (size_t i = 0; i < K.forks.size(); i++) path += K.forks[i] == 0 ? "child " : K.forks[i] == 1 ? "parent " : "failure "; mc::op("%s: %s", path.c_str(), back ? "goes on" : "ends"); mc::state(mc::hash(path));
    bool child = K.forkfail == 0 && !K.forks.empty(); for (size_t i = 0; i < K.forks.size(); i++) if (K.forks[i] != 0) child = false;
    if (!child) { MC_CHECK(!back, "setup:daemon twice", "a process that is not the daemon goes on (%s)", path.c_str()); if (!K.forkfail) MC_CHECK(K.exitcode == 0, "setup:daemon exit", "a parent ends with %d", K.exitcode); return; }
    MC_CHECK(back, "setup:daemon ends", "the daemon ends with %d", K.exitcode); MC_CHECK(K.session, "setup:daemon session", "the daemon stays in the session of its parent"); MC_CHECK(!K.leader, "setup:daemon leader", "the daemon leads its session and can get a terminal again");
    static const int SG[] = { SIGINT, SIGHUP, SIGQUIT, SIGPIPE, SIGTTOU, SIGTTIN, SIGCHLD, SIGTERM, SIGIO }; for (size_t i = 0; i < sizeof SG / sizeof *SG; i++) MC_CHECK(K.ign.count(SG[i]) && K.ign[SG[i]], "setup:daemon signals", "signal %d is not ignored", SG[i]);
    for (map<int, bool>::iterator i = K.ign.begin(); i != K.ign.end(); ++i) { bool in = false; for (size_t j = 0; j < sizeof SG / sizeof *SG; j++) in = in || SG[j] == i->first; MC_CHECK(in, "setup:daemon signals", "signal %d is touched", i->first); }
}
// every socket helper, every result
static void s_sockets() {
    reset(); mc::nontrivial(); int what = mc::choose(11); K.fail = mc::choose(2); static const int E[] = { EINVAL, EAGAIN, EINTR, EPIPE }; K.err = E[K.fail ? mc::choose(4) : 0];
    static const uint16_t PT[] = { 0, 1, 80, 255, 256, 8080, 32767, 32768, 65535 }; static const char *IP[] = { "127.0.0.1", "0.0.0.0", "10.1.2.3", "192.168.255.254", "1.0.0.128" }; static const uint32_t IV[] = { 0x7f000001u, 0, 0x0a010203u, 0xc0a8fffeu, 0x01000080u };
    bool addr = what <= 2; uint16_t port = addr ? PT[mc::choose(9)] : 0; int ip = addr ? mc::choose(5) : 0; int fd = 5 + mc::choose(2) * 1500; string data = what == 2 || what == 3 ? string("hello", mc::choose(6)) : string(); int r = -99, ok = 0;
    K.fl = 0; uint32_t bs = 0; int opt = SO_SNDBUF; errno = 0;
    switch (what) {
    case 0: r = lce::Bind(fd, IP[ip], port); break;
    case 1: r = lce::Connect(fd, IP[ip], port); break;
    case 2: r = lce::SendTo(fd, data.data(), data.size(), IP[ip], port); ok = data.size(); break;
    case 3: r = lce::Send(fd, data.data(), data.size()); ok = data.size() > 3 ? 3 : data.size(); break;
    case 4: r = lce::Listen(fd); break;
    case 5: r = lce::SetNoneBlock(fd); break;
    case 6: r = lce::SetNoDelay(fd); break;
    case 7: opt = mc::choose(2) ? SO_RCVBUF : SO_SNDBUF; bs = mc::choose(2) ? 262144 : 0x7fffffff; r = lce::SetSocketBufSize(fd, opt, bs); break;
    case 8: r = lce::SetReUseAddr(fd); break;
    case 9: { bool u = mc::choose(2); r = u ? lce::CreateUdpSock() : lce::CreateTcpSock(); ok = 77; fd = AF_INET; MC_CHECK(K.dom == AF_INET && (K.type & 0xf) == (u ? SOCK_DGRAM : SOCK_STREAM), "setup:socket kind", "the socket has type %d", K.type); break; }
    case 10: r = lce::Close(fd); break;
    }
    int e = errno; K.on = false; mc::op("helper %d on %d answers %d", what, fd, r); mc::state(mc::hmix(what * 16 + K.fail * 4, mc::hmix(port, ip * 100 + data.size())));
    if (K.fail) { MC_CHECK(r == -1, "setup:failure hidden", "helper %d answers %d although the call fails", what, r); MC_CHECK(e == K.err, "setup:errno", "errno is %d instead of %d", e, K.err); } else MC_CHECK(r == ok, "setup:result", "helper %d answers %d instead of %d", what, r, ok);
    for (size_t i = 0; i < K.calls.size(); i++) MC_CHECK(K.calls[i].fd == fd, "setup:descriptor", "%s acts on %d", K.calls[i].name.c_str(), K.calls[i].fd);
    if (addr) MC_CHECK(K.addr.sin_family == AF_INET && ntohs(K.addr.sin_port) == port && ntohl(K.addr.sin_addr.s_addr) == IV[ip], "setup:address", "%s:%d becomes %08x:%d", IP[ip], port, ntohl(K.addr.sin_addr.s_addr), ntohs(K.addr.sin_port));
    if (what == 2 || what == 3) MC_CHECK(K.sent == data, "setup:data", "%s is sent as %s", mc::esc(data).c_str(), mc::esc(K.sent).c_str()); if (what == 3) MC_CHECK(K.flags & MSG_NOSIGNAL, "setup:SIGPIPE", "Send can raise SIGPIPE");
    if (K.fail) return; int n = 0;
    if (what == 5) MC_CHECK(K.fl & O_NONBLOCK, "setup:nonblock", "the descriptor still blocks");
    if (what == 6) MC_CHECK((n = K.opts[make_pair((int)IPPROTO_TCP, (int)TCP_NODELAY)]) != 0, "setup:option", "TCP_NODELAY is %d", n);
    if (what == 7) MC_CHECK((uint32_t)K.opts[make_pair(SOL_SOCKET, opt)] == bs && K.opts.size() == 1, "setup:option", "the buffer size is not set to %u", bs);
    if (what == 8) MC_CHECK((n = K.opts[make_pair(SOL_SOCKET, (int)SO_REUSEADDR)]) != 0, "setup:option", "SO_REUSEADDR is %d", n);
}
int main(int argc, char **argv) {
    vector<mc::Space> s;
    s.push_back({ "limits", s_limits, false, 0, "all soft and hard limits, wishes, privileges and failures, twice" });
    s.push_back({ "daemon", s_daemon, false, 0, "every process and every fork outcome of InitDaemon" });
    s.push_back({ "sockets", s_sockets, false, 0, "every socket helper with every result, address and port" });
    return mc::run(argc, argv, s, "the calls go to a model kernel; non-trivial: a helper is called");
}
