#include <malloc.h>
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <ftw.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <map>
#include <set>
#include <algorithm>

// The runtime in mcrt.cpp may interpose libc calls in the same executable, so
// the engine itself reaches the kernel through raw system calls where needed.
static double now_s() {
    struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}
static void raw_sleep_us(long us) {
    struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
    syscall(SYS_nanosleep, &ts, (void *)0);
}
static pid_t raw_wait(pid_t p, int *st, int opt) { return (pid_t)syscall(SYS_wait4, p, st, opt, (void *)0); }
static void raw_exit(int c) { syscall(SYS_exit_group, c); __builtin_unreachable(); }

extern "C" void mc_exec_cleanup() __attribute__((weak));   // run after every in-process execution
namespace mc {
namespace {
const int MAXTRAIL = 1 << 16;
const int TASKTRAIL = 4096;
const int MAXTASK = 4096;
const int LOGSZ = 1 << 15;
const int NSAMP = 5;
struct Ch { uint16_t c, n; };
struct Task { int len; Ch t[TASKTRAIL]; };
struct WState {
    volatile int have_task;
    volatile int base, len;
    Ch trail[MAXTRAIL];
    volatile uint64_t beat;
    uint64_t execs, pruned, nontriv, steps, maxlen;
    int running;                 // inside the body
    int verdict;                 // 0 running, 1 failed by fail()
    char sig[160];
    char msg[4096];
    int loglen; char log[LOGSZ];
    int nsamp; char samp[NSAMP][3000];
    int nontriv_this;
};
struct Shared {
    volatile int lock;
    volatile int active, ntask, stop, idle;
    Task tasks[MAXTASK];
};
const uint64_t HT = 1ULL << 24;
struct Set { volatile uint64_t count, full; volatile uint64_t t[HT]; };

Shared *sh; WState *wst; Set *seen; WState *me;
int g_workers = 8; int g_tier = 0; uint64_t g_seed = 1;
int pos; int devleft; bool logon; bool inbody; bool forkedmode; bool replaying;
std::string scratchdir, errdir;
struct PruneEx {};
struct DoneEx {};

void lock() { while (__sync_lock_test_and_set(&sh->lock, 1)) syscall(SYS_sched_yield); }
void unlock() { __sync_lock_release(&sh->lock); }

int rmcb(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
void rmtree(const std::string &p) { if (p.size() > 12 && p.find("/tmp/mcs-") == 0) nftw(p.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); }
}

bool in_body() { return inbody; }
bool thorough() { return g_tier == 1; }
uint64_t seed() { return g_seed; }
bool logging() { return logon; }
uint64_t hash(const void *p, size_t n, uint64_t h) {
    const unsigned char *s = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= s[i]; h *= 1099511628211ULL; }
    return h;
}
std::string strf(const char *fmt, ...) {
    char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0) n = 0;
    if (n >= (int)sizeof b) n = sizeof b - 1;
    return std::string(b, n);
}
std::string esc(const std::string &s, size_t max) {
    std::string r = "\""; char b[8];
    for (size_t i = 0; i < s.size(); i++) {
        if (i >= max) { r += strf("\"...(%zu bytes)", s.size()); return r; }
        unsigned char c = s[i];
        if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r + "\"";
}
std::string scratch() { return scratchdir; }

int choose(int n) {
    if (n <= 1) return 0;
    WState *w = me;
    int p = pos++;
    if (p < w->len) {
        if (w->trail[p].n == 0) w->trail[p].n = n;   // replay from a printed trail
        if (w->trail[p].n != n) {
            // The tree changed under the same choices: the execution is not a
            // function of its choices (uninitialised data, leaked state).
            fail("nondeterministic", "choice %d has %d alternatives, had %d before: the code under test does not depend on its inputs alone", p, n, w->trail[p].n);
        }
        return w->trail[p].c;
    }
    if (p >= MAXTRAIL - 1) fail("unbounded", "execution made more than %d choices", p);
    w->trail[p].c = 0; w->trail[p].n = n; w->len = p + 1;
    return 0;
}
void set_deviations(int b) { devleft = b; }
int choose_dev(int n, int cost) {
    if (n <= 1 || devleft < cost) return 0;
    int c = choose(n);
    if (c) devleft -= cost;
    return c;
}
void vfail(const char *sig, const char *fmt, va_list ap) {
    snprintf(me->sig, sizeof me->sig, "%s", sig);
    vsnprintf(me->msg, sizeof me->msg, fmt, ap);
    me->verdict = 1;
    raw_exit(77);
}
void fail(const char *sig, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfail(sig, fmt, ap); __builtin_unreachable(); }
void prune() { if (forkedmode) raw_exit(79); throw PruneEx(); }
void done() { if (!forkedmode) throw DoneEx(); raw_exit(0); __builtin_unreachable(); }
void op(const char *fmt, ...) {
    if (!logon) return;
    int left = LOGSZ - me->loglen - 2;
    if (left < 16) return;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(me->log + me->loglen, left, fmt, ap); va_end(ap);
    if (n >= left) n = left - 1;
    me->loglen += n; me->log[me->loglen++] = '\n'; me->log[me->loglen] = 0;
}
void state(uint64_t h) {
    if (!h) h = 1;
    uint64_t i = (h * 0x9e3779b97f4a7c15ULL) >> 40;
    for (int k = 0; k < 64; k++, i = (i + 1) & (HT - 1)) {
        uint64_t v = seen->t[i];
        if (v == h) return;
        if (v == 0) {
            if (__sync_bool_compare_and_swap(&seen->t[i], 0, h)) { __sync_fetch_and_add(&seen->count, 1); return; }
            if (seen->t[i] == h) return;
        }
    }
    seen->full = 1;
}
void step(uint64_t n) { me->steps += n; }
void nontrivial() { me->nontriv_this = 1; }

namespace {
void begin_exec() {
    pos = 0; devleft = 0; me->verdict = 0; me->nontriv_this = 0; me->loglen = 0; me->log[0] = 0;
    uint64_t e = me->execs;
    logon = replaying || (me == wst && me->nsamp < NSAMP && (e == 0 || e == 7 || e == 99 || e == 1999 || e == 29999));
}
void end_exec_ok(bool pruned) {
    if (logon && !replaying && !pruned && me->nsamp < NSAMP && me->loglen) {
        snprintf(me->samp[me->nsamp], sizeof me->samp[0], "%s", me->log); me->nsamp++;
    }
    if (pruned) me->pruned++; else { me->execs++; if (me->nontriv_this) me->nontriv++; }
    if ((uint64_t)me->len > me->maxlen) me->maxlen = me->len;
    me->beat++;
}
// one execution in this process; returns false if pruned
bool exec_inproc(const Space &s) {
    inbody = true; me->running = 1;
    bool ok = true;
    try { s.body(); } catch (PruneEx &) { ok = false; } catch (DoneEx &) {}
    if (mc_exec_cleanup) mc_exec_cleanup();
    me->running = 0; inbody = false;
    return ok;
}
int exec_forked(const Space &s, int errfd) {
    if (errfd >= 0) { if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); }
    pid_t p = (pid_t)fork();
    if (p < 0) { raw_sleep_us(20000); p = fork(); if (p < 0) { perror("fork"); raw_exit(70); } }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit rl; rl.rlim_cur = s.cpu_seconds ? s.cpu_seconds : 8; rl.rlim_max = rl.rlim_cur + 2; setrlimit(RLIMIT_CPU, &rl);
        forkedmode = true;
        inbody = true;
        try { s.body(); } catch (PruneEx &) { raw_exit(79); }
        raw_exit(0);
    }
    int st = 0; 
    while (raw_wait(p, &st, 0) < 0 && errno == EINTR) {}
    return st;
}
bool advance() {
    int len = me->len;
    while (len > me->base && me->trail[len - 1].c + 1 >= me->trail[len - 1].n) len--;
    if (len <= me->base) return false;
    me->trail[len - 1].c++;
    me->len = len;
    return true;
}
void donate() {
    if (sh->idle == 0 || sh->ntask >= 16) return;
    int p = me->base;
    while (p < me->len && me->trail[p].c + 1 >= me->trail[p].n) p++;
    if (p >= me->len || p + 1 >= TASKTRAIL) return;
    lock();
    if (sh->ntask + me->trail[p].n >= MAXTASK) { unlock(); return; }
    for (int c = me->trail[p].c + 1; c < me->trail[p].n; c++) {
        Task &t = sh->tasks[sh->ntask];
        t.len = p + 1; memcpy(t.t, me->trail, sizeof(Ch) * (p + 1)); t.t[p].c = c;
        sh->ntask++;
    }
    me->base = p + 1;   // the alternatives at p now belong to others
    unlock();
}
bool get_task() {
    bool wasidle = false;
    for (;;) {
        if (sh->stop) return false;
        lock();
        if (sh->ntask > 0) {
            Task &t = sh->tasks[--sh->ntask];
            memcpy(me->trail, t.t, sizeof(Ch) * t.len); me->len = t.len; me->base = t.len;
            sh->active++; me->have_task = 1;
            if (wasidle) sh->idle--;
            unlock(); return true;
        }
        if (sh->active == 0) { if (wasidle) sh->idle--; unlock(); return false; }
        if (!wasidle) { wasidle = true; sh->idle++; }
        unlock();
        me->beat++;
        raw_sleep_us(300);
    }
}
void end_task() { lock(); me->have_task = 0; sh->active--; unlock(); }

struct Found { std::string sig, msg; std::vector<Ch> trail; std::string log; int repro; };

std::string tail_err(int errfd) {
    off_t e = lseek(errfd, 0, SEEK_END); off_t s = e > 60000 ? e - 60000 : 0;
    std::string r; r.resize(e - s); ssize_t n = pread(errfd, &r[0], e - s, s); r.resize(n > 0 ? n : 0); return r;
}
// Name a crash by the sanitizer's summary or the signal.
std::string crash_sig(int st, const std::string &err) {
    size_t p = err.rfind("SUMMARY: ");
    if (p != std::string::npos) {
        std::string l = err.substr(p + 9); l = l.substr(0, l.find('\n'));
        // "AddressSanitizer: heap-buffer-overflow /repo/src/x.cpp:12 in f" -> kind + function
        size_t a = l.find(": "); std::string kind = a == std::string::npos ? l : l.substr(a + 2);
        kind = kind.substr(0, kind.find(' '));
        size_t in = l.rfind(" in "); std::string fn = in == std::string::npos ? "" : l.substr(in + 4);
        fn = fn.substr(0, fn.find_first_of("<(")); return "crash:" + kind + (fn.empty() ? "" : " in " + fn);
    }
    p = err.find("terminate called");
    if (p != std::string::npos) {
        size_t q = err.find("instance of '", p);
        if (q != std::string::npos) { q += 13; return "crash:uncaught exception " + err.substr(q, err.find('\'', q) - q); }
        return "crash:terminate";
    }
    if (WIFSIGNALED(st)) { int s = WTERMSIG(st); if (s == SIGXCPU) return "hang:cpu limit of one execution"; return strf("crash:signal %d", s); }
    return strf("crash:exit %d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
}
int errfds[64];

// Handles the death/result status of an execution recorded in w; true if it was a violation
bool classify(WState *w, int st, int errfd, Found &f) {
    if (w->verdict == 1) { f.sig = w->sig; f.msg = w->msg; }
    else {
        std::string err = tail_err(errfd);
        f.sig = crash_sig(st, err);
        size_t p = err.find("ERROR: "); std::string m = p == std::string::npos ? err.substr(err.size() > 600 ? err.size() - 600 : 0) : err.substr(p, 1500);
        f.msg = m;
    }
    f.trail.assign(w->trail, w->trail + w->len);
    f.repro = -1;
    return true;
}

long rss_mb() { int fd = (int)syscall(SYS_openat, AT_FDCWD, "/proc/self/statm", O_RDONLY, 0); if (fd < 0) return 0; char b[128]; long n = syscall(SYS_read, fd, b, sizeof b - 1); syscall(SYS_close, fd); if (n <= 0) return 0; b[n] = 0; long a = 0, r = 0; sscanf(b, "%ld %ld", &a, &r); return r / 256; }
void worker_main(const Space &s, int wi, bool resume) {
    me = wst + wi;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    scratchdir = errdir + strf("/w%d", wi); mkdir(scratchdir.c_str(), 0700);
    int efd = errfds[wi];
    dup2(efd, 2); dup2(efd, 1);
    if (!resume) { if (ftruncate(efd, 0)) {} }
    if (resume) { if (!advance()) end_task(); }
    bool recycle = false;
    for (;;) {
        if (!me->have_task) { if (!get_task()) return; }
        for (;;) {
            if (sh->stop) { end_task(); return; }
            begin_exec();
            if (s.forked) {
                int st = exec_forked(s, efd);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) end_exec_ok(false);
                else if (WIFEXITED(st) && WEXITSTATUS(st) == 79) end_exec_ok(true);
                else raw_exit(76);  // parent reads the shared state and err file
            } else {
                bool ok = exec_inproc(s);
                end_exec_ok(!ok);
                if ((me->execs & 511) == 0 && rss_mb() > 700) { recycle = true; }
                if ((me->execs & 1023) == 0) { if (lseek(efd, 0, SEEK_CUR) > (1 << 20)) { if (ftruncate(efd, 0)) {} lseek(efd, 0, SEEK_SET); } }
            }
            donate();
            if (recycle) raw_exit(75);      // leaks of the code under test: continue in a fresh process
            if (!advance()) break;
        }
        end_task();
    }
}
double child_cpu(pid_t p) {
    char b[64]; snprintf(b, sizeof b, "/proc/%d/stat", p);
    int fd = open(b, O_RDONLY); if (fd < 0) return 0;
    char buf[2048]; ssize_t n = ::read(fd, buf, sizeof buf - 1); close(fd); if (n <= 0) return 0; buf[n] = 0;
    char *q = strrchr(buf, ')'); if (!q) return 0;
    unsigned long ut = 0, st = 0;
    sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
    return (ut + st) / (double)sysconf(_SC_CLK_TCK);
}
std::string jesc(const std::string &s) {
    std::string r = "\""; char b[8];
    for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
std::string trailstr(const std::vector<Ch> &t) { std::string r; for (size_t i = 0; i < t.size(); i++) r += strf("%s%d", i ? "," : "", t[i].c); return r; }

// Re-runs one trail in a fresh process with the log on.
int replay_one(const Space &s, const std::vector<Ch> &t, Found *out) {
    WState *w = wst + 0; int efd = errfds[0];
    pid_t p = fork();
    if (p == 0) {
        replaying = true; me = w;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        scratchdir = errdir + "/replay"; mkdir(scratchdir.c_str(), 0700);
        struct rlimit rl; rl.rlim_cur = (s.cpu_seconds ? s.cpu_seconds : 8) ; rl.rlim_max = rl.rlim_cur + 2; setrlimit(RLIMIT_CPU, &rl);
        if (ftruncate(efd, 0)) {} lseek(efd, 0, SEEK_SET);
        dup2(efd, 2); dup2(efd, 1);
        w->base = t.size(); w->len = t.size(); for (size_t i = 0; i < t.size(); i++) w->trail[i] = t[i];
        begin_exec();
        forkedmode = s.forked;
        inbody = true; w->running = 1;
        try { s.body(); } catch (PruneEx &) { raw_exit(79); } catch (DoneEx &) {}
        if (!s.forked && mc_exec_cleanup) mc_exec_cleanup();
        raw_exit(0);
    }
    int st = 0; double t0 = now_s();
    for (;;) { pid_t r = raw_wait(p, &st, WNOHANG); if (r == p) break; if (r < 0 && errno != EINTR) break;
        if (now_s() - t0 > 120) { kill(p, SIGKILL); raw_wait(p, &st, 0); if (out) { classify(w, st, efd, *out); out->sig = "hang:no progress"; out->log = std::string(w->log, w->loglen); } return 2; }
        raw_sleep_us(2000); }
    if (out) out->log = std::string(w->log, w->loglen);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 79)) return 0;
    if (out) { std::string lg = out->log; classify(w, st, efd, *out); out->log = lg; }
    return 1;
}
}

static void *map_shared(size_t n) {
    void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
}

int run(int argc, char **argv, const std::vector<Space> &spaces, const char *rule) {
    std::string out, only, replay; std::set<std::string> known; double deadline = 1e9;
    mallopt(M_PERTURB, 0x41); // fresh memory holds 0xbe
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out" && i + 1 < argc) out = argv[++i];
        else if (a == "--workers" && i + 1 < argc) g_workers = atoi(argv[++i]);
        else if (a == "--tier" && i + 1 < argc) g_tier = !strcmp(argv[++i], "thorough");
        else if (a == "--space" && i + 1 < argc) only = argv[++i];
        else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
        else if (a == "--known" && i + 1 < argc) known.insert(argv[++i]);
        else if (a == "--seed" && i + 1 < argc) g_seed = strtoull(argv[++i], 0, 10);
        else if (a == "--deadline" && i + 1 < argc) deadline = atof(argv[++i]);
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    signal(SIGPIPE, SIG_DFL);
    if (g_workers < 1) g_workers = 1;
    if (g_workers > 60) g_workers = 60;
    sh = (Shared *)map_shared(sizeof(Shared)); wst = (WState *)map_shared(sizeof(WState) * g_workers); seen = (Set *)map_shared(sizeof(Set));
    errdir = strf("/tmp/mcs-%d", (int)getpid()); mkdir(errdir.c_str(), 0700);
    for (int i = 0; i < g_workers; i++) { errfds[i] = open((errdir + strf("/err%d", i)).c_str(), O_RDWR | O_CREAT | O_APPEND | O_CLOEXEC, 0600); if (errfds[i] < 0) { perror("errfile"); return 2; } errfds[i] = fcntl(errfds[i], F_DUPFD_CLOEXEC, 900); }
    if (!replay.empty()) {
        size_t c = replay.find(':'); std::string sp = replay.substr(0, c); std::vector<Ch> t;
        const char *q = replay.c_str() + (c == std::string::npos ? replay.size() : c + 1);
        while (*q) { Ch x; x.c = strtol(q, (char **)&q, 10); x.n = 0; t.push_back(x); if (*q == ',') q++; else break; }
        for (size_t i = 0; i < spaces.size(); i++) if (sp == spaces[i].name) {
            Found f; f.repro = 0;
            int r = replay_one(spaces[i], t, &f);
            printf("%s\nRESULT %s %s\n%s\n", f.log.c_str(), r ? "VIOLATION" : "ok", f.sig.c_str(), f.msg.c_str());
            rmtree(errdir);
            return r ? 1 : 0;
        }
        fprintf(stderr, "no such space\n"); rmtree(errdir); return 2;
    }
    double t0 = now_s();
    std::string js = "{\"spaces\":["; bool first = true; bool anyunknown = false; bool allex = true;
    uint64_t texec = 0, tnon = 0, tstep = 0; std::string samples; std::vector<std::pair<std::string, Found> > viols;
    for (size_t si = 0; si < spaces.size(); si++) {
        const Space &s = spaces[si];
        if (!only.empty() && only != s.name) continue;
        if (anyunknown) { allex = false; break; }
        double s0 = now_s();
        for (int i = 0; i < g_workers; i++) { WState *w = wst + i; w->have_task = 0; w->base = w->len = 0; w->execs = w->pruned = w->nontriv = w->steps = w->maxlen = 0; w->nsamp = 0; w->beat = 0; }
        sh->lock = 0; sh->active = 0; sh->ntask = 1; sh->stop = 0; sh->idle = 0; sh->tasks[0].len = 0;
        std::vector<pid_t> pid(g_workers); std::vector<uint64_t> beat(g_workers); std::vector<double> bcpu(g_workers), bwall(g_workers); std::vector<int> failedkill(g_workers);
        fflush(stdout); fflush(stderr);
        for (int i = 0; i < g_workers; i++) { pid_t p = fork(); if (p == 0) { worker_main(s, i, false); raw_exit(0); } pid[i] = p; beat[i] = 0; bcpu[i] = 0; bwall[i] = now_s(); }
        int alive = g_workers; std::map<std::string, int> cnt; int total_v = 0; bool exhausted = true;
        double lastchk = now_s();
        while (alive > 0) {
            int st; pid_t p = raw_wait(-1, &st, WNOHANG);
            if (p <= 0) {
                raw_sleep_us(2000);
                double n = now_s();
                if (n - t0 > deadline && !sh->stop) { sh->stop = 1; exhausted = false; }
                if (n - lastchk > 1) {
                    lastchk = n;
                    for (int i = 0; i < g_workers; i++) if (pid[i] > 0) {
                        if (wst[i].beat != beat[i]) { beat[i] = wst[i].beat; bwall[i] = n; bcpu[i] = child_cpu(pid[i]); }
                        else {
                            double lim = s.cpu_seconds ? s.cpu_seconds : 8;
                            if ((!s.forked && child_cpu(pid[i]) - bcpu[i] > lim) || n - bwall[i] > 150) { failedkill[i] = 1; kill(pid[i], SIGKILL); bwall[i] = n; }
                        }
                    }
                }
                continue;
            }
            int wi = -1; for (int i = 0; i < g_workers; i++) if (pid[i] == p) wi = i;
            if (wi < 0) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[wi] = 0; alive--; continue; }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 75) { pid_t q = fork(); if (q == 0) { worker_main(s, wi, true); raw_exit(0); } pid[wi] = q; bwall[wi] = now_s(); bcpu[wi] = 0; beat[wi] = wst[wi].beat; continue; }
            Found f; classify(wst + wi, st, errfds[wi], f);
            if (failedkill[wi]) { failedkill[wi] = 0; f.sig = "hang:no progress"; }
            else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && wst[wi].verdict != 1) f.sig = "killed";
            total_v++;
            // fresh-process confirmation
            if (cnt[f.sig]++ < (f.sig.compare(0, 4, "hang") ? 3 : 1)) {
                Found g;
                static WState *spare = 0; if (!spare) spare = (WState *)map_shared(sizeof(WState));
                WState *keep = wst; int keepfd = errfds[0]; int rfd = open((errdir + "/rep").c_str(), O_RDWR | O_CREAT | O_APPEND, 0600);
                wst = spare; errfds[0] = rfd; int r = replay_one(s, f.trail, &g); wst = keep; errfds[0] = keepfd; close(rfd);
                f.repro = r != 0; f.log = g.log; if (r == 0) f.msg += " [not reproduced in a fresh process]";
                if (f.sig == "killed") { if (r) f.sig = g.sig; }
                if (!(f.sig == "killed" && !r)) { viols.push_back(std::make_pair(std::string(s.name), f)); }
            }
            bool isk = known.count(f.sig) > 0 || f.sig == "killed";
            if (!isk) { anyunknown = true; sh->stop = 1; exhausted = false; }
            if (total_v > 5000) { sh->stop = 1; exhausted = false; }
            wst[wi].execs++; wst[wi].beat++;
            if (lseek(errfds[wi], 0, SEEK_END) >= 0) { if (ftruncate(errfds[wi], 0)) {} }
            pid_t q = fork(); if (q == 0) { worker_main(s, wi, true); raw_exit(0); } pid[wi] = q; bwall[wi] = now_s(); bcpu[wi] = 0; beat[wi] = wst[wi].beat;
        }
        if (!exhausted) allex = false;
        uint64_t e = 0, pr = 0, no = 0, stp = 0, ml = 0;
        for (int i = 0; i < g_workers; i++) { WState *w = wst + i; e += w->execs; pr += w->pruned; no += w->nontriv; stp += w->steps; if (w->maxlen > ml) ml = w->maxlen; }
        texec += e; tnon += no; tstep += stp;
        js += strf("%s{\"name\":%s,\"executions\":%llu,\"pruned\":%llu,\"nontrivial\":%llu,\"transitions\":%llu,\"max_choices\":%llu,\"exhausted\":%s,\"wall_s\":%.2f,\"desc\":%s}", first ? "" : ",", jesc(s.name).c_str(), (unsigned long long)e, (unsigned long long)pr, (unsigned long long)no, (unsigned long long)stp, (unsigned long long)ml, exhausted ? "true" : "false", now_s() - s0, jesc(s.desc ? s.desc : "").c_str());
        first = false;
        for (int k = 0; k < wst[0].nsamp; k++) { if (k == 0 || k == wst[0].nsamp - 1) samples += (samples.empty() ? "" : ",") + std::string("{\"space\":") + jesc(s.name) + ",\"trace\":" + jesc(wst[0].samp[k]) + "}"; }
        fprintf(stderr, "space %-28s executions %-9llu nontrivial %-9llu steps %-10llu depth %-5llu %s %.1fs\n", s.name, (unsigned long long)e, (unsigned long long)no, (unsigned long long)stp, (unsigned long long)ml, exhausted ? "exhausted" : "STOPPED", now_s() - s0);
    }
    js += strf("],\"executions\":%llu,\"nontrivial\":%llu,\"transitions\":%llu,\"states\":%llu,\"states_capped\":%s,\"exhausted\":%s,\"wall_s\":%.2f,", (unsigned long long)texec, (unsigned long long)tnon, (unsigned long long)tstep, (unsigned long long)seen->count, seen->full ? "true" : "false", allex ? "true" : "false", now_s() - t0);
    js += "\"rule\":" + jesc(rule) + ",\"samples\":[" + samples + "],\"violations\":[";
    for (size_t i = 0; i < viols.size(); i++) {
        Found &f = viols[i].second;
        js += strf("%s{\"space\":%s,\"sig\":%s,\"repro\":%d,", i ? "," : "", jesc(viols[i].first).c_str(), jesc(f.sig).c_str(), f.repro) + "\"msg\":" + jesc(f.msg) + ",\"trail\":" + jesc(trailstr(f.trail)) + ",\"log\":" + jesc(f.log) + "}";
    }
    js += "]}\n";
    if (!out.empty()) { FILE *fp = fopen(out.c_str(), "w"); if (!fp) { perror("out"); return 2; } fwrite(js.data(), 1, js.size(), fp); fclose(fp); }
    for (size_t i = 0; i < viols.size(); i++) fprintf(stderr, "violation in %s: %s: %s\n%s\n", viols[i].first.c_str(), viols[i].second.sig.c_str(), viols[i].second.msg.substr(0, 600).c_str(), viols[i].second.log.c_str());
    rmtree(errdir);
    return anyunknown ? 1 : 0;
}
}
extern "C" __attribute__((weak)) const char *__asan_default_options() {
    return "exitcode=99:detect_leaks=0:abort_on_error=0:max_allocation_size_mb=600:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=6:handle_segv=1";
}
