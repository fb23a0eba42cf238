#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mcrt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <net/if.h>
#include <netinet/in.h>
#include <cxxabi.h>
#include <exception>
#include <map>
#include <set>
#include <list>
#include <algorithm>
#ifdef MC_ASAN
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif

// ======================================================================
// fibers
// ======================================================================
extern "C" void mcrt_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl mcrt_switch
.type mcrt_switch,@function
mcrt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mcrt_switch,.-mcrt_switch
)");

namespace rt {
uint64_t now_us, steps; int max_steps = 200000;
int threads_created, threads_finished, threads_unjoined;
struct CancelEx {};   // unwinds a cancelled or abandoned fiber
typedef std::vector<uint32_t> VC;
enum { ST_NEW, ST_RUN, ST_DONE };
struct Fiber {
    int id; std::string name; int st; void *sp; char *stack; size_t ssz;
    std::function<void()> fn; void *(*start)(void *); void *arg; void *ret;
    std::function<bool()> pred; bool blocked; uint64_t deadline; bool timedout; const char *why; const void *obj;
    int err; void *eh[2]; bool detached, joined, cancel_req, cancelled, cancel_off, cpt; bool quiesce;
    VC vc; void *asan_fake; const void *sb; size_t sbsz;
    std::map<pthread_key_t, const void *> tls; sigset_t mask;
};
static std::vector<Fiber *> F; static Fiber *cur; static bool on; static bool dying; static int quietn;
static std::function<bool()> idle_fn; static std::function<void()> deadlock_fn; static bool time_ok = true, spur = false, torace = false, inorder = false, delayb = false;
static std::vector<char *> stack_pool;
static const size_t SSZ = 512 * 1024;
static Fiber *asan_from;

bool active() { return on; }
int self() { return cur ? cur->id : 0; }
int nfibers() { return F.size(); }
Quiet::Quiet() { old = false; quietn++; }
Quiet::~Quiet() { quietn--; }
void quiet(bool q) { if (q) quietn++; else quietn--; }
void set_idle(const std::function<bool()> &f) { idle_fn = f; }
void set_deadlock(const std::function<void()> &f) { deadlock_fn = f; }
void allow_time(bool b) { time_ok = b; }
void spurious(bool b) { spur = b; }
void ordered(bool b) { inorder = b; }
void delay_bounded(bool b) { delayb = b; }
void timeouts_race(bool b) { torace = b; }

static void fiber_entry();
extern "C" void mcrt_fiber_entry() { fiber_entry(); }

static void switch_to(Fiber *n) {
    if (n == cur) return;
    Fiber *o = cur; o->err = errno;
    void **eh = (void **)abi::__cxa_get_globals();
    o->eh[0] = eh[0]; o->eh[1] = eh[1];
    eh[0] = n->eh[0]; eh[1] = n->eh[1];
    cur = n;
#ifdef MC_ASAN
    asan_from = o;
    __sanitizer_start_switch_fiber(o->st == ST_DONE ? NULL : &o->asan_fake, n->sb, n->sbsz);
#endif
    mcrt_switch(&o->sp, n->sp);
    // back in o
#ifdef MC_ASAN
    const void *b; size_t s; __sanitizer_finish_switch_fiber(o->asan_fake, &b, &s);
    if (asan_from && asan_from->id == 0 && !asan_from->sb) { asan_from->sb = b; asan_from->sbsz = s; }
#endif
    errno = cur->err;
}
std::string blocked_report() {
    std::string r;
    for (size_t i = 0; i < F.size(); i++) { Fiber *f = F[i];
        r += mc::strf("  fiber %d (%s): %s\n", f->id, f->name.c_str(), f->st == ST_DONE ? "finished" : f->blocked ? f->why : "runnable"); }
    return r;
}
int live_fibers() { int n = 0; for (size_t i = 1; i < F.size(); i++) if (F[i]->st != ST_DONE) n++; return n; }
std::vector<int> blocked_in_mutex() { std::vector<int> v; for (size_t i = 0; i < F.size(); i++) if (F[i]->st != ST_DONE && F[i]->blocked && !strcmp(F[i]->why, "mutex")) v.push_back(i); return v; }

static bool enabled(Fiber *f) {
    if (f->st == ST_DONE || f->quiesce) return false;
    if (!f->blocked) return true;
    if (f->cancel_req && !f->cancel_off && f->cpt) return true;
    return f->pred && f->pred();
}
// Pick who runs next. Called with the current fiber either runnable or blocked.
static void pick(bool cur_ok, bool preemptible) {
    for (;;) {
        if (++steps > (uint64_t)max_steps) { on = false; mc::fail("livelock", "no end after %d scheduling points\n%s", max_steps, blocked_report().c_str()); }
        std::vector<Fiber *> en; 
        if (cur_ok) en.push_back(cur);
        size_t s = cur->id;
        if (!cur_ok || preemptible) for (size_t k = cur_ok ? 1 : 0; k <= F.size() - (cur_ok ? 1 : 1); k++) { Fiber *f = F[(s + k) % F.size()]; if (f == cur && cur_ok) continue; if (enabled(f)) en.push_back(f); }
        if (!en.empty()) {
            // fibers whose wait may time out although the world is not idle
            size_t real = en.size();
            if (torace) for (size_t i = 0; i < F.size(); i++) { Fiber *f = F[i]; if (f->st != ST_DONE && f->blocked && !f->quiesce && f->deadline != ~0ULL && !enabled(f)) en.push_back(f); }
            int c;
            if (inorder) c = 0;
            else if (cur_ok) c = mc::choose_dev(en.size());
            else if (en.size() == real) c = delayb ? mc::choose_dev(real) : mc::choose(real);
            else { c = mc::choose_dev(2) ? (int)real + mc::choose(en.size() - real) : mc::choose(real); }
            Fiber *n = en[c];
            if ((size_t)c >= real) { n->timedout = true; if (n->deadline > now_us) now_us = n->deadline; }
            n->blocked = false; n->quiesce = false;
            mc::step();
            switch_to(n);
            return;
        }
        // nothing can run: the environment
        if (idle_fn) { quietn++; bool p = idle_fn(); quietn--; if (p) continue; }
        if (time_ok) {
            Fiber *best = 0; for (size_t i = 0; i < F.size(); i++) { Fiber *f = F[i]; if (f->st != ST_DONE && f->blocked && f->deadline != ~0ULL && !f->quiesce) if (!best || f->deadline < best->deadline) best = f; }
            if (best) { 
                std::vector<Fiber *> same; for (size_t i = 0; i < F.size(); i++) { Fiber *f = F[i]; if (f->st != ST_DONE && f->blocked && !f->quiesce && f->deadline == best->deadline) same.push_back(f); }
                best = same[inorder ? 0 : delayb ? mc::choose_dev(same.size()) : mc::choose(same.size())];
                if (best->deadline > now_us) now_us = best->deadline; best->timedout = true; best->blocked = false; mc::step(); switch_to(best); return; }
        }
        Fiber *q = 0; for (size_t i = 0; i < F.size(); i++) if (F[i]->st != ST_DONE && F[i]->quiesce) { q = F[i]; break; }
        if (q) { q->blocked = false; q->quiesce = false; switch_to(q); return; }
        if (deadlock_fn) { deadlock_fn(); }
        std::string br = blocked_report(); on = false;
        mc::fail("deadlock", "nothing can run and nothing will happen\n%s", br.c_str());
    }
}
static void point() { if (on && !quietn && !dying) { if (F.size() > 1 && !inorder) pick(true, true); } }
void yield() { point(); }
// Block until pred (or deadline). Returns false on timeout.
static bool block(const char *why, const void *obj, const std::function<bool()> &pred, uint64_t deadline = ~0ULL, bool cancelpt = false) {
    if (dying) throw CancelEx();
    Fiber *f = cur;
    for (;;) {
        if (cancelpt && f->cancel_req && !f->cancel_off) { f->cancelled = true; f->cancel_req = false; throw CancelEx(); }
        if (pred && pred()) return true;
        f->blocked = true; f->why = why; f->obj = obj; f->pred = pred; f->deadline = deadline; f->timedout = false; f->cpt = cancelpt;
        pick(false, true);
        f->blocked = false; f->deadline = ~0ULL;
        if (dying) throw CancelEx();
        if (f->timedout) { f->timedout = false; return pred && pred(); }
    }
}
void wait_until(const std::function<bool()> &p) { block("harness wait", 0, p); }
void wait_quiescent() {
    if (F.size() <= 1 && !idle_fn) return;
    Fiber *f = cur; f->blocked = true; f->why = "quiescence"; f->pred = nullptr; f->quiesce = true; f->deadline = ~0ULL;
    pick(false, true);
    f->blocked = false; f->quiesce = false;
}
static void vc_join(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
static void vc_tick(Fiber *f) { if (f->vc.size() <= (size_t)f->id) f->vc.resize(f->id + 1); f->vc[f->id]++; }
static std::map<const void *, VC> objvc;
void hb_acquire(const void *o) { if (!on || !cur) return; std::map<const void *, VC>::iterator i = objvc.find(o); if (i != objvc.end()) vc_join(cur->vc, i->second); }
void hb_release(const void *o) { if (!on || !cur) return; vc_join(objvc[o], cur->vc); vc_tick(cur); }

static void fiber_entry() {
#ifdef MC_ASAN
    const void *b; size_t s; __sanitizer_finish_switch_fiber(NULL, &b, &s);
    if (asan_from && asan_from->id == 0 && !asan_from->sb) { asan_from->sb = b; asan_from->sbsz = s; }
#endif
    Fiber *f = cur;
    errno = 0;
    if (!dying) {
        try { if (f->start) f->ret = f->start(f->arg); else f->fn(); } catch (CancelEx &) { f->ret = PTHREAD_CANCELED; }
    }
    f->st = ST_DONE; f->blocked = false; threads_finished++;
    vc_tick(f);
    if (dying) { for (;;) switch_to(F[0]); }
    pick(false, true);
    abort();
}
static Fiber *mk(const char *name) {
    Fiber *f = new Fiber(); f->id = F.size(); f->name = name; f->st = ST_RUN; f->blocked = false; f->deadline = ~0ULL; f->timedout = false; f->why = ""; f->obj = 0;
    f->start = 0; f->arg = 0; f->ret = 0; f->err = 0; f->eh[0] = f->eh[1] = 0; f->detached = f->joined = f->cancel_req = f->cancelled = f->cancel_off = false; f->quiesce = false; f->cpt = false; f->stack = 0; f->asan_fake = 0; f->sb = 0; f->sbsz = 0;
    F.push_back(f); return f;
}
static Fiber *mkthread(const char *name) {
    Fiber *f = mk(name); threads_created++;
    if (stack_pool.empty()) { f->stack = (char *)mmap(0, SSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (f->stack == MAP_FAILED) { perror("mmap"); abort(); } }
    else { f->stack = stack_pool.back(); stack_pool.pop_back(); }
    f->ssz = SSZ; f->sb = f->stack; f->sbsz = SSZ;
#ifdef MC_ASAN
    __asan_unpoison_memory_region(f->stack, SSZ);
#endif
    uint64_t *sp = (uint64_t *)(f->stack + SSZ - 64); sp = (uint64_t *)((uintptr_t)sp & ~15ULL);
    *--sp = 0; *--sp = (uint64_t)(void *)mcrt_fiber_entry; for (int i = 0; i < 6; i++) *--sp = 0; f->sp = sp;
    vc_tick(cur); f->vc = cur->vc; vc_tick(f);
    return f;
}
int spawn(const std::function<void()> &fn, const char *name) { Fiber *f = mkthread(name); f->fn = fn; point(); return f->id; }
bool finished(int t) { return F[t]->st == ST_DONE; }
void join(int t) { block("join", 0, [t]() { return F[t]->st == ST_DONE; }); F[t]->joined = true; vc_join(cur->vc, F[t]->vc); }
struct Mtx { int owner; int depth; int nr; std::vector<int> readers; Mtx() : owner(-1), depth(0), nr(0) {} };
static std::map<const void *, Mtx> mtx;
struct Waiter { Fiber *f; bool signalled; };
static std::map<const void *, std::list<Waiter *> > conds;
static std::map<const void *, int> sems; static std::map<const void *, int> mkind;
static std::map<const void *, clockid_t> condclock;
void mem_reset();

void begin() {
    F.clear(); now_us = 1700000000ULL * 1000000; steps = 0; max_steps = 200000; mtx.clear(); conds.clear(); sems.clear(); mkind.clear(); condclock.clear(); objvc.clear();
    idle_fn = nullptr; deadlock_fn = nullptr; time_ok = true; spur = false; torace = false; inorder = delayb = false; dying = false; quietn = 0; threads_created = threads_finished = threads_unjoined = 0;
    Fiber *m = mk("main"); cur = m; vc_tick(m);
    mem_reset(); vk::reset();
    on = true;
}
void end() {
    if (!on) return;
    dying = true;
    for (size_t i = 1; i < F.size(); i++) { Fiber *f = F[i]; if (f->st != ST_DONE) { f->blocked = false; switch_to(f); } }
    on = false; dying = false;
    for (size_t i = 0; i < F.size(); i++) { if (F[i]->stack) stack_pool.push_back(F[i]->stack); delete F[i]; }
    F.clear(); cur = 0; idle_fn = nullptr; deadlock_fn = nullptr;
    vk::reset(); mem_reset();
}
static bool interposed() { return on; }
static void sleep_us(uint64_t us) { uint64_t d = now_us + us; if (quietn) { now_us = d; return; } block("sleep", 0, [d]() { return now_us >= d; }, d, true); }

// fresh heap memory is filled with 0xbe (by ASan or M_PERTURB), a destroyed object with 0x5a
static void usable(const void *o, size_t n, const char *what) {
    const unsigned char *b = (const unsigned char *)o; if (b[0] != 0xbe && b[0] != 0x5a) return; for (size_t i = 1; i < n; i++) if (b[i] != b[0]) return;
    on = false; std::string w = mc::strf("a %s that %s is used", what, b[0] == 0xbe ? "was never initialised" : "has been destroyed"); mc::fail(w.c_str(), "undefined");
}
static int m_lock(const void *m, bool tr, uint64_t dl = ~0ULL) {
    if (dying) return 0;
    usable(m, sizeof(int), "lock"); point();
    Mtx &x = mtx[m];
    if (x.owner == cur->id) { if (mkind.count(m)) { x.depth++; return 0; } if (tr) return EBUSY; }
    if (tr) { if (x.owner >= 0) return EBUSY; }
    else if (x.owner >= 0) { bool ok = block("mutex", m, [m]() { return mtx[m].owner < 0; }, dl); if (!ok) return ETIMEDOUT; }
    Mtx &y = mtx[m]; y.owner = cur->id; y.depth = 1; hb_acquire(m); return 0;
}
static int m_unlock(const void *m) {
    if (dying) return 0;
    Mtx &x = mtx[m];
    if (x.owner != cur->id) { std::string r = mc::strf("fiber %d unlocks a mutex %s", cur->id, x.owner < 0 ? "that is not locked" : "held by another thread"); on = false; mc::fail("unlock of a mutex not held", "%s", r.c_str()); }
    if (--x.depth > 0) return 0;
    hb_release(m); x.owner = -1; point(); return 0;
}
static int c_wait(const void *c, const void *m, uint64_t dl) {
    if (dying) throw CancelEx(); usable(c, 8, "condition");
    if (mtx[m].owner != cur->id) { on = false; mc::fail("condition wait without the mutex", "fiber waits on a condition without holding the mutex"); }
    point();
    Waiter w; w.f = cur; w.signalled = false; 
    conds[c].push_back(&w);
    hb_release(m); mtx[m].owner = -1;
    bool ok = true; bool canc = false;
    bool sp = spur && mc::choose_dev(2);
    if (!sp) {
        try { ok = block("condition", c, [&w]() { return w.signalled; }, dl, true); }
        catch (CancelEx &) { canc = true; }
    }
    if (!dying) conds[c].remove(&w);
    if (dying) throw CancelEx();
    // a cancelled waiter re-acquires the mutex before unwinding (POSIX)
    if (mtx[m].owner >= 0) block("mutex", m, [m]() { return mtx[m].owner < 0; });
    mtx[m].owner = cur->id; mtx[m].depth = 1; hb_acquire(m);
    if (canc) throw CancelEx();
    return ok ? 0 : ETIMEDOUT;
}
static int c_wake(const void *c, bool all) {
    if (dying) return 0; usable(c, 8, "condition");
    point();
    std::list<Waiter *> &l = conds[c];
    if (all) { for (std::list<Waiter *>::iterator i = l.begin(); i != l.end(); ++i) (*i)->signalled = true; l.clear(); return 0; }
    if (l.empty()) return 0;
    int k = mc::choose(l.size());
    std::list<Waiter *>::iterator i = l.begin(); std::advance(i, k); (*i)->signalled = true; l.erase(i);
    return 0;
}
static uint64_t ts_us(const struct timespec *t, clockid_t clk) {
    // the virtual realtime clock is now_us; the monotonic clock is now_us - 1.69e15
    uint64_t v = (uint64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000; (void)clk; return v;
}
static const uint64_t MONO_OFF = 1690000000ULL * 1000000;
}
using namespace rt;
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))

extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) throw() {
    if (!interposed()) { on = false; static decltype(&pthread_create) r; if (!r) r = REAL(pthread_create); return r(t, 0, fn, arg); }
    if (vk::fault) { long e = vk::fault("pthread_create", -1, 0); if (e < 0) return -e; }
    Fiber *f = mkthread("thread"); f->start = fn; f->arg = arg; f->mask = cur->mask; *t = (pthread_t)(0x7000 + f->id); point(); return 0;
}
// every thread has its own signal mask, which a new one takes over from its creator
int pthread_sigmask(int how, const sigset_t *n, sigset_t *o) throw() {
    if (!interposed()) { static decltype(&pthread_sigmask) r; if (!r) r = REAL(pthread_sigmask); return r(how, n, o); }
    sigset_t was = cur->mask; if (n) { if (how == SIG_SETMASK) cur->mask = *n; else if (how == SIG_BLOCK || how == SIG_UNBLOCK) { for (int i = 1; i < 65; i++) if (sigismember(n, i) == 1) { if (how == SIG_BLOCK) sigaddset(&cur->mask, i); else sigdelset(&cur->mask, i); } } else return EINVAL; }
    if (o) *o = was; return 0;
}
int sigprocmask(int how, const sigset_t *n, sigset_t *o) throw() {
    if (!interposed()) { static decltype(&sigprocmask) r; if (!r) r = REAL(sigprocmask); return r(how, n, o); }
    int e = pthread_sigmask(how, n, o); if (e) { errno = e; return -1; } return 0;
}
static Fiber *fib(pthread_t t) { size_t i = (size_t)t - 0x7000; return i < F.size() ? F[i] : 0; }
int pthread_join(pthread_t t, void **ret) {
    if (!interposed()) { static decltype(&pthread_join) r; if (!r) r = REAL(pthread_join); return r(t, ret); }
    Fiber *f = fib(t); if (!f) { on = false; mc::fail("join of a bad thread id", "pthread_join of an id that names no thread"); }
    if (f->joined || f->detached) { on = false; mc::fail("join of a joined or detached thread", "pthread_join of a thread already %s: undefined", f->joined ? "joined" : "detached"); }
    point();
    block("join", 0, [f]() { return f->st == ST_DONE; }, ~0ULL, true); f->joined = true; if (ret) *ret = f->ret; vc_join(cur->vc, f->vc); return 0;
}
int pthread_detach(pthread_t t) throw() {
    if (!interposed()) { static decltype(&pthread_detach) r; if (!r) r = REAL(pthread_detach); return r(t); }
    Fiber *f = fib(t); if (!f) { on = false; mc::fail("detach of a bad thread id", "pthread_detach of an id that names no thread"); }
    if (f->joined || f->detached) { on = false; mc::fail("detach of a joined or detached thread", "pthread_detach of a thread already %s: undefined", f->joined ? "joined" : "detached"); }
    f->detached = true; return 0;
}
int pthread_cancel(pthread_t t) {
    if (!interposed()) { static decltype(&pthread_cancel) r; if (!r) r = REAL(pthread_cancel); return r(t); }
    Fiber *f = fib(t); if (!f) { on = false; mc::fail("cancel of a bad thread id", "pthread_cancel of an id that names no thread"); }
    if (f->joined || (f->detached && f->st == ST_DONE)) { on = false; mc::fail("cancel of a joined thread", "pthread_cancel of a thread that no longer exists: undefined"); }
    point(); if (f->st != ST_DONE) f->cancel_req = true; return 0;
}
void pthread_testcancel(void) { if (!interposed() || dying) return; if (cur->cancel_req && !cur->cancel_off) { cur->cancelled = true; cur->cancel_req = false; throw CancelEx(); } }
int pthread_setcancelstate(int s, int *old) { if (!interposed()) return 0; if (old) *old = cur->cancel_off ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE; cur->cancel_off = s == PTHREAD_CANCEL_DISABLE; return 0; }
void pthread_exit(void *r) { if (!interposed()) { ((void (*)(void *))dlsym(RTLD_NEXT, "pthread_exit"))(r); abort(); } cur->ret = r; throw CancelEx(); }
pthread_t pthread_self(void) throw() { if (!interposed() || !cur || cur->id == 0) { static decltype(&pthread_self) r; if (!r) r = REAL(pthread_self); return r(); } return (pthread_t)(0x7000 + cur->id); }
// one-time initialisation: pthread_once and the guards of function statics
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!interposed()) { static decltype(&pthread_once) r; if (!r) r = REAL(pthread_once); return r(o, fn); }
    volatile int *v = (volatile int *)o; if (*v == 0x7002) { block("once", o, [v]() { return *v != 0x7002; }); }
    if (*v == 2) { hb_acquire(o); return 0; } *v = 0x7002; try { fn(); } catch (...) { *v = 0; throw; } hb_release(o); *v = 2; return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
    volatile char *c = (volatile char *)g; if (!on) { static int (*r)(uint64_t *); if (!r) *(void **)&r = dlsym(RTLD_NEXT, "__cxa_guard_acquire"); return r(g); }
    if (!c[0] && c[1]) block("once", g, [c]() { return !c[1]; }); if (c[0]) { hb_acquire(g); return 0; } c[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t *g) throw() { volatile char *c = (volatile char *)g; if (!on) { static void (*r)(uint64_t *); if (!r) *(void **)&r = dlsym(RTLD_NEXT, "__cxa_guard_release"); r(g); return; } hb_release(g); c[1] = 0; c[0] = 1; }
void __cxa_guard_abort(uint64_t *g) throw() { volatile char *c = (volatile char *)g; if (!on) { static void (*r)(uint64_t *); if (!r) *(void **)&r = dlsym(RTLD_NEXT, "__cxa_guard_abort"); r(g); return; } c[1] = 0; }
int sched_yield(void) throw() { if (interposed()) point(); else syscall(SYS_sched_yield); return 0; }

int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) throw() {
    if (!interposed()) { memset(m, 0, sizeof *m); if (a) { static decltype(&pthread_mutex_init) r; if (!r) r = REAL(pthread_mutex_init); return r(m, a); } return 0; }
    memset(m, 0, sizeof *m); mtx[m] = Mtx(); mkind.erase(m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); if (k == PTHREAD_MUTEX_RECURSIVE) mkind[m] = 1; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) throw() {
    if (!interposed()) { return 0; }
    if (!dying && mtx.count(m) && mtx[m].owner >= 0) { std::string r = mc::strf("held by fiber %d", mtx[m].owner); on = false; mc::fail("destroy of a locked mutex", "mutex destroyed while %s", r.c_str()); }
    if (!dying) { usable(m, sizeof *m, "lock"); mtx.erase(m); memset(m, 0x5a, sizeof *m); } return 0;
}
#define MREAL(name, m) { static decltype(&name) r; if (!r) r = REAL(name); return r(m); }
int pthread_mutex_lock(pthread_mutex_t *m) throw() { if (!interposed()) MREAL(pthread_mutex_lock, m) return m_lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) throw() { if (!interposed()) MREAL(pthread_mutex_trylock, m) return m_lock(m, true); }
int pthread_mutex_unlock(pthread_mutex_t *m) throw() { if (!interposed()) MREAL(pthread_mutex_unlock, m) return m_unlock(m); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) throw() { return m_lock(m, false, ts_us(t, CLOCK_REALTIME)); }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) throw() {
    memset(c, 0, sizeof *c); if (interposed()) { conds.erase(c); condclock.erase(c); if (a) { clockid_t k = CLOCK_REALTIME; pthread_condattr_getclock(a, &k); if (k == CLOCK_MONOTONIC) condclock[c] = k; } } return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) throw() { if (interposed() && !dying) { if (conds.count(c) && !conds[c].empty()) { on = false; mc::fail("destroy of a waited-on condition", "condition destroyed while threads wait on it"); } usable(c, sizeof *c, "condition"); conds.erase(c); memset(c, 0x5a, sizeof *c); } return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!interposed()) { static decltype(&pthread_cond_wait) r; if (!r) r = REAL(pthread_cond_wait); return r(c, m); } return c_wait(c, m, ~0ULL); }
static uint64_t dl_of(const struct timespec *t, clockid_t k) {
    uint64_t v = (uint64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000;
    if (k == CLOCK_MONOTONIC) v += MONO_OFF; return v;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    if (!interposed()) { static decltype(&pthread_cond_timedwait) r; if (!r) r = REAL(pthread_cond_timedwait); return r(c, m, t); }
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000L) return EINVAL;
    uint64_t d = dl_of(t, condclock.count(c) ? CLOCK_MONOTONIC : CLOCK_REALTIME);
    if (d <= now_us) { int u = m_unlock(m); if (u) return u; m_lock(m, false); return ETIMEDOUT; }
    return c_wait(c, m, d);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000L) return EINVAL;
    uint64_t d = dl_of(t, k); if (d <= now_us) { m_unlock(m); m_lock(m, false); return ETIMEDOUT; } return c_wait(c, m, d);
}
int pthread_cond_signal(pthread_cond_t *c) throw() { if (!interposed()) { static decltype(&pthread_cond_signal) r; if (!r) r = REAL(pthread_cond_signal); return r(c); } return c_wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) throw() { if (!interposed()) { static decltype(&pthread_cond_broadcast) r; if (!r) r = REAL(pthread_cond_broadcast); return r(c); } return c_wake(c, true); }

int pthread_spin_init(pthread_spinlock_t *m, int) throw() { *m = 0; if (interposed()) mtx[(void *)m] = Mtx(); return 0; }
int pthread_spin_destroy(pthread_spinlock_t *m) throw() { if (interposed() && !dying) { mtx.erase((void *)m); memset((void *)m, 0x5a, sizeof *m); } return 0; }
int pthread_spin_lock(pthread_spinlock_t *m) throw() { if (!interposed()) { while (__sync_lock_test_and_set((int *)m, 1)) ; return 0; } return m_lock((void *)m, false); }
int pthread_spin_trylock(pthread_spinlock_t *m) throw() { if (!interposed()) return __sync_lock_test_and_set((int *)m, 1) ? EBUSY : 0; return m_lock((void *)m, true); }
int pthread_spin_unlock(pthread_spinlock_t *m) throw() { if (!interposed()) { __sync_lock_release((int *)m); return 0; } return m_unlock((void *)m); }

int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) throw() { memset(m, 0, sizeof *m); if (interposed()) mtx[m] = Mtx(); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *m) throw() { if (interposed() && !dying) { if (mtx.count(m) && (mtx[m].owner >= 0 || mtx[m].nr)) { on = false; mc::fail("destroy of a locked rwlock", "rwlock destroyed while held"); } usable(m, sizeof *m, "lock"); mtx.erase(m); memset(m, 0x5a, sizeof *m); } return 0; }
#define RW_REAL(name) if (!interposed()) MREAL(name, m)
static bool reads(Mtx &x) { for (size_t i = 0; i < x.readers.size(); i++) if (x.readers[i] == cur->id) return true; return false; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) throw() { RW_REAL(pthread_rwlock_rdlock) if (dying) return 0; usable(m, 8, "lock"); point(); if (mtx[m].owner == cur->id) return EDEADLK; if (mtx[m].owner >= 0) block("mutex", m, [m]() { return mtx[m].owner < 0; }); mtx[m].nr++; mtx[m].readers.push_back(cur->id); hb_acquire(m); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) throw() { RW_REAL(pthread_rwlock_tryrdlock) if (dying) return 0; usable(m, 8, "lock"); point(); if (mtx[m].owner >= 0) return EBUSY; mtx[m].nr++; mtx[m].readers.push_back(cur->id); hb_acquire(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) throw() { RW_REAL(pthread_rwlock_wrlock) if (dying) return 0; usable(m, 8, "lock"); point(); if (mtx[m].owner == cur->id) return EDEADLK; if (mtx[m].owner >= 0 || mtx[m].nr) block("mutex", m, [m]() { return mtx[m].owner < 0 && mtx[m].nr == 0; }); mtx[m].owner = cur->id; hb_acquire(m); hb_acquire((char *)m + 1); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) throw() { RW_REAL(pthread_rwlock_trywrlock) if (dying) return 0; usable(m, 8, "lock"); point(); if (mtx[m].owner >= 0 || mtx[m].nr) return EBUSY; mtx[m].owner = cur->id; hb_acquire(m); hb_acquire((char *)m + 1); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) throw() {
    RW_REAL(pthread_rwlock_unlock) if (dying) return 0; Mtx &x = mtx[m];
    if (x.owner == cur->id) { hb_release(m); x.owner = -1; }
    else if (reads(x)) { x.nr--; for (size_t i = 0; i < x.readers.size(); i++) if (x.readers[i] == cur->id) { x.readers.erase(x.readers.begin() + i); break; } hb_release((char *)m + 1); }
    else { on = false; mc::fail("unlock of a rwlock not held", "rwlock unlocked by a fiber not holding it"); }
    point(); return 0;
}
int sem_init(sem_t *s, int, unsigned v) throw() { memset(s, 0, sizeof *s); sems[s] = v; return 0; }
int sem_destroy(sem_t *s) throw() { sems.erase(s); if (!dying) memset(s, 0x5a, sizeof *s); return 0; }
int sem_post(sem_t *s) throw() { if (dying) return 0; usable(s, 8, "semaphore"); point(); hb_release(s); sems[s]++; return 0; }
int sem_wait(sem_t *s) { if (dying) throw CancelEx(); usable(s, 8, "semaphore"); point(); block("semaphore", s, [s]() { return sems[s] > 0; }, ~0ULL, true); sems[s]--; hb_acquire(s); return 0; }
int sem_trywait(sem_t *s) throw() { point(); if (sems[s] > 0) { sems[s]--; hb_acquire(s); return 0; } errno = EAGAIN; return -1; }

time_t time(time_t *t) throw() { if (!on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; } time_t v = now_us / 1000000; if (t) *t = v; return v; }
int gettimeofday(struct timeval *tv, void *) throw() { if (!on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; } tv->tv_sec = now_us / 1000000; tv->tv_usec = now_us % 1000000; return 0; }
int clock_gettime(clockid_t k, struct timespec *ts) throw() { if (!on) return syscall(SYS_clock_gettime, k, ts); uint64_t v = k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? now_us : now_us - MONO_OFF; ts->tv_sec = v / 1000000; ts->tv_nsec = v % 1000000 * 1000; return 0; }
int usleep(useconds_t us) { if (!on) { struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return syscall(SYS_nanosleep, &ts, (void *)0); } sleep_us(us); return 0; }
unsigned sleep(unsigned s) { if (!on) { struct timespec ts = { (time_t)s, 0 }; syscall(SYS_nanosleep, &ts, (void *)0); return 0; } sleep_us(s * 1000000ULL); return 0; }
int nanosleep(const struct timespec *ts, struct timespec *rem) { if (!on) return syscall(SYS_nanosleep, ts, rem); sleep_us(ts->tv_sec * 1000000ULL + ts->tv_nsec / 1000); return 0; }
int clock_nanosleep(clockid_t k, int fl, const struct timespec *ts, struct timespec *rem) { if (!on) return syscall(SYS_clock_nanosleep, k, fl, ts, rem); uint64_t v = ts->tv_sec * 1000000ULL + ts->tv_nsec / 1000; if (fl & TIMER_ABSTIME) { uint64_t n = k == CLOCK_REALTIME ? now_us : now_us - MONO_OFF; v = v > n ? v - n : 0; } sleep_us(v); return 0; }
}

// ======================================================================
// virtual kernel
// ======================================================================
namespace vk {
std::function<int(Conn *)> on_connect; std::function<long(const char *, int, size_t)> fault; std::function<void(const char *, int)> on_misuse;
std::vector<Dgram> udp_sent; int max_fds = 400; int pipe_capacity = 65536; uint64_t sigpipes;
enum Kind { K_NONE, K_SOCK, K_LISTEN, K_TCP, K_UDP, K_PIPE_R, K_PIPE_W, K_EVENT, K_EPOLL };
struct Pipe { std::string buf; bool rclosed, wclosed; };
struct Ep { struct I { uint32_t ev; epoll_data_t d; bool disarmed; }; std::map<int, I> w; std::vector<int> order; };
struct File { Kind k; bool nb; Conn *c; uint16_t port; uint32_t ip; std::deque<Conn *> pend; std::deque<Dgram> dg; Pipe *p; uint64_t cnt; bool evsem; Ep *ep; bool bound; uint32_t wakeseq; int type; uint64_t rto, sto; };
static File *T[512]; static std::vector<Conn *> C; static std::vector<Pipe *> P; static std::vector<Ep *> E; static std::vector<bool> everused;
static const int BASE = 3; static int hiwater = 511;
std::vector<Conn *> &conns() { return C; }
static bool isv(int fd) { return on && fd >= 0 && fd < 512 && T[fd]; }
void reset() {
    for (int i = 0; i <= hiwater; i++) { delete T[i]; T[i] = 0; }
    hiwater = -1;
    for (size_t i = 0; i < C.size(); i++) delete C[i]; C.clear();
    for (size_t i = 0; i < P.size(); i++) delete P[i]; P.clear();
    for (size_t i = 0; i < E.size(); i++) delete E[i]; E.clear();
    everused.assign(512, false);
    on_connect = nullptr; fault = nullptr; on_misuse = nullptr; udp_sent.clear(); max_fds = 400; pipe_capacity = 65536; sigpipes = 0;
}
static int alloc(Kind k) {
    for (int i = BASE; i < BASE + max_fds && i < 512; i++) if (!T[i]) { File *f = new File(); f->k = k; f->nb = false; f->c = 0; f->port = 0; f->ip = 0; f->p = 0; f->cnt = 0; f->ep = 0; f->bound = false; f->evsem = false; f->type = 0; T[i] = f; everused[i] = true; if (i > hiwater) hiwater = i; return i; }
    errno = EMFILE; return -1;
}
static long flt(const char *c, int fd, size_t n) { return fault ? fault(c, fd, n) : 0; }
static Conn *mkc() { Conn *c = new Conn(); c->id = C.size(); c->fd = -1; c->eof = c->rst = false; c->wnd = 1L << 40; c->connected = c->connecting = false; c->conn_err = 0; c->accepted = c->outgoing = c->app_shutdown = false; c->ip = 0; c->port = 0; c->closes = 0; c->peer_gone = false; C.push_back(c); return c; }
bool listening(uint16_t port) { for (int i = 0; i < 512; i++) if (T[i] && T[i]->k == K_LISTEN && T[i]->port == port) return true; return false; }
Conn *incoming(uint16_t port, uint32_t ip, uint16_t pp) {
    for (int i = 0; i < 512; i++) if (T[i] && T[i]->k == K_LISTEN && T[i]->port == port) { Conn *c = mkc(); c->ip = ip; c->port = pp; c->connected = true; T[i]->pend.push_back(c); return c; }
    return 0;
}
void deliver(Conn *c, const std::string &d) { if (c->closes || c->rst) return; c->in += d; }
void fin(Conn *c) { c->eof = true; }
void rst(Conn *c) { c->rst = true; c->in.clear(); c->peer_gone = true; }
void set_wnd(Conn *c, long w) { c->wnd = w; }
void complete(Conn *c, int err) { if (!c->connecting) return; c->connecting = false; if (err) c->conn_err = err; else c->connected = true; }
bool udp_deliver(uint16_t port, uint32_t ip, uint16_t pp, const std::string &d) { for (int i = 0; i < 512; i++) if (T[i] && T[i]->k == K_UDP && T[i]->bound && T[i]->port == port) { Dgram g; g.ip = ip; g.port = pp; g.data = d; T[i]->dg.push_back(g); return true; } return false; }
std::vector<int> open_fds() { std::vector<int> v; for (int i = 0; i < 512; i++) if (T[i]) v.push_back(i); return v; }
Conn *by_fd(int fd) { return fd >= 0 && fd < 512 && T[fd] ? T[fd]->c : 0; }
int open_count(const char *k) {
    Kind w = !strcmp(k, "tcp") ? K_TCP : !strcmp(k, "listen") ? K_LISTEN : !strcmp(k, "udp") ? K_UDP : !strcmp(k, "pipe") ? K_PIPE_R : !strcmp(k, "event") ? K_EVENT : !strcmp(k, "epoll") ? K_EPOLL : K_SOCK;
    int n = 0; for (int i = 0; i < 512; i++) if (T[i] && T[i]->k == w) n++; return n;
}
long raw_pending(Conn *c) { return c->in.size(); }
static uint32_t ready(int fd) {
    File *f = T[fd]; if (!f) return 0; uint32_t r = 0;
    switch (f->k) {
    case K_LISTEN: if (!f->pend.empty()) r |= EPOLLIN; break;
    case K_SOCK: r |= EPOLLOUT | EPOLLHUP; break;
    case K_TCP: { Conn *c = f->c;
        if (c->connecting) break;
        if (c->conn_err) { r |= EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP; break; }
        if (!c->connected) { r |= EPOLLOUT | EPOLLHUP; break; }
        if (!c->in.empty() || c->eof || c->rst) r |= EPOLLIN;
        if (c->rst) r |= EPOLLERR | EPOLLHUP | EPOLLOUT;
        if (c->eof) r |= EPOLLRDHUP;
        if (c->wnd > 0) r |= EPOLLOUT;
        break; }
    case K_UDP: if (!f->dg.empty()) r |= EPOLLIN; r |= EPOLLOUT; break;
    case K_PIPE_R: if (!f->p->buf.empty()) r |= EPOLLIN; if (f->p->wclosed) r |= EPOLLHUP; break;
    case K_PIPE_W: if ((int)f->p->buf.size() < pipe_capacity) r |= EPOLLOUT; if (f->p->rclosed) r |= EPOLLERR; break;
    case K_EVENT: if (f->cnt) r |= EPOLLIN; r |= EPOLLOUT; break;
    default: break;
    }
    return r;
}
uint32_t fd_ready(int fd) { return isv(fd) ? ready(fd) : 0; }
bool is_open(int fd) { return isv(fd); }
bool is_nonblock(int fd) { return isv(fd) && T[fd]->nb; }
static bool any_ready(Ep *e) { for (std::map<int, Ep::I>::iterator i = e->w.begin(); i != e->w.end(); ++i) if (!i->second.disarmed && (ready(i->first) & (i->second.ev | EPOLLERR | EPOLLHUP))) return true; return false; }
static int bad(const char *w, int fd) { if (on_misuse) on_misuse(w, fd); errno = EBADF; return -1; }
static bool mine(int fd) { return on && fd >= BASE && fd < 512; }   // the virtual descriptor range
static int setaddr(struct sockaddr *a, socklen_t *l, uint32_t ip, uint16_t port) { if (!a || !l) return 0; struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(ip); s.sin_port = htons(port); memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s; return 0; }
static int vclose(int fd) {
    File *f = T[fd]; if (!f) return bad("close", fd);
    long e = flt("close", fd, 0);
    if (f->k == K_TCP && f->c) { f->c->fd = -1; f->c->closes++; }
    if (f->k == K_LISTEN) for (size_t i = 0; i < f->pend.size(); i++) f->pend[i]->closes++;
    if (f->k == K_PIPE_R) f->p->rclosed = true; if (f->k == K_PIPE_W) f->p->wclosed = true;
    for (size_t i = 0; i < E.size(); i++) { E[i]->w.erase(fd); E[i]->order.erase(std::remove(E[i]->order.begin(), E[i]->order.end(), fd), E[i]->order.end()); }
    delete f; T[fd] = 0;
    if (e < 0) { errno = -e; return -1; }
    return 0;
}
static ssize_t vrecv(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *al, const char *call) {
    for (;;) {
        File *f = T[fd]; if (!f) return bad(call, fd);
        if (n == 0 && f->k == K_TCP) return 0;
        if (f->k == K_TCP) {
            Conn *c = f->c;
            if (c->conn_err) { errno = c->conn_err; c->conn_err = 0; c->peer_gone = true; c->eof = true; c->connected = true; return -1; }
            if (c->connecting) { errno = EAGAIN; if (f->nb || (flags & MSG_DONTWAIT)) return -1; }
            else if (!c->connected) { errno = ENOTCONN; return -1; }
            else if (c->rst) { c->rst = false; c->eof = true; errno = ECONNRESET; return -1; }
            else if (!c->in.empty()) {
                long e = flt("recv", fd, n < c->in.size() ? n : c->in.size()); if (e < 0) { errno = -e; return -1; }
                size_t k = n < c->in.size() ? n : c->in.size(); if (e > 0 && (size_t)e < k) k = e;
                memcpy(b, c->in.data(), k); if (!(flags & MSG_PEEK)) c->in.erase(0, k); return k;
            } else if (c->eof) return 0;
            else if (f->nb || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
            if (quietn) { errno = EAGAIN; return -1; }
            if (!block("recv", 0, [fd]() { return !T[fd] || (ready(fd) & (EPOLLIN | EPOLLHUP)); }, f->rto ? now_us + f->rto : ~0ULL, true)) { errno = EAGAIN; return -1; }
            continue;
        }
        if (f->k == K_UDP) {
            if (f->dg.empty()) { if (f->nb || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; } if (!block("recvfrom", 0, [fd]() { return !T[fd] || !T[fd]->dg.empty(); }, f->rto ? now_us + f->rto : ~0ULL, true)) { errno = EAGAIN; return -1; } continue; }
            long e = flt("recvfrom", fd, n); if (e < 0) { errno = -e; return -1; }
            Dgram g = f->dg.front(); f->dg.pop_front(); size_t k = g.data.size() < n ? g.data.size() : n; memcpy(b, g.data.data(), k); setaddr(a, al, g.ip, g.port); return k;
        }
        if (f->k == K_PIPE_R) {
            if (f->p->buf.empty()) { if (f->p->wclosed) return 0; if (f->nb) { errno = EAGAIN; return -1; } block("pipe read", 0, [fd]() { return !T[fd] || !T[fd]->p->buf.empty() || T[fd]->p->wclosed; }, ~0ULL, true); continue; }
            long e = flt("read", fd, n); if (e < 0) { errno = -e; return -1; }
            size_t k = f->p->buf.size() < n ? f->p->buf.size() : n; if (e > 0 && (size_t)e < k) k = e; memcpy(b, f->p->buf.data(), k); f->p->buf.erase(0, k); hb_acquire(f->p); return k;
        }
        if (f->k == K_EVENT) {
            if (n < 8) { errno = EINVAL; return -1; }
            if (!f->cnt) { if (f->nb) { errno = EAGAIN; return -1; } block("eventfd read", 0, [fd]() { return !T[fd] || T[fd]->cnt; }, ~0ULL, true); continue; }
            uint64_t v = f->evsem ? 1 : f->cnt; f->cnt -= v; memcpy(b, &v, 8); hb_acquire(f); return 8;
        }
        errno = f->k == K_SOCK ? ENOTCONN : EINVAL; return -1;
    }
}
static void sigpipe(int flags) {
    if (flags & MSG_NOSIGNAL) return;
    struct sigaction sa; if (sigaction(SIGPIPE, 0, &sa) == 0 && sa.sa_handler == SIG_DFL) sigpipes++;
}
static ssize_t vsend(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t al, const char *call) {
    for (;;) {
        File *f = T[fd]; if (!f) return bad(call, fd);
        if (f->k == K_TCP) {
            Conn *c = f->c;
            if (c->connecting) { errno = EAGAIN; if (f->nb) return -1; block("send", 0, [fd]() { return !T[fd] || !T[fd]->c->connecting; }); continue; }
            if (c->conn_err) { errno = c->conn_err; return -1; }
            if (!c->connected) { sigpipe(flags); errno = ENOTCONN; return -1; }
            if (c->rst) { c->rst = false; c->eof = true; errno = ECONNRESET; return -1; }
            if (c->peer_gone) { sigpipe(flags); errno = EPIPE; return -1; }
            if (n == 0) return 0;
            long e = flt("send", fd, n);
            f = T[fd]; if (e < 0) { if (e == -EPIPE) sigpipe(flags); errno = -e; return -1; }
            long k = n; if (e > 0 && e < k) k = e; if (k > c->wnd) k = c->wnd;
            if (k <= 0) { if (f->nb || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; } if (quietn) { errno = EAGAIN; return -1; } if (!block("send", 0, [fd]() { return !T[fd] || (ready(fd) & (EPOLLOUT | EPOLLERR)); }, f->sto ? now_us + f->sto : ~0ULL, true)) { errno = EAGAIN; return -1; } continue; }
            c->sent.append((const char *)b, k); c->wnd -= k; return k;
        }
        if (f->k == K_UDP) {
            long e = flt("sendto", fd, n); if (e < 0) { errno = -e; return -1; }
            Dgram g; g.ip = 0; g.port = 0; if (a && al >= sizeof(struct sockaddr_in)) { const struct sockaddr_in *s = (const struct sockaddr_in *)a; g.ip = ntohl(s->sin_addr.s_addr); g.port = ntohs(s->sin_port); } else if (f->c) { g.ip = f->c->ip; g.port = f->c->port; } else { errno = EDESTADDRREQ; return -1; }
            g.data.assign((const char *)b, n); udp_sent.push_back(g); return n;
        }
        if (f->k == K_PIPE_W) {
            if (f->p->rclosed) { sigpipe(0); errno = EPIPE; return -1; }
            long e = flt("write", fd, n); if (e < 0) { errno = -e; return -1; }
            if ((int)(f->p->buf.size() + n) > pipe_capacity) { if (f->nb) { errno = EAGAIN; return -1; } block("pipe write", 0, [fd, n]() { return !T[fd] || (int)(T[fd]->p->buf.size() + n) <= pipe_capacity; }, ~0ULL, true); continue; }
            f->p->buf.append((const char *)b, n); hb_release(f->p); return n;
        }
        if (f->k == K_EVENT) { long e = flt("write", fd, n); if (e < 0) { errno = -e; return -1; } uint64_t v; if (n < 8) { errno = EINVAL; return -1; } memcpy(&v, b, 8); f->cnt += v; hb_release(f); return 8; }
        sigpipe(flags); errno = f->k == K_SOCK ? EPIPE : EINVAL; return -1;
    }
}
}
using namespace vk;
namespace rt { int file_faults = 0; }
namespace vk { std::vector<uint32_t> ifaces; uint32_t udp_addr(uint16_t port) { for (int i = 0; i < 512; i++) if (T[i] && T[i]->k == K_UDP && T[i]->bound && T[i]->port == port) return T[i]->ip; return 0; } }
extern "C" {
int epoll_create1(int fl) throw() { if (!on) return syscall(SYS_epoll_create1, fl); long e = flt("epoll_create", -1, 0); if (e < 0) { errno = -e; return -1; } int fd = alloc(K_EPOLL); if (fd >= 0) { T[fd]->ep = new Ep(); E.push_back(T[fd]->ep); } return fd; }
int epoll_create(int n) throw() { if (n <= 0) { errno = EINVAL; return -1; } return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) throw() {
    if (!on) return syscall(SYS_epoll_ctl, ep, op, fd, ev);
    if (!isv(ep) || T[ep]->k != K_EPOLL) { errno = EBADF; return -1; }
    if (!isv(fd)) { errno = EBADF; return -1; }
    Ep *e = T[ep]->ep; bool has = e->w.count(fd);
    if (op == EPOLL_CTL_ADD && has) { errno = EEXIST; return -1; }
    if (op != EPOLL_CTL_ADD && !has) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_ADD) { long x = flt("epoll_ctl", fd, op); if (x < 0) { errno = -x; return -1; } }
    point();
    if (op == EPOLL_CTL_DEL) { e->w.erase(fd); e->order.erase(std::remove(e->order.begin(), e->order.end(), fd), e->order.end()); return 0; }
    Ep::I i; i.ev = ev->events; i.d = ev->data; i.disarmed = false; e->w[fd] = i; if (!has) e->order.push_back(fd);
    return 0;
}
int epoll_wait(int ep, struct epoll_event *evs, int max, int to) {
    if (!on) return syscall(SYS_epoll_pwait, ep, evs, max, to, (void *)0, 8);
    if (!isv(ep) || T[ep]->k != K_EPOLL) { errno = EBADF; return -1; }
    Ep *e = T[ep]->ep;
    long x = flt("epoll_wait", ep, 0); if (x < 0) { errno = -x; return -1; }
    point();
    if (!any_ready(e)) { if (to == 0) return 0; block("epoll_wait", e, [e]() { return any_ready(e); }, to < 0 ? ~0ULL : now_us + (uint64_t)to * 1000, true); }
    int n = 0; std::vector<int> got, rest;
    for (size_t k = 0; k < e->order.size(); k++) { int fd = e->order[k]; Ep::I &i = e->w[fd]; uint32_t r = i.disarmed ? 0 : ready(fd) & (i.ev | EPOLLERR | EPOLLHUP); if (r && n < max) { evs[n].events = r; evs[n].data = i.d; n++; got.push_back(fd); if (i.ev & EPOLLONESHOT) i.disarmed = true; } else rest.push_back(fd); }
    rest.insert(rest.end(), got.begin(), got.end()); e->order = rest;   // level-triggered round robin
    return n;
}
int epoll_pwait(int ep, struct epoll_event *evs, int max, int to, const sigset_t *) { return epoll_wait(ep, evs, max, to); }
int pipe2(int fd[2], int fl) throw() { if (!on) return syscall(SYS_pipe2, fd, fl); long e = flt("pipe", -1, 0); if (e < 0) { errno = -e; return -1; } int a = alloc(K_PIPE_R); if (a < 0) return -1; int b = alloc(K_PIPE_W); if (b < 0) { vclose(a); errno = EMFILE; return -1; } Pipe *p = new Pipe(); p->rclosed = p->wclosed = false; P.push_back(p); T[a]->p = T[b]->p = p; T[a]->nb = T[b]->nb = (fl & O_NONBLOCK) != 0; fd[0] = a; fd[1] = b; return 0; }
int pipe(int fd[2]) throw() { return pipe2(fd, 0); }
int eventfd(unsigned v, int fl) throw() { if (!on) return syscall(SYS_eventfd2, v, fl); long e = flt("eventfd", -1, 0); if (e < 0) { errno = -e; return -1; } int fd = alloc(K_EVENT); if (fd >= 0) { T[fd]->cnt = v; T[fd]->nb = (fl & O_NONBLOCK) != 0; T[fd]->evsem = fl & 1; } return fd; }
int socket(int d, int t, int p) throw() { if (!on) return syscall(SYS_socket, d, t, p); long e = flt("socket", -1, 0); if (e < 0) { errno = -e; return -1; } int ty = t & 0xf; int fd = alloc(ty == SOCK_DGRAM ? K_UDP : K_SOCK); if (fd >= 0) { T[fd]->nb = (t & SOCK_NONBLOCK) != 0; T[fd]->type = ty; } return fd; }
int bind(int fd, const struct sockaddr *a, socklen_t l) throw() { if (!mine(fd)) return syscall(SYS_bind, fd, a, l); if (!isv(fd)) return bad("bind", fd); long e = flt("bind", fd, 0); if (e < 0) { errno = -e; return -1; } const struct sockaddr_in *s = (const struct sockaddr_in *)a; uint16_t p = ntohs(s->sin_port); if (!p) p = 40000 + fd; for (int i = 0; i < 512; i++) if (i != fd && T[i] && T[i]->bound && T[i]->port == p && (T[i]->k == K_UDP) == (T[fd]->k == K_UDP)) { errno = EADDRINUSE; return -1; } T[fd]->port = p; T[fd]->ip = ntohl(s->sin_addr.s_addr); T[fd]->bound = true; return 0; }
int listen(int fd, int n) throw() { if (!mine(fd)) return syscall(SYS_listen, fd, n); if (!isv(fd)) return bad("listen", fd); long e = flt("listen", fd, 0); if (e < 0) { errno = -e; return -1; } T[fd]->k = K_LISTEN; return 0; }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    if (!mine(fd)) return syscall(SYS_accept4, fd, a, l, fl);
    for (;;) {
        if (!isv(fd)) return bad("accept", fd);
        File *f = T[fd]; if (f->k != K_LISTEN) { errno = EINVAL; return -1; }
        if (f->pend.empty()) { if (f->nb) { errno = EAGAIN; return -1; } if (quietn) { errno = EAGAIN; return -1; } block("accept", 0, [fd]() { return !T[fd] || !T[fd]->pend.empty(); }, ~0ULL, true); continue; }
        long e = flt("accept", fd, 0); if (e < 0) { if (e == -ECONNABORTED) { f->pend.front()->closes++; f->pend.pop_front(); } errno = -e; return -1; }
        int n = alloc(K_TCP); if (n < 0) return -1;
        Conn *c = f->pend.front(); f->pend.pop_front(); c->fd = n; c->accepted = true; T[n]->c = c; T[n]->nb = (fl & SOCK_NONBLOCK) != 0; setaddr(a, l, c->ip, c->port); return n;
    }
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    if (!mine(fd)) return syscall(SYS_connect, fd, a, l);
    if (!isv(fd)) return bad("connect", fd);
    File *f = T[fd]; const struct sockaddr_in *s = (const struct sockaddr_in *)a;
    if (f->k == K_UDP) { if (!f->c) { f->c = mkc(); } f->c->ip = ntohl(s->sin_addr.s_addr); f->c->port = ntohs(s->sin_port); return 0; }
    if (f->k == K_TCP) { if (f->c->connecting) { errno = EALREADY; return -1; } if (f->c->connected) { errno = EISCONN; return -1; } }
    Conn *c = mkc(); c->outgoing = true; c->ip = ntohl(s->sin_addr.s_addr); c->port = ntohs(s->sin_port); c->fd = fd; f->k = K_TCP; f->c = c;
    int r = on_connect ? on_connect(c) : ECONNREFUSED;
    if (r == 0) { c->connected = true; return 0; }
    if (r == EINPROGRESS) { c->connecting = true; if (f->nb) { errno = EINPROGRESS; return -1; } block("connect", 0, [c]() { return !c->connecting; }, ~0ULL, true); if (c->conn_err) { errno = c->conn_err; c->conn_err = 0; c->connected = false; T[fd]->k = K_SOCK; T[fd]->c = 0; return -1; } return 0; }
    f->k = K_SOCK; f->c = 0; c->fd = -1; c->closes++; errno = r; return -1;
}
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { if (!mine(fd)) return syscall(SYS_recvfrom, fd, b, n, fl, a, l); if (!isv(fd)) return bad("recv", fd); point(); return vrecv(fd, b, n, fl, a, l, "recv"); }
ssize_t recv(int fd, void *b, size_t n, int fl) { return recvfrom(fd, b, n, fl, 0, 0); }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { if (!mine(fd)) return syscall(SYS_sendto, fd, b, n, fl, a, l); if (!isv(fd)) return bad("send", fd); point(); return vsend(fd, b, n, fl, a, l, "send"); }
ssize_t send(int fd, const void *b, size_t n, int fl) { return sendto(fd, b, n, fl, 0, 0); }
ssize_t read(int fd, void *b, size_t n) { if (!mine(fd)) return syscall(SYS_read, fd, b, n); if (!isv(fd)) { if (!everused[fd]) return syscall(SYS_read, fd, b, n); return bad("read", fd); } point(); return vrecv(fd, b, n, 0, 0, 0, "read"); }
ssize_t write(int fd, const void *b, size_t n) { if (file_faults > 0 && fd > 2 && !isv(fd)) { file_faults--; errno = ENOSPC; return -1; } if (!mine(fd)) return syscall(SYS_write, fd, b, n); if (!isv(fd)) { if (!everused[fd]) return syscall(SYS_write, fd, b, n); return bad("write", fd); } point(); return vsend(fd, b, n, 0, 0, 0, "write"); }
ssize_t writev(int fd, const struct iovec *v, int c) { if (file_faults > 0 && fd > 2 && !isv(fd)) { file_faults--; errno = ENOSPC; return -1; } if (!mine(fd) || !isv(fd)) return syscall(SYS_writev, fd, v, c); std::string s; for (int i = 0; i < c; i++) s.append((char *)v[i].iov_base, v[i].iov_len); point(); return vsend(fd, s.data(), s.size(), 0, 0, 0, "write"); }
ssize_t readv(int fd, const struct iovec *v, int c) { if (!mine(fd) || !isv(fd)) return syscall(SYS_readv, fd, v, c); ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = vrecv(fd, v[i].iov_base, v[i].iov_len, 0, 0, 0, "read"); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; if (!(ready(fd) & EPOLLIN)) break; } return t; }
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) { if (!mine(fd) || !isv(fd)) return syscall(SYS_sendmsg, fd, m, fl); std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); point(); return vsend(fd, s.data(), s.size(), fl, (struct sockaddr *)m->msg_name, m->msg_namelen, "send"); }
int close(int fd) { if (!mine(fd)) { if (on && fd < 0) { errno = EBADF; return -1; } if (on && fd >= 0 && fd < BASE) { if (on_misuse) on_misuse("close of standard descriptor", fd); return 0; } return syscall(SYS_close, fd); } if (!T[fd]) { if (!everused[fd]) { long r = syscall(SYS_close, fd); if (r == 0) return 0; } return bad("close", fd); } point(); return vclose(fd); }
int shutdown(int fd, int how) throw() { if (!isv(fd)) return syscall(SYS_shutdown, fd, how); if (T[fd]->c) T[fd]->c->app_shutdown = true; return 0; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (!isv(fd)) return syscall(SYS_fcntl, fd, cmd, a); if (cmd == F_GETFL) return O_RDWR | (T[fd]->nb ? O_NONBLOCK : 0); if (cmd == F_SETFL) { T[fd]->nb = (a & O_NONBLOCK) != 0; return 0; } return 0; }
int ioctl(int fd, unsigned long rq, ...) throw() { va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap); if (!isv(fd)) return syscall(SYS_ioctl, fd, rq, a); if (rq == FIONBIO) { T[fd]->nb = *(int *)a != 0; return 0; } if (rq == SIOCGIFNAME) { struct ifreq *q = (struct ifreq *)a; int i = q->ifr_ifindex; if (i < 1 || i > (int)ifaces.size()) { errno = ENODEV; return -1; } snprintf(q->ifr_name, sizeof q->ifr_name, "if%d", i); return 0; } if (rq == SIOCGIFADDR) { struct ifreq *q = (struct ifreq *)a; int i = atoi(q->ifr_name + 2); if (i < 1 || i > (int)ifaces.size() || !ifaces[i - 1]) { errno = EADDRNOTAVAIL; return -1; } struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(ifaces[i - 1]); memcpy(&q->ifr_addr, &sa, sizeof q->ifr_addr); return 0; } if (rq == FIONREAD) { *(int *)a = T[fd]->c ? T[fd]->c->in.size() : 0; return 0; } errno = EINVAL; return -1; }
int getsockopt(int fd, int lv, int o, void *v, socklen_t *l) throw() { if (!isv(fd)) return syscall(SYS_getsockopt, fd, lv, o, v, l); if (lv == SOL_SOCKET && o == SO_ERROR) { int e = 0; if (T[fd]->k == K_TCP) { Conn *c = T[fd]->c; e = c->conn_err; c->conn_err = 0; if (!e && c->rst) { e = ECONNRESET; c->rst = false; c->eof = true; } } *(int *)v = e; *l = sizeof(int); return 0; } if (v && l && *l >= sizeof(int)) *(int *)v = 65536; return 0; }
int setsockopt(int fd, int lv, int o, const void *v, socklen_t l) throw() { if (!isv(fd)) { if (mine(fd)) { errno = EBADF; return -1; } return syscall(SYS_setsockopt, fd, lv, o, v, l); } if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) && l >= sizeof(struct timeval)) { const struct timeval *tv = (const struct timeval *)v; (o == SO_RCVTIMEO ? T[fd]->rto : T[fd]->sto) = tv->tv_sec * 1000000ULL + tv->tv_usec; } return 0; }
int getsockname(int fd, struct sockaddr *a, socklen_t *l) throw() { if (!isv(fd)) return syscall(SYS_getsockname, fd, a, l); return setaddr(a, l, 0x7f000001, T[fd]->port); }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) throw() { if (!isv(fd)) return syscall(SYS_getpeername, fd, a, l); if (!T[fd]->c) { errno = ENOTCONN; return -1; } return setaddr(a, l, T[fd]->c->ip, T[fd]->c->port); }
static int vpoll(struct pollfd *p, nfds_t n) { int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; if (!isv(p[i].fd)) { p[i].revents = POLLNVAL; k++; continue; } uint32_t r = ready(p[i].fd); short e = 0; if (r & EPOLLIN) e |= POLLIN; if (r & EPOLLOUT) e |= POLLOUT; if (r & EPOLLERR) e |= POLLERR; if (r & EPOLLHUP) e |= POLLHUP; p[i].revents = e & (p[i].events | POLLERR | POLLHUP); if (p[i].revents) k++; } return k; }
int poll(struct pollfd *p, nfds_t n, int to) {
    if (!on) { struct timespec ts = { to / 1000, (to % 1000) * 1000000L }; return syscall(SYS_ppoll, p, n, to < 0 ? (void *)0 : (void *)&ts, (void *)0, 8); }
    point(); long e = flt("poll", -1, 0); if (e < 0) { errno = -e; return -1; }
    int k = vpoll(p, n); if (k || to == 0) return k;
    block("poll", 0, [p, n]() { return vpoll(p, n) > 0; }, to < 0 ? ~0ULL : now_us + (uint64_t)to * 1000, true); return vpoll(p, n);
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    if (!on) return syscall(SYS_select, n, r, w, x, tv);
    point(); long fe = flt("select", -1, 0); if (fe < 0) { errno = -fe; return -1; }
    std::vector<int> rf, wf, xf; for (int i = 0; i < n; i++) { if (r && FD_ISSET(i, r)) rf.push_back(i); if (w && FD_ISSET(i, w)) wf.push_back(i); if (x && FD_ISSET(i, x)) xf.push_back(i); }
    for (size_t i = 0; i < rf.size(); i++) if (!isv(rf[i])) { errno = EBADF; return -1; }
    for (size_t i = 0; i < wf.size(); i++) if (!isv(wf[i])) { errno = EBADF; return -1; }
    auto any = [&]() { for (size_t i = 0; i < rf.size(); i++) if (ready(rf[i]) & (EPOLLIN | EPOLLHUP | EPOLLERR)) return true; for (size_t i = 0; i < wf.size(); i++) if (ready(wf[i]) & (EPOLLOUT | EPOLLERR)) return true; return false; };
    if (!any()) { if (!tv || tv->tv_sec || tv->tv_usec) block("select", 0, any, tv ? now_us + tv->tv_sec * 1000000ULL + tv->tv_usec : ~0ULL, true); }
    int k = 0; if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x);
    for (size_t i = 0; i < rf.size(); i++) if (ready(rf[i]) & (EPOLLIN | EPOLLHUP | EPOLLERR)) { FD_SET(rf[i], r); k++; }
    for (size_t i = 0; i < wf.size(); i++) if (ready(wf[i]) & (EPOLLOUT | EPOLLERR)) { FD_SET(wf[i], w); k++; }
    return k;
}
}

#ifdef MC_MEM
// freed memory starts a new life: forget its access history
namespace rt { void forget(const void *p, size_t n); }
extern "C" void __libc_free(void *);
#include <malloc.h>
extern "C" void free(void *p) throw() { if (p && on) rt::forget(p, malloc_usable_size(p)); __libc_free(p); }
#endif
// ======================================================================
// instrumented memory accesses
// ======================================================================
namespace rt {
std::function<void(const void *, size_t)> before_write;
struct Range { uintptr_t a, b; };
static std::vector<Range> watched, ignored; static bool racing, heapwatch;
struct Rec { int t; uint32_t c; uint8_t mask; bool w; void *pc; };
struct Sh { std::vector<Rec> r; int first; bool shared; Sh() : first(0), shared(false) {} };
static std::map<uintptr_t, Sh> shadow;
void watch(const void *p, size_t n) { Range r = { (uintptr_t)p, (uintptr_t)p + n }; watched.push_back(r); }
void watch_heap(bool b) { heapwatch = b; }
void race_detect(bool b) { racing = b; }
void race_ignore(const void *p, size_t n) { Range r = { (uintptr_t)p, (uintptr_t)p + n }; ignored.push_back(r); }
void mem_reset() { watched.clear(); ignored.clear(); racing = heapwatch = false; std::map<uintptr_t, Sh> old; old.swap(shadow); before_write = nullptr; } // (old is freed while shadow is empty: free() calls forget())
void forget(const void *p, size_t n) { static bool busy; if (busy || shadow.empty()) return; busy = true; quietn++; shadow.erase(shadow.lower_bound((uintptr_t)p & ~7ULL), shadow.lower_bound((uintptr_t)p + n)); quietn--; busy = false; }
static bool in(const std::vector<Range> &v, uintptr_t p, size_t n) { for (size_t i = 0; i < v.size(); i++) if (p < v[i].b && p + n > v[i].a) return true; return false; }
static bool onstack(uintptr_t p) { if (cur->stack) return p >= (uintptr_t)cur->stack && p < (uintptr_t)cur->stack + cur->ssz; char x; uintptr_t s = (uintptr_t)&x; return p + 8192 > s && p < s + 8 * 1024 * 1024; }
static std::string where(void *pc) {
    if (!pc) return "-";
    Dl_info d; if (!dladdr(pc, &d)) return "?";
    int st; std::string r; if (d.dli_sname) { char *dm = abi::__cxa_demangle(d.dli_sname, 0, 0, &st); r = dm ? dm : d.dli_sname; r = r.substr(0, r.find('(')); }
    return r + mc::strf("@%lx", (unsigned long)((char *)pc - (char *)d.dli_fbase));
}
void mem_access(const void *pp, size_t n, bool w, bool atomic, void *pc) {
    if (!on || quietn || dying || !cur) return;
    uintptr_t p = (uintptr_t)pp;
    if (!watched.empty() && in(watched, p, n)) { if (w && before_write) { quietn++; before_write(pp, n); quietn--; } point(); }
    if ((!racing && !heapwatch) || F.size() < 2 || onstack(p) || (uintptr_t)__builtin_thread_pointer() - p < 16384) return; // fibers share their thread's thread_locals
    if (heapwatch && !atomic) { Sh &s = shadow[p & ~7ULL]; if (!s.shared) { if (s.first == 0) s.first = cur->id + 1; else if (s.first != cur->id + 1) s.shared = true; } if (s.shared) point(); }
    if (!racing || atomic || in(ignored, p, n)) return;
    for (uintptr_t a = p & ~7ULL; a < p + n; a += 8) {
        uint8_t mask = 0; for (int b = 0; b < 8; b++) if (a + b >= p && a + b < p + n) mask |= 1 << b;
        std::vector<Rec> &v = shadow[a].r; size_t o = 0;
        for (size_t i = 0; i < v.size(); i++) {
            Rec &x = v[i];
            bool hb = x.t == cur->id || (cur->vc.size() > (size_t)x.t && cur->vc[x.t] >= x.c);
            if (!hb && (x.mask & mask) && (w || x.w)) {
                on = false; void *xpc = x.pc; bool xw = x.w; int xt = x.t;
                mc::fail("data race", "unsynchronised accesses: thread %d %s in %s, then thread %d %s in %s", xt, xw ? "writes" : "reads", where(xpc).c_str(), cur->id, w ? "writes" : "reads", where(pc).c_str());
            }
            if (hb && !(x.mask & ~mask) && (w || (!x.w && x.t == cur->id))) continue;   // superseded
            v[o++] = x;
        }
        v.resize(o); Rec r = { cur->id, cur->vc[cur->id], mask, w, pc }; v.push_back(r);
    }
}
}
