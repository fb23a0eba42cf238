// Lock wrappers and condition variable.
#include <string>
#include <unistd.h>
#include <time.h>
#include <stdlib.h>
#include <string.h>
#include <new>
#include "CLock.h"
#include "mcrt.h"
#include "mc.h"
using namespace lce;
static int inside, readers, writers, ndone; static long shared_, copy_;
static void dead() { rt::set_deadlock([]() { std::string b = rt::blocked_report(); mc::fail("lock:deadlock", "an operation never completes\n%s", b.c_str()); }); }
// a lock in memory that held something else before, as on the heap
template <class L> struct Used { char *p; L *l; Used() { rt::Quiet z; p = (char *)malloc(sizeof(L)); memset(p, 0xbe, sizeof(L)); l = new (p) L; } ~Used() { l->~L(); rt::Quiet z; free(p); } };
template <class L> static void excl(bool autolock, bool tryer) {
    rt::begin(); rt::race_detect(true); dead(); Used<L> l_; L &l = *l_.l; inside = 0; shared_ = 0; mc::nontrivial(); mc::set_deviations(mc::tier(3, 4)); std::vector<int> t; int n = 3;
    static int tried; tried = 0;
    for (int i = 0; i < n; i++) t.push_back(rt::spawn([&l, i, autolock, tryer]() {
        auto crit = [&]() { { rt::Quiet z; mc::op("thread %d in", rt::self()); mc::step(); MC_CHECK(++inside == 1, "lock:not exclusive", "two threads inside"); } long v = shared_; rt::yield(); shared_ = v + 1; { rt::Quiet z; inside--; mc::op("thread %d out", rt::self()); } };
        if (tryer && i == 0) { bool busy; { rt::Quiet z; busy = inside > 0; } bool r = l.tryLock(); if (r) { crit(); if (!l.unlock()) mc::fail("lock:unlock", "unlock fails"); } else { rt::Quiet z; tried++; } }
        else if (autolock) { try { CAutoLock g(l); crit(); if (i == 1) throw 1; } catch (int) {} }
        else { if (!l.lock()) mc::fail("lock:lock", "lock fails"); crit(); if (!l.unlock()) mc::fail("lock:unlock", "unlock fails"); }
    }, "t"));
    for (int i = 0; i < n; i++) rt::join(t[i]);
    MC_CHECK(shared_ == n - tried, "lock:not exclusive", "counter %ld of %d", shared_, n - tried);
    MC_CHECK(l.tryLock(), "lock:left locked", "the lock is still held"); { int r = -1; int x = rt::spawn([&]() { bool b = l.tryLock(); rt::Quiet z; r = b; }, "x"); rt::join(x); MC_CHECK(r == 0, "lock:trylock", "tryLock takes a held lock"); } l.unlock();
    rt::end();
}
static void s_mutex() { int a = mc::choose(2), t = mc::choose(2); excl<CMutex>(a, t); }
static void s_spin() { int a = mc::choose(2), t = mc::choose(2); excl<CSpinLock>(a, t); }
static void s_rw() {
    rt::begin(); rt::race_detect(true); dead(); static CReadWriteLock *l; Used<CReadWriteLock> L_; CReadWriteLock &L = *L_.l; l = &L; readers = writers = 0; shared_ = copy_ = 0; mc::nontrivial(); mc::set_deviations(mc::tier(2, 3)); static int maxr; maxr = 0; static int order[3]; for (int i = 0; i < 3; i++) order[i] = mc::choose(4);
    std::vector<int> t; for (int i = 0; i < 3; i++) t.push_back(rt::spawn([i]() {
        int k = order[i]; bool rd = k == 0 || k == 2, tr = k >= 2; bool r = rd ? (tr ? l->tryReadLock() : l->readLock()) : (tr ? l->tryWriteLock() : l->writeLock());
        if (!r) { if (!tr) mc::fail("rwlock:lock", "a blocking lock fails"); return; }
        { rt::Quiet z; mc::op("thread %d %s", rt::self(), rd ? "reads" : "writes"); mc::step(); (rd ? readers : writers)++; if (readers > maxr) maxr = readers; MC_CHECK(writers <= 1 && !(writers && readers), "rwlock:not exclusive", "%d readers and %d writers inside", readers, writers); }
        if (rd) { long a = shared_; rt::yield(); if (a != copy_) mc::fail("rwlock:torn read", "reader sees %ld/%ld", a, copy_); } else { shared_++; rt::yield(); copy_++; }
        { rt::Quiet z; (rd ? readers : writers)--; mc::op("thread %d done", rt::self()); } if (!l->unlock()) mc::fail("rwlock:unlock", "unlock fails");
    }, "t"));
    for (int i = 0; i < 3; i++) rt::join(t[i]);
    MC_CHECK(L.tryWriteLock(), "rwlock:left locked", "the lock is still held"); MC_CHECK(L.unlock(), "rwlock:unlock", "unlock fails");
    MC_CHECK(L.readLock() && L.tryReadLock(), "rwlock:not shared", "two readers exclude each other"); MC_CHECK(!L.tryWriteLock(), "rwlock:not exclusive", "writer enters beside readers"); L.unlock(); { int r = -1; int x = rt::spawn([&]() { bool b = l->tryWriteLock(); rt::Quiet z; r = b; }, "x"); rt::join(x); MC_CHECK(r == 0, "rwlock:not exclusive", "writer enters beside a reader"); } L.unlock();
    MC_CHECK(L.writeLock(), "rwlock:lock", "writeLock fails"); { int r = -1; int x = rt::spawn([&]() { bool b = l->tryReadLock(); rt::Quiet z; r = b; }, "x"); rt::join(x); MC_CHECK(r == 0, "rwlock:not exclusive", "reader enters beside a writer"); } L.unlock();
    rt::end();
}
// waiting for a predicate: every signal reaches a waiter, the mutex is held on return
static void s_cond() {
    rt::begin(); rt::race_detect(true); dead(); static CMutex *m; static Condition *c; Used<CMutex> M_; Used<Condition> C_; CMutex &M = *M_.l; Condition &C = *C_.l; m = &M; c = &C; static int ready; ready = 0; static bool bc; bc = mc::choose(2); int nw = 1 + mc::choose(2); mc::nontrivial(); rt::spurious(true); mc::set_deviations(mc::tier(2, 3)); inside = 0;
    std::vector<int> t; for (int i = 0; i < nw; i++) t.push_back(rt::spawn([]() { m->lock(); while (ready == 0) { if (!c->wait(*m)) mc::fail("cond:wait", "wait fails"); { rt::Quiet z; MC_CHECK(inside == 0, "cond:mutex not held", "wait returns without the mutex"); inside++; } rt::yield(); { rt::Quiet z; inside--; } } if (!bc) ready--; m->unlock(); { rt::Quiet z; mc::op("waiter %d proceeds", rt::self()); mc::step(); } }, "waiter"));
    t.push_back(rt::spawn([nw]() { for (int i = 0; i < (bc ? 1 : nw); i++) { m->lock(); { rt::Quiet z; MC_CHECK(inside == 0, "cond:mutex not held", "a waiter runs without the mutex"); inside++; } rt::yield(); ready++; { rt::Quiet z; inside--; } m->unlock(); if (!(bc ? c->broadcast() : c->signal())) mc::fail("cond:signal", "signal fails"); } }, "signaller"));
    for (size_t i = 0; i < t.size(); i++) rt::join(t[i]);
    rt::end();
}
// timed wait: true when signalled in time, false at the deadline, not before
static void s_timed() {
    rt::begin(); rt::ordered(true); dead(); static CMutex *m; static Condition *c; Used<CMutex> M_; Used<Condition> C_; CMutex &M = *M_.l; Condition &C = *C_.l; m = &M; c = &C; mc::nontrivial();
    static const int US[] = { 0, 1, 500000, 999000, 999999 }; static const int T[] = { 1, 5, 999, 1000, 1001, 1999, 3500, 3600000 };
    struct timespec mo; clock_gettime(CLOCK_MONOTONIC, &mo); uint64_t mono = mo.tv_nsec / 1000; int ph = mc::choose(5);
    if (mc::choose(2)) rt::now_us += (1000000 - rt::now_us % 1000000) + US[ph]; else rt::now_us += (1000000 - mono) + US[ph];
    int to = T[mc::choose(8)], at = mc::choose(3); uint64_t t0 = rt::now_us, when = at == 0 ? ~0ULL : at == 1 ? to * 500ULL : to * 1000ULL + 300000; uint64_t d = when;
    int s = at ? rt::spawn([d]() { usleep(d); m->lock(); m->unlock(); c->signal(); }, "signaller") : -1;
    M.lock(); bool r = C.wait(M, to); uint64_t el = rt::now_us - t0; int x = -1; { int y = rt::spawn([&]() { x = m->tryLock(); if (x) m->unlock(); }, "x"); rt::join(y); } MC_CHECK(x == 0, "cond:mutex not held", "timed wait returns without the mutex"); M.unlock();
    mc::op("wait(%d ms) -> %d after %llu us", to, r, (unsigned long long)el); mc::step();
    if (at == 1) MC_CHECK(r && el == d, "cond:timed wait", "signalled after %llu us, wait(%d ms) returned %d after %llu us", (unsigned long long)d, to, r, (unsigned long long)el);
    else MC_CHECK(!r && el + 1000 >= to * 1000ULL && el <= to * 1000ULL + 1000, "cond:timed wait", "nothing signalled, wait(%d ms) returned %d after %llu us", to, r, (unsigned long long)el);
    if (s >= 0) rt::join(s); mc::state(mc::hmix(to, at)); rt::end();
}
int main(int argc, char **argv) {
    std::vector<mc::Space> s;
    s.push_back({ "mutex", s_mutex, false, 0, "three threads, lock/tryLock/CAutoLock with exceptions, all interleavings up to the preemption bound" });
    s.push_back({ "spinlock", s_spin, false, 0, "the same for the spin lock" });
    s.push_back({ "rwlock", s_rw, false, 0, "all mixes of three readers/writers/tryers" });
    s.push_back({ "condition", s_cond, false, 0, "1-2 waiters, signal and broadcast, spurious wake-ups" });
    s.push_back({ "timed-wait", s_timed, false, 0, "time-outs and signal times at every clock phase" });
    return mc::run(argc, argv, s, "schedules of lock users; non-trivial: always");
}
