// CBlockQueue: a bounded blocking queue.
#include <string>
#include <string.h>
#include <unistd.h>
#include <deque>
#include "CBlockQueue.h"
#include "mcrt.h"
#include "mc.h"
using namespace lce;
static CBlockQueue<int> *q; static int pushed[4], popped[4], pops; static std::vector<std::vector<int> > got;
static void push(int v) { if (!q->push(v)) mc::fail("bqueue:push", "push returns false"); rt::Quiet z; mc::op("thread %d pushed %d", rt::self(), v); mc::step(); pushed[v / 10]++; }
static void took(int who, int v) {
    rt::Quiet z; mc::op("thread %d popped %d", rt::self(), v); mc::step(); mc::state(mc::hmix(v, pops * 4 + who)); pops++; MC_CHECK(v >= 0 && v < 40, "bqueue:wrong item", "popped %d", v);
    for (size_t i = 0; i < got.size(); i++) for (size_t k = 0; k < got[i].size(); k++) { MC_CHECK(got[i][k] != v, "bqueue:delivered twice", "item %d popped twice", v); if ((int)i == who) MC_CHECK(got[i][k] / 10 != v / 10 || got[i][k] < v, "bqueue:out of order", "item %d after %d", v, got[i][k]); }
    got[who].push_back(v);
}
static void s_conc() {
    rt::begin(); rt::race_detect(true); int cap = 1 + mc::choose(2), np = 1 + mc::choose(2), nc = 1 + mc::choose(2), per = 2; int total = np * per; if (nc == 2 && total % 2) mc::prune();
    CBlockQueue<int> Q(cap); q = &Q; pops = 0; memset(pushed, 0, sizeof pushed); got.assign(nc, std::vector<int>()); mc::nontrivial();
    rt::set_deadlock([]() { std::string b = rt::blocked_report(); mc::fail("bqueue:deadlock", "a push or pop never completes\n%s", b.c_str()); });
    rt::spurious(true); mc::set_deviations(np + nc == 4 ? mc::tier(1, 2) : mc::tier(2, 3));
    std::vector<int> t;
    for (int i = 0; i < nc; i++) t.push_back(rt::spawn([i, total, nc]() { for (int k = 0; k < total / nc; k++) { int v = -1; if (!q->pop(v)) mc::fail("bqueue:pop", "pop returns false"); took(i, v); } }, "consumer"));
    for (int i = 0; i < np; i++) t.push_back(rt::spawn([i, per]() { for (int k = 0; k < per; k++) push(i * 10 + k); }, "producer"));
    for (size_t i = 0; i < t.size(); i++) rt::join(t[i]);
    MC_CHECK(pops == total && q->size() == 0, "bqueue:lost", "%d pushed, %d popped, %d left", total, pops, q->size());
    rt::end();
}
// a timed pop beside other users
static void s_timed() {
    rt::begin(); rt::race_detect(true); rt::timeouts_race(true); rt::spurious(true); rt::now_us += mc::choose(2) * 999000;
    CBlockQueue<int> Q(2); q = &Q; pops = 0; memset(pushed, 0, sizeof pushed); got.assign(3, std::vector<int>()); mc::nontrivial(); mc::set_deviations(mc::tier(2, 3));
    static const int T[] = { 0, 1, 10, 999, 1000, 1500, 86400000 }; int to = T[mc::choose(7)]; static const int DL[] = { 0, 1, 5, 100, 1400, 5000 }; int delay = DL[mc::choose(6)]; int other = mc::choose(3);   // none, a thief, clear()/size() noise
    static int timedGot; timedGot = 0;
    rt::set_deadlock([]() { std::string b = rt::blocked_report(); mc::fail("bqueue:deadlock", "a push or pop never completes\n%s", b.c_str()); });
    int p = rt::spawn([delay]() { if (delay) usleep(delay * 1000); push(0); push(1); }, "producer");
    int c = rt::spawn([to]() { int v = -1; uint64_t t0 = rt::now_us; bool r = q->pop(v, to); uint64_t el = rt::now_us - t0; rt::Quiet z; mc::op("timed pop(%d ms) -> %d after %llu us", to, r, (unsigned long long)el); mc::step();
        if (r) { took(0, v); timedGot = 1; } else MC_CHECK(el + 1000 > (uint64_t)to * 1000, "bqueue:timed out early", "pop with %d ms gave up after %llu us", to, (unsigned long long)el);
}, "timed");
    int o = other == 1 ? rt::spawn([]() { int v = -1; if (!q->pop(v)) mc::fail("bqueue:pop", "pop returns false"); took(1, v); }, "thief") : other == 2 ? rt::spawn([]() { int v; q->size(); q->empty(); q->full(); q->front(v); q->back(v); }, "observer") : -1;
    rt::join(p); rt::join(c); if (o >= 0) rt::join(o);
    MC_CHECK(q->size() == 2 - pops, "bqueue:lost", "2 pushed, %d popped, %d left", pops, q->size());
    if (delay == 0 && 0) MC_CHECK(timedGot, "bqueue:lost", "x");
    rt::end();
}
// exact timing without scheduling noise: the item arrives before or after the deadline
static void s_deadline() {
    rt::begin(); rt::ordered(true); static const int US[] = { 0, 1000, 400000, 999000, 999999 }; rt::now_us = rt::now_us / 1000000 * 1000000 + US[mc::choose(5)];
    CBlockQueue<int> Q(1 + mc::choose(2)); q = &Q; pops = 0; memset(pushed, 0, sizeof pushed); got.assign(3, std::vector<int>()); mc::nontrivial();
    static const int T[] = { 1, 2, 50, 600, 999, 1000, 1001, 2500, 60000 }; int to = T[mc::choose(9)], at = mc::choose(4);   // at: before the call, early, just before, after
    uint64_t t0 = rt::now_us, late = at == 1 ? to * 250ULL : at == 2 ? to * 1000ULL - 500 : to * 1000ULL + 500000;
    if (at == 0) push(7);
    int p = at ? rt::spawn([late]() { usleep(late); push(7); }, "producer") : -1; int v = -1;
    bool r = q->pop(v, to); uint64_t el = rt::now_us - t0; mc::op("pop(%d ms) -> %d after %llu us", to, r, (unsigned long long)el); mc::step();
    if (at == 0) MC_CHECK(r && v == 7 && el == 0, "bqueue:timed pop", "an available item is not returned at once");
    else if (at == 3) MC_CHECK(!r && el + 1000 >= to * 1000ULL && el <= to * 1000ULL + 1000, "bqueue:timed pop", "no item within %d ms: result %d after %llu us", to, r, (unsigned long long)el);
    else MC_CHECK(r && v == 7, "bqueue:timed pop", "the item arrived after %llu us, pop(%d ms) gave up after %llu us", (unsigned long long)late, to, (unsigned long long)el);
    if (p >= 0) rt::join(p); mc::state(mc::hmix(to, at)); rt::end();
}
// sequential behaviour, every sequence
static void s_seq() {
    rt::begin(); rt::ordered(true); int cap = mc::choose(4); int real = cap ? cap : 1000; CBlockQueue<int> Q(cap); std::deque<int> m; int nx = 1; mc::nontrivial(); int depth = mc::tier(8, 10); rt::set_deadlock([]() { mc::fail("bqueue:deadlock", "an operation that must not block blocks"); });
    MC_CHECK(Q.max_size() == real, "bqueue:max size", "max_size %d", Q.max_size());
    for (int d = 0; d < depth; d++) {
        int v = -9; bool r = Q.front(v); MC_CHECK(r == !m.empty() && (!r || v == m.front()), "bqueue:front", "front -> %d %d, expected %d", r, v, m.empty() ? -1 : m.front());
        v = -9; r = Q.back(v); MC_CHECK(r == !m.empty() && (!r || v == m.back()), "bqueue:back", "back -> %d %d", r, v);
        MC_CHECK(Q.size() == (int)m.size() && Q.empty() == m.empty() && Q.full() == ((int)m.size() >= real), "bqueue:size", "size %d empty %d full %d with %zu of %d", Q.size(), Q.empty(), Q.full(), m.size(), real);
        int o = mc::choose(4);
        if (o == 0) { if ((int)m.size() >= real) continue; Q.push(nx); m.push_back(nx++); mc::op("push"); }
        else if (o == 1) { if (m.empty()) { v = -9; MC_CHECK(!Q.pop(v, 3), "bqueue:phantom", "pop on an empty queue succeeds"); mc::op("pop times out"); } else { MC_CHECK(Q.pop(v) && v == m.front(), "bqueue:wrong item", "popped %d expected %d", v, m.front()); m.pop_front(); mc::op("pop"); } }
        else if (o == 2) { if (m.empty()) continue; MC_CHECK(Q.pop(v, 5) && v == m.front(), "bqueue:wrong item", "timed pop %d expected %d", v, m.front()); m.pop_front(); mc::op("timed pop"); }
        else { Q.clear(); m.clear(); mc::op("clear"); }
        mc::step(); mc::state(mc::hmix(m.size(), cap));
    }
    rt::end();
}
int main(int argc, char **argv) {
    std::vector<mc::Space> s;
    s.push_back({ "producers-consumers", s_conc, false, 0, "1-2 producers, 1-2 consumers, capacity 1-2, all interleavings up to the preemption bound, spurious wake-ups" });
    s.push_back({ "timed-pop", s_timed, false, 0, "a timed pop beside a producer and a thief, all interleavings, time-outs racing" });
    s.push_back({ "deadlines", s_deadline, false, 0, "time-outs against arrival times at every clock phase" });
    s.push_back({ "sequences", s_seq, false, 0, "all operation sequences of one thread" });
    return mc::run(argc, argv, s, "schedules and operation sequences of a blocking queue; non-trivial: always");
}
