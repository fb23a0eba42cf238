// CBufferQueue: a byte queue in (shared) memory.
#include <stdint.h>
#include "CBufferQueue.h"
#ifdef SP_CONC
#include "mcrt.h"
#endif
#include "mc.h"
#include <deque>
#include <stdlib.h>
using namespace lce;
static const int HDR = 40, MARK = 8, RES = 8;
static string item(int id, int len) { string s; for (int i = 0; i < len; i++) s += (char)(1 + (id * 37 + i * 11) % 251); return s; }
#ifndef SP_CONC
struct Q {
    CBufferQueue q; char *mem; int n; std::deque<string> m; int used, next;
    Q(int size) : n(size), used(0), next(1) { mem = new char[HDR + n]; memset(mem, 0x5a, HDR + n); q.create(mem, HDR + n); }
    ~Q() { delete[] mem; }
    bool fits(int len) { return used + MARK + len + RES <= n; }
    void check() {
        MC_CHECK(q.empty() == m.empty(), "bufq:empty", "empty() is %d with %zu items", q.empty(), m.size());
        MC_CHECK(q.size() == m.size(), "bufq:size", "size() is %lu with %zu items", q.size(), m.size());
        static const int L[] = { 0, 1, 5, 8, 13 }; for (int i = 0; i < 5; i++) MC_CHECK(q.full(L[i]) == (L[i] && !fits(L[i])), "bufq:full", "full(%d) is %d with %d of %d bytes used", L[i], q.full(L[i]), used, n);
        mc::state(mc::hmix(mc::hash(mem, HDR), m.size()));
    }
    void push(int len, int split) { // split < 0: one piece
        string s = item(next++, len); bool ok = true; char *b = new char[len + 1]; memcpy(b, s.data(), len);
        char *h1 = 0, *h2 = 0; if (split >= 0) { h1 = new char[split]; h2 = new char[len - split]; memcpy(h1, b, split); memcpy(h2, b + split, len - split); }
        char *h = new char[len]; memcpy(h, b, len);
        try { if (split < 0) q.push(h, len); else q.push(h1, (unsigned)split, h2, (unsigned)(len - split)); } catch (std::runtime_error &e) { ok = false; }
        delete[] b; delete[] h; delete[] h1; delete[] h2;
        mc::op("push %d (split %d) -> %d", len, split, ok); mc::step(); bool want = len == 0 || fits(len);
        MC_CHECK(ok == want, "bufq:push result", "pushing %d bytes with %d of %d used: %s", len, used, n, ok ? "accepted" : "refused");
        if (ok && len) { m.push_back(s); used += MARK + len; }
    }
    void pop(long room, int split) {
        bool ok = false, thrown = false; string got; unsigned long a = room;
        if (split < 0) { char *b = new char[room]; try { ok = q.pop(b, a); if (ok) got.assign(b, a); } catch (std::runtime_error &) { thrown = true; } delete[] b; }
        else { unsigned long r1 = split, r2 = room - split; char *b1 = new char[r1], *b2 = new char[r2]; try { ok = q.pop(b1, r1, b2, r2); if (ok) { MC_CHECK(r1 <= (unsigned long)split && r2 <= (unsigned long)(room - split), "bufq:pop sizes", "pieces of %lu and %lu in buffers of %d and %ld", r1, r2, split, room - split); got.assign(b1, r1); got.append(b2, r2); MC_CHECK(r2 == 0 || r1 == (unsigned long)split, "bufq:pop sizes", "second buffer used before the first is full"); } } catch (std::runtime_error &) { thrown = true; } delete[] b1; delete[] b2; }
        mc::op("pop room %ld (split %d) -> %d%s", room, split, ok, thrown ? " (too long)" : ""); mc::step();
        if (m.empty()) { MC_CHECK(!ok && !thrown, "bufq:phantom", "pop on an empty queue"); return; }
        string w = m.front(); m.pop_front(); used -= MARK + w.size();
        if ((long)w.size() > room) { MC_CHECK(thrown, "bufq:pop overlong", "an item of %zu bytes popped into %ld", w.size(), room); return; }
        MC_CHECK(ok && got == w, "bufq:wrong item", "popped '%s' (%d), expected '%s'", mc::esc(got).c_str(), ok, mc::esc(w).c_str());
    }
    void reattach() { q = CBufferQueue(); try { q.attach(mem, HDR + n); } catch (std::runtime_error &e) { mc::fail("bufq:attach", "attach to a valid queue fails: %s", e.what()); } mc::op("attach"); }
};
static void rotate(Q &q, int off) { // moves the start of the ring to any offset
    int at = 0; while (at != off) { int d = (off - at + q.n) % q.n; int l = d - MARK; if (l < 1 || l > q.n - MARK - RES) l = l < 1 ? (q.n / 2 > 16 ? 3 : 1) : q.n - MARK - RES; q.push(l, -1); q.pop(64, -1); at = (at + MARK + l) % q.n; static int guard; if (++guard > 100000) { guard = 0; mc::prune(); } }
}
static void s_ops() {
    static const int NS[] = { 17, 18, 24, 31, 40, 52 }; int n = NS[mc::choose(6)]; Q q(n); mc::nontrivial(); rotate(q, mc::choose(n)); q.check();
    int depth = mc::tier(4, 5); static const int L[] = { 0, 1, 2, 7, 8, 9, 16 };
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(15);
        if (o < 7) q.push(L[o], -1);
        else if (o < 10) { int l = o == 7 ? 5 : o == 8 ? 9 : 2; q.push(l, o == 7 ? 0 : o == 8 ? 4 : 1); }
        else if (o == 10) q.pop(64, -1);
        else if (o == 11) { if (q.m.empty()) continue; q.pop(q.m.front().size(), -1); }
        else if (o == 12) { if (q.m.empty()) continue; q.pop(q.m.front().size() - 1, -1); }
        else if (o == 13) { q.pop(20, 3); }
        else q.reattach();
        q.check();
    }
    while (!q.m.empty()) q.pop(64, -1); q.check();
}
// one large item crossing the end at every offset, cut in every way on both sides
static void s_split() {
    static const int NS[] = { 30, 41 }; int n = NS[mc::choose(2)]; Q q(n); int off = mc::choose(n); rotate(q, off); mc::nontrivial(); int len = mc::choose(n - MARK - RES + 2); 
    if (len == 0) { q.push(0, mc::choose(2) - 1); q.check(); return; }
    int sp = mc::choose(len + 2) - 1; q.push(len, sp); q.check();
    if (q.fits(1)) q.push(1, -1), q.check();
    int room = len + mc::choose(3) - 1; int s2 = mc::choose(room + 2) - 1; q.pop(room, s2); q.check(); while (!q.m.empty()) q.pop(64, -1); q.check();
}
// attach refuses memory that is not a queue of this size
static void s_attach() {
    int n = 20 + mc::choose(3); Q q(n); mc::nontrivial(); q.push(3, -1); unsigned long *h = (unsigned long *)q.mem; int k = mc::choose(7); static const unsigned long V[] = { 0, 1, 19, 20, 21, 22, 23, 1UL << 32, ~0UL, 0x5a5a5a5a5a5a5a5aUL }; unsigned long v = V[mc::choose(10)]; bool bad, thrown = false;
    unsigned long size = HDR + n;
    if (k < 4) { h[k] = v; bad = k == 0 ? v != (unsigned long)n : k == 1 ? v != 8 : v >= (unsigned long)n; if (k == 3 && v == (unsigned long)n) mc::prune(); }
    else if (k == 4) { size = HDR + n + (long)mc::choose(7) - 3; bad = size != (unsigned long)(HDR + n); if (size > (unsigned long)(HDR + n)) { char *b = new char[size]; memcpy(b, q.mem, HDR + n); delete[] q.mem; q.mem = b; } }
    else if (k == 5) { size = v < 60 ? v : 40; bad = true; }
    else { size = HDR + 17 - (int)mc::choose(3); bad = size <= HDR + 16; char *b = new char[size]; CBufferQueue c; try { c.create(b, size); } catch (std::runtime_error &) { thrown = true; } MC_CHECK(thrown == bad, "bufq:create", "create with %lu bytes: %s", size, thrown ? "refused" : "accepted"); delete[] b; return; }
    CBufferQueue c; try { c.attach(q.mem, size); } catch (std::runtime_error &) { thrown = true; }
    mc::op("attach with field %d = %lu -> %s", k, v, thrown ? "refused" : "accepted"); mc::step(); MC_CHECK(thrown == bad, "bufq:attach", "attach with header field %d = %lu, size %lu: %s", k, v, size, thrown ? "refused" : "accepted");
}
int main(int argc, char **argv) {
    vector<mc::Space> s;
    s.push_back({ "operations", s_ops, false, 0, "all operation sequences from every ring offset, six sizes" });
    s.push_back({ "splits", s_split, false, 0, "one item of every length at every offset, every split of both buffers" });
    s.push_back({ "attach", s_attach, false, 0, "attach to damaged headers and wrong sizes" });
    return mc::run(argc, argv, s, "operation sequences on queues in heap blocks of exact size against a model; non-trivial: always");
}
#else
// ---------------------------------------------------------- two processes, crashes
static char *mem; static int N; 
struct World { std::deque<string> in; };   // accepted pushes not yet popped (model)
static void s_spsc() {
    rt::begin(); static const int NS[] = { 27, 40 }; N = NS[mc::choose(2)]; mem = new char[HDR + N]; memset(mem, 0, HDR + N); static CBufferQueue *pq, *cq; CBufferQueue P, C; pq = &P; cq = &C; P.create(mem, HDR + N); C.attach(mem, HDR + N);
    static int pushed, pushDone, popped, popDone; pushed = pushDone = popped = popDone = 0; static int next; next = 0; mc::nontrivial(); static int len[16]; memset(len, 0, sizeof len);
    char b[64]; unsigned long l;
    int off = mc::choose(N); { int at = 0; while (at != off) { int d = (off - at + N) % N, x = d - MARK; if (x < 1 || x > N - MARK - RES) x = x < 1 ? 1 : N - MARK - RES; P.push(b, x); l = 64; C.pop(b, l); at = (at + MARK + x) % N; } }
    static int two; two = mc::choose(2); static int pre; pre = mc::choose(3);
    static auto push = [](int ln) -> bool { int id, pd; { rt::Quiet z; id = pushed; pd = popDone; len[id] = ln; } string s = item(id, ln); bool ok = true; try { if (two) pq->push(s.data(), 1u, s.data() + 1, (unsigned)ln - 1); else pq->push(s.data(), ln); } catch (std::runtime_error &) { ok = false; }
        rt::Quiet z; mc::op("push %d -> %d", ln, ok); mc::step(); if (ok) { pushed++; pushDone++; } else { int u = 0; for (int i = pd; i < pushed; i++) u += MARK + len[i]; MC_CHECK(u + MARK + ln + RES > N, "bufq:refused with room", "push of %d refused with at most %d of %d bytes used", ln, u, N); } return ok; };
    static auto pop = []() -> bool { char x[64]; unsigned long n = 64, n2 = 0; int pd; { rt::Quiet z; pd = pushDone; } bool ok; try { if (two) { n = 3; n2 = 61; ok = cq->pop(x, n, x + 3, n2); if (ok && n2 && n != 3) mc::fail("bufq:pop sizes", "pieces"); n += n2; } else ok = cq->pop(x, n); } catch (std::runtime_error &e) { mc::fail("bufq:wrong item", "pop throws: %s", e.what()); }
        rt::Quiet z; mc::op("pop -> %d", ok); mc::step(); if (ok) { string w = item(popped, len[popped]); MC_CHECK(string(x, n) == w, "bufq:wrong item", "popped '%s', expected '%s'", mc::esc(string(x, n)).c_str(), mc::esc(w).c_str()); popped++; popDone++; } else MC_CHECK(pd <= popped, "bufq:empty with items", "empty with at least %d items inside", pd - popped); return ok; };
    if (pre == 1) push(3); else if (pre == 2) push(N - MARK - RES); // 2: the ring is full with one item, its place is needed for the next
    rt::watch(mem, HDR + N); mc::set_deviations(mc::tier(3, 4));
    int p = rt::spawn([]() { if (pre == 2) { push(N - MARK - RES); push(1); } else { push(2); push(9); push(1); } }, "producer"), c = rt::spawn([]() { pop(); pop(); pop(); }, "consumer");
    rt::join(p); rt::join(c); while (pop()) ; MC_CHECK(popped == pushed, "bufq:lost", "%d pushed %d popped", pushed, popped); MC_CHECK(P.empty() && C.size() == 0, "bufq:size", "not empty at rest");
    mc::state(mc::hash(mem, HDR)); rt::end(); delete[] mem;
}
// A process dies anywhere inside push or pop; another attaches to the memory.
static std::vector<string> snaps; 
static void s_crash() {
    rt::begin(); rt::ordered(true); static const int NS[] = { 27, 40, 51 }; N = NS[mc::choose(3)]; mem = new char[HDR + N]; memset(mem, 0x7e, HDR + N); CBufferQueue *Q = new CBufferQueue; Q->create(mem, HDR + N); char b[64]; unsigned long l; std::deque<string> m; int next = 0; mc::nontrivial();
    int off = mc::choose(N); { int at = 0; while (at != off) { int d = (off - at + N) % N, x = d - MARK; if (x < 1 || x > N - MARK - RES) x = x < 1 ? 1 : N - MARK - RES; Q->push(b, x); l = 64; Q->pop(b, l); at = (at + MARK + x) % N; } }
    int dummy = rt::spawn([]() {}, "x"); rt::join(dummy);
    rt::watch(mem, HDR + N); snaps.clear(); bool rec = false;
    rt::before_write = [&](const void *, size_t) { if (rec) snaps.push_back(string(mem, HDR + N)); };
    int used = 0, ops = mc::tier(4, 5), crashes = mc::tier(1, 2); static const int L[] = { 1, 5, 9 };
    for (int d = 0; d < ops; d++) {
        int o = mc::choose(7); bool crash = crashes > 0 && mc::choose(2); std::deque<string> before = m; int ub = used; rec = crash; snaps.clear();
        if (o < 6) { int ln = L[o / 2]; string s = item(next++, ln); bool ok = true; try { if (o % 2) Q->push(s.data(), (unsigned)ln / 2, s.data() + ln / 2, (unsigned)(ln - ln / 2)); else Q->push(s.data(), ln); } catch (std::runtime_error &) { ok = false; } mc::op("push %d -> %d", ln, ok); MC_CHECK(ok == (used + MARK + ln + RES <= N), "bufq:push result", "push of %d with %d of %d used: %d", ln, used, N, ok); if (ok) { m.push_back(s); used += MARK + ln; } }
        else { l = 64; bool ok = Q->pop(b, l); mc::op("pop -> %d", ok); MC_CHECK(ok == !m.empty() && (!ok || string(b, l) == m.front()), "bufq:wrong item", "popped %d '%s'", ok, mc::esc(string(b, ok ? l : 0)).c_str()); if (ok) { used -= MARK + m.front().size(); m.pop_front(); } }
        rec = false; mc::step();
        if (crash) { if (snaps.empty()) mc::prune(); crashes--; int k = mc::choose(snaps.size()); mc::op("dies before its write number %d of %zu", k, snaps.size()); memcpy(mem, snaps[k].data(), HDR + N);
            delete Q; Q = new CBufferQueue; try { Q->attach(mem, HDR + N); } catch (std::runtime_error &e) { mc::fail("bufq:attach", "attach after a crash fails: %s", e.what()); }
            // either the old or the new contents: find out which by draining a copy
            string keep(mem, HDR + N); std::deque<string> got; for (;;) { l = 64; bool ok; try { ok = Q->pop(b, l); } catch (std::runtime_error &e) { mc::fail("bufq:corrupted by a crash", "pop throws: %s", e.what()); } if (!ok) break; got.push_back(string(b, l)); MC_CHECK(got.size() <= 20, "bufq:corrupted by a crash", "endless items"); }
            MC_CHECK(got == before || got == m, "bufq:corrupted by a crash", "%zu items after the crash, %zu before and %zu after the operation", got.size(), before.size(), m.size());
            if (got == before && !(got == m)) { m = before; used = ub; } memcpy(mem, keep.data(), HDR + N); mc::state(mc::hash(keep)); }
    }
    while (true) { l = 64; bool ok = Q->pop(b, l); MC_CHECK(ok == !m.empty() && (!ok || string(b, l) == m.front()), "bufq:wrong item", "popped %d, %zu left", ok, m.size()); if (!ok) break; m.pop_front(); }
    delete Q; rt::before_write = nullptr; rt::end(); delete[] mem;
}
int main(int argc, char **argv) {
    vector<mc::Space> s;
    s.push_back({ "producer-consumer", s_spsc, false, 0, "all interleavings up to the preemption bound at every access to the shared memory, every ring offset" });
    s.push_back({ "crash", s_crash, false, 0, "death before every write of every operation, attach and continue" });
    return mc::run(argc, argv, s, "schedules of a producer and a consumer process and crash points; non-trivial: always");
}
#endif
