// CCircleQueue: one producer, one consumer, no lock.
#include <stdint.h>
#include <string>
#include "CCircleQueue.h"
#ifdef SP_CONC
#include "mcrt.h"
#endif
#include "mc.h"
using namespace std; using namespace lce;
#ifdef SP_CONC
struct Item { long a, b; };
static CCircleQueue<Item> *q; static int produced, producedDone, consumed, consumedDone, cap;
static bool enq(int v) {
    int cd; { rt::Quiet z; cd = consumedDone; }
    Item i = { v, ~(long)v }; bool r = q->enque(i);
    { rt::Quiet z; mc::op("enque %d -> %d", v, r); mc::step(); if (r) { produced++; producedDone++; MC_CHECK(produced - consumedDone <= cap + 1, "cqueue:overfull", "%d items taken in, %d out, capacity %d", produced, consumedDone, cap); } else MC_CHECK(produced - cd >= cap, "cqueue:refused with room", "refused with at most %d of %d items inside", produced - cd, cap); }
    return r;
}
static bool deq() {
    int pd; { rt::Quiet z; pd = producedDone; }
    Item i = { -1, -1 }; bool r = q->deque(i);
    { rt::Quiet z; mc::op("deque -> %d %ld", r, i.a); mc::step(); if (r) { MC_CHECK(i.a == consumed && i.b == ~(long)consumed, "cqueue:wrong item", "got %ld/%ld, expected %d", i.a, ~i.b, consumed); consumed++; consumedDone++; } else MC_CHECK(pd <= consumed, "cqueue:empty with items", "reported empty with at least %d items inside", pd - consumed); }
    return r;
}
static void s_spsc() {
    rt::begin(); rt::race_detect(true); produced = producedDone = consumed = consumedDone = 0;
    CCircleQueue<Item> Q; q = &Q; cap = 1 + mc::choose(3); Q.init(cap); int pre = mc::choose(cap + 2);
    for (int i = 0; i < pre; i++) { enq(produced); deq(); }                    // the ring starts anywhere
    int fill = mc::choose(cap + 1); for (int i = 0; i < fill; i++) enq(produced);
    mc::set_deviations(mc::tier(4, 6)); mc::nontrivial(); int n = mc::tier(3, 4);
    int p = rt::spawn([n]() { for (int i = 0; i < n; i++) enq(produced); }, "producer");
    int c = rt::spawn([n]() { for (int i = 0; i < n; i++) deq(); }, "consumer");
    rt::join(p); rt::join(c);
    while (deq()) ;
    MC_CHECK(consumed == produced, "cqueue:lost", "%d put in, %d taken out", produced, consumed);
    mc::state(produced * 64 + consumed); rt::end();
}
int main(int argc, char **argv) {
    vector<mc::Space> s; s.push_back({ "producer-consumer", s_spsc, false, 0, "all interleavings up to the preemption bound at every access, capacities 1-3, ring position and fill anywhere" });
    return mc::run(argc, argv, s, "schedules of one producer and one consumer; non-trivial: always");
}
#else
static int live;
struct E { int v; E() : v(0) { live++; } E(int x) : v(x) { live++; } E(const E &o) : v(o.v) { live++; } ~E() { live--; } };
static void s_seq() {
    live = 0; { CCircleQueue<E> q; static const int CS[] = { 1, 2, 3, 5 }; int cap = CS[mc::choose(4)]; q.init(cap); string m; int nx = 1; mc::nontrivial();
    size_t head = 0; vector<int> mod; int depth = mc::tier(13, 16);
    for (int d = 0; d < depth; d++) {
        bool e = (mod.size() - head) == 0, f = (int)(mod.size() - head) == cap;
        MC_CHECK(q.empty() == e, "cqueue:empty", "empty() is %d with %zu items", q.empty(), mod.size() - head); MC_CHECK(q.full() == f, "cqueue:full", "full() is %d with %zu of %d items", q.full(), mod.size() - head, cap);
        if (mc::choose(2)) { bool r = q.enque(E(nx)); mc::op("enque %d", r); MC_CHECK(r == !f, "cqueue:enque", "enque returns %d with %zu of %d", r, mod.size() - head, cap); if (r) mod.push_back(nx++); }
        else { E x(-7); bool r = q.deque(x); mc::op("deque %d", r); MC_CHECK(r == !e, "cqueue:deque", "deque returns %d with %zu items", r, mod.size() - head); if (r) { MC_CHECK(x.v == mod[head], "cqueue:wrong item", "got %d expected %d", x.v, mod[head]); head++; } else MC_CHECK(x.v == -7, "cqueue:output changed", "an empty deque changes its argument"); }
        mc::step(); mc::state(mc::hmix(mod.size() - head, head % (cap + 1) * 8 + cap));
    } }
    MC_CHECK(live == 0, "cqueue:leak", "%d items survive the queue", live);
}
static void s_sizes() {
    static const uint32_t S[] = { 0, 1, 2, 7, 255, 256, 999, 1000, 1001, 4096, 65535, 65536 }; uint32_t n = S[mc::choose(12)]; CCircleQueue<int> q; if (n == 0 && mc::choose(2)) q.init(); else q.init(n); uint32_t cap = n ? n : 1000; mc::nontrivial();
    int off = mc::choose(3) * (int)(cap / 2); int in = 0, out = 0, v;
    for (int i = 0; i < off; i++) { MC_CHECK(q.enque(in++) && q.deque(v) && v == out++, "cqueue:lost", "item %d", i); }
    for (int round = 0; round < 3; round++) {
        for (uint32_t i = 0; i < cap; i++) MC_CHECK(q.enque(in++), "cqueue:refused with room", "item %u of %u refused", i, cap);
        MC_CHECK(q.full() && !q.enque(-1), "cqueue:overfull", "accepts more than %u items", cap);
        for (uint32_t i = 0; i < cap; i++) MC_CHECK(q.deque(v) && v == out++, "cqueue:wrong item", "item %u of %u", i, cap);
        MC_CHECK(q.empty() && !q.deque(v), "cqueue:phantom", "an item too many"); mc::step(cap * 2);
    }
    mc::state(n);
}
int main(int argc, char **argv) {
    vector<mc::Space> s; s.push_back({ "sequences", s_seq, false, 0, "all enqueue/dequeue sequences, capacities 1,2,3,5" }); s.push_back({ "capacities", s_sizes, false, 0, "filled to the limit and drained, capacities 0 to 65536, from several ring positions" });
    return mc::run(argc, argv, s, "operation sequences against a model; non-trivial: always");
}
#endif
