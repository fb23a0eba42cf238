// CShm, CBitmap<w>, CShmArray.  The System V calls are stand-ins over heap
// blocks of exactly the requested size (AddressSanitizer sees every overrun);
// nothing real is created.
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <string>
#include <vector>
#include <map>
#include "CShm.h"
#include "CShmArray.h"
#include "CBitMap.h"
#include "mc.h"
using namespace std;
struct Seg { int key; size_t size; char *mem; int attached; int pins; };
static vector<Seg> segs; static int failing; static int firstid;
static bool inject(const char *what) { if (!failing) return false; if (!mc::choose_dev(2)) return false; failing--; mc::op("  [%s fails]", what); return true; }
static void reset() { for (size_t i = 0; i < segs.size(); i++) free(segs[i].mem); segs.clear(); failing = 0; firstid = 0; }
extern "C" int shmget(key_t key, size_t size, int flg) throw() {
    for (size_t i = 0; i < segs.size(); i++) if (segs[i].key == key && key != IPC_PRIVATE) { if (flg & IPC_CREAT && flg & IPC_EXCL) { errno = EEXIST; return -1; } if (size > segs[i].size) { errno = EINVAL; return -1; } return firstid + i; }
    if (!(flg & IPC_CREAT)) { errno = ENOENT; return -1; }
    if (size == 0) { errno = EINVAL; return -1; }
    if (inject("shmget")) { errno = ENOSPC; return -1; }
    Seg s = { key, size, (char *)calloc(1, size), 0, 0 }; segs.push_back(s); return firstid + segs.size() - 1;
}
extern "C" void *shmat(int id, const void *, int) throw() {
    id -= firstid; if (id < 0 || id >= (int)segs.size()) { errno = EINVAL; return (void *)-1; }
    if (inject("shmat")) { errno = ENOMEM; return (void *)-1; }
    segs[id].attached++; return segs[id].mem;
}
extern "C" int shmdt(const void *p) throw() {
    for (size_t i = 0; i < segs.size(); i++) if (segs[i].mem == p && segs[i].attached > 0) { segs[i].attached--; return 0; }
    mc::fail("shm:detached what is not attached", "shmdt(%s) of something this process has not attached", p == (void *)-1 ? "-1" : "address");
}
extern "C" int shmctl(int id, int cmd, struct shmid_ds *) throw() {
    id -= firstid; if (id < 0 || id >= (int)segs.size()) { errno = EINVAL; return -1; }
    if (cmd == IPC_RMID) { MC_CHECK(segs[id].attached == 0, "shm:segment in use removed", "a segment in use is removed"); segs[id].key = IPC_PRIVATE; }
    return 0;
}
static void all_detached() { for (size_t i = 0; i < segs.size(); i++) MC_CHECK(segs[i].attached == 0, "shm:left attached", "a segment is still attached after its object is gone"); }

template <int W> static void check(const lce::CBitmap<W> &b, const vector<int> &m, size_t n, const char *who) {
    MC_CHECK(b.size() == n, "bitmap:size", "%s: size() is %zu instead of %zu", who, b.size(), n);
    uint64_t h = W;
    for (size_t i = 0; i < n; i++) { int v = b.get(i); MC_CHECK(v == m[i], "bitmap:value", "%s: field %zu of %zu (%d bits) reads %d instead of %d", who, i, n, W, v, m[i]); h = mc::hmix(h, v); }
    mc::state(h);
}
template <int W> static void doset(lce::CBitmap<W> &b, vector<int> &m, size_t n, size_t i, int v) {
    bool r = b.set(i, v); mc::op("set(%zu, %d) -> %d", i, v, r); mc::step();
    MC_CHECK(r == (i < n), "bitmap:set result", "set(%zu) of %zu fields returns %d", i, n, r);
    if (r && v < (1 << W)) m[i] = v;
    else if (r) { int g = b.get(i); MC_CHECK(g >= 0 && g < (1 << W), "bitmap:value", "field %zu reads %d", i, g); m[i] = g; }   // a value that does not fit: only that field may change
}
// one field among all others, every index and value
template <int W> static void s_one() {
    reset(); static const size_t N[] = { 1, 2, 7, 8, 9, 15, 16, 17 }; size_t n = N[mc::choose(8)]; const int M = (1 << W) - 1; mc::nontrivial();
    lce::CBitmap<W> *b = new lce::CBitmap<W>; MC_CHECK(b->init(77, n), "bitmap:init", "init of %zu fields fails", n);
    vector<int> m(n, 0); check<W>(*b, m, n, "new");
    int pat = mc::choose(3); for (size_t i = 0; i < n; i++) doset<W>(*b, m, n, i, pat == 0 ? 0 : pat == 1 ? M : (int)(i * 5 + 3) & M);
    check<W>(*b, m, n, "filled");
    static const size_t I[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 15, 16 }; int ni = 0; while (ni < 13 && I[ni] < n) ni++;
    int k = mc::choose(ni + 4); size_t i = k < ni ? I[k] : k == ni ? n : k == ni + 1 ? n + 1 : k == ni + 2 ? n + 64 : (size_t)-1;
    int v; if (W < 8) { v = mc::choose(W == 1 ? 2 : (1 << W) + 2); if (v == (1 << W)) v = 1 << W; else if (v == (1 << W) + 1) v = 255; } else { static const int V[] = { 0, 1, 127, 128, 200, 255 }; v = V[mc::choose(6)]; }
    doset<W>(*b, m, n, i, v);
    if (i >= n) MC_CHECK(b->get(i) == 0, "bitmap:read outside", "get(%zu) of %zu fields returns %d", i, n, (int)b->get(i));
    check<W>(*b, m, n, "after set");
    // somebody else attaches
    lce::CBitmap<W> *c = new lce::CBitmap<W>; MC_CHECK(c->init(77, n, mc::choose(2)), "bitmap:attach", "attaching to the existing bitmap fails"); check<W>(*c, m, n, "attached");
    int j = mc::choose(3); lce::CBitmap<W> &w = j == 1 ? *b : *c; lce::CBitmap<W> &o = j == 1 ? *c : *b;
    if (j == 2) { delete b; b = NULL; } else { doset<W>(w, m, n, n - 1, M); check<W>(o, m, n, "the other one"); }
    check<W>(*c, m, n, "attached"); c->clear(); m.assign(n, 0); check<W>(*c, m, n, "cleared"); if (b) check<W>(*b, m, n, "cleared");
    delete b; delete c; all_detached();
}
// sequences of operations through two objects
template <int W> static void s_seq() {
    reset(); size_t n = mc::choose(2) ? 8 : 5; const int M = (1 << W) - 1; mc::nontrivial();
    lce::CBitmap<W> b[2]; b[0].init(5, n); MC_CHECK(b[1].init(5, n, false), "bitmap:attach", "attach fails"); vector<int> m(n, 0);
    static const int V[] = { M, 1, M >> 1, 0 };
    for (int d = 0; d < mc::tier(4, 5); d++) {
        int k = mc::choose(n * 2 + 1); if (k == (int)n * 2) { b[d & 1].clear(); m.assign(n, 0); mc::op("clear"); } else doset<W>(b[d & 1], m, n, k / 2, k & 1 ? V[d % 2] : V[2 + d % 2]);
        check<W>(b[0], m, n, "first"); check<W>(b[1], m, n, "second");
    }
    b[0].~CBitmap<W>(); new (&b[0]) lce::CBitmap<W>; 
}
static void s_one_all() { switch (mc::choose(7)) { case 0: s_one<1>(); break; case 1: s_one<2>(); break; case 2: s_one<3>(); break; case 3: s_one<4>(); break; case 4: s_one<5>(); break; case 5: s_one<6>(); break; case 6: s_one<8>(); break; } }
static void s_seq_all() { switch (mc::choose(7)) { case 0: s_seq<1>(); break; case 1: s_seq<2>(); break; case 2: s_seq<3>(); break; case 3: s_seq<4>(); break; case 4: s_seq<5>(); break; case 5: s_seq<6>(); break; case 6: s_seq<8>(); break; } }

// segments: create, attach, detach, refusals, in any order
static void s_shm() {
    reset(); firstid = mc::choose(2) ? 0 : 3; mc::set_deviations(2); mc::nontrivial();
    lce::CShm *o[2] = { new lce::CShm, new lce::CShm }; bool att[2] = { false, false }; int seg[2] = { -1, -1 };
    failing = mc::choose(3); map<int, size_t> exist; map<int, char> content;
    for (int d = 0; d < mc::tier(4, 5); d++) {
        int w = mc::choose(2); int k = mc::choose(8); lce::CShm &s = *o[w]; bool f0 = failing;
        if (k < 4) {
            if (att[w]) { mc::prune(); }                  // create on an attached object: not a use
            int key = 10 + (k & 1); bool cr = k < 2; size_t sz = w ? 24 : 16; int fb = failing; bool r = s.create(key, sz, cr); bool hit = failing != fb; mc::op("create(%d, %zu, %d) on %d -> %d", key, sz, cr, w, r); mc::step();
            bool ex = exist.count(key); bool can = ex ? exist[key] >= sz : cr;
            if (!hit) MC_CHECK(r == can, "shm:create result", "create of key %d (exists: %d, create allowed: %d) returns %d", key, ex, cr, r); else MC_CHECK(!r, "shm:create result", "create succeeds although the system refused");
            for (size_t i = 0; i < segs.size(); i++) if (segs[i].key == key) { MC_CHECK(ex || r, "shm:left behind", "a failed create leaves its segment behind: whoever opens it next takes it for initialised"); exist[key] = segs[i].size; }
            att[w] = r; seg[w] = r ? key : -1;
            if (r) { MC_CHECK(s.isCreate() == !ex, "shm:isCreate", "isCreate() is %d, the segment existed: %d", s.isCreate(), ex); MC_CHECK(s.getShmKey() == key && s.getShmSize() == sz && s.getShmBuf(), "shm:attributes", "key/size/buffer wrong"); char *p = (char *)s.getShmBuf(); if (content.count(key)) MC_CHECK(*p == content[key], "shm:content", "content lost"); else MC_CHECK(*p == 0, "shm:content", "new segment not empty"); *p = content[key] = 'a' + d; memset(p + 1, 7, sz - 1); }
        } else if (k == 4 || k == 5) { bool r = s.detach(); mc::op("detach %d -> %d", w, r); mc::step(); MC_CHECK(r, "shm:detach result", "detach fails: %s", s.getErrMsg()); att[w] = false; }
        else if (k == 6) { if (att[w] || seg[w] < 0) mc::prune(); int fb = failing; bool r = s.attach(); mc::op("attach %d -> %d", w, r); mc::step(); MC_CHECK(r == (failing == fb), "shm:attach result", "attach returns %d", r); att[w] = r; if (r) MC_CHECK(*(char *)s.getShmBuf() == content[seg[w]], "shm:content", "content lost"); }
        else { mc::op("object %d replaced", w); delete o[w]; o[w] = new lce::CShm; att[w] = false; seg[w] = -1; mc::step(); }
        for (size_t i = 0; i < segs.size(); i++) { int n = 0; for (int x = 0; x < 2; x++) if (att[x] && seg[x] == segs[i].key) n++; MC_CHECK(segs[i].attached == n, "shm:attachments", "key %d: %d attachments, %d objects hold it", segs[i].key, segs[i].attached, n); mc::state(mc::hmix(segs[i].key, n * 4 + failing)); }
        for (int x = 0; x < 2; x++) MC_CHECK((o[x]->getShmBuf() != NULL) == att[x], "shm:dangling buffer", "an object that is not attached has a buffer");
    }
    delete o[0]; delete o[1]; all_detached();
}
template <class T> static T mk(int i);
struct Rec { char c; int v; char t[7]; bool operator==(const Rec &o) const { return c == o.c && v == o.v && !memcmp(t, o.t, 7); } };
template <> int mk<int>(int i) { return i * 0x01010101; }
template <> double mk<double>(int i) { return i * 1.5; }
template <> char mk<char>(int i) { return i; }
template <> Rec mk<Rec>(int i) { Rec r; memset(&r, 0, sizeof r); r.c = i; r.v = -i; memset(r.t, i, 7); return r; }
template <class T> static void s_arr() {
    reset(); mc::set_deviations(1); failing = mc::choose(2); size_t n = 1 + mc::choose(4); mc::nontrivial(); if (mc::choose(2)) firstid = 5;
    lce::CShmArray<T> *a[2] = { new lce::CShmArray<T>, new lce::CShmArray<T> }; vector<T> m(n, mk<T>(0));
    MC_CHECK(!a[1]->init(9, n, false), "array:init result", "attaching to a segment that does not exist succeeds");
    int fb = failing; bool r = a[0]->init(9, n); MC_CHECK(r == (fb == failing), "array:init result", "init returns %d", r);
    failing = 0;
    if (!r) { r = a[0]->init(9, n); MC_CHECK(r, "array:init result", "the second try fails"); }
    MC_CHECK(a[0]->isCreate(), "array:isCreate", "isCreate() is false after creating");
    size_t n2 = n - mc::choose(2); if (n2) { r = a[1]->init(9, n2, mc::choose(2)); MC_CHECK(r, "array:init result", "attaching fails"); MC_CHECK(!a[1]->isCreate(), "array:isCreate", "isCreate() after attaching"); } else { delete a[1]; a[1] = new lce::CShmArray<T>; MC_CHECK(a[1]->init(9, n), "array:init result", "attaching fails"); }
    for (int d = 0; d < mc::tier(3, 5); d++) {
        int w = mc::choose(2), i = mc::choose(n); (*a[w])[i] = m[i] = mk<T>(d + 1 + w * 10); mc::op("[%d] through %d", i, w); mc::step();
        for (int x = 0; x < 2; x++) { MC_CHECK(a[x]->size() == n, "array:size", "size() is %zu instead of %zu", a[x]->size(), n); const lce::CShmArray<T> &c = *a[x]; for (size_t j = 0; j < n; j++) MC_CHECK(c[j] == m[j], "array:value", "element %zu of %zu differs through object %d", j, n, x); }
        mc::state(mc::hmix(n, i * 64 + d * 8 + w));
        if (d == 1 && mc::choose(2)) { int k = mc::choose(2); delete a[k]; a[k] = new lce::CShmArray<T>; failing = 0; MC_CHECK(a[k]->init(9, n), "array:init result", "attaching again fails"); }
    }
    { lce::CShmArray<T> big; MC_CHECK(!big.init(9, n + 1), "array:init result", "an existing smaller segment is accepted"); }
    delete a[0]; delete a[1]; all_detached();
}
static void s_arrays() { switch (mc::choose(4)) { case 0: s_arr<int>(); break; case 1: s_arr<double>(); break; case 2: s_arr<char>(); break; case 3: s_arr<Rec>(); break; } }
int main(int argc, char **argv) {
    vector<mc::Space> s;
#ifdef SP_BITMAP
    s.push_back({ "one-field", s_one_all, false, 0, "every width, sizes around group borders, every index (inside and outside) and value, other fields full/empty/mixed, then attached by another object, cleared" });
    s.push_back({ "sequences", s_seq_all, false, 0, "sequences of sets and clears through two attached objects" });
#else
    s.push_back({ "segments", s_shm, false, 0, "create/attach/detach/destroy sequences of two objects over two keys with refusals" });
    s.push_back({ "arrays", s_arrays, false, 0, "arrays of four element types through two objects, refusals, mismatching sizes" });
#endif
    return mc::run(argc, argv, s, "operations against a model of the fields/segments/elements; non-trivial: always");
}
