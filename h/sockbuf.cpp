// CSocketBuf against a model string.
#include <string.h>
#include <new>
#include "CSocketBuf.h"
#include "mc.h"
using namespace std; using namespace lce;
static int g_next;
static string bytes(int n) { string s; for (int i = 0; i < n; i++) s += (char)('a' + g_next++ % 26); return s; }
static void check(const CSocketBuf &b, const string &m, int max) {
    MC_CHECK(b.getSize() == (int)m.size(), "sockbuf:size", "holds %d bytes, model %zu", b.getSize(), m.size());
    MC_CHECK(m.empty() || memcmp(b.getData(), m.data(), m.size()) == 0, "sockbuf:content", "content '%s', expected '%s'", string(b.getData(), b.getSize()).c_str(), m.c_str());
    MC_CHECK(b.getBufSize() <= max && b.getBufMaxSize() == max, "sockbuf:limit", "buffer of %d with a limit of %d", b.getBufSize(), max);
    MC_CHECK(b.getFreeSize() >= 0 && b.getSize() + b.getFreeSize() <= b.getBufSize(), "sockbuf:free size", "free %d, size %d, buffer %d", b.getFreeSize(), b.getSize(), b.getBufSize());
    mc::state(mc::hmix(mc::hmix(m.size(), b.getBufSize()), b.getFreeSize() * 64 + max));
}
static void s_ops() {
    static const int IM[][2] = { { 4, 16 }, { 4, 4 }, { 1, 3 }, { 4, 6 }, { 8, 9 }, { 2, 13 }, { 1, 1 } };
    int k = mc::choose(7), init = IM[k][0], max = IM[k][1]; g_next = 0;
    CSocketBuf b(init, max); string m; check(b, m, max); int depth = mc::tier(5, 7); mc::nontrivial();
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(14);
        static const int AD[] = { 0, 1, 3, 4, 5, 9, 13, 17 };
        if (o < 8) { string x = bytes(AD[o]); mc::op("addData(%d)", AD[o]); char *h = new char[x.size()]; memcpy(h, x.data(), x.size()); bool r = b.addData(h, x.size()); delete[] h; bool fits = (int)(m.size() + x.size()) <= max;
            MC_CHECK(r == fits, "sockbuf:add result", "adding %d to %zu of %d: %d", AD[o], m.size(), max, r); if (r) m += x; }
        else if (o < 11) { int n = o == 8 ? 1 : o == 9 ? m.size() / 2 : m.size(); if (n > (int)m.size() || (n == 0 && o != 10)) continue; mc::op("removeData(%d)", n); b.removeData(n); m.erase(0, n); }
        else if (o == 11 || o == 12) { // the receive pattern: make room, read into it
            if (b.getFreeSize() == 0) { mc::op("addFreeBuf"); b.addFreeBuf(); check(b, m, max); MC_CHECK((int)m.size() == max || b.getFreeSize() > 0, "sockbuf:no room", "addFreeBuf makes no room with %zu of %d used", m.size(), max); }
            int n = b.getFreeSize(); if (o == 12 && n > 1) n = 1; string x = bytes(n); mc::op("read %d into the buffer", n); if (n) memcpy(b.getFreeBuf(), x.data(), n); MC_CHECK(b.addData(n), "sockbuf:add result", "addData(%d) refuses bytes read into its free space", n); m += x; }
        else { mc::op("reset"); b.reset(); m.clear(); }
        mc::step(); check(b, m, max);
    }
}
// copies are independent of the original
static void s_copy() {
    g_next = 0; int max = 12; mc::nontrivial();
    char mem[2][sizeof(CSocketBuf)]; memset(mem, mc::choose(2) ? 0x7f : 0, sizeof mem);
    CSocketBuf *a = new (mem[0]) CSocketBuf(4, max), *b; string ma, mb; bool emptyb = false;
    for (int i = mc::choose(3); i > 0; i--) { string x = bytes(3); a->addData(x.data(), 3); ma += x; }
    if (ma.size() && mc::choose(2)) { a->removeData(2); ma.erase(0, 2); }
    switch (mc::choose(4)) {
        case 0: b = new (mem[1]) CSocketBuf(*a); mb = ma; break;
        case 1: b = new (mem[1]) CSocketBuf(); *b = *a; mb = ma; break;
        case 2: b = new (mem[1]) CSocketBuf(2, 20); b->addData("zz", 2); *b = *a; mb = ma; break;
        default: { b = new (mem[1]) CSocketBuf(); MC_CHECK(b->getSize() == 0, "sockbuf:size", "an empty buffer holds %d", b->getSize()); MC_CHECK(b->getFreeSize() == 0 && b->getBufSize() == 0, "sockbuf:default", "a default buffer claims %d bytes of room", b->getFreeSize()); CSocketBuf c(*b); MC_CHECK(c.getSize() == 0 && c.getFreeSize() == 0, "sockbuf:default", "copy of a default buffer claims room"); emptyb = true; } }
    if (!emptyb) check(*b, mb, max);
    for (int d = 0; d < 3; d++) {
        int o = mc::choose(7); CSocketBuf *x = o % 2 && !emptyb ? b : a; string &m = x == b ? mb : ma;
        if (o < 2) { string y = bytes(3); bool r = x->addData(y.data(), 3); MC_CHECK(r == (m.size() + 3 <= 12), "sockbuf:add result", "add on a copy: %d", r); if (r) m += y; }
        else if (o < 4) { if (m.size()) { x->removeData(1); m.erase(0, 1); } }
        else if (o < 6) { x->reset(); m.clear(); }
        else { CSocketBuf &r = *a; *a = r; }
        mc::step(); check(*a, ma, max); if (!emptyb) check(*b, mb, max);
    }
    a->~CSocketBuf(); b->~CSocketBuf();
}
int main(int argc, char **argv) {
    vector<mc::Space> s;
    s.push_back({ "operations", s_ops, false, 0, "all operation sequences, seven init/limit pairs" });
    s.push_back({ "copies", s_copy, false, 0, "copies, assignment, default construction on dirty memory" });
    return mc::run(argc, argv, s, "operation sequences add/remove/receive/reset/copy against a model string; non-trivial: always");
}
