// CLruCache and CLruCacheV2 used by several threads: every concurrent history has
// the results of some sequential one on the same cache class.
#include <stdint.h>
#include <string.h>
#include <string>
#include <vector>
#include <algorithm>
#include "CLruCache.h"
#include "mcrt.h"
#include "mc.h"
using namespace std; using namespace lce;
enum { SET, SETX, GET, DEL, CLEAR, SIZE, NOPS };
struct Op { int k, key, val, thr; uint64_t from, to; string res; };
static const char *KEY[] = { "a", "b", "c", "dd" };
template <class C> static string apply(C &c, const Op &o) {
    string k = KEY[o.key]; switch (o.k) {
    case SET: return c.set(k, "v" + to_string(o.val)) ? "ok" : "no";
    case SETX: return c.set(k, "v" + to_string(o.val), 100) ? "ok" : "no";
    case GET: { string v = "unset"; return c.get(k, v) ? v : "none"; }
    case DEL: c.del(k); return "ok";
    case CLEAR: c.clear(); return "ok";
    default: return to_string(c.getSize()); } }
static string show(const Op &o) { static const char *N[] = { "set", "set-expiring", "get", "del", "clear", "getSize" }; return mc::strf("thread %d: %s(%s) -> %s", o.thr, N[o.k], o.k >= CLEAR ? "" : KEY[o.key], o.res.c_str()); }
template <class C> static string content(C &c) { string s = to_string(c.getSize()); for (int i = 0; i < 4; i++) { string v; s += string(" ") + KEY[i] + "=" + (c.get(KEY[i], v) ? v : "-"); } return s; }
template <class C> static bool explains(size_t cap, const vector<Op> &pre, vector<Op> &ops, vector<int> &ord, uint32_t used, const string &fin) {
    if (ord.size() == ops.size()) { C c(cap); for (size_t i = 0; i < pre.size(); i++) apply(c, pre[i]); for (size_t i = 0; i < ord.size(); i++) if (apply(c, ops[ord[i]]) != ops[ord[i]].res) return false; return content(c) == fin; }
    for (size_t i = 0; i < ops.size(); i++) if (!(used >> i & 1)) { bool ok = true; for (size_t j = 0; j < ops.size(); j++) if (j != i && !(used >> j & 1) && (ops[j].to < ops[i].from)) ok = false; if (!ok) continue; ord.push_back(i); if (explains<C>(cap, pre, ops, ord, used | 1u << i, fin)) return true; ord.pop_back(); }
    return false; }
template <class C> static void body(bool v2, int threads, int per) {
    rt::begin(); mc::nontrivial(); static const size_t CAP[] = { 1, 2, 100 }; bool small = threads > 2 && !mc::tier(0, 1); size_t cap = CAP[small ? 1 : mc::choose(v2 ? 2 : 3)]; if (v2) cap *= CACHE_LOCK_NUM;
    C *c = new C(cap); vector<Op> pre; int np = small ? 2 : mc::choose(3); for (int i = 0; i < np; i++) { Op o = { i ? SETX : SET, i, 90 + i, 0, 0, 0, "" }; pre.push_back(o); apply(*c, o); }
    vector<vector<Op> > plan(threads); int val = 0; for (int t = 0; t < threads; t++) for (int i = 0; i < (t ? 1 : per); i++) { int k = mc::choose(v2 ? CLEAR : NOPS); int key = k >= CLEAR ? 0 : t == 0 && i == 0 ? mc::choose(2) : mc::choose(k == GET ? 2 : 3); Op o = { k, key, val++, t + 1, 0, 0, "" }; plan[t].push_back(o); }
    vector<Op> hist; static uint64_t clk; clk = 0; mc::set_deviations(small ? 1 : 2); rt::race_detect(true);
    rt::set_deadlock([]() { string b = rt::blocked_report(); mc::fail("lru:deadlock", "an operation never completes\n%s", b.c_str()); });
    vector<int> ids; for (int t = 0; t < threads; t++) ids.push_back(rt::spawn([&, t]() { for (size_t i = 0; i < plan[t].size(); i++) { Op o; { rt::Quiet z; o = plan[t][i]; o.from = clk++; } string r = apply(*c, o); rt::Quiet z; o.res = r; o.to = clk++; hist.push_back(o); mc::op("%s", show(o).c_str()); mc::step(); } }, "user"));
    for (int t = 0; t < threads; t++) rt::join(ids[t]);
    rt::race_detect(false); rt::Quiet z; string fin = content(*c); vector<int> ord; MC_CHECK(explains<C>(cap, pre, hist, ord, 0, fin), "lru:not linearizable", "no order of these operations on a cache of %zu with %d entries gives these results and leaves %s", cap, np, fin.c_str());
    mc::state(mc::hash(fin)); delete c; rt::end();
}
static void s_two() { body<CLruCache<string, string> >(false, 2, mc::tier(2, 3)); }
static void s_three() { body<CLruCache<string, string> >(false, 3, 1); }
static void s_v2() { body<CLruCacheV2<string, string> >(true, 2, mc::tier(2, 2)); }
int main(int argc, char **argv) { vector<mc::Space> s; s.push_back({ "two-threads", s_two, false, 0, "two threads with two (three) and one operations on CLruCache, capacities 1, 2 and ample" }); s.push_back({ "three-threads", s_three, false, 0, "three threads with one operation each" }); s.push_back({ "v2", s_v2, false, 0, "CLruCacheV2: two threads, keys in the same and in different shards" }); return mc::run(argc, argv, s, "schedules of threads using the real caches; non-trivial: always"); }
