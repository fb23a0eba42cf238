// LRU cache against a reference model: all operation sequences.
#include <stdint.h>
#include <time.h>
#include <string>
#include <list>
#include <map>
#include <vector>
#include "CLruCache.h"
#include "mc.h"
using namespace std;

static time_t g_now = 1700000000;
extern "C" time_t time(time_t *t) throw() { if (t) *t = g_now; return g_now; }
extern "C" int gettimeofday(struct timeval *tv, void *) throw() { tv->tv_sec = g_now; tv->tv_usec = 0; return 0; }

// Reference model. Eviction is only checked for what the cache promises: it
// happens only when full, removes least recently used entries first, never more
// than one batch, and the entry just stored is present.
struct Model {
    struct E { string v; time_t at; uint32_t exp; };
    map<string, E> m; list<string> order;   // front: most recent
    void touch(const string &k) { order.remove(k); order.push_front(k); }
    void erase(const string &k) { m.erase(k); order.remove(k); }
    bool live(const string &k) { map<string, E>::iterator i = m.find(k); return i != m.end() && (i->second.exp == 0 || (uint32_t)(g_now - i->second.at) <= i->second.exp); }
};
static const size_t BATCH = 50;

template <class C> static void do_get(C &c, Model &m, const string &k) {
    string v = "unset"; bool r = c.get(k, v); bool e = m.live(k);
    mc::op("get(%s) -> %d %s", k.c_str(), r, v.c_str()); mc::step();
    MC_CHECK(r == e, e ? "lru:lost entry" : "lru:phantom entry", "get(%s) returned %d, expected %d", k.c_str(), r, e);
    if (e) { MC_CHECK(v == m.m[k].v, "lru:wrong value", "get(%s) gave %s, expected %s", k.c_str(), v.c_str(), m.m[k].v.c_str()); m.touch(k); }
    else m.erase(k);
}
template <class C> static void do_set(C &c, Model &m, const string &k, const string &v, uint32_t exp, size_t cap, bool sharded) {
    bool had = m.m.count(k); size_t before = m.m.size();
    bool r = c.set(k, v, exp);
    mc::op("set(%s,%s,%u) -> %d size=%zu", k.c_str(), v.c_str(), exp, r, c.getSize()); mc::step();
    MC_CHECK(r, "lru:set refused", "set(%s) returned false", k.c_str());
    size_t expect = before + (had ? 0 : 1), got = c.getSize();
    if (got != expect && !sharded) {
        // an eviction happened: allowed only when the cache was at capacity
        MC_CHECK(before >= cap, "lru:early eviction", "set(%s) evicted with %zu entries, capacity %zu", k.c_str(), before, cap);
        // drop least recent entries of the model until sizes agree
        size_t dropped = 0;
        while (!m.order.empty() && m.m.size() + (m.m.count(k) ? 0 : 1) > got && dropped < BATCH) { string old = m.order.back(); m.erase(old); dropped++; }
        MC_CHECK(m.m.size() + (m.m.count(k) ? 0 : 1) == got, "lru:size", "after set(%s) size %zu cannot result from evicting the %zu oldest of %zu", k.c_str(), got, dropped, before);
    }
    Model::E e; e.v = v; e.at = g_now; e.exp = exp; m.m[k] = e; m.touch(k);
    if (!sharded) {
        MC_CHECK(got <= cap + 1, "lru:capacity", "%zu entries with capacity %zu", got, cap);
        MC_CHECK(got == m.m.size(), "lru:size", "getSize %zu, model %zu", got, m.m.size());
    }
}
template <class C> static void verify(C &c, Model &m, const vector<string> &keys) {
    for (size_t i = 0; i < keys.size(); i++) do_get(c, m, keys[i]);
    uint64_t h = 7; for (list<string>::iterator i = m.order.begin(); i != m.order.end(); ++i) h = mc::hash(*i + "=" + m.m[*i].v, h);
    mc::state(h);
}
static uint64_t fp(Model &m) { uint64_t h = 7; for (list<string>::iterator i = m.order.begin(); i != m.order.end(); ++i) h = mc::hmix(mc::hash(*i + "=" + m.m[*i].v, h), g_now - m.m[*i].at); return h; }

template <class C> static void small_body(size_t cap, int depth) {
    g_now = 1700000000;
    C c(cap); Model m; vector<string> keys; keys.push_back("a"); keys.push_back("b"); keys.push_back("c");
    MC_CHECK(c.getMaxSize() == cap, "lru:capacity setting", "constructed for %zu entries, reports %zu", cap, c.getMaxSize());
    int sets = 0;
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(12);
        if (o < 3) do_get(c, m, keys[o]);
        else if (o < 6) do_set(c, m, keys[o - 3], mc::strf("v%d", d), 0, cap, false), sets++;
        else if (o < 8) do_set(c, m, keys[o - 6], mc::strf("v%d", d), 2, cap, false), sets++;
        else if (o < 10) { string k = keys[o - 8]; mc::op("del(%s)", k.c_str()); mc::step(); c.del(k); m.erase(k); MC_CHECK(c.getSize() == m.m.size(), "lru:size", "getSize %zu model %zu after del", c.getSize(), m.m.size()); }
        else if (o == 10) { c.clear(); m.m.clear(); m.order.clear(); mc::op("clear"); mc::step(); MC_CHECK(c.getSize() == 0, "lru:clear", "size %zu after clear", c.getSize()); }
        else { g_now += 2; mc::op("2 s pass"); if (mc::choose(2)) { g_now += 1; mc::op("1 s passes"); } }
        mc::state(fp(m));
    }
    if (sets) mc::nontrivial();
    verify(c, m, keys);
}
static void s_cap10() { small_body<lce::CLruCache<string, string> >(10, mc::tier(5, 6)); }
static void s_cap2() { small_body<lce::CLruCache<string, string> >(2, mc::tier(5, 6)); }
static void s_cap1() { small_body<lce::CLruCache<string, string> >(1, mc::tier(4, 6)); }

// Full cache: who survives the eviction depends on every earlier touch.
static void s_evict() {
    g_now = 1700000000;
    const int extra = mc::choose(3) * 7 + 1;          // survivors after one batch
    const size_t cap = BATCH + extra;
    lce::CLruCache<string, string> c(cap); Model m; vector<string> keys;
    int fill = cap + 1 - mc::choose(2);
    for (int i = 0; i < fill; i++) { keys.push_back(mc::strf("k%02d", i)); do_set(c, m, keys[i], "0", 0, cap, false); }
    mc::nontrivial();
    const int idx[] = { 0, 1, 2, (int)BATCH - 1, (int)BATCH, fill - 1 }; const int NI = 6;
    int depth = mc::tier(3, 4), fresh = 0;
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(NI * 3 + 2); int k = idx[o < NI * 3 ? o % NI : 0];
        if (o < NI) do_get(c, m, keys[k]);
        else if (o < 2 * NI) do_set(c, m, keys[k], mc::strf("v%d", d), 0, cap, false);
        else if (o < 3 * NI) { mc::op("del(%s)", keys[k].c_str()); c.del(keys[k]); m.erase(keys[k]); mc::step(); }
        else if (o == 3 * NI) { string n = mc::strf("n%d", fresh++); keys.push_back(n); do_set(c, m, n, "new", 0, cap, false); }
        else { for (int i = 0; i < 3; i++) { string n = mc::strf("n%d", fresh++); keys.push_back(n); do_set(c, m, n, "new", 0, cap, false); } }
        mc::state(fp(m));
    }
    // two more insertions force the eviction if it has not happened yet
    for (int i = 0; i < 2; i++) { string n = mc::strf("z%d", i); keys.push_back(n); do_set(c, m, n, "new", 0, cap, false); }
    verify(c, m, keys);
}
// Long runs: many evictions in a row, cycling keys; all periods and capacities.
static void s_long() {
    g_now = 1700000000;
    size_t cap = mc::choose(7) * 17; int period = 1 + mc::choose(4) * 40 + mc::choose(3); int touch = mc::choose(4);
    lce::CLruCache<string, int> c(cap);
    list<int> order; map<int, int> val;
    mc::nontrivial();
    for (int i = 0; i < 700; i++) {
        int k = i % period;
        c.set(mc::strf("%d", k), i, 0); val[k] = i; mc::step();
        MC_CHECK(c.getSize() <= cap + 1, "lru:capacity", "%zu entries with capacity %zu", c.getSize(), cap);
        int v = -1; MC_CHECK(c.get(mc::strf("%d", k), v) && v == i, "lru:lost entry", "key stored just now is missing (capacity %zu, step %d)", cap, i);
        if (touch) { int q = (k + touch * 13) % period, w = -1; if (c.get(mc::strf("%d", q), w)) MC_CHECK(val.count(q) && val[q] == w, "lru:wrong value", "stale value for %d", q); }
        if (touch == 3 && i % 5 == 0) { int q = (k + 3) % period; c.del(mc::strf("%d", q)); int w; MC_CHECK(!c.get(mc::strf("%d", q), w), "lru:phantom entry", "deleted key found"); }
    }
    mc::state(mc::hmix(cap, period * 8 + touch));
}
// The sharded cache: a map with expiry, capacity shared over shards.
static void s_v2() {
    g_now = 1700000000;
    typedef lce::CLruCacheV2<string, string> C;
    C c(1000); Model m; vector<string> keys; keys.push_back("a"); keys.push_back("b"); keys.push_back("abc1"); 
    MC_CHECK(c.getMaxSize() == 1000, "lru:capacity setting", "reports %zu", c.getMaxSize());
    int depth = mc::tier(4, 5), sets = 0;
    for (int d = 0; d < depth; d++) {
        int o = mc::choose(11);
        if (o < 3) do_get(c, m, keys[o]);
        else if (o < 6) do_set(c, m, keys[o - 3], mc::strf("v%d", d), 0, 1000, false), sets++;
        else if (o == 6) do_set(c, m, keys[0], mc::strf("v%d", d), 2, 1000, false), sets++;
        else if (o < 9) { c.del(keys[o - 7]); m.erase(keys[o - 7]); mc::op("del"); mc::step(); MC_CHECK(c.getSize() == m.m.size(), "lru:size", "getSize %zu model %zu after del", c.getSize(), m.m.size()); }
        else if (o == 9) { c.clear(); m.m.clear(); m.order.clear(); mc::op("clear"); mc::step(); MC_CHECK(c.getSize() == 0, "lru:clear", "size %zu after clear", c.getSize()); }
        else { g_now += 2 + mc::choose(2); mc::op("time passes"); }
        mc::state(fp(m));
    }
    if (sets) mc::nontrivial();
    verify(c, m, keys);
}
static void s_v2cap() {
    g_now = 1700000000;
    static const size_t caps[] = { 0, 1, 31, 32, 33, 64, 100, 1000 };
    size_t cap = caps[mc::choose(8)]; int n = 200 + mc::choose(3) * 700;
    lce::CLruCacheV2<string, string> c(cap); mc::nontrivial();
    for (int i = 0; i < n; i++) {
        string k = mc::strf("key%d", i); c.set(k, k); mc::step();
        string v; MC_CHECK(c.get(k, v) && v == k, "lru:lost entry", "sharded: key %d stored just now is missing", i);
        MC_CHECK(c.getSize() <= cap + 32, "lru:capacity", "sharded: %zu entries with capacity %zu", c.getSize(), cap);
    }
    for (int i = 0; i < n; i++) { string k = mc::strf("key%d", i), v; if (c.get(k, v)) MC_CHECK(v == k, "lru:wrong value", "sharded: %s -> %s", k.c_str(), v.c_str()); }
    mc::state(mc::hmix(cap, n));
}
int main(int argc, char **argv) {
    vector<mc::Space> s = {
        { "capacity10", s_cap10, false, 0, "all operation sequences, 3 keys, never full" },
        { "capacity2", s_cap2, false, 0, "all operation sequences, 3 keys, capacity 2" },
        { "capacity1", s_cap1, false, 0, "all operation sequences, 3 keys, capacity 1" },
        { "eviction-order", s_evict, false, 0, "full cache, all touch sequences, then overflow" },
        { "long-runs", s_long, false, 0, "700-step fill patterns over all capacities/periods" },
        { "sharded", s_v2, false, 0, "all operation sequences on the sharded cache" },
        { "sharded-capacity", s_v2cap, false, 0, "sharded capacity bounds" },
    };
    return mc::run(argc, argv, s, "operation sequences set/get/del/clear/time over few keys; non-trivial: at least one store");
}
