// mc: a small stateless model checker.  A "space" is a body that makes finitely
// many choices through mc::choose(); the engine runs the body on EVERY choice
// sequence (depth-first, backtracking on the last choice), sharded over worker
// processes.  Bodies run the real code under test and compare it with a model.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
namespace mc {

// ---- choices -------------------------------------------------------------
int choose(int n);                       // 0..n-1, enumerated exhaustively
int choose_dev(int n, int cost = 1);     // like choose, but every value != 0 is a
                                         // "deviation" charged to the budget set by
                                         // set_deviations(); 0 when the budget is spent
void set_deviations(int budget);
bool thorough();
inline int tier(int q, int t) { return thorough() ? t : q; }
uint64_t seed();

// ---- verdicts ------------------------------------------------------------
// Ends the current execution with a violation. sig identifies the kind of
// failure (stable across runs; known findings are matched on it).
void fail(const char *sig, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
#define MC_CHECK(cond, sig, ...) do { if (!(cond)) mc::fail(sig, __VA_ARGS__); } while (0)
// Abandon this execution as outside the space (not counted).
void prune() __attribute__((noreturn));
// Forked-execution bodies may end early and cleanly.
void done() __attribute__((noreturn));

// ---- bookkeeping ---------------------------------------------------------
void op(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // trace text (samples, replays)
bool logging();
void state(uint64_t h);                  // fingerprint of a visited state
void step(uint64_t n = 1);               // transitions taken
void nontrivial();                       // marks this execution as non-trivial
uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ULL) { return hash(s.data(), s.size(), h); }
inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
std::string esc(const std::string &s, size_t max = 80);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string scratch();                   // private scratch directory of this worker (exists)

struct Space {
    const char *name;
    void (*body)();
    bool forked;        // run every execution in its own process
    int cpu_seconds;    // CPU limit of one execution (0: default 20)
    const char *desc;
};
int run(int argc, char **argv, const std::vector<Space> &spaces, const char *rule);
bool in_body();
}
#endif
