// Clocks, hashes and what a session tells about its client.
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <unordered_map>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <arpa/inet.h>
#include "lce.h"
#include "mcrt.h"
#include "mc.h"
using namespace std;
static const uint64_t CL[] = { 0, 1, 999, 1000, 1001, 999999, 1000000, 1000001, 59999999, 951782400000000ULL, 951868799999999ULL, 1700000000000000ULL, 1700000000123456ULL, 1709210096789000ULL, 2147483646999999ULL, 2147483647000000ULL, 2147483648000000ULL, 4294967295999999ULL, 4294967296000000ULL, 4294967296123456ULL, 4102444800000000ULL };
static const int NC = sizeof CL / sizeof *CL;
static const char *TZS[] = { "UTC", "XXX-8", "YYY+5", "ZZZ-5:30" }; static const int OFF[] = { 0, 8 * 3600, -5 * 3600, 5 * 3600 + 1800 };
// civil date of a day number, independent of libc
static string civil(long s) { long d = s / 86400, r = s % 86400; if (r < 0) { r += 86400; d--; } long z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, dd = doy - (153 * mp + 2) / 5 + 1, mm = mp < 10 ? mp + 3 : mp - 9; if (mm <= 2) y++; return mc::strf("%04ld-%02ld-%02ld %02ld:%02ld:%02ld", y, mm, dd, r / 3600, r / 60 % 60, r % 60); }
static void s_clock() {
    rt::begin(); mc::nontrivial(); int c = mc::choose(NC), z = mc::choose(4), e = mc::choose(6); static const long DE[] = { 0, 1, 999, 1000, 86400000L * 1000, 4300000000L * 1000 };
    static int was = -1; if (was != z) { setenv("TZ", TZS[z], 1); tzset(); was = z; }
    rt::now_us = CL[c]; uint64_t t = lce::GetTickCount(); MC_CHECK(t == CL[c] / 1000, "helpers:tick count", "at %llu us the tick count is %llu", (unsigned long long)CL[c], (unsigned long long)t);
    string s = lce::GetTimeString(), w = civil((long)(CL[c] / 1000000) + OFF[z]); MC_CHECK(s == w, "helpers:time string", "at %llu us in %s the time is %s instead of %s", (unsigned long long)CL[c], TZS[z], s.c_str(), w.c_str());
    lce::StSession a; a.ddwBeginTime = lce::GetTickCount(); rt::now_us += DE[e]; int64_t d = a.getDelayTime(), x = (int64_t)((CL[c] + DE[e]) / 1000 - CL[c] / 1000); MC_CHECK(d == x, "helpers:delay", "%lld ms after %lld", (long long)d, (long long)x);
    rt::now_us = CL[c] > 5000 ? CL[c] - 5000 : 0; d = a.getDelayTime(); x = (int64_t)(rt::now_us / 1000) - (int64_t)a.ddwBeginTime; MC_CHECK(d == x, "helpers:delay", "with the clock set back %lld instead of %lld", (long long)d, (long long)x);
    mc::step(4); mc::state(mc::hash(s)); rt::end();
}
static void s_session() {
    mc::nontrivial(); static const unsigned B[] = { 0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 254, 255 }; static const unsigned P[] = { 0, 1, 80, 255, 256, 8080, 32767, 32768, 65535 };
    unsigned b[4]; for (int i = 0; i < 4; i++) b[i] = B[mc::choose(12)]; unsigned p = P[mc::choose(9)];
    lce::StSession s; static const lce::StSession zero; MC_CHECK(s.iFd == 0 && s.iSvrId == 0 && s.pData == NULL && s.ddwBeginTime == 0 && s.getIp() == 0 && s.getPort() == 0, "helpers:new session", "a new session is not empty"); (void)zero;
    unsigned char q[4] = { (unsigned char)b[0], (unsigned char)b[1], (unsigned char)b[2], (unsigned char)b[3] }; memcpy(&s.stClientAddr.sin_addr.s_addr, q, 4); unsigned char r[2] = { (unsigned char)(p >> 8), (unsigned char)p }; memcpy(&s.stClientAddr.sin_port, r, 2);
    uint32_t ip = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; string w = mc::strf("%u.%u.%u.%u", b[0], b[1], b[2], b[3]); lce::StSession c(s);
    MC_CHECK(c.getIp() == ip, "helpers:session ip", "%s is %08x", w.c_str(), c.getIp()); MC_CHECK(c.getStrIp() == w, "helpers:session ip", "%s is %s", w.c_str(), c.getStrIp().c_str()); MC_CHECK(c.getPort() == p, "helpers:session port", "%u is %u", p, c.getPort()); MC_CHECK(lce::InetNtoA(c.getIp()) == w, "helpers:address text", "%s is %s", w.c_str(), lce::InetNtoA(c.getIp()).c_str()); mc::step(4); mc::state(mc::hmix(ip, p));
}
static const unsigned char AB[] = { 0, 1, 'a', 127, 128, 255 };
static size_t poly(const string &s) { unsigned long h = 0; for (size_t i = 0; i < s.size(); i++) h = h * 5 + (unsigned long)(long)(signed char)s[i]; return h; }
static void s_hash() {
    mc::nontrivial(); int n = mc::choose(mc::tier(8, 9)); string s; for (int i = 0; i < n; i++) s += (char)AB[mc::choose(6)]; char *x = new char[n]; memcpy(x, s.data(), n); size_t h = lce::Hash(x, (size_t)n); delete[] x;
    MC_CHECK(h == poly(s), "helpers:hash", "the hash of %s is %zu instead of %zu", mc::esc(s).c_str(), h, poly(s)); MC_CHECK(lce::Hash(s) == h, "helpers:hash", "the hash of the string %s differs", mc::esc(s).c_str());
    if (n == 4) { int v; memcpy(&v, s.data(), 4); MC_CHECK(lce::Hash(v) == h && lce::Hash((unsigned)v) == h, "helpers:hash of a number", "%d", v); } if (n == 8) { long v; memcpy(&v, s.data(), 8); MC_CHECK(lce::Hash(v) == h && lce::Hash((unsigned long)v) == h, "helpers:hash of a number", "%ld", v); }
    mc::step(); if (n < 6) mc::state(h);
}
int main(int argc, char **argv) {
    vector<mc::Space> s;
    s.push_back({ "clock", s_clock, false, 0, "21 clock values up to beyond 32 bits, four time zones, six delays" });
    s.push_back({ "session", s_session, false, 0, "12 values for each byte of the address, 9 ports" });
    s.push_back({ "hash", s_hash, false, 0, "all byte strings up to 7 (8) over six values" });
    return mc::run(argc, argv, s, "every helper call checked against an independent calculation");
}
