// CAsyncLog and CLog: buffered logging with a background thread.
#include <string>
#include <string.h>
#include <stdio.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <vector>
#include <map>
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <functional>
#include <byteswap.h>
#include <sys/stat.h>
#include "CLog.h"
#include "CFileLog.h"
#include <sys/uio.h>
#include <sys/syscall.h>
#include <errno.h>
#include "mcrt.h"
#include "mc.h"
using namespace std;
// one static result, as in the C library, but with accesses the race detector sees
extern "C" struct tm *localtime_r(const time_t *t, struct tm *o) throw() { return gmtime_r(t, o); }
extern "C" struct tm *localtime(const time_t *t) throw() { static struct tm r; struct tm v; gmtime_r(t, &v); r.tm_year = v.tm_year; r.tm_mon = v.tm_mon; r.tm_mday = v.tm_mday; r.tm_hour = v.tm_hour; r.tm_min = v.tm_min; r.tm_sec = v.tm_sec; return &r; }
static string dir; static string slurp(const string &f) { string s; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return s; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static vector<string> files() { vector<string> v; DIR *d = opendir(dir.c_str()); if (!d) return v; while (dirent *e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(d); sort(v.begin(), v.end()); return v; }
static void wipe() { if (dir.empty()) dir = mc::scratch() + "/alog"; mkdir(dir.c_str(), 0700); vector<string> f = files(); for (size_t i = 0; i < f.size(); i++) unlink((dir + "/" + f[i]).c_str()); }
// all lines, oldest first: per date the highest number first
static string all(size_t *biggest = 0, size_t *count = 0) { rt::Quiet z; vector<string> f = files(); map<string, map<int, string> > by; for (size_t i = 0; i < f.size(); i++) { int n = 0; size_t u = f[i].find('_'); string d = u == string::npos ? "" : f[i].substr(u + 1, 10); MC_CHECK(f[i].compare(0, 4, "log_") == 0 && f[i].size() > 4 + 10 + 3 && f[i].substr(f[i].size() - 4) == ".log", "log:file name", "a file is called %s", f[i].c_str()); if (f[i].size() > 18) n = atoi(f[i].c_str() + 15); by[d][-n] = slurp(dir + "/" + f[i]); } string s; for (map<string, map<int, string> >::iterator i = by.begin(); i != by.end(); ++i) { if (count && i->second.size() > *count) *count = i->second.size(); for (map<int, string>::iterator j = i->second.begin(); j != i->second.end(); ++j) { s += j->second; if (biggest && j->second.size() > *biggest) *biggest = j->second.size(); } } return s; }
struct W { int who, n; string text; bool ok, done; }; static vector<W> recs; static size_t started, bufsize;
static lce::CAsyncLog *lg;
static string stamp() { time_t t = rt::now_us / 1000000; struct tm g; gmtime_r(&t, &g); char b[32]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &g); return b; }
static void put(int who, int n, size_t len, int how) {
    size_t me, before; string line; { rt::Quiet z; line = mc::strf("%d.%d:", who, n); while (line.size() < len) line += (char)('a' + who); W w = { who, n, "", false, false }; w.text = (how == 0 ? "" : how == 1 ? "[" + stamp() + "]" : "[" + stamp() + "]:") + line + "\n"; me = recs.size(); recs.push_back(w); before = all().size(); }
    bool ok = how == 0 ? lg->writeRaw(line) : how == 1 ? lg->write(line) : lg->write("%s%c", line.substr(0, line.size() - 1).c_str(), line[line.size() - 1]);
    rt::Quiet z; recs[me].ok = ok; recs[me].done = true; mc::op("thread %d writes %s: %d", who, mc::esc(recs[me].text).c_str(), ok); mc::step(); if (!ok) { size_t out = 0; for (size_t i = 0; i < recs.size(); i++) if (recs[i].ok || !recs[i].done) out += recs[i].text.size(); out += recs[me].text.size(); MC_CHECK(out > bufsize + before, "log:refused", "a line of %zu bytes is refused although at most %zu of %zu bytes wait", recs[me].text.size(), out - recs[me].text.size() - before, bufsize); }
}
// every accepted line once, whole, in each writer's order
static void verify(const char *when, bool complete, size_t mayLose = 0) {
    rt::Quiet z; string s = all(); mc::op("%s: %zu bytes in the files", when, s.size()); mc::state(mc::hash(s)); vector<string> got; size_t p = 0, q; while ((q = s.find('\n', p)) != string::npos) { got.push_back(s.substr(p, q + 1 - p)); p = q + 1; } MC_CHECK(p == s.size(), "log:torn line", "%s: the file ends with %s", when, mc::esc(s.substr(p)).c_str());
    vector<bool> seen(recs.size()); map<int, int> last; for (size_t i = 0; i < got.size(); i++) { size_t k = 0; while (k < recs.size() && (recs[k].text != got[i] || seen[k])) k++; if (k == recs.size()) { for (size_t j = 0; j < recs.size(); j++) MC_CHECK(recs[j].text != got[i], "log:line twice", "%s: %s appears twice", when, mc::esc(got[i]).c_str()); mc::fail("log:mixed line", "%s: the file holds %s, which nobody wrote", when, mc::esc(got[i]).c_str()); } seen[k] = true; MC_CHECK(!recs[k].done || recs[k].ok, "log:refused line", "%s: a refused line is in the file", when); MC_CHECK(!last.count(recs[k].who) || last[recs[k].who] < recs[k].n, "log:order", "%s: %s is after a later line of its thread", when, mc::esc(got[i]).c_str()); last[recs[k].who] = recs[k].n; }
    if (complete) for (size_t k = 0; k < recs.size(); k++) if (recs[k].ok && !seen[k]) { if (mayLose) { mayLose--; continue; } mc::fail("log:lost line", "%s: %s is missing", when, mc::esc(recs[k].text).c_str()); }
}
static void setup(int secs, unsigned long maxsize, unsigned num, size_t buf) { rt::file_faults = 0; rt::begin(); wipe(); rt::race_detect(true); recs.clear(); bufsize = buf; rt::set_deadlock([]() { string b = rt::blocked_report(); mc::fail("log:deadlock", "an operation never completes\n%s", b.c_str()); }); lg = new lce::CAsyncLog; MC_CHECK(lg->init(dir + "/log", secs, maxsize, num, false, buf), "log:init", "init fails"); mc::nontrivial(); }
static void finish() { mc::op("destroy"); delete lg; lg = 0; MC_CHECK(rt::live_fibers() == 0, "log:threads left", "%d threads survive the log", rt::live_fibers()); verify("after destruction", true); mc::done(); }
static void s_conc() {
    int nw = 1 + mc::choose(2), fl = mc::choose(2), k = mc::choose(3); static const size_t B[] = { 12, 24, 4096 }; setup(0, 1 << 20, 5, B[k]); mc::set_deviations(mc::tier(nw + fl > 2 ? 1 : 2, nw + fl > 2 ? 2 : 3)); rt::watch_heap(true);
    vector<int> t; for (int i = 0; i < nw; i++) t.push_back(rt::spawn([i]() { for (int n = 0; n < 2; n++) put(i + 1, n, n ? 11 : 6, 0); }, "writer")); if (fl) t.push_back(rt::spawn([]() { lg->flush(); { rt::Quiet z; mc::op("flushed"); } }, "flusher"));
    if (mc::choose(2)) { for (size_t i = 0; i < t.size(); i++) rt::join(t[i]); usleep(350000); verify("after some ticks", true); } else for (size_t i = 0; i < t.size(); i++) rt::join(t[i]);
    if (mc::choose(2)) { lg->flush(); verify("after flush", true); }
    finish();
}
static void s_stamp() { setup(0, 1 << 20, 5, 4096); mc::set_deviations(2); rt::watch_heap(true); int t[2]; for (int i = 0; i < 2; i++) t[i] = rt::spawn([i]() { put(i + 1, 0, 6, 1 + i % 2); }, "writer"); for (int i = 0; i < 2; i++) rt::join(t[i]); finish(); }
// one thread, every timing: what was written is in the file after the interval
static void s_time() {
    int secs = mc::choose(3); static const size_t B[] = { 20, 45, 4096 }; setup(secs, 1 << 20, 5, B[mc::choose(3)]); rt::ordered(true); int n = mc::tier(3, 4);
    static const int D[] = { 0, 60, 1000 }; for (int i = 0; i < n; i++) { put(1, i, mc::choose(2) ? 19 : 7, 0); int d = D[mc::choose(3)]; if (d) usleep(d * 1000); if (mc::choose(3) == 0) { lg->flush(); verify("after flush", true); } }
    bool idle = mc::choose(2); if (idle) { usleep((2 * secs + 1) * 1000000); verify("after the interval", true); put(1, n, 9, 2); usleep((2 * secs + 1) * 1000000); verify("after another interval", true); } finish();
}
// rotation by size and by date
static void s_rotate() {
    unsigned num = 2 + mc::choose(2); setup(0, 30, num, 4096); rt::ordered(true); int n = mc::tier(5, 7); size_t lost = 0; string want, day; vector<string> chunk;
    for (int i = 0; i < n; i++) { int k = mc::choose(4); if (k == 3) { rt::now_us += 43200ull * 1000000; mc::op("half a day later"); if (mc::choose(2)) usleep(250000); } else { put(1, i, k == 0 ? 6 : k == 1 ? 14 : 40, 0); if (mc::choose(2)) { lg->flush(); } } }
    lg->flush(); size_t big = 0, cnt = 0; string s = all(&big, &cnt); MC_CHECK(cnt <= num, "log:too many files", "%zu files of one day with a limit of %u", cnt, num);
    // what is there is a suffix of each day's lines; a day loses lines only when it needed more than num files
    size_t total = 0; for (size_t i = 0; i < recs.size(); i++) total += recs[i].text.size(); verify("after rotation", total <= 30u * (num - 1)); string alltext; for (size_t i = 0; i < recs.size(); i++) if (recs[i].ok) alltext += recs[i].text; if (files().size() <= num && cnt == files().size()) MC_CHECK(alltext.size() >= s.size() && alltext.substr(alltext.size() - s.size()) == s, "log:lost line", "what is left is not the newest part");
    MC_CHECK(s.empty() == alltext.empty() && (alltext.empty() || s.find(recs.back().text) != string::npos), "log:lost line", "the newest line is missing"); mc::op("destroy"); delete lg; MC_CHECK(all() == s, "log:rotation", "destruction changes the files"); mc::done();
}
static void s_open() { setup(mc::choose(2), 1 << 20, 5, 64); rt::ordered(true); string away = dir; rmdir(dir.c_str()); mc::set_deviations(0); bool during = mc::choose(2); put(1, 0, 9, 0); if (during) usleep(2500000); if (mc::choose(2)) lg->flush(); put(1, 1, 9, 0); mkdir(dir.c_str(), 0700); if (mc::choose(2)) usleep(3500000); else lg->flush(); verify("once the directory exists", true); put(1, 2, 9, 1); finish(); }
static void s_full() { setup(mc::choose(2), 1 << 20, 5, 64); rt::ordered(true); int n = 3; for (int i = 0; i < n; i++) { if (mc::choose(2)) rt::file_faults = 1 + mc::choose(2); put(1, i, mc::choose(2) ? 30 : 9, 0); int k = mc::choose(3); if (k == 1) usleep(2500000); if (k == 2) lg->flush(); } rt::file_faults = 0; if (mc::choose(2)) usleep(3500000); else lg->flush(); verify("once the disk has room", true); put(1, n, 9, 1); lg->flush(); verify("after another line", true); finish(); }
static void s_clog() {
    rt::begin(); wipe(); rt::ordered(true); recs.clear(); mc::nontrivial(); typedef lce::CLog CLog; using lce::CLog; LOG_INFO("before init"); int line = mc::choose(2); bool on = mc::choose(3) != 0; MC_CHECK(CLog::init(dir + "/log", mc::choose(2), 4096, 1 << 20, 5, false, on ? 15 : 0, line), "log:init", "init"); if (mc::choose(2)) CLog::init(dir + "/other", 1, 10, 10, 1, false, 0, !line);
    string want; for (int i = 0; i < 3; i++) { int l = 1 + mc::choose(4); static const char *N[] = { "", "DEBUG", "INFO", "WARN", "ERROR" }; string m = mc::strf("m%d%%", i); int ln = 0; if (l == 1) { ln = __LINE__; LOG_DEBUG("%s %d", m.c_str(), -5); } else if (l == 2) { ln = __LINE__; LOG_INFO("%s %d", m.c_str(), -5); } else if (l == 3) { ln = __LINE__; LOG_WARN("%s %d", m.c_str(), -5); } else { ln = __LINE__; LOG_ERROR("%s %d", m.c_str(), -5); } want += "[" + stamp() + "]:[" + N[l] + "]" + (line ? mc::strf("[file:%s][line:%d]", __FILE__, ln) : string()) + " " + m + " -5\n"; if (mc::choose(2)) usleep(1500000); mc::step(); }
    if (mc::choose(2)) CLog::flush(); else usleep(3500000); string s = all(); mc::op("%s", mc::esc(s, 300).c_str()); MC_CHECK(s == (on ? want : ""), "clog:lines", "the log is %s instead of %s", mc::esc(s, 300).c_str(), mc::esc(on ? want : "", 300).c_str()); mc::state(mc::hash(s)); mc::done();
}
// the files: closed once they reached the limit; the newest num of each day stay
static string wantFiles(const map<string, vector<string> > &per, size_t mx, unsigned num) { string want; for (map<string, vector<string> >::const_iterator d = per.begin(); d != per.end(); ++d) { vector<string> fs(1); for (size_t i = 0; i < d->second.size(); i++) { if (fs.back().size() >= mx) fs.push_back(""); fs.back() += d->second[i]; } size_t from = fs.size() > num ? fs.size() - num : 0; for (size_t i = from; i < fs.size(); i++) want += fs[i] + "|"; } return want; }
static string gotFiles() { string got; map<string, map<int, string> > by; vector<string> f = files(); for (size_t i = 0; i < f.size(); i++) { string c = slurp(dir + "/" + f[i]); if (!c.empty()) by[f[i].substr(4, 10)][f[i].size() > 18 ? -atoi(f[i].c_str() + 15) : 0] = c; } for (map<string, map<int, string> >::iterator d = by.begin(); d != by.end(); ++d) for (map<int, string>::iterator j = d->second.begin(); j != d->second.end(); ++j) got += j->second + "|"; return got; }
// flushes of one or two lines against the exact contents of every file
static void s_exact() {
    static const unsigned long M[] = { 20, 45 }; unsigned long mx = M[mc::choose(2)]; unsigned num = 2 + mc::choose(2); setup(0, mx, num, 4096); rt::ordered(true); int n = mc::tier(5, 7); map<string, vector<string> > per;
    for (int i = 0; i < n; i++) { int k = mc::choose(4); if (k == 3) { rt::now_us += 43200ull * 1000000; mc::op("half a day later"); continue; } string day = stamp().substr(0, 10), c; put(1, 2 * i, k == 1 ? 50 : 8, 0); c = recs.back().text; if (k == 2) { put(1, 2 * i + 1, 12, 0); c += recs.back().text; } lg->flush(); per[day].push_back(c); string got = gotFiles(), want = wantFiles(per, mx, num); MC_CHECK(got == want, "log:rotation", "the files hold %s instead of %s", mc::esc(got, 300).c_str(), mc::esc(want, 300).c_str()); mc::state(mc::hash(got)); }
    mc::op("destroy"); delete lg; string got = gotFiles(), want = wantFiles(per, mx, num); MC_CHECK(got == want, "log:rotation", "destruction leaves %s instead of %s", mc::esc(got, 300).c_str(), mc::esc(want, 300).c_str()); mc::done();
}
// lines around the size of the buffer: each is taken whole or refused, and nothing is written past the buffer
static void s_fill() {
    static const size_t B[] = { 8, 16, 33 }; size_t b = B[mc::choose(3)]; setup(mc::choose(2), 1 << 20, 5, b); rt::ordered(true); int n = mc::tier(4, 5);
    for (int i = 0; i < n; i++) { int k = mc::choose(5); if (k == 4) { if (mc::choose(2)) lg->flush(); else usleep(2300000); } else put(1, i, k == 0 ? 4 : k == 1 ? b - 1 : k == 2 ? b : b - 2, 0); }
    lg->flush(); verify("after flush", true); finish();
}
#ifdef SP_FILE
static lce::CFileLog *fl[2];
struct FL { int log, who, n; string text; bool ok, done; }; static vector<FL> fr;
static void fput(int log, int who, int n, size_t len, int how) {
    size_t me; string line; { rt::Quiet z; line = mc::strf("%d.%d:", who, n); while (line.size() < len) line += (char)('a' + who); FL w = { log, who, n, (how == 0 ? "" : how == 1 ? "[" + stamp() + "]" : "[" + stamp() + "]:") + line + "\n", false, false }; me = fr.size(); fr.push_back(w); }
    bool ok = true; if (how == 3) { (*fl[log] << line.substr(0, 3)) << line.substr(3) << endl; } else ok = how == 0 ? fl[log]->writeRaw(line) : how == 1 ? fl[log]->write(line) : fl[log]->write("%s%c", line.substr(0, line.size() - 1).c_str(), line[line.size() - 1]);
    rt::Quiet z; fr[me].ok = ok; fr[me].done = true; mc::op("thread %d writes %s: %d", who, mc::esc(fr[me].text).c_str(), ok); mc::step();
    if (ok) { string s = all(); MC_CHECK(s.find(fr[me].text) != string::npos, "log:lost line", "%s is not in the file when write returns", mc::esc(fr[me].text).c_str()); }
}
static void fverify(bool complete) { recs.clear(); for (size_t i = 0; i < fr.size(); i++) { W w = { fr[i].who, fr[i].n, fr[i].text, fr[i].ok, fr[i].done }; recs.push_back(w); } verify("at the end", complete); }
static void fsetup(unsigned long maxsize, unsigned num, int logs) { rt::begin(); wipe(); rt::race_detect(true); recs.clear(); fr.clear(); rt::file_faults = 0; for (int i = 0; i < logs; i++) { fl[i] = new lce::CFileLog; MC_CHECK(fl[i]->init(dir + "/log" + (i ? "_x" : ""), maxsize, num), "log:init", "init"); } mc::nontrivial(); }
static void f_conc() { int nw = 2 + mc::choose(2); fsetup(mc::choose(2) ? 1 << 20 : 12, 8, 1); mc::set_deviations(mc::tier(nw == 2 ? 3 : 2, nw == 2 ? 5 : 3)); rt::watch_heap(true); vector<int> t; for (int i = 0; i < nw; i++) t.push_back(rt::spawn([i]() { for (int n = 0; n < 2; n++) fput(0, i + 1, n, n ? 11 : 6, i); }, "writer")); for (size_t i = 0; i < t.size(); i++) rt::join(t[i]); fverify(true); delete fl[0]; fverify(true); mc::done(); }
static void f_two() { rt::file_faults = 0; fsetup(1 << 20, 5, 1); fl[1] = new lce::CFileLog; string other = mc::scratch() + "/other"; mkdir(other.c_str(), 0700); fl[1]->init(other + "/log"); mc::set_deviations(mc::tier(3, 5)); rt::watch_heap(true); int a = rt::spawn([]() { fput(0, 1, 0, 9, 1); }, "writer"), b = rt::spawn([]() { fl[1]->write(string("x")); }, "other log"); rt::join(a); rt::join(b); fverify(true); mc::done(); }
static void f_seq() {
    static const unsigned long M[] = { 20, 45 }; unsigned long mx = M[mc::choose(2)]; unsigned num = 2 + mc::choose(2); fsetup(mx, num, 1); rt::ordered(true); int n = mc::tier(6, 7); string day; map<string, vector<string> > per; string d0;
    for (int i = 0; i < n; i++) { int k = mc::choose(5); if (k == 4) { rt::now_us += 43200ull * 1000000; mc::op("half a day later"); continue; } fput(0, 1, i, k == 2 ? 50 : 8, k == 3 ? 3 : k); string s = all(); vector<string> f = files(); per[stamp().substr(0, 10)].push_back(fr.back().text); map<string, int> cnt; for (size_t j = 0; j < f.size(); j++) { cnt[f[j].substr(4, 10)]++; size_t l = slurp(dir + "/" + f[j]).size(); MC_CHECK(l < mx + 85, "log:too big", "a file of %zu bytes with a limit of %lu", l, mx); } for (map<string, int>::iterator j = cnt.begin(); j != cnt.end(); ++j) MC_CHECK(j->second <= (int)num, "log:too many files", "%d files of %s with a limit of %u", j->second, j->first.c_str(), num); }
    string got = gotFiles(), want = wantFiles(per, mx, num);
    MC_CHECK(got == want, "log:rotation", "the files hold %s instead of %s", mc::esc(got, 300).c_str(), mc::esc(want, 300).c_str()); delete fl[0]; mc::state(mc::hash(got)); mc::done();
}
static void f_fault() { rt::file_faults = 0; fsetup(mc::choose(2) ? 1 << 20 : 25, 9, 1); rt::ordered(true); int n = mc::tier(4, 5); bool gone = false; for (int i = 0; i < n; i++) { int k = mc::choose(4); if (k == 1) rt::file_faults = 1; if (k == 2) rt::file_faults = 2; if (k == 3 && i == 0) { gone = true; rmdir(dir.c_str()); } int before = rt::file_faults; fput(0, 1, i, 9, mc::choose(3)); if (gone) { MC_CHECK(!fr.back().ok || files().empty() == false || fr.back().text.empty(), "log:accepted", "a line is accepted although there is no file"); if (mc::choose(2)) { mkdir(dir.c_str(), 0700); gone = false; } } else MC_CHECK(before || fr.back().ok, "log:refused", "a line is refused although the file can be written"); } rt::file_faults = 0; if (gone) mkdir(dir.c_str(), 0700); fput(0, 1, n, 9, 0); MC_CHECK(fr.back().ok, "log:refused", "a line is refused although the file can be written"); for (size_t i = 0; i < fr.size(); i++) { } fverify(true); delete fl[0]; fverify(true); mc::done(); }
int main(int argc, char **argv) {
    vector<mc::Space> s;
    s.push_back({ "concurrent", f_conc, false, 0, "2-3 writers in every interleaving up to the bound, with and without rotation" });
    s.push_back({ "two-logs", f_two, false, 0, "two threads, each with its own log" });
    s.push_back({ "sequences", f_seq, false, 0, "every sequence of lines and half-day steps against an oracle of the files" });
    s.push_back({ "faults", f_fault, false, 0, "writes that fail and a directory that is missing for a while" });
    return mc::run(argc, argv, s, "schedules and histories of log writes against the files on disk; non-trivial: always");
}
#else
int main(int argc, char **argv) {
    vector<mc::Space> s;
#ifndef MC_SEQ
    s.push_back({ "concurrent", s_conc, false, 0, "1-2 writers, a flusher and the background thread in every interleaving up to the bound" });
#endif
#ifndef MC_SEQ
    s.push_back({ "stamps", s_stamp, false, 0, "two writers of time-stamped lines" });
#endif
    s.push_back({ "timing", s_time, false, 0, "writes, pauses and flushes in every order with three buffer sizes" });
#ifndef MC_SEQ
    s.push_back({ "rotation", s_rotate, false, 0, "sizes and days that need new files" });
#endif
    s.push_back({ "rotation-exact", s_exact, false, 0, "every sequence of flushed lines and half-day steps against the contents of every file" });
    s.push_back({ "buffer-fill", s_fill, false, 0, "every sequence of lines just below, at and above the buffer size, flushes and pauses" });
    s.push_back({ "no-file", s_open, false, 0, "the file cannot be opened for a while" });
    s.push_back({ "disk-full", s_full, false, 0, "writes to the file fail for a while" });
#ifndef MC_SEQ
    s.push_back({ "clog", s_clog, true, 0, "the global log: levels, line numbers, flush" });
#endif
    return mc::run(argc, argv, s, "schedules and histories of log writes against the files on disk; non-trivial: always");
}
#endif
