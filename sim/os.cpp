#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include "os.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <memory>
using namespace simrt;
namespace simrt { uint64_t clock_read(); }

// ================================================================ clocks
namespace {
uint32_t g_ei_num = 0, g_ei_den = 1;
int64_t g_mono_off = 0;
const uint64_t MONO_BASE = 1499990000ull * 1000000000ull;
}
namespace sim {
void eintr_rate(uint32_t n, uint32_t d) { g_ei_num = n; g_ei_den = d; }
void mono_offset(int64_t d) { g_mono_off = d; }
}
static bool sim_on() { return g_active && g_inrt == 0; }

#define REAL(name) static decltype(&::name) real = nullptr; if (!real) { In in_; real = (decltype(&::name))real_sym(#name); }

extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!sim_on()) return (int)syscall(SYS_clock_gettime, id, ts);
    sync_point("clock");
    In in;
    uint64_t t = clock_read();
    if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME) t = (uint64_t)((int64_t)(t - MONO_BASE) + g_mono_off);
    else if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE) t = t - MONO_BASE; // cpu clocks
    ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    if (!sim_on()) { tv->tv_sec = 1499999000; tv->tv_usec = 437219; return 0; }      // static initialisation of the library: fixed, so that runs repeat exactly
    sync_point("clock");
    In in;
    uint64_t t = clock_read();
    tv->tv_sec = t / 1000000000ull; tv->tv_usec = (t % 1000000000ull) / 1000;
    return 0;
}
time_t time(time_t* o) {
    time_t r;
    if (!sim_on()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    else { sync_point("clock"); In in; r = clock_read() / 1000000000ull; }
    if (o) *o = r;
    return r;
}
clock_t clock(void) {
    if (!sim_on()) return 0;
    sync_point("clock"); In in; return (clock_t)((clock_read() - MONO_BASE) / 1000);
}
int nanosleep(const struct timespec* rq, struct timespec* rem) {
    if (!sim_on()) return (int)syscall(SYS_nanosleep, rq, rem);
    if (rq->tv_nsec < 0 || rq->tv_nsec > 999999999 || rq->tv_sec < 0) { errno = EINVAL; return -1; }
    uint64_t d = (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec;
    uint64_t end = sim::now_ns() + d;
    if (g_ei_num && d > 1 && sim::chance(sim::FA, g_ei_num, g_ei_den)) {
        uint64_t part = 1 + (uint64_t)((d - 1) * sim::unit(sim::FA));
        sim::fault("sleep-eintr");
        sleep_until(sim::now_ns() + part);
        uint64_t now = sim::now_ns(); uint64_t left = end > now ? end - now : 0;
        if (rem) { rem->tv_sec = left / 1000000000ull; rem->tv_nsec = left % 1000000000ull; }
        errno = EINTR; return -1;
    }
    sleep_until(end);
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* rq, struct timespec* rem) {
    if (!sim_on()) { long r = syscall(SYS_clock_nanosleep, id, flags, rq, rem); return r < 0 ? errno : 0; }
    if (flags & TIMER_ABSTIME) {
        if (rq->tv_nsec < 0 || rq->tv_nsec > 999999999) return EINVAL;
        uint64_t t = (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec;
        if (id == CLOCK_MONOTONIC) t = (uint64_t)((int64_t)(t + MONO_BASE) - g_mono_off);
        uint64_t now = sim::now_ns();
        if (t > now && g_ei_num && sim::chance(sim::FA, g_ei_num, g_ei_den)) { sim::fault("sleep-eintr"); sleep_until(now + (uint64_t)((t - now) * sim::unit(sim::FA))); return EINTR; }
        sleep_until(t); return 0;
    }
    int e = errno; int r = nanosleep(rq, rem); if (r < 0) { r = errno; errno = e; return r; } return 0;
}
int usleep(useconds_t u) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { struct timespec ts = {(time_t)s, 0}, rem = {0, 0}; if (nanosleep(&ts, &rem) < 0) return (unsigned)rem.tv_sec; return 0; }

// broken-down time: UTC, one static buffer as in libc
static struct tm g_tm;
static void fill_tm(time_t t, struct tm* o) {
    memset(o, 0, sizeof *o);
    int64_t days = t / 86400, rem = t % 86400; if (rem < 0) { rem += 86400; days--; }
    o->tm_hour = (int)(rem / 3600); o->tm_min = (int)(rem % 3600 / 60); o->tm_sec = (int)(rem % 60);
    o->tm_wday = (int)((4 + days % 7 + 7) % 7);
    int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int64_t y = (int64_t)yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    if (m <= 2) y++;
    o->tm_mday = (int)d; o->tm_mon = (int)m - 1; o->tm_year = (int)(y - 1900);
    static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    o->tm_yday = cum[m - 1] + (int)d - 1 + (m > 2 && leap);
    o->tm_zone = "UTC";
}
struct tm* localtime(const time_t* t) { sync_point("localtime"); fill_tm(*t, &g_tm); sync_point("localtime"); return &g_tm; }
struct tm* gmtime(const time_t* t) { sync_point("gmtime"); fill_tm(*t, &g_tm); sync_point("gmtime"); return &g_tm; }
struct tm* localtime_r(const time_t* t, struct tm* o) { fill_tm(*t, o); return o; }
struct tm* gmtime_r(const time_t* t, struct tm* o) { fill_tm(*t, o); return o; }
static char g_asc[64];
static char* asc(const struct tm* t, char* b) {
    static const char* wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
    static const char* mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    In in;
    snprintf(b, 60, "%s %s%3d %.2d:%.2d:%.2d %d\n", wd[t->tm_wday % 7], mo[t->tm_mon % 12], t->tm_mday, t->tm_hour, t->tm_min, t->tm_sec, 1900 + t->tm_year);
    return b;
}
char* asctime(const struct tm* t) { sync_point("asctime"); asc(t, g_asc); sync_point("asctime"); return g_asc; }
char* asctime_r(const struct tm* t, char* b) { return asc(t, b); }
char* ctime(const time_t* t) { return asctime(localtime(t)); }
char* ctime_r(const time_t* t, char* b) { struct tm x; fill_tm(*t, &x); return asc(&x, b); }

// ---- C random numbers: a generator whose seed is drawn from the run's tape (each run is its own process)
int rand(void) {
    static uint64_t st; static bool seeded;
    if (!sim_on()) return 4; sync_point("rand"); if (!seeded) { seeded = true; st = sim::draw(sim::FA, 0x80000000u); }
    uint64_t z = (st += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (int)((z ^ (z >> 31)) & 0x7fffffff);
}
long random(void) { return rand(); }
void srand(unsigned) {}
void srandom(unsigned) {}
double drand48(void) { return rand() / 2147483648.0; }
}

// ================================================================ files
namespace {
struct Node { bool dir = false; std::string data; uint64_t ino = 0; };
typedef std::shared_ptr<Node> NodeP;
enum Kind { K_FILE = 0, K_TTY = 1, K_SOCK = 2, K_FOREIGN = 3, K_DIR = 4 };
struct Ofd { Kind kind; NodeP node; std::string path; int64_t pos = 0; int flags = 0; uint64_t touched = 0, wrote = 0; FILE* fp = nullptr; };
std::map<std::string, NodeP>* F; 
std::vector<std::string>* order;            // creation order of names (for readdir)
std::map<std::string, simos::Tty>* TT;
std::vector<simos::Dgram>* SENT;
std::map<std::string, uint32_t>* HOSTS;
std::vector<simos::Syslog>* SLOG; const char* g_ident; int g_slopen;
const int FD0 = 300, NFD = 200;
Ofd* fds[NFD];
simos::Faults FL;
uint64_t ncalls[simos::NOPS], nfaults, nmut, nbad, nbadclose, inoctr;
bool g_crashed; int g_rdorder;

bool simpath(const char* p) { return p && !strncmp(p, "/sim", 4) && (p[4] == '/' || !p[4]); }
std::string norm(const char* p) { std::string s(p), o; for (char c : s) { if (c == '/' && !o.empty() && o.back() == '/') continue; o += c; } while (o.size() > 1 && o.back() == '/') o.pop_back(); return o; }
int g_low;                          // so many of the standard descriptors are free: the program was started with them closed
bool simfd(int fd) { return (fd >= FD0 && fd < FD0 + NFD) || (g_low && fd >= 0 && fd < g_low && g_active); }
int slot(int fd) { return fd < FD0 ? fd : fd - FD0; }
int numfd(int i) { return i < g_low ? i : FD0 + i; }
Ofd* get(int fd) { return simfd(fd) ? fds[slot(fd)] : nullptr; }
int put_fd(Ofd* o) { for (int i = 0; i < NFD; i++) if (!fds[i]) { fds[i] = o; return numfd(i); } delete o; errno = EMFILE; return -1; }
bool roll(int permille) { return permille > 0 && sim::chance(sim::FA, permille, 1000); }
std::map<std::string, uint64_t>* NF;
void fired(const char* k) { nfaults++; { In in; (*NF)[k]++; } sim::fault(k); }
int64_t used() { int64_t u = 0; for (auto& e : *F) u += (int64_t)e.second->data.size(); return u; }
int bad(const char* what, int fd) { nbad++; sim::ev("%s on a descriptor that is not open (#%d)", what, slot(fd)); errno = EBADF; return -1; }
void maybe_crash() { if (FL.crash_at >= 0 && (int64_t)nmut > FL.crash_at) { g_crashed = true; FL.crash_at = -1; sim::fault("process-crash"); crash_now(); } }
std::string parent(const std::string& p) { size_t k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }

int do_open(const char* path, int flags) {
    sync_point("open");
    In in; ncalls[simos::OP_OPEN]++;
    std::string p = norm(path);
    if (TT->count(p)) {
        simos::Tty& t = (*TT)[p];
        if (t.hung || roll(FL.open_fail)) { if (!t.hung) fired("open-eio"); errno = t.hung ? ENXIO : EIO; return -1; }
        t.opens++; t.open_now++; t.open_flags = flags;
        Ofd* o = new Ofd(); o->kind = K_TTY; o->path = p; o->flags = flags;
        int fd = put_fd(o); sim::ev("open tty %s -> #%d", p.c_str(), slot(fd)); return fd;
    }
    auto it = F->find(p);
    if (roll(FL.open_fail)) { fired("open-fail"); errno = sim::draw(sim::FA, 2) ? EMFILE : EACCES; return -1; }
    if (flags & (O_CREAT | O_TRUNC)) { nmut++; maybe_crash(); }
    if (it == F->end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        std::string par = parent(p);
        if (par != "/sim" && !(F->count(par) && (*F)[par]->dir)) { errno = ENOENT; return -1; }
        NodeP n = std::make_shared<Node>(); n->ino = ++inoctr; (*F)[p] = n; order->push_back(p); it = F->find(p);
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (it->second->dir) {
        if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
        Ofd* o = new Ofd(); o->kind = K_DIR; o->path = p; o->node = it->second; return put_fd(o);
    }
    if (flags & O_DIRECTORY) { errno = ENOTDIR; return -1; }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) it->second->data.clear();
    Ofd* o = new Ofd(); o->kind = K_FILE; o->node = it->second; o->path = p; o->flags = flags;
    int fd = put_fd(o);
    sim::ev("open %s flags=%s%s%s -> #%d", p.c_str(), (flags & O_ACCMODE) == O_RDONLY ? "r" : "w", flags & O_TRUNC ? "t" : "", flags & O_APPEND ? "a" : "", slot(fd));
    return fd;
}
ssize_t file_write(Ofd* o, const char* b, size_t n) {
    if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (roll(FL.write_eintr)) { fired("write-eintr"); errno = EINTR; return -1; }
    if (roll(FL.write_eio)) { fired("write-eio"); errno = EIO; return -1; }
    if (roll(FL.write_enospc)) { fired("write-enospc"); errno = ENOSPC; return -1; }
    size_t k = n;
    if (n > 1 && roll(FL.write_short)) { k = 1 + sim::draw(sim::FA, (uint32_t)(n - 1)); fired("write-short"); }
    if (FL.capacity >= 0) { int64_t room = FL.capacity - used(); if (room <= 0) { fired("disk-full"); errno = ENOSPC; return -1; } if ((int64_t)k > room) { k = (size_t)room; fired("disk-full-short"); } }
    nmut++;
    bool crash = FL.crash_at >= 0 && (int64_t)nmut > FL.crash_at;
    if (crash) { k = FL.torn_crash ? sim::draw(sim::FA, (uint32_t)k + 1) : 0; }
    std::string& d = o->node->data;
    if (o->flags & O_APPEND) o->pos = (int64_t)d.size();
    if ((int64_t)d.size() < o->pos + (int64_t)k) d.resize(o->pos + k);
    d.replace(o->pos, k, b, k);
    o->pos += k; o->wrote += k;
    sim::mix(sim::fnv(b, k));
    sim::ev("write #%s %zu/%zu bytes", o->path.c_str(), k, n);
    if (crash) maybe_crash();
    return (ssize_t)k;
}
ssize_t do_write(int fd, const void* b, size_t n) {
    sync_point("write");
    In in; ncalls[simos::OP_WRITE]++;
    Ofd* o = get(fd); if (!o) return bad("write", fd);
    if (o->kind == K_FOREIGN) { o->touched++; sim::ev("write to a descriptor of another component"); return (ssize_t)n; }
    if (o->kind == K_TTY) {
        simos::Tty& t = (*TT)[o->path];
        if (t.hung) { errno = EIO; return -1; }
        if (roll(FL.write_eintr)) { fired("tty-write-eintr"); errno = EINTR; return -1; }
        if (roll(FL.write_eagain)) { fired("tty-write-eagain"); errno = EAGAIN; return -1; }
        if (roll(FL.write_eio)) { fired("tty-write-eio"); errno = EIO; return -1; }
        size_t k = n; if (n > 1 && roll(FL.write_short)) { k = 1 + sim::draw(sim::FA, (uint32_t)(n - 1)); fired("tty-write-short"); }
        t.tx.append((const char*)b, k); sim::ev("tty write %zu/%zu", k, n); return (ssize_t)k;
    }
    if (o->kind == K_SOCK) { errno = ENOTCONN; return -1; }
    if (o->kind == K_DIR) { errno = EBADF; return -1; }
    return file_write(o, (const char*)b, n);
}
ssize_t do_read(int fd, void* b, size_t n) {
    sync_point("read");
    In in; ncalls[simos::OP_READ]++;
    Ofd* o = get(fd); if (!o) return bad("read", fd);
    if (o->kind == K_FOREIGN) { o->touched++; return 0; }
    if (o->kind == K_TTY) {
        simos::Tty& t = (*TT)[o->path];
        if (t.hung) { errno = EIO; return -1; }
        if (roll(FL.read_eintr)) { fired("tty-read-eintr"); errno = EINTR; return -1; }
        if (roll(FL.read_eio)) { fired("tty-read-eio"); errno = EIO; return -1; }
        size_t k = std::min(n, t.rx.size());
        if (!k) { 
            if ((o->flags & O_NONBLOCK)) { errno = EAGAIN; return -1; }
            t.vtime_waits++; uint64_t w = (uint64_t)t.tio.c_cc[VTIME] * 100000000ull; if (t.tio.c_cc[VMIN] > 0) { sim::fail("tty-read-blocks", "read on the port would block for ever"); } if (w) { sleep_until(sim::now_ns() + w); k = std::min(n, t.rx.size()); } if (!k) return 0; }
        if (k > 1 && roll(FL.read_short)) { k = 1 + sim::draw(sim::FA, (uint32_t)(k - 1)); fired("tty-read-short"); }
        memcpy(b, t.rx.data(), k); t.rx.erase(0, k); sim::ev("tty read %zu", k); return (ssize_t)k;
    }
    if (o->kind != K_FILE) { errno = o->kind == K_DIR ? EISDIR : ENOTCONN; return -1; }
    if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (roll(FL.read_eintr)) { fired("read-eintr"); errno = EINTR; return -1; }
    if (roll(FL.read_eio)) { fired("read-eio"); errno = EIO; return -1; }
    std::string& d = o->node->data;
    size_t avail = o->pos < (int64_t)d.size() ? d.size() - o->pos : 0, k = std::min(n, avail);
    if (k > 1 && roll(FL.read_short)) { k = 1 + sim::draw(sim::FA, (uint32_t)(k - 1)); fired("read-short"); }
    memcpy(b, d.data() + o->pos, k); o->pos += k;
    sim::mix(k);
    return (ssize_t)k;
}
int do_close(int fd) {
    sync_point("close");
    In in; ncalls[simos::OP_CLOSE]++;
    Ofd* o = get(fd); if (!o) { nbadclose++; return bad("close", fd); }
    if (o->kind == K_FOREIGN) { o->touched++; sim::ev("close of a descriptor of another component"); }
    if (o->kind == K_TTY) (*TT)[o->path].open_now--;
    sim::ev("close #%d %s", slot(fd), o->path.c_str());
    NodeP node = o->kind == K_FILE ? o->node : NodeP(); uint64_t wrote = o->wrote;
    fds[slot(fd)] = nullptr; delete o;
    if (roll(FL.close_fail)) {
        fired("close-eio");
        if (FL.close_loses && node && wrote) { size_t have = node->data.size(), most = (size_t)std::min<uint64_t>(wrote, have); if (most) { size_t k = 1 + sim::draw(sim::FA, (uint32_t)most); node->data.resize(have - k); sim::ev("close lost %zu of %zu bytes", k, have); } }
        errno = EIO; return -1;
    }
    return 0;
}
int do_dup2(int from, int to) {
    sync_point("dup2");
    In in;
    Ofd* o = get(from); if (!o) return bad("dup2", from);
    if (from == to) return to;
    if (!simfd(to)) { errno = EBADF; return -1; }
    Ofd* old = get(to);
    if (old) { if (old->kind == K_FOREIGN) sim::ev("dup2 over a descriptor of another component"); if (old->kind == K_TTY) (*TT)[old->path].open_now--; delete old; }
    fds[slot(to)] = new Ofd(*o);
    if (o->kind == K_TTY) (*TT)[o->path].open_now++;
    sim::ev("dup2 #%d -> #%d", slot(from), slot(to));
    return to;
}
off64_t do_lseek(int fd, off64_t off, int wh) {
    sync_point("lseek");
    In in; ncalls[simos::OP_SEEK]++;
    Ofd* o = get(fd); if (!o) return bad("lseek", fd);
    if (o->kind == K_FOREIGN) o->touched++;
    if (o->kind != K_FILE) { errno = ESPIPE; return -1; }
    if (roll(FL.seek_fail)) { fired("lseek-fail"); errno = EIO; return -1; }
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (int64_t)o->node->data.size();
    if (base + off < 0) { errno = EINVAL; return -1; }
    return o->pos = base + off;
}
int do_rename(const char* a, const char* b) {
    sync_point("rename");
    In in; ncalls[simos::OP_RENAME]++;
    std::string p = norm(a), q = norm(b);
    if (!F->count(p)) { errno = ENOENT; return -1; }
    if (roll(FL.rename_fail)) { fired("rename-fail"); errno = EACCES; return -1; }
    nmut++; maybe_crash();
    if (p != q) { (*F)[q] = (*F)[p]; F->erase(p); order->push_back(q); }
    sim::ev("rename %s -> %s", p.c_str(), q.c_str());
    return 0;
}
int do_remove(const char* a) {
    sync_point("remove");
    In in; ncalls[simos::OP_REMOVE]++;
    std::string p = norm(a);
    if (!F->count(p)) { errno = ENOENT; return -1; }
    if (roll(FL.remove_fail)) { fired("remove-fail"); errno = EACCES; return -1; }
    nmut++; maybe_crash();
    F->erase(p); sim::ev("remove %s", p.c_str());
    return 0;
}
int do_stat(const char* path, struct stat* st) {
    sync_point("stat");
    In in; ncalls[simos::OP_STAT]++;
    std::string p = norm(path); memset(st, 0, sizeof *st);
    if (roll(FL.stat_fail)) { fired("stat-fail"); errno = EACCES; return -1; }
    if (p == "/sim") { st->st_mode = S_IFDIR | 0755; return 0; }
    if (TT->count(p)) { st->st_mode = S_IFCHR | 0600; return 0; }
    auto it = F->find(p); if (it == F->end()) { errno = ENOENT; return -1; }
    st->st_mode = it->second->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = (off_t)it->second->data.size(); st->st_ino = it->second->ino; st->st_nlink = 1; st->st_blksize = 4096;
    return 0;
}
int do_fstat(int fd, struct stat* st) {
    In in; memset(st, 0, sizeof *st);
    Ofd* o = get(fd); if (!o) return bad("fstat", fd);
    st->st_mode = o->kind == K_FILE ? S_IFREG | 0644 : o->kind == K_DIR ? S_IFDIR | 0755 : o->kind == K_SOCK ? S_IFSOCK : S_IFCHR;
    if (o->kind == K_FILE) { st->st_size = (off_t)o->node->data.size(); st->st_ino = o->node->ino; }
    st->st_blksize = 4096; st->st_nlink = 1;
    return 0;
}
struct SimDir { uint64_t magic; std::vector<std::string> names; size_t i; int fd; struct dirent64 e; };
const uint64_t DMAG = 0x51d151d151d151d1ull;
SimDir* as_dir(DIR* d) { SimDir* s = (SimDir*)d; return s && ((uintptr_t)s & 7) == 0 && s->magic == DMAG ? s : nullptr; }
DIR* mk_dir(const std::string& p, int fd) {
    SimDir* s = new SimDir(); s->magic = DMAG; s->i = 0; s->fd = fd;
    std::vector<std::string> n; std::set<std::string> seen;
    for (auto& x : *order) if (F->count(x) && parent(x) == p && seen.insert(x).second) n.push_back(x.substr(p.size() + 1));
    if (g_rdorder == 1) std::reverse(n.begin(), n.end());
    if (g_rdorder == 2) for (size_t i = n.size(); i > 1; i--) std::swap(n[i - 1], n[sim::draw(sim::FA, (uint32_t)i)]);
    n.insert(n.begin() + (g_rdorder == 2 ? sim::draw(sim::FA, (uint32_t)n.size() + 1) : 0), ".");
    n.insert(n.begin() + (g_rdorder == 2 ? sim::draw(sim::FA, (uint32_t)n.size() + 1) : n.size() > 0 ? 1 : 0), "..");
    s->names = n;
    return (DIR*)s;
}
}
namespace simrt {
void vfs_reset() {
    F = new std::map<std::string, NodeP>(); order = new std::vector<std::string>(); TT = new std::map<std::string, simos::Tty>();
    NF = new std::map<std::string, uint64_t>(); SENT = new std::vector<simos::Dgram>(); HOSTS = new std::map<std::string, uint32_t>(); SLOG = new std::vector<simos::Syslog>(); g_ident = nullptr; g_slopen = 0;
    memset(fds, 0, sizeof fds); memset(ncalls, 0, sizeof ncalls); nfaults = nmut = nbad = nbadclose = inoctr = 0; g_crashed = false; g_rdorder = 0; g_low = 0;
    g_ei_num = 0; g_mono_off = 0;
    FL = simos::Faults();
}
}
namespace simos {
Faults& faults() { return FL; }
void faults_off() { FL = Faults(); }
uint64_t calls(Op op) { return ncalls[op]; }
uint64_t total_faults() { return nfaults; }
uint64_t fired_count(const char* k) { In in; auto it = NF->find(k); return it == NF->end() ? 0 : it->second; }
uint64_t mutating_calls() { return nmut; }
bool crashed() { return g_crashed; }
bool exists(const std::string& p) { In in; return F->count(p) != 0; }
std::string content(const std::string& p) { In in; auto it = F->find(p); return it == F->end() ? std::string() : it->second->data; }
void put(const std::string& p, const std::string& d) { In in; NodeP& n = (*F)[p]; if (!n) { n = std::make_shared<Node>(); n->ino = ++inoctr; order->push_back(p); } n->data.assign(d.data(), d.size()); }
void erase(const std::string& p) { In in; F->erase(p); }
void mkdirs(const std::string& p) { In in; std::string q = p; while (q.size() > 4) { NodeP& n = (*F)[q]; if (!n) { n = std::make_shared<Node>(); n->ino = ++inoctr; n->dir = true; order->push_back(q); } q = parent(q); } }
std::vector<std::string> list(const std::string& pre) { In in; std::vector<std::string> v; for (auto& e : *F) if (e.first.compare(0, pre.size(), pre) == 0 && !e.second->dir) v.push_back(e.first); return v; }
void standard_closed(int n) { g_low = n; if (n) sim::fault("started-with-closed-descriptors"); }
void readdir_order(int m) { g_rdorder = m; }
std::vector<FdInfo> open_fds() { In in; std::vector<FdInfo> v; for (int i = 0; i < NFD; i++) if (fds[i] && fds[i]->kind != K_FOREIGN) v.push_back(FdInfo{numfd(i), fds[i]->path, (int)fds[i]->kind}); return v; }
uint64_t bad_fd_calls() { return nbad; }
uint64_t bad_close_calls() { return nbadclose; }
int foreign_open(const std::string& name) { In in; Ofd* o = new Ofd(); o->kind = K_FOREIGN; o->path = name; return put_fd(o); }
bool foreign_alive(int fd) { Ofd* o = get(fd); return o && o->kind == K_FOREIGN; }
uint64_t foreign_touched(int fd) { Ofd* o = get(fd); return o ? o->touched : 1; }
Tty& tty(const std::string& p) { In in; bool fresh = !TT->count(p); Tty& t = (*TT)[p]; if (fresh) { t.name = p; memset(&t.tio, 0, sizeof t.tio); t.tio.c_iflag = ICRNL | IXON; t.tio.c_oflag = OPOST | ONLCR; t.tio.c_cflag = CS8 | CREAD | HUPCL | B9600; t.tio.c_lflag = ISIG | ICANON | ECHO | ECHOE; t.tio.c_cc[VMIN] = 1; t.tio.c_cc[VTIME] = 0; cfsetispeed(&t.tio, B9600); cfsetospeed(&t.tio, B9600); t.initial = t.tio; } return t; }
std::vector<Dgram>& sent() { return *SENT; }
std::vector<Syslog>& syslogged() { return *SLOG; }
int syslog_open() { return g_slopen; }
void host(const std::string& n, uint32_t a) { In in; (*HOSTS)[n] = a; }
}

// ---------------------------------------------------------------- interposed symbols
static bool real_write(int fl) { return sim_on() && ((fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT)); }
extern "C" {
int open(const char* p, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
    if (sim_on() && simpath(p)) return do_open(p, fl);
    if (real_write(fl)) { errno = EACCES; return -1; }        // nothing real is ever written by code under test
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open64(const char* p, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
    if (sim_on() && simpath(p)) return do_open(p, fl);
    if (real_write(fl)) { errno = EACCES; return -1; }        // nothing real is ever written by code under test
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int openat(int d, const char* p, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
    if (sim_on() && simpath(p)) return do_open(p, fl);
    if (real_write(fl)) { errno = EACCES; return -1; }        // nothing real is ever written by code under test
    return (int)syscall(SYS_openat, d, p, fl, m);
}
int openat64(int d, const char* p, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
    if (sim_on() && simpath(p)) return do_open(p, fl);
    if (real_write(fl)) { errno = EACCES; return -1; }        // nothing real is ever written by code under test
    return (int)syscall(SYS_openat, d, p, fl, m);
}
int __openat64_2(int d, const char* p, int fl) { return openat64(d, p, fl); }
int __openat_2(int d, const char* p, int fl) { return openat64(d, p, fl); }
int __open_2(const char* p, int fl) { return open(p, fl); }
int __open64_2(const char* p, int fl) { return open(p, fl); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (simfd(fd)) return do_close(fd); return (int)syscall(SYS_close, fd); }
ssize_t read(int fd, void* b, size_t n) { if (simfd(fd)) return do_read(fd, b, n); return syscall(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (simfd(fd)) return do_write(fd, b, n); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!simfd(fd)) return syscall(SYS_writev, fd, v, c);
    std::string all; { In in; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len); }
    ssize_t r = do_write(fd, all.data(), all.size());
    { In in; std::string().swap(all); }
    return r;
}
int dup2(int a, int b) { if (simfd(a)) return do_dup2(a, b); return (int)syscall(SYS_dup2, a, b); }
int dup3(int a, int b, int f) { if (simfd(a)) return do_dup2(a, b); return (int)syscall(SYS_dup3, a, b, f); }
int dup(int a) { if (!simfd(a)) return (int)syscall(SYS_dup, a); sync_point("dup"); In in; Ofd* o = get(a); if (!o) return bad("dup", a); if (o->kind == K_TTY) (*TT)[o->path].open_now++; return put_fd(new Ofd(*o)); }
off_t lseek(int fd, off_t o, int w) { if (simfd(fd)) return do_lseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { if (simfd(fd)) return do_lseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
int fsync(int fd) { if (simfd(fd)) { ncalls[simos::OP_FSYNC]++; return get(fd) ? 0 : bad("fsync", fd); } return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (simfd(fd)) return fsync(fd); return (int)syscall(SYS_fdatasync, fd); }
int ftruncate(int fd, off_t n) { if (!simfd(fd)) return (int)syscall(SYS_ftruncate, fd, n); sync_point("ftruncate"); In in; Ofd* o = get(fd); if (!o) return bad("ftruncate", fd); if (o->kind != K_FILE) { errno = EINVAL; return -1; } nmut++; maybe_crash(); o->node->data.resize(n); sim::ev("ftruncate %s %ld", o->path.c_str(), (long)n); return 0; }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) { if (!(sim_on() && simpath(p))) return (int)syscall(SYS_truncate, p, n); sync_point("truncate"); In in; auto it = F->find(norm(p)); if (it == F->end()) { errno = ENOENT; return -1; } nmut++; maybe_crash(); it->second->data.resize(n); return 0; }
int rename(const char* a, const char* b) { if (sim_on() && simpath(a)) return do_rename(a, b); return (int)syscall(SYS_rename, a, b); }
int renameat(int, const char* a, int, const char* b) { return rename(a, b); }
int remove(const char* a) { if (sim_on() && simpath(a)) return do_remove(a); errno = EPERM; return -1; }
int unlink(const char* a) { if (sim_on() && simpath(a)) return do_remove(a); errno = EPERM; return -1; }
int unlinkat(int, const char* a, int) { if (sim_on() && simpath(a)) return do_remove(a); errno = EPERM; return -1; }
int access(const char* p, int) { if (sim_on() && simpath(p)) { struct stat st; return do_stat(p, &st); } return (int)syscall(SYS_access, p, 0); }
int stat(const char* p, struct stat* st) { if (sim_on() && simpath(p)) return do_stat(p, st); return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int lstat(const char* p, struct stat* st) { if (sim_on() && simpath(p)) return do_stat(p, st); return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstat(int fd, struct stat* st) { if (simfd(fd)) return do_fstat(fd, st); return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int statx(int d, const char* p, int fl, unsigned mask, struct statx* sx) {
    bool byfd = (fl & AT_EMPTY_PATH) && p && !p[0] && simfd(d);
    if (!byfd && !(sim_on() && simpath(p))) return (int)syscall(SYS_statx, d, p, fl, mask, sx);
    struct stat st; int r = byfd ? do_fstat(d, &st) : do_stat(p, &st); if (r) return r;
    memset(sx, 0, sizeof *sx); sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = st.st_mode; sx->stx_size = st.st_size; sx->stx_ino = st.st_ino; sx->stx_nlink = 1; sx->stx_blksize = 4096;
    return 0;
}
DIR* opendir(const char* p) {
    if (!(sim_on() && simpath(p))) { REAL(opendir); return real(p); }
    sync_point("opendir"); In in; std::string q = norm(p); auto it = F->find(q); if (q != "/sim" && (it == F->end() || !it->second->dir)) { errno = it == F->end() ? ENOENT : ENOTDIR; return nullptr; }
    return mk_dir(q, -1);
}
DIR* fdopendir(int fd) {
    if (!simfd(fd)) { REAL(fdopendir); return real(fd); }
    In in; Ofd* o = get(fd); if (!o || o->kind != K_DIR) { errno = EBADF; return nullptr; }
    return mk_dir(o->path, fd);
}
struct dirent64* readdir64(DIR* d) {
    SimDir* s = as_dir(d); if (!s) { REAL(readdir64); return real(d); }
    sync_point("readdir"); In in; ncalls[simos::OP_READDIR]++;
    if (roll(FL.read_eio)) { fired("readdir-eio"); errno = EIO; return nullptr; }
    if (s->i >= s->names.size()) return nullptr;
    memset(&s->e, 0, sizeof s->e); snprintf(s->e.d_name, sizeof s->e.d_name, "%s", s->names[s->i].c_str()); s->e.d_ino = s->i + 1; s->e.d_type = DT_UNKNOWN; s->e.d_reclen = sizeof s->e; s->i++;
    return &s->e;
}
struct dirent* readdir(DIR* d) { return (struct dirent*)readdir64(d); }
int closedir(DIR* d) { SimDir* s = as_dir(d); if (!s) { REAL(closedir); return real(d); } In in; s->magic = 0; if (s->fd >= 0) do_close(s->fd); delete s; return 0; }
int dirfd(DIR* d) { SimDir* s = as_dir(d); if (!s) { REAL(dirfd); return real(d); } return s->fd; }

// stdio: a cookie stream over the simulated descriptor
static ssize_t ck_read(void* c, char* b, size_t n) { ++g_quiet; ssize_t r = read((int)(intptr_t)c, b, n); --g_quiet; return r; }
static ssize_t ck_write(void* c, const char* b, size_t n) { ++g_quiet; ssize_t r = write((int)(intptr_t)c, b, n); --g_quiet; return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int w) { ++g_quiet; off64_t r = lseek64((int)(intptr_t)c, *o, w); --g_quiet; if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { ++g_quiet; int r = close((int)(intptr_t)c); --g_quiet; return r; }
static std::map<FILE*, int>* g_fp;
static FILE* sim_fopen(const char* p, const char* m) {
    int fl = 0; bool plus = strchr(m, '+') != nullptr;
    if (m[0] == 'r') fl = plus ? O_RDWR : O_RDONLY; else if (m[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (strchr(m, 'x')) fl |= O_EXCL;
    int fd = do_open(p, fl); if (fd < 0) return nullptr;
    In in;
    { Ofd* o = get(fd); if (o && o->kind == K_DIR) {} }
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie((void*)(intptr_t)fd, m, io);
    if (!g_fp) g_fp = new std::map<FILE*, int>();
    (*g_fp)[f] = fd;
    return f;
}
FILE* fopen(const char* p, const char* m) { if (sim_on() && simpath(p)) return sim_fopen(p, m); if (sim_on() && (m[0] != 'r' || strchr(m, '+'))) { errno = EACCES; return nullptr; } REAL(fopen); return real(p, m); }
FILE* fopen64(const char* p, const char* m) { if (sim_on() && simpath(p)) return sim_fopen(p, m); if (sim_on() && (m[0] != 'r' || strchr(m, '+'))) { errno = EACCES; return nullptr; } REAL(fopen64); return real(p, m); }
int fileno(FILE* f) { if (g_fp) { In in; auto it = g_fp->find(f); if (it != g_fp->end()) return it->second; } REAL(fileno); return real(f); }
int fclose(FILE* f) { REAL(fclose); if (g_fp) { In in; g_fp->erase(f); } return real(f); }

// ---- tty
static simos::Tty* tty_of(int fd) { Ofd* o = get(fd); if (!o || o->kind != K_TTY) return nullptr; return &(*TT)[o->path]; }
int tcgetattr(int fd, struct termios* t) {
    if (!simfd(fd)) { if (sim_on()) { In in; return bad("tcgetattr", fd); } REAL(tcgetattr); return real(fd, t); }
    sync_point("tcgetattr"); In in; ncalls[simos::OP_TCGET]++; Ofd* o = get(fd); if (!o) return bad("tcgetattr", fd); if (o->kind == K_FOREIGN) o->touched++;
    simos::Tty* y = tty_of(fd); if (!y || !y->is_tty) { errno = ENOTTY; return -1; }
    if (y->hung || roll(FL.tcget_fail)) { if (!y->hung) fired("tcgetattr-fail"); errno = EIO; return -1; }
    *t = y->tio; return 0;
}
int tcsetattr(int fd, int act, const struct termios* t) {
    if (!simfd(fd)) { if (sim_on()) { In in; return bad("tcsetattr", fd); } REAL(tcsetattr); return real(fd, act, t); }
    sync_point("tcsetattr"); In in; ncalls[simos::OP_TCSET]++; Ofd* o = get(fd); if (!o) return bad("tcsetattr", fd); if (o->kind == K_FOREIGN) o->touched++;
    simos::Tty* y = tty_of(fd); if (!y || !y->is_tty) { errno = ENOTTY; return -1; }
    if (y->hung || roll(FL.tcset_fail)) { if (!y->hung) fired("tcsetattr-fail"); errno = EIO; return -1; }
    y->tio = *t; y->tcset_calls++; if (act == TCSAFLUSH) y->rx.clear(); sim::ev("tcsetattr iflag=%x oflag=%x cflag=%x lflag=%x", t->c_iflag, t->c_oflag, t->c_cflag, t->c_lflag); return 0;
}
int tcflush(int fd, int q) {
    if (!simfd(fd)) { if (sim_on()) { In in; return bad("tcflush", fd); } REAL(tcflush); return real(fd, q); }
    sync_point("tcflush"); In in; Ofd* o = get(fd); if (!o) return bad("tcflush", fd); if (o->kind == K_FOREIGN) o->touched++;
    simos::Tty* y = tty_of(fd); if (!y) { errno = ENOTTY; return -1; }
    if (y->hung || roll(FL.ioctl_fail)) { if (!y->hung) fired("tcflush-fail"); errno = EIO; return -1; }
    if (q == TCIFLUSH || q == TCIOFLUSH) { y->rx.clear(); y->flush_in++; } if (q == TCOFLUSH || q == TCIOFLUSH) y->flush_out++; return 0;
}
int tcdrain(int fd) { if (!simfd(fd)) { REAL(tcdrain); return real(fd); } sync_point("tcdrain"); In in; Ofd* o = get(fd); if (!o) return bad("tcdrain", fd); simos::Tty* y = tty_of(fd); if (!y) { errno = ENOTTY; return -1; } y->drains++; return 0; }
int tcsendbreak(int fd, int d) {
    if (!simfd(fd)) { if (sim_on()) { In in; return bad("tcsendbreak", fd); } REAL(tcsendbreak); return real(fd, d); }
    sync_point("tcsendbreak"); In in; Ofd* o = get(fd); if (!o) return bad("tcsendbreak", fd); if (o->kind == K_FOREIGN) o->touched++;
    simos::Tty* y = tty_of(fd); if (!y) { errno = ENOTTY; return -1; }
    if (y->hung || roll(FL.ioctl_fail)) { if (!y->hung) fired("tcsendbreak-fail"); errno = EIO; return -1; }
    y->breaks++; return 0;
}
int isatty(int fd) { if (!simfd(fd)) { struct termios t; return syscall(SYS_ioctl, fd, TCGETS, &t) == 0; } simos::Tty* y = tty_of(fd); return y && y->is_tty; }
int ioctl(int fd, unsigned long rq, ...) {
    va_list a; va_start(a, rq); void* arg = va_arg(a, void*); va_end(a);
    if (!simfd(fd)) return (int)syscall(SYS_ioctl, fd, rq, arg);
    sync_point("ioctl"); In in; ncalls[simos::OP_IOCTL]++; Ofd* o = get(fd); if (!o) return bad("ioctl", fd); if (o->kind == K_FOREIGN) o->touched++;
    if (o->kind == K_FILE) { if (rq == FIONREAD) { *(int*)arg = (int)std::max<int64_t>(0, (int64_t)o->node->data.size() - o->pos); return 0; } errno = ENOTTY; return -1; }
    simos::Tty* y = tty_of(fd); if (!y) { errno = ENOTTY; return -1; }
    if (y->hung || roll(FL.ioctl_fail)) { if (!y->hung) fired("ioctl-fail"); errno = EIO; return -1; }
    if (rq == FIONREAD) { *(int*)arg = (int)y->rx.size(); return 0; }
    if (rq == TIOCMGET) { *(int*)arg = 0; return 0; }
    return 0;
}
int fcntl(int fd, int c, ...) { va_list a; va_start(a, c); void* arg = va_arg(a, void*); va_end(a); if (!simfd(fd)) return (int)syscall(SYS_fcntl, fd, c, arg); Ofd* o = get(fd); if (!o) return bad("fcntl", fd); if (c == F_GETFL) return o->flags; if (c == F_SETFL) o->flags = (o->flags & O_ACCMODE) | ((int)(intptr_t)arg & ~O_ACCMODE); return 0; }
int fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); void* arg = va_arg(a, void*); va_end(a); return fcntl(fd, c, arg); }
int poll(struct pollfd* p, nfds_t n, int to) {
    bool any = false; for (nfds_t i = 0; i < n; i++) any |= simfd(p[i].fd);
    if (!any) return (int)syscall(SYS_poll, p, n, to);
    sync_point("poll"); In in; int r = 0;
    for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; Ofd* o = get(p[i].fd); if (!o) { p[i].revents = POLLNVAL; r++; continue; } short e = 0; if (o->kind == K_FILE) e = p[i].events & (POLLIN | POLLOUT); else if (o->kind == K_TTY) { if (!(*TT)[o->path].rx.empty()) e |= p[i].events & POLLIN; e |= p[i].events & POLLOUT; } p[i].revents = e; if (e) r++; }
    if (!r && to > 0) sleep_until(sim::now_ns() + (uint64_t)to * 1000000ull);
    return r;
}

// ---- system log
void openlog(const char* ident, int, int) { sync_point("openlog"); g_ident = ident; g_slopen = 1; }
void closelog(void) { sync_point("closelog"); g_ident = nullptr; g_slopen = 0; }
void vsyslog(int pri, const char* f, va_list a) { sync_point("syslog"); In in; char* b = nullptr; int n = vasprintf(&b, f, a); simos::Syslog s; s.pri = pri; if (n >= 0) { s.text.assign(b, n); ::free(b); } if (g_ident) s.ident = g_ident; SLOG->push_back(s); sim::mix(sim::fnv(s.text)); sim::ev("syslog %d", pri); }
void syslog(int pri, const char* f, ...) { va_list a; va_start(a, f); vsyslog(pri, f, a); va_end(a); }
void __vsyslog_chk(int pri, int, const char* f, va_list a) { vsyslog(pri, f, a); }
void __syslog_chk(int pri, int, const char* f, ...) { va_list a; va_start(a, f); vsyslog(pri, f, a); va_end(a); }

// ---- network: datagrams only
int socket(int dom, int type, int) {
    if (!sim_on()) { errno = EACCES; return -1; }
    sync_point("socket"); In in; ncalls[simos::OP_SOCKET]++;
    if (roll(FL.socket_fail)) { fired("socket-fail"); errno = EMFILE; return -1; }
    Ofd* o = new Ofd(); o->kind = K_SOCK; o->path = sim::fmt("socket:%d:%d", dom, type & 0xff); int fd = put_fd(o); sim::ev("socket -> #%d", slot(fd)); return fd;
}
ssize_t sendto(int fd, const void* b, size_t n, int, const struct sockaddr* sa, socklen_t) {
    sync_point("sendto"); In in; ncalls[simos::OP_SENDTO]++;
    Ofd* o = get(fd); if (!o) return simfd(fd) ? bad("sendto", fd) : (nbad++, errno = EBADF, -1);
    if (o->kind == K_FOREIGN) o->touched++;
    if (o->kind != K_SOCK) { errno = ENOTSOCK; return -1; }
    if (n > 65507) { errno = EMSGSIZE; return -1; }
    if (roll(FL.send_fail)) { fired("sendto-fail"); errno = ENOBUFS; return -1; }
    simos::Dgram d; d.data.assign((const char*)b, n); d.fd = fd; d.addr = 0; d.port = 0;
    if (sa && sa->sa_family == AF_INET) { const struct sockaddr_in* in4 = (const struct sockaddr_in*)sa; d.addr = ntohl(in4->sin_addr.s_addr); d.port = ntohs(in4->sin_port); }
    SENT->push_back(d); sim::mix(sim::fnv(b, n)); sim::ev("sendto %zu bytes", n);
    return (ssize_t)n;
}
static struct hostent g_he; static char* g_addrs[2]; static uint32_t g_haddr; static char g_hname[256]; static char* g_noalias[1];
struct hostent* gethostbyname(const char* n) {
    sync_point("resolve"); In in; ncalls[simos::OP_RESOLVE]++;
    uint32_t a; struct in_addr ia; auto it = HOSTS->find(n);
    if (roll(FL.resolve_fail)) { fired("resolve-fail"); h_errno = TRY_AGAIN; return nullptr; }
    if (it != HOSTS->end()) a = htonl(it->second); else if (inet_aton(n, &ia)) a = ia.s_addr; else { h_errno = HOST_NOT_FOUND; return nullptr; }
    g_haddr = a; snprintf(g_hname, sizeof g_hname, "%s", n); g_addrs[0] = (char*)&g_haddr; g_addrs[1] = nullptr; g_noalias[0] = nullptr;
    g_he.h_name = g_hname; g_he.h_aliases = g_noalias; g_he.h_addrtype = AF_INET; g_he.h_length = 4; g_he.h_addr_list = g_addrs;
    return &g_he;
}
struct hostent* gethostbyaddr(const void* p, socklen_t l, int) {
    sync_point("resolve"); In in; if (l != 4) return nullptr; uint32_t a; memcpy(&a, p, 4);
    if (a == INADDR_NONE) { h_errno = HOST_NOT_FOUND; return nullptr; }
    if (roll(FL.resolve_fail)) { fired("resolve-fail"); h_errno = TRY_AGAIN; return nullptr; }
    g_haddr = a; snprintf(g_hname, sizeof g_hname, "host"); g_addrs[0] = (char*)&g_haddr; g_addrs[1] = nullptr; g_noalias[0] = nullptr;
    g_he.h_name = g_hname; g_he.h_aliases = g_noalias; g_he.h_addrtype = AF_INET; g_he.h_length = 4; g_he.h_addr_list = g_addrs;
    return &g_he;
}
int getaddrinfo(const char* n, const char* serv, const struct addrinfo*, struct addrinfo** res) {
    struct hostent* h = gethostbyname(n); if (!h) return EAI_NONAME;
    In in; struct Blk { struct addrinfo ai; struct sockaddr_in sa; }; Blk* b = (Blk*)calloc(1, sizeof(Blk));
    b->ai.ai_family = AF_INET; b->ai.ai_socktype = SOCK_DGRAM; b->ai.ai_addrlen = sizeof b->sa; b->ai.ai_addr = (struct sockaddr*)&b->sa; b->sa.sin_family = AF_INET; memcpy(&b->sa.sin_addr, h->h_addr_list[0], 4); b->sa.sin_port = htons(serv ? (uint16_t)atoi(serv) : 0);
    *res = &b->ai; return 0;
}
void freeaddrinfo(struct addrinfo* a) { In in; free(a); }
}
