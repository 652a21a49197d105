// Simulated operating system seen by the code under test: files under /sim, ttys, datagram network, clocks.
#pragma once
#include "sim.h"
#include <map>
#include <set>
#include <termios.h>
namespace simos {

enum Op { OP_OPEN, OP_CLOSE, OP_READ, OP_WRITE, OP_SEEK, OP_RENAME, OP_REMOVE, OP_STAT, OP_READDIR, OP_IOCTL, OP_TCGET, OP_TCSET, OP_SENDTO, OP_SOCKET, OP_RESOLVE, OP_FSYNC, OP_TRUNC, NOPS };

struct Faults {                     // probabilities in 1/1000, evaluated per call
    int write_short = 0, write_eio = 0, write_enospc = 0, write_eintr = 0, write_eagain = 0;
    int read_short = 0, read_eio = 0, read_eintr = 0;
    int open_fail = 0, rename_fail = 0, remove_fail = 0, seek_fail = 0, close_fail = 0, stat_fail = 0;
    bool close_loses = false;       // a failing close of a written file lost the tail of what was written
    int tcget_fail = 0, tcset_fail = 0, ioctl_fail = 0;
    int send_fail = 0, socket_fail = 0, resolve_fail = 0;
    int64_t capacity = -1;          // bytes the disk holds in total, -1 unlimited
    int64_t crash_at = -1;          // crash when this many mutating system calls have been made (0 = next)
    bool torn_crash = true;         // a write in progress at the crash persists a prefix
};
Faults& faults();
void faults_off();
uint64_t calls(Op op);
uint64_t total_faults();            // faults that fired since reset
uint64_t fired_count(const char* kind);  // of one kind
uint64_t mutating_calls();
bool crashed();

// files
bool exists(const std::string& path);
std::string content(const std::string& path);
void put(const std::string& path, const std::string& data);
void erase(const std::string& path);
void mkdirs(const std::string& path);
std::vector<std::string> list(const std::string& prefix);      // all file paths starting with prefix
// nth read() call on any sim file fails / is short: harness directed faults
void readdir_order(int mode);       // 0 as created, 1 reverse, 2 shuffled by the tape

// descriptors
void standard_closed(int n);         // the first n standard descriptors are closed and get used for what is opened next
struct FdInfo { int fd; std::string path; int kind; };
std::vector<FdInfo> open_fds();
uint64_t bad_fd_calls();            // calls made with a descriptor that is not open
uint64_t bad_close_calls();
int foreign_open(const std::string& name);                    // a descriptor owned by another part of the program
bool foreign_alive(int fd);
uint64_t foreign_touched(int fd);   // calls made on it by code under test

// tty
struct Tty {
    std::string name;
    std::string rx;                 // bytes waiting for the program
    std::string tx;                 // bytes the program transmitted
    struct termios tio, initial;
    int opens = 0, open_now = 0;
    int breaks = 0, flush_in = 0, flush_out = 0, drains = 0;
    int open_flags = 0;
    bool hung = false;              // device unplugged: reads/writes/ioctls fail with EIO
    int tcset_calls = 0;
    int vtime_waits = 0;
    bool is_tty = true;
    std::vector<std::string> log;
};
Tty& tty(const std::string& path);  // creates on first use

// network
struct Dgram { std::string data; uint32_t addr; uint16_t port; int fd; };   // addr/port in host order
std::vector<Dgram>& sent();
struct Syslog { std::string ident, text; int pri; };
std::vector<Syslog>& syslogged();
int syslog_open();                  // openlog/closelog balance (0 or 1)
void host(const std::string& name, uint32_t addr_host_order);
}
