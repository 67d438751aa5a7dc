#pragma once
// Every phase of an episode (from one "open" operation to the next) runs in its own child process, which
// is killed with SIGKILL either between two operations or at a chosen write-like system call (before it,
// in the middle of it, or after it).  "armopen N MODE" within a phase arms the kill before its open,
// and arm() arms it later.
#include "vh.hpp"

#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>

using namespace vh;

// ---------------------------------------------------------------- kill points and faults
struct Shared
{
    std::atomic<long> count;   // intercepted calls seen
    std::atomic<long> at;      // act on this one (0 = never)
    std::atomic<long> times;   // faults: on how many calls
    std::atomic<int>  mode;    // kill 0 before, 1 in the middle of, 2 after the call;
                               // fail 10 without, 11 with half of, 12 with all of its effect
                               // (READ_FAULTS) reads: 20 fail, 21 are short
    std::atomic<int>  faults;  // faults injected
    std::atomic<int>  closing; // the process is closing its files
    std::atomic<int>  opened;  // the open call has returned
    std::atomic<int>  committed;
};
static Shared* sh;

static void die()
{
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;) {
        pause();
    }
}
// 0: nothing, 1: kill at this call, 2: this call fails
static int hit(bool reads = false)
{
    long at = sh ? sh->at.load() : 0;
    if (at <= 0 || reads != (sh->mode >= 20)) {
        return 0;
    }
    long n = sh->count.fetch_add(1) + 1;
    if (sh->mode < 10) {
        return n == at ? 1 : 0;
    }
    if (n < at || n >= at + sh->times) {
        return 0;
    }
    sh->faults++;
    return 2;
}
static long failed()
{
    errno = sh->mode == 12 ? EIO : ENOSPC;
    return -1;
}
extern "C" {
static ssize_t out_of_order(int what, long nr, int fd, const void* b, size_t n, off64_t o)
{
    bool kill = what == 1;
    int  mode = sh->mode % 10;
    long r    = 0;
    if (mode > 0) {
        r = syscall(nr, fd, b, mode == 1 ? n / 2 : n, o);
    }
    if (kill) {
        die();
    }
    return mode == 1 && r > 0 ? r : failed();
}
ssize_t write(int fd, const void* b, size_t n)
{
    int h = fd != out().fd && fd > 2 ? hit() : 0;
    return h ? out_of_order(h, SYS_write, fd, b, n, 0) : syscall(SYS_write, fd, b, n);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o)
{
    int h = hit();
    return h ? out_of_order(h, SYS_pwrite64, fd, b, n, o) : syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    return pwrite64(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
    int h = fd != out().fd && fd > 2 ? hit() : 0;
    if (h && sh->mode % 10 == 1) {
        n = n > 1 ? 1 : n;
    }
    return h ? out_of_order(h, SYS_writev, fd, v, static_cast<size_t>(sh->mode % 10 == 1 ? 2 * n : n), 0) : syscall(SYS_writev, fd, v, n);
}
#define KILLABLE(call)                                                                             \
    int h = hit();                                                                                 \
    if (h) {                                                                                       \
        if (sh->mode % 10 == 2) {                                                                  \
            call;                                                                                  \
        }                                                                                          \
        if (h == 1) {                                                                              \
            die();                                                                                 \
        }                                                                                          \
        return static_cast<int>(failed());                                                         \
    }                                                                                              \
    return static_cast<int>(call);
int rename(const char* a, const char* b)
{
    KILLABLE(syscall(SYS_rename, a, b))
}
int unlink(const char* a)
{
    KILLABLE(syscall(SYS_unlink, a))
}
int ftruncate64(int fd, off64_t n)
{
    KILLABLE(syscall(SYS_ftruncate, fd, n))
}
int ftruncate(int fd, off_t n)
{
    KILLABLE(syscall(SYS_ftruncate, fd, n))
}
int fdatasync(int fd)
{
    KILLABLE(syscall(SYS_fdatasync, fd))
}
int fsync(int fd)
{
    KILLABLE(syscall(SYS_fsync, fd))
}
#ifdef READ_FAULTS
// the reads of the databases of a client are left alone: their interface cannot report a failure
static bool spared(int fd)
{
    char    p[64], r[512];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(p, r, sizeof r - 1);
    r[n > 0 ? n : 0] = 0;
    return fd <= 2 || fd == out().fd || strstr(r, "/counters") != nullptr || strstr(r, "/scratchfile") == nullptr;
}
ssize_t read(int fd, void* b, size_t n)
{
    if (sh && sh->at > 0 && sh->mode >= 20 && !spared(fd) && hit(true)) {
        if (sh->mode == 20) {
            errno = EIO;
            return -1;
        }
        n = n > 1 ? n / 2 : n;
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o)
{
    if (sh && sh->at > 0 && sh->mode >= 20 && !spared(fd) && hit(true)) {
        if (sh->mode == 20) {
            errno = EIO;
            return -1;
        }
        n = n > 1 ? n / 2 : n;
    }
    return syscall(SYS_pread64, fd, b, n, o);
}
// the streams of the standard library are opened here: only a stash is read through one
FILE* fopen(const char* path, const char* how)
{
    static FILE* (*real)(const char*, const char*) = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen"));
    if (sh && sh->at > 0 && sh->mode >= 20 && how[0] == 'r' && strstr(path, "/stash") != nullptr && strstr(path, "/scratchfile") != nullptr
        && hit(true)) {
        errno = EMFILE;
        return nullptr;
    }
    return real(path, how);
}
FILE* fopen64(const char* path, const char* how)
{
    return fopen(path, how);
}
ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    return pread64(fd, b, n, o);
}
#endif
// Debian builds RocksDB with its assertions: one of them does not expect that a log whose write failed
// is written again, which happens when its error recovery is quick.  The process dies there, as in a kill.
[[noreturn]] void __assert_fail(const char* expr, const char* file, unsigned line, const char* function) noexcept
{
    if (sh && sh->faults > 0 && strstr(expr, "sync_without_flush_called_") != nullptr) {
        die();
    }
    fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, function, expr);
    abort();
}
}

namespace killpoints {
inline void init()
{
    sh = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
}
inline void arm(long at, int mode, long times = 1)
{
    sh->at    = 0;
    sh->mode  = mode;
    sh->times = times;
    sh->count = 0;
    sh->at    = at;
}
// runs phase(index of its open) for each phase, and records how it ended
template<class F>
void phases(const Episode& e, F phase)
{
    size_t i      = 0;
    sh->committed = 0;
    sh->faults    = 0;
    while (i < e.ops.size()) {
        sh->count  = 0;
        sh->at     = 0;
        sh->opened = 0;
        sh->closing = 0;
        size_t next = i + 1;
        while (next < e.ops.size() && e.ops[next].name != "open") {
            if (e.ops[next].name == "armopen") {
                arm(e.ops[next].i(0), static_cast<int>(e.ops[next].i(1)), e.ops[next].has(2) ? e.ops[next].i(2) : 1);
            }
            next++;
        }
        pid_t p = fork();
        if (p == 0) {
            phase(i);
            _exit(0);
        }
        int st = 0;
        for (int w = 0;; w++) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) {
                break;
            }
            // Closing a RocksDB database while it recovers from an error may wait for ever (WaitForFlushMemTables
            // and CloseHelper wait for each other): such a process is killed
            if (w > 6000 && sh->closing && sh->faults > 0) {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                break;
            }
            if (w > 40000) {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                Ev("Hang").emit();
                return;
            }
            usleep(500);
        }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            Ev(sh->opened ? "crash" : "opencrash").emit();
        } else if (WIFSIGNALED(st)) {
            Ev("Crash").f("sig", WTERMSIG(st)).emit();
            return;
        } else if (WEXITSTATUS(st) != 0) {
            return; // the event says why
        }
        i = next;
    }
}
} // namespace killpoints
