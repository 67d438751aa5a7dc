// A stand-in for the kernel side of Linux AIO, put in place at link time
// (-Wl,--wrap=io_setup,--wrap=io_submit,--wrap=io_getevents,--wrap=io_destroy).
// Modes: SCRIPT (every answer comes from the scenario), RANDOM (seeded answers, a thread
// completes requests in any order), AUTO (everything succeeds at once), REAL (pass through).
// Every answer is recorded, in the order in which the kernel gives it.
#pragma once
#include "vh.hpp"

#include <condition_variable>
#include <deque>
#include <functional>
#include <libaio.h>
#include <memory>
#include <set>
#include <thread>

extern "C" {
int     __real_io_setup(int n, io_context_t* c);
int     __real_io_destroy(io_context_t c);
int     __real_io_submit(io_context_t c, long n, struct iocb** a);
int     __real_io_getevents(io_context_t c, long min, long nr, struct io_event* ev, struct timespec* t);
}

namespace vk {
using namespace vh;

enum Mode { SCRIPT, RANDOM, AUTO, REAL };

struct Rq
{
    int         ctx;
    int         id;
    struct iocb cb;
    long        res = 0;
};

// what one submitting thread is doing
struct Call
{
    int  id          = 0;
    bool at_kernel   = false; // inside io_submit, waiting for the scenario
    bool decided     = false;
    bool hold        = false; // the answer is given but io_submit has not returned yet
    bool held        = false;
    bool returned    = false;
    int  answer      = 0; // >=0 number to take, <0 error
};

struct Kernel
{
    std::mutex              m;
    std::condition_variable cv;
    Mode                    mode = AUTO;
    Rng                     rng{1};
    int                     p_again = 0, p_err = 0, p_partial = 0, p_short = 0, p_intr = 0, p_delay = 0; // percent
    std::map<int, std::deque<Rq>> kq, done; // by context
    std::set<int>           contexts;
    int                     next_ctx = 1;
    // notifying thread, SCRIPT mode
    bool                    at_get = false, get_decided = false;
    long                    get_answer = 0;
    long                    progress = 0; // counts every kernel step, to detect hangs
    std::function<int(const struct iocb*)> id_of;
    std::function<std::string(const struct iocb*)> describe;
    std::function<long(const Rq&)> fate = [](const Rq&) { return -1000000L; }; // forced results, by request
    std::function<void(const Rq&)> on_take, on_done;
    std::thread             pump;
    bool                    stop_pump = false;
    bool                    log = true;
    std::map<void*, Rq>     real; // requests held by the real kernel, by their data pointer

    void start(Mode md, uint64_t seed)
    {
        mode = md;
        rng  = Rng(seed);
        kq.clear();
        done.clear();
        at_get = get_decided = false;
        stop_pump            = false;
        if (mode == RANDOM) {
            pump = std::thread([this] { run_pump(); });
        }
    }
    void finish()
    {
        {
            std::lock_guard<std::mutex> g(m);
            stop_pump = true;
            cv.notify_all();
        }
        if (pump.joinable()) {
            pump.join();
        }
    }
    bool chance(int p)
    {
        return p > 0 && static_cast<int>(rng.below(100)) < p;
    }
    // performs a request; `res` < 0: error; res == LONG_MAX: everything
    void perform(Rq r, const std::string& how)
    {
        size_t len = r.cb.u.c.nbytes;
        size_t n   = len;
        long   res = 0;
        if (how == "err") {
            res = -EIO;
        } else {
            if (how == "short") {
                n = len / 2;
            } else if (how == "zero") {
                n = 0;
            }
            if (n) {
                res = r.cb.aio_lio_opcode == IO_CMD_PREAD
                          ? ::syscall(17 /* pread64 */, r.cb.aio_fildes, r.cb.u.c.buf, n, r.cb.u.c.offset)
                          : ::syscall(18 /* pwrite64 */, r.cb.aio_fildes, r.cb.u.c.buf, n, r.cb.u.c.offset);
                if (res < 0) {
                    res = -errno;
                }
            }
        }
        r.res = res;
        progress++;
        if (log) {
            Ev("kcomplete").f("id", r.id).f("x", r.ctx).f("res", res).f("full", res == static_cast<long>(len)).emit();
        }
        if (on_done) {
            on_done(r);
        }
        done[r.ctx].push_back(r);
    }
    std::string random_fate(const Rq& r)
    {
        if (chance(p_short)) {
            static const char* k[] = {"short", "err", "zero"};
            return k[rng.below(3)];
        }
        return "full";
    }
    void run_pump()
    {
        std::unique_lock<std::mutex> lk(m);
        while (!stop_pump) {
            bool any = false;
            for (auto& q : kq) {
                if (!q.second.empty() && !chance(p_delay)) {
                    size_t i = rng.below(q.second.size());
                    Rq     r = q.second[i];
                    q.second.erase(q.second.begin() + i);
                    perform(r, random_fate(r));
                    any = true;
                }
            }
            cv.notify_all();
            cv.wait_for(lk, std::chrono::microseconds(any ? 1 + rng.below(60) : 200));
        }
    }
};
inline Kernel& K()
{
    static Kernel* k = new Kernel;
    return *k;
}
inline Call*& tls()
{
    static thread_local Call* c = nullptr;
    return c;
}

} // namespace vk

extern "C" {

int __wrap_io_setup(int n, io_context_t* c)
{
    auto&                        k = vk::K();
    std::unique_lock<std::mutex> lk(k.m);
    if (k.mode == vk::REAL) {
        return __real_io_setup(n, c);
    }
    int x = k.next_ctx++;
    k.contexts.insert(x);
    *c = reinterpret_cast<io_context_t>(static_cast<intptr_t>(x));
    return 0;
}

int __wrap_io_destroy(io_context_t c)
{
    auto&                        k = vk::K();
    std::unique_lock<std::mutex> lk(k.m);
    if (k.mode == vk::REAL) {
        lk.unlock();
        return __real_io_destroy(c);
    }
    int x = static_cast<int>(reinterpret_cast<intptr_t>(c));
    if (k.log) {
        vh::Ev("kdestroy").f("x", x).f("left", k.kq[x].size() + k.done[x].size()).f("known", k.contexts.count(x) == 1).emit();
    }
    k.contexts.erase(x);
    k.kq.erase(x);
    k.done.erase(x);
    return 0;
}

int __wrap_io_submit(io_context_t c, long n, struct iocb** a)
{
    auto&                        k = vk::K();
    std::unique_lock<std::mutex> lk(k.m);
    vk::Call*                    me = vk::tls();
    int                          x  = static_cast<int>(reinterpret_cast<intptr_t>(c));
    int                          ans;
    if (k.mode == vk::SCRIPT && me != nullptr) {
        me->at_kernel = true;
        me->decided   = false;
        k.cv.notify_all();
        k.cv.wait(lk, [&] { return me->decided || k.mode != vk::SCRIPT; });
        me->at_kernel = false;
    }
    bool by_script = me != nullptr && me->decided;
    if (by_script) {
        me->decided = false;
        ans         = me->answer >= 0 ? std::min<long>(n, me->answer) : me->answer;
    } else if (k.mode == vk::REAL) {
        ans = __real_io_submit(c, n, a); // under the lock: recorded before any completion
        x   = 0;
    } else if (k.mode == vk::RANDOM && n > 0) {
        size_t load = k.kq[x].size() + k.done[x].size();
        ans         = static_cast<int>(n);
        if (load > 0 && k.chance(k.p_again)) {
            ans = -EAGAIN;
        } else if (k.chance(k.p_err)) {
            ans = -EIO;
        } else if (k.chance(k.p_partial)) {
            ans = 1 + static_cast<int>(k.rng.below(n));
        }
    } else {
        ans = static_cast<int>(n);
    }
    k.progress++;
    std::string offered = "[";
    for (long i = 0; i < n; i++) {
        offered += (i ? "," : "") + k.describe(a[i]);
    }
    if (k.log && n > 0) {
        vh::Ev("ksubmit").f("x", x).raw("offered", offered + "]").f("res", ans).emit();
    }
    for (int i = 0; i < ans; i++) {
        vk::Rq r;
        r.ctx = x;
        r.id  = k.id_of(a[i]);
        r.cb  = *a[i];
        if (k.on_take) {
            k.on_take(r);
        }
        if (k.mode == vk::REAL) {
            k.real[r.cb.data] = r;
        } else {
            k.kq[x].push_back(r);
        }
    }
    k.cv.notify_all();
    if (by_script && me->hold) {
        me->held = true;
        k.cv.notify_all();
        k.cv.wait(lk, [&] { return !me->hold || k.mode != vk::SCRIPT; });
        me->held = false;
        me->hold = false;
    }
    return ans;
}

int __wrap_io_getevents(io_context_t c, long min, long nr, struct io_event* ev, struct timespec* t)
{
    auto& k = vk::K();
    int   x = static_cast<int>(reinterpret_cast<intptr_t>(c));
    std::unique_lock<std::mutex> lk(k.m);
    if (k.mode == vk::REAL) {
        lk.unlock();
        struct timespec shorter;
        shorter.tv_sec  = 0;
        shorter.tv_nsec = 2000000;
        int n           = __real_io_getevents(c, min, nr, ev, &shorter);
        lk.lock();
        std::vector<int> ids;
        for (int i = 0; i < n; i++) {
            vk::Rq r = k.real[ev[i].data];
            k.real.erase(ev[i].data);
            if (k.log) {
                vh::Ev("kcomplete").f("id", r.id).f("x", 0).f("res", static_cast<long>(ev[i].res))
                    .f("full", static_cast<long>(ev[i].res) == static_cast<long>(r.cb.u.c.nbytes)).emit();
            }
            ids.push_back(r.id);
        }
        if (k.log && n > 0) {
            vh::Ev("getevents").f("x", 0).f("ids", ids).f("res", n).emit();
        }
        return n;
    }
    long want = nr;
    bool by_script = false;
    if (k.mode == vk::SCRIPT) {
        k.at_get      = true;
        k.get_decided = false;
        k.cv.notify_all();
        k.cv.wait(lk, [&] { return k.get_decided || k.mode != vk::SCRIPT; });
        k.at_get  = false;
        by_script = k.get_decided;
        if (by_script) {
            k.get_decided = false;
            want          = k.get_answer;
        }
    }
    auto& q = k.done[x];
    if (by_script && want < 0) {
        if (k.log) {
            vh::Ev("getevents").f("x", x).raw("ids", "[]").f("res", want).emit();
        }
        return static_cast<int>(want);
    }
    if (k.mode == vk::RANDOM) {
        if (k.chance(k.p_intr)) {
            return -EINTR;
        }
        if (q.empty()) {
            k.cv.wait_for(lk, std::chrono::microseconds(300));
        }
        if (k.chance(k.p_intr)) {
            return 0;
        }
        if (q.size() > 1 && k.chance(k.p_partial)) {
            want = 1 + static_cast<long>(k.rng.below(q.size()));
        }
    } else if (!by_script) { // AUTO
        auto& w = k.kq[x];
        while (!w.empty()) {
            vk::Rq r = w.front();
            w.pop_front();
            k.perform(r, "full");
        }
        if (k.done[x].empty()) {
            k.cv.wait_for(lk, std::chrono::microseconds(300));
        }
    }
    auto&            d = k.done[x];
    long             n = 0;
    std::vector<int> ids;
    while (n < want && n < nr && !d.empty()) {
        vk::Rq r = d.front();
        d.pop_front();
        ev[n].data = r.cb.data;
        ev[n].obj  = nullptr;
        ev[n].res  = static_cast<unsigned long>(r.res);
        ev[n].res2 = 0;
        ids.push_back(r.id);
        n++;
    }
    k.progress++;
    if (k.log && (n > 0 || by_script)) {
        vh::Ev("getevents").f("x", x).f("ids", ids).f("res", n).emit();
    }
    return static_cast<int>(n);
}
}
