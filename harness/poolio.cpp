// The thread-pool I/O scheduler; pread/pwrite and the notification of its condition
// variable are replaced at link time.
#include "vh.hpp"

#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <condition_variable>
#include <memory>
#include <thread>

#include <spdlog/sinks/null_sink.h>

using namespace vh;
using namespace sse::abstractio;

namespace {
struct Req
{
    int      id, kind, off, len, s;
    uint8_t* buf;
    bool     child;
};
struct State
{
    std::mutex                          m;
    std::condition_variable             cv;
    int                                 fd = -1;
    int                                 next = 1;
    bool                                script = false, random = false;
    int                                 delay = 0, fail = 0;
    Rng                                 rng{1};
    std::map<int, std::shared_ptr<Req>> reqs;
    std::map<void*, int>                by_buf;
    std::map<int, std::string>          fate;    // SCRIPT: decided outcomes
    std::map<int, bool>                 arrived; // in pread/pwrite
    std::map<int, bool>                 over;    // callback returned
    std::map<int, std::unique_ptr<Scheduler>> sched;
    std::map<int, Scheduler*>           raw;
    std::map<int, std::pair<uintptr_t, uintptr_t>> where;
    std::map<int, int>                  slow; // notifications of this scheduler are slow
    std::map<int, int>                  waiting, destroying;
    std::vector<std::thread>            threads;
};
State* S;

void submit(int s, char kind, bool child, bool in_callback);

int slow_ms = 0;

ssize_t io(int kind, int fd, void* buf, size_t len, off_t off)
{
    std::unique_lock<std::mutex> lk(S->m);
    auto                         it  = S->by_buf.find(buf);
    int                          id  = it == S->by_buf.end() ? 0 : it->second;
    std::string                  how = "full";
    if (S->script) {
        S->arrived[id] = true;
        S->cv.notify_all();
        S->cv.wait(lk, [&] { return S->fate.count(id) || !S->script; });
        if (S->fate.count(id)) {
            how = S->fate[id];
        }
    } else {
        if (S->delay && static_cast<int>(S->rng.below(100)) < S->delay) {
            int us = static_cast<int>(S->rng.below(400));
            lk.unlock();
            usleep(us);
            lk.lock();
        }
        if (S->fail && static_cast<int>(S->rng.below(100)) < S->fail) {
            how = S->rng.below(2) ? "short" : "err";
        }
    }
    ssize_t res;
    int     err = 0;
    if (how == "err") {
        res = -1;
        err = EIO;
    } else {
        size_t n = how == "short" ? len / 2 : len;
        res      = ::syscall(kind == 0 ? 17 : 18, fd, buf, n, off);
        err      = errno;
    }
    std::vector<long> op = {id, kind, static_cast<long>(off), static_cast<long>(len), fd == S->fd ? 1 : 0};
    Ev("perform").f("op", op).f("res", res).emit();
    errno = err;
    return res;
}

void on_cb(int id, void* tag, int64_t res)
{
    std::shared_ptr<Req> r;
    {
        std::lock_guard<std::mutex> g(S->m);
        r = S->reqs[id];
        Ev("cb").f("id", id).f("res", static_cast<long long>(res)).f("tag", tag == static_cast<void*>(r.get())).emit();
    }
    if (r->child) {
        submit(r->s, r->id % 2 ? 'r' : 'w', false, true);
    }
    if (S->random && r->id % 3 == 0) {
        usleep(r->id % 200);
    }
    std::lock_guard<std::mutex> g(S->m);
    Ev("cbret").f("id", id).emit();
    S->over[id] = true;
    S->cv.notify_all();
}

std::shared_ptr<Req> make(int s, char kind, bool child)
{
    auto r   = std::make_shared<Req>();
    r->id    = S->next++;
    r->kind  = kind == 'w' ? 1 : 0;
    r->off   = 64 * ((r->id * 7) % 900);
    r->len   = 16 + r->id % 48;
    r->s     = s;
    r->child = child;
    r->buf   = static_cast<uint8_t*>(malloc(64));
    memset(r->buf, r->id, 64);
    S->reqs[r->id]    = r;
    S->by_buf[r->buf] = r->id;
    std::vector<int> q = {r->id, r->kind, r->off, r->len};
    Ev("submit").f("s", s).f("req", q).emit();
    return r;
}

void submit(int s, char kind, bool child, bool in_callback)
{
    Scheduler*                        sc;
    std::vector<std::shared_ptr<Req>> rs;
    {
        std::lock_guard<std::mutex> g(S->m);
        sc    = S->raw[s];
        int n = kind == 'R' ? 1 + static_cast<int>(S->rng.below(4)) : 1;
        for (int i = 0; i < n; i++) {
            rs.push_back(make(s, kind, child));
        }
    }
    int ret;
    if (kind == 'R') {
        std::vector<Scheduler::PReadSumission> subs;
        for (auto& r : rs) {
            int id = r->id;
            subs.emplace_back(S->fd, r->buf, r->len, r->off, r.get(), [id](void* t, int64_t n) { on_cb(id, t, n); });
        }
        ret = sc->submit_preads(subs);
    } else {
        auto& r  = rs[0];
        int   id = r->id;
        auto  cb = [id](void* t, int64_t n) { on_cb(id, t, n); };
        ret      = kind == 'r' ? sc->submit_pread(S->fd, r->buf, r->len, r->off, r.get(), cb)
                               : sc->submit_pwrite(S->fd, r->buf, r->len, r->off, r.get(), cb);
    }
    std::lock_guard<std::mutex> g(S->m);
    Ev("submitret").f("ret", ret).f("n", rs.size()).emit();
    (void)in_callback;
}

template<typename P>
bool wait_for(P p, int ms)
{
    std::unique_lock<std::mutex> lk(S->m);
    return S->cv.wait_for(lk, std::chrono::milliseconds(ms), p);
}
[[noreturn]] void hang(const char* w)
{
    Ev("Hang").f("where", w).emit();
    _exit(9);
}

void body(const Episode& e)
{
    S       = new State; // never freed: late accesses stay visible
    State& st = *S;
    std::string path = fresh("f");
    st.fd            = ::open(path.c_str(), O_RDWR | O_CREAT, 0600);
    std::vector<uint8_t> img(65536, 7);
    if (::write(st.fd, img.data(), img.size()) != 65536) {
        _exit(3);
    }
    st.script = e.s("mode") == "script";
    st.random = !st.script;
    st.rng    = Rng(e.i("seed", 1));
    st.delay  = e.i("delay");
    st.fail   = e.i("fail");
    slow_ms   = e.i("slow");
    auto fresh_sched = [&](int s) {
        std::lock_guard<std::mutex> g(st.m);
        Ev("new").f("s", s).emit();
        Scheduler* p = make_thread_pool_aio_scheduler();
        st.sched[s].reset(p);
        st.raw[s] = p;
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        st.where[s] = {a, a + 160};
    };
    auto do_wait = [&](int s) {
        {
            std::lock_guard<std::mutex> g(st.m);
            Ev("waitcall").f("s", s).emit();
        }
        st.waiting[s] = 1;
        st.threads.emplace_back([s] {
            S->sched[s]->wait_completions();
            std::lock_guard<std::mutex> g(S->m);
            Ev("waitret").f("s", s).emit();
            S->waiting[s] = 0;
            S->cv.notify_all();
        });
    };
    auto do_destroy = [&](int s) {
        {
            std::lock_guard<std::mutex> g(st.m);
            Ev("destroy").f("s", s).emit();
        }
        st.destroying[s] = 1;
        Scheduler* p = st.sched[s].release();
        st.threads.emplace_back([s, p] {
            p->~Scheduler();
            // the memory is kept, so that a late use is recorded and not fatal
            std::lock_guard<std::mutex> g(S->m);
            Ev("destroyed").f("s", s).emit();
            S->destroying[s] = 2;
            S->cv.notify_all();
        });
    };
    for (const Op& op : e.ops) {
        int s = op.name == "perform" ? 0 : static_cast<int>(op.i(0));
        if (op.name == "new") {
            fresh_sched(s);
        } else if (op.name == "submit") {
            submit(s, op.s(1)[0], op.has(2) && op.i(2) != 0, false);
        } else if (op.name == "perform") {
            int id = static_cast<int>(op.i(0));
            if (!wait_for([&] { return st.arrived[id]; }, 5000)) {
                hang("never performed");
            }
            {
                std::lock_guard<std::mutex> g(st.m);
                st.fate[id] = op.s(1);
                st.cv.notify_all();
            }
            if (!wait_for([&] { return st.over[id]; }, 5000)) {
                hang("no callback");
            }
        } else if (op.name == "wait") {
            do_wait(s);
            if (!op.has(1)) {
                usleep(200);
            }
        } else if (op.name == "waited") {
            if (!wait_for([&] { return st.waiting[s] == 0; }, 5000)) {
                // children may keep it waiting: they are performed at the end
                std::lock_guard<std::mutex> g(st.m);
                st.script = false;
                st.cv.notify_all();
            }
            if (!wait_for([&] { return st.waiting[s] == 0; }, 5000)) {
                hang("wait");
            }
        } else if (op.name == "destroy") {
            if (!wait_for([&] { return st.waiting[s] == 0; }, 5000)) {
                hang("wait");
            }
            do_destroy(s);
            usleep(op.has(1) ? 0 : 200);
        } else if (op.name == "sync") {
            if (!wait_for([&] { return st.destroying[s] == 2; }, 5000)) {
                hang("destruction");
            }
        } else {
            _exit(3);
        }
    }
    {
        std::lock_guard<std::mutex> g(st.m);
        st.script = false;
        st.cv.notify_all();
    }
    if (!wait_for([&] {
            for (auto& w : st.waiting) {
                if (w.second) {
                    return false;
                }
            }
            return true;
        }, 6000)) {
        hang("wait");
    }
    for (auto& p : st.sched) {
        if (p.second) {
            do_destroy(p.first);
        }
    }
    for (auto& p : st.sched) {
        int s = p.first;
        if (!wait_for([&] { return st.destroying[s] == 2; }, 6000)) {
            hang("destruction");
        }
    }
    for (auto& t : st.threads) {
        t.join();
    }
    if (slow_ms) {
        usleep(slow_ms * 1000 + 1500); // a late notification would come now
    }
    ::close(st.fd);
}

void note_notify(void* cv)
{
    if (S == nullptr) {
        return;
    }
    uintptr_t a = reinterpret_cast<uintptr_t>(cv);
    int       s = 0;
    for (auto& w : S->where) {
        if (a >= w.second.first && a < w.second.second) {
            s = w.first;
        }
    }
    if (s == 0) {
        return;
    }
    if (slow_ms) {
        usleep(slow_ms * 1000);
    }
    Ev("notify").f("s", s).emit();
}
} // namespace

extern "C" {
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
    return io(0, fd, b, n, o);
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o)
{
    return io(1, fd, const_cast<void*>(b), n, o);
}
void __real__ZNSt18condition_variable10notify_allEv(void*);
void __wrap__ZNSt18condition_variable10notify_allEv(void* cv)
{
    note_notify(cv);
    __real__ZNSt18condition_variable10notify_allEv(cv);
}
void __real__ZNSt18condition_variable10notify_oneEv(void*);
void __wrap__ZNSt18condition_variable10notify_oneEv(void* cv)
{
    note_notify(cv);
    __real__ZNSt18condition_variable10notify_oneEv(cv);
}
}

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    return run(argc, argv, body);
}
