// The task pool, driven by scenarios (SCRIPT: tasks end when told to) or by several threads.
#include "vh.hpp"

#include <sse/schemes/utils/thread_pool.hpp>

#include <memory>

using namespace vh;

namespace {
struct State
{
    std::mutex                m;
    std::condition_variable   cv;
    std::unique_ptr<ThreadPool> pool;
    std::atomic<int>          next{1};
    bool                      script = false;
    std::map<int, bool>       go, started, ended;
    std::map<int, std::future<long>> fut;
    std::map<int, bool>       throws;
    std::atomic<int>          pending{0};
    uint64_t                  seed = 1;
};
State* S;

template<typename P>
bool wait_for(P p, int ms)
{
    std::unique_lock<std::mutex> lk(S->m);
    return S->cv.wait_for(lk, std::chrono::milliseconds(ms), p);
}
[[noreturn]] void hang(const char* w)
{
    Ev("Hang").f("where", w).emit();
    _exit(9);
}

int enqueue(char kind);

long task(int t, char kind, long arg)
{
    {
        std::unique_lock<std::mutex> lk(S->m);
        Ev("start").f("t", t).emit();
        S->started[t] = true;
        S->cv.notify_all();
        if (S->script) {
            S->cv.wait(lk, [&] { return S->go[t] || !S->script; });
        }
    }
    if (!S->script && (t * 2654435761u + S->seed) % 3 == 0) {
        usleep((t * 37 + S->seed) % 150);
    }
    if (kind == 'c') {
        enqueue('v');
    }
    std::lock_guard<std::mutex> g(S->m);
    Ev("end").f("t", t).emit();
    S->ended[t] = true;
    S->cv.notify_all();
    if (kind == 'x') {
        throw std::runtime_error("task " + std::to_string(t));
    }
    return 1000 + t + arg;
}

int enqueue(char kind)
{
    int t = S->next++;
    {
        std::lock_guard<std::mutex> g(S->m);
        Ev("enq").f("t", t).emit();
    }
    try {
        std::future<long> f;
        if (t % 2) {
            f = S->pool->enqueue([t, kind] { return task(t, kind, 0); });
        } else {
            f = S->pool->enqueue(task, t, kind, 5L);
        }
        std::lock_guard<std::mutex> g(S->m);
        Ev("enqret").f("t", t).f("r", "ok").emit();
        S->fut[t]    = std::move(f);
        S->throws[t] = kind == 'x';
    } catch (std::exception&) {
        std::lock_guard<std::mutex> g(S->m);
        Ev("enqret").f("t", t).f("r", "refused").emit();
    }
    return t;
}

void body(const Episode& e)
{
    S          = new State;
    S->script  = e.s("mode") == "script";
    S->seed    = e.i("seed", 1);
    int w      = static_cast<int>(e.i("w", 1));
    bool byjoin = e.i("byjoin", 1) != 0;
    S->pool.reset(new ThreadPool(w));
    std::thread              joiner;
    std::vector<std::thread> th;
    auto                     joined = std::make_shared<std::atomic<int>>(0);
    auto                     do_join = [&](bool join) {
        {
            std::lock_guard<std::mutex> g(S->m);
            Ev("join").emit();
        }
        *joined = 1;
        joiner  = std::thread([joined, join] {
            if (join) {
                S->pool->join();
            } else {
                S->pool->~ThreadPool();
                (void)S->pool.release();
            }
            std::lock_guard<std::mutex> g(S->m);
            Ev("joinret").emit();
            *joined = 2;
            S->cv.notify_all();
        });
    };
    for (const Op& op : e.ops) {
        if (op.name == "enq") {
            if (!S->script && e.i("par")) {
                int  k    = static_cast<int>(op.has(1) ? op.i(1) : 1);
                char kind = op.s(0)[0];
                th.emplace_back([k, kind] {
                    for (int i = 0; i < k; i++) {
                        enqueue(kind);
                    }
                });
            } else {
                enqueue(op.s(0)[0]);
            }
        } else if (op.name == "go") {
            int t = static_cast<int>(op.i(0));
            // children shift the numbers: then the task may never start before the end
            if (wait_for([&] { return S->started[t]; }, e.i("kids") ? 5 : 5000)) {
                std::lock_guard<std::mutex> g(S->m);
                S->go[t] = true;
                S->cv.notify_all();
            } else if (!e.i("kids")) {
                hang("task never started");
            }
            if (!e.i("kids") && !wait_for([&] { return S->ended[t]; }, 5000)) {
                hang("task never ended");
            }
        } else if (op.name == "join") {
            do_join(true);
            usleep(100);
        } else if (op.name == "late") {
            enqueue('v');
        } else {
            _exit(3);
        }
    }
    if (e.i("racejoin") && *joined == 0) {
        do_join(true);
    }
    for (auto& t : th) {
        t.join();
    }
    {
        std::lock_guard<std::mutex> g(S->m);
        S->script = false;
        S->cv.notify_all();
    }
    if (*joined == 0) {
        do_join(byjoin);
    }
    if (!wait_for([&] { return joined->load() == 2; }, 8000)) {
        hang("join");
    }
    joiner.join();
    if (S->pool) {
        enqueue('v'); // refused: the pool has stopped
    }
    int patience = 5;
    for (auto& f : S->fut) {
        std::string v, want = S->throws[f.first] ? "exception" : std::to_string(1000 + f.first + (f.first % 2 ? 0 : 5));
        if (f.second.wait_for(std::chrono::seconds(patience)) != std::future_status::ready) {
            v        = "never";
            patience = 0;
        } else {
            try {
                v = std::to_string(f.second.get());
            } catch (std::exception& x) {
                v = std::string(x.what()) == "task " + std::to_string(f.first) ? "exception" : "other";
            }
        }
        Ev("future").f("t", f.first).f("v", v).f("want", want).emit();
    }
    if (S->pool) { // destruction after joining
        S->pool.reset();
    }
}
} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv, body);
}
