// Asynchronous reads of a committed vector, above the stand-in kernel (Linux AIO) or above
// a controlled pread (thread pool).
#include "kernel.hpp"

#include <sse/schemes/abstractio/awonvm_vector.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <spdlog/sinks/null_sink.h>

using namespace vh;
using namespace vk;
using namespace sse::abstractio;

template<size_t N>
struct alignas(N < 4096 ? 8 : 4096) Page
{
    uint8_t b[N];
};

static std::mutex              gm;
static std::condition_variable gcv;
static Rng                     prng(1);
static int                     p_short = 0, p_delay = 0;
static thread_local bool       sync_read = false;
static bool                    controlled = false;
static size_t                  elem = 4096;

extern "C" {
ssize_t __real_pread(int fd, void* b, size_t n, off_t o);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
    if (sync_read || !controlled) {
        return __real_pread(fd, b, n, o);
    }
    std::unique_lock<std::mutex> lk(gm);
    Ev("take").f("i", static_cast<long>(o / elem)).f("exact", o % elem == 0 && n == elem).emit();
    int d = prng.below(100) < static_cast<uint64_t>(p_delay) ? static_cast<int>(prng.below(300)) : 0;
    int how = prng.below(100) < static_cast<uint64_t>(p_short) ? 1 + static_cast<int>(prng.below(3)) : 0;
    if (d) {
        lk.unlock();
        usleep(d);
        lk.lock();
    }
    ssize_t r = how == 1 ? __real_pread(fd, b, n / 2, o) : how == 2 ? 0 : how == 3 ? -1 : __real_pread(fd, b, n, o);
    Ev("done").f("i", static_cast<long>(o / elem)).f("full", r == static_cast<ssize_t>(n)).emit();
    if (r < 0) {
        errno = EIO;
    }
    return r;
}
}

template<typename T>
static void fill(T& t, int k)
{
    Rng r(k * 7919 + 3);
    for (size_t i = 0; i < sizeof(T); i++) {
        t.b[i] = static_cast<uint8_t>(r.next());
    }
    memcpy(t.b, &k, 4);
}
template<typename T>
static int which(const T& t)
{
    int k;
    memcpy(&k, t.b, 4);
    T u;
    fill(u, k);
    return memcmp(t.b, u.b, sizeof(T)) == 0 ? k : -2;
}

template<typename T, size_t A>
static void body(const Episode& e)
{
    using vec        = awonvm_vector<T, A>;
    std::string path = fresh("v");
    int         n    = static_cast<int>(e.i("n"));
    bool        tp   = e.s("sched") == "tp";
    elem             = sizeof(T);
    Kernel& k        = K();
    k.log            = false;
    k.id_of          = [](const struct iocb* cb) { return static_cast<int>(cb->u.c.offset / elem); };
    k.describe       = [](const struct iocb*) { return std::string("0"); };
    k.on_take = k.on_done = nullptr;
    k.start(AUTO, 1);
    controlled = false;
    auto sch   = [&]() {
        return std::unique_ptr<Scheduler>(tp ? make_thread_pool_aio_scheduler()
                                             : make_linux_aio_scheduler(4096, static_cast<unsigned>(e.i("nr", 16))));
    };
    {
        vec v(path, sch(), e.i("direct") != 0);
        T*  t = static_cast<T*>(aligned_alloc(4096, 4096 * ((sizeof(T) + 4095) / 4096)));
        for (int i = 0; i < n; i++) {
            fill(*t, i);
            v.push_back(*t);
        }
        free(t);
    }
    k.p_again = e.i("again");
    k.p_err   = e.i("err");
    k.p_partial = e.i("partial");
    k.p_short   = p_short = e.i("short");
    k.p_intr    = e.i("intr");
    k.p_delay   = p_delay = e.i("delay");
    prng        = Rng(e.i("seed"));
    k.on_take   = [](const Rq& r) {
        Ev("take").f("i", r.id).f("exact", r.cb.u.c.offset % elem == 0 && r.cb.u.c.nbytes == elem).emit();
    };
    k.on_done = [](const Rq& r) {
        Ev("done").f("i", r.id).f("full", r.res == static_cast<long>(elem)).emit();
    };
    k.start(tp ? AUTO : RANDOM, e.i("seed"));
    controlled = tp;
    auto           v = std::make_unique<vec>(path, sch(), e.i("direct") != 0);
    int            c = 0, id = 0;
    std::vector<std::thread> th;
    struct Item
    {
        int              c;
        std::vector<int> ids;
        std::vector<long long> is;
        bool             batch;
    };
    auto go = [&v](Item it) {
        auto cb = [](int r) {
            return [r](std::unique_ptr<T> p) {
                int x = -1;
                if (p) {
                    x = which(*p);
                    free(p.release());
                }
                std::lock_guard<std::mutex> g(gm);
                Ev("cb").f("id", r).f("v", x).emit();
            };
        };
        bool ok = true;
        try {
            if (it.batch) {
                std::vector<typename vec::GetRequest> rq;
                for (size_t j = 0; j < it.is.size(); j++) {
                    rq.emplace_back(static_cast<size_t>(it.is[j]), cb(it.ids[j]));
                }
                v->async_gets(rq);
            } else {
                v->async_get(static_cast<size_t>(it.is[0]), cb(it.ids[0]));
            }
        } catch (std::exception&) {
            ok = false;
        }
        std::lock_guard<std::mutex> g(gm);
        Ev("ret").f("c", it.c).f("r", ok ? "ok" : "refused").emit();
    };
    for (const Op& op : e.ops) {
        if (op.name == "get") {
            int x;
            sync_read = true;
            try {
                T t = v->get(static_cast<size_t>(op.i(0)));
                x   = which(t);
            } catch (std::exception&) {
                x = -3;
            }
            sync_read = false;
            std::lock_guard<std::mutex> g(gm);
            Ev("get").f("i", op.i(0)).f("v", x).emit();
        } else if (op.name == "drain") {
            for (auto& t : th) {
                t.join();
            }
            th.clear();
            usleep(300);
        } else {
            Item it;
            it.c     = ++c;
            it.batch = op.name == "agets";
            for (size_t j = 0; j < op.args.size(); j++) {
                it.is.push_back(op.i(j));
                it.ids.push_back(++id);
            }
            {
                std::lock_guard<std::mutex> g(gm);
                Ev("call").f("c", it.c).f("ids", it.ids).f("is", it.is).emit();
            }
            if (e.i("par")) {
                th.emplace_back(go, it);
            } else {
                go(it);
            }
        }
    }
    for (auto& t : th) {
        t.join();
    }
    Ev("dtor").emit();
    auto        done = std::make_shared<std::atomic<bool>>(false);
    std::thread d([&] {
        v.reset();
        std::lock_guard<std::mutex> g(gm);
        Ev("gone").emit();
        *done = true;
        gcv.notify_all();
    });
    {
        std::unique_lock<std::mutex> lk(gm);
        if (!gcv.wait_for(lk, std::chrono::seconds(8), [&] { return done->load(); })) {
            Ev("Hang").emit();
            _exit(9);
        }
    }
    d.join();
    k.finish();
    ::unlink(path.c_str());
}

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    return run(argc, argv, [](const Episode& e) {
        if (e.s("type") == "two") {
            body<Page<8192>, 4096>(e);
        } else if (e.s("type") == "small") {
            body<Page<40>, 8>(e);
        } else {
            body<Page<4096>, 4096>(e);
        }
    });
}
