// awonvm_vector driven by scenarios.
#include "vh.hpp"

#include <sse/schemes/abstractio/awonvm_vector.hpp>
#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <condition_variable>
#include <memory>

#include <sys/resource.h>
#include <sys/syscall.h>

#include <spdlog/sinks/null_sink.h>

using namespace vh;
using namespace sse::abstractio;

struct alignas(4096) Page
{
    uint8_t b[4096];
};
// a few hundred of these reach the limits of 32-bit byte offsets; only their ends are not zero, and
// only their ends are written (the rest of the file is a hole)
struct alignas(4096) Big
{
    uint8_t b[4 << 20];
};
struct Small
{
    uint8_t b[24];
};

template<typename T>
static void fill(T& t, const std::string& v)
{
    uint8_t* p = reinterpret_cast<uint8_t*>(&t);
    Rng      r(std::hash<std::string>()(v) * 31 + sizeof(T));
    const bool big = sizeof(T) > (1 << 20);
    for (size_t i = 0; i < sizeof(T); i++) {
        if (big && i == 4096) {
            i = sizeof(T) - 4096;
        }
        p[i] = static_cast<uint8_t>(r.next());
    }
    snprintf(reinterpret_cast<char*>(p), 8, "%s", v.c_str());
}
template<typename T>
static std::string name(const T& t)
{
    const char* p = reinterpret_cast<const char*>(&t);
    std::string s(p, strnlen(p, 7));
    T*          u = static_cast<T*>(aligned_alloc(4096, (sizeof(T) + 4095) / 4096 * 4096));
    memset(static_cast<void*>(u), 0, sizeof(T));
    fill(*u, s);
    std::string r = memcmp(&t, u, sizeof(T)) == 0 ? s : "bad:" + s;
    free(u);
    return r;
}

extern "C" ssize_t pwrite(int fd, const void* buf, size_t n, off_t off)
{
    if (n != sizeof(Big)) {
        return syscall(SYS_pwrite64, fd, buf, n, off);
    }
    const char* p = static_cast<const char*>(buf);
    if (syscall(SYS_pwrite64, fd, p, 4096, off) != 4096
        || syscall(SYS_pwrite64, fd, p + n - 4096, 4096, off + n - 4096) != 4096) {
        return -1;
    }
    return static_cast<ssize_t>(n);
}

template<typename T, size_t A>
static void episode(const Episode& e)
{
    using vec         = awonvm_vector<T, A>;
    std::string path  = fresh("vec");
    std::string sched = e.s("sched", "tp");
    // the Linux-AIO scheduler refuses what is not made of 512-byte sectors
    bool        aio   = sched != "none" && !((sched == "aio" || sched == "default") && sizeof(T) % 512 != 0);
    bool        direct = e.i("direct") != 0;
    std::unique_ptr<vec> v;
    auto                 open = [&]() {
        if (sched == "default") {
            v.reset(new vec(path, direct));
        } else if (sched == "tp") {
            v.reset(new vec(path, std::unique_ptr<Scheduler>(make_thread_pool_aio_scheduler()), direct));
        } else if (sched == "aio") {
            v.reset(new vec(path, std::unique_ptr<Scheduler>(make_linux_aio_scheduler(4096, e.i("nr", 16))), direct));
        } else {
            v.reset(new vec(path, std::unique_ptr<Scheduler>(), direct));
        }
    };
    T* slots = static_cast<T*>(aligned_alloc(4096, 3 * 8192 + sizeof(T)));
    memset(static_cast<void*>(slots), 0, 3 * 8192 + sizeof(T));
    for (const Op& op : e.ops) {
        Ev   ev(op.name);
        auto fin = [&](const char* r) {
            ev.f("r", r);
            if (v) {
                ev.f("n", v->size()).f("c", v->is_committed());
            }
            ev.emit();
        };
        if (op.name == "open") {
            ev.f("direct", direct).f("aio", aio);
            try {
                open();
                fin("ok");
            } catch (std::exception&) {
                fin("failed");
                break;
            }
            continue;
        }
        if (!v) {
            continue; // a behaviour cut short by an earlier refusal to open
        }
        if (op.name == "push") {
            bool al = !(op.has(1) && op.s(1) == "mis");
            // a misaligned slot is off by the natural alignment of the bytes, not by A
            T* slot = reinterpret_cast<T*>(reinterpret_cast<uint8_t*>(slots) + (al ? 0 : 8));
            fill(*slot, op.s(0));
            ev.f("v", op.s(0)).f("aligned", al || A <= 8);
            try {
                size_t p = v->push_back(*slot);
                ev.f("pos", p);
                fin("ok");
            } catch (std::exception&) {
                fin("refused");
            }
        } else if (op.name == "run") {
            // appends one after the other, as long as they get successive positions
            std::vector<std::string> vs;
            size_t                   first = 0;
            bool                     ok    = true;
            for (long long j = 0; j < op.i(0) && ok; j++) {
                vs.push_back("r" + std::to_string(j % 7) + std::to_string(j));
                fill(*slots, vs.back());
                try {
                    size_t p = v->push_back(*slots);
                    first    = j == 0 ? p : first;
                    ok       = p == first + static_cast<size_t>(j);
                } catch (std::exception&) {
                    ok = false;
                }
            }
            ev.f("vs", vs).f("pos", first);
            fin(ok ? "ok" : "refused");
        } else if (op.name == "apush") {
            fill(*slots, op.s(0));
            ev.f("v", op.s(0));
            try {
                size_t p = v->async_push_back(*slots);
                // the value must have been copied
                memset(static_cast<void*>(slots), sizeof(T) == sizeof(Big) ? 0 : 0xEE, sizeof(T));
                ev.f("pos", p);
                fin("ok");
            } catch (std::exception&) {
                fin("refused");
            }
        } else if (op.name == "reserve") {
            ev.f("k", op.i(0));
            try {
                v->reserve(op.i(0));
                fin("ok");
            } catch (std::exception&) {
                fin("refused");
            }
        } else if (op.name == "commit") {
            v->commit();
            fin("ok");
        } else if (op.name == "close") {
            v.reset();
            fin("ok");
        } else if (op.name == "move") {
            std::unique_ptr<vec> w(new vec(std::move(*v)));
            v.reset();
            v = std::move(w);
            fin("ok");
        } else if (op.name == "setdirect") {
            ev.f("b", op.i(0) != 0);
            try {
                v->set_use_direct_access(op.i(0) != 0);
                fin("ok");
            } catch (std::exception&) {
                fin("refused");
            }
        } else if (op.name == "get") {
            ev.f("i", op.i(0));
            try {
                T x = v->get(static_cast<size_t>(op.i(0)));
                ev.f("v", name(x));
                fin("ok");
            } catch (std::exception&) {
                fin("refused");
            }
        } else if (op.name == "aget" || op.name == "agets") {
            struct Sh
            {
                std::mutex                            m;
                std::condition_variable               cv;
                std::vector<std::vector<std::string>> got;
            };
            auto                   sh = std::make_shared<Sh>();
            std::vector<long long> is;
            for (size_t i = 0; i < op.args.size(); i++) {
                is.push_back(op.i(i));
            }
            sh->got.resize(is.size());
            auto cb = [sh](size_t k) {
                return [sh, k](std::unique_ptr<T> p) {
                    std::lock_guard<std::mutex> g(sh->m);
                    sh->got[k].push_back(p ? name(*p) : "null");
                    sh->cv.notify_all();
                    if (sizeof(T) == sizeof(Big)) {
                        free(p.release());
                    }
                    (void)p.release(); // allocated with posix_memalign: the harness leaks it
                };
            };
            bool ok = true;
            try {
                if (op.name == "aget") {
                    v->async_get(static_cast<size_t>(is[0]), cb(0));
                } else {
                    std::vector<typename vec::GetRequest> rq;
                    for (size_t k = 0; k < is.size(); k++) {
                        rq.emplace_back(static_cast<size_t>(is[k]), cb(k));
                    }
                    v->async_gets(rq);
                }
            } catch (std::exception&) {
                ok = false;
            }
            {
                std::unique_lock<std::mutex> lk(sh->m);
                auto all = [&] {
                    for (auto& g : sh->got) {
                        if (g.empty()) {
                            return false;
                        }
                    }
                    return true;
                };
                sh->cv.wait_for(lk, std::chrono::milliseconds(ok ? 20000 : 3), all);
                if (ok) { // a second callback would come soon after
                    lk.unlock();
                    if (e.i("settle")) {
                        usleep(1000);
                    }
                    lk.lock();
                }
                if (op.name == "aget") {
                    ev.f("i", is[0]).f("got", sh->got[0]);
                } else {
                    ev.f("is", is).f("got", sh->got);
                }
            }
            fin(ok ? "ok" : "refused");
        } else {
            _exit(3);
        }
    }
    v.reset();
    free(slots);
}

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    rl.rlim_cur = 64 << 20; // get() returns an element by value
    setrlimit(RLIMIT_STACK, &rl);
    return run(argc, argv, [](const Episode& e) {
        if (e.s("type") == "page") {
            episode<Page, 4096>(e);
        } else if (e.s("type") == "big") {
            episode<Big, 4096>(e);
        } else if (e.s("type") == "small") {
            episode<Small, 8>(e);
        } else {
            episode<uint64_t, 8>(e);
        }
    });
}
