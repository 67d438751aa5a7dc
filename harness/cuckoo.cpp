// The cuckoo hash table on disk and Oceanus: build, reopen, look up.
#include "kernel.hpp"

#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/oceanus/cuckoo.hpp>
#include <sse/schemes/oceanus/oceanus.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <memory>
#include <spdlog/sinks/null_sink.h>

#include "elt.hpp"
#include "shake.hpp"

using namespace vh;
using namespace vk;
using namespace sse;

static bool       use_pool   = false;
static int        read_delay = 0;
static std::mutex gm;
static Rng        prng(1);

extern "C" {
abstractio::Scheduler* __wrap__ZN3sse10abstractio26make_default_aio_schedulerEm(size_t page)
{
    return use_pool ? abstractio::make_thread_pool_aio_scheduler() : abstractio::make_linux_aio_scheduler(page, 16);
}
ssize_t __real_pread(int fd, void* b, size_t n, off_t o);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
    unsigned d = 0;
    if (read_delay) {
        std::lock_guard<std::mutex> g(gm);
        d = static_cast<int>(prng.below(100)) < read_delay ? static_cast<unsigned>(prng.below(200)) : 0;
    }
    if (d) {
        usleep(d);
    }
    return __real_pread(fd, b, n, o);
}
}

// a key of the generic table: its two places, and KEXTRA more bytes
template<size_t EXTRA>
using TKey = std::array<uint8_t, 16 + EXTRA>;

template<size_t EXTRA>
static TKey<EXTRA> key_of(const Op& op, size_t i)
{
    TKey<EXTRA> k;
    if (op.s(i) == "255") {
        k.fill(0xFF);
        return k;
    }
    uint64_t h[2] = {std::stoull(op.s(i + 1)), std::stoull(op.s(i + 2))};
    memcpy(k.data(), h, 16);
    for (size_t j = 0; j < EXTRA; j++) {
        k[16 + j] = j == EXTRA - 1 ? static_cast<uint8_t>(op.i(i)) : 7;
    }
    return k;
}

template<size_t EXTRA>
struct KeySer
{
    static constexpr size_t serialization_length()
    {
        return 16 + EXTRA;
    }
    void serialize(const TKey<EXTRA>& k, uint8_t* b)
    {
        memcpy(b, k.data(), k.size());
    }
};

template<size_t EXTRA>
struct Hasher
{
    oceanus::CuckooKey operator()(const TKey<EXTRA>& k)
    {
        oceanus::CuckooKey c;
        memcpy(c.h, k.data(), 16);
        return c;
    }
};

template<size_t N>
struct ValSer
{
    static constexpr size_t serialization_length()
    {
        return N;
    }
    void serialize(const Elt<N>& v, uint8_t* b)
    {
        memcpy(b, v.b, N);
    }
    Elt<N> deserialize(const uint8_t* b)
    {
        Elt<N> v;
        memcpy(v.b, b, N);
        return v;
    }
};

template<size_t PAGE, size_t PAGES, size_t EXTRA>
struct Generic
{
    static constexpr size_t N = PAGE * PAGES - 16 - EXTRA;
    using Key                 = TKey<EXTRA>;
    using Val                 = Elt<N>;
    using B                   = oceanus::CuckooBuilder<PAGE, Key, Val, KeySer<EXTRA>, ValSer<N>, Hasher<EXTRA>>;
    using S                   = oceanus::CuckooHashTable<PAGE, Key, Val, KeySer<EXTRA>, ValSer<N>, Hasher<EXTRA>>;
    static Key key(const Op& op, size_t i)
    {
        return key_of<EXTRA>(op, i);
    }
    static std::unique_ptr<B> make(const std::string& path, const Episode& e)
    {
        oceanus::CuckooBuilderParam p;
        p.cuckoo_table_path = path;
        p.value_file_path   = path + ".data";
        p.max_n_elements    = static_cast<size_t>(e.i("max"));
        p.epsilon           = 0.01 * static_cast<double>(e.i("eps"));
        p.max_search_depth  = static_cast<size_t>(e.i("depth"));
        return std::make_unique<B>(p);
    }
    static void direct(S& s)
    {
        s.use_direct_IO(true);
    }
};

template<size_t PAGE>
struct Ocean
{
    using Key = oceanus::key_type;
    using Val = oceanus::data_type<PAGE>;
    using B   = oceanus::OceanusBuilder<PAGE>;
    using S   = oceanus::Oceanus<PAGE>;
    static Key key(const Op& op, size_t i)
    {
        return key_of<0>(op, i);
    }
    static std::unique_ptr<B> make(const std::string& path, const Episode& e)
    {
        return std::make_unique<B>(path,
                                   static_cast<size_t>(e.i("max")),
                                   0.01 * static_cast<double>(e.i("eps")),
                                   static_cast<size_t>(e.i("depth")));
    }
    static void direct(S&)
    {
    }
};

template<class G>
static void table(const Episode& e)
{
    using B   = typename G::B;
    using S   = typename G::S;
    using Key = typename G::Key;
    using Val = typename G::Val;

    Kernel& k = vk::K();
    k.start(AUTO, 1);
    k.log                  = false;
    read_delay             = 0;
    use_pool               = e.s("sched") == "tp";
    std::string        path = fresh("cuckoo");
    std::unique_ptr<S> s;
    // leftovers of an older table at the same place
    if (e.i("stale")) {
        std::ofstream(path + ".stash") << "old";
    }
    std::unique_ptr<B> b   = G::make(path, e);
    auto               get = [&](const Key& key) {
        std::vector<int> r;
        try {
            r.push_back(id_of(s->get(key)));
        } catch (std::out_of_range&) {
        }
        return r;
    };
    auto aget = [&](const std::vector<Key>& keys) {
        std::vector<std::vector<int>> r(keys.size());
        std::vector<int>              n(keys.size(), 0);
        size_t                        got = 0;
        std::mutex                    m;
        std::condition_variable       cv;
        read_delay = static_cast<int>(e.i("delay"));
        shake::on  = use_pool ? 16 : 0;
        for (size_t i = 0; i < keys.size(); i++) {
            s->async_get(keys[i], [&, i](std::experimental::optional<Val> v) {
                std::lock_guard<std::mutex> g(m);
                r[i].clear();
                if (v) {
                    r[i].push_back(id_of(*v));
                }
                n[i]++;
                got++;
                cv.notify_all();
            });
        }
        std::unique_lock<std::mutex> lk(m);
        if (!cv.wait_for(lk, std::chrono::seconds(10), [&] { return got >= keys.size(); })) {
            Ev("Hang").emit();
            _exit(9);
        }
        cv.wait_for(lk, std::chrono::microseconds(200), [&] { return got > keys.size(); });
        shake::on  = 0;
        read_delay = 0;
        for (int& c : n) {
            if (c != 1) {
                Ev("twice").emit();
            }
        }
        return r;
    };
    for (const Op& op : e.ops) {
        if (op.name == "put") { // k h0 h1 id
            bool ok = true;
            try {
                b->insert(G::key(op, 0), elt<Val>(static_cast<int>(op.i(3))));
            } catch (std::exception&) {
                ok = false;
            }
            Ev("put").f("k", op.i(0)).f("v", std::vector<int>{static_cast<int>(op.i(3))}).f("ok", ok).f("max", -1).emit();
        } else if (op.name == "commit") {
            bool ok = true;
            try {
                b->commit();
            } catch (std::exception&) {
                ok = false;
            }
            Ev("build").f("ok", ok).emit();
        } else if (op.name == "again") {
            b->commit();
        } else if (op.name == "drop") { // the destructor commits
            b.reset();
            Ev("build").f("ok", true).emit();
        } else if (op.name == "move") {
            if constexpr (std::is_move_constructible<B>::value) {
                std::unique_ptr<B> c(new B(std::move(*b)));
                b.reset();
                b = std::move(c);
            }
        } else if (op.name == "open") {
            b.reset();
            s.reset();
            k.finish();
            k.start(use_pool ? AUTO : RANDOM, e.i("seed"));
            k.p_delay  = e.i("delay");
            k.log      = false;
            k.id_of    = [](const struct iocb*) { return 0; };
            k.describe = [](const struct iocb*) { return std::string("0"); };
            bool ok    = true;
            try {
                s = std::make_unique<S>(path);
            } catch (std::exception&) {
                ok = false;
            }
            if (ok && e.i("direct")) {
                G::direct(*s);
            }
            Ev(ok ? "open" : "unopened").emit();
            if (!ok) {
                break;
            }
        } else if (op.name == "get") { // k h0 h1
            Ev("search").f("k", op.i(0)).f("r", get(G::key(op, 0))).emit();
        } else if (op.name == "aget") { // (k h0 h1)*
            std::vector<Key> keys;
            for (size_t i = 0; i < op.args.size(); i += 3) {
                keys.push_back(G::key(op, i));
            }
            auto r = aget(keys);
            for (size_t i = 0; i < keys.size(); i++) {
                Ev("search").f("k", op.i(3 * i)).f("r", r[i]).emit();
            }
        }
    }
    b.reset();
    s.reset();
    k.finish();
    if (utility::exists(path + ".data") || utility::exists(path + ".tmp")) {
        Ev("leftover").emit();
    }
    for (const char* x : {"", ".stash", ".tmp", ".data"}) {
        ::unlink((path + x).c_str());
    }
}

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    std::cerr.setstate(std::ios_base::failbit);
    return run(argc, argv, [](const Episode& e) {
        std::string kind = e.s("kind");
        kind == "oceanus"   ? table<Ocean<4096>>(e)
        : kind == "oce512"  ? table<Ocean<512>>(e)
        : kind == "mid"     ? table<Generic<1024, 1, 16>>(e)
        : kind == "big"     ? table<Generic<4096, 1, 16>>(e)
        : kind == "bare"    ? table<Generic<512, 1, 0>>(e)
                            : table<Generic<512, 1, 16>>(e);
    });
}
