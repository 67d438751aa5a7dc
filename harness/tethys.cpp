// The Tethys store (kind=store) and the Tethys scheme (kind=scheme): build, reopen, look up.
#include "kernel.hpp"

#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>
#include <sse/schemes/tethys/tethys_store_builder.hpp>
#ifdef SCHEME
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>
#endif
#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <algorithm>
#include <memory>
#include <spdlog/sinks/null_sink.h>

#include "elt.hpp"
#include "shake.hpp"

using namespace vh;
using namespace vk;
using namespace sse;
using namespace sse::tethys;

static bool     use_pool = false;
static int      read_delay = 0;
static std::mutex gm;
static Rng      prng(1);

// the store asks for the default scheduler: both kinds are exercised
extern "C" {
abstractio::Scheduler* __wrap__ZN3sse10abstractio26make_default_aio_schedulerEm(size_t page)
{
    return use_pool ? abstractio::make_thread_pool_aio_scheduler() : abstractio::make_linux_aio_scheduler(page, 16);
}
ssize_t __real_pread(int fd, void* b, size_t n, off_t o);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
    unsigned d = 0;
    if (read_delay) {
        std::lock_guard<std::mutex> g(gm);
        d = static_cast<int>(prng.below(100)) < read_delay ? static_cast<unsigned>(prng.below(200)) : 0;
    }
    if (d) {
        usleep(d);
    }
    return __real_pread(fd, b, n, o);
}
}

template<class T>
static std::vector<int> ids(const std::vector<T>& v)
{
    std::vector<int> r;
    for (const T& t : v) {
        r.push_back(id_of(t));
    }
    std::sort(r.begin(), r.end());
    return r;
}

static std::array<uint8_t, 32> enc_key(int n)
{
    std::array<uint8_t, 32> k;
    Rng                     r(static_cast<uint64_t>(n));
    for (auto& b : k) {
        b = static_cast<uint8_t>(r.next());
    }
    return k;
}

static std::vector<int> range(long first, long n)
{
    std::vector<int> r;
    for (long i = 0; i < n; i++) {
        r.push_back(static_cast<int>(first + i));
    }
    return r;
}

static tethys_core_key_type place(const Op& op, size_t i)
{
    tethys_core_key_type k;
    uint64_t             h[2] = {std::stoull(op.s(i)), std::stoull(op.s(i + 1))};
    memcpy(k.data(), h, sizeof(h));
    return k;
}

struct Paths
{
    std::string table = fresh("table"), stash = fresh("stash"), db = fresh("db");
};

#ifndef SCHEME
template<class T, size_t PAGE, bool ENC>
static void store(const Episode& e)
{
    using K  = tethys_core_key_type;
    using BE = encoders::EncodeSeparateEncoder<K, T, PAGE>;
    using BD = encoders::EncodeSeparateDecoder<K, T, PAGE>;
    using E  = std::conditional_t<ENC, encoders::EncryptEncoder<BE, PAGE>, BE>;
    using D  = std::conditional_t<ENC, encoders::DecryptDecoder<BD, PAGE>, BD>;
    using B  = TethysStoreBuilder<PAGE, K, T, IdentityHasher, E, BE>;
    using S  = TethysStore<PAGE, K, T, IdentityHasher, D>;
    using S0 = TethysStore<PAGE, K, T, IdentityHasher, EmptyDecoder>;

    auto make = [&](auto* p) {
        using X = std::remove_pointer_t<decltype(p)>;
        if constexpr (ENC) {
            return std::make_unique<X>(enc_key(7));
        } else {
            return std::make_unique<X>();
        }
    };
    Kernel& k = vk::K();
    k.start(AUTO, 1);
    k.log = false;
    read_delay = 0;
    Paths                   ps;
    TethysStoreBuilderParam par;
    par.tethys_table_path = ps.table;
    par.tethys_stash_path = ps.stash;
    par.max_n_elements    = static_cast<size_t>(e.i("max"));
    par.epsilon           = 0.01 * static_cast<double>(e.i("eps"));
    auto                b   = std::make_unique<B>(par);
    auto                dec = make(static_cast<D*>(nullptr));
    BD                  stash_dec;
    std::unique_ptr<S>  s;
    std::unique_ptr<S0> s0;
    std::map<K, std::vector<T>> stash;
    use_pool = e.s("sched") == "tp";
    auto aget = [&](const std::vector<K>& keys) {
        std::vector<std::vector<int>> r(keys.size());
        std::vector<int>              n(keys.size(), 0);
        size_t                        got = 0;
        std::mutex                    m;
        std::condition_variable       cv;
        read_delay = static_cast<int>(e.i("delay"));
        shake::on  = use_pool ? 16 : 0;
        for (size_t i = 0; i < keys.size(); i++) {
            auto cb = [&, i](std::vector<T> v) {
                std::lock_guard<std::mutex> g(m);
                r[i] = ids(v);
                n[i]++;
                got++;
                cv.notify_all();
            };
            if constexpr (!ENC) {
                if (i % 2) {
                    s->async_get_list(keys[i], cb);
                    continue;
                }
            }
            s->async_get_list(keys[i], *dec, cb);
        }
        std::unique_lock<std::mutex> lk(m);
        if (!cv.wait_for(lk, std::chrono::seconds(10), [&] { return got >= keys.size(); })) {
            Ev("Hang").emit();
            _exit(9);
        }
        cv.wait_for(lk, std::chrono::microseconds(200), [&] { return got > keys.size(); });
        shake::on  = 0;
        read_delay = 0;
        for (int& c : n) {
            if (c != 1) {
                Ev("twice").emit();
            }
        }
        return r;
    };
    for (const Op& op : e.ops) {
        if (op.name == "put") { // k h0 h1 first n
            std::vector<T>   v;
            std::vector<int> is = range(op.i(3), op.i(4));
            for (int i : is) {
                v.push_back(elt<T>(i));
            }
            bool ok = true;
            try {
                b->insert_list(place(op, 1), v);
            } catch (std::exception&) {
                ok = false;
            }
            Ev("put").f("k", op.i(0)).f("v", is).f("ok", ok).f("max", static_cast<long>(B::kMaxListSize)).emit();
        } else if (op.name == "build") {
            bool ok = true;
            try {
                auto enc = make(static_cast<E*>(nullptr));
                BE   stash_enc;
                b->build(*enc, stash_enc);
                try {
                    b->insert_list(K(), {});
                    ok = false;
                } catch (std::exception&) {
                }
            } catch (std::exception&) {
                ok = false;
            }
            b.reset();
            Ev("build").f("ok", ok).emit();
        } else if (op.name == "open") {
            s.reset();
            s0.reset();
            k.finish();
            k.start(AUTO, 1);
            k.start(use_pool ? AUTO : RANDOM, e.i("seed"));
            k.p_delay = e.i("delay");
            k.log     = false;
            k.id_of   = [](const struct iocb*) { return 0; };
            k.describe = [](const struct iocb*) { return std::string("0"); };
            s  = std::make_unique<S>(ps.table, ps.stash, *dec);
            s0 = std::make_unique<S0>(ps.table, "");
            if (e.i("direct")) {
                s->use_direct_IO(true);
            }
            std::ifstream in(ps.stash);
            stash = abstractio::deserialize_map<K, std::vector<T>, BD>(in, stash_dec);
            Ev("open").emit();
        } else if (op.name == "get") { // k h0 h1
            Ev("search").f("k", op.i(0)).f("r", ids(s->get_list(place(op, 1), *dec))).emit();
        } else if (op.name == "part") {
            auto           key = place(op, 1);
            auto           p   = s0->get_buckets(key);
            std::vector<T> v   = S::decode_list(key, *dec, p.payload_0, p.index_0, p.payload_1, p.index_1);
            auto           it  = stash.find(key);
            Ev("part")
                .f("k", op.i(0))
                .f("r", ids(v))
                .f("stash", it == stash.end() ? std::vector<int>() : ids(it->second))
                .emit();
        } else if (op.name == "aget") { // (k h0 h1)*
            std::vector<K> keys;
            for (size_t i = 0; i < op.args.size(); i += 3) {
                keys.push_back(place(op, i + 1));
            }
            auto r = aget(keys);
            for (size_t i = 0; i < keys.size(); i++) {
                Ev("search").f("k", op.i(3 * i)).f("r", r[i]).emit();
            }
        }
    }
    s.reset();
    s0.reset();
    k.finish();
    ::unlink(ps.table.c_str());
    ::unlink(ps.stash.c_str());
}

template<class T>
static void types(const Episode& e)
{
    long p = e.i("page");
    if (e.i("enc")) {
        p == 128 ? store<T, 128, true>(e) : p == 512 ? store<T, 512, true>(e) : store<T, 4096, true>(e);
    } else {
        p == 128 ? store<T, 128, false>(e) : p == 512 ? store<T, 512, false>(e) : store<T, 4096, false>(e);
    }
}
#else
template<size_t PAGE>
static void scheme(const Episode& e)
{
    using Enc = encoders::EncodeSeparateEncoder<tethys_core_key_type, index_type, PAGE>;
    using Dec = encoders::EncodeSeparateDecoder<tethys_core_key_type, index_type, PAGE>;
    using B   = TethysBuilder<PAGE, Enc>;
    using C   = TethysClient<Dec>;
    using S   = TethysServer<tethys_server_store_type<PAGE>>;
    Kernel& k = vk::K();
    k.start(AUTO, 1);
    k.log = false;
    use_pool = false;
    Paths                   ps;
    TethysStoreBuilderParam par;
    par.tethys_table_path = ps.table;
    par.tethys_stash_path = ps.stash;
    par.max_n_elements    = static_cast<size_t>(e.i("max"));
    par.epsilon           = 0.01 * static_cast<double>(e.i("eps"));
    auto key              = [&] {
        std::array<uint8_t, kMasterPrfKeySize> a;
        Rng                                    r(static_cast<uint64_t>(e.i("seed")) + 5);
        for (auto& x : a) {
            x = static_cast<uint8_t>(r.next());
        }
        return crypto::Key<kMasterPrfKeySize>(a.data());
    };
    auto doc = [&](int i) { return elt<uint64_t>(i); };
    auto b   = std::make_unique<B>(par, ps.db, key(), enc_key(3));
    std::unique_ptr<C> c;
    std::unique_ptr<S> s;
    auto               keyword = [&](const std::string& w) { return w == "@empty" ? std::string() : w; };
    for (const Op& op : e.ops) {
        if (op.name == "put") { // keyword first n
            std::list<uint64_t> l;
            auto                is = range(op.i(1), op.i(2));
            for (int i : is) {
                l.push_back(doc(i));
            }
            b->insert_list(keyword(op.s(0)), l);
            Ev("put").f("k", op.s(0)).f("v", is).f("ok", true).f("max", -1).emit();
        } else if (op.name == "json") { // (keyword first n)*
            std::string   path = fresh("json");
            std::ofstream o(path);
            o << "{";
            for (size_t i = 0; i < op.args.size(); i += 3) {
                o << (i ? ", " : "") << "\"" << op.s(i) << "\": [";
                for (long j = 0; j < op.i(i + 2); j++) {
                    o << (j ? "," : "") << op.i(i + 1) + j;
                }
                o << "]";
            }
            o << "}\n";
            o.close();
            bool ok = b->load_inverted_index(path);
            for (size_t i = 0; i < op.args.size(); i += 3) {
                Ev("put").f("k", op.s(i)).f("v", range(op.i(i + 1), op.i(i + 2))).f("ok", ok).f("max", -1).emit();
            }
        } else if (op.name == "build") {
            bool ok = true;
            try {
                b->build();
            } catch (std::exception&) {
                ok = false;
            }
            b.reset();
            Ev("build").f("ok", ok).emit();
        } else if (op.name == "open") {
            c.reset();
            s.reset();
            c = std::make_unique<C>(ps.db, ps.stash, key(), enc_key(3));
            s = std::make_unique<S>(ps.table);
            Ev("open").emit();
        } else if (op.name == "search") {
            auto rq = c->search_request(keyword(op.s(0)), op.s(0).size() % 2 == 0);
            auto bs = s->search(rq);
            std::vector<index_type> r = c->decode_search_results(rq, bs);
            std::vector<int>        is;
            for (index_type x : r) {
                is.push_back(e.i("json") ? static_cast<int>(std::min<uint64_t>(x, 2000000000)) : id_of(x));
            }
            std::sort(is.begin(), is.end());
            Ev("search").f("k", op.s(0)).f("r", is).emit();
        }
    }
    c.reset();
    s.reset();
    k.finish();
    ::unlink(ps.table.c_str());
    ::unlink(ps.stash.c_str());
    utility::remove_directory(ps.db);
}
#endif

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    std::cerr.setstate(std::ios_base::failbit); // the stores print their sizes
    return run(argc, argv, [](const Episode& e) {
#ifdef SCHEME
        long p = e.i("page");
        p == 64 ? scheme<64>(e) : p == 128 ? scheme<128>(e) : p == 512 ? scheme<512>(e) : scheme<4096>(e);
#else
        switch (e.i("size")) {
        case 4: return types<Elt<4>>(e);
        case 12: return types<Elt<12>>(e);
        case 24: return types<Elt<24>>(e);
        default: return types<uint64_t>(e);
        }
#endif
    });
}
