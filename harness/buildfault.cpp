// The static schemes on a disk whose writes and reads fail: build in one process, look up in others.
#define READ_FAULTS
#include "killpoints.hpp"

#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/oceanus/oceanus.hpp>
#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/pluto_client.hpp>
#include <sse/schemes/pluto/pluto_server.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/tethys/tethys_client.hpp>
#include <sse/schemes/tethys/tethys_server.hpp>
#include <sse/schemes/tethys/tethys_store.hpp>
#include <sse/schemes/tethys/tethys_store_builder.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <algorithm>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <spdlog/sinks/null_sink.h>

#include "elt.hpp"

using namespace sse;

extern "C" abstractio::Scheduler* __wrap__ZN3sse10abstractio26make_default_aio_schedulerEm(size_t)
{
    return abstractio::make_thread_pool_aio_scheduler();
}

using Ids = std::vector<int>;

template<class C>
static Ids ids(const C& c)
{
    Ids r;
    for (const auto& x : c) {
        r.push_back(id_of<uint64_t>(x));
    }
    std::sort(r.begin(), r.end());
    return r;
}
static std::vector<uint64_t> docs(const Ids& is)
{
    std::vector<uint64_t> r;
    for (int i : is) {
        r.push_back(elt<uint64_t>(i));
    }
    return r;
}
static std::array<uint8_t, 32> bytes(long n)
{
    std::array<uint8_t, 32> a;
    Rng                     r(static_cast<uint64_t>(n) + 17);
    for (auto& x : a) {
        x = static_cast<uint8_t>(r.next());
    }
    return a;
}
static crypto::Key<32> master(long n)
{
    auto a = bytes(n);
    return crypto::Key<32>(a.data());
}
static uint64_t name_hash(const std::string& s)
{
    uint64_t h = 1469598103934665603ULL;
    for (char c : s) {
        h = (h ^ static_cast<uint8_t>(c)) * 1099511628211ULL;
    }
    return h;
}
// where a key goes: its two halves are taken in a small range
static std::array<uint8_t, 16> place(const std::string& s, const Episode& e)
{
    Rng                     r(name_hash(s) ^ static_cast<uint64_t>(e.i("seed")));
    uint64_t                h[2];
    std::array<uint8_t, 16> k;
    h[0] = r.below(static_cast<uint64_t>(e.i("space"))) + (name_hash(s) << 24);
    h[1] = r.below(static_cast<uint64_t>(e.i("space"))) + (name_hash(s) << 24);
    memcpy(k.data(), h, 16);
    return k;
}

struct Index
{
    const Episode& e;
    std::string    dir;
    Index(const Episode& ep, std::string d) : e(ep), dir(std::move(d))
    {
    }
    virtual ~Index()                              = default;
    virtual void start()                          = 0;
    virtual Ids  put(const std::string&, const Ids&) = 0; // what is expected to be found
    virtual void build()                          = 0;
    virtual void destroy()                        = 0; // the builder
    virtual void open()                           = 0;
    virtual void close()                          = 0;
    virtual Ids  get(const std::string&)          = 0;
    virtual Ids  aget(const std::string& k)
    {
        return get(k);
    }
    tethys::TethysStoreBuilderParam tethys_param(const char* max) const
    {
        tethys::TethysStoreBuilderParam par;
        par.tethys_table_path = dir + "/table";
        par.tethys_stash_path = dir + (e.i("nodir") ? "/missing/stash" : "/stash");
        par.max_n_elements    = static_cast<size_t>(e.i(max));
        par.epsilon           = 0.01 * static_cast<double>(e.i("eps"));
        return par;
    }
};

struct Waiter
{
    std::mutex              m;
    std::condition_variable cv;
    Ids                     r;
    bool                    done = false;
    void                    set(Ids x)
    {
        std::lock_guard<std::mutex> g(m);
        r    = std::move(x);
        done = true;
        cv.notify_all();
    }
    Ids wait()
    {
        std::unique_lock<std::mutex> l(m);
        if (!cv.wait_for(l, std::chrono::seconds(10), [&] { return done; })) {
            Ev("Hang").emit();
            _exit(9);
        }
        return r;
    }
};

template<size_t PAGE>
struct Store : Index
{
    using K = tethys::tethys_core_key_type;
    using E = tethys::encoders::EncodeSeparateEncoder<K, uint64_t, PAGE>;
    using D = tethys::encoders::EncodeSeparateDecoder<K, uint64_t, PAGE>;
    using B = tethys::TethysStoreBuilder<PAGE, K, uint64_t, tethys::IdentityHasher, E, E>;
    using S = tethys::TethysStore<PAGE, K, uint64_t, tethys::IdentityHasher, D>;
    std::unique_ptr<B> b;
    std::unique_ptr<S> s;
    using Index::Index;
    void start() override
    {
        b = std::make_unique<B>(tethys_param("max"));
    }
    Ids put(const std::string& k, const Ids& v) override
    {
        b->insert_list(place(k, e), docs(v));
        return v;
    }
    void build() override
    {
        b->build();
    }
    void destroy() override
    {
        b.reset();
    }
    void open() override
    {
        auto p = tethys_param("max");
        s      = std::make_unique<S>(p.tethys_table_path, p.tethys_stash_path);
        if (e.i("direct")) {
            s->use_direct_IO(true);
        }
    }
    void close() override
    {
        s.reset();
    }
    Ids get(const std::string& k) override
    {
        return ids(s->get_list(place(k, e)));
    }
    Ids aget(const std::string& k) override
    {
        Waiter w;
        s->async_get_list(place(k, e), [&](std::vector<uint64_t> v) { w.set(ids(v)); });
        return w.wait();
    }
};

template<size_t PAGE>
struct Tethys : Index
{
    using E = tethys::encoders::EncodeSeparateEncoder<tethys::tethys_core_key_type, tethys::index_type, PAGE>;
    using D = tethys::encoders::EncodeSeparateDecoder<tethys::tethys_core_key_type, tethys::index_type, PAGE>;
    using B = tethys::TethysBuilder<PAGE, E>;
    using C = tethys::TethysClient<D>;
    using S = tethys::TethysServer<tethys::tethys_server_store_type<PAGE>>;
    std::unique_ptr<B> b;
    std::unique_ptr<C> c;
    std::unique_ptr<S> s;
    using Index::Index;
    void start() override
    {
        b = std::make_unique<B>(tethys_param("max"), dir + "/counters", master(e.i("seed")), bytes(3));
    }
    Ids put(const std::string& k, const Ids& v) override
    {
        auto d = docs(v);
        b->insert_list(k, std::list<uint64_t>(d.begin(), d.end()));
        return v;
    }
    void build() override
    {
        b->build();
    }
    void destroy() override
    {
        b.reset();
    }
    void open() override
    {
        auto p = tethys_param("max");
        c      = std::make_unique<C>(dir + "/counters", p.tethys_stash_path, master(e.i("seed")), bytes(3));
        s      = std::make_unique<S>(p.tethys_table_path);
    }
    void close() override
    {
        c.reset();
        s.reset();
    }
    Ids get(const std::string& k) override
    {
        auto rq = c->search_request(k, true);
        auto bs = s->search(rq);
        return ids(c->decode_search_results(rq, bs));
    }
};

struct Ocean : Index
{
    static constexpr size_t PAGE = 4096;
    using Val                    = oceanus::data_type<PAGE>;
    std::unique_ptr<oceanus::OceanusBuilder<PAGE>> b;
    std::unique_ptr<oceanus::Oceanus<PAGE>>        s;
    using Index::Index;
    static int value_id(const Val& v)
    {
        int first = id_of<uint64_t>(v[0]);
        for (size_t i = 0; i < v.size(); i++) {
            if (id_of<uint64_t>(v[i]) != first + static_cast<int>(i % 7)) {
                return -1;
            }
        }
        return first;
    }
    void start() override
    {
        b = std::make_unique<oceanus::OceanusBuilder<PAGE>>(dir + "/table", static_cast<size_t>(e.i("max")), 0.01 * static_cast<double>(e.i("eps")),
                                                            static_cast<size_t>(e.i("depth")));
    }
    Ids put(const std::string& k, const Ids& v) override
    {
        Val x;
        for (size_t i = 0; i < x.size(); i++) {
            x[i] = elt<uint64_t>(v.at(0) + static_cast<int>(i % 7));
        }
        b->insert(place(k, e), x);
        return {v.at(0)};
    }
    void build() override
    {
        b->commit();
    }
    void destroy() override
    {
        b.reset();
    }
    void open() override
    {
        s = std::make_unique<oceanus::Oceanus<PAGE>>(dir + "/table");
    }
    void close() override
    {
        s.reset();
    }
    Ids get(const std::string& k) override
    {
        try {
            return {value_id(s->get(place(k, e)))};
        } catch (const std::out_of_range&) {
            return {};
        }
    }
    Ids aget(const std::string& k) override
    {
        Waiter w;
        s->async_get(place(k, e), [&](std::experimental::optional<Val> v) { w.set(v ? Ids{value_id(*v)} : Ids()); });
        return w.wait();
    }
};

template<class Params>
struct Back
{
    static typename Params::ht_builder_type::param_type builder(const Index& x)
    {
        oceanus::CuckooBuilderParam p;
        p.value_file_path   = x.dir + "/cuckoo.tmp";
        p.cuckoo_table_path = x.dir + "/cuckoo";
        size_t l            = Params::kPlutoListLength;
        p.max_n_elements    = (static_cast<size_t>(x.e.i("n")) + l - 1) / l;
        p.epsilon           = 0.3;
        p.max_search_depth  = static_cast<size_t>(x.e.i("depth"));
        return p;
    }
    static typename Params::ht_type::param_type table(const Index& x)
    {
        return x.dir + "/cuckoo";
    }
};
template<size_t PAGE>
struct Back<pluto::RocksDBPlutoParams<PAGE>>
{
    static pluto::GenericRocksDBStoreParams builder(const Index& x)
    {
        pluto::GenericRocksDBStoreParams p;
        p.path            = x.dir + "/rocksdb";
        p.rocksdb_options = x.e.s("kind") == "rcuckoo" ? pluto::GenericRocksDBStoreParams::make_rocksdb_cuckoo_options()
                                                       : pluto::GenericRocksDBStoreParams::make_rocksdb_regular_table_options();
        return p;
    }
    static pluto::GenericRocksDBStoreParams table(const Index& x)
    {
        return builder(x);
    }
};

template<class Params>
struct Pluto : Index
{
    using B = pluto::PlutoBuilder<Params>;
    using C = pluto::PlutoClient<typename Params::tethys_inner_encoder_type::decoder_type>;
    using S = pluto::PlutoServer<Params>;
    std::unique_ptr<B> b;
    std::unique_ptr<C> c;
    std::unique_ptr<S> s;
    using Index::Index;
    void start() override
    {
        b = std::make_unique<B>(static_cast<size_t>(e.i("n")), tethys_param("max"), Back<Params>::builder(*this), master(e.i("seed")), bytes(2));
    }
    Ids put(const std::string& k, const Ids& v) override
    {
        auto d = docs(v);
        b->insert_list(k, std::list<uint64_t>(d.begin(), d.end()));
        return v;
    }
    void build() override
    {
        b->build();
    }
    void destroy() override
    {
        b.reset();
    }
    void open() override
    {
        auto p = tethys_param("max");
        c      = std::make_unique<C>(p.tethys_stash_path, master(e.i("seed")), bytes(2));
        s      = std::make_unique<S>(p.tethys_table_path, Back<Params>::table(*this));
    }
    void close() override
    {
        c.reset();
        s.reset();
    }
    Ids get(const std::string& k) override
    {
        auto rq = c->search_request(k);
        auto rs = s->search(rq);
        return ids(c->decode_search_results(rq, rs));
    }
};

static std::unique_ptr<Index> make(const Episode& e, const std::string& dir)
{
    std::string kind = e.s("kind");
    bool        big  = e.i("page") == 4096;
    if (kind == "store") {
        return big ? std::unique_ptr<Index>(new Store<4096>(e, dir)) : std::unique_ptr<Index>(new Store<128>(e, dir));
    }
    if (kind == "tethys") {
        return big ? std::unique_ptr<Index>(new Tethys<4096>(e, dir)) : std::unique_ptr<Index>(new Tethys<128>(e, dir));
    }
    if (kind == "oceanus") {
        return std::make_unique<Ocean>(e, dir);
    }
    if (kind == "pcuckoo") {
        return std::make_unique<Pluto<pluto::DefaultPlutoParams<512>>>(e, dir);
    }
    return std::make_unique<Pluto<pluto::RocksDBPlutoParams<128>>>(e, dir);
}

static void phase(const Episode& e, Index& x, size_t from)
{
    if (from > 0 && !sh->committed) {
        _exit(0); // nothing is claimed about an index whose construction failed
    }
    bool       opened = false;
    const long origin = sh->faults;
    // RocksDB stays in its error state after a failure: later insertions may be refused too
    const bool rocks  = e.s("kind") == "rocks" || e.s("kind") == "rcuckoo" || e.s("kind") == "tethys";
    for (size_t i = from; i < e.ops.size(); i++) {
        const Op& op   = e.ops[i];
        long      was  = rocks && (op.name == "put" || op.name == "build") ? origin : sh->faults.load();
        bool      ok   = true;
        Ids       r;
        auto      call = [&](auto f) {
            try {
                f();
            } catch (const std::exception&) {
                ok = false;
            }
            return sh->faults - was;
        };
        if (op.name == "arm") {
            killpoints::arm(op.i(0), static_cast<int>(op.i(1)), op.i(2));
        } else if (op.name == "heal") {
            killpoints::arm(0, 0);
        } else if (op.name == "start") {
            long f = call([&] { x.start(); });
            Ev("start").f("ok", ok).f("f", f).emit();
            if (!ok) {
                _exit(0);
            }
        } else if (op.name == "put") { // keyword first n
            Ids is;
            for (long j = 0; j < op.i(2); j++) {
                is.push_back(static_cast<int>(op.i(1) + j));
            }
            long f = call([&] { is = x.put(op.s(0), is); });
            Ev("put").f("k", op.s(0)).f("v", is).f("ok", ok).f("f", f).emit();
        } else if (op.name == "build") {
            long f = call([&] { x.build(); });
            sh->committed = ok;
            Ev("build").f("ok", ok).f("f", f).f("nodir", e.i("nodir") != 0).emit();
            killpoints::arm(0, 0);
            sh->closing = 1;
            x.destroy();
            sh->closing = 0;
            Ev("destroyed").emit();
        } else if (op.name == "open") {
            if (i != from) {
                break;
            }
            long f = call([&] { x.open(); });
            Ev("open").f("ok", ok).f("f", f).emit();
            if (!ok) {
                break;
            }
            opened = true;
        } else if (op.name == "get" || op.name == "aget") {
            long f = call([&] { r = op.name == "get" ? x.get(op.s(0)) : x.aget(op.s(0)); });
            Ev("search").f("k", op.s(0)).f("r", r).f("ok", ok).f("f", f).emit();
        }
    }
    killpoints::arm(0, 0);
    if (opened) {
        sh->closing = 1;
        x.close();
    }
    _exit(0);
}

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    std::cerr.setstate(std::ios_base::failbit);
    killpoints::init();
    return run(argc, argv, [](const Episode& e) {
        std::string dir = fresh("scratchfile");
        ::mkdir(dir.c_str(), 0700);
        std::unique_ptr<Index> x = make(e, dir);
        killpoints::phases(e, [&](size_t from) { phase(e, *x, from); });
        x.release(); // the processes that ran the phases owned what it holds
        utility::remove_directory(dir);
    });
}
