// The Pluto scheme with its table back-ends: build, reopen, search.
#include "kernel.hpp"

#include <sse/schemes/abstractio/scheduler.hpp>
#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/pluto_client.hpp>
#include <sse/schemes/pluto/pluto_server.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <algorithm>
#include <memory>
#include <spdlog/sinks/null_sink.h>
#include <sys/resource.h>

#include "elt.hpp"

using namespace vh;
using namespace vk;
using namespace sse;
using namespace sse::pluto;

extern "C" abstractio::Scheduler* __wrap__ZN3sse10abstractio26make_default_aio_schedulerEm(size_t)
{
    return abstractio::make_thread_pool_aio_scheduler();
}

template<class Params>
struct Back
{
    static typename Params::ht_builder_type::param_type builder(const std::string& dir, const Episode& e)
    {
        oceanus::CuckooBuilderParam p;
        p.value_file_path   = dir + "/cuckoo.tmp";
        p.cuckoo_table_path = dir + "/cuckoo";
        size_t l            = Params::kPlutoListLength;
        p.max_n_elements    = (static_cast<size_t>(e.i("n")) + l - 1) / l;
        p.epsilon           = 0.3;
        p.max_search_depth  = static_cast<size_t>(e.i("depth"));
        return p;
    }
    static typename Params::ht_type::param_type table(const std::string& dir, const Episode&)
    {
        return dir + "/cuckoo";
    }
};

template<size_t PAGE>
struct Back<RocksDBPlutoParams<PAGE>>
{
    static GenericRocksDBStoreParams builder(const std::string& dir, const Episode& e)
    {
        GenericRocksDBStoreParams p;
        p.path            = dir + "/rocksdb";
        p.rocksdb_options = e.s("back") == "rcuckoo" ? GenericRocksDBStoreParams::make_rocksdb_cuckoo_options()
                                                     : GenericRocksDBStoreParams::make_rocksdb_regular_table_options();
        return p;
    }
    static GenericRocksDBStoreParams table(const std::string& dir, const Episode& e)
    {
        return builder(dir, e);
    }
};

template<class Params>
static void scheme(const Episode& e)
{
    using B = PlutoBuilder<Params>;
    using C = PlutoClient<typename Params::tethys_inner_encoder_type::decoder_type>;
    using S = PlutoServer<Params>;
    std::string dir = fresh("pluto");
    utility::create_directory(dir, 0700);
    tethys::TethysStoreBuilderParam par;
    par.tethys_table_path = dir + "/tethys";
    par.tethys_stash_path = dir + "/tethys_stash";
    par.max_n_elements    = static_cast<size_t>(e.i("tmax"));
    par.epsilon           = 0.3;
    auto bytes            = [&](int n) {
        std::array<uint8_t, 32> a;
        Rng                     r(static_cast<uint64_t>(e.i("seed") + n));
        for (auto& x : a) {
            x = static_cast<uint8_t>(r.next());
        }
        return a;
    };
    auto key = [&] {
        auto a = bytes(1);
        return crypto::Key<32>(a.data());
    };
    std::unique_ptr<B> b(new B(
        static_cast<size_t>(e.i("n")), par, Back<Params>::builder(dir, e), key(), bytes(2)));
    std::unique_ptr<C> c;
    std::unique_ptr<S> s;
    auto               range = [](long first, long n) {
        std::vector<int> r;
        for (long i = 0; i < n; i++) {
            r.push_back(static_cast<int>(first + i));
        }
        return r;
    };
    auto keyword = [&](const std::string& w) { return w == "@empty" ? std::string() : w; };
    for (const Op& op : e.ops) {
        if (op.name == "put") { // keyword first n
            std::list<uint64_t> l;
            auto                is = range(op.i(1), op.i(2));
            for (int i : is) {
                l.push_back(elt<uint64_t>(i));
            }
            b->insert_list(keyword(op.s(0)), l);
            Ev("put").f("k", op.s(0)).f("v", is).f("ok", true).f("max", -1).emit();
        } else if (op.name == "json") { // (keyword first n)*
            std::string   path = fresh("json");
            std::ofstream o(path);
            o << "{";
            for (size_t i = 0; i < op.args.size(); i += 3) {
                o << (i ? ", " : "") << "\"" << op.s(i) << "\": [";
                for (long j = 0; j < op.i(i + 2); j++) {
                    o << (j ? "," : "") << op.i(i + 1) + j;
                }
                o << "]";
            }
            o << "}\n";
            o.close();
            bool ok = b->load_inverted_index(path);
            for (size_t i = 0; i < op.args.size(); i += 3) {
                Ev("put").f("k", op.s(i)).f("v", range(op.i(i + 1), op.i(i + 2))).f("ok", ok).f("max", -1).emit();
            }
        } else if (op.name == "move") {
            std::unique_ptr<B> m(new B(std::move(*b)));
            b = std::move(m);
        } else if (op.name == "build") {
            bool ok = true;
            try {
                b->build();
            } catch (std::exception&) {
                ok = false;
            }
            b.reset();
            Ev("build").f("ok", ok).emit();
        } else if (op.name == "open") {
            c.reset();
            s.reset();
            c = std::make_unique<C>(dir + "/tethys_stash", key(), bytes(2));
            s = std::make_unique<S>(dir + "/tethys", Back<Params>::table(dir, e));
            Ev("open").emit();
        } else if (op.name == "search") {
            auto                    rq = c->search_request(keyword(op.s(0)));
            auto                    rs = s->search(rq);
            std::vector<index_type> r  = c->decode_search_results(rq, rs);
            std::vector<int>        is;
            for (index_type x : r) {
                is.push_back(e.i("json") ? static_cast<int>(std::min<uint64_t>(x, 2000000000)) : id_of(x));
            }
            std::sort(is.begin(), is.end());
            Ev("search").f("k", op.s(0)).f("r", is).emit();
        }
    }
    c.reset();
    s.reset();
    b.reset();
    utility::remove_directory(dir);
}

template<size_t PAGE>
static void back(const Episode& e)
{
    e.s("back") == "cuckoo" ? scheme<DefaultPlutoParams<PAGE>>(e) : scheme<RocksDBPlutoParams<PAGE>>(e);
}

int main(int argc, char** argv)
{
    struct rlimit rl = {256 << 20, 256 << 20};
    setrlimit(RLIMIT_FSIZE, &rl);
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    std::cerr.setstate(std::ios_base::failbit);
    return run(argc, argv, [](const Episode& e) {
        long p = e.i("page");
        p == 128 ? back<128>(e) : p == 512 ? back<512>(e) : back<4096>(e);
    });
}
