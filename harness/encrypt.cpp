// What an encrypted static index shows: the masks of single buckets, and the files of whole databases.
#include "vh.hpp"

#include <sse/schemes/oceanus/oceanus.hpp>
#include <sse/schemes/pluto/pluto_builder.hpp>
#include <sse/schemes/pluto/rocksdb_store.hpp>
#include <sse/schemes/pluto/types.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>
#include <sse/schemes/tethys/tethys_builder.hpp>
#include <sse/schemes/utils/logger.hpp>
#include <sse/schemes/utils/utils.hpp>

#include <memory>
#include <set>
#include <spdlog/sinks/null_sink.h>

#include "elt.hpp"

using namespace vh;
using namespace sse;

extern "C" abstractio::Scheduler* __wrap__ZN3sse10abstractio26make_default_aio_schedulerEm(size_t)
{
    return abstractio::make_thread_pool_aio_scheduler();
}

using KeyT   = tethys::tethys_core_key_type;
using EncKey = std::array<uint8_t, 32>;

// keys 0..31 differ in one byte only, the others everywhere
static EncKey enc_key(long k)
{
    EncKey a;
    Rng    r(k < 32 ? 77 : static_cast<uint64_t>(k) + 77);
    for (auto& b : a) {
        b = static_cast<uint8_t>(r.next());
    }
    if (k < 32) {
        a[static_cast<size_t>(k)] ^= 0x40;
    }
    return a;
}

static const uint64_t kPositions[] = {0,      1,          2,           3,           7,           8,          127,          128,         255,      256,
                                      257,    511,        512,         4095,        65535,       65536,      65537,        (1U << 24),  1U << 31, 0xFFFFFFFFULL,
                                      1ULL << 32, (1ULL << 32) + 1, 1ULL << 40, 1ULL << 48, 1ULL << 56, 1ULL << 63, ~0ULL};
static size_t position(long p)
{
    constexpr long n = sizeof(kPositions) / sizeof(kPositions[0]);
    return p < n ? kPositions[p] : static_cast<size_t>(p) * 16 + 5;
}

template<size_t PAGE>
using Page = std::array<uint8_t, PAGE>;

template<size_t PAGE>
struct Plain
{
    using key_type                               = KeyT;
    using value_type                             = uint64_t;
    static constexpr size_t kListControlValues   = 3;
    static constexpr size_t kBucketControlValues = 0;
    static Page<PAGE>       seen;   // the plain bucket when it was finished
    static size_t           filled; // bytes this encoder adds at the end
    size_t                  start_block_encoding(uint8_t*, size_t)
    {
        return 0;
    }
    size_t encode(uint8_t*, size_t, const KeyT&, const std::vector<uint64_t>&, tethys::TethysAssignmentInfo)
    {
        return 0;
    }
    size_t finish_block_encoding(uint8_t* buffer, size_t, size_t written, size_t remaining)
    {
        size_t n = std::min(filled, remaining);
        memset(buffer + written, 0xEE, n);
        memcpy(seen.data(), buffer, PAGE);
        return n;
    }
    void serialize_key_value(std::ostream&, const KeyT&, const tethys::TethysStashSerializationValue<uint64_t>&)
    {
    }
    void start_tethys_encoding(const tethys::details::TethysGraph&)
    {
    }
    void finish_tethys_table_encoding()
    {
    }
    void finish_tethys_encoding()
    {
    }
};
template<size_t PAGE>
Page<PAGE> Plain<PAGE>::seen;
template<size_t PAGE>
size_t Plain<PAGE>::filled = 0;

template<size_t PAGE>
struct PlainDecoder
{
    using key_type                             = KeyT;
    using value_type                           = uint64_t;
    static constexpr size_t kListControlValues = 3;
    static Page<PAGE>       got[2];
    static size_t           at[2];
    std::vector<uint64_t>   decode_buckets(const KeyT&, const Page<PAGE>& b0, size_t i0, const Page<PAGE>& b1, size_t i1)
    {
        got[0] = b0;
        got[1] = b1;
        at[0]  = i0;
        at[1]  = i1;
        return {};
    }
};
template<size_t PAGE>
Page<PAGE> PlainDecoder<PAGE>::got[2];
template<size_t PAGE>
size_t PlainDecoder<PAGE>::at[2];

// ids of byte strings; all zeroes is 0
struct Intern
{
    std::map<std::string, int> m;
    int                        operator()(const uint8_t* p, size_t n)
    {
        std::string s(reinterpret_cast<const char*>(p), n);
        if (s.find_first_not_of('\0') == std::string::npos) {
            return 0;
        }
        return m.emplace(s, static_cast<int>(m.size()) + 1).first->second;
    }
};

template<size_t PAGE>
static void buckets(const Episode& e)
{
    using Enc = tethys::encoders::EncryptEncoder<Plain<PAGE>, PAGE>;
    using Dec = tethys::encoders::DecryptDecoder<PlainDecoder<PAGE>, PAGE>;
    std::map<long, std::unique_ptr<Enc>>         encs;
    std::map<long, std::unique_ptr<Dec>>         decs;
    std::map<std::pair<long, long>, Page<PAGE>>  stored;
    Intern                                       chunk;
    std::map<std::string, int>                   content; // plain bucket -> id
    std::vector<bool>                            bare(PAGE, true);
    auto                                         name = [&](const Page<PAGE>& p) {
        auto it = content.find(std::string(p.begin(), p.end()));
        return it == content.end() ? -1 : it->second;
    };
    for (const Op& op : e.ops) {
        if (op.name == "enc") { // key position content written
            long k = op.i(0), p = op.i(1), c = op.i(2);
            auto& en = encs[k];
            if (!en || op.has(4)) {
                en = std::make_unique<Enc>(enc_key(k));
            }
            auto b = std::make_unique<Page<PAGE>>();
            Rng  r(static_cast<uint64_t>(c));
            for (auto& x : *b) {
                x = c == 0 ? 0 : c == 1 ? 0xFF : static_cast<uint8_t>(r.next());
            }
            size_t written      = std::min<size_t>(static_cast<size_t>(op.i(3)), PAGE);
            Plain<PAGE>::filled = static_cast<size_t>(c % 3) * 5;
            size_t w            = en->finish_block_encoding(b->data(), position(p), written, PAGE - written);
            std::string s(Plain<PAGE>::seen.begin(), Plain<PAGE>::seen.end());
            int         id = content.emplace(s, static_cast<int>(content.size()) + 1).first->second;
            Page<PAGE>  m;
            for (size_t i = 0; i < PAGE; i++) {
                m[i]    = (*b)[i] ^ Plain<PAGE>::seen[i];
                bare[i] = bare[i] && m[i] == 0;
            }
            std::vector<int> ids;
            for (size_t i = 0; i + 16 <= PAGE; i += 16) {
                ids.push_back(chunk(m.data() + i, 16));
            }
            stored[{k, p}] = *b;
            Ev("enc").f("k", k).f("p", p).f("c", id).f("m", ids).f("w", w + written == PAGE).emit();
        } else if (op.name == "dec") { // key position position [key to read with, positions to read at]
            long k = op.i(0), p = op.i(1), q = op.i(2);
            long k2 = op.has(3) ? op.i(3) : k, p2 = op.has(3) ? op.i(4) : p, q2 = op.has(3) ? op.i(5) : q;
            auto a = stored.find({k, p}), b = stored.find({k, q});
            if (a == stored.end() || b == stored.end()) {
                continue;
            }
            auto& de = decs[k2];
            if (!de) {
                de = std::make_unique<Dec>(enc_key(k2));
            }
            de->decode_buckets(KeyT(), a->second, position(p2), b->second, position(q2));
            bool in_place = PlainDecoder<PAGE>::at[0] == position(p2) && PlainDecoder<PAGE>::at[1] == position(q2);
            Ev("dec").f("k", k).f("p", p).f("q", q).f("k2", k2).f("p2", p2).f("q2", q2).f("r", name(PlainDecoder<PAGE>::got[0])).f("s", name(PlainDecoder<PAGE>::got[1])).f("at", in_place).emit();
        } else if (op.name == "columns") { // bytes that were never masked
            int n = 0;
            for (bool x : bare) {
                n += x;
            }
            Ev("columns").f("n", n).emit();
        }
    }
}

// ---------------------------------------------------------------- whole databases
static std::string slurp(const std::string& p)
{
    std::ifstream     f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

struct Shown
{
    size_t size = 0; // bytes of the table
    int    read = 0; // documents and keys readable in it
    int    twin = 0; // pieces that occur twice
};

static Shown shown(const std::string& path, const std::set<std::string>& secrets)
{
    std::string           s = slurp(path);
    Shown                 r;
    std::set<std::string> chunks;
    r.size = s.size();
    for (size_t i = 0; i + 8 <= s.size(); i++) {
        r.read += secrets.count(s.substr(i, 8)) ? 1 : 0;
        if (i % 16 == 0 && i + 16 <= s.size() && !chunks.insert(s.substr(i, 16)).second) {
            r.twin++;
        }
    }
    return r;
}

static std::set<std::string> secrets(const tethys::search_token_type& t, const std::list<uint64_t>& l, size_t blocks)
{
    std::set<std::string> r;
    for (uint64_t x : l) {
        r.insert(std::string(reinterpret_cast<char*>(&x), 8));
    }
    r.insert(std::string(reinterpret_cast<const char*>(t.data()), 8));
    for (size_t i = 0; i < blocks; i++) {
        auto k = tethys::details::derive_core_key(t, i);
        r.insert(std::string(reinterpret_cast<char*>(k.data()), 8));
    }
    return r;
}

template<class Params>
struct Rows
{
    static typename Params::ht_builder_type::param_type param(const std::string& dir, const Episode&, size_t n)
    {
        oceanus::CuckooBuilderParam p;
        p.value_file_path   = dir + "/cuckoo.tmp";
        p.cuckoo_table_path = dir + "/cuckoo";
        size_t l            = Params::kPlutoListLength;
        p.max_n_elements    = (n + l - 1) / l;
        p.epsilon           = 0.6;
        p.max_search_depth  = 400;
        return p;
    }
    // the rows in use, the size of the table
    static std::pair<long, long> count(const std::string& dir, const Episode&)
    {
        std::string s = slurp(dir + "/cuckoo");
        long        n = 0;
        for (size_t i = 0; i + Params::kPageSize <= s.size(); i += Params::kPageSize) {
            n += s.substr(i, Params::kPageSize) != std::string(Params::kPageSize, '\xFF');
        }
        return {n, static_cast<long>(s.size() / Params::kPageSize)};
    }
};

template<size_t PAGE>
struct Rows<pluto::RocksDBPlutoParams<PAGE>>
{
    static pluto::GenericRocksDBStoreParams param(const std::string& dir, const Episode& e, size_t)
    {
        pluto::GenericRocksDBStoreParams p;
        p.path            = dir + "/rocksdb";
        p.rocksdb_options = e.s("back") == "rcuckoo" ? pluto::GenericRocksDBStoreParams::make_rocksdb_cuckoo_options()
                                                     : pluto::GenericRocksDBStoreParams::make_rocksdb_regular_table_options();
        return p;
    }
    static std::pair<long, long> count(const std::string& dir, const Episode&)
    {
        rocksdb::DB*     db = nullptr;
        rocksdb::Options o;
        auto             s = rocksdb::DB::OpenForReadOnly(pluto::GenericRocksDBStoreParams::make_rocksdb_regular_table_options(), dir + "/rocksdb", &db);
        if (!s.ok()) {
            return {-1, 0};
        }
        long n  = 0;
        auto it = db->NewIterator(rocksdb::ReadOptions());
        for (it->SeekToFirst(); it->Valid(); it->Next()) {
            n++;
        }
        delete it;
        delete db;
        return {n, 0};
    }
};

static crypto::Key<32> prf_key(const Episode& e)
{
    std::array<uint8_t, 32> a;
    Rng                     r(static_cast<uint64_t>(e.i("seed")) + 5);
    for (auto& x : a) {
        x = static_cast<uint8_t>(r.next());
    }
    return crypto::Key<32>(a.data());
}

// db <encryption key> <declared> (keyword first n)*
template<size_t PAGE>
static void tethys_db(const Episode& e)
{
    using Enc = tethys::encoders::EncodeSeparateEncoder<KeyT, uint64_t, PAGE>;
    using B   = tethys::TethysBuilder<PAGE, Enc>;
    for (const Op& op : e.ops) {
        std::string dir = fresh("tethys");
        utility::create_directory(dir, 0700);
        tethys::TethysStoreBuilderParam par;
        par.tethys_table_path = dir + "/table";
        par.tethys_stash_path = dir + "/stash";
        par.max_n_elements    = static_cast<size_t>(op.i(1));
        par.epsilon           = 0.1;
        auto                    b = std::make_unique<B>(par, dir + "/counters", prf_key(e), enc_key(op.i(0)));
        std::set<std::string>   hidden;
        tethys::master_prf_type prf(prf_key(e));
        long                    tot = 0;
        for (size_t a = 2; a + 2 < op.args.size(); a += 3) {
            std::list<uint64_t> l;
            for (long i = 0; i < op.i(a + 2); i++) {
                l.push_back(elt<uint64_t>(static_cast<int>(op.i(a + 1) + i)));
            }
            tot += static_cast<long>(l.size());
            b->insert_list(op.s(a), l);
            auto s = secrets(prf.prf(op.s(a)), l, l.size() / 2 + 2);
            hidden.insert(s.begin(), s.end());
        }
        bool ok = true;
        try {
            b->build();
        } catch (std::exception&) {
            ok = false;
        }
        b.reset();
        Shown s = shown(dir + "/table", hidden);
        Ev("db").f("ok", ok).f("n", op.i(1)).f("tot", tot).f("size", s.size % PAGE ? -1 : static_cast<long>(s.size / PAGE)).f("read", s.read).f("twin", s.twin).f("rows", -1).f("room", -1).f("block", 1).emit();
        utility::remove_directory(dir);
    }
}

template<class Params>
static void pluto_db(const Episode& e)
{
    using B = pluto::PlutoBuilder<Params>;
    for (const Op& op : e.ops) {
        std::string dir = fresh("pluto");
        utility::create_directory(dir, 0700);
        tethys::TethysStoreBuilderParam par;
        size_t                          n = static_cast<size_t>(op.i(1));
        par.tethys_table_path             = dir + "/table";
        par.tethys_stash_path             = dir + "/stash";
        par.max_n_elements                = n;
        par.epsilon                       = 0.1;
        auto                    b = std::make_unique<B>(n, par, Rows<Params>::param(dir, e, n), prf_key(e), enc_key(op.i(0)));
        std::set<std::string>   hidden;
        tethys::master_prf_type prf(prf_key(e));
        bool                    ok  = true;
        long                    tot = 0;
        for (size_t a = 2; a + 2 < op.args.size(); a += 3) {
            std::list<uint64_t> l;
            for (long i = 0; i < op.i(a + 2); i++) {
                l.push_back(elt<uint64_t>(static_cast<int>(op.i(a + 1) + i)));
            }
            tot += static_cast<long>(l.size());
            try {
                b->insert_list(op.s(a), l);
            } catch (std::exception&) {
                ok = false;
            }
            auto s = secrets(prf.prf(op.s(a)), l, l.size() / Params::kPlutoListLength + 2);
            hidden.insert(s.begin(), s.end());
        }
        try {
            b->build();
        } catch (std::exception&) {
            ok = false;
        }
        b.reset();
        Shown s = shown(dir + "/table", hidden);
        auto  c = Rows<Params>::count(dir, e);
        Ev("db").f("ok", ok).f("n", n).f("tot", tot).f("size", s.size % Params::kPageSize ? -1 : static_cast<long>(s.size / Params::kPageSize)).f("read", s.read).f("twin", s.twin).f("rows", c.first).f("room", c.second).f("block", Params::kPlutoListLength).emit();
        utility::remove_directory(dir);
    }
}

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    std::cerr.setstate(std::ios_base::failbit);
    return run(argc, argv, [](const Episode& e) {
        std::string b = e.s("back");
        long        p = e.i("page");
        if (b == "bucket") {
            p == 64 ? buckets<64>(e) : p == 128 ? buckets<128>(e) : p == 512 ? buckets<512>(e) : buckets<4096>(e);
        } else if (b == "tethys") {
            p == 128 ? tethys_db<128>(e) : tethys_db<512>(e);
        } else if (b == "cuckoo") {
            p == 128 ? pluto_db<pluto::DefaultPlutoParams<128>>(e) : pluto_db<pluto::DefaultPlutoParams<512>>(e);
        } else {
            p == 128 ? pluto_db<pluto::RocksDBPlutoParams<128>>(e) : pluto_db<pluto::RocksDBPlutoParams<512>>(e);
        }
    });
}
