// RockDBWrapper, RocksDBCounter and RockDBListStore driven by scenarios.
#include "vh.hpp"

#include <sse/schemes/utils/rocksdb_wrapper.hpp>
#include <sse/schemes/utils/logger.hpp>

#include <array>
#include <list>
#include <memory>

#include <spdlog/sinks/null_sink.h>

using namespace vh;
using sse::sophos::RockDBListStore;
using sse::sophos::RockDBWrapper;
using sse::sophos::RocksDBCounter;

namespace sse {
namespace sophos {
template<>
struct serialization<std::array<uint8_t, 5>>
{
    std::string serialize(const std::array<uint8_t, 5>& e)
    {
        return std::string(e.begin(), e.end());
    }
    bool deserialize(std::string::iterator&       begin,
                     const std::string::iterator& end,
                     std::array<uint8_t, 5>&      out)
    {
        if (end - begin < 5) {
            return false;
        }
        std::copy(begin, begin + 5, out.begin());
        begin += 5;
        return true;
    }
};
} // namespace sophos
} // namespace sse

template<size_t N>
static std::array<uint8_t, N> mk_key(long long n)
{
    std::array<uint8_t, N> k;
    k.fill(n == 1 ? 0x7F : 0); // see DESIGN.md: all-0xFF together with all-0 is a RocksDB limit
    if (n >= 2) {
        k[(n & 1) ? 0 : N - 1] = static_cast<uint8_t>(n);
    }
    return k;
}

template<typename V>
static V mk_val(long long n)
{
    V        v;
    uint8_t* p = reinterpret_cast<uint8_t*>(&v);
    Rng      r(0x5eed + n);
    for (size_t i = 0; i < sizeof(V); i++) {
        p[i] = n == 0 ? 0 : (n == 1 ? 0xFF : static_cast<uint8_t>(r.next()));
    }
    return v;
}
static std::string hex(const void* p, size_t n)
{
    std::string s;
    char        b[4];
    for (size_t i = 0; i < n; i++) {
        snprintf(b, sizeof b, "%02x", static_cast<const uint8_t*>(p)[i]);
        s += b;
    }
    return s;
}
// the number of the value, found by comparing all bytes
static std::string val_name(const void* p, size_t n)
{
    for (int k = 0; k < 64; k++) {
        uint8_t buf[64];
        Rng     r(0x5eed + k);
        for (size_t i = 0; i < n; i++) {
            buf[i] = k == 0 ? 0 : (k == 1 ? 0xFF : static_cast<uint8_t>(r.next()));
        }
        if (memcmp(buf, p, n) == 0) {
            return std::to_string(k);
        }
    }
    return "bad:" + hex(p, n);
}

template<size_t N, typename V>
static void map_episode(const Episode& e)
{
    std::string                    path = fresh("map");
    std::unique_ptr<RockDBWrapper> db(new RockDBWrapper(path));
    for (const Op& op : e.ops) {
        if (op.name == "open") {
            bool ok = true;
            try {
                db.reset(new RockDBWrapper(path));
            } catch (std::exception&) {
                ok = false;
            }
            Ev("open").f("r", ok).emit();
            if (!ok) {
                return;
            }
        } else if (op.name == "close") {
            db.reset();
            Ev("close").emit();
        } else if (op.name == "flush") {
            db->flush(true);
            Ev("flush").emit();
        } else if (op.name == "put") {
            bool r = db->put(mk_key<N>(op.i(0)), mk_val<V>(op.i(1)));
            Ev("put").f("k", op.s(0)).f("v", op.s(1)).f("r", r).emit();
        } else if (op.name == "remove") {
            auto k = mk_key<N>(op.i(0));
            bool r = (op.has(1) && op.s(1) == "ptr") ? db->remove(k.data(), N) : db->remove(k);
            Ev("remove").f("k", op.s(0)).f("r", r).emit();
        } else if (op.name == "get") {
            auto        k = mk_key<N>(op.i(0));
            std::string res;
            if (op.has(1) && op.s(1) == "str") {
                std::string d = "old";
                res = db->get(std::string(k.begin(), k.end()), d)
                          ? (d.size() == sizeof(V) ? val_name(d.data(), d.size()) : "badsize")
                          : "None";
            } else {
                V v = mk_val<V>(63);
                bool f = (op.has(1) && op.s(1) == "ptr") ? db->get(k.data(), N, v) : db->get(k, v);
                res = f ? val_name(&v, sizeof v) : "None";
            }
            Ev("get").f("k", op.s(0)).f("r", res).emit();
        } else {
            _exit(3);
        }
    }
}

static std::string counter_key(const std::string& k)
{
    if (k == "0") {
        return ""; // the empty key
    }
    if (k == "1") {
        return std::string("a\0b", 3);
    }
    if (k == "2") {
        return std::string("a\0", 2);
    }
    return "keyword " + k;
}

static void counter_episode(const Episode& e)
{
    std::string                     path = fresh("cnt");
    std::unique_ptr<RocksDBCounter> db(new RocksDBCounter(path));
    for (const Op& op : e.ops) {
        uint32_t v = 777;
        if (op.name == "open") {
            bool ok = true;
            try {
                db.reset(new RocksDBCounter(path));
            } catch (std::exception&) {
                ok = false;
            }
            Ev("open").f("r", ok).emit();
            if (!ok) {
                return;
            }
        } else if (op.name == "close") {
            db.reset();
            Ev("close").emit();
        } else if (op.name == "flush") {
            db->flush(true);
            Ev("flush").emit();
        } else if (op.name == "get") {
            bool f = db->get(counter_key(op.s(0)), v);
            Ev("get").f("k", op.s(0)).f("r", f ? static_cast<long long>(v) : -1LL).emit();
        } else if (op.name == "gai") {
            bool f = db->get_and_increment(counter_key(op.s(0)), v);
            Ev("gai").f("k", op.s(0)).f("ok", f).f("r", v).emit();
        } else if (op.name == "inc") {
            bool f = op.has(1) ? db->increment(counter_key(op.s(0)), op.i(1)) : db->increment(counter_key(op.s(0)));
            Ev("inc").f("k", op.s(0)).f("d", op.has(1) ? op.i(1) : 0).f("r", f).emit();
        } else if (op.name == "set") {
            bool f = db->set(counter_key(op.s(0)), op.i(1));
            Ev("set").f("k", op.s(0)).f("v", op.i(1)).f("r", f).emit();
        } else if (op.name == "remove") {
            bool f = db->remove_key(counter_key(op.s(0)));
            Ev("remove").f("k", op.s(0)).f("r", f).emit();
        } else {
            _exit(3);
        }
    }
}

using elt = std::array<uint8_t, 5>;
static void list_episode(const Episode& e)
{
    using store = RockDBListStore<elt>;
    std::string            path = fresh("lst");
    std::unique_ptr<store> db(new store(path));
    for (const Op& op : e.ops) {
        if (op.name == "open") {
            bool ok = true;
            try {
                db.reset(new store(path));
            } catch (std::exception&) {
                ok = false;
            }
            Ev("open").f("r", ok).emit();
            if (!ok) {
                return;
            }
        } else if (op.name == "close") {
            db.reset();
            Ev("close").emit();
        } else if (op.name == "flush") {
            db->flush(true);
            Ev("flush").emit();
        } else if (op.name == "put") {
            std::list<elt>           l;
            std::vector<std::string> names;
            for (size_t i = 1; i < op.args.size(); i++) {
                l.push_back(mk_val<elt>(op.i(i)));
                names.push_back(op.s(i));
            }
            bool r = db->put(mk_key<16>(op.i(0)), l);
            Ev("put").f("k", op.s(0)).f("v", names).f("r", r).emit();
        } else if (op.name == "get") {
            auto           k = mk_key<16>(op.i(0));
            std::list<elt> l = {mk_val<elt>(60), mk_val<elt>(61)};
            bool           f;
            if (op.has(1) && op.s(1) == "str") {
                f = db->get(std::string(k.begin(), k.end()), l);
            } else if (op.has(1) && op.s(1) == "ptr") {
                f = db->get(k.data(), 16, l);
            } else {
                f = db->get(k, l);
            }
            std::vector<std::string> names;
            for (auto& x : l) {
                names.push_back(val_name(&x, sizeof x));
            }
            Ev("get").f("k", op.s(0)).f("ok", f).f("r", names).emit();
        } else {
            _exit(3);
        }
    }
}

int main(int argc, char** argv)
{
    sse::logger::set_logger(spdlog::null_logger_mt("null"));
    return run(argc, argv, [](const Episode& e) {
        std::string kind = e.s("kind");
        if (kind == "counter") {
            counter_episode(e);
        } else if (kind == "list") {
            list_episode(e);
        } else if (e.s("shape") == "a") {
            map_episode<16, uint64_t>(e);
        } else if (e.s("shape") == "b") {
            map_episode<8, std::array<uint8_t, 24>>(e);
        } else if (e.s("shape") == "c") {
            map_episode<2, std::array<uint8_t, 3>>(e);
        } else {
            map_episode<32, uint32_t>(e);
        }
    });
}
