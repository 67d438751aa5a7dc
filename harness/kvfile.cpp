// Key-value files: the generic serialiser with a simple inner one, and with the Tethys stash.
#include "vh.hpp"

#include <sse/schemes/abstractio/kv_serializer.hpp>
#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>

#include <deque>
#include <list>
#include <memory>

#include "elt.hpp"

using namespace vh;
using namespace sse;
using namespace sse::tethys;

using KeyT = std::array<uint8_t, 16>;
static KeyT key_of(long k)
{
    KeyT a;
    Rng  r(static_cast<uint64_t>(k) * 31 + 7);
    for (auto& b : a) {
        b = k == 0 ? 0 : k == 1 ? 0xFF : static_cast<uint8_t>(r.next());
    }
    memcpy(a.data(), &k, 2);
    return a;
}
static int key_id(const KeyT& a)
{
    short k;
    memcpy(&k, a.data(), 2);
    return key_of(k) == a ? k : -1;
}

struct Simple
{
    int salt = 0;
    void serialize_key_value(std::ostream& o, const KeyT& k, const std::vector<uint64_t>& v)
    {
        uint64_t n = v.size();
        o.write(reinterpret_cast<const char*>(k.data()), 16);
        o.write(reinterpret_cast<const char*>(&n), 8);
        o.write(reinterpret_cast<const char*>(v.data()), static_cast<long>(8 * n));
    }
    std::pair<KeyT, std::vector<uint64_t>> deserialize_key_value(std::istream& in)
    {
        KeyT     k;
        uint64_t n = 0;
        in.read(reinterpret_cast<char*>(k.data()), 16);
        in.read(reinterpret_cast<char*>(&n), 8);
        if (!in || n > 100000) {
            Ev("overrun").emit();
            return {k, {}};
        }
        std::vector<uint64_t> v(n);
        in.read(reinterpret_cast<char*>(v.data()), static_cast<long>(8 * n));
        if (!in) {
            Ev("overrun").emit();
        }
        return {k, v};
    }
};

struct KV
{
    KeyT                  k;
    std::vector<uint64_t> v;
    const KeyT&           get_key() const
    {
        return k;
    }
    const std::vector<uint64_t>& get_value() const
    {
        return v;
    }
};

template<class V>
static std::vector<int> ids(const V& v)
{
    std::vector<int> r;
    for (const auto& t : v) {
        r.push_back(id_of(t));
    }
    return r;
}
static std::string js(int k, const std::vector<int>& v)
{
    return "{\"k\":" + std::to_string(k) + ",\"v\":" + Ev::val(v) + "}";
}

template<class T, class Dec>
static void read_back(const std::string& path, Dec& dec, bool shared)
{
    {
        std::ifstream in(path, std::ios::binary);
        Ev("begin").emit();
        std::function<void(KeyT, std::vector<T>)> cb = [](KeyT k, std::vector<T> v) {
            Ev("pair").f("k", key_id(k)).f("r", ids(v)).emit();
        };
        abstractio::deserialize<KeyT, std::vector<T>, Dec>(in, cb, dec);
        in.clear();
        in.peek();
        Ev("end").f("ok", in.eof()).emit();
    }
    {
        std::ifstream                  in(path, std::ios::binary);
        std::map<KeyT, std::vector<T>> m;
        if constexpr (std::is_default_constructible<Dec>::value) {
            m = shared ? abstractio::deserialize_map<KeyT, std::vector<T>, Dec>(in, dec)
                       : abstractio::deserialize_map<KeyT, std::vector<T>, Dec>(in);
        } else {
            m = abstractio::deserialize_map<KeyT, std::vector<T>, Dec>(in, dec);
        }
        std::string r;
        for (const auto& kv : m) {
            r += (r.empty() ? "" : ",") + js(key_id(kv.first), ids(kv.second));
        }
        Ev("map").f("ok", true).raw("r", "[" + r + "]").emit();
    }
}

// op "write how (k first n)*"
static void simple(const Episode& e)
{
    std::string path = fresh("kv");
    auto        o    = std::make_unique<std::ofstream>(path, std::ios::binary);
    Simple      in_ser;
    auto        ser = std::make_unique<abstractio::KVSerializer<KeyT, std::vector<uint64_t>, Simple>>(*o);
    for (const Op& op : e.ops) {
        if (op.name == "write") {
            std::vector<std::pair<KeyT, std::vector<uint64_t>>> kvs;
            std::string                                         r;
            for (size_t i = 1; i < op.args.size(); i += 3) {
                kvs.push_back({key_of(op.i(i)), {}});
                std::vector<int> is;
                for (long j = 0; j < op.i(i + 2); j++) {
                    is.push_back(static_cast<int>(op.i(i + 1) + j));
                    kvs.back().second.push_back(elt<uint64_t>(is.back()));
                }
                r += (r.empty() ? "" : ",") + js(static_cast<int>(op.i(i)), is);
            }
            switch (op.i(0)) {
            case 0: ser->serialize_iterable(kvs); break;
            case 1: ser->serialize_iterable(kvs, in_ser); break;
            case 2:
                for (auto& kv : kvs) {
                    ser->serialize(kv.first, kv.second);
                }
                break;
            case 3:
                for (auto& kv : kvs) {
                    ser->serialize(kv.first, kv.second, in_ser);
                }
                break;
            case 4:
                for (auto& kv : kvs) {
                    ser->serialize(kv);
                }
                break;
            case 5:
                for (auto& kv : kvs) {
                    ser->serialize(kv, in_ser);
                }
                break;
            case 6:
                for (auto& kv : kvs) {
                    ser->serialize(KV{kv.first, kv.second});
                }
                break;
            case 7:
                for (auto& kv : kvs) {
                    ser->serialize(KV{kv.first, kv.second}, in_ser);
                }
                break;
            case 8: {
                std::list<KV> l;
                for (auto& kv : kvs) {
                    l.push_back(KV{kv.first, kv.second});
                }
                ser->serialize_iterable(l);
                break;
            }
            default: {
                std::deque<std::pair<KeyT, std::vector<uint64_t>>> l(kvs.begin(), kvs.end());
                ser->serialize_iterable(l, in_ser);
            }
            }
            Ev("write").raw("kvs", "[" + r + "]").emit();
        } else { // read
            o->flush();
            read_back<uint64_t>(path, in_ser, op.i(0) != 0);
        }
    }
    o.reset();
    ::unlink(path.c_str());
}

// the stash: (k first n stored-in-the-first stored-in-the-second)
template<class T, bool ENC>
static void stash(const Episode& e)
{
    constexpr size_t PAGE = 512;
    using BE              = encoders::EncodeSeparateEncoder<KeyT, T, PAGE>;
    using BD              = encoders::EncodeSeparateDecoder<KeyT, T, PAGE>;
    using En              = std::conditional_t<ENC, encoders::EncryptEncoder<BE, PAGE>, BE>;
    using De              = std::conditional_t<ENC, encoders::DecryptDecoder<BD, PAGE>, BD>;
    auto make             = [&](auto* p) {
        using X = std::remove_pointer_t<decltype(p)>;
        if constexpr (ENC) {
            return std::make_unique<X>(std::array<uint8_t, 32>());
        } else {
            return std::make_unique<X>();
        }
    };
    auto        enc  = make(static_cast<En*>(nullptr));
    auto        dec  = make(static_cast<De*>(nullptr));
    std::string path = fresh("stash");
    auto        o    = std::make_unique<std::ofstream>(path, std::ios::binary);
    abstractio::KVSerializer<KeyT, TethysStashSerializationValue<T>, En> ser(*o);
    constexpr size_t C = BE::kListControlValues / 2;
    for (const Op& op : e.ops) {
        if (op.name == "write") {
            for (size_t i = 1; i < op.args.size(); i += 5) {
                std::vector<T> v;
                size_t         n = static_cast<size_t>(op.i(i + 2)), f1 = static_cast<size_t>(op.i(i + 3)),
                       f2 = static_cast<size_t>(op.i(i + 4));
                for (size_t j = 0; j < n; j++) {
                    v.push_back(elt<T>(static_cast<int>(op.i(i + 1)) + static_cast<int>(j)));
                }
                details::Edge ed(0, n + 2 * C);
                ed.rec_flow = f1;
                ed.flow     = f2;
                TethysStashSerializationValue<T> sv(&v, TethysAssignmentInfo(ed, IncomingEdge));
                ser.serialize(key_of(op.i(i)), sv, *enc);
                Ev("stash").f("k", op.i(i)).f("v", ids(v)).f("f", f1).f("g", f2).f("c", C).emit();
            }
        } else {
            o->flush();
            read_back<T>(path, *dec, op.i(0) != 0);
        }
    }
    o.reset();
    ::unlink(path.c_str());
}

int main(int argc, char** argv)
{
    return run(argc, argv, [](const Episode& e) {
        if (e.s("kind") == "simple") {
            simple(e);
        } else if (e.i("size") == 12) {
            e.i("enc") ? stash<Elt<12>, true>(e) : stash<Elt<12>, false>(e);
        } else {
            e.i("enc") ? stash<uint64_t, true>(e) : stash<uint64_t, false>(e);
        }
    });
}
