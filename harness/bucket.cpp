// Encoding and decoding of single Tethys buckets (built with the address sanitizer).
#include "vh.hpp"

#include <sse/schemes/tethys/encoders/encode_encrypt.hpp>
#include <sse/schemes/tethys/encoders/encode_separate.hpp>

#include <memory>

using namespace vh;
using namespace sse::tethys;

#include "elt.hpp"

using KeyT = std::array<uint8_t, 16>;
static long keys = 0; // how the keys of the episode differ
static KeyT key_of(long k)
{
    KeyT a;
    if (keys >= 1 && keys <= 16) { // in one byte
        a.fill(0x5A);
        a[keys - 1] = static_cast<uint8_t>(k);
        return a;
    }
    if (keys > 16) { // in one half
        Rng r(static_cast<uint64_t>(k) * 31 + 11), fixed(5);
        for (size_t i = 0; i < 16; i++) {
            a[i] = static_cast<uint8_t>(((i < 8) == (keys == 17) ? fixed : r).next());
        }
        return a;
    }
    Rng  r(static_cast<uint64_t>(k) * 31 + 7);
    for (auto& b : a) {
        b = k == 0 ? 0 : k == 1 ? 0xFF : static_cast<uint8_t>(r.next());
    }
    return a;
}

static TethysAssignmentInfo info(size_t len, size_t f, size_t dual, bool in)
{
    details::Edge e(0, len);
    e.flow     = in ? dual : f;
    e.rec_flow = in ? f : dual;
    return TethysAssignmentInfo(e, in ? IncomingEdge : OutgoingEdge);
}

template<class Enc, class Dec, class T, size_t PAGE>
static void go(const Episode& e, Enc& enc, Dec& dec)
{
    keys          = e.i("keys");
    auto   bucket = std::make_unique<std::array<uint8_t, PAGE>>();
    size_t off    = 0;
    size_t table  = static_cast<size_t>(e.i("index"));
    auto   other  = std::make_unique<std::array<uint8_t, PAGE>>();
    size_t otable = table + 5;
    enc.finish_block_encoding(other->data(), otable, 0, PAGE);
    for (const Op& op : e.ops) {
        if (op.name == "start") {
            bucket->fill(0xFF);
            off = enc.start_block_encoding(bucket->data(), table);
            Ev("start").f("w", off).emit();
        } else if (op.name == "block") { // key n first f dual in|out
            std::vector<T>   v;
            std::vector<int> ids;
            for (long i = 0; i < op.i(1); i++) {
                ids.push_back(static_cast<int>(op.i(2) + i));
                v.push_back(elt<T>(ids.back()));
            }
            size_t w = enc.encode(bucket->data() + off,
                                  table,
                                  key_of(op.i(0)),
                                  v,
                                  info(v.size() + Enc::kListControlValues, op.i(3), op.i(4), op.s(5) == "in"));
            off += w;
            Ev("block").f("k", op.i(0)).f("v", ids).f("f", op.i(3)).f("o", op.s(5)).f("w", w).emit();
        } else if (op.name == "finish") {
            size_t w = enc.finish_block_encoding(bucket->data(), table, off, PAGE - off);
            Ev("finish").f("w", w).emit();
        } else {
            std::vector<int> ids;
            std::vector<T>   r = op.s(1) == "first" ? dec.decode_buckets(key_of(op.i(0)), *bucket, table, *other, otable)
                                                    : dec.decode_buckets(key_of(op.i(0)), *other, otable, *bucket, table);
            for (const T& t : r) {
                ids.push_back(id_of(t));
            }
            Ev("decode").f("k", op.i(0)).f("r", ids).emit();
        }
    }
}

template<class T, size_t PAGE>
static void body(const Episode& e)
{
    using BE = encoders::EncodeSeparateEncoder<KeyT, T, PAGE>;
    using BD = encoders::EncodeSeparateDecoder<KeyT, T, PAGE>;
    if (e.i("enc")) {
        std::array<uint8_t, 32> k;
        Rng                     r(static_cast<uint64_t>(e.i("enc")));
        for (auto& b : k) {
            b = static_cast<uint8_t>(r.next());
        }
        encoders::EncryptEncoder<BE, PAGE> enc(k);
        encoders::DecryptDecoder<BD, PAGE> dec(k);
        go<decltype(enc), decltype(dec), T, PAGE>(e, enc, dec);
    } else {
        BE enc;
        BD dec;
        go<BE, BD, T, PAGE>(e, enc, dec);
    }
}

template<size_t PAGE>
static void sizes(const Episode& e)
{
    switch (e.i("size")) {
    case 1: return body<Elt<1>, PAGE>(e);
    case 3: return body<Elt<3>, PAGE>(e);
    case 4: return body<Elt<4>, PAGE>(e);
    case 8: return body<uint64_t, PAGE>(e);
    case 12: return body<Elt<12>, PAGE>(e);
    case 16: return body<Elt<16>, PAGE>(e);
    case 24: return body<Elt<24>, PAGE>(e);
    default: _exit(3);
    }
}

int main(int argc, char** argv)
{
    return run(argc, argv, [](const Episode& e) {
        switch (e.i("page")) {
        case 96: return sizes<96>(e);
        case 128: return sizes<128>(e);
        case 512: return sizes<512>(e);
        case 4096: return sizes<4096>(e);
        default: _exit(3);
        }
    });
}
