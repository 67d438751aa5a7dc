#pragma once
// Stand-ins for the OpenSSE crypto-tk library, which is an empty submodule in this tree.  They are functional, not
// secure: same interfaces and same algebra (determinism, inverses, who can derive what), no hardness.
#include <algorithm>
#include <array>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>

namespace standin {
inline uint64_t mix64(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

// absorbs byte strings, then gives an output stream of any length
struct Sponge
{
    uint64_t a = 0x243f6a8885a308d3ULL, b = 0x13198a2e03707344ULL, c = 0xa4093822299f31d0ULL;
    explicit Sponge(uint64_t domain)
    {
        word(domain);
    }
    void word(uint64_t w)
    {
        a = mix64(a ^ w);
        b = mix64(b + a);
        c = mix64(c ^ (b + w));
    }
    void bytes(const void* p, size_t n)
    {
        word(n);
        const uint8_t* d = static_cast<const uint8_t*>(p);
        while (n > 0) {
            uint64_t w = 0;
            size_t   k = std::min<size_t>(8, n);
            std::memcpy(&w, d, k);
            word(w);
            d += k;
            n -= k;
        }
    }
    uint64_t at(uint64_t i) const
    {
        return mix64(a ^ mix64(b + i * 0x9e3779b97f4a7c15ULL) ^ mix64(c ^ i));
    }
    void out(size_t offset, size_t n, uint8_t* dst) const
    {
        for (size_t i = 0; i < n; i++) {
            size_t pos = offset + i;
            dst[i]     = static_cast<uint8_t>(at(pos / 8) >> (8 * (pos % 8)));
        }
    }
};

inline std::atomic<uint64_t>& random_state()
{
    static std::atomic<uint64_t> s(12345);
    return s;
}
} // namespace standin

namespace sse {
namespace crypto {
inline void init_crypto_lib()
{
}
inline void cleanup_crypto_lib()
{
}
} // namespace crypto
} // namespace sse
