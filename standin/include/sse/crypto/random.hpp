#pragma once
#include <sse/crypto/standin.hpp>
namespace sse {
namespace crypto {
inline void random_bytes(size_t n, uint8_t* dst)
{
    standin::Sponge s(99);
    s.word(standin::random_state().fetch_add(1));
    s.out(0, n, dst);
}
template<typename T, size_t N>
std::array<T, N> random_bytes()
{
    std::array<T, N> r;
    random_bytes(sizeof(r), reinterpret_cast<uint8_t*>(r.data()));
    return r;
}
inline std::string random_string(size_t n)
{
    std::string s(n, 0);
    random_bytes(n, reinterpret_cast<uint8_t*>(&s[0]));
    return s;
}
} // namespace crypto
} // namespace sse
