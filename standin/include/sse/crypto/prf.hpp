#pragma once
#include <sse/crypto/hash.hpp>
#include <sse/crypto/key.hpp>
namespace sse {
namespace crypto {
template<size_t N>
class Prf
{
public:
    static constexpr size_t kKeySize = 32;
    Prf()                            = default;
    explicit Prf(Key<kKeySize>&& k) : key_(std::move(k))
    {
    }
    Prf(Prf&&) noexcept = default;
    Prf(const Prf&)     = delete;
    Prf& operator=(const Prf&) = delete;

    std::array<uint8_t, N> prf(const uint8_t* in, size_t len) const
    {
        std::array<uint8_t, N> r;
        eval(2, in, len, r.data());
        return r;
    }
    std::array<uint8_t, N> prf(const std::string& s) const
    {
        return prf(reinterpret_cast<const uint8_t*>(s.data()), s.size());
    }
    template<size_t L>
    std::array<uint8_t, N> prf(const std::array<uint8_t, L>& in) const
    {
        return prf(in.data(), L);
    }
    Key<N> derive_key(const uint8_t* in, size_t len) const
    {
        std::array<uint8_t, N> r;
        eval(3, in, len, r.data());
        return Key<N>(r.data());
    }
    Key<N> derive_key(const std::string& s) const
    {
        return derive_key(reinterpret_cast<const uint8_t*>(s.data()), s.size());
    }
    template<size_t L>
    Key<N> derive_key(const std::array<uint8_t, L>& in) const
    {
        return derive_key(in.data(), L);
    }

private:
    void eval(uint64_t domain, const uint8_t* in, size_t len, uint8_t* out) const
    {
        standin::Sponge s(domain);
        s.word(N);
        s.bytes(key_.standin_data(), kKeySize);
        s.bytes(in, len);
        s.out(0, N, out);
    }
    Key<kKeySize> key_;
};
} // namespace crypto
} // namespace sse
