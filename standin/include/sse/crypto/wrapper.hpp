#pragma once
#include <sse/crypto/key.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/random.hpp>
#include <stdexcept>
#include <typeinfo>
#include <vector>
namespace sse {
namespace crypto {
// Authenticated encryption of the crypto objects that can be serialized: nonce, masked representation, tag.  What was not
// wrapped under the same key is refused.
class Wrapper
{
public:
    static constexpr size_t kKeySize = 32;
    explicit Wrapper(Key<kKeySize>&& k)
    {
        std::copy(k.standin_data(), k.standin_data() + kKeySize, key_.begin());
    }
    template<class C>
    std::vector<uint8_t> wrap(const C& c) const
    {
        std::vector<uint8_t> rep = c.serialize();
        std::vector<uint8_t> r(16 + rep.size() + 16);
        random_bytes(16, r.data());
        std::vector<uint8_t> m = stream(1, r.data(), 16, rep.size());
        for (size_t i = 0; i < rep.size(); i++) {
            r[16 + i] = rep[i] ^ m[i];
        }
        std::vector<uint8_t> t = stream(2, r.data(), 16 + rep.size(), 16);
        std::copy(t.begin(), t.end(), r.end() - 16);
        return r;
    }
    template<class C>
    C unwrap(const std::vector<uint8_t>& r) const
    {
        if (r.size() < 32) {
            throw std::invalid_argument("the wrapped representation is too short");
        }
        std::vector<uint8_t> t = stream(2, r.data(), r.size() - 16, 16);
        if (!std::equal(t.begin(), t.end(), r.end() - 16)) {
            throw std::runtime_error("the wrapped representation is not authentic");
        }
        std::vector<uint8_t> rep = stream(1, r.data(), 16, r.size() - 32);
        for (size_t i = 0; i < rep.size(); i++) {
            rep[i] ^= r[16 + i];
        }
        return C::deserialize(rep.data(), rep.size());
    }

private:
    std::vector<uint8_t> stream(uint64_t domain, const uint8_t* p, size_t n, size_t len) const
    {
        standin::Sponge s(70 + domain);
        s.bytes(key_.data(), key_.size());
        s.bytes(p, n);
        std::vector<uint8_t> r(len);
        s.out(0, len, r.data());
        return r;
    }
    std::array<uint8_t, kKeySize> key_;
};
} // namespace crypto
} // namespace sse
