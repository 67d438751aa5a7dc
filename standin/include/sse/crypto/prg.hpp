#pragma once
#include <sse/crypto/key.hpp>
namespace sse {
namespace crypto {
class Prg
{
public:
    static constexpr size_t kKeySize = 32;
    explicit Prg(Key<kKeySize>&& k) : key_(std::move(k))
    {
    }
    void derive(size_t offset, size_t len, uint8_t* out) const
    {
        standin::Sponge s(4);
        s.bytes(key_.standin_data(), kKeySize);
        s.out(offset, len, out);
    }
    void derive(size_t len, uint8_t* out) const
    {
        derive(0, len, out);
    }

private:
    Key<kKeySize> key_;
};
} // namespace crypto
} // namespace sse
