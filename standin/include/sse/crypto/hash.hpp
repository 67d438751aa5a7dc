#pragma once
#include <sse/crypto/standin.hpp>
namespace sse {
namespace crypto {
class Hash
{
public:
    static constexpr size_t kDigestSize = 64;
    static void             hash(const uint8_t* in, size_t len, size_t out_len, uint8_t* out)
    {
        standin::Sponge s(1);
        s.bytes(in, len);
        s.out(0, out_len, out);
    }
    static void hash(const uint8_t* in, size_t len, uint8_t* out)
    {
        hash(in, len, kDigestSize, out);
    }
    static std::string hash(const std::string& in)
    {
        std::string r(kDigestSize, 0);
        hash(reinterpret_cast<const uint8_t*>(in.data()), in.size(), kDigestSize, reinterpret_cast<uint8_t*>(&r[0]));
        return r;
    }
    static std::string hash(const std::string& in, size_t out_len)
    {
        return hash(in).substr(0, out_len);
    }
};
} // namespace crypto
} // namespace sse
