#pragma once
#include <sse/crypto/random.hpp>
namespace sse {
namespace crypto {
// move-only; like the real one, the constructor takes the key material and erases its source
template<size_t N>
class Key
{
public:
    Key()
    {
        random_bytes(N, content_.data());
    }
    explicit Key(uint8_t* const k)
    {
        std::copy(k, k + N, content_.begin());
        std::fill(k, k + N, 0);
    }
    Key(const Key&) = delete;
    Key(Key&& k) noexcept : content_(k.content_)
    {
        k.content_.fill(0);
    }
    Key& operator=(const Key&) = delete;
    Key& operator              =(Key&& k) noexcept
    {
        if (this != &k) {
            content_ = k.content_;
            k.content_.fill(0);
        }
        return *this;
    }
    const uint8_t* standin_data() const
    {
        return content_.data();
    }

private:
    std::array<uint8_t, N> content_;
};
} // namespace crypto
} // namespace sse
