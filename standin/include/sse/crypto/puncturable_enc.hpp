#pragma once
#include <sse/crypto/prf.hpp>
#include <set>
#include <vector>
namespace sse {
namespace crypto {
namespace punct {
constexpr size_t kMasterKeySize  = 32;
constexpr size_t kTagSize        = 16;
constexpr size_t kKeyShareSize   = 48;
constexpr size_t kCiphertextSize = 48;
using tag_type                   = std::array<uint8_t, kTagSize>;
using master_key_type            = Key<kMasterKeySize>;
using key_share_type             = std::array<uint8_t, kKeyShareSize>;
using ciphertext_type            = std::array<uint8_t, kCiphertextSize>;
using punctured_key_type         = std::vector<key_share_type>;

// both start with the tag
template<size_t N>
tag_type extract_tag(const std::array<uint8_t, N>& x)
{
    tag_type t;
    std::copy(x.begin(), x.begin() + kTagSize, t.begin());
    return t;
}
} // namespace punct

// Share d of a key punctured n times: (tag, d, id of the key).  As in the Green-Miers scheme, the shares of a key add
// up to it only if there is exactly one share for each d in 1..n and the initial share was made for n.
class PuncturableEncryption
{
public:
    explicit PuncturableEncryption(Key<punct::kMasterKeySize>&& k)
    {
        standin::Sponge s(7);
        s.bytes(k.standin_data(), punct::kMasterKeySize);
        id_ = s.at(0);
    }
    punct::key_share_type initial_keyshare(size_t d) const
    {
        return share({}, d, 1);
    }
    punct::key_share_type inc_puncture(size_t d, const punct::tag_type& tag) const
    {
        return share(tag, d, 2);
    }
    punct::ciphertext_type encrypt(uint64_t m, const punct::tag_type& tag) const
    {
        punct::ciphertext_type c{};
        std::copy(tag.begin(), tag.end(), c.begin());
        uint64_t x = m ^ pad(id_, tag);
        std::memcpy(c.data() + 16, &x, 8);
        std::memcpy(c.data() + 24, &id_, 8);
        return c;
    }
    static uint64_t pad(uint64_t id, const punct::tag_type& tag)
    {
        standin::Sponge s(8);
        s.word(id);
        s.bytes(tag.data(), tag.size());
        return s.at(0);
    }

private:
    punct::key_share_type share(const punct::tag_type& tag, uint64_t d, uint64_t kind) const
    {
        punct::key_share_type r{};
        std::copy(tag.begin(), tag.end(), r.begin());
        std::memcpy(r.data() + 16, &d, 8);
        std::memcpy(r.data() + 24, &id_, 8);
        std::memcpy(r.data() + 32, &kind, 8);
        return r;
    }
    uint64_t id_;
};

class PuncturableDecryption
{
public:
    explicit PuncturableDecryption(const punct::punctured_key_type& key)
    {
        valid_ = !key.empty() && get(key[0], 32) == 1 && get(key[0], 16) == key.size() - 1;
        std::set<uint64_t> seen;
        for (size_t i = 0; i < key.size(); i++) {
            id_ = (i == 0) ? get(key[0], 24) : id_;
            valid_ = valid_ && get(key[i], 24) == id_;
            if (i > 0) {
                uint64_t d = get(key[i], 16);
                valid_     = valid_ && get(key[i], 32) == 2 && d >= 1 && d < key.size() && seen.insert(d).second;
                tags_.insert(punct::extract_tag(key[i]));
            }
        }
    }
    bool is_punctured(const punct::tag_type& tag) const
    {
        return tags_.count(tag) > 0;
    }
    bool decrypt(const punct::ciphertext_type& c, uint64_t& m) const
    {
        punct::tag_type tag = punct::extract_tag(c);
        if (is_punctured(tag)) {
            return false;
        }
        uint64_t x, cid;
        std::memcpy(&x, c.data() + 16, 8);
        std::memcpy(&cid, c.data() + 24, 8);
        // shares that do not add up to the key of the ciphertext decrypt to garbage
        m = x ^ PuncturableEncryption::pad((valid_ && cid == id_) ? id_ : ~id_, tag);
        return true;
    }

private:
    static uint64_t get(const punct::key_share_type& s, size_t off)
    {
        uint64_t x;
        std::memcpy(&x, s.data() + off, 8);
        return x;
    }
    bool                      valid_;
    uint64_t                  id_ = 0;
    std::set<punct::tag_type> tags_;
};
} // namespace crypto
} // namespace sse
