#pragma once
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <functional>
#include <vector>
namespace sse {
namespace crypto {
// A range-constrained PRF: a constrained key evaluates exactly the leaves of its range
template<size_t N>
class ConstrainedRCPrf
{
public:
    struct Element
    {
        std::array<uint8_t, 32> root;
        uint64_t                min, max;
    };
    explicit ConstrainedRCPrf(std::vector<Element>&& e) : elements_(std::move(e))
    {
    }
    ConstrainedRCPrf(ConstrainedRCPrf&&) noexcept = default;
    ConstrainedRCPrf& operator=(ConstrainedRCPrf&&) noexcept = default;

    uint64_t min_leaf() const
    {
        return elements_.empty() ? 0 : elements_.front().min;
    }
    uint64_t max_leaf() const
    {
        return elements_.empty() ? 0 : elements_.back().max;
    }
    std::array<uint8_t, N> eval(uint64_t leaf) const
    {
        for (const auto& e : elements_) {
            if (e.min <= leaf && leaf <= e.max) {
                return leaf_value(e.root, leaf);
            }
        }
        throw std::out_of_range("leaf outside of the constrained range");
    }
    void eval_range(uint64_t                                                   min,
                    uint64_t                                                   max,
                    const std::function<void(uint64_t, std::array<uint8_t, N>)>& callback) const
    {
        if (max < min) {
            throw std::invalid_argument("max < min");
        }
        if (elements_.empty() || min < min_leaf() || max > max_leaf()) {
            throw std::out_of_range("range outside of the constrained range");
        }
        for (uint64_t i = min; i <= max; i++) {
            callback(i, eval(i));
        }
    }
    static std::array<uint8_t, N> leaf_value(const std::array<uint8_t, 32>& root, uint64_t leaf)
    {
        standin::Sponge s(5);
        s.bytes(root.data(), root.size());
        s.word(leaf);
        std::array<uint8_t, N> r;
        s.out(0, N, r.data());
        return r;
    }

    std::vector<uint8_t> serialize() const
    {
        std::vector<uint8_t> r(elements_.size() * sizeof(Element));
        std::memcpy(r.data(), elements_.data(), r.size());
        return r;
    }
    static ConstrainedRCPrf deserialize(const uint8_t* p, size_t n)
    {
        if (n % sizeof(Element) != 0) {
            throw std::invalid_argument("invalid representation of a constrained key");
        }
        std::vector<Element> e(n / sizeof(Element));
        std::memcpy(static_cast<void*>(e.data()), p, n);
        return ConstrainedRCPrf(std::move(e));
    }

private:
    std::vector<Element> elements_;
};

template<size_t N>
class RCPrf
{
public:
    static constexpr size_t kKeySize = 32;
    RCPrf(Key<kKeySize>&& k, uint8_t depth) : depth_(depth)
    {
        std::copy(k.standin_data(), k.standin_data() + kKeySize, root_.begin());
    }
    std::array<uint8_t, N> eval(uint64_t leaf) const
    {
        check(leaf);
        return ConstrainedRCPrf<N>::leaf_value(root_, leaf);
    }
    ConstrainedRCPrf<N> constrain(uint64_t min, uint64_t max) const
    {
        if (max < min) {
            throw std::invalid_argument("max < min");
        }
        check(max);
        std::vector<typename ConstrainedRCPrf<N>::Element> e;
        e.push_back({root_, min, max});
        return ConstrainedRCPrf<N>(std::move(e));
    }

private:
    void check(uint64_t leaf) const
    {
        if (depth_ < 64 && (leaf >> depth_) != 0) {
            throw std::out_of_range("leaf outside of the tree");
        }
    }
    uint8_t                 depth_;
    std::array<uint8_t, 32> root_;
};
} // namespace crypto
} // namespace sse
