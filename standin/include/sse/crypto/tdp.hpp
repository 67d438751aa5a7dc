#pragma once
#include <sse/crypto/prf.hpp>
namespace sse {
namespace crypto {
// A permutation of 384-byte messages, lane by lane (affine modulo 2^64, of full period, so that any power is quick); both directions are easy here, so who calls which direction is
// what matters: TdpMultPool (the server's) only goes forward.
class Tdp
{
public:
    static constexpr size_t kMessageSize = 384;
    static constexpr size_t kRSAPrfSize  = 400;
    using message_type                   = std::array<uint8_t, kMessageSize>;

    explicit Tdp(const std::string& pk) : pk_(pk)
    {
        if (pk.size() < 8) {
            throw std::runtime_error("invalid key");
        }
        standin::Sponge s(6);
        s.bytes(pk.data() + pk.size() - 8, 8);
        mul_ = (s.at(0) & ~uint64_t(3)) | 1; // with these low bits the period is 2^64
        if (mul_ == 1) {
            mul_ = 5;
        }
        add_ = s.at(1) | 1;
        // inverse of mul_ modulo 2^64
        inv_ = 1;
        for (int i = 0; i < 6; i++) {
            inv_ *= 2 - mul_ * inv_;
        }
    }
    std::string public_key() const
    {
        return "PK" + pk_.substr(pk_.size() - 8);
    }
    void eval_n(message_type& m, uint64_t n) const
    {
        power(m, mul_, add_, n);
    }
    void invert_n(message_type& m, uint64_t n) const
    {
        power(m, inv_, uint64_t(0) - inv_ * add_, n);
    }
    // n times x -> a x + b
    static void power(message_type& m, uint64_t a, uint64_t b, uint64_t n)
    {
        uint64_t ra = 1, rb = 0;
        for (; n != 0; n >>= 1) {
            if (n & 1) {
                rb = a * rb + b;
                ra = a * ra;
            }
            b = a * b + b;
            a = a * a;
        }
        for (size_t l = 0; l < kMessageSize / 8; l++) {
            uint64_t x;
            std::memcpy(&x, m.data() + 8 * l, 8);
            x = ra * x + rb;
            std::memcpy(m.data() + 8 * l, &x, 8);
        }
    }
    message_type eval(const message_type& m) const
    {
        message_type r = m;
        eval_n(r, 1);
        return r;
    }
    message_type generate_array(const Prf<kRSAPrfSize>& prg, const std::string& seed) const
    {
        auto         full = prg.prf(seed);
        message_type r;
        std::copy(full.begin(), full.begin() + kMessageSize, r.begin());
        return r;
    }

protected:
    std::string pk_;
    uint64_t    mul_, add_, inv_;
};

class TdpInverse : public Tdp
{
public:
    TdpInverse() : Tdp("SK" + random_string(8))
    {
    }
    explicit TdpInverse(const std::string& sk) : Tdp(sk)
    {
        if (sk.compare(0, 2, "SK") != 0) {
            throw std::runtime_error("invalid private key");
        }
    }
    std::string private_key() const
    {
        return "SK" + pk_.substr(pk_.size() - 8);
    }
    message_type invert(const message_type& m) const
    {
        message_type r = m;
        invert_n(r, 1);
        return r;
    }
    message_type invert_mult(const message_type& m, uint32_t order) const
    {
        message_type r = m;
        invert_n(r, order);
        return r;
    }
};

class TdpMultPool : public Tdp
{
public:
    TdpMultPool(const std::string& pk, uint8_t size) : Tdp(pk), size_(size)
    {
        if (size == 0) {
            throw std::invalid_argument("pool size must be at least 1");
        }
    }
    using Tdp::eval;
    message_type eval(const message_type& m, uint8_t order) const
    {
        if (order == 0 || order > maximum_order()) {
            throw std::invalid_argument("invalid order");
        }
        message_type r = m;
        eval_n(r, order);
        return r;
    }
    unsigned maximum_order() const
    {
        return size_ + 1U;
    }

private:
    uint8_t size_;
};
} // namespace crypto
} // namespace sse
