#pragma once
// ChaCha20 (original variant: 64-bit block counter, 64-bit nonce)
#include <stdint.h>
#include <string.h>
#define crypto_stream_chacha20_KEYBYTES 32U
#define crypto_stream_chacha20_NONCEBYTES 8U
static inline void standin_chacha_block(const uint32_t in[16], uint8_t out[64])
{
    uint32_t x[16];
    memcpy(x, in, 64);
#define SI_R(v, c) (((v) << (c)) | ((v) >> (32 - (c))))
#define SI_Q(a, b, c, d)                                                                                               \
    x[a] += x[b]; x[d] = SI_R(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = SI_R(x[b] ^ x[c], 12);                            \
    x[a] += x[b]; x[d] = SI_R(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = SI_R(x[b] ^ x[c], 7);
    for (int i = 0; i < 10; i++) {
        SI_Q(0, 4, 8, 12) SI_Q(1, 5, 9, 13) SI_Q(2, 6, 10, 14) SI_Q(3, 7, 11, 15)
        SI_Q(0, 5, 10, 15) SI_Q(1, 6, 11, 12) SI_Q(2, 7, 8, 13) SI_Q(3, 4, 9, 14)
    }
#undef SI_Q
#undef SI_R
    for (int i = 0; i < 16; i++) {
        uint32_t v = x[i] + in[i];
        memcpy(out + 4 * i, &v, 4);
    }
}
static inline int crypto_stream_chacha20_xor(unsigned char* c, const unsigned char* m, unsigned long long len,
                                             const unsigned char* n, const unsigned char* k)
{
    uint32_t st[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
    memcpy(st + 4, k, 32);
    st[12] = st[13] = 0;
    memcpy(st + 14, n, 8);
    unsigned long long off = 0;
    while (off < len) {
        uint8_t b[64];
        standin_chacha_block(st, b);
        for (int i = 0; i < 64 && off < len; i++, off++) {
            c[off] = m[off] ^ b[i];
        }
        if (++st[12] == 0) {
            ++st[13];
        }
    }
    return 0;
}
static inline int crypto_stream_chacha20(unsigned char* c, unsigned long long len, const unsigned char* n,
                                         const unsigned char* k)
{
    memset(c, 0, (size_t)len);
    return crypto_stream_chacha20_xor(c, c, len, n, k);
}
