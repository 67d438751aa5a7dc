// Elements of any size, one pattern of bytes per id; a damaged element has id -1.
#pragma once
#include "vh.hpp"

#pragma pack(push, 1)
template<size_t N>
struct Elt
{
    uint8_t b[N];
};
#pragma pack(pop)

template<class T>
inline T elt(int id)
{
    constexpr size_t N = sizeof(T);
    uint8_t          b[N];
    vh::Rng          r(static_cast<uint64_t>(id) + 99);
    for (size_t i = 0; i < N; i++) {
        b[i] = i < 3 ? static_cast<uint8_t>(id >> (8 * i)) : static_cast<uint8_t>(r.next());
    }
    if (N >= 3 && id == 0) {
        memset(b, 0, N);
    }
    if (N >= 3 && id == 1) {
        memset(b, 0xFF, N);
    }
    T t;
    memcpy(&t, b, N);
    return t;
}

template<class T>
inline int id_of(const T& t)
{
    constexpr size_t N = sizeof(T);
    uint8_t          b[N];
    memcpy(b, &t, N);
    int id = 0;
    for (size_t i = 0; i < 3 && i < N; i++) {
        id |= b[i] << (8 * i);
    }
    for (int c : {0, 1, id}) {
        T u = elt<T>(c);
        if (memcmp(&u, &t, N) == 0) {
            return c;
        }
    }
    return -1;
}
