#pragma once
#include <stddef.h>
#include <string.h>
static inline void sodium_memzero(void* p, size_t n)
{
    volatile unsigned char* v = (volatile unsigned char*)p;
    while (n-- > 0) {
        *v++ = 0;
    }
}
