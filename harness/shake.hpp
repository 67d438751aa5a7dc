// Schedule perturbation: the harness is built with -finstrument-functions, and while `shake::on`
// every function entry may sleep or yield, at places chosen by a seeded hash.
#pragma once
#include <cstdint>
#include <sched.h>
#include <unistd.h>

namespace shake {
static volatile int      on   = 0; // 1 in `on` entries is delayed
static uint64_t          step = 1;
}

extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*, void*)
{
    int n = shake::on;
    if (n > 0) {
        uint64_t x = __atomic_add_fetch(&shake::step, 0x9e3779b97f4a7c15ULL, __ATOMIC_RELAXED);
        x          = (x ^ (x >> 31)) * 0xbf58476d1ce4e5b9ULL;
        x ^= x >> 27;
        if ((x >> 40) % static_cast<uint64_t>(n) == 0) {
            if (x & 1) {
                sched_yield();
            } else {
                usleep(static_cast<unsigned>((x >> 20) % 60));
            }
        }
    }
}
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*)
{
}
