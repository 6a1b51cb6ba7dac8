#pragma once
#include <cstddef>
#include <cstdint>
namespace rt
{
    void run(bool profile, void (*fa)(void*), void* a, void (*fb)(void*), void* b, int pa, int pb, const uintptr_t* shared, size_t nshared);
    size_t conflicts(uintptr_t* out, size_t max);
    long shared_accesses(int t);
}
