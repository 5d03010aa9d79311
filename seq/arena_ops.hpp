// definitions of the replaced operators; included by the main file of each harness binary
#pragma once
#include "arena.hpp"
void* operator new(size_t n)
{
    if (arena::on) return arena::alloc(n);
    if (arena::rawFailAt && --arena::rawFailAt == 0) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    try {
        return operator new(n);
    } catch (...) {
        return nullptr;
    }
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept
{
    if (!p) return;
    if (arena::owns(p)) arena::release(p);
    else free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t n) noexcept
{
    if (p && arena::owns(p)) arena::checkSize(p, n);
    operator delete(p);
}
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
