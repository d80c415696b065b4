// Allocation hooks: live bytes and blocks, and failure injection.
#include "hooks.hpp"
#include <cstdlib>
#include <new>
namespace hooks { long live_bytes = 0, live_blocks = 0, allocs = 0, fail_at = -1; unsigned failures = 0; bool bad_free = false; }
namespace {
struct Head { std::size_t size; std::size_t magic; };
std::size_t const MAGIC = 0x5ca1ab1e0ddba11ULL;
void *get(std::size_t n)
{
    if (hooks::fail_at >= 0 && hooks::fail_at-- == 0) { ++hooks::failures; throw std::bad_alloc(); }
    Head *h = (Head *)std::malloc(n + sizeof(Head)); if (!h) throw std::bad_alloc();
    h->size = n; h->magic = MAGIC; hooks::live_bytes += (long)n; ++hooks::live_blocks; ++hooks::allocs; return h + 1;
}
void put(void *p)
{
    if (!p) return; Head *h = (Head *)p - 1; if (h->magic != MAGIC) { hooks::bad_free = true; std::abort(); }
    hooks::live_bytes -= (long)h->size; --hooks::live_blocks; h->magic = 0; std::free(h);
}
}
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void *operator new(std::size_t n, std::nothrow_t const &) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void *operator new[](std::size_t n, std::nothrow_t const &) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, std::size_t) noexcept { put(p); }
void operator delete[](void *p, std::size_t) noexcept { put(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { put(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { put(p); }
