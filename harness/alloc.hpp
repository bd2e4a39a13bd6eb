// Accounts for memory obtained through operator new. Include in one source file.
#pragma once
#include <atomic>
#include <cstdlib>
#include <new>
#include <malloc.h>
namespace vf {
struct Alloc {
    static std::atomic<long>& live() { static std::atomic<long> v{0}; return v; }
    static std::atomic<long>& peak() { static std::atomic<long> v{0}; return v; }
    static std::atomic<long>& largest() { static std::atomic<long> v{0}; return v; }
    static void got(long n) { long l = live() += n; long p = peak(); while(l > p && !peak().compare_exchange_weak(p, l)) {} long g = largest(); while(n > g && !largest().compare_exchange_weak(g, n)) {} }
    static void reset() { peak() = live().load(); largest() = 0; }
};
}
inline void* vf_new(std::size_t n) {
    if(n > (std::size_t(3) << 30)) { long g = vf::Alloc::largest(); while((long)n > g && (long)n > 0 && !vf::Alloc::largest().compare_exchange_weak(g, (long)n)) {} if((long)n < 0) vf::Alloc::largest() = 0x7fffffffffffffffl; throw std::bad_alloc(); }
    void* p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); vf::Alloc::got((long)malloc_usable_size(p)); return p;
}
inline void vf_del(void* p) { if(p) { vf::Alloc::live() -= (long)malloc_usable_size(p); std::free(p); } }
void* operator new(std::size_t n) { return vf_new(n); }
void* operator new[](std::size_t n) { return vf_new(n); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { try { return vf_new(n); } catch(...) { return nullptr; } }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { try { return vf_new(n); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { vf_del(p); }
void operator delete[](void* p) noexcept { vf_del(p); }
void operator delete(void* p, std::size_t) noexcept { vf_del(p); }
void operator delete[](void* p, std::size_t) noexcept { vf_del(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { vf_del(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { vf_del(p); }
