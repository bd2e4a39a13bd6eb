// The provided hasher against an independent implementation of XXH64 (C21).
#include "oracle.hpp"
#include <nudb/nudb.hpp>
using namespace vf;

// n readable bytes with an inaccessible page directly before and after
struct Guard {
    u8* base; std::size_t pages; std::size_t ps = 4096;
    explicit Guard(std::size_t n) { pages = n / ps + 2; base = (u8*)mmap(nullptr, (pages + 2) * ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); HARNESS(base != MAP_FAILED, "mmap"); HARNESS(!mprotect(base + ps, pages * ps, PROT_READ | PROT_WRITE), "mprotect"); }
    ~Guard() { munmap(base, (pages + 2) * ps); }
    u8* begin() { return base + ps; }
    u8* end() { return base + ps + pages * ps; }
};

static void judge(u8 const* p, std::size_t n, u64 seed, char const* where) {
    nudb::xxhasher h(seed); nudb::xxhasher const h2 = h;
    u64 got = h(p, n), want = ref_xxh64(p, n, seed);
    stats().eval();
    CHECK(got == want, "hash of %zu bytes at alignment %u, seed %llx (%s): %016llx, xxHash gives %016llx", n, (unsigned)((std::uintptr_t)p & 63), (unsigned long long)seed, where, (unsigned long long)got, (unsigned long long)want);
    CHECK(h2(p, n) == got, "hash is not a function of its input");
    CHECK(nudb::store::hash_type(seed)(p, n) == got, "the store's default hasher differs");
    stats().nontrivial(mix2(n, mix2((std::uintptr_t)p & 15, seed & 7)));
}

static void selftest() {
    // published XXH64 vectors
    HARNESS(ref_xxh64("", 0, 0) == 0xef46db3751d8e999ull, "vector 0");
    HARNESS(ref_xxh64("a", 1, 0) == 0xd24ec4f1a98c6e5bull, "vector 1");
    HARNESS(ref_xxh64("abc", 3, 0) == 0x44bc2cf5ad770999ull, "vector 2");
    char const* t = "Call me Ishmael. Some years ago--never mind how long precisely-";
    HARNESS(ref_xxh64(t, 63, 0) == 0x02a2e85470d6fd96ull, "vector 3");
}

static void one(u64 seed, u64 idx) {
    Rng r(seed);
    if(idx == 0) selftest();
    std::size_t const maxn = idx % 50 == 7 ? 3u << 20 : idx % 10 == 3 ? 70000 : 700;
    Guard g(maxn + 64);
    r.fill(g.begin(), g.end() - g.begin());
    if(r.chance(1, 6)) std::memset(g.begin(), r.pick({0, 255, 128}), g.end() - g.begin());
    u64 seeds[4] = {0, r.next(), ~0ull, r.chance(1, 2) ? 1ull << 63 : r.next() & 0xffffffff};
    auto sd = [&]{ return seeds[r.below(4)]; };
    if(maxn == 700) {
        // every length in a window, every alignment, flush with both guard pages
        std::size_t lo = (idx * 37) % 600;
        for(std::size_t n = lo; n < lo + 40; ++n) {
            judge(g.end() - n, n, sd(), "ends at the guard page");
            judge(g.begin(), n, sd(), "starts at the guard page");
            for(unsigned a = 0; a < 16; ++a) judge(g.begin() + 64 + a, n, sd(), "inside");
            beat();
        }
    } else for(int j = 0; j < 12; ++j) {
        std::size_t n = j == 0 ? maxn : r.below(maxn);
        judge(g.end() - n, n, sd(), "ends at the guard page");
        judge(g.begin() + r.below(16), n, sd(), "inside");
        beat();
    }
    // heap buffers of the exact size: the address sanitizer sees any overread
    for(int j = 0; j < 40; ++j) { std::size_t n = r.below(130); std::unique_ptr<u8[]> b(new u8[n]); r.fill(b.get(), n); judge(b.get(), n, sd(), "heap"); }
    stats().sample(fmt("lengths %zu.., all 16 alignments, seeds %llx %llx", (std::size_t)((idx * 37) % 600), (unsigned long long)seeds[1], (unsigned long long)seeds[3]));
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
