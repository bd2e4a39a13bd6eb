// Recorded operations on one store and the exact check of their linearizability.
#pragma once
#include "dbgen.hpp"
namespace vf {
enum Out : u8 { ins_ok, ins_exists, got, absent, other };
struct Ev { u64 inv, ret; u32 key; Out out; u64 val; u16 thr; u8 phase; };

inline bytes value_of(u64 seed, u64 id) {
    Rng r(mix2(seed, id)); u64 n = 8 + (r.chance(1, 20) ? r.below(3000) : r.chance(1, 400) ? r.below(70000) : r.below(60));
    bytes v(n); r.fill(v.data(), n); std::memcpy(v.data(), &id, 8); return v;
}
inline std::atomic<u64> g_clk{1};
inline std::atomic<u32> g_phase{0};
inline u64 now_tick() { return g_clk.fetch_add(1, std::memory_order_relaxed); }

// Exact check: every key is a register written at most once, never reset
inline void judge(std::vector<Ev>& h, u64 nkeys, Cfg const& c) {
    (void)c;
    struct S { u64 si = 0, sr = 0, val = 0; bool has = false; u64 seen = ~0ull; u64 seen_by = 0; u64 absent = 0; u64 minpres = ~0ull; };
    std::vector<S> k(nkeys);
    for(auto& e : h) {
        auto& s = k[e.key];
        if(e.out == ins_ok) { CHECK(!s.has, "key %u: two inserts succeeded, [%llu,%llu] and [%llu,%llu]", e.key, (unsigned long long)s.si, (unsigned long long)s.sr, (unsigned long long)e.inv, (unsigned long long)e.ret); s.has = true; s.si = e.inv; s.sr = e.ret; s.val = e.val; }
    }
    u64 contended = 0, overlapping_absent = 0;
    for(auto& e : h) {
        auto& s = k[e.key];
        if(e.out == ins_exists || e.out == got) {
            CHECK(s.has, "key %u was never inserted, but %s", e.key, e.out == got ? "a fetch found it" : "an insert was refused as existing");
            CHECK(e.ret > s.si, "key %u: %s returned at %llu, before its only successful insert started at %llu", e.key, e.out == got ? "a fetch that found it" : "a refused insert", (unsigned long long)e.ret, (unsigned long long)s.si);
            if(e.out == got) CHECK(e.val == s.val, "key %u: fetch delivered value %llx, the successful insert stored %llx", e.key, (unsigned long long)e.val, (unsigned long long)s.val);
            if(e.inv < s.sr) ++contended;
        }
        if(e.out == ins_ok || e.out == ins_exists || e.out == got) if(e.ret < s.seen) { s.seen = e.ret; s.seen_by = e.out; }
        if(e.out == absent && e.inv > s.absent) s.absent = e.inv;
    }
    for(auto& e : h) if(e.out == absent) {
        auto& s = k[e.key];
        CHECK(!(s.seen < e.inv), "key %u: fetch [%llu,%llu] by thread %d missed it although %s had returned at %llu (commit phase %d)", e.key, (unsigned long long)e.inv, (unsigned long long)e.ret, e.thr, s.seen_by == ins_ok ? "its insert" : s.seen_by == got ? "another fetch that found it" : "an insert refused as existing", (unsigned long long)s.seen, e.phase);
        if(s.has && e.ret > s.si) ++overlapping_absent;
    }
    stats().add("operations_overlapping_the_insert_of_their_key", contended); stats().add("misses_overlapping_the_insert_of_their_key", overlapping_absent);
}

}
