// C22: memory held by an open store, measured at operator new.
#include "alloc.hpp"
#include "wl.hpp"
#include <time.h>
#include <sys/syscall.h>
using namespace vf;

// The monotonic clock can be advanced: the store tunes its allocations by time
static std::atomic<long> g_skew_ms{0};
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept {
    int r = (int)syscall(SYS_clock_gettime, c, t);
    if(!r && c == CLOCK_MONOTONIC) { long k = g_skew_ms; t->tv_sec += k / 1000; t->tv_nsec += (k % 1000) * 1000000; if(t->tv_nsec >= 1000000000) { t->tv_nsec -= 1000000000; ++t->tv_sec; } }
    return r;
}
static std::function<void()> g_hook;              // called inside a commit
static thread_local bool t_in = false;
struct mem_file : nudb::native_file {
    mem_file() = default; mem_file(mem_file&&) = default; mem_file& operator=(mem_file&&) = default;
    void write(u64 o, void const* b, std::size_t n, error_code& ec) { nudb::native_file::write(o, b, n, ec); if(g_hook && !t_in) { t_in = true; g_hook(); t_in = false; } }
    void sync(error_code&) {}
};
using store_t = nudb::basic_store<vhasher, mem_file>;

struct M {
    Cfg c; std::string d; std::unique_ptr<nudb::context> ctx; std::unique_ptr<store_t> s; bytes val; bytes key; u64 n = 0; Rng r; u64 vmax;
    u64 pend_keys = 0, pend_bytes = 0;      // in memory, not in a commit
    M(u64 seed, Cfg const& cc, std::string dir, u64 vm) : c(cc), d(dir), r(seed), vmax(vm) { val.resize(vmax); r.fill(val.data(), vmax); key.resize(c.key_size); }
    u64 vsize(u64 i) { u64 x = mix2(c.kseed, i); return 1 + (x % 50 == 0 ? (x >> 8) % vmax : (x >> 8) % std::min<u64>(vmax, 200)); }
    void set_key(u64 i) { Rng q(mix2(c.kseed, i)); q.fill(key.data(), key.size()); std::memcpy(key.data(), &i, std::min<std::size_t>(8, key.size())); }
    u64 insert() { u64 z = vsize(n); set_key(n); std::memcpy(val.data(), &n, std::min<u64>(8, z)); error_code ec; s->insert(key.data(), val.data(), z, ec); CHECK(!ec, "insert: %s", ec.message().c_str()); ++n; ++pend_keys; pend_bytes += z + c.key_size; return z + c.key_size; }
    void fetch(u64 i, bool there) { set_key(i); error_code ec; u64 got = 0; s->fetch(key.data(), [&](void const*, std::size_t z) { got = z; }, ec); if(there) CHECK(!ec && got == vsize(i), "fetch of key %llu: %s", (unsigned long long)i, ec.message().c_str()); else CHECK(ec == error::key_not_found, "fetch: %s", ec.message().c_str()); }
    std::string p(char const* x) { return d + x; }
    void create() { error_code ec; nudb::create<vhasher, mem_file>(p("db.dat"), p("db.key"), p("db.log"), c.appnum, c.uid, c.salt, c.key_size, c.block_size, c.lf, ec); CHECK(!ec, "create: %s", ec.message().c_str()); }
    void open() { s.reset(new store_t(*ctx)); error_code ec; s->open(p("db.dat"), p("db.key"), p("db.log"), ec); CHECK(!ec, "open: %s", ec.message().c_str()); s->set_burst(std::size_t(1) << 40); }
    void close() { error_code ec; s->close(ec); CHECK(!ec, "close: %s", ec.message().c_str()); pend_keys = pend_bytes = 0; }
    void flush() { ctx->flush(); }
};
static const long OVER = 320;       // per uncommitted key: index node and allocation overhead
static void one(u64 seed, u64 idx) {
    u64 n_uncommitted_data_measured = 0, n_fetches_measured = 0, n_refused_inserts_measured = 0, n_commits_measured = 0, n_commits_with_inserts_meanwhile = 0, n_idle_periods = 0, n_sessions = 0;
    struct Sk { ~Sk() { g_skew_ms = 0; } } sk;
    Rng r(seed); Cfg c; c.key_size = r.pick({8, 16, 20, 32, 64, 300}); c.block_size = r.pick({128, 256, 512, 1024, 4096}); c.lf = r.pick({0.5f, 0.5f, 0.25f, 0.9f}); c.kseed = r.next(); c.salt = r.next(); c.uid = r.next(); hash_kind() = 0;
    std::string d = scratch_dir(); for(auto n : {"db.dat", "db.key", "db.log"}) rm_file(d + n);
    u64 vmax = r.pick({16, 500, 5000, 60000, 300000}); M m(seed, c, d, vmax); m.ctx.reset(new nudb::context); m.create();
    current().set(fmt("case=%llu %s vmax=%llu", (unsigned long long)idx, c.str().c_str(), (unsigned long long)vmax)); 
    std::string note = current().get();
    auto live = [] { return Alloc::live().load(); };
    long outside = live();                    // no store
    u64 sessions = r.range(2, 6), total_commits = 0, bursts = 0; long open_base = -1; u64 tuned = 0; long base_peak = 0, comm_peak = 0;
    for(u64 k = 0; k < sessions; ++k) {
        long before = live(); CHECK(before - outside < 512, "%ld bytes held after close (session %llu, %llu keys stored)", before - outside, (unsigned long long)k, (unsigned long long)m.n);
        m.open(); long base = live() - before; beat();
        if(open_base < 0) { open_base = base; CHECK(base < 300000, "a freshly opened store holds %ld bytes", base); }
        else CHECK(base <= open_base + 512, "opening a store with %llu keys takes %ld bytes, with none it took %ld", (unsigned long long)m.n, base, open_base);
        tuned = 0; u64 commits = r.range(5, 40), last_keys = 0;
        for(u64 j = 0; j < commits; ++j) {
            bool burst = r.chance(1, 8); u64 cnt = burst ? r.range(500, 3000) : 1 + r.skew(120); if(vmax > 10000) cnt = std::min<u64>(cnt, 600); if(c.block_size >= 4096) cnt = std::min<u64>(cnt, 800); bursts += burst;
            u64 budget = 3u << 20;
            while(cnt-- && m.pend_bytes < budget) {
                m.insert();
                if(r.chance(1, 16)) { long l = live() - before - base, lim = (long)(2 * m.pend_bytes + OVER * m.pend_keys + 2 * tuned + 24 * last_keys + 12288); CHECK(l <= lim, "%llu uncommitted keys with %llu bytes take %ld bytes, limit %ld (%llu keys stored)", (unsigned long long)m.pend_keys, (unsigned long long)m.pend_bytes, l, lim, (unsigned long long)m.n); n_uncommitted_data_measured += 1; }
            }
            // fetches leave nothing behind
            if(r.chance(1, 2)) { long l0 = live(); Alloc::reset(); for(int x = 0; x < 20; ++x) { m.fetch(r.below(m.n), true); m.fetch(m.n + 100000 + x, false); } CHECK(live() == l0, "40 fetches left %ld bytes", live() - l0); long pk = Alloc::peak() - l0, lim = (long)(4 * c.block_size + 2 * (vmax + c.key_size) + 4096); CHECK(pk <= lim, "fetch used %ld bytes, limit %ld", pk, lim); n_fetches_measured += 40; }
            // refused inserts leave nothing behind
            if(r.chance(1, 3) && m.n) { long l0 = live(); for(int x = 0; x < 10; ++x) { m.set_key(r.below(m.n)); error_code ec; m.s->insert(m.key.data(), m.val.data(), 1 + r.below(vmax), ec); CHECK(ec == error::key_exists, "insert of an existing key: %s", ec.message().c_str()); } CHECK(live() == l0, "10 refused inserts left %ld bytes", live() - l0); n_refused_inserts_measured += 10; }
            // commit, sometimes with inserts while it runs, sometimes an idle period
            u64 keys = m.pend_keys, data = m.pend_bytes; m.pend_keys = m.pend_bytes = 0; u64 during = 0;
            if(r.chance(1, 4)) { u64 left = 1 + r.skew(burst ? 400 : 40); g_hook = [&m, &during, left] { if(during < left) { m.insert(); ++during; } }; }
            long l0 = live(); struct stat k0, k1; stat((d + "db.key").c_str(), &k0); Alloc::reset();
            g_skew_ms += r.pick({10, 400, 1000, 1000, 3000});
            m.flush(); g_hook = nullptr; ++total_commits; beat();
            stat((d + "db.key").c_str(), &k1); u64 splits = (k1.st_size - k0.st_size) / c.block_size; last_keys = keys + 2 * splits;
            long pk = Alloc::peak() - l0, touched = (long)(keys + 2 * splits + 2);
            long lim = 700000 + 3 * (long)vmax + 5 * touched * (long)(c.block_size + 64) + (long)(2 * m.pend_bytes + OVER * m.pend_keys + 2 * tuned);
            CHECK(pk <= lim, "commit of %llu keys with %llu bytes and %llu splits used %ld more bytes, limit %ld (%llu keys stored, %llu commits done)", (unsigned long long)keys, (unsigned long long)data, (unsigned long long)splits, pk, lim, (unsigned long long)m.n, (unsigned long long)total_commits);
            comm_peak = std::max(comm_peak, pk); 
            long rest = live() - before - base, lim2 = (long)(2 * m.pend_bytes + OVER * m.pend_keys + 2 * tuned + 24 * last_keys + 12288);
            CHECK(rest <= lim2, "after a commit of %llu keys %ld bytes are held beyond those of an idle store, limit %ld (%llu uncommitted keys, %llu keys stored, %llu commits done)", (unsigned long long)keys, rest, lim2, (unsigned long long)m.pend_keys, (unsigned long long)m.n, (unsigned long long)total_commits);
            base_peak = std::max(base_peak, rest);
            tuned = std::max<u64>(tuned, 2 * (m.pend_bytes + 32 * m.pend_keys));     // block size chosen from what was inserted during the commit
            n_commits_measured += 1; if(during) n_commits_with_inserts_meanwhile += 1;
            if(r.chance(1, 10)) {              // an idle minute, then one key
                for(int x = 0; x < 60; ++x) { g_skew_ms += 1000; m.flush(); }
                long i0 = live() - before - base; m.pend_keys = m.pend_bytes = 0;
                CHECK(i0 <= (long)(24 * last_keys + 64 * 1024), "%ld bytes held after a minute without inserts", i0);
                long l1 = live(); u64 z = m.insert(); long inc = live() - l1; CHECK(inc <= (long)(2 * z + 4096), "after an idle minute one key of %llu bytes takes %ld bytes", (unsigned long long)z, inc); tuned = 4096; n_idle_periods += 1;
            }
            if(m.n * (c.key_size + 100) > (40u << 20)) break;
        }
        if(r.chance(1, 4)) { m.s.reset(); m.pend_keys = m.pend_bytes = 0; } else { m.close(); 
            CHECK(live() - before < (long)sizeof(store_t) + 2048, "%ld bytes held by a closed store", live() - before); m.s.reset(); }
        CHECK(live() - before < 512, "%ld bytes not returned by a store after %llu commits", live() - before, (unsigned long long)total_commits);
        n_sessions += 1;
    }
    stats().eval(n_commits_measured); stats().add("uncommitted_data_measured", n_uncommitted_data_measured); stats().add("fetches_measured", n_fetches_measured); stats().add("refused_inserts_measured", n_refused_inserts_measured); stats().add("commits_measured", n_commits_measured); stats().add("commits_with_inserts_meanwhile", n_commits_with_inserts_meanwhile); stats().add("idle_periods", n_idle_periods); stats().add("sessions", n_sessions); stats().nontrivial(mix2(seed, m.n)); stats().add("bursts", bursts); stats().peak("keys", m.n); stats().peak("largest_commit_peak_bytes", comm_peak); stats().peak("largest_idle_bytes", base_peak);
    stats().sample(note + fmt(" keys=%llu commits=%llu open store %ld bytes, at most %ld more between commits, %ld more during one", (unsigned long long)m.n, (unsigned long long)total_commits, open_base, base_peak, comm_peak));
    m.ctx.reset(); for(auto n : {"db.dat", "db.key", "db.log"}) rm_file(d + n);
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
