// C27: writers are slowed when, and only when, they outrun the commits.
// Commits of a store on a slow file (each operation of the committing thread takes time in
// proportion to its bytes) measure the commit rate; producers then insert as fast as they can.
#include "wl.hpp"
#include <sys/resource.h>
using namespace vf;
using clk = std::chrono::steady_clock;
static double secs(clk::time_point a, clk::time_point b) { return std::chrono::duration<double>(b - a).count(); }
static long switches() { struct rusage u; getrusage(RUSAGE_THREAD, &u); return u.ru_nvcsw; }      // times this thread waited of its own accord
static thread_local bool t_commit = false;

struct Flow {
    Rng r; Cfg c; sim::Fs fs; sim::Use use{fs}; std::unique_ptr<Session<sim::file>> ss; double R = 0; u64 next = 0, burst = 0;
    double rate = 0;                          // upper bound of the commit rate the library knows
    clk::time_point last;                     // begin of the last flush
    double rate_min = 0;                      // lower bound of the rate of the last commit above the burst size
    explicit Flow(u64 seed) : r(seed) {}
    nudb::basic_store<vhasher, sim::file>& st() { return *ss->s; }
    u64 est(u64 n, u64 bytes) { return bytes + 3 * n * c.block_size; }     // what the library may count for n inserts
    bool insert(u64 vs) { KeyBuf k(make_key(c, next)); bytes v(vs); v[0] = (u8)next; v[vs - 1] = 7; error_code ec; st().insert(k, v.data(), vs, ec); CHECK(!ec, "insert: %s", ec.message().c_str()); ++next; return true; }
    void start() {
        c.key_size = r.range(8, 40); c.keymode = 0; c.kind = 0; c.block_size = r.range(104, 1024); c.lf = 0.5f; hash_kind() = 0;
        R = r.pick({1.0e6, 2.0e6, 4.0e6});
        fs.pause = [this](sim::Op const& o) { if(t_commit && o.k == sim::K::write && R > 0) std::this_thread::sleep_for(std::chrono::microseconds((long)(o.len / R * 1e6))); };
        ss.reset(new Session<sim::file>(c, "v:/")); ss->create(); ss->open(); 
    }
    // a commit in this thread; returns its duration
    double commit(u64 n, u64 bytes) { t_commit = true; auto a = clk::now(); ss->ctx.flush(); auto b = clk::now(); t_commit = false; beat();
        double T = std::max(1e-6, secs(a, b)), x = est(n, bytes) / T; if(bytes > burst) { rate = x; rate_min = bytes / T; } else if(est(n, bytes) > burst) { rate = std::max(rate, x); rate_min = std::min(rate_min, bytes / T); }
        return T; }
    // shows the library the commit rate
    double calibrate(u64 vs) { u64 n = 0, b = 0; set(std::size_t(1) << 40); u64 want = r.range(2 * burst + 50000, 3 * burst + 100000); while(b < want) { insert(vs); ++n; b += vs; } set(burst); double T = commit(n, b); stats().peak("slowest_calibration_ms", (u64)(T * 1000)); return T; }
    void set(std::size_t b) { st().set_burst(b); }
    // n inserts of vs bytes; how many of them waited, and for how long altogether
    struct W { u64 waited = 0, slow = 0; double t = 0; };
    W timed(u64 n, u64 vs) { W w; for(u64 i = 0; i < n; ++i) { beat(); auto a = clk::now(); long s = switches(); insert(vs); long e = switches(); double d = secs(a, clk::now()); if(d > 0.003) { ++w.slow; if(e != s) { ++w.waited; w.t += d; } } } return w; }
};

// Producers at full speed against a slow committer: what waits for commit stays bounded
static void overload(u64 seed, u64 idx) {
    Flow f(seed); f.start(); Rng& r = f.r;
    u64 vs = r.range(200, 20000); f.burst = r.pick<u64>({30000, 60000, 120000, 200000}); unsigned N = (unsigned)r.range(1, 3);
    current().set(fmt("case=%llu overload: %s burst=%llu value=%llu threads=%u rate=%.0f", (unsigned long long)idx, f.c.str().c_str(), (unsigned long long)f.burst, (unsigned long long)vs, N, f.R));
    f.calibrate(vs);
    std::atomic<u64> ins{0}, mark{0}; std::atomic<u64> began; auto t0 = clk::now(); auto us = [&] { return (u64)(secs(t0, clk::now()) * 1e6); }; began = us();
    std::atomic<bool> stop{false}; std::atomic<u64> nx{f.next}, peak{0}; std::mutex bm; std::string bad; std::atomic<double> rate{f.rate};
    std::vector<std::thread> th;
    for(unsigned t = 0; t < N; ++t) th.emplace_back([&] {
        try { while(!stop) {
            u64 i = nx++; KeyBuf k(make_key(f.c, i)); bytes v(vs, (u8)i); error_code ec; f.st().insert(k, v.data(), vs, ec); beat();
            if(ec) { std::lock_guard<std::mutex> l(bm); bad = "insert: " + ec.message(); stop = true; }
            u64 b = ins += vs, m = mark.load(), a = began.load(); u64 now = us(); if(mark.load() != m || b < m) continue;
            u64 waiting = b - m; u64 p = peak.load(); while(waiting > p && !peak.compare_exchange_weak(p, waiting)) {}
            double allowed = 1e6 + 2.0 * f.burst + (N + 1) * vs + 4 * rate.load() * (now > a ? (now - a) * 1e-6 : 0);
            if(waiting > allowed) { std::lock_guard<std::mutex> l(bm); if(bad.empty()) bad = fmt("%llu bytes are waiting to be committed %llu us after the last commit began; the burst size is %llu and commits write %.0f bytes per second: inserts are not throttled", (unsigned long long)waiting, (unsigned long long)(now - a), (unsigned long long)f.burst, rate.load()); stop = true; }
        } } catch(std::exception& e) { std::lock_guard<std::mutex> l(bm); if(bad.empty()) bad = e.what(); stop = true; }
    });
    u64 cycles = r.range(3, 6), prev = 0; 
    for(u64 i = 0; i < cycles && !stop; ++i) {
        std::this_thread::sleep_for(std::chrono::milliseconds(r.below(60)));
        u64 a = us(), m = ins.load(); began = a; mark = m; u64 b = m - prev; prev = m;
        t_commit = true; f.ss->ctx.flush(); t_commit = false; beat();
        double T = (us() - a + 1) * 1e-6, x = f.est(b / vs + N, b + N * vs) / T; if(b > f.burst / 4) rate = std::max(rate.load(), x);
        stats().add("commits_under_load");
    }
    stop = true; for(auto& t : th) t.join();
    CHECK(bad.empty(), "%s", bad.c_str());
    error_code ec; f.st().close(ec); CHECK(!ec, "close: %s", ec.message().c_str());
    stats().add("bytes_offered", ins); stats().peak("peak_waiting_bytes", peak); stats().add("overload_runs"); stats().eval(); stats().nontrivial(mix2(seed, 1));
    stats().sample(fmt("overload: burst %llu, value %llu, %u threads, at most %llu bytes waiting", (unsigned long long)f.burst, (unsigned long long)vs, N, (unsigned long long)peak.load()));
}

// Phases of one thread, each with a definite expectation
static void phases(u64 seed, u64 idx) {
    Flow f(seed); f.start(); Rng& r = f.r;
    u64 vs = r.range(500, 6000); f.burst = r.range(20, 60) * (vs + 4 * f.c.block_size);
    current().set(fmt("case=%llu phases: %s burst=%llu value=%llu rate=%.0f", (unsigned long long)idx, f.c.str().c_str(), (unsigned long long)f.burst, (unsigned long long)vs, f.R));
    auto quiet = [&](char const* why, u64 n, u64 size) { auto w = f.timed(n, size); stats().add("inserts_expected_quick", n); stats().add("inserts_that_waited_unexpectedly", w.waited);
        CHECK(w.waited < 3 || w.t < 0.03, "%llu of %llu inserts were delayed (%.3f s together) although %s", (unsigned long long)w.waited, (unsigned long long)n, w.t, why); stats().eval(); stats().add(fmt("phase: %s", why)); };
    // before a commit beyond the burst size nothing is known about the rate, however slow smaller ones are
    { double R0 = f.R; f.R = r.pick({1.0e5, 3.0e5}); f.set(f.burst); u64 k = std::min<u64>(r.below(3), f.burst / 3 / (vs + 4 * f.c.block_size)); for(u64 i = 0; i < k; ++i) f.insert(vs); f.commit(k, k * vs); f.R = R0;
      quiet("no commit has been larger than the burst size", f.burst / vs + r.range(5, 30), vs); f.set(std::size_t(1) << 40); f.ss->ctx.flush(); }
    u64 rounds = r.range(1, 3);
    for(u64 rd = 0; rd < rounds; ++rd) {
        if(r.chance(1, 2)) {
            // the file has become slower: the last commit counts
            f.R = 0; f.calibrate(vs); f.R = 5e5; u64 n = 0, b = 0; f.calibrate(vs); f.last = clk::now(); f.ss->ctx.flush();
            f.set(std::size_t(1) << 40); while(b < f.burst + 4 * vs || b < 0.9 * f.rate) { f.insert(vs); ++n; b += vs; } f.set(f.burst);
            double now = secs(f.last, clk::now()), at = b / (9 * f.rate); if(now < at) std::this_thread::sleep_for(std::chrono::microseconds((long)((at - now) * 1e6)));
            u64 must = 0, did = 0; for(int i = 0; i < 3; ++i) { auto w = f.timed(1, vs); ++n; b += vs; if(b > 4 * f.rate * secs(f.last, clk::now())) { ++must; did += w.slow; } }
            stats().add("inserts_expected_delayed", must); stats().add("inserts_delayed", did); stats().eval(); stats().add("phase: slower than before");
            CHECK(did * 2 >= must, "%llu of %llu inserts were delayed although %llu bytes (burst size %llu) were inserted many times faster than the last commit wrote (%.0f bytes per second)", (unsigned long long)did, (unsigned long long)must, (unsigned long long)b, (unsigned long long)f.burst, f.rate);
            f.R = r.pick({1.0e6, 2.0e6, 4.0e6}); f.commit(n, b);
        }
        f.calibrate(vs); u64 n = 0, b = 0; f.last = clk::now(); f.ss->ctx.flush();       // nothing to commit: what follows is inserted within an instant
        // within the burst
        u64 k = std::max<u64>(6, f.burst / 2 / (vs + 4 * f.c.block_size)); if(f.est(k, k * vs) * 3 / 2 < f.burst) { quiet("less than the burst size is waiting", k, vs); n += k; b += k * vs; }
        // beyond it, as fast as possible
        u64 over = f.burst / vs + 2; f.set(std::size_t(1) << 40); for(u64 i = 0; i < over; ++i) { f.insert(vs); ++n; b += vs; } f.set(f.burst);
        u64 m = r.range(6, 10), must = 0, did = 0;
        for(u64 i = 0; i < m; ++i) {
            auto w = f.timed(1, vs); ++n; b += vs; double el = secs(f.last, clk::now());
            if(b > 4 * f.rate * el) { ++must; did += w.slow; }      // far above the rate of commits, above the burst size
        }
        stats().add("inserts_expected_delayed", must); stats().add("inserts_delayed", did); stats().eval();
        CHECK(did * 2 >= must, "%llu of %llu inserts were delayed although %llu bytes (burst size %llu) were inserted many times faster than commits write (%.0f bytes per second)", (unsigned long long)did, (unsigned long long)must, (unsigned long long)b, (unsigned long long)f.burst, f.rate);
        // the burst size is raised: no more waiting
        f.set(std::size_t(1) << 40); quiet("the burst size has been raised above what is waiting", 12, vs); n += 12; b += 12 * vs;
        f.commit(n, b); f.set(f.burst); f.ss->ctx.flush();
        quiet("everything has just been committed", 6, vs); f.commit(6, 6 * vs); 
        // slower than the commits, with hardly any burst
        f.burst = 1; f.set(1); f.calibrate(vs); double R = f.rate_min, T = 0.25 + 0.1 * r.unit(); u64 q = (u64)(0.25 * R * T / (vs + 3 * f.c.block_size)); q = std::min<u64>(q, 60);
        std::this_thread::sleep_for(std::chrono::microseconds((long)(T * 1e6)));
        if(q >= 6) { quiet("inserts are slower than the commits", q, vs); f.commit(q, q * vs); }
        f.burst = r.range(20, 60) * (vs + 4 * f.c.block_size); f.set(f.burst);
    }
    error_code ec; f.st().close(ec); CHECK(!ec, "close: %s", ec.message().c_str());
    stats().nontrivial(mix2(seed, 2)); stats().add("phase_runs");
}
// A store that has not committed yet, and one whose commits are fast, are not throttled within the default burst
static void fresh(u64 seed, u64 idx) {
    Flow f(seed); f.start(); Rng& r = f.r; u64 vs = r.range(100, 3000), n = 0;
    current().set(fmt("case=%llu fresh: %s value=%llu", (unsigned long long)idx, f.c.str().c_str(), (unsigned long long)vs));
    u64 total = r.range(20, 200); total = std::min<u64>(total, (3u << 20) / (vs + 4 * f.c.block_size));      // the default burst size is 4 MB
    for(u64 rd = 0; rd < 3; ++rd) { auto w = f.timed(total, vs); n += total; stats().add("inserts_expected_quick", total);
        CHECK(w.waited < 3 || w.t < 0.03, "%llu of %llu inserts were delayed (%.3f s together) within the default burst size", (unsigned long long)w.waited, (unsigned long long)total, w.t); f.commit(total, total * vs); stats().eval(); }
    error_code ec; f.st().close(ec); CHECK(!ec, "close: %s", ec.message().c_str()); stats().add("fresh_runs"); stats().nontrivial(mix2(seed, 3));
}
static void one(u64 seed, u64 idx) { if(idx % 3 == 0) overload(seed, idx); else if(idx % 3 == 1) phases(seed, idx); else fresh(seed, idx); }
int main(int argc, char** argv) { return run_main(argc, argv, one); }
