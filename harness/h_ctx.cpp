// C18: the context flushes every open store, never touches a closed one, and obeys stop.
// h_ctxfast.cpp compiles this file with the context's one second tick scaled to VF_TICK_MS.
#include "common.hpp"
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <boost/thread.hpp>
#ifdef VF_TICK_MS
namespace std { namespace chrono { using vf_seconds = duration<long long, ratio<VF_TICK_MS, 1000>>; } }
#define seconds vf_seconds
#include <nudb/context.hpp>
#undef seconds
#else
#include <nudb/context.hpp>
#endif
#include "dbgen.hpp"
#include <sys/syscall.h>
using namespace vf;
using clk = std::chrono::steady_clock;
static double since(clk::time_point t) { return std::chrono::duration<double>(clk::now() - t).count(); }

struct Scene;
struct Rec_ {                       // what the monitor knows about one store
    Scene* sc; std::string base;
    std::atomic<int> open{0};       // 1 from before open() until close() has returned
    std::atomic<u64> base_commits{0}, ctx_ops{0}, ctx_begin{0}, ctx_commits{0};
    std::atomic<int> delay_us{0};
    std::atomic<bool> in_commit{false};
    Rec_(Scene* s, std::string b) : sc(s), base(std::move(b)) {}
};
struct Scene { std::atomic<bool> stopped{true}; std::atomic<bool> certainly_running{false}; std::string name; };
static std::mutex bad_m; static std::string bad; 
static void set_bad(std::string const& s) { std::lock_guard<std::mutex> l(bad_m); if(bad.empty()) bad = s; }
static std::string get_bad() { std::lock_guard<std::mutex> l(bad_m); return bad; }
static thread_local int t_driver = 0;            // thread of the test, not of a context
static thread_local bool t_in_flush = false;     // inside an explicit flush()
static std::mutex reg_m; static std::map<std::string, Rec_*> reg;   // by base path
static Rec_* find_rec(std::string const& path) { std::lock_guard<std::mutex> l(reg_m); auto it = reg.find(path.substr(0, path.rfind('/') + 1)); return it == reg.end() ? nullptr : it->second; }
static bool ends(std::string const& p, char const* e) { std::size_t n = strlen(e); return p.size() >= n && p.compare(p.size() - n, n, e) == 0; }

static void on_op(sim::K k, std::string const& path) {
    Rec_* q = find_rec(path); if(!q) return;
    if(!q->open) set_bad(fmt("%s of %s by %s after close had returned", sim::kname(k), path.c_str(), t_driver ? "a caller" : "the context"));
    if(!t_driver) {
        ++q->ctx_ops; 
        if(q->sc->stopped) set_bad(fmt("the context did %s on %s after stop_all had returned", sim::kname(k), path.c_str()));
        if(ends(path, ".log") && k == sim::K::write && !q->in_commit) { q->in_commit = true; ++q->ctx_begin; }
        if(ends(path, ".log") && k == sim::K::trunc) { q->in_commit = false; ++q->ctx_commits; }
    } else if(t_in_flush && q->sc->certainly_running) set_bad(fmt("flush() did %s on %s although the context is running", sim::kname(k), path.c_str()));
    int d = q->delay_us; if(d) std::this_thread::sleep_for(std::chrono::microseconds(d));
}

static thread_local u64 t_jit = 0;
struct rt_file : nudb::native_file {              // real files, for the sanitizers
    rt_file() = default; rt_file(rt_file&&) = default; rt_file& operator=(rt_file&&) = default;
    void write(u64 o, void const* b, std::size_t n, error_code& ec) { jit(); nudb::native_file::write(o, b, n, ec); jit(); }
    void sync(error_code& ec) { jit(); nudb::native_file::sync(ec); }
    static void jit() { u64& s = t_jit; if(!s) s = mix((u64)(uintptr_t)&s ^ (u64)clock()); s = mix(s); if(s % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds((s >> 8) % 500)); else if(s % 3 == 0) std::this_thread::yield(); }
};
namespace vf { template<> struct Args<rt_file> {
    template<class S> static void open(S& s, std::string const& d, std::string const& k, std::string const& l, error_code& ec) { s.open(d, k, l, ec); }
    static void create(std::string const& d, std::string const& k, std::string const& l, Cfg const& c, error_code& ec) { nudb::create<vhasher, rt_file>(d, k, l, c.appnum, c.uid, c.salt, c.key_size, c.block_size, c.lf, ec); }
}; }

template<class File> struct St {
    Cfg c; std::string base; Rec_ rec; std::unique_ptr<nudb::basic_store<vhasher, File>> s; u64 n = 0; bool own = false;
    St(Scene* sc, std::string b, Rng& r) : base(b), rec(sc, b) {
        c.key_size = r.range(4, 40); c.block_size = r.pick({128, 256, 1024, 4096}); c.kseed = r.next(); c.salt = r.next(); c.uid = r.next(); c.appnum = r.next(); c.keymode = 0; c.valmode = (int)r.below(2); c.lf = 0.5f;
        { std::lock_guard<std::mutex> l(reg_m); reg[base] = &rec; }
        rec.open = 1; error_code ec; Args<File>::create(base + "db.dat", base + "db.key", base + "db.log", c, ec); rec.open = 0; CHECK(!ec, "create: %s", ec.message().c_str());
    }
    ~St() { rec.open = 1; s.reset(); std::lock_guard<std::mutex> l(reg_m); reg.erase(base); }
    void open(nudb::context* ctx) {
        own = !ctx; rec.open = 1; 
        if(!s) s.reset(ctx ? new nudb::basic_store<vhasher, File>(*ctx) : new nudb::basic_store<vhasher, File>());
        error_code ec; Args<File>::open(*s, base + "db.dat", base + "db.key", base + "db.log", ec); CHECK(!ec, "open of %s: %s", base.c_str(), ec.message().c_str());
        s->set_burst(std::size_t(1) << 40);
    }
    void close() {
        error_code ec; s->close(ec); rec.open = 0; rec.in_commit = false;
        CHECK(!ec, "close of %s: %s", base.c_str(), ec.message().c_str());
        stored("after close", true);
    }
    void insert(u64 k) { for(u64 i = 0; i < k; ++i) { bytes v = make_value(c, n, 0); KeyBuf key(make_key(c, n)); error_code ec; s->insert(key, v.data(), v.size(), ec); CHECK(!ec, "insert: %s", ec.message().c_str()); ++n; } }
    void fetch(u64 i) { KeyBuf k(make_key(c, i)); error_code ec; bytes g; s->fetch(k, [&](void const* p, std::size_t z) { g.assign((u8 const*)p, (u8 const*)p + z); }, ec); if(i < n) CHECK(!ec && g == make_value(c, i, 0), "fetch of key %llu: %s", (unsigned long long)i, ec.message().c_str()); else CHECK(ec == error::key_not_found, "fetch of absent key: %s", ec.message().c_str()); }
    // 0: not all stored, 1: all of the first m keys stored and the log is empty
    bool stored_now(u64 m, sim::Blob& D, sim::Blob& K, bool& log_there, u64& log_size) {
        if(std::is_same<File, sim::file>::value) { auto fs = sim::g(); std::lock_guard<std::mutex> l(fs->m); auto d = fs->names.find(base + "db.dat"), k = fs->names.find(base + "db.key"), g = fs->names.find(base + "db.log"); HARNESS(d != fs->names.end() && k != fs->names.end(), "files"); D = d->second->b; K = k->second->b; log_there = g != fs->names.end(); log_size = log_there ? g->second->b.size() : 0; }
        else { sim::Blob L; log_there = get_file(base + "db.log", L); log_size = L.size(); HARNESS(get_file(base + "db.dat", D) && get_file(base + "db.key", K), "files"); }
        if(log_size) return false;
        Db db; db.d = Hdr{}; db.parse_dat(D);
        return db.dat_ok && db.recs.size() >= m;
    }
    bool stored_now(u64 m) { sim::Blob D, K; bool t; u64 z; return stored_now(m, D, K, t, z); }
    void stored(char const* when, bool closed) {
        sim::Blob D, K; bool t; u64 z; stored_now(n, D, K, t, z);
        Db db = Db::parse(D, K); CHECK(db.valid(), "%s %s: %s", base.c_str(), when, db.first().c_str());
        CHECK(db.recs.size() == n, "%s %s: %llu keys inserted, %zu in the files", base.c_str(), when, (unsigned long long)n, db.recs.size());
        for(u64 i = 0; i < n; ++i) { auto it = db.by_key.find(make_key(c, i)); CHECK(it != db.by_key.end() && db.value(db.recs[it->second]) == make_value(c, i, 0), "%s %s: key %llu missing or wrong", base.c_str(), when, (unsigned long long)i); }
        if(closed) CHECK(!t, "%s %s: log file left", base.c_str(), when); else CHECK(z == 0, "%s %s: log not empty", base.c_str(), when);
    }
};
#ifdef VF_TICK_MS
static const double tick = VF_TICK_MS / 1000.0;
#else
static const double tick = 1.0;
#endif

// Threads that call run()
struct Runners {
    nudb::context& ctx; std::vector<std::thread> th; std::vector<std::unique_ptr<std::atomic<long>>> tid;
    explicit Runners(nudb::context& c) : ctx(c) {}
    void add() {
        tid.emplace_back(new std::atomic<long>(0)); auto p = tid.back().get();
        th.emplace_back([this, p] { *p = syscall(SYS_gettid); ctx.run(); });
        // wait until it sleeps inside run() (or works there)
        int calm = 0; for(int i = 0; i < 2000 && calm < 4; ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); long t = *p; if(!t) continue; FILE* f = fopen(fmt("/proc/self/task/%ld/stat", t).c_str(), "r"); char b[300] = {0}; if(f) { if(fread(b, 1, 299, f)) {} fclose(f); } char* q = strrchr(b, ')'); if(q && q[1] && q[2] == 'S') ++calm; else calm = 0; }
    }
    void join() { for(auto& t : th) t.join(); th.clear(); tid.clear(); }
};

// Returns the time it took
template<class S> static double await(S& st, char const* what, double limit) {
    auto t0 = clk::now(); u64 m = st.n;
    while(!st.stored_now(m)) {
        auto b = get_bad(); CHECK(b.empty(), "%s", b.c_str());
        CHECK(since(t0) < limit, "%s: data inserted into %s was not committed within %.0f s by a running context (%s)", what, st.base.c_str(), limit, st.rec.sc->name.c_str());
        std::this_thread::sleep_for(std::chrono::milliseconds(tick < 0.5 ? 2 : 20)); beat();
    }
    return since(t0);
}

static double LIMIT = 30;
// One context with its stores and threads, driven through a random script
static void scene(u64 seed, std::string const& base, int steps) {
    t_driver = 1; Rng r(seed); Scene sc; std::vector<std::unique_ptr<St<sim::file>>> st;
    {
        nudb::context ctx; Runners run(ctx);
        struct Fin { nudb::context& c; Runners& r; Scene& s; std::vector<std::unique_ptr<St<sim::file>>>& st; ~Fin() { c.stop_all(); r.join(); s.stopped = false; for(auto& p : st) { p->rec.open = 1; p->s.reset(); } } } fin{ctx, run, sc, st};
        u64 ns = r.range(1, 6); for(u64 i = 0; i < ns; ++i) st.emplace_back(new St<sim::file>(&sc, fmt("%s/%llu/", base.c_str(), (unsigned long long)i), r));
        auto start = [&] {
            for(auto& p : st) p->rec.base_commits = p->rec.ctx_commits.load();
            sc.stopped = false; unsigned n = (unsigned)r.below(4); bool own = n == 0 || r.chance(1, 2); bool own_first = r.chance(1, 2);
            if(own && own_first) ctx.start();
            for(unsigned i = 0; i < n; ++i) run.add();
            if(own && !own_first) ctx.start();
            if(r.chance(1, 4)) ctx.start();     // a second start changes nothing
            sc.name = fmt("%zu stores, %u calls of run, start()=%d", st.size(), n, own);
            stats().add(fmt("contexts_with_%u_threads", n + own));
        };
        auto stop = [&] { ctx.stop_all(); sc.stopped = true; sc.certainly_running = false; run.join(); stats().add("stops"); };
        auto any_open = [&] { for(auto& p : st) if(p->rec.open) return true; return false; };
        auto settle = [&](char const* w) {     // all stores get committed
            for(auto& p : st) if(p->rec.open) { double t = await(*p, w, LIMIT); stats().add("commits_awaited"); stats().peak(fmt("slowest_commit_ms"), (u64)(t * 1000)); if(p->rec.ctx_commits > p->rec.base_commits) sc.certainly_running = true; }
        };
        for(auto& p : st) if(r.chance(2, 3)) p->open(&ctx);
        bool running = false;
        if(r.chance(3, 4)) { start(); running = true; }
        for(int k = 0; k < steps; ++k) {
            current().set(fmt("scene %s step %d: %s", base.c_str(), k, sc.name.c_str()));
            { auto b = get_bad(); CHECK(b.empty(), "%s (%s)", b.c_str(), sc.name.c_str()); }
            for(auto& p : st) if(p->rec.open && r.chance(2, 3)) { p->insert(1 + r.skew(60)); if(p->n) p->fetch(r.below(p->n + 3)); }
            stats().eval(); stats().nontrivial(mix2(seed, k));
            switch(r.below(7)) {
            case 0: { auto& p = *st[r.below(st.size())]; if(p.rec.open) { p.close(); stats().add("closes"); } else p.open(&ctx); break; }
            case 1: if(running) {      // close while the context works on the store
                auto& p = *st[r.below(st.size())]; if(!p.rec.open) p.open(&ctx);
                p.rec.delay_us = (int)r.pick({500, 3000, 10000}); u64 b0 = p.rec.ctx_begin; p.insert(1 + r.below(10));
                if(r.chance(3, 4)) { auto t0 = clk::now(); while(p.rec.ctx_begin == b0 && !p.rec.in_commit) { CHECK(since(t0) < LIMIT, "the context did not begin to commit %s within %.0f s (%s)", p.base.c_str(), LIMIT, sc.name.c_str()); std::this_thread::sleep_for(std::chrono::microseconds(300)); } std::this_thread::sleep_for(std::chrono::microseconds(r.below(20000))); if(p.rec.in_commit) stats().add("closes_during_commit"); }
                p.close(); p.rec.delay_us = 0; if(r.chance(1, 2)) p.open(&ctx); stats().add("closes"); break;
            } /* fallthrough */
            case 2: if(running) {      // stop, perhaps during commits
                if(r.chance(1, 2)) for(auto& p : st) p->rec.delay_us = (int)r.pick({0, 1000, 4000});
                if(r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::duration<double>(tick * r.unit()));
                else { auto& p = *st[r.below(st.size())]; if(p.rec.open) { p.rec.delay_us = 4000; u64 b0 = p.rec.ctx_begin; p.insert(2); auto t0 = clk::now(); while(p.rec.ctx_begin == b0 && since(t0) < LIMIT) std::this_thread::sleep_for(std::chrono::microseconds(200)); } }
                u64 mid = 0; for(auto& p : st) mid += p->rec.in_commit;
                stop(); running = false; for(auto& p : st) p->rec.delay_us = 0; if(mid) stats().add("stops_during_commit");
                for(auto& p : st) CHECK(!p->rec.open || !p->rec.in_commit, "stop_all returned during a commit of %s", p->base.c_str());
                for(auto& p : st) if(p->rec.open) p->insert(1 + r.below(5));
                if(r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::duration<double>(tick * 1.3));     // the monitor reports what must not happen
                if(r.chance(1, 2)) { ctx.flush(); for(auto& p : st) if(p->rec.open) { p->stored("after an explicit flush of a stopped context", false); stats().add("explicit_flushes"); } }
                break;
            } else { start(); running = true; break; }
            case 3: if(!running) { ctx.flush(); for(auto& p : st) if(p->rec.open) { p->stored("after an explicit flush", false); stats().add("explicit_flushes"); } }
                else { if(any_open() && r.chance(1, 2)) { settle("before a flush"); for(auto& p : st) if(p->rec.open) p->insert(1 + r.below(5)); } t_in_flush = true; ctx.flush(); t_in_flush = false; if(sc.certainly_running) stats().add("ignored_flushes"); } break;
            case 4: if(running) {      // one slow store must not keep the others from being committed
                auto& p = *st[r.below(st.size())]; p.rec.delay_us = (int)r.pick({2000, 20000}); settle("with a slow store"); p.rec.delay_us = 0; break; }
            /* fallthrough */
            case 5: {                  // stores of other threads open and close meanwhile
                std::vector<std::thread> th; std::vector<std::string> err(st.size());
                for(std::size_t i = 0; i < st.size(); ++i) if(r.chance(1, 2)) { u64 q0 = r.next(); th.emplace_back([&, i, q0] { t_driver = 1; Rng q(q0); auto& p = *st[i]; try { for(int j = 0; j < 4; ++j) { if(p.rec.open) p.close(); else { p.open(&ctx); p.insert(1 + q.below(20)); if(q.chance(1, 2)) std::this_thread::sleep_for(std::chrono::duration<double>(q.unit() * tick * 0.7)); p.fetch(q.below(p.n)); } } } catch(std::exception& e) { err[i] = e.what(); } }); }
                for(auto& t : th) t.join(); for(auto& e : err) CHECK(e.empty(), "%s (%s)", e.c_str(), sc.name.c_str()); stats().add("concurrent_open_close"); break;
            }
            case 6: if(running && any_open()) settle("idle"); break;
            }
        }
        if(!running) { start(); running = true; }
        for(auto& p : st) { if(!p->rec.open) p->open(&ctx); p->insert(2); }
        settle("after a restart");
        if(r.chance(1, 2)) { stop(); running = false; }
        for(auto& p : st) p->close();
        std::this_thread::sleep_for(std::chrono::duration<double>(tick * 0.5));   // nothing may be touched now
        { auto b = get_bad(); CHECK(b.empty(), "%s (%s)", b.c_str(), sc.name.c_str()); }
        stats().sample(sc.name + fmt(", %llu keys in the first store, %llu commits by the context", (unsigned long long)st[0]->n, (unsigned long long)st[0]->rec.ctx_commits.load()));
        for(auto& p : st) stats().add("context_commits", p->rec.ctx_commits);
    }
}
// A default constructed store has a running context of its own
static void own_scene(u64 seed, std::string const& base, int steps) {
    t_driver = 1; Rng r(seed); Scene sc; sc.name = "default constructed store"; sc.stopped = false;
    St<sim::file> st(&sc, base + "/own/", r);
    for(int k = 0; k < steps; ++k) {
        st.open(nullptr); st.insert(1 + r.skew(50)); stats().eval(); stats().nontrivial(mix2(seed, 100 + k));
        if(r.chance(2, 3)) { await(st, "own context", LIMIT); stats().add("commits_awaited"); }
        st.fetch(r.below(st.n)); if(r.chance(1, 2)) { st.insert(3); std::this_thread::sleep_for(std::chrono::duration<double>(tick * r.unit() * 1.2)); }
        if(r.chance(1, 3)) { st.s.reset(); st.rec.open = 0; st.rec.in_commit = false; st.stored("after destruction", true); }
        else { st.close(); if(r.chance(1, 2)) st.s.reset(); }
        auto b = get_bad(); CHECK(b.empty(), "%s (%s)", b.c_str(), sc.name.c_str());
    }
}

// Many threads on one context, everything at random
template<class File>
static void stress(u64 seed, std::string const& base, double secs) {
    t_driver = 1; Rng r(seed); Scene sc; sc.stopped = false; sc.name = "stress";
    bool sim_ = std::is_same<File, sim::file>::value;
    u64 T = r.range(2, 5); std::vector<std::unique_ptr<St<File>>> st; std::vector<std::string> err(T);
    for(u64 i = 0; i < T; ++i) { std::string b = fmt("%s/s%llu/", base.c_str(), (unsigned long long)i); if(!sim_) mkdir(b.c_str(), 0755); st.emplace_back(new St<File>(&sc, b, r)); }
    {
        nudb::context ctx; Runners run(ctx);
        unsigned nrun = (unsigned)r.below(3); ctx.start(); for(unsigned i = 0; i < nrun; ++i) run.add();
        std::atomic<int> live{(int)T}; auto end = clk::now() + std::chrono::duration_cast<clk::duration>(std::chrono::duration<double>(secs)); std::vector<std::thread> th; bool abort_ = false;
        for(u64 i = 0; i < T; ++i) { u64 q0 = r.next(); th.emplace_back([&, i, q0] {
            t_driver = 1; Rng q(q0); auto& p = *st[i];
            try {
                while(clk::now() < end && p.n < 3000) {
                    beat();
                    p.open(&ctx); int ops = (int)q.below(12);
                    for(int j = 0; j < ops; ++j) {
                        p.insert(1 + q.skew(20)); for(int x = 0; x < 3; ++x) p.fetch(q.below(p.n + 2));
                        if(q.chance(1, 3)) std::this_thread::sleep_for(std::chrono::duration<double>(tick * q.unit()));
                        if(q.chance(1, 12)) { await(p, "stress", LIMIT); stats().add("commits_awaited"); }
                        if(sim_) { auto b = get_bad(); CHECK(b.empty(), "%s", b.c_str()); }
                    }
                    if(q.chance(1, 6)) { p.s.reset(); p.rec.open = 0; p.rec.in_commit = false; p.stored("after destruction", true); } else p.close();
                    stats().add("closes"); stats().eval(); stats().nontrivial(mix2(q0, p.n)); if(q.chance(1, 3)) p.s.reset();
                }
            } catch(std::exception& e) { err[i] = e.what(); abort_ = true; p.rec.open = 1; try { p.s.reset(); } catch(...) {} }
            --live;
        }); }
        // starts, stops and flushes at random
        while(live > 0) {
            std::this_thread::sleep_for(std::chrono::duration<double>(tick * r.unit() * 4));
            if(r.chance(1, 2)) { ctx.stop_all(); run.join(); stats().add("stops"); if(r.chance(1, 2)) { ctx.flush(); stats().add("explicit_flushes"); } ctx.start(); unsigned n = (unsigned)r.below(3); for(unsigned i = 0; i < n; ++i) run.add(); }
            else if(r.chance(1, 2)) ctx.flush();
        }
        for(auto& t : th) t.join(); (void)abort_;
        ctx.stop_all(); run.join();
    }
    for(auto& e : err) CHECK(e.empty(), "%s", e.c_str());
    if(sim_) { auto b = get_bad(); CHECK(b.empty(), "%s", b.c_str()); for(auto& p : st) stats().add("context_commits", p->rec.ctx_commits); }
    stats().sample(fmt("stress: %llu threads with a store each, %llu keys in the first", (unsigned long long)T, (unsigned long long)st[0]->n));
}

static void one(u64 seed, u64 idx) {
    std::string mode = opt().mode; { std::lock_guard<std::mutex> l(bad_m); bad.clear(); }
    int P = (int)opt().num("scenes", 8), steps = (int)opt().num("steps", 6); hash_kind() = 0;
    if(mode == "native") { std::string d = scratch_dir() + fmt("n%llu", (unsigned long long)idx); mkdir(d.c_str(), 0755); stress<rt_file>(seed, d, 0.5); std::string cmd = "rm -rf '" + d + "'"; if(system(cmd.c_str())) {} return; }
    sim::Fs fs; sim::Use u(fs);
    fs.after = [&](sim::Op const& o) { on_op(o.k, o.path); };
    std::vector<std::thread> th; std::vector<std::string> err(P);
    for(int i = 0; i < P; ++i) th.emplace_back([&, i] { try { std::string b = fmt("v:/%d", i); u64 s = mix2(seed, i); if(mode == "stress") stress<sim::file>(s, b, 0.5); else if(i % 8 == 7) own_scene(s, b, steps); else scene(s, b, steps); } catch(std::exception& e) { err[i] = e.what(); set_bad(e.what()); } });
    for(auto& t : th) t.join();
    for(auto& e : err) CHECK(e.empty(), "%s", e.c_str());
    auto b = get_bad(); CHECK(b.empty(), "%s", b.c_str());
    fs.after = nullptr;
}
int main(int argc, char** argv) { LIMIT = 30; return run_main(argc, argv, one, 60); }
