// C01 linearizability of concurrent inserts and fetches; C02 races and memory errors under real threads.
#include "linjudge.hpp"
using namespace vf;

// Delays without synchronisation (nothing here may order the threads for the race detector)
static std::atomic<u32> g_delay{0};       // 0 none .. 3 heavy
static thread_local u64 t_rng = 0;
static inline u64 tr() { if(!t_rng) t_rng = mix((u64)(uintptr_t)&t_rng ^ (u64)clock()); t_rng += 0x9e3779b97f4a7c15ull; return mix(t_rng); }
static inline void jitter(unsigned w) {
    u32 lv = g_delay.load(std::memory_order_relaxed); if(!lv) return;
    u64 v = tr();
    if(v % 5 < lv) { if((v >> 8) % 3) std::this_thread::yield(); else if((v >> 16) % (lv == 3 ? 10 : 40) == 0) std::this_thread::sleep_for(std::chrono::microseconds((v >> 24) % (w * 60))); }
}
struct delay_file : nudb::native_file {
    delay_file() = default; delay_file(delay_file&&) = default; delay_file& operator=(delay_file&&) = default;
    void read(u64 o, void* b, std::size_t n, error_code& ec) { jitter(3); nudb::native_file::read(o, b, n, ec); jitter(1); }
    void write(u64 o, void const* b, std::size_t n, error_code& ec) { jitter(5); nudb::native_file::write(o, b, n, ec); jitter(2); }
    void sync(error_code& ec) { jitter(20); nudb::native_file::sync(ec); }
    void trunc(u64 n, error_code& ec) { jitter(3); nudb::native_file::trunc(n, ec); }
};
namespace vf { template<> struct Args<delay_file> {
    template<class S> static void open(S& s, std::string const& d, std::string const& k, std::string const& l, error_code& ec) { s.open(d, k, l, ec); }
    static void create(std::string const& d, std::string const& k, std::string const& l, Cfg const& c, error_code& ec) { nudb::create<vhasher, delay_file>(d, k, l, c.appnum, c.uid, c.salt, c.key_size, c.block_size, c.lf, ec); }
}; }

template<class File>
static void history(u64 seed, u64 idx, std::string const& base, bool sim_file) {
    Rng r(seed); Cfg c = gen_cfg(r); if(c.key_size > 100) c.key_size = r.range(4, 40); if(c.key_size < 2) c.key_size = 2;
    if(c.block_size > 600) c.block_size = r.range(104, 600);
    if(r.chance(1, 2)) c.block_size = r.range(104, 160);
    hash_kind() = c.kind;
    unsigned T = (unsigned)r.range(2, 7); u64 nkeys = r.pick({1, 3, 10, 40, 120, 400}); u64 per = r.range(40, 300);
    if(c.kind == 1 || c.kind == 5 || c.kind == 6) { nkeys = std::min<u64>(nkeys, 60); }
    u64 mixw = r.pick({20, 50, 80}); g_delay = (u32)r.below(4); unsigned sessions = (unsigned)r.range(1, 2);
    bool ordered = r.chance(1, 2);     // threads chase the same front of keys
    current().set(fmt("case=%llu %s threads=%u keys=%llu per=%llu delay=%u", (unsigned long long)idx, c.str().c_str(), T, (unsigned long long)nkeys, (unsigned long long)per, g_delay.load()));
    Session<File> ss(c, base); ss.create();
    std::vector<Ev> all; std::atomic<u64> commits{0};
    g_clk = 1; g_phase = 0;
    std::vector<std::string> bad(T); 
    for(unsigned sn = 0; sn < sessions; ++sn) {
        ss.open(); if(r.chance(1, 20)) ss.s->set_burst(r.below(3000));
        std::vector<std::vector<Ev>> ev(T); std::atomic<int> live{(int)T}; std::atomic<bool> go{false};
        std::vector<std::thread> th;
        u64 kbase = (u64)(sn * 7919);
        for(unsigned t = 0; t < T; ++t) th.emplace_back([&, t] {
            Rng q(mix2(mix2(seed, sn), t)); t_rng = q.next() | 1; ev[t].reserve(per);
            std::vector<std::string> kk(nkeys); for(u64 i = 0; i < nkeys; ++i) kk[i] = make_key(c, i);
            while(!go.load(std::memory_order_acquire)) std::this_thread::yield();
            for(u64 i = 0; i < per && bad[t].empty(); ++i) {
                Ev e{}; e.thr = (u16)t;
                e.key = ordered ? (u32)std::min<u64>(nkeys - 1, (i * nkeys / per) + q.below(4)) : (u32)q.below(nkeys); (void)kbase;
                KeyBuf k(kk[e.key]); error_code ec;
                jitter(1);
                if(q.below(100) < mixw) {
                    u64 id = ((u64)sn << 56) | ((u64)(t + 1) << 40) | i; bytes v = value_of(seed, id); e.val = id;
                    e.inv = now_tick(); ss.s->insert(k, v.data(), v.size(), ec); e.ret = now_tick();
                    std::memset(v.data(), 0xdd, v.size());      // the store must have copied it
                    if(!ec) e.out = ins_ok; else if(ec == error::key_exists) e.out = ins_exists; else bad[t] = fmt("insert of key %u: %s", e.key, ec.message().c_str());
                } else {
                    int calls = 0; bytes v; 
                    e.phase = (u8)g_phase.load(std::memory_order_relaxed);
                    e.inv = now_tick(); ss.s->fetch(k, [&](void const* p, std::size_t n) { ++calls; jitter(1); v.assign((u8 const*)p, (u8 const*)p + n); jitter(1); }, ec); e.ret = now_tick();
                    if(!ec) {
                        e.out = got; if(calls != 1 || v.size() < 8) { bad[t] = fmt("fetch of key %u: %d callbacks, %zu bytes", e.key, calls, v.size()); break; }
                        std::memcpy(&e.val, v.data(), 8); if(value_of(seed, e.val) != v) bad[t] = fmt("fetch of key %u delivered bytes that nobody inserted: %s", e.key, hex(v.data(), v.size()).c_str());
                    } else if(ec == error::key_not_found) { e.out = absent; if(calls) bad[t] = "callback although not found"; }
                    else bad[t] = fmt("fetch of key %u: %s", e.key, ec.message().c_str());
                }
                ev[t].push_back(e);
                if((i & 31) == 0) beat();
            }
            live.fetch_sub(1, std::memory_order_release);
        });
        t_rng = r.next() | 1; u64 pace = r.pick({0, 50, 300, 2000});
        go.store(true, std::memory_order_release);
        while(live.load(std::memory_order_acquire) > 0) { ss.ctx.flush(); ++commits; beat(); if(pace) std::this_thread::sleep_for(std::chrono::microseconds(tr() % pace)); else std::this_thread::yield(); }
        for(auto& t : th) t.join();
        for(auto& b : bad) CHECK(b.empty(), "%s", b.c_str());
        for(auto& v : ev) all.insert(all.end(), v.begin(), v.end());
        // afterwards everything inserted is there, and again after reopening
        auto sweep = [&] { for(u64 i = 0; i < nkeys; ++i) { Ev e{}; e.key = (u32)i; e.thr = 99; KeyBuf k(make_key(c, i)); error_code ec; bytes v; e.inv = now_tick(); ss.s->fetch(k, [&](void const* p, std::size_t n) { v.assign((u8 const*)p, (u8 const*)p + n); }, ec); e.ret = now_tick(); if(!ec) { e.out = got; CHECK(v.size() >= 8, "short value"); std::memcpy(&e.val, v.data(), 8); CHECK(v == value_of(seed, e.val), "key %llu has a wrong value", (unsigned long long)i); } else { CHECK(ec == error::key_not_found, "fetch: %s", ec.message().c_str()); e.out = absent; } all.push_back(e); } };
        u32 d = g_delay.exchange(0); if(r.chance(1, 2)) sweep(); ss.s->set_burst(std::size_t(1) << 40); ss.close(); ss.open(); sweep(); ss.close(); g_delay = d;
    }
    judge(all, nkeys, c);
    // the files hold exactly the successful inserts
    sim::Blob D, K; if(sim_file) { auto im = sim::g()->image(); D = im[ss.dp]; K = im[ss.kp]; } else { get_file(ss.dp, D); get_file(ss.kp, K); }
    Db db = Db::parse(D, K); CHECK(db.valid(), "database after a concurrent history: %s", db.first().c_str());
    u64 ok = 0; for(auto& e : all) if(e.out == ins_ok) { ++ok; auto it = db.by_key.find(make_key(c, e.key)); CHECK(it != db.by_key.end() && db.value(db.recs[it->second]) == value_of(seed, e.val), "key %u is not in the files with its value", e.key); }
    CHECK(ok == db.recs.size(), "%llu inserts succeeded, the files hold %zu records", (unsigned long long)ok, db.recs.size());
    // what was observed
    std::sort(all.begin(), all.end(), [](Ev const& a, Ev const& b) { return a.inv < b.inv; });
    u64 sig = 1, switches = 0; u64 ph[8] = {0}; u16 last = 999; u64 cnt[5] = {0};
    for(auto& e : all) { if(e.thr != 99) { sig = mix2(sig, e.thr * 31 + e.out); switches += e.thr != last; last = e.thr; } ++cnt[e.out]; if(e.out == got || e.out == absent) ++ph[e.phase & 7]; }
    stats().eval(); stats().add("operations", all.size()); stats().add("commits_attempted", commits); stats().add("thread_switches_in_histories", switches);
    stats().add("inserts_ok", cnt[0]); stats().add("inserts_refused", cnt[1]); stats().add("fetches_found", cnt[2]); stats().add("fetches_absent", cnt[3]);
    if(sim_file) { char const* n[] = {"no_commit", "log_header", "data_append", "data_appended_key_reads", "log_records", "key_writes", "sync_and_log_reset", "?"}; for(int i = 0; i < 7; ++i) stats().add(std::string("fetches_started_in_phase_") + n[i], ph[i]); }
    if(switches > 20) stats().nontrivial(sig);
    stats().peak("max_buckets", db.buckets);
    stats().sample(current().get() + fmt(" ops=%zu commits=%llu switches=%llu buckets=%llu spills=%zu", all.size(), (unsigned long long)commits.load(), (unsigned long long)switches, (unsigned long long)db.buckets, db.spills.size()));
}

static void one(u64 seed, u64 idx) {
    if(opt().mode == "race") {
        std::string d = scratch_dir(); for(auto n : {"db.dat", "db.key", "db.log"}) rm_file(d + n);
        history<delay_file>(seed, idx, d, false);
        return;
    }
    sim::Fs fs; sim::Use u(fs);
    auto main_id = std::this_thread::get_id(); int ph = 0;
    fs.pause = [&](sim::Op const& o) {
        if(std::this_thread::get_id() == main_id) {     // the committing thread
            bool lg = o.path.size() > 4 && o.path.compare(o.path.size() - 4, 4, ".log") == 0, dt = o.path.compare(o.path.size() - 4, 4, ".dat") == 0, key = !lg && !dt;
            if(o.k == sim::K::write && lg) ph = ph >= 2 ? 4 : 1; else if(o.k == sim::K::write && dt) ph = 2; else if(o.k == sim::K::read && key) ph = 3; else if(o.k == sim::K::write && key) ph = 5; else if(o.k == sim::K::trunc) ph = 0; else if(o.k == sim::K::sync && key) ph = 6;
            g_phase.store((u32)ph, std::memory_order_relaxed);
            jitter(15);
        } else jitter(6);
    };
    history<sim::file>(seed, idx, "v:/", true);
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
