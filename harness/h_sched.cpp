// C01/C02 under the controlled scheduler: every lock, unlock, wait and file operation is a point
// where the schedule chooses who goes on, so windows of a few instructions are hit on purpose.
#include "sched.hpp"
#define VF_FS_QUIET sched::Quiet vf_fs_quiet;
#include "linjudge.hpp"
using namespace vf;
#define CHECK_IN(where, cond, what) do { if(!(cond) && (where).empty()) (where) = (what); } while(0)
static thread_local bool fetching = false, hit_fault = false; static u64 fault_ops = 0;
static char const* file_of(std::string const& p) { std::size_t n = p.size(); return n > 3 && p.substr(n - 3) == "dat" ? "the_data_file" : n > 3 && p.substr(n - 3) == "key" ? "the_key_file" : "the_log"; }

static void lin(u64 seed, u64 idx, bool stall, bool faults, bool sticky) {
    Rng r(seed); Cfg c = gen_cfg(r); if(c.key_size > 40) c.key_size = r.range(4, 33); if(c.key_size < 2) c.key_size = 2;
    c.block_size = r.chance(2, 3) ? r.range(104, 140) : r.range(104, 300); if(c.valmode > 1) c.valmode = 0;
    if(r.chance(1, 2)) c.lf = r.pick({0.01f, 0.1f, 0.2f, 0.9f, 0.99f});
    hash_kind() = c.kind;
    sim::Fs fs; sim::Use u(fs); Session<sim::file> ss(c, "v:/"); ss.create(); ss.open(); g_clk = 1;
    u64 pre = r.skew(c.kind ? 30 : 90), T = r.range(1, 4), commits = r.range(1, 3), per = r.range(1, r.pick({4, 12, 30}));
    u64 batch = 1 + r.skew(12), space = pre + batch + r.range(1, 10); if(c.key_space() < space) space = c.key_space();
    std::vector<std::string> kk(space); for(u64 i = 0; i < space; ++i) kk[i] = make_key(c, i);
    std::vector<Ev> all; auto ins0 = [&](u64 i) { bytes v = value_of(seed, i + 1); error_code ec; KeyBuf k(kk[i]); Ev e{}; e.key = (u32)i; e.val = i + 1; e.thr = 98; e.inv = now_tick(); ss.s->insert(k, v.data(), v.size(), ec); e.ret = now_tick(); CHECK(!ec, "insert: %s", ec.message().c_str()); e.out = ins_ok; all.push_back(e); };
    pre = std::min(pre, space);
    for(u64 i = 0; i < pre; ++i) { ins0(i); if(r.chance(1, 20)) ss.flush(); }
    if(pre) ss.flush();
    u64 inmem = std::min(space, pre + (r.chance(2, 3) ? batch : 0)); for(u64 i = pre; i < inmem; ++i) ins0(i);
    static sched::Run* run = nullptr; delete run; run = new sched::Run; sched::R = run;
    sched::plan(*run, mix2(seed, 5), (int)T + 1, 2000 * commits + 60 * T * per, r.chance(1, 3) ? 60 * per : 1 + r.below(40 + 40 * commits));
    u64 mixw = r.pick({0, 20, 50, 80}), hotw = r.pick({0, 60, 95}); u64 hot = r.below(space);
    u64 hold_at = stall ? 1 + r.below(r.pick({12, 40, 120})) : 0, hold_twice = stall && r.chance(1, 2) ? hold_at + 1 + r.below(20) : 0, cops = 0; bool hold_after = r.chance(1, 3);
    int hold_who = stall && r.chance(1, 3) ? 1 + (int)r.below(T) : 0; if(hold_who) hold_at = 1 + r.below(12); u64 all_but = (((1ull << T) - 1) << 1) & ~(1ull << hold_who);   // the committer or a fetching client
    if(stall && run->strat == sched::Strategy::victim) run->strat = sched::Strategy::walk, run->victim = -1;
    current().set(fmt("case=%llu %s pre=%llu inmem=%llu threads=%llu per=%llu commits=%llu strategy=%d victim=%d@%llu+%llu", (unsigned long long)idx, c.str().c_str(), (unsigned long long)pre, (unsigned long long)inmem, (unsigned long long)T, (unsigned long long)per, (unsigned long long)commits, (int)run->strat, run->victim, (unsigned long long)run->victim_at, (unsigned long long)run->victim_len));
    auto hook = [&](sim::Op const& o) {
        if(!sched::self) return;
        if(stall && sched::self->id == hold_who && (!hold_who || (fetching && o.k == sim::K::read && o.path.back() == 'y')) && (++cops == hold_at || cops == hold_twice)) { stats().add(fmt("%s_held_at_%s_%s", hold_who ? "fetch" : "commit", sim::kname(o.k), file_of(o.path))); sched::hold(all_but, fmt("%s of %s", sim::kname(o.k), o.path.c_str())); }
        else sched::pause_point();
    };
    if(!stall || !hold_after) fs.pause = hook;
    if(stall ? hold_after : r.chance(1, 3)) fs.after = hook;
    // reads of the clients fail now and then; the committer's operations do not
    std::atomic<u64> failed{0}, failed_ins{0}; u64 rate = r.pick({3, 10, 40}), fs0 = r.next(); error_code const EX = r.chance(1, 3) ? error_code(error::short_read) : sim::posix_err(r.pick({EIO, ENOTRECOVERABLE, EINTR, EAGAIN}));
    // or one operation of the committer fails
    u64 fail_at = 1 + r.below(r.pick({10, 30, 80})), cops2 = 0, dead_at = ~0ull, safe_until = g_clk; int fkind = (int)r.below(3); bool commit_failed = false; std::string where; error_code const CX = sim::posix_err(r.pick({EIO, ENOSPC, ENOTRECOVERABLE}));
    if(inmem > pre) { u64 m = 0; for(auto& e : all) if(e.key < pre) m = std::max(m, e.ret); safe_until = m; }
    fault_ops = 0;
    std::vector<std::vector<Ev>> ev(T); std::vector<std::string> bad(T + 1); std::atomic<u64> done_commits{0};
    sched::spawn("committer", [&] { try { for(u64 i = 0; i < commits; ++i) { u64 t0 = now_tick(); ss.ctx.flush(); ++done_commits; TsanOff off; if(!commit_failed) safe_until = t0; else if(dead_at == ~0ull) dead_at = now_tick(); } } catch(std::exception& e) { bad[T] = e.what(); } });
    for(u64 t = 0; t < T; ++t) sched::spawn("client", [&, t] {
        Rng q(mix2(seed, 100 + t));
        for(u64 i = 0; i < per && bad[t].empty(); ++i) {
            Ev e{}; e.thr = (u16)t; e.key = (u32)(q.below(100) < hotw ? (hot + q.below(3)) % space : q.below(space)); KeyBuf k(kk[e.key]); error_code ec; hit_fault = false;
            if(q.below(40) == 0) { if(q.below(2)) ss.s->set_burst(std::size_t(1) << (30 + q.below(10))); else { CHECK_IN(bad[t], ss.s->key_size() == c.key_size && ss.s->block_size() == c.block_size && ss.s->dat_path() == ss.dp && ss.s->is_open() && ss.s->appnum() == c.appnum, "a property of the open store changed"); } }
            if(q.below(100) < mixw) {
                u64 id = ((t + 1) << 40) | i; bytes v = value_of(seed, id); e.val = id; e.inv = now_tick(); ss.s->insert(k, v.data(), v.size(), ec); e.ret = now_tick();
                std::memset(v.data(), 0xdd, v.size());
                if(sticky && ec == CX) e.out = other;
                else if(faults && hit_fault) { ++failed_ins; if(ec != EX) bad[t] = fmt("a read failed during the insert of key %u, which returned '%s'", e.key, ec.message().c_str()); }
                else if(!ec) e.out = ins_ok; else if(ec == error::key_exists) e.out = ins_exists; else bad[t] = fmt("insert of key %u: %s", e.key, ec.message().c_str());
            } else {
                int calls = 0; bytes v; fetching = true; e.inv = now_tick(); ss.s->fetch(k, [&](void const* p, std::size_t n) { ++calls; sched::point(); v.assign((u8 const*)p, (u8 const*)p + n); }, ec); e.ret = now_tick(); fetching = false;
                if(sticky && ec == CX) { e.out = other; if(calls) bad[t] = "a fetch that failed delivered a value"; }
                else if(faults && hit_fault) { if(ec != EX || calls) bad[t] = fmt("a read failed during the fetch of key %u, which returned '%s' with %d callbacks", e.key, ec.message().c_str(), calls); }
                else if(!ec) { e.out = got; if(calls != 1 || v.size() < 8) { bad[t] = fmt("fetch of key %u: %d callbacks, %zu bytes", e.key, calls, v.size()); break; } std::memcpy(&e.val, v.data(), 8); if(value_of(seed, e.val) != v) bad[t] = fmt("fetch of key %u delivered bytes that nobody inserted: %s", e.key, hex(v.data(), v.size()).c_str()); }
                else if(ec == error::key_not_found) { e.out = absent; if(calls) bad[t] = "callback although not found"; } else bad[t] = fmt("fetch of key %u: %s", e.key, ec.message().c_str());
            }
            if(faults && hit_fault) { TsanOff off; ++failed; e.out = other; }
            ev[t].push_back(e);
        }
    });
    if(sticky) fs.inject = [&](sim::Op const& o) { sim::Fault f; TsanOff off; if(sched::self && !sched::self->id && ++cops2 == fail_at) { commit_failed = true; where = fmt("%s of %s at %llu", sim::kname(o.k), o.path.c_str(), (unsigned long long)fail_at); f.fail = true; f.ec = CX; f.after = fkind == 2; if(fkind == 1 && o.k == sim::K::write) f.partial = mix(fs0) % (o.len + 1); } return f; };
    if(faults) fs.inject = [&](sim::Op const& o) { sim::Fault f; if(sched::self && sched::self->id && o.k == sim::K::read) { TsanOff off; if(mix2(fs0, ++fault_ops) % rate == 0) { f.fail = true; f.ec = EX; f.after = fault_ops % 2; hit_fault = true; } } return f; };
    sched::go(); fs.inject = nullptr; sched::Run& s = *run; fs.pause = nullptr; fs.after = nullptr; beat();
    for(auto& b : bad) CHECK(b.empty(), "%s", b.c_str());
    for(auto& v : ev) all.insert(all.end(), v.begin(), v.end());
    auto sweep = [&] { for(u64 i = 0; i < space; ++i) { Ev e{}; e.key = (u32)i; e.thr = 99; KeyBuf k(kk[i]); error_code ec; bytes v; e.inv = now_tick(); ss.s->fetch(k, [&](void const* p, std::size_t n) { v.assign((u8 const*)p, (u8 const*)p + n); }, ec); e.ret = now_tick(); if(!ec) { e.out = got; CHECK(v.size() >= 8, "short value"); std::memcpy(&e.val, v.data(), 8); CHECK(v == value_of(seed, e.val), "key %llu has a wrong value", (unsigned long long)i); } else { CHECK(ec == error::key_not_found, "fetch: %s", ec.message().c_str()); e.out = absent; } all.push_back(e); } };
    if(sticky && commit_failed) {
        u64 refused = 0; for(auto& e : all) if(e.inv > dead_at) { CHECK(e.out == other, "%s failed in a commit, but an operation on key %u later (at %llu) succeeded", where.c_str(), e.key, (unsigned long long)e.inv); ++refused; }
        error_code ec; { u64 m0 = fs.count[(int)sim::K::write] + fs.count[(int)sim::K::trunc] + fs.count[(int)sim::K::create] + fs.count[(int)sim::K::erase]; ss.s->close(ec); CHECK(ec == CX, "%s failed in a commit, close returned '%s'", where.c_str(), ec.message().c_str()); CHECK(m0 == fs.count[(int)sim::K::write] + fs.count[(int)sim::K::trunc] + fs.count[(int)sim::K::create] + fs.count[(int)sim::K::erase], "%s failed in a commit, close modified files", where.c_str()); }
        judge(all, space, c); ss.s.reset(); ss.open(); ss.close(); auto im = fs.image(); Db db = Db::parse(im[ss.dp], im[ss.kp]); CHECK(db.valid(), "%s failed in a commit; after reopening: %s", where.c_str(), db.first().c_str());
        u64 there = 0, safe = 0; for(auto& e : all) if(e.out == ins_ok) { auto it = db.by_key.find(kk[e.key]); if(it != db.by_key.end()) { ++there; CHECK(db.value(db.recs[it->second]) == value_of(seed, e.val), "%s failed in a commit; after reopening key %u has a wrong value", where.c_str(), e.key); } if(e.ret <= safe_until) { ++safe; CHECK(it != db.by_key.end(), "%s failed in a commit; after reopening key %u, committed before, is missing", where.c_str(), e.key); } }
        CHECK(there == db.recs.size(), "%s failed in a commit; after reopening there are %zu records, %llu of them inserted", where.c_str(), db.recs.size(), (unsigned long long)there);
        stats().eval(); stats().add("commits_failed_under_load"); stats().add("operations_after_a_failed_commit", refused); stats().add("committed_keys_found_again", safe); stats().nontrivial(s.sig); stats().sample(current().get() + " " + where); return;
    }
    if(r.chance(1, 2)) sweep();
    ss.close(); if(r.chance(1, 4)) { ss.open(); sweep(); ss.close(); }
    judge(all, space, c);
    auto im = fs.image(); Db db = Db::parse(im[ss.dp], im[ss.kp]); CHECK(db.valid(), "database after a scheduled history: %s", db.first().c_str());
    u64 ok = 0, ops = 0; u64 cnt[6] = {0}; for(auto& e : all) { if(e.thr < 90) { ++ops; ++cnt[e.out]; } if(e.out == ins_ok) { ++ok; auto it = db.by_key.find(kk[e.key]); CHECK(it != db.by_key.end() && db.value(db.recs[it->second]) == value_of(seed, e.val), "key %u is not in the files with its value", e.key); } }
    CHECK(ok == db.recs.size(), "%llu inserts succeeded, the files hold %zu records", (unsigned long long)ok, db.recs.size());
    stats().eval(); stats().add("operations", ops); stats().add("commits", done_commits); stats().add("scheduling_points", s.steps); stats().add("thread_switches", s.switches); stats().add("lock_waits", s.blocked_mutex); stats().add("condition_waits", s.waited_cond);
    stats().add("inserts_ok", cnt[0]); stats().add("inserts_refused", cnt[1]); stats().add("fetches_found", cnt[2]); stats().add("fetches_absent", cnt[3]);
    if(faults) { stats().add("reads_failed_in_inserts", failed_ins); stats().add("reads_failed_in_fetches", failed - failed_ins); }
    if(stall) { stats().add(hold_who ? "fetches_held" : "commits_held", s.holds); stats().add("scheduling_points_while_held", s.held_steps); if(!s.holds) stats().add("cases_without_hold"); }
    stats().add("threads_frozen", s.frozen_times); stats().add("frozen_threads_that_others_had_to_wait_for", s.forced_unfreeze);
    if(s.switches > 3) stats().nontrivial(s.sig);
    stats().sample(current().get() + fmt(" steps=%llu switches=%llu buckets=%llu spills=%zu", (unsigned long long)s.steps, (unsigned long long)s.switches, (unsigned long long)db.buckets, db.spills.size()));
}

// Contexts: runner threads, stores opened and closed by their own threads, a controller that starts,
// stops and flushes. Time is virtual, so the bound on progress is exact and a deadlock is seen.
namespace ctxs {
struct Monitor;
struct Store {
    Cfg c; std::string base; std::unique_ptr<nudb::basic_store<vhasher, sim::file>> s; u64 n = 0;     // n: inserts that returned
    bool allowed = false, usable = false, in_commit = false; u64 gen = 0, begun = 0, commits = 0, flush_ops = 0;
};
struct Monitor { bool stopped = true; u64 epoch = 0; bool running = false; std::string bad; void set(std::string const& b) { if(bad.empty()) bad = b; } };
static bool done(Store& st, u64 m, sim::Fs& fs, std::string* why = nullptr) {       // the first m keys are in the files
    sched::Quiet q; sim::Blob D, K, L; bool log;
    { auto im = fs.image(); auto l = im.find(st.base + "db.log"); log = l != im.end() && l->second.size(); D = im[st.base + "db.dat"]; K = im[st.base + "db.key"]; }
    if(log) { if(why) *why = "its log is not empty"; return false; }
    Db db; db.d = Hdr{}; db.parse_dat(D); if(why) *why = fmt("%zu of %llu records are in the data file", db.recs.size(), (unsigned long long)m);
    return db.dat_ok && db.recs.size() >= m;
}
}
static void ctx_case(u64 seed, u64 idx) {
    using namespace ctxs; Rng r(seed); hash_kind() = 0;
    sim::Fs fs; sim::Use u(fs); static sched::Run* run = nullptr; delete run; run = new sched::Run; sched::R = run; sched::Run& R = *run;
    u64 D = r.range(1, 4), steps = r.range(1, 6), ctl = r.range(1, 6); Monitor mo; std::vector<Store> st(D); std::string bad[8];
    for(u64 i = 0; i < D; ++i) {
        Store& p = st[i]; p.base = fmt("v:/%llu/", (unsigned long long)i); p.c.key_size = r.range(8, 20); p.c.block_size = r.range(120, 300); p.c.kseed = r.next(); p.c.salt = r.next(); p.c.uid = r.next(); p.c.appnum = r.next(); p.c.lf = 0.5f;
        error_code ec; Args<sim::file>::create(p.base + "db.dat", p.base + "db.key", p.base + "db.log", p.c, ec); CHECK(!ec, "create: %s", ec.message().c_str());
    }
    std::unique_ptr<nudb::context> ctx(new nudb::context); u64 runners_total = 0, in_run = 0, drivers_left = D, awaited = 0; bool finish = false, ready_to_finish = false; int first_thread = 0; u64 waiting_at_end = 0; bool in_flush = false;
    sched::plan(R, mix2(seed, 5), 8, 3000, r.chance(1, 2) ? 60 : 400); R.p_timeout = r.pick({0.0, 0.002, 0.02}); R.victim = (int)r.below(D + 4); fs.pause = nullptr;
    u64 slow = r.chance(1, 3) ? r.pick({1000000, 300000000, 2000000000}) : 0, slow_store = r.below(D);
    current().set(fmt("case=%llu stores=%llu steps=%llu control=%llu strategy=%d victim=%d@%llu+%llu p_timeout=%g slow=%llu", (unsigned long long)idx, (unsigned long long)D, (unsigned long long)steps, (unsigned long long)ctl, (int)R.strat, R.victim, (unsigned long long)R.victim_at, (unsigned long long)R.victim_len, R.p_timeout, (unsigned long long)slow));
    auto hook = [&](sim::Op const& o) {
        if(!sched::self) return; TsanOff off;
        std::size_t a = o.path.find('/'), b = o.path.find('/', a + 1); Store& p = st[(std::size_t)std::stoul(o.path.substr(a + 1, b - a - 1))];
        bool runner = sched::self->internal || sched::self->name[0] == 'r';     // a thread of the context
        if(!p.allowed) mo.set(fmt("%s of %s by %s after close had returned", sim::kname(o.k), o.path.c_str(), runner ? "the context" : sched::self->name));
        if(runner) {
            if(mo.stopped) mo.set(fmt("the context did %s on %s after stop_all had returned", sim::kname(o.k), o.path.c_str()));
            bool log = o.path.back() == 'g'; if(log && o.k == sim::K::write && !p.in_commit) p.in_commit = true, ++p.begun; if(log && o.k == sim::K::trunc) p.in_commit = false, ++p.commits;
        } else if(sched::self->name[0] == 'c' && in_flush) ++p.flush_ops;
        if(slow && (u64)(&p - &st[0]) == slow_store) sched::sleep_ns(slow / 20); else sched::pause_point();
    };
    fs.after = hook;
    for(u64 i = 0; i < D; ++i) sched::spawn("driver", [&, i] {
        Rng q(mix2(seed, 100 + i)); Store& p = st[i]; std::string& err = bad[i];
        auto open = [&] { { TsanOff off; p.allowed = true; } if(!p.s) p.s.reset(new nudb::basic_store<vhasher, sim::file>(*ctx)); error_code ec; p.s->open(p.base + "db.dat", p.base + "db.key", p.base + "db.log", ec); if(ec) err = "open: " + ec.message(); TsanOff off; p.usable = true; ++p.gen; };
        auto after = [&] { sched::Quiet z; auto im = fs.image(); Db db = Db::parse(im[p.base + "db.dat"], im[p.base + "db.key"]); if(!db.valid()) err = "after close: " + db.first(); else if(db.recs.size() != p.n) err = fmt("after close: %llu keys inserted, %zu in the files", (unsigned long long)p.n, db.recs.size()); else if(im.count(p.base + "db.log")) err = "after close: log file left"; };
        auto close = [&] {
            bool mid; { TsanOff off; p.usable = false; ++p.gen; mid = p.in_commit; } error_code ec; 
            if(q.chance(1, 4)) p.s.reset(); else p.s->close(ec);
            TsanOff off; p.allowed = false; if(p.in_commit) mo.set("close returned during a commit of " + p.base); p.in_commit = false; if(ec) err = "close: " + ec.message(); else after(); stats().add("closes"); if(mid) stats().add("closes_during_commit");
        };
        auto insert = [&](u64 k) { for(u64 j = 0; j < k && err.empty(); ++j) { bytes v = make_value(p.c, p.n, 0); KeyBuf key(make_key(p.c, p.n)); error_code ec; p.s->insert(key, v.data(), v.size(), ec); if(ec) err = "insert: " + ec.message(); TsanOff off; ++p.n; } };
        auto await = [&](char const* what, u64 limit_s) {
            u64 e, m; { TsanOff off; e = mo.epoch; m = p.n; if(!mo.running) return; } 
            sched::Settle settle; std::string why;
            for(u64 t0 = sched::now_ns();;) {
                { TsanOff off; if(done(p, m, fs, &why)) { ++awaited; stats().peak("longest_wait_for_a_commit_virtual_ms", (sched::now_ns() - t0) / 1000000); return; } if(mo.epoch != e || !mo.bad.empty()) return; if(sched::now_ns() - t0 > limit_s * 1000000000ull) { err = fmt("%s: data in %s was not committed within %llu s by a running context: %s", what, p.base.c_str(), (unsigned long long)limit_s, why.c_str()); return; } }
                sched::sleep_ns(250000000);
            }
        };
        try {
            for(u64 k = 0; k < steps && err.empty(); ++k) {
                open(); u64 ops = q.below(6);
                for(u64 j = 0; j < ops && err.empty(); ++j) {
                    insert(1 + q.skew(8));
                    if(p.n && q.chance(1, 2)) { u64 x = q.below(p.n + 2); KeyBuf key(make_key(p.c, x)); error_code ec; bytes g; p.s->fetch(key, [&](void const* z, std::size_t n) { g.assign((u8 const*)z, (u8 const*)z + n); }, ec); if(x < p.n ? (ec || g != make_value(p.c, x, 0)) : ec != error::key_not_found) err = fmt("fetch of key %llu of %llu: %s", (unsigned long long)x, (unsigned long long)p.n, ec.message().c_str()); }
                    if(q.chance(1, 3)) sched::sleep_ns(q.pick({1000, 500000000, 999999999, 1000000000, 1500000000}));
                    if(q.chance(1, 4)) await("while others work", 60);
                }
                if(k + 1 < steps || q.chance(1, 2)) close();
            }
            if(err.empty()) { if(!p.usable) open(); insert(1 + q.below(4)); }
            { TsanOff off; --drivers_left; }
            for(;;) { { TsanOff off; if(ready_to_finish || !err.empty() || !mo.bad.empty()) break; } sched::sleep_ns(300000000); }
            if(err.empty()) await("at the end", 30 + slow / 1000000000 * 3);
            { TsanOff off; ++waiting_at_end; }
            for(;;) { { TsanOff off; if(finish || !err.empty() || !mo.bad.empty()) break; } sched::sleep_ns(300000000); }
            if(p.s && p.usable) close(); p.s.reset();
        } catch(std::exception& e) { err = e.what(); }
        TsanOff off; if(!err.empty()) mo.set(err);
    });
    sched::spawn("controller", [&] {
        Rng q(mix2(seed, 200)); std::string& err = bad[D];
        auto broken = [&] { TsanOff off; return !mo.bad.empty(); };
        auto start = [&] {
            { TsanOff off; mo.stopped = false; first_thread = R.n; } u64 n = q.below(4), own = n == 0 || q.chance(1, 2); if(own && q.chance(1, 2)) { ctx->start(); own = 2; }
            for(u64 i = 0; i < n && runners_total < 14; ++i) {
                u64 id; { TsanOff off; ++runners_total; ++in_run; id = R.n; } sched::spawn("runner", [&] { ctx->run(); TsanOff off; --in_run; });
                sched::Settle settle; for(int t = 0; t < 20; ++t) { { TsanOff off; if(R.t[id].waits || R.t[id].st == sched::finished) break; } sched::sleep_ns(10000000); }     // until it waits inside run()
            }
            if(own == 1) ctx->start(); if(q.chance(1, 4)) ctx->start();
            TsanOff off; mo.running = true; ++mo.epoch; stats().add(fmt("contexts_with_%llu_threads", (unsigned long long)(n + (own ? 1 : 0))));
        };
        auto stop = [&] {
            bool mid = false; { TsanOff off; mo.running = false; ++mo.epoch; for(auto& p : st) mid |= p.in_commit; } ctx->stop_all();
            TsanOff off; mo.stopped = true; for(auto& p : st) if(p.in_commit) mo.set("stop_all returned during a commit of " + p.base);
            stats().add("stops"); if(mid) stats().add("stops_during_commit");
        };
        auto flush = [&] {
            std::vector<u64> n(D), g(D); bool run_, sure = false; { TsanOff off; run_ = mo.running; if(run_) for(int i = first_thread; i < R.n; ++i) if((R.t[i].internal || R.t[i].name[0] == 'r') && R.t[i].st != sched::finished && R.t[i].waits) sure = true; for(u64 i = 0; i < D; ++i) n[i] = st[i].n, g[i] = st[i].usable ? st[i].gen : 0, st[i].flush_ops = 0; }
            { TsanOff off; in_flush = true; } ctx->flush(); TsanOff off; in_flush = false; std::string why;
            // the thread of start() may not have arrived in run() yet
            if(sure) { stats().add("ignored_flushes"); for(u64 i = 0; i < D; ++i) if(st[i].flush_ops) mo.set(fmt("flush() did %llu file operations on %s although the context is running", (unsigned long long)st[i].flush_ops, st[i].base.c_str())); }
            for(u64 i = 0; i < D; ++i) if(g[i] && st[i].usable && st[i].gen == g[i] && !run_) { if(!done(st[i], n[i], fs, &why)) mo.set("after an explicit flush of a stopped context, " + st[i].base + ": " + why); else stats().add("explicit_flushes"); }
            if(run_) stats().add("flushes_while_running");
        };
        try {
            bool running = false; if(q.chance(3, 4)) start(), running = true;
            for(u64 k = 0; k < ctl && !broken(); ++k) {
                sched::sleep_ns(q.pick<u64>({1000, 400000000, 1000000000, 1000000000, 2500000000}));
                if(running && q.chance(1, 2)) { stop(); running = false; if(q.chance(1, 2)) sched::sleep_ns(1500000000); if(q.chance(2, 3)) flush(); if(q.chance(2, 3)) start(), running = true; }
                else if(!running) { if(q.chance(1, 2)) flush(); if(q.chance(2, 3)) start(), running = true; }
                else flush();
            }
            for(;;) { { TsanOff off; if(!drivers_left || !mo.bad.empty()) break; } sched::sleep_ns(500000000); }
            if(running && q.chance(1, 3)) stop(), running = false;
            if(!running) start();
            { TsanOff off; ready_to_finish = true; }
            for(;;) { { TsanOff off; if(waiting_at_end == D || !mo.bad.empty()) break; } sched::sleep_ns(500000000); }
            bool s = q.chance(1, 2); if(s) stop();
            { TsanOff off; finish = true; }
            if(q.chance(1, 2)) sched::sleep_ns(1200000000);
            if(!s) stop();
        } catch(std::exception& e) { err = e.what(); TsanOff off; mo.set(err); finish = ready_to_finish = true; }
        if(broken()) { ctx->stop_all(); }
    });
    sched::go(); fs.after = nullptr; beat();
    for(auto& b : bad) CHECK(b.empty(), "%s", b.c_str());
    CHECK(mo.bad.empty(), "%s", mo.bad.c_str());
    for(auto& p : st) p.allowed = true; ctx.reset();
    for(auto& p : st) { auto im = fs.image(); Db db = Db::parse(im[p.base + "db.dat"], im[p.base + "db.key"]); CHECK(db.valid(), "%s at the end: %s", p.base.c_str(), db.first().c_str()); CHECK(db.recs.size() == p.n, "%s at the end: %llu keys inserted, %zu in the files", p.base.c_str(), (unsigned long long)p.n, db.recs.size()); stats().add("context_commits", p.commits); }
    stats().eval(); stats().add("scheduling_points", R.steps); stats().add("thread_switches", R.switches); stats().add("lock_waits", R.blocked_mutex); stats().add("condition_waits", R.waited_cond); stats().add("virtual_seconds", R.clock_ns / 1000000000); stats().add("commits_awaited", awaited); stats().add("threads_frozen", R.frozen_times);
    stats().nontrivial(R.sig); stats().sample(current().get() + fmt(" steps=%llu switches=%llu virtual_ms=%llu", (unsigned long long)R.steps, (unsigned long long)R.switches, (unsigned long long)(R.clock_ns / 1000000)));
}

static void one(u64 seed, u64 idx) { if(opt().mode == "ctx") ctx_case(seed, idx); else lin(seed, idx, opt().mode == "stall", opt().mode == "fault", opt().mode == "fail"); }
int main(int argc, char** argv) { return run_main(argc, argv, one, 60); }
