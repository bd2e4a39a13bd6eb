// C29: exceptions that pass through the library - thrown by callbacks, by
// progress functions or for want of memory - leave locks, files and data intact.
#include <atomic>
#include <cstdlib>
#include <new>
// Lets the n-th allocation of the thread fail while armed
struct Arm { long left = 0; bool on = false, hit = false; int quiet = 0; unsigned long seen = 0; };
static thread_local Arm arm;
struct Hush { Hush() { ++arm.quiet; } ~Hush() { --arm.quiet; } };
#define VF_FS_CALL Hush vf_hush;
static void* take(std::size_t n) {
    if(arm.on && !arm.quiet) { ++arm.seen; if(arm.left-- == 0) { arm.hit = true; arm.on = false; throw std::bad_alloc(); } }
    void* p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p;
}
void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { try { return take(n); } catch(...) { return nullptr; } }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { try { return take(n); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
#include "dbgen.hpp"
#include <dirent.h>
using namespace vf;

struct Boom { u64 v; };
enum End { done, nomem, boom };
// Runs f with the n-th allocation from now on failing (n < 0: none)
template<class F> static End run(long n, F&& f) {
    arm.left = n; arm.hit = false; arm.on = n >= 0; End e = done;
    try { f(); } catch(std::bad_alloc&) { arm.on = false; CHECK(arm.hit, "bad_alloc although no allocation failed"); e = nomem; } catch(Boom&) { arm.on = false; e = boom; } catch(...) { arm.on = false; throw; }
    arm.on = false;
    if(e != nomem) CHECK(!arm.hit, "an allocation failed, but the caller does not learn of it");
    return e;
}
static std::string U(u64 v) { return std::to_string(v); }

struct Exc {
    Rng r; Session<sim::file> ss; sim::Fs& fs; u64 thrown = 0, nested = 0; bool in = false;
    Exc(u64 seed, Cfg const& c, sim::Fs& f) : r(seed), ss(c, "v:/a directory whose name does not fit into a small string/"), fs(f) {}
    long limit() { return r.chance(1, 6) ? -1 : (long)r.below(3); }

    // an insert for which there is no memory inserts nothing
    void insert(u64 i, u64 attempt) {
        KeyBuf k(make_key(ss.c, i)); bytes v = make_value(ss.c, i, attempt); bool had = ss.model.count(i) != 0;
        for(long n = limit();; n += 1 + n / 16) {
            error_code ec; End e = run(n, [&] { ss.s->insert(k, v.data(), v.size(), ec); }); beat();
            if(e == nomem) { ++thrown; stats().add(in ? "inserts_without_memory_during_commits" : "inserts_without_memory"); if(r.chance(1, 2)) ss.fetch(i); if(r.chance(1, 10) && !in) flush(); if(n > 100000) violate("insert fails for want of memory again and again"); continue; }
            CHECK(e == done, "insert threw"); 
            if(had) CHECK(ec == error::key_exists, "insert of existing key: '%s'", ec.message().c_str());
            else { CHECK(!ec, "insert of new key %s (after %ld attempts without memory): %s", U(i).c_str(), n, ec.message().c_str()); ss.model[i] = attempt; ss.order.push_back(i); }
            return;
        }
    }
    // the callback throws, or there is no memory
    void fetch(u64 i) {
        KeyBuf k(make_key(ss.c, i)); auto it = ss.model.find(i); bytes want; if(it != ss.model.end()) want = make_value(ss.c, i, it->second);
        bool b = r.chance(1, 2);
        for(long n = b ? -1 : limit();; ++n) {
            error_code ec; int calls = 0; bool right = true;
            End e = run(n, [&] { ss.s->fetch(k, [&](void const* p, std::size_t z) { ++calls; right = z == want.size() && !std::memcmp(p, want.data(), z); if(b) throw Boom{i}; }, ec); }); beat();
            if(it == ss.model.end()) CHECK(!calls, "callback for an absent key");
            CHECK(calls <= 1 && right, "fetch delivered a wrong value or called back %d times", calls);
            if(e == nomem) { ++thrown; stats().add("fetches_without_memory"); if(n > 100000) violate("fetch fails for want of memory again and again"); continue; }
            if(it == ss.model.end()) CHECK(e == done && ec == error::key_not_found, "fetch of an absent key: '%s'", ec.message().c_str());
            else if(b) { CHECK(e == boom, "the exception thrown by the callback did not reach the caller"); ++thrown; stats().add(in ? "callbacks_that_threw_during_commits" : "callbacks_that_threw"); }
            else CHECK(e == done && !ec && calls == 1, "fetch of key %s: '%s', %d callbacks", U(i).c_str(), ec.message().c_str(), calls);
            break;
        }
        if(r.chance(1, 3)) ss.fetch(i);
    }
    // a commit, with such fetches and inserts in the middle of it
    void flush() {
        u64 every = 1 + r.below(6), k = 0, first = ss.order.size(); bool some = r.chance(2, 3); u64 left = 40;
        if(some) fs.pause = [&](sim::Op const&) {
            if(in || !left || k++ % every) return;
            in = true; --left; int q = arm.quiet; arm.quiet = 0;
            try {
                u64 n = ss.order.size();
                for(int j = 0; j < 3 && n; ++j) { switch(r.below(3)) { case 0: fetch(ss.order[n - 1 - r.below(std::min<u64>(n, 30))]); break; case 1: fetch(ss.order[r.below(n)]); break; default: fetch(next + 5 + r.below(100)); } ++nested; }
                if(next < lim && r.chance(1, 3)) { u64 i = next++; insert(i, 0); ++nested; }
            } catch(Violation& v) { die_violation(v.what()); }
            arm.quiet = q; in = false;
        };
        ss.flush(); fs.pause = nullptr; ss.committed = first;      // at least
    }
    u64 next = 0, lim = 0;

    void open() {
        auto im = fs.image();
        for(long n = limit();; n += 1 + n / 16) {
            ss.s.reset(new Session<sim::file>::store_t(ss.ctx)); error_code ec;
            End e = run(n, [&] { Args<sim::file>::open(*ss.s, ss.dp, ss.kp, ss.lp, ec); }); beat();
            if(e == nomem) {
                ++thrown; stats().add("opens_without_memory"); CHECK(!ss.s->is_open(), "the store is open after open threw"); CHECK(fs.handles == 0, "open threw and left %s files open", U(fs.handles).c_str());
                auto now = fs.image(); CHECK(now[ss.dp] == im[ss.dp] && now[ss.kp] == im[ss.kp], "open threw and changed the files"); 
                if(n > 100000) violate("open fails for want of memory again and again");
                if(r.chance(1, 2)) { error_code ec2; Args<sim::file>::open(*ss.s, ss.dp, ss.kp, ss.lp, ec2); CHECK(!ec2, "open of the same store after one that threw: %s", ec2.message().c_str()); break; }
                ss.s.reset(); continue;
            }
            CHECK(e == done && !ec, "open: %s", ec.message().c_str()); break;
        }
        ss.s->set_burst(std::size_t(1) << 40);
    }
    void all() {
        ss.create(); open(); lim = ss.max_keys(20 + r.skew(400)); if(ss.c.kind && ss.c.kind != 3 && ss.c.kind != 4) lim = std::min<u64>(lim, 120);
        u64 left = 3u << 20;
        while(next < lim) {
            u64 z = value_size(ss.c, next, 0); if(z > left) break; left -= z;
            u64 i = next++; insert(i, 0); u64 n = ss.order.size();
            if(r.chance(1, 4)) fetch(ss.order[r.below(n)]);
            if(r.chance(1, 12)) fetch(next + 5 + r.below(50));
            if(r.chance(1, 10)) insert(ss.order[r.below(n)], 3);
            if(r.chance(1, 25)) flush();
            if(r.chance(1, 60)) { ss.close(); CHECK(fs.handles == 0, "files left open"); open(); }
        }
        flush(); for(auto i : ss.order) if(r.chance(1, 3)) fetch(i);
        flush(); ss.fetch_all(); ss.close(); ss.s.reset();
        auto im = fs.image(); CHECK(fs.handles == 0, "files left open"); CHECK(!im.count(ss.lp), "log file left");
        Db db = Db::parse(im[ss.dp], im[ss.kp]); CHECK(db.valid(), "files do not conform: %s", db.first().c_str()); auto d = diff_prefix(db, ss.c, ss.order, ss.model, ss.order.size()); CHECK(d.empty(), "%s", d.c_str());
        stats().add("operations_inside_commits", nested); stats().add("exceptions", thrown); stats().eval();
        if(db.spills.size()) stats().add("cases_with_spills");
        if(thrown > 20) stats().nontrivial(mix2(fnvs(ss.c.str()), mix2(thrown, nested)));
        stats().sample(fmt("%s keys=%zu exceptions=%llu inside commits=%llu", ss.c.str().c_str(), ss.order.size(), (unsigned long long)thrown, (unsigned long long)nested));
    }
};

static void store_case(u64 seed, u64 idx) {
    Rng r(mix(seed + 3)); Cfg c = gen_cfg(r); if(c.key_size > 2000) c.key_size = 40; if(c.valmode >= 3) c.valmode = (int)r.below(3); if(c.block_size > 9000) c.block_size = 512;
    if(idx % 3 == 0) { c.block_size = r.range(104, 200); c.lf = r.pick({0.5f, 0.95f}); }
    current().set(fmt("case=%llu store %s", (unsigned long long)idx, c.str().c_str()));
    sim::Fs fs; sim::Use u(fs); Exc x(seed, c, fs); x.all();
}

// Enough records to fill the write buffer of a rekey many times
static Made many(Rng& r) {
    Made m; Cfg c; c.key_size = r.pick<u64>({8, 20, 32}); c.block_size = 4096; c.uid = r.next(); c.salt = r.next(); c.kseed = r.next(); hash_kind() = c.kind; m.c = c;
    sim::Fs fs; sim::Use u(fs); Session<sim::file> ss(c, "v:/"); ss.create(); ss.open(); u64 n = r.range(5000, 9000);
    for(u64 i = 0; i < n; ++i) { ss.insert(i, 0); if(i % 4000 == 3999) ss.flush(); }
    ss.close(); m.im = fs.image(); m.order = ss.order; m.model = ss.model; m.shape = "many"; return m;
}
// Recovery and rekey through the given file type
static void maint_case(u64 seed, u64 idx) {
    Rng r(seed); bool rec = idx % 4 == 1, big = !rec && r.chance(1, 8); Made m = big ? many(r) : make_db(r, 300, rec, 4096); hash_kind() = m.c.kind;
    current().set(fmt("case=%llu %s %s", (unsigned long long)idx, rec ? "recover" : "rekey", m.c.str().c_str()));
    sim::Image base = m.im; u64 thrown = 0;
    if(rec) {
        sim::Image want; { sim::Fs f(base); sim::Use u(f); error_code ec; Args<sim::file>::recover(DP, KP, LP, ec); CHECK(!ec, "recover: %s", ec.message().c_str()); want = f.image(); }
        for(long n = 0;; n += 1 + n / 16) {
            sim::Fs f(base); sim::Use u(f); error_code ec; End e = run(n, [&] { Args<sim::file>::recover(DP, KP, LP, ec); }); beat();
            CHECK(f.handles == 0, "recover left %s files open", U(f.handles).c_str());
            if(e == nomem) { ++thrown; stats().add("recoveries_without_memory"); error_code e2; Args<sim::file>::recover(DP, KP, LP, e2); CHECK(!e2, "recover after one that threw: %s", e2.message().c_str()); }
            else CHECK(!ec, "recover: %s", ec.message().c_str());
            CHECK(f.image() == want, "%s gives other files than an undisturbed recovery", e == nomem ? "recovery repeated after an exception" : "recovery");
            if(e == done) break;
            if(n > 1000000) violate("recover fails for want of memory again and again");
        }
    } else {
        sim::Image im; im[DP] = base[DP]; u64 items = r.pick<u64>({m.order.size(), m.order.size() / 4 + 1, 1}), bs = r.range(104, 300), buf = r.pick<u64>({1, 600, 3000, 1 << 16}); float lf = r.pick({0.5f, 0.9f});
        if(big) { bs = r.range(104, 140); items = r.range(1, m.order.size() / 10); stats().add("rekeys_that_append_much"); }
        auto go = [&](error_code& ec, long at) { long k = 0; Args<sim::file>::rekey(DP, KP, LP, bs, lf, items, buf, ec, [&](u64, u64) { beat(); if(k++ == at) throw Boom{0}; }); };
        long step = 0, max = 0; { sim::Fs f(im); sim::Use u(f); error_code ec; Args<sim::file>::rekey(DP, KP, LP, bs, lf, items, buf, ec, [&](u64, u64) { ++max; }); CHECK(!ec, "rekey: %s", ec.message().c_str()); }
        bool mem = !big && r.chance(1, 2); if(!mem) step = r.below(3);
        for(long n = 0;; ) {
            sim::Fs f(im); sim::Use u(f); error_code ec; End e = run(mem ? n : -1, [&] { go(ec, mem ? -1 : n); }); beat();
            CHECK(f.handles == 0, "rekey left %s files open", U(f.handles).c_str());
            if(e == done) { CHECK(!ec, "rekey: %s", ec.message().c_str()); CHECK(mem || n >= max, "the exception thrown by the progress function did not reach the caller"); }
            else {
                ++thrown; stats().add(mem ? "rekeys_without_memory" : "rekeys_whose_progress_threw"); auto t = f.image();
                CHECK(t[DP].size() >= im[DP].size() && t[DP].same(im[DP], 0, im[DP].size()), "a rekey that threw changed committed bytes");
                if(t.count(KP) || t.count(LP)) { error_code e2; Args<sim::file>::recover(DP, KP, LP, e2); CHECK(!e2 || e2 == error::no_key_file, "recover after a rekey that threw: %s", e2.message().c_str()); }
                auto a = f.image(); CHECK(a == im, "recovery of a rekey that threw does not bring back the data file alone (%zu files)", a.size());
                error_code e3; go(e3, -1); CHECK(!e3, "rekey after one that threw: %s", e3.message().c_str());
            }
            bool judge = !big || e == done || r.chance(1, 4);
            if(judge) { auto z = f.image(); Db db = Db::parse(z[DP], z[KP]); CHECK(db.valid(), "database invalid after rekey: %s", db.first().c_str()); CHECK(db.by_key.size() == m.order.size(), "%zu keys after rekey, %zu before", db.by_key.size(), m.order.size()); }
            if(e == done) break;
            if(mem) { n += 1 + n / 16; if(n > 1000000) violate("rekey fails for want of memory again and again"); } else { n = n < 4 ? n + 1 : std::min(max, n + step + 1 + max / (big ? 4 : 12)); }
        }
    }
    stats().add("exceptions", thrown); stats().eval(); if(thrown > 3) stats().nontrivial(mix2(fnvs(m.c.str()), mix2(thrown, idx % 4)));
}

static u64 open_fds() { u64 n = 0; DIR* d = opendir("/proc/self/fd"); if(!d) return 0; while(readdir(d)) ++n; closedir(d); return n; }
// Visit and verify use native files
static void read_case(u64 seed, u64 idx) {
    Rng r(seed); Made m = make_db(r, 300, false, 4096); hash_kind() = m.c.kind; bool ver = idx % 4 == 3;
    current().set(fmt("case=%llu %s %s", (unsigned long long)idx, ver ? "verify" : "visit", m.c.str().c_str()));
    std::string d = scratch_dir(), D = d + "db.dat", K = d + "db.key"; put_file(D, m.dat()); put_file(K, m.key());
    u64 fds = open_fds(), thrown = 0, calls = 0, max = 0, n_rec = 0; u64 buf = r.pick<u64>({0, m.c.block_size * 3 + 8, 1 << 20}); int who = (int)r.below(ver ? 2 : 3);   // 0 memory, 1 progress, 2 callback
    auto go = [&](long at, error_code& ec) {
        calls = 0; n_rec = 0; auto pr = [&](u64, u64) { beat(); if(who == 1 && (long)calls++ == at) throw Boom{1}; };
        if(ver) { nudb::verify_info info; nudb::verify<vhasher>(info, D, K, buf, pr, ec); if(!ec && at < 0) n_rec = info.value_count; }
        else nudb::visit(D, [&](void const*, std::size_t, void const*, std::size_t, error_code&) { ++n_rec; if(who == 2 && (long)calls++ == at) throw Boom{2}; }, pr, ec);
    };
    error_code ec; go(-1, ec); CHECK(!ec, "%s: %s", ver ? "verify" : "visit", ec.message().c_str()); max = calls;
    for(long n = 0;;) {
        ec = {}; End e = run(who == 0 ? n : -1, [&] { go(who == 0 ? -1 : n, ec); }); beat();
        CHECK(open_fds() == fds, "%s left files open", ver ? "verify" : "visit");
        if(e == done) { CHECK(!ec, "%s: %s", ver ? "verify" : "visit", ec.message().c_str()); CHECK(who == 0 || n >= (long)max, "the exception of the %s did not reach the caller", who == 1 ? "progress function" : "callback"); CHECK(n_rec == m.order.size() || (ver && who), "%s records, %zu keys", U(n_rec).c_str(), m.order.size()); break; }
        ++thrown; stats().add(std::string(ver ? "verifies" : "visits") + (who == 0 ? "_without_memory" : who == 1 ? "_whose_progress_threw" : "_whose_callback_threw"));
        if(who == 0) { n += 1 + n / 16; if(n > 1000000) violate("fails for want of memory again and again"); } else n = n < 4 ? n + 1 : std::min<long>(max, n + 1 + max / 12);
    }
    sim::Blob a, b; get_file(D, a); get_file(K, b); CHECK(a == m.dat() && b == m.key(), "%s changed the files", ver ? "verify" : "visit");
    stats().add("exceptions", thrown); stats().eval(); if(thrown > 1) stats().nontrivial(mix2(fnvs(m.c.str()), mix2(thrown, idx % 4 + who * 8)));
}

static void one(u64 seed, u64 idx) {
    // what the thread allocates once is not the subject
    { boost::shared_mutex m; m.lock(); m.unlock(); m.lock_shared(); m.unlock_shared(); }
    switch(idx % 8) { case 1: case 5: case 6: return maint_case(seed, idx == 6 ? 6 : idx); case 3: case 7: case 2: return read_case(seed, idx); default: return store_case(seed, idx); }
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
