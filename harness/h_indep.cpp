// C31: operations on different databases do not influence each other, in several threads at once
// or one within a callback of the other.
#include "dbgen.hpp"
#include <dirent.h>
using namespace vf;
using NF = nudb::native_file;

// What there is to do: prepared beforehand, the same for the run alone and those at once
struct Job { u64 seed; Cfg c, c2; Made whole, cut; bytes damage; sim::Blob bad; };
// What was seen of it. Salts of rekeyed files are fresh, so nothing that depends on them is recorded.
struct Seen { std::vector<std::pair<std::string, u64>> v; void add(char const* what, u64 x) { v.emplace_back(what, x); } void add(char const* what, bytes const& b) { add(what, fnv(b.data(), b.size())); } void add(char const* what, sim::Blob const& b) { add(what, b.all()); } };
static u64 code(error_code const& ec) { return ec ? 1 + ec.value() + fnvs(ec.category().name()) : 0; }

// The types of callbacks are the same everywhere, as are then the functions of NuDB that are made from them
using Progress = std::function<void(u64, u64)>; using Callback = std::function<void(void const*, std::size_t)>; using Visitor = std::function<void(void const*, std::size_t, void const*, std::size_t, error_code&)>;
static void see_verify(Seen& o, std::string const& d, std::string const& k, u64 buf, bool fresh, std::function<void()> within = nullptr) {
    u64 calls = 0; Progress pr = [&](u64, u64) { beat(); if(within && ++calls == 7) within(); };
    nudb::verify_info i; error_code ec; nudb::verify<vhasher>(i, d, k, buf, pr, ec); o.add("verify", code(ec)); if(ec) return;
    o.add("values", i.value_count); o.add("keys", i.key_count); o.add("bytes", i.value_bytes); o.add("algorithm", (u64)i.algorithm); CHECK(i.dat_path == d && i.key_path == k, "paths in verify_info");
    if(!fresh) { o.add("spills", i.spill_count); o.add("all spills", i.spill_count_tot); o.add("spill bytes", i.spill_bytes); o.add("reads", (u64)(i.avg_fetch * 1000)); for(auto h : i.hist) o.add("hist", h); }
}
static Job make_job(u64 seed) {
    Job j; j.seed = seed; Rng r(seed); only_kind() = 0;
    for(Cfg* c : {&j.c, &j.c2}) { *c = gen_cfg(r, true); c->kind = 0; if(c->key_size > 2000) c->key_size = r.range(4, 200); c->valmode = r.chance(1, 5) ? 2 : 0; if(c->block_size > 8192) c->block_size = r.range(104, 1000); }
    j.whole = make_db(r, 500, false, 4096); j.cut = make_db(r, 300, true, 4096);
    j.bad = r.chance(1, 2) ? j.whole.key() : j.whole.dat(); bytes b = j.bad.all(); if(b.size() > 110) for(u64 i = r.range(1, 6); i--;) b[r.range(104, b.size() - 1)] = (u8)r.next(); j.damage = b; return j;
}
static void script(Job const& j, std::string const& dir, Seen& o) {
    Rng r(mix2(j.seed, 1)); sim::Blob b; error_code ec;
    auto rm = [&](char const* n) { rm_file(dir + n); };
    // Two stores, one used in the callbacks of the other
    {
        Session<NF> a(j.c, dir + "a."), c(j.c2, dir + "c."); a.create(); c.create(); a.open(); c.open(); u64 rounds = r.range(1, 4), na = 0, nc = 0, maxa = a.max_keys(600), maxc = c.max_keys(600), left = 1500000;
        while(rounds--) {
            for(u64 n = r.range(1, 120); n--;) { if(na < maxa && value_size(j.c, na, 0) < left) { left -= value_size(j.c, na, 0); a.insert(na++, 0); } if(r.chance(1, 3) && na) a.insert(r.below(na), 1);
                if(r.chance(1, 2)) { u64 i = r.below(maxa + 2), k = r.below(maxc + 2); bool put = r.chance(1, 2) && nc < maxc && value_size(j.c2, nc, 0) < left; if(put) left -= value_size(j.c2, nc, 0); int calls = 0; KeyBuf key(make_key(j.c, i));
                    a.s->fetch(key, Callback([&](void const* p, std::size_t z) { ++calls; bytes was((u8 const*)p, (u8 const*)p + z); if(put) c.insert(nc++, 0); c.fetch(k);
                        if(nc) { error_code e2; KeyBuf k2(make_key(j.c2, nc / 2)); bytes got; c.s->fetch(k2, Callback([&](void const* q, std::size_t y) { got.assign((u8 const*)q, (u8 const*)q + y); }), e2); CHECK(!e2 && got == make_value(j.c2, nc / 2, 0), "fetch within a fetch callback: %s", e2.message().c_str()); } CHECK(!std::memcmp(was.data(), p, z), "a value changed while another database was used in the callback"); o.add("fetched", was); }), ec); o.add("fetch", code(ec)); CHECK((calls == 1) == (a.model.count(i) == 1), "fetch of key %llu: %d calls", (unsigned long long)i, calls); ec = {}; }
                if(r.chance(1, 3)) c.fetch(r.below(maxc + 2)); }
            if(r.chance(1, 2)) a.flush(); if(r.chance(1, 2)) c.flush();
            if(r.chance(1, 5)) { a.close(); a.open(); }
        }
        a.fetch_all(); a.close(); c.close();
        for(auto n : {"a.db.dat", "a.db.key", "c.db.dat", "c.db.key"}) { HARNESS(get_file(dir + n, b), "no %s", n); o.add(n, b); }
        see_verify(o, a.dp, a.kp, r.chance(1, 2) ? 0 : r.range(2000, 3000000), false, [&] { for(u64 b : {(u64)0, (u64)1 << 20}) see_verify(o, c.dp, c.kp, b, false); });
        // Copied through the callbacks of visit, read in those of fetch
        Session<NF> t(j.c2, dir + "t."); t.create(); t.open(); u64 sum = 1, n = 0;
        nudb::visit(a.dp, Visitor([&](void const* k, std::size_t ks, void const* p, std::size_t z, error_code&) { u64 was = sum; sum = mix2(sum, fnv(k, ks)); sum = mix2(sum, fnv(p, z)); if(n < maxc && n < 50) { t.insert(n, 0); t.fetch(n / 2); if(n % 16 == 7) t.flush(); }
            if(n == 3 || n == 40) { u64 s2 = 0; error_code e2; nudb::visit(c.dp, Visitor([&](void const* k2, std::size_t ks2, void const* p2, std::size_t z2, error_code&) { s2 = mix2(s2, fnv(k2, ks2) ^ fnv(p2, z2)); }), Progress([](u64, u64) {}), e2); o.add("visit within a visit", code(e2)); o.add("visited", s2); see_verify(o, c.dp, c.kp, n == 3 ? 0 : 1 << 20, false); CHECK(sum == mix2(mix2(was, fnv(k, ks)), fnv(p, z)), "key or value changed while another database was visited and verified in the callback"); }
            ++n; }), Progress([&](u64, u64) { beat(); }), ec);
        o.add("visit", code(ec)); o.add("visited", n); o.add("visited", sum); ec = {}; n = t.order.size(); t.close(); for(auto f : {"t.db.dat", "t.db.key"}) { HARNESS(get_file(dir + f, b), "no %s", f); o.add(f, b); }
        // A new index, while another database is read in the progress function
        rm_file(a.kp); rm_file(a.lp); t.open(); u64 calls = 0; u64 bs = r.range(104, 1500), items = 1 + r.below(2 * a.order.size() + 1), buf = r.pick<u64>({0, 1000, 20000, 1 << 20}); float lf = r.pick({0.5f, 0.9f});
        Args<NF>::rekey(a.dp, a.kp, a.lp, bs, lf, items, buf, ec, Progress([&](u64, u64) { if(calls++ % 64 == 0) t.fetch(calls % 60); if(calls == 5 || calls == 90) { for(int i = 0; i < 9 && n < maxc; ++i) t.insert(n++, 0); t.flush(); see_verify(o, c.dp, c.kp, calls == 5 ? 0 : 1 << 20, false);
                error_code e2; std::string x = dir + "x"; sim::Blob cd; HARNESS(get_file(c.dp, cd), "no file"); put_file(x + ".dat", cd); Args<NF>::rekey(x + ".dat", x + ".key", x + ".log", 128, 0.9f, 1 + c.order.size() / 9, 2000, e2, Progress([](u64, u64) {})); o.add("rekey within a rekey", code(e2)); see_verify(o, x + ".dat", x + ".key", 1 << 20, true); for(auto n : {"x.dat", "x.key", "x.log"}) rm(n); } })); o.add("rekey", code(ec)); CHECK(!ec, "rekey: %s", ec.message().c_str()); t.close();
        see_verify(o, a.dp, a.kp, r.chance(1, 2) ? 0 : r.range(100000, 3000000), true); a.open(); a.fetch_all(); a.close();
    }
    for(auto n : {"a.db.dat", "a.db.key", "c.db.dat", "c.db.key", "t.db.dat", "t.db.key"}) rm(n);
    // A database that is there already, verified and visited, whole and damaged
    std::string D = dir + "w.dat", K = dir + "w.key"; put_file(D, j.whole.im.at(DP)); put_file(K, j.whole.im.at(KP));
    for(u64 buf : {(u64)0, (u64)60000, (u64)5 << 20}) see_verify(o, D, K, buf, false);
    sim::Blob bad; bad.write(0, j.damage.data(), j.damage.size()); bool key = bad.size() == j.whole.im.at(KP).size() && bad.get(0, 8) == j.whole.im.at(KP).get(0, 8); put_file(key ? K : D, bad);
    for(u64 buf : {(u64)0, (u64)5 << 20}) see_verify(o, D, K, buf, false);
    u64 sum = 0; nudb::visit(D, [&](void const* k, std::size_t ks, void const*, std::size_t z, error_code&) { sum = mix2(sum, fnv(k, ks) + z); }, [](u64, u64) {}, ec); o.add("visit of damaged", code(ec)); o.add("visited", sum); ec = {}; rm("w.dat"); rm("w.key");
    // One that was left in the middle of a commit
    for(auto& e : j.cut.im) put_file(dir + e.first.substr(3), e.second);
    Args<NF>::recover(dir + "db.dat", dir + "db.key", dir + "db.log", ec); o.add("recover", code(ec)); ec = {}; for(auto n : {"db.dat", "db.key"}) { HARNESS(get_file(dir + n, b), "no %s", n); o.add(n, b); } CHECK(!get_file(dir + "db.log", b), "log left");
    { nudb::context ctx; nudb::basic_store<vhasher, NF> s(ctx); Args<NF>::open(s, dir + "nothing", dir + "db.key", dir + "db.log", ec); o.add("open of nothing", code(ec)); CHECK(ec && !s.is_open(), "opened nothing"); ec = {};
      Args<NF>::open(s, dir + "db.dat", dir + "db.key", dir + "db.log", ec); o.add("open", code(ec)); if(!ec) { CHECK(s.dat_path() == dir + "db.dat" && s.key_path() == dir + "db.key" && s.log_path() == dir + "db.log" && s.appnum() == j.cut.c.appnum, "attributes of another store"); for(u64 i = 0; i < 40; ++i) { KeyBuf k(make_key(j.cut.c, i)); u64 sum = 0; s.fetch(k, [&](void const* p, std::size_t z) { sum = fnv(p, z); }, ec); o.add("fetch", code(ec)); o.add("fetched", sum); ec = {}; } s.close(ec); CHECK(!ec, "close"); } }
    Args<NF>::create(dir + "db.dat", dir + "db.key", dir + "db.log", j.c, ec); o.add("create again", code(ec)); ec = {}; rm("db.dat"); rm("db.key"); rm("db.log");
}
static void compare(Seen const& a, Seen const& b, std::string const& who) {
    for(std::size_t i = 0; i < std::min(a.v.size(), b.v.size()); ++i) CHECK(a.v[i] == b.v[i], "%s: observation %zu (%s/%s) is %llx, alone it was %llx", who.c_str(), i, a.v[i].first.c_str(), b.v[i].first.c_str(), (unsigned long long)b.v[i].second, (unsigned long long)a.v[i].second);
    CHECK(a.v.size() == b.v.size(), "%s: %zu observations, alone there were %zu", who.c_str(), b.v.size(), a.v.size());
}
static void one(u64 seed, u64 idx) {
    Rng r(seed); std::size_t T = r.range(2, 6); bool same = r.chance(1, 3); std::string base = scratch_dir(); std::vector<Job> jobs; std::vector<Seen> alone, at_once(T);
    for(std::size_t i = 0; i < (same ? 1 : T); ++i) { beat(); jobs.push_back(make_job(r.next())); }
    hash_kind() = 0; auto dir = [&](std::size_t i) { std::string d = base + fmt("t%zu", i); ::mkdir(d.c_str(), 0755); return d + "/"; };
    // alone: the same twice, so that what is compared does not depend on anything else
    for(auto& j : jobs) { current().set(fmt("case=%llu alone", (unsigned long long)idx)); Seen a, b; script(j, dir(0), a); script(j, dir(1), b); compare(a, b, "run twice alone"); alone.push_back(a); }
    current().set(fmt("case=%llu %zu threads", (unsigned long long)idx, T)); std::vector<std::string> bad(T); std::atomic<std::size_t> go{0}; std::vector<std::thread> th; std::atomic<u64> sum{0};
    for(std::size_t i = 0; i < T; ++i) { std::string d = dir(i); th.emplace_back([&, i, d] { ++go; while(go < T) std::this_thread::yield(); try { for(int k = 0; k < 3; ++k) { Seen o; script(jobs[same ? 0 : i], d, o); compare(alone[same ? 0 : i], o, fmt("thread %zu of %zu", i, T)); sum += o.v.size(); } } catch(std::exception& e) { bad[i] = e.what(); } }); }
    for(auto& t : th) t.join();
    for(std::size_t i = 0; i < T; ++i) { CHECK(bad[i].empty(), "%s", bad[i].c_str()); ::rmdir((base + fmt("t%zu", i)).c_str()); }
    stats().eval(T); stats().add("threads", T); stats().add("observations_compared", sum); stats().nontrivial(mix2(seed, sum)); stats().sample(fmt("%zu threads, %s, %llu observations; first: %s", T, same ? "the same work" : "different work", (unsigned long long)sum, jobs[0].c.str().c_str()));
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
