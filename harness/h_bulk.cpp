// More than 65536 keys, buckets, spill records and keys of one bucket at a time:
// commits (C03, C09), crashes of such commits (C04, C05), verify, rekey and visit (C10, C12, C14).
#include "dbgen.hpp"
#include "verifyone.hpp"
#include "wal.hpp"
using namespace vf;

static Cfg bulk_cfg(Rng& r, int shape) {
    Cfg c; c.key_size = r.pick<u64>({8, 8, 20, 32}); c.kind = 0; c.appnum = r.next(); c.uid = r.next(); c.salt = r.next(); c.kseed = r.next(); c.keymode = (int)r.below(4); c.valmode = 0; hash_kind() = 0;
    if(shape == 0) { c.block_size = r.range(104, 130); c.lf = r.pick({0.5f, 0.75f}); }          // more than 65536 buckets
    else { c.block_size = r.pick<u64>({512, 4096, 65535, 20000}); c.lf = r.pick({0.9f, 0.99f, 0.5f}); }
    return c;
}
static void put_many(Session<sim::file>& ss, u64 n) { u64 from = ss.order.size(); for(u64 i = from; i < from + n; ++i) { KeyBuf k(make_key(ss.c, i)); bytes v = make_value(ss.c, i, 0); error_code ec; ss.s->insert(k, v.data(), v.size(), ec); CHECK(!ec, "insert of new key %llu: %s", (unsigned long long)i, ec.message().c_str()); ss.model.emplace_hint(ss.model.end(), i, 0); ss.order.push_back(i); ++ss.ninsert; if((i & 1023) == 0) beat(); } }
static void sample(Session<sim::file>& ss, Rng& r, u64 n) { u64 N = ss.order.size(); for(u64 i = 0; i < n; ++i) { ss.fetch(r.chance(1, 3) ? std::min(N - 1, 65530 + r.below(12)) : r.below(N)); if(i % 16 == 0) ss.fetch(N + r.below(1000)); } }

static void store_case(u64 seed, u64 idx) {
    Rng r(seed); int shape = idx % 4 == 3; Cfg c = bulk_cfg(r, shape); u64 n = shape ? r.range(66000, 150000) : r.range((u64)(c.cap() * c.lf * 67000), (u64)(c.cap() * c.lf * 75000)); bool wide = !shape;
    current().set(fmt("case=%llu %s keys=%llu", (unsigned long long)idx, c.str().c_str(), (unsigned long long)n));
    sim::Fs fs; sim::Use u(fs); Session<sim::file> ss(c, "v:/"); ss.create(); ss.open();
    put_many(ss, n / 2 + 66000 > n ? n : 66000); sample(ss, r, 2000);
    // in the middle of the commit, too
    u64 k = 0, at = r.below(200), got = 0; bool in = false;
    fs.pause = [&](sim::Op const& o) { if(in || o.k != sim::K::write || k++ % 20000 != at) return; in = true; try { sample(ss, r, 300); ss.insert(ss.order[r.below(ss.order.size())], 3); ++got; } catch(Violation& v) { die_violation(v.what()); } in = false; };
    ss.flush(); fs.pause = nullptr; sample(ss, r, 3000);
    if(ss.order.size() < n) { put_many(ss, n - ss.order.size()); sample(ss, r, 2000); }
    if(r.chance(1, 2)) ss.flush();
    ss.close(); ss.open(); sample(ss, r, 20000); put_many(ss, 100); ss.flush(); ss.close(); ss.s.reset();
    auto im = fs.image(); Db db = Db::parse(im[DP], im[KP]); beat(); CHECK(db.valid(), "files do not conform: %s", db.first().c_str()); check_headers(db, c);
    auto d = diff_prefix(db, c, ss.order, ss.model, ss.order.size()); CHECK(d.empty(), "%s", d.c_str());
    if(wide) HARNESS(db.buckets > 65536, "%llu buckets only", (unsigned long long)db.buckets);
    stats().eval(); stats().peak("buckets", db.buckets); stats().peak("keys", ss.order.size()); stats().peak("spill_records", db.spills.size()); stats().add("keys", ss.order.size()); stats().add("fetches", ss.nfetch); stats().add("looks_inside_commits", got);
    stats().nontrivial(mix2(fnvs(c.str()), n)); stats().sample(fmt("%s keys=%zu buckets=%llu spills=%zu", c.str().c_str(), ss.order.size(), (unsigned long long)db.buckets, db.spills.size()));
}

// Kill in a commit that changes more than 65536 buckets
static void crash_case(u64 seed, u64 idx) {
    Rng r(seed); Cfg c = bulk_cfg(r, 0); u64 n = r.range((u64)(c.cap() * c.lf * 78000), (u64)(c.cap() * c.lf * 82000)), more = r.range(180000, 220000);
    current().set(fmt("case=%llu crash %s keys=%llu+%llu", (unsigned long long)idx, c.str().c_str(), (unsigned long long)n, (unsigned long long)more));
    sim::Fs fs; sim::Use u(fs); Session<sim::file> ss(c, "v:/"); ss.create(); ss.open(); put_many(ss, n); ss.flush(); u64 n0 = ss.order.size(); sim::Image was = fs.image(); put_many(ss, more);
    bool wal = opt().mode == "wal"; WalMon mon(DP, KP, LP, was); sim::Durable dur(was); fs.monitor = [&](sim::Op const& o) { if(wal) mon.on(o); else dur.on(o); };
    std::map<std::string, u64> per; std::vector<std::pair<std::string, sim::Image>> shots; u64 last_key = 0;
    fs.pause = [&](sim::Op const& o) {
        beat(); u64 k = per[o.path + kname(o.k)]++; bool shot = false;
        if(o.path == KP && o.k == sim::K::write) { shot = k == 0 || k == 30000 || (k > 66000 && !last_key); if(k > 66000) last_key = k; }
        if(o.path == KP && o.k == sim::K::sync) shot = true;
        if(o.path == LP && o.k == sim::K::trunc) shot = true;
        if(wal) { if(k > 66000) last_key = k; return; }
        if(shot && shots.size() < 12) shots.emplace_back(fmt("power lost before %s of %s number %llu", kname(o.k), o.path.c_str(), (unsigned long long)k), dur.lose(r, {KP}, (int)r.below(2)));
        if(shot && shots.size() < 12) shots.emplace_back(fmt("before %s of %s number %llu", kname(o.k), o.path.c_str(), (unsigned long long)k), fs.image());
    };
    ss.flush(); fs.pause = nullptr; fs.monitor = nullptr; if(wal) { mon.ack("commit"); stats().eval(); stats().nontrivial(seed); stats().add("monitored_events", mon.events); stats().add("key_overwrites_checked", mon.key_blocks_checked); stats().add("log_discards_checked", mon.log_discards); stats().peak("key_overwrites_in_one_commit", mon.key_blocks_checked); }
    u64 n1 = ss.order.size(); ss.close(); ss.s.reset();
    HARNESS(last_key > 65536, "only %llu writes", (unsigned long long)last_key);
    for(auto& s : shots) {
        sim::Fs f(s.second); sim::Use u2(f); error_code ec; beat(); Args<sim::file>::recover(DP, KP, LP, ec); beat(); CHECK(!ec, "%s: recover: %s", s.first.c_str(), ec.message().c_str());
        auto im = f.image(); CHECK(!im.count(LP), "%s: log file left", s.first.c_str()); CHECK(im[DP] == was[DP], "%s: the data file is not what it was before the commit", s.first.c_str());
        Db db = Db::parse(im[DP], im[KP]); beat(); CHECK(db.valid(), "%s: recovered files: %s", s.first.c_str(), db.first().c_str()); auto d = diff_prefix(db, c, ss.order, ss.model, n0); CHECK(d.empty(), "%s: %s", s.first.c_str(), d.c_str()); stats().add("crash_images"); stats().eval(); stats().nontrivial(mix2(seed, fnvs(s.first)));
    }
    auto im = fs.image(); Db db = Db::parse(im[DP], im[KP]); CHECK(db.valid() && db.by_key.size() == n1, "after the commit: %s", db.first().c_str()); stats().peak("buckets", db.buckets); stats().peak("bucket_writes", last_key);
    stats().sample(fmt("%s buckets=%llu written in the commit=%llu crash images=%zu", c.str().c_str(), (unsigned long long)db.buckets, (unsigned long long)last_key, shots.size()));
}

// A data file of many records, then rekeyed to many buckets or to a single one
static void maint_case(u64 seed, u64 idx) {
    Rng r(seed); int kind = (int)(idx % 3); std::string mode = opt().mode; Cfg c = bulk_cfg(r, 1); c.block_size = 4096; c.lf = 0.9f; u64 n = kind == 2 && mode != "visit" ? r.range(350000, 400000) : r.range(66000, 100000);
    current().set(fmt("case=%llu %s %s keys=%llu", (unsigned long long)idx, mode.c_str(), c.str().c_str(), (unsigned long long)n));
    std::vector<u64> order; std::map<u64, u64> model; sim::Blob dat;
    { sim::Fs fs; sim::Use u(fs); Session<sim::file> ss(c, "v:/"); ss.create(); ss.open(); put_many(ss, n); ss.close(); dat = fs.image()[DP]; order = ss.order; model = ss.model; }
    if(mode == "visit") {
        std::string d = scratch_dir(), D = d + "db.dat"; put_file(D, dat); error_code ec; Db db = Db::parse_dat_only(dat); u64 i = 0;
        nudb::visit(D, [&](void const* k, std::size_t ks, void const* p, std::size_t z, error_code&) { CHECK(i < db.recs.size(), "more records than there are"); auto& x = db.recs[i]; CHECK(ks == x.key.size() && !std::memcmp(k, x.key.data(), ks) && z == x.size && !std::memcmp(p, db.value(x).data(), z), "record %llu is not the one in the file", (unsigned long long)i); ++i; if(!(i & 1023)) beat(); }, [](u64, u64) {}, ec);
        CHECK(!ec && i == db.recs.size() && i == n, "visit: %s after %llu of %llu records", ec.message().c_str(), (unsigned long long)i, (unsigned long long)n); stats().eval(); stats().add("records", i); stats().nontrivial(n); rm_file(D); return;
    }
    // 0: more than 65536 buckets; 1: more than 65536 keys in one bucket; 2: more than 65536 spill records
    u64 bs = kind == 0 ? r.range(104, 120) : kind == 1 ? r.pick<u64>({65535, 60000}) : 104, items; float lf = 0.9f; u64 cap = ref_capacity(bs);
    if(kind == 0) { lf = 0.2f; items = (u64)(cap * lf * r.range(66000, 90000)); } else if(kind == 1) items = 1; else { lf = 0.99f; items = mode == "rekey" && r.chance(1, 2) ? n / 1500 : n / 60; }
    sim::Image im; im[DP] = dat; sim::Fs f(im); sim::Use u(f); error_code ec; u64 buf = r.pick<u64>({1 << 20, 4 << 20, 16 << 20}); Args<sim::file>::rekey(DP, KP, LP, bs, lf, items, buf, ec, [](u64, u64) { beat(); }); CHECK(!ec, "rekey(block %llu, load %g, items %llu): %s", (unsigned long long)bs, lf, (unsigned long long)items, ec.message().c_str());
    im = f.image(); Db db = Db::parse(im[DP], im[KP]); beat(); CHECK(db.valid(), "rekey: %s", db.first().c_str()); c.block_size = bs; c.lf = lf;
    CHECK(im[DP].size() >= dat.size() && im[DP].same(dat, 0, dat.size()), "rekey changed the data file"); auto d = diff_prefix(db, c, order, model, n); CHECK(d.empty(), "rekey: %s", d.c_str());
    double want = std::max(1.0, items / (db.capacity * (double)lf)); CHECK(db.buckets >= want * (1 - 1e-4) && db.buckets <= want * (1 + 1e-4) + 1, "%llu buckets for %llu items", (unsigned long long)db.buckets, (unsigned long long)items);
    stats().eval(); stats().peak("buckets", db.buckets); stats().peak("keys", n); stats().peak("spill_records", db.spills.size()); stats().peak("max_chain", db.max_chain); stats().nontrivial(mix2(n, kind));
    std::string dir = scratch_dir(), D = dir + "db.dat", K = dir + "db.key"; put_file(D, im[DP]); put_file(K, im[KP]); double avg = avg_reads(db, im[KP]);
    if(mode == "verify") for(std::size_t b : {(std::size_t)0, (std::size_t)(db.buckets + 2) * (bs + 16), (std::size_t)(db.buckets / 3 + 2) * (bs + 16)}) { verify_one(D, K, fmt("kind %d, %s", kind, c.str().c_str()), db, b, avg); beat(); }
    else { nudb::context ctx; nudb::basic_store<vhasher, sim::file> s(ctx); Args<sim::file>::open(s, DP, KP, LP, ec); CHECK(!ec, "open: %s", ec.message().c_str());
        for(int i = 0; i < 3000; ++i) { u64 j = r.chance(1, 3) ? std::min(n - 1, 65530 + r.below(12)) : r.below(n); KeyBuf k(make_key(c, j)); bytes got; ec = {}; s.fetch(k, [&](void const* p, std::size_t z) { got.assign((u8 const*)p, (u8 const*)p + z); }, ec); CHECK(!ec && got == make_value(c, j, 0), "fetch of key %llu from the rekeyed database: %s", (unsigned long long)j, ec.message().c_str()); beat(); }
        s.close(ec); CHECK(!ec, "close"); }
    rm_file(D); rm_file(K); stats().sample(fmt("kind %d: %s keys=%llu buckets=%llu spills=%zu longest chain=%llu", kind, c.str().c_str(), (unsigned long long)n, (unsigned long long)db.buckets, db.spills.size(), (unsigned long long)db.max_chain));
}
static void one(u64 seed, u64 idx) { auto& m = opt().mode; if(m == "store") store_case(seed, idx); else if(m == "crash" || m == "wal") crash_case(seed, idx); else maint_case(seed, idx); }
int main(int argc, char** argv) { return run_main(argc, argv, one); }
