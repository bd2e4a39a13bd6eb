// C25: databases whose files pass 2, 4, 8 GiB and more (sparse), and large values.
// Modes: store (insert, fetch, commit, crash, recover), rekey, maint (verify and
// visit), values.
#include "verifyone.hpp"
using namespace vf;
using sim::Blob; using sim::Image;

struct Big {
    Cfg c; std::vector<u64> order; std::map<u64, u64> model; Image im; std::map<u64, u64> giants;   // key number -> size
    u64 bound = 0; bool keybig = false; Spec sp;
    std::string str() const { return fmt("%s file beyond %llu (%llu / %llu bytes), %zu keys, %zu giants, %s", keybig ? "key" : "data", (unsigned long long)bound, (unsigned long long)im.at(DP).size(), (unsigned long long)im.at(KP).size(), order.size(), giants.size(), c.str().c_str()); }
};
static const u64 GIANT0 = 1ull << 40;       // key numbers of the giant records
// scan: the data file will be read from end to end
static Big make_big(Rng& r, bool scan) {
    Big b; Cfg c; b.keybig = r.chance(1, 3);
    c.key_size = r.pick({8, 8, 20, 32}); c.kind = 0; c.lf = r.pick({0.5f, 0.9f, 0.75f}); c.appnum = r.next(); c.uid = r.next(); c.salt = r.next(); c.keymode = (int)r.below(4); c.valmode = r.pick({0, 1, 2, 5}); c.kseed = r.next();
    const u64 G = 1ull << 30;
    if(b.keybig) { b.bound = r.pick<u64>({2 * G, 4 * G, 4 * G, 4 * G, 8 * G}); c.block_size = r.pick({8192, 16384, 32768, 65535}); c.lf = r.pick({0.004f, 0.01f, 0.002f}); }
    else { b.bound = scan ? r.pick<u64>({2 * G, 4 * G, 4 * G, 4 * G}) : r.pick<u64>({2 * G, 4 * G, 4 * G, 4 * G, 6 * G, 8 * G, 1024 * G, 131072 * G, 262144 * G - G}); c.block_size = r.pick({104, 128, 200, 512, 1024}); }
    std::vector<std::pair<std::string, bytes>> recs; std::map<std::size_t, u64> gi; u64 i = 0, bytes_ = 0;
    auto small = [&](u64 n) { while(n--) { auto v = make_value(c, i, 0); bytes_ += v.size() + 6 + c.key_size; recs.emplace_back(make_key(c, i), std::move(v)); b.order.push_back(i); b.model[i] = 0; ++i; } };
    small(r.below(150)); u64 head = DAT_HDR + bytes_ ;
    u64 n1 = r.range(3, 200);
    if(!b.keybig) {
        bytes_ = 0; u64 tail = 0; for(u64 j = 0; j < n1; ++j) tail += value_size(c, i + j, 0) + 6 + c.key_size;
        // the boundary lies among the records after the giants, or soon after them
        u64 target = b.bound - std::min<u64>(r.below(2 * tail + 2), b.bound / 2), left = target - head; u64 g = GIANT0;
        while(left) {
            u64 rec = scan ? std::min<u64>(left, r.range(16u << 20, 96u << 20)) : left; if(left - rec < (1 << 20)) rec = left;
            u64 size = rec - 6 - c.key_size; gi[recs.size()] = size; b.giants[g] = size; recs.emplace_back(make_key(c, g), bytes{}); ++g; left -= rec;
        }
    }
    small(n1);
    u64 buckets = std::max<u64>(1, (u64)(recs.size() / (ref_capacity(c.block_size) * c.lf)));
    if(b.keybig) buckets = b.bound / c.block_size - r.below(8);
    b.sp = Spec{c.uid, c.appnum, c.key_size, c.salt, c.block_size, std::min<u64>((u64)(65536.0f * c.lf), 65535), buckets}; b.c = c; hash_kind() = 0;
    ref_write(b.sp, recs, b.im[DP], b.im[KP], r, r.chance(2, 3), gi);
    return b;
}
static void judge(Big const& b, std::vector<u64> const& order, std::map<u64, u64> const& model, Image const& im, char const* when) {
    Blob const& d = im.at(DP); Blob const& k = im.at(KP); Db db = Db::parse(d, k);
    CHECK(db.valid(), "%s: %s", when, db.first().c_str());
    CHECK(db.recs.size() == order.size() + b.giants.size(), "%s: %zu records, expected %zu", when, db.recs.size(), order.size() + b.giants.size());
    for(auto i : order) { auto it = db.by_key.find(make_key(b.c, i)); CHECK(it != db.by_key.end(), "%s: key %llu is lost", when, (unsigned long long)i); bytes v = make_value(b.c, i, model.at(i)); auto& rec = db.recs[it->second]; CHECK(rec.size == v.size() && db.value(rec) == v, "%s: key %llu at offset %llu has another value", when, (unsigned long long)i, (unsigned long long)rec.off); stats().peak("max_record_offset", rec.off); }
    for(auto& g : b.giants) { auto it = db.by_key.find(make_key(b.c, g.first)); CHECK(it != db.by_key.end() && db.recs[it->second].size == g.second, "%s: a large record is lost", when); }
    Blob p = d; Blob const& o = b.im.at(DP); CHECK(p.size() >= o.size(), "%s: data file cut", when); p.trunc(o.size()); CHECK(p == o, "%s: data file bytes changed", when);
    for(auto& s : db.spills) stats().peak("max_spill_offset", s.first); stats().peak("max_bucket_offset", (db.buckets) * b.c.block_size); if(db.spill_live) stats().add("with_live_spills");
}
static void use(Big const& b, Rng& r, sim::Fs& fs, std::vector<u64>& order, std::map<u64, u64>& model, bool crashes) {
    Session<sim::file> ss(b.c, "v:/"); ss.order = order; ss.model = model;
    ss.open();
    for(auto i : order) ss.fetch(i);
    auto giants = [&] { if(b.giants.empty()) return; auto it = b.giants.begin(); std::advance(it, r.below(b.giants.size())); KeyBuf k(make_key(b.c, it->first)); error_code ec; u8 v[3] = {}; ss.s->insert(k, v, 3, ec); CHECK(ec == error::key_exists, "insert of the key of a large record: %s", ec.message().c_str()); };
    giants(); u64 next = order.size(), n = r.range(10, 260), since = 0, f = 1 + r.below(40);
    for(u64 j = 0; j < n; ++j) {
        u64 i = next + j; ss.fetch(i); ss.insert(i, 1); if(r.chance(1, 4)) ss.fetch(i); if(r.chance(1, 6)) ss.insert(ss.order[r.below(ss.order.size())], 5);
        if(++since < f && j + 1 < n) continue;
        since = 0; f = 1 + r.below(60);
        Image before = fs.image(); auto ob = ss.order; ob.resize(ss.committed + 0); bool rec = crashes && r.chance(1, 3);
        if(rec) { fs.log.clear(); fs.recording = true; }
        ss.flush(); stats().add("commits");
        if(rec) {
            fs.recording = false; auto log = fs.log; Image after = fs.image(); fs.log.clear();
            for(int q = 0; q < 6 && !log.empty(); ++q) {
                u64 at = r.below(log.size() + 1); Image im = before; for(u64 x = 0; x < at; ++x) sim::apply(im, log[x]);
                if(at < log.size() && r.chance(1, 3)) sim::apply_torn(im, log[at], r.below(log[at].len + 1));
                bool undo = im.count(LP) != 0;
                sim::Fs f2(im); sim::Use u2(f2); error_code ec; Args<sim::file>::recover(DP, KP, LP, ec); CHECK(!ec, "recover after a crash at %llu of %zu: %s", (unsigned long long)at, log.size(), ec.message().c_str());
                Image got = f2.image(); CHECK(!got.count(LP), "recover left the log"); stats().eval(); stats().add(undo ? "rolled_back" : "recovered_complete");
                auto same = [&](Image& x) { return got[DP] == x[DP] && got[KP] == x[KP]; };
                CHECK(same(before) || same(after), "after a crash at operation %llu of %zu of a commit the files are neither as before nor as after it (data %llu, before %llu, after %llu; key %llu, before %llu, after %llu)", (unsigned long long)at, log.size(), (unsigned long long)got[DP].size(), (unsigned long long)before[DP].size(), (unsigned long long)after[DP].size(), (unsigned long long)got[KP].size(), (unsigned long long)before[KP].size(), (unsigned long long)after[KP].size());
            }
        }
    }
    for(auto i : ss.order) ss.fetch(i);
    for(u64 j = 0; j < 40; ++j) ss.fetch(next + n + j);
    giants(); ss.close(); order = ss.order; model = ss.model;
}
static void store_case(u64 seed, u64 idx) {
    Rng r(seed); Big b = make_big(r, false); current().set(fmt("case=%llu %s", (unsigned long long)idx, b.str().c_str()));
    judge(b, b.order, b.model, b.im, "generated"); // the harness itself
    sim::Fs fs(b.im); sim::Use u(fs); auto order = b.order; auto model = b.model; u64 sessions = r.range(1, 3);
    while(sessions--) { use(b, r, fs, order, model, true); judge(b, order, model, fs.image(), "after a session"); stats().eval(); }
    auto im = fs.image(); stats().add(b.keybig ? "key_files" : "data_files"); if(std::max(im[DP].size(), im[KP].size()) > b.bound) stats().add("boundary_passed");
    stats().nontrivial(mix2(fnvs(b.str()), order.size())); stats().sample(b.str());
}
static void rekey_case(u64 seed, u64 idx) {
    Rng r(seed); Big b = make_big(r, true); u64 n = b.order.size() + b.giants.size(); Cfg c = b.c;
    Image im; im[DP] = b.im[DP]; u64 bs, items = n, buf; float lf = 0.5f; const u64 G = 1ull << 30;
    if(b.keybig) { bs = r.pick({16384, 32768, 65535}); u64 cap = ref_capacity(bs), bk = r.pick<u64>({2 * G, 4 * G, 4 * G + (r.below(8) << 27), 5 * G}) / bs + r.below(5); lf = 0.002f; items = (u64)(bk * (cap * (double)lf)) + 1; buf = r.pick<u64>({64u << 20, 200u << 20}); }
    else { bs = r.pick({104, 256, 1024}); buf = 64 << 20; lf = r.pick({0.5f, 0.99f}); if(r.chance(1, 2)) items = 1 + n / 4; }
    current().set(fmt("case=%llu %s rekey bs=%llu items=%llu lf=%g", (unsigned long long)idx, b.str().c_str(), (unsigned long long)bs, (unsigned long long)items, lf));
    sim::Fs fs(im); sim::Use u(fs); std::vector<sim::Op> log; fs.recording = false; error_code ec; u64 last = 0, total = 0;
    bool crash = r.chance(1, 2); u64 stop_at = r.range(6, 40), ops = 0; Image cut; 
    fs.monitor = [&](sim::Op const& o) { if(crash && sim::mutating(o.k) && ++ops == stop_at) { for(auto& e : fs.names) cut[e.first] = e.second->b; } };
    Args<sim::file>::rekey(DP, KP, LP, bs, lf, items, buf, ec, [&](u64 a, u64 t) { beat(); CHECK(a >= last && a <= t && (!total || t == total), "progress %llu of %llu after %llu of %llu", (unsigned long long)a, (unsigned long long)t, (unsigned long long)last, (unsigned long long)total); last = a; total = t; });
    fs.monitor = nullptr; CHECK(!ec, "rekey: %s", ec.message().c_str()); Image got = fs.image(); CHECK(got.count(KP) && !got.count(LP), "rekey left the log file"); stats().eval();
    Big b2 = b; b2.c.block_size = bs; b2.c.lf = lf; judge(b2, b.order, b.model, got, "after rekey");
    { Db k; k.parse_dat(got[DP]); k.parse_key_header(got[KP]); double want = std::max(1.0, items / (k.capacity * (double)lf)); CHECK(k.buckets >= want * 0.99 - 1 && k.buckets <= want * 1.01 + 1, "%llu buckets for %llu items", (unsigned long long)k.buckets, (unsigned long long)items); b2.c.salt = k.k.salt; }
    if(!cut.empty() && cut.count(LP)) {
        sim::Fs f2(cut); sim::Use u2(f2); error_code e2; Args<sim::file>::recover(DP, KP, LP, e2); Image a = f2.image();
        CHECK(!a.count(LP), "recover of an interrupted rekey left the log: %s", e2.message().c_str());
        CHECK(a.count(DP) && a[DP] == im[DP] && !a.count(KP), "recover of a rekey interrupted at operation %llu: data file %llu bytes, was %llu; key file %s", (unsigned long long)stop_at, (unsigned long long)a[DP].size(), (unsigned long long)im[DP].size(), a.count(KP) ? "left" : "gone"); stats().add("rekeys_rolled_back");
    }
    auto order = b.order; auto model = b.model; use(b2, r, fs, order, model, false); judge(b2, order, model, fs.image(), "after rekey and a session");
    stats().add(b.keybig ? "key_files" : "data_files"); stats().nontrivial(mix2(fnvs(b.str()), bs)); stats().sample(fmt("rekey to block size %llu, %llu items: %s", (unsigned long long)bs, (unsigned long long)items, b.str().c_str()));
}
static void maint_case(u64 seed, u64 idx) {
    Rng r(seed); Big b = make_big(r, true); current().set(fmt("case=%llu %s", (unsigned long long)idx, b.str().c_str()));
    auto order = b.order; auto model = b.model; Image im = b.im;
    if(r.chance(2, 3)) { sim::Fs fs(b.im); sim::Use u(fs); use(b, r, fs, order, model, false); im = fs.image(); }
    std::string D = scratch_dir() + "b.dat", K = scratch_dir() + "b.key"; put_file(D, im[DP]); put_file(K, im[KP]); Db db = Db::parse(im[DP], im[KP]); HARNESS(db.valid(), "%s", db.first().c_str());
    { Blob x; HARNESS(get_file(D, x) && x == im[DP] && get_file(K, x) && x == im[KP], "files not written"); }
    double avg = avg_reads(db, im[KP]); auto what = b.str();
    verify_one(D, K, what, db, 0, avg);
    u64 min_buf = db.buckets * b.c.block_size / 40 + 2 * b.c.block_size + 16;
    verify_one(D, K, what, db, b.keybig ? min_buf : (std::size_t)r.pick<u64>({im[KP].size() + 1000, 64u << 20}), avg);
    std::size_t i = 0; error_code ec; u64 last = 0;
    nudb::visit(D, [&](void const* k, std::size_t ks, void const* v, std::size_t vs, error_code&) {
        beat(); CHECK(i < db.recs.size(), "visit delivered more than %zu records", db.recs.size()); auto& rec = db.recs[i++];
        CHECK(ks == rec.key.size() && !std::memcmp(k, rec.key.data(), ks) && vs == rec.size, "visit: wrong key or size for record %zu at %llu", i - 1, (unsigned long long)rec.off);
        if(vs < (1 << 20)) { bytes w = db.value(rec); CHECK(!std::memcmp(v, w.data(), vs), "visit: wrong value at %llu", (unsigned long long)rec.off); }
    }, [&](u64 a, u64 t) { CHECK(a >= last && a <= t, "visit progress %llu of %llu", (unsigned long long)a, (unsigned long long)t); last = a; }, ec);
    CHECK(!ec && i == db.recs.size(), "visit delivered %zu of %zu records: %s", i, db.recs.size(), ec.message().c_str()); stats().eval(); stats().add("records_visited", i);
    // damage beyond the boundary is found
    for(int q = 0; q < 3; ++q) {
        Blob d = im[DP], k = im[KP]; std::string how;
        if(!b.keybig) { auto& rec = db.recs[db.recs.size() - 1 - r.below(std::min<u64>(20, db.recs.size()))]; if(rec.size > (1 << 20)) continue; d.write(rec.off + 6 + r.below(rec.key.size()), "\x5c", 1); how = "key byte of a record changed"; if(d == im[DP]) continue; }
        else { std::vector<u64> at; for(u64 n = db.buckets; n-- > 0 && at.size() < 50;) if(!k.hole((n + 1) * b.c.block_size, 2)) { bytes x = k.get((n + 1) * b.c.block_size, 2); if(be(x.data(), 2)) at.push_back(n); } if(at.empty()) continue; u64 n = at[r.below(at.size())]; bytes z(2); k.write((n + 1) * b.c.block_size, z.data(), 2); how = fmt("bucket %llu emptied", (unsigned long long)n); }
        put_file(D, d); put_file(K, k);
        for(u64 buf : {u64(0), b.keybig ? min_buf : u64(64 << 20)}) { nudb::verify_info inf; error_code e; nudb::verify<vhasher>(inf, D, K, buf, [](u64, u64) { beat(); }, e); CHECK(e, "verify (buffer %llu) does not report: %s", (unsigned long long)buf, how.c_str()); stats().eval(); }
        stats().add("damage_reported");
    }
    // the native file and store on the real files
    put_file(D, im[DP]); put_file(K, im[KP]);
    { Session<nudb::native_file> ss(b.c, ""); ss.dp = D; ss.kp = K; ss.lp = scratch_dir() + "b.log"; ss.order = order; ss.model = model; ss.open(); for(auto x : order) ss.fetch(x); u64 n = 30; for(u64 j = 0; j < n; ++j) { ss.insert(order.size() + j, 2); if(j % 11 == 0) ss.flush(); } for(auto x : ss.order) ss.fetch(x); ss.close();
      Image got; get_file(D, got[DP]); get_file(K, got[KP]); judge(b, ss.order, ss.model, got, "after a session on real files"); stats().eval(); }
    rm_file(D); rm_file(K); stats().add(b.keybig ? "key_files" : "data_files"); stats().nontrivial(mix2(fnvs(b.str()), idx)); stats().sample(b.str());
}
static void values_case(u64 seed, u64 idx) {
    Rng r(seed); Cfg c; c.key_size = r.pick({8, 32}); c.block_size = r.pick({128, 4096}); c.kseed = r.next(); hash_kind() = 0; bool huge = opt().tier == "thorough" && idx % 64 == 5;
    std::string d = scratch_dir(), D = d + "b.dat", K = d + "b.key", L = d + "b.log"; for(auto& p : {D, K, L}) rm_file(p);
    error_code ec; nudb::create<vhasher>(D, K, L, c.appnum, c.uid, c.salt, c.key_size, c.block_size, 0.5f, ec); CHECK(!ec, "create");
    std::map<u64, u64> sz; nudb::context ctx; std::unique_ptr<nudb::basic_store<vhasher, nudb::native_file>> s;
    auto open = [&] { s.reset(new nudb::basic_store<vhasher, nudb::native_file>(ctx)); s->open(D, K, L, ec); CHECK(!ec, "open: %s", ec.message().c_str()); s->set_burst(std::size_t(1) << 40); };
    auto fillv = [&](u64 i, u64 n, u8* p) { u64 x = mix2(c.kseed, i); for(u64 o = 0; o < n; o += 4096) { u64 y = mix(x + o); std::memcpy(p + o, &y, std::min<u64>(8, n - o)); } p[n - 1] = u8(i + 77); };
    auto ok = [&](u64 i, u64 n, u8 const* p) { u64 x = mix2(c.kseed, i); for(u64 o = 0; o + 4096 < n; o += 4096) { u64 y = mix(x + o); if(std::memcmp(p + o, &y, std::min<u64>(8, n - o))) return false; } return p[n - 1] == u8(i + 77); };
    auto fetch = [&] { for(auto& e : sz) { beat(); ec = {}; KeyBuf k(make_key(c, e.first)); bool good = false; u64 got = 0; s->fetch(k, [&](void const* p, std::size_t n) { got = n; good = n == e.second && ok(e.first, n, (u8 const*)p); }, ec); CHECK(!ec && good, "fetch of a value of %llu bytes: %s, %llu bytes", (unsigned long long)e.second, ec.message().c_str(), (unsigned long long)got); stats().eval(); stats().peak("largest_value", e.second); } };
    open(); u64 n = huge ? 3 : r.range(2, 6);
    for(u64 i = 0; i < n; ++i) {
        u64 z = r.pick<u64>({(16u << 20) - r.below(3), (16u << 20) + r.below(3), r.range(1u << 20, 40u << 20), (32u << 20) + r.below(2), 65536 - r.below(2), 65536, r.range(1, 300), (u64)1 << r.range(17, 25)});
        if(huge && i == 1) z = (1ull << 31) + r.range(1, 5000000);
        current().set(fmt("case=%llu value of %llu bytes", (unsigned long long)idx, (unsigned long long)z)); current().beat++;
        { std::unique_ptr<u8[]> v(new u8[z]()); fillv(i, z, v.get()); KeyBuf k(make_key(c, i)); s->insert(k, v.get(), z, ec); CHECK(!ec, "insert of %llu bytes: %s", (unsigned long long)z, ec.message().c_str()); sz[i] = z; s->insert(k, v.get(), z, ec); CHECK(ec == error::key_exists, "second insert: %s", ec.message().c_str()); ec = {}; }
        if(r.chance(1, 2)) fetch(); if(r.chance(1, 2)) { beat(); ctx.flush(); }
    }
    fetch(); s->close(ec); CHECK(!ec, "close: %s", ec.message().c_str()); open(); fetch(); s->close(ec); s.reset();
    for(std::size_t buf : {(std::size_t)0, (std::size_t)(8 << 20)}) { nudb::verify_info i; nudb::verify<vhasher>(i, D, K, buf, [](u64, u64) { beat(); }, ec); u64 tot = 0; for(auto& e : sz) tot += e.second; CHECK(!ec && i.value_count == sz.size() && i.key_count == sz.size() && i.value_bytes == tot, "verify: %s, %llu values, %llu bytes", ec.message().c_str(), (unsigned long long)i.value_count, (unsigned long long)i.value_bytes); }
    auto visit = [&] { std::set<u64> seen; nudb::visit(D, [&](void const* k, std::size_t, void const* p, std::size_t z, error_code&) { for(auto& e : sz) if(e.second == z && ok(e.first, z, (u8 const*)p) && !std::memcmp(k, make_key(c, e.first).data(), c.key_size)) seen.insert(e.first); }, [](u64, u64) { beat(); }, ec); CHECK(!ec && seen.size() == sz.size(), "visit found %zu of %zu: %s", seen.size(), sz.size(), ec.message().c_str()); };
    visit(); rm_file(K); nudb::rekey<vhasher, nudb::native_file>(D, K, L, r.pick({128, 4096}), 0.5f, sz.size(), 1 << 20, ec, [](u64, u64) { beat(); }); CHECK(!ec, "rekey: %s", ec.message().c_str());
    open(); fetch(); s->close(ec); s.reset(); visit();
    for(auto& p : {D, K, L}) rm_file(p); stats().nontrivial(mix2(seed, n)); std::string q; for(auto& e : sz) q += fmt(" %llu", (unsigned long long)e.second); stats().sample("values of" + q + " bytes");
}
// As many buckets as there can be, 2^32, and more
static void wide_case(u64 seed, u64 idx) {
    Rng r(seed); Cfg c; c.key_size = r.pick({8, 20, 32}); c.kind = 0; c.lf = r.pick({0.5f, 0.9f, 0.1f}); c.block_size = r.pick({104, 128, 200, 512}); c.appnum = r.next(); c.uid = r.next(); c.salt = r.next(); c.kseed = r.next(); hash_kind() = 0;
    const u64 M = 1ull << 32; bool over = r.chance(1, 5);
    u64 buckets = over ? M + 1 + r.skew(M * 40) : r.pick<u64>({M, M - r.below(3), M - r.below(400), M - 1 - r.skew(M / 2), M / 2 + r.below(3), M / 2 - r.below(100), M / 4 + r.below(50)});
    bool near = buckets <= M && buckets + 400 > M; if(near) { c.block_size = r.pick({512, 4096, 16384}); c.lf = 0.9f; }    // stays below 2^32
    current().set(fmt("case=%llu wide: %llu buckets %s", (unsigned long long)idx, (unsigned long long)buckets, c.str().c_str()));
    Image im; ref_write(Spec{c.uid, c.appnum, c.key_size, c.salt, c.block_size, (u64)(65536.0f * c.lf), 1}, {}, im[DP], im[KP], r, false, {});
    im[KP].trunc((buckets + 1) * c.block_size);
    sim::Fs fs(im); sim::Use u(fs); std::vector<u64> order; std::map<u64, u64> model; u64 n = 0;
    if(over) {
        nudb::context ctx; nudb::basic_store<vhasher, sim::file> s(ctx); error_code ec; Args<sim::file>::open(s, DP, KP, LP, ec);
        CHECK(ec, "a key file with %llu buckets was opened", (unsigned long long)buckets); CHECK(!s.is_open() && fs.handles == 0, "the store is open");
        ec = {}; Args<sim::file>::recover(DP, KP, LP, ec); Image now = fs.image(); CHECK(now[DP] == im[DP] && now[KP] == im[KP], "recover changed the files"); stats().add("refused"); stats().eval(); stats().nontrivial(mix2(seed, buckets)); return;
    }
    for(u64 k = r.range(1, 3); k--; ) {
        Session<sim::file> ss(c, "v:/"); ss.order = order; ss.model = model; ss.open(); for(auto i : order) ss.fetch(i);
        u64 here = 0; for(u64 j = r.range(1, 120); j--; ++n) { if(near && ++here + 2 > ref_capacity(c.block_size) * c.lf / 2) break; ss.insert(n, 0); if(r.chance(1, 10)) ss.flush(); if(r.chance(1, 4)) ss.fetch(r.below(n + 1)); }
        for(u64 i = 0; i < n + 20; ++i) ss.fetch(i);
        ss.close(); order = ss.order; model = ss.model;
        Image now = fs.image(); Db d; d.parse_dat(now[DP]); CHECK(d.valid() && d.recs.size() == n, "%s", d.first().c_str());
        CHECK(now[KP].size() % c.block_size == 0, "key file size"); u64 b = now[KP].size() / c.block_size - 1, m = ref_pow2(b), cap = ref_capacity(c.block_size);
        double grow = n / std::max(1.0, cap * (double)c.lf); CHECK(b >= buckets && b - buckets <= grow * 1.01 + 4 && b - buckets + 4 + 4 >= grow * 0.99, "%llu buckets after %llu keys, %llu before", (unsigned long long)b, (unsigned long long)n, (unsigned long long)buckets);
        for(auto& rec : d.recs) {
            u64 h = ref_h48(c.salt, rec.key.data(), rec.key.size()), at = ref_index(h, b, m); bytes raw = now[KP].get((at + 1) * c.block_size, c.block_size); Bkt k = ref_bucket(raw.data(), cap);
            bool in = k.spill != 0; for(auto& e : k.e) in |= e.off == rec.off && e.size == rec.size && e.hash == h;
            CHECK(in, "record at %llu is not in bucket %llu of %llu", (unsigned long long)rec.off, (unsigned long long)at, (unsigned long long)b); stats().add("keys_in_right_bucket"); stats().peak("max_bucket", at);
        }
        stats().eval();
    }
    stats().add("wide_key_files"); stats().nontrivial(mix2(seed, n)); stats().sample(fmt("%llu buckets, %llu keys", (unsigned long long)buckets, (unsigned long long)n));
}
static void one(u64 seed, u64 idx) {
    auto& m = opt().mode;
    if(m == "wide") wide_case(seed, idx); else if(m == "store") store_case(seed, idx); else if(m == "rekey") rekey_case(seed, idx); else if(m == "maint") maint_case(seed, idx); else values_case(seed, idx);
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
