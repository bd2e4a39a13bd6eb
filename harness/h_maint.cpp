// Verify statistics (verify, C10), verify on damaged files (damage, C11), visit (visit, C14).
#include "verifyone.hpp"
using namespace vf;
using sim::Blob; using sim::Image;

static std::string D() { return scratch_dir() + "m.dat"; }
static std::string Kf() { return scratch_dir() + "m.key"; }
static void lay(Made& m) { put_file(D(), m.dat()); put_file(Kf(), m.key()); }
static std::vector<std::string> listing() {
    std::vector<std::string> v; std::string d = scratch_dir();
    // only the two files may exist (besides the driver's own, which live elsewhere)
    FILE* p = popen(("ls -A '" + d + "'").c_str(), "r"); char b[300];
    while(p && fgets(b, sizeof b, p)) { std::string s = b; while(!s.empty() && s.back() == '\n') s.pop_back(); v.push_back(s); }
    if(p) pclose(p); return v;
}
// Buffer sizes on both sides of every decision the algorithm choice makes
static std::vector<std::size_t> bufs(Rng& r, u64 bs, u64 buckets) {
    std::vector<std::size_t> v{0, (std::size_t)(buckets + 2) * (bs + 16)};
    std::size_t mn = 2 * bs + sizeof(nudb::nkey_t);
    std::vector<std::size_t> o{1, bs, mn - 1, mn, mn + 1, mn + bs, std::size_t(r.range(mn, mn + buckets * bs)), std::size_t(r.range(mn, mn + 4 * bs)), std::size_t(buckets * bs), std::size_t(64) << 20};
    for(int i = 0; i < 4; ++i) v.push_back(r.pick(o));
    return v;
}
static void verify_case(u64 seed, u64 idx) {
    Rng r(seed); Made m = make_db(r, idx % 20 == 0 ? 9000 : 1200);
    Db db = Db::parse(m.dat(), m.key()); HARNESS(db.valid(), "generated database: %s", db.first().c_str());
    current().set(fmt("mode=verify case=%llu %s %s keys=%zu", (unsigned long long)idx, m.shape.c_str(), m.c.str().c_str(), m.order.size()));
    lay(m); Blob d0 = m.dat(), k0 = m.key(), x;
    double avg = avg_reads(db, m.key());
    for(auto b : bufs(r, db.k.block_size, db.buckets)) verify_one(D(), Kf(), m.shape + ", " + m.c.str(), db, b, avg);
    CHECK(get_file(D(), x) && x == d0 && get_file(Kf(), x) && x == k0, "verify modified a file");
    auto ls = listing(); CHECK(ls.size() == 2, "verify created files");
    stats().add("shape_" + m.shape); stats().add("records", db.recs.size()); if(db.spill_live) stats().add("with_live_spills"); if(db.spills.size() > db.spill_live) stats().add("with_dead_spills");
    stats().peak("max_buckets", db.buckets); stats().peak("max_chain", db.max_chain);
    stats().nontrivial(mix2(fnvs(m.c.str() + m.shape), mix2(db.recs.size(), mix2(db.buckets, db.spills.size()))));
    stats().sample(fmt("%s %s keys=%zu buckets=%llu spills=%zu/%llu live", m.shape.c_str(), m.c.str().c_str(), m.order.size(), (unsigned long long)db.buckets, db.spills.size(), (unsigned long long)db.spill_live));
}

//------------------------------------------------------------------------------
static std::string damage(Rng& r, Made& m, Db const& db) {
    Blob &d = m.dat(), &k = m.key(); u64 bs = db.k.block_size, bsz = 8 + 18 * db.capacity;
    auto poke = [&](Blob& b, u64 off, int n, u64 v) { u8 t[8]; set_be(t, v, n); b.write(off, t, n); };
    // all live buckets: (blob, offset, count)
    struct L { Blob* b; u64 at; Bkt k; u64 n; };
    std::vector<L> live;
    for(u64 n = 0; n < db.buckets; ++n) {
        bytes raw = k.get((n + 1) * bs, bsz); Bkt b = ref_bucket(raw.data(), db.capacity); live.push_back({&k, (n + 1) * bs, b, n});
        std::set<u64> seen; while(b.spill && b.spill + bsz <= d.size() && seen.insert(b.spill).second) { u64 s = b.spill; raw = d.get(s, bsz); b = ref_bucket(raw.data(), db.capacity); live.push_back({&d, s, b, n}); }
    }
    std::vector<std::size_t> ne, sp; for(std::size_t i = 0; i < live.size(); ++i) { if(live[i].k.e.size()) ne.push_back(i); if(live[i].k.spill) sp.push_back(i); }
    auto near_val = [&](u64 v, u64 mask) -> u64 { switch(r.below(6)) { case 0: return (v + 1) & mask; case 1: return (v - 1) & mask; case 2: return v ^ (1ull << r.below(20)); case 3: return u64(0); case 4: return r.next() & mask; default: return mask; } };
    for(int tries = 0; tries < 30; ++tries) switch(r.below(19)) {
    case 0: case 1: if(!ne.empty()) {   // change a field of an entry
        auto& l = live[ne[r.below(ne.size())]]; u64 i = r.below(l.k.e.size()); int f = (int)r.below(3);
        u64 v = f == 0 ? l.k.e[i].off : f == 1 ? l.k.e[i].size : l.k.e[i].hash, w = near_val(v, 0xffffffffffffull);
        if(f == 1) w &= 0xffffffff;
        if(f == 0 && !db.recs.empty() && r.chance(1, 3)) w = db.recs[r.below(db.recs.size())].off;
        if(v == w) break;
        poke(*l.b, l.at + 8 + 18 * i + 6 * f, 6, w); return fmt("entry %s changed", f == 0 ? "offset" : f == 1 ? "size" : "hash"); } break;
    case 2: if(!ne.empty()) {   // remove an entry
        auto& l = live[ne[r.below(ne.size())]]; Bkt b = l.k; b.e.erase(b.e.begin() + r.below(b.e.size())); bytes o = ref_bucket_bytes(b); o.resize(bsz); l.b->write(l.at, o.data(), o.size()); return "entry removed"; } break;
    case 3: if(!ne.empty()) {   // duplicate an entry over another
        auto& l = live[ne[r.below(ne.size())]]; if(l.k.e.size() < 2) break; u64 i = r.below(l.k.e.size()), j = r.below(l.k.e.size()); if(i == j) break;
        Bkt b = l.k; b.e[i] = b.e[j]; bytes o = ref_bucket_bytes(b); l.b->write(l.at, o.data(), o.size()); return "entry overwritten by a copy of its neighbour"; } break;
    case 4: if(!ne.empty()) { auto& l = live[ne[r.below(ne.size())]]; if(l.k.e.size() < 2) break; Bkt b = l.k; std::swap(b.e[0], b.e[r.range(1, b.e.size() - 1)]); bytes o = ref_bucket_bytes(b); l.b->write(l.at, o.data(), o.size()); return "entries out of order"; } break;
    case 5: if(!live.empty()) { auto& l = live[r.below(live.size())]; u64 c = r.chance(1, 3) ? db.capacity + 1 + r.below(3) : r.below(db.capacity + 1); if(c == l.k.count) break; poke(*l.b, l.at, 2, std::min<u64>(c, 65535)); return "bucket count changed"; } break;
    case 6: if(!sp.empty()) { auto& l = live[sp[r.below(sp.size())]]; u64 w = r.chance(1, 2) ? 0 : near_val(l.k.spill, 0xffffffffffffull); if(r.chance(1, 3)) w = live[sp[r.below(sp.size())]].k.spill; if(w == l.k.spill) break; poke(*l.b, l.at + 2, 6, w); return "spill pointer changed"; } break;
    case 7: { auto& l = live[r.below(live.size())]; if(l.k.spill) break; poke(*l.b, l.at + 2, 6, r.pick({db.dat_size, db.dat_size - 1, u64(92), u64(1), l.at, 92 + r.below(db.dat_size)})); return "spill pointer invented"; }
    case 8: if(!db.recs.empty()) { auto& x = db.recs[r.below(db.recs.size())]; d.write(x.off + 6 + r.below(db.d.key_size), "\x5c", 1); return "key byte of a record changed"; } break;
    case 9: if(!db.recs.empty()) { auto& x = db.recs[r.below(db.recs.size())]; u64 w = near_val(x.size, 0xffffffff); if(r.chance(1, 2)) w = x.size + r.range(1, 9); if(w == x.size) break; poke(d, x.off, 6, w); return "record size changed"; } break;
    case 10: { u64 n = r.chance(1, 2) && !db.recs.empty() ? db.recs[r.below(db.recs.size())].off : r.below(db.dat_size); d.trunc(n); return "data file truncated"; }
    case 11: { u64 n = r.chance(1, 2) ? (1 + r.below(db.buckets + 1)) * bs : r.below(db.key_size_bytes); k.trunc(n); return "key file truncated"; }
    case 12: { u8 v; u64 o = r.below(28); Blob& b = r.chance(1, 2) ? d : k; b.read(o, &v, 1); v ^= 1u << r.below(8); b.write(o, &v, 1); return "header bit flipped"; }
    case 13: { u8 v; u64 o = r.range(28, 47); k.read(o, &v, 1); v ^= 1u << r.below(8); k.write(o, &v, 1); return "key header bit flipped"; }
    case 14: { u64 n = r.below(db.buckets); bytes z(bs); if(r.chance(1, 2) && db.buckets > 1) z = k.get((r.below(db.buckets) + 1) * bs, bs); k.write((n + 1) * bs, z.data(), bs); return "block overwritten"; }
    case 15: { bytes junk(r.range(1, 40)); r.fill(junk.data(), junk.size()); if(r.chance(1, 2)) std::fill(junk.begin(), junk.end(), 0); d.write(d.size(), junk.data(), junk.size()); return "garbage appended to the data file"; }
    case 16: case 17: if(!live.empty() && !db.recs.empty()) {   // one entry too many, all others as they were
        auto& l = live[r.below(live.size())]; if(l.k.e.size() >= db.capacity) break; auto& x = db.recs[r.below(db.recs.size())]; Entry e{x.off, x.size, ref_h48(db.k.salt, x.key.data(), x.key.size())}; char const* what;
        if(r.chance(1, 2) && !l.k.e.empty()) e = l.k.e[r.below(l.k.e.size())];
        switch(r.below(4)) { case 0: e.hash = near_val(e.hash, 0xffffffffffffull); what = "entry added with another hash"; break; case 1: e.size = near_val(e.size, 0xffffffff); what = "entry added with another size"; break; case 2: e.off = near_val(e.off, 0xffffffffffffull); if(r.chance(1, 2)) e.off = r.below(db.dat_size); what = "entry added with another offset"; break; default: what = "entry added twice"; }
        Bkt b = l.k; auto it = b.e.begin(); while(it != b.e.end() && it->hash < e.hash) ++it; b.e.insert(it, e); ++b.count; bytes o = ref_bucket_bytes(b); o.resize(bsz); l.b->write(l.at, o.data(), o.size()); return what; } break;
    default: if(!db.spills.empty()) { auto it = db.spills.begin(); std::advance(it, r.below(db.spills.size())); poke(d, it->second.rec_off + 6, 2, near_val(it->second.size, 0xffff)); return "spill record size changed"; } break;
    }
    if(d.size()) d.trunc(d.size() - 1); return "data file one byte short";
}
static void damage_case(u64 seed, u64 idx) {
    Rng r(seed); Made m0 = make_db(r, idx % 3 ? 60 : 700, false, 1024);
    Db db = Db::parse(m0.dat(), m0.key()); HARNESS(db.valid(), "generated database: %s", db.first().c_str());
    for(int j = 0; j < 8; ++j) {
        Made m = m0; std::string what = damage(r, m, db);
        if(r.chance(1, 10)) what += " and " + damage(r, m, db);
        current().set(fmt("mode=damage case=%llu/%d %s dat=%llu key=%llu", (unsigned long long)idx, j, what.c_str(), (unsigned long long)m.dat().size(), (unsigned long long)m.key().size()));
        Reach x = reachable(m.dat(), m.key());
        Db after = Db::parse(m.dat(), m.key());
        lay(m);
        current().set(fmt("mode=damage case=%llu/%d %s (%s): %s", (unsigned long long)idx, j, what.c_str(), m.shape.c_str(), x.why.c_str()));
        std::string key = what.substr(0, what.find(" and "));
        bool intact = after.valid(); for(auto& q : after.spills) if(q.second.size < 26 || (q.second.size - 8) % 18) intact = false;
        for(auto b : bufs(r, db.k.block_size, db.buckets)) {
            if(b > (16u << 20)) continue;
            nudb::verify_info i; error_code ec; beat();
            nudb::verify<vhasher>(i, D(), Kf(), b, [](u64, u64) {}, ec);
            stats().eval();
            if(!x.ok) CHECK(ec, "verify (buffer %zu, algorithm %d) reports no error although: %s [%s, %s, %s]", b, i.algorithm, x.why.c_str(), what.c_str(), m.shape.c_str(), m.c.str().c_str());
            else if(intact) CHECK(!ec, "verify (buffer %zu) reports '%s' although the files are still a valid database [%s]", b, ec.message().c_str(), what.c_str());
        }
        if(!x.ok) { stats().add("damage: " + key); stats().nontrivial(mix2(fnvs(what), mix2(seed, j))); stats().sample(fmt("%s in %s database: %s", what.c_str(), m.shape.c_str(), x.why.c_str()), 5); }
        else stats().add("harmless: " + key);
    }
}

//------------------------------------------------------------------------------
static void visit_case(u64 seed, u64 idx) {
    Rng r(seed); Made m = make_db(r, idx % 20 == 0 ? 20000 : 1200);
    Db db = Db::parse_dat_only(m.dat()); HARNESS(db.dat_ok, "generated database");
    current().set(fmt("mode=visit case=%llu %s %s", (unsigned long long)idx, m.shape.c_str(), m.c.str().c_str()));
    rm_file(Kf()); put_file(D(), m.dat());
    auto app = nudb::make_error_code(nudb::error::different_version);   // any error the callback may set
    for(int pass = 0; pass < 4; ++pass) {
        // 0: everything; 1: callback error; 2, 3: truncated
        Blob d = m.dat(); Db t = db; u64 cut = 0; bool cutrec = false; long stop = -1;
        if(pass >= 2) {
            cut = r.chance(1, 2) || db.recs.empty() ? r.range(DAT_HDR, db.dat_size) : db.recs[r.below(db.recs.size())].off + r.below(6 + db.d.key_size + 2);
            if(db.spills.size() && r.chance(1, 3)) cut = db.spills[r.below(db.spills.size())].rec_off + r.below(9);      // in or after the size fields of a spill record
            if(cut > db.dat_size) cut = db.dat_size;
            d.trunc(cut); t = Db::parse_dat_only(d); cutrec = !t.dat_ok; put_file(D(), d);
        } else if(pass == 1) { if(db.recs.empty()) continue; stop = (long)r.below(db.recs.size()); put_file(D(), d); }
        std::size_t i = 0; error_code ec;
        nudb::visit(D(), [&](void const* k, std::size_t ks, void const* v, std::size_t vs, error_code& e) {
            if((i & 63) == 0) beat();
            CHECK(!e, "callback entered with an error set");
            CHECK(i < t.recs.size(), "visit delivered more than the %zu stored records", t.recs.size());
            CHECK(stop < 0 || (long)i <= stop, "visit went on after the callback set an error");
            auto& rec = t.recs[i];
            CHECK(ks == t.d.key_size && !std::memcmp(k, rec.key.data(), ks), "visit: wrong key for record %zu", i);
            bytes want = t.value(rec);
            CHECK(vs == want.size() && !std::memcmp(v, want.data(), vs), "visit: wrong value for record %zu (%zu bytes, expected %zu)", i, vs, want.size());
            if((long)i == stop) e = app;
            ++i;
        }, [](u64, u64) {}, ec);
        stats().eval(); stats().add("records_delivered", i);
        if(stop >= 0) { CHECK(ec == app, "visit returned '%s' instead of the callback's error", ec.message().c_str()); CHECK(i == (std::size_t)stop + 1, "visit stopped elsewhere"); stats().add("callback_errors"); }
        else {
            CHECK(i == t.recs.size(), "visit delivered %zu of %zu complete records", i, t.recs.size());
            if(cutrec) { CHECK(ec, "visit of a data file cut inside a record at %llu reported success", (unsigned long long)cut); stats().add("cut_inside_record"); }
            else { CHECK(!ec, "visit reported '%s'", ec.message().c_str()); }
        }
        Blob x; CHECK(get_file(D(), x) && x == d, "visit modified the data file");
        auto ls = listing(); CHECK(ls.size() == 1, "visit created files");
        stats().nontrivial(mix2(mix2(seed, pass), db.recs.size()));
    }
    // a wrong or missing file is an error without any callback
    { error_code ec; bool called = false; auto cb = [&](void const*, std::size_t, void const*, std::size_t, error_code&) { called = true; };
      Blob d = m.dat(); u64 o = r.below(10); u8 v; d.read(o, &v, 1); v ^= 1u << r.below(8); d.write(o, &v, 1); put_file(D(), d);
      nudb::visit(D(), cb, [](u64, u64) {}, ec); CHECK(ec && !called, "visit accepted a file that is not a data file");
      d.trunc(r.below(DAT_HDR)); put_file(D(), d); ec = {}; nudb::visit(D(), cb, [](u64, u64) {}, ec); CHECK(ec && !called, "visit accepted a file without a header");
      rm_file(D()); ec = {}; nudb::visit(D(), cb, [](u64, u64) {}, ec); CHECK(ec && !called, "visit of a missing file reported success"); CHECK(listing().empty(), "visit created a file"); }
    stats().sample(fmt("%s %s records=%zu spills=%zu", m.shape.c_str(), m.c.str().c_str(), db.recs.size(), db.spills.size()));
    stats().add("shape_" + m.shape);
}

//------------------------------------------------------------------------------
// Progress reports are a fraction of the work (progress, C28)
struct Prog {
    u64 calls = 0, total = 0, last = 0, first = 0; std::thread::id tid = std::this_thread::get_id(); bool over = false;
    void operator()(u64 a, u64 t) {
        if((calls & 63) == 0) beat();
        CHECK(!over, "progress is called after the operation has returned");
        CHECK(std::this_thread::get_id() == tid, "progress is called in another thread");
        if(!calls) { first = a; total = t; }
        CHECK(t == total, "the total changes from %llu to %llu", (unsigned long long)total, (unsigned long long)t);
        CHECK(a <= t, "%llu of %llu is reported as done", (unsigned long long)a, (unsigned long long)t);
        CHECK(a >= last, "the amount goes back from %llu to %llu", (unsigned long long)last, (unsigned long long)a);
        last = a; ++calls;
    }
};
static void progress_case(u64 seed, u64 idx) {
    Rng r(seed); Made m = make_db(r, idx % 20 == 0 ? 9000 : 1200); Db db = Db::parse(m.dat(), m.key()); HARNESS(db.valid(), "generated database: %s", db.first().c_str());
    // now and then a key file made for fewer or more items than there are
    auto rekey = [&](u64 items, float lf, u64 bs, std::size_t buf, bool keep) {
        auto L = scratch_dir() + "m.log"; rm_file(Kf()); Prog p; error_code ec; std::string was = current().get();
        current().set(was + fmt(" | rekey(items %llu, load %g, block %llu, buffer %zu)", (unsigned long long)items, lf, (unsigned long long)bs, buf));
        nudb::rekey<vhasher, nudb::native_file>(D(), Kf(), L, bs, lf, items, buf, ec, std::ref(p)); p.over = true; CHECK(!ec, "rekey: %s", ec.message().c_str());
        stats().eval(); stats().add("rekeys"); stats().add("reports", p.calls);
        CHECK(p.calls && p.first == 0, "rekey does not report the begin of its work"); 
        u64 big = 0, n = db.recs.size(); for(auto& x : db.recs) big = std::max<u64>(big, 6 + db.d.key_size + x.size);
        if(n > 20 && big * 4 < m.dat().size() && db.spill_tot_bytes * 4 < m.dat().size()) { CHECK(p.last * 2 > p.total, "rekey ended after reporting %llu of %llu", (unsigned long long)p.last, (unsigned long long)p.total); stats().add("ends_judged"); }
        if(!keep) { put_file(D(), m.dat()); put_file(Kf(), m.key()); } rm_file(L); current().set(was);
    };
    current().set(fmt("mode=progress case=%llu %s %s keys=%zu", (unsigned long long)idx, m.shape.c_str(), m.c.str().c_str(), m.order.size()));
    lay(m); u64 n = m.order.size(), bs = std::max<u64>(m.c.block_size, 104);
    if(m.c.kind == 0 && r.chance(2, 3)) {
        u64 items = r.pick<u64>({n, n / 2, n / 10, 1, 2 * n + 3}); float lf = r.pick({0.5f, 0.25f, 0.9f, 0.1f}); u64 b2 = r.chance(1, 2) ? bs : r.range(104, 700); double buckets = items / (ref_capacity(b2) * (double)lf);
        if(buckets < 4000) { std::size_t buf = r.pick<u64>({0, b2, 5 * b2, 1 << 20}); if(buckets * b2 / std::max<double>(b2, buf) > 60) buf = (std::size_t)(buckets * b2 / 30); bool keep = r.chance(1, 2); rekey(items, lf, b2, buf, keep);
            if(keep) { Blob d, k; HARNESS(get_file(D(), d) && get_file(Kf(), k), "files"); db = Db::parse(d, k); CHECK(db.valid(), "database invalid after rekey: %s", db.first().c_str()); m.shape += ", rekeyed"; } }
    }
    Blob dat, key; HARNESS(get_file(D(), dat) && get_file(Kf(), key), "files");
    std::string was = current().get();
    for(auto b : bufs(r, db.k.block_size, db.buckets)) {
        current().set(was + fmt(" | verify(buffer %zu)", b)); Prog p; nudb::verify_info i; error_code ec; nudb::verify<vhasher>(i, D(), Kf(), b, std::ref(p), ec); p.over = true; CHECK(!ec, "verify: %s", ec.message().c_str());
        CHECK(p.calls && p.first == 0, "verify does not report the begin of its work"); stats().eval(); stats().add(i.algorithm ? "verify_fast" : "verify_normal"); stats().add("reports", p.calls);
        if(!db.recs.empty()) CHECK(p.last > 0, "verify of %zu records never reports any work done", db.recs.size());
        if(!i.algorithm) stats().peak("peak_keys_percent_of_target", (u64)(100.0 * db.key_count / std::max(1.0, db.k.load_factor / 65536.0 * db.buckets * db.capacity)));
    }
    { current().set(was + " | visit"); Prog p; u64 k = 0; error_code ec; nudb::visit(D(), [&](void const*, std::size_t, void const*, std::size_t, error_code&) { ++k; }, std::ref(p), ec); p.over = true; CHECK(!ec, "visit: %s", ec.message().c_str());
      CHECK(p.calls && p.first == 0, "visit does not report the begin of its work"); if(k) CHECK(p.last == p.total, "visit ended after reporting %llu of %llu", (unsigned long long)p.last, (unsigned long long)p.total); stats().eval(); stats().add("visits"); stats().add("reports", p.calls); }
    // damaged files: whatever is reported until the error is found is consistent, too
    { Made x = m; x.dat() = dat; x.key() = key; std::string what = damage(r, x, db); lay(x); current().set(was + " | damaged: " + what);
      for(auto b : {std::size_t(0), std::size_t(64) << 20}) { Prog p; nudb::verify_info i; error_code ec; nudb::verify<vhasher>(i, D(), Kf(), b, std::ref(p), ec); p.over = true; stats().eval(); stats().add(ec ? "damage_reported" : "damage_harmless"); }
      Prog p; error_code ec; nudb::visit(D(), [&](void const*, std::size_t, void const*, std::size_t, error_code&) {}, std::ref(p), ec); p.over = true; }
    stats().add("shape_" + m.shape); stats().nontrivial(mix2(fnvs(m.c.str() + m.shape), mix2(db.recs.size(), db.buckets)));
    stats().sample(fmt("%s %s keys=%zu buckets=%llu", m.shape.c_str(), m.c.str().c_str(), m.order.size(), (unsigned long long)db.buckets));
    rm_file(D()); rm_file(Kf());
}

static void one(u64 seed, u64 idx) {
    huge_ok() = opt().mode != "damage";
    if(opt().mode == "verify") verify_case(seed, idx);
    else if(opt().mode == "progress") progress_case(seed, idx);
    else if(opt().mode == "damage") damage_case(seed, idx);
    else visit_case(seed, idx);
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
