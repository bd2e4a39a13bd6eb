// C12 rekey builds an equivalent index; C13 interrupted rekey.
#include "dbgen.hpp"
using namespace vf;

struct RK { u64 bs; float lf; u64 items; u64 buf; std::string str() const { return fmt("rekey(block %llu, load %g, items %llu, buffer %llu)", (unsigned long long)bs, lf, (unsigned long long)items, (unsigned long long)buf); } };
static RK gen_rk(Rng& r, u64 n, u64 max_bs) {
    RK k; switch(r.below(6)) { case 0: k.bs = 104; break; case 1: k.bs = r.range(104, 140); break; case 2: k.bs = r.range(104, 600); break; case 3: k.bs = r.pick({256, 512, 1024, 4096}); break; case 4: k.bs = r.pick({4096, 65535, 32768}); break; default: k.bs = r.range(104, 300); }
    k.bs = std::min(k.bs, max_bs);
    k.lf = r.pick({0.5f, 0.5f, 0.75f, 0.9f, 0.99f, 0.25f, 0.1f, 0.01f, 0.0001f, 0.00002f}); if(r.chance(1, 4)) k.lf = (float)(0.02 + 0.97 * r.unit());
    k.items = r.pick<u64>({n, n, n, n, n / 2, n * 2, 1, 0, n + 1, n * 4, n / 7, 2});
    // keep the key file small
    double buckets = k.items / (ref_capacity(k.bs) * (double)k.lf); if(buckets * k.bs > (16 << 20)) { k.lf = 0.5f; buckets = k.items / (ref_capacity(k.bs) * 0.5); }
    if(buckets > 20000) { k.items = n; k.lf = 0.5f; }
    k.buf = r.pick<u64>({0, 1, k.bs - 1, k.bs, k.bs + 1, 3 * k.bs, 10 * k.bs, 65536, 1 << 20, r.below(8 << 20)});
    // at most 200 passes over the data
    double passes = buckets / std::max<double>(1, (double)k.buf / k.bs); if(passes > 200) k.buf = (u64)(buckets / 50 * k.bs);
    return k;
}
template<class File> static void do_rekey(RK const& k, std::string const& d, std::string const& kp, std::string const& l, error_code& ec, bool strict = true) {
    u64 last = 0, total = 0; bool first = true;
    Args<File>::rekey(d, kp, l, k.bs, k.lf, k.items, k.buf, ec, [&](u64 a, u64 t) { beat();
        if(!strict) return;
        CHECK(first || t == total, "progress total changed from %llu to %llu", (unsigned long long)total, (unsigned long long)t);
        CHECK(a <= t, "progress %llu of %llu", (unsigned long long)a, (unsigned long long)t); CHECK(a >= last, "progress went back from %llu to %llu", (unsigned long long)last, (unsigned long long)a); last = a; total = t; first = false; });
}
static void judge(RK const& k, Made& m, sim::Blob const& orig, sim::Blob const& dat, sim::Blob const& key, char const* when) {
    CHECK(dat.size() >= orig.size() && dat.same(orig, 0, orig.size()), "%s: data file bytes were changed or removed by %s", when, k.str().c_str());
    Db db = Db::parse(dat, key);
    CHECK(db.valid(), "%s: database invalid after %s: %s", when, k.str().c_str(), db.first().c_str());
    Db o = Db::parse_dat_only(orig);
    CHECK(db.d.uid == o.d.uid && db.d.appnum == o.d.appnum && db.k.uid == o.d.uid && db.k.appnum == o.d.appnum && db.k.key_size == o.d.key_size, "%s: identity changed", when);
    CHECK(db.k.block_size == k.bs, "%s: block size %llu, asked for %llu", when, (unsigned long long)db.k.block_size, (unsigned long long)k.bs);
    CHECK(db.k.load_factor == std::min<u64>((u64)(65536.0f * k.lf), 65535), "%s: load factor %llu for %g", when, (unsigned long long)db.k.load_factor, k.lf);
    CHECK(db.recs.size() == o.recs.size(), "%s: %zu records, before %zu", when, db.recs.size(), o.recs.size());
    auto s = diff_prefix(db, m.c, m.order, m.model, m.order.size()); CHECK(s.empty(), "%s: %s after %s", when, s.c_str(), k.str().c_str());
    double want = std::max(1.0, k.items / (db.capacity * (double)k.lf)); CHECK(db.buckets >= want * (1 - 1e-4) && db.buckets <= want * (1 + 1e-4) + 1, "%s: %llu buckets for %s", when, (unsigned long long)db.buckets, k.str().c_str());
}
template<class File> static void use_rekeyed(Made& m, RK const& k, std::string const& d, std::string const& kp, std::string const& l, Rng& r) {
    Cfg c = m.c; c.block_size = k.bs; c.lf = k.lf;
    Session<File> s(c, ""); s.dp = d; s.kp = kp; s.lp = l; s.model = m.model; s.order = m.order;
    s.open(); CHECK(s.s->block_size() == k.bs && s.s->appnum() == c.appnum && s.s->key_size() == c.key_size, "rekeyed store reports other parameters");
    s.fetch_all();
    u64 base = m.order.size(), lim = s.max_keys(base + 200);
    for(u64 i = base; i < lim && i < base + 5 + k.items % 60; ++i) { if(value_size(c, i, 1) > 100000) continue; s.fetch(i); s.insert(i, 1); if(r.chance(1, 10)) s.flush(); if(base) s.insert(m.order[i % base], 2); }
    s.fetch_all(); s.close(); s.open(); s.fetch_all(); s.close();
}

static void equiv_case(u64 seed, u64 idx) {
    Rng r(seed); Made m = make_db(r, idx % 40 == 0 ? 8000 : 500, false, 4096); hash_kind() = m.c.kind;
    u64 n = m.order.size(); RK k = gen_rk(r, n, 65535); if(m.c.kind && k.bs < 104) k.bs = 104;
    bool native = r.chance(1, 6);
    current().set(fmt("case=%llu %s %s %s %zu keys", (unsigned long long)idx, native ? "native" : "sim", m.c.str().c_str(), k.str().c_str(), m.order.size()));
    sim::Blob orig = m.dat(); bool foreign_valid = true; (void)foreign_valid;
    stats().eval(); stats().add("shape_" + m.shape);
    std::string dir = native ? scratch_dir() : "v:/", D = dir + "db.dat", K = dir + "db.key", L = dir + "db.log";
    sim::Image im; im[D] = orig; sim::Fs fs(im); sim::Use u(fs);
    if(native) { rm_file(K); rm_file(L); put_file(D, orig); }
    auto img = [&] { sim::Image x; if(!native) return fs.image(); for(auto& p : {D, K, L}) { sim::Blob b; if(get_file(p, b)) x[p] = b; } return x; };
    auto go = [&](RK const& q, error_code& ec) { if(native) do_rekey<nudb::native_file>(q, D, K, L, ec); else do_rekey<sim::file>(q, D, K, L, ec); };
    // refusals change nothing
    auto refused = [&](char const* why, RK const& q) { auto b = img(); error_code ec; go(q, ec); CHECK(ec, "rekey succeeded although %s: %s", why, q.str().c_str()); auto a = img(); CHECK(a == b, "refused rekey (%s: %s) changed files", why, ec.message().c_str()); stats().add(std::string("refused: ") + why); return ec; };
    auto put = [&](std::string const& p, sim::Blob const& b) { if(native) put_file(p, b); else { auto x = fs.image(); x[p] = b; fs.load(x); } };
    auto del = [&](std::string const& p) { if(native) rm_file(p); else { auto x = fs.image(); x.erase(p); fs.load(x); } };
    if(r.chance(1, 3)) switch(r.below(6)) {
    case 0: { RK q = k; q.bs = r.pick<u64>({0, 1, 25, 103, 65536, 65537, 65536 + 4096, 1 << 20, 1ull << 32, (1ull << 32) + 4096}); refused("the block size is invalid", q); break; }
    case 1: { RK q = k; q.lf = r.pick({0.f, -0.5f, 1.f, 1.5f, 1e-7f, (float)NAN, (float)INFINITY, 100.f}); refused("the load factor is invalid", q); break; }
    case 2: { sim::Blob b = m.im[KP]; if(r.chance(1, 3)) b = sim::Blob{}; put(K, b); refused("the key file exists", k); del(K); break; }
    case 3: { sim::Blob lb; if(r.chance(1, 2)) { bytes x(r.below(300) + 1, 0); for(auto& v : x) v = (u8)r.next(); lb.write(0, x.data(), x.size()); } put(L, lb); auto ec = refused("the log file exists", k); CHECK(ec == error::log_file_exists, "rekey with a log file: %s", ec.message().c_str()); del(L); break; }
    case 4: { del(D); refused("the data file is missing", k); put(D, orig); break; }
    default: { sim::Blob b = orig; u64 o = r.below(10); u8 v; b.read(o, &v, 1); v ^= 1u << r.below(8); b.write(o, &v, 1); put(D, b); refused("the data file is of another type", k); put(D, orig); break; }
    }
    error_code ec; go(k, ec);
    CHECK(!ec, "%s failed: %s", k.str().c_str(), ec.message().c_str());
    auto a = img(); CHECK(a.count(K) && !a.count(L), "after rekey: key file %s, log file %s", a.count(K) ? "there" : "missing", a.count(L) ? "left" : "gone");
    CHECK(native || fs.handles == 0, "rekey left files open");
    judge(k, m, orig, a[D], a[K], "after rekey");
    Db db = Db::parse(a[D], a[K]);
    stats().peak("max_buckets", db.buckets); stats().peak("max_chain", db.max_chain); if(db.spill_live) stats().add("with_spills"); if(k.buf / k.bs < db.buckets) stats().add("several_passes");
    if(k.bs <= 8192 || r.chance(1, 6)) { if(native) use_rekeyed<nudb::native_file>(m, k, D, K, L, r); else use_rekeyed<sim::file>(m, k, D, K, L, r); }
    auto z = img(); { Db e = Db::parse(z[D], z[K]); CHECK(e.valid(), "database invalid after further inserts: %s", e.first().c_str()); CHECK(z[D].same(orig, 0, orig.size()), "data file changed"); }
    if(native) for(auto& p : {D, K, L}) rm_file(p);
    if(n >= 3) stats().nontrivial(mix2(fnvs(m.c.str() + k.str()), n));
}

static void crash_case(u64 seed, u64 idx) {
    Rng r(seed); Made m = make_db(r, 150, false, 1024); if(m.c.valmode >= 3) { } hash_kind() = m.c.kind;
    if(m.dat().size() > (1 << 20)) return;
    RK k = gen_rk(r, m.order.size(), 1024); if(k.bs > 300 && r.chance(2, 3)) k.bs = 104 + k.bs % 150;
    if(m.order.size() && r.chance(1, 2)) { k.items = 1 + m.order.size() / 4; k.lf = 0.9f; }     // spills in rekey: the data file grows
    sim::Blob orig = m.dat();
    current().set(fmt("case=%llu %s %s", (unsigned long long)idx, m.c.str().c_str(), k.str().c_str()));
    sim::Image base; base[DP] = orig;
    sim::Fs fs(base); sim::Use u(fs); fs.recording = true;
    error_code ec; do_rekey<sim::file>(k, DP, KP, LP, ec); CHECK(!ec, "rekey: %s", ec.message().c_str());
    auto log = fs.log; u64 total_ops = fs.nops; auto done = fs.image(); judge(k, m, orig, done[DP], done[KP], "after rekey");
    if(done[DP].size() > orig.size()) stats().add("data_file_grew");
    auto complete = [&](sim::Image& im) {      // each run draws another salt, so the bytes may differ
        if(!im.count(KP) || im.count(LP)) return false;
        if(im[DP] == done[DP] && im[KP] == done[KP]) return true;
        if(im[DP].size() < orig.size() || !im[DP].same(orig, 0, orig.size())) return false;
        Db x = Db::parse(im[DP], im[KP]); return x.valid() && x.k.block_size == k.bs && diff_prefix(x, m.c, m.order, m.model, m.order.size()).empty(); };
    auto after = [&](sim::Image im, std::string what, bool may_be_complete) {
        stats().eval(); beat();
        current().set(fmt("case=%llu %s %s: %s", (unsigned long long)idx, m.c.str().c_str(), k.str().c_str(), what.c_str()));
        CHECK(im.count(DP), "data file gone");
        bool was_complete = complete(im);
        CHECK(!was_complete || may_be_complete, "complete");
        sim::Fs f2(im); sim::Use u2(f2);
        if(r.chance(1, 5) && !was_complete) {     // what open makes of it
            nudb::context ctx; nudb::basic_store<vhasher, sim::file> s(ctx); error_code e; s.open(DP, KP, LP, e, sim::Tok{&f2});
            CHECK(e, "%s: open succeeded on a partial key file", what.c_str());
            stats().add("opened_partial");
        }
        // interrupted recoveries first
        for(int j = (int)r.below(3); j--;) {
            sim::Image b = f2.image(); sim::Fs f3(b); f3.recording = true; { sim::Use u3(f3); error_code e; Args<sim::file>::recover(DP, KP, LP, e); }
            u64 at = r.below(f3.log.size() + 1); sim::Image cut;
            if(r.chance(1, 2)) { sim::Durable du(b); for(u64 i = 0; i < at; ++i) du.on(f3.log[i]); cut = du.lose(r, {KP}); }
            else { cut = b; for(u64 i = 0; i < at; ++i) sim::apply(cut, f3.log[i]); if(at < f3.log.size()) sim::apply_torn(cut, f3.log[at], r.below(f3.log[at].len + 1)); }
            f2.load(cut); stats().add("interrupted_recoveries");
        }
        error_code e; Args<sim::file>::recover(DP, KP, LP, e);
        auto im2 = f2.image();
        if(was_complete) { CHECK(!e && complete(im2), "%s: recover of a complete rekey: %s", what.c_str(), e.message().c_str()); return; }
        if(complete(im2)) { stats().add("kept_complete"); CHECK(!e, "recover: %s", e.message().c_str()); return; }
        CHECK(!im2.count(KP), "%s: a key file of %llu bytes is left after recovery (%s), log file %s", what.c_str(), (unsigned long long)im2[KP].size(), e.message().c_str(), im2.count(LP) ? "left" : "gone");
        CHECK(!im2.count(LP), "%s: a log file of %llu bytes is left after recovery (%s)", what.c_str(), (unsigned long long)im2[LP].size(), e.message().c_str());
        CHECK(im2[DP] == orig, "%s: the data file is not back to its original contents after recovery (%s): %llu bytes, was %llu", what.c_str(), e.message().c_str(), (unsigned long long)im2[DP].size(), (unsigned long long)orig.size());
        // again
        RK k2 = k; if(r.chance(1, 2)) k2 = gen_rk(r, m.order.size(), 300);
        error_code e2; do_rekey<sim::file>(k2, DP, KP, LP, e2); CHECK(!e2, "%s: rekey after recovery: %s", what.c_str(), e2.message().c_str());
        auto im3 = f2.image(); judge(k2, m, orig, im3[DP], im3[KP], "repeated rekey"); stats().add("repeated");
        if(r.chance(1, 10)) use_rekeyed<sim::file>(m, k2, DP, KP, LP, r);
        stats().nontrivial(mix2(mix2(seed, fnvs(what)), 1));
    };
    // crash points
    std::vector<u64> pts; u64 N = log.size();
    if(N <= 60) for(u64 i = 0; i <= N; ++i) pts.push_back(i); else { for(u64 i = 0; i < 16; ++i) pts.push_back(i); for(int j = 0; j < 25; ++j) pts.push_back(16 + r.below(N - 16)); for(u64 i = N - 12; i <= N; ++i) pts.push_back(i); }
    std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
    sim::Image kill = base; sim::Durable du(base); u64 at = 0;
    for(u64 p : pts) {
        while(at < p) { sim::apply(kill, log[at]); du.on(log[at]); ++at; }
        std::string where = p < N ? fmt("%s %s", sim::kname(log[p].k), log[p].path.c_str() + 6) : "the end";
        { auto im = kill; if(p < N) sim::apply_torn(im, log[p], r.below(log[p].len + 1)); after(im, fmt("killed before op %llu/%llu (%s)", (unsigned long long)p, (unsigned long long)N, where.c_str()), true); }
        for(int mode : {0, 1, 0}) after(du.lose(r, {KP}, mode), fmt("power lost before op %llu/%llu (%s)%s", (unsigned long long)p, (unsigned long long)N, where.c_str(), mode ? ", nothing unsynchronised kept" : ""), true);
    }
    // durable once successful
    for(int mode : {1, 0}) { auto im = du.lose(r, {KP}, mode); CHECK(complete(im), "power lost after rekey reported success: the key or data file is incomplete"); }
    // faults
    for(int j = 0; j < 25; ++j) {
        u64 f = j < 12 ? (u64)j : r.below(total_ops); if(f >= total_ops) continue; if(j > 18) f = total_ops - 1 - (u64)(j - 18); if(f >= total_ops) continue;
        bool persistent = r.chance(1, 3); int kind = (int)r.below(3); u64 seen = 0; std::string op;
        sim::Fs f4(base); sim::Use u4(f4);
        f4.inject = [&](sim::Op const& o) { sim::Fault x; u64 s = seen++; if(s == f || (persistent && s > f)) { if(s == f) op = fmt("%s %s", sim::kname(o.k), o.path.c_str() + 6); x.fail = true; x.ec = sim::posix_err(EIO); x.partial = kind == 1 ? r.below(o.len + 1) : 0; x.after = kind == 2 && o.k != sim::K::open && o.k != sim::K::create; } return x; };
        error_code e; do_rekey<sim::file>(k, DP, KP, LP, e); f4.inject = nullptr;
        if(seen <= f) { CHECK(!e, "rekey failed without fault"); continue; }     // another number of passes (random salt)
        CHECK(e, "rekey reported success although %s failed", op.c_str());
        CHECK(e == sim::posix_err(EIO), "rekey reported '%s' although %s failed with another error", e.message().c_str(), op.c_str());
        CHECK(f4.handles == 0, "failed rekey left files open");
        stats().add("faults");
        after(f4.image(), fmt("fault at op %llu (%s)", (unsigned long long)f, op.c_str()), true);
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, [](u64 s, u64 i) { huge_ok() = opt().mode != "crash"; if(opt().mode == "crash") crash_case(s, i); else equiv_case(s, i); });
}
