// Crash points: durability (durable), atomicity (atomic), write-ahead order (wal), append-only (append).
#include "wl.hpp"
#include "wal.hpp"
using namespace vf;
using sim::Image; using sim::Op; using sim::K;

struct Ev { std::size_t at; std::size_t n; Image im; };

static Cfg crash_cfg(Rng& r, u64 idx) {
    Cfg c = gen_cfg(r);
    if(c.key_size > 64) c.key_size = r.range(1, 40);
    if(c.block_size > 700) c.block_size = r.range(104, 700);
    if(idx % 3 == 0) { c.block_size = r.range(104, 160); c.lf = r.pick({0.5f, 0.9f, 0.3f}); }
    c.valmode = r.pick({0, 0, 1, 1, 5});
    if(idx % 7 == 3) c.valmode = 3;
    return c;
}

struct Crash {
    std::string mode; Cfg c; Rng r; 
    std::string dp = "v:/db.dat", kp = "v:/db.key", lp = "v:/db.log";
    std::vector<u64> order; std::map<u64, u64> model;
    std::vector<Ev> evs; std::vector<Op> log; Image im0;
    u64 points = 0, recoveries = 0, nested = 0, before = 0, after_ = 0, rolled = 0;
    u64 hkey = 1, wide = 0;   // wide: number of items the key file is made for

    Crash(std::string m, Cfg const& cfg, u64 seed) : mode(m), c(cfg), r(seed) {}

    bool exact() const { return mode != "durable"; }

    // Recovers one crash image and judges it. ev: last acknowledged, nx: the one in progress
    void check(Image const& im, Ev const& ev, Ev const* nx, bool deep, std::string const& what) {
        ++points; beat();
        sim::Fs fs(im); sim::Use u(fs); fs.recording = true;
        std::unique_ptr<WalMon> mon;
        mon.reset(new WalMon(dp, kp, lp, im)); mon->wal = mode == "wal" ; mon->append = mode == "wal" || mode == "append"; 
        if(mode == "wal" || mode == "append") { mon->begin_recovery(); fs.monitor = [&](Op const& o) { mon->on(o); }; }
        bool via_open = r.chance(1, 5);
        error_code ec;
        nudb::context ctx; nudb::basic_store<vhasher, sim::file> st(ctx);
        if(via_open) Args<sim::file>::open(st, dp, kp, lp, ec); else Args<sim::file>::recover(dp, kp, lp, ec);
        ++recoveries;
        CHECK(!ec, "%s: %s reported '%s'", what.c_str(), via_open ? "open" : "recovery", ec.message().c_str());
        Image out = fs.image(); auto rlog = fs.log;
        if(mode == "wal" || mode == "append") { mon->end_recovery(); stats().add("recovery_events", mon->events); stats().add("log_discards_checked", mon->log_discards); }
        fs.monitor = nullptr;
        judge(out, ev, nx, what, via_open);
        if(!rlog.empty()) { for(auto& o : rlog) if(o.k == K::write || (o.k == K::trunc && o.path != lp)) { ++rolled; stats().nontrivial(mix2(hkey, fnvs(what))); break; } }
        if(via_open) {
            if(exact() && r.chance(1, 4)) use(st, ctx, fs, ev, nx, out, what);
            error_code e2; st.close(e2); CHECK(!e2, "%s: close after recovery: %s", what.c_str(), e2.message().c_str());
        } else if(exact()) {
            fs.log.clear(); error_code e2; Args<sim::file>::recover(dp, kp, lp, e2);
            CHECK(!e2, "%s: second recovery reported '%s'", what.c_str(), e2.message().c_str());
            CHECK(fs.log.empty() && fs.image() == out, "%s: second recovery changed files", what.c_str());
        }
        if(deep && !via_open) {
            // interrupt the recovery itself
            Image cur = im; sim::Durable dur(im);
            for(std::size_t i = 0; i <= rlog.size(); ++i) {
                if(rlog.size() < 12 || r.chance(12, (unsigned)rlog.size())) {
                    Image t = cur; std::string w = what + fmt(" + recovery stopped at %zu/%zu", i, rlog.size());
                    switch(r.below(3)) {
                    case 0: break;
                    case 1: if(i < rlog.size() && rlog[i].k == K::write) sim::apply_torn(t, rlog[i], r.below(rlog[i].len + 1)); break;
                    default: t = dur.lose(r, {kp}, (int)r.below(2)); break;
                    }
                    ++nested; check(t, ev, nx, nested % 50 == 0, w);
                }
                if(i < rlog.size()) { sim::apply(cur, rlog[i]); dur.on(rlog[i]); }
            }
        }
    }
    void judge(Image const& out, Ev const& ev, Ev const* nx, std::string const& what, bool opened) {
        auto d = out.find(dp), k = out.find(kp);
        CHECK(d != out.end() && k != out.end(), "%s: data or key file missing after recovery", what.c_str());
        if(exact()) {
            auto l = out.find(lp);
            if(opened) CHECK(l != out.end() && l->second.size() == 0, "%s: no empty log after open", what.c_str());
            else CHECK(l == out.end(), "%s: log file left after recovery", what.c_str());
            for(auto& e : out) CHECK(e.first == dp || e.first == kp || e.first == lp, "%s: unexpected file %s", what.c_str(), e.first.c_str());
        }
        auto same = [&](Ev const& e) { return e.im.at(dp) == d->second && e.im.at(kp) == k->second; };
        if(same(ev)) { ++before; return; }
        if(nx && same(*nx)) { ++after_; return; }
        // not byte-identical: decode
        Db db = Db::parse(d->second, k->second);
        std::string e1 = db.valid() ? diff_prefix(db, c, order, model, ev.n) : db.first(), e2 = nx && db.valid() ? diff_prefix(db, c, order, model, nx->n) : "-";
        if(mode == "durable") {
            // everything acknowledged must be found through the index
            Db x = db;
            for(std::size_t j = 0; j < ev.n; ++j) {
                auto it = x.by_key.find(make_key(c, order[j]));
                CHECK(it != x.by_key.end(), "%s: key %llu of an acknowledged commit is gone (%s)", what.c_str(), (unsigned long long)order[j], x.first().c_str());
                CHECK(x.value(x.recs[it->second]) == make_value(c, order[j], model[order[j]]), "%s: acknowledged key %llu has a wrong value", what.c_str(), (unsigned long long)order[j]);
            }
            CHECK(x.valid(), "%s: acknowledged data not reachable: %s", what.c_str(), x.first().c_str());
            return;
        }
        if(mode == "append") {
            CHECK(d->second.size() >= ev.im.at(dp).size() && d->second.same(ev.im.at(dp), 0, ev.im.at(dp).size()), "%s: recovery removed or changed committed bytes of the data file", what.c_str());
            return;
        }
        if(mode == "wal") { CHECK(db.valid(), "%s: %s", what.c_str(), db.first().c_str()); return; }
        if((db.valid() && e1.empty()) || (nx && db.valid() && e2.empty())) {
            // same contents, other bytes: the data file must still be exactly one of the two
            CHECK(d->second == ev.im.at(dp) || (nx && d->second == nx->im.at(dp)), "%s: recovered data file differs from the state before and after the commit", what.c_str());
            CHECK(k->second.size() == ev.im.at(kp).size() || (nx && k->second.size() == nx->im.at(kp).size()), "%s: recovered key file has a different size", what.c_str());
            return;
        }
        violate("%s: recovered files are neither the state before (%s) nor after (%s) the commit; data %llu bytes, key %llu", what.c_str(), e1.c_str(), e2.c_str(), (unsigned long long)d->second.size(), (unsigned long long)k->second.size());
    }
    // The recovered database must be usable
    void use(nudb::basic_store<vhasher, sim::file>& st, nudb::context& ctx, sim::Fs& fs, Ev const& ev, Ev const* nx, Image const& out, std::string const& what) {
        std::size_t n = nx && nx->im.at(dp) == out.at(dp) && nx->n != ev.n ? nx->n : ev.n;
        std::vector<u64> ord(order.begin(), order.begin() + n);
        auto md = model;
        for(std::size_t j = 0; j < ord.size(); ++j) {
            KeyBuf k(make_key(c, ord[j])); error_code ec; bytes got;
            st.fetch(k, [&](void const* p, std::size_t s) { got.assign((u8 const*)p, (u8 const*)p + s); }, ec);
            CHECK(!ec && got == make_value(c, ord[j], md[ord[j]]), "%s: after recovery key %llu: '%s'", what.c_str(), (unsigned long long)ord[j], ec.message().c_str());
        }
        for(std::size_t j = n; j < order.size(); ++j) {     // keys lost with the unfinished commit, other values
            KeyBuf k(make_key(c, order[j])); bytes v = make_value(c, order[j], 9); error_code ec;
            st.insert(k, v.data(), v.size(), ec);
            CHECK(!ec, "%s: inserting again after recovery: %s", what.c_str(), ec.message().c_str());
            ord.push_back(order[j]); md[order[j]] = 9;
        }
        ctx.flush();
        Image im = fs.image(); Db db = Db::parse(im.at(dp), im.at(kp));
        CHECK(db.valid(), "%s: committing after recovery gives: %s", what.c_str(), db.first().c_str());
        auto d = diff_prefix(db, c, ord, md, ord.size());
        CHECK(d.empty(), "%s: committing after recovery gives: %s", what.c_str(), d.c_str());
        stats().add("recovered_databases_used");
    }

    void history() {
        sim::Fs fs; sim::Use u(fs);
        Session<sim::file> ss(c, "v:/"); ss.create();
        if(wide) {
            error_code ec; sim::file::erase(kp, ec); HARNESS(!ec, "erase"); sim::file::erase(lp, ec); ec = {};
            Args<sim::file>::rekey(dp, kp, lp, c.block_size, c.lf, wide, 1 << 22, ec, [](u64, u64) { beat(); });
            CHECK(!ec, "rekey to %llu items: %s", (unsigned long long)wide, ec.message().c_str());
            stats().add("wide_histories");
        }
        im0 = fs.image(); fs.recording = true;
        std::unique_ptr<WalMon> mon(new WalMon(dp, kp, lp, im0));
        mon->wal = mode == "wal"; mon->append = mode == "wal" || mode == "append";
        bool m = mon->wal || mon->append;
        if(m) fs.monitor = [&](Op const& o) { mon->on(o); };
        auto ev = [&](char const* w) { evs.push_back(Ev{fs.log.size(), ss.order.size(), fs.image()}); if(m) mon->ack(w); };
        auto open = [&] { if(m) mon->begin_recovery(); ss.open(); if(m) mon->end_recovery(); };
        evs.push_back(Ev{0, 0, im0});
        open();
        u64 next = 0, ncommit = 1 + r.below(r.chance(1, 6) ? 12 : 6), maxk = ss.max_keys(wide ? 20000 : 1500);
        if(wide) ncommit = 1 + r.below(2);
        u64 bytes_left = c.valmode == 3 ? 1500000 : 300000;
        for(u64 j = 0; j < ncommit; ++j) {
            u64 n = r.chance(1, 3) ? 1 + r.below(4) : 1 + r.skew(j == 0 ? 700 : r.chance(1, 4) ? 400 : 90);
            if(wide) n = wide > 60000 ? r.range(50, 300) : wide * r.range(1, 2) / 2;
            while(n-- && next < maxk) { u64 sz = value_size(c, next, 0); if(sz > bytes_left) break; bytes_left -= sz; ss.insert(next++, 0); }
            if(r.chance(1, 6)) { ss.close(); ev("close"); open(); evs.push_back(Ev{fs.log.size(), ss.order.size(), fs.image()}); }
            else { ss.flush(); ev("commit"); }
            if(mode == "append" || mode == "wal") { for(int q = 0; q < 5; ++q) { std::size_t b = fs.log.size(); ss.fetch(r.below(next + 3)); CHECK(fs.log.size() == b, "fetch modified a file"); } }
        }
        if(r.chance(1, 2)) { u64 n = 1 + r.below(10); while(n-- && next < maxk) ss.insert(next++, 0); }
        ss.close(); ev("close");
        log = fs.log; order = ss.order; model = ss.model;
        if(m) { stats().add("monitored_events", mon->events); stats().add("key_overwrites_checked", mon->key_blocks_checked); stats().add("data_appends_checked", mon->dat_appends); stats().add("key_block_appends", mon->key_appends); stats().add("log_discards_checked", mon->log_discards); stats().add("commits_monitored", mon->commits); }
        fs.monitor = nullptr;
        for(std::size_t i = 1; i < evs.size(); ++i) {
            Blob const &a = evs[i - 1].im.at(dp), &b = evs[i].im.at(dp);
            if(mode == "append") CHECK(b.size() >= a.size() && b.same(a, 0, a.size()), "commit %zu changed committed bytes of the data file", i);
        }
        // the reference states themselves
        for(auto& e : evs) {
            Db db = Db::parse(e.im.at(dp), e.im.at(kp));
            if(mode == "atomic" || mode == "durable") { CHECK(db.valid(), "state at a commit boundary: %s", db.first().c_str()); auto d = diff_prefix(db, c, order, model, e.n); CHECK(d.empty(), "state at a commit boundary: %s", d.c_str()); }
            hkey = mix2(hkey, mix2(db.buckets, db.spills.size()));
            stats().peak("max_buckets", db.buckets); if(db.spills.size()) stats().add("states_with_spills"); if(db.buckets > 1) stats().add("states_with_splits");
        }
    }
    using Blob = sim::Blob;
    void crashes(u64 budget) {
        Image cur = im0; sim::Durable dur(im0);
        std::size_t e = 0; double p = std::min(1.0, (double)budget / (log.size() * 4.0 + 1));
        for(std::size_t i = 0; i <= log.size(); ++i) {
            while(e + 1 < evs.size() && evs[e + 1].at <= i) ++e;
            Ev const* nx = e + 1 < evs.size() ? &evs[e + 1] : nullptr;
            std::string w = i < log.size() ? fmt("crash at op %zu/%zu (%s %s off=%llu len=%llu)", i, log.size(), sim::kname(log[i].k), log[i].path.c_str() + 3, (unsigned long long)log[i].off, (unsigned long long)log[i].len) : "crash at the end";
            bool key_region = i < log.size() && log[i].k != K::write;
            if(r.unit() < p || key_region) {
                bool prev_same = i > 0 && log[i - 1].k == K::sync;
                if(!prev_same) check(cur, evs[e], nx, r.chance(1, 12), w + " kill");
                if(i < log.size() && log[i].k == K::write) {
                    u64 L = log[i].len;
                    for(u64 t : {u64(1), L / 2, L - 1, r.below(L + 1)}) if(r.chance(1, 2)) {
                        Image x = cur; sim::apply_torn(x, log[i], t);
                        check(x, evs[e], nx, r.chance(1, 20), w + fmt(" torn after %llu", (unsigned long long)t));
                    }
                }
                std::size_t pend = dur.pending();
                if(pend) {
                    check(dur.lose(r, {kp}, 1), evs[e], nx, r.chance(1, 20), w + " power loss, all unsynced lost");
                    for(int q = 0; q < 2; ++q) check(dur.lose(r, {kp}, 0), evs[e], nx, r.chance(1, 20), w + " power loss");
                    stats().add("power_loss_images", 3);
                }
            }
            if(i < log.size()) { sim::apply(cur, log[i]); dur.on(log[i]); }
        }
        HARNESS(cur == evs.back().im, "operation log does not reproduce the final image");
    }
};

// Rekey, complete and interrupted, under the append-only monitor
static void rekey_append(Crash& x, Rng& r) {
    Image base = x.evs.back().im; base.erase(x.kp); base.erase(x.lp);
    sim::Blob orig = base.at(x.dp); u64 n = x.order.size();
    sim::Fs fs(base); sim::Use u(fs); fs.recording = true;
    WalMon mon(x.dp, x.kp, x.lp, base); mon.wal = false;
    fs.monitor = [&](Op const& o) { mon.on(o); };
    u64 bs = r.range(104, 300), items = r.pick<u64>({n, 1 + n / 5, n * 2}); float lf = r.pick({0.5f, 0.9f, 0.99f}); error_code ec;
    Args<sim::file>::rekey(x.dp, x.kp, x.lp, bs, lf, items, r.pick<u64>({0, bs * 3, 1 << 16}), ec, [](u64, u64) { beat(); });
    CHECK(!ec, "rekey: %s", ec.message().c_str()); fs.monitor = nullptr;
    sim::Blob after = fs.image().at(x.dp);
    CHECK(after.size() >= orig.size() && after.same(orig, 0, orig.size()), "rekey changed committed bytes of the data file");
    stats().add("rekeys_monitored"); stats().add("rekey_appends", mon.dat_appends); if(after.size() > orig.size()) stats().add("rekeys_that_appended");
    auto log = fs.log; Image cur = base; sim::Durable dur(base);
    for(std::size_t i = 0; i <= log.size(); ++i) {
        if(log.size() < 30 || i < 10 || i + 6 > log.size() || r.chance(15, (unsigned)log.size())) for(int pl = 0; pl < 2; ++pl) {
            Image t = pl ? dur.lose(r, {x.kp}) : cur; if(!pl && i < log.size()) sim::apply_torn(t, log[i], r.below(log[i].len + 1));
            sim::Fs f2(t); sim::Use u2(f2); WalMon m2(x.dp, x.kp, x.lp, t); m2.wal = false; m2.begin_recovery(); f2.monitor = [&](Op const& o) { m2.on(o); };
            error_code e; Args<sim::file>::recover(x.dp, x.kp, x.lp, e); f2.monitor = nullptr; ++x.points; beat();
            sim::Blob d = f2.image().at(x.dp);
            CHECK(d.size() >= orig.size() && d.same(orig, 0, orig.size()), "recovery of a rekey interrupted at op %zu/%zu changed or removed committed bytes (%llu of %llu left)", i, log.size(), (unsigned long long)d.size(), (unsigned long long)orig.size());
            stats().add("rekey_crash_points");
        }
        if(i < log.size()) { sim::apply(cur, log[i]); dur.on(log[i]); }
    }
}

// Inserts from several threads while commits run, then crash: the recovered
// contents must be a consistent cut of the concurrent history.
static void concurrent_case(u64 seed) {
    Rng r(seed); Cfg c = crash_cfg(r, 0); c.key_size = r.range(4, 20); c.kind = 0;
    std::string dp = "v:/db.dat", kp = "v:/db.key", lp = "v:/db.log";
    struct Ins { u64 key, inv, ret; };
    std::vector<Ins> ins; std::vector<std::pair<u64, u64>> fl; std::vector<u64> stamp;
    std::atomic<u64> clk{1};
    sim::Fs fs; sim::Use u(fs); hash_kind() = c.kind;
    Session<sim::file> ss(c, "v:/"); ss.create();
    Image im0 = fs.image();
    ss.open();
    Image im1 = fs.image(); fs.recording = true;
    u64 dseed = r.next();
    fs.monitor = [&](Op const& o) { if(sim::mutating(o.k) && !o.failed) stamp.push_back(clk++); };
    std::atomic<u64> nd{0};
    fs.pause = [&](Op const&) { u64 v = mix(dseed + nd++); if(v % 4 == 0) std::this_thread::yield(); else if(v % 7 == 0) std::this_thread::sleep_for(std::chrono::microseconds(v % 60)); };
    int T = (int)r.range(2, 4); u64 per = r.range(20, 120);
    std::vector<std::vector<Ins>> out(T); std::vector<std::thread> th; std::atomic<int> live{T}; std::atomic<bool> bad{false};
    for(int t = 0; t < T; ++t) th.emplace_back([&, t] {
        Rng q(mix2(seed, t));
        for(u64 i = 0; i < per; ++i) {
            u64 id = t + T * i; KeyBuf k(make_key(c, id)); bytes v = make_value(c, id, 0); error_code ec;
            u64 a = clk++; ss.s->insert(k, v.data(), v.size(), ec); u64 b = clk++;
            if(ec) bad = true;
            out[t].push_back({id, a, b});
            if(q.chance(1, 10)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(100)));
        }
        --live;
    });
    while(live > 0) { u64 a = clk++; ss.ctx.flush(); u64 b = clk++; fl.push_back({a, b}); beat(); if(r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(400))); }
    for(auto& t : th) t.join();
    CHECK(!bad, "concurrent insert of distinct keys failed");
    { u64 a = clk++; ss.close(); u64 b = clk++; fl.push_back({a, b}); }
    fs.monitor = nullptr; fs.pause = nullptr;
    for(auto& o : out) ins.insert(ins.end(), o.begin(), o.end());
    HARNESS(stamp.size() == fs.log.size(), "stamps %zu ops %zu", stamp.size(), fs.log.size());
    Image cur = im1; sim::Durable dur(im1);
    std::map<std::string, std::size_t> idx; for(std::size_t i = 0; i < ins.size(); ++i) idx[make_key(c, ins[i].key)] = i;
    u64 pts = 0, partial = 0; auto& log = fs.log;
    std::set<u64> cuts;
    for(std::size_t i = 0; i <= log.size(); ++i) {
        u64 now = i < log.size() ? stamp[i] : ~0ull;
        if(i == log.size() || log[i].k != K::write || r.chance(1, 4)) {
            Image t = cur;
            if(r.chance(1, 3)) t = dur.lose(r, {kp}, (int)r.below(2));
            else if(i < log.size() && r.chance(1, 2)) sim::apply_torn(t, log[i], r.below(log[i].len + 1));
            sim::Fs f2(t); sim::Use u2(f2); error_code ec; ++pts; beat();
            Args<sim::file>::recover(dp, kp, lp, ec);
            std::string what = fmt("concurrent history, crash at op %zu/%zu", i, log.size());
            CHECK(!ec, "%s: recovery reported '%s'", what.c_str(), ec.message().c_str());
            Image o = f2.image(); Db db = Db::parse(o.at(dp), o.at(kp));
            CHECK(db.valid(), "%s: %s", what.c_str(), db.first().c_str());
            u64 maxinv = 0; std::vector<char> in(ins.size(), 0);
            for(auto& rec : db.recs) {
                auto it = idx.find(rec.key); CHECK(it != idx.end(), "%s: phantom key", what.c_str());
                auto& x = ins[it->second]; in[it->second] = 1;
                CHECK(x.inv < now, "%s: key recovered before it was inserted", what.c_str());
                CHECK(db.value(rec) == make_value(c, x.key, 0), "%s: wrong value", what.c_str());
                maxinv = std::max(maxinv, x.inv);
            }
            u64 acked = 0; for(auto& f : fl) if(f.second < now) acked = std::max(acked, f.first);
            for(std::size_t j = 0; j < ins.size(); ++j) if(!in[j]) {
                CHECK(!(ins[j].ret < acked), "%s: key inserted before a finished commit is gone", what.c_str());
                CHECK(!(ins[j].ret < maxinv), "%s: not a consistent cut: an insert that finished earlier is missing while a later one is present", what.c_str());
            }
            cuts.insert(db.recs.size()); if(db.recs.size() && db.recs.size() < ins.size()) ++partial;
        }
        if(i < log.size()) { sim::apply(cur, log[i]); dur.on(log[i]); }
    }
    stats().eval(pts); stats().add("concurrent_crash_points", pts); stats().add("concurrent_distinct_cuts", cuts.size());
    for(auto x : cuts) stats().nontrivial(mix2(seed, x));
}

static void one(u64 seed, u64 idx) {
    Rng r(seed);
    if((opt().mode == "atomic" || opt().mode == "durable") && idx % 6 == 5) return concurrent_case(seed);
    Cfg c = crash_cfg(r, idx);
    bool wide = idx % 32 == 22;
    if(wide) { c.kind = 0; c.key_size = r.range(6, 12); c.block_size = r.range(104, 140); c.lf = r.pick({0.3f, 0.5f, 0.9f}); c.valmode = 0; }
    current().set(fmt("mode=%s case=%llu %s", opt().mode.c_str(), (unsigned long long)idx, c.str().c_str()));
    Crash x(opt().mode, c, seed ^ 0x55);
    // key files of thousands of buckets: logs longer than the read buffer of recovery, or bucket numbers beyond 16 bits
    x.wide = wide ? (idx % 64 == 22 ? (u64)(c.cap() * c.lf * r.range(66000, 140000)) : r.range(6000, 15000)) : 0;
    x.history();
    x.crashes(wide ? opt().num("wide_budget", 60) : opt().num("budget", 1200));
    if(opt().mode == "append" && idx % 2) rekey_append(x, r);
    stats().eval(x.points); stats().add("crash_points", x.points); stats().add("recoveries", x.recoveries); stats().add("recovery_crash_points", x.nested);
    stats().add("recovered_to_before", x.before); stats().add("recovered_to_after", x.after_); stats().add("rollbacks_replayed", x.rolled); stats().add("operations_logged", x.log.size());
    stats().sample(fmt("%s commits=%zu keys=%zu file_ops=%zu crash_points=%llu rollbacks=%llu", c.str().c_str(), x.evs.size() - 1, x.order.size(), x.log.size(), (unsigned long long)x.points, (unsigned long long)x.rolled));
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
