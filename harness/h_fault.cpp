// Injected I/O errors: reporting, stickiness, containment (C08).
#include "wl.hpp"
using namespace vf;
using sim::Image; using sim::Op; using sim::K;

static error_code EX = sim::posix_err(ENOTRECOVERABLE);      // the error injected in this run
static void choose_error(u64 h) { static int const e[] = {ENOTRECOVERABLE, EIO, ENOSPC, EACCES, EBADF, EINVAL, EAGAIN, EDQUOT, EROFS, EFBIG}; EX = sim::posix_err(e[mix(h) % 10]); }

struct Plan { u64 at = ~0ull; int kind = 0; char cls = 0; };   // kind: 0 before, 1 partial write, 2 after effect, 3 persistent

struct Fault {
    Cfg c; u64 seed; Plan plan; 
    std::string dp = "v:/db.dat", kp = "v:/db.key", lp = "v:/db.log";
    u64 n = 0; bool armed = false, fired = false, in_session = false; Op what; u64 mutated_after = 0;
    Op first_mut;
    u64 total = 0; bool wide = false; std::map<char, u64> count;   // wide: commits that do not fit into the write buffers
    std::map<std::string, u64> hits;

    void install(sim::Fs& fs) {
        fs.inject = [this](Op const& o) {
            sim::Fault f;
            if(!armed) return f;
            char cl = o.path == kp && (o.k == K::read || o.k == K::write) ? 'k' : o.path == dp && o.k == K::read ? 'd' : 'o';
            ++count[cl];
            u64 i = plan.cls ? plan.cls == cl ? n++ : ~1ull : n++;      // counts all operations, or those of one class
            if(i == plan.at || (fired && plan.kind == 3)) {
                if(!fired) {
                    fired = true; what = o;
                    // the errors of the library itself, where they have no other meaning
                    if(in_session && plan.kind != 3 && mix(seed ^ plan.at) % 3 == 0) { if(o.k == K::read) EX = error_code(error::short_read); }
                }
                f.fail = true; f.ec = EX;
                if(plan.kind == 1 && o.k == K::write) f.partial = mix(seed + i) % (o.len + 1);
                if(plan.kind == 2) f.after = true;
            }
            return f;
        };
    }
    std::string desc() const { return fmt("fault kind %d at operation %llu (%s %s off=%llu len=%llu)", plan.kind, (unsigned long long)plan.at, sim::kname(what.k), what.path.c_str(), (unsigned long long)what.off, (unsigned long long)what.len); }

    // One run of the scenario with the fault; returns false when the plan index is beyond the run
    bool run() {
        Rng r(seed); choose_error(mix2(seed, plan.at) + plan.kind);
        sim::Fs fs; sim::Use u(fs); install(fs);
        hash_kind() = c.kind;
        nudb::context ctx;
        using store_t = nudb::basic_store<vhasher, sim::file>;
        std::vector<u64> order; std::map<u64, u64> model; std::size_t acked = 0; u64 next = 0;
        { error_code ec; Args<sim::file>::create(dp, kp, lp, c, ec); HARNESS(!ec, "create: %s", ec.message().c_str()); }
        u64 maxk = c.key_space() == ~0ull ? 5000 : c.key_space() / 2;
        std::size_t expect_min = 0;
        // --- healthy first part
        {
            store_t st(ctx); error_code ec; Args<sim::file>::open(st, dp, kp, lp, ec); HARNESS(!ec, "open");
            u64 m = wide ? 8000 : r.skew(120); if(wide) { maxk = 100000; st.set_burst(std::size_t(1) << 40); }
            while(m-- && next < maxk) { ins(st, next, 0, ec); HARNESS(!ec, "insert"); order.push_back(next); model[next++] = 0; if(r.chance(1, 30)) ctx.flush(); }
            st.close(ec); HARNESS(!ec, "close"); acked = order.size();
            if(wide) {
                sim::file::erase(kp, ec); HARNESS(!ec, "erase");
                Args<sim::file>::rekey(dp, kp, lp, c.block_size, 0.5f, 6000, 1 << 22, ec, [](u64, u64) { beat(); }); CHECK(!ec, "rekey: %s", ec.message().c_str());
            }
        }
        // --- part with the fault
        armed = true; n = 0; fired = false;
        bool dead = false;         // commit failed: sticky
        std::size_t upper = acked;
        bool opened = false, closed_ok = false;
        {
            store_t st(ctx);
            error_code ec; Args<sim::file>::open(st, dp, kp, lp, ec);
            if(fired) {
                if(!ignorable_open(ec)) CHECK(ec == EX, "%s during open: open returned '%s'", desc().c_str(), ec.message().c_str());
                if(ec) CHECK(!st.is_open(), "%s: open failed but the store is open", desc().c_str());
                hits["open"]++;
            } else CHECK(!ec, "open without fault: %s", ec.message().c_str());
            opened = !ec;
            if(opened) {
                st.set_burst(std::size_t(1) << 40); in_session = true;
                bool was0 = fired;
                if(wide && !fired) {
                    for(u64 q = 0; q < 6000 && !fired; ++q) { beat(); error_code e2; ins(st, next, 0, e2); if(fired) { CHECK(e2 == EX, "%s during insert: returned '%s'", desc().c_str(), e2.message().c_str()); break; } CHECK(!e2, "insert: %s", e2.message().c_str()); order.push_back(next); model[next++] = 0; }
                    if(!fired) {
                        std::size_t pend = order.size(); ctx.flush();
                        if(fired && !was0) { dead = true; upper = pend; hits["commit"]++; stats().add("long_commits_failed"); } else acked = pend;
                    }
                }
                u64 steps = wide ? 5 : 20 + r.below(60); auto snap = fs.nops.load(); (void)snap;
                for(u64 i = 0; i < steps; ++i) {
                    beat();
                    bool was = fired; u64 mut0 = muts(fs);
                    u64 act = r.below(12);
                    if(act == 0) {          // commit
                        std::size_t pend = order.size();
                        bool something = pend > acked;
                        ctx.flush();
                        if(!dead) {
                            if(fired && (!was || (plan.kind == 3 && something))) { dead = true; upper = pend; hits["commit"]++; HARNESS(something, "flush with nothing"); }
                            else acked = pend;
                        } else CHECK(muts(fs) == mut0, "%s in a commit: a later flush modified files", desc().c_str());
                    } else if(act <= 3) {   // fetch
                        u64 i2 = r.chance(1, 5) ? next + 7000 : r.below(next + 1);
                        if(c.key_space() != ~0ull) i2 %= c.key_space();
                        KeyBuf k(make_key(c, i2)); error_code e2; int calls = 0; bytes got;
                        st.fetch(k, [&](void const* p, std::size_t s) { ++calls; got.assign((u8 const*)p, (u8 const*)p + s); }, e2);
                        check_fetch(dead, fired && !was, e2, calls, got, model, i2);
                        if(fired && !was && !dead) hits["fetch"]++;
                        CHECK(muts(fs) == mut0, "fetch modified a file");
                    } else if(act == 4 && next) {   // duplicate
                        u64 i2 = r.below(next); error_code e2; ins(st, i2, 4, e2);
                        if(dead) CHECK(e2 == EX, "%s in a commit: insert later returned '%s'", desc().c_str(), e2.message().c_str());
                        else if(fired && !was && plan.kind != 99) CHECK(e2 == EX, "%s during insert of an existing key: returned '%s'", desc().c_str(), e2.message().c_str());
                        else if(!fired || plan.kind != 3) CHECK(e2 == error::key_exists, "insert of an existing key returned '%s'", e2.message().c_str());
                        CHECK(muts(fs) == mut0, "insert modified a file");
                    } else if(next < maxk) {
                        u64 burst = r.chance(1, 4) ? r.range(2, 40) : 1;
                        while(burst-- && next < maxk) {
                            was = fired;
                            error_code e2; ins(st, next, 0, e2);
                            if(dead) { CHECK(e2 == EX, "%s in a commit: insert later returned '%s'", desc().c_str(), e2.message().c_str()); }
                            else if(fired && !was) { CHECK(e2 == EX, "%s during insert: returned '%s'", desc().c_str(), e2.message().c_str()); hits["insert"]++; }
                            else if(plan.kind == 3 && fired) { if(!e2) { order.push_back(next); model[next] = 0; } else CHECK(e2 == EX, "insert returned '%s'", e2.message().c_str()); }
                            else { CHECK(!e2, "insert returned '%s'%s", e2.message().c_str(), fired ? (" after " + desc()).c_str() : ""); order.push_back(next); model[next] = 0; }
                            if(dead || e2) { if(r.chance(1, 3)) break; if(!dead && plan.kind != 3) { /* retry the same key */ error_code e3; ins(st, next, 0, e3); CHECK(!e3, "%s during insert: retrying returned '%s'", desc().c_str(), e3.message().c_str()); order.push_back(next); model[next] = 0; ++next; } }
                            else ++next;
                        }
                        CHECK(muts(fs) == mut0, "insert modified a file");
                    }
                }
                // close
                bool was = fired; u64 mut0 = muts(fs); std::size_t pend = order.size();
                error_code e2; st.close(e2);
                CHECK(!st.is_open(), "store open after close");
                if(dead) {
                    CHECK(e2 == EX, "%s in a commit: close returned '%s'", desc().c_str(), e2.message().c_str());
                    CHECK(muts(fs) == mut0, "%s in a commit: close modified files afterwards", desc().c_str());
                } else if((fired && !was) || (plan.kind == 3 && fired)) {
                    if(!(plan.kind == 3 && was && !e2)) CHECK(e2 == EX, "%s during close: close returned '%s'", desc().c_str(), e2.message().c_str());
                    if(fired && !was) hits["close"]++;
                    upper = pend;
                } else { CHECK(!e2, "close: %s", e2.message().c_str()); }
                if(!e2) { acked = pend; closed_ok = true; }
                else upper = std::max(upper, dead ? upper : pend);
            }
        }
        total = n; in_session = false;
        (void)expect_min; (void)closed_ok;
        CHECK(fs.handles == 0, "%llu files left open after the store was destroyed", (unsigned long long)fs.handles.load());
        armed = false; bool did = fired;
        // --- afterwards, without faults: committed data must be there
        {
            store_t st(ctx); error_code ec; Args<sim::file>::open(st, dp, kp, lp, ec);
            CHECK(!ec, "%s: reopening failed: %s", desc().c_str(), ec.message().c_str());
            st.close(ec); CHECK(!ec, "%s: close after reopening: %s", desc().c_str(), ec.message().c_str());
            Image im = fs.image(); Db db = Db::parse(im.at(dp), im.at(kp));
            CHECK(db.valid(), "%s: after reopening: %s", desc().c_str(), db.first().c_str());
            std::string a = diff_prefix(db, c, order, model, acked), b = upper > acked ? diff_prefix(db, c, order, model, upper) : "-";
            CHECK(a.empty() || b.empty(), "%s: after reopening the contents are neither the last committed state (%s) nor that of the failed commit (%s)", desc().c_str(), a.c_str(), b.c_str());
            CHECK(im.size() == 2, "%s: log file left after close", desc().c_str());
        }
        if(did) { stats().add(std::string("faults_in_") + sim::kname(what.k)); for(auto& h : hits) stats().add("faults_hit_" + h.first, h.second);
            stats().nontrivial(mix2(mix2(seed, plan.at), plan.kind)); stats().sample(c.str() + " " + desc()); }
        stats().eval();
        return did || plan.at == ~0ull;
    }
    bool ignorable_open(error_code const&) const { return false; }
    static u64 muts(sim::Fs& fs) { return fs.count[(int)K::write] + fs.count[(int)K::trunc] + fs.count[(int)K::create] + fs.count[(int)K::erase]; }
    void ins(nudb::basic_store<vhasher, sim::file>& st, u64 i, u64 a, error_code& ec) { KeyBuf k(make_key(c, i)); bytes v = make_value(c, i, a); st.insert(k, v.data(), v.size(), ec); }
    void check_fetch(bool dead, bool hit, error_code const& e, int calls, bytes const& got, std::map<u64, u64> const& model, u64 i) {
        if(dead) { CHECK(e == EX && calls == 0, "%s in a commit: fetch later returned '%s' with %d callbacks", desc().c_str(), e.message().c_str(), calls); return; }
        if(hit) { CHECK(e == EX, "%s during fetch: returned '%s'", desc().c_str(), e.message().c_str()); CHECK(calls == 0, "%s during fetch: value delivered", desc().c_str()); return; }
        if(fired && plan.kind == 3 && e == EX) { CHECK(calls == 0, "failed fetch delivered a value"); return; }
        auto it = model.find(i);
        if(it == model.end()) CHECK(e == error::key_not_found && !calls, "fetch of an absent key returned '%s' %s", e.message().c_str(), fired ? ("after " + desc()).c_str() : "");
        else CHECK(!e && calls == 1 && got == make_value(c, i, it->second), "fetch of a present key returned '%s' %s", e.message().c_str(), fired ? ("after " + desc()).c_str() : "");
    }
};

// A fault inside recovery of an interrupted commit
static void recover_case(u64 seed, Cfg c) {
    Rng r(seed); bool big = r.chance(1, 12);        // the log does not fit into the read buffer of recover
    if(big) { c.kind = 0; c.block_size = 104 + r.below(3); c.key_size = std::max<std::size_t>(c.key_size, 8); c.keymode = 0; }
    hash_kind() = c.kind;
    std::string dp = "v:/db.dat", kp = "v:/db.key", lp = "v:/db.log";
    sim::Fs fs; sim::Use u(fs);
    Session<sim::file> ss(c, "v:/"); ss.create(); ss.open();
    u64 n = big ? 5000 : ss.max_keys(20 + r.skew(200)), add = big ? 6000 : 60;
    for(u64 i = 0; i < n; ++i) ss.insert(i, 0);
    if(big) {
        ss.close(); fs.names.erase(kp); error_code ec; Args<sim::file>::rekey(dp, kp, lp, c.block_size, 0.5f, 6000, 1 << 20, ec, [](u64, u64) {}); CHECK(!ec, "rekey: %s", ec.message().c_str());
        ss.open(); stats().add("long_logs");
    }
    ss.flush(); Image b = fs.image(); fs.recording = true;
    u64 m = std::min(ss.max_keys(n + add), c.key_space() == ~0ull ? n + add : c.key_space());
    for(u64 i = n; i < m; ++i) ss.insert(i, 0);
    ss.flush(); Image a = fs.image(); fs.recording = false; ss.close();
    if(fs.log.empty()) return;
    for(int q = 0; q < 6; ++q) {
        Image cur = b; u64 stop = r.below(fs.log.size());
        if(big) { if(q >= 2) break; stop = fs.log.size() - 1 - r.below(20); }        // late, when the log is complete
        for(u64 i = 0; i < stop; ++i) sim::apply(cur, fs.log[i]);
        sim::apply_torn(cur, fs.log[stop], r.below(fs.log[stop].len + 1));
        std::vector<u64> ats; if(!big) for(u64 at = 0; at < 400; ++at) ats.push_back(at);
        else { sim::Fs f1(cur); sim::Use u1(f1); u64 k = 0; f1.inject = [&](Op const& o) { if(o.k != K::write || r.chance(1, 200)) ats.push_back(k); ++k; return sim::Fault{}; }; error_code ec; Args<sim::file>::recover(dp, kp, lp, ec); CHECK(!ec, "recover: %s", ec.message().c_str()); }
        for(int kind = 0; kind < (big ? 1 : 3); ++kind) for(u64 at : ats) {
            sim::Fs f2(cur); sim::Use u2(f2); beat(); choose_error(mix2(seed, at) + kind);
            u64 k = 0, later = 0; bool fired = false; Op what;
            f2.inject = [&](Op const& o) { sim::Fault f; if(fired && sim::mutating(o.k)) ++later; if(k++ == at) { fired = true; what = o; f.fail = true; f.ec = EX; f.after = kind == 2; if(kind == 1 && o.k == K::write) f.partial = mix(seed + at) % (o.len + 1); } return f; };
            error_code ec; Args<sim::file>::recover(dp, kp, lp, ec);
            if(!fired) break;
            std::string w = fmt("fault kind %d at operation %llu of recovery (%s %s)", kind, (unsigned long long)at, sim::kname(what.k), what.path.c_str());
            CHECK(ec == EX, "%s: recovery returned '%s'", w.c_str(), ec.message().c_str());
            CHECK(later == 0, "%s: recovery went on to modify files after the failure", w.c_str());
            CHECK(f2.handles == 0, "%s: files left open", w.c_str());
            f2.inject = nullptr; error_code e2; Args<sim::file>::recover(dp, kp, lp, e2);
            CHECK(!e2, "%s: recovering again: %s", w.c_str(), e2.message().c_str());
            Image o = f2.image();
            bool isb = o[dp] == b[dp] && o[kp] == b[kp], isa = o[dp] == a[dp] && o[kp] == a[kp];
            CHECK(isb || isa, "%s: recovering again gives neither the state before nor after the commit", w.c_str());
            CHECK(!o.count(lp), "%s: log left", w.c_str());
            stats().eval(); stats().add("recovery_faults"); stats().add(std::string("faults_in_") + sim::kname(what.k)); stats().nontrivial(mix2(mix2(seed, at * 3 + kind), stop));
        }
    }
}

// A fault inside the recovery of an interrupted rekey
static void recover_rekey_case(u64 seed, Cfg c) {
    Rng r(seed); hash_kind() = c.kind;
    std::string dp = "v:/db.dat", kp = "v:/db.key", lp = "v:/db.log";
    sim::Fs fs; sim::Use u(fs); Session<sim::file> ss(c, "v:/"); ss.create(); ss.open();
    u64 n = ss.max_keys(1 + r.skew(150)); for(u64 i = 0; i < n; ++i) ss.insert(i, 0);
    ss.close(); { error_code e; sim::file::erase(kp, e); HARNESS(!e, "erase"); }
    Image b = fs.image(); fs.recording = true; error_code ec;
    Args<sim::file>::rekey(dp, kp, lp, r.range(104, 300), 0.9f, 1 + n / r.range(1, 4), r.below(3000), ec, [](u64, u64) { beat(); }); CHECK(!ec, "rekey: %s", ec.message().c_str());
    fs.recording = false; if(fs.log.empty()) return;
    for(int q = 0; q < 14; ++q) {
        Image cur = b; u64 stop = q < 10 ? (u64)q : r.below(fs.log.size()); if(stop >= fs.log.size()) continue;
        for(u64 i = 0; i < stop; ++i) sim::apply(cur, fs.log[i]);
        sim::apply_torn(cur, fs.log[stop], r.below(fs.log[stop].len + 1));
        if(!cur.count(kp)) continue;
        for(int kind = 0; kind < 3; ++kind) for(u64 at = 0; at < 400; ++at) {
            sim::Fs f2(cur); sim::Use u2(f2); beat(); choose_error(mix2(seed, at) + kind);
            u64 k = 0, later = 0; bool fired = false; Op what;
            f2.inject = [&](Op const& o) { sim::Fault f; if(fired && sim::mutating(o.k)) ++later; if(k++ == at) { fired = true; what = o; f.fail = true; f.ec = EX; f.after = kind == 2; if(kind == 1 && o.k == K::write) f.partial = mix(seed + at) % (o.len + 1); } return f; };
            error_code ec; Args<sim::file>::recover(dp, kp, lp, ec);
            if(!fired) break;
            std::string w = fmt("fault kind %d at operation %llu of the recovery of a rekey interrupted before operation %llu (%s %s)", kind, (unsigned long long)at, (unsigned long long)stop, sim::kname(what.k), what.path.c_str());
            CHECK(ec == EX, "%s: recovery returned '%s'", w.c_str(), ec.message().c_str());
            CHECK(later == 0, "%s: recovery went on to modify files after the failure", w.c_str());
            CHECK(f2.handles == 0, "%s: files left open", w.c_str());
            f2.inject = nullptr; error_code e2; Args<sim::file>::recover(dp, kp, lp, e2); Args<sim::file>::recover(dp, kp, lp, e2 = {});
            Image o = f2.image();
            CHECK(!o.count(kp) && !o.count(lp) && o[dp] == b[dp], "%s: recovering again (%s): key file %s, log file %s, data file %s", w.c_str(), e2.message().c_str(), o.count(kp) ? "left" : "gone", o.count(lp) ? "left" : "gone", o[dp] == b[dp] ? "restored" : "not restored");
            stats().eval(); stats().add("rekey_recovery_faults"); stats().add(std::string("faults_in_") + sim::kname(what.k)); stats().nontrivial(mix2(mix2(seed, at * 3 + kind), stop));
        }
    }
}

static void one(u64 seed, u64 idx) {
    Rng r(seed); Cfg c = gen_cfg(r);
    if(c.key_size > 64) c.key_size = r.range(2, 40);
    if(c.block_size > 700) c.block_size = r.range(104, 700);
    c.valmode = r.pick({0, 1, 1, 3});
    if(idx % 16 == 7) { c.valmode = 1; return recover_rekey_case(seed, c); }
    if(idx % 4 == 3) { c.valmode = 1; return recover_case(seed, c); }
    bool wide = idx % 32 == 21;
    if(wide) { c.kind = 0; c.block_size = 104 + r.below(3); c.lf = 0.5f; c.key_size = std::max<u64>(c.key_size, 8); c.keymode = 0; c.valmode = r.pick({0, 1}); }
    current().set(fmt("case=%llu %s", (unsigned long long)idx, c.str().c_str()));
    Fault base{c, seed, Plan{}}; base.wide = wide; base.run();
    if(wide) {
        // rekey chooses a random salt: operations are found again by class and number, not by number alone
        for(char cl : {'o', 'k', 'd'}) for(u64 at = 0; at < base.count[cl] + 2; ++at) {
            if(cl != 'o' && !r.chance(1, 800)) continue;
            int kind = (int)r.below(4); Fault f{c, seed, Plan{at, kind, cl}}; f.wide = true; f.run();
        }
        stats().add("wide_scenarios"); return;
    }
    u64 N = base.total; stats().add("operations_in_scenarios", N);
    u64 lim = opt().num("budget", 150);
    for(u64 at = 0; at < N; ++at) {
        if(N > lim && !r.chance((unsigned)lim, (unsigned)N) && at > 30 && at + 30 < N) continue;
        for(int kind = 0; kind < 4; ++kind) { if(kind && !r.chance(1, 2)) continue; Fault f{c, seed, Plan{at, kind}}; f.run(); }
    }
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
