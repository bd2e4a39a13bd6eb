// C19: a commit held at each of its file operations while fetches and inserts run, and readers
// held at each of their reads while commits run.
#include "dbgen.hpp"
using namespace vf;

static thread_local int t_role = 0;        // 0 other, 1 committer, 2.. reader
struct Gate {                              // holds threads at chosen file operations
    std::mutex m; std::condition_variable cv;
    bool held = false, release_all = false, done = false; std::string where; u64 idx = 0;
    // committer
    void stop(std::string const& w) { std::unique_lock<std::mutex> l(m); if(release_all) return; held = true; where = w; cv.notify_all(); cv.wait(l, [&] { return !held || release_all; }); held = false; cv.notify_all(); }
    bool wait_held() { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return held || done; }); return held; }
    void go() { std::unique_lock<std::mutex> l(m); held = false; cv.notify_all(); }
    void finish() { std::lock_guard<std::mutex> l(m); done = true; cv.notify_all(); }
    void free_all() { std::lock_guard<std::mutex> l(m); release_all = true; cv.notify_all(); }
    bool wait_held_for(int us, bool& d) { std::unique_lock<std::mutex> l(m); cv.wait_for(l, std::chrono::microseconds(us), [&] { return held || done; }); d = done && !held; return held; }
    bool is_held() { std::lock_guard<std::mutex> l(m); return held; }
    bool is_done() { std::lock_guard<std::mutex> l(m); return done; }
};

static Cfg cfg_for(Rng& r) {
    Cfg c = gen_cfg(r); if(c.key_size > 60) c.key_size = r.range(4, 40); if(c.key_size < 3) c.key_size = 3;
    if(c.block_size > 300) c.block_size = r.range(104, 300);
    if(c.valmode > 2) c.valmode = (int)r.below(2);
    if(r.chance(1, 3)) c.lf = r.pick({0.9f, 0.99f, 0.05f, 0.3f});
    return c;
}
static char phase_of(sim::Op const& o, Session<sim::file>& ss) { return o.path == ss.lp ? 'L' : o.path == ss.dp ? 'D' : 'K'; }

// Commit held at its operations; one thread probes
static void stall_commit(u64 seed, u64 idx) {
    Rng r(seed); Cfg c = cfg_for(r); hash_kind() = c.kind;
    sim::Fs fs; sim::Use u(fs); Session<sim::file> ss(c, "v:/"); ss.create(); ss.open();
    u64 next = 0, pre = 1 + r.skew(c.kind ? 60 : 300);
    while(next < pre) { ss.insert(next++, 0); if(r.chance(1, 40)) ss.flush(); }
    ss.flush(); if(r.chance(1, 3)) { ss.close(); ss.open(); }
    Gate* gate = nullptr; std::map<std::string, u64> nth; double p = 1; Rng pr(seed + 9);
    auto hook = [&](sim::Op const& o, bool after) {
        if(t_role != 1 || !gate) return;
        std::string k = fmt("%c %s", phase_of(o, ss), sim::kname(o.k)); u64 n = after ? nth[k] : ++nth[k];
        if(pr.unit() > p) return;
        gate->stop(fmt("%s %s #%llu", after ? "after" : "before", k.c_str(), (unsigned long long)n));
    };
    fs.pause = [&](sim::Op const& o) { hook(o, false); };
    fs.after = [&](sim::Op const& o) { hook(o, true); };
    u64 rounds = r.range(1, 3); std::size_t prev = ss.order.size();
    for(u64 rd = 0; rd < rounds; ++rd) {
        u64 batch = 1 + r.skew(c.kind ? 40 : 150);
        for(u64 i = 0; i < batch; ++i) ss.insert(next++, 0);
        // in memory now: order[prev..]; during the commit: being committed
        std::size_t inflight_end = ss.order.size();
        Gate g; gate = &g; nth.clear(); p = std::min(1.0, 14.0 / (10 + 3.0 * batch));
        if(r.chance(1, 3)) p = 1;
        if(batch > 60) p = std::min(p, 0.2);
        std::exception_ptr err; std::string cerr;
        std::thread th([&] { t_role = 1; try { ss.ctx.flush(); } catch(std::exception& e) { cerr = e.what(); } g.finish(); });
        u64 stalls = 0;
        try {
            while(g.wait_held()) {
                std::string w; { std::lock_guard<std::mutex> l(g.m); w = g.where; }
                current().set(fmt("case=%llu commit %llu of %s held %s", (unsigned long long)idx, (unsigned long long)rd, c.str().c_str(), w.c_str()));
                ++stalls; w = w.substr(0, w.find('#'));
                auto probe = [&](std::size_t a, std::size_t b, char const* cls, u64 n) {
                    if(a >= b) return;
                    if(b - a <= n) for(std::size_t j = a; j < b; ++j) ss.fetch(ss.order[j]);
                    else for(u64 j = 0; j < n; ++j) ss.fetch(ss.order[a + r.below(b - a)]);
                    stats().add(std::string("fetches_") + cls + "_while_held", std::min<u64>(n, b - a));
                };
                u64 n = p == 1 ? 25 : 60;
                try {
                    probe(0, prev, "committed", n); probe(prev, inflight_end, "being_committed", n); probe(inflight_end, ss.order.size(), "in_memory", n / 2);
                    for(int j = 0; j < 6; ++j) { ss.fetch(next + 500000 % (c.key_space() == ~0ull ? ~0ull : c.key_space() / 2) + r.below(1000)); stats().add("fetches_absent_while_held"); }
                    if(r.chance(2, 3)) { ss.insert(next++, 0); stats().add("inserts_while_held"); ss.fetch(next - 1); }
                    if(ss.order.size() && r.chance(1, 2)) { ss.insert(ss.order[r.below(prev ? prev : 1)], 4); stats().add("refused_inserts_while_held"); }
                    if(r.chance(1, 2)) { ss.insert(ss.order[prev + r.below(inflight_end - prev)], 4); stats().add("refused_inserts_while_held"); }
                } catch(Violation& v) { violate("while a commit was held %s: %s", w.c_str(), v.what()); }
                stats().eval(); stats().nontrivial(mix2(fnvs(w), mix2(idx, stalls))); stats().add("held_" + w);
                g.go();
            }
        } catch(...) { err = std::current_exception(); }
        g.free_all(); th.join(); gate = nullptr;
        if(err) std::rethrow_exception(err);
        CHECK(cerr.empty(), "commit threw %s", cerr.c_str());
        ss.committed = inflight_end; prev = inflight_end;
        ss.fetch_all();
        stats().add("commits_held"); stats().peak("stalls_in_one_commit", stalls);
    }
    fs.pause = nullptr; fs.after = nullptr;
    ss.close();
    auto im = fs.image(); Db db = Db::parse(im[ss.dp], im[ss.kp]); CHECK(db.valid(), "%s", db.first().c_str());
    auto d = diff_prefix(db, c, ss.order, ss.model, ss.order.size()); CHECK(d.empty(), "%s", d.c_str());
    stats().peak("max_buckets", db.buckets); stats().add("spill_records", db.spills.size());
    stats().sample(fmt("commit held: %s keys=%zu buckets=%llu spills=%zu", c.str().c_str(), ss.order.size(), (unsigned long long)db.buckets, db.spills.size()));
}

// Readers and inserting threads held at one of their reads while commits run or wait
struct Reader {
    Gate g; std::thread th; u64 key = 0; bool ins = false; u64 at = 0, nread = 0, kreads = 0, commits = 0; bool present = false; error_code ec; bytes got; int calls = 0; bool stalled = false;
};
static thread_local Reader* t_reader = nullptr;
static void stall_reader(u64 seed, u64 idx) {
    Rng r(seed); Cfg c = cfg_for(r); hash_kind() = c.kind;
    sim::Fs fs; sim::Use u(fs); Session<sim::file> ss(c, "v:/"); ss.create(); ss.open();
    u64 next = 0, pre = 5 + r.skew(c.kind ? 50 : 300);
    while(next < pre) { ss.insert(next++, 0); if(r.chance(1, 40)) ss.flush(); }
    ss.flush();
    fs.pause = [&](sim::Op const& o) { if(t_reader && o.k == sim::K::read && t_reader->nread++ == t_reader->at) t_reader->g.stop(fmt("%c read #%llu", phase_of(o, ss), (unsigned long long)t_reader->at)); };
    u64 rounds = r.range(1, 4), released = 0, done_early = 0;
    std::vector<std::unique_ptr<Reader>> rd; std::thread committer; std::exception_ptr err;
    std::atomic<bool> cdone{true};
    auto start_reader = [&](u64 key, bool ins, u64 at) {
        std::unique_ptr<Reader> p(new Reader); p->key = key; p->ins = ins; p->at = at; p->present = ss.model.count(key) != 0; Reader* q = p.get();
        q->th = std::thread([&, q] {
            t_reader = q; t_role = 2; KeyBuf k(make_key(c, q->key));
            if(q->ins) { bytes v = make_value(c, q->key, 0); ss.s->insert(k, v.data(), v.size(), q->ec); }
            else ss.s->fetch(k, [q](void const* p, std::size_t n) { ++q->calls; q->got.assign((u8 const*)p, (u8 const*)p + n); }, q->ec);
            q->g.finish();
        });
        if(q->g.wait_held()) { q->stalled = true; stats().add("threads_held_at_" + q->g.where.substr(0, 6) + (ins ? "_inserting" : "_fetching")); } else { ++done_early; stats().add("threads_not_held"); }
        rd.push_back(std::move(p));
    };
    auto finish_reader = [&](Reader& q) {
        q.g.free_all(); q.th.join();
        if(q.ins) {
            if(q.present) CHECK(q.ec == error::key_exists, "insert of existing key %llu held at its read %llu during commits: %s", (unsigned long long)q.key, (unsigned long long)q.at, q.ec.message().c_str());
            else { CHECK(!q.ec, "insert of new key %llu held at its read %llu during commits: %s", (unsigned long long)q.key, (unsigned long long)q.at, q.ec.message().c_str()); ss.model[q.key] = 0; ss.order.push_back(q.key); }
        } else if(q.present) {
            CHECK(!q.ec && q.calls == 1, "fetch of present key %llu, held at its read %llu (%s) during commits: %s, %d callbacks", (unsigned long long)q.key, (unsigned long long)q.at, q.g.where.c_str(), q.ec.message().c_str(), q.calls);
            CHECK(q.got == make_value(c, q.key, ss.model[q.key]), "fetch of key %llu, held at its read %llu during commits, delivered a wrong value", (unsigned long long)q.key, (unsigned long long)q.at);
        } else CHECK(q.ec == error::key_not_found && !q.calls, "fetch of absent key %llu, held at its read %llu during commits: %s", (unsigned long long)q.key, (unsigned long long)q.at, q.ec.message().c_str());
        stats().eval(); if(q.stalled) { stats().nontrivial(mix2(idx, mix2(q.key, q.at))); ++released; }
    };
    try {
        for(u64 k = 0; k < rounds; ++k) {
            // a batch in memory that the next commit will work on
            u64 batch = 1 + r.skew(c.kind ? 40 : 150);
            for(u64 i = 0; i < batch; ++i) ss.insert(next++, 0);
            // readers, preferably of keys in the buckets that this commit will split
            Db db = Db::parse(fs.image()[ss.dp], fs.image()[ss.kp]); u64 mod = 1; while(mod < db.buckets) mod *= 2;
            std::vector<u64> hot; u64 n1 = db.buckets == mod ? 0 : db.buckets - mod / 2;
            for(std::size_t j = 0; j < ss.committed; ++j) { auto it = db.by_key.find(make_key(c, ss.order[j])); if(it == db.by_key.end()) continue; u64 b = ref_index(db.recs[it->second].h, db.buckets, mod); if(b >= n1 && b < n1 + 1 + batch / 4) hot.push_back(ss.order[j]); }
            u64 nr = r.range(1, 5); bool haveins = false;
            for(u64 j = 0; j < nr; ++j) {
                u64 key = hot.size() && r.chance(2, 3) ? r.pick(hot) : r.chance(1, 5) ? next + 1000 + r.below(1000) : ss.order[r.below(ss.committed)];
                if(c.key_space() != ~0ull && key >= c.key_space()) key = 0;
                bool ins = !haveins && r.chance(1, 5);
                if(ins && !ss.model.count(key)) { if(key < next + 2000) key = next + 3000 + k; }
                haveins |= ins;
                current().set(fmt("case=%llu starting reader", (unsigned long long)idx));
                start_reader(key, ins, r.below(4));
            }
            cdone = false;
            std::size_t upto = ss.order.size();
            committer = std::thread([&] { t_role = 1; ss.ctx.flush(); cdone = true; });
            current().set(fmt("case=%llu %s: %llu readers held while a commit of %llu keys runs or waits", (unsigned long long)idx, c.str().c_str(), (unsigned long long)nr, (unsigned long long)batch));
            // others go on while the commit runs or waits
            auto others = [&] {
                for(int j = 0; j < 12; ++j) ss.fetch(ss.order[r.below(ss.order.size())]);
                if(!haveins) { ss.insert(next++, 0); stats().add("inserts_while_reader_held"); }
                stats().add("fetches_while_reader_held", 12);
            };
            u64 spins = r.below(6); for(u64 j = 0; j < spins; ++j) { others(); std::this_thread::sleep_for(std::chrono::microseconds(r.below(300))); }
            if(!cdone) stats().add("commits_waiting_for_reader");
            // release in random order
            while(!rd.empty()) { std::size_t j = r.below(rd.size()); std::unique_ptr<Reader> q = std::move(rd[j]); rd.erase(rd.begin() + j); bool wasins = q->ins; finish_reader(*q); if(wasins) haveins = false; beat(); if(r.chance(1, 3)) others(); }
            current().set(fmt("case=%llu %s: all readers released, the commit has to finish", (unsigned long long)idx, c.str().c_str()));
            committer.join(); stats().add("commits"); ss.committed = upto; 
            ss.fetch_all();
        }
    } catch(...) { err = std::current_exception(); }
    for(auto& q : rd) { q->g.free_all(); if(q->th.joinable()) q->th.join(); }
    if(committer.joinable()) committer.join();
    fs.pause = nullptr;
    if(err) std::rethrow_exception(err);
    ss.close();
    auto im = fs.image(); Db db = Db::parse(im[ss.dp], im[ss.kp]); CHECK(db.valid(), "%s", db.first().c_str());
    auto d = diff_prefix(db, c, ss.order, ss.model, ss.order.size()); CHECK(d.empty(), "%s", d.c_str());
    stats().peak("max_buckets", db.buckets);
    stats().sample(fmt("readers held: %s keys=%zu buckets=%llu held=%llu", c.str().c_str(), ss.order.size(), (unsigned long long)db.buckets, (unsigned long long)released));
}

// Readers started while a commit is held at some operation, themselves held at one of their reads
// while that commit goes on and later commits run or wait
static void mixed(u64 seed, u64 idx) {
    Rng r(seed); Cfg c = cfg_for(r); hash_kind() = c.kind; if(r.chance(1, 2)) c.lf = r.pick({0.05f, 0.1f, 0.99f});
    sim::Fs fs; sim::Use u(fs); Session<sim::file> ss(c, "v:/"); ss.create(); ss.open();
    u64 next = 0, pre = 5 + r.skew(c.kind ? 50 : 200); while(next < pre) { ss.insert(next++, 0); if(r.chance(1, 40)) ss.flush(); } ss.flush();
    Gate* gate = nullptr; Rng pr(seed + 9); double p = 0.2; 
    fs.pause = [&](sim::Op const& o) {
        if(t_reader && o.k == sim::K::read) { if(o.path == ss.kp) t_reader->kreads++; if(t_reader->nread++ == t_reader->at) t_reader->g.stop(fmt("%c read #%llu", phase_of(o, ss), (unsigned long long)t_reader->at)); }
        else if(t_role == 1 && gate && pr.unit() < p) gate->stop(fmt("before %c %s", phase_of(o, ss), sim::kname(o.k)));
    };
    std::vector<std::unique_ptr<Reader>> rd; std::thread committer; std::exception_ptr err;
    auto c1_readers = [&] { for(auto& q : rd) if(!q->kreads) return true; return false; };
    auto start_reader = [&](u64 key, std::string const& w) {
        std::unique_ptr<Reader> p(new Reader); p->key = key; p->at = r.below(4); p->present = ss.model.count(key) != 0; Reader* q = p.get();
        q->th = std::thread([&, q] { t_reader = q; t_role = 2; KeyBuf k(make_key(c, q->key)); ss.s->fetch(k, [q](void const* p, std::size_t n) { ++q->calls; q->got.assign((u8 const*)p, (u8 const*)p + n); }, q->ec); q->g.finish(); });
        if(q->g.wait_held()) { q->stalled = true; stats().add(fmt("readers_held_%s_view", q->kreads ? "file" : "memory")); stats().add("readers_started_while_commit_held_" + w); } else stats().add("readers_not_held");
        rd.push_back(std::move(p));
    };
    auto finish_one = [&] {
        std::size_t j = r.below(rd.size()); std::unique_ptr<Reader> q = std::move(rd[j]); rd.erase(rd.begin() + j); q->g.free_all(); q->th.join();
        if(q->present) {
            CHECK(!q->ec && q->calls == 1, "fetch of present key %llu, held at its read %llu (%s) during %llu commits: %s, %d callbacks", (unsigned long long)q->key, (unsigned long long)q->at, q->g.where.c_str(), (unsigned long long)q->commits, q->ec.message().c_str(), q->calls);
            CHECK(q->got == make_value(c, q->key, ss.model[q->key]), "fetch of key %llu, held at its read %llu during commits, delivered a wrong value", (unsigned long long)q->key, (unsigned long long)q->at);
        } else CHECK(q->ec == error::key_not_found && !q->calls, "fetch of absent key %llu, held at its read %llu during commits: %s", (unsigned long long)q->key, (unsigned long long)q->at, q->ec.message().c_str());
        stats().eval(); stats().peak("commits_during_one_fetch", q->commits); if(q->stalled && q->commits) stats().add("fetches_spanning_a_commit_end"); if(q->stalled) stats().nontrivial(mix2(idx, mix2(q->key, mix2(q->at, q->commits))));
        beat();
    };
    try {
        for(u64 k = 0, rounds = r.range(2, 6); k < rounds; ++k) {
            while(c1_readers()) finish_one();
            for(u64 i = 0, b = 1 + r.skew(c.kind ? 30 : 80); i < b; ++i) ss.insert(next++, 0);
            Gate g; gate = &g; p = r.pick({0.05, 0.2, 0.6}); std::size_t upto = ss.order.size();
            committer = std::thread([&] { t_role = 1; ss.ctx.flush(); g.finish(); });
            for(;;) {
                bool d = false; current().set(fmt("case=%llu %s: commit %llu, %zu readers held", (unsigned long long)idx, c.str().c_str(), (unsigned long long)k, rd.size()));
                bool h = rd.empty() ? g.wait_held() : g.wait_held_for(2000, d);
                if(!h) { if(rd.empty() || d) break; stats().add("commits_waiting_for_reader"); finish_one(); continue; }
                std::string w; { std::lock_guard<std::mutex> l(g.m); w = g.where; }
                // while the commit is held no writer waits for the lock
                for(u64 j = r.below(3); j && rd.size() < 8; --j) start_reader(r.chance(1, 5) && c.key_space() == ~0ull ? next + 1000 + r.below(1000) : ss.order[r.chance(1, 2) ? r.below(ss.order.size()) : ss.order.size() - 1 - r.below(std::min<u64>(ss.order.size(), 40))], w.substr(7));
                if(rd.size() && r.chance(1, 5)) finish_one();
                if(!c1_readers() && r.chance(1, 3)) { ss.insert(next++, 0); stats().add("inserts_while_held"); }
                for(int j = 0; j < 3; ++j) { ss.fetch(ss.order[r.below(ss.order.size())]); stats().add("fetches_while_held"); }
                g.go();
            }
            committer.join(); gate = nullptr; ss.committed = upto; stats().add("commits"); for(auto& q : rd) ++q->commits;
            for(int j = 0; j < 20; ++j) ss.fetch(ss.order[r.below(ss.order.size())]);
        }
        while(rd.size()) finish_one();
    } catch(...) { err = std::current_exception(); }
    if(gate) gate->free_all();
    for(auto& q : rd) { q->g.free_all(); if(q->th.joinable()) q->th.join(); }
    if(committer.joinable()) committer.join();
    fs.pause = nullptr; if(err) std::rethrow_exception(err);
    ss.fetch_all(); ss.close();
    auto im = fs.image(); Db db = Db::parse(im[ss.dp], im[ss.kp]); CHECK(db.valid(), "%s", db.first().c_str());
    auto d = diff_prefix(db, c, ss.order, ss.model, ss.order.size()); CHECK(d.empty(), "%s", d.c_str());
    stats().sample(fmt("mixed: %s keys=%zu buckets=%llu", c.str().c_str(), ss.order.size(), (unsigned long long)db.buckets));
}

static void one(u64 seed, u64 idx) { if(opt().mode == "mixed") mixed(seed, idx); else if(opt().mode == "reader") stall_reader(seed, idx); else stall_commit(seed, idx); }
int main(int argc, char** argv) { return run_main(argc, argv, one, 40); }
