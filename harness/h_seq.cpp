// Sequential histories: map semantics (map), file format (format), I/O cost (cost).
#include "wl.hpp"
using namespace vf;

struct IoCount { u64 key_reads = 0, dat_reads = 0, log_reads = 0, mut = 0, key_wbytes = 0, log_wbytes = 0, dat_wbytes = 0; };

template<class File> struct Hist {
    Rng r; Session<File>& ss; std::string mode; sim::Fs* fs; IoCount io;
    u64 buckets0 = 0; std::size_t base_n = 0;   // at session start
    bool big = false;
    Db last; sim::Blob last_key;
    u64 spills_seen = 0, splits_seen = 0, maxchain = 0, checks = 0;
    sim::Blob key0, log1; u64 dat0 = 0; bool logging = false;    // before the commit in progress; its log

    Hist(u64 seed, Session<File>& s, std::string m, sim::Fs* f) : r(seed), ss(s), mode(m), fs(f) {
        if(fs) fs->monitor = [this](sim::Op const& o) {
            bool k = o.path == ss.kp, d = o.path == ss.dp;
            if(o.k == sim::K::read) ++(k ? io.key_reads : d ? io.dat_reads : io.log_reads);
            if(o.k != sim::K::read && o.k != sim::K::size && o.k != sim::K::open) ++io.mut;
            if(o.k == sim::K::write) (k ? io.key_wbytes : d ? io.dat_wbytes : io.log_wbytes) += o.len;
            if(mode == "format" && !k && !d && o.path == ss.lp && !o.failed) log_op(o);
        };
    }
    ~Hist() { if(fs) fs->monitor = nullptr; }

    Db parse() { auto im = fs->image(); last_key = im[ss.kp]; return Db::parse(im[ss.dp], im[ss.kp]); }
    // The log a commit leaves behind if it is interrupted just before it is done
    void log_op(sim::Op const& o) {
        if(o.k == sim::K::write) {
            if(!logging) { key0 = fs->names[ss.kp]->b; dat0 = fs->names[ss.dp]->b.size(); logging = true; }
            log1 = fs->names[ss.lp]->b;
        } else if(o.k == sim::K::erase) logging = false;
        else if(o.k == sim::K::trunc && o.len == 0 && logging) {
            logging = false; Log l = ref_log(log1); auto& c = ss.c;
            CHECK(l.header && l.h.type == "nudb.log" && l.h.version == 2 && l.h.uid == c.uid && l.h.appnum == c.appnum && l.h.key_size == c.key_size && l.h.salt == c.salt && l.h.pepper == ref_pepper(c.salt) && l.h.block_size == c.block_size, "the header of the log does not hold the creation parameters");
            CHECK(l.h.kfs == key0.size() && l.h.dfs == dat0, "the log holds the file sizes %llu and %llu, they were %llu and %llu", (unsigned long long)l.h.kfs, (unsigned long long)l.h.dfs, (unsigned long long)key0.size(), (unsigned long long)dat0);
            CHECK(l.err.empty(), "log: %s", l.err.c_str());
            CHECK(l.complete, "the log of a completed commit ends within a record");
            for(auto& e : l.rec) {
                CHECK((e.first + 2) * c.block_size <= key0.size(), "log record for bucket %llu, the key file had fewer", (unsigned long long)e.first);
                bytes b = e.second; b.resize(c.block_size);
                CHECK(b == key0.get((e.first + 1) * c.block_size, c.block_size), "the log record of bucket %llu does not hold what the bucket was", (unsigned long long)e.first);
            }
            stats().add("logs_parsed"); stats().add("log_records_checked", l.rec.size());
        }
    }
    void format_check(bool closed) {
        auto im = fs->image(); ++checks;
        CHECK(im.count(ss.dp) && im.count(ss.kp), "data or key file missing");
        if(closed) CHECK(!im.count(ss.lp), "log file left after close");
        else CHECK(im.count(ss.lp) && im[ss.lp].size() == 0, "log file not empty at a commit boundary");
        CHECK(im.size() == (closed ? 2u : 3u), "unexpected files");
        Db db = Db::parse(im[ss.dp], im[ss.kp]);
        CHECK(db.valid(), "files do not conform: %s", db.first().c_str());
        check_headers(db, ss.c);
        auto d = diff_prefix(db, ss.c, ss.order, ss.model, ss.committed);
        CHECK(d.empty(), "file contents: %s", d.c_str());
        spills_seen = std::max<u64>(spills_seen, db.spills.size()); splits_seen = db.buckets - 1; maxchain = std::max(maxchain, db.max_chain);
        stats().add("images_parsed"); stats().add("records_checked", db.recs.size()); stats().add("spill_records_seen", db.spills.size());
    }
    void cost_fetch(u64 i) {
        io = IoCount{}; 
        bool uncommitted = false;
        if(ss.model.count(i)) { uncommitted = true; for(std::size_t j = 0; j < ss.committed; ++j) if(ss.order[j] == i) { uncommitted = false; break; } }
        ss.fetch(i);
        stats().add("fetches_counted");
        CHECK(io.mut == 0, "fetch modified files (%llu operations)", (unsigned long long)io.mut);
        if(uncommitted) CHECK(io.key_reads + io.dat_reads + io.log_reads == 0, "fetch of an uncommitted key read files %llu times", (unsigned long long)(io.key_reads + io.dat_reads + io.log_reads));
        else {
            Cost c = fetch_cost(last, last_key, make_key(ss.c, i));
            CHECK(io.log_reads == 0, "fetch read the log file");
            CHECK(io.key_reads <= 1, "fetch read the key file %llu times", (unsigned long long)io.key_reads);
            CHECK(io.dat_reads <= c.spills + c.cands, "fetch read the data file %llu times; chain has %llu spill records and %llu candidates", (unsigned long long)io.dat_reads, (unsigned long long)c.spills, (unsigned long long)c.cands);
            stats().peak("max_chain_walked", c.spills);
            if(c.spills) stats().add("fetches_with_spills");
        }
    }
    void flush() {
        std::size_t before = ss.committed, n = ss.order.size() - before;
        u64 b0 = 0, s0 = 0, ch = 0, recb = 0;
        if(mode == "cost") {
            b0 = last.buckets; s0 = last.spills.size(); ch = last.max_chain; io = IoCount{};
            for(std::size_t j = before; j < ss.order.size(); ++j) recb += 6 + ss.c.key_size + value_size(ss.c, ss.order[j], ss.model[ss.order[j]]);
        }
        ss.flush();
        if(mode == "cost") {
            IoCount w = io; last = parse(); maxchain = std::max(maxchain, last.max_chain); splits_seen = last.buckets - 1; spills_seen = last.spills.size();
            if(n) {
                u64 splits = last.buckets - b0, touched = n + 2 * splits, bsz = 8 + 18 * ss.c.cap();
                CHECK(w.key_wbytes <= touched * ss.c.block_size, "commit of %zu keys with %llu splits wrote %llu bytes to the key file", n, (unsigned long long)splits, (unsigned long long)w.key_wbytes);
                CHECK(w.log_wbytes <= LOG_HDR + (n + splits) * (8 + bsz), "commit of %zu keys wrote %llu bytes to the log", n, (unsigned long long)w.log_wbytes);
                u64 newsp = last.spills.size() - s0, lim = n + splits * (std::max(ch, last.max_chain) + 2);
                CHECK(newsp <= lim, "commit of %zu keys with %llu splits wrote %llu spill records", n, (unsigned long long)splits, (unsigned long long)newsp);
                CHECK(w.dat_wbytes <= recb + newsp * (8 + bsz), "commit wrote %llu bytes to the data file, records %llu, spills %llu", (unsigned long long)w.dat_wbytes, (unsigned long long)recb, (unsigned long long)newsp);
                growth();
                stats().add("commits_counted");
            } else CHECK(w.mut == 0, "flush with nothing to commit modified files");
        }
        if(mode == "format" && (ss.order.size() < 400 || r.chance(1, 4))) format_check(false);
    }
    void growth() {
        double T = std::max(1.0, std::min<u64>((u64)(65536.0f * ss.c.lf), 65535) * (double)ss.c.cap() / 65536.0);
        double want = (ss.committed - base_n) / T, got = (double)last.buckets - (double)buckets0;
        CHECK(got >= want - 1.01 && got <= want + 1.01, "after %zu inserts in this session the key file grew by %.0f buckets, expected about %.2f (one per %.2f keys)", ss.committed - base_n, got, want, T);
    }
    void open() { ss.open(); if(mode == "cost") { last = parse(); buckets0 = last.buckets; base_n = ss.committed; } }
    void close() {
        ss.close();
        if(mode == "format") format_check(true);
        if(mode == "cost") { last = parse(); growth(); }
    }
    // The same data file with another key file, made by rekey
    void rekey() {
        if(!fs) return;
        auto& c = ss.c; u64 n = ss.order.size(); error_code ec;
        sim::file::erase(ss.kp, ec); CHECK(!ec, "cannot erase the closed key file: %s", ec.message().c_str());
        if(c.block_size < 30000) c.block_size = r.pick<u64>({104, 105, c.block_size, 130, 500, 4096});
        c.lf = r.pick({0.5f, c.lf, 0.95f, 0.3f});
        u64 items = r.pick<u64>({n, 1, n / 3, n * 2 + 1}), limit = (u64)(20000 * ref_capacity(c.block_size) * c.lf); if(items > limit) items = limit;
        Args<sim::file>::rekey(ss.dp, ss.kp, ss.lp, c.block_size, c.lf, items, r.pick<u64>({1, 3000, 1 << 20}) + items / 50 * c.block_size, ec, [](u64, u64) { beat(); });
        CHECK(!ec, "rekey: %s", ec.message().c_str());
        bytes salt = fs->image()[ss.kp].get(28, 8); c.salt = be(salt.data(), 8);
        stats().add("rekeys"); format_check(true);
    }
    void identity() {
        CHECK(ss.s->appnum() == ss.c.appnum && ss.s->key_size() == ss.c.key_size && ss.s->block_size() == ss.c.block_size, "accessors differ from creation parameters");
        CHECK(ss.s->dat_path() == ss.dp && ss.s->key_path() == ss.kp && ss.s->log_path() == ss.lp, "paths differ");
    }
    void run(u64 budget) {
        u64 nkeys = ss.max_keys(10 + r.skew(budget));
        if(ss.c.kind && ss.c.kind != 3 && ss.c.kind != 4) nkeys = std::min<u64>(nkeys, 400);
        if(ss.c.key_size > 2000) nkeys = std::min<u64>(nkeys, 120);
        if(big) nkeys = ss.c.cap() + r.below(ss.c.cap() * 3 / 2);
        else if(ss.c.block_size > 8000) nkeys = std::min<u64>(nkeys, 1500);
        open(); identity();
        u64 next = 0; u64 bytes_left = 24u << 20;
        u64 steps = 0;
        while(next < nkeys && steps < nkeys * 4 + 50) {
            ++steps;
            switch(r.below(20)) {
            case 0: flush(); break;
            case 1: if(r.chance(1, 6)) { close(); if(mode == "format" && r.chance(1, 3)) rekey(); open(); identity(); } break;
            case 2: case 3: if(next) { u64 i = r.below(next); mode == "cost" ? cost_fetch(i) : ss.fetch(i); } break;
            case 4: { u64 i = nkeys + r.below(ss.c.key_space() == ~0ull ? 1000 : std::max<u64>(1, ss.c.key_space() - nkeys));
                      if(ss.c.key_space() == ~0ull || i < ss.c.key_space()) { mode == "cost" ? cost_fetch(i) : ss.fetch(i); } break; }
            case 5: if(next) ss.insert(r.below(next), 1 + r.below(3)); break;    // duplicate, other value
            case 6: { u64 n = 1 + r.skew(200); while(n-- && next < nkeys) { u64 sz = value_size(ss.c, next, 0); if(sz + ss.c.key_size > bytes_left) { nkeys = next; break; } bytes_left -= sz + ss.c.key_size; ss.insert(next++, 0); } flush(); break; }
            default: { u64 sz = value_size(ss.c, next, 0); if(sz + ss.c.key_size > bytes_left) { nkeys = next; break; } bytes_left -= sz + ss.c.key_size; ss.insert(next++, 0); break; }
            }
        }
        if(mode == "cost") { flush(); for(u64 j = 0; j < std::min<u64>(next, 200); ++j) cost_fetch(r.below(next)); }
        else if(next < 3000) ss.fetch_all(); else for(int j = 0; j < 2000; ++j) ss.fetch(r.below(next));
        close(); open(); identity();
        if(mode != "cost") { if(next < 3000) ss.fetch_all(); else for(int j = 0; j < 2000; ++j) ss.fetch(r.below(next)); }
        for(int j = 0; j < 20 && next; ++j) ss.insert(r.below(next), 5);
        close();
        if(mode == "map" && fs) { last = parse(); splits_seen = last.buckets - 1; spills_seen = last.spills.size(); maxchain = last.max_chain; }
        stats().add("inserts", ss.ninsert); stats().add("fetches", ss.nfetch); stats().add("commits", ss.commits); stats().add("sessions", ss.sessions);
        if(splits_seen) stats().add("cases_with_splits"); if(spills_seen) stats().add("cases_with_spills"); if(ss.c.kind) stats().add("cases_with_bad_hash");
        stats().peak("max_spill_chain", maxchain); stats().peak("max_buckets", splits_seen + 1); stats().peak("max_keys", ss.order.size());
        stats().eval();
        if(ss.order.size() >= 10 && (splits_seen || spills_seen || ss.sessions > 2)) {
            stats().nontrivial(mix2(fnvs(ss.c.str()), mix2(ss.order.size(), mix2(splits_seen, spills_seen))));
            stats().sample(fmt("%s keys=%zu commits=%llu sessions=%llu buckets=%llu spills=%llu longest_chain=%llu", ss.c.str().c_str(), ss.order.size(), (unsigned long long)ss.commits, (unsigned long long)ss.sessions, (unsigned long long)splits_seen + 1, (unsigned long long)spills_seen, (unsigned long long)maxchain));
        }
    }
};

// The database im in the middle of a commit by another writer
static sim::Image foreign_crash(Rng& r, Cfg const& c, sim::Image im, Session<sim::file> const& ss) {
    auto& dat = im[ss.dp]; auto& key = im[ss.kp]; u64 const bs = c.block_size, kfs = key.size(), dfs = dat.size(), n = kfs / bs - 1;
    bytes o; for(char ch : std::string("nudb.log")) o.push_back((u8)ch);
    put_be(o, 2, 2); put_be(o, c.uid, 8); put_be(o, c.appnum, 8); put_be(o, c.key_size, 2); put_be(o, c.salt, 8); put_be(o, ref_pepper(c.salt), 8); put_be(o, bs, 2); put_be(o, kfs, 8); put_be(o, dfs, 8);
    u64 logged = r.pick<u64>({0, 1, r.below(n + 1), n}); bool cut = logged && r.chance(1, 3);
    std::vector<u64> which(n); for(u64 i = 0; i < n; ++i) which[i] = i;
    for(u64 i = n; i > 1; --i) std::swap(which[i - 1], which[r.below(i)]);
    auto junk = [&](u64 k) { bytes b(k); bool z = r.chance(1, 3); for(auto& x : b) x = z ? 0 : (u8)r.below(256); return b; };
    for(u64 i = 0; i < logged; ++i) {
        u64 at = (which[i] + 1) * bs; bytes raw = key.get(at, bs); raw.resize(8 + 18 * be(raw.data(), 2));
        bytes rec; put_be(rec, which[i], 8); rec.insert(rec.end(), raw.begin(), raw.end());
        if(cut && i + 1 == logged) { rec.resize(r.below(rec.size())); o.insert(o.end(), rec.begin(), rec.end()); break; }   // nothing was overwritten yet
        o.insert(o.end(), rec.begin(), rec.end());
    }
    if(!cut) {
        for(u64 i = 0; i < logged; ++i) if(r.chance(2, 3)) { bytes b = junk(bs); key.write((which[i] + 1) * bs, b.data(), bs); }
        if(logged) for(u64 i = r.below(4); i--;) { bytes b = junk(bs); key.write(key.size(), b.data(), bs); }
    }
    if(r.chance(3, 4)) { bytes b = junk(1 + r.skew(5000)); dat.write(dfs, b.data(), b.size()); }
    im[ss.lp] = sim::Blob{}; im[ss.lp].write(0, o.data(), o.size());
    return im;
}

// Database written by the independent writer, served by nudb
static void foreign_case(u64 seed) {
    Rng r(seed); Cfg c = gen_cfg(r); if(c.block_size > 9000) c.block_size = 512; if(c.key_size > 2000) c.key_size = 40;
    c.lf = r.pick({0.5f, 0.25f, 0.75f});
    hash_kind() = c.kind;
    sim::Fs fs; sim::Use u(fs);
    Session<sim::file> ss(c, "v:/");
    u64 n = ss.max_keys(1 + r.skew(1500)); if(c.kind) n = std::min<u64>(n, 300);
    std::vector<std::pair<std::string, bytes>> recs;
    u64 total = 0;
    for(u64 i = 0; i < n && total < (8u << 20); ++i) { recs.emplace_back(make_key(c, i), make_value(c, i, 0)); total += recs.back().second.size(); ss.model[i] = 0; ss.order.push_back(i); }
    n = recs.size();
    ss.committed = n;
    // recs in file order differs from insertion order on purpose
    for(u64 i = n; i > 1; --i) std::swap(recs[i - 1], recs[r.below(i)]);
    u64 ideal = std::max<u64>(1, (u64)(n / (c.cap() * c.lf)));
    Spec sp{c.uid, c.appnum, c.key_size, c.salt, c.block_size, std::min<u64>((u64)(65536.0f * c.lf), 65535), r.chance(1, 3) ? 1 : r.range(1, ideal * 2 + 1)};
    if(c.kind && sp.buckets > 64) sp.buckets = 64;
    sim::Image im; ref_write(sp, recs, im[ss.dp], im[ss.kp], r, r.chance(1, 2));
    { Db db = Db::parse(im[ss.dp], im[ss.kp]); HARNESS(db.valid(), "independent writer produced: %s", db.first().c_str()); stats().add("spill_records_written", db.spills.size()); }
    if(r.chance(1, 2)) im[ss.lp];   // an empty log file is allowed
    fs.load(im);
    if(r.chance(1, 2)) {
        fs.load(foreign_crash(r, c, im, ss));
        if(r.chance(1, 2)) { error_code ec; Args<sim::file>::recover(ss.dp, ss.kp, ss.lp, ec); CHECK(!ec, "recover from a log of another writer: %s", ec.message().c_str()); }
        else { ss.open(); ss.close(); }
        auto now = fs.image(); CHECK(now.count(ss.dp) && now[ss.dp] == im[ss.dp], "a log of another writer: the data file was not brought back to what it was");
        CHECK(now.count(ss.kp) && now[ss.kp] == im[ss.kp], "a log of another writer: the key file was not brought back to what it was");
        CHECK(!now.count(ss.lp), "log file left after recovery"); stats().add("foreign_logs");
    }
    ss.open();
    CHECK(ss.s->appnum() == c.appnum && ss.s->key_size() == c.key_size && ss.s->block_size() == c.block_size, "accessors differ from header fields");
    ss.fetch_all();
    for(int j = 0; j < 30; ++j) { u64 i = n + r.below(1000); if(c.key_space() == ~0ull || i < c.key_space()) ss.fetch(i); }
    for(int j = 0; j < 10 && n; ++j) ss.insert(r.below(n), 3);
    u64 more = r.below(300); if(c.key_space() != ~0ull) more = std::min(more, c.key_space() - n);
    for(u64 i = n; i < n + more; ++i) { ss.insert(i, 0); if(r.chance(1, 20)) ss.flush(); }
    ss.fetch_all();
    ss.close();
    auto im2 = fs.image();
    Db db = Db::parse(im2[ss.dp], im2[ss.kp]);
    CHECK(db.valid(), "after adding to a foreign database: %s", db.first().c_str());
    check_headers(db, c);
    auto d = diff_prefix(db, c, ss.order, ss.model, ss.order.size());
    CHECK(d.empty(), "after adding to a foreign database: %s", d.c_str());
    stats().eval(); stats().add("foreign_databases"); stats().add("fetches", ss.nfetch);
    if(n > 3) stats().nontrivial(mix2(fnvs(c.str()), mix2(n, sp.buckets + 1000000)));
}

static void one(u64 seed, u64 idx) {
    Rng r(mix(seed + 5));
    std::string mode = opt().mode;
    if(mode == "format" && idx % 3 == 2) return foreign_case(seed);
    Cfg c = gen_cfg(r, mode == "cost" && r.chance(1, 2));
    if(idx % 8 == 0) { c.block_size = 104 + r.below(60); c.key_size = 8; c.kind = 0; c.valmode = 0; c.lf = 0.5f; }   // many splits
    if(idx % 8 == 1) { c.lf = r.pick({0.9f, 0.95f, 0.99f}); c.block_size = r.range(104, 200); if(c.key_size > 300) c.key_size = 9; c.valmode = 0; } // many spills
    bool big = idx % 24 == 10;      // large blocks that overflow
    if(big) { c.block_size = r.pick<u64>({32767, 32768, 32769, 65535, r.range(30000, 65535)}); c.key_size = r.range(4, 40); c.kind = r.pick({0, 7, 3}); c.valmode = 0; c.lf = r.pick({0.9f, 0.99f}); }
    if(mode == "cost" && c.valmode == 4) c.valmode = 1;
    current().set(fmt("mode=%s case=%llu %s", mode.c_str(), (unsigned long long)idx, c.str().c_str()));
    u64 budget = opt().num("keys", 2500);
    if(idx % 40 == 0) budget *= 8;
    bool native = mode == "map" && idx % 5 == 4 && !big;
    if(native) {
        std::string d = scratch_dir();
        rm_file(d + "db.dat"); rm_file(d + "db.key"); rm_file(d + "db.log");
        Session<nudb::native_file> ss(c, d); ss.create();
        Hist<nudb::native_file> h(seed, ss, mode, nullptr); h.run(std::min<u64>(budget, 1500));
        stats().add("native_cases");
    } else {
        sim::Fs fs; sim::Use u(fs);
        Session<sim::file> ss(c, "v:/"); ss.create();
        if(mode == "format") {
            auto im = fs.image(); Db db = Db::parse(im[ss.dp], im[ss.kp]);
            CHECK(db.valid() && db.buckets == 1 && db.recs.empty() && im[ss.dp].size() == DAT_HDR, "freshly created files do not conform: %s", db.first().c_str()); check_headers(db, c);
        }
        Hist<sim::file> h(seed, ss, mode, &fs); h.big = big; h.run(budget);
        CHECK(fs.untokened == 0, "a file was built without the caller's arguments");
    }
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
