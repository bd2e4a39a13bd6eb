// Makes valid databases of many shapes (as images), and damages them.
#pragma once
#include "wl.hpp"
namespace vf {

struct Made {
    Cfg c; std::vector<u64> order; std::map<u64, u64> model;
    sim::Image im;                  // v:/db.dat, v:/db.key (and v:/db.log for crash images)
    std::string shape;
    sim::Blob& dat() { return im["v:/db.dat"]; }
    sim::Blob& key() { return im["v:/db.key"]; }
};
static const char* const DP = "v:/db.dat"; static const char* const KP = "v:/db.key"; static const char* const LP = "v:/db.log";

// shape 0: grown by sessions; 1: grown, then rekeyed (dead spill records);
// 2: independent writer; 3: empty; 4: single bucket, many spills
inline bool& huge_ok() { static bool b = false; return b; }
inline int& only_kind() { static int k = -1; return k; }     // use this hash function only
// max_bs bounds the block size. If crash, the image is one taken in the middle of a commit.
inline Made make_db(Rng& r, u64 budget, bool crash = false, u64 max_bs = 65535) {
    Made m; Cfg c = gen_cfg(r);
    if(c.key_size > 2000) c.key_size = r.range(1, 200);
    if(c.block_size > max_bs) c.block_size = r.range(104, std::min<u64>(max_bs, 1024));
    int shape = crash ? 0 : (int)r.below(12);
    if(shape == 11) shape = 3; else if(shape >= 9) shape = 4; else if(shape >= 7) shape = 2; else if(shape >= 5) shape = 1; else shape = 0;
    if(r.chance(1, 2)) { c.block_size = r.range(104, 250); if(c.valmode >= 3) c.valmode = r.chance(1, 3) ? 3 : 0; }
    bool huge = huge_ok() && r.chance(1, 40); if(huge) c.valmode = 6;
    if(shape == 4) { c.lf = r.pick({0.99f, 0.95f}); c.kind = r.chance(1, 2) ? 1 : c.kind; }
    if(only_kind() >= 0) c.kind = only_kind();
    hash_kind() = c.kind; m.c = c;
    sim::Fs fs; sim::Use u(fs);
    Session<sim::file> ss(c, "v:/");
    u64 n = ss.max_keys(shape == 3 ? 0 : 1 + r.skew(budget)); if(c.kind && c.kind != 3 && c.kind != 4) n = std::min<u64>(n, 250);
    u64 left = huge ? 40u << 20 : 6u << 20; if(huge) n = std::min<u64>(n, 60);
    if(shape == 2) {
        std::vector<std::pair<std::string, bytes>> recs;
        for(u64 i = 0; i < n; ++i) { u64 sz = value_size(c, i, 0) + c.key_size; if(sz > left) break; left -= sz; recs.emplace_back(make_key(c, i), make_value(c, i, 0)); ss.model[i] = 0; ss.order.push_back(i); }
        u64 ideal = std::max<u64>(1, (u64)(recs.size() / (c.cap() * c.lf)));
        Spec sp{c.uid, c.appnum, c.key_size, c.salt, c.block_size, std::min<u64>((u64)(65536.0f * c.lf), 65535), r.chance(1, 3) ? 1 : r.range(1, ideal * 2 + 1)};
        if(c.kind && sp.buckets > 64) sp.buckets = 64;
        ref_write(sp, recs, m.im[DP], m.im[KP], r, r.chance(1, 2));
        m.order = ss.order; m.model = ss.model; m.shape = "foreign"; return m;
    }
    ss.create(); ss.open();
    std::vector<sim::Op> log; sim::Image base;
    for(u64 i = 0; i < n; ++i) {
        u64 sz = value_size(c, i, 0) + c.key_size; if(sz > left) break; left -= sz;
        ss.insert(i, 0);
        if(r.chance(1, 40)) ss.flush();
        if(r.chance(1, 150) && !crash) { ss.close(); ss.open(); }
    }
    if(crash) {
        u64 from = ss.order.size(); ss.flush(); base = fs.image(); fs.recording = true;
        u64 k = 1 + r.below(60);
        for(u64 i = 0; i < k && (c.key_space() == ~0ull || from + i < c.key_space() / 2); ++i) { if(value_size(c, from + i, 0) > 100000) break; ss.insert(from + i, 0); }
        ss.flush();
        log = fs.log; u64 at = log.size() ? r.below(log.size() + 1) : 0;
        // prefer points after the log was synchronised
        for(u64 i = 0; i < at; ++i) sim::apply(base, log[i]);
        if(at < log.size() && r.chance(1, 3)) sim::apply_torn(base, log[at], r.below(log[at].len + 1));
        ss.close(); m.im = base; m.shape = "interrupted commit";
    } else {
        ss.close(); m.im = fs.image(); m.shape = shape == 3 ? "empty" : shape == 4 ? "overfull" : "grown";
        if(shape == 1 && ss.order.size()) {
            error_code ec; fs.names.erase(KP);
            u64 bs = r.range(104, 300); float lf = r.pick({0.5f, 0.9f, 0.25f});
            Args<sim::file>::rekey(DP, KP, LP, bs, lf, r.chance(1, 3) ? 1 : ss.order.size(), r.below(5000), ec, [](u64, u64) {});
            CHECK(!ec, "rekey failed: %s", ec.message().c_str());
            m.im = fs.image(); m.c.block_size = bs; m.c.lf = lf; m.shape = "rekeyed";
            m.c.salt = be(&m.im[KP].get(28, 8)[0], 8);
        }
    }
    m.order = ss.order; m.model = ss.model; return m;
}

// What a lookup of every stored record finds, following the bucket walk of the
// format: binary search in the sorted bucket, then spill records.
struct Reach { bool ok = true; std::string why; };
inline Reach reachable(sim::Blob const& dat, sim::Blob const& key) {
    Reach x; Db db; db.parse_dat(dat);
    auto bad = [&](std::string s) { if(x.ok) { x.ok = false; x.why = s; } };
    if(!db.dat_ok) { bad("data file: " + db.first()); return x; }
    Db k; k.d = db.d; k.parse_key_header(key);
    if(!k.buckets || !k.capacity) { bad("key header: " + k.first()); return x; }
    for(auto& e : k.err) if(e.find("multiple") == std::string::npos && e.find("reserved") == std::string::npos && e.find("padding") == std::string::npos) { bad("header: " + e); return x; }
    u64 const bsz = 8 + 18 * k.capacity;
    std::unordered_map<u64, std::size_t> at; for(std::size_t i = 0; i < db.recs.size(); ++i) at[db.recs[i].off] = i;
    std::vector<u8> found(db.recs.size(), 0);
    std::vector<std::vector<std::size_t>> want(k.buckets);
    for(std::size_t i = 0; i < db.recs.size(); ++i) { auto& r = db.recs[i]; r.h = ref_h48(k.k.salt, r.key.data(), r.key.size()); want[ref_index(r.h, k.buckets, k.modulus)].push_back(i); }
    for(u64 n = 0; n < k.buckets; ++n) {
        bytes raw = key.get((n + 1) * k.k.block_size, bsz);
        std::set<u64> seen;
        for(;;) {
            u64 cnt = be(&raw[0], 2);
            if(cnt > k.capacity) { bad(fmt("bucket %llu count too large", (unsigned long long)n)); return x; }
            Bkt b = ref_bucket(raw.data(), k.capacity);
            for(auto& e : b.e) {
                auto it = at.find(e.off);
                if(it == at.end()) bad(fmt("bucket %llu entry points to %llu, not a record", (unsigned long long)n, (unsigned long long)e.off));
                else { auto& r = db.recs[it->second]; if(r.size != e.size) bad("entry with wrong size"); if(r.h != e.hash) bad("entry with wrong hash"); }
            }
            for(auto i : want[n]) if(!found[i]) {
                std::size_t lo = 0, c2 = cnt; u64 h = db.recs[i].h;     // lower bound
                while(c2) { std::size_t s = c2 / 2; if(b.e[lo + s].hash < h) { lo += s + 1; c2 -= s + 1; } else c2 = s; }
                for(; lo < cnt && b.e[lo].hash == h; ++lo) if(b.e[lo].off == db.recs[i].off) { found[i] = 1; break; }
            }
            if(!b.spill) break;
            if(!seen.insert(b.spill).second) { bad("spill chain is a cycle"); break; }
            if(b.spill + bsz > dat.size()) { bad("spill pointer beyond the file"); break; }
            raw = dat.get(b.spill, bsz);
        }
    }
    for(std::size_t i = 0; i < found.size(); ++i) if(!found[i]) { bad(fmt("record at %llu not reachable", (unsigned long long)db.recs[i].off)); break; }
    return x;
}

// average reads per lookup: the bucket, spill records and entries of other keys with the same hash on the way
inline double avg_reads(Db& db, sim::Blob const& key) {
    u64 f = 0;
    if(db.recs.empty()) return 0;
    std::unordered_map<u64, u64> cost;   // record offset -> reads
    for(u64 n = 0; n < db.buckets; ++n) {
        if(key.hole((n + 1) * db.k.block_size, db.k.block_size)) continue;
        bytes raw = key.get((n + 1) * db.k.block_size, db.k.block_size); std::unordered_map<u64, u64> same; u64 depth = 1;
        for(;;) {
            Bkt b = ref_bucket(raw.data(), db.capacity);
            for(auto& e : b.e) cost[e.off] = depth + same[e.hash]++;
            if(!b.spill) break;
            ++depth; raw = db.dat.get(b.spill, 8 + 18 * db.capacity);
        }
    }
    for(auto& r : db.recs) f += cost[r.off];
    return (double)f / db.recs.size();
}

} // vf
