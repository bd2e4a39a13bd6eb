// Independent reader, validator and writer of NuDB files, written from the
// format description in README.md. Uses nothing from nudb except that hash
// kind 0 of vhasher forwards to nudb::xxhasher on the nudb side only.
#pragma once
#include "common.hpp"
#include "sim.hpp"
#include <nudb/xxhasher.hpp>

namespace vf {

// XXH64, written from the specification (byte-wise loads, no nudb code)
inline u64 ref_xxh64(void const* data, std::size_t len, u64 seed) {
    const u64 P1 = 0x9E3779B185EBCA87ull, P2 = 0xC2B2AE3D27D4EB4Full, P3 = 0x165667B19E3779F9ull,
              P4 = 0x85EBCA77C2B2AE63ull, P5 = 0x27D4EB2F165667C5ull;
    auto p = (u8 const*)data; auto const e = p + len;
    auto rot = [](u64 x, int r) { return (x << r) | (x >> (64 - r)); };
    auto l64 = [](u8 const* q) { u64 v = 0; for(int i = 7; i >= 0; --i) v = v << 8 | q[i]; return v; };
    auto l32 = [](u8 const* q) { u64 v = 0; for(int i = 3; i >= 0; --i) v = v << 8 | q[i]; return v; };
    auto round = [&](u64 a, u64 v) { return rot(a + v * P2, 31) * P1; };
    u64 h;
    if(len >= 32) {
        u64 a[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
        while((std::size_t)(e - p) >= 32) { for(int i = 0; i < 4; ++i) { a[i] = round(a[i], l64(p)); p += 8; } }
        h = rot(a[0], 1) + rot(a[1], 7) + rot(a[2], 12) + rot(a[3], 18);
        for(int i = 0; i < 4; ++i) h = (h ^ round(0, a[i])) * P1 + P4;
    } else h = seed + P5;
    h += len;
    while(e - p >= 8) { h = rot(h ^ round(0, l64(p)), 27) * P1 + P4; p += 8; }
    if(e - p >= 4) { h = rot(h ^ (l32(p) * P1), 23) * P2 + P3; p += 4; }
    while(p < e) { h = rot(h ^ (*p++ * P5), 11) * P1; }
    h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; h ^= h >> 32;
    return h;
}

inline int& hash_kind() { static int k = 0; return k; }
static const int n_hash_kinds = 8;
inline u64 other_hash(int kind, u64 seed, void const* p, std::size_t n) {
    u64 f = mix(fnv(p, n) ^ seed);
    switch(kind) {
    case 1: return 0x1234567812345678ull;               // everything collides
    case 2: return ((f & 3) * 0x3333333333330000ull) | 0x10000; // four values
    case 3: return f & 0xff00000000000000ull;           // entropy in the top byte only
    case 4: { u64 v = 0; std::memcpy(&v, p, n < 8 ? n : 8); return v << 16; } // identity: sequential keys
    case 5: return f & 0xffff;                          // entropy in bits that are dropped
    case 6: return (f & 1) ? ~0ull : (f | 0xffffff0000000000ull); // maximum values
    default: return (f & 0xfff) << 16;                  // 4096 values
    }
}
// The hash function on the nudb side
struct vhasher {
    u64 seed; nudb::xxhasher x;
    explicit vhasher(u64 s) : seed(s), x(s) {}
    u64 operator()(void const* p, std::size_t n) const { int k = hash_kind(); return k == 0 ? x(p, n) : other_hash(k, seed, p, n); }
};
// The hash function on the oracle side
inline u64 ref_hash(u64 seed, void const* p, std::size_t n) { int k = hash_kind(); return k == 0 ? ref_xxh64(p, n, seed) : other_hash(k, seed, p, n); }
inline u64 ref_h48(u64 seed, void const* p, std::size_t n) { return (ref_hash(seed, p, n) >> 16) & 0xffffffffffffull; }
inline u64 ref_pepper(u64 salt) { u8 b[8]; for(int i = 0; i < 8; ++i) b[i] = u8(salt >> (8 * i)); return ref_hash(salt, b, 8); }

inline u64 be(u8 const* p, int n) { u64 v = 0; for(int i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }
inline void put_be(bytes& b, u64 v, int n) { for(int i = n - 1; i >= 0; --i) b.push_back(u8(v >> (8 * i))); }
inline void set_be(u8* p, u64 v, int n) { for(int i = n - 1; i >= 0; --i) { p[i] = u8(v); v >>= 8; } }

static const u64 DAT_HDR = 92, KEY_HDR = 104, LOG_HDR = 62;
inline u64 ref_capacity(u64 bs) { return bs < KEY_HDR ? 0 : std::min<u64>((bs - 8) / 18, 65535); }
inline u64 ref_pow2(u64 n) { u64 m = 1; while(m < n) m *= 2; return m; }
inline u64 ref_index(u64 h, u64 buckets, u64 modulus) { u64 n = h % modulus; return n >= buckets ? n - modulus / 2 : n; }

struct Entry { u64 off, size, hash; };
struct Bkt { u64 count = 0, spill = 0; std::vector<Entry> e; };
inline Bkt ref_bucket(u8 const* p, u64 max_entries) {
    Bkt b; b.count = be(p, 2); b.spill = be(p + 2, 6);
    for(u64 i = 0; i < b.count && i < max_entries; ++i) b.e.push_back({be(p + 8 + 18 * i, 6), be(p + 14 + 18 * i, 6), be(p + 20 + 18 * i, 6)});
    return b;
}
inline bytes ref_bucket_bytes(Bkt const& b) {
    bytes o; put_be(o, b.e.size(), 2); put_be(o, b.spill, 6);
    for(auto& e : b.e) { put_be(o, e.off, 6); put_be(o, e.size, 6); put_be(o, e.hash, 6); }
    return o;
}

struct Rec { u64 off; u64 size; std::string key; u64 h; };
struct Spl { u64 rec_off; u64 bucket_off; u64 size; };
struct Hdr { std::string type; u64 version = 0, uid = 0, appnum = 0, key_size = 0, salt = 0, pepper = 0, block_size = 0, load_factor = 0, kfs = 0, dfs = 0; };

struct Db {
    Hdr d, k;
    u64 dat_size = 0, key_size_bytes = 0;
    u64 capacity = 0, buckets = 0, modulus = 0;
    std::vector<Rec> recs;                  // in file order
    std::map<u64, Spl> spills;              // by bucket offset
    std::unordered_map<std::string, std::size_t> by_key;   // key -> rec (first)
    std::vector<std::string> err;
    bool dat_ok = false;
    // statistics
    u64 key_count = 0, value_bytes = 0, spill_live = 0, spill_live_bytes = 0, spill_tot_bytes = 0, max_chain = 0;
    std::vector<u64> chain;                 // spills per bucket
    sim::Blob dat;

    void e(std::string s) { if(err.size() < 20) err.push_back(std::move(s)); }
    std::string first() const { return err.empty() ? "" : err[0]; }
    bool valid() const { return err.empty(); }
    bytes value(Rec const& r) const { return dat.get(r.off + 6 + d.key_size, r.size); }

    void parse_dat(sim::Blob const& b) {
        dat = b; dat_size = b.size();
        if(dat_size < DAT_HDR) { e("data file shorter than its header"); return; }
        bytes h = b.get(0, DAT_HDR);
        d.type.assign((char*)&h[0], 8); d.version = be(&h[8], 2); d.uid = be(&h[10], 8); d.appnum = be(&h[18], 8); d.key_size = be(&h[26], 2);
        if(d.type != "nudb.dat") { e("bad data file type"); return; }
        if(d.version != 2) { e("bad data file version"); return; }
        if(d.key_size < 1) { e("data file key size 0"); return; }
        for(u64 i = 28; i < DAT_HDR; ++i) if(h[i]) { e("data header reserved bytes not zero"); break; }
        u64 p = DAT_HDR; u8 t[8]; dat_ok = true;
        while(p < dat_size) {
            if(dat_size - p < 6) { e(fmt("data file ends inside a size field at %llu", (unsigned long long)p)); dat_ok = false; return; }
            b.read(p, t, 6); u64 sz = be(t, 6);
            if(sz) {
                if(dat_size - p < 6 + d.key_size || dat_size - p - 6 - d.key_size < sz) { e(fmt("data record at %llu truncated", (unsigned long long)p)); dat_ok = false; return; }
                Rec r{p, sz, std::string(d.key_size, 0), 0};
                b.read(p + 6, &r.key[0], d.key_size);
                by_key.emplace(r.key, recs.size());
                recs.push_back(std::move(r));
                value_bytes += sz;
                p += 6 + d.key_size + sz;
            } else {
                if(dat_size - p < 8) { e("spill record header truncated"); dat_ok = false; return; }
                b.read(p + 6, t, 2); u64 n = be(t, 2);
                if(dat_size - p - 8 < n) { e(fmt("spill record at %llu truncated", (unsigned long long)p)); dat_ok = false; return; }
                spills[p + 8] = Spl{p, p + 8, n};
                spill_tot_bytes += 8 + n;
                p += 8 + n;
            }
        }
        if(by_key.size() != recs.size()) e("two data records with the same key");
    }
    void parse_key_header(sim::Blob const& b) {
        key_size_bytes = b.size();
        if(b.size() < KEY_HDR) { e("key file shorter than its header"); return; }
        bytes h = b.get(0, KEY_HDR);
        k.type.assign((char*)&h[0], 8); k.version = be(&h[8], 2); k.uid = be(&h[10], 8); k.appnum = be(&h[18], 8); k.key_size = be(&h[26], 2);
        k.salt = be(&h[28], 8); k.pepper = be(&h[36], 8); k.block_size = be(&h[44], 2); k.load_factor = be(&h[46], 2);
        if(k.type != "nudb.key") { e("bad key file type"); return; }
        if(k.version != 2) { e("bad key file version"); return; }
        if(k.uid != d.uid) e("uid mismatch");
        if(k.appnum != d.appnum) e("appnum mismatch");
        if(k.key_size != d.key_size) e("key size mismatch");
        if(k.pepper != ref_pepper(k.salt)) e("pepper does not match salt");
        if(k.load_factor < 1) e("zero load factor");
        capacity = ref_capacity(k.block_size);
        if(capacity < 1) { e("block size without capacity"); return; }
        bytes all = b.get(KEY_HDR, std::min<u64>(k.block_size, b.size()) - KEY_HDR); for(auto c : {0}) (void)c;
        for(u64 i = 48; i < KEY_HDR; ++i) if(h[i]) { e("key header reserved bytes not zero"); break; }
        for(auto c : all) if(c) { e("key header padding not zero"); break; }
        if(b.size() % k.block_size) e("key file size is not a multiple of the block size");
        buckets = b.size() / k.block_size; if(buckets) --buckets;
        if(buckets < 1) { e("no buckets"); return; }
        modulus = ref_pow2(buckets);
    }
    // full structural validation
    void parse_key(sim::Blob const& b) {
        parse_key_header(b);
        if(!buckets || !dat_ok || !capacity) return;
        for(auto& r : recs) r.h = ref_h48(k.salt, r.key.data(), r.key.size());
        std::unordered_map<u64, std::size_t> at; at.reserve(recs.size() * 2);
        for(std::size_t i = 0; i < recs.size(); ++i) at[recs[i].off] = i;
        std::vector<u8> refd(recs.size(), 0);
        std::set<u64> live;
        u64 const bsz = 8 + 18 * capacity;
        chain.assign(buckets, 0);
        for(u64 n = 0; n < buckets; ++n) {
            if(b.hole((n + 1) * k.block_size, k.block_size)) continue;      // an empty bucket
            bytes raw = b.get((n + 1) * k.block_size, k.block_size);
            u64 where = 0;
            for(;;) {
                u64 cnt = be(&raw[0], 2);
                if(cnt > capacity) { e(fmt("bucket %llu count %llu exceeds capacity", (unsigned long long)n, (unsigned long long)cnt)); break; }
                Bkt bk = ref_bucket(raw.data(), capacity);
                if(!where) { for(u64 i = 8 + 18 * cnt; i < raw.size(); ++i) if(raw[i]) { e(fmt("bucket %llu padding not zero", (unsigned long long)n)); break; } }
                key_count += cnt;
                for(u64 i = 0; i < cnt; ++i) {
                    auto& x = bk.e[i];
                    if(i && bk.e[i - 1].hash > x.hash) e(fmt("bucket %llu not sorted", (unsigned long long)n));
                    auto it = at.find(x.off);
                    if(it == at.end()) { e(fmt("bucket %llu entry %llu points to %llu, not a data record", (unsigned long long)n, (unsigned long long)i, (unsigned long long)x.off)); continue; }
                    Rec& r = recs[it->second];
                    if(r.size != x.size) e(fmt("bucket %llu entry size %llu, record has %llu", (unsigned long long)n, (unsigned long long)x.size, (unsigned long long)r.size));
                    if(r.h != x.hash) e(fmt("bucket %llu entry hash differs from key hash", (unsigned long long)n));
                    if(ref_index(r.h, buckets, modulus) != n) e(fmt("key of record %llu is in bucket %llu, belongs in %llu", (unsigned long long)r.off, (unsigned long long)n, (unsigned long long)ref_index(r.h, buckets, modulus)));
                    if(refd[it->second]++) e(fmt("record %llu indexed twice", (unsigned long long)r.off));
                }
                if(!bk.spill) break;
                auto sp = spills.find(bk.spill);
                if(sp == spills.end()) { e(fmt("bucket %llu spill pointer %llu is not a spill record", (unsigned long long)n, (unsigned long long)bk.spill)); break; }
                if(!live.insert(bk.spill).second) { e(fmt("spill record %llu used twice", (unsigned long long)bk.spill)); break; }
                if(sp->second.size != bsz) { e(fmt("spill record size %llu, bucket size is %llu", (unsigned long long)sp->second.size, (unsigned long long)bsz)); break; }
                ++spill_live; spill_live_bytes += 8 + sp->second.size; ++chain[n];
                where = bk.spill; raw = dat.get(where, bsz);
            }
            if(chain[n] > max_chain) max_chain = chain[n];
        }
        for(std::size_t i = 0; i < recs.size(); ++i) if(!refd[i]) e(fmt("record %llu (key %s) is not in the index", (unsigned long long)recs[i].off, hex(recs[i].key.data(), recs[i].key.size()).c_str()));
    }
    static Db parse(sim::Blob const& dat, sim::Blob const& key) {
        Db x; x.parse_dat(dat); x.parse_key(key); return x;
    }
    static Db parse_dat_only(sim::Blob const& dat) { Db x; x.parse_dat(dat); return x; }
};

// Number of data-file reads a fetch of this key may need: spill buckets and candidate records
struct Cost { u64 spills = 0, cands = 0; };
inline Cost fetch_cost(Db const& db, sim::Blob const& key, std::string const& kk) {
    Cost c; u64 h = ref_h48(db.k.salt, kk.data(), kk.size());
    u64 n = ref_index(h, db.buckets, db.modulus);
    bytes raw = key.get((n + 1) * db.k.block_size, db.k.block_size);
    for(;;) {
        Bkt b = ref_bucket(raw.data(), db.capacity);
        for(auto& e : b.e) if(e.hash == h) ++c.cands;
        if(!b.spill) break;
        ++c.spills; raw = db.dat.get(b.spill, 8 + 18 * db.capacity);
    }
    return c;
}

// Independent writer: builds the two files from records, in linear hashing
// layout with the given number of buckets. Buckets overflow into spill records.
struct Spec { u64 uid, appnum, key_size, salt, block_size, load_factor; u64 buckets; };
// giants: records whose value is that many zeros
inline void ref_write(Spec const& s, std::vector<std::pair<std::string, bytes>> const& recs, sim::Blob& dat, sim::Blob& key, Rng& r, bool interleave, std::map<std::size_t, u64> const& giants = {}) {
    bytes h;
    auto str = [&](char const* t) { h.insert(h.end(), t, t + 8); };
    str("nudb.dat"); put_be(h, 2, 2); put_be(h, s.uid, 8); put_be(h, s.appnum, 8); put_be(h, s.key_size, 2); h.resize(DAT_HDR);
    dat = sim::Blob{}; dat.write(0, h.data(), h.size());
    u64 cap = ref_capacity(s.block_size), mod = ref_pow2(s.buckets);
    std::vector<Bkt> bk(s.buckets);
    auto spill = [&](Bkt& b) {
        bytes o; put_be(o, 0, 6); bytes body = ref_bucket_bytes(b); put_be(o, body.size(), 2);
        u64 at = dat.size(); o.insert(o.end(), body.begin(), body.end()); dat.write(at, o.data(), o.size());
        b = Bkt{}; b.spill = at + 8;
    };
    auto ins = [&](Bkt& b, Entry x) {
        if(b.e.size() == cap) spill(b);
        auto it = b.e.begin(); while(it != b.e.end() && it->hash < x.hash) ++it;
        b.e.insert(it, x);
    };
    std::vector<Entry> later;
    for(std::size_t j = 0; j < recs.size(); ++j) {
        auto& kv = recs[j]; auto gi = giants.find(j); u64 const size = gi == giants.end() ? kv.second.size() : gi->second;
        bytes o; put_be(o, size, 6); o.insert(o.end(), kv.first.begin(), kv.first.end()); o.insert(o.end(), kv.second.begin(), kv.second.end());
        Entry x{dat.size(), size, ref_h48(s.salt, kv.first.data(), kv.first.size())};
        dat.write(x.off, o.data(), o.size());
        if(gi != giants.end()) dat.trunc(x.off + 6 + s.key_size + size);
        if(interleave && r.chance(3, 4)) ins(bk[ref_index(x.hash, s.buckets, mod)], x); else later.push_back(x);
    }
    for(auto& x : later) ins(bk[ref_index(x.hash, s.buckets, mod)], x);
    h.clear(); str("nudb.key"); put_be(h, 2, 2); put_be(h, s.uid, 8); put_be(h, s.appnum, 8); put_be(h, s.key_size, 2);
    put_be(h, s.salt, 8); put_be(h, ref_pepper(s.salt), 8); put_be(h, s.block_size, 2); put_be(h, s.load_factor, 2); h.resize(s.block_size);
    key = sim::Blob{}; key.write(0, h.data(), h.size());
    key.trunc((s.buckets + 1) * s.block_size);
    for(u64 n = 0; n < s.buckets; ++n) { if(bk[n].e.empty() && !bk[n].spill) continue; bytes b = ref_bucket_bytes(bk[n]); b.resize(s.block_size); key.write((n + 1) * s.block_size, b.data(), b.size()); }
}

// Parsed log file
struct Log { bool header = false; Hdr h; std::map<u64, bytes> rec; bool complete = true; std::string err; };
inline Log ref_log(sim::Blob const& b) {
    Log l; if(b.size() < LOG_HDR) return l;
    bytes h = b.get(0, LOG_HDR);
    l.h.type.assign((char*)&h[0], 8); l.h.version = be(&h[8], 2); l.h.uid = be(&h[10], 8); l.h.appnum = be(&h[18], 8); l.h.key_size = be(&h[26], 2);
    l.h.salt = be(&h[28], 8); l.h.pepper = be(&h[36], 8); l.h.block_size = be(&h[44], 2); l.h.kfs = be(&h[46], 8); l.h.dfs = be(&h[54], 8);
    l.header = true;
    u64 p = LOG_HDR, cap = ref_capacity(l.h.block_size);
    while(p < b.size()) {
        if(b.size() - p < 16) { l.complete = false; break; }
        bytes x = b.get(p, 16); u64 idx = be(&x[0], 8), cnt = be(&x[8], 2);
        if(cnt > cap) { l.err = "log record count exceeds capacity"; break; }
        if(b.size() - p - 8 < 8 + 18 * cnt) { l.complete = false; break; }
        l.rec[idx] = b.get(p + 8, 8 + 18 * cnt);
        p += 16 + 18 * cnt;
    }
    return l;
}

} // vf
