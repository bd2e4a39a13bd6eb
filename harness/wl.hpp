// Configurations, key/value generators and a checked session on a store.
#pragma once
#include "oracle.hpp"
#include <nudb/nudb.hpp>
#include <nudb/native_file.hpp>

namespace vf {
using nudb::error_code; using nudb::error;

struct Cfg {
    u64 key_size = 8, block_size = 4096; float lf = 0.5f; int kind = 0;
    u64 appnum = 1, uid = 2, salt = 3; int keymode = 0; int valmode = 0; u64 kseed = 0;
    std::string str() const { return fmt("ks=%llu bs=%llu lf=%g hash=%d keymode=%d valmode=%d", (unsigned long long)key_size, (unsigned long long)block_size, lf, kind, keymode, valmode); }
    u64 cap() const { return ref_capacity(block_size); }
    u64 key_space() const { return key_size >= 7 ? ~0ull : 1ull << (8 * key_size); }
};

inline Cfg gen_cfg(Rng& r, bool good_hash_only = false) {
    Cfg c;
    switch(r.below(8)) {
    case 0: c.key_size = r.range(1, 4); break;
    case 1: c.key_size = 32; break;
    case 2: c.key_size = r.range(1, 100); break;
    case 3: c.key_size = r.pick({7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 96, 97}); break;
    case 4: c.key_size = r.chance(1, 8) ? r.pick({1000, 4096, 20000, 65535}) : r.range(100, 600); break;
    default: c.key_size = r.pick({4, 8, 20, 32}); break;
    }
    switch(r.below(8)) {
    case 0: c.block_size = r.range(104, 140); break;      // 5..7 entries
    case 1: c.block_size = 104; break;
    case 2: c.block_size = r.range(104, 600); break;
    case 3: c.block_size = 256; break;
    case 4: c.block_size = r.chance(1, 4) ? r.pick({8192, 16384, 32768, 65535}) : 1024; break;
    case 5: c.block_size = 4096; break;
    default: c.block_size = r.pick({112, 128, 200, 512}); break;
    }
    c.lf = r.pick({0.5f, 0.5f, 0.5f, 0.1f, 0.25f, 0.75f, 0.9f, 0.99f, 0.01f});
    if(r.chance(1, 4)) c.lf = (float)(0.02 + 0.97 * r.unit());
    c.kind = good_hash_only || r.chance(3, 5) ? 0 : (int)r.range(1, n_hash_kinds - 1);
    c.appnum = r.chance(1, 2) ? r.next() : r.below(3); c.uid = r.next(); c.salt = r.chance(1, 8) ? 0 : r.next();
    c.keymode = (int)r.below(4); c.valmode = (int)r.below(6); c.kseed = r.next();
    return c;
}

// Key number i. Distinct i below the key space give distinct keys.
inline std::string make_key(Cfg const& c, u64 i) {
    std::string k(c.key_size, 0);
    if(c.key_size < 8) {
        u64 sp = c.key_space(); u64 v = c.keymode == 0 ? (i * 0x9E3779B1u + c.kseed) & (sp - 1) : i & (sp - 1);
        if(c.key_size == 7) v = i & ((1ull << 56) - 1);
        for(u64 b = 0; b < c.key_size; ++b) k[c.keymode == 2 ? c.key_size - 1 - b : b] = char(v >> (8 * b));
        return k;
    }
    switch(c.keymode) {
    case 0: { Rng r(mix2(c.kseed, i)); r.fill(&k[0], k.size()); std::memcpy(&k[0], &i, 8); u64 x = mix(i ^ c.kseed); std::memcpy(&k[0], &x, 8); break; }
    case 1: for(int b = 0; b < 8; ++b) k[c.key_size - 1 - b] = char(i >> (8 * b)); break;   // common prefix
    case 2: for(int b = 0; b < 8; ++b) k[b] = char(i >> (8 * b)); break;                     // common suffix
    default: std::fill(k.begin(), k.end(), '\xff'); for(int b = 0; b < 8; ++b) k[c.key_size / 2 - 4 + b] = char(i >> (8 * b)); break;
    }
    return k;
}
inline u64 value_size(Cfg const& c, u64 i, u64 attempt) {
    Rng r(mix2(mix2(c.kseed + 77, i), attempt));
    switch(c.valmode) {
    case 0: return r.range(1, 16);
    case 1: return r.range(1, 300);
    case 2: return r.chance(1, 30) ? r.range(1, 40000) : r.range(1, 64);
    case 3: return r.chance(1, 60) ? 131072 - 200 + r.below(400) : r.range(1, 100);   // around the write buffer
    case 4: return r.chance(1, 200) ? r.range(1, 3000000) : 1 + r.skew(5000);
    case 6: return r.chance(1, 15) ? (r.chance(1, 2) ? 4194304 - 300 + r.below(600) : r.range(4000000, 9500000)) : r.chance(1, 4) ? r.range(1, 1500000) : r.range(1, 60);   // around the buffer of sequential readers
    default: return 1 + r.skew(4096);
    }
}
inline bytes make_value(Cfg const& c, u64 i, u64 attempt) {
    bytes v(value_size(c, i, attempt)); Rng r(mix2(mix2(c.kseed + 78, i), attempt)); r.fill(v.data(), v.size());
    if(r.chance(1, 8)) std::fill(v.begin(), v.end(), 0);
    return v;
}

template<class File> struct Args;
template<> struct Args<sim::file> {
    template<class S> static void open(S& s, std::string const& d, std::string const& k, std::string const& l, error_code& ec) { s.open(d, k, l, ec, sim::Tok{sim::g()}); }
    static void create(std::string const& d, std::string const& k, std::string const& l, Cfg const& c, error_code& ec) {
        nudb::create<vhasher, sim::file>(d, k, l, c.appnum, c.uid, c.salt, c.key_size, c.block_size, c.lf, ec, sim::Tok{sim::g()});
    }
    static void recover(std::string const& d, std::string const& k, std::string const& l, error_code& ec) { nudb::recover<vhasher, sim::file>(d, k, l, ec, sim::Tok{sim::g()}); }
    template<class P> static void rekey(std::string const& d, std::string const& k, std::string const& l, u64 bs, float lf, u64 items, u64 buf, error_code& ec, P&& p) {
        nudb::rekey<vhasher, sim::file>(d, k, l, bs, lf, items, buf, ec, p, sim::Tok{sim::g()});
    }
};
template<> struct Args<nudb::native_file> {
    template<class S> static void open(S& s, std::string const& d, std::string const& k, std::string const& l, error_code& ec) { s.open(d, k, l, ec); }
    static void create(std::string const& d, std::string const& k, std::string const& l, Cfg const& c, error_code& ec) {
        nudb::create<vhasher>(d, k, l, c.appnum, c.uid, c.salt, c.key_size, c.block_size, c.lf, ec);
    }
    static void recover(std::string const& d, std::string const& k, std::string const& l, error_code& ec) { nudb::recover<vhasher>(d, k, l, ec); }
    template<class P> static void rekey(std::string const& d, std::string const& k, std::string const& l, u64 bs, float lf, u64 items, u64 buf, error_code& ec, P&& p) {
        nudb::rekey<vhasher, nudb::native_file>(d, k, l, bs, lf, items, buf, ec, p);
    }
};

// A key buffer of exactly the key size, so that overreads are seen
struct KeyBuf {
    std::unique_ptr<char[]> p; 
    explicit KeyBuf(std::string const& k) : p(new char[k.size()]) { std::memcpy(p.get(), k.data(), k.size()); }
    operator void const*() const { return p.get(); }
};

template<class File>
struct Session {
    using store_t = nudb::basic_store<vhasher, File>;
    Cfg c;
    std::string dp, kp, lp;
    nudb::context ctx;
    std::unique_ptr<store_t> s;
    std::map<u64, u64> model;            // key number -> attempt whose value was stored
    std::vector<u64> order;              // keys in insertion order
    std::size_t committed = 0;           // prefix of order known to be committed
    u64 sessions = 0, commits = 0, nfetch = 0, ninsert = 0;
    bool big_burst = true;

    Session(Cfg const& cfg, std::string const& base) : c(cfg), dp(base + "db.dat"), kp(base + "db.key"), lp(base + "db.log") { if(hash_kind() != c.kind) hash_kind() = c.kind; }
    ~Session() { s.reset(); }

    void create() {
        error_code ec; Args<File>::create(dp, kp, lp, c, ec);
        CHECK(!ec, "create(%s) failed: %s", c.str().c_str(), ec.message().c_str());
    }
    void open() {
        s.reset(new store_t(ctx)); error_code ec; Args<File>::open(*s, dp, kp, lp, ec);
        CHECK(!ec, "open failed: %s", ec.message().c_str());
        CHECK(s->is_open(), "store not open after open");
        if(big_burst) s->set_burst(std::size_t(1) << 40);
        ++sessions;
    }
    void close() {
        error_code ec; s->close(ec);
        CHECK(!ec, "close failed: %s", ec.message().c_str());
        CHECK(!s->is_open(), "store open after close");
        committed = order.size();
    }
    void flush() { beat(); ctx.flush(); ++commits; committed = order.size(); }
    void insert(u64 i, u64 attempt) {
        beat();
        KeyBuf k(make_key(c, i)); bytes v = make_value(c, i, attempt);
        v.shrink_to_fit();
        error_code ec; s->insert(k, v.data(), v.size(), ec); ++ninsert;
        bool had = model.count(i) != 0;
        if(had) CHECK(ec == error::key_exists, "insert of existing key %llu: expected key_exists, got '%s'", (unsigned long long)i, ec.message().c_str());
        else {
            CHECK(!ec, "insert of new key %llu failed: %s", (unsigned long long)i, ec.message().c_str());
            model[i] = attempt; order.push_back(i);
        }
    }
    void fetch(u64 i) {
        beat();
        KeyBuf k(make_key(c, i)); error_code ec; int calls = 0; bytes got;
        s->fetch(k, [&](void const* p, std::size_t n) { ++calls; got.assign((u8 const*)p, (u8 const*)p + n); }, ec); ++nfetch;
        auto it = model.find(i);
        if(it == model.end()) {
            CHECK(ec == error::key_not_found, "fetch of absent key %llu: expected key_not_found, got '%s' (%d callbacks)", (unsigned long long)i, ec.message().c_str(), calls);
            CHECK(calls == 0, "callback for absent key");
        } else {
            CHECK(!ec, "fetch of present key %llu failed: %s", (unsigned long long)i, ec.message().c_str());
            CHECK(calls == 1, "fetch of key %llu called back %d times", (unsigned long long)i, calls);
            bytes want = make_value(c, i, it->second);
            CHECK(got == want, "fetch of key %llu: wrong value, %zu bytes %s, expected %zu bytes %s", (unsigned long long)i, got.size(), hex(got.data(), got.size()).c_str(), want.size(), hex(want.data(), want.size()).c_str());
        }
    }
    void fetch_all() { for(auto& e : model) fetch(e.first); }
    // number of keys that may be used (half of the space, so absent ones remain)
    u64 max_keys(u64 want) const { u64 sp = c.key_space(); return sp == ~0ull ? want : std::min(want, std::max<u64>(1, sp / 2)); }
};

// Compares the contents of a parsed database with the first n inserted keys of a model
inline std::string diff_prefix(Db const& db, Cfg const& c, std::vector<u64> const& order, std::map<u64, u64> const& model, std::size_t n) {
    if(db.by_key.size() != n) return fmt("database holds %zu keys, expected %zu", db.by_key.size(), n);
    for(std::size_t j = 0; j < n; ++j) {
        auto it = db.by_key.find(make_key(c, order[j]));
        if(it == db.by_key.end()) return fmt("key %llu missing", (unsigned long long)order[j]);
        Rec const& r = db.recs[it->second];
        bytes want = make_value(c, order[j], model.at(order[j]));
        if(r.size != want.size() || db.value(r) != want) return fmt("key %llu has a wrong value", (unsigned long long)order[j]);
    }
    return "";
}
inline void check_headers(Db const& db, Cfg const& c) {
    CHECK(db.d.uid == c.uid && db.d.appnum == c.appnum && db.d.key_size == c.key_size, "data file header does not carry the creation parameters");
    CHECK(db.k.uid == c.uid && db.k.appnum == c.appnum && db.k.key_size == c.key_size && db.k.salt == c.salt && db.k.block_size == c.block_size, "key file header does not carry the creation parameters");
    CHECK(db.k.load_factor == std::min<u64>((u64)(65536.0f * c.lf), 65535), "load factor in key file header");
}

inline std::string scratch_dir() {
    static std::string d;
    if(d.empty()) {
        std::string base = opt().scratch.empty() ? "/dev/shm" : opt().scratch;
        std::string t = base + "/nudbv.XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0);
        if(!mkdtemp(b.data())) throw HarnessError("mkdtemp failed in " + base);
        d = b.data();
        static struct Rm { ~Rm() { wipe(); } static void wipe() { if(!d.empty()) { std::string c = "rm -rf '" + d + "'"; if(system(c.c_str())) {} d.clear(); } } } rm;
    }
    return d + "/";
}
inline void put_file(std::string const& p, sim::Blob const& b) {
    int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); HARNESS(fd >= 0, "cannot write %s", p.c_str());
    auto put = [&](u64 at, bytes const& v) { std::size_t o = 0; while(o < v.size()) { ssize_t n = ::pwrite(fd, v.data() + o, v.size() - o, at + o); HARNESS(n > 0, "write %s", p.c_str()); o += n; } };
    if(b.size() < (64 << 20)) put(0, b.all());
    else { HARNESS(::ftruncate(fd, b.size()) == 0, "ftruncate %s", p.c_str()); for(u64 e : b.extents()) put(e, b.get(e, std::min<u64>(sim::Blob::chunk_size, b.size() - e))); }
    ::close(fd);
}
inline bool get_file(std::string const& p, sim::Blob& b) {
    int fd = ::open(p.c_str(), O_RDONLY); if(fd < 0) return false;
    struct stat st; fstat(fd, &st); b = sim::Blob{}; bytes v; u64 at = 0, size = st.st_size;
    while(at < size) {
        u64 end = size;
        if(size >= (64 << 20)) {      // only what is there of a sparse file
            off_t d = ::lseek(fd, at, SEEK_DATA); if(d < 0) break;
            off_t h = ::lseek(fd, d, SEEK_HOLE); at = d; end = h < 0 ? size : h;
        }
        end = std::min<u64>(end, at + (16 << 20)); v.resize(end - at); std::size_t o = 0;
        while(o < v.size()) { ssize_t n = ::pread(fd, v.data() + o, v.size() - o, at + o); if(n <= 0) break; o += n; }
        b.write(at, v.data(), o); if(o < v.size()) break;
        at = end;
    }
    if(b.size() < size && at >= (size >= (64 << 20) ? 0 : size)) b.trunc(size);
    ::close(fd); return true;
}
inline void rm_file(std::string const& p) { ::unlink(p.c_str()); }

} // vf
