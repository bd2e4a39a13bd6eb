// C15 create, C16 open, C26 file discipline.
#include "dbgen.hpp"
#include <dirent.h>
using namespace vf;

static sim::Image with(sim::Image im, std::string const& p, std::string const& text) { im[p] = sim::Blob{}; im[p].write(0, text.data(), text.size()); return im; }
static std::string diff_images(sim::Image const& a, sim::Image const& b) {
    for(auto& e : a) { auto it = b.find(e.first); if(it == b.end()) return e.first + " is gone"; if(it->second != e.second) return e.first + " was changed"; }
    for(auto& e : b) if(!a.count(e.first)) return e.first + " appeared";
    return "";
}
static std::map<std::string, std::string> list_dir(std::string const& d) {
    std::map<std::string, std::string> m; DIR* p = opendir(d.c_str()); if(!p) return m;
    while(auto e = readdir(p)) { std::string n = e->d_name; if(n == "." || n == "..") continue; sim::Blob b; get_file(d + n, b); bytes v = b.all(); m[n] = std::string(v.begin(), v.end()); }
    closedir(p); return m;
}

struct Params { u64 appnum, uid, salt, key_size, block_size; float lf; int kind; bool with_uid; };
static bool usable(Params const& p) {
    if(p.key_size < 1 || p.key_size > 65535) return false;
    if(ref_capacity(p.block_size) < 1 || p.block_size > 65535) return false;
    return p.lf > 0 && p.lf < 1 && (u64)(65536.0f * p.lf) >= 1;
}
static Params gen_params(Rng& r) {
    Params p; Cfg c = gen_cfg(r);
    p.appnum = c.appnum; p.uid = c.uid; p.salt = c.salt; p.key_size = c.key_size; p.block_size = c.block_size; p.lf = c.lf; p.kind = c.kind;
    p.with_uid = !r.chance(1, 4);
    if(r.chance(1, 3)) switch(r.below(4)) {
    case 0: p.key_size = r.pick<u64>({0, 65535, 65536, 65537, 131072, 1ull << 32, (1ull << 32) + 8, ~0ull}); break;
    case 1: p.block_size = r.pick<u64>({0, 1, 8, 25, 26, 64, 92, 103, 104, 105, 65534, 65535, 65536, 65600, 1 << 20, 1ull << 32, ~0ull}); break;
    case 2: p.lf = r.pick({0.f, -0.f, -1.f, 1.f, 1.0001f, 2.f, 1e-7f, 1.5e-5f, 1.f / 65536, std::nextafter(1.f / 65536, 0.f), 1.6e-5f, 0.00002f, 0.99999994f, 1e30f, (float)INFINITY, -(float)INFINITY, (float)NAN}); break;
    default: p.key_size = r.pick<u64>({1, 2, 65535}); p.block_size = r.pick<u64>({104, 65535}); p.lf = r.pick({0.00002f, 0.99999994f}); break;
    }
    return p;
}
template<class File> struct Mk;
template<> struct Mk<sim::file> { static void go(Params const& p, std::string const& d, std::string const& k, std::string const& l, error_code& ec) {
    if(p.with_uid) nudb::create<vhasher, sim::file>(d, k, l, p.appnum, p.uid, p.salt, p.key_size, p.block_size, p.lf, ec, sim::Tok{sim::g()});
    else nudb::create<vhasher, sim::file>(d, k, l, p.appnum, p.salt, p.key_size, p.block_size, p.lf, ec, sim::Tok{sim::g()});
} };
template<> struct Mk<nudb::native_file> { static void go(Params const& p, std::string const& d, std::string const& k, std::string const& l, error_code& ec) {
    if(p.with_uid) nudb::create<vhasher>(d, k, l, p.appnum, p.uid, p.salt, p.key_size, p.block_size, p.lf, ec);
    else nudb::create<vhasher>(d, k, l, p.appnum, p.salt, p.key_size, p.block_size, p.lf, ec);
} };
static std::string pstr(Params const& p) { return fmt("key_size=%llu block_size=%llu load_factor=%.9g hash=%d%s", (unsigned long long)p.key_size, (unsigned long long)p.block_size, p.lf, p.kind, p.with_uid ? "" : " (own uid)"); }

static void check_created(Params const& p, sim::Blob const& dat, sim::Blob const& key, sim::Blob const& log, u64& uid) {
    Db db = Db::parse(dat, key);
    CHECK(db.valid(), "created database is not valid: %s (%s)", db.first().c_str(), pstr(p).c_str());
    CHECK(db.recs.empty() && db.spills.empty() && db.buckets == 1 && dat.size() == DAT_HDR && key.size() == 2 * p.block_size, "created database is not empty (%s)", pstr(p).c_str());
    CHECK(log.size() == 0, "created log file is not empty");
    if(p.with_uid) CHECK(db.d.uid == p.uid, "uid is %llx, asked for %llx", (unsigned long long)db.d.uid, (unsigned long long)p.uid);
    CHECK(db.d.appnum == p.appnum && db.d.key_size == p.key_size && db.k.salt == p.salt && db.k.block_size == p.block_size, "created with other parameters (%s)", pstr(p).c_str());
    CHECK(db.k.load_factor == std::min<u64>((u64)(65536.0f * p.lf), 65535), "load factor %llu stored for %g", (unsigned long long)db.k.load_factor, p.lf);
    uid = db.d.uid;
}
template<class File>
static void use_it(Params const& p, std::string const& d, std::string const& k, std::string const& l, Rng& r, bool already) {
    Cfg c; c.key_size = p.key_size; c.block_size = p.block_size; c.lf = p.lf; c.kind = p.kind; c.kseed = r.next(); c.keymode = (int)r.below(4);
    Session<File> s(c, ""); s.dp = d; s.kp = k; s.lp = l; (void)already;
    s.open();
    CHECK(s.s->appnum() == p.appnum && s.s->key_size() == p.key_size && s.s->block_size() == p.block_size && s.s->dat_path() == d && s.s->key_path() == k && s.s->log_path() == l, "opened store reports other parameters");
    u64 n = std::min<u64>(s.max_keys(40), 60000000 / (p.key_size + 100)); if(p.block_size > 20000) n = std::min<u64>(n, 10);
    for(u64 i = 0; i < n; ++i) { s.insert(i, 0); if(r.chance(1, 15)) s.flush(); }
    s.fetch_all(); s.fetch(n); s.close(); s.open(); s.fetch_all(); s.fetch(n + 1); s.close();
}

static void create_case(u64 seed, u64 idx) {
    Rng r(seed); Params p = gen_params(r); hash_kind() = p.kind;
    bool native = r.chance(1, 8), pre = r.chance(1, 3), faulty = !native && r.chance(1, 2), ok_params = usable(p);
    current().set(fmt("case=%llu ", (unsigned long long)idx) + pstr(p));
    stats().eval(); stats().add(ok_params ? "usable_parameters" : "unusable_parameters");
    // paths that exist for the real file system too: they must not be touched through the simulated one
    std::string dir = scratch_dir(), D = dir + "c.dat", K = dir + "c.key", L = dir + "c.log";
    if(r.chance(1, 20)) { if(r.chance(1, 2)) K = D; else L = r.chance(1, 2) ? D : K; }
    bool distinct = D != K && K != L && D != L;
    sim::Image before = with({}, dir + "other", "bystander");
    unsigned which = pre ? (unsigned)r.range(1, 7) : 0;
    if(which & 1) before = with(before, D, r.chance(1, 2) ? "" : "existing data");
    if(which & 2) before = with(before, K, r.chance(1, 2) ? "" : "existing key");
    if(which & 4) before = with(before, L, r.chance(1, 2) ? "" : "existing log");
    if(native) {
        for(auto& e : list_dir(dir)) rm_file(dir + e.first);
        for(auto& e : before) put_file(e.first, e.second);
        error_code ec; Mk<nudb::native_file>::go(p, D, K, L, ec);
        bool expect = ok_params && !which && distinct;
        CHECK(!ec == expect, "create (native) %s: %s, expected %s (existing files %u)", pstr(p).c_str(), ec.message().c_str(), expect ? "success" : "failure", which);
        sim::Image after; for(auto& e : list_dir(dir)) { after[dir + e.first] = sim::Blob{}; after[dir + e.first].write(0, e.second.data(), e.second.size()); }
        stats().add("native");
        if(ec) { auto s = diff_images(before, after); CHECK(s.empty(), "failed create: %s", s.c_str()); }
        else {
            u64 uid; check_created(p, after[D], after[K], after[L], uid); after.erase(D); after.erase(K); after.erase(L);
            auto s = diff_images(before, after); CHECK(s.empty(), "create: %s", s.c_str());
            use_it<nudb::native_file>(p, D, K, L, r, true);
        }
        for(auto& e : list_dir(dir)) rm_file(dir + e.first);
        stats().nontrivial(mix2(fnvs(pstr(p)), which)); return;
    }
    for(auto& e : list_dir(dir)) rm_file(dir + e.first);
    for(auto t : {"c.dat", "c.key", "c.log"}) put_file(dir + t, with({}, "x", "decoy")["x"]);
    sim::Fs fs(before); sim::Use u(fs); fs.recording = true;
    u64 at = faulty ? r.below(14) : ~0ull, seen = 0; int kind = (int)r.below(3); bool fired = false, erase_failed = false; error_code inj;
    fs.inject = [&](sim::Op const& o) { sim::Fault f; if(o.k == sim::K::erase && 0) erase_failed = true;
        if(seen++ == at && o.k != sim::K::erase) { fired = true; f.fail = true; f.ec = inj = sim::posix_err(r.pick({EIO, ENOSPC, EACCES, EINTR})); f.after = kind == 2 && o.k != sim::K::create; f.partial = kind == 1 ? r.below(o.len + 1) : 0; stats().add(fmt("fault_%s", sim::kname(o.k))); }
        return f; };
    error_code ec; Mk<sim::file>::go(p, D, K, L, ec);
    fs.inject = nullptr;
    bool expect = ok_params && !which && distinct && !fired;
    CHECK(!ec == expect, "create %s: '%s', expected %s (existing files %u, fault %d)", pstr(p).c_str(), ec.message().c_str(), expect ? "success" : "failure", which, (int)fired);
    if(fired) CHECK(ec == inj, "create: an operation failed with '%s', reported '%s'", inj.message().c_str(), ec.message().c_str());
    CHECK(fs.handles == 0, "create left %llu files open", (unsigned long long)fs.handles.load());
    CHECK(fs.untokened == 0, "create built a file without the caller's arguments");
    for(auto t : {"c.dat", "c.key", "c.log"}) { auto m = list_dir(dir); CHECK(m.size() == 3 && m[t] == "decoy", "create through a given file type touched the native file %s", t); }
    sim::Image after = fs.image();
    if(ec) {
        auto s = diff_images(before, after); CHECK(s.empty(), "failed create (%s): %s", ec.message().c_str(), s.c_str());
        stats().add(fired ? "failed_by_fault" : which ? "failed_by_existing" : !distinct ? "failed_by_equal_paths" : "refused");
        // and it can be repeated elsewhere, or here once the obstacle is gone
        if(ok_params && distinct) { fs.load({}); ec = {}; Mk<sim::file>::go(p, D, K, L, ec); CHECK(!ec, "create after a failed create: %s", ec.message().c_str()); u64 uid; auto im = fs.image(); check_created(p, im[D], im[K], im[L], uid); }
    } else {
        u64 uid = 0, uid2 = 0; check_created(p, after[D], after[K], after[L], uid);
        // durable at return
        sim::Durable du(before); for(auto& o : fs.log) du.on(o);
        sim::Image lost = du.lose(r, {K}, 1); check_created(p, lost[D], lost[K], lost[L], uid2);
        auto rest = after; for(auto& x : {D, K, L}) rest.erase(x); auto s = diff_images(before, rest); CHECK(s.empty(), "create: %s", s.c_str());
        // creating again refuses and changes nothing
        ec = {}; Mk<sim::file>::go(p, D, K, L, ec); CHECK(ec, "create over an existing database succeeded"); s = diff_images(after, fs.image()); CHECK(s.empty(), "create over an existing database: %s", s.c_str());
        fs.recording = false; use_it<sim::file>(p, D, K, L, r, true);
        if(!p.with_uid) stats().add("uid_made");
        stats().add("created");
    }
    for(auto& e : list_dir(dir)) rm_file(dir + e.first);
    stats().nontrivial(mix2(fnvs(pstr(p)), which * 1000 + (fired ? at * 3 + kind : 999)));
}

//------------------------------------------------------------------------------

static void open_case(u64 seed, u64 idx) {
    Rng r(seed); bool crash = r.chance(1, 3);
    Made a = make_db(r, 120, crash, 4096);
    if(a.c.key_size > 1000) return;
    sim::Image good = a.im; if(!crash) good.erase(LP);
    int good_kind = a.c.kind;
    sim::Image bad = good; std::string what; bool must_fail = true; int kind = good_kind;
    // A second database, equal but for one thing
    auto second = [&](int diff) {
        Cfg c = a.c; auto ne = [&](u64 v) { u64 x; do x = r.chance(1, 2) ? r.next() : v ^ (1ull << r.below(64)); while(x == v); return x; };
        if(diff == 0) c.uid = ne(c.uid); if(diff == 1) c.appnum = ne(c.appnum); if(diff == 2) c.key_size = c.key_size > 1 && r.chance(1, 2) ? c.key_size - 1 : c.key_size + 1;
        if(diff == 3) c.salt = ne(c.salt);
        sim::Fs fs; sim::Use u(fs); Session<sim::file> s(c, "v:/"); s.create(); s.open();
        u64 n = s.max_keys(1 + r.skew(30)); for(u64 i = 0; i < n; ++i) if(value_size(c, i, 0) < 100000) s.insert(i, 0);
        s.close(); sim::Image im = fs.image();
        // an interrupted rekey's log
        Db k; k.parse_dat(im[DP]); k.parse_key_header(im[KP]);
        bytes h; auto str = [&](char const* t) { h.insert(h.end(), t, t + 8); };
        bool rk = r.chance(1, 2);
        str("nudb.log"); put_be(h, 2, 2); put_be(h, c.uid, 8); put_be(h, c.appnum, 8); put_be(h, c.key_size, 2); put_be(h, k.k.salt, 8); put_be(h, ref_pepper(k.k.salt), 8); put_be(h, c.block_size, 2); put_be(h, rk ? 0 : im[KP].size(), 8); put_be(h, im[DP].size(), 8);
        im[LP] = sim::Blob{}; im[LP].write(0, h.data(), h.size());
        return im;
    };
    auto flip = [&](char const* p, u64 off, u64 len, std::string name) {
        u64 i = off + r.below(len); u8 v; bad[p].read(i, &v, 1); u8 w = (u8)(v ^ (1u << r.below(8))); if(r.chance(1, 3)) do w = (u8)r.next(); while(w == v);
        bad[p].write(i, &w, 1); what = name;
    };
    struct F { char const* n; u64 off, len; };
    switch(r.below(9)) {
    case 0: { int d = (int)r.below(3); auto b = second(d); what = fmt("key file of another database (%d)", d); bad[KP] = b[KP]; break; }
    case 1: { int d = (int)r.below(3); auto b = second(d); what = fmt("data file of another database (%d)", d); bad[DP] = b[DP]; break; }
    case 2: { F f = r.pick({F{"type", 0, 8}, F{"version", 8, 2}, F{"uid", 10, 8}, F{"appnum", 18, 8}, F{"key size", 26, 2}}); flip(DP, f.off, f.len, fmt("data %s", f.n)); break; }
    case 3: { F f = r.pick({F{"type", 0, 8}, F{"version", 8, 2}, F{"uid", 10, 8}, F{"appnum", 18, 8}, F{"key size", 26, 2}, F{"salt", 28, 8}, F{"pepper", 36, 8}});
              if(good_kind && f.off == 28) f = F{"pepper", 36, 8};        // only the real hash depends on every bit
              flip(KP, f.off, f.len, fmt("key %s", f.n)); break; }
    case 4: { if(good_kind == 0) kind = (int)r.range(1, n_hash_kinds - 1); else kind = 0; what = "other hash function"; break; }
    case 5: { int d = (int)r.below(4); auto b = second(d); what = fmt("log file of another database (%d)", d); if(d == 3) { u8 z[8] = {0}; if(b[LP].get(46, 8) == bytes(z, z + 8)) must_fail = false; }   // same data file: an interrupted rekey of it
              bad[LP] = b[LP]; break; }
    case 6: { if(!crash || !bad.count(LP) || bad[LP].size() < LOG_HDR) { bad = good; std::swap(bad[DP], bad[KP]); what = "data and key files exchanged"; break; }
              F f = r.pick({F{"type", 0, 8}, F{"version", 8, 2}, F{"uid", 10, 8}, F{"appnum", 18, 8}, F{"key size", 26, 2}, F{"salt", 28, 8}, F{"pepper", 36, 8}, F{"block size", 44, 2}});
              if(good_kind && f.off == 28) f.off = 36;
              flip(LP, f.off, f.len, fmt("log %s", f.n)); break; }
    case 7: { char const* p = r.pick({DP, KP}); u64 n = r.below(p == DP ? DAT_HDR : KEY_HDR + 1); bad[p].trunc(n); what = fmt("%s cut to %llu", p, (unsigned long long)n); break; }
    default: { char const* p = r.pick({DP, KP}); bad.erase(p); what = fmt("%s missing", p); break; }
    }
    current().set(fmt("case=%llu %s: ", (unsigned long long)idx, a.c.str().c_str()) + what);
    stats().eval(); stats().add("mismatch: " + what.substr(0, what.find_first_of("(0123456789")));
    sim::Fs fs(bad); sim::Use u(fs);
    nudb::context ctx; nudb::basic_store<vhasher, sim::file> s(ctx);
    hash_kind() = kind;
    error_code ec; s.open(DP, KP, LP, ec, sim::Tok{&fs});
    if(must_fail) CHECK(ec, "open succeeded with %s", what.c_str());
    if(ec) {
        CHECK(!s.is_open(), "store is open after a failed open (%s)", what.c_str());
        CHECK(fs.handles == 0, "failed open left files open");
        auto im = fs.image();
        if(must_fail && bad.count(DP)) { CHECK(im.count(DP), "failed open (%s) removed the data file", what.c_str()); CHECK(im[DP] == bad[DP], "failed open (%s, %s) changed the data file from %llu to %llu bytes", what.c_str(), ec.message().c_str(), (unsigned long long)bad[DP].size(), (unsigned long long)im[DP].size()); }
        if(must_fail) CHECK(!bad.count(KP) || im.count(KP) || bad[KP].size() <= KEY_HDR, "failed open (%s, %s) removed the key file", what.c_str(), ec.message().c_str());
        // a second failed open behaves the same
        error_code e2; s.open(DP, KP, LP, e2, sim::Tok{&fs}); CHECK(e2, "second open with %s succeeded", what.c_str());
        CHECK(!must_fail || !bad.count(DP) || fs.image()[DP] == bad[DP], "second failed open changed the data file");
    } else { error_code e; s.close(e); CHECK(!e, "close: %s", e.message().c_str()); stats().add("accepted"); }
    if(!must_fail) return;
    // with the right files and hash back in place the same store object opens; what the failed open left stays
    {
        auto im = fs.image(); sim::Image now = good;
        if(kind != good_kind || r.chance(1, 2)) { now = im; if(bad.count(DP) && bad[DP] == good[DP]) ; else now[DP] = good[DP]; now[KP] = good[KP]; now.erase(LP); if(good.count(LP)) now[LP] = good[LP]; }
        if(!crash && kind != good_kind) now = im;      // nothing may have to be restored
        fs.load(now);
    }
    hash_kind() = good_kind; ec = {};
    s.open(DP, KP, LP, ec, sim::Tok{&fs});
    CHECK(!ec, "open of the right files after a failed open (%s): %s", what.c_str(), ec.message().c_str());
    for(int k = 0; k < 3; ++k) {
        CHECK(s.is_open() && s.dat_path() == DP && s.key_path() == KP && s.log_path() == LP, "paths reported wrongly");
        CHECK(s.appnum() == a.c.appnum && s.key_size() == a.c.key_size && s.block_size() == a.c.block_size, "appnum, key size or block size reported wrongly");
        if(!crash || k) for(int j = 0; j < 5 && a.order.size(); ++j) {
            u64 i = crash ? a.order[0] : r.pick(a.order); KeyBuf kb(make_key(a.c, i)); bytes v; error_code e; s.fetch(kb, [&](void const* p, std::size_t n) { v.assign((u8 const*)p, (u8 const*)p + n); }, e);
            if(crash) { CHECK(!e || e == error::key_not_found, "fetch: %s", e.message().c_str()); if(e) continue; }
            else CHECK(!e, "fetch after a failed open (%s): %s", what.c_str(), e.message().c_str());
            CHECK(v == make_value(a.c, i, a.model[i]), "wrong value after a failed open");
        }
        if(a.c.key_space() == ~0ull) { s.set_burst(std::size_t(1) << 40); bytes v(5, 1); error_code e; s.insert(make_key(a.c, 1000000 + k).data(), v.data(), v.size(), e); CHECK(!e, "insert: %s", e.message().c_str()); }
        error_code e; s.close(e); CHECK(!e && !s.is_open(), "close: %s", e.message().c_str());
        if(k < 2) { s.open(DP, KP, LP, e, sim::Tok{&fs}); CHECK(!e, "reopen: %s", e.message().c_str()); }
    }
    { auto im = fs.image(); Db db = Db::parse(im[DP], im[KP]); CHECK(db.valid(), "database invalid after sessions: %s", db.first().c_str()); CHECK(db.d.uid == a.c.uid && db.d.appnum == a.c.appnum && db.d.key_size == a.c.key_size && db.k.salt == a.c.salt && db.k.block_size == a.c.block_size, "identity changed over sessions"); }
    stats().nontrivial(mix2(fnvs(what), fnvs(a.c.str())));
}

//------------------------------------------------------------------------------

static void files_case(u64 seed, u64 idx) {
    Rng r(seed); Cfg c = gen_cfg(r); if(c.key_size > 1000) c.key_size = 40; if(c.valmode == 4) c.valmode = 1; if(c.block_size > 2000) c.block_size = 300;
    if(c.kind == 1) c.kind = 0;
    bool native = r.chance(1, 3); hash_kind() = c.kind;
    current().set(fmt("case=%llu %s %s", (unsigned long long)idx, native ? "native" : "given file type", c.str().c_str()));
    stats().eval(); stats().add(native ? "native" : "given_type");
    std::string dir = scratch_dir(); for(auto& e : list_dir(dir)) rm_file(dir + e.first);
    std::string names[3] = {"db.dat", "db.key", "db.log"};
    if(r.chance(1, 3)) { names[0] = "x"; names[1] = "x.key"; names[2] = "x.dat"; }       // misleading names
    std::string D = dir + names[0], K = dir + names[1], L = dir + names[2];
    std::set<std::string> given = {D, K, L};
    std::vector<std::string> others; for(auto n : {"db.dat.tmp", "db.key~", "db", "db.dat.log", "nudb.dat", "x.tmp"}) others.push_back(dir + n);
    sim::Image by; for(auto& o : others) by = with(by, o, "bystander " + o);
    auto decoys = [&] { std::map<std::string, std::string> m; for(auto& n : names) m[n] = "decoy " + n; return m; };
    std::map<std::string, std::string> real;
    if(native) for(auto& e : by) put_file(e.first, e.second);
    else for(auto& e : decoys()) put_file(dir + e.first, with({}, "x", e.second)["x"]);
    real = list_dir(dir);
    sim::Fs fs(by); sim::Use u(fs);
    u64 steps = 0;
    auto state = [&](char const* when, int d, int k, int l, bool log_empty = false) {      // 1 exists, 0 not, -1 either
        ++steps; beat(); sim::Image im;
        if(native) { for(auto& e : list_dir(dir)) { im[dir + e.first] = sim::Blob{}; im[dir + e.first].write(0, e.second.data(), e.second.size()); } }
        else {
            im = fs.image();
            for(auto& p : fs.touched) CHECK(given.count(p), "%s: file %s was touched", when, p.c_str());
            CHECK(fs.untokened == 0, "%s: a file was constructed without the caller's arguments", when);
            auto now = list_dir(dir); CHECK(now == real, "%s: files were touched outside the given file type", when);
        }
        int want[3] = {d, k, l}; std::string p[3] = {D, K, L};
        for(int i = 0; i < 3; ++i) { bool e = im.count(p[i]) != 0; CHECK(want[i] < 0 || e == (want[i] != 0), "%s: file %s %s", when, p[i].c_str(), e ? "exists" : "does not exist"); if(i == 2 && e && log_empty) CHECK(im[L].size() == 0, "%s: log file is not empty", when); im.erase(p[i]); }
        auto s = diff_images(by, im); CHECK(s.empty(), "%s: %s", when, s.c_str());
        if(!native) for(auto& e : decoys()) CHECK(real[e.first] == e.second, "decoy");
    };
    auto run = [&](auto tag) {
        using File = decltype(tag);
        Session<File> s(c, ""); s.dp = D; s.kp = K; s.lp = L;
        if(!native && r.chance(1, 3)) {       // a failing create first
            u64 at = r.below(12), seen = 0; fs.inject = [&](sim::Op const& o) { sim::Fault f; if(seen++ == at && o.k != sim::K::erase) { f.fail = true; f.ec = sim::posix_err(EIO); } return f; };
            error_code ec; Args<File>::create(D, K, L, c, ec); fs.inject = nullptr;
            if(ec) { state("after a failed create", 0, 0, 0); CHECK(fs.handles == 0, "failed create left files open"); s.create(); }
        } else if(r.chance(1, 4)) {           // with a uid made by the library
            Params q{c.appnum, 0, c.salt, c.key_size, c.block_size, c.lf, c.kind, false}; error_code ec; Mk<File>::go(q, D, K, L, ec);
            CHECK(!ec, "create without uid: %s", ec.message().c_str()); stats().add("uid_made");
        } else s.create();
        state("after create", 1, 1, 1, true);
        u64 n = s.max_keys(400), i = 0;
        for(int round = 0; round < 6; ++round) {
            s.open(); state("while open", 1, 1, 1);
            for(u64 j = r.below(60); j-- && i < n; ++i) { s.insert(i, 0); if(r.chance(1, 15)) { s.flush(); state("while open, after a commit", 1, 1, 1); } }
            if(i) for(int j = 0; j < 10; ++j) s.fetch(r.below(i));
            s.close(); state("after close", 1, 1, 0);
            if(!native) CHECK(fs.handles == 0, "close left files open");
            error_code ec;
            switch(r.below(8)) {
            case 0: Args<File>::recover(D, K, L, ec); CHECK(!ec, "recover: %s", ec.message().c_str()); state("after recover", 1, 1, 0); break;
            case 1: {   // rekey
                if(native) rm_file(K); else fs.names.erase(K);
                Args<File>::rekey(D, K, L, c.block_size, c.lf, std::max<u64>(1, i), r.below(4000), ec, [](u64, u64) {});
                CHECK(!ec, "rekey: %s", ec.message().c_str()); state("after rekey", 1, 1, 0); stats().add("rekeys"); break; }
            case 2: {   // failed open: wrong hash
                if(c.kind) break;
                nudb::context ctx; nudb::basic_store<vhasher, File> t(ctx); hash_kind() = 1; Args<File>::open(t, D, K, L, ec); hash_kind() = c.kind;
                CHECK(ec, "open with another hash succeeded"); state("after a failed open", 1, 1, 0);
                // headers that do not match
                struct H { int f; u64 off, len; }; H h = r.pick({H{0, 10, 8}, H{0, 18, 8}, H{0, 26, 2}, H{0, 0, 10}, H{1, 10, 8}, H{1, 18, 8}, H{1, 26, 2}, H{1, 0, 10}, H{1, 28, 16}});
                std::string const& p = h.f ? K : D; sim::Blob b; if(native) HARNESS(get_file(p, b), "file"); else b = fs.image()[p];
                sim::Blob z = b; u64 at = h.off + r.below(h.len); u8 v; z.read(at, &v, 1); v ^= 1u << r.below(8); z.write(at, &v, 1);
                auto lay = [&](sim::Blob const& x) { if(native) put_file(p, x); else { auto im = fs.image(); im[p] = x; fs.load(im); } };
                lay(z); ec = {}; Args<File>::open(t, D, K, L, ec); CHECK(ec, "open with byte %llu of %s changed succeeded", (unsigned long long)at, p.c_str()); state("after a failed open", 1, 1, 0); lay(b); stats().add("mismatching_headers"); break; }
            case 3: {   // key file cut short: recover removes the incomplete index and the log
                sim::Blob kb; if(native) HARNESS(get_file(K, kb), "key"); else kb = fs.image()[K];
                sim::Blob cut = kb; cut.trunc(r.below(KEY_HDR + 1)); bool lg = r.chance(1, 2);
                if(native) { put_file(K, cut); if(lg) put_file(L, sim::Blob{}); } else { auto im = fs.image(); im[K] = cut; if(lg) im[L] = sim::Blob{}; fs.load(im); }
                Args<File>::recover(D, K, L, ec); CHECK(ec == error::no_key_file, "recover with an incomplete key file: %s", ec.message().c_str());
                state("after recovering an incomplete key file", 1, 0, 0);
                if(native) put_file(K, kb); else { auto im = fs.image(); im[K] = kb; fs.load(im); }
                stats().add("incomplete_key_file"); break; }
            case 4: {   // refused create, refused rekey
                Args<File>::create(D, K, L, c, ec); CHECK(ec, "create over a database"); state("after a refused create", 1, 1, 0);
                ec = {}; Args<File>::rekey(D, K, L, c.block_size, c.lf, 10, 1000, ec, [](u64, u64) {}); CHECK(ec, "rekey over a key file"); state("after a refused rekey", 1, 1, 0); break; }
            case 5: {   // open failing by fault, then recovery
                if(native) break;
                u64 at = r.below(12), seen = 0; bool fired = false, onlog = false; fs.inject = [&](sim::Op const& o) { sim::Fault f; if(seen++ == at) { fired = true; onlog = o.path == L; f.fail = true; f.ec = sim::posix_err(EIO); } return f; };
                nudb::context ctx; { nudb::basic_store<vhasher, File> t(ctx); Args<File>::open(t, D, K, L, ec); fs.inject = nullptr; CHECK(!ec == !fired, "open with a fault"); if(!ec) t.close(ec); }
                state("after an open with a fault", 1, 1, onlog ? -1 : 0); CHECK(fs.handles == 0, "failed open left files open");
                ec = {}; Args<File>::recover(D, K, L, ec); CHECK(!ec, "recover: %s", ec.message().c_str()); state("after recover", 1, 1, 0); stats().add("open_faults"); break; }
            default: {  // commit failing by fault
                if(native) break;
                s.open(); for(u64 j = 1 + r.below(20); j-- && i < n; ++i) s.insert(i, 0);
                if(s.s->is_open()) {
                    u64 at = r.below(20), seen = 0; bool fired = false; fs.inject = [&](sim::Op const& o) { sim::Fault f; if(seen++ == at && mutating(o.k)) { fired = true; f.fail = true; f.ec = sim::posix_err(EIO); } return f; };
                    s.ctx.flush(); error_code e; s.s->close(e); fs.inject = nullptr; s.s.reset();
                    CHECK(!!e == fired || !fired, "close: %s", e.message().c_str());
                    state("after a close with a fault", 1, 1, e ? -1 : 0); CHECK(fs.handles == 0, "destroyed store left files open");
                    Args<File>::recover(D, K, L, ec); CHECK(!ec, "recover: %s", ec.message().c_str()); state("after recover", 1, 1, 0); stats().add("commit_faults");
                    // what was in flight may be lost
                    auto im = fs.image(); Db db = Db::parse(im[D], im[K]); CHECK(db.valid(), "%s", db.first().c_str());
                    std::vector<u64> o2; for(auto k : s.order) if(db.by_key.count(make_key(c, k))) o2.push_back(k); else s.model.erase(k);
                    s.order = o2;
                }
                break; }
            }
            if(i == 0) i = 0;
        }
    };
    if(native) run(nudb::native_file{}); else run(sim::file{sim::Tok{&fs}});
    for(auto& e : list_dir(dir)) rm_file(dir + e.first);
    stats().add("states_checked", steps); stats().nontrivial(mix2(fnvs(c.str()), native));
}

int main(int argc, char** argv) {
    return run_main(argc, argv, [](u64 s, u64 i) { auto& m = opt().mode; if(m == "create") create_case(s, i); else if(m == "open") open_case(s, i); else files_case(s, i); });
}
