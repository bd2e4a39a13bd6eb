// C23: the command line tool, driven as a process. Its output, exit status and
// the files it leaves are compared with an independent reading of the files
// and with the library functions run on copies.
#include "dbgen.hpp"
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <spawn.h>
using namespace vf;
using sim::Blob; using sim::Image;
extern char** environ;

struct Out { int rc = -1; int sig = 0; std::string out, err; bool ok() const { return sig == 0 && rc == 0; } bool failed() const { return sig == 0 && rc > 0 && rc < 64; } };
static std::string tool() { return opt().get("nudb_cli"); }
static std::string slurp(std::string const& p) { Blob b; if(!get_file(p, b)) return ""; bytes v = b.all(); return std::string(v.begin(), v.end()); }
static std::string line(std::vector<std::string> const& a) { std::string s = "nudb"; for(auto& x : a) s += " " + x; return s; }
// kill_us: send SIGKILL after that time; fsize: largest file the process may write
static Out run(std::vector<std::string> const& a, long kill_us = -1, long fsize = -1, bool die = false) {
    beat();
    HARNESS(!tool().empty(), "no --nudb_cli");
    std::string o = scratch_dir() + "../cli.out." + std::to_string(getpid()), e = o + "e";
    std::vector<char*> av; std::string t = tool(); av.push_back(&t[0]); std::vector<std::string> c = a; for(auto& x : c) av.push_back(&x[0]); av.push_back(nullptr);
    int fo = ::open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0600), fe = ::open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0600), fn = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
    HARNESS(fo >= 0 && fe >= 0 && fn >= 0, "cannot capture output");
    pid_t p = fork();
    if(p == 0) {
        dup2(fn, 0); dup2(fo, 1); dup2(fe, 2);
        if(fsize >= 0) { signal(SIGXFSZ, die ? SIG_DFL : SIG_IGN); struct rlimit l; l.rlim_cur = l.rlim_max = 0; setrlimit(RLIMIT_CORE, &l); l.rlim_cur = l.rlim_max = (rlim_t)fsize; setrlimit(RLIMIT_FSIZE, &l); }
        execv(t.c_str(), av.data()); _exit(126);
    }
    ::close(fo); ::close(fe); ::close(fn);
    HARNESS(p > 0, "fork");
    if(kill_us >= 0) { usleep((useconds_t)kill_us); kill(p, SIGKILL); }
    int st = 0; for(int n = 0;; ++n) { pid_t w = waitpid(p, &st, WNOHANG); if(w == p) break; if(n > 60000) { kill(p, SIGKILL); waitpid(p, &st, 0); violate("%s did not end within a minute", line(a).c_str()); } usleep(n < 2000 ? 200 : 1000); if(n % 100 == 0) beat(); }
    Out r; if(WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.rc = WEXITSTATUS(st);
    r.out = slurp(o); r.err = slurp(e); stats().add("invocations");
    CHECK(r.rc != 126, "cannot run the tool");
    if(kill_us < 0 && !die) CHECK(r.sig == 0 && r.rc < 64, "%s ended with %s %d: %s", line(a).c_str(), r.sig ? "signal" : "status", r.sig ? r.sig : r.rc, r.err.substr(0, 900).c_str());
    return r;
}
static std::string D() { return scratch_dir() + "c.dat"; }
static std::string Kf() { return scratch_dir() + "c.key"; }
static std::string L() { return scratch_dir() + "c.log"; }
static Image disk() { Image im; for(auto& p : {D(), Kf(), L()}) {
    struct stat st; if(stat(p.c_str(), &st)) continue;
    Blob b; if(st.st_size > (64 << 20)) b.trunc(st.st_size); else get_file(p, b);      // recover may extend a file to a size that a damaged log asks for
    im[p] = b; } return im; }
static void lay(Image const& im) { for(auto& p : {D(), Kf(), L()}) { auto i = im.find(p); rm_file(p); if(i != im.end()) put_file(p, i->second); } }
// the value printed after "name", commas removed; empty if there is none
static std::string field(std::string const& out, std::string const& name) {
    std::istringstream is(out); std::string l;
    while(std::getline(is, l)) { if(l.compare(0, name.size(), name) == 0 && l.size() > name.size() && (l[name.size()] == ':' || l[name.size()] == ' ')) { std::size_t i = name.size() + (l[name.size()] == ':'); while(i < l.size() && l[i] == ' ') ++i; return l.substr(i); } }
    return "";
}
static u64 num(std::string s) { s.erase(std::remove(s.begin(), s.end(), ','), s.end()); return strtoull(s.c_str(), nullptr, s.compare(0, 2, "0x") == 0 ? 16 : 10); }
static std::vector<u64> list(std::string const& s) { std::vector<u64> v; char const* p = s.c_str(); char* e; for(;;) { u64 x = strtoull(p, &e, 10); if(e == p) break; v.push_back(x); p = e; while(*p == ',' || *p == ' ') ++p; } return v; }
static void eq(Out const& o, char const* name, u64 want, std::string const& cmd) { auto f = field(o.out, name); CHECK(!f.empty(), "%s: no figure '%s' printed", cmd.c_str(), name); CHECK(num(f) == want, "%s: '%s' is printed as %s, the files have %llu", cmd.c_str(), name, f.c_str(), (unsigned long long)want); }
static void eqd(Out const& o, char const* name, double want, double tol, std::string const& cmd) { auto f = field(o.out, name); CHECK(!f.empty(), "%s: no figure '%s' printed", cmd.c_str(), name); double g = atof(f.c_str()); CHECK(std::fabs(g - want) <= tol + 1e-4 * std::fabs(want), "%s: '%s' is printed as %s, expected %g", cmd.c_str(), name, f.c_str(), want); }

// Arguments in any of their spellings: positional or named, long or short, any order
static std::vector<std::string> args(Rng& r, std::string const& cmd, std::vector<std::string> const& files, std::vector<std::pair<std::string, u64>> const& opts = {}) {
    static char const* const ln[] = {"dat", "key", "log"}; static char const sn[] = "dkl";
    std::vector<std::vector<std::string>> named; std::vector<std::string> pos{cmd}; u64 np = files.size();
    if(r.chance(1, 3)) np = r.below(files.size() + 1);
    for(u64 i = 0; i < files.size(); ++i) {
        if(i < np) { pos.push_back(files[i]); continue; }
        switch(r.below(4)) { case 0: named.push_back({std::string("--") + ln[i] + "=" + files[i]}); break; case 1: named.push_back({std::string("--") + ln[i], files[i]}); break; case 2: named.push_back({std::string("-") + sn[i], files[i]}); break; default: named.push_back({std::string("-") + sn[i] + files[i]}); }
    }
    for(auto& o : opts) { auto v = std::to_string(o.second); switch(r.below(4)) { case 0: named.push_back({"--" + o.first + "=" + v}); break; case 1: named.push_back({"--" + o.first, v}); break; case 2: named.push_back({std::string("-") + (o.first == "count" ? 'n' : 'b'), v}); break; default: named.push_back({std::string("-") + (o.first == "count" ? 'n' : 'b') + v}); } }
    std::vector<std::string> a; u64 pi = 0, ni = 0;
    while(pi < pos.size() || ni < named.size()) {
        if(ni < named.size() && (pi >= pos.size() || r.chance(1, 3))) { for(auto& x : named[ni]) a.push_back(x); ++ni; }
        else a.push_back(pos[pi++]);
    }
    return a;
}
static std::vector<std::string> args0(std::string const& cmd) { return {cmd}; }
static void untouched(Image const& before, std::string const& cmd) { Image a = disk(); CHECK(a == before, "%s changed files", cmd.c_str()); }

// damage for info, verify, visit, recover, rekey
static std::string hurt(Rng& r, Image& im) {
    std::vector<std::string> p; for(auto& e : im) p.push_back(e.first);
    if(p.empty()) return "nothing";
    auto& f = p[r.below(p.size())]; Blob& b = im[f]; std::string n = f.substr(f.size() - 3);
    switch(r.below(6)) {
    case 0: im.erase(f); return n + " missing";
    case 1: b.trunc(r.below(b.size() + 1)); return n + " cut";
    case 2: b.trunc(r.below(120)); return n + " cut short";
    case 3: if(b.size()) { u64 o = r.below(std::min<u64>(b.size(), 60)); u8 v; b.read(o, &v, 1); v ^= 1u << r.below(8); b.write(o, &v, 1); } return n + " header bit";
    case 4: if(b.size()) { u64 o = r.below(b.size()); u8 v; b.read(o, &v, 1); v ^= 1u << r.below(8); b.write(o, &v, 1); } return n + " bit";
    default: { bytes j(r.range(1, 50)); r.fill(j.data(), j.size()); b.write(b.size(), j.data(), j.size()); return n + " extended"; }
    }
}
//------------------------------------------------------------------------------
static void do_info(Rng& r, Image const& im) {
    lay(im); u64 n = r.range(1, 3);
    std::vector<std::string> all{D(), Kf(), L()}, files; for(u64 i = 0; i < n; ++i) files.push_back(r.chance(1, 8) ? all[r.below(3)] : all[i]);
    if(r.chance(1, 30)) { files[r.below(n)] = scratch_dir(); }
    auto a = args(r, "info", files); auto cmd = line(a); current().set(current().get() + " | " + cmd);
    Out o = run(a); untouched(im, cmd); stats().eval();
    bool all_shown = true; u64 shown = 0;
    // output is a sequence of blocks, one per file
    std::size_t at = 0;
    for(auto& f : files) {
        auto it = im.find(f); bool ok = it != im.end(); char const* head = ""; std::string type;
        if(ok) { ok = it->second.size() >= 8; if(ok) { bytes t = it->second.get(0, 8); type.assign(t.begin(), t.end()); u64 need = type == "nudb.dat" ? DAT_HDR : type == "nudb.key" ? KEY_HDR : type == "nudb.log" ? LOG_HDR : ~0ull; ok = need != ~0ull && it->second.size() >= need; } }
        if(!ok) { all_shown = false; continue; }
        head = type == "nudb.dat" ? "data file:" : type == "nudb.key" ? "key file:" : "log file:";
        at = o.out.find(head, at); CHECK(at != std::string::npos, "%s: %s is not shown", cmd.c_str(), f.c_str());
        std::size_t end = o.out.find("\n\n", at); Out s; s.out = o.out.substr(at, end == std::string::npos ? end : end - at); at += 5; ++shown;
        bytes h = it->second.get(0, KEY_HDR);
        eq(s, "file size", it->second.size(), cmd); eq(s, "version", be(&h[8], 2), cmd); eq(s, "uid", be(&h[10], 8), cmd); eq(s, "appnum", be(&h[18], 8), cmd); eq(s, "key_size", be(&h[26], 2), cmd);
        CHECK(s.out.find(f) != std::string::npos && s.out.find(type) != std::string::npos, "%s: path or type missing", cmd.c_str());
        if(type != "nudb.dat") { eq(s, "salt", be(&h[28], 8), cmd); eq(s, "pepper", be(&h[36], 8), cmd); eq(s, "block_size", be(&h[44], 2), cmd); }
        if(type == "nudb.log") { eq(s, "key_file_size", be(&h[46], 8), cmd); eq(s, "dat_file_size", be(&h[54], 8), cmd); }
    }
    if(all_shown) CHECK(o.ok(), "%s: exit status %d although all files were shown", cmd.c_str(), o.rc);
    else CHECK(o.failed(), "%s: exit status 0 although a file could not be shown", cmd.c_str());
    stats().add("info_files_shown", shown); stats().add(all_shown ? "info_ok" : "info_failed");
}
static void do_visit(Rng& r, Image const& im) {
    lay(im); auto a = args(r, "visit", {D()}); auto cmd = line(a); current().set(current().get() + " | " + cmd);
    Out o = run(a); untouched(im, cmd); stats().eval();
    u64 n = 0; std::vector<u64> hist(64, 0); error_code ec;
    nudb::visit(D(), [&](void const*, std::size_t, void const*, std::size_t z, error_code&) { ++n; int b = 0; while(z >> (b + 1)) ++b; ++hist[b]; }, [](u64, u64) {}, ec);
    if(ec) { CHECK(o.failed(), "%s: exit status 0 although the library reports '%s'", cmd.c_str(), ec.message().c_str()); CHECK((o.out + o.err).find(ec.message()) != std::string::npos, "%s: the reason '%s' is not printed", cmd.c_str(), ec.message().c_str()); CHECK(field(o.out, "value_count").empty(), "%s: figures printed although the visit failed", cmd.c_str()); stats().add("visit_failed"); return; }
    CHECK(o.ok(), "%s: exit status %d: %s", cmd.c_str(), o.rc, o.err.c_str());
    Db db = Db::parse_dat_only(im.at(D()));
    if(db.dat_ok) { eq(o, "value_count", db.recs.size(), cmd); std::fill(hist.begin(), hist.end(), 0); for(auto& x : db.recs) { int b = 0; while(x.size >> (b + 1)) ++b; ++hist[b]; } }
    else eq(o, "value_count", n, cmd);
    auto v = list(field(o.out, "sizes")); v.resize(64, 0); CHECK(v == hist, "%s: wrong histogram: %s", cmd.c_str(), field(o.out, "sizes").c_str());
    eq(o, "file size", im.at(D()).size(), cmd); bytes h = im.at(D()).get(0, 28); eq(o, "uid", be(&h[10], 8), cmd); eq(o, "appnum", be(&h[18], 8), cmd); eq(o, "key_size", be(&h[26], 2), cmd);
    stats().add("visit_ok");
}
static void do_verify(Rng& r, Image const& im) {
    lay(im); u64 bs = 4096; { auto k = im.find(Kf()); if(k != im.end() && k->second.size() >= KEY_HDR) bs = be(&k->second.get(44, 2)[0], 2); }
    u64 ks = im.count(Kf()) ? im.at(Kf()).size() : 0;
    std::vector<std::pair<std::string, u64>> op; u64 buf = 0;
    if(r.chance(2, 3)) { buf = r.pick<u64>({0, 1, bs, 2 * bs + 40, r.below(ks + 1), ks + 100, ks * 2 + 5000, 32u << 20}); op.push_back({"buffer", buf}); }
    auto a = args(r, "verify", {D(), Kf()}, op); auto cmd = line(a); current().set(current().get() + " | " + cmd);
    Out o = run(a); untouched(im, cmd); stats().eval();
    nudb::verify_info i; error_code ec; nudb::verify<nudb::xxhasher>(i, D(), Kf(), buf, [](u64, u64) {}, ec);
    if(ec) {
        CHECK(o.failed(), "%s: exit status 0 although the library reports '%s'", cmd.c_str(), ec.message().c_str());
        CHECK((o.out + o.err).find(ec.message()) != std::string::npos, "%s: the reason '%s' is not printed", cmd.c_str(), ec.message().c_str());
        CHECK(field(o.out, "key_count").empty(), "%s: figures printed for a damaged database", cmd.c_str()); stats().add("verify_failed"); return;
    }
    CHECK(o.ok(), "%s: exit status %d: %s", cmd.c_str(), o.rc, o.err.c_str());
    // C10 compares the library's figures with an independent count of valid databases; here too
    Db db = Db::parse(im.at(D()), im.at(Kf())); bool ind = db.valid();
    eq(o, "version", 2, cmd); eq(o, "uid", db.d.uid, cmd); eq(o, "appnum", db.d.appnum, cmd); eq(o, "key_size", db.d.key_size, cmd); eq(o, "salt", db.k.salt, cmd); eq(o, "pepper", db.k.pepper, cmd); eq(o, "block_size", db.k.block_size, cmd);
    eq(o, "bucket_size", ind ? 8 + 18 * db.capacity : i.bucket_size, cmd); eq(o, "capacity", ind ? db.capacity : i.capacity, cmd); eq(o, "buckets", ind ? db.buckets : i.buckets, cmd);
    eq(o, "key_count", ind ? db.key_count : i.key_count, cmd); eq(o, "value_count", ind ? db.recs.size() : i.value_count, cmd); eq(o, "value_bytes", ind ? db.value_bytes : i.value_bytes, cmd);
    eq(o, "spill_count", ind ? db.spill_live : i.spill_count, cmd); eq(o, "spill_count_tot", ind ? db.spills.size() : i.spill_count_tot, cmd); eq(o, "spill_bytes", ind ? db.spill_live_bytes : i.spill_bytes, cmd); eq(o, "spill_bytes_tot", ind ? db.spill_tot_bytes : i.spill_bytes_tot, cmd);
    eq(o, "key_file_size", im.at(Kf()).size(), cmd); eq(o, "dat_file_size", im.at(D()).size(), cmd);
    std::vector<u64> hist(10, 0); if(ind) for(auto c : db.chain) ++hist[std::min<u64>(c, 9)]; else for(int h = 0; h < 10; ++h) hist[h] = i.hist[h];
    auto v = list(field(o.out, "hist")); v.resize(10, 0); CHECK(v == hist, "%s: wrong histogram: %s", cmd.c_str(), field(o.out, "hist").c_str());
    CHECK(field(o.out, "dat_path") == D() && field(o.out, "key_path") == Kf(), "%s: other paths printed", cmd.c_str());
    CHECK(field(o.out, "algorithm") == (i.algorithm ? "fast" : "normal"), "%s: algorithm printed as '%s'", cmd.c_str(), field(o.out, "algorithm").c_str());
    if(ind) {
        eqd(o, "load_factor", db.k.load_factor / 655.36, 0.51, cmd); eqd(o, "actual_load", 100.0 * db.key_count / ((double)db.capacity * db.buckets), 0.51, cmd);
        eqd(o, "waste", 100.0 * (db.spill_tot_bytes - db.spill_live_bytes) / (double)db.dat_size, 0.00051, cmd);
        eqd(o, "overhead", db.recs.empty() ? 0 : 100.0 * ((double)(db.key_size_bytes + db.dat_size) / (double)(db.value_bytes + db.key_count * (db.d.key_size + 6)) - 1), 0.051, cmd);
        eqd(o, "avg_fetch", avg_reads(db, im.at(Kf())), 0.00051, cmd);
    }
    stats().add(i.algorithm ? "verify_ok_fast" : "verify_ok_normal");
}
static void do_recover(Rng& r, Image const& im, bool clean) {
    // the library on the same files
    lay(im); error_code ec; nudb::recover<nudb::xxhasher>(D(), Kf(), L(), ec); Image want = disk();
    lay(im); auto a = args(r, "recover", {D(), Kf(), L()}); auto cmd = line(a); current().set(current().get() + " | " + cmd);
    Out o = run(a); stats().eval(); Image got = disk();
    CHECK(o.ok() == !ec, "%s: exit status %d, the library reports '%s'", cmd.c_str(), o.rc, ec.message().c_str());
    if(ec) CHECK((o.out + o.err).find(ec.message()) != std::string::npos, "%s: the reason '%s' is not printed", cmd.c_str(), ec.message().c_str());
    CHECK(got == want, "%s: other files than the library's recover leaves", cmd.c_str());
    if(clean) { CHECK(o.ok() && !got.count(L()), "%s: not recovered (status %d)", cmd.c_str(), o.rc); Db db = Db::parse(got[D()], got[Kf()]); CHECK(db.valid(), "%s: %s", cmd.c_str(), db.first().c_str()); }
    stats().add(ec ? "recover_failed" : im.count(L()) ? "recover_ok" : "recover_nothing_to_do");
}
static void judge_rekey(Image const& im, Image const& got, u64 items, std::string const& cmd) {
    CHECK(got.count(Kf()) && !got.count(L()), "%s: key file %s, log file %s", cmd.c_str(), got.count(Kf()) ? "there" : "missing", got.count(L()) ? "left" : "gone");
    Blob const& od = im.at(D()); Blob const& nd = got.at(D());
    CHECK(nd.size() >= od.size() && nd.same(od, 0, od.size()), "%s: data file bytes were changed", cmd.c_str());
    Db db = Db::parse(nd, got.at(Kf())), o = Db::parse_dat_only(od); CHECK(db.valid(), "%s: database invalid: %s", cmd.c_str(), db.first().c_str());
    CHECK(db.recs.size() == o.recs.size() && db.k.uid == o.d.uid && db.k.appnum == o.d.appnum && db.k.key_size == o.d.key_size, "%s: records or identity changed", cmd.c_str());
    CHECK(db.k.block_size == nudb::block_size(Kf()) && db.k.load_factor == 32768, "%s: block size %llu, load factor %llu", cmd.c_str(), (unsigned long long)db.k.block_size, (unsigned long long)db.k.load_factor);
    double want = std::max(1.0, items / (db.capacity * 0.5)); CHECK(db.buckets >= want * 0.9 - 1 && db.buckets <= want * 1.1 + 1, "%s: %llu buckets", cmd.c_str(), (unsigned long long)db.buckets);
}
static void do_rekey(Rng& r, Image im, bool valid, u64 n) {
    u64 items = r.pick<u64>({n, n, n, n + 1, n / 2, n * 3, 1, 0, n * 50}), buf = r.pick<u64>({0, 1, 4096, 8192, 100000, 1 << 20, 16 << 20, r.below(1 << 16)});
    if(items / 113.0 * 4096 / std::max<u64>(buf, 4096) > 60) buf = 1 << 20;
    int kind = (int)r.below(8); if(!valid) kind = 7;
    if(kind != 0) im.erase(Kf()); if(kind != 1) im.erase(L()); else if(!im.count(L())) im[L()] = Blob{};
    if(kind == 2) im.erase(D());
    lay(im);
    auto a = args(r, "rekey", {D(), Kf(), L()}, r.chance(1, 2) ? std::vector<std::pair<std::string, u64>>{{"count", items}, {"buffer", buf}} : std::vector<std::pair<std::string, u64>>{{"buffer", buf}, {"count", items}});
    auto cmd = line(a); current().set(current().get() + " | " + cmd); stats().eval();
    if(kind <= 2 && valid) { Out o = run(a); CHECK(o.failed(), "%s: exit status 0 although it cannot work", cmd.c_str()); untouched(im, cmd); stats().add("rekey_refused"); return; }
    bool cut = kind >= 3 && kind <= 5; if(kind == 5) kind = r.chance(1, 2) ? 3 : 4;          // 3: killed, 4: a file may not grow
    if(cut) {
        u64 dat = im[D()].size(); long lim = (long)r.pick<u64>({r.below(4096), r.below(40000), dat + r.below(3000), 4096 * r.below(2 + 2 * (items / 113))}); Out o = kind == 3 ? (r.chance(1, 2) ? run(a, (long)(800 + r.below(4000))) : run(a, -1, lim, true)) : run(a, -1, lim);
        Image got = disk();
        if(o.ok()) { judge_rekey(im, got, items, cmd); stats().add("rekey_ok"); return; }
        stats().add(kind == 3 ? "rekey_killed" : "rekey_out_of_space");
        if(kind == 4) CHECK(o.failed(), "%s: ended with signal %d", cmd.c_str(), o.sig);
        CHECK(got.count(D()) && got[D()].size() >= dat && got[D()].same(im[D()], 0, dat), "%s: interrupted, data file bytes changed", cmd.c_str());
        auto rc = args(r, "recover", {D(), Kf(), L()});
        if(got.count(L())) stats().add("rekey_left_log");
        bool complete = got.count(Kf()) && got[Kf()].size() > KEY_HDR && !got.count(L());
        Out o2 = run(rc);
        if(!got.count(Kf()) && got.count(L())) { stats().add("log_without_key_file"); }
        Image after = disk();
        CHECK(o2.ok() || !got.count(Kf()) || got[Kf()].size() <= KEY_HDR, "%s after the interrupted rekey: status %d %s", line(rc).c_str(), o2.rc, o2.err.c_str());
        if(complete) judge_rekey(im, after, items, cmd);      // finished, but not reported
        else CHECK(after == im, "%s: the data file is not as before the interrupted rekey, or files are left (key %d log %d, before recovery: key %d log %d)", cmd.c_str(), (int)after.count(Kf()), (int)after.count(L()), (int)got.count(Kf()), (int)got.count(L()));
        for(auto& p : {Kf(), L()}) rm_file(p);
        Out o3 = run(a); CHECK(o3.ok(), "%s once more: status %d %s", cmd.c_str(), o3.rc, o3.err.c_str()); judge_rekey(im, disk(), items, cmd); return;
    }
    Out o = run(a); Image got = disk();
    if(valid) { CHECK(o.ok(), "%s: exit status %d %s", cmd.c_str(), o.rc, o.err.c_str()); judge_rekey(im, got, items, cmd); stats().add("rekey_ok");
        auto av = args(r, "verify", {D(), Kf()}); Out v = run(av); CHECK(v.ok(), "verify after rekey: %s", v.err.c_str()); if(n) eq(v, "key_count", n, cmd); }
    else {
        lay(im); error_code ec; nudb::rekey<nudb::xxhasher, nudb::native_file>(D(), Kf(), L(), nudb::block_size(Kf()), 0.5f, items, buf, ec, [](u64, u64) {});
        CHECK(o.ok() == !ec, "%s: exit status %d, the library reports '%s'", cmd.c_str(), o.rc, ec.message().c_str());
        if(ec) CHECK((o.out + o.err).find(ec.message()) != std::string::npos, "%s: the reason '%s' is not printed", cmd.c_str(), ec.message().c_str());
        stats().add(ec ? "rekey_failed" : "rekey_ok");
    }
}
static void do_usage(Rng& r, Image const& im) {
    lay(im); std::vector<std::string> a; bool good = false;
    switch(r.below(14)) {
    case 0: a = {}; break;
    case 1: a = {r.pick({std::string("create"), std::string("Verify"), std::string("recove"), std::string("rekeyx"), std::string("inf"), std::string("-"), std::string("")}), D(), Kf(), L()}; break;
    case 2: a = args0("help"); good = true; break;
    case 3: a = args0("info"); break;
    case 4: a = {"recover", D(), Kf()}; break;
    case 5: a = {"recover", D()}; break;
    case 6: a = {"rekey", D(), Kf(), L(), "--buffer=65536"}; break;
    case 7: a = {"rekey", D(), Kf(), L(), "--count=10"}; break;
    case 8: a = {"rekey", D(), Kf(), "-n10", "-b65536"}; break;
    case 9: a = {"verify", D()}; break;
    case 10: a = {"verify", D(), Kf(), r.pick({std::string("--buffer=abc"), std::string("--buffer="), std::string("--nonsense"), std::string("--buffer"), std::string("-x"), std::string("--buffer=99999999999999999999999")})}; break;
    case 11: a = {"visit"}; break;
    case 12: a = {"verify", D(), Kf(), L(), D()}; break;
    default: a = {"rekey", D(), Kf(), L(), "--count=" + r.pick({std::string("abc"), std::string(""), std::string("18446744073709551616"), std::string("1.5x")}), "--buffer=65536"}; break;
    }
    auto cmd = line(a); current().set(current().get() + " | " + cmd); Out o = run(a); untouched(im, cmd); stats().eval();
    if(good) { CHECK(o.ok(), "%s: exit status %d", cmd.c_str(), o.rc); for(auto w : {"info", "recover", "rekey", "verify", "visit"}) CHECK(o.out.find(w) != std::string::npos, "help does not mention %s", w); }
    else CHECK(o.failed(), "%s: exit status 0", cmd.c_str());
    stats().add(good ? "help" : "usage_errors");
}
static void one(u64 seed, u64 idx) {
    only_kind() = 0; Rng r(seed); bool crash = r.chance(1, 3);
    Made m = make_db(r, idx % 16 == 0 ? 4000 : 500, crash, 8192);
    Image im; im[D()] = m.im[DP]; if(m.im.count(KP)) im[Kf()] = m.im[KP]; if(m.im.count(LP)) im[L()] = m.im[LP];
    std::string note = fmt("case=%llu %s %s keys=%zu", (unsigned long long)idx, m.shape.c_str(), m.c.str().c_str(), m.order.size());
    stats().add("shape_" + m.shape); stats().nontrivial(mix2(fnvs(note), seed)); stats().sample(note);
    for(int j = 0; j < 10; ++j) {
        Image x = im; std::string what; bool hurtit = r.chance(2, 5);
        if(hurtit) { what = hurt(r, x); if(r.chance(1, 5)) what += ", " + hurt(r, x); stats().add("damaged"); }
        current().set(note + " " + what);
        switch(r.below(7)) {
        case 0: case 1: do_info(r, x); break;
        case 2: do_visit(r, x); break;
        case 3: do_verify(r, x); break;
        case 4: do_recover(r, x, !hurtit); break;
        case 5: do_rekey(r, x, !hurtit && !crash, m.order.size()); break;
        default: do_usage(r, x); break;
        }
    }
    for(auto& p : {D(), Kf(), L()}) rm_file(p);
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
