// C17: the native file under hostile system-call behaviour. The system calls it uses are
// interposed here: transfers are split, calls interrupted or failed, descriptors accounted for.
#include "dbgen.hpp"
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/resource.h>
using namespace vf;

struct Call { char const* name; int fd; u64 off, len; long ret; int err; };
namespace ip {
    static thread_local bool on = false;              // only calls made by the code under test
    static thread_local Rng* rng = nullptr;
    static thread_local unsigned split = 0, eintr = 0; // out of 8
    static thread_local long fail_at = -1; static thread_local int fail_errno = 0; static thread_local long ncalls = 0; static thread_local char const* failed = nullptr; static thread_local char const* fail_name = nullptr;
    static thread_local std::vector<Call>* calls = nullptr;
    static thread_local std::map<int, int>* fds = nullptr;      // open descriptors of the code under test
    static thread_local std::string* bad = nullptr;
    static thread_local u64 n_split = 0, n_eintr = 0, n_calls = 0, opened = 0, closed = 0;
    struct Off { bool o; Off() : o(on) { on = false; } ~Off() { on = o; } };
    static void rec(char const* n, int fd, u64 off, u64 len, long ret, int err) { Off q; ++n_calls; if(calls && calls->size() < 4096) calls->push_back({n, fd, off, len, ret, err}); }
    static void complain(std::string const& s) { Off q; if(bad && bad->empty()) *bad = s; }
    // true: fail this call with errno
    static bool inject(char const* name) { if(!on) return false; long i = ncalls++; if(fail_at >= 0 && i >= fail_at && !failed && (!fail_name || !strcmp(fail_name, name))) { failed = name; errno = fail_errno; return true; } return false; }
    static bool interrupt() { if(on && eintr && rng && rng->chance(eintr, 8)) { ++n_eintr; errno = EINTR; return true; } return false; }
    static std::size_t part(std::size_t n) { if(!on || !split || !rng || n < 2 || !rng->chance(split, 8)) return n; ++n_split; return rng->chance(1, 3) ? 1 : rng->chance(1, 2) ? n - 1 : 1 + rng->below(n - 1); }
    static void check(char const* name, int fd) { if(on && fds && !fds->count(fd)) complain(fmt("%s on descriptor %d, which the file does not own", name, fd)); }
}
extern "C" {
static int do_open(char const* p, int f, mode_t m) {
    if(ip::inject("open")) { ip::rec("open", -1, 0, 0, -1, errno); return -1; }
    int r = (int)syscall(SYS_openat, AT_FDCWD, p, f, m);
    if(ip::on) { ip::Off q; if(r >= 0) { ++ip::opened; if(ip::fds) (*ip::fds)[r] = 1; } int e = errno; ip::rec("open", r, f, 0, r, e); errno = e; }
    return r;
}
int open(char const* p, int f, ...) { mode_t m = 0; if(f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return do_open(p, f, m); }
int open64(char const* p, int f, ...) { mode_t m = 0; if(f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } return do_open(p, f, m); }
int close(int fd) {
    ip::check("close", fd);
    int r = (int)syscall(SYS_close, fd);
    if(ip::on) { ip::Off q; ++ip::closed; if(ip::fds) ip::fds->erase(fd); int e = errno; ip::rec("close", fd, 0, 0, r, e); errno = e; }
    return r;
}
static ssize_t do_pread(int fd, void* b, size_t n, off_t o) {
    ip::check("pread", fd);
    if(ip::inject("pread") || ip::interrupt()) { int e = errno; ip::rec("pread", fd, o, n, -1, e); errno = e; return -1; }
    ssize_t r = syscall(SYS_pread64, fd, b, ip::part(n), o);
    if(ip::on) { int e = errno; ip::rec("pread", fd, o, n, r, e); errno = e; }
    return r;
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
static ssize_t do_pwrite(int fd, void const* b, size_t n, off_t o) {
    ip::check("pwrite", fd);
    if(ip::inject("pwrite") || ip::interrupt()) { int e = errno; ip::rec("pwrite", fd, o, n, -1, e); errno = e; return -1; }
    ssize_t r = syscall(SYS_pwrite64, fd, b, ip::part(n), o);
    if(ip::on) { int e = errno; ip::rec("pwrite", fd, o, n, r, e); errno = e; }
    return r;
}
ssize_t pwrite(int fd, void const* b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, void const* b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
// in case an implementation seeks and then transfers
ssize_t read(int fd, void* b, size_t n) { if(!ip::on) return syscall(SYS_read, fd, b, n); ip::check("read", fd); if(ip::inject("pread") || ip::interrupt()) { int e = errno; ip::rec("pread", fd, 0, n, -1, e); errno = e; return -1; } ssize_t r = syscall(SYS_read, fd, b, ip::part(n)); int e = errno; ip::rec("pread", fd, 0, n, r, e); errno = e; return r; }
ssize_t write(int fd, void const* b, size_t n) { if(!ip::on) return syscall(SYS_write, fd, b, n); ip::check("write", fd); if(ip::inject("pwrite") || ip::interrupt()) { int e = errno; ip::rec("pwrite", fd, 0, n, -1, e); errno = e; return -1; } ssize_t r = syscall(SYS_write, fd, b, ip::part(n)); int e = errno; ip::rec("pwrite", fd, 0, n, r, e); errno = e; return r; }
static int do_sync(char const* name, long nr, int fd) {
    ip::check(name, fd);
    if(ip::inject("fsync") || ip::interrupt()) { int e = errno; ip::rec(name, fd, 0, 0, -1, e); errno = e; return -1; }
    int r = ip::on ? 0 : (int)syscall(nr, fd);        // nothing is lost here: the real flush only costs time
    if(ip::on) ip::rec(name, fd, 0, 0, r, errno);
    return r;
}
int fsync(int fd) { return do_sync("fsync", SYS_fsync, fd); }
int fdatasync(int fd) { return do_sync("fdatasync", SYS_fdatasync, fd); }
static int do_trunc(int fd, off_t n) {
    ip::check("ftruncate", fd);
    if(ip::inject("ftruncate") || ip::interrupt()) { int e = errno; ip::rec("ftruncate", fd, 0, n, -1, e); errno = e; return -1; }
    int r = (int)syscall(SYS_ftruncate, fd, n);
    if(ip::on) { int e = errno; ip::rec("ftruncate", fd, 0, n, r, e); errno = e; }
    return r;
}
int ftruncate(int fd, off_t n) noexcept { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) noexcept { return do_trunc(fd, n); }
static int do_fadvise(int fd, off_t o, off_t n, int a) {
    ip::check("posix_fadvise", fd);
    int keep = errno;
    if(ip::inject("posix_fadvise")) { int e = errno; errno = keep; ip::rec("posix_fadvise", fd, o, n, e, 0); return e; }
    long r = syscall(SYS_fadvise64, fd, o, n, a); int e = r ? errno : 0; errno = keep;
    if(ip::on) ip::rec("posix_fadvise", fd, o, n, e, 0);
    return e;
}
int posix_fadvise(int fd, off_t o, off_t n, int a) noexcept { return do_fadvise(fd, o, n, a); }
int posix_fadvise64(int fd, off_t o, off_t n, int a) noexcept { return do_fadvise(fd, o, n, a); }
static int do_fstat(int fd, struct stat* s) {
    ip::check("fstat", fd);
    if(ip::inject("fstat")) { int e = errno; ip::rec("fstat", fd, 0, 0, -1, e); errno = e; return -1; }
    int r = (int)syscall(SYS_fstat, fd, s); if(ip::on) { int e = errno; ip::rec("fstat", fd, 0, 0, r, e); errno = e; }
    return r;
}
int fstat(int fd, struct stat* s) noexcept { return do_fstat(fd, s); }
int fstat64(int fd, struct stat64* s) noexcept { return do_fstat(fd, (struct stat*)s); }
int unlink(char const* p) noexcept { if(ip::inject("unlink")) { ip::rec("unlink", -1, 0, 0, -1, errno); return -1; } int r = (int)syscall(SYS_unlink, p); if(ip::on) { int e = errno; ip::rec("unlink", -1, 0, 0, r, e); errno = e; } return r; }
}

struct Under {                        // the code under test runs
    Under() { ip::on = true; } ~Under() { ip::on = false; }
};
using nudb::file_mode; using nudb::native_file;
using F = native_file;

// Compares a (possibly sparse and huge) file with a model
static bool same(std::string const& p, sim::Blob const& m) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0); HARNESS(fd >= 0, "cannot open %s", p.c_str());
    struct Cl { int f; ~Cl() { syscall(SYS_close, f); } } cl{fd}; struct stat st; HARNESS(syscall(SYS_fstat, fd, &st) == 0, "fstat");
    if((u64)st.st_size != m.size()) return false;
    auto piece = [&](u64 o, u64 n) { bytes g(n); ssize_t k = syscall(SYS_pread64, fd, g.data(), n, o); return k == (ssize_t)n && g == m.get(o, n); };
    for(u64 e : m.extents()) if(e < m.size() && !piece(e, std::min<u64>(sim::Blob::chunk_size, m.size() - e))) return false;
    for(off_t o = 0; o < st.st_size;) { off_t d = lseek(fd, o, SEEK_DATA); if(d < 0) break; off_t x = lseek(fd, d, SEEK_HOLE); if(x < 0) x = st.st_size; HARNESS(x - d < (256 << 20), "too much data in %s", p.c_str()); while(d < x) { u64 n = std::min<u64>(1 << 20, x - d); if(!piece(d, n)) return false; d += n; } o = x; }
    return true;
}

static void file_case(u64 seed, u64 idx) {
    Rng r(seed), q(seed + 1); std::string dir = scratch_dir() + fmt("f%llu/", (unsigned long long)idx); mkdir(dir.c_str(), 0755);
    std::map<int, int> fds; std::vector<Call> calls; std::string bad; ip::fds = &fds; ip::calls = &calls; ip::bad = &bad; ip::rng = &q;
    ip::opened = ip::closed = 0;
    std::map<std::string, sim::Blob> model; std::vector<std::string> names; for(int i = 0; i < 3; ++i) names.push_back(dir + fmt("x%d", i));
    struct H { std::unique_ptr<F> f; std::string path; file_mode mode; bool open = false; };
    std::vector<H> h(3); for(auto& x : h) x.f.reset(new F);
    u64 steps = r.range(20, 80); bool big = r.chance(1, 6);
    auto policy = [&] { ip::split = r.pick({0u, 3u, 7u, 8u}); ip::eintr = r.pick({0u, 0u, 2u, 5u}); ip::fail_at = -1; ip::failed = nullptr; ip::fail_name = nullptr; ip::ncalls = 0; calls.clear();
        if(r.chance(1, 5)) { ip::fail_at = (long)r.below(4); ip::fail_errno = r.pick({EIO, ENOSPC, EBADF, EDQUOT, EFBIG, EINVAL, EAGAIN, ENOMEM, EACCES}); } errno = r.pick({0, 0, EAGAIN, ENOENT, EEXIST, EINTR}); };
    auto settle = [&](char const* what, error_code const& ec) {
        CHECK(bad.empty(), "%s: %s", what, bad.c_str());
        if(ip::failed) { CHECK(ec.value() == ip::fail_errno && (ec.category() == boost::system::system_category() || ec.category() == boost::system::generic_category()), "%s: %s failed with errno %d, reported '%s' (%d)", what, ip::failed, ip::fail_errno, ec.message().c_str(), ec.value()); stats().add(std::string("failures_of_") + ip::failed); }
    };
    std::string last;
    for(u64 s = 0; s < steps; ++s) {
        H& x = h[r.below(h.size())]; error_code ec; policy(); stats().eval();
        unsigned op = (unsigned)r.below(x.open ? 12 : 4);
        if(!x.open) {
            std::string p = r.pick(names); bool there = model.count(p) != 0; file_mode m = r.pick({file_mode::scan, file_mode::read, file_mode::append, file_mode::write});
            bool shared = false; for(auto& y : h) if(y.open && y.path == p) shared = true; if(shared && r.chance(3, 4)) continue;
            if(op == 3) {      // erase
                if(shared) continue;
                current().set("erase"); { Under u; F::erase(p, ec); }
                settle("erase", ec);
                bool now = access(p.c_str(), F_OK) == 0;
                if(ip::failed) CHECK(now == there, "failing erase changed the directory"); else if(!there) CHECK(ec == boost::system::errc::no_such_file_or_directory, "erase of a missing file: '%s'", ec.message().c_str()); else { CHECK(!ec && !now, "erase: '%s'", ec.message().c_str()); }
                if(!now) model.erase(p);
                last = "erase"; continue;
            }
            std::size_t fd0 = fds.size(); current().set(op ? "open" : "create");
            if(op == 0) { { Under u; x.f->create(m, p, ec); } }
            else { { Under u; x.f->open(m, p, ec); } }
            char const* w = op == 0 ? "create" : "open"; settle(w, ec);
            bool now = access(p.c_str(), F_OK) == 0;
            if(ec) {
                if(!ip::failed) { if(op == 0) CHECK(there && ec == boost::system::errc::file_exists, "create of %s file: '%s'", there ? "an existing" : "a new", ec.message().c_str()); else CHECK(!there && ec == boost::system::errc::no_such_file_or_directory, "open of %s file: '%s'", there ? "an existing" : "a missing", ec.message().c_str()); }
                CHECK(now == there, "failing %s %s", w, now ? "left a file" : "removed the file");
                CHECK(!x.f->is_open(), "failing %s left the file open", w);
                CHECK(fds.size() == fd0, "failing %s kept a descriptor", w);
                if(there) CHECK(same(p, model[p]), "failing %s changed the file", w);
            } else {
                CHECK(!ip::failed, "%s succeeded although %s failed", w, ip::failed);
                CHECK(op == 0 ? !there : there, "%s of %s file succeeded", w, there ? "an existing" : "a missing");
                CHECK(x.f->is_open() && fds.size() == fd0 + 1, "%s: %zu descriptors opened", w, fds.size() - fd0);
                if(op == 0) { CHECK(same(p, sim::Blob{}), "created file not empty"); model[p] = sim::Blob{}; } else CHECK(same(p, model[p]), "open changed the file");
                x.open = true; x.path = p; x.mode = m;
            }
            last = w; continue;
        }
        sim::Blob& M = model[x.path]; bool wr = x.mode == file_mode::append || x.mode == file_mode::write;
        current().set(fmt("operation %u on %s", op, x.path.c_str()));
        switch(op) {
        case 0: case 1: case 2: {     // write
            u64 n = r.chance(1, 8) ? r.below(300000) : r.chance(1, 20) ? 0 : 1 + r.skew(9000); u64 off = r.chance(1, 3) ? M.size() : r.below(M.size() + 5000);
            if(big && r.chance(1, 3)) off = r.pick({0x7fffffffull - 100, 0x80000000ull, 0xffffffffull - 50, 0x100000000ull, 0x1ffffffffull, 0x3fffffff000ull}) + r.below(200);
            bytes b(n); r.fill(b.data(), n); bytes keep = b;
            { Under u; x.f->write(off, b.data(), n, ec); }
            settle("write", ec); CHECK(b == keep, "write changed the caller's buffer");
            if(!wr) { if(n) CHECK(ec, "write to a file open for reading succeeded"); CHECK(same(x.path, M), "write to a read-only file"); break; }
            u64 at = x.mode == file_mode::append ? M.size() : off;
            if(!ec) { if(n) M.write(at, b.data(), n); u64 fs = 0; { struct stat st; HARNESS(stat(x.path.c_str(), &st) == 0, "stat"); fs = st.st_size; } CHECK(fs == M.size(), "file has %llu bytes after a write of %llu at %llu (%s), expected %llu", (unsigned long long)fs, (unsigned long long)n, (unsigned long long)off, x.mode == file_mode::append ? "append" : "write", (unsigned long long)M.size()); }
            else { CHECK(ip::failed, "write failed: '%s'", ec.message().c_str());      // a prefix may have been written
                sim::Blob N; u64 done = 0; for(auto& c : calls) if(!strcmp(c.name, "pwrite") && c.ret > 0) done += c.ret; CHECK(done <= n, "wrote %llu of %llu bytes", (unsigned long long)done, (unsigned long long)n); if(done) M.write(at, b.data(), done); }
            { bytes g(n + 64); u64 lo = at >= 32 ? at - 32 : 0, hi = std::min<u64>(M.size(), at + n + 32); int fd = (int)syscall(SYS_openat, AT_FDCWD, x.path.c_str(), O_RDONLY, 0); g.resize(hi > lo ? hi - lo : 0); ssize_t k = g.empty() ? 0 : syscall(SYS_pread64, fd, g.data(), g.size(), lo); syscall(SYS_close, fd); CHECK(k == (ssize_t)g.size() && g == M.get(lo, g.size()), "file bytes around [%llu,+%llu) are not those written", (unsigned long long)at, (unsigned long long)n); }
            stats().add("bytes_written", n); break;
        }
        case 3: case 4: case 5: {     // read
            u64 n = r.chance(1, 8) ? r.below(300000) : r.chance(1, 20) ? 0 : 1 + r.skew(9000); u64 off = r.below(M.size() + 100); if(r.chance(1, 2) && M.size() > n) off = r.chance(1, 3) ? M.size() - n : r.below(M.size() - n + 1); if(r.chance(1, 10)) off = M.size();
            bytes b(n + 32, 0xA5); { Under u; x.f->read(off, b.data() + 16, n, ec); }
            settle("read", ec);
            for(int i = 0; i < 16; ++i) CHECK(b[i] == 0xA5 && b[16 + n + i] == 0xA5, "read wrote outside its buffer");
            if(!ec) { CHECK(off + n <= M.size() || n == 0, "read of %llu bytes at %llu of a file of %llu bytes succeeded", (unsigned long long)n, (unsigned long long)off, (unsigned long long)M.size()); CHECK(n == 0 || std::memcmp(b.data() + 16, M.get(off, n).data(), n) == 0, "read of [%llu,+%llu) delivered wrong bytes", (unsigned long long)off, (unsigned long long)n); }
            else if(!ip::failed) CHECK(ec == nudb::error::short_read && off + n > M.size(), "read of [%llu,+%llu) of a file of %llu bytes: '%s'", (unsigned long long)off, (unsigned long long)n, (unsigned long long)M.size(), ec.message().c_str());
            if(ec == nudb::error::short_read) stats().add("short_reads"); stats().add("bytes_read", n); break;
        }
        case 6: {                     // sync
            { Under u; x.f->sync(ec); } settle("sync", ec);
            bool done = false; for(auto& c : calls) if((!strcmp(c.name, "fsync") || !strcmp(c.name, "fdatasync")) && c.ret == 0 && fds.count(c.fd)) done = true;
            if(!ec) CHECK(done, "sync succeeded without a successful fsync"); else CHECK(ip::failed, "sync failed: '%s'", ec.message().c_str());
            stats().add("syncs"); break;
        }
        case 7: {                     // trunc
            u64 n = r.below(M.size() + 3000); if(big && r.chance(1, 4)) n = 0x100000000ull + r.below(1000); if(r.chance(1, 6)) n = 0;
            { Under u; x.f->trunc(n, ec); } settle("trunc", ec);
            if(!wr) { CHECK(ec, "trunc of a file open for reading succeeded"); break; }
            if(!ec) M.trunc(n); else CHECK(ip::failed, "trunc failed: '%s'", ec.message().c_str());
            struct stat st; HARNESS(stat(x.path.c_str(), &st) == 0, "stat"); CHECK((u64)st.st_size == M.size(), "file has %llu bytes after trunc to %llu", (unsigned long long)st.st_size, (unsigned long long)n); break;
        }
        case 8: { u64 n; { Under u; n = x.f->size(ec); } settle("size", ec); if(!ec) CHECK(n == M.size(), "size() is %llu, file has %llu bytes", (unsigned long long)n, (unsigned long long)M.size()); else CHECK(ip::failed, "size failed"); break; }
        case 9: { std::size_t n0 = fds.size(); { Under u; x.f->close(); if(r.chance(1, 2)) x.f->close(); } CHECK(bad.empty(), "%s", bad.c_str()); CHECK(!x.f->is_open() && fds.size() == n0 - 1, "close released %ld descriptors", (long)n0 - (long)fds.size()); x.open = false; break; }
        case 10: {                    // moves
            std::size_t n0 = fds.size(); H& y = h[r.below(h.size())];
            if(r.chance(1, 2)) { std::unique_ptr<F> t; { Under u; t.reset(new F(std::move(*x.f))); CHECK(!x.f->is_open() && t->is_open(), "move construction"); x.f.reset(); } x.f = std::move(t); CHECK(fds.size() == n0, "move construction: descriptors"); }
            else if(&y == &x) { { Under u; F& a = *x.f; a = std::move(*x.f); } CHECK(x.f->is_open() && fds.size() == n0, "self move assignment"); }
            else { bool yo = y.open; { Under u; *y.f = std::move(*x.f); } CHECK(!x.f->is_open() && y.f->is_open(), "move assignment"); CHECK(fds.size() == n0 - (yo ? 1 : 0), "move assignment onto %s file: %zu descriptors open before, %zu after", yo ? "an open" : "a closed", n0, fds.size()); y.path = x.path; y.mode = x.mode; y.open = true; x.open = false; }
            CHECK(bad.empty(), "%s", bad.c_str()); stats().add("moves"); break;
        }
        case 11: { std::size_t n0 = fds.size(); { Under u; x.f.reset(); } CHECK(fds.size() == n0 - 1, "destructor released %ld descriptors", (long)n0 - (long)fds.size()); x.f.reset(new F); x.open = false; break; }
        }
        stats().nontrivial(mix2(seed, s));
    }
    { Under u; h.clear(); }
    CHECK(bad.empty(), "%s", bad.c_str()); CHECK(fds.empty(), "%zu descriptors leaked", fds.size()); CHECK(ip::opened == ip::closed, "%llu descriptors opened, %llu closed", (unsigned long long)ip::opened, (unsigned long long)ip::closed);
    for(auto& e : model) CHECK(same(e.first, e.second), "contents of %s", e.first.c_str());
    for(auto& n : names) syscall(SYS_unlink, n.c_str()); rmdir(dir.c_str());
    ip::fds = nullptr; ip::calls = nullptr; ip::bad = nullptr; ip::rng = nullptr;
}

// A whole database on native files with split and interrupted calls, or one failing call
static void db_case(u64 seed, u64 idx) {
    Rng r(seed), q(seed + 1); Cfg c = gen_cfg(r); if(c.key_size > 300) c.key_size = 20; if(c.block_size > 2000) c.block_size = 256; if(c.valmode == 4) c.valmode = 1;
    std::string d = scratch_dir(); for(auto n : {"db.dat", "db.key", "db.log"}) rm_file(d + n);
    std::map<int, int> fds; std::vector<Call> calls; std::string bad; ip::fds = &fds; ip::calls = &calls; ip::bad = &bad; ip::rng = &q; ip::split = r.pick({3u, 7u, 8u}); ip::eintr = r.pick({0u, 2u, 5u}); ip::fail_at = -1; ip::failed = nullptr; ip::opened = ip::closed = 0;
    struct Off { ~Off() { ip::on = false; ip::split = ip::eintr = 0; ip::fail_at = -1; ip::fds = nullptr; ip::calls = nullptr; ip::bad = nullptr; ip::rng = nullptr; } } off;
    current().set(fmt("case=%llu database with split and interrupted calls: %s", (unsigned long long)idx, c.str().c_str()));
    {
        Session<native_file> ss(c, d); Under u; ss.create(); ss.open();
        u64 n = ss.max_keys(10 + r.skew(300)); if(c.kind) n = std::min<u64>(n, 100);
        for(u64 i = 0; i < n; ++i) { ss.insert(i, 0); if(r.chance(1, 25)) ss.flush(); if(r.chance(1, 5)) ss.fetch(r.below(n)); if(r.chance(1, 60)) { ss.close(); ss.open(); } }
        ss.close(); ss.open(); ss.fetch_all(); ss.close(); ss.s.reset();
        CHECK(bad.empty(), "%s", bad.c_str()); CHECK(fds.empty(), "%zu descriptors leaked by a store", fds.size());
        error_code ec; nudb::verify_info info; auto np = [](u64, u64) {};
        nudb::verify<vhasher>(info, ss.dp, ss.kp, r.pick({0ull, 100000ull}), np, ec); CHECK(!ec, "verify: %s", ec.message().c_str()); CHECK(info.value_count == ss.order.size(), "verify counts %llu values", (unsigned long long)info.value_count);
        u64 seen = 0; nudb::visit(ss.dp, [&](void const*, std::size_t, void const*, std::size_t, error_code&) { ++seen; }, np, ec); CHECK(!ec && seen == ss.order.size(), "visit: %s, %llu of %zu", ec.message().c_str(), (unsigned long long)seen, ss.order.size());
        ::unlink(ss.kp.c_str());
        nudb::rekey<vhasher, native_file>(ss.dp, ss.kp, ss.lp, c.block_size, c.lf, n, 65536, ec, np); CHECK(!ec, "rekey: %s", ec.message().c_str());
        CHECK(fds.empty(), "%zu descriptors leaked by verify, visit or rekey", fds.size());
        ss.open(); ss.fetch_all(); ss.close(); ss.s.reset();
        // one failing call: the error comes back, nothing leaks, recovery restores the database
        if(r.chance(2, 3) && c.key_space() == ~0ull) {
            ss.open(); std::size_t n0 = ss.order.size(); for(u64 i = 0; i < 20; ++i) ss.insert(1000000 + i, 0);
            ip::ncalls = 0; ip::fail_at = (long)r.below(120); ip::fail_errno = r.pick({EIO, ENOSPC, EDQUOT}); ip::fail_name = r.pick<char const*>({"pwrite", "fsync", "pread", "ftruncate", "fstat"}); 
            error_code e2; ss.s->close(e2); bool failed = ip::failed; ip::fail_at = -1; 
            if(failed) { CHECK(e2.value() == ip::fail_errno, "%s failed with errno %d during the commit of close, close reports '%s' (%d)", ip::failed, ip::fail_errno, e2.message().c_str(), e2.value()); stats().add(std::string("commits_failed_by_") + ip::failed); }
            else CHECK(!e2, "close: %s", e2.message().c_str());
            ip::failed = nullptr; ip::fail_name = nullptr; ss.s.reset();
            CHECK(fds.empty(), "%zu descriptors leaked after a failing commit", fds.size());
            if(failed) { Args<native_file>::recover(ss.dp, ss.kp, ss.lp, e2 = {}); (void)n0; }
        }
        ip::on = false;
        stats().eval(); stats().nontrivial(mix2(seed, n));
    }
    CHECK(bad.empty(), "%s", bad.c_str()); CHECK(fds.empty(), "%zu descriptors leaked", fds.size()); CHECK(ip::opened == ip::closed, "%llu descriptors opened, %llu closed", (unsigned long long)ip::opened, (unsigned long long)ip::closed);
    sim::Blob D, K; HARNESS(get_file(d + "db.dat", D) && get_file(d + "db.key", K), "files"); Db db = Db::parse(D, K); CHECK(db.valid(), "%s", db.first().c_str());
    stats().sample(fmt("%s: %zu keys, %llu calls split, %llu interrupted so far", c.str().c_str(), db.recs.size(), (unsigned long long)ip::n_split, (unsigned long long)ip::n_eintr));
}
// verify and visit (which always use the native file) with one failing system call
static void tools_case(u64 seed, u64 idx) {
    Rng r(seed), q(seed + 1); Made m = make_db(r, 150, false, 1024); hash_kind() = m.c.kind;
    std::string d = scratch_dir(), D = d + "t.dat", K = d + "t.key"; put_file(D, m.dat()); put_file(K, m.key()); Db db = Db::parse(m.dat(), m.key()); HARNESS(db.valid(), "%s", db.first().c_str());
    std::map<int, int> fds; std::vector<Call> calls; std::string bad; ip::fds = &fds; ip::calls = &calls; ip::bad = &bad; ip::rng = &q; ip::split = r.pick({0u, 0u, 6u}); ip::eintr = r.pick({0u, 0u, 3u}); ip::fail_at = -1; ip::failed = nullptr; ip::fail_name = nullptr; ip::opened = ip::closed = 0;
    struct Off { ~Off() { ip::on = false; ip::split = ip::eintr = 0; ip::fail_at = -1; ip::fail_name = nullptr; ip::fds = nullptr; ip::calls = nullptr; ip::bad = nullptr; ip::rng = nullptr; } } off;
    for(int tool = 0; tool < 3; ++tool) {
        char const* name = tool == 2 ? "visit" : tool ? "fast verify" : "normal verify"; u64 total = 0;
        std::size_t buf = tool == 1 ? (std::size_t)(db.buckets + 4) * db.k.block_size * (r.chance(1, 2) ? 1 : 4) / (r.chance(1, 2) ? 1 : 3) : 0;
        std::vector<long> ats{-1}; for(long a = 0; a < 12; ++a) ats.push_back(a);
        for(std::size_t a = 0; a < ats.size(); ++a) {
            ip::ncalls = 0; ip::failed = nullptr; ip::fail_at = ats[a]; ip::fail_errno = r.pick({EIO, ENOMEM, EACCES, EBADF, EISDIR, EINVAL, ENXIO, EOVERFLOW}); calls.clear(); beat();
            current().set(fmt("case=%llu %s, failing system call %ld: %s %s", (unsigned long long)idx, name, ats[a], m.shape.c_str(), m.c.str().c_str()));
            error_code ec; std::size_t seen = 0; std::string wrong;
            { Under u;
              if(tool == 2) nudb::visit(D, [&](void const* k, std::size_t ks, void const* v, std::size_t vs, error_code&) {
                    if(seen >= db.recs.size()) { wrong = "more records than there are"; return; }
                    auto& x = db.recs[seen++]; if(x.key != std::string((char const*)k, ks) || x.size != vs || bytes((u8 const*)v, (u8 const*)v + vs) != m.dat().get(x.off + 6 + ks, vs)) wrong = fmt("record %zu differs", seen - 1); }, [](u64, u64) {}, ec);
              else { nudb::verify_info i; nudb::verify<vhasher>(i, D, K, buf, [](u64, u64) {}, ec); } }
            CHECK(bad.empty(), "%s", bad.c_str()); CHECK(fds.empty(), "%s left %zu descriptors open", name, fds.size()); CHECK(wrong.empty(), "%s: %s", name, wrong.c_str());
            for(auto& c : calls) CHECK(strcmp(c.name, "pwrite") && strcmp(c.name, "ftruncate") && strcmp(c.name, "unlink"), "%s made a modifying call (%s)", name, c.name);
            if(!ip::failed) { CHECK(!ec, "%s of a valid database: '%s'", name, ec.message().c_str()); CHECK(tool != 2 || seen == db.recs.size(), "visit: %zu of %zu records", seen, db.recs.size()); }
            else { CHECK(ec.value() == ip::fail_errno && (ec.category() == boost::system::system_category() || ec.category() == boost::system::generic_category()), "%s: system call %ld (%s) failed with errno %d, reported '%s' (%d)", name, ats[a], ip::failed, ip::fail_errno, ec.message().c_str(), ec.value());
                stats().eval(); stats().add(std::string("failures_of_") + ip::failed); stats().add(std::string("failures_in_") + name); stats().nontrivial(mix2(mix2(seed, tool), ats[a])); }
            if(a == 0) { total = ip::ncalls; CHECK(!ip::failed, "?"); for(int j = 0; j < 12; ++j) if(total) ats.push_back((long)r.below(total)); }
        }
    }
    sim::Blob x; CHECK(get_file(D, x) && x == m.dat() && get_file(K, x) && x == m.key(), "verify or visit modified a file");
}
static void one(u64 seed, u64 idx) {
    u64 a = ip::n_split, b = ip::n_eintr, c = ip::n_calls;
    if(opt().mode == "db") db_case(seed, idx); else if(opt().mode == "tools") tools_case(seed, idx); else file_case(seed, idx);
    stats().add("calls_split", ip::n_split - a); stats().add("calls_interrupted", ip::n_eintr - b); stats().add("system_calls_seen", ip::n_calls - c);
}
int main(int argc, char** argv) { return run_main(argc, argv, one); }
