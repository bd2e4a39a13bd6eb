// An in-memory file system usable as nudb's File type.
#pragma once
#ifndef VF_FS_CALL
#define VF_FS_CALL      // at the start of every file operation
#endif
#ifndef VF_FS_QUIET
#define VF_FS_QUIET
#endif
#include "common.hpp"
#include <nudb/file.hpp>
#include <nudb/error.hpp>
#include <nudb/concepts.hpp>
#include <boost/system/system_error.hpp>

namespace sim {
using namespace vf;
using nudb::file_mode; using nudb::path_type; using nudb::error_code;

// Copy-on-write sparse byte array
class Blob {
    static constexpr u64 C = 8192;
    using chunk = std::array<u8, C>;
    std::map<u64, std::shared_ptr<chunk>> c_;
    u64 size_ = 0;
    chunk& mut(u64 i) {
        auto& p = c_[i];
        if(!p) { p = std::make_shared<chunk>(); p->fill(0); }
        else if(p.use_count() > 1) p = std::make_shared<chunk>(*p);
        return *p;
    }
public:
    u64 size() const { return size_; }
    std::vector<u64> extents() const { std::vector<u64> v; for(auto& e : c_) v.push_back(e.first * C); return v; }   // offsets of chunks of 8192 bytes that may be non-zero
    static constexpr u64 chunk_size = C;
    void read(u64 off, void* dst, u64 n) const {   // zero beyond the end
        u8* d = (u8*)dst;
        while(n) {
            u64 i = off / C, o = off % C, k = std::min(n, C - o);
            auto it = c_.find(i);
            if(it == c_.end()) std::memset(d, 0, k); else std::memcpy(d, it->second->data() + o, k);
            d += k; off += k; n -= k;
        }
    }
    void write(u64 off, void const* src, u64 n) {
        auto s = (u8 const*)src;
        if(off + n > size_) size_ = off + n;
        while(n) {
            u64 i = off / C, o = off % C, k = std::min(n, C - o);
            if(k < 64 || s[0] || s[k - 1] || std::memcmp(s, s + 1, k - 1) || c_.count(i)) std::memcpy(mut(i).data() + o, s, k);   // no chunk for zeros
            s += k; off += k; n -= k;
        }
    }
    void trunc(u64 n) {
        if(n < size_) {
            u64 i = n / C, o = n % C;
            c_.erase(o ? c_.upper_bound(i) : c_.lower_bound(i), c_.end());
            if(o && c_.count(i)) { auto& m = mut(i); std::memset(m.data() + o, 0, C - o); }
        }
        size_ = n;
    }
    // true if the range certainly holds only zeros
    bool hole(u64 off, u64 n) const { if(!n) return true; auto it = c_.lower_bound(off / C); return it == c_.end() || it->first > (off + n - 1) / C; }
    bytes get(u64 off, u64 n) const { bytes b(n); if(n) read(off, b.data(), n); return b; }
    bytes all() const { return get(0, size_); }
    u64 allocated() const { return c_.size() * C; }
    bool same(Blob const& o, u64 off, u64 n) const {   // compare a range
        std::vector<u8> a(65536), b(65536);
        while(n) {
            u64 k = std::min<u64>(n, 65536);
            u64 i0 = off / C, i1 = (off + k - 1) / C; bool shared = true;
            for(u64 i = i0; i <= i1 && shared; ++i) {
                auto x = c_.find(i), y = o.c_.find(i);
                bool xe = x == c_.end(), ye = y == o.c_.end();
                if(xe && ye) continue;
                if(xe || ye || x->second != y->second) shared = false;
            }
            if(!shared) {
                read(off, a.data(), k); o.read(off, b.data(), k);
                if(std::memcmp(a.data(), b.data(), k)) return false;
            }
            off += k; n -= k;
        }
        return true;
    }
    bool operator==(Blob const& o) const {
        if(size_ != o.size_) return false;
        static const chunk zero{};
        auto x = c_.begin(); auto y = o.c_.begin();
        while(x != c_.end() || y != o.c_.end()) {
            bool ax = x != c_.end() && (y == o.c_.end() || x->first <= y->first), ay = y != o.c_.end() && (x == c_.end() || y->first <= x->first);
            chunk const& a = ax ? *x->second : zero; chunk const& b = ay ? *y->second : zero;
            if(&a != &b && a != b) return false;
            if(ax) ++x;
            if(ay) ++y;
        }
        return true;
    }
    bool operator!=(Blob const& o) const { return !(*this == o); }
};

enum class K { create, open, close, erase, size, read, write, sync, trunc };
inline char const* kname(K k) { static char const* n[] = {"create","open","close","erase","size","read","write","sync","trunc"}; return n[(int)k]; }
inline bool mutating(K k) { return k == K::create || k == K::erase || k == K::write || k == K::sync || k == K::trunc; }

struct Op {
    K k; std::string path; u64 off = 0; u64 len = 0;   // trunc: len is the new size
    std::shared_ptr<bytes> data;                       // write
    bool failed = false;                               // reported an error
    u64 mark = 0;                                      // harness defined, e.g. commit number
};
struct Fault {
    bool fail = false;
    nudb::error_code ec;
    u64 partial = 0;        // bytes actually transferred by a failing write
    bool after = false;     // take full effect, then report the error
};

using Image = std::map<std::string, Blob>;

inline error_code posix_err(int e) { return error_code{e, boost::system::generic_category()}; }

class Fs {
public:
    struct Node { Blob b; };
    std::mutex m;
    std::map<std::string, std::shared_ptr<Node>> names;
    bool recording = false;
    std::vector<Op> log;                        // mutating operations, when recording
    std::atomic<u64> count[9];
    std::atomic<u64> nops{0};
    std::atomic<u64> mark{0};
    std::atomic<u64> untokened{0};              // files built without the caller's arguments
    std::atomic<u64> handles{0};
    bool strict_append = true;
    std::function<Fault(Op const&)> inject;     // under m
    std::function<void(Op const&)> monitor;     // under m, after the operation took effect
    void tell(Op const& o) { if(monitor) try { monitor(o); } catch(Violation& v) { die_violation(v.what()); } }   // not through the code under test
    std::function<void(Op const&)> pause;       // not under m, before the operation
    std::function<void(Op const&)> after;       // not under m, after the operation
    std::set<std::string> touched;

    Fs() { for(auto& c : count) c = 0; }
    explicit Fs(Image const& i) : Fs() { load(i); }
    void load(Image const& i) { names.clear(); for(auto& e : i) { auto n = std::make_shared<Node>(); n->b = e.second; names[e.first] = n; } }
    Image image() { std::lock_guard<std::mutex> l(m); Image i; for(auto& e : names) i[e.first] = e.second->b; return i; }
    bool exists(std::string const& p) { std::lock_guard<std::mutex> l(m); return names.count(p) != 0; }
};

inline Fs*& g() { static Fs* p = nullptr; return p; }
struct Use { Fs* old; explicit Use(Fs& f) : old(g()) { g() = &f; } ~Use() { g() = old; } };

// Constructor argument, to see that arguments are forwarded
struct Tok { Fs* fs; };

class file {
    Fs* fs_ = nullptr;
    std::shared_ptr<Fs::Node> n_;
    std::string path_;
    file_mode mode_ = file_mode::scan;

    // Returns true if the operation must not take (more) effect; ec set.
    template<class F>
    static void perform(Fs& fs, Op& op, error_code& ec, F&& effect) {
        if(fs.pause) fs.pause(op);
        {
            VF_FS_QUIET
            std::lock_guard<std::mutex> l(fs.m);
            ++fs.count[(int)op.k]; ++fs.nops;
            op.mark = fs.mark;
            Fault f;
            if(fs.inject) f = fs.inject(op);
            if(f.fail && !f.after) {
                op.failed = true;
                if(op.k == K::write && f.partial) {
                    Op p = op; p.len = std::min(f.partial, op.len); p.data = std::make_shared<bytes>(op.data->begin(), op.data->begin() + p.len);
                    error_code e2; effect(p, e2);
                    if(fs.recording) fs.log.push_back(p);
                    fs.tell(p);
                } else if(op.k != K::write) fs.tell(op);
                ec = f.ec;
            } else {
                error_code e2; effect(op, e2);
                if(e2) { op.failed = true; ec = e2; }
                else {
                    if(fs.recording && mutating(op.k)) fs.log.push_back(op);
                }
                fs.tell(op);
                if(f.fail) { op.failed = true; ec = f.ec; }
            }
        }
        if(fs.after) fs.after(op);
    }
    Fs& fs() const { if(!fs_ ) throw HarnessError("file used without file system"); return *fs_; }
    void usage(bool ok, char const* what) const { if(!ok) { fprintf(stderr, "File requirement violated: %s on %s\n", what, path_.c_str()); abort(); } }
public:
    file() : fs_(g()) { if(fs_) ++fs_->untokened; }
    explicit file(Tok t) : fs_(t.fs) {}
    file(file const&) = delete; file& operator=(file const&) = delete;
    file(file&& o) : fs_(o.fs_), n_(std::move(o.n_)), path_(std::move(o.path_)), mode_(o.mode_) { o.n_.reset(); }
    file& operator=(file&& o) { if(this != &o) { close(); fs_ = o.fs_; n_ = std::move(o.n_); o.n_.reset(); path_ = std::move(o.path_); mode_ = o.mode_; } return *this; }
    ~file() { close(); }
    bool is_open() const { return !!n_; }
    void close() { if(n_) { n_.reset(); --fs_->handles; ++fs_->count[(int)K::close]; } }
    void create(file_mode mode, path_type const& path, error_code& ec) {
        VF_FS_CALL
        usage(!n_, "create while open");
        Op op{K::create, path};
        perform(fs(), op, ec, [&](Op&, error_code& e) {
            fs().touched.insert(path);
            if(fs().names.count(path)) { e = posix_err(EEXIST); return; }
            n_ = std::make_shared<Fs::Node>(); fs().names[path] = n_; path_ = path; mode_ = mode; ++fs().handles;
        });
        if(op.failed && n_) { n_.reset(); --fs().handles; }   // created, but reported as failed
    }
    void open(file_mode mode, path_type const& path, error_code& ec) {
        VF_FS_CALL
        usage(!n_, "open while open");
        Op op{K::open, path};
        perform(fs(), op, ec, [&](Op&, error_code& e) {
            fs().touched.insert(path);
            auto it = fs().names.find(path);
            if(it == fs().names.end()) { e = posix_err(ENOENT); return; }
            n_ = it->second; path_ = path; mode_ = mode; ++fs().handles;
        });
        if(op.failed && n_) { n_.reset(); --fs().handles; }
    }
    static void erase(path_type const& path, error_code& ec) {
        VF_FS_CALL
        Fs* f = g(); if(!f) throw HarnessError("erase without file system");
        Op op{K::erase, path};
        perform(*f, op, ec, [&](Op&, error_code& e) {
            f->touched.insert(path);
            if(!f->names.erase(path)) e = posix_err(ENOENT);
        });
    }
    u64 size(error_code& ec) const {
        VF_FS_CALL
        usage(!!n_, "size of closed file");
        Op op{K::size, path_}; u64 r = 0;
        perform(fs(), op, ec, [&](Op&, error_code&) { r = n_->b.size(); });
        return op.failed ? 0 : r;
    }
    void read(u64 off, void* buf, std::size_t n, error_code& ec) {
        VF_FS_CALL
        usage(!!n_, "read from closed file");
        Op op{K::read, path_, off, n};
        perform(fs(), op, ec, [&](Op&, error_code& e) {
            u64 s = n_->b.size();
            if(off > s || n > s - off) {
                if(off < s) n_->b.read(off, buf, s - off);
                e = nudb::make_error_code(nudb::error::short_read); return;
            }
            n_->b.read(off, buf, n);
        });
    }
    void write(u64 off, void const* buf, std::size_t n, error_code& ec) {
        VF_FS_CALL
        usage(!!n_, "write to closed file");
        usage(mode_ == file_mode::append || mode_ == file_mode::write, "write to read-only file");
        Op op{K::write, path_, off, n, std::make_shared<bytes>((u8 const*)buf, (u8 const*)buf + n)};
        perform(fs(), op, ec, [&](Op& o, error_code&) {
            // As on POSIX: in append mode data goes to the end whatever the offset
            usage(mode_ != file_mode::append || o.off == n_->b.size(), "write not at the end in append mode");
            if(mode_ == file_mode::append) o.off = n_->b.size();
            n_->b.write(o.off, o.data->data(), o.len);
        });
    }
    void sync(error_code& ec) {
        VF_FS_CALL
        usage(!!n_, "sync of closed file");
        Op op{K::sync, path_};
        perform(fs(), op, ec, [&](Op&, error_code&) {});
    }
    void trunc(u64 len, error_code& ec) {
        VF_FS_CALL
        usage(!!n_, "trunc of closed file");
        usage(mode_ == file_mode::append || mode_ == file_mode::write, "trunc of read-only file");
        Op op{K::trunc, path_, 0, len};
        perform(fs(), op, ec, [&](Op& o, error_code&) { n_->b.trunc(o.len); });
    }
};
static_assert(nudb::is_File<file>::value, "");

//------------------------------------------------------------------------------
// Crash images

inline void apply(Image& im, Op const& o) {
    switch(o.k) {
    case K::create: im[o.path] = Blob{}; break;
    case K::erase: im.erase(o.path); break;
    case K::write: { auto it = im.find(o.path); if(it != im.end()) it->second.write(o.off, o.data->data(), o.len); break; }
    case K::trunc: { auto it = im.find(o.path); if(it != im.end()) it->second.trunc(o.len); break; }
    default: break;
    }
}
inline void apply_torn(Image& im, Op const& o, u64 n) {
    auto it = im.find(o.path);
    if(o.k == K::write && it != im.end()) it->second.write(o.off, o.data->data(), std::min<u64>(n, o.len));
}

// Tracks what is on stable storage. Names (create, erase) are taken as durable
// at once and in order; file contents are durable when synchronised.
class Durable {
    struct F { Blob d; std::vector<Op> pend; };
    std::map<std::string, F> f_;
public:
    Durable() = default;
    explicit Durable(Image const& im) { for(auto& e : im) f_[e.first].d = e.second; }
    void on(Op const& o) {
        switch(o.k) {
        case K::create: f_[o.path] = F{}; break;
        case K::erase: f_.erase(o.path); break;
        case K::write: case K::trunc: { auto it = f_.find(o.path); if(it != f_.end()) it->second.pend.push_back(o); break; }
        case K::sync: { auto it = f_.find(o.path); if(it != f_.end()) { for(auto& p : it->second.pend) put(it->second.d, p); it->second.pend.clear(); } break; }
        default: break;
        }
    }
    static void put(Blob& b, Op const& o) { if(o.k == K::write) b.write(o.off, o.data->data(), o.len); else if(o.k == K::trunc) b.trunc(o.len); }
    std::size_t pending(std::string const& p) const { auto it = f_.find(p); return it == f_.end() ? 0 : it->second.pend.size(); }
    std::size_t pending() const { std::size_t n = 0; for(auto& e : f_) n += e.second.pend.size(); return n; }
    Blob const* durable(std::string const& p) const { auto it = f_.find(p); return it == f_.end() ? nullptr : &it->second.d; }
    // A disk after power loss. Files in `any` lose arbitrary subsets of their
    // unsynchronised operations (with 512-byte tearing); others lose a suffix.
    // mode 0: random, 1: everything pending lost, 2: everything kept
    Image lose(Rng& r, std::set<std::string> const& any, int mode = 0) const {
        Image im;
        for(auto& e : f_) {
            Blob b = e.second.d;
            auto const& pd = e.second.pend;
            if(mode == 2) for(auto& p : pd) put(b, p);
            else if(mode == 0 && !pd.empty()) {
                if(any.count(e.first)) {
                    unsigned dens = (unsigned)r.below(5);   // 0..4 quarters kept
                    for(auto& p : pd) {
                        if(p.k == K::write && r.chance(1, 4)) {     // torn at sector granularity
                            for(u64 s = 0; s < p.len; s += 512)
                                if(r.chance(1, 2)) b.write(p.off + s, p.data->data() + s, std::min<u64>(512, p.len - s));
                        } else if(r.chance(dens, 4)) put(b, p);
                    }
                } else {
                    u64 k = r.below(pd.size() + 1);
                    for(u64 i = 0; i < k; ++i) put(b, pd[i]);
                    if(k < pd.size() && pd[k].k == K::write) b.write(pd[k].off, pd[k].data->data(), r.below(pd[k].len + 1));
                }
            }
            im[e.first] = b;
        }
        return im;
    }
};

} // sim
