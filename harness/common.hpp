// Shared by all harnesses: random numbers, case loop, result reporting.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

namespace vf {

using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using bytes = std::vector<u8>;

inline u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline u64 mix2(u64 a, u64 b) { return mix(mix(a) ^ (b * 0xff51afd7ed558ccdull + 0x1234567)); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(mix(seed)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }   // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template<class T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    // skewed towards small: 0..max
    u64 skew(u64 max) { int b = 1; while((1ull << b) <= max && b < 63) ++b; u64 v = next() & ((1ull << below(b + 1)) - 1); return v > max ? max : v; }
    void fill(void* p, std::size_t n) {
        u8* q = (u8*)p;
        while(n >= 8) { u64 v = next(); std::memcpy(q, &v, 8); q += 8; n -= 8; }
        if(n) { u64 v = next(); std::memcpy(q, &v, n); }
    }
};

struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
// An assumption of the harness failed (not the code under test)
struct HarnessError : std::runtime_error { using std::runtime_error::runtime_error; };

inline std::string vfmt(char const* f, va_list ap) {
    va_list a2; va_copy(a2, ap);
    int n = vsnprintf(nullptr, 0, f, ap);
    std::string s(n, 0); vsnprintf(&s[0], n + 1, f, a2); va_end(a2);
    return s;
}
inline std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(char const* f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s; }
[[noreturn]] inline void violate(char const* f, ...) __attribute__((format(printf, 1, 2)));
// The first violation found. Unwinding from it may hang, as the code under test
// may be in any state: then the watchdog reports it.
struct Pending { std::mutex m; std::string what; std::atomic<bool> set{false}; };
inline Pending& pending_violation() { static Pending p; return p; }
[[noreturn]] inline void violate(char const* f, ...) {
    va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap);
    { auto& p = pending_violation(); std::lock_guard<std::mutex> l(p.m); if(!p.set) { p.what = s; p.set = true; } }
    throw Violation(s);
}
#define CHECK(c, ...) do { if(!(c)) ::vf::violate(__VA_ARGS__); } while(0)
#define HARNESS(c, ...) do { if(!(c)) throw ::vf::HarnessError(::vf::fmt(__VA_ARGS__)); } while(0)

inline std::string hex(void const* p, std::size_t n, std::size_t max = 24) {
    std::string s; auto q = (u8 const*)p;
    for(std::size_t i = 0; i < n && i < max; ++i) { char b[3]; snprintf(b, 3, "%02x", q[i]); s += b; }
    if(n > max) s += fmt("..(%zu)", n);
    return s;
}

inline u64 fnv(void const* p, std::size_t n, u64 h = 1469598103934665603ull) {
    auto q = (u8 const*)p;
    for(std::size_t i = 0; i < n; ++i) { h ^= q[i]; h *= 1099511628211ull; }
    return h;
}
inline u64 fnvs(std::string const& s) { return fnv(s.data(), s.size()); }

inline std::string jstr(std::string const& s) {
    std::string o = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += c; }
        else if(c == '\n') o += "\\n";
        else if(c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

// Collected during a run. Thread safe.
class Stats {
    std::mutex m_;
    std::map<std::string, u64> n_;
    std::map<std::string, u64> max_;
    std::unordered_set<u64> sig_;
    std::vector<std::string> samples_;
    u64 evals_ = 0;
public:
    void eval(u64 n = 1) { std::lock_guard<std::mutex> l(m_); evals_ += n; }
    void add(std::string const& k, u64 n = 1) { std::lock_guard<std::mutex> l(m_); n_[k] += n; }
    void peak(std::string const& k, u64 v) { std::lock_guard<std::mutex> l(m_); auto& x = max_[k]; if(v > x) x = v; }
    // signature of a distinct, non-trivial case
    void nontrivial(u64 s) { std::lock_guard<std::mutex> l(m_); if(sig_.size() < 200000) sig_.insert(s); }
    void sample(std::string const& s, std::size_t cap = 3) { std::lock_guard<std::mutex> l(m_); if(samples_.size() < cap) samples_.push_back(s); }
    u64 evals() { std::lock_guard<std::mutex> l(m_); return evals_; }
    std::string json() {
        std::lock_guard<std::mutex> l(m_);
        std::string o = fmt("{\"evaluations\":%llu,\"counts\":{", (unsigned long long)evals_);
        bool f = true;
        for(auto& e : n_) { if(!f) o += ","; f = false; o += jstr(e.first) + ":" + std::to_string(e.second); }
        o += "},\"peaks\":{"; f = true;
        for(auto& e : max_) { if(!f) o += ","; f = false; o += jstr(e.first) + ":" + std::to_string(e.second); }
        o += "},\"samples\":["; f = true;
        for(auto& e : samples_) { if(!f) o += ","; f = false; o += jstr(e); }
        o += "],\"sigs\":["; f = true;
        for(auto e : sig_) { if(!f) o += ","; f = false; o += "\"" + fmt("%llx", (unsigned long long)e) + "\""; }
        return o + "]}";
    }
};
inline Stats& stats() { static Stats s; return s; }

struct Opt {
    u64 seed = 1; u64 cases = 100; double secs = 60; long only = -1; int worker = 0; int workers = 1;
    std::string mode, out, scratch, tier = "quick";
    std::map<std::string, std::string> kv;
    std::string get(std::string const& k, std::string const& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    long num(std::string const& k, long d) const { auto i = kv.find(k); return i == kv.end() ? d : atol(i->second.c_str()); }
};
inline Opt& opt() { static Opt o; return o; }

// A note that survives abort(): what is running now
class Current {
    char* p_ = nullptr;
    char dummy_[4096];
public:
    std::atomic<u64> beat{0};
    void open(std::string const& path) {
        int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if(fd >= 0 && ftruncate(fd, 4096) == 0) {
            void* q = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if(q != MAP_FAILED) p_ = (char*)q;
        }
        if(fd >= 0) ::close(fd);
        if(!p_) p_ = dummy_;
    }
    void set(std::string const& s) { ++beat; if(!p_) p_ = dummy_; std::size_t n = std::min<std::size_t>(s.size(), 4000); std::memcpy(p_, s.data(), n); p_[n] = 0; }
    std::string get() { return p_ ? std::string(p_) : std::string(); }
};
inline Current& current() { static Current c; return c; }
inline void beat() { ++current().beat; }

inline int case_limit_s(int def) { return (int)opt().num("hang", def); }

// Reports a violation from where no exception can be thrown and ends the process
[[noreturn]] inline void die_violation(std::string const& why) {
    auto& o = opt(); std::string v = current().get() + " | " + why;
    if(!o.out.empty()) if(FILE* f = fopen(o.out.c_str(), "w")) { fprintf(f, "{\"rc\":1,\"violation\":%s,\"stats\":%s}\n", jstr(v).c_str(), stats().json().c_str()); fclose(f); }
    fprintf(stderr, "%s\n", v.c_str()); fflush(stderr); _exit(1);
}

// Runs fn(case seed, index) for each case; returns process exit status.
// 0 ok, 1 violation, 3 harness error. A hang (no beat) exits 4.
inline int run_main(int argc, char** argv, std::function<void(u64, u64)> fn, int hang_s = 120) {
    auto& o = opt();
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]{ return std::string(++i < argc ? argv[i] : ""); };
        if(a == "--seed") o.seed = strtoull(val().c_str(), 0, 0);
        else if(a == "--cases") o.cases = strtoull(val().c_str(), 0, 0);
        else if(a == "--secs") o.secs = atof(val().c_str());
        else if(a == "--only") o.only = atol(val().c_str());
        else if(a == "--worker") o.worker = atoi(val().c_str());
        else if(a == "--workers") o.workers = atoi(val().c_str());
        else if(a == "--mode") o.mode = val();
        else if(a == "--out") o.out = val();
        else if(a == "--scratch") o.scratch = val();
        else if(a == "--tier") o.tier = val();
        else if(a.compare(0, 2, "--") == 0) { auto k = a.substr(2); o.kv[k] = val(); }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    current().open(o.out.empty() ? "/dev/null" : o.out + ".cur");
    std::atomic<bool> done{false};
    hang_s = case_limit_s(hang_s);
    std::thread dog([&]{
        u64 last = ~0ull; int idle = 0, late = 0;
        while(!done) {
            std::this_thread::sleep_for(std::chrono::milliseconds(200));
            auto& p = pending_violation();
            if(p.set && ++late > 100) { std::lock_guard<std::mutex> l(p.m); die_violation(p.what); }
            u64 b = current().beat;
            if(b != last) { last = b; idle = 0; }
            else if(++idle > hang_s * 5) {
                fprintf(stderr, "HANG: no progress for %d s in: %s\n", hang_s, current().get().c_str());
                fflush(stderr);
                if(!opt().get("hangabort").empty()) abort();
                _exit(4);
            }
        }
    });
    int rc = 0; std::string viol; u64 ran = 0;
    auto t0 = std::chrono::steady_clock::now();
    for(u64 i = o.worker; i < o.cases; i += o.workers) {
        if(o.only >= 0) { if((long)i != o.only) continue; }
        else if(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > o.secs) break;
        std::string note = fmt("mode=%s seed=%llu case=%llu", o.mode.c_str(), (unsigned long long)o.seed, (unsigned long long)i);
        current().set(note);
        try { fn(mix2(o.seed, i), i); ++ran; }
        catch(Violation& v) { viol = note + " | " + current().get() + " | " + v.what(); rc = 1; }
        catch(HarnessError& v) { viol = note + " | harness: " + v.what(); rc = 3; }
        catch(std::exception& e) { viol = note + " | " + current().get() + " | exception escaped: " + e.what(); rc = 1; }
        if(rc) break;
    }
    stats().add("cases_run", ran);
    done = true; dog.join();
    if(!o.out.empty()) {
        FILE* f = fopen(o.out.c_str(), "w");
        if(f) {
            fprintf(f, "{\"rc\":%d,\"violation\":%s,\"stats\":%s}\n", rc, jstr(viol).c_str(), stats().json().c_str());
            fclose(f);
        }
    } else fprintf(stderr, "%s\n", stats().json().substr(0, 3000).c_str());
    if(rc) { fprintf(stderr, "%s\n", viol.c_str()); }
    return rc;
}

} // vf
