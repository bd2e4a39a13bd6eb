// Arbitrary file contents given to open, recover, verify, visit and rekey (C20),
// meant to be built with address and undefined-behaviour sanitizers.
#include "dbgen.hpp"
#include "alloc.hpp"
#include <dirent.h>
using namespace vf;
using sim::Blob; using sim::Image;

static std::string F(char const* n) { return scratch_dir() + n; }

static u64 spicy(Rng& r, u64 v, u64 limit) {
    switch(r.below(14)) {
    case 0: return 0; case 1: return 1; case 2: return v + 1; case 3: return v - 1; case 4: return v ^ (1ull << r.below(48)); case 5: return 0xffff; case 6: return 0xffffffffull; case 7: return 0x100000000ull;
    case 8: return 0xffffffffffffull; case 9: return ~0ull; case 10: return limit; case 11: return limit - 1 - r.below(20); case 12: return r.below(limit + 10); default: return r.next() >> r.below(64);
    }
}
static void poke(Blob& b, u64 off, int n, u64 v) { if(off + n > b.size()) return; u8 t[8]; set_be(t, v, n); b.write(off, t, n); }
static u64 peek(Blob const& b, u64 off, int n) { bytes t = b.get(off, n); return be(t.data(), n); }

// One structural mutation
static std::string mutate(Rng& r, Image& im, Made const& m) {
    Blob& d = im[DP]; Blob& k = im[KP]; bool has_log = im.count(LP); 
    u64 bs = std::max<u64>(1, peek(k, 44, 2)); if(k.size() < 48) bs = m.c.block_size;
    switch(r.below(20)) {
    case 0: { struct { u64 o; int n; } f[] = {{0, 8}, {8, 2}, {10, 8}, {18, 8}, {26, 2}}; auto x = f[r.below(5)]; poke(d, x.o, x.n, spicy(r, peek(d, x.o, x.n), d.size())); return "dat header"; }
    case 1: case 2: { struct { u64 o; int n; } f[] = {{0, 8}, {8, 2}, {10, 8}, {18, 8}, {26, 2}, {28, 8}, {36, 8}, {44, 2}, {46, 2}, {44, 2}, {26, 2}}; auto x = f[r.below(11)]; poke(k, x.o, x.n, spicy(r, peek(k, x.o, x.n), k.size())); return "key header"; }
    case 3: case 4: if(has_log) { Blob& l = im[LP]; struct { u64 o; int n; } f[] = {{0, 8}, {8, 2}, {10, 8}, {18, 8}, {26, 2}, {28, 8}, {36, 8}, {44, 2}, {46, 8}, {54, 8}, {46, 8}, {54, 8}}; auto x = f[r.below(12)]; poke(l, x.o, x.n, spicy(r, peek(l, x.o, x.n), x.o == 46 ? k.size() : d.size())); return "log header"; } return "";
    case 5: case 6: case 7: if(has_log && im[LP].size() > LOG_HDR + 16) {   // a log record
        Blob& l = im[LP]; u64 p = LOG_HDR, stop = r.below(6);
        while(stop-- && p + 16 + 18 * peek(l, p + 8, 2) < l.size()) p += 16 + 18 * peek(l, p + 8, 2);
        switch(r.below(3)) { case 0: poke(l, p, 8, spicy(r, peek(l, p, 8), k.size() / bs)); return "log index"; case 1: poke(l, p + 8, 2, spicy(r, peek(l, p + 8, 2), 40)); return "log count"; default: poke(l, p + 10, 6, spicy(r, peek(l, p + 10, 6), d.size())); return "log spill"; } } return "";
    case 8: case 9: { u64 nb = k.size() / bs; if(nb < 2) return ""; u64 at = r.range(1, nb - 1) * bs;
        switch(r.below(3)) { case 0: poke(k, at, 2, spicy(r, peek(k, at, 2), 20)); return "bucket count"; case 1: poke(k, at + 2, 6, spicy(r, peek(k, at + 2, 6), d.size())); return "bucket spill"; default: { u64 e = at + 8 + 18 * r.below(4) + 6 * r.below(3); poke(k, e, 6, spicy(r, peek(k, e, 6), d.size())); return "bucket entry"; } } }
    case 10: case 11: case 12: { Db x = Db::parse_dat_only(d);
        if(r.chance(1, 2) && !x.spills.empty()) { auto it = x.spills.begin(); std::advance(it, r.below(x.spills.size())); u64 b = it->second.bucket_off;
            switch(r.below(4)) { case 0: poke(d, b - 2, 2, spicy(r, peek(d, b - 2, 2), 2000)); return "spill size"; case 1: poke(d, b, 2, spicy(r, peek(d, b, 2), 40)); return "spill count"; case 2: poke(d, b + 2, 6, r.chance(1, 2) ? b : spicy(r, peek(d, b + 2, 6), d.size())); return "spill of spill"; default: poke(d, b - 8, 6, spicy(r, 0, d.size())); return "spill mark"; } }
        if(!x.recs.empty()) { auto& q = x.recs[r.below(x.recs.size())]; poke(d, q.off, 6, spicy(r, q.size, d.size() - q.off)); return "record size"; } return ""; }
    case 13: { std::string w = r.pick({DP, KP, LP}); if(!im.count(w)) return ""; im[w].trunc(r.chance(1, 2) ? r.below(im[w].size() + 1) : std::min<u64>(im[w].size(), r.below(200))); return "truncated " + w.substr(6); }
    case 14: { std::string w = r.pick({DP, KP, LP}); if(!im.count(w)) return ""; bytes j(r.range(1, 600)); r.fill(j.data(), j.size()); if(r.chance(1, 2)) std::fill(j.begin(), j.end(), r.pick({0, 255})); im[w].write(im[w].size(), j.data(), j.size()); return "extended " + w.substr(6); }
    case 15: { std::string w = r.pick({DP, KP, LP}); if(!im.count(w) || !im[w].size()) return ""; for(int n = (int)r.range(1, 8); n; --n) { u8 c = (u8)r.next(); im[w].write(r.below(im[w].size()), &c, 1); } return "random bytes " + w.substr(6); }
    case 16: { auto a = r.pick({DP, KP, LP}), b = r.pick({DP, KP, LP}); Blob x = im.count(a) ? im[a] : Blob{}; im[b] = x; return "file copied over another"; }
    case 17: { std::string w = r.pick({DP, KP, LP}); bytes j(r.below(3000)); r.fill(j.data(), j.size()); Blob b; if(j.size()) b.write(0, j.data(), j.size()); im[w] = b; return "random file"; }
    case 18: { // splice a valid header of one file in front of garbage
        std::string w = r.pick({DP, KP}); u64 h = w == DP ? DAT_HDR : bs; bytes j(r.range(1, 3000)); r.fill(j.data(), j.size()); if(r.chance(1, 3)) for(auto& c : j) if(c > 8) c = 0; im[w].trunc(std::min(im[w].size(), h)); im[w].write(h, j.data(), j.size()); return "garbage body"; }
    default: { // a log made for this database with arbitrary records
        bytes h = k.get(0, KEY_HDR); bytes l; l.insert(l.end(), "nudb.log", "nudb.log" + 8); l.insert(l.end(), h.begin() + 8, h.begin() + 28); l.insert(l.end(), h.begin() + 28, h.begin() + 46);
        put_be(l, r.chance(1, 2) ? k.size() : spicy(r, k.size(), k.size()), 8); put_be(l, r.chance(1, 2) ? d.size() : spicy(r, d.size(), d.size()), 8);
        for(int n = (int)r.below(6); n; --n) { put_be(l, r.chance(1, 2) ? r.below(k.size() / bs + 2) : spicy(r, 0, k.size() / bs), 8); u64 c = r.chance(1, 2) ? r.below(8) : r.next() & 0xffff; put_be(l, c & 0xffff, 2); put_be(l, r.chance(1, 2) ? 0 : spicy(r, 0, d.size()) & 0xffffffffffffull, 6); bytes e(18 * std::min<u64>(c, 40)); r.fill(e.data(), e.size()); l.insert(l.end(), e.begin(), e.end()); }
        Blob b; b.write(0, l.data(), l.size()); im[LP] = b; return "made-up log"; }
    }
}

// Sizes the files may claim without anything being out of proportion
static long budget(Image const& im, u64 extra) {
    u64 s = 0; for(auto& e : im) s += e.second.size();
    // read buffers are 1024 blocks of at most 64 KiB; several may be live
    return (long)(4 * (1024ull * 65536 + 65536) + 8 * s + extra + (8u << 20));
}
template<class F> static void op(char const* name, Image const& im, u64 extra, F&& f) {
    beat();
    Alloc::reset(); long l0 = Alloc::live();
    error_code ec; bool threw = false; std::string ex;
    try { f(ec); } catch(Violation&) { throw; } catch(HarnessError&) { throw; } catch(std::exception& e) { threw = true; ex = e.what(); }
    stats().add(std::string(name) + (threw ? " threw" : ec ? " error" : " ok")); stats().eval();
    CHECK(!threw, "%s threw '%s' (largest allocation requested %ld)", name, ex.c_str(), Alloc::largest().load());
    long used = Alloc::peak() - l0, lim = budget(im, extra);
    CHECK(used <= lim && Alloc::largest() <= lim, "%s allocated %ld bytes at once, %ld in total; the files have %ld bytes", name, Alloc::largest().load(), used, (lim - 4 * (1024l * 65536 + 65536)) / 8);
    stats().peak("peak_allocation", (u64)used);
    if(ec) stats().nontrivial(fnvs(std::string(name) + ec.message() + current().get().substr(current().get().find("::"))));
}

static void one(u64 seed, u64 idx) {
    Rng r(seed);
    Made m0 = make_db(r, idx % 10 == 0 ? 400 : 60, r.chance(1, 2), idx % 15 == 0 ? 65535 : 600);
    if(m0.c.valmode == 4) stats().add("large_values");
    for(int j = 0; j < 12; ++j) {
        Image im = m0.im; std::string what;
        if(!im.count(LP) && r.chance(1, 4)) { im[LP] = Blob{}; }
        for(int n = (int)r.range(1, r.chance(1, 3) ? 4 : 2); n; --n) { auto w = mutate(r, im, m0); if(!w.empty()) what += (what.empty() ? "" : "+") + w; }
        // keep claimed sizes testable: no giant sparse files
        for(auto& e : im) if(e.second.size() > (64u << 20)) e.second.trunc(64u << 20);
        std::string tag = fmt("mode=hostile case=%llu/%d %s bs=%llu ::%s", (unsigned long long)idx, j, m0.shape.c_str(), (unsigned long long)m0.c.block_size, what.c_str());
        auto set = [&](char const* o) { current().set(tag + " " + o); };
        stats().add("mutation: " + (what.find('+') == std::string::npos ? what : "several"));
        // open
        for(int with = 0; with < 2; ++with) {
            Image t = im; if(!with) t.erase(LP); else if(!t.count(LP)) continue;
            sim::Fs fs(t); sim::Use u(fs); nudb::context ctx; nudb::basic_store<vhasher, sim::file> s(ctx);
            set("open"); op("open", t, 64u << 20, [&](error_code& ec) {
                Args<sim::file>::open(s, DP, KP, LP, ec);
                CHECK(s.is_open() == !ec, "open: is_open disagrees with the error code '%s'", ec.message().c_str());
                if(ec && !with) CHECK(fs.image().at(DP) == t.at(DP), "failed open changed the data file");
                if(!ec) { set("close"); s.close(ec); } });
            CHECK(fs.handles == 0, "%ld files left open", (long)fs.handles.load());
            if(t.count(DP) && fs.image().count(DP)) {}
        }
        { sim::Fs fs(im); sim::Use u(fs); set("recover"); op("recover", im, 0, [&](error_code& ec) { Args<sim::file>::recover(DP, KP, LP, ec); }); CHECK(fs.handles == 0, "files left open"); }
        { Image t = im; if(r.chance(3, 4)) { t.erase(KP); t.erase(LP); } sim::Fs fs(t); sim::Use u(fs); u64 bs = r.range(104, 300), items = r.range(1, 200), buf = r.below(4000); set("rekey"); 
          op("rekey", t, (items + 2) * bs * 4 + buf * 4, [&](error_code& ec) { Args<sim::file>::rekey(DP, KP, LP, bs, 0.5f, items, buf, ec, [](u64, u64) {}); }); CHECK(fs.handles == 0, "files left open"); }
        if(j % 2 == 0 || what.find("spill") != std::string::npos || what.find("bucket") != std::string::npos) {
            put_file(F("h.dat"), im.count(DP) ? im[DP] : Blob{}); put_file(F("h.key"), im.count(KP) ? im[KP] : Blob{});
            u64 kbs = std::max<u64>(1, m0.c.block_size);
            for(std::size_t b : {std::size_t(0), std::size_t(2 * kbs + 8 + r.below(5 * kbs)), std::size_t(1) << 26}) {
                set(fmt("verify buffer=%zu", b).c_str());
                op("verify", im, b * 2, [&](error_code& ec) { nudb::verify_info i; nudb::verify<vhasher>(i, F("h.dat"), F("h.key"), b, [](u64, u64) {}, ec); });
            }
            set("visit"); op("visit", im, 0, [&](error_code& ec) { u64 sum = 0; nudb::visit(F("h.dat"), [&](void const* k, std::size_t ks, void const* v, std::size_t vs, error_code&) { sum += fnv(k, ks) + fnv(v, vs); }, [](u64, u64) {}, ec); static volatile u64 sink; sink = sum; });
        }
        stats().sample(what, 6);
    }
}
int main(int argc, char** argv) { return run_main(argc, argv, one, 30); }
