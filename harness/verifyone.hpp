// One run of verify on a valid database, every figure compared with an independent count
#pragma once
#include "dbgen.hpp"
namespace vf {
inline bool near(double a, double b) { return std::fabs(a - b) <= 2e-4 * std::max(1.0, std::fabs(b)); }

inline int verify_one(std::string const& D, std::string const& K, std::string const& what, Db& db, std::size_t buf, double avg) {
    nudb::verify_info i; std::memset((void*)&i.algorithm, 0x5a, sizeof i.algorithm);
    error_code ec; u64 calls = 0;
    beat();
    nudb::verify<vhasher>(i, D, K, buf, [&](u64, u64) { ++calls; }, ec);
    char const* al = i.algorithm == 0 ? "normal" : i.algorithm == 1 ? "fast" : "?";
    CHECK(!ec, "verify (%s, buffer %zu) of a valid database (%s) reported '%s'", al, buf, what.c_str(), ec.message().c_str());
    CHECK(i.algorithm == 0 || i.algorithm == 1, "verify did not set the algorithm");
    stats().add(std::string("verify_runs_") + al); stats().eval();
#define EQ(f, want) CHECK((u64)i.f == (u64)(want), "verify (%s, buffer %zu): " #f " is %llu, independent count gives %llu (%s)", al, buf, (unsigned long long)i.f, (unsigned long long)(want), what.c_str())
    EQ(version, 2); EQ(uid, db.d.uid); EQ(appnum, db.d.appnum); EQ(key_size, db.d.key_size); EQ(salt, db.k.salt); EQ(pepper, db.k.pepper);
    EQ(block_size, db.k.block_size); EQ(capacity, db.capacity); EQ(buckets, db.buckets); EQ(bucket_size, 8 + 18 * db.capacity);
    EQ(key_file_size, db.key_size_bytes); EQ(dat_file_size, db.dat_size); EQ(key_count, db.key_count); EQ(value_count, db.recs.size()); EQ(value_bytes, db.value_bytes);
    EQ(spill_count, db.spill_live); EQ(spill_count_tot, db.spills.size());
    EQ(spill_bytes, db.spill_live_bytes); EQ(spill_bytes_tot, db.spill_tot_bytes);
    u64 hist[10] = {0}; for(auto c : db.chain) ++hist[std::min<u64>(c, 9)];
    for(int h = 0; h < 10; ++h) EQ(hist[h], hist[h]);
    CHECK(i.dat_path == D && i.key_path == K, "verify reports other paths");
    CHECK(near(i.load_factor, db.k.load_factor / 65536.0), "load_factor %g", i.load_factor);
    CHECK(near(i.actual_load, (double)db.key_count / ((double)db.capacity * db.buckets)), "verify (%s): actual_load %g, expected %g", al, i.actual_load, (double)db.key_count / ((double)db.capacity * db.buckets));
    CHECK(near(i.waste, (db.spill_tot_bytes - db.spill_live_bytes) / (double)db.dat_size), "verify (%s): waste %g, expected %g", al, i.waste, (db.spill_tot_bytes - db.spill_live_bytes) / (double)db.dat_size);
    double ov = db.recs.empty() ? 0 : (double)(db.key_size_bytes + db.dat_size) / (double)(db.value_bytes + db.key_count * (db.d.key_size + 6)) - 1;
    CHECK(near(i.overhead, ov), "verify (%s): overhead %g, expected %g", al, i.overhead, ov);
    CHECK(near(i.avg_fetch, avg), "verify (%s): avg_fetch %g, expected %g", al, i.avg_fetch, avg);
    return i.algorithm;
}
#undef EQ
} // vf
