// C30: identifiers and salts are fresh, uniformly distributed 64-bit values, in
// every thread, process and database.
#include "dbgen.hpp"
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
using namespace vf;
extern char** environ;

struct Pool {
    std::vector<u64> v; u64 sources = 0;
    void add(std::vector<u64> const& x) { v.insert(v.end(), x.begin(), x.end()); ++sources; }
    // No value twice, each bit and each pair of neighbouring bits as often as chance has it.
    // A false alarm has a probability below 1e-8 for 400000 values.
    void judge(std::string const& what) {
        std::vector<u64> s(v); std::sort(s.begin(), s.end()); auto d = std::adjacent_find(s.begin(), s.end());
        if(d != s.end()) { u64 n = 0; for(std::size_t i = 1; i < s.size(); ++i) n += s[i] == s[i - 1]; violate("%s: %llu of %zu values from %llu sources occur more than once, such as %016llx", what.c_str(), (unsigned long long)n, s.size(), (unsigned long long)sources, (unsigned long long)*d); }
        double N = (double)v.size(), lim = 7 * std::sqrt(N) / 2; if(N < 1000) return;
        for(int b = 0; b < 64; ++b) { u64 one = 0, same = 0, step = 0; for(std::size_t i = 0; i < v.size(); ++i) { one += v[i] >> b & 1; same += (v[i] >> b & 1) == (v[i] >> (b + 1) % 64 & 1); if(i) step += (v[i] >> b & 1) == (v[i - 1] >> b & 1); }
            CHECK(std::fabs(one - N / 2) < lim, "%s: bit %d is set in %llu of %zu values", what.c_str(), b, (unsigned long long)one, v.size());
            CHECK(std::fabs(same - N / 2) < lim, "%s: bits %d and %d agree in %llu of %zu values", what.c_str(), b, (b + 1) % 64, (unsigned long long)same, v.size());
            CHECK(std::fabs(step - N / 2) < lim, "%s: bit %d agrees with that of the previous value in %llu of %zu", what.c_str(), b, (unsigned long long)step, v.size()); }
        stats().add("values", v.size()); stats().add("sources", sources);
    }
};
static u64 one_value(bool salt) { return salt ? nudb::make_salt() : nudb::make_uid(); }
static std::vector<u64> draw(u64 n, int mode) { std::vector<u64> r(n); for(u64 i = 0; i < n; ++i) { r[i] = one_value(mode == 2 ? i & 1 : mode == 1); if(i % 4096 == 0) beat(); } return r; }

static void threads_case(u64 seed, u64) {
    Rng r(seed); int mode = (int)r.below(3); unsigned T = (unsigned)r.pick<u64>({1, 1, 2, 4, 8}); u64 n = 400000 / T; Pool p; std::vector<std::vector<u64>> out(T); std::vector<std::thread> t;
    for(unsigned i = 0; i < T; ++i) t.emplace_back([&, i] { out[i] = draw(n, mode); });
    for(auto& x : t) x.join(); for(auto& o : out) p.add(o);
    p.judge(fmt("%s in %u threads", mode == 0 ? "make_uid" : mode == 1 ? "make_salt" : "make_uid and make_salt", T)); stats().eval(); stats().nontrivial(mix2(T, mode)); stats().add("thread_sets");
}
static std::vector<u64> slurp(int fd) { std::vector<u64> v; char buf[1 << 16]; std::string s; ssize_t k; while((k = read(fd, buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR)) if(k > 0) { s.append(buf, k); beat(); } v.resize(s.size() / 8); std::memcpy(v.data(), s.data(), v.size() * 8); return v; }
static void spill_out(int fd, std::vector<u64> const& v) { char const* p = (char const*)v.data(); std::size_t n = v.size() * 8; while(n) { ssize_t k = write(fd, p, n); if(k < 0 && errno == EINTR) continue; if(k <= 0) _exit(9); p += k; n -= k; } }
// Children made by fork, or programs started at the same time
static void process_case(u64 seed, u64 idx) {
    Rng r(seed); bool forked = idx % 2; int mode = (int)r.below(3); u64 procs = r.pick<u64>({2, 8, 16, 40}), n = forked ? 160000 / procs : 20; Pool p; if(r.chance(2, 3)) p.add(draw(r.range(1, 500), mode));
    std::vector<std::pair<pid_t, int>> kids;
    for(u64 i = 0; i < procs; ++i) {
        int fd[2]; HARNESS(pipe(fd) == 0, "pipe"); pid_t pid;
        if(forked) { pid = fork(); HARNESS(pid >= 0, "fork"); if(!pid) { close(fd[0]); spill_out(fd[1], draw(n, mode)); _exit(0); } }
        else {
            posix_spawn_file_actions_t a; posix_spawn_file_actions_init(&a); posix_spawn_file_actions_adddup2(&a, fd[1], 1); posix_spawn_file_actions_addclose(&a, fd[0]);
            std::string c = std::to_string(n), m = std::to_string(mode); char* argv[] = {(char*)"h_ids", (char*)"--emit", (char*)c.c_str(), (char*)m.c_str(), nullptr};
            HARNESS(posix_spawn(&pid, "/proc/self/exe", &a, nullptr, argv, environ) == 0, "spawn"); posix_spawn_file_actions_destroy(&a);
        }
        close(fd[1]); kids.emplace_back(pid, fd[0]);
    }
    for(auto& k : kids) { auto v = slurp(k.second); close(k.second); int st; while(waitpid(k.first, &st, 0) < 0 && errno == EINTR); HARNESS(st == 0 && v.size() == n, "child"); p.add(v); }
    p.judge(fmt("%llu processes %s", (unsigned long long)procs, forked ? "forked from one" : "started at once")); stats().eval(); stats().nontrivial(mix2(procs, mode * 2 + forked)); stats().add(forked ? "forked" : "started", procs);
}
// Databases created and rekeyed
static void db_case(u64 seed, u64) {
    Rng r(seed); Pool uids, salts; std::vector<u64> u, s; u64 n = 300; u64 app = r.next(), salt = r.next(); bool same_salt = r.chance(1, 2);
    sim::Fs fs; sim::Use use(fs); hash_kind() = 0; std::string d0; sim::Image first;
    for(u64 i = 0; i < n; ++i) {
        beat(); fs.names.clear(); error_code ec; u64 in = same_salt ? salt : nudb::make_salt(); if(!same_salt) s.push_back(in);
        nudb::create<vhasher, sim::file>(DP, KP, LP, app, in, 8, 256, 0.5f, ec, sim::Tok{sim::g()}); CHECK(!ec, "create: %s", ec.message().c_str());
        auto im = fs.image(); Db db = Db::parse(im[DP], im[KP]); Hdr dh = db.d, kh = db.k; CHECK(dh.uid == kh.uid, "data and key file of one database with different identifiers"); CHECK(kh.salt == in, "the salt given is not the one in the key file"); u.push_back(dh.uid);
        if(i == 0) first = im;
        else if(i % 20 == 0) {          // the key file of another database is refused
            sim::Image mix = im; mix[KP] = first[KP]; mix.erase(LP); sim::Fs f2(mix); sim::Use u2(f2); nudb::basic_store<vhasher, sim::file> st; error_code e2; st.open(DP, KP, LP, e2, sim::Tok{sim::g()}); CHECK(e2, "the key file of another database was accepted"); stats().add("exchanged_files_refused");
        }
        if(i % 3 == 0) {
            u64 before = kh.salt; error_code e3; fs.names.erase(KP); fs.names.erase(LP);
            for(int j = 0; j < 3; ++j) { nudb::rekey<vhasher, sim::file>(DP, KP, LP, 256, 0.5f, 1, 65536, e3, [](u64, u64) {}, sim::Tok{sim::g()}); CHECK(!e3, "rekey: %s", e3.message().c_str()); auto z = fs.image(); Hdr k2 = Db::parse(z[DP], z[KP]).k; CHECK(k2.uid == dh.uid, "rekey changed the identifier"); CHECK(k2.salt != before, "rekey kept the salt"); s.push_back(k2.salt); fs.names.erase(KP); }
        }
    }
    uids.add(u); uids.judge("identifiers of databases"); salts.add(s); salts.judge("salts of databases and rekeys");
    std::vector<u64> both(u); both.insert(both.end(), s.begin(), s.end()); both.push_back(salt); Pool x; x.add(both); x.judge("identifiers and salts of databases"); stats().eval(); stats().add("databases", n); stats().nontrivial(mix2(seed, 5));
}
static void one(u64 seed, u64 idx) { switch(idx % 4) { case 0: return threads_case(seed, idx); case 1: return process_case(seed, 1); case 2: return process_case(seed, 0); default: return db_case(seed, idx); } }
int main(int argc, char** argv) {
    if(argc == 4 && std::string(argv[1]) == "--emit") { spill_out(1, draw(strtoull(argv[2], 0, 0), atoi(argv[3]))); return 0; }
    return run_main(argc, argv, one);
}
