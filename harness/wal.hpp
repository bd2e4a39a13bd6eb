// Online monitor of the write-ahead order, over file operations (C06), and of
// the append-only data file (C07).
#pragma once
#include "oracle.hpp"
namespace vf {

class WalMon {
public:
    std::string dp, kp, lp;
    bool recovery = false;      // operations belong to recover()
    bool wal = true, append = true;
    u64 events = 0, dat_appends = 0, key_overwrites = 0, key_appends = 0, log_discards = 0, commits = 0;
    u64 key_blocks_checked = 0;

    WalMon(std::string d, std::string k, std::string l, sim::Image const& im) : dp(d), kp(k), lp(l), dur_(im), cur_(im) { rebase(); }

    void on(sim::Op const& o) {
        if(o.failed || o.k == sim::K::read || o.k == sim::K::size || o.k == sim::K::open) return;
        ++events;
        if(o.k == sim::K::write && o.path == dp) dat_write(o);
        else if(o.k == sim::K::write && o.path == kp) key_write(o);
        else if(o.k == sim::K::trunc && o.path == dp) dat_trunc(o);
        else if(o.k == sim::K::trunc && o.path == kp) key_trunc(o);
        else if((o.k == sim::K::trunc || o.k == sim::K::erase) && o.path == lp) discard(o);
        else if(o.k == sim::K::erase && (o.path == dp)) violate("the data file was erased");
        if(o.path == lp) have_dl_ = false;
        dur_.on(o); sim::apply(cur_, o);
        if(dirty_ && !recovery && o.path == lp && (o.k == sim::K::trunc || o.k == sim::K::erase)) { dirty_ = false; rebase(); ++commits; }
        if(recovery && o.path == lp && o.k == sim::K::erase) { rebase(); }
    }
    // the commit has been acknowledged: everything must be on stable storage
    void ack(char const* what) {
        if(!wal) return;
        CHECK(dur_.pending(dp) == 0, "%s reported success with unsynchronised data file changes", what);
        CHECK(dur_.pending(kp) == 0, "%s reported success with unsynchronised key file changes", what);
        auto l = dur_.durable(lp);
        CHECK(!l || l->size() == 0, "%s reported success but the log on stable storage still rolls it back", what);
    }
    void begin_recovery() { recovery = true; log0_ = cur_.count(lp) ? ref_log(cur_[lp]) : Log{}; dat0_ = cur_[dp].size(); }
    void end_recovery() { recovery = false; dirty_ = false; rebase(); }
private:
    sim::Durable dur_; sim::Image cur_;
    bool dirty_ = false;
    u64 bdat_ = 0; sim::Blob bkey_;
    Log log0_; u64 dat0_ = 0;

    void rebase() { bdat_ = cur_.count(dp) ? cur_[dp].size() : 0; if(cur_.count(kp)) bkey_ = cur_[kp]; else bkey_ = sim::Blob{}; }
    Log dl_; bool have_dl_ = false;
    Log const& dlog(u64) {      // changes only when something happens to the log file
        if(!have_dl_) { auto l = dur_.durable(lp); dl_ = l ? ref_log(*l) : Log{}; have_dl_ = true; }
        return dl_;
    }
    void need_header(char const* what) {
        if(!wal) return;
        Log const& l = dlog(0);
        CHECK(l.header && l.h.type == "nudb.log", "%s before a log header was on stable storage", what);
        CHECK(l.h.dfs == bdat_, "%s but the log on stable storage records data file size %llu, it was %llu", what, (unsigned long long)l.h.dfs, (unsigned long long)bdat_);
        CHECK(l.h.kfs == bkey_.size(), "%s but the log on stable storage records key file size %llu, it was %llu", what, (unsigned long long)l.h.kfs, (unsigned long long)bkey_.size());
    }
    void dat_write(sim::Op const& o) {
        ++dat_appends;
        if(recovery) { violate("recovery wrote to the data file"); }
        if(append) CHECK(o.off >= bdat_, "data file written at %llu, below its committed length %llu", (unsigned long long)o.off, (unsigned long long)bdat_);
        if(append) CHECK(o.off <= cur_[dp].size(), "write leaves a hole in the data file");
        dirty_ = true;
        need_header("data file appended");
    }
    void dat_trunc(sim::Op const& o) {
        if(!append) return;
        if(!recovery) violate("data file truncated to %llu outside recovery", (unsigned long long)o.len);
        CHECK(log0_.header, "recovery truncated the data file without a log");
        CHECK(o.len == log0_.h.dfs, "recovery truncated the data file to %llu, the log says %llu", (unsigned long long)o.len, (unsigned long long)log0_.h.dfs);
        CHECK(o.len <= dat0_, "recovery extended the data file");
    }
    void key_write(sim::Op const& o) {
        if(recovery || !wal) return;
        dirty_ = true;
        u64 bs = 0;
        { bytes h = bkey_.get(0, KEY_HDR); bs = be(&h[44], 2); }
        need_header("key file written");
        Log const& l = dlog(0);
        for(u64 b = o.off / bs; b <= (o.off + o.len - 1) / bs; ++b) {
            if(b * bs >= bkey_.size()) { ++key_appends; continue; }
            ++key_overwrites;
            u64 from = std::max(o.off, b * bs), to = std::min({o.off + o.len, (b + 1) * bs, bkey_.size()});
            bytes was = bkey_.get(from, to - from);
            if(!std::memcmp(was.data(), o.data->data() + (from - o.off), to - from)) continue;   // unchanged
            CHECK(b > 0, "key file header overwritten");
            auto it = l.rec.find(b - 1);
            CHECK(it != l.rec.end(), "key file block %llu overwritten before its old contents were logged on stable storage", (unsigned long long)b);
            bytes full = it->second; full.resize(bs);
            CHECK(full == bkey_.get(b * bs, bs), "the log on stable storage has wrong contents for key file block %llu", (unsigned long long)b);
            ++key_blocks_checked;
        }
    }
    void key_trunc(sim::Op const& o) {
        if(recovery) return;
        if(wal) violate("key file truncated to %llu outside recovery", (unsigned long long)o.len);
    }
    void discard(sim::Op const& o) {
        if(!wal) return;
        auto it = cur_.find(lp);
        if(it == cur_.end() || it->second.size() == 0) return;
        ++log_discards;
        char const* who = recovery ? "recovery" : "the commit";
        CHECK(dur_.pending(dp) == 0, "%s discarded the log (%s) while data file changes were not synchronised", who, sim::kname(o.k));
        CHECK(dur_.pending(kp) == 0, "%s discarded the log (%s) while key file changes were not synchronised", who, sim::kname(o.k));
    }
};

} // vf
