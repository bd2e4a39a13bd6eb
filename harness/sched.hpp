// A controlled scheduler. Threads created with Sched::spawn (and threads they create) run one at
// a time; at every lock, unlock, condition variable, join, sleep and file operation the scheduler
// decides who goes on. Interposes the pthread functions, so the code under test is unchanged.
// Locks are taken with trylock, so a schedule is a sequence of choices that the seed repeats, and
// a state in which nobody can go on is a deadlock.
#pragma once
#include "common.hpp"
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#define NOTSAN __attribute__((no_sanitize("thread")))
#ifdef __SANITIZE_THREAD__
extern "C" { void AnnotateIgnoreReadsBegin(char const*, int); void AnnotateIgnoreReadsEnd(char const*, int); void AnnotateIgnoreWritesBegin(char const*, int); void AnnotateIgnoreWritesEnd(char const*, int); }
// The scheduler's own data: handed over by the baton, which the race detector does not see (and must
// not, or it would order everything)
struct TsanOff { TsanOff() { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); } ~TsanOff() { AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); } };
#else
struct TsanOff { TsanOff() {} ~TsanOff() {} };
#endif

namespace sched {
using vf::u64;
enum St { ready, on_mutex, on_cond, on_join, on_hold, finished };
struct Thr {
    int id = 0; St st = ready; void const* on = nullptr; bool timed = false, timedout = false, internal = false; int baton = 0; double prio = 0;
    char const* name = ""; void* (*fn)(void*) = nullptr; void* arg = nullptr; std::function<void()> body; pthread_t real{}; u64 points = 0, waits = 0, deadline = 0;
};
extern thread_local Thr* self; inline thread_local Thr* self = nullptr;
inline thread_local int quiet = 0;         // >0: no scheduling points (harness bookkeeping)
struct Quiet { Quiet() { ++quiet; } ~Quiet() { --quiet; } };

template<class F> static F real_of(char const* n, char const* ver) {
    void* p = nullptr;
#if defined(__SANITIZE_THREAD__) || defined(__SANITIZE_ADDRESS__)
    (void)ver; p = dlsym(RTLD_NEXT, n);
#else
    if(ver) p = dlvsym(RTLD_NEXT, n, ver);
    if(!p) p = dlsym(RTLD_NEXT, n);
#endif
    return (F)p;
}
#define REAL(name, ver) static auto real = sched::real_of<decltype(&::name)>(#name, ver)

NOTSAN inline void futex_wait(int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
NOTSAN inline void futex_wake(int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
NOTSAN inline void baton_take(int* b) { for(;;) { int v = __atomic_load_n(b, __ATOMIC_ACQUIRE); if(v) { __atomic_store_n(b, 0, __ATOMIC_RELEASE); return; } futex_wait(b, 0); } }
NOTSAN inline void baton_give(int* b) { __atomic_store_n(b, 1, __ATOMIC_RELEASE); futex_wake(b); }

enum class Strategy { walk, pct, victim, nonpreempt };
struct Run {
    static int const MAXT = 48;
    Thr t[MAXT]; int n = 0, cur = -1, live = 0; int main_baton = 0;
    vf::Rng r{1}; Strategy strat = Strategy::walk; double p_switch = 0.2, p_timeout = 0.005; bool unfreeze_on_time = false;
    u64 steps = 0, switches = 0, sig = 1, limit = 6000000, clock_ns = 0; bool stuck = false; char const* why = ""; std::string detail;
    u64 change[8] = {0}; int nchange = 0; double low = 0;
    int victim = -1; u64 victim_at = 0, victim_until = 0, victim_len = 0; bool frozen = false; u64 frozen_times = 0, victim_steps_others = 0; bool hold_over_blocked = false;
    u64 blocked_mutex = 0, waited_cond = 0, timeouts = 0, forced_unfreeze = 0;
    int settle = 0;                    // >0: time passes only when nobody can go on
    int held = -1; u64 must_finish = 0, holds = 0, held_steps = 0, held_from = 0; std::string held_at;     // a thread that stays where it is until those have ended
    std::string errors;
};
inline Run* R = nullptr;
[[noreturn]] inline void die(std::string const& why) { self = nullptr; vf::die_violation(why); }

inline int pick(Run& s, bool self_ok) {
    int c[Run::MAXT], k = 0; int frozen_one = -1;
    for(int i = 0; i < s.n; ++i) {
        Thr& x = s.t[i]; if(x.st == on_cond && x.timed && x.deadline <= s.clock_ns) { x.st = ready; x.timedout = true; x.on = nullptr; ++s.timeouts; }
        if(x.st != ready) continue; if(i == s.cur && !self_ok) continue;
        if(i == s.held) continue; if(s.frozen && i == s.victim) { frozen_one = i; continue; }
        c[k++] = i;
    }
    auto timeout_one = [&]() -> int {           // time passes until the next deadline
        int b = -1; u64 ties = 0;
        for(int i = 0; i < s.n; ++i) if(s.t[i].st == on_cond && s.t[i].timed) { if(b < 0 || s.t[i].deadline < s.t[b].deadline) b = i, ties = 1; else if(s.t[i].deadline == s.t[b].deadline && s.r.below(++ties) == 0) b = i; }
        if(b < 0) return -1;
        Thr& x = s.t[b]; x.st = ready; x.timedout = true; x.on = nullptr; if(s.clock_ns < x.deadline) s.clock_ns = x.deadline; ++s.timeouts; return b;
    };
    if(frozen_one >= 0 && (s.steps >= s.victim_until || s.settle)) { s.frozen = false; c[k++] = frozen_one; frozen_one = -1; }
    if(s.held >= 0) {
        bool all = true; for(int i = 0; i < s.n; ++i) if((s.must_finish >> i & 1) && s.t[i].st != finished) all = false;
        if(all) { c[k++] = s.held; s.held = -1; s.held_steps += s.steps - s.held_from; }
    }
    if(k && s.p_timeout && !s.settle && s.r.unit() < s.p_timeout) { int i = timeout_one(); if(i >= 0) return i; }
    if(!k) {
        if(frozen_one >= 0) {     // everybody else is blocked or waits: the frozen thread has to go on
            int i = s.r.chance(1, 4) ? timeout_one() : -1; if(i >= 0) return i;
            s.frozen = false; ++s.forced_unfreeze; return frozen_one;
        }
        return timeout_one();
    }
    if(s.strat == Strategy::pct) {
        for(int j = 0; j < s.nchange; ++j) if(s.change[j] == s.steps && s.cur >= 0) s.t[s.cur].prio = --s.low;
        int b = c[0]; for(int j = 1; j < k; ++j) if(s.t[c[j]].prio > s.t[b].prio) b = c[j];
        return b;
    }
    bool cur_ok = false; for(int j = 0; j < k; ++j) cur_ok |= c[j] == s.cur;
    if(cur_ok && (s.strat == Strategy::nonpreempt || s.r.unit() >= s.p_switch)) return s.cur;
    return c[s.r.below(k)];
}
inline std::string describe(Run& s) {
    std::string o; char const* n[] = {"ready", "waits for a mutex", "waits on a condition", "waits to join", "held", "finished"};
    for(int i = 0; i < s.n; ++i) o += vf::fmt("%s[%d] %s after %llu points; ", s.t[i].name, i, n[s.t[i].st], (unsigned long long)s.t[i].points);
    return o;
}
// Gives the baton to the next thread; returns when this one is chosen again (unless it finished)
inline void next(bool self_ok, bool leaving = false) {
    TsanOff off;
    Run& s = *R; Thr* me = self; int i;
    ++s.steps; s.clock_ns += 10000;
    if(s.steps > s.limit) die(vf::fmt("no end after %llu scheduling steps: ", (unsigned long long)s.steps) + describe(s));
    i = pick(s, self_ok && !leaving);
    if(i < 0) {
        if(leaving && !s.live) { baton_give(&s.main_baton); return; }
        if(s.held >= 0) die(vf::fmt("BLOCKED by %s[%d], which stands still at %s: ", s.t[s.held].name, s.held, s.held_at.c_str()) + describe(s));
        die("DEADLOCK: " + describe(s) + s.detail);
    }
    if(me && i == me->id) return;
    ++s.switches; s.sig = vf::mix2(s.sig, s.steps * 64 + i); s.cur = i;
    baton_give(&s.t[i].baton);
    if(!leaving) baton_take(&me->baton);
}
inline void point(int w = 0) {
    (void)w; if(!self || quiet) return;
    TsanOff off; Run& s = *R; ++self->points;
    if(s.strat == Strategy::victim && self->id == s.victim && self->points == s.victim_at) { s.frozen = true; ++s.frozen_times; s.victim_until = s.steps + s.victim_len; }
    next(true);
}
// This thread stands still here until the threads of the set have ended
inline void hold(u64 must_finish, std::string at) { TsanOff off; Run& s = *R; s.held = self->id; s.must_finish = must_finish; s.held_at = std::move(at); s.held_from = s.steps; ++s.holds; next(false); }
inline u64 now_ns() { return R->clock_ns; }
// A file operation or anything else worth a choice, with a chance to stand still here
inline void pause_point() { point(1); }

inline void* trampoline(void* a) {
    Thr* t = (Thr*)a; { TsanOff off; self = t; baton_take(&t->baton); }
    if(t->fn) t->fn(t->arg); else t->body();
    TsanOff off; Run& s = *R; t->st = finished; --s.live;
    for(int i = 0; i < s.n; ++i) if(s.t[i].st == on_join && s.t[i].on == t) { s.t[i].st = ready; s.t[i].on = nullptr; }
    next(false, true); self = nullptr;
    return nullptr;
}
inline Thr* add(char const* name) {
    Run& s = *R; if(s.n >= Run::MAXT) die("harness: too many threads");
    Thr& t = s.t[s.n]; t.id = s.n++; t.name = name; t.prio = s.r.unit(); ++s.live; return &t;
}
inline int create_real(pthread_t* h, pthread_attr_t const* a, void* (*f)(void*), void* x) { REAL(pthread_create, "GLIBC_2.34"); return real(h, a, f, x); }
inline int join_real(pthread_t h, void** v) { REAL(pthread_join, "GLIBC_2.34"); return real(h, v); }
inline void spawn(char const* name, std::function<void()> f) { Thr* t; { TsanOff off; t = add(name); } t->body = std::move(f); if(create_real(&t->real, nullptr, trampoline, t)) throw vf::HarnessError("pthread_create"); }
// Runs the spawned threads to the end
inline void go() {
    TsanOff off; Run& s = *R; if(!s.live) return;
    int i = pick(s, true); s.cur = i; baton_give(&s.t[i].baton); baton_take(&s.main_baton);
    for(int j = 0; j < s.n; ++j) if(!s.t[j].internal) join_real(s.t[j].real, nullptr);
}
// Chooses a strategy. steps_guess: about how many points a run has
inline void plan(Run& s, u64 seed, int threads, u64 steps_guess, u64 points_guess) {
    s.r = vf::Rng(seed); u64 v = s.r.below(10);
    if(v < 4) { s.strat = Strategy::victim; s.victim = (int)s.r.below(threads); s.victim_at = 1 + s.r.below(points_guess); s.victim_len = s.r.pick({20, 100, 400, 2000, 100000}); s.p_switch = s.r.pick({0.02, 0.1, 0.5}); }
    else if(v < 7) { s.strat = Strategy::pct; s.nchange = (int)s.r.range(1, 6); for(int i = 0; i < s.nchange; ++i) s.change[i] = s.r.below(steps_guess); }
    else { s.strat = Strategy::walk; s.p_switch = s.r.pick({0.01, 0.05, 0.2, 0.5, 1.0}); }
}

inline void wake_mutex(void const* m) { TsanOff off; Run& s = *R; for(int i = 0; i < s.n; ++i) if(s.t[i].st == on_mutex && s.t[i].on == m) { s.t[i].st = ready; s.t[i].on = nullptr; } }
template<class Try> inline int acquire(void const* m, Try&& t) {
    for(;;) {
        int rc = t(); if(rc != EBUSY) return rc;
        if(quiet) die("harness: blocked while quiet");
        TsanOff off; ++R->blocked_mutex; self->st = on_mutex; self->on = m; next(false);
    }
}
// Time is virtual: it passes when somebody sleeps or waits with a limit
inline u64 deadline_of(timespec const* t) { u64 base = t->tv_sec >= 1600000000 ? 1700000000ull : 1000ull; u64 sec = (u64)t->tv_sec; return sec < base ? 0 : (sec - base) * 1000000000ull + t->tv_nsec; }
inline void sleep_ns(u64 ns) { TsanOff off; if(quiet) return; self->st = on_cond; self->on = self; self->timed = true; self->timedout = false; self->deadline = R->clock_ns + ns; next(false); self->timed = self->timedout = false; }
struct Settle { Settle() { TsanOff off; ++R->settle; } ~Settle() { TsanOff off; --R->settle; } };
} // sched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(pthread_mutex_lock, "GLIBC_2.2.5");
    if(!sched::self) return real(m);
    sched::point();
    static auto tr = sched::real_of<decltype(&::pthread_mutex_trylock)>("pthread_mutex_trylock", "GLIBC_2.34");
    return sched::acquire(m, [&] { return tr(m); });
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(pthread_mutex_unlock, "GLIBC_2.2.5");
    int rc = real(m);
    if(sched::self) { sched::wake_mutex(m); sched::point(); }
    return rc;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    REAL(pthread_rwlock_rdlock, "GLIBC_2.34"); if(!sched::self) return real(m);
    sched::point(); static auto tr = sched::real_of<decltype(&::pthread_rwlock_tryrdlock)>("pthread_rwlock_tryrdlock", "GLIBC_2.34");
    return sched::acquire(m, [&] { return tr(m); });
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    REAL(pthread_rwlock_wrlock, "GLIBC_2.34"); if(!sched::self) return real(m);
    sched::point(); static auto tr = sched::real_of<decltype(&::pthread_rwlock_trywrlock)>("pthread_rwlock_trywrlock", "GLIBC_2.34");
    return sched::acquire(m, [&] { return tr(m); });
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    REAL(pthread_rwlock_unlock, "GLIBC_2.34"); int rc = real(m);
    if(sched::self) { sched::wake_mutex(m); sched::point(); }
    return rc;
}
static int sched_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) {
    using namespace sched;
    static auto un = real_of<decltype(&::pthread_mutex_unlock)>("pthread_mutex_unlock", "GLIBC_2.2.5");
    static auto tr = real_of<decltype(&::pthread_mutex_trylock)>("pthread_mutex_trylock", "GLIBC_2.34");
    bool to;
    { TsanOff off; ++R->waited_cond; ++self->waits; self->st = on_cond; self->on = c; self->timed = t; if(t) self->deadline = sched::deadline_of(t); self->timedout = false; }
    un(m); wake_mutex(m);
    { TsanOff off; next(false); to = self->timedout; self->timed = self->timedout = false; }
    acquire(m, [&] { return tr(m); });
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { REAL(pthread_cond_wait, "GLIBC_2.3.2"); return sched::self ? sched_cond_wait(c, m, nullptr) : real(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) { REAL(pthread_cond_timedwait, "GLIBC_2.3.2"); return sched::self ? sched_cond_wait(c, m, t) : real(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* t) { REAL(pthread_cond_clockwait, "GLIBC_2.34"); return sched::self ? sched_cond_wait(c, m, t) : real(c, m, k, t); }
static void sched_cond_wake(pthread_cond_t* c, bool all) {
    using namespace sched; TsanOff off; Run& s = *R; int w[Run::MAXT], k = 0;
    for(int i = 0; i < s.n; ++i) if(s.t[i].st == on_cond && s.t[i].on == c) w[k++] = i;
    if(k) { if(all) for(int i = 0; i < k; ++i) { s.t[w[i]].st = ready; s.t[w[i]].on = nullptr; } else { int i = w[s.r.below(k)]; s.t[i].st = ready; s.t[i].on = nullptr; } }
    point();
}
int pthread_cond_signal(pthread_cond_t* c) { REAL(pthread_cond_signal, "GLIBC_2.3.2"); if(!sched::self) return real(c); sched_cond_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { REAL(pthread_cond_broadcast, "GLIBC_2.3.2"); if(!sched::self) return real(c); sched_cond_wake(c, true); return 0; }
int pthread_create(pthread_t* h, pthread_attr_t const* a, void* (*f)(void*), void* x) {
    using namespace sched;
    if(!self) return create_real(h, a, f, x);
    Thr* t; { TsanOff off; t = add("created"); t->fn = f; t->arg = x; t->internal = true; }
    int rc = create_real(h, a, trampoline, t);
    TsanOff off; if(rc) { t->st = finished; --R->live; return rc; }
    t->real = *h; point(); return 0;
}
int pthread_join(pthread_t h, void** v) {
    using namespace sched;
    if(!self) return join_real(h, v);
    TsanOff* off = new TsanOff; Run& s = *R; Thr* x = nullptr; for(int i = 0; i < s.n; ++i) if(s.t[i].internal && pthread_equal(s.t[i].real, h) && s.t[i].on != &s) x = &s.t[i];
    if(!x) { delete off; return join_real(h, v); }
    while(x->st != finished) { self->st = on_join; self->on = x; next(false); }
    x->on = &s; delete off;     // the handle may be used again
    return join_real(h, v);
}
int sched_yield() noexcept { if(sched::self) { sched::point(); return 0; } return (int)syscall(SYS_sched_yield); }
int nanosleep(timespec const* t, timespec* rem) {
    if(sched::self) { sched::sleep_ns(t->tv_sec * 1000000000ull + t->tv_nsec); return 0; }
    long rc = syscall(SYS_nanosleep, t, rem); return rc == 0 ? 0 : -1;
}
int clock_nanosleep(clockid_t k, int flags, timespec const* t, timespec* rem) {
    if(sched::self) { if(flags) { sched::u64 d = sched::deadline_of(t), n = sched::now_ns(); sched::sleep_ns(d > n ? d - n : 0); } else sched::sleep_ns(t->tv_sec * 1000000000ull + t->tv_nsec); return 0; }
    long rc = syscall(SYS_clock_nanosleep, k, flags, t, rem); return rc == 0 ? 0 : errno;
}
int clock_gettime(clockid_t k, timespec* t) noexcept {
    if(sched::self && (k == CLOCK_MONOTONIC || k == CLOCK_REALTIME)) {
        TsanOff off; sched::u64 v = sched::R->clock_ns; t->tv_nsec = v % 1000000000; t->tv_sec = (time_t)(v / 1000000000 + (k == CLOCK_REALTIME ? 1700000000 : 1000)); return 0;
    }
    return (int)syscall(SYS_clock_gettime, k, t) ? -1 : 0;
}
}
