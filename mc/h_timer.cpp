// C14, C15: high_precision_timer
#include "mc.h"
#include "util.h"
#include <teiacare/sdk/high_precision_timer.hpp>
#include <thread>
#include <memory>

using tc::sdk::high_precision_timer;
using clk = tc::sdk::clock;
namespace {
constexpr int64_t D = 1000000; // the interval: 1 ms
enum { BEGIN = 1, END, STOP, STOPPED, START, STARTED };
clk::duration ns(int64_t n) { return std::chrono::nanoseconds(n); }
void pass(int64_t n) { if (n > 0) std::this_thread::sleep_for(std::chrono::nanoseconds(n)); }
struct Inv { int64_t b, e; long pb, pe; int64_t which; };
std::vector<Inv> runs(long from = 0) { std::vector<Inv> r; for (size_t i = from; i < mc::nevents(); i++) { auto& e = mc::event(i); if (e.tag == BEGIN) r.push_back({e.t, -1, (long)i, -1, e.a}); if (e.tag == END) { MC_CHECK(!r.empty() && r.back().e < 0, "invocations overlap"); r.back().e = e.t; r.back().pe = (long)i; } } return r; }
long pos(int tag, int nth = 0) { for (size_t i = 0; i < mc::nevents(); i++) if (mc::event(i).tag == tag && nth-- == 0) return (long)i; return -1; }

// Checks invocations r of a run started at t0 with interval d against the grid; returns the instants missed by the completed invocations.
uint64_t grid(const std::vector<Inv>& r, int64_t t0, int64_t d, int64_t end) {
    int64_t g = t0; uint64_t missed = 0; int64_t free_at = t0;
    for (size_t i = 0; i < r.size(); i++) {
        if (i > 0 && r[i - 1].e > 0) { g += d; while (g < free_at) { g += d; missed++; } } else g += d;
        MC_CHECK(r[i].b >= g, "invocation %zu at %ld: before its instant %ld (or twice for one instant)", i, (long)r[i].b, (long)g);
        MC_CHECK(r[i].b == g || mc::late_jump(g, r[i].b), "invocation %zu for instant %ld only at %ld although no wake-up was late", i, (long)g, (long)r[i].b);
        free_at = r[i].e;
    }
    if (r.empty() || r.back().e > 0) { // the next instant must not have been ignored
        g += d; while (g < free_at) { g += d; missed++; }
        MC_CHECK(g >= end || mc::late_jump(g, end), "no invocation at instant %ld although idle until %ld", (long)g, (long)end);
    }
    return missed;
}
const int64_t DUR[] = {0, D / 2, D, 3 * D / 2, 2 * D, 5 * D / 2, 3 * D, 1, D - 1, D + 1};
void c14_durations(int n, int menu, bool counts) {
    high_precision_timer t; int k = 0; std::vector<int64_t> du(n); for (auto& x : du) x = DUR[mc::choose(menu)];
    t.set_callback([&] { mc::log(BEGIN); pass(k < n ? du[k] : 0); k++; mc::log(END); });
    { mc::Quiet q; MC_CHECK(t.start(ns(D)), "start"); }
    int64_t t0 = 0, total = n * 5 * D / 2;
    for (int64_t c = D / 4; counts && c < total; c += D) {
        pass(c - mc::now()); auto r = runs(); if (!r.empty() && r.back().e < 0) continue;
        int64_t now = mc::now(); uint64_t m = grid(r, t0, D, now); MC_CHECK(t.invoked_callback_count() == r.size(), "invoked count %lu after %zu invocations", (unsigned long)t.invoked_callback_count(), r.size());
        // instants that passed so far without an invocation
        MC_CHECK(t.missed_callback_count() == m, "missed count %lu, expected %lu at %ld", (unsigned long)t.missed_callback_count(), (unsigned long)m, (long)now);
    }
    pass(total + D / 4 - mc::now()); int64_t end = mc::now(); mc::log(STOP); t.stop(); mc::log(STOPPED);
    auto r = runs(); size_t inv = r.size(); uint64_t m = grid(r, t0, D, end);
    MC_CHECK(t.invoked_callback_count() == inv, "invoked count %lu after %zu invocations", (unsigned long)t.invoked_callback_count(), inv);
    MC_CHECK(t.missed_callback_count() == m, "missed count %ld, expected %lu", (long)t.missed_callback_count(), (unsigned long)m);
}
void c14_late(int n) { // zero or short callbacks, late wake-ups
    high_precision_timer t; int64_t du = (int64_t[]){0, D / 2, 3 * D / 2}[mc::choose(3)]; // (not D itself: an endless back-to-back chain may starve stop of the mutex)
    t.set_callback([&] { mc::log(BEGIN); pass(du); mc::log(END); });
    { mc::Quiet q; t.start(ns(D)); }
    pass(n * D + D / 4); int64_t end = mc::now(); t.stop(); auto r = runs(); uint64_t m = grid(r, 0, D, end);
    MC_CHECK(t.invoked_callback_count() == r.size() && t.missed_callback_count() == m, "counts %lu/%ld, expected %zu/%lu", (unsigned long)t.invoked_callback_count(), (long)t.missed_callback_count(), r.size(), (unsigned long)m);
}
// the moments to which time may have passed at once from g on
std::vector<int64_t> passed(int64_t g) { std::vector<int64_t> r{g}; for (size_t k = 0; k < mc::nevents(); k++) { auto& e = mc::event(k); if (e.tag == mc::LATE && mc::late_jump(g, e.b)) r.push_back(e.b); } return r; }
// time passes between any two clock reads: the set of everything the property allows
void c14_clock(int n) {
    high_precision_timer t; int64_t du = (int64_t[]){0, D / 2, 3 * D / 2}[mc::choose(3)];
    t.set_callback([&] { mc::log(BEGIN); pass(du); mc::log(END); });
    { mc::Quiet q; t.start(ns(D)); }
    pass(n * D + D / 4); int64_t end = mc::now(); t.stop(); auto r = runs();
    struct S { int64_t g; uint64_t m; }; std::vector<S> set{{D, 0}};
    for (size_t i = 0; i < r.size(); i++) {
        MC_CHECK(r[i].e >= 0, "stop returned during an invocation"); std::vector<S> next;
        for (auto s : set) if (r[i].b == s.g || mc::late_jump(s.g, r[i].b)) {
            // the instants are judged at the end of the invocation or at a later moment which time has passed to at once, but before the next invocation
            for (auto p : passed(r[i].e)) if (i + 1 == r.size() || p <= r[i + 1].b) { S x{s.g + D, s.m}; while (x.g < p) { x.g += D; x.m++; } bool have = false; for (auto& y : next) have |= y.g == x.g && y.m == x.m; if (!have) next.push_back(x); }
        }
        MC_CHECK(!next.empty(), "invocation %zu at %ld: its instant was %ld", i, (long)r[i].b, (long)set[0].g); set = next;
    }
    MC_CHECK(t.invoked_callback_count() == r.size(), "invoked count %lu after %zu invocations", (unsigned long)t.invoked_callback_count(), r.size());
    bool ok = false, served = false; for (auto& s : set) { bool sv = s.g >= end; for (auto p : passed(s.g)) sv |= p >= end; if (sv) served = true; if (sv && s.m == t.missed_callback_count()) ok = true; }
    MC_CHECK(served, "no invocation at instant %ld although idle until %ld", (long)set[0].g, (long)end);
    MC_CHECK(ok, "missed count %lu, expected %lu", (unsigned long)t.missed_callback_count(), (unsigned long)set[0].m);
}
void c14_intervals() { // various intervals, start not at time zero, arguments
    high_precision_timer t; int64_t d = (int64_t[]){1, 7, D / 3, D, 24 * 3600 * 1000 * D}[mc::choose(5)], off = (int64_t[]){0, 5, D / 3}[mc::choose(3)]; std::string s = "text"; bool ok = true;
    t.set_callback([&](int a, const std::string& b) { mc::log(BEGIN); ok &= a == 7 && b == "text"; mc::log(END); }, 7, s); s = "changed";
    pass(off); int64_t t0 = mc::now(); t.start(ns(d)); pass(4 * d + d / 2); int64_t end = mc::now(); t.stop(); auto r = runs(); grid(r, t0, d, end);
    MC_CHECK(r.size() == (d == 1 ? r.size() : 4u) && r.size() >= (d == 1 ? 3u : 4u) && ok, "%zu invocations", r.size()); MC_CHECK(t.missed_callback_count() == 0, "missed");
}
// an instant exactly when stop is called, counters read concurrently: invoked <= completed+0
void c14_counter_race() {
    high_precision_timer t; t.set_callback([&] { mc::log(BEGIN); mc::log(END); }); { mc::Quiet q; t.start(ns(D)); }
    pass(D); auto a = t.invoked_callback_count(); auto m = t.missed_callback_count(); auto n = runs(); pass(D / 2); MC_CHECK(a <= n.size(), "invoked count %lu before %zu invocations ended", (unsigned long)a, n.size()); MC_CHECK(m <= 1, "missed count %lu", (unsigned long)m); MC_CHECK(t.invoked_callback_count() == 1 && t.missed_callback_count() == 0, "counts");
}
// ---- C15
void c15_stop(int64_t when, int64_t du, bool destroy, bool quiet) { // stop at some moment of the cycle
    auto t = std::make_unique<high_precision_timer>(); t->set_callback([&] { mc::log(BEGIN); pass(du); mc::log(END); });
    if (quiet) { mc::Quiet q; t->start(ns(D)); } else t->start(ns(D));
    pass(when); int64_t t0 = mc::now(); mc::log(STOP); if (destroy) t.reset(); else t->stop(); mc::log(STOPPED);
    auto r = runs(); MC_CHECK(mc::live_threads() == 1, "thread alive after stop"); for (auto& i : r) MC_CHECK(i.e >= 0, "stop returned during an invocation");
    MC_CHECK(mc::now() - t0 <= du, "stop took %ld", (long)(mc::now() - t0));
    if (mc::now() > t0) MC_CHECK(!r.empty() && r.back().e == mc::now(), "stop waited without an invocation in progress");
    if (t) { t->stop(); MC_CHECK(t->invoked_callback_count() == r.size(), "count"); }
    pass(3 * D); MC_CHECK(runs().size() == r.size(), "invocation after stop");
    if (t) { long n = mc::nevents(); int64_t s = mc::now(); mc::Quiet q; MC_CHECK(t->start(ns(D)), "restart"); MC_CHECK(t->invoked_callback_count() == 0 && t->missed_callback_count() == 0, "counters not reset"); pass(2 * D + D / 2 + 2 * du); auto r2 = runs(n); grid(r2, s, D, mc::now()); MC_CHECK(r2.size() >= 2, "restarted timer does not run"); }
}
void c15_restart_while_running(int64_t when, int64_t du) { // a second start ends the first run
    high_precision_timer t; int gen = 0; t.set_callback([&] { mc::log(BEGIN, gen); pass(du); mc::log(END); }); { mc::Quiet q; t.start(ns(D)); }
    pass(when); MC_CHECK(t.start(ns(2 * D)), "second start"); mc::log(STARTED); int64_t s = mc::now();
    MC_CHECK(mc::live_threads() == 2, "%d threads after a second start", mc::live_threads()); long n = mc::nevents(); 
    // start resets the counters; an instant of the new run cannot have come yet
    MC_CHECK(t.invoked_callback_count() == 0 && t.missed_callback_count() == 0, "counters not reset");
    pass(5 * D); auto r = runs(n); grid(r, s, 2 * D, mc::now()); MC_CHECK(r.size() == 2 || du > 0, "%zu invocations", r.size()); t.stop(); MC_CHECK(mc::live_threads() == 1, "thread alive");
}
void c15_set_callback_race(int64_t when) { // the callback is replaced while the timer runs
    high_precision_timer t; auto a = std::make_shared<int>(1), b = std::make_shared<int>(2); t.set_callback([p = a] { mc::log(BEGIN, *p); mc::log(END); }); { mc::Quiet q; t.start(ns(D)); }
    pass(when); t.set_callback([p = b] { mc::log(BEGIN, *p); mc::log(END); }); mc::log(STARTED); pass(D + D / 2); t.stop();
    for (auto& i : runs()) MC_CHECK(i.b <= when || i.which == 2, "the old callback is invoked after its replacement"); MC_CHECK(runs().back().which == 2, "new callback never invoked");
    MC_CHECK(a.use_count() == 1 && b.use_count() == 2, "callback object leaked or lost");
}
void c15_self_replace() { // the callback installs its successor (and drops its own last reference)
    high_precision_timer t; auto a = std::make_shared<int>(1); t.set_callback([p = a, &t] { mc::log(BEGIN, *p); t.set_callback([] { mc::log(BEGIN, 2); mc::log(END); }); MC_CHECK(*p == 1, "state"); mc::log(END); }); { mc::Quiet q; t.start(ns(D)); }
    pass(3 * D + D / 2); t.stop(); auto r = runs(); MC_CHECK(r.size() == 3 && r[0].which == 1 && r[1].which == 2 && r[2].which == 2, "invocations"); MC_CHECK(a.use_count() == 1, "the replaced callback lives on");
}
void c15_sequence(int depth) {
    auto t = std::make_unique<high_precision_timer>(); bool cb = false, running = false; int64_t s = 0; size_t seen = 0; int gen = 0; int64_t iv = D; int busy = 0; int64_t done = 0;
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(7); int64_t now = mc::now(); size_t n = runs().size();
        if (op == 0) { t->set_callback([g = ++gen, &busy] { MC_CHECK(!busy, "two invocations at once"); busy = 1; mc::log(BEGIN, g); pass(D / 4); mc::log(END); busy = 0; }); cb = true; }
        else if (op == 1 || op == 2) { iv = op == 1 ? D : 2 * D; bool r = t->start(ns(iv)); MC_CHECK(r == cb, "start returned %d", r); MC_CHECK(mc::now() <= now + D / 4, "start waited"); if (cb) { running = true; s = mc::now(); done = 0; MC_CHECK(mc::live_threads() == 2, "%d threads", mc::live_threads()); } }
        else if (op == 3) { t->stop(); running = false; MC_CHECK(mc::live_threads() == 1, "thread alive"); MC_CHECK(mc::now() <= now + D / 4, "stop waited"); }
        else if (op == 4) { t = std::make_unique<high_precision_timer>(); cb = running = false; gen = 0; done = 0; MC_CHECK(mc::live_threads() == 1, "thread alive"); }
        else pass(op == 5 ? D + 131713 : D / 2 + 61327);
        // invocations of the current run: exactly one per instant that has passed (callbacks take a quarter of an interval)
        auto r = runs(); if (running) { int64_t want = (mc::now() - s) / iv; int64_t have = 0; for (auto& x : r) have += x.b > s || (x.b == s && iv == 0); MC_CHECK(have == want, "%ld invocations, expected %ld (step %d)", (long)have, (long)want, i); done = have - (!r.empty() && r.back().e < 0); MC_CHECK((int64_t)t->invoked_callback_count() == done, "invoked count %lu, expected %ld", (unsigned long)t->invoked_callback_count(), (long)done); if (want) MC_CHECK(r.back().which == gen || r.back().b < now, "old callback used"); }
        else if (op != 3 && op != 4) MC_CHECK(r.size() == n, "invocation of a stopped timer"); seen = r.size();
        MC_CHECK(t->missed_callback_count() == 0, "missed count %ld", (long)t->missed_callback_count());
    }
    (void)seen;
}
void c15_no_callback() { high_precision_timer t; bool st = mc::choose(2); if (st) t.stop(); MC_CHECK(!t.start(ns(D)) && !t.start(ns(D)), "start without callback"); MC_CHECK(mc::live_threads() == 1, "thread started"); pass(3 * D); MC_CHECK(t.invoked_callback_count() == 0 && t.missed_callback_count() == 0, "counts"); t.stop(); t.stop(); }
void c15_bad_interval() { high_precision_timer t; t.set_callback([] { mc::log(BEGIN); mc::log(END); }); int64_t d = mc::choose(2) ? 0 : -D; bool r = t.start(ns(d)); MC_CHECK(!r, "a non-positive interval is accepted"); pass(D); MC_CHECK(runs().empty() && mc::live_threads() == 1, "runs"); }
// ---- long runs, intervals and durations of every magnitude (exact wake-ups, the default schedule, every parameter combination)
const int64_t FINE[] = {2, 3, 7, 999, 1000, 1001, 333333, 999999, 1000001, 1234567, 16666667, 41666667, 999999999, 1000000001, 3600000000007, 86400000000000, 2592000000000001};
void c14_fine() { // an overrun of every length for intervals of every magnitude
    high_precision_timer t; int64_t d = FINE[mc::choose(17)], off = (int64_t[]){0, 1, 777777}[mc::choose(3)], len = (int64_t[]){0, 1, d / 2, d - 1, d, d + 1, 2 * d - 1, 2 * d, 2 * d + 1, 5 * d + d / 3}[mc::choose(10)]; int which = mc::choose(3), k = 0;
    t.set_callback([&] { mc::log(BEGIN); pass(k++ == which ? len : 0); mc::log(END); }); pass(off); int64_t t0 = mc::now(); MC_CHECK(t.start(ns(d)), "start"); pass(9 * d + d / 2); int64_t end = mc::now(); t.stop(); auto r = runs(); uint64_t m = grid(r, t0, d, end); MC_CHECK(t.invoked_callback_count() == r.size() && t.missed_callback_count() == m, "interval %ld, overrun %ld: counts %lu/%lu, expected %zu/%lu", (long)d, (long)len, (unsigned long)t.invoked_callback_count(), (unsigned long)t.missed_callback_count(), r.size(), (unsigned long)m);
}
void c14_long() { // hundreds of instants with a repeating pattern of durations
    high_precision_timer t; int64_t d = (int64_t[]){D, 1234567, 999}[mc::choose(3)]; static const int64_t PAT[][3] = {{0, 0, 0}, {2, 2, 2}, {0, 6, 0}, {5, 0, 9}, {6, 6, 6}, {0, 0, 41}, {3, 7, 13}, {401, 0, 0}}; auto* pat = PAT[mc::choose(8)]; int k = 0; size_t n = 300;
    t.set_callback([&] { mc::log(BEGIN); pass(pat[k++ % 3] * d / 4); mc::log(END); }); { mc::Quiet q; t.start(ns(d)); }
    for (int i = 1; i <= 3; i++) { pass((int64_t)n * i / 3 * d + d / 8 * 5 - mc::now()); auto r = runs(); if (r.back().e < 0) continue; uint64_t m = grid(r, 0, d, mc::now()); MC_CHECK(t.invoked_callback_count() == r.size() && t.missed_callback_count() == m, "counts %lu/%lu, expected %zu/%lu", (unsigned long)t.invoked_callback_count(), (unsigned long)t.missed_callback_count(), r.size(), (unsigned long)m); }
    int64_t end = mc::now(); t.stop(); auto r = runs(); uint64_t m = grid(r, 0, d, end); MC_CHECK(t.invoked_callback_count() == r.size() && t.missed_callback_count() == m, "counts %lu/%lu, expected %zu/%lu", (unsigned long)t.invoked_callback_count(), (unsigned long)t.missed_callback_count(), r.size(), (unsigned long)m);
}
void c14_huge(bool missed) { // more invocations, or more missed instants, than 16 bits can count
    high_precision_timer t; uint64_t n = 0; int64_t last = 0; t.set_callback([&] { int64_t now = mc::now(); MC_CHECK(now % D == 0 && now > last, "invocation at %ld", (long)now); last = now; n++; if (missed && n == 2) pass(70000 * D + D / 2); }); { mc::Quiet q; t.start(ns(D)); }
    pass(70010 * D + D / 4); t.stop(); uint64_t want = missed ? 2 + 8 : 70010, wm = missed ? 70000 : 0; MC_CHECK(n == want && t.invoked_callback_count() == want && t.missed_callback_count() == wm, "%lu invocations, counts %lu/%lu, expected %lu/%lu", (unsigned long)n, (unsigned long)t.invoked_callback_count(), (unsigned long)t.missed_callback_count(), (unsigned long)want, (unsigned long)wm);
}
void c15_sessions() { // many sessions of one timer: stopped, restarted while running, with other callbacks and intervals
    high_precision_timer t; int how = mc::choose(3); bool keep = mc::choose(2); 
    for (int s = 0; s < 20; s++) { long from = mc::nevents(); if (!keep || !s) t.set_callback([s] { mc::log(BEGIN, s); mc::log(END); }); int64_t d = D * (1 + s % 3), t0 = mc::now(); MC_CHECK(t.start(ns(d)), "start"); MC_CHECK(t.invoked_callback_count() == 0 && t.missed_callback_count() == 0, "counters of session %d", s); MC_CHECK(mc::live_threads() == 2, "%d threads", mc::live_threads());
        pass(d * (s % 4) + d / 2); auto r = runs(from); grid(r, t0, d, mc::now()); MC_CHECK((int)r.size() == s % 4 && t.invoked_callback_count() == r.size(), "session %d: %zu invocations", s, r.size()); for (auto& x : r) MC_CHECK(x.which == (keep ? 0 : s), "session %d runs the callback of session %ld", s, (long)x.which);
        if (how == 0 || (how == 2 && s % 2)) { t.stop(); MC_CHECK(mc::live_threads() == 1, "thread alive"); MC_CHECK((int)t.invoked_callback_count() == s % 4, "count after stop"); if (how) t.stop(); } }
}
template <size_t N> struct Blob { unsigned char b[N]; explicit Blob(int s) { for (size_t i = 0; i < N; i++) b[i] = (unsigned char)(s + i * 7); } void check(int s) const { for (size_t i = 0; i < N; i++) MC_CHECK(b[i] == (unsigned char)(s + i * 7), "byte %zu of a callback of %zu bytes changed", i, N); } void operator()() const { check(3); mc::log(BEGIN, N); mc::log(END); } void operator()(const Blob& o) const { check(3); o.check(9); mc::log(BEGIN, N + 1); mc::log(END); } };
template <size_t N> void blob(high_precision_timer& t) { for (int a = 0; a < 2; a++) { if (a) t.set_callback(Blob<N>(3), Blob<N>(9)); else t.set_callback(Blob<N>(3)); long from = mc::nevents(); pass(D); auto r = runs(from); MC_CHECK(r.size() == 1 && r[0].which == (int64_t)N + a, "callback of %zu bytes: %zu invocations", N, r.size()); } }
void c15_sizes() { high_precision_timer t; t.set_callback([] {}); { mc::Quiet q; t.start(ns(D)); } pass(D / 2); blob<1>(t); blob<8>(t); blob<16>(t); blob<17>(t); blob<24>(t); blob<32>(t); blob<48>(t); blob<64>(t); blob<100>(t); blob<128>(t); blob<256>(t); blob<1000>(t); t.stop(); }
// ---- two timers: what is done to one leaves the other alone
std::vector<Inv> runs_of(int64_t w) { std::vector<Inv> r; for (size_t i = 0; i < mc::nevents(); i++) { auto& e = mc::event(i); if (e.a != w) continue; if (e.tag == BEGIN) r.push_back({e.t, -1, (long)i, -1, e.a}); if (e.tag == END) { MC_CHECK(!r.empty() && r.back().e < 0, "invocations of one timer overlap"); r.back().e = e.t; } } return r; }
void c14_two() {
    high_precision_timer a, b; int64_t da = (int64_t[]){D, D / 3, 2 * D}[mc::choose(3)], db = (int64_t[]){D, D * 3 / 2, D / 7}[mc::choose(3)], la = (int64_t[]){0, da / 2, da * 2 + 5}[mc::choose(3)], off = (int64_t[]){0, D / 5}[mc::choose(2)]; int end = mc::choose(3);
    a.set_callback([la] { mc::log(BEGIN, 1); pass(la); mc::log(END, 1); }); b.set_callback([] { mc::log(BEGIN, 2); mc::log(END, 2); }); { mc::Quiet q; MC_CHECK(a.start(ns(da)), "start"); pass(off); MC_CHECK(b.start(ns(db)), "start"); }
    auto done = [](const std::vector<Inv>& r) { return r.size() - (!r.empty() && r.back().e < 0); }; pass(4 * D + 11); MC_CHECK(a.invoked_callback_count() == done(runs_of(1)) && b.invoked_callback_count() == runs_of(2).size() && b.missed_callback_count() == 0, "counters of two timers");
    if (end == 0) a.stop(); else if (end == 1) b.stop(); else a.set_callback([] { mc::log(BEGIN, 3); mc::log(END, 3); }); int64_t cut = mc::now(); pass(3 * D + 7); b.stop(); a.stop(); int64_t last = mc::now(); auto ra = runs_of(1), rb = runs_of(2), rc = runs_of(3);
    MC_CHECK(grid(rb, off, db, end == 1 ? cut : last) == 0 && b.missed_callback_count() == 0 && b.invoked_callback_count() == rb.size(), "counters of the second timer"); if (end != 2) { uint64_t m = grid(ra, 0, da, end == 0 ? cut : last); MC_CHECK(a.missed_callback_count() == m && a.invoked_callback_count() == ra.size(), "counters of the first timer"); } else MC_CHECK((rc.empty() ? ra.back().e > last - da : rc[0].b > ra.back().b) && a.invoked_callback_count() == ra.size() + rc.size(), "replaced callback");
}
void c15_exhausted() { // a thread cannot be created, or memory runs out: the call works or it throws and the timer is stopped
    mc::Quiet q; int was = mc::choose(2), n = 1 + mc::choose(6), kind = mc::choose(3), end = mc::choose(2); int64_t which = 0; high_precision_timer t; auto cb = [&](int64_t w) { return [&which, w, pad = std::string(40, 'x')] { mc::log(BEGIN, w + int64_t(pad.size()) - 40); which = w; mc::log(END); }; };
    t.set_callback(cb(1)); if (was) { t.start(ns(D)); pass(D + D / 2); MC_CHECK(runs().size() == 1, "not invoked"); } long from = (long)mc::nevents(); int64_t t0 = mc::now(); bool threw = false, started = false; kind == 0 ? mc::fault_thread(n) : mc::fault_alloc(n);
    try { if (kind < 2) started = t.start(ns(D)); else t.set_callback(cb(2)); } catch (const std::system_error&) { MC_CHECK(kind == 0, "system_error"); threw = true; } catch (const std::bad_alloc&) { MC_CHECK(kind > 0, "bad_alloc"); threw = true; } mc::fault_thread(0); mc::fault_alloc(0);
    if (kind == 0) MC_CHECK(threw == (n == 1), "start reports %s although its thread %d could not be created", threw ? "an error" : "success", n); if (kind < 2) MC_CHECK(threw != started, "start is refused");
    bool running = kind < 2 ? mc::live_threads() == 2 : was; MC_CHECK(mc::live_threads() == (running ? 2 : 1), "threads"); if (kind < 2 && started) MC_CHECK(running, "not running after a successful start"); if (kind == 0 && threw) MC_CHECK(!running, "running after a start that failed"); if (kind == 1 && threw && !was) MC_CHECK(!running, "running after a failed start");
    pass(3 * D + D / 4); auto r = runs(from); if (!running) MC_CHECK(r.empty(), "%zu invocations of a timer whose start failed", r.size()); else { if (kind < 2 && started) grid(r, t0, D, mc::now()); MC_CHECK(r.size() == 3, "%zu invocations", r.size()); for (auto& x : r) MC_CHECK(x.which == (kind == 2 && !threw ? 2 : 1), "wrong callback"); } if (end) return;
    from = (long)mc::nevents(); t0 = mc::now(); t.set_callback(cb(3)); MC_CHECK(t.start(ns(D)), "start after a failed one is refused"); pass(2 * D + D / 4); r = runs(from); grid(r, t0, D, mc::now()); MC_CHECK(r.size() == 2 && t.invoked_callback_count() == 2 && t.missed_callback_count() == 0, "restart"); for (auto& x : r) MC_CHECK(x.which == 3, "wrong callback"); t.stop(); MC_CHECK(mc::live_threads() == 1, "threads after stop");
}
struct Opt { int qt = 0, tt = 0, qs = 0, ts = 1; std::vector<int64_t> late{}; bool idle = true; bool seq = false; std::vector<int64_t> jumps{}; };
template <class F> void add(const char* name, F fn, int qb, int tb, Opt o = {}) { mc::Scenario s; s.name = name; s.fn = fn; s.nprocs = 2; s.seq = o.seq; s.idle_time = o.idle; if (!o.late.empty()) s.late = o.late; if (o.seq) s.step_limit = 4000000; s.jumps = o.jumps; s.quick = {qb, o.qt, o.qs, 120}; s.thorough = {tb, o.tt, o.ts, 150}; mc::add(s); }
}
void register_scenarios() {
    add("C14/durations-4", [] { c14_durations(4, 7, false); }, 0, 0);
    add("C14/durations-3-fine", [] { c14_durations(3, 10, true); }, 0, 0);
    add("C14/durations-2-schedules", [] { c14_durations(2, 4, true); }, 1, 9, {.qs = 1, .ts = 2});
    add("C14/durations-5", [] { c14_durations(mc::thorough() ? 6 : 5, 7, false); }, 0, 0, {.seq = true});
    add("C14/late-4", [] { c14_late(4); }, 0, 2, {.qt = 2, .tt = 4, .late = {1, D / 2, D, 3 * D / 2, 2 * D, 5 * D / 2}});
    add("C14/durations-2-late", [] { c14_durations(2, 7, false); }, 0, 2, {.qt = 2, .tt = 3, .qs = 1, .late = {D / 2, D, 3 * D}});
    add("C14/clock-3", [] { c14_clock(4); }, 1, 3, {.qt = 3, .tt = 4, .late = {D / 2, D}, .jumps = {1, D / 2, D, 5 * D / 2}});
    add("C14/intervals", c14_intervals, 1, 3);
    add("C14/counter-race", c14_counter_race, 4, 9);
    add("C15/stop-at-once", [] { c15_stop(0, 0, false, false); }, 4, 9, {.qs = 1, .ts = 2});
    add("C15/destroy-at-once", [] { c15_stop(0, 0, true, false); }, 5, 9, {.qs = 1, .ts = 2});
    add("C15/stop-between", [] { c15_stop(D / 2, 0, false, true); }, 4, 9, {.qs = 1, .ts = 2});
    add("C15/stop-at-instant", [] { c15_stop(D, 0, false, true); }, 4, 9, {.qs = 1, .ts = 2});
    add("C15/stop-during-invocation", [] { c15_stop(D + D / 4, D / 2, false, true); }, 4, 9);
    add("C15/stop-at-end-of-invocation", [] { c15_stop(D + D / 2, D / 2, false, true); }, 4, 9);
    add("C15/destroy-at-instant", [] { c15_stop(D, D / 2, true, true); }, 5, 9);
    add("C15/restart-at-instant", [] { c15_restart_while_running(D, 0); }, 3, 9);
    add("C15/restart-between", [] { c15_restart_while_running(D / 2, 0); }, 3, 9);
    add("C15/restart-during-invocation", [] { c15_restart_while_running(D + D / 4, D / 2); }, 3, 9);
    add("C15/set-callback-at-instant", [] { c15_set_callback_race(D); }, 4, 9);
    add("C15/set-callback-between", [] { c15_set_callback_race(D / 2); }, 4, 9);
    add("C15/set-callback-by-callback", c15_self_replace, 4, 9);
    add("C15/sequences", [] { c15_sequence(mc::thorough() ? 7 : 5); }, 0, 0, {.seq = true});
    add("C15/sequences-schedules", [] { c15_sequence(mc::thorough() ? 4 : 3); }, 1, 2);
    add("C15/no-callback", c15_no_callback, 2, 9);
    add("C15/bad-interval", c15_bad_interval, 2, 9);
    add("C14/fine", c14_fine, 0, 0, {.seq = true});
    add("C14/long", c14_long, 0, 0, {.seq = true});
    add("C14/huge-invoked", [] { c14_huge(false); }, 0, 0, {.seq = true});
    add("C14/huge-missed", [] { c14_huge(true); }, 0, 0, {.seq = true});
    add("C15/sessions", c15_sessions, 0, 0, {.seq = true});
    add("C15/sizes", c15_sizes, 0, 0, {.seq = true});
    add("C15/exhausted", c15_exhausted, 0, 0, {.seq = true});
    add("C14/two-timers", c14_two, 0, 0, {.seq = true});
}
