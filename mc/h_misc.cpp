// C16 observable, C17 rate limiter, C18 stopwatch, C19 signal handling, C20 service locator, C21 task, C32 singletons, C34 uuid creation
#include "mc.h"
#include "util.h"
#include "twin.h"
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/rate_limiter.hpp>
#include <teiacare/sdk/service_locator.hpp>
#include <teiacare/sdk/signal_handler.hpp>
#include <teiacare/sdk/singleton.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <teiacare/sdk/task.hpp>
#include <teiacare/sdk/uuid_generator.hpp>
#include <algorithm>
#include <array>
#include <climits>
#include <csignal>
#include <cstring>
#include <memory>
#include <set>
#include <stdexcept>
#include <sys/mman.h>
#include <thread>

namespace {
void pass(int64_t n) { if (n > 0) std::this_thread::sleep_for(std::chrono::nanoseconds(n)); }
long count(int tag) { long n = 0; for (size_t i = 0; i < mc::nevents(); i++) n += mc::event(i).tag == tag; return n; }
struct Opt { int qt = 0, tt = 0, qs = 0, ts = 1; std::vector<int64_t> late{}; bool idle = true; bool seq = false; };
template <class F> void add(const char* name, F fn, int qb, int tb, Opt o = {}) { mc::Scenario s; s.name = name; s.fn = fn; s.nprocs = 2; s.seq = o.seq; s.idle_time = o.idle; if (o.seq) s.step_limit = 2000000; if (!o.late.empty()) s.late = o.late; s.quick = {qb, o.qt, o.qs, 100}; s.thorough = {tb, o.tt, o.ts, 150}; mc::add(s); }

// ------------------------------------------------------------------------------------------------ C16
namespace c16 {
enum { INV = 1, RET, CB, CBE };
struct Val { int key = 0, tag = 0; bool operator==(const Val& o) const { return key == o.key; } }; // equality looks at the key only
using obs = tc::sdk::observable<Val>;
// operations: 0..2 assign key (by reference), 3..5 assign key (by move), 6 read, 7 enable, 8 disable, 9 enabled?
struct Rec { int op, res = -1, fired = 0; long inv = 0, ret = LONG_MAX, cb = LONG_MAX; };
int perform(obs& o, int op, int tag) {
    switch (op) {
    case 0: case 1: case 2: { const Val v{op, tag}; o = v; return -1; }
    case 3: case 4: case 5: o = Val{op - 3, tag}; return -1;
    case 6: { Val v = o.value(); return v.key * 1000 + v.tag; }
    case 7: o.callback_enabled(true); return -1;
    case 8: o.callback_enabled(false); return -1;
    default: return o.callback_enabled();
    }
}
struct St { Val v; bool en; };
bool step(St& s, const Rec& r, int tag, bool& fires) {
    fires = false;
    if (r.op < 6) { int k = r.op % 3; if (k != s.v.key) { s.v = Val{k, tag}; fires = s.en; } return fires == (r.fired > 0); }
    if (r.op == 6) return r.res == s.v.key * 1000 + s.v.tag;
    if (r.op == 7) s.en = true; else if (r.op == 8) s.en = false; else return r.res == s.en;
    return true;
}
bool lin(const std::vector<Rec>& h, unsigned done, St s, long lastcb) {
    if (done + 1 == 1u << h.size()) return true;
    long minret = LONG_MAX; for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) minret = std::min(minret, h[i].ret);
    for (size_t i = 0; i < h.size(); i++) {
        if (done >> i & 1 || h[i].inv > minret) continue;
        St n = s; bool f; if (!step(n, h[i], (int)i + 1, f)) continue; if (f && h[i].cb < lastcb) continue;
        if (lin(h, done | 1u << i, n, f ? h[i].cb : lastcb)) return true;
    }
    return false;
}
void judge(size_t nops, Val init) {
    std::vector<Rec> h(nops); int cur[32]; for (int& c : cur) c = -1; bool in = false; std::string txt;
    for (size_t i = 0; i < mc::nevents(); i++) {
        auto& e = mc::event(i); if (e.tag < INV || e.tag > CBE) continue;
        if (e.tag == INV) { cur[e.tid] = (int)e.a; h[e.a].op = (int)e.b; h[e.a].inv = (long)i; txt += " T" + std::to_string(e.tid) + ":op" + std::to_string(e.b); }
        if (e.tag == RET) { if (!h[e.a].fired) h[e.a].ret = (long)i; h[e.a].res = (int)e.b; cur[e.tid] = -1; txt += " T" + std::to_string(e.tid) + ":ret" + std::to_string(e.b); }
        if (e.tag == CB) { MC_CHECK(!in, "callbacks overlap"); in = true; MC_CHECK(cur[e.tid] >= 0 && h[cur[e.tid]].op < 6, "callback outside an assignment"); auto& r = h[cur[e.tid]]; r.fired++; r.cb = (long)i; MC_CHECK(r.fired == 1, "callback invoked twice for one assignment"); MC_CHECK(e.a == r.op % 3 && e.b == cur[e.tid] + 1, "callback gets value %ld/%ld, not the one assigned", (long)e.a, (long)e.b); txt += " T" + std::to_string(e.tid) + ":callback"; }
        if (e.tag == CBE) { in = false; auto& r = h[cur[e.tid]]; r.inv = r.cb; r.ret = (long)i; } // takes effect together with its callback
    }
    MC_CHECK(!in, "a callback is still running"); MC_CHECK(lin(h, 0, {init, true}, -1), "no order of the operations explains this history:%s", txt.c_str());
}
void run(std::vector<std::vector<int>> prog) {
    Val init{0, 0}; obs o(init, [](Val v) { mc::log(CB, v.key, v.tag); mc::log(CBE); }); std::vector<std::thread> th; size_t n = 0;
    auto body = [&o](std::vector<int> ops, size_t base) { for (size_t i = 0; i < ops.size(); i++) { mc::log(INV, base + i, ops[i]); int r = perform(o, ops[i], (int)(base + i) + 1); mc::log(RET, base + i, r); } };
    { mc::Quiet q; for (size_t t = 1; t < prog.size(); t++) { size_t base = 0; for (size_t k = 0; k < t; k++) base += prog[k].size(); th.emplace_back(body, prog[t], base); } }
    body(prog[0], 0); for (auto& t : th) t.join(); for (auto& p : prog) n += p.size();
    size_t i = n; mc::log(INV, i, 6); int r = perform(o, 6, 0); mc::log(RET, i, r); judge(n + 1, init);
}
void pairs() { // all programs of two threads: two operations against one or two
    const int A[] = {0, 1, 4, 6, 7, 8, 9}; auto pick = [&] { return A[mc::choose(7)]; }; int a = pick(), b = pick(), c = pick(); if (mc::thorough()) run({{a, b}, {c, pick()}}); else run({{a, b}, {c}});
}
void history(int depth) { // sequential, including a throwing callback
    bool thr = false; int fired = 0; Val last{-1, -1}; Val cur{0, 0}; bool en = true; bool mv = mc::choose(2);
    std::function<void(Val)> cb = [&](Val v) { fired++; last = v; if (thr) throw std::runtime_error("callback"); };
    auto o = mv ? std::make_unique<obs>(Val{0, 0}, cb) : std::make_unique<obs>((const Val&)cur, cb);
    for (int i = 1; i <= depth; i++) {
        int op = mc::choose(11); if (op == 10) { thr = !thr; continue; } fired = 0; bool caught = false; int r = -1;
        try { r = perform(*o, op, i); } catch (const std::runtime_error&) { caught = true; }
        bool ch = op < 6 && op % 3 != cur.key; if (ch) cur = Val{op % 3, i}; bool f = ch && en; if (op == 7) en = true; if (op == 8) en = false;
        MC_CHECK(fired == f, "%d callbacks instead of %d at step %d (op %d)", fired, f, i, op); if (f) MC_CHECK(last.key == cur.key && last.tag == cur.tag, "callback gets another value"); MC_CHECK(caught == (f && thr), "exception");
        if (op == 6) MC_CHECK(r == cur.key * 1000 + cur.tag, "value"); if (op == 9) MC_CHECK(r == en, "enabled");
        const obs& co = *o; Val a = co.value(), b = static_cast<Val>(*o), c = static_cast<Val>(co); MC_CHECK(a.key == cur.key && a.tag == cur.tag && b.tag == a.tag && c.tag == a.tag && co.callback_enabled() == en, "state %d/%d, expected %d/%d after step %d", a.key, a.tag, cur.key, cur.tag, i);
    }
}
// values of several types, among them such as differ in the last place only
template <class T> void typed(std::vector<T> v, int depth) {
    std::vector<T> got; int a = mc::choose((int)v.size()); T cur = v[a]; tc::sdk::observable<T> o(cur, [&](T x) { got.push_back(x); }); auto same = [](const T& x, const T& y) { if constexpr (std::is_floating_point_v<T>) return memcmp(&x, &y, sizeof(T)) == 0; else return x == y; };
    for (int i = 0; i < depth; i++) { T x = v[mc::choose((int)v.size())], y = x; bool ch = !(x == cur); got.clear(); if (mc::choose(2)) o = std::move(x); else { o = (const T&)x; MC_CHECK(same(x, y), "the assigned object is modified"); } if (ch) cur = y; MC_CHECK(got.size() == (size_t)ch, "%zu callbacks", got.size()); if (ch) MC_CHECK(same(got[0], y), "callback value"); MC_CHECK(same(o.value(), cur), "value"); }
}
void types() {
    const int d = mc::thorough() ? 3 : 2; using S = std::string;
    switch (mc::choose(7)) { case 0: typed<int>({0, 1, -1, 2, 255, 256, 257, 65536, INT_MAX, INT_MIN}, d); break; case 1: typed<double>({0., -0., 1., 1. + 2.3e-16, 1. - 1.2e-16, 1e-300, 1.5e-300, 5e-324, 1e300, 1e300 * 1.0000000000000003, -1., 1. / 0., -1. / 0., 0. / 0.}, d); break; case 2: typed<float>({0.f, -0.f, 1.f, 1.0000001f, 1e-40f, 2e-40f, 16777216.f, 16777217.f, 1e38f}, d); break;
    case 3: typed<S>({"", "a", "A", S("a\0b", 3), S("a\0c", 3), S(100, 'x'), S(99, 'x') + "y", "y" + S(99, 'x'), S(101, 'x'), "a "}, d); break; case 4: typed<bool>({false, true}, d); break; case 5: typed<uint64_t>({0, 1, 1ull << 32, (1ull << 32) + 1, 1ull << 53, (1ull << 53) + 1, ~0ull}, d); break; default: typed<std::vector<int>>({{}, {1}, {1, 2}, {2, 1}, std::vector<int>(50, 7), std::vector<int>(51, 7)}, d); }
}
void many() { // hundreds of assignments
    int n = 0, on = 0; int64_t last = -1; tc::sdk::observable<int64_t> o(0, [&](int64_t v) { n++; last = v; }); int step = (int[]){1, 3, 1 << 20}[mc::choose(3)]; bool toggle = mc::choose(2);
    for (int i = 1; i <= 600; i++) { bool en = !toggle || i % 5 < 3; o.callback_enabled(en); o = (int64_t)i * step; on += en; MC_CHECK(n == on && (!en || last == (int64_t)i * step) && o.value() == (int64_t)i * step, "assignment %d: %d callbacks, expected %d", i, n, on); o = (int64_t)i * step; MC_CHECK(n == on, "an equal assignment invokes the callback"); }
}
void two() { // two observables: values, switches and callbacks of one are not those of the other
    int n[2] = {}, last[2] = {-1, -1}, cur[2] = {5, 5}, want[2] = {}; bool en[2] = {true, true}; tc::sdk::observable<int> a(5, [&](int v) { n[0]++; last[0] = v; }), b(5, [&](int v) { n[1]++; last[1] = v; }); tc::sdk::observable<int>* o[2] = {&a, &b};
    for (int i = 0; i < (mc::thorough() ? 6 : 5); i++) {
        int k = mc::choose(2), op = mc::choose(4); if (op < 2) { bool ch = cur[k] != 5 + op; cur[k] = 5 + op; *o[k] = 5 + op; if (ch && en[k]) want[k]++; } else { en[k] = op == 2; o[k]->callback_enabled(en[k]); }
        for (int x = 0; x < 2; x++) MC_CHECK(o[x]->value() == cur[x] && o[x]->callback_enabled() == en[x] && n[x] == want[x], "observable %d after operation %d on observable %d", x, op, k);
    }
}
void two_at_once() { // one's callback assigns to the other, while another thread assigns to that one, too
    std::vector<int> got; tc::sdk::observable<int> b(0, [&](int v) { got.push_back(v); }), a(0, [&](int v) { b = v; }); std::thread t([&] { b = 7; }); a = 3; t.join(); MC_CHECK(a.value() == 3 && got.size() == 2 && got[0] + got[1] == 10 && b.value() == got[1], "values of two observables");
}
void exhausted() { // memory runs out during an assignment or a read: it throws as a whole
    std::string got(200, '-'); int calls = 0; auto val = [](int i) { return std::string(60 + i, char('a' + i)); }; tc::sdk::observable<std::string> o(val(0), [&](const std::string& v) { calls++; if (v.size() <= got.capacity()) got.assign(v); }); int cur = 0;
    for (int i = 0; i < (mc::thorough() ? 4 : 3); i++) { int op = mc::choose(7), k = 1 + mc::choose(4), x = op % 3, old = cur, before = calls; bool threw = false; std::string in = val(x), out; mc::fault_alloc(k); try { if (op < 3) o = (const std::string&)in; else if (op < 6) o = std::move(in); else out = o.value(); } catch (const std::bad_alloc&) { threw = true; } mc::fault_alloc(0); std::string now = o.value();
        if (op == 6) MC_CHECK(now == val(old) && calls == before && (threw || out == now), "a read"); else if (!threw) { MC_CHECK(now == val(x) && calls - before == (x != old) && (x == old || got == val(x)), "assignment"); cur = x; } else { MC_CHECK(now == val(old) || now == val(x), "a failed assignment leaves something else"); MC_CHECK(calls == before || (now == val(x) && got == now), "callback of a failed assignment"); cur = now == val(x) ? x : old; } }
}
void faults() { // the n-th copy of a value fails: the assignment or read fails as a whole, the lock is free again and nobody else notices
    using F = Fragile; Fuse::live = 0; {
        int calls = 0, last = -1; tc::sdk::observable<F> o(F(0), [&](F v) { calls++; last = v.v; }); int cur = 0, depth = mc::thorough() ? 4 : 3;
        for (int i = 0; i < depth; i++) {
            int op = mc::choose(8), n = mc::choose(4), before = calls, x = op % 3, old = cur; bool blown = false; int got = -1; F in(x); Fuse::set(n);
            try { if (op < 3) o = (const F&)in; else if (op < 6) o = std::move(in); else { F v = op == 6 ? o.value() : static_cast<F>(o); got = v.v; } } catch (const Blown&) { blown = true; }
            Fuse::set(-1); int now = o.value().v;
            if (op < 6) { if (!blown) { MC_CHECK(now == x && calls - before == (x != old) && (x == old || last == x), "assignment of %d to %d yields %d with %d callbacks", x, old, now, calls - before); } else MC_CHECK((now == old || now == x) && calls - before <= 1 && (calls == before || (last == x && now == x)), "a failed assignment of %d to %d yields %d with %d callbacks", x, old, now, calls - before); }
            else MC_CHECK(now == old && calls == before && (blown || got == old), "a %s read of %d yields %d, then %d with %d callbacks", blown ? "failed" : "good", old, got, now, calls - before);
            cur = now; std::thread t([&] { MC_CHECK(o.value().v == cur, "read by another thread"); }); t.join();
        } }
    MC_CHECK(Fuse::live == 0, "%d values left", Fuse::live);
}
}
// ------------------------------------------------------------------------------------------------ C17
namespace c17 {
void pace(int n, bool fine) {
    const size_t rates[] = {1, 3, 50, 1000, 7, 60, 144, 44100}; size_t r = rates[mc::choose(fine ? 8 : 4)]; double p = 1e9 / (double)r; int64_t late_start = mc::choose(2) ? 12345678 : 0;
    pass(late_start); int64_t t0 = mc::now(); tc::sdk::rate_limiter rl(r);
    const double D[] = {0, .5, 1, 1.5, 3, .999}; 
    for (int k = 1; k <= n; k++) {
        pass((int64_t)(p * D[mc::choose(fine ? 6 : 5)])); int64_t c = mc::now(); rl.sync(); int64_t e = mc::now(); int64_t tgt = t0 + (int64_t)((double)k * 1e9 / (double)r);
        MC_CHECK(e >= tgt - 2, "call %d of rate %zu returns at %ld, before %ld", k, r, (long)e, (long)tgt);
        if (c > tgt + 2) MC_CHECK(e == c, "call %d of rate %zu at %ld waits although its instant %ld has passed", k, r, (long)c, (long)tgt); else MC_CHECK(e <= std::max(tgt, c) + 2 || mc::late_jump(std::max(c, tgt - 2), e) || mc::late_jump(tgt + 2, e) || mc::late_jump(tgt, e), "call %d of rate %zu returns at %ld, long after %ld", k, r, (long)e, (long)tgt);
    }
}
bool spun(int64_t tgt, int64_t e) { for (int64_t t = tgt - 2; t <= tgt + 2; t++) if (mc::late_jump(t, e)) return true; return mc::nevents() > 4000; } // (an implementation that polls the clock sees it only every now and then)
void many(int n) { const size_t rates[] = {30, 3, 1000, 999, 60}; size_t r = rates[mc::choose(5)]; tc::sdk::rate_limiter rl(r); for (int k = 1; k <= n; k++) { rl.sync(); int64_t e = mc::now(), tgt = (int64_t)((double)k * 1e9 / (double)r); MC_CHECK(e >= tgt - 2 && (e <= tgt + 2 || spun(tgt, e)), "call %d of rate %zu returns at %ld instead of %ld", k, r, (long)e, (long)tgt); } }
void far() { // gaps of hours between the calls, thousands of instants behind
    const size_t rates[] = {1, 60, 1000, 44100}; size_t r = rates[mc::choose(4)]; const int64_t G[] = {0, 1000000000, 3600000000000, 86400000000000}; tc::sdk::rate_limiter rl(r); int64_t late = G[mc::choose(4)] / (r > 1000 ? 100 : 1); pass(late); int k = 0;
    for (int i = 0; i < 2000; i++) { int64_t c = mc::now(); rl.sync(); k++; int64_t e = mc::now(), tgt = (int64_t)((double)k * 1e9 / (double)r); MC_CHECK(e >= tgt - 2, "call %d of rate %zu returns at %ld, before %ld", k, r, (long)e, (long)tgt); MC_CHECK(e <= std::max(c, tgt) + 2 || spun(tgt, e), "call %d of rate %zu at %ld returns at %ld, its instant was %ld", k, r, (long)c, (long)e, (long)tgt); }
}
void independent() { // two limiters in one thread do not disturb one another
    tc::sdk::rate_limiter a(100), b(250); int ka = 0, kb = 0; int64_t ta = 0;
    for (int i = 0; i < 6; i++) { int64_t c = mc::now(); if (mc::choose(2)) { a.sync(); ta = (int64_t)++ka * 10000000; } else { b.sync(); ta = (int64_t)++kb * 4000000; } int64_t e = mc::now(); MC_CHECK(e >= ta - 2 && (e <= std::max(c, ta) + 2 || spun(ta, e)), "returns at %ld, expected %ld", (long)e, (long)std::max(c, ta)); }
}
}
// ------------------------------------------------------------------------------------------------ C18
namespace c18 {
using thirds = std::chrono::duration<int64_t, std::ratio<1, 3>>;
void history(int depth) {
    const int64_t ST[] = {0, 1, 999, 1000000, 1500000000, 3599999999999, mc::choose(2) ? 90061000000001 : 315576000000000007};
    pass(mc::choose(2) ? 17 : 0); tc::sdk::stopwatch w; auto base = w.start_time(); int64_t born = mc::now(), start = born; auto real = tc::sdk::clock::now(); MC_CHECK(base == real, "start time");
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(8); if (op == 7) { w.reset(); start = mc::now(); } else pass(ST[op]);
        for (int rep = 0; rep < 2; rep++) { // reading changes nothing
            int64_t e = mc::now() - start; using namespace std::chrono; const tc::sdk::stopwatch& c = w;
            MC_CHECK(c.elapsed().count() == e, "elapsed %ld, expected %ld", (long)c.elapsed().count(), (long)e);
            MC_CHECK(c.start_time() - base == nanoseconds(start - born), "start time");
            MC_CHECK(c.elapsed<nanoseconds>().count() == e && c.elapsed<microseconds>().count() == e / 1000 && c.elapsed<milliseconds>().count() == e / 1000000 && c.elapsed<seconds>().count() == e / 1000000000 && c.elapsed<std::chrono::minutes>().count() == e / 60000000000 && c.elapsed<std::chrono::hours>().count() == e / 3600000000000 && c.elapsed<thirds>().count() == (int64_t)((__int128)e * 3 / 1000000000), "converted elapsed time of %ld ns", (long)e);
        }
    }
}
}
// ------------------------------------------------------------------------------------------------ C19
namespace c19 {
enum { CB = 1, CBE, WAITED, QUIT, QUITTED };
void cb(const char* m, int s) { mc::log(CB, s, m ? (int64_t)(strcmp(m, "SIGINT") == 0 ? 1 : strcmp(m, "SIGABRT") == 0 ? 2 : strcmp(m, "SIGTERM") == 0 ? 3 : strcmp(m, "bye") == 0 ? 4 : 9) : 0); mc::log(CBE); }
const int SIG[] = {SIGINT, SIGABRT, SIGTERM}; const char* const SNAME[] = {"SIGINT", "SIGABRT", "SIGTERM"};
void emit(int k) { mc::log(QUIT, k); if (k < 3) mc::deliver_signal(SIG[k]); else tc::sdk::quit("bye", 42); mc::log(QUITTED, k); }
void waiter() { tc::sdk::wait_for_quit(); mc::log(WAITED); }
struct End { int quits, waits; bool callback; }; End e_;
void judge(void*) {
    long cbs = 0, waited = 0, begun = 0; 
    for (size_t i = 0; i < mc::nevents(); i++) { auto& e = mc::event(i);
        if (e.tag == QUIT) begun++; if (e.tag == CBE) cbs++;
        if (e.tag == CB) MC_CHECK((e.a == SIGINT && e.b == 1) || (e.a == SIGABRT && e.b == 2) || (e.a == SIGTERM && e.b == 3) || (e.a == 42 && e.b == 4), "callback gets signal %ld with name %ld", (long)e.a, (long)e.b);
        if (e.tag == WAITED) { waited++; MC_CHECK(waited <= (e_.callback ? cbs : begun), "a waiter returns before the callback of a quit has finished"); } }
    MC_CHECK(waited == std::min(e_.quits, e_.waits), "%ld waiters released by %d quits", waited, e_.quits); MC_CHECK(!e_.callback || cbs == e_.quits, "%ld callbacks for %d quits", cbs, e_.quits); MC_CHECK(count(QUITTED) == e_.quits, "a quit did not return");
    mc::outcome((uint64_t)waited);
}
void run(std::vector<int> quits, int waiters, bool callback, bool main_waits) {
    e_ = {(int)quits.size(), waiters, callback}; if (callback) tc::sdk::install_signal_handlers(cb); else tc::sdk::install_signal_handlers();
    for (int s : SIG) MC_CHECK(mc::signal_installed(s), "signal %d is not handled", s);
    mc::at_end(judge, nullptr); if (waiters > (int)quits.size()) mc::expect_deadlock(); 
    std::vector<std::thread> th; { mc::Quiet q; for (int k : quits) th.emplace_back([k] { emit(k); }); for (int i = main_waits; i < waiters; i++) th.emplace_back(waiter); }
    if (main_waits) waiter(); for (auto& t : th) t.join();
}
// signals which interrupt the threads wherever they are: each one makes its callback run and releases one waiter
void arm(int k) { mc::log(QUIT, k); mc::arm_signal(SIG[k]); }
void interrupts(std::vector<std::vector<int>> prog, bool callback) { // per thread: 0-2 a signal may come from now on, 3 programmatic quit, 4 wait
    int q = 0, w = 0; for (auto& p : prog) for (int op : p) (op == 4 ? w : q)++; e_ = {q, w, callback}; if (callback) tc::sdk::install_signal_handlers(cb); else tc::sdk::install_signal_handlers();
    auto body = [](const std::vector<int>& ops) { int armed = 0; for (int op : ops) { if (op < 3) { arm(op); armed++; } else if (op == 3) emit(3); else waiter(); } mc::deliver_armed(); for (; armed; armed--) mc::log(QUITTED); };
    mc::at_end(judge, nullptr); if (w > q) mc::expect_deadlock();
    std::vector<std::thread> th; { mc::Quiet qt; for (size_t i = 1; i < prog.size(); i++) th.emplace_back(body, prog[i]); } body(prog[0]); for (auto& t : th) t.join();
}
void many() { // hundreds of quits before, between and after the waits
    int n = (int[]){1, 2, 9, 127, 128, 129, 255, 256, 257, 300, 70000}[mc::choose(11)], mode = mc::choose(3), seen = 0; std::string name; int last = 0; bool cbk = mc::choose(2); auto f = [&](const char* m, int s) { seen++; name = m; last = s; }; if (cbk) tc::sdk::install_signal_handlers(f); else tc::sdk::install_signal_handlers(); if (n > 300 && mode == 2) return;
    auto q = [&](int i) { if (i % 4 < 3) mc::deliver_signal(SIG[i % 4]); else tc::sdk::quit(i % 8 == 3 ? "" : "bye", -i); if (cbk) MC_CHECK(seen == i + 1 && (i % 4 < 3 ? last == SIG[i % 4] && name == SNAME[i % 4] : last == -i && name == (i % 8 == 3 ? "" : "bye")), "quit %d: callback %d with %s/%d", i, seen, name.c_str(), last); };
    if (mode == 0) { for (int i = 0; i < n; i++) q(i); for (int i = 0; i < n; i++) tc::sdk::wait_for_quit(); } else if (mode == 1) for (int i = 0; i < n; i++) { q(i); tc::sdk::wait_for_quit(); }
    else { int got = 0; std::thread t([&] { for (int i = 0; i < n; i++) { tc::sdk::wait_for_quit(); mc::log(WAITED); } got = n; }); for (int i = 0; i < n; i++) { q(i); if (i % 5 == 0) pass(1); } t.join(); MC_CHECK(got == n, "waits"); }
    mc::expect_deadlock(); seen = 0; static int ended; ended = 0; mc::at_end([](void*) { MC_CHECK(!ended, "a wait returns without a quit"); }, nullptr); tc::sdk::wait_for_quit(); ended = 1;
}
void mixed(int waiters) { int a = mc::choose(4), b = mc::choose(4); run({a, b}, waiters, mc::choose(2), false); }
void history(int depth) {
    int which = -1, seen = 0, lastsig = 0, credit = 0; std::string name; auto mk = [&](int w) { return [&, w](const char* m, int s) { MC_CHECK(w == which, "the callback replaced by another one is invoked"); seen++; lastsig = s; name = m; }; }; bool inst = false;
    for (int i = 0; i < depth; i++) { seen = 0;
        switch (int op = mc::choose(8)) {
        case 0: case 1: which = op; tc::sdk::install_signal_handlers(mk(op)); inst = true; break;
        case 2: which = -1; tc::sdk::install_signal_handlers(); inst = true; break;
        case 3: case 4: case 5: if (!inst) break; if (op == 5) ::raise(SIG[2]); else mc::deliver_signal(SIG[op - 3]); credit++; MC_CHECK(seen == (which >= 0), "%d callbacks", seen); if (which >= 0) MC_CHECK(lastsig == SIG[op - 3] && name == SNAME[op - 3], "signal %d named %s", lastsig, name.c_str()); break;
        case 6: tc::sdk::quit("x y", 7); credit++; MC_CHECK(seen == (which >= 0), "%d callbacks", seen); if (which >= 0) MC_CHECK(lastsig == 7 && name == "x y", "quit arguments"); break;
        default: if (credit) { tc::sdk::wait_for_quit(); credit--; MC_CHECK(seen == 0, "callback from wait"); } }
        if (inst) for (int s : SIG) MC_CHECK(mc::signal_installed(s), "signal %d is no longer handled", s);
    }
}
}
// ------------------------------------------------------------------------------------------------ C20
// two interfaces of the same name, each known to one file of the program only
namespace twin {
struct IService { virtual ~IService() = default; virtual int value() const = 0; };
struct Service final : IService { int n; explicit Service(int k) : n(k) {} int value() const override { return n; } };
}
namespace c20 {
int live, made, died; struct Count { Count() { live++; made++; } Count(const Count&) = delete; ~Count() { live--; died++; } };
struct IA { virtual ~IA() = default; virtual int a() const = 0; virtual const void* self() const = 0; };
struct IB { virtual ~IB() = default; virtual int b() const = 0; virtual const void* selfb() const = 0; };
struct Pad { virtual ~Pad() = default; virtual int pad() const { return 77; } int64_t x = 0x1111; };
struct Single final : IA, Count { int v; explicit Single(int n) : v(n) {} int a() const override { return v; } const void* self() const override { return this; } };
struct Multi final : Pad, IA, Count { int v; std::string s; std::unique_ptr<int> p; Multi(std::string t, std::unique_ptr<int> q) : v(*q), s(t), p(std::move(q)) {} int a() const override { return s == "multi" && x == 0x1111 && p ? v : -1; } const void* self() const override { return this; } };
struct VBase : virtual IA { int64_t y = 5; };
struct Virt final : Pad, VBase, Count { int v; Virt(int n, const char* t) : v(t[0] == 'v' ? n : -1) {} int a() const override { return y == 5 && x == 0x1111 ? v : -1; } const void* self() const override { return this; } };
struct Both final : IA, IB, Count { int v; explicit Both(int n) : v(n) {} int a() const override { return v; } int b() const override { return v; } const void* self() const override { return this; } const void* selfb() const override { return this; } };
struct Thrower final : IA { explicit Thrower(int) { throw std::runtime_error("construction"); } int a() const override { return 0; } const void* self() const override { return this; } };
struct Plain : Count { int v; explicit Plain(int n) : v(n) {} };
void twins() {
    auto& L = tc::sdk::service_locator::instance(); int mine = -1, theirs = -1, depth = mc::thorough() ? 7 : 6;
    for (int i = 1; i <= depth; i++) {
        switch (mc::choose(6)) {
        case 0: MC_CHECK((L.register_service<twin::IService, twin::Service>(i)) == (mine < 0), "registration"); if (mine < 0) mine = i; break;
        case 1: MC_CHECK(L.register_instance<twin::IService>(std::make_shared<twin::Service>(i)) == (mine < 0), "registration of an instance"); if (mine < 0) mine = i; break;
        case 2: MC_CHECK(other::reg(i) == (theirs < 0), "registration for the other interface of this name"); if (theirs < 0) theirs = i; break;
        case 3: MC_CHECK(other::reg_instance(i) == (theirs < 0), "registration of an instance for the other interface of this name"); if (theirs < 0) theirs = i; break;
        case 4: MC_CHECK(L.unregister<twin::IService>() == (mine >= 0), "removal"); mine = -1; break;
        default: MC_CHECK(other::unreg() == (theirs >= 0), "removal of the other interface of this name"); theirs = -1; break;
        }
        MC_CHECK(L.is_registered<twin::IService>() == (mine >= 0) && other::has() == (theirs >= 0), "an interface is registered which is not, or the other way round (%d, %d)", mine, theirs);
        auto s = L.get<twin::IService>(); MC_CHECK(!s == (mine < 0) && (!s || s->value() == mine) && other::get() == theirs, "wrong service");
    }
}
// many interfaces at once: each yields its own object
template <int N> struct Iface { virtual ~Iface() = default; virtual int get() const = 0; };
template <int N> struct Impl final : Pad, Iface<N>, Count { int v; explicit Impl(int n) : v(n) {} int get() const override { return v * 100 + N; } };
template <int... N> void crowd_(std::integer_sequence<int, N...>) {
    live = made = died = 0; auto& L = tc::sdk::service_locator::instance(); constexpr int K = sizeof...(N); int n = (int[]){1, 2, 13, 14, 29, 30, K}[mc::choose(7)], gone = mc::choose(3) * (n - 1) / 2, rounds = mc::choose(2) ? 1 : 6; const void* p[K] = {}; int have[K] = {};
    auto each = [&](auto f) { (f(std::integral_constant<int, N>{}), ...); };
    auto check = [&] { int c = 0; each([&](auto i) { auto g = L.get<Iface<i>>(); MC_CHECK(L.is_registered<Iface<i>>() == (have[i] != 0) && !g == !have[i], "interface %d", (int)i); if (g) { MC_CHECK(g->get() == have[i] * 100 + i, "interface %d yields another object", (int)i); if (!p[i]) p[i] = g.get(); MC_CHECK(p[i] == g.get() && g.use_count() == 2, "object of interface %d", (int)i); c++; } }); MC_CHECK(live == c && made - died == live, "%d services alive, expected %d", live, c); };
    for (int r = 1; r <= rounds; r++) { each([&](auto i) { if (i >= n) return; MC_CHECK((L.register_service<Iface<i>, Impl<i>>(r)) == !have[i], "registration of interface %d", (int)i); if (!have[i]) have[i] = r; }); check(); each([&](auto i) { MC_CHECK(!(L.register_service<Iface<i>, Impl<i>>(77)) || i >= n, "a second registration is accepted"); if (i >= n) { have[i] = 77; } }); check();
        each([&](auto i) { if (i == gone || i >= n || i % 3 == r % 3) { MC_CHECK(L.unregister<Iface<i>>() && !L.unregister<Iface<i>>(), "unregister"); have[i] = 0; p[i] = nullptr; } }); check(); }
}
void exhausted() { // memory runs out during a registration: nothing is registered and nothing is left behind
    live = made = died = 0; auto& L = tc::sdk::service_locator::instance(); int k = 1 + mc::choose(8), what = mc::choose(4), pre = mc::choose(3); std::shared_ptr<IA> mine = std::make_shared<Both>(9); if (pre == 1) MC_CHECK((L.register_service<IB, Both>(3)), "registration"); if (pre == 2) MC_CHECK((L.register_service<IA, Single>(4)), "registration"); std::string text("multi"); auto number = std::make_unique<int>(7); bool threw = false, r = false; int before = live;
    mc::fault_alloc(k); try { if (what == 0) r = L.register_service<IA, Single>(7); else if (what == 1) r = L.register_service<IA, Multi>(text, std::move(number)); else if (what == 2) r = L.register_instance<IA>(mine); else r = L.unregister<IA>(); } catch (const std::bad_alloc&) { threw = true; } mc::fault_alloc(0);
    if (!threw) MC_CHECK(r == (what == 3 ? pre == 2 : pre != 2), "returned %d", r); else MC_CHECK(what < 3 && live == before, "%d services instead of %d after a failed registration", live, before);
    int a = pre == 2 ? 4 : 0; if (!threw && r) a = what == 3 ? 0 : what == 2 ? 9 : 7; auto g = L.get<IA>(); MC_CHECK(!!g == !!a && L.is_registered<IA>() == !!a && (!g || g->a() == a), "after a registration that %s", threw ? "failed" : "did not fail"); auto h = L.get<IB>(); MC_CHECK(!!h == (pre == 1) && (!h || h->b() == 3), "another service"); if (!a) MC_CHECK((L.register_service<IA, Single>(8)) && L.get<IA>()->a() == 8, "registration after a failed one");
}
void crowd() { crowd_(std::make_integer_sequence<int, 40>{}); }
void history(int depth, bool wide) {
    live = made = died = 0; auto& L = tc::sdk::service_locator::instance(); MC_CHECK(&L == &tc::sdk::service_locator::instance(), "instance");
    int a = 0, b = 0, c = 0, next = 1; std::shared_ptr<IA> ha; std::shared_ptr<IB> hb; std::shared_ptr<Plain> hc; int va = 0, vb = 0, vc = 0; const IA* pa = nullptr; const IB* pb = nullptr; const Plain* pc = nullptr; // registered values, held values, first seen pointers
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(wide ? 16 : 11), n = next++; bool r;
        auto reg = [&](int& slot, bool ok) { MC_CHECK(ok == (slot == 0), "registration returned %d with %d registered", ok, slot); if (!slot) slot = n; };
        switch (op) {
        case 0: r = L.register_service<IA, Single>(n); if (!a) pa = nullptr; reg(a, r); break;
        case 1: r = L.register_service<IA, Multi>(std::string("multi"), std::make_unique<int>(n)); if (!a) pa = nullptr; reg(a, r); break;
        case 2: r = L.register_service<IB, Both>(n); if (!b) pb = nullptr; reg(b, r); break;
        case 3: { std::shared_ptr<IA> p = std::make_shared<Both>(n); if (!a) pa = p.get(); reg(a, L.register_instance<IA>(std::move(p))); break; }
        case 4: r = L.unregister<IA>(); MC_CHECK(r == (a != 0), "unregister returned %d", r); a = 0; pa = nullptr; break;
        case 5: r = L.unregister<IB>(); MC_CHECK(r == (b != 0), "unregister returned %d", r); b = 0; pb = nullptr; break;
        case 6: ha = L.get<IA>(); va = a; break;
        case 7: hb = L.get<IB>(); vb = b; break;
        case 8: ha.reset(); va = 0; break;
        case 9: r = L.register_service<IA, Virt>(n, "v"); if (!a) pa = nullptr; reg(a, r); break;
        case 10: hb.reset(); vb = 0; break;
        case 11: { auto p = std::make_shared<Plain>(n); if (!c) pc = p.get(); reg(c, L.register_instance(p)); break; }
        case 12: r = L.unregister<Plain>(); MC_CHECK(r == (c != 0), "unregister returned %d", r); c = 0; pc = nullptr; break;
        case 13: hc = L.get<Plain>(); vc = c; break;
        case 14: { bool thrown = false; try { (void)L.register_service<IA, Thrower>(1); } catch (const std::runtime_error&) { thrown = true; } MC_CHECK(thrown || a, "construction error swallowed"); break; }
        case 15: { auto p = std::make_shared<Both>(n); if (!b) pb = p.get(); reg(b, L.register_instance<IB>(p)); break; }
        }
        // every interface yields exactly its registered object, always the same one and entirely that object
        MC_CHECK(L.is_registered<IA>() == (a != 0) && L.is_registered<IB>() == (b != 0) && L.is_registered<Plain>() == (c != 0) && !L.is_registered<Pad>(), "is_registered");
        auto ga = L.get<IA>(); auto gb = L.get<IB>(); auto gc = L.get<Plain>(); MC_CHECK(!ga == !a && !gb == !b && !gc == !c, "get");
        if (ga) { if (!pa) pa = ga.get(); MC_CHECK(ga.get() == pa, "another object than before"); MC_CHECK(ga->a() == a, "service yields %d, expected %d", ga->a(), a); MC_CHECK(dynamic_cast<const void*>(ga.get()) == ga->self(), "identity"); }
        if (gb) { if (!pb) pb = gb.get(); MC_CHECK(gb.get() == pb, "another object than before"); MC_CHECK(gb->b() == b && gb->selfb() == dynamic_cast<const void*>(gb.get()), "service B"); }
        if (gc) { if (!pc) pc = gc.get(); MC_CHECK(gc.get() == pc && gc->v == c, "instance"); }
        ga.reset(); gb.reset(); gc.reset();
        if (ha) MC_CHECK(ha->a() == va, "held service yields %d, expected %d", ha->a(), va); else MC_CHECK(!va, "held"); if (hb) MC_CHECK(hb->b() == vb, "held service B"); else MC_CHECK(!vb, "held B"); if (hc) MC_CHECK(hc->v == vc, "held instance");
        std::set<int> s{a, b, c, va, vb, vc}; s.erase(0); MC_CHECK(live == (int)s.size(), "%d services alive, expected %zu after step %d (op %d)", live, s.size(), i, op); MC_CHECK(made - died == live, "lifetimes");
    }
}
}
// ------------------------------------------------------------------------------------------------ C21
namespace c21 {
struct Tr { int calls = 0, copies = 0, live = 0, obj = 0; }; Tr T[4];
struct Tok { int i; bool owner = true; explicit Tok(int n) : i(n) { T[i].live++; } Tok(Tok&& o) noexcept : i(o.i), owner(o.owner) { o.owner = false; T[i].live++; } Tok(const Tok& o) : i(o.i) { T[i].live++; T[i].copies++; } ~Tok() { T[i].live--; if (owner) T[i].obj++; } };
int fcalls; void freefn() { mc::log(1); fcalls++; }
struct Functor { Tok t; int n = 0; explicit Functor(int i) : t(i) {} void operator()() { MC_CHECK(t.owner, "a moved-from callable is invoked"); n++; T[t.i].calls++; MC_CHECK(n == T[t.i].calls, "state lost"); } };
// callables of every size and alignment, kept, moved and invoked many times
template <size_t N, size_t A = 1> struct alignas(A) Blob { unsigned char b[N]; int n = 0; int* out; Blob(int* o) : out(o) { for (size_t i = 0; i < N; i++) b[i] = (unsigned char)(3 + i * 7); } void operator()() { MC_CHECK((uintptr_t)this % A == 0, "callable of alignment %zu at %p", A, (void*)this); for (size_t i = 0; i < N; i++) MC_CHECK(b[i] == (unsigned char)(3 + i * 7), "byte %zu of a callable of %zu bytes changed", i, N); *out = ++n; } };
template <size_t N, size_t A = 1> void blob(int calls) { int out = 0; Blob<N, A> c(&out); std::vector<tc::sdk::task> v; v.emplace_back(std::move(c)); for (int i = 1; i <= calls; i++) { if (i % 3 == 0) { tc::sdk::task t(std::move(v[0])); v.clear(); v.push_back(std::move(t)); } v[0](); MC_CHECK(out == i, "callable of %zu bytes: state %d after %d invocations", N, out, i); } }
void sizes() { int n = (int[]){1, 4, 300}[mc::choose(3)]; blob<1>(n); blob<4>(n); blob<8>(n); blob<12>(n); blob<16>(n); blob<20>(n); blob<24>(n); blob<28>(n); blob<32>(n); blob<40>(n); blob<48>(n); blob<52>(n); blob<56>(n); blob<64>(n); blob<72>(n); blob<100>(n); blob<128>(n); blob<256>(n); blob<1000>(n); blob<4096>(n); blob<16, 16>(n); blob<32, 32>(n); blob<64, 64>(n); blob<128, 128>(n); }
struct Member { int n = 0; void hit(int k) { n += k; } };
struct Brittle { int* calls; static inline int left = -1, live = 0, owners = 0; bool owner = true; explicit Brittle(int* c) : calls(c) { live++; } Brittle(Brittle&& o) : calls(o.calls), owner(o.owner) { if (left >= 0 && left-- == 0) throw Blown{0}; o.owner = false; live++; } ~Brittle() { live--; } void operator()() { MC_CHECK(owner, "a moved-from callable is invoked"); ++*calls; } };
void faults() { // the n-th move of the callable fails: there is no task, and nothing is left behind
    int calls = 0, want = 0; Brittle::live = 0; { std::vector<tc::sdk::task> v; v.reserve(2); int rounds = mc::choose(3) + 1;
        for (int r = 0; r < rounds; r++) { int n = mc::choose(6); bool blown = false; Brittle b(&calls); size_t had = v.size(); Brittle::left = n - 1; try { if (mc::choose(2)) v.emplace_back(std::move(b)); else v.emplace_back([c = std::move(b)]() mutable { c(); }); } catch (const Blown&) { blown = true; } Brittle::left = -1;
            MC_CHECK(v.size() == had + !blown, "tasks"); MC_CHECK(calls == want, "invoked"); for (auto& t : v) { t(); want++; } MC_CHECK(calls == want, "%d calls instead of %d", calls, want); if (v.size() == 2) v.clear(); } }
    MC_CHECK(Brittle::live == 0, "%d callables left", Brittle::live);
}
void history(int depth) {
    for (auto& t : T) t = {}; fcalls = 0; std::unique_ptr<tc::sdk::task> slot[2]; int kind[2] = {-1, -1}, id[2] = {-1, -1}, want[4] = {}; int nid = 0, fwant = 0, mwant = 0; Member m;
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(12), s = op & 1; if (s && kind[0] < 0 && kind[1] < 0) return; // (operations on an empty slot end the history: its prefix is explored elsewhere)
        auto make = [&](auto&& c, int k) { slot[s].reset(); int d = id[s]; if (d >= 0) MC_CHECK(T[d].live == 0 && T[d].obj == 1, "callable destroyed %d times", T[d].obj); slot[s] = std::make_unique<tc::sdk::task>(std::move(c)); kind[s] = k; id[s] = -1; };
        auto drop = [&] { int d = id[s]; slot[s].reset(); kind[s] = id[s] = -1; if (d >= 0) MC_CHECK(T[d].live == 0 && T[d].obj == 1, "callable destroyed %d times, %d left", T[d].obj, T[d].live); };
        switch (op >> 1) {
        case 0: { int k = mc::choose(7); int n = nid; if (k < 3 && nid >= 4) return; drop();
            if (k == 0) { make(Functor(n), 0); id[s] = n; nid++; }
            else if (k == 1) { make([t = Tok(n), p = std::make_unique<int>(0)]() mutable { MC_CHECK(t.owner, "a moved-from callable is invoked"); ++*p; T[t.i].calls++; MC_CHECK(*p == T[t.i].calls, "state lost"); }, 1); id[s] = n; nid++; }
            else if (k == 2) { make([t = Tok(n)]() { MC_CHECK(t.owner, "moved-from"); T[t.i].calls++; throw T[t.i].calls; }, 2); id[s] = n; nid++; }
            else if (k == 3) make(&freefn, 3); else if (k == 4) { drop(); slot[s] = std::make_unique<tc::sdk::task>(freefn); kind[s] = 3; } else if (k == 5) make(std::bind(&Member::hit, &m, 3), 5); else make([&m]() -> int { m.hit(5); return 1; }, 6);
            break; }
        case 1: case 2: if (kind[s] < 0) return; { bool c = false; try { if (op >> 1 == 1) slot[s]->invoke(); else { const tc::sdk::task& t = *slot[s]; t(); } } catch (int e) { c = true; MC_CHECK(id[s] >= 0 && e == want[id[s]] + 1, "exception"); } MC_CHECK(c == (kind[s] == 2), "exception"); if (id[s] >= 0) want[id[s]]++; else if (kind[s] == 3) fwant++; else mwant += kind[s] == 5 ? 3 : 5; break; }
        case 3: if (kind[s] < 0) return; drop(); break;
        case 4: if (kind[s] < 0 || kind[1 - s] >= 0) return; slot[1 - s] = std::make_unique<tc::sdk::task>(std::move(*slot[s])); kind[1 - s] = kind[s]; id[1 - s] = id[s]; kind[s] = id[s] = -1; slot[s].reset(); break;
        case 5: if (kind[s] < 0) return; { tc::sdk::task t(std::move(*slot[s])); std::vector<tc::sdk::task> v; v.push_back(std::move(t)); for (int q = 0; q < 3; q++) v.emplace_back([] {}); slot[s] = std::make_unique<tc::sdk::task>(std::move(v[0])); } break;
        }
        for (int k = 0; k < nid; k++) { bool held = id[0] == k || id[1] == k; MC_CHECK(T[k].calls == want[k], "callable invoked %d times instead of %d", T[k].calls, want[k]); MC_CHECK(T[k].copies == 0, "callable copied"); MC_CHECK(T[k].live == (held ? 1 : 0) && T[k].obj == !held, "%d instances alive (%s)", T[k].live, held ? "owned" : "not owned"); }
        MC_CHECK(fcalls == fwant && m.n == mwant, "calls");
    }
    for (auto& p : slot) p.reset(); for (int k = 0; k < nid; k++) MC_CHECK(T[k].live == 0 && T[k].obj == 1 && T[k].calls == want[k] && T[k].copies == 0, "callable %d at the end", k);
}
}
// ------------------------------------------------------------------------------------------------ C32
namespace c32 {
int attempts, failures, dtors;
template <int N> struct S : tc::sdk::singleton<S<N>> { int64_t v[3]; std::string s; S() { mc::log(1); attempts++; if (failures > 0) { failures--; throw std::runtime_error("construction"); } v[0] = 1; s = "singleton"; std::this_thread::yield(); v[2] = 3; mc::log(2); v[1] = 2; } ~S() override { dtors++; } };
template <int N> void use(const void** out) { try { auto& i = S<N>::instance(); MC_CHECK(i.v[0] == 1 && i.v[1] == 2 && i.v[2] == 3 && i.s == "singleton", "partly constructed"); *out = &i; MC_CHECK(&S<N>::instance() == &i, "another object"); } catch (const std::runtime_error&) { *out = nullptr; } }
void run(int threads, int fails) {
    attempts = dtors = 0; failures = fails; const void* p[4] = {}; std::vector<std::thread> th; { mc::Quiet q; for (int i = 1; i < threads; i++) th.emplace_back(use<0>, &p[i]); } use<0>(&p[0]); for (auto& t : th) t.join();
    int null = 0; const void* one = nullptr; for (int i = 0; i < threads; i++) if (!p[i]) null++; else { MC_CHECK(!one || one == p[i], "two instances"); one = p[i]; }
    MC_CHECK(null == std::min(fails, threads), "%d callers got the exception of %d failed constructions", null, fails); MC_CHECK(attempts == std::min(fails + 1, threads), "%d constructions", attempts); MC_CHECK(dtors == 0, "destroyed");
    if (threads > fails) { const void* q; use<0>(&q); MC_CHECK(q == one, "another object later"); } else { failures = 0; const void* q; use<0>(&q); MC_CHECK(q, "not constructed afresh"); }
    const void* other; use<1>(&other); MC_CHECK(other && other != one, "singletons of different types are the same object");
}
void locator(int threads) { const void* p[4] = {}; std::vector<std::thread> th; auto f = [&p](int i) { p[i] = &tc::sdk::service_locator::instance(); MC_CHECK(!tc::sdk::service_locator::instance().is_registered<c20::IA>(), "registered"); }; { mc::Quiet q; for (int i = 1; i < threads; i++) th.emplace_back(f, i); } f(0); for (auto& t : th) t.join(); for (int i = 1; i < threads; i++) MC_CHECK(p[i] == p[0], "two locators"); }
int draws; uint32_t rnd() { draws++; return 0x9e3779b9u; }
void generator(int threads) { draws = 0; mc::set_random(rnd); const void* p[4] = {}; std::vector<std::thread> th; auto f = [&p](int i) { p[i] = &tc::sdk::uuid_generator::instance(); MC_CHECK(tc::sdk::uuid_generator::instance().is_valid("00112233445566778899aabbccddeeff"), "valid"); }; { mc::Quiet q; for (int i = 1; i < threads; i++) th.emplace_back(f, i); } f(0); for (auto& t : th) t.join(); for (int i = 1; i < threads; i++) MC_CHECK(p[i] == p[0], "two generators"); }
}
// ------------------------------------------------------------------------------------------------ C34
namespace c34 {
using bytes = std::array<uint8_t, 16>;
bytes get(const tc::sdk::uuid& u) { std::string s = u.to_string(); bytes b{}; int n = 0; for (char ch : s) { if (ch == '-') continue; int v = ch <= '9' ? ch - '0' : ch - 'a' + 10; b[n / 2] = (uint8_t)(b[n / 2] << 4 | v); n++; } MC_CHECK(n == 32, "text"); return b; }
bool bit(const bytes& b, int i) { return b[i / 8] >> (7 - i % 8) & 1; }
void version(const bytes& b) { MC_CHECK(b[6] >> 4 == 4, "version %d", b[6] >> 4); MC_CHECK(b[8] >> 6 == 2, "variant %d", b[8] >> 6); }
struct Seen { int n; uint32_t seed[4096]; bytes first[4096]; }; Seen* seen_;
uint32_t seed_; int draws_; uint32_t rnd() { draws_++; return seed_; }
// the 122 free bits over 64 consecutive uuids: none is constant, no two are always equal or always opposite
void bits(bool many) {
    int k = mc::choose(36); seed_ = k < 32 ? 1u << k : k == 32 ? 0 : k == 33 ? ~0u : k == 34 ? 0x12345678u : 5489u; if (many) seed_ ^= (uint32_t)mc::choose(32) * 0x01010101u; draws_ = 0; mc::set_random(rnd);
    auto& G = tc::sdk::uuid_generator::instance(); const int N = 64; uint64_t col[128] = {}; std::set<bytes> all; bytes first{};
    for (int i = 0; i < N; i++) { auto b = get(G.create()); version(b); if (!i) first = b; MC_CHECK(all.insert(b).second, "the same uuid twice"); for (int j = 0; j < 128; j++) col[j] |= (uint64_t)bit(b, j) << i; }
    MC_CHECK(draws_ > 0, "the random source is never consulted");
    auto fixed = [](int j) { return (j >= 48 && j < 52) || j == 64 || j == 65; };
    for (int i = 0; i < 128; i++) { if (fixed(i)) continue; MC_CHECK(col[i] != 0 && col[i] != ~0ull, "bit %d is constant", i); for (int j = 0; j < i; j++) if (!fixed(j)) MC_CHECK(col[i] != col[j] && col[i] != ~col[j], "bits %d and %d depend on one another", i, j); for (int j = 0; j < 128; j++) for (int l = 1; l <= 4; l++) if (!fixed(j)) MC_CHECK(col[i] >> l != (col[j] & (~0ull >> l)), "bit %d repeats bit %d of %d uuids before", i, j, l); }
    if (seen_) { for (int i = 0; i < seen_->n; i++) MC_CHECK(seen_->first[i] != first || seen_->seed[i] == seed_, "different random seeds yield the same uuids"); if (seen_->n < 4096) { seen_->seed[seen_->n] = seed_; seen_->first[seen_->n++] = first; } }
}
void many() { seed_ = (uint32_t[]){0, 1, 5489, ~0u}[mc::choose(4)]; mc::set_random(rnd); static bytes b[6000]; auto& G = tc::sdk::uuid_generator::instance(); for (auto& x : b) { auto u = G.create(); x = get(u); version(x); MC_CHECK(u == u && !(u != u), "equality"); } std::sort(std::begin(b), std::end(b)); for (int i = 1; i < 6000; i++) MC_CHECK(b[i] != b[i - 1], "the same uuid twice among 6000"); }
template <class G> void copies(int depth) { // a copy of the generator (where copying is possible) does not repeat the uuids of the original
    if constexpr (std::is_copy_constructible_v<G>) {
        seed_ = 99; mc::set_random(rnd); std::vector<G> g; std::set<bytes> all; G& base = G::instance();
        for (int i = 0; i < depth; i++) { int op = mc::choose(5); if (op == 4) { g.push_back(g.empty() || mc::choose(2) ? G(base) : G(g.back())); continue; } if (op > (int)g.size()) return; bytes b = get((op ? g[op - 1] : base).create()); version(b); MC_CHECK(all.insert(b).second, "a copied generator repeats a uuid"); }
    }
}
void concurrent(int threads, int each) {
    seed_ = 7; mc::set_random(rnd); std::vector<std::thread> th; std::vector<bytes> out[4]; auto f = [&out, each](int i) { for (int k = 0; k < each; k++) { mc::log(1); auto u = tc::sdk::uuid_generator::instance().create(); mc::log(2); out[i].push_back(get(u)); } };
    { mc::Quiet q; tc::sdk::uuid_generator::instance(); for (int i = 1; i < threads; i++) th.emplace_back(f, i); } f(0); for (auto& t : th) t.join();
    std::set<bytes> all; for (auto& o : out) for (auto& b : o) { version(b); MC_CHECK(all.insert(b).second, "two threads get the same uuid"); } MC_CHECK((int)all.size() == threads * each, "lost");
}
}
}
void register_scenarios() {
    add("C16/assign-assign", [] { c16::run({{1, 2}, {2, 1}}); }, 3, 5);
    add("C16/assign-same", [] { c16::run({{1}, {1}, {4}}); }, 3, 5);
    add("C16/assign-disable", [] { c16::run({{1, 2, 0}, {8, 7}}); }, 3, 5);
    add("C16/assign-disable-read", [] { c16::run({{1, 0}, {8, 9}, {6, 6}}); }, 2, 4);
    add("C16/three-assign", [] { c16::run({{1, 0}, {5, 3}, {2, 6}}); }, 2, 4);
    add("C16/reads", [] { c16::run({{1, 2}, {6, 6}, {6, 9}}); }, 2, 4);
    add("C16/all-pairs", c16::pairs, 2, 3);
    add("C16/history", [] { c16::history(mc::thorough() ? 6 : 5); }, 0, 0, {.seq = true});
    add("C17/pace-4", [] { c17::pace(4, false); }, 0, 0);
    add("C17/pace-late", [] { c17::pace(3, false); }, 0, 0, {.qt = 2, .tt = 3, .late = {1, 1000000, 30000000, 700000000, 3000000000}});
    add("C17/pace-fine", [] { c17::pace(mc::thorough() ? 6 : 5, true); }, 0, 0, {.seq = true});
    add("C17/many", [] { c17::many(1000); }, 0, 0, {.seq = true});
    add("C17/independent", c17::independent, 0, 0, {.seq = true});
    add("C18/history", [] { c18::history(mc::thorough() ? 6 : 5); }, 0, 0, {.seq = true});
    add("C19/quit-wait", [] { c19::run({3}, 1, true, true); }, 6, 12, {.qs = 1, .ts = 2});
    add("C19/quit-wait-no-callback", [] { c19::run({3}, 1, false, true); }, 6, 12, {.qs = 1, .ts = 2});
    add("C19/signal-wait-wait", [] { c19::run({0}, 2, true, false); }, 3, 5);
    add("C19/signal-quit-wait", [] { c19::run({1, 3}, 1, true, true); }, 3, 5);
    add("C19/two-two", [] { c19::run({3, 0}, 2, true, false); }, 2, 3);
    add("C19/mixed-2", [] { c19::mixed(2); }, 1, 3);
    add("C19/three-waiters", [] { c19::run({2, 3}, 3, true, true); }, 0, 1);
    add("C19/interrupted-wait", [] { c19::interrupts({{0, 4}}, true); }, 6, 12);
    add("C19/interrupted-wait-no-callback", [] { c19::interrupts({{1, 4}}, false); }, 6, 12);
    add("C19/interrupted-twice", [] { c19::interrupts({{0, 2, 4, 4}}, true); }, 4, 12);
    add("C19/interrupted-quit", [] { c19::interrupts({{2, 3}, {4, 4}}, true); }, 3, 6);
    add("C19/interrupted-quit-and-wait", [] { c19::interrupts({{0, 3, 4}, {4}}, true); }, 3, 6);
    add("C19/interrupted-waiters", [] { c19::interrupts({{0, 4}, {1, 4}}, true); }, 3, 6);
    add("C19/interrupted-waiters-no-callback", [] { c19::interrupts({{0, 4}, {1, 4}}, false); }, 3, 6);
    add("C19/interrupted-wait-quit", [] { c19::interrupts({{0, 4, 4}, {3}}, true); }, 3, 6);
    add("C19/history", [] { c19::history(mc::thorough() ? 7 : 6); }, 0, 0, {.seq = true});
    add("C20/history", [] { c20::history(mc::thorough() ? 6 : 5, false); }, 0, 0, {.seq = true});
    add("C20/twins", c20::twins, 0, 0, {.seq = true});
    add("C20/history-wide", [] { c20::history(mc::thorough() ? 5 : 4, true); }, 0, 0, {.seq = true});
    add("C21/history", [] { c21::history(mc::thorough() ? 6 : 5); }, 0, 0, {.seq = true});
    add("C32/two", [] { c32::run(2, 0); }, 4, 12);
    add("C32/three", [] { c32::run(3, 0); }, 2, 5);
    add("C32/two-throw", [] { c32::run(2, 1); }, 4, 12);
    add("C32/three-throw", [] { c32::run(3, 1); }, 2, 5);
    add("C32/two-throw-twice", [] { c32::run(2, 2); }, 4, 12);
    add("C32/locator", [] { c32::locator(3); }, 3, 6);
    add("C32/generator", [] { c32::generator(3); }, 3, 6);
    c34::seen_ = (c34::Seen*)mmap(nullptr, sizeof(c34::Seen), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    add("C34/bits", [] { c34::bits(mc::thorough()); }, 0, 0, {.seq = true});
    add("C34/copies", [] { c34::copies<tc::sdk::uuid_generator>(6); }, 0, 0, {.seq = true});
    add("C34/concurrent-2", [] { c34::concurrent(2, 2); }, 3, 8);
    add("C34/concurrent-3", [] { c34::concurrent(3, 1); }, 2, 4);
    add("C16/two", c16::two, 0, 0, {.seq = true}); add("C16/two-at-once", c16::two_at_once, 9, 9);
    add("C16/types", c16::types, 0, 0, {.seq = true});
    add("C16/faults", c16::faults, 0, 0, {.seq = true}); add("C21/faults", c21::faults, 0, 0, {.seq = true});
    add("C16/many", c16::many, 0, 0, {.seq = true});
    add("C17/far", c17::far, 0, 0, {.seq = true});
    add("C19/many", c19::many, 0, 0, {.seq = true});
    add("C20/no-memory", c20::exhausted, 0, 0, {.seq = true}); add("C16/no-memory", c16::exhausted, 0, 0, {.seq = true});
    add("C20/crowd", c20::crowd, 0, 0, {.seq = true});
    add("C21/sizes", c21::sizes, 0, 0, {.seq = true});
    add("C34/many", c34::many, 0, 0, {.seq = true});
}
