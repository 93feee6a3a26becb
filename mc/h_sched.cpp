// C07-C10: task_scheduler
#include "mc.h"
#include "util.h"
#include <teiacare/sdk/task_scheduler.hpp>
#include <thread>
#include <memory>
#include <map>
#include <optional>
#include <stdexcept>
#include <cstring>

using tc::sdk::task_scheduler;
using clk = tc::sdk::clock;
using namespace std::chrono_literals;
namespace {
constexpr int64_t U = 1000000; // one unit of virtual time: 1 ms
enum { ADD = 1, ADDED, RUN, DONE, STOP, STOPPED, OP };
enum { VALUE = 1, EXC = 2, BROKEN = 3 };
clk::duration units(int64_t n) { return std::chrono::nanoseconds(n * U); }
void pass(int64_t ns) { if (ns > 0) std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }

struct Ev { int64_t t; long pos; };
std::vector<Ev> all(int tag, int64_t a) { std::vector<Ev> r; for (size_t i = 0; i < mc::nevents(); i++) if (mc::event(i).tag == tag && mc::event(i).a == a) r.push_back({mc::event(i).t, (long)i}); return r; }
long first(int tag, int64_t a) { auto v = all(tag, a); return v.empty() ? -1 : v[0].pos; }
struct Boom : std::runtime_error { int id; explicit Boom(int i) : std::runtime_error("boom"), id(i) {} };
int work(int id, int arg) { mc::log(RUN, id); if (id % 4 == 3) throw Boom(id); return id * 100 + arg; }
int settle(std::future<int>& f, int id, int arg) {
    try { int v = f.get(); MC_CHECK(v == id * 100 + arg && id % 4 != 3, "future of task %d yields %d", id, v); return VALUE; }
    catch (const Boom& b) { MC_CHECK(b.id == id && id % 4 == 3, "task %d carries task %d's exception", id, b.id); return EXC; }
    catch (const std::future_error& e) { MC_CHECK(e.code() == std::future_errc::broken_promise, "unexpected future error"); return BROKEN; }
}
template <class F> bool ready(F& f) { return f.wait_for(0s) == std::future_status::ready; }

// ------------------------------------------------------------------------------------------------ C07
struct Shot { int64_t due, added; std::optional<std::future<int>> f; };
// W workers; additions one after another with all combinations of pauses and due times
void c07_sequence(int n, int W, const std::vector<int>& dues, const std::vector<int>& gaps, int64_t slack) {
    task_scheduler s; { mc::Quiet q; MC_CHECK(s.start(W), "start refused"); }
    std::vector<Shot> shot(n);
    for (int i = 0; i < n; i++) {
        int g = gaps[mc::choose(gaps.size(), "gap")]; if (i) pass(g * U);
        int d = dues[mc::choose(dues.size(), "due")];
        mc::log(ADD, i);
        int64_t now = mc::now();
        shot[i].f = d >= 0 && i % 2 ? s.in(units(d), work, i + 0, 5) : s.at(clk::now() + units(d), work, i + 0, 5);
        shot[i].due = now + d * U; shot[i].added = mc::now();
        MC_CHECK(shot[i].f.has_value(), "addition %d refused", i);
        mc::log(ADDED, i);
    }
    for (int i = 0; i < n; i++) MC_CHECK(settle(*shot[i].f, i, 5) != BROKEN, "task %d dropped by a running scheduler", i);
    pass(5 * U);
    for (int i = 0; i < n; i++) {
        auto r = all(RUN, i);
        MC_CHECK(r.size() == 1, "one-shot task %d ran %zu times", i, r.size());
        MC_CHECK(r[0].t >= shot[i].due, "task %d ran at %ld, before its due time %ld", i, (long)r[0].t, (long)shot[i].due);
        int64_t latest = std::max(shot[i].due, shot[i].added) + slack;
        if (W >= n || slack == 0) MC_CHECK(r[0].t <= latest, "task %d ran at %ld although due at %ld and added at %ld", i, (long)r[0].t, (long)shot[i].due, (long)shot[i].added);
        for (int k = 0; k < n && W == 1; k++)
            if (k != i && shot[i].due < shot[k].due && shot[i].added < std::max(shot[k].due, shot[k].added)) {
                if (shot[k].due <= shot[k].added && shot[k].due <= shot[i].added) continue;
                MC_CHECK(r[0].pos < first(RUN, k), "task %d (due %ld) ran after task %d (due %ld)", i, (long)shot[i].due, k, (long)shot[k].due);
            }
    }
    MC_CHECK(s.tasks_size() == 0, "tasks left over");
}
// time passes between any two clock reads: additions to W workers, everything executed once, never early, late only by what passed
void c07_clock(int n, int W, const std::vector<int>& dues) {
    task_scheduler s; { mc::Quiet q; MC_CHECK(s.start(W), "start refused"); }
    std::vector<Shot> shot(n);
    for (int i = 0; i < n; i++) {
        int d = dues[mc::choose(dues.size(), "due")]; clk::time_point p; { mc::Quiet q; p = clk::now() + units(d); }
        shot[i].due = mc::now() + d * U; shot[i].added = mc::now();
        shot[i].f = s.at(std::move(p), work, i * 4, 5);
        MC_CHECK(shot[i].f.has_value(), "addition %d refused", i);
    }
    for (int i = 0; i < n; i++) MC_CHECK(settle(*shot[i].f, i * 4, 5) == VALUE, "task %d dropped by a running scheduler", i);
    MC_CHECK(s.tasks_size() == 0, "tasks left over");
    pass(5 * U); s.stop();
    for (int i = 0; i < n; i++) {
        auto r = all(RUN, i * 4);
        MC_CHECK(r.size() == 1, "one-shot task %d ran %zu times", i, r.size());
        int64_t x = std::max(shot[i].due, shot[i].added);
        MC_CHECK(r[0].t >= shot[i].due, "task %d ran at %ld, before its due time %ld", i, (long)r[0].t, (long)shot[i].due);
        MC_CHECK(r[0].t == x || mc::late_jump(x, r[0].t), "task %d ran at %ld although due at %ld and added at %ld", i, (long)r[0].t, (long)shot[i].due, (long)shot[i].added);
    }
}
// concurrent additions from two threads, the second possibly due earlier
void c07_two_threads(int W) {
    task_scheduler s; { mc::Quiet q; s.start(W); }
    int d0 = mc::choose(3), d1 = mc::choose(2);
    std::optional<std::future<int>> f[3];
    std::jthread other([&] { f[1] = s.in(units(d1), work, 1, 5); });
    f[0] = s.in(units(d0), work, 0, 5);
    other.join();
    f[2] = s.at(clk::now(), work, 2, 5);
    for (int i = 0; i < 3; i++) MC_CHECK(f[i] && settle(*f[i], i, 5) == VALUE, "task %d dropped", i);
    int64_t due[3] = {d0 * U, d1 * U, 0};
    for (int i = 0; i < 3; i++) { auto r = all(RUN, i); MC_CHECK(r.size() == 1 && r[0].t == due[i], "task %d ran %zu times, first at %ld, due %ld", i, r.size(), r.empty() ? -1L : (long)r[0].t, (long)due[i]); }
}
// an added task that is due earlier than the pending one, at every instant of the scheduler's activity
void c07_overtake(int n) {
    task_scheduler s; { mc::Quiet q; s.start(1); }
    std::optional<std::future<int>> f[3];
    for (int i = 0; i < n; i++) f[i] = s.in(units(n - i), work, i + 0, 5);
    for (int i = 0; i < n; i++) settle(*f[i], i, 5);
    for (int i = 0; i < n; i++) { auto r = all(RUN, i); MC_CHECK(r.size() == 1 && r[0].t == (n - i) * U, "task %d ran at %ld", i, r.empty() ? -1L : (long)r[0].t); }
}
// the addition lands exactly on the instant another task becomes due; also with late wake-ups
void c07_boundary(int64_t slack) {
    task_scheduler s; { mc::Quiet q; s.start(1); }
    auto f0 = s.in(units(1), work, 0, 5); 
    pass(U);
    int d = mc::choose(3) - 1; int64_t added = mc::now();
    auto f1 = s.at(clk::now() + units(d), work, 1, 5); int64_t back = mc::now();
    settle(*f0, 0, 5); settle(*f1, 1, 5);
    auto r0 = all(RUN, 0), r1 = all(RUN, 1);
    MC_CHECK(r0.size() == 1 && r1.size() == 1, "ran %zu/%zu times", r0.size(), r1.size());
    int64_t due1 = added + d * U;
    MC_CHECK(r0[0].t >= U && r0[0].t <= U + slack, "task 0 due at 1 ran at %ld", (long)r0[0].t);
    MC_CHECK(r1[0].t >= due1 && r1[0].t <= std::max(due1, back) + slack, "task 1 due at %ld ran at %ld", (long)due1, (long)r1[0].t);
}
// every overload, arguments and results of all kinds
void c07_overloads() {
    task_scheduler s; { mc::Quiet q; s.start(1 + mc::choose(2)); }
    struct Obj { int k; int add(int x) const { return k + x; } } obj{40}; int out = 0;
    auto f1 = s.at(clk::now() + units(1), [] { return 1; });
    auto f2 = s.at(clk::now() + units(1), [](int a, std::string b) { return std::to_string(a) + b; }, 7, std::string("x"));
    auto f3 = s.at("three", clk::now() + units(2), [](int a) { return a * 2; }, 4);
    auto f4 = s.in(units(2), [&out] { out = 4; });
    auto f5 = s.in(units(1), &Obj::add, &obj, 2);
    auto f6 = s.in("six", units(3), [](int a, int b) -> int { throw Boom(a * 10 + b); }, 1, 2);
    auto f7 = s.in("seven", units(0), [] { return 7; });
    std::string text = "abc"; auto f8 = s.in(units(1), [](std::string t) { return t + "!"; }, text); text = "changed";
    MC_CHECK(f1 && f2 && f3 && f4 && f5 && f6 && f7 && f8, "addition refused");
    MC_CHECK(f7->get() == 7 && mc::now() == 0, "task without delay wrong or late"); 
    MC_CHECK(f1->get() == 1 && mc::now() == U, "at() wrong or late");
    MC_CHECK(f2->get() == "7x" && f5->get() == 42 && mc::now() == U, "arguments wrong");
    MC_CHECK(f8->get() == "abc!", "argument not copied");
    MC_CHECK(f3->get() == 8 && mc::now() == 2 * U, "named at() wrong or late");
    f4->get(); MC_CHECK(out == 4 && mc::now() == 2 * U, "void task wrong");
    try { f6->get(); MC_CHECK(false, "exception lost"); } catch (const Boom& b) { MC_CHECK(b.id == 12 && mc::now() == 3 * U, "wrong exception or late"); }
}
// a task that schedules another one
void c07_nested() {
    task_scheduler s; { mc::Quiet q; s.start(1); } std::optional<std::future<int>> inner; int d = mc::choose(3) - 1;
    auto f = s.in(units(1), [&] { inner = s.at(clk::now() + units(d), work, 1, 5); return 3; });
    MC_CHECK(f->get() == 3, "outer result"); settle(*inner, 1, 5);
    auto r = all(RUN, 1); MC_CHECK(r.size() == 1 && r[0].t == U + std::max(d, 0) * U, "nested task ran %zu times at %ld", r.size(), r.empty() ? -1L : (long)r[0].t);
}

// ------------------------------------------------------------------------------------------------ C08
// Checks the recorded executions of task `id` against the grid starting at `base` with `interval`, over (from, to):
// no wake-up was late, so it must run exactly at each instant.
void grid_exact(int id, const std::vector<int64_t>& must, const std::vector<int64_t>& may = {}) {
    auto r = all(RUN, id); size_t k = 0;
    for (auto& e : r) {
        while (k < must.size() && must[k] < e.t) MC_CHECK(false, "task %d did not run at its instant %ld (next execution at %ld)", id, (long)must[k], (long)e.t);
        if (k < must.size() && must[k] == e.t) { k++; continue; }
        bool ok = false; for (auto m : may) ok |= m == e.t;
        MC_CHECK(ok, "task %d ran at %ld, which is no instant of its grid (or twice there)", id, (long)e.t);
    }
    MC_CHECK(k == must.size(), "task %d did not run at its instant %ld", id, k < must.size() ? (long)must[k] : -1L);
}
void c08_plain(int W) { // every with and without delay, several intervals
    task_scheduler s; { mc::Quiet q; s.start(W); }
    int iv = 1 + mc::choose(3), d = mc::choose(4);
    bool ok = d == 0 ? (mc::choose(2) ? s.every(units(iv), work, 0, 1) : s.every("t", units(iv), work, 0, 1)) : s.every("t", units(iv), units(d), work, 0, 1);
    MC_CHECK(ok, "every refused");
    int span = 7; pass(span * U + U / 2);
    MC_CHECK(s.tasks_size() == 1, "periodic task lost");
    s.stop();
    std::vector<int64_t> m; for (int64_t t = d * U; t <= span * U; t += iv * U) m.push_back(t);
    grid_exact(0, m);
}
void c08_two(int W) { // two periodic tasks and a one-shot share the scheduler
    task_scheduler s; { mc::Quiet q; s.start(W); }
    int a = 1 + mc::choose(2), b = 1 + mc::choose(3);
    s.every("a", units(a), work, 0, 1); s.every("b", units(b), units(1), work, 1, 1); auto f = s.in(units(2), work, 2, 1);
    pass(4 * U + U / 2); s.stop();
    std::vector<int64_t> m; for (int64_t t = 0; t <= 4 * U; t += a * U) m.push_back(t); grid_exact(0, m);
    m.clear(); for (int64_t t = U; t <= 4 * U; t += b * U) m.push_back(t); grid_exact(1, m);
    grid_exact(2, {2 * U});
}
void c08_late(int64_t interval, int64_t span, bool strict) { // late wake-ups: no burst, no drift, nothing lost
    task_scheduler s; { mc::Quiet q; s.start(1); }
    s.every("t", std::chrono::nanoseconds(interval), work, 0, 1);
    pass(span); int64_t end = mc::now(); s.stop();
    auto r = all(RUN, 0); int64_t g = -interval, last = -1, n = 0;
    for (auto& e : r) {
        n++; MC_CHECK(n <= e.t / interval + 1, "%ld executions at %ld: more than instants", (long)n, (long)e.t);
        if (!strict) continue;
        // the instant of this execution: the first one after the previous instant which the previous execution did not pass
        g += interval; while (g < last) g += interval;
        MC_CHECK(g <= e.t, "execution at %ld without an instant of its own (previous at %ld)", (long)e.t, (long)last);
        MC_CHECK(e.t == g || mc::late_jump(g, e.t), "instant %ld not served before %ld although no wake-up was late", (long)g, (long)e.t); last = e.t;
    }
    if (strict) { g += interval; while (g < last) g += interval; MC_CHECK(g >= end || mc::late_jump(g, end), "instant %ld not served by %ld", (long)g, (long)end); }
}
// the moments to which time may have passed at once from g on
std::vector<int64_t> passed(int64_t g) { std::vector<int64_t> r{g}; for (size_t k = 0; k < mc::nevents(); k++) { auto& e = mc::event(k); if (e.tag == mc::LATE && mc::late_jump(g, e.b)) r.push_back(e.b); } return r; }
// time passes between any two clock reads: every instant is served exactly once or has passed when an earlier one is handed over
void c08_clock(int64_t interval, int64_t span, int tasks) {
    task_scheduler s; { mc::Quiet q; s.start(1); for (int i = 0; i < tasks; i++) { if (i) s.every("u", std::chrono::nanoseconds(interval), clk::duration(interval), work, 4 * i, 1); else s.every("t", std::chrono::nanoseconds(interval), work, 0, 1); } }
    pass(span); int64_t end = mc::now(); MC_CHECK(s.tasks_size() == (size_t)tasks, "a periodic task is lost"); s.stop();
    for (int i = 0; i < tasks; i++) {
        std::vector<int64_t> cand{i * interval}, next; // the instants that may be the next one
        auto served = [&](int64_t t) { next.clear(); for (auto g : cand) if (g <= t && (t == g || mc::late_jump(g, t))) next.push_back(g); return !next.empty(); };
        auto r = all(RUN, 4 * i);
        for (size_t n = 0; n < r.size(); n++) { auto& e = r[n]; int64_t until = n + 1 < r.size() ? r[n + 1].t : INT64_MAX;
            MC_CHECK(served(e.t), "task %d ran at %ld, its instant was %ld", i, (long)e.t, (long)cand[0]);
            cand.clear();
            for (auto g : next) for (int64_t p : passed(g)) if (p <= until) { // the hand-over ends at p, maybe after the execution has begun
                int64_t x = g + interval; while (x < p) x += interval; bool have = false; for (auto c : cand) have |= c == x; if (!have) cand.push_back(x);
            }
        }
        bool ok = false; for (auto g : cand) { ok |= g >= end; for (int64_t p : passed(g)) ok |= p >= end; }
        MC_CHECK(ok, "task %d: instant %ld not served by %ld", i, (long)cand[0], (long)end);
    }
}
// histories of set_enabled / update_interval / remove between the instants or exactly on them, exact wake-ups.
// Reference: the set of all behaviours the property allows (an operation that coincides with an instant may precede or follow it).
struct St { bool alive = true, enabled = true, begun = false; int64_t next = 0, interval = 0; std::vector<int64_t> runs; };
void fire(St& x) { if (x.enabled) x.runs.push_back(x.next); x.begun = true; x.next += x.interval; }
void c08_history(int depth, bool on_boundary, const std::vector<int>& ops) {
    task_scheduler s; { mc::Quiet q; s.start(1); }
    int iv = 1 + mc::choose(2), delay = mc::choose(2) * 3;
    if (delay) s.every("t", units(iv), units(delay), work, 0, 1); else s.every("t", units(iv), work, 0, 1);
    std::vector<St> set(1); set[0].next = delay * U; set[0].interval = iv * U;
    int64_t t = 0; bool alive = true;
    for (int i = 0; i < depth; i++) {
        int64_t step = on_boundary ? U * (1 + mc::choose(3)) : U / 2 + U * mc::choose(3);
        pass(step); t += step; MC_CHECK(mc::now() == t, "harness: time %ld", (long)mc::now());
        std::vector<St> n;
        for (auto x : set) { while (x.alive && x.next < t) fire(x); n.push_back(x); if (x.alive && x.next == t) { fire(x); n.push_back(x); } }
        set = n;
        int op = ops[mc::choose(ops.size())]; bool r;
        if (op < 2) { r = s.set_enabled("t", op == 1); for (auto& x : set) x.enabled = op == 1; MC_CHECK(r == alive, "set_enabled result"); }
        else if (op < 4) {
            int64_t iv2 = (op == 2 ? 1 : 3) * U; r = s.update_interval("t", std::chrono::nanoseconds(iv2)); MC_CHECK(r == alive, "update_interval result");
            for (auto& x : set) { if (x.begun) { x.next += iv2 - x.interval; while (x.next < t) x.next += iv2; } x.interval = iv2; }
        } else { r = s.remove_task("t"); MC_CHECK(r == alive, "remove_task result"); alive = false; for (auto& x : set) x.alive = false; }
    }
    pass(4 * U + U / 3); t += 4 * U + U / 3;
    s.stop();
    auto runs = all(RUN, 0); bool found = false; std::string want, is;
    for (auto& x : set) { while (x.alive && x.next <= t) fire(x); bool eq = x.runs.size() == runs.size(); for (size_t k = 0; eq && k < runs.size(); k++) eq = runs[k].t == x.runs[k]; found |= eq; want += " ["; for (auto v : x.runs) want += std::to_string(v / 1000) + " "; want += "]"; }
    for (auto& e : runs) is += std::to_string(e.t / 1000) + " ";
    MC_CHECK(found, "the task ran at (us) %s, allowed: %s", is.c_str(), want.c_str());
}
void c08_self(int what) { // a periodic task that changes itself while executing
    task_scheduler s; { mc::Quiet q; s.start(1); } int n = 0;
    s.every("t", units(2), [&] { mc::log(RUN, 0); n++; if (n == 2) { if (what == 0) s.remove_task("t"); else if (what == 1) s.update_interval("t", units(1)); else s.set_enabled("t", false); } });
    pass(6 * U + U / 2); s.stop();
    if (what == 1) grid_exact(0, {0, 2 * U, 3 * U, 4 * U, 5 * U, 6 * U}); else grid_exact(0, {0, 2 * U});
}
void c08_throwing() { task_scheduler s; { mc::Quiet q; s.start(1); } s.every(units(1), work, 3, 1); pass(3 * U + U / 2); s.stop(); grid_exact(3, {0, U, 2 * U, 3 * U}); }
void c08_remove_race() { // removal concurrent with the due instant: after remove returned nothing more is handed over than was
    task_scheduler s; { mc::Quiet q; s.start(1); }
    s.every("t", units(1), work, 0, 1); pass(U);
    mc::log(OP); bool ok = s.remove_task("t"); mc::log(OP, 1);
    MC_CHECK(ok, "removal of a periodic task failed"); MC_CHECK(!s.is_scheduled("t") && s.tasks_size() == 0, "still there");
    pass(3 * U); s.stop(); grid_exact(0, {0}, {U});
    MC_CHECK(all(RUN, 0).size() <= 2, "ran after removal");
}
void c08_update_race() { // interval change exactly when an execution is due
    task_scheduler s; { mc::Quiet q; s.start(1); }
    s.every("t", units(2), work, 0, 1); pass(2 * U);
    s.update_interval("t", units(1));
    pass(2 * U + U / 2); s.stop(); grid_exact(0, {0, 2 * U, 3 * U, 4 * U});
}

// ------------------------------------------------------------------------------------------------ C09
uint64_t inv(uint64_t a) { uint64_t x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
std::string collide(const char* s16) { // another 16-byte string with the same std::hash value (libstdc++ murmur)
    const uint64_t m = (0xc6a4a793ULL << 32) + 0x5bd1e995ULL, im = inv(m); uint64_t k[2]; memcpy(k, s16, 16);
    for (auto& x : k) { uint64_t v = x * m; v ^= v >> 47; v *= m; v ^= 1ULL << 63; v *= im; v ^= v >> 47; v *= im; x = v; }
    return std::string(reinterpret_cast<char*>(k), 16);
}
struct Model { int64_t due = 0, interval = 0; bool enabled = true, begun = false; int64_t last = 0; };
void c09_registry(int depth, const std::vector<std::string>& ids, int ops) {
    task_scheduler s; bool running = mc::choose(2) == 0; 
    mc::Quiet quiet;
    if (running) s.start(1);
    std::map<std::string, Model> m; std::vector<Model> anon;
    auto run_due = [&](Model& x, int64_t now) { // true: finished
        if (x.due > now) return false;
        if (!x.interval) return true;
        while (x.due <= now) { x.last = x.due; x.begun = true; x.due += x.interval; }
        return false;
    };
    int serial = 0; std::vector<std::future<int>> futures;
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(ops); std::string id = ids[mc::choose(ids.size())];
        int64_t now = mc::now(); bool want = false, got = false;
        auto reg = [&](int64_t due, int64_t iv) { want = running && !m.count(id); if (want) { m[id].due = now + due; m[id].interval = iv; } };
        switch (op) {
        case 0: { reg(U + U / 3, 0); auto f = s.in(std::string(id), std::chrono::nanoseconds(U + U / 3), work, 8, serial++); got = f.has_value(); break; }
        case 1: { reg(0, 3 * U); got = s.every(std::string(id), units(3), work, 8, serial++); break; }
        case 2: { reg(2 * U + U / 3, 2 * U); got = s.every(std::string(id), units(2), clk::duration(2 * U + U / 3), work, 8, serial++); break; }
        case 3: { want = m.count(id); if (want) m[id].enabled = false; got = s.set_enabled(id, false); break; }
        case 4: { want = m.erase(id); got = s.remove_task(id); break; }
        case 5: { want = m.count(id) && m[id].interval; if (want) { Model& x = m[id]; x.interval = U * 3 / 2; if (x.begun) { x.due = x.last; while (x.due <= x.last || x.due < now) x.due += x.interval; } } got = s.update_interval(id, clk::duration(U * 3 / 2)); break; }
        case 6: { if (running) { m.clear(); anon.clear(); } want = running; running = false; got = s.stop(); break; }
        case 7: { want = !running; running = true; got = s.start(1); break; }
        case 8: { want = running; if (want) { anon.push_back({}); anon.back().due = now + U + U / 3; } auto f = s.in(clk::duration(U + U / 3), work, 8, serial++); got = f.has_value(); break; }
        case 9: { reg(-U, 0); auto f = s.at(std::string(id), clk::now() - units(1), work, 8, serial++); got = f.has_value(); break; }
        case 10: { want = m.count(id); if (want) m[id].enabled = true; got = s.set_enabled(id, true); break; }
        case 11: { want = false; got = s.update_interval(id, units(0)); break; }
        case 12: { want = false; got = s.every(std::string(id), units(mc::choose(2) - 1), work, 8, serial++); break; }
        case 13: { want = running; if (want) { anon.push_back({}); anon.back().due = now; anon.back().interval = 2 * U; } got = s.every(units(2), work, 8, serial++); break; }
        case 14: { want = false; got = s.update_interval(id, units(-2)); break; }
        }
        MC_CHECK(want == got, "operation %d on id %d (step %d) returned %d, expected %d", op, int(id == ids[0] ? 0 : id == ids.back() ? (int)ids.size() - 1 : 1), i, got, want);
        pass(i % 2 ? U : U / 8); now = mc::now();
        for (auto it = m.begin(); it != m.end();) it = run_due(it->second, now) ? m.erase(it) : std::next(it);
        for (size_t k = 0; k < anon.size();) if (run_due(anon[k], now)) anon.erase(anon.begin() + k); else k++;
        MC_CHECK(s.tasks_size() == m.size() + anon.size(), "tasks_size is %zu, expected %zu (step %d, operation %d)", s.tasks_size(), m.size() + anon.size(), i, op);
        for (auto& x : ids) {
            auto it = m.find(x); bool have = it != m.end();
            MC_CHECK(s.is_scheduled(x) == have, "is_scheduled wrong (step %d, operation %d): should be %d", i, op, have);
            MC_CHECK(s.is_enabled(x) == (have && it->second.enabled), "is_enabled wrong (step %d, operation %d)", i, op);
            auto iv = s.get_interval(x); 
            MC_CHECK(iv.has_value() == (have && it->second.interval), "get_interval presence wrong (step %d, operation %d)", i, op);
            if (iv) MC_CHECK(iv->count() == it->second.interval, "get_interval wrong (step %d, operation %d): %ld", i, op, (long)iv->count());
        }
    }
}
void c09_duplicate_race() { // two threads claim the same id
    task_scheduler s; { mc::Quiet q; s.start(1); }
    std::optional<std::future<int>> f[2];
    std::jthread o([&] { f[1] = s.in("id", units(2), work, 1, 1); });
    f[0] = s.in("id", units(1), work, 0, 1);
    o.join();
    MC_CHECK(f[0].has_value() + f[1].has_value() == 1, "%d additions of one id accepted", f[0].has_value() + f[1].has_value());
    MC_CHECK(s.tasks_size() == 1 && s.is_scheduled("id"), "registry wrong");
    int w = f[0] ? 0 : 1; settle(*f[w], w, 1); MC_CHECK(all(RUN, 1 - w).empty(), "refused task ran");
    MC_CHECK(!s.is_scheduled("id"), "still scheduled while executed"); MC_CHECK(s.in("id", units(0), work, 2, 1).has_value(), "id not free again");
}
void c09_query_race() { // queries concurrent with execution and removal agree with some moment
    task_scheduler s; { mc::Quiet q; s.start(1); }
    auto f = s.in("id", units(1), work, 0, 1); s.every("p", units(5), units(5), work, 1, 1);
    pass(U);
    bool sch = s.is_scheduled("id"); size_t n = s.tasks_size(); bool sch2 = s.is_scheduled("id"); bool rem = s.remove_task("id");
    MC_CHECK(sch || !sch2, "a handed-over task reappeared"); MC_CHECK(n == 2 || n == 1, "size %zu", n); MC_CHECK(!(n == 2 && !sch), "size and membership disagree"); MC_CHECK(sch2 || !rem, "removed a task that was gone");
    int r = settle(*f, 0, 1); MC_CHECK(r == (rem ? BROKEN : VALUE) && all(RUN, 0).size() == (rem ? 0u : 1u), "removed %d but outcome %d", rem, r);
}

// ------------------------------------------------------------------------------------------------ C10
// pending tasks far in the future / due / a running one; stop or destruction
void c10_stop(int W, int kind, bool destroy, bool restart, bool early = false) {
    auto s = std::make_unique<task_scheduler>(); if (early) s->start(W); else { mc::Quiet q; s->start(W); }
    std::optional<std::future<int>> f[3]; int n = 0; bool periodic = false;
    auto add = [&](int64_t d) { f[n] = s->in(units(d), work, n + 0, 1); n++; };
    if (kind == 1) add(1000); else if (kind == 2) { add(0); add(1000); } else if (kind == 3) { s->every("p", units(2), work, 8, 1); periodic = true; } else if (kind == 4) { add(1); pass(U); } else if (kind == 5) { add(0); add(0); }
    else if (kind == 6) { f[n] = s->in(units(0), [](int id, int arg) { mc::log(RUN, id); pass(3 * U); mc::log(DONE, id); return id * 100 + arg; }, n + 0, 1); n++; add(2); pass(U); }
    int64_t t0 = mc::now(); mc::log(STOP);
    if (destroy) s.reset(); else MC_CHECK(s->stop(), "stop of a running scheduler reports false");
    mc::log(STOPPED);
    int64_t t1 = mc::now(); long stopped = first(STOPPED, 0);
    MC_CHECK(mc::live_threads() == 1, "threads alive after stop");
    MC_CHECK(t1 - t0 <= (kind == 6 ? 3 * U : 0), "stop took until %ld", (long)(t1 - t0));
    for (int i = 0; i < n; i++) { 
        MC_CHECK(ready(*f[i]), "future of task %d not ready after stop", i);
        auto r = all(RUN, i); MC_CHECK(r.size() <= 1, "task %d ran %zu times", i, r.size());
        if (kind == 6 && i == 0 && !r.empty()) MC_CHECK(first(DONE, 0) >= 0 && first(DONE, 0) < stopped, "stop did not wait for the running task");
        int o = settle(*f[i], i, 1); MC_CHECK(o == (r.empty() ? BROKEN : VALUE), "task %d ran %zu times but outcome %d", i, r.size(), o);
    }
    if (s) {
        MC_CHECK(s->tasks_size() == 0, "tasks scheduled after stop"); MC_CHECK(!s->stop(), "second stop reports true");
        MC_CHECK(!s->in(units(0), work, 2, 1).has_value(), "addition accepted after stop");
        if (periodic) MC_CHECK(!s->is_scheduled("p"), "periodic task survives stop");
    }
    size_t before = mc::nevents();
    if (s && restart) {
        MC_CHECK(s->start(W), "restart fails"); auto g = s->in(units(1), work, 4, 1); MC_CHECK(g && settle(*g, 4, 1) == VALUE, "restarted scheduler does not work");
        MC_CHECK(mc::now() == t1 + U, "restarted scheduler is late"); pass(3 * U); s->stop();
    } else pass(5 * U);
    for (size_t i = before; i < mc::nevents(); i++) if (mc::event(i).tag == RUN) MC_CHECK(mc::event(i).a == 4, "task %d ran after stop", (int)mc::event(i).a);
}
void c10_add_race(int W, int64_t d, bool every, bool restart) { // addition concurrent with stop
    task_scheduler s; { mc::Quiet q; s.start(W); }
    std::optional<std::future<int>> f; bool ok = false;
    { std::jthread o([&] { if (every) ok = s.every("p", units(2), units(d), work, 0, 1); else { f = s.in(units(d), work, 0, 1); ok = f.has_value(); } mc::log(ADDED); });
      MC_CHECK(s.stop(), "stop false"); mc::log(STOPPED); }
    MC_CHECK(mc::live_threads() == 1, "threads alive after stop");
    MC_CHECK(s.tasks_size() == 0, "a task added concurrently with stop stays scheduled");
    if (f) { MC_CHECK(ready(*f), "future never ready"); int o = settle(*f, 0, 1); MC_CHECK(o == (all(RUN, 0).empty() ? BROKEN : VALUE), "outcome"); }
    auto r = all(RUN, 0); for (auto& e : r) MC_CHECK(e.pos < first(STOPPED, 0), "task began after stop returned"); size_t n = r.size();
    if (restart) { s.start(W); auto g = s.in(units(3), work, 4, 1); settle(*g, 4, 1); MC_CHECK(all(RUN, 0).size() == n, "task of the previous session ran after restart"); MC_CHECK(s.tasks_size() == 0, "leftover"); }
}
void c10_start_stop_race() { // start concurrent with stop of the previous session
    task_scheduler s; { mc::Quiet q; s.start(1); } bool started = false;
    { std::jthread o([&] { started = s.start(1); }); MC_CHECK(s.stop(), "stop false"); }
    if (started) { auto f = s.in(units(1), work, 0, 1); MC_CHECK(f && settle(*f, 0, 1) == VALUE, "task lost"); MC_CHECK(all(RUN, 0)[0].t == U, "late"); MC_CHECK(s.stop(), "stop false"); }
    MC_CHECK(!s.stop(), "stop of a stopped scheduler"); MC_CHECK(mc::live_threads() == 1, "threads alive");
}
void c10_start_race(int n) { // several starts: one wins
    task_scheduler s; int won[3] = {};
    { std::vector<std::jthread> t; for (int i = 1; i < n; i++) t.emplace_back([&, i] { won[i] = s.start(1); }); won[0] = s.start(1); }
    int w = 0; for (int x : won) w += x; MC_CHECK(w == 1, "%d starts succeeded", w); MC_CHECK(mc::live_threads() == 3, "%d threads", mc::live_threads());
    auto f = s.in(units(1), work, 0, 1); MC_CHECK(f && settle(*f, 0, 1) == VALUE && mc::now() == U, "does not work");
}
void c10_stop_race() { // several stops: one wins, both return after the tasks ended
    task_scheduler s; { mc::Quiet q; s.start(1); } auto f = s.in(units(0), work, 0, 1); s.in(units(5), work, 1, 1); bool a, b = false;
    { std::jthread o([&] { b = s.stop(); mc::log(STOPPED, 1); }); a = s.stop(); mc::log(STOPPED, 0); }
    MC_CHECK(a + b == 1, "%d stops succeeded", a + b); MC_CHECK(mc::live_threads() == 1, "threads alive"); MC_CHECK(s.tasks_size() == 0, "leftover");
    for (auto& e : all(RUN, 0)) MC_CHECK(e.pos < first(STOPPED, a ? 0 : 1), "task began after stop");
    MC_CHECK(ready(*f), "future not ready");
}
void c10_running_task_adds() { // a running task adds to the scheduler that is being stopped
    task_scheduler s; { mc::Quiet q; s.start(1); } bool inner = false; std::optional<std::future<int>> g;
    auto f = s.in(units(0), [&] { mc::log(RUN, 0); g = s.in(units(0), work, 1, 1); inner = g.has_value(); s.tasks_size(); mc::log(DONE, 0); });
    MC_CHECK(s.stop(), "stop"); mc::log(STOPPED);
    if (first(RUN, 0) >= 0) MC_CHECK(first(DONE, 0) >= 0 && first(DONE, 0) < first(STOPPED, 0), "stop did not wait");
    if (inner) { MC_CHECK(ready(*g), "future not ready"); int o = settle(*g, 1, 1); MC_CHECK(o == (all(RUN, 1).empty() ? BROKEN : VALUE), "outcome"); }
    MC_CHECK(s.tasks_size() == 0, "leftover"); pass(3 * U); for (auto& e : all(RUN, 1)) MC_CHECK(e.pos < first(STOPPED, 0), "ran after stop");
}
void c10_sequence(int depth) { // lifecycle histories
    mc::Quiet q; auto s = std::make_unique<task_scheduler>(); bool running = false; int id = 4; std::vector<std::pair<int, std::future<int>>> pending, far;
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(6);
        if (op == 0) { bool r = s->start(mc::choose(2) + 1); MC_CHECK(r == !running, "start returned %d", r); running = true; }
        else if (op == 1) { int64_t t = mc::now(); bool r = s->stop(); MC_CHECK(r == running, "stop returned %d", r); MC_CHECK(mc::now() == t, "stop waited"); running = false;
            MC_CHECK(mc::live_threads() == 1, "threads alive"); for (auto& p : far) { MC_CHECK(ready(p.second), "future not ready"); MC_CHECK(settle(p.second, p.first, 1) == BROKEN, "far task ran"); } far.clear();
            for (auto& p : pending) { MC_CHECK(ready(p.second), "future not ready"); MC_CHECK(settle(p.second, p.first, 1) == (all(RUN, p.first).empty() ? BROKEN : VALUE), "outcome"); } pending.clear(); }
        else if (op == 2 || op == 3) { auto f = s->in(units(op == 2 ? 1 : 100), work, id + 0, 1); MC_CHECK(f.has_value() == running, "addition %d while running %d", f.has_value(), running); if (f) (op == 2 ? pending : far).emplace_back(id, std::move(*f)); id += 4; }
        else if (op == 4) { pass(U); if (running) for (auto& p : pending) MC_CHECK(settle(p.second, p.first, 1) == VALUE, "task dropped"); pending.clear(); }
        else { s = std::make_unique<task_scheduler>(); running = false; far.clear(); pending.clear(); MC_CHECK(mc::live_threads() == 1, "threads alive after destruction"); }
        MC_CHECK(s->tasks_size() == pending.size() + far.size(), "tasks_size %zu", s->tasks_size());
    }
}

void c10_all_kinds(int depth) { // whatever was done to the tasks before, a stop drops all of them
    mc::Quiet q; auto s = std::make_unique<task_scheduler>(); s->start(1); std::vector<std::pair<int, std::future<int>>> f; int id = 4; static const char* N[] = {"a", "b"}; bool destroy = mc::choose(2);
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(9); std::string n = N[mc::choose(op < 8 ? 2 : 1)]; std::optional<std::future<int>> g;
        switch (op) {
        case 0: g = s->in(std::string(n), units(100), work, id + 0, 1); break;
        case 1: g = s->in(units(100), work, id + 0, 1); break;
        case 2: s->every(std::string(n), units(2), work, 0, 1); break;
        case 3: s->every(std::string(n), units(2), units(50), work, 0, 1); break;
        case 4: s->every(units(n == "a" ? 3 : 100), work, 0, 1); break;
        case 5: s->set_enabled(n, false); break;
        case 6: s->set_enabled(n, true); break;
        case 7: s->update_interval(n, units(5)); break;
        case 8: pass(U); break;
        }
        if (g) { f.emplace_back(id, std::move(*g)); id += 4; }
    }
    if (mc::choose(2)) pass(U / 2);
    int64_t t = mc::now(); if (destroy) s.reset(); else MC_CHECK(s->stop(), "stop"); MC_CHECK(mc::now() == t && mc::live_threads() == 1, "stop waited or left threads"); size_t end = mc::nevents();
    for (auto& p : f) { MC_CHECK(ready(p.second), "future not ready after stop"); MC_CHECK(settle(p.second, p.first, 1) == BROKEN, "a far task ran"); }
    if (!s) { pass(120 * U); MC_CHECK(mc::nevents() == end, "ran after destruction"); return; }
    auto nothing = [&] { MC_CHECK(s->tasks_size() == 0, "%zu tasks scheduled after stop", s->tasks_size()); for (auto n : N) MC_CHECK(!s->is_scheduled(n) && !s->is_enabled(n) && !s->get_interval(n) && !s->remove_task(n) && !s->set_enabled(n, true) && !s->update_interval(n, units(1)), "task %s is known after stop", n); };
    nothing(); MC_CHECK(s->start(1), "restart"); nothing(); pass(120 * U); for (size_t i = end; i < mc::nevents(); i++) MC_CHECK(mc::event(i).tag != RUN, "a task of the previous session ran");
    MC_CHECK(s->every("a", units(7), work, 0, 1) && s->in("b", units(1), work, 4, 1), "an id is not free after a restart"); MC_CHECK(s->get_interval("a") == std::optional<clk::duration>(units(7)) && s->is_enabled("a") && s->is_enabled("b"), "registry after restart"); pass(U / 2); MC_CHECK(all(RUN, 0).size() && all(RUN, 0).back().t == mc::now() - U / 2, "a new periodic task does not run");
}

// the n-th copy of an argument or callable fails: the addition throws and adds nothing, or the future carries the exception; other tasks are on time
void faults() {
    mc::Quiet q; Fuse::left = -1; Fuse::copies = Fuse::live = 0; int kind = mc::choose(6), fuse = 1 + mc::choose(20); { task_scheduler s; s.start(1); auto other = s.in("other", units(2), work, 4, 1); s.every("grid", units(2), units(1), work, 8, 1);
    auto body = [](Fragile x, const Fragile& y) { mc::note(RUN, x.v); return x.v * 100 + y.v; }; auto call = [c = Fragile(7)] { mc::note(RUN, 0); return c.v; }; std::optional<std::future<int>> f; bool ok = false, threw = false; Fragile a(0), b(7); Fuse::set(fuse);
    try { switch (kind) { case 0: f = s.in("id", units(1), body, a, b); break; case 1: f = s.at("id", clk::now() + units(1), body, a, b); break; case 2: f = s.in(units(1), call); break; case 3: f = s.at(clk::now() + units(1), body, std::move(a), b); break; case 4: ok = s.every("id", units(2), units(1), body, a, b); break; default: ok = s.every(units(2), call); } }
    catch (const Blown&) { threw = true; }
    MC_CHECK(threw || ok || f, "refused"); MC_CHECK(s.tasks_size() == (threw ? 2u : 3u), "%zu tasks after an addition that %s", s.tasks_size(), threw ? "failed" : "succeeded"); if (kind != 2 && kind != 3 && kind != 5) MC_CHECK(s.is_scheduled("id") == !threw, "id after an addition that %s", threw ? "failed" : "succeeded");
    pass(5 * U + U / 2); size_t n = all(RUN, 0).size(); if (threw) MC_CHECK(n == 0, "a task ran whose addition failed");
    if (f) { MC_CHECK(ready(*f), "not executed"); try { MC_CHECK(f->get() == 7 && n == 1, "outcome"); } catch (const Blown&) { MC_CHECK(n == 0, "ran and failed"); } }
    if (ok) { size_t want = 3; MC_CHECK(n == want || n == want - 1, "periodic task ran %zu times", n); }
    grid_exact(4, {2 * U}); grid_exact(8, {U, 3 * U, 5 * U}); MC_CHECK(settle(*other, 4, 1) == VALUE, "outcome of another task"); Fuse::set(-1);
    if (!s.is_scheduled("id")) { auto g = s.in("id", units(1), body, a, b); MC_CHECK(g.has_value(), "id not free after a failure"); } }
    MC_CHECK(Fuse::live == 0, "%d arguments leaked or destroyed twice", Fuse::live);
}

// ---- fine-grained and far times, many tasks, many ids (exact wake-ups, the default schedule, every parameter combination)
const int MANY[] = {1, 2, 3, 8, 15, 17, 32, 33, 64, 65, 100, 128, 129, 200, 257, 300};
const int64_t FINE[] = {0, 1, 2, 999, 1000, 1001, 499999, 500000, 500001, 999999, 1000000, 1000001, 1234567, 16666667, 999999999, 1000000001, 59999999999, 3600000000001, 86400000000007, 2592000123456789, 31536000000000001};
void c07_fine() { // due times of every magnitude: exactly then
    mc::Quiet q; task_scheduler s; s.start(1); int a = mc::choose(21), b = mc::choose(21), off = mc::choose(3); pass((int64_t[]){0, 1, 777777}[off]); int64_t t0 = mc::now(); bool at = mc::choose(2);
    auto f = at ? s.at(clk::now() + std::chrono::nanoseconds(FINE[a]), work, 0, 1) : s.in(std::chrono::nanoseconds(FINE[a]), work, 0, 1); auto g = s.in("g", std::chrono::nanoseconds(FINE[b]), work, 4, 2); auto h = s.at(clk::now() - std::chrono::nanoseconds(FINE[b]), work, 8, 3);
    MC_CHECK(f && g && h && settle(*f, 0, 1) == VALUE && settle(*g, 4, 2) == VALUE && settle(*h, 8, 3) == VALUE, "outcome"); grid_exact(0, {t0 + FINE[a]}); grid_exact(4, {t0 + FINE[b]}); grid_exact(8, {t0}); MC_CHECK(s.tasks_size() == 0, "left over");
}
void c07_many() { // n one-shot tasks with different due times, added in a permuted order: due-time order on one worker, each exactly on time
    mc::Quiet q; task_scheduler s; int n = MANY[mc::choose(16)], W = 1 + mc::choose(2), kind = mc::choose(5); s.start(W); std::vector<std::future<int>> f; std::vector<int> due(n);
    for (int i = 0; i < n; i++) { int d = kind == 0 ? i : kind == 1 ? n - 1 - i : kind == 2 ? (i * 7) % n : kind == 3 ? i / 3 : (i % 2 ? i : n - i); due[i] = d; auto g = s.in(std::chrono::nanoseconds(d * 1000003ll + 1), [](int k) { mc::note(RUN, k); if (k % 4 == 3) throw Boom(k); return k * 100 + 5; }, int(i)); MC_CHECK(g.has_value(), "refused"); f.push_back(std::move(*g)); }
    MC_CHECK(s.tasks_size() == (size_t)n, "%zu tasks of %d", s.tasks_size(), n); for (int i = 0; i < n; i++) MC_CHECK(settle(f[i], i, 5) != BROKEN, "task dropped");
    std::vector<int> ran(n); int64_t last = 0; for (size_t x = 0; x < mc::nevents(); x++) { auto& e = mc::event(x); if (e.tag != RUN) continue; ran.at(e.a)++; MC_CHECK(e.t == due[e.a] * 1000003ll + 1, "task %ld of %d runs at %ld, due at %ld", (long)e.a, n, (long)e.t, due[e.a] * 1000003l + 1); MC_CHECK(e.t >= last, "order"); last = e.t; }
    for (int i = 0; i < n; i++) MC_CHECK(ran[i] == 1, "task %d of %d runs %d times", i, n, ran[i]); MC_CHECK(s.tasks_size() == 0, "left over");
}
void c08_fine() { // intervals and delays of every magnitude
    mc::Quiet q; task_scheduler s; s.start(1); int64_t iv = FINE[1 + mc::choose(20)], d = FINE[mc::choose(21)]; bool delay = mc::choose(2), upd = mc::choose(2); if (iv < 10) return; pass(777); int64_t t0 = mc::now(); if (!delay && d) return;
    MC_CHECK(delay ? s.every("t", std::chrono::nanoseconds(iv), std::chrono::nanoseconds(d), work, 0, 1) : s.every("t", std::chrono::nanoseconds(iv), work, 0, 1), "refused");
    MC_CHECK(s.get_interval("t") == std::optional<clk::duration>(std::chrono::nanoseconds(iv)), "interval"); std::vector<int64_t> m; for (int k = 0; k < 4; k++) m.push_back(t0 + d + k * iv); pass(d + 3 * iv + iv / 2);
    if (upd) { MC_CHECK(s.update_interval("t", std::chrono::nanoseconds(2 * iv + 3)), "update"); for (int k = 1; k < 4; k++) m.push_back(t0 + d + 3 * iv + k * (2 * iv + 3)); pass(3 * (2 * iv + 3)); } s.stop(); grid_exact(0, m);
}
void c08_overdue() { // a first due time in the past: the grid is the one that starts there; at most the latest past instant is made up for
    mc::Quiet q; task_scheduler s; s.start(1); int64_t iv = (int64_t[]){2 * U, 7, 3 * U + 1}[mc::choose(3)], d = -(int64_t[]){1, iv / 2, iv - 1, iv + 1, 3 * iv + iv / 3, 100 * iv + 2}[mc::choose(6)], off = mc::choose(2) ? 200 * iv : 3; bool busy = mc::choose(2); pass(off); int64_t t0 = mc::now();
    MC_CHECK(s.every("t", std::chrono::nanoseconds(iv), std::chrono::nanoseconds(d), work, 0, 1), "refused"); if (busy) { pass(1); MC_CHECK(s.is_scheduled("t"), "gone"); }
    pass(4 * iv); s.stop(); int64_t end = mc::now(), g = t0 + d; std::vector<int64_t> m; while (g <= t0) g += iv; for (; g <= end; g += iv) m.push_back(g); grid_exact(0, m, {t0});
}
void c08_many() { // hundreds of instants, alone or beside another periodic task: no drift, nothing lost, nothing twice
    mc::Quiet q; task_scheduler s; int W = 1 + mc::choose(2); s.start(W); int64_t iv = (int64_t[]){1234567, 999, 16666667, 86400000000000}[mc::choose(4)], iv2 = (int64_t[]){0, iv, iv + 1, iv / 3, iv * 7 + 5}[mc::choose(5)]; int off = (int[]){0, 100, 256}[mc::choose(3)];
    auto body = [](int id) { mc::note(RUN, id); }; s.every("t", std::chrono::nanoseconds(iv), body, 0); if (iv2) s.every("u", std::chrono::nanoseconds(iv2), std::chrono::nanoseconds(5), body, 4);
    std::vector<int64_t> m, m2; int64_t end = 300 * iv + iv / 2; if (off) { pass(off * iv + iv / 2); s.set_enabled("t", false); pass(10 * iv); s.set_enabled("t", true); pass(end - mc::now()); } else pass(end); s.stop();
    for (int k = 0; k <= 300; k++) if (!off || k <= off || k > off + 10) m.push_back(k * iv); grid_exact(0, m); if (iv2) { for (int64_t t = 5; t <= end; t += iv2) m2.push_back(t); grid_exact(4, m2); }
}
void c08_crowd() { // n periodic tasks with the same or different intervals
    mc::Quiet q; task_scheduler s; int W = 1 + mc::choose(2); s.start(W); int n = (int[]){2, 5, 17, 40, 100}[mc::choose(5)], kind = mc::choose(3); auto body = [](int id) { mc::note(RUN, id); }; auto iv = [&](int i) { return (kind == 0 ? 2 : kind == 1 ? 1 + i % 3 : 3 + i % 7) * U; };
    for (int i = 0; i < n; i++) MC_CHECK(i % 2 ? s.every(std::string("p") + std::to_string(i), std::chrono::nanoseconds(iv(i)), body, int(i)) : s.every(std::chrono::nanoseconds(iv(i)), body, int(i)), "refused");
    pass(6 * U + 1); for (int i = 1; i < n; i += 4) MC_CHECK(s.remove_task("p" + std::to_string(i)), "remove"); pass(4 * U); s.stop(); for (int i = 0; i < n; i++) { std::vector<int64_t> m; for (int64_t t = 0; t <= (i % 4 == 1 ? 6 : 10) * U; t += iv(i)) m.push_back(t); grid_exact(i, m); }
}
void c08_history_wide() { // a removed id is scheduled again, long intervals become short and the other way round; operations between the instants
    mc::Quiet q; task_scheduler s; s.start(1); static const int64_t IV[] = {2, 3, 7, 20}; int64_t iv = IV[mc::choose(4)] * U, t = 0; s.every("t", std::chrono::nanoseconds(iv), work, 0, 1); std::vector<int64_t> want; int64_t next = 0; bool alive = true, enabled = true, begun = false; 
    auto run_to = [&](int64_t to) { while (alive && next <= to) { if (enabled) want.push_back(next); begun = true; next += iv; } };
    for (int i = 0; i < (mc::thorough() ? 4 : 3); i++) {
        int64_t step = (int64_t[]){U / 2, 3 * U, 8 * U, 41 * U}[mc::choose(4)] + 13; pass(step); t += step; run_to(t);
        int op = mc::choose(7); if (op < 4) { int64_t iv2 = IV[op] * U; bool r = s.update_interval("t", std::chrono::nanoseconds(iv2)); MC_CHECK(r == alive, "update_interval"); if (alive) { if (begun) { next += iv2 - iv; while (next < t) next += iv2; if (next == t) return; } iv = iv2; } } // (an instant that coincides with the change: explored elsewhere)
        else if (op == 4) { MC_CHECK(s.set_enabled("t", !enabled) == alive, "set_enabled"); if (alive) enabled = !enabled; }
        else if (op == 5) { MC_CHECK(s.remove_task("t") == alive, "remove"); alive = false; }
        else { bool r = s.every("t", std::chrono::nanoseconds(5 * U), std::chrono::nanoseconds(U), work, 0, 1); MC_CHECK(r == !alive, "every"); if (r) { alive = enabled = true; begun = false; iv = 5 * U; next = t + U; } }
        if (alive) MC_CHECK(s.get_interval("t") == std::optional<clk::duration>(std::chrono::nanoseconds(iv)) && s.is_enabled("t") == enabled, "registry");
    }
    pass(45 * U + 7); t += 45 * U + 7; run_to(t); s.stop(); grid_exact(0, want);
}
void c09_many() { // n ids, some of which are prefixes of others or very long: every answer is about its own task
    mc::Quiet q; task_scheduler s; s.start(1); int n = MANY[mc::choose(16)], kind = mc::choose(3); if (kind && n > 40) return; int k = (int[]){0, n / 2, n - 1}[mc::choose(3)]; auto name = [&](int i) { return kind == 0 ? std::to_string(i) : kind == 1 ? std::string(500, 'x') + std::to_string(i) : i == 0 ? std::string() : std::string(i, 'a'); };
    auto none = [] {}; auto iv = [](int i) { return std::chrono::nanoseconds((i + 1) * U); };
    for (int i = 0; i < n; i++) { MC_CHECK(i % 3 == 0 ? s.in(name(i), clk::duration(1000 * U + i), none).has_value() : s.every(name(i), iv(i), clk::duration(1000 * U), none), "task %d of %d refused", i, n); MC_CHECK(s.tasks_size() == (size_t)i + 1, "size"); }
    auto check = [&](int gone, int off) { for (int i = 0; i < n; i++) { auto I = name(i); MC_CHECK(s.is_scheduled(I) == (i != gone) && s.is_enabled(I) == (i != gone && i != off), "task %d of %d", i, n); auto v = s.get_interval(I); MC_CHECK(v == (i == gone || i % 3 == 0 ? std::nullopt : std::optional<clk::duration>(iv(i))), "interval of task %d of %d", i, n); } };
    check(-1, -1); MC_CHECK(s.set_enabled(name(k), false), "set_enabled"); check(-1, k); MC_CHECK(!s.in(name(k), clk::duration(5), none) && !s.every(name(k), iv(1), none), "an id is scheduled twice"); MC_CHECK(s.set_enabled(name(k), true), "set_enabled"); MC_CHECK(!s.is_scheduled(name(n) + "b") && !s.remove_task(name(n) + "b") && !s.set_enabled(name(n) + "b", false), "unknown id");
    MC_CHECK(s.remove_task(name(k)) && !s.remove_task(name(k)) && s.tasks_size() == (size_t)n - 1, "remove"); check(k, -1); if (k % 3) MC_CHECK(s.every(name(k), iv(k), clk::duration(1000 * U), none), "a free id is refused"); else MC_CHECK(s.in(name(k), clk::duration(1000 * U), none), "a free id is refused"); check(-1, -1);
    if (n < 101) { pass(1001 * U); MC_CHECK(s.tasks_size() == (size_t)(n - (n + 2) / 3), "%zu tasks after the one-shot ones ran", s.tasks_size()); for (int i = 0; i < n; i += 3) MC_CHECK(!s.is_scheduled(name(i)), "a finished one-shot task is scheduled"); } s.stop(); MC_CHECK(s.tasks_size() == 0 && !s.is_scheduled(name(k)), "after stop");
}
void c10_many() { // stop with n pending tasks, some due now behind a busy worker: promptly, all dropped
    mc::Quiet q; auto s = std::make_unique<task_scheduler>(); int W = 1 + mc::choose(2); s->start(W); int n = MANY[mc::choose(16)]; bool busy = mc::choose(2), destroy = mc::choose(2), periodic = mc::choose(2); std::vector<std::future<int>> f; if (busy) for (int i = 0; i < W; i++) s->in(clk::duration(0), [] { mc::await(0); });
    for (int i = 0; i < n; i++) { auto g = s->in(clk::duration(i % 2 ? 0 : 3600 * 1000 * U + i), [](int k) { mc::note(RUN, k); return k * 100 + 1; }, i * 4); MC_CHECK(g, "refused"); f.push_back(std::move(*g)); if (periodic && i % 10 == 0) s->every("p" + std::to_string(i), units(1), [] { mc::note(RUN, -1); }); }
    pass(U / 2); std::jthread rel([] { mc::set(0); }); int64_t t = mc::now(); if (destroy) s.reset(); else { MC_CHECK(s->stop(), "stop"); MC_CHECK(s->tasks_size() == 0 && !s->is_scheduled("p0"), "something remains scheduled"); } MC_CHECK(mc::now() == t, "stop waited"); rel.join(); MC_CHECK(mc::live_threads() == 1, "threads alive"); size_t end = mc::nevents();
    for (int i = 0; i < n; i++) { MC_CHECK(ready(f[i]), "future %d of %d not ready", i, n); int c = 0; for (size_t x = 0; x < end; x++) c += mc::event(x).tag == RUN && mc::event(x).a == i * 4; MC_CHECK(settle(f[i], i * 4, 1) == (c ? VALUE : BROKEN) && c <= 1 && (i % 2 || !c), "task %d ran %d times", i, c); if (!busy && i % 2) MC_CHECK(c == 1, "a due task did not run"); }
    if (s) { s->start(1); pass(2 * 3600 * 1000 * U); for (size_t x = end; x < mc::nevents(); x++) MC_CHECK(mc::event(x).tag != RUN, "a task of the previous session ran"); }
}
// ---- two schedulers: what is done to one leaves the other alone, also with the same ids
void two_histories() {
    mc::Quiet q; struct T { int64_t due, iv, id; bool enabled; }; struct M { bool run = false; std::map<std::string, T> t; } m[2]; std::unique_ptr<task_scheduler> s[2]; for (auto& x : s) x = std::make_unique<task_scheduler>(); int serial = 0; std::map<int, std::vector<int64_t>> want; std::vector<std::pair<int, std::future<int>>> f; int64_t now = 0;
    for (int i = 0; i < (mc::thorough() ? 5 : 4); i++) {
        int k = mc::choose(2), op = mc::choose(7); auto& o = m[k]; auto& x = *s[k]; int id = serial * 4; bool had = o.t.count("t");
        switch (op) {
        case 0: MC_CHECK(x.start(1) == !o.run, "start"); o.run = true; break;
        case 1: MC_CHECK(x.stop() == o.run, "stop"); o.run = false; o.t.clear(); break;
        case 2: { auto g = x.in("t", units(2), work, int(id), 1); MC_CHECK(g.has_value() == (o.run && !had), "addition"); if (g) { f.emplace_back(id, std::move(*g)); o.t["t"] = {now + 2 * U, 0, id, true}; serial++; } break; }
        case 3: { bool r = x.every("t", units(1), units(2), work, int(id), 1); MC_CHECK(r == (o.run && !had), "addition"); if (r) { o.t["t"] = {now + 2 * U, U, id, true}; serial++; } break; }
        case 4: MC_CHECK(x.remove_task("t") == had, "remove"); o.t.erase("t"); break;
        case 5: MC_CHECK(x.set_enabled("t", false) == had, "set_enabled"); if (had) o.t["t"].enabled = false; break;
        case 6: s[k] = std::make_unique<task_scheduler>(); o.run = false; o.t.clear(); break;
        }
        int64_t step = i % 2 ? 2 * U + 131 : U / 4; pass(step); now = mc::now();
        for (auto& y : m) for (auto it = y.t.begin(); it != y.t.end();) { T& t = it->second; bool gone = false; while (t.due <= now && !gone) { if (t.enabled) want[t.id].push_back(t.due); if (t.iv) t.due += t.iv; else gone = true; } it = gone ? y.t.erase(it) : std::next(it); }
        for (int y = 0; y < 2; y++) { bool have = m[y].t.count("t"); MC_CHECK(s[y]->is_scheduled("t") == have && s[y]->is_enabled("t") == (have && m[y].t["t"].enabled) && s[y]->tasks_size() == m[y].t.size(), "registry of scheduler %d after operation %d on scheduler %d", y, op, k); MC_CHECK(s[y]->get_interval("t").has_value() == (have && m[y].t["t"].iv), "interval"); }
    }
    for (int i = 0; i < serial; i++) grid_exact(i * 4, want[i * 4]);
}
void two_at_once() { // tasks of two schedulers due at the same instants, one scheduler is stopped
    task_scheduler a, b; { mc::Quiet q; a.start(1); b.start(1); } auto fa = a.in("t", units(1), work, 0, 1), fb = b.in("t", units(1), work, 4, 1), fc = b.in("u", units(2), work, 8, 1); auto fl = a.in("u", units(2), work, 12, 1); MC_CHECK(fa && fb && fc && fl, "refused");
    pass(U); a.stop(); mc::log(STOPPED); MC_CHECK(ready(*fa) && ready(*fl), "not ready"); int r = settle(*fa, 0, 1); MC_CHECK(r == (all(RUN, 0).empty() ? BROKEN : VALUE) && settle(*fl, 12, 1) == BROKEN, "outcome"); MC_CHECK(settle(*fb, 4, 1) == VALUE && settle(*fc, 8, 1) == VALUE, "a task of the other scheduler is dropped"); grid_exact(4, {U}); grid_exact(8, {2 * U}); MC_CHECK(a.tasks_size() == 0 && b.tasks_size() == 0, "left over");
}
// ---- exhaustion: a thread cannot be created, or memory runs out, while start or an addition executes. Either the call works or it throws and has done nothing
void c10_exhausted(bool threads) {
    int W = 1 + mc::choose(2), n = 1 + mc::choose(threads ? W + 2 : 14), after = mc::choose(3); task_scheduler s; bool failed = false;
    threads ? mc::fault_thread(n) : mc::fault_alloc(n); try { MC_CHECK(s.start(W), "start of a stopped scheduler is refused"); } catch (const std::system_error&) { failed = threads; MC_CHECK(threads, "start throws a system_error"); } catch (const std::bad_alloc&) { failed = true; MC_CHECK(!threads, "start throws bad_alloc"); }
    mc::fault_thread(0); mc::fault_alloc(0); if (threads) MC_CHECK(failed == (n <= W + 1), "start reports success although its thread %d could not be created", n);
    if (failed) { MC_CHECK(mc::live_threads() == 1, "%d threads left by a start that failed at its %s %d", mc::live_threads() - 1, threads ? "thread" : "allocation", n); auto f = s.in("t", units(1), work, 0, 1); MC_CHECK(!f && !s.every("e", units(1), work, 0, 1) && !s.is_scheduled("t") && s.tasks_size() == 0, "a scheduler whose start failed accepts tasks"); if (after) MC_CHECK(!s.stop(), "stop of a scheduler whose start failed reports true"); if (after == 2) return; MC_CHECK(s.start(W), "start after a failed one is refused"); }
    MC_CHECK(mc::live_threads() == W + 2, "%d threads", mc::live_threads() - 1); auto f = s.in("t", units(2), work, 0, 1); MC_CHECK(f && s.every("e", units(1), units(1), work, 4, 1), "refused"); pass(3 * U + U / 2); MC_CHECK(settle(*f, 0, 1) == VALUE, "outcome"); grid_exact(0, {2 * U}); grid_exact(4, {U, 2 * U, 3 * U}); MC_CHECK(s.stop() && mc::live_threads() == 1, "stop");
}
void exhausted() { // the n-th allocation of an addition or modification fails
    mc::Quiet q; task_scheduler s; s.start(1); auto other = s.in("other", units(2), work, 4, 1); s.every("grid", units(2), units(1), work, 8, 1); int kind = mc::choose(8), k = 1 + mc::choose(16); std::string big(100, 'x'), id(40, 'i'); bool threw = false, ok = false; std::optional<std::future<int>> f;
    auto body = [](const std::string& t) { mc::note(RUN, 0); MC_CHECK(t.size() == 100, "argument"); return 7; };
    mc::fault_alloc(k); try { switch (kind) { case 0: f = s.in(std::string(40, 'i'), units(1), body, big); break; case 1: f = s.at(std::string(40, 'i'), clk::now() + units(1), body, big); break; case 2: f = s.in(units(1), body, big); break; case 3: f = s.at(clk::now() + units(1), body, big); break; case 4: ok = s.every(std::string(40, 'i'), units(2), units(1), body, big); break; case 5: ok = s.every(units(2), body, big); break; case 6: ok = s.update_interval("grid", units(2)); break; default: ok = s.set_enabled("other", false) && s.set_enabled("grid", true); } } catch (const std::bad_alloc&) { threw = true; } mc::fault_alloc(0);
    bool gone = kind == 7 && ok; MC_CHECK(threw || ok || f, "refused"); MC_CHECK(s.tasks_size() == (threw || kind >= 6 ? 2u : 3u), "%zu tasks after an operation that %s", s.tasks_size(), threw ? "failed" : "succeeded"); if (kind != 2 && kind != 3 && kind < 5) MC_CHECK(s.is_scheduled(id) == !threw, "id after an addition that %s", threw ? "failed" : "succeeded"); MC_CHECK(s.get_interval("grid") == std::optional<clk::duration>(units(2)), "interval");
    pass(5 * U + U / 2); size_t n = all(RUN, 0).size(); if (threw) MC_CHECK(n == 0, "a task ran whose addition failed"); if (f) MC_CHECK(ready(*f) && f->get() == 7 && n == 1, "outcome"); if (ok && kind < 6) MC_CHECK(n == 3, "periodic task ran %zu times", n);
    grid_exact(8, {U, 3 * U, 5 * U}); if (!gone) { grid_exact(4, {2 * U}); MC_CHECK(settle(*other, 4, 1) == VALUE, "outcome of another task"); } else MC_CHECK(all(RUN, 4).empty(), "a disabled task ran"); if (!s.is_scheduled(id)) { auto g = s.in(std::string(id), units(1), body, big); MC_CHECK(g.has_value(), "id not free after a failure"); }
}
struct Opt { int procs = 3; int qt = 0, tt = 0, qs = 0, ts = 1; bool delay = false; std::vector<int64_t> late{}; bool seq = false, idle = false; std::vector<int64_t> jumps{}; };
template <class F> void add(const char* name, F fn, int qb, int tb, Opt o = {}) {
    mc::Scenario s; s.name = name; s.fn = fn; s.nprocs = o.procs; s.delay = o.delay; s.seq = o.seq; s.idle_time = o.idle; if (!o.late.empty()) s.late = o.late;
    if (o.seq) s.step_limit = 1000000; s.jumps = o.jumps; s.quick = {qb, o.qt, o.qs, 120}; s.thorough = {tb, o.tt, o.ts, 150}; mc::add(s);
}
}
void register_scenarios() {
    std::vector<int> dues{-1, 0, 1, 2}, gaps{0, 1};
    add("C07/sequence-2", [=] { c07_sequence(2, 1, dues, gaps, 0); }, 1, 9);
    add("C07/sequence-3", [=] { c07_sequence(3, 1, {-1, 1, 2, 3}, gaps, 0); }, 0, 9);
    add("C07/sequence-3-w3", [=] { c07_sequence(3, 3, {0, 2}, {0, 1}, 0); }, 0, 2);
    add("C07/sequence-2-late", [=] { c07_sequence(2, 2, dues, gaps, 3 * U); }, 0, 2, {.qt = 1, .tt = 2, .late = {U / 2, U, 3 * U / 2}});
    add("C07/two-threads", [] { c07_two_threads(1); }, 2, 9);
    add("C07/overtake-2", [] { c07_overtake(2); }, 3, 9, {.qs = 1, .ts = 2});
    add("C07/overtake-3", [] { c07_overtake(3); }, 4, 9);
    add("C07/boundary", [] { c07_boundary(0); }, 3, 9);
    add("C07/boundary-late", [] { c07_boundary(2 * U); }, 2, 9, {.qt = 1, .tt = 2, .late = {U / 2, U}});
    add("C07/clock-2", [=] { c07_clock(2, 1, {0, 1, 2}); }, 1, 3, {.qt = 2, .tt = 3, .late = {U}, .idle = true, .jumps = {1, U / 2, U}});
    add("C07/clock-3-w2", [=] { c07_clock(3, 2, {1, 2}); }, 1, 2, {.qt = 1, .tt = 2, .late = {U}, .idle = true, .jumps = {1, U}});
    add("C07/overloads", c07_overloads, 0, 3);
    add("C07/nested", c07_nested, 3, 9);
    add("C08/plain-w1", [] { c08_plain(1); }, 1, 2);
    add("C08/plain-w2", [] { c08_plain(2); }, 0, 1);
    add("C08/two-w1", [] { c08_two(1); }, 1, 2);
    add("C08/late-wakeup", [] { c08_late(2 * U, 9 * U, true); }, 0, 2, {.qt = 2, .tt = 4, .late = {U, 2 * U, 3 * U, 4 * U, 5 * U}, .idle = true});
    add("C08/late-anything", [] { c08_late(2 * U, 7 * U, false); }, 0, 1, {.qt = 2, .tt = 3, .late = {U, 2 * U, 5 * U}});
    add("C08/clock", [] { c08_clock(2 * U, 7 * U, 1); }, 1, 2, {.qt = 2, .tt = 3, .late = {U, 3 * U}, .idle = true, .jumps = {1, U, 2 * U, 3 * U}});
    add("C08/clock-2", [] { c08_clock(2 * U, 7 * U, 2); }, 0, 2, {.qt = 2, .tt = 3, .late = {U, 3 * U}, .idle = true, .jumps = {1, U, 2 * U, 5 * U}});
    std::vector<int> every{0, 1, 2, 3, 4};
    add("C08/history-3", [=] { c08_history(3, false, every); }, 0, 1);
    add("C08/history-boundary-3", [=] { c08_history(mc::thorough() ? 3 : 2, true, every); }, 0, 1);
    add("C08/history-boundary-2", [=] { c08_history(2, true, {0, 2, 3}); }, 1, 3);
    add("C08/history-boundary-1", [=] { c08_history(1, true, every); }, 2, 4);
    add("C08/overdue", c08_overdue, 0, 0, {.seq = true});
    add("C08/self-remove", [] { c08_self(0); }, 3, 9);
    add("C08/self-update", [] { c08_self(1); }, 3, 9);
    add("C08/self-disable", [] { c08_self(2); }, 3, 9);
    add("C08/throwing", c08_throwing, 3, 9);
    add("C08/remove-race", c08_remove_race, 3, 9);
    add("C08/update-race", c08_update_race, 3, 9);
    std::string a = "0123456789abcdef", b = collide(a.c_str());
    add("C09/registry-1id", [] { c09_registry(mc::thorough() ? 5 : 4, {"A"}, 15); }, 0, 0, {.seq = true});
    add("C09/registry-2ids", [] { c09_registry(mc::thorough() ? 4 : 3, {"A", ""}, 15); }, 0, 0, {.seq = true});
    add("C09/registry-colliding-ids", [=] { c09_registry(mc::thorough() ? 4 : 3, {a, b}, 8); }, 0, 0, {.seq = true});
    add("C09/duplicate-race", c09_duplicate_race, 3, 9);
    add("C09/query-race", c09_query_race, 3, 9);
    add("C10/stop-empty", [] { c10_stop(1, 0, false, false); }, 4, 9);
    add("C10/stop-far", [] { c10_stop(1, 1, false, false); }, 4, 9);
    add("C10/stop-due", [] { c10_stop(1, 2, false, false); }, 3, 9);
    add("C10/stop-periodic", [] { c10_stop(1, 3, false, true); }, 3, 9);
    add("C10/stop-at-instant", [] { c10_stop(1, 4, false, false); }, 3, 9);
    add("C10/stop-two-due-restart", [] { c10_stop(1, 5, false, true); }, 2, 9);
    add("C10/stop-while-executing", [] { c10_stop(1, 6, false, false); }, 3, 9);
    add("C10/stop-w2", [] { c10_stop(2, 5, false, false); }, 2, 9);
    add("C10/destroy-far", [] { c10_stop(1, 1, true, false); }, 4, 9, {.qs = 1, .ts = 2});
    add("C10/destroy-due", [] { c10_stop(1, 2, true, false); }, 3, 9);
    add("C10/destroy-while-executing", [] { c10_stop(1, 6, true, false); }, 3, 9);
    add("C10/stop-right-after-start", [] { c10_stop(1, 0, false, true, true); }, 2, 9);
    add("C10/stop-right-after-start-and-add", [] { c10_stop(1, 1, false, false, true); }, 2, 9, {.qs = 1, .ts = 2});
    add("C10/stop-far-w2", [] { c10_stop(2, 1, false, false, true); }, 2, 9);
    add("C10/restart", [] { c10_stop(1, 1, false, true); }, 3, 9);
    add("C10/add-races-stop", [] { c10_add_race(1, 0, false, false); }, 3, 9);
    add("C10/add-far-races-stop-restart", [] { c10_add_race(1, 2, false, true); }, 3, 9);
    add("C10/every-races-stop", [] { c10_add_race(1, 0, true, true); }, 3, 9);
    add("C10/start-races-stop", c10_start_stop_race, 3, 9);
    add("C10/start-start", [] { c10_start_race(2); }, 3, 9);
    add("C10/stop-stop", c10_stop_race, 3, 9);
    add("C10/task-adds-during-stop", c10_running_task_adds, 3, 9);
    add("C10/lifecycle", [] { c10_sequence(mc::thorough() ? 6 : 4); }, 0, 0, {.seq = true});
    add("C10/all-kinds", [] { c10_all_kinds(mc::thorough() ? 4 : 3); }, 0, 0, {.seq = true});
    add("C07/faults", faults, 0, 0, {.seq = true});
    add("C09/faults", faults, 0, 0, {.seq = true});
    add("C07/fine", c07_fine, 0, 0, {.seq = true});
    add("C07/many", c07_many, 0, 0, {.seq = true});
    add("C08/fine", c08_fine, 0, 0, {.seq = true});
    add("C08/many", c08_many, 0, 0, {.seq = true});
    add("C08/crowd", c08_crowd, 0, 0, {.seq = true});
    add("C08/history-wide", c08_history_wide, 0, 0, {.seq = true});
    add("C09/many", c09_many, 0, 0, {.seq = true});
    add("C10/many", c10_many, 0, 0, {.seq = true});
    add("C10/no-threads", [] { c10_exhausted(true); }, 0, 1);
    add("C10/no-memory", [] { mc::Quiet q; c10_exhausted(false); }, 0, 0, {.seq = true});
    add("C09/no-memory", exhausted, 0, 0, {.seq = true});
    add("C07/no-memory", exhausted, 0, 0, {.seq = true});
    add("C07/two-schedulers", two_at_once, 2, 9);
    add("C09/two-schedulers", two_histories, 0, 0, {.seq = true});
}
