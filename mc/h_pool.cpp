// C01-C04: thread_pool
#include "mc.h"
#include "util.h"
#include <teiacare/sdk/thread_pool.hpp>
#include <thread>
#include <memory>
#include <stdexcept>
#include <optional>
#include <latch>

using tc::sdk::thread_pool;
namespace {
enum { SUBMIT = 1, SUBMITTED, BEGIN, END, STOP, STOPPED, START, STARTED, GOT, GATE };
enum { VALUE = 1, EXC = 2, BROKEN = 3, NOTREADY = 4 };

int count(int tag, int64_t a) { int n = 0; for (size_t i = 0; i < mc::nevents(); i++) n += mc::event(i).tag == tag && mc::event(i).a == a; return n; }
long pos(int tag, int64_t a, int nth = 0) { for (size_t i = 0; i < mc::nevents(); i++) if (mc::event(i).tag == tag && mc::event(i).a == a && nth-- == 0) return (long)i; return -1; }

struct Boom : std::runtime_error { int id; explicit Boom(int i) : std::runtime_error("boom"), id(i) {} };
int work(int id, int arg) { mc::log(BEGIN, id); mc::note(END, id); if (id % 4 == 3) throw Boom(id); return id * 100 + arg; }

int settle(std::future<int>& f, int id, int arg) { // consumes a future which must become ready
    try { int v = f.get(); MC_CHECK(v == id * 100 + arg, "future of task %d yields %d instead of %d", id, v, id * 100 + arg); MC_CHECK(id % 4 != 3, "exception of task %d lost", id); return VALUE; }
    catch (const Boom& b) { MC_CHECK(b.id == id && id % 4 == 3, "task %d's future carries task %d's exception", id, b.id); return EXC; }
    catch (const std::future_error& e) { MC_CHECK(e.code() == std::future_errc::broken_promise, "unexpected future error"); return BROKEN; }
}
template <class F> bool ready(F& f) { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }

struct Tracked { // argument whose copies are counted; must arrive with the value it had at submission
    int v; explicit Tracked(int x) : v(x) {} Tracked(const Tracked& o) : v(o.v) {} Tracked(Tracked&& o) : v(o.v) { o.v = -1; } Tracked& operator=(const Tracked&) = default;
};

// C01: S submitters with `per` tasks each on W workers
void c01(int S, int per, int W) {
    auto pool = std::make_unique<thread_pool>();
    { mc::Quiet q; MC_CHECK(pool->start(W), "start refused"); }
    auto submit = [&](int s) {
        std::optional<std::future<int>> f[4];
        for (int i = 0; i < per; i++) { int id = s * per + i; f[i] = pool->run(work, id, 7 + id); }
        for (int i = 0; i < per; i++) { int id = s * per + i; int r = settle(*f[i], id, 7 + id); MC_CHECK(r != BROKEN, "task %d of a running pool was dropped", id); MC_CHECK(count(BEGIN, id) == 1, "task %d ran %d times", id, count(BEGIN, id)); }
    };
    { std::vector<std::jthread> t; for (int s = 1; s < S; s++) t.emplace_back([&, s] { submit(s); }); submit(0); }
    for (int id = 0; id < S * per; id++) MC_CHECK(count(BEGIN, id) == 1 && count(END, id) == 1, "task %d ran %d times", id, count(BEGIN, id));
    MC_CHECK(pool->is_running(), "pool not running");
    pool->stop();
    for (int id = 0; id < S * per; id++) MC_CHECK(count(BEGIN, id) == 1, "task %d ran %d times", id, count(BEGIN, id));
}
// W gated workers, `pre` plain tasks, then groups of W tasks which wait for one another; once the gate opens everything must run
void c01_stall(int W, int pre, int groups) {
    thread_pool pool; { mc::Quiet q; pool.start(W); } std::vector<std::future<int>> f; std::vector<std::unique_ptr<std::latch>> l; int id = 0;
    auto task = [](int k, std::latch* x, bool gate) { mc::note(BEGIN, k); if (gate) mc::await(0); if (x) x->arrive_and_wait(); return k * 100 + 1; };
    for (int i = 0; i < W; i++, id++) f.push_back(pool.run(task, id + 0, nullptr, true));
    for (int i = 0; i < pre; i++, id++) f.push_back(pool.run(task, id + 0, nullptr, false));
    for (int g = 0; g < groups; g++) { l.push_back(std::make_unique<std::latch>(W)); for (int i = 0; i < W; i++, id++) f.push_back(pool.run(task, id + 0, l.back().get(), false)); }
    mc::set(0);
    for (int i = 0; i < id; i++) { MC_CHECK(f[i].get() == i * 100 + 1, "result of task %d", i); MC_CHECK(count(BEGIN, i) == 1, "task %d ran %d times", i, count(BEGIN, i)); }
}
// the same on the default schedule with more workers; and tasks each of which waits for any one of its W-1 successors
void c01_stall_wide() { mc::Quiet q; int W = 1 + mc::choose(8); c01_stall(W, mc::choose(4), 1 + mc::choose(3)); }
void c01_depends() {
    mc::Quiet q; int W = 2 + mc::choose(3), n = 3 + mc::choose(3), gate = mc::choose(2); std::vector<int> to(n); for (int i = 0; i + 1 < n; i++) to[i] = mc::choose(n - i) + i; // to[i] == i: waits for nobody
    to[n - 1] = n - 1; std::vector<char> done(n); int started = 0; // can W workers which take tasks in order run all of them?
    for (bool progress = true; progress;) { progress = false; int blocked = 0; for (int i = started - 1; i >= 0; i--) if (!done[i]) { if (to[i] == i || done[to[i]]) done[i] = progress = true; else blocked++; } if (started < n && blocked < W) { started++; progress = true; } }
    for (char d : done) if (!d) return;
    thread_pool pool; pool.start(W); std::vector<std::future<void>> f; if (gate) for (int i = 0; i < W; i++) f.push_back(pool.run([] { mc::await(0); }));
    for (int i = 0; i < n; i++) f.push_back(pool.run([i, t = to[i]] { if (t != i) mc::await(10 + t); mc::set(10 + i); }));
    mc::set(0); for (auto& x : f) x.get();
}
// callables of every kind, arguments copied at submission, void results and exceptions
void c01_kinds() {
    thread_pool pool; int w = 1 + mc::choose(2); { mc::Quiet q; pool.start(w); }
    struct Obj { int k; int add(int x) const { return k + x; } void set(int* p) { *p = k; } } obj{40};
    struct Fn { int base; int operator()(const Tracked& t) { return base + t.v; } };
    Tracked arg(5); int out = 0; int state = 0;
    auto f1 = pool.run([](Tracked t) { return t.v * 2; }, arg);
    auto f2 = pool.run(Fn{100}, arg);
    auto f3 = pool.run(&Obj::add, &obj, 2);
    auto f4 = pool.run(&Obj::set, &obj, &out);
    auto f5 = pool.run([]() -> std::string { return "text"; });
    auto f6 = pool.run([&state] { state = 9; });
    auto f7 = pool.run([](int a, int b, int c) -> int { throw Boom(a * 100 + b * 10 + c); }, 1, 2, 3);
    auto f8 = pool.run([](Tracked& t) { t.v += 1; return t.v; }, arg); // bound copy, not the original
    arg.v = 99;
    MC_CHECK(f1.get() == 10, "lambda result or argument copy wrong");
    MC_CHECK(f2.get() == 105, "functor result wrong");
    MC_CHECK(f3.get() == 42, "member function result wrong");
    f4.get(); MC_CHECK(out == 40, "void member function not run");
    MC_CHECK(f5.get() == "text", "string result wrong");
    f6.get(); MC_CHECK(state == 9, "void lambda not run before its future was ready");
    try { f7.get(); MC_CHECK(false, "exception lost"); } catch (const Boom& b) { MC_CHECK(b.id == 123, "wrong exception"); }
    MC_CHECK(f8.get() == 6 && arg.v == 99, "argument not copied");
}
// tasks submitting tasks
void c01_nested() {
    thread_pool pool; { mc::Quiet q; pool.start(2); }
    std::future<int> inner;
    auto outer = pool.run([&] { mc::log(BEGIN, 0); inner = pool.run(work, 1, 8); auto g = pool.run(work, 2, 9); return g.get(); });
    MC_CHECK(outer.get() == 209, "nested result wrong");
    MC_CHECK(settle(inner, 1, 8) == VALUE, "nested task dropped");
    for (int id = 0; id < 3; id++) MC_CHECK(count(BEGIN, id) == 1, "task %d ran %d times", id, count(BEGIN, id));
}

// C02: `gated` tasks that begin and cannot end before flag 0 is set, `queued` further tasks; then stop
void c02(int W, int gated, int quick, bool destroy, bool waiter) {
    auto pool = std::make_unique<thread_pool>();
    { mc::Quiet q; pool->start(W); }
    std::vector<std::future<int>> fs; 
    for (int i = 0; i < gated; i++) fs.push_back(pool->run([](int id, int arg) { mc::log(BEGIN, id); mc::set(10 + id); mc::await(0); mc::log(END, id); return id * 100 + arg; }, i, 1));
    for (int i = gated; i < gated + quick; i++) fs.push_back(pool->run([](int id, int arg) { mc::log(BEGIN, id); mc::log(END, id); return id * 100 + arg; }, i, 1));
    int n = gated + quick;
    std::jthread release([] { mc::set(0); });
    std::jthread wait; int got = 0;
    if (waiter) wait = std::jthread([&] { auto& f = fs[n - 1]; try { f.get(); got = VALUE; } catch (const std::future_error&) { got = BROKEN; } });
    mc::log(STOP);
    if (destroy) pool.reset(); else MC_CHECK(pool->stop(), "stop of a running pool reports false");
    mc::log(STOPPED);
    if (pool) { MC_CHECK(!pool->is_running(), "running after stop"); MC_CHECK(pool->threads_count() == 0, "threads after stop"); }
    if (waiter) wait.join();
    release.join();
    MC_CHECK(mc::live_threads() == 1, "worker threads alive after stop");
    long stopped = pos(STOPPED, 0);
    for (int i = 0; i < n; i++) {
        int b = count(BEGIN, i), e = count(END, i);
        MC_CHECK(b <= 1 && b == e, "task %d begun %d times, finished %d times", i, b, e);
        if (b) MC_CHECK(pos(END, i) < stopped, "stop returned before task %d finished", i);
        if (waiter && i == n - 1) { MC_CHECK(got == (b ? VALUE : BROKEN), "waiter of task %d released with the wrong outcome", i); continue; }
        MC_CHECK(ready(fs[i]), "future of task %d not ready after stop: its waiter would hang", i);
        MC_CHECK(settle(fs[i], i, 1) == (b ? VALUE : BROKEN) || i % 4 == 3, "task %d %s but its future says otherwise", i, b ? "ran" : "was discarded");
    }
    if (pool) { // nothing of the first session may run in the next one
        mc::Quiet q; pool->start(W); auto f = pool->run(work, 8, 2); MC_CHECK(settle(f, 8, 2) == VALUE, "restarted pool does not run tasks"); pool->stop();
        for (int i = 0; i < n; i++) MC_CHECK(pos(BEGIN, i) < stopped, "task %d of the previous session ran after restart", i);
    }
}
// stop concurrent with submissions: never hangs, and tasks submitted before the stop are settled
void c02_race(int W) {
    thread_pool pool; { mc::Quiet q; pool.start(W); }
    std::future<int> f[3];
    f[0] = pool.run([](int id, int arg) { mc::log(BEGIN, id); mc::log(END, id); return id * 100 + arg; }, 0, 1);
    std::jthread sub([&] { for (int i = 1; i < 3; i++) { mc::log(SUBMIT, i); f[i] = pool.run([](int id, int arg) { mc::log(BEGIN, id); mc::log(END, id); return id * 100 + arg; }, i, 1); mc::log(SUBMITTED, i); } });
    mc::log(STOP); pool.stop(); mc::log(STOPPED);
    sub.join();
    MC_CHECK(mc::live_threads() == 1, "worker threads alive after stop");
    for (int i = 0; i < 3; i++) {
        int b = count(BEGIN, i); MC_CHECK(b <= 1 && b == count(END, i), "task %d begun %d times", i, b);
        if (b) MC_CHECK(pos(END, i) < pos(STOPPED, 0), "task %d still running after stop", i);
        bool before = i == 0 || (pos(SUBMITTED, i) < pos(STOP, 0));
        if (b || before) { MC_CHECK(ready(f[i]), "future of task %d not ready after stop", i); MC_CHECK(settle(f[i], i, 1) == (b ? VALUE : BROKEN), "task %d: wrong outcome", i); }
    }
}
// a running task that itself submits while the pool stops
void c02_task_submits() {
    auto pool = std::make_unique<thread_pool>(); { mc::Quiet q; pool->start(1); }
    std::future<int> inner;
    auto f = pool->run([&] { mc::log(BEGIN, 0); inner = pool->run(work, 1, 1); mc::log(END, 0); });
    mc::log(STOP); pool->stop(); mc::log(STOPPED);
    int b = count(BEGIN, 0);
    MC_CHECK(b == count(END, 0) && b <= 1, "outer task not finished");
    try { f.get(); MC_CHECK(b == 1, "value without execution"); } catch (const std::future_error&) { MC_CHECK(b == 0, "broken promise after execution"); }
    pool.reset();
    if (b) { MC_CHECK(ready(inner), "future of a task left in a destroyed pool never becomes ready"); }
    MC_CHECK(count(BEGIN, 1) == 0 || pos(BEGIN, 1) < pos(STOPPED, 0), "task executed after stop");
}

// a running task waits for the outcome of a queued one: the stop discards that one, which releases the first
void c02_task_waits(int W, bool destroy) {
    auto pool = std::make_unique<thread_pool>(); { mc::Quiet q; pool->start(W); } std::future<int> inner, last; int got = 0; std::vector<std::future<void>> f;
    for (int i = 0; i < W; i++) f.push_back(pool->run([&, i] { mc::log(BEGIN, 10 + i); mc::set(1 + i); mc::await(0); if (i == 0) { try { inner.get(); got = VALUE; } catch (const std::future_error&) { got = BROKEN; } } mc::log(END, 10 + i); }));
    for (int i = 0; i < W; i++) mc::await(1 + i);
    inner = pool->run(work, 4, 1); last = pool->run(work, 8, 1); mc::set(0);
    mc::log(STOP); if (destroy) pool.reset(); else MC_CHECK(pool->stop(), "stop"); mc::log(STOPPED);
    for (int i = 0; i < W; i++) { MC_CHECK(pos(END, 10 + i) >= 0 && pos(END, 10 + i) < pos(STOPPED, 0), "stop returned before a running task finished"); f[i].get(); }
    MC_CHECK(got == (count(BEGIN, 4) ? VALUE : BROKEN), "the waiting task was released with outcome %d", got); MC_CHECK(ready(last), "future not ready"); MC_CHECK(settle(last, 8, 1) == (count(BEGIN, 8) ? VALUE : BROKEN), "outcome");
}
// C03
void c03_start_race(int callers) {
    thread_pool pool; int wins = 0; 
    { std::vector<std::jthread> t; for (int i = 0; i < callers; i++) t.emplace_back([&] { bool r = pool.start(2); mc::log(STARTED, r); if (r) MC_CHECK(pool.is_running(), "not running after successful start"); }); }
    wins = count(STARTED, 1);
    MC_CHECK(wins == 1, "%d of %d concurrent starts succeeded", wins, callers);
    MC_CHECK(pool.is_running() && pool.threads_count() == 2 && mc::live_threads() == 3, "wrong number of workers");
    auto f = pool.run(work, 1, 1); MC_CHECK(settle(f, 1, 1) == VALUE, "pool does not work");
}
void c03_stop_race(int callers) {
    thread_pool pool; { mc::Quiet q; pool.start(2); }
    { std::vector<std::jthread> t; for (int i = 0; i < callers; i++) t.emplace_back([&] { bool r = pool.stop(); MC_CHECK(!pool.is_running(), "running after stop"); MC_CHECK(pool.is_running() || true, " "); mc::log(STOPPED, r); }); }
    MC_CHECK(count(STOPPED, 1) == 1, "%d concurrent stops succeeded", count(STOPPED, 1));
    MC_CHECK(pool.threads_count() == 0 && mc::live_threads() == 1, "workers left after stop");
    MC_CHECK(!pool.stop(), "stop of a stopped pool reports true");
}
void c03_start_stop_race() {
    thread_pool pool; { mc::Quiet q; pool.start(1); }
    bool r1 = false, r2 = false;
    { std::jthread a([&] { r1 = pool.stop(); }); std::jthread b([&] { r2 = pool.start(1); }); }
    MC_CHECK(r1, "stop of a running pool reports false");
    MC_CHECK(pool.is_running() == r2 && pool.threads_count() == (r2 ? 1u : 0u) && mc::live_threads() == (r2 ? 2 : 1), "state after concurrent start (%d) and stop is inconsistent", r2);
    if (!r2) MC_CHECK(pool.start(1), "restart fails");
    auto f = pool.run(work, 1, 1); MC_CHECK(settle(f, 1, 1) == VALUE, "pool does not work");
}
void c03_sequence() { // every sequence of 4 operations
    mc::Quiet quiet; thread_pool pool; bool running = false; unsigned n = 0; 
    MC_CHECK(!pool.is_running() && pool.threads_count() == 0, "fresh pool not stopped");
    for (int i = 0; i < (mc::thorough() ? 4 : 3); i++) {
        int op = mc::choose(7);
        if (op < 6) { static const unsigned req[] = {0, 1, 2, 3, 4, 1000}; bool r = pool.start(req[op]); MC_CHECK(r == !running, "start returned %d while %srunning", r, running ? "" : "not "); if (!running) n = req[op] < 1 ? 1 : req[op] > 3 ? 3 : req[op]; running = true; }
        else { bool r = pool.stop(); MC_CHECK(r == running, "stop returned %d while %srunning", r, running ? "" : "not "); running = false; n = 0; }
        MC_CHECK(pool.is_running() == running, "is_running wrong");
        MC_CHECK(pool.threads_count() == n, "threads_count is %zu, expected %u", pool.threads_count(), n);
        MC_CHECK(mc::live_threads() == (int)n + 1, "%d workers alive, expected %u", mc::live_threads() - 1, n);
        if (running && i == 2) { auto f = pool.run(work, i, 1); settle(f, i, 1); }
    }
}
void c03_default() { thread_pool pool; pool.start(); MC_CHECK(pool.threads_count() == 3 && mc::live_threads() == 4, "default start does not use the hardware concurrency"); }

// C04
void c04_fifo(int n) {
    thread_pool pool; bool before = mc::choose(2); std::vector<std::future<int>> fs;
    if (!before) pool.start(1);
    for (int i = 0; i < n; i++) { fs.push_back(pool.run([](int id) { mc::log(BEGIN, id); mc::log(END, id); return id; }, i)); }
    if (before) { for (int i = 0; i < n; i++) MC_CHECK(count(BEGIN, i) == 0, "task ran before start"); pool.start(1); }
    for (int i = 0; i < n; i++) MC_CHECK(fs[i].get() == i, "wrong result");
    for (int i = 0; i < n; i++) { MC_CHECK(count(BEGIN, i) == 1, "task %d ran %d times", i, count(BEGIN, i)); if (i) MC_CHECK(pos(END, i - 1) < pos(BEGIN, i), "single worker: task %d began before task %d ended", i, i - 1); }
}
void c04_submission_order(int W) { // a task submitted after another submission returned never begins before it
    // "begins" is observed at the dequeue order: with one gate task per worker no task can overtake in the queue
    thread_pool pool; { mc::Quiet q; pool.start(W); } std::future<void> f[4];
    auto t = [](int id) { mc::log(BEGIN, id); };
    std::jthread other([&] { mc::log(SUBMIT, 2); f[2] = pool.run(t, 2); mc::log(SUBMITTED, 2); mc::log(SUBMIT, 3); f[3] = pool.run(t, 3); mc::log(SUBMITTED, 3); });
    for (int i = 0; i < 2; i++) { mc::log(SUBMIT, i); f[i] = pool.run(t, i); mc::log(SUBMITTED, i); }
    other.join();
    for (auto& x : f) x.get();
    for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) if (i != k && pos(SUBMITTED, i) < pos(SUBMIT, k)) MC_CHECK(pos(BEGIN, i) < pos(BEGIN, k), "task %d, submitted before task %d, began after it", i, k);
}
void c04_parallel(int N) { // N tasks that wait for one another need N workers at once
    thread_pool pool; { mc::Quiet q; pool.start(N); } std::latch l(N); std::vector<std::future<void>> fs;
    bool two = mc::choose(2);
    for (int r = 0; r < 1; r++) for (int i = 0; i < N; i++) fs.push_back(pool.run([&] { l.arrive_and_wait(); }));
    if (two) for (int i = 0; i < 1; i++) fs.push_back(pool.run([] {}));
    for (auto& f : fs) f.get();
}
void c04_flags(int N) { // chained dependencies: task i waits for task i+1
    thread_pool pool; { mc::Quiet q; pool.start(N); } std::vector<std::future<void>> fs;
    for (int i = 0; i < N; i++) fs.push_back(pool.run([i, N] { if (i + 1 < N) mc::await(i + 1); mc::set(i); }));
    for (auto& f : fs) f.get();
}
void c04_prestart(int W, int n) { thread_pool pool; std::vector<std::future<int>> fs; for (int i = 0; i < n; i++) fs.push_back(pool.run(work, i * 4, i)); pool.start(W); for (int i = 0; i < n; i++) MC_CHECK(settle(fs[i], i * 4, i) == VALUE, "task queued before start was dropped"); for (int i = 0; i < n; i++) MC_CHECK(count(BEGIN, i * 4) == 1, "ran twice"); }

// the n-th copy of an argument or callable fails: the submission throws and submits nothing, or the future carries the exception
void c01_faults() {
    mc::Quiet q; Fuse::left = -1; Fuse::copies = Fuse::live = 0; int n = 1 + mc::choose(3), W = 1 + mc::choose(2), fuse = mc::choose(30), kind = mc::choose(4); bool before = mc::choose(2), stop = mc::choose(2); int blown = 0;
    { thread_pool pool; if (!before) pool.start(W); std::vector<std::pair<int, std::future<int>>> f; Fuse::set(fuse);
      for (int i = 0; i < n; i++) { int keep = Fuse::left; Fuse::set(-1); Fragile a(i), b(100 + i); int ran0 = count(BEGIN, i);
        auto call = [c = b](const Fragile& x) { mc::note(BEGIN, x.v); return x.v * 100 + c.v; }; Fuse::set(keep);
        try { std::optional<std::future<int>> g;
            if (kind == 0) g = pool.run([](Fragile x, const Fragile& y) { mc::note(BEGIN, x.v); return x.v * 100 + y.v; }, a, b);
            else if (kind == 1) g = pool.run([](const Fragile& x, const Fragile& y) { mc::note(BEGIN, x.v); return x.v * 100 + y.v; }, std::move(a), std::move(b));
            else if (kind == 2) g = pool.run(std::move(call), a);
            else g = pool.run(call, a);
            f.emplace_back(i, std::move(*g)); }
        catch (const Blown&) { blown++; MC_CHECK(count(BEGIN, i) == ran0, "a task ran whose submission failed"); } }
      if (before) pool.start(W);
      int failed = 0; if (!stop) for (auto& [i, g] : f) { try { MC_CHECK(g.get() == i * 100 + 100 + i && count(BEGIN, i) == 1, "outcome of task %d", i); } catch (const Blown&) { failed++; MC_CHECK(count(BEGIN, i) == 0, "task %d ran and failed", i); } }
      MC_CHECK(blown + failed <= 1, "one failure hits several tasks"); Fuse::set(-1); if (stop) pool.stop(); for (int i = 0; i < n; i++) MC_CHECK(count(BEGIN, i) <= 1, "ran twice");
      if (!stop) { std::latch l(W); std::vector<std::future<void>> g; for (int i = 0; i < W; i++) g.push_back(pool.run([&l] { l.arrive_and_wait(); })); for (auto& x : g) x.get(); } }
    MC_CHECK(Fuse::live == 0, "%d arguments leaked or destroyed twice", Fuse::live);
}
// ---- large sessions and callables of every size (the default schedule, every parameter combination)
const int SIZES[] = {1, 2, 5, 9, 16, 17, 31, 33, 63, 65, 100, 128, 129, 255, 257, 300};
void c01_many() { // n tasks on W workers, submitted before or after the start, some of which throw
    mc::Quiet q; thread_pool pool; int n = SIZES[mc::choose(16)], W = 1 + mc::choose(3); bool before = mc::choose(2); if (!before) pool.start(W);
    std::vector<std::future<int>> f; for (int i = 0; i < n; i++) f.push_back(pool.run([](int id, int arg) { mc::note(BEGIN, id); if (id % 4 == 3) throw Boom(id); return id * 100 + arg; }, i, i + 7));
    if (before) pool.start(W);
    for (int i = 0; i < n; i++) MC_CHECK(settle(f[i], i, i + 7) != BROKEN, "task %d of %d on a running pool was dropped", i, n);
    std::vector<int> ran(n); for (size_t i = 0; i < mc::nevents(); i++) if (mc::event(i).tag == BEGIN) ran.at(mc::event(i).a)++;
    for (int i = 0; i < n; i++) MC_CHECK(ran[i] == 1, "task %d of %d ran %d times", i, n, ran[i]);
}
template <size_t N, size_t A> struct alignas(A) Blob { // a callable (and an argument) of N bytes which knows its contents and its alignment
    unsigned char b[N]; explicit Blob(int s) { for (size_t i = 0; i < N; i++) b[i] = (unsigned char)(s + i * 7); }
    int check(int s) const { MC_CHECK((uintptr_t)this % A == 0, "object of alignment %zu at %p", A, (const void*)this); for (size_t i = 0; i < N; i++) MC_CHECK(b[i] == (unsigned char)(s + i * 7), "byte %zu of an object of %zu bytes changed", i, N); return s; }
    int operator()() const { return check(3); } int operator()(const Blob& o) const { return check(4) + o.check(9); }
};
template <size_t N, size_t A = 1> void blob(thread_pool& p) { Blob<N, A> c(3), d(4), a(9); auto f = p.run(c), g = p.run(d, a), h = p.run([c, a] { return c.check(3) + a.check(9) * 2; }); MC_CHECK(f.get() == 3 && g.get() == 13 && h.get() == 21, "result of a callable of %zu bytes", N); }
void c01_sizes() {
    mc::Quiet q; thread_pool p; int W = 1 + mc::choose(2); bool gate = mc::choose(2); p.start(W); if (gate) p.run([] { mc::await(0); });
    std::jthread rel([] { mc::set(0); });
    blob<1>(p); blob<4>(p); blob<8>(p); blob<16>(p); blob<17>(p); blob<24>(p); blob<32>(p); blob<33>(p); blob<48>(p); blob<64>(p); blob<65>(p); blob<128>(p); blob<129>(p); blob<256>(p); blob<257>(p); blob<1000>(p); blob<5000>(p);
    blob<16, 16>(p); blob<32, 16>(p); blob<32, 32>(p); blob<64, 32>(p); blob<64, 64>(p); blob<128, 128>(p);
    auto u = p.run([] { return std::make_unique<int>(5); }); MC_CHECK(*u.get() == 5, "move-only result"); static int cell; auto r = p.run([]() -> int& { return cell; }); MC_CHECK(&r.get() == &cell, "reference result");
    std::string big(3000, 'x'); auto s = p.run([](std::string a, const std::string& b) { return a + b; }, big, std::string("y")); big.assign(3000, 'z'); MC_CHECK(s.get() == std::string(3000, 'x') + "y", "large argument");
    auto w = std::make_shared<int>(1); std::weak_ptr<int> k = w; auto t = p.run([w] { return *w; }); w.reset(); MC_CHECK(t.get() == 1, "captured object");
}
void c02_many() { // n tasks of which those not begun are discarded
    mc::Quiet q; int n = SIZES[mc::choose(16)], W = 1 + mc::choose(3); bool destroy = mc::choose(2), started = mc::choose(2); auto pool = std::make_unique<thread_pool>(); if (started) pool->start(W);
    std::vector<std::future<int>> f; for (int i = 0; i < n; i++) f.push_back(pool->run([](int id) { mc::note(BEGIN, id); if (id < 3) mc::await(0); return id * 100; }, i));
    std::jthread rel([] { mc::set(0); });
    if (started && !destroy) { MC_CHECK(pool->stop(), "stop"); MC_CHECK(mc::live_threads() <= 2, "workers alive"); } else pool.reset();
    std::vector<int> ran(n); for (size_t i = 0; i < mc::nevents(); i++) if (mc::event(i).tag == BEGIN) ran.at(mc::event(i).a)++;
    for (int i = 0; i < n; i++) { MC_CHECK(ready(f[i]), "future of task %d of %d not ready after stop", i, n); try { int v = f[i].get(); MC_CHECK(ran[i] == 1 && v == i * 100, "task %d ran %d times", i, ran[i]); } catch (const std::future_error& e) { MC_CHECK(ran[i] == 0 && e.code() == std::future_errc::broken_promise, "task %d ran %d times", i, ran[i]); } }
    if (pool) { size_t before = mc::nevents(); pool->start(1); auto g = pool->run(work, 4, 1); MC_CHECK(settle(g, 4, 1) == VALUE, "restart"); for (size_t i = before; i < mc::nevents(); i++) MC_CHECK(mc::event(i).tag != BEGIN || mc::event(i).a == 4, "a discarded task ran"); }
}
void c02_cycles() { // many sessions: what is discarded stays discarded
    mc::Quiet q; thread_pool pool; int W = 1 + mc::choose(2); std::vector<std::pair<std::future<int>, int>> f; int id = 0;
    for (int s = 0; s < 22 / W; s++) { for (int i = 0; i < 2; i++, id++) f.emplace_back(pool.run([](int k) { mc::note(BEGIN, k); return k * 100; }, id), s); MC_CHECK(pool.start(W), "start %d", s); if (s % 3 == 0) f.back().first.wait(); f.emplace_back(pool.run([](int k) { mc::note(BEGIN, k); return k * 100; }, id), s); id++; MC_CHECK(pool.stop(), "stop %d", s); for (auto& x : f) MC_CHECK(ready(x.first), "session %d: a future is not ready", s); }
    for (int i = 0; i < id; i++) { int n = count(BEGIN, i); MC_CHECK(n <= 1, "ran twice"); try { MC_CHECK(f[i].first.get() == i * 100 && n == 1, "value"); } catch (const std::future_error&) { MC_CHECK(n == 0, "broken promise of an executed task"); } }
}
void c03_sizes(unsigned procs) { // every requested size, on machines of several sizes
    mc::Quiet q; static const unsigned req[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 19, 20, 21, 64, 255, 256, 65535, 65536, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}; unsigned r = req[mc::choose(21)]; thread_pool pool; unsigned want = r < 1 ? 1 : r > procs ? procs : r;
    for (int i = 0; i < (want > 11 ? 1 : 2); i++) { MC_CHECK(pool.start(r), "start"); MC_CHECK(pool.threads_count() == want && mc::live_threads() == (int)want + 1 && pool.is_running(), "start(%u) on %u processors: %zu workers reported, %d alive", r, procs, pool.threads_count(), mc::live_threads() - 1); auto f = pool.run(work, 1, 1); MC_CHECK(settle(f, 1, 1) == VALUE, "does not work"); MC_CHECK(pool.stop() && pool.threads_count() == 0 && mc::live_threads() == 1, "stop"); }
}
void c04_fifo_many() {
    mc::Quiet q; thread_pool pool; int n = SIZES[mc::choose(16)]; int mode = mc::choose(3); if (mode) pool.start(1); std::vector<std::future<void>> f; // before the start; on an idle worker; behind a running task
    if (mode == 2) pool.run([] { mc::await(0); });
    for (int i = 0; i < n; i++) f.push_back(pool.run([](int id) { mc::note(BEGIN, id); mc::note(END, id); }, i));
    std::jthread rel([] { mc::set(0); }); if (!mode) pool.start(1); for (auto& x : f) x.get();
    int next = 0; for (size_t i = 0; i < mc::nevents(); i++) if (mc::event(i).tag == BEGIN) { MC_CHECK(mc::event(i).a == next, "task %ld of %d began when task %d was next", (long)mc::event(i).a, n, next); next++; }
    MC_CHECK(next == n, "%d of %d tasks ran", next, n);
}
void c04_wide() { // N workers really are N: as many tasks as workers wait for one another, again and again
    mc::Quiet q; int N = 1 + mc::choose(20); thread_pool pool; bool before = mc::choose(2); if (!before) pool.start(N); 
    for (int r = 0; r < 3; r++) { std::latch l(N); std::vector<std::future<void>> f; for (int i = 0; i < N; i++) f.push_back(pool.run([&l] { l.arrive_and_wait(); })); if (before && !r) pool.start(N); for (auto& x : f) x.get(); }
}
// ---- two pools: what is done to one leaves the other alone
void c02_two_pools(int W) { // one is stopped (with a running and a queued task) while the other runs
    thread_pool a, b; { mc::Quiet q; a.start(W); b.start(W); }
    auto gated = [](int g, int id) { mc::log(BEGIN, id); mc::await(g); mc::log(END, id); return id * 100 + 1; };
    std::future<int> ga = a.run(gated, 0, 0), gb = b.run(gated, 1, 4), qa = a.run(work, 8, 1), qb = b.run(work, 12, 1);
    std::jthread rel([] { mc::set(0); }); MC_CHECK(a.stop(), "stop"); rel.join();
    MC_CHECK(!a.is_running() && b.is_running() && a.threads_count() == 0 && (int)b.threads_count() == W && mc::live_threads() == W + 1, "state of the two pools");
    MC_CHECK(ready(ga) && ready(qa), "a future of the stopped pool is not ready"); MC_CHECK(settle(ga, 0, 1) == (count(BEGIN, 0) ? VALUE : BROKEN) && settle(qa, 8, 1) == (count(BEGIN, 8) ? VALUE : BROKEN), "outcome"); MC_CHECK(count(END, 4) == 0, "gate");
    if (W > 1) MC_CHECK(settle(qb, 12, 1) == VALUE, "dropped"); mc::set(1); MC_CHECK(settle(gb, 4, 1) == VALUE && (W > 1 || settle(qb, 12, 1) == VALUE), "a task of the other pool is dropped");
    auto f = b.run(work, 16, 1); MC_CHECK(settle(f, 16, 1) == VALUE, "the other pool does not work"); for (int i : {4, 12, 16}) MC_CHECK(count(BEGIN, i) == 1, "ran twice");
}
void c02_two_histories() { // every history of two pools
    mc::Quiet q; std::unique_ptr<thread_pool> p[2]; std::vector<std::pair<int, std::future<int>>> wait[2]; int n[2] = {0, 0}, id = 0; for (auto& x : p) x = std::make_unique<thread_pool>();
    for (int i = 0; i < (mc::thorough() ? 6 : 5); i++) {
        int k = mc::choose(2), op = mc::choose(4); auto drop = [&] { for (auto& x : wait[k]) { MC_CHECK(ready(x.second), "not ready"); MC_CHECK(settle(x.second, x.first, 1) == BROKEN, "ran"); } wait[k].clear(); };
        if (op == 0) { MC_CHECK(p[k]->start(1 + k) == !n[k], "start"); n[k] = 1 + k; } else if (op == 1) { MC_CHECK(p[k]->stop() == !!n[k], "stop"); n[k] = 0; }
        else if (op == 2) { wait[k].emplace_back(id, p[k]->run(work, id + 0, 1)); id += 4; } else { p[k] = std::make_unique<thread_pool>(); n[k] = 0; drop(); }
        for (int x = 0; x < 2; x++) { if (n[x]) { for (auto& f : wait[x]) MC_CHECK(settle(f.second, f.first, 1) == VALUE, "a task of a running pool is dropped"); wait[x].clear(); } else for (auto& f : wait[x]) MC_CHECK(!ready(f.second) && count(BEGIN, f.first) == 0, "a task of a pool that is not running"); MC_CHECK(p[x]->is_running() == !!n[x] && (int)p[x]->threads_count() == n[x], "state of pool %d after operation %d on pool %d", x, op, k); }
        MC_CHECK(mc::live_threads() == 1 + n[0] + n[1], "workers");
    }
    for (int i = 0; i < id; i += 4) MC_CHECK(count(BEGIN, i) <= 1, "ran twice");
}
void c04_two_parallel() { // the workers of one pool are not lent to another: N tasks of each wait for one another, also across the pools
    mc::Quiet q; int N = 1 + mc::choose(4), M = 1 + mc::choose(4); bool across = mc::choose(2); thread_pool a, b; a.start(N); b.start(M); std::latch la(across ? N + M : N), lb(M); std::vector<std::future<void>> f; for (int i = 0; i < N; i++) f.push_back(a.run([&] { la.arrive_and_wait(); })); for (int i = 0; i < M; i++) f.push_back(b.run([&] { (across ? la : lb).arrive_and_wait(); })); for (auto& x : f) x.get();
}
// ---- exhaustion: a thread cannot be created, or memory runs out, while start or run executes. Either the call works or it throws and has done nothing
void c03_exhausted(int W, bool threads, int last) {
    thread_pool pool; std::future<int> q1 = pool.run(work, 0, 1); int n = 1 + mc::choose(last); bool failed = false, destroy = mc::choose(2);
    threads ? mc::fault_thread(n) : mc::fault_alloc(n); try { MC_CHECK(pool.start(W), "start of a stopped pool is refused"); } catch (const std::system_error&) { failed = threads; MC_CHECK(threads, "start throws a system_error"); } catch (const std::bad_alloc&) { failed = true; MC_CHECK(!threads, "start throws bad_alloc"); }
    mc::fault_alloc(0); mc::fault_thread(0);
    if (failed) { MC_CHECK(!pool.is_running() && pool.threads_count() == 0 && mc::live_threads() == 1, "after a start that failed at its %s %d: running %d, %zu workers reported, %d alive", threads ? "thread" : "allocation", n, pool.is_running(), pool.threads_count(), mc::live_threads() - 1); MC_CHECK(!pool.stop(), "stop of a pool whose start failed reports true"); }
    else MC_CHECK(pool.is_running() && (int)pool.threads_count() == W && mc::live_threads() == 1 + W && (!threads || n > W), "after a start that worked");
    if (destroy) return;
    if (failed) { MC_CHECK(!ready(q1), "the queued task is gone"); MC_CHECK(pool.start(W) && pool.is_running() && (int)pool.threads_count() == W && mc::live_threads() == 1 + W, "start after a failed one"); }
    MC_CHECK(settle(q1, 0, 1) == VALUE && count(BEGIN, 0) == 1, "the queued task is dropped"); auto f = pool.run(work, 4, 1); MC_CHECK(settle(f, 4, 1) == VALUE, "does not work"); std::latch l(W); std::vector<std::future<void>> fs; for (int i = 0; i < W; i++) fs.push_back(pool.run([&l] { l.arrive_and_wait(); })); for (auto& x : fs) x.get();
}
void c01_exhausted() {
    mc::Quiet q; thread_pool pool; int W = 1 + mc::choose(2), n = 1 + mc::choose(4), k = 1 + mc::choose(40), failed = 0; bool before = mc::choose(2), stop = mc::choose(2); if (!before) pool.start(W); std::vector<std::pair<int, std::future<int>>> f; f.reserve(8); int pre = mc::choose(3) * 14; for (int i = 0; i < pre; i++) pool.run([] {});
    std::string big(100, 'x'); mc::fault_alloc(k);
    for (int i = 0; i < n; i++) { try { f.emplace_back(i, pool.run([](int id, const std::string& s) { mc::note(BEGIN, id); MC_CHECK(s.size() == 100, "argument"); return id * 100; }, i, big)); } catch (const std::bad_alloc&) { failed++; } }
    mc::fault_alloc(0); MC_CHECK(failed <= 1 && (int)f.size() + failed == n, "%d submissions failed", failed); if (before) pool.start(W);
    if (!stop) { for (auto& x : f) MC_CHECK(x.second.get() == x.first * 100, "result"); std::latch l(W); std::vector<std::future<void>> g; for (int i = 0; i < W; i++) g.push_back(pool.run([&l] { l.arrive_and_wait(); })); for (auto& x : g) x.get(); }
    pool.stop(); std::vector<int> ran(n); for (size_t i = 0; i < mc::nevents(); i++) if (mc::event(i).tag == BEGIN) ran.at(mc::event(i).a)++;
    for (auto& x : f) { if (stop) { MC_CHECK(ready(x.second), "not ready"); try { MC_CHECK(x.second.get() == x.first * 100 && ran[x.first] == 1, "result"); } catch (const std::future_error&) { MC_CHECK(ran[x.first] == 0, "outcome"); } } else MC_CHECK(ran[x.first] == 1, "ran %d times", ran[x.first]); ran[x.first] = 0; } for (int r : ran) MC_CHECK(r == 0, "a task ran whose submission failed");
}
// Each of many submissions is tried with its first allocation failing, then its second, and so on, until it succeeds: the
// internal storage of the queue grows somewhere among them, wherever that is.
void c01_exhausted_many() {
    mc::Quiet q; thread_pool pool; const int n = 150; int W = 1 + mc::choose(2), pre = mc::choose(3) * 23; bool gated = mc::choose(2); std::latch gate(1), taken(W);
    if (pre) { pool.start(W); for (int i = 0; i < pre; i++) pool.run([] {}).get(); if (!gated) pool.stop(); } else if (gated) pool.start(W);
    if (gated) { for (int i = 0; i < W; i++) pool.run([&] { taken.count_down(); gate.wait(); }); taken.wait(); }
    std::vector<std::future<int>> f; f.reserve(n); std::vector<int> ran(n), bad(n); int tries = 0;
    for (int i = 0; i < n; i++) for (int k = 1;; k++) {
        auto good = [i, k](int id) { mc::note(BEGIN, id, k); return id * 100 + k; }; bool failed = false; std::future<int> r; mc::fault_alloc(k);
        try { r = pool.run(good, i); } catch (const std::bad_alloc&) { failed = true; }
        int left = mc::fault_alloc(0); MC_CHECK(!failed || left == 0, "submission %d fails although no allocation does", i);
        tries++; MC_CHECK(k < 60, "no end"); if (!failed) { f.push_back(std::move(r)); bad[i] = k; break; }
    }
    if (gated) gate.count_down(); else pool.start(W);
    for (int i = 0; i < n; i++) MC_CHECK(f[i].get() == i * 100 + bad[i], "result of %d", i); pool.stop();
    for (size_t i = 0; i < mc::nevents(); i++) if (mc::event(i).tag == BEGIN) { ran.at(mc::event(i).a)++; MC_CHECK(mc::event(i).b == bad[mc::event(i).a], "task %d of a submission which failed", (int)mc::event(i).a); }
    for (int i = 0; i < n; i++) MC_CHECK(ran[i] == 1, "task %d ran %d times", i, ran[i]);
}
template <class F> void add_seq(const char* name, F fn, int nprocs = 3) { mc::Scenario s; s.name = name; s.fn = fn; s.nprocs = nprocs; s.seq = true; s.quick = {0, 0, 0, 60}; s.thorough = {0, 0, 0, 60}; mc::add(s); }
template <class F> void add(const char* name, F fn, int qb, int tb, int nprocs = 3, int qs = 0, int ts = 1, bool delay = false) {
    mc::Scenario s; s.name = name; s.fn = fn; s.nprocs = nprocs; s.delay = delay; s.quick = {qb, 0, qs, 120}; s.thorough = {tb, 0, ts, 150};
    if (getenv("QB")) s.quick = {atoi(getenv("QB")), 0, qs, 60};
    mc::add(s);
}
}
void register_scenarios() {
    add("C01/1x2-w1", [] { c01(1, 2, 1); }, 3, 9);
    add("C01/1x3-w2", [] { c01(1, 3, 2); }, 2, 9);
    add("C01/2x1-w1", [] { c01(2, 1, 1); }, 2, 9);
    add("C01/2x2-w1", [] { c01(2, 2, 1); }, 2, 9);
    add("C01/2x1-w2", [] { c01(2, 1, 2); }, 2, 9);
    add("C01/2x2-w2", [] { c01(2, 2, 2); }, 1, 9);
    add("C01/2x2-w2-delay", [] { c01(2, 2, 2); }, 3, 6, 3, 0, 0, true);
    add("C01/3x1-w3", [] { c01(3, 1, 3); }, 2, 5, 3, 0, 0, true);
    add("C01/kinds", c01_kinds, 1, 9);
    add("C01/nested-w2", c01_nested, 2, 9);
    add("C01/stall-w2", [] { c01_stall(2, 0, 1); }, 1, 9);
    add("C01/stall-w2-pre", [] { c01_stall(2, 1, 1); }, 1, 5);
    add("C01/stall-w3", [] { c01_stall(3, 0, 1); }, 0, 3);
    add_seq("C01/stall-wide", c01_stall_wide, 8);
    add_seq("C01/depends", c01_depends, 8);
    add("C02/task-waits-w1", [] { c02_task_waits(1, false); }, 2, 9);
    add("C02/task-waits-w2", [] { c02_task_waits(2, false); }, 1, 9);
    add("C02/task-waits-destroy", [] { c02_task_waits(1, true); }, 2, 9);
    add("C02/stop-w1-g1-q2", [] { c02(1, 1, 2, false, false); }, 2, 9);
    add("C02/stop-w2-g1-q2", [] { c02(2, 1, 2, false, false); }, 2, 9);
    add("C02/stop-w2-g2-q1", [] { c02(2, 2, 1, false, false); }, 2, 9);
    add("C02/destroy-w2-g1-q2", [] { c02(2, 1, 2, true, false); }, 2, 9);
    add("C02/stop-waiter-w1", [] { c02(1, 1, 1, false, true); }, 2, 9);
    add("C02/destroy-waiter-w1", [] { c02(1, 0, 2, true, true); }, 2, 9);
    add("C02/stop-idle-w3", [] { c02(3, 0, 1, false, false); }, 1, 9);
    add("C02/submit-races-stop-w1", [] { c02_race(1); }, 2, 9);
    add("C02/submit-races-stop-w2", [] { c02_race(2); }, 2, 9);
    add("C02/task-submits", c02_task_submits, 3, 9);
    add("C03/start-start", [] { c03_start_race(2); }, 2, 9);
    add("C03/start-start-start", [] { c03_start_race(3); }, 1, 9);
    add("C03/stop-stop", [] { c03_stop_race(2); }, 2, 9);
    add("C03/stop-stop-stop", [] { c03_stop_race(3); }, 1, 9);
    add("C03/start-vs-stop", c03_start_stop_race, 2, 9);
    add("C03/sequences", c03_sequence, 0, 1);
    add("C03/default-size", c03_default, 1, 9);
    add("C04/fifo-3", [] { c04_fifo(3); }, 2, 9);
    add("C04/order-w1", [] { c04_submission_order(1); }, 1, 9);
    add("C04/parallel-2", [] { c04_parallel(2); }, 2, 9);
    add("C04/parallel-3", [] { c04_parallel(3); }, 1, 9);
    add("C04/chain-3", [] { c04_flags(3); }, 1, 9);
    add("C04/prestart-w1-3", [] { c04_prestart(1, 3); }, 2, 9);
    add("C04/prestart-w2-3", [] { c04_prestart(2, 3); }, 2, 9);
    add_seq("C01/faults", c01_faults);
    add_seq("C01/many", c01_many);
    add_seq("C01/sizes", c01_sizes);
    add_seq("C02/many", c02_many);
    add_seq("C02/cycles", c02_cycles);
    add_seq("C03/sizes-1", [] { c03_sizes(1); }, 1);
    add_seq("C03/sizes-2", [] { c03_sizes(2); }, 2);
    add_seq("C03/sizes-8", [] { c03_sizes(8); }, 8);
    add_seq("C03/sizes-20", [] { c03_sizes(20); }, 20);
    add_seq("C04/fifo-many", c04_fifo_many);
    add_seq("C04/wide", c04_wide, 20);
    add("C02/two-pools-w1", [] { c02_two_pools(1); }, 1, 3);
    add("C02/two-pools-w2", [] { c02_two_pools(2); }, 0, 2);
    add_seq("C02/two-histories", c02_two_histories);
    add("C03/no-threads-w1", [] { c03_exhausted(1, true, 2); }, 1, 9);
    add("C03/no-threads-w2", [] { c03_exhausted(2, true, 3); }, 1, 3);
    add_seq("C03/no-threads-w3", [] { mc::Quiet q; c03_exhausted(3, true, 4); });
    add("C03/no-memory-w1", [] { c03_exhausted(1, false, 10); }, 0, 2);
    add("C03/no-memory-w2", [] { c03_exhausted(2, false, 10); }, 0, 1);
    add_seq("C01/no-memory", c01_exhausted);
    add_seq("C01/no-memory-many", c01_exhausted_many);
    add_seq("C04/two-pools", c04_two_parallel, 8);
}
